"""Library meaning, part 3: associative containers, gtsam values and factor graphs."""
from .terms import *
from .values import *
from . import values as V
from .values import Unsupported
from .models import Models
from . import dicts as D

DICTS = ('std::map', 'std::unordered_map', 'gtsam::Values')
CLASSES = {c: ord(c) << 40 for c in 'abcdefghijklmnopqrstuvwxyz'}


class Dict:
    # ------------------------------------------------------------ shape
    def dkind(self, ty):
        kd = self.I.P.kd(ty)
        if kd[0] != 'dict':
            raise Unsupported('container %r' % (kd,))
        return kd

    def dpair(self, ty):
        """(pair type, offset of the key, type of the key, offset of the value, type of the value) of the entries"""
        P = self.I.P
        ty = P.strip(ty)
        c = self.dpairs.get(ty)
        if c is None:
            kd = self.dkind(ty)
            if kd[3] == 'gk':
                for i, r in enumerate(P.recs):
                    if r['n'].startswith('gtsam::Values::') and r['n'].endswith('ConstKeyValuePair') and r.get('f') and P.rec_type(i) is not None:
                        c = (P.rec_type(i), r['f'][0]['o'], r['f'][0]['t'], r['f'][1]['o'], r['f'][1]['t'])
            else:
                for i, r in enumerate(P.recs):
                    ta = r.get('ta', [])
                    if r['n'] == 'std::pair' and r.get('f') and len(ta) == 2 and 't' in ta[0] and 't' in ta[1] and P.rec_type(i) is not None:
                        if P.strip(ta[0]['t']) == P.strip(kd[1]) and P.strip(ta[1]['t']) == P.strip(kd[2]) and P.isconst(ta[0]['t']):
                            c = (P.rec_type(i), r['f'][0]['o'], kd[1], r['f'][1]['o'], kd[2])
            if c is None:
                c = (None, 0, kd[1], None, kd[2])
            self.dpairs[ty] = c
        return c

    def dkey(self, a, kd):
        v = self.I.load(a)
        if kd[3] in ('int', 'gk'):
            if isinstance(v, Poly) or isinstance(v, G):
                return v
            return tonum(v)
        if isinstance(v, Str) or isinstance(v, T) or isinstance(v, G):
            return v
        raise Unsupported('container key %r' % (v,))

    def dvalue(self, v):
        return self.I.norm_rec(v) if isinstance(v, Rec) else v

    # ------------------------------------------------------------ iterators
    def dsnap(self, ref, ty):
        """location standing for the entries of the container at this moment"""
        I = self.I
        m = I.load(ref)
        key = (ref, m)
        loc = I.snapof.get(key)
        if loc is None:
            loc = ('snap', len(I.snaps))
            I.snaps[loc] = (ref, m, I.P.strip(ty))
            I.snapof[key] = loc
        return loc, m

    def dit(self, ref, ty, f, rev=False):
        """iterator at position f(container)"""
        if isinstance(ref, G):
            return gmap(lambda x: self.dit(x, ty, f, rev), ref)
        loc, m = self.dsnap(ref, ty)
        return It(Ref(loc), f(m), rev)

    def dsize(self, loc):
        _, m, ty = self.I.snaps[loc]
        return D.d_size(m, self.dkind(ty)[3])

    def at_end(self, it):
        _, m, ty = self.I.snaps[it.ref.loc]
        n = self.dsize(it.ref.loc)
        r = FALSE
        for x, c in cases(it.idx):
            a = D.one(x) if not it.rev else None
            if a is not None and aop(a) == 'rank':
                continue
            if a is not None and aop(a) == 'first' and aargs(a)[0] == n:
                q = D.fresh_index()
                r = bor(r, band(c, bnot(V.mk_any(n, subst(aargs(a)[1], {bound_var(aargs(a)[2]): pvar(q)}), q))))
                continue
            r = bor(r, band(c, neq(x, n)))
        return r

    def same_entry(self, x, y):
        a, b = self.at_end(x), self.at_end(y)
        if b.n == 1:
            return a
        if a.n == 1:
            return b
        kx, ky = self.entry_key(x), self.entry_key(y)
        return bor(band(a, b), band(band(bnot(a), bnot(b)), D.keq(kx, ky)))

    def entry_key(self, it):
        ref, m, ty = self.I.snaps[it.ref.loc]
        kd = self.dkind(ty)
        i = it.idx
        if it.rev:
            i = nsub(nsub(self.dsize(it.ref.loc), ONE), i)
        i = self.I.simp(i)
        return D.d_key(m, i, kd[3])

    def entry_ref(self, it):
        I = self.I
        ref, m, ty = I.snaps[it.ref.loc]
        kd = self.dkind(ty)
        if isinstance(ref, G):
            raise Unsupported('entry of one of several containers')
        key = self.entry_key(it)
        return gmap(lambda k: Ref(ref.loc, ref.path + (('mp', k, kd[3], I.P.strip(ty)),)), key) if isinstance(key, G) else \
            Ref(ref.loc, ref.path + (('mp', key, kd[3], I.P.strip(ty)),))

    def read_entry(self, m, step, rest):
        I = self.I
        key, kind, ty = step[1:]
        pt, ko, kt, vo, vt = self.dpair(ty)
        if kind == 'gk':
            if not rest:
                raise Unsupported('whole entry')
            if rest[0][1] == ko:
                return key
            v = D.d_at(m, key, kind, None)
            return I.read_path(v, rest[1:])
        if vo is None:
            raise Unsupported('entry layout')
        if not rest:
            v = Rec(pt, 'none')
            v = I.rec_put(v, ko, I.P.strip(kt), key)
            return I.rec_put(v, vo, I.P.strip(vt), D.d_at(m, key, kind, I.P.strip(vt)))
        s = rest[0]
        if s[0] != 'f':
            raise Unsupported('entry path')
        if s[1] < vo:
            return key
        v = D.d_at(m, key, kind, I.P.strip(vt))
        if s[1] == vo and I.P.strip(s[2]) == I.P.strip(vt):
            return I.read_path(v, rest[1:])
        return I.read_path(v, (('f', s[1] - vo, s[2]),) + tuple(rest[1:]))

    def write_entry(self, m, step, rest, val):
        I = self.I
        key, kind, ty = step[1:]
        if isinstance(m, G):
            out = None
            for x, c in m.cases:
                y = self.write_entry(x, step, rest, val)
                out = y if out is None else vite(c, y, out)
            return out
        pt, ko, kt, vo, vt = self.dpair(ty)
        if not rest or rest[0][0] != 'f' or vo is None or rest[0][1] < vo:
            raise Unsupported('write to an entry')
        s = rest[0]
        rest = tuple(rest[1:]) if s[1] == vo and I.P.strip(s[2]) == I.P.strip(vt) else (('f', s[1] - vo, s[2]),) + tuple(rest[1:])
        if rest:
            val = I.write_path(D.d_at(m, key, kind, I.P.strip(vt)), rest, val)
        else:
            val = I.coerce(val, I.P.strip(vt))
        return D.dpush(m, T('dupd', key, self.dvalue(val), kind, self.dtn(ty)))

    def dtn(self, ty):
        kd = self.dkind(ty)
        return 'gtsam::Value' if kd[2] is None else V.TYNAME(kd[2])

    def dput(self, ref, ty, op, *args):
        I = self.I
        if op == 'ddel':
            args += (None,)
        args += (self.dkind(ty)[3], self.dtn(ty))
        k = args[0]
        one = lambda x: D.dpush(x, T(op, *args)) if not isinstance(k, G) else \
            seq_push(x, gmap(lambda y: T(op, y, *args[1:]), k))
        I.write(ref, gmap(one, I.load(ref)))

    def dpairval(self, ty, it, ins):
        """pair of iterator and success"""
        I = self.I
        P = I.P
        r = P.recs[P.types[P.strip(ty)]['r']]
        v = Rec(P.strip(ty), 'none')
        v = I.rec_put(v, r['f'][0]['o'], P.strip(r['f'][0]['t']), it)
        return I.rec_put(v, r['f'][1]['o'], P.strip(r['f'][1]['t']), ins)

    # ------------------------------------------------------------ methods
    def dictmethod(self, rn, n, this, args, e, fn):
        I = self.I
        P = I.P
        ty = P.rec_type(fn['rec'])
        this = self.ref_of(this, ty)
        kd = self.dkind(ty)
        kty, vty, kind = kd[1:]
        m = I.load(this)
        if n == 'size':
            return D.d_size(m, kind)
        if n == 'empty':
            return neq(D.d_size(m, kind), ZERO)
        if n in ('count', 'contains', 'exists') and len(args) == 1:
            b = D.d_has(m, self.dkey(args[0], kd), kind)
            return tonum(b) if n == 'count' else b
        if n in ('begin', 'cbegin'):
            return self.dit(this, ty, lambda x: ZERO)
        if n in ('end', 'cend'):
            return self.dit(this, ty, lambda x: D.d_size(x, kind))
        if n in ('rbegin', 'crbegin'):
            return self.dit(this, ty, lambda x: ZERO, True)
        if n in ('rend', 'crend'):
            return self.dit(this, ty, lambda x: D.d_size(x, kind), True)
        if n == 'find':
            k = self.dkey(args[0], kd)
            return self.dit(this, ty, lambda x: vite(D.d_has(x, k, kind), D.d_rank(x, k, kind), D.d_size(x, kind)))
        if n in ('lower_bound', 'upper_bound'):
            k = self.dkey(args[0], kd)
            return self.dit(this, ty, lambda x: D.d_bound(x, k, kind, n == 'upper_bound'))
        if n == 'clear':
            I.write(this, SEQ0)
            return None
        if n == 'swap':
            o = I.load(args[0])
            I.write(args[0], m)
            I.write(this, o)
            return None
        if n == 'operator=':
            I.write(this, I.load(args[0]))
            return this
        if n in ('key_comp', 'value_comp', 'hash_function', 'get_allocator'):
            return T('ext', n)
        if n in ('reserve', 'rehash'):
            return None
        if n == 'erase' and len(args) == 1:
            a = I.load(args[0])
            if isinstance(a, It) or isinstance(a, G) and isinstance(a.cases[0][0], It):
                k = gmap(self.entry_key, a) if isinstance(a, G) else self.entry_key(a)
                self.dput(this, ty, 'ddel', k)
                return I.ptr_add(a, ONE)
            k = self.dkey(args[0], kd)
            h = D.d_has(m, k, kind)
            if rn == 'gtsam::Values':
                I.throw(bnot(h), 'gtsam::ValuesKeyDoesNotExist')
            self.dput(this, ty, 'ddel', k)
            return tonum(h)
        if rn == 'gtsam::Values':
            return self.valuesmethod(n, this, args, e, fn, m, kd, ty)
        if n in ('at', 'operator[]'):
            k = self.dkey(args[0], kd)
            if n == 'at':
                I.throw(bnot(D.d_has(m, k, kind)), 'std::out_of_range')
            else:
                h = D.d_has(m, k, kind)
                if h.n != 1:
                    self.dput(this, ty, 'dins', k, self.dvalue(self.default_elem(vty)))
            pt, ko, kt, vo, vt = self.dpair(ty)
            if vo is None:
                raise Unsupported('entry layout')
            st = lambda k: (('mp', k, kind, P.strip(ty)), ('f', vo, P.strip(vt)))
            one = lambda r: gmap(lambda x: Ref(r.loc, r.path + st(x)), k) if isinstance(k, G) else Ref(r.loc, r.path + st(k))
            return gmap(one, this) if isinstance(this, G) else one(this)
        if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign') and args:
            hint = I.load(args[0])
            if isinstance(hint, It):
                args = args[1:]
                n = 'emplace' if n == 'insert' else n
            if len(args) == 1:
                p = I.load(args[0])
                if isinstance(p, T):
                    if any(t.op in ('dset', 'dins') for t in ()):
                        pass
                    self.dinsall(this, p, kind)
                    return None
                if not isinstance(p, Rec):
                    raise Unsupported('insertion of %r' % (p,))
                r = P.recs[P.types[p.rt]['r']]
                fs = r['f']
                k = self.dkeyval(I.read_step(p, ('f', fs[0]['o'], P.strip(fs[0]['t']))), kind)
                v = self.to_type(I.read_step(p, ('f', fs[1]['o'], P.strip(fs[1]['t']))), vty)
            elif len(args) >= 2 and not isinstance(hint, It) or len(args) == 2:
                k = self.dkey(args[0], kd)
                if isinstance(I.load(args[0]), It):
                    raise Unsupported('insertion of a range')
                if len(args) == 2:
                    v = self.make(vty, args[1:], {'a': (e.get('a') or [None, None])[-1:]} if e else {})
                    v = self.to_type(v, vty)
                else:
                    v = self.make(vty, args[1:], {})
            else:
                raise Unsupported('insertion')
            h = D.d_has(m, k, kind)
            self.dput(this, ty, 'dset' if n == 'insert_or_assign' else 'dins', k, self.dvalue(v))
            if fn.get('ret') is None or P.types[fn['ret']]['c'] == 'void':
                return None
            it = self.dit(this, ty, lambda x: D.d_rank(x, k, kind))
            if P.kd(fn['ret'])[0] == 'it':
                return it
            return self.dpairval(fn['ret'], it, bnot(h))
        return NotImplemented

    def dkeyval(self, v, kind):
        return v

    def dinsall(self, this, s, kind):
        """insert the elements of a list of pairs, or of another container"""
        raise Unsupported('insertion of several elements')

    def dict_ctor(self, fn, args, ty, e, kd):
        I = self.I
        P = I.P
        if not args:
            return SEQ0
        vs = [I.load(a) for a in args]
        vs = [v for v in vs if not (isinstance(v, T) and v.op in ('undefobj', 'extobj'))]
        if not vs:
            return SEQ0
        v = vs[0]
        if isinstance(v, (T, G)) and fn.get('copy') or isinstance(v, T) and v.op not in ('push', 'seq', 'map', 'fill'):
            return v
        if isinstance(v, T) and v.op in ('undefobj', 'extobj'):
            return SEQ0
        # initialiser list of pairs
        els = []
        while isinstance(v, T) and v.op == 'push':
            els.append(v.args[1])
            v = v.args[0]
        if not (isinstance(v, T) and v.op == 'seq'):
            raise Unsupported('container from %r' % (v,))
        if els and D.is_op(els[0]):
            return vs[0]
        out = SEQ0
        for p in reversed(els):
            if not isinstance(p, Rec):
                raise Unsupported('container element %r' % (p,))
            fs = P.recs[P.types[p.rt]['r']]['f']
            k = I.read_step(p, ('f', fs[0]['o'], P.strip(fs[0]['t'])))
            w = I.read_step(p, ('f', fs[1]['o'], P.strip(fs[1]['t'])))
            out = seq_push(out, T('dins', k, self.dvalue(w), kd[3], self.dtn(ty)))
        return out

    # ------------------------------------------------------------ gtsam
    def valuesmethod(self, n, this, args, e, fn, m, kd, ty):
        I = self.I
        P = I.P
        if n == 'at':
            k = self.dkey(args[0], kd)
            I.throw(bnot(D.d_has(m, k, 'gk')), 'gtsam::ValuesKeyDoesNotExist')
            rt = P.strip(fn['ret'])
            if P.rname(rt) == 'gtsam::Value':
                return D.d_at(m, k, 'gk', None)
            return D.d_at(m, k, 'gk', rt)
        if n in ('insert', 'update', 'insert_or_assign') and len(args) == 2:
            k = self.dkey(args[0], kd)
            v = I.load(args[1])
            h = D.d_has(m, k, 'gk')
            if n == 'insert':
                I.throw(h, 'gtsam::ValuesKeyAlreadyExists')
            elif n == 'update':
                I.throw(bnot(h), 'gtsam::ValuesKeyDoesNotExist')
            self.dput(this, ty, {'insert': 'dins', 'update': 'dupd'}.get(n, 'dset'), k, self.dvalue(v))
            return None
        return NotImplemented

    def key_value(self, p):
        """the pair of a key and a reference to its content that an entry reads as"""
        I = self.I
        if not isinstance(p, Ref):
            raise Unsupported('entry of one of several containers')
        pt, ko, kt, vo, vt = self.dpair(p.path[-1][3])
        v = Rec(pt, 'none')
        v = I.rec_put(v, ko, I.P.strip(kt), p.path[-1][1])
        return I.rec_put(v, vo, vt, Ref(p.loc, p.path + (('f', vo, vt),)))

    def graphmethod(self, rn, n, this, args, e, fn):
        I = self.I
        P = I.P
        this = self.ref_of(this)
        s = I.load(this)
        if n in ('push_back', 'add', 'operator+=', 'emplace_shared'):
            if n == 'emplace_shared':
                raise Unsupported('emplace_shared')
            v = I.load(args[0])
            if P.kd(fn['pt'][0])[0] == 'seq':
                I.write(this, seq_cat_any(s, v))
            else:
                I.write(this, gmap(lambda x: seq_push(x, v), s))
            return this if n == 'operator+=' else None
        if n in ('size', 'nrFactors'):
            return seq_size(s)
        if n == 'empty':
            return neq(seq_size(s), ZERO)
        if n in ('operator[]', 'at') and len(args) == 1:
            i = tonum(I.load(args[0]))
            if n == 'at':
                I.throw(band(self._geq0ok(i), bnot(nlt(i, seq_size(s)))), 'std::out_of_range')
            return I.load(self.elem_ref(this, i, P.strip(fn['ret'])))
        if n in ('begin', 'cbegin'):
            return self.mk_it(this, ZERO)
        if n in ('end', 'cend'):
            return self.mk_it(this, seq_size(s))
        if n == 'operator=':
            I.write(this, I.load(args[0]))
            return this
        if n in ('reserve',):
            return None
        return NotImplemented


def seq_cat_any(s, v):
    if isinstance(s, G):
        return gmap(lambda x: seq_cat_any(x, v), s)
    if isinstance(v, G):
        return gmap(lambda x: seq_cat_any(s, x), v)
    return seq_cat(s, v)


for _k in ('std::less', 'std::greater', 'std::hash', 'std::equal_to', 'std::allocator'):
    Models.CTORS.setdefault(_k, lambda M, f, fn, args, ty, e: T('undefobj', 'functor'))

for _k, _v in list(Dict.__dict__.items()):
    if not _k.startswith('__'):
        setattr(Models, _k, _v)
