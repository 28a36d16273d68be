"""Library meaning, part 2: the C++ standard library, OpenCV, PCL and GTSAM functions the project uses."""
import sys
from .terms import *
from .values import *
from . import values as V
from .values import Unsupported
from .models import (Models, Comma, UNARY_OPAQUE, nsin, ncos, sgn_pow, finite, isnan, single_atom, mmul, iso, iso_R, iso_t,
                     mtrans, quat_rot, quat_of_any)

STREAMS = ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_iostream')
SEQS = ('std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::array')
PTRS = ('std::shared_ptr', 'boost::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')
STRS = ('std::__cxx11::basic_string', 'std::basic_string', 'std::basic_string_view')


def is_it(v):
    return isinstance(v, It) or (isinstance(v, G) and isinstance(v.cases[0][0], It))


def is_ptr(v):
    return isinstance(v, Ptr) or (isinstance(v, G) and any(isinstance(x, Ptr) for x, _ in v.cases))


def is_fn(v):
    return isinstance(v, Fn) or (isinstance(v, G) and isinstance(v.cases[0][0], Fn))


def unwrap_index(i):
    """a negative index converted to unsigned lies outside every sequence: only the other case is defined"""
    if isinstance(i, G) and len(i.cases) == 2:
        (x, _), (y, _) = i.cases
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Poly) and isinstance(b, Poly):
                d = psub(a, b)
                if d.is_const() and d.const() in (2 ** 64, 2 ** 32):
                    return b
    return i


DBG_BOUNDS = bool(__import__('os').environ.get('DBG_BOUNDS'))


class Std:
    # ------------------------------------------------------------ helpers
    def ref_of(self, this, ty=None):
        I = self.I
        if isinstance(this, (Ref, View)):
            return this
        if isinstance(this, G) and isinstance(this.cases[0][0], Ref):
            return this
        return I.as_place(this, ty)

    def elem_ref(self, this, idx, elty):
        I = self.I
        if isinstance(this, G):
            return gmap(lambda x: self.elem_ref(x, idx, elty), this)
        if isinstance(idx, G):
            return gmap(lambda i: Ref(this.loc, I.norm_path(this.path + (('e', i, elty),))), idx)
        return Ref(this.loc, I.norm_path(this.path + (('e', idx, elty),)))

    def mk_it(self, this, idx, rev=False):
        if isinstance(this, G):
            return gmap(lambda x: It(x, idx, rev), this)
        return It(this, idx, rev)

    def norm_elem(self, v):
        return self.I.norm_rec(v) if isinstance(v, Rec) else v

    def seq_slice(self, a, b):
        I = self.I
        if isinstance(a, G) or isinstance(b, G):
            raise Unsupported('guarded iterator range')
        if a.rev or b.rev:
            raise Unsupported('reverse range')
        s = I.load(a.ref)
        n = seq_size(s)
        if a.idx is ZERO and b.idx == n:
            return s
        return T('slice', s, a.idx, b.idx)

    def elty(self, fn):
        P = self.I.P
        r = fn['rec']
        ta = P.recs[r].get('ta', [])
        return P.strip(ta[0]['t'])

    # ------------------------------------------------------------ std:: methods
    def stdmethod(self, rn, n, this, args, e, fn):
        I = self.I
        P = I.P
        if fn.get('static'):
            if rn == 'std::numeric_limits':
                return self.numeric_limits(n, fn, e)
            return NotImplemented
        base = rn
        if base in STREAMS:
            # text built for messages: what was written is not tracked
            if n == 'str' and not args:
                return T('streamtext')
            return T('stream') if P.types[fn['ret']]['c'] != 'void' else None
        if base in ('std::_Vector_base', 'std::_Deque_base'):
            return NotImplemented
        if base == 'std::array' and P.kd(P.rec_type(fn['rec']))[0] == 'rec':
            return self.arraymethod(n, this, args, e, fn)
        if base in ('std::map', 'std::unordered_map'):
            return self.dictmethod(rn, n, this, args, e, fn)
        if base in SEQS:
            return self.seqmethod(rn, n, this, args, e, fn)
        if base in ('std::_Bit_reference',):
            if fn.get('conv') or n == 'operator bool':
                return I.load(this)
            if n == 'operator=':
                I.write(this, tobool(I.load(args[0])))
                return this
            return NotImplemented
        if base in PTRS:
            return self.ptrmethod(n, this, args, e, fn)
        if base in STRS:
            return self.strmethod(n, this, args, e, fn)
        if base == 'std::function':
            v = I.load(this)
            if n == 'operator()':
                return self.call_fnobj(v, args, e)
            if fn.get('conv') or n == 'operator bool':
                return self.fn_bool(v)
            if n == 'operator=':
                I.write(this, self.construct(None, {'n': 'function', 'q': 'std::function', 'rec': fn['rec'], 'pt': []}, args, P.rec_type(fn['rec']), e))
                return this
            return NotImplemented
        if 'iterator' in base:
            return self.itmethod(n, this, args, e, fn)
        if base == 'std::pair':
            if n == 'operator=':
                v = I.load(args[0])
                ty = P.rec_type(fn['rec'])
                if isinstance(v, Rec) and v.rt != ty:
                    v = self.pair_conv(v, ty)
                I.write(this, v)
                return this
            return NotImplemented
        if base in ('std::optional', 'boost::optional') or base.startswith('std::_Optional'):
            return self.optmethod(n, this, args, e, fn)
        if base == 'std::reference_wrapper':
            v = I.load(this)
            if n == 'get' or fn.get('conv'):
                return gmap(lambda x: I.deref(x), v) if isinstance(v, G) else I.deref(v)
            if n == 'operator=':
                I.write(this, I.load(args[0]))
                return this
        if base in ('std::_Bind', 'std::reference_wrapper'):
            v = I.load(this)
            if n == 'operator()':
                return self.call_fnobj(v, args, e)
            return NotImplemented
        if base in ('std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::less', 'std::greater', 'std::equal_to', 'std::logical_and', 'std::logical_or', 'std::negate'):
            vs = [I.load(a) for a in args]
            return self.functor(base, vs, fn)
        if base in ('std::mutex', 'std::lock_guard', 'std::unique_lock', 'std::condition_variable'):
            return None
        if fn.get('casg') and this is not None and isinstance(this, Ref):
            I.write(this, I.load(args[0]))
            return this
        return NotImplemented

    def functor(self, base, vs, fn):
        I = self.I
        op = {'std::plus': '+', 'std::minus': '-', 'std::multiplies': '*', 'std::divides': '/', 'std::less': '<', 'std::greater': '>', 'std::equal_to': '=='}.get(base)
        if op:
            return I.binop(op, vs[0], vs[1], fn['ret'])
        if base == 'std::logical_and':
            return band(tobool(vs[0]), tobool(vs[1]))
        if base == 'std::logical_or':
            return bor(tobool(vs[0]), tobool(vs[1]))
        return nneg(vs[0])

    def fn_bool(self, v):
        if isinstance(v, G):
            return gmap(self.fn_bool, v)
        if isinstance(v, Fn):
            if v.kind == 'empty':
                return FALSE
            if v.kind == 'ext':
                return bvar('fnset', v.f)
            return TRUE
        return tobool(v)

    def call_fnobj(self, v, args, e):
        I = self.I
        if isinstance(v, Fn) and v.kind == 'obj':
            place = v.data[0].ref
            return self.call_object(place, args, e)
        if isinstance(v, Fn) and v.kind == 'empty':
            I.throw(TRUE, 'std::bad_function_call')
            return None
        if isinstance(v, Rec):
            return self.call_object(I.as_place(v), args, e)
        if isinstance(v, Fn) and v.kind == 'ext':
            t = T('apply', v.f, tuple(self.argval(a) for a in args))
            return I.symval(t, e['t'])
        return I.call_value(v, args, e)

    def call_object(self, place, args, e):
        """call operator() of a functor object"""
        I = self.I
        P = I.P
        v = I.load(place)
        r = P.kd(v.rt)[1]
        for i, f in enumerate(P.fns):
            if f.get('rec') == r and f['n'] == 'operator()' and len(f['pt']) == len(args):
                return I.call_fn(i, place, args, e)
        raise Unsupported('call of an object')

    def numeric_limits(self, n, fn, e):
        P = self.I.P
        t = P.types[P.strip(P.recs[fn['rec']]['ta'][0]['t'])]
        if t['c'] == 'float':
            if t['w'] == 64:
                mx, mn, eps = Fraction(sys.float_info.max), Fraction(sys.float_info.min), Fraction(sys.float_info.epsilon)
            else:
                mx, mn, eps = Fraction(float.fromhex('0x1.fffffep127')), Fraction(float.fromhex('0x1p-126')), Fraction(float.fromhex('0x1p-23'))
            if n == 'max':
                return const(mx)
            if n == 'lowest':
                return const(-mx)
            if n == 'min':
                return const(mn)
            if n == 'epsilon':
                return const(eps)
            if n == 'infinity':
                return sym('const', 'inf')
            if n in ('quiet_NaN', 'signaling_NaN'):
                return sym('const', 'nan')
        if t['c'] == 'int':
            w, sg = t['w'], t.get('sg', True)
            if n == 'max':
                return const(2 ** (w - 1) - 1 if sg else 2 ** w - 1)
            if n in ('min', 'lowest'):
                return const(-2 ** (w - 1) if sg else 0)
        return NotImplemented

    def optmethod(self, n, this, args, e, fn):
        I = self.I
        v = gmap(lambda x: x.base if isinstance(x, Rec) and isinstance(x.base, T) and not x.over else x, I.load(this))
        if n in ('has_value', 'operator bool', 'is_initialized') or fn.get('conv'):
            return gmapB(lambda x: TRUE if x.op == 'some' else FALSE if x.op == 'none' else bvar('hasvalue', x), v)
        if n in ('operator->', 'operator*', 'value'):
            def get(x):
                if x.op == 'some':
                    return x.args[0]
                if x.op == 'none':
                    return None
                if el is None:
                    raise Unsupported('content of an unknown optional')
                return I.symval(T('optval', x), I.P.strip(el))
            ta = I.P.recs[fn['rec']].get('ta') or []
            el = ta[0].get('t') if ta else None
            if isinstance(v, G):
                I.throw(gmapB(lambda x: TRUE if x.op == 'none' else FALSE if x.op == 'some' else bnot(bvar('hasvalue', x)), v), OUTSIDE if n != 'value' else 'std::bad_optional_access')
                xs = [(get(x), c) for x, c in v.cases if x.op != 'none']
                if not xs:
                    raise Unsupported('content of an empty optional')
                r = mkG(xs) if len(xs) > 1 else xs[0][0]
            else:
                if v.op == 'none':
                    I.throw(TRUE, OUTSIDE if n != 'value' else 'std::bad_optional_access')
                    ta = I.P.recs[fn['rec']]['ta'][0]['t']
                    r = I.symval(T('undefobj', 'empty optional'), ta)
                else:
                    if v.op != 'some':
                        I.throw(bnot(bvar('hasvalue', v)), OUTSIDE if n != 'value' else 'std::bad_optional_access')
                    r = get(v)
            loc = I.newloc(None, r, 'opt')
            return Ptr(Ref(loc)) if n == 'operator->' else Ref(loc)
        if n in ('operator=', 'emplace'):
            x = I.load(args[0]) if args else None
            if n == 'operator=' and isinstance(x, (T, G)) and all(y.op in ('some', 'none') for y in ([x] if isinstance(x, T) else [z for z, _ in x.cases])):
                I.write(this, x)
            elif n == 'operator=' and isinstance(x, T) and x.op == 'nullopt':
                I.write(this, T('none'))
            else:
                I.write(this, T('some', x))
            return this
        if n == 'operator!':
            return gmapB(lambda x: FALSE if x.op == 'some' else TRUE if x.op == 'none' else bnot(bvar('hasvalue', x)), v)
        if n == 'reset':
            I.write(this, T('none'))
            return None
        if n == 'value_or':
            d = I.load(args[0])
            if isinstance(v, T) and v.op in ('some', 'none'):
                return v.args[0] if v.op == 'some' else d
        return NotImplemented

    def arraymethod(self, n, this, args, e, fn):
        """std::array: a record holding a fixed number of elements"""
        I = self.I
        P = I.P
        this = self.ref_of(this, P.rec_type(fn['rec']))
        f = P.recs[fn['rec']]['f'][0]
        ty = P.strip(f['t'])
        k = P.kd(ty)
        if k[0] != 'arr':
            return NotImplemented
        sz = k[2]

        def inner(r):
            return Ref(r.loc, I.norm_path(r.path + (('f', f['o'], ty),)))

        def at(r, i):
            return Ref(r.loc, I.norm_path(inner(r).path + (('e', const(i), k[1]),)))

        def elem(i):
            if isinstance(i, G):
                return gmap(elem, i)
            if i.is_const():
                j = int(i.const())
                if not 0 <= j < sz:
                    I.throw(TRUE, OUTSIDE)
                    j = 0
                return gmap(lambda r: at(r, j), this) if isinstance(this, G) else at(this, j)
            if isinstance(this, G):
                raise Unsupported('symbolic index into a guarded array')
            I.throw(bor(nlt(i, ZERO), bnot(nlt(i, const(sz)))), OUTSIDE)
            out = at(this, sz - 1)
            for j in range(sz - 1):
                out = vite(neq(i, const(j)), at(this, j), out)
            return out
        if n in ('size', 'max_size'):
            return const(sz)
        if n == 'empty':
            return FALSE if sz else TRUE
        if n in ('operator[]', 'at'):
            i = unwrap_index(tonum(I.load(args[0])))
            if n == 'at':
                I.throw(bor(nlt(i, ZERO), bnot(nlt(i, const(sz)))), 'std::out_of_range')
            return elem(i)
        if n == 'front':
            return elem(ZERO)
        if n == 'back':
            return elem(const(sz - 1))
        if n in ('begin', 'cbegin', 'end', 'cend'):
            if isinstance(this, G):
                raise Unsupported('iterator of a guarded array')
            return It(inner(this), ZERO if 'begin' in n else const(sz))
        if n == 'fill':
            for j in range(sz):
                I.write(elem(const(j)), self.to_type(I.load(args[0]), k[1]))
            return None
        if n == 'operator=':
            I.write(this, I.load(args[0]))
            return this
        return NotImplemented

    # ------------------------------------------------------------ sequences
    def seqmethod(self, rn, n, this, args, e, fn):
        I = self.I
        P = I.P
        this = self.ref_of(this, P.rec_type(fn['rec']))
        elt = self.elty(fn)
        if n in ('size', 'length'):
            return seq_size(I.load(this))
        if n == 'empty':
            return neq(seq_size(I.load(this)), ZERO)
        if n == 'max_size' or n == 'capacity':
            return T('ext', n)
        if n in ('operator[]', 'at'):
            i = tonum(I.load(args[0]))
            if n == 'at':
                sz = seq_size(I.load(this))
                I.throw(band(self._geq0ok(i), bnot(nlt(i, sz))), 'std::out_of_range')
            i = unwrap_index(i)
            if n != 'at':
                self.inside(this, i)
            return self.elem_ref(this, i, elt)
        if n == 'front':
            self.inside(this, ZERO)
            return self.elem_ref(this, ZERO, elt)
        if n == 'back':
            self.inside(this, ZERO)
            return self.elem_ref(this, nsub(seq_size(I.load(this)), ONE), elt)
        if n in ('begin', 'cbegin'):
            return self.mk_it(this, ZERO)
        if n in ('end', 'cend'):
            return self.mk_it(this, seq_size(I.load(this)))
        if n in ('rbegin', 'crbegin'):
            return self.mk_it(this, ZERO, True)
        if n in ('rend', 'crend'):
            return self.mk_it(this, seq_size(I.load(this)), True)
        if n == 'data':
            r = this
            return gmap(lambda x: Ptr(Ref(x.loc, x.path + (('d0',),))), r) if isinstance(r, G) else Ptr(Ref(r.loc, r.path + (('d0',),)))
        if n == 'push_back':
            v = I.load(args[0])
            v = self.to_type(v, elt)
            I.write(this, seq_push_any(I.load(this), self.norm_elem(self.slice_val(v, elt))))
            return None
        if n == 'emplace_back':
            v = self.make(elt, args, e)
            I.write(this, seq_push_any(I.load(this), self.norm_elem(v)))
            return self.elem_ref(this, nsub(seq_size(I.load(this)), ONE), elt)
        if n in ('push_front', 'emplace_front'):
            v = self.make(elt, args, e) if n == 'emplace_front' else self.to_type(I.load(args[0]), elt)
            I.write(this, seq_cat(seq_push(SEQ0, self.norm_elem(v)), I.load(this)))
            return None
        if n == 'pop_back':
            s = I.load(this)
            if isinstance(s, T) and s.op == 'push':
                I.write(this, s.args[0])
            else:
                I.write(this, gmap(lambda x: T('slice', x, ZERO, nsub(seq_size(x), ONE)), s))
            return None
        if n == 'pop_front':
            I.write(this, gmap(lambda x: T('slice', x, ONE, seq_size(x)), I.load(this)))
            return None
        if n == 'clear':
            I.write(this, SEQ0)
            return None
        if n in ('reserve', 'shrink_to_fit'):
            for a in args:
                I.load(a)
            return None
        if n == 'resize':
            k = tonum(I.load(args[0]))
            x = self.to_type(I.load(args[1]), elt) if len(args) > 1 else self.default_elem(elt)
            s = I.load(this)
            I.write(this, gmap(lambda q: seq_resize(q, k, self.norm_elem(x)), s))
            return None
        if n == 'assign':
            vs = [I.load(a) for a in args]
            if len(vs) == 2 and is_scalar(vs[0]) and not is_it(vs[0]):
                I.write(this, seq_fill(vs[0], self.norm_elem(self.to_type(vs[1], elt))))
                return None
            if len(vs) == 2 and is_it(vs[0]):
                I.write(this, self.seq_slice(vs[0], vs[1]))
                return None
            if len(vs) == 1 and isinstance(vs[0], T):
                I.write(this, vs[0])
                return None
        if n == 'operator=':
            v = I.load(args[0])
            I.write(this, v)
            return this
        if n == 'swap':
            a, b = I.load(this), I.load(args[0])
            I.write(this, b)
            I.write(args[0], a)
            return None
        if n == 'insert' and len(args) == 3:
            pos, a, b = [I.load(x) for x in args]
            s = I.load(this)
            if is_it(pos) and is_it(a) and not isinstance(pos, G) and pos.idx == seq_size(s):
                I.write(this, seq_cat(s, self.seq_slice(a, b)))
                return pos
            if is_it(pos) and is_scalar(a) and not isinstance(pos, G) and pos.idx == seq_size(s):
                I.write(this, seq_cat(s, seq_fill(a, self.norm_elem(b))))
                return pos
        if n in ('insert', 'emplace') and len(args) == 2:
            pos = I.load(args[0])
            s = I.load(this)
            if is_it(pos) and not isinstance(pos, G):
                x = self.norm_elem(self.to_type(I.load(args[1]), elt))
                if pos.idx == seq_size(s):
                    I.write(this, seq_push_any(s, x))
                    return pos
                if pos.idx is ZERO:
                    I.write(this, seq_cat(seq_push(SEQ0, x), s))
                    return pos
        return NotImplemented

    def inside(self, this, i):
        """a position given by loop counters and sizes must lie inside the sequence; outside is reported like an exception"""
        I = self.I
        if not isinstance(i, Poly) or not isinstance(this, Ref):
            return
        if any(aop(a) not in ('k', 'size') for m in i.d for a, _ in m):
            return
        try:
            sz = seq_size(I.load(this))
        except (Unsupported, AttributeError):
            return
        if not isinstance(sz, Poly) or any(aop(a) not in ('k', 'size', 'uns') for m in sz.d for a, _ in m):
            return
        if any(aop(a) == 'ext' or aop(a) == 'size' and getattr(aargs(a)[0], 'op', None) == 'ext' for p in (i, sz) for a in all_atoms(p)):
            return
        bad = bor(bnot(nlt(i, sz)), nlt(i, ZERO))
        if DBG_BOUNDS and band(I.live, bad).n:
            print('bounds', i, sz, band(I.live, bad))
        I.throw(bad, 'access outside the sequence')

    def _geq0ok(self, i):
        return TRUE

    def slice_val(self, v, elt):
        I = self.I
        if isinstance(v, Rec) and I.P.kd(elt)[0] == 'rec' and v.rt != elt:
            return I.coerce(v, elt)
        if isinstance(v, Mat) and I.P.kd(elt)[0] == 'mat':
            return self.convert_mat(v, I.P.kd(elt))
        return v

    # ------------------------------------------------------------ iterators
    def itmethod(self, n, this, args, e, fn):
        I = self.I
        v = I.load(this)
        if isinstance(v, Ptr) or not is_it(v):
            if not is_ptr(v):
                return NotImplemented
        if n in ('operator*', 'operator->'):
            p = I.deref(v)
            return p if n == 'operator*' else (gmap(Ptr, p) if isinstance(p, G) else Ptr(p))
        if n == 'operator[]':
            return I.deref(I.ptr_add(v, tonum(I.load(args[0]))))
        if n in ('operator++', 'operator--'):
            d = ONE if n == 'operator++' else const(-1)
            I.write(this, I.ptr_add(v, d))
            return v if args else this
        if n in ('operator+', 'operator-'):
            d = I.load(args[0])
            if is_it(d):
                return nsub(v.idx, d.idx)
            d = tonum(d)
            return I.ptr_add(v, d if n == 'operator+' else nneg(d))
        if n in ('operator+=', 'operator-='):
            d = tonum(I.load(args[0]))
            I.write(this, I.ptr_add(v, d if n == 'operator+=' else nneg(d)))
            return this
        if n == 'operator=':
            I.write(this, I.load(args[0]))
            return this
        if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            return I.cmp(n[8:], v, I.load(args[0]))
        if n == 'base' and isinstance(v, It):
            if v.rev:
                return It(v.ref, nsub(I.seq_len(v.ref), v.idx))
            return v
        return NotImplemented

    # ------------------------------------------------------------ smart pointers
    def ptrmethod(self, n, this, args, e, fn):
        I = self.I
        v = I.load(this)
        if n in ('get', '_M_get', 'operator->'):
            return v
        if n == 'operator*':
            return I.deref(v, None)
        if fn.get('conv') or n == 'operator bool':
            return bnot(I.equal(v, NULL)) if not isinstance(v, T) else tobool(v)
        if n == 'reset':
            I.write(this, I.load(args[0]) if args else NULL)
            return None
        if n == 'operator=':
            I.write(this, I.load(args[0]) if args else NULL)
            return this
        if n == 'swap':
            w = I.load(args[0])
            I.write(this, w)
            I.write(args[0], v)
            return None
        return NotImplemented

    def make_ptr(self, ty, args, e):
        I = self.I
        P = I.P
        rn = P.rname(P.strip(ty)) or ''
        if rn.startswith('gtsam::') and rn.endswith('Factor'):
            # a factor never changes: it is what its constructor was given
            vs = tuple(I.norm_rec(v) if isinstance(v, Rec) else v for v in (I.load(a) for a in args))
            return Ptr(Ref(('obj', T('made', P.tname(P.strip(ty)), *vs), P.strip(ty))))
        v = self.make(ty, args, e)
        loc = I.newloc(ty, v, 'heap')
        t = P.types[P.strip(ty)]
        if t['c'] == 'rec':
            I.dyn[loc] = t['r']
        return Ptr(Ref(loc))

    # ------------------------------------------------------------ strings
    def strmethod(self, n, this, args, e, fn):
        I = self.I
        v = I.load(this)
        vs = [I.load(a) for a in args]
        if n in ('size', 'length'):
            return gmap(lambda x: const(len(x.s)) if isinstance(x, Str) else sym('strlen', x, ty='i'), v)
        if n == 'empty':
            return self.I.equal(v, Str(''))
        if n in ('c_str', 'data'):
            return v
        if n == 'operator=':
            I.write(this, vs[0] if isinstance(vs[0], (Str, T, G)) else T('string', vs[0]))
            return this
        if n in ('operator+=', 'append') and len(vs) == 1:
            I.write(this, self.concat(v, vs[0]))
            return this
        if n == 'compare' and len(vs) == 1:
            # only equality with zero is meaningful to us
            c = I.equal(v, vs[0])
            return mkG([(ZERO, c), (sym('strcmp', v, vs[0], ty='i'), bnot(c))])
        if n == 'clear':
            I.write(this, Str(''))
            return None
        return NotImplemented

    def concat(self, a, b):
        if isinstance(a, G) or isinstance(b, G):
            out = None
            for x, c in cases(a):
                for y, d in cases(b):
                    z = self.concat(x, y)
                    out = z if out is None else vite(band(c, d), z, out)
            return out

        def parts(x):
            if isinstance(x, Str):
                return [x] if x.s else []
            if isinstance(x, T) and x.op == 'concat':
                return list(x.args)
            return [x]
        out = []
        for p in parts(a) + parts(b):
            if out and isinstance(out[-1], Str) and isinstance(p, Str):
                out[-1] = Str(out[-1].s + p.s)
            else:
                out.append(p)
        if not out:
            return Str('')
        if len(out) == 1:
            return out[0]
        return T('concat', *out)

    # ------------------------------------------------------------ free functions
    def stdfree(self, q, n, args, e, fn):
        I = self.I
        P = I.P
        if q.startswith('gtsam::symbol_shorthand::') and len(n) == 1 and len(args) == 1:
            # keys of different letters never meet: indices stay below 2^40
            return padd(tonum(I.load(args[0])), const(ord(n.lower()) << 40)) if not isinstance(I.load(args[0]), G) else \
                gmap(lambda x: padd(x, const(ord(n.lower()) << 40)), tonum(I.load(args[0])))
        if q.startswith('std::') or q.startswith('__gnu_cxx::') or q.startswith('boost::') or '::' not in q or q.startswith('cv::'):
            h = getattr(self, 'sf_' + n, None) if n.isidentifier() else None
            if h is not None:
                return h(args, e, fn)
            if n in UNARY_OPAQUE or (n.endswith('f') and n[:-1] in UNARY_OPAQUE):
                if len(args) == 1:
                    m = n if n in UNARY_OPAQUE else n[:-1]
                    return napp(m, tonum(I.load(args[0])))
            if n.startswith('operator'):
                return self.free_operator(n, args, e, fn)
        return NotImplemented

    def free_operator(self, n, args, e, fn):
        I = self.I
        if len(args) != 2:
            return NotImplemented
        a, b = I.load(args[0]), I.load(args[1])
        op = n[8:]
        if op in ('==', '!=') and not isinstance(a, (Rec, Mat)):
            if is_seq(a) and is_seq(b):
                c = TRUE if a == b else bvar('seqeq', *sorted([a, b], key=lambda t: repr(t)))
                return c if op == '==' else bnot(c)
            c = I.equal(a, b)
            return c if op == '==' else bnot(c)
        if op in ('==', '!=') and isinstance(a, Rec) and isinstance(b, Rec) and fn['q'].startswith('std::'):
            c = TRUE
            lv = I.P.leaves(a.rt)
            if lv is not None:
                for o, t in lv:
                    c = band(c, I.equal(rec_field(a, o, t), rec_field(b, o, t)))
                return c if op == '==' else bnot(c)
        if op in ('<', '>', '<=', '>=', '-', '+') and (is_it(a) or is_it(b)):
            return I.binop(op, a, b, fn['ret'])
        if op == '+' and self.strlike(a) and self.strlike(b):
            return self.concat(a, b)
        return NotImplemented

    def strlike(self, v):
        return isinstance(v, Str) or (isinstance(v, T) and v.op not in ('seq', 'push', 'map', 'upd')) or (isinstance(v, G) and all(self.strlike(x) for x, _ in v.cases)) or (is_scalar(v) and False)

    # identity
    def sf_move(self, args, e, fn):
        if len(args) == 3:
            return self.sf_copy(args, e, fn)
        return args[0]

    def sf_saturate_cast(self, args, e, fn):
        P = self.I.P
        a, b = [P.types[P.strip(t)] for t in (fn['pt'][0], fn['ret'])]
        if b['c'] == 'float' or (a['c'] == 'int' and b['c'] == 'int' and a.get('w', 32) == b.get('w', 32) and a.get('sg', True) == b.get('sg', True)):
            return self.I.narrow(tonum(self.I.load(args[0])), fn['pt'][0], fn['ret'])
        return NotImplemented

    def sf_forward(self, args, e, fn):
        return args[0]

    sf_as_const = sf_forward
    sf_ref = sf_forward
    sf_cref = sf_forward
    sf___addressof = None
    del sf___addressof

    def sf_addressof(self, args, e, fn):
        p = self.I.as_place(args[0])
        return Ptr(p)

    def sf_ignore_unused(self, args, e, fn):
        return None

    def sf_swap(self, args, e, fn):
        I = self.I
        a, b = I.load(args[0]), I.load(args[1])
        I.write(args[0], b)
        I.write(args[1], a)
        return None

    def sf_exchange(self, args, e, fn):
        I = self.I
        a = I.load(args[0])
        I.write(args[0], I.load(args[1]))
        return a

    def sf_get(self, args, e, fn):
        I = self.I
        P = I.P
        ta = fn.get('ta', [])
        if not ta or 'i' not in ta[0]:
            return NotImplemented
        i = ta[0]['i']
        t = P.strip(fn['pt'][0])
        if P.kd(t)[0] != 'rec':
            return NotImplemented
        r = P.recs[P.types[t]['r']]
        this = self.ref_of(args[0], t)
        if r['n'] == 'std::pair':
            f = r['f'][i]
            st = ('f', f['o'], P.strip(f['t']))
            return gmap(lambda x: Ref(x.loc, I.norm_path(x.path + (st,))), this) if isinstance(this, G) else Ref(this.loc, I.norm_path(this.path + (st,)))
        if r['n'] == 'std::array':
            return self.arraymethod('operator[]', this, [const(i)], e, dict(fn, rec=P.types[t]['r']))
        return NotImplemented

    def sf_make_pair(self, args, e, fn):
        return self.make(fn['ret'], args, e)

    def sf_make_shared(self, args, e, fn):
        return self.make_ptr(self.I.P.kd(fn['ret'])[1], args, e)

    sf_makePtr = sf_make_shared
    sf_make_unique = sf_make_shared
    sf_allocate_shared = lambda self, args, e, fn: self.make_ptr(self.I.P.kd(fn['ret'])[1], args[1:], e)

    def sf_static_pointer_cast(self, args, e, fn):
        return self.I.load(args[0])

    sf_const_pointer_cast = sf_static_pointer_cast

    def sf_bind(self, args, e, fn):
        I = self.I
        f = I.load(args[0])
        if isinstance(f, Ptr):
            f = I.load(f.ref)
        return Fn('bind', f, tuple(a if isinstance(a, tuple) else I.load(a) for a in args[1:]))

    def sf_invoke(self, args, e, fn):
        return self.call_fnobj(self.I.load(args[0]), args[1:], e)

    # math
    def _1(self, args):
        return tonum(self.I.load(args[0]))

    def sf_abs(self, args, e, fn):
        return nabs(self._1(args))

    sf_fabs = sf_fabsf = sf_labs = sf_llabs = sf_abs

    def sf_sqrt(self, args, e, fn):
        return nsqrt(self._1(args))

    sf_sqrtf = sf_sqrt

    def sf_pow(self, args, e, fn):
        return sgn_pow(self._1(args), tonum(self.I.load(args[1])))

    sf_powf = sf_pow

    def sf_sin(self, args, e, fn):
        return nsin(self._1(args))

    def sf_cos(self, args, e, fn):
        return ncos(self._1(args))

    sf_sinf, sf_cosf = sf_sin, sf_cos

    def sf_floor(self, args, e, fn):
        return gmap(pfloor, self._1(args))

    sf_floorf = sf_floor
    sf_cvFloor = sf_floor

    def sf_ceil(self, args, e, fn):
        return gmap(pceil, self._1(args))

    sf_ceilf = sf_ceil
    sf_cvCeil = sf_ceil

    def sf_trunc(self, args, e, fn):
        return gmap(ptrunc, self._1(args))

    def sf_round(self, args, e, fn):
        h = const(Fraction(1, 2))

        def f(x):
            if is_int(x):
                return x
            return vite(lt0(x), pceil(psub(x, h)), pfloor(padd(x, h)))
        r = self._1(args)
        out = None
        for x, c in cases(r):
            y = f(x)
            out = y if out is None else vite(c, y, out)
        return out

    sf_roundf = sf_lround = sf_llround = sf_round

    def sf_cvRound(self, args, e, fn):
        return gmap(lambda x: x if is_int(x) else sym('rint', x, ty='i'), self._1(args))

    sf_lrint = sf_rint = sf_nearbyint = sf_cvRound

    def sf_hypot(self, args, e, fn):
        r = ZERO
        for a in args:
            x = tonum(self.I.load(a))
            r = nadd(r, nmul(x, x))
        return nsqrt(r)

    def sf_atan2(self, args, e, fn):
        return napp('atan2', self._1(args), tonum(self.I.load(args[1])))

    sf_atan2f = sf_atan2

    def sf_fmod(self, args, e, fn):
        return napp('fmod', self._1(args), tonum(self.I.load(args[1])))

    def sf_fma(self, args, e, fn):
        a, b, c = [tonum(self.I.load(x)) for x in args]
        return nadd(nmul(a, b), c)

    def sf_copysign(self, args, e, fn):
        return napp('copysign', nabs(self._1(args)), tonum(self.I.load(args[1])))

    def sf_isfinite(self, args, e, fn):
        return finite(self._1(args))

    sf_finite = sf___finite = sf_isfinite

    def sf_isnan(self, args, e, fn):
        return isnan(self._1(args))

    def sf_isinf(self, args, e, fn):
        x = self._1(args)
        return band(bnot(finite(x)), bnot(isnan(x)))

    sf_cvIsNaN, sf_cvIsInf = sf_isnan, sf_isinf

    def sf_min(self, args, e, fn):
        return self._mm(args, e, True)

    def sf_max(self, args, e, fn):
        return self._mm(args, e, False)

    sf_fmin, sf_fmax = sf_min, sf_max

    def _mm(self, args, e, mn):
        I = self.I
        vs = [I.load(a) for a in args]
        if len(vs) == 1 and is_seq(vs[0]):
            els = []
            s = vs[0]
            while s.op == 'push':
                els.append(s.args[1])
                s = s.args[0]
            els.reverse()
            if not els or s.op != 'seq':
                raise Unsupported('min/max of a list')
            r = els[0]
            for x in els[1:]:
                r = nmin(r, x) if mn else nmax(r, x)
            return r
        if len(vs) == 3:
            c = tobool(I.load(self.call_fnobj(vs[2], [vs[1], vs[0]] if mn else [vs[0], vs[1]], e)))
            return vite(c, vs[1], vs[0])
        return nmin(vs[0], vs[1]) if mn else nmax(vs[0], vs[1])

    def sf_clamp(self, args, e, fn):
        v, lo, hi = [tonum(self.I.load(a)) for a in args[:3]]
        return nmin(nmax(v, lo), hi)

    def sf_to_string(self, args, e, fn):
        return gmap(lambda x: T('tostr', x), self._1(args))

    # iterators
    def sf_next(self, args, e, fn):
        I = self.I
        d = tonum(I.load(args[1])) if len(args) > 1 else ONE
        return I.ptr_add(I.load(args[0]), d)

    def sf_prev(self, args, e, fn):
        I = self.I
        d = tonum(I.load(args[1])) if len(args) > 1 else ONE
        return I.ptr_add(I.load(args[0]), nneg(d))

    def sf_advance(self, args, e, fn):
        I = self.I
        I.write(args[0], I.ptr_add(I.load(args[0]), tonum(I.load(args[1]))))
        return None

    def sf_distance(self, args, e, fn):
        a, b = self.I.load(args[0]), self.I.load(args[1])
        return self.I.binop('-', b, a, fn['ret'])

    def _range_method(self, args, which):
        I = self.I
        P = I.P
        this = self.ref_of(args[0])
        v = I.load(this)
        if is_seq(v) or isinstance(v, T):
            return self.mk_it(this, ZERO if which == 'begin' else seq_size(v))
        return NotImplemented

    def sf_begin(self, args, e, fn):
        return self._range_method(args, 'begin')

    def sf_end(self, args, e, fn):
        return self._range_method(args, 'end')

    sf_cbegin, sf_cend = sf_begin, sf_end

    def sf_size(self, args, e, fn):
        return seq_size(self.I.load(args[0]))

    def sf_back_inserter(self, args, e, fn):
        return It(self.ref_of(args[0]), 'back')

    # ------------------------------------------------------------ algorithms (as loops)
    def walk(self, first, last, body, extra=()):
        """for (; it != last; ++it, ++extra...) body(ref, extra refs)"""
        I = self.I
        if not isinstance(first, (It, Ptr)):
            raise Unsupported('algorithm over %r' % (first,))
        locs = [I.newloc(None, first, 'it')] + [I.newloc(None, x, 'it') for x in extra]

        def test():
            a = I.load(Ref(locs[0]))
            if isinstance(a, It):
                return nlt(a.idx, last.idx)
            return bnot(I.equal(a, last))

        def step():
            for l in locs:
                v = I.load(Ref(l))
                if isinstance(v, It) and v.idx == 'back':
                    continue
                I.write(Ref(l), I.ptr_add(v, ONE))

        def bd():
            body(*[(I.load(Ref(l)) if (isinstance(I.load(Ref(l)), It) and I.load(Ref(l)).idx == 'back') else I.deref(I.load(Ref(l)))) for l in locs])
        I.loop(test, bd, step)
        return [I.load(Ref(l)) for l in locs]

    def put(self, out, v):
        I = self.I
        if isinstance(out, It):
            ety = None
            I.write(out.ref, seq_push_any(I.load(out.ref), self.norm_elem(v)))
        else:
            I.write(out, v)

    def acc_step(self, acc, v, fn):
        I = self.I
        t = I.P.types[I.P.strip(fn['ret'])]
        if t['c'] == 'int':
            v = gmap(ptrunc, tonum(v))
        I.write(Ref(acc), v)

    def sf_accumulate(self, args, e, fn):
        I = self.I
        a, b, init = [I.load(x) for x in args[:3]]
        acc = I.newloc(fn['ret'], init, 'acc')

        def body(p):
            cur = I.load(Ref(acc))
            x = I.load(p)
            if len(args) > 3:
                v = I.load(self.call_fnobj(I.load(args[3]), [cur, p], self.ecall(e, fn['ret'])))
            else:
                v = self.plus(cur, x)
            self.acc_step(acc, v, fn)
        self.walk(a, b, body)
        return I.load(Ref(acc))

    sf_reduce = sf_accumulate

    def ecall(self, e, ret):
        d = dict(e)
        d['t'] = ret
        return d

    def plus(self, a, b):
        if isinstance(a, Mat):
            return self.arith('+', a, b)
        return nadd(tonum(a), tonum(b))

    def sf_inner_product(self, args, e, fn):
        I = self.I
        a, b, c, init = [I.load(x) for x in args[:4]]
        acc = I.newloc(fn['ret'], init, 'acc')

        def body(p, q):
            cur = I.load(Ref(acc))
            if len(args) > 4:
                m = I.load(self.call_fnobj(I.load(args[5]), [p, q], self.ecall(e, fn['ret'])))
                v = I.load(self.call_fnobj(I.load(args[4]), [cur, m], self.ecall(e, fn['ret'])))
            else:
                v = self.plus(cur, nmul(tonum(I.load(p)), tonum(I.load(q))))
            self.acc_step(acc, v, fn)
        self.walk(a, b, body, [c])
        return I.load(Ref(acc))

    def sf_for_each(self, args, e, fn):
        I = self.I
        a, b, f = [I.load(x) for x in args[:3]]
        self.walk(a, b, lambda p: self.call_fnobj(f, [p], e))
        return f

    def sf_transform(self, args, e, fn):
        I = self.I
        vs = [I.load(x) for x in args]
        if len(vs) == 4:
            a, b, out, f = vs
            r = self.walk(a, b, lambda p, o: self.put(o, I.load(self.call_fnobj(f, [p], e))), [out])
            return r[1]
        a, b, c, out, f = vs
        r = self.walk(a, b, lambda p, p2, o: self.put(o, I.load(self.call_fnobj(f, [p, p2], e))), [c, out])
        return r[2]

    def sf_copy(self, args, e, fn):
        I = self.I
        a, b, out = [I.load(x) for x in args[:3]]
        if isinstance(out, It) and out.idx == 'back' and isinstance(a, It):
            I.write(out.ref, seq_cat(I.load(out.ref), self.seq_slice(a, b)))
            return out
        r = self.walk(a, b, lambda p, o: self.put(o, I.load(p)), [out])
        return r[1]

    def sf_copy_if(self, args, e, fn):
        I = self.I
        a, b, out, f = [I.load(x) for x in args[:4]]
        if not (isinstance(out, It) and out.idx == 'back'):
            raise Unsupported('copy_if to an iterator')

        def body(p, o):
            c = tobool(I.load(self.call_fnobj(f, [p], e)))
            I.fork(c, lambda: self.put(o, I.load(p)), lambda: None)
        self.walk(a, b, body, [out])
        return out

    def sf_fill(self, args, e, fn):
        I = self.I
        a, b, v = [I.load(x) for x in args[:3]]
        self.walk(a, b, lambda p: I.write(p, v))
        return None

    def sf_iota(self, args, e, fn):
        I = self.I
        a, b, v = [I.load(x) for x in args[:3]]
        cur = I.newloc(None, v, 'iota')

        def body(p):
            I.write(p, I.load(Ref(cur)))
            I.write(Ref(cur), nadd(I.load(Ref(cur)), ONE))
        self.walk(a, b, body)
        return None

    def _flag(self, args, e, stop_on):
        I = self.I
        a, b, f = [I.load(x) for x in args[:3]]
        fl = I.newloc(None, FALSE, 'flag')

        def body(p):
            c = tobool(I.load(self.call_fnobj(f, [p], e)))
            if not stop_on:
                c = bnot(c)
            I.write(Ref(fl), bor(I.load(Ref(fl)), c))
        self.walk(a, b, body)
        return I.load(Ref(fl))

    def sf_any_of(self, args, e, fn):
        return self._flag(args, e, True)

    def sf_all_of(self, args, e, fn):
        return bnot(self._flag(args, e, False))

    def sf_none_of(self, args, e, fn):
        return bnot(self._flag(args, e, True))

    def sf_count_if(self, args, e, fn):
        I = self.I
        a, b, f = [I.load(x) for x in args[:3]]
        acc = I.newloc(None, ZERO, 'cnt')

        def body(p):
            c = tobool(I.load(self.call_fnobj(f, [p], e)))
            I.write(Ref(acc), nadd(I.load(Ref(acc)), tonum(c)))
        self.walk(a, b, body)
        return I.load(Ref(acc))

    def sf_find_if(self, args, e, fn):
        I = self.I
        a, b, f = [I.load(x) for x in args[:3]]
        return self._find(a, b, lambda p: tobool(I.load(self.call_fnobj(f, [p], e))))

    def sf_find_if_not(self, args, e, fn):
        I = self.I
        a, b, f = [I.load(x) for x in args[:3]]
        return self._find(a, b, lambda p: bnot(tobool(I.load(self.call_fnobj(f, [p], e)))))

    def sf_find(self, args, e, fn):
        I = self.I
        a, b, v = [I.load(x) for x in args[:3]]
        return self._find(a, b, lambda p: I.equal(I.load(p), v))

    def sf_count(self, args, e, fn):
        I = self.I
        a, b, v = [I.load(x) for x in args[:3]]
        acc = I.newloc(None, ZERO, 'cnt')

        def body(p):
            I.write(Ref(acc), nadd(I.load(Ref(acc)), tonum(I.equal(I.load(p), v))))
        self.walk(a, b, body)
        return I.load(Ref(acc))

    def _find(self, a, b, pred):
        I = self.I
        if not isinstance(a, It) or a.rev:
            raise Unsupported('find')
        pos = I.newloc(None, a, 'pos')

        def test():
            return nlt(I.load(Ref(pos)).idx, b.idx)

        def body():
            c = pred(I.deref(I.load(Ref(pos))))
            I.fork(c, lambda: I.s_break(None), lambda: None)
        I.loop(test, body, lambda: I.write(Ref(pos), I.ptr_add(I.load(Ref(pos)), ONE)))
        return I.load(Ref(pos))

    def _extelem(self, args, e, mn):
        I = self.I
        vs = [I.load(x) for x in args]
        a, b = vs[0], vs[1]
        best = I.newloc(None, a, 'best')

        def body(p):
            bp = I.deref(I.load(Ref(best)))
            if len(vs) > 2:
                c = tobool(I.load(self.call_fnobj(vs[2], [p, bp] if mn else [bp, p], e)))
            else:
                x, y = tonum(I.load(p)), tonum(I.load(bp))
                c = nlt(x, y) if mn else nlt(y, x)
            cur = I.load(Ref(best))
            ref = p
            I.fork(c, lambda: I.write(Ref(best), self._it_of(p, a)), lambda: None)
        self.walk(a, b, body)
        return I.load(Ref(best))

    def _it_of(self, p, a):
        s = p.path[-1]
        return It(a.ref, s[1], a.rev)

    def sf_min_element(self, args, e, fn):
        return self._extelem(args, e, True)

    def sf_max_element(self, args, e, fn):
        return self._extelem(args, e, False)

    # ------------------------------------------------------------ OpenCV
    def pixel(self, m, y, x):
        b = m
        if isinstance(m, Rec):
            b = m.base
        if isinstance(b, G):
            out = None
            for v, c in b.cases:
                z = self.pixel(v, y, x)
                out = z if out is None else vite(c, z, out)
            return out
        if isinstance(b, T) and b.op == 'roi':
            return self.pixel(b.args[0], nadd(y, b.args[2]), nadd(x, b.args[1]))
        return gmap_any(lambda yy, xx: sym('u8', T('pix', b, yy, xx), ty='i'), (y, x))

    def mat_entry(self, m, i, fn):
        I = self.I
        ty = I.P.strip(fn['ret'])
        b = self.mat_base(m)
        bs = [x for x, _ in b.cases] if isinstance(b, G) else [b]
        if all(isinstance(x, T) and x.op == 'matof' for x in bs):
            loc = I.newloc(None, gmap(lambda x: x.args[0], b) if isinstance(b, G) else b.args[0], 'mat')
            self.inside(Ref(loc), i)
            return self.elem_ref(Ref(loc), i, ty)
        if I.P.kd(ty)[0] == 's':
            return I.as_place(self.pixel(m, i, ZERO), fn['ret'])
        raise Unsupported('entry of a matrix')

    def column(self, rt, s):
        """the image with one row per element of a sequence"""
        from .values import seq_size
        m = Rec(rt, T('matof', s))
        for nm, x in (('rows', seq_size(s)), ('cols', ONE)):
            o, t = self.matfield(m, nm)
            m = rec_with(m, o, t, x)
        return m

    def matfield(self, rec, name):
        P = self.I.P
        r = P.kd(rec.rt)[1]
        for f in P.recs[r].get('f', []):
            if f['n'] == name:
                return f['o'], P.strip(f['t'])
        raise Unsupported('cv::Mat field')

    def roi(self, this, x0, y0, w, h):
        I = self.I
        m = I.load(this)
        if isinstance(m, G):
            raise Unsupported('roi of a guarded image')
        v = Rec(m.rt, T('roi', m.base, x0, y0))
        for nm, val in (('rows', h), ('cols', w)):
            o, t = self.matfield(m, nm)
            v = rec_with(v, o, t, val)
        return v

    def cvmethod(self, rn, n, this, args, e, fn):
        I = self.I
        P = I.P
        if rn in ('cv::Mat', 'cv::Mat_'):
            if n == 'at' and len(args) == 2:
                return I.as_place(self.pixel(I.load(this), tonum(I.load(args[0])), tonum(I.load(args[1]))), fn['ret'])
            if n == 'at' and len(args) == 1:
                v = I.load(args[0])
                if is_scalar(v):
                    # the i-th entry of a column
                    return self.mat_entry(I.load(this), unwrap_index(tonum(v)), fn)
                if isinstance(v, Rec):
                    lv = P.leaves(v.rt)
                    x, y = [rec_field(v, o, t) for o, t in lv[:2]]
                    return I.as_place(self.pixel(I.load(this), y, x), fn['ret'])
            if n == 'ptr' and len(args) >= 1:
                m = I.load(this)
                y = tonum(I.load(args[0]))
                b = m.base if isinstance(m, Rec) else m
                x0 = ZERO
                while isinstance(b, T) and b.op == 'roi':
                    y = nadd(y, b.args[2])
                    x0 = nadd(x0, b.args[1])
                    b = b.args[0]
                if isinstance(b, G) or isinstance(y, G):
                    raise Unsupported('row pointer of a guarded image')
                p = Ptr(Ref(('matrow', b, y), (('d', x0),)))
                if len(args) == 2:
                    p = I.ptr_add(p, tonum(I.load(args[1])))
                return p
            if n == 'type':
                m = I.load(this)
                return self.mat_attr(m, 'mattype')
            if n == 'channels':
                return self.mat_attr(I.load(this), 'matchannels')
            if n == 'empty':
                return gmapB(lambda b: bvar('matempty', b), self.mat_base(I.load(this)))
            if n == 'size':
                ty = fn['ret']
            if n == 'operator()' and len(args) == 1:
                v = I.load(args[0])
                lv = P.leaves(v.rt)
                x, y, w, h = [rec_field(v, o, t) for o, t in lv[:4]]
                return self.roi(this, x, y, w, h)
            if n == 'operator=' and len(args) == 1:
                I.write(this, I.load(args[0]))
                return this
            if fn.get('dtor'):
                return None
        if rn == 'cv::MatSize' and n in ('operator()', 'operator==', 'operator!='):
            def dims(r):
                # the size member of an image stands for its dimensions
                if not (isinstance(r, Ref) and r.path and r.path[-1][0] == 'f'):
                    raise Unsupported('size of an image expression')
                m = I.load(Ref(r.loc, r.path[:-1]))
                return [rec_field(m, *self.matfield(m, x)) for x in ('cols', 'rows')]

            def both(r):
                if isinstance(r, G):
                    ds = [(dims(x), c) for x, c in r.cases]
                    return [mkG([(d[i], c) for d, c in ds]) for i in (0, 1)]
                return dims(r)
            d = both(this)
            if n == 'operator()':
                rt = P.strip(fn['ret'])
                v = Rec(rt, 'zero')
                for (o, t), x in zip(P.leaves(rt), d):
                    v = rec_with(v, o, t, x)
                return v
            d2 = both(args[0])
            eq = band(neq(d[0], d2[0]), neq(d[1], d2[1]))
            return eq if n == 'operator==' else bnot(eq)
        if rn in ('cv::_InputArray', 'cv::_OutputArray', 'cv::_InputOutputArray'):
            p = self.cvarray(this)
            if p is not None:
                if n in ('getMat', 'getMat_'):
                    return I.load(p)
                if n in ('assign', 'move', 'copyTo') and len(args) == 1:
                    if n == 'copyTo':
                        q = self.cvarray(args[0])
                        if q is None:
                            return NotImplemented
                        I.write(q, I.load(p))
                    else:
                        I.write(p, I.load(args[0]))
                    return None
        if rn == 'cv::Ptr':
            return self.ptrmethod(n, this, args, e, fn)
        return NotImplemented

    def cvarray(self, a):
        """the place a cv::InputArray / cv::OutputArray argument stands for, or None"""
        if isinstance(a, Ref):
            try:
                a = self.I.load(a)
            except Unsupported:
                return None
        if isinstance(a, Rec) and isinstance(a.base, T) and a.base.op == 'arrayof':
            return self.arrays[a.base.args[0]]
        return None

    def mat_base(self, m):
        b = m.base if isinstance(m, Rec) else m
        return b

    def mat_attr(self, m, op):
        b = self.mat_base(m)
        if isinstance(m, G):
            return gmap(lambda x: self.mat_attr(x, op), m)

        def f(x):
            while isinstance(x, T) and x.op == 'roi':
                x = x.args[0]
            return sym(op, x, ty='i')
        return gmap(f, b)

    # ------------------------------------------------------------ PCL
    def pclmethod(self, rn, n, this, args, e, fn):
        I = self.I
        P = I.P
        if rn == 'pcl::detail::Transformer':
            tr = I.load(this)
            m = self.transformer_matrix(this, fn)
            src, tgt = I.load(args[0]), I.load(args[1])
            xs = [tonum(I.load(I.ptr_index(src, const(i)))) for i in range(3)]
            for r in range(3):
                v = m.at(r, 3) if n == 'se3' else ZERO
                for c in range(3):
                    v = nadd(v, nmul(m.at(r, c), xs[c]))
                I.write(I.ptr_index(tgt, const(r)), v)
            I.write(I.ptr_index(tgt, const(3)), ONE if n == 'se3' else ZERO)
            return None
        return NotImplemented

    def transformer_matrix(self, this, fn):
        I = self.I
        P = I.P
        v = I.load(this)
        x = v
        if isinstance(v, Rec):
            for k, (val, t) in v.over:
                x = val
                break
        if isinstance(x, Ptr):
            x = I.load(x.ref)
        if isinstance(x, (Ref, View)):
            x = I.load(x)
        if isinstance(x, Mat):
            return x
        raise Unsupported('pcl transformer')

    # ------------------------------------------------------------ GTSAM
    def gtsam(self, rn, n, this, args, e, fn):
        """rigid transforms and rotations of gtsam"""
        from .models import ident, mmul, mtrans, iso, iso_R, iso_t
        I = self.I
        P = I.P
        if rn == 'gtsam::Values' and this is not None:
            return self.dictmethod(rn, n, this, args, e, fn)
        if rn in ('gtsam::NonlinearFactorGraph', 'gtsam::FactorGraph') and this is not None:
            return self.graphmethod(rn, n, this, args, e, fn)
        if rn == 'gtsam::Values::deref_iterator' and this is not None:
            v = I.load(this)
            if n in ('operator*', 'operator->') and is_it(v):
                p = I.deref(v)
                if n == 'operator->':
                    return gmap(Ptr, p) if isinstance(p, G) else Ptr(p)
                return self.key_value(p)
            return self.itmethod(n, this, args, e, fn)
        if rn == 'gtsam::FastList':
            return self.seqmethod(rn, n, this, args, e, fn)
        if rn not in ('gtsam::Pose3', 'gtsam::Rot3', 'gtsam::LieGroup'):
            return NotImplemented
        if this is None:
            vs = [I.load(a) for a in args]
            if n in ('Identity', 'identity'):
                return Mat(4, 4, ident(4).e, 'iso') if rn == 'gtsam::Pose3' else ident(3)
            if rn == 'gtsam::Rot3' and n == 'Quaternion' and len(vs) == 4:
                return self.rot(Mat(4, 1, [tonum(vs[k]) for k in (1, 2, 3, 0)], 'quat'))
            if rn == 'gtsam::Pose3' and n == 'Create':
                return iso(vs[0], vs[1])
            return NotImplemented
        v = I.load(this)
        if not isinstance(v, Mat):
            return NotImplemented
        args = [a for a in args if not self.none_jacobian(a)]
        if n == 'operator=':
            I.write(this, self.convert_mat(I.load(args[0]), P.kd(P.rec_type(fn['rec']))))
            return this
        if n == 'matrix':
            return Mat(v.r, v.c, v.e)
        o = I.load(args[0]) if args else None
        if v.kind == 'iso':
            inv = lambda m: iso(mtrans(iso_R(m)), mmap1(nneg, mmul(mtrans(iso_R(m)), iso_t(m))))
            if n == 'rotation' and not args:
                return iso_R(v)
            if n == 'translation' and not args:
                return iso_t(v)
            if n in ('x', 'y', 'z') and not args:
                return v.at('xyz'.index(n), 3)
            if n == 'inverse' and not args:
                return inv(v)
            if n in ('operator*', 'compose', 'transformFrom', 'transformPoseFrom') and len(args) == 1:
                return self.tfmul(v, o)
            if n == 'between' and len(args) == 1:
                return self.tfmul(inv(v), o)
            if n == 'transformTo' and len(args) == 1:
                return self.tfmul(inv(v), o)
            return NotImplemented
        if n in ('inverse', 'transpose') and not args:
            return mtrans(v)
        if n in ('operator*', 'compose', 'rotate') and len(args) == 1:
            return mmul(v, o)
        if n in ('between', 'unrotate') and len(args) == 1:
            return mmul(mtrans(v), o)
        if n == 'toQuaternion' and not args:
            return self.convert_mat(v, ('mat', 4, 1, 'quat'))
        return NotImplemented

    def none_jacobian(self, a):
        try:
            v = self.I.load(a)
        except Unsupported:
            return False
        return isinstance(v, T) and v.op in ('nojac', 'none')


def mmap1(f, m):
    return Mat(m.r, m.c, [f(x) for x in m.e], m.kind)


def gmapB(f, v):
    if isinstance(v, G):
        out = None
        for x, c in v.cases:
            y = f(x)
            out = y if out is None else bite(c, y, out)
        return out
    return f(v)


def is_seq(v):
    if isinstance(v, G):
        return all(is_seq(x) for x, _ in v.cases)
    return isinstance(v, T) and v.op in ('seq', 'push', 'map', 'upd', 'umap', 'cat', 'fill', 'resized', 'slice', 'elem', 'fld', 'deref', 'in', 'out')


def seq_push_any(s, v):
    if isinstance(s, G):
        return gmap(lambda x: seq_push(x, v), s)
    return seq_push(s, v)


def ctor_transformer(M, f, fn, args, ty, e):
    I = M.I
    v = I.load(args[0])
    if isinstance(v, Rec):
        return v
    return Rec(I.P.strip(ty), 'none', {0: (v, I.P.strip(ty))})


def ctor_cvmat(M, f, fn, args, ty, e):
    I = M.I
    if fn.get('copy') and args:
        return I.load(args[0])
    if not args:
        # no entries
        m = Rec(I.P.strip(ty), T('matof', T('seq')))
        for nm in ('rows', 'cols'):
            o, t = M.matfield(m, nm)
            m = rec_with(m, o, t, ZERO)
        return m
    if len(args) == 2:
        a, b = I.load(args[0]), I.load(args[1])
        if isinstance(a, Rec) and a.rt == I.P.strip(ty) and isinstance(b, Rec):
            lv = I.P.leaves(b.rt)
            if len(lv) == 4:
                return M.roi(a, *[rec_field(b, o, t) for o, t in lv])
    if args and I.P.kd(fn['pt'][0])[0] == 'seq':
        # a column with one entry per element
        v = I.load(args[0])
        if isinstance(v, T):
            return M.column(I.P.strip(ty), v)
    return M.opaque_ctor(f, fn, args, ty)


Models.CTORS['pcl::detail::Transformer'] = ctor_transformer
Models.CTORS['cv::Mat'] = ctor_cvmat


def ctor_optional(M, f, fn, args, ty, e):
    I = M.I
    if not args:
        return T('none')
    v = I.load(args[0])
    if fn.get('copy') or fn.get('move'):
        return v
    if 'nullopt' in I.P.tname(fn['pt'][0]) or 'none_t' in I.P.tname(fn['pt'][0]):
        return T('none')
    ta = I.P.recs[fn['rec']]['ta'][0]['t']
    if I.P.rname(ta) == 'std::reference_wrapper' and not isinstance(v, Ptr):
        v = Ptr(args[0])
    elif is_scalar(v):
        v = M.to_type(v, ta)
    return T('some', v)


def ctor_refwrap(M, f, fn, args, ty, e):
    I = M.I
    if fn.get('copy') or fn.get('move'):
        return I.load(args[0])
    if not isinstance(args[0], Ref):
        raise Unsupported('reference wrapper')
    if isinstance(I.load(args[0]), Ptr) and I.P.rname(fn['pt'][0]) == 'std::reference_wrapper':
        return I.load(args[0])
    return Ptr(args[0])


Models.CTORS['std::optional'] = ctor_optional
Models.CTORS['boost::optional'] = ctor_optional
Models.CTORS['std::reference_wrapper'] = ctor_refwrap


def ctor_cvarray(M, f, fn, args, ty, e):
    # an argument wrapper: stands for the place it was made from
    I = M.I
    if len(args) == 1 and isinstance(args[0], (Ref, View)):
        if fn.get('copy') or fn.get('move'):
            return I.load(args[0])
        v = M.cvarray(args[0])
        if v is not None:
            return Rec(I.P.strip(ty), I.load(args[0]).base)
        k = len(M.arrays)
        M.arrays.append(args[0])
        return Rec(I.P.strip(ty), T('arrayof', k))
    return M.opaque_ctor(f, fn, args, ty)


for _k in ('_InputArray', '_OutputArray', '_InputOutputArray'):
    Models.CTORS['cv::' + _k] = ctor_cvarray
for _k, _v in list(Std.__dict__.items()):
    if not _k.startswith('__'):
        setattr(Models, _k, _v)
Models.PCL['pcl::detail::Transformer::se3'] = True
Models.PCL['pcl::detail::Transformer::so3'] = True
