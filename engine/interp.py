"""Gated value analysis: computes, for a function, the value of every output as a canonical term over its inputs
(one abstract value per program point, joined at merges by condition; loops summarised by solving their recurrences)."""
import json
from .terms import *
from .values import *
from . import values as V
from .values import Unsupported

INLINE_DEPTH = 60




class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.types, self.recs, self.fns, self.vars = j['types'], j['recs'], j['fns'], j['vars']
        self.errors = j['errors']
        self.bodies = {b['f']: b for b in j['bodies']}
        self.byname = {}
        for i, f in enumerate(self.fns):
            self.byname.setdefault(f['q'], []).append(i)
        self._key = {}
        self._canon = {}
        for i, t in enumerate(self.types):
            s = t['s']
            if t.get('const') and s.startswith('const '):
                s = s[6:]
            elif t.get('const') and s.endswith(' const'):
                s = s[:-6]
            self._key[i] = s
        # canonical type index: first index per key
        first = {}
        for i in range(len(self.types)):
            if not self.types[i].get('const'):
                first.setdefault(self._key[i], i)
        for i in range(len(self.types)):
            self._canon[i] = first.get(self._key[i], i)
            first.setdefault(self._key[i], i)
        self._first = first
        self._kd = {}
        self._lv = {}
        self._rect = {}
        for i, t in enumerate(self.types):
            if t['c'] == 'rec' and not t.get('const'):
                self._rect.setdefault(t['r'], i)
        for i, t in enumerate(self.types):
            if t['c'] == 'rec':
                self._rect.setdefault(t['r'], i)

    def strip(self, i):
        """strip reference and const"""
        if isinstance(i, str):
            return self._first[i]
        t = self.types[i]
        while t['c'] == 'ref':
            i = t['p']
            t = self.types[i]
        return self._canon[i]

    def isref(self, i):
        return self.types[i]['c'] == 'ref'

    def isconst(self, i):
        t = self.types[i]
        if t['c'] == 'ref':
            t = self.types[t['p']]
        return bool(t.get('const'))

    def rname(self, i):
        t = self.types[self.strip(i)]
        if t['c'] == 'rec':
            return self.recs[t['r']]['n']
        return None

    def rec_type(self, r):
        return self._rect.get(r)

    def kd(self, i):
        i = self.strip(i)
        k = self._kd.get(i)
        if k is None:
            k = self._kd[i] = self._classify(i)
        return k

    def _ta(self, r, n):
        return self.recs[r].get('ta', [])[n]

    def _classify(self, i):
        t = self.types[i]
        c = t['c']
        if c == 'bool':
            return ('s', 'b')
        if c in ('int', 'enum'):
            return ('s', 'i')
        if c == 'float':
            return ('s', 'f')
        if c == 'ptr':
            return ('ptr', t['p'])
        if c == 'arr':
            return ('arr', t['p'], t['n'], t['sz'])
        if c == 'void':
            return ('void',)
        if c == 'rec':
            r = t['r']
            n = self.recs[r]['n']
            ta = self.recs[r].get('ta', [])
            if n == 'Eigen::Matrix' or n == 'Eigen::Array':
                rr, cc = ta[1]['i'], ta[2]['i']
                st = self.kd(ta[0]['t'])[1] if self.kd(ta[0]['t'])[0] == 's' else 'f'
                if rr < 0 or cc < 0:
                    return ('dyn', rr, cc, ta[0]['t'])
                return ('mat', rr, cc, 'mat', st)
            if n == 'Eigen::Transform':
                d = ta[1]['i']
                return ('mat', d + 1, d + 1, 'iso' if ta[2]['i'] == 1 else 'aff', 'f')
            if n == 'Eigen::Quaternion':
                return ('mat', 4, 1, 'quat', 'f')
            if n == 'Eigen::AngleAxis':
                return ('mat', 4, 1, 'aa', 'f')
            if n == 'Eigen::Translation':
                return ('mat', ta[1]['i'], 1, 'trl', 'f')
            if n == 'gtsam::Pose3':
                return ('mat', 4, 4, 'iso', 'f')
            if n == 'gtsam::Rot3':
                return ('mat', 3, 3, 'mat', 'f')
            if n.startswith('Eigen::'):
                # expression templates and decompositions
                return ('eig',)
            if n in ('std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'gtsam::FastList'):
                return ('seq', ta[0]['t'])
            if n == 'gtsam::NonlinearFactorGraph' or n == 'gtsam::FactorGraph':
                return ('seq', None)
            if n in ('std::map', 'std::unordered_map'):
                return ('dict', ta[0]['t'], ta[1]['t'], 'str' if self.kd(ta[0]['t'])[0] == 'str' else 'int')
            if n == 'gtsam::Values':
                return ('dict', None, None, 'gk')
            if n in ('std::__cxx11::basic_string', 'std::basic_string', 'std::basic_string_view'):
                return ('str',)
            if n in ('std::shared_ptr', 'boost::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'):
                return ('ptr', ta[0]['t'])
            if n == 'cv::Ptr':
                return ('ptr', ta[0]['t'])
            if n == 'std::function':
                return ('fn',)
            if n.startswith('__gnu_cxx::__normal_iterator') or n.endswith('_iterator'):
                return ('it',)
            if self.recs[r].get('lambda'):
                return ('fn',)
            if n in ('std::pair',) or n == 'std::array' and self.recs[r].get('f') and 'size' in self.recs[r]:
                return ('rec', r)
            if n.startswith('std::'):
                return ('opq',)
            if 'size' in self.recs[r]:
                return ('rec', r)
            return ('opq',)
        return ('opq',)

    def leaves(self, ty):
        """[(offset, type)] scalar/opaque leaves of a record type, or None"""
        ty = self.strip(ty)
        r = self._lv.get(ty)
        if r is None:
            d = {}
            ok = self._collect(ty, 0, d, 0)
            r = sorted(d.items()) if ok else 'no'
            self._lv[ty] = r
        return None if r == 'no' else r

    def _collect(self, ty, off, d, depth):
        k = self.kd(ty)
        if depth > 12:
            return False
        if k[0] == 'rec':
            rec = self.recs[k[1]]
            for b in rec.get('b', []):
                bt = self.rec_type(b['r'])
                if bt is None:
                    if self.recs[b['r']].get('f') or self.recs[b['r']].get('b'):
                        if not self._collect_rec(b['r'], off + b['o'], d, depth + 1):
                            return False
                    continue
                if not self._collect(bt, off + b['o'], d, depth + 1):
                    return False
            for f in rec.get('f', []):
                if not self._collect(f['t'], off + f['o'], d, depth + 1):
                    return False
            return True
        if k[0] == 'arr':
            if k[2] > 64:
                d.setdefault(off, self.strip(ty))
                return True
            for i in range(k[2]):
                if not self._collect(k[1], off + i * k[3], d, depth + 1):
                    return False
            return True
        d.setdefault(off, self.strip(ty))
        return True

    def _collect_rec(self, r, off, d, depth):
        rec = self.recs[r]
        for b in rec.get('b', []):
            if not self._collect_rec(b['r'], off + b['o'], d, depth + 1):
                return False
        for f in rec.get('f', []):
            if not self._collect(f['t'], off + f['o'], d, depth + 1):
                return False
        return True

    def size_of(self, ty):
        t = self.types[self.strip(ty)]
        if t['c'] == 'rec':
            return self.recs[t['r']].get('size', 0)
        if t['c'] == 'arr':
            return t['n'] * t['sz']
        if t['c'] == 'bool':
            return 1
        if t['c'] in ('int', 'float'):
            return t['w'] // 8
        return 8

    def tname(self, i):
        return self._key[self.strip(i)]


FLOAT32 = V._t.FLOAT32
ISO_TERMS = V.ISO_TERMS


class Frame:
    __slots__ = ('env', 'this', 'rets', 'fn', 'entry', 'cls')

    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.env = {}
        self.rets = []
        self.entry = None


class Interp:
    _splits = 0

    def __init__(self, prog, models):
        self.P = prog
        self.M = models
        models.I = self
        self.store = {}
        self.live = TRUE
        self.assume = TRUE
        self.throws = []        # (cond, type)
        self.brk, self.cont = [], []
        self.frames = []
        self.nloc = 0
        self.locty = {}
        self.dyn = {}
        self.ext = set()        # names of unmodelled externals used
        self.loopn = 0
        self.visited = set()    # functions analysed
        self.sites = 0
        self.flags = set()      # undefined reads etc.
        self.curline = None
        self.globals_ = {}
        V.TYNAME = lambda rt: self.P.tname(rt)
        V.LEAVES = lambda rt: self.P.leaves(rt)
        V.SYMVAL = self.symval
        self.snaps = {}
        self.snapof = {}
        V.UNDEFVAL = self.undefval
        V.ZEROVAL = self.zeroval
        self.fatal_unsup = None
        V.MUT_SIZE.clear()
        V.MUT_INIT.clear()

    # ------------------------------------------------------------ typed values
    def symval(self, term, ty):
        """symbolic value of the given type named by term"""
        ty = self.P.strip(ty)
        k = self.P.kd(ty)
        if isinstance(term, T) and term.op == 'fld':
            term = T('fld', term.args[0], term.args[1], self.P.tname(ty))
            b = term.args[0]
            if isinstance(b, T) and b.op == 'sub':
                term = T('fld', b.args[0], b.args[1] + term.args[1], self.P.tname(ty))
        elif isinstance(term, T) and term.op == 'elem':
            term = T('elem', term.args[0], term.args[1], self.P.tname(ty))
        if k[0] == 's':
            if k[1] == 'b':
                return bvar('bval', term)
            t = self.P.types[ty]
            if k[1] == 'i':
                if t['c'] == 'int' and not t.get('sg', True):
                    if t.get('w') == 8:
                        return sym('u8', term, ty='i')
                    return sym('uns', term, ty='i')
                return sym('val', term, ty='i')
            p = sym('val', term, ty='f')
            if t['c'] == 'float' and t['w'] == 32:
                for a in poly_atoms(p):
                    FLOAT32.add(a)
            return p
        if k[0] == 'mat':
            r, c, kind = k[1], k[2], k[3]
            f32 = self._mat_f32(ty)

            def el(i, j):
                p = sym('el', term, i, j, ty=k[4])
                if f32:
                    for a in poly_atoms(p):
                        FLOAT32.add(a)
                return p
            if kind in ('iso', 'quat', 'aa'):
                ISO_TERMS[term] = kind
                ISO_TERMS[('ty', self.P.tname(ty))] = kind
            if kind == 'iso':
                e = []
                for i in range(r):
                    for j in range(c):
                        if i == r - 1:
                            e.append(ONE if j == c - 1 else ZERO)
                        else:
                            e.append(el(i, j))
                return Mat(r, c, e, kind)
            return Mat(r, c, [el(i, j) for i in range(r) for j in range(c)], kind)
        if k[0] == 'rec':
            if term.op == 'fld':
                term = mk_sub(term.args[0], term.args[1])
            return Rec(ty, term)
        if k[0] == 'ptr':
            return Ptr(Ref(('obj', term, self.P.strip(k[1]))))
        if k[0] == 'fn':
            return Fn('ext', term)
        if k[0] == 'arr':
            return Rec(ty, mk_sub(term.args[0], term.args[1]) if term.op == 'fld' else term)
        return term

    def _mat_f32(self, ty):
        t = self.P.types[self.P.strip(ty)]
        ta = self.P.recs[t['r']].get('ta', [])
        if ta and 't' in ta[0]:
            e = self.P.types[self.P.strip(ta[0]['t'])]
            return e['c'] == 'float' and e.get('w') == 32
        return False

    def undefval(self, name, ty):
        ty = self.P.strip(ty)
        k = self.P.kd(ty)
        if k[0] == 's':
            if k[1] == 'b':
                return bvar('undef', name)
            return sym('undef', name, ty=k[1])
        if k[0] == 'mat':
            return Mat(k[1], k[2], [sym('undef', name, i, ty='f') for i in range(k[1] * k[2])], k[3])
        if k[0] in ('rec', 'arr'):
            return Rec(ty, 'undef:' + str(name))
        if k[0] in ('seq', 'dict'):
            return SEQ0
        if k[0] == 'ptr':
            if self.P.types[ty]['c'] == 'ptr':
                return T('undefptr', name)
            return NULL
        if k[0] == 'str':
            return Str('')
        if k[0] == 'dyn':
            return T('dnew', ZERO, ZERO)
        return T('undefobj', self.P.tname(ty))

    def zeroval(self, ty):
        ty = self.P.strip(ty)
        k = self.P.kd(ty)
        if k[0] == 's':
            return FALSE if k[1] == 'b' else ZERO
        if k[0] == 'mat':
            return self.undefval('m', ty)
        if k[0] in ('rec', 'arr'):
            return Rec(ty, 'zero')
        if k[0] == 'ptr':
            return NULL
        return self.undefval('z', ty)

    # ------------------------------------------------------------ locations
    def newloc(self, ty, val=None, name='t'):
        self.nloc += 1
        loc = (name, self.nloc)
        self.locty[loc] = self.P.strip(ty) if ty is not None else None
        if val is not None:
            self.store[loc] = val
        return loc

    def getloc(self, loc):
        v = self.store.get(loc)
        if v is None:
            if loc[0] == 'snap':
                _, m, ty = self.snaps[loc]
                return V.ENTRIES(m, self.P.kd(ty)[3])
            if loc[0] == 'obj':
                v = self.symval(T('deref', loc[1]), loc[2])
                self.locty[loc] = loc[2]
            elif loc[0] == 'g':
                var = self.P.vars[loc[1]]
                v = self.symval(T('glob', var.get('q', var['n'])), var['t'])
                self.locty[loc] = self.P.strip(var['t'])
            elif loc[0] == 'matrow':
                return T('matrow', loc[1], loc[2])
            else:
                raise Unsupported('read of unknown location %s' % (loc,))
            self.store[loc] = v
        return v

    def load(self, p, ty=None):
        if isinstance(p, G):
            if isinstance(p.cases[0][0], (Ref, View)):
                out = None
                for x, c in p.cases:
                    v = self.load(x, ty)
                    out = v if out is None else vite(c, v, out)
                return self.simp(out)
            return p
        if isinstance(p, Ref):
            return self.simp(self.read_path(self.getloc(p.loc), p.path))
        if isinstance(p, View):
            return Mat(p.r, p.c, [self.load(x) for x in p.refs], p.kind)
        return p

    def simp(self, v):
        if isinstance(v, (G, B)) and self.live.n > 1:
            r = gsimplify(v, self.live)
            if r is not None:
                return r
        return v

    def read_path(self, v, path):
        for i, s in enumerate(path):
            if s[0] == 'mp':
                return self.M.read_entry(v, s, path[i + 1:])
            v = self.read_step(v, s)
        return v

    def read_step(self, v, s):
        if isinstance(v, G):
            out = None
            for x, c in v.cases:
                y = self.read_step(x, s)
                out = y if out is None else vite(c, y, out)
            return out
        if s[0] == 'f':
            off, ty = s[1], s[2]
            if isinstance(v, Rec):
                for o, (x, _) in v.over:
                    if o == off and isinstance(x, Ref) and not self.P.isref(ty):      # a reference member reads as what it refers to
                        return self.load(x)
                k = self.P.kd(ty)
                if k[0] in ('rec', 'arr'):
                    return self.subrec(v, off, ty)
                return rec_field(v, off, ty)
            if isinstance(v, T):
                return self.symval(T('fld', v, off, ty), ty)
            raise Unsupported('field of %r' % (v,))
        if s[0] == 'e':
            if isinstance(v, T):
                if v.op == 'matrow':
                    return sym('u8', T('pix', v.args[0], v.args[1], s[1]), ty='i')
                return seq_elem(v, s[1], s[2])
            if isinstance(v, Rec):   # array inside record
                k = self.P.kd(v.rt)
                if k[0] == 'arr':
                    if isinstance(s[1], Poly) and s[1].is_const():
                        return self.read_step(v, ('f', int(s[1].const()) * k[3], k[1]))
                    if isinstance(s[1], (Poly, G)) and 0 < k[2] <= 64:   # an index outside the array is undefined
                        out = None
                        for i in range(k[2] - 1, -1, -1):
                            y = self.read_step(v, ('f', i * k[3], k[1]))
                            out = y if out is None else vite(neq(s[1], const(i)), y, out)
                        return out
            raise Unsupported('element of %r' % (v,))
        if s[0] == 'm':
            if isinstance(v, Mat):
                return v.at(s[1], s[2])
            if isinstance(v, T):
                return self.M.dyn_coef(v, s[1], s[2])
            raise Unsupported('coefficient of %r' % (v,))
        raise Unsupported('path %s' % (s,))

    def subrec(self, v, off, ty):
        ty = self.P.strip(ty)
        size = self.P.size_of(ty)
        over = {k - off: x for k, x in v.over if off <= k < off + size}
        b = v.base
        if isinstance(b, T):
            b = mk_sub(b, off)
        elif isinstance(b, G):
            b = gmap(lambda x: mk_sub(x, off), b)
        elif isinstance(b, str) and b.startswith('undef'):
            b = b + '+%d' % off
        elif isinstance(b, Rec):
            return self.subrec(b, off, ty)
        return self.norm_rec(Rec(ty, b, over))

    def norm_rec(self, v):
        """canonical form: drop overrides equal to the base; recover a base when all leaves come from it"""
        if not isinstance(v, Rec) or not v.over:
            return v
        lv = self.P.leaves(v.rt)
        if lv is None:
            return v
        if isinstance(v.base, T):
            over = {k: x for k, x in v.over if rec_field(Rec(v.rt, v.base), k, x[1]) != x[0]}
            if len(over) != len(v.over):
                v = Rec(v.rt, v.base, over)
            if not v.over:
                return v
        if len(v.over) >= len(lv) and lv:
            d = dict(v.over)
            if all(o in d for o, _ in lv):
                # candidate base
                cand = None
                for o, t in lv:
                    x = d[o][0]
                    b = leaf_base(x, o)
                    if b is not None:
                        cand = b
                        break
                if cand is not None:
                    over = {k: x for k, x in v.over if rec_field(Rec(v.rt, cand), k, x[1]) != x[0]}
                    if len(over) < len(v.over):
                        return Rec(v.rt, cand, over)
                if self.P.tname(v.rt) in ('cv::Mat', 'cv::Mat_'):
                    # an image chosen among several
                    for o, t in lv:
                        x = d[o][0]
                        if isinstance(x, G):
                            bs = [(leaf_base(y, o), c) for y, c in x.cases]
                            if all(b is not None for b, _ in bs):
                                m = None
                                for b, c in bs:
                                    m = Rec(v.rt, b) if m is None else vite(c, Rec(v.rt, b), m)
                                if isinstance(m.base, T) and m.base.op == 'matof':
                                    return self.M.column(v.rt, m.base.args[0])
                                over = {k: y for k, y in v.over if rec_field(m, k, y[1]) != y[0]}
                                return Rec(v.rt, m.base, over)
                if v.base != 'none':
                    return Rec(v.rt, 'none', v.over)
        return v

    def write(self, p, val):
        val = self.simp(val)
        if isinstance(p, G):
            for x, c in p.cases:
                old = self.load(x)
                self.write(x, vite(c, val, old))
            return
        if isinstance(p, View):
            if isinstance(val, (Poly, G)) and p.r * p.c == 1:
                self.write(p.refs[0], val)
                return
            val = self.M.fit(val, p.r, p.c)
            for x, y in zip(p.refs, val.e):
                self.write(x, y)
            return
        if not isinstance(p, Ref):
            raise Unsupported('write to non-place %r' % (p,))
        if not p.path:
            ty = self.locty.get(p.loc)
            self.store[p.loc] = self.coerce(val, ty, p.loc)
            return
        self.store[p.loc] = self.write_path(self.getloc(p.loc), p.path, val)

    def coerce(self, val, ty, loc=None):
        if ty is None:
            return val
        if isinstance(val, Rec) and self.P.kd(ty)[0] == 'rec' and val.rt != ty:
            size = self.P.size_of(ty)
            if loc is not None and loc in self.dyn:
                pass
            lv = self.P.leaves(ty)
            keys = set(o for o, _ in lv) if lv else None
            return Rec(ty, val.base, {k: x for k, x in val.over if keys is None or k in keys})
        return val

    def write_path(self, v, path, val):
        s = path[0]
        if s[0] == 'mp':
            return self.M.write_entry(v, s, path[1:], val)
        if isinstance(v, G):
            out = None
            for x, c in v.cases:
                y = self.write_path(x, path, val)
                out = y if out is None else vite(c, y, out)
            return out
        if s[0] == 'f':
            off, ty = s[1], s[2]
            if isinstance(v, T):
                raise Unsupported('field write into opaque %r' % (v,))
            if not isinstance(v, Rec):
                raise Unsupported('field write into %r' % (v,))
            if len(path) > 1:
                k = self.P.kd(ty)
                if k[0] == 'arr' and path[1][0] == 'e':
                    i = path[1][1]
                    if isinstance(i, Poly) and i.is_const():
                        return self.write_path(v, (('f', off + int(i.const()) * k[3], k[1]),) + tuple(path[2:]), val)
                inner = self.read_step(v, s)
                val = self.write_path(inner, path[1:], val)
            return self.rec_put(v, off, ty, val)
        if s[0] == 'e':
            if isinstance(v, T):
                if len(path) > 1:
                    val = self.write_path(seq_elem(v, s[1], s[2]), path[1:], val)
                val = self.norm_rec(val)
                return seq_upd(v, s[1], val)
            if isinstance(v, Rec):
                k = self.P.kd(v.rt)
                if k[0] == 'arr' and isinstance(s[1], Poly) and s[1].is_const():
                    return self.write_path(v, (('f', int(s[1].const()) * k[3], k[1]),) + tuple(path[1:]), val)
                if k[0] == 'arr' and isinstance(s[1], (Poly, G)) and 0 < k[2] <= 16:
                    for i in range(k[2]):
                        w = self.write_path(v, (('f', i * k[3], k[1]),) + tuple(path[1:]), val)
                        v = vite(neq(s[1], const(i)), w, v)
                    return v
            raise Unsupported('element write into %r' % (v,))
        if s[0] == 'm':
            if isinstance(v, Mat):
                return v.with_at(s[1], s[2], val)
            if isinstance(v, T):
                return self.M.dyn_put(v, s[1], s[2], Mat(1, 1, [val]))
        raise Unsupported('write path %s' % (s,))

    def rec_put(self, v, off, ty, val):
        k = self.P.kd(ty)
        if k[0] in ('rec', 'arr') and isinstance(val, (Rec, G)):
            lv = self.P.leaves(ty)
            if lv is not None:
                d = dict(v.over)
                for o, t in lv:
                    d[off + o] = (rec_field(val, o, t), t)
                return Rec(v.rt, v.base, d)
        # float unions may be written through a differently typed member: same offset overrides
        d = dict(v.over)
        d[off] = (val, self.P.strip(ty))
        return Rec(v.rt, v.base, d)

    # ------------------------------------------------------------ merging
    def merge_store(self, parts):
        """parts: list of (cond, store) disjoint"""
        parts = [(c, s) for c, s in parts if c.n]
        if not parts:
            return {}
        c0, s0 = parts[0]
        if len(parts) == 1:
            return s0
        out = dict(s0)
        acc = c0
        for c, s in parts[1:]:
            tot = bor(acc, c)
            g = B(BDD.constrain(acc.n, tot.n))
            if out is not s:
                for loc, v in s.items():
                    o = out.get(loc)
                    if o is None:
                        out[loc] = v
                    elif o is not v and o != v:
                        try:
                            out[loc] = vite(g, o, v)
                        except Unsupported:
                            out[loc] = Poison('merge of %s' % (loc,))
            acc = tot
        return out

    def merge_vals(self, parts):
        parts = [(c, v) for c, v in parts if c.n]
        if not parts:
            return None
        acc, out = parts[0]
        for c, v in parts[1:]:
            tot = bor(acc, c)
            g = B(BDD.constrain(acc.n, tot.n))
            out = vite(g, out, v)
            acc = tot
        return out

    def fork(self, c, f, g):
        """run f under c, g under !c, merge stores; returns (vf, vg)"""
        L = self.live
        c = self.simp(c) if isinstance(c, B) else c
        lt, lf = band(L, c), band(L, bnot(c))
        if lf.n == 0:
            return f(), None
        if lt.n == 0:
            return None, g()
        s0 = self.store
        self.store = dict(s0)
        self.live = lt
        vf = f()
        l1, s1 = self.live, self.store
        self.store = dict(s0)
        self.live = lf
        vg = g()
        l2, s2 = self.live, self.store
        self.live = bor(l1, l2)
        if l1.n == 0:
            self.store = s2
        elif l2.n == 0:
            self.store = s1
        else:
            self.store = self.merge_store([(l1, s1), (l2, s2)])
        self._fork = (l1, l2)
        return vf, vg

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.live.n == 0:
            return
        k = s['k']
        if 'l' in s:
            self.curline = s['l']
        getattr(self, 's_' + k)(s)

    def s_block(self, s):
        for x in s['s']:
            if self.live.n == 0:
                return
            self.exec(x)

    def s_nop(self, s):
        pass

    def s_unsup(self, s):
        raise Unsupported('statement %s line %s' % (s.get('cls'), s.get('l')))

    def s_expr(self, s):
        self.ev(s['e'])

    def s_decl(self, s):
        v = s['v']
        var = self.P.vars[v]
        fr = self.frames[-1]
        ty = var['t']
        if s.get('static') and not self.P.isconst(ty):
            loc = ('g', v)
            self.store.pop(loc, None)
            self.P.vars[v].setdefault('q', 'static ' + var['n'])
            fr.env[v] = Ref(loc)
            return
        if self.P.isref(ty):
            p = self.ev(s['e'])
            fr.env[v] = self.as_place(p, ty)
        else:
            if s.get('e') is not None:
                val = self.rvinit(s['e'], ty)
            else:
                val = self.undefval('%s@%s' % (var['n'], var.get('line')), ty)
            if isinstance(val, View) and self.P.kd(ty)[0] == 'eig':
                loc = self.newloc(ty, val, var['n'])
                fr.env[v] = val if not self.P.rname(ty) in ('Eigen::Matrix',) else Ref(loc)
            else:
                loc = self.newloc(ty, None, var['n'])
                self.store[loc] = self.coerce(val, self.P.strip(ty))
                t = self.P.types[self.P.strip(ty)]
                if t['c'] == 'rec':
                    self.dyn[loc] = t['r']
                fr.env[v] = Ref(loc)
        for h in s.get('hold', []):
            self.s_decl(h)

    def as_place(self, p, ty=None):
        if isinstance(p, (Ref, View)) or (isinstance(p, G) and isinstance(p.cases[0][0], (Ref, View))):
            return p
        loc = self.newloc(ty, p, 'tmp')
        if isinstance(p, Rec):
            self.locty[loc] = p.rt
            t = self.P.types[p.rt]
            if t['c'] == 'rec':
                self.dyn[loc] = t['r']
        return Ref(loc)

    def rvinit(self, e, ty):
        """initialiser value for type ty"""
        if e['k'] == 'il':
            return self.initlist(e, ty)
        v = self.ev(e)
        kd = self.P.kd(ty)
        if isinstance(v, View) and kd[0] == 'eig':
            return v
        v = self.load(v)
        if kd[0] == 'mat' and isinstance(v, Mat) and v.kind != kd[3]:
            v = self.M.convert_mat(v, kd)
        return v

    def initlist(self, e, ty):
        k = self.P.kd(ty)
        a = e['a']
        if k[0] == 's':
            if not a:
                return self.zeroval(ty)
            return self.rv(a[0])
        if k[0] == 'arr':
            v = Rec(self.P.strip(ty), 'zero')
            for i, x in enumerate(a):
                v = self.rec_put(v, i * k[3], k[1], self.rvinit(x, k[1]))
            if len(a) < k[2] and e.get('fill') is not None:
                for i in range(len(a), k[2]):
                    v = self.rec_put(v, i * k[3], k[1], self.rvinit(e['fill'], k[1]))
            return v
        if k[0] == 'rec':
            rec = self.P.recs[k[1]]
            if len(a) == 1 and a[0].get('t') is not None and self.P.strip(a[0]['t']) == self.P.strip(ty):
                return self.rvinit(a[0], ty)
            v = Rec(self.P.strip(ty), 'zero')
            slots = [(b['o'], self.P.rec_type(b['r'])) for b in rec.get('b', [])] + [(f['o'], f['t']) for f in rec.get('f', [])]
            for (o, t), x in zip(slots, a):
                if t is None:
                    continue
                v = self.rec_put(v, o, t, self.rvinit(x, t))
            return v
        if k[0] == 'seq':
            s = SEQ0
            for x in a:
                s = seq_push(s, self.norm_rec(self.rvinit(x, k[1])))
            return s
        if len(a) == 1:
            return self.rv(a[0])
        if not a:
            return self.zeroval(ty)
        raise Unsupported('initialiser list for %s' % self.P.tname(ty))

    def s_if(self, s):
        if s.get('i'):
            self.exec(s['i'])
        if 'ce' in s:
            self.exec(s['x'] if s['ce'] else s.get('y'))
            return
        if s.get('cv'):
            self.s_decl(s['cv'])
        c = tobool(self.rv(s['c']))
        self.fork(c, lambda: self.exec(s['x']), lambda: self.exec(s.get('y')))

    def s_ret(self, s):
        fr = self.frames[-1]
        v = None
        if s.get('e') is not None:
            rt = self.P.fns[fr.fn]['ret'] if fr.fn is not None else None
            if s['e']['k'] == 'il' and rt is not None:
                v = self.initlist(s['e'], rt)
            else:
                v = self.ev(s['e'])
            if isinstance(v, View) and rt is not None and self.P.kd(rt)[0] == 'eig':
                pass
            elif rt is None or not self.P.isref(rt):
                v = self.load(v)
                if rt is not None:
                    kd = self.P.kd(rt)
                    if kd[0] == 'mat' and isinstance(v, Mat) and v.kind != kd[3]:
                        v = self.M.convert_mat(v, kd)
            else:
                v = self.as_place(v, rt)
        if self.live.n:
            fr.rets.append((self.live, v, self.store))
            self.store = dict(self.store)
            self.live = FALSE

    def s_break(self, s):
        self.brk[-1].append((self.live, self.store))
        self.store = dict(self.store)
        self.live = FALSE

    def s_continue(self, s):
        self.cont[-1].append((self.live, self.store))
        self.store = dict(self.store)
        self.live = FALSE

    def s_switch(self, s):
        if s.get('i'):
            self.exec(s['i'])
        val = self.rv(s['c'])
        # flatten body into list of (labels, stmt)
        items = []

        def flat(st):
            if st is None:
                return
            if st['k'] == 'block' and not st.get('decls'):
                for x in st['s']:
                    flat(x)
            elif st['k'] in ('case', 'default'):
                lab = [('d',) if st['k'] == 'default' else ('c', st['cv'] if 'cv' in st else None, st)]
                items.append(('L', lab[0]))
                flat(st['b'])
            else:
                items.append(('S', st))
        flat(s['b'])
        conds = {}
        anyc = FALSE
        for t, x in items:
            if t == 'L' and x[0] == 'c':
                cv = x[1]
                if cv is None:
                    raise Unsupported('case value')
                c = neq(val, const(cv))
                conds[cv] = c
                anyc = bor(anyc, c)
        L = self.live
        rest = FALSE
        self.brk.append([])
        self.live = FALSE
        pend_store = self.store
        base_store = self.store
        for t, x in items:
            if t == 'L':
                c = conds[x[1]] if x[0] == 'c' else bnot(anyc)
                add = band(L, c)
                if self.live.n == 0:
                    self.live = add
                    self.store = dict(base_store)
                elif add.n:
                    self.store = self.merge_store([(self.live, self.store), (add, base_store)])
                    self.live = bor(self.live, add)
            else:
                if self.live.n:
                    self.exec(x)
        parts = [(self.live, self.store)] + self.brk.pop()
        if not any(t == 'L' and x[0] == 'd' for t, x in items):
            parts.append((band(L, bnot(anyc)), base_store))
        parts = [(c, st) for c, st in parts if c.n]
        self.live = FALSE
        for c, _ in parts:
            self.live = bor(self.live, c)
        if parts:
            self.store = dict(self.merge_store(parts))

    def s_try(self, s):
        save = self.throws
        self.throws = []
        L = self.live
        self.exec(s['b'])
        th = self.throws
        self.throws = save
        l1, s1 = self.live, self.store
        if not th:
            return
        parts = [(l1, s1)]
        for cond, typ, st in th:
            h = None
            for hd in s['h']:
                if hd['t'] == -1 or self.catches(hd['t'], typ):
                    h = hd
                    break
            if h is None:
                self.throws.append((cond, typ, st))
                continue
            self.live = cond
            self.store = dict(st)
            if 'v' in h:
                loc = self.newloc(h['t'], T('exc', typ), 'exc')
                self.frames[-1].env[h['v']] = Ref(loc)
            self.exec(h['b'])
            parts.append((self.live, self.store))
        parts = [(c, st) for c, st in parts if c.n]
        self.live = FALSE
        for c, _ in parts:
            self.live = bor(self.live, c)
        if parts:
            self.store = dict(self.merge_store(parts))

    def catches(self, ty, typ):
        if typ == OUTSIDE:
            return False
        n = self.P.rname(ty) or ''
        if n == typ or n == 'std::exception':
            return True
        if n == 'std::runtime_error' and typ in ('std::runtime_error',):
            return True
        if n == 'std::logic_error' and typ in ('std::out_of_range', 'std::invalid_argument'):
            return True
        return False

    def throw(self, cond, typ):
        cond = band(self.live, cond)
        if cond.n == 0:
            return
        self.throws.append((cond, typ, self.store))
        self.store = dict(self.store)
        self.live = band(self.live, bnot(cond))

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get('i'):
            self.exec(s['i'])
        self.loop(lambda: tobool(self.rv(s['c'])) if s.get('c') else TRUE,
                  lambda: self.exec(s['b']),
                  lambda: self.ev(s['n']) if s.get('n') else None)

    def s_while(self, s):
        def test():
            if s.get('cv'):
                self.s_decl(s['cv'])
            return tobool(self.rv(s['c']))
        self.loop(test, lambda: self.exec(s['b']), lambda: None)

    def s_do(self, s):
        # do body while(c)  ==  first = true; while (first || c) body  -- executed as: body; while(c) body
        self.brk.append([])
        self.cont.append([])
        self.exec(s['b'])
        parts = [(self.live, self.store)] + self.cont.pop()
        b = self.brk.pop()
        self.live = FALSE
        parts = [(c, st) for c, st in parts if c.n]
        for c, _ in parts:
            self.live = bor(self.live, c)
        if parts:
            self.store = dict(self.merge_store(parts))
            self.loop(lambda: tobool(self.rv(s['c'])), lambda: self.exec(s['b']), lambda: None)
        parts = [(self.live, self.store)] + b
        parts = [(c, st) for c, st in parts if c.n]
        self.live = FALSE
        for c, _ in parts:
            self.live = bor(self.live, c)
        if parts:
            self.store = dict(self.merge_store(parts))

    def snap(self):
        return (dict(self.store), self.live, len(self.throws), [len(f.rets) for f in self.frames])

    def restore(self, sn):
        self.store = dict(sn[0])
        self.live = sn[1]
        del self.throws[sn[2]:]
        for f, n in zip(self.frames, sn[3]):
            del f.rets[n:]

    def loop(self, test, body, inc):
        from . import loops
        if self.live.n == 0:
            return
        sn = self.snap()
        brks = []
        n = 0
        ok = True
        while True:
            c = self.simp(test())
            c = B(BDD.constrain(c.n, self.live.n)) if self.live.n > 1 else c
            if c.n == 0:
                break
            if c.n != 1 or n >= 66 or n >= 8 and any(t[1] == OUTSIDE for t in self.throws[sn[2]:]):
                ok = False
                break
            n += 1
            self.brk.append([])
            self.cont.append([])
            body()
            parts = [(self.live, self.store)] + self.cont.pop()
            brks += self.brk.pop()
            parts = [(x, st) for x, st in parts if x.n]
            self.live = FALSE
            for x, _ in parts:
                self.live = bor(self.live, x)
            if not parts:
                break
            self.store = dict(self.merge_store(parts))
            inc()
            if self.live.n == 0:
                break
        if ok:
            parts = [(x, st) for x, st in [(self.live, self.store)] + brks if x.n]
            self.live = FALSE
            for x, _ in parts:
                self.live = bor(self.live, x)
            if parts:
                self.store = dict(self.merge_store(parts))
            return
        self.restore(sn)
        nb, nc = len(self.brk), len(self.cont)
        try:
            loops.symbolic_loop(self, test, body, inc)
        except LoopSplit as ex:
            if self._splits >= 4:
                raise Unsupported('loop bound')
            del self.brk[nb:], self.cont[nc:]
            self.restore(sn)
            self._splits += 1
            try:
                self.fork(ex.cond, lambda: self.loop(test, body, inc), lambda: self.loop(test, body, inc))
            finally:
                self._splits -= 1

    # ------------------------------------------------------------ expressions
    def rv(self, e):
        return self.load(self.ev(e))

    def ev(self, e):
        if 'l' in e:
            self.curline = e['l']
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s %s line %s' % (e['k'], e.get('cls', ''), e.get('l')))
        return m(e)

    def e_int(self, e):
        return const(int(e['v']))

    def e_bool(self, e):
        return TRUE if e['v'] == '1' else FALSE

    def e_flt(self, e):
        h = e['h']
        if 'inf' in h or 'nan' in h:
            neg = h.startswith('-')
            p = sym('const', 'inf' if 'inf' in h else 'nan')
            return pneg(p) if neg else p
        return const(Fraction(float.fromhex(h)))

    def e_str(self, e):
        return Str(e['v'])

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.zeroval(e['t'])

    def e_this(self, e):
        t = self.frames[-1].this
        return Ptr(t) if isinstance(t, Ref) else (gmap(Ptr, t) if isinstance(t, G) else Ptr(t))

    def e_var(self, e):
        v = e['v']
        for fr in (self.frames[-1],):
            if v in fr.env:
                return fr.env[v]
        var = self.P.vars[v]
        if var.get('global') or var.get('static') or 'q' in var:
            if var.get('init') is not None and self.P.isconst(var['t']):
                if v not in self.globals_:
                    self.globals_[v] = self.rvinit(var['init'], var['t'])
                loc = ('gc', v)
                self.store[loc] = self.globals_[v]
                self.locty[loc] = self.P.strip(var['t'])
                return Ref(loc)
            m = self.M.global_var(var)
            if m is not None:
                return m
            return Ref(('g', v))
        raise Unsupported('unbound variable %s' % var['n'])

    def e_fn(self, e):
        return Fn('fn', e['f'])

    def e_binding(self, e):
        return self.ev(e['e'])

    def e_decay(self, e):
        p = self.ev(e['e'])
        if isinstance(p, Str):
            return p
        p = self.as_place(p, e['e'].get('t'))
        if isinstance(p, G):
            return gmap(lambda x: Ptr(Ref(x.loc, x.path + (('d0',),))), p)
        return Ptr(Ref(p.loc, p.path + (('d0',),)))

    def e_mem(self, e):
        b = self.ev(e['b'])
        if e.get('arrow'):
            b = self.deref(self.load(b))
        return self.member(b, e['off'], e['t'], e)

    def member(self, b, off, ty, e=None):
        if isinstance(b, G):
            return gmap(lambda x: self.member(x, off, ty, e), b)
        if isinstance(b, Ref):
            if self.P.isref(ty):
                # reference member: value stored is a place
                v = self.read_path(self.getloc(b.loc), self.norm_path(b.path + (('f', off, ty),)))
                if isinstance(v, Ptr):
                    return v.ref
                return v if isinstance(v, (Ref, View)) else Ref(('obj', T('refmem', v) if isinstance(v, T) else T('refmem', str(v)), self.P.strip(ty)))
            return Ref(b.loc, self.norm_path(b.path + (('f', off, self.P.strip(ty)),)))
        if isinstance(b, Rec):
            return self.read_step(b, ('f', off, self.P.strip(ty)))
        if isinstance(b, T):
            return self.symval(T('fld', b, off, ty), ty)
        raise Unsupported('member %s of %r' % (e and e.get('n'), b))

    def norm_path(self, path):
        """merge consecutive 'f' steps and array indexing"""
        out = []
        for s in path:
            if s[0] == 'f' and out and out[-1][0] == 'f':
                out[-1] = ('f', out[-1][1] + s[1], s[2])
            elif s[0] == 'e' and out and out[-1][0] == 'f' and self.P.kd(out[-1][2])[0] == 'arr' and isinstance(s[1], Poly) and s[1].is_const():
                k = self.P.kd(out[-1][2])
                out[-1] = ('f', out[-1][1] + int(s[1].const()) * k[3], self.P.strip(k[1]))
            else:
                out.append(s)
        return tuple(out)

    def deref(self, p, ty=None):
        """pointer value -> place"""
        if isinstance(p, G):
            cs = [(x, c) for x, c in p.cases if not (isinstance(x, Ptr) and x.ref is None)]
            if not cs:
                raise Unsupported('null dereference')
            out = None
            for x, c in cs:
                y = self.deref(x)
                out = y if out is None else vite(c, y, out)
            return out
        if isinstance(p, Ptr):
            if p.ref is None:
                raise Unsupported('null dereference at line %s' % self.curline)
            r = p.ref
            if isinstance(r, Ref) and r.path and r.path[-1][0] == 'd0':
                return self.ptr_index(p, ZERO)
            return r
        if isinstance(p, It):
            return self.it_deref(p)
        if isinstance(p, T):
            return Ref(('obj', p, self.P.strip(self.P.types[self.P.strip(ty)]['p']))) if ty is not None else Ref(('obj', p, None))
        if isinstance(p, (Ref, View)):
            return p
        raise Unsupported('dereference of %r' % (p,))

    def it_deref(self, it):
        if it.ref.loc in self.snaps:
            return self.M.entry_ref(it)
        if isinstance(it.ref, str):
            raise Unsupported('iterator')
        ety = it_elty(self, it)
        idx = it.idx if not it.rev else nsub(nsub(self.seq_len(it.ref), ONE), it.idx)
        return Ref(it.ref.loc, it.ref.path + (('e', idx, ety),))

    def seq_len(self, ref):
        v = self.load(ref)
        return seq_size(v)

    def ptr_index(self, p, i, elty=None):
        if isinstance(p, G):
            return gmap(lambda x: self.ptr_index(x, i, elty), p)
        if isinstance(p, It):
            return self.it_deref(It(p.ref, nadd(p.idx, i), p.rev))
        if not isinstance(p, Ptr) or p.ref is None:
            raise Unsupported('index of %r' % (p,))
        r = p.ref
        if isinstance(r, View):
            if isinstance(i, Poly) and i.is_const() and 0 <= int(i.const()) < len(r.refs):
                # column-major data()
                n = int(i.const())
                return r.refs[(n % r.r) * r.c + n // r.r]
            raise Unsupported('index into matrix data')
        path = r.path
        base = ZERO
        if path and path[-1][0] == 'd':
            base = path[-1][1]
            path = path[:-1]
        elif path and path[-1][0] == 'd0':
            path = path[:-1]
        elif path and path[-1][0] == 'e':
            base = path[-1][1]
            elty = path[-1][2]
            path = path[:-1]
        elif path and path[-1][0] == 'f' and self.P.kd(path[-1][2])[0] == 's' or (path and path[-1][0] == 'f'):
            # pointer to a member scalar used as an array start (e.g. &data[0])
            if isinstance(i, Poly) and i.is_const():
                o = path[-1][1] + int(i.const()) * self.P.size_of(path[-1][2])
                return Ref(r.loc, path[:-1] + (('f', o, path[-1][2]),))
            raise Unsupported('symbolic index from member pointer')
        elif r.loc[0] == 'matrow':
            return Ref(r.loc, (('e', i, None),))
        else:
            if isinstance(i, Poly) and i is ZERO:
                return r
            raise Unsupported('pointer arithmetic on scalar')
        idx = nadd(base, i)
        # element type
        if elty is None:
            if path and path[-1][0] == 'f':
                k = self.P.kd(path[-1][2])
            else:
                k = self.P.kd(self.locty[r.loc]) if self.locty.get(r.loc) is not None else ('?',)
            elty = k[1] if k[0] in ('arr', 'seq') else None
        return Ref(r.loc, self.norm_path(path + (('e', idx, self.P.strip(elty) if elty is not None else None),)))

    def e_idx(self, e):
        b = self.rv(e['x'])
        i = self.rv(e['y'])
        if isinstance(b, Poly) or is_scalar(b):
            b, i = i, b
        if isinstance(b, Str):
            raise Unsupported('char of literal')
        return self.ptr_index(b, tonum(i), e.get('t'))

    def e_load(self, e):
        v = self.load(self.ev(e['e']))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def ptr_add(self, p, d):
        if isinstance(p, G):
            return gmap(lambda x: self.ptr_add(x, d), p)
        if isinstance(p, It):
            return It(p.ref, nadd(p.idx, d), p.rev)
        if isinstance(p, Ptr) and isinstance(p.ref, Ref):
            r = p.ref
            if r.path and r.path[-1][0] == 'd0':
                return Ptr(Ref(r.loc, r.path[:-1] + (('d', d),)))
            if r.path and r.path[-1][0] == 'd':
                return Ptr(Ref(r.loc, r.path[:-1] + (('d', nadd(r.path[-1][1], d)),)))
            if r.path and r.path[-1][0] == 'e':
                s = r.path[-1]
                return Ptr(Ref(r.loc, r.path[:-1] + (('e', nadd(s[1], d), s[2]),)))
            if r.path and r.path[-1][0] == 'f' and isinstance(d, Poly) and d.is_const():
                s = r.path[-1]
                return Ptr(Ref(r.loc, r.path[:-1] + (('f', s[1] + int(d.const()) * self.P.size_of(s[2]), s[2]),)))
            if d is ZERO:
                return p
        raise Unsupported('pointer arithmetic %r' % (p,))

    def e_un(self, e):
        op = e['op']
        if op == '*':
            return self.deref(self.rv(e['e']), e['e'].get('t'))
        if op == '&':
            p = self.ev(e['e'])
            if isinstance(p, Fn):
                return p
            p = self.as_place(p)
            return gmap(Ptr, p) if isinstance(p, G) else Ptr(p)
        if op in ('++', '--', 'p++', 'p--'):
            p = self.ev(e['e'])
            old = self.load(p)
            d = const(1 if '+' in op else -1)
            if isinstance(old, (It, Ptr)) or (isinstance(old, G) and isinstance(old.cases[0][0], (It, Ptr))):
                new = self.ptr_add(old, d)
            else:
                new = nadd(tonum(old), d)
                new = self.wrap_unsigned(new, e['t'])
            self.write(p, new)
            return p if op in ('++', '--') else old
        v = self.rv(e['e'])
        if op == '!':
            return bnot(tobool(v))
        if op == '-':
            return self.wrap_unsigned(nneg(v), e['t'])
        if op == '+':
            return tonum(v)
        if op == '~':
            return self.wrap_unsigned(nsub(const(-1), tonum(v)), e['t'])
        if op == '__extension__':
            return v
        raise Unsupported('unary %s' % op)

    def e_asg(self, e):
        op = e['op']
        p = self.ev(e['x'])
        if op == '=':
            if e['y']['k'] == 'il':
                v = self.initlist(e['y'], e['t'])
            else:
                v = self.rv(e['y'])
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            self.write(p, v)
            return p
        y = self.rv(e['y'])
        x = self.load(p)
        if isinstance(x, (It, Ptr)):
            d = tonum(y)
            self.write(p, self.ptr_add(x, d if op == '+=' else nneg(d)))
            return p
        ct = e.get('ct')
        v = self.binop(op[:-1], x, y, ct)
        v = self.narrow(v, ct, e['t'])
        if isinstance(x, B) and not isinstance(v, B):
            v = tobool(v)
        self.write(p, v)
        return p

    def narrow(self, v, fr, to):
        """implicit conversion of an arithmetic result from type fr to type to"""
        if fr is None:
            return v
        a, b = self.P.types[self.P.strip(fr)], self.P.types[self.P.strip(to)]
        if b['c'] == 'bool':
            return tobool(v)
        if a['c'] == 'float' and b['c'] in ('int', 'enum'):
            return self.int_wrap(gmap(ptrunc, tonum(v)), b)
        if a['c'] == 'float' and b['c'] == 'float' and a['w'] > b['w']:
            return gmap(f32, tonum(v))
        if a['c'] in ('int', 'enum', 'bool') and b['c'] == 'int':
            return self.int_cast(tonum(v), a, b)
        return v

    def int_cast(self, v, a, b):
        bs = b.get('sg', True)
        bw = b.get('w', 32)
        as_ = a.get('sg', True) if a['c'] != 'bool' else False
        if bw < 32:
            return gmap(lambda x: wrap_small(x, bw, bs), v)
        if as_ and not bs:
            return self.wrap_unsigned_w(v, bw)
        return v

    def int_wrap(self, v, b):
        bw = b.get('w', 32)
        if bw < 32:
            return gmap(lambda x: wrap_small(x, bw, b.get('sg', True)), v)
        return v

    def wrap_unsigned(self, v, ty):
        t = self.P.types[self.P.strip(ty)]
        if t['c'] == 'int' and not t.get('sg', True) and t.get('w', 0) >= 32:
            return self.wrap_unsigned_w(v, t['w'])
        return v

    def wrap_unsigned_w(self, v, w):
        def f(x):
            n = lt0(x)
            if n.n == 0:
                return x
            if band(n, self.live).n == 0:
                return x
            if n.n == 1:
                return padd(x, const(2 ** w))
            if not self.M.feasible(band(n, self.live)):
                return x
            return mkG([(x, bnot(n)), (padd(x, const(2 ** w)), n)])
        return self.simp(gmap(f, tonum(v)))

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            x = tobool(self.rv(e['x']))
            r = {}

            def ry():
                r['y'] = tobool(self.rv(e['y']))
            if op == '&&':
                self.fork(x, ry, lambda: None)
                return band(x, r.get('y', FALSE))
            self.fork(x, lambda: None, ry)
            return bor(x, r.get('y', TRUE))
        if op == ',':
            self.ev(e['x'])
            return self.ev(e['y'])
        if op in ('.*', '->*'):
            raise Unsupported('member pointer')
        x = self.rv(e['x'])
        y = self.rv(e['y'])
        return self.binop(op, x, y, e['t'])

    def cmp(self, op, x, y):
        if op == '==':
            return self.equal(x, y)
        if op == '!=':
            return bnot(self.equal(x, y))
        if isinstance(x, It) and isinstance(y, It):
            x, y = x.idx, y.idx
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            x, y = ptr_off(x, y)
        if op == '<':
            return nlt(x, y)
        if op == '>':
            return nlt(y, x)
        if op == '<=':
            return nle(x, y)
        if op == '>=':
            return nle(y, x)

    def equal(self, x, y):
        if isinstance(x, G) and not is_scalar(x) or isinstance(y, G) and not is_scalar(y):
            r = FALSE
            for a, c in cases(x):
                for b, d in cases(y):
                    r = bor(r, band(band(c, d), self.equal(a, b)))
            return r
        if isinstance(x, B) and isinstance(y, B):
            return bnot(bxor(x, y))
        if isinstance(x, It) and isinstance(y, It):
            if x.ref.loc in self.snaps and y.ref.loc in self.snaps:
                return self.M.same_entry(x, y)
            return neq(x.idx, y.idx)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.ref is None and y.ref is None:
                return TRUE
            if x.ref is None or y.ref is None:
                z = y if x.ref is None else x
                if isinstance(z.ref, Ref) and z.ref.loc[0] == 'obj' and not z.ref.path:
                    return FALSE if isinstance(z.ref.loc[1], T) and z.ref.loc[1].op == 'made' else bvar('null', z.ref.loc[1])
                return FALSE
            if x.ref == y.ref:
                return TRUE
            if isinstance(x.ref, Ref) and isinstance(y.ref, Ref):
                if x.ref.loc[0] == 'obj' and y.ref.loc[0] == 'obj' and not x.ref.path and not y.ref.path:
                    a, b = sorted([x.ref.loc[1], y.ref.loc[1]], key=lambda t: t.id)
                    return bvar('sameobj', a, b)
                if x.ref.loc == y.ref.loc and x.ref.path != y.ref.path:
                    a, b = ptr_off(x, y)
                    return neq(a, b)
            return FALSE
        if isinstance(x, Str) or isinstance(y, Str) or isinstance(x, T) or isinstance(y, T):
            return self.M.str_equal(x, y)
        return neq(x, y)

    def binop(self, op, x, y, ty):
        if isinstance(x, Poison) or isinstance(y, Poison):
            raise Unsupported('use of unmerged value')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.cmp(op, x, y)
        isptr = lambda v: isinstance(v, (It, Ptr)) or (isinstance(v, G) and isinstance(v.cases[0][0], (It, Ptr)))
        if isptr(x) or isptr(y):
            if op == '-' and isptr(x) and isptr(y):
                if isinstance(x, It) and isinstance(y, It):
                    return nsub(x.idx, y.idx)
                a, b = ptr_off(x, y)
                return nsub(a, b)
            if isptr(y):
                x, y = y, x
            return self.ptr_add(x, tonum(y) if op == '+' else nneg(tonum(y)))
        t = self.P.types[self.P.strip(ty)] if ty is not None else {'c': 'float'}
        if op in ('&', '|', '^'):
            bx, by = as01(x), as01(y)
            if bx is not None and by is not None and not (isinstance(x, Poly) and isinstance(y, Poly)):
                return {'&': band, '|': bor, '^': bxor}[op](bx, by)
        x, y = tonum(x), tonum(y)
        if not is_scalar(x) or not is_scalar(y):
            raise Unsupported('binary %s on %r, %r' % (op, x, y))
        if op == '+':
            return nadd(x, y)
        if op == '-':
            return self.wrap_unsigned(nsub(x, y), ty) if t['c'] == 'int' else nsub(x, y)
        if op == '*':
            return nmul(x, y)
        if op == '/':
            if t['c'] in ('int', 'enum'):
                return gmap(pidiv, x, y)
            return ndiv(x, y)
        if op == '%':
            return gmap(pmod, x, y)
        if op == '<<' and isinstance(y, Poly) and y.is_const():
            return nmul(x, const(2 ** int(y.const())))
        if isinstance(x, Poly) and isinstance(y, Poly) and x.is_const() and y.is_const() and op in ('&', '|', '^', '>>', '<<'):
            a, b = int(x.const()), int(y.const())
            return const({'&': a & b, '|': a | b, '^': a ^ b, '>>': a >> b, '<<': a << b}[op])
        if op in ('&', '|', '^', '<<', '>>'):
            if op == '>>' and isinstance(y, Poly) and y.is_const():
                return gmap(lambda p: pidiv(p, const(2 ** int(y.const()))) if (interval(p)[0] or -1) >= 0 else pbit('>>', p, y), x)
            if op == '&' and isinstance(y, Poly) and y is ONE:
                return gmap(lambda p: pmod(p, const(2)), x)
            if op in ('&', '|', '^'):
                x, y = sorted([x, y], key=lambda v: repr(v))
            return self.wrap_unsigned(gmap(lambda a, b: pbit(op, a, b), x, y), ty)
        raise Unsupported('binary %s' % op)

    def e_cond(self, e):
        c = tobool(self.rv(e['c']))
        lv = e.get('lv')

        def ev(x):
            return self.ev(x) if lv else self.rv(x)
        vx, vy = self.fork(c, lambda: ev(e['x']), lambda: ev(e['y']))
        c = self.simp(c) if self.live.n else c
        if vx is None:
            return vy
        if vy is None:
            return vx
        if self.live.n > 1:
            cc = B(BDD.constrain(c.n, self.live.n))
            if cc.n < 2:
                c = cc
        return vite(c, vx, vy)

    def e_cast(self, e):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(e['e'])
            off = e.get('off', 0)
            if off and isinstance(v, (Ref, Ptr)):
                if isinstance(v, Ptr):
                    return Ptr(Ref(v.ref.loc, self.norm_path(v.ref.path + (('f', off, self.P.strip(e['t'])),))))
                return Ref(v.loc, self.norm_path(v.path + (('f', off, self.P.strip(e['t'])),)))
            return v
        if ck in ('BaseToDerived', 'Dynamic', 'BitCast', 'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion', 'NoOp', 'LambdaToFunctionPtr'):
            return self.ev(e['e'])
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        v = self.rv(e['e'])
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            if isinstance(v, Ptr) and v.ref is not None and isinstance(v.ref, Ref) and v.ref.loc[0] == 'obj' and not v.ref.path:
                return bnot(bvar('null', v.ref.loc[1]))
            return tobool(v)
        ft, tt = e['e'].get('t'), e['t']
        a = self.P.types[self.P.strip(ft)] if ft is not None else {'c': 'int', 'sg': True}
        b = self.P.types[self.P.strip(tt)]
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if b['c'] == 'bool':
                return tobool(v)
            if b['c'] == 'int':
                return self.int_cast(tonum(v), a, b)
            return tonum(v)
        if ck == 'IntegralToFloating':
            return tonum(v)
        if ck == 'FloatingToIntegral':
            return self.int_wrap(gmap(ptrunc, tonum(v)), b)
        if ck == 'FloatingCast':
            if a['c'] == 'float' and a['w'] > b['w']:
                return gmap(f32, tonum(v))
            return v
        raise Unsupported('cast %s' % ck)

    def e_throw(self, e):
        typ = 'rethrow'
        if e.get('e') is not None:
            typ = self.P.rname(e['e']['t']) or 'value'
            try:
                self.ev(e['e'])
            except Unsupported:
                pass
        self.throw(TRUE, typ)
        return None

    def e_lambda(self, e):
        caps = []
        for c in e['cap']:
            if c.get('this'):
                caps.append(('this', self.frames[-1].this))
            elif 'v' in c:
                if c.get('init') is not None:
                    var = self.P.vars[c['v']]
                    if c['ref']:
                        caps.append((c['v'], self.as_place(self.ev(c['init']), var['t'])))
                    else:
                        loc = self.newloc(var['t'], self.rvinit(c['init'], var['t']), 'cap')
                        caps.append((c['v'], Ref(loc)))
                else:
                    fr = self.frames[-1]
                    p = fr.env.get(c['v'])
                    if p is None:
                        continue
                    if c['ref']:
                        caps.append((c['v'], p))
                    else:
                        loc = self.newloc(self.P.vars[c['v']]['t'], self.load(p), 'cap')
                        caps.append((c['v'], Ref(loc)))
        return Fn('lam', e['f'], tuple(caps))

    def e_new(self, e):
        if e.get('n') is not None:
            raise Unsupported('array new')
        v = self.rvinit(e['e'], e['at']) if e.get('e') is not None else self.undefval('new', e['at'])
        loc = self.newloc(e['at'], v, 'heap')
        t = self.P.types[self.P.strip(e['at'])]
        if t['c'] == 'rec':
            self.dyn[loc] = t['r']
        return Ptr(Ref(loc))

    def e_delete(self, e):
        self.ev(e['e'])
        return None

    def e_stdil(self, e):
        x = e['e']
        ety = self.P.kd(e['t'])
        elt = ety[1] if ety[0] == 'seq' else None
        if x['k'] == 'il':
            s = SEQ0
            for a in x['a']:
                s = seq_push(s, self.norm_rec(self.rvinit(a, elt if elt is not None else a['t'])))
            return s
        return self.rv(x)

    def e_il(self, e):
        return self.initlist(e, e['t'])

    def e_arrcopy(self, e):
        return self.rv(e['e'])

    def e_opaque(self, e):
        raise Unsupported('expression %s line %s' % (e.get('cls'), e.get('l')))

    def e_recovery(self, e):
        raise Unsupported('unparsed expression line %s' % e.get('l'))

    def e_icall(self, e):
        f = self.rv(e['fe'])
        args = [self.ev(a) for a in e['a']]
        return self.call_value(f, args, e)

    def call_value(self, f, args, e):
        if isinstance(f, G):
            out = None
            res = []
            L = self.live
            parts = []
            s0 = self.store
            for x, c in f.cases:
                self.store = dict(s0)
                self.live = band(L, c)
                v = self.load(self.call_value(x, args, e))
                parts.append((self.live, self.store, v))
            self.live = FALSE
            for c, _, _ in parts:
                self.live = bor(self.live, c)
            self.store = dict(self.merge_store([(c, s) for c, s, _ in parts]))
            return self.merge_vals([(c, v) for c, _, v in parts])
        if isinstance(f, Ptr):
            f = self.load(f.ref)
        if not isinstance(f, Fn):
            raise Unsupported('call of %r' % (f,))
        self.sites += 1
        if f.kind == 'fn':
            return self.call_fn(f.f, None, args, e)
        if f.kind == 'lam':
            return self.call_fn(f.f, None, args, e, caps=f.data)
        if f.kind == 'bind':
            real = []
            for b in f.data:
                if isinstance(b, tuple) and b[0] == 'ph':
                    real.append(args[b[1] - 1])
                else:
                    real.append(b)
            return self.call_value(f.f, real, e)
        if f.kind == 'mem':
            return self.call_fn(f.f, f.data[0], args, e)
        if f.kind == 'ext':
            t = T('apply', f.f, tuple(self.M.argval(a) for a in args))
            return self.symval(t, e['t'])
        raise Unsupported('call of %r' % (f,))

    def e_call(self, e):
        f = e['f']
        fn = self.P.fns[f]
        self.sites += 1
        this = None
        if e.get('o') is not None and fn.get('rec') is not None and not fn.get('static'):
            o = self.ev(e['o'])
            if e.get('arrow'):
                if o is not None and not isinstance(o, Ptr):
                    o = self.load(o)
                this = self.deref(o, e['o'].get('t'))
            else:
                this = o
        r = self.M.special(e, f, fn, this)
        if r is not NotImplemented:
            return r
        args = [self.evarg(a, t) for a, t in zip(e['a'], list(fn['pt']) + [None] * len(e['a']))]
        return self.call_fn(f, this, args, e, qual=e.get('qual'))

    def evarg(self, a, t):
        if a['k'] == 'il' and t is not None:
            return self.initlist(a, t)
        return self.ev(a)

    def e_ctor(self, e):
        fn = self.P.fns[e['f']]
        self.sites += 1
        args = [self.evarg(a, t) for a, t in zip(e['a'], list(fn['pt']) + [None] * len(e['a']))]
        return self.construct_any(e['f'], args, e['t'], e)

    def construct_any(self, f, args, ty, e):
        """construct an object, element by element for arrays"""
        k = self.P.kd(ty)
        if k[0] == 'arr' and k[2] is not None and k[2] <= 256:
            v = Rec(self.P.strip(ty), 'zero')
            for i in range(k[2]):
                v = self.rec_put(v, i * k[3], k[1], self.load(self.construct_any(f, args, k[1], e)))
            return v
        return self.construct(f, args, ty, e)

    def construct(self, f, args, ty, e=None):
        fn = self.P.fns[f]
        r = self.M.construct(f, fn, args, ty, e or {})
        if r is not NotImplemented:
            return r
        body = self.P.bodies.get(f)
        if fn.get('copy') and (fn.get('dflt') or body is None) and len(args) >= 1:
            v = self.load(args[0])
            return self.coerce(v, self.P.strip(ty)) if ty is not None else v
        zero = (e or {}).get('zero')
        init = Rec(self.P.strip(ty), 'zero' if zero else 'undef:%s@%s' % (self.P.tname(ty), (e or {}).get('l')))
        if body is None:
            if fn.get('dctor') and self.P.kd(ty)[0] == 'rec':
                return self.default_rec(ty, init)
            return self.M.opaque_ctor(f, fn, args, ty)
        loc = self.newloc(ty, init, 'new')
        t = self.P.types[self.P.strip(ty)]
        self.dyn[loc] = t.get('r')
        self.run_body(f, Ref(loc), args, e)
        v = self.store.get(loc)
        if v is None or self.live.n == 0:
            return init
        return v

    def default_rec(self, ty, init):
        """implicit default constructor without a body: default-construct class members"""
        lv = self.P.leaves(ty)
        if lv is None:
            return init
        v = init
        for o, t in lv:
            if self.P.kd(t)[0] not in ('s', 'mat'):
                v = self.rec_put(v, o, t, self.undefval('member', t))
        for o, t in self.objects_in(ty, 0):
            v = self.rec_put(v, o, t, self.M.default_elem(t))
        return v

    def objects_in(self, ty, off):
        """(offset, type) of the images among the members of a record"""
        k = self.P.kd(ty)
        if k[0] == 'arr' and k[2] <= 64:
            for i in range(k[2]):
                yield from self.objects_in(k[1], off + i * k[3])
        elif k[0] == 'rec':
            if self.P.rname(ty) in ('cv::Mat', 'cv::Mat_'):
                yield off, self.P.strip(ty)
                return
            for f in self.P.recs[k[1]].get('f', []):
                yield from self.objects_in(f['t'], off + f['o'])

    def call_fn(self, f, this, args, e=None, qual=False, caps=None):
        fn = self.P.fns[f]
        if fn.get('virtual') and not qual and this is not None:
            f = self.devirt(f, this)
            fn = self.P.fns[f]
        r = self.M.call(f, fn, this, args, e or {})
        if r is not NotImplemented:
            return r
        if fn.get('casg') and f not in self.P.bodies and this is not None and len(args) == 1:
            self.write(this, self.load(args[0]))
            return this
        if f in self.P.bodies:
            return self.run_body(f, this, args, e, caps)
        return self.M.opaque_call(f, fn, this, args, e or {})

    def devirt(self, f, this):
        if isinstance(this, Ref) and not [s for s in this.path if s[0] != 'f']:
            r = self.dyn.get(this.loc)
            if r is None:
                v = self.store.get(this.loc)
                if isinstance(v, Rec):
                    t = self.P.types[v.rt]
                    r = t.get('r')
            if r is not None:
                g = self.find_override(r, f)
                if g is not None:
                    return g
        return f

    def find_override(self, r, f):
        rec = self.P.recs[r]
        for v in rec.get('v', []):
            if v['f'] == f:
                return f
            seen = set()
            st = list(v['ov'])
            while st:
                x = st.pop()
                if x == f:
                    return v['f']
                if x in seen:
                    continue
                seen.add(x)
                xr = self.P.fns[x].get('rec')
                if xr is not None:
                    for vv in self.P.recs[xr].get('v', []):
                        if vv['f'] == x:
                            st += vv['ov']
        for b in rec.get('b', []):
            g = self.find_override(b['r'], f)
            if g is not None:
                return g
        return None

    def run_body(self, f, this, args, e=None, caps=None):
        fn = self.P.fns[f]
        body = self.P.bodies[f]
        if len(self.frames) > INLINE_DEPTH:
            raise Unsupported('recursion through %s' % fn['q'])
        if self.live.n == 0:
            return None
        self.visited.add((fn['q'], body['file'], body['line']))
        fr = Frame(f, None)
        if this is not None:
            fr.this = this if isinstance(this, (Ref, View, G)) else self.as_place(this, None)
        if caps:
            for k, p in caps:
                if k == 'this':
                    fr.this = p
                else:
                    fr.env[k] = p
        for i, p in enumerate(body['p']):
            var = self.P.vars[p]
            if i >= len(args):
                d = (body.get('da') or {})
                d = d[i] if i < len(d) else None
                if d is None:
                    raise Unsupported('missing argument')
                a = self.ev(d)
            else:
                a = args[i]
            if self.P.isref(var['t']):
                fr.env[p] = self.as_place(a, var['t'])
            else:
                v = self.load(a)
                kd = self.P.kd(var['t'])
                if kd[0] == 'mat' and isinstance(v, Mat) and v.kind != kd[3]:
                    v = self.M.convert_mat(v, kd)
                loc = self.newloc(var['t'], None, var['n'])
                self.store[loc] = self.coerce(v, self.P.strip(var['t']))
                t = self.P.types[self.P.strip(var['t'])]
                if t['c'] == 'rec':
                    self.dyn[loc] = t['r']
                fr.env[p] = Ref(loc)
        self.frames.append(fr)
        brk, cont = self.brk, self.cont
        self.brk, self.cont = [], []
        nthrow = len(self.throws)
        L0 = self.live
        try:
            if fn.get('ctor'):
                self.run_inits(f, fn, body, fr)
            self.exec(body['b'])
        finally:
            self.frames.pop()
            self.brk, self.cont = brk, cont
        parts = [(c, s) for c, v, s in fr.rets]
        rv = self.merge_vals([(c, v) for c, v, s in fr.rets if v is not None])
        if self.live.n:
            parts.append((self.live, self.store))
            rt = fn['ret']
            if not fn.get('ctor') and self.P.types[rt]['c'] != 'void' and not fn.get('dtor'):
                # control can reach the end of a value-returning function
                self.flags.add('%s: control reaches the end of a value-returning function (%s:%s)' % (fn['q'], body['file'], body['line']))
                u = self.undefval('noreturn:' + fn['q'], rt)
                if not self.P.isref(rt):
                    rv = self.merge_vals([(c, v) for c, v, s in fr.rets if v is not None] + [(self.live, u)])
        live = FALSE
        for c, s in parts:
            live = bor(live, c)
        self.live = live
        if parts:
            self.store = dict(self.merge_store(parts))
        if rv is not None and not isinstance(rv, (Ref, View)):
            rv = self.simp(rv) if not (isinstance(rv, G) and isinstance(rv.cases[0][0], (Ref, View))) else rv
        return rv

    def run_inits(self, f, fn, body, fr):
        this = fr.this
        for i in body.get('inits', []):
            if i.get('e') is None:
                continue
            if 'deleg' in i:
                e = i['e']
                self.ctor_into(e, this)
            elif 'base' in i:
                e = i['e']
                bt = self.P.rec_type(i['base'])
                off = i['off']
                if e['k'] == 'ctor':
                    self.ctor_into(e, this if off == 0 else Ref(this.loc, self.norm_path(this.path + (('f', off, bt),))))
                elif e['k'] != 'zero':
                    pass
            else:
                ft = i['ft']
                p = Ref(this.loc, self.norm_path(this.path + (('f', i['off'], self.P.strip(ft)),)))
                if self.P.isref(ft):
                    q = self.as_place(self.ev(i['e']), ft)
                    self.write(p, Ptr(q) if isinstance(q, Ref) else q)
                    continue
                if not i.get('w') and i['e']['k'] == 'ctor' and self.P.kd(ft)[0] == 'mat':
                    # implicit default construction leaves coefficients indeterminate
                    v = self.undefval('%s::%s' % (fn['q'], i['n']), ft)
                else:
                    v = self.rvinit(i['e'], ft)
                self.write(p, v)

    def ctor_into(self, e, place):
        fn = self.P.fns[e['f']]
        args = [self.evarg(a, t) for a, t in zip(e['a'], list(fn['pt']) + [None] * len(e['a']))]
        if e['f'] in self.P.bodies and not (fn.get('copy') and fn.get('dflt')):
            if self.M.skip_base_ctor(fn):
                return
            self.run_body(e['f'], place, args, e)
            return
        if fn.get('copy') and args:
            v = self.load(args[0])
            # copy only the leaves of the base
            bt = e['t']
            lv = self.P.leaves(bt)
            if lv is not None and isinstance(v, Rec):
                for o, t in lv:
                    self.write(Ref(place.loc, self.norm_path(place.path + (('f', o, t),))), rec_field(v, o, t))


class Poison:
    """value that could not be joined; any use is unsupported"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Poison(%s)' % self.why


def ptr_off(x, y):
    rx, ry = x.ref, y.ref
    if isinstance(rx, Ref) and isinstance(ry, Ref) and rx.loc == ry.loc:
        def off(p):
            if p and p[-1][0] == 'd0':
                return p[:-1], ZERO
            if p and p[-1][0] == 'd':
                return p[:-1], p[-1][1]
            if p and p[-1][0] == 'e':
                return p[:-1], p[-1][1]
            return p, ZERO
        a, i = off(rx.path)
        b, j = off(ry.path)
        if a == b:
            return i, j
    raise Unsupported('pointer comparison')


def it_elty(I, it):
    v = it.ref
    ty = None
    if v.path:
        s = v.path[-1]
        if s[0] in ('f', 'e'):
            ty = s[2]
    else:
        ty = I.locty.get(v.loc)
    if ty is None:
        return None
    k = I.P.kd(ty)
    return I.P.strip(k[1]) if k[0] == 'seq' else None


def mk_sub(b, off):
    if isinstance(b, T):
        if b.op == 'sub':
            return mk_sub(b.args[0], b.args[1] + off)
        if off == 0:
            return b
        return T('sub', b, off)
    return b


def leaf_base(x, o):
    """if x is the symbolic leaf at offset o of some base term, that base"""
    t = None
    if isinstance(x, Poly) and len(x.d) == 1:
        (m, c), = x.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and aop(m[0][0]) in ('val', 'uns', 'u8'):
            t = aargs(m[0][0])[0]
    elif isinstance(x, B) and x.n > 1:
        v, lo, hi = BDD.nodes[x.n]
        if (lo, hi) == (0, 1) and aop(v) == 'bval':
            t = aargs(v)[0]
    elif isinstance(x, T):
        t = x
    elif isinstance(x, Mat):
        a = x.e[0]
        if isinstance(a, Poly) and len(a.d) == 1:
            (m, c), = a.d.items()
            if len(m) == 1 and aop(m[0][0]) == 'el':
                t = aargs(m[0][0])[0]
    if isinstance(t, T) and t.op == 'fld':
        b, off = t.args[0], t.args[1]
        if off == o:
            return b
        if off > o:
            return mk_sub(b, off - o)
    return None


def wrap_small(x, w, signed):
    m = 2 ** w
    if x.is_const():
        v = int(x.const()) % m
        if signed and v >= m // 2:
            v -= m
        return const(v)
    lo, hi = interval(x)
    if lo is not None and hi is not None:
        if not signed and lo >= 0 and hi < m:
            return x
        if signed and lo >= -m // 2 and hi < m // 2:
            return x
    if not signed and len(x.d) == 1:
        (mm, c), = x.d.items()
        if c == 1 and len(mm) == 1 and aop(mm[0][0]) == 'cmod' and aargs(mm[0][0])[1] <= m:
            return x
    return sym('cmod' if not signed else 'csmod', x, m, ty='i')


def f32(x):
    if x.is_const():
        import struct
        c = x.const()
        try:
            f = Fraction(struct.unpack('f', struct.pack('f', float(c)))[0])
        except (OverflowError, ValueError):
            f = c
        return const(f)
    if is_int(x):
        return x
    if len(x.d) == 1:
        (m, c), = x.d.items()
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and (m[0][0] in FLOAT32 or aop(m[0][0]) in ('F32', 'const', 'undef')):
            return x
    # sign normalisation: rounding is odd
    mm, c = lead(x)
    if c < 0:
        return pneg(f32(pneg(x)))
    p = sym('F32', x)
    for a in poly_atoms(p):
        FLOAT32.add(a)
    return p


V.REBUILD['F32'] = lambda ty, p: gmap(f32, p)
V.REBUILD['sub'] = lambda ty, b, off: _rb_subrec(b, off)
V.REBUILD['cmod'] = lambda ty, p, m: gmap(lambda x: wrap_small(x, m.bit_length() - 1, False), p)


def _rb_subrec(b, off):
    if isinstance(b, T):
        return mk_sub(b, off)
    if isinstance(b, G):
        return gmap(lambda x: _rb_subrec(x, off), b)
    if isinstance(b, Rec):
        over = {k - off: x for k, x in b.over if k >= off}
        bb = b.base
        if isinstance(bb, T):
            bb = mk_sub(bb, off)
        return Rec(b.rt, bb, over)
    raise Unsupported('sub of %r' % (b,))
