"""Structured values: matrices, records, sequences, references; substitution and binders."""
from .terms import *
from . import terms as _t


OUTSIDE = 'access outside the sequence'


class LoopSplit(Exception):
    """the loop condition depends on a loop-invariant atom: analyse the loop once per value of it"""
    def __init__(self, cond):
        Exception.__init__(self, 'loop bound')
        self.cond = cond


class Unsupported(Exception):
    pass


class Mat:
    """fixed-size matrix value; kind in mat/iso/quat/aa.  elements row-major tuple of scalar values"""
    __slots__ = ('r', 'c', 'e', 'kind', '_h')

    def __init__(self, r, c, e, kind='mat'):
        self.r, self.c, self.e, self.kind = r, c, tuple(e), kind
        self._h = hash((r, c, self.e, kind))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Mat) and o._h == self._h and (o.r, o.c, o.kind) == (self.r, self.c, self.kind) and o.e == self.e

    def at(self, i, j=None):
        if j is None:
            if self.r == 1 or self.c == 1:
                return self.e[i]
            # Eigen linear index on a matrix is column-major
            return self.e[(i % self.r) * self.c + i // self.r]
        return self.e[i * self.c + j]

    def with_at(self, i, j, v):
        e = list(self.e)
        e[i * self.c + j] = v
        return Mat(self.r, self.c, e, self.kind)

    def as_kind(self, k):
        return Mat(self.r, self.c, self.e, k)

    def __repr__(self):
        return '%s%dx%d[%s]' % (self.kind, self.r, self.c, ', '.join(show(x) for x in self.e[:9]))


class Rec:
    """record value: base (T/G term for symbolic fields, 'undef:..' string, or 'zero') plus overridden leaves"""
    __slots__ = ('rt', 'base', 'over', '_h')

    def __init__(self, rt, base, over=()):
        self.rt, self.base = rt, base
        self.over = tuple(sorted(dict(over).items(), key=lambda t: t[0]))
        self._h = hash((rt, base, self.over))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Rec) and o._h == self._h and o.rt == self.rt and o.base == self.base and o.over == self.over

    def __repr__(self):
        return 'Rec<%s>(%s,%s)' % (self.rt, self.base, {k: v for k, v in self.over})


class Ref:
    __slots__ = ('loc', 'path', '_h')

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)
        self._h = hash((loc, self.path))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc and o.path == self.path

    def __repr__(self):
        return 'Ref(%s%s)' % (self.loc, ''.join('/' + str(p) for p in self.path))


class Ptr:
    __slots__ = ('ref', '_h')

    def __init__(self, ref):
        self.ref = ref
        self._h = hash(('ptr', ref))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.ref == self.ref

    def __repr__(self):
        return 'Ptr(%s)' % (self.ref,)


NULL = Ptr(None)


class It:
    """iterator over a sequence stored at ref"""
    __slots__ = ('ref', 'idx', 'rev')

    def __init__(self, ref, idx, rev=False):
        self.ref, self.idx, self.rev = ref, idx, rev

    def __hash__(self):
        return hash((self.ref, self.idx, self.rev))

    def __eq__(self, o):
        return isinstance(o, It) and (o.ref, o.idx, o.rev) == (self.ref, self.idx, self.rev)

    def __repr__(self):
        return 'It(%s,%s)' % (self.ref, show(self.idx))


class View:
    """matrix lvalue: r x c scalar refs"""
    __slots__ = ('r', 'c', 'refs', 'kind')

    def __init__(self, r, c, refs, kind='mat'):
        self.r, self.c, self.refs, self.kind = r, c, tuple(refs), kind

    def __hash__(self):
        return hash((self.r, self.c, self.refs, self.kind))

    def __eq__(self, o):
        return isinstance(o, View) and (o.r, o.c, o.refs, o.kind) == (self.r, self.c, self.refs, self.kind)

    def __repr__(self):
        return 'View%dx%d%s' % (self.r, self.c, self.refs[:2])


class Fn:
    """callable value"""
    __slots__ = ('kind', 'f', 'data')

    def __init__(self, kind, f, data=None):
        self.kind, self.f, self.data = kind, f, data

    def __repr__(self):
        return 'Fn(%s,%s)' % (self.kind, self.f)

    def __hash__(self):
        return hash((self.kind, self.f, self.data if isinstance(self.data, tuple) else id(self.data)))

    def __eq__(self, o):
        return isinstance(o, Fn) and self.kind == o.kind and self.f == o.f and (self.data == o.data)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __hash__(self):
        return hash(('str', self.s))

    def __eq__(self, o):
        return isinstance(o, Str) and o.s == self.s

    def __repr__(self):
        return '"%s"' % self.s


def is_scalar(v):
    return isinstance(v, Poly) or (isinstance(v, G) and all(isinstance(x, Poly) for x, _ in v.cases))


# ---------------------------------------------------------------- scalar ops lifted to guards
def tonum(v):
    if isinstance(v, B):
        if v.n == 1:
            return ONE
        if v.n == 0:
            return ZERO
        return mkG([(ONE, v), (ZERO, bnot(v))])
    return v


def tobool(v):
    if isinstance(v, B):
        return v
    if isinstance(v, Poly):
        return bnot(eq0(v))
    if isinstance(v, Ptr):
        return FALSE if v.ref is None else TRUE
    if isinstance(v, G):
        return gmap(tobool, v)
    if isinstance(v, T):
        return bvar('true', v)
    if isinstance(v, Fn):
        return TRUE
    raise Unsupported('bool of %r' % (v,))


def nadd(a, b):
    return gmap(padd, tonum(a), tonum(b))


def nsub(a, b):
    return gmap(psub, tonum(a), tonum(b))


def nmul(a, b):
    return gmap(pmul, tonum(a), tonum(b))


def nneg(a):
    return gmap(pneg, tonum(a))


def ndiv(a, b):
    return gmap(lambda x, y: pmul(x, pinv(y)), tonum(a), tonum(b))


def nsqrt(a):
    return gmap(psqrt, a)


ABS = {}        # guarded value of |x| -> x


def nlt(a, b):
    x = ABS.get(a) if isinstance(a, G) else None
    if x is not None:
        return band(nlt(x, b), nlt(nneg(x), b))
    x = ABS.get(b) if isinstance(b, G) else None
    if x is not None:
        return bor(nlt(a, x), nlt(a, nneg(x)))
    return gmap(lambda x, y: lt0(psub(x, y)), tonum(a), tonum(b))


def nle(a, b):
    return bnot(nlt(b, a))


def neq(a, b):
    return gmap(lambda x, y: eq0(psub(x, y)), tonum(a), tonum(b))


def nabs(a):
    r = canon_ties(gmap(lambda x: mkG([(x, bnot(lt0(x))), (pneg(x), lt0(x))]), a))
    if isinstance(r, G) and len(r.cases) == 2 and isinstance(a, Poly) and r not in ABS:
        ABS[r] = a
    return r


def nmin(a, b):
    c = nlt(b, a)
    return canon_ties(vite(c, b, a))


def nmax(a, b):
    c = nlt(a, b)
    return canon_ties(vite(c, b, a))


def nmaxn(es):
    """n-ary maximum; its comparisons expand into comparisons of the arguments"""
    es = frozenset(tonum(x) for x in es)
    if len(es) == 1:
        return next(iter(es))
    if all(isinstance(x, Poly) and x.is_const() for x in es):
        return const(max(x.const() for x in es))
    HAS_MAXN.append(1)
    del HAS_MAXN[1:]
    return sym('maxn', es, ty='i' if all(isinstance(x, Poly) and is_int(x) for x in es) else 'f')


def napp(op, *args, ty='f'):
    return gmap(lambda *xs: sym(op, *xs, ty=ty), *args)


def ptrunc(p):
    if p.is_const():
        import math
        return const(math.trunc(p.const()))
    if is_int(p):
        return p
    return sym('trunc', p, ty='i')


def pfloor(p):
    if p.is_const():
        import math
        return const(math.floor(p.const()))
    if is_int(p):
        return p
    # pull integer part out
    ip, rest = split_int(p)
    return padd(ip, sym('floor', rest, ty='i'))


def pceil(p):
    return pneg(pfloor(pneg(p)))


def split_int(p):
    di, dr = {}, {}
    for m, c in p.d.items():
        if c.denominator == 1 and all(e > 0 and aty(a) == 'i' for a, e in m):
            di[m] = c
        elif m == ():
            import math
            f = math.floor(c)
            if f:
                di[m] = Fraction(f)
            if c - f:
                dr[m] = c - f
        else:
            dr[m] = c
    return Poly(di), Poly(dr)


def pidiv(a, b):
    if b.is_const() and a.is_const() and b.const() != 0:
        q = a.const() / b.const()
        import math
        return const(math.trunc(q))
    if b is ONE:
        return a
    if b.is_const() and b.const() != 0:
        q = pscale(a, 1 / b.const())
        if is_int(q):
            return q
    return sym('idiv', a, b, ty='i')


def pmod(a, b):
    if b.is_const() and a.is_const() and b.const() != 0:
        import math
        q = math.trunc(a.const() / b.const())
        return const(a.const() - q * b.const())
    if b is ONE:
        return ZERO
    return sym('mod', a, b, ty='i')


# ---------------------------------------------------------------- generic ite
def vite(c, a, b):
    if c.n == 1:
        return a
    if c.n == 0:
        return b
    if a is b or a == b:
        return a
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, B) or isinstance(b, B):
        a, b = tonum(a), tonum(b)
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [vite(c, x, y) for x, y in zip(a.e, b.e)], a.kind if a.kind == b.kind else 'mat')
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.base == b.base:
            keys = sorted(set(k for k, _ in a.over) | set(k for k, _ in b.over))
            da, db = dict(a.over), dict(b.over)
            out = {}
            for k in keys:
                x = da.get(k)
                y = db.get(k)
                if x is None:
                    x = (rec_field(a, k, y[1]), y[1])
                if y is None:
                    y = (rec_field(b, k, x[1]), x[1])
                out[k] = (vite(c, x[0], y[0]), x[1])
            return Rec(a.rt, a.base, out)
        if isinstance(a.base, (T, G)) and isinstance(b.base, (T, G)) and TYNAME(a.rt) in ('cv::Mat', 'cv::Mat_'):
            # an image is more than the members of its header
            keys = sorted(set(k for k, _ in a.over) | set(k for k, _ in b.over))
            out = {}
            for k in keys:
                t = (dict(a.over).get(k) or dict(b.over).get(k))[1]
                out[k] = (vite(c, rec_field(a, k, t), rec_field(b, k, t)), t)
            return Rec(a.rt, vite(c, a.base, b.base), out)
        # different bases: materialise every leaf
        lv = LEAVES(a.rt) or LEAVES(b.rt)
        if lv is not None:
            return Rec(a.rt, 'none', {o: (vite(c, rec_field(a, o, t), rec_field(b, o, t)), t) for o, t in lv})
        raise Unsupported('ite of records with different bases')
    if isinstance(a, View) and isinstance(b, View) and (a.r, a.c) == (b.r, b.c):
        return View(a.r, a.c, [vite(c, x, y) for x, y in zip(a.refs, b.refs)], a.kind)
    if isinstance(a, (Mat, Rec)) or isinstance(b, (Mat, Rec)):
        raise Unsupported('ite of %s and %s' % (type(a).__name__, type(b).__name__))
    if isinstance(a, T) and isinstance(b, T):
        if a.op == 'matof' and b.op == 'matof':
            x = vite(c, a.args[0], b.args[0])
            if isinstance(x, T):
                return T('matof', x)
        # no elements: the same as a sequence whose size is then zero
        if b is SEQ0 and a.op == 'map' and vanishes(a, bnot(c)):
            return a
        if a is SEQ0 and b.op == 'map' and vanishes(b, c):
            return b
    return mkG([(a, c), (b, bnot(c))])


def vanishes(s, care):
    n = s.args[0]
    return isinstance(n, Poly) and band(care, lt0(pneg(n))).n == 0


# hooks installed by the interpreter (type-directed)
LEAVES = lambda rt: None
SYMVAL = None          # (term, type) -> value
UNDEFVAL = None
ZEROVAL = None
TYNAME = None
ENTRIES_SIZE = None
ENTRIES = None
ISO_TERMS = {}          # terms (or type names) of rigid transforms, unit quaternions, angle-axis values


def rec_field(rec, off, ty):
    """value of the leaf at byte offset off with type ty"""
    if isinstance(rec, G):
        out = None
        for v, c in rec.cases:
            x = rec_field(v, off, ty)
            out = x if out is None else vite(c, x, out)
        return out
    if isinstance(rec, T):
        return SYMVAL(T('fld', rec, off, ty), ty)
    if not isinstance(rec, Rec):
        raise Unsupported('field of %r' % (rec,))
    for k, v in rec.over:
        if k == off:
            return v[0]
    b = rec.base
    if isinstance(b, str):
        if b == 'zero':
            return ZEROVAL(ty)
        return UNDEFVAL(b + '+%d' % off, ty)
    if isinstance(b, G):
        out = None
        for v, c in b.cases:
            x = rec_field(v, off, ty)
            out = x if out is None else vite(c, x, out)
        return out
    if isinstance(b, Rec):
        return rec_field(b, off, ty)
    return SYMVAL(T('fld', b, off, ty), ty)


def rec_with(rec, off, ty, val):
    d = dict(rec.over)
    d[off] = (val, ty)
    return Rec(rec.rt, rec.base, d)


# ---------------------------------------------------------------- sequences (T terms)
SEQ0 = T('seq')                       # empty


def seq_push(s, v):
    return T('push', s, v)


MUT_INIT = {}  # initial value of a loop-carried object
MUT_SIZE = {}  # loop-carried sequences whose size no iteration changes


def seq_size(s):
    if isinstance(s, G):
        return gmap(seq_size, s)
    op = s.op
    if op == 'entries':
        return ENTRIES_SIZE(*s.args)
    if op == 'mut' and s in MUT_SIZE:
        return MUT_SIZE[s]
    if op == 'seq':
        return ZERO
    if op == 'push':
        return nadd(seq_size(s.args[0]), ONE)
    if op in ('upd', 'umap'):
        return seq_size(s.args[0])
    if op == 'fill':
        return s.args[0]
    if op == 'cat':
        r = ZERO
        for x in s.args:
            r = nadd(r, seq_size(x))
        return r
    if op == 'map':
        n, items = s.args[0], s.args[1]
        if all(c.n == 1 for c, _ in items):
            return nmul(n, const(len(items)))
        r = ZERO
        for c, _ in items:
            r = nadd(r, mk_sum(n, tonum(c), bound_var(s.args[2])))
        return r
    if op == 'resized':
        return s.args[1]
    if op == 'slice':
        return nsub(s.args[2], s.args[1])
    return sym('size', s, ty='i')


def seq_elem(s, i, ty):
    if isinstance(s, G):
        out = None
        for v, c in s.cases:
            x = seq_elem(v, i, ty)
            out = x if out is None else vite(c, x, out)
        return out
    if isinstance(i, G):
        out = None
        for v, c in i.cases:
            x = seq_elem(s, v, ty)
            out = x if out is None else vite(c, x, out)
        return out
    op = s.op
    if op == 'push':
        n = seq_size(s.args[0])
        c = neq(i, n)
        if c.n == 1:
            return s.args[1]
        if c.n == 0:
            return seq_elem(s.args[0], i, ty)
        return vite(c, s.args[1], seq_elem(s.args[0], i, ty))
    if op == 'upd':
        c = neq(i, s.args[1])
        if c.n == 1:
            return s.args[2]
        if c.n == 0:
            return seq_elem(s.args[0], i, ty)
        return vite(c, s.args[2], seq_elem(s.args[0], i, ty))
    if op == 'fill':
        return s.args[1]
    if op == 'umap':
        ini, n, b, val, h, ety = s.args
        j = nsub(i, b)
        c = band(bnot(nlt(j, ZERO)), nlt(j, n))
        v = subst(val, {bound_var(h): j}) if c.n else None
        if c.n == 1:
            return v
        o = seq_elem(ini, i, ty)
        if c.n == 0:
            return o
        return vite(c, v, o)
    if op == 'map':
        n, items, h = s.args
        if len(items) == 1 and items[0][0].n == 1:
            return subst(items[0][1], {bound_var(h): i})
        q = kept(s, i)
        if q is not None:
            J, c, v, hh = q
            c = band(subst(c, {hh: J}), nlt(J, n))
            raw = SYMVAL(T('elem', s, i, ty), ty)
            return vite(c, subst(v, {hh: J}), raw) if c.n else raw
    if op == 'slice':
        return seq_elem(s.args[0], nadd(i, s.args[1]), ty)
    if op == 'cat':
        n0 = seq_size(s.args[0])
        c = nlt(i, n0)
        rest = s.args[1] if len(s.args) == 2 else T('cat', *s.args[1:])
        if c.n == 0:
            return seq_elem(rest, nsub(i, n0), ty)
        if c.n == 1:
            return seq_elem(s.args[0], i, ty)
        return vite(c, seq_elem(s.args[0], i, ty), seq_elem(rest, nsub(i, n0), ty))
    if op == 'seq':
        return UNDEFVAL('element of empty sequence', ty)
    if op == 'resized':
        base, n, fill = s.args
        bs = seq_size(base)
        c = nlt(i, bs)
        if c.n == 1:
            return seq_elem(base, i, ty)
        if c.n == 0:
            return fill
        return vite(c, seq_elem(base, i, ty), fill)
    return SYMVAL(T('elem', s, i, ty), ty)


def seq_upd(s, i, v):
    if isinstance(s, G):
        return gmap(lambda x: seq_upd(x, i, v), s)
    if isinstance(i, G):
        out = None
        for iv, c in i.cases:
            x = seq_upd(s, iv, v)
            out = x if out is None else vite(c, x, out)
        return out
    if s.op == 'upd' and s.args[1] == i:
        return T('upd', s.args[0], i, v)
    if s.op == 'push':
        c = neq(i, seq_size(s.args[0]))
        if c.n == 1:
            return T('push', s.args[0], v)
        if c.n == 0:
            return T('push', seq_upd(s.args[0], i, v), s.args[1])
    return T('upd', s, i, v)


def seq_cat(a, b):
    if isinstance(a, G) or isinstance(b, G):
        return gmap(seq_cat, a, b)
    if a.op == 'seq':
        return b
    if b.op == 'seq':
        return a
    if b.op == 'push':
        return seq_push(seq_cat(a, b.args[0]), b.args[1])
    aa = a.args if a.op == 'cat' else (a,)
    bb = b.args if b.op == 'cat' else (b,)
    return T('cat', *(aa + bb))


def seq_fill(n, v):
    if isinstance(n, G):
        return gmap(lambda x: seq_fill(x, v), n)
    if n.is_const() and 0 <= n.const() <= 16:
        s = SEQ0
        for _ in range(int(n.const())):
            s = seq_push(s, v)
        return s
    return T('fill', n, v)


def seq_resize(s, n, fill):
    if isinstance(s, G) or isinstance(n, G):
        return gmap(lambda x, y: seq_resize(x, y, fill), s, n)
    sz = seq_size(s)
    if sz == n:
        return s
    if s.op == 'seq':
        return seq_fill(n, fill)
    if n is ZERO:
        return SEQ0
    return T('resized', s, n, fill)


def count_to(n):
    """J when n counts what satisfies a condition among the first J"""
    if isinstance(n, Poly) and len(n.d) == 1:
        (m, c), = n.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and aop(m[0][0]) == 'sum' and len(aargs(m[0][0])[0]) == 1:
            return aargs(m[0][0])[0][0]
    return None


_cnt = [0]


def kept(s, i):
    """(J, condition at j, item at j, j) when s keeps the items j < N with a condition and i counts those kept before J"""
    J = count_to(i)
    if J is None or not isinstance(s, T) or s.op != 'map':
        return None
    N, items, h = s.args
    if len(items) != 1 or items[0][0].n == 1:
        return None
    if mk_sum(J, tonum(items[0][0]), bound_var(h)) != i:
        return None
    return J, items[0][0], items[0][1], bound_var(h)


def reindex(n, vals, katom):
    """an iteration over the kept items of a sequence, as an iteration over all of them: (N, condition, values, index)"""
    J = count_to(n)
    if J is None or katom in all_atoms(J):
        return None
    m = {}
    cond = None
    _cnt[0] += 1
    j = atom('k', 'r%d' % (_cnt[0] % 1000), ty='i')
    for a in all_atoms(tuple(vals)):
        if aop(a) != 'elem' or aargs(a)[1] != pvar(katom):
            continue
        s = aargs(a)[0]
        q = kept(s, n)
        if q is None or katom in all_atoms(s):
            continue
        c = subst(q[1], {q[3]: pvar(j)})
        if cond is None:
            cond = c
        elif cond != c:
            continue
        m[a] = subst(q[2], {q[3]: pvar(j)})
    if cond is None:
        return None
    h = atom('k', 'inner', j, ty='i')
    m[katom] = mk_sum(pvar(j), tonum(subst(cond, {j: pvar(h)})), h)
    return J, cond, [subst(v, m) for v in vals], j


def inrange(v, n, katom):
    """v where the index katom is below n"""
    c = lt0(psub(pvar(katom), n))
    if c.n < 2 or not (BDD.support(c.n) <= all_atoms(v)):
        return v
    return gsimplify_deep(v, c)


def breakpoint_(n, vals, katom):
    """m, 0 <= m <= n, when the values distinguish the indices below m from the others"""
    for a in all_atoms(tuple(vals)):
        if aop(a) == 'lti':
            p = aargs(a)[0]
            c = p.d.get(((katom, 1),))
            if c not in (1, -1):
                continue
            # k < m, or its negation m - 1 - k < 0
            m = psub(pvar(katom), p) if c == 1 else padd(padd(p, pvar(katom)), ONE)
            if katom in all_atoms(m) or m.is_const():
                continue
            lo, r = interval(m)[0], interval(psub(n, m))[0]
            if lo is not None and lo >= 0 and r is not None and r >= 0 and m != n:
                return m
    return None


def seq_map(n, items, katom):
    """items: list of (cond, value) appended per iteration k"""
    katom, items = unbind(katom, tuple((c, v) for c, v in items), avoid=n)
    if isinstance(n, G):
        return gmap(lambda x: seq_map(x, items, katom), n)
    items = tuple((inrange(c, n, katom), inrange(v, n, katom)) for c, v in items)
    r = reindex(n, [x for it in items for x in it], katom)
    if r is not None:
        n, c, vs, katom = r
        items = [(band(c, vs[2 * i]), vs[2 * i + 1]) for i in range(len(items))]
    items = tuple((inrange(c, n, katom), inrange(v, n, katom)) for c, v in items)
    m = breakpoint_(n, [x for it in items for x in it], katom)
    if m is not None:
        at = {katom: padd(pvar(katom), m)}
        above = bnot(lt0(psub(pvar(katom), m)))
        rest = [tuple(subst(gsimplify_deep(x, above), at) for x in it) for it in items]
        return seq_cat(seq_map(m, items, katom), seq_map(psub(n, m), rest, katom))
    items = tuple((c, gsimplify_deep(v, c if c.n < 2 else band(c, counting_facts(all_atoms(v), n, katom)))) for c, v in items)
    if len(items) == 1 and items[0][0].n != 1 and katom in all_atoms(items[0]):
        # values that only depend on how many were kept before them
        c, v = items[0]
        i = atom('k', 'inner', katom, ty='i')
        m = mk_sum(pvar(katom), tonum(subst(c, {katom: pvar(i)})), i)
        if count_to(m) == pvar(katom):
            (mon, _), = m.d.items()
            if mon[0][0] in all_atoms(v):
                v = subst(v, {mon[0][0]: pvar(i)})
                if katom not in all_atoms(v):
                    return seq_map(mk_sum(n, tonum(c), katom), [(TRUE, v)], i)
    h = 1 + max([maxbv(c) for c, _ in items] + [maxbv(v) for _, v in items] + [0])
    m = {katom: pvar(bound_var(h))}
    items = tuple((subst(c, m), subst(v, m)) for c, v in items)
    # identity map:  value == elem(s, k) for all k < size(s)
    if len(items) == 1 and items[0][0].n == 1:
        v = items[0][1]
        b = v.base if isinstance(v, Rec) and not v.over else v
        if isinstance(b, Poly) and len(b.d) == 1:
            (mm, cc), = b.d.items()
            if cc == 1 and len(mm) == 1 and mm[0][1] == 1 and aop(mm[0][0]) == 'val':
                b = aargs(mm[0][0])[0]
        if isinstance(b, T) and b.op == 'elem' and b.args[1] == pvar(bound_var(h)) and seq_size(b.args[0]) == n and maxbv(b.args[0]) < h:
            return b.args[0]
        if h not in bvs(v):
            return seq_fill(n, v)
    return T('map', n, items, h)


def gsimplify_deep(v, care):
    if care.n == 1:
        return v
    if isinstance(v, (B, G)):
        return gsimplify(v, care)
    if isinstance(v, Mat):
        return Mat(v.r, v.c, [gsimplify_deep(x, care) for x in v.e], v.kind)
    if isinstance(v, Rec):
        return Rec(v.rt, gsimplify_deep(v.base, care), {k: (gsimplify_deep(x, care), t) for k, (x, t) in v.over})
    return v


# ---------------------------------------------------------------- binders
def bound_var(h):
    return atom('bv', h, ty='i')


_maxbv_c = {}
_bvs_c = {}


def children(v):
    if isinstance(v, Poly):
        for m in v.d:
            for a, _ in m:
                yield ('atom', a)
    elif isinstance(v, T):
        yield ('atom', v.id)
    elif isinstance(v, B):
        for a in BDD.support(v.n):
            yield ('atom', a)
    elif isinstance(v, G):
        for x, c in v.cases:
            yield x
            yield c
    elif isinstance(v, Mat):
        yield from v.e
    elif isinstance(v, Rec):
        yield v.base
        for k, (x, t) in v.over:
            yield x
    elif isinstance(v, It):
        yield v.ref
        yield v.idx
    elif isinstance(v, Ref):
        if v.loc[0] == 'obj' and isinstance(v.loc[1], T):
            yield v.loc[1]
        for p in v.path:
            for x in p:
                yield x
    elif isinstance(v, Ptr):
        yield v.ref
    elif isinstance(v, View):
        yield from v.refs
    elif isinstance(v, Fn):
        if isinstance(v.data, tuple):
            yield from v.data
    elif isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'atom':
            yield from aargs(v[1])
        else:
            yield from v


def bvs(v):
    """set of bv heights occurring free-or-bound in v"""
    if isinstance(v, (str, int, Fraction, Str)) or v is None:
        return frozenset()
    r = _bvs_c.get(v)
    if r is not None:
        return r
    acc = set()
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'atom' and aop(v[1]) in ('bv', 'mv'):
        acc.add(aargs(v[1])[0])
    for x in children(v):
        acc |= bvs(x)
    r = frozenset(acc)
    try:
        _bvs_c[v] = r
    except TypeError:
        pass
    return r


def maxbv(v):
    s = bvs(v)
    return max(s) if s else 0


_atoms_c = {}


def all_atoms(v):
    if isinstance(v, (str, int, Fraction, Str)) or v is None:
        return frozenset()
    r = _atoms_c.get(v)
    if r is not None:
        return r
    acc = set()
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'atom':
        acc.add(v[1])
    for x in children(v):
        acc |= all_atoms(x)
    r = frozenset(acc)
    _atoms_c[v] = r
    return r


REBUILD = {}


def rebuild(op, ty):
    def deco(f):
        REBUILD[op] = f
        return f
    return deco


def subst(v, m, memo=None):
    """substitute atoms (ids) by values"""
    if not m:
        return v
    if memo is None:
        memo = {}
    return _sub(v, m, memo)


def _sub(v, m, memo):
    if isinstance(v, (str, int, Fraction, Str)) or v is None:
        return v
    r = memo.get(v)
    if r is not None:
        return r
    if not (all_atoms(v) & m.keys()):
        return v
    if isinstance(v, Poly):
        r = None
        for mon, c in v.d.items():
            t = const(c)
            for a, e in mon:
                x = _sub_atom(a, m, memo)
                if isinstance(x, G):
                    t = gmap(lambda p, q: pmul(p, ppow(q, e)), t, x)
                elif isinstance(x, B):
                    t = gmap(lambda p, q: pmul(p, ppow(q, e)), t, tonum(x))
                else:
                    t = gmap(lambda p: pmul(p, ppow(x, e)), t)
            r = t if r is None else nadd(r, t)
        r = ZERO if r is None else r
    elif isinstance(v, B):
        r = _sub_bdd(v.n, m, memo, {})
    elif isinstance(v, T):
        r = _sub_atom(v.id, m, memo)
    elif isinstance(v, G):
        r = None
        for x, c in v.cases:
            x2 = _sub(x, m, memo)
            c2 = _sub(c, m, memo)
            r = x2 if r is None else vite(c2, x2, r)
    elif isinstance(v, Mat):
        r = Mat(v.r, v.c, [_sub(x, m, memo) for x in v.e], v.kind)
    elif isinstance(v, Rec):
        b = _sub(v.base, m, memo)
        over = {k: (_sub(x, m, memo), t) for k, (x, t) in v.over}
        if isinstance(b, Rec):
            d = dict(b.over)
            d.update(over)
            r = Rec(v.rt, b.base, d)
        else:
            r = Rec(v.rt, b, over)
    elif isinstance(v, It):
        r = It(_sub(v.ref, m, memo), _sub(v.idx, m, memo), v.rev)
    elif isinstance(v, Ref):
        l = v.loc
        if l[0] == 'obj' and isinstance(l[1], T):
            l = ('obj', _sub(l[1], m, memo)) + tuple(l[2:])
        r = Ref(l, tuple(tuple(_sub(x, m, memo) for x in p) for p in v.path))
    elif isinstance(v, Ptr):
        r = Ptr(_sub(v.ref, m, memo))
    elif isinstance(v, View):
        r = View(v.r, v.c, [_sub(x, m, memo) for x in v.refs], v.kind)
    elif isinstance(v, Fn):
        r = Fn(v.kind, v.f, tuple(_sub(x, m, memo) for x in v.data) if isinstance(v.data, tuple) else v.data)
    elif isinstance(v, tuple):
        r = tuple(_sub(x, m, memo) for x in v)
    elif isinstance(v, frozenset):
        r = frozenset(_sub(x, m, memo) for x in v)
    else:
        raise Unsupported('subst %r' % (v,))
    memo[v] = r
    return r


def _sub_bdd(n, m, memo, loc):
    if n < 2:
        return B(n)
    r = loc.get(n)
    if r is not None:
        return r
    v, lo, hi = BDD.nodes[n]
    c = _sub_atom(v, m, memo)
    if not isinstance(c, B):
        c = tobool(c)
    r = bite(c, _sub_bdd(hi, m, memo, loc), _sub_bdd(lo, m, memo, loc))
    loc[n] = r
    return r


def _sub_atom(a, m, memo):
    if a in m:
        return m[a]
    k = ('atom', a)
    r = memo.get(k)
    if r is not None:
        return r
    if not (all_atoms(k) & m.keys()):
        r = default_atom(a)
    else:
        op, args = _t._ATOM_LIST[a]
        if op in OPENERS:
            r = OPENERS[op](_t._ATOM_TY[a], args, lambda x: _sub(x, m, memo))
        else:
            na = tuple(_sub(x, m, memo) for x in args)
            r = build(op, na, _t._ATOM_TY[a])
            if a in _t.FLOAT32 and isinstance(r, Poly) and len(r.d) == 1:
                (mon, c), = r.d.items()
                if c == 1 and len(mon) == 1 and mon[0][1] == 1 and aop(mon[0][0]) == op:
                    _t.FLOAT32.add(mon[0][0])
    memo[k] = r
    return r


def default_atom(a):
    ty = _t._ATOM_TY[a]
    if ty == 'b':
        return B(BDD.var(a))
    if ty == 'o':
        return term_of_atom(a)
    return pvar(a)


def build(op, args, ty):
    f = REBUILD.get(op)
    if f is not None:
        return f(ty, *args)
    # distribute guards found directly in arguments
    if any(isinstance(x, G) for x in args):
        return gmap_any(lambda *xs: build(op, xs, ty), args)
    args = tuple(args)
    if ty == 'b':
        return bvar(op, *args)
    if ty == 'o':
        return T(op, *args)
    return sym(op, *args, ty=ty)


def gmap_any(f, args):
    for i, a in enumerate(args):
        if isinstance(a, G):
            out = None
            for v, c in a.cases:
                x = gmap_any(f, args[:i] + (v,) + args[i + 1:])
                out = x if out is None else vite(c, x, out)
            return out
    return f(*args)


BITOP = {'&': ('bitand', lambda a, b: a & b), '|': ('bitor', lambda a, b: a | b), '^': ('bitxor', lambda a, b: a ^ b),
         '<<': ('shl', lambda a, b: a << b), '>>': ('shr', lambda a, b: a >> b)}


def pbit(op, a, b):
    n, f = BITOP[op]
    if a.is_const() and b.is_const():
        return const(f(int(a.const()), int(b.const())))
    return sym(n, a, b, ty='i')


def as01(v):
    """a truth value, given as such or as the integer 0 or 1; None for anything else"""
    if isinstance(v, B):
        return v
    if isinstance(v, Poly) and v.is_const() and v.const() in (0, 1):
        return TRUE if v.const() == 1 else FALSE
    if isinstance(v, G) and all(isinstance(x, Poly) and x.is_const() and x.const() in (0, 1) for x, _ in v.cases):
        r = FALSE
        for x, g in v.cases:
            if x.const() == 1:
                r = bor(r, g)
        return r
    return None


for _o, (_n, _f) in BITOP.items():
    REBUILD[_n] = (lambda o: lambda ty, a, b: gmap(lambda p, q: pbit(o, p, q), a, b))(_o)
REBUILD['sqrt'] = lambda ty, p: nsqrt(p)
REBUILD['inv'] = lambda ty, p: gmap(pinv, p)
REBUILD['L'] = lambda ty, p: gmap(_rawL, p)
REBUILD['Z'] = lambda ty, p: gmap(eq0, p)
REBUILD['lti'] = lambda ty, p: gmap(lt0, p)
REBUILD['trunc'] = lambda ty, p: gmap(ptrunc, p)
REBUILD['floor'] = lambda ty, p: gmap(pfloor, p)
REBUILD['idiv'] = lambda ty, a, b: gmap(pidiv, a, b)
REBUILD['mod'] = lambda ty, a, b: gmap(pmod, a, b)
REBUILD['size'] = lambda ty, s: seq_size(s)
REBUILD['push'] = lambda ty, s, v: gmap(lambda x: seq_push(x, v), s)
REBUILD['upd'] = lambda ty, s, i, v: seq_upd(s, i, v)
REBUILD['cat'] = lambda ty, *xs: _cats(xs)
REBUILD['fill'] = lambda ty, n, v: seq_fill(n, v)
REBUILD['resized'] = lambda ty, s, n, v: seq_resize(s, n, v)
REBUILD['elem'] = lambda ty, s, i, t: _unval(seq_elem(s, i, t))
REBUILD['fld'] = lambda ty, r, o, t: _unval(rec_field(r, o, t))
REBUILD['val'] = lambda ty, t: _reval(t, 'val', ty)
REBUILD['uns'] = lambda ty, t: _reval(t, 'uns', ty)
REBUILD['u8'] = lambda ty, t: _reval(t, 'u8', ty)
REBUILD['el'] = lambda ty, t, i, j: _rel(t, i, j, ty)


def _cats(xs):
    r = xs[0]
    for x in xs[1:]:
        r = seq_cat(r, x)
    return r


def _rawL(p):
    return lt0(p)


def _unval(v):
    """object-level result used as a term argument (base of fields)"""
    if isinstance(v, Rec) and not v.over and not isinstance(v.base, str):
        return v.base
    return v


def _reval(t, op, ty):
    """numeric value carried by an object term that was substituted by a scalar"""
    if isinstance(t, T):
        return sym(op, t, ty=ty)
    if isinstance(t, G):
        return gmap_any(lambda x: _reval(x, op, ty), (t,))
    return t


def _rel(t, i, j, ty):
    if isinstance(t, Mat):
        return t.at(i, j)
    if isinstance(t, G):
        out = None
        for v, c in t.cases:
            x = _rel(v, i, j, ty)
            out = x if out is None else vite(c, x, out)
        return out
    return sym('el', t, i, j, ty=ty)


# ---------------------------------------------------------------- Sum / Any
def _dom_key(n):
    return n


def unbind(katom, *vs, avoid=ZERO):
    """an index that is not itself a bound variable, so that binder levels come out the same however a term was reached"""
    if aop(katom) != 'bv':
        return (katom,) + vs
    used = all_atoms(vs + (avoid,))
    i = 0
    while True:
        k = atom('k', 'u%d' % i, ty='i')
        if k not in used:
            return (k,) + tuple(subst(v, {katom: pvar(k)}) for v in vs)
        i += 1


def mk_sum(n, f, katom):
    """sum_{k<n} f(k)"""
    katom, f = unbind(katom, f, avoid=n)
    if isinstance(n, G):
        return gmap(lambda x: mk_sum(x, f, katom), n)
    r = reindex(n, [f], katom)
    if r is not None:
        return mk_sum(r[0], vite(r[1], r[2][0], ZERO), r[3])
    f = inrange(f, n, katom)
    # case split on loop-invariant guards
    if isinstance(f, G):
        inv = invariant_guard(f, katom)
        if inv is not None:
            c1 = inv
            return vite(c1, mk_sum(n, gsimplify(f, c1), katom), mk_sum(n, gsimplify(f, bnot(c1)), katom))
        f = canon_ties(f)
    if isinstance(f, Poly):
        r = ZERO
        for m, c in f.d.items():
            out, ins = [], []
            for a, e in m:
                (ins if katom in all_atoms(('atom', a)) else out).append((a, e))
            coef = pscale(Poly({tuple(out): Fraction(1)}), c)
            if not ins:
                r = nadd(r, nmul(coef, n))
            else:
                r = nadd(r, nmul(coef, _sum_atom(n, Poly({tuple(ins): Fraction(1)}), katom)))
        return r
    return _sum_atom(n, f, katom)


def _sum_atom(n, f, katom):
    if n.is_const() and 0 <= n.const() <= 64:
        r = ZERO
        for i in range(int(n.const())):
            r = nadd(r, subst(f, {katom: const(i)}))
        return r
    # flatten nested sum: body is exactly one sum atom whose domain does not depend on k
    doms = [n]
    body = f
    inner = None
    if isinstance(f, Poly) and len(f.d) == 1:
        (m, c), = f.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and aop(m[0][0]) == 'sum':
            inner = aargs(m[0][0])
    if inner is not None:
        idoms, ibody, ih = inner
        if not any(katom in all_atoms(d) for d in idoms):
            fresh = [atom('k', 'f%d' % i, len(idoms), ty='i') for i in range(len(idoms))]
            body = subst(ibody, {bound_var(ih[i]): pvar(fresh[i]) for i in range(len(idoms))})
            return _mk_multi('sum', list(idoms) + [n], body, fresh + [katom], 'f' if True else 'i')
    return _mk_multi('sum', [n], body, [katom], 'f')


def _num_ty(body):
    def ok(p):
        return is_int(p)
    if isinstance(body, Poly):
        return 'i' if ok(body) else 'f'
    if isinstance(body, G):
        return 'i' if all(isinstance(x, Poly) and ok(x) for x, _ in body.cases) else 'f'
    return 'f'


_MULTI = {}


def _mk_multi(op, doms, body, ks, ty):
    """binder over several independent domains, canonical up to order of the domains"""
    import itertools as it
    if op == 'sum':
        ty = _num_ty(body)
    base = maxbv(tuple([body] + doms))
    n = len(doms)
    keys = []
    hs = tuple(base + 1 + i for i in range(n))
    indep = all(not (all_atoms(d) & set(ks)) for d in doms)
    flips = list(it.product((False, True), repeat=n)) if indep and n <= 2 else [(False,) * n]
    for perm in it.permutations(range(n)) if n <= 3 else [tuple(range(n))]:
        for fl in flips:
            mm = {}
            for i in range(n):
                v = pvar(bound_var(hs[i]))
                if fl[perm[i]]:
                    v = psub(psub(doms[perm[i]], ONE), v)
                mm[ks[perm[i]]] = v
            b = subst(body, mm)
            keys.append((op, tuple(doms[perm[i]] for i in range(n)), b, hs, ty))
    for k in keys:
        if k in _MULTI:
            key = _MULTI[k]
            break
    else:
        key = keys[0]
        for k in keys:
            _MULTI[k] = key
    _, d, b, hs, ty = key
    return bvar(op, d, b, hs) if ty == 'b' else sym(op, d, b, hs, ty=ty)


def invariant_guard(f, katom):
    """a guard variable of f that does not depend on katom (as B) or None"""
    for x, c in f.cases:
        for a in BDD.support(c.n):
            if katom not in all_atoms(('atom', a)):
                # Z / L pairs: split on full condition is fine variable-wise
                return B(BDD.var(a))
    return None


def counting_facts(atoms, n, katom):
    """what is counted at k is in the count up to n but not in the count up to k, for the counts that atoms compare"""
    out = TRUE
    for a in atoms:
        if aop(a) != 'lti':
            continue
        sums = [b for m, v in aargs(a)[0].d.items() for b, e in m if aop(b) == 'sum' and len(m) == 1 and e == 1]
        for b in sums:
            doms, body, hs = aargs(b)
            if len(doms) != 1 or doms[0] != pvar(katom) or not isinstance(body, G) or {x for x, _ in body.cases} != {ZERO, ONE}:
                continue
            at = subst(body, {bound_var(hs[0]): pvar(katom)})
            here = tobool(at) if not isinstance(at, G) else [cc for x, cc in at.cases if x == ONE][0]
            total = mk_sum(n, at, katom)
            if isinstance(total, Poly):
                out = band(out, bor(bnot(here), bnot(lt0(psub(psub(total, pvar(b)), ONE)))))
    return out


def counted(c, n, katom):
    """c(k) for k < n, with what is known about the counts it compares"""
    return band(c, counting_facts(list(BDD.support(c.n)), n, katom))


_ANY = {}


def mk_any(n, c, katom):
    """exists k < n: c(k)"""
    katom, c = unbind(katom, c, avoid=n)
    if isinstance(n, G):
        out = None
        for x, cc in n.cases:
            y = mk_any(x, c, katom)
            out = y if out is None else bite(cc, y, out)
        return out
    if c.n == 0:
        return FALSE
    if katom not in all_atoms(c):
        return band(c, lt0(pneg(n)))
    c = counted(inrange(c, n, katom), n, katom)
    if c.n == 0:
        return FALSE
    r = reindex(n, [c], katom)
    if r is not None:
        return mk_any(r[0], band(r[1], r[2][0]), r[3])
    # hoist loop-invariant variables by case split
    for a in sorted(BDD.support(c.n)):
        if katom not in all_atoms(('atom', a)):
            v = B(BDD.var(a))
            key = (n, c.n, katom)
            if key not in _ANY:
                c1 = B(BDD.constrain(c.n, v.n))
                c0 = B(BDD.constrain(c.n, bnot(v).n))
                _ANY[key] = bite(v, mk_any(n, c1, katom), mk_any(n, c0, katom))
            return _ANY[key]
    if n.is_const() and 0 <= n.const() <= 64:
        r = FALSE
        for i in range(int(n.const())):
            r = bor(r, subst(c, {katom: const(i)}))
        return r
    # flatten
    sup = BDD.support(c.n)
    if len(sup) == 1 and c == B(BDD.var(next(iter(sup)))):
        a = next(iter(sup))
        if aop(a) == 'any':
            idoms, ibody, ih = aargs(a)
            if not any(katom in all_atoms(d) for d in idoms):
                fresh = [atom('k', 'a%d' % i, len(idoms), ty='i') for i in range(len(idoms))]
                body = subst(ibody, {bound_var(ih[i]): pvar(fresh[i]) for i in range(len(idoms))})
                return _mk_multi('any', list(idoms) + [n], body, fresh + [katom], 'b')
    return _mk_multi('any', [n], c, [katom], 'b')


def mk_first(n, c, katom):
    """index of the first k < n with c(k), n if none"""
    katom, c = unbind(katom, c, avoid=n)
    if isinstance(n, G):
        return gmap(lambda x: mk_first(x, c, katom), n)
    if c.n == 0:
        return n
    if katom not in all_atoms(c):
        return vite(c, nmin(n, ZERO) if False else ZERO, n)
    h = 1 + maxbv((n, c))
    return sym('first', n, subst(c, {katom: pvar(bound_var(h))}), h, ty='i')



# ---------------------------------------------------------------- substitution under binders: open, substitute, close
_open_depth = [0]


class _Open:
    def __enter__(self):
        _open_depth[0] += 1
        return _open_depth[0]

    def __exit__(self, *a):
        _open_depth[0] -= 1


OPENERS = {}


def _op_sum(ty, args, f, op):
    doms, body, hs = args
    with _Open() as d:
        ks = [atom('k', 'o%d_%d' % (d, i), ty='i') for i in range(len(hs))]
        r = f(subst(body, {bound_var(h): pvar(k) for h, k in zip(hs, ks)}))
        for dm, k in zip(doms, ks):
            dm = f(dm)
            r = mk_sum(dm, r, k) if op == 'sum' else mk_any(dm, r, k)
        return r


OPENERS['sum'] = lambda ty, args, f: _op_sum(ty, args, f, 'sum')
OPENERS['any'] = lambda ty, args, f: _op_sum(ty, args, f, 'any')


def _op_first(ty, args, f):
    n, c, h = args
    with _Open() as d:
        k = atom('k', 'o%d' % d, ty='i')
        return mk_first(f(n), f(subst(c, {bound_var(h): pvar(k)})), k)


OPENERS['first'] = _op_first


def _op_map(ty, args, f):
    n, items, h = args
    with _Open() as d:
        k = atom('k', 'o%d' % d, ty='i')
        m = {bound_var(h): pvar(k)}
        return seq_map(f(n), [(f(subst(c, m)), f(subst(v, m))) for c, v in items], k)


OPENERS['map'] = _op_map
OPENERS['maxn'] = lambda ty, args, f: nmaxn([f(x) for x in args[0]])
