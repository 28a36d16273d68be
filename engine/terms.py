"""Canonical value terms: hash-consed atoms, Laurent polynomials over them, conditions as ROBDDs over
canonical comparison atoms, guarded values.  Everything is exact (rational coefficients)."""
from fractions import Fraction
import itertools

# ---------------------------------------------------------------- atoms
# An atom is (op, args...).  args are hashable: ints, strings, Poly, B, T, tuples, frozensets, ...
_ATOMS = {}
_ATOM_LIST = []
_ATOM_TY = []          # 'i' integer, 'f' real, 'b' bool, 'o' object


def atom(op, *args, ty='f'):
    key = (op, args, ty)
    a = _ATOMS.get(key)
    if a is None:
        a = len(_ATOM_LIST)
        _ATOMS[key] = a
        _ATOM_LIST.append((op, args))
        _ATOM_TY.append(ty)
    return a


def aop(a):
    return _ATOM_LIST[a][0]


def aargs(a):
    return _ATOM_LIST[a][1]


def aty(a):
    return _ATOM_TY[a]


class T:
    """Opaque object-valued term (non numeric)."""
    __slots__ = ('id',)
    _c = {}

    def __new__(cls, op, *args):
        a = atom(op, *args, ty='o')
        t = cls._c.get(a)
        if t is None:
            t = object.__new__(cls)
            t.id = a
            cls._c[a] = t
        return t

    @property
    def op(self):
        return aop(self.id)

    @property
    def args(self):
        return aargs(self.id)

    def __repr__(self):
        return show(self)


def term_of_atom(a):
    t = T._c.get(a)
    if t is None:
        t = object.__new__(T)
        t.id = a
        T._c[a] = t
    return t


# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('d', '_h')
    _c = {}

    def __new__(cls, d):
        key = frozenset(d.items())
        p = cls._c.get(key)
        if p is None:
            p = object.__new__(cls)
            p.d = d
            p._h = hash(key)
            cls._c[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Fraction(0))

    def __repr__(self):
        return show(self)


def const(c):
    c = Fraction(c)
    return Poly({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def pvar(a):
    return Poly({((a, 1),): Fraction(1)})


def sym(op, *args, ty='f'):
    return pvar(atom(op, *args, ty=ty))


def padd(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m, 0) + c
        if x:
            d[m] = x
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(a, c):
    c = Fraction(c)
    if c == 1:
        return a
    if not c:
        return ZERO
    return Poly({m: v * c for m, v in a.d.items()})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


_NORM_OPS = ('sqrt', 'inv', 'sin')


def _mmul(m1, m2):
    """monomial product -> (monomial, needs_norm)"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    touched = False
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            d.pop(a, None)
        if _ATOM_LIST[a][0] in _NORM_OPS:
            touched = True
    # inv(q) * q cannot be seen at monomial level (q is a polynomial): handled in zero test
    return tuple(sorted(d.items())), touched


_mulc = {}
_mnormc = {}


def pmul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if not a.d or not b.d:
        return ZERO
    if b.is_const():
        return pscale(a, b.const())
    if a.is_const():
        return pscale(b, a.const())
    key = (a, b)
    r = _mulc.get(key)
    if r is not None:
        return r
    d = {}
    norm = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, t = _mmul(m1, m2)
            c = c1 * c2
            if t:
                norm.append((m, c))
                continue
            x = d.get(m, 0) + c
            if x:
                d[m] = x
            else:
                d.pop(m, None)
    for m, c in norm:
        q = _mnormc.get(m)
        if q is None:
            q = _mnormc[m] = _mnorm(m)
        for m2, c2 in q.d.items():
            x = d.get(m2, 0) + c * c2
            if x:
                d[m2] = x
            else:
                d.pop(m2, None)
    r = Poly(d)
    _mulc[key] = r
    _mulc[(b, a)] = r
    return r


def _mnorm(m):
    """normalise sqrt/sin powers in a monomial; returns Poly"""
    for a, e in m:
        op = _ATOM_LIST[a][0]
        if op == 'sqrt' and (e >= 2 or e < 0):
            p = _ATOM_LIST[a][1][0]
            h, r = divmod(e, 2)
            rest = tuple((x, y) for x, y in m if x != a)
            if r:
                rest = tuple(sorted(rest + ((a, 1),)))
            return pmul(_mnorm(rest), ppow(p, h))
        if op == 'sin' and e >= 2:
            cs = atom('cos', *_ATOM_LIST[a][1])
            rest = dict(m)
            rest[a] = e - 2
            if not rest[a]:
                del rest[a]
            q = psub(ONE, ppow(pvar(cs), 2))
            return pmul(_mnorm(tuple(sorted(rest.items()))), q)
        if op == 'inv' and e < 0:
            p = _ATOM_LIST[a][1][0]
            rest = tuple((x, y) for x, y in m if x != a)
            return pmul(_mnorm(rest), ppow(p, -e))
    return Poly({m: Fraction(1)})


def lead(p):
    m = max(p.d)
    return m, p.d[m]


def pinv(p):
    if not p.d:
        return sym('inv', ZERO)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        mm = tuple((a, -e) for a, e in m)
        r = pscale(_mnorm(mm), Fraction(1) / c)
        return r
    m, c = lead(p)
    # factor out common monomial
    common = None
    for mon in p.d:
        s = dict(mon)
        if common is None:
            common = s
        else:
            common = {a: min(e, s[a]) for a, e in common.items() if a in s and (e > 0) == (s[a] > 0)}
        if not common:
            break
    q = pscale(p, Fraction(1) / c)
    if common:
        cm = tuple(sorted((a, -e) for a, e in common.items()))
        q2 = pmul(q, _mnorm(cm))
        if len(q2.d) == len(q.d):
            m2, c2 = lead(q2)
            q2 = pscale(q2, 1 / c2)
            return pscale(pmul(pmul(sym('inv', q2), _mnorm(cm)), ONE), Fraction(1) / (c * c2))
    return pscale(sym('inv', q), Fraction(1) / c)


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return pinv(ppow(p, -n))
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def _isqrt_frac(c):
    import math
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def psqrt(p):
    if p.is_const():
        r = _isqrt_frac(p.const())
        if r is not None:
            return const(r)
    if len(p.d) >= 1:
        m, c = lead(p)
        if c > 0:
            r = _isqrt_frac(c)
            if r is not None and r != 1:
                return pscale(psqrt(pscale(p, 1 / c)), r)
    return sym('sqrt', p)


def poly_atoms(p):
    s = set()
    for m in p.d:
        for a, _ in m:
            s.add(a)
    return s


def is_int(p):
    for m, c in p.d.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or _ATOM_TY[a] != 'i':
                return False
    return True


# atoms with known lower bound 0
NONNEG = {'size', 'k', 'u8', 'count', 'bv', 'first', 'rows', 'cols', 'usize', 'sqrt', 'abs', 'uns', 'cmod', 'dom'}
UPPER = {'u8': 255}
HAS_MAXN = []
MAXI = Fraction(2 ** 62)        # magnitude bound of program integers that are not wrapped unsigned values


_SUMPOS = {}


def sum_nonneg(at):
    r = _SUMPOS.get(at)
    if r is None:
        b = _ATOM_LIST[at][1][1] if isinstance(_ATOM_LIST[at][1], tuple) else _ATOM_LIST[at][2]
        vs = [b] if isinstance(b, Poly) else [x for x, _ in b.cases] if isinstance(b, G) else [None]
        r = all(isinstance(v, Poly) and (interval(v)[0] or -1 if interval(v)[0] is None else interval(v)[0]) >= 0 for v in vs)
        _SUMPOS[at] = r
    return r


def interval(p):
    """(lo, hi) bounds of a polynomial from known atom bounds, None = unknown"""
    lo = hi = Fraction(0)
    for m, c in p.d.items():
        if m == ():
            a, b = Fraction(1), Fraction(1)
        else:
            a, b = Fraction(1), Fraction(1)
            for at, e in m:
                op = _ATOM_LIST[at][0]
                if e > 0 and (op in NONNEG or e % 2 == 0 or op == 'sum' and sum_nonneg(at)):
                    u = UPPER.get(op)
                    if u is None and e == 1 and len(m) == 1 and _ATOM_TY[at] == 'i':
                        u = MAXI
                    a = Fraction(0) if a is not None and a >= 0 else None
                    b = None if (u is None or b is None) else b * u ** e
                    if a is None:
                        b = None
                        break
                elif e == 1 and _ATOM_TY[at] == 'i' and len(m) == 1:
                    a, b = -MAXI, MAXI
                elif e < 0 and (op in NONNEG or e % 2 == 0):
                    a, b = (Fraction(0) if a is not None and a >= 0 else None), None
                    if a is None:
                        break
                else:
                    a = b = None
                    break
        if c > 0:
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        else:
            lo, hi = (None if lo is None or b is None else lo + c * b), (None if hi is None or a is None else hi + c * a)
    return lo, hi


# ---------------------------------------------------------------- BDD
class _BDD:
    def __init__(self):
        self.nodes = [None, None]     # 0 = False, 1 = True
        self.uniq = {}
        self.memo = {}
        self.order = []               # variables in diagram order
        self.pos = {}
        self.leaves = {}

    def place(self, v):
        """put a new variable next to the one it shares most of its leaves with"""
        lv = self.leaves[v] = cond_leaves(v)
        best, at = 0.0, len(self.order)
        if lv:
            for i, w in enumerate(self.order):
                lw = self.leaves[w]
                k = len(lv & lw)
                if k:
                    j = k / (len(lv) + len(lw) - k)
                    if j >= best:
                        best, at = j, i + 1
        self.order.insert(at, v)
        for i in range(at, len(self.order)):
            self.pos[self.order[i]] = i

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            if n > 4000000:
                raise MemoryError
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, v):
        if v not in self.pos:
            self.place(v)
        return self.mk(v, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        nodes, pos = self.nodes, self.pos
        nf = nodes[f]
        v = nf[0]
        pv = pos[v]
        ng = nh = None
        if g > 1:
            ng = nodes[g]
            p = pos[ng[0]]
            if p < pv:
                v, pv = ng[0], p
        if h > 1:
            nh = nodes[h]
            p = pos[nh[0]]
            if p < pv:
                v, pv = nh[0], p
        _, f0, f1 = nf if nf[0] == v else (v, f, f)
        _, g0, g1 = ng if ng is not None and ng[0] == v else (v, g, g)
        _, h0, h1 = nh if nh is not None and nh[0] == v else (v, h, h)
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.memo[k] = r
        return r

    def constrain(self, f, c):
        """generalised cofactor: canonical for f restricted to care set c"""
        if c == 1 or f < 2:
            return f
        if c == 0:
            return 0
        k = ('c', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        vf = self.nodes[f][0]
        vc = self.nodes[c][0]
        v = vf if self.pos[vf] <= self.pos[vc] else vc
        f0, f1 = (self.nodes[f][1], self.nodes[f][2]) if vf == v else (f, f)
        c0, c1 = (self.nodes[c][1], self.nodes[c][2]) if vc == v else (c, c)
        if c0 == 0:
            r = self.constrain(f1, c1)
        elif c1 == 0:
            r = self.constrain(f0, c0)
        else:
            r = self.mk(v, self.constrain(f0, c0), self.constrain(f1, c1))
        self.memo[k] = r
        return r

    def restrict(self, f, c):
        """sibling-substitution restrict (does not introduce new vars)"""
        if c == 1 or f < 2 or c == 0:
            return f
        k = ('r', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        vf = self.nodes[f][0]
        vc = self.nodes[c][0]
        if self.pos[vc] < self.pos[vf]:
            r = self.restrict(f, self.ite(self.nodes[c][1], 1, self.nodes[c][2]))
        else:
            c0, c1 = (self.nodes[c][1], self.nodes[c][2]) if vc == vf else (c, c)
            if c0 == 0:
                r = self.restrict(self.nodes[f][2], c1)
            elif c1 == 0:
                r = self.restrict(self.nodes[f][1], c0)
            else:
                r = self.mk(vf, self.restrict(self.nodes[f][1], c0), self.restrict(self.nodes[f][2], c1))
        self.memo[k] = r
        return r

    def support(self, f, acc=None, seen=None):
        if acc is None:
            acc, seen = set(), set()
        st = [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            acc.add(v)
            st += [lo, hi]
        return acc

    def cubes(self, f, limit=5000):
        """yield list of (var, bool)"""
        out = []
        n = 0
        st = [(f, ())]
        while st:
            x, path = st.pop()
            if x == 0:
                continue
            if x == 1:
                n += 1
                if n > limit:
                    return
                yield list(path)
                continue
            v, lo, hi = self.nodes[x]
            st.append((lo, path + ((v, False),)))
            st.append((hi, path + ((v, True),)))


_cl_memo = {}


def cond_leaves(a):
    """opaque leaves a comparison depends on"""
    r = _cl_memo.get(a)
    if r is None:
        acc = set()
        sub = set()
        _collect(_ATOM_LIST[a][1], sub)
        for x in sub:
            y = cond_leaves(x)
            acc |= y if y else {x}
        r = _cl_memo[a] = frozenset(acc)
    return r


def _collect(v, acc):
    if isinstance(v, Poly):
        for m in v.d:
            for a, e in m:
                acc.add(a)
    elif isinstance(v, T):
        if v.op != 'in':
            acc.add(v.id)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            _collect(x, acc)
    elif isinstance(v, G):
        for x, c in v.cases:
            _collect(x, acc)
            _collect(c, acc)
    elif isinstance(v, B):
        acc |= BDD.support(v.n)


BDD = _BDD()


class B:
    """boolean value"""
    __slots__ = ('n',)
    _c = {}

    def __new__(cls, n):
        b = cls._c.get(n)
        if b is None:
            b = object.__new__(cls)
            b.n = n
            cls._c[n] = b
        return b

    def __repr__(self):
        return show(self)


TRUE = B(1)
FALSE = B(0)


def band(a, b):
    return B(BDD.ite(a.n, b.n, 0))


def bor(a, b):
    return B(BDD.ite(a.n, 1, b.n))


def bnot(a):
    return B(BDD.ite(a.n, 0, 1))


def bite(c, a, b):
    return B(BDD.ite(c.n, a.n, b.n))


def bvar(op, *args):
    return B(BDD.var(atom(op, *args, ty='b')))


def bxor(a, b):
    return bite(a, bnot(b), b)


def _canon_sign(p):
    m, c = lead(p) if any(m != () for m in p.d) else ((), p.const())
    return c


def _strip_nonconst_lead(p):
    ms = [m for m in p.d if m != ()]
    m = max(ms)
    return p.d[m]


def _maxn(p):
    """(atom, coefficient, rest) when an n-ary maximum occurs linearly"""
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and aop(m[0][0]) == 'maxn':
            a = m[0][0]
            rest = Poly({k: v for k, v in p.d.items() if k != m})
            if all(a != x for k in rest.d for x, e in k):
                return a, c, rest
    return None


def _maxn_lt(mx):
    a, c, rest = mx
    r = TRUE if c > 0 else FALSE
    for x in aargs(a)[0]:
        t = gmap(lambda y: lt0(padd(pscale(y, c), rest)), x)
        r = band(r, t) if c > 0 else bor(r, t)
    return r


def lt0(p):
    """p < 0 as condition"""
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    if HAS_MAXN:
        mx = _maxn(p)
        if mx:
            return _maxn_lt(mx)
    lo, hi = interval(p)
    if lo is not None and lo >= 0:
        return FALSE
    if hi is not None and hi < 0:
        return TRUE
    if is_int(p):
        c = _strip_nonconst_lead(p)
        # divide by gcd of nonconst coefficients, floor the constant
        from math import gcd
        g = 0
        for m, v in p.d.items():
            if m != ():
                g = gcd(g, int(v))
        if g > 1:
            k = p.const()
            # g*q + k < 0  <=> q + ceil? q < -k/g  <=> q - floor... q <= ceil(-k/g)-1 <=> q + (1-ceil(-k/g)) <= 0 <=> q + c < 0 with c = -ceil(-k/g)
            import math
            cc = -math.ceil(Fraction(-k, g))
            d = {m: v / g for m, v in p.d.items() if m != ()}
            if cc:
                d[()] = Fraction(cc)
            p = Poly(d)
            c = _strip_nonconst_lead(p)
        if c > 0:
            return bvar('lti', p)
        q = psub(pneg(p), ONE)     # not(p<0) <=> -p-1 < 0
        return bnot(bvar('lti', q))
    c = _strip_nonconst_lead(p)
    s = pscale(p, 1 / c)
    # single atom simplifications
    if len(s.d) == 1:
        (m, _), = s.d.items()
        odd = [(a, 1) for a, e in m if e % 2]
        if len(odd) < len(m) or any(e != 1 for a, e in m):
            # sign depends on odd factors only; zero on any positive-exponent factor
            nz = TRUE
            for a, e in m:
                if e > 0:
                    nz = band(nz, bnot(eq0(pvar(a))))
            neg = FALSE
            for a, e in odd:
                neg = bxor(neg, lt0(pvar(a)))
            r = neg if c > 0 else bnot(neg)
            return band(nz, r)
        if len(m) == 1 and aop(m[0][0]) in NONNEG:
            return FALSE if c > 0 else bnot(eq0(s))
        neg_known = [a for a, e in m if aop(a) in NONNEG]
        if neg_known:
            rest = Poly({tuple((a, e) for a, e in m if a not in neg_known): Fraction(1)})
            nz = TRUE
            for a in neg_known:
                nz = band(nz, bnot(eq0(pvar(a))))
            return band(nz, lt0(pscale(rest, c)))
    z = bvar('Z', s)
    l = bvar('L', s)
    if c > 0:
        return band(bnot(z), l)
    return band(bnot(z), bnot(l))


def eq0(p):
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    if HAS_MAXN:
        mx = _maxn(p)
        if mx:
            return band(bnot(_maxn_lt(mx)), bnot(_maxn_lt((mx[0], -mx[1], pneg(mx[2])))))
    lo, hi = interval(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if is_int(p):
        return band(lt0(psub(p, ONE)), bnot(lt0(p)))
    c = _strip_nonconst_lead(p)
    s = pscale(p, 1 / c)
    if len(s.d) == 1:
        (m, _), = s.d.items()
        if len(m) > 1 or m[0][1] != 1 or aop(m[0][0]) in ('sqrt', 'inv', 'abs'):
            r = FALSE
            for a, e in m:
                if e < 0 or aop(a) == 'inv':
                    continue
                if aop(a) in ('sqrt', 'abs'):
                    r = bor(r, eq0(aargs(a)[0]))
                else:
                    r = bor(r, eq0(pvar(a)))
            return r
        # sums of squares vanish iff every square does
    if len(s.d) > 1 and () not in s.d and all(v > 0 and len(m) == 1 and m[0][1] % 2 == 0 and m[0][1] > 0 for m, v in s.d.items()):
        r = TRUE
        for m in s.d:
            r = band(r, eq0(pvar(m[0][0])))
        return r
    return bvar('Z', s)


def sumsq_nonneg(p):
    return all(v > 0 and all(e % 2 == 0 for a, e in m) for m, v in p.d.items())


# ---------------------------------------------------------------- guarded values
class G:
    """guarded value: tuple of (value, B) cases, disjoint, covering"""
    __slots__ = ('cases', '_h')
    _c = {}

    def __new__(cls, cases):
        key = frozenset(cases)
        g = cls._c.get(key)
        if g is None:
            g = object.__new__(cls)
            g.cases = tuple(cases)
            g._h = hash(key)
            cls._c[key] = g
        return g

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def cases(v):
    if isinstance(v, G):
        return v.cases
    return ((v, TRUE),)


def mkG(lst):
    """lst of (value, cond) disjoint; merges equal values"""
    d = {}
    for v, c in lst:
        if c.n == 0:
            continue
        for v2, c2 in cases(v):
            cc = band(c, c2)
            if cc.n == 0:
                continue
            d[v2] = bor(d[v2], cc) if v2 in d else cc
    if not d:
        return None
    if len(d) == 1:
        return next(iter(d))
    return G(tuple(d.items()))


def gmap(f, *vs):
    """apply f to every combination of cases"""
    if not any(isinstance(v, G) for v in vs):
        return f(*vs)
    out = []

    def rec(i, cond, acc):
        if cond.n == 0:
            return
        if i == len(vs):
            out.append((f(*acc), cond))
            return
        for v, c in cases(vs[i]):
            rec(i + 1, band(cond, c), acc + [v])
    rec(0, TRUE, [])
    if out and isinstance(out[0][0], B):
        r = FALSE
        for b, c in out:
            r = bor(r, band(c, b))
        return r
    return mkG(out)


def gsimplify(v, care):
    """simplify guards under care condition"""
    if isinstance(v, B):
        return B(BDD.constrain(v.n, care.n))
    if isinstance(v, G):
        lst = [(x, B(BDD.constrain(c.n, care.n))) for x, c in v.cases]
        return mkG(lst)
    return v


def canon_ties(v):
    """move tie cases (value difference zero) to a canonical representative"""
    if not isinstance(v, G) or not all(isinstance(x, Poly) for x, _ in v.cases):
        return v
    cs = list(v.cases)
    cs.sort(key=lambda t: poly_key(t[0]))
    n = len(cs)
    vals = [c[0] for c in cs]
    conds = [c[1] for c in cs]
    for i in range(n):
        for j in range(i + 1, n):
            d = psub(vals[i], vals[j])
            z = eq0(d)
            mv = band(conds[j], z)
            if mv.n:
                conds[i] = bor(conds[i], mv)
                conds[j] = band(conds[j], bnot(z))
    return mkG(list(zip(vals, conds)))


def poly_key(p):
    return tuple(sorted((m, c) for m, c in p.d.items()))


# ---------------------------------------------------------------- printing
_depth = 0


def show(v, d=0):
    if d > 7:
        return '..'
    if isinstance(v, Poly):
        if not v.d:
            return '0'
        out = []
        for i, (m, c) in enumerate(sorted(v.d.items(), key=lambda t: str(t[0]))):
            if i > 12:
                out.append('...')
                break
            ms = '*'.join(show_atom(a, d + 1) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not ms:
                out.append(str(c) if c.denominator < 10**6 else '%g' % float(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c if c.denominator < 10**6 else '%g' % float(c), ms))
        return ' + '.join(out).replace('+ -', '- ')
    if isinstance(v, B):
        if v.n == 0:
            return 'false'
        if v.n == 1:
            return 'true'
        cubes = list(itertools.islice(BDD.cubes(v.n, 6), 7))
        return '(' + ' | '.join('&'.join(('' if b else '!') + show_atom(a, d + 1) for a, b in cu) for cu in cubes) + ')'
    if isinstance(v, G):
        return '{' + '; '.join('%s: %s' % (show(c, d + 1), show(x, d + 1)) for x, c in v.cases[:6]) + '}'
    if isinstance(v, T):
        return show_atom(v.id, d)
    if isinstance(v, tuple):
        return '(' + ','.join(show(x, d + 1) for x in v) + ')'
    if isinstance(v, frozenset):
        return '{' + ','.join(show(x, d + 1) for x in v) + '}'
    if isinstance(v, str):
        return v
    return repr(v)


def show_atom(a, d=0):
    op, args = _ATOM_LIST[a]
    if op == 'in':
        return str(args[0])
    if op == 'L':
        return '[%s<0]' % show(args[0], d + 1)
    if op == 'lti':
        return '[%s<0]i' % show(args[0], d + 1)
    if op == 'Z':
        return '[%s==0]' % show(args[0], d + 1)
    if op == 'inv':
        return '1/(%s)' % show(args[0], d + 1)
    if op == 'bv':
        return 'k%s' % args[0]
    if op == 'fld':
        return '%s.%s' % (show(args[0], d + 1), args[1])
    return op + '(' + ','.join(show(x, d + 1) for x in args) + ')'

FLOAT32 = set()         # atoms that hold single-precision values
