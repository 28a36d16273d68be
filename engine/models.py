"""Meaning of the library functions the project calls (Eigen, std, OpenCV, PCL, GTSAM).  Everything not listed is an
uninterpreted function of its arguments."""
import itertools
from .terms import *
from .values import *
from . import values as V
from .values import Unsupported


def mat_of(rows):
    return Mat(len(rows), len(rows[0]), [x for r in rows for x in r])


def ident(n):
    return Mat(n, n, [ONE if i == j else ZERO for i in range(n) for j in range(n)])


def mmul(a, b):
    if a.c != b.r:
        raise Unsupported('matrix product %dx%d * %dx%d' % (a.r, a.c, b.r, b.c))
    e = []
    for i in range(a.r):
        for j in range(b.c):
            s = ZERO
            for k in range(a.c):
                s = nadd(s, nmul(a.at(i, k), b.at(k, j)))
            e.append(s)
    return Mat(a.r, b.c, e)


def mtrans(a):
    return Mat(a.c, a.r, [a.at(j, i) for i in range(a.c) for j in range(a.r)], 'ar' if a.kind == 'ar' else 'mat')


def mmap(f, *ms):
    return Mat(ms[0].r, ms[0].c, [f(*xs) for xs in zip(*[m.e for m in ms])], ms[0].kind if ms[0].kind == 'ar' else 'mat')


def quat_rot(q):
    """rotation matrix of quaternion (x,y,z,w)"""
    x, y, z, w = q.e
    src = quat_src(q)
    if src is not None:
        return src
    two = const(2)
    m = lambda a, b: nmul(two, nmul(a, b))
    return Mat(3, 3, [
        nsub(nsub(ONE, m(y, y)), m(z, z)), nsub(m(x, y), m(w, z)), nadd(m(x, z), m(w, y)),
        nadd(m(x, y), m(w, z)), nsub(nsub(ONE, m(x, x)), m(z, z)), nsub(m(y, z), m(w, x)),
        nsub(m(x, z), m(w, y)), nadd(m(y, z), m(w, x)), nsub(nsub(ONE, m(x, x)), m(y, y))])


def single_atom(p):
    if isinstance(p, Poly) and len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def quat_src(q):
    src = None
    for i, x in enumerate(q.e):
        a = single_atom(x)
        if a is None or aop(a) != 'quatof' or aargs(a)[1] != i:
            return None
        if src is None:
            src = aargs(a)[0]
        elif src != aargs(a)[0]:
            return None
    return Mat(3, 3, src)


def quat_of(R):
    return Mat(4, 1, [sym('quatof', tuple(R.e), i) for i in range(4)], 'quat')


def aa_src(m):
    src = None
    for i, x in enumerate(m.e):
        a = single_atom(x)
        if a is None or aop(a) != 'aaof' or aargs(a)[1] != i:
            return None
        if src is None:
            src = aargs(a)[0]
        elif src != aargs(a)[0]:
            return None
    return Mat(3, 3, src)


def aa_of(R):
    return Mat(4, 1, [sym('aaof', tuple(R.e), i) for i in range(4)], 'aa')


def aa_rot(m):
    src = aa_src(m)
    if src is not None:
        return src
    a, x, y, z = m.e
    # rotation vector of a known rotation: angle*axis both from aaof
    s, c = nsin(a), ncos(a)
    t = nsub(ONE, c)
    return Mat(3, 3, [
        nadd(nmul(t, nmul(x, x)), c), nsub(nmul(t, nmul(x, y)), nmul(s, z)), nadd(nmul(t, nmul(x, z)), nmul(s, y)),
        nadd(nmul(t, nmul(x, y)), nmul(s, z)), nadd(nmul(t, nmul(y, y)), c), nsub(nmul(t, nmul(y, z)), nmul(s, x)),
        nsub(nmul(t, nmul(x, z)), nmul(s, y)), nadd(nmul(t, nmul(y, z)), nmul(s, x)), nadd(nmul(t, nmul(z, z)), c)])


def psign(p):
    """(sign, canonical p)"""
    if not p.d or p.is_const():
        return (1, p) if p.const() >= 0 else (-1, pneg(p))
    m, c = lead(p)
    return (1, p) if c > 0 else (-1, pneg(p))


def nsin(a):
    def f(p):
        if p is ZERO:
            return ZERO
        s, q = psign(p)
        return pscale(sym('sin', q), s)
    return gmap(f, tonum(a))


def ncos(a):
    def f(p):
        if p is ZERO:
            return ONE
        return sym('cos', psign(p)[1])
    return gmap(f, tonum(a))


V.REBUILD['sin'] = lambda ty, p: nsin(p)
V.REBUILD['cos'] = lambda ty, p: ncos(p)
V.REBUILD['quatof'] = lambda ty, es, i: sym('quatof', es, i) if not any(isinstance(x, G) for x in es) else distr('quatof', es, i)
V.REBUILD['aaof'] = lambda ty, es, i: sym('aaof', es, i) if not any(isinstance(x, G) for x in es) else distr('aaof', es, i)


def distr(op, es, i):
    return gmap_any(lambda *xs: sym(op, tuple(xs), i), tuple(es))


def iso(R, t, kind='iso'):
    n = R.r
    e = []
    for i in range(n):
        e += [R.at(i, j) for j in range(n)] + [t.e[i]]
    e += [ZERO] * n + [ONE]
    return Mat(n + 1, n + 1, e, kind)


def iso_R(m):
    n = m.r - 1
    return Mat(n, n, [m.at(i, j) for i in range(n) for j in range(n)])


def iso_t(m):
    n = m.r - 1
    return Mat(n, 1, [m.at(i, n) for i in range(n)])


def minverse(a):
    if a.r != a.c:
        raise Unsupported('inverse of non-square')
    if a.r == 1:
        return Mat(1, 1, [ndiv(ONE, a.e[0])])
    # diagonal
    if all(a.at(i, j) is ZERO for i in range(a.r) for j in range(a.c) if i != j):
        return Mat(a.r, a.c, [ndiv(ONE, a.at(i, i)) if i == j else ZERO for i in range(a.r) for j in range(a.c)])
    # inverse of an inverse
    # scalar factor is not canonicalised
    e = []
    if any(isinstance(x, G) for x in a.e):
        return None_if_guarded(a)
    for i in range(a.r):
        for j in range(a.c):
            e.append(sym('minv', tuple(a.e), a.r, i, j))
    return Mat(a.r, a.c, e)


def None_if_guarded(a):
    res = gmap_any(lambda *xs: tuple(xs), tuple(a.e))
    out = None
    for es, c in cases(res):
        x = minverse(Mat(a.r, a.c, es))
        out = x if out is None else vite(c, x, out)
    return out


def _rb_minv(ty, es, n, i, j):
    return minverse(Mat(n, n, es)).at(i, j)


V.REBUILD['minv'] = _rb_minv


def mdet(a):
    if a.r != a.c or a.r > 3:
        raise Unsupported('determinant')
    if a.r == 1:
        return a.e[0]
    if a.r == 2:
        return nsub(nmul(a.at(0, 0), a.at(1, 1)), nmul(a.at(0, 1), a.at(1, 0)))
    s = ZERO
    for j in range(3):
        j1, j2 = (j + 1) % 3, (j + 2) % 3
        s = nadd(s, nmul(a.at(0, j), nsub(nmul(a.at(1, j1), a.at(2, j2)), nmul(a.at(1, j2), a.at(2, j1)))))
    return s


def finite(p):
    def f(x):
        if x.is_const():
            return TRUE
        a = single_atom(x) or single_atom(pneg(x))
        if a is not None and aop(a) == 'const':
            return FALSE
        if is_int(x):
            return TRUE
        return bvar('finite', psign(x)[1])
    return gmap(f, tonum(p))


def isnan(p):
    def f(x):
        if x.is_const() or is_int(x):
            return FALSE
        a = single_atom(x) or single_atom(pneg(x))
        if a is not None and aop(a) == 'const':
            return TRUE if aargs(a)[0] == 'nan' else FALSE
        return bvar('nan', psign(x)[1])
    return gmap(f, tonum(p))


V.REBUILD['finite'] = lambda ty, p: finite(p)
V.REBUILD['nan'] = lambda ty, p: isnan(p)


class Comma:
    def __init__(self, place, r, c):
        self.place, self.r, self.c = place, r, c
        self.row = self.col = 0
        self.h = 1


def sgn_pow(p, q):
    def f(x, y):
        if y.is_const():
            c = y.const()
            if c.denominator == 1 and abs(c) <= 8:
                return ppow(x, int(c))
            if c == Fraction(1, 2):
                return psqrt(x)
        return sym('pow', x, y)
    return gmap(f, tonum(p), tonum(q))


UNARY_OPAQUE = {'exp', 'log', 'log10', 'log2', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'cbrt', 'exp2', 'expm1', 'log1p'}


COLS = ('seq', 'push', 'map', 'upd', 'umap', 'cat', 'fill', 'resized')


class Models:
    def __init__(self):
        self.I = None
        self._feas = {}
        self.arrays = []
        self.dpairs = {}
        from . import dicts
        dicts.STREQ[0] = self.dict_str_equal

    # ------------------------------------------------------------ hooks used by the interpreter
    def feasible(self, b):
        from .theory import feasible
        return feasible(b)

    def argval(self, a):
        I = self.I
        if isinstance(a, (Ref, View)) or (isinstance(a, G) and isinstance(a.cases[0][0], (Ref, View))):
            a = I.load(a)
        if isinstance(a, Ptr):
            if a.ref is None:
                return NULL
            if isinstance(a.ref, Ref) and a.ref.loc[0] == 'obj' and not a.ref.path:
                st = I.store.get(a.ref.loc)
                base = T('ptr', a.ref.loc[1])
                return base
            try:
                return T('ptrto', self.argval(I.load(I.deref(a))))
            except Unsupported:
                return T('ptr?', str(a))
        if isinstance(a, It):
            return T('iter', self.argval(I.load(a.ref)), a.idx)
        if isinstance(a, Rec):
            return I.norm_rec(a)
        if isinstance(a, Fn):
            return T('fnval', a.kind, str(a.f) if not isinstance(a.f, T) else a.f)
        if a is None:
            return T('void')
        return a

    def global_var(self, var):
        q = var.get('q', '')
        if q.startswith('std::placeholders::_'):
            return ('ph', int(q.rsplit('_', 1)[1]))
        return None

    def str_equal(self, x, y):
        if isinstance(x, Str) and isinstance(y, Str):
            return TRUE if x.s == y.s else FALSE
        if x == y:
            return TRUE
        if isinstance(x, Str):
            x, y = y, x
        if isinstance(y, Str):
            return bvar('streq', x, y)
        if isinstance(x, T) and isinstance(y, T):
            a, b = sorted([x, y], key=lambda t: t.id)
            return bvar('eqobj', a, b)
        return bvar('eqobj', x, y)

    def dict_str_equal(self, x, y):
        if isinstance(x, T) and isinstance(y, T) and x is not y:
            a, b = sorted([x, y], key=lambda t: t.id)
            return bvar('strsame', a, b)
        return self.str_equal(x, y)

    def skip_base_ctor(self, fn):
        return False

    def fit(self, val, r, c):
        I = self.I
        if isinstance(val, G):
            out = None
            for v, cc in val.cases:
                x = self.fit(v, r, c)
                out = x if out is None else vite(cc, x, out)
            return out
        if not isinstance(val, Mat):
            raise Unsupported('matrix expected, got %r' % (val,))
        if val.kind in ('quat', 'aa') and (r, c) == (3, 3):
            return self.rot(val)
        if (val.r, val.c) == (r, c):
            return val
        if val.r * val.c == r * c and 1 in (r, c) and 1 in (val.r, val.c):
            return Mat(r, c, val.e, val.kind)
        raise Unsupported('matrix size %dx%d vs %dx%d' % (val.r, val.c, r, c))

    def rot(self, v):
        if v.kind == 'quat':
            return quat_rot(v)
        if v.kind == 'aa':
            return aa_rot(v)
        if v.kind in ('iso', 'aff'):
            return iso_R(v)
        return v

    def convert_mat(self, m, kd):
        """convert a matrix value to the kind described by kd"""
        r, c, kind = kd[1], kd[2], kd[3]
        if m.kind == kind and (m.r, m.c) == (r, c):
            return m
        if kind == 'mat':
            if m.kind in ('quat', 'aa'):
                return self.fit(self.rot(m), r, c) if (r, c) == (3, 3) else self.fit(m.as_kind('mat'), r, c)
            return self.fit(m.as_kind('mat'), r, c)
        if kind in ('iso', 'aff'):
            if m.kind in ('iso', 'aff'):
                return m.as_kind(kind)
            if m.kind in ('quat', 'aa'):
                return iso(self.rot(m), Mat(3, 1, [ZERO] * 3), kind)
            if m.kind == 'trl':
                return iso(ident(m.r), m, kind)
            if (m.r, m.c) == (r, c):
                if kind == 'iso':
                    return Mat(r, c, m.e, kind)
                return m.as_kind(kind)
            if (m.r, m.c) == (r - 1, c - 1):
                return iso(m, Mat(r - 1, 1, [ZERO] * (r - 1)), kind)
            if (m.r, m.c) == (r - 1, c):
                return Mat(r, c, list(m.e) + [ZERO] * (r - 1) + [ONE], kind)
        if kind == 'quat':
            if m.kind == 'aa':
                src = aa_src(m)
                if src is not None:
                    return quat_of(src)
                a, x, y, z = m.e
                h = nmul(const(Fraction(1, 2)), a)
                s, c_ = nsin(h), ncos(h)
                return Mat(4, 1, [nmul(s, x), nmul(s, y), nmul(s, z), c_], 'quat')
            if m.kind == 'mat' and (m.r, m.c) == (3, 3):
                return quat_of_any(m)
            if m.kind == 'mat' and m.r * m.c == 4:
                return Mat(4, 1, m.e, 'quat')
        if kind == 'aa':
            if m.kind == 'quat':
                src = quat_src(m)
                if src is not None:
                    return aa_of(src)
                return Mat(4, 1, [sym('aaofq', tuple(m.e), i) for i in range(4)], 'aa')
            if (m.r, m.c) == (3, 3):
                return aa_of_any(m)
        if kind == 'trl':
            return Mat(r, 1, m.e, 'trl')
        raise Unsupported('conversion of %s %dx%d to %s' % (m.kind, m.r, m.c, kind))

    # dynamic matrices of unknown size
    def dyn_coef(self, v, i, j):
        return gmap_any(lambda a, b: sym('el', v, a, b), (i, j))

    def dyn_put(self, v, i, j, m):
        raise Unsupported('write into a matrix of unknown size')

    # ------------------------------------------------------------ dispatch
    def special(self, e, f, fn, this):
        P = self.I.P
        n = fn['n']
        # stream output has no observable effect here
        ret = fn.get('ret')
        if ret is not None and P.isref(ret):
            rn = P.rname(ret)
            if rn in ('std::basic_ostream', 'std::basic_iostream', 'std::basic_istream') and f not in P.bodies:
                return T('stream')
        if fn.get('rec') is not None and P.recs[fn['rec']]['n'] in ('std::basic_ostream', 'std::basic_ios', 'std::ios_base'):
            return T('stream')
        return NotImplemented

    def recname(self, fn):
        if fn.get('rec') is None:
            return None
        return self.I.P.recs[fn['rec']]['n']

    def call(self, f, fn, this, args, e):
        I = self.I
        P = I.P
        rn = self.recname(fn)
        if fn['q'] == 'verif::assume':
            c = tobool(I.load(args[0]))
            I.assume = band(I.assume, bor(bnot(I.live), c))
            return None
        if fn['q'].startswith('verif::unspecified'):
            return I.undefval('unspecified', fn['ret'])
        if rn is not None and this is not None and fn['n'] == 'operator()' and P.recs[fn['rec']].get('lambda'):
            lv = I.load(this)
            if isinstance(lv, Fn):
                return I.call_value(lv, args, e)
        if f in P.bodies and not (rn or '').startswith(('Eigen::', 'std::')) and not fn['q'].startswith(('Eigen::', 'std::')):
            m = self.PCL.get(fn['q'].split('<')[0] if rn is None else rn + '::' + fn['n'])
            if m is None:
                return NotImplemented
        if rn is not None:
            if rn.startswith('Eigen::'):
                return self.eigen(fn['n'], this, args, e, fn)
            if rn.startswith('std::') or rn.startswith('__gnu_cxx::') or rn.startswith('boost::'):
                return self.stdmethod(rn, fn['n'], this, args, e, fn)
            if rn.startswith('cv::'):
                return self.cvmethod(rn, fn['n'], this, args, e, fn)
            if rn.startswith('pcl::'):
                return self.pclmethod(rn, fn['n'], this, args, e, fn)
            if rn.startswith('gtsam::'):
                return self.gtsam(rn, fn['n'], this, args, e, fn)
            if fn['n'] == 'operator()' and P.recs[fn['rec']].get('lambda'):
                return NotImplemented if f in P.bodies and not isinstance(I.load(this) if this is not None else None, Fn) else I.call_value(I.load(this), args, e)
            return NotImplemented
        q = fn['q']
        if q.startswith('Eigen::'):
            return self.eigenfree(fn['n'], args, e, fn)
        return self.stdfree(q, fn['n'], args, e, fn)

    # ------------------------------------------------------------ Eigen
    def place(self, this):
        """View over the coefficients of a matrix place, or the Mat value"""
        I = self.I
        if isinstance(this, View):
            return this
        if isinstance(this, Ref):
            v = I.load(this)
            if isinstance(v, Mat):
                return View(v.r, v.c, [Ref(this.loc, this.path + (('m', i, j),)) for i in range(v.r) for j in range(v.c)], v.kind)
            if isinstance(v, G):
                # guarded matrices are stored elementwise; fall back to value
                return v
            if isinstance(v, (View,)):
                return v
            return v
        return this

    def sub(self, p, i0, j0, r, c, kind='mat'):
        if isinstance(p, View):
            if i0 < 0 or j0 < 0 or r < 0 or c < 0 or i0 + r > p.r or j0 + c > p.c:
                self.outside()
                return Mat(max(r, 0), max(c, 0), [ZERO] * (max(r, 0) * max(c, 0)), kind)
            return View(r, c, [p.refs[(i0 + i) * p.c + j0 + j] for i in range(r) for j in range(c)], kind)
        if not isinstance(p, Mat):
            raise Unsupported('block of %r' % (p,))
        if i0 < 0 or j0 < 0 or r < 0 or c < 0 or i0 + r > p.r or j0 + c > p.c:
            self.outside()
            return Mat(max(r, 0), max(c, 0), [ZERO] * (max(r, 0) * max(c, 0)), kind)
        return Mat(r, c, [p.e[(i0 + i) * p.c + j0 + j] for i in range(r) for j in range(c)], kind)

    def outside(self):
        # a definite access outside a matrix ends the path it is on
        self.I.throw(TRUE, OUTSIDE)

    def cint(self, v):
        v = self.I.load(v)
        if isinstance(v, Poly) and v.is_const():
            return int(v.const())
        raise Unsupported('non-constant matrix index')

    def targs(self, fn):
        """integer template arguments of the function"""
        out = []
        for a in fn.get('ta', []) or []:
            if 'i' in a:
                out.append(a['i'])
        return out

    def mat(self, v):
        v = self.I.load(v)
        if isinstance(v, B):
            return Mat(1, 1, [v])
        if isinstance(v, (Poly,)) or is_scalar(v):
            return Mat(1, 1, [v])
        return v

    def eigen(self, n, this, args, e, fn):
        I = self.I
        P = I.P
        rn = self.recname(fn)
        if this is None or fn.get('static'):
            return self.eigen_static(n, args, e, fn)
        if isinstance(this, Ref):
            tv0 = I.load(this)
            if isinstance(tv0, G) and any(isinstance(x, (Mat, View)) for x, _ in tv0.cases):
                raise Unsupported('guarded matrix object')
        if isinstance(this, G):
            outs = None
            for x, c in this.cases:
                y = self.eigen(n, x, args, e, fn)
                y = y if isinstance(y, (Ref, View)) else I.load(y)
                outs = y if outs is None else vite(c, y, outs)
            return outs
        if rn == 'Eigen::CommaInitializer':
            ci = I.load(this) if not isinstance(this, Comma) else this
            if n == 'operator,':
                self.comma(ci, self.mat(args[0]))
                return ci
            if n == 'finished':
                return ci.place
        tv = I.load(this)
        if isinstance(tv, T):
            if tv.op in COLS or tv.op == 'mut':
                x = self.column_matrix(n, this, tv, args, e, fn)
                if x is not NotImplemented:
                    return x
            return self.eigen_opaque(rn, n, this, tv, args, e, fn)
        if isinstance(tv, Str) or not isinstance(tv, (Mat, View)):
            raise Unsupported('Eigen %s on %r' % (n, tv))
        p = self.place(this)
        kind = tv.kind
        r, c = tv.r, tv.c
        ta = self.targs(fn)
        A = lambda i: self.cint(args[i])
        # ---- structure
        if n in ('rows',):
            return const(r)
        if n == 'cols':
            return const(c)
        if n == 'size':
            return const(r * c)
        if n == 'matrix' and kind in ('quat', 'aa'):
            return self.rot(tv)
        if n in ('derived', 'eval', 'noalias', 'finished', 'const_cast_derived', 'matrix', 'array', 'nestedExpression', 'value', 'forceAlignedAccess', 'toDenseMatrix', 'coeffs', 'vec'):
            if n == 'value':
                return p.refs[0] if isinstance(p, View) else p.e[0]
            if n == 'array':
                return View(r, c, p.refs, 'ar') if isinstance(p, View) else p.as_kind('ar')
            if n == 'matrix':
                return View(r, c, p.refs, 'mat') if isinstance(p, View) else p.as_kind('mat')
            if n == 'coeffs':
                return View(r, c, p.refs, 'mat') if isinstance(p, View) else p.as_kind('mat')
            if n == 'vec':
                return self.sub(p, 0, 0, 3, 1)
            if n == 'eval' or n == 'toDenseMatrix':
                return tv
            return this
        if kind in ('iso', 'aff') and rn == 'Eigen::Transform':
            x = self.transform(n, this, tv, p, args, e, fn)
            if x is not NotImplemented:
                return x
        if kind == 'quat' and rn in ('Eigen::Quaternion', 'Eigen::QuaternionBase', 'Eigen::RotationBase'):
            x = self.quaternion(n, this, tv, p, args, e, fn)
            if x is not NotImplemented:
                return x
        if kind == 'aa' and rn in ('Eigen::AngleAxis', 'Eigen::RotationBase'):
            x = self.angleaxis(n, this, tv, p, args, e, fn)
            if x is not NotImplemented:
                return x
        if kind == 'trl' and rn == 'Eigen::Translation':
            if n in ('x', 'y', 'z'):
                return self.sub(p, 'xyz'.index(n), 0, 1, 1) if False else (p.refs['xyz'.index(n)] if isinstance(p, View) else p.e['xyz'.index(n)])
            if n in ('vector', 'translation'):
                return View(r, c, p.refs, 'mat') if isinstance(p, View) else tv.as_kind('mat')
            if n == 'inverse':
                return Mat(r, 1, [nneg(x) for x in tv.e], 'trl')
            if n == 'operator*':
                o = self.mat(args[0])
                if o.kind in ('quat', 'aa'):
                    return iso(self.rot(o), tv)
                if o.kind == 'trl':
                    return Mat(r, 1, [nadd(x, y) for x, y in zip(tv.e, o.e)], 'trl')
                if o.kind in ('iso', 'aff'):
                    return Mat(4, 4, mmul(iso(ident(r), tv), o).e, o.kind)
                if o.r == r:
                    return mmap(nadd, tv.as_kind('mat'), o)
        if n in ('operator()', 'operator[]', 'coeff', 'coeffRef', 'insert'):
            if len(args) == 2:
                i, j = self.index(args[0], r), self.index(args[1], c)
            else:
                i = self.index(args[0], r * c)
                if r == 1:
                    i, j = 0, i
                elif c == 1:
                    j = 0
                else:
                    i, j = i % r, i // r
            if isinstance(i, G) or isinstance(j, G):
                raise Unsupported('symbolic matrix index')
            if isinstance(p, View):
                return p.refs[i * c + j]
            return p.e[i * c + j]
        if n in ('x', 'y', 'z', 'w'):
            i = 'xyzw'.index(n)
            return p.refs[i] if isinstance(p, View) else p.e[i]
        if n in ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows', 'bottomRows',
                 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'row', 'col', 'head', 'tail', 'segment'):
            return self.block(n, p, r, c, args, ta, kind)
        if n == 'diagonal':
            m = min(r, c)
            return View(m, 1, [p.refs[i * c + i] for i in range(m)], kind) if isinstance(p, View) else Mat(m, 1, [p.at(i, i) for i in range(m)], kind)
        if n in ('transpose', 'adjoint'):
            if isinstance(p, View):
                return View(c, r, [p.refs[i * c + j] for j in range(c) for i in range(r)], kind)
            return mtrans(tv)
        if n == 'transposeInPlace':
            I.write(this, mtrans(tv))
            return None
        if n == 'reverse':
            return Mat(r, c, list(reversed(tv.e)), kind)
        # ---- mutation
        if n in ('setZero', 'setOnes', 'setIdentity', 'setConstant', 'fill'):
            if n == 'setIdentity':
                v = Mat(r, c, ident(r).e if r == c else [ONE if i == j else ZERO for i in range(r) for j in range(c)], kind)
                if kind == 'quat':
                    v = Mat(4, 1, [ZERO, ZERO, ZERO, ONE], 'quat')
            else:
                x = ZERO if n == 'setZero' else (ONE if n == 'setOnes' else tonum(I.load(args[0])))
                v = Mat(r, c, [x] * (r * c), kind)
            I.write(this, v)
            return this
        if n == 'operator=':
            o = self.mat(args[0])
            if isinstance(o, Mat):
                if o.kind != kind and not (o.kind in ('mat', 'ar') and kind in ('mat', 'ar')):
                    tk = P.kd(fn['rec'] is not None and P.rec_type(fn['rec']) or e.get('t')) if kind in ('iso', 'aff', 'quat', 'aa', 'trl') else ('mat', r, c, kind)
                    o = self.convert_mat(o, ('mat', r, c, kind))
                elif isinstance(this, Ref) and (o.r, o.c) != (r, c) and self.is_dyn(this):
                    I.write(this, o)
                    return this
            I.write(this, self.fit(o, r, c).as_kind(kind))
            return this
        if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            o = self.mat(args[0])
            op = n[8]
            I.write(this, self.fit(self.arith(op, tv, o), r, c).as_kind(kind))
            return this
        if n == 'normalize':
            I.write(this, self.normalized(tv))
            return None
        if n == 'swap':
            o = self.mat(args[0])
            I.write(this, o)
            I.write(args[0], tv)
            return None
        if n in ('resize', 'conservativeResize'):
            if len(args) == 2:
                nr, nc = A(0), A(1)
            else:
                nr, nc = (A(0), 1) if c == 1 else (1, A(0))
            if (nr, nc) == (r, c):
                return None
            e2 = [tv.at(i, j) if n == 'conservativeResize' and i < r and j < c else sym('undef', 'resize', i, j) for i in range(nr) for j in range(nc)]
            I.write(this, Mat(nr, nc, e2))
            return None
        if n in ('operator<<',):
            ci = Comma(p if isinstance(p, View) else this, r, c)
            self.comma(ci, self.mat(args[0]))
            return ci
        if n == 'data':
            if isinstance(p, View):
                return Ptr(p)
            raise Unsupported('data of value')
        # ---- arithmetic
        if n in ('operator+', 'operator-', 'operator*', 'operator/', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator&&', 'operator||'):
            if n == 'operator-' and not args:
                return mmap(nneg, tv)
            o = self.mat(args[0])
            op = n[8:]
            if op in ('==', '!=') and 'ar' not in (kind, o.kind):
                x = TRUE
                for a, b in zip(tv.e, self.fit(o, r, c).e):
                    x = band(x, neq(a, b))
                return x if op == '==' else bnot(x)
            return self.arith(op, tv, o)
        if n in ('lazyProduct',):
            return self.arith('*', tv, self.mat(args[0]))
        one = {'cwiseAbs': nabs, 'abs': nabs, 'cwiseAbs2': lambda x: nmul(x, x), 'abs2': lambda x: nmul(x, x), 'square': lambda x: nmul(x, x),
               'cwiseSqrt': nsqrt, 'sqrt': nsqrt, 'cwiseInverse': lambda x: ndiv(ONE, x), 'inverse#ar': lambda x: ndiv(ONE, x),
               'sin': nsin, 'cos': ncos, 'isNaN': isnan, 'isFinite': finite, 'cube': lambda x: nmul(x, nmul(x, x))}
        if n in one:
            return mmap(one[n], tv)
        if n == 'inverse' and kind == 'ar':
            return mmap(one['cwiseInverse'], tv)
        if n == 'pow':
            return mmap(lambda x: sgn_pow(x, I.load(args[0])), tv)
        two = {'cwiseProduct': nmul, 'cwiseQuotient': ndiv, 'cwiseMin': nmin, 'cwiseMax': nmax, 'min': nmin, 'max': nmax}
        if n in two and args:
            o = self.mat(args[0])
            if o.r * o.c == 1 and r * c != 1:
                o = Mat(r, c, [o.e[0]] * (r * c))
            return mmap(two[n], tv, o)
        if n in ('sum', 'mean'):
            s = ZERO
            for x in tv.e:
                s = nadd(s, x)
            return s if n == 'sum' else ndiv(s, const(r * c))
        if n == 'prod':
            s = ONE
            for x in tv.e:
                s = nmul(s, x)
            return s
        if n == 'trace':
            s = ZERO
            for i in range(min(r, c)):
                s = nadd(s, tv.at(i, i))
            return s
        if n in ('squaredNorm', 'norm', 'stableNorm', 'blueNorm', 'hypotNorm'):
            s = ZERO
            for x in tv.e:
                s = nadd(s, nmul(x, x))
            return s if n == 'squaredNorm' else nsqrt(s)
        if n == 'lpNorm':
            pnum = ta[0]
            if pnum == -1:
                s = nabs(tv.e[0])
                for x in tv.e[1:]:
                    s = nmax(s, nabs(x))
                return s
            if pnum == 1:
                s = ZERO
                for x in tv.e:
                    s = nadd(s, nabs(x))
                return s
            if pnum == 2:
                s = ZERO
                for x in tv.e:
                    s = nadd(s, nmul(x, x))
                return nsqrt(s)
        if n in ('maxCoeff', 'minCoeff') and not args:
            return self.extremum(n, tv.e)
        if n in ('normalized', 'stableNormalized'):
            return self.normalized(tv)
        if n == 'dot':
            o = self.mat(args[0])
            s = ZERO
            for x, y in zip(tv.e, o.e):
                s = nadd(s, nmul(x, y))
            return s
        if n == 'cross':
            o = self.mat(args[0])
            a, b = tv.e, o.e
            return Mat(r, c, [nsub(nmul(a[1], b[2]), nmul(a[2], b[1])), nsub(nmul(a[2], b[0]), nmul(a[0], b[2])), nsub(nmul(a[0], b[1]), nmul(a[1], b[0]))])
        if n == 'determinant':
            return mdet(tv)
        if n == 'inverse':
            return minverse(tv.as_kind('mat'))
        if n == 'allFinite':
            x = TRUE
            for y in tv.e:
                x = band(x, finite(y))
            return x
        if n == 'hasNaN':
            x = FALSE
            for y in tv.e:
                x = bor(x, isnan(y))
            return x
        if n in ('all', 'any'):
            x = TRUE if n == 'all' else FALSE
            for y in tv.e:
                x = band(x, tobool(y)) if n == 'all' else bor(x, tobool(y))
            return x
        if n == 'count':
            s = ZERO
            for y in tv.e:
                s = nadd(s, tonum(tobool(y)))
            return s
        if n in ('isApprox', 'isMuchSmallerThan', 'isIdentity', 'isZero', 'isOnes', 'isDiagonal', 'isUnitary', 'isApproxToConstant', 'isConstant'):
            av = [self.mat(a) for a in args]
            prec = tuple(a.e[0] for a in av if isinstance(a, Mat) and a.r * a.c == 1)
            if n == 'isApprox':
                o = av[0]
                pr = tuple(a.e[0] for a in av[1:])
                return bvar('approx', frozenset([tuple(tv.e), tuple(self.fit(o, r, c).e)]), pr)
            return bvar(n, tuple(tv.e), tuple(tuple(a.e) for a in av))
        if n == 'cast':
            return self.castmat(tv, e, fn)
        if n == 'unaryExpr':
            fnv = I.load(args[0])
            return Mat(r, c, [I.load(I.call_value(fnv, [x], self.elem_e(e))) for x in tv.e], kind)
        if n == 'asDiagonal':
            m = r * c
            return Mat(m, m, [tv.e[i] if i == j else ZERO for i in range(m) for j in range(m)])
        if n in ('rowwise', 'colwise'):
            return T('vecwise', n, self_ref(this, p, tv))
        if n in ('llt', 'ldlt', 'partialPivLu', 'fullPivLu', 'colPivHouseholderQr', 'lu', 'householderQr', 'jacobiSvd', 'eigenvalues', 'fullPivHouseholderQr'):
            return T('decomp', n, tv.as_kind('mat'))
        if n in ('triangularView', 'selfadjointView', 'template'):
            raise Unsupported('Eigen %s' % n)
        if n == 'eulerAngles':
            return Mat(3, 1, [sym('euler', tuple(tv.e), tuple(self.cint(a) for a in args), i) for i in range(3)])
        if n == 'replicate':
            rr, cc = (ta[:2] if len(ta) >= 2 else (A(0), A(1)))
            return Mat(r * rr, c * cc, [tv.at(i % r, j % c) for i in range(r * rr) for j in range(c * cc)], kind)
        if n == 'homogeneous':
            return Mat(r + 1, 1, list(tv.e) + [ONE])
        if n == 'hnormalized':
            return Mat(r - 1, 1, [ndiv(x, tv.e[-1]) for x in tv.e[:-1]])
        if n == 'select':
            o1, o2 = self.mat(args[0]), self.mat(args[1])
            g = lambda m, i: m.e[i] if m.r * m.c > 1 else m.e[0]
            return Mat(r, c, [vite(tobool(b), g(o1, i), g(o2, i)) for i, b in enumerate(tv.e)], kind)
        if n in ('isMuchSmallerThan',):
            return bvar(n, tuple(tv.e))
        if n in ('begin', 'end', 'cbegin', 'cend'):
            raise Unsupported('Eigen iterators')
        if n in ('reserve', 'makeCompressed', 'setFromTriplets'):
            return None
        if n.startswith('operator') and fn.get('conv'):
            return tv.e[0] if r * c == 1 else tv
        if n == 'redux':
            fnv = I.load(args[0])
            acc = tv.e[0]
            for x in tv.e[1:]:
                acc = I.load(I.call_value(fnv, [acc, x], self.elem_e(e)))
            return acc
        raise Unsupported('Eigen method %s' % n)

    def is_dyn(self, ref):
        I = self.I
        ty = None
        for s in ref.path:
            if s[0] in ('f', 'e'):
                ty = s[2]
        if not ref.path:
            ty = I.locty.get(ref.loc)
        return ty is not None and I.P.kd(ty)[0] == 'dyn'

    def extremum(self, n, es):
        f = nmax if n == 'maxCoeff' else nmin
        if len(set(es)) > 4:
            return nmaxn(es) if n == 'maxCoeff' else nneg(nmaxn([nneg(x) for x in es]))
        s = es[0]
        for x in es[1:]:
            s = f(s, x)
        return s

    def elem_e(self, e):
        return e

    def index(self, a, n):
        v = self.I.load(a)
        if isinstance(v, Poly) and v.is_const():
            i = int(v.const())
            if not 0 <= i < n:
                if n == 0:
                    raise OutOfBounds('index %d of a matrix dimension %d' % (i, n))
                self.outside()
                return 0
            return i
        raise Unsupported('symbolic matrix index')

    def normalized(self, tv):
        s = ZERO
        for x in tv.e:
            s = nadd(s, nmul(x, x))
        d = nsqrt(s)
        return Mat(tv.r, tv.c, [ndiv(x, d) for x in tv.e], tv.kind)

    def castmat(self, tv, e, fn):
        from .interp import f32
        P = self.I.P
        to = None
        for a in fn.get('ta', []) or []:
            if 't' in a:
                to = P.types[P.strip(a['t'])]
        if to is not None and to['c'] == 'float' and to['w'] == 32:
            return mmap(lambda x: gmap(f32, tonum(x)), tv).as_kind(tv.kind)
        if to is not None and to['c'] == 'int':
            return mmap(lambda x: gmap(ptrunc, tonum(x)), tv)
        if to is not None and to['c'] == 'bool':
            return mmap(tobool, tv)
        return mmap(tonum, tv).as_kind(tv.kind)

    # a matrix whose number of columns is not known is the sequence of its columns
    def columns(self, r, n, e):
        return seq_fill(n, Mat(r, 1, [sym('undef', 'cols@%s' % e.get('l'), i) for i in range(r)]))

    def rows_of(self, v):
        from .values import MUT_INIT
        while isinstance(v, T) and (v.op in COLS or v.op == 'mut'):
            if v.op == 'mut':
                v = MUT_INIT.get(v)
                continue
            v = v.args[1] if v.op in ('fill', 'map') else v.args[0] if v.args else None
        return v.r if isinstance(v, Mat) and v.c == 1 else None

    def col_type(self, r):
        P = self.I.P
        for t in range(len(P.types)):
            k = P.kd(t)
            if k[0] == 'mat' and k[1] == r and k[2] == 1 and k[3] == 'mat':
                return t
        raise Unsupported('column type')

    def column_matrix(self, n, this, tv, args, e, fn):
        I = self.I
        from .values import seq_size
        kd = I.P.kd(e['o']['t']) if e.get('o') else ('?',)
        r = kd[1] if kd[0] == 'dyn' and isinstance(kd[1], int) and kd[1] > 0 else self.rows_of(tv)
        if n == 'cols':
            return seq_size(tv)
        if r is None:
            return NotImplemented
        if n == 'rows':
            return const(r)
        if n == 'size':
            return pmul(const(r), seq_size(tv))
        if n == 'col' and isinstance(this, Ref):
            i = tonum(I.load(args[0]))
            self.inside(this, i)
            return self.elem_ref(this, i, self.col_type(r))
        if n in ('operator()', 'coeff', 'coeffRef') and len(args) == 2 and isinstance(this, Ref):
            i = tonum(I.load(args[1]))
            self.inside(this, i)
            c = self.elem_ref(this, i, self.col_type(r))
            p = self.place(c)
            return p.refs[self.cint(args[0])]
        return NotImplemented

    def block(self, n, p, r, c, args, ta, kind):
        A = [self.cint(a) for a in args]
        k = 'ar' if kind == 'ar' else 'mat'
        if n == 'block':
            if len(ta) >= 2:
                return self.sub(p, A[0], A[1], ta[0], ta[1], k)
            return self.sub(p, A[0], A[1], A[2], A[3], k)
        if n.endswith('Corner'):
            br, bc = (ta[0], ta[1]) if len(ta) >= 2 else (A[0], A[1])
            i0 = 0 if n.startswith('top') else r - br
            j0 = 0 if 'Left' in n else c - bc
            return self.sub(p, i0, j0, br, bc, k)
        if n in ('row', 'col'):
            return self.sub(p, A[0], 0, 1, c, k) if n == 'row' else self.sub(p, 0, A[0], r, 1, k)
        m = ta[0] if ta and n not in ('middleRows', 'middleCols') else (A[0] if n not in ('segment',) else None)
        if n == 'topRows':
            return self.sub(p, 0, 0, m, c, k)
        if n == 'bottomRows':
            return self.sub(p, r - m, 0, m, c, k)
        if n == 'leftCols':
            return self.sub(p, 0, 0, r, m, k)
        if n == 'rightCols':
            return self.sub(p, 0, c - m, r, m, k)
        if n == 'middleRows':
            m = ta[0] if ta else A[1]
            return self.sub(p, A[0], 0, m, c, k)
        if n == 'middleCols':
            m = ta[0] if ta else A[1]
            return self.sub(p, 0, A[0], r, m, k)
        if n == 'segment':
            m = ta[0] if ta else A[1]
            s = A[0]
        elif n == 'head':
            s = 0
        else:
            s = (r * c) - m
        if c == 1:
            return self.sub(p, s, 0, m, 1, k)
        return self.sub(p, 0, s, 1, m, k)

    def comma(self, ci, m):
        I = self.I
        p = ci.place
        if isinstance(p, Ref):
            p = self.place(p)
        if not isinstance(m, Mat):
            raise Unsupported('comma initialiser of %r' % (m,))
        if m.kind in ('quat', 'aa'):
            m = self.rot(m)
        if m.r * m.c == 0:
            return
        if ci.col >= ci.c:
            ci.row += ci.h
            ci.col = 0
            ci.h = m.r
        if ci.col == 0:
            ci.h = m.r
        if ci.row + m.r > ci.r or ci.col + m.c > ci.c:
            self.outside()
            return
        for i in range(m.r):
            for j in range(m.c):
                I.write(p.refs[(ci.row + i) * ci.c + ci.col + j], tonum(m.at(i, j)))
        ci.col += m.c

    def arith(self, op, a, b):
        """binary arithmetic of matrix values (1x1 may be a scalar)"""
        sa, sb = a.r * a.c == 1, b.r * b.c == 1
        if op == '*':
            if a.kind in ('iso', 'aff') or b.kind in ('iso', 'aff'):
                return self.tfmul(a, b)
            if a.kind == 'quat' and b.kind == 'quat':
                return self.qmul(a, b)
            if a.kind in ('quat', 'aa') or b.kind in ('quat', 'aa'):
                return self.rotmul(a, b)
            if 'ar' in (a.kind, b.kind) and not sa and not sb:
                return mmap(nmul, a, b)
            if a.c == b.r and not (sa and (b.r, b.c) != (1, 1) and b.r != 1):
                if sa and sb:
                    return Mat(1, 1, [nmul(a.e[0], b.e[0])])
                if not sa and not sb:
                    return mmul(a, b)
            if sa:
                return mmap(lambda x: nmul(a.e[0], x), b)
            if sb:
                return mmap(lambda x: nmul(x, b.e[0]), a)
            return mmul(a, b)
        if op == '/':
            if sb:
                return mmap(lambda x: ndiv(x, b.e[0]), a)
            if sa and b.kind == 'ar':
                return mmap(lambda x: ndiv(a.e[0], x), b)
            return mmap(ndiv, a, b)
        f = {'+': nadd, '-': nsub, '==': neq, '!=': lambda x, y: bnot(neq(x, y)), '<': nlt, '>': lambda x, y: nlt(y, x), '<=': nle,
             '>=': lambda x, y: nle(y, x), '&&': lambda x, y: band(tobool(x), tobool(y)), '||': lambda x, y: bor(tobool(x), tobool(y))}[op]
        if sa and not sb:
            a = Mat(b.r, b.c, [a.e[0]] * (b.r * b.c), b.kind)
        if sb and not sa:
            b = Mat(a.r, a.c, [b.e[0]] * (a.r * a.c), a.kind)
        if (a.r, a.c) != (b.r, b.c):
            raise Unsupported('matrix sizes in %s' % op)
        return mmap(f, a, b)

    def tfmul(self, a, b):
        if a.kind in ('iso', 'aff') and b.kind in ('iso', 'aff'):
            k = 'iso' if a.kind == b.kind == 'iso' else 'aff'
            return mmul(a, b).as_kind(k)
        if a.kind in ('iso', 'aff'):
            n = a.r - 1
            if b.kind in ('quat', 'aa'):
                return iso(mmul(iso_R(a), self.rot(b)), iso_t(a), a.kind)
            if b.kind == 'trl':
                return mmul(a, iso(ident(n), b)).as_kind(a.kind)
            if b.r == n and b.kind in ('mat', 'ar'):
                y = mmul(iso_R(a), b)
                t = iso_t(a)
                return Mat(n, b.c, [nadd(y.at(i, j), t.e[i]) for i in range(n) for j in range(b.c)])
            if b.r == n + 1:
                return mmul(a.as_kind('mat'), b)
        if b.kind in ('iso', 'aff'):
            n = b.r - 1
            if a.kind in ('quat', 'aa'):
                return mmul(iso(self.rot(a), Mat(n, 1, [ZERO] * n)), b).as_kind(b.kind)
            if a.kind == 'trl':
                return mmul(iso(ident(n), a), b).as_kind(b.kind)
            if a.c == n + 1:
                return mmul(a, b.as_kind('mat'))
            if a.r == n and a.c == n:
                return mmul(iso(a, Mat(n, 1, [ZERO] * n)), b).as_kind(b.kind)
        raise Unsupported('transform product')

    def rotmul(self, a, b):
        if a.kind == 'aa' and b.kind in ('aa', 'quat') or (a.kind == 'quat' and b.kind == 'aa'):
            return self.qmul(self.convert_mat(a, ('mat', 4, 1, 'quat')), self.convert_mat(b, ('mat', 4, 1, 'quat')))
        if a.kind in ('quat', 'aa'):
            return mmul(self.rot(a), b)
        return mmul(a, self.rot(b))

    def qmul(self, a, b):
        sa, sb = quat_src(a), quat_src(b)
        if sa is not None and sb is not None:
            return quat_of(mmul(sa, sb))
        x1, y1, z1, w1 = a.e
        x2, y2, z2, w2 = b.e

        def s(*ts):
            r = ZERO
            for sg, p, q in ts:
                t = nmul(p, q)
                r = nadd(r, t) if sg > 0 else nsub(r, t)
            return r
        return Mat(4, 1, [s((1, w1, x2), (1, x1, w2), (1, y1, z2), (-1, z1, y2)),
                          s((1, w1, y2), (1, y1, w2), (1, z1, x2), (-1, x1, z2)),
                          s((1, w1, z2), (1, z1, w2), (1, x1, y2), (-1, y1, x2)),
                          s((1, w1, w2), (-1, x1, x2), (-1, y1, y2), (-1, z1, z2))], 'quat')

    def transform(self, n, this, tv, p, args, e, fn):
        I = self.I
        d = tv.r - 1
        if n in ('rotation', 'linear', 'linearExt'):
            if n == 'rotation' and tv.kind != 'iso':
                return Mat(d, d, [sym('rotpart', tuple(tv.e), i) for i in range(d * d)])
            return self.sub(p, 0, 0, d, d)
        if n in ('translation', 'translationExt'):
            return self.sub(p, 0, d, d, 1)
        if n in ('affine',):
            return self.sub(p, 0, 0, d, d + 1)
        if n == 'data':
            return Ptr(View(tv.r, tv.c, p.refs, 'mat')) if isinstance(p, View) else NotImplemented
        if n == 'inverse':
            if tv.kind == 'iso':
                Rt = mtrans(iso_R(tv))
                t = mmul(Rt, iso_t(tv))
                return iso(Rt, mmap(nneg, t))
            Ri = minverse(iso_R(tv))
            return iso(Ri, mmap(nneg, mmul(Ri, iso_t(tv))), tv.kind)
        if n in ('operator*',):
            return self.tfmul(tv, self.mat(args[0]))
        if n == 'operator*=':
            I.write(this, self.tfmul(tv, self.mat(args[0])))
            return this
        if n in ('rotate', 'prerotate', 'translate', 'pretranslate', 'scale', 'prescale'):
            o = self.mat(args[0])
            if n in ('rotate', 'prerotate'):
                R = iso(self.rot(o), Mat(d, 1, [ZERO] * d))
                new = mmul(tv, R) if n == 'rotate' else mmul(R, tv)
            elif n in ('translate', 'pretranslate'):
                Tm = iso(ident(d), o)
                new = mmul(tv, Tm) if n == 'translate' else mmul(Tm, tv)
            else:
                s = o.e if o.r * o.c == d else [o.e[0]] * d
                S = iso(Mat(d, d, [s[i] if i == j else ZERO for i in range(d) for j in range(d)]), Mat(d, 1, [ZERO] * d))
                new = mmul(tv, S) if n == 'scale' else mmul(S, tv)
            I.write(this, new.as_kind(tv.kind))
            return this
        if n == 'setIdentity':
            I.write(this, ident(d + 1).as_kind(tv.kind))
            return None
        if n == 'makeAffine':
            return None
        if n == 'cast':
            return self.castmat(tv, e, fn).as_kind(tv.kind)
        if n == 'operator()':
            i, j = self.index(args[0], d + 1), self.index(args[1], d + 1)
            return p.refs[i * (d + 1) + j] if isinstance(p, View) else p.e[i * (d + 1) + j]
        if n == 'isApprox':
            o = self.mat(args[0])
            return bvar('approx', frozenset([tuple(tv.e), tuple(o.e)]), tuple(self.mat(a).e[0] for a in args[1:]))
        return NotImplemented

    def quaternion(self, n, this, tv, p, args, e, fn):
        I = self.I
        if n == 'toRotationMatrix' or n == 'matrix':
            return quat_rot(tv)
        if n in ('conjugate', 'inverse'):
            src = quat_src(tv)
            if src is not None:
                return quat_of(mtrans(src))
            x, y, z, w = tv.e
            if n == 'conjugate':
                return Mat(4, 1, [nneg(x), nneg(y), nneg(z), w], 'quat')
            s = ZERO
            for q in tv.e:
                s = nadd(s, nmul(q, q))
            return Mat(4, 1, [ndiv(nneg(x), s), ndiv(nneg(y), s), ndiv(nneg(z), s), ndiv(w, s)], 'quat')
        if n == 'operator*':
            o = self.mat(args[0])
            if o.kind == 'trl':
                return iso(self.rot(tv), mmul(self.rot(tv), o))
            return self.arith('*', tv, o)
        if n == 'operator*=':
            I.write(this, self.arith('*', tv, self.mat(args[0])))
            return this
        if n == '_transformVector':
            return mmul(quat_rot(tv), self.mat(args[0]))
        if n in ('norm', 'squaredNorm'):
            s = ZERO
            for q in tv.e:
                s = nadd(s, nmul(q, q))
            return s if n == 'squaredNorm' else nsqrt(s)
        if n == 'normalized':
            return tv if quat_src(tv) is not None else self.normalized(tv)
        if n == 'normalize':
            if quat_src(tv) is None:
                I.write(this, self.normalized(tv))
            return None
        if n == 'slerp':
            o = self.mat(args[1])
            t = I.load(args[0])
            if t is ZERO:
                return tv
            return Mat(4, 1, [gmap_any(lambda *xs: sym('slerp', xs[0], tuple(xs[1:5]), tuple(xs[5:9]), i), (tonum(t),) + tv.e + o.e) for i in range(4)], 'quat')
        if n == 'dot':
            o = self.mat(args[0])
            s = ZERO
            for a, b in zip(tv.e, o.e):
                s = nadd(s, nmul(a, b))
            return s
        if n == 'angularDistance':
            o = self.mat(args[0])
            return sym('angdist', frozenset([tuple(tv.e), tuple(o.e)]))
        if n == 'setIdentity':
            I.write(this, Mat(4, 1, [ZERO, ZERO, ZERO, ONE], 'quat'))
            return this
        if n == 'setFromTwoVectors':
            raise Unsupported('setFromTwoVectors')
        if n == 'isApprox':
            o = self.mat(args[0])
            return bvar('approx', frozenset([tuple(tv.e), tuple(o.e)]), tuple(self.mat(a).e[0] for a in args[1:]))
        if n == 'cast':
            return self.castmat(tv, e, fn).as_kind('quat')
        if n == 'operator=':
            o = self.mat(args[0])
            I.write(this, self.convert_mat(o, ('mat', 4, 1, 'quat')))
            return this
        return NotImplemented

    def angleaxis(self, n, this, tv, p, args, e, fn):
        I = self.I
        if n == 'angle':
            return p.refs[0] if isinstance(p, View) else p.e[0]
        if n == 'axis':
            return self.sub(p, 1, 0, 3, 1)
        if n in ('toRotationMatrix', 'matrix'):
            return aa_rot(tv)
        if n == 'inverse':
            return Mat(4, 1, [nneg(tv.e[0])] + list(tv.e[1:]), 'aa')
        if n == 'operator*':
            return self.arith('*', tv, self.mat(args[0]))
        if n == '_transformVector':
            return mmul(aa_rot(tv), self.mat(args[0]))
        if n in ('operator=', 'fromRotationMatrix'):
            o = self.mat(args[0])
            I.write(this, self.convert_mat(o, ('mat', 4, 1, 'aa')))
            return this
        if n == 'cast':
            return self.castmat(tv, e, fn).as_kind('aa')
        return NotImplemented

    def derived_type(self, fn):
        """type index of Derived for a static method of DenseBase<Derived>/MatrixBase<Derived>/.."""
        P = self.I.P
        r = fn.get('rec')
        if r is None:
            return None
        n = P.recs[r]['n']
        ta = P.recs[r].get('ta', [])
        if n in ('Eigen::Matrix', 'Eigen::Transform', 'Eigen::Quaternion', 'Eigen::AngleAxis', 'Eigen::Array', 'Eigen::Translation'):
            return P.rec_type(r)
        if ta and 't' in ta[0]:
            return ta[0]['t']
        return None

    def map_view(self, v, pk, rm):
        refs = [None] * (pk[1] * pk[2])
        for i in range(pk[1]):
            for j in range(pk[2]):
                refs[i * pk[2] + j] = self.I.ptr_index(v, const(i * pk[2] + j if rm else j * pk[1] + i))
        return View(pk[1], pk[2], refs, pk[3])

    def eigen_static(self, n, args, e, fn):
        I = self.I
        P = I.P
        dt = self.derived_type(fn)
        kd = P.kd(dt) if dt is not None else ('?',)
        if n in ('Map', 'MapAligned') and kd[0] == 'mat' and len(args) == 1:
            v = I.load(args[0])
            if isinstance(v, Ptr):
                mt = P.recs[P.types[P.strip(dt)]['r']].get('ta', [])
                return self.map_view(v, kd, len(mt) > 3 and mt[3].get('i', 0) & 1)
        if kd[0] == 'eig':
            kd = P.kd(e['t'])
        if kd[0] not in ('mat', 'dyn'):
            raise Unsupported('Eigen static %s' % n)
        if kd[0] == 'dyn':
            k = 0
            if n in ('Zero', 'Ones', 'Identity', 'Random'):
                dims = [self.cint(a) for a in args]
                rest = []
            elif n == 'Constant':
                dims = [self.cint(a) for a in args[:-1]]
                rest = args[-1:]
            else:
                raise Unsupported('Eigen static %s on dynamic' % n)
            if len(dims) == 2:
                r, c = dims
            elif len(dims) == 1:
                r, c = (dims[0], 1) if kd[2] == 1 else (1, dims[0])
            else:
                r, c = 0, 0
            args = rest
            kind = 'mat'
        else:
            r, c, kind = kd[1], kd[2], kd[3]
            if n == 'Constant':
                args = args[-1:]
        if n in ('Zero', 'Ones', 'Constant'):
            x = ZERO if n == 'Zero' else (ONE if n == 'Ones' else tonum(I.load(args[0])))
            return Mat(r, c, [x] * (r * c), kind)
        if n == 'Identity':
            if kind == 'quat':
                return Mat(4, 1, [ZERO, ZERO, ZERO, ONE], 'quat')
            if kind == 'aa':
                return Mat(4, 1, [ZERO, ONE, ZERO, ZERO], 'aa')
            if kind == 'trl':
                return Mat(r, c, [ZERO] * (r * c), kind)
            return Mat(r, c, [ONE if i == j else ZERO for i in range(r) for j in range(c)], kind)
        if n in ('UnitX', 'UnitY', 'UnitZ', 'UnitW'):
            i = 'XYZW'.index(n[-1])
            return Mat(r, c, [ONE if j == i else ZERO for j in range(r * c)], kind)
        if n == 'Unit':
            i = self.cint(args[-1])
            return Mat(r, c, [ONE if j == i else ZERO for j in range(r * c)], kind)
        if n == 'NullaryExpr':
            fnv = I.load(args[-1])
            return Mat(r, c, [tonum(I.load(I.call_value(fnv, [const(i), const(j)], e))) for i in range(r) for j in range(c)], kind)
        if n == 'FromTwoVectors':
            a, b = self.mat(args[0]), self.mat(args[1])
            return Mat(4, 1, [sym('fromtwo', tuple(a.e), tuple(b.e), i) for i in range(4)], 'quat')
        if n == 'Random' or n == 'UnitRandom':
            raise Unsupported('random matrix')
        raise Unsupported('Eigen static %s' % n)

    def eigen_opaque(self, rn, n, this, tv, args, e, fn):
        I = self.I
        P = I.P
        if tv.op == 'decomp':
            which, m = tv.args
            low = tuple(m.at(i, j) for i in range(m.r) for j in range(m.c) if j <= i)
            if n == 'info':
                if all(isinstance(x, Poly) for x in low):
                    b = bvar('posdef', m.r, low)
                else:
                    b = gmap_any(lambda *xs: bvar('posdef', m.r, tuple(xs)), low)
                    if isinstance(b, G):
                        raise Unsupported('guarded decomposition')
                return mkG([(ZERO, b), (ONE, bnot(b))])
            if n in ('isPositive',):
                return bvar('ldltpos', m.r, low)
            if n == 'solve':
                return mmul(minverse(m), self.mat(args[0]))
            if n == 'inverse':
                return minverse(m)
            if n in ('matrixL', 'matrixU', 'matrixLLT', 'vectorD', 'eigenvalues', 'eigenvectors', 'rank'):
                I.ext.add('Eigen::' + which + '::' + n)
                t = T('decompout', n, which, low)
                sz = m.r
                if n == 'vectorD' or n == 'eigenvalues':
                    return Mat(sz, 1, [sym('el', t, i, 0) for i in range(sz)])
                if n == 'rank':
                    return sym('val', t, ty='i')
                return Mat(sz, sz, [sym('el', t, i, j) for i in range(sz) for j in range(sz)])
            if n == 'compute':
                return this
        if tv.op == 'vecwise':
            d, m = tv.args
            if isinstance(m, tuple):
                base, m = m
            else:
                base = None
            parts = [Mat(1, m.c, [m.at(i, j) for j in range(m.c)]) if d == 'rowwise' else Mat(m.r, 1, [m.at(j, i) for j in range(m.r)]) for i in range(m.r if d == 'rowwise' else m.c)]
            if n in ('sum', 'mean', 'norm', 'squaredNorm', 'maxCoeff', 'minCoeff', 'prod'):
                vals = [self.eigen(n, x, [], e, fn) for x in parts]
                return Mat(len(vals), 1, vals) if d == 'rowwise' else Mat(1, len(vals), vals)
            if n in ('operator+', 'operator-', 'operator*', 'operator/', 'operator+=', 'operator-='):
                o = self.mat(args[0])
                op = n[8]
                res = [mmap({'+': nadd, '-': nsub, '*': nmul, '/': ndiv}[op], x, self.fit(o, x.r, x.c)) for x in parts]
                out = Mat(m.r, m.c, [(res[i].e[j] if d == 'rowwise' else res[j].e[i]) for i in range(m.r) for j in range(m.c)])
                if n.endswith('='):
                    if base is None:
                        raise Unsupported('vectorwise assignment')
                    I.write(base, out)
                    return this
                return out
            if n == 'normalized':
                res = [self.normalized(x) for x in parts]
                return Mat(m.r, m.c, [(res[i].e[j] if d == 'rowwise' else res[j].e[i]) for i in range(m.r) for j in range(m.c)])
        if tv.op in ('dnew',) and n in ('operator=',):
            I.write(this, self.mat(args[0]))
            return this
        if n == 'rows':
            return sym('rows', tv, ty='i')
        if n == 'cols':
            return sym('cols', tv, ty='i')
        if n == 'size':
            kd = P.kd(e['o']['t']) if e.get('o') else ('?',)
            if kd[0] == 'dyn' and kd[2] == 1:
                return sym('rows', tv, ty='i')
            return pmul(sym('rows', tv, ty='i'), sym('cols', tv, ty='i'))
        if n == 'resize' and len(args) == 2:
            kd = P.kd(e['o']['t']) if e.get('o') else ('?',)
            nc = I.load(args[1])
            if kd[0] == 'dyn' and isinstance(kd[1], int) and kd[1] > 0 and isinstance(nc, Poly) and not nc.is_const():
                I.write(this, self.columns(kd[1], nc, e))
                return None
        if n == 'resize':
            dims = [self.cint(a) for a in args]
            r, c = dims if len(dims) == 2 else (dims[0], 1)
            I.write(this, Mat(r, c, [sym('undef', 'resize', i) for i in range(r * c)]))
            return None
        if n == 'operator=':
            I.write(this, I.load(args[0]))
            return this
        raise Unsupported('Eigen %s on %s' % (n, tv.op))

    def eigenfree(self, n, args, e, fn):
        I = self.I
        if n.startswith('operator') and len(args) == 2:
            a, b = self.mat(args[0]), self.mat(args[1])
            op = n[8:]
            if isinstance(a, Mat) and isinstance(b, Mat):
                if op == '*' and a.kind == 'trl' and b.kind not in ('trl',):
                    return iso(self.rot(b), a)
                return self.arith(op, a, b)
        if n == 'umeyama':
            raise Unsupported('umeyama')
        if n in ('pow', 'sqrt', 'abs', 'sin', 'cos') and args:
            a = self.mat(args[0])
            if isinstance(a, Mat):
                f = {'sqrt': nsqrt, 'abs': nabs, 'sin': nsin, 'cos': ncos}.get(n)
                if f:
                    return mmap(f, a)
                return mmap(lambda x: sgn_pow(x, I.load(args[1])), a)
        raise Unsupported('Eigen function %s' % n)

    # ------------------------------------------------------------ construction
    def construct(self, f, fn, args, ty, e):
        I = self.I
        P = I.P
        kd = P.kd(ty)
        rn = self.recname(fn) or ''
        if rn in ('std::basic_stringstream', 'std::basic_ostringstream'):
            return T('stream')
        if rn == 'gtsam::OptionalJacobian':
            return T('nojac')
        if rn in ('gtsam::Pose3', 'gtsam::Rot3'):
            vs = [I.load(a) for a in args]
            if not vs:
                return Mat(4, 4, ident(4).e, 'iso') if rn == 'gtsam::Pose3' else ident(3)
            if rn == 'gtsam::Rot3' and len(vs) == 1 and isinstance(vs[0], Mat):
                return Mat(3, 3, self.fit(self.rot(vs[0]), 3, 3).e)
            if rn == 'gtsam::Rot3' and len(vs) == 4:
                return self.rot(Mat(4, 1, [tonum(vs[k]) for k in (1, 2, 3, 0)], 'quat'))
            if rn == 'gtsam::Rot3' and len(vs) == 9:
                return Mat(3, 3, [tonum(x) for x in vs])
            if rn == 'gtsam::Rot3':
                raise Unsupported('construction of a gtsam rotation')
        if kd[0] == 'mat':
            if not args:
                return I.undefval('%s@%s' % (P.tname(ty), e.get('l')), ty)
            vs = [I.load(a) for a in args]
            r, c, kind = kd[1], kd[2], kd[3]
            if len(vs) == 1 or (kind not in ('quat', 'aa', 'trl') and isinstance(vs[0], (Mat,)) and len(vs) == 1):
                v = vs[0]
                if isinstance(v, G) and not is_scalar(v):
                    raise Unsupported('guarded matrix source')
                if isinstance(v, Mat):
                    return self.convert_mat(v, kd)
                if isinstance(v, Ptr):
                    return self.from_ptr(v, kd, ty)
                if isinstance(v, T) and v.op == 'seq' or (isinstance(v, T) and v.op == 'push'):
                    return self.from_seq(v, r, c, kind)
                if is_scalar(v) and r * c == 1:
                    return Mat(1, 1, [v])
                if is_scalar(v):
                    return I.undefval('%s@%s' % (P.tname(ty), e.get('l')), ty)
                if isinstance(v, T) and isinstance(r, int) and isinstance(c, int) and r > 0 and c > 0:
                    return Mat(r, c, [self.dyn_coef(v, const(i), const(j)) for i in range(r) for j in range(c)], kind)
                raise Unsupported('matrix from %r' % (v,))
            if kind == 'quat':
                if len(vs) == 4:
                    w, x, y, z = [tonum(v) for v in vs]
                    return Mat(4, 1, [x, y, z, w], 'quat')
                if len(vs) == 2:
                    return Mat(4, 1, list(vs[1].e) + [tonum(vs[0])], 'quat')
            if kind == 'aa' and len(vs) == 2:
                return Mat(4, 1, [tonum(vs[0])] + list(vs[1].e), 'aa')
            if kind == 'trl':
                return Mat(r, 1, [tonum(v) for v in vs], 'trl')
            if r * c == len(vs) and all(is_scalar(v) or isinstance(v, B) for v in vs):
                return self.narrow_elems(Mat(r, c, [tonum(v) for v in vs], kind), args, e, fn, kd)
            if kind in ('iso', 'aff') and len(vs) == 2:
                return iso(self.rot(vs[0]), vs[1], kind)
            if all(isinstance(v, Poly) for v in vs) and len(vs) == 2:
                return I.undefval('%s@%s' % (P.tname(ty), e.get('l')), ty)
            raise Unsupported('matrix constructor')
        if kd[0] == 'dyn':
            vs = [I.load(a) for a in args]
            if not vs:
                return T('dnew', ZERO, ZERO)
            if len(vs) == 1 and isinstance(vs[0], Mat):
                return vs[0].as_kind('mat')
            if len(vs) == 1 and isinstance(vs[0], (T, G)) and not is_scalar(vs[0]):
                return vs[0]
            dims = []
            for v in vs:
                if not (isinstance(v, Poly) and v.is_const()):
                    if len(vs) == 2 and isinstance(vs[0], Poly) and vs[0].is_const() and isinstance(vs[1], Poly):
                        return self.columns(int(vs[0].const()), vs[1], e)
                    raise Unsupported('matrix of symbolic size')
                dims.append(int(v.const()))
            if len(dims) == 1:
                dims = [dims[0], 1] if kd[2] == 1 else [1, dims[0]]
            return Mat(dims[0], dims[1], [sym('undef', 'dyn@%s' % e.get('l'), i) for i in range(dims[0] * dims[1])])
        if kd[0] == 'eig':
            n = rn
            if n in ('Eigen::Map',):
                ta = P.recs[fn['rec']].get('ta', [])
                pk = P.kd(ta[0]['t'])
                v = I.load(args[0])
                if isinstance(v, Ptr) and pk[0] == 'mat':
                    rm = False
                    t = P.types[P.strip(ta[0]['t'])]
                    mt = P.recs[t['r']].get('ta', [])
                    if len(mt) > 3 and mt[3].get('i', 0) & 1:
                        rm = True
                    return self.map_view(v, pk, rm)
                raise Unsupported('Eigen::Map of %s, %s' % (show(v)[:200], pk))
            if n in ('Eigen::Stride', 'Eigen::InnerStride', 'Eigen::OuterStride') and not args:
                return T('stride')
            if n == 'Eigen::SparseMatrix':
                vs = [I.load(a) for a in args]
                if len(vs) == 2:
                    r, c = self.cint(vs[0]), self.cint(vs[1])
                    return Mat(r, c, [ZERO] * (r * c))
            if n in ('Eigen::LLT', 'Eigen::LDLT', 'Eigen::PartialPivLU', 'Eigen::FullPivLU', 'Eigen::SelfAdjointEigenSolver', 'Eigen::ColPivHouseholderQR'):
                if args:
                    v = I.load(args[0])
                    if isinstance(v, Mat):
                        return T('decomp', {'Eigen::LLT': 'llt', 'Eigen::LDLT': 'ldlt'}.get(n, n), v.as_kind('mat'))
                    return v
            if fn.get('copy') and args:
                v = args[0]
                return v if isinstance(v, View) else I.load(v)
            if n == 'Eigen::Ref' and args:
                return args[0] if isinstance(args[0], View) else self.place(args[0])
            if len(args) == 1:
                v = I.load(args[0])
                if isinstance(v, (Mat, View, T, Comma)):
                    return v
            raise Unsupported('Eigen object %s' % n)
        if kd[0] == 'seq':
            return self.seq_ctor(fn, args, ty, e, kd)
        if kd[0] == 'dict':
            return self.dict_ctor(fn, args, ty, e, kd)
        if kd[0] == 'str':
            if not args:
                return Str('')
            v = I.load(args[0])
            if isinstance(v, (Str, T)) or (isinstance(v, G) and all(isinstance(x, (Str, T)) for x, _ in v.cases)):
                return v
            return T('string', tuple(self.argval(a) for a in args))
        if kd[0] == 'ptr':
            if not args:
                return NULL
            v = I.load(args[0])
            if isinstance(v, (Ptr, T)) or isinstance(v, G):
                return v
            raise Unsupported('smart pointer from %r' % (v,))
        if kd[0] == 'fn':
            if not args:
                return Fn('empty', None)
            v = I.load(args[0])
            if isinstance(v, Fn) or isinstance(v, G):
                return v
            if isinstance(v, Ptr):
                v = I.load(v.ref)
                return v
            if isinstance(v, Rec):
                return Fn('obj', None, (Ptr(I.as_place(v)),))
            raise Unsupported('function object from %r' % (v,))
        if kd[0] == 'it':
            if args:
                return I.load(args[0])
            return It(Ref(('none', 0)), ZERO)
        if kd[0] == 'rec':
            nm = P.recs[kd[1]]['n']
            if nm == 'std::pair' and f not in P.bodies or nm == 'std::pair':
                fs = P.recs[kd[1]].get('f', [])
                v = Rec(P.strip(ty), 'none')
                if len(args) == 2:
                    for fld, a in zip(fs, args):
                        x = self.to_type(I.load(a), fld['t'])
                        v = I.rec_put(v, fld['o'], fld['t'], x)
                    return v
                if len(args) == 1:
                    o = I.load(args[0])
                    if isinstance(o, Rec):
                        return o if o.rt == P.strip(ty) else self.pair_conv(o, ty)
                if not args:
                    for fld in fs:
                        v = I.rec_put(v, fld['o'], fld['t'], I.zeroval(fld['t']))
                    return v
            m = self.CTORS.get(nm)
            if m is not None:
                return m(self, f, fn, args, ty, e)
            return NotImplemented
        if kd[0] == 'opq':
            if fn.get('copy') and args:
                return I.load(args[0])
            m = self.CTORS.get(P.rname(ty))
            if m is not None:
                return m(self, f, fn, args, ty, e)
            if f in P.bodies:
                return NotImplemented
            return self.opaque_ctor(f, fn, args, ty)
        return NotImplemented

    def narrow_elems(self, m, args, e, fn, kd):
        """constructor arguments are converted to the scalar type"""
        from .interp import f32
        I = self.I
        P = I.P
        t = P.types[P.strip(P.rec_type(fn['rec']))] if fn.get('rec') is not None and P.rec_type(fn['rec']) is not None else None
        if t is None or t['c'] != 'rec':
            return m
        ta = P.recs[t['r']].get('ta', [])
        if not ta or 't' not in ta[0]:
            return m
        st = P.types[P.strip(ta[0]['t'])]
        if st['c'] == 'float' and st['w'] == 32:
            out = []
            for x, a in zip(m.e, (e.get('a') or [None] * len(m.e))):
                at = P.types[P.strip(a['t'])] if a is not None and 't' in a else None
                if at is not None and at['c'] == 'float' and at['w'] == 64:
                    x = gmap(f32, x)
                out.append(x)
            return Mat(m.r, m.c, out, m.kind)
        return m

    def pair_conv(self, o, ty):
        I = self.I
        P = I.P
        src = P.recs[P.kd(o.rt)[1]]['f']
        dst = P.recs[P.kd(ty)[1]]['f']
        v = Rec(P.strip(ty), 'none')
        for a, b in zip(src, dst):
            x = I.read_step(o, ('f', a['o'], P.strip(a['t'])))
            v = I.rec_put(v, b['o'], b['t'], self.to_type(x, b['t']))
        return v

    def to_type(self, x, ty):
        """implicit conversion of a value to a type, without knowing the source type precisely"""
        I = self.I
        P = I.P
        kd = P.kd(ty)
        if kd[0] == 's':
            t = P.types[P.strip(ty)]
            if kd[1] == 'b':
                return tobool(x)
            x = tonum(x)
            if kd[1] == 'i':
                return I.int_wrap(gmap(ptrunc, x), t) if t['c'] == 'int' else x
            return x
        if kd[0] == 'mat' and isinstance(x, Mat):
            return self.convert_mat(x, kd)
        return x

    def from_ptr(self, v, kd, ty):
        I = self.I
        P = I.P
        r, c, kind = kd[1], kd[2], kd[3]
        t = P.types[P.strip(ty)]
        mt = P.recs[t['r']].get('ta', [])
        rm = kind == 'mat' and len(mt) > 3 and bool(mt[3].get('i', 0) & 1)
        e = [None] * (r * c)
        for i in range(r):
            for j in range(c):
                k = i * c + j if rm else j * r + i
                e[i * c + j] = tonum(I.load(I.ptr_index(v, const(k))))
        return Mat(r, c, e, kind)

    def from_seq(self, s, r, c, kind):
        els = []
        while s.op == 'push':
            els.append(s.args[1])
            s = s.args[0]
        els.reverse()
        if len(els) == r * c and all(is_scalar(x) for x in els):
            return Mat(r, c, els, kind)
        out = []
        for row in els:
            rr = []
            while isinstance(row, T) and row.op == 'push':
                rr.append(row.args[1])
                row = row.args[0]
            out += list(reversed(rr))
        if len(out) == r * c:
            return Mat(r, c, out, kind)
        raise Unsupported('matrix from initialiser list')

    def seq_ctor(self, fn, args, ty, e, kd):
        I = self.I
        P = I.P
        vs = [I.load(a) for a in args]
        vs2 = [v for v in vs if not (isinstance(v, T) and v.op in ('undefobj', 'extobj'))]
        if not vs2:
            return SEQ0
        v = vs2[0]
        if isinstance(v, T) or (isinstance(v, G) and not is_scalar(v) and isinstance(v.cases[0][0], T)):
            return v
        if isinstance(v, It) and len(vs2) >= 2:
            return self.seq_slice(v, vs2[1])
        if is_scalar(v) or isinstance(v, Poly):
            x = vs2[1] if len(vs2) > 1 else self.default_elem(kd[1])
            return seq_fill(v, I.norm_rec(x) if isinstance(x, Rec) else x)
        if isinstance(v, Ptr) and len(vs2) >= 2 and isinstance(vs2[1], Ptr):
            raise Unsupported('vector from pointers')
        raise Unsupported('sequence constructor %r' % (v,))

    def default_elem(self, ty):
        """value-initialised element"""
        I = self.I
        P = I.P
        kd = P.kd(ty)
        if kd[0] == 'rec':
            cf = self.find_ctor(ty, 0)
            if cf is not None:
                return I.construct(cf, [], ty, {'zero': True})
            return Rec(P.strip(ty), 'zero')
        return I.zeroval(ty)

    def find_ctor(self, ty, nargs, vals=None):
        P = self.I.P
        kd = P.kd(ty)
        if kd[0] != 'rec':
            return None
        best = None
        for f in P.recs[kd[1]].get('ct', []):
            fn = P.fns[f]
            if fn.get('copy') and nargs == 1 and vals is not None and not isinstance(vals[0], Rec):
                continue
            if nargs == 1 and not fn.get('copy') and vals is not None and isinstance(vals[0], Rec) and vals[0].rt == P.strip(ty):
                continue
            mx = len(fn['pt'])
            mn = fn.get('mn', mx)
            if mn <= nargs <= mx:
                if vals is not None:
                    ok = True
                    for v, t in zip(vals, fn['pt']):
                        k = P.kd(t)
                        if isinstance(v, Rec) and k[0] != 'rec':
                            ok = False
                        if isinstance(v, Mat) and k[0] not in ('mat', 'dyn', 'eig'):
                            ok = False
                        if (is_scalar(v) or isinstance(v, B)) and k[0] != 's':
                            ok = False
                        if isinstance(v, T) and v.op in ('seq', 'push', 'map') and k[0] != 'seq':
                            ok = False
                    if not ok:
                        continue
                if best is None:
                    best = f
                elif len(P.fns[best]['pt']) != nargs and mx == nargs:
                    best = f
        return best

    def make(self, ty, args, e):
        """T(args...)"""
        I = self.I
        P = I.P
        kd = P.kd(ty)
        if kd[0] == 'rec':
            nm = P.recs[kd[1]]['n']
            if nm == 'std::pair':
                return self.construct(None, {'n': 'pair', 'q': 'std::pair', 'rec': kd[1], 'pt': []}, args, ty, e)
            vals = [I.load(a) for a in args]
            if len(vals) == 1 and isinstance(vals[0], Rec) and (vals[0].rt == P.strip(ty)):
                return vals[0]
            f = self.find_ctor(ty, len(args), vals)
            if f is None:
                if not args:
                    return Rec(P.strip(ty), 'zero')
                raise Unsupported('constructor of %s with %d arguments' % (nm, len(args)))
            fn = P.fns[f]
            args2 = []
            for i, t in enumerate(fn['pt']):
                if i < len(args):
                    a = args[i]
                    if not P.isref(t):
                        a = self.conv_arg(args[i], t, e, i)
                    elif P.kd(t)[0] == 's' and P.isconst(t):
                        a = self.conv_arg(args[i], t, e, i)
                    args2.append(a)
                else:
                    raise Unsupported('default argument in emplace')
            return I.construct(f, args2, ty, e if False else {})
        if kd[0] == 's':
            return self.to_type(I.load(args[0]), ty) if args else I.zeroval(ty)
        if kd[0] in ('mat', 'dyn', 'seq', 'dict', 'str', 'ptr', 'fn', 'eig'):
            if len(args) == 1:
                v = I.load(args[0])
                if kd[0] == 'mat' and isinstance(v, Mat):
                    return self.convert_mat(v, kd)
                if kd[0] != 'mat':
                    return v
            r = P.types[P.strip(ty)].get('r')
            return self.construct(None, {'n': '', 'q': '', 'rec': r, 'pt': []}, args, ty, e)
        if not args:
            return I.undefval('make', ty)
        return I.load(args[0])

    def conv_arg(self, a, t, e, i):
        I = self.I
        P = I.P
        v = I.load(a)
        kd = P.kd(t)
        if kd[0] == 's':
            ea = (e.get('a') or [])
            if i < len(ea) and 't' in ea[i]:
                return I.narrow(v, ea[i]['t'], t) if P.kd(ea[i]['t'])[0] == 's' else v
            return self.to_type(v, t)
        return v

    def opaque_ctor(self, f, fn, args, ty):
        I = self.I
        rn = self.recname(fn) or fn['q']
        short = I.P.tname(ty)
        if rn.startswith('std::') and ('error' in rn or 'exception' in rn or rn in ('std::out_of_range', 'std::invalid_argument')):
            return T('exc', rn)
        if rn in ('std::allocator', 'std::hash'):
            return T('undefobj', rn)
        I.ext.add('%s::ctor' % rn)
        t = T('extobj', short, tuple(self.argval(a) for a in args))
        return I.symval(t, ty)

    def opaque_call(self, f, fn, this, args, e):
        """uninterpreted function of its arguments; non-const references are outputs"""
        I = self.I
        P = I.P
        q = fn['q']
        I.ext.add(q)
        vals = []
        if this is not None:
            vals.append(self.argval(this))
        outs = {}
        for i, a in enumerate(args):
            p = self.cvarray(a) if self.arrays and i < len(fn['pt']) else None
            if p is None:
                vals.append(self.argval(a))
            elif 'OutputArray' in P.tname(P.strip(fn['pt'][i])):
                outs[i] = p
                if 'InputOutput' in P.tname(P.strip(fn['pt'][i])):
                    vals.append(self.argval(p))
            else:
                vals.append(self.argval(p))
        vals = tuple(vals)
        key = (q,) + vals
        for i, p in outs.items():
            cur = I.load(p)
            self.havoc(p, T('out', key, i), cur.rt if isinstance(cur, Rec) else None)
        for i, (a, t) in enumerate(zip(args, fn['pt'])):
            if i in outs:
                continue
            if P.isref(t) and not P.isconst(t) and isinstance(a, (Ref, View)):
                tt = P.types[t]
                if tt.get('rv'):
                    continue
                self.havoc(a, T('out', key, i), P.strip(t))
            elif P.types[P.strip(t)]['c'] == 'ptr' and not P.types[P.types[P.strip(t)]['p']].get('const'):
                v = I.load(a)
                if isinstance(v, Ptr) and isinstance(v.ref, Ref) and not (v.ref.path and v.ref.path[-1][0] in ('d0', 'd')):
                    self.havoc(v.ref, T('out', key, i), P.strip(P.types[P.strip(t)]['p']))
        if this is not None and not fn.get('const') and not fn.get('static') and isinstance(this, Ref) and fn.get('rec') is not None:
            pass_ty = P.rec_type(fn['rec'])
            if pass_ty is not None:
                self.havoc(this, T('out', key, 'this'), pass_ty)
        rt = fn['ret']
        if P.types[rt]['c'] == 'void':
            return None
        v = I.symval(T('ext', key), rt)
        if P.isref(rt):
            loc = I.newloc(rt, v, 'ext')
            return Ref(loc)
        return v

    def havoc(self, place, term, ty):
        I = self.I
        if isinstance(place, Ref):
            try:
                cur = I.load(place)
            except Unsupported:
                cur = None
            if isinstance(cur, Rec):
                ty = cur.rt
            I.write(place, I.symval(term, ty))
        else:
            k = I.P.kd(ty)
            I.write(place, Mat(place.r, place.c, [sym('el', term, i // place.c, i % place.c) for i in range(place.r * place.c)], place.kind))


class OutOfBounds(Exception):
    """definite out-of-range constant access"""


def quat_of_any(m):
    if any(isinstance(x, G) for x in m.e):
        return Mat(4, 1, [distr('quatof', m.e, i) for i in range(4)], 'quat')
    return quat_of(m.as_kind('mat'))


def aa_of_any(m):
    if any(isinstance(x, G) for x in m.e):
        return Mat(4, 1, [distr('aaof', m.e, i) for i in range(4)], 'aa')
    return aa_of(m.as_kind('mat'))


def self_ref(this, p, tv):
    return (this, tv) if isinstance(this, (Ref, View)) else tv


Models.PCL = {}
Models.CTORS = {}
from . import models_std  # noqa  (adds the std / cv / pcl / gtsam parts)
from . import models_dict  # noqa  (containers, factor graphs)
