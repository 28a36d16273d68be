"""Random interpretation of value terms: evaluates two terms under the same random valuation of the uninterpreted leaves.
Used to separate terms the normal form could not identify; a difference is a concrete witness."""
import math
import random
import hashlib
from fractions import Fraction
from .terms import *
from .terms import _ATOM_LIST, _ATOM_TY
from .values import *
from . import values as V
from . import dicts as D

ISO_TERMS = V.ISO_TERMS


class Skip(Exception):
    """valuation not usable (division by zero, unreliable comparison, ...)"""


class Env(dict):
    pass


E0 = {}
MV = 'mv'                       # key of environments that bind loop-carried values
MEMO_OPEN = ('L', 'Z', 'lti', 'sum', 'any', 'val', 'u8', 'uns', 'size', 'prod', 'maxn')
LEAFOPS = ('val', 'el', 'uns', 'u8')


def num_key(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, float):
        if x != x:
            return 'nan'
        return round(x, 7) + 0.0
    return x


class Obj:
    """opaque object named by a key"""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key


class SV:
    """structured value in an environment"""
    __slots__ = ('v', 'env')

    def __init__(self, v, env):
        self.v, self.env = v, env


class Ev:
    def __init__(self, seed, strings=(), override=None, mode=0):
        self.seed = seed
        self.rng = random.Random(seed)
        self.strings = list(strings) or ['a', 'b']
        self.override = override if override is not None else {}
        self.memo = {}
        self.inexact = False
        self.mode = mode
        self.used = {}
        self.budget = 400000
        self.rawkeys = {}
        self.hit = 0            # number of reads of undefined values
        self.log = None         # (values asked for finiteness, values compared)
        self.finite_by_force = ()

    # -------------------------------------------------- hashing
    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(d, 'big')

    def rnum(self, key, ty):
        k = (key, ty)
        if k in self.override:
            r = self.override[k]
        else:
            x = self.h('num', key, ty)
            hi = self.mode // 4         # 0: free, 1: small indices into non-empty sequences
            m = self.mode % 4
            if ty == 'u8':
                pool = (0, 1, 2, 3, 50, 100, 200, 255)
                r = x % 2 if hi and m % 2 else pool[x % 8] if self.mode % 2 else x % 256
            elif ty == 'uns':
                r = x % (3 if hi else 6)
            elif ty == 'b':
                r = x & 1
            elif ty == 'size':
                r = 2 + x % 3 if hi else x % 5
            elif ty == 'i':
                if hi:
                    r = x % 2 if m < 2 else x % 3
                elif m == 0:
                    r = x % 7 - 2
                elif m == 1:
                    r = x % 4
                elif m == 2:
                    r = x % 12
                else:
                    r = x % 40 - 5
            else:
                if m == 0:
                    r = Fraction(x % 9 - 4, 2)
                elif m == 1:
                    r = Fraction(x % 2001 - 1000, 97)
                elif m == 2:
                    r = Fraction(x % 33 + 1, 8)
                else:
                    r = Fraction(x % 2001, 3001)
            if ty != 'f':
                r = int(r)
        self.used[k] = r
        return r

    # -------------------------------------------------- scalars
    def num(self, v, env=E0):
        if isinstance(v, Poly):
            self.budget -= 1
            if self.budget < 0:
                raise Skip('budget')
            vals = {}
            fl = False
            for m in v.d:
                for a, e in m:
                    x = vals.get(a)
                    if x is None:
                        x = self.atom(a, env)
                        if isinstance(x, bool):
                            x = int(x)
                        if isinstance(x, float):
                            fl = True
                            if x != x or x in (float('inf'), float('-inf')):
                                raise Skip('overflow')
                        vals[a] = x
                    if e < 0 and x == 0:
                        raise Skip('division by zero')
            if fl:
                return self.num_float(v, vals)
            tot = Fraction(0)
            for m, c in v.d.items():
                t = c
                for a, e in m:
                    x = vals[a]
                    if isinstance(x, int) and e < 0:
                        x = Fraction(x)
                    t = t * (x if e == 1 else x ** e)
                tot = tot + t
            return tot
        if isinstance(v, B):
            return int(self.bool(v, env))
        if isinstance(v, G):
            for x, c in v.cases:
                if self.bool(c, env):
                    return self.num(x, env)
            raise Skip('no case')
        if isinstance(v, Mat) and v.r * v.c == 1:
            return self.num(v.e[0], env)
        if isinstance(v, T):
            o = self.obj(v, env)
            return self.num_of(o, 'f')
        if isinstance(v, (int, Fraction)):
            return v
        raise Skip('number of %s' % type(v).__name__)

    def num_float(self, v, vals):
        vals = {a: float(x) for a, x in vals.items()}
        pw = {}
        ts = []
        mag = 0.0
        try:
            for m, c in v.d.items():
                t = float(c)
                for k in m:
                    x = pw.get(k)
                    if x is None:
                        x = pw[k] = vals[k[0]] ** k[1]
                    t *= x
                ts.append(t)
                mag += abs(t)
        except (OverflowError, ZeroDivisionError):
            raise Skip('overflow')
        tot = math.fsum(ts)
        if mag * 1e-15 > 1e-11 * max(1.0, abs(tot)):
            raise Skip('cancellation')
        return tot

    def num_of(self, o, ty):
        if isinstance(o, Obj):
            return self.rnum(o.key, ty)
        if isinstance(o, SV):
            return self.num(o.v, o.env)
        if isinstance(o, (int, float, Fraction)):
            return o
        raise Skip('number of object')

    def bool(self, b, env=E0):
        n = b.n
        while n > 1:
            v, lo, hi = BDD.nodes[n]
            n = hi if self.atom(v, env) else lo
        return n == 1

    def sign(self, x):
        if isinstance(x, float):
            if x != x:
                raise Skip('nan')
            if abs(x) < 1e-9:
                raise Skip('unreliable comparison')
        return (x > 0) - (x < 0)

    def atom(self, a, env):
        closed = not bvs(('atom', a))
        if closed:
            r = self.memo.get(a)
            if r is not None:
                return r
        op, args = _ATOM_LIST[a]
        key = None
        if closed:
            key = a
        elif op in MEMO_OPEN:
            g = env.get
            key = (a,) + tuple([g(h) for h in bvs(('atom', a))])
            if MV in env:
                key = None
            else:
                r = self.memo.get(key)
                if r is not None:
                    return r
        h0 = self.hit
        r = self._atom(a, op, args, _ATOM_TY[a], env)
        if key is not None and self.hit == h0:
            self.memo[key] = r
        return r

    def _atom(self, a, op, args, ty, env):
        f = getattr(self, 'a_' + op, None)
        if f is not None:
            return f(args, env, ty)
        if op == 'undef':
            self.hit += 1
            if ty == 'b':
                return bool(self.h('undef', args) & 1)
            return self.rnum(('undef', args), ty)
        if op in ('val', 'uns', 'u8'):
            o = self.obj(args[0], env)
            return self.num_of(o, ty if op == 'val' else op)
        if op in ('bval', 'true', 'null', 'sameobj', 'fnset', 'matempty', 'eqobj', 'seqeq') or ty == 'b':
            if op == 'bval':
                o = self.obj(args[0], env)
                if isinstance(o, SV):
                    return self.truth(o.v, o.env)
                if isinstance(o, bool):
                    return o
                return bool(self.rnum(('b', o.key), 'i') & 1)
            return bool(self.rnum(('B', op, self.key(args, env)), 'b') & 1)
        if ty == 'o':
            return self.obj(term_of_atom(a), env)
        return self.rnum((op, self.key(args, env)), ty)

    def truth(self, v, env):
        if isinstance(v, B):
            return self.bool(v, env)
        return self.num(v, env) != 0

    # comparisons
    def compared(self, p, env):
        if self.log is not None and isinstance(p, Poly):
            for m in p.d:
                for a, _ in m:
                    try:
                        self.log[1].add(num_key(self.atom(a, env)))
                    except (Skip, TypeError):
                        pass

    def a_L(self, args, env, ty):
        self.compared(args[0], env)
        return self.sign(self.num(args[0], env)) < 0

    def a_Z(self, args, env, ty):
        self.compared(args[0], env)
        x = self.num(args[0], env)
        if isinstance(x, float):
            if abs(x) < 1e-9:
                raise Skip('unreliable comparison')
            return False
        return x == 0

    def a_lti(self, args, env, ty):
        self.compared(args[0], env)
        return self.sign(self.num(args[0], env)) < 0

    def a_maxn(self, args, env, ty):
        return max(self.num(x, env) for x in args[0])

    def a_bv(self, args, env, ty):
        return env[args[0]]

    def a_mv(self, args, env, ty):
        return env[('mv',) + tuple(args)]

    def a_sqrt(self, args, env, ty):
        x = self.num(args[0], env)
        if x < 0:
            raise Skip('sqrt of negative')
        if isinstance(x, Fraction):
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
        return math.sqrt(x)

    def a_inv(self, args, env, ty):
        x = self.num(args[0], env)
        if x == 0 or (isinstance(x, float) and abs(x) < 1e-12):
            raise Skip('division by zero')
        return 1 / (Fraction(x) if isinstance(x, int) else x)

    def _fl(self, f, args, env):
        try:
            return f(*[float(self.num(x, env)) for x in args])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip('domain')

    def a_sin(self, args, env, ty):
        return self._fl(math.sin, args, env)

    def a_cos(self, args, env, ty):
        return self._fl(math.cos, args, env)

    def a_exp(self, args, env, ty):
        return self._fl(math.exp, args, env)

    def a_log(self, args, env, ty):
        return self._fl(math.log, args, env)

    def a_tan(self, args, env, ty):
        return self._fl(math.tan, args, env)

    def a_asin(self, args, env, ty):
        return self._fl(math.asin, args, env)

    def a_acos(self, args, env, ty):
        return self._fl(math.acos, args, env)

    def a_atan(self, args, env, ty):
        return self._fl(math.atan, args, env)

    def a_atan2(self, args, env, ty):
        return self._fl(math.atan2, args, env)

    def a_pow(self, args, env, ty):
        return self._fl(math.pow, args, env)

    def a_fmod(self, args, env, ty):
        return self._fl(math.fmod, args, env)

    def a_copysign(self, args, env, ty):
        return self._fl(math.copysign, args, env)

    def a_rint(self, args, env, ty):
        return round(self.num(args[0], env))

    def a_trunc(self, args, env, ty):
        return self._int(math.trunc, args, env)

    def a_floor(self, args, env, ty):
        return self._int(math.floor, args, env)

    def _int(self, f, args, env):
        x = self.num(args[0], env)
        if isinstance(x, float):
            if x != x or abs(x) > 1e15 or abs(x - round(x)) < 1e-9:
                raise Skip('unreliable rounding')
        return f(x)

    def a_idiv(self, args, env, ty):
        a, b = self.num(args[0], env), self.num(args[1], env)
        if b == 0:
            raise Skip('division by zero')
        return math.trunc(Fraction(a) / Fraction(b))

    def a_mod(self, args, env, ty):
        a, b = self.num(args[0], env), self.num(args[1], env)
        if b == 0:
            raise Skip('division by zero')
        return int(a - b * math.trunc(Fraction(a) / Fraction(b)))

    def _bit(f):
        def g(self, args, env, ty):
            a, b = self.num(args[0], env), self.num(args[1], env)
            if int(a) != a or int(b) != b:
                raise Skip('bits of a fraction')
            return f(int(a), int(b))
        return g
    a_bitand = _bit(lambda a, b: a & b)
    a_bitor = _bit(lambda a, b: a | b)
    a_bitxor = _bit(lambda a, b: a ^ b)
    a_shr = _bit(lambda a, b: a >> min(max(b, 0), 200))
    a_shl = _bit(lambda a, b: a << min(max(b, 0), 200))

    def a_cmod(self, args, env, ty):
        return int(self.num(args[0], env)) % args[1]

    def a_csmod(self, args, env, ty):
        m = args[1]
        v = int(self.num(args[0], env)) % m
        return v - m if v >= m // 2 else v

    def a_F32(self, args, env, ty):
        import struct
        x = self.num(args[0], env)
        try:
            y = struct.unpack('f', struct.pack('f', float(x)))[0]
        except OverflowError:
            raise Skip('overflow')
        return Fraction(y) if not isinstance(x, float) and y == y and abs(y) != math.inf else y

    def a_const(self, args, env, ty):
        if args[0] == 'inf':
            return 1e30
        if args[0] == 'nan':
            return 7.77e31
        if args[0] == 'infinite':
            return 60
        raise Skip('const')

    def a_finite(self, args, env, ty):
        x = self.num(args[0], env)
        if isinstance(x, float) and abs(x) >= 1e29:
            return False
        return not self.infinite(x)

    def infinite(self, x):
        k = num_key(x)
        if self.log is not None:
            self.log[0].add(k)
        return k not in self.finite_by_force and self.h('finite', k) % 4 == 0

    def a_nan(self, args, env, ty):
        x = self.num(args[0], env)
        if isinstance(x, float) and abs(x) >= 1e29:
            return abs(x) > 5e31
        if not self.infinite(x):
            return False
        return self.h('nan', num_key(x)) % 2 == 0

    def a_strcmp(self, args, env, ty):
        return 1 if self.h('strcmp', self.key(args[0], env), self.key(args[1], env)) % 2 else -1

    def a_streq(self, args, env, ty):
        return self.strv(args[0], env) == args[1].s

    # -------------------------------------------------- associative containers
    def strv(self, v, env):
        k = self.key(v, env)
        if isinstance(k, tuple) and len(k) == 2 and k[0] in ('s', 'str#'):
            return k[1]
        i = self.override.get(('str', k))
        if i is None:
            i = self.h('str', k) % (len(self.strings) + 1)
        s = self.strings[i] if i < len(self.strings) else '<other>'
        self.used[('str', k)] = s
        return s if s != '<other>' else '<other>' + repr(k)

    def kkey(self, v, kind, env):
        if isinstance(v, G):
            v = self.pick(SV(v, env)).v
        if kind == 'str':
            return self.strv(v, env)
        return int(self.num(v, env))

    def basekeys(self, mk, kind):
        if mk == 'empty':
            return []
        n = self.rnum(('size', ('entries', mk)), 'size')
        out = set()
        for i in range(n):
            if kind == 'str':
                j = self.h('dk', mk, i) % (len(self.strings) + 1)
                out.add(self.strings[j] if j < len(self.strings) else '<other>%d' % i)
            elif kind == 'gk':
                x = self.h('dk', mk, i)
                out.add((ord('bpsvx'[x % 5]) << 40) + (x // 5) % 4)
            else:
                out.add(self.rnum(('dk', mk, i), 'i'))
        return sorted(out)

    def dictof(self, m, env, kind):
        """({key: content}, key of the initial container); the content is None where it is the initial one"""
        while isinstance(m, (G, T)):
            if isinstance(m, G):
                m = self.pick(SV(m, env)).v
                continue
            if m.op == 'seq' or m.op != 'Mu' and D.dinfo(m) is not None:
                break
            o = self.obj(m, env)
            if isinstance(o, Obj):
                return {k: None for k in self.basekeys(o.key, kind)}, o.key
            if isinstance(o, SV):
                o = self.pick(o)
                if o.v is m:
                    raise Skip('container')
                m, env = o.v, o.env
                continue
            raise Skip('container')
        if not isinstance(m, T):
            raise Skip('container')
        b, l = D.segs(m)
        cur, base = ({}, 'empty') if b is None else self.dictof(b, env, kind)
        cur = dict(cur)

        def run(t, c, e):
            if not self.bool(c, e):
                return
            k = self.kkey(t.args[0], kind, e)
            if t.op == 'ddel':
                cur.pop(k, None)
            elif t.op == 'dset' or t.op == 'dins' and k not in cur or t.op == 'dupd' and k in cur:
                cur[k] = SV(t.args[1], e)
        for x in l:
            if x[0] == 'op':
                for t, c in D.op_terms(x[1]):
                    if self.bool(c, env):
                        run(t, TRUE, env)
                        break
            else:
                n, items, h = x[1:]
                for i in range(self.dom(n, env)):
                    e = dict(env)
                    e[h] = i
                    for c, v in items:
                        if self.bool(c, e):
                            for t, cc in D.op_terms(v):
                                if self.bool(cc, e):
                                    run(t, TRUE, e)
                                    break
        return cur, base

    def dkeys(self, m, kind, env):
        return sorted(self.dictof(m, env, kind)[0])

    def a_has(self, args, env, ty):
        m, k, kind = args
        return self.kkey(k, kind, env) in self.dictof(m, env, kind)[0]

    def a_strsame(self, args, env, ty):
        return self.strv(args[0], env) == self.strv(args[1], env)

    def a_dkey(self, args, env, ty):
        m, i, kind = args
        ks = self.dkeys(m, kind, env)
        i = int(self.num(i, env))
        if 0 <= i < len(ks):
            return ks[i]
        return self.rnum(('nokey', i), 'i')

    def a_rank(self, args, env, ty):
        m, k, kind = args
        ks = self.dkeys(m, kind, env)
        k = self.kkey(k, kind, env)
        return sum(1 for x in ks if x < k)

    def dat(self, args, env):
        m, k, kind, tn = args
        k = self.kkey(k, kind, env)
        cur, base = self.dictof(m, env, kind)
        v = cur.get(k)
        if v is None:
            return Obj(('at', base, k, tn))
        return self.pick(v)

    def a_posdef(self, args, env, ty):
        n, es = args
        lo = {}
        it = iter(es)
        for i in range(n):
            for j in range(i + 1):
                lo[i, j] = self.num(next(it), env)
        # bias: make it positive definite half of the time by hashing when it is not decisive
        L = [[Fraction(0)] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                s = lo[i, j] - sum(L[i][k] * L[j][k] * L[k][k + n] if False else L[i][k] * L[j][k] for k in range(j))
                if i == j:
                    if s <= 0:
                        return False
                    L[i][j] = math.sqrt(s)
                else:
                    L[i][j] = s / L[j][j]
        return True

    def a_size(self, args, env, ty):
        s = self.seq(args[0], env)
        if isinstance(s, Obj):
            return self.rnum(('size', s.key), 'size')
        return len(s)

    def dom(self, n, env):
        x = self.num(n, env)
        if x > 70:
            raise Skip('large domain')
        return int(x)

    def _binder(self, args, env):
        doms, body, hs = args

        def rec(i, e):
            if i == len(doms):
                yield e
                return
            for k in range(self.dom(doms[i], e)):
                e2 = dict(e)
                e2[hs[i]] = k
                yield from rec(i + 1, e2)
        return body, rec(0, env)

    def a_sum(self, args, env, ty):
        body, it = self._binder(args, env)
        t = Fraction(0)
        for e in it:
            t = t + self.num(body, e)
        return t

    def a_any(self, args, env, ty):
        body, it = self._binder(args, env)
        for e in it:
            if self.bool(body, e):
                return True
        return False

    def _scan(self, args, env):
        n, c, h = args
        for k in range(self.dom(n, env)):
            e = dict(env)
            e[h] = k
            if self.bool(c, e):
                yield k

    def a_first(self, args, env, ty):
        for k in self._scan(args, env):
            return k
        return max(0, self.dom(args[0], env))

    def a_last(self, args, env, ty):
        r = None
        for k in self._scan(args, env):
            r = k
        if r is None:
            return -1
        return r

    def _fold(self, args, env, f):
        i, n, body, h = args
        r = self.num(i, env)
        for k in range(self.dom(n, env)):
            e = dict(env)
            e[h] = k
            r = f(r, self.num(body, e))
        return r

    def a_foldmin(self, args, env, ty):
        return self._fold(args, env, min)

    def a_foldmax(self, args, env, ty):
        return self._fold(args, env, max)

    def a_Mu(self, args, env, ty):
        ups, ini, h, pos, n = args
        st = [self.any(x, env) for x in ini]
        for k in range(self.dom(n, env)):
            e = dict(env)
            e[h] = k
            for j, x in enumerate(st):
                e[('mv', h, j)] = x
                e[MV] = True
            st = [self.any(u, e) for u in ups]
        return st[pos]

    def any(self, v, env):
        if isinstance(v, B):
            return self.bool(v, env)
        if isinstance(v, Poly):
            return self.num(v, env)
        if isinstance(v, G):
            for x, c in v.cases:
                if self.bool(c, env):
                    return self.any(x, env)
            raise Skip('no case')
        if isinstance(v, T):
            return self.obj(v, env)
        return SV(v, env)

    def a_el(self, args, env, ty):
        t, i, j = args
        if isinstance(i, Poly):
            i = int(self.num(i, env))
        if isinstance(j, Poly):
            j = int(self.num(j, env))
        o = self.obj(t, env) if isinstance(t, T) else SV(t, env)
        if isinstance(o, SV):
            v = self.pick(o)
            if isinstance(v.v, Mat):
                return self.num(v.v.at(i, j), v.env)
            raise Skip('element')
        kind = ISO_TERMS.get(t) or ISO_TERMS.get(self.tykey(t))
        if kind in ('iso', 'quat', 'aa'):
            x = self.special(o.key, kind, i, j)
            if x is not None:
                return x
        return self.rnum((o.key, i, j), ty)

    def tykey(self, t):
        if isinstance(t, T) and t.op in ('elem', 'fld'):
            return ('ty', t.args[2])
        if isinstance(t, T) and t.op == 'at' and len(t.args) == 4:
            return ('ty', t.args[3])
        return None

    def special(self, key, kind, i, j):
        q = [Fraction(self.h('q', key, n) % 9 - 4, 2) for n in range(3)]
        s = q[0] ** 2 + q[1] ** 2 + q[2] ** 2
        # inverse stereographic projection: rational unit quaternion
        u = [2 * x / (1 + s) for x in q] + [(1 - s) / (1 + s)]
        if kind == 'quat':
            return u[i]
        if kind == 'iso':
            if i >= 3 or j >= 3:
                return None
            x, y, z, w = u
            R = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                 [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                 [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
            return R[i][j]
        if kind == 'aa' and i > 0:
            a, b = q[0], q[1]
            s = a * a + b * b
            return [2 * a / (1 + s), 2 * b / (1 + s), (1 - s) / (1 + s)][i - 1]
        return None

    def a_minv(self, args, env, ty):
        es, n, i, j = args
        A = [[self.num(es[r * n + c], env) for c in range(n)] + [Fraction(int(r == c)) for c in range(n)] for r in range(n)]
        for c in range(n):
            p = max(range(c, n), key=lambda r: abs(A[r][c]))
            if abs(A[p][c]) < Fraction(1, 10 ** 9):
                raise Skip('singular')
            A[c], A[p] = A[p], A[c]
            d = A[c][c]
            A[c] = [x / d for x in A[c]]
            for r in range(n):
                if r != c and A[r][c]:
                    f = A[r][c]
                    A[r] = [x - f * y for x, y in zip(A[r], A[c])]
        return A[i][n + j]

    def rotq(self, es, env):
        R = [[self.num(es[3 * r + c], env) for c in range(3)] for r in range(3)]
        ok = True
        for a in range(3):
            for b in range(3):
                s = sum(R[k][a] * R[k][b] for k in range(3))
                if abs(float(s) - (a == b)) > 1e-7:
                    ok = False
        if not ok:
            return None, R
        R = [[float(x) for x in r] for r in R]
        t = R[0][0] + R[1][1] + R[2][2]
        if t > 0:
            t = math.sqrt(t + 1)
            w = .5 * t
            t = .5 / t
            return ((R[2][1] - R[1][2]) * t, (R[0][2] - R[2][0]) * t, (R[1][0] - R[0][1]) * t, w), R
        i = 0
        if R[1][1] > R[0][0]:
            i = 1
        if R[2][2] > R[i][i]:
            i = 2
        j, k = (i + 1) % 3, (i + 2) % 3
        t = math.sqrt(max(0., R[i][i] - R[j][j] - R[k][k] + 1))
        if t < 1e-9:
            raise Skip('degenerate rotation')
        q = [0.] * 3
        q[i] = .5 * t
        t = .5 / t
        w = (R[k][j] - R[j][k]) * t
        q[j] = (R[j][i] + R[i][j]) * t
        q[k] = (R[k][i] + R[i][k]) * t
        return (q[0], q[1], q[2], w), R

    def a_quatof(self, args, env, ty):
        es, i = args
        q, R = self.rotq(es, env)
        if q is not None:
            return q[i]
        return sum((self.h('lin', i, k) % 17 - 8) * R[k // 3][k % 3] for k in range(9))

    def a_aaof(self, args, env, ty):
        es, i = args
        q, R = self.rotq(es, env)
        if q is not None:
            n = math.sqrt(q[0] ** 2 + q[1] ** 2 + q[2] ** 2)
            if n < 1e-9:
                return [0., 1., 0., 0.][i]
            ang = 2 * math.atan2(n, abs(q[3]))
            if q[3] < 0:
                n = -n
            return [ang, q[0] / n, q[1] / n, q[2] / n][i]
        return sum((self.h('lina', i, k) % 17 - 8) * R[k // 3][k % 3] for k in range(9))

    # -------------------------------------------------- objects
    def pick(self, sv):
        v, env = sv.v, sv.env
        while isinstance(v, G):
            for x, c in v.cases:
                if self.bool(c, env):
                    v = x
                    break
            else:
                raise Skip('no case')
        return SV(v, env)

    def obj(self, t, env):
        """object value of a term: Obj, SV, or a number"""
        if isinstance(t, G):
            return self.obj(self.pick(SV(t, env)).v, env)
        if not isinstance(t, T):
            return SV(t, env)
        op, args = t.op, t.args
        if op == 'mv':
            return env[('mv',) + tuple(args)]
        if op == 'at' and len(args) == 4:
            return self.dat(args, env)
        if op == 'dkey':
            ks = self.dkeys(args[0], args[2], env)
            i = int(self.num(args[1], env))
            return Obj(('str#', ks[i] if 0 <= i < len(ks) else '<none>'))
        if op == 'rawkey':
            return Obj(self.rawkeys[args[0]])
        if op in ('undefobj', 'undefptr'):
            self.hit += 1
        if op == 'Mu':
            return self.a_Mu(args, env, 'o')
        if op == 'elem':
            s = self.seq(args[0], env)
            i = int(self.num(args[1], env))
            if isinstance(s, Obj):
                return Obj(('elem', s.key, i, args[2]))
            if not 0 <= i < len(s):
                return Obj(('oob', i, len(s), args[2]))
            x = s[i]
            if isinstance(x, tuple):
                return Obj(('elem', x[0], x[1], args[2]))
            return self.pick(x)
        if op == 'fld':
            b = args[0]
            o = self.obj(b, env)
            if isinstance(o, Obj):
                return Obj(('fld', o.key, args[1], args[2]))
            if isinstance(o, SV):
                o = self.pick(o)
                if isinstance(o.v, Rec):
                    y = rec_field(o.v, args[1], args[2])
                    if isinstance(y, T):
                        return self.obj(y, o.env)
                    return self.pick(SV(y, o.env))
                if isinstance(o.v, T):
                    o2 = self.obj(o.v, o.env)
                    if isinstance(o2, Obj):
                        return Obj(('fld', o2.key, args[1], args[2]))
            raise Skip('field')
        if op == 'sub':
            o = self.obj(args[0], env)
            if isinstance(o, Obj):
                return Obj(('sub', o.key, args[1]))
            raise Skip('sub')
        if op in ('seq', 'push', 'upd', 'fill', 'map', 'umap', 'cat', 'slice', 'resized'):
            s = self.seq(t, env)
            if isinstance(s, Obj):
                return s
            return SV(t, env)
        return Obj((op, self.key(args, env)))

    def seq(self, t, env):
        """Obj or list of SV / (key, index)"""
        if isinstance(t, G):
            p = self.pick(SV(t, env))
            return self.seq(p.v, env)
        if isinstance(t, SV):
            return self.seq(t.v, t.env)
        if isinstance(t, Obj):
            return t
        op, a = t.op, t.args
        if op == 'seq':
            return []
        if op == 'entries':
            return [(('entries', str(k)), 0) for k in self.dkeys(a[0], a[1], env)]
        if op == 'push':
            return self.lst(a[0], env) + [SV(a[1], env)]
        if op == 'upd':
            l = list(self.lst(a[0], env))
            i = int(self.num(a[1], env))
            if 0 <= i < len(l):
                l[i] = SV(a[2], env)
            return l
        if op == 'fill':
            return [SV(a[1], env)] * self.dom(a[0], env)
        if op == 'map':
            n, items, h = a
            out = []
            for k in range(self.dom(n, env)):
                e = dict(env)
                e[h] = k
                for c, v in items:
                    if self.bool(c, e):
                        out.append(SV(v, e))
            return out
        if op == 'umap':
            ini, n, b, val, h, ety = a
            l = list(self.lst(ini, env))
            b0 = int(self.num(b, env))
            for k in range(self.dom(n, env)):
                e = dict(env)
                e[h] = k
                if 0 <= b0 + k < len(l):
                    l[b0 + k] = SV(val, e)
            return l
        if op == 'cat':
            out = []
            for x in a:
                out += self.lst(x, env)
            return out
        if op == 'slice':
            return self.lst(a[0], env)[max(0, int(self.num(a[1], env))):max(0, int(self.num(a[2], env)))]
        if op == 'resized':
            l = list(self.lst(a[0], env))
            n = self.dom(a[1], env)
            return l[:n] + [SV(a[2], env)] * max(0, n - len(l))
        o = self.obj(t, env)
        if isinstance(o, SV):
            o = self.pick(o)
            if isinstance(o.v, T) and o.v is not t:
                return self.seq(o.v, o.env)
            if isinstance(o.v, T):
                raise Skip('sequence')
            raise Skip('sequence value')
        return o

    def lst(self, t, env):
        s = self.seq(t, env)
        if isinstance(s, Obj):
            n = self.rnum(('size', s.key), 'size')
            return [(s.key, i) for i in range(n)]
        return s

    # -------------------------------------------------- keys of argument values
    def key(self, v, env):
        if isinstance(v, (str, int, Fraction)) or v is None:
            return v
        if isinstance(v, Str):
            return ('s', v.s)
        if isinstance(v, Poly):
            return num_key(self.num(v, env))
        if isinstance(v, B):
            return self.bool(v, env)
        if isinstance(v, G):
            p = self.pick(SV(v, env))
            return self.key(p.v, env)
        if isinstance(v, T):
            d = D.dinfo(v)
            if d is not None:
                cur, base = self.dictof(v, env, d[0])
                return ('dict', base) + tuple((k, x and self.key(x.v, x.env)) for k, x in sorted(cur.items()))
            o = self.obj(v, env)
            if isinstance(o, Obj):
                return self.objkey(o.key)
            if isinstance(o, SV):
                if o.v is v:
                    s = self.seq(v, env)
                    if isinstance(s, Obj):
                        return self.objkey(s.key)
                    return ('list',) + tuple(x if isinstance(x, tuple) else self.key(x.v, x.env) for x in s)
                return self.key(o.v, o.env)
            return num_key(o)
        if isinstance(v, Mat):
            return ('m', v.r, v.c) + tuple(self.key(x, env) for x in v.e)
        if isinstance(v, Rec):
            lv = self.leaves(v.rt)
            if lv is not None and len(lv) <= 64:
                return ('r',) + tuple(self.key(rec_field(v, o, t), env) for o, t in lv)
            if isinstance(v.base, T) and not v.over:
                return self.key(v.base, env)
            return ('rb', self.key(v.base, env) if not isinstance(v.base, str) else v.base, tuple((k, self.key(x, env)) for k, (x, t) in v.over))
        if isinstance(v, tuple):
            return tuple(self.key(x, env) for x in v)
        if isinstance(v, Ptr):
            return 'null' if v.ref is None else ('ptr', self.refkey(v.ref, env))
        if isinstance(v, Fn):
            return ('fn', v.kind, str(v.f))
        return ('?', repr(v)[:80])


    def objkey(self, k):
        """an opaque object of a record type is the same value as a record of its leaves"""
        if not (isinstance(k, tuple) and k[0] in ('at', 'elem', 'fld') and isinstance(k[-1], str)):
            return k
        try:
            lv = self.leaves(k[-1])
        except (KeyError, TypeError, V.Unsupported):
            return k
        if lv is None or len(lv) > 64:
            return k
        self.rawkeys[repr(k)] = k
        raw = T('rawkey', repr(k))
        return ('r',) + tuple(self.key(V.SYMVAL(T('fld', raw, o, t), t), E0) for o, t in lv)

    def leaves(self, rt):
        lv = V.LEAVES(rt)
        return None if lv and len(lv) == 1 and rt in (lv[0][1], V.TYNAME(lv[0][1])) else lv

    def refkey(self, r, env):
        if not isinstance(r, V.Ref):
            return str(r)
        l = r.loc
        k = (l[0], self.key(l[1], env)) if l[0] == 'obj' and isinstance(l[1], (T, Poly, G)) else str(l)
        return (k,) + tuple((s[0],) + tuple(self.key(x, env) if isinstance(x, (Poly, T, G)) else x for x in s[1:2]) for s in r.path)


def leaf_poly_vars(p):
    """linear leaf variables of a polynomial: [(atom, coef poly, rest poly)]"""
    out = []
    for a in poly_atoms(p):
        if aop(a) in LEAFOPS and not bvs(('atom', a)):
            c, r, ok = {}, {}, True
            for m, k in p.d.items():
                es = dict(m)
                if a in es:
                    if es[a] != 1:
                        ok = False
                        break
                    mm = tuple(x for x in m if x[0] != a)
                    c[mm] = k
                else:
                    r[m] = k
            if ok:
                out.append((a, Poly(c), Poly(r)))
    return out


def collect(v, acc, seen):
    """all atoms reachable"""
    return all_atoms(v)


class NumDiff:
    def __init__(self, tol):
        self.tol = tol

    def same_num(self, x, y):
        if isinstance(x, bool) or isinstance(y, bool):
            return bool(x) == bool(y)
        if not isinstance(x, float) and not isinstance(y, float):
            if x == y:
                return True
            if self.tol < 1e-7:
                d = abs(x - y)
                return d <= self.tol * max(1, abs(x), abs(y))
        d = abs(float(x) - float(y))
        return d <= self.tol * max(1.0, abs(float(x)), abs(float(y)))

    def cmp(self, ev, a, ea, b, eb, path=''):
        """None if equal, else (path, x, y)"""
        h0 = ev.hit
        b = ev.pick(SV(b, eb)).v if isinstance(b, G) else b
        if ev.hit != h0:
            return None
        a = ev.pick(SV(a, ea)).v if isinstance(a, G) else a
        xa, xb = (x.base if isinstance(x, Rec) else x for x in (a, b))
        ea_, eb_ = (isinstance(x, T) and x.op == 'extobj' for x in (xa, xb))
        if ea_ != eb_ or ea_ and len(xa.args[1]) != len(xb.args[1]):
            raise Skip('objects built by constructors that are not analysed')
        if isinstance(a, Mat) and isinstance(b, Mat):
            if (a.r, a.c) != (b.r, b.c):
                return (path, 'shape %dx%d' % (a.r, a.c), 'shape %dx%d' % (b.r, b.c))
            if a.kind == 'quat' and b.kind == 'quat':
                pass
            done = 0
            for i in range(a.r):
                for j in range(a.c):
                    try:
                        r = self.cmp(ev, a.at(i, j), ea, b.at(i, j), eb, path + '(%d,%d)' % (i, j))
                    except Skip:
                        continue
                    done += 1
                    if r:
                        return r
            if not done:
                raise Skip('matrix')
            return None
        if isinstance(a, (Poly, B)) and isinstance(b, (Poly, B)):
            h0 = ev.hit
            y = ev.bool(b, eb) if isinstance(b, B) else ev.num(b, eb)
            if ev.hit != h0:
                return None         # the reference leaves this value open
            x = ev.bool(a, ea) if isinstance(a, B) else ev.num(a, ea)
            if self.same_num(x, y):
                return None
            return (path, x, y)
        if isinstance(a, Rec) or isinstance(b, Rec):
            if isinstance(a, T):
                a = Rec(b.rt, a)
            if isinstance(b, T):
                b = Rec(a.rt, b)
            lv = ev.leaves(a.rt)
            if lv is None:
                return None if ev.key(a, ea) == ev.key(b, eb) else (path, 'value', 'other value')
            for o, t in lv:
                r = self.cmp(ev, rec_field(a, o, t), ea, rec_field(b, o, t), eb, path + '+%d' % o)
                if r:
                    return r
            return None
        if isinstance(a, T) and isinstance(b, T):
            if a is b and not bvs(a):
                return None
            d = D.dinfo(a) or D.dinfo(b)
            if d is not None:
                (ca, ba), (cb, bb) = ev.dictof(a, ea, d[0]), ev.dictof(b, eb, d[0])
                if sorted(ca) != sorted(cb):
                    return (path + '.keys', sorted(ca), sorted(cb))
                for k in ca:
                    x, y = ca[k], cb[k]
                    vs = []
                    for z, base in ((x, ba), (y, bb)):
                        if z is None:
                            ek = ('at', base, k, d[1])
                            ev.rawkeys[repr(ek)] = ek
                            rk = T('rawkey', repr(ek))
                            z = SV(rk if d[1] == 'gtsam::Value' else V.SYMVAL(rk, d[1]), E0)
                        vs.append(z)
                    x, y = vs
                    r = self.cmp(ev, x.v, x.env, y.v, y.env, path + '[%s]' % k)
                    if r:
                        return r
                return None
            oa, ob = ev.obj(a, ea), ev.obj(b, eb)
            if isinstance(oa, Obj) and isinstance(ob, Obj):
                return None if oa.key == ob.key else (path, str(oa.key)[:80], str(ob.key)[:80])
            sa, sb = ev.lst(a, ea), ev.lst(b, eb)
            if len(sa) != len(sb):
                return (path + '.size', len(sa), len(sb))
            for i, (x, y) in enumerate(zip(sa, sb)):
                if isinstance(x, tuple) and isinstance(y, tuple):
                    if x != y:
                        return (path + '[%d]' % i, x, y)
                    continue
                if isinstance(x, tuple) or isinstance(y, tuple):
                    r = self.mixed(ev, x, y, path + '[%d]' % i)
                else:
                    r = self.cmp(ev, x.v, x.env, y.v, y.env, path + '[%d]' % i)
                if r:
                    return r
            return None
        if isinstance(a, Str) or isinstance(b, Str):
            if isinstance(a, Str) and isinstance(b, Str):
                return None if a.s == b.s else (path, a.s, b.s)
            return None if ev.key(a, ea) == ev.key(b, eb) else (path, str(ev.key(a, ea)), str(ev.key(b, eb)))
        ka, kb = ev.key(a, ea), ev.key(b, eb)
        return None if ka == kb else (path, str(ka)[:80], str(kb)[:80])

    def mixed(self, ev, x, y, path):
        """opaque element against a structured one: compare leaf by leaf through its type"""
        if isinstance(x, tuple):
            key, idx, sv, flip = x[0], x[1], y, True
        else:
            key, idx, sv, flip = y[0], y[1], x, False
        sv = ev.pick(sv)
        v = sv.v
        if isinstance(v, Rec):
            lv = ev.leaves(v.rt) or []
            tn = V.TYNAME(v.rt)
            ekey = ('elem', key, idx, tn)
            for o, t in lv:
                f = rec_field(v, o, t)
                z = ev.key(f, sv.env)
                sym_ = V.SYMVAL(T('fld', T('rawkey', repr(ekey)), o, t), t)
                ev.rawkeys[repr(ekey)] = ekey
                r = self.cmp(ev, f, sv.env, sym_, E0, path + '+%d' % o)
                if r:
                    return r
            return None
        if isinstance(v, (Poly, B, Mat, T)):
            return None
        return None


def show_val(x):
    if isinstance(x, Fraction):
        return str(float(x)) if x.denominator != 1 else str(x.numerator)
    return str(x)
