"""Equivalence of two value graphs (implementation wrapper against reference definition).

1. value numbering: the canonical terms are compared, case by feasible case, opening sequences and binders;
2. where the normal form cannot identify them, random interpretation looks for a valuation of the leaves that separates
   them.  Only a separating valuation is reported; its absence is recorded as 'not separated'."""
import signal
import time
import random
from fractions import Fraction
from .terms import *
from .values import *
from . import values as V
from .interp import Interp
from .models import Models, OutOfBounds
from . import theory
from . import dicts
from .randinterp import Ev, NumDiff, Skip, SV, LEAFOPS, show_val, E0


class Res:
    pass


def run_fn(P, fid, names=None):
    """abstract effect of one function of the driver on fresh symbolic inputs"""
    I = Interp(P, Models())
    f = P.fns[fid]
    body = P.bodies[fid]
    args = []
    names = names or [P.vars[p]['n'] or 'arg%d' % i for i, p in enumerate(body['p'])]
    for k, t in enumerate(f['pt']):
        v = I.symval(T('in', names[k]), t)
        if P.isref(t):
            loc = I.newloc(t, v, 'a')
            args.append(Ref(loc))
        else:
            args.append(v)
    r = I.run_body(fid, None, args)
    R = Res()
    R.I = I
    R.names = names
    R.live = I.live
    R.oob = FALSE
    for c, typ, _ in I.throws:
        if typ == OUTSIDE:
            R.oob = bor(R.oob, c)
    R.assume = I.assume
    R.outs = []
    if I.live.n and P.types[f['ret']]['c'] != 'void':
        R.outs.append(('return value', I.load(r)))
    for k, a in enumerate(args):
        t = f['pt'][k]
        if isinstance(a, Ref) and P.isref(t) and not P.isconst(t):
            R.outs.append((names[k], I.load(a) if I.live.n else None))
    return R


def expand(I, name, v, depth=0):
    """pointer valued outputs -> nullness and pointee"""
    if depth > 4:
        return [(name, v)]
    if isinstance(v, Ptr):
        if v.ref is None:
            return [(name + ' is null', TRUE), (name + ' pointee', None)]
        return [(name + ' is null', FALSE)] + expand(I, '*' + name, I.load(v.ref), depth + 1)
    if isinstance(v, G) and any(isinstance(x, Ptr) for x, c in v.cases):
        nul = FALSE
        out = None
        for x, c in v.cases:
            if isinstance(x, Ptr) and x.ref is None:
                nul = bor(nul, c)
            elif isinstance(x, Ptr):
                y = I.load(x.ref)
                out = y if out is None else vite(c, y, out)
        return [(name + ' is null', nul)] + (expand(I, '*' + name, out, depth + 1) if out is not None else [(name + ' pointee', None)])
    return [(name, v)]


# ---------------------------------------------------------------- symbolic equality
class Eq:
    def __init__(self, budget=4000, tlimit=60):
        self.budget = budget
        self.deadline = time.time() + tlimit
        self.memo = {}
        self.fresh = 0

    def eq(self, a, b, care=TRUE):
        if a is b or a == b:
            return True
        self.budget -= 1
        if self.budget < 0 or time.time() > self.deadline:
            return False
        if isinstance(a, B) and isinstance(b, B):
            d = band(care, bxor(a, b))
            if not theory.feasible(d):
                return True
            return self.bool_congr(a, b, care)
        if isinstance(a, B) != isinstance(b, B) and isinstance(a, (B, Poly, G)) and isinstance(b, (B, Poly, G)):
            return self.eq(tonum(a), tonum(b), care)
        if isinstance(a, G) or isinstance(b, G):
            if dicts.dinfo_any(a) or dicts.dinfo_any(b):
                return self.obj(a, b, care)
            for x, c in cases(a):
                for y, d in cases(b):
                    cc = band(care, band(c, d))
                    if cc.n == 0 or x == y:
                        continue
                    if not theory.feasible(cc):
                        continue
                    if not self.eq(x, y, cc):
                        return False
            return True
        if isinstance(a, Poly) and isinstance(b, Poly):
            return self.poly(a, b, care)
        if isinstance(a, Mat) and isinstance(b, Mat):
            return (a.r, a.c) == (b.r, b.c) and all(self.eq(x, y, care) for x, y in zip(a.e, b.e))
        if isinstance(a, Rec) or isinstance(b, Rec):
            if isinstance(a, T):
                a = Rec(b.rt, a)
            if isinstance(b, T):
                b = Rec(a.rt, b)
            if not (isinstance(a, Rec) and isinstance(b, Rec)):
                return False
            lv = V.LEAVES(a.rt)
            return lv is not None and all(self.eq(rec_field(a, o, t), rec_field(b, o, t), care) for o, t in lv)
        if isinstance(a, T) and isinstance(b, T):
            return self.obj(a, b, care)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq(x, y, care) for x, y in zip(a, b))
        return False

    def newk(self):
        self.fresh += 1
        return atom('k', 'q%d' % self.fresh, ty='i')

    def obj(self, a, b, care):
        d = dicts.dinfo_any(a) or dicts.dinfo_any(b)
        if d is not None:
            ks = dicts.opkeys(a, [])
            dicts.opkeys(b, ks)
            self.fresh += 1
            q = T('anykey', self.fresh) if d[0] == 'str' else pvar(self.newk())
            for k in ks[:6] + [q]:         # each key of an explicit operation, then every other key
                if k is q:
                    for x in ks[:6]:
                        care = band(care, bnot(dicts.keq(x, q)))
                h = dicts.d_has(a, k, d[0])
                if not self.eq(h, dicts.d_has(b, k, d[0]), care):
                    return False
                if not self.eq(dicts.d_at(a, k, d[0], d[1]), dicts.d_at(b, k, d[0], d[1]), band(care, h)):
                    return False
            return True
        if a.op == 'map' and b.op == 'map':
            n, items, h = a.args
            n2, items2, h2 = b.args
            if len(items) != len(items2) or not self.eq(n, n2, care):
                return False
            k = self.newk()
            inr = band(care, lt0(psub(pvar(k), n))) if isinstance(n, Poly) else care
            for (c, v), (c2, v2) in zip(items, items2):
                c, v = subst((c, v), {bound_var(h): pvar(k)})
                c2, v2 = subst((c2, v2), {bound_var(h2): pvar(k)})
                if not self.eq(c, c2, inr) or not self.eq(v, v2, band(inr, c)):
                    return False
            return True
        if a.op == b.op and a.op in ('push', 'fill', 'cat', 'upd', 'slice') and len(a.args) == len(b.args):
            if all(self.eq(x, y, care) for x, y in zip(a.args, b.args)):
                return True
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ('map', 'umap', 'Mu', 'seq'):
            if all(self.eq(x, y, care) for x, y in zip(a.args, b.args)):
                return True
        return False

    def clear(self, d):
        """multiply out inverse atoms of a difference"""
        for _ in range(12):
            inv = {}
            for m in d.d:
                for a, e in m:
                    if aop(a) == 'inv' and e > 0:
                        inv[a] = max(inv.get(a, 0), e)
                    elif e < 0:
                        inv[a] = max(inv.get(a, 0), -e) if aop(a) != 'inv' else inv.get(a, 0)
            if not inv or len(d.d) > 60000 or time.time() > self.deadline:
                return d
            for a, e in inv.items():
                q = aargs(a)[0] if aop(a) == 'inv' else None
                groups = {}
                for m, c in d.d.items():
                    es = dict(m)
                    x = es.pop(a, 0)
                    groups.setdefault(x, {})[tuple(sorted(es.items()))] = c
                acc = {}
                for x, g in groups.items():
                    t = pmul(Poly(g), ppow(q, e - x)) if q is not None else pmul(Poly(g), ppow(pvar(a), x + e))
                    for m, c in t.d.items():
                        acc[m] = acc.get(m, 0) + c
                d = Poly({m: c for m, c in acc.items() if c})
        return d

    def poly(self, a, b, care):
        d = psub(a, b)
        if not d.d:
            return True
        if not theory.feasible(band(care, bnot(eq0(d)))):
            return True
        try:
            d2 = self.clear(d)
        except RecursionError:
            return False
        if not d2.d:
            return True
        return self.congr(d2, care)

    def congr(self, d, care):
        """unify atoms of the same operator with equal arguments"""
        ats = sorted(poly_atoms(d))
        by = {}
        for x in ats:
            by.setdefault((aop(x), aty(x), len(aargs(x))), []).append(x)
        m = {}
        for (op, ty, n), xs in by.items():
            if len(xs) < 2 or op in ('in', 'bv', 'k', 'undef'):
                continue
            reps = []
            for x in xs:
                for r in reps:
                    if self.atoms_eq(x, r, care):
                        m[x] = pvar(r)
                        break
                else:
                    reps.append(x)
        if not m:
            return False
        out = ZERO
        for mon, c in d.d.items():
            t = const(c)
            for x, e in mon:
                t = pmul(t, ppow(m.get(x, pvar(x)), e))
            out = padd(out, t)
        return not self.clear(out).d

    def atoms_eq(self, x, y, care):
        key = (x, y, care)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = False
            r = self.memo[key] = self._atoms_eq(x, y, care)
        return r

    def _atoms_eq(self, x, y, care):
        op = aop(x)
        a, b = aargs(x), aargs(y)
        if op != aop(y) or len(a) != len(b):
            return False
        if op in ('sum', 'any'):
            if len(a[0]) != len(b[0]):
                return False
            ks = [self.newk() for _ in a[0]]
            ba = subst(a[1], {bound_var(h): pvar(k) for h, k in zip(a[2], ks)})
            bb = subst(b[1], {bound_var(h): pvar(k) for h, k in zip(b[2], ks)})
            inr = care
            for p, q, k in zip(a[0], b[0], ks):
                if not self.eq(p, q, care):
                    return False
                if isinstance(p, Poly) and not bvs(p):
                    inr = band(inr, lt0(psub(pvar(k), p)))
            return self.eq(ba, bb, inr)
        if op in ('first', 'last'):
            k = self.newk()
            return self.eq(a[0], b[0], care) and self.eq(subst(a[1], {bound_var(a[2]): pvar(k)}), subst(b[1], {bound_var(b[2]): pvar(k)}),
                                                         band(care, lt0(psub(pvar(k), a[0]))))
        if op in ('foldmin', 'foldmax'):
            k = self.newk()
            return self.eq(a[0], b[0], care) and self.eq(a[1], b[1], care) and \
                self.eq(subst(a[2], {bound_var(a[3]): pvar(k)}), subst(b[2], {bound_var(b[3]): pvar(k)}), care)
        if op == 'Mu':
            return False
        for p, q in zip(a, b):
            if isinstance(p, (str, int, Fraction)) or p is None:
                if p != q:
                    return False
            elif not self.eq(p, q, care):
                return False
        return True

    def bool_congr(self, a, b, care):
        sa = sorted(BDD.support(a.n) | BDD.support(b.n))
        by = {}
        for x in sa:
            by.setdefault(aop(x), []).append(x)
        m = {}
        for op, xs in by.items():
            if len(xs) < 2:
                continue
            reps = []
            for x in xs:
                for r in reps:
                    if op in ('L', 'Z', 'lti'):
                        ok = self.eq(aargs(x)[0], aargs(r)[0], care)
                    else:
                        ok = self.atoms_eq(x, r, care)
                    if ok:
                        m[x] = B(BDD.var(r))
                        break
                else:
                    reps.append(x)
        if not m:
            return False
        from .values import _sub_bdd
        a2, b2 = self.ren(a.n, m, {}), self.ren(b.n, m, {})
        return not theory.feasible(band(care, bxor(a2, b2)))

    def ren(self, n, m, loc):
        if n < 2:
            return B(n)
        if n in loc:
            return loc[n]
        v, lo, hi = BDD.nodes[n]
        r = bite(m.get(v, B(BDD.var(v))), self.ren(hi, m, loc), self.ren(lo, m, loc))
        loc[n] = r
        return r


# ---------------------------------------------------------------- separation by random interpretation
def reach_atoms(vs):
    s = set()
    for v in vs:
        s |= all_atoms(v)
    return s


def implied(care, limit=6):
    """[(leaf, value)] equalities between integer or real leaves that hold wherever the care condition does"""
    out = []
    done = {}
    for _ in range(limit):
        found = None
        sup = sorted(BDD.support(care.n)) if care.n > 1 else []
        byp = {}
        for a in sup:
            if aop(a) in ('lti', 'Z', 'L') and isinstance(aargs(a)[0], Poly):
                byp.setdefault((aop(a), aargs(a)[0]), a)
        for (op, p), a in byp.items():
            if op == 'Z':
                ok = band(care, bnot(B(BDD.var(a)))).n == 0
            elif op == 'lti':
                b = byp.get(('lti', psub(p, ONE)))
                ok = b is not None and band(care, B(BDD.var(a))).n == 0 and band(care, bnot(B(BDD.var(b)))).n == 0
            else:
                continue
            if not ok or bvs(p):
                continue
            for x in sorted(poly_atoms(p), reverse=True):
                if aop(x) != 'val' or bvs(('atom', x)):
                    continue
                cs = [c for m, c in p.d.items() if dict(m).get(x)]
                if len(cs) != 1 or p.d.get(((x, 1),)) not in (1, -1):
                    continue
                rest = psub(p, pscale(pvar(x), p.d[((x, 1),)]))
                if x in all_atoms(rest):
                    continue
                found = (x, pscale(rest, -p.d[((x, 1),)]))
                break
            if found:
                break
        if not found:
            break
        out.append(found)
        care = subst(care, {found[0]: found[1]})
        if not isinstance(care, B) or care.n < 2:
            break
    return out


def meet(ev, eqs, ov):
    """overrides that make the implied equalities hold"""
    for x, v in reversed(eqs):
        try:
            o = ev.obj(aargs(x)[0], {})
            if hasattr(o, 'key'):
                k = ev.num(v, {})
                if not isinstance(k, float) and aty(x) != 'f':
                    if k.denominator != 1:
                        continue
                    k = int(k)
                ov[(o.key, aty(x) if aop(x) == 'val' else aop(x))] = k
                ev = Ev(ev.seed, ev.strings, ov, ev.mode)
        except (Skip, KeyError, OverflowError, ZeroDivisionError):
            continue
    return ov


INVERT = ('F32', 'sqrt', 'mod', 'idiv', 'abs')


def forcing(ev, atoms, rng, n):
    """overrides that put n comparisons on or next to their boundary"""
    out = {}
    for _ in range(n):
        a = rng.choice(atoms)
        p = aargs(a)[0]
        if not isinstance(p, Poly):
            continue
        env = {h: rng.randrange(3) for h in bvs(p)}
        reach(ev, p, env, rng, out)
    return out


def flip(ev, a, want, env, rng, out, depth=0):
    """override inputs so that the condition a has the wanted value"""
    op, args = aop(a), aargs(a)
    try:
        if op in ('L', 'Z', 'lti') and isinstance(args[0], Poly):
            if op == 'L':
                t = rng.choice([Fraction(-1, 3), -1, -5]) if want else rng.choice([0, 0, Fraction(1, 3), 1, 5])
            elif op == 'lti':
                t = rng.choice([-1, -1, -1, -2]) if want else rng.choice([0, 0, 0, 1])
            else:
                t = 0 if want else rng.choice([1, -1, 2])
            reach(ev, psub(args[0], const(t)), env, rng, out, 0, True)
        elif op == 'bval':
            o = ev.obj(args[0], env)
            if hasattr(o, 'key'):
                out[(('b', o.key), 'i')] = int(want)
        elif op == 'posdef':
            n, es = args
            if not want:
                reach(ev, psub(rng.choice([es[i * (i + 3) // 2] for i in range(n)]), const(-1)), env, rng, out, 0, True)
            else:                      # off-diagonal entries no larger than needed, dominated by the diagonal
                big = sum(abs(ev.num(x, env)) for x in es) + 1
                for i in range(n):
                    reach(ev, psub(es[i * (i + 3) // 2], const(Fraction(big))), env, rng, out, 0, True)
        elif op == 'any':
            doms, body, hs = args
            if not want or len(doms) != 1 or depth > 2:
                return
            n = ev.num(doms[0], env)
            if n < 1:
                reach(ev, psub(doms[0], const(rng.choice([1, 2, 3]))), env, rng, out, 0, True)
                return
            e2 = dict(env)
            e2[hs[0]] = rng.randrange(int(n))
            for x, w in path(ev, body.n, e2, rng):
                flip(ev, x, w, e2, rng, out, depth + 1)
        elif getattr(ev, 'a_' + op, None) is None and aty(a) == 'b' and op != 'undef':
            out[(('B', op, ev.key(args, env)), 'b')] = int(want)
    except (Skip, KeyError, OverflowError, ZeroDivisionError, Unsupported, TypeError):
        return


def path(ev, n, env, rng):
    """the conditions to change, with the values wanted, for the diagram n to hold: few changes, some randomness"""
    memo = {1: (0.0, None), 0: (float('inf'), None)}
    val, cost = {}, {}

    def go(n):
        r = memo.get(n)
        if r is not None:
            return r[0]
        v, lo, hi = BDD.nodes[n]
        if v not in val:
            try:
                val[v] = bool(ev.atom(v, env))
            except (Skip, KeyError, OverflowError, ZeroDivisionError, RecursionError):
                val[v] = None
            cost[v] = .7 + .6 * rng.random()
        h = go(hi) + (0 if val[v] is True else cost[v])
        l = go(lo) + (0 if val[v] is False else cost[v])
        memo[n] = (h, True) if h < l else (l, False)
        return memo[n][0]
    if go(n) == float('inf'):
        return []
    out = []
    while n > 1:
        v, lo, hi = BDD.nodes[n]
        w = memo[n][1]
        if val[v] is not w:
            out.append((v, w))
        n = hi if w else lo
    return out


def steer(new, n, ov, rng, rounds=6):
    """overrides that make the condition n hold, as far as inputs can be found that do"""
    for _ in range(rounds):
        ev = new(ov)
        todo = path(ev, n, E0, rng)
        if not todo:
            break
        out = {}
        for a, w in todo:
            flip(ev, a, w, E0, rng, out)
        if not out:
            break
        ov = dict(ov)
        ov.update(out)
    return ov


def apart(a, b, depth=0):
    """a condition under which the two values can differ, from their outermost choices"""
    if isinstance(a, B) and isinstance(b, B):
        return bxor(a, b)
    if (isinstance(a, G) or isinstance(b, G)) and len(cases(a)) * len(cases(b)) <= 400:
        out = FALSE
        for x, c in cases(a):
            for y, d in cases(b):
                if not (x is y or x == y):
                    out = bor(out, band(c, d))
        return out
    return TRUE


def bdd_size(n, limit):
    seen, st = set(), [n]
    while st and len(seen) <= limit:
        x = st.pop()
        if x > 1 and x not in seen:
            seen.add(x)
            v, lo, hi = BDD.nodes[x]
            st += (lo, hi)
    return len(seen)


def reach(ev, p, env, rng, out, depth=0, exact=False):
    """override one input so that p is (nearly) zero"""
    cands = []
    for x in poly_atoms(p):
        if (aop(x) in LEAFOPS or aop(x) in INVERT and isinstance(aargs(x)[0], Poly)) and all(dict(m).get(x, 0) in (0, 1) for m in p.d):
            cands.append(x)
    if not cands or depth > 4:
        return
    x = rng.choice(sorted(cands))
    try:
        c = r = Fraction(0)
        for m, k in p.d.items():
            es = dict(m)
            t = k
            for y, e in m:
                if y == x:
                    continue
                z = ev.atom(y, env)
                if z == 0 and e < 0:
                    raise Skip('')
                t = t * Fraction(z) ** e if not isinstance(z, float) else t * z ** e
            if x in es:
                c += t
            else:
                r += t
        if c == 0:
            return
        v = -r / c
        if isinstance(v, float):
            return
        ty = aty(x)
        op = aop(x)
        if not exact and (op not in INVERT or ty != 'f'):
            v = v + rng.choice([0, 0, 0, 1, -1] if ty != 'f' else [0, 0, 0, Fraction(1, 3), -Fraction(1, 3), 1, -1])
        if ty != 'f':
            if v.denominator != 1:
                v = Fraction(v.numerator // v.denominator)
            v = int(v)
            if op == 'u8' and not 0 <= v <= 255:
                return
            if op == 'uns' and v < 0:
                return
            if op == 'size' and not 0 <= v < 30:
                return
        if op in INVERT:
            q = aargs(x)[0]
            if op == 'sqrt':
                v = v * v
            elif op == 'abs':
                v = v * rng.choice([1, -1])
            elif op == 'mod':
                v = v + ev.num(aargs(x)[1], env) * rng.choice([0, 0, 1])
            elif op == 'idiv':
                v = v * ev.num(aargs(x)[1], env)
            if not isinstance(v, float):
                reach(ev, nsub(q, const(Fraction(v))), env, rng, out, depth + 1, exact)
        elif op == 'el':
            t, i, j = aargs(x)
            if not isinstance(i, int) or not isinstance(j, int):
                return
            o = ev.obj(t, env)
            if hasattr(o, 'key'):
                out[((o.key, i, j), ty)] = v
        else:
            o = ev.obj(aargs(x)[0], env)
            if hasattr(o, 'key'):
                out[(o.key, ty if op == 'val' else op)] = v
    except (Skip, KeyError, OverflowError, ZeroDivisionError, Unsupported):
        return


def separate(pairs, care, assume, seed, nsamp, tlimit, tol, eqs=()):
    """pairs: [(name, impl value, spec value)].  Returns (name, path, impl, spec, witness) or None; counts."""
    vs = [x for _, a, b in pairs for x in (a, b)] + [care, assume]
    atoms = reach_atoms(vs)
    strings = sorted({aargs(a)[1].s for a in atoms if aop(a) == 'streq'})
    cmps = sorted(a for a in atoms if aop(a) in ('L', 'Z', 'lti'))
    one = set()
    for _, x, y in pairs:
        one |= all_atoms(x) ^ all_atoms(y)
    diff = [a for a in cmps if a in one] or cmps
    rng = random.Random(seed)
    t0 = time.time()
    used = skipped = 0
    nd = NumDiff(tol)
    queue = []
    both = band(care, assume)
    goals = []
    for _, x, y in pairs[:60]:
        g = band(both, apart(x, y))
        if g.n > 1 and g not in goals and bdd_size(g.n, 4000) < 4000:
            goals.append(g)
    s = 0
    while s < nsamp or queue:
        if time.time() - t0 > tlimit:
            break
        if queue and (s >= nsamp or used % 2):
            # a neighbour of an accepted valuation: one undecided comparison put on its boundary
            mode, sd, ov0 = queue.pop()
            ov = dict(ov0)
            try:
                ov.update(forcing(Ev(sd, strings, dict(ov0), mode), diff if rng.random() < .4 else cmps, rng, 1))
            except (Skip, RecursionError):
                pass
            if ov == ov0:
                continue
            fresh = False
        else:
            mode = rng.randrange(8)
            sd = seed * 1000003 + s
            s += 1
            fresh = True
            ov = {}
            if cmps and rng.random() < .6:
                try:
                    ov = forcing(Ev(sd, strings, {}, mode), cmps if rng.random() < .4 else diff, rng, rng.choice([1, 1, 2, 3]))
                except (Skip, RecursionError):
                    ov = {}
            if goals and rng.random() < .5:
                try:
                    ov = steer(lambda o: Ev(sd, strings, o, mode), rng.choice(goals).n, ov, rng)
                except (Skip, RecursionError):
                    pass
            if eqs:
                ov = meet(Ev(sd, strings, ov, mode), eqs, ov)
        ev = Ev(sd, strings, ov, mode)
        try:
            if not ev.bool(assume) or not ev.bool(care):
                skipped += 1
                continue
        except (Skip, KeyError, RecursionError, OverflowError, ZeroDivisionError):
            skipped += 1
            continue
        ok = False
        for name, a, b in pairs:
            try:
                r = nd.cmp(ev, a, E0, b, E0)
            except (Skip, OverflowError, ZeroDivisionError, RecursionError):
                continue
            ok = True
            if r is not None and r != ('SKIP',) and nan_only(nd, a, b, lambda: Ev(sd, strings, ov, mode)):
                continue
            if r is not None and r != ('SKIP',):
                w = {}
                for k, x in ev.used.items():
                    w[keystr(k)] = show_val(x)
                return (name, r[0], show_val(r[1]), show_val(r[2]), w), used, skipped
        if ok:
            used += 1
            if diff and len(queue) < 2000:
                queue.extend([(mode, sd, ov)] * (12 if fresh else 2))
        else:
            skipped += 1
    return None, used, skipped


def nan_only(nd, a, b, new):
    """the difference comes from the implementation asking whether a value is finite which the reference only compares:
    comparisons with NaN are not represented, so such a valuation says nothing"""
    asked = []
    for x in (b, a):
        ev = new()
        ev.log = (set(), set())
        try:
            nd.cmp(ev, x, E0, x, E0)
        except (Skip, OverflowError, ZeroDivisionError, RecursionError):
            pass
        asked.append(ev.log)
    force = (asked[1][0] - asked[0][0]) & asked[0][1]
    if not force:
        return False
    ev = new()
    ev.finite_by_force = force
    try:
        r = nd.cmp(ev, a, E0, b, E0)
    except (Skip, OverflowError, ZeroDivisionError, RecursionError):
        return True
    return r is None or r == ('SKIP',)


def keystr(k):
    def f(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'fld':
                return '%s+%s' % (f(x[1]), x[2])
            if len(x) == 4 and x[0] == 'elem':
                return '%s[%s]' % (f(x[1]), f(x[2]))
            if len(x) == 2 and x[0] == 'in':
                return f(x[1])
            if len(x) == 2 and x[0] == 'size':
                return 'size(%s)' % f(x[1])
            if len(x) == 1:
                return f(x[0])
            return '(' + ','.join(f(y) for y in x) + ')'
        return str(x)
    if isinstance(k, tuple) and len(k) == 2 and k[1] in ('f', 'i', 'u8', 'uns', 'size', 'o', 'b'):
        return f(k[0])
    return f(k)


def viol(out, w, used):
    out.update(status='violation', output=w[0] + (' ' + w[1] if w[1] else ''), got=w[2], want=w[3], witness=w[4], samples=used)
    return out


def f32s(pairs):
    return any(aop(a) == 'F32' for a in reach_atoms([x for p in pairs for x in p[1:]]))


def weight(v):
    if isinstance(v, Poly):
        return len(v.d)
    if isinstance(v, G):
        return sum(weight(x) for x, c in v.cases)
    return 1


class SymLimit(BaseException):
    pass


def _sym(*a):
    raise SymLimit()


def bounded(f, limit):
    """run f; False when it takes more than the given time or too much memory"""
    old = signal.signal(signal.SIGALRM, _sym)
    rest = signal.setitimer(signal.ITIMER_REAL, limit, 3)
    t0 = time.time()
    ok = False
    try:
        f()
        ok = True
    except (SymLimit, MemoryError):
        pass
    finally:
        signal.signal(signal.SIGALRM, signal.SIG_IGN)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if rest[0]:
            signal.setitimer(signal.ITIMER_REAL, max(1, rest[0] - (time.time() - t0)), rest[1])
    return ok


def compare(P, fi, fs, name, opts):
    """-> dict(status, ...) status in proved / unseparated / violation / undecided"""
    out = {'name': name, 'obligations': 0}
    throw_only = name.startswith('throws_')
    try:
        names = [P.vars[p]['n'] or 'arg%d' % i for i, p in enumerate(P.bodies[fi]['p'])]
        S = run_fn(P, fs, names)
    except RecursionError as ex:
        raise RuntimeError('reference definition %s not analysable: recursion' % name)
    except (Unsupported, OutOfBounds) as ex:
        raise RuntimeError('reference definition %s not analysable: %s' % (name, ex))
    try:
        R = run_fn(P, fi, names)
    except OutOfBounds as ex:
        out.update(status='violation', where=str(ex), detail='access outside the bounds of its object: %s' % ex, witness={})
        return out
    except (Unsupported, RecursionError) as ex:
        out.update(status='undecided', why=str(ex)[:300])
        return out
    out['visited'] = sorted(R.I.visited)
    out['sites'] = R.I.sites
    assume = band(S.assume, R.assume)
    extra = {x for x in R.I.ext if x not in S.I.ext}
    if extra:
        out.update(status='undecided', why='calls without a model: ' + ', '.join(sorted(map(str, extra)))[:300])
        return out
    pairs0 = [('completes (no exception, no endless loop)', R.live, S.live)]
    oob = band(R.oob, bnot(S.oob))
    if oob.n:
        pairs0.append(('accesses stay within the bounds of their objects', bnot(oob), TRUE))
    pairs = []
    care = band(assume, band(R.live, S.live))
    if not throw_only and R.live.n and S.live.n:
        for (n, a), (n2, b) in zip(R.outs, S.outs):
            ea, eb = expand(R.I, n, a), expand(S.I, n2, b)
            for (x, u), (y, v) in zip(ea, eb):
                if u is None or v is None:
                    continue
                if isinstance(u, Mat) and isinstance(v, Mat) and (u.r, u.c) == (v.r, v.c) and u.r * u.c > 1:
                    pairs += [('%s(%d,%d)' % (x, i, j), u.at(i, j), v.at(i, j)) for i in range(u.r) for j in range(u.c)]
                else:
                    pairs.append((x, u, v))
    eqs = Eq(tlimit=opts.get('symlimit', 40))
    todo0, todo = [], []
    t0 = time.time()
    big = [p for p in pairs if not (p[1] is p[2]) and weight(p[1]) + weight(p[2]) > 2000]
    if big:
        # large graphs: look for a separating valuation before the expensive normalisation
        w, u, s = separate(big, care, assume, opts.get('seed', 1), 20, 6, opts.get('tol', 1e-9 if not f32s(big) else 2e-5))
        if w is not None:
            return viol(out, w, u)
    known, left = (), list(pairs0)

    def symbolic():
        nonlocal known, left
        while left:
            n, a, b = left[0]
            out['obligations'] += 1
            if not eqs.eq(a, b, assume):
                todo0.append((n, a, b))
            left = left[1:]
        known = implied(care)
        care2 = care
        for x, v in known:
            care2 = subst(care2, {x: v})
        rest = list(pairs)
        left = rest
        while left:
            n, a, b = left[0]
            out['obligations'] += 1
            eqs.budget = 3000
            try:
                if not eqs.eq(a, b, care):
                    done = False
                    if known and isinstance(care2, B) and care2.n:
                        a2, b2 = a, b
                        for x, v in known:
                            a2, b2 = subst((a2, b2), {x: v})
                        eqs.budget = 3000
                        done = eqs.eq(a2, b2, care2)
                    if not done:
                        todo.append((n, a, b))
            except Unsupported:
                todo.append((n, a, b))
            left = left[1:]
    if not bounded(symbolic, opts.get('symlimit', 40) * 1.25 + 10):
        # normalisation too expensive: everything not yet settled is left to the separation by values
        eqs.memo.clear()
        if left and left[0][0] in [n for n, _, _ in pairs0]:
            todo0 += left
            todo += pairs
        else:
            todo += left
    out['t_sym'] = time.time() - t0
    if not todo0 and not todo:
        # the normal forms agree; make sure the care set is not empty
        out.update(status='proved')
        return out
    tol = 2e-5 if f32s(todo + todo0) else 1e-9
    tot_u = tot_s = 0
    for lst, cr in ((todo0, TRUE), (todo, care)):
        if not lst:
            continue
        w, u, s = separate(lst, cr, assume, opts.get('seed', 1), opts.get('samples', 400), opts.get('tlimit', 25), opts.get('tol', tol), known if cr is not TRUE else ())
        tot_u += u
        tot_s += s
        if w is not None:
            return viol(out, w, tot_u)
    out.update(status='unseparated', samples=tot_u, skipped=tot_s, open=[n for n, _, _ in todo0 + todo][:12])
    return out
