"""Feasibility of conjunctions of comparison literals (Fourier-Motzkin over monomials, integer tightening).
feasible() may answer True for an infeasible condition; it never answers False for a feasible one."""
from .terms import *
from .terms import interval

_memo = {}
_cube_memo = {}
LIMIT = 3000


def bounds_of(m):
    p = Poly({m: Fraction(1)})
    return interval(p)


def lin_feasible(cons):
    """cons: list of (dict monomial->coef including (), strict) meaning sum <= 0 or < 0"""
    cons = [(dict(d), s) for d, s in cons]
    vars_ = set()
    for d, s in cons:
        vars_ |= {m for m in d if m != ()}
    for m in vars_:
        lo, hi = bounds_of(m)
        if lo is not None:
            cons.append(({m: Fraction(-1), (): lo}, False))
        if hi is not None:
            cons.append(({m: Fraction(1), (): -hi}, False))

    def norm(d):
        d = {m: c for m, c in d.items() if c}
        nz = [c for m, c in d.items() if m != ()]
        if nz:
            g = max(abs(c) for c in nz)
            d = {m: c / g for m, c in d.items()}
        return d
    while True:
        seen = {}
        for d, s in cons:
            d = norm(d)
            if not any(m != () for m in d):
                k = d.get((), 0)
                if k > 0 or (s and k >= 0):
                    return False
                continue
            key = tuple(sorted((m, c) for m, c in d.items() if m != ()))
            k = d.get((), Fraction(0))
            o = seen.get(key)
            if o is None or k > o[0] or (k == o[0] and s and not o[1]):
                seen[key] = (k, s)
        if not seen:
            return True
        if len(seen) > 400:
            return True
        cl = [(dict(key), k, s) for key, (k, s) in seen.items()]
        cnt = {}
        for d, k, s in cl:
            for m, c in d.items():
                p = cnt.setdefault(m, [0, 0])
                p[0 if c > 0 else 1] += 1
        v = min(cnt, key=lambda m: cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1])
        if cnt[v][0] * cnt[v][1] > 1500:
            return True
        pos = [(d, k, s) for d, k, s in cl if d.get(v, 0) > 0]
        neg = [(d, k, s) for d, k, s in cl if d.get(v, 0) < 0]
        rest = [(d, k, s) for d, k, s in cl if v not in d]
        cons = []
        for d, k, s in rest:
            d = dict(d)
            d[()] = k
            cons.append((d, s))
        for d1, k1, s1 in pos:
            for d2, k2, s2 in neg:
                a, b = 1 / d1[v], -1 / d2[v]
                d = {}
                for m, c in d1.items():
                    if m != v:
                        d[m] = d.get(m, 0) + a * c
                for m, c in d2.items():
                    if m != v:
                        d[m] = d.get(m, 0) + b * c
                d[()] = a * k1 + b * k2
                cons.append((d, s1 or s2))


def cube_feasible(cube):
    key = frozenset(cube)
    r = _cube_memo.get(key)
    if r is None:
        r = _cube_memo[key] = _cube_feasible(dict(cube))
    return r


def _cube_feasible(lits):
    cons = []
    L, Z = {}, {}
    streq = {}
    diseq = []
    has = {}
    for a, v in lits.items():
        op = aop(a)
        if op == 'lti':
            p = aargs(a)[0]
            if v:
                cons.append((dict(padd(p, ONE).d), False))
            else:
                cons.append((dict(pneg(p).d), False))
        elif op == 'L':
            L[aargs(a)[0]] = v
        elif op == 'Z':
            Z[aargs(a)[0]] = v
        elif op == 'streq' and v:
            x, s = aargs(a)
            if x in streq and streq[x] != s:
                return False
            streq[x] = s
        elif op == 'has':
            m, k, kind = aargs(a)
            for k2, v2 in has.setdefault((m, kind), []):
                if v2 != v and isinstance(k, Poly) and isinstance(k2, Poly):
                    diseq.append(psub(k, k2))
                elif v2 != v and any(aop(x) == 'strsame' and y and set(aargs(x)) == {k, k2} for x, y in lits.items()):
                    return False
            has[(m, kind)].append((k, v))
        elif op == 'nan' and v:
            f = atom('finite', *aargs(a), ty='b')
            if lits.get(f):
                return False
    for p in set(L) | set(Z):
        z, l = Z.get(p), L.get(p)
        if z:
            cons.append((dict(p.d), False))
            cons.append((dict(pneg(p).d), False))
        elif l is not None:
            q = p if l else pneg(p)
            cons.append((dict(q.d), z is False))
        elif z is False:
            diseq.append(p)
    # a sqrt that is zero/positive etc. is covered by its interval
    if not cons:
        return True
    if not _conn(cons):
        return False
    # disequalities: infeasible only if both strict sides are
    for p in diseq[:4]:
        if not _conn(cons + [(dict(p.d), True)]) and not _conn(cons + [(dict(pneg(p).d), True)]):
            return False
    return True


def _conn(cons):
    # connected components by shared monomials
    n = len(cons)
    par = list(range(n))

    def find(i):
        while par[i] != i:
            par[i] = par[par[i]]
            i = par[i]
        return i
    owner = {}
    for i, (d, s) in enumerate(cons):
        for m in d:
            if m != ():
                if m in owner:
                    par[find(i)] = find(owner[m])
                else:
                    owner[m] = i
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(cons[i])
    return all(lin_feasible(g) for g in groups.values())


def feasible(b):
    if b.n < 2:
        return b.n == 1
    r = _memo.get(b.n)
    if r is None:
        r = _memo[b.n] = _feasible(b.n)
    return r


def _feasible(n):
    """depth first with prefix pruning"""
    budget = [LIMIT]

    def go(x, path, dirty):
        if x == 0:
            return False
        if budget[0] <= 0:
            return True
        if x == 1:
            budget[0] -= 1
            return cube_feasible(path)
        v, lo, hi = BDD.nodes[x]
        if len(path) > 2 and dirty >= 3:
            budget[0] -= 1
            if not cube_feasible(path):
                return False
            dirty = 0
        d = dirty + (1 if aop(v) in ('lti', 'L', 'Z', 'streq', 'has') else 0)
        return go(hi, path + ((v, True),), d) or go(lo, path + ((v, False),), d)
    return go(n, (), 0)


def feasible_cubes(b, limit=200):
    """feasible cubes of a condition (pruned DFS)"""
    out = []

    def go(x, path):
        if x == 0 or len(out) >= limit:
            return
        if path and not cube_feasible(path):
            return
        if x == 1:
            out.append(path)
            return
        v, lo, hi = BDD.nodes[x]
        go(hi, path + ((v, True),))
        go(lo, path + ((v, False),))
    go(b.n, ())
    return out


def implied_false(b):
    return not feasible(b)
