"""Loop summaries: the body is analysed once with every loop-carried leaf replaced by an unknown; the resulting
recurrences are solved in closed form (counters, sums, any/all flags, appends, element-wise updates, last writes) or,
when coupled, kept as a canonical recurrence system."""
import itertools
from .terms import *
from .values import *
from . import values as V
from .values import Unsupported

for _n in ('muu', 'last'):
    NONNEG.add(_n)


# ------------------------------------------------------------------ leaves of a stored value
def leaf_items(I, loc, v, ty):
    """[(key, value, type)] flattening of a stored value"""
    if isinstance(v, Rec):
        lv = I.P.leaves(v.rt)
        if lv is None:
            raise Unsupported('record without layout in loop')
        out = []
        offs = dict(lv)
        for k, (x, t) in v.over:
            offs.setdefault(k, t)
        for o, t in sorted(offs.items()):
            x = rec_field(v, o, t)
            if isinstance(x, Mat):
                for i, el in enumerate(x.e):
                    out.append(((o, i), el, t))
            else:
                out.append(((o, None), x, t))
        return out
    if isinstance(v, Mat):
        return [((None, i), el, ty) for i, el in enumerate(v.e)]
    return [((None, None), v, ty)]


def set_leaf(I, v, key, x):
    o, i = key
    if o is None:
        if i is None:
            return x
        e = list(v.e)
        e[i] = x
        return Mat(v.r, v.c, e, v.kind)
    t = None
    for k, (y, tt) in v.over:
        if k == o:
            t = tt
    if t is None:
        t = dict(I.P.leaves(v.rt))[o]
    if i is None:
        return rec_with(v, o, t, x)
    m = rec_field(v, o, t)
    e = list(m.e)
    e[i] = x
    return rec_with(v, o, t, Mat(m.r, m.c, e, m.kind))


def same(a, b):
    return a is b or a == b


class Leaf:
    __slots__ = ('loc', 'key', 'init', 'ty', 'kind', 'mu', 'shape', 'form', 'upd', 'muatom')

    def __repr__(self):
        return 'Leaf(%s,%s)' % (self.loc, self.key)


def strip_pos(v):
    """(skeleton, index) for iterator/pointer values"""
    if isinstance(v, It):
        return ('it', v.ref, v.rev), v.idx
    if isinstance(v, Ptr) and isinstance(v.ref, Ref) and v.ref.path:
        p = v.ref.path
        if p[-1][0] == 'd0':
            return ('d', v.ref.loc, p[:-1]), ZERO
        if p[-1][0] == 'd':
            return ('d', v.ref.loc, p[:-1]), p[-1][1]
        if p[-1][0] == 'e':
            return ('e', v.ref.loc, p[:-1], p[-1][2]), p[-1][1]
    return None, None


def put_pos(sk, i):
    if sk[0] == 'it':
        return It(sk[1], i, sk[2])
    if sk[0] == 'd':
        return Ptr(Ref(sk[1], sk[2] + (('d', i),)))
    return Ptr(Ref(sk[1], sk[2] + (('e', i, sk[3]),)))


def mk_mu(I, lid, n, init, ty):
    """(kind, value, atom, shape)"""
    sk, idx = strip_pos(init)
    if sk is not None:
        a = atom('mu', lid, n, ty='i')
        return 'pos', put_pos(sk, pvar(a)), a, sk
    if isinstance(init, B):
        a = atom('mub', lid, n, ty='b')
        return 'b', B(BDD.var(a)), a, None
    if is_scalar(init):
        isint = None
        uns = False
        if ty is not None:
            k = I.P.kd(ty)
            if k[0] == 's':
                isint = k[1] == 'i'
                t = I.P.types[I.P.strip(ty)]
                uns = t['c'] == 'int' and not t.get('sg', True)
                if k[1] == 'b':
                    a = atom('mub', lid, n, ty='b')
                    return 'b', B(BDD.var(a)), a, None
            elif k[0] == 'mat':
                isint = k[4] == 'i'
        if isint is None:
            isint = all(is_int(x) for x, _ in cases(init))
        a = atom('muu' if uns else 'mu', lid, n, ty='i' if isint else 'f')
        return 'n', pvar(a), a, None
    if isinstance(init, T) or (isinstance(init, G) and all(isinstance(x, T) for x, _ in init.cases)) or isinstance(init, Str):
        a = atom('mut', lid, n, ty='o')
        MUT_INIT[term_of_atom(a)] = init
        return 't', term_of_atom(a), a, None
    raise Unsupported('loop-carried value %r' % (type(init).__name__,))


def value_of(leaf, x):
    """component of value x handled by the recurrence"""
    if leaf.kind == 'pos':
        sk, i = strip_pos(x)
        if sk != leaf.shape:
            raise Unsupported('iterator changes container in loop')
        return i
    if leaf.kind == 'b' and not isinstance(x, B):
        return tobool(x)
    if leaf.kind == 'n' and isinstance(x, B):
        return tonum(x)
    return x


def back(leaf, x):
    if leaf.kind == 'pos':
        return gmap(lambda i: put_pos(leaf.shape, i), x)
    return x


def run_once(I, s0, L, leaves, test, body, inc, head):
    """analyse one iteration; returns dict with continue condition, end store, exits"""
    I.store = dict(s0)
    for (loc, key), lf in leaves.items():
        I.store[loc] = set_leaf(I, I.store[loc], key, head[(loc, key)])
    start = dict(I.store)
    I.live = L
    fr = I.frames[-1]
    nr, nt = len(fr.rets), len(I.throws)
    pre_t = len(I.throws)
    c = test()
    if len(I.throws) != pre_t:
        raise Unsupported('loop condition may throw')
    afterc = dict(I.store)
    Lc = I.live
    I.live = band(Lc, c)
    exits = []
    if I.live.n:
        I.brk.append([])
        I.cont.append([])
        body()
        parts = [(I.live, I.store)] + I.cont.pop()
        for cc, st in I.brk.pop():
            exits.append(('brk', cc, st, None))
        parts = [(x, st) for x, st in parts if x.n]
        I.live = FALSE
        for x, _ in parts:
            I.live = bor(I.live, x)
        if parts:
            I.store = dict(I.merge_store(parts))
            inc()
    for cc, v, st in fr.rets[nr:]:
        exits.append(('ret', cc, st, v))
    for cc, ty, st in I.throws[nt:]:
        exits.append(('throw', cc, st, ty))
    del fr.rets[nr:]
    del I.throws[nt:]
    return {'c': c, 'head': afterc, 'start': start, 'end': I.store, 'live': I.live, 'exits': exits, 'Lc': Lc}


def _is_seq(v, mu):
    """v is mu with elements overwritten"""
    if isinstance(v, G):
        return all(_is_seq(x, mu) for x, _ in v.cases)
    while isinstance(v, T) and v.op in ('upd', 'umap'):
        v = v.args[0]
    return v == mu or v is mu


def symbolic_loop(I, test, body, inc):
    I.loopn += 1
    lid = I.loopn
    if I.loopn > 4000:
        raise Unsupported('too many loops')
    s0 = dict(I.store)
    L = I.live
    katom = atom('k', 'loop', lid, ty='i')
    k = pvar(katom)
    leaves = {}
    head = {}

    def grow(res, stores):
        new = False
        for st in stores:
            for loc, v0 in s0.items():
                v1 = st.get(loc)
                cur = res['start'].get(loc)
                if v1 is None or same(v1, cur):
                    continue
                ty = I.locty.get(loc)
                a = leaf_items(I, loc, cur, ty)
                b = dict((kk, x) for kk, x, _ in leaf_items(I, loc, v1, ty)) if type(v1) is type(cur) or isinstance(cur, (Poly, B, G, T, It, Ptr, Str)) else None
                if b is None:
                    raise Unsupported('loop changes the shape of %s' % (loc,))
                for kk, x, t in a:
                    y = b.get(kk)
                    if y is None:
                        raise Unsupported('loop changes the shape of %s' % (loc,))
                    if not same(x, y) and (loc, kk) not in leaves:
                        lf = Leaf()
                        lf.loc, lf.key, lf.ty = loc, kk, t
                        lf.init = x
                        lf.kind, lf.mu, lf.muatom, lf.shape = mk_mu(I, lid, len(leaves), x, t)
                        lf.form = None
                        leaves[(loc, kk)] = lf
                        head[(loc, kk)] = lf.mu
                        new = True
        # locations first touched inside the loop (lazily created objects / globals)
        for loc, v in res['end'].items():
            if loc not in s0 and loc[0] in ('obj', 'g'):
                base = I.store
                I.store = {}
                try:
                    s0[loc] = I.getloc(loc)
                finally:
                    I.store = base
                new = True
        return new
    for it in range(60):
        res = run_once(I, s0, L, leaves, test, body, inc, head)
        if not grow(res, [res['end'], res['head']]):
            break
    else:
        raise Unsupported('loop does not stabilise')

    # -------- sequences of invariant size
    changed = False
    for (loc, key), lf in list(leaves.items()):
        if lf.kind == 't' and isinstance(lf.mu, T) and res['live'].n:
            v = dict((kk, x) for kk, x, _ in leaf_items(I, loc, res['end'][loc], I.locty.get(loc)))[key]
            try:
                if seq_size(I_simplify(v, res['live'])) == seq_size(lf.mu) and _is_seq(v, lf.mu):
                    MUT_SIZE[lf.mu] = seq_size(lf.init)
                    changed = True
            except Unsupported:
                pass
    if changed:
        for it in range(30):
            res = run_once(I, s0, L, leaves, test, body, inc, head)
            if not grow(res, [res['end'], res['head']]):
                break

    # -------- induction variables: re-run with them in closed form
    def updates(res):
        u = {}
        for (loc, key), lf in leaves.items():
            if res['live'].n == 0:
                u[(loc, key)] = value_of(lf, lf.mu)
                continue
            v = dict((kk, x) for kk, x, _ in leaf_items(I, loc, res['end'][loc], I.locty.get(loc)))[key]
            u[(loc, key)] = value_of(lf, I_simplify(v, res['live']))
        return u
    upd = updates(res)
    muatoms = {lf.muatom: lk for lk, lf in leaves.items()}
    ind = {}
    for lk, lf in leaves.items():
        if lf.kind in ('n', 'pos'):
            d = nsub(upd[lk], pvar(lf.muatom))
            if isinstance(d, Poly) and not (all_atoms(d) & muatoms.keys()) and d.is_const():
                ini = value_of(lf, lf.init)
                ind[lk] = nadd(ini, nmul(k, d))
            elif isinstance(d, G) and lf.muatom in all_atoms(d):
                # unsigned wrap guard on a counter: accept the non-wrapping case if it is constant
                pass
    if ind:
        for lk in ind:
            head[lk] = back(leaves[lk], ind[lk])
        res = run_once(I, s0, L, leaves, test, body, inc, head)
        if grow(res, [res['end'], res['head']]):
            # newly discovered leaves: iterate again with the induction forms kept
            for it in range(30):
                res = run_once(I, s0, L, leaves, test, body, inc, head)
                if not grow(res, [res['end'], res['head']]):
                    break
            muatoms = {lf.muatom: lk for lk, lf in leaves.items()}
        upd = updates(res)
        for lk in ind:
            nxt = subst(ind[lk], {katom: nadd(k, ONE)})
            if not same(upd[lk], nxt):
                nx = value_of(leaves[lk], I_simplify(back(leaves[lk], nxt), res['live'])) if res['live'].n else nxt
                if not (same(upd[lk], nx) or I_simplify(nsub(upd[lk], nxt), res['live']) == ZERO):
                    raise Unsupported('counter recurrence')
            leaves[lk].form = ind[lk]

    C = res['c']
    if L.n > 1:
        C = B(BDD.constrain(C.n, L.n))
    # the condition as function of k (may involve unsolved mu)
    N, rest, incl = trip_count(I, C, katom, L)
    if N is None and C.n > 1:
        mus = {lf.muatom for lf in leaves.values()} | {katom}
        inv = [a for a in BDD.support(C.n) if not (all_atoms(('atom', a)) & mus) and 0 not in
               (band(L, B(BDD.var(a))).n, band(L, bnot(B(BDD.var(a)))).n)]
        if inv:
            raise V.LoopSplit(B(BDD.var(min(inv, key=BDD_pos))))
    if N is None and res['exits'] == [] and not rest_ok(rest):
        c0 = forever(C, katom, {lf.muatom for lf in leaves.values()})
        if c0 is None:
            raise Unsupported('loop bound')
        # once entered the loop never ends: only the executions that skip it go on
        I.store = dict(s0)
        I.live = band(L, bnot(c0))
        return
    rng = None
    if N is not None:
        rng = nlt(k, N) if incl is None else incl

    # -------- exits
    exits = list(res['exits'])
    if rest is not None and rest.n != 1:
        # leaving at the head because the other conjuncts fail
        exits.append(('brk', band(res['Lc'], bnot(rest)), res['head'], None))
    care = res['Lc'] if rng is None else band(res['Lc'], rng)

    def relax(c):
        """drop what is known inside the loop from a condition"""
        if c.n < 2:
            return c
        r = c
        if L.n > 1:
            r = B(BDD.constrain(r.n, L.n))
        if rng is not None and rng.n > 1:
            r = B(BDD.constrain(r.n, rng.n))
        return r
    exits = [(kind, relax(c), st, x) for kind, c, st, x in exits]
    exits = [e for e in exits if e[1].n]

    # -------- solve
    unsolved = [lk for lk in leaves if leaves[lk].form is None]
    sub = {}
    cont = relax(res['live'])
    if cont.n == 0:
        # never iterates twice: every iteration exits
        pass
    U = {}
    for lk in unsolved:
        x = upd[lk]
        if rng is not None and rng.n > 1:
            x = I_simplify(x, rng)
        if cont.n > 1:
            x = I_simplify(x, cont)
        U[lk] = x
    # sizes of sequences that only grow, in closed form
    szsub = {}
    for _ in range(3):
        more = False
        for lk in unsolved:
            lf = leaves[lk]
            if lf.kind != 't' or lf.ty is None or I.P.kd(lf.ty)[0] != 'seq' or not isinstance(lf.mu, T) or lf.mu in MUT_SIZE:
                continue
            sa = atom('size', lf.mu, ty='i')
            if sa in szsub:
                continue
            try:
                d = nsub(seq_size(U[lk]), pvar(sa))
                ini = seq_size(value_of(lf, lf.init))
            except (Unsupported, AttributeError):
                continue
            d = subst(d, szsub) if szsub else d
            if all_atoms(d) & muatoms.keys():
                continue
            h = atom('k', 'inner', katom, ty='i')
            szsub[sa] = nadd(ini, mk_sum(k, subst(d, {katom: pvar(h)}), h))
            more = True
        if not more:
            break
    if szsub:
        U = {lk: subst(x, szsub) for lk, x in U.items()}
    progress = True
    while progress and unsolved:
        progress = False
        for lk in list(unsolved):
            lf = leaves[lk]
            x = subst(U[lk], sub) if sub else U[lk]
            others = {leaves[o].muatom for o in unsolved if o != lk}
            f = solve(I, lf, x, katom, others, N)
            if f is not None:
                lf.form = f
                sub[lf.muatom] = f
                unsolved.remove(lk)
                progress = True
    if unsolved:
        solve_system(I, leaves, unsolved, {lk: subst(U[lk], sub) if sub else U[lk] for lk in unsolved}, katom, sub)

    full = {leaves[lk].muatom: leaves[lk].form for lk in leaves}

    def at(v, n):
        """value at iteration n (n scalar)"""
        v = subst(v, {a: f for a, f in full.items()})
        return subst_k(v, katom, n)

    def store_at(st, n):
        out = {}
        for loc in s0:
            v = st.get(loc, s0[loc])
            out[loc] = at(v, n)
        return out
    nomu = dict(s0)
    for lk, lf in leaves.items():
        loc, key = lk
        fv = back(lf, lf.form)
        nomu[loc] = set_leaf(I, nomu[loc], key, fv)

    def final(n):
        out = dict(s0)
        for lk, lf in leaves.items():
            loc, key = lk
            fv = back(lf, subst_k(lf.form, katom, n))
            out[loc] = set_leaf(I, out[loc], key, fv)
        return out
    E = FALSE
    for kind, c, st, x in exits:
        E = bor(E, c)
    E = subst(E, full)
    if not exits or E.n == 0:
        if N is None:
            raise Unsupported('loop bound')
        I.store = final(N)
        # side effects of evaluating the condition for the last time
        I.live = L
        return
    if N is None:
        N = sym('const', 'infinite')
    anyE = mk_any(N, E, katom)
    kst = first_index(N, E, katom)
    parts = []
    rem = band(L, anyE)
    exd = [(kind, subst(c, full), st, x) for kind, c, st, x in exits]
    fr = I.frames[-1]
    acc = rem
    outs = []
    for idx, (kind, c, st, x) in enumerate(exd):
        if c.n == 0:
            continue
        if len(exd) == 1:
            cc = acc
        else:
            cc = band(acc, subst_k(c, katom, kst))
            if idx == len(exd) - 1:
                cc = acc
            acc = band(acc, bnot(cc))
        if cc.n == 0:
            continue
        I.store = {}
        stx = store_at(st, kst)
        if kind == 'brk':
            parts.append((cc, stx))
        elif kind == 'ret':
            v = x
            if v is not None:
                v = at_value(I, v, at, kst, s0)
            fr.rets.append((cc, v, stx))
        else:
            I.throws.append((cc, x, stx))
    left = band(L, bnot(anyE))
    if left.n and not (isinstance(N, Poly) and N == sym('const', 'infinite')):
        parts.append((left, final(N)))
    I.live = FALSE
    for c, _ in parts:
        I.live = bor(I.live, c)
    if parts:
        I.store = dict(I.merge_store(parts))
    else:
        I.store = dict(s0)


def at_value(I, v, at, n, s0):
    def bad(x):
        if isinstance(x, Ref) and x.loc not in s0:
            raise Unsupported('reference to a loop-local escapes')
        if isinstance(x, (Ptr,)):
            if isinstance(x.ref, Ref):
                bad(x.ref)
    bad(v)
    return at(v, n)


def forever(C, katom, mus):
    """the condition under which a loop without exits never ends, if its condition stays true once it is"""
    if C.n < 2:
        return C if C.n == 1 else None
    sup = [a for a in BDD.support(C.n) if all_atoms(('atom', a)) & (mus | {katom})]
    for a in sup:
        if all_atoms(('atom', a)) & mus or aop(a) not in ('lti', 'L'):
            return None
        ab = linear_in(aargs(a)[0], katom)
        if ab is None or not ab[0]:
            return None
        # the atom [c*k + b < 0] can only turn true (c < 0) or false (c > 0) as k grows
        lit = B(BDD.var(a)) if ab[0] < 0 else bnot(B(BDD.var(a)))
        lo = B(BDD.constrain(C.n, bnot(lit).n))
        hi = B(BDD.constrain(C.n, lit.n))
        if band(lo, bnot(hi)).n:
            return None
    return subst_k(C, katom, ZERO)


def rest_ok(r):
    return False


def I_simplify(v, care):
    if care.n < 2:
        return v
    if isinstance(v, It):
        return It(v.ref, I_simplify(v.idx, care), v.rev)
    r = gsimplify_deep(v, care)
    return v if r is None else r


def subst_k(v, katom, n):
    if isinstance(n, G):
        out = None
        for x, c in n.cases:
            y = subst(v, {katom: x})
            out = y if out is None else vite(c, y, out)
        return out
    return subst(v, {katom: n})


def first_index(n, c, katom):
    return mk_first(n, c, katom)


# ------------------------------------------------------------------ trip count
def linear_in(p, katom):
    """(a, b) with p = a*k + b, a rational, b free of k; or None"""
    a = Fraction(0)
    b = {}
    for m, c in p.d.items():
        if m == ((katom, 1),):
            a = c
        elif any(katom in all_atoms(('atom', x)) for x, _ in m):
            return None
        else:
            b[m] = c
    return a, Poly(b)


def trip_count(I, C, katom, L):
    """(N, rest, range condition): loop continues while k < N and rest"""
    if C.n == 1:
        return None, TRUE, None
    sup = [a for a in BDD.support(C.n) if katom in all_atoms(('atom', a))]
    lits = []
    for a in sup:
        if aop(a) == 'lti':
            ab = linear_in(aargs(a)[0], katom)
            if ab is not None and ab[0]:
                lits.append((a, ab))
    # '!=' pattern: C = !(p-1<0 && !(p<0))
    for a, (ca, ba) in lits:
        for a2, (cb, bb) in lits:
            if a == a2 or ca != cb:
                continue
            d = psub(aargs(a)[0], aargs(a2)[0])     # p - (p-1) = 1 : a is [p<0], a2 is [p-1<0]
            if d != ONE:
                continue
            A, A2 = B(BDD.var(a)), B(BDD.var(a2))
            isz = band(A2, bnot(A))
            ne = bnot(isz)
            # C must imply ne, and restricted to ne give rest
            if band(C, isz).n == 0:
                r = B(BDD.constrain(C.n, ne.n))
                if a in BDD.support(r.n) or a2 in BDD.support(r.n):
                    r2 = B(BDD.constrain(band(C, bnot(A2)).n, bnot(A2).n))
                    continue
                p = aargs(a)[0]
                ca_, b_ = ca, ba
                if ca_ in (1, -1):
                    n = pscale(b_, -1 / ca_)
                    return n, r, nlt(pvar(katom), n)
    for a, (ca, ba) in sorted(lits, key=lambda t: -BDD_pos(t[0])):
        A = B(BDD.var(a))
        for pol in (True, False):
            lit = A if pol else bnot(A)
            if band(C, bnot(lit)).n:
                continue
            r = B(BDD.constrain(C.n, lit.n))
            if a in BDD.support(r.n):
                continue
            # literal: pol: ca*k+ba<0 ; else ca*k+ba>=0
            if pol and ca > 0:
                n = ceil_div(pneg(ba), ca)
            elif not pol and ca < 0:
                # |ca|*k <= ba  <=> k < floor(ba/|ca|)+1
                n = nadd(floor_div(ba, -ca), ONE)
            else:
                continue
            lo, hi = interval(n) if isinstance(n, Poly) else (None, None)
            if lo is None or lo < 0:
                neg = nlt(n, ZERO)
                if neg.n and band(neg, L).n and I.M.feasible(band(neg, L)):
                    n = vite(neg, ZERO, n)
                    n = I.simp(n)
            return n, r, lit
    return None, C, None


def BDD_pos(a):
    return 0


def ceil_div(p, c):
    if c == 1:
        return p
    q = pscale(p, 1 / c)
    if is_int(q):
        return q
    return pceil(q)


def floor_div(p, c):
    if c == 1:
        return p
    q = pscale(p, 1 / c)
    if is_int(q):
        return q
    return pfloor(q)


# ------------------------------------------------------------------ recurrences
def free_of(v, atoms):
    return not (all_atoms(v) & atoms)


def solve(I, lf, x, katom, others, N):
    """closed form of the leaf at the start of iteration k, as a term in katom, or None"""
    mu = lf.muatom
    k = pvar(katom)
    if not free_of(x, others):
        return None
    ini = value_of(lf, lf.init)
    if lf.kind in ('n', 'pos'):
        m = pvar(mu)
        if not (isinstance(x, Poly) or is_scalar(x)):
            return None
        if mu not in all_atoms(x):
            return last_write(ini, x, TRUE, katom)
        d = nsub(x, m)
        if mu not in all_atoms(d):
            h = atom('k', 'inner', katom, ty='i')
            return nadd(ini, mk_sum(k, subst(d, {katom: pvar(h)}), h))
        # conditional write: cases are mu or free of mu
        if isinstance(x, G):
            keep, wr, wc = FALSE, None, FALSE
            ok = True
            for v, c in x.cases:
                if mu in all_atoms(c):
                    ok = False
                    break
                if v == m:
                    keep = bor(keep, c)
                elif mu in all_atoms(v):
                    ok = False
                    break
                else:
                    wr = v if wr is None else vite(c, v, wr)
                    wc = bor(wc, c)
            if ok and wr is not None:
                return last_write(ini, wr, wc, katom)
            # running minimum / maximum
            if len(x.cases) == 2:
                f = [v for v, c in x.cases if v != m]
                if len(f) == 1 and mu not in all_atoms(f[0]):
                    f = f[0]
                    for nm, g in (('min', nmin(m, f)), ('max', nmax(m, f))):
                        if canon_ties(x) == g:
                            return fold(nm, ini, f, katom)
        return None
    if lf.kind == 'b':
        x1 = subst(x, {mu: TRUE})
        x0 = subst(x, {mu: FALSE})
        h = atom('k', 'inner', katom, ty='i')
        if x1 == x0:
            return last_write(ini, x1, TRUE, katom)
        if x1.n == 1:
            return bor(ini, mk_any(k, subst(x0, {katom: pvar(h)}), h))
        if x0.n == 0:
            return band(ini, bnot(mk_any(k, subst(bnot(x1), {katom: pvar(h)}), h)))
        # written on wc, kept otherwise
        keep = band(x1, bnot(x0))
        wc = bnot(keep)
        if band(band(x0, bnot(x1)), TRUE).n == 0:
            # value on wc is x0 (== x1 there)
            return last_write(ini, gsimplify(x0, wc), wc, katom)
        return None
    if lf.kind == 't':
        if mu not in all_atoms(x):
            return last_write(ini, x, TRUE, katom)
        return solve_seq(I, lf, ini, x, katom)
    return None


def fold(nm, ini, f, katom):
    """running min/max; canonical in the accumulated set"""
    h = atom('k', 'inner', katom, ty='i')
    return mk_fold(nm, ini, pvar(katom), subst(f, {katom: pvar(h)}), h)


def mk_fold(nm, i, n, body, kk):
    if isinstance(n, G) or isinstance(i, G):
        return gmap(lambda a, c: mk_fold(nm, a, c, body, kk), i, n)
    if n.is_const() and 0 <= n.const() <= 64:
        r = i
        for j in range(int(n.const())):
            y = subst(body, {kk: const(j)})
            r = nmin(r, y) if nm == 'min' else nmax(r, y)
        return r
    hh = 1 + maxbv((body, i, n))
    return sym('fold' + nm, i, n, subst(body, {kk: pvar(bound_var(hh))}), hh)


def _op_fold(nm):
    def op(ty, args, f):
        i, n, b, h = args
        with V._Open() as d:
            kk = atom('k', 'o%d' % d, ty='i')
            return mk_fold(nm, f(i), f(n), f(subst(b, {bound_var(h): pvar(kk)})), kk)
    return op


V.OPENERS['foldmin'] = _op_fold('min')
V.OPENERS['foldmax'] = _op_fold('max')


def last_write(ini, val, cond, katom):
    """value after k iterations when iteration j writes val(j) if cond(j)"""
    k = pvar(katom)
    h = atom('k', 'inner', katom, ty='i')
    if cond.n == 1:
        v = subst(val, {katom: nsub(k, ONE)})
        return vite(neq(k, ZERO), ini, v)
    c = subst(cond, {katom: pvar(h)})
    anyc = mk_any(k, c, h)
    if katom not in all_atoms(val):
        return vite(anyc, val, ini)
    lst = mk_last(k, c, h)
    return vite(anyc, subst_k(val, katom, lst), ini)


def mk_last(n, c, katom):
    katom, c = V.unbind(katom, c, avoid=n)
    if isinstance(n, G):
        return gmap(lambda x: mk_last(x, c, katom), n)
    if c.n == 1 or katom not in all_atoms(c):
        return nsub(n, ONE)
    if n.is_const() and 0 <= n.const() <= 64:
        r = ZERO
        for i in range(int(n.const())):
            r = vite(subst(c, {katom: const(i)}), const(i), r)
        return r
    h = 1 + maxbv((n, c))
    return sym('last', n, subst(c, {katom: pvar(bound_var(h))}), h, ty='i')


def _op_last(ty, args, f):
    n, c, h = args
    with V._Open() as d:
        kk = atom('k', 'o%d' % d, ty='i')
        return mk_last(f(n), f(subst(c, {bound_var(h): pvar(kk)})), kk)


V.OPENERS['last'] = _op_last


# ------------------------------------------------------------------ sequences
def peel(x, mu):
    """x built on term mu: list of (cond, op, args) or None"""
    if isinstance(x, G):
        out = []
        for v, c in x.cases:
            p = peel(v, mu)
            if p is None:
                return None
            out.append((c, p))
        # all cases
        flat = []
        for c, p in out:
            flat.append((c, p))
        return ('g', flat)
    if isinstance(x, T):
        if x.id == mu:
            return ('l', [])
        if x.op in ('push', 'upd'):
            p = peel(x.args[0], mu)
            if p is None:
                return None
            if p[0] == 'l':
                return ('l', p[1] + [(x.op,) + tuple(x.args[1:])])
            return ('g', [(c, ('l', q[1] + [(x.op,) + tuple(x.args[1:])])) for c, q in p[1]])
    return None


def solve_seq(I, lf, ini, x, katom):
    mu = lf.muatom
    mut = term_of_atom(mu)
    k = pvar(katom)
    p = peel(x, mu)
    if p is None:
        return None
    cs = [(TRUE, p)] if p[0] == 'l' else p[1]
    cs = [(c, q[1]) for c, q in cs]
    for c, ops in cs:
        if mu in all_atoms(c):
            # allow dependence on size only when sizes are invariant: handled below by substitution
            pass
    kinds = {op[0] for c, ops in cs for op in ops}
    h = atom('k', 'inner', katom, ty='i')
    sizeatom = atom('size', mut, ty='i')
    if kinds == {'push'}:
        lens = {len(ops) for c, ops in cs}
        szini = seq_size(ini)
        if len(cs) == 1 or len(lens) == 1:
            m = lens.pop()
            sz = nadd(szini, nmul(k, const(m)))
            cs2 = [(subst(c, {sizeatom: sz}), [subst(op[1], {sizeatom: sz}) for op in ops]) for c, ops in cs]
            items = []
            for j in range(m):
                v = None
                for c, vals in cs2:
                    v = vals[j] if v is None else vite(c, vals[j], v)
                items.append((TRUE, v))
        else:
            cs2 = [(c, [op[1] for op in ops]) for c, ops in cs]
            items = []
            # a single guarded append per case; several appends in one case keep order
            mx = max(len(v) for c, v in cs2)
            for j in range(mx):
                cond, v = FALSE, None
                for c, vals in cs2:
                    if len(vals) > j:
                        cond = bor(cond, c)
                        v = vals[j] if v is None else vite(c, vals[j], v)
                items.append((cond, v))
        if any(mu in all_atoms(c) or mu in all_atoms(v) for c, v in items):
            return None
        check_escape(items)
        inner = [(subst(c, {katom: pvar(h)}), subst(v, {katom: pvar(h)})) for c, v in items]
        return seq_cat(ini, seq_map(k, inner, h))
    if kinds == {'upd'}:
        # one element per iteration at index +-k + b
        idx = None
        val, wc = None, FALSE
        for c, ops in cs:
            if not ops:
                continue
            if len(ops) != 1:
                return None
            if idx is None:
                idx = ops[0][1]
            elif idx != ops[0][1]:
                return None
            val = ops[0][2] if val is None else vite(c, ops[0][2], val)
            wc = bor(wc, c)
        szini = seq_size(ini)
        idx = subst(idx, {sizeatom: szini})
        if not isinstance(idx, Poly):
            return None
        ab = linear_in(idx, katom)
        if ab is None or ab[0] not in (1, -1):
            return None
        s, b = ab
        ety = None
        kd = I.P.kd(lf.ty) if lf.ty is not None else ('?',)
        ety = I.P.strip(kd[1]) if kd[0] == 'seq' else None
        if kd[0] == 'dyn':
            r = kd[1] if isinstance(kd[1], int) and kd[1] > 0 else I.M.rows_of(ini)
            ety = I.M.col_type(r) if r else None
        if ety is None:
            return None
        # reads of the sequence inside the body at the written index see the initial element
        ref = term_of_elem(mut, idx, I, ety)
        val = subst(val, {sizeatom: szini})
        wc = subst(wc, {sizeatom: szini})
        e0 = elem_map(I, mut, ini, idx, val, wc)
        if e0 is None:
            return None
        val, wc = e0
        if wc.n != 1:
            val = vite(wc, val, seq_elem(ini, idx, ety))
        check_escape([(TRUE, val)])
        inner = subst(val, {katom: pvar(h)})
        return mk_umap(ini, k, b, int(s), inner, h, ety)
    return None


def check_escape(items):
    for c, v in items:
        st = [v]
        while st:
            y = st.pop()
            if isinstance(y, Ptr) and isinstance(y.ref, Ref) and y.ref.loc[0] not in ('obj', 'g', 'gc'):
                raise Unsupported('pointer stored in a sequence inside a loop')
            if isinstance(y, (Rec, Mat, G)):
                for ch in children(y):
                    if isinstance(ch, (Rec, Mat, G, Ptr)):
                        st.append(ch)


def term_of_elem(mut, idx, I, ety):
    return T('elem', mut, idx, I.P.tname(ety))


def elem_map(I, mut, ini, idx, val, wc):
    """replace reads elem(mu, idx) by elem(ini, idx); fail when other elements of mu are read"""
    m = {}
    for a in all_atoms(val) | all_atoms(wc):
        if aop(a) == 'elem' and aargs(a)[0] is mut:
            if aargs(a)[1] != idx:
                return None
            m[a] = T('elem', ini, idx, aargs(a)[2]) if isinstance(ini, T) else None
            if m[a] is None:
                return None
    if m:
        # rebuild with the initial sequence
        full = {mut.id: ini}
        val2 = subst(val, full)
        wc2 = subst(wc, full)
        val, wc = val2, wc2
    if mut.id in all_atoms(val) or mut.id in all_atoms(wc):
        return None
    return val, wc


def mk_umap(ini, n, b, s, val, katom, ety):
    """ini with element s*j+b replaced by val(j) for j < n"""
    if isinstance(n, G):
        return gmap(lambda x: mk_umap(ini, x, b, s, val, katom, ety), n)
    if isinstance(ini, G):
        return gmap(lambda x: mk_umap(x, n, b, s, val, katom, ety), ini)
    if s == -1:
        # j -> n-1-j  turns the descending order into an ascending one
        val = subst(val, {katom: psub(psub(n, ONE), pvar(katom))})
        b = nadd(b, nneg(psub(n, ONE)))
        s = 1
    if n.is_const() and 0 <= n.const() <= 64:
        r = ini
        for j in range(int(n.const())):
            r = seq_upd(r, nadd(b, const(j)), subst(val, {katom: const(j)}))
        return r
    if b is ZERO and seq_size(ini) == n:
        return seq_map(n, [(TRUE, val)], katom)
    h = 1 + maxbv((val,))
    return T('umap', ini, n, b, subst(val, {katom: pvar(bound_var(h))}), h, ety)


def _op_umap(ty, args, f):
    ini, n, b, val, h, ety = args
    with V._Open() as d:
        kk = atom('k', 'o%d' % d, ty='i')
        return mk_umap(f(ini), f(n), f(b), 1, f(subst(val, {bound_var(h): pvar(kk)})), kk, ety)


V.OPENERS['umap'] = _op_umap


# ------------------------------------------------------------------ coupled systems
_SYS = {}


def solve_system(I, leaves, unsolved, U, katom, sub):
    """keep coupled recurrences as one canonical system"""
    deps = {}
    at2 = {leaves[lk].muatom: lk for lk in unsolved}
    for lk in unsolved:
        deps[lk] = {at2[a] for a in all_atoms(U[lk]) & at2.keys()} | {lk}
    done = {}
    for lk in unsolved:
        clo = {lk}
        st = [lk]
        while st:
            for d in deps[st.pop()]:
                if d not in clo:
                    clo.add(d)
                    st.append(d)
        done[lk] = clo
    k = pvar(katom)
    for lk in unsolved:
        members = [x for x in unsolved if x in done[lk]]
        if len(members) > 5:
            raise Unsupported('large coupled recurrence')
        atoms_ = [leaves[x].muatom for x in members]
        lf = leaves[lk]
        lf.form = mk_system(atoms_, [U[x] for x in members], [value_of(leaves[x], leaves[x].init) for x in members],
                            katom, members.index(lk), k)


def mk_system(mus, ups, inis, katom, pos, n):
    """component pos, after n steps, of the recurrence mus := ups (step index katom) started at inis"""
    if isinstance(n, G):
        return gmap_any(lambda x: mk_system(mus, ups, inis, katom, pos, x), (n,))
    if n is ZERO:
        return inis[pos]
    hh = 1 + max([maxbv(x) for x in ups] + [maxbv(x) for x in inis] + [0])
    keys = []
    for perm in itertools.permutations(range(len(mus))):
        m = {katom: pvar(bound_var(hh))}
        for j, x in enumerate(perm):
            m[mus[x]] = mv(hh, j, mus[x])
        keys.append((perm, (tuple(subst(ups[x], m) for x in perm), tuple(inis[x] for x in perm), hh)))
    for perm, key in keys:
        if key in _SYS:
            canon, order = _SYS[key]
            break
    else:
        perm, key = keys[0]
        for perm2, key2 in keys:
            _SYS.setdefault(key2, (key, tuple(perm.index(x) for x in perm2)))
        canon, order = _SYS[key]
    p = order[perm.index(pos)]
    ty = aty(mus[pos])
    if ty == 'b':
        return bvar('Mu', canon[0], canon[1], canon[2], p, n)
    if ty == 'o':
        return T('Mu', canon[0], canon[1], canon[2], p, n)
    return sym('Mu', canon[0], canon[1], canon[2], p, n, ty=ty)


def mv(h, j, mu):
    ty = aty(mu)
    if ty == 'b':
        return bvar('mv', h, j)
    if ty == 'o':
        return T('mv', h, j)
    return sym('mv', h, j, ty=ty)


def _op_mu(ty, args, f):
    ups, ini, h, pos, n = args
    with V._Open() as d:
        kk = atom('k', 'o%d' % d, ty='i')
        m = {bound_var(h): pvar(kk)}
        mus = []
        for j in range(len(ups)):
            t = None
            for tt in ('b', 'o', 'i', 'f'):
                a = atom('mv', h, j, ty=tt)
                if any(a in all_atoms(u) for u in ups):
                    t = tt
                    b = atom('mo', d, j, ty=tt)
                    m[a] = V.default_atom(b)
                    mus.append(b)
                    break
            if t is None:
                x = ini[j]
                tt = 'b' if isinstance(x, B) else ('o' if isinstance(x, T) else ('i' if is_scalar(x) and all(is_int(y) for y, _ in cases(x)) else 'f'))
                mus.append(atom('mo', d, j, ty=tt))
        if aty(mus[pos]) != ty:
            mus[pos] = atom('mo', d, pos, ty=ty)
        nu = [f(subst(u, m)) for u in ups]
        return mk_system(mus, nu, [f(x) for x in ini], kk, pos, f(n))


V.OPENERS['Mu'] = _op_mu
