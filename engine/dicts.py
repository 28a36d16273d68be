"""Associative containers.

The value of a container is its initial value followed by the operations applied to it, kept as a sequence of operation terms, so
that operations in loops are summarised like appended elements:
  dset(key, value)   insert or overwrite        dins(key, value)   insert unless present
  dupd(key, value)   overwrite if present       ddel(key)          erase
Presence and content at a key are computed from it; two containers are equal if they agree at every key.
Entries are numbered in iteration order: dkey(m, i) is the key of entry i, rank(m, key) the number of the entry with a key."""
from .terms import *
from .values import *
from . import values as V
from .values import Unsupported

OPS = ('dset', 'dins', 'dupd', 'ddel')
STREQ = [None]
BIG = 1 << 40


def op_terms(x):
    return [(t, c) for t, c in cases(x)]


def is_op(x):
    return all(isinstance(t, T) and t.op in OPS for t, _ in cases(x))


def segs(s):
    """(initial container or None, [('op', op) | ('map', n, items, h)])"""
    if s.op == 'seq':
        return None, []
    if s.op == 'push' and is_op(s.args[1]):
        b, l = segs(s.args[0])
        return b, l + [('op', s.args[1])]
    if s.op == 'map' and all(is_op(v) for _, v in s.args[1]):
        return None, [('map',) + tuple(s.args)]
    if s.op == 'fill' and is_op(s.args[1]):
        return None, [('map', s.args[0], ((TRUE, s.args[1]),), 1 + maxbv(s.args[1]))]
    if s.op == 'cat':
        b, l = segs(s.args[0])
        for x in s.args[1:]:
            if isinstance(x, G):
                raise Unsupported('operations on a container under a condition')
            b2, l2 = segs(x)
            if b2 is not None:
                raise Unsupported('unknown operations on a container')
            l = l + l2
        return b, l
    return s, []


def plain(s):
    """no pending operations"""
    return isinstance(s, T) and s.op not in ('seq', 'push', 'cat', 'map', 'fill')


def is_dict(s):
    try:
        b, l = segs(s)
    except Unsupported:
        return False
    return bool(l)


def dinfo(s):
    """(kind, type of the values) of a container with operations, or None"""
    if isinstance(s, T) and s.op == 'Mu':         # changed in a loop without closed form
        for x, _ in cases(s.args[0][s.args[3]]):
            d = dinfo(x)
            if d is not None:
                return d
        return dinfo_any(s.args[1][s.args[3]])
    if not isinstance(s, T) or s.op not in ('push', 'cat', 'map', 'fill'):
        return None
    try:
        b, l = segs(s)
    except Unsupported:
        return None
    for x in l:
        for t, _ in (op_terms(x[1]) if x[0] == 'op' else [y for _, v in x[2] for y in op_terms(v)]):
            return t.args[2], t.args[3]
    return dinfo(b) if b is not None and b is not s else None


def dpush(m, op):
    """container after one more operation"""
    if isinstance(m, G):
        return over(m, lambda x: dpush(x, op))
    if isinstance(op, T) and op.op in ('dset', 'dupd') and m.op == 'push' and isinstance(m.args[1], T) and m.args[1].op in OPS:
        p = m.args[1]
        if p.args[0] == op.args[0]:
            if op.op == 'dset':
                return seq_push(m.args[0], op)
            if p.op in ('dset', 'dins'):
                return seq_push(m.args[0], T('dset', *op.args))
            if p.op == 'dupd':
                return seq_push(m.args[0], op)
            if p.op == 'ddel':
                return m
    return seq_push(m, op)


def dinfo_any(s):
    if isinstance(s, G):
        for x, _ in s.cases:
            d = dinfo(x)
            if d is not None:
                return d
        return None
    return dinfo(s)


def one(p):
    """the atom of a polynomial that is just an atom"""
    if isinstance(p, Poly) and len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def as_dkey(k):
    """(container, index) of a key read from an entry"""
    if isinstance(k, T):
        return (k.args[0], k.args[1]) if k.op == 'dkey' else None
    a = one(k)
    return tuple(aargs(a)[:2]) if a is not None and aop(a) == 'dkey' else None


def keq(a, b):
    if isinstance(a, G) or isinstance(b, G):
        r = FALSE
        for x, c in cases(a):
            for y, d in cases(b):
                r = bor(r, band(band(c, d), keq(x, y)))
        return r
    if isinstance(a, Poly) and isinstance(b, Poly):
        x, y = as_dkey(a), as_dkey(b)
        if x is not None and y is not None and x[0] == y[0]:
            return neq(x[1], y[1])
        return neq(a, b)
    x, y = as_dkey(a), as_dkey(b)
    if x is not None and y is not None and x[0] == y[0]:
        return neq(x[1], y[1])
    return STREQ[0](a, b)


def solve_index(key, k, katom):
    """e when key(katom) == k exactly for katom == e"""
    x, y = as_dkey(key), as_dkey(k)
    if x is not None and y is not None and x[0] == y[0] and katom not in all_atoms(x[0]):
        p = psub(x[1], y[1]) if isinstance(x[1], Poly) and isinstance(y[1], Poly) else None
    elif isinstance(key, Poly) and isinstance(k, Poly) and x is None:
        p = psub(key, k)
    else:
        return None
    if p is None:
        return None
    c = p.d.get(((katom, 1),))
    if c not in (1, -1):
        return None
    rest = psub(p, pscale(pvar(katom), c))
    if katom in all_atoms(rest):
        return None
    return pscale(rest, -c)


def any_at(n, cond, key, k, katom):
    """(there is an iteration with cond whose key is k, its number if it is the only one)"""
    e = solve_index(key, k, katom) if isinstance(key, (Poly, T)) and isinstance(k, (Poly, T)) else None
    if e is not None:
        return band(band(bnot(nlt(e, ZERO)), nlt(e, n)), subst(cond, {katom: e})), e
    return V.mk_any(n, band(cond, keq(key, k)), katom), None


def fresh_index():
    V._cnt[0] += 1
    return atom('k', 'd%d' % (V._cnt[0] % 1000), ty='i')


def over(x, f):
    """f on every case of a guarded container or key"""
    out = None
    for y, c in x.cases:
        z = f(y)
        out = z if out is None else vite(c, z, out)
    return out


def base_has(b, k, kind):
    d = as_dkey(k)
    if d is not None and d[0] == b:
        return TRUE
    return bvar('has', b, k, kind)


def d_has(s, k, kind):
    if isinstance(s, G):
        return over(s, lambda x: d_has(x, k, kind))
    if isinstance(k, G):
        return over(k, lambda x: d_has(s, x, kind))
    d = as_dkey(k)
    if d is not None and d[0] == s:
        return TRUE
    b, l = segs(s)
    r = FALSE if b is None else base_has(b, k, kind)
    for sg in l:
        if sg[0] == 'op':
            out = r
            for t, c in op_terms(sg[1]):
                if t.op in ('dset', 'dins'):
                    out = bite(c, bor(r, keq(t.args[0], k)), out)
                elif t.op == 'ddel':
                    out = bite(c, band(r, bnot(keq(t.args[0], k))), out)
            r = out
        else:
            n, items, h = sg[1:]
            q = fresh_index()
            kinds = {t.op for _, v in items for t, _ in op_terms(v)}
            if kinds <= {'dupd'}:
                continue
            if kinds <= {'dset', 'dins', 'dupd'} or kinds == {'ddel'}:
                for c, v in items:
                    for t, cc in op_terms(v):
                        if t.op == 'dupd':
                            continue
                        key, cond = subst((t.args[0], band(c, cc)), {bound_var(h): pvar(q)})
                        a, _ = any_at(n, cond, key, k, q)
                        r = bor(r, a) if 'ddel' not in kinds else band(r, bnot(a))
            else:
                raise Unsupported('insertions and removals in one loop')
    return r


def opkeys(s, acc):
    """the keys of the operations that are not in a loop"""
    for x, _ in cases(s):
        for sg in segs(x)[1]:
            if sg[0] == 'op':
                for t, _ in op_terms(sg[1]):
                    for k, _ in cases(t.args[0]):
                        if k not in acc:
                            acc.append(k)
    return acc


def tname(vt):
    return vt if isinstance(vt, str) else V.TYNAME(vt)


def typed(v, vt, k):
    """a stored value read as type vt"""
    if isinstance(v, G):
        return over(v, lambda x: typed(x, vt, k))
    if vt is not None and isinstance(v, T) and v.op == 'at':
        return V.SYMVAL(T('at', v.args[0], v.args[1], v.args[2], tname(vt)), vt)
    return v


def base_at(b, k, kind, vt):
    if vt is None:
        return T('at', b, k, kind, 'gtsam::Value')
    return V.SYMVAL(T('at', b, k, kind, tname(vt)), vt)


def d_at(s, k, kind, vt):
    if isinstance(s, G):
        return over(s, lambda x: d_at(x, k, kind, vt))
    if isinstance(k, G):
        return over(k, lambda x: d_at(s, x, kind, vt))
    b, l = segs(s)
    return _at(b, l, k, kind, vt)


def _at(b, l, k, kind, vt):
    if not l:
        if b is None:
            return base_at(T('undefobj', 'missing entry'), k, kind, vt)
        return base_at(b, k, kind, vt)
    sg = l[-1]

    def rest():
        return _at(b, l[:-1], k, kind, vt)

    def before():
        s = SEQ0 if b is None else b
        for x in l[:-1]:
            s = seq_push(s, x[1]) if x[0] == 'op' else seq_cat(s, T('map', *x[1:]))
        return d_has(s, k, kind)
    if sg[0] == 'op':
        out = None
        for t, c in op_terms(sg[1]):
            if t.op == 'ddel':
                v = rest()
            else:
                e = keq(t.args[0], k)
                if t.op == 'dins':
                    e = band(e, bnot(before()))
                v = typed(t.args[1], vt, k) if e.n == 1 else rest() if e.n == 0 else vite(e, typed(t.args[1], vt, k), rest())
            out = v if out is None else vite(c, v, out)
        return out
    n, items, h = sg[1:]
    if len(items) != 1 or len(op_terms(items[0][1])) != 1:
        if all(t.op == 'ddel' for _, v in items for t, _ in op_terms(v)):
            return rest()
        raise Unsupported('several operations on a container in one loop')
    c, t = items[0]
    if t.op == 'ddel':
        return rest()
    q = fresh_index()
    c, key, val = subst((c, t.args[0], t.args[1]), {bound_var(h): pvar(q)})
    a, e = any_at(n, c, key, k, q)
    if t.op == 'dins':
        a = band(a, bnot(before()))
    if a.n == 0:
        return rest()
    if e is None:
        from .loops import mk_last
        e = (V.mk_first if t.op == 'dins' else mk_last)(n, band(c, keq(key, k)), q)
    v = typed(subst(val, {q: e}), vt, k)
    return v if a.n == 1 else vite(a, v, rest())


def d_key(s, i, kind):
    """key of entry i"""
    if isinstance(s, G):
        return over(s, lambda x: d_key(x, i, kind))
    if isinstance(i, G):
        return over(i, lambda x: d_key(s, x, kind))
    a = one(i)
    if a is not None and aop(a) == 'rank' and aargs(a)[0] == s:
        return aargs(a)[1]
    return T('dkey', s, i, kind) if kind == 'str' else sym('dkey', s, i, kind, ty='i')


def d_rank(s, k, kind):
    if isinstance(s, G):
        return over(s, lambda x: d_rank(x, k, kind))
    if isinstance(k, G):
        return over(k, lambda x: d_rank(s, x, kind))
    d = as_dkey(k)
    if d is not None and d[0] == s:
        return d[1]
    return sym('rank', s, k, kind, ty='i')


def d_size(s, kind):
    if isinstance(s, G):
        return over(s, lambda x: d_size(x, kind))
    b, l = segs(s)
    if any(x[0] != 'op' for x in l):
        return sym('size', T('entries', s, kind), ty='i')
    r = ZERO if b is None else sym('size', T('entries', b, kind), ty='i')
    cur = SEQ0 if b is None else b
    for x in l:
        for t, c in op_terms(x[1]):
            h = d_has(cur, t.args[0], kind)
            if t.op in ('dset', 'dins'):
                r = nadd(r, tonum(band(c, bnot(h))))
            elif t.op == 'ddel':
                r = nsub(r, tonum(band(c, h)))
        cur = seq_push(cur, x[1])
    return r


def entries(s, kind):
    if isinstance(s, G):
        return over(s, lambda x: entries(x, kind))
    return T('entries', s, kind)


def d_bound(s, k, kind, strict):
    """number of the first entry whose key is above k (strict) or not below it"""
    if isinstance(s, G):
        return over(s, lambda x: d_bound(x, k, kind, strict))
    if kind == 'str':
        raise Unsupported('order of strings')
    n = d_size(s, kind)
    q = fresh_index()
    key = d_key(s, pvar(q), kind)
    return V.mk_first(n, nlt(k, key) if strict else bnot(nlt(key, k)), q)


V.REBUILD['has'] = lambda ty, s, k, kind: d_has(s, k, kind)
V.REBUILD['dkey'] = lambda ty, s, i, kind: d_key(s, i, kind)
V.REBUILD['rank'] = lambda ty, s, k, kind: d_rank(s, k, kind)
V.REBUILD['entries'] = lambda ty, s, kind: entries(s, kind)


def _re_at(ty, s, k, kind, tn):
    return d_at_name(s, k, kind, tn)


def d_at_name(s, k, kind, tn):
    """rebuild without a type at hand: initial content stays a term"""
    if isinstance(s, G):
        return over(s, lambda x: d_at_name(x, k, kind, tn))
    if isinstance(k, G):
        return over(k, lambda x: d_at_name(s, x, kind, tn))
    b, l = segs(s)
    if not l and b is not None:
        return T('at', b, k, kind, tn)
    return V._unval(_at(b, l, k, kind, None if tn == 'gtsam::Value' else tn))


V.REBUILD['at'] = _re_at
V.ENTRIES_SIZE = d_size
V.ENTRIES = entries
