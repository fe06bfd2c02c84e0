"""Normalises cardinalities and sums of comprehensions so that counts written differently compare."""
import itertools
from terms import *
import models

def equal(c, a, b):
    """True / False / None(unknown) for two numeric terms"""
    if a == b: return True
    try:
        x, y = norm_counts(c, a), norm_counts(c, b)
    except Undecided:
        return None
    if x == y: return True
    d = sub(x, y)
    if contains(d, lambda t: t[0] in ('csum', 'ccount', 'mbulk', 'sbulk', 'mcoll', 'scoll', 'vcoll', 'vext')): return None
    if d[0] == 'int': return d[1] == 0
    r = by_cases(c, d)
    if r is not False: return r
    if d[0] != 'lin' and d[0] not in ('cnt', 'card', 'sym'): return None
    # a remaining linear combination of independent counts is not zero in general
    if contains(d, lambda t: t[0] == 'cnt'): return False if only_base(d) else None
    return False

def by_cases(c, d):
    """counts of the same elements under different guards that cancel whichever guards hold: True;
    None when they cancel unless a value has none of the variants the guards name; False otherwise"""
    k, parts = lin_parts(d)
    vs = {t[1] for t in parts if t[0] == 'cnt'}
    if len(vs) == 1 and len(next(iter(vs))) == 1 and hasattr(c.dom, 'pair'):
        (v,), = vs                               # the degree of a node counts the ends of its edges
        for t in list(parts):
            if t[0] == 'card' and t[1][0] in ('nbrs', 'innbrs'):
                e = ('E',) + (c.dom.pair(t[1][1], v) if t[1][0] == 'nbrs' else c.dom.pair(v, t[1][1]))
                g = ('cnt', (v,), ((e, True),))
                parts[g] = parts.get(g, 0) + parts.pop(t)
    if k or len(parts) < 2 or any(t[0] != 'cnt' for t in parts): return False
    verdict = True
    for vs in {t[1] for t in parts}:
        P = {t: q for t, q in parts.items() if t[1] == vs}
        atoms = sorted({a for t in P for a, b in t[2]}, key=repr)
        if len(atoms) > 10: return False
        for bits in itertools.product((True, False), repeat=len(atoms)):
            val = dict(zip(atoms, bits))
            isv = {}
            for a, b in val.items():
                if a[0] == 'isv': isv.setdefault(a[1], []).append(b)
            if any(sum(x) > 1 for x in isv.values()): continue
            if any(len(x) > 1 and not any(x) and t[0] in ('elab', 'nlab', 'elb', 'nlb') for t, x in isv.items()): continue
            if sum(q for t, q in P.items() if all(val[a] == b for a, b in t[2])):
                if any(len(x) > 1 and not any(x) for x in isv.values()): verdict = None
                else: return False
    return verdict

def only_base(d):
    return all(t[0] in ('cnt', 'card', 'sym', 'slen', 'len') for t in lin_parts(d)[1])

def norm_counts(c, t):
    t = c.norm(t)
    k, parts = lin_parts(t)
    out = I(k)
    for x, q in parts.items():
        out = add(out, mul(count(c, x), I(q)))
    return c.norm(out)

def count(c, x):
    if x[0] == 'csum': return sum_alts(c, x[1][1], None)
    if x[0] == 'ccount': return sum_alts(c, x[1][1], I(1))
    if x[0] == 'card':
        h = getattr(c.dom, 'card_comp', None)
        if h:
            comp = h(x[1], c)
            if comp is not None: return sum_alts(c, comp[1], I(1))
    return x

def sum_alts(c, alts, one):
    tot = I(0)
    # merge alternatives that only differ in one complementary guard
    alts = [(vs, frozenset(gs), one if one is not None else p) for vs, gs, p in alts]
    for vs, gs, p in merge(alts):
        if p[0] != 'int': raise Undecided('weighted sum')
        tot = add(tot, mul(cnt(c, vs, gs), p))
    return tot

def merge(alts):
    alts = list(alts)
    ch = True
    while ch:
        ch = False
        for i in range(len(alts)):
            for j in range(i + 1, len(alts)):
                a, b = alts[i], alts[j]
                if a[0] == b[0] and a[2] == b[2]:
                    da, db = a[1] - b[1], b[1] - a[1]
                    if len(da) == 1 and len(db) == 1:
                        (x, p), = da; (y, q), = db
                        if x == y and p != q:
                            alts[i] = (a[0], a[1] & b[1], a[2]); del alts[j]; ch = True; break
            if ch: break
    return alts

def cnt(c, vs, gs):
    """number of assignments of vs that satisfy the guards"""
    vs = set(vs)
    gs = set(gs)
    # constant guards
    for g in list(gs):
        if not contains(g[0], lambda t: t in vs):
            if c.decide_guard(g[0]) != g[1]: return I(0)
            gs.discard(g)
    if len(vs) == 1:
        (v,) = vs
        if len(gs) == 1:                 # positions below a bound
            ((g, b),) = gs
            if b and g[0] == 'lt' and g[1] == v and not contains(g[2], lambda t: t == v): return g[2]
        for a, b in list(gs):
            if a[0] == 'eq' and (a[1] == v or a[2] == v):
                k = a[2] if a[1] == v else a[1]
                if contains(k, lambda t: t == v): continue
                rest = gs - {(a, b)}
                at_k = I(1)
                for a2, b2 in rest:
                    if c.decide_guard(replace(a2, {v: k})) != b2: at_k = I(0); break
                if b: return at_k
                return sub(cnt(c, vs, rest), at_k)
    h = getattr(c.dom, 'cnt', None)
    if h:
        r = h(vs, gs, c)
        if r is not None: return r
    return ('cnt', tuple(sorted(vs)), tuple(sorted(gs, key=repr)))
