"""Abstract semantics of the library functions the crate calls (std collections, iterators, Option,...)."""
from terms import *
from core import Ctx, LoopSummary, unify_ty
from facts import subst

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

ITER = 'core::iter::traits::iterator::Iterator::'
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'
INCL = 'core::ops::range::RangeInclusive'

def opt(c, v):
    """decides whether an Option-like value is Some; returns (True,payload) or (False,None)"""
    v = c.norm(v)
    if v[0] == 'adt': return (v[2] == 1, v[3][0] if v[3] else None)
    if c.isvar(v, 1): return True, c.norm(('vf', v, 1, 0))
    c.assume(('isv', v, 0), True)
    return False, None

def target(c, r):
    """place behind a (possibly nested) reference"""
    pl = c.derefpl(r)
    n = 0
    while n < 8:
        try: v = c.read(pl)
        except Undecided: return pl
        if v[0] in ('ref', 'rv'): pl = c.derefpl(v)
        else: break
        n += 1
    return pl

def refto(c, pl, step):
    loc, path = pl
    if isinstance(loc, tuple): return ('rv', c.read((loc, path + (step,))))
    return ('ref', loc, path + (step,))

# ---------------------------------------------------------------- maps and sets
OBJMAPS = {}     # kind of logged object -> (has, val, ins, rem)
def map_has(c, m, k):
    m = c.norm(m)
    if m[0] == 'obj' and m[1] in OBJMAPS: return OBJMAPS[m[1]][0](c, m[2], k)
    while True:
        o = m[0]
        if o == 'mempty': return False
        if o == 'mins':
            if c.eq(m[2], k): return True
            m = c.norm(m[1]); continue
        if o == 'mrem':
            if c.eq(m[2], k): return False
            m = c.norm(m[1]); continue
        if o == 'mcoll': return comp_find(c, m[1], k, lambda p: p[1][0] if p[0] == 'tup' and m[2] == 'kv' else p) is not None
        if o == 'mbulk': 
            r = bulk_find(c, m, k)
            if r is None: m = c.norm(m[1]); continue
            return r[0]
        if o in ('lv', 'lvmid'):
            return lv_read(c, m, 'has', k)
        if o == 'lvout': raise Undecided('map after an unsummarised loop')
        return c.decide(('in', m, k))

def map_val(c, m, k):
    m = c.norm(m)
    if m[0] == 'obj' and m[1] in OBJMAPS: return OBJMAPS[m[1]][1](c, m[2], k)
    while True:
        o = m[0]
        if o == 'mins':
            if c.eq(m[2], k): return m[3]
            m = c.norm(m[1]); continue
        if o == 'mrem':
            if c.eq(m[2], k): raise Infeasible()
            m = c.norm(m[1]); continue
        if o == 'mempty': raise Infeasible()
        if o == 'mcoll':
            r = comp_find(c, m[1], k, lambda p: p[1][0] if m[2] == 'kv' else p)
            if r is None: raise Infeasible()
            return r[1][1] if m[2] == 'kv' else UNIT
        if o == 'mbulk':
            r = bulk_find(c, m, k)
            if r is None: m = c.norm(m[1]); continue
            if not r[0]: raise Infeasible()
            return r[1]
        if o in ('lv', 'lvmid'):
            return lv_read(c, m, 'val', k)
        if o == 'lvout': raise Undecided('map after an unsummarised loop')
        return c.norm(('mval', m, k))

def map_card(c, m):
    m = c.norm(m); d = I(0)
    while True:
        o = m[0]
        if o == 'mempty': return d
        if o == 'mins':
            if not map_has(c, m[1], m[2]): d = add(d, I(1))
            m = c.norm(m[1]); continue
        if o == 'mrem':
            if map_has(c, m[1], m[2]): d = sub(d, I(1))
            m = c.norm(m[1]); continue
        if o == 'mcoll': return add(d, ('card', m))
        if o in ('lv', 'lvmid', 'lvout', 'mbulk'): 
            if o == 'lv': lv_note(c, m, 'card', None)
            return add(d, ('card', m))
        return add(d, c.norm(('card', m)))

def map_ins(c, m, k, v):
    m = c.norm(m)
    if m[0] == 'obj' and m[1] in OBJMAPS: OBJMAPS[m[1]][2](c, m[2], k, v); return m
    if m[0] == 'mins' and c.norm(m[2]) == c.norm(k): m = m[1]
    return ('mins', m, k, v)

def map_rem(c, m, k):
    m = c.norm(m)
    if m[0] == 'obj' and m[1] in OBJMAPS: OBJMAPS[m[1]][3](c, m[2], k); return m
    if m[0] == 'mins' and c.norm(m[2]) == c.norm(k): m = m[1]
    if m[0] == 'mempty': return m
    return ('mrem', m, k)

def lv_note(c, m, what, k):
    """read of a loop-modified container: remembered for the independence check"""
    c.ops.append(('lvread', m[:6], what, k))
def lv_read(c, m, what, k):
    lv_note(c, m, what, k)
    init = m[6]
    if m[0] == 'lvmid': raise Undecided('container read in the middle of a loop')
    return map_has(c, init, k) if what == 'has' else map_val(c, init, k)

Ctx.models_proj['mk'] = lambda c, v, st: map_val(c, v, st[1])
Ctx.models_upd['mk'] = lambda c, v, st, f: map_ins(c, v, st[1], f(map_val(c, v, st[1])))
def _entry_upd(c, v, st, f): return f(v)

# ---------------------------------------------------------------- vectors / slices
def ccount(c, comp):
    """number of elements of a sequence given as a comprehension"""
    if len(comp[1]) == 1 and len(comp[1][0][0]) == 1:
        (v,), gs, _ = comp[1][0]
        if len(gs) == 1 and gs[0][1] is True and gs[0][0][0] == 'lt' and gs[0][0][1] == v and gs[0][0][2][0] in ('len', 'slen') and not contains(gs[0][0][2], lambda t: t == v):
            return gs[0][0][2]          # one element per index of another sequence
    return c.norm(('ccount', comp))

def vlen(c, v):
    v = c.norm(v); d = I(0)
    while True:
        o = v[0]
        if o == 'arr': return add(d, I(len(v[1])))
        if o == 'bytes8': return add(d, I(len(v[1][1].encode())) if v[1][0] == 'str' else c.norm(('slen8', v[1])))
        if o == 'vpush': d = add(d, I(1)); v = c.norm(v[1]); continue
        if o == 'vset': v = c.norm(v[1]); continue
        if o == 'vslice': return add(d, sub(v[3], v[2]))
        if o == 'vcoll': return add(d, ccount(c, v[1]) if v[2] != 'dedup' else c.norm(('ccount', v[1])))
        if o == 'vext': d = add(d, c.norm(('ccount', v[2]))); v = c.norm(v[1]); continue
        if o == 'vpop': d = sub(d, I(1)); v = c.norm(v[1]); continue
        if o == 'str': return I(len(v[1]))
        if o == 'rawslice': return add(d, v[3])
        if o == 'mmfile': return add(d, c.norm(('fsize', v[1])))
        if o == 'mmanon': return add(d, v[1])
        if o == 'rv': v = c.norm(v[1]); continue
        if o == 'ref': v = c.strip(v); continue
        return add(d, c.norm(('len', v)))

def vget(c, v, i):
    v = c.norm(v); i = c.norm(i)
    while True:
        o = v[0]
        if o == 'bytes8' and i[0] == 'int':
            if v[1][0] == 'str' and i[1] < len(v[1][1].encode()): return I(v[1][1].encode()[i[1]])
            if v[1][0] == 'sym' and i[1] == 0: return ('byte0', v[1])
        if o == 'arr':
            if i[0] == 'int':
                if 0 <= i[1] < len(v[1]): return v[1][i[1]]
                raise Infeasible()
            for j, x in enumerate(v[1]):
                if c.eq(i, I(j)): return x
            raise Infeasible()
        if o == 'vpush':
            if c.eq(i, vlen(c, v[1])): return v[2]
            v = c.norm(v[1]); continue
        if o == 'vset':
            if c.eq(i, v[2]): return v[3]
            v = c.norm(v[1]); continue
        if o == 'vslice': i = c.norm(add(v[2], i)); v = c.norm(v[1]); continue
        if o == 'vpop': v = c.norm(v[1]); continue
        if o == 'vext':
            if c.lt(i, vlen(c, v[1])): v = c.norm(v[1]); continue
            return c.norm(('vget', ('vcoll', v[2], 'seq'), sub(i, vlen(c, v[1]))))
        if o in ('rv', 'ref'): v = c.strip(v); continue
        return c.norm(('vget', v, i))

Ctx.models_proj['ix'] = lambda c, v, st: vget(c, v, st[1])
def _ixupd(c, v, st, f):
    old = vget(c, v, st[1])
    return ('vset', v, st[1], f(old))
Ctx.models_upd['ix'] = _ixupd

def vslice(c, v, lo, hi):
    v = c.norm(v)
    while v[0] in ('rv', 'ref'): v = c.strip(v)
    if v[0] == 'vslice': return vslice(c, v[1], add(v[2], lo), add(v[2], hi))
    if c.norm(lo) == I(0) and c.norm(hi) == c.norm(vlen(c, v)): return v
    return c.norm(('vslice', v, lo, hi))

# ---------------------------------------------------------------- ordered sets (IndexSet)
def slen(c, s):
    s = c.norm(s); d = I(0)
    while True:
        if s[0] == 'sempty': return d
        if s[0] == 'sadd': d = add(d, I(1)); s = c.norm(s[1]); continue
        if s[0] == 'spop': d = sub(d, I(1)); s = c.norm(s[1]); continue
        return add(d, c.norm(('slen', s)))
def shas(c, s, x):
    s = c.norm(s)
    while True:
        if s[0] == 'sempty': return False
        if s[0] == 'sadd':
            if c.eq(s[2], x): return True
            s = c.norm(s[1]); continue
        if s[0] == 'spop':
            if not shas(c, s[1], x): return False
            return not c.eq(sidx(c, s[1], x), slen(c, s))
        if s[0] == 'scoll': return comp_find(c, s[1], x, lambda p: p) is not None
        return c.decide(('in', s, x))
def sidx(c, s, x):
    s = c.norm(s)
    while True:
        if s[0] == 'sempty': raise Infeasible()
        if s[0] == 'sadd':
            if c.eq(s[2], x): return slen(c, s[1])
            s = c.norm(s[1]); continue
        if s[0] == 'spop': s = c.norm(s[1]); continue
        return c.norm(('sidx', s, x))
def sget(c, s, i):
    s = c.norm(s)
    while True:
        if s[0] == 'sempty': raise Infeasible()
        if s[0] == 'sadd':
            if c.eq(i, slen(c, s[1])): return s[2]
            s = c.norm(s[1]); continue
        if s[0] == 'spop': s = c.norm(s[1]); continue
        return c.norm(('sget', s, i))
def sadd(c, s, x):
    if shas(c, s, x): return c.norm(s)
    return ('sadd', c.norm(s), x)
Ctx.models_proj['sx'] = lambda c, v, st: sget(c, v, st[1])

# ---------------------------------------------------------------- comprehensions
def bound_depth(t):
    m = -1
    for s in subterms(t):
        if s[0] == 'sym' and s[1].startswith('b%'): m = max(m, int(s[1][2:]))
    return m

def mk_comp(alts):
    """alts: [(vars, guards, payload)] with fresh variables; alpha-normalised"""
    out = []
    for vs, gs, p in alts:
        base = 1 + max([bound_depth(p)] + [bound_depth(g) for g in gs] + [bound_depth(v) for v in vs])
        ren = {v: ('sym', 'b%%%d' % (base + i)) for i, v in enumerate(vs)}
        out.append((tuple(ren[v] for v in vs), tuple((replace(a, ren), b) for a, b in gs), replace(p, ren)))
    out.sort(key=repr)
    return ('comp', tuple(out))

def inst(c, alt, sub_=None):
    """instantiate an alternative with fresh variables (except those given)"""
    vs, gs, p = alt
    m = dict(sub_ or {})
    for v in vs:
        if v not in m: m[v] = c.fresh(); c.gens.append(m[v])
    return m

def assume_guards(c, gs, m):
    for a, b in gs:
        a = replace(a, m)
        if c.decide_guard(a) != b: raise Infeasible()

def decide_guard(self, a):
    """truth of a guard atom after substitution: containers may have become concrete"""
    a = self.norm(a)
    if a[0] == 'not': return not self.decide_guard(a[1])
    if a[0] == 'in':
        if a[1][0] in ('mempty', 'mins', 'mrem', 'mcoll', 'mbulk'): return map_has(self, a[1], a[2])
        if a[1][0] in ('sempty', 'sadd', 'spop', 'scoll'): return shas(self, a[1], a[2])
    if a[0] == 'eq': return self.eq(a[1], a[2])
    if a[0] == 'lt': return self.lt(a[1], a[2])
    if a[0] == 'isv': return self.isvar(a[1], a[2])
    return self.decide(a)
Ctx.decide_guard = decide_guard

def unify(c, pat, tgt, vs, m, eqs):
    """match a pattern with variables vs against a term; collects remaining equations"""
    pat = c.norm(pat); tgt = c.norm(tgt)
    if pat in vs:
        if pat in m: eqs.append((m[pat], tgt))
        else: m[pat] = tgt
        return True
    if not contains(pat, lambda t: t in vs):
        eqs.append((pat, tgt)); return True
    if pat[0] == 'tup' and tgt[0] == 'tup' and len(pat[1]) == len(tgt[1]):
        return all(unify(c, a, b, vs, m, eqs) for a, b in zip(pat[1], tgt[1]))
    if pat[0] == 'adt' and tgt[0] == 'adt':
        if pat[1] != tgt[1] or pat[2] != tgt[2]: return False
        return all(unify(c, a, b, vs, m, eqs) for a, b in zip(pat[3], tgt[3]))
    if pat[0] == 'idnew': return unify(c, pat[1], ('idid', tgt), vs, m, eqs)
    if pat[0] == 'idid': return unify(c, pat[1], ('idnew', tgt), vs, m, eqs)
    if pat[0] == 'bpos' and tgt[0] == 'bpos' and pat[1] == tgt[1]: return unify(c, pat[2], tgt[2], vs, m, eqs)
    if pat[0] == 'rv': return unify(c, pat[1], tgt[1] if tgt[0] == 'rv' else c.strip(tgt), vs, m, eqs)
    if pat[0] == 'vget' and pat[2] in vs and pat[2] not in m and not contains(pat[1], lambda t: t in vs):
        m[pat[2]] = ('pos', pat[1], tgt); eqs.append(('in', pat[1], tgt)); return True
    if pat[0] == 'sget' and pat[2] in vs and pat[2] not in m and not contains(pat[1], lambda t: t in vs):
        m[pat[2]] = ('sidx', pat[1], tgt); eqs.append(('in', pat[1], tgt)); return True
    if pat[0] == 'sidx' and pat[2] in vs and pat[2] not in m and not contains(pat[1], lambda t: t in vs):
        m[pat[2]] = ('sget', pat[1], tgt); eqs.append(('ltlen', pat[1], tgt)); return True
    h = c.dom.unify(c, pat, tgt, vs, m, eqs) if c.dom is not None and hasattr(c.dom, 'unify') else None
    if h is not None: return h
    eqs.append((pat, tgt))
    return True

def solve_free(vs, gs, m):
    """variables that an equation among the guards determines are substituted; the others are returned"""
    free = [v for v in vs if v not in m]
    ch = True
    while ch and free:
        ch = False
        for a, b in gs:
            if a[0] != 'eq' or not b: continue
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x in free:
                    y2 = replace(y, m)
                    if not contains(y2, lambda t: t in free): m[x] = y2; free.remove(x); ch = True; break
    return free

def match_alt(c, alt, key, keyof):
    """is there an instance of the alternative whose key is `key`?  returns substitution or None"""
    vs, gs, p = alt
    vset = set(vs)
    m, eqs = {}, []
    if not unify(c, keyof(p), key, vset, m, eqs): return None
    m = {v: t for v, t in m.items()}
    for e in eqs:
        if len(e) == 2:
            a, b = replace(e[0], m), replace(e[1], m)
            if contains(a, lambda t: t in vset): 
                return exist(c, alt, m, eqs, key)
            if not c.eq(a, b): return None
        elif e[0] == 'in':
            if not c.decide_guard(('in', replace(e[1], m), e[2])): return None
        elif e[0] == 'ltlen':
            if not c.lt(e[2], slen(c, replace(e[1], m))): return None
    free = solve_free(vs, gs, m)
    later = []
    for a, b in gs:
        a2 = replace(a, m)
        if contains(a2, lambda t: t in free): later.append((a2, b)); continue
        if c.decide_guard(a2) != b: return None
    if free or later:
        ex = mk_comp([(tuple(free), tuple(later), UNIT)])
        if not c.decide(('exists', ex)): return None
        for v in free:
            m[v] = c.fresh('w%')
        for a, b in later:
            c.assume(replace(a, m), b)
    return m

def exist(c, alt, m, eqs, key):

    raise Undecided('membership in a computed collection')

def comp_find(c, comp, key, keyof):
    for alt in comp[1]:
        m = match_alt(c, alt, key, keyof)
        if m is not None: return replace(alt[2], m)
    return None

def comp_of(c, itv, f=None):
    """the collection an iterator produces, as a comprehension"""
    mem0 = dict(c.mem); n = len(c.facts.log); g = len(c.gens); nops = len(c.ops)
    def step():
        i = c.norm(itv)
        if i[0] == 'it' and i[1] == 'lit':
            if not i[2]: raise Infeasible()
            i = i[:2] + ((i[2][c.choose(len(i[2]), 'lit')],),)
        item, _ = nxt(c, i)
        if item is None: raise Infeasible()
        if f is not None: item = f(item)
        return c.deep(item)
    outs = c.explore(step)
    alts = []; keep = []
    for v, s in outs:
        if isinstance(v, Exception): raise v
        for l, x in mem0.items():
            y = s[0].get(l)
            if y is not None and y != x and not contains(x, lambda t: t[0] == 'it'):
                raise Undecided('iterator closure with side effects')
        eff = [o for o in s[5][nops:] if o[0] != 'lvread']
        if eff and not (('pureop',) in c.models and all(c.models[('pureop',)](c, o) for o in eff)): raise Undecided('iterator closure with effects')
        keep += [o for o in eff if c.models[('pureop',)](c, o) == 'keep' and o not in keep]
        alts.append((tuple(s[3][g:]), tuple((a, b) for a, b, w in s[1].log[n:] if w != 'axiom'), v))
    c.ops += keep
    return mk_comp(alts)

def bulk_find(c, m, k):
    """('mbulk', init, comp) with payload = tuple of ('ins',k,v)|('rem',k): effect on key k or None"""
    for alt in m[2][1]:
        for op in reversed(alt[2][1]):
            mm = match_alt(c, alt, k, lambda p: op[1])
            if mm is not None:
                if op[0] == 'ins': return True, replace(op[2], mm)
                return False, None
    return None

# ---------------------------------------------------------------- iterators
def base(kind, data): return ('it', 'base', kind, data, 'init')
def ad(kind, inner, x=None): return ('it', kind, inner, x)

def new_elem(c, place=False):
    if place and c.pre is not None: x = c.pre; c.pre = None
    else: x = c.fresh()
    c.gens.append(x); return x

def literal_items(c, it):
    """the items of an iterator over a literal array"""
    if it[0] == 'it' and it[1] == 'base' and it[2] == 'vec' and (it[4] == 'init' or isinstance(it[4], tuple) and it[4][0] == 'at'):
        v = c.norm(it[3][0])
        while v[0] in ('rv', 'ref'): v = c.strip1(v)
        if v[0] == 'arr' and len(v[1]) <= 8 and it[3][2] != 'mut':
            return [x if it[3][2] == 'own' else ('rv', x) for x in v[1]]
    return None

def litq(c, it):
    """the iterator as a queue of at most 8 known items (with the adaptors still to apply), or None"""
    it = c.norm(it)
    if it[0] == 'adt' and it[1] in (INCL, 'core::ops::range::Range'): it = into_iter_val(c, it)
    if it[0] != 'it': return None
    k = it[1]
    if k == 'lit': return it
    if k == 'base':
        if it[4] != 'init': return None
        if it[2] == 'range' and it[3][1] is not None:
            a, b = c.norm(it[3][0]), c.norm(it[3][1])
            if a[0] == b[0] == 'int' and b[1] - a[1] <= 8: return ('it', 'lit', tuple((I(i), ()) for i in range(a[1], b[1])))
            return None
        x = literal_items(c, it)
        return None if x is None else ('it', 'lit', tuple((y, ()) for y in x))
    if k == 'once': return ('it', 'lit', ((it[2], ()),))
    if k == 'chain':
        a = litq(c, it[2]); b = a and litq(c, it[3])
        return ('it', 'lit', a[2] + b[2]) if b and len(a[2]) + len(b[2]) <= 8 else None
    if k not in ('map', 'filter', 'filter_map', 'cloned', 'copied', 'enumerate', 'rev', 'inspect', 'fuse'): return None
    q = litq(c, it[2])
    if q is None: return None
    if k == 'rev': return None if any(o[0] == 'enumerate' for _, ops in q[2] for o in ops) else ('it', 'lit', q[2][::-1])
    if k == 'fuse': return q
    if k == 'enumerate':
        if any(o[0] in ('filter', 'filter_map') for _, ops in q[2] for o in ops): return None
        return ('it', 'lit', tuple((x, ops + (('enumerate', I(i)),)) for i, (x, ops) in enumerate(q[2])))
    return ('it', 'lit', tuple((x, ops + ((k, it[3] if len(it) > 3 else None),)) for x, ops in q[2]))
def litnext(c, it):
    q = it[2]
    while q:
        x, ops = q[0]; q = q[1:]
        for k, f in ops:
            if k == 'map': x = c.call_closure(f, [x])
            elif k in ('cloned', 'copied'): x = c.strip1(x)
            elif k == 'enumerate': x = ('tup', (f, x))
            elif k == 'inspect': c.call_closure(f, [('rv', x)])
            elif k == 'filter':
                if not c.decide(c.call_closure(f, [('rv', x) if x[0] not in ('ref',) else ('ref', c.alloc(x, 't'), ())])): x = None; break
            elif k == 'filter_map':
                s, x = opt(c, c.call_closure(f, [x]))
                if not s: x = None; break
        if x is not None: return x, ('it', 'lit', q)
    return None, ('it', 'done')

class Unroll:
    """a loop over a literal array, iteration by iteration"""
    def __init__(self, fr, H, outer): self.fr = fr; self.H = H; self.outer = outer; self.c = fr.c
    def run(self):
        for _ in range(64):
            r = self.fr.run(self.H, entry=self.H)
            if r[0] == 'back': continue
            if r[0] == 'exit':
                if self.outer is not None and r[1] not in self.fr.loops[self.outer]: return ('exit', r[1])
                if self.outer is not None and r[1] == self.outer: return ('back',)
                return ('goto', r[1])
            return r
        raise Undecided('loop over a literal array does not end')
def unroll_hook(fr, H, outer):
    """for c.loophook: unrolls loops driven by an iterator over a literal array"""
    c = fr.c
    for b in fr.loops[H]:
        blk = fr.b['bbs'][b]
        if not blk or blk[1][0] != 'call' or blk[1][1][0] != 'k': continue
        t = c.F.ty(blk[1][1][1]['t'])
        if t[0] != 'fndef' or not c.F.cn(t[1]).endswith('Iterator::next'): continue
        a = blk[1][2][0]
        defs = {}
        for b2 in fr.loops[H]:
            for s in (fr.b['bbs'][b2] or ([],))[0]:
                if s[0] == '=' and len(s[1]) == 1 and s[2][0] == 'ref': defs[s[1][0]] = s[2][2]
        src = defs.get(a[1][0]) if a[0] in 'cm' else None
        while src is not None and len(src) == 2 and src[1] == '*' and src[0] in defs: src = defs[src[0]]
        if src is None: continue
        try:
            pl = fr.place(src); v = c.norm(c.read(pl))
            while v[0] == 'ref': pl = (v[1], v[2]); v = c.norm(c.read(pl))
        except Undecided: continue
        if isinstance(pl[0], tuple): continue
        if c.unroll:
            if literal_items(c, v) is not None: return Unroll(fr, H, outer)
            continue
        q = litq(c, v)
        if q is not None:
            c.write(pl, q); return Unroll(fr, H, outer)
    return None

import core
core.UNROLL = unroll_hook
def nxt(c, it):
    """abstract next(): (item or None, iterator afterwards)"""
    it = c.norm(it)
    o = it[0]
    if o == 'ref':
        v = c.read((it[1], it[2]))
        item, nv = nxt(c, v)
        if v[0] not in ('ref', 'adt'): c.write((it[1], it[2]), nv)
        elif v[0] == 'adt': c.write((it[1], it[2]), nv)
        return item, it
    if o == 'adt' and it[1] == INCL: return nxt(c, into_iter_val(c, it))
    if o == 'adt' and it[1] == 'core::ops::range::Range':
        return nxt(c, base('range', (it[3][0], it[3][1])))
    if o == 'adt' or o in ('upd', 'sym', 'fld'):
        # an iterator type of the crate: analyse its own next()
        l = c.alloc(it, 'i')
        uid = crate_next(c, it)
        if uid is None: raise Undecided('next on %s' % show(it)[:60])
        r = uid(c, ('ref', l, ()))
        some_, p = opt(c, r)
        nv = c.mem[l]
        return (p if some_ else None), nv
    if o != 'it': raise Undecided('not an iterator: %s' % show(it)[:80])
    k = it[1]
    if k == 'done': return None, it
    if k == 'lit': return litnext(c, it)
    if k == 'base':
        mode = it[4]
        if mode == 'done': return None, it
        if c.unroll:
            lit = literal_items(c, it)
            if lit is not None:
                i = mode[1] if isinstance(mode, tuple) else 0
                if i >= len(lit): return None, it[:4] + ('done',)
                return lit[i], it[:4] + (('at', i + 1),)
        items = base_choices(c, it)
        if items == 'empty': return None, it[:4] + ('done',)
        if c.choose(2, 'iter') == 1: 
            if mode == 'init': base_empty(c, it)
            return None, it[:4] + ('done',)
        x = base_elem(c, it)
        return x, it[:4] + ('gen+',)
    if k == 'once':
        return it[2], ('it', 'done')
    inner, f = it[2], it[3] if len(it) > 3 else None
    if k == 'chain':
        if c.choose(2, 'chain') == 0:
            x, n = nxt(c, inner)
            if x is None:
                x2, n2 = nxt(c, f)
                if x2 is not None: raise Infeasible()              # an element of the second part: the other choice
                return None, ('it', 'chain', n, n2)
            return x, ('it', 'chain', n, f)
        x, n = nxt(c, f)
        if x is None: raise Infeasible()
        return x, ('it', 'chain', inner, n)
    if k == 'flat_map':
        x, n = nxt(c, inner)
        if x is None: return None, ('it', k, n, f)
        r = c.call_closure(f, [x]) if f is not None else x
        if len(it) > 4 and it[4] == 'opt':
            s, y = opt(c, r)
            if not s: raise Infeasible()
            return y, ('it', k, n) + it[3:]
        sub_ = into_iter_val(c, r)
        y, _ = nxt(c, sub_)
        if y is None: raise Infeasible()
        return y, ('it', k, n, f)
    x, n = nxt(c, inner)
    ni = ('it', k, n) + it[3:]
    if x is None: return None, ni
    if k == 'map': return c.call_closure(f, [x]), ni
    if k == 'filter':
        r = c.call_closure(f, [('rv', x) if x[0] not in ('ref',) else ('ref', c.alloc(x, 't'), ())])
        if not c.decide(r): raise Infeasible()
        return x, ni
    if k == 'filter_map':
        s, p = opt(c, c.call_closure(f, [x]))
        if not s: raise Infeasible()
        return p, ni
    if k in ('cloned', 'copied'): return c.strip1(x), ni
    if k == 'enumerate':
        return ('tup', (position(c, n, x), x)), ni
    if k == 'rev' or k == 'fuse' or k == 'sorted': return x, ni
    if k == 'inspect':
        c.call_closure(f, [('rv', x)]); return x, ni
    if k == 'skip_while':
        r = c.call_closure(f, [('rv', x)])
        if c.decide(r):
            # the element may belong to the skipped prefix: keep it as a guarded alternative
            if not c.decide((c.models.get(('skipw',), 'kept'), c.deep(x))): raise Infeasible()
        return x, ni
    if k in ('take', 'skip') and isinstance(f, tuple):
        pos = position(c, n, x)
        if pos[0] != 'posof':
            if c.lt(pos, f) != (k == 'take'): raise Infeasible()
            return x, ni
    if k in ('take', 'skip', 'take_while', 'step_by'):
        if not c.decide(('kept', k, c.deep(x), c.deep(f) if isinstance(f, tuple) else f)): raise Infeasible()
        return x, ni
    if k == 'zip':
        y = zip_second(c, inner, f, x)
        return ('tup', (x, y)), ('it', k, n, f)
    raise Undecided('iterator adaptor %s' % k)

def strip1(self, v):
    v = self.norm(v)
    if v[0] in ('ref', 'rv'): return self.read(self.derefpl(v))
    return v
Ctx.strip1 = strip1

def plain_vec(c, it):
    """the list an iterator walks one element at a time from its start, None otherwise"""
    b = c.norm(it)
    if b[0] == 'ref': return plain_vec(c, c.read((b[1], b[2])))
    while b[0] == 'it' and b[1] in ('cloned', 'copied'): b = c.norm(b[2])
    if b[0] == 'it' and b[1] == 'base' and b[2] == 'vec' and b[4] == 'init' and isinstance(b[3], tuple): return b[3][0]
    return None

def position(c, it, x):
    """index of the element just produced"""
    b = c.norm(it)
    while b[0] == 'it' and b[1] not in ('base',):
        if b[1] in ('map', 'cloned', 'copied', 'zip', 'enumerate'): b = b[2]
        else: break
    if b[0] == 'ref':
        return position(c, c.read((b[1], b[2])), x)
    if b[0] == 'adt' and len(b[3]) == 1 and b[3][0][0] in ('it', 'ref', 'adt'): return position(c, b[3][0], x)
    if b[0] == 'adt' and b[1] == 'core::ops::range::Range' and c.gens: return sub(c.gens[-1], b[3][0])
    if b[0] == 'it' and b[1] == 'base' and c.gens:
        kind = b[2]
        if kind in ('vec', 'iset'): return c.gens[-1]
        if kind == 'range': return sub(c.gens[-1], b[3][0])
    return ('posof', b[:4] if b[0] == 'it' else b, c.deep(x))

def zip_second(c, a, b, x):
    """the element of b at the position of the element x just taken from a"""
    pos = position(c, a, x)
    if pos[0] == 'posof': raise Undecided('zip')
    return item_at(c, b, pos)

def item_at(c, b, pos):
    b = c.norm(b)
    if b[0] == 'ref': b = c.norm(c.read((b[1], b[2])))
    if b[0] == 'adt' and b[1] == 'core::ops::range::Range': b = base('range', (b[3][0], b[3][1]))
    if b[0] == 'adt' and len(b[3]) == 1: return item_at(c, b[3][0], pos)
    if b[0] != 'it': raise Undecided('zip with %s' % show(b)[:60])
    k = b[1]
    if k == 'base' and b[4] == 'init':
        if b[2] == 'vec':
            v, ref, form = b[3]
            if not c.lt(pos, vlen(c, v)): raise Infeasible()        # zip stops at the shorter side
            e = vget(c, v, pos)
            if form == 'own': return e
            return ('ref', ref[1], ref[2] + (('ix', pos),)) if ref is not None and ref[0] == 'ref' else ('rv', e)
        if b[2] == 'iset':
            s, ref, form = b[3]
            if not c.lt(pos, slen(c, s)): raise Infeasible()
            e = sget(c, s, pos); return e if form == 'own' else ('rv', e)
        if b[2] == 'range':
            i = c.norm(add(b[3][0], pos))
            if b[3][1] is not None and not c.lt(i, b[3][1]): raise Infeasible()
            return i
        if b[2] == 'repeat': return b[3][0]
    if k == 'map': return c.call_closure(b[3], [item_at(c, b[2], pos)])
    if k in ('cloned', 'copied'): return c.strip1(item_at(c, b[2], pos))
    if k == 'enumerate': return ('tup', (pos, item_at(c, b[2], pos)))
    raise Undecided('zip with %s' % k)

def base_choices(c, it):
    kind, data = it[2], it[3]
    if kind == 'map' and c.norm(data[0])[0] == 'mempty': return 'empty'
    if kind == 'vec' and c.norm(data[0]) == ('arr', ()): return 'empty'
    if kind == 'iset' and c.norm(data[0])[0] == 'sempty': return 'empty'
    if kind == 'option':
        pass
    return None

def base_empty(c, it):
    """the source turned out to be empty: remember it"""
    kind, data = it[2], it[3]
    if kind == 'vec' :
        n = c.norm(vlen(c, data[0]))
        if not c.eq(n, I(0)): raise Infeasible()
    elif kind == 'iset':
        if not c.eq(slen(c, data[0]), I(0)): raise Infeasible()
    elif kind == 'range':
        if c.lt(data[0], data[1]): raise Infeasible()
    elif kind == 'option':
        if opt(c, data[0])[0]: raise Infeasible()
    elif kind == 'map':
        m = c.norm(data[0])
        if data[3] is not None:
            if m[0] == 'mempty': return
            lo, hi = data[3]
            if lo is not None and lo[1] and hi is None and map_has(c, m, lo[0]): raise Infeasible()
            return
        if m[0] == 'mins': raise Infeasible()
        if c.known(('eq', c.norm(('card', m)), I(0))) is False: raise Infeasible()
        if not c.eq(map_card(c, m), I(0)): raise Infeasible()
    h = c.models.get(('empty', kind))
    if h: h(c, it)

def base_elem(c, it):
    kind, data = it[2], it[3]
    if kind == 'map':
        m, ref, form, rng = data
        m = c.norm(m)
        x = keyed_elem(c, m) if rng is None else None
        if x is None:
            x = new_elem(c)
            if not map_has(c, m, x): raise Infeasible()
        if rng is not None:
            lo, hi = rng
            if lo is not None:
                v, incl = lo
                if not (c.le(v, x) if incl else c.lt(v, x)): raise Infeasible()
            if hi is not None:
                v, incl = hi
                if not (c.le(x, v) if incl else c.lt(x, v)): raise Infeasible()
        def val():
            if ref is not None and ref[0] == 'ref': return ('ref', ref[1], ref[2] + (('mk', x),))
            return ('rv', map_val(c, m, x))
        if form == 'k': return ('rv', x)
        if form == 'ok': return x
        if form == 'v': return val()
        if form == 'kv': return ('tup', (('rv', x), val()))
        if form == 'own': return ('tup', (x, map_val(c, m, x)))
        if form == 'ownv': return map_val(c, m, x)
        raise Undecided('map iteration %s' % form)
    if kind == 'vec':
        v, ref, form = data
        return vec_elem(c, v, ref, form)
    if kind == 'iset':
        s, ref, form = data
        s = c.norm(s)
        if s[0] == 'scoll': return vec_elem(c, ('vcoll', s[1], 'dedup'), None, form)
        if s[0] == 'sadd':
            if c.choose(2, 'last') == 0:
                return s[2] if form == 'own' else ('rv', s[2])
            return base_elem(c, it[:3] + ((s[1], None, form),) + it[4:])
        if s[0] == 'sempty': raise Infeasible()
        i = new_elem(c, True)
        c.assume(('lt', i, slen(c, s)), True)
        e = sget(c, s, i)
        return e if form == 'own' else ('rv', e)
    if kind == 'range':
        i = new_elem(c, True)
        if not c.le(data[0], i): raise Infeasible()
        if data[1] is not None and not c.lt(i, data[1]): raise Infeasible()
        return i
    if kind == 'option':
        s, p = opt(c, data[0])
        if not s: raise Infeasible()
        return p
    h = c.models.get(('elem', kind))
    if h: return h(c, it)
    raise Undecided('iteration over %s' % kind)

def keyed_elem(c, m):
    """a key of a map built with computed keys: the key of one of its insertions"""
    if m[0] == 'mbulk' and c.norm(m[1])[0] == 'mempty':
        if not m[2][1] or any(len(a[2][1]) != 1 or a[2][1][0][0] != 'ins' for a in m[2][1]): return None
        alts = [(vs, gs, p[1][0][1]) for vs, gs, p in m[2][1]]
    elif m[0] == 'mcoll':
        alts = [(vs, gs, p[1][0] if m[2] == 'kv' else p) for vs, gs, p in m[1][1]]
    else: return None
    if not any(p[0] in ('idnew', 'bpos') for _, _, p in alts): return None
    alt = alts[c.choose(len(alts), 'alt')]
    mm = inst(c, alt)
    assume_guards(c, alt[1], mm)
    return c.norm(replace(alt[2], mm))

def vec_elem(c, v, ref, form):
    v = c.norm(v)
    def wrap(e, i=None):
        if form == 'own': return e
        if ref is not None and ref[0] == 'ref' and i is not None: return ('ref', ref[1], ref[2] + (('ix', i),))
        return ('rv', e)
    o = v[0]
    if o == 'arr' and form != 'mut':
        if not v[1]: raise Infeasible()
        return wrap(v[1][c.choose(len(v[1]), 'lit')])
    if o == 'vcoll' and form != 'mut':
        alts = v[1][1]
        if not alts: raise Infeasible()
        alt = alts[c.choose(len(alts), 'alt')]
        m = inst(c, alt)
        assume_guards(c, alt[1], m)
        return wrap(c.norm(replace(alt[2], m)))
    if o == 'vpush' and form != 'mut':
        if c.choose(2, 'last') == 0: return wrap(v[2])
        return vec_elem(c, v[1], None, form)
    if o == 'vext' and form != 'mut':
        if c.choose(2, 'ext') == 0: return vec_elem(c, ('vcoll', v[2], 'seq'), None, form)
        return vec_elem(c, v[1], None, form)
    i = new_elem(c, True)
    c.assume(('lt', i, vlen(c, v)), True)
    return wrap(vget(c, v, i), i)

def crate_next(c, it):
    if it[0] != 'adt': 
        return None
    F = c.F
    tr = 'core::iter::traits::iterator::Iterator'
    for im in F.by_trait.get(tr, []):
        st = F.ty(im['self'])
        if st[0] == 'adt' and st[1] == it[1]:
            for nm, iu, _ in im['items']:
                if nm == 'next':
                    env = {}
                    return lambda cc, r: cc.call_uid(iu, [r], env)
    return None

def thead(t):
    return t[1] if t and t[0] == 'adt' else t[0] if t else None

VECS = ('alloc::vec::Vec', 'slice', 'array', 'alloc::collections::vec_deque::VecDeque')
MAPS = ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap')
SETS = ('alloc::collections::btree::set::BTreeSet', 'std::collections::hash::set::HashSet')
ISETS = ('indexmap::set::IndexSet',)

def into_iter_val(c, v, t=None):
    """IntoIterator for a value of known shape"""
    v = c.norm(v)
    if v[0] == 'it': return v
    if t is not None:
        m = None
        tt = t; byref = None
        if t[0] == 'ref': byref = 'mut' if t[1] else 'ref'; tt = t[2]
        while tt[0] == 'ref': tt = tt[2]
        h = thead(tt)
        if h in VECS + MAPS + SETS + ISETS:
            if byref:
                pl = target(c, v); val = c.read(pl)
                ref = ('ref',) + pl if not isinstance(pl[0], tuple) else None
            else:
                val = c.strip(v) if v[0] in ('ref', 'rv') else v; ref = None
            if h in VECS:
                return base('vec', (val, ref if byref == 'mut' else None, 'mut' if byref == 'mut' else 'ref' if byref else 'own'))
            if h in MAPS: return base('map', (val, ref, 'kv' if byref else 'own', None))
            if h in SETS: return base('map', (val, ref, 'k' if byref else 'ok', None))
            if h in ISETS: return base('iset', (val, ref, 'ref' if byref else 'own'))
        if h == OPT: return base('option', (v,))
        if h == 'core::ops::range::Range': return base('range', (c.proj(v, ('f', 0)), c.proj(v, ('f', 1))))
    if v[0] == 'adt':
        if v[1] == 'core::ops::range::Range': return base('range', (v[3][0], v[3][1]))
        if v[1] == INCL: return base('range', (v[3][0], c.norm(add(v[3][1], I(1)))))
        if v[1] == 'core::ops::range::RangeFrom': return base('range', (v[3][0], None))
        if v[1] == OPT: return base('option', (v,))
        return v
    if v[0] == 'ref':
        x = c.read((v[1], v[2]))
        if x[0] == 'it' or x[0] == 'adt' and crate_next(c, x): return v
        if x[0] == 'adt' and x[1] in (INCL, 'core::ops::range::Range'):
            x = ('adt', '', 0, into_iter_val(c, x)[3])
            c.write((v[1], v[2]), base('range', (x[3][0], x[3][1]))); return v
    if v[0] in ('arr', 'vpush', 'vext', 'vcoll', 'vslice'): return base('vec', (v, None, 'own'))
    if v[0] in ('mcoll', 'mins', 'mempty'): return base('map', (v, None, 'own', None))
    if v[0] in ('scoll',): return base('iset', (v, None, 'own'))
    if t is not None and t[0] in ('param', 'alias', 'infer'): return base('opaque', (v,))
    if c.models.get(('into_iter',)):
        r = c.models[('into_iter',)](c, v, t)
        if r is not None: return r
    raise Undecided('into_iter of %s' % show(v)[:80])

@model('core::iter::traits::collect::IntoIterator::into_iter')
def _into_iter(c, a, ta):
    t = ta[0]
    v = c.norm(a[0])
    if v[0] == 'adt' and crate_next(c, v): return v
    return into_iter_val(c, v, t)

def first_of_range(c, it, x):
    """the first key of a fresh range is its lower end if the map has it"""
    if it[0] != 'it' or it[1] != 'base' or it[2] != 'map' or it[4] != 'init': return
    rng = it[3][3]; form = it[3][2]
    if rng is None or rng[0] is None or not rng[0][1] or form in ('v', 'ownv'): return
    k = c.strip(x[1][0] if x[0] == 'tup' else x)
    if map_has(c, it[3][0], rng[0][0]) and not c.eq(k, rng[0][0]): raise Infeasible()
@model(ITER + 'next')
def _next(c, a, ta):
    r = c.norm(a[0])
    pl = c.derefpl(r)
    # follow boxes / &mut chains down to the iterator itself
    while True:
        v = c.read(pl)
        if v[0] == 'ref': pl = (v[1], v[2])
        else: break
    item, nv = nxt(c, v)
    if item is not None: first_of_range(c, v, item)
    if not isinstance(pl[0], tuple): c.write(pl, nv)
    return NONE if item is None else some(item)
M['alloc::boxed::iter::next'] = _next

def adaptor(name, kind=None):
    @model(ITER + name)
    def f(c, a, ta, k=kind or name):
        return ad(k, own_it(c, a[0]), a[1] if len(a) > 1 else None)
    return f
def own_it(c, v):
    v = c.norm(v)
    return into_iter_val(c, v)
for _n in ('map', 'filter', 'filter_map', 'flat_map', 'skip_while', 'take_while', 'inspect', 'take', 'skip', 'step_by', 'enumerate', 'cloned', 'copied', 'rev', 'fuse'):
    adaptor(_n)
adaptor('flatten', 'flat_map')
def _flat_map(c, a, ta):
    f = a[1] if len(a) > 1 else None
    it = ad('flat_map', own_it(c, a[0]), f)
    return it + ('opt',) if f is not None and len(ta) > 1 and thead(ta[1]) == OPT else it
M[ITER + 'flat_map'] = _flat_map
@model('counter::Counter::most_common', 'counter::Counter::most_common_ordered')
def _most_common(c, a, ta):
    v = c.strip(a[0])
    if v[0] != 'counter': raise Undecided('most_common of %s' % show(v)[:60])
    alts = [(vs, gs, ('tup', (p, add(I(1), ('times', ('tally', v[1]), p))))) for vs, gs, p in v[1][1]]
    return ('vcoll', ('comp', tuple(alts)), 'dedup')
@model(ITER + 'chain', ITER + 'zip')
def _chain(c, a, ta): raise NotImplementedError
def _chain(c, a, ta): return ('it', 'chain', own_it(c, a[0]), into_iter_val(c, a[1], ta[1] if len(ta) > 1 else None))
M[ITER + 'chain'] = _chain
def _zip(c, a, ta): return ('it', 'zip', own_it(c, a[0]), into_iter_val(c, a[1], ta[1] if len(ta) > 1 else None))
M[ITER + 'zip'] = _zip
@model(ITER + 'by_ref')
def _by_ref(c, a, ta): return a[0]
@model('core::iter::sources::empty::empty')
def _empty(c, a, ta): return ('it', 'done')
@model('core::iter::sources::once::once')
def _once(c, a, ta): return ('it', 'once', a[0])
@model('core::iter::sources::repeat::repeat')
def _repeat(c, a, ta): return ('it', 'base', 'repeat', (a[0],), 'init')

def collect_to(c, comp, t, order='seq'):
    h = thead(t)
    if h in VECS: return ('vcoll', comp, order)
    if h in MAPS: return ('mcoll', comp, 'kv')
    if h in SETS: return ('mcoll', comp, 'k')
    if h in ISETS: return ('scoll', comp) if order == 'seq' else ('scoll', comp, order)
    if h == 'counter::Counter': return ('counter', comp)
    if h == 'alloc::string::String': return ('strcoll', comp)
    return None

@model(ITER + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def _collect(c, a, ta):
    t = ta[1] if len(ta) > 1 else None
    return do_collect(c, a[0], t)
def do_collect(c, itv, t):
    itv = own_it(c, itv)
    if t is not None and thead(t) in VECS:
        q = litall(c, itv)
        if q is not None: return q
    if t is not None and t[0] == 'adt':
        fu = 'core::iter::traits::collect::FromIterator'
        for im in c.F.by_trait.get(fu, []):
            st = c.F.ty(im['self'])
            env = {}
            if im['id'] in c.F.impls and unify_ty(st, t, env):
                for nm, iu, _ in im['items']:
                    if nm == 'from_iter' and iu in c.F.bodies:
                        return c.call_uid(iu, [itv], env)
    if t is not None and t[0] == 'adt' and t[1].endswith('result::Result') and t[2][0] == ('tuple', ()):
        return try_each(c, itv, lambda x: x)
    if t is not None and t[0] == 'adt' and t[1].endswith(('result::Result', 'option::Option')) and t[2][0][0] == 'adt':
        res = t[1].endswith('result::Result'); case = rescase if res else opt
        def body(x):
            s, p = case(c, x)
            return None if s else (err(p) if res else NONE)
        r = consume(c, itv, body, 'collect')
        if r: return r[0]
        def good(cc, a):
            s, p = case(cc, a[0])
            return some(p) if s else NONE
        v = collect_to(c, comp_of(c, ('it', 'filter_map', itv, ('pyclo', good))), t[2][0], iter_order(c, itv))
        if v is None: raise Undecided('collect into %s' % (t,))
        return ok(v) if res else some(v)
    return_ = collect_to(c, comp_of(c, itv), t, iter_order(c, itv)) if t is not None else None
    if return_ is None: raise Undecided('collect into %s' % (t,))
    return return_
def litall(c, itv):
    """a short list of known items, collected"""
    q = None if c.unroll else litq(c, itv)
    if q is None: return None
    out = []
    while True:
        x, q = nxt(c, q)
        if x is None: return ('arr', tuple(out))
        out.append(x)
def try_each(c, itv, f):
    """runs until the first error"""
    def body(x):
        s, p = rescase(c, f(x))
        return None if s else err(p)
    r = consume(c, itv, body, 'try_for_each')
    if not r: return ok(UNIT)
    return r[0] if isinstance(r, (list, tuple)) and r and not isinstance(r[0], str) else r
@model('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def _fn_call(c, a, ta):
    args = c.norm(c.deep(a[1])) if c.norm(a[1])[0] in ('ref', 'rv') else c.norm(a[1])
    if args == UNIT: args = ('tup', ())
    if args[0] != 'tup': raise Undecided('call of a function value')
    return c.call_closure(a[0], list(args[1]))
@model(ITER + 'try_for_each')
def _try_for_each(c, a, ta): return try_each(c, own_it(c, a[0]), lambda x: c.call_closure(a[1], [x]))
def iter_order(c, it):
    it = c.norm(it)
    if it[0] == 'adt' and len(it[3]) == 1: return iter_order(c, it[3][0])
    if it[0] in ('ref', 'rv'): return iter_order(c, c.strip(it))
    if it[0] == 'it' and it[1] == 'sorted': return 'sorted'
    if it[0] == 'it' and it[1] == 'base' and it[2] == 'vec':
        v = c.norm(it[3][0])
        if v[0] == 'vcoll': return v[2]
    if it[0] == 'it' and it[1] in ('map', 'cloned', 'copied', 'filter', 'filter_map', 'enumerate'): return iter_order(c, it[2])
    if it[0] == 'it' and it[1] == 'rev':
        o = iter_order(c, it[2]); return ('rev', o) if not (isinstance(o, tuple) and o[0] == 'rev') else o[1]
    return 'seq'
M[('order',)] = lambda c, it: iter_order(c, it)
@model('itertools::Itertools::collect_vec')
def _collect_vec(c, a, ta):
    it = own_it(c, a[0])
    return litall(c, it) or ('vcoll', comp_of(c, it), iter_order(c, it))
@model('itertools::Itertools::sorted')
def _sorted(c, a, ta): return ('vcoll', comp_of(c, own_it(c, a[0])), 'sorted')
@model('itertools::Itertools::sorted_by_key', 'itertools::Itertools::sorted_by')
def _sorted_by(c, a, ta): return ('vcoll', comp_of(c, own_it(c, a[0])), 'sortedby')
@model(ITER + 'count')
def _count(c, a, ta): return ccount(c, comp_of(c, own_it(c, a[0]), lambda x: x))
@model(ITER + 'size_hint')
def _size_hint(c, a, ta): return ('hint', c.strip(a[0]))
@model(ITER + 'max', ITER + 'min')
def _max(c, a, ta): raise NotImplementedError
def _mm(which):
    def f(c, a, ta):
        it = own_it(c, a[0])
        comp = comp_of(c, it)
        if not comp[1]: return NONE
        return c.norm(('agg' + which, comp))
    return f
M[ITER + 'max'] = _mm('max'); M[ITER + 'min'] = _mm('min'); M[ITER + 'last'] = _mm('last'); M[ITER + 'sum'] = _mm('sum')
def _sum(c, a, ta): return c.norm(('csum', comp_of(c, own_it(c, a[0]))))
M[ITER + 'sum'] = _sum

class PyLoop(LoopSummary):
    """summary of a loop hidden in a library consumer (for_each, any, extend, ...)"""
    class Fr:
        def __init__(self, ctx, step, uid): self.c = ctx; self.step = step; self.uid = uid; self.loops = {0: {0}}
        def run(self, bb, entry=None): return self.step()
    def __init__(self, ctx, step, name):
        fr = PyLoop.Fr(ctx, step, name)
        LoopSummary.__init__(self, fr, 0, None)
    def cont(self, r): return r

def consume(c, itv, body, name):
    """runs `body(item)` for every element; body may return a value to stop with.
    returns None (all consumed) or the stop value"""
    q = None if c.unroll else litq(c, itv)
    if q is not None:
        while True:
            item, q = nxt(c, q)
            if item is None: return None
            r = body(item)
            if r is not None: return (r,)
    l = c.alloc(itv, 'it')
    def step():
        v = c.mem[l]
        item, nv = nxt(c, v)
        c.mem[l] = nv
        if item is None: return ('exit', None)
        r = body(item)
        if r is None: return ('back',)
        return ('exit', (r,))
    r = PyLoop(c, step, name).run()
    return r[1]

@model(ITER + 'for_each')
def _for_each(c, a, ta):
    consume(c, own_it(c, a[0]), lambda x: (c.call_closure(a[1], [x]), None)[1], 'for_each'); return UNIT
@model(ITER + 'any')
def _any(c, a, ta):
    it = own_it(c, a[0])
    r = consume(c, it, lambda x: TRUE if c.decide(c.call_closure(a[1], [x])) else None, 'any')
    return TRUE if r else FALSE
@model(ITER + 'all')
def _all(c, a, ta):
    it = own_it(c, a[0])
    r = consume(c, it, lambda x: FALSE if not c.decide(c.call_closure(a[1], [x])) else None, 'all')
    return FALSE if r else TRUE
@model(ITER + 'find')
def _find(c, a, ta):
    r = consume(c, own_it(c, a[0]), lambda x: some(x) if c.decide(c.call_closure(a[1], [('rv', x) if x[0] != 'ref' else ('ref', c.alloc(x, 't'), ())])) else None, 'find')
    return r[0] if r else NONE
@model(ITER + 'find_map')
def _find_map(c, a, ta):
    def b(x):
        v = c.call_closure(a[1], [x]); s, p = opt(c, v)
        return some(p) if s else None
    r = consume(c, own_it(c, a[0]), b, 'find_map')
    return r[0] if r else NONE
def sought(c, it, v, f):
    """the value a closure compares every element with, when that is all it does"""
    st = c.snap(); sched = (c.pending, c.trace, c.pos, list(c.decisions))
    c.pending, c.trace, c.pos = [], [], 0              # one representative run: nothing is branched on
    try:
        item, nv = nxt(c, it)
        if item is None: return None
        ng, no, nl = len(c.gens), len(c.ops), len(c.facts.log)
        c.decide(c.call_closure(f, [item]))
        e = c.strip(item); log = [(a, b) for a, b, w in c.facts.log[nl:] if w != 'axiom']
        if len(c.gens) != ng or len(c.ops) != no or len(log) != 1: return None
        a = log[0][0]
        if a[0] != 'eq' or e not in a[1:3]: return None
        k = a[2] if a[1] == e else a[1]
        return None if core.contains_term(k, c.gens[-1]) else k
    finally:
        c.restore(st); c.pending, c.trace, c.pos, c.decisions = sched
@model(ITER + 'position')
def _position(c, a, ta):
    it = own_it(c, a[0]); v = plain_vec(c, it)
    if v is not None and v[0] == 'row':
        # a row holds each value once, so the first match is where the value is: what a search for it finds
        st = it
        while st[0] == 'ref': st = c.norm(c.read((st[1], st[2])))
        k = sought(c, st, v, a[1])
        if k is not None: return some(c.norm(('pos', v, k))) if c.decide(('in', v, k)) else NONE
    def b(x):
        p = position(c, it, x)
        nl = len(c.facts.log)
        if not c.decide(c.call_closure(a[1], [x])): return None
        if v is not None and v[0] == 'row':
            k = e = c.strip(x)
            for at, y, w in c.facts.log[nl:]:
                if at[0] == 'eq' and y and e in at[1:3]: k = at[2] if at[1] == e else at[1]
            kn = c.known(('in', v, k))
            if kn is False: raise Infeasible()
            if kn is None: c.facts.assume(('in', v, k), True, 'axiom')
            p = c.norm(('pos', v, k))
        return some(p)
    r = consume(c, it, b, 'position')
    return r[0] if r else NONE
@model(ITER + 'fold')
def _fold(c, a, ta):
    l = c.alloc(a[1], 'acc')
    def b(x):
        c.mem[l] = c.call_closure(a[2], [c.mem[l], x]); return None
    consume(c, own_it(c, a[0]), b, 'fold')
    return c.mem[l]
@model(ITER + 'eq', ITER + 'ne')
def _iter_eq(c, a, ta): raise NotImplementedError
def _ieq(neg):
    def f(c, a, ta):
        x = comp_of(c, own_it(c, a[0])); y = comp_of(c, into_iter_val(c, a[1], ta[1] if len(ta) > 1 else None))
        ox, oy = iter_order(c, own_it(c, a[0])), iter_order(c, own_it(c, a[1]))
        return B(c.decide(('seqeq',) + tuple(sorted((x, y), key=repr))) != neg)
    return f
M[ITER + 'eq'] = _ieq(False); M[ITER + 'ne'] = _ieq(True)
@model(ITER + 'nth')
def _nth(c, a, ta):
    pl = None; it = c.norm(a[0])
    for _ in range(4):
        if it[0] != 'ref': break
        pl = (it[1], it[2]); it = c.norm(c.read(pl))
    it = own_it(c, it)
    q = None if c.unroll else litq(c, it)
    if q is not None and c.norm(a[1])[0] == 'int':
        for _ in range(c.norm(a[1])[1] + 1): x, q = nxt(c, q)
        if pl is not None: c.write(pl, q)
        return NONE if x is None else some(x)
    fs = []; b = it
    for _ in range(12):
        if b[0] == 'it' and b[1] in ('map', 'cloned', 'copied'): fs.append(b[1:]); b = c.norm(b[2])
        elif b[0] == 'adt' and len(b[3]) == 1 and b[1].endswith('::Iter'): b = c.norm(b[3][0])
        elif b[0] in ('ref', 'rv'): b = c.strip1(b)
        else: break
    if b[0] == 'it' and b[1] == 'base' and b[4] == 'init' and b[2] in ('vec', 'iset'):
        v = b[3][0]; st = b[2] == 'iset'
        if pl is not None: c.write(pl, c.fresh())
        if not c.lt(a[1], slen(c, v) if st else vlen(c, v)): return NONE
        e = sget(c, v, a[1]) if st else vget(c, v, a[1])
        x = e if b[3][2] == 'own' else ('rv', e)
        for f in reversed(fs): x = c.call_closure(f[2], [x]) if f[0] == 'map' else c.strip1(x)
        return some(x)
    raise Undecided('nth of %s' % show(it)[:60])
@model('itertools::Itertools::tuple_combinations')
def _tc(c, a, ta): return ('it', 'base', 'combinations', (own_it(c, a[0]),), 'init')
def _tc_elem(c, it):
    src = it[3][0]
    # pairs in source order: x < y when the source is increasing
    if not (src[0] == 'it' and src[1] == 'base' and src[2] == 'range' or src[0] == 'adt' and src[1] == 'core::ops::range::Range'): raise Undecided('combinations of an unordered source')
    x, _ = nxt(c, src); y, _ = nxt(c, src)
    if x is None or y is None: raise Infeasible()
    # unordered pairs of distinct positions, in source order
    if not c.lt(x, y): raise Infeasible()
    return ('tup', (x, y))
M[('elem', 'combinations')] = _tc_elem

@model('core::iter::traits::collect::Extend::extend')
def _extend(c, a, ta):
    pl = target(c, a[0])
    v = c.read(pl)
    t = ta[0]
    it = into_iter_val(c, a[1], ta[2] if len(ta) > 2 else None)
    h = thead(t)
    if h in VECS:
        bb = it
        if bb[0] == 'it' and bb[1] == 'done': return UNIT
        def item(x): return c.strip1(x) if x[0] in ('rv', 'ref') else x
        comp = comp_of(c, it, item if len(ta) > 1 and ta[1][0] == 'ref' else None)
        c.write(pl, ('vext', v, comp, iter_order(c, it))); return UNIT
    if h in MAPS + SETS or h in ISETS:
        def b(x):
            w = c.read(pl)
            if h in MAPS: c.write(pl, map_ins(c, w, c.proj(x, ('f', 0)), c.proj(x, ('f', 1))))
            elif h in SETS: c.write(pl, map_ins(c, w, x, UNIT))
            else: c.write(pl, sadd(c, w, x))
            return None
        consume(c, it, b, 'extend'); return UNIT
    raise Undecided('extend %s' % h)

# ---------------------------------------------------------------- Option / Result
O = 'core::option::Option::'; R = 'core::result::Result::'
def self_ref(c, r):
    return c.derefpl(r)
@model(O + 'is_some')
def _(c, a, ta): return B(opt(c, c.strip(a[0]))[0])
@model(O + 'is_none')
def _(c, a, ta): return B(not opt(c, c.strip(a[0]))[0])
@model(O + 'is_some_and')
def _(c, a, ta):
    s, p = opt(c, a[0])
    return c.call_closure(a[1], [p]) if s else FALSE
@model(O + 'is_none_or')
def _(c, a, ta):
    s, p = opt(c, a[0])
    return c.call_closure(a[1], [p]) if s else TRUE
@model(O + 'unwrap', O + 'expect')
def _(c, a, ta):
    s, p = opt(c, a[0])
    if not s: raise Panic('unwrap of None', c.span())
    return p
@model(O + 'unwrap_or')
def _(c, a, ta):
    s, p = opt(c, a[0]); return p if s else a[1]
@model(O + 'unwrap_or_else')
def _(c, a, ta):
    s, p = opt(c, a[0]); return p if s else c.call_closure(a[1], [])
@model(O + 'unwrap_or_default')
def _(c, a, ta):
    s, p = opt(c, a[0]); return p if s else default_of(c, ta[0])
@model(O + 'map')
def _(c, a, ta):
    s, p = opt(c, a[0]); return some(c.call_closure(a[1], [p])) if s else NONE
@model(O + 'map_or')
def _(c, a, ta):
    s, p = opt(c, a[0]); return c.call_closure(a[2], [p]) if s else a[1]
@model(O + 'map_or_else')
def _(c, a, ta):
    s, p = opt(c, a[0]); return c.call_closure(a[2], [p]) if s else c.call_closure(a[1], [])
@model(O + 'and_then')
def _(c, a, ta):
    s, p = opt(c, a[0]); return c.call_closure(a[1], [p]) if s else NONE
@model(O + 'and')
def _(c, a, ta): return a[1] if opt(c, a[0])[0] else NONE
@model(O + 'or')
def _(c, a, ta): return a[0] if opt(c, a[0])[0] else a[1]
@model(O + 'or_else')
def _(c, a, ta): return a[0] if opt(c, a[0])[0] else c.call_closure(a[1], [])
@model(O + 'filter')
def _(c, a, ta):
    s, p = opt(c, a[0])
    return some(p) if s and c.decide(c.call_closure(a[1], [('rv', p)])) else NONE
@model(O + 'ok_or')
def _(c, a, ta):
    s, p = opt(c, a[0]); return ok(p) if s else err(a[1])
@model(O + 'ok_or_else')
def _(c, a, ta):
    s, p = opt(c, a[0]); return ok(p) if s else err(c.call_closure(a[1], []))
@model(O + 'cloned', O + 'copied')
def _(c, a, ta):
    v = c.norm(a[0])
    s, p = opt(c, v)
    return some(c.strip1(p)) if s else NONE
def opt_ref(c, r, mut):
    pl = target(c, r)
    v = c.read(pl)
    s, p = opt(c, v)
    if not s: return NONE
    loc, path = pl
    if isinstance(loc, tuple): return some(('rv', p))
    if v[0] != 'adt' and mut: c.write(pl, some(p))
    return some(('ref', loc, path + (('v', 1), ('f', 0))))
@model(O + 'as_ref')
def _(c, a, ta): return opt_ref(c, a[0], False)
@model(O + 'as_mut')
def _(c, a, ta): return opt_ref(c, a[0], True)
@model(O + 'as_deref', O + 'as_deref_mut')
def _(c, a, ta): return opt_ref(c, a[0], False)
@model(O + 'take')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl); c.write(pl, NONE); return v
@model(O + 'replace')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl); c.write(pl, some(a[1])); return v
@model(O + 'insert')
def _(c, a, ta):
    pl = target(c, a[0]); c.write(pl, some(a[1])); return ('ref', pl[0], pl[1] + (('v', 1), ('f', 0)))
@model(O + 'get_or_insert_with', O + 'get_or_insert')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl)
    if not opt(c, v)[0]: c.write(pl, some(c.call_closure(a[1], []) if c.norm(a[1])[0] in ('clo', 'fn') else a[1]))
    return ('ref', pl[0], pl[1] + (('v', 1), ('f', 0)))
@model(O + 'zip')
def _(c, a, ta):
    s, p = opt(c, a[0]); t, q = opt(c, a[1])
    return some(('tup', (p, q))) if s and t else NONE
@model(O + 'iter', O + 'into_iter')
def _(c, a, ta): return base('option', (a[0],))
def rescase(c, v):
    v = c.norm(v)
    if v[0] == 'adt': return v[2] == 0, v[3][0]
    if c.isvar(v, 0): return True, c.norm(('vf', v, 0, 0))
    c.assume(('isv', v, 1), True)
    return False, c.norm(('vf', v, 1, 0))
@model(R + 'is_ok')
def _(c, a, ta): return B(rescase(c, c.strip(a[0]))[0])
@model(R + 'is_err')
def _(c, a, ta): return B(not rescase(c, c.strip(a[0]))[0])
@model(R + 'unwrap', R + 'expect')
def _(c, a, ta):
    s, p = rescase(c, a[0])
    if not s: raise Panic('unwrap of Err', c.span())
    return p
@model(R + 'unwrap_or')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return p if s else a[1]
@model(R + 'unwrap_or_else')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return p if s else c.call_closure(a[1], [p])
@model(R + 'map')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return ok(c.call_closure(a[1], [p])) if s else err(p)
@model(R + 'map_err')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return ok(p) if s else err(c.call_closure(a[1], [p]))
@model(R + 'and_then')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return c.call_closure(a[1], [p]) if s else err(p)
@model(R + 'ok')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return some(p) if s else NONE
@model(R + 'err')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return NONE if s else some(p)
@model('core::ops::try_trait::Try::branch')
def _(c, a, ta):
    t = ta[0]
    if thead(t) == OPT:
        s, p = opt(c, a[0])
        return ('adt', CF, 0, (p,)) if s else ('adt', CF, 1, (NONE,))
    s, p = rescase(c, a[0])
    return ('adt', CF, 0, (p,)) if s else ('adt', CF, 1, (err(p),))
@model('core::ops::try_trait::FromResidual::from_residual')
def _(c, a, ta):
    v = c.norm(a[0])
    if v == NONE: return NONE
    s, p = rescase(c, v)
    return err(p)

# ---------------------------------------------------------------- maps
for H in MAPS + SETS:
    def _reg(H):
        isset = H in SETS
        @model(H + '::new', H + '::with_capacity', H + '::with_capacity_and_hasher', H + '::with_hasher')
        def _(c, a, ta): return ('mempty',)
        @model(H + '::contains_key', H + '::contains')
        def _(c, a, ta): return B(map_has(c, c.read(target(c, a[0])), c.strip(a[1])))
        @model(H + '::get', H + '::get_mut')
        def _(c, a, ta):
            pl = target(c, a[0]); k = c.strip(a[1])
            if not map_has(c, c.read(pl), k): return NONE
            if isset: return some(('rv', k))
            return some(refto(c, pl, ('mk', k)))
        @model(H + '::insert')
        def _(c, a, ta):
            pl = target(c, a[0]); m = c.read(pl); k = a[1]
            has = map_has(c, m, k)
            if isset:
                if not has: c.write(pl, map_ins(c, m, k, UNIT))
                return B(not has)
            old = map_val(c, m, k) if has else None
            c.write(pl, map_ins(c, m, k, a[2]))
            return some(old) if has else NONE
        @model(H + '::remove', H + '::take')
        def _(c, a, ta):
            pl = target(c, a[0]); m = c.read(pl); k = c.strip(a[1])
            has = map_has(c, m, k)
            if isset:
                if has: c.write(pl, map_rem(c, m, k))
                return B(has)
            if not has: return NONE
            old = map_val(c, m, k)
            c.write(pl, map_rem(c, m, k))
            return some(old)
        @model(H + '::len')
        def _(c, a, ta): return c.norm(map_card(c, c.read(target(c, a[0]))))
        @model(H + '::capacity')
        def _(c, a, ta): return capacity(c, c.norm(map_card(c, c.read(target(c, a[0])))))
        @model(H + '::is_empty')
        def _(c, a, ta): return B(c.eq(map_card(c, c.read(target(c, a[0]))), I(0)))
        @model(H + '::clear')
        def _(c, a, ta): c.write(target(c, a[0]), ('mempty',)); return UNIT
        @model(H + '::shrink_to_fit', H + '::reserve')
        def _(c, a, ta): return UNIT
        @model(H + '::entry')
        def _(c, a, ta):
            pl = target(c, a[0])
            return ('mentry', pl[0], pl[1], a[1], 0 if 'hash' in H else 1)
        def it(form, mutref=False, rng=None):
            def f(c, a, ta):
                pl = target(c, a[0])
                ref = ('ref',) + pl if not isinstance(pl[0], tuple) else None
                return base('map', (c.read(pl), ref, form, None))
            return f
        M[H + '::keys'] = it('k'); M[H + '::values'] = it('v'); M[H + '::values_mut'] = it('v')
        M[H + '::iter'] = it('k' if isset else 'kv'); M[H + '::iter_mut'] = it('kv')
        @model(H + '::into_keys')
        def _(c, a, ta): return base('map', (a[0], None, 'ok', None))
        @model(H + '::into_values')
        def _(c, a, ta): return base('map', (a[0], None, 'ownv', None))
        @model(H + '::range', H + '::range_mut')
        def _(c, a, ta):
            pl = target(c, a[0])
            ref = ('ref',) + pl if not isinstance(pl[0], tuple) else None
            return base('map', (c.read(pl), ref, 'k' if isset else 'kv', range_bounds(c, a[1])))
        @model(H + '::retain')
        def _(c, a, ta):
            pl = target(c, a[0]); m = c.read(pl)
            raise Undecided('retain')
        @model(H + '::first_key_value', H + '::last_key_value', H + '::first', H + '::last')
        def _(c, a, ta): raise Undecided('first/last')
    _reg(H)

def range_bounds(c, r):
    r = c.norm(r)
    if r[0] == 'adt':
        n = r[1].split('::')[-1]
        f = r[3]
        if n == 'RangeFrom': return ((c.strip(f[0]), True), None)
        if n == 'Range': return ((c.strip(f[0]), True), (c.strip(f[1]), False))
        if n == 'RangeTo': return (None, (c.strip(f[0]), False))
        if n == 'RangeToInclusive': return (None, (c.strip(f[0]), True))
        if n == 'RangeInclusive': return ((c.strip(f[0]), True), (c.strip(f[1]), True))
        if n == 'RangeFull': return None
    if r[0] == 'tup' and len(r[1]) == 2:
        res = []
        for b in r[1]:
            b = c.norm(b)
            if b[0] != 'adt': raise Undecided('range bound')
            res.append((c.strip(b[3][0]), b[2] == 0) if b[2] < 2 else None)
        return tuple(res)
    raise Undecided('range')

def entry_place(c, e):
    return (e[1], e[2])
@model('std::collections::hash::map::Entry::or_insert_with', 'alloc::collections::btree::map::entry::Entry::or_insert_with',
       'std::collections::hash::map::Entry::or_insert', 'alloc::collections::btree::map::entry::Entry::or_insert',
       'std::collections::hash::map::Entry::or_default', 'alloc::collections::btree::map::entry::Entry::or_default')
def _(c, a, ta):
    e = c.norm(a[0])
    if e[0] != 'mentry': raise Undecided('entry')
    pl = (e[1], e[2]); m = c.read(pl)
    if not map_has(c, m, e[3]):
        if len(a) > 1:
            f = c.norm(a[1])
            v = c.call_closure(f, []) if f[0] in ('clo', 'fn', 'pyclo') else f
        else: v = default_of(c, ta[1])
        c.write(pl, map_ins(c, c.read(pl), e[3], v))
    return ('ref', pl[0], pl[1] + (('mk', e[3]),))
@model('std::collections::hash::map::Entry::and_modify', 'alloc::collections::btree::map::entry::Entry::and_modify')
def _(c, a, ta):
    e = c.norm(a[0]); pl = (e[1], e[2])
    if map_has(c, c.read(pl), e[3]): c.call_closure(a[1], [('ref', pl[0], pl[1] + (('mk', e[3]),))])
    return e
@model('std::collections::hash::map::Entry::key', 'alloc::collections::btree::map::entry::Entry::key')
def _(c, a, ta): return ('rv', c.strip(a[0])[3])

# ---------------------------------------------------------------- vectors
V = 'alloc::vec::Vec::'; S = '[]::'; D = 'alloc::collections::vec_deque::VecDeque::'
@model(V + 'new', V + 'with_capacity', D + 'new', D + 'with_capacity')
def _(c, a, ta): return ('arr', ())
@model(V + 'push', D + 'push_back')
def _(c, a, ta):
    pl = target(c, a[0]); c.write(pl, ('vpush', c.read(pl), a[1])); return UNIT
@model(D + 'push_front')
def _(c, a, ta):
    pl = target(c, a[0]); c.write(pl, ('vpushf', c.read(pl), a[1])); return UNIT
@model(V + 'pop', D + 'pop_back')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl)
    if v[0] == 'vpush': c.write(pl, v[1]); return some(v[2])
    if v == ('arr', ()): return NONE
    n = vlen(c, v)
    if c.eq(n, I(0)): return NONE
    e = vget(c, v, sub(n, I(1)))
    c.write(pl, ('vpop', v)); return some(e)
@model(D + 'pop_front')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl)
    if v == ('arr', ()): return NONE
    n = vlen(c, v)
    if c.eq(n, I(0)): return NONE
    e = vget(c, v, I(0))
    c.write(pl, ('vpopf', v)); return some(e)
@model(V + 'len', S + 'len', D + 'len', 'str::len', 'alloc::string::String::len')
def _(c, a, ta): return c.norm(vlen(c, c.read(target(c, a[0]))))
@model(V + 'is_empty', S + 'is_empty', D + 'is_empty')
def _(c, a, ta): return B(c.eq(vlen(c, c.read(target(c, a[0]))), I(0)))
@model(V + 'clear', D + 'clear')
def _(c, a, ta): c.write(target(c, a[0]), ('arr', ())); return UNIT
@model(V + 'shrink_to_fit', V + 'reserve', D + 'shrink_to_fit')
def _(c, a, ta): return UNIT
@model(V + 'as_slice', V + 'as_mut_slice', 'alloc::vec::Vec::leak', S + 'as_ref')
def _(c, a, ta): return a[0]
@model(S + 'to_vec', S + 'into_vec', 'alloc::borrow::ToOwned::to_owned', V + 'into_boxed_slice', 'alloc::slice::into_vec')
def _(c, a, ta): return c.strip(a[0])
@model(S + 'iter', D + 'iter', V + 'iter')
def _(c, a, ta): return base('vec', (c.read(target(c, a[0])), None, 'ref'))
@model(S + 'iter_mut', D + 'iter_mut')
def _(c, a, ta):
    pl = target(c, a[0])
    return base('vec', (c.read(pl), ('ref',) + pl if not isinstance(pl[0], tuple) else None, 'mut'))
@model(V + 'drain')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl)
    r = c.norm(a[1])
    if r[0] == 'adt' and r[1].endswith('RangeFull'):
        c.write(pl, ('arr', ())); return base('vec', (v, None, 'own'))
    raise Undecided('drain')
@model('alloc::boxed::Box::new_uninit')
def _(c, a, ta): return ('ref', c.alloc(c.fresh('uninit%'), 'box'), ())
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _(c, a, ta):
    v = c.strip(a[0])
    for _ in range(5):
        if v[0] == 'arr': return v
        if v[0] == 'upd' and len(v[2]) == 1: v = c.norm(v[2][0][1]); continue
        break
    raise Undecided('contents of vec![]')
@model(S + 'get', V + 'get', S + 'get_mut')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl); i = c.norm(a[1])
    if i[0] == 'adt' and 'range' in i[1]:
        lo, hi = slice_range(c, v, i)
        if c.le(lo, hi) and c.le(hi, vlen(c, v)): return some(('rv', vslice(c, v, lo, hi)))
        return NONE
    if c.lt(i, vlen(c, v)): return some(refto(c, pl, ('ix', i)))
    return NONE
@model(S + 'get_unchecked', S + 'get_unchecked_mut')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl); i = c.norm(a[1])
    if not c.lt(i, vlen(c, v)): raise Panic('unchecked access out of range', c.span())
    return refto(c, pl, ('ix', i))
@model(S + 'first', S + 'last')
def _(c, a, ta): raise NotImplementedError
def _firstlast(last):
    def f(c, a, ta):
        pl = target(c, a[0]); v = c.read(pl)
        n = vlen(c, v)
        if c.eq(n, I(0)): return NONE
        return some(refto(c, pl, ('ix', c.norm(sub(n, I(1))) if last else I(0))))
    return f
M[S + 'first'] = _firstlast(False); M[S + 'last'] = _firstlast(True)
@model(S + 'contains')
def _(c, a, ta):
    v = c.read(target(c, a[0])); x = c.strip(a[1])
    return B(vec_has(c, v, x))
def vec_has(c, v, x):
    v = c.norm(v)
    if v[0] == 'arr': return any(c.eq(y, x) for y in v[1])
    if v[0] == 'vpush': return c.eq(v[2], x) or vec_has(c, v[1], x)
    if v[0] == 'vcoll': return comp_find(c, v[1], x, lambda p: p) is not None
    if v[0] == 'vext': return comp_find(c, v[2], x, lambda p: p) is not None or vec_has(c, v[1], x)
    return c.decide(('in', v, x))
@model(S + 'binary_search')
def _(c, a, ta):
    v = c.norm(c.read(target(c, a[0]))); x = c.strip(a[1])
    if c.decide(('in', v, x)): return ok(c.norm(('pos', v, x)))
    return err(c.norm(('inspos', v, x)))
@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl); i = c.norm(a[1])
    h = thead(ta[0])
    if h in MAPS:
        k = c.strip(i)
        if not map_has(c, v, k): raise Panic('missing key', c.span())
        return refto(c, pl, ('mk', k))
    if i[0] in ('ref', 'rv') and h in ISETS: raise Undecided('index')
    if i[0] == 'adt' and 'range' in i[1]:
        lo, hi = slice_range(c, v, i)
        if not c.le(lo, hi): raise Panic('slice index starts after its end', c.span())
        if not c.le(hi, vlen(c, v)): raise Panic('slice end out of range', c.span())
        return ('rv', vslice(c, v, lo, hi))
    if h in ISETS:
        if not c.lt(i, slen(c, v)): raise Panic('index out of range', c.span())
        return ('rv', sget(c, v, i))
    if not c.lt(i, vlen(c, v)): raise Panic('index out of range', c.span())
    return refto(c, pl, ('ix', i))
def slice_range(c, v, r):
    n = r[1].split('::')[-1]; f = r[3]
    if n == 'Range': return f[0], f[1]
    if n == 'RangeFrom': return f[0], vlen(c, v)
    if n == 'RangeTo': return I(0), f[0]
    if n == 'RangeFull': return I(0), vlen(c, v)
    if n == 'RangeInclusive': return f[0], add(f[1], I(1))
    if n == 'RangeToInclusive': return I(0), add(f[0], I(1))
    raise Undecided('range %s' % n)
@model('core::ops::range::RangeInclusive::new')
def _(c, a, ta): return ('adt', 'core::ops::range::RangeInclusive', 0, (a[0], a[1]))
@model(S + 'split_at', S + 'split_at_mut')
def _(c, a, ta):
    v = c.strip(a[0]); k = c.norm(a[1]); n = vlen(c, v)
    if not c.le(k, n): raise Panic('split_at beyond the end', c.span())
    return ('tup', (('rv', vslice(c, v, I(0), k)), ('rv', vslice(c, v, k, n))))
@model(S + 'sort', S + 'sort_unstable')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl)
    if v[0] == 'vcoll': c.write(pl, ('vcoll', v[1], 'sorted')); return UNIT
    raise Undecided('sort')
@model(V + 'extend_from_slice')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl); w = c.strip(a[1])
    c.write(pl, ('vext', v, comp_of(c, base('vec', (w, None, 'own'))), iter_order(c, base('vec', (w, None, 'own'))))); return UNIT

# ---------------------------------------------------------------- IndexSet
X = 'indexmap::set::IndexSet::'
@model(X + 'new', X + 'with_capacity')
def _(c, a, ta): return ('sempty',)
@model(X + 'contains')
def _(c, a, ta): return B(shas(c, c.read(target(c, a[0])), c.strip(a[1])))
@model(X + 'get_full')
def _(c, a, ta):
    s = c.read(target(c, a[0])); x = c.strip(a[1])
    if not shas(c, s, x): return NONE
    return some(('tup', (sidx(c, s, x), ('rv', x))))
@model(X + 'get_index_of')
def _(c, a, ta):
    s = c.read(target(c, a[0])); x = c.strip(a[1])
    return some(sidx(c, s, x)) if shas(c, s, x) else NONE
@model(X + 'get_index')
def _(c, a, ta):
    s = c.read(target(c, a[0])); i = a[1]
    if c.lt(i, slen(c, s)): return some(('rv', sget(c, s, i)))
    return NONE
@model(X + 'insert')
def _(c, a, ta):
    pl = target(c, a[0]); s = c.read(pl)
    if shas(c, s, a[1]): return FALSE
    c.write(pl, ('sadd', s, a[1])); return TRUE
@model(X + 'insert_full')
def _(c, a, ta):
    pl = target(c, a[0]); s = c.read(pl)
    if shas(c, s, a[1]): return ('tup', (sidx(c, s, a[1]), FALSE))
    c.write(pl, ('sadd', s, a[1])); return ('tup', (slen(c, s), TRUE))
@model(X + 'len')
def _(c, a, ta): return c.norm(slen(c, c.read(target(c, a[0]))))
@model(X + 'is_empty')
def _(c, a, ta): return B(c.eq(slen(c, c.read(target(c, a[0]))), I(0)))
@model(X + 'clear')
def _(c, a, ta): c.write(target(c, a[0]), ('sempty',)); return UNIT
@model(X + 'shrink_to_fit', X + 'reserve')
def _(c, a, ta): return UNIT
@model(X + 'pop')
def _(c, a, ta):
    pl = target(c, a[0]); s = c.norm(c.read(pl))
    if s[0] == 'sadd': c.write(pl, s[1]); return some(s[2])
    n = slen(c, s)
    if c.eq(n, I(0)): return NONE
    e = sget(c, s, c.norm(sub(n, I(1))))
    c.write(pl, ('spop', s)); return some(e)
def capacity(c, n):
    r = c.fresh('cap%'); c.facts.assume(('lt', r, n), False, 'axiom'); return r
@model(X + 'capacity')
def _(c, a, ta): return capacity(c, slen(c, c.read(target(c, a[0]))))
@model(V + 'capacity')
def _(c, a, ta): return capacity(c, vlen(c, c.read(target(c, a[0]))))
@model(X + 'iter')
def _(c, a, ta): return base('iset', (c.read(target(c, a[0])), None, 'ref'))

# ---------------------------------------------------------------- comparisons, copies
@model('core::cmp::PartialEq::eq')
def _(c, a, ta): return B(c.eq(c.strip(a[0]), c.strip(a[1])))
@model('core::cmp::PartialEq::ne')
def _(c, a, ta): return B(not c.eq(c.strip(a[0]), c.strip(a[1])))
def vlt(c, a, b):
    a = c.strip(a); b = c.strip(b)
    if a[0] == 'tup' or b[0] == 'tup':
        n = len(a[1]) if a[0] == 'tup' else len(b[1])
        for i in range(n):
            x, y = c.proj(a, ('f', i)), c.proj(b, ('f', i))
            if vlt(c, x, y): return True
            if not c.eq(x, y): return False
        return False
    if (a[0] == 'adt' and a[1] == OPT) or (b[0] == 'adt' and b[1] == OPT):
        s, p = opt(c, a); t, q = opt(c, b)
        if not t: return False
        if not s: return True
        return vlt(c, p, q)
    return c.lt(a, b)
@model('core::cmp::PartialOrd::lt')
def _(c, a, ta): return FALSE if islog(ta) else B(vlt(c, a[0], a[1]))
@model('core::cmp::PartialOrd::gt')
def _(c, a, ta): return FALSE if islog(ta) else B(vlt(c, a[1], a[0]))
@model('core::cmp::PartialOrd::le')
def _(c, a, ta): return FALSE if islog(ta) else B(not vlt(c, a[1], a[0]))
@model('core::cmp::PartialOrd::ge')
def _(c, a, ta): return FALSE if islog(ta) else B(not vlt(c, a[0], a[1]))
def islog(ta): return any(t and t[0] == 'adt' and t[1].startswith('log::') for t in ta)
@model('core::cmp::Ord::cmp')
def _(c, a, ta):
    x, y = c.strip(a[0]), c.strip(a[1])
    if vlt(c, x, y): return ('adt', ORD, 0, ())
    if c.eq(x, y): return ('adt', ORD, 1, ())
    return ('adt', ORD, 2, ())
@model('core::cmp::PartialOrd::partial_cmp')
def _(c, a, ta): return some(M['core::cmp::Ord::cmp'](c, a, ta))
@model('core::cmp::Ord::max', 'core::cmp::max')
def _(c, a, ta): return a[1] if not vlt(c, a[1], a[0]) else a[0]
@model('core::cmp::Ord::min', 'core::cmp::min')
def _(c, a, ta): return a[0] if not vlt(c, a[1], a[0]) else a[1]
@model('core::clone::Clone::clone')
def _(c, a, ta): return c.strip1(a[0]) if ta and ta[0][0] != 'ref' else c.strip1(a[0])
@model('core::clone::Clone::clone_from')
def _(c, a, ta): c.write(target(c, a[0]), c.strip(a[1])); return UNIT
@model('core::mem::replace')
def _(c, a, ta):
    pl = c.derefpl(a[0]); v = c.read(pl); c.write(pl, a[1]); return v
@model('core::mem::take')
def _(c, a, ta):
    pl = c.derefpl(a[0]); v = c.read(pl); c.write(pl, default_of(c, ta[0])); return v
@model('core::mem::swap')
def _(c, a, ta):
    p, q = c.derefpl(a[0]), c.derefpl(a[1]); x, y = c.read(p), c.read(q)
    c.write(p, y); c.write(q, x); return UNIT
@model('core::mem::size_of')
def _(c, a, ta): return ('sizeof', ta[0])
@model('core::mem::drop', 'core::hint::must_use', 'core::convert::identity')
def _(c, a, ta): return a[0] if a else UNIT
@model('core::ops::arith::Add::add')
def _(c, a, ta): return add(c.strip(a[0]), c.strip(a[1]))
@model('core::ops::arith::Sub::sub')
def _(c, a, ta): return sub(c.strip(a[0]), c.strip(a[1]))
@model('core::ops::arith::AddAssign::add_assign')
def _(c, a, ta):
    pl = target(c, a[0]); c.write(pl, add(c.read(pl), c.strip(a[1]))); return UNIT
@model('core::ops::arith::SubAssign::sub_assign')
def _(c, a, ta):
    pl = target(c, a[0]); c.write(pl, sub(c.read(pl), c.strip(a[1]))); return UNIT
@model('usize::checked_div')
def _(c, a, ta):
    if c.eq(a[1], I(0)): return NONE
    return some(c.norm(('op', 'Div', a[0], a[1])))
for _t, _w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('usize', 64)):
    M['%s::max_value' % _t] = lambda c, a, ta, w=_w: I(2 ** w - 1)
    M['%s::min_value' % _t] = lambda c, a, ta: I(0)
@model('usize::saturating_sub')
def _(c, a, ta):
    if c.lt(a[0], a[1]): return I(0)
    return c.norm(sub(a[0], a[1]))
@model('usize::checked_sub')
def _(c, a, ta):
    if c.lt(a[0], a[1]): return NONE
    return some(c.norm(sub(a[0], a[1])))
@model('usize::wrapping_add', 'usize::saturating_add')
def _(c, a, ta): return add(a[0], a[1])
@model('usize::wrapping_sub')
def _(c, a, ta): return sub(a[0], a[1])
@model('usize::checked_add')
def _(c, a, ta): return some(add(a[0], a[1]))

def default_of(c, t):
    h = thead(t)
    if h in VECS: return ('arr', ())
    if h in MAPS + SETS: return ('mempty',)
    if h in ISETS: return ('sempty',)
    if h == OPT: return NONE
    if t and t[0] == 'int': return I(0)
    if t and t[0] == 'bool': return FALSE
    if t and t[0] == 'tuple': return ('tup', tuple(default_of(c, x) for x in t[1]))
    if h and h.endswith('phantom::PhantomData') or h == 'core::marker::PhantomData': return UNIT
    if h and 'BuildHasher' in h: return UNIT
    if t and t[0] == 'adt':
        r = c.resolve_trait_name('core::default::Default', 'default', t)
        if r is not None and r[0] in c.F.bodies: return c.call_uid(r[0], [], r[1])
    if t and t[0] == 'param': return ('default', t)
    raise Undecided('default of %s' % (t,))
def resolve_trait_name(self, tr, name, t):
    for im in self.F.by_trait.get(tr, []):
        env = {}
        if unify_ty(self.F.ty(im['self']), t, env):
            for nm, iu, _ in im['items']:
                if nm == name: return iu, env
    return None
Ctx.resolve_trait_name = resolve_trait_name
@model('core::default::Default::default')
def _(c, a, ta): return default_of(c, ta[0])

# ---------------------------------------------------------------- references and boxes
@model('alloc::boxed::Box::new')
def _(c, a, ta):
    l = c.alloc(a[0], 'box')
    if ta: c.dynty[(l, ())] = ta[0]
    return ('ref', l, ())
@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow')
def _(c, a, ta):
    # Vec -> slice, Box<T> -> T, Cow -> slice, guards
    r = c.norm(a[0]); pl = c.derefpl(r)
    v = c.read(pl)
    h = thead(ta[0])
    if h == 'alloc::borrow::Cow':
        if v[0] == 'adt':
            if v[2] == 0: return v[3][0]
            return ('ref', pl[0], pl[1] + (('v', 1), ('f', 0))) if not isinstance(pl[0], tuple) else ('rv', v[3][0])
        return ('rv', c.norm(('cow', v)))
    if v[0] == 'ref' or v[0] == 'rv': return v
    if v[0] == 'guard': return v[1]
    return r
@model('core::convert::Into::into', 'core::convert::From::from')
def _(c, a, ta):
    src, dst = ta[0], ta[1] if len(ta) > 1 else None
    # crate-local From impl?
    if dst is not None:
        for im in c.F.by_trait.get('core::convert::From', []):
            env = {}
            if unify_ty(c.F.ty(im['self']), dst, env) and all(unify_ty(c.F.arg(x), y, env) for x, y in zip(im['targs'][1:], [src])):
                for nm, iu, _ in im['items']:
                    if nm == 'from' and iu in c.F.bodies: return c.call_uid(iu, a, env)
    if dst is not None and thead(dst) == 'alloc::borrow::Cow':
        if src[0] == 'ref': return ('adt', 'alloc::borrow::Cow', 0, (a[0],))
        return ('adt', 'alloc::borrow::Cow', 1, (a[0],))
    if dst is not None and thead(dst) == OPT and thead(src) != OPT: return some(a[0])
    return a[0]
@model('alloc::borrow::Cow::into_owned', 'alloc::borrow::Cow::to_mut')
def _(c, a, ta):
    v = c.strip(a[0])
    if v[0] == 'adt': return c.strip(v[3][0])
    return c.norm(('cow', v))

# ---------------------------------------------------------------- panics, formatting, logging
for n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'std::panicking::begin_panic', 'core::panicking::panic_display', 'core::option::expect_failed',
          'core::panicking::unreachable_display', 'core::panicking::assert_failed', 'core::panicking::panic_explicit', 'core::panicking::panic_str_2015'):
    def _p(c, a, ta):
        raise Panic('panic!', c.span())
    M[n] = _p
for n in ('core::fmt::Arguments::new', 'core::fmt::Arguments::from_str', 'core::fmt::Arguments::new_const', 'core::fmt::Arguments::new_v1', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'alloc::fmt::format',
          'log::max_level', 'log::__private_api::loc'):
    def _o(c, a, ta, n=n):
        return ('fmt', n.split('::')[-1], tuple(c.deep(x) for x in a))
    M[n] = _o
M['log::__private_api::log'] = lambda c, a, ta: UNIT
M['log::max_level'] = lambda c, a, ta: ('konst', 'loglevel')

def cast(c, kind, v, st, t):
    if 'Unsize' in kind:
        if v[0] == 'ref' and st[0] == 'ref' and st[2][0] not in ('dyn', 'param', 'slice', 'array'):
            c.dynty[(v[1], v[2])] = st[2]
        return v
    if 'IntToInt' in kind:
        if v[0] == 'int': return v
        if st[0] == 'int' and t[0] == 'int': return c.norm(('icast', st[1], t[1], v)) if c.castmode else v
        if st[0] == 'bool': return I(1 if c.decide(v) else 0)
        return v
    return v
M[('cast',)] = cast
Ctx.castmode = False
Ctx.unroll = False

# ---------------------------------------------------------------- ids
IDT = 'rust_graph::generic::dtype::IdType::'
@model(IDT + 'new')
def _(c, a, ta): return c.norm(('idnew', a[0]))
@model(IDT + 'id')
def _(c, a, ta): return c.norm(('idid', c.strip(a[0])))
@model(IDT + 'max_value')
def _(c, a, ta): return ('idmax', ta[0][1] if ta and len(ta[0]) > 1 else '?')
@model(IDT + 'max_usize')
def _(c, a, ta): return ('idmaxu', ta[0][1] if ta and len(ta[0]) > 1 else '?')
@model(IDT + 'increment')
def _(c, a, ta): return c.norm(('idnew', add(c.norm(('idid', c.strip(a[0]))), I(1))))

# ---------------------------------------------------------------- loop summaries
def summarise(c, L, k, init, hv, news, alts, simple):
    """value of a modified location after the loop"""
    if init is None or hv[0] != 'lv': return None
    if not simple: return None
    # additive counters
    ds = []
    for n in news:
        d = sub(n, hv) if n[0] in ('lin', 'lv', 'int') or n == hv else None
        if d is None or contains(d, lambda t: t == hv): ds = None; break
        ds.append(d)
    if ds is not None and (init[0] in ('int', 'lin') or True):
        if all(d == I(0) for d in ds): return init
        comp = mk_comp([(g, gu, d) for (g, gu, s), d in zip(alts, ds) if d != I(0)])
        return add(init, c.norm(('csum', comp)))
    # appended sequences
    seqs = []
    for n in news:
        items = []; x = n
        while x[0] in ('vpush', 'vext'):
            items.append(('1', x[2]) if x[0] == 'vpush' else ('*', x[2])); x = x[1]
        if x != hv: seqs = None; break
        items.reverse(); seqs.append(items)
    if seqs is not None and any(seqs):
        if all(len(s) <= 1 for s in seqs):
            out = []
            for (g, gu, s), it in zip(alts, seqs):
                if not it: continue
                if it[0][0] == '1': out.append((g, gu, it[0][1]))
                else:
                    for vs, gs, p in it[0][1][1]:
                        ren = {v: c.fresh('y%') for v in vs}
                        out.append((tuple(g) + tuple(ren[v] for v in vs), tuple(gu) + tuple((replace(a, ren), b) for a, b in gs), replace(p, ren)))
            comp = mk_comp([(g, gu, deepv(p)) for g, gu, p in out])
            return ('vext', init, comp, L.order)
        return None
    # keyed containers
    ops = []
    for n in news:
        o = map_ops(c, n, hv)
        if o is None: ops = None; break
        ops.append(o)
    if ops is not None and any(ops):
        if all(o[0] in ('ins', 'rem') for os in ops for o in os):
            check_independent(c, hv, alts, ops)
            pay = [(g, gu, ('ops', tuple(o))) for (g, gu, s), o in zip(alts, ops) if o]
            # values may mention the loop value itself
            pay = [(g, gu, ('ops', tuple(replace(o, {hv: init}) for o in p[1]))) for g, gu, p in pay]
            return ('mbulk', init, mk_comp(pay))
    # ordered sets
    adds = []
    for n in news:
        x = n; items = []
        while x[0] == 'sadd': items.append(x[2]); x = x[1]
        if x != hv: adds = None; break
        adds.append(items)
    if adds is not None and any(adds) and all(len(s) <= 1 for s in adds):
        # elements that are skipped because they are present already belong to the set anyway
        out = []
        for (g, gu, s), it in zip(alts, adds):
            if it:
                out.append((g, tuple((a, b) for a, b in gu if not contains(a, lambda t: t == hv)), it[0]))
        rest = [(g, gu) for (g, gu, s), it in zip(alts, adds) if not it]
        for g, gu in rest:
            if not any(contains(a, lambda t: t == hv) and b for a, b in gu): return None
        return ('sbulk', init, mk_comp(out)) if init[0] != 'sempty' else ('scoll', mk_comp(out))
    return None

def deepv(t): return t

def map_ops(c, n, hv):
    ops = []; x = n
    while True:
        if x == hv: break
        if x[0] == 'mins': ops.append(('ins', x[2], x[3])); x = x[1]
        elif x[0] == 'mrem': ops.append(('rem', x[2])); x = x[1]
        elif x[0] == 'mbulk': return None
        else: return None
    ops.reverse()
    return ops

def check_independent(c, hv, alts, ops):
    """reads of the container in one iteration must not see another iteration's writes, unless the
    writes keep what was read"""
    for (g, gu, s), os in zip(alts, ops):
        for o in os:
            kt = o[1]
            # every write goes to a key that is a loop element itself (elements are distinct) and
            # reads in an iteration use the same key
            reads = [r for r in s[5] if r[0] == 'lvread' and r[1] == hv[:6]]
            for r in reads:
                if r[2] == 'card': raise Undecided('size of a container modified by the loop')
                if r[3] == kt: continue
                raise Undecided('loop-carried dependence through a container')
            if not any(kt == x for x in g):
                if contains(kt, lambda t: t in g): continue   # computed key: last writer is decided by bulk_find's uniqueness assumption
                raise Undecided('loop writes one key repeatedly')
M[('summarise',)] = summarise

import models2
