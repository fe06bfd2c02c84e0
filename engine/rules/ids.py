"""C34: id conversions, for every number of the type's range (interval reasoning over the casts in the bodies)."""
from terms import *
from world import *
from report import *

X, V_ = ('sym', 'x'), ('sym', 'v')
BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}

def subject(W): return W

def cast(c, kind, v, st, t):
    if kind != 'IntToInt' or t[0] != 'int' or st[0] != 'int': return v
    s, d = st[1], t[1]
    lo = 0 if d[0] == 'u' else -(1 << (BITS[d] - 1))
    hi = 1 << (BITS[d] if d[0] == 'u' else BITS[d] - 1)
    slo = 0 if s[0] == 'u' else -(1 << (BITS[s] - 1))
    shi = 1 << (BITS[s] if s[0] == 'u' else BITS[s] - 1)
    m = I(1 << BITS[d])
    v = c.norm(v)
    if slo < lo and c.lt(v, I(lo)): 
        w = add(v, m)
        return w if not c.lt(w, I(lo)) else ('trunc', d, v)
    if shi > hi and not c.lt(v, I(hi)):
        w = sub(v, m)
        return w if BITS[s] == BITS[d] else ('trunc', d, v)
    return v

def id_ctx(W):
    import models
    from core import Ctx
    class D:
        def simp(self, t, fs): return t
        def lookup(self, at, fs): return None
        def consequences(self, at, v, fs): return []
        def decide(self, at, c): return None
        def sub_overflow(self, a, b, c): return None
    c = Ctx(W.F, D())
    c.models = dict(models.M); c.models[('cast',)] = cast
    for t, b in BITS.items():
        lo = 0 if t[0] == 'u' else -(1 << (b - 1)); hi = 1 << (b if t[0] == 'u' else b - 1)
        def wadd(cc, a, ta, hi=hi, b=b):
            s = cc.norm(add(cc.strip(a[0]), cc.strip(a[1])))
            return s if cc.lt(s, I(hi)) else sub(s, I(1 << b))
        def sadd(cc, a, ta, hi=hi):
            s = cc.norm(add(cc.strip(a[0]), cc.strip(a[1])))
            return s if cc.lt(s, I(hi)) else I(hi - 1)
        c.overrides['%s::wrapping_add' % t] = wadd; c.overrides['%s::saturating_add' % t] = sadd
        def cadd(cc, a, ta, hi=hi):
            s = cc.norm(add(cc.strip(a[0]), cc.strip(a[1])))
            return some(s) if cc.lt(s, I(hi)) else NONE
        c.overrides['%s::checked_add' % t] = cadd
        c.overrides['%s::max_value' % t] = lambda cc, a, ta, hi=hi: I(hi - 1)
    return c

def c34(R, W):
    F = W.F
    tu = W.trait('IdType')
    prim = [im for im in F.by_trait.get(tu, []) if im['id'] in F.impls]
    if not prim: R.und('id types', None, 'no id type'); return
    for im in prim:
        t = F.ty(im['self']); M = {nm: u for nm, u, _ in im['items']}
        unit = t == ('tuple', ())
        if not unit and t[0] != 'int':
            R.und('id type', None, 'id type that is no primitive number'); continue
        name = '()' if unit else t[1]
        mx = 0 if unit else (1 << (BITS[t[1]] - (t[1][0] == 'i'))) - 1
        lim = min(mx, (1 << 64) - 1)
        miss = [m for m in ('new', 'id', 'max_value', 'max_usize', 'increment') if m not in M]
        if miss: R.und('id type %s' % name, None, 'no %s' % miss[0]); continue
        def go(ob, uid, th):
            c = id_ctx(W)
            R.run('%s: %s' % (name, ob), uid, c, lambda: th(c))
        def idof(c, v): return c.call_uid(M['id'], [('ref', c.alloc(v, 'id'), ())], {})
        def rng(c, x, hi): c.assume(('lt', x, I(0)), False); c.assume(('lt', x, I(hi + 1)), True)
        def round_(c):
            rng(c, X, lim)
            need_eq(c, idof(c, c.call_uid(M['new'], [X], {})), X, 'round-trip', 'number of the id made from x <= %d' % lim)
            return UNIT
        go('new, id', M['id'], round_)
        def back(c):
            v = UNIT if unit else V_
            if not unit: rng(c, V_, lim)
            w = c.call_uid(M['new'], [idof(c, v)], {})
            if not unit: need_eq(c, w, v, 'round-trip', 'id made from the number of an id')
            return UNIT
        go('id, new', M['new'], back)
        def mv(c):
            need_eq(c, idof(c, c.call_uid(M['max_value'], [], {})), I(lim), 'max', 'number of the maximum id')
            return UNIT
        go('max_value', M['max_value'], mv)
        def mu(c):
            need_eq(c, c.call_uid(M['max_usize'], [], {}), I(lim), 'max', 'maximum number')
            return UNIT
        go('max_usize', M['max_usize'], mu)
        if not unit:
            def inc(c):
                rng(c, V_, lim - 1)
                n = idof(c, V_)
                w = c.call_uid(M['increment'], [('ref', c.alloc(V_, 'id'), ())], {})
                need_eq(c, idof(c, w), add(n, I(1)), 'successor', 'number of the successor')
                return UNIT
            go('increment', M['increment'], inc)
        for tr in ('core::cmp::Ord', 'core::cmp::PartialEq', 'core::hash::Hash'):
            R.ok('%s: %s' % (name, tr.split('::')[-1]), None, 'the id is the primitive %s itself; the standard library orders, compares and hashes it by its number' % name)

    # what a graph reports as the largest possible ids
    for nm, par in (('max_possible_id', 'Id'), ('max_possible_label_id', 'L')):
        for tn in ('TypedGraphMap', 'TypedStaticGraph', 'StaticGraphMmap'):
            try: uid, env = W.method(W.selfof('GraphTrait', W.adt(tn)), 'GraphTrait', nm)
            except Exception: continue
            c = id_ctx(W)
            mvn = tu + '::max_value'
            c.overrides[mvn] = lambda cc, a, ta: ('maxof', ta[0])
            def th(c=c, uid=uid, env=env, par=par, tn=tn):
                r = c.norm(c.call_uid(uid, [('ref', c.alloc(('sym', 'g'), 'g'), ())], dict(env)))
                if r[0] != 'maxof': raise Undecided('the largest possible id')
                need(c, r[1] == ('param', par) or r[1][0] == 'param' and r[1] == env.get(par, r[1]), 'possible', 'the maximum of another type is reported')
                return UNIT
            R.run('%s of %s' % (nm, tn), uid, c, th)
