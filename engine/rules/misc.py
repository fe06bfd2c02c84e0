"""C44: graphs built from edge lists.  C45: copies and comparisons of values.  C46: the boxed iterator wrapper.
C47: what a graph says about its own kind."""
from terms import *
from world import *
from report import *
from absgraph import *
from core import Ctx, Inductive
import models

P, Q = ('sym', 'p?'), ('sym', 'q?')
RES = 'core::result::Result'
CLONE, EQ = 'core::clone::Clone', 'core::cmp::PartialEq'
ITER = 'core::iter::traits::iterator::Iterator'

def subject(W): return W

# ---------------------------------------------------------------- C44
def c44(R, W):
    F = W.F
    h = W.adt('TypedGraphMap')
    uid = W.inherent(h, 'from_edges')
    for d in (True, False):
        env = {'Ty': W.Directed if d else W.Undirected}
        tag = 'from_edges<%s>' % ('Directed' if d else 'Undirected')
        # the list is a set of ordered pairs: the directed abstract graph 'lst'
        def listed(c, a, b): return c.decide(('E', 'lst', a, b))
        def ctx(): 
            c = gctx(W, {'lst': True}); c.anydir = d
            return c
        def build(c):
            g = gid(c, c.call_uid(uid, [base('gedges', ('lst', 'id'))], dict(env)))
            if g is None: raise Undecided('the graph that is built')
            return g
        c = ctx()
        def edges(c=c):
            g = build(c)
            s = state(c, g, ('e', (P, Q)))
            want = listed(c, P, Q) or (not d and listed(c, Q, P))
            need(c, (s[0] == 'present') == want, 'edges', 'a listed edge is missing from the graph' if want else 'the graph has an edge that is not listed')
            if want: need_eq(c, s[1], NONE, 'label', 'label of an edge made from a list')
            return UNIT
        R.run(tag + ': edges', uid, c, edges)
        c = ctx()
        def ends(c=c):
            c.assume(('E', 'lst', P, Q), True)
            g = build(c)
            for x in (P, Q):
                s = state(c, g, ('n', x))
                need(c, s[0] == 'present', 'nodes', 'the endpoint of a listed edge is no node of the graph')
                need_eq(c, s[1], NONE, 'label', 'label of a node made from a list')
            return UNIT
        R.run(tag + ': endpoints', uid, c, ends)
        c = ctx()
        def others(c=c):
            g = build(c)
            if state(c, g, ('n', P))[0] == 'present':
                need(c, any(v and k[0] == 'E' and k[1] == 'lst' and any(c.norm(x) == c.norm(P) for x in k[2:]) for k, v in c.facts.atoms.items()),
                     'nodes', 'the graph has a node that is no endpoint of a listed edge')
            return UNIT
        R.run(tag + ': no other node', uid, c, others)
        c = ctx()
        def dirn(c=c):
            g = build(c)
            need(c, c.dom.directed[g] == d, 'direction', 'direction of the graph')
            return UNIT
        R.run(tag + ': direction', uid, c, dirn)
        if any(o['status'] == 'undecided' and o['obligation'].startswith(tag) for o in R.obs): one_more(R, W, uid, env, tag, d)

def one_more(R, W, uid, env, tag, d):
    """a loop that looks at the graph it fills: one pair of the list, added to any graph made from a list so far"""
    F = W.F
    MG, LG = W.trait('MutGraphTrait'), W.trait('GraphTrait')
    def run(ob, query, expect):
        c = gctx(W, {'lst': True}); c.anydir = d; st = {}
        def havoc(c, l, p, init, n):
            if init[0] != 'it' and not st['L'].has_iter(init): raise Undecided('state of the loop: %s' % show(init)[:60])
            return st['L'].setmode(init, 'gen')
        def inv(c, hv, init):
            if any(o[0] != 'gop' or touches(o, g) for o in c.ops for g in [x for x, v in c.g_mut.items() if v == 'empty']): raise Undecided('changes before the loop')
            new = [g for g, v in c.g_mut.items() if v == 'empty']
            if len(new) != 1: raise Undecided('the graph that is built')
            c.g_mut[new[0]] = 'same'; c.dom.empty.discard(new[0]); st['g'] = new[0]
        def hook(fr, bb, outer):
            if fr.uid != uid or outer is not None or any(bb in b and h != bb for h, b in fr.loops.items()): return None
            st['L'] = L = Inductive(fr, bb, outer, havoc, inv); return L
        c.loophook = hook
        def told(nm, q, was):
            old = c.overrides[nm]
            def f(cc, a, ta):
                g = gid(cc, a[0])
                if g is None or cc.g_mut.get(g) != 'same': return old(cc, a, ta)
                s = state(cc, g, q(cc, a))
                r = old(cc, a, ta) if was else None
                return B((s[0] == 'absent') == was)
            c.overrides[nm] = f
        node = lambda cc, a: ('n', cc.strip(a[1])); edge = lambda cc, a: ('e', (cc.strip(a[1]), cc.strip(a[2])))
        told(MG + '::add_node', node, True); told(MG + '::add_edge', edge, True)
        told(LG + '::has_node', node, False); told(LG + '::has_edge', edge, False)
        def th():
            st.clear()
            g = gid(c, c.call_uid(uid, [base('gedges', ('lst', 'id'))], dict(env)))
            L = st.get('L')
            if L is None or g != st.get('g'): raise Undecided('the graph that is built')
            if not L.backs: raise Undecided('the loop over the list')
            c.restore(L.backs[c.choose(len(L.backs))][1])
            e = [(k[2], k[3]) for k, v in c.facts.atoms.items() if k[0] == 'E' and k[1] == 'lst' and v]
            e = sorted({(c.norm(a), c.norm(b)) for a, b in e}, key=repr)
            if len(e) != 1: raise Undecided('the pair of one iteration')
            a, b = e[0]
            c.dom.directed[g] = d
            if c.g_mut.get(g) != 'same': c.g_mut[g] = 'same'
            return expect(c, g, a, b, L)
        R.run('%s: %s' % (tag, ob), uid, c, th)
    def edges(c, g, a, b, L):
        was = state(c, g, ('e', (P, Q)), [])[0] == 'present'
        same = (c.eq(P, a) and c.eq(Q, b)) or (not d and c.eq(P, b) and c.eq(Q, a))
        s = state(c, g, ('e', (P, Q)))
        if same: need(c, s[0] == 'present', 'edges', 'a listed edge is missing from the graph')
        else: need(c, (s[0] == 'present') == was, 'edges', 'the graph has an edge that is not listed' if not was else 'an edge listed before is gone')
        return UNIT
    def nodes(c, g, a, b, L):
        was = state(c, g, ('n', P), [])[0] == 'present'
        s = state(c, g, ('n', P))
        if was or c.eq(P, a) or c.eq(P, b): need(c, s[0] == 'present', 'nodes', 'the endpoint of a listed edge is no node of the graph')
        else: need(c, s[0] == 'absent', 'nodes', 'the graph has a node that is no endpoint of a listed edge')
        return UNIT
    run('edges, pair by pair', None, edges); run('nodes, pair by pair', None, nodes)
    if not any(o['status'] == 'violated' and o['obligation'].startswith(tag) for o in R.obs): two(R, W, uid, env, tag, d)

def two(R, W, uid, env, tag, d):
    """a loop that remembers something from one pair to the next: lists of two pairs"""
    MG, LG = W.trait('MutGraphTrait'), W.trait('GraphTrait')
    prs = [(('sym', 'a1'), ('sym', 'b1')), (('sym', 'a2'), ('sym', 'b2'))]
    c = gctx(W, {}); c.anydir = d
    def told(nm, q, was):
        old = c.overrides[nm]
        def f(cc, a, ta):
            g = gid(cc, a[0])
            if g is None: return old(cc, a, ta)
            s = state(cc, g, q(cc, a))
            if was: old(cc, a, ta)
            return B((s[0] == 'absent') == was)
        c.overrides[nm] = f
    node = lambda cc, a: ('n', cc.strip(a[1])); edge = lambda cc, a: ('e', (cc.strip(a[1]), cc.strip(a[2])))
    told(MG + '::add_node', node, True); told(MG + '::add_edge', edge, True)
    told(LG + '::has_node', node, False); told(LG + '::has_edge', edge, False)
    def th():
        g = gid(c, c.call_uid(uid, [('it', 'lit', tuple((('tup', p), ()) for p in prs))], dict(env)))
        if g is None: raise Undecided('the graph that is built')
        for a, b in prs:
            need(c, state(c, g, ('e', (a, b)))[0] == 'present', 'edges', 'a listed edge is missing from the graph')
            for x in (a, b): need(c, state(c, g, ('n', x))[0] == 'present', 'nodes', 'the endpoint of a listed edge is no node of the graph')
        if state(c, g, ('e', (P, Q)))[0] == 'present':
            need(c, any(c.eq(P, a) and c.eq(Q, b) or not d and c.eq(P, b) and c.eq(Q, a) for a, b in prs), 'edges', 'the graph has an edge that is not listed')
        if state(c, g, ('n', P))[0] == 'present': need(c, any(c.eq(P, x) for p in prs for x in p), 'nodes', 'the graph has a node that is no endpoint of a listed edge')
        return UNIT
    n = len(R.obs)
    R.run(tag + ': lists of two pairs', uid, c, th)
    R.obs[n:] = [o for o in R.obs[n:] if o['status'] == 'violated']

# ---------------------------------------------------------------- C45
def crate_adts(W, trait):
    for im in W.F.by_trait.get(trait, []):
        if im['id'] not in W.F.impls: continue
        t = W.F.ty(im['self'])
        h = head_of(t)
        if t[0] != 'adt' or h not in W.F.adts or not h.startswith('rust_graph::'): continue
        yield im, h, dict((nm, u) for nm, u, _ in im['items'])

def value(c, F, adt, vi, tag):
    """a value of this variant with every field a symbol"""
    def fld(i, f):
        x = ('sym', '%s.%d' % (tag, i))
        t = F.ty(f['t'])
        if t[0] == 'ref': return ('ref', c.alloc(x, 'f'), ())
        if t[0] == 'adt' and t[1].endswith('boxed::Box'): return ('ref', c.alloc(x, 'f'), ())
        return x
    return ('adt', adt, vi, tuple(fld(i, f) for i, f in enumerate(F.adts[adt]['variants'][vi]['f'])))

def seen(c, v, i):
    x = v[3][i]
    return c.strip(x)

def alike(c, x, y):
    """whether this path knows the two values equal, unequal or neither (None)"""
    x, y = c.norm(x), c.norm(y)
    if x == y: return True
    k = c.known(('eq', x, y))
    if k is not None: return k
    k = c.known(('eq', ('idid', x), ('idid', y)))
    if k is not None: return k
    for v in (0, 1):
        p, q = c.known(('isv', x, v)), c.known(('isv', y, v))
        if p is None or q is None: continue
        if p != q: return False
        if p: return True if v == 0 else alike(c, ('vf', x, 1, 0), ('vf', y, 1, 0))
    return None

def marker(F, t): return head_of(t) in ('core::marker::PhantomData',)

def c45(R, W):
    F = W.F
    n = 0
    for im, h, M in crate_adts(W, CLONE):
        u = M.get('clone')
        name = F.defs[h]['name']
        if u not in F.bodies: continue
        if not F.adts[h]['variants']: continue
        n += 1
        for vi, var in enumerate(F.adts[h]['variants']):
            ob = 'clone %s' % name + ('::%s' % var['n'] if len(F.adts[h]['variants']) > 1 else '')
            c = Ctx(F); c.models = dict(models.M)
            c.overrides['core::cell::RefCell::borrow'] = lambda cc, a, ta: ('ref', cc.alloc(('inside', cc.strip(a[0])), 'cell'), ())
            c.overrides['core::cell::RefCell::new'] = lambda cc, a, ta: cc.norm(a[0])[1] if cc.norm(a[0])[0] == 'inside' else ('cellof', cc.norm(a[0]))
            c.overrides['core::ops::deref::Deref::deref'] = lambda cc, a, ta: cc.norm(cc.read(cc.derefpl(cc.norm(a[0])))) if cc.strip(a[0])[0] == 'inside' and cc.norm(cc.read(cc.derefpl(cc.norm(a[0]))))[0] == 'ref' else NotImplemented
            def th(c=c, h=h, vi=vi, u=u, var=var):
                v = value(c, F, h, vi, 'v')
                l = c.alloc(v, 'orig')
                r = c.call_uid(u, [('ref', l, ())], {})
                need(c, c.norm(c.read((l, ()))) == c.norm(v), 'original', 'cloning changes the original')
                if c.norm(r)[0] in ('ref', 'rv'): r = c.strip1(r)
                r = c.norm(r)
                if r[0] != 'adt' or r[1] != h: raise Undecided('the clone')
                need(c, r[2] == vi, 'variant', 'the copy is of another variant')
                for i, f in enumerate(var['f']):
                    if marker(F, F.ty(f['t'])): continue
                    need_eq(c, c.strip(r[3][i]), seen(c, v, i), f['n'], 'attribute %s of the copy' % f['n'])
                return UNIT
            R.run(ob, u, c, th)
    if not n: R.und('clone', None, 'no copyable type found')
    eqs(R, W)

def eqs(R, W):
    F = W.F
    import rules.equality as eqm
    done = 0
    for im, h, M in crate_adts(W, EQ):
        u = M.get('eq')
        name = F.defs[h]['name']
        if u not in F.bodies or not F.adts[h]['variants']: continue
        if eqm.is_graph(W, F.ty(im['self'])) or name == 'SetMap': continue      # C21; set semantics: C32
        done += 1
        vs = F.adts[h]['variants']
        for vi, var in enumerate(vs):
            for vj, var2 in enumerate(vs):
                ob = 'eq %s' % name + (': %s, %s' % (var['n'], var2['n']) if len(vs) > 1 else '')
                if vi != vj and vj < vi and len(vs) > 3: continue
                c = Ctx(F); c.models = dict(models.M)
                def th(c=c, h=h, vi=vi, vj=vj, u=u, var=var):
                    a, b = value(c, F, h, vi, 'a'), value(c, F, h, vj, 'b')
                    r = c.decide(c.call_uid(u, [('ref', c.alloc(a, 'a'), ()), ('ref', c.alloc(b, 'b'), ())], {}))
                    if vi != vj:
                        need(c, not r, 'variant', 'values of different variants compare equal')
                        return UNIT
                    fl = [i for i, f in enumerate(var['f']) if not marker(F, F.ty(f['t']))]
                    for i in fl:
                        if head_of(F.ty(var['f'][i]['t'])) == OPT and any(all(c.known(('isv', c.norm(seen(c, x, i)), k)) is False for k in (0, 1)) for x in (a, b)): raise Infeasible()
                    same = lambda i: alike(c, seen(c, a, i), seen(c, b, i)) is True
                    if r:
                        for i in fl:
                            need(c, same(i), var['f'][i]['n'], 'values differing in %s compare equal' % var['f'][i]['n'])
                    elif all(same(i) for i in fl): raise Fail('reflexive', 'values with equal attributes compare unequal')
                    elif not any(alike(c, seen(c, a, i), seen(c, b, i)) is False for i in fl): raise Undecided('why the values differ')
                    return UNIT
                R.run(ob, u, c, th)
    if not done: R.und('eq', None, 'no comparable value type found')

# ---------------------------------------------------------------- C46
def c46(R, W):
    F = W.F
    h = W.adt('Iter')
    if len(F.adts[h]['variants']) != 1: R.und('iterator wrapper', None, 'shape of the wrapper'); return
    new = W.inherent(h, 'new'); empty = W.inherent(h, 'empty')
    ims = [im for im in F.by_trait.get(ITER, []) if head_of(F.ty(im['self'])) == h]
    if len(ims) != 1: R.und('iterator wrapper', None, 'no iterator implementation'); return
    items = dict((nm, u) for nm, u, _ in ims[0]['items'])
    INNER = ('sym', 'inner')
    def ctx():
        c = Ctx(F); c.models = dict(models.M); c.inner = None
        def hook(nm):
            def f(cc, a, ta):
                v = cc.norm(a[0])
                for _ in range(4):
                    if v[0] in ('ref', 'rv'): v = cc.norm(cc.read(cc.derefpl(v)))
                if v != INNER: return NotImplemented
                cc.ops.append(('asked', nm, tuple(cc.deep(x) for x in a[1:])))
                return ('answer', nm, len([o for o in cc.ops if o[0] == 'asked']))
            return f
        for nm, _, _ in F.traits[ITER]['items'] if ITER in F.traits else []: c.overrides[ITER + '::' + nm] = hook(nm)
        for nm in ('next', 'size_hint', 'count', 'nth', 'last', 'fold', 'for_each', 'any', 'all', 'find', 'position', 'by_ref', 'skip', 'take'): c.overrides[ITER + '::' + nm] = hook(nm)
        return c
    def wrapped(c):
        l = c.alloc(INNER, 'inner')
        v = c.call_uid(new, [('ref', l, ())], {})
        return v, l
    for nm, u in sorted(items.items()):
        if u not in F.bodies: continue
        c = ctx()
        def th(c=c, nm=nm, u=u):
            v, l = wrapped(c)
            byref = F.ty(F.bodies[u]['locals'][1])[0] == 'ref'
            extra = [('sym', 'arg%d' % i) for i in range(F.bodies[u]['args'] - 1)]
            w = c.alloc(v, 'it')
            r = c.call_uid(u, [('ref', w, ()) if byref else v] + extra, {})
            asked = [o for o in c.ops if o[0] == 'asked']
            if len(asked) != len(c.ops): raise Undecided('other effects of %s' % nm)
            wrong = {'count': lambda x: not x or 'size_hint' in x, 'size_hint': lambda x: not x,
                     'next': lambda x: x != ['next'] and all(y in ('next', 'size_hint', 'last', 'count', 'nth') for y in x)}
            if nm in wrong and wrong[nm]([o[1] for o in asked]):
                raise Fail('asks', '%s() asks the wrapped iterator %s' % (nm, ', '.join(o[1] for o in asked) or 'nothing'))
            if nm == 'size_hint' and asked == [('asked', nm, ())] and c.norm(r) != ('answer', nm, 1):
                lo, hi = (c.norm(c.proj(r, ('f', i))) if False else c.norm(('fld', c.norm(r), i)) for i in (0, 1))
                al = ('fld', ('answer', nm, 1), 0); ah = ('fld', ('answer', nm, 1), 1)
                need(c, c.norm(lo) == c.norm(al) or c.norm(lo) == I(0), 'answer', 'the lower bound of the size hint is not that of the wrapped iterator: %s' % show(c.deep(lo))[:80])
                need(c, c.norm(hi) == c.norm(ah) or c.norm(hi) == NONE, 'answer', 'the upper bound of the size hint is not that of the wrapped iterator: %s' % show(c.deep(hi))[:80])
                return UNIT
            if asked != [('asked', nm, tuple(extra))]: raise Undecided('%s of the wrapper' % nm)
            if nm == 'next':
                r, an = c.norm(r), ('answer', nm, 1)
                if r == NONE: need(c, c.known(('isv', an, 1)) is not True and c.known(('isv', an, 0)), 'answer', 'next() ends before the wrapped iterator does')
                elif r[0] == 'adt' and r[2] == 1: need(c, c.norm(r[3][0]) == c.norm(('vf', an, 1, 0)), 'answer', 'next() returns another item: %s' % show(c.deep(r))[:80])
                else: need(c, r == an, 'answer', 'next() does not return the answer of the wrapped iterator: %s' % show(c.deep(r))[:100])
            else: need_eq(c, r, ('answer', nm, 1), 'answer', 'answer of %s()' % nm)
            if byref:
                need(c, c.norm(c.read((w, ()))) == c.norm(v), 'keeps', '%s() replaces the wrapped iterator' % nm)
            return UNIT
        R.run('wrapper: %s' % nm, u, c, th)
        if nm in ('nth', 'last', 'count', 'next') and R.obs[-1]['status'] == 'undecided': short(R, W, h, new, nm, u)
    c = Ctx(F); c.models = dict(models.M)
    def th():
        v = c.norm(c.call_uid(empty, [], {}))
        if v[0] != 'adt' or v[1] != h: raise Undecided('the empty iterator')
        w = c.alloc(v, 'it')
        r = c.norm(c.call_uid(items['next'], [('ref', w, ())], {}))
        need_eq(c, r, NONE, 'empty', 'first item of the empty iterator')
        return UNIT
    R.run('wrapper: empty', empty, c, th)

def short(R, W, h, new, nm, u):
    """a method that is not plain delegation, on wrapped iterators of up to three items"""
    F = W.F; n = len(R.obs)
    # positions at which the method changes its way are tried too
    far = set()
    def consts(t):
        if isinstance(t, dict):
            if isinstance(t.get('v'), int) and not isinstance(t.get('v'), bool) and 3 < t['v'] < 40: far.add(t['v'])
        elif isinstance(t, (list, tuple)):
            for x in t: consts(x)
    consts(F.bodies[u]['bbs'])
    cases = [(size, k, slack) for size in range(4) for k in (range(4) if nm == 'nth' else (None,)) for slack in (0, 1)]
    cases += [(v + 3, k, 0) for v in sorted(far)[:3] for k in ((v, v + 1) if nm == 'nth' else (None,))]
    for size, k, slack in cases:
        if True:
            c = Ctx(F); c.models = dict(models.M)
            if slack:                                        # the wrapped iterator promises less than it has
                def hint(cc, a, ta):
                    v = cc.norm(a[0])
                    for _ in range(4):
                        if v[0] in ('ref', 'rv'): v = cc.norm(cc.read(cc.derefpl(v)))
                    if v[:2] != ('it', 'lit'): return NotImplemented
                    return ('tup', (I(max(0, len(v[2]) - 1)), NONE))
                c.overrides[ITER + '::size_hint'] = hint
            xs = [('sym', 'item%d' % i) for i in range(size)]
            def th(c=c, k=k):
                l = c.alloc(('it', 'lit', tuple((x, ()) for x in xs)), 'inner')
                v = c.call_uid(new, [('ref', l, ())], {})
                byref = F.ty(F.bodies[u]['locals'][1])[0] == 'ref'
                w = c.alloc(v, 'it')
                r = c.norm(c.call_uid(u, [('ref', w, ()) if byref else v] + ([I(k)] if k is not None else []), {}))
                if nm == 'count': need_eq(c, r, I(size), 'answer', 'count() of an iterator with %d items' % size); return UNIT
                at = {'nth': k, 'last': size - 1, 'next': 0}[nm]
                def got(r, i, what):
                    s, x = opt(c, r)
                    need(c, s == (0 <= i < size), 'answer', '%s of an iterator with %d items is %s' % (what, size, 'an item' if s else 'none'))
                    if s: need(c, c.norm(c.strip(x)) == xs[i] or c.norm(x) == xs[i], 'answer', '%s of an iterator with %d items is another item' % (what, size))
                got(r, at, '%s(%s)' % (nm, '' if k is None else k))
                if byref:
                    x, _ = models.nxt(c, ('ref', l, ()))
                    got(NONE if x is None else some(x), at + 1, 'the item after %s(%s)' % (nm, '' if k is None else k))
                return UNIT
            R.run('wrapper: %s, %d items%s%s' % (nm, size, ', short hint' if slack else '', '' if k is None else ', nth(%d)' % k), u, c, th)
    if all(o['status'] != 'violated' for o in R.obs[n:]): del R.obs[n:]
    else: R.obs[n:] = [o for o in R.obs[n:] if o['status'] == 'violated'][:2]

# ---------------------------------------------------------------- C47
KIND = {'TypedGraphMap': 'graphmap', 'TypedStaticGraph': 'staticgraph', 'StaticGraphMmap': 'staticgraphmmap'}
def c47(R, W):
    F = W.F
    own = {}
    for nm in KIND:
        h = W.adt(nm)
        uid, env = W.method(W.selfof('GeneralGraph' if False else 'GraphLabelTrait', h), 'GraphTrait', 'implementation') if False else impl_of(W, h)
        c = Ctx(F); c.models = dict(models.M)
        def th(c=c, uid=uid, env=env, nm=nm):
            v = c.norm(c.call_uid(uid, [('ref', c.alloc(('sym', 'g'), 'g'), ())], dict(env)))
            if v[0] != 'adt': raise Undecided('the reported kind')
            if own.get(nm, v[2]) != v[2]: raise Fail('constant', '%s reports different kinds' % nm)
            own[nm] = v[2]
            for o in own: need(c, o == nm or own[o] != v[2], 'distinct', '%s and %s report the same kind' % (nm, o))
            return UNIT
        R.run('implementation of %s' % nm, uid, c, th)
    gi = W.adt('GraphImpl')
    uid = None
    for im in F.by_trait.get('core::str::traits::FromStr', []):
        if head_of(F.ty(im['self'])) == gi: uid = dict((a, b) for a, b, _ in im['items']).get('from_str')
    if uid not in F.bodies: R.und('name of a kind', None, 'no parser'); return
    names = {own[k]: KIND[k] for k in own}
    vn = {i: v['n'] for i, v in enumerate(F.adts[gi]['variants'])}
    S = ('sym', 's')
    c = Ctx(F); c.models = dict(models.M)
    fold(c)
    def th(c=c):
        r = c.norm(c.call_uid(uid, [('ref', c.alloc(S, 's'), ())], {}))
        if r[0] != 'adt' or r[1] != RES: raise Undecided('result of the parser')
        if r[2] == 0:
            v = c.norm(r[3][0])
            if v[0] != 'adt': raise Undecided('the parsed kind')
            if v[2] not in names: raise Undecided('kind %s' % vn.get(v[2]))
            need(c, c.decide(('eq', ('lower', S), ('str', names[v[2]]))), 'name', 'a text other than "%s" (in any case) is taken for %s' % (names[v[2]], vn.get(v[2])))
        return UNIT
    R.run('name of a kind', uid, c, th)
    for i, t in sorted(names.items()):
        c = Ctx(F); c.models = dict(models.M); fold(c)
        def th(c=c, i=i, t=t):
            c.assume(('eq', ('lower', S), ('str', t)), True)
            r = c.norm(c.call_uid(uid, [('ref', c.alloc(S, 's'), ())], {}))
            if r[0] != 'adt' or r[1] != RES: raise Undecided('result of the parser')
            need(c, r[2] == 0, 'name', 'the name "%s" is not understood' % t)
            v = c.norm(r[3][0])
            if v[0] != 'adt': raise Undecided('the parsed kind')
            need(c, v[2] == i, 'name', 'the name "%s" is taken for %s' % (t, vn.get(v[2])))
            return UNIT
        R.run('name "%s"' % t, uid, c, th)

def impl_of(W, h):
    for tr in ('GraphLabelTrait', 'GraphTrait', 'GeneralGraph'):
        if 'implementation' in [x[0] for x in W.F.traits[W.trait(tr)]['items']]:
            return W.method(W.selfof(tr, h), tr, 'implementation')
    raise Missing('implementation')

def fold(c):
    """text folded to lower case"""
    def low(cc, a, ta):
        s = cc.strip(a[0])
        if s[0] == 'str': return ('str', s[1].lower())
        if s[0] == 'trim': return ('trim', s[1], low(cc, [s[2]], ta))
        return s if s[0] == 'lower' else ('lower', s)
    def trim(side, f):
        def h(cc, a, ta): return ('ref', cc.alloc(g(cc, a, ta), 's'), ())
        def g(cc, a, ta):
            s = cc.norm(cc.strip(a[0]))
            if s[0] == 'str': return ('str', f(s[1]))
            if s[0] == 'trim': return s if s[1] in (side, 'trim') else ('trim', 'trim', s[2])
            if s[0] not in ('sym', 'lower'): raise Undecided('trimmed text')
            l = cc.norm(low(cc, [s], ta))
            if l[0] == 'str' and f(l[1]) == l[1]: return s
            for k, v in cc.facts.atoms.items():
                if v is True and k[0] == 'eq' and l in k[1:]:
                    t = [x for x in k[1:] if x[0] == 'str']
                    if t and f(t[0][1]) == t[0][1]: return s
            return ('trim', side, s)
        return h
    def same(cc, a, ta):
        x, y = low(cc, a[:1], ta), low(cc, a[1:], ta)
        return B(cc.eq(x, y))
    def part(nm, f):
        def h(cc, a, ta):
            x, y = (cc.norm(cc.strip(z)) for z in a[:2])
            if y[0] != 'str': return NotImplemented
            if x[0] == 'str': return B(f(x[1], y[1]))
            if x[0] not in ('sym', 'lower'): return NotImplemented
            return B(cc.decide((nm, x, y)))
        return h
    PARTS = {'starts_with': lambda x, y: x.startswith(y), 'ends_with': lambda x, y: x.endswith(y), 'contains': lambda x, y: y in x}
    for p in ('alloc::str::<impl str>::', 'core::str::<impl str>::', 'str::', 'alloc::str::str::', 'core::str::str::'):
        for n in ('to_lowercase', 'to_ascii_lowercase'): c.overrides[p + n] = low
        c.overrides[p + 'eq_ignore_ascii_case'] = same
        for n, f in (('trim', str.strip), ('trim_start', str.lstrip), ('trim_end', str.rstrip), ('trim_left', str.lstrip), ('trim_right', str.rstrip)): c.overrides[p + n] = trim(n, f)
        for n, f in PARTS.items(): c.overrides[p + n] = part('str ' + n, f)
