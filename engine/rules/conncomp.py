"""C28: connected components.  The parent table is an arbitrary union-find forest, the counter the number of its trees;
every operation is analysed from an arbitrary such state.  get_root and process_new_edge are proved first and then used
by their specification in the operations that loop over a graph."""
from terms import *
from world import *
from report import *
from absgraph import *
from objlog import obj
import unionfind as uf, models

X, Y, Z, A1, A2 = (('sym', 'p?%d' % i) for i in range(1, 6))
P = 'P'
OPAQUE.update({'ufcard', 'opret'})

def subject(W): return W

class CC:
    def __init__(self, W):
        F = W.F; self.W = W; self.uid = W.adt('ConnComp')
        self.f = {}
        fs = F.adts[self.uid]['variants'][0]['f']
        for i, f in enumerate(fs):
            t = F.ty(f['t']); h = head_of(t)
            if t[0] == 'adt' and t[1] == 'core::cell::RefCell': t = t[2][0]; h = head_of(t)
            if h == 'std::collections::hash::map::HashMap': self.f['map'] = i
            elif h == 'int': self.f['count'] = i
        if len(self.f) != 2 or len(fs) != 2: raise Missing('fields of ConnComp')
        self.spec = set()
    def ctx(self, d=True, spec=True):
        c = gctx(self.W, {'g': d})
        uf.install(c, [P])
        c.mem['G'] = ('G', 'g')
        c.uf_count = (('T', (('f', self.f['count']),)), P)
        et = self.W.trait('EdgeTrait')
        def edge(i):
            def h(cc, a, ta):
                v = cc.strip(a[0])
                return v[2][i] if v[0] == 'obj' and v[1] == 'edge' else NotImplemented
            return h
        c.overrides[et + '::get_start'] = edge(0); c.overrides[et + '::get_target'] = edge(1)
        if spec: self.install_spec(c)
        return c
    def install_spec(self, c):
        W = self.W
        if 'get_root' in self.spec:
            def gr(cc, a, ta):
                n = self.forest(cc, a[0])
                if n is None: return NotImplemented
                k = cc.norm(cc.strip(a[1]))
                cc.ops.append(('rdm', n, k))
                if not uf.member(cc, n, k): return NONE
                cc.ops.append(('rdr', n))
                uf.ulog(cc, n, 'havoc')
                return some(uf.root(cc, n, k))
            c.overrides[W.F.cn(W.inherent(self.uid, 'get_root'))] = gr
        if 'process_new_edge' in self.spec:
            gs, gt = (W.trait('EdgeTrait') + '::get_start', W.trait('EdgeTrait') + '::get_target')
            def pe(cc, a, ta):
                n = self.forest(cc, a[0])
                if n is None or not getattr(cc, 'spec_edges', False): return NotImplemented
                v = cc.strip(a[1])
                ends = []
                for m in (gs, gt):
                    u = [x for x, d in W.F.defs.items() if d.get('canon') == m]
                    t = ('adt', v[1], ()) if v[0] == 'adt' else None
                    if v[0] == 'obj': ends.append(v[2][0 if m == gs else 1]); continue
                    imp = W.impl_self('EdgeTrait', v[1]) if t else []
                    if not imp: raise Undecided('edge value')
                    ends.append(cc.strip(W.dispatch_tr(cc, 'EdgeTrait', m.split('::')[-1], W.F.ty(imp[0]['self']), [('ref', cc.alloc(v, 'e'), ())])))
                ends = tuple(cc.norm(x) for x in ends)
                uf.ulog(cc, n, 'edge', *ends)
                pl = target(cc, a[0]); pl = (pl[0], pl[1] + (('f', self.f['count']),))
                cc.write(pl, cc.norm(add(cc.read(pl), ('edelta',) + ends)))
                return UNIT
            c.overrides[W.F.cn(W.inherent(self.uid, 'process_new_edge'))] = pe
    def forest(self, c, r):
        v = c.strip(r)
        if v[0] != 'adt' or v[1] != self.uid: return None
        m = c.norm(v[3][self.f['map']])
        return m[2] if m[0] == 'obj' and m[1] == 'uf' else None
    def state(self, c):
        fs = [None, None]
        fs[self.f['map']] = ('obj', 'uf', P); fs[self.f['count']] = ('sym', 'count')
        c.mem['T'] = ('adt', self.uid, 0, tuple(fs))
        return ('ref', 'T', ())
    def count(self, c, r): return c.norm(c.strip(r)[3][self.f['count']])

def kept(c, t, T, lo=0):
    need(c, T.forest(c, t) == P, 'partition', 'a query replaces the parent table')
    need(c, not any(uf.uchanges(o, P) for o in c.ops[lo:]), 'partition', 'a query changes the components')
    need_eq(c, T.count(c, t), ('sym', 'count'), 'count', 'component count after a query')

def nodes_of(c, n, k):
    """number of nodes of the forest after k operations"""
    d = ('ufcard', n, 0) if n == P else I(0)
    for o in c.ops[:k]:
        if not uf.uchanges(o, n): continue
        if o[0] == 'oop' and o[2] in ('single', 'attach', 'link'): d = add(d, I(0 if o[2] == 'link' else 1))
        elif o[0] == 'each' and all(x[0] == 'oop' and x[2] in ('single', 'attach') or not uf.uchanges(x, n) for _, _, ops in o[1] for x in ops):
            d = add(d, uf.gsum([(vs, gs, I(sum(uf.uchanges(x, n) for x in ops))) for vs, gs, ops in o[1]]))
        else: raise Undecided('number of nodes of the forest')
    return d

def same_count(c, now, before, n):
    d = uf.delta(c, n)
    rest = c.norm(sub(sub(now, before), d))
    for t in [t for t in lin_parts(rest)[1] if t[0] == 'ufcard' and t[1] == n and t[2]]: rest = c.norm(replace(rest, {t: nodes_of(c, n, t[2])}))
    if rest == I(0): return
    if rest == c.norm(sub(('ufcard', n, 0), ('sym', 'count'))): raise Fail('count', 'the component count is made the number of nodes, however many of them are joined already')
    if contains(rest, lambda t: t[0] in OPAQUE or t[0] in ('len', 'card', 'ccount', 'lv')): raise Undecided('component count %s' % show(rest)[:120])
    raise Fail('count', 'the component count changes by %s while the number of components changes by %s' % (show(c.norm(sub(now, before)))[:100], show(d)[:100]))

def same0(c, a, b):
    """joined in the state before the call"""
    if c.eq(a, b): return True
    return uf.member(c, P, a, 0) and uf.member(c, P, b, 0) and c.eq(uf.root(c, P, a, 0), uf.root(c, P, b, 0))

def has(W, uid, nm):
    try: return W.inherent(uid, nm)
    except Missing: return None

def c28(R, W):
    T = CC(W)
    get_root = W.inherent(T.uid, 'get_root'); pne = W.inherent(T.uid, 'process_new_edge'); det = W.inherent(T.uid, 'run_detection')
    n0 = len(R.obs)
    # get_root
    c = T.ctx(spec=False)
    def th():
        t = T.state(c)
        r = c.call_uid(get_root, [t, X], {})
        s, p = models.opt(c, r)
        m = uf.member(c, P, X, 0)
        need(c, s == m, 'known', 'get_root of %s node answers %s' % (('an unknown', 'a known')[m], ('None', 'Some')[s]))
        kept(c, t, T)
        if s: need(c, c.eq(p, uf.root(c, P, X, 0)), 'root', 'get_root does not return the root of the component')
        return UNIT
    R.run('get_root', get_root, c, th)
    if all(o['status'] == 'discharged' for o in R.obs[n0:]): T.spec.add('get_root')
    # process_new_edge
    n0 = len(R.obs)
    c = T.ctx()
    def edge_call():
        t = T.state(c)
        c.call_uid(pne, [t, ('rv', ('obj', 'edge', (X, Y)))], {})
        need(c, T.forest(c, t) == P, 'partition', 'the parent table is replaced')
        return t
    def th_members():
        t = edge_call()
        want = uf.member(c, P, Z, 0) or c.eq(Z, X) or c.eq(Z, Y)
        need(c, uf.member(c, P, Z) == want, 'members', 'after an edge is processed a node %s' % ('it joins is not in the table' if want else 'is in the table though no edge mentioned it'))
        return UNIT
    R.run('process_new_edge:members', pne, c, th_members)
    def th_count():
        t = edge_call()
        same_count(c, T.count(c, t), ('sym', 'count'), P)
        return UNIT
    R.run('process_new_edge:count', pne, c, th_count)
    def th_joined():
        for i, a in enumerate((X, Y, A1)):
            for b in (Y, A1, A2)[i:]: c.eq(a, b)
        t = edge_call()
        for z in (A1, A2):
            if not uf.member(c, P, z): return UNIT
        now = c.eq(uf.root(c, P, A1), uf.root(c, P, A2))
        want = same0(c, A1, A2) or same0(c, A1, X) and same0(c, A2, Y) or same0(c, A1, Y) and same0(c, A2, X)
        need(c, now == want, 'joined', 'two nodes %s after the edge is processed' % ('that the edges join are not connected' if want else 'that no edge joins are connected'))
        return UNIT
    R.run('process_new_edge:joined', pne, c, th_joined)
    if all(o['status'] == 'discharged' for o in R.obs[n0:]): T.spec.add('process_new_edge')
    # a whole graph
    for d in (True, False):
        for what, uid in (('run_detection', det), ('new', has(W, T.uid, 'new'))):
            if uid is None: continue
            detection(R, W, T, uid, what, d)
    # queries
    for nm in ('is_connected', 'get_parent', 'get_connected_nodes', 'get_count'):
        u = has(W, T.uid, nm)
        if u is None: continue
        c = T.ctx()
        def th(c=c, nm=nm, u=u):
            t = T.state(c)
            if nm == 'is_connected':
                r = c.decide(c.call_uid(u, [t, X, Y], {}))
                want = uf.member(c, P, X, 0) and uf.member(c, P, Y, 0) and c.eq(uf.root(c, P, X, 0), uf.root(c, P, Y, 0))
                need(c, r == want, 'connected', 'is_connected answers %s for nodes that %s' % (r, 'are connected' if want else 'are not connected or not known'))
            elif nm == 'get_count':
                need_eq(c, c.call_uid(u, [t], {}), ('sym', 'count'), 'count', 'get_count()')
            elif nm == 'get_parent':
                s, p = models.opt(c, c.call_uid(u, [t, X], {}))
                m = uf.member(c, P, X, 0)
                need(c, s == m, 'known', 'get_parent of %s node answers %s' % (('an unknown', 'a known')[m], ('None', 'Some')[s]))
                if s: need(c, uf.member(c, P, p) and c.eq(uf.root(c, P, p), uf.root(c, P, X)), 'component', 'the parent is in another component')
            else:
                s, v = models.opt(c, c.call_uid(u, [t, X], {}))
                m = uf.member(c, P, X, 0)
                need(c, s == m, 'known', 'the members of %s node: %s' % (('an unknown', 'a known')[m], ('None', 'Some')[s]))
                if s:
                    v = c.strip(v); hits = 0
                    while v != ('arr', ()):
                        if v[0] == 'vpush': hits += c.eq(v[2], Z); v = c.norm(v[1]); continue
                        if v[0] not in ('vcoll', 'vext'): raise Undecided('member list %s' % show(v)[:80])
                        hits += sum(models.match_alt(c, a, Z, lambda p: p[1] if p[0] == 'rv' else p) is not None for a in v[2 if v[0] == 'vext' else 1][1])
                        v = c.norm(v[1]) if v[0] == 'vext' else ('arr', ())
                    want = uf.member(c, P, Z, 0) and c.eq(uf.root(c, P, Z, 0), uf.root(c, P, X, 0))
                    need(c, hits == (1 if want else 0), 'members', 'a node %s is listed %d times' % ('of the component' if want else 'of another component (or unknown)', hits))
            kept(c, t, T)
            return UNIT
        R.run(nm, u, c, th)
    for nm, args in (('empty', 0), ('with_capacity', 1), ('reset', None)):
        u = has(W, T.uid, nm)
        if u is None: continue
        c = T.ctx()
        def th(c=c, nm=nm, u=u, args=args):
            if args is None: r = T.state(c); c.call_uid(u, [r], {})
            else: r = c.call_uid(u, [('sym', 'n')] * args, {})
            n = T.forest(c, r)
            if n is None: raise Undecided('value of %s' % nm)
            need(c, not uf.member(c, n, X), 'empty', 'after %s a node is still known' % nm)
            need_eq(c, T.count(c, r), I(0), 'count', 'component count after %s' % nm)
            return UNIT
        R.run(nm, u, c, th)

def detection(R, W, T, uid, what, d):
    def call(c):
        if what == 'new':
            r = c.call_uid(uid, [('ref', 'G', ())], {}); return r, T.forest(c, r), I(0)
        t = T.state(c); c.call_uid(uid, [t, ('ref', 'G', ())], {}); return t, T.forest(c, t), ('sym', 'count')
    def mk():
        c = T.ctx(d); c.spec_edges = True
        if what == 'new': c.uf_names = []; c.uf_count = None
        if what == 'new':
            # the value that is being built
            cnt = ('f', T.f['count'])
            u0 = uf.UFLoop.summarise
        return c
    lab = '%s<%s>' % (what, 'Directed' if d else 'Undirected')
    c = mk()
    def members(c=c):
        r, n, _ = call(c)
        if n is None: raise Undecided('value of %s' % what)
        i = c.decide(('N', 'g', Z))
        was = what != 'new' and uf.member(c, n, Z, 0)
        need(c, uf.member(c, n, Z) == (i or was), 'members', 'a node %s after the detection' % ('of the graph belongs to no component' if i or was else 'the graph does not have belongs to a component'))
        return UNIT
    R.run(lab + ':nodes', uid, c, members)
    c = mk()
    def edges(c=c):
        r, n, _ = call(c)
        if n is None: raise Undecided('value of %s' % what)
        for o in c.ops:
            if o[0] in ('each', 'some', 'loop'):
                if any(x[0] == 'oop' and x[1] == n and x[2] in ('link', 'attach') for x in uf.flat(o[1] and [y for alt in o[1] for y in (alt[2] if o[0] != 'loop' else alt)])): raise Undecided('edges processed inline')
        c.assume(('E', 'g', X, Y), True)
        for o in c.ops:
            if o[0] == 'some' and uf.uchanges(o, n): raise Fail('edges', 'the detection can stop before it has processed every edge')
            if o[0] != 'each': continue
            for vs, gs, ops in o[1]:
                for x in ops:
                    if x[0] == 'oop' and x[1] == n and x[2] == 'edge':
                        for p in ((X, Y), (Y, X)):
                            if instances(c, (vs, gs, None), ('tup', x[3]), ('tup', p)) is not None: return UNIT
        raise Fail('edges', 'an edge of the graph is not processed')
    R.run(lab + ':edges', uid, c, edges)
    c = mk()
    def only(c=c):
        r, n, _ = call(c)
        if n is None: raise Undecided('value of %s' % what)
        for o in list(c.ops):
            if o[0] != 'each': continue
            for vs, gs, ops in o[1]:
                for x in ops:
                    if x[0] == 'oop' and x[1] == n and x[2] == 'edge':
                        m = {v: c.fresh('w%') for v in vs}
                        for a, b in gs:
                            if c.decide_guard(replace(a, m)) != b: raise Infeasible()
                        a, b = (replace(z, m) for z in x[3])
                        need(c, c.eq(a, b) or c.decide(('E', 'g', a, b)) or c.decide(('E', 'g', b, a)), 'only-edges', 'two nodes are joined though the graph has no edge between them')
        return UNIT
    R.run(lab + ':only-edges', uid, c, only)
    c = mk()
    def count(c=c):
        r, n, c0 = call(c)
        if n is None: raise Undecided('value of %s' % what)
        same_count(c, T.count(c, r), c0, n)
        return UNIT
    R.run(lab + ':count', uid, c, count)
