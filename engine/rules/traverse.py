"""C26, C27: traversals, on an abstract graph, an arbitrary queue/stack and an arbitrary discovered set.
One call of next() is analysed from an arbitrary state that satisfies the invariant 'what waits in the queue are discovered
nodes of the graph'; induction over the calls gives the whole traversal."""
from terms import *
from world import *
from report import *
from absgraph import *
from rules.equality import refute, arg
import objlog, models

S0, Y = ('sym', 's?'), ('sym', 'y?')
OPAQUE.update({'bitcap'})

def subject(W): return W

class Trav:
    def __init__(self, W, name):
        F = W.F
        self.W = W; self.uid = W.adt(name); self.name = name
        self.f = {}
        for i, f in enumerate(F.adts[self.uid]['variants'][0]['f']):
            h = head_of(F.ty(f['t']))
            if h in ('alloc::collections::vec_deque::VecDeque', 'alloc::vec::Vec'): self.f['seq'] = i
            elif h and h.endswith('::FixedBitSet'): self.f['bits'] = i
            elif h == 'ref': self.f['graph'] = i
        if len(self.f) != 3: raise Missing('fields of %s' % name)
        self.nf = len(F.adts[self.uid]['variants'][0]['f'])
    def ctx(self, d):
        c = gctx(self.W, {'g': d})
        objlog.install(c)
        c.mem['G'] = ('G', 'g')
        def it(cc, n, t):
            cc.assume(('N', 'g', t), True)
            cc.assume(('bit', 'D', cc.norm(('idid', t))), not self.u)
        c.o_item = it
        c.o_cap['D'] = c.norm(add(('idid', ('vf', ('maxid', 'g'), 1, 0)), I(1)))
        return c
    def state(self, c):
        """an arbitrary state"""
        fs = [UNIT] * self.nf
        fs[self.f['seq']] = ('obj', 'seq', 'Q'); fs[self.f['bits']] = ('obj', 'bits', 'D'); fs[self.f['graph']] = ('ref', 'G', ())
        c.mem['T'] = ('adt', self.uid, 0, tuple(fs))
        return ('ref', 'T', ())
    def parts(self, c, v):
        v = c.strip(v)
        if v[0] != 'adt' or v[1] != self.uid: raise Undecided('traversal value')
        q, d, g = (c.norm(v[3][self.f[k]]) for k in ('seq', 'bits', 'graph'))
        if q[0] != 'obj' or d[0] != 'obj': raise Undecided('fields of a traversal')
        need(c, gid(c, g) == 'g', 'graph', 'the traversal runs on another graph')
        return q[2], d[2]
    def key(self, c, x): return c.norm(('idid', x))
    def disc(self, c, d, x): return objlog.bit(c, d, self.key(c, x)) != self.u

    def learn(self):
        """polarity of the bitmap: the start node is the discovered one"""
        c = self.ctx(True); self.u = True
        def th():
            r = c.call_uid(self.W.inherent(self.uid, 'new'), [('ref', 'G', ()), some(S0)], {})
            v = c.strip(r)
            return ('b', objlog.bit(c, c.norm(v[3][self.f['bits']])[2], self.key(c, S0)))
        for v, s in c.explore(th):
            if isinstance(v, tuple) and v[0] == 'b': self.u = not v[1]; return
        raise Missing('polarity of the discovered set')

def hits(c, group, key):
    """how often a pushed group contains the key: list of substitutions"""
    n = 0
    if group[0] == 'one': return 1 if c.eq(group[1], key) else 0
    for vs, gs, p in group[1]:
        if instances(c, (vs, gs, None), p, key) is not None:
            if group[2] and c.choose(2, 'reached') == 1: continue
            n += 1
    return n

def waiting(c, T, s, key): return sum(hits(c, x, key) for x in s.flat())

def fresh_all(R, T, d, label, uid, mk, seqempty=True):
    """after this call nothing waits and every node can be visited"""
    c = T.ctx(d)
    def th():
        q, b = T.parts(c, mk(c))
        s = objlog.seq(c, q)
        need(c, not s.base and not s.flat(), 'nothing-waits', 'nodes still wait in the %s' % ('queue' if T.name == 'Bfs' else 'stack'))
        c.assume(('N', 'g', Y), True)
        need(c, not T.disc(c, b, Y), 'all-visitable', 'a node of the graph counts as already discovered')
        return UNIT
    R.run('%s<%s>' % (label, dirname(d)), uid, c, th, allow_panic=lambda v, s: s[1].lookup(('N', 'g', Y)) is not True and empty_graph(s))

def dirname(d): return 'Directed' if d else 'Undirected'
def empty_graph(s):
    fs = s[1]
    return fs.lookup(('isv', ('maxid', 'g'), 1)) is False or fs.lookup(('isv', ('maxid', 'g'), 0)) is True or any(fs.lookup(fs.norm(('eq',) + p)) is True for p in ((I(0), ('cardN', 'g')), (('cardN', 'g'), I(0))))

def check(R, W, name):
    F = W.F
    T = Trav(W, name); T.learn()
    lifo = name == 'Dfs'
    new = W.inherent(T.uid, 'new')
    for d in (True, False):
        for start in (True, False):
            c = T.ctx(d)
            def th(c=c, start=start):
                r = c.call_uid(new, [('ref', 'G', ()), some(S0) if start else NONE], {})
                q, b = T.parts(c, r)
                s = objlog.seq(c, q)
                it = s.flat()
                if any(x[0] == 'many' and contains(x[1], lambda t: t[0] == 'kept') for x in it): raise Undecided('part of a sequence waits at the start')
                need(c, not s.base and len(it) == 1 and it[0][0] == 'one', 'start', '%d entries wait at the start' % len(it))
                f = it[0][1]
                if start: need(c, c.eq(f, S0), 'start', 'the traversal does not start at the requested node')
                need(c, c.decide(('N', 'g', f)), 'start', 'the traversal starts at a node the graph does not have')
                need(c, T.disc(c, b, f), 'start-discovered', 'the start node is not marked discovered')
                c.assume(('N', 'g', Y), True)
                if not c.eq(Y, f): need(c, not T.disc(c, b, Y), 'others-undiscovered', 'a node other than the start counts as discovered at the start')
                return UNIT
            def ok_panic(v, s, start=start):
                fs = s[1]
                if start and fs.lookup(('N', 'g', S0)) is False: return True
                return (fs.lookup(('N', 'g', S0)) is not True) and empty_graph(s)
            R.run('new(%s)<%s>' % ('Some' if start else 'None', dirname(d)), new, c, th, allow_panic=ok_panic)
    nexts = [('next', W.inherent(T.uid, 'next'))] if has(W, T.uid, 'next') else []
    for im in F.by_trait.get('core::iter::traits::iterator::Iterator', []):
        if head_of(F.ty(im['self'])) == T.uid:
            for nm, iu, _ in im['items']:
                if nm == 'next': nexts.append(('Iterator::next', iu))
    if not nexts: raise Missing('next of %s' % name)
    for label, uid in nexts:
        for d in (True, False):
            c = T.ctx(d)
            R.run('%s<%s>' % (label, dirname(d)), uid, c, lambda c=c, uid=uid: step(c, T, uid, lifo))
    if has(W, T.uid, 'reset'):
        u = W.inherent(T.uid, 'reset')
        for d in (True, False):
            def mk(c):
                t = T.state(c); c.call_uid(u, [t], {}); return t
            fresh_all(R, T, d, 'reset', u, mk)
    if has(W, T.uid, 'with_capacity'):
        u2 = W.inherent(T.uid, 'with_capacity')
        for d in (True, False): fresh_all(R, T, d, 'with_capacity', u2, lambda c: c.call_uid(u2, [('ref', 'G', ())], {}))
    if has(W, T.uid, 'from_parts'):
        u3 = W.inherent(T.uid, 'from_parts')
        c = T.ctx(True)
        def th():
            v = c.strip(c.call_uid(u3, [('obj', 'seq', 'Q'), ('obj', 'bits', 'D'), ('ref', 'G', ())], {}))
            need(c, T.parts(c, v) == ('Q', 'D') and not c.ops, 'parts', 'from_parts does not keep the parts it is given')
            return UNIT
        R.run('from_parts', u3, c, th)

def has(W, uid, nm):
    try: W.inherent(uid, nm); return True
    except Missing: return False

def step(c, T, uid, lifo):
    t = T.state(c)
    r = c.call_uid(uid, [t], {})
    some_, f = models.opt(c, r)
    n0 = len(c.ops)
    q, b = T.parts(c, t)
    need(c, q == 'Q' and b == 'D', 'state', 'next() replaces the frontier or the discovered set')
    was = c.known(('some', 'Q', 0, 0))
    if not some_:
        need(c, was is not True, 'ends-early', 'next() ends while discovered nodes still wait')
        if was is None: 
            if c.decide(('some', 'Q', 0, 0)): raise Fail('ends-early', 'next() ends while discovered nodes still wait')
        # no undiscovered node is left
        def setup():
            c.assume(('N', 'g', Y), True); c.assume(('bit', 'D', T.key(c, Y)), T.u)
        if not refute(c, [Y], setup): raise Fail('ends-early', 'next() ends while an undiscovered node is left')
        return UNIT
    f = c.norm(f)
    s = objlog.seq(c, q)
    if was:
        ends = [e for e in ('f', 'b') if f == ('qitem', 'Q', e, 0)]
        need(c, ends, 'from-frontier', 'next() yields something else than the node at an end of the frontier')
        e = ends[0]
        need(c, s.base and (s.nf, s.nb) == ((1, 0) if e == 'f' else (0, 1)), 'frontier-kept', 'more than the yielded node leaves the frontier')
        inner, outer = (s.front, s.back) if e == 'f' else (s.back, s.front)
        if lifo: need(c, not outer, 'order', 'discovered nodes are put where they are not taken next (not last found first)')
        else: need(c, not inner, 'order', 'discovered nodes are put in front of nodes that were found earlier')
    else:
        need(c, c.decide(('N', 'g', f)), 'node', 'next() yields a node the graph does not have')
        # was it undiscovered before this call
        need(c, c.decide(('bit', 'D', T.key(c, f))) == T.u, 'once', 'next() yields a node that was discovered before')
        need(c, T.disc(c, b, f), 'marked', 'the yielded node is not marked discovered')
        need(c, waiting(c, T, s, f) == 0 , 'once', 'the yielded node still waits in the frontier')
    # a generic other node
    y = Y
    c.assume(('N', 'g', y), True)
    before = c.decide(('bit', 'D', T.key(c, y))) != T.u
    isf = c.eq(y, f)
    if isf and was is None: return UNIT
    nb = c.decide(('E', 'g', f, y))
    want = not before and nb and not isf
    after = T.disc(c, b, y)
    w = waiting(c, T, s, y)
    if isf:
        need(c, after, 'marked', 'the yielded node is not marked discovered')
        need(c, w == 0, 'once', 'the yielded node is put back into the frontier')
        return UNIT
    need(c, w <= 1, 'once', 'a node is put into the frontier twice')
    if want:
        need(c, after, 'discover', 'an undiscovered neighbour of the yielded node is not marked discovered')
        need(c, w == 1, 'discover', 'an undiscovered neighbour of the yielded node is not put into the frontier')
    else:
        need(c, after == before, 'only-neighbours', 'a node that is not a neighbour changes from %s' % ('discovered to undiscovered' if before else 'undiscovered to discovered'))
        need(c, w == 0, 'once' if before else 'only-neighbours', 'a node that is not a newly found neighbour is put into the frontier')
    return UNIT

def c26(R, W): check(R, W, 'Bfs')
def c27(R, W): check(R, W, 'Dfs')
