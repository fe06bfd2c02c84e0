"""C29: connected-subgraph enumeration.  The component structure is used by its specification (C28): every node of the graph
has a root and the ends of an edge have the same root.  The two result vectors are logged together; every iteration of a loop
is analysed from arbitrary content of them (equally long, roots distinct)."""
from terms import *
from world import *
from report import *
from absgraph import *
from core import LoopSummary
from rules.equality import refute
import models

X, Y = ('sym', 'p?'), ('sym', 'q?')
V = 'alloc::vec::Vec::'; S_ = '[]::'
OPAQUE.update({'csb'})

def subject(W): return W

class CSDom(GDom):
    def lookup(self, at, fs):
        if at[0] == 'eq' and at[1][0] == 'croot' and at[2][0] == 'croot':
            a, b = at[1][1], at[2][1]
            for k, v in fs.atoms.items():
                if k[0] == 'E' and v and k[1] == 'g' and {k[2], k[3]} == {a, b}: return True
        if at[0] == 'lt':
            if at[1][0] == 'ridx' and at[2] == ('csb', at[1][1]): return True
            if at[2] == I(0) and at[1][0] in ('csb', 'ridx'): return False
        return GDom.lookup(self, at, fs)

class State:
    """content of the two vectors after a log"""
    def __init__(self): self.base = None; self.R = []; self.S = []

def touched(o):
    if o[0] == 'oop': return o[1] == 'cs'
    return any(touched(x) for x in sub_ops(o))

def content(c):
    st = State()
    if c.cs_old: st.base = 'old'
    for i, o in enumerate(c.ops):
        if not touched(o): continue
        if o[0] == 'oop':
            if o[2] == 'arb': st.base = o[3][0]; st.R = []; st.S = []
            elif o[2] == 'R': st.R.append(o[3][0])
            elif o[2] == 'S': st.S.append(o[3][0])
            elif o[2] == 'clear': st.base = None; st.R = []; st.S = []
        else:
            st.base = ('after', i); st.R = []; st.S = []
    return st

class Loop(LoopSummary):
    def run(self):
        c = self.c
        if c.cs_on:
            c.cnt += 1
            c.ops.append(('oop', 'cs', 'arb', (('l', c.cnt),)))
        return LoopSummary.run(self)

class CS:
    def __init__(self, W):
        F = W.F; self.W = W; self.uid = W.adt('ConnSubgraph')
        self.f = {}
        cc = W.adt('ConnComp')
        fs = F.adts[self.uid]['variants'][0]['f']
        for i, f in enumerate(fs):
            t = F.ty(f['t'])
            if head_of(t) == 'alloc::vec::Vec':
                e = t[2][0]
                self.f['S' if e[0] == 'adt' else 'R'] = i
            elif head_of(t) == cc: self.f['cc'] = i
        if len(self.f) != 3 or len(fs) != 3: raise Missing('fields of ConnSubgraph')
        self.cc = cc; self.r2s = False
    def ctx(self, d, logged=True):
        W = self.W; F = W.F
        c = gctx(W, {'g': d})
        dom = CSDom({'g': d}); c.dom = dom; dom.ctx = c; c.facts.dom = dom
        c.mem['G'] = ('G', 'g')
        c.cs_on = logged; c.cs_old = False
        c.overrides[F.cn(W.inherent(self.cc, 'new'))] = lambda cc, a, ta: ('obj', 'cc', gid(cc, a[0])) if gid(cc, a[0]) is not None else NotImplemented
        def get_root(cc, a, ta):
            v = cc.strip(a[0])
            if v[:2] != ('obj', 'cc'): return NotImplemented
            if v[2] != 'g': raise Undecided('components of another graph')
            x = cc.norm(cc.strip(a[1]))
            return some(('croot', x)) if cc.decide(('N', 'g', x)) else NONE
        c.overrides[F.cn(W.inherent(self.cc, 'get_root'))] = get_root
        def conn(cc, a, ta):
            v = cc.strip(a[0])
            if v[:2] != ('obj', 'cc'): return NotImplemented
            x, y = cc.norm(cc.strip(a[1])), cc.norm(cc.strip(a[2]))
            return B(cc.decide(('N', 'g', x)) and cc.decide(('N', 'g', y)) and cc.eq(('croot', x), ('croot', y)))
        c.overrides[F.cn(W.inherent(self.cc, 'is_connected'))] = conn
        def cnt(cc, a, ta):
            v = cc.strip(a[0])
            return ('ccount', v[2]) if v[:2] == ('obj', 'cc') else NotImplemented
        c.overrides[F.cn(W.inherent(self.cc, 'get_count'))] = cnt
        if logged: self.install(c)
        return c
    def install(self, c):
        W = self.W; F = W.F; ov = c.overrides
        c.loophook = lambda fr, H, outer: models.unroll_hook(fr, H, outer) or Loop(fr, H, outer)
        def fresh(cc, a, ta):
            t = ta[0] if ta else None
            if t is None: raise Undecided('element type of a new vector')
            if t[0] == 'adt' and t[1].endswith('boxed::Box') and t[2][0][0] == 'dyn': return ('obj', 'csv', 'S')
            if t[0] == 'param' and t[1] == 'Id': return ('obj', 'csv', 'R')
            return NotImplemented
        ov[V + 'new'] = fresh; ov[V + 'with_capacity'] = fresh
        def which(cc, r):
            v = cc.norm(r)
            for _ in range(8):
                if v[0] == 'obj': return v[2] if v[1] == 'csv' else None
                if v[0] in ('ref', 'rv'):
                    try: v = cc.norm(cc.read(cc.derefpl(v)))
                    except Undecided: return None
                    continue
                return None
        def on(names, f):
            def h(cc, a, ta):
                w = which(cc, a[0])
                return NotImplemented if w is None else f(cc, w, a, ta)
            for n in names: ov[n] = h
        def push(cc, w, a, ta):
            if w == 'R': cc.ops.append(('oop', 'cs', 'R', (cc.deep(a[1]),)))
            else:
                g = gid(cc, a[1])
                if g is None: raise Undecided('pushes something else than a graph')
                cc.ops.append(('oop', 'cs', 'S', (g, cc.dom.directed[g])))
            return UNIT
        on((V + 'push',), push)
        def length(cc, w, a, ta):
            st = content(cc); n = len(st.R if w == 'R' else st.S)
            if st.base is None: return I(n)
            l = ('csb', st.base)
            return cc.norm(add(l, I(n)))
        on((V + 'len', S_ + 'len'), length)
        def empty(cc, w, a, ta): return B(cc.eq(length(cc, w, a, ta), I(0)))
        on((V + 'is_empty', S_ + 'is_empty'), empty)
        def clear(cc, w, a, ta): raise Undecided('clears a result vector')
        on((V + 'clear', V + 'pop', V + 'truncate', V + 'remove', V + 'swap_remove', V + 'insert', V + 'drain', V + 'iter', S_ + 'iter', S_ + 'iter_mut', V + 'append', V + 'retain', S_ + 'swap', S_ + 'sort', S_ + 'sort_by', S_ + 'sort_by_key',
            S_ + 'reverse', 'core::iter::traits::collect::IntoIterator::into_iter', 'core::iter::traits::collect::Extend::extend', S_ + 'contains', S_ + 'binary_search'), clear)
        on((V + 'reserve', V + 'shrink_to_fit'), lambda cc, w, a, ta: UNIT)
        def item(cc, w, i):
            """the i-th element, None when out of range"""
            st = content(cc)
            L = st.R if w == 'R' else st.S
            i = cc.norm(i)
            l = I(0) if st.base is None else ('csb', st.base)
            for j, x in enumerate(L):
                if cc.norm(add(l, I(j))) == i: return x if w == 'R' else self.graph(cc, x)
            if st.base is None:
                if i[0] == 'int': return None
                raise Undecided('index into a result vector')
            if i[0] == 'ridx':
                if i[1] != st.base: raise Undecided('index of an earlier time')
                k = i[2]
            else:
                if not cc.lt(i, l):
                    if cc.lt(i, add(l, I(len(L)))): raise Undecided('index into a result vector')
                    return None
                k = ('ritem', st.base, i)
            return k if w == 'R' else self.graph(cc, ('sub', st.base, k))
        def index(cc, w, a, ta):
            v = item(cc, w, a[1])
            if v is None: raise Panic('index out of range', cc.span())
            return v if w == 'S' else ('rv', v)
        on(('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut'), index)
        def get(cc, w, a, ta):
            v = item(cc, w, a[1])
            return NONE if v is None else some(v if w == 'S' else ('rv', v))
        on((S_ + 'get', S_ + 'get_mut'), get)
        def last(cc, w, a, ta):
            n = length(cc, w, a, ta)
            if cc.eq(n, I(0)): return NONE
            return get(cc, w, (a[0], sub(n, I(1))), ta)
        on((S_ + 'last', S_ + 'last_mut'), last)
        if self.r2s:
            def r2s(cc, a, ta):
                v = cc.strip(a[0])
                if v[0] != 'adt' or which(cc, v[3][self.f['R']]) != 'R': return NotImplemented
                root = cc.norm(cc.strip(a[1]))
                st = content(cc)
                if st.base is not None and cc.decide(('inR', st.base, root)):
                    return some(('ridx', st.base, root))
                for j, x in enumerate(st.R):
                    if cc.eq(x, root): return some(cc.norm(add(I(0) if st.base is None else ('csb', st.base), I(j))))
                return NONE
            ov[F.cn(self.W.inherent(self.uid, 'root_to_subgraph'))] = r2s
    def graph(self, c, x):
        if isinstance(x, str): g = x
        else:
            g = x
            c.dom.directed[g] = c.dom.directed['g']; c.g_mut[g] = 'same'
        l = c.alloc(('G', g), 'sub')
        return ('ref', c.alloc(('ref', l, ()), 'box'), ())
    def state(self, c):
        fs = [None] * 3
        fs[self.f['S']] = ('obj', 'csv', 'S'); fs[self.f['R']] = ('obj', 'csv', 'R'); fs[self.f['cc']] = ('obj', 'cc', 'g')
        c.cs_old = True
        c.mem['T'] = ('adt', self.uid, 0, tuple(fs))
        return ('ref', 'T', ())
    def intact(self, c, r):
        v = c.strip(r)
        if v[0] != 'adt' or v[1] != self.uid: raise Undecided('value of ConnSubgraph')
        f = [c.norm(x) for x in v[3]]
        for k, o in (('S', ('obj', 'csv', 'S')), ('R', ('obj', 'csv', 'R')), ('cc', ('obj', 'cc', 'g'))):
            if f[self.f[k]] != o: raise Undecided('field of ConnSubgraph')

def c29(R, W):
    T = CS(W); F = W.F
    n0 = len(R.obs)
    r2s = W.inherent(T.uid, 'root_to_subgraph')
    # the lookup of a root
    ROOT, RS = ('sym', 'r?'), ('sym', 'roots?')
    c = T.ctx(True, False)
    def th():
        fs = [None] * 3
        fs[T.f['S']] = ('sym', 'subs?'); fs[T.f['R']] = RS; fs[T.f['cc']] = ('obj', 'cc', 'g')
        c.mem['T'] = ('adt', T.uid, 0, tuple(fs))
        s, p = models.opt(c, c.call_uid(r2s, [('ref', 'T', ()), ROOT], {}))
        need(c, not c.ops, 'query', 'looking a root up changes something')
        if s:
            x = models.vget(c, RS, p)
            need(c, c.eq(x, ROOT), 'lookup', 'the index found belongs to another root')
            return UNIT
        j = ('sym', 'j?')
        def setup():
            c.assume(('lt', j, I(0)), False); c.assume(('lt', j, models.vlen(c, RS)), True)
            if not c.eq(models.vget(c, RS, j), ROOT): raise Infeasible()
        need(c, refute(c, [j, ROOT, models.vget(c, RS, j)], setup), 'lookup', 'a listed root may be reported as not listed')
        return UNIT
    R.run('root_to_subgraph', r2s, c, th)
    T.r2s = all(o['status'] == 'discharged' for o in R.obs[n0:])
    # whole runs
    for d in (True, False):
        for nm in ('new', 'run_subgraph_enumeration'):
            try: u = W.inherent(T.uid, nm)
            except Missing: continue
            def call(c, nm=nm, u=u):
                if nm == 'new': r = c.call_uid(u, [('ref', 'G', ())], {})
                else:
                    r = T.state(c); c.call_uid(u, [r, ('ref', 'G', ())], {})
                T.intact(c, r)
                return r
            whole(R, W, T, d, nm, u, call)
        for nm in ('empty', 'into_result'):
            try: u = W.inherent(T.uid, nm)
            except Missing: continue
            c = T.ctx(d)
            def th(c=c, nm=nm, u=u):
                if nm == 'empty':
                    T.intact(c, c.call_uid(u, [('ref', 'G', ())], {}))
                else:
                    T.state(c)
                    r = c.norm(c.call_uid(u, [c.mem['T']], {}))
                    if r != ('obj', 'csv', 'S'): raise Undecided('result of into_result')
                need(c, not any(touched(o) for o in c.ops), nm, '%s changes the result' % nm)
                return UNIT
            R.run('%s<%s>' % (nm, ('Undirected', 'Directed')[d]), u, c, th)

def alts_of(c):
    """the per-iteration alternatives that change the result: (vars, guards, ops)"""
    for o in c.ops:
        if o[0] == 'oop' and o[2] == 'arb': continue
        mine = touched(o) or any(touches(o, g) for g in list(c.g_mut))
        if o[0] == 'gop' or touched(o) and o[0] == 'oop': raise Undecided('result changed outside a loop')
        if o[0] == 'each':
            for alt in o[1]: yield alt
        elif any(x[0] in ('gop', 'oop') for x in deep_ops(o)):
            if o[0] == 'some': raise Fail('complete', 'the enumeration can stop before all nodes and edges are processed')
            raise Undecided('result changed in an unsummarised loop')

def deep_ops(o):
    for x in sub_ops(o):
        yield x
        yield from deep_ops(x)

def analyse(c, alt, m, end):
    """one iteration (its variables replaced by m): where its graph operations go; end: a node that tells the component"""
    vs, gs, ops = alt
    pr = [o for o in ops if o[0] == 'oop' and o[2] == 'R']; ps = [o for o in ops if o[0] == 'oop' and o[2] == 'S']
    want = ('croot', end)
    for o in ops:
        if o[0] in ('each', 'some', 'loop') and any(x[0] in ('gop', 'oop') and x[2] != 'arb' for x in deep_ops(o)): raise Undecided('nested loop changes the result')
        if o[0] == 'oop' and o[2] == 'arb' and (pr or ps): raise Undecided('searches the roots without root_to_subgraph')
    need(c, len(pr) == len(ps), 'aligned', 'an iteration adds %d roots but %d subgraphs' % (len(pr), len(ps)))
    need(c, len(ps) <= 1, 'aligned', 'an iteration adds several subgraphs')
    for a, b in zip(pr, ps):
        k = replace(a[3][0], m)
        need(c, c.eq(k, want), 'keyed', 'a new subgraph is listed under another root')
        need(c, b[3][1] == c.dom.directed['g'], 'direction', 'a subgraph of a%s graph is %sdirected' % ((' directed', 'n undirected')[not c.dom.directed['g']], '' if b[3][1] else 'un'))
        known = [(x, v) for x, v in gs if x[0] == 'inR']
        if not known: raise Undecided('adds a subgraph without looking the root up')
        need(c, any(v is False and c.eq(replace(x[2], m), want) for x, v in known), 'split', 'a second subgraph is added for a component')
    for o in ops:
        if o[0] != 'gop': continue
        g = o[1]
        if isinstance(g, tuple) and g[0] == 'sub':
            need(c, c.eq(replace(g[2], m), want), 'component', 'a node or edge is put into the subgraph of another component')
        elif ps and g == ps[0][3][0]: pass
        elif g == 'g': raise Fail('input', 'the enumerated graph is changed')
        else: raise Fail('component', 'a node or edge is put into a graph that is not part of the result')

def whole(R, W, T, d, nm, u, call):
    lab = '%s<%s>' % (nm, ('Undirected', 'Directed')[d])
    def gops(alt): return [o for o in alt[2] if o[0] == 'gop']
    def mk(what, body):
        c = T.ctx(d)
        def th():
            call(c); return body(c)
        R.run('%s:%s' % (lab, what), u, c, th)
    def nodes(c):
        c.assume(('N', 'g', X), True)
        n = 0
        for alt in alts_of(c):
            for o in gops(alt):
                if o[2] != 'add_node': continue
                m = instances(c, (alt[0], alt[1], None), o[3][0], X)
                if m is None: continue
                n += 1
                need_eq(c, replace(o[3][1], m), ('nlb', 'g', X), 'node-label', 'label of a node in its subgraph')
                analyse(c, alt, m, X)
        need(c, n == 1, 'nodes', 'a node of the graph is added to its subgraph %d times' % n)
        return UNIT
    mk('nodes', nodes)
    def edges(c):
        c.assume(('E', 'g', X, Y), True)
        n = 0
        for alt in alts_of(c):
            for o in gops(alt):
                if o[2] != 'add_edge': continue
                for p in [(X, Y)] + ([(Y, X)] if not d and not c.eq(X, Y) else []):
                    m = instances(c, (alt[0], alt[1], None), ('tup', o[3][:2]), ('tup', p))
                    if m is None: continue
                    n += 1
                    need_eq(c, replace(o[3][2], m), ('elb', 'g', X, Y), 'edge-label', 'label of an edge in its subgraph')
                    analyse(c, alt, m, X)
                    break
        need(c, n == 1, 'edges', 'an edge of the graph is added to its subgraph %d times' % n)
        return UNIT
    mk('edges', edges)
    def only(c):
        al = list(alts_of(c))
        if not al: return UNIT
        alt = al[c.choose(len(al), 'alternative')]
        vs, gs, ops = alt
        m = {v: c.fresh('w%') for v in vs}
        for a, b in gs:
            if c.decide_guard(replace(a, m)) != b: raise Infeasible()
        end = None
        for o in gops(alt):
            a = [replace(x, m) for x in o[3]]
            if o[2] == 'add_node': end = a[0]; need(c, c.decide(('N', 'g', a[0])), 'only-nodes', 'a subgraph gets a node the graph does not have')
            elif o[2] == 'add_edge': end = a[0]; need(c, c.decide(('E', 'g', a[0], a[1])), 'only-edges', 'a subgraph gets an edge the graph does not have')
            else: raise Undecided('%s on a subgraph' % o[2])
        if end is not None: analyse(c, alt, m, end)
        elif any(o[0] == 'oop' and o[2] != 'arb' for o in ops): raise Fail('nonempty', 'an iteration adds a subgraph but puts nothing into it')
        return UNIT
    mk('only', only)
