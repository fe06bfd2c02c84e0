"""Abstract graphs: code that works on a graph only through the public graph traits is analysed with the contracts
of those traits (decided for every implementation by C01-C11) instead of an implementation.
A graph value is ('G', name); what it contains are the atoms N(g,x), E(g,a,b) and the labels ('nlb',g,x), ('elb',g,a,b)
(Option terms).  A graph that is changed has its operations logged in c.ops as ('gop', name, op, args)."""
from terms import *
from core import Ctx
import models, itertools
from models import opt, base, nxt, new_elem, refto, target, unify
from world import Missing, head_of
from report import OPAQUE

OPAQUE.update({'opret'})

class GDom:
    def __init__(self, directed, same=None):
        self.directed = dict(directed)          # graph name -> bool
        self.same = dict(same or {})            # graph name -> graph it is observably equal to
        self.ctx = None
        self.empty = set()                      # graphs known to be empty (before their logged operations)
    def pair(self, g, a, b):
        if self.directed.get(g, True): return (a, b)
        return (a, b) if repr(a) <= repr(b) else (b, a)
    G3 = ('E', 'elb', 'elid')
    def simp(self, t, fs):
        o = t[0]
        if len(t) > 1 and isinstance(t[1], str) and t[1] in self.same and o in ('N', 'E', 'nlb', 'elb', 'cardN', 'cardE', 'maxid', 'maxpos'):
            return (o, self.same[t[1]]) + t[2:]
        if o in self.G3 and not self.directed.get(t[1], True):
            p = self.pair(t[1], t[2], t[3])
            if p != t[2:]: return (o, t[1]) + p
        if o in ('cardN', 'cardE') and t[1] in self.empty: return I(0)
        if o in ('maxid', 'maxpos') and t[1] in self.empty: return NONE
        return t
    def lookup(self, at, fs):
        o = at[0]
        if o in ('N', 'E') and at[1] in self.empty: return False
        if o == 'N':
            for k, v in fs.atoms.items():
                if k[0] == 'E' and v and k[1] == at[1] and at[2] in k[2:]: return True
        if o == 'E':
            for k, v in fs.atoms.items():
                if k[0] == 'N' and not v and k[1] == at[1] and k[2] in at[2:]: return False
        if o == 'isv' and at[1][0] in ('nlb', 'elb', 'nlid', 'elid') and at[2] in (0, 1):
            v = fs.atoms.get(('isv', at[1], 1 - at[2]))
            if v is not None: return not v
        if o == 'isv' and at[1][0] == 'maxid' and at[2] in (0, 1):
            v = fs.atoms.get(('isv', at[1], 1 - at[2]))
            if v is not None: return not v
        if o == 'eq':
            for x, y in ((at[1], at[2]), (at[2], at[1])):
                if y == I(0) and x[0] == 'cardN' and any(k[0] == 'N' and v and k[1] == x[1] for k, v in fs.atoms.items()): return False
                if y == I(0) and x[0] == 'cardE' and any(k[0] == 'E' and v and k[1] == x[1] for k, v in fs.atoms.items()): return False
        return None
    def consequences(self, at, v, fs):
        out = []
        if at[0] == 'E' and v: out += [(('N', at[1], at[2]), True), (('N', at[1], at[3]), True)]
        for x in ([at[2]] if at[0] == 'N' and v else at[2:4] if at[0] == 'E' and v else []): out += [(('isv', ('maxid', at[1]), 1), True), (('lt', ('vf', ('maxid', at[1]), 1, 0), x), False),
                                       (('lt', ('idid', ('vf', ('maxid', at[1]), 1, 0)), ('idid', x)), False)]
        return out
    def decide(self, at, c): return None
    def sub_overflow(self, a, b, c): return False

def gid(c, r):
    """graph name behind a receiver, or None"""
    v = c.norm(r)
    for _ in range(8):
        if v[0] == 'G': return v[1]
        if v[0] in ('ref', 'rv'):
            try: v = c.norm(c.read(c.derefpl(v)))
            except Undecided: return None
            continue
        return None
    return None

def contracts(W, c, fresh_dir=None):
    """installs the trait contracts into a context"""
    ov = c.overrides
    nt, nadt = W.adt('NodeType'), W.F.adts[W.adt('NodeType')]
    et = W.adt('EdgeType'); sn = W.adt('StaticNode'); ed = W.adt('Edge')
    def variant(u, pred):
        for i, v in enumerate(W.F.adts[u]['variants']):
            if pred(v): return i
        raise Missing('variant of %s' % u)
    nsome = variant(nt, lambda v: len(v['f']) == 1 and head_of(W.F.ty(v['f'][0]['t'])) == sn); nnone = variant(nt, lambda v: not v['f'])
    esome = variant(et, lambda v: len(v['f']) == 1); enone = variant(et, lambda v: not v['f'])
    def node(g, x):
        f = W.F.adts[sn]['variants'][0]['f']
        return ('adt', nt, nsome, (('adt', sn, 0, tuple(x if head_of(W.F.ty(z['t'])) == 'param' else ('nlid', g, x) for z in f)),))
    ef = W.F.adts[ed]['variants'][0]['f']
    eorder = []
    for z in ef: eorder.append('l' if head_of(W.F.ty(z['t'])) == OPT else None)
    rest = [i for i, z in enumerate(eorder) if z is None]
    if len(rest) != 2: raise Missing('fields of Edge')
    eorder[rest[0]], eorder[rest[1]] = 's', 't'
    def edge(g, a, b):
        return ('adt', et, esome, (('adt', ed, 0, tuple({'s': a, 't': b, 'l': ('elid', g, a, b)}[k] for k in eorder)),))
    c.g_edge = edge; c.g_node = node
    def reading(f):
        def h(cc, a, ta):
            g = gid(cc, a[0])
            if g is None: return NotImplemented
            if g in cc.g_mut and any(touches(o, g) for o in cc.ops): raise Undecided('reads a graph it is changing')
            return f(cc, g, a)
        return h
    dec = lambda cc, at: B(cc.decide(at))
    def get_node(cc, g, a):
        x = cc.strip(a[1])
        return node(g, x) if cc.decide(('N', g, x)) else ('adt', nt, nnone, ())
    def get_edge(cc, g, a):
        x, y = cc.strip(a[1]), cc.strip(a[2])
        return edge(g, x, y) if cc.decide(('E', g, x, y)) else ('adt', et, enone, ())
    def nlabel(cc, g, a):
        x = cc.strip(a[1])
        if not cc.decide(('N', g, x)): return NONE
        s, p = opt(cc, ('nlb', g, x)); return some(('rv', p)) if s else NONE
    def elabel(cc, g, a):
        x, y = cc.strip(a[1]), cc.strip(a[2])
        if not cc.decide(('E', g, x, y)): return NONE
        s, p = opt(cc, ('elb', g, x, y)); return some(('rv', p)) if s else NONE
    def nbrs(kind):
        def f(cc, g, a):
            x = cc.strip(a[1])
            if not cc.decide(('N', g, x)): raise Panic('neighbours of an absent node', cc.span())
            return base(kind, (g, x))
        return f
    def degree(kind):
        def f(cc, g, a):
            x = cc.strip(a[1])
            if not cc.decide(('N', g, x)): raise Panic('degree of an absent node', cc.span())
            return ('card' + kind, g, x)
        return f
    def as_cow(kind):
        h = nbrs(kind)
        def f(cc, g, a):
            it = h(cc, g, a)
            return ('adt', 'alloc::borrow::Cow', 1, (('vcoll', models.comp_of(cc, it), 'seq'),))
        return f
    def max_seen(cc, g, a):
        s, p = opt(cc, ('maxid', g)); return some(p) if s else NONE
    G = {'has_node': lambda cc, g, a: dec(cc, ('N', g, cc.strip(a[1]))), 'has_edge': lambda cc, g, a: dec(cc, ('E', g, cc.strip(a[1]), cc.strip(a[2]))),
         'node_count': lambda cc, g, a: cc.norm(('cardN', g)), 'edge_count': lambda cc, g, a: cc.norm(('cardE', g)),
         'is_directed': lambda cc, g, a: B(cc.dom.directed[g]),
         'node_indices': lambda cc, g, a: base('gnodes', (g, 'id')), 'nodes': lambda cc, g, a: base('gnodes', (g, 'node')),
         'edge_indices': lambda cc, g, a: base('gedges', (g, 'id')), 'edges': lambda cc, g, a: base('gedges', (g, 'edge')),
         'get_node': get_node, 'get_edge': get_edge, 'neighbors_iter': nbrs('gnbrs'), 'neighbors': as_cow('gnbrs'), 'degree': degree('nb'),
         'max_seen_id': max_seen, 'max_possible_id': lambda cc, g, a: ('idmax', 'Id')}
    itu = [u for u, a in W.F.adts.items() if u.endswith('::iter::Iter') and len(a['variants']) == 1 and len(a['variants'][0]['f']) == 1]
    if len(itu) != 1: raise Missing('Iter')
    def wrapped(f):
        def h(cc, g, a): return ('adt', itu[0], 0, (('ref', cc.alloc(f(cc, g, a), 'box'), ()),))
        return h
    for nm in ('node_indices', 'nodes', 'edge_indices', 'edges', 'neighbors_iter'): G[nm] = wrapped(G[nm])
    for nm, f in G.items(): ov[W.trait('GraphTrait') + '::' + nm] = reading(f)
    for nm, f in {'get_node_label': nlabel, 'get_edge_label': elabel}.items(): ov[W.trait('GraphLabelTrait') + '::' + nm] = reading(f)
    D = {'in_degree': degree('inb'), 'in_neighbors_iter': nbrs('ginnbrs'), 'in_neighbors': as_cow('ginnbrs')}
    D['in_neighbors_iter'] = wrapped(D['in_neighbors_iter'])
    for nm, f in D.items(): ov[W.trait('DiGraphTrait') + '::' + nm] = reading(f)
    def selfref(cc, a, ta):
        return a[0] if gid(cc, a[0]) is not None else NotImplemented
    def as_digraph(cc, a, ta):
        g = gid(cc, a[0])
        if g is None: return NotImplemented
        return some(a[0]) if cc.dom.directed[g] else NONE
    def as_mut(cc, a, ta):
        g = gid(cc, a[0])
        if g is None: return NotImplemented
        return some(a[0]) if g in cc.g_mut else (some(a[0]) if cc.decide(('mutable', g)) else NONE)
    for nm in ('as_graph', 'as_labeled_graph', 'as_general_graph'): ov[W.trait('GeneralGraph') + '::' + nm] = selfref
    ov[W.trait('GeneralGraph') + '::as_digraph'] = as_digraph; ov[W.trait('GeneralGraph') + '::as_mut_graph'] = as_mut
    def mutating(nm, tr):
        def h(cc, a, ta):
            g = gid(cc, a[0])
            if g is None: return NotImplemented
            args = tuple(cc.deep(cc.strip(x)) if cc.norm(x)[0] in ('ref', 'rv') else cc.deep(x) for x in a[1:])
            cc.g_mut.setdefault(g, 'same')
            cc.ops.append(('gop', g, nm, args))
            return ('opret', len(cc.ops), nm)
        ov[W.trait(tr) + '::' + nm] = h
    for nm in ('add_node', 'remove_node', 'add_edge', 'remove_edge'): mutating(nm, 'MutGraphTrait')
    for nm in ('update_node_label', 'update_edge_label'): mutating(nm, 'MutGraphLabelTrait')
    # constructors of the mutable graph: an empty graph
    mg = W.impl_self('MutGraphTrait', W.adt('TypedGraphMap'))
    h = W.F.ty(mg[0]['self'])[1] if mg else None
    gp = None
    def construct(uid):
        gens = W.F.defs[uid].get('generics', [])
        def f(cc, a, ta):
            d = None
            for t in ta:
                if t == W.Directed: d = True
                if t == W.Undirected: d = False
                if t and t[0] == 'adt' and t[1] == h:
                    for y in t[2]:
                        if y == W.Directed: d = True
                        if y == W.Undirected: d = False
            if d is None: d = getattr(cc, 'anydir', None)
            if d is None: raise Undecided('direction of a new graph')
            cc.cnt += 1
            n = 'new%d' % cc.cnt
            cc.dom.directed[n] = d; cc.g_mut[n] = 'empty'; cc.dom.empty.add(n)
            return ('G', n)
        return f
    for nm in ('new', 'with_capacity'):
        try:
            u = W.inherent(h, nm); ov[W.F.cn(u)] = construct(u)
        except Missing: pass
    dt = 'core::default::Default'
    for im in W.F.by_trait.get(dt, []):
        t = W.F.ty(im['self'])
        if t[0] == 'adt' and t[1] == h:
            for nm, iu, _ in im['items']: ov[W.F.cn(iu)] = construct(iu)
    def clone(cc, a, ta):
        g = gid(cc, a[0])
        if g is None: return NotImplemented
        if ta and ta[0][0] == 'ref': return NotImplemented
        t = ta[0] if ta else None
        if t is not None and t[0] == 'adt' and t[1].endswith('boxed::Box'): return NotImplemented
        if g in cc.g_mut: raise Undecided('clone of a changed graph')
        cc.cnt += 1
        n = 'new%d' % cc.cnt
        cc.dom.directed[n] = cc.dom.directed[g]; cc.g_mut[n] = ('copy', g); cc.dom.same[n] = cc.dom.same.get(g, g)
        return ('G', n)
    ov['core::clone::Clone::clone'] = clone
    c.g_mut = {}

def gctx(W, directed, same=None):
    c = Ctx(W.F, GDom(directed, same))
    c.models = dict(models.M)
    c.models[('elem', 'gnodes')] = elem_nodes
    c.models[('elem', 'gedges')] = elem_edges
    c.models[('elem', 'gnbrs')] = elem_nbrs
    c.models[('elem', 'ginnbrs')] = elem_innbrs
    c.models[('empty', 'gnodes')] = lambda cc, it: empty_card(cc, ('cardN', it[3][0]))
    c.models[('empty', 'gedges')] = lambda cc, it: empty_card(cc, ('cardE', it[3][0]))
    contracts(W, c)
    # graphs made on one path do not outlive it
    c.snap_extra = lambda: (dict(c.g_mut), dict(c.dom.directed), dict(c.dom.same), set(c.dom.empty))
    def rs(x): c.g_mut = dict(x[0]); c.dom.directed = dict(x[1]); c.dom.same = dict(x[2]); c.dom.empty = set(x[3])
    c.restore_extra = rs
    return c

def empty_card(c, n):
    if not c.eq(c.norm(n), I(0)): raise Infeasible()
def elem_nodes(c, it):
    g, form = it[3]
    x = new_elem(c); c.assume(('N', g, x), True)
    return x if form == 'id' else c.g_node(g, x)
def elem_edges(c, it):
    g, form = it[3]
    x = new_elem(c); y = new_elem(c)
    c.assume(('E', g, x, y), True)
    if not c.dom.directed[g] and c.lt(y, x): raise Infeasible()
    return ('tup', (x, y)) if form == 'id' else c.g_edge(g, x, y)
def elem_nbrs(c, it):
    g, x = it[3]
    y = new_elem(c); c.assume(('E', g, x, y), True); return y
def elem_innbrs(c, it):
    g, x = it[3]
    y = new_elem(c); c.assume(('E', g, y, x), True); return y

# ---------------------------------------------------------------- the graph an operation log builds
def touches(o, g):
    if o[0] == 'gop': return o[1] == g
    return any(touches(x, g) for x in sub_ops(o))
def sub_ops(o):
    if o[0] in ('each', 'some'): return [x for alt in o[1] for x in alt[2]]
    if o[0] == 'loop': return [x for alt in o[1] for x in alt]
    return []

def instances(c, alt, pat, key):
    """(one path per) way in which the alternative has an instance whose pattern equals key: substitution or None"""
    vs, gs, _ = alt
    vset = set(vs); m = {}; eqs = []
    if not unify(c, pat, key, vset, m, eqs): return None
    for e in eqs:
        if len(e) != 2: raise Undecided('operation on computed keys')
        a, b = replace(e[0], m), replace(e[1], m)
        if contains(a, lambda t: t in vset): raise Undecided('operation on computed keys %s' % show(a)[:200])
        if not c.eq(a, b): return None
    free = models.solve_free(vs, gs, m)
    later = []
    for a, b in gs:
        a2 = replace(a, m)
        if contains(a2, lambda t: t in free): later.append((a2, b)); continue
        if c.decide_guard(a2) != b: return None
    if free:
        if c.choose(2, 'instance') == 1:                  # no such instance
            cands = {x for k, v in c.facts.atoms.items() if v and k[0] in ('E', 'N') for x in k[2:]}
            if len(free) <= 2 and len(cands) <= 6:
                for pick in itertools.product(sorted(cands, key=repr), repeat=len(free)):
                    m2 = dict(m); m2.update(zip(free, pick))
                    gs2 = [(replace(a, m2), b) for a, b in later]
                    ks = [c.known(a) for a, b in gs2]
                    if any(k is not None and k != b for k, (_, b) in zip(ks, gs2)): continue
                    unk = [x for k, x in zip(ks, gs2) if k is None]
                    # an element at hand that may be such an instance: settle its comparisons
                    if len(unk) < len(gs2) and all(a[0] in ('eq', 'not') and not contains(a, lambda t: t[0] in ('E', 'N')) for a, _ in unk):
                        if all(c.decide(a) == b for a, b in unk): raise Infeasible()
            return None
        for v in free: m[v] = c.fresh('w%')
        for a, b in later:
            if c.decide_guard(replace(a, m)) != b: raise Infeasible()
    return m

def hits(c, g, o, query):
    """does this operation (of graph g) decide the query? -> ('set', args) / ('del',) / None"""
    kind, key = query; nm, args = o[2], o[3]
    und = not c.dom.directed[g]
    return nm, args

def state(c, g, query, ops=None, depth=0):
    """('absent',) or ('present', label) of a node or edge in the graph the operations built"""
    ops = list(c.ops) if ops is None else ops
    und = not c.dom.directed[g]
    kind, key = query
    def one(o, alt, later):
        """effect of one elementary operation; alt = (vars, guards) when it is inside a loop"""
        nm, args = o[2], o[3]
        def at(pat, k):
            if alt is None: return {} if c.eq(pat, k) else None
            return instances(c, (alt[0], alt[1], None), pat, k)
        def val(t, m): return replace(t, m)
        if kind == 'n':
            if nm == 'add_node':
                m = at(args[0], key)
                if m is not None: return ('present', val(args[1], m))
            elif nm == 'remove_node':
                if at(args[0], key) is not None: return ('absent',)
            elif nm == 'add_edge':
                for e in (0, 1):
                    if at(args[e], key) is not None:
                        r = later()
                        return r if r[0] == 'present' else ('present', NONE)
            elif nm == 'update_node_label':
                m = at(args[0], key)
                if m is not None:
                    r = later()
                    return ('present', val(args[1], m)) if r[0] == 'present' else r
        else:
            a, b = key
            tgt = [('tup', (a, b))] + ([('tup', (b, a))] if und and a != b else [])
            if nm in ('add_edge', 'remove_edge', 'update_edge_label'):
                for t in tgt:
                    m = at(('tup', (args[0], args[1])), t)
                    if m is not None:
                        if nm == 'add_edge': return ('present', val(args[2], m))
                        if nm == 'remove_edge': return ('absent',)
                        r = later()
                        return ('present', val(args[2], m)) if r[0] == 'present' else r
            elif nm == 'remove_node':
                for k in (a, b):
                    if at(args[0], k) is not None: return ('absent',)
        return None
    for i in range(len(ops) - 1, -1, -1):
        o = ops[i]
        if not touches(o, g): continue
        later = lambda i=i: state(c, g, query, ops[:i], depth + 1)
        if o[0] == 'gop':
            r = one(o, None, later)
            if r is not None: return r
        elif o[0] == 'each':
            if any(x[0] != 'gop' and touches(x, g) for alt in o[1] for x in alt[2]): 
                o2 = flatten(o)
                if o2 is None: raise Undecided('nested changes of a graph')
                o = o2
            flat = [(alt, j) for alt in o[1] for j in range(len(alt[2])) if touches(alt[2][j], g)]
            names = {alt[2][j][2] for alt, j in flat}
            if len({k.split('_')[0] for k in names}) > 1: raise Undecided('a loop that both adds and removes')
            for alt, j in reversed(flat):
                r = one(alt[2][j], (alt[0], alt[1]), later)
                if r is not None: return r
        else: raise Undecided('changes of a graph in an unsummarised loop')
    init = c.g_mut.get(g, 'same')
    if init == 'empty': return ('absent',)
    g0 = init[1] if isinstance(init, tuple) else g
    if kind == 'n': return ('present', c.norm(('nlb', g0, key))) if c.decide(('N', g0, key)) else ('absent',)
    return ('present', c.norm(('elb', g0) + tuple(key))) if c.decide(('E', g0) + tuple(key)) else ('absent',)

def flatten(o):
    """each(each(..)) as one each over the pairs"""
    alts = []
    for vs, gs, ops in o[1]:
        plain = [x for x in ops if x[0] == 'gop']
        if plain: alts.append((vs, gs, tuple(plain)))
        for x in ops:
            if x[0] == 'gop' or not sub_ops(x): continue
            if x[0] != 'each': return None
            y = flatten(x)
            if y is None: return None
            for v2, g2, o2 in y[1]: alts.append((tuple(vs) + tuple(v2), tuple(gs) + tuple(g2), o2))
    return ('each', tuple(alts))
