"""C07-C11, C37, C38: what readers see of each graph implementation, against the abstract graph its representation stands for."""
from terms import *
from world import *
from report import *
from subjects import *
import models
from models import map_has, map_val, opt, comp_of, unify, own_it
from core import Ctx

P, Q = ('sym', 'p?'), ('sym', 'q?')

def subjects(W, which=('mut', 'mem', 'mmap')):
    r = []
    if 'mut' in which: r.append(MutSubj(GraphMap(W)))
    if 'mem' in which: r.append(StaticSubj(W, 'mem'))
    if 'mmap' in which: r.append(StaticSubj(W, 'mmap'))
    return r

class NoItem(Exception): pass

# ---- collections an iterator yields --------------------------------------------------------
def hits(c, comp, key, keyof=lambda p: p):
    """all instances of the comprehension with this key: [payload]; an unbounded number of instances fails"""
    out = []
    for alt in comp[1]:
        vs, gs, p = alt
        m, eqs = {}, []
        if not unify(c, keyof(p), key, set(vs), m, eqs): continue
        okk = True
        for e in eqs:
            if len(e) == 2:
                a, b = replace(e[0], m), replace(e[1], m)
                if contains(a, lambda t: t in set(vs)): raise Undecided('which element is %s' % show(a)[:60])
                if not c.eq(a, b): okk = False; break
            elif e[0] == 'in':
                if not c.decide_guard(('in', replace(e[1], m), e[2])): okk = False; break
            elif e[0] == 'ltlen':
                if not c.lt(e[2], models.slen(c, replace(e[1], m))): okk = False; break
        if not okk: continue
        free = [v for v in vs if v not in m]
        # equalities that determine a remaining variable
        ch = True
        while ch and free:
            ch = False
            for a, b in gs:
                a = replace(a, m)
                if b and a[0] == 'eq':
                    for x, y in ((a[1], a[2]), (a[2], a[1])):
                        if x in free and not contains(y, lambda t: t in free):
                            m[x] = y; free.remove(x); ch = True; break
                    if ch: break
        if free:
            m2 = dict(m)
            for v in free: m2[v] = c.fresh('w%')
            okk = True
            for a, b in gs:
                if c.decide_guard(replace(a, m2)) != b: okk = False; break
            if okk:
                w = [replace(a, m2) for a, b in gs if contains(a, lambda t: t in free)]
                raise Fail('once', 'listed once per choice of another element (%s)' % ', '.join(show(x)[:60] for x in w))
            continue
        for a, b in gs:
            if c.decide_guard(replace(a, m)) != b: okk = False; break
        if okk: out.append(replace(p, m))
    return out

def comp(c, it, f=None): return comp_of(c, own_it(c, it), f)

def same_label(c, S, which, got, want, ob, what):
    """two Option<label id> agree"""
    g, x = opt(c, c.strip(got)); w, y = opt(c, want)
    need(c, g == w, ob, lambda: '%s: %s' % (what, 'a label for an unlabelled item' if g else 'no label for a labelled item'))
    if g: need_eq(c, x, y, ob, what)

def one_edge(c, S, com, keyof, what, labels=False):
    """the collection lists the edge (P,Q) exactly as often as the abstract graph has it"""
    E = S.E(c, P, Q)
    h1 = hits(c, com, ('tup', (P, Q)), keyof)
    h2 = [] if c.directed or c.eq(P, Q) else hits(c, com, ('tup', (Q, P)), keyof)
    n = len(h1) + len(h2)
    need(c, n == (1 if E else 0), 'edges-once', lambda: '%s lists %s%s%s %d times, but it is %s the graph' % (what, show(P), '->' if c.directed else '--', show(Q), n, 'in' if E else 'not in'))
    if labels and E: same_label(c, S, 'e', (h1 + h2)[0][1][1], S.elab(c, P, Q), 'edge-label', '%s: label of the edge' % what)

def one_node(c, S, com, keyof, what, labels=False):
    N = S.N(c, P)
    h = hits(c, com, P, keyof)
    need(c, len(h) == (1 if N else 0), 'nodes-once', lambda: '%s lists node %s %d times, but it is %s the graph' % (what, show(P), len(h), 'in' if N else 'not in'))
    if labels and N: same_label(c, S, 'n', h[0][1][1], S.nlab(c, P), 'node-label', '%s: label of the node' % what)

def edge_item(S):
    def f(c, x):
        s = c.strip(S.handle(c, 'EdgeTrait', 'get_start', x)); t = c.strip(S.handle(c, 'EdgeTrait', 'get_target', x))
        return ('tup', (('tup', (s, t)), c.strip(S.handle(c, 'EdgeTrait', 'get_label_id', x))))
    return f
def node_item(S):
    def f(c, x):
        return ('tup', (c.strip(S.handle(c, 'NodeTrait', 'get_id', x)), c.strip(S.handle(c, 'NodeTrait', 'get_label_id', x))))
    return f

def each(R, S, trait, name, ob, body, cfgs=None, contract=True, dirs=None):
    for cfg in (cfgs or S.configs()):
        if dirs is not None and cfg[1] not in dirs: continue
        try: uid = S.uid_of(trait, name, cfg[1])
        except Missing as m:
            R.und('anchor', S.name, str(m)); continue
        c = S.ctx(cfg)
        if contract and isinstance(S, StaticSubj): S.use_edge_contract(c)
        def th(c=c):
            l = S.new(c)
            body(c, l)
            return UNIT
        R.run('%s<%s>' % (ob, cfg[0]), uid, c, th)

def views(R, S):
    W = S.W
    def v_nodeids(c, l): one_node(c, S, comp(c, S.call(c, 'GraphTrait', 'node_indices', l, []), lambda x: c.strip(x)), lambda p: p, 'node_indices()')
    def v_edgeids(c, l):
        one_edge(c, S, comp(c, S.call(c, 'GraphTrait', 'edge_indices', l, []), lambda x: c.strip(x)), lambda p: p, 'edge_indices()')
    ni, ei = node_item(S), edge_item(S)
    def v_nodes(c, l): one_node(c, S, comp(c, S.call(c, 'GraphTrait', 'nodes', l, []), lambda x: ni(c, x)), lambda p: p[1][0], 'nodes()', True)
    def v_edges(c, l): one_edge(c, S, comp(c, S.call(c, 'GraphTrait', 'edges', l, []), lambda x: ei(c, x)), lambda p: p[1][0], 'edges()', True)
    def v_hasn(c, l): need_eq(c, S.call(c, 'GraphTrait', 'has_node', l, [P]), B(S.N(c, P)), 'has_node', 'has_node()')
    def v_hase(c, l): need_eq(c, S.call(c, 'GraphTrait', 'has_edge', l, [P, Q]), B(S.E(c, P, Q)), 'has_edge', 'has_edge()')
    def v_nc(c, l): need_eq(c, S.call(c, 'GraphTrait', 'node_count', l, []), S.ncount(c), 'node_count', 'node_count()')
    def v_ec(c, l): need_eq(c, S.call(c, 'GraphTrait', 'edge_count', l, []), S.ecount(c), 'edge_count', 'edge_count()')
    def v_dir(c, l): need_eq(c, S.call(c, 'GraphTrait', 'is_directed', l, []), B(c.directed), 'is_directed', 'is_directed()')
    def v_deg(c, l):
        if S.N(c, P): need_eq(c, S.call(c, 'GraphTrait', 'degree', l, [P]), S.deg(c, P), 'degree', 'degree()')
    def nb(name, rev=False):
        def f(c, l):
            if not S.N(c, P): return
            r = S.call(c, 'DiGraphTrait' if rev else 'GraphTrait', name, l, [P])
            r = c.strip(r)
            if r[0] == 'adt' and r[1] == 'alloc::borrow::Cow':
                r = c.strip(r[3][0]); it = models.base('vec', (r, None, 'own'))
            else: it = r
            com = comp(c, it, lambda x: c.strip(x))
            E = S.E(c, Q, P) if rev else S.E(c, P, Q)
            h = hits(c, com, Q)
            need(c, len(h) == (1 if E else 0), 'neighbours-once', lambda: '%s() lists %s %d times, but the edge is %s the graph' % (name, show(Q), len(h), 'in' if E else 'not in'))
        return f
    def v_indeg(c, l):
        if S.N(c, P): need_eq(c, S.call(c, 'DiGraphTrait', 'in_degree', l, [P]), S.indeg(c, P), 'in_degree', 'in_degree()')
    for nm, f in (('node_indices', v_nodeids), ('edge_indices', v_edgeids), ('nodes', v_nodes), ('edges', v_edges), ('has_node', v_hasn), ('has_edge', v_hase),
                  ('node_count', v_nc), ('edge_count', v_ec), ('is_directed', v_dir), ('degree', v_deg), ('neighbors', nb('neighbors')), ('neighbors_iter', nb('neighbors_iter'))):
        each(R, S, 'GraphTrait', nm, nm, f)
    for nm, f in (('in_degree', v_indeg), ('in_neighbors', nb('in_neighbors', True)), ('in_neighbors_iter', nb('in_neighbors_iter', True))):
        each(R, S, 'DiGraphTrait', nm, nm, f, dirs=(True,))
    if isinstance(S, StaticSubj) and S.which == 'mmap':
        # the memory-mapped type offers in-neighbour queries also when the graph turns out undirected: none
        pass

def label_views(R, S):
    def node(c, l):
        r = S.call(c, 'GraphLabelTrait', 'get_node_label', l, [P])
        want = S.text(c, 'n', S.nlab(c, P)) if S.N(c, P) else NONE
        same_label(c, S, 'n', mapstrip(c, r), want, 'node-text', 'get_node_label()')
    def edge(c, l):
        r = S.call(c, 'GraphLabelTrait', 'get_edge_label', l, [P, Q])
        want = S.text(c, 'e', S.elab(c, P, Q)) if S.E(c, P, Q) else NONE
        same_label(c, S, 'e', mapstrip(c, r), want, 'edge-text', 'get_edge_label()')
    each(R, S, 'GraphLabelTrait', 'get_node_label', 'node-label', node)
    each(R, S, 'GraphLabelTrait', 'get_edge_label', 'edge-label', edge)
    def tabs(c, l):
        for nm, w in (('get_node_label_map', 'NL'), ('get_edge_label_map', 'EL')):
            need_eq(c, c.strip(S.call(c, 'GraphLabelTrait', nm, l, [])), ('sym', w), 'tables', nm)
    each(R, S, 'GraphLabelTrait', 'get_node_label_map', 'label-tables', tabs)

def mapstrip(c, r):
    s, p = opt(c, r)
    return some(c.strip(p)) if s else NONE

def lookups(R, S, absent_only=False):
    """get_node/get_edge answer for the item asked about, or 'absent'; never a panic"""
    def gn(c, l):
        N = S.N(c, P)
        h = S.call(c, 'GraphTrait', 'get_node', l, [P])
        handle_node(c, S, h, N, P, lambda: S.nlab(c, P), 'get_node()')
    def ge(c, l):
        E = S.E(c, P, Q)
        h = S.call(c, 'GraphTrait', 'get_edge', l, [P, Q])
        handle_edge(c, S, h, E, P, Q, lambda: S.elab(c, P, Q), 'get_edge()')
    each(R, S, 'GraphTrait', 'get_node', 'get_node', gn)
    each(R, S, 'GraphTrait', 'get_edge', 'get_edge', ge)
    if isinstance(S, MutSubj):
        def gnm(c, l):
            N = S.N(c, P)
            h = S.call(c, 'MutGraphTrait', 'get_node_mut', l, [P])
            handle_node(c, S, h, N, P, lambda: S.nlab(c, P), 'get_node_mut()', mut=l)
        def gem(c, l):
            E = S.E(c, P, Q)
            h = S.call(c, 'MutGraphTrait', 'get_edge_mut', l, [P, Q])
            handle_edge(c, S, h, E, P, Q, lambda: S.elab(c, P, Q), 'get_edge_mut()', mut=l)
        each(R, S, 'MutGraphTrait', 'get_node_mut', 'get_node_mut', gnm)
        each(R, S, 'MutGraphTrait', 'get_edge_mut', 'get_edge_mut', gem)

def handle_state(c, S, tr, h, present, what):
    n = c.decide(S.handle(c, tr, 'is_none', h)); s = c.decide(S.handle(c, tr, 'is_some', h))
    need(c, n == (not present) and s == present, 'present', lambda: '%s: is_none()=%s, is_some()=%s for %s item' % (what, n, s, 'a present' if present else 'an absent'))

def handle_node(c, S, h, present, k, lab, what, mut=None):
    l0 = c.alloc(h, 'hd'); h = ('ref', l0, ())
    handle_state(c, S, 'NodeTrait', h, present, what)
    if present:
        need_eq(c, c.strip(S.handle(c, 'NodeTrait', 'get_id', h)), k, 'id', '%s: id of the handle' % what)
        same_label(c, S, 'n', S.handle(c, 'NodeTrait', 'get_label_id', h), lab(), 'label', '%s: label of the handle' % what)
        if mut is not None:
            nl = ('sym', 'newlab')
            S.handle(c, 'MutNodeTrait', 'set_label_id', h, [nl])
            same_label(c, S, 'n', S.handle(c, 'NodeTrait', 'get_label_id', h), nl, 'set-label', '%s: label read back through the handle' % what)
            need_eq(c, S.G.nf(c, S.G.nodeval(c, mut, k), 'n_label'), nl, 'set-label', '%s: label in the graph after setting it through the handle' % what)
    else: absent_label(c, S, 'NodeTrait', h, what)

def handle_edge(c, S, h, present, a, b, lab, what, mut=None):
    l0 = c.alloc(h, 'hd'); h = ('ref', l0, ())
    handle_state(c, S, 'EdgeTrait', h, present, what)
    if present:
        need_eq(c, c.strip(S.handle(c, 'EdgeTrait', 'get_start', h)), a, 'start', '%s: start of the handle' % what)
        need_eq(c, c.strip(S.handle(c, 'EdgeTrait', 'get_target', h)), b, 'target', '%s: target of the handle' % what)
        same_label(c, S, 'e', S.handle(c, 'EdgeTrait', 'get_label_id', h), lab(), 'label', '%s: label of the handle' % what)
        if mut is not None:
            nl = ('sym', 'newlab')
            S.handle(c, 'MutEdgeTrait', 'set_label_id', h, [nl])
            same_label(c, S, 'e', S.handle(c, 'EdgeTrait', 'get_label_id', h), nl, 'set-label', '%s: label read back through the handle' % what)
            pr, x = S.G.out(c, mut, a, b)
            need(c, pr, 'set-label', 'edge lost by setting its label'); need_eq(c, x, nl, 'set-label', '%s: label in the graph after setting it through the handle' % what)
    else: absent_label(c, S, 'EdgeTrait', h, what)

def absent_label(c, S, tr, h, what):
    """the borrowed handle of an absent item answers 'no label'"""
    v = c.read(c.derefpl(h))
    if v[0] == 'adt' and v[1] in (S.W.adt('NodeType'), S.W.adt('EdgeType')):
        need_eq(c, S.handle(c, tr, 'get_label_id', h), NONE, 'absent-label', '%s: label of an absent item' % what)

# ---- rules ----------------------------------------------------------------------------------
def subject(W): return W

def c07(R, W):
    """Every membership, fetch, label, update and removal call on every graph type, with arbitrary ids: no path panics and the answer is
    'absent' exactly when the abstract graph lacks the item."""
    from rules import mutgraph
    for S in subjects(W):
        lookups(R, S); label_views(R, S)
        def v_hasn(c, l, S=S): need_eq(c, S.call(c, 'GraphTrait', 'has_node', l, [P]), B(S.N(c, P)), 'has_node', 'has_node()')
        def v_hase(c, l, S=S): need_eq(c, S.call(c, 'GraphTrait', 'has_edge', l, [P, Q]), B(S.E(c, P, Q)), 'has_edge', 'has_edge()')
        each(R, S, 'GraphTrait', 'has_node', 'has_node', v_hasn)
        each(R, S, 'GraphTrait', 'has_edge', 'has_edge', v_hase)
        if isinstance(S, MutSubj):
            cr = mutgraph.chk_result(S.G)
            for op in ('remove_node', 'remove_edge', 'update_node_label', 'update_edge_label'):
                mutgraph.foreach(R, S.G, [op], lambda c, l, sp, op=op: cr(c, l, sp, op), 'absent')

def c08(R, W):
    """Each reader of the mutable graph lists, counts and answers for exactly the abstract node set and edge relation, every element once, with its label."""
    for S in subjects(W, ('mut',)): views(R, S)

def c09(R, W):
    """Each reader of the static graph lists, counts and answers for exactly the abstract node set and edge relation its arrays stand for, every element once, with its label."""
    for S in subjects(W, ('mem',)): views(R, S); label_views(R, S); lookups(R, S); positions(R, S)

def inherent_call(c, S, name, l, args):
    uid = S.W.inherent(S.uid, name)
    env = {S.gparam: S.W.Directed if c.directed else S.W.Undirected} if S.which == 'mem' else {}
    return c.call_uid(uid, [('ref', l, ())] + args, env)

def positions(R, S):
    """the position of an edge in the edge array"""
    try: uid = S.W.inherent(S.uid, 'find_edge_index')
    except Missing: return
    for cfg in S.configs():
        c = S.ctx(cfg); S.use_edge_contract(c)
        def th(c=c):
            l = S.new(c)
            E = S.E(c, P, Q)
            s, i = opt(c, inherent_call(c, S, 'find_edge_index', l, [P, Q]))
            need(c, s == E, 'present', 'a position is given for an absent edge' if s else 'no position is given for an edge of the graph')
            if s:
                arr = c.norm(('sym', 'edg'))
                need(c, c.lt(i, models.vlen(c, arr)), 'position', 'the position lies outside the edge array')
                lo, hi = models.vget(c, ('sym', 'off'), ('idid', P)), models.vget(c, ('sym', 'off'), add(('idid', P), I(1)))
                need_eq(c, c.strip(models.vget(c, models.vslice(c, arr, lo, hi), c.norm(sub(i, lo)))), Q, 'position', 'target at the position of the edge')
            return UNIT
        R.run('find_edge_index<%s>' % cfg[0], uid, c, th)

def inner(R, S):
    """the borrowed neighbour arrays of the memory-mapped graph"""
    for nm, rev in (('inner_neighbors', False), ('inner_in_neighbors', True)):
        try: uid = S.W.inherent(S.uid, nm)
        except Missing: continue
        for cfg in S.configs():
            c = S.ctx(cfg); S.use_edge_contract(c)
            def th(c=c, nm=nm, rev=rev):
                l = S.new(c)
                if not S.N(c, P): return UNIT
                r = c.strip(inherent_call(c, S, nm, l, [P]))
                h = hits(c, comp(c, models.base('vec', (r, None, 'own')), lambda x: c.strip(x)), Q)
                E = False if rev and not c.directed else S.E(c, Q, P) if rev else S.E(c, P, Q)
                need(c, len(h) == (1 if E else 0), 'neighbours-once', lambda: '%s() lists %s %d times, but the edge is %s the graph' % (nm, show(Q), len(h), 'in' if E else 'not in'))
                return UNIT
            R.run('%s<%s>' % (nm, cfg[0]), uid, c, th)

def c10(R, W):
    """Each reader of the memory-mapped graph meets the same specification over the same arrays as the in-memory static graph."""
    for S in subjects(W, ('mmap',)): views(R, S); label_views(R, S); lookups(R, S); max_id(R, S); inner(R, S)

def max_id(R, S):
    def mx(c, l):
        s, p = opt(c, S.call(c, 'GraphTrait', 'max_seen_id', l, []))
        n = S.ncount(c)
        empty = c.eq(n, I(0))
        need(c, s == (not empty), 'max', lambda: 'max_seen_id() is %s for a graph with%s nodes' % ('Some' if s else 'None', 'out' if empty else ''))
        if s: need_eq(c, c.norm(('idid', p)), sub(n, I(1)), 'max', 'max_seen_id()')
    each(R, S, 'GraphTrait', 'max_seen_id', 'max_seen_id', mx)
