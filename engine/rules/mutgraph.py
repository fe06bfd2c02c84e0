"""C01-C06: the mutating operations of the mutable graph, against their specification on the abstract graph."""
from terms import *
from world import *
from report import *
from core import DEV
import models
from models import map_has, map_val, opt

P, Q = ('sym', 'p?'), ('sym', 'q?')
S, T, ID = ('sym', 's'), ('sym', 't'), ('sym', 'id')
LAB = ('sym', 'label')

class Pre:
    """the abstract graph before the operation"""
    def __init__(self, G, c): self.G = G; self.c = c
    def N(self, k): return self.c.decide(('N', k))
    def E(self, a, b): return self.c.decide(('E',) + self.c.dom.pair(a, b))
    def nlab(self, k): return self.c.norm(('nlab', k))
    def elab(self, a, b): return self.c.norm(('elab',) + self.c.dom.pair(a, b))

class Spec:
    """the abstract graph an operation must leave behind"""
    def __init__(self, pre):
        self.pre = pre; self.c = pre.c
        self.N = pre.N; self.E = pre.E; self.nl = None; self.el = None    # overridden labels
        self.count = ('sym', 'E#')
        self.nodes_added = []
        self.result = None

def same_edge(c, a, b, s, t):
    if c.eq(a, s) and c.eq(b, t): return True
    if not c.directed and c.eq(a, t) and c.eq(b, s): return True
    return False

def spec_of(G, c, op):
    pre = Pre(G, c); sp = Spec(pre)
    if op in ('add_node', 'update_node_label'):
        had = pre.N(ID)
        sp.had = had
        if op == 'add_node': sp.N = lambda k: c.eq(k, ID) or pre.N(k)
        if op == 'add_node' or had: sp.nl = (ID, LAB)
        if op == 'add_node' and not had: sp.nodes_added = [ID]
    elif op in ('add_edge', 'update_edge_label'):
        had = pre.E(S, T); sp.had = had
        if op == 'add_edge':
            sp.N = lambda k: c.eq(k, S) or c.eq(k, T) or pre.N(k)
            sp.E = lambda a, b: same_edge(c, a, b, S, T) or pre.E(a, b)
            if not had: sp.count = add(sp.count, I(1))
            sp.nodes_added = [x for x in (S, T) if not pre.N(x)]
        if op == 'add_edge' or had: sp.el = (S, T, LAB)
    elif op == 'remove_edge':
        had = pre.E(S, T); sp.had = had
        if had:
            sp.E = lambda a, b: not same_edge(c, a, b, S, T) and pre.E(a, b)
            sp.count = sub(sp.count, I(1))
    elif op == 'remove_node':
        had = pre.N(ID); sp.had = had
        if had:
            sp.N = lambda k: not c.eq(k, ID) and pre.N(k)
            sp.E = lambda a, b: not c.eq(a, ID) and not c.eq(b, ID) and pre.E(a, b)
            inc = ('card', ('nbrs', ID))
            if c.directed:
                inc = add(inc, ('card', ('innbrs', ID)))
                if pre.E(ID, ID): inc = sub(inc, I(1))
            sp.count = sub(sp.count, inc)
    return sp

OPS = {'add_node': ('MutGraphTrait', [ID, LAB]), 'add_edge': ('MutGraphTrait', [S, T, LAB]),
       'remove_edge': ('MutGraphTrait', [S, T]), 'remove_node': ('MutGraphTrait', [ID]),
       'update_node_label': ('MutGraphLabelTrait', [ID, LAB]), 'update_edge_label': ('MutGraphLabelTrait', [S, T, LAB])}

def stored_label(G, c, loc, which, stored):
    """the label text a stored label id stands for, by the graph's own table"""
    s, lid = opt(c, stored)
    if not s: return NONE
    st = G.selfty(c.directed)
    f = G.fld(c, loc, 'nl' if which == 'n' else 'el')
    uid, env = G.W.method(G.F_setmap(which), 'MapTrait', 'get_item')
    pl = ('ref', loc, (('f', G.f['nl' if which == 'n' else 'el']),))
    r = c.call_uid(uid, [pl, c.norm(('idid', lid))], env)
    ok_, p = opt(c, r)
    if not ok_: return ('str', '<dangling label id>')
    return some(c.strip(p))

def old_label(G, c, which, stored):
    """text of a label of the pre-state"""
    s, lid = opt(c, stored)
    if not s: return NONE
    return some(c.norm(('sget', ('fld', ('sym', 'NL' if which == 'n' else 'EL'), 0), c.norm(('idid', lid)))))

def run_op(G, c, op, check):
    def th():
        l = G.new(c)
        sp = spec_of(G, c, op)
        tr, args = OPS[op]
        sp.result = G.call(c, tr, op, l, args)
        check(c, l, sp)
        return UNIT
    return th

def tag(op, d): return '%s<%s>' % (op, 'Directed' if d else 'Undirected')

def foreach(R, G, ops, check, ob):
    for d in (True, False):
        for op in ops:
            try: uid = G.uid_of(OPS[op][0], op, d)
            except Missing as m:
                R.bad('anchor', op, 'operation not found: %s' % m); continue
            c = G.ctx(d)
            R.run('%s:%s' % (ob, tag(op, d)), uid, c, run_op(G, c, op, check))

def upkeep(R, G, *checks):
    """giving back spare room changes nothing"""
    try: uid = G.W.inherent(G.uid, 'shrink_to_fit')
    except Missing: return
    for d in (True, False):
        c = G.ctx(d)
        def th(c=c):
            l = G.new(c); sp = Spec(Pre(G, c))
            c.call_uid(uid, [('ref', l, ())], G.env(c))
            if absent_unchanged(G, c, l, sp) and all(G.fld(c, l, k) == c.norm(('sym', v)) for k, v in (('count', 'E#'), ('nl', 'NL'), ('el', 'EL'), ('max', 'maxid'))): return UNIT
            for f in checks: f(c, l, sp)
            return UNIT
        R.run('upkeep:%s' % tag('shrink_to_fit', d), uid, c, th)

ALL = ['add_node', 'add_edge', 'remove_node', 'remove_edge', 'update_node_label', 'update_edge_label']

# ---- the individual facts about the post-state --------------------------------------------
def chk_count(G):
    def f(c, l, sp): need_eq(c, G.fld(c, l, 'count'), sp.count, 'edge-count', 'edge count after the operation')
    return f
def chk_nodes(G):
    def f(c, l, sp):
        h = G.has_node(c, l, P); w = sp.N(P)
        need(c, h == w, 'node-set', lambda: 'node %s afterwards %s' % (show(P), 'present' if h else 'missing'))
        if h: need_eq(c, G.nf(c, G.nodeval(c, l, P), 'n_id'), P, 'node-id', 'id stored in the node entry')
    return f
def chk_adj(G):
    def f(c, l, sp):
        pr, lab = G.out(c, l, P, Q); w = sp.E(P, Q)
        need(c, pr == w, 'adjacency', lambda: 'adjacency entry %s->%s %s' % (show(P), show(Q), 'present' if pr else 'missing'))
        i = G.inn(c, l, P, Q)
        if c.directed: need(c, i == w, 'in-adjacency', lambda: '%s %s the in-neighbours of %s' % (show(P), 'among' if i else 'missing from', show(Q)))
        else: need(c, not i, 'in-adjacency', lambda: 'undirected node with in-neighbours')
        if w:
            need(c, G.has_node(c, l, P) and G.has_node(c, l, Q), 'dangling', 'an edge without its endpoint nodes')
    return f
def chk_labels(G, only=None):
    def f(c, l, sp):
        if only != 'e' and G.has_node(c, l, P):
            got = stored_label(G, c, l, 'n', G.nf(c, G.nodeval(c, l, P), 'n_label'))
            if sp.nl is not None and c.eq(P, sp.nl[0]): want = sp.nl[1]
            elif any(c.eq(P, x) for x in sp.nodes_added): want = NONE
            else: want = old_label(G, c, 'n', sp.pre.nlab(P))
            need_eq(c, got, want, 'node-label', 'label of node %s' % show(P))
        if only == 'n': return
        pr, lab = G.out(c, l, P, Q)
        if pr:
            got = stored_label(G, c, l, 'e', lab)
            if sp.el is not None and same_edge(c, P, Q, sp.el[0], sp.el[1]): want = sp.el[2]
            else: want = old_label(G, c, 'e', sp.pre.elab(P, Q))
            need_eq(c, got, want, 'edge-label', 'label of edge %s->%s' % (show(P), show(Q)))
    return f
def chk_result(G):
    def f(c, l, sp, op):
        r = sp.result
        if op in ('add_node', 'add_edge'):
            need_eq(c, r, B(not sp.had), 'result', 'returned')
        elif op.startswith('update'):
            need_eq(c, r, B(sp.had), 'result', 'returned')
        else:
            ls = c.alloc(r, 'res')
            ty = G.W.adt('OwnedNodeType' if op == 'remove_node' else 'OwnedEdgeType')
            tr = 'NodeTrait' if op == 'remove_node' else 'EdgeTrait'
            st = G.W.selfof(tr, ty)
            def g(n):
                return G.W.dispatch_tr(c, tr, n, st, [('ref', ls, ())])
            need(c, c.decide(g('is_none')) == (not sp.had), 'result', lambda: 'removal reports %s' % ('nothing' if sp.had else 'an item that was not there'))
            if sp.had:
                if op == 'remove_node':
                    need_eq(c, g('get_id'), ID, 'result-id', 'id of the removed node')
                    need_eq(c, g('get_label_id'), sp.pre.nlab(ID), 'result-label', 'label of the removed node')
                else:
                    need_eq(c, g('get_start'), S, 'result-start', 'start of the removed edge')
                    need_eq(c, g('get_target'), T, 'result-target', 'target of the removed edge')
                    need_eq(c, g('get_label_id'), sp.pre.elab(S, T), 'result-label', 'label of the removed edge')
    return f
def chk_max(G):
    def f(c, l, sp):
        m = G.fld(c, l, 'max'); old = ('sym', 'maxid')
        s, p = opt(c, m); so, po = opt(c, old)
        if G.has_node(c, l, P): 
            need(c, s and not c.lt(p, P), 'bounds', lambda: 'maximum seen id does not bound node %s' % show(P))
        if so: need(c, s and not c.lt(p, po), 'never-lowered', 'maximum seen id was lowered')
        elif s: need(c, bool(sp.nodes_added), 'absent', 'a maximum id although no node was ever added')
        else: need(c, not sp.nodes_added, 'absent', 'no maximum id although a node was added')
        if s and so and sp.nodes_added == []: pass
    return f
def chk_tables(G):
    J = ('sym', 'j?')
    def f(c, l, sp):
        for role, nm, key in (('nl', 'NL', 'n'), ('el', 'EL', 'e')):
            old = ('fld', ('sym', nm), 0)
            if c.lt(J, models.slen(c, old)):
                uid, env = G.W.method(G.F_setmap(key), 'MapTrait', 'get_item')
                r = c.call_uid(uid, [('ref', l, (('f', G.f[role]),)), J], env)
                ok_, p = opt(c, r)
                need(c, ok_, 'table-entry', '%s label table lost an entry' % ('node' if key == 'n' else 'edge'))
                need_eq(c, c.strip(p), ('sget', old, J), 'table-entry', 'entry of the %s label table' % ('node' if key == 'n' else 'edge'))
    return f

def absent_unchanged(G, c, l, sp):
    """after a refused operation the graph is the very same"""
    return G.fld(c, l, 'nodes') == c.norm(('sym', 'M'))

def c01(R, G):
    foreach(R, G, ALL, chk_count(G), 'count')
    ctor_state(R, G, 'count')
    # the counter agrees with what the public counter says, and nobody else writes it
    for d in (True, False):
        c = G.ctx(d)
        uid = G.uid_of('GraphTrait', 'edge_count', d)
        def th(c=c):
            l = G.new(c)
            need_eq(c, G.call(c, 'GraphTrait', 'edge_count', l, []), ('sym', 'E#'), 'edge_count', 'edge_count()')
        R.run('reported-count<%s>' % d, uid, c, th)
    recount(R, G)
    upkeep(R, G, chk_count(G))
    writers(R, G, 'count')
    from rules import renumber
    renumber.part(R, G, ('count', 'counted edges', 'no edge added'))

def recount(R, G):
    """a method that recomputes the count counts each edge once"""
    F = G.W.F
    try: uid = G.W.inherent(G.uid, 'refine_edge_count')
    except Missing: return
    for d in (True, False):
        c = G.ctx(d)
        def th(c=c):
            l = G.new(c)
            c.call_uid(uid, [('ref', l, ())], G.env(c))
            n = G.fld(c, l, 'count')
            comp = c.norm(n)
            want_comp_count(c, comp, d)
            return UNIT
        R.run('recount<%s>' % ('Directed' if d else 'Undirected'), uid, c, th)

def want_comp_count(c, n, directed):
    """n counts each edge exactly once"""
    if contains(n, lambda t: t[0] == 'csum'):
        for loop in (False, True):
            if loop and c.choose(2, 'loop') == 0: continue
            if not loop and c.choose(2, 'no loop') == 0: continue
            a, b = (P, P) if loop else (P, Q)
            c.assume(('E',) + c.dom.pair(a, b), True)
            if not loop and c.eq(P, Q): raise Infeasible()
            w = weight(c, n, a, b, directed)
            if w is None: raise Undecided('recomputed count: %s' % show(n)[:100])
            need(c, w == 1, 'edge-once', 'the recount gives %s for %s' % (w, 'a self-loop' if loop else 'an edge between two nodes'))
            return
        raise Infeasible()
    if n[0] != 'ccount' or not all(p[0] == 'tup' and len(p[1]) == 2 for v, g, p in n[1][1]): raise Undecided('recomputed count: %s' % show(n)[:100])
    edges_once(c, n[1], directed, lambda p: None)

def weight(c, n, a, b, directed):
    """what one edge a--b adds to a sum over the whole graph; None when that cannot be read off"""
    import fractions, itertools
    n = c.norm(n)
    if n[0] == 'int': return None
    if n[0] == 'op' and n[1] in ('Div', 'Shr') and n[3][0] == 'int':
        w = weight(c, n[2], a, b, directed)
        return None if w is None else fractions.Fraction(w) / (n[3][1] if n[1] == 'Div' else 2 ** n[3][1])
    if n[0] == 'ccount': alts = [(v, g, I(1)) for v, g, p in n[1][1]]
    elif n[0] == 'csum': alts = n[1][1]
    else: return None
    total = 0
    for vs, gs, val in alts:
        val = c.norm(val)
        if val == I(1):
            es = [g[0] for g in gs if g[1] and g[0][0] == 'E']
            if len(es) != 1 or len(vs) != 2 or set(es[0][1:]) != set(vs): return None
            for x, y in {(a, b), (b, a)}:
                if directed and (x, y) != (a, b): continue
                m = {es[0][1]: x, es[0][2]: y}
                ks = [c.known(replace(at, m)) for at, v in gs]
                if any(k is None for k in ks): ks = [c.decide_guard(replace(at, m)) for at, v in gs]
                if all(k == v for k, (at, v) in zip(ks, gs)): total += 1
        elif val[0] == 'card' and val[1][0] == 'nbrs' and tuple(vs) == (val[1][1],) and [(g[0], g[1]) for g in gs] == [(('N', vs[0]), True)]:
            total += 1 if directed or a == b else 2
        else: return None
    return total

def edges_once(c, comp, directed, pairof):
    """the comprehension has exactly one element per edge (a,b): checked at a generic pair"""
    a, b = P, Q

    c.assume(('E',) + c.dom.pair(a, b), True)
    if not directed and c.lt(b, a): a, b = b, a
    hits = 0; wrong = 0
    for alt in comp[1]:
        for (x, y) in ((a, b), (b, a)):
            r = models.match_alt(c, alt, ('tup', (x, y)), lambda p: p)
            if r is not None:
                if (x, y) == (a, b) : hits += 1
                else: wrong += 1
            if a == b or c.eq(a, b): break
    if directed: need(c, hits == 1, 'edge-once', 'edge %s->%s is counted %d times' % (show(a), show(b), hits))
    else: need(c, hits + wrong == 1, 'edge-once', 'edge {%s,%s} is counted %d times' % (show(a), show(b), hits + wrong))

def ctor_state(R, G, what):
    """every constructor of the type starts from the empty graph"""
    F = G.W.F
    for u, b in sorted(F.bodies.items()):
        d = F.defs.get(u, {})
        if d.get('impl_self') != G.uid or d.get('name') not in ('new', 'with_capacity', 'with_label_map', 'default'): continue
        if d.get('trait') and d.get('name') != 'default': continue
        for di in (True, False):
            c = G.ctx(di)
            def th(c=c, u=u, b=b):
                v = c.call_uid(u, [('sym', 'a%d' % i) for i in range(b['args'])], G.env(c))
                l = 'G'; c.mem[l] = v
                need_eq(c, models.map_card(c, G.fld(c, l, 'nodes')), I(0), 'no-nodes', 'a new graph has nodes')
                need_eq(c, G.fld(c, l, 'count'), I(0), 'count-zero', 'edge count of a new graph')
                need_eq(c, G.fld(c, l, 'max'), NONE, 'max-none', 'maximum id of a new graph')
            R.run('constructor:%s<%s>' % (d['name'], di), u, c, th)

def writers(R, G, role):
    """every function that assigns the field is analysed above"""
    F = G.W.F; fi = G.f[role]
    ws = []
    for u, b in F.bodies.items():
        if field_written(F, b, G.uid, fi): ws.append(F.cn(u))
    missing = [w for w in ws if w not in R.functions]
    for w in missing: R.notes.append('%s can change the field %s of the graph outside the operations analysed for this property' % (w, role))
    R.ok('writers-of-%s' % role, ', '.join(sorted(ws)) or '-', 'who-may-write: %d functions' % len(ws))

def field_written(F, b, adt, fi):
    for blk in b['bbs']:
        if not blk: continue
        for s in blk[0]:
            if s[0] == '=' and hits_field(F, b, s[1], adt, fi): return True
        t = blk[1]
        if t[0] == 'call' and hits_field(F, b, t[3], adt, fi): return True
        for s in blk[0]:
            if s[0] == '=' and s[2][0] in ('ref', 'raw') and s[2][1] == 'mut' and hits_field(F, b, s[2][2], adt, fi): return True
    return False
def hits_field(F, b, place, adt, fi):
    t = F.ty(b['locals'][place[0]])
    for e in place[1:]:
        if e == '*':
            t = t[2] if t[0] in ('ref', 'ptr') else (t[2][0] if t[0] == 'adt' and t[2] else t)
        elif e[0] == 'f':
            if t[0] == 'adt' and t[1] == adt and e[1] == fi: return True
            t = F.ty(e[2])
    return False

def c02(R, G):
    foreach(R, G, ALL, chk_adj(G), 'mirror')
    foreach(R, G, ['add_node', 'add_edge', 'remove_node', 'remove_edge'], chk_nodes(G), 'nodes')
    ctor_state(R, G, 'nodes')
    upkeep(R, G, chk_nodes(G), chk_adj(G))
    writers(R, G, 'nodes')
    from rules import renumber
    renumber.part(R, G, ('mirrored', 'no dangling edge', 'no dangling in-edge'))

def c03(R, G):
    cr = chk_result(G)
    for op in ALL:
        foreach(R, G, [op], lambda c, l, sp, op=op: cr(c, l, sp, op), 'result')
    def only_label(c, l, sp):
        if sp.had: chk_nodes(G)(c, l, sp); chk_count(G)(c, l, sp)
    foreach(R, G, ['add_node', 'add_edge', 'update_node_label', 'update_edge_label'], only_label, 'only-label-changes')
    def frame(c, l, sp):
        chk_adj(G)(c, l, sp)
    foreach(R, G, ['add_node', 'update_node_label', 'update_edge_label', 'remove_edge', 'add_edge'], frame, 'adjacency-kept')
    foreach(R, G, ['add_node', 'add_edge', 'update_node_label', 'update_edge_label', 'remove_edge'], chk_labels(G), 'labels-kept')
    foreach(R, G, ['update_node_label', 'update_edge_label', 'remove_edge', 'remove_node', 'add_node', 'add_edge'], lambda c, l, sp: (chk_nodes(G)(c, l, sp)), 'node-set')
    def refused(c, l, sp):
        if not sp.had:
            chk_count(G)(c, l, sp); chk_adj(G)(c, l, sp)
    foreach(R, G, ['remove_node', 'remove_edge', 'update_node_label', 'update_edge_label'], refused, 'refused-changes-nothing')

def c04(R, G):
    upkeep(R, G, chk_labels(G))
    foreach(R, G, ALL, chk_labels(G), 'label')
    # look-ups by the public getters, both orders
    for d in (True, False):
        for (what, tr, nm, args) in (('edge', 'GraphLabelTrait', 'get_edge_label', [P, Q]), ('node', 'GraphLabelTrait', 'get_node_label', [P])):
            c = G.ctx(d)
            uid = G.uid_of(tr, nm, d)
            def th(c=c, what=what, nm=nm, args=args):
                l = G.new(c)
                r = G.call(c, 'GraphLabelTrait', nm, l, args)
                pre = Pre(G, c)
                if what == 'edge':
                    want = old_label(G, c, 'e', pre.elab(P, Q)) if pre.E(P, Q) else NONE
                else:
                    want = old_label(G, c, 'n', pre.nlab(P)) if pre.N(P) else NONE
                s, p = opt(c, r); w, x = opt(c, want)
                need(c, s == w, 'lookup', 'label look-up answers %s' % ('a label for an unlabelled item' if s else 'no label'))
                if s: need_eq(c, c.strip(p), x, 'lookup', 'label look-up')
            R.run('lookup-%s<%s>' % (what, 'Directed' if d else 'Undirected'), uid, c, th)
    handles_mirror(R, G)

def handles_mirror(R, G):
    """setting a label through a mutable edge handle is visible from both endpoints"""
    W = G.W
    for d in (True, False):
        c = G.ctx(d)
        uid = G.uid_of('MutGraphTrait', 'get_edge_mut', d)
        def th(c=c):
            l = G.new(c)
            pre = Pre(G, c)
            if not pre.E(S, T): return
            h = G.call(c, 'MutGraphTrait', 'get_edge_mut', l, [S, T])
            hl = c.alloc(h, 'h')
            ty = W.adt('MutEdgeType')
            W.dispatch_tr(c, 'MutEdgeTrait', 'set_label_id', W.selfof('MutEdgeTrait', ty), [('ref', hl, ()), ('sym', 'newlab')])
            a, x = G.out(c, l, S, T); b, y = G.out(c, l, T, S) if not c.directed else (a, x)
            need(c, a and b, 'present', 'edge lost')
            need_eq(c, x, ('sym', 'newlab'), 'handle-label', 'label set through the edge handle')
            if not c.directed: need_eq(c, y, ('sym', 'newlab'), 'handle-label-mirrored', 'label seen from the other endpoint')
        R.run('handle<%s>' % ('Directed' if d else 'Undirected'), uid, c, th)

def c05(R, G):
    foreach(R, G, ALL, chk_max(G), 'max')
    ctor_state(R, G, 'max')
    upkeep(R, G, chk_max(G))
    for d in (True, False):
        c = G.ctx(d)
        uid = G.uid_of('GraphTrait', 'max_seen_id', d)
        def th(c=c):
            l = G.new(c)
            need_eq(c, G.call(c, 'GraphTrait', 'max_seen_id', l, []), ('sym', 'maxid'), 'getter', 'max_seen_id()')
        R.run('reported-max<%s>' % d, uid, c, th)
    writers(R, G, 'max')
    from rules import views
    for S in views.subjects(G.W, ('mem', 'mmap')): views.max_id(R, S)
    from rules import renumber
    renumber.part(R, G, ('maximum id',))

def c06(R, G):
    foreach(R, G, ALL, chk_tables(G), 'tables-stable')
    upkeep(R, G, chk_tables(G))
    foreach(R, G, ['add_node', 'add_edge', 'update_node_label', 'update_edge_label'], chk_labels(G), 'stored-id-resolves')
    for nm, role, key in (('add_node_label', 'nl', 'n'), ('add_edge_label', 'el', 'e')):
        try: uid = G.W.inherent(G.uid, nm)
        except Missing as m: R.bad('anchor', nm, str(m)); continue
        c = G.ctx(True)
        def th(c=c, uid=uid, key=key):
            l = G.new(c)
            r = c.call_uid(uid, [('ref', l, ()), LAB], G.env(c))
            got = stored_label(G, c, l, key, r)
            need_eq(c, got, LAB, 'returned-id', 'label the returned id stands for')
            chk_tables(G)(c, l, None)
        R.run(nm, uid, c, th)
    writers(R, G, 'nl'); writers(R, G, 'el')
