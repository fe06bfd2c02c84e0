"""C12, C13, C35, C36: how static graphs come into being: their constructors, the conversion of a mutable graph, the
encoding of absent labels, and the removal of labels."""
from terms import *
from world import *
from report import *
from subjects import *
from core import Ctx, Inductive, loops_of
import core
import models
from models import opt, vlen, vget, slen, own_it
from rules.views import hits, same_label, each, subjects, subject, P, Q, label_views, lookups, handle_node, handle_edge, comp

# ---------------------------------------------------------------------------------------------- C12 / C13
K = ('sym', 'k@')
class ContigDom(GraphMapDom):
    """the mutable graph whose ids are exactly 0..n-1; with gaps: some of 0..n-1, the last one included"""
    def __init__(self, roles, directed, gaps=False):
        GraphMapDom.__init__(self, roles, directed)
        self.use_max = False; self.gaps = gaps
        self.Mk = ('sym', 'M@')          # the nodes not yet taken out of the map
    def simp(self, t, fs):
        o = t[0]
        if o == 'N' and not self.gaps: return ('lt', fs.norm(('idid', t[1])), ('sym', 'N#'))
        if o == 'lt' and (t[1][0] == 'idnew' or t[2][0] == 'idnew') and t[1][0] not in ('int', 'lin'):
            return ('lt', fs.norm(('idid', t[1])), fs.norm(('idid', t[2])))
        if o == 'in' and t[1] == self.Mk: return fs.norm(('rest', t[2]))
        if o == 'rest' and t[1] == fs.norm(('idnew', K)): return fs.norm(('N', t[1]))
        if o == 'fld' and t[1][0] == 'mval' and t[1][1] == self.Mk: return fs.norm(('fld', ('mval', self.M, t[1][2]), t[2]))
        return GraphMapDom.simp(self, t, fs)
    def lookup(self, at, fs):
        if at[0] == 'E':
            for x in at[1:]:
                if fs.lookup(('lt', fs.norm(('idid', x)), ('sym', 'N#'))) is False: return False
        return GraphMapDom.lookup(self, at, fs)
    def consequences(self, at, v, fs):
        if at[0] == 'E' and v: return [(('lt', ('idid', x), ('sym', 'N#')), True) for x in at[1:]] + (GraphMapDom.consequences(self, at, v, fs) if self.gaps else [])
        if at[0] == 'N' and v and self.gaps: return [(('lt', ('idid', at[1]), ('sym', 'N#')), True)]
        return GraphMapDom.consequences(self, at, v, fs)

def contig_max(c, a, ta):
    com = models.comp_of(c, own_it(c, a[0]), lambda x: c.strip(x))
    x = ('sym', 'x@')
    if len(com[1]) == 1 and len(com[1][0][0]) == 1:
        v = com[1][0][0][0]
        if com[1][0][2] == v and com[1][0][1] in (((('lt', ('idid', v), ('sym', 'N#')), True),), ((('N', v), True),)):
            n = ('sym', 'N#')
            if c.eq(n, I(0)): return NONE
            return some(c.norm(('idnew', sub(n, I(1)))))
    raise Undecided('maximum of %s' % show(com)[:100])

def single_rows(c, com, item):
    """payloads of a one-variable comprehension for this element"""
    out = []
    for vs, gs, p in com[1]:
        if len(vs) != 1: raise Undecided('appended items')
        m = {vs[0]: item}
        okk = True
        for a, b in gs:
            if c.decide_guard(replace(a, m)) != b: okk = False; break
        if okk: out.append(c.norm(replace(p, m)))
    return out

def into_static(R, W, only=None):
    G = GraphMap(W); F = W.F
    S = StaticSubj(W, 'mem')
    uid = W.inherent(G.uid, 'into_static')
    nb = F.adts[G.nodety[1]]['variants'][0]['f'][G.n['n_nbrs']]; ib = F.adts[G.nodety[1]]['variants'][0]['f'][G.n['n_in']]
    sortedmap = 'btree' in head_of(F.ty(nb['t'])); sortedin = 'btree' in head_of(F.ty(ib['t']))
    def want(ob): return only is None or ob in only
    for directed, gaps in ((True, False), (False, False)) + (((True, True), (False, True)) if only is None else ()):
        cfg = ('Directed' if directed else 'Undirected') + (', ids with gaps' if gaps else '')
        c = G.ctx(directed)
        c.dom = c.facts.dom = ContigDom(dict(c.dom.r), directed, gaps); c.dom.ctx = c
        c.overrides[models.ITER + 'max'] = contig_max
        c.overrides['core::iter::traits::iterator::Iterator::max'] = contig_max
        for nm in ('with_labels',):        # by its contract (C35); the arrays grow in step, which each iteration shows
            def wl(c, a, ta): return ('adt', S.ev, 0, tuple({'offsets': a[0], 'edges': a[1], 'labels': some(a[2])}[r] for r in S.evroles))
            c.overrides[F.cn(W.inherent(S.ev, nm))] = wl
        st = {}
        def havoc(c, l, p, init, n):
            if init == ('sym', 'M'): return ('sym', 'M@')
            if init[0] == 'idnew': return ('idnew', K)
            if init[0] in ('arr', 'vpush', 'vext'): return ('sym', 'vec@%s' % '_'.join([str(l)] + ['.'.join(map(str, x)) for x in p]))
            if init[0] == 'int': return ('sym', 'cnt@%s' % '_'.join([str(l)] + ['.'.join(map(str, x)) for x in p]))
            raise Undecided('loop state %s' % show(init)[:60])
        def inv(c, hv, init):
            if any(h == ('idnew', K) for h in hv.values()): c.assume(('lt', ('sym', 'N#'), K), False)
        def hook(fr, bb, outer):
            if fr.uid != uid or outer is not None or any(bb in b and h != bb for h, b in fr.loops.items()): return None
            # only the loop that walks the ids by hand; loops over iterators are summarised
            if has_call(F, fr, bb, 'increment') or True:
                L = Inductive(fr, bb, outer, havoc, inv); st['L'] = L; return L
        c.loophook = hook
        def th(c=c, cfg=cfg, directed=directed, st=st, gaps=gaps):
            l = G.new(c)
            st.pop('L', None)
            r = c.call_uid(uid, [c.read((l, ()))], G.env(c))
            if r[0] != 'adt' or r[1] != S.uid: raise Undecided('result of into_static')
            fld = lambda k: c.norm(r[3][S.f[k]])
            ev = S.roles(c, fld('out'))
            inn = None
            s, x = opt(c, fld('in'))
            if directed:
                need(c, s, 'in-edges', 'a directed graph is converted without its in-edges')
                inn = S.roles(c, x)
            L = st.get('L')
            if L is None: raise Undecided('the loop of into_static')
            hv = {v: k for k, v in L.havoc.items()}
            if not L.backs:
                if want('rows'):
                    need(c, c.eq(('sym', 'N#'), I(0)), 'rows', 'no node of a non-empty graph is converted')
                    need(c, c.eq(vlen(c, ev['edges']), I(0)), 'rows', 'edges in an empty graph')
                return UNIT
            side = c.choose(1 + len(L.backs))
            labs_e = opt(c, ev['labels']); labs_n = opt(c, fld('labels'))
            n = ('sym', 'N#')
            if side == 0:
                if want('counts') and not gaps:
                    need_eq(c, fld('n'), n, 'counts', 'node count of the static graph')
                    need_eq(c, fld('m'), ('sym', 'E#'), 'counts', 'edge count of the static graph')
                if want('tables'):
                    need_eq(c, fld('nl'), ('sym', 'NL'), 'tables', 'node label table'); need_eq(c, fld('el'), ('sym', 'EL'), 'tables', 'edge label table')
                if want('rows'):
                    if ('idnew', K) not in hv: raise Undecided('the id the loop walks')
                    need_eq(c, L.init[hv[('idnew', K)]], ('idnew', I(0)), 'rows', 'first id converted')
                    need(c, not c.lt(K, n), 'rows', 'the conversion stops before the last node')
                for ob, arr, zero in (('out', ev, True), ('in', inn, True)):
                    if arr is None: continue
                    for role in ('offsets', 'edges'):
                        k = hv.get(arr[role])
                        if k is None and want('rows') and not contains(arr[role], lambda t: t[0] not in ('arr', 'vpush', 'int')):
                            raise Fail('rows', 'the %s of the %s-edges are the same for every graph: %s' % (role, ob, show(arr[role])[:60]))
                        if k is None: raise Undecided('%s array of the result: %s' % (role, show(arr[role])[:60]))
                        i0 = L.init[k]
                        if want('rows'):
                            if role == 'offsets': need(c, c.eq(vlen(c, i0), I(1)) and c.eq(vget(c, i0, I(0)), I(0)), 'rows', 'offsets do not start with 0')
                            else: need(c, c.eq(vlen(c, i0), I(0)), 'rows', 'edges do not start empty')
                if want('labels-kept'):
                    if not labs_e[0]:
                        if c.decide(c.norm(('E',) + c.dom.pair(P, Q))): need(c, not opt(c, c.norm(('elab',) + c.dom.pair(P, Q)))[0], 'labels-kept', 'edge labels are dropped')
                    if not labs_n[0]:
                        if c.decide(c.norm(('N', P))): need(c, not opt(c, c.norm(('nlab', P)))[0], 'labels-kept', 'node labels are dropped')
                for lb in (labs_e, labs_n):
                    if lb[0]:
                        k = hv.get(c.norm(lb[1]))
                        if k is None: raise Undecided('label array of the result')
                        if want('rows'): need(c, c.eq(vlen(c, L.init[k]), I(0)), 'rows', 'labels do not start empty')
                return UNIT
            # one generic iteration
            at = lambda s_, k: L.at(s_[0], k)
            s_ = L.backs[side - 1][1]
            c.restore(s_)
            kk = {}
            for nm, v in (('off', ev['offsets']), ('edg', ev['edges']), ('elab', labs_e[1] if labs_e[0] else None), ('nlab', labs_n[1] if labs_n[0] else None),
                          ('ioff', inn['offsets'] if inn else None), ('iedg', inn['edges'] if inn else None)):
                if v is None: continue
                k = hv.get(c.norm(v))
                if k is None: raise Undecided('array %s of the result' % nm)
                kk[nm] = (k, c.norm(v), at(s_, k))
            ints = [(k, v, at(s_, k)) for k, v in L.havoc.items() if v[0] == 'sym' and v[1].startswith('cnt@')]
            idk = hv.get(('idnew', K))
            if idk is None: raise Undecided('the id the loop walks')
            nxt_id = at(s_, idk); init = L.init
            k_id = ('idnew', K)
            if gaps: c.decide(c.norm(('N', k_id)))
            need(c, c.lt(K, n), 'rows', 'the conversion runs past the last node')
            if want('rows'): need_eq(c, nxt_id, ('idnew', add(K, I(1))), 'rows', 'next id converted')
            def added(nm):
                k, h, now = kk[nm]
                items = []; x = now
                while x != h:
                    if x[0] == 'vext': items.append(('*', x[2], x[3] if len(x) > 3 else '?')); x = c.norm(x[1])
                    elif x[0] == 'vpush': items.append(('1', c.norm(x[2]))); x = c.norm(x[1])
                    else: raise Undecided('how %s grows: %s' % (nm, show(x)[:60]))
                items.reverse(); return items
            for off, edg, rel, srt in (('off', 'edg', 'nbrs', sortedmap), ('ioff', 'iedg', 'innbrs', sortedin)):
                if off not in kk: continue
                what = 'neighbours' if rel == 'nbrs' else 'in-neighbours'
                it = added(edg)
                E = ('E',) + c.dom.pair(k_id, Q) if rel == 'nbrs' else ('E',) + c.dom.pair(Q, k_id)
                E = c.norm(E)
                if want('rows'):
                    if len(it) == 0:
                        need(c, not c.decide(E), 'rows', 'the %s of a node are not converted' % what)
                        d = I(0)
                    else:
                        if len(it) != 1 or it[0][0] != '*': raise Undecided('how the rows grow')
                        rows = single_rows(c, it[0][1], Q)
                        e = c.decide(E)
                        need(c, len(rows) == (1 if e else 0), 'rows', lambda: 'the row of a node lists %s %d times, but the edge is %s the graph' % (show(Q), len(rows), 'in' if e else 'not in'))
                        if rows: need_eq(c, rows[0], Q, 'rows', 'neighbour listed in the row')
                        o = it[0][2]
                        if o == '?' : raise Undecided('order of a row')
                        need(c, o == 'sorted' or o == 'seq' and srt, 'rows', 'rows are not in ascending order')
                        d = c.norm(('card', (rel, k_id)))
                    oit = added(off)
                    need(c, len(oit) == 1 and oit[0][0] == '1', 'rows', 'not exactly one offset per node')
                    x = oit[0][1]
                    good = None
                    for k2, h, now in ints:
                        if contains(x, lambda t: t == h):
                            good = True
                            need_eq(c, init[k2], I(0), 'rows', 'first offset')
                            need_eq(c, now, x, 'rows', 'running offset')
                            need_eq(c, sub(x, h), d, 'rows', 'length of the row by its offsets')
                    if contains(x, lambda t: t == ('len', kk[edg][1])):
                        good = True
                        need_eq(c, sub(x, ('len', kk[edg][1])), d, 'rows', 'length of the row by its offsets')
                    if good is None: raise Undecided('how offsets are computed: %s' % show(x)[:80])
                if rel == 'nbrs' and 'elab' in kk:
                    li = added('elab')
                    if len(li) == 0:
                        if want('labels'): need(c, not c.decide(E), 'labels', 'edge labels are not converted')
                    else:
                        if len(li) != 1 or li[0][0] != '*': raise Undecided('how the edge labels grow')
                        rows = single_rows(c, li[0][1], Q)
                        e = c.decide(E)
                        if want('labels'):
                            need(c, len(rows) == (1 if e else 0), 'labels', lambda: 'an edge in the graph gets %d entries in the label array' % len(rows) if e else 'a label without an edge')
                            need(c, it and li[0][2] == it[0][2], 'labels', 'edge labels are not in the order of the edges')
                        if rows and e: encoded(c, want, rows[0], c.norm(('elab',) + E[1:]), 'edge')
            if 'nlab' in kk:
                li = added('nlab')
                if want('labels'): need(c, len(li) == 1 and li[0][0] == '1', 'labels', 'not exactly one label entry per node')
                if len(li) == 1 and li[0][0] == '1': encoded(c, want, li[0][1], c.norm(('nlab', k_id)) if not gaps or c.decide(c.norm(('N', k_id))) else NONE, 'node')
            return UNIT
        R.run('into_static<%s>' % cfg, uid, c, th)

def encoded(c, want, got, lab, what):
    s, x = opt(c, lab)
    m = c.norm(max_id(c))
    if s:
        if want('labels'): need_eq(c, got, x, 'labels', 'label id stored for a labelled %s' % what)
    elif want('sentinel'):
        need(c, c.norm(got) == m, 'sentinel', lambda: 'an absent %s label is stored as %s instead of the reserved value' % (what, show(got)[:60]))

def has_call(F, fr, H, name):
    for bb in fr.loops[H]:
        t = fr.b['bbs'][bb][1]
        if t[0] == 'call' and t[1][0] == 'k' and F.ty(t[1][1]['t'])[0] == 'fndef' and F.ty(t[1][1]['t'])[1].endswith('::' + name): return True
    return False

def c12(R, W):
    """one iteration of the conversion loop from an arbitrary state, with rows, labels and offsets growing in step; then the exit state"""
    into_static(R, W)

def c13(R, W):
    """the writer stores the reserved value exactly for absent labels; the constructors of handles and the readers decode exactly it"""
    into_static(R, W, only={'sentinel', 'labels'})
    F = W.F
    for adt, tr in (('StaticNode', 'NodeTrait'), ('Edge', 'EdgeTrait')):
        uid = W.inherent(W.adt(adt), 'new_static')
        S0 = StaticSubj(W, 'mem')
        c = S0.ctx(('Directed', True, None))
        def th(c=c, uid=uid, adt=adt, tr=tr):
            n = F.bodies[uid]['args']; lab = ('sym', 'lab')
            v = c.call_uid(uid, [('sym', 'i%d' % i) for i in range(n - 1)] + [lab], {})
            got = S0.handle(c, tr, 'get_label_id', v)
            same_label(c, S0, 'n', got, S0.decode(c, lab), 'decode', '%s::new_static' % adt)
        R.run('decode[%s]' % adt, uid, c, th)
    for S in subjects(W, ('mem', 'mmap')):
        def gn(c, l, S=S):
            N = S.N(c, P)
            h = S.call(c, 'GraphTrait', 'get_node', l, [P])
            if N: handle_node(c, S, h, N, P, lambda: S.nlab(c, P), 'get_node()')
        def ge(c, l, S=S):
            E = S.E(c, P, Q)
            h = S.call(c, 'GraphTrait', 'get_edge', l, [P, Q])
            if E: handle_edge(c, S, h, E, P, Q, lambda: S.elab(c, P, Q), 'get_edge()')
        each(R, S, 'GraphTrait', 'get_node', 'read-node', gn)
        each(R, S, 'GraphTrait', 'get_edge', 'read-edge', ge)
        label_views(R, S)

# ---------------------------------------------------------------------------------------------- C35
def c35(R, W):
    """symbolic parts through each constructor; the parts are read back by the getters"""
    F = W.F
    S = StaticSubj(W, 'mem')
    EV = S.ev
    ei = {r: i for i, r in enumerate(S.evroles)}
    def mk(directed):
        c = S.ctx(('x', directed, None)); return c
    # edge arrays
    for name in ('new', 'with_labels', 'from_raw'):
        uid = W.inherent(EV, name); c = mk(True)
        def th(c=c, uid=uid, name=name):
            o, e, la = ('sym', 'a_off'), ('sym', 'a_edg'), ('sym', 'a_lab')
            args = [o, e] + ([la] if name != 'new' else [])
            labs = None
            if name == 'from_raw': labs = opt(c, la)
            elif name == 'with_labels': labs = (True, la)
            else: labs = (False, None)
            try: v = c.call_uid(uid, args, {})
            except Panic:
                need(c, labs[0] and not c.eq(c.norm(('len', e)), c.norm(('len', labs[1]))), 'refuses', 'panics for consistent arrays')
                return UNIT
            if labs[0]: need(c, c.eq(c.norm(('len', e)), c.norm(('len', labs[1]))), 'refuses', 'accepts an edge array whose label array has another length')
            v = c.norm(v)
            if v[0] != 'adt': raise Undecided('edge array value')
            need_eq(c, v[3][ei['offsets']], o, 'parts', 'offsets'); need_eq(c, v[3][ei['edges']], e, 'parts', 'edges')
            s, x = opt(c, v[3][ei['labels']])
            need(c, s == labs[0], 'parts', 'labels %s' % ('lost' if labs[0] else 'invented'))
            if s: need_eq(c, x, labs[1], 'parts', 'labels')
        R.run('edge-array[%s]' % name, uid, c, th)
    # graphs
    gf = {'edge_vec': 'out', 'in_edge_vec': 'in', 'labels': 'labels', 'node_label_map': 'nl', 'edge_label_map': 'el'}
    for name, params in (('new', ('out', 'in', 'n', 'm')), ('with_labels', ('out', 'in', 'labels', 'nl', 'el', 'n', 'm')), ('from_raw', ('n', 'm', 'out', 'in', 'labels', 'nl', 'el'))):
        uid = W.inherent(S.uid, name)
        if F.bodies[uid]['args'] != len(params): R.und('signature', R.cn(uid), 'constructor takes %d values' % F.bodies[uid]['args']); continue
        for directed in (True, False):
            c = mk(directed)
            def th(c=c, uid=uid, name=name, params=params, directed=directed):
                V = {p: ('sym', 'a_' + p) for p in params}
                ev = ('adt', EV, 0, tuple({'offsets': ('sym', 'a_off'), 'edges': ('sym', 'a_edg'), 'labels': ('sym', 'a_elab')}[r] for r in S.evroles))
                V['out'] = ev
                ii = opt(c, V['in'])[0]
                iv = ('adt', EV, 0, tuple({'offsets': ('sym', 'i_off'), 'edges': ('sym', 'i_edg'), 'labels': ('sym', 'i_lab')}[r] for r in S.evroles))
                V['in'] = some(iv) if ii else NONE
                env = {S.gparam: W.Directed if directed else W.Undirected}
                try: v = c.call_uid(uid, [V[p] for p in params], env)
                except Panic as p:
                    if directed and not ii: return UNIT
                    raise
                need(c, not (directed and not ii), 'refuses', 'accepts a directed graph without in-edges')
                v = c.norm(v)
                if v[0] != 'adt': raise Undecided('graph value')
                L = c.alloc(v, 'g'); c.dynty[(L, ())] = S.selfty(directed)
                def get(nm):
                    u = W.inherent(S.uid, nm)
                    return c.strip(c.call_uid(u, [('ref', L, ())], env))
                need_eq(c, get('get_edge_vec'), ev, 'parts', 'out-edges')
                need_eq(c, get('get_in_edge_vec'), V['in'], 'parts', 'in-edges')
                if 'labels' in V:
                    need_eq(c, get('get_labels'), V['labels'] if name == 'from_raw' else some(V['labels']), 'parts', 'node labels')
                    need_eq(c, get('get_node_label_map'), V['nl'], 'parts', 'node label table'); need_eq(c, get('get_edge_label_map'), V['el'], 'parts', 'edge label table')
                else:
                    need_eq(c, get('get_labels'), NONE, 'parts', 'node labels')
                    for nm in ('get_node_label_map', 'get_edge_label_map'): need_eq(c, slen(c, c.proj(get(nm), ('f', 0))), I(0), 'parts', 'size of an empty label table')
                nc = S.call(c, 'GraphTrait', 'node_count', L, []); mc = S.call(c, 'GraphTrait', 'edge_count', L, [])
                if name == 'from_raw':
                    need_eq(c, nc, V['n'], 'counts', 'node count'); need_eq(c, mc, V['m'], 'counts', 'edge count')
                    return UNIT
                s, x = opt(c, V['n'])
                if s: need_eq(c, nc, x, 'counts', 'given node count')
                else:
                    lo = c.norm(('len', ('sym', 'a_off')))
                    need_eq(c, nc, I(0) if c.eq(lo, I(0)) else sub(lo, I(1)), 'counts', 'implied node count')
                s, x = opt(c, V['m'])
                le = c.norm(('len', ('sym', 'a_edg')))
                if s: need_eq(c, mc, x, 'counts', 'given edge count')
                elif directed: need_eq(c, mc, le, 'counts', 'implied edge count')
                else:
                    # every edge is stored once at either end, but a self-loop only once
                    mc = c.norm(mc)
                    if mc == c.norm(('op', 'Div', le, I(2))): raise Fail('self-loops', 'the implied edge count of an undirected graph is half the array length, which counts a self-loop only half')
                    if not contains(replace(mc, {le: I(7)}), lambda t: t[0] not in ('int', 'op', 'lin')): raise Fail('counts', 'the implied edge count of an undirected graph is %s, which is neither the number of edges nor half the array length' % show(mc)[:80])
                    raise Undecided('implied edge count %s' % show(mc)[:80])
            R.run('construct[%s]<%s>' % (name, 'Directed' if directed else 'Undirected'), uid, c, th)

    # the parts that are handed out for changing are the graph's own
    for rd, wr in (('get_edge_vec', 'get_edge_vec_mut'), ('get_in_edge_vec', 'get_in_edge_vec_mut'), ('get_labels', 'get_labels_mut'),
                   ('get_node_label_map', 'get_node_label_map_mut'), ('get_edge_label_map', 'get_edge_label_map_mut')):
        try: uw, ur = W.inherent(S.uid, wr), W.inherent(S.uid, rd)
        except Missing: continue
        c = mk(True)
        def th(c=c, uw=uw, ur=ur, rd=rd):
            v0 = ('adt', S.uid, 0, tuple(('sym', 'part%d' % i) for i in range(len(S.adt['variants'][0]['f']))))
            L = c.alloc(v0, 'g'); c.dynty[(L, ())] = S.selfty(True); env = {S.gparam: W.Directed}
            r = c.norm(c.call_uid(uw, [('ref', L, ())], env))
            need(c, c.norm(c.read((L, ()))) == c.norm(v0), 'handed-out', 'asking for a part changes the graph')
            was = c.strip(c.call_uid(ur, [('ref', L, ())], env))
            need_eq(c, c.strip(r), was, 'handed-out', 'the part handed out for changing')
            c.write(c.derefpl(r), ('sym', 'changed'))
            need_eq(c, c.strip(c.call_uid(ur, [('ref', L, ())], env)), ('sym', 'changed'), 'handed-out', 'the part after changing it')
            return UNIT
        R.run('part[%s]' % wr, uw, c, th)
    try: uc = W.inherent(EV, 'clear')
    except Missing: uc = None
    if uc:
        c = mk(True)
        def th():
            la = some(('sym', 'a_lv')) if c.choose(2, 'labels') == 0 else NONE
            ev = ('adt', EV, 0, tuple({'offsets': ('sym', 'a_off'), 'edges': ('sym', 'a_edg'), 'labels': la}[r] for r in S.evroles))
            L = c.alloc(ev, 'ev')
            c.call_uid(uc, [('ref', L, ())], {})
            v = c.norm(c.read((L, ())))
            for r in ('offsets', 'edges'): need_eq(c, vlen(c, c.norm(c.proj(v, ('f', ei[r])))), I(0), 'cleared', 'length of the %s after clearing' % r)
            s, x = opt(c, c.proj(v, ('f', ei['labels'])))
            if s: need_eq(c, vlen(c, x), I(0), 'cleared', 'number of labels after clearing')
            return UNIT
        R.run('edge-array[clear]', uc, c, th)

# ---------------------------------------------------------------------------------------------- C36
def c36(R, W):
    """symbolic static graph, before and after: labels of the removed kind read as absent, everything else is the same value"""
    F = W.F
    S = StaticSubj(W, 'mem')
    for op, gone in (('remove_node_labels', 'n'), ('remove_edge_labels', 'e'), ('remove_labels', 'ne'), ('shrink_to_fit', '')):
        for cfg in S.configs():
            uid = W.inherent(S.uid, op)
            c = S.ctx(cfg); S.use_edge_contract(c)
            def th(c=c, uid=uid, op=op, gone=gone):
                l = S.new(c)
                v0 = c.norm(c.read((l, ())))
                env = {S.gparam: W.Directed if c.directed else W.Undirected}
                en = S.E(c, P, Q); nn = S.N(c, P)
                wn = S.nlab(c, P) if nn and 'n' not in gone else NONE
                we = S.elab(c, P, Q) if en and 'e' not in gone else NONE
                c.call_uid(uid, [('ref', l, ())], env)
                v1 = c.norm(c.read((l, ())))
                f = lambda v, k: c.norm(v[3][S.f[k]])
                for k in ('n', 'm'): need_eq(c, f(v1, k), f(v0, k), 'counts', 'counts after %s' % op)
                r0, r1 = S.roles(c, f(v0, 'out')), S.roles(c, f(v1, 'out'))
                for k in ('offsets', 'edges'): need_eq(c, r1[k], r0[k], 'topology', 'out-edge %s after %s' % (k, op))
                s0, x0 = opt(c, f(v0, 'in')); s1, x1 = opt(c, f(v1, 'in'))
                need(c, s0 == s1, 'topology', 'in-edges appear or vanish in %s' % op)
                if s0:
                    q0, q1 = S.roles(c, x0), S.roles(c, x1)
                    for k in ('offsets', 'edges'): need_eq(c, q1[k], q0[k], 'topology', 'in-edge %s after %s' % (k, op))
                for k, tab in (('n', 'nl'), ('e', 'el')):
                    if k in gone: need_eq(c, slen(c, c.proj(f(v1, tab), ('f', 0))), I(0), 'table', 'size of the label table after %s' % op)
                    else: need_eq(c, f(v1, tab), f(v0, tab), 'table', 'label table of the other kind after %s' % op)
                # labels as readers see them
                if nn:
                    h = S.call(c, 'GraphTrait', 'get_node', l, [P])
                    same_label(c, S, 'n', S.handle(c, 'NodeTrait', 'get_label_id', h), wn, 'labels', 'node label after %s' % op)
                if en:
                    h = S.call(c, 'GraphTrait', 'get_edge', l, [P, Q])
                    same_label(c, S, 'e', S.handle(c, 'EdgeTrait', 'get_label_id', h), we, 'labels', 'edge label after %s' % op)
                if s0 and 'e' in gone:
                    il = opt(c, S.roles(c, opt(c, f(v1, 'in'))[1])['labels'])
                    need(c, not il[0] or c.eq(vlen(c, il[1]), I(0)), 'labels', 'labels of in-edges survive %s' % op)
                if 'n' in gone:
                    com = comp(c, S.call(c, 'GraphTrait', 'nodes', l, []), lambda x: ('tup', (c.strip(S.handle(c, 'NodeTrait', 'get_id', x)), c.strip(S.handle(c, 'NodeTrait', 'get_label_id', x)))))
                    for x in hits(c, com, P, lambda p: p[1][0]): same_label(c, S, 'n', x[1][1], NONE, 'labels', 'nodes() after %s' % op)
            R.run('%s<%s>' % (op, cfg[0]), uid, c, th)
