"""C14: renumbering, on an arbitrary well-formed graph and arbitrary numberings."""
from terms import *
from world import *
from report import *
import models
from models import opt, map_has, map_val, vlen, vget
from core import Inductive
from rules.ids import id_ctx
from rules.labelmap import Dom as MapDom

P, Q = ('sym', 'p?'), ('sym', 'q?')
WHAT = {'n': 'node ids', 'nl': 'node labels', 'el': 'edge labels'}

def bij(c, a):
    v = c.norm(a)
    for _ in range(6):
        if v[0] == 'obj': return v[2] if v[1] == 'bij' else None
        if v[0] in ('ref', 'rv'): v = c.norm(c.read(c.derefpl(v))); continue
        return None

def ctx(G, d):
    W = G.W
    c = G.ctx(d)
    mt = W.trait('MapTrait')
    c.models[('skipw',)] = 'dropped'
    c.models[('isize', 'times')] = True
    def find(cc, a, ta):
        k = bij(cc, a[0])
        if k is None: return NotImplemented
        return some(cc.norm(('bpos', k, cc.strip(a[1]))))
    c.overrides[mt + '::find_index'] = find
    def biggest(cc, a, ta):
        """maximum of a computed collection: absent only when no element is known"""
        comp = unref(models.comp_of(cc, models.own_it(cc, a[0])))
        if not comp[1]: return NONE
        if cc.choose(2, 'max') == 0:
            alt = comp[1][cc.choose(len(comp[1]), 'alt')]
            models.assume_guards(cc, alt[1], models.inst(cc, alt))
            return some(('rv', ('maxof', comp)))
        for x in [P]:
            if cc.known(('N', x)) is True:
                for y in {('idnew', ('bpos', 'n', x)) if a_[2][0] == 'idnew' else x for a_ in comp[1]}:
                    if models.comp_find(cc, comp, y, lambda p: p) is not None: raise Infeasible()
        return NONE
    c.overrides[models.ITER + 'max'] = biggest
    return c

def new(c, on, x): return c.norm(('idnew', ('bpos', 'n', x))) if on['n'] else x
def newlab(c, on, k, l):
    s, p = opt(c, l)
    if not s: return NONE
    return some(c.norm(('idnew', ('bpos', k, p))) if on[k] else p)

def c14(R, G):
    W, F = G.W, G.W.F
    with_ = W.inherent(G.uid, 'reorder_id_with')
    relabel = W.function('reorder_label_map')
    for d in (True, False):
        for mask in range(8):
            on = {'n': bool(mask & 1), 'nl': bool(mask & 2), 'el': bool(mask & 4)}
            tag = '<%s; %s>' % ('Directed' if d else 'Undirected', ', '.join(WHAT[k] for k in ('n', 'nl', 'el') if on[k]) or 'nothing')
            renum(R, G, d, on, tag, with_, relabel)

        numbering(R, G, d, W.inherent(G.uid, 'reorder_id'), with_)
    result(R, G)
    relabeling(R, G, relabel)

def part(R, G, parts):
    """the obligations of the renumbered graph that other properties of a mutable graph include"""
    W = G.W
    try: with_ = W.inherent(G.uid, 'reorder_id_with'); relabel = W.function('reorder_label_map')
    except Missing: return
    for d in (True, False):
        for on in ({'n': True, 'nl': False, 'el': False}, {'n': False, 'nl': False, 'el': True}, {'n': False, 'nl': False, 'el': False}):
            tag = '<%s; %s>' % ('Directed' if d else 'Undirected', ', '.join(WHAT[k] for k in ('n', 'nl', 'el') if on[k]) or 'nothing')
            renum(R, G, d, on, tag, with_, relabel, parts)

def unref(comp): return ('comp', tuple((vs, gs, p[1] if p[0] == 'rv' else p) for vs, gs, p in comp[1]))

ALLPARTS = ('nodes', 'edges', 'count and tables', 'no node added', 'no edge added', 'no in-edge added', 'maximum id')

def renum(R, G, d, on, tag, uid, relabel, parts=None):
    W, F = G.W, G.W.F
    def start(c):
        c.overrides[F.cn(relabel)] = lambda cc, a, ta: ('relabeled', bij(cc, a[0]), cc.norm(cc.strip(a[1])))
        l = G.new(c)
        args = [('ref', c.alloc(some(('obj', 'bij', k)) if on[k] else NONE, 'map'), ()) for k in ('n', 'nl', 'el')]
        r = c.call_uid(uid, [c.read((l, ()))] + args, G.env(c))
        o = c.alloc(r, 'res'); c.dynty[(o, ())] = G.selfty(d)
        return l, o
    def go(ob, body):
        if ob not in (parts or ALLPARTS): return
        c = ctx(G, d)
        R.run(('renumbered graph: ' if parts else '') + ob + tag, uid, c, lambda: body(c) or UNIT)
    def nodes(c):
        c.assume(('N', P), True)
        l, o = start(c)
        nv = G.nodeval(c, o, new(c, on, P))
        need(c, nv is not None, 'nodes', 'a node is missing under its new id')
        need_eq(c, G.nf(c, nv, 'n_id'), new(c, on, P), 'nodes', 'id stored with the node')
        need_eq(c, G.nf(c, nv, 'n_label'), newlab(c, on, 'nl', c.norm(('nlab', P))), 'node-labels', 'label of the node')
    go('nodes', nodes)
    def edges(c):
        c.assume(('N', P), True); c.assume(('N', Q), True)
        l, o = start(c)
        p, q = new(c, on, P), new(c, on, Q)
        e = c.decide(('E',) + c.dom.pair(P, Q))
        there, lab = G.out(c, o, p, q)
        need(c, there == e, 'edges', 'an edge %s' % ('is missing between the new ids' if e else 'was added'))
        if e: need_eq(c, lab, newlab(c, on, 'el', c.norm(('elab',) + c.dom.pair(P, Q))), 'edge-labels', 'label of the edge')
        need(c, G.inn(c, o, p, q) == (e and d), 'in-edges', 'an in-edge %s' % ('is missing between the new ids' if e and d else 'was added'))
    go('edges', edges)
    def shape(c):
        c.assume(('N', P), True); c.assume(('N', Q), True)
        l, o = start(c)
        e = c.decide(('E',) + c.dom.pair(P, Q))
        there, lab = G.out(c, o, new(c, on, P), new(c, on, Q))
        need(c, there == e, 'edges', 'an edge %s while the edge count is the one of the original graph' % ('is missing' if e else 'was added'))
    go('counted edges', shape)
    def mirror(c):
        c.assume(('N', P), True); c.assume(('N', Q), True)
        l, o = start(c)
        p, q = new(c, on, P), new(c, on, Q)
        there, lab = G.out(c, o, p, q)
        if d: need(c, G.inn(c, o, p, q) == there, 'mirrored', 'an edge is %slisted among the out-neighbors of its source, but %samong the in-neighbors of its target' % (('', 'not ') if there else ('not ', '')))
        else:
            need(c, G.out(c, o, q, p)[0] == there, 'mirrored', 'an edge is listed by one endpoint only')
            need(c, not G.inn(c, o, p, q), 'mirrored', 'a node of an undirected graph lists an in-neighbor')
    go('mirrored', mirror)
    def cnt(c):
        l, o = start(c)
        need_eq(c, G.fld(c, o, 'count'), ('sym', 'E#'), 'edge-count', 'edge count of the result')
    go('count', cnt)
    def rest(c):
        l, o = start(c)
        need_eq(c, G.fld(c, o, 'count'), ('sym', 'E#'), 'edge-count', 'edge count of the result')
        for k, n in (('nl', 'NL'), ('el', 'EL')):
            want = ('relabeled', k, ('sym', n)) if on[k] else ('sym', n)
            got = c.deep(G.fld(c, o, k))
            if got != want:
                if got[0] == 'sym' or got[0] == 'relabeled': raise Fail('label-tables', '%s of the result: %s' % ('node label table' if k == 'nl' else 'edge label table', show(got)))
                raise Undecided('label table of the result')
    go('count and tables', rest)
    def orig(c, k):
        """the original id behind a key of the result"""
        k = c.norm(k)
        if not on['n']: return k
        if k[0] == 'idnew' and c.norm(k[1])[0] == 'bpos' and c.norm(k[1])[1] == 'n': return c.norm(c.norm(k[1])[2])
        if k[0] == 'idnew' or k[0] == 'sym': raise Fail('nodes', 'a node of the result has the id %s, not the new id of a node' % show(k)[:60])
        raise Undecided('key of the result')
    def elem(c, m):
        it, _ = models.nxt(c, models.base('map', (m, None, 'ok', None)))
        if it is None: raise Infeasible()
        return it
    def added(c):
        l, o = start(c)
        x = orig(c, elem(c, G.fld(c, o, 'nodes')))
        need(c, c.decide(('N', x)), 'nodes', 'a node that is not in the original graph was added')
    go('no node added', added)
    def addede(c):
        c.assume(('N', P), True)
        l, o = start(c)
        nv = G.nodeval(c, o, new(c, on, P))
        need(c, nv is not None, 'nodes', 'a node is missing under its new id')
        x = orig(c, elem(c, G.nf(c, nv, 'n_nbrs')))
        need(c, c.decide(('E',) + c.dom.pair(P, x)), 'edges', 'an edge that is not in the original graph was added')
    go('no edge added', addede)
    def addedi(c):
        c.assume(('N', P), True)
        l, o = start(c)
        nv = G.nodeval(c, o, new(c, on, P))
        need(c, nv is not None, 'nodes', 'a node is missing under its new id')
        x = orig(c, elem(c, G.nf(c, nv, 'n_in')))
        need(c, d and c.decide(('E',) + c.dom.pair(x, P)), 'in-edges', 'an in-edge that is not in the original graph was added')
    go('no in-edge added', addedi)
    def dangling(fld):
        def th(c):
            c.assume(('N', P), True)
            l, o = start(c)
            nv = G.nodeval(c, o, new(c, on, P))
            if nv is None: raise Infeasible()
            x = orig(c, elem(c, G.nf(c, nv, fld)))
            need(c, c.decide(('N', x)), 'dangling', 'a node lists a neighbor that is no node of the graph')
        return th
    go('no dangling edge', dangling('n_nbrs'))
    go('no dangling in-edge', dangling('n_in'))
    def maxid(c):
        c.assume(('N', P), True)
        l, o = start(c)
        m = c.deep(G.fld(c, o, 'max'))
        if m == ('sym', 'maxid'):
            need(c, not any(on.values()) or not on['n'], 'max-id', 'the maximum id is the one of the old numbering')
            return
        some_, v = opt(c, m)
        need(c, some_, 'max-id', 'no maximum id although there is a node')
        v = c.norm(v)
        while v[0] in ('deref', 'rv'): v = c.norm(v[1])
        if v[0] in ('sym', 'idnew', 'maxid', 'idmax'): raise Fail('max-id', 'maximum id is %s' % show(v)[:80])
        if v[0] == 'vf' and v[1][0] == 'aggmin': raise Fail('max-id', 'the smallest id is stored as the maximum id')
        if v[0] != 'maxof': raise Undecided('maximum id')
        comp = v[1]
        need(c, models.comp_find(c, comp, new(c, on, P), lambda p: p) is not None, 'max-id', 'the maximum leaves out a node')
        alt = comp[1][c.choose(len(comp[1]), 'alt')]
        mm = models.inst(c, alt); models.assume_guards(c, alt[1], mm)
        x = orig(c, replace(alt[2], mm))
        need(c, c.decide(('N', x)), 'max-id', 'the maximum is taken over ids that are no node of the result')
    go('maximum id', maxid)

def numbering(R, G, d, uid, with_):
    """reorder_id: the numberings it makes cover the nodes and the labels in use, and the one it publishes is the one it applied"""
    W, F = G.W, G.W.F
    sm = W.adt('SetMap')
    for mask in range(8):
        flags = tuple(bool(mask & k) for k in (1, 2, 4))
        c = ctx(G, d)
        def items(c, m, what, flag):
            s, x = opt(c, m)
            need(c, s == flag, what, '%s are %srenumbered although that was %sasked for' % (WHAT[what], '' if s else 'not ', '' if flag else 'not '))
            if not s: return None
            x = c.norm(x)
            if x[0] != 'adt' or x[1] != sm or c.norm(x[3][0])[0] != 'scoll': raise Undecided('numbering of %s' % WHAT[what])
            return c.norm(x[3][0])[1]
        def go():
            cap = []
            c.overrides[F.cn(with_)] = lambda cc, a, ta: cap.append([cc.deep(cc.strip(x)) for x in a[1:]]) or ('renumbered',)
            c.assume(('N', P), True); c.assume(('N', Q), True)
            l = G.new(c)
            r = c.norm(c.call_uid(uid, [c.read((l, ()))] + [B(x) for x in flags], G.env(c)))
            if len(cap) != 1: raise Undecided('calls of reorder_id_with')
            maps = [items(c, m, k, f) for k, m, f in zip(('n', 'nl', 'el'), cap[0], flags)]
            idt = lambda p: p
            if maps[0] is not None:
                need(c, models.comp_find(c, maps[0], P, idt) is not None, 'n', 'the numbering of the nodes leaves out a node')
            if maps[1] is not None:
                s, lab = opt(c, c.norm(('nlab', P)))
                if s: need(c, labelled(c, maps[1], c.norm(lab), ((P,),)), 'nl', 'the numbering of the node labels leaves out a label in use')
            if maps[2] is not None and c.decide(('E',) + c.dom.pair(P, Q)):
                s, lab = opt(c, c.norm(('elab',) + c.dom.pair(P, Q)))
                if s: need(c, labelled(c, maps[2], c.norm(lab), ((P, Q), (Q, P))), 'el', 'the numbering of the edge labels leaves out a label in use')
            f = {x['n']: i for i, x in enumerate(F.adts[r[1]]['variants'][0]['f'])}
            got = c.deep(c.norm(r[3][f['node_id_map']])); g = c.deep(c.norm(r[3][f['graph']]))
            need(c, got == cap[0][0], 'published', 'the published numbering is not the one that was applied')
            need(c, g == some(('renumbered',)), 'published', 'the result does not hold the renumbered graph')
            return UNIT
        R.run('numberings made<%s; %s>' % ('Directed' if d else 'Undirected', ', '.join(WHAT[k] for k, f in zip(('n', 'nl', 'el'), flags) if f) or 'nothing'), uid, c, go)

def labelled(c, comp, lab, who):
    """the label of a node or edge is in the collection: an instance of it takes the label from there"""
    n = len(who[0])
    for alt in comp[1]:
        if len(alt[0]) != n: continue
        for w in who:
            m = dict(zip(alt[0], w))
            if all(c.decide_guard(replace(a, m)) == b for a, b in alt[1]) and c.eq(replace(alt[2], m), lab): return True
    if comp[1] and not any(len(alt[0]) == n for alt in comp[1]): raise Undecided('collection of the labels in use')
    return False

def result(R, G):
    """ReorderResult: translation there and back, and what it gives out"""
    W, F = G.W, G.W.F
    uid = W.adt('ReorderResult')
    f = {x['n']: i for i, x in enumerate(F.adts[uid]['variants'][0]['f'])}
    if set(f) != {'node_id_map', 'graph'}: raise Missing('fields of ReorderResult')
    mt = W.trait('MapTrait')
    for have in (True, False):
        def go(nm, body):
            try: mu = W.inherent(uid, nm)
            except Missing: return
            c = ctx(G, True)
            def item(cc, a, ta):
                if bij(cc, a[0]) is None: return NotImplemented
                i = cc.norm(cc.strip(a[1]))
                if i[0] == 'idid': i = cc.norm(i[1])
                if i[0] == 'idnew': i = cc.norm(i[1])
                return some(('rv', i[2] if i[0] == 'bpos' else ('bitem', i)))
            c.overrides[mt + '::get_item'] = item
            fs = [None, None]
            fs[f['node_id_map']] = some(('obj', 'bij', 'n')) if have else NONE
            fs[f['graph']] = some(('renumbered',))
            def th():
                l = c.alloc(('adt', uid, 0, tuple(fs)), 'r'); c.dynty[(l, ())] = ('adt', uid, (('param', 'Id'), ('param', 'NL'), ('param', 'EL'), G.selfty(True)[2][3], ('param', 'L')))
                body(c, l, lambda *a: c.call_uid(mu, list(a), G.env(c)))
                return UNIT
            R.run('%s<%s>' % (nm, 'with numbering' if have else 'same ids'), mu, c, th)
        def there(c, l, call):
            need_eq(c, call(('ref', l, ()), P), ('idnew', ('bpos', 'n', P)) if have else P, 'translation', 'new id of a node')
        go('find_new_node_id', there)
        def back(c, l, call):
            need_eq(c, c.strip(call(('ref', l, ()), ('idnew', ('bpos', 'n', P)) if have else P)), P, 'translation', 'original id of a node given its new id')
        go('get_original_node_id', back)
        def themap(c, l, call):
            s, x = opt(c, call(('ref', l, ())))
            need(c, s == have, 'translation', 'get_node_id_map() is %s' % ('Some' if s else 'None'))
            if s: need_eq(c, c.strip(x), ('obj', 'bij', 'n'), 'translation', 'get_node_id_map()')
        go('get_node_id_map', themap)
        def take(c, l, call):
            s, x = opt(c, call(('ref', l, ())))
            need(c, s and c.strip(x) == ('renumbered',), 'graph', 'take_graph() does not give the renumbered graph')
            m = c.deep(c.read((l, (('f', f['node_id_map']),))))
            need(c, m == fs_(have), 'translation', 'the numbering is gone after taking the graph')
        def fs_(have): return some(('obj', 'bij', 'n')) if have else NONE
        go('take_graph', take)
        def getg(c, l, call):
            s, x = opt(c, call(('ref', l, ())))
            need(c, s and c.strip(x) == ('renumbered',), 'graph', 'get_graph() does not give the renumbered graph')
        go('get_graph', getg)

NM, OLD, LEFT, RES = ('sym', 'numbering'), ('sym', 'old-items'), ('sym', 'left@'), ('sym', 'res@')

class RelabelDom(MapDom):
    """both sequences have distinct items; every item of the numbering is an index into the old table; in iteration k the
    old entries of items not yet visited are still there (the invariant, which each iteration is shown to keep)"""
    def __init__(self): MapDom.__init__(self, OLD)
    def simp(self, t, fs):
        if t[0] == 'vget' and t[1] == LEFT and t[2][0] == 'idid' and t[2][1][0] == 'vget' and t[2][1][1] == NM: return some(('vget', OLD, t[2]))
        return t
    def decide(self, at, c):
        if at[0] == 'in' and at[1] == RES and at[2][0] == 'vget' and at[2][1] == OLD and at[2][2][0] == 'idid' and at[2][2][1][0] == 'vget' and at[2][2][1][1] == NM: return False
        if at[0] == 'lt' and at[1][0] == 'idid' and at[1][1][0] == 'vget' and at[1][1][1] == NM and c.norm(at[2]) in (c.norm(vlen(c, OLD)), c.norm(vlen(c, LEFT))): return True
        return None
    def lookup(self, at, fs):
        r = MapDom.lookup(self, at, fs)
        return r if r is not None else self.decide(at, self.c)

def relabeling(R, G, uid):
    """reorder_label_map: the k-th text of the new table is the old text of the k-th item of the numbering"""
    W, F = G.W, G.W.F
    sm = W.adt('SetMap')
    c = id_ctx(W)
    c.dom = RelabelDom(); c.facts.dom = c.dom; c.dom.c = c
    mt = W.trait('MapTrait')
    itu = [u for u, a in F.adts.items() if u.endswith('::iter::Iter') and len(a['variants']) == 1 and len(a['variants'][0]['f']) == 1]
    if len(itu) != 1: raise Missing('Iter')
    def which(cc, v):
        v = cc.strip(v); return v[2] if v[0] == 'obj' else None
    def items(cc, a, ta):
        w = which(cc, a[0])
        if w is None: return NotImplemented
        return ('adt', itu[0], 0, (('ref', cc.alloc(models.base('vec', (NM if w == 'num' else OLD, None, 'ref')), 'box'), ()),))
    def items_vec(cc, a, ta):
        w = which(cc, a[0])
        return NotImplemented if w is None else (NM if w == 'num' else OLD)
    def length(cc, a, ta):
        w = which(cc, a[0])
        return NotImplemented if w is None else vlen(cc, NM if w == 'num' else OLD)
    def get_item(cc, a, ta):
        w = which(cc, a[0])
        if w is None: return NotImplemented
        v = NM if w == 'num' else OLD
        i = cc.norm(cc.strip(a[1]))
        return some(('rv', vget(cc, v, i))) if cc.lt(i, vlen(cc, v)) else NONE
    for nm, f in (('items', items), ('items_vec', items_vec), ('len', length), ('get_item', get_item)): c.overrides[mt + '::' + nm] = f
    st = {}
    def havoc(cc, l, p, init, n):
        if init[0] == 'it' or cc_has_it(init): return setgen(init)
        if init[0] == 'sempty': return RES
        if init[0] in ('vcoll', 'sym', 'arr'): return LEFT
        if init[0] == 'adt' and init[1] == sm: return ('adt', sm, 0, (RES,))
        raise Undecided('loop state %s' % show(init)[:60])
    def hook(fr, bb, outer):
        if fr.uid != uid or outer is not None or any(bb in b and h != bb for h, b in fr.loops.items()): return None
        L = Inductive(fr, bb, outer, havoc); st['L'] = L; return L
    c.loophook = hook
    def th():
        st.pop('L', None)
        g0 = len(c.gens)
        r = c.norm(c.call_uid(uid, [('ref', c.alloc(('obj', 'map', 'num'), 'num'), ()), ('obj', 'map', 'old')], {}))
        if r[0] != 'adt' or r[1] != sm: raise Undecided('result')
        r = c.norm(r[3][0])
        L = st.get('L')
        if L is None: raise Undecided('the loop that renumbers the table')
        need(c, len(c.gens) == g0, 'complete', 'the renumbering stops before the last item')
        if r != RES: raise Undecided('result %s' % show(r)[:60])
        hv = {}
        for k, v in L.havoc.items():
            if v == LEFT or v == RES or v == ('adt', sm, 0, (RES,)): hv['left' if v == LEFT else 'res'] = k
        if 'res' not in hv: raise Undecided('result is not built in the loop')
        i0 = L.init[hv['res']]
        i0 = c.norm(i0[3][0]) if i0[0] == 'adt' else i0
        need(c, i0[0] == 'sempty', 'nothing-added', 'the new table does not start empty')
        if 'left' in hv:
            i0 = c.norm(L.init[hv['left']])
            if i0[0] != 'vcoll' or i0[2] != 'seq': raise Undecided('copy of the old table')
            for vs, gs, p in i0[1][1]:
                if len(vs) != 1 or p != some(('vget', OLD, vs[0])): raise Undecided('copy of the old table')
        s_ = L.backs[c.choose(len(L.backs))][1]
        c.restore(s_)
        K = [x for x in c.gens[g0:]]
        if len(K) != 1: raise Undecided('items per iteration')
        want = c.norm(('vget', OLD, ('idid', ('vget', NM, K[0]))))
        now = c.read(hv['res']); now = c.norm(now[3][0]) if now[0] == 'adt' else now
        if now == RES: raise Fail('complete', 'an item of the numbering gets no text')
        if now[0] != 'sadd' or c.norm(now[1]) != RES: raise Undecided('table after one iteration')
        need_eq(c, c.strip(now[2]), want, 'text', 'text added for an item of the numbering')
        if 'left' in hv:
            v = c.norm(c.read(hv['left']))
            while v[0] == 'vset':
                need(c, c.eq(v[2], ('idid', ('vget', NM, K[0]))), 'text', 'an iteration changes the entry of another item')
                v = c.norm(v[1])
            if v != LEFT: raise Undecided('entries left after one iteration')
        return UNIT
    R.run('label texts', uid, c, th)

def cc_has_it(v): return contains(v, lambda t: t[0] == 'it')
def setgen(v):
    if not isinstance(v, tuple): return v
    if v and v[0] == 'it' and v[1] == 'base': return v[:4] + ('gen',) + v[5:]
    return tuple(setgen(x) if isinstance(x, tuple) else x for x in v)
