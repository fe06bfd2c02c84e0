"""C37: node and edge handles.  Payloads are built by their own constructors from symbolic parts; every wrapper variant
must answer what its payload stands for, and the views that hand handles out must hand out the right ones, once each."""
from terms import *
from world import *
from report import *
from subjects import *
from rules.views import *
import models

A, B_, L0 = ('sym', 'a0'), ('sym', 'b0'), ('sym', 'lab0')
KINDS = {'node': ('NodeTrait', ('get_id',), 'MutNodeTrait'), 'edge': ('EdgeTrait', ('get_start', 'get_target'), 'MutEdgeTrait')}

def call(W, c, trait, name, adt, loc, extra=()):
    return W.dispatch_tr(c, trait, name, W.selfof(trait, adt), [('ref', loc, ())] + list(extra))

def payload(W, c, adt, kind):
    """a value of a payload type standing for the item (A) / (A,B_) with label L0"""
    uid = W.inherent(adt, 'new')
    n = W.F.bodies[uid]['args']
    if kind == 'node': args = [A, L0]
    else:
        args = [A, B_, L0]
        t = W.F.ty(W.F.bodies[uid]['locals'][3])
        if t[0] == 'ref':
            l = c.alloc(L0, 'lab'); args[2] = ('ref', l, ())
    if n != len(args): raise Undecided('constructor of %s' % adt)
    return c.call_uid(uid, args, {})

def check_item(W, c, kind, adt, loc, what, mut):
    tr, ids, mtr = KINDS[kind]
    need(c, not c.decide(call(W, c, tr, 'is_none', adt, loc)) and c.decide(call(W, c, tr, 'is_some', adt, loc)), 'present', '%s: a handle of an item says it is none' % what)
    for nm, w in zip(ids, (A, B_)):
        need_eq(c, c.strip(call(W, c, tr, nm, adt, loc)), w, nm, '%s: %s()' % (what, nm))
    g = call(W, c, tr, 'get_label_id', adt, loc)
    need_eq(c, g, L0, 'label', '%s: get_label_id()' % what)
    if mut:
        nl = ('sym', 'newlab')
        call(W, c, mtr, 'set_label_id', adt, loc, [nl])
        need_eq(c, call(W, c, tr, 'get_label_id', adt, loc), nl, 'set-label', '%s: label read back' % what)
        for nm, w in zip(ids, (A, B_)):
            need_eq(c, c.strip(call(W, c, tr, nm, adt, loc)), w, nm, '%s: %s() after set_label_id' % (what, nm))

def c37(R, W):
    F = W.F
    for kind, (tr, ids, mtr) in KINDS.items():
        payloads = {}; wrappers = []
        for im in F.by_trait.get(W.trait(tr), []):
            t = F.ty(im['self'])
            if t[0] != 'adt' or not t[1].startswith('rust_graph::'): continue
            a = F.adts[t[1]]
            if len(a['variants']) == 1: payloads[t[1]] = t
            else: wrappers.append(t)
        muts = {F.ty(i['self'])[1] for i in F.by_trait.get(W.trait(mtr), []) if F.ty(i['self'])[0] == 'adt'}
        for p in sorted(payloads):
            c = Ctx(F, None); c.models = dict(models.M)
            def th(c=c, p=p):
                l = c.alloc(payload(W, c, p, kind), 'h'); c.dynty[(l, ())] = payloads[p]
                check_item(W, c, kind, p, l, p.split('::')[-1], p in muts)
            R.run('payload:%s' % p.split('::')[-1], anchor(W, tr, p, 'get_label_id'), c, th)
        for t in sorted(wrappers):
            w = t[1]
            for vi, v in enumerate(F.adts[w]['variants']):
                nm = '%s::%s' % (w.split('::')[-1], v['n'])
                c = Ctx(F, None); c.models = dict(models.M)
                if not v['f']:
                    def th(c=c, w=w, vi=vi, nm=nm):
                        l = c.alloc(('adt', w, vi, ()), 'h')
                        need(c, c.decide(call(W, c, tr, 'is_none', w, l)) and not c.decide(call(W, c, tr, 'is_some', w, l)), 'absent', '%s: the handle of no item says it is some' % nm)
                    R.run('wrapper:%s' % nm, anchor(W, tr, w, 'is_none'), c, th); continue
                pt = F.ty(v['f'][0]['t'])
                isref = pt[0] == 'ref'; h = head_of(pt[2] if isref else pt)
                if h not in payloads: R.und('wrapper:%s' % nm, w, 'payload type'); continue
                def th(c=c, w=w, vi=vi, nm=nm, isref=isref, h=h):
                    p = payload(W, c, h, kind)
                    if isref:
                        pl = c.alloc(p, 'p'); p = ('ref', pl, ())
                    l = c.alloc(('adt', w, vi, (p,)), 'h')
                    check_item(W, c, kind, w, l, nm, w in muts)
                    if isref and w in muts:
                        need_eq(c, call(W, c, tr, 'get_label_id', h, pl), ('sym', 'newlab'), 'set-through', '%s: label of the item behind the handle' % nm)
                R.run('wrapper:%s' % nm, anchor(W, tr, w, 'get_label_id'), c, th)
            unwraps(R, W, kind, t, payloads)
    for S in subjects(W):
        lookups(R, S)
        ni, ei = node_item(S), edge_item(S)
        def v_nodes(c, l, S=S, ni=ni): one_node(c, S, comp(c, S.call(c, 'GraphTrait', 'nodes', l, []), lambda x: ni(c, x)), lambda p: p[1][0], 'nodes()', True)
        def v_edges(c, l, S=S, ei=ei): one_edge(c, S, comp(c, S.call(c, 'GraphTrait', 'edges', l, []), lambda x: ei(c, x)), lambda p: p[1][0], 'edges()', True)
        each(R, S, 'GraphTrait', 'nodes', 'nodes', v_nodes); each(R, S, 'GraphTrait', 'edges', 'edges', v_edges)
        if isinstance(S, MutSubj):
            def m_nodes(c, l, S=S, ni=ni): one_node(c, S, comp(c, S.call(c, 'MutGraphTrait', 'nodes_mut', l, []), lambda x: ni(c, x)), lambda p: p[1][0], 'nodes_mut()', True)
            def m_edges(c, l, S=S, ei=ei): one_edge(c, S, comp(c, S.call(c, 'MutGraphTrait', 'edges_mut', l, []), lambda x: ei(c, x)), lambda p: p[1][0], 'edges_mut()', True)
            each(R, S, 'MutGraphTrait', 'nodes_mut', 'nodes_mut', m_nodes); each(R, S, 'MutGraphTrait', 'edges_mut', 'edges_mut', m_edges)
            owned(R, S)

def owned(R, S):
    W = S.W
    def rn(c, l):
        N = S.N(c, P); lab = S.nlab(c, P)
        h = S.call(c, 'MutGraphTrait', 'remove_node', l, [P])
        handle_node(c, S, h, N, P, lambda: lab, 'remove_node()')
    def re(c, l):
        E = S.E(c, P, Q); lab = S.elab(c, P, Q)
        h = S.call(c, 'MutGraphTrait', 'remove_edge', l, [P, Q])
        handle_edge(c, S, h, E, P, Q, lambda: lab, 'remove_edge()')
    each(R, S, 'MutGraphTrait', 'remove_node', 'remove_node', rn)
    each(R, S, 'MutGraphTrait', 'remove_edge', 'remove_edge', re)

def unwraps(R, W, kind, t, payloads):
    """unwrap functions give the payload of the handle, unchanged, or panic"""
    F = W.F; w = t[1]; tr, ids, mtr = KINDS[kind]
    for u, d in sorted(F.defs.items()):
        if d.get('impl_self') != w or d.get('trait') or u not in F.bodies or F.bodies[u]['args'] != 1: continue
        if not d['name'].startswith('unwrap'): continue
        rt = F.ty(F.bodies[u]['locals'][0]); rh = head_of(rt[2] if rt[0] == 'ref' else rt)
        if rh not in payloads: continue
        for vi, v in enumerate(F.adts[w]['variants']):
            if not v['f']: continue
            pt = F.ty(v['f'][0]['t']); isref = pt[0] == 'ref'; h = head_of(pt[2] if isref else pt)
            if h not in payloads: continue
            c = Ctx(F, None); c.models = dict(models.M)
            def th(c=c, u=u, vi=vi, isref=isref, h=h, v=v):
                p = payload(W, c, h, kind)
                if isref: p = ('ref', c.alloc(p, 'p'), ())
                try: r = c.call_uid(u, [('adt', w, vi, (p,))], {})
                except Panic: 
                    if h == rh and not (kind == 'edge' and False): raise
                    return
                loc = r[1] if r[0] == 'ref' and r[2] == () else c.alloc(r, 'u')
                check_item(W, c, kind, rh, loc, d_name(F, u), False)
            R.run('unwrap:%s::%s/%s' % (w.split('::')[-1], F.defs[u]['name'], v['n']), u, c, th)
def d_name(F, u): return F.defs[u]['name']

def anchor(W, tr, adt, name):
    try: return W.method(W.selfof(tr, adt), tr, name)[0]
    except Missing: return None
