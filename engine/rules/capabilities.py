"""C39: the capability views of every graph type, and programs that must not compile."""
from terms import *
from world import *
from report import *
from rules.views import subjects, each
from models import opt
import os, witness

def subject(W): return W

def same(c, v, l, nm):
    """the value is a reference to the graph itself"""
    for _ in range(6):
        v = c.norm(v)
        if v == ('ref', l, ()): return
        if v[0] == 'ref':
            x = c.read((v[1], v[2]))
            if x[0] in ('ref', 'rv'): v = x; continue
        if v[0] == 'rv': v = v[1]; continue
        break
    raise Fail('same-graph', '%s() refers to something else than the graph: %s' % (nm, show(v)[:80]))

def c39(R, W):
    F = W.F
    subs = subjects(W)
    mut = {im_head(F, im) for im in F.by_trait.get(W.trait('MutGraphTrait'), []) if im['id'] in F.impls}
    for S in subs:
        for nm in ('as_graph', 'as_labeled_graph', 'as_general_graph'):
            each(R, S, 'GeneralGraph', nm, nm, lambda c, l, S=S, nm=nm: same(c, S.call(c, 'GeneralGraph', nm, l, []), l, nm))
        def dig(c, l, S=S):
            s, p = opt(c, S.call(c, 'GeneralGraph', 'as_digraph', l, []))
            d = c.decide(S.call(c, 'GraphTrait', 'is_directed', l, []))
            need(c, d == c.directed, 'direction', 'is_directed() is %s for a%s graph' % (d, ' directed' if c.directed else 'n undirected'))
            need(c, s == c.directed, 'capability', 'a%s graph %s the directed view' % (' directed' if c.directed else 'n undirected', 'offers' if s else 'does not offer'))
            if s: same(c, p, l, 'as_digraph')
        each(R, S, 'GeneralGraph', 'as_digraph', 'as_digraph', dig)
        def mg(c, l, S=S):
            s, p = opt(c, S.call(c, 'GeneralGraph', 'as_mut_graph', l, []))
            want = S.uid in mut
            need(c, s == want, 'capability', 'a %s graph %s the mutable view' % ('mutable' if want else 'read-only', 'offers' if s else 'does not offer'))
            if s: same(c, p, l, 'as_mut_graph')
        each(R, S, 'GeneralGraph', 'as_mut_graph', 'as_mut_graph', mg)
    # which types implement which capability
    heads = {S.uid: S.name for S in subs}
    for tr, marker in (('DiGraphTrait', W.Directed), ('UnGraphTrait', W.Undirected)):
        for im in F.by_trait.get(W.trait(tr), []):
            if im['id'] not in F.impls: continue
            t = F.ty(im['self'])
            if t[0] != 'adt' or t[1] not in heads: continue
            ob = 'impl %s for %s' % (tr, heads[t[1]])
            where = '%s:%s' % tuple(im['span'][:2])
            dirs = [a for a in t[2] if a in (W.Directed, W.Undirected)]
            gen = [a for a in t[2] if a[0] == 'param' and any('<%s as ' % a[1] in q and 'GraphType>' in q for q in im['preds'])]
            if dirs == [marker]: R.ok(ob, F.cn(im['id']), 'implemented for the %s type only' % ('directed' if marker == W.Directed else 'undirected'), where)
            elif dirs or gen: R.bad(ob, F.cn(im['id']), '%s is implemented for %s' % (tr, 'every direction' if gen else 'the wrong direction'), where)
            else: R.ok(ob, F.cn(im['id']), 'the type carries its direction at run time; see as_digraph', where)
    for tr in ('MutGraphTrait', 'MutGraphLabelTrait'):
        for im in F.by_trait.get(W.trait(tr), []):
            if im['id'] not in F.impls: continue
            h = im_head(F, im); where = '%s:%s' % tuple(im['span'][:2])
            if h == subs[0].uid: R.ok('impl %s' % tr, F.cn(im['id']), 'the mutable graph', where)
            elif h in heads: R.bad('impl %s' % tr, F.cn(im['id']), '%s is implemented for the read-only %s' % (tr, heads[h]), where)
    # programs that must not compile
    if getattr(W, 'config', ''): return        # type-checked against the default configuration only
    fp = getattr(W, 'facts_path', None)
    if fp is None: R.und('compile-fail witnesses', None, 'no build directory'); return
    b = os.path.dirname(fp)
    mark = os.path.join(b, 'tree')
    if not os.path.exists(mark) or open(mark).read() != os.path.basename(fp): R.und('compile-fail witnesses', None, 'the compiled crate is not that of the current tree'); return
    r = witness.run(b)
    if r is None: R.und('compile-fail witnesses', None, 'no compiled crate'); return
    for name, verdict, detail in r:
        ob = 'must not compile: ' + name
        if verdict == 'rejected': R.ok(ob, 'witness', detail)
        elif verdict == 'accepted': R.bad(ob, 'witness', 'the compiler accepts this program:\n' + detail)
        else: R.und(ob, 'witness', 'the permitted twin does not compile: ' + detail)

def im_head(F, im): return head_of(F.ty(im['self']))
