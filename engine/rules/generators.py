"""C31: graph generators, for every n, m, p and label lists, on the graph contracts; random choices are arbitrary values of
their range, a sample is an arbitrary m-element subset of its source."""
from terms import *
from world import *
from report import *
from absgraph import *
import models

N, M_, P_, NL, EL = ('sym', 'n'), ('sym', 'm'), ('sym', 'p'), ('sym', 'nl'), ('sym', 'el')
I_, J_ = ('sym', 'i?'), ('sym', 'j?')
RES = 'core::result::Result'

def subject(W): return W

def mlen(v): return I(0) if v == ('arr', ()) else ('mlen', v)

def rnd(c, lo, hi):
    """a random number: some value for every iteration of the loops around it"""
    c.cnt += 1
    return ('rnd', c.cnt, lo, hi) + tuple(c.gens)

def gen_ctx(W, d):
    F = W.F
    c = gctx(W, {})
    c.lmaps = {}; c.samples = []
    ov = c.overrides
    h = W.adt('TypedGraphMap')
    new = ov[F.cn(W.inherent(h, 'new'))]
    def wlm(cc, a, ta):
        g = new(cc, a, ta)
        cc.lmaps[g[1]] = tuple(cc.deep(x) for x in a)
        return g
    ov[F.cn(W.inherent(h, 'with_label_map'))] = wlm
    lt = W.trait('GraphLabelTrait')
    def lmap(i):
        def f(cc, a, ta):
            g = gid(cc, a[0])
            if g is None: return NotImplemented
            if g not in cc.lmaps: return ('rv', ('obj', 'lmap', ('arr', ())))
            return ('rv', cc.lmaps[g][i])
        return f
    ov[lt + '::get_node_label_map'] = lmap(0); ov[lt + '::get_edge_label_map'] = lmap(1)
    sm = W.adt('SetMap')
    def mk(cc, a, ta): return ('obj', 'lmap', cc.deep(a[0]))
    ov[F.cn(W.inherent(sm, 'from_vec'))] = mk
    for nm in ('new', 'with_capacity'): ov[F.cn(W.inherent(sm, nm))] = lambda cc, a, ta: ('obj', 'lmap', ('arr', ()))
    mt = W.trait('MapTrait')
    def on(nm, f):
        def hh(cc, a, ta):
            v = cc.strip(a[0])
            return f(cc, v[2], a) if v[:2] == ('obj', 'lmap') else NotImplemented
        ov[mt + '::' + nm] = hh
    on('is_empty', lambda cc, v, a: B(cc.eq(mlen(v), I(0))))
    on('len', lambda cc, v, a: mlen(v))
    def item(cc, v, a):
        i = cc.norm(a[1])
        return some(('rv', ('litem', v, i))) if cc.lt(i, mlen(v)) else NONE
    on('get_item', item)
    # random numbers
    ov['rand::rngs::thread::thread_rng'] = lambda cc, a, ta: ('sym', 'rng')
    def gen_range(cc, a, ta):
        lo, hi = cc.norm(a[1]), cc.norm(a[2])
        if not cc.lt(lo, hi): raise Panic('empty range of random numbers', cc.span())
        r = rnd(cc, lo, hi)
        cc.facts.assume(('lt', r, lo), False, 'axiom'); cc.facts.assume(('lt', r, hi), True, 'axiom')
        return r
    ov['rand::Rng::gen_range'] = gen_range
    def gen_bool(cc, a, ta):
        return B(cc.decide(('rbool', rnd(cc, 'bool', NONE))))
    ov['rand::Rng::gen_bool'] = gen_bool
    def sample(cc, a, ta):
        comp = models.comp_of(cc, models.own_it(cc, a[1]))
        k = ('smp', len(cc.samples)); cc.samples.append((cc.norm(a[2]), comp))
        if cc.choose(2, 'enough elements') == 1:
            cc.short = True
            return ('adt', RES, 1, (('vcoll', comp, 'seq'),))
        alts = tuple((vs, gs + ((('sampled', k, p), True),), p) for vs, gs, p in comp[1])
        return ('adt', RES, 0, (('vcoll', (comp[0], alts) + comp[2:], 'seq'),))
    ov['rand::seq::sample_iter'] = sample
    return c

def nonneg(c, *xs):
    for x in xs: c.assume(('lt', x, I(0)), False)

def key(x): return ('idnew', x)

def check_label(c, l, src, what):
    l = c.norm(l)
    s, p = (False, None) if l == NONE else models.opt(c, l)
    if not s:
        need(c, c.eq(mlen(src), I(0)), 'labelled', '%s %s has no label although %s labels are given' % (('a', 'an')[what == 'edge'], what, what))
        return
    p = c.strip(p)
    if p[0] == 'litem' and p[1] == src:
        if p[2][0] == 'rnd' and p[2][2] != 'bool':
            lo, hi = p[2][2:4]
            need(c, c.eq(lo, I(0)) and c.eq(hi, mlen(src)), 'choice', 'the label of a %s is chosen among the labels %s to %s only' % (what, show(lo), show(hi)))
        return
    if p[0] in ('litem', 'str', 'int', 'adt', 'nlb', 'elb'): raise Fail('labels', 'the label of %s is not taken from the given %s labels: %s' % (what, what, show(p)[:60]))
    raise Undecided('label of a generated %s' % what)

def c31(R, W):
    F = W.F
    gens = [('empty_graph', 'empty'), ('complete_graph', 'complete'), ('random_gnp_graph', 'gnp'), ('random_gnm_graph', 'gnm')]
    pairs_uid = W.function('complete_edge_pairs')
    for d in (True, False):
        env = {'Ty': W.Directed if d else W.Undirected}
        tag = '<%s>' % ('Undirected', 'Directed')[d]
        # the admissible pairs
        c = gen_ctx(W, d)
        def pairs(c=c, env=env, d=d):
            nonneg(c, N, I_, J_)
            it = c.call_uid(pairs_uid, [N], dict(env))
            comp = models.comp_of(c, models.own_it(c, it))
            n = 0
            for alt in comp[1]:
                for p in [(I_, J_)] + ([] if d else [(J_, I_)]):
                    if models.match_alt(c, alt, ('tup', p), lambda q: q) is not None:
                        n += 1
                        if not d and c.eq(I_, J_): break
            ok = c.lt(I_, N) and c.lt(J_, N) and not c.eq(I_, J_)
            need(c, n == (1 if ok else 0), 'pairs', 'the pair (i,j) with %s is produced %d times' % ('distinct i,j<n' if ok else 'i=j or an end outside 0..n-1', n))
            return UNIT
        R.run('complete_edge_pairs' + tag, pairs_uid, c, pairs)
        for nm, kind in gens:
            for un in (False, True):
                name = nm + ('_unlabeled' if un else '')
                try: u = W.function(name)
                except Missing:
                    R.und(name + tag, None, 'no such function'); continue
                one(R, W, u, name + tag, kind, un, d, env)

def one(R, W, u, lab, kind, un, d, env):
    nl, el = (('arr', ()), ('arr', ())) if un else (NL, EL)
    args = [N] + ([M_] if kind == 'gnm' else [P_] if kind == 'gnp' else []) + ([] if un else [NL, EL])
    def call(c):
        c.lmaps = {}; c.samples = []; c.short = False
        nonneg(c, N)
        r = c.call_uid(u, list(args), dict(env))
        g = gid(c, r)
        if g is None: raise Undecided('value of the generator')
        need(c, c.dom.directed[g] == d, 'direction', 'the graph has the wrong direction')
        return g
    def panic_ok(v, s):
        fs = s[1]
        # p outside [0,1], or more edges wanted than there are
        if kind == 'gnp' and any(a[0] == 'lt' and P_ in a[1:] and b for a, b, w in fs.log): return True
        if kind == 'gnm' and any(a[0] == 'lt' and contains(a, lambda t: t == M_) for a, b, w in fs.log): return True
        return kind == 'gnm' and c_short(s)
    def c_short(s): return any(o == ('short',) for o in s[5])
    def mk():
        c = gen_ctx(W, d)
        f = c.overrides['rand::seq::sample_iter']
        def sample(cc, a, ta):
            r = f(cc, a, ta)
            if r[2] == 1: cc.ops.append(('short',))
            return r
        c.overrides['rand::seq::sample_iter'] = sample
        return c
    c = mk()
    def nodes(c=c):
        nonneg(c, I_)
        g = call(c)
        st = state(c, g, ('n', key(I_)))
        want = c.lt(I_, N)
        need(c, (st[0] == 'present') == want, 'nodes', 'node i with %s is %s' % ('i<n' if want else 'i>=n', st[0]))
        if want: check_label(c, st[1], nl, 'node')
        return UNIT
    R.run(lab + ':nodes', u, c, nodes, allow_panic=panic_ok)
    c = mk()
    def edges(c=c):
        nonneg(c, I_, J_)
        g = call(c)
        st = state(c, g, ('e', (key(I_), key(J_))))
        ok = c.lt(I_, N) and c.lt(J_, N) and not c.eq(I_, J_)
        if kind == 'empty': ok2 = False
        elif kind == 'complete': ok2 = ok
        else: ok2 = None
        if st[0] == 'present':
            need(c, ok, 'edges', 'an edge between i and j although %s' % 'i=j or one of them is not below n')
            check_label(c, st[1], el, 'edge')
        if ok2 is not None: need(c, (st[0] == 'present') == ok2, 'edges', 'an edge of distinct i,j<n is %s' % st[0])
        return UNIT
    R.run(lab + ':edges', u, c, edges, allow_panic=panic_ok)
    if kind == 'gnm':
        c = mk()
        def exact(c=c):
            nonneg(c, I_, J_)
            g = call(c)
            if any(o == ('short',) for o in c.ops): raise Fail('refuse', 'too many edges wanted, but a graph is returned')
            if len(c.samples) != 1: raise Undecided('not one sample')
            m, comp = c.samples[0]
            need_eq(c, m, M_, 'size', 'size of the edge sample')
            # the sample is taken from the admissible pairs, each once
            n = 0; at = [(I_, J_)] + ([] if d else [(J_, I_)])
            c.assume(('lt', I_, N), True); c.assume(('lt', J_, N), True); c.assume(('eq', I_, J_), False)
            for alt in comp[1]:
                for p in at:
                    if models.match_alt(c, alt, ('tup', p), lambda q: q) is not None: n += 1
            need(c, n == 1, 'source', 'an admissible edge is %d times in the set the sample is taken from' % n)
            sampled = [c.decide(('sampled', ('smp', 0), ('tup', p))) for p in at if any(models.match_alt(c, alt, ('tup', p), lambda q: q) is not None for alt in comp[1])]
            st = state(c, g, ('e', (key(I_), key(J_))))
            need(c, (st[0] == 'present') == any(sampled), 'exact', 'a sampled edge is %s' % st[0] if any(sampled) else 'an edge that was not sampled is present')
            return UNIT
        R.run(lab + ':size', u, c, exact, allow_panic=panic_ok)
