"""C21, C22: equality and hashing of graphs and of the value types, on abstract graphs."""
from terms import *
from world import *
from report import *
from absgraph import *
import models, itertools

X, Y = ('sym', 'p?'), ('sym', 'q?')
EQ, HASH = 'core::cmp::PartialEq', 'core::hash::Hash'

def subject(W): return W

def unbox(t):
    while t[0] == 'ref' or t[0] == 'adt' and t[1].endswith('boxed::Box'): t = t[2] if t[0] == 'ref' else t[2][0]
    return t

def is_graph(W, t):
    x = unbox(t)
    h = head_of(x)
    if h == W.trait('GeneralGraph') or h == W.trait('GraphTrait'): return True
    return any(head_of(W.F.ty(im['self'])) == h for im in W.F.by_trait.get(W.trait('GraphTrait'), []))

def graph_impls(W, trait):
    """impls of a comparison/hash trait for graph types: (impl, label, env, directions)"""
    F = W.F; out = []
    for im in F.by_trait.get(trait, []):
        if im['id'] not in F.impls: continue
        t = F.ty(im['self'])
        if not is_graph(W, t): continue
        x = unbox(t)
        label = W.F.defs[head_of(x)]['name'] if head_of(x) in W.F.defs else str(head_of(x)).split('::')[-1]
        if x[0] == 'adt':
            gp = [p for p in x[2] if p[0] == 'param' and any('<%s as ' % p[1] in q and 'GraphType>' in q for q in im['preds'])]
            dirs = [(d, {gp[0][1]: m} if gp else {}) for d, m in ((True, W.Directed), (False, W.Undirected))]
            fixed = [d for d, m in ((True, W.Directed), (False, W.Undirected)) if m in x[2]]
            if fixed: dirs = [(fixed[0], {})]
        else: dirs = [(True, {}), (False, {})]
        out.append((im, label, dirs))
    return out

def arg(c, W, uid, i, g):
    """graph g as the i-th argument (through as many references/boxes as the signature has)"""
    t = W.F.ty(W.F.bodies[uid]['locals'][i + 1])
    l = c.alloc(('G', g), 'G')
    v = ('ref', l, ())
    n = 0
    while t[0] == 'ref' or t[0] == 'adt' and t[1].endswith('boxed::Box'):
        n += 1; t = t[2] if t[0] == 'ref' else t[2][0]
    if n == 0: return ('G', g)
    for _ in range(n - 1): v = ('ref', c.alloc(v, 'b'), ())
    return v

def internals(W, x):
    """the term looks at the representation of an abstract graph"""
    return contains(x, lambda t: t[0] in ('fld', 'vf', 'upd') and t[1][0] in ('G', 'fld') and contains(t[1], lambda u: u[0] == 'G'))

def gkinds(W, h):
    """what the fields of a graph type hold: a count, the largest id seen, a table of labels"""
    if h not in W.F.adts or len(W.F.adts[h]['variants']) != 1: return {}
    def kind(f):
        if 't' not in f: return None
        t = W.F.ty(f['t']); x = head_of(t)
        if t == ('int', 'usize'): return 'count'
        if x == OPT and t[2][0][0] == 'param': return 'max'
        if str(x).endswith('::SetMap'): return 'table'
    return {i: kind(f) for i, f in enumerate(W.F.adts[h]['variants'][0]['f'])}

def reads(W, h, log):
    """the facts of this path about the representation: [(kind of the field, whole field or a part, outcome)], None: of another form"""
    K = gkinds(W, h); out = []
    for a, b, w in log:
        if not internals(W, a): continue
        if a[0] not in ('eq', 'lt') or len(a) != 3: return None
        def root(t):
            part = t
            while t[0] in ('slen', 'mlen', 'fld', 'len') and t[1][0] != 'G': t = t[1]
            return (t[1], t[2], part) if t[0] == 'fld' and t[1][0] == 'G' else None
        x, y = root(a[1]), root(a[2])
        if not x or not y or x[1] != y[1] or x[0] == y[0]: return None
        if replace(x[2], {x[0]: y[0]}) != y[2]: return None
        out.append((K.get(x[1]), x[2][0] == 'fld' and x[2][1][0] == 'G', a[0], b, x[1]))
    return out

def history(W, h, log):
    """graphs with the same nodes, edges and labels were told apart by what they have seen before: text, or None"""
    if W.F.defs.get(h, {}).get('name') != 'TypedGraphMap': return None
    r = reads(W, h, log)
    if not r or len({x[4] for x in r}) != 1: return None
    if r[0][0] == 'max' and all(x[1] for x in r): return 'the largest id seen, which stays when the node is removed'
    if r[0][0] == 'table' and not any(x[1] for x in r): return 'the number of labels seen, which stays when they fall out of use'

def refute(c, cands, setup=lambda: None):
    """the exhausted loops of this path exclude the assumed situation"""
    def inst():
        setup()
        for rec in c.foralls:
            for gens, guards in rec['early']:
                if len(gens) > 3: continue
                for pick in itertools.product(cands, repeat=len(gens)):
                    m = dict(zip(gens, pick))
                    if len(set(pick)) < min(len(gens), len(cands)): continue
                    if all(c.decide_guard(replace(a, m)) == b for a, b in guards): raise Infeasible()
        return 'survives'
    outs = c.explore(inst)
    for v, s in outs:
        if isinstance(v, Exception): raise v
    return not outs

def c21(R, W):
    F = W.F
    found = set()
    for im, label, dirs in graph_impls(W, EQ):
        iu = dict((nm, u) for nm, u, _ in im['items']).get('eq')
        found.add(label)
        if im.get('derived'):
            R.bad('eq %s' % label, iu or im['id'], 'equality is derived: it compares the representation (label numbering, insertion order), not the graph', R.spanof(iu) if iu else '')
            continue
        if iu not in F.bodies: continue
        one_eq(R, W, 'eq %s' % label, iu, dirs)
    u = W.function('equal')
    one_eq(R, W, 'equal', u, [(True, {}), (False, {})], both=True)
    for need_ in ('TypedGraphMap', 'TypedStaticGraph', 'GeneralGraph'):
        if need_ not in found: R.und('eq %s' % need_, None, 'no PartialEq implementation found')

def one_eq(R, W, ob, uid, dirs, both=False):
    F = W.F
    h = F.defs[uid].get('impl_self')
    for d, env in dirs:
        tag = '%s<%s>' % (ob, 'Directed' if d else 'Undirected')
        # equal graphs
        c = gctx(W, {'g1': d, 'g2': d}, {'g2': 'g1'})
        def th(c=c, d=d, env=env):
            r = c.decide(c.call_uid(uid, [arg(c, W, uid, 0, 'g1'), arg(c, W, uid, 1, 'g2')], dict(env)))
            if r: return UNIT
            if any(internals(W, a) for a, b, w in c.facts.log):
                t = history(W, h, c.facts.log)
                if t: raise Fail('history', 'graphs with the same nodes, edges and labels compare unequal by %s' % t)
                raise Undecided('compares the representation')
            raise Fail('equal-graphs', 'two graphs with the same nodes, edges and labels may compare unequal')
        R.run(tag, uid, c, th)
        W1 = [('node', 1), ('node', 2), ('node-label', 0), ('edge', 1), ('edge', 2), ('edge-label', 0)]
        for what, side in W1:
            c = gctx(W, {'g1': d, 'g2': d})
            def th(c=c, d=d, env=env, what=what, side=side):
                kind = what.split('-')[0]
                key = (X,) if kind == 'node' else (X, Y)
                at = lambda g, k=key: (('N', g) if kind == 'node' else ('E', g)) + k
                lb = lambda g: (('nlb', g) if kind == 'node' else ('elb', g)) + key
                if kind == 'edge' and not d: c.assume(('lt', Y, X), False)
                if side:
                    a, b = ('g1', 'g2') if side == 1 else ('g2', 'g1')
                    c.assume(at(a), True); c.assume(at(b), False)
                    text = 'a graph with %s %s compares equal to one without it' % ('an' if kind == 'edge' else 'a', kind)
                else:
                    c.assume(at('g1'), True); c.assume(at('g2'), True)
                    v1, v2 = c.isvar(lb('g1'), 1), c.isvar(lb('g2'), 1)
                    if not v1 and not v2: raise Infeasible()
                    if v1 and v2:
                        if c.eq(('vf', lb('g1'), 1, 0), ('vf', lb('g2'), 1, 0)): raise Infeasible()
                    text = 'graphs with different labels on %s %s compare equal' % ('an' if kind == 'edge' else 'a', kind)
                r = c.decide(c.call_uid(uid, [arg(c, W, uid, 0, 'g1'), arg(c, W, uid, 1, 'g2')], dict(env)))
                if not r: return UNIT
                if refute(c, key): raise Infeasible()
                if side:
                    card = 'cardN' if kind == 'node' else 'cardE'
                    if c.known(('eq', (card, 'g1'), (card, 'g2'))) or c.norm((card, 'g1')) == c.norm((card, 'g2')):
                        z = tuple(c.fresh('z%') for _ in key)
                        def setup():
                            if kind == 'edge' and not d: c.assume(('lt', z[1], z[0]), False)
                            c.assume(at(b, z), True); c.assume(at(a, z), False)
                        # a: has the extra one; every one of b is in a?  then a has more, against the equal counts
                        if refute(c, z, setup): raise Infeasible()
                if any(internals(W, x) for x, b_, w in c.facts.log):
                    rd = reads(W, h, c.facts.log)
                    # the same numbers of labels mean different labels when the tables differ
                    if not (what.endswith('-label') and v1 and v2 and rd and all(x[0] != 'table' and x[1] and x[2] == 'eq' and x[3] for x in rd)):
                        raise Undecided('compares the representation')
                raise Fail(what + 's', text)
            R.run('%s %s%s' % (tag, what, {0: '', 1: ' only in the first', 2: ' only in the second'}[side]), uid, c, th)
        if both or ob.endswith('GeneralGraph'):
            c = gctx(W, {'g1': d, 'g2': not d})
            def th(c=c, env=env):
                if c.decide(c.call_uid(uid, [arg(c, W, uid, 0, 'g1'), arg(c, W, uid, 1, 'g2')], dict(env))):
                    raise Fail('direction', 'a directed and an undirected graph may compare equal')
                return UNIT
            R.run(tag + ' direction', uid, c, th)

# ---------------------------------------------------------------- C22
def hash_model(c):
    def h(cc, a, ta):
        cc.ops.append(('hash', cc.deep(cc.strip(a[0]))))
        return UNIT
    c.overrides[HASH + '::hash'] = lambda cc, a, ta: h(cc, a, ta) if gid(cc, a[0]) is None else NotImplemented
    c.overrides[HASH + '::hash_slice'] = h

def spare(t):
    if contains(t, lambda u: u[0] == 'sym' and isinstance(u[1], str) and u[1].startswith('cap%')):
        raise Fail('uncompared', 'the hash covers the room kept for further elements, which equality does not compare')

ALLOWED_IT = {'gnodes', 'gedges', 'gnbrs', 'ginnbrs'}
def walk_hash(c, t, inside=False):
    """the hashed value is determined by what equality compares: raises Fail / Undecided otherwise"""
    if not isinstance(t, tuple) or not t: return
    if isinstance(t[0], tuple):
        for x in t: walk_hash(c, x)
        return
    o = t[0]
    if o == 'sym': spare(t)
    if o in ('nlid', 'elid'): raise Fail('internal-numbering', 'the hash covers the internal number of a label')
    if o in ('maxid',): raise Fail('unrelated-state', 'the hash covers the largest id seen, which equality does not compare')
    if o in ('fld', 'vf') and internals(None, t):
        f = t
        while f[0] != 'fld' or f[1][0] != 'G': f = f[1]
        k = getattr(c, 'gfields', {}).get(f[2])
        if k == 'max': raise Fail('unrelated-state', 'the hash covers the largest id seen, which equality does not compare')
        if k == 'table': raise Fail('internal-numbering', 'the hash covers the label table, whose order and unused labels equality does not compare')
        if k == 'count': return
        raise Undecided('hashes the representation')
    if o == 'vcoll':
        if t[2] == 'seq' and getattr(c, 'canonical', False): walk_hash(c, t[1]); return
        if t[2] in ('seq', '?') and len(comp_sources(t[1])) : raise Fail('order', 'the hash covers elements in storage order')
        if t[2] not in ('sorted', 'seq') and t[2] != ('rev', 'sorted'): raise Undecided('order of hashed elements: %s' % (t[2],))
        walk_hash(c, t[1]); return
    if o == 'it': raise Undecided('hashes an iterator')
    for x in t[1:]:
        if isinstance(x, tuple): walk_hash(c, x)

def comp_sources(comp):
    """the comprehension ranges over elements of a graph"""
    out = []
    def f(t):
        if t[0] in ('N', 'E'): out.append(t)
        return False
    contains(comp, f)
    return out

def walk_ops(c, ops):
    for o in ops:
        if o[0] == 'hash': walk_hash(c, o[1])
        elif o[0] == 'each':
            hashed = any(x[0] in ('hash', 'each') for alt in o[1] for x in alt[2])
            if hashed:
                order = o[2] if len(o) > 2 else 'seq'
                if order == 'seq' and getattr(c, 'canonical', False): order = 'sorted'
                if order in ('seq', '?'): raise Fail('order', 'the elements are hashed one after the other in storage order')
                if order not in ('sorted', ('rev', 'sorted')): raise Undecided('order of hashed elements: %s' % (order,))
            for vs, gs, sub in o[1]:
                for a, b in gs: walk_hash(c, a)
                walk_ops(c, sub)
        elif o[0] in ('some', 'loop'): raise Undecided('hash stops early')

def c22(R, W):
    F = W.F
    eqs = {im['self']: im for im in F.by_trait.get(EQ, []) if im['id'] in F.impls}
    seen = set()
    for im in F.by_trait.get(HASH, []):
        if im['id'] not in F.impls: continue
        t = F.ty(im['self'])
        e = eqs.get(im['self'])
        if e is None:
            cand = [x for k, x in eqs.items() if head_of(unbox(F.ty(k))) == head_of(unbox(t)) and F.ty(k)[0] == t[0]]
            if not cand: continue
            e = cand[0]
        h = head_of(unbox(t)); label = F.defs[h]['name'] if h in F.defs else str(h).split('::')[-1]
        seen.add(label)
        hu = dict((nm, u) for nm, u, _ in im['items']).get('hash'); eu = dict((nm, u) for nm, u, _ in e['items']).get('eq')
        ob = 'hash %s' % label
        if is_graph(W, t):
            for im2, _, dirs in graph_impls(W, HASH):
                if im2['id'] != im['id']: continue
                if im.get('derived'):
                    if e.get('derived'): R.ok(ob, hu or im['id'], 'both derived: the hash covers exactly the compared fields')
                    else: R.bad(ob + '/derived', hu or im['id'], 'the hash is derived over the representation while equality compares nodes, edges and labels', R.spanof(hu) if hu else '')
                    continue
                for d, env in dirs: graph_hash(R, W, ob, hu, d, env)
            continue
        if im.get('derived') and e.get('derived'):
            R.ok(ob, hu or im['id'], 'both derived: the hash covers exactly the compared fields'); continue
        if e.get('derived'):
            R.ok(ob, hu or im['id'], 'equality is derived over all fields, so equal values have the same representation'); continue
        value_hash(R, W, ob, h, hu if hu in F.bodies else None, eu, im.get('derived'))
    for nm in ('TypedGraphMap', 'TypedStaticGraph', 'GeneralGraph', 'SetMap', 'VecMap', 'EdgeVec'):
        if nm not in seen: R.und('hash %s' % nm, None, 'type does not have both comparison and hashing')

def graph_hash(R, W, ob, uid, d, env):
    c = gctx(W, {'g1': d}); hash_model(c)
    h = W.F.defs[uid].get('impl_self')
    # a read-only graph lists its nodes and edges in ascending order (C09, C11): its order is no storage order
    c.canonical = h in W.F.defs and W.F.defs[h]['name'] == 'TypedStaticGraph'
    c.gfields = gkinds(W, h)
    def th():
        l = c.alloc(('sym', 'hasher'), 'h')
        c.call_uid(uid, [arg(c, W, uid, 0, 'g1'), ('ref', l, ())], dict(env))
        for a, b, w in c.facts.log:
            if w == 'axiom': continue
            walk_hash(c, a)
        walk_ops(c, c.ops)
        return UNIT
    R.run('%s<%s>' % (ob, 'Directed' if d else 'Undirected'), uid, c, th)

def value_hash(R, W, ob, adt, hu, eu, derived):
    """a value type with hand-written equality: what makes two values equal determines the hash"""
    from core import Ctx
    F = W.F
    fields = F.adts[adt]['variants'][0]['f']
    def value(n): return ('adt', adt, 0, tuple(('sym', '%s.%d?' % (n, i)) for i in range(len(fields))))
    # how equality sees the fields
    c = Ctx(F); c.models = dict(models.M)
    ordered = []
    def th():
        a, b = c.alloc(value('a'), 'a'), c.alloc(value('b'), 'b')
        if not c.decide(c.call_uid(eu, [('ref', a, ()), ('ref', b, ())], {})): return UNIT
        same = set()
        for i in range(len(fields)):
            fa, fb = ('sym', 'a.%d?' % i), ('sym', 'b.%d?' % i)
            sub_ = lambda t: replace(t, {fb: fa})
            for at, v, w in c.facts.log:
                if not v: continue
                if at[0] == 'seqeq' and alpha(sub_(at[1])) == alpha(sub_(at[2])) and at[1] != at[2] and contains(at[1], lambda t: t in (fa, fb)): same.add((i, 'seq'))
                if at[0] == 'eq' and {at[1], at[2]} == {fa, fb}: same.add((i, 'seq' if head_of(F.ty(fields[i]['t'])).endswith('vec::Vec') else 'set'))
        return ('tup', tuple(sorted(same)))
    try: outs = c.explore(th)
    except Undecided as u: R.und(ob, eu, str(u.why)); return
    eqs = None
    for v, s in outs:
        if isinstance(v, Exception): R.und(ob, eu, 'equality: %s' % getattr(v, 'why', v)); return
        if v == UNIT: continue
        e = dict(v[1])
        eqs = e if eqs is None else {k: (x if eqs[k] == x else 'set') for k, x in e.items() if k in eqs}
    R.functions |= {R.cn(u) for u in c.visited}
    if eqs is None: R.und(ob, eu, 'equality never holds'); return
    if hu is None:
        if all(eqs.get(i) for i in range(len(fields))): R.ok(ob, eu, 'equality implies equal fields')
        else: R.bad(ob + '/derived', eu, 'the hash is derived over all fields, equality does not compare all of them', R.spanof(eu))
        return
    c2 = Ctx(F); c2.models = dict(models.M); hash_model(c2)
    def fields_of(t):
        out = set()
        contains(t, lambda x: out.add(int(x[1][2:-1])) if x[0] == 'sym' and isinstance(x[1], str) and x[1].startswith('a.') and x[1].endswith('?') else False)
        return out
    def check(ops):
        for o in ops:
            if o[0] == 'hash':
                spare(o[1])
                for i in fields_of(o[1]):
                    if i not in eqs: raise Fail('uncompared', 'the hash covers %s, which equality does not compare' % fields[i]['n'])
                    if eqs[i] == 'set' and contains(o[1], lambda t: t[0] in ('vcoll', 'sget')): raise Fail('order', 'the hash depends on the order of %s, equality does not' % fields[i]['n'])
            elif o[0] == 'each':
                for vs, gs, sub_ in o[1]:
                    for i in fields_of(gs):
                        if i not in eqs: raise Fail('uncompared', 'the hash covers %s, which equality does not compare' % fields[i]['n'])
                        if eqs[i] == 'set' and any(x[0] == 'hash' for x in sub_): raise Fail('order', 'the elements of %s are hashed in order, but equality ignores the order' % fields[i]['n'])
                    check(sub_)
            else: raise Undecided('hash stops early')
    def th2():
        a = c2.alloc(value('a'), 'a'); l = c2.alloc(('sym', 'hasher'), 'h')
        c2.call_uid(hu, [('ref', a, ()), ('ref', l, ())], {})
        check(c2.ops)
        return UNIT
    R.run(ob, hu, c2, th2)

def alpha(t):
    """bound variables renamed in order of appearance"""
    m = {}
    def f(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'sym' and isinstance(x[1], str) and '%' in x[1]:
                return ('sym', m.setdefault(x[1], 'v%d' % len(m)))
            return tuple(f(y) for y in x)
        return x
    return f(t)
