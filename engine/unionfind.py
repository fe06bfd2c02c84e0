"""A map id -> parent id read as a union-find forest.
The map is a logged object ('obj','uf',P): what it is before is arbitrary (any forest); inserts are classified, in the state
they meet, as a new singleton, a new node attached, a root linked below another root, or a re-parenting inside the tree
(path compression).  Anything else breaks the forest.  The partition afterwards is computed from the log."""
from terms import *
from core import Ctx, LoopSummary, Inductive
import models
from models import base, new_elem
from absgraph import instances, sub_ops
from objlog import obj, mine
from report import OPAQUE

H = 'std::collections::hash::map::HashMap::'
KEEP = ('halve', 'havoc')                      # do not change the partition

def ulog(c, n, kind, *args): c.ops.append(('oop', n, kind, tuple(args)))
def uchanges(o, n):
    if o[0] == 'oop': return o[1] == n and o[2] not in KEEP
    return any(uchanges(x, n) for x in sub_ops(o))

def shape_anc(x): return x[0] in ('par', 'sib')

def at(c, n, i=None): return len(c.ops) if i is None else i

def member(c, n, x, i=None, ask=True):
    """is x a key after the first i logged operations (None: unknown, when ask is False)"""
    i = at(c, n, i); x = c.norm(x)
    if x[0] in ('par', 'sib', 'root') and x[1] == n: return True
    dec = (lambda a: c.decide(a)) if ask else (lambda a: c.known(a))
    eq = (lambda a, b: c.eq(a, b)) if ask else (lambda a, b: True if c.norm(a) == c.norm(b) else c.known(('eq', a, b)))
    unk = False
    for j in range(i - 1, -1, -1):
        o = c.ops[j]
        if not uchanges(o, n): continue
        if o[0] == 'oop':
            if o[2] == 'clear': return None if unk else False
            ks = {'single': o[3][:1], 'attach': o[3][:1], 'edge': o[3], 'link': ()}[o[2]]
            for k in ks:
                r = eq(k, x)
                if r: return True
                if r is None: unk = True
            continue
        if not ask: unk = True; continue
        if o[0] == 'some': raise Undecided('loop left early')
        if o[0] != 'each': raise Undecided('forest changed in an unsummarised loop')
        for vs, gs, ops in o[1]:
            for y in ops:
                if not uchanges(y, n): continue
                if y[0] != 'oop': raise Undecided('nested loop over a forest')
                for k in {'single': y[3][:1], 'attach': y[3][:1], 'edge': y[3], 'link': ()}.get(y[2], ()):
                    if instances(c, (vs, gs, None), k, x) is not None: return True
    if n in c.uf_fresh: return None if unk else False
    r = dec(('mem', n, x))
    return None if unk and not r else r

def root(c, n, x, i=None):
    """root of a key after the first i operations"""
    i = at(c, n, i); x = c.norm(x)
    if shape_anc(x) and x[1] == n:
        if i < x[2]: raise Undecided('parent read later')
        return root(c, n, x[3], i)
    for j in range(i - 1, -1, -1):
        o = c.ops[j]
        if not uchanges(o, n): continue
        if o[0] != 'oop': raise Undecided('root after a loop that changes the forest')
        k, a = o[2], o[3]
        if k == 'single':
            if c.eq(a[0], x): return c.norm(x)
        elif k == 'attach':
            if c.eq(a[0], x): return root(c, n, a[1], j)
        elif k == 'link':
            r = root(c, n, x, j)
            return root(c, n, a[1], j) if c.eq(r, a[0]) else r
        elif k == 'edge': raise Undecided('root after an abstract edge')
        elif k == 'clear': raise Infeasible()
    if x[0] == 'root' and x[1] == n: return x
    if c.decide(('isroot', n, x)): return x
    r = c.norm(('root', n, x))
    c.assume(('eq', r, x), False)
    return c.norm(r)

def parent(c, n, x):
    """what the map holds for a key"""
    x = c.norm(x)
    r = root(c, n, x)
    if c.eq(r, x): return c.norm(x)
    ver = 0
    for j in range(len(c.ops) - 1, -1, -1):
        o = c.ops[j]
        if not mine(o, n): continue
        if o[0] != 'oop': ver = j + 1; break
        if o[2] == 'havoc': ver = j + 1; break
        if o[2] in ('attach', 'link', 'halve') and c.eq(o[3][0], x): return c.norm(o[3][1])
    p = c.norm(('par', n, ver, x))
    c.assume(('eq', p, x), False)
    return c.norm(p)

def above(c, n, v, k):
    """v is known to be a strict ancestor of the non-root k"""
    if c.norm(v) == c.norm(root(c, n, k)): return True
    v = c.norm(v)
    for _ in range(6):
        if v[0] != 'par' or v[1] != n: return False
        if c.norm(v[3]) == c.norm(k): return True
        v = c.norm(v[3])
    return False

def insert(c, n, k, v):
    k = c.norm(k); v = c.norm(v)
    if not member(c, n, k):
        if c.eq(k, v): ulog(c, n, 'single', k); return NONE
        if member(c, n, v): ulog(c, n, 'attach', k, v); return NONE
        raise Fail('forest', 'a node is stored below a parent that is not in the table')
    old = ('sym', 'old%d' % len(c.ops))
    r = root(c, n, k)
    if c.eq(r, k):
        if c.eq(v, k): return some(old)
        if not member(c, n, v): raise Fail('forest', 'a root is stored below a parent that is not in the table')
        if c.eq(root(c, n, v), k): raise Fail('forest', 'a root is stored below a node of its own tree (cycle)')
        ulog(c, n, 'link', k, v); return some(old)
    if above(c, n, v, k): ulog(c, n, 'halve', k, v); return some(old)
    if c.eq(v, k): raise Fail('forest', 'a node below another one becomes a root: its component is split')
    if not member(c, n, v): raise Fail('forest', 'a node is stored below a parent that is not in the table')
    if not c.eq(root(c, n, v), r): raise Fail('forest', 'part of a tree moves to another component')
    raise Undecided('re-parenting inside a tree')

def delta(c, n, lo=0):
    """change of the number of components over the operations"""
    d = I(0)
    for o in c.ops[lo:]: d = add(d, delta1(c, n, o))
    return c.norm(d)
def delta1(c, n, o):
    if not uchanges(o, n): return I(0)
    if o[0] == 'oop':
        return {'single': I(1), 'attach': I(0), 'link': I(-1)}[o[2]] if o[2] in ('single', 'attach', 'link') else ('edelta',) + tuple(c.norm(x) for x in o[3])
    if o[0] == 'each': return gsum([(vs, gs, sumof(c, n, ops)) for vs, gs, ops in o[1]])
    raise Undecided('component count over an unsummarised loop')
def sumof(c, n, ops):
    d = I(0)
    for o in ops: d = add(d, delta1(c, n, o))
    return d
def gsum(alts):
    alts = [a for a in alts if a[2] != I(0)]
    if not alts: return I(0)
    return ('csum', models.mk_comp([(vs, gs, p) for vs, gs, p in alts]))

class UFLoop(LoopSummary):
    """a loop over an iterator: a counter that follows the number of components is summarised as such"""
    def summarise(self, k, init, hv, backs, news, alts, simple):
        c = self.c
        if simple and c.uf_count is not None and k == c.uf_count[0]:
            n = c.uf_count[1]; nops = len(c.ops)
            ok = True
            for (v, s), nw in zip(backs, news):
                d = I(0)
                for o in s[5][nops:]: d = add(d, delta1(c, n, o))
                got = c.norm(sub(nw, hv))
                if got != c.norm(d):
                    if contains(got, lambda t: t[0] in OPAQUE or t[0] in ('lv', 'card', 'len')): return LoopSummary.summarise(self, k, init, hv, backs, news, alts, simple)
                    raise Fail('count', 'one iteration changes the component count by %s while the number of components changes by %s' % (show(got)[:60], show(c.norm(d))[:60]))
            g = gsum([(vs, gs, sumof(c, n, tuple(s[5][nops:]))) for vs, gs, s in alts])
            return add(init, g)
        return LoopSummary.summarise(self, k, init, hv, backs, news, alts, simple)
    def outcomes(self, outs, havoc):
        # what an iteration breaks when it is the first one, it breaks
        c = self.c
        for k, hv in havoc.items():
            if not (hv[0] == 'it' or self.has_iter(hv) or (c.uf_count is not None and k == c.uf_count[0])): return
        for v, s in outs:
            if isinstance(v, Fail): c.restore(s); raise v
    def run(self):
        c = self.c
        r = LoopSummary.run(self)
        for o in c.ops:
            if o[0] in ('each', 'some'): independent(c, o)
        return r

def independent(c, o):
    """an iteration may read what others change only at its own key"""
    for n in list(c.uf_names):
        if not any(uchanges(x, n) for alt in o[1] for x in alt[2]): continue
        for vs, gs, ops in o[1]:
            rds = [x for x in flat(ops) if x[0] == 'rdm' and x[1] == n]
            chg = [x for x in flat(ops) if x[0] == 'oop' and x[1] == n and x[2] not in KEEP]
            if any(x[0] == 'rdr' and x[1] == n for x in flat(ops)): raise Undecided('roots read in a loop that changes the forest')
            if all(x[2] == 'edge' for x in chg) and not rds: continue
            if len(vs) != 1: raise Undecided('loop over a forest')
            for x in rds:
                if x[2] != vs[0]: raise Undecided('membership read in a loop that changes it')
            for x in chg:
                if x[2] != 'single' or x[3][0] != vs[0]: raise Undecided('loop that changes a forest')

def flat(ops):
    for o in ops:
        yield o
        yield from flat(sub_ops(o))

class UFWhile(Inductive):
    """a loop that walks the forest: ids it changes stay in the component of their initial value (checked on every iteration)"""
    def __init__(self, fr, H_, outer):
        Inductive.__init__(self, fr, H_, outer, self.hv, self.start)
        self.mark = None
    def hv(self, c, l, p, init, i):
        for n in c.uf_names:
            if init[0] != 'it' and member(c, n, init, ask=False):
                return ('sib', n, len(c.ops) + len(c.uf_names), ('key', i, init)[2]) if False else c.norm(('sib', n, len(c.ops) + len(c.uf_names), init, i))
        if init[0] == 'it': raise Undecided('iterator in a forest walk')
        return c.fresh()
    def start(self, c, havoc, init):
        self.nops = len(c.ops)
        for n in c.uf_names: ulog(c, n, 'havoc')
    def run(self):
        r0 = None
        c = self.c
        self.check_pending = True
        r = Inductive.run(self)
        return r
    def resume(self, o):
        # first the iteration: its invariant
        c = self.c; S = c.snap(); tr = (c.trace, c.pos, c.pending)
        for v, s in self.backs:
            for k, hv in self.havoc.items():
                if hv[0] != 'sib': continue
                n = hv[1]
                def th(k=k, hv=hv, n=n):
                    nw = c.read(k)
                    if not member(c, n, nw): raise Fail('walk', 'a walk up the forest leaves the table')
                    if not c.eq(root(c, n, nw), root(c, n, hv)): raise Fail('walk', 'a walk up the forest leaves the component')
                    return UNIT
                c.restore(s)
                for v2, s2 in c.explore(th):
                    if isinstance(v2, (Fail, Undecided)): c.restore(S); raise Undecided('walk over a forest: %s' % v2)
            if all(self.at(s[0], k) == hv for k, hv in self.havoc.items()) and len(s[5]) == self.nops + len(c.uf_names):
                c.restore(S)
                raise Fail('terminates', 'a walk up the forest does not advance')
            for o2 in s[5][self.nops:]:
                if any(uchanges(o2, n) for n in c.uf_names): c.restore(S); raise Undecided('a walk that changes components')
        c.restore(S)
        return Inductive.resume(self, o)

def has_next(c, fr, H_):
    for bb in fr.loops[H_]:
        t = fr.b['bbs'][bb][1]
        if t[0] == 'call' and t[1][0] == 'k':
            ft = c.F.ty(t[1][1]['t'])
            if ft[0] == 'fndef' and c.F.cn(ft[1]).endswith('Iterator::next'): return True
    return False

def hook(fr, H_, outer):
    c = fr.c
    u = models.unroll_hook(fr, H_, outer)
    if u is not None: return u
    if has_next(c, fr, H_): return UFLoop(fr, H_, outer)
    return UFWhile(fr, H_, outer)

def _om_has(c, n, k):
    k = c.norm(c.strip(k)); c.ops.append(('rdm', n, k)); return member(c, n, k)
def _om_val(c, n, k):
    k = c.norm(c.strip(k)); c.ops.append(('rdr', n)); return parent(c, n, k)
def _om_ins(c, n, k, v): insert(c, n, c.norm(c.strip(k)), c.norm(c.strip(v)))
def _om_rem(c, n, k): raise Undecided('removal from a forest')
models.OBJMAPS['uf'] = (_om_has, _om_val, _om_ins, _om_rem)

def install(c, names=()):
    """names: forests that exist before the analysed call"""
    ov = c.overrides
    c.uf_fresh = set(); c.uf_names = list(names); c.uf_count = None
    ps, pr = c.snap_extra, getattr(c, 'restore_extra', None)
    c.snap_extra = lambda: (ps() if ps else None, set(c.uf_fresh), list(c.uf_names))
    def rs(x):
        if pr and x[0] is not None: pr(x[0])
        c.uf_fresh = set(x[1]); c.uf_names = list(x[2])
    c.restore_extra = rs
    c.loophook = hook
    def fresh(cc, a, ta):
        cc.cnt += 1
        n = 'uf%d' % cc.cnt; cc.uf_fresh.add(n); cc.uf_names.append(n)
        return ('obj', 'uf', n)
    for nm in ('new', 'with_capacity', 'with_capacity_and_hasher', 'default'): ov[H + nm] = fresh
    def mapdefault(cc, a, ta):
        return fresh(cc, a, ta) if ta and ta[0][0] == 'adt' and ta[0][1].endswith('::HashMap') else NotImplemented
    ov['core::default::Default::default'] = mapdefault
    # interior mutability is transparent: whether a borrow can fail is decided by C30
    RC = 'core::cell::RefCell::'
    ov[RC + 'new'] = lambda cc, a, ta: a[0]
    for nm in ('borrow', 'borrow_mut', 'get_mut'): ov[RC + nm] = lambda cc, a, ta: a[0]
    ov[RC + 'into_inner'] = lambda cc, a, ta: a[0]
    def on(f):
        def h(cc, a, ta):
            n = obj(cc, a[0], 'uf')
            if n is None: return NotImplemented
            return f(cc, n, a, ta)
        return h
    def key(cc, v): return cc.norm(cc.strip(v))
    def rdm(cc, n, k): cc.ops.append(('rdm', n, cc.norm(k)))
    def rdr(cc, n): cc.ops.append(('rdr', n))
    def contains_key(cc, n, a, ta):
        k = key(cc, a[1]); rdm(cc, n, k); return B(member(cc, n, k))
    def get(cc, n, a, ta):
        k = key(cc, a[1]); rdm(cc, n, k)
        if not member(cc, n, k): return NONE
        rdr(cc, n)
        return some(('rv', parent(cc, n, k)))
    def index(cc, n, a, ta):
        k = key(cc, a[1]); rdm(cc, n, k)
        if not member(cc, n, k): raise Panic('index of an absent node', cc.span())
        rdr(cc, n)
        return ('rv', parent(cc, n, k))
    def ins(cc, n, a, ta):
        k = key(cc, a[1]); rdm(cc, n, k)
        return insert(cc, n, k, key(cc, a[2]))
    def clear(cc, n, a, ta): ulog(cc, n, 'clear'); return UNIT
    def noop(cc, n, a, ta): return UNIT
    def keys(cc, n, a, ta): return base('ufkeys', (n, len(cc.ops), 'k'))
    def pairs(cc, n, a, ta): rdr(cc, n); return base('ufkeys', (n, len(cc.ops), 'kv'))
    def length(cc, n, a, ta): return ('ufcard', n, len(cc.ops))
    def bad(what):
        def f(cc, n, a, ta): raise Undecided('%s on a forest' % what)
        return f
    T = {'contains_key': contains_key, 'get': get, 'insert': ins, 'clear': clear, 'reserve': noop, 'shrink_to_fit': noop, 'keys': keys, 'iter': pairs, 'len': length}
    def entry(cc, n, a, ta):
        pl = models.target(cc, a[0])
        return ('mentry', pl[0], pl[1], key(cc, a[1]), 0)
    def get_mut(cc, n, a, ta):
        k = key(cc, a[1]); rdm(cc, n, k)
        if not member(cc, n, k): return NONE
        pl = models.target(cc, a[0])
        return some(('ref', pl[0], pl[1] + (('mk', k),)))
    T['entry'] = entry; T['get_mut'] = get_mut
    for nm in ('remove', 'iter_mut', 'values', 'values_mut', 'retain', 'drain', 'is_empty', 'extend', 'remove_entry', 'get_key_value'): T[nm] = bad(nm)
    for nm, f in T.items(): ov[H + nm] = on(f)
    ov['core::ops::index::Index::index'] = on(index)
    ov['core::iter::traits::collect::IntoIterator::into_iter'] = on(pairs)
    ov['core::iter::traits::collect::Extend::extend'] = on(bad('extend'))
    def clone(cc, n, a, ta): raise Undecided('clone of a forest')
    prev = ov.get('core::clone::Clone::clone')
    def cl(cc, a, ta):
        if obj(cc, a[0], 'uf') is not None: raise Undecided('clone of a forest')
        return prev(cc, a, ta) if prev else NotImplemented
    ov['core::clone::Clone::clone'] = cl
    c.models = dict(c.models)
    c.models[('elem', 'ufkeys')] = elem_keys
    c.models[('pureop',)] = lambda cc, o: o[0] in ('rdm', 'rdr') or ('keep' if o[0] == 'oop' and o[2] == 'havoc' else False)
    d0 = c.dom.lookup
    def lookup(a, fs):
        if a[0] == 'eq':
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if x[0] == 'root' and fs.atoms.get(('mem', x[1], y)) is False: return False
                for n in c.uf_names:
                    if fs.atoms.get(('mem', n, x)) is True and fs.atoms.get(('mem', n, y)) is False: return False
                    if fs.atoms.get(('isroot', n, x)) is False and (fs.atoms.get(('isroot', n, y)) is True or y[0] == 'root' and y[1] == n): return False
        if a[0] == 'isroot' and a[2][0] == 'root' and a[2][1] == a[1]: return True
        if a[0] == 'mem' and a[2][0] == 'root' and a[2][1] == a[1]: return True
        return d0(a, fs)
    c.dom.lookup = lookup

def elem_keys(c, it):
    n, upto, form = it[3]
    x = new_elem(c)
    if not member(c, n, x, upto): raise Infeasible()
    if form == 'k': return ('rv', x)
    return ('tup', (('rv', x), ('rv', parent(c, n, x))))
