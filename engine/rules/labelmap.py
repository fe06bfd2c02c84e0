"""C32: label maps, for an arbitrary map of distinct items: indices and items are in bijection, additions append, nothing moves."""
from terms import *
from world import *
from report import *
from rules.ids import id_ctx
from rules.equality import refute
import models
from models import opt, vget, vlen, sget, slen, shas, own_it, comp_of

X, I_, J = ('sym', 'x'), ('sym', 'i?'), ('sym', 'j?')
ISET, VEC = 'indexmap::set::IndexSet', 'alloc::vec::Vec'
L = ('param', 'L')

def subject(W): return W

class Dom:
    """the items of the map under analysis are distinct"""
    def __init__(self, items): self.items = items
    def simp(self, t, fs): return t
    def lookup(self, at, fs):
        if at[0] == 'eq' and at[1][0] == at[2][0] == 'vget' and at[1][1] == at[2][1] == self.items: return fs.lookup(('eq', at[1][2], at[2][2]))
        return None
    def consequences(self, at, v, fs):
        if at[0] == 'eq' and v and at[1][0] == at[2][0] == 'vget' and at[1][1] == at[2][1] == self.items: return [(('eq', at[1][2], at[2][2]), True)]
        return []
    def decide(self, at, c): return None
    def sub_overflow(self, a, b, c):
        return None

class Map:
    def __init__(self, W, name):
        self.W, self.F, self.name = W, W.F, name
        self.uid = W.adt(name)
        fs = W.F.adts[self.uid]['variants'][0]['f']
        if len(fs) != 1: raise Missing('%s with one field' % name)
        t = W.F.ty(fs[0]['t'])
        self.head = head_of(t)
        if self.head not in (ISET, VEC): raise Missing('items of %s' % name)
        self.src = ('sym', 'S' if self.head == ISET else 'V')
        self.ty = ('adt', self.uid, (L,))
    def ctx(self):
        c = id_ctx(self.W)
        c.dom = Dom(self.src); c.facts.dom = c.dom
        return c
    def value(self): return ('adt', self.uid, 0, (self.src,))
    def field(self, c, m):
        m = c.strip(m)
        if m[0] != 'adt' or m[1] != self.uid: raise Undecided('value of %s' % self.name)
        return c.norm(m[3][0])
    def len(self, c, m):
        f = self.field(c, m); return c.norm((slen if self.head == ISET else vlen)(c, f))
    def at(self, c, m, i):
        f = self.field(c, m); return c.strip((sget if self.head == ISET else vget)(c, f, i))
    def absent(self, c, x):
        """no item of the map under analysis is x, on this path"""
        if self.head == ISET and c.facts.lookup(c.norm(('in', self.src, x))) is not None: return not shas(c, self.src, x)
        if self.head == VEC and c.facts.lookup(c.norm(('in', self.src, x))) is not None: return not models.vec_has(c, self.src, x)
        s = c.snap()
        def setup():
            c.assume(('lt', J, I(0)), False); c.assume(('lt', J, self.len(c, self.value())), True)
            if self.head == ISET: c.assume(('in', self.src, x), True)
            c.assume(('eq', x, self.at(c, self.value(), J)), True)
        r = refute(c, [J], setup)
        c.restore(s)
        return r
    def method(self, tr, nm):
        return self.W.method(self.ty, tr, nm)

def pre(c, M):
    l = c.alloc(M.value(), 'map')
    return l, ('ref', l, ())

def within(c, i, n):
    c.assume(('lt', i, I(0)), False)
    return c.lt(i, n)

def whole(c, M, l, n, what):
    """same items as before, at their places"""
    m = c.read((l, ()))
    need_eq(c, M.len(c, m), n, 'size', 'number of items after %s' % what)
    same_upto(c, M, m, n, what)
def same_upto(c, M, m, n, what):
    c.assume(('lt', J, I(0)), False)
    if c.lt(J, n): need_eq(c, M.at(c, m, J), M.at(c, M.value(), J), 'moved', 'item j after %s' % what)

def found(c, M, i, x, what):
    need(c, c.lt(i, M.len(c, M.value())) and not c.lt(i, I(0)), 'index', '%s gives an index outside the map' % what)
    need(c, c.eq(M.at(c, M.value(), i), x), 'index', '%s gives the index of another item' % what)

def comp_seq(c, comp, order, ln, at, what):
    """the comprehension lists the source's items in order"""
    if len(comp[1]) != 1: raise Undecided('sequence of %s' % what)
    vs, gs, p = comp[1][0]
    if len(vs) != 1: raise Undecided('sequence of %s' % what)
    c.assume(('lt', J, I(0)), False)
    if not c.lt(J, ln): return
    m = {vs[0]: J}
    for a, b in gs:
        need(c, c.decide_guard(replace(a, m)) == b, 'dropped', 'an item is left out by %s' % what)
    need_eq(c, c.strip(replace(p, m)), at(J), 'order', 'j-th item taken by %s' % what)
    if isinstance(order, tuple) and order[0] == 'rev': raise Fail('order', '%s takes the items backwards' % what)
    if order == 'sorted' or order == 'sortedby': raise Fail('order', '%s sorts the items' % what)
    if order != 'seq': raise Undecided('order of %s' % what)

def built(c, M, r, ln, at, what, distinct):
    """the map built from a source sequence has its items, first occurrences in order"""
    f = M.field(c, r)
    adds = [o for o in c.ops]
    if adds:
        if not c.eq(M.len(c, r), I(0)): raise Undecided('additions to a map that is not empty')
        if len(adds) != 1 or adds[0][0] != 'each' or len(adds[0][1]) != 1: raise Undecided('additions of %s' % what)
        gens, guards, ops = adds[0][1][0]
        if len(ops) != 1 or ops[0][0] != 'oop': raise Undecided('additions of %s' % what)
        return comp_seq(c, ('comp', ((gens, guards, ops[0][3][0]),)), adds[0][2], ln, at, what)
    raw = M.head == VEC
    if f[0] == 'scoll': return comp_seq(c, f[1], f[2] if len(f) > 2 else 'seq', ln, at, what)
    if f[0] == 'sempty' or f == ('arr', ()): raise Fail('dropped', '%s gives an empty map' % what)
    if f[0] == 'vcoll' :
        comp_seq(c, f[1], f[2], ln, at, what)
        if not distinct: raise Fail('duplicates', '%s keeps repeated items' % what)
        return
    if f[0] in ('sym', 'fld', 'vget'):
        need_eq(c, M.len(c, r), ln, 'size', 'number of items made by %s' % what)
        same = within(c, J, ln)
        if same: need_eq(c, M.at(c, r, J), at(J), 'order', 'j-th item made by %s' % what)
        if not distinct and raw: raise Fail('duplicates', '%s keeps repeated items' % what)
        return
    raise Undecided('map made by %s: %s' % (what, show(f)[:80]))

def c32(R, W):
    F = W.F
    maps = []
    for n in ('SetMap', 'VecMap'):
        try: maps.append(Map(W, n))
        except Missing as e: R.und(n, None, 'missing: %s' % e)
    for M in maps: one(R, W, F, M, maps)

def one(R, W, F, M, maps):
    def go(nm, tr, body, ob=None):
        try: uid, env = M.method(tr, nm)
        except Missing as e: R.und('%s: %s' % (M.name, nm), None, str(e)); return
        c = M.ctx()
        R.run('%s: %s' % (M.name, ob or nm), uid, c, lambda: body(c, lambda *a: c.call_uid(uid, list(a), dict(env))) or UNIT)
    def get_item(c, call):
        l, r = pre(c, M); n = M.len(c, M.value())
        ok = within(c, I_, n)
        s, p = opt(c, call(r, I_))
        need(c, s == ok, 'range', 'get_item(i) is %s for %s' % ('Some' if s else 'None', 'i < len' if ok else 'i >= len'))
        if s: need_eq(c, c.strip(p), M.at(c, M.value(), I_), 'item', 'get_item(i)')
    go('get_item', 'MapTrait', get_item)
    def find_index(c, call):
        l, r = pre(c, M)
        s, p = opt(c, call(r, ('rv', X)))
        if s: found(c, M, p, X, 'find_index(x)')
        else: need(c, M.absent(c, X), 'missed', 'find_index(x) is None although x is an item')
    go('find_index', 'MapTrait', find_index)
    def contains(c, call):
        l, r = pre(c, M)
        if c.decide(call(r, ('rv', X))):
            need(c, not M.absent(c, X), 'contains', 'contains(x) although no item is x')
        else: need(c, M.absent(c, X), 'contains', 'not contains(x) although x is an item')
    go('contains', 'MapTrait', contains)
    def items(c, call):
        l, r = pre(c, M); it = call(r)
        comp = comp_of(c, own_it(c, it))
        comp_seq(c, comp, models.iter_order(c, it), M.len(c, M.value()), lambda j: M.at(c, M.value(), j), 'items()')
    go('items', 'MapTrait', items)
    def items_vec(c, call):
        v = c.strip(call(M.value())); n = M.len(c, M.value())
        if v[0] == 'vcoll': return comp_seq(c, v[1], v[2], n, lambda j: M.at(c, M.value(), j), 'items_vec()')
        need_eq(c, vlen(c, v), n, 'size', 'number of items of items_vec()')
        if within(c, J, n): need_eq(c, c.strip(vget(c, v, J)), M.at(c, M.value(), J), 'order', 'j-th item of items_vec()')
    go('items_vec', 'MapTrait', items_vec)
    def ln(c, call):
        l, r = pre(c, M); need_eq(c, call(r), M.len(c, M.value()), 'size', 'len()')
    go('len', 'MapTrait', ln)
    def empty(c, call):
        l, r = pre(c, M); e = c.eq(M.len(c, M.value()), I(0)); need_eq(c, call(r), B(e), 'size', 'is_empty()')
    go('is_empty', 'MapTrait', empty)
    def add_item(c, call):
        l, r = pre(c, M); n = M.len(c, M.value())
        i = call(r, X); m = c.read((l, ()))
        k = M.len(c, m)
        same_upto(c, M, m, n, 'add_item(x)')
        if c.eq(k, n): found(c, M, i, X, 'add_item(x)')
        else:
            need_eq(c, k, add(n, I(1)), 'size', 'number of items after add_item of a new item')
            need(c, M.absent(c, X), 'duplicate', 'add_item(x) appends an item that is already there')
            need_eq(c, M.at(c, m, n), X, 'item', 'last item after add_item(x)')
            need_eq(c, i, n, 'index', 'index given by add_item of a new item')
    go('add_item', 'MutMapTrait', add_item)
    def pop_item(c, call):
        l, r = pre(c, M); n = M.len(c, M.value())
        s, p = opt(c, call(r)); m = c.read((l, ()))
        e = c.eq(n, I(0))
        need(c, s == (not e), 'item', 'pop_item() is %s on %s map' % ('Some' if s else 'None', 'an empty' if e else 'a non-empty'))
        if e: need_eq(c, M.len(c, m), I(0), 'size', 'number of items after pop_item()'); return
        need_eq(c, c.strip(p), M.at(c, M.value(), sub(n, I(1))), 'item', 'pop_item()')
        need_eq(c, M.len(c, m), sub(n, I(1)), 'size', 'number of items after pop_item()')
        same_upto(c, M, m, sub(n, I(1)), 'pop_item()')
    go('pop_item', 'MutMapTrait', pop_item)
    # constructors and resets
    for nm, args in (('new', []), ('with_capacity', [('sym', 'cap')]), ('clear', None), ('shrink_to_fit', None)):
        try: uid = W.inherent(M.uid, nm)
        except Missing: continue
        c = M.ctx()
        def body(c=c, uid=uid, nm=nm, args=args):
            if args is not None:
                need_eq(c, M.len(c, c.call_uid(uid, list(args), {})), I(0), 'size', 'number of items of a new map')
                return UNIT
            l, r = pre(c, M); n = M.len(c, M.value()); c.call_uid(uid, [r], {})
            if nm == 'clear': need_eq(c, M.len(c, c.read((l, ()))), I(0), 'size', 'number of items after clear()')
            else: whole(c, M, l, n, nm + '()')
            return UNIT
        R.run('%s: %s' % (M.name, nm), uid, c, body)
    for im in F.by_trait.get('core::default::Default', []):
        if im['id'] in F.impls and head_of(F.ty(im['self'])) == M.uid:
            uid = dict((a, b) for a, b, _ in im['items'])['default']
            c = M.ctx()
            R.run('%s: default' % M.name, uid, c, lambda c=c, uid=uid: need_eq(c, M.len(c, c.call_uid(uid, [], {})), I(0), 'size', 'number of items of a default map') or UNIT)
    # building a map from a sequence or from the other map
    def build(uid, arg, env, ln, at, what, distinct, src=None):
        c = (src or M).ctx()
        mt = W.trait('MutMapTrait')
        def addi(cc, a, ta):
            cc.ops.append(('oop', 'map', 'add', (cc.strip(a[1]),))); return cc.fresh()
        c.overrides[mt + '::add_item'] = addi
        def body():
            r = c.call_uid(uid, [arg(c)], dict(env))
            built(c, M, r, ln(c), lambda j: at(c, j), what, distinct)
            return UNIT
        R.run('%s: %s' % (M.name, what), uid, c, body)
    A = ('sym', 'A')
    vecs = dict(ln=lambda c: vlen(c, A), at=lambda c, j: c.strip(vget(c, A, j)), distinct=False)
    try: build(W.inherent(M.uid, 'from_vec'), lambda c: A, {}, what='from_vec', **vecs)
    except Missing: pass
    for im in F.by_trait.get('core::iter::traits::collect::FromIterator', []):
        if im['id'] in F.impls and head_of(F.ty(im['self'])) == M.uid:
            uid = dict((a, b) for a, b, _ in im['items'])['from_iter']
            gs = [g for g in F.defs[uid].get('generics', []) if g != 'L']
            build(uid, lambda c: A, {g: ('adt', VEC, (L,)) for g in gs}, what='from_iter', **vecs)
    for im in F.by_trait.get('core::convert::From', []):
        if im['id'] not in F.impls or head_of(F.ty(im['self'])) != M.uid: continue
        uid = dict((a, b) for a, b, _ in im['items'])['from']
        t = F.ty(F.bodies[uid]['locals'][1]); by = ''
        if t[0] == 'ref': t = t[2]; by = '&'
        h = head_of(t)
        wrap = (lambda c, v: ('ref', c.alloc(v, 'src'), ())) if by else (lambda c, v: v)
        if h == VEC: build(uid, lambda c, wrap=wrap: wrap(c, A), {}, what='from(%sVec)' % by, **vecs)
        elif h in [o.uid for o in maps]:
            o = [o for o in maps if o.uid == h][0]
            build(uid, lambda c, wrap=wrap, o=o: wrap(c, o.value()), {}, ln=lambda c, o=o: o.len(c, o.value()), at=lambda c, j, o=o: o.at(c, o.value(), j), what='from(%s%s)' % (by, o.name), distinct=True, src=o)
        else: R.und('%s: from' % M.name, F.cn(uid), 'conversion from %s' % (t,))
