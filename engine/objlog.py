"""Logged objects: sequences (VecDeque/Vec) and bit sets whose operations are recorded in c.ops as ('oop', name, op, args)
and whose content afterwards is computed from that log, for an arbitrary content beforehand."""
from terms import *
from core import Ctx
import models
from models import base, new_elem, opt, target
from absgraph import instances, sub_ops

V = 'alloc::vec::Vec::'; D = 'alloc::collections::vec_deque::VecDeque::'; S = '[]::'; FB = 'fixedbitset::FixedBitSet::'

def obj(c, r, kind):
    """name of the logged object behind a receiver"""
    v = c.norm(r)
    for _ in range(8):
        if v[0] == 'obj': return v[2] if v[1] == kind else None
        if v[0] in ('ref', 'rv'):
            try: v = c.norm(c.read(c.derefpl(v)))
            except Undecided: return None
            continue
        return None
    return None

def log(c, n, op, *args): c.ops.append(('oop', n, op, tuple(args)))

def mine(o, n):
    if o[0] == 'oop': return o[1] == n
    return any(mine(x, n) for x in sub_ops(o))
def changes(o, n):
    if o[0] == 'oop': return o[1] == n and o[2] not in ('rd', 'get')
    return any(changes(x, n) for x in sub_ops(o))

class Seq:
    """content: front items, the untouched middle part (if any), back items; an item is ('one', t) or ('many', alts)"""
    def __init__(self, fresh):
        self.front = []; self.back = []; self.base = not fresh; self.nf = self.nb = 0
    def flat(self): return self.front + self.back

def seq(c, n):
    s = Seq(n in c.o_fresh)
    for o in c.ops:
        if not changes(o, n): continue
        if o[0] in ('each', 'some'):
            alts = []
            ends = set()
            for vs, gs, ops in o[1]:
                mops = [x for x in ops if mine(x, n)]
                for x in ops:
                    if x[0] != 'oop' and changes(x, n): raise Undecided('nested loop over a sequence')
                for x in mops:
                    if x[2] not in ('pushf', 'pushb'): raise Undecided('loop that reads a sequence it changes' if x[2] == 'rd' else 'loop that does %s' % x[2])
                    ends.add(x[2])
                    alts.append((vs, gs, x[3][0], x[2]))
            for e in ends:
                al = tuple(x[:3] for x in alts if x[3] == e)
                (s.front if e == 'pushf' else s.back).insert(0 if e == 'pushf' else len(s.back), ('many', al, o[0] == 'some'))
            continue
        if o[0] != 'oop': raise Undecided('sequence changed in an unsummarised loop')
        op, a = o[2], o[3]
        if op == 'pushf': s.front.insert(0, ('one', a[0]))
        elif op == 'pushb': s.back.append(('one', a[0]))
        elif op == 'clear': s.front = []; s.back = []; s.base = False
        elif op == 'dropbase': s.base = False
        elif op in ('popf', 'popb'):
            a1, a2 = (s.front, s.back) if op == 'popf' else (s.back, s.front)
            ix = 0 if op == 'popf' else -1
            if a1: a1.pop(ix)
            elif s.base:
                if op == 'popf': s.nf += 1
                else: s.nb += 1
            else: a2.pop(ix)
        else: raise Undecided('sequence operation %s' % op)
    return s

def nonempty(c, n, s):
    if any(x[0] == 'one' for x in s.flat()): return True
    if any(x[0] == 'many' for x in s.flat()): raise Undecided('size of a sequence filled by a loop')
    if not s.base: return False
    if c.decide(('some', n, s.nf, s.nb)): return True
    log(c, n, 'dropbase'); return False

def item(c, n, op, s):
    """the element at one end (sequence not empty)"""
    a1, a2 = (s.front, s.back) if op == 'popf' else (s.back, s.front)
    ix = 0 if op == 'popf' else -1
    for part in (a1, None, a2):
        if part is None:
            if s.base and c.decide(('some', n, s.nf, s.nb)):
                t = ('qitem', n, op[-1], s.nf if op == 'popf' else s.nb)
                h = getattr(c, 'o_item', None)
                if h: h(c, n, t)
                return t
            continue
        if part:
            x = part[ix]
            if x[0] != 'one': raise Undecided('takes from a sequence filled by a loop')
            return x[1]
    raise Undecided('end of a sequence')

def bit(c, n, key, upto=None):
    """value of one bit after the logged operations"""
    ops = c.ops if upto is None else c.ops[:upto]
    key = c.norm(key)
    for i in range(len(ops) - 1, -1, -1):
        o = ops[i]
        if not changes(o, n): continue
        if o[0] in ('each', 'some'):
            independent(c, o, n)
            for vs, gs, aops in o[1]:
                for x in reversed(aops):
                    if not changes(x, n): continue
                    if x[0] != 'oop': raise Undecided('nested loop over a bit set')
                    if x[2] != 'set': raise Undecided('loop that does %s on a bit set' % x[2])
                    m = instances(c, (vs, gs, None), x[3][0], key)
                    if m is not None:
                        if o[0] == 'some' and c.choose(2, 'reached') == 1: continue
                        return truth(c, replace(x[3][1], m))
            continue
        if o[0] != 'oop': raise Undecided('bit set changed in an unsummarised loop')
        op, a = o[2], o[3]
        if op == 'set':
            if c.eq(a[0], key): return truth(c, a[1])
        elif op == 'fill':
            return truth(c, a[0])
        elif op == 'fillr':
            lo, hi, v = a
            if (lo is None or c.le(lo, key)) and (hi is None or c.lt(key, hi)): return truth(c, v)
        else: raise Undecided('bit set operation %s' % op)
    if n in c.o_fresh: return False
    return c.decide(('bit', n, key))

def truth(c, v):
    v = c.norm(v)
    return v[1] if v[0] == 'b' else c.decide(v)

def independent(c, o, n):
    """no iteration of the loop sees a bit another iteration changed: one generator, every access at the same injective key"""
    heads = set(); keys = set(); reads = False
    for vs, gs, ops in o[1]:
        acc = [x for x in ops if x[0] == 'oop' and x[1] == n]
        if any(x[0] != 'oop' and mine(x, n) for x in ops): raise Undecided('nested loop over a bit set')
        if not acc: continue
        if any(x[2] == 'get' for x in acc): reads = True
        if len(vs) != 1:
            if any(x[2] == 'get' for x in acc): raise Undecided('bits read and changed by one loop')
            continue
        v = vs[0]
        for x in acc:
            k = replace(x[3][0], {v: ('sym', 'b%0')}); keys.add(k)
        heads.add(replace(gs[0][0], {v: ('sym', 'b%0')}) if gs else None)
    if not reads: return
    if len(keys) == 1 and len(heads) == 1 and list(keys)[0] in (('sym', 'b%0'), ('idid', ('sym', 'b%0'))): return
    raise Undecided('bits read and changed by one loop')

def install(c, freshobj=True):
    ov = c.overrides
    c.o_fresh = set(getattr(c, 'o_fresh', ()))
    c.o_cap = {}
    prev_snap, prev_rest = c.snap_extra, getattr(c, 'restore_extra', None)
    c.snap_extra = lambda: (prev_snap() if prev_snap else None, set(c.o_fresh), dict(c.o_cap))
    def rs(x):
        if prev_rest and x[0] is not None: prev_rest(x[0])
        c.o_fresh = set(x[1]); c.o_cap = dict(x[2])
    c.restore_extra = rs
    def fresh(kind):
        def f(cc, a, ta):
            cc.cnt += 1
            n = '%s%d' % (kind, cc.cnt); cc.o_fresh.add(n)
            if kind == 'bits': cc.o_cap[n] = cc.norm(a[0])
            return ('obj', kind, n)
        return f
    for p in (V, D):
        ov[p + 'new'] = fresh('seq'); ov[p + 'with_capacity'] = fresh('seq')
    ov[FB + 'with_capacity'] = fresh('bits')
    def on(kind, f):
        def h(cc, a, ta):
            n = obj(cc, a[0], kind)
            if n is None: return NotImplemented
            return f(cc, n, a, ta)
        return h
    def reg(names, kind, f):
        for nm in names: ov[nm] = on(kind, f)
    def push(op):
        def f(cc, n, a, ta): log(cc, n, op, cc.deep(a[1])); return UNIT
        return f
    reg((V + 'push', D + 'push_back'), 'seq', push('pushb'))
    reg((D + 'push_front',), 'seq', push('pushf'))
    def pop(op):
        def f(cc, n, a, ta):
            s = seq(cc, n)
            if not nonempty(cc, n, s): return NONE
            s = seq(cc, n)
            t = item(cc, n, op, s)
            log(cc, n, op); return some(t)
        return f
    reg((V + 'pop', D + 'pop_back'), 'seq', pop('popb'))
    reg((D + 'pop_front',), 'seq', pop('popf'))
    def peek(op):
        def f(cc, n, a, ta):
            log(cc, n, 'rd')
            s = seq(cc, n)
            if not nonempty(cc, n, s): return NONE
            return some(('rv', item(cc, n, op, seq(cc, n))))
        return f
    reg((D + 'front', S + 'first'), 'seq', peek('popf'))
    reg((D + 'back', S + 'last'), 'seq', peek('popb'))
    def empty(cc, n, a, ta):
        log(cc, n, 'rd')
        return B(not nonempty(cc, n, seq(cc, n)))
    reg((V + 'is_empty', D + 'is_empty', S + 'is_empty'), 'seq', empty)
    def length(cc, n, a, ta):
        log(cc, n, 'rd')
        s = seq(cc, n)
        if not nonempty(cc, n, s): return I(0)
        s = seq(cc, n)
        if s.base:
            l = ('qlen', n, s.nf, s.nb); cc.assume(('lt', l, I(1)), False); cc.assume(('eq', l, I(0)), False)
            return add(l, I(len(s.flat())))
        return I(len(s.flat()))
    reg((V + 'len', D + 'len', S + 'len'), 'seq', length)
    def clear(cc, n, a, ta): log(cc, n, 'clear'); return UNIT
    reg((V + 'clear', D + 'clear'), 'seq', clear)
    def noop(cc, n, a, ta): return UNIT
    reg((V + 'reserve', D + 'reserve', V + 'shrink_to_fit', D + 'shrink_to_fit'), 'seq', noop)
    def bad(what):
        def f(cc, n, a, ta): raise Undecided('%s of a logged sequence' % what)
        return f
    reg((V + 'iter', D + 'iter', S + 'iter', V + 'drain', D + 'drain', V + 'truncate', D + 'truncate', D + 'iter_mut', S + 'iter_mut', V + 'append', D + 'append',
         'core::iter::traits::collect::IntoIterator::into_iter', V + 'remove', D + 'insert', D + 'remove', V + 'swap_remove', S + 'reverse', S + 'swap',
         V + 'extend_from_slice', V + 'retain', D + 'retain', V + 'dedup', S + 'sort', S + 'get', D + 'get'), 'seq', bad('unmodelled use'))
    def insert(cc, n, a, ta):
        if cc.norm(a[1]) != I(0): raise Undecided('insertion into a sequence')
        log(cc, n, 'pushf', cc.deep(a[2])); return UNIT
    reg((V + 'insert',), 'seq', insert)
    def extend(cc, n, a, ta):
        it = models.own_it(cc, a[1])
        comp = models.comp_of(cc, it)
        cc.ops.append(('each', tuple((vs, gs, (('oop', n, 'pushb', (p[1] if p[0] == 'rv' else p,)),)) for vs, gs, p in comp[1]), 'seq'))
        return UNIT
    reg(('core::iter::traits::collect::Extend::extend',), 'seq', extend)
    # bit sets ------------------------------------------------------------------------------
    def inside(cc, n, key, what):
        """is the index below the capacity"""
        if n in cc.o_cap: return cc.lt(key, cc.o_cap[n])
        h = getattr(cc, 'o_inside', None)
        if h:
            r = h(cc, n, key)
            if r is not None: return r
        raise Undecided('index of a bit set')
    def bset(val):
        def f(cc, n, a, ta):
            k = cc.norm(cc.strip(a[1]))
            if not inside(cc, n, k, 'set'): raise Panic('bit index out of range', cc.span())
            log(cc, n, 'set', k, val if val is not None else cc.norm(a[2])); return UNIT
        return f
    reg((FB + 'set',), 'bits', bset(None)); reg((FB + 'insert',), 'bits', bset(TRUE))
    def put(cc, n, a, ta):
        k = cc.norm(a[1])
        if not inside(cc, n, k, 'put'): raise Panic('bit index out of range', cc.span())
        log(cc, n, 'get', k)
        r = bit(cc, n, k)
        log(cc, n, 'set', k, TRUE); return B(r)
    reg((FB + 'put',), 'bits', put)
    def contains_(cc, n, a, ta):
        k = cc.norm(cc.strip(a[1]))
        if not inside(cc, n, k, 'contains'): return FALSE
        log(cc, n, 'get', k)
        return B(bit(cc, n, k))
    reg((FB + 'contains',), 'bits', contains_)
    def index(cc, n, a, ta): return ('rv', contains_(cc, n, a, ta))
    reg(('core::ops::index::Index::index',), 'bits', index)
    def bclear(cc, n, a, ta): log(cc, n, 'fill', FALSE); return UNIT
    reg((FB + 'clear',), 'bits', bclear)
    def rng(cc, v):
        v = cc.strip(v)
        if v[0] == 'adt':
            nm = v[1].split('::')[-1]
            if nm == 'RangeFull': return None, None
            if nm == 'Range': return v[3][0], v[3][1]
            if nm == 'RangeFrom': return v[3][0], None
            if nm == 'RangeTo': return None, v[3][0]
        raise Undecided('range of bits')
    def fillr(val):
        def f(cc, n, a, ta):
            lo, hi = rng(cc, a[1])
            v = val if val is not None else cc.norm(a[2])
            if hi is not None:
                if n not in cc.o_cap: raise Undecided('range of a bit set')
                if cc.lt(cc.o_cap[n], hi): raise Panic('bit range out of range', cc.span())
            if lo is None and hi is None: log(cc, n, 'fill', v)
            else: log(cc, n, 'fillr', lo, hi, v)
            return UNIT
        return f
    reg((FB + 'insert_range',), 'bits', fillr(TRUE)); reg((FB + 'set_range',), 'bits', fillr(None))
    reg((FB + 'len',), 'bits', lambda cc, n, a, ta: cc.o_cap.get(n, ('bitcap', n)))
    reg((FB + 'ones',), 'bits', lambda cc, n, a, ta: base('ones', (n, len(cc.ops))))
    c.models[('elem', 'ones')] = elem_ones
    # a clone has the same content
    oc = ov.get('core::clone::Clone::clone')
    def clone(cc, a, ta):
        for kind in ('seq', 'bits'):
            if obj(cc, a[0], kind) is not None: raise Undecided('clone of a logged object')
        return oc(cc, a, ta) if oc else NotImplemented
    ov['core::clone::Clone::clone'] = clone

def elem_ones(c, it):
    n, upto = it[3]
    z = new_elem(c)
    k = c.norm(('idid', z))
    if not bit(c, n, k, upto): raise Infeasible()
    return k
