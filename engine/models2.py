"""Further library models: less common methods of Option, Result, bool, Ordering, integers, iterators, slices and maps."""
from terms import *
from core import Ctx
from models import (M, model, MAPS, SETS, ISETS, VECS, OPT, ORD, ITER, thead, base, comp_of, iter_order, consume, own_it,
    opt, rescase, target, refto, opt_ref, vlen, vget, vslice, map_has, map_val, map_ins, map_rem, into_iter_val,
    collect_to, default_of, vlt, litall, slice_range, ad, nxt, litq)
import models
some, NONE = models.some, models.NONE
ok, err = models.ok, models.err
O = 'core::option::Option::'; R = 'core::result::Result::'
UNIT_ = UNIT

# ---------------------------------------------------------------- Option
@model(O + 'xor')
def _(c, a, ta):
    s = opt(c, a[0])[0]; t = opt(c, a[1])[0]
    return a[0] if s and not t else a[1] if t and not s else NONE
@model(O + 'iter_mut')
def _(c, a, ta): return base('option', (opt_ref(c, a[0], True),))
@model(O + 'flatten')
def _(c, a, ta):
    s, p = opt(c, a[0]); return p if s else NONE
@model(O + 'transpose')
def _(c, a, ta):
    s, p = opt(c, a[0])
    if not s: return ok(NONE)
    t, q = rescase(c, p)
    return ok(some(q)) if t else err(q)
@model(O + 'get_or_insert_default')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.read(pl)
    if not opt(c, v)[0]: c.write(pl, some(default_of(c, ta[0])))
    return ('ref', pl[0], pl[1] + (('v', 1), ('f', 0)))
@model(O + 'inspect')
def _(c, a, ta):
    s, p = opt(c, a[0])
    if s: c.call_closure(a[1], [('rv', p)])
    return a[0]
@model(O + 'unwrap_unchecked')
def _(c, a, ta): return M[O + 'unwrap'](c, a, ta)
@model(O + 'unzip')
def _(c, a, ta):
    s, p = opt(c, a[0])
    return ('tup', (some(c.proj(p, ('f', 0))), some(c.proj(p, ('f', 1))))) if s else ('tup', (NONE, NONE))

# ---------------------------------------------------------------- Result
def res_ref(c, r, mut):
    pl = target(c, r); v = c.read(pl)
    s, p = rescase(c, v); k = ok if s else err
    loc, path = pl
    if isinstance(loc, tuple): return k(('rv', p))
    if c.norm(v)[0] != 'adt' and mut: c.write(pl, k(p))
    return k(('ref', loc, path + (('v', 0 if s else 1), ('f', 0))))
@model(R + 'as_ref')
def _(c, a, ta): return res_ref(c, a[0], False)
@model(R + 'as_mut')
def _(c, a, ta): return res_ref(c, a[0], True)
@model(R + 'unwrap_or_default')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return p if s else default_of(c, ta[0])
@model(R + 'map_or')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return c.call_closure(a[2], [p]) if s else a[1]
@model(R + 'map_or_else')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return c.call_closure(a[2] if s else a[1], [p])
@model(R + 'or')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return ok(p) if s else a[1]
@model(R + 'or_else')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return ok(p) if s else c.call_closure(a[1], [p])
@model(R + 'and')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return a[1] if s else err(p)
@model(R + 'unwrap_err', R + 'expect_err')
def _(c, a, ta):
    s, p = rescase(c, a[0])
    if s: raise Panic('unwrap_err of Ok', c.span())
    return p
@model(R + 'is_ok_and')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return c.call_closure(a[1], [p]) if s else FALSE
@model(R + 'is_err_and')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return FALSE if s else c.call_closure(a[1], [p])
@model(R + 'cloned', R + 'copied')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return ok(c.strip1(p)) if s else err(p)
@model(R + 'iter', R + 'into_iter')
def _(c, a, ta):
    v = c.norm(a[0])
    if v[0] in ('ref', 'rv'): v = res_ref(c, v, False)
    s, p = rescase(c, v); return base('option', (some(p) if s else NONE,))
@model(R + 'inspect_err', R + 'inspect')
def _(c, a, ta): raise NotImplementedError
def _insp(on):
    def f(c, a, ta):
        s, p = rescase(c, a[0])
        if s == on: c.call_closure(a[1], [('rv', p)])
        return a[0]
    return f
M[R + 'inspect'] = _insp(True); M[R + 'inspect_err'] = _insp(False)
@model(R + 'transpose')
def _(c, a, ta):
    s, p = rescase(c, a[0])
    if not s: return some(err(p))
    t, q = opt(c, p)
    return some(ok(q)) if t else NONE

# ---------------------------------------------------------------- bool, Ordering, integers
@model('bool::then')
def _(c, a, ta): return some(c.call_closure(a[1], [])) if c.decide(a[0]) else NONE
@model('bool::then_some')
def _(c, a, ta): return some(a[1]) if c.decide(a[0]) else NONE
def _ordis(*ks):
    def f(c, a, ta):
        v = c.norm(a[0])
        if v[0] == 'adt': return B(v[2] in ks)
        return B(any(c.isvar(v, k) for k in ks))
    return f
for n, ks in (('is_lt', (0,)), ('is_eq', (1,)), ('is_gt', (2,)), ('is_le', (0, 1)), ('is_ge', (1, 2)), ('is_ne', (0, 2))): M[ORD + '::' + n] = _ordis(*ks)
@model(ORD + '::reverse')
def _(c, a, ta):
    v = c.norm(a[0])
    if v[0] == 'adt': return ('adt', ORD, 2 - v[2], ())
    raise Undecided('reverse of an unknown ordering')
@model(ORD + '::then', ORD + '::then_with')
def _(c, a, ta):
    v = c.norm(a[0])
    if v[0] != 'adt': raise Undecided('then of an unknown ordering')
    if v[2] != 1: return v
    return c.call_closure(a[1], []) if c.norm(a[1])[0] in ('clo', 'fn', 'pyclo') else a[1]
@model('usize::saturating_mul', 'usize::wrapping_mul')
def _(c, a, ta): return c.norm(('op', 'Mul', a[0], a[1]))
@model('usize::checked_mul')
def _(c, a, ta): return some(c.norm(('op', 'Mul', a[0], a[1])))
@model('usize::abs_diff')
def _(c, a, ta): return c.norm(sub(a[1], a[0]) if c.lt(a[0], a[1]) else sub(a[0], a[1]))
@model('usize::overflowing_add')
def _(c, a, ta): return ('tup', (add(a[0], a[1]), FALSE))
@model('usize::overflowing_sub')
def _(c, a, ta): return ('tup', (c.norm(sub(a[0], a[1])), B(c.lt(a[0], a[1]))))

# ---------------------------------------------------------------- ranges
def _bounds(c, r):
    return models.range_bounds(c, c.strip(r))
@model('core::ops::range::Range::contains', 'core::ops::range::RangeInclusive::contains', 'core::ops::range::RangeTo::contains',
       'core::ops::range::RangeFrom::contains', 'core::ops::range::RangeToInclusive::contains', 'core::ops::range::RangeBounds::contains')
def _(c, a, ta):
    b = _bounds(c, a[0]); x = c.strip(a[1])
    if b is None: return TRUE
    lo, hi = b
    if lo is not None and not (c.le(lo[0], x) if lo[1] else c.lt(lo[0], x)): return FALSE
    if hi is not None and not (c.le(x, hi[0]) if hi[1] else c.lt(x, hi[0])): return FALSE
    return TRUE
@model('core::ops::range::Range::is_empty')
def _(c, a, ta):
    r = c.strip(a[0]); return B(not c.lt(c.proj(r, ('f', 0)), c.proj(r, ('f', 1))))
@model('core::ops::range::RangeInclusive::start')
def _(c, a, ta): return ('rv', c.proj(c.strip(a[0]), ('f', 0)))
@model('core::ops::range::RangeInclusive::end')
def _(c, a, ta): return ('rv', c.proj(c.strip(a[0]), ('f', 1)))

# ---------------------------------------------------------------- iterators
@model(ITER + 'try_fold')
def _(c, a, ta):
    t = ta[-1]
    case = opt if thead(t) == OPT else rescase if thead(t) == 'core::result::Result' else None
    if case is None: raise Undecided('try_fold of %s' % (t,))
    pl = target(c, a[0]) if c.norm(a[0])[0] == 'ref' else None
    l = c.alloc(a[1], 'acc')
    def b(x):
        s, p = case(c, c.call_closure(a[2], [c.mem[l], x]))
        if not s: return NONE if case is opt else err(p)
        c.mem[l] = p; return None
    r = consume(c, own_it(c, a[0]), b, 'try_fold')
    if r: return r[0]
    return some(c.mem[l]) if case is opt else ok(c.mem[l])
@model(ITER + 'partition')
def _(c, a, ta):
    it = own_it(c, a[0]); t = ta[1]
    def no(cc, x): return B(not cc.decide(cc.call_closure(a[1], x)))
    r = []
    for f in (a[1], ('pyclo', no)):
        v = collect_to(c, comp_of(c, ('it', 'filter', it, f)), t, iter_order(c, it))
        if v is None: raise Undecided('partition into %s' % (t,))
        r.append(v)
    return ('tup', tuple(r))
@model(ITER + 'unzip')
def _(c, a, ta):
    it = own_it(c, a[0]); r = []
    for i, t in ((0, ta[3]), (1, ta[4])):
        def f(cc, x, i=i): return cc.proj(x[0], ('f', i))
        v = collect_to(c, comp_of(c, ('it', 'map', it, ('pyclo', f))), t, iter_order(c, it))
        if v is None: raise Undecided('unzip into %s' % (t,))
        r.append(v)
    return ('tup', tuple(r))
@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def _(c, a, ta): return models.ccount(c, comp_of(c, own_it(c, c.strip(a[0])), lambda x: x))
@model('core::iter::traits::exact_size::ExactSizeIterator::is_empty')
def _(c, a, ta): raise Undecided('is_empty')
@model('core::iter::traits::double_ended::DoubleEndedIterator::rfind')
def _(c, a, ta):
    pl = target(c, a[0]); it = c.read(pl)
    return M[ITER + 'find'](c, [ad('rev', it), a[1]], ta)
@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _(c, a, ta):
    pl = target(c, a[0]); it = c.norm(c.read(pl))
    q = litq(c, it)
    if q is not None:
        if isinstance(pl[0], tuple): raise Undecided('next_back')
        item, nv = nxt(c, ('it', 'lit', q[2][::-1]))
        c.write(pl, ('it', 'lit', nv[2][::-1]) if nv[1] == 'lit' else nv)
        return NONE if item is None else some(item)
    raise Undecided('next_back')
@model(ITER + 'reduce')
def _(c, a, ta):
    it = own_it(c, a[0])
    q = litq(c, it)
    if q is None or c.unroll: raise Undecided('reduce')
    acc, q = nxt(c, q)
    if acc is None: return NONE
    while True:
        x, q = nxt(c, q)
        if x is None: return some(acc)
        acc = c.call_closure(a[1], [acc, x])
@model(ITER + 'is_sorted', ITER + 'cmp', ITER + 'partial_cmp')
def _(c, a, ta): raise Undecided('order of an iterator')

# ---------------------------------------------------------------- slices, vectors
V = 'alloc::vec::Vec::'; S = '[]::'; D = 'alloc::collections::vec_deque::VecDeque::'
@model(S + 'split_first', S + 'split_last')
def _(c, a, ta): raise NotImplementedError
def _spl(last):
    def f(c, a, ta):
        pl = target(c, a[0]); v = c.read(pl); n = vlen(c, v)
        if c.eq(n, I(0)): return NONE
        m = c.norm(sub(n, I(1)))
        x = refto(c, pl, ('ix', m if last else I(0)))
        return some(('tup', (x, ('rv', vslice(c, v, I(0), m) if last else vslice(c, v, I(1), n)))))
    return f
M[S + 'split_first'] = _spl(False); M[S + 'split_last'] = _spl(True)
@model(S + 'sort_by_key', S + 'sort_by', S + 'sort_unstable_by_key', S + 'sort_unstable_by', S + 'sort_by_cached_key')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.norm(c.read(pl))
    if v[0] == 'vcoll': c.write(pl, ('vcoll', v[1], 'sortedby')); return UNIT
    raise Undecided('sort')
@model(S + 'reverse')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.norm(c.read(pl))
    if v[0] == 'arr': c.write(pl, ('arr', v[1][::-1])); return UNIT
    if v[0] == 'vcoll':
        o = v[2]; c.write(pl, ('vcoll', v[1], o[1] if isinstance(o, tuple) and o[0] == 'rev' else ('rev', o))); return UNIT
    raise Undecided('reverse')
@model(S + 'swap', V + 'swap', D + 'swap')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.norm(c.read(pl)); i, j = c.norm(a[1]), c.norm(a[2]); n = vlen(c, v)
    if not c.lt(i, n) or not c.lt(j, n): raise Panic('swap out of range', c.span())
    x, y = vget(c, v, i), vget(c, v, j)
    c.write((pl[0], pl[1] + (('ix', i),)), y); c.write((pl[0], pl[1] + (('ix', j),)), x); return UNIT
@model(V + 'truncate', D + 'truncate')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.norm(c.read(pl)); n = c.norm(a[1])
    if n == I(0): c.write(pl, ('arr', ())); return UNIT
    if v[0] == 'arr' and n[0] == 'int': c.write(pl, ('arr', v[1][:n[1]])); return UNIT
    if not c.lt(n, vlen(c, v)): return UNIT
    c.write(pl, vslice(c, v, I(0), n)); return UNIT
@model(V + 'insert', D + 'insert')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.norm(c.read(pl)); i = c.norm(a[1])
    if v[0] == 'arr' and i[0] == 'int':
        if i[1] > len(v[1]): raise Panic('insertion beyond the end', c.span())
        c.write(pl, ('arr', v[1][:i[1]] + (a[2],) + v[1][i[1]:])); return UNIT
    if i == I(0): c.write(pl, ('vpushf', v, a[2])); return UNIT
    if c.eq(i, vlen(c, v)): c.write(pl, ('vpush', v, a[2])); return UNIT
    raise Undecided('insert')
@model(V + 'remove')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.norm(c.read(pl)); i = c.norm(a[1])
    if v[0] == 'arr' and i[0] == 'int':
        if i[1] >= len(v[1]): raise Panic('removal beyond the end', c.span())
        c.write(pl, ('arr', v[1][:i[1]] + v[1][i[1] + 1:])); return v[1][i[1]]
    n = vlen(c, v)
    if not c.lt(i, n): raise Panic('removal beyond the end', c.span())
    if i == I(0): x = vget(c, v, i); c.write(pl, ('vpopf', v)); return x
    raise Undecided('remove')
@model(V + 'append', D + 'append')
def _(c, a, ta):
    pl = target(c, a[0]); ql = target(c, a[1]); v = c.read(pl); w = c.norm(c.read(ql))
    c.write(ql, ('arr', ()))
    if w == ('arr', ()): return UNIT
    if w[0] == 'arr':
        for x in w[1]: v = ('vpush', v, x)
        c.write(pl, v); return UNIT
    b = base('vec', (w, None, 'own'))
    c.write(pl, ('vext', v, comp_of(c, b), iter_order(c, b))); return UNIT
@model(V + 'retain', V + 'retain_mut', D + 'retain')
def _(c, a, ta):
    pl = target(c, a[0]); v = c.norm(c.read(pl))
    b = base('vec', (v, None, 'own'))
    q = litall(c, ad('filter', b, a[1]))
    c.write(pl, q if q is not None else ('vcoll', comp_of(c, ad('filter', b, a[1])), iter_order(c, b))); return UNIT
@model(S + 'starts_with', S + 'ends_with', S + 'concat', S + 'chunks', S + 'windows', S + 'fill')
def _(c, a, ta): raise Undecided('slice operation')
@model(S + 'binary_search_by', S + 'binary_search_by_key')
def _(c, a, ta): raise Undecided('binary search with a key')

# ---------------------------------------------------------------- maps and sets
for H in MAPS + SETS:
    def _reg(H, isset):
        if not isset:
            @model(H + '::remove_entry')
            def _(c, a, ta):
                pl = target(c, a[0]); m = c.read(pl); k = c.strip(a[1])
                if not map_has(c, m, k): return NONE
                old = map_val(c, m, k); c.write(pl, map_rem(c, m, k))
                return some(('tup', (k, old)))
            @model(H + '::get_key_value')
            def _(c, a, ta):
                pl = target(c, a[0]); k = c.strip(a[1])
                if not map_has(c, c.read(pl), k): return NONE
                return some(('tup', (('rv', k), refto(c, pl, ('mk', k)))))
        else:
            @model(H + '::replace')
            def _(c, a, ta):
                pl = target(c, a[0]); m = c.read(pl); k = a[1]
                if map_has(c, m, k): return some(k)
                c.write(pl, map_ins(c, m, k, UNIT)); return NONE
        @model(H + '::drain')
        def _(c, a, ta):
            pl = target(c, a[0]); m = c.read(pl); c.write(pl, ('mempty',))
            return base('map', (m, None, 'ok' if isset else 'own', None))
        @model(H + '::retain')
        def _(c, a, ta):
            pl = target(c, a[0])
            if isinstance(pl[0], tuple): raise Undecided('retain')
            m = c.read(pl)
            def b(x):
                k = x if isset else c.proj(x, ('f', 0))
                args = [('rv', k)] if isset else [('rv', k), ('rv', c.proj(x, ('f', 1)))]
                if not c.decide(c.call_closure(a[1], args)): c.write(pl, map_rem(c, c.read(pl), k))
                return None
            consume(c, base('map', (m, None, 'ok' if isset else 'own', None)), b, 'retain'); return UNIT
    _reg(H, H in SETS)

HE = 'std::collections::hash::map::'; BE = 'alloc::collections::btree::map::entry::'
def eplace(c, e):
    e = c.norm(c.strip(e))
    if e[0] != 'mentry': raise Undecided('entry')
    return (e[1], e[2]), e[3]
@model(HE + 'Entry::or_insert_with_key', BE + 'Entry::or_insert_with_key')
def _(c, a, ta):
    pl, k = eplace(c, a[0])
    if not map_has(c, c.read(pl), k):
        v = c.call_closure(a[1], [('rv', k)]); c.write(pl, map_ins(c, c.read(pl), k, v))
    return ('ref', pl[0], pl[1] + (('mk', k),))
for E in (HE, BE):
    @model(E + 'OccupiedEntry::get', E + 'OccupiedEntry::get_mut', E + 'OccupiedEntry::into_mut')
    def _(c, a, ta):
        pl, k = eplace(c, a[0]); return ('ref', pl[0], pl[1] + (('mk', k),))
    @model(E + 'OccupiedEntry::key', E + 'VacantEntry::key')
    def _(c, a, ta): return ('rv', eplace(c, a[0])[1])
    @model(E + 'VacantEntry::into_key')
    def _(c, a, ta): return eplace(c, a[0])[1]
    @model(E + 'VacantEntry::insert')
    def _(c, a, ta):
        pl, k = eplace(c, a[0]); c.write(pl, map_ins(c, c.read(pl), k, a[1]))
        return ('ref', pl[0], pl[1] + (('mk', k),))
    @model(E + 'OccupiedEntry::insert')
    def _(c, a, ta):
        pl, k = eplace(c, a[0]); m = c.read(pl); old = map_val(c, m, k)
        c.write(pl, map_ins(c, m, k, a[1])); return old
    @model(E + 'OccupiedEntry::remove')
    def _(c, a, ta):
        pl, k = eplace(c, a[0]); m = c.read(pl); old = map_val(c, m, k)
        c.write(pl, map_rem(c, m, k)); return old
    @model(E + 'OccupiedEntry::remove_entry')
    def _(c, a, ta):
        pl, k = eplace(c, a[0]); m = c.read(pl); old = map_val(c, m, k)
        c.write(pl, map_rem(c, m, k)); return ('tup', (k, old))
