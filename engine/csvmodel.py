"""csv: readers by what they are configured with and the rows they hand out.

A reader is ('csvr', k, source, options); its rows are the base collection 'rows', a row ('row', reader, x) being a
Result: Ok(record) for a well-formed row, Err(e) for a malformed one or - ('ioerr', e) - for an I/O error."""
from terms import *
import models, iomodel as io
from models import vlen, target, base, new_elem, opt, some, NONE, UNIT, rescase, ok, err

RB = 'csv::reader::ReaderBuilder::'; RD = 'csv::reader::Reader::'
M = {}
def model(*ns):
    def d(f):
        for n in ns: M[n] = f
        return f
    return d

DEFAULT = {'delimiter': ('int', 44), 'has_headers': TRUE, 'flexible': FALSE}
M[RB + 'new'] = M[RB + 'default'] = lambda c, a, ta: ('csvrb', tuple(sorted(DEFAULT.items())))
def _rb(nm):
    def f(c, a, ta):
        pl = target(c, a[0]); v = c.norm(c.read(pl)); d = dict(v[1]); d[nm] = c.norm(c.strip(a[1])) if len(a) > 1 else TRUE
        c.write(pl, ('csvrb', tuple(sorted(d.items())))); return a[0]
    M[RB + nm] = f
for _n in ('delimiter', 'has_headers', 'flexible', 'trim', 'terminator', 'quote', 'escape', 'double_quote', 'quoting', 'comment', 'ascii', 'buffer_capacity', 'nfa'): _rb(_n)
@model(RB + 'from_path')
def _(c, a, ta):
    p = io.path(c, a[1]); c.cnt += 1; h = ('csvr', c.cnt, ('file', p, 0), io.opts(c, a[0]))
    return io.fork(c, 'open', h, (p,), h)
@model(RB + 'from_reader')
def _(c, a, ta):
    c.cnt += 1
    return ('csvr', c.cnt, io.handle(c, a[1]), io.opts(c, a[0]))
M[RD + 'from_path'] = lambda c, a, ta: M[RB + 'from_path'](c, [M[RB + 'new'](c, [], []), a[0]], ta)
M[RD + 'from_reader'] = lambda c, a, ta: M[RB + 'from_reader'](c, [M[RB + 'new'](c, [], []), a[0]], ta)
M[RD + 'byte_headers'] = M[RD + 'headers'] = lambda c, a, ta: io.fork(c, 'header', io.handle(c, a[0]), (), ('rv', ('headers', io.handle(c, a[0]))))
M[RD + 'has_headers'] = lambda c, a, ta: dict(io.handle(c, a[0])[3])['has_headers']
M[RD + 'get_ref'] = M[RD + 'get_mut'] = lambda c, a, ta: ('rv', io.handle(c, a[0])[2])
@model(RD + 'into_deserialize', RD + 'deserialize')
def _(c, a, ta):
    h = io.handle(c, a[0])
    if h[0] != 'csvr': raise Undecided('csv reader')
    if c.io_faults and not any(o[0] == 'io' and o[1] == 'header' and o[2] == h for o in c.ops) and dict(h[3])['has_headers'] != FALSE:
        # the header row is read here, and an error doing so is dropped by the csv crate: what follows is no row at all
        if c.choose(2, 'header'): io.log(c, 'header', h, (io.fresh_err(c, 'header'),), 'err')
    return base('rows', (h, [t for t in ta if t != ('lt',)][-1]))
def elem_rows(c, it):
    h, t = it[3]
    return ('row', h, t, new_elem(c))
M[('elem', 'rows')] = elem_rows
M[('empty', 'rows')] = lambda c, it: None
def _ioe(c, a, ta):
    return ('b', c.decide(c.norm(('rowio', c.strip(a[0])))))
M['csv::error::Error::is_io_error'] = _ioe
M['csv::error::Error::kind'] = lambda c, a, ta: ('rv', ('csvkind', c.strip(a[0])))
M['csv::error::Error::position'] = lambda c, a, ta: ('csvpos', c.strip(a[0]))

# ---------------------------------------------------------------- separators
def code(c, v):
    """a character or byte as a number"""
    v = c.norm(v)
    while v[0] in ('rv', 'ref'): v = c.strip(v)
    if v[0] == 'int' and isinstance(v[1], str): return ('int', ord(v[1]))
    return v
def chars(c, t):
    t = c.norm(c.strip(t))
    while t[0] in ('rv', 'ref'): t = c.norm(c.strip(t))
    return t
def length(c, t):
    if t[0] == 'str': return I(len(t[1].encode()))
    return c.norm(('slen8', t))
def at0(c, t): return I(ord(t[1][0])) if t[0] == 'str' else ('byte0', t)
def first(c, t):
    """first character of a text, None when it is empty"""
    n = length(c, t)
    if c.eq(n, I(0)): return None
    if not c.eq(n, I(1)) and t[0] != 'str': return ('char0', t)
    return at0(c, t)
def nchars(c, t):
    if t[0] == 'str': return I(len(t[1]))
    n = length(c, t)
    return n if n == I(1) or c.known(('eq', n, I(1))) is True else ('nchars', t)
def islen1(c, t): return t[0] == 'sym' and c.known(c.norm(('eq', length(c, t), I(1)))) is True

def install(c, faults):
    """readers and texts"""
    io.install(c, faults)
    c.models.update(M)
    old = dict(c.models)
    def text(v): return v[0] in ('str', 'cat') or v in c.texts
    def only_text(name, f):
        g = old.get(name)
        def h(cc, a, ta):
            v = chars(cc, a[0])
            if text(v): return f(cc, v, a)
            if g is None: return NotImplemented if False else _un(cc, name, a)
            return g(cc, a, ta)
        c.models[name] = h
    def _un(cc, name, a): raise Undecided('unmodelled call %s' % name)
    for n in ('str::len', 'core::str::len', 'alloc::string::String::len'): only_text(n, lambda cc, v, a: length(cc, v))
    for n in ('str::is_empty', 'core::str::is_empty', 'alloc::string::String::is_empty'): only_text(n, lambda cc, v, a: B(cc.eq(length(cc, v), I(0))))
    for n in ('str::chars', 'core::str::chars', 'str::bytes', 'core::str::bytes'): only_text(n, lambda cc, v, a: ('chars', v, I(0)))
    for n in ('str::as_bytes', 'core::str::as_bytes', 'alloc::string::String::as_bytes', 'str::into_bytes', 'alloc::string::String::into_bytes'): only_text(n, lambda cc, v, a: ('rv', ('bytes8', v)))
    IT = models.ITER
    nx, cn, nth = c.models[IT + 'next'], c.models.get(IT + 'count'), c.models.get(IT + 'nth')
    def nxt(cc, a, ta):
        pl = target(cc, a[0]); v = cc.norm(cc.read(pl))
        if v[0] != 'chars': return nx(cc, a, ta)
        if v[2] != I(0):
            if v[1][0] == 'str':
                i = v[2][1]
                if i >= len(v[1][1]): return NONE
                cc.write(pl, ('chars', v[1], I(i + 1))); return some(I(ord(v[1][1][i])))
            if cc.known(cc.norm(('eq', length(cc, v[1]), I(1)))) is True: return NONE
            raise Undecided('further characters')
        f = first(cc, v[1])
        if f is None: return NONE
        cc.write(pl, ('chars', v[1], I(1))); return some(f)
    c.models[IT + 'next'] = nxt
    def count(cc, a, ta):
        v = cc.norm(cc.strip(a[0]))
        return nchars(cc, v[1]) if v[0] == 'chars' else cn(cc, a, ta)
    c.models[IT + 'count'] = count
    def b8(name, f):
        g = c.models.get(name)
        def h(cc, a, ta):
            v = cc.strip(a[0])
            while v[0] in ('rv', 'ref'): v = cc.strip(v)
            if v[0] == 'bytes8': return f(cc, v[1], a)
            return g(cc, a, ta) if g else _un(cc, name, a)
        c.models[name] = h
    b8('[]::len', lambda cc, t, a: length(cc, t))
    b8('alloc::vec::Vec::len', lambda cc, t, a: length(cc, t))
    b8('[]::is_empty', lambda cc, t, a: B(cc.eq(length(cc, t), I(0))))
    def fst(cc, t, a):
        f = first(cc, t)
        return NONE if f is None else some(('rv', f))
    b8('[]::first', fst)
    def idx(cc, t, a):
        if cc.norm(a[1]) != I(0): raise Undecided('byte of a text')
        f = first(cc, t)
        if f is None: raise Panic('index out of bounds', cc.span())
        return ('rv', f)
    b8('core::ops::index::Index::index', idx)
    oeq = c.overrides.get('core::cmp::PartialEq::eq'); one = c.overrides.get('core::cmp::PartialEq::ne')
    def teq(cc, a):
        x, y = chars(cc, a[0]), chars(cc, a[1])
        if not (text(x) and text(y)): return None
        for p, q in ((x, y), (y, x)):
            if p[0] == 'str' and islen1(cc, q) and len(p[1].encode()) != 1: return False
        if x[0] == 'str' and y[0] == 'str': return x[1] == y[1]
        return cc.eq(x, y)
    def eq(cc, a, ta):
        r = teq(cc, a)
        if r is None: return oeq(cc, a, ta) if oeq else NotImplemented
        return B(r)
    def ne(cc, a, ta):
        r = teq(cc, a)
        if r is None: return one(cc, a, ta) if one else NotImplemented
        return B(not r)
    c.overrides['core::cmp::PartialEq::eq'] = eq; c.overrides['core::cmp::PartialEq::ne'] = ne
    if not hasattr(c, 'texts'): c.texts = set()
    return c
