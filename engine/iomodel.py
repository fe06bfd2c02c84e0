"""Files, paths, writers and readers.  Values are terms; effects are ('io', op, handle, detail, 'ok'|'err') entries of c.ops.

install(c, faults): with faults every operation that can fail is explored both ways; without, an operation fails only
because a file does not exist.  Paths are texts: ('str', s) or ('cat', parts)."""
from terms import *
import models
from models import vlen, vslice, target, base, opt, some, NONE, UNIT, rescase, ok, err

W = 'core::io::write::Write::'
FS = 'std::fs::'

# ---------------------------------------------------------------- texts
def parts(c, v):
    v = c.strip(v)
    while v[0] == 'deref': v = c.strip(v[1])
    if v[0] == 'str': return (v[1],)
    if v[0] == 'cat': return tuple(p[1] if p[0] == 'str' else p for p in v[1])
    if v[0] == 'char' or v[0] == 'chr': return (v[1],)
    return (v,)
def text(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        elif p != '': out.append(p)
    if not out: return ('str', '')
    if len(out) == 1: return ('str', out[0]) if isinstance(out[0], str) else out[0]
    return ('cat', tuple(('str', p) if isinstance(p, str) else p for p in out))
def cat(c, *vs): return text(sum((parts(c, v) for v in vs), ()))
def path(c, v): return text(parts(c, v))
def distinct(c, p, q):
    """True: different texts, False: equal, None: unknown"""
    p, q = parts(c, p), parts(c, q)
    i = 0
    while i < len(p) and i < len(q) and p[i] == q[i]: i += 1
    p, q = p[i:], q[i:]
    if not p and not q: return False
    j = 0
    while j < len(p) and j < len(q) and p[-1 - j] == q[-1 - j]: j += 1
    if j: p, q = p[:-j], q[:-j]
    if all(isinstance(x, str) for x in p + q): return True      # maximal literals: '' against non-empty, or different
    if p and q and isinstance(p[0], str) and isinstance(q[0], str):
        k = min(len(p[0]), len(q[0]))
        if p[0][:k] != q[0][:k]: return True
    if p and q and isinstance(p[-1], str) and isinstance(q[-1], str):
        k = min(len(p[-1]), len(q[-1]))
        if p[-1][-k:] != q[-1][-k:]: return True
    return None

def fmt(c, a, ta):
    """core::fmt::Arguments::new(template, args)"""
    t = c.strip(a[0]); xs = c.strip(a[1])
    if t[0] != 'arr' or xs[0] != 'arr' or any(b[0] != 'int' for b in t[1]): return ('fmt', 'new', tuple(c.deep(x) for x in a))
    b = [x[1] for x in t[1]]; i = 0; n = 0; out = []
    while i < len(b):
        k = b[i]; i += 1
        if k == 0: break
        if k < 128:
            try: out.append(bytes(b[i:i + k]).decode())
            except UnicodeDecodeError: return ('fmt', 'new', tuple(c.deep(x) for x in a))
            i += k
        elif k == 0xC0:
            if n >= len(xs[1]): return ('fmt', 'new', tuple(c.deep(x) for x in a))
            x = c.norm(xs[1][n]); n += 1
            if x[0] != 'disp': return ('fmt', 'new', tuple(c.deep(x) for x in a))
            out += list(parts(c, x[1]))
        else: return ('fmt', 'new', tuple(c.deep(x) for x in a))
    return text(tuple(out))

# ---------------------------------------------------------------- effects
def log(c, op, h, detail=(), res='ok'): c.ops.append(('io', op, h, detail, res))
def fresh_err(c, op): 
    c.cnt += 1
    return ('ioerr', op, c.cnt)
def fork(c, op, h, detail, val, can=None):
    """one fallible operation"""
    if c.io_faults and (c.io_faults is True or op in c.io_faults) and c.choose(2):
        e = fresh_err(c, op); log(c, op, h, detail + (e,), 'err'); return err(e)
    log(c, op, h, detail); return ok(val() if callable(val) else val)
def handle(c, v):
    v = c.strip(v)
    n = 0
    while v[0] == 'adt' and len(v[3]) == 1 and n < 5: v = c.strip(v[3][0]); n += 1
    return v
def under(h):
    """the writers a handle writes through, outermost first"""
    out = [h]
    while h[0] in ('bufw', 'csvw'): h = h[2]; out.append(h)
    return out

def flat(ops):
    """the io entries of an operation log, those of loops included: (entry, kind of repetition)"""
    for o in ops:
        if o[0] == 'io': yield o, None
        elif o[0] in ('each', 'some'):
            for al in o[1]:
                for x, k in flat(al[2]): yield x, o
        elif o[0] == 'loop':
            for al in o[1]:
                for x, k in flat(al): yield x, o

# state of a file by the log: ('data', how, detail...) | 'absent' | None (never touched)
def fstate(c, p):
    for o in reversed(list(c.ops)):
        if o[0] in ('each', 'some', 'loop'):
            for x, _ in flat([o]):
                if x[1] in ('create', 'remove', 'export') and distinct(c, x[3][0], p) is not True: raise Undecided('file changed inside a loop')
            continue
        if o[0] != 'io' or o[4] != 'ok' or o[1] not in ('create', 'remove', 'export'): continue
        d = distinct(c, o[3][0], p)
        if d is None: raise Undecided('whether two paths are the same: %s, %s' % (show(o[3][0])[:90], show(p)[:90]))
        if d is True: continue
        if o[1] == 'remove': return ('absent',)
        if o[1] == 'export': return ('export', o[3][1], o[3][2])
        return ('written', o[2], o[3])
    return None
def exists(c, p):
    s = fstate(c, p)
    if s is not None: return s[0] != 'absent'
    return c.decide(c.norm(('onfile', path(c, p))))
def contents(c, h):
    """what has been written through a file handle, in order"""
    out = []
    for o in c.ops:
        if o[0] in ('each', 'some', 'loop'):
            if any(h in under(x[2]) for x, _ in flat([o]) if isinstance(x[2], tuple)): raise Undecided('file written inside a loop')
            continue
        if o[0] == 'io' and o[4] == 'ok' and isinstance(o[2], tuple) and h in under(o[2]) and o[1] in ('write', 'dump'): out.append(o)
    return out

# ---------------------------------------------------------------- models
M = {}
def model(*ns):
    def d(f):
        for n in ns: M[n] = f
        return f
    return d

M['core::fmt::Arguments::new'] = fmt
M['core::fmt::Arguments::from_str'] = lambda c, a, ta: path(c, a[0])
M['core::fmt::rt::Argument::new_display'] = lambda c, a, ta: ('disp', c.deep(c.strip(a[0])))
M['core::fmt::rt::Argument::new_debug'] = lambda c, a, ta: ('dbg', c.deep(c.strip(a[0])))
M['alloc::fmt::format'] = lambda c, a, ta: c.strip(a[0])
for n in ('std::path::Path::new', 'std::path::Path::to_path_buf', 'std::path::PathBuf::as_path', 'std::path::Path::display', 'std::path::Path::to_string_lossy', 'std::path::Path::as_os_str',
          'alloc::string::String::as_str', 'core::str::to_owned', 'alloc::str::to_owned', 'str::to_owned', 'str::to_string', 'alloc::string::ToString::to_string', 'alloc::borrow::ToOwned::to_owned', 'alloc::string::String::into_boxed_str',
          'core::str::to_string', 'std::path::PathBuf::into_os_string', 'std::path::Path::into_path_buf', 'alloc::string::String::from_utf8_lossy', 'core::convert::AsRef::as_ref', 'alloc::string::String::as_mut_str',
          'std::path::PathBuf::from', 'std::ffi::os_str::OsStr::to_os_string', 'std::ffi::os_str::OsStr::new'):
    M[n] = lambda c, a, ta: c.strip(a[0])
M['std::path::Path::to_str'] = M['std::ffi::os_str::OsStr::to_str'] = lambda c, a, ta: some(('rv', c.strip(a[0])))
M['alloc::string::String::new'] = lambda c, a, ta: ('str', '')
M['alloc::string::String::with_capacity'] = lambda c, a, ta: ('str', '')
@model('alloc::string::String::push_str', 'alloc::string::String::push')
def _(c, a, ta):
    pl = target(c, a[0]); c.write(pl, cat(c, c.read(pl), a[1])); return UNIT
@model('std::path::Path::join')
def _(c, a, ta):
    return cat(c, a[0], ('str', '/'), a[1])
@model('std::path::Path::exists', 'std::path::Path::is_file')
def _(c, a, ta): return ('b', exists(c, path(c, a[0])))

@model(FS + 'metadata', FS + 'symlink_metadata', 'std::path::Path::metadata')
def _(c, a, ta):
    p = path(c, a[0])
    return ok(('meta', ('file', p, 0))) if exists(c, p) else err(('ioerr', 'missing', p))
@model(FS + 'File::create', FS + 'File::create_new')
def _(c, a, ta):
    p = path(c, a[0]); c.cnt += 1; h = ('file', p, c.cnt)
    return fork(c, 'create', h, (p, 'trunc'), h)
@model(FS + 'File::open')
def _(c, a, ta):
    p = path(c, a[0]); h = ('file', p, 0)
    if c.io_faults: return fork(c, 'open', h, (p,), h)
    return ok(h) if exists(c, p) else err(('ioerr', 'missing', p))
@model(FS + 'remove_file')
def _(c, a, ta):
    p = path(c, a[0])
    if c.io_faults: return fork(c, 'remove', None, (p,), UNIT)
    if exists(c, p): log(c, 'remove', None, (p,)); return ok(UNIT)
    return err(('ioerr', 'missing', p))
# OpenOptions
OO = FS + 'OpenOptions::'
M[OO + 'new'] = lambda c, a, ta: ('oo', ())
def _oo(nm):
    def f(c, a, ta):
        pl = target(c, a[0]); v = c.norm(c.read(pl)); on = c.decide(a[1])
        c.write(pl, ('oo', tuple(sorted((set(v[1]) | {nm}) if on else set(v[1]) - {nm})))); return a[0]
    M[OO + nm] = f
for nm in ('read', 'write', 'append', 'truncate', 'create', 'create_new'): _oo(nm)
@model(OO + 'open')
def _(c, a, ta):
    o = c.norm(c.strip(a[0]))
    if o[0] != 'oo': raise Undecided('open options')
    p = path(c, a[1])
    if not {'write', 'append'} & set(o[1]): return M[FS + 'File::open'](c, [a[1]], ta)
    c.cnt += 1; h = ('file', p, c.cnt)
    return fork(c, 'create', h, (p, 'trunc' if {'truncate', 'create_new'} & set(o[1]) else 'append' if 'append' in o[1] else 'keep'), h)
M[FS + 'File::set_len'] = lambda c, a, ta: fork(c, 'setlen', handle(c, a[0]), (c.norm(a[1]),), UNIT)
M[FS + 'File::sync_all'] = M[FS + 'File::sync_data'] = lambda c, a, ta: fork(c, 'sync', handle(c, a[0]), (), UNIT)
M[FS + 'File::metadata'] = lambda c, a, ta: fork(c, 'stat', handle(c, a[0]), (), ('meta', handle(c, a[0])))
M[FS + 'Metadata::len'] = lambda c, a, ta: c.norm(('fsize', c.strip(a[0])[1]))
M['core::io::error::Error::kind'] = lambda c, a, ta: ('ekind', c.strip(a[0]))

# writers
BW = 'alloc::io::buffered::bufwriter::BufWriter::'
@model(BW + 'new', 'std::io::BufWriter::new', 'alloc::io::buffered::linewriter::LineWriter::new')
def _(c, a, ta):
    c.cnt += 1
    return ('bufw', c.cnt, handle(c, a[0]))
@model(BW + 'with_capacity', 'alloc::io::buffered::linewriter::LineWriter::with_capacity')
def _(c, a, ta):
    c.cnt += 1
    return ('bufw', c.cnt, handle(c, a[1]))
M[BW + 'get_ref'] = M[BW + 'get_mut'] = lambda c, a, ta: ('rv', handle(c, a[0])[2])
M[BW + 'into_inner'] = lambda c, a, ta: fork(c, 'flush', handle(c, a[0]), (), lambda: handle(c, a[0])[2])
M[W + 'by_ref'] = lambda c, a, ta: a[0]
def data(c, v):
    v = c.strip(v)
    return v
M[W + 'write_all'] = lambda c, a, ta: fork(c, 'write', handle(c, a[0]), (data(c, a[1]),), UNIT)
M[W + 'write_fmt'] = lambda c, a, ta: fork(c, 'write', handle(c, a[0]), (data(c, a[1]),), UNIT)
M[W + 'flush'] = lambda c, a, ta: fork(c, 'flush', handle(c, a[0]), (), UNIT)
@model(W + 'write')
def _(c, a, ta):
    h = handle(c, a[0]); d = data(c, a[1])
    k = c.choose(3) if c.io_faults else 0
    if k == 1: e = fresh_err(c, 'write'); log(c, 'write', h, (d, e), 'err'); return err(e)
    n = vlen(c, d)
    if k == 2:                                                   # a short write
        if c.eq(n, I(0)): raise Infeasible()
        m = ('sym', 'short%d' % c.cnt); c.cnt += 1
        c.assume(('lt', m, n), True)
        log(c, 'write', h, (vslice(c, d, I(0), m),)); c.ops.append(('short', h, d)); return ok(m)
    log(c, 'write', h, (d,)); return ok(n)

# readers
M['alloc::io::buffered::bufreader::BufReader::new'] = lambda c, a, ta: ('bufr', handle(c, a[0]))
M['alloc::io::buffered::bufreader::BufReader::with_capacity'] = lambda c, a, ta: ('bufr', handle(c, a[1]))

# csv
CB = 'csv::writer::WriterBuilder::'; CW = 'csv::writer::Writer::'
def dflt(): return (('delimiter', ('int', 44)),)
M[CB + 'new'] = lambda c, a, ta: ('csvb', (('delimiter', ('int', 44)), ('has_headers', TRUE)))
def _cb(pre, nm):
    def f(c, a, ta):
        pl = target(c, a[0]); v = c.norm(c.read(pl)); d = dict(v[1]); d[nm] = c.norm(c.strip(a[1]))
        c.write(pl, (v[0], tuple(sorted(d.items())))); return a[0]
    M[pre + nm] = f
for _n in ('delimiter', 'has_headers', 'flexible', 'terminator', 'quote_style', 'quote', 'double_quote', 'escape', 'buffer_capacity', 'comment'): _cb(CB, _n)
def opts(c, v): 
    v = c.strip(v)
    if v[0] not in ('csvb', 'csvrb'): raise Undecided('csv builder')
    return v[1]
@model(CB + 'from_path')
def _(c, a, ta):
    p = path(c, a[1]); c.cnt += 1; h = ('csvw', c.cnt, ('file', p, c.cnt), opts(c, a[0]))
    return fork(c, 'create', h[2], (p, 'trunc'), h)
@model(CB + 'from_writer')
def _(c, a, ta):
    c.cnt += 1
    return ('csvw', c.cnt, handle(c, a[1]), opts(c, a[0]))
M[CW + 'from_path'] = lambda c, a, ta: M[CB + 'from_path'](c, [('csvb', M[CB + 'new'](c, [], [])[1]), a[0]], ta)
M[CW + 'from_writer'] = lambda c, a, ta: M[CB + 'from_writer'](c, [('csvb', M[CB + 'new'](c, [], [])[1]), a[0]], ta)
M[CW + 'serialize'] = lambda c, a, ta: fork(c, 'write', handle(c, a[0]), (('row', c.deep(c.strip(a[1])), ta[-1]),), UNIT)
M[CW + 'write_record'] = lambda c, a, ta: fork(c, 'write', handle(c, a[0]), (('record', c.deep(c.strip(a[1]))),), UNIT)
M[CW + 'write_field'] = M[CW + 'write_byte_record'] = M[CW + 'write_record']
M[CW + 'flush'] = lambda c, a, ta: fork(c, 'flush', handle(c, a[0]), (), UNIT)
M[CW + 'into_inner'] = lambda c, a, ta: fork(c, 'flush', handle(c, a[0]), (), lambda: handle(c, a[0])[2])
M[CW + 'get_ref'] = lambda c, a, ta: ('rv', handle(c, a[0])[2])

# results
R = models.R
@model(R + 'and')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return a[1] if s else err(p)
@model(R + 'or')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return ok(p) if s else a[1]
@model(R + 'unwrap_or_default')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return p if s else models.default_of(c, ta[0])
@model(R + 'map_or')
def _(c, a, ta):
    s, p = rescase(c, a[0]); return c.call_closure(a[2], [p]) if s else a[1]
@model(R + 'unwrap_err', R + 'expect_err')
def _(c, a, ta):
    s, p = rescase(c, a[0])
    if s: raise Panic('unwrap_err of Ok', c.span())
    return p
@model(R + 'inspect_err')
def _(c, a, ta):
    s, p = rescase(c, a[0])
    if not s: c.call_closure(a[1], [('rv', p)])
    return a[0]
for _n in ('core::io::error::Error::new', 'core::io::error::Error::other', 'core::io::error::Error::from'): M[_n] = lambda c, a, ta: fresh_err(c, 'made')

# slices handed out in pieces
SL = '[]::'
M[SL + 'chunks'] = M[SL + 'chunks_exact'] = lambda c, a, ta: base('chunks', (c.strip(a[0]), c.norm(a[1])))
def _chunk(c, it):
    v, k = it[3]; c.cnt += 1
    return ('rv', ('chunk', v, k, ('sym', 'ch%d' % c.cnt)))
M[('elem', 'chunks')] = _chunk
M[('empty', 'chunks')] = lambda c, it: c.eq(vlen(c, it[3][0]), I(0))

# bincode
def src(c, v):
    v = c.strip(v); n = 0
    while v[0] == 'rv' and n < 5: v = c.strip(v); n += 1
    return v
M['bincode::serialize_into'] = lambda c, a, ta: fork(c, 'write', handle(c, a[0]), (('bincode', c.deep(src(c, a[1])), ()),), UNIT)
M['bincode::serialize'] = lambda c, a, ta: fork(c, 'encode', None, (), ('bincode', c.deep(src(c, a[0])), ()))
def peeled(t):
    while t[0] == 'ref': t = t[2]
    return t
def decoded(c, v, t):
    c.cnt += 1
    return ('decoded', c.cnt, v, t)
M['bincode::deserialize_from'] = lambda c, a, ta: fork(c, 'decode', handle(c, a[0]), (), lambda: decoded(c, handle(c, a[0]), ta[-1]))
M['bincode::deserialize'] = lambda c, a, ta: fork(c, 'decode', None, (), lambda: decoded(c, c.strip(a[0]), ta[-1]))

# its options: what differs from the format of the functions above
def bopt(c, v): 
    v = c.norm(c.strip(v))
    if v[0] != 'bcfg': raise Undecided('bincode options')
    return dict(v[1])
def bcfg(d): return ('bcfg', tuple(sorted((k, v) for k, v in d.items() if v is not None)))
M['bincode::config'] = lambda c, a, ta: ('bcfg', ())
M['bincode::options'] = M['bincode::config::DefaultOptions::new'] = lambda c, a, ta: bcfg({'int': 'varint', 'trailing': 'reject'})
BC = 'bincode::config::legacy::Config::'; BO = 'bincode::config::Options::'
def _bo(nm, k, val):
    def val_(c, a): return val(c, a) if callable(val) else val
    def f(c, a, ta):
        pl = target(c, a[0]); d = bopt(c, c.read(pl)); d[k] = val_(c, a); c.write(pl, bcfg(d)); return a[0]
    def g(c, a, ta):
        d = bopt(c, a[0]); d[k] = val_(c, a); return bcfg(d)
    M[BC + nm] = f; M[BO + 'with_' + nm] = g
_bo('limit', 'limit', lambda c, a: c.norm(a[1])); _bo('no_limit', 'limit', None)
_bo('little_endian', 'endian', None); _bo('native_endian', 'endian', None); _bo('big_endian', 'endian', 'big')
_bo('varint_encoding', 'int', 'varint'); _bo('fixint_encoding', 'int', None)
M[BO + 'allow_trailing_bytes'] = lambda c, a, ta: bcfg(dict(bopt(c, a[0]), trailing=None))
M[BO + 'reject_trailing_bytes'] = lambda c, a, ta: bcfg(dict(bopt(c, a[0]), trailing='reject'))
for _p in (BC, BO):
    M[_p + 'serialize_into'] = lambda c, a, ta: fork(c, 'write', handle(c, a[1]), (('bincode', c.deep(src(c, a[2])), bcfg(bopt(c, a[0]))[1]),), UNIT)
    M[_p + 'serialize'] = lambda c, a, ta: fork(c, 'encode', None, (), ('bincode', c.deep(src(c, a[1])), bcfg(bopt(c, a[0]))[1]))
    M[_p + 'deserialize_from'] = lambda c, a, ta: fork(c, 'decode', handle(c, a[1]), (), lambda: decoded(c, handle(c, a[1]), ta[-1]) + (bcfg(bopt(c, a[0]))[1],))
    M[_p + 'deserialize'] = lambda c, a, ta: fork(c, 'decode', None, (), lambda: decoded(c, c.strip(a[1]), ta[-1]) + (bcfg(bopt(c, a[0]))[1],))
M['core::io::Read::take'] = M["alloc::io::read::Read::take"] = M['core::io::read::Read::take'] = lambda c, a, ta: ('takeh', handle(c, a[0]), c.norm(a[1]))
M['core::io::Read::by_ref'] = M["alloc::io::read::Read::by_ref"] = M['core::io::read::Read::by_ref'] = lambda c, a, ta: a[0]
def _rte(c, a, ta):
    h = handle(c, a[0]); pl = target(c, a[1])
    r = fork(c, 'read', h, (), lambda: I(0))
    if rescase(c, r)[0]: c.write(pl, ('content', h))
    return r
M['core::io::Read::read_to_end'] = M['core::io::read::Read::read_to_end'] = _rte
def _fsread(c, a, ta):
    p = path(c, a[0])
    return fork(c, 'open', None, (p,), ('content', ('file', p, 0)))
M[FS + 'read'] = _fsread

# raw memory: ('ptr', array, element type of the array, byte offset); ('rawslice', pointer, type, length)
U8 = ('int', 'u8')
def sizeof(c, t): return I(1) if t == U8 else c.norm(('sizeof', t))
SIZES = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}
M['core::mem::size_of'] = lambda c, a, ta: I(1) if ta[0] == U8 else I(SIZES[ta[0][1]]) if ta[0][0] == 'int' and ta[0][1] in SIZES else ('sizeof', ta[0])
M['core::mem::align_of'] = lambda c, a, ta: I(1) if ta[0] == U8 else ('alignof', ta[0])
M['core::mem::size_of_val'] = lambda c, a, ta: (mul(vlen(c, c.strip(a[0])), sizeof(c, ta[0][1])) if ta[0][0] == 'slice' else sizeof(c, ta[0]))
def mm_elem(v, t):
    return U8 if v[0] in ('mmfile', 'mmanon') else t
@model('[]::as_ptr', '[]::as_mut_ptr', 'alloc::vec::Vec::as_ptr', 'memmap::Mmap::as_ptr')
def _(c, a, ta):
    v = c.strip(a[0])
    t = ta[0] if ta else U8
    if v[0] == 'rawslice': return v[1]
    return ('ptr', c.deep(v), mm_elem(v, t), I(0))
def ptradd(sign):
    def f(c, a, ta):
        p = c.norm(a[0])
        if p[0] != 'ptr': raise Undecided('pointer arithmetic')
        return c.norm(('ptr', p[1], p[2], add(p[3], mul(mul(c.norm(a[1]), sizeof(c, ta[0])), I(sign)))))
    return f
for _n in ('*ptr::add', '*ptr::offset', '*ptr::wrapping_add'): M[_n] = ptradd(1)
for _n in ('*ptr::sub',): M[_n] = ptradd(-1)
M['*ptr::cast'] = lambda c, a, ta: a[0]
def capacity(c, p):
    """bytes of the object behind a pointer: number of elements, element type"""
    return c.norm(vlen(c, p[1])), p[2]
def within(c, p, n, u):
    """n elements of type u from p on lie in the object p points into"""
    n = c.norm(n); S = M['core::mem::size_of'](c, [], [u])
    L, t = capacity(c, p); St = M['core::mem::size_of'](c, [], [t])
    off = c.norm(p[3])
    if t == u and off == I(0): return c.le(n, L)
    if S != I(0) and S[0] != 'int' and c.eq(S, I(0)): return True
    total = mul(L, St) if St[0] == 'int' or L[0] == 'int' else c.norm(mul(L, St))
    need_ = c.norm(add(off, mul(n, S)))
    if need_ == c.norm(total): return True
    if S == I(1) and off == I(0) and need_[0] == 'mul' and total[0] == 'mul' and any(x[0] == 'alignof' for x in need_[1:]):
        if c.norm(replace(need_, {('alignof', t): ('sizeof', t)})) == c.norm(total): return True       # the alignment never exceeds the size
    if S == I(1): return c.le(need_, total)
    if off == I(0):
        if n == I(0): return True
        if n[0] == 'op' and n[1] == 'Div' and n[3] == S and t == U8: return c.le(n[2], L)      # rounding down is monotone
        if t == U8: return c.le(n, c.norm(('op', 'Div', L, S)))
    if n == I(0): return c.le(off, total)
    # an offset of whole elements into an array of bytes
    k = whole(off, S)
    if k is not None and t == U8: return c.le(add(n, k), c.norm(('op', 'Div', L, S)))
    if k is not None and t == u: return c.le(add(n, k), L)
    raise Undecided('bounds of a raw slice: %s elements at offset %s of %s' % (show(n)[:60], show(off)[:60], show(total)[:60]))
def whole(off, S):
    if off == I(0): return I(0)
    if off == S: return I(1)
    if off[0] == 'mul' and S in off[1:]:
        r = [x for x in off[1:]]; r.remove(S)
        return r[0] if len(r) == 1 else ('mul',) + tuple(r)
    return None
@model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut')
def _(c, a, ta):
    p = c.norm(a[0]); n = c.norm(a[1]); u = [t for t in ta if t != ('lt',)][0]
    if p[0] != 'ptr': raise Undecided('pointer of unknown origin')
    if not within(c, p, n, u):
        raise c.Fail('bounds', 'a slice of %s elements of type %s is made from memory of %s elements of type %s' % (show(n)[:80], tname(u), show(capacity(c, p)[0])[:80], tname(p[2])))
    if p[2] == u and c.norm(p[3]) == I(0) and n == c.norm(vlen(c, p[1])): return ('rv', p[1])
    return ('rv', ('rawslice', p, u, n))
def tname(t): return t[1].split('::')[-1] if len(t) > 1 and isinstance(t[1], str) else str(t[0])
@model('[]::get_unchecked')
def _(c, a, ta):
    v = c.strip(a[0]); i = c.norm(a[1])
    if i[0] == 'adt' and 'range' in i[1]:
        lo, hi = models.slice_range(c, v, i)
        if not c.le(lo, hi) or not c.le(hi, vlen(c, v)): raise c.Fail('bounds', 'unchecked range beyond %s elements' % show(vlen(c, v))[:80])
        return ('rv', vslice(c, v, lo, hi))
    if not c.lt(i, vlen(c, v)): raise c.Fail('bounds', 'unchecked index beyond %s elements' % show(vlen(c, v))[:80])
    return ('rv', models.vget(c, v, i))
# memory maps
def mapping(c, a, ta):
    h = handle(c, a[0])
    if c.eq(c.norm(('fsize', h)), I(0)): return err(('ioerr', 'emptymap', h))
    return fork(c, 'map', h, (), ('mmfile', h))
M['memmap::Mmap::map'] = M['memmap::MmapMut::map_mut'] = mapping
M['memmap::MmapMut::map_anon'] = lambda c, a, ta: err(('ioerr', 'emptymap')) if c.eq(a[0], I(0)) else fork(c, 'map', None, (), ('mmanon', c.norm(a[0])))
M['memmap::MmapMut::make_read_only'] = M['memmap::Mmap::make_mut'] = lambda c, a, ta: fork(c, 'map', None, (), c.strip(a[0]))
M['core::ops::deref::Deref::deref'] = lambda c, a, ta: (('rv', c.strip(a[0])) if thead_mm(ta) else models.M['core::ops::deref::Deref::deref'](c, a, ta))
M['core::ops::arith::Add::add'] = lambda c, a, ta: (cat(c, a[0], a[1]) if ta and ta[0][0] == 'adt' and ta[0][1].split('::')[-1] == 'String' else models.M['core::ops::arith::Add::add'](c, a, ta))
def thead_mm(ta): return bool(ta) and ta[0][0] == 'adt' and ta[0][1].split('::')[-1] in ('Mmap', 'MmapMut', 'String', 'PathBuf', 'OsString')

def install(c, faults=True):
    from report import Fail
    c.Fail = Fail
    c.io_faults = faults
    c.models = dict(c.models); c.models.update(M)
    ee = 'core::cmp::PartialEq::'
    def kindeq(neg):
        def f(cc, a, ta):
            x, y = cc.strip(a[0]), cc.strip(a[1])
            if x[0] != 'ekind' and y[0] != 'ekind': return NotImplemented
            if y[0] == 'ekind': x, y = y, x
            if y[0] != 'adt': raise Undecided('comparison of error kinds')
            return ('b', iskind(cc, x, y[2]) != neg)
        return f
    c.overrides[ee + 'eq'] = kindeq(False); c.overrides[ee + 'ne'] = kindeq(True)
    return c
def iskind(c, k, v):
    if k[1][:2] == ('ioerr', 'missing'): return v == notfound(c)
    return c.decide(c.norm(('isv', k, v)))
def notfound(c):
    for u, a in c.F.adts.items():
        if u.endswith('io::error::ErrorKind') and 'bincode' not in u and a['kind'] == 'enum':
            for i, x in enumerate(a['variants']):
                if x['n'] == 'NotFound': return i
    return 0
