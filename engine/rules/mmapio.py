"""C15: what the memory-mapped dump writes is what the loader reads.  C17: safe access stays inside the array."""
from terms import *
from core import Ctx
import models, iomodel as io
from models import vlen, vslice, some, NONE, UNIT, opt, rescase, ok, err
from report import need, need_eq, Fail
from world import Missing, head_of
from subjects import StaticSubj
from rules.iowrite import contracts, self_env

def subject(W): return W

STALE = 'stale'

def loader(W, c):
    """contracts of the mapping and of the auxiliary file (decided by C17 and C18): the file's contents, with its type"""
    F = W.F
    tm = W.adt('TypedMemoryMap')
    def tmm(cc, a, ta):
        p = io.path(cc, a[0]); t = ta[0]
        s = io.fstate(cc, p)
        if s is None:
            if not io.exists(cc, p): raise Panic('error opening file %s' % show(p), cc.span())
            return ('tmm', ('oldfile', p))
        if s[0] == 'absent': raise Panic('error opening a file that is not there', cc.span())
        if s[0] != 'written': raise Fail('layout', 'an array is loaded from a file that holds something else')
        cont = io.contents(cc, s[1])
        if s[2][1] == 'keep': return ('tmm', ('oldfile', p))
        if len(cont) != 1 or s[2][1] != 'trunc': raise Undecided('contents of %s' % show(p))
        o = cont[0]
        if o[1] == 'dump': et, v = o[3]
        else:
            d = cc.norm(o[3][0])
            if d[0] != 'bytes': raise Undecided('contents of %s' % show(p))
            v, et = d[1], d[2]
        if et != t: raise Fail('layout', 'array of %s is loaded as an array of %s' % (tyname(et), tyname(t)))
        return ('tmm', v)
    c.overrides[F.cn(W.inherent(tm, 'new'))] = tmm
    de = W.adt('Deserializer')
    def imp(cc, a, ta):
        p = io.path(cc, a[0]); t = ta[0]
        s = io.fstate(cc, p)
        if s is None:
            return ok(('oldaux', p, t)) if io.exists(cc, p) else err(('ioerr', 'missing', p))
        if s[0] == 'absent': return err(('ioerr', 'missing', p))
        if s[0] != 'export': raise Fail('layout', 'the auxiliary data is read from a file that holds an array')
        if s[1] != t:
            raise Fail('layout', 'auxiliary data of type %s is read as %s' % (tyname(s[1]), tyname(t)))
        return ok(s[2])
    c.overrides[F.cn(W.inherent(de, 'import'))] = imp

def tyname(t):
    if t[0] == 'param': return t[1]
    if t[0] == 'int': return t[1]
    if t[0] == 'adt': return t[1].split('::')[-1] + ('<%s>' % ', '.join(tyname(x) for x in t[2]) if t[2] else '')
    return str(t[0])

def c15(R, W):
    F = W.F
    S = StaticSubj(W, 'mem'); M = StaticSubj(W, 'mmap')
    dump = W.inherent(S.uid, 'dump_mmap'); load = W.inherent(M.uid, 'new')
    # the loader's element types by the type arguments of the dumped graph
    for cfg in S.configs():
      for noaux in (False, True):
        c = S.ctx(cfg)
        io.install(c, False); contracts(W, c, ('dump', 'export', 'stale')); loader(W, c); c.unroll = True; c.loophook = models.unroll_hook
        def th(c=c, noaux=noaux):
            l = S.new(c)
            st = S.selfty(c.directed)
            r = c.call_uid(dump, [('ref', l, ()), ('rv', ('sym', 'prefix'))], self_env(W, dump, st))
            s, p = rescase(c, r)
            if not s: raise Fail('names', 'dumping fails without an I/O error')
            if noaux:                                   # the auxiliary file is lost afterwards
                ex = [o for o, k in io.flat(c.ops) if o[0] == 'io' and o[1] == 'export' and o[4] == 'ok']
                if not ex: raise Undecided('no auxiliary file')
                for o in ex: c.ops.append(('io', 'remove', None, (o[3][0],), 'ok'))
            env = self_env(W, load, M.ty)
            if {x for x in env.values()} - {x for x in st[2]}: raise Undecided('type parameters of the loader')
            m = c.call_uid(load, [('rv', ('sym', 'prefix'))], env)
            m = c.deep(m)
            if m[0] != 'adt' or m[1] != M.uid: raise Undecided('result of the loader')
            g = c.norm(c.read((l, ())))
            old = [t for t in sub_terms(m) if t and t[0] in ('oldfile', 'oldaux')]
            if old:
                raise Fail('names', 'the loader opens %s, which this dump did not write' % show(old[0][1]))
            get = lambda k: c.norm(m[3][M.f[k]]); src = lambda k: c.norm(c.proj(g, ('f', S.f[k])))
            need_eq(c, get('n'), src('n'), 'counts', 'node count after loading')
            if noaux:
                # what the arrays alone tell: entries of the edge array, halved when each edge is stored twice
                ents = c.norm(vlen(c, arr(c, c.norm(c.proj(c.strip(get('out')), ('f', M.evroles.index('edges')))))))
                cnt = get('m')
                if c.directed: need_eq(c, cnt, ents, 'counts', 'edge count after loading without auxiliary file')
                elif cnt not in [c.norm(('op', 'Shr', ents, I(1))), c.norm(('op', 'Div', ents, I(2)))]:
                    if cnt == ents or cnt == src('n') or cnt[0] == 'int': raise Fail('counts', 'edge count after loading without auxiliary file: %s' % show(cnt)[:80])
                    raise Undecided('edge count without auxiliary file: %s' % show(cnt)[:80])
                for k in ('nl', 'el'):
                    t = get(k)
                    if contains(t, lambda x: x[0] in ('oldaux',)): raise Fail('tables', 'label table from a file that is not there')
                    need(c, empty_table(c, W, t), 'tables', 'a label table is not empty after loading without auxiliary file')
            else:
                need_eq(c, get('m'), src('m'), 'counts', 'edge count after loading')
                need_eq(c, get('nl'), src('nl'), 'tables', 'node label table after loading')
                need_eq(c, get('el'), src('el'), 'tables', 'edge label table after loading')
            same_opt(c, get('labels'), src('labels'), 'node labels')
            same_ev(c, S, M, get('out'), src('out'), 'out-edges')
            s1, x1 = opt(c, get('in')); s2, x2 = opt(c, src('in'))
            need(c, s1 == s2, 'absent', 'in-edges are %s after loading, but were %s' % (('absent', 'present')[s1], ('absent', 'present')[s2]))
            if s1: same_ev(c, S, M, x1, x2, 'in-edges')
            return UNIT
        R.run(('without auxiliary file(%s)' if noaux else 'round-trip(%s)') % cfg[0], dump, c, th, panic_ob='names')

    constructors(R, W, True)

def sub_terms(t):
    yield t
    for x in t:
        if isinstance(x, tuple): yield from sub_terms(x)

def arr(c, v):
    v = c.strip(v)
    if v[0] == 'tmm': v = c.strip(v[1])
    return v
def same_arr(c, a, b, what):
    a, b = arr(c, a), arr(c, b)
    if a == b: return
    if c.eq(vlen(c, a), I(0)) and c.eq(vlen(c, b), I(0)): return
    need_eq(c, a, b, 'contents', '%s after loading' % what)
def same_opt(c, a, b, what):
    """an optional array; an empty one may be absent"""
    s, x = opt(c, a); t, y = opt(c, b)
    if s and t: return same_arr(c, x, y, what)
    if s == t: return
    z = arr(c, x if s else y)
    need(c, c.eq(vlen(c, z), I(0)), 'absent', '%s are %s after loading, but were %s' % (what, ('absent', 'present')[s], ('absent', 'present')[t]))
def same_ev(c, S, M, a, b, what):
    a, b = c.strip(a), c.strip(b)
    if a[0] != 'adt' or b[0] != 'adt': raise Undecided('edge vector')
    for i, r in enumerate(M.evroles):
        x = a[3][i]; y = b[3][S.evroles.index(r)]
        if r == 'labels': same_opt(c, x, y, '%s of %s' % (r, what))
        else: same_arr(c, x, y, '%s of %s' % (r, what))

def empty_table(c, W, t):
    l = c.alloc(t, 'table')
    u, env = W.method(W.selfof('MapTrait', W.adt('SetMap')), 'MapTrait', 'len')
    return c.eq(c.call_uid(u, [('ref', l, ())], dict(env)), I(0))

# ---------------------------------------------------------------- C17
def ctx(W, faults=False):
    c = Ctx(W.F, None); c.models = dict(models.M); c.overrides = {}
    io.install(c, faults)
    return c

def tmm_fields(W):
    """(map index, len index) of TypedMemoryMap and whether safe code outside can set them"""
    F = W.F; tm = W.adt('TypedMemoryMap')
    fs = F.adts[tm]['variants'][0]['f']
    ln = [i for i, f in enumerate(fs) if F.ty(f['t'])[0] == 'int']
    mp = [i for i, f in enumerate(fs) if head_of(F.ty(f['t'])) and 'Mmap' in str(head_of(F.ty(f['t'])))]
    if len(mp) != 1 or len(ln) > 1: raise Missing('fields of TypedMemoryMap')
    return mp[0], ln[0] if ln else None, any(fs[i].get('vis') == 'Public' for i in mp + ln)

def tmm_value(W, c, arbitrary):
    F = W.F; tm = W.adt('TypedMemoryMap'); mp, ln, _ = tmm_fields(W)
    vals = []
    for i, f in enumerate(F.adts[tm]['variants'][0]['f']):
        vals.append(('mmfile', ('file', ('sym', 'F'), 0)) if i == mp else ('sym', 'len') if i == ln else UNIT)
    if not arbitrary and ln is not None: vals[ln] = c.norm(('op', 'Div', ('fsize', ('file', ('sym', 'F'), 0)), ('sizeof', ('param', 'T'))))
    return ('adt', tm, 0, tuple(vals))

def c17(R, W):
    bounds(R, W); views(R, W); inventory(R, W)

def constructors(R, W, exact):
    F = W.F; tm = W.adt('TypedMemoryMap'); mp, ln, pub = tmm_fields(W)
    T = ('param', 'T'); S = ('sizeof', T)
    for u, d in sorted(F.defs.items()):
        if d.get('impl_self') != tm or d.get('trait') or u not in F.bodies: continue
        b = F.bodies[u]
        if head_of(F.ty(b['locals'][0])) != tm: continue
        nargs = b['args'] if isinstance(b.get('args'), int) else d.get('nargs', 1)
        c = ctx(W)
        def th(u=u, c=c, d=d):
            t = F.ty(F.bodies[u]['locals'][1])
            file = ('file', ('sym', 'F'), 0)
            if 'Mmap' in str(head_of(t)): a = ('mmfile', file)
            else:
                a = ('sym', 'F')
                c.assume(('onfile', ('sym', 'F')), True)
            r = c.call_uid(u, [a], {x: ('param', x) for x in d['generics']})
            r = c.deep(r)
            if r[0] != 'adt': raise Undecided('result of a constructor')
            m = c.norm(r[3][mp])
            n = c.norm(r[3][ln]) if ln is not None else None
            if not exact:
                if n is not None and not io.within(c, ('ptr', m, io.U8, I(0)), n, T):
                    raise Fail('count', 'the element count %s exceeds what is mapped' % show(n)[:80])
                return UNIT
            # what indexing yields is what the file holds
            l = c.alloc(r, 'm')
            full = full_index(W, c, l)
            k = vlen(c, full)
            if c.eq(S, I(0)): return UNIT
            need(c, c.eq(k, c.norm(('op', 'Div', ('fsize', file), S))), 'contents', 'an array of %s elements is loaded from a file of %s' % (show(k)[:60], show(c.norm(('op', 'Div', ('fsize', file), S)))[:60]))
            if not c.eq(('fsize', file), I(0)):
                need(c, m == ('mmfile', file), 'contents', 'something else than the file is mapped')
            return UNIT
        R.run('constructor' if not exact else 'mapping', u, c, th)

def index_impls(W):
    F = W.F; tm = W.adt('TypedMemoryMap'); out = {}
    for im in F.by_trait.get('core::ops::index::Index', []):
        if head_of(F.ty(im['self'])) != tm: continue
        ix = F.arg(im['targs'][1])
        for nm, iu, _ in im['items']:
            if nm == 'index': out[iu] = ix
    return out
def full_index(W, c, l):
    for u, ix in index_impls(W).items():
        if head_of(ix) and str(head_of(ix)).endswith('RangeFull'):
            return c.strip(c.call_uid(u, [('ref', l, ()), ('adt', head_of(ix), 0, ())], {'T': ('param', 'T')}))
    raise Missing('index by ..')

def bounds(R, W):
    F = W.F
    mp, ln, pub = tmm_fields(W)
    constructors(R, W, False)
    for u, ix in sorted(index_impls(W).items()):
        nm = str(head_of(ix)).split('::')[-1]
        c = ctx(W)
        a, b = ('sym', 'a'), ('sym', 'b')
        arg = {'RangeFull': (), 'RangeFrom': (a,), 'RangeTo': (b,), 'Range': (a, b), 'RangeInclusive': (a, b), 'RangeToInclusive': (b,)}.get(nm)
        def th(u=u, ix=ix, nm=nm, arg=arg, c=c):
            l = c.alloc(tmm_value(W, c, pub), 'm')
            i = ('adt', head_of(ix), 0, arg) if arg is not None else a
            full = None
            if nm != 'RangeFull': full = full_index(W, c, l)
            try: r = c.strip(c.call_uid(u, [('ref', l, ()), i], {'T': ('param', 'T')}))
            except Panic:
                if full is None: raise Fail('bounds', 'indexing the whole array panics')
                n = vlen(c, full)
                if nm == 'RangeFrom': okk = not c.le(a, n)
                elif nm == 'RangeTo': okk = not c.le(b, n)
                elif nm == 'Range': okk = not (c.le(a, b) and c.le(b, n))
                else: okk = True
                need(c, okk, 'range', 'a request inside the array panics')
                return UNIT
            if nm == 'RangeFull':
                if r[0] not in ('rawslice',) and r[0] not in ('mmfile',): raise Undecided('result of indexing: %s' % show(r)[:60])
                return UNIT
            n = vlen(c, full)
            lo, hi = {'RangeFrom': (a, n), 'RangeTo': (I(0), b), 'Range': (a, b), 'RangeInclusive': (a, add(b, I(1))), 'RangeToInclusive': (I(0), add(b, I(1)))}.get(nm, (None, None))
            if lo is None: raise Undecided('index type %s' % nm)
            need(c, c.le(lo, hi) and c.le(hi, n), 'range', 'a request outside the array is answered')
            w = vslice(c, full, lo, hi)
            got = piece(c, r); want = piece(c, w)
            if got is None or want is None: raise Undecided('result of indexing: %s' % show(r)[:80])
            need(c, got[0] == want[0] and c.eq(got[1], want[1]) and c.eq(got[2], want[2]), 'range', 'elements %s..%s are returned for %s..%s' % (show(got[1])[:40], show(got[2])[:40], show(want[1])[:40], show(want[2])[:40]))
            return UNIT
        R.run('index[%s]' % nm, u, c, th)

def piece(c, v):
    """(pointer, first, end) of a part of a raw slice"""
    v = c.strip(v)
    lo, hi = I(0), vlen(c, v)
    if v[0] == 'vslice': lo, hi = v[2], v[3]; v = c.strip(v[1])
    if v[0] == 'rawslice':
        k = io.whole(c.norm(v[1][3]), io.M['core::mem::size_of'](c, [], [v[2]]))
        if k is None: return None
        return (v[1][:3], v[2]), c.norm(add(lo, k)), c.norm(add(hi, k))
    return (v,), lo, hi

def views(R, W):
    """the byte view of an array"""
    F = W.F
    try: u = W.function('typed_as_byte_slice')
    except Missing: return
    c = ctx(W)
    def th():
        arr_ = ('sym', 'arr')
        r = c.strip(c.call_uid(u, [('rv', arr_)], {x: ('param', x) for x in F.defs[u]['generics']}))
        T = ('param', F.defs[u]['generics'][-1])
        if r[0] != 'rawslice': raise Undecided('result: %s' % show(r)[:60])
        n = c.norm(mul(vlen(c, arr_), ('sizeof', T)))
        need(c, r[2] == io.U8 and r[1][1] == arr_ and c.norm(r[1][3]) == I(0), 'view', 'the byte view does not start at the array')
        need(c, c.norm(r[3]) == n or c.eq(r[3], n), 'view', 'the byte view has %s bytes instead of %s' % (show(r[3])[:80], show(n)[:80]))
        return UNIT
    R.run('byte-view', u, c, th)

UNSAFE = ('core::slice::raw::', '[]::get_unchecked', '*ptr::', 'core::intrinsics::transmute', 'core::ptr::', 'core::mem::transmute', 'core::str::converts::from_utf8_unchecked', 'alloc::vec::Vec::from_raw_parts', 'alloc::vec::Vec::set_len', 'core::mem::maybe_uninit', 'core::hint::unreachable_unchecked')
def inventory(R, W):
    """every raw access of the crate is in a function decided here"""
    F = W.F
    for u, b in sorted(F.bodies.items()):
        if not u.startswith('rust_graph::'): continue
        calls = set()
        for blk in b['bbs']:
            if blk and blk[1][0] == 'call' and blk[1][1][0] == 'k':
                t = F.ty(blk[1][1][1]['t'])
                if t[0] == 'fndef' and F.cn(t[1]).startswith(UNSAFE): calls.add(F.cn(t[1]))
        if not calls: continue
        if F.cn(u) in R.functions: R.ok('inventory', F.cn(u), 'decided: ' + ', '.join(sorted(calls)), R.spanof(u))
        else: R.und('inventory', F.cn(u), 'raw access outside the functions decided: ' + ', '.join(sorted(calls)), R.spanof(u))
