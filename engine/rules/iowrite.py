"""C16: a write that is reported as successful is complete"""
from terms import *
from core import Ctx, Inductive
import models, iomodel as io
from models import vlen, vslice, some, NONE, UNIT, rescase, ok, err
from report import need, Fail
from world import Missing

def subject(W): return W

K = ('sym', 'K@')

# ---------------------------------------------------------------- contracts of the crate's own write functions
def dump_name(W): return W.F.cn(W.function('dump'))
def contracts(W, c, which):
    """the crate's own primitives by what this rule decides about them: they either write everything or return the error"""
    F = W.F
    def opt_fn(f):
        try: return f()
        except Missing: return None
    if 'dump' in which:
        u = opt_fn(lambda: W.function('dump'))
        if u: c.overrides[F.cn(u)] = lambda cc, a, ta: io.fork(cc, 'dump', io.handle(cc, a[1]), (ta[-1], cc.deep(cc.strip(a[0]))), UNIT)
    if 'export' in which:
        u = opt_fn(lambda: W.inherent(W.adt('Serializer'), 'export'))
        if u:
            def export(cc, a, ta):
                p = io.path(cc, a[1])
                return io.fork(cc, 'export', ('file', p, 'export'), (p, io.peeled(ta[0]), cc.deep(io.src(cc, a[0]))), UNIT)
            c.overrides[F.cn(u)] = export
    if 'stale' in which:
        u = opt_fn(lambda: W.function('remove_stale'))
        if u:
            def stale(cc, a, ta):
                p = io.path(cc, a[0])
                return io.fork(cc, 'remove', None, (p,), UNIT)
            c.overrides[F.cn(u)] = stale
    if 'bytes' in which:
        u = opt_fn(lambda: W.function('typed_as_byte_slice'))
        if u: c.overrides[F.cn(u)] = lambda cc, a, ta: ('rv', ('bytes', cc.deep(cc.strip(a[0])), ta[0]))

# ---------------------------------------------------------------- the obligation
def notfound(c, e, guards=()):
    at = ('isv', ('ekind', e), io.notfound(c))
    return c.known(c.norm(at)) is True or any(b and a == at for a, b in guards)

def errors(c, ops, guards=()):
    for o in ops:
        if o[0] == 'io' and o[4] == 'err':
            e = o[3][-1]
            if o[1] == 'remove' and notfound(c, e, guards): continue
            return o
        if o[0] in ('each', 'some'):
            for al in o[1]:
                x = errors(c, al[2], guards + tuple(al[1]))
                if x: return x
        if o[0] == 'loop':
            for al in o[1]:
                x = errors(c, al, guards)
                if x: return x
    return None

WHAT = {'create': 'creating a file', 'open': 'opening a file', 'write': 'a write', 'flush': 'a flush', 'remove': 'removing a file', 'dump': 'dumping an array', 'export': 'serializing', 'encode': 'serializing',
        'sync': 'a sync', 'setlen': 'resizing a file', 'stat': 'reading the size of a file', 'decode': 'reading'}

def buffered(h): return h[0] in ('bufw', 'csvw', 'sym')

def flushed(c):
    """every handle that bytes went into has been flushed after its last write"""
    dirty = {}
    def walk(ops, top):
        for o in ops:
            if o[0] == 'io':
                if o[1] in ('write', 'dump', 'written') and isinstance(o[2], tuple) and any(buffered(h) for h in io.under(o[2])) and o[1] != 'dump': dirty[o[2]] = o
                if o[1] == 'flush' and o[4] == 'ok':
                    for h in list(dirty):
                        if o[2] == h or o[2] in io.under(o[2]) and h in io.under(o[2]): dirty.pop(h)
            elif o[0] in ('each', 'some'):
                for al in o[1]:
                    keep = dict(dirty); walk(al[2], False)
                    for h, x in keep.items(): dirty.setdefault(h, x)
            elif o[0] == 'loop':
                for al in o[1]:
                    keep = dict(dirty); walk(al, False)
                    for h, x in keep.items(): dirty.setdefault(h, x)
    walk(c.ops, True)
    return dirty

def complete(c, r, ob='complete'):
    s, p = rescase(c, r)
    if not s: return False
    e = errors(c, c.ops)
    if e is not None:
        raise Fail(ob, '%s fails, but success is returned' % WHAT.get(e[1], e[1]))
    d = flushed(c)
    if d: raise Fail(ob, 'bytes left in a buffer (%s) when success is returned: nothing reports a failure to write them' % {'bufw': 'BufWriter', 'csvw': 'csv::Writer', 'sym': 'the given writer'}[[h for h in io.under(list(d)[0]) if buffered(h)][0][0]])
    return True

# ---------------------------------------------------------------- covering an array with writes
def covered(c, ops, B, n):
    """upper end of the contiguous prefix of B that has been written; Fail when a write does not continue it"""
    pos = I(0)
    for o in ops:
        if o[0] == 'short': continue
        if o[0] in ('each', 'some', 'loop'):
            if o[0] == 'each' and len(o[1]) == 1 and not [g for g in o[1][0][1]] and len(o[2:]) and o[2] == 'seq':
                al = [x for x in o[1][0][2] if x[0] == 'io' and x[1] == 'write']
                if len(al) == 1 and al[0][3][0][0] == 'chunk':
                    v = al[0][3][0][1]
                    o = ('io', 'write', al[0][2], (v,), 'ok')
                else: raise Undecided('writes in a loop')
            elif any(x[1] == 'write' for x, _ in io.flat([o])): raise Undecided('writes in a loop')
            else: continue
        if o[0] != 'io' or o[4] != 'ok': continue
        if o[1] == 'written': pos = o[3][1]; continue
        if o[1] != 'write': continue
        d = c.norm(o[3][0])
        if d == B: lo, hi = I(0), n
        elif d[0] == 'vslice' and d[1] == B: lo, hi = d[2], d[3]
        elif d[0] == 'arr' and not d[1]: continue
        else: raise Undecided('bytes written: %s' % show(d)[:80])
        if not c.eq(lo, pos): raise Fail('complete', 'writes bytes from %s on after %s bytes have been written' % (show(lo)[:60], show(pos)[:60]))
        pos = c.norm(hi)
    return pos

def dump(R, W, only=None):
    F = W.F
    uid = W.function('dump')
    c = Ctx(F, None); c.models = dict(models.M); c.overrides = {}
    io.install(c); contracts(W, c, ('bytes',))
    B = ('bytes', ('sym', 'data'), ('param', 'T')); n = None
    st = {}
    b = F.bodies[uid]
    g = F.defs[uid]['generics']
    def havoc(cc, l, p, init, k):
        init = cc.norm(init); v = cc.strip(init)
        if v == B or v[0] == 'vslice' and v[1] == B and cc.eq(v[3], vlen(cc, B)): return ('rv', ('vslice', B, K, vlen(cc, B))) if init[0] in ('rv', 'ref') else ('vslice', B, K, vlen(cc, B))
        if init[0] == 'int': return K
        raise Undecided('loop state %s' % show(init)[:60])
    def inv(cc, hv, init):
        cc.assume(('lt', vlen(cc, B), K), False)
        st['n0'] = len(cc.ops)
        if st.get('H') is not None: cc.ops.append(('io', 'written', st['H'], (B, K), 'ok'))
        st['hv'] = dict(hv)
    def at(v, cc):
        v = cc.strip(v)
        if v == B: return I(0)
        if v[0] == 'vslice' and v[1] == B: return v[2]
        return v
    def hook(fr, bb, outer):
        if outer is not None or fr.uid != uid and False: return None
        # loops over an iterator are summarised
        if iterates(F, fr, bb): return None
        L = Inductive(fr, bb, outer, havoc, inv); st.setdefault('L', []).append(L); return L
    c.loophook = hook
    def th():
        st.clear(); st['H'] = ('sym', 'W')
        a = [('rv', ('sym', 'data')), ('sym', 'W')]
        r = c.call_uid(uid, a, dict((x, ('param', x)) for x in g))
        Ls = st.get('L', [])
        if len(Ls) > 1: raise Undecided('more than one loop')
        if Ls and Ls[0].havoc:
            L = Ls[0]
            side = c.choose(1 + len(L.backs))
            if side:
                v, s = L.backs[side - 1]
                c.restore(s)
                if errors(c, c.ops): raise Fail('complete', 'goes on after a write that failed')
                pos = covered(c, c.ops, B, vlen(c, B))
                ks = [c.read(k) for k in L.havoc]
                if len(ks) != 1: raise Undecided('loop state')
                k2 = at(ks[0], c)
                need(c, c.eq(pos, k2), 'complete', 'an iteration writes up to %s but goes on from %s' % (show(pos)[:80], show(k2)[:80]))
                need(c, c.le(k2, vlen(c, B)), 'complete', 'runs past the end of the array')
                return UNIT
            k0 = [at(v, c) for v in L.init.values()]
            if len(k0) != 1: raise Undecided('loop state')
            need(c, c.eq(k0[0], I(0)), 'complete', 'the first bytes are not written')
        if not complete(c, r): return UNIT
        pos = covered(c, c.ops, B, vlen(c, B))
        need(c, c.eq(pos, vlen(c, B)), 'complete', 'returns success with %s of %s bytes written' % (show(pos)[:80], show(vlen(c, B))[:60]))
        return UNIT
    R.run('array', uid, c, th, nopanic=False)

def iterates(F, fr, bb):
    for b in fr.loops[bb]:
        blk = fr.b['bbs'][b]
        if blk and blk[1][0] == 'call' and blk[1][1][0] == 'k':
            t = F.ty(blk[1][1][1]['t'])
            if t[0] == 'fndef' and F.cn(t[1]).endswith('Iterator::next'): return True
    return False


# ---------------------------------------------------------------- the other functions
def plain(W, which):
    c = Ctx(W.F, None); c.models = dict(models.M); c.overrides = {}
    io.install(c); contracts(W, c, which)
    return c

def stale(R, W):
    try: uid = W.function('remove_stale')
    except Missing: return
    c = plain(W, ())
    g = W.F.defs[uid]['generics']
    def th():
        r = c.call_uid(uid, [('sym', 'path')], {x: ('param', x) for x in g})
        s, p = rescase(c, r)
        if s:
            e = errors(c, c.ops)
            need(c, e is None, 'complete', 'an error other than "not found" is dropped')
            need(c, any(o[0] == 'io' and o[1] == 'remove' for o in c.ops), 'complete', 'nothing is removed')
        return UNIT
    R.run('remove-stale', uid, c, th, nopanic=False)

def export(R, W):
    F = W.F
    sz = W.adt('Serializer')
    uid = W.inherent(sz, 'export')
    c = plain(W, ())
    g = F.defs[uid]['generics']
    def th():
        r = c.call_uid(uid, [('rv', ('sym', 'obj')), ('sym', 'path')], {x: ('param', x) for x in g})
        if complete(c, r):
            w = [o for o in c.ops if o[0] == 'io' and o[1] in ('write', 'export')]
            need(c, len(w) >= 1, 'complete', 'nothing is written')
        return UNIT
    R.run('export', uid, c, th, nopanic=False)
    tr = W.trait('Serialize')
    for nm, iu, d in F.traits[tr]['items']:
        if nm != 'export' or iu not in F.bodies: continue
        c = plain(W, ('export',))
        def th(c=c, iu=iu):
            r = c.call_uid(iu, [('rv', ('sym', 'obj')), ('sym', 'path')], {x: ('param', x) for x in F.defs[iu]['generics']})
            if complete(c, r): need(c, any(o[0] == 'io' and o[1] in ('export', 'write') for o in c.ops), 'complete', 'nothing is written')
            return UNIT
        R.run('trait-export', iu, c, th, nopanic=False)

def edgevec(R, W):
    from subjects import StaticSubj
    S = StaticSubj(W, 'mem')
    F = W.F
    for cfg in S.configs():
        for what in ('edge-arrays', 'graph'):
            if what == 'edge-arrays' and not cfg[1]: continue
            c = S.ctx(cfg)
            io.install(c); contracts(W, c, ('dump', 'export', 'stale'))
            uid = W.inherent(S.ev if what == 'edge-arrays' else S.uid, 'dump_mmap')
            def th(c=c, what=what, uid=uid):
                l = S.new(c)
                if what == 'graph':
                    t = S.selfty(c.directed)
                    env = self_env(W, uid, t); me = ('ref', l, ())
                else:
                    env = self_env(W, uid, S.W.selfof('EdgeVecTrait', S.ev)); me = ('ref', l, (('f', S.f['out']),))
                r = c.call_uid(uid, [me, ('rv', ('sym', 'prefix'))], env)
                complete(c, r)
                return UNIT
            R.run('%s(%s)' % (what, cfg[0]), uid, c, th, nopanic=False)

def self_env(W, uid, t):
    """type arguments of an inherent method for a self type"""
    from core import unify_ty
    for i in W.F.impls.values():
        if any(z[1] == uid for z in i['items']):
            env = {}
            if unify_ty(W.F.ty(i['self']), t, env): return env
    return {x: ('param', x) for x in W.F.defs[uid].get('generics', [])}

def csvctx(W, d, faults=True, **kw):
    from absgraph import gctx
    c = gctx(W, {'g': d})
    m = c.models
    io.install(c, faults)
    contracts(W, c, ())
    return c

def csv(R, W):
    F = W.F
    wt = W.adt('CSVWriter')
    new, write = W.inherent(wt, 'new'), W.inherent(wt, 'write')
    for d in (True, False):
        c = csvctx(W, d)
        def th(c=c):
            l = c.alloc(('G', 'g'), 'G')
            env = {x: ('param', x) for x in F.defs[new]['generics']}
            w = c.call_uid(new, [('ref', l, ()), ('sym', 'nodesfile'), ('sym', 'edgesfile')], env)
            wl = c.alloc(w, 'w')
            r = c.call_uid(write, [('ref', wl, ())], {x: ('param', x) for x in F.defs[write]['generics']})
            if complete(c, r):
                need(c, len({o[2] for o, _ in io.flat(c.ops) if o[1] == 'create' and o[4] == 'ok'}) >= 2, 'complete', 'fewer than two files are created')
            return UNIT
        R.run('csv(%s)' % ('directed' if d else 'undirected'), write, c, th, nopanic=False)
    try: uid = W.function('write_to_csv')
    except Missing: return
    c = csvctx(W, True)
    def th():
        l = c.alloc(('G', 'g'), 'G')
        r = c.call_uid(uid, [('ref', l, ()), ('sym', 'nodesfile'), ('sym', 'edgesfile')], {x: ('param', x) for x in F.defs[uid]['generics']})
        complete(c, r)
        return UNIT
    R.run('write_to_csv', uid, c, th, nopanic=False)

WRITES = ('std::fs::File::create', 'core::io::write::Write::', 'alloc::io::buffered::bufwriter::', 'bincode::serialize', 'csv::writer::', 'std::fs::write', 'std::fs::OpenOptions::open', 'std::fs::remove', 'std::fs::rename', 'std::fs::copy')
def inventory(R, W):
    """every function of the crate that writes to files is among those decided"""
    F = W.F
    seen = R.functions
    for u, b in sorted(F.bodies.items()):
        if not u.startswith('rust_graph::') or '#test' in u: continue
        calls = set()
        for blk in b['bbs']:
            if blk and blk[1][0] == 'call' and blk[1][1][0] == 'k':
                t = F.ty(blk[1][1][1]['t'])
                if t[0] == 'fndef' and F.cn(t[1]).startswith(WRITES): calls.add(F.cn(t[1]))
        if not calls: continue
        ob = 'inventory'
        if F.cn(u) in seen: R.ok(ob, F.cn(u), 'decided: ' + ', '.join(sorted(calls)), R.spanof(u))
        else: R.und(ob, F.cn(u), 'writes files but is not among the functions decided: ' + ', '.join(sorted(calls)), R.spanof(u))

def c16(R, W):
    dump(R, W); stale(R, W); export(R, W); edgevec(R, W); csv(R, W); inventory(R, W)
