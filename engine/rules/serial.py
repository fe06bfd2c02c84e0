"""C18: the serialized form covers the complete state."""
from terms import *
from core import Ctx
import models, serdemodel as sd, iomodel as io
from models import rescase, UNIT
from report import need, need_eq, Fail
from world import Missing, head_of
from rules.iowrite import contracts

def subject(W): return W

TYPES = ('TypedGraphMap', 'NodeMap', 'TypedStaticGraph', 'EdgeVec', 'SetMap', 'VecMap', 'StaticGraphMmapAux', 'ReorderResult')
PHANTOM = 'PhantomData'

def plain(W, which, faults):
    c = Ctx(W.F, None); c.models = dict(models.M); c.overrides = {}
    io.install(c, faults); contracts(W, c, which)
    return c

def ctx(W, form, cells, dec, **kw):
    c = Ctx(W.F, None); c.models = dict(models.M); c.overrides = {}
    return sd.install(c, form, cells, dec, **kw)

def whole(W, uid, t):
    """a value of the type with an unknown value in every attribute"""
    F = W.F; fs = F.adts[uid]['variants'][0]['f']
    return ('adt', uid, 0, tuple(UNIT if phantom(F.ty(f['t'])) else ('sym', 'a%d' % i) for i, f in enumerate(fs)))
def phantom(t): return t[0] == 'adt' and t[1].endswith(PHANTOM)

def serialized(W, uid, t, faults=False):
    """what Serialize writes for that value: a list of paths [(ok?, [(key, value, type)], began)]"""
    F = W.F
    c = ctx(W, 'seq', [], sd.exact, faults=faults)
    m = sd.method(c, sd.find(F, '::ser::Serialize'), t, 'serialize')
    if m is None: raise Missing('Serialize for %s' % uid)
    return m, c

def selfty(W, uid):
    F = W.F
    for im in F.by_trait[sd.find(F, '::ser::Serialize')]:
        t = F.ty(im['self'])
        if im['id'] in F.impls and head_of(t) == uid: return t
    raise Missing('Serialize for %s' % uid)

def types(W):
    """the serializable types of the crate, rows of text files excepted"""
    F = W.F; out = []
    for im in F.by_trait[sd.find(F, '::ser::Serialize')]:
        t = F.ty(im['self']); u = head_of(t)
        if im['id'] not in F.impls or u is None or u not in F.adts or F.adts[u]['kind'] != 'struct': continue
        if '::csv::' in u or u.split('::')[-1].startswith('__'): continue
        out.append((u, t))
    return out

def attrs(W, R, uid, t):
    F = W.F
    name = uid.split('::')[-1]
    m, c = serialized(W, uid, t)
    forms = []
    def th():
        r = c.call_uid(m[0], [('rv', whole(W, uid, t)), ('sym', 'serializer')], m[1])
        s, p = rescase(c, r)
        if not s: raise Fail('attributes', 'serializing fails although nothing failed to be written')
        w = sd.written(c)
        fs = F.adts[uid]['variants'][0]['f']
        vals = [x[1] for x in w]
        for i, f in enumerate(fs):
            if phantom(F.ty(f['t'])): continue
            if ('sym', 'a%d' % i) not in vals:
                if any(contains(v, lambda x, i=i: x == ('sym', 'a%d' % i)) for v in vals): raise Undecided('attribute %s is written in another form' % f['n'])
                raise Fail('attributes', '%s is not written' % f['n'])
        keys = [x[0] for x in w if x[0] is not None]
        need(c, len(set(keys)) == len(keys), 'attributes', 'two attributes are written under one name')
        forms.append(w)
        return UNIT
    R.run('written<%s>' % name, m[0], c, th)
    if not forms: return
    # errors of the serializer are passed on
    m, c = serialized(W, uid, t, True)
    def th2(c=c, m=m):
        r = c.call_uid(m[0], [('rv', whole(W, uid, t)), ('sym', 'serializer')], m[1])
        s, p = rescase(c, r)
        if s and any(o[0] == 'sererr' for o in c.ops): raise Fail('errors', 'a write fails, but success is returned')
        return UNIT
    R.run('write-errors<%s>' % name, m[0], c, th2)
    for form, by in (('seq', False), ('map', False), ('map', True)):
        if form == 'map' and any(k is None for w in forms for k, v, x in w): continue
        for faults in (False, True):
            if faults and by: continue
            for w in forms[:4]:
                read(W, R, uid, t, name, form, by, faults, w)

def read(W, R, uid, t, name, form, by, faults, w):
    F = W.F
    cells = [('cell', k, v, x, 'good') for k, v, x in w]
    c = ctx(W, form, cells, sd.exact, faults=faults, bytes_=by)
    m = sd.method(c, sd.find(F, '::de::Deserialize'), t, 'deserialize')
    if m is None:
        R.und('read<%s>' % name, uid, 'no Deserialize implementation', ''); return
    def th():
        r = c.call_uid(m[0], [('sym', 'deserializer')], m[1])
        s, p = rescase(c, r)
        broke = any(o[0] == 'deerr' for o in c.ops)
        if faults:
            if s and broke: raise Fail('errors', 'a read fails, but success is returned')
            return UNIT
        if not s: raise Fail('attributes', 'reading what was written fails: %s' % show(p)[:80])
        if form == 'seq' and c.fieldnames is not None and len(c.fieldnames) != len(w):
            raise Fail('attributes', '%d parts are written, but %d are announced to the reader' % (len(w), len(c.fieldnames)))
        v = c.deep(p)
        if v[0] != 'adt' or v[1] != uid: raise Undecided('result of reading')
        for i, f in enumerate(F.adts[uid]['variants'][0]['f']):
            if phantom(F.ty(f['t'])): continue
            need_eq(c, c.norm(v[3][i]), ('sym', 'a%d' % i), 'attributes', '%s after reading' % f['n'])
        return UNIT
    R.run('%s<%s,%s%s>' % ('read-errors' if faults else 'read', name, form, ',bytes' if by else ''), m[0], c, th)

def imports(R, W):
    F = W.F
    de = W.adt('Deserializer')
    uid = W.inherent(de, 'import')
    se = W.adt('Serializer')
    euid = W.inherent(se, 'export')
    # the format written
    fmt = set()
    c = plain(W, (), faults=False)
    def th0():
        r = c.call_uid(euid, [('rv', ('sym', 'obj')), ('sym', 'path')], {'T': ('param', 'T'), 'P': ('param', 'P')})
        for o, _ in io.flat(c.ops):
            if o[1] == 'write':
                d = o[3][0]
                if isinstance(d, tuple) and d and d[0] == 'bincode': fmt.add(d[2])
                elif isinstance(d, tuple) and d and d[0] == 'bytes': fmt.add(d[-1])
        if len(fmt) != 1: raise Undecided('format of export')
        return UNIT
    R.run('format', euid, c, th0)
    for u, args in [(uid, 'self')] + [(iu, 'trait') for nm, iu, d in F.traits[W.trait('Deserialize')]['items'] if nm == 'import' and iu in F.bodies]:
        c = plain(W, (), faults=True)
        def th(c=c, u=u):
            g = F.defs[u]['generics']
            r = c.call_uid(u, [('sym', 'path')], {x: ('param', x) for x in g})
            s, v = rescase(c, r)
            bad = [o for o, _ in io.flat(c.ops) if o[4] == 'err']
            if bad:
                need(c, not s, 'errors', '%s fails, but importing succeeds' % bad[0][1])
                return UNIT
            if not s: raise Fail('import', 'importing fails although nothing failed')
            v = c.strip(v)
            if v[0] != 'decoded': raise Undecided('result of import: %s' % show(v)[:60])
            src = v[2]
            while src[0] in ('bufr', 'takeh', 'content'):
                if src[0] == 'takeh': raise Fail('import', 'no more than %s bytes are read' % show(src[2]))
                src = src[1]
            want = 'Self' if 'Self' in g and F.defs[u].get('intrait') else g[0]
            need(c, src[0] == 'file' and src[1] == ('sym', 'path'), 'import', 'the value is not read from the given path')
            f = tuple(x for x in (v[4] if len(v) > 4 else ()) if x[0] != 'trailing')
            wr = {tuple(x for x in w if x[0] != 'trailing') for w in fmt}
            need(c, not wr or f in wr, 'format', 'export writes bincode with %s, import reads it with %s' % (sorted(wr), f))
            return UNIT
        R.run('import(%s)' % args, u, c, th)

def c18(R, W):
    ts = types(W)
    for n in TYPES:
        try:
            u = W.adt(n)
        except Missing: continue
        if u not in [x[0] for x in ts]: R.und('written<%s>' % n, u, 'no Serialize implementation of its own', '')
    for u, t in sorted(ts): attrs(W, R, u, t)
    imports(R, W)
