"""C19: CSV reading and writing agree.  C20: reading adds every good row and reports I/O errors."""
from itertools import permutations, product
from terms import *
from core import Ctx
import models, serdemodel as sd, iomodel as io, csvmodel as cm
from absgraph import gctx
from models import rescase, some, NONE, UNIT, opt
from report import need, need_eq, Fail, OPAQUE
from world import Missing, head_of

OPAQUE.add('nchars')
def subject(W): return W

RECORDS = ('NodeRecord', 'EdgeRecord')
WANT = {'NodeRecord': ('id', 'label'), 'EdgeRecord': ('start', 'target', 'label')}
SEP = ('sym', 'sep')

# ---------------------------------------------------------------- columns
def record(W, name):
    uid = W.adt(name); F = W.F
    for im in F.by_trait[sd.find(F, '::ser::Serialize')]:
        t = F.ty(im['self'])
        if im['id'] in F.impls and head_of(t) == uid: return uid, t
    raise Missing('Serialize for %s' % name)

def columns(W, name):
    """[(column name, field index, type)] in the order written"""
    F = W.F; uid, t = record(W, name)
    c = Ctx(F, None); c.models = dict(models.M); c.overrides = {}
    sd.install(c, 'seq', [], sd.exact)
    m = sd.method(c, sd.find(F, '::ser::Serialize'), t, 'serialize')
    fs = F.adts[uid]['variants'][0]['f']
    out = []
    def th():
        v = ('adt', uid, 0, tuple(('sym', 'a%d' % i) for i in range(len(fs))))
        s, p = rescase(c, c.call_uid(m[0], [('rv', v), ('sym', 'serializer')], m[1]))
        cols = []
        for k, v, ty in sd.written(c):
            ix = [i for i in range(len(fs)) if v == ('sym', 'a%d' % i)]
            if len(ix) != 1: raise Fail('columns', 'column %s is not written from one attribute as it is' % k)
            cols.append((k, ix[0], ty))
        need(c, s, 'columns', 'writing a row fails by itself')
        need(c, len({k for k, i, ty in cols}) == len(cols), 'columns', 'two columns have one name')
        need(c, sorted(i for k, i, ty in cols) == list(range(len(fs))), 'columns', 'the attributes %s of a row are not each written once' % [f['n'] for f in fs])
        out.append(tuple(cols)); return UNIT
    return c, m[0], th, out

def is_option(t): return t[0] == 'adt' and t[1].endswith('option::Option')

def cols_of(W, R, name, report=True):
    c, u, th, out = columns(W, name)
    if report: R.run('columns<%s>' % name, u, c, th)
    else:
        try:
            for v, s in c.explore(th):
                if isinstance(v, Exception): return None
        except Undecided: return None
    return out[0] if len(set(out)) == 1 else None

def column(c, cell, t):
    st = cell[4]
    if is_option(t):
        if st in ('empty', 'absent'): return models.ok(NONE)
        return models.ok(some(cell[2])) if st == 'good' else sd.fail(c, 'bad field')
    if st == 'good': return models.ok(cell[2])
    if st == 'empty' and t[0] == 'param' and t[1] != c.idparam and c.choose(2): return models.ok(('blank', cell[2]))
    return sd.fail(c, '%s field' % st)

def read_record(W, name, cols, form, by, order, states):
    """all outcomes of reading one row: [('ok', fields) | ('err',) | Undecided/Panic]"""
    F = W.F; uid, t = record(W, name)
    cells = [('cell', k, ('sym', 'c%d' % i), ty, states[i]) for k, i, ty in (cols[j] for j in order)]
    c = Ctx(F, None); c.models = dict(models.M); c.overrides = {}
    sd.install(c, form, cells, column, bytes_=by, ob='fields')
    c.idparam = [ty for k, i, ty in cols if not is_option(ty)][0][1]
    m = sd.method(c, sd.find(F, '::de::Deserialize'), t, 'deserialize')
    if m is None: raise Missing('Deserialize for %s' % name)
    outs = []
    def th():
        s, p = rescase(c, c.call_uid(m[0], [('sym', 'deserializer')], m[1]))
        if not s: outs.append(('err',)); return UNIT
        v = c.deep(p)
        if v[0] != 'adt' or v[1] != uid: raise Undecided('result of reading a row')
        outs.append(('ok', tuple(c.norm(x) for x in v[3]))); return UNIT
    return c, m[0], th, outs

def fields(W, R, name, which):
    """which: 'good' (C19) or 'bad' (C20) rows"""
    F = W.F; cols = cols_of(W, R, name, which == 'good')
    if cols is None:
        if which == 'bad': R.und('rows<%s>' % name, record(W, name)[0], 'the columns written are not known', '')
        return None
    fs = F.adts[record(W, name)[0]]['variants'][0]['f']; n = len(cols)
    req = [j for j in range(n) if not is_option(cols[j][2])]; opts = [j for j in range(n) if j not in req]
    forms = [('seq', False, tuple(range(n)), 'without headers')] + [('map', by, o, 'with headers %s' % ', '.join(cols[j][0] for j in o)) for by in (True, False) for o in permutations(range(n))]
    seen = {}
    for form, by, order, what in forms:
        cases = []
        if which == 'good':
            for st in product(('good', 'empty', 'absent', 'bad'), repeat=len(opts)):
                s = {cols[j][1]: 'good' for j in req}; s.update({cols[j][1]: x for j, x in zip(opts, st)})
                cases.append((order, s))
                if form == 'map' and 'absent' in st: cases.append((tuple(j for j in order if s[cols[j][1]] != 'absent'), s))
        else:
            for j in req:
                for x in ('bad', 'empty', 'absent'):
                    s = {cols[k][1]: 'good' for k in range(n)}; s[cols[j][1]] = x
                    cases.append((order, s))
                    if x == 'absent' and form == 'map': cases.append((tuple(k for k in order if k != j), s))
        for o, s in cases:
            if form == 'seq':           # a missing field is at the end of a row
                if 'absent' in s.values():
                    cut = min(j for j in range(n) if s[cols[j][1]] == 'absent'); o2 = tuple(j for j in o if j < cut)
                    if any(j > cut and s[cols[j][1]] != 'absent' for j in range(n)) and which == 'good': continue
                else: o2 = o
            else: o2 = o
            c, u, th, outs = read_record(W, name, cols, form, by, o2, s)
            lab = ', '.join('%s %s' % (fs[i]['n'], x) for i, x in sorted(s.items()) if x != 'good') or 'well-formed'
            def th2(th=th, outs=outs, s=s, o2=o2):
                outs.clear(); th(); r = outs[0]
                if which == 'bad':
                    need(c, r[0] == 'err', 'malformed', 'a row with %s is read as a row (%s)' % (lab, what)); return UNIT
                bad = any(x == 'bad' for x in s.values())
                if bad: seen.setdefault(tuple(sorted(s.items())), {}).setdefault(r if r[0] == 'err' else ('ok',) + tuple(show(x) for x in r[1]), what); return UNIT
                need(c, r[0] == 'ok', 'fields', 'a row with %s is refused (%s)' % (lab, what))
                for k, i, ty in cols:
                    w = ('sym', 'c%d' % i)
                    if is_option(ty): w = some(w) if s[i] == 'good' else NONE
                    if s[i] != 'good' and r[1][i] != w: raise Fail('fields', '%s column reads as %s (%s)' % (s[i], show(r[1][i])[:60], what))
                    need(c, r[1][i] == w, 'fields', '%s of a row with %s is %s, its column %s holds another value (%s)' % (fs[i]['n'], lab, show(r[1][i])[:60], k, what))
                return UNIT
            R.run('%s<%s,%s>' % ('fields' if which == 'good' else 'rows', name, lab), u, c, th2)
    for st, rs in sorted(seen.items()):
        u = record(W, name)[0]
        d = ', '.join('%s %s' % (fs[i]['n'], x) for i, x in st if x != 'good')
        if len(rs) > 1: R.bad('fields<%s,%s>/alike' % (name, d), W.F.cn(u), 'a row with %s reads differently %s' % (d, ' and '.join(sorted(rs.values()))), R.spanof(u), [])
        else: R.ok('alike<%s,%s>' % (name, d), W.F.cn(u), 'one outcome in all forms', '')
    return cols

# ---------------------------------------------------------------- readers and writers
def gen(F, u): return {x: ('param', x) for x in F.defs[u]['generics']}
def ctx(W, d=True, faults=False):
    c = gctx(W, {'g': d})
    c.texts = {SEP, ('sym', 'nodesfile'), ('sym', 'edgesfile')}
    cm.install(c, faults)
    return c
def meth(W, t, n):
    return W.inherent(W.adt(t), n)

NAMED = {'comma': ',', 'space': ' ', 'tab': '\t'}
def opened(c, kind):
    """handles of one kind ('csvr', 'csvw') in the order they were opened: [(path, options)]"""
    out = []
    for o, _ in io.flat(c.ops):
        if o[0] == 'io' and o[4] == 'ok' and isinstance(o[2], tuple) and o[2][0] == kind and o[1] in ('open', 'write', 'flush') and o[2] not in [h for h in out]: out.append(o[2])
    return out

def make_reader(W, c, nodes=some(('sym', 'nodesfile')), edges=('sym', 'edgesfile'), sep=None):
    u = meth(W, 'CSVReader', 'with_separator' if sep is not None else 'new')
    return c.call_uid(u, [nodes, edges] + ([('rv', sep)] if sep is not None else []), gen(W.F, u))
def make_writer(W, c, sep=None):
    u = meth(W, 'CSVWriter', 'with_separator' if sep is not None else 'new')
    l = c.alloc(('G', 'g'), 'G')
    return c.call_uid(u, [('ref', l, ()), ('sym', 'nodesfile'), ('sym', 'edgesfile')] + ([('rv', sep)] if sep is not None else []), gen(W.F, u))
def run_read(W, c, r):
    u = meth(W, 'CSVReader', 'read')
    l = c.alloc(('G', 'g'), 'G'); c.g_mut['g'] = 'same'
    return c.call_uid(u, [('ref', c.alloc(r, 'rd'), ()), ('ref', l, ())], gen(W.F, u))
def run_write(W, c, w):
    u = meth(W, 'CSVWriter', 'write')
    return c.call_uid(u, [('ref', c.alloc(w, 'wr'), ())], gen(W.F, u))

HARMLESS = {'buffer_capacity', 'nfa', 'flexible'}
NEUTRAL = {'double_quote': (TRUE,), 'quoting': (TRUE,), 'quote': (('int', 34),), 'comment': (NONE,), 'escape': (NONE,), 'has_headers': None, 'delimiter': None}
def agree(c, ro, wo):
    """a reader configured with ro reads what a writer configured with wo writes"""
    ro, wo = dict(ro), dict(wo)
    need_eq(c, cm.code(c, ro['delimiter']), cm.code(c, wo['delimiter']), 'separator', 'character between the fields of a row: read')
    for k in sorted(set(ro) | set(wo)):
        if k in HARMLESS or k in ('delimiter', 'has_headers'): continue
        rv, wv = ro.get(k), wo.get(k)
        if k == 'quote_style':
            s = show(wv)
            if 'Never' in s or wv[0] == 'adt' and wv[2] == 3: raise Fail('format', 'fields are written without quotes: one that contains a separator is read as two')
            continue
        neutral = lambda v: v is None or v in NEUTRAL.get(k, ())
        if neutral(rv) and neutral(wv): continue
        if k == 'trim':
            if rv[0] == 'adt' and rv[2] == 0: continue
            raise Fail('format', 'reading trims fields: a label is not read back as written')
        if rv is not None and wv is not None and c.norm(rv) == c.norm(wv): continue
        raise Fail('format', 'option %s differs between reading and writing' % k)

def options(W, R):
    F = W.F
    rnew, wnew = meth(W, 'CSVReader', 'new'), meth(W, 'CSVWriter', 'new')
    def both(c, ro, wo, what):
        rh, wh = opened(c, 'csvr'), opened(c, 'csvw')
        need(c, rh and wh, 'format', 'no file is read or written')
        for r in rh:
            for w in wh: agree(c, r[3], w[3])
        for w in wh: need(c, dict(w[3])['has_headers'] == TRUE, 'headers', 'files are written without headers')
        return rh, wh
    # defaults
    c = ctx(W)
    def th(c=c):
        r, w = make_reader(W, c), make_writer(W, c)
        run_write(W, c, w); run_read(W, c, r)
        rh, wh = both(c, r, w, 'default')
        for h in rh: need_eq(c, dict(h[3])['has_headers'], TRUE, 'headers', 'header row expected by a reader made by new')
        return UNIT
    R.run('options(default)', rnew, c, th, nopanic=False)
    # separators
    for name in list(NAMED) + [None]:
        c = ctx(W)
        rs, ws = meth(W, 'CSVReader', 'with_separator'), meth(W, 'CSVWriter', 'with_separator')
        def th(c=c, name=name):
            if name is None:
                c.assume(c.norm(('eq', cm.length(c, SEP), I(1))), True); s = SEP; want = ('byte0', SEP)
            else: s = ('str', name); want = ('int', ord(NAMED[name]))
            r = make_reader(W, c, sep=s); w = make_writer(W, c, sep=s)
            c.g_mut['g'] = 'same'
            run_write(W, c, w); run_read(W, c, r)
            rh, wh = both(c, r, w, name)
            for h, k in [(h, 'read') for h in rh] + [(h, 'written') for h in wh]:
                need_eq(c, cm.code(c, dict(h[3])['delimiter']), want, 'separator', 'separator %s means, when %s,' % ('"%s"' % name if name else 'of one character', k))
            return UNIT
        R.run('separator(%s)' % (name or 'one character'), rs, c, th, panic_ob='separator')
    # switches of a reader
    c = ctx(W)
    hu, fu = meth(W, 'CSVReader', 'headers'), meth(W, 'CSVReader', 'flexible')
    H, X = ('isv', ('sym', 'headers?'), 1), ('isv', ('sym', 'flexible?'), 1)
    def th(c=c):
        b = [('b', c.choose(2) == 1) for _ in range(2)]
        r = make_reader(W, c, sep=('str', 'tab'))
        hs = lambda r: c.call_uid(hu, [r, b[0]], gen(F, hu))
        fl = lambda r: c.call_uid(fu, [r, b[1]], gen(F, fu))
        r = fl(hs(r)) if c.choose(2) else hs(fl(r))
        if c.choose(2):
            im = [x for x in F.by_trait.get('core::clone::Clone', []) if head_of(F.ty(x['self'])) == W.adt('CSVReader') and x['id'] in F.impls]
            cu = [iu for x in im for nm, iu, _ in x['items'] if nm == 'clone' and iu in F.bodies]
            if cu: r = c.call_uid(cu[0], [('ref', c.alloc(r, 'r0'), ())], gen(F, cu[0]))
        how = c.choose(3)
        if how == 0: run_read(W, c, r)
        else:
            u = meth(W, 'CSVReader', 'node_iter' if how == 1 else 'edge_iter')
            c.call_uid(u, [('ref', c.alloc(r, 'rd'), ())], gen(F, u))
        hs = opened(c, 'csvr')
        need(c, hs, 'format', 'no file is read')
        for h in hs:
            o = dict(h[3])
            need_eq(c, o['has_headers'], b[0], 'headers', 'whether the first row is a header')
            need_eq(c, o['flexible'], b[1], 'flexible', 'whether rows may differ in length')
            need_eq(c, cm.code(c, o['delimiter']), ('int', 9), 'separator', 'separator')
        return UNIT
    R.run('options(reader)', hu, c, th, nopanic=False)
    # the functions on top
    ru, wu = W.function('read_from_csv'), W.function('write_to_csv')
    c = ctx(W)
    def th(c=c):
        b = [('b', c.choose(2) == 1) for _ in range(2)]
        k = c.choose(3)
        sep, want = ((NONE, ('int', 44)), (some(('rv', ('str', 'tab'))), ('int', 9)), (some(('rv', SEP)), ('byte0', SEP)))[k]
        if k == 2: c.assume(c.norm(('eq', cm.length(c, SEP), I(1))), True)
        nodes = some(('sym', 'nodesfile')) if c.choose(2) else NONE
        l = c.alloc(('G', 'g'), 'G'); c.g_mut['g'] = 'same'
        s, p = rescase(c, c.call_uid(ru, [('ref', l, ()), nodes, ('sym', 'edgesfile'), sep, b[0], b[1]], gen(F, ru)))
        if not s: return UNIT
        hs = opened(c, 'csvr')
        need(c, len(hs) == (2 if nodes != NONE else 1), 'files', '%d files are read' % len(hs))
        need(c, [h[2][1] for h in hs][-1:] == [('sym', 'edgesfile')] and all(h[2][1] == ('sym', 'nodesfile') for h in hs[:-1]), 'files', 'not the given files are read')
        for h in hs:
            o = dict(h[3])
            need_eq(c, o['has_headers'], b[0], 'headers', 'whether the first row is a header')
            need_eq(c, o['flexible'], b[1], 'flexible', 'whether rows may differ in length')
            need_eq(c, cm.code(c, o['delimiter']), want, 'separator', 'separator %s' % ('not given' if k == 0 else 'given'))
        return UNIT
    R.run('read_from_csv', ru, c, th, nopanic=False)
    c = ctx(W)
    def th(c=c):
        l = c.alloc(('G', 'g'), 'G')
        c.call_uid(wu, [('ref', l, ()), ('sym', 'nodesfile'), ('sym', 'edgesfile')], gen(F, wu))
        w = opened(c, 'csvw'); l2 = c.alloc(('G', 'g'), 'G'); c.g_mut['g'] = 'same'
        c.call_uid(ru, [('ref', l2, ()), some(('sym', 'nodesfile')), ('sym', 'edgesfile'), NONE, TRUE, FALSE], gen(F, ru))
        r = opened(c, 'csvr')
        need(c, w and r, 'format', 'no file is read or written')
        for x in w:
            need(c, dict(x[3])['has_headers'] == TRUE, 'headers', 'files are written without headers')
            for y in r: agree(c, y[3], x[3])
        return UNIT
    R.run('write_to_csv', wu, c, th, nopanic=False)

# ---------------------------------------------------------------- rows written
def written_rows(W, R, cols):
    F = W.F; u = meth(W, 'CSVWriter', 'write')
    for d in (True, False):
        c = ctx(W, d)
        def th(c=c, d=d):
            w = make_writer(W, c); s, p = rescase(c, run_write(W, c, w))
            need(c, s, 'rows', 'writing fails although nothing failed')
            got = {}
            for o in c.ops:
                if o[0] == 'io' and o[1] == 'write' : raise Undecided('row written outside a loop')
                if o[0] in ('some', 'loop') and any(x[1] == 'write' for x, _ in io.flat([o])): raise Undecided('rows written in an irregular loop')
                if o[0] != 'each': continue
                for vs, gs, ops in o[1]:
                    for x in ops:
                        if x[0] in ('each', 'some', 'loop'): raise Undecided('rows written in nested loops')
                        if x[0] == 'io' and x[1] == 'write':
                            if x[3][0][0] != 'row': raise Undecided('row written by fields')
                            got.setdefault(x[2][2][1], []).append((vs, gs, x[3][0][1]))
            for name, path in (('NodeRecord', 'nodesfile'), ('EdgeRecord', 'edgesfile')):
                rows = got.pop(('sym', path), [])
                made = [o for o in c.ops if o[0] == 'io' and o[4] == 'ok' and o[1] == 'create' and o[3][0] == ('sym', path)]
                st = ('written', made[-1][2], made[-1][3]) if made else None
                if st and all(o[3][1] != 'trunc' for o in made):
                    before = [o for o in c.ops if o[0] == 'io' and o[4] == 'ok' and (o[1] == 'remove' and o[3][0] == ('sym', path) or o[1] == 'setlen' and o[2] == st[1])]
                    if not before and c.known(('onfile', ('sym', path))) is not False:
                        raise Fail('left-over', 'the file of %s is %s: rows of an earlier file of that name stay behind' % (
                            'nodes' if name == 'NodeRecord' else 'edges', 'appended to' if st[2][1] == 'append' else 'opened without emptying it'))
                need(c, rows, 'rows', 'no row is written to the file of %s' % ('nodes' if name == 'NodeRecord' else 'edges'))
                uid = W.adt(name); ix = [i for k, i, t in cols[name]]
                ok = []
                for vs, gs, rec in rows:
                    if rec[0] != 'adt' or rec[1] != uid: raise Fail('rows', 'a row of the file of %s is %s' % (path, show(rec)[:60]))
                    v = [c.norm(rec[3][i]) for i in ix]
                    if name == 'NodeRecord':
                        x = v[0]
                        need(c, (('N', 'g', x), True) in gs or x in vs, 'rows', 'first column of a node row is not the id of a node: %s' % show(x)[:60])
                        lab, key = ('nlb', 'g', x), ('N', 'g', x)
                    else:
                        x, y = v[0], v[1]
                        es = [a for a, b in gs if a[0] == 'E' and b] 
                        key = ('E', 'g') + ((x, y) if d else c.dom.pair('g', x, y))
                        direct = any(a[2:] == (x, y) for a in es); rev = any(a[2:] == (y, x) for a in es)
                        need(c, direct or (rev and not d), 'rows', 'the first columns of an edge row are not start and end of an edge: %s, %s' % (show(x)[:40], show(y)[:40]))
                        lab = ('elb', 'g') + ((x, y) if d else c.dom.pair('g', x, y))
                    l = v[-1]
                    extra = [(a, b) for a, b in gs if not (a == key or a[0] in ('N', 'E') or a[0] == 'isv' and a[1] == lab or a[0] == 'lt')]
                    if extra: raise Fail('rows', 'only rows with %s are written' % show(extra[0][0])[:80])
                    lk = [b == (a[2] == 1) for a, b in gs if a[0] == 'isv' and a[1] == lab]
                    if l == lab: pass
                    elif l == NONE and lk and not lk[0]: pass
                    elif l[0] == 'adt' and l[2] == 1 and lk and lk[0] and c.strip(l[3][0]) in (('vf', lab, 1, 0), lab): pass
                    else: raise Fail('rows', 'the label of the row of %s is %s' % (show(key)[:40], show(l)[:60]))
                    ok.append(lk[0] if lk else None)
                if not (None in ok or {True, False} <= set(ok)): raise Fail('rows', 'only %s rows are written' % ('labelled' if ok and ok[0] else 'unlabelled'))
                if ok.count(None) + (ok.count(True) and 1) > 1: raise Fail('rows', 'a row is written more than once')
            return UNIT
        R.run('rows-written(%s)' % ('directed' if d else 'undirected'), u, c, th, nopanic=False)

def c19(R, W):
    cols = {n: fields(W, R, n, 'good') for n in RECORDS}
    options(W, R)
    if all(cols.values()): written_rows(W, R, cols)

# ---------------------------------------------------------------- C20
def rowterms(x):
    out = set()
    def w(t):
        if isinstance(t, tuple):
            if len(t) == 4 and t[0] == 'row' and isinstance(t[1], tuple) and t[1][0] == 'csvr': out.add(t)
            for y in t: w(y)
    w(x); return out

def status(gs, r):
    """what guards say about a row: set of 'ok', 'bad', 'io' that are possible, and whether they depend on anything else"""
    pos = {'ok', 'bad', 'io'}; extra = []
    for a, b in gs:
        if a[0] == 'isv' and a[1] == r:
            good = b == (a[2] == 0)
            pos &= {'ok'} if good else {'bad', 'io'}
        elif a[0] == 'rowio' and a[1] == ('vf', r, 1, 0): pos &= {'io', 'ok'} if b else {'bad', 'ok'}
        else: extra.append((a, b))
    return pos, extra

def covers(cases):
    """whether conjunctions of (atom, value) pairs leave no case out; None when there are too many atoms"""
    atoms = sorted({a for gs in cases for a, b in gs}, key=repr)
    if len(atoms) > 8: return None
    for vals in product((True, False), repeat=len(atoms)):
        m = dict(zip(atoms, vals))
        if not any(all(m[a] == b for a, b in gs) for gs in cases): return False
    return True
def generic(x, gs):
    """guards about the row x with the row itself abstracted"""
    return [(replace(a, {x: ('sym', 'row')}), b) for a, b in gs]
def covered(c, cases, what):
    r = covers(cases)
    if r is None: raise Undecided('conditions under which a row counts')
    if not r:
        a = [a for gs in cases for a, b in gs][0]
        raise Fail('rows', '%s depends on %s' % (what, show(a)[:80]))

def one_row(gs_ops):
    rs = rowterms(gs_ops)
    if len(rs) > 1: raise Undecided('several rows at once')
    return list(rs)[0] if rs else None

def expected(r, name, cols):
    pay = ('vf', r, 0, 0)
    return tuple(('fld', pay, i) for k, i, t in cols[name])

def same(c, got, want):
    got = c.norm(got)
    if got == want: return True
    return False
def opteq(c, got, want, gs):
    """an Option taken apart and put together again"""
    got = c.norm(got)
    if got == want: return True
    for a, b in gs:
        if a[0] == 'isv' and a[1] == want:
            present = b == (a[2] == 1)
            if not present and got == NONE: return True
            if present and got[0] == 'adt' and got[2] == 1 and got[3][0] == ('vf', want, 1, 0): return True
    return False

def recname(W, r):
    t = r[2]
    for n in RECORDS:
        if t[0] == 'adt' and t[1] == W.adt(n): return n
    raise Undecided('rows read as %s' % sd.tname(t))

def reading(W, R, cols):
    F = W.F; u = meth(W, 'CSVReader', 'read')
    c = ctx(W, True, True)
    FILE = {'NodeRecord': ('sym', 'nodesfile'), 'EdgeRecord': ('sym', 'edgesfile')}
    def th():
        nodes = c.choose(2) == 1
        r = make_reader(W, c, nodes=some(('sym', 'nodesfile')) if nodes else NONE)
        hu = meth(W, 'CSVReader', 'headers')
        r = c.call_uid(hu, [r, B(c.choose(2) == 1)], gen(F, hu))
        n0 = len(c.foralls)
        s, p = rescase(c, run_read(W, c, r))
        failed = [o for o, _ in io.flat(c.ops) if o[4] == 'err']
        io_row = [a for a, b, w in c.facts.log if a[0] == 'rowio' and b]
        if not s:
            if failed or io_row: return UNIT
            raise Fail('rows', 'a row that cannot be parsed ends the reading')
        if failed: raise Fail('io-errors', '%s fails, but success is returned' % {'open': 'opening a file', 'header': 'reading the first row of a file'}.get(failed[0][1], failed[0][1]))
        if io_row: raise Fail('io-errors', 'an I/O error ends the rows of a file, but success is returned')
        done = {}
        for o in c.ops:
            if o[0] == 'gop': raise Fail('rows', '%s outside the rows of a file' % o[2])
            if o[0] in ('some', 'loop') and any(x[0] == 'gop' for al in o[1] for x in (al[2] if o[0] == 'some' else al)):
                rs = rowterms(o[1])
                if o[0] == 'some' and rs: raise Fail('rows', 'rows that follow are left out and success is returned')
                raise Undecided('graph changed in an irregular loop')
            if o[0] != 'each' or not rowterms(o[1]): continue
            names = {recname(W, x) for x in rowterms(o[1])}
            if len(names) != 1: raise Undecided('rows of two kinds')
            name = names.pop()
            if name in done: raise Undecided('two loops over the rows of a file')
            done[name] = True
            files = {x[1][2][1] for x in rowterms(o[1])}
            need(c, files == {FILE[name]}, 'files', 'rows of %s are read as %s' % (show(list(files)[0])[:40], name))
            goods = []
            for vs, gs, ops in o[1]:
                x = one_row((gs, ops))
                if x is None: raise Undecided('loop over rows')
                pos, extra = status(gs, x)
                g = [y for y in ops if y[0] == 'gop']
                if any(y[0] in ('each', 'some', 'loop') and 'gop' in str(y) for y in ops): raise Undecided('nested loops over rows')
                if 'ok' in pos:
                    want = expected(x, name, cols)
                    nm = 'add_node' if name == 'NodeRecord' else 'add_edge'
                    cond = ' (when %s)' % show(extra[0][0])[:60] if extra else ''
                    if any(t[0] in OPAQUE for a, b in extra for t in [a]): raise Undecided('rows depend on %s' % show(extra[0][0])[:60])
                    need(c, len(g) == 1 and g[0][2] == nm, 'rows', 'a well-formed row is %s%s' % ('not added' if not g else 'added by %s' % ', '.join(y[2] for y in g), cond))
                    a = g[0][3]
                    need(c, len(a) == len(want) and all(c.norm(p) == q for p, q in zip(a[:-1], want[:-1])) and opteq(c, a[-1], want[-1], gs), 'rows',
                         'a row is added as %s(%s), not with its own columns in order%s' % (nm, ', '.join(show(y)[-40:] for y in a), cond))
                    goods.append(generic(x, [(a, b) if a[0] != 'isv' or a[2] == 1 else (('isv', a[1], 1), not b) for a, b in extra]))
                elif g: raise Fail('rows', 'a row that cannot be parsed changes the graph')
            need(c, goods, 'rows', 'no well-formed row is added')
            covered(c, goods, 'whether a well-formed row is added')
        for name in RECORDS:
            if name == 'NodeRecord' and not nodes: continue
            need(c, name in done, 'rows', 'no row of the file of %s is added' % ('nodes' if name == 'NodeRecord' else 'edges'))
            reported = False
            for f in c.foralls[n0:]:
                for vs, gs in f['alts']:
                    x = one_row(gs)
                    if x is not None and recname(W, x) == name and 'io' in status(gs, x)[0]:
                        raise Fail('io-errors', 'an I/O error while the rows of a file are read is passed over like a malformed row (%s)' % name)
                for vs, gs in f['early']:
                    x = one_row(gs)
                    if x is not None and recname(W, x) == name and 'io' in status(gs, x)[0]: reported = True
            need(c, reported, 'io-errors', 'an I/O error while the rows of a file are read is dropped (%s)' % name)
        return UNIT
    R.run('read', u, c, th, nopanic=False)

def iterators(W, R, cols):
    F = W.F
    for nm, name in (('node_iter', 'NodeRecord'), ('edge_iter', 'EdgeRecord')):
        u = meth(W, 'CSVReader', nm)
        c = ctx(W, True, True)
        def th(c=c, u=u, name=name):
            nodes = c.choose(2) == 1
            r = make_reader(W, c, nodes=some(('sym', 'nodesfile')) if nodes else NONE)
            hu = meth(W, 'CSVReader', 'headers')
            r = c.call_uid(hu, [r, B(c.choose(2) == 1)], gen(F, hu))
            s, p = rescase(c, c.call_uid(u, [('ref', c.alloc(r, 'rd'), ())], gen(F, u)))
            failed = [o for o, _ in io.flat(c.ops) if o[4] == 'err']
            if not s:
                need(c, failed, 'rows', 'an iterator is refused although nothing failed'); return UNIT
            if failed: raise Fail('io-errors', '%s fails, but success is returned' % {'open': 'opening a file', 'header': 'reading the first row of a file'}.get(failed[0][1], failed[0][1]))
            comp = models.comp_of(c, p)
            if name == 'NodeRecord' and not nodes:
                need(c, not comp[1], 'rows', 'rows without a file'); return UNIT
            good = []
            for vs, gs, v in comp[1]:
                x = one_row((gs, v))
                if x is None: raise Undecided('rows of an iterator')
                need(c, recname(W, x) == name and x[1][2][1] == ('sym', 'nodesfile' if name == 'NodeRecord' else 'edgesfile'), 'files', 'rows of another file')
                pos, extra = status(gs, x)
                if pos & {'bad', 'io'}: raise Fail('rows', 'an item for a row that cannot be parsed')
                want = expected(x, name, cols)
                ex = [(a, b) for a, b in extra if not (a[0] == 'isv' and a[1] == want[-1])]
                if ex: raise Fail('rows', 'only rows with %s are produced' % show(ex[0][0])[:60])
                v = c.norm(v)
                if v[0] != 'tup': raise Undecided('items of an iterator')
                need(c, len(v[1]) == len(want) and all(c.norm(p) == q for p, q in zip(v[1][:-1], want[:-1])) and opteq(c, v[1][-1], want[-1], gs), 'rows',
                     'the item of a row is (%s), not its columns in order' % ', '.join(show(y)[-40:] for y in v[1]))
                good.append(generic(x, [(a, b) if a[0] != 'isv' or a[2] == 1 else (('isv', a[1], 1), not b) for a, b in extra]))
            need(c, good, 'rows', 'well-formed rows are not produced')
            covered(c, good, 'whether a well-formed row is produced')
            return UNIT
        R.run(nm, u, c, th, nopanic=False)

def c20(R, W):
    cols = {n: fields(W, R, n, 'bad') for n in RECORDS}
    if all(cols.values()):
        reading(W, R, cols); iterators(W, R, cols)
