"""C33: the LDBC loader imports every row of every matching file exactly once.

Scheme::init is evaluated, which gives the table of files; the loader is then analysed with that table for an arbitrary
directory: which row function gets which rows under which conditions on the file name; and every row function on an
arbitrary graph, map and row.  The conditions on names are evaluated on the names LDBC files have."""
import re
from terms import *
from core import Ctx
import models, iomodel as io, csvmodel as cm
from absgraph import gctx, state
from models import rescase, some, NONE, UNIT, opt, base, new_elem, target, ok, err
from report import need, need_eq, Fail, OPAQUE
from world import Missing, head_of
from rules import csvio

def subject(W): return W

RELATIONS = [l.split() for l in '''comment hasCreator person
comment hasTag tag
comment isLocatedIn place
comment replyOf comment
comment replyOf post
forum containerOf post
forum hasMember person
forum hasModerator person
forum hasTag tag
organisation isLocatedIn place
person hasInterest tag
person isLocatedIn place
person knows person
person likes comment
person likes post
person studyAt organisation
person workAt organisation
place isPartOf place
post hasCreator person
post hasTag tag
post isLocatedIn place
tag hasType tagclass
tagclass isSubclassOf tagclass'''.split('\n')]
NODES = [('organisation', 0, 1), ('place', 0, 3)]                   # kind, columns of id and label
OTHER = ['comment', 'forum', 'person', 'post', 'tag', 'tagclass', 'person_speaks_language', 'person_email_emailaddress']
ENDS = ['_0_0.csv', '_1_23.csv', '_10.csv']

RX = 'regex::regex::string::Regex::'
M = {}
def model(*ns):
    def d(f):
        for n in ns: M[n] = f
        return f
    return d
@model('std::fs::read_dir', 'std::path::Path::read_dir')
def _(c, a, ta):
    p = io.path(c, a[0])
    return io.fork(c, 'readdir', None, (p,), base('dirents', (p,)))
def _dirent(c, it):
    x = new_elem(c)
    return ('dirent', it[3][0], x) if c.io_faults and 'dirent' in c.io_faults else ok(('entry', it[3][0], x))
M[('elem', 'dirents')] = _dirent
M[('empty', 'dirents')] = lambda c, it: None
def entry(c, v):
    v = c.strip(v)
    while v[0] in ('rv', 'ref'): v = c.strip(v)
    return v
M['std::fs::DirEntry::path'] = lambda c, a, ta: ('fpath', entry(c, a[0]))
M['std::fs::DirEntry::file_name'] = lambda c, a, ta: ('fname', entry(c, a[0]))
@model('std::path::Path::file_name')
def _(c, a, ta):
    v = entry(c, a[0])
    return some(('rv', ('fname', v[1]))) if v[0] == 'fpath' else some(('rv', ('fname', v)))
M['std::path::Path::is_file'] = lambda c, a, ta: ('b', c.decide(c.norm(('isfile', entry(c, a[0])))))
M['std::path::Path::is_dir'] = lambda c, a, ta: ('b', c.decide(c.norm(('isdir', entry(c, a[0])))))
M[RX + 'new'] = lambda c, a, ta: ok(('regex', io.path(c, a[0])))
M[RX + 'is_match'] = lambda c, a, ta: ('b', c.decide(c.norm(('rxmatch', c.strip(a[0]), io.path(c, a[1])))))
M[RX + 'as_str'] = lambda c, a, ta: ('rv', c.strip(a[0])[1])
for _n, _k in (('starts_with', 'starts'), ('ends_with', 'ends'), ('contains', 'has')):
    M['str::' + _n] = M['core::str::' + _n] = lambda c, a, ta, k=_k: ('b', c.decide(c.norm(('text' + k, io.path(c, a[0]), io.path(c, a[1])))))
REC = ('adt', 'csv::string_record::StringRecord', ())
@model('csv::reader::Reader::records', 'csv::reader::Reader::into_records')
def _(c, a, ta):
    h = io.handle(c, a[0])
    if h[0] != 'csvr': raise Undecided('csv reader')
    return base('rows', (h, REC))
SR = 'csv::string_record::StringRecord::'
def col(c, r, i):
    i = c.norm(i)
    if i[0] != 'int': raise Undecided('column of a row')
    return ('rcol', entry(c, r), i[1])
@model(SR + 'get')
def _(c, a, ta):
    t = col(c, a[0], a[1])
    return some(('rv', t)) if c.decide(c.norm(('hascol',) + t[1:])) else NONE
M[SR + 'len'] = lambda c, a, ta: c.norm(('ncols', entry(c, a[0])))

def _row(c, it):
    r = cm.elem_rows(c, it)
    return ok(('vf', r, 0, 0)) if c.io_faults and 'row' not in c.io_faults else r

def is_text(v): return v[0] in ('str', 'cat', 'rcol', 'fname', 'fpath', 'dirpath')

def install(c, faults):
    cm.install(c, faults)
    c.models.update(M); c.models[('elem', 'rows')] = _row
    I0 = 'core::ops::index::Index::index'; prev = c.models[I0]
    def index(cc, a, ta):
        if ta and head_of(ta[0]) == REC[1]: return ('rv', col(cc, a[0], a[1]))
        if ta and ta[0][0] == 'adt' and ta[0][1].split('::')[-1] == 'String':
            r = cc.strip(a[1])
            if r[0] == 'adt' and r[1].endswith('RangeFull'): return a[0]
        return prev(cc, a, ta)
    c.models[I0] = index
    pc = c.models.get('core::clone::Clone::clone')
    def clone(cc, a, ta):
        v = entry(cc, a[0])
        return v if is_text(v) else NotImplemented
    c.overrides['core::clone::Clone::clone'] = chain(clone, c.overrides.get('core::clone::Clone::clone'))
    c.loophook = models.unroll_hook; c.unroll = True
    return c
def chain(f, g):
    def h(cc, a, ta):
        r = f(cc, a, ta)
        return g(cc, a, ta) if r is NotImplemented and g else r
    return h

# ---------------------------------------------------------------- functions
def row_functions(W):
    F = W.F; out = []
    for u, b in F.bodies.items():
        if '{closure' in u or not b['span'][0].startswith('src/io/ldbc'): continue
        ins = [F.ty(x) for x in b['locals'][1:1 + b['args']]] if isinstance(b['locals'][0], int) else [F.ty(x['t']) for x in b['locals'][1:1 + b['args']]]
        if any(head_of(peel(t)) == REC[1] for t in ins): out.append((u, ins))
    if not out: raise Missing('functions that import a row')
    called = set()
    for u, ins in out:
        for v in callees(F, u): called.add(v)
    return [(u, i) for u, i in out if u not in called - {u}]
def callees(F, u):
    for w, b in F.bodies.items():
        if w != u and not w.startswith(u + '::{closure'): continue
        for bb in b['bbs']:
            if bb and bb[1][0] == 'call' and bb[1][1][0] == 'k':
                t = F.ty(bb[1][1][1]['t'])
                if t[0] == 'fndef': yield t[1]
def peel(t):
    while t[0] == 'ref': t = t[2]
    return t
def ctx(W, faults):
    c = gctx(W, {'g': True})
    install(c, faults); c.anydir = True
    return c
def gen(F, u): return {x: ('param', x) for x in F.defs[u]['generics']}

def scheme(W, c):
    u = W.inherent(W.adt('Scheme'), 'init')
    return c.call_uid(u, [], {})

def abstract(W, c):
    """the scheme with its lists of entries abstracted: ('sym', 'entries<k>') stands for any of them"""
    un, lh = c.unroll, c.loophook
    sc = c.norm(c.deep(scheme(W, c)))
    if sc[0] != 'adt': raise Undecided('the table of files')
    out = []; c.tables = {}
    for i, f in enumerate(sc[3]):
        f = c.norm(f)
        if f[0] == 'arr' and f[1] and all(x[0] == 'adt' for x in f[1]):
            t = ('sym', 'entries%d' % i); c.tables[t] = f[1]; f = t
        out.append(f)
    if c.tables: c.unroll = False; c.loophook = None
    return sc[:3] + (tuple(out),)

# ---------------------------------------------------------------- which rows are imported by what
def bindings(c, t, table):
    """the generic element of a table, by each of its entries"""
    els = set()
    def w(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'vget' and x[1] == table: els.add(x); return
            for y in x: w(y)
    w(t)
    if len(els) > 1: raise Undecided('two entries at once')
    if not els: return [{}]
    x = els.pop()
    return [{x: e} for e in c.tables[table]]

class Text:
    """evaluates conditions on the name of a file"""
    def __init__(self, name): self.name = name
    def text(self, t):
        if t[0] == 'str': return t[1]
        if t[0] == 'fname': return self.name
        if t[0] == 'fpath': return 'd/' + self.name
        if t[0] == 'cat': return ''.join(self.text(p) for p in t[1])
        raise Undecided('condition on a file name')
    def holds(self, a):
        o = a[0]
        if o == 'isfile': return True
        if o == 'isdir': return False
        if o == 'rxmatch':
            rx = a[1]
            if rx[0] != 'regex' or rx[1][0] != 'str': raise Undecided('regular expression')
            return rust_search(rx[1][1], self.text(a[2]))
        if o == 'textstarts': return self.text(a[1]).startswith(self.text(a[2]))
        if o == 'textends': return self.text(a[1]).endswith(self.text(a[2]))
        if o == 'texthas': return self.text(a[2]) in self.text(a[1])
        if o == 'eq' and all(x[0] in ('str', 'cat', 'fname', 'fpath') for x in a[1:]): return self.text(a[1]) == self.text(a[2])
        return None

def rust_search(pat, s):
    """the regular expressions used are in the common part of the two languages"""
    if re.search(r'\\[^\dwsdDWS._|()\[\]{}+*?^$\-A-Z]|\(\?[^:]|\\[pPzAbB]|\[\[', pat): raise Undecided('regular expression %s' % pat)
    try: return re.search(pat, s) is not None
    except re.error: raise Undecided('regular expression %s' % pat)

def walk(ops, vs=(), gs=(), kinds=()):
    """(variables, guards, kinds of the loops around, entry)"""
    for o in ops:
        if o[0] == 'rowop': yield vs, gs, kinds, o
        elif o[0] in ('each', 'some'):
            for v, g, x in o[1]: yield from walk(x, vs + tuple(v), gs + tuple(g), kinds + (o[0],))
        elif o[0] == 'loop':
            for x in o[1]: yield from walk(x, vs, gs, kinds + ('loop',))

def samples():
    out = []
    for s, e, t in RELATIONS:
        for x in ENDS: out.append(('%s_%s_%s%s' % (s, e, t, x), ('relation', s, e, t)))
    for k, i, l in NODES:
        for x in ENDS: out.append((k + x, ('node', k, i, l)))
    for k in OTHER:
        for x in ENDS: out.append((k + x, None))
    return out

def loading(W, R, spec):
    """the files: every one that matches is opened and each of its rows imported once"""
    F = W.F; fp = W.inherent(W.adt('Scheme'), 'from_path'); top = W.function('read_ldbc_from_path')
    rows = row_functions(W)
    DIR = ('sym', 'dirpath')
    def override(c):
        for u, ins in rows:
            def f(cc, a, ta, u=u):
                cc.ops.append(('rowop', u, tuple(cc.deep(cc.strip(x)) if not isgm(cc, x) else ref(cc, x) for x in a)))
                return UNIT
            c.overrides[F.cn(u)] = f
    def isgm(cc, x):
        x = cc.norm(x)
        if x[0] != 'ref': return False
        v = cc.norm(cc.strip(x))
        return v[0] in ('G', 'mempty', 'mins') or v[0] == 'ref'
    def ref(cc, x):
        x = cc.norm(x)
        for _ in range(5):
            y = cc.read((x[1], x[2])) if x[0] == 'ref' else None
            if y is not None and y[0] == 'ref': x = y
            else: break
        v = cc.norm(cc.read((x[1], x[2])))
        return ('state', v if v[0] == 'G' else x)
    # every row once
    c = ctx(W, ('none',)); override(c)
    def th():
        c.assume(c.norm(('isdir', DIR)), True)
        n0 = len(c.foralls)
        sc = abstract(W, c)
        s, r = rescase(c, c.call_uid(fp, [('ref', c.alloc(sc, 'sc'), ()), DIR], gen(F, fp)))
        if not s: return UNIT                       # a row that cannot be read
        r = c.norm(r)
        need(c, r[0] == 'G', 'graph', 'not a new graph is returned')
        found = list(walk(c.ops))
        need(c, found, 'rows', 'no row is imported')
        for f in c.foralls[n0:]:
            if f['early']:
                for vs, gs in f['early']:
                    if not any(a[0] == 'isv' for a, b in gs): raise Fail('rows', 'the files or rows that follow are left out when %s' % show(gs[-1][0])[:80] if gs else 'always')
        table = {}
        maps = set()
        for vs, gs, kinds, o in found:
            if 'loop' in kinds: raise Undecided('rows imported in an irregular loop')
            u, a = o[1], o[2]
            st = [x for x in a if x[0] == 'state']
            need(c, ('state', r) in st, 'graph', 'rows are added to a graph other than the one returned')
            maps |= {x for x in st if x != ('state', r)}
            rs = csvio.rowterms((gs, a))
            if len(rs) != 1: raise Undecided('rows')
            row = list(rs)[0]; h = row[1]
            need(c, h[2][0] == 'file' and entry_of(h[2][1]) is not None, 'files', 'rows are read from %s' % show(h[2])[:60])
            e = entry_of(h[2][1])
            need(c, any(x == ('vf', row, 0, 0) for x in a), 'rows', 'not the row itself is imported')
            od = dict(h[3])
            need_eq(c, cm.code(c, od['delimiter']), ('int', ord('|')), 'format', 'separator of the columns')
            need_eq(c, od['has_headers'], TRUE, 'format', 'whether the first row is a header')
            plain(c, od)
            inner = tuple(x for t in (h[2], row) for x in syms(t))
            need(c, all(x in vs for x in inner if str(x[1]).startswith('x')), 'files', 'only one of the files that match, or of their rows, is imported')
            conds = []; first = False; entries = [x for x in c.tables if contains((gs, a), lambda t: t == x)]
            if len(entries) > 1: raise Undecided('entries of two tables at once')
            for at, b in gs:
                if at[0] == 'lt' and at[2] == ('len', entries[0] if entries else None): continue
                if at[0] == 'isv' and at[1] == row:
                    if b != (at[2] == 0): raise Fail('rows', 'rows that cannot be read are imported')
                    continue
                if at[0] == 'early-exit':
                    if any(x in at[1] for x in inner): raise Fail('files', 'only one of the files that match, or of their rows, is imported')
                    first = True; continue
                conds.append((at, b))
            if 'some' in kinds: 
                raise Fail('rows', 'only some rows are imported')
            args = tuple(x for x in a if x[0] != 'state' and x != ('vf', row, 0, 0))
            for m in (bindings(c, (args, conds), entries[0]) if entries else [{}]):
                onfile = [(c.norm(replace(at, m)), b) for at, b in conds if not csvio.rowterms(at)]
                onrow = [(c.norm(replace(at, m)), b) for at, b in conds if csvio.rowterms(at)]
                table.setdefault((u, tuple(c.norm(replace(x, m)) for x in args)), []).append((e, onfile, onrow, first))
        if len(maps) > 1: raise Fail('rows', 'the ids of entities are kept in %d maps that do not know of each other' % len(maps))
        und = None
        for name, want in samples():
            t = Text(name); hits = []
            for key, uses in table.items():
                cases = []
                for e, conds, onrow, first in uses:
                    good = True
                    for at, b in conds:
                        x = t.holds(at)
                        if x is None: und = 'files are chosen by %s' % show(at)[:80]; good = False; break
                        if x != b: good = False; break
                    if good: cases.append(onrow)
                if cases and want is not None: allrows(c, name, want, cases)
                if cases and key not in hits and not (first and any(k[0] == key[0] for k in hits)): hits.append(key)
            if und: raise Undecided(und)
            if want is None:
                need(c, not hits, 'files', 'the rows of %s are imported, no entry is meant for it' % name)
                continue
            need(c, hits, 'files', 'the rows of %s are not imported' % name)
            for k in hits: spec.setdefault(k, set()).add(want)
        return UNIT
    R.run('files', fp, c, th, nopanic=False)
    # failures
    reported = set()
    for which in (('readdir',), ('dirent',), ('open', 'header'), ('row',)):
        c = ctx(W, which); override(c)
        def th(c=c):
            c.assume(c.norm(('isdir', DIR)), True)
            n0 = len(c.foralls)
            sc = abstract(W, c)
            s, p = rescase(c, c.call_uid(fp, [('ref', c.alloc(sc, 'sc'), ()), DIR], gen(F, fp)))
            failed = [o for o, _ in io.flat(c.ops) if o[4] == 'err']
            if not s:
                if contains(p, lambda t: t[0] == 'row') or any(a[0] == 'isv' and a[1][0] == 'row' and b == (a[2] == 1) for a, b, w in c.facts.log):
                    reported.update(o[1] for vs, gs, kinds, o in walk(c.ops) if 'some' in kinds)
                return UNIT
            if any(a[0] == 'isv' and a[1][0] == 'row' and b == (a[2] == 1) for a, b, w in c.facts.log): raise Fail('errors', 'a row that cannot be read ends the loading with success')
            for vs, gs, kinds, o in walk(c.ops):
                need(c, 'some' not in kinds, 'errors', 'rows are left out, but success is returned')
            need(c, not failed, 'errors', '%s fails, but success is returned' % ({'open': 'opening a file', 'readdir': 'listing the directory'}.get(failed[0][1], failed[0][1]) if failed else ''))
            for f in c.foralls[n0:]:
                for vs, gs in f['alts']:
                    for at, b in gs:
                        if at[0] == 'isv' and at[1][0] in ('row', 'dirent') and b != (at[2] == 0):
                            raise Fail('errors', 'a %s that cannot be read is passed over' % ('row' if at[1][0] == 'row' else 'entry of the directory'))
            return UNIT
        R.run('errors(%s)' % which[0], fp, c, th, nopanic=False)
    for u, ins in rows:
        if u in {k[0] for k in spec} and u not in reported:
            R.bad('errors(row)/reported', F.cn(fp), 'no error is returned for a row given to %s that cannot be read' % F.cn(u), R.spanof(fp))

NEUTRAL = dict(csvio.NEUTRAL, flexible=(FALSE,), trim=())
def plain(c, od):
    """the options that change which rows or fields are read have their default value"""
    for k, v in sorted(od.items()):
        if k in ('buffer_capacity', 'nfa', 'delimiter', 'has_headers'): continue
        v = c.norm(v)
        if v in (NEUTRAL.get(k) or ()): continue
        if k == 'trim' and v[0] == 'adt' and v[2] == 0: continue
        raise Fail('format', 'rows are read with %s = %s' % (k, show(v)[:40]))
def syms(t):
    out = set()
    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'sym': out.add(x); return
            for y in x: w(y)
    w(t)
    return out
def allrows(c, name, want, cases):
    """no row is left out because of what it holds"""
    least = 2 if want[0] == 'relation' else want[3] + 1
    for n in range(least, least + 3):
        left = []
        for conds in cases:
            rest = []; good = True
            for at, b in conds:
                x = c.norm(subst(at, n))
                if x in (TRUE, FALSE):
                    if (x == TRUE) != b: good = False; break
                else: rest.append((at, b))
            if good: left.append(rest)
        r = csvio.covers(left) if left else False
        if r: continue
        if r is None or any(opaque(at) for g in left for at, b in g): raise Undecided('rows of %s are chosen by their contents' % name)
        raise Fail('rows', 'rows of %s with %d columns are not imported%s' % (name, n, ' when not %s' % show(left[0][0][0])[:60] if left and left[0] else ''))
def subst(t, n):
    if not isinstance(t, tuple): return t
    if t[0] == 'ncols': return I(n)
    if t[0] == 'hascol': return B(t[2] < n)
    return tuple(subst(x, n) for x in t)
def opaque(at): return any(contains(at, lambda t, o=o: t[0] == o) for o in OPAQUE)
def entry_of(p):
    """the directory entry a path names"""
    return p[1] if p[0] == 'fpath' else None

# ---------------------------------------------------------------- one row
def texteq(c):
    """equality of texts put together from parts"""
    old = c.dom.simp
    def simp(t, fs):
        if t[0] == 'eq' and len(t) == 3 and (t[1][0] == 'cat' or t[2][0] == 'cat') and all(is_text(x) for x in t[1:]):
            p = [tuple(y[1] if y[0] == 'str' else y for y in (x[1] if x[0] == 'cat' else (x,))) for x in t[1:]]
            p, q = strip_common(*p)
            if not p and not q: return TRUE
            if io.distinct(c, io.text(p), io.text(q)) is True: return FALSE
            if len(p) == 1 and len(q) == 1: return ('eq', io.text(p), io.text(q))
        return old(t, fs)
    c.dom.simp = simp
def strip_common(p, q):
    p, q = list(p), list(q)
    while p and q and p[0] == q[0]: p.pop(0); q.pop(0)
    while p and q and p[-1] == q[-1]: p.pop(); q.pop()
    for ix, f in ((0, lambda a, b: len(commonprefix(a, b))),):
        if p and q and isinstance(p[0], str) and isinstance(q[0], str):
            k = f(p[0], q[0]); p[0] = p[0][k:]; q[0] = q[0][k:]
            if not p[0]: p.pop(0)
            if q and not q[0]: q.pop(0)
    return tuple(p), tuple(q)
def commonprefix(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
    return a[:i]

ROW = ('sym', 'row')
def hole(k, n):
    """a key with the id column taken out: pattern or None"""
    cols = set()
    def w(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'rcol': cols.add(t); return
            for y in t: w(y)
    w(k)
    if len(cols) != 1: return None, cols
    x = cols.pop()
    return replace(k, {x: ('sym', 'ID')}), {x}

def one(W, R, spec):
    F = W.F
    patterns = {}                           # kind -> {pattern: entry}
    ok_all = True
    for (u, args), wants in sorted(spec.items(), key=repr):
        if len(wants) > 1:
            R.bad('files/files', F.cn(u), 'one entry imports the rows of files of several kinds: %s' % ', '.join(sorted('_'.join(str(y) for y in w[1:]) for w in wants))[:200], R.spanof(u)); ok_all = False; continue
        want = list(wants)[0]
        name = '_'.join(str(x) for x in want[1:]) if want[0] == 'relation' else want[1]
        ins = dict(row_functions(W))[u]
        c = ctx(W, False); texteq(c)
        G = 'g'
        def max_seen(cc, a, ta):
            adds = [o for o in cc.ops if o[0] == 'gop' and o[2] == 'add_node']
            if adds: return some(adds[-1][3][0])
            s, p = opt(cc, ('maxid', G)); return some(p) if s else NONE
        def counted(cc, a, ta):
            ids = []
            for o in cc.ops:
                if o[0] == 'gop' and o[2] == 'add_node' and o[3][0] not in ids and cc.known(('N', G, o[3][0])) is not True: ids.append(o[3][0])
            return add(('cardN', G), I(len(ids)))
        c.overrides[W.trait('GraphTrait') + '::max_seen_id'] = max_seen
        c.overrides[W.trait('GraphTrait') + '::node_count'] = counted
        def th(c=c, u=u, args=args, want=want, ins=ins):
            c.g_mut[G] = 'same'
            gl = c.alloc(('G', G), 'G'); ml = c.alloc(('sym', 'ids'), 'M')
            rest = list(args); vals = []
            for t in ins:
                p = peel(t); h = head_of(p)
                if h == REC[1]: v = ROW
                elif h in models.MAPS: vals.append(('ref', ml, ())); continue
                elif h == W.adt('TypedGraphMap') or h.endswith('GraphMap'): vals.append(('ref', gl, ())); continue
                else:
                    if not rest: raise Undecided('arguments of %s' % u)
                    v = rest.pop(0)
                vals.append(('ref', c.alloc(v, 'a'), ()) if t[0] == 'ref' else v)
            c.call_uid(u, vals, gen(F, u))
            m = c.norm(c.read((ml, ())))
            ins_ = []
            x = m
            while x[0] == 'mins': ins_.append((c.norm(x[2]), c.norm(x[3]))); x = c.norm(x[1])
            if x != ('sym', 'ids'): raise Undecided('the map of ids')
            ins_.reverse()
            asked = []
            for at, b, w in c.facts.log:
                if at[0] == 'in' and at[1] == ('sym', 'ids') and at[2] not in [k for k, _ in asked]: asked.append((c.norm(at[2]), b))
            ends = [(want[1], want[2])] if want[0] == 'node' else [(want[1], 0), (want[3], 1)]
            labels = [want[3]] if want[0] == 'node' else [None, None]
            gops = [o for o in c.ops if o[0] == 'gop']
            if any(o[0] in ('each', 'some', 'loop') for o in c.ops): raise Undecided('a row imported with a loop')
            # keys
            keys = [k for k, b in asked]
            for k, v in ins_: 
                if k not in keys: keys.append(k)
            ids = {}
            bycol = {}
            for k in keys:
                pat, cs = hole(k, want)
                if pat is None: raise (Fail('entities', 'an entity is identified by %s' % show(k)[:80]) if not opaque_key(k) else Undecided('key of an entity'))
                if opaque_key(pat): raise Undecided('key of an entity: %s' % show(pat)[:60])
                bycol.setdefault(list(cs)[0][2], []).append((k, pat))
            colkeys = []
            for kind, cl in ends:
                ks = bycol.get(cl, [])
                if not ks:
                    # both keys may be the same on this path
                    ks = [(k, p) for cs in bycol.values() for k, p in cs if c.known(c.norm(('eq', ('rcol', ROW, cl), ('rcol', ROW, colof(k))))) is True]
                need(c, ks, 'entities', 'the entity in column %d is not looked up by that column' % cl)
                colkeys.append(ks)
            extra = set(bycol) - {cl for _, cl in ends}
            need(c, not extra, 'entities', 'an entity is looked up by column %s' % sorted(extra))
            idvals = []
            for (kind, cl), ks in zip(ends, colkeys):
                k, pat = None, None
                if len(ks) == 1: k, pat = ks[0]
                else: raise Undecided('several keys from one column')
                patterns.setdefault(kind, {}).setdefault(pat, name_of(want))
                hit = [v for kk, v in ins_ if c.norm(('eq', kk, k)) == TRUE or kk == k]
                if len(hit) > 1: raise Fail('entities', 'an entity gets two ids')
                known = [b for kk, b in asked if kk == k]
                if hit:
                    if True in known: raise Fail('entities', 'an entity seen before gets another id')
                    if not known: raise Fail('entities', 'an entity gets a new id without looking whether it has one')
                    idvals.append((hit[0], True))
                else:
                    if True in known: idvals.append((c.norm(models.map_val(c, ('sym', 'ids'), k)), False))
                    else: raise Fail('entities', 'the id of a new entity is not kept')
            for kk, v in ins_:
                need(c, any(kk == k or c.norm(('eq', kk, k)) == TRUE for ks in colkeys for k, p in ks), 'entities', 'an id is kept for %s' % show(kk)[:60])
            # fresh ids
            for i, (kk, v) in enumerate(ins_): fresh(c, i, v, [x for _, x in ins_[:i]])
            # the graph
            allowed = [v for v, _ in idvals]
            for o in gops:
                nm, a = o[2], o[3]
                if nm == 'add_node':
                    need(c, a[0] in allowed, 'graph', 'a node %s is added' % show(a[0])[:60])
                elif nm == 'add_edge':
                    need(c, want[0] == 'relation', 'graph', 'a row of entities adds an edge')
                    need(c, [a[0], a[1]] == [x for x, _ in idvals], 'graph', 'the edge added does not lead from the entity in column %d to the one in column %d' % (ends[0][1], ends[1][1]))
                    need_eq(c, a[2], some(('str', want[2])), 'labels', 'label of the edge')
                elif nm in ('update_node_label', 'update_edge_label'): raise Undecided('labels changed afterwards')
                else: raise Fail('graph', 'importing a row does %s' % nm)
            if want[0] == 'relation': need(c, any(o[2] == 'add_edge' for o in gops), 'graph', 'no edge is added')
            for (v, new), (kind, cl), lc in zip(idvals, ends, labels):
                adds = [o for o in gops if o[2] == 'add_node' and o[3][0] == v]
                if want[0] == 'node':
                    need(c, adds, 'graph', 'the entity of the row is not added')
                    need_eq(c, adds[-1][3][1], some(('rcol', ROW, lc)), 'labels', 'label of the entity')
                elif new:
                    need(c, adds, 'labels', 'a new entity is created without a label')
                    for o in adds: need_eq(c, o[3][1], some(('str', kind)), 'labels', 'label of a new entity in column %d' % cl)
                else:
                    need(c, not adds, 'labels', 'an entity that exists is labelled again')
            return UNIT
        R.run('row<%s>' % name, u, c, th, nopanic=False)
    return patterns

def name_of(w): return '_'.join(str(x) for x in w[1:] if isinstance(x, str))
def colof(k):
    return list(hole(k, None)[1])[0][2]
def opaque_key(p):
    return contains(p, lambda t: t[0] not in ('cat', 'str', 'sym', 'tup', 'rcol', 'adt') and isinstance(t[0], str) and len(t) > 1)

def fresh(c, i, v, before):
    """the i-th id given out for a row is one no node has"""
    for x in before:
        if v == x: raise Fail('ids', 'two entities get one id')
    M0 = ('sym', 'ids')
    good = {c.norm(('idnew', add(('cardN', 'g'), I(i)))), c.norm(('idnew', add(c.norm(models.map_card(c, M0)), I(i))))}
    mx = c.norm(('maxid', 'g'))
    k = c.known(('isv', mx, 1))
    inc = lambda t: c.norm(('idnew', add(c.norm(('idid', t)), I(1))))
    if i == 0:
        if k is True: good.add(inc(('vf', mx, 1, 0)))
        elif k is False: good.add(c.norm(('idnew', I(0))))
        elif k is None: pass
    else: good.add(inc(before[-1]))
    if v in good: return
    if v[0] == 'idnew' or v == ('vf', mx, 1, 0) or v[0] == 'int': raise Fail('ids', 'a new entity gets the id %s, which need not be unused' % show(v)[:80])
    raise Undecided('id of a new entity: %s' % show(v)[:80])

def keys(W, R, patterns):
    """different entities have different keys"""
    ks = sorted(patterns); fp = W.inherent(W.adt('Scheme'), 'from_path')
    bad = []; c = ctx(W, False)
    for k in ks:
        if len(patterns[k]) > 1: bad.append('entities of kind %s are looked up in %d ways (%s)' % (k, len(patterns[k]), ', '.join(sorted(patterns[k].values()))[:120]))
    A, Bv = ('sym', 'idA'), ('sym', 'idB')
    n = 0
    for i, k in enumerate(ks):
        for l in ks[i + 1:]:
            for p in patterns[k]:
                for q in patterns[l]:
                    n += 1
                    if not apart(c, replace(p, {('sym', 'ID'): A}), replace(q, {('sym', 'ID'): Bv})):
                        bad.append('an entity of kind %s and one of kind %s can have the same key: %s, %s' % (k, l, show(p)[:60], show(q)[:60]))
    for b in bad[:3]: R.bad('keys/entities', W.F.cn(fp), b, R.spanof(fp))
    if not bad: R.ok('keys', W.F.cn(fp), '%d kinds, %d pairs of keys' % (len(ks), n), R.spanof(fp))
def apart(c, p, q):
    if p[0] == 'tup' and q[0] == 'tup' or p[0] == 'adt' and q[0] == 'adt':
        a, b = (p[1], q[1]) if p[0] == 'tup' else (p[3], q[3])
        return any(apart(c, x, y) for x, y in zip(a, b))
    return io.distinct(c, p, q) is True

def entry_point(W, R):
    """read_ldbc_from_path loads the given path with the scheme of LDBC"""
    F = W.F; sch = W.adt('Scheme'); fp = W.inherent(sch, 'from_path'); init = W.inherent(sch, 'init'); top = W.function('read_ldbc_from_path')
    c = ctx(W, False)
    PATH = ('sym', 'thepath')
    c.overrides[F.cn(init)] = lambda cc, a, ta: ('sym', 'scheme')
    def load(cc, a, ta):
        cc.ops.append(('load', cc.strip(a[0]), cc.strip(a[1])))
        return ok(('sym', 'loaded')) if cc.choose(2, 'loads') == 0 else err(('ioerr', 'load', PATH))
    c.overrides[F.cn(fp)] = load
    def th():
        r = c.call_uid(top, [PATH], gen(F, top))
        l = [o for o in c.ops if o[0] == 'load']
        if not l: raise Undecided('the loader does not call Scheme::from_path')
        need(c, len(l) == 1, 'entry', 'the directory is loaded %d times' % len(l))
        need(c, c.norm(l[0][1]) == ('sym', 'scheme'), 'entry', 'the directory is not loaded with the LDBC scheme')
        need(c, c.norm(l[0][2]) == PATH, 'entry', 'another directory than the given one is loaded')
        need_eq(c, r, ('sym', 'loaded'), 'entry', 'the returned graph')
        return UNIT
    R.run('entry point', top, c, th, nopanic=False)

def c33(R, W):
    spec = {}
    entry_point(W, R)
    loading(W, R, spec)
    if not spec: return
    patterns = one(W, R, spec)
    if all(o['status'] == 'discharged' for o in R.obs): keys(W, R, patterns)
