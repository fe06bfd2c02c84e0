"""The graph implementations as readers see them: each subject couples a concrete symbolic pre-state with
the abstract graph it stands for (class invariants as rewrite rules)."""
from terms import *
from world import *
from core import Ctx, unify_ty
import models
from models import *
from facts import subst

VEC = 'alloc::vec::Vec'

class Subj:
    """interface: configs(), ctx(cfg), new(c), call(..); N/E/nlab/elab describe the abstract graph"""
    def method(self, c, trait, name): return self.W.method(self.selfty(c.directed), trait, name)
    def call(self, c, trait, name, loc, args):
        uid, env = self.method(c, trait, name)
        return c.call_uid(uid, [('ref', loc, ())] + list(args), env)
    def uid_of(self, trait, name, directed=True): return self.W.method(self.selfty(directed), trait, name)[0]
    def handle(self, c, trait, name, v, extra=()):
        """a method of a node/edge handle value"""
        v = c.norm(v)
        l = v[1] if v[0] == 'ref' and v[2] == () else c.alloc(v, 'hd')
        x = c.read((l, ())) if v[0] == 'ref' else v
        if x[0] != 'adt': raise Undecided('handle of unknown shape %s' % show(x)[:60])
        st = self.W.selfof(trait, x[1])
        return self.W.dispatch_tr(c, trait, name, st, [('ref', l, ())] + list(extra))
    def text(self, c, which, lid):
        """label text (Option) of an Option<label id> by the graph's table"""
        s, l = opt(c, lid)
        if not s: return NONE
        return some(c.norm(('sget', ('fld', ('sym', 'NL' if which == 'n' else 'EL'), 0), c.norm(('idid', l)))))


class MutSubj(Subj):
    name = 'mutable graph'
    dirs = (True, False)
    def __init__(self, G):
        self.G = G; self.W = G.W; self.uid = G.uid
    def selfty(self, d): return self.G.selfty(d)
    def configs(self): return [('Directed', True, None), ('Undirected', False, None)]
    def ctx(self, cfg):
        return self.G.ctx(cfg[1])
    def new(self, c): return self.G.new(c)
    def N(self, c, k): return c.decide(c.norm(('N', k)))
    def E(self, c, a, b): return c.decide(('E',) + c.dom.pair(a, b))
    def nlab(self, c, k): return c.norm(('nlab', k))
    def elab(self, c, a, b): return c.norm(('elab',) + c.dom.pair(a, b))
    def ncount(self, c): return ('sym', 'N#')
    def ecount(self, c): return ('sym', 'E#')
    def deg(self, c, k): return c.norm(('card', ('nbrs', k)))
    def indeg(self, c, k): return c.norm(('card', ('innbrs', k)))


class StaticDom:
    """Class invariant of the compact representation: offsets are the running sum of the degrees, each row is
    strictly sorted and holds exactly the neighbours, rows and labels are aligned, ids are 0..n-1."""
    def __init__(self, directed, blank=False):
        self.dir = directed; self.ctx = None; self.blank = blank
        self.n = I(0) if blank else ('sym', 'n')
    def pair(self, a, b):
        if self.dir: return (a, b)
        return (a, b) if repr(a) <= repr(b) else (b, a)
    def key(self, i):
        """node id of row number i"""
        return i[1] if i[0] == 'idid' else ('idnew', i)
    def simp(self, t, fs):
        o = t[0]
        if self.blank:
            if o == 'E': return FALSE
            if o == 'N': return FALSE
            return t
        if o == 'N': return ('lt', fs.norm(('idid', t[1])), self.n)
        if o == 'len':
            v = t[1]
            if v[0] == 'sym' and v[1] in ('off', 'ioff'): return fs.norm(add(self.n, I(1)))
            if v[0] == 'vf' and v[1] == ('sym', 'elabs'): return fs.norm(('len', ('sym', 'edg')))
            if v[0] == 'vf' and v[1] == ('sym', 'ielabs'): return fs.norm(('len', ('sym', 'iedg')))
            if v[0] == 'vf' and v[1] == ('sym', 'nlabs'): return self.n
            if v[0] == 'row': return fs.norm(('card', ('nbrs', self.key(v[1]))))
            if v[0] == 'irow': return fs.norm(('card', ('innbrs', self.key(v[1]))))
        if o == 'vget' and t[1][0] == 'sym' and t[1][1] in ('off', 'ioff'):
            v, i = t[1], t[2]
            if i == I(0): return I(0)
            c, parts = lin_parts(i)
            if i[0] == 'lin' and c > 0 and parts:
                j = fs.norm(sub(i, I(1)))
                return fs.norm(add(('vget', v, j), ('card', ('nbrs' if v[1] == 'off' else 'innbrs', self.key(j)))))
        if o == 'vslice' and t[1][0] == 'sym' and t[1][1] in ('edg', 'iedg'):
            lo, hi = t[2], t[3]
            off = ('sym', 'off') if t[1][1] == 'edg' else ('sym', 'ioff')
            if lo[0] == 'vget' and lo[1] == off:
                i = lo[2]
                if hi == fs.norm(add(lo, ('card', ('nbrs' if t[1][1] == 'edg' else 'innbrs', self.key(i))))):
                    return ('row' if t[1][1] == 'edg' else 'irow', i)
        if o == 'in' and t[1][0] == 'row': return fs.norm(('E',) + self.pair(self.key(t[1][1]), t[2]))
        if o == 'in' and t[1][0] == 'irow': return fs.norm(('E',) + self.pair(t[2], self.key(t[1][1])))
        if o == 'vget' and t[1][0] == 'vf' and t[1][1] == ('sym', 'elabs'):
            r = self.edge_at(t[2], 'off', 'row', fs)
            if r: return ('elraw',) + self.pair(self.key(r[0]), r[1])
        if o == 'vget' and t[1][0] == 'vf' and t[1][1] == ('sym', 'ielabs'):
            r = self.edge_at(t[2], 'ioff', 'irow', fs)
            if r: return ('elraw',) + self.pair(r[1], self.key(r[0]))
        if o == 'vget' and t[1][0] == 'vf' and t[1][1] == ('sym', 'nlabs'):
            return ('nlraw', self.key(t[2]))
        if o == 'E' and not self.dir:
            p = self.pair(t[1], t[2])
            if p != t[1:]: return ('E',) + p
        if o == 'elraw' and not self.dir:
            p = self.pair(t[1], t[2])
            if p != t[1:]: return ('elraw',) + p
        if o == 'lt':
            r = self.order(t[1], t[2], fs)
            if r is not None: return B(r)
        return t
    def edge_at(self, i, off, row, fs):
        """index off[k] + pos(row k, x)  ->  (k, x)"""
        c, parts = lin_parts(i)
        if c != 0 or len(parts) != 2: return None
        g = [x for x in parts if x[0] == 'vget' and x[1] == ('sym', off)]
        p = [x for x in parts if x[0] == 'pos' and x[1][0] == row]
        if len(g) == 1 and len(p) == 1 and p[0][1][1] == g[0][2] and parts[g[0]] == 1 and parts[p[0]] == 1:
            return g[0][2], p[0][2]
        return None
    def order(self, a, b, fs):
        """facts about positions: every row lies inside the edge array, a found position inside its row"""
        for (off, edg, row, nb) in (('off', 'edg', 'row', 'nbrs'), ('ioff', 'iedg', 'irow', 'innbrs')):
            L = ('len', ('sym', edg))
            if a == L:
                if b[0] == 'vget' and b[1] == ('sym', off): return False
                c, parts = lin_parts(b)
                if c <= 0 and set(parts.values()) == {1}:
                    g = [x for x in parts if x[0] == 'vget' and x[1] == ('sym', off)]
                    k = [x for x in parts if x[0] == 'card' and x[1][0] == nb]
                    if len(parts) == 2 and len(g) == 1 and len(k) == 1 and fs.norm(self.key(g[0][2])) == k[0][1][1]: return False
            if b == L and a[0] == 'lin' and self.edge_at(a, off, row, fs): return True
            if a[0] == 'pos' and a[1][0] == row and b == fs.norm(('len', a[1])): return True
        return None
    def lookup(self, at, fs):
        o = at[0]
        if o == 'E':
            if self.n == I(0): return False
            for x in at[1:]:
                if fs.lookup(('lt', fs.norm(('idid', x)), self.n)) is False: return False
            if fs.norm(('len', ('sym', 'edg'))) == I(0): return False
        if o == 'eq':
            a, b = at[1], at[2]
            for x, y in ((a, b), (b, a)):
                if y == I(0) and x[0] == 'card' and self.nonempty(x[1], fs): return False
                if y == I(0) and x == ('len', ('sym', 'edg')) and any(k[0] == 'E' and v for k, v in fs.atoms.items()): return False
        return None
    nonempty = GraphMapDom.nonempty
    def consequences(self, at, v, fs):
        out = []
        if at[0] == 'E' and v:
            out += [(('lt', ('idid', x), self.n), True) for x in at[1:]]
        # an element of a row equals X: the row holds X, and there (a row holds each value once)
        if at[0] == 'eq' and v:
            for a, b in ((at[1], at[2]), (at[2], at[1])):
                if a[0] == 'vget' and a[1][0] in ('row', 'irow') and len(a) == 3:
                    if b[0] == 'vget' and b[1] == a[1]: out.append((('eq', a[2], b[2]), True))
                    else: out += [(('in', a[1], b), True), (('eq', ('pos', a[1], b), a[2]), True)]
        if at[0] == 'eq' and v and I(0) in at[1:] and ('len', ('sym', 'edg')) in at[1:]:
            for k, x in list(fs.atoms.items()):
                if k[0] == 'E' and x: raise Infeasible()
        # a label id in use is an index of its table
        if at[0] == 'eq' and not v:
            for a, b in ((at[1], at[2]), (at[2], at[1])):
                if a[0] in ('elraw', 'nlraw') and b[0] == 'idmax':
                    out.append((('lt', ('idid', a), ('slen', ('fld', ('sym', 'EL' if a[0] == 'elraw' else 'NL'), 0))), True))
        return out
    def decide(self, at, c): return None
    def sub_overflow(self, a, b, c): return False
    def unify(self, c, pat, tgt, vs, m, eqs):
        return None


def arr_role(F, f):
    t = F.ty(f['t']); h = head_of(t)
    if h == OPT: return 'labels'
    a = t[2][0]
    return 'offsets' if a[0] == 'int' else 'edges'

class StaticSubj(Subj):
    """TypedStaticGraph and StaticGraphMmap"""
    def __init__(self, W, which):
        F = W.F; self.W = W; self.which = which
        self.name = 'static graph' if which == 'mem' else 'memory-mapped graph'
        self.uid = W.adt('TypedStaticGraph' if which == 'mem' else 'StaticGraphMmap')
        self.adt = F.adts[self.uid]
        self.ty = W.selfof('GraphTrait', self.uid)
        self.gparam = None
        if which == 'mem':
            for i in F.by_trait.get(W.trait('DiGraphTrait'), []):
                t = F.ty(i['self'])
                if t[0] == 'adt' and t[1] == self.uid:
                    for a, b in zip(t[2], self.ty[2]):
                        if a == W.Directed and b[0] == 'param': self.gparam = b[1]
            if self.gparam is None: self.gparam = 'Ty'
        self.tmm = W.adt('TypedMemoryMap')
        ev = W.adt('EdgeVec' if which == 'mem' else 'EdgeVecMmap'); self.ev = ev
        self.evroles = [arr_role(F, f) for f in F.adts[ev]['variants'][0]['f']]
        if sorted(self.evroles) != ['edges', 'labels', 'offsets']: raise Missing('fields of the edge vector')
        self.f = {}; ints = []; sets = []
        for i, f in enumerate(self.adt['variants'][0]['f']):
            t = F.ty(f['t']); h = head_of(t)
            if h == ev: self.f['out'] = i
            elif h == OPT and head_of(t[2][0]) == ev: self.f['in'] = i
            elif h == OPT: self.f['labels'] = i
            elif h == 'int': ints.append(i)
            elif h == W.adt('SetMap'): sets.append(i)
        if not {'out', 'in', 'labels'} <= set(self.f) or len(ints) != 2 or len(sets) != 2: raise Missing('fields of %s' % self.name)
        self.ints = ints; self.sets = sets
        # roles of the counters and label tables by the public getters
        c = self.ctx(('Directed', True, None)); outs = c.explore(lambda: self.probe(c))
        v = outs[0][0]
        if not isinstance(v, tuple): raise Missing('getters of %s: %s' % (self.name, v))
        self.f['n'], self.f['m'], self.f['nl'], self.f['el'] = v
    def probe(self, c):
        l = self.new(c, probe=True)
        r = []
        for nm in ('node_count', 'edge_count'):
            x = c.norm(self.call(c, 'GraphTrait', nm, l, []))
            if x[0] != 'sym' or not x[1].startswith('field'): raise Undecided('getter %s' % nm)
            r.append(int(x[1][5:]))
        for nm in ('get_node_label_map', 'get_edge_label_map'):
            x = c.norm(self.call(c, 'GraphLabelTrait', nm, l, []))
            r.append(x[2][0][1])
        return tuple(r)
    def selfty(self, d):
        if self.which != 'mem': return self.ty
        return subst(self.ty, {self.gparam: self.W.Directed if d else self.W.Undirected})
    def configs(self):
        return [('Directed', True, None), ('Undirected', False, None), ('Directed,no array', True, 'blank'), ('Undirected,no array', False, 'blank')]
    def ctx(self, cfg):
        c = Ctx(self.W.F, StaticDom(cfg[1], cfg[2] == 'blank'))
        c.models = dict(models.M); c.directed = cfg[1]; c.cfg = cfg
        c.overrides = dict(self.overrides())
        return c
    def overrides(self):
        F = self.W.F; o = {}
        if self.which == 'mmap' or True:
            cn = '<%s as core::ops::index::Index>::index' % self.tmm
            def index(c, a, ta):
                v = c.strip(a[0])
                if v[0] != 'tmm': return NotImplemented
                r = c.norm(a[1])
                if r[0] == 'adt' and r[1].endswith('RangeFull') or r == UNIT: return ('rv', v[1])
                lo, hi = slice_range(c, v[1], r)
                return ('rv', vslice(c, v[1], lo, hi))
            o[cn] = index
        return o
    def use_edge_contract(self, c):
        """StaticEdgeIndexIter::new(edge_vec, directed) as its own specification (decided by C11)"""
        F = self.W.F
        it = self.W.adt('StaticEdgeIndexIter')
        uid = self.W.inherent(it, 'new')
        def new(c, a, ta):
            e = c.strip(a[0])
            return ('it', 'base', 'sedges', (e, a[1]), 'init')
        c.overrides[F.cn(uid)] = new
        def elem(c, it):
            e, d = it[3]
            x, y = new_elem(c), new_elem(c)
            offs = self.roles(c, e)['offsets']
            if offs == ('arr', ()): raise Infeasible()
            if offs not in (('sym', 'off'), ('sym', 'ioff')): raise Undecided('edge iterator over another array')
            p = (x, y) if offs == ('sym', 'off') else (y, x)
            c.assume(c.norm(('E',) + c.dom.pair(*p)), True)
            if not c.decide(d): 
                if c.lt(y, x): raise Infeasible()
            return ('tup', (x, y))
        c.models = dict(c.models); c.models[('elem', 'sedges')] = elem
    def roles(self, c, ev):
        """the three arrays of an edge vector value"""
        r = {}
        ev = c.strip(ev)
        for i, role in enumerate(self.evroles):
            v = c.norm(c.proj(ev, ('f', i)))
            if v[0] == 'tmm': v = v[1]
            r[role] = v
        return r
    def wrap(self, v): return v if self.which == 'mem' else ('tmm', v)
    def wrapopt(self, v):
        return v if self.which == 'mem' else ('tmmopt', v)
    def evval(self, pre, c, labels):
        vals = {'offsets': self.wrap(('sym', pre + 'off')), 'edges': self.wrap(('sym', pre + 'edg')), 'labels': labels}
        if c.dom.blank: vals.update(offsets=self.wrap(('arr', ())), edges=self.wrap(('arr', ())))
        return ('adt', self.ev, 0, tuple(vals[r] for r in self.evroles))
    def optarr(self, c, nm):
        """an optional array: both cases are explored"""
        s, p = opt(c, ('sym', nm))
        if not s: return NONE
        if c.dom.blank: return some(self.wrap(('arr', ())))
        return some(self.wrap(('vf', ('sym', nm), 1, 0)))
    def new(self, c, probe=False):
        fs = []
        if probe:
            el = iel = nl = NONE
        else:
            el = self.optarr(c, 'elabs'); nl = self.optarr(c, 'nlabs')
            iel = self.optarr(c, 'ielabs') if c.directed else NONE
        for i, f in enumerate(self.adt['variants'][0]['f']):
            if i == self.f['out']: v = self.evval('', c, el)
            elif i == self.f['in']: v = some(self.evval('i', c, iel)) if c.directed else NONE
            elif i == self.f['labels']: v = nl
            elif i in self.ints:
                v = ('sym', 'field%d' % i) if probe else c.dom.n if i == self.f['n'] else I(0) if c.dom.blank else ('sym', 'E#')
            elif i in self.sets:
                v = ('sym', 'set%d' % i) if probe else ('sym', 'NL') if i == self.f['nl'] else ('sym', 'EL')
            else: v = UNIT
            fs.append(v)
        # each edge takes up one or two places of the array
        if not probe and not c.dom.blank: c.facts.assume(c.norm(('lt', ('len', ('sym', 'edg')), ('sym', 'E#'))), False, 'axiom')
        c.mem['G'] = ('adt', self.uid, 0, tuple(fs))
        c.dynty[('G', ())] = self.selfty(c.directed)
        et = self.W.selfof('EdgeVecTrait', self.ev)
        c.dynty[('G', (('f', self.f['out']),))] = et
        c.dynty[('G', (('f', self.f['in']), ('v', 1), ('f', 0)))] = et
        return 'G'
    # the abstract graph
    def N(self, c, k): return c.decide(c.norm(('N', k)))
    def E(self, c, a, b): return c.decide(c.norm(('E',) + c.dom.pair(a, b)))
    def nlab(self, c, k):
        if not opt(c, ('sym', 'nlabs'))[0]: return NONE
        return self.decode(c, c.norm(('nlraw', k)))
    def elab(self, c, a, b):
        if not opt(c, ('sym', 'elabs'))[0]: return NONE
        return self.decode(c, c.norm(('elraw',) + c.dom.pair(a, b)))
    def decode(self, c, raw):
        m = c.norm(max_id(c))
        return NONE if c.eq(raw, m) else some(raw)
    def ncount(self, c): return c.dom.n
    def ecount(self, c): return I(0) if c.dom.blank else ('sym', 'E#')
    def deg(self, c, k): return c.norm(('card', ('nbrs', k)))
    def indeg(self, c, k): return c.norm(('card', ('innbrs', k)))

def max_id(c): return c.models['rust_graph::generic::dtype::IdType::max_value'](c, [], [('param', 'L')])
