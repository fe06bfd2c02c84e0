"""Finds the anchors of the analysed crate (public traits, types, methods) and the class invariants
that let the fields of its graph types be read as one abstract graph."""
from terms import *
from core import Ctx, unify_ty
import models
from models import *

class Missing(Exception): pass

class World:
    def __init__(self, F):
        self.F = F
        self.T = {}
        for u, t in F.traits.items():
            if u.startswith('rust_graph::'): self.T.setdefault(u.split('::')[-1], u)
        self.adt_by_name = {}
        for u, a in F.adts.items():
            if u.startswith('rust_graph::'): self.adt_by_name.setdefault(u.split('::')[-1], u)
        d = {x: 'rust_graph::generic::dtype::' + x for x in ('Directed', 'Undirected')}
        for x in list(d):
            if d[x] not in F.adts and x in self.adt_by_name: d[x] = self.adt_by_name[x]
        self.Directed = ('adt', d['Directed'], ()); self.Undirected = ('adt', d['Undirected'], ())

    def trait(self, n):
        if n not in self.T: raise Missing('trait %s' % n)
        return self.T[n]
    def adt(self, n):
        if n not in self.adt_by_name: raise Missing('type %s' % n)
        return self.adt_by_name[n]

    def impl_self(self, trait, head):
        """impls of a trait (by name) whose self type has this head"""
        tu = self.T.get(trait, trait)
        return [i for i in self.F.by_trait.get(tu, []) if head_of(self.F.ty(i['self'])) == head]

    def method(self, selfty, trait, name):
        """(uid, env) of a trait method for a concrete self type (default bodies included)"""
        F = self.F; tu = self.T.get(trait, trait)
        for im in F.by_trait.get(tu, []):
            env = {}
            if unify_ty(F.ty(im['self']), selfty, env):
                for nm, iu, _ in im['items']:
                    if nm == name: return iu, env
                for nm, iu, hasd in F.traits[tu]['items']:
                    if nm == name and iu in F.bodies:
                        g = F.defs[iu].get('generics', [])
                        e = {}
                        ta = [F.arg(x) for x in im['targs']]
                        from facts import subst
                        for n, a in zip(g, ta): e[n] = subst(a, env)
                        e['Self'] = selfty
                        return iu, e
        raise Missing('%s::%s for %s' % (trait, name, head_of(selfty)))

    def inherent(self, head, name):
        r = [u for u, d in self.F.defs.items() if d.get('name') == name and d.get('impl_self') == head and not d.get('trait') and u in self.F.bodies]
        if not r: raise Missing('%s::%s' % (head, name))
        return r[0]

    def function(self, name):
        r = [u for u in self.F.bodies if self.F.defs.get(u, {}).get('name') == name and not self.F.defs[u].get('impl') and not self.F.defs[u].get('trait')]
        if not r: raise Missing('fn %s' % name)
        return r[0]

    def selfof(self, trait, head):
        r = self.impl_self(trait, head)
        if not r: raise Missing('impl %s for %s' % (trait, head))
        return self.F.ty(r[0]['self'])

    def dispatch_tr(self, c, trait, name, selfty, args, extra=()):
        """call Trait::name on a value of a concrete type"""
        uid, env = self.method(selfty, trait, name)
        env = dict(env)
        for k, v in extra: env[k] = v
        return c.call_uid(uid, args, env)

def head_of(t):
    return t[1] if t and t[0] in ('adt', 'dyn') else t[0] if t else None


class GraphMapDom:
    """Class invariant of the mutable graph as rewrite rules on its symbolic pre-state:
    the node stored under key k has id k, its adjacency is the abstract edge relation E (mirrored),
    every edge's endpoints are nodes N, and the maximum id bounds every node."""
    def __init__(self, roles, directed):
        self.r = roles; self.dir = directed; self.ctx = None
        self.M = ('sym', 'M'); self.max = ('sym', 'maxid')
        self.use_max = True
    def pair(self, a, b):
        if self.dir: return (a, b)
        return (a, b) if repr(a) <= repr(b) else (b, a)
    def simp(self, t, fs):
        o = t[0]; r = self.r
        if o == 'fld' and t[1][0] == 'mval' and t[1][1] == self.M:
            k = t[1][2]; i = t[2]
            if i == r['n_id']: return k
            if i == r['n_label']: return ('nlab', k)
            if i == r['n_nbrs']: return ('nbrs', k)
            if i == r['n_in']: return ('innbrs', k)
        if o == 'in':
            m = t[1]
            if m == self.M: return ('N', t[2])
            if m[0] == 'nbrs': return ('E',) + self.pair(m[1], t[2])
            if m[0] == 'innbrs': return ('E',) + self.pair(t[2], m[1]) if self.dir else FALSE
        if o == 'mval':
            if t[1][0] == 'nbrs': return ('elab',) + self.pair(t[1][1], t[2])
            if t[1][0] == 'innbrs': return UNIT
        if o == 'E' and not self.dir:
            p = self.pair(t[1], t[2])
            if p != t[1:]: return ('E',) + p
        if o == 'elab' and not self.dir:
            p = self.pair(t[1], t[2])
            if p != t[1:]: return ('elab',) + p
        if o == 'card' and t[1][0] == 'innbrs' and not self.dir: return I(0)
        if o == 'card' and t[1] == self.M: return ('sym', 'N#')
        return t
    def lookup(self, at, fs):
        o = at[0]
        if o == 'isv' and at[1][0] in ('nlab', 'elab') and at[2] in (0, 1):
            v = fs.atoms.get(('isv', at[1], 1 - at[2]))
            if v is not None: return not v
        if o == 'N':
            for k, v in fs.atoms.items():
                if k[0] == 'E' and v and at[1] in k[1:]: return True
            if self.use_max:
                if fs.atoms.get(('isv', self.max, 0)) is True or fs.atoms.get(('isv', self.max, 1)) is False: return False
                if fs.atoms.get(('isv', self.max, 1)) and fs.lookup(('lt', fs.norm(('vf', self.max, 1, 0)), at[1])) is True: return False
        if o == 'E':
            for k, v in fs.atoms.items():
                if k[0] == 'N' and not v and k[1] in at[1:]: return False
            if self.use_max:
                if fs.atoms.get(('isv', self.max, 0)) is True: return False
                if fs.atoms.get(('isv', self.max, 1)):
                    for x in at[1:]:
                        if fs.lookup(('lt', fs.norm(('vf', self.max, 1, 0)), x)) is True: return False
        if o == 'eq':
            # the in/out degree of a node with a known edge is positive
            a, b = at[1], at[2]
            for x, y in ((a, b), (b, a)):
                if y == I(0) and x[0] == 'card':
                    if self.nonempty(x[1], fs): return False
                if y == I(0) and x == ('sym', 'N#'):
                    if any(k[0] == 'N' and v for k, v in fs.atoms.items()) or any(k[0] == 'E' and v for k, v in fs.atoms.items()): return False
        return None
    def nonempty(self, m, fs):
        for k, v in fs.atoms.items():
            if k[0] == 'E' and v:
                if m[0] == 'nbrs' and (k[1] == m[1] or not self.dir and k[2] == m[1]): return True
                if m[0] == 'innbrs' and self.dir and k[2] == m[1]: return True
        return False
    def consequences(self, at, v, fs):
        out = []
        ns = [at[1]] if at[0] == 'N' and v else [at[1], at[2]] if at[0] == 'E' and v else []
        if at[0] == 'E' and v:
            out += [(('N', at[1]), True), (('N', at[2]), True)]
        if ns and self.use_max:
            out += [(('isv', self.max, 1), True)] + [(('lt', ('vf', self.max, 1, 0), x), False) for x in ns]
        if at[0] == 'isv' and at[1][0] in ('nlab', 'elab') and at[2] == (1 if v else 0) and self.r.get('NLset'):
            s = self.r['NLset'] if at[1][0] == 'nlab' else self.r['ELset']
            out.append((('lt', ('idid', ('vf', at[1], 1, 0)), ('slen', s)), True))
        if at[0] == 'isv' and v and at[1] == self.max and at[2] == 0:
            for k, x in list(fs.atoms.items()):
                if k[0] in ('N', 'E') and x: raise Infeasible()
        return out
    def decide(self, at, c): return None
    def cnt(self, vs, gs, c):
        """the number of ends of one node's edges is its degree"""
        if len(vs) != 1 or len(gs) != 1: return None
        (v,), ((g, b),) = vs, gs
        if not b or g[0] != 'E' or (g[1] == v) == (g[2] == v): return None
        o = g[2] if g[1] == v else g[1]
        if contains(o, lambda t: t == v): return None
        return c.norm(('card', ('innbrs' if self.dir and g[1] == v else 'nbrs', o)))
    def sub_overflow(self, a, b, c):
        """E# less the edges of one node and a constant: negative for some graph the facts allow?  The smallest
        graph has the edges of that node and the other edges known to exist, and no more."""
        fs = c.facts
        k, co = lin_parts(c.norm(sub(a, b)))
        co = dict(co)
        if co.pop(('sym', 'E#'), 0) != 1 or k > 0: return False
        vs = {m[1][1] for m in co if m[0] == 'card' and m[1][0] in ('nbrs', 'innbrs')}
        if len(vs) > 1 or any(x != -1 or m[0] != 'card' or m[1][0] not in ('nbrs', 'innbrs') for m, x in co.items()): return False
        known = [e[1:] for e, v in fs.atoms.items() if e[0] == 'E' and v]
        if not vs: return k + len(known) < 0
        v = next(iter(vs))
        loop = fs.lookup(('E',) + self.pair(v, v))
        ins = {m[1][0] for m in co}
        if self.dir and ins == {'nbrs', 'innbrs'}:
            if c.decide(('E', v, v)): k -= 1
            apart = [e for e in known if v not in e]
        else: apart = [e for e in known if (v not in e if not self.dir else e[0 if 'nbrs' in ins else 1] != v)]
        return k + len(apart) < 0


class GraphMap:
    """the mutable graph implementation: discovered by its public trait impls"""
    def __init__(self, W):
        F = W.F; self.W = W
        tu = W.trait('MutGraphTrait')
        imps = [i for i in F.by_trait.get(tu, []) if F.ty(i['self'])[0] == 'adt']
        if not imps: raise Missing('impl of MutGraphTrait')
        self.ty = F.ty(imps[0]['self']); self.uid = self.ty[1]
        self.adt = F.adts[self.uid]
        # the parameter that is the direction marker
        self.params = [a for a in self.ty[2]]
        self.gparam = None
        for i in F.by_trait.get(W.trait('DiGraphTrait'), []):
            t = F.ty(i['self'])
            if t[0] == 'adt' and t[1] == self.uid:
                for a, b in zip(t[2], self.ty[2]):
                    if a == W.Directed and b[0] == 'param': self.gparam = b[1]
        if self.gparam is None: self.gparam = 'Ty'
        fs = self.adt['variants'][0]['f']
        self.f = {}
        sets = []
        for i, f in enumerate(fs):
            t = F.ty(f['t']); h = head_of(t)
            if h in MAPS:
                self.f['nodes'] = i; self.nodety = t[2][1]
            elif h == 'int': self.f['count'] = i
            elif h == OPT: self.f['max'] = i
            elif h == W.adt_by_name.get('SetMap'): sets.append(i)
        self.sets = sets
        if not {'nodes', 'count', 'max'} <= set(self.f) or len(sets) != 2: raise Missing('fields of the mutable graph')
        na = F.adts[self.nodety[1]]
        self.n = {}
        for i, f in enumerate(na['variants'][0]['f']):
            h = head_of(F.ty(f['t']))
            if h == OPT: self.n['n_label'] = i
            elif h in MAPS: self.n['n_nbrs'] = i
            elif h in SETS: self.n['n_in'] = i
            elif h == 'param': self.n['n_id'] = i
        if len(self.n) != 4: raise Missing('fields of the node type')
        self.nfields = len(na['variants'][0]['f'])
        # which label table is which: by the public getters
        c = self.ctx(True, probe=True)
        def g(name):
            l = self.new(c)
            r = self.call(c, 'GraphLabelTrait', name, l, [])
            v = c.norm(r)
            return v[2][0][1]
        outs = c.explore(lambda: (g('get_node_label_map'), g('get_edge_label_map')))
        v = outs[0][0]
        if not isinstance(v, tuple): raise Missing('label table getters')
        self.f['nl'], self.f['el'] = v

    def selfty(self, directed):
        m = {self.gparam: self.W.Directed if directed else self.W.Undirected}
        from facts import subst
        return subst(self.ty, m)

    def ctx(self, directed, probe=False):
        roles = dict(self.n)
        if 'nl' in self.f:
            roles['NLset'] = ('fld', ('sym', 'NL'), 0); roles['ELset'] = ('fld', ('sym', 'EL'), 0)
        c = Ctx(self.W.F, GraphMapDom(roles, directed))
        c.models = dict(models.M)
        c.directed = directed
        return c

    def value(self):
        fs = []
        for i, f in enumerate(self.adt['variants'][0]['f']):
            if i == self.f['nodes']: fs.append(('sym', 'M'))
            elif i == self.f['count']: fs.append(('sym', 'E#'))
            elif i == self.f['max']: fs.append(('sym', 'maxid'))
            elif i == self.f.get('nl'): fs.append(('sym', 'NL'))
            elif i == self.f.get('el'): fs.append(('sym', 'EL'))
            elif i in self.sets: fs.append(('sym', 'set%d' % i))
            else: fs.append(UNIT)
        return ('adt', self.uid, 0, tuple(fs))

    def new(self, c):
        l = 'G'
        c.mem[l] = self.value()
        c.dynty[(l, ())] = self.selfty(c.directed)
        return l

    def call(self, c, trait, name, loc, args):
        uid, env = self.W.method(self.selfty(c.directed), trait, name)
        return c.call_uid(uid, [('ref', loc, ())] + list(args), env)
    def env(self, c): return {self.gparam: self.W.Directed if c.directed else self.W.Undirected}
    def F_setmap(self, which):
        f = self.adt['variants'][0]['f'][self.f['nl' if which == 'n' else 'el']]
        return self.W.F.ty(f['t'])
    def uid_of(self, trait, name, directed=True):
        return self.W.method(self.selfty(directed), trait, name)[0]

    # observations of a state --------------------------------------------------------------
    def fld(self, c, loc, role): return c.read((loc, (('f', self.f[role]),)))
    def nodeval(self, c, loc, k):
        m = self.fld(c, loc, 'nodes')
        if not map_has(c, m, k): return None
        return map_val(c, m, k)
    def nf(self, c, nv, role): return c.proj(nv, ('f', self.n[role]))
    def has_node(self, c, loc, k): return map_has(c, self.fld(c, loc, 'nodes'), k)
    def out(self, c, loc, a, b):
        """(present, label) of the adjacency entry a -> b"""
        nv = self.nodeval(c, loc, a)
        if nv is None: return False, None
        m = self.nf(c, nv, 'n_nbrs')
        if not map_has(c, m, b): return False, None
        return True, c.norm(map_val(c, m, b))
    def inn(self, c, loc, a, b):
        """is a listed among the in-neighbours of b"""
        nv = self.nodeval(c, loc, b)
        if nv is None: return False
        return map_has(c, self.nf(c, nv, 'n_in'), a)
