"""Terms (the abstract values of the analysis) and the fact store of one abstract path.

A term is a nested tuple.  Free constructors: ('int',n) ('b',bool) ('str',s) ('tup',fs)
('adt',uid,variant,fs) ('clo',uid,captures,env) ('ref',loc,path) ('rv',value).
Everything else is symbolic: ('sym',name), ('fld',t,i), ('vf',t,variant,i), ('lin',c,((t,k),..)), ...
"""

class Infeasible(Exception): pass
class TimeUp(BaseException): pass
class Undecided(Exception):
    def __init__(self, why): Exception.__init__(self, why); self.why = why
class Fail(Exception):
    def __init__(self, ob, detail, fn=None, where=None):
        Exception.__init__(self, ob, detail); self.ob = ob; self.detail = detail; self.fn = fn; self.where = where
class Panic(Exception):
    def __init__(self, why, span=None): Exception.__init__(self, why); self.why = why; self.span = span

TRUE, FALSE = ('b', True), ('b', False)
UNIT = ('tup', ())
OPT = 'core::option::Option'
RES = 'core::result::Result'
def some(x): return ('adt', OPT, 1, (x,))
NONE = ('adt', OPT, 0, ())
def ok(x): return ('adt', RES, 0, (x,))
def err(x): return ('adt', RES, 1, (x,))
def I(n): return ('int', n)
def B(b): return ('b', bool(b))

def lin_parts(t):
    if t[0] == 'int': return t[1], {}
    if t[0] == 'lin': return t[1], dict(t[2])
    return 0, {t: 1}

def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d: return ('int', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    return ('lin', c, tuple(sorted(d.items(), key=repr)))

def add(a, b, sign=1):
    ca, da = lin_parts(a); cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items(): d[t] = d.get(t, 0) + sign * k
    return mk_lin(ca + sign * cb, d)
def sub(a, b): return add(a, b, -1)
def mul(a, b):
    if a[0] == 'int' and b[0] != 'int': a, b = b, a
    if b[0] == 'int':
        c, d = lin_parts(a)
        return mk_lin(c * b[1], {t: k * b[1] for t, k in d.items()})
    return ('mul',) + tuple(sorted((a, b), key=repr))

def subterms(t, acc=None):
    if acc is None: acc = set()
    if isinstance(t, tuple):
        if t in acc: return acc
        if t and isinstance(t[0], str): acc.add(t)
        for x in t: subterms(x, acc)
    return acc

def contains(t, pred):
    if not isinstance(t, tuple): return False
    if t and isinstance(t[0], str) and pred(t): return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))

def replace(t, m):
    """simultaneous replacement of subterms"""
    if not isinstance(t, tuple): return t
    if t in m: return m[t]
    if not t: return t
    r = tuple(replace(x, m) if isinstance(x, tuple) else x for x in t)
    if r != t and r and r[0] == 'lin': return relin(r)
    return r

def relin(t):
    c, d = t[1], {}
    for x, k in t[2]:
        cx, dx = lin_parts(x)
        c += cx * k
        for y, q in dx.items(): d[y] = d.get(y, 0) + q * k
    return mk_lin(c, d)

def show(t):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    o = t[0]
    if o == 'int': return str(t[1])
    if o == 'b': return str(t[1]).lower()
    if o in ('sym', 'str'): return str(t[1]) if o == 'sym' else repr(t[1])
    if o == 'adt' and len(t) != 4: return t[1].split('::')[-1]
    if o == 'adt':
        n = t[1].split('::')[-1]
        if t[1] == OPT: return 'Some(%s)' % show(t[3][0]) if t[2] else 'None'
        return '%s#%d(%s)' % (n, t[2], ', '.join(show(x) for x in t[3]))
    if o == 'tup': return '(%s)' % ', '.join(show(x) for x in t[1])
    if o == 'lin':
        return '%s' % ' + '.join(([str(t[1])] if t[1] else []) + [('%s*' % k if k != 1 else '') + show(x) for x, k in t[2]])
    if o == 'rv': return '&' + show(t[1])
    if o == 'ref': return '&%s%s' % (t[1], ''.join('.' + show(x) for x in t[2]))
    if isinstance(o, str): return '%s(%s)' % (o, ', '.join(show(x) for x in t[1:]))
    return '(%s)' % ', '.join(show(x) for x in t)


INJ = ('idnew', 'idid', 'sidx', 'sget', 'bpos')

class FactStore:
    """What is known on one path: equalities (representatives), disequalities, order
    (difference bounds) and truth values of atoms."""
    def __init__(self, dom=None):
        self.rep = {}; self.atoms = {}; self.bounds = {}; self.log = []; self.dom = dom
        self._n = {}
    def copy(self):
        f = FactStore(self.dom)
        f.rep = dict(self.rep); f.atoms = dict(self.atoms); f.bounds = dict(self.bounds); f.log = list(self.log)
        f._n = dict(self._n)
        return f

    # normal forms --------------------------------------------------------------------
    def norm(self, t):
        if not isinstance(t, tuple) or not t: return t
        r = self._n.get(t)
        if r is not None: return r
        if t in self.rep: r = self.norm(self.rep[t])
        elif not isinstance(t[0], str): r = tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
        elif t[0] in ('clo', 'fn'): r = (t[0], t[1], self.norm(t[2]) if t[0] == 'clo' else t[2]) + t[3:]
        else:
            r = tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
            if r[0] == 'lin': r = relin(r)
            r = self.simp(r)
            if r != t: r = self.norm(r)
            elif r in self.rep: r = self.norm(self.rep[r])
        self._n[t] = r
        return r

    def simp(self, t):
        o = t[0]
        if o == 'adt' and len(t) != 4: return t          # a type, not a value
        if o == 'adt' and t[3]:
            # eta: Variant(vf(x,v,0),..,vf(x,v,n)) is x
            f = t[3][0]
            if f and f[0] == 'vf' and f[2] == t[2] and f[3] == 0:
                x = f[1]
                if all(g == ('vf', x, t[2], i) for i, g in enumerate(t[3])) and self.atoms.get(('isv', x, t[2])): return x
        if o == 'adt' and t[1] == OPT and t[2] == 0: pass
        if o == 'vf' and t[1][0] == 'adt': return t[1][3][t[3]]
        if o == 'fld' and t[1][0] in ('adt',): return t[1][3][t[2]]
        if o == 'fld' and t[1][0] == 'tup': return t[1][1][t[2]]
        if o == 'idid' and t[1][0] == 'idnew': return t[1][1]
        if o == 'idnew' and t[1][0] == 'idid': return t[1][1]
        if o == 'deref' and t[1][0] == 'rv': return t[1][1]
        if o == 'sget' and t[2][0] == 'sidx' and t[2][1] == t[1]: return t[2][2]
        if o == 'sidx' and t[2][0] == 'sget' and t[2][1] == t[1]: return t[2][2]
        if o == 'vget' and t[2][0] == 'pos' and t[2][1] == t[1]: return t[2][2]
        if o == 'in' and t[2][0] in ('sget', 'vget') and t[2][1] == t[1]: return TRUE
        if o == 'eq' and t[1][0] == t[2][0] and t[1][0] in INJ and t[1][1:-1] == t[2][1:-1]: return ('eq', t[1][-1], t[2][-1])
        if o == 'eq' and t[1][0] == 'discr' and t[2][0] == 'discr':
            x, y = t[1][1], t[2][1]
            if x == y: return TRUE
            if x[0] == 'adt' and y[0] == 'adt' and len(x) == len(y) == 4: return B(x[2] == y[2])
            if x[0] == 'adt' and len(x) == 4: return ('isv', y, x[2])
            if y[0] == 'adt' and len(y) == 4: return ('isv', x, y[2])
        if o == 'lt' and t[1][0] == 'sidx' and t[2] == ('slen', t[1][1]): return TRUE
        if o == 'lt' and t[1][0] == 'pos' and t[2] == ('len', t[1][1]): return TRUE
        if o == 'op' and t[1] == 'Div' and t[2] == ('int', 0): return t[2]
        if o == 'upd':
            ov = tuple((i, v) for i, v in t[2] if v != self.norm(('fld', t[1], i)))
            if ov != t[2]: t = ('upd', t[1], ov)
            if not ov: return t[1]
        if self.dom is not None: return self.dom.simp(t, self)
        return t

    # order: bounds[(u,v)] = w means u - v <= w --------------------------------------
    Z = ('zero',)
    def _split(self, a):
        c, d = lin_parts(a)
        pos = [(t, k) for t, k in d.items() if k > 0]; neg = [(t, -k) for t, k in d.items() if k < 0]
        return c, pos, neg
    def _diff(self, a, b):
        """a - b as (u, v, c) with u,v single nodes, or None"""
        c, d = lin_parts(sub(a, b))
        pos = [(t, k) for t, k in d.items() if k > 0]; neg = [(t, -k) for t, k in d.items() if k < 0]
        if len(pos) > 1 or len(neg) > 1:
            # name multi-symbol sides as a whole
            u = mk_lin(0, dict(pos)) if pos else self.Z
            v = mk_lin(0, dict(neg)) if neg else self.Z
            return u, v, c
        if pos and pos[0][1] != 1 or neg and neg[0][1] != 1:
            u = mk_lin(0, dict(pos)) if pos else self.Z
            v = mk_lin(0, dict(neg)) if neg else self.Z
            return u, v, c
        return (pos[0][0] if pos else self.Z), (neg[0][0] if neg else self.Z), c
    def _dist(self, u, v):
        """least w with u - v <= w derivable (None = unbounded)"""
        if u == v: return 0
        ed = {}
        for (a, b), w in self.bounds.items():
            ed.setdefault(a, []).append((b, w))
        nodes = {u, v, self.Z}
        for (a, b) in self.bounds: nodes.add(a); nodes.add(b)
        for n in nodes:
            if n != self.Z: ed.setdefault(self.Z, []).append((n, 0))     # 0 - n <= 0
        best = {u: 0}; q = [u]; it = 0
        while q:
            it += 1
            if it > 4000: return None
            x = q.pop(0)
            for y, w in ed.get(x, ()):
                d = best[x] + w
                if y not in best or d < best[y]:
                    best[y] = d; q.append(y)
        return best.get(v)
    def _nodes(self): return {x for k in self.bounds for x in k}
    def _bound(self, u, v, w):
        """assume u - v <= w"""
        if u == v:
            if w < 0: raise Infeasible()
            return
        d = self._dist(v, u)
        if d is not None and d + w < 0: raise Infeasible()
        o = self.bounds.get((u, v))
        if o is None or w < o: self.bounds[(u, v)] = w

    # queries -------------------------------------------------------------------------
    def lookup(self, at):
        """truth value of an atom if known, else None (atom in normal form)"""
        o = at[0]
        if o == 'b': return at[1]
        if o == 'not':
            v = self.lookup(self.norm(at[1])); return None if v is None else not v
        if o == 'eq':
            a, b = at[1], at[2]
            if a == b: return True
            if a[0] in ('int', 'str', 'b') and b[0] in ('int', 'str', 'b'): return False
            if at in self.atoms: return self.atoms[at]
            z = self.atoms.get(('eq', b, a))
            if z is not None: return z
            if a[0] == 'adt' or b[0] == 'adt' or a[0] == 'tup' or b[0] == 'tup': return None
            u, v, c = self._diff(a, b)
            if u == v: return c == 0
            d1 = self._dist(u, v); d2 = self._dist(v, u)
            if d1 is not None and d1 + c < 0: return False
            if d2 is not None and d2 - c < 0: return False
            if d1 is not None and d2 is not None and d1 + c == 0 and d2 - c == 0: return True
            if self.dom is not None: return self.dom.lookup(at, self)
            return None
        if o == 'lt':
            a, b = at[1], at[2]
            u, v, c = self._diff(a, b)      # a<b  <=>  u - v <= -c-1
            d = self._dist(u, v)
            if d is not None and d <= -c - 1: return True
            d2 = self._dist(v, u)           # not(a<b) <=> v - u <= c
            if d2 is not None and d2 <= c: return False
            ne = self.lookup(('eq', a, b)) if a != b else True
            if ne is False:
                if d is not None and d <= -c: return True
            return None
        if at in self.atoms: return self.atoms[at]
        if o == 'isv':
            t, v = at[1], at[2]
            if t[0] == 'adt': return t[2] == v
            for k, val in self.atoms.items():
                if k[0] == 'isv' and k[1] == t and val and k[2] != v: return False
        if self.dom is not None: return self.dom.lookup(at, self)
        return None

    PRIO = {'int': 0, 'str': 0, 'adt': 0, 'tup': 0, 'b': 0}
    def _prio(self, t):
        # smaller = better representative
        if t[0] in self.PRIO: return (0, repr(t))
        if t[0] == 'sym':
            n = t[1]
            if n.startswith('cap%'): return (5, len(n), n)
            return (1 if not n.startswith(('x%', 'p?')) else 3 if n.startswith('p?') else 4, len(n), n)
        return (2, len(repr(t)), repr(t))

    def union(self, a, b):
        if a == b: return
        if self._prio(b) < self._prio(a): a, b = b, a      # keep a, replace b
        if a[0] in self.PRIO and b[0] in self.PRIO:
            raise Infeasible()
        if b[0] == 'lin' or (a[0] == 'lin' and contains(a, lambda t: t == b)):
            # solve for some plain symbol with coefficient +-1
            c, d = lin_parts(sub(a, b))
            for t, k in sorted(d.items(), key=lambda x: self._prio(x[0]), reverse=True):
                if k in (1, -1):
                    rest = mk_lin(c, {x: y for x, y in d.items() if x != t})
                    val = mul(rest, I(-k))
                    if not contains(val, lambda z: z == t):
                        self._bind(t, val); return
            return
        if contains(a, lambda t: t == b):
            a, b = b, a
            if contains(a, lambda t: t == b): return
        self._bind(b, a)

    def _bind(self, t, val):
        self.rep[t] = val; self._n = {}
        old = self.atoms; self.atoms = {}
        ob = self.bounds; self.bounds = {}
        for k, v in old.items():
            self._put(self.norm(k), v)
        for (u, v), w in ob.items():
            u2 = u if u == self.Z else self.norm(u); v2 = v if v == self.Z else self.norm(v)
            x, y, c = self._diff(I(0) if u2 == self.Z else u2, I(0) if v2 == self.Z else v2)
            self._bound(x, y, w - c)
        # congruence: a replaced term inside an earlier replaced term
        for k in list(self.rep):
            if k == t or not isinstance(k[0], str) or k[0] in ('sym', 'lin', 'clo', 'fn') or not contains(k, lambda z: z == t): continue
            k2 = tuple(self.norm(x) if isinstance(x, tuple) else x for x in k)
            if k2 == k: continue
            a, b = self.norm(k2), self.norm(k)
            if a != b: self.union(a, b)

    def _put(self, at, v):
        if at[0] == 'eq':
            if at[1] == at[2]:
                if not v: raise Infeasible()
                return
            x = self.lookup(at)
            if x is not None:
                if x != v: raise Infeasible()
                if at[0] == 'eq' and v: self.union(at[1], at[2])
                return
            if v: self.union(at[1], at[2]); return
            self.atoms[at] = False
            return
        x = self.lookup(at)
        if x is not None:
            if x != v: raise Infeasible()
            if at[0] in ('b', 'lt'): return
        self.atoms[at] = v
        if at[0] == 'isv': self._n = {}

    def assume(self, at, v, where=None):
        at = self.norm(at)
        if at[0] == 'not': at, v = self.norm(at[1]), not v
        x = self.lookup(at)
        if x is not None and x != v: raise Infeasible()
        self.log.append((at, v, where))
        if at[0] == 'b': return
        if at[0] == 'lt':
            a, b = at[1], at[2]
            u, w, c = self._diff(a, b)
            if v:
                self._bound(u, w, -c - 1)
                if u != w:
                    d1, d2 = self._dist(u, w), self._dist(w, u)
                    if d1 is not None and d2 is not None and d1 + d2 == 0:
                        x = self.norm(I(0) if u == self.Z else u); y = self.norm(add(I(0) if w == self.Z else w, I(d1)))
                        if x != y: self.union(x, y)
            else: self._bound(w, u, c)
            # a<=b and b<=a
            if not v:
                if self.atoms.get(('eq', a, b)) is False or self.atoms.get(('eq', b, a)) is False: self._bound(w, u, c - 1)
                d = self._dist(u, w)
                if d is not None and d <= -c and a[0] != 'adt': self.union(a, b)
        else:
            self._put(at, v)
            if at[0] == 'eq' and not v and at[1][0] not in ('adt', 'tup', 'str', 'b') and at[2][0] not in ('adt', 'tup', 'str', 'b'):
                u, w, c = self._diff(at[1], at[2])           # u - w + c != 0: tighten bounds that touch
                if u != w and (u in self._nodes() or w in self._nodes() or self.Z in (u, w)):
                    d = self._dist(u, w)
                    if d is not None and d == -c: self._bound(u, w, -c - 1)
                    d = self._dist(w, u)
                    if d is not None and d == c: self._bound(w, u, c - 1)
        if self.dom is not None:
            for at2, v2 in self.dom.consequences(at, v, self): 
                if self.lookup(self.norm(at2)) is not v2: self.assume(at2, v2, 'axiom')
