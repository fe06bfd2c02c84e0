"""Path-partitioned abstract interpretation of MIR bodies.

Nothing of the analysed crate is executed: every value is a term, every branch that the known facts
do not decide is split, and every loop is summarised from one iteration over a generic element
(no unrolling), so the result covers all inputs."""
import itertools
from terms import *
from facts import subst

class Stop(Exception): pass

import os, sys
sys.setrecursionlimit(20000)
DEV = bool(os.environ.get('MIRX_DEV'))
MAXPATHS = 4000

class Ctx:
    def __init__(self, F, dom=None):
        self.F = F
        self.dom = dom
        self.mem = {}
        self.facts = FactStore(dom)
        self.cnt = 0
        self.gens = []            # (var, where)
        self.foralls = []
        self.ops = []             # effect log (abstract operations in order)
        self.trace = []; self.pos = 0; self.pending = None
        self.stack = []           # call stack [(uid,line)]
        self.models = {}; self.pre = None
        self.overrides = {}
        self.loops = []           # loop records
        self.visited = set()      # functions analysed
        self.sites = set()        # call sites passed
        self.decisions = []       # (where, text) of this path
        self.dynty = {}
        self.depth = 0; self.recs = []
        self.budget = 400000
        self.loopctx = []
        self.loophook = None      # rule-specific loop treatment: (frame, header, outer) -> object with run()
        self.cut = None           # cut-point callback replacing loop summaries
        self.npaths = 0
        if dom is not None: dom.ctx = self

    # state ---------------------------------------------------------------------------
    snap_extra = None
    def snap(self):
        return (dict(self.mem), self.facts.copy(), self.cnt, list(self.gens), list(self.foralls), list(self.ops),
                list(self.stack), list(self.decisions), self.depth, list(self.loopctx), self.snap_extra() if self.snap_extra else None)
    def restore(self, s):
        self.mem = dict(s[0]); self.facts = s[1].copy(); self.cnt = s[2]; self.gens = list(s[3]); self.foralls = list(s[4])
        self.ops = list(s[5]); self.stack = list(s[6]); self.decisions = list(s[7]); self.depth = s[8]; self.loopctx = list(s[9])
        if s[10] is not None: self.restore_extra(s[10])

    def fresh(self, p='x%'):
        self.cnt += 1
        return ('sym', '%s%d' % (p, self.cnt))

    def alloc(self, v, hint='h'):
        self.cnt += 1
        l = '%s%d' % (hint, self.cnt)
        self.mem[l] = v
        return l

    # exploration ---------------------------------------------------------------------
    def explore(self, thunk, limit=MAXPATHS):
        """all outcomes of thunk from the current state: list of (value-or-exception, snapshot)"""
        base = self.snap()
        saved = (self.trace, self.pos, self.pending)
        outs = []; work = [[]]; mx = self.cnt
        try:
            while work:
                tr = work.pop()
                self.restore(base)
                self.trace = list(tr); self.pos = 0; self.pending = work
                try:
                    v = thunk()
                    outs.append((v, self.snap()))
                except Infeasible:
                    pass
                except Panic as p:
                    outs.append((p, self.snap()))
                except Undecided as u:
                    outs.append((u, self.snap()))
                except Fail as e:
                    outs.append((e, self.snap()))
                except RecursionError:
                    outs.append((Undecided('recursion'), self.snap()))
                except TimeUp:
                    if saved[2] is not None: raise
                    outs.append((Undecided('time limit'), self.snap())); work = []
                except Exception as e:
                    if DEV: raise
                    outs.append((Undecided('internal: %r' % (e,)), self.snap()))
                mx = max(mx, self.cnt)
                self.npaths += 1
                if len(outs) > limit: raise Undecided('too many paths')
        finally:
            self.restore(base)
            self.trace, self.pos, self.pending = saved
        self.cnt = mx
        return outs

    def choose(self, n, what=''):
        if n == 1: return 0
        if self.pending is None: raise Undecided('choice outside exploration')
        if self.pos < len(self.trace):
            c = self.trace[self.pos]
        else:
            c = 0
            for k in range(n - 1, 0, -1): self.pending.append(self.trace[:self.pos] + [k])
            self.trace.append(0)
        self.pos += 1
        return c

    def where(self):
        return '%s:%s' % (self.span()[0], self.span()[1])
    def span(self):
        for u, f, l in reversed(self.stack):
            return (f, l)
        return ('?', 0)

    def norm(self, t): return self.facts.norm(t)

    def decide(self, at):
        at = self.norm(at)
        neg = False
        while at[0] == 'not': at, neg = self.norm(at[1]), not neg
        v = self.facts.lookup(at)
        if v is None and self.dom is not None:
            v = self.dom.decide(at, self)
        if v is None:
            v = self.choose(2, at) == 0
            self.decisions.append((self.where(), at, v))
            self.facts.assume(at, v, self.where())
        return v != neg

    def assume(self, at, v=True): self.facts.assume(at, v, self.where())
    def known(self, at): 
        at = self.norm(at)
        neg = False
        while at[0] == 'not': at, neg = self.norm(at[1]), not neg
        v = self.facts.lookup(at)
        return v if v is None else v != neg

    # equality of values ---------------------------------------------------------------
    def deep(self, v):
        """value with references to memory replaced by ('rv', value)"""
        if not isinstance(v, tuple) or not v: return v
        if v[0] == 'ref': return ('rv', self.deep(self.read((v[1], v[2]))))
        if v[0] in ('adt',): return ('adt', v[1], v[2], tuple(self.deep(x) for x in v[3]))
        if v[0] in ('tup', 'arr'): return (v[0], tuple(self.deep(x) for x in v[1]))
        if v[0] == 'rv': return ('rv', self.deep(v[1]))
        if v[0] == 'rawv': return v
        return self.norm(v)

    def eq(self, a, b):
        a = self.norm(a); b = self.norm(b)
        if a == b: return True
        if a[0] in ('ref', 'rv') or b[0] in ('ref', 'rv'):
            a2, b2 = self.strip(a), self.strip(b)
            if (a2, b2) != (a, b): return self.eq(a2, b2)
        if a[0] == 'adt' or b[0] == 'adt':
            if a[0] != 'adt': a, b = b, a
            if b[0] == 'adt':
                if a[2] != b[2] or a[1] != b[1]: return False
                return all(self.eq(x, y) for x, y in zip(a[3], b[3]))
            if b[0] in ('int', 'str', 'b', 'lin'): return False
            if not self.isvar(b, a[2]): return False
            if self.single(a[1]): 
                return all(self.eq(x, self.proj(b, ('f', i))) for i, x in enumerate(a[3]))
            return all(self.eq(x, self.norm(('vf', b, a[2], i))) for i, x in enumerate(a[3]))
        if a[0] == 'tup' or b[0] == 'tup':
            if a[0] != 'tup': a, b = b, a
            return all(self.eq(x, b[1][i] if b[0] == 'tup' else self.proj(b, ('f', i))) for i, x in enumerate(a[1]))
        if a[0] == 'b' or b[0] == 'b':
            if a[0] == 'b': a, b = b, a
            return self.decide(a) == b[1]
        if a[0] == b[0] and a[0] in INJ and a[1:-1] == b[1:-1]: return self.eq(a[-1], b[-1])
        if a[0] == 'idnew' or b[0] == 'idnew':
            if a[0] != 'idnew': a, b = b, a
            if b[0] != 'lin': return self.eq(a[1], self.norm(('idid', b)))
        if repr(b) < repr(a): a, b = b, a
        r = self.decide(('eq', a, b))
        return r

    def single(self, uid):
        a = self.F.adts.get(uid)
        return a is not None and a['kind'] == 'struct'

    def isvar(self, t, v):
        t = self.norm(t)
        if t[0] == 'adt': return t[2] == v
        if t[0] == 'upd': return True
        return self.decide(('isv', t, v))

    def lt(self, a, b): return self.decide(('lt', self.norm(a), self.norm(b)))
    def le(self, a, b): return not self.lt(b, a)

    # memory ---------------------------------------------------------------------------
    def rootval(self, loc):
        if isinstance(loc, tuple) and loc[0] == 'val': return loc[1]
        if loc in self.mem: return self.mem[loc]
        raise Undecided('read of uninitialised memory %s' % (loc,))

    def read(self, pl):
        loc, path = pl
        v = self.rootval(loc)
        var = None
        for st in path:
            if st[0] == 'v': var = st[1]; continue
            v = self.proj(v, st, var); var = None
        return self.norm(v) if var is None else self.norm(v)

    def proj(self, v, st, var=None):
        v = self.norm(v)
        o = v[0]
        if st[0] == 'f':
            i = st[1]
            if o == 'adt':
                if var is not None and v[2] != var: raise Undecided('downcast mismatch')
                return v[3][i]
            if o in ('tup', 'arr'): return v[1][i]
            if o == 'clo': return v[2][i]
            if o == 'mentry': return v
            if o == 'upd' and var is None:
                for j, x in v[2]:
                    if j == i: return x
                return self.proj(v[1], st)
            if o == 'ref' or o == 'rv': 
                if var is None and i == 0: return v              # Box / Unique / NonNull layers
            if var is not None: return self.norm(('vf', v, var, i))
            return self.norm(('fld', v, i))
        m = self.models_proj.get(st[0])
        if m: return m(self, v, st)
        raise Undecided('projection %s' % (st,))
    models_proj = {}
    models_upd = {}

    def write(self, pl, val):
        loc, path = pl
        if isinstance(loc, tuple) and loc[0] == 'val': raise Undecided('write through a shared value')
        if not path:
            self.mem[loc] = val; return
        self.mem[loc] = self.upd(self.rootval(loc), path, val)

    def upd(self, v, path, val):
        if not path: return val
        st = path[0]; rest = path[1:]; var = None
        if st[0] == 'v':
            var = st[1]; st = rest[0]; rest = rest[1:]
            v = self.norm(v)
            if v[0] != 'adt':
                # symbolic enum value: rebuild as a constructor of its only field
                if self.known(('isv', v, var)):
                    n = self.nfields(v, var)
                    v = ('adt', self.enum_uid(v), var, tuple(('vf', v, var, i) for i in range(n)))
                else: raise Undecided('write into symbolic enum')
        elif v[0] not in ('adt', 'tup', 'arr', 'clo'): v = self.norm(v)
        if st[0] == 'f':
            i = st[1]
            if v[0] in ('adt', 'tup', 'arr', 'clo'):
                ix = 3 if v[0] == 'adt' else 2 if v[0] == 'clo' else 1
                fs = list(v[ix]); fs[i] = self.upd(fs[i], rest, val)
                return v[:ix] + (tuple(fs),) + v[ix + 1:]
            if v[0] == 'upd':
                d = dict(v[2]); d[i] = self.upd(self.proj(v, ('f', i)), rest, val)
                return ('upd', v[1], tuple(sorted(d.items())))
            return ('upd', v, ((i, self.upd(self.proj(v, ('f', i)), rest, val)),))
        m = self.models_upd.get(st[0])
        if m: return m(self, v, st, lambda old: self.upd(old, rest, val))
        raise Undecided('update %s' % (st,))

    def nfields(self, v, var): return 1
    def enum_uid(self, v): return OPT

    def derefpl(self, v):
        v = self.norm(v)
        if v[0] == 'ref': return (v[1], v[2])
        if v[0] == 'rv': return (('val', v[1]), ())
        if v[0] == 'adt' and len(v[3]) == 1: return self.derefpl(v[3][0])
        if v[0] in ('int', 'b', 'fn', 'clo', 'tup', 'it', 'absg'): return (('val', v), ())
        if v[0] == 'str': return (('val', v), ())
        return (('val', self.norm(('deref', v))), ())

    def strip(self, v):
        """the value behind any references"""
        n = 0
        v = self.norm(v)
        while v[0] in ('ref', 'rv') and n < 10:
            v = self.read(self.derefpl(v)); n += 1
        return v

    # bodies ---------------------------------------------------------------------------
    def call_uid(self, uid, args, env):
        """analyse a body of the crate with argument values; returns its value"""
        b = self.F.bodies.get(uid)
        if b is None: raise Undecided('no body for %s' % uid)
        rec = None
        if self.depth > 40:
            # the same call again, nothing decided and nothing changed since: it calls itself for ever
            rec = (uid, tuple(args), len(self.facts.log), len(self.ops), {l: v for l, v in self.mem.items() if not str(l).startswith('f')})
            if rec in self.recs: raise Panic('infinite recursion', self.span())
            if self.depth > 60: raise Undecided('call depth')
        self.visited.add(uid)
        self.cnt += 1
        fr = Frame(self, b, uid, env, 'f%d_' % self.cnt)
        if len(args) != b['args']:
            if b['kind'] == 'closure' or '{closure' in uid:
                # closure: env + spread tuple
                pass
            raise Undecided('arity of %s: %d != %d' % (uid, len(args), b['args']))
        for i, a in enumerate(args): self.mem[fr.loc(i + 1)] = a
        self.depth += 1
        self.stack.append((uid, b['span'][0], b['span'][1]))
        if rec: self.recs.append(rec)
        try:
            r = fr.run(0)
            assert r[0] == 'ret', r
            v = self.mem.get(fr.loc(0), UNIT)
        finally:
            self.depth -= 1
            self.stack.pop()
            if rec: self.recs.pop()
        # locals die (keep those still referenced)
        return v

    def call_closure(self, f, args):
        f = self.norm(f)
        f0 = f
        if f[0] in ('ref', 'rv'): inner = self.strip(f)
        else: inner = f
        if inner[0] == 'fn': return self.call_fn(inner, args)
        if inner[0] == 'pyclo': return inner[1](self, args)
        if inner[0] == 'clo':
            b = self.F.bodies.get(inner[1])
            if b is None: raise Undecided('closure body missing')
            t1 = self.F.ty(b['locals'][1])
            if t1[0] == 'ref':
                if f0[0] in ('ref', 'rv'):
                    a0 = f0
                    while True:
                        x = self.read(self.derefpl(a0))
                        if x[0] in ('ref', 'rv'): a0 = x
                        else: break
                else: a0 = ('ref', self.alloc(inner, 'clo'), ())
            else: a0 = inner
            env = dict(inner[3])
            if len(args) + 1 != b['args']: raise Undecided('closure arity')
            return self.call_uid(inner[1], [a0] + list(args), env)
        raise Undecided('call of unknown function value %s' % show(inner)[:80])

    def call_fn(self, fn, args, span=None):
        return self.dispatch(fn[1], fn[2], list(args), None)

    def ctor(self, uid, args):
        """tuple-struct / enum-variant constructor used as a function"""
        d = self.F.defs.get(uid, {})
        base = uid
        if base.endswith('{constructor#0}'): base = base.rsplit('::', 1)[0]
        if base in self.F.adts and self.F.adts[base]['kind'] == 'struct':
            return ('adt', base, 0, tuple(args))
        par, _, nm = base.rpartition('::')
        a = self.F.adts.get(par)
        if a and a['kind'] == 'enum':
            for i, v in enumerate(a['variants']):
                if v['n'] == nm: return ('adt', par, i, tuple(args))
        return None

    def resolve_trait(self, uid, selfty, targs):
        """(uid, env) of the crate-local implementation of a trait method for a self type"""
        d = self.F.defs[uid]
        tr = d.get('trait')
        t = selfty
        for im in self.F.by_trait.get(tr, []):
            env = {}
            if unify_ty(self.F.ty(im['self']), t, env) and all(unify_ty(x, y, env) for x, y in zip([self.F.arg(z) for z in im['targs']], [selfty] + list(targs[1:]))):
                for nm, iu, _ in im['items']:
                    if nm == d['name']: return iu, env
                # default body
                if uid in self.F.bodies:
                    g = self.F.defs[uid].get('generics', [])
                    e = {n: a for n, a in zip(g, targs)}
                    e['Self'] = selfty
                    return uid, e
        return None

    def dispatch(self, uid, targs, args, res, line=None):
        F = self.F
        d = F.defs.get(uid, {})
        cn = d.get('canon', uid)
        self.sites.add((cn,) + tuple(self.span()))
        h = self.overrides.get(cn)
        if h is not None:
            r = h(self, args, targs)
            if r is not NotImplemented: return r
        # trait method?
        if d.get('intrait'):
            st = targs[0] if targs else None
            st = self.runtime_type(st, args[0] if args else None)
            r0 = None
            if st is not None:
                r = self.resolve_trait(uid, st, (st,) + tuple(targs[1:]))
                if r is not None:
                    iu, env = r
                    c2 = F.cn(iu)
                    h = self.overrides.get(c2)
                    if h is not None:
                        x = h(self, args, targs)
                        if x is not NotImplemented: return x
                    if iu in F.bodies:
                        im = [i for i in F.by_trait[d['trait']] if any(z[1] == iu for z in i['items'])]
                        if im and im[0].get('derived') and cn in self.models:
                            h = self.models[cn]
                            return h(self, args, targs)
                        g = F.defs[iu].get('generics', [])
                        gt = F.defs[uid].get('generics', [])
                        # method generics: align by the tail
                        for n, a in zip(gt[1:], targs[1:]):
                            if n not in env and n in g: env[n] = a
                        if len(g) > 0:
                            own = [n for n in g if n not in env and n != "'"]
                            tl = [a for a in targs if a != ('lt',)][-len(own):] if own else []
                            for n, a in zip(own, tl): env.setdefault(n, a)
                        return self.call_uid(iu, args, env)
            h = self.models.get(cn)
            if h is not None: return h(self, args, targs)
            tn = d.get('trait')
            h = self.models.get(('trait', tn))
            if h is not None: return h(self, d['name'], args, targs)
            if uid in F.bodies:
                g = d.get('generics', [])
                return self.call_uid(uid, args, dict(zip(g, targs)))
            raise Undecided('unmodelled call %s on %s' % (cn, st))
        h = self.models.get(cn)
        if h is not None: return h(self, args, targs)
        if uid in F.bodies:
            g = d.get('generics', [])
            return self.call_uid(uid, args, dict(zip(g, targs)))
        c = self.ctor(uid, args)
        if c is not None: return c
        raise Undecided('unmodelled call %s' % cn)

    def runtime_type(self, st, a0):
        """self type of a method call; for trait objects the type of the value behind them"""
        n = 0
        while st is not None and n < 6:
            n += 1
            if st[0] == 'adt' and st[1].endswith('boxed::Box') and a0 is not None:
                return st
            break
        if st is not None and st[0] in ('dyn', 'param') and a0 is not None:
            v = self.norm(a0)
            k = 0
            while v[0] in ('ref',) and k < 6:
                t = self.dynty.get((v[1], v[2]))
                if t is not None: return t
                v = self.norm(self.read((v[1], v[2]))); k += 1
        return st


def bind_same(t, env):
    """a type against itself: its parameters stand for themselves"""
    if not isinstance(t, tuple): return True
    if len(t) == 2 and t[0] == 'param': return env.setdefault(t[1], t) == t
    return all(bind_same(x, env) for x in t if isinstance(x, tuple))

def unify_ty(pat, t, env):
    """match an impl's type against a type; env binds the impl's parameters"""
    if pat == t:
        if pat[0] == 'param': return env.setdefault(pat[1], t) == t
        return bind_same(pat, env)
    if pat[0] == 'param':
        if pat[1] in env: return env[pat[1]] == t or env[pat[1]][0] == 'infer'
        env[pat[1]] = t; return True
    if t[0] in ('infer',): return True
    if pat[0] != t[0]: return False
    if pat[0] in ('adt', 'closure', 'fndef'):
        return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify_ty(a, b, env) for a, b in zip(pat[2], t[2]))
    if pat[0] in ('ref', 'ptr'): return pat[1] == t[1] and unify_ty(pat[2], t[2], env)
    if pat[0] == 'slice': return unify_ty(pat[1], t[1], env)
    if pat[0] == 'tuple': return len(pat[1]) == len(t[1]) and all(unify_ty(a, b, env) for a, b in zip(pat[1], t[1]))
    if pat[0] == 'array': return unify_ty(pat[1], t[1], env)
    if pat[0] == 'dyn': return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(unify_ty(a, b, env) for a, b in zip(pat[2], t[2]))
    if pat[0] == 'lt': return True
    return pat == t


def loops_of(F, uid, b):
    """natural loops of a body: header -> set of blocks"""
    c = b.get('_loops')
    if c is not None: return c
    bbs = b['bbs']; n = len(bbs)
    succ = {i: succs(bbs[i][1]) if bbs[i] else [] for i in range(n)}
    # iterative dominators on reachable blocks
    order = []; seen = set()
    st = [(0, iter(succ[0]))]; seen.add(0)
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen and bbs[y]:
                seen.add(y); st.append((y, iter(succ[y]))); break
        else:
            order.append(x); st.pop()
    order.reverse()
    pred = {i: [] for i in order}
    for i in order:
        for y in succ[i]:
            if y in pred: pred[y].append(i)
    dom = {i: set(order) for i in order}; dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for i in order:
            if i == 0: continue
            ps = [dom[p] for p in pred[i]]
            nd = set.intersection(*ps) | {i} if ps else {i}
            if nd != dom[i]: dom[i] = nd; ch = True
    loops = {}
    for i in order:
        for y in succ[i]:
            if y in dom[i]:
                body = loops.setdefault(y, {y})
                w = [i]
                while w:
                    z = w.pop()
                    if z not in body:
                        body.add(z); w.extend(pred[z])
    b['_loops'] = loops
    return loops

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    return []


class Frame:
    def __init__(self, ctx, b, uid, env, fid):
        self.c = ctx; self.b = b; self.uid = uid; self.env = env; self.fid = fid
        self.loops = loops_of(ctx.F, uid, b)
    def loc(self, n): return self.fid + str(n)
    def ty(self, i): return subst(self.c.F.ty(i), self.env)

    # places ---------------------------------------------------------------------------
    def place(self, p):
        c = self.c
        loc, path = self.loc(p[0]), ()
        for e in p[1:]:
            if e == '*':
                v = c.read((loc, path))
                loc, path = c.derefpl(v)
            elif e[0] == 'f': path = path + (('f', e[1]),)
            elif e[0] == 'd': path = path + (('v', e[1]),)
            elif e[0] == 'i':
                ix = c.read((self.loc(e[1]), ()))
                path = path + (('ix', ix),)
            elif e[0] == 'ci' and not e[3]: path = path + (('ix', I(e[1])),)
            else: raise Undecided('place projection %s' % (e,))
        return loc, path

    def operand(self, o):
        k = o[0]
        if k in ('c', 'm'): return self.c.read(self.place(o[1]))
        if k == 'k': return self.const(o[1])
        return TRUE if False else ('b', False)

    def const(self, k):
        c = self.c
        t = subst(c.F.ty(k['t']), self.env)
        if t[0] == 'fndef': return ('fn', t[1], t[2])
        if 'promoted' in k:
            b = c.F.bodies[k['of']] if k.get('of') in c.F.bodies else self.b
            pb = b['promoted'][k['promoted']]
            c.cnt += 1
            fr = Frame(c, pb, self.uid, self.env, 'p%d_' % c.cnt)
            r = fr.run(0)
            v = c.mem.get(fr.loc(0))
            return c.deep(v) if v[0] == 'ref' else v
        if 'v' in k:
            return self.lit(k['v'], t)
        if k.get('zst'): 
            if t[0] == 'tuple': return UNIT
            if t[0] == 'closure': return ('clo', t[1], (), tuple(sorted(self.env.items(), key=repr)))
            if t[0] == 'adt': return ('adt', t[1], 0, tuple())
            return UNIT
        if 'item' in k:
            return ('kitem', k['item'])
        return ('konst', repr(t))

    def lit(self, v, t):
        if t[0] == 'bool': return ('b', bool(v))
        if t[0] in ('int', 'float', 'char'):
            if t[0] == 'int' and t[1].startswith('i') and isinstance(v, int):
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(t[1], 64)
                if v >= 1 << (bits - 1): v -= 1 << bits
            return ('int', v)
        if t[0] == 'ref': return ('rv', self.lit(v, t[2])) if t[2][0] != 'str' else ('rv', ('str', v))
        if t[0] == 'tuple': return ('tup', tuple(self.lit(x, y) for x, y in zip(v, t[1])))
        if t[0] in ('slice', 'array'): return ('arr', tuple(self.lit(x, t[1]) for x in v))
        if t[0] == 'str': return ('str', v)
        return ('konst', repr((v, t)))

    # statements -----------------------------------------------------------------------
    def rvalue(self, r, dty):
        c = self.c; k = r[0]
        if k == 'use': return self.operand(r[1])
        if k == 'ref':
            loc, path = self.place(r[2])
            if isinstance(loc, tuple) and loc[0] == 'val':
                return ('rv', c.read((loc, path)))
            return ('ref', loc, path)
        if k == 'raw':
            loc, path = self.place(r[2])
            if isinstance(loc, tuple): return ('rv', c.read((loc, path)))
            return ('ref', loc, path)
        if k == 'bin': return self.binop(r[1], self.operand(r[2]), self.operand(r[3]))
        if k == 'un':
            v = self.operand(r[2])
            if r[1] == 'Not':
                if v[0] == 'b': return B(not v[1])
                return ('not', v)
            if r[1] == 'Neg': return mul(v, I(-1))
            if r[1] == 'PtrMetadata':
                import models
                return c.norm(models.vlen(c, c.strip(v)))
            raise Undecided('unary %s' % r[1])
        if k == 'discr':
            return ('discr', c.read(self.place(r[1])))
        if k == 'agg':
            ops = tuple(self.operand(o) for o in r[2]); a = r[1]
            if a[0] == 'tuple': return ('tup', ops)
            if a[0] == 'array': return ('arr', ops)
            if a[0] == 'adt': return c.norm(('adt', a[1], a[2], ops))
            if a[0] == 'closure':
                env = self.env
                return ('clo', a[1], ops, tuple(sorted(env.items(), key=repr)))
            raise Undecided('aggregate %s' % a[0])
        if k == 'cast':
            v = self.operand(r[2]); t = self.ty(r[3])
            h = c.models.get(('cast',))
            if r[1] == 'Transmute' and v[0] in ('ref', 'rv') and t[0] == 'int': return ('addr', v)
            if h:
                st = self.opty(r[2])
                return h(c, r[1], v, st, t)
            return v
        if k == 'repeat': return ('repeat', self.operand(r[1]), r[2])
        if k == 'len': return c.norm(('len', c.read(self.place(r[1]))))
        raise Undecided('rvalue %s' % (r[0],))

    def opty(self, o):
        if o[0] == 'k': return subst(self.c.F.ty(o[1]['t']), self.env)
        if o[0] in 'cm': return self.plty(o[1])
        return ('other',)
    def plty(self, p):
        t = self.ty(self.b['locals'][p[0]])
        for e in p[1:]:
            if e == '*':
                if t[0] in ('ref', 'ptr'): t = t[2]
                elif t[0] == 'adt' and t[2]: t = t[2][0]
            elif e[0] == 'f': t = self.ty(e[2])
        return t

    def binop(self, o, a, b):
        c = self.c
        a = c.norm(a); b = c.norm(b)
        if o.startswith('Add'): v = add(a, b)
        elif o.startswith('Sub'): v = sub(a, b)
        elif o.startswith('Mul'): v = mul(a, b)
        elif o == 'BitAnd' and a[0] == 'addr': v = I(0)              # compiler-inserted alignment check of a reference
        elif o in ('Eq', 'Ne') and (a[0] == 'addr' and b == I(0) or b[0] == 'addr' and a == I(0)): return B(o == 'Ne')
        elif o in ('Eq', 'Ne'):
            r = c.eq(a, b)
            return B(r if o == 'Eq' else not r)
        elif o == 'Lt': return B(c.lt(a, b))
        elif o == 'Gt': return B(c.lt(b, a))
        elif o == 'Le': return B(not c.lt(b, a))
        elif o == 'Ge': return B(not c.lt(a, b))
        elif o in ('BitAnd', 'BitOr', 'BitXor') and (a[0] == 'b' or b[0] == 'b' or a[0] in ('not',)):
            x = c.decide(a); y = c.decide(b)
            return B(x and y if o == 'BitAnd' else x or y if o == 'BitOr' else x != y)
        elif o in ('Shr', 'Div') and a[0] == 'int' and b[0] == 'int': 
            v = I(a[1] >> b[1]) if o == 'Shr' else (I(a[1] // b[1]) if b[1] else ('op', o, a, b))
        elif o in ('Shr', 'Div') and b == I(o == 'Div'): v = a
        elif o == 'Shr' and b[0] == 'int': v = c.norm(('op', 'Div', a, I(1 << b[1]))); self.smaller(v, a)
        elif o == 'Div': v = c.norm(('op', 'Div', a, b)); self.smaller(v, a)
        elif o == 'Rem': v = c.norm(('op', 'Rem', a, b)); self.smaller(v, a)
        elif o.startswith('Shl') and b[0] == 'int': v = mul(a, I(1 << b[1]))
        elif o in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'int' and b[0] == 'int': v = I(a[1] & b[1] if o == 'BitAnd' else a[1] | b[1] if o == 'BitOr' else a[1] ^ b[1])
        elif o == 'BitAnd':
            v = ('op', o, a, b)
            for x in (a, b): c.facts.assume(('lt', x, v), False, 'axiom')
        elif o == 'Offset': v = ('op', 'Offset', a, b)
        else: v = ('op', o, a, b)
        if o.endswith('WithOverflow'):
            ov = FALSE
            if o.startswith('Sub'): ov = B(c.sub_overflow(a, b))
            return ('tup', (v, ov))
        return v

    def smaller(self, v, a):
        """a quotient or remainder is no more than the number divided"""
        if v[0] == 'op' and v[2] == a and v[3][0] == 'int' and v[3][1] > 0:
            c = self.c
            c.facts.assume(('lt', a, v), False, 'axiom')
            if v[1] == 'Rem': c.facts.assume(('lt', v, v[3]), True, 'axiom')

    # control --------------------------------------------------------------------------
    def run(self, bb, entry=None):
        """execute from block bb until return; entry = header whose loop body is being analysed"""
        c = self.c; first = True
        while True:
            if entry is not None:
                if bb == entry and not first: return ('back',)
                if bb not in self.loops[entry]: return ('exit', bb)
            if c.cut is not None and bb in self.loops: c.cut(self, bb)
            elif bb in self.loops and not (first and entry == bb):
                L = (c.loophook(self, bb, entry) if c.loophook is not None else None) or UNROLL(self, bb, entry)
                r = (L or LoopSummary(self, bb, entry)).run()
                if r[0] != 'goto': return r
                bb = r[1]; first = False
                continue
            first = False
            r = self.block(bb)
            if r[0] != 'goto': return r
            bb = r[1]

    def block(self, bb):
        c = self.c
        c.budget -= 1
        if c.budget < 0: raise Undecided('budget')
        blk = self.b['bbs'][bb]
        if blk is None: raise Undecided('cleanup block')
        stk = c.stack[-1] if c.stack else (self.uid, self.b['span'][0], 0)
        for s in blk[0]:
            if s[0] == '=':
                if c.stack: c.stack[-1] = (stk[0], stk[1], s[3])
                v = self.rvalue(s[2], None)
                c.write(self.place(s[1]), v)
            elif s[0] == 'setd':
                raise Undecided('set discriminant')
        t = blk[1]; k = t[0]
        if k == 'goto': return ('goto', t[1])
        if k == 'ret': return ('ret',)
        if k == 'unreachable': raise Infeasible()
        if k == 'switch': return ('goto', self.switch(t))
        if k == 'drop':
            h = c.models.get(('drop',))
            if h: h(c, self, t)
            return ('goto', t[2])
        if k == 'assert':
            if c.stack: c.stack[-1] = (stk[0], stk[1], t[5][1] if len(t) > 5 and t[5] else stk[2])
            if t[3] and t[3][0] == 'other': return ('goto', t[4])        # compiler-inserted pointer checks
            v = self.operand(t[1])
            r = c.decide(v)
            if r != bool(t[2]): raise Panic('assertion failed: %s' % (t[3],), c.span())
            return ('goto', t[4])
        if k == 'call':
            if c.stack: c.stack[-1] = (stk[0], stk[1], t[7][1] if t[7] else stk[2])
            f = t[1]
            args = [self.operand(a) for a in t[2]]
            if f[0] == 'k':
                ft = subst(c.F.ty(f[1]['t']), self.env)
                if ft[0] != 'fndef': raise Undecided('indirect call')
                r = c.dispatch(ft[1], ft[2], args, t[6])
            else:
                r = c.call_closure(self.operand(f), args)
            if t[4] is None: raise Panic('diverging call', c.span())
            c.write(self.place(t[3]), r)
            return ('goto', t[4])
        raise Undecided('terminator %s' % k)

    def switch(self, t):
        c = self.c
        v = c.norm(self.operand(t[1]))
        cases = t[2]; other = t[3]
        oth_dead = self.b['bbs'][other] is not None and self.b['bbs'][other][1][0] == 'unreachable' and not self.b['bbs'][other][0]
        if v[0] == 'int':
            for val, bb in cases:
                if val == v[1]: return bb
            return other
        if v[0] == 'discr':
            x = c.norm(v[1])
            if x[0] == 'adt':
                d = x[2]
                a = c.F.adts.get(x[1])
                if a and a['kind'] == 'enum' and d < len(a['variants']): d = a['variants'][d].get('d', d)
                for val, bb in cases:
                    if val == d: return bb
                return other
            if x[0] == 'mentry':
                import models
                d = x[4] if models.map_has(c, c.read((x[1], x[2])), x[3]) else 1 - x[4]
                for val, bb in cases:
                    if val == d: return bb
                return other
            if x[0] in ('upd', 'tup'): raise Undecided('discriminant of %s' % x[0])
            lst = list(cases)
            for i, (val, bb) in enumerate(lst):
                last = oth_dead and i == len(lst) - 1
                if last:
                    at = c.norm(('isv', x, val))
                    kn = c.facts.lookup(at)
                    if kn is False: raise Infeasible()
                    if kn is None: c.facts.assume(at, True, c.where())
                    return bb
                if c.decide(('isv', x, val)): return bb
            return other
        # booleans and integers
        if len(cases) == 1 and cases[0][0] == 0 and (v[0] in ('b', 'lt', 'eq', 'not', 'isv', 'in') or self.is_bool(t)):
            return other if c.decide(v) else cases[0][1]
        for val, bb in cases:
            if c.eq(v, I(val)): return bb
        return other

    def is_bool(self, t):
        ty = self.c.F.ty(t[4]) if isinstance(t[4], int) else None
        return ty is not None and ty[0] == 'bool'


UNROLL = lambda fr, H, outer: None       # set by models: loops over a few known items

class LoopSummary:
    order = 'seq'
    """Summarises a natural loop from one generic iteration."""
    def __init__(self, fr, H, outer):
        self.fr = fr; self.c = fr.c; self.H = H; self.outer = outer
        self.body = fr.loops[H]

    def diff(self, loc, path, old, new, out):
        if old == new: return
        if old[0] == new[0] and old[0] in ('adt', 'tup') :
            ix = 3 if old[0] == 'adt' else 1
            if old[:ix] == new[:ix] and len(old[ix]) == len(new[ix]):
                for i, (a, b) in enumerate(zip(old[ix], new[ix])): self.diff(loc, path + (('f', i),), a, b, out)
                return
        # a symbolic enum of a known variant that changes inside
        c = self.c
        if old[0] != 'adt' and new[0] == 'adt' and len(new) == 4 and new[2] is not None and c.known(('isv', old, new[2])):
            for i, b in enumerate(new[3]): self.diff(loc, path + (('v', new[2]), ('f', i)), c.norm(('vf', old, new[2], i)), b, out)
            return
        if new[0] == 'upd' or old[0] == 'upd':
            bo, do = (old[1], dict(old[2])) if old[0] == 'upd' else (old, {})
            bn, dn = (new[1], dict(new[2])) if new[0] == 'upd' else (new, {})
            if bo == bn:
                for i in set(do) | set(dn):
                    self.diff(loc, path + (('f', i),), do.get(i, ('fld', bo, i)), dn.get(i, ('fld', bo, i)), out)
                return
        out[(loc, path)] = (old, new)

    def run(self):
        c = self.c; fr = self.fr
        S0 = c.snap()
        locs0 = set(c.mem)
        havoc = {}            # (loc,path) -> havoc value
        for rnd in range(12):
            c.restore(S0)
            for (loc, path), hv in havoc.items(): c.write((loc, path), hv)
            start = dict(c.mem)
            nlog = len(c.facts.log); ngen = len(c.gens); nops = len(c.ops)
            outs = c.explore(lambda: fr.run(self.H, entry=self.H))
            newh = {}
            for v, s in outs:
                if isinstance(v, Undecided): raise v
                if isinstance(v, tuple) and v[0] == 'back':
                    for l in locs0:
                        o, n = start.get(l), s[0].get(l)
                        if o is not None and n is not None and o != n:
                            d = {}
                            self.diff(l, (), o, n, d)
                            for k, (a, b) in d.items():
                                newh.setdefault(k, []).append((a, b))
            # prefixes: if both a path and a sub-path are modified keep the shorter
            grew = False
            for (l, p), ch in newh.items():
                if any(l == l2 and p[:len(p2)] == p2 for (l2, p2) in havoc): continue
                grew = True
                for k in [k for k in havoc if k[0] == l and k[1][:len(p)] == p]: del havoc[k]
                c.restore(S0)
                init = c.read((l, p))
                havoc[(l, p)] = self.havoc_value(l, p, init, ch)
            if not grew: break
        else:
            raise Undecided('loop does not stabilise')
        c.restore(S0)
        backs = [(v, s) for v, s in outs if isinstance(v, tuple) and v[0] == 'back']
        exits = [(v, s) for v, s in outs if not (isinstance(v, tuple) and v[0] == 'back')]
        rec = {'fn': fr.uid, 'H': self.H, 'span': c.span(), 'havoc': havoc, 'S0': S0, 'outs': outs, 'start': start,
               'nlog': nlog, 'ngen': ngen, 'nops': nops, 'frame': fr}
        c.loops.append(rec)
        self.outcomes(outs, havoc)
        if not backs:
            # the loop body runs at most once: just take one of its outcomes
            k = c.choose(len(outs)) if len(outs) > 1 else 0
            if not outs: raise Infeasible()
            return self.resume(outs[k])
        # driver iterator
        drivers = [k for k in havoc if havoc[k][0] == 'it' or self.has_iter(havoc[k])]
        fin = {}
        iters = []
        for k in drivers:
            tot = True
            for v, s in backs:
                if self.adv(self.at(s[0], k)) <= 0: tot = False
            if tot: iters.append(k)
        simple = len(iters) >= 1
        self.order = 'seq'
        if simple and len(iters) == 1:
            try: self.order = c.models[('order',)](c, c.read(iters[0]))
            except (Undecided, KeyError): self.order = '?'
        counters = [k for k, hv in havoc.items() if hv[0] == 'lv' and backs and all(self.at(s[0], k) == add(hv, I(1)) for v, s in backs)]
        if not simple and counters:
            r = self.counted(S0, havoc, counters)
            if r is not None: return r[0]
        cpos = {}
        if simple and len(iters) == 1 and counters:
            # counters stepped along with the iterator: its position
            o2 = self.stepped(S0, havoc, counters, iters[0], cpos)
            if o2 is not None:
                backs = [(v, s) for v, s in o2 if isinstance(v, tuple) and v[0] == 'back']
                exits = [(v, s) for v, s in o2 if not (isinstance(v, tuple) and v[0] == 'back')]
            else: cpos = {}
            c.restore(S0)
        alts = []
        if simple:
            for v, s in backs:
                gens = tuple(g for g in s[3][ngen:])
                guards = tuple((a, b) for a, b, w in s[1].log[nlog:] if w != 'axiom')
                # generated elements this path identified by order facts
                if len(gens) > 1: guards += tuple((('eq', g, s[1].norm(g)), True) for g in gens if s[1].norm(g) in gens and s[1].norm(g) != g and not any(a[0] == 'eq' and b and g in a[1:] for a, b in guards))
                alts.append((gens, guards, s))
        # final values
        for k, hv in havoc.items():
            if k in drivers: continue
            if k in cpos: fin[k] = cpos[k]; continue
            init = None
            try: init = c.read(k)
            except Undecided: pass
            news = [self.at(s[0], k) for v, s in backs]
            fin[k] = self.summarise(k, init, hv, backs, news, alts, simple)
        newops = [s[5][nops:] for v, s in backs]
        # early exits (return / break inside an iteration)
        early = [(v, s) for v, s in exits if simple and self.is_early(v, s, iters, ngen)]
        early_panics = [(v, s) for v, s in early if isinstance(v, Panic)]
        nchoices = 1 + (1 if early else 0)
        if not simple:
            # no driving iterator: any state that reaches an exit
            for k, hv in havoc.items(): c.write(k, hv)
            if any(newops): c.ops.append(('loop', tuple(tuple(o) for o in newops)))
            rec['mode'] = 'while'
            ends = [x for x in exits]
            if not ends: raise Infeasible()
            k = c.choose(len(ends))
            return self.resume(ends[k])
        ch = c.choose(nchoices)
        if ch == 0:
            for k, f in fin.items(): c.write(k, f)
            for k in drivers: c.write(k, self.exhaust(havoc[k]))
            if any(newops):
                c.ops.append(('each', tuple((g, gu, tuple(s[5][nops:])) for g, gu, s in alts), self.order))
            if early or True:
                c.foralls.append({'alts': [(g, gu) for g, gu, s in alts], 'early': [(tuple(s[3][ngen:]), tuple((a, b) for a, b, w in s[1].log[nlog:] if w != 'axiom')) for v, s in early], 'where': c.where()})
                absent(c, c.foralls[-1])
            r = fr.run(self.H, entry=self.H)
            if r[0] == 'back': raise Infeasible()
            return self.cont(r)
        # early exit: state at an arbitrary iteration, then leave
        if any(newops): c.ops.append(('some', tuple((g, gu, tuple(s[5][nops:])) for g, gu, s in alts)))
        g = None
        for k, hv in havoc.items():
            if k in cpos:
                if g is None: g = c.fresh()
                c.write(k, add(hv[-1], g)); continue
            c.write(k, self.midway(k, hv, c.read(k) if k not in drivers else None))
        if g is not None: c.pre = g
        c.decisions.append((c.where(), ('early-exit',), True))
        ngen = len(c.gens)
        r = fr.run(self.H, entry=self.H)
        c.pre = None
        if r[0] == 'back': raise Infeasible()
        if not self.is_early_now(r, iters, ngen): raise Infeasible()
        # the elements of this iteration are the ones the loop stopped at, not arbitrary ones
        if len(c.gens) > ngen and not determined(c, c.gens[ngen:]): c.facts.assume(('early-exit', tuple(c.gens[ngen:])), True, c.where())
        return self.cont(r)

    def outcomes(self, outs, havoc): pass

    def counted(self, S0, havoc, counters):
        """`while i < n { ...; i += 1 }`: the counter runs over a range"""
        c = self.c; fr = self.fr
        for K in counters:
            init = havoc[K][-1]
            if havoc[K][0] != 'lv' or init[0] not in ('int', 'sym', 'lin', 'len', 'card', 'slen', 'fld', 'idid', 'vf'): continue
            c.restore(S0)
            for k, hv in havoc.items():
                if k != K: c.write(k, hv)
            nlog = len(c.facts.log); ngen = len(c.gens); nops = len(c.ops)
            def enter():
                g = c.fresh(); c.gens.append(g)
                if not c.le(init, g): raise Infeasible()
                c.write(K, g)
                return g
            def body(): enter(); return fr.run(self.H, entry=self.H)
            outs = c.explore(body)
            backs = [(v, s) for v, s in outs if isinstance(v, tuple) and v[0] == 'back']
            exits = [(v, s) for v, s in outs if not (isinstance(v, tuple) and v[0] == 'back')]
            if any(isinstance(v, Undecided) for v, s in outs) or not backs: c.restore(S0); continue
            def bounds(s):
                g = s[3][ngen]; r = set()
                for a, b, w in s[1].log[nlog:]:
                    if a[0] == 'lt' and a[1] == g and b: r.add((a[2], 0))
                    if a[0] == 'lt' and a[2] == g and not b: r.add((a[1], 1))
                return {x for x in r if not contains(x[0], lambda t: t[0] in ('lv', 'lvmid', 'lvout') or t in s[3][ngen:]) and x != (init, 1)}
            bs = set.intersection(*[bounds(s) for v, s in backs])
            if len(bs) != 1: c.restore(S0); continue
            n, incl = next(iter(bs))
            def natural(log, g): return any((a == ('lt', g, n) and not b) if not incl else (a == ('lt', n, g) and b) for a, b, w in log)
            early = [(v, s) for v, s in exits if not natural(s[1].log[nlog:], s[3][ngen])]
            if len(early) == len(exits): c.restore(S0); continue
            c.restore(S0); self.order = 'seq'
            c.loops[-1].update({'havoc': {k: hv for k, hv in havoc.items() if k != K}, 'outs': outs})
            alts = []
            for v, s in backs:
                alts.append((tuple(s[3][ngen:]), tuple((a, b) for a, b, w in s[1].log[nlog:] if w != 'axiom'), s))
            fin = {}
            for k, hv in havoc.items():
                if k == K: continue
                i0 = None
                try: i0 = c.read(k)
                except Undecided: pass
                fin[k] = self.summarise(k, i0, hv, backs, [self.at(s[0], k) for v, s in backs], alts, True)
            newops = [s[5][nops:] for v, s in backs]
            ch = c.choose(2 if early else 1)
            if ch == 0:
                for k, f in fin.items(): c.write(k, f)
                hi = c.norm(add(n, I(incl)))
                c.write(K, hi if c.lt(init, hi) else init)
                if any(newops): c.ops.append(('each', tuple((g, gu, tuple(s[5][nops:])) for g, gu, s in alts), self.order))
                c.foralls.append({'alts': [(g, gu) for g, gu, s in alts], 'early': [(tuple(s[3][ngen:]), tuple((a, b) for a, b, w in s[1].log[nlog:] if w != 'axiom')) for v, s in early], 'where': c.where()})
                absent(c, c.foralls[-1])
                r = fr.run(self.H, entry=self.H)
                if r[0] == 'back': raise Infeasible()
                return (self.cont(r),)
            if any(newops): c.ops.append(('some', tuple((g, gu, tuple(s[5][nops:])) for g, gu, s in alts)))
            for k, hv in havoc.items():
                if k != K: c.write(k, self.midway(k, hv, c.read(k)))
            c.decisions.append((c.where(), ('early-exit',), True))
            ng = len(c.gens); nl = len(c.facts.log)
            g = enter()
            r = fr.run(self.H, entry=self.H)
            if r[0] == 'back' or natural(c.facts.log[nl:], g): raise Infeasible()
            if not determined(c, c.gens[ng:]): c.facts.assume(('early-exit', tuple(c.gens[ng:])), True, c.where())
            return (self.cont(r),)
        return None

    def stepped(self, S0, havoc, counters, drv, fin):
        c = self.c; fr = self.fr
        c.restore(S0)
        it = c.norm(c.read(drv)); b = it
        while b[0] == 'it' and b[1] in ('map', 'cloned', 'copied', 'inspect'): b = b[2]
        if b[0] != 'it' or b[1] != 'base' or b[4] != 'init': return None
        if b[2] in ('vec', 'iset') and c.norm(b[3][0])[0] not in ('arr', 'vcoll', 'vpush', 'vext', 'vpushf', 'scoll', 'sadd'):
            import models
            lo = I(0); n = models.vlen(c, c.norm(b[3][0])) if b[2] == 'vec' else models.slen(c, c.norm(b[3][0]))
        elif b[2] == 'range' and b[3][1] is not None: lo = b[3][0]; n = None
        else: return None
        if b[2] == 'range' and c.norm(lo) != I(0): return None
        if n is None: n = b[3][1]
        for k, hv in havoc.items(): c.write(k, hv)
        left = []
        def body():
            g = c.fresh()
            for k in counters: c.write(k, add(havoc[k][-1], g))
            c.pre = g
            try: return fr.run(self.H, entry=self.H)
            finally:
                if c.pre is not None and not any(self.done(c.read(x)) for x in (drv,)): left.append(1)
                c.pre = None
        outs = c.explore(body)
        if left or any(isinstance(v, Undecided) for v, s in outs): return None
        for k in counters: fin[k] = c.norm(add(havoc[k][-1], n))
        return outs

    def is_early_now(self, r, iters, ngen):
        return any(not self.done(self.c.read(k)) for k in iters)
    def is_early(self, v, s, iters, ngen):
        return any(not self.done(self.at(s[0], k)) for k in iters)

    def cont(self, r):
        if r[0] == 'exit': 
            if self.outer is not None and r[1] not in self.fr.loops[self.outer]: return ('exit', r[1])
            if self.outer is not None and r[1] == self.outer: return ('back',)
            return ('goto', r[1])
        return r
    def resume(self, o):
        v, s = o
        c = self.c
        # re-establish the outcome's state on top of the current path
        c.restore_from(s)
        if isinstance(v, Exception): raise v
        return self.cont(v)

    def at(self, mem, k):
        c = self.c
        keep = c.mem; c.mem = mem
        try: return c.read(k)
        finally: c.mem = keep

    # iterators ---------------------------------------------------------------------------
    def has_iter(self, v): return v[0] == 'adt' and len(v[3]) >= 1 and any(x[0] == 'it' or self.has_iter(x) for x in v[3] if isinstance(x, tuple) and x)
    def adv(self, v):
        return 1 if contains(v, lambda t: t[0] == 'it' and t[1] == 'base' and t[4] == 'gen+') else 0
    def done(self, v):
        return contains(v, lambda t: t[0] == 'it' and t[1] in ('done',) or t[0] == 'it' and t[1] == 'base' and t[4] == 'done')
    def setmode(self, v, m):
        if not isinstance(v, tuple): return v
        if v and v[0] == 'it' and v[1] == 'base': return v[:4] + (m,) + v[5:]
        return tuple(self.setmode(x, m) if isinstance(x, tuple) else x for x in v)
    def exhaust(self, v):
        if v[0] == 'it': return ('it', 'done')
        if v[0] == 'adt': return v[:3] + (tuple(self.exhaust(x) if isinstance(x, tuple) and x and (x[0] == 'it' or self.has_iter(x)) else x for x in v[3]),)
        return v

    def havoc_value(self, l, p, init, changes):
        c = self.c
        if init[0] == 'it' or self.has_iter(init): return self.setmode(init, 'gen')
        # option wrapped iterators etc fall through
        return ('lv', len(c.loops), self.fr.uid, self.H, str(l).split('_')[-1] if isinstance(l, str) else str(l), p, init)
    def midway(self, k, hv, init):
        if hv[0] == 'lv': return ('lvmid',) + hv[1:]
        return hv

    def summarise(self, k, init, hv, backs, news, alts, simple):
        h = self.c.models.get(('summarise',))
        if h is not None:
            r = h(self.c, self, k, init, hv, news, alts, simple)
            if r is not None: return r
        return ('lvout',) + hv[1:]


def _restore_from(self, s):
    self.restore(s)
Ctx.restore_from = _restore_from
def _sub_overflow(self, a, b):
    """whether a - b may be known to underflow (only a known underflow counts)"""
    if self.known(('lt', a, b)) is True: return True
    if self.dom is not None: return self.dom.sub_overflow(a, b, self)
    return False
Ctx.sub_overflow = _sub_overflow


def absent(c, rec):
    """a completed walk over a whole collection, left as soon as an element equals X: the collection does not hold X"""
    if not rec['early']: return
    todo = []
    for gens, gu in rec['alts']:
        if len(gens) != 1 or len(gu) > 6: continue
        g = gens[0]
        for i, (a, b) in enumerate(gu):
            if a[0] != 'eq' or b or i == 0: continue
            pre = gu[:i]
            # no completed iteration found the two equal here
            if any(len(h) == 1 and same(o, h[0], pre + ((a, True),), g) for h, o in rec['alts']): continue
            own = [(x, y) for x, y in pre if contains_term(x, g)]
            if not own: continue
            eqs = [(x, y) for x, y in own if y and x[0] == 'eq' and g in x[1:]]
            if eqs:
                k = eqs[0][0]; k = k[2] if k[1] == g else k[1]
                if contains_term(k, g): continue
                was = [(replace(x, {g: k}), y) for x, y in pre]; todo.append((was, (replace(a, {g: k}), False))); continue
            for p, q in ((a[1], a[2]), (a[2], a[1])):
                if contains_term(q, g): continue
                if p == g:
                    main = [n for n, (x, y) in enumerate(pre) if y and contains_term(x, g)]
                    if not main: break
                    was = [(replace(x, {g: q}), y) for x, y in pre]
                    m = was.pop(main[0]); todo.append((was, (m[0], False))); break
                if p[0] == 'vget' and p[2] == g and p[1][0] in ('row', 'irow') and len(pre) == 1 and pre[0][1] and pre[0][0][0] == 'lt' and pre[0][0][1] == g:
                    import models
                    if c.norm(pre[0][0][2]) == c.norm(models.vlen(c, p[1])): todo.append(([], (('in', p[1], q), False)))
                    break
    for pre, (at, v) in todo:
        if not all(c.decide(x) == y for x, y in pre): continue
        k = c.known(at)
        if k is not None and k != v: raise Infeasible()
        if k is None: c.facts.assume(at, v, 'axiom')

def same(log, h, pre, g):
    return len(log) >= len(pre) and tuple((replace(x, {h: g}), y) for x, y in log[:len(pre)]) == tuple(pre)

def determined(c, gens):
    """each of these elements is known to be one given value: a search for it stops there and nowhere else"""
    return all(not any(contains_term(c.norm(g), h) for h in gens) for g in gens)

def contains_term(t, s):
    return t == s or isinstance(t, tuple) and any(contains_term(y, s) for y in t)

class Inductive(LoopSummary):
    """A loop treated by induction: one iteration from an arbitrary state.  What the loop modifies is replaced by
    fresh symbols (hv); the outcomes of one generic iteration are recorded for the rule to check, then the
    analysis goes on from the exits of that generic state."""
    def __init__(self, fr, H, outer, havoc, invariant=None):
        LoopSummary.__init__(self, fr, H, outer); self.hvf = havoc; self.inv = invariant
    def run(self):
        c = self.c; fr = self.fr
        S0 = c.snap(); locs0 = set(c.mem); havoc = {}; init = {}
        for rnd in range(12):
            c.restore(S0)
            for k, hv in havoc.items(): c.write(k, hv)
            if self.inv: self.inv(c, havoc, init)
            start = dict(c.mem)
            outs = c.explore(lambda: fr.run(self.H, entry=self.H))
            newh = {}
            for v, s in outs:
                if isinstance(v, (Undecided, Fail)): c.restore(s); raise v
                if isinstance(v, tuple) and v[0] == 'back':
                    for l in locs0:
                        o, n = start.get(l), s[0].get(l)
                        if o is not None and n is not None and o != n:
                            d = {}
                            self.diff(l, (), o, n, d)
                            for k, x in d.items(): newh[k] = x
            grew = False
            for (l, p) in newh:
                if any(l == l2 and p[:len(p2)] == p2 for (l2, p2) in havoc): continue
                grew = True
                for k in [k for k in havoc if k[0] == l and k[1][:len(p)] == p]: del havoc[k]
                c.restore(S0)
                init[(l, p)] = c.read((l, p))
                havoc[(l, p)] = self.hvf(c, l, p, init[(l, p)], len(havoc))
            if not grew: break
        else: raise Undecided('loop does not stabilise')
        c.restore(S0)
        self.havoc, self.init = havoc, {k: init[k] for k in havoc}
        self.backs = [(v, s) for v, s in outs if isinstance(v, tuple) and v[0] == 'back']
        self.exits = [(v, s) for v, s in outs if not (isinstance(v, tuple) and v[0] == 'back')]
        if not self.exits: raise Infeasible()
        return self.resume(self.exits[c.choose(len(self.exits))])
