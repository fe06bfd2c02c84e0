"""C30: run-time borrow state of RefCells.  A forward dataflow over the compiled control-flow graph of every function keeps
the set of borrow guards (Ref / RefMut) that may be alive; every call is charged with the borrows it may take, directly or
through the crate functions and closures it reaches.  A mutable borrow while any guard on the same cell may be alive, or a
shared borrow while a mutable guard may be alive, is a violation."""
from terms import *
from world import *
import json

def subject(W): return W

CELL, REF, REFMUT = 'core::cell::RefCell', 'core::cell::Ref', 'core::cell::RefMut'
READS = {'borrow'}; WRITES = {'borrow_mut', 'replace', 'replace_with', 'swap', 'take'}
FREE = {'new', 'into_inner', 'get_mut', 'as_ptr', 'try_borrow', 'try_borrow_mut', 'try_borrow_unguarded', 'from_mut', 'default', 'from'}
FORGET = {'core::mem::forget', 'core::mem::manually_drop::ManuallyDrop::new'}

def has_ty(t, pred):
    if not isinstance(t, tuple): return False
    if t and isinstance(t[0], str) and pred(t): return True
    return any(has_ty(x, pred) for x in t if isinstance(x, tuple))
def is_guard(t): return has_ty(t, lambda x: x[0] == 'adt' and x[1] in (REF, REFMUT))

class Fn:
    def __init__(self, A, uid):
        self.A = A; self.uid = uid; self.b = A.F.bodies[uid]
        self.eff = set()           # (cell, 'r'/'w', root)   root: ('arg', i) | ('local', uid, n) | None
        self.ret = set()           # guards handed out: (cell, kind, root)
        self.ty = [A.F.ty(t) for t in self.b['locals']]
        self.trace()

    # where does a local's value come from: (root, path type steps)
    def trace(self):
        self.src = {}
        for blk in self.b['bbs']:
            if blk is None: continue
            for s in blk[0]:
                if s[0] != '=' or len(s[1]) != 1: continue
                r = s[2]; l = s[1][0]
                if r[0] == 'ref' : self.src.setdefault(l, []).append(r[2])
                elif r[0] == 'use' and r[1][0] in 'cm': self.src.setdefault(l, []).append(r[1][1])
                elif r[0] == 'cast' and r[2][0] in 'cm': self.src.setdefault(l, []).append(r[2][1])
                elif r[0] == 'agg': self.src.setdefault(l, []).append(None)
            t = blk[1]
            if t[0] == 'call' and len(t[3]) == 1:
                # a method that hands back (part of) what its argument refers to
                f = self.A.callee(t)
                if f and f[0].split('::')[-1] in ('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'clone') and t[2] and t[2][0][0] in 'cm' and not is_guard(self.ty[t[3][0]]):
                    self.src.setdefault(t[3][0], []).append(t[2][0][1])
                else: self.src.setdefault(t[3][0], []).append(None)
    def root(self, pl, depth=0):
        """(root, last field step) of a place"""
        l = pl[0]; flds = [e[1] for e in pl[1:] if isinstance(e, list) and e[0] == 'f']
        if 1 <= l <= self.b['args']: return ('arg', l - 1), flds
        ds = self.src.get(l, [])
        if len(ds) == 1 and ds[0] is not None and depth < 20:
            r, f = self.root(ds[0], depth + 1)
            return r, f + flds
        return ('local', self.uid, l), flds
    def plty(self, p):
        t = self.ty[p[0]]
        for e in p[1:]:
            if e == '*': t = t[2] if t[0] in ('ref', 'ptr') else (t[2][0] if t[0] == 'adt' and t[2] else t)
            elif e[0] == 'f': t = self.A.F.ty(e[2])
        return t

class Analysis:
    def __init__(self, W, R):
        self.W = W; self.F = W.F; self.R = R
        self.fns = {u: Fn(self, u) for u in self.F.bodies}
        # closures: effects are those of the body with the environment mapped to the captured places
        self.calls = 0
        for rnd in range(30):
            ch = False
            for f in self.fns.values():
                n = (len(f.eff), len(f.ret)); self.flow(f, None)
                ch |= n != (len(f.eff), len(f.ret))
            if not ch: break

    def callee(self, t):
        """(canon name, uid or None, type arguments) of a call terminator"""
        if t[1][0] != 'k': return None
        ft = self.F.ty(t[1][1]['t'])
        if ft[0] != 'fndef': return None
        u = t[6][0] if t[6] else ft[1]
        return self.F.cn(ft[1]), (u if u in self.F.bodies else ft[1] if ft[1] in self.F.bodies else None), ft

    def targets(self, t):
        """crate functions a call may reach"""
        c = self.callee(t)
        if c is None: return []
        if c[1]: return [c[1]]
        ft = c[2]
        out = []
        d = self.F.defs.get(ft[1], {})
        for tr, ims in self.F.by_trait.items():
            if not self.F.cn(ft[1]).startswith(tr + '::') and not ft[1].startswith(tr + '::'): continue
            self_t = ft[2][0] if ft[2] else None
            for im in ims:
                if self_t is not None and self_t[0] == 'adt' and head_of(self.F.ty(im['self'])) not in (self_t[1], 'param'): continue
                for nm, iu, _ in im['items']:
                    if nm == ft[1].split('::')[-1] and iu in self.F.bodies: out.append(iu)
        return out

    def cell_effect(self, f, t):
        """the call is an operation of RefCell itself: (cell, kind, root) list or None"""
        c = self.callee(t)
        if c is None: return None
        nm = c[0].split('::')[-1]
        args = [a for a in t[2] if a[0] in 'cm']
        tys = [f.plty(a[1]) for a in args]
        out = []; hit = False
        for a, ty in zip(args, tys):
            x = ty
            n = 0
            while x[0] == 'ref': x = x[2]; n += 1
            if x[0] != 'adt' or x[1] != CELL or n == 0: continue
            hit = True
            if nm in FREE: continue
            kind = 'w' if nm in WRITES and 'RefCell' in c[0] else 'r'
            r, fl = f.root(a[1])
            out.append((self.cellname(f, a[1], x), kind, r))
        return out if hit else None
    def cellname(self, f, pl, ty):
        r, fl = f.root(pl)
        base = f.ty[r[1] + 1] if r[0] == 'arg' else f.ty[r[2]]
        while base[0] == 'ref': base = base[2]
        return ('%s.%s' % (head_of(base), '.'.join(map(str, fl)))) if fl else 'cell'

    def mapped(self, f, effs, argpl):
        out = set()
        for cell, kind, root in effs:
            r = root
            if root and root[0] == 'arg':
                i = root[1]
                r = f.root(argpl[i])[0] if i < len(argpl) and argpl[i] is not None else None
                if cell == 'cell' and i < len(argpl) and argpl[i] is not None: cell = self.cellname(f, argpl[i], None)
            elif root and root[0] == 'local': r = root
            out.add((cell, kind, r))
        return out

    def effects(self, f, t, carry):
        """(effects of the call, guards its result holds)"""
        argpl = [a[1] if a[0] in 'cm' else None for a in t[2]]
        eff, ret = set(), set()
        ce = self.cell_effect(f, t)
        if ce is not None:
            eff |= set(ce); ret |= set(ce)
        for u in self.targets(t):
            g = self.fns[u]
            eff |= self.mapped(f, g.eff, argpl); ret |= self.mapped(f, g.ret, argpl)
        for p in argpl:
            if p is None: continue
            eff |= carry.get(p[0], set())
            r = f.root(p)[0]
            if r[0] == 'local': eff |= carry.get(r[2], set())
        return eff, ret

    def carries(self, f):
        """locals that hold closures (or iterators over closures) with borrow effects"""
        carry = {}
        for _ in range(6):
            n = sum(map(len, carry.values()))
            for blk in f.b['bbs']:
                if blk is None: continue
                for s in blk[0]:
                    if s[0] != '=': continue
                    r = s[2]; l = s[1][0]; add_ = set()
                    if r[0] == 'agg':
                        for o in r[2]:
                            if o[0] in 'cm': add_ |= carry.get(o[1][0], set())
                        if r[1][0] in ('closure', 'clo') and r[1][1] in self.fns:
                            caps = r[2]
                            for cell, kind, root in self.fns[r[1][1]].eff: 
                                # the environment is argument 0: its captured places
                                rr = root
                                if root and root[0] == 'arg' and root[1] == 0:
                                    rs = {f.root(o[1])[0] for o in caps if o[0] in 'cm'}
                                    for x in rs: add_.add((cell if not cell.startswith('None') else 'cell', kind, x))
                                    continue
                                add_.add((cell, kind, rr))
                    elif r[0] == 'ref': add_ |= carry.get(r[2][0], set())
                    elif r[0] == 'use' and r[1][0] in 'cm': add_ |= carry.get(r[1][1][0], set())
                    elif r[0] == 'cast' and r[2][0] in 'cm': add_ |= carry.get(r[2][1][0], set())
                    if add_: carry.setdefault(l, set()).update(add_)
                t = blk[1]
                if t[0] == 'call':
                    rt = f.ty[t[3][0]]
                    if has_ty(rt, lambda x: x[0] == 'closure') :
                        for o in t[2]:
                            if o[0] in 'cm' and carry.get(o[1][0]): carry.setdefault(t[3][0], set()).update(carry[o[1][0]])
            if n == sum(map(len, carry.values())): break
        return carry

    def flow(self, f, report):
        """one pass over the control-flow graph; state = frozenset of (local, cell, kind, root)"""
        b = f.b; carry = self.carries(f)
        ins = {0: frozenset()}; work = [0]; seen = {}
        while work:
            i = work.pop()
            st = set(ins[i])
            blk = b['bbs'][i]
            if blk is None: continue
            for s in blk[0]:
                if s[0] == '=':
                    r = s[2]; dst = s[1][0]
                    ops = []
                    if r[0] == 'use': ops = [r[1]]
                    elif r[0] == 'agg': ops = r[2]
                    elif r[0] == 'cast': ops = [r[2]]
                    for o in ops:
                        if o[0] == 'm':
                            for g in [g for g in st if g[0] == o[1][0]]:
                                if is_guard(f.plty(o[1])):
                                    st.discard(g); st.add((dst,) + g[1:])
                elif s[0] == 'dead':
                    st = {g for g in st if g[0] != s[1]}
            t = blk[1]; k = t[0]; nxt = []
            if k == 'goto': nxt = [t[1]]
            elif k == 'switch': nxt = [x for _, x in t[2]] + [t[3]]
            elif k == 'drop':
                if len(t[1]) == 1: st = {g for g in st if g[0] != t[1][0]}
                nxt = [t[2]]
            elif k == 'assert': nxt = [t[4]]
            elif k == 'ret':
                for g in st:
                    if g[0] == 0: f.ret.add(g[1:])
            elif k == 'call':
                eff, ret = self.effects(f, t, carry)
                if report is not None and eff: report(f, t, st, eff)
                f.eff |= {e for e in eff}
                moved = [a[1][0] for a in t[2] if a[0] == 'm' and len(a[1]) == 1]
                c = self.callee(t)
                held = {g for g in st if g[0] in moved}
                if not (c and c[0] in FORGET): st -= held
                dst = t[3][0]
                if is_guard(f.ty[dst]):
                    for g in held: st.add((dst,) + g[1:])
                    if self.callee(t) and any(h in (self.callee(t)[0]) for h in ('::borrow', '::borrow_mut')) or self.targets(t) :
                        for e in ret: st.add((dst,) + e)
                if t[4] is not None: nxt = [t[4]]
            for n in nxt:
                if n is None: continue
                new = ins.get(n, frozenset()) | frozenset(st)
                if n not in ins or new != ins[n]:
                    ins[n] = new; work.append(n)
        return ins

def alias(A, f, a, b):
    if a is None or b is None: return None
    if a == b: return True
    if a[0] == 'arg' and b[0] == 'arg':
        ta, tb = f.ty[a[1] + 1], f.ty[b[1] + 1]
        sh = lambda t: t[0] == 'ref' and not t[1]
        if sh(ta) and sh(tb) and head_of(ta[2]) == head_of(tb[2]): return True     # may be the same object
    return False

def c30(R, W):
    F = W.F
    A = Analysis(W, R)
    fields = [(u, i) for u, a in F.adts.items() for v in a['variants'] for i, x in enumerate(v['f'])
              if u.startswith('rust_graph') and has_ty(F.ty(x['t']), lambda t: t[0] == 'adt' and t[1] == CELL)]
    n = 0
    for f in A.fns.values():
        sites = {}
        def report(f, t, st, eff):
            key = (t[7][0], t[7][1]) if t[7] else ('', 0)
            for cell, kind, root in eff:
                for g, gc, gk, groot in st:
                    if gc != cell: continue
                    if kind == 'r' and gk == 'r': continue
                    al = alias(A, f, root, groot)
                    if al is False: continue
                    sites.setdefault(id(t), (t, []))[1].append((kind, gk, g, al))
                sites.setdefault(id(t), (t, []))
        A.flow(f, report)
        for t, bad in sites.values():
            n += 1
            c = A.callee(t)
            what = '%s:%s' % (t[7][0], t[7][1]) if t[7] else ''
            name = (c[0] if c else 'closure').split('::')[-1]
            R.sites.add((f.uid, what, name)); R.functions.add(R.cn(f.uid))
            ob = 'borrow at call of %s in %s' % (name, F.name(f.uid))
            sure = [x for x in bad if x[3]]
            if sure:
                kind, gk, g, _ = sure[0]
                R.bad(ob + '/conflict', R.cn(f.uid), 'the call may borrow the table %s while the %s borrow held in _%d is still alive' % ({'r': 'for reading', 'w': 'mutably'}[kind], {'r': 'shared', 'w': 'mutable'}[gk], g), what)
            elif bad: R.und(ob, R.cn(f.uid), 'cannot tell whether the two borrows concern the same object', what)
            else: R.ok(ob, R.cn(f.uid), 'no conflicting guard may be alive', what)
    if not n: R.und('borrows', None, 'no RefCell borrow found (%d cell fields)' % len(fields))
