"""Obligations of one property: collected, decided, reported."""
import json, os, signal, time
from terms import *
from core import Ctx

OPAQUE = {'lv', 'lvmid', 'lvout', 'kept', 'posof', 'strcoll', 'hint', 'konst', 'aggmax', 'aggmin', 'agglast', 'aggsum',
          'exists', 'seqeq', 'counter', 'kitem', 'fmt', 'early-exit', 'opq'}
def opaque(t): return contains(t, lambda x: x[0] in OPAQUE or x[0] in ('ccount', 'csum', 'mbulk', 'sbulk', 'mcoll', 'scoll', 'vcoll', 'vext'))
def opaque0(t): return contains(t, lambda x: x[0] in OPAQUE)

class Report:
    def __init__(self, prop, W):
        self.prop = prop; self.W = W; self.F = W.F if W else None
        self.obs = []          # decided obligations
        self.functions = set(); self.sites = set(); self.paths = 0
        self.t0 = time.time()
        self.notes = []

    # time: an obligation that takes too long is left undecided, and so is the rest when the check's own time is up
    deadline = None; per_obligation = 200
    def arm(self, on=True):
        if self.deadline is None: return
        left = self.deadline - time.time()
        if left <= 0: raise TimeUp()
        signal.setitimer(signal.ITIMER_REAL, min(left, self.per_obligation) if on else left)
    def limit(self, secs):
        def h(*a): raise TimeUp()
        signal.signal(signal.SIGALRM, h)
        self.deadline = time.time() + secs; self.arm(False)
    def unlimit(self):
        signal.setitimer(signal.ITIMER_REAL, 0); self.deadline = None

    def cn(self, uid): return self.F.cn(uid) if uid in self.F.defs else str(uid)

    def add(self, ob, fn, status, detail='', where='', path=None):
        self.obs.append({'obligation': ob, 'function': fn, 'status': status, 'detail': detail, 'where': where, 'path': path or []})

    def ok(self, ob, fn, detail='', where=''): self.add(ob, fn, 'discharged', detail, where)
    def bad(self, ob, fn, detail, where='', path=None): self.add(ob, fn, 'violated', detail, where, path)
    def und(self, ob, fn, why, where=''): self.add(ob, fn, 'undecided', why, where)

    def spanof(self, uid):
        b = self.F.bodies.get(uid)
        return '%s:%s' % (b['span'][0], b['span'][1]) if b else ''

    def run(self, ob, fn, c, thunk, nopanic=True, panic_ob=None, allow_panic=None):
        """decide one obligation over all abstract paths of thunk.  thunk raises Fail when it is broken."""
        name = self.cn(fn) if fn else '-'
        where = self.spanof(fn) if fn else ''
        self.arm()
        try:
            outs = c.explore(thunk)
        except Undecided as u:
            outs = [(u, c.snap())]
        if self.deadline: signal.setitimer(signal.ITIMER_REAL, 0)
        self.functions |= {self.cn(u) for u in c.visited}
        self.sites |= c.sites
        self.paths += len(outs)
        bad = {}; und = {}; n = 0
        for v, s in outs:
            path = [(show(a), b, str(w)) for a, b, w in s[1].log if w != 'axiom'][:60]
            if isinstance(v, Fail):
                if any(a[0] != 'early-exit' and opaque0(a) for a, b, w in s[1].log):
                    und.setdefault('path depends on an unsummarised value (%s)' % v.ob, path); self.dbg = (v.detail, path); continue
                bad.setdefault(v.ob, (v.detail, v.where or where, path))
            elif isinstance(v, Panic):
                if allow_panic is not None and allow_panic(v, s): n += 1; continue
                if nopanic:
                    if any(a[0] != 'early-exit' and opaque0(a) for a, b, w in s[1].log):
                        und.setdefault('panic on a path that depends on an unsummarised value', path); continue
                    bad.setdefault(panic_ob or 'no-panic', ('may panic: %s' % v.why, '%s:%s' % v.span if v.span else where, path))
                else: n += 1
            elif isinstance(v, Undecided):
                und.setdefault(v.why, path)
            else: n += 1
        for o, (d, w, p) in bad.items():
            self.bad(ob + '/' + o if o != ob else ob, name, d, w, p)
        for why in list(und)[:3]: self.und(ob, name, why, where)
        if not bad and not und:
            self.ok(ob, name, '%d abstract paths' % n, where)
        self.arm(False)
        return outs

def fail(ob, detail): raise Fail(ob, detail)

def need(c, cond, ob, detail):
    if not cond: raise Fail(ob, detail if isinstance(detail, str) else detail())

def need_eq(c, got, want, ob, what):
    """the two values are equal on this path"""
    g, w = c.deep(got), c.deep(want)
    if g == w: return
    if opaque(g) or opaque(w):
        import counts
        d = counts.equal(c, g, w)
        if d is True: return
        if d is None: raise Undecided('%s: cannot compare %s with %s' % (ob, show(g)[:160], show(w)[:160]))
        raise Fail(ob, '%s: %s instead of %s' % (what, show(g)[:200], show(w)[:200]))
    if not c.eq(g, w):
        raise Fail(ob, '%s: %s instead of %s' % (what, show(g)[:200], show(w)[:200]))
