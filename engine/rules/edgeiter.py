"""C11: the cursor machine behind edge_indices() of the compact representation.
Every loop header is a cut point with an arbitrary cursor; each loop-free segment between cut points is analysed on its own:
it may move the cursor only over positions that hold no edge to list, it may yield only the position it stops at, moving just past it,
it may end only when no position is left, every round trip of a loop moves the cursor forward, and no access is out of range."""
from terms import *
from world import *
from report import *
from subjects import *
from rules.views import each, subjects, subject
from core import Frame, loops_of
import core
import models

X, Y = ('sym', 'p?'), ('sym', 'q?')

class IterDom(StaticDom):
    """adds: a row is strictly sorted, so being smaller than K and lying before K's lower bound is the same"""
    def simp(self, t, fs):
        if t[0] == 'lt' and t[1][0] == 'vget' and t[1][1][0] == 'row':
            r, j = t[1][1], t[1][2]
            return ('lt', j, ('lb', r, t[2]))
        if t[0] == 'pos' and t[1][0] == 'row': return ('lb',) + t[1:]
        if t[0] == 'in' and t[1][0] == 'row':                      # a neighbour of a row is found at its lower bound
            pass
        return StaticDom.simp(self, t, fs)
    def order(self, a, b, fs):
        r = StaticDom.order(self, a, b, fs)
        if r is not None: return r
        if b[0] == 'lb' and a == fs.norm(('len', b[1])): return False
        if b[0] == 'vget' and b[1][0] == 'row':
            # K < row[j] is false for j before K's lower bound
            if fs.lookup(fs.norm(('lt', b[2], ('lb', b[1], a)))) is True: return False
        return None
    def lookup(self, at, fs):
        if at[0] == 'eq':
            for a, b in ((at[1], at[2]), (at[2], at[1])):
                if a[0] == 'vget' and a[1][0] == 'row':
                    lt = fs.lookup(fs.norm(('lt', a[2], ('lb', a[1], b))))
                    if lt is True: return False
                    lb = fs.norm(('lb', a[1], b))
                    if a[2] == lb:
                        e = fs.lookup(fs.norm(('in', a[1], b)))
                        if e is not None: return e
        return StaticDom.lookup(self, at, fs)
    def consequences(self, at, v, fs):
        out = StaticDom.consequences(self, at, v, fs)
        if at[0] == 'lt' and not v and at[1][0] == 'vget': pass
        return out

class SegEnd(Exception): pass

def cursor_fields(W):
    a = W.F.adts[W.adt('StaticEdgeIndexIter')]
    ints = [i for i, f in enumerate(a['variants'][0]['f']) if head_of(W.F.ty(f['t'])) == 'int']
    if len(ints) != 2: raise Missing('cursor fields of the edge iterator')
    nodey = [i for i in ints if 'node' in a['variants'][0]['f'][i]['n'] and 'nei' not in a['variants'][0]['f'][i]['n']]
    if len(nodey) == 1: ints.sort(key=lambda i: i != nodey[0])
    return ints

def iter_value(c, v, uid):
    """the cursor value inside the wrappers an edge_indices() call returns"""
    for _ in range(8):
        v = c.norm(v)
        if v[0] == 'adt' and v[1] == uid: return v
        if v[0] in ('ref', 'rv'): v = c.strip(v); continue
        if v[0] == 'adt' and len(v[3]) == 1: v = v[3][0]; continue
        break
    raise Undecided('edge_indices() is not the cursor iterator')

def c11(R, W):
    F = W.F
    it = W.adt('StaticEdgeIndexIter')
    NF, IF = cursor_fields(W)
    nu, nenv = W.method(W.selfof('core::iter::traits::iterator::Iterator', it), 'core::iter::traits::iterator::Iterator', 'next')
    for S in subjects(W, ('mem', 'mmap')):
        for cfg in S.configs():
            uid = S.uid_of('GraphTrait', 'edge_indices', cfg[1])
            c = mkctx(S, cfg)
            def start(c=c, S=S):
                l = S.new(c)
                v = iter_value(c, S.call(c, 'GraphTrait', 'edge_indices', l, []), it)
                need_eq(c, v[3][NF], I(0), 'start', 'first node of the iteration'); need_eq(c, v[3][IF], I(0), 'start', 'first position of the iteration')
                # the arrays it walks are the out-edges of this graph
                ev = [x for i, x in enumerate(v[3]) if i not in (NF, IF)]
                offs = [x for x in ev if c.norm(x)[0] in ('ref', 'rv', 'adt')]
                if len(offs) == 1 and not c.dom.blank:
                    r = S.roles(c, walk(c, offs[0], S))
                    need(c, r['offsets'] == ('sym', 'off') and r['edges'] == ('sym', 'edg'), 'out-edges', 'edge_indices() walks other arrays than the out-edges')
            R.run('start[%s]<%s>' % (S.which, cfg[0]), uid, c, start)
            c = mkctx(S, cfg)
            R.run('step[%s]<%s>' % (S.which, cfg[0]), nu, c, lambda c=c, S=S: step(c, S, it, nu, nenv, NF, IF))
            im = next(x for x in F.by_trait[ITER] if head_of(F.ty(x['self'])) == it)
            for nm, u, _ in im['items']:
                if nm != 'size_hint' or u not in F.bodies: continue      # a boxed iterator passes on no own count()
                if not c.dom.blank: R.run('%s[%s]<%s>' % (nm, S.which, cfg[0]), u, (k := mkctx(S, cfg)), lambda k=k, S=S, u=u, nm=nm: announced(k, S, it, u, nenv, nm, NF, IF))

ITER = 'core::iter::traits::iterator::Iterator'
def announced(c, S, it, u, nenv, nm, NF, IF):
    """size_hint() of the cursor machine, with an arbitrary cursor: an answer that looks at no more than how many
    positions the arrays hold is compared with what can be left to list for that many positions"""
    l = S.new(c)
    v = iter_value(c, S.call(c, 'GraphTrait', 'edge_indices', l, []), it)
    fs = list(v[3]); fs[NF] = ('sym', 'n0'); fs[IF] = ('sym', 'i0')
    val = ('adt', it, v[2], tuple(fs))
    byref = S.W.F.ty(S.W.F.bodies[u]['locals'][1])[0] == 'ref'
    r = c.norm(c.call_uid(u, [('ref', c.alloc(val, 'it'), ()) if byref else val], nenv))
    def at(t, L):
        t = c.norm(t)
        if t[0] == 'int': return t[1]
        if t == c.norm(('len', ('sym', 'edg'))): return L
        k, parts = lin_parts(t)
        if not (len(parts) == 1 and list(parts)[0] == t): return k + sum(m * at(x, L) for x, m in parts.items())
        if t[0] in ('shr', 'div') and len(t) == 3: return at(t[1], L) >> at(t[2], L) if t[0] == 'shr' else at(t[1], L) // at(t[2], L)
        if t[0] in ('op', 'bin') and t[1] in ('Shr', 'Div'): return at(t[2], L) >> at(t[3], L) if t[1] == 'Shr' else at(t[2], L) // at(t[3], L)
        raise Undecided('%s() of the edge iterator: %s' % (nm, show(t)[:80]))
    lo, up = c.proj(r, ('f', 0)), c.proj(r, ('f', 1))
    if any(at(lo, L) for L in range(6)): raise Fail('announced', 'size_hint() promises %s edges, also when none is left' % show(lo)[:60])
    some_, x = models.opt(c, up)
    if some_:
        for L in range(6):
            need(c, at(x, L) >= L, 'announced', 'size_hint() admits at most %s edges: of a graph whose %d edges are all self-loops, %d are listed' % (show(x)[:60], L, L))
    return UNIT

def walk(c, v, S):
    for _ in range(8):
        v = c.norm(v)
        if v[0] in ('ref', 'rv'): v = c.strip(v); continue
        if v[0] == 'adt' and v[1] == S.ev: return v
        if v[0] == 'adt' and len(v[3]) == 1: v = v[3][0]; continue
        break
    raise Undecided('arrays of the edge iterator')

def mkctx(S, cfg):
    c = S.ctx(cfg)
    c.dom = c.facts.dom = IterDom(cfg[1], cfg[2] == 'blank'); c.dom.ctx = c
    def bs(c, a, ta):
        v = c.norm(c.read(models.target(c, a[0]))); x = c.strip(a[1])
        if v[0] != 'row': return NotImplemented
        lb = c.norm(('lb', v, x))
        if c.decide(('in', v, x)):
            c.assume(('lt', lb, c.norm(('len', v))), True)
            return ok(lb)
        c.assume(('lt', c.norm(('len', v)), lb), False)
        return err(lb)
    c.overrides['core::slice::binary_search'] = bs
    for k in list(models.M):
        if isinstance(k, str) and k.endswith('::binary_search'): c.overrides[k] = bs
    return c

def step(c, S, it, nu, nenv, NF, IF):
    l = S.new(c)
    v = iter_value(c, S.call(c, 'GraphTrait', 'edge_indices', l, []), it)
    n0, i0 = ('sym', 'n0'), ('sym', 'i0')
    fs = list(v[3]); fs[NF] = n0; fs[IF] = i0
    L = c.alloc(('adt', it, v[2], tuple(fs)), 'it')
    st = {'start': (n0, i0), 'k': 0, 'seen': []}
    cur = lambda: (c.norm(c.read((L, (('f', NF),)))), c.norm(c.read((L, (('f', IF),)))))
    others = [i for i in range(len(fs)) if i not in (NF, IF)]
    base = [c.norm(c.read((L, (('f', i),)))) for i in others]
    def cut(fr, bb):
        key = (fr.fid, bb)
        if key in st['seen']:
            s = segment_end(c, S, st, cur())
            if not s and st['last'] == key: raise Fail('progress', 'a round of the search loop can leave the cursor where it was: the iteration would hang')
            if not s: raise Undecided('progress across nested loops')
            raise SegEnd()
        if c.choose(2) == 0:
            segment_end(c, S, st, cur()); raise SegEnd()
        for i, b in zip(others, base):
            if c.norm(c.read((L, (('f', i),)))) != b: raise Undecided('other iterator state')
        st['k'] += 1; st['seen'].append(key); st['last'] = key
        n, i = ('sym', 'n%d' % st['k']), ('sym', 'i%d' % st['k'])
        c.write((L, (('f', NF),)), n); c.write((L, (('f', IF),)), i)
        st['start'] = (n, i)
        for j in assigned(fr, bb):
            if fr.loc(j) in c.mem: c.mem[fr.loc(j)] = ('opq', fr.fid, j, st['k'])
    c.cut = cut
    try:
        r = c.call_uid(nu, [('ref', L, ())], nenv)
    except SegEnd:
        return UNIT
    finally:
        c.cut = None
    finish(c, S, st, c.norm(r), cur())
    for i, b in zip(others, base):
        if c.norm(c.read((L, (('f', i),)))) != b: raise Undecided('other iterator state')
    return UNIT

def assigned(fr, H):
    out = set()
    for bb in fr.loops[H]:
        blk = fr.b['bbs'][bb]
        for s in blk[0]:
            if s[0] == '=':
                if '*' not in s[1][1:]: out.add(s[1][0])
                if s[2][0] in ('ref', 'raw') and s[2][1] == 'mut' and s[2][2][1:2] != ['*']: out.add(s[2][2][0])
        t = blk[1]
        if t[0] == 'call' and '*' not in t[3][1:]: out.add(t[3][0])
    return out

def adm(c, S):
    """(X, Y) is a position whose edge is to be listed"""
    if c.dom.blank or not c.lt(X, c.dom.n): return False
    row = c.norm(('row', X))
    if not c.lt(Y, c.norm(('len', row))): return False
    return c.directed or not c.lt(c.norm(('vget', row, Y)), c.norm(('idnew', X)))

def before(c, a, b):
    """lexicographic order of positions"""
    if c.eq(a[0], b[0]): return c.lt(a[1], b[1])
    return c.lt(a[0], b[0])

def passed(c, S, a, b, but=None):
    """no admissible position lies in [a, b), except `but`"""
    p = (X, Y)
    if not before(c, p, a) and (b is None or before(c, p, b)):
        if but is not None and c.eq(X, but[0]) and c.eq(Y, but[1]): return
        if adm(c, S):
            raise Fail('skips', 'the cursor moves from (%s, %s) %s over an edge that was not listed' % (show(a[0]), show(a[1]), 'to (%s, %s)' % (show(b[0])[:60], show(b[1])[:60]) if b else 'and the iteration ends'))
    elif b is not None and before(c, p, a) and not before(c, p, b) and adm(c, S):
        raise Fail('repeats', 'the cursor falls back from (%s, %s) to (%s, %s): an edge is listed again' % (show(a[0]), show(a[1]), show(b[0])[:60], show(b[1])[:60]))

def segment_end(c, S, st, cur):
    a = st['start']
    passed(c, S, a, cur)
    return before(c, a, cur)

def finish(c, S, st, r, cur):
    a = st['start']
    some_, p = models.opt(c, r)
    if not some_:
        passed(c, S, a, None)
        if before(c, (X, Y), cur) is False and adm(c, S): raise Fail('after-end', 'after the end marker the cursor still stands before an edge')
        return
    n1, i1 = cur
    p = c.norm(p)
    x, y = c.strip(c.proj(p, ('f', 0))), c.strip(c.proj(p, ('f', 1)))
    need(c, not c.dom.blank, 'yield', 'an edge from a graph without arrays')
    nx = c.norm(('idid', x))
    if c.eq(nx, n1):
        pos = (n1, c.norm(sub(i1, I(1))))
        need(c, not c.eq(i1, I(0)), 'past', 'the cursor does not move past the edge just listed')
    elif c.eq(nx, c.norm(sub(n1, I(1)))):
        need(c, c.eq(i1, I(0)), 'past', 'the cursor does not stand at the start of the next row')
        row = c.norm(('row', nx))
        pos = (nx, c.norm(sub(c.norm(('len', row)), I(1))))
    else: raise Undecided('where the cursor stands after an edge')
    row = c.norm(('row', pos[0]))
    want = c.norm(('vget', row, pos[1]))
    need(c, c.lt(pos[0], c.dom.n) and c.lt(pos[1], c.norm(('len', row))), 'yield', 'lists an edge from outside its row')
    need(c, c.eq(y, want), 'yield', lambda: 'lists %s -> %s, but the cursor passed %s' % (show(x)[:40], show(y)[:60], show(want)[:60]))
    if not c.directed: need(c, not c.lt(want, c.norm(('idnew', pos[0]))), 'orientation', 'lists an undirected edge from its larger end')
    if before(c, pos, a): raise Fail('repeats', 'lists a position before the cursor')
    passed(c, S, a, cur, pos)
