"""C24, C25: union and difference of graphs as functions on abstract graphs."""
from terms import *
from world import *
from report import *
from absgraph import *
from core import unify_ty
import models

def subject(W): return W

X, Y = ('sym', 'p?'), ('sym', 'q?')
ADD, SUB = 'core::ops::arith::Add', 'core::ops::arith::Sub'

def forms(W, trait, fn, name):
    """every function that computes it: the free function and the operator impls: (label, uid, env, directions, by reference)"""
    F = W.F; out = []
    out.append((name, W.function(fn), {}, (True, False)))
    for im in F.by_trait.get(trait, []):
        if im['id'] not in F.impls: continue
        t = F.ty(im['self'])
        x = t
        while x[0] == 'ref' or x[0] == 'adt' and x[1].endswith('boxed::Box'): x = x[2] if x[0] == 'ref' else x[2][0]
        if head_of(x) not in (W.trait('GeneralGraph'), W.adt('TypedGraphMap')): continue
        dirs = (True, False)
        if x[0] == 'adt': dirs = tuple(d for d, m in ((True, W.Directed), (False, W.Undirected)) if m in x[2]) or dirs
        kind = ('&' if t[0] == 'ref' else 'Box ' if t[0] == 'adt' and t[1].endswith('boxed::Box') else '') + ('dyn' if x[0] == 'dyn' else 'graph')
        for nm, iu, _ in im['items']:
            if iu in F.bodies: out.append(('%s for %s' % (name, kind), iu, {}, dirs))
    return out

def graph_arg(c, uid, i, W):
    """an abstract graph passed the way the function takes it"""
    b = W.F.bodies[uid]; t = W.F.ty(b['locals'][i + 1])
    g = ('G', 'g%d' % i)
    l = 'G%d' % i
    c.mem[l] = g
    if t[0] == 'ref' or t[0] == 'adt' and t[1].endswith('boxed::Box'): return ('ref', l, ())
    return g

def result(c, r):
    g = gid(c, r)
    if g is None: raise Undecided('result graph')
    return g

def each_form(R, W, trait, fn, name, check):
    for label, uid, env, dirs in forms(W, trait, fn, name):
        for d in dirs:
            c = gctx(W, {'g0': d, 'g1': d})
            def th(c=c, uid=uid, d=d):
                args = [graph_arg(c, uid, i, W) for i in (0, 1)]
                r = c.call_uid(uid, args, dict(env))
                g = result(c, r)
                need(c, c.dom.directed[g] == d, 'direction', 'the result of two %s graphs is %s' % ((('un', '')[d]) + 'directed', (('un', '')[c.dom.directed[g]]) + 'directed'))
                return check(c, W, uid, g)
            R.run('%s<%s>' % (label, 'Directed' if d else 'Undirected'), uid, c, th)

def untouched(c, W, uid, g):
    """operands passed by reference are left alone"""
    b = W.F.bodies[uid]
    for i in (0, 1):
        t = W.F.ty(b['locals'][i + 1])
        if 'g%d' % i != g and t[0] == 'ref' and any(touches(o, 'g%d' % i) for o in c.ops): raise Fail('operands', 'changes an operand that was given by reference')

def label_of(c, got, wants, ob, what):
    if got[0] == 'opret': raise Undecided('label')
    for w in wants:
        if c.eq(got, w): return
    raise Fail(ob, '%s: label %s, which neither operand has there' % (what, show(c.norm(got))[:100]))

def c24(R, W):
    """for a generic node and a generic edge, presence and label in the result follow from the operands"""
    def check(c, W, uid, g):
        untouched(c, W, uid, g)
        which = c.choose(2, 'node or edge')
        if which == 0:
            ins = [i for i in (0, 1) if c.decide(('N', 'g%d' % i, X))]
            r = state(c, g, ('n', X))
            if not ins:
                need(c, r[0] == 'absent', 'nodes', 'the union has a node that neither operand has')
            else:
                need(c, r[0] == 'present', 'nodes', 'the union lacks a node of operand %d' % ins[0])
                label_of(c, r[1], [('nlb', 'g%d' % i, X) for i in ins], 'node-labels', 'node of operand %s' % ' and '.join(map(str, ins)))
        else:
            ins = [i for i in (0, 1) if c.decide(('E', 'g%d' % i, X, Y))]
            r = state(c, g, ('e', (X, Y)))
            if not ins: need(c, r[0] == 'absent', 'edges', 'the union has an edge that neither operand has')
            else:
                need(c, r[0] == 'present', 'edges', 'the union lacks an edge of operand %d' % ins[0])
                label_of(c, r[1], [('elb', 'g%d' % i, X, Y) for i in ins], 'edge-labels', 'edge of operand %s' % ' and '.join(map(str, ins)))
        return UNIT
    each_form(R, W, ADD, 'graph_union', 'union', check)
    clone_box(R, W)

def clone_box(R, W):
    F = W.F
    for im in F.by_trait.get('core::clone::Clone', []):
        t = F.ty(im['self'])
        if not (t[0] == 'adt' and t[1].endswith('boxed::Box') and im['id'] in F.impls and not im.get('derived')): continue
        for nm, iu, _ in im['items']:
            if nm != 'clone' or iu not in F.bodies: continue
            for d in (True, False):
                c = gctx(W, {'g0': d})
                def th(c=c, iu=iu, d=d):
                    l = c.alloc(('G', 'g0'), 'b'); bx = c.alloc(('ref', l, ()), 'b')
                    g = result(c, c.call_uid(iu, [('ref', bx, ())], {}))
                    need(c, g != 'g0' , 'copy', 'the clone is the graph itself')
                    need(c, c.dom.directed[g] == d, 'direction', 'cloning changes the direction of the graph')
                    need(c, not any(touches(o, 'g0') for o in c.ops), 'operands', 'cloning changes the graph')
                    if c.choose(2) == 0:
                        r = state(c, g, ('n', X)); p = c.decide(('N', 'g0', X))
                        need(c, (r[0] == 'present') == p, 'nodes', 'the clone %s' % ('lacks a node' if p else 'has an extra node'))
                        if p: need_eq(c, r[1], ('nlb', 'g0', X), 'node-labels', 'label of a cloned node')
                    else:
                        r = state(c, g, ('e', (X, Y))); p = c.decide(('E', 'g0', X, Y))
                        need(c, (r[0] == 'present') == p, 'edges', 'the clone %s' % ('lacks an edge' if p else 'has an extra edge'))
                        if p: need_eq(c, r[1], ('elb', 'g0', X, Y), 'edge-labels', 'label of a cloned edge')
                    return UNIT
                R.run('clone Box<dyn GeneralGraph><%s>' % ('Directed' if d else 'Undirected'), iu, c, th)

def c25(R, W):
    def check(c, W, uid, g):
        untouched(c, W, uid, g)
        if c.choose(2, 'node or edge') == 0:
            want = c.decide(('N', 'g0', X)) and not c.decide(('N', 'g1', X))
            r = state(c, g, ('n', X))
            need(c, (r[0] == 'present') == want, 'nodes', 'the difference %s' % ('lacks a node that only the first graph has' if want else 'keeps a node it should not have'))
            if want: need_eq(c, r[1], ('nlb', 'g0', X), 'node-labels', 'label of a kept node')
        else:
            want = c.decide(('E', 'g0', X, Y)) and not c.decide(('N', 'g1', X)) and not c.decide(('N', 'g1', Y)) and not c.decide(('E', 'g1', X, Y))
            r = state(c, g, ('e', (X, Y)))
            need(c, (r[0] == 'present') == want, 'edges', 'the difference %s' % ('lacks an edge of the first graph between kept nodes' if want else 'keeps an edge it should not have'))
            if want: need_eq(c, r[1], ('elb', 'g0', X, Y), 'edge-labels', 'label of a kept edge')
        return UNIT
    each_form(R, W, SUB, 'graph_minus', 'difference', check)
