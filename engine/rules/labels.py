"""C38: label counters, label iterators and label-presence queries."""
from terms import *
from world import *
from report import *
from subjects import *
from rules.views import *
import models

KEYS = {'n': ('nlab', 'nlraw'), 'e': ('elab', 'elraw')}
def keyin(which):
    """the item whose label a payload is"""
    def f(p):
        found = []
        def g(t):
            if isinstance(t, tuple):
                if t and t[0] in KEYS[which]: found.append(t[1:]); return
                for x in t: g(x)
        g(p)
        fs = sorted(set(found), key=repr)
        if len(fs) != 1: raise Undecided('counted value %s' % show(p)[:80])
        return fs[0][0] if which == 'n' else ('tup', fs[0])
    return f

def counter(c, v):
    v = c.norm(v)
    if v[0] == 'ref': v = c.norm(c.read((v[1], v[2])))
    if v[0] == 'counter': return v[1]
    raise Undecided('counter %s' % show(v)[:80])

def wrong_kind(c, com, which, what):
    """nothing but labels of this kind of item is counted"""
    other = KEYS['e' if which == 'n' else 'n']
    for vs, gs, p in com[1]:
        if contains(p, lambda t: t[0] in other): raise Fail('kind', '%s counts labels of %s' % (what, 'edges' if which == 'n' else 'nodes'))

def c38(R, W):
    """each counter is a comprehension over the items; a generic labelled item contributes its own label exactly once"""
    for S in subjects(W):
        for tr, nm, which, text in (('GraphTrait', 'get_node_label_id_counter', 'n', False), ('GraphTrait', 'get_edge_label_id_counter', 'e', False),
                                    ('GraphLabelTrait', 'get_node_label_counter', 'n', True), ('GraphLabelTrait', 'get_edge_label_counter', 'e', True)):
            def body(c, l, S=S, tr=tr, nm=nm, which=which, text=text):
                com = counter(c, S.call(c, tr, nm, l, []))
                wrong_kind(c, com, which, nm)
                if which == 'n':
                    there = S.N(c, P); lab = S.nlab(c, P) if there else NONE
                    h = hits(c, com, P, keyin('n'))
                else:
                    there = S.E(c, P, Q); lab = S.elab(c, P, Q) if there else NONE
                    h = hits(c, com, ('tup', (P, Q)), keyin('e'))
                    if not c.directed and not c.eq(P, Q): h = h + hits(c, com, ('tup', (Q, P)), keyin('e'))
                s, x = opt(c, lab)
                need(c, len(h) == (1 if s else 0), 'counted-once', lambda: '%s() counts a %s item %d times' % (nm, 'labelled' if s else 'label-less or absent', len(h)))
                if s:
                    want = S.text(c, which, lab)[3][0] if text else x
                    need_eq(c, c.strip(h[0]), want, 'counted-label', '%s(): label counted' % nm)
            each(R, S, tr, nm, nm, body)
        for which, tab in (('node', 'NL'), ('edge', 'EL')):
            T_ = ('fld', ('sym', tab), 0)
            J = ('sym', 'j?')
            def lst(c, l, S=S, which=which, T_=T_):
                com = comp(c, S.call(c, 'GraphLabelTrait', which + '_labels', l, []), lambda x: c.strip(x))
                if c.lt(J, models.slen(c, T_)):
                    h = hits(c, com, c.norm(('sget', T_, J)))
                    need(c, len(h) == 1, 'listed-once', lambda: '%s_labels() lists a label %d times' % (which, len(h)))
                for vs, gs, p in com[1]: 
                    need(c, p[0] == 'sget' and p[1] == T_, 'listed', lambda: '%s_labels() lists %s' % (which, show(p)[:80]))
            def num(c, l, S=S, which=which, T_=T_):
                need_eq(c, S.call(c, 'GraphLabelTrait', 'num_of_%s_labels' % which, l, []), models.slen(c, T_), 'size', 'num_of_%s_labels()' % which)
            def has(c, l, S=S, which=which, T_=T_):
                need_eq(c, S.call(c, 'GraphLabelTrait', 'has_%s_labels' % which, l, []), B(not c.eq(models.slen(c, T_), I(0))), 'presence', 'has_%s_labels()' % which)
            each(R, S, 'GraphLabelTrait', which + '_labels', which + '_labels', lst)
            each(R, S, 'GraphLabelTrait', 'num_of_%s_labels' % which, 'num_of_%s_labels' % which, num)
            each(R, S, 'GraphLabelTrait', 'has_%s_labels' % which, 'has_%s_labels' % which, has)
        label_views(R, S)
