"""property id -> rule"""
import importlib
TABLE = {
    'C01': ('mutgraph', 'c01'), 'C02': ('mutgraph', 'c02'), 'C03': ('mutgraph', 'c03'), 'C04': ('mutgraph', 'c04'),
    'C05': ('mutgraph', 'c05'), 'C06': ('mutgraph', 'c06'),
    'C12': ('staticbuild', 'c12'), 'C13': ('staticbuild', 'c13'), 'C35': ('staticbuild', 'c35'), 'C36': ('staticbuild', 'c36'),
    'C14': ('renumber', 'c14'),
    'C24': ('setops', 'c24'), 'C25': ('setops', 'c25'),
    'C21': ('equality', 'c21'), 'C22': ('equality', 'c22'),
    'C26': ('traverse', 'c26'), 'C27': ('traverse', 'c27'),
    'C28': ('conncomp', 'c28'),
    'C29': ('connsub', 'c29'),
    'C31': ('generators', 'c31'),
    'C32': ('labelmap', 'c32'),
    'C34': ('ids', 'c34'),
    'C30': ('borrows', 'c30'),
    'C11': ('edgeiter', 'c11'),
    'C38': ('labels', 'c38'),
    'C37': ('handles', 'c37'),
    'C39': ('capabilities', 'c39'),
    'C15': ('mmapio', 'c15'),     'C16': ('iowrite', 'c16'), 'C17': ('mmapio', 'c17'), 'C18': ('serial', 'c18'),
    'C19': ('csvio', 'c19'), 'C20': ('csvio', 'c20'),
    'C33': ('ldbc', 'c33'),
    'C44': ('misc', 'c44'), 'C45': ('misc', 'c45'), 'C46': ('misc', 'c46'), 'C47': ('misc', 'c47'),
    'C07': ('views', 'c07'), 'C08': ('views', 'c08'), 'C09': ('views', 'c09'), 'C10': ('views', 'c10'),
}
def rule(pid):
    m, f = TABLE[pid]
    return getattr(importlib.import_module('rules.' + m), f)

def run(pid, R, W):
    m, f = TABLE[pid]
    mod = importlib.import_module('rules.' + m)
    getattr(mod, f)(R, getattr(mod, 'subject', default_subject)(W))
def default_subject(W):
    from world import GraphMap
    return GraphMap(W)
