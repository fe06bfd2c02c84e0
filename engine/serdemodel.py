"""serde: what an implementation of Serialize writes, and what one of Deserialize makes of it.

A serializer records ('ser', key or position, value, type) in c.ops.  A deserializer hands out c.cells, each
('cell', key, value, type, state); in sequence form by position, in map form by key."""
from terms import *
from core import unify_ty
import models
from models import target, opt, some, NONE, UNIT, rescase, ok, err

S = 'serde_core::ser::'; D = 'serde_core::de::'

class Mismatch(Exception): pass

def find(F, suffix):
    for t in F.by_trait:
        if t.endswith(suffix) and ('serde' in t.split('::')[0]): return t
    from world import Missing
    raise Missing(suffix)

def method(c, trait, ty, name, env=None):
    """(function, environment) of a trait method for a type of this crate"""
    F = c.F
    for im in F.by_trait.get(trait, []):
        e = {}
        if im['id'] in F.impls and unify_ty(F.ty(im['self']), ty, e):
            for nm, iu, _ in im['items']:
                if nm == name and iu in F.bodies: return iu, e
    return None

def peel(t):
    while t[0] == 'ref' or (t[0] == 'adt' and t[1].split('::')[-1] == 'Box' and t[2]): t = t[2] if t[0] == 'ref' else t[2][0]
    return t
def tail(ta): return [t for t in ta if t != ('lt',)]
def deval(c, v):
    v = c.strip(v); n = 0
    while v[0] in ('rv', 'ref') and n < 5: v = c.strip(v); n += 1
    return c.deep(v)

def fail(c, what):
    c.cnt += 1
    return err(('deerr', what, c.cnt))
def faulty(c): return c.serfaults and c.choose(2) == 1

# ---------------------------------------------------------------- writing
M = {}
def model(*ns):
    def d(f):
        for n in ns: M[n] = f
        return f
    return d
def key(c, v):
    v = c.strip(v)
    return v[1] if v[0] == 'str' else None
def put(c, k, v, t):
    if faulty(c):
        c.ops.append(('sererr',)); return fail(c, 'write')
    t = peel(t)
    if wrapper(t, '__SerializeWith'):                 # serde(serialize_with)
        m = method(c, find(c.F, '::ser::Serialize'), t, 'serialize')
        n = len(c.ops)
        r = c.call_uid(m[0], [v, ('sym', 'serializer')], m[1])
        if not rescase(c, r)[0]: return r
        inner = [o for o in c.ops[n:] if o[0] == 'ser']
        if len(inner) != 1: raise Undecided('part written by a function')
        c.ops[n:] = [('ser', k) + inner[0][2:]]
        return ok(UNIT)
    c.ops.append(('ser', k, deval(c, v), t)); return ok(UNIT)
def wrapper(t, name): return t[0] == 'adt' and t[1].split('::')[-1].startswith(name)
for _n in ('serialize_struct', 'serialize_tuple_struct', 'serialize_tuple', 'serialize_map', 'serialize_seq', 'serialize_struct_variant', 'serialize_tuple_variant'):
    def _f(c, a, ta, n=_n):
        if faulty(c): c.ops.append(('sererr',)); return fail(c, 'write')
        c.ops.append(('serbegin', n, c.strip(a[-1]))); return ok(('serst', n))
    M[S + 'Serializer::' + _n] = _f
M[S + 'SerializeStruct::serialize_field'] = lambda c, a, ta: put(c, key(c, a[1]), a[2], tail(ta)[-1])
M[S + 'SerializeStruct::skip_field'] = lambda c, a, ta: ok(UNIT)
for _t, _m in (('SerializeTupleStruct', 'serialize_field'), ('SerializeTuple', 'serialize_element'), ('SerializeSeq', 'serialize_element')):
    M[S + _t + '::' + _m] = lambda c, a, ta: put(c, None, a[1], tail(ta)[-1])
M[S + 'SerializeMap::serialize_entry'] = lambda c, a, ta: put(c, key(c, a[1]), a[2], tail(ta)[-1])
for _t in ('SerializeStruct', 'SerializeTupleStruct', 'SerializeTuple', 'SerializeSeq', 'SerializeMap'):
    def _e(c, a, ta):
        if faulty(c): c.ops.append(('sererr',)); return fail(c, 'write')
        c.ops.append(('serend',)); return ok(('serdone',))
    M[S + _t + '::end'] = _e
@model(S + 'Serializer::serialize_newtype_struct', S + 'Serializer::serialize_some')
def _(c, a, ta):
    r = put(c, None, a[-1], tail(ta)[-1])
    return ok(('serdone',)) if rescase(c, r)[0] else r
M[S + 'Serializer::serialize_unit_struct'] = lambda c, a, ta: ok(('serdone',))
@model(S + 'Serialize::serialize')
def _(c, a, ta):
    """a part handed on to its own implementation as a whole"""
    r = put(c, None, a[0], ta[0])
    return ok(('serdone',)) if rescase(c, r)[0] else r

# ---------------------------------------------------------------- reading
def decode(c, cell, t):
    t = peel(t)
    if wrapper(t, '__DeserializeWith'):               # serde(deserialize_with)
        m = method(c, find(c.F, '::de::Deserialize'), t, 'deserialize')
        old = c.cells, c.serform
        c.cells = [cell]; c.serform = 'seq'
        try: return c.call_uid(m[0], [('sym', 'part')], m[1])
        finally: c.cells, c.serform = old
    return c.decode(c, cell, t)
def exact(c, cell, t):
    """the value itself, provided it is read as what it was written as"""
    if cell[3] != t: raise c.Fail(c.serob, '%s is written as %s and read as %s' % (cell[1], tname(cell[3]), tname(t)))
    if faulty(c): c.ops.append(('deerr',)); return fail(c, 'read')
    return ok(cell[2])
def column(c, cell, t):
    """a CSV field: 'good', 'empty' or 'bad'"""
    st = cell[4]
    if t[0] == 'adt' and t[1].endswith('option::Option'):
        if st == 'empty': return ok(NONE)
        return ok(some(cell[2])) if st == 'good' else fail(c, 'bad field')
    if st == 'empty': return ok(('blank', cell[2])) if c.choose(2) and t != ('param', c.idparam) else fail(c, 'empty field')
    return ok(cell[2]) if st == 'good' else fail(c, 'bad field')
def tname(t):
    if t[0] in ('param', 'int', 'adt') and len(t) > 1: return t[1].split('::')[-1] + ('<%s>' % ', '.join(tname(x) for x in t[2]) if t[0] == 'adt' and len(t) > 2 and t[2] else '')
    return str(t[0])

def state(c, r): 
    pl = target(c, r); v = c.norm(c.read(pl))
    if v[0] not in ('seqacc', 'mapacc'): raise Undecided('deserializer state')
    return pl, v[1][1]
@model(D + 'SeqAccess::next_element')
def _(c, a, ta):
    pl, i = state(c, a[0])
    if i >= len(c.cells): return ok(NONE)
    c.write(pl, ('seqacc', I(i + 1)))
    s, v = rescase(c, decode(c, c.cells[i], tail(ta)[-1]))
    return ok(some(v)) if s else err(v)
@model(D + 'SeqAccess::size_hint', D + 'MapAccess::size_hint')
def _(c, a, ta):
    pl, i = state(c, a[0])
    return some(I(max(0, len(c.cells) - i)))
@model(D + 'MapAccess::next_key')
def _(c, a, ta):
    pl, i = state(c, a[0])
    if i >= len(c.cells): return ok(NONE)
    if faulty(c): c.ops.append(('deerr',)); return fail(c, 'read')
    t = peel(tail(ta)[-1])
    if t[0] == 'adt' and t[1].split('::')[-1] in ('String', 'Cow'): return ok(some(('str', c.cells[i][1])))
    m = method(c, find(c.F, '::de::Deserialize'), t, 'deserialize')
    if m is None: raise Undecided('keys of type %s' % tname(t))
    s, v = rescase(c, c.call_uid(m[0], [('ident', ('str', c.cells[i][1]))], m[1]))
    return ok(some(v)) if s else err(v)
@model(D + 'MapAccess::next_value')
def _(c, a, ta):
    pl, i = state(c, a[0])
    c.write(pl, ('mapacc', I(i + 1)))
    return decode(c, c.cells[i], tail(ta)[-1])
@model(D + 'MapAccess::next_entry')
def _(c, a, ta):
    t = tail(ta)
    s, k = rescase(c, M[D + 'MapAccess::next_key'](c, a, [t[0], t[-2]]))
    if not s: return err(k)
    p, k = opt(c, k)
    if not p: return ok(NONE)
    s, v = rescase(c, M[D + 'MapAccess::next_value'](c, a, [t[0], t[-1]]))
    return ok(some(('tup', (k, v)))) if s else err(v)
def visit(c, v, vt, name, args):
    m = method(c, find(c.F, '::de::Visitor'), vt, name)
    if m is None: raise Undecided('no %s in %s' % (name, tname(vt)))
    return c.call_uid(m[0], [v] + args, m[1])
@model(D + 'Deserializer::deserialize_struct', D + 'Deserializer::deserialize_tuple_struct', D + 'Deserializer::deserialize_newtype_struct', D + 'Deserializer::deserialize_tuple', D + 'Deserializer::deserialize_seq',
       D + 'Deserializer::deserialize_map', D + 'Deserializer::deserialize_any')
def _(c, a, ta):
    vt = tail(ta)[-1]; f = c.strip(a[2]) if len(a) > 3 else None
    c.fieldnames = [x[1] if x[0] == 'str' else c.strip(x)[1] for x in f[1]] if f is not None and f[0] == 'arr' else None
    if c.serform == 'map': return visit(c, a[-1], vt, 'visit_map', [('mapacc', I(0))])
    return visit(c, a[-1], vt, 'visit_seq', [('seqacc', I(0))])
@model(D + 'Deserializer::deserialize_identifier', D + 'Deserializer::deserialize_str', D + 'Deserializer::deserialize_bytes')
def _(c, a, ta):
    d = c.strip(a[0])
    if d[0] != 'ident': raise Undecided('identifier')
    vt = tail(ta)[-1]
    s = d[1][1]
    if c.serbytes: return visit(c, a[-1], vt, 'visit_bytes', [('rv', ('arr', tuple(('int', b) for b in s.encode())))])
    return visit(c, a[-1], vt, 'visit_str', [('rv', ('str', s))])
@model(D + 'Deserialize::deserialize')
def _(c, a, ta):
    """a part that is itself the whole input"""
    if len(c.cells) == 1: return decode(c, c.cells[0], ta[0])
    raise Undecided('nested deserialization')
for _n in ('custom', 'missing_field', 'duplicate_field', 'invalid_length', 'unknown_field', 'unknown_variant', 'invalid_value', 'invalid_type'):
    M[D + 'Error::' + _n] = lambda c, a, ta, n=_n: ('deerr', n, 0)
M['serde::__private::de::missing_field'] = M['serde_core::private::missing_field'] = lambda c, a, ta: err(('deerr', 'missing', 0))

def install(c, form, cells, dec, faults=False, bytes_=False, ob='attributes'):
    from report import Fail
    c.Fail = Fail; c.serob = ob
    c.models = dict(c.models); c.models.update(M)
    c.serform = form; c.cells = cells; c.decode = dec; c.serfaults = faults; c.serbytes = bytes_
    c.loophook = lambda fr, H, outer: models.Unroll(fr, H, outer)
    c.unroll = True
    return c

def written(c):
    """[(key, value, type)] of one serialization"""
    return [(o[1], o[2], o[3]) for o in c.ops if o[0] == 'ser']
