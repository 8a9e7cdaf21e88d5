"""attributes, items, methods and builtin functions for the interpreter"""
import ast
import copy
import decimal
import types

import six
import z3

from proof.engine import MISSING, Frame, Stop, source
from proof.terms import *  # noqa
from proof.values import *  # noqa
from contracts import tables as T

TRUE_ = z3.BoolVal(True)


def spec_obj():
    from lib import impl
    return impl.spec_obj


#
# attributes
#

def getattr_(e, obj, name, st, default=MISSING):
    if isinstance(name, Sym):
        raise Unsupported('attribute with a symbolic name')
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: getattr_(e, x, name, s, default))
    if isinstance(obj, Thing):
        return obj.op(e, st, 'getattr', name, default)
    if isinstance(obj, View):
        return view_attr(e, obj, name, st, default)
    if isinstance(obj, Ref) and isinstance(st.heap[obj.id], HObj):
        return inst_attr(e, obj, name, st, default)
    if isinstance(obj, Tup) and obj.names and name in obj.names:
        return obj.items[obj.names.index(name)]
    if isinstance(obj, Sym) and default is not MISSING:
        # None has no attributes of interest; a JSON value has none either
        return default
    if obj is None:
        if name.startswith('__'):
            raise Unsupported('attribute %s of None' % name)
        if default is not MISSING:
            return default
        e.throw(st, AttributeError)
    if isinstance(obj, (Sym, Ref, Cont, Tup, Bound, BoolV, IntV)):
        if name == '__class__' and isinstance(obj, Cont):
            return obj.cls
        if isinstance(obj, Sym):
            e.raise_if(st, obj.t == NULL, AttributeError)
        return Bound(obj, name)
    if isinstance(obj, Closure):
        if name == '__name__':
            return obj.name
        raise Unsupported('attribute of a closure')
    # ordinary Python objects
    if isinstance(obj, (str, list, dict, tuple, set, frozenset)) and hasattr(obj, name) and not name.startswith('__'):
        return Bound(obj, name)
    try:
        return getattr(obj, name)
    except AttributeError:
        if default is not MISSING:
            return default
        e.throw(st, AttributeError)


def inst_attr(e, obj, name, st, default):
    h = st.heap[obj.id]
    if name in h.attrs:
        return h.attrs[name]
    if name == '__class__':
        return h.cls
    for c in h.cls.__mro__:
        if name in c.__dict__:
            a = c.__dict__[name]
            if isinstance(a, property):
                return e.call(a.fget, [obj], {}, st)
            if isinstance(a, types.FunctionType):
                return Bound(obj, name, a)
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, classmethod):
                return Bound(h.cls, name, a.__func__)
            return a
    if default is not MISSING:
        return default
    e.throw(st, AttributeError)


def tables_of(e, cls):
    version = getattr(cls, '__swagger_version__', None) or e.version
    try:
        return T.keys(version, cls.__name__)
    except KeyError:
        return None


def raw_has(e, raw, key):
    """is the key present in the description of an object?"""
    t = HAS(raw.t, e.lit(key))
    e.get(raw.t, key)
    return t


def raw_get(e, raw, key, cls=None):
    """-> Sym with its type"""
    ty = None
    if raw.ty is not None and raw.ty.kind in ('obj', 'orref'):
        name = cls.__name__ if cls is not None else raw.ty.arg
        version = getattr(cls, '__swagger_version__', None) or e.version
        try:
            table = T.keys(version, name)
        except KeyError:
            table = {}
        if key == '$ref':
            ty = T.STR
            t = e.get(raw.t, key, ty)
            e.fact(z3.Implies(HAS(raw.t, e.lit(key)), z3.And(t != NULL, t != e.lit(''))))
            if key not in table and raw.ty.kind == 'obj':
                e.fact(z3.Not(HAS(raw.t, e.lit(key))))
            return Sym(t, ty)
        if key in table:
            ty = table[key][0]
        elif not key.startswith('x-'):
            e.fact(z3.Not(HAS(raw.t, e.lit(key))))    # the format does not define this keyword
    elif raw.ty is not None and raw.ty.kind == 'map':
        ty = raw.ty.arg
        t = e.get(raw.t, key, ty)
        e.fact(z3.Implies(HAS(raw.t, e.lit(key)), t != NULL))
        return Sym(t, ty)
    return Sym(e.get(raw.t, key, ty), ty)


def build_child(e, builder, raw, st):
    """what a child builder makes of a raw value that is not null"""
    so = spec_obj()
    if isinstance(builder, type):
        if issubclass(builder, so.Base2Obj):
            return View(builder, raw)
        if issubclass(builder, (so._Map, so._List)):
            return Cont(builder, raw)
        raise Unsupported('child builder %s' % builder)
    if isinstance(builder, types.FunctionType):
        r = e.new(st, HDict())
        return e.call(builder, [raw], {'path': opaque(e, 'path'), 'override': r}, st)
    raise Unsupported('child builder %r' % (builder,))


def opaque(e, name):
    return Sym(e.app('opaque_' + name), T.STR)


def elem_of(e, cont, raw, st):
    """what a loaded container makes of a raw element"""
    b = cont.cls.__dict__.get('__child_builder__')
    if b is None:
        for c in cont.cls.__mro__:
            if '__child_builder__' in c.__dict__:
                b = c.__dict__['__child_builder__']
                break
    return build_child(e, b, raw, st)


def view_attr(e, obj, name, st, default):
    so = spec_obj()
    cls, raw = obj.cls, obj.raw
    hook = e.things.get(('attr', name)) or e.things.get(('attr', cls.__name__, name))
    if hook is not None:
        ret = hook(e, obj, st)
        if ret is not NotImplemented:
            return ret
    if name == '__class__':
        return cls
    found = None
    for c in cls.__mro__:
        if name in c.__dict__:
            found = c.__dict__[name]
            break
    if found is None:
        if default is not MISSING:
            return default
        e.throw(st, AttributeError)
    if not isinstance(found, property):
        if isinstance(found, types.FunctionType) or isinstance(found, classmethod):
            return Bound(obj, name)
        return found
    spec = None
    for kind, base in (('fields', so.field), ('children', so.child), ('internal', so.internal)):
        table = getattr(cls, '__%s__' % kind)
        if name in table:
            spec, default_builder = dict(table[name]), base
            break
    if spec is None:
        raise Unsupported('property %s of %s' % (name, cls.__name__))
    builder = spec.pop('builder', None) or default_builder
    key = spec.pop('key', None) or name
    if builder is so.rename:
        return view_attr(e, obj, key, st, default)
    if builder is so.field:
        return field_value(e, obj, key, spec, st)
    if builder is so.child:
        return child_value(e, obj, key, spec, st)
    raise Unsupported('attribute %s of %s' % (name, cls.__name__))


def field_value(e, obj, key, spec, st):
    """contract of the getter made by 'field' (proved with C05)"""
    raw = obj.raw
    val, has = raw_get(e, raw, key, obj.cls), raw_has(e, raw, key)
    if spec.get('restricted'):
        e.raise_if(st, has, Exception)
    if spec.get('required'):
        e.raise_if(st, lnot(has), Exception)
        return val
    d = spec.get('default')
    if d is None:
        return val
    return e.merge(has, val, d)


def child_value(e, obj, key, spec, st):
    """contract of the getter made by 'child' (proved with C05)"""
    from pyopenapi.errs import FieldNotExist
    raw = obj.raw
    val, has = raw_get(e, raw, key, obj.cls), raw_has(e, raw, key)
    if spec.get('required'):
        e.raise_if(st, lnot(has), FieldNotExist)
    d = spec.get('default')
    builder = spec['child_builder']

    def there(s):
        s.env['%val'] = build_child(e, builder, val, s)

    def missing(s):
        if d is None:
            s.env['%val'] = None
        else:
            t = e.lit(d)
            s.env['%val'] = build_child(e, builder, Sym(t, val.ty), s)

    e.branch(val.t != NULL, st, there, missing)
    if st.dead:
        raise Stop()
    return st.env.pop('%val')


def setattr_(e, obj, name, val, st):
    if isinstance(obj, Thing):
        return obj.op(e, st, 'setattr', name, val)
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: setattr_(e, x, name, val, s))
    if isinstance(obj, Ref) and isinstance(st.heap[obj.id], HObj):
        h = st.heap[obj.id]
        for c in h.cls.__mro__:
            a = c.__dict__.get(name)
            if isinstance(a, property):
                if a.fset is None:
                    e.throw(st, AttributeError)
                e.call(a.fset, [obj, val], {}, st)
                return
        h = h.copy()
        h.attrs[name] = val
        st.heap[obj.id] = h
        return
    if isinstance(obj, View):
        hook = e.things.get(('setattr', name))
        if hook is not None:
            return hook(e, obj, val, st)
        e.event(st, 'write', obj, name, val)
        return
    raise Unsupported('setting attribute %s of %r' % (name, obj))


#
# comparisons
#

def is_(e, a, b, st):
    if isinstance(b, Union) and not isinstance(a, Union):
        a, b = b, a
    if isinstance(a, Union):
        return lor(*[land(g, is_(e, x, b, st)) for g, x in a.alts])
    for x, y in ((a, b), (b, a)):
        if y is None or y is True or y is False:
            if isinstance(x, Sym):
                return x.t == e.lit(y)
            if isinstance(x, BoolV):
                return boolval(False) if y is None else x.t if y else lnot(x.t)
            if isinstance(x, Ref) and isinstance(st.heap[x.id], HUnk):
                return st.heap[x.id].base == e.lit(y)
            if isinstance(x, Thing):
                return x.op(e, st, 'is', y)
            if isinstance(x, SV):
                return boolval(False)
            return boolval(x is y)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return boolval(a.id == b.id)
    if isinstance(a, View) and isinstance(b, View):
        if a.cls is not b.cls:
            return boolval(False)
        return a.raw.t == b.raw.t
    if not isinstance(a, SV) and not isinstance(b, SV):
        return boolval(a is b)
    raise Unsupported('identity of %r and %r' % (a, b))


def eq(e, a, b, st):
    if isinstance(b, Union) and not isinstance(a, Union):
        a, b = b, a
    if isinstance(a, Union):
        return lor(*[land(g, eq(e, x, b, st)) for g, x in a.alts])
    if isinstance(a, Thing):
        return a.op(e, st, 'eq', b)
    if isinstance(b, Thing):
        return b.op(e, st, 'eq', a)
    if not isinstance(a, SV) and not isinstance(b, SV):
        return boolval(a == b)
    if isinstance(a, (IntV, int)) and isinstance(b, (IntV, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        return (a.t if isinstance(a, IntV) else z3.IntVal(a)) == (b.t if isinstance(b, IntV) else z3.IntVal(b))
    if isinstance(a, (BoolV, bool)) and isinstance(b, (BoolV, bool)):
        return (a.t if isinstance(a, BoolV) else boolval(a)) == (b.t if isinstance(b, BoolV) else boolval(b))
    if isinstance(a, type) or isinstance(b, type):
        if isinstance(a, type) and isinstance(b, type):
            return boolval(a is b)
    if isinstance(a, Tup) and isinstance(b, (Tup, tuple)) or isinstance(b, Tup) and isinstance(a, tuple):
        x = a.items if isinstance(a, Tup) else a
        y = b.items if isinstance(b, Tup) else b
        if len(x) != len(y):
            return boolval(False)
        return land(*[eq(e, p, q, st) for p, q in zip(x, y)])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (View, Cont)):
            if y is None or isinstance(y, (str, int, float)):
                return boolval(False)
            if isinstance(x, View) and isinstance(y, View):
                return is_(e, x, y, st)
            raise Unsupported('comparing a loaded object')
        if isinstance(x, Ref) and not isinstance(st.heap[x.id], HUnk) and (y is None or isinstance(y, (str, int, float))):
            return boolval(False)
    return e.term(a, st) == e.term(b, st)


def order(e, op, a, b, st):
    if not isinstance(a, SV) and not isinstance(b, SV):
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
    if isinstance(a, (IntV, int)) and isinstance(b, (IntV, int)):
        x = a.t if isinstance(a, IntV) else z3.IntVal(a)
        y = b.t if isinstance(b, IntV) else z3.IntVal(b)
        return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
    if isinstance(a, Thing):
        return a.op(e, st, 'order', op, b)
    raise Unsupported('order of %r and %r' % (a, b))


def contains(e, coll, x, st):
    """x in coll"""
    if isinstance(coll, Union):
        return lor(*[land(g, contains(e, c, x, st)) for g, c in coll.alts])
    if isinstance(x, Union):
        return lor(*[land(g, contains(e, coll, y, st)) for g, y in x.alts])
    if isinstance(coll, Thing):
        return coll.op(e, st, 'contains', x)
    if not isinstance(coll, SV):
        if not isinstance(x, SV):
            return boolval(x in coll)
        if isinstance(coll, str):
            raise Unsupported('substring test')
        return lor(*[eq(e, x, y, st) for y in coll])
    if isinstance(coll, Tup):
        return lor(*[eq(e, x, y, st) for y in coll.items])
    if isinstance(coll, Sym):
        k = coll.ty.kind if coll.ty is not None else None
        if k in ('list', 'field'):
            return MEMBER(e.term(x, st), coll.t)
        if k in ('obj', 'orref', 'map', 'orbool'):
            if not isinstance(x, SV):
                raw_get(e, coll, x)
                return raw_has(e, coll, x)
            return HAS(coll.t, e.term(x, st))
        if k == 'str':
            return e.app('substring', e.term(x, st), coll.t, sort=B)
        return HAS(coll.t, e.term(x, st))
    if isinstance(coll, Cont):
        return HAS(coll.raw.t, e.term(x, st)) if is_map(coll) else MEMBER(e.term(x, st), coll.raw.t)
    if isinstance(coll, Items) and coll.kind in ('keys', 'list'):
        return contains(e, coll.of, x, st)
    if isinstance(coll, Ref):
        h = st.heap[coll.id]
        looked_at(e, coll)
        if isinstance(h, HUnk):
            return HAS(h.base, e.term(x, st))
        if isinstance(h, HDict):
            out = [land(g, eq(e, x, k, st)) for k, (g, _) in h.ents.items()]
            if not isinstance(x, SV) and x in h.ents:
                out = [h.ents[x][0]]
                if not h.dyn:
                    return out[0]
            t = e.term(x, st)
            out += [land(g, k == t) for g, k, _ in h.dyn]
            if h.base is not None:
                out.append(land(HAS(h.base, t), *[t != e.lit(k) for k in h.ents]))
            return lor(*out)
        if isinstance(h, HList):
            t = None
            out = [land(g, eq(e, x, v, st)) for g, v in h.items]
            if h.base is not None:
                out.append(MEMBER(e.term(x, st), h.base))
            return lor(*out)
    raise Unsupported('membership in %r' % (coll,))


def is_map(c):
    return issubclass(c.cls, spec_obj()._Map)


#
# items
#

def as_dict(e, ref, st):
    h = st.heap[ref.id]
    if isinstance(h, HUnk):
        h = HDict(h.base)
        st.heap[ref.id] = h
    if not isinstance(h, HDict):
        raise Unsupported('a dict is expected')
    return h


def as_list(e, ref, st):
    h = st.heap[ref.id]
    if isinstance(h, HUnk):
        h = HList(h.base)
        st.heap[ref.id] = h
    if not isinstance(h, HList):
        raise Unsupported('a list is expected')
    return h


def part(e, ref, t, st):
    """a part of an object, as an object"""
    r = e.new(st, HUnk(t))
    if ref.id in e.shared or ref.id in e.frozen:
        e.frozen.add(r.id)
    return r


def writable(e, ref):
    if isinstance(ref, Ref) and ref.id in e.frozen:
        raise Unsupported('changing what may be shared')


def shallow(e, *refs):
    for r in refs:
        e.shared.add(r.id)


def entry(e, ref, key, st, look=True):
    """-> (presence, value) of a constant key; makes the entry explicit"""
    h = as_dict(e, ref, st)
    if look and e.dropped:
        looked_at(e, ref, key)
    if key in h.ents:
        return h.ents[key]
    if h.dyn:
        for g, k, v in h.dyn:
            if not e.must(st, k != e.lit(key)):
                flatten(e, ref, st)
                break
        h = st.heap[ref.id]
    if h.base is None:
        return z3.BoolVal(False), None
    t = e.get(h.base, key)
    r = part(e, ref, t, st)
    h = h.copy()
    h.ents[key] = (HAS(h.base, e.lit(key)), r)
    st.heap[ref.id] = h
    return h.ents[key]


def flatten(e, ref, st):
    """all entries into the base term"""
    refs = []
    h = st.heap[ref.id]
    for _, v in h.ents.values():
        refs += refs_in(v)
    for _, _, v in h.dyn:
        refs += refs_in(v)
    t = e.term(ref, st)
    st.heap[ref.id] = HDict(t)
    for r in refs:
        st.heap[r] = HUnk(e.app('stale%d' % r))
        e.frozen.add(r)


def refs_in(v):
    if isinstance(v, Ref):
        return [v.id]
    if isinstance(v, Union):
        return [r for _, x in v.alts for r in refs_in(x)]
    if isinstance(v, Tup):
        return [r for x in v.items for r in refs_in(x)]
    return []


def getitem(e, obj, key, st):
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: getitem(e, x, key, s))
    if isinstance(key, Union):
        return e.split(st, key, lambda s, x: getitem(e, obj, x, s))
    if isinstance(obj, Thing):
        return obj.op(e, st, 'getitem', key)
    if obj is None:
        e.throw(st, TypeError)
    if not isinstance(obj, SV):
        if not isinstance(key, SV):
            try:
                return obj[key]
            except Exception as x:
                e.throw(st, type(x))
        if isinstance(obj, dict):
            t = e.term(key, st)
            e.raise_if(st, lnot(lor(*[t == e.lit(k) for k in obj])), KeyError)
            out = None
            for k in obj:
                out = obj[k] if out is None else e.merge(t == e.lit(k), obj[k], out)
            return out
        raise Unsupported('item of %r' % (obj,))
    if isinstance(obj, Tup):
        if isinstance(key, int):
            return obj.items[key]
        raise Unsupported('item of a tuple')
    if isinstance(obj, (Sym, Cont)):
        raw = obj if isinstance(obj, Sym) else obj.raw
        if isinstance(obj, Sym):
            e.raise_if(st, obj.t == NULL, TypeError)
        k = raw.ty.kind if raw.ty is not None else None
        ty = raw.ty.arg if k in ('list', 'map', 'field') else None
        if k == 'field':
            ty = ty.arg
        if k == 'str':
            if isinstance(key, int):
                return Sym(e.app('charat%d' % key, raw.t), T.STR)
            raise Unsupported('character of a string')
        if isinstance(key, str) and k not in ('list', 'field'):
            val = raw_get(e, raw, key)
            e.raise_if(st, lnot(raw_has(e, raw, key)), KeyError)
        elif isinstance(key, int) and not isinstance(key, bool):
            if key in (0, -1):
                e.raise_if(st, lnot(NE(raw.t)), IndexError)
            else:
                e.raise_if(st, LEN(raw.t) <= key, IndexError)
            t = ELEM(raw.t, e.lit(key))
            if ty is not None:
                e.typed(t, ty, null=False)
            val = Sym(t, ty)
        elif k in ('list', 'field'):
            t = e.term(key, st)
            e.raise_if(st, e.app('outside', raw.t, t, sort=B), IndexError)
            v = e.app('item', raw.t, t)
            if ty is not None:
                e.typed(v, ty, null=False)
            val = Sym(v, ty)
        else:
            t = e.term(key, st)
            e.raise_if(st, lnot(HAS(raw.t, t)), KeyError)
            v = e.get(raw.t, t, ty)
            val = Sym(v, ty)
        if isinstance(obj, Cont):
            return elem_of(e, obj, val, st)
        return val
    if isinstance(obj, Ref):
        h = st.heap[obj.id]
        if isinstance(h, HObj):
            m = getattr_(e, obj, '__getitem__', st)
            return e.call(m, [key], {}, st)
        if isinstance(h, HList) or isinstance(h, HUnk) and isinstance(key, int) and not isinstance(key, bool):
            h = as_list(e, obj, st)
            if isinstance(key, int) and h.base is None and all(z3.is_true(g) for g, _ in h.items):
                if not -len(h.items) <= key < len(h.items):
                    e.throw(st, IndexError)
                return h.items[key][1]
            t = e.term(obj, st)
            if isinstance(key, int):
                e.raise_if(st, lnot(NE(t)) if key in (0, -1) else LEN(t) <= key, IndexError)
                return Sym(ELEM(t, e.lit(key)))
            k = e.term(key, st)
            e.raise_if(st, e.app('outside', t, k, sort=B), IndexError)
            return Sym(e.app('item', t, k))
        if isinstance(key, (str, int)) and not isinstance(key, SV):
            g, v = entry(e, obj, key, st)
            if z3.is_false(g):
                e.throw(st, KeyError)
            e.raise_if(st, lnot(g), KeyError)
            return v
        h = as_dict(e, obj, st)
        t = e.term(key, st)
        e.raise_if(st, lnot(contains(e, obj, key, st)), KeyError)
        return dyn_get(e, obj, t, st)
    raise Unsupported('item of %r' % (obj,))


def dyn_get(e, ref, t, st):
    """value under a symbolic key that is present"""
    h = as_dict(e, ref, st)
    out = None
    if h.base is not None:
        x = part(e, ref, e.get(h.base, t), st)
        h = st.heap[ref.id]
        if not h.ents and not h.dyn:
            h = h.copy()
            h.dyn.append((HAS(h.base, t), t, x))
            st.heap[ref.id] = h
            return x
        out = x
    for k, (g, v) in h.ents.items():
        c = t == e.lit(k)
        if not e.feasible(st, land(g, c)):
            continue
        out = v if out is None else e.merge(land(g, c), v, out)
    for g, k, v in h.dyn:
        if k.eq(t):
            out = v if z3.is_true(g) or out is None else e.merge(g, v, out)
            continue
        if not e.feasible(st, land(g, k == t)):
            continue
        out = v if out is None else e.merge(land(g, k == t), v, out)
    if out is None:
        raise Unsupported('value of an absent key')
    return out


def setitem(e, obj, key, val, st):
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: setitem(e, x, key, val, s))
    if isinstance(obj, Thing):
        return obj.op(e, st, 'setitem', key, val)
    if isinstance(key, Union):
        key = Sym(e.term(key, st), T.STR)
    if isinstance(obj, (View, Cont, Sym)):
        source_write(e, obj, key, val, st)
        return
    if obj is None:
        e.throw(st, TypeError)
    if not isinstance(obj, Ref):
        raise Unsupported('changing %r' % (obj,))
    writable(e, obj)
    h = st.heap[obj.id]
    if isinstance(h, HObj):
        e.call(getattr_(e, obj, '__setitem__', st), [key, val], {}, st)
        return
    if isinstance(h, HList):
        if isinstance(key, int) and h.base is None and all(z3.is_true(g) for g, _ in h.items):
            h = h.copy()
            h.items[key] = (TRUE_, val)
            st.heap[obj.id] = h
            return
        raise Unsupported('changing an element of a list')
    if not isinstance(key, SV):
        entry(e, obj, key, st, False)
        h = st.heap[obj.id].copy()
        g = TRUE_
        if e.drop_null and e.side == 'code':
            g = present(e, obj, key, val, st)
        h.ents[key] = (g, val)
        st.heap[obj.id] = h
        return
    t = e.term(key, st)
    h = as_dict(e, obj, st)
    for k in h.ents:
        if not e.must(st, t != e.lit(k)):
            flatten(e, obj, st)
            break
    h = st.heap[obj.id].copy()
    n = [(g, k, v) for g, k, v in h.dyn if not k.eq(t)]
    if len(n) < len(h.dyn) and any(not e.must(st, k != t) for _, k, _ in n):
        n = h.dyn
    n = n + [(TRUE_, t, val)]
    h.dyn = n
    st.heap[obj.id] = h


def present(e, obj, key, val, st):
    """is a value other than None?  when in doubt, the entry must not be looked at any more"""
    if isinstance(val, SV) and not isinstance(val, (Sym, Union)):
        return TRUE_
    if not isinstance(val, SV) and val is not None:
        return TRUE_
    c = z3.BoolVal(False) if val is None else e.term(val, st) != NULL
    if e.must(st, c):
        return TRUE_
    e.dropped.add((obj.id, key))
    e.dropped.add(obj.id)
    return c


def looked_at(e, ref, key=None):
    if (ref.id if key is None else (ref.id, key)) in e.dropped:
        raise Unsupported('an entry that may hold None is looked at')


def source_write(e, obj, key, val, st):
    if isinstance(obj, Sym) and obj.ty is None:
        raise Unsupported('changing a value of unknown origin')
    e.event(st, 'write', obj, key, val)


def delitem(e, obj, key, st):
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: delitem(e, x, key, s))
    if isinstance(obj, Thing):
        return obj.op(e, st, 'delitem', key)
    if isinstance(obj, Ref) and not isinstance(key, SV):
        writable(e, obj)
        g, _ = entry(e, obj, key, st)
        e.raise_if(st, lnot(g), KeyError)
        h = st.heap[obj.id].copy()
        h.ents[key] = (z3.BoolVal(False), None)
        st.heap[obj.id] = h
        return
    if isinstance(obj, (View, Cont, Sym)):
        source_write(e, obj, key, None, st)
        return
    raise Unsupported('deleting an item')


def slice_(e, obj, lo, hi, step, st):
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: slice_(e, x, lo, hi, step, s))
    if not isinstance(obj, SV) and not any(isinstance(x, SV) for x in (lo, hi, step)):
        return obj[lo:hi:step]
    if isinstance(obj, Tup) and not any(isinstance(x, SV) for x in (lo, hi, step)):
        return Tup(obj.items[lo:hi:step])
    if isinstance(obj, Ref):
        h = as_list(e, obj, st)
        if h.base is None and all(z3.is_true(g) for g, _ in h.items) and not any(isinstance(x, SV) for x in (lo, hi, step)):
            return e.new(st, HList(None, h.items[lo:hi:step]))
    if lo is None and hi is None and step is None:
        return obj if isinstance(obj, Sym) and e.stringy(obj) else e.new(st, e.list_content(obj, st).copy())
    if isinstance(obj, Sym) or not isinstance(obj, SV):
        t = e.term(obj, st)
        if isinstance(obj, Sym):
            e.raise_if(st, t == NULL, TypeError)
        if isinstance(lo, (int, type(None))) and isinstance(hi, (int, type(None))) and step is None \
                and not isinstance(lo, SV) and e.stringy(obj):
            name = 'slice_%s_%s' % (lo, hi)
            key = ('__getitem__', (slice(lo, hi),))
            return Sym(slice_app(e, t, lo, hi), T.STR)
        return Sym(e.app('slice', t, *[e.term(x, st) for x in (lo, hi, step)]), getattr(obj, 'ty', T.STR))
    raise Unsupported('slice of %r' % (obj,))


def slice_app(e, t, lo, hi):
    d = 'slice_%s_%s' % (lo, hi)
    key = ('slice', lo, hi)
    if key not in e.decls:
        e.decls[key] = True
    c = e.litval(t)
    if c is not None:
        return e.lit(c[lo:hi])
    out = e.app(d, t)
    e.fact(KIND(out) == 2, out != NULL)
    return out


#
# methods
#

MUTATING = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem',
            'add', 'discard')


def method(e, obj, name, args, kw, st):
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: method(e, x, name, args, kw, s))
    if isinstance(obj, Thing):
        return obj.op(e, st, 'method', name, args, kw)
    if isinstance(obj, View):
        return view_method(e, obj, name, args, kw, st)
    if isinstance(obj, Cont):
        return cont_method(e, obj, name, args, kw, st)
    if isinstance(obj, Sym):
        return sym_method(e, obj, name, args, kw, st)
    if isinstance(obj, Ref):
        h = st.heap[obj.id]
        if isinstance(h, HUnk):
            if name in ('append', 'extend', 'insert', 'sort', 'reverse', 'index'):
                h = as_list(e, obj, st)
            elif name in ('dump',):
                e.throw(st, AttributeError)
            elif name in ('get', 'update', 'setdefault', 'items', 'keys', 'values', 'pop'):
                h = as_dict(e, obj, st)
            else:
                return sym_method(e, Sym(h.base), name, args, kw, st)
        if isinstance(h, HDict):
            return dict_method(e, obj, name, args, kw, st)
        if isinstance(h, HList):
            return list_method(e, obj, name, args, kw, st)
    if isinstance(obj, Tup):
        if name == '_replace' and obj.names:
            items = list(obj.items)
            for k, v in kw.items():
                items[obj.names.index(k)] = v
            return Tup(items, obj.names)
        if name == 'geturl' and obj.names:
            return urlunsplit_(e, obj.items, st)
    if not isinstance(obj, SV):
        if any(isinstance(a, Union) for a in args):
            i = [n for n, a in enumerate(args) if isinstance(a, Union)][0]
            return e.split(st, args[i], lambda s, x: method(e, obj, name, args[:i] + [x] + args[i + 1:], kw, s))
        if all(e.native(a, st) for a in args) and all(e.native(a, st) for a in kw.values()):
            if name in MUTATING and isinstance(obj, (list, dict, set)):
                e.event(st, 'write', obj, name, None)
                raise Unsupported('a global object is changed')
            try:
                return getattr(obj, name)(*args, **kw)
            except Exception as x:
                e.throw(st, type(x))
        if isinstance(obj, str):
            return str_method(e, obj, name, args, kw, st)
        if isinstance(obj, dict) and name == 'get':
            t = e.term(args[0], st)
            out = args[1] if len(args) > 1 else None
            for k in obj:
                out = e.merge(t == e.lit(k), obj[k], out)
            return out
        if isinstance(obj, (list, tuple)) and name == 'index':
            t = e.term(args[0], st)
            e.raise_if(st, lnot(lor(*[t == e.lit(k) for k in obj])), ValueError)
            out = None
            for i, k in enumerate(obj):
                out = IntV(z3.IntVal(i)) if out is None else e.merge(t == e.lit(k), IntV(z3.IntVal(i)), out)
            return out
    raise Unsupported('method %s of %r' % (name, obj))


def urlunsplit_(e, items, st):
    return Sym(e.app('urlunsplit', *[e.term(x, st) if x is not None else e.lit('') for x in items]), T.STR)


def view_method(e, obj, name, args, kw, st):
    hook = e.things.get(('method', name))
    if hook is not None:
        ret = hook(e, obj, args, kw, st)
        if ret is not NotImplemented:
            return ret
    if name == 'is_set':
        raw_get(e, obj.raw, args[0], obj.cls)
        return e.boolean(raw_has(e, obj.raw, args[0]))
    if name == 'get_path':
        return opaque(e, 'path')
    if name == 'dump':
        return e.new(st, HUnk(obj.raw.t))
    raise Unsupported('method %s of a loaded object' % name)


def cont_method(e, obj, name, args, kw, st):
    if name == 'dump':
        return e.new(st, HUnk(obj.raw.t))
    if name in ('items', 'iteritems'):
        return Items('items', obj)
    if name in ('keys', 'iterkeys'):
        return Items('keys', obj)
    if name in ('values', 'itervalues'):
        return Items('values', obj)
    if name == 'get_path':
        return opaque(e, 'path')
    if name == 'get' and is_map(obj):
        t = e.term(args[0], st)
        has = HAS(obj.raw.t, t)
        d = args[1] if len(args) > 1 else None

        def yes(s):
            s.env['%val'] = elem_of(e, obj, Sym(e.get(obj.raw.t, t, obj.raw.ty.arg), obj.raw.ty.arg), s)

        def no(s):
            s.env['%val'] = d

        e.branch(has, st, yes, no)
        return st.env.pop('%val')
    raise Unsupported('method %s of a loaded container' % name)


def sym_method(e, obj, name, args, kw, st):
    k = obj.ty.kind if obj.ty is not None else None
    if name == 'get' and k != 'str':
        e.raise_if(st, obj.t == NULL, AttributeError)
        d = args[1] if len(args) > 1 else None
        if isinstance(args[0], str):
            val = raw_get(e, obj, args[0])
            has = raw_has(e, obj, args[0])
        else:
            t = e.term(args[0], st)
            ty = obj.ty.arg if k == 'map' else None
            val, has = Sym(e.get(obj.t, t, ty), ty), HAS(obj.t, t)
        return val if d is None else e.merge(has, val, d)
    if name in ('items', 'keys', 'values') and k != 'str':
        e.raise_if(st, obj.t == NULL, AttributeError)
        return Items(name, obj)
    if k in ('list', 'field', 'map', 'obj', 'orref'):
        if name in MUTATING:
            e.event(st, 'write', obj, name, None)
            return None
        if name == 'copy':
            r = e.new(st, HUnk(obj.t))
            shallow(e, r)
            return r
        raise Unsupported('method %s' % name)
    e.raise_if(st, obj.t == NULL, AttributeError)
    return str_method(e, obj, name, args, kw, st)


BOOL_METHODS = ('startswith', 'endswith', 'isdigit')
INT_METHODS = ('find', 'index', 'count', 'rfind')
LIST_METHODS = ('split', 'rsplit', 'splitlines')


def str_method(e, obj, name, args, kw, st):
    t = e.term(obj, st)
    if name == 'join':
        x = args[0]
        if isinstance(x, Tup):
            vals = x.items
        elif isinstance(x, Ref) and isinstance(st.heap[x.id], HList) and st.heap[x.id].base is None and all(
                z3.is_true(g) for g, _ in st.heap[x.id].items):
            vals = [v for _, v in st.heap[x.id].items]
        elif isinstance(x, (list, tuple)) and not isinstance(x, SV):
            vals = list(x)
        else:
            return Sym(e.app('join', t, e.term(x, st)), T.STR)
        parts = []
        for i, v in enumerate(vals):
            if i:
                parts.append(t)
            parts.append(e.term(v, st))
        return Sym(e.cat(parts), T.STR)
    if name == 'format':
        parts = [e.app('format', t, *[e.tostr(a, st) if not isinstance(a, (View, Cont, Thing, Ref, Union)) else
                                      e.app('shown') for a in args])]
        if not isinstance(obj, SV) and obj.count('{}') == len(args) == obj.count('{') and not kw:
            parts = []
            pieces = obj.split('{}')
            for i, p in enumerate(pieces):
                if i:
                    a = args[i - 1]
                    parts.append(e.app('shown') if isinstance(a, (View, Cont, Thing, Ref, Union)) else e.tostr(a, st))
                parts.append(e.lit(p))
            return Sym(e.cat(parts), T.STR)
        return Sym(parts[0], T.STR)
    const = all(not isinstance(a, SV) and isinstance(a, (str, int)) for a in args) and not kw
    sort = B if name in BOOL_METHODS else I if name in INT_METHODS else J
    if const:
        out = e.strfun(name, t, args, sort)
    else:
        out = e.app('str_' + name, t, *[e.term(a, st) for a in args], sort=sort)
    if sort is B:
        return e.boolean(out)
    if sort is I:
        return IntV(out)
    if name in LIST_METHODS:
        e.fact(NE(out), KIND(out) == 4)
        return Sym(out, T.LIST(T.STR))
    if name not in ('lower', 'upper', 'replace', 'strip', 'rstrip', 'lstrip', 'title', 'encode', 'decode', 'capitalize'):
        raise Unsupported('str.%s' % name)
    e.fact(KIND(out) == 2, out != NULL)
    return Sym(out, T.STR)


def dict_method(e, obj, name, args, kw, st):
    h = as_dict(e, obj, st)
    if name in MUTATING:
        writable(e, obj)
    if name == 'setdefault':
        key, val = args[0], args[1] if len(args) > 1 else None
        if isinstance(key, SV):
            t = e.term(key, st)
            has = contains(e, obj, key, st)

            def yes(s):
                s.env['%val'] = dyn_get(e, obj, t, s)

            def no(s):
                setitem(e, obj, key, val, s)
                s.env['%val'] = val

            e.branch(has, st, yes, no)
            return st.env.pop('%val')
        g, v = entry(e, obj, key, st)
        if z3.is_true(g):
            return v
        if z3.is_false(g):
            setitem(e, obj, key, val, st)
            return val
        out = e.merge(g, v, val)
        h = st.heap[obj.id].copy()
        h.ents[key] = (TRUE_, out)
        st.heap[obj.id] = h
        return out
    if name == 'get':
        key, d = args[0], args[1] if len(args) > 1 else None
        if isinstance(key, SV):
            has = contains(e, obj, key, st)
            t = e.term(key, st)

            def yes(s):
                s.env['%val'] = dyn_get(e, obj, t, s)

            def no(s):
                s.env['%val'] = d

            e.branch(has, st, yes, no)
            return st.env.pop('%val')
        g, v = entry(e, obj, key, st)
        return d if z3.is_false(g) else e.merge(g, v, d)
    if name == 'pop':
        g, v = entry(e, obj, args[0], st)
        if len(args) < 2:
            e.raise_if(st, lnot(g), KeyError)
        out = args[1] if z3.is_false(g) else e.merge(g, v, args[1] if len(args) > 1 else None)
        h = st.heap[obj.id].copy()
        h.ents[args[0]] = (z3.BoolVal(False), None)
        st.heap[obj.id] = h
        return out
    if name == 'update':
        for src in args:
            dict_update(e, obj, src, st)
        for k, v in kw.items():
            setitem(e, obj, k, v, st)
        return None
    if name in ('items', 'keys', 'values'):
        looked_at(e, obj)
        return Items(name, obj)
    if name == 'copy':
        looked_at(e, obj)
        r = e.new(st, h.copy())
        shallow(e, obj, r)
        return r
    raise Unsupported('dict.%s' % name)


def dict_update(e, obj, src, st):
    if isinstance(src, Union):
        return e.split(st, src, lambda s, x: dict_update(e, obj, x, s))
    shallow(e, *[r for r in (obj, src) if isinstance(r, Ref) and isinstance(src, SV) and not (
        isinstance(src, Ref) and isinstance(st.heap[src.id], HDict) and st.heap[src.id].base is None)])
    if not isinstance(src, SV):
        for k, v in dict(src).items():
            setitem(e, obj, k, v, st)
        return
    for r in (obj, src):
        if isinstance(r, Ref):
            looked_at(e, r)
    h = as_dict(e, obj, st)
    if isinstance(src, Ref) and isinstance(st.heap[src.id], HDict) and st.heap[src.id].base is None and not st.heap[src.id].dyn:
        for k, (g, v) in st.heap[src.id].ents.items():
            if z3.is_false(g):
                continue
            og, ov = entry(e, obj, k, st)
            h = st.heap[obj.id].copy()
            h.ents[k] = (z3.simplify(lor(og, g)), v if z3.is_false(og) else e.merge(g, v, ov))
            st.heap[obj.id] = h
        return
    if not z3.is_true(z3.simplify(lnot(e.truth(obj, st)))):
        t = e.app('update', e.term(obj, st), e.term(src, st))
        e.fact(KIND(t) == 5, t != NULL)
        st.heap[obj.id] = HDict(t)
        return
    if isinstance(src, Ref):
        c = st.heap[src.id]
        st.heap[obj.id] = HDict(c.base) if isinstance(c, HUnk) else c.copy()
    else:
        st.heap[obj.id] = HDict(e.term(src, st))


def list_method(e, obj, name, args, kw, st):
    h = as_list(e, obj, st)
    if name in MUTATING:
        writable(e, obj)
    if name == 'append':
        h = h.copy()
        h.items.append((TRUE_, args[0]))
        st.heap[obj.id] = h
        return None
    if name == 'insert' and args[0] == 0 and h.base is None:
        h = h.copy()
        h.items.insert(0, (TRUE_, args[1]))
        st.heap[obj.id] = h
        return None
    if name == 'extend':
        return list_extend(e, obj, args[0], st)
    if name == 'pop' and h.base is None and all(z3.is_true(g) for g, _ in h.items):
        i = args[0] if args else -1
        if not h.items:
            e.throw(st, IndexError)
        h = h.copy()
        v = h.items.pop(i)[1]
        st.heap[obj.id] = h
        return v
    if name == 'copy':
        return e.new(st, h.copy())
    raise Unsupported('list.%s' % name)


def list_extend(e, obj, src, st):
    if isinstance(src, Union):
        return e.split(st, src, lambda s, x: list_extend(e, obj, x, s))
    h = as_list(e, obj, st).copy()
    if isinstance(src, (Tup, list, tuple)):
        h.items += [(TRUE_, x) for x in (src.items if isinstance(src, Tup) else src)]
    elif isinstance(src, Ref) and isinstance(st.heap[src.id], HList) and st.heap[src.id].base is None:
        h.items += st.heap[src.id].items
    else:
        t = e.term(src, st)
        if h.base is None and not h.items:
            h = HList(t)
        else:
            old = e.term(obj, st)
            n = EXT(old, t)
            e.fact(KIND(n) == 4, n != NULL, NE(n) == z3.Or(NE(old), NE(t)))
            h = HList(n)
    st.heap[obj.id] = h


def set_and(e, a, b, st):
    def parts(x):
        if isinstance(x, (set, frozenset)):
            return 'native', x
        if isinstance(x, Ref) and isinstance(st.heap[x.id], HList) and st.heap[x.id].bag:
            return 'list', st.heap[x.id]
        raise Unsupported('&')

    (ka, xa), (kb, xb) = parts(a), parts(b)
    if ka == 'native':
        (ka, xa), (kb, xb), a, b = (kb, xb), (ka, xa), b, a
    if kb == 'native':
        items = [(z3.simplify(contains(e, a, c, st)), c) for c in sorted(xb)]
        return e.new(st, HList(None, [(g, c) for g, c in items if not z3.is_false(g)], bag=True))
    if kb == 'list' and xb.base is None:
        items = [(z3.simplify(land(g, contains(e, a, c, st))), c) for g, c in xb.items]
        return e.new(st, HList(None, [(g, c) for g, c in items if not z3.is_false(g)], bag=True))
    raise Unsupported('&')


#
# builtin functions
#

def install(e):
    import weakref
    m = e.models
    m[getattr] = lambda e, a, kw, st: getattr_(e, a[0], a[1], st, a[2] if len(a) > 2 else MISSING)
    m[setattr] = lambda e, a, kw, st: setattr_(e, a[0], a[1], a[2], st)
    m[hasattr] = hasattr_
    m[isinstance] = lambda e, a, kw, st: e.boolean(isinstance_(e, a[0], a[1], st))
    m[issubclass] = issubclass_
    m[len] = len_
    m[bool] = lambda e, a, kw, st: e.boolean(e.truth(a[0], st)) if a else False
    m[str] = str_
    m[int] = lambda e, a, kw, st: convert(e, 'int', a, st)
    m[float] = lambda e, a, kw, st: convert(e, 'float', a, st)
    m[decimal.Decimal] = lambda e, a, kw, st: convert(e, 'Decimal', a, st)
    m[type] = type_
    m[dict] = dict_
    m[list] = list_
    m[tuple] = list_
    m[set] = set_
    m[frozenset] = set_
    m[iter] = lambda e, a, kw, st: a[0]
    m[callable] = callable_
    m[enumerate] = lambda e, a, kw, st: Items('enumerate', a[0], a[1] if len(a) > 1 else kw.get('start', 0))
    m[zip] = lambda e, a, kw, st: Items('zip', list(a))
    m[map] = map_
    m[range] = range_
    m[six.iteritems] = lambda e, a, kw, st: Items('items', a[0])
    m[six.iterkeys] = lambda e, a, kw, st: Items('keys', a[0])
    m[six.itervalues] = lambda e, a, kw, st: Items('values', a[0])
    m[six.viewitems] = lambda e, a, kw, st: Items('items', a[0])
    m[copy.deepcopy] = lambda e, a, kw, st: copy_value(e, a[0], st, True)
    m[copy.copy] = lambda e, a, kw, st: copy_value(e, a[0], st, False)
    m[any] = lambda e, a, kw, st: quantifier(e, a[0], st, False)
    m[all] = lambda e, a, kw, st: quantifier(e, a[0], st, True)
    m[six.moves.urllib.parse.urlsplit] = lambda e, a, kw, st: urlparse(e, a[0], st, 5)
    m[six.moves.urllib.parse.urlparse] = lambda e, a, kw, st: urlparse(e, a[0], st, 6)
    m[six.moves.urllib.parse.urlunsplit] = urlunsplit
    m[six.moves.urllib.parse.urlunparse] = urlunsplit
    m[weakref.proxy] = lambda e, a, kw, st: a[0]


SPLIT = {5: ['scheme', 'netloc', 'path', 'query', 'fragment'],
         6: ['scheme', 'netloc', 'path', 'params', 'query', 'fragment']}


def urlparse(e, v, st, n):
    if not isinstance(v, SV):
        return NotImplemented
    if isinstance(v, Union):
        v = Sym(e.term(v, st), T.STR)
    t = e.term(v, st)
    items = []
    for name in SPLIT[n]:
        x = e.app(('url_' if name != 'path' else 'url%d_' % n) + name, t)
        e.fact(KIND(x) == 2, x != NULL)
        items.append(Sym(x, T.STR))
    return Tup(items, SPLIT[n])


def urlunsplit(e, a, kw, st):
    x = a[0]
    if isinstance(x, (tuple, list)) and not isinstance(x, SV):
        if all(e.native(y, st) for y in x):
            return NotImplemented
        x = Tup(list(x))
    if isinstance(x, Ref):
        h = st.heap[x.id]
        x = Tup([v for _, v in h.items])
    if not isinstance(x, Tup):
        raise Unsupported('urlunsplit')
    out = e.app('urlunsplit%d' % len(x.items), *[e.lit('') if v is None else ite(e.term(v, st) == NULL, e.lit(''), e.term(v, st))
                                                for v in x.items])
    e.fact(KIND(out) == 2, out != NULL)
    if len(x.items) == 5:
        # a network location, or a path, is part of the result
        e.fact(z3.Implies(z3.Or(out.arg(1) != e.lit(''), out.arg(2) != e.lit('')), out != e.lit('')))
    return Sym(out, T.STR)


def hasattr_(e, a, kw, st):
    obj, name = a
    if isinstance(obj, Union):
        return e.split(st, obj, lambda s, x: hasattr_(e, [x, name], kw, s))
    if isinstance(obj, (View, Cont)):
        return hasattr(obj.cls, name)
    if isinstance(obj, Ref):
        h = st.heap[obj.id]
        if isinstance(h, HObj):
            return name in h.attrs or hasattr(h.cls, name)
        return hasattr({HDict: dict, HList: list}.get(type(h), object), name)
    if isinstance(obj, Thing):
        return obj.op(e, st, 'hasattr', name)
    if isinstance(obj, Sym):
        if obj.ty is not None and obj.ty.kind in ('str', 'num', 'bool'):
            return hasattr({'str': '', 'num': 0, 'bool': True}[obj.ty.kind], name)
        if name.startswith('_') or name in ('dump', 'set_parent', 'ref', 'compare', 'get_children', 'resolve'):
            return False
        raise Unsupported('hasattr')
    return hasattr(obj, name)


KIND_OF = {bool: 'bool', str: 'str', int: 'num', float: 'num', list: 'list', dict: 'dict'}
TY_OF = {'str': str, 'bool': bool, 'num': (int, float), 'field': list, 'list': list, 'map': dict, 'obj': dict, 'orref': dict}


def isinstance_(e, v, cls, st):
    if isinstance(cls, Tup):
        cls = tuple(cls.items)
    if isinstance(cls, tuple):
        flat = []
        for c in cls:
            flat += list(c) if isinstance(c, tuple) else [c]
        return lor(*[isinstance_(e, v, c, st) for c in flat])
    if not isinstance(cls, type):
        raise Unsupported('isinstance of %r' % (cls,))
    if isinstance(v, Union):
        return lor(*[land(g, isinstance_(e, x, cls, st)) for g, x in v.alts])
    if isinstance(v, Thing):
        return v.op(e, st, 'isinstance', cls)
    if isinstance(v, (View, Cont)):
        return boolval(issubclass(v.cls, cls))
    if isinstance(v, BoolV):
        return boolval(cls in (bool, int, object))
    if isinstance(v, IntV):
        return boolval(cls in (int, object))
    if isinstance(v, Tup):
        return boolval(cls in (tuple, object))
    if isinstance(v, Ref):
        h = st.heap[v.id]
        if isinstance(h, HObj):
            return boolval(issubclass(h.cls, cls))
        if isinstance(h, HDict):
            return boolval(cls in (dict, object))
        if isinstance(h, HList):
            return boolval(cls in (list, object))
        return isinstance_(e, Sym(h.base), cls, st)
    if isinstance(v, Sym):
        if cls is object:
            return boolval(True)
        if cls not in KIND_OF:
            return boolval(False)
        k = v.ty.kind if v.ty is not None else None
        if k in TY_OF:
            own = TY_OF[k]
            if k == 'bool' and cls is int:
                return v.t != NULL
            if k == 'num':
                if cls is int or cls is float:
                    return land(v.t != NULL, e.app('is_' + cls.__name__, v.t, sort=B))
                return boolval(False)
            return land(v.t != NULL, boolval(own is cls))
        if cls is int:
            return lor(KIND(v.t) == 1, land(KIND(v.t) == 3, e.app('is_int', v.t, sort=B)))
        if cls is float:
            return land(KIND(v.t) == 3, e.app('is_float', v.t, sort=B))
        return KIND(v.t) == KINDS[KIND_OF[cls]]
    if isinstance(v, SV):
        return boolval(False)
    return boolval(isinstance(v, cls))


def issubclass_(e, a, kw, st):
    c, base = a
    if isinstance(base, Tup):
        base = tuple(base.items)
    if isinstance(c, SV):
        raise Unsupported('issubclass')
    return issubclass(c, base)


def type_(e, a, kw, st):
    if len(a) != 1:
        return NotImplemented
    v = a[0]
    if isinstance(v, (View, Cont)):
        return v.cls
    if isinstance(v, Ref):
        h = st.heap[v.id]
        if isinstance(h, HObj):
            return h.cls
        if isinstance(h, HDict):
            return dict
        if isinstance(h, HList):
            return list
    if isinstance(v, Thing):
        return v.op(e, st, 'type')
    if isinstance(v, SV):
        return Thing('type', type_thing, v)
    return type(v)


def type_thing(e, st, op, *args):
    if op == 'getattr':
        return opaque(e, 'typename')
    raise Unsupported('type of a value: %s' % op)


def callable_(e, a, kw, st):
    if isinstance(a[0], (Bound, Closure)):
        return True
    return NotImplemented


def len_(e, a, kw, st):
    v = a[0]
    if isinstance(v, Union):
        return e.split(st, v, lambda s, x: len_(e, [x], kw, s))
    if isinstance(v, Items):
        return len_(e, [v.of], kw, st)
    if isinstance(v, Tup):
        return len(v.items)
    if isinstance(v, Ref):
        h = st.heap[v.id]
        looked_at(e, v)
        if isinstance(h, HList) and h.base is None:
            if all(z3.is_true(g) for g, _ in h.items):
                return len(h.items)
            return IntV(z3.Sum([z3.If(g, 1, 0) for g, _ in h.items]))
        t = e.term(v, st)
    elif isinstance(v, Thing):
        return v.op(e, st, 'len')
    elif isinstance(v, SV):
        t = e.term(v, st)
        if isinstance(v, Sym):
            e.raise_if(st, v.t == NULL, TypeError)
    else:
        return len(v)
    e.fact(LEN(t) >= 0, (LEN(t) > 0) == NE(t))
    return IntV(LEN(t))


def str_(e, a, kw, st):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, Sym) and v.ty is not None and v.ty.kind == 'str':
        return v
    if isinstance(v, Union):
        return e.split(st, v, lambda s, x: str_(e, [x], kw, s))
    if not isinstance(v, SV):
        return str(v)
    if isinstance(v, (View, Cont, Thing, Closure)):
        return opaque(e, 'shown')
    t = e.app('str', e.term(v, st))
    e.fact(KIND(t) == 2, t != NULL)
    return Sym(t, T.STR)


def convert(e, name, a, st):
    if not a:
        return NotImplemented
    v = a[0]
    if isinstance(v, Union):
        return e.split(st, v, lambda s, x: convert(e, name, [x], s))
    if not isinstance(v, SV):
        return NotImplemented
    t = e.term(v, st)
    e.raise_if(st, lnot(e.app('can_%s' % name, t, sort=B)), ValueError)
    out = e.app('to_%s' % name, t)
    e.fact(KIND(out) == 3)
    return Sym(out, T.NUM)


def dict_(e, a, kw, st):
    r = e.new(st, HDict())
    for x in a:
        if isinstance(x, Items) or isinstance(x, Ref) and isinstance(st.heap[x.id], HList):
            raise Unsupported('dict of pairs')
        dict_update(e, r, x if not isinstance(x, Cont) else x.raw, st)
    for k, v in kw.items():
        setitem(e, r, k, v, st)
    return r


def list_(e, a, kw, st):
    if not a:
        return e.new(st, HList())
    v = a[0]
    if isinstance(v, Union):
        return e.split(st, v, lambda s, x: list_(e, [x], kw, s))
    if isinstance(v, Ref) and isinstance(st.heap[v.id], (HList, HUnk)):
        return e.new(st, as_list(e, v, st).copy())
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HDict):
        v = Items('keys', v)
    if not isinstance(v, SV):
        vals = sorted(v, key=str) if isinstance(v, (set, frozenset)) else list(v)
        return e.new(st, HList(None, [(TRUE_, x) for x in vals]))
    if isinstance(v, Tup):
        return e.new(st, HList(None, [(TRUE_, x) for x in v.items]))
    if isinstance(v, Items):
        if v.kind == 'keys' and isinstance(v.of, Ref) and isinstance(st.heap[v.of.id], HDict) and \
                st.heap[v.of.id].base is None and not st.heap[v.of.id].dyn:
            return e.new(st, HList(None, [(g, k) for k, (g, _) in st.heap[v.of.id].ents.items() if not z3.is_false(g)]))
        if v.kind == 'keys':
            return e.new(st, HList(e.app('keys', e.term(v.of, st))))
        if v.kind == 'values':
            return e.new(st, HList(e.app('values', e.term(v.of, st))))
    if isinstance(v, (Sym, Cont)):
        return e.new(st, HList(e.term(v, st)))
    raise Unsupported('list of %r' % (v,))


def set_(e, a, kw, st):
    if not a:
        return e.new(st, HList(bag=True))
    v = a[0]
    if isinstance(v, Union):
        return e.split(st, v, lambda s, x: set_(e, [x], kw, s))
    if not isinstance(v, SV):
        return frozenset(v)
    r = list_(e, [v], kw, st)
    h = st.heap[r.id].copy()
    h.bag = True
    st.heap[r.id] = h
    return r


def map_(e, a, kw, st):
    from proof import loops
    if len(a) != 2:
        raise Unsupported('map')
    return loops.mapped(e, a[0], a[1], st)


def range_(e, a, kw, st):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    raise Unsupported('range')


def copy_value(e, v, st, deep, seen=None):
    seen = {} if seen is None else seen
    if isinstance(v, Union):
        return Union([(g, copy_value(e, x, st, deep, seen)) for g, x in v.alts])
    if isinstance(v, Tup):
        return Tup([copy_value(e, x, st, deep, seen) if deep else x for x in v.items], v.names)
    if isinstance(v, Ref):
        if v.id in seen:
            return seen[v.id]
        looked_at(e, v)
        h = st.heap[v.id].copy()
        r = Ref()
        seen[v.id] = r
        if not deep:
            shallow(e, v, r)
        if deep:
            if isinstance(h, HDict):
                h.ents = dict((k, (g, copy_value(e, x, st, deep, seen))) for k, (g, x) in h.ents.items())
                h.dyn = [(g, k, copy_value(e, x, st, deep, seen)) for g, k, x in h.dyn]
            elif isinstance(h, HList):
                h.items = [(g, copy_value(e, x, st, deep, seen)) for g, x in h.items]
            elif isinstance(h, HObj):
                raise Unsupported('deep copy of an object')
        st.heap[r.id] = h
        return r
    if isinstance(v, Sym) or isinstance(v, (BoolV, IntV)):
        return v
    if isinstance(v, SV):
        raise Unsupported('copy of %r' % v)
    if isinstance(v, dict):
        return dict_(e, [v], {}, st)
    if isinstance(v, list):
        return list_(e, [v], {}, st)
    return v


def quantifier(e, v, st, every):
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HList):
        h = st.heap[v.id]
        if h.base is None:
            if every:
                return e.boolean(land(*[z3.Implies(g, e.truth(x, st)) for g, x in h.items]))
            return e.boolean(lor(*[land(g, e.truth(x, st)) for g, x in h.items]))
        if not h.items:
            return BoolV(e.app('all' if every else 'any', h.base, sort=B))
    if isinstance(v, Tup):
        c = [e.truth(x, st) for x in v.items]
        return e.boolean(land(*c) if every else lor(*c))
    return NotImplemented


def construct(e, cls, args, kw, st):
    so = spec_obj()
    if issubclass(cls, BaseException):
        return Thing('exception', None, cls)
    hook = e.things.get(('new', cls)) or e.things.get(('new', cls.__name__))
    if hook is not None:
        ret = hook(e, cls, args, kw, st)
        if ret is not NotImplemented:
            return ret
    if issubclass(cls, so._Base):
        raw = args[0] if args else kw['spec']
        if isinstance(raw, Sym):
            return View(cls, raw) if issubclass(cls, so.Base2Obj) else Cont(cls, raw)
        if isinstance(raw, Ref):
            t = Sym(e.term(raw, st), None)
            return View(cls, t) if issubclass(cls, so.Base2Obj) else Cont(cls, t)
        raise Unsupported('construction of %s' % cls.__name__)
    if cls.__module__.startswith('pyopenapi') or cls.__module__.startswith('proof.specs'):
        r = e.new(st, HObj(cls))
        for c in cls.__mro__:
            if '__init__' in c.__dict__:
                init = c.__dict__['__init__']
                if isinstance(init, types.FunctionType):
                    e.call(Bound(r, '__init__', init), args, kw, st)
                break
        return r
    if all(e.native(x, st) for x in args) and all(e.native(x, st) for x in kw.values()):
        try:
            return cls(*args, **kw)
        except Exception as x:
            e.throw(st, type(x))
    raise Unsupported('construction of %s' % cls.__name__)
