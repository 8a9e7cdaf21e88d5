"""attributes, items, methods and builtins of the verifier with an explicit memory (dv.py)"""
import abc
import copy
import functools
import itertools
import inspect
import logging
import types
import weakref

import six
import z3

from proof.dv import *  # noqa
from proof.dv import _V  # noqa
from proof.values import Unsupported

INT, ISNUM = z3.Function('int_of', S, I), z3.Function('is_number', S, B)
NUM = z3.Function('str_of', I, S)
REPLACE = z3.Function('replace', S, S, S, S)


def concrete(i):
    return z3.is_int_value(i) and i.as_long() < 0


#
# attributes
#

def mro_lookup(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def obj_class(x):
    return x.kind[1] if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'obj' else None


def attr_kind(e, cls, name):
    for c in cls.__mro__:
        if name in e.fields.get(c, {}):
            return True, e.fields[c][name]
    return False, None


def getattr_(e, o, name, st, default=Ellipsis):
    out = []
    if isinstance(o, Z) or o is None:
        for s, x in e.some(st, o) if default is Ellipsis and name != '__class__' else maybe(e, o, st):
            if x is None and name == '__class__':
                out.append((s, type(None)))
            elif x is None:
                if default is Ellipsis or hasattr(None, name):
                    raise Unsupported('attribute of None')
                out.append((s, default))
            else:
                out += getattr_obj(e, x, name, s, default)
        return out
    if isinstance(o, Sup):
        mro = list(o.self.kind[1].__mro__)
        for c in mro[mro.index(o.cls) + 1:]:
            if name in c.__dict__:
                f = c.__dict__[name]
                if isinstance(f, types.FunctionType):
                    return [(st, Meth(o.self, name, f))]
                if c in (dict, list, object):
                    return [(st, Meth(Z(o.self.t, ({dict: 'dict', list: 'list', object: 'object'}[c],) + (
                        e.container.get(o.self.kind[1], (None,)))), name))]
                raise Unsupported('super().%s' % name)
        raise Unsupported('super().%s' % name)
    if isinstance(o, Tup):
        if o.names and name in o.names:
            return [(st, o.items[o.names.index(name)])]
        return [(st, Meth(o, name))]
    if isinstance(o, Exc):
        return [(st, e.fresh('exception_' + name))]
    if isinstance(o, (ZS, View)):
        return [(st, Meth(o, name))]
    if isinstance(o, SV):
        raise Unsupported('attribute %s of %r' % (name, o))
    if isinstance(o, (str, tuple, list, dict, set, frozenset)):
        return [(st, Meth(o, name))]
    if isinstance(o, logging.Logger):
        return [(st, Model(lambda e_, s_, a, k: [(s_, None)], 'log'))]
    for (cls, n), h in [x for x in e.attrs.items() if len(x[0]) == 2]:
        if n == name and (cls is o):
            return h(e, st, o)
    try:
        return [(st, getattr(o, name))]
    except AttributeError:
        if default is not Ellipsis:
            return [(st, default)]
        return e.throw(st, AttributeError)


def maybe(e, o, st):
    if o is None:
        return [(st, None)]
    out = []
    for s, none in e.fork(st, o.t == NONE):
        out.append((s, None if none else e.make(o.t, e.kind_at(s, o))))
    return out


def getattr_obj(e, x, name, st, default):
    cls = obj_class(x)
    if cls is None:
        if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] in ('list', 'dict', 'set', 'object') or isinstance(x, (ZS, Tup)):
            if default is not Ellipsis:
                natives = {'list': list, 'dict': dict, 'set': set, 'object': object}
                t = natives[x.kind[0]] if isinstance(x, Z) else str if isinstance(x, ZS) else tuple
                if not hasattr(t, name):
                    return [(st, default)]
            return [(st, Meth(x, name))]
        raise Unsupported('attribute %s of %r' % (name, x))
    if name == '__class__':
        if (cls, name) in e.attrs:
            return e.attrs[(cls, name)](e, st, x)
        return [(st, cls if isinstance(cls, type) else class_of(e, x, st))]
    for c in (cls.__mro__ if isinstance(cls, type) else (cls,)):
        if (c, name) in e.attrs:
            out = []
            for s, v in e.attrs[(c, name)](e, st, x):
                if v is Ellipsis and default is Ellipsis:
                    e.throw(s, AttributeError)
                else:
                    out.append((s, default if v is Ellipsis else v))
            return out
    if not isinstance(cls, type):
        if (cls, name) in e.methods:
            return [(st, Meth(x, name))]
        known, k = (name in e.fields.get(cls, {})), e.fields.get(cls, {}).get(name)
        if not known:
            raise Unsupported('attribute %s of %s' % (name, cls))
        return [(st, read_attr(e, x, name, k, st))]
    d = mro_lookup(cls, name)
    if isinstance(d, property):
        return e.calls(d.fget, [x], {}, st)
    known, k = attr_kind(e, cls, name)
    i = e.ident(x)
    if not known and concrete(i) and ('attr', i.as_long(), name) in st.keys:
        known = True
    if known:
        return [(st, read_attr(e, x, name, k, st))]
    if d is None:
        if default is not Ellipsis and not hasattr(cls, name) and cls in e.closed:
            return [(st, default)]
        if concrete(i) and default is Ellipsis:
            raise Unsupported('attribute %s of %s' % (name, cls.__name__))
        raise Unsupported('attribute %s of %s' % (name, cls.__name__))
    if isinstance(d, types.FunctionType):
        return [(st, Meth(x, name, d))]
    if isinstance(d, staticmethod):
        return [(st, d.__func__)]
    if isinstance(d, classmethod):
        return [(st, Meth(cls, name, d.__func__))]
    if isinstance(d, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        return [(st, Meth(x, name))]
    return [(st, d)]


def class_of(e, x, st):
    return Z(z3.Select(e.mem(st, 'attr.__class__'), e.ident(x)), 'cls')


def read_attr(e, x, name, k, st):
    i = e.ident(x)
    if concrete(i) and ('attr', i.as_long(), name) in st.keys:
        return st.keys[('attr', i.as_long(), name)]
    t = tidy(z3.Select(e.mem(st, 'attr.' + name), i))
    return e.read(t, k, st)


def setattr_(e, o, name, val, st):
    out = []
    for s, x in e.some(st, o) if isinstance(o, Z) else [(st, o)]:
        cls = obj_class(x)
        if cls is None:
            raise Unsupported('assignment to an attribute of %r' % (x,))
        if (cls, name, 'set') in e.attrs:
            out += [y for y, _ in e.attrs[(cls, name, 'set')](e, s, x, val)]
            continue
        d = mro_lookup(cls, name) if isinstance(cls, type) else None
        if isinstance(d, property):
            if d.fset is None:
                e.throw(s, AttributeError)
                continue
            out += [y for y, _ in e.calls(d.fset, [x, val], {}, s)]
            continue
        s = s.clone()
        i = e.ident(x)
        if concrete(i):
            s.keys[('attr', i.as_long(), name)] = val
        else:
            for key in [k for k in s.keys if k[0] == 'attr' and k[2] == name]:
                del s.keys[key]
        try:
            t = e.v(val, s)
        except Unsupported:
            if not concrete(i):
                raise
            t = e.fresh('opaque')
        e.put(s, 'attr.' + name, i, t)
        out.append(s)
    return out


#
# items
#

def native(x):
    return not isinstance(x, SV)


def index(e, q, k, st, exc=IndexError):
    """-> [(state, position)] of an index into a sequence"""
    n = length(q)
    i = e.i(k)
    out = []
    for s in e.guard(st, z3.Or(i >= n, i < -n), exc):
        out.append((s, tidy(z3.If(i < 0, n + i, i))))
    return out


def getitem(e, o, k, st):
    out = []
    for s, x in e.some(st, o, TypeError) if isinstance(o, Z) or o is None else [(st, o)]:
        if isinstance(x, Tup) and native(k):
            try:
                out.append((s, x.items[k]))
            except IndexError:
                e.throw(s, IndexError)
            continue
        if native(x):
            if native(k):
                try:
                    out.append((s, x[k]))
                except Exception as ex:
                    e.throw(s, type(ex))
                continue
            if isinstance(x, dict):
                for kk, vv in x.items():
                    c = e.eq(kk, k, s)
                    if e.feasible(s, c):
                        out.append((s.clone(c), vv))
                    s = s.clone(lnot(c))
                    if not e.feasible(s):
                        break
                else:
                    if e.feasible(s):
                        e.throw(s, KeyError)
                continue
            raise Unsupported('item of %r' % (x,))
        if isinstance(x, ZS):
            if not e.is_int(k):
                raise Unsupported('string index')
            n, i = z3.Length(x.t), e.i(k)
            for y in e.guard(s, z3.Or(i >= n, i < -n), IndexError):
                j = tidy(z3.If(i < 0, n + i, i))
                out.append((y, ZS(tidy(z3.SubString(x.t, j, 1)))))
            continue
        kind = x.kind[0] if isinstance(x, Z) and isinstance(x.kind, tuple) else None
        if kind == 'list':
            for y, kk in e.some(s, k, TypeError):
                if not e.is_int(kk):
                    e.throw(y, TypeError)
                    continue
                q = e.seq(x, y)
                for z, j in index(e, q, kk, y):
                    out.append((z, e.element(q, j, e.elem_kind(x, z), z)))
        elif kind == 'dict':
            key = e.v(k, s)
            for y in e.guard(s, lnot(z3.Select(e.has(x, s), key)), KeyError):
                out.append((y, entry(e, x, k, y)))
        elif kind == 'obj':
            out += e.method(x, '__getitem__', [k], {}, s)
        else:
            raise Unsupported('item of %r' % (x,))
    return out


def entry(e, x, k, st):
    """value of an entry that exists"""
    i = e.ident(x)
    key = e.v(k, st)
    if concrete(i) and z3.is_app(key):
        c = st.keys.get(('item', i.as_long(), key.sexpr()))
        if c is not None:
            return c[0]
    return e.read(tidy(z3.Select(e.val(x, st), key)), e.elem_kind(x, st), st, z3.Select(e.has(x, st), key))


def setitem(e, o, k, val, st):
    out = []
    for s, x in e.some(st, o, TypeError) if isinstance(o, Z) or o is None else [(st, o)]:
        kind = x.kind[0] if isinstance(x, Z) and isinstance(x.kind, tuple) else None
        if kind == 'dict':
            s = s.clone()
            key = e.v(k, s)
            i = e.ident(x)
            old_has, old_val = e.has(x, s), e.val(x, s)
            try:
                t = e.v(val, s)
            except Unsupported:
                if not concrete(i):
                    raise
                t = e.fresh('opaque')
            e.put(s, 'has', i, z3.Store(old_has, key, TRUE))
            e.put(s, 'val', i, z3.Store(old_val, key, t))
            forget_items(s, i, key)
            if concrete(i) and literal(key):
                s.keys[('item', i.as_long(), key.sexpr())] = (val,)
            e.note_kind(x, e.kind(val), s)
            out.append(s)
        elif kind == 'list':
            if not e.is_int(k):
                raise Unsupported('list index')
            q = e.seq(x, s)
            for y, j in index(e, q, k, s):
                y = y.clone()
                at, lo, hi, _ = fields(q)
                e.put(y, 'seq', e.ident(x), tidy(SEQ.mk(z3.Store(at, lo + j, e.v(val, y)), lo, hi, e.fresh('elements', SET))))
                e.note_kind(x, e.kind(val), y)
                out.append(y)
        elif kind == 'obj':
            out += [y for y, _ in e.method(x, '__setitem__', [k, val], {}, s)]
        else:
            raise Unsupported('assignment to an item of %r' % (x,))
    return out


def literal(key):
    return z3.is_app(key) and key.decl().eq(V.str) and z3.is_string_value(key.arg(0))


def forget_items(st, i, key):
    """what is known exactly about the entries of a dict that changes"""
    for k in [k for k in st.keys if k[0] == 'item' and (not concrete(i) or k[1] == i.as_long() and not literal(key))]:
        del st.keys[k]


def delitem(e, o, k, st):
    out = []
    for s, x in e.some(st, o, TypeError):
        kind = x.kind[0] if isinstance(x, Z) and isinstance(x.kind, tuple) else None
        if kind != 'dict':
            raise Unsupported('del of an item of %r' % (x,))
        key = e.v(k, s)
        for y in e.guard(s, lnot(z3.Select(e.has(x, s), key)), KeyError):
            y = y.clone()
            i = e.ident(x)
            e.put(y, 'has', i, z3.Store(e.has(x, y), key, FALSE))
            for kk in [c for c in y.keys if c[0] == 'item' and (not concrete(i) or c[1] == i.as_long())]:
                del y.keys[kk]
            out.append(y)
    return out


def slice_(e, o, lo, hi, step, st):
    if step is not None:
        raise Unsupported('slice with a step')
    out = []
    for s, x in e.some(st, o, TypeError) if isinstance(o, Z) or o is None else [(st, o)]:
        if native(x) and native(lo) and native(hi):
            out.append((s, x[lo:hi]))
            continue
        if isinstance(x, (Tup, tuple)) and native(lo) and native(hi):
            items = x.items if isinstance(x, Tup) else x
            out.append((s, Tup(items[lo:hi])))
            continue
        if e.is_str(x):
            t = e.s(x)
            n = z3.Length(t)
        elif e.is_list(x):
            t = e.seq(x, s)
            n = length(t)
        else:
            raise Unsupported('slice of %r' % (x,))

        def bound(b, dflt):
            if b is None:
                return dflt
            if not e.is_int(b):
                raise Unsupported('slice bound %r' % (b,))
            b = e.i(b)
            b = z3.If(b < 0, z3.If(b + n < 0, z3.IntVal(0), b + n), z3.If(b > n, n, b))
            return tidy(b)
        if e.is_str(x) and hi is None and e.tail is not None and e.is_int(lo):
            # the unit asked for it and gives its lemmas
            out.append((s, ZS(e.tail(t, e.i(lo)))))
            continue
        a, b = bound(lo, z3.IntVal(0)), bound(hi, n)
        if e.is_str(x):
            r = tidy(z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal('')))
            out.append((s, ZS(r)))
        else:
            s = s.clone()
            y = e.new(s, ('list', None), e.part(t, a, tidy(z3.If(b > a, b, a))))
            s.ek[e.ident(y).as_long()] = e.elem_kind(x, s)
            out.append((s, y))
    return out


#
# methods
#

def method(e, o, name, args, kw, st):
    if isinstance(o, type):
        raise Unsupported('method %s of a class' % name)
    if isinstance(o, Z) and o.kind == 'str':
        return [r for s, x in e.some(st, o) for r in method(e, x, name, args, kw, s)]
    if e.is_str(o):
        return str_method(e, o, name, args, kw, st)
    if isinstance(o, View):
        raise Unsupported('method %s of a view' % name)
    if isinstance(o, Tup):
        if name == 'index' and len(args) == 1:
            out = []
            s = st
            for i, y in enumerate(o.items):
                c = e.eq(y, args[0], s)
                if e.feasible(s, c):
                    out.append((s.clone(c), i))
                s = s.clone(lnot(c))
                if not e.feasible(s):
                    return out
            e.throw(s, ValueError)
            return out
        raise Unsupported('method %s of a tuple' % name)
    if isinstance(o, Z):
        kind = o.kind[0] if isinstance(o.kind, tuple) else None
        if kind == 'obj':
            cls = o.kind[1]
            for c in (cls.__mro__ if isinstance(cls, type) else (cls,)):
                if (c, name) in e.methods:
                    return e.methods[(c, name)](e, st, o, args, kw)
            if isinstance(cls, type):
                d = mro_lookup(cls, name)
                if isinstance(d, types.FunctionType):
                    return e.calls(d, [o] + list(args), kw, st)
                for base, k in ((dict, 'dict'), (list, 'list')):
                    if base in cls.__mro__ and d is base.__dict__.get(name):
                        return method(e, Z(o.t, (k,) + e.container.get(cls, (None,))), name, args, kw, st)
            raise Unsupported('method %s of %r' % (name, o))
        f = {'list': list_method, 'dict': dict_method, 'set': set_method}.get(kind)
        if f:
            return f(e, o, name, args, kw, st)
        raise Unsupported('method %s of %r' % (name, o))
    if native(o):
        if not any(e.symbolic(x) for x in list(args) + list(kw.values())):
            if isinstance(o, (list, dict, set)) and name not in ('get', 'keys', 'items', 'values', 'index', 'copy', '__getitem__'):
                raise Unsupported('change of a global container')
            try:
                return [(st, getattr(o, name)(*args, **kw))]
            except Exception as x:
                return e.throw(st, type(x))
        if isinstance(o, dict) and name == 'get':
            out = []
            d = args[1] if len(args) > 1 else None
            s = st
            for kk, vv in o.items():
                c = e.eq(kk, args[0], s)
                if e.feasible(s, c):
                    out.append((s.clone(c), vv))
                s = s.clone(lnot(c))
                if not e.feasible(s):
                    return out
            out.append((s, d))
            return out
        if isinstance(o, (list, tuple)) and name == 'index':
            return method(e, Tup(list(o)), name, args, kw, st)
    raise Unsupported('method %s of %r' % (name, o))


def split_facts(e, s, sep, n, q, last=False):
    """what is known about s.split(sep, n) or s.rsplit(sep, n)"""
    n0 = tidy(n)
    e.fact(length(q) >= 1, SEQ.lo(q) == 0, JOIN(sep, q) == s)
    e.fact(z3.Implies(z3.Not(z3.Contains(s, sep)), z3.And(length(q) == 1, nth(q, z3.IntVal(0)) == V.str(s))))
    if z3.is_int_value(n0):
        m = n0.as_long()
        if m >= 0:
            e.fact(length(q) <= m + 1)
        if m != 0:
            e.fact(z3.Implies(z3.Contains(s, sep), length(q) >= 2))
        for i in (z3.IntVal(0), length(q) - 1):
            if not (m >= 0 and z3.is_int_value(i) == last):
                e.fact(z3.Implies(z3.Length(sep) > 0, z3.Not(z3.Contains(V.s(nth(q, i)), sep))))
            e.fact(V.is_str(nth(q, i)))
        if m == 1:
            a, b = V.s(nth(q, z3.IntVal(0))), V.s(nth(q, z3.IntVal(1)))
            e.fact(z3.Implies(z3.Contains(s, sep), z3.And(s == z3.Concat(a, sep, b), V.is_str(nth(q, z3.IntVal(1))))))
    if not last:
        i = z3.IndexOf(s, sep, 0)
        e.fact(z3.Implies(z3.And(z3.Contains(s, sep), length(q) >= 2), V.s(nth(q, z3.IntVal(0))) == z3.SubString(s, 0, i)))
    else:
        l = V.s(nth(q, length(q) - 1))
        e.fact(z3.SuffixOf(l, s))


def cat(ts):
    """one after the other"""
    ts = [t for t in ts if not (z3.is_string_value(t) and t.as_string() == '')]
    return z3.StringVal('') if not ts else ts[0] if len(ts) == 1 else z3.Concat(*ts)


def str_method(e, o, name, args, kw, st):
    if native(o) and not any(e.symbolic(x) for x in list(args) + list(kw.values())):
        try:
            return [(st, getattr(o, name)(*args, **kw))]
        except Exception as x:
            return e.throw(st, type(x))
    t = e.s(o)
    if name == 'join' and len(args) == 1:
        return [(s, ZS(r)) for s, r in join(e, t, args[0], st)]
    if name in ('format',):
        pieces = o.split('{}') if native(o) else []
        if len(pieces) == len(args) + 1 and not kw and not any(c in x for x in pieces for c in '{}') and all(e.is_str(x) for x in args):
            ts = [z3.StringVal(pieces[0])]
            for a, x in zip(args, pieces[1:]):
                ts += [e.s(a), z3.StringVal(x)]
            return [(st, ZS(cat(ts)))]
        return [(st, ZS(e.fresh('text', S)))]
    if kw:
        raise Unsupported('keyword arguments of str.%s' % name)
    live = [(st, [])]
    for a in args:
        live = [(y, xs + [x]) for s, xs in live for y, x in (e.some(s, a, TypeError) if a is None or isinstance(a, Z) else [(s, a)])]
    out = []
    for s, xs in live:
        if name in ('startswith', 'endswith'):
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            if len(xs) == 1 and e.is_str(xs[0]):
                out.append((s, e.boolean(f(e.s(xs[0]), t))))
                continue
            if len(xs) == 1 and isinstance(xs[0], (tuple, Tup)):
                items = xs[0].items if isinstance(xs[0], Tup) else xs[0]
                out.append((s, e.boolean(lor(*[f(e.s(y), t) for y in items]))))
                continue
        elif name == 'find' and len(xs) in (1, 2):
            out.append((s, ZI(tidy(z3.IndexOf(t, e.s(xs[0]), e.i(xs[1]) if len(xs) > 1 else z3.IntVal(0))))))
            continue
        elif name in ('split', 'rsplit') and xs and e.is_str(xs[0]):
            sep = e.s(xs[0])
            n = e.i(xs[1]) if len(xs) > 1 else z3.IntVal(-1)
            F = SPLIT if name == 'split' else RSPLIT
            if name == 'rsplit' and z3.is_int_value(n) and n.as_long() < 0:
                F = SPLIT
            for y in e.guard(s, z3.Length(sep) == 0, ValueError):
                q = F(t, sep, n)
                split_facts(e, t, sep, n, q, F is RSPLIT)
                y = y.clone()
                r = e.new(y, ('list', None), q)
                y.ek[e.ident(r).as_long()] = 'str'
                out.append((y, r))
            continue
        elif name == 'replace' and len(xs) == 2:
            out.append((s, ZS(REPLACE(t, e.s(xs[0]), e.s(xs[1])))))
            continue
        elif name in ('strip', 'lower', 'upper', 'title', 'decode', 'encode') and all(native(x) for x in xs):
            f = z3.Function('str_%s_%s' % (name, '_'.join(str(x) for x in xs)), S, S)
            out.append((s, ZS(f(t))))
            continue
        elif name == '__contains__':
            out.append((s, e.boolean(z3.Contains(t, e.s(xs[0])))))
            continue
        raise Unsupported('str.%s' % name)
    return out


def join(e, sep, x, st):
    if isinstance(x, (Tup, tuple, list)):
        items = x.items if isinstance(x, Tup) else list(x)
        return [(st, join_terms(sep, [e.s(y) for y in items]))]
    out = []
    for s, y in e.some(st, x, TypeError):
        if not e.is_list(y):
            raise Unsupported('join of %r' % (y,))
        q = e.seq(y, s)
        items = units(q)
        if items is not None:
            out.append((s, join_terms(sep, [tidy(V.s(i)) for i in items])))
            continue
        r = JOIN(sep, q)
        out.append((s, r))
        e.on_join(sep, q, r)
    return out


def join_terms(sep, ts):
    if not ts:
        return z3.StringVal('')
    parts = [ts[0]]
    for t in ts[1:]:
        parts += [sep, t]
    return tidy(z3.Concat(*parts)) if len(parts) > 1 else parts[0]


def units(q):
    """elements of a list of known length, or None"""
    n = tidy(length(q))
    if not z3.is_int_value(n) or n.as_long() > 64:
        return None
    return [nth(q, z3.IntVal(i)) for i in range(n.as_long())]


def list_method(e, o, name, args, kw, st):
    out = []
    for s, x in e.some(st, o):
        q = e.seq(x, s)
        i = e.ident(x)
        if name == 'append' and len(args) == 1:
            s = s.clone()
            e.put(s, 'seq', i, append(q, e.v(args[0], s)))
            e.note_kind(x, e.kind(args[0]), s)
            out.append((s, None))
        elif name == 'extend' and len(args) == 1:
            for y, r, k in sequence(e, args[0], s):
                y = y.clone()
                e.put(y, 'seq', i, e.concat(q, r))
                if units(r) != []:
                    e.note_kind(x, k, y)
                out.append((y, None))
        elif name == 'pop' and len(args) <= 1:
            k = args[0] if args else -1
            for y in e.guard(s, length(q) <= 0, IndexError):
                for z, j in index(e, q, k, y):
                    z = z.clone()
                    n = length(q)
                    if z3.is_int_value(j) and j.as_long() == 0:
                        rest = e.part(q, z3.IntVal(1), n)
                    elif not args or native(k) and k == -1:
                        rest = e.part(q, z3.IntVal(0), n - 1)
                    else:
                        raise Unsupported('pop from the middle of a list')
                    el = e.element(q, j, e.elem_kind(x, z), z)
                    e.put(z, 'seq', i, tidy(rest))
                    out.append((z, el))
        elif name == 'insert' and len(args) == 2 and native(args[0]) and args[0] == 0:
            s = s.clone()
            e.put(s, 'seq', i, prepend(q, e.v(args[1], s)))
            e.note_kind(x, e.kind(args[1]), s)
            out.append((s, None))
        elif name == 'index' and len(args) == 1:
            t = e.v(args[0], s)
            for y in e.guard(s, lnot(e.member(q, t)), ValueError):
                w = e.fresh('index', I)
                i = z3.Int('i')
                y.pc += (0 <= w, w < length(q), nth(q, w) == t, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w), nth(q, i) != t)))
                out.append((y, ZI(w)))
        elif name == '__contains__':
            out.append((s, e.boolean(e.contains(x, args[0], s))))
        elif name == 'copy' and not args:
            out += copied(e, x, s)
        elif name == '__getitem__':
            out += getitem(e, x, args[0], s)
        elif name == '__len__':
            out.append((s, ZI(length(q))))
        else:
            raise Unsupported('list.%s' % name)
    return out


def copied(e, x, st):
    st = st.clone()
    k = x.kind[0]
    if k == 'list':
        r = e.new(st, ('list', None), e.seq(x, st))
    else:
        r = e.new(st, (k, None), (e.has(x, st), e.val(x, st)))
    st.ek[e.ident(r).as_long()] = e.elem_kind(x, st)
    return [(st, r)]


def sequence(e, x, st):
    """-> [(state, sequence term, kind)]"""
    if isinstance(x, (Tup, tuple, list)):
        items = x.items if isinstance(x, Tup) else list(x)
        ks = set(e.kind(y) for y in items)
        return [(st, listing([e.v(y, st) for y in items]), ks.pop() if len(ks) == 1 else None)]
    if isinstance(x, Z):
        out = []
        for s, y in e.some(st, x, TypeError):
            if e.is_list(y):
                out.append((s, e.seq(y, s), e.elem_kind(y, s)))
            else:
                from proof import dvloops
                out += dvloops.as_sequence(e, y, s)
        return out
    from proof import dvloops
    return dvloops.as_sequence(e, x, st)


def dict_method(e, o, name, args, kw, st):
    if kw:
        raise Unsupported('keyword arguments of dict.%s' % name)
    out = []
    for s, x in e.some(st, o):
        if name in ('keys', 'values', 'items', 'iteritems', 'itervalues', 'iterkeys'):
            out.append((s, View(name.replace('iter', ''), x)))
        elif name == 'get':
            key = e.v(args[0], s)
            d = args[1] if len(args) > 1 else None
            for y, there in e.fork(s, z3.Select(e.has(x, s), key)):
                out.append((y, entry(e, x, args[0], y) if there else d))
            out = join_get(e, out) if len(args) < 3 else out
        elif name == 'setdefault':
            key = e.v(args[0], s)
            d = args[1] if len(args) > 1 else None
            for y, there in e.fork(s, z3.Select(e.has(x, s), key)):
                if there:
                    out.append((y, entry(e, x, args[0], y)))
                else:
                    out += [(z, d) for z in setitem(e, x, args[0], d, y)]
        elif name == 'update' and len(args) == 1:
            out += update(e, x, args[0], s)
        elif name == 'pop':
            key = e.v(args[0], s)
            for y, there in e.fork(s, z3.Select(e.has(x, s), key)):
                if there:
                    v = entry(e, x, args[0], y)
                    out += [(z, v) for z in delitem(e, x, args[0], y)]
                elif len(args) > 1:
                    out.append((y, args[1]))
                else:
                    e.throw(y, KeyError)
        elif name == 'copy' and not args:
            out += copied(e, x, s)
        elif name == '__getitem__':
            out += getitem(e, x, args[0], s)
        elif name == '__setitem__':
            out += [(y, None) for y in setitem(e, x, args[0], args[1], s)]
        elif name == '__contains__':
            out.append((s, e.boolean(e.contains(x, args[0], s))))
        elif name == '__init__' and not args:
            out.append((s, None))
        else:
            raise Unsupported('dict.%s' % name)
    return out


def join_get(e, pairs):
    return pairs


def update(e, x, src, st):
    if isinstance(src, dict):
        live = [st]
        for k, v in src.items():
            live = [z for y in live for z in setitem(e, x, k, v, y)]
        return [(y, None) for y in live]
    out = []
    for s, y in e.some(st, src, TypeError):
        if not e.is_dict(y):
            raise Unsupported('update with %r' % (y,))
        ks = stores(e.has(y, s))
        if ks is not None:
            live = [s]
            for k in ks:
                kk = e.make(k, e.kind_of_term(k))
                live = [b for a in live for b in setitem(e, x, kk, entry(e, y, kk, a), a)]
            out += [(a, None) for a in live]
            continue
        s = s.clone()
        h1, v1, h2, v2 = e.has(x, s), e.val(x, s), e.has(y, s), e.val(y, s)
        i = e.ident(x)
        v = e.fresh('updated', MAP)
        k = z3.Const('k', V)
        e.fact(z3.ForAll([k], z3.Select(v, k) == z3.If(z3.Select(h2, k), z3.Select(v2, k), z3.Select(v1, k)),
                         patterns=[z3.Select(v, k)]))
        e.put(s, 'has', i, z3.SetUnion(h1, h2))
        e.put(s, 'val', i, v)
        for key in [c for c in s.keys if c[0] == 'item']:
            del s.keys[key]
        k1, k2 = e.elem_kind(x, s), e.elem_kind(y, s)
        if concrete(i):
            s.ek[i.as_long()] = k2 if h1.eq(NOTHING) or k1 == k2 else None
        out.append((s, None))
    return out


def stores(h):
    """keys of a set that is known, in order, or None"""
    ks = []
    while z3.is_store(h):
        if not z3.is_true(h.arg(2)):
            return None
        ks.insert(0, h.arg(1))
        h = h.arg(0)
    return ks if z3.is_K(h) and z3.is_false(h.arg(0)) else None


def set_method(e, o, name, args, kw, st):
    out = []
    for s, x in e.some(st, o):
        i = e.ident(x)
        if name in ('add', 'discard', 'remove') and len(args) == 1:
            key = e.v(args[0], s)
            for y in (e.guard(s, lnot(z3.Select(e.has(x, s), key)), KeyError) if name == 'remove' else [s]):
                y = y.clone()
                e.put(y, 'has', i, z3.Store(e.has(x, y), key, z3.BoolVal(name == 'add')))
                if name == 'add':
                    e.note_kind(x, e.kind(args[0]), y)
                out.append((y, None))
        elif name == '__contains__':
            out.append((s, e.boolean(e.contains(x, args[0], s))))
        else:
            raise Unsupported('set.%s' % name)
    return out


#
# builtins
#

def m_len(e, st, a, kw):
    out = []
    for s, x in e.some(st, a[0], TypeError) if isinstance(a[0], Z) or a[0] is None else [(st, a[0])]:
        if native(x):
            out.append((s, len(x)))
        elif isinstance(x, ZS):
            out.append((s, ZI(z3.Length(x.t))))
        elif isinstance(x, Tup):
            out.append((s, len(x.items)))
        elif e.is_list(x):
            out.append((s, ZI(tidy(length(e.seq(x, s))))))
        elif isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] in ('dict', 'set'):
            h = e.has(x, s)
            e.fact(CARD(h) >= 0, (CARD(h) == 0) == (h == NOTHING))
            out.append((s, ZI(CARD(h))))
        elif isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'obj':
            out += e.method(x, '__len__', [], {}, s)
        else:
            raise Unsupported('len of %r' % (x,))
    return out


def is_instance(e, st, x, cls):
    """-> z3 Bool"""
    if isinstance(cls, (tuple, Tup)):
        return lor(*[is_instance(e, st, x, c) for c in (cls.items if isinstance(cls, Tup) else cls)])
    if isinstance(cls, Z):
        raise Unsupported('isinstance with a symbolic class')
    if native(x):
        return z3.BoolVal(isinstance(x, cls))
    if isinstance(x, Tup):
        return z3.BoolVal(cls in (tuple, x.cls, object))
    if isinstance(x, ZS):
        return z3.BoolVal(cls in (str, object))
    if isinstance(x, ZI):
        return z3.BoolVal(cls in (int, object))
    if isinstance(x, ZB):
        return z3.BoolVal(cls in (bool, int, object))
    if isinstance(x, (Clo, Meth)):
        return z3.BoolVal(cls in (types.FunctionType, object))
    if not isinstance(x, Z):
        raise Unsupported('isinstance of %r' % (x,))
    if cls is object:
        return TRUE
    t = x.t
    k = x.kind
    if isinstance(k, tuple) and k[0] == 'obj':
        r = e.instance(x, cls, st)
        if r is not None:
            return land(t != NONE, r)
    if cls is str:
        return V.is_str(t)
    if cls is int:
        return z3.Or(V.is_int(t), V.is_bool(t))
    if cls is bool:
        return V.is_bool(t)
    if isinstance(k, tuple) and k[0] == 'list' and len(k) > 2 and k[2] == 'tuple':
        return z3.BoolVal(cls is tuple)
    if cls is list:
        return land(V.is_ref(t), ISLIST(V.id(t)))
    if cls is dict:
        return land(V.is_ref(t), ISDICT(V.id(t)))
    if cls is bytes:
        return land(V.is_ref(t), ISA(V.id(t), z3.IntVal(e.code(bytes))))
    if isinstance(k, tuple) or k in ('str', 'int', 'bool'):
        if cls in (tuple, set, float, type):
            return z3.BoolVal(isinstance(k, tuple) and {'tup': tuple, 'set': set}.get(k[0]) is cls)
        return FALSE
    if isinstance(cls, type):
        return land(V.is_ref(t), z3.Not(ISLIST(V.id(t))), z3.Not(ISDICT(V.id(t))), ISA(V.id(t), z3.IntVal(e.code(cls))))
    raise Unsupported('isinstance with %r' % (cls,))


def m_isinstance(e, st, a, kw):
    c = is_instance(e, st, a[0], a[1])
    return [(st, e.boolean(c))]


def m_issubclass(e, st, a, kw):
    if native(a[0]):
        cls = a[1].items if isinstance(a[1], Tup) else a[1]
        return [(st, issubclass(a[0], tuple(cls) if isinstance(cls, list) else cls))]
    if isinstance(a[0], Model) and a[0].name == 'type':
        return m_isinstance(e, st, [a[0].fn, a[1]], kw)
    raise Unsupported('issubclass of %r' % (a[0],))


def m_getattr(e, st, a, kw):
    if not native(a[1]):
        return e.dynamic_attr(st, a)
    return e.getattr(a[0], a[1], st, a[2] if len(a) > 2 else Ellipsis)


def m_hasattr(e, st, a, kw):
    x = a[0]
    if native(x):
        return [(st, hasattr(x, a[1]))]
    if isinstance(x, (ZS, Tup)):
        return [(st, hasattr(str if isinstance(x, ZS) else tuple, a[1]))]
    c = e.has_attr(x, a[1], st)
    if c is None:
        raise Unsupported('hasattr of %r' % (x,))
    return [(st, e.boolean(c))]


def m_setattr(e, st, a, kw):
    if not native(a[1]):
        raise Unsupported('setattr of a symbolic name')
    return [(s, None) for s in e.setattr(a[0], a[1], a[2], st)]


def m_callable(e, st, a, kw):
    x = a[0]
    if isinstance(x, (Clo, Meth, Model)):
        return [(st, True)]
    if native(x):
        return [(st, callable(x))]
    raise Unsupported('callable')


def m_type(e, st, a, kw):
    x = a[0]
    if len(a) != 1:
        raise Unsupported('type with %d arguments' % len(a))
    if native(x):
        return [(st, type(x))]
    if isinstance(x, ZS):
        return [(st, str)]
    if isinstance(x, ZI):
        return [(st, int)]
    if isinstance(x, ZB):
        return [(st, bool)]
    cls = obj_class(x)
    if isinstance(cls, type) and cls in e.exact:
        return [(st, cls)]
    return e.type_of(x, st)


def m_str(e, st, a, kw):
    out = []
    for s, x in maybe(e, a[0], st) if isinstance(a[0], Z) else [(st, a[0])]:
        if isinstance(x, ZS):
            out.append((s, x))
        elif native(x):
            out.append((s, str(x)))
        elif isinstance(x, ZI):
            t = NUM(x.t)
            e.fact(INT(t) == x.t, ISNUM(t), z3.Not(z3.Contains(t, z3.StringVal('/'))), z3.Not(z3.Contains(t, z3.StringVal('~'))),
                   z3.Length(t) > 0)
            out.append((s, ZS(t)))
        else:
            out.append((s, ZS(e.fresh('text', S))))
    return out


def m_int(e, st, a, kw):
    out = []
    for s, x in e.some(st, a[0], TypeError):
        if isinstance(x, ZI):
            out.append((s, x))
        elif native(x):
            try:
                out.append((s, int(x)))
            except Exception as ex:
                e.throw(s, type(ex))
        elif isinstance(x, ZS):
            for y in e.guard(s, z3.Not(ISNUM(x.t)), ValueError):
                out.append((y, ZI(INT(x.t))))
        else:
            raise Unsupported('int of %r' % (x,))
    return out


def m_bool(e, st, a, kw):
    return [(st, e.boolean(e.truth(a[0], st)))]


def m_list(e, st, a, kw):
    if not a:
        st = st.clone()
        return [(st, e.new(st, ('list', None)))]
    out = []
    if e.unordered and not native(a[0]):
        y = a[0].of if isinstance(a[0], View) and a[0].kind == 'keys' else a[0]
        if isinstance(y, Z) and isinstance(y.kind, tuple) and y.kind[0] in ('set', 'dict'):
            h, q = e.has(y, st), e.fresh('listed', SEQ)
            x, i = z3.Const('x?', V), z3.Int('i?')
            at, lo, hi, _ = fields(q)
            e.fact(lo <= hi, (lo == hi) == (h == NOTHING), z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Select(h, z3.Select(
                at, i))), patterns=[z3.Select(at, i)]), els(q) == h)
            s = st.clone()
            r = e.new(s, ('list', None), q)
            s.ek[e.ident(r).as_long()] = e.key_kind(y) if y.kind[0] == 'dict' else e.elem_kind(y, st)
            return [(s, r)]
    for s, q, k in sequence(e, a[0], st):
        s = s.clone()
        r = e.new(s, ('list', None), q)
        if units(q) != []:
            s.ek[e.ident(r).as_long()] = k
        out.append((s, r))
    return out


def m_set(e, st, a, kw):
    if not a:
        st = st.clone()
        return [(st, e.new(st, ('set', None), (NOTHING,)))]
    x = a[0]
    if isinstance(x, (Tup, tuple, list, set, frozenset)) or isinstance(x, dict):
        items = x.items if isinstance(x, Tup) else list(x)
        h = NOTHING
        for y in items:
            h = z3.Store(h, e.v(y, st), TRUE)
        st = st.clone()
        return [(st, e.new(st, ('set', None), (h,)))]
    out = []
    for s, y in e.some(st, x, TypeError):
        if e.is_list(y):
            q = e.seq(y, s)
            items = units(q)
            if items is not None:
                h = NOTHING
                for i in items:
                    h = z3.Store(h, i, TRUE)
            else:
                h = els(q)
            kk = e.elem_kind(y, s)
        else:
            h = e.as_set(y, s)
            yy = y.of if isinstance(y, View) else y
            kk = e.key_kind(yy) if e.is_dict(yy) else e.elem_kind(yy, s)
        s = s.clone()
        r = e.new(s, ('set', None), (h,))
        s.ek[e.ident(r).as_long()] = kk
        out.append((s, r))
    return out


def m_dict(e, st, a, kw):
    st = st.clone()
    r = e.new(st, ('dict', None))
    live = [st]
    if a:
        live = [s for s, _ in update(e, r, a[0], st)]
    for k, v in kw.items():
        live = [t for s in live for t in setitem(e, r, k, v, s)]
    return [(s, r) for s in live]


def m_tuple(e, st, a, kw):
    if e.is_list(a[0]) and len(a[0].kind) > 2:
        return [(st, a[0])]
    if isinstance(a[0], (Tup, tuple)):
        return [(st, a[0])]
    raise Unsupported('tuple()')


def view(kind):
    def f(e, st, a, kw):
        if native(a[0]):
            return [(st, {'items': lambda x: list(x.items()), 'values': lambda x: list(x.values()),
                          'keys': list}[kind](a[0]))]
        out = []
        for s, x in e.some(st, a[0]) if isinstance(a[0], Z) else [(st, a[0])]:
            if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'obj':
                out += e.method(x, kind, [], {}, s)
            else:
                out.append((s, View(kind, x)))
        return out
    return f


def m_enumerate(e, st, a, kw):
    return [(s, View('enumerate', x)) for s, x in (e.some(st, a[0], TypeError) if isinstance(a[0], Z) else [(st, a[0])])]


def m_zip(e, st, a, kw):
    if len(a) != 2:
        raise Unsupported('zip of %d' % len(a))
    return [(st, View('zip', tuple(a)))]


def m_chain(e, st, a, kw):
    return [(st, View('chain', tuple(a)))]


def m_range(e, st, a, kw):
    if all(native(x) for x in a):
        return [(st, list(range(*a)))]
    if len(a) == 1:
        return [(st, View('range', a[0]))]
    raise Unsupported('range')


def m_reversed(e, st, a, kw):
    if isinstance(a[0], (tuple, list)):
        return [(st, Tup(list(a[0])[::-1]))]
    if isinstance(a[0], Tup):
        return [(st, Tup(a[0].items[::-1]))]
    out = []
    for s, x in e.some(st, a[0], TypeError):
        if not e.is_list(x):
            raise Unsupported('reversed')
        items = units(e.seq(x, s))
        k = e.elem_kind(x, s)
        if items is not None:
            out.append((s, Tup([e.read(i, k, s) for i in items])))
        else:
            out.append((s, View('reversed', x)))
    return out


def m_map(e, st, a, kw):
    if len(a) != 2:
        raise Unsupported('map of %d' % len(a))
    return [(st, View('map', tuple(a)))]


def m_reduce(e, st, a, kw):
    if isinstance(a[1], (Tup, tuple)):
        items = list(a[1].items if isinstance(a[1], Tup) else a[1])
        if len(a) > 2:
            items.insert(0, a[2])
        if not items:
            return e.throw(st, TypeError)
        live = [(st, items[0])]
        for y in items[1:]:
            live = [p for s, x in live for p in e.calls(a[0], [x, y], {}, s)]
        return live
    from proof import dvloops
    out = []
    for s, q in e.some(st, a[1], TypeError):
        if not e.is_list(q) or len(a) > 2:
            raise Unsupported('reduce')
        seq = e.seq(q, s)
        k = e.elem_kind(q, s)
        for y in e.guard(s, length(seq) <= 0, TypeError):
            y = y.clone()
            rest = e.new(y, ('list', None), e.part(seq, z3.IntVal(1), length(seq)))
            y.ek[e.ident(rest).as_long()] = k
            y.env['acc%'] = e.element(seq, z3.IntVal(0), k, y)

            def body(z, el):
                r = []
                for w, v in e.calls(a[0], [z.env['acc%'], el], {}, z):
                    w = w.clone()
                    w.env['acc%'] = v
                    r.append((w, None))
                return r
            fr = Frame({}, 'reduce', None)
            for z, o in dvloops.iterate(e, rest, y, fr, dvloops.new_label(e, fr), body):
                out.append((z, z.env.pop('acc%')))
    return out


def m_copy(e, st, a, kw):
    x = a[0]
    if native(x):
        return [(st, copy.copy(x))]
    out = []
    for s, y in e.some(st, x, TypeError) if isinstance(x, Z) else [(st, x)]:
        if isinstance(y, Z) and isinstance(y.kind, tuple) and y.kind[0] in ('list', 'dict', 'set'):
            out += copied(e, y, s)
        elif isinstance(y, (ZB, Tup)):
            out.append((s, y))
        else:
            raise Unsupported('copy of %r' % (y,))
    return out


def m_isclass(e, st, a, kw):
    if native(a[0]):
        return [(st, inspect.isclass(a[0]))]
    if isinstance(a[0], Z) and a[0].kind == 'getter':
        return [(st, e.boolean(V.is_cls(a[0].t)))]
    raise Unsupported('isclass')


def m_proxy(e, st, a, kw):
    return [(st, a[0])]


def m_sorted(e, st, a, kw):
    if native(a[0]) and not kw:
        return [(st, sorted(a[0]))]
    raise Unsupported('sorted')


def m_property(e, st, a, kw):
    return [(st, Tup(list(a) + [kw[k] for k in ('fset',) if k in kw], cls=property))]


def m_object_init(e, st, a, kw):
    return [(st, None)]


MODELS = {
    len: m_len, isinstance: m_isinstance, issubclass: m_issubclass, getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr,
    callable: m_callable, type: m_type, str: m_str, int: m_int, bool: m_bool, list: m_list, set: m_set, dict: m_dict, tuple: m_tuple,
    frozenset: m_set,
    six.iteritems: view('items'), six.itervalues: view('values'), six.iterkeys: view('keys'), six.viewitems: view('items'),
    enumerate: m_enumerate, zip: m_zip, range: m_range, reversed: m_reversed, map: m_map,
    functools.reduce: m_reduce, copy.copy: m_copy, inspect.isclass: m_isclass, weakref.proxy: m_proxy, sorted: m_sorted,
    itertools.chain: m_chain, object.__init__: m_object_init, property: m_property,
}
