"""C05: loading and dumping loses and invents nothing"""
from lib import impl
import inspect
import types

import z3

from contracts import tables as T
from contracts.aliases import ALIASES, DEFAULTS
from proof.dv import *  # noqa
from proof import dvlib  # noqa
from proof.values import Unsupported

THING = ('obj', 'thing')
ARGS = (I, V, V, SET, MAP)
BUILT = z3.Function('loaded', *(ARGS + (V,)))       # what a class makes of a value, its path, and the parts loaded before
PLAIN = z3.Function('loaded without parts', I, V, V, V)
PLACE = z3.Function('place', V, V, V)
FULL = z3.Function('is full', V, B)
SELF = z3.Int('self')


class World(object):
    def __init__(self):
        from pyopenapi import utils
        from pyopenapi.migration.spec import obj as M
        self.M = M
        e = self.e = DV()
        e.abstract = 300
        self.st = St()
        self.made = []
        e.fields[M._Base] = {'spec': ('dict', None, 'str'), 'override': ('dict', ('dict', THING, 'str'), 'str'), '_Base__path': ('opt', 'str')}
        e.fields[M.Base2Obj] = {'children': ('dict', THING, 'str'), 'internal': ('dict', None, 'str'), 'attrs': ('dict', None, 'str')}
        e.construct = self.construct
        e.methods[('truth', 'thing')] = lambda e, st, x: FULL(x.t)
        e.fact(z3.Not(FULL(NONE)), SELF >= 0)

        def compose(e, st, a, kw):
            if set(kw) - set(['base']) or not 1 <= len(a) <= 2 or not e.is_str(a[0]):
                raise Unsupported('call of jp_compose')
            base = a[1] if len(a) == 2 else kw.get('base')
            t = PLACE(e.v(a[0], st), e.v(base, st))
            e.fact(V.is_str(t))
            return [(st, ZS(V.s(t)))]
        e.contracts[utils.jp_compose] = compose

    def loaded(self, cls, val, path, has, values):
        """what loading gives"""
        c = z3.IntVal(self.e.code(cls))
        return z3.If(has == NOTHING, PLAIN(c, val, path), BUILT(c, val, path, has, values))

    def construct(self, cls, args, kw, st):
        """loading a nested object: decided with its own class"""
        e = self.e
        if not issubclass(cls, self.M._Base):
            raise Unsupported('makes %s' % cls.__name__)
        given = dict(zip(('spec', 'path', 'override'), args))
        given.update(kw)
        if set(given) - set(('spec', 'path', 'override')):
            raise Unsupported('arguments of %s' % cls.__name__)
        has, values = NOTHING, z3.K(V, NONE)
        o = given.get('override')
        if o is not None:
            has, values = e.has(o, st), e.val(o, st)
        if cls not in self.made:
            self.made.append(cls)
        r = e.fresh('made')
        e.fact(V.is_ref(r), V.id(r) >= 0, r == self.loaded(cls, e.v(given['spec'], st), e.v(given.get('path'), st), has, values))
        return [(st, Z(r, THING))]


def resolved(version, t):
    """an object that is a map in this library"""
    if t.kind == 'obj' and version == '3.0.0' and t.arg in T.V3_ALIASES:
        return T.V3_ALIASES[t.arg]
    return t


class Builders(object):
    """do the builders of this library make what the format says?"""
    def __init__(self, version, keep):
        self.version, self.keep = version, keep
        self.objects = impl.OBJECTS[version]
        self.done, self.obs, self.used = {}, [], set()
        self.log, self.assumed = [], set()

    def dictlike(self, t):
        """do values of this type have keys?"""
        return resolved(self.version, t).kind in ('obj', 'map', 'orref')

    def shape(self, w, t, v):
        """what well-formed values of this type are"""
        t = resolved(self.version, t)
        ref = z3.And(V.is_ref(v), V.id(v) >= 0)
        if t.kind == 'str':
            return V.is_str(v)
        if t.kind == 'list':
            return z3.And(ref, ISLIST(V.id(v)), z3.Not(ISDICT(V.id(v))))
        if t.kind == 'orbool':
            return z3.Or(V.is_bool(v), self.shape(w, t.arg, v))
        return z3.And(ref, ISDICT(V.id(v)), z3.Not(ISLIST(V.id(v))))

    def outcome(self, w, t, v, r, path, has, values, st):
        """r is what loading a value v of this type gives"""
        e = w.e
        t = resolved(self.version, t)
        if t.kind == 'str':
            return r == v
        if t.kind == 'orbool':
            return z3.If(V.is_bool(v), r == v, self.outcome(w, t.arg, v, r, path, has, values, st))
        if t.kind == 'obj':
            return r == w.loaded(getattr(self.objects, t.arg), v, path, has, values)
        if t.kind == 'orref':
            ref = z3.Select(z3.Select(e.mem(st, 'has'), V.id(v)), V.str(z3.StringVal('$ref')))
            return z3.If(ref, r == w.loaded(self.objects.Reference, v, path, has, values), self.outcome(
                w, T.O(t.arg), v, r, path, has, values, st))
        kind = w.M._List if t.kind == 'list' else w.M._Map
        good = [c for c in list(w.made) if issubclass(c, kind) and self.elements(c, t.arg)]
        return lor(*[r == w.loaded(c, v, path, has, values) for c in good])

    def elements(self, cls, t):
        """does a container make its elements as this type says?"""
        b = inspect.getattr_static(cls, '__child_builder__', None)
        key = (cls, repr(t))
        if key in self.done:
            return self.done[key]
        self.done[key] = True       # for those within themselves
        unbound = isinstance(b, types.FunctionType)
        if b is None or unbound != cls.__child_builder_unbound__:
            self.done[key] = False
            return False
        w = World()
        e, st = w.e, w.st
        v, path = z3.Const('value', V), z3.String('path')
        ovr = Z(V.ref(z3.Int('override')), ('dict', THING, 'str'))
        e.fact(self.shape(w, t, v), z3.Int('override') >= 0, e.is_kind(ovr.t, ovr.kind))
        if resolved(self.version, t).kind == 'str':
            e.fact(e.has(ovr, st) == NOTHING)
        for k in ('has', 'val', 'seq'):
            e.mem(st, k)
        res, exc = e.execute(b, [Z(v, None)], st, {'path': ZS(path), 'override': ovr})
        name = 'elements of %s (%s)' % (cls.__name__, t)
        for n, (s, r) in enumerate(res):
            e.prove('%s: %d: what the format says' % (name, n), s, self.outcome(w, t, v, e.v(r, s), V.str(path), e.has(ovr, st), e.val(
                ovr, st), st), self.keep)
        for n, (s, c, _) in enumerate(exc):
            e.prove('%s: error %d (%s)' % (name, n, c.__name__), s, FALSE, self.keep)
        self.take(e)
        self.done[key] = all(o.status == 'proved' for o in e.obs)
        return True

    def take(self, e):
        e.finish()
        self.obs += e.obs
        self.used |= e.used
        self.assumed |= e.assumed

    def keyword(self, name, alias, key, t, required):
        cls = getattr(self.objects, name)
        w = World()
        e, st, M = w.e, w.st, w.M
        prop = getattr(cls, alias)
        what = '%s.%s' % (name, alias)
        me = Z(V.ref(SELF), ('obj', cls))
        e.fact(e.is_kind(me.t, me.kind))
        k = V.str(z3.StringVal(key))
        (st, spec), = e.getattr(me, 'spec', st)
        (st, kids), = e.getattr(me, 'children', st)
        (st, over), = e.getattr(me, 'override', st)
        e.fact(*[z3.And(e.ident(x) >= 0, e.is_kind(x.t, x.kind)) for x in (spec, kids, over)])
        e.fact(z3.Distinct(e.ident(spec), e.ident(kids), e.ident(over), SELF))
        for n in ('has', 'val', 'seq'):
            e.mem(st, n)
        there, v = z3.Select(e.has(spec, st), k), z3.Select(e.val(spec, st), k)
        names = [x for x in (cls.__fields__, cls.__children__) if key in x]
        e.prove('%s: a keyword of the class, once' % what, st, z3.BoolVal(len(names) == 1 and (names[0] is cls.__fields__) == T.is_field(t)), self.keep)
        if not isinstance(prop, property):
            e.prove('%s: a property' % what, st, FALSE, self.keep)
            return self.take(e)
        if T.is_field(t):
            default = DEFAULTS.get(self.version, {}).get(name, {}).get(key)
            res, exc = e.execute(prop.fget, [me], st)
            for n, (s, r) in enumerate(res):
                if isinstance(r, list):
                    given = z3.BoolVal(r == default)
                    same = FALSE
                else:
                    given = z3.BoolVal(default is None) if r is None else (
                        e.v(r, s) == e.v(default, s)) if not isinstance(default, list) else FALSE
                    same = e.v(r, s) == v
                e.prove('%s: %d: the value, or the default' % (what, n), s, z3.If(there, same, z3.And(given, z3.BoolVal(not required))), self.keep)
                e.prove('%s: %d: nothing changes' % (what, n), s, z3.And(*[s.mem.get(m, st.mem[m]) == st.mem[m] for m in st.mem]), self.keep)
            for n, (s, c, _) in enumerate(exc):
                e.prove('%s: error %d (%s)' % (what, n, c.__name__), s, z3.And(z3.BoolVal(required), z3.Not(there)), self.keep)
            if prop.fset is not None:
                new = z3.Const('new', V)
                res, exc = e.execute(prop.fset, [me, Z(new, None)], st)
                for n, (s, r) in enumerate(res):
                    j = z3.Int('j')
                    e.prove('%s: set: %d' % (what, n), s, z3.And(e.has(spec, s) == z3.Store(e.has(spec, st), k, TRUE), e.val(
                        spec, s) == z3.Store(e.val(spec, st), k, new), z3.Implies(j != e.ident(spec), z3.And(*[z3.Select(
                            s.mem[m], j) == z3.Select(st.mem[m], j) for m in st.mem]))), self.keep)
            return self.take(e)
        # a nested object
        (_, path), = e.getattr(me, '_Base__path', st)
        place = PLACE(k, path.t)
        kept, before = z3.Select(e.has(kids, st), k), z3.Select(e.val(kids, st), k)
        mine, o = z3.Select(e.has(over, st), k), z3.Select(e.val(over, st), k)
        empty = V.str(z3.StringVal(''))
        e.fact(z3.Implies(mine, z3.And(e.is_kind(o, ('dict', None)), V.id(o) >= 0, z3.Distinct(V.id(o), e.ident(spec), e.ident(kids), e.ident(over), SELF))))
        h, m = [z3.Select(e.mem(st, x), V.id(o)) for x in ('has', 'val')]
        early = z3.Select(m, empty)
        taken = z3.And(mine, z3.Select(h, empty), FULL(early))
        e.fact(z3.Implies(kept, V.is_ref(before)), z3.Implies(z3.And(mine, z3.Select(h, empty)), V.is_ref(early)))
        e.fact(z3.Implies(z3.And(there, v != NONE), self.shape(w, t, v)))
        if resolved(self.version, t).kind == 'str':
            raise Unsupported('a nested text')
        res, exc = e.execute(prop.fget, [me], st)
        for n, (s, r) in enumerate(res):
            r = e.v(r, s)
            hh = z3.If(mine, h, NOTHING)
            want = z3.If(kept, r == before, z3.If(taken, r == early, z3.If(z3.And(there, v != NONE), self.outcome(
                w, t, v, r, place, hh, m, st), z3.And(r == NONE, z3.BoolVal(not required) if not T.is_field(t) else TRUE))))
            want = z3.If(z3.And(z3.Not(kept), z3.Not(taken), there, v == NONE), r == NONE, want)
            e.prove('%s: %d: what the format says' % (what, n), s, want, self.keep)
            j, x = z3.Int('j'), z3.Const('x', V)
            new = r != NONE
            e.prove('%s: %d: kept for later, and nothing else changes' % (what, n), s, z3.And(
                z3.Implies(new, z3.And(z3.Select(e.has(kids, s), k), z3.Select(e.val(kids, s), k) == r)),
                z3.Implies(z3.Or(x != k, z3.Not(new)), z3.Select(e.has(kids, s), x) == z3.Select(e.has(kids, st), x)),
                z3.Implies(x != k, z3.Select(e.val(kids, s), x) == z3.Select(e.val(kids, st), x)),
                z3.Implies(z3.And(j >= 0, j != e.ident(kids)), z3.And(*[z3.Select(s.mem[q], j) == z3.Select(st.mem[q], j) for q in st.mem]))), self.keep)
        for n, (s, c, _) in enumerate(exc):
            e.prove('%s: error %d (%s)' % (what, n, c.__name__), s, z3.And(z3.BoolVal(required), z3.Not(there), z3.Not(kept), z3.Not(taken)), self.keep)
        self.take(e)

    def extra(self, name, key):
        """a keyword that the format does not have: never read"""
        cls = getattr(self.objects, name)
        w = World()
        e, st = w.e, w.st
        me = Z(V.ref(SELF), ('obj', cls))
        (st, spec), = e.getattr(me, 'spec', st)
        e.fact(z3.Select(e.has(spec, st), V.str(z3.StringVal(key))))
        what = '%s.%s' % (name, key)
        res, exc = e.execute(getattr(cls, key).fget, [me], st)
        for n, (s, r) in enumerate(res):
            e.prove('%s: %d: no keyword of the format' % (what, n), s, FALSE, self.keep)
        e.prove('%s: an error' % what, st, z3.BoolVal(bool(exc)), self.keep)
        self.take(e)

    def whole(self, name):
        cls = getattr(self.objects, name)
        if name == 'Callback':
            return
        aliases = ALIASES[self.version].get(name, {})
        keys = T.keys(self.version, name)
        for key, (t, required) in sorted(keys.items()):
            for n in [key] + sorted(a for a in aliases if aliases[a] == key):
                self.keyword(name, n, key, t, required)
        for key in sorted((set(cls.__fields__) | set(cls.__children__)) - set(keys)):
            if not key.startswith('x-'):        # an extension
                self.extra(name, key)


def keywords(version, part, keep):
    b = Builders(version, keep)
    names = sorted(T.VERSIONS[version])
    for n in names[part::PARTS]:
        b.whole(n)
    return b, b.obs, b.log


PARTS = 3

#
# containers and objects
#

HASDUMP, DUMP = z3.Function('can be dumped', V, B), z3.Function('dump of', V, V)
PARENT = z3.Function('has a parent', V, B)
ATTR = z3.Function('attribute', V, V, V)
NAMES = {'fields': z3.Int('the fields'), 'children': z3.Int('the children')}


def DUMPED(x):
    return z3.If(HASDUMP(x), DUMP(x), x)


def things(w):
    e = w.e
    e.fact(z3.Not(HASDUMP(NONE)), z3.Not(PARENT(NONE)))
    e.contracts[hasattr] = lambda e, st, a, kw: [(st, ZB({'dump': HASDUMP, 'set_parent': PARENT}[a[1]](e.v(a[0], st))))] if a[1] in (
        'dump', 'set_parent') else NotImplemented

    def dump(e, st, x, a, kw):
        if a or kw:
            raise Unsupported('arguments of dump')
        e.throw(st.clone(z3.Not(HASDUMP(x.t))), AttributeError)
        return [(st.clone(HASDUMP(x.t)), Z(DUMP(x.t), None))]
    e.methods[('thing', 'dump')] = dump
    e.methods[('thing', 'set_parent')] = lambda e, st, x, a, kw: [(st, None)]
    e.contracts[callable] = lambda e, st, a, kw: [(st, ZB(HASDUMP(a[0].self.t)))] if isinstance(a[0], Meth) else NotImplemented


def dump_container(name, keep):
    w = World()
    things(w)
    e, st, M = w.e, w.st, w.M
    is_list = name == '_List'
    cls = getattr(M, name)
    elm = '%s__elm' % name
    e.fields[cls] = {elm: ('list', THING) if is_list else ('dict', THING, 'str')}
    me = Z(V.ref(SELF), ('obj', cls))
    (st, inside), = e.getattr(me, elm, st)
    e.fact(e.ident(inside) >= 0, e.is_kind(inside.t, inside.kind))
    x, i, j, k = z3.Const('x?', V), z3.Int('i?'), z3.Int('j'), z3.Const('k', V)
    for n in ('has', 'val', 'seq'):
        e.mem(st, n)
    if is_list:
        q = e.seq(inside, st)
        e.fact(length(q) >= 0, z3.ForAll([i], z3.And(HASDUMP(nth(q, i)) == HASDUMP(nth(q, z3.IntVal(0))), z3.Implies(
            z3.And(0 <= i, i < length(q)), V.is_ref(nth(q, i)))), patterns=[nth(q, i)]))
    else:
        h, v = e.has(inside, st), e.val(inside, st)

    def progress(L, s):
        out = []
        if is_list:
            for _, p in L.lists(s):
                if L.pos(s) is not None:
                    out.append(('?those so far', z3.And(length(p) == L.pos(s), z3.Implies(
                        z3.And(0 <= j, j < length(p)), nth(p, j) == DUMPED(nth(q, j))))))
        elif L.seen(s) is not None:
            for c in L.cells('has'):
                if c is None:
                    continue
                g, u = [z3.Select(e.mem(s, m), c) for m in ('has', 'val')]
                out.append(('?those so far', z3.And(g == L.seen(s), z3.Implies(z3.Select(g, k), z3.Select(u, k) == DUMPED(
                    z3.Select(v, k))))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(cls.__dict__['dump'], [me], st)
    for n, (s, r) in enumerate(res):
        if is_list:
            p = e.seq(r, s)
            e.prove('%s: every element, in order' % n, s, z3.And(length(p) == length(q), z3.Implies(z3.And(0 <= j, j < length(q)), nth(
                p, j) == DUMPED(nth(q, j)))), keep)
        else:
            e.prove('%s: every entry, and no other' % n, s, z3.And(z3.Select(e.has(r, s), k) == z3.Select(h, k), z3.Implies(
                z3.Select(h, k), z3.Select(e.val(r, s), k) == DUMPED(z3.Select(v, k)))), keep)
        e.prove('%s: a copy' % n, s, e.ident(r) != e.ident(inside), keep)
        e.prove('%s: nothing changes' % n, s, z3.Implies(j >= 0, z3.And(*[z3.Select(s.mem[m], j) == z3.Select(st.mem[m], j) for m in st.mem])), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %d (%s)' % (n, c.__name__), s, FALSE, keep)
    return e.finish()


def dump_object(keep):
    w = World()
    things(w)
    e, st, M = w.e, w.st, w.M
    e.unordered = True
    O = M.Base2Obj
    me = Z(V.ref(SELF), ('obj', O))
    (st, spec), = e.getattr(me, 'spec', st)
    for f, i in NAMES.items():
        e.attrs[(O, '__%s__' % f)] = lambda e, st, x, i=i: [(st, Z(V.ref(i), ('dict', None, 'str')))]
        e.fact(i >= 0, ISDICT(i))
    e.fact(e.ident(spec) >= 0, z3.Distinct(SELF, e.ident(spec), *NAMES.values()))
    for n in ('has', 'val', 'seq'):
        e.mem(st, n)
    kids, fields = [z3.Select(e.mem(st, 'has'), NAMES[n]) for n in ('children', 'fields')]
    x, k, j = z3.Const('x?', V), z3.Const('k', V), z3.Int('j')
    e.fact(z3.ForAll([x], z3.Implies(z3.Or(z3.Select(kids, x), z3.Select(fields, x)), V.is_str(x)), patterns=[ATTR(me.t, x)]))
    # a nested object that counts as true can be dumped (a boolean cannot: the known finding c05-boolean-child)
    about = z3.Implies(z3.And(z3.Select(kids, x), FULL(ATTR(me.t, x))), HASDUMP(ATTR(me.t, x)))
    e.fact(z3.ForAll([x], about, patterns=[ATTR(me.t, x)]))

    def attribute(e, st, a, kw):
        if len(a) == 2 and not isinstance(a[1], str) and isinstance(a[0], Z) and a[0].t.eq(me.t):
            n = e.v(a[1], st)
            e.fact(z3.substitute(about, (x, n)))
            return [(st, Z(ATTR(me.t, n), THING))]
        return NotImplemented
    e.contracts[getattr] = attribute
    e.methods[('truth', 'thing')] = lambda e, st, y: FULL(y.t)
    nested = lambda x: z3.And(z3.Select(kids, x), FULL(ATTR(me.t, x)))  # noqa
    plain = lambda x: z3.And(z3.Select(fields, x), z3.Not(nested(x)), z3.Select(e.has(spec, st), x), ATTR(me.t, x) != NONE)  # noqa

    def progress(L, s):
        out = []
        seen = L.seen(s)
        if seen is None:
            return out
        for _, p in L.lists(s):
            out.append(('?the names so far', SEQ.els(p) == seen))
        for c in L.cells('has'):
            if c is None:
                continue
            g, u, b = [z3.Select(e.mem(s, m), c) for m in ('has', 'val')] + [z3.Select(e.mem(L.entry, 'has'), c)]
            d = z3.Select(e.mem(L.entry, 'val'), c)
            so_far = z3.And(z3.Select(seen, k), nested(k))
            later = z3.And(z3.Select(seen, k), plain(k))
            for n, cond, value in (('nested ones', so_far, DUMP(ATTR(me.t, k))), ('plain ones', later, ATTR(me.t, k))):
                out.append(('?the %s so far %s' % (n, c), z3.And(
                    z3.Select(g, k) == z3.Or(z3.Select(b, k), cond), z3.Implies(z3.Select(g, k), z3.Select(u, k) == z3.If(
                        cond, value, z3.Select(d, k))))))
            out.append(('?left out so far %s' % c, z3.Select(g, k) == z3.And(z3.Select(b, k), z3.Not(so_far))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(O.dump, [me], st)
    for n, (s, r) in enumerate(res):
        e.prove('%s: every keyword that is there, and no other' % n, s, z3.And(z3.Select(e.has(r, s), k) == z3.Or(nested(k), plain(k)), z3.Implies(
            z3.Select(e.has(r, s), k), z3.Select(e.val(r, s), k) == z3.If(nested(k), DUMP(ATTR(me.t, k)), ATTR(me.t, k)))), keep)
        e.prove('%s: nothing changes' % n, s, z3.Implies(j >= 0, z3.And(*[z3.Select(s.mem[m], j) == z3.Select(st.mem[m], j) for m in st.mem])), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %d (%s)' % (n, c.__name__), s, FALSE, keep)
    return e.finish()


def new_object(w, cls):
    """an object that is being made: its attributes are not there yet"""
    e = w.e
    me = e.new(w.st, ('obj', cls))
    for n in ('has', 'val', 'seq'):
        e.mem(w.st, n)
    return me


def base_init(keep):
    """what was loaded before is sorted by the first name it is under"""
    from pyopenapi import utils
    w = World()
    e, st, M = w.e, w.st, w.M
    HEAD, REST, NAME = z3.Function('first name', V, V), z3.Function('other names', V, V), z3.Function('names', V, V, V)
    SEVERAL, ANY_ = z3.Function('several names', V, B), z3.Function('a name', V, B)
    x, j, a, b = z3.Const('x?', V), z3.Int('j'), z3.Const('one', V), z3.Const('another', V)
    empty = V.str(z3.StringVal(''))
    about = z3.And(V.is_str(HEAD(x)), V.is_str(REST(x)), z3.Implies(z3.Not(SEVERAL(x)), REST(x) == empty), NAME(HEAD(x), REST(x)) == x)
    e.fact(z3.ForAll([x], about, patterns=[HEAD(x)]))

    def split(e, st, q, kw):
        if len(q) != 2 or kw or q[1] != 1:
            raise Unsupported('call of jp_split')
        k = e.v(q[0], st)
        e.fact(z3.substitute(about, (x, k)))
        out = []
        for cond, parts in ((z3.Not(ANY_(k)), []), (z3.And(ANY_(k), SEVERAL(k)), [HEAD(k), REST(k)]), (
                z3.And(ANY_(k), z3.Not(SEVERAL(k))), [HEAD(k)])):
            s = st.clone(cond)
            if e.feasible(s):
                out.append((s, Tup([ZS(V.s(p)) for p in parts])))
        return out
    e.contracts[utils.jp_split] = split
    me = new_object(w, M._Base)
    spec = z3.Const('spec', V)
    over = Z(V.ref(z3.Int('given')), ('opt', ('dict', THING, 'str')))
    given = z3.Const('what was loaded', V)
    e.fact(z3.Or(given == NONE, z3.And(V.is_ref(given), V.id(given) >= 0, ISDICT(V.id(given)), z3.Not(ISLIST(V.id(given))))))
    h, m = [z3.If(given == NONE, y, z3.Select(e.mem(st, n), V.id(given))) for n, y in (('has', NOTHING), ('val', z3.K(V, NONE)))]
    h0, m0 = e.mem(st, 'has'), e.mem(st, 'val')

    def table(s, done, tab):
        """the table lists what is done, and nothing else"""
        g, u = z3.Select(e.mem(s, 'has'), tab), z3.Select(e.mem(s, 'val'), tab)
        i = V.id(z3.Select(u, a))
        gg, uu = z3.Select(e.mem(s, 'has'), i), z3.Select(e.mem(s, 'val'), i)
        key = KEY
        mine = z3.And(z3.Select(done, key), HEAD(key) == a, REST(key) == b)
        return z3.And(z3.And(z3.Select(g, a), z3.Select(gg, b)) == mine, z3.Implies(mine, z3.Select(uu, b) == z3.Select(m, key)))
    KEY = z3.Const('key', V)
    e.fact(KEY == NAME(a, b), z3.substitute(about, (x, KEY)))
    i, y = z3.Int('i?'), z3.Const('y?', V)

    def progress(L, s):
        seen = L.seen(s)
        if seen is None:
            return []
        (_, t), = e.getattr(me, 'override', s)
        tab = e.ident(t)
        g, u = z3.Select(e.mem(s, 'has'), tab), z3.Select(e.mem(s, 'val'), tab)
        d = z3.Select(u, x)
        return [('what others have', z3.ForAll([i], z3.Implies(i >= 0, z3.And(*[z3.Select(e.mem(s, q), i) == z3.Select(
                    e.mem(st, q), i) for q in ('has', 'val', 'seq')])), patterns=[z3.Select(e.mem(s, 'has'), i)])),
                ('tables of their own', z3.ForAll([x], z3.Implies(z3.Select(g, x), z3.And(V.is_ref(d), V.id(d) < 0, V.id(d) >= e.ids, V.id(d) != tab, ISDICT(
                    V.id(d)), z3.Not(ISLIST(V.id(d))))), patterns=[d])),
                ('different ones', z3.ForAll([x, y], z3.Implies(z3.And(z3.Select(g, x), z3.Select(g, y), x != y), V.id(d) != V.id(z3.Select(
                    u, y))), patterns=[z3.MultiPattern(d, z3.Select(u, y))])),
                ('those so far', table(s, seen, tab))]
    e.candidates.append(progress)
    res, exc = e.execute(M._Base.__init__, [me, Z(spec, None), ZS(z3.String('path')), Z(given, over.kind)], st)
    for n, (s, r) in enumerate(res):
        (s, t), = e.getattr(me, 'override', s)
        e.prove('%s: all of it, under its names' % n, s, table(s, h, e.ident(t)), keep)
        (s, q), = e.getattr(me, 'spec', s)
        e.prove('%s: the description' % n, s, e.v(q, s) == spec, keep)
        e.prove('%s: nothing changes' % n, s, z3.Implies(j >= 0, z3.And(*[z3.Select(s.mem[q], j) == z3.Select(st.mem[q], j) for q in ('has', 'val', 'seq')])), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %d (%s)' % (n, c.__name__), s, z3.BoolVal(c is Exception), keep)
    return e.finish()


def after_base(w, cls):
    """what _Base.__init__ leaves behind, by its contract"""
    e, M = w.e, w.M

    def base(e, st, a, kw):
        given = dict(zip(('self', 'spec', 'path', 'override'), a))
        given.update(kw)
        s = st.clone()
        me = given['self']
        i = e.ident(me)
        tab = Z(V.ref(z3.Int('table')), ('dict', ('dict', THING, 'str'), 'str'))
        w.given = e.v(given.get('override'), s)
        for n, x in (('spec', given['spec']), ('_Base__path', given.get('path')), ('override', tab), ('_Base__parent', None)):
            for s in dvlib.setattr_(e, me, n, x, s):
                pass
        e.fact(z3.Int('table') >= 0, e.is_kind(tab.t, tab.kind))
        return [(s, None)]
    e.contracts[M._Base.__init__] = base
    h, v = [z3.Select(z3.Const(n + '0', z3.ArraySort(I, SORTS[n])), z3.Int('table')) for n in ('has', 'val')]
    x = z3.Const('x?', V)
    inner = z3.Select(v, x)
    e.fact(z3.ForAll([x], z3.Implies(z3.Select(h, x), z3.And(V.is_ref(inner), V.id(inner) >= 0, ISDICT(V.id(inner)), z3.Not(ISLIST(
        V.id(inner))))), patterns=[inner]))

    def parts(name):
        """-> what was loaded before under a name: (has, values)"""
        o = V.id(z3.Select(v, name))
        return z3.If(z3.Select(h, name), z3.Select(z3.Const('has0', z3.ArraySort(I, SET)), o), NOTHING), z3.Select(z3.Const(
            'val0', z3.ArraySort(I, MAP)), o)
    return parts


def container_init(name, unbound, keep):
    """_List and _Map: every element is there, made with the builder of the class or loaded before"""
    w = World()
    things(w)
    e, st, M = w.e, w.st, w.M
    is_list = name == '_List'
    cls = getattr(M, name)
    elm = '%s__elm' % name
    e.keys = None
    e.fields[M._Base]['_Base__path'] = ('opt', 'str')
    parts = after_base(w, cls)
    me = new_object(w, cls)
    MAKER = -7777
    builder = Z(V.ref(z3.IntVal(MAKER)), ('obj', 'builder'))
    e.attrs[(cls, '__child_builder_unbound__')] = lambda e, st, x: [(st, unbound)]
    e.attrs[(cls, '__child_builder__')] = lambda e, st, x: [(st, Z(builder.t, ('obj', 'method' if unbound else 'builder')))]
    e.attrs[('method', '__func__')] = lambda e, st, x: [(st, builder)]
    CODE = z3.IntVal(999)

    def made(val, path, h, v):
        return z3.If(h == NOTHING, PLAIN(CODE, val, path), BUILT(CODE, val, path, h, v))

    def make(e, st, x, a, kw):
        given = dict(zip(('spec', 'path', 'override'), a))
        given.update(kw)
        if set(given) != set(('spec', 'path', 'override')):
            raise Unsupported('arguments of a builder')
        o = given['override']
        s = st.clone()
        bad = st.clone()
        bad.ghost['failed'] = TRUE
        e.throw(bad, Exception)
        return [(s, Z(made(e.v(given['spec'], s), e.v(given['path'], s), e.has(o, s), e.val(o, s)), THING))]
    e.methods[('builder', '__call__')] = make
    st.ghost['failed'] = FALSE
    x, i, j, k = z3.Const('x?', V), z3.Int('i?'), z3.Int('j'), z3.Const('k', V)
    spec, path = z3.Const('spec', V), z3.String('path')
    right = z3.And(V.is_ref(spec), V.id(spec) >= 0, (ISLIST if is_list else ISDICT)(V.id(spec)), z3.Not((ISDICT if is_list else ISLIST)(V.id(spec))))
    e.fact(z3.Or(right, z3.Not((ISLIST if is_list else ISDICT)(V.id(spec)))), z3.Implies(V.is_ref(spec), V.id(spec) >= 0))
    q = z3.Select(e.mem(st, 'seq'), V.id(spec))
    h, v = [z3.Select(e.mem(st, n), V.id(spec)) for n in ('has', 'val')]
    e.fact(length(q) >= 0)
    if not is_list:
        e.fact(z3.ForAll([x], z3.Implies(z3.Select(h, x), z3.Or(V.is_str(x), V.is_int(x))), patterns=[z3.Select(h, x)]))
    empty = V.str(z3.StringVal(''))
    NUMBER = z3.Function('text of a name', V, V)        # str()

    def text(e, st, a, kw):
        if e.is_str(a[0]):
            return [(st, a[0])]
        try:
            t = NUMBER(e.v(a[0], st))
        except Unsupported:     # of a class, for a message
            return [(st, ZS(e.fresh('text', S)))]
        e.fact(V.is_str(t))
        return [(st, ZS(V.s(t)))]
    e.contracts[str] = text
    e.fact(z3.ForAll([x], z3.Implies(V.is_str(x), NUMBER(x) == x), patterns=[NUMBER(x)]))

    def element(val, name, label):
        g, u = parts(name)
        early = z3.Select(u, empty)
        return z3.If(z3.And(z3.Select(g, empty), FULL(early)), early, made(val, PLACE(label, V.str(path)), g, u))

    def at(p, n):
        return nth(p, n) == element(nth(q, n), NUMBER(V.int(n)), NUMBER(V.int(n)))

    def entry(u, n):
        return z3.Select(u, n) == element(z3.Select(v, n), n, NUMBER(n))

    def progress(L, s):
        out = []
        if is_list:
            for _, p in L.lists(s):
                if L.pos(s) is not None:
                    out.append(('?those so far', z3.And(length(p) == L.pos(s), z3.Implies(z3.And(0 <= j, j < length(p)), at(p, j)))))
        elif L.seen(s) is not None:
            for c in L.cells('has'):
                if c is not None:
                    g, u = [z3.Select(e.mem(s, m), c) for m in ('has', 'val')]
                    out.append(('?those so far', z3.And(g == L.seen(s), z3.Implies(z3.Select(g, k), entry(u, k)))))
        out.append(('what others have', z3.ForAll([i], z3.Implies(i >= 0, z3.And(*[z3.Select(e.mem(s, m), i) == z3.Select(
            e.mem(st, m), i) for m in ('has', 'val', 'seq')])), patterns=[z3.Select(e.mem(s, 'has'), i)])))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(cls.__dict__['__init__'], [me, Z(spec, None), ZS(path), Z(z3.Const('given', V), None)], st)
    for n, (s, r) in enumerate(res):
        (s, t), = e.getattr(me, elm, s)
        if is_list:
            p = e.seq(t, s)
            e.prove('%s: every element, in order' % n, s, z3.And(right, length(p) == length(q), z3.Implies(z3.And(0 <= j, j < length(q)), at(p, j))), keep)
        else:
            e.prove('%s: every entry, and no other' % n, s, z3.And(right, e.has(t, s) == h, z3.Implies(z3.Select(h, k), entry(e.val(t, s), k))), keep)
        (s, q1), = e.getattr(me, 'spec', s)
        e.prove('%s: the description, and its parts' % n, s, z3.And(e.v(q1, s) == spec, w.given == z3.Const('given', V)), keep)
        e.prove('%s: nothing changes' % n, s, z3.Implies(j >= 0, z3.And(*[z3.Select(s.mem[m], j) == z3.Select(st.mem[m], j) for m in ('has', 'val', 'seq')])), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %d (%s)' % (n, c.__name__), s, z3.Or(s.ghost['failed'], z3.Not(right)), keep)
    return e.finish()


def object_init(keep):
    """every nested object is read once the object is made: those that are wrong, or missing, are noticed then"""
    w = World()
    things(w)
    e, st, M = w.e, w.st, w.M
    O = M.Base2Obj
    after_base(w, O)
    me = new_object(w, O)
    TABLE = z3.Int('the nested keywords')
    e.attrs[(O, '__children__')] = lambda e, st, x: [(st, Z(V.ref(TABLE), ('dict', None, 'str')))]
    e.fact(TABLE >= 0, ISDICT(TABLE), TABLE != z3.Int('table'))
    st.ghost['failed'], st.ghost['read'] = FALSE, NOTHING
    x, i, j = z3.Const('x?', V), z3.Int('i?'), z3.Int('j')
    names = z3.Select(e.mem(st, 'has'), TABLE)
    e.fact(z3.ForAll([x], z3.Implies(z3.Select(names, x), V.is_str(x)), patterns=[z3.Select(names, x)]))
    spec, given = z3.Const('spec', V), z3.Const('given', V)

    def attribute(e, st, a, kw):
        if len(a) == 2 and not isinstance(a[1], str) and isinstance(a[0], Z) and a[0].t.eq(me.t):
            bad = st.clone()
            bad.ghost['failed'] = TRUE
            e.throw(bad, Exception)
            s = st.clone()
            n = e.v(a[1], st)
            s.ghost['read'] = z3.Store(s.ghost['read'], n, TRUE)
            return [(s, Z(ATTR(me.t, n), THING))]
        return NotImplemented
    e.contracts[getattr] = attribute

    def progress(L, s):
        if L.seen(s) is None:
            return []
        return [('those so far', s.ghost['read'] == L.seen(s)), ('no error', z3.Not(s.ghost['failed'])), ('what others have', z3.ForAll([i], z3.Implies(
            i >= 0, z3.And(*[z3.Select(e.mem(s, m), i) == z3.Select(e.mem(st, m), i) for m in ('has', 'val', 'seq')])), patterns=[
                z3.Select(e.mem(s, 'has'), i)]))]
    e.candidates.append(progress)
    res, exc = e.execute(O.__init__, [me, Z(spec, None), ZS(z3.String('path')), Z(given, None)], st)
    for n, (s, r) in enumerate(res):
        e.prove('%s: every nested keyword is read' % n, s, s.ghost['read'] == names, keep)
        e.prove('%s: no error is lost' % n, s, z3.Not(s.ghost['failed']), keep)
        (s, q), = e.getattr(me, 'spec', s)
        e.prove('%s: the description, and its parts' % n, s, z3.And(e.v(q, s) == spec, w.given == given), keep)
        own = []
        for f in ('children', 'internal', 'attrs'):
            (s, t), = e.getattr(me, f, s)
            own.append(e.ident(t))
            e.prove('%s: %s of its own' % (n, f), s, z3.And(own[-1] < 0, e.has(t, s) == NOTHING), keep)
        e.prove('%s: three different ones' % n, s, z3.Distinct(*own), keep)
        e.prove('%s: nothing changes' % n, s, z3.Implies(j >= 0, z3.And(*[z3.Select(s.mem[m], j) == z3.Select(st.mem[m], j) for m in ('has', 'val', 'seq')])), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %d (%s)' % (n, c.__name__), s, s.ghost['failed'], keep)
    return e.finish()


def is_set(keep):
    w = World()
    e, st, M = w.e, w.st, w.M
    me = Z(V.ref(SELF), ('obj', M._Base))
    (st, spec), = e.getattr(me, 'spec', st)
    k = z3.String('key')
    res, exc = e.execute(M._Base.is_set, [me, ZS(k)], st)
    for n, (s, r) in enumerate(res):
        e.prove('%s: whether the keyword is there' % n, s, e.v(r, s) == V.bool(z3.Select(e.has(spec, st), V.str(k))), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %d (%s)' % (n, c.__name__), s, FALSE, keep)
    return e.finish()


def accessors(name, keep):
    """what a container has is reached through it as through the list or dict it is made of"""
    w = World()
    e, st, M = w.e, w.st, w.M
    is_list = name == '_List'
    cls = getattr(M, name)
    elm = '%s__elm' % name
    e.fields[cls] = {elm: ('list', None) if is_list else ('dict', None, 'str')}
    me = Z(V.ref(SELF), ('obj', cls))
    (st, inside), = e.getattr(me, elm, st)
    e.fact(e.ident(inside) >= 0, e.is_kind(inside.t, inside.kind))
    for n in ('has', 'val', 'seq'):
        e.mem(st, n)
    k, n, j, default = z3.String('k'), z3.Int('n'), z3.Int('j'), z3.Const('default', V)
    K = V.str(k)
    q = e.seq(inside, st) if is_list else None
    if is_list:
        e.fact(length(q) >= 0)
        there, want, arg = z3.And(0 <= n, n < length(q)), nth(q, n), ZI(n)
        e.fact(n >= 0)
        count = length(q)
    else:
        h, v = e.has(inside, st), e.val(inside, st)
        there, want, arg = z3.Select(h, K), z3.Select(v, K), ZS(k)

    def taken(r, form):
        if not isinstance(r, form):
            raise Unsupported('another form of result')
        return r

    def run(fn, args, judge, error=None):
        res, exc = e.execute(cls.__dict__[fn], [me] + args, st)
        for i, (s, r) in enumerate(res):
            e.prove('%s %d' % (fn, i), s, judge(s, r), keep)
            e.prove('%s %d: nothing changes' % (fn, i), s, z3.Implies(j >= 0, z3.And(*[z3.Select(s.mem[m], j) == z3.Select(st.mem[m], j) for m in st.mem])), keep)
        for i, (s, c, _) in enumerate(exc):
            ok = error is not None and issubclass(c, error)
            e.prove('%s: error %d (%s)' % (fn, i, c.__name__), s, z3.Not(there) if ok else FALSE, keep)
        if not res:
            raise Unsupported('%s gives nothing' % fn)
    run('__getitem__', [arg], lambda s, r: z3.And(there, e.v(r, s) == want), LookupError)
    if is_list:
        run('__len__', [], lambda s, r: e.v(r, s) == V.int(count))
        st.ghost[('yield',)] = EMPTY
        e.candidates.append(lambda L, s: [('those so far', z3.And(length(s.ghost[('yield',)]) == L.pos(s), z3.Implies(z3.And(
            0 <= n, n < L.pos(s)), nth(s.ghost[('yield',)], n) == nth(q, n))))] if L.pos(s) is not None else [])
        run('__iter__', [], lambda s, r: taken(r, type(None)) or z3.And(length(s.ghost[('yield',)]) == count, z3.Implies(
            z3.And(0 <= n, n < count), nth(s.ghost[('yield',)], n) == nth(q, n))))
    else:
        run('__contains__', [arg], lambda s, r: e.v(r, s) == V.bool(there))
        run('get', [arg, Z(default, None)], lambda s, r: e.v(r, s) == z3.If(there, want, default))
        run('get', [arg], lambda s, r: e.v(r, s) == z3.If(there, want, NONE))
        for fn, kind in (('keys', 'keys'), ('iterkeys', 'keys'), ('itervalues', 'values'), ('iteritems', 'items'), ('items', 'items')):
            run(fn, [], lambda s, r: z3.And(z3.BoolVal(taken(r, View).kind == kind), e.v(r.of, s) == inside.t))
    return e.finish()


UNITS = [('keywords of %s (%d)' % (v, i + 1), lambda keep, v=v, i=i: keywords(v, i, keep)) for v in sorted(T.VERSIONS) for i in range(PARTS)] + [
    ('dump of ' + n, lambda keep, n=n: dump_container(n, keep)) for n in ('_List', '_Map')] + [('dump of Base2Obj', dump_object), ('init of _Base', base_init), (
        'init of Base2Obj', object_init), ('is_set', is_set)] + [
    ('accessors of ' + n, lambda keep, n=n: accessors(n, keep)) for n in ('_List', '_Map')] + [
    ('init of %s%s' % (n, ' with a function' if f else ''), lambda keep, n=n, f=f: container_init(n, f, keep)) for n in ('_List', '_Map') for f in (False, True)]
ASSUMPTIONS = [
    'values are well-formed: under a keyword is what its type in the tables of contracts/tables.py says (a text, a list, a map, a boolean where one is '
    'allowed), and the elements of one container are of one type; elements that are texts are never loaded before',
    'what loading and dumping a nested object give is the contract of its class, and reading a keyword of an object that of the keyword; '
    'that a document is loaded as a whole follows by induction over its depth (the step is an obligation, the principle is not), which is finite',
    'the keyword tables of the classes are those the interpreter builds when it imports the code (FieldMeta and map_, list_ are run, not '
    'verified); every class, keyword and alias of them is then verified',
    'the description of an object, its table of nested objects and that of what was loaded before are different dicts',
    'a nested object that counts as true can be dumped, and all or none of the elements of one list (where they are not: the known findings '
    'c05-boolean-child and those like it)',
    'extension keywords (x-...) and the callbacks of 3.0.0 (maps with keys of any form) are looked at by the bounded leg',
    'jp_split gives the first token of a name and the rest, and the two determine the name (the contract of C09); jp_compose gives a text',
    'set_parent changes nothing but the parent',
]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
