"""C07: comparing decides whether two objects are equal"""
from lib import impl  # noqa: finds the package
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.values import Unsupported

SAME = z3.Function('same', V, V, B)             # of objects, lists and maps of objects
VSAME = z3.Function('same value', V, V, B)      # of what a keyword has
EQUAL = z3.Function('==', V, V, B)              # of values without parts
PAIRED = z3.Function('at the same place', V, V, B)
TYPE = z3.Function('type', V, I)
SUB = z3.Function('is a class of', I, I, B)
ATTR = z3.Function('attribute', V, V, V)
FIELDS, CHILDREN = z3.Function('fields of a class', I, I), z3.Function('children of a class', I, I)
ISLIST_, ISDICT_ = lambda t: z3.And(V.is_ref(t), ISLIST(V.id(t))), lambda t: z3.And(V.is_ref(t), ISDICT(V.id(t)))
PRIMITIVE = lambda t: z3.Or(V.is_str(t), V.is_int(t), V.is_bool(t))  # noqa


class World(object):
    """objects, lists and maps that are compared, and the values of keywords"""
    def __init__(self):
        from pyopenapi import utils
        from pyopenapi.migration.spec import obj as M
        self.M = M
        e = self.e = DV()
        e.abstract, e.unordered = 500, True
        e.solver.set('timeout', 500)
        self.st = st = St()
        self.code = lambda c: z3.IntVal(e.code(c))
        x, y, k = z3.Consts('x? y? k?', V)
        i = z3.Int('i?')
        self.classes = [M.Base2Obj, M._List, M._Map]
        t = TYPE(x)
        nested = lambda x: z3.Or(*[ISA(V.id(x), self.code(c)) for c in self.classes])  # noqa
        self.nested = lambda t: z3.And(V.is_ref(t), z3.Not(ISLIST(V.id(t))), z3.Not(ISDICT(V.id(t))), nested(t))
        codes = dict((c, self.code(c)) for c in (str, int, bool, list, dict, type(None)))
        about = lambda x, t: z3.And(  # noqa
            *[c(x) == (t == codes[n]) for c, n in ((V.is_str, str), (V.is_int, int), (V.is_bool, bool), (V.is_none, type(None)), (
                ISLIST_, list), (ISDICT_, dict))] + [
                    z3.Implies(V.is_ref(x), ISA(V.id(x), self.code(c)) == SUB(t, self.code(c))) for c in self.classes])
        e.fact(z3.ForAll([x], about(x, t), patterns=[t]))
        for c in self.classes:      # an object is of one of them
            e.fact(*[z3.Not(SUB(n, self.code(c))) for n in codes.values()])
            for d in self.classes:
                if c is not d:
                    e.fact(z3.ForAll([i], z3.Not(z3.And(SUB(i, self.code(c)), SUB(i, self.code(d)))), patterns=[SUB(i, self.code(c))]))
        e.fact(z3.ForAll([x, y], z3.Implies(SAME(x, y), TYPE(x) == TYPE(y)), patterns=[SAME(x, y)]))
        # equality of values without parts: numbers are not compared with booleans, or with numbers of another type
        e.fact(z3.ForAll([x, y], z3.Implies(PRIMITIVE(x), EQUAL(x, y) == (x == y)), patterns=[EQUAL(x, y)]))

        def type_of(x, st):
            e.fact(about(x.t, TYPE(x.t)))       # not quantified: for the conditions of branches
            return [(st, Z(V.cls(TYPE(x.t)), 'cls'))]
        e.type_of = type_of
        e.kinds = [(lambda t, c=c: ISA(V.id(t), self.code(c)), ('obj', c)) for c in self.classes] + [(nested, ('obj', 'nested'))]

        def equality(e, a, b, st):
            if isinstance(a, Z) and a.kind is None and isinstance(b, Z) and b.kind is None:
                return EQUAL(a.t, b.t)
            for p, q in ((a, b), (b, a)):
                if isinstance(p, Z) and p.kind is None and (q is None or isinstance(q, Z)):
                    raise Unsupported('equality of %r and %r' % (a, b))
            return None
        e.equality = equality
        self.place = z3.Function('place', V, V, V)
        e.contracts[utils.jp_compose] = lambda e, st, a, kw: [(st, ZS(V.s(self.place(*[self.some(q, st) for q in (list(a) + list(
            kw.values()) + [None])[:2]]))))]
        e.contracts[str] = lambda e, st, a, kw: [(st, ZS(z3.Function('text of', V, S)(self.some(a[0], st))))]

        def compare(e, st, x, a, kw):
            return [(st, Tup([ZB(SAME(x.t, e.v(a[0], st))), ZS(e.fresh('location', S))]))]
        for c in ['nested']:
            e.methods[(c, 'compare')] = compare

        def recursion(e, st, args):
            vals = [x for x in args if isinstance(x, Z)]
            if len(vals) != 2:
                raise Unsupported('call of itself')
            a, b = [x.t for x in vals]
            r = e.fresh('the same', B)
            e.fact(z3.Implies(PAIRED(a, b), r == VSAME(a, b)))
            return [(st, Tup([ZB(r), ZS(e.fresh('location', S))]))]
        e.recursion = recursion

    def some(self, x, st):
        try:
            return self.e.v(x, st)
        except Unsupported:
            return NONE

    def parts(self, a, b, st):
        """are two values the same: by their types and parts"""
        e = self.e
        i, k = z3.Int('i?'), z3.Const('k?', V)
        q = [z3.Select(e.mem(st, 'seq'), V.id(x)) for x in (a, b)]
        h = [z3.Select(e.mem(st, 'has'), V.id(x)) for x in (a, b)]
        v = [z3.Select(e.mem(st, 'val'), V.id(x)) for x in (a, b)]
        self.same_lists = z3.And(length(q[0]) == length(q[1]), self.elements(q, length(q[0])))
        self.same_dicts = z3.And(h[0] == h[1], self.entries(v, h[0]))
        return z3.If(PRIMITIVE(a), EQUAL(a, b), z3.And(TYPE(a) == TYPE(b), z3.If(self.nested(a), SAME(a, b), z3.If(
            ISLIST_(a), self.same_lists, z3.If(ISDICT_(a), self.same_dicts, EQUAL(a, b))))))

    def elements(self, q, n, rel=VSAME):
        i = z3.Int('i?')
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), rel(nth(q[0], i), nth(q[1], i))), patterns=[rel(nth(q[0], i), nth(q[1], i))])

    def entries(self, v, keys, rel=VSAME):
        k = z3.Const('k?', V)
        p = rel(z3.Select(v[0], k), z3.Select(v[1], k))
        return z3.ForAll([k], z3.Implies(z3.Select(keys, k), p), patterns=[p])

    def pairs(self, a, b, st):
        """what is assumed of values at the same place (else c07-plain-containers)"""
        e = self.e
        i, k = z3.Int('i?'), z3.Const('k?', V)
        q = [z3.Select(e.mem(st, 'seq'), V.id(x)) for x in (a, b)]
        v = [z3.Select(e.mem(st, 'val'), V.id(x)) for x in (a, b)]
        return z3.And(
            z3.Implies(z3.And(ISLIST_(a), ISLIST_(b)), z3.And(length(q[0]) == length(q[1]), length(q[0]) >= 0, z3.ForAll(
                [i], PAIRED(nth(q[0], i), nth(q[1], i)), patterns=[VSAME(nth(q[0], i), nth(q[1], i))]))),
            z3.Implies(z3.And(ISDICT_(a), ISDICT_(b)), z3.ForAll([k], PAIRED(z3.Select(v[0], k), z3.Select(v[1], k)), patterns=[
                VSAME(z3.Select(v[0], k), z3.Select(v[1], k))])))

    def check(self, fn, args, want, keep):
        e = self.e
        res, exc = e.execute(fn, args, self.st)
        return self.judge(res, exc, want, keep)

    def judge(self, res, exc, want, keep):
        e = self.e
        for n, (s, r) in enumerate(res):
            a, b = r.items if isinstance(r, Tup) else r
            e.prove('%s: the same exactly when all is the same' % n, s, e.truth(a, s) == want, keep)
            e.prove('%s: a truth value' % n, s, z3.BoolVal(isinstance(a, (bool, ZB)) and not isinstance(a, ZI)), keep)
        for n, (s, c, _) in enumerate(exc):
            e.prove('error %s (%s)' % (n, c.__name__), s, FALSE, keep)
        return e.finish()


def objects():
    w = World()
    e, st, M = w.e, w.st, w.M
    O = M.Base2Obj
    me, other, n, x = z3.Const('self_', V), z3.Const('other_', V), z3.Const('n?', V), z3.Const('x?', V)
    e.fact(e.is_kind(me, ('obj', O)), ISA(V.id(me), w.code(O)), V.id(me) >= 0, z3.Or(other == NONE, V.is_ref(other)))
    mine = SUB(TYPE(me), w.code(O))
    e.fact(mine)
    names = []
    for f, a in ((FIELDS, '__fields__'), (CHILDREN, '__children__')):
        i = f(TYPE(me))
        e.fact(i >= 0, ISDICT(i))
        names.append(z3.Select(e.mem(st, 'has'), i))

        def of_class(e, st, y, f=f):
            if not y.t.eq(me):
                raise Unsupported('keywords of another object')
            return [(st, Z(V.ref(f(TYPE(me))), ('dict', None, 'str')))]
        e.attrs[(O, a)] = of_class
    e.fact(FIELDS(TYPE(me)) != CHILDREN(TYPE(me)))
    e.fact(z3.ForAll([n], z3.Implies(z3.Or(*[z3.Select(h, n) for h in names]), V.is_str(n)), patterns=[ATTR(me, n)]))
    a, b = ATTR(me, n), ATTR(other, n)
    e.fact(z3.ForAll([n], PAIRED(a, b), patterns=[VSAME(a, b)]))

    def attribute(e, st, a, kw):
        if len(a) != 2 or kw or not isinstance(a[0], Z) or not e.is_str(a[1]) or isinstance(a[1], str):
            return NotImplemented
        out = []
        for s, y in e.some(st, a[0]):
            out.append((s, Z(ATTR(y.t, e.v(a[1], s)), None)))
            e.fact(PAIRED(ATTR(me, e.v(a[1], s)), ATTR(other, e.v(a[1], s))))
        return out
    e.contracts[getattr] = attribute

    def progress(L, s):
        seen = L.seen(s)
        p = VSAME(a, b)
        return [] if seen is None else [('?the keywords so far', z3.ForAll([n], z3.Implies(z3.Select(seen, n), p), patterns=[p]))]
    e.candidates.append(progress)
    e.cut = True
    want = z3.And(TYPE(me) == TYPE(other), z3.ForAll([n], z3.Implies(z3.Or(*[z3.Select(h, n) for h in names]), VSAME(a, b)), patterns=[VSAME(a, b)]))
    w.want = want
    return w, [Z(me, ('obj', O)), Z(other, None)], O.compare


def compare_objects(keep):
    w, args, fn = objects()
    return w.check(fn, args, w.want, keep)


def compare_values(keep):
    """the function within compare that compares two values, for any two values at the same place"""
    w, args, fn = objects()
    e = w.e
    e.execute(fn, args, w.st)
    if len(e.met) != 1:
        raise Unsupported('functions that call themselves: %d' % len(e.met))
    met, = e.met.values()
    node, env, fr = met[0]
    env = dict((n, x) for n, x in env.items() if all(n in o and (o[n] is x or (isinstance(x, Z) and isinstance(o[n], Z) and x.t.eq(o[n].t))) for _, o, _ in met)
               or n in [q.arg for q in node.args.args])
    w, args, fn = objects()
    e, st = w.e, w.st
    me, i, k = z3.Const('self_', V), z3.Int('i?'), z3.Const('k?', V)
    a, b = z3.Const('one_', V), z3.Const('another_', V)
    values = [a, b]
    for q in node.args.args:
        env[q.arg] = Z(values.pop(0), None) if isinstance(env[q.arg], Z) else ZS(e.fresh('location', S))
    e.fact(PAIRED(a, b), w.pairs(a, b, st), *[z3.Implies(V.is_ref(x), V.id(x) >= 0) for x in (a, b)])

    def progress(L, s):
        seen, pos = L.seen(s), L.pos(s)
        if pos is not None:
            return [('?the elements so far', w.elements([z3.Select(e.mem(st, 'seq'), V.id(t)) for t in (a, b)], pos))]
        if seen is not None:
            return [('?the entries so far', w.entries([z3.Select(e.mem(st, 'val'), V.id(t)) for t in (a, b)], seen))]
        return []
    e.candidates[:] = [progress]
    e.cut, e.merging = False, 100
    e.sink = [[]]
    res = e.run(node, env, fr, st)
    e.ends += [x[0] for x in res] + [x[0] for x in e.sink[0]]
    return w.judge(res, e.sink[0], w.parts(a, b, st), keep)


def compare_containers(name, keep):
    w = World()
    e, st, M = w.e, w.st, w.M
    cls = getattr(M, name)
    is_list = name == '_List'
    elm = '%s__elm' % name
    N = ('obj', 'nested')
    e.fields[cls] = {elm: ('list', N) if is_list else ('dict', N, 'str')}
    e.methods[('instance', 'nested')] = lambda e, st, x, c: z3.BoolVal(False) if c in (str, int, bool) else ISA(V.id(x.t), w.code(c))
    me, other = z3.Const('self_', V), z3.Const('other_', V)
    e.fact(e.is_kind(me, ('obj', cls)), ISA(V.id(me), w.code(cls)), V.id(me) >= 0, SUB(TYPE(me), w.code(cls)), z3.Or(
        other == NONE, z3.And(V.is_ref(other), V.id(other) >= 0)))
    inside = [z3.Select(e.mem(st, 'attr.' + elm), V.id(x)) for x in (me, other)]
    e.fact(*[V.id(x) >= 0 for x in inside])
    i, k = z3.Int('i?'), z3.Const('k?', V)
    q = [z3.Select(e.mem(st, 'seq'), V.id(x)) for x in inside]
    h = [z3.Select(e.mem(st, 'has'), V.id(x)) for x in inside]
    v = [z3.Select(e.mem(st, 'val'), V.id(x)) for x in inside]
    # elements are objects (else c07-plain-containers)
    if is_list:
        e.fact(length(q[0]) >= 0, length(q[1]) >= 0, z3.ForAll([i], w.nested(nth(q[0], i)), patterns=[nth(q[0], i)]))
        want = z3.And(length(q[0]) == length(q[1]), w.elements(q, length(q[0]), SAME))
        e.methods[(cls, '__iter__')] = lambda e, st, x, a, kw: [(st, e.getattr(x, elm, st)[0][1])]
    else:
        e.fact(*[z3.ForAll([k], z3.Implies(z3.Select(g, k), V.is_str(k)), patterns=[z3.Select(g, k)]) for g in h])
        e.fact(z3.ForAll([k], z3.Implies(z3.Select(h[0], k), w.nested(z3.Select(v[0], k))), patterns=[z3.Select(v[0], k)]))
        want = z3.And(h[0] == h[1], w.entries(v, h[0], SAME))

    def progress(L, s):
        seen, pos = L.seen(s), L.pos(s)
        if is_list and pos is not None:
            return [('?the elements so far', w.elements(q, pos, SAME))]
        return [('?the entries so far', w.entries(v, seen, SAME))] if seen is not None else []
    e.candidates.append(progress)
    return w.check(cls.compare, [Z(me, ('obj', cls)), Z(other, None)], z3.And(TYPE(me) == TYPE(other), want), keep)


def either_way(keep):
    """the step of the induction: what is the same is so for either order, and everything is the same as itself"""
    w = World()
    e, st = w.e, w.st
    a, b, x, y = z3.Const('one_', V), z3.Const('another_', V), z3.Const('x?', V), z3.Const('y?', V)
    for t in (a, b):        # not quantified: the types of the two
        e.fact(z3.Implies(V.is_ref(t), V.id(t) >= 0), z3.Or(V.is_ref(t), V.is_none(t), PRIMITIVE(t)))
        w.e.type_of(Z(t, None), st)
    for r in (SAME, VSAME, EQUAL):
        e.fact(z3.ForAll([x, y], r(x, y) == r(y, x), patterns=[r(x, y)]))
        e.fact(z3.ForAll([x], r(x, x), patterns=[r(x, x)]))
    cases = [('plain', PRIMITIVE), ('objects', w.nested), ('lists', ISLIST_), ('maps', ISDICT_)]
    cases.append(('others', lambda t: z3.Not(z3.Or(*[c(t) for _, c in cases[:4]]))))
    for n, c in cases:      # a and b are any two values
        one, other = [tidy(z3.substitute(w.parts(p, q, st), *[(d(t), z3.BoolVal(m == n)) for m, d in cases for t in (a, b)])) for p, q in (
            (a, b), (b, a))]
        s = st.clone()
        s.pc = s.pc + (c(a), c(b), w.parts(a, b, st))
        e.prove('values that are %s: the same then for the other order' % n, s, w.parts(b, a, st) if n in ('plain', 'objects', 'others') else other, keep)
        s = st.clone()
        s.pc = s.pc + (c(a), z3.Not(c(b)))
        e.prove('a value that is %s: not the same as others' % n, s, z3.And(z3.Not(w.parts(a, b, st)), z3.Not(w.parts(b, a, st))), keep)
    e.prove('values: the same as itself', st, w.parts(a, a, st), keep)
    h = z3.Function('keyword of a type', I, V, B)
    n = z3.Const('n?', V)

    def whole(a, b):
        p = VSAME(ATTR(a, n), ATTR(b, n))
        return z3.And(TYPE(a) == TYPE(b), z3.ForAll([n], z3.Implies(h(TYPE(a), n), p), patterns=[p]))
    s = st.clone()
    s.pc = s.pc + (whole(a, b),)
    e.prove('objects: the same then for the other order', s, whole(b, a), keep)
    e.prove('objects: the same as itself', st, whole(a, a), keep)
    q = [z3.Select(e.mem(st, 'seq'), V.id(t)) for t in (a, b)]
    v = [z3.Select(e.mem(st, 'val'), V.id(t)) for t in (a, b)]
    g = [z3.Select(e.mem(st, 'has'), V.id(t)) for t in (a, b)]
    s = st.clone()
    s.pc = s.pc + (length(q[0]) == length(q[1]), w.elements(q, length(q[0]), SAME))
    e.prove('lists: the same then for the other order', s, w.elements(q[::-1], length(q[1]), SAME), keep)
    s = st.clone()
    s.pc = s.pc + (g[0] == g[1], w.entries(v, g[0], SAME))
    e.prove('maps: the same then for the other order', s, w.entries(v[::-1], g[1], SAME), keep)
    return e.finish()


ASSUMPTIONS = [
    'plain lists at the same place of two objects have the same length, and the elements of the containers of objects are objects '
    '(where they are not: the known finding c07-plain-containers)',
    'what compare gives for a nested object is its own contract, that of its class; comparing ends because objects are finite',
    'reading a keyword of an object gives its value (decided by C05) and changes nothing; equality of values without parts is that of Python; '
    'numbers of different types and booleans are not compared with each other',
    'an object has the keywords its class lists (__fields__ and __children__); their names are strings',
    'the induction over the depth of objects: its step is an obligation, the principle is not',
]
UNITS = [('either way', either_way), ('compare of Base2Obj', compare_objects), ('compare of values', compare_values)] + [
    ('compare of ' + n, lambda keep, n=n: compare_containers(n, keep)) for n in ('_List', '_Map')]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
