"""C06: traversal visits every object once, under its own pointer, and runs the handlers of its kind"""
from lib import impl  # noqa: finds the package
import z3

from proof.dv import *  # noqa
from proof.values import Unsupported

STR = z3.StringVal
NODE = ('obj', 'node')
CHILDREN = z3.Function('children', V, I)            # the dict of the children of an object
CLASS = z3.Function('class of', V, V)
LEAF = z3.Function('is a leaf', V, B)
BELOW = z3.Function('times at or below', V, I)      # how often the target is found at or below a place
ARR = z3.ArraySort(I, V)
SUM, SUM0 = [z3.Function(x, ARR, I, I, I) for x in ('times in', 'times in then')]
KSUM = z3.Function('times below', V, S, SET, I)
COUNT, COUNT0 = [z3.Function(x, ARR, I, I, I) for x in ('times given', 'times given then')]


def fold(e, f, f0, value):
    """sums over sequences: sums of values that are taken from either end, one by one"""
    at, x = z3.Const('at?', ARR), z3.Const('x?', V)
    lo, hi, j = z3.Ints('lo? hi? j?')
    e.fact(z3.ForAll([at, lo, hi], z3.And(f(at, lo, hi) == f0(at, lo, hi), z3.Implies(lo >= hi, f(at, lo, hi) == 0), z3.Implies(lo < hi, z3.And(
        f(at, lo, hi) == f0(at, lo, hi - 1) + value(z3.Select(at, hi - 1)),
        f(at, lo, hi) == f0(at, lo + 1, hi) + value(z3.Select(at, lo))))), patterns=[f(at, lo, hi)]))
    e.fact(z3.ForAll([at, lo, hi], z3.Implies(lo >= hi, f0(at, lo, hi) == 0), patterns=[f0(at, lo, hi)]))
    stored = z3.Store(at, j, x)
    e.fact(z3.ForAll([at, j, x, lo, hi], z3.Implies(z3.Or(j < lo, j >= hi), f0(stored, lo, hi) == f(at, lo, hi)), patterns=[f0(stored, lo, hi)]))
    concat = e.concat

    def concat_(q, r):
        c = concat(q, r)
        e.fact(f(*fields(c)[:3]) == f(*fields(q)[:3]) + f(*fields(r)[:3]))
        return c
    e.concat = concat_


def traversal(keep):
    from pyopenapi.migration import scan
    e, st = DV(), St()
    e.abstract = 1000
    target = z3.Const('target', V)
    one = lambda x: z3.If(x == target, z3.IntVal(1), z3.IntVal(0))  # noqa
    fold(e, SUM, SUM0, BELOW)
    fold(e, COUNT, COUNT0, one)
    has, val = e.mem(st, 'has'), e.mem(st, 'val')
    o, k, p, d = z3.Const('o?', V), z3.Const('k?', V), z3.String('p?'), z3.Const('d?', SET)
    c = CHILDREN(o)
    x = z3.Select(z3.Select(val, c), k)
    # what there is at or below a place
    place = V.pair(V.str(p), o)
    e.fact(z3.ForAll([p, o], BELOW(place) == one(place) + z3.If(LEAF(CLASS(o)), z3.IntVal(0), KSUM(o, p, z3.Select(has, c))), patterns=[BELOW(place)]))
    e.fact(z3.ForAll([p, o], KSUM(o, p, NOTHING) == 0, patterns=[KSUM(o, p, NOTHING)]))
    more = z3.Store(d, k, TRUE)
    e.fact(z3.ForAll([p, o, d, k], z3.Implies(z3.Not(z3.Select(d, k)), KSUM(o, p, more) == KSUM(o, p, d) + BELOW(
        V.pair(V.str(z3.Concat(p, STR('/'), V.s(k))), x))), patterns=[KSUM(o, p, more)]))
    e.fact(z3.ForAll([o], z3.And(c >= 0, ISDICT(c), z3.Not(ISLIST(c))), patterns=[c]))
    e.fact(z3.ForAll([o, k], z3.Implies(z3.Select(z3.Select(has, c), k), z3.And(V.is_str(k), V.is_ref(x), V.id(x) >= 0)), patterns=[x, z3.Select(z3.Select(has, c), k)]))
    root = z3.Const('root', V)
    leaves = z3.Const('leaves', V)
    e.fact(V.is_ref(root), V.id(root) >= 0, V.is_ref(leaves))
    e.methods[('node', 'get_children')] = lambda e, st, x, a, kw: [(st, Z(V.ref(CHILDREN(x.t)), ('dict', NODE, 'str')))]
    e.attrs[('node', '__class__')] = lambda e, st, x: [(st, Z(CLASS(x.t), ('obj', 'class')))]
    e.methods[('leaves', '__contains__')] = lambda e, st, x, a, kw: [(st, ZB(LEAF(e.v(a[0], st))))]
    st.ghost[('yield',)] = EMPTY

    def progress(L, s):
        out = []
        given = s.ghost[('yield',)]
        seen = L.seen(s)
        if seen is None:
            out.append(('given', length(given) >= 0))
        for _, l in L.lists(s):
            i = z3.Int('i?')
            el = z3.Select(fields(l)[0], i)
            if seen is None:
                out.append(('what is given and what is left', COUNT(*fields(given)[:3]) + SUM(*fields(l)[:3]) == BELOW(V.pair(V.str(STR('#')), root))))
            out.append(('places', z3.ForAll([i], z3.Implies(z3.And(fields(l)[1] <= i, i < fields(l)[2]), z3.And(
                    V.is_pair(el), V.is_str(V.fst(el)), V.is_ref(V.snd(el)), V.id(V.snd(el)) >= 0)))))
        if seen is not None:
            for n, x in s.env.items():
                for m, y in s.env.items():
                    if e.is_str(x) and isinstance(y, Z) and y.kind == NODE:
                        for _, l in L.lists(s):
                            out.append(('? children of %s by %s' % (m, n), SUM(*fields(l)[:3]) == KSUM(y.t, e.s(x), seen)))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(scan.default_tree_traversal, [Z(root, NODE), Z(leaves, ('obj', 'leaves'))], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: every place of the tree is given as often as it is there' % n, s, COUNT(*fields(s.ghost[('yield',)])[:3]) == BELOW(
            V.pair(V.str(STR('#')), root)), keep)
    for n, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (n, x.__name__), s, FALSE, keep)
    return e.finish()


#
# children
#

THING = ('obj', 'thing')
OBJECT, A_MAP, A_LIST = [z3.Function(x, V, B) for x in ('is an object', 'is a map', 'is a list')]


def CONTAINER(x):
    return z3.Or(A_MAP(x), A_LIST(x))


ATTR = z3.Function('attribute', V, V, V)
HELD = z3.Function('children of a container', V, I)
COMPOSED = z3.Function('composed', V, V, V)
FIRST, SECOND = [z3.Function(x, V, V) for x in ('first', 'second')]
TEXT, NUMBER = z3.Function('text', I, S), z3.Function('number', S, I)


def children(name, keep):
    """get_children gives what is nested directly, under its key; what is inside of containers under both keys"""
    from pyopenapi import utils
    from pyopenapi.migration.spec import obj as M
    cls = getattr(M, name)
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    is_list, is_map = name == '_List', name == '_Map'
    elm = '%s__elm' % name
    e.fields[cls] = {'children_cache': ('dict', THING, 'str'), elm: ('list', THING) if is_list else ('dict', THING, 'str')}
    me = Z(V.ref(z3.Int('self')), ('obj', cls))
    e.fact(z3.Int('self') >= 0)
    (st, cache), = e.getattr(me, 'children_cache', st)
    r, k, a, b = z3.Consts('r k? a? b?', V)
    x = z3.Const('x?', V)
    n = z3.Int('n?')
    e.fact(V.is_str(r))
    # what the object has
    if is_list:
        (st, inside), = e.getattr(me, elm, st)
        q = e.seq(inside, st)
        e.fact(z3.ForAll([n], z3.Implies(n >= 0, z3.And(NUMBER(TEXT(n)) == n)), patterns=[TEXT(n)]))
        at = lambda t: nth(q, NUMBER(V.s(t)))  # noqa
        named = lambda t: z3.And(t == V.str(TEXT(NUMBER(V.s(t)))), 0 <= NUMBER(V.s(t)), NUMBER(V.s(t)) < length(q))  # noqa
        e.contracts[str] = lambda e, st, a, kw: [(st, ZS(TEXT(e.i(a[0]))))] if e.is_int(a[0]) else NotImplemented
        apart = []
    elif is_map:
        (st, inside), = e.getattr(me, elm, st)
        h, v = e.has(inside, st), e.val(inside, st)
        at, named = lambda t: z3.Select(v, t), lambda t: z3.And(z3.Select(h, t), V.is_str(t))  # noqa
        apart = [e.ident(inside)]
        e.fact(z3.ForAll([k], z3.Implies(z3.Select(h, k), V.is_str(k)), patterns=[z3.Select(h, k)]))
    else:
        inside = Z(z3.Const('fields of children', V), ('dict', None, 'str'))
        h = e.has(inside, st)
        e.fact(V.is_ref(inside.t), V.id(inside.t) >= 0, ISDICT(V.id(inside.t)))
        e.fact(z3.ForAll([k], z3.Implies(z3.Select(h, k), V.is_str(k)), patterns=[z3.Select(h, k)]))
        at, named = lambda t: ATTR(me.t, t), lambda t: z3.Select(h, t)  # noqa
        apart = [V.id(inside.t)]
        e.fields[cls]['__children__'] = ('dict', None, 'str')
        e.fact(z3.Select(e.mem(st, 'attr.__children__'), z3.Int('self')) == inside.t)

        def attribute(e, st, a, kw):
            if len(a) == 2 and not isinstance(a[1], str) and isinstance(a[0], Z) and a[0].t.eq(me.t):
                return [(st, Z(ATTR(me.t, e.v(a[1], st)), THING))]
            return NotImplemented
        e.contracts[getattr] = attribute
    e.fact(*[z != e.ident(cache) for z in apart])
    e.fact(z3.ForAll([x], z3.Implies(OBJECT(x), z3.Not(CONTAINER(x))), patterns=[OBJECT(x)]), z3.Not(OBJECT(NONE)), z3.Not(CONTAINER(NONE)))
    held = e.mem(st, 'has'), e.mem(st, 'val')
    H = lambda x, m=0: z3.Select(held[m], HELD(x))  # noqa
    e.fact(z3.ForAll([x], z3.And(HELD(x) >= 0, ISDICT(HELD(x)), HELD(x) != e.ident(cache)), patterns=[HELD(x)]))
    e.fact(z3.ForAll([x, k], z3.Implies(z3.Select(H(x), k), z3.And(V.is_str(k), OBJECT(z3.Select(H(x, 1), k)), V.is_ref(z3.Select(H(x, 1), k)))),
                     patterns=[z3.Select(H(x), k)]))
    # two names are told apart when they are composed
    e.fact(z3.ForAll([a, b], z3.And(V.is_str(COMPOSED(a, b)), FIRST(COMPOSED(a, b)) == a, SECOND(COMPOSED(a, b)) == b), patterns=[COMPOSED(a, b)]))
    split = r == COMPOSED(FIRST(r), SECOND(r))
    # .. and no object has a name like this
    e.fact(z3.Not(z3.And(named(r), OBJECT(at(r)), split, named(FIRST(r)), CONTAINER(at(FIRST(r))), z3.Select(H(at(FIRST(r))), SECOND(r)))))

    def instance(e, st, x, c):
        if c is M.Base2Obj:
            return OBJECT(x.t)
        if c in (M._Map, M._List):
            return (A_MAP if c is M._Map else A_LIST)(x.t)
        raise Unsupported('isinstance of %r' % (c,))
    e.methods[('instance', 'thing')] = instance
    FULL, SIZE = z3.Function('is full', V, B), z3.Function('number of elements', V, I)
    e.fact(z3.ForAll([x], z3.And(
        z3.Implies(OBJECT(x), FULL(x)), z3.Implies(z3.And(CONTAINER(x), z3.Not(FULL(x))), H(x) == NOTHING)), patterns=[FULL(x)]))
    e.methods[('truth', 'thing')] = lambda e, st, x: FULL(x.t)

    def get(e, st, x, a, kw):
        """of a container inside: decided with its own class"""
        e.throw(st.clone(z3.Not(z3.Or(CONTAINER(x.t), OBJECT(x.t)))), AttributeError)
        st = st.clone(CONTAINER(x.t))
        return [(st, Z(V.ref(HELD(x.t)), ('dict', THING, 'str')))]
    e.methods[('thing', 'get_children')] = get

    def compose(e, st, a, kw):
        if kw or len(a) != 1:
            raise Unsupported('call of jp_compose')
        if e.is_str(a[0]):
            raise Unsupported('composing one name')
        q = e.seq(a[0], st)
        if e.feasible(st, length(q) != 2):
            raise Unsupported('not two names')
        return [(st, ZS(V.s(COMPOSED(nth(q, z3.IntVal(0)), nth(q, z3.IntVal(1))))))]
    e.contracts[utils.jp_compose] = compose
    # the cache is empty, or right
    plain, nested = z3.And(named(r), OBJECT(at(r))), z3.And(split, named(FIRST(r)), CONTAINER(at(FIRST(r))), z3.Select(H(at(FIRST(r))), SECOND(r)))
    value = z3.If(plain, at(r), z3.Select(H(at(FIRST(r)), 1), SECOND(r)))

    def right(h, v, plain=plain, nested=nested):
        return z3.And(z3.Select(h, r) == z3.Or(plain, nested), z3.Implies(z3.Or(plain, nested), z3.Select(v, r) == value))
    e.fact(z3.Or(e.has(cache, st) == NOTHING, right(e.has(cache, st), e.val(cache, st))))
    e.fact(z3.Implies(e.has(cache, st) == NOTHING, z3.Not(z3.Select(e.has(cache, st), r))))

    def current(s):
        """the name that is looked at by the loop outside"""
        return [v for n, v in s.ghost.items() if n[0] == 'key'], [v for n, v in s.ghost.items() if n[0] == 'pos']

    def progress(L, s):
        out = []
        seen, pos = L.seen(s), L.pos(s)
        h, v = z3.Select(e.mem(s, 'has'), e.ident(cache)), z3.Select(e.mem(s, 'val'), e.ident(cache))
        keys = [v for n, v in s.ghost.items() if n[0] == 'key']
        places = [v for n, v in s.ghost.items() if n[0] == 'pos']
        before = [v for n, v in s.ghost.items() if n[0] == 'seen']
        rest = []
        if is_list:
            i = NUMBER(V.s(r)), NUMBER(V.s(FIRST(r)))
            if pos is not None:
                out.append(('those so far', right(h, v, z3.And(plain, i[0] < pos), z3.And(nested, i[1] < pos))))
            elif seen is not None and places:
                p = places[0]
                out.append(('those so far', right(h, v, z3.And(plain, i[0] < p), z3.And(nested, z3.Or(i[1] < p, z3.And(
                    i[1] == p, z3.Select(seen, SECOND(r))))))))
        elif seen is not None and not keys:
            out.append(('those so far', right(h, v, z3.And(plain, z3.Select(seen, r)), z3.And(nested, z3.Select(seen, FIRST(r))))))
        elif seen is not None:
            outer = [x for x in before if not x.eq(seen)]
            for o in outer:
                out.append(('those so far', right(h, v, z3.And(plain, z3.Select(o, r)), z3.And(nested, z3.Or(z3.Select(o, FIRST(r)), z3.And(
                    FIRST(r) == keys[0], z3.Select(seen, SECOND(r))))))))
        i = z3.Int('i?')
        if out:
            out.append(('what others have', z3.ForAll([i], z3.Implies(i != e.ident(cache), z3.And(
                z3.Select(e.mem(s, 'has'), i) == z3.Select(held[0], i), z3.Select(e.mem(s, 'val'), i) == z3.Select(held[1], i))))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(cls.__dict__['get_children'], [me], st)
    for n, (s, x) in enumerate(res):
        h, v = e.has(x, s), e.val(x, s)
        e.prove('%s: what is nested, and nothing else' % n, s, right(h, v), keep)
        (s, c), = e.getattr(me, 'children_cache', s)
        e.prove('%s: what is kept for later is right' % n, s, right(e.has(c, s), e.val(c, s)), keep)
        z = z3.Const('z', V)
        e.prove('%s: what others have is as it was' % n, s, z3.Implies(z3.And(CONTAINER(z), z3.Not(OBJECT(z))), z3.And(
            z3.Select(e.mem(s, 'has'), HELD(z)) == H(z), z3.Select(e.mem(s, 'val'), HELD(z)) == H(z, 1))), keep)
    for n, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (n, x.__name__), s, FALSE, keep)
    return e.finish()


#
# handlers
#

ANSWER = z3.Function('answer', V, V, V)      # of a handler to a call


def call_of(*xs):
    """a call, as one value"""
    t = xs[-1]
    for x in reversed(xs[:-1]):
        t = V.pair(x, t)
    return t


def handle(name, with_app, keep):
    """each handler of the kind is called once, in their order, with the pointer and the object; what it gives is passed on"""
    from pyopenapi.migration import scan
    e, st = DV(), St()
    e.abstract = 1000
    H, R = ('obj', 'handler'), ('opt', ('obj', 'taker'))
    cls, app, obj, this, route, res = z3.Consts('kind app obj the_self route res', V)
    path = z3.String('path')
    e.fact(V.is_ref(route), V.id(route) >= 0, ISDICT(V.id(route)), z3.Or(res == NONE, V.is_ref(res)), *[V.is_ref(x) for x in (cls, obj, this)])
    h, v = z3.Select(e.mem(st, 'has'), V.id(route)), z3.Select(e.mem(st, 'val'), V.id(route))
    funcs = z3.Select(v, cls)
    e.fact(z3.Implies(z3.Select(h, cls), z3.And(V.is_ref(funcs), V.id(funcs) >= 0, ISLIST(V.id(funcs)))))
    q = z3.Select(e.mem(st, 'seq'), V.id(funcs))
    i = z3.Int('i?')
    e.fact(length(q) >= 0, z3.ForAll([i], V.is_ref(z3.Select(SEQ.at(q), i)), patterns=[z3.Select(SEQ.at(q), i)]))
    args = [this, V.str(path), obj] + [app] * with_app
    st.ghost['calls'] = st.ghost['results'] = EMPTY

    def called(e, st, x, a, kw):
        if kw:
            raise Unsupported('call by name')
        s = st.clone()
        c = call_of(x.t, *[e.v(y, st) for y in a])
        s.ghost['calls'] = append(s.ghost['calls'], c)
        return [(s, Z(ANSWER(x.t, c), None))]
    e.methods[('handler', '__call__')] = called

    def taken(e, st, x, a, kw):
        s = st.clone()
        s.ghost['results'] = append(s.ghost['results'], call_of(x.t, *[e.v(y, st) for y in a]))
        return [(s, None)]
    e.methods[('taker', '__call__')] = taken
    n = z3.If(z3.Select(h, cls), length(q), z3.IntVal(0))
    j = z3.Int('j')

    def done(s, n):
        c, r = s.ghost['calls'], s.ghost['results']
        f = nth(q, j)
        one = call_of(f, *args)
        m = z3.If(res == NONE, z3.IntVal(0), n)
        return z3.And(length(c) == n, length(r) == m, z3.Implies(z3.And(0 <= j, j < n), nth(c, j) == one), z3.Implies(
            z3.And(0 <= j, j < m), nth(r, j) == call_of(res, this, ANSWER(f, one))))

    def progress(L, s):
        pos = L.pos(s)
        return [('those so far', z3.And(z3.Implies(pos > 0, z3.Select(h, cls)), done(s, pos)))] if pos is not None else []
    e.candidates.append(progress)
    given = [Z(cls, ('obj', 'class'))] + [Z(app, None)] * with_app + [ZS(path), Z(obj, None), Z(this, ('obj', 'the self')), Z(
        route, ('dict', ('list', H), ('obj', 'class'))), Z(res, R)]
    ends, exc = e.execute(getattr(scan, name), given, st)
    for k, (s, _) in enumerate(ends):
        e.prove('%s: every handler of the kind, once, and its results' % k, s, done(s, n), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (k, x.__name__), s, FALSE, keep)
    return e.finish()


TIMES, TIMES0 = [z3.Function(x, ARR, I, I, I) for x in ('calls for it', 'calls for it then')]
WITH, WITH0 = [z3.Function(x, ARR, I, I, I) for x in ('routes like it', 'routes like it then')]
KINDS, KINDS0 = [z3.Function(x, ARR, I, I, I) for x in ('kinds like it', 'kinds like it then')]
CALLS, CALLS0 = [z3.Function(x, ARR, I, I, I) for x in ('calls made', 'calls made then')]
MRO = z3.Function('classes of', V, SEQ)
BASE = z3.Function('place of the base class', V, I)


def scanning(with_app, keep):
    """every handler set is asked once for each object that is visited (with an application: for each class of its kind)"""
    from pyopenapi.migration import scan
    from pyopenapi.migration.spec import Base2Obj
    e, st = DV(), St()
    e.abstract = 300
    e.solver.set('timeout', 500)
    app = z3.Const('app', V)
    root, route, leaves = z3.Consts('root route leaves', V)
    visits, merged = z3.Consts('visits merged', SEQ)
    # what is counted: calls for one pointer and object, with one route, for one class
    path, obj, args, cls = z3.Consts('path obj args kind', V)
    e.fact(z3.Or(root == NONE, V.is_ref(root)), z3.Or(leaves == NONE, V.is_ref(leaves)), V.is_ref(route), length(visits) >= 0, length(merged) >= 0)
    i = z3.Int('i?')
    x, y = z3.Select(SEQ.at(visits), i), z3.Select(SEQ.at(merged), i)
    e.fact(z3.ForAll([i], z3.And(V.is_pair(x), V.is_str(V.fst(x)), V.is_ref(V.snd(x))), patterns=[x]))
    e.fact(z3.ForAll([i], V.is_triple(y), patterns=[y]))
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))  # noqa
    fold(e, WITH, WITH0, lambda y: one(y == args))
    base = V.cls(z3.IntVal(e.code(Base2Obj)))
    mine = lambda c: MRO(c)  # noqa
    kinds = lambda o: KINDS(*([fields(MRO(CLASS(o)))[0], fields(MRO(CLASS(o)))[1], fields(MRO(CLASS(o)))[1] + BASE(CLASS(o))]))  # noqa
    if with_app:
        fold(e, KINDS, KINDS0, lambda c: one(c == cls))
        o = z3.Const('o?', V)
        m = MRO(CLASS(o))
        e.fact(z3.ForAll([o], z3.And(
            length(m) >= 2, 0 <= BASE(CLASS(o)), BASE(CLASS(o)) < length(m) - 1, nth(m, BASE(CLASS(o))) == base,
            z3.ForAll([i], z3.Implies(z3.And(SEQ.lo(m) <= i, i < SEQ.lo(m) + BASE(CLASS(o))), z3.Select(SEQ.at(m), i) != base),
                      patterns=[z3.Select(SEQ.at(m), i)])), patterns=[CLASS(o)]))
    each = (lambda o: kinds(o)) if with_app else lambda o: one(CLASS(o) == cls)  # noqa
    weight = WITH(*fields(merged)[:3])
    PER = z3.Function('calls per visit', V, I)      # product, as repeated addition over the routes
    PART = z3.Function('calls per visit and routes', V, I, I)
    o, n = z3.Const('o?', V), z3.Int('n?')
    e.fact(z3.ForAll([o], PART(o, 0) == 0, patterns=[PART(o, 0)]))
    e.fact(z3.ForAll([o, n], z3.Implies(n >= 0, PART(o, n + 1) == PART(o, n) + z3.If(nth(merged, n) == args, each(o), z3.IntVal(0))), patterns=[PART(o, n + 1)]))
    e.fact(z3.ForAll([o], PER(o) == PART(o, length(merged)), patterns=[PER(o)]))
    here = lambda v: z3.And(V.fst(v) == path, V.snd(v) == obj)  # noqa
    fold(e, TIMES, TIMES0, lambda v: z3.If(here(v), PER(V.snd(v)), z3.IntVal(0)))
    e.attrs[('node', '__class__')] = lambda e, st, x: [(st, Z(CLASS(x.t), ('obj', 'class')))]
    e.fact(z3.ForAll([o], V.is_ref(CLASS(o)), patterns=[CLASS(o)]))
    if with_app:
        def classes(e, st, x):
            s = st.clone()
            r = e.new(s, ('list', None), MRO(x.t))
            s.ek[e.ident(r).as_long()] = ('obj', 'class')
            return [(s, r)]
        e.attrs[('class', '__mro__')] = classes
    st.ghost['count'] = z3.IntVal(0)
    st.ghost['nexts'] = z3.IntVal(0)

    def build(e, st, a, kw):
        if kw or len(a) != 1 or not (isinstance(a[0], Z) and a[0].t.eq(route)):
            raise Unsupported('call of _build_route')
        s = st.clone()
        r = e.new(s, ('list', None), merged)
        s.ek[e.ident(r).as_long()] = ('tup', ('obj', 'the self'), ('obj', 'routes'), ('opt', ('obj', 'taker')))
        return [(s, r)]
    e.contracts[scan._build_route] = build

    def handler(e, st, a, kw):
        want = 7 if with_app else 6
        if kw or len(a) != want:
            raise Unsupported('call of a handler')
        t = [e.v(y, st) for y in a]
        c, p = t[0], t[1 + with_app:]
        ok = z3.And(p[0] == path, p[1] == obj, V.triple(*p[2:]) == args, c == cls, *([t[1] == app] if with_app else []))
        s = st.clone()
        s.ghost['count'] = s.ghost['count'] + one(ok)
        return [(s, None)]
    e.contracts[scan._handle_cls if with_app else scan._handle_cls_without_app] = handler

    def nexter(e, st, x, a, kw):
        if kw or len(a) != 2:
            raise Unsupported('call of the traversal')
        s = st.clone()
        lv = e.v(a[1], st)
        s.ghost['nexts'] = s.ghost['nexts'] + one(z3.And(e.v(a[0], st) == root, z3.Or(lv == leaves, leaves == NONE, z3.Not(e.truth(Z(
            leaves, ('obj', 'leaves')), st)))))
        r = e.new(s, ('list', None), visits)
        s.ek[e.ident(r).as_long()] = ('tup', 'str', ('obj', 'node'))
        return [(s, r)]
    e.methods[('nexter', '__call__')] = nexter
    FULL = z3.Const('leaves are given', B)
    e.methods[('truth', 'leaves')] = lambda e, st, x: FULL

    def count(s, n, extra=0):
        at, lo, hi = fields(visits)[:3]
        return s.ghost['count'] == TIMES(at, lo, lo + n) + extra

    def progress(L, s):
        pos = L.pos(s)
        every = [v for n, v in sorted(s.ghost.items(), key=str) if n[0] == 'pos']
        out = [('asked once', s.ghost['nexts'] == 1)]
        if len(every) == 1:
            out.append(('calls so far', count(s, pos)))
        else:
            v = nth(visits, every[0])
            got = PART(V.snd(v), every[1])
            if len(every) == 2:
                out.append(('calls so far', count(s, every[0], z3.If(here(v), got, z3.IntVal(0)))))
            else:
                m = MRO(CLASS(V.snd(v)))
                at, lo = SEQ.at(m), SEQ.lo(m)
                out.append(('calls so far', z3.And(every[2] <= BASE(CLASS(V.snd(v))), count(s, every[0], z3.If(here(v), got + z3.If(
                    nth(merged, every[1]) == args, KINDS(at, lo, lo + every[2]), z3.IntVal(0)), z3.IntVal(0))))))
        return out
    e.candidates.append(progress)
    given = [Z(route, ('obj', 'route')), Z(root, ('opt', ('obj', 'node'))), Z(z3.Const('nexter', V), ('obj', 'nexter')), Z(leaves, ('opt', ('obj', 'leaves')))]
    e.fact(V.is_ref(z3.Const('nexter', V)))
    fn = scan.scan
    if with_app:
        fn = scan.Scanner.__dict__['scan']
        e.fields[scan.Scanner] = {'_Scanner__app': None}
        me = Z(V.ref(z3.Int('scanner')), ('obj', scan.Scanner))
        e.fact(z3.Int('scanner') >= 0, z3.Select(e.mem(st, 'attr._Scanner__app'), z3.Int('scanner')) == app)
        given = [me] + given
    ends, exc = e.execute(fn, given, st)
    for k, (s, _) in enumerate(ends):
        e.prove('%s: each set of handlers, for each object visited' % k, s, z3.And(root != NONE, count(s, length(visits))), keep)
        e.prove('%s: the traversal of this root, with these leaves' % k, s, s.ghost['nexts'] == 1, keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s): nothing to scan' % (k, x.__name__), s, z3.And(z3.BoolVal(x is ValueError), root == NONE), keep)
    return e.finish()


def build_route(keep):
    """the handlers of each route are those of its dispatcher"""
    from pyopenapi.migration import scan
    e, st = DV(), St()
    e.abstract = 300
    e.solver.set('timeout', 500)
    routes = z3.Const('routes', V)
    VARS = z3.Function('vars', V, I)
    KEY = z3.Function('name of the dispatcher', V, V)
    ISA_ = z3.Function('is a dispatcher', V, B)
    HANDLERS, RESULT = z3.Function('handlers', V, V), z3.Function('taker', V, V)
    x, k = z3.Consts('x? k?', V)
    i = z3.Int('i?')
    e.fact(V.is_ref(routes), V.id(routes) >= 0, ISLIST(V.id(routes)))
    q = z3.Select(e.mem(st, 'seq'), V.id(routes))
    e.fact(length(q) >= 0)
    has, val = e.mem(st, 'has'), e.mem(st, 'val')
    v = VARS(CLASS(x))
    own = lambda c: z3.Select(z3.Select(val, VARS(c)), KEY(c))  # noqa
    e.fact(z3.ForAll([k], z3.And(VARS(k) >= 0, ISDICT(VARS(k)), z3.Implies(KEY(k) != NONE, z3.And(
        z3.Select(z3.Select(has, VARS(k)), KEY(k)), ISA_(own(k)), V.is_ref(own(k))))), patterns=[VARS(k)]))
    # a class has at most one dispatcher
    at = z3.Select(z3.Select(val, VARS(x)), k)
    e.fact(z3.ForAll([x, k], z3.Implies(z3.And(z3.Select(z3.Select(has, VARS(x)), k), ISA_(at)), z3.And(KEY(x) == k, k != NONE)), patterns=[at]))
    el = z3.Select(SEQ.at(q), i)
    e.fact(z3.ForAll([i], z3.And(V.is_ref(el), V.is_ref(CLASS(el))), patterns=[el]))
    e.attrs[('route', '__class__')] = lambda e, st, x: [(st, Z(CLASS(x.t), ('obj', 'class')))]

    def variables(e, st, a, kw):
        return [(st, Z(V.ref(VARS(a[0].t)), ('dict', ('obj', 'variable'), None)))]
    e.contracts[vars] = variables

    def instance(e, st, x, c):
        if c is not scan.DispatcherMeta:
            raise Unsupported('isinstance of %r' % (c,))
        return ISA_(x.t)
    e.methods[('instance', 'variable')] = instance
    RES = z3.Function('list of its taker', V, I)

    def handlers(e, st, x):
        return [(s, Z(HANDLERS(x.t), ('obj', 'handlers'))) for s in e.guard(st, z3.Not(ISA_(x.t)), AttributeError)]

    def result(e, st, x):
        out = []
        for s in e.guard(st, z3.Not(ISA_(x.t)), AttributeError):
            r = e.new(s, ('list', None), append(EMPTY, RESULT(x.t)))
            s.ek[e.ident(r).as_long()] = ('opt', ('obj', 'taker'))
            out.append((s, r))
        return out
    e.attrs[('variable', 'obj_route')], e.attrs[('variable', 'result_fn')] = handlers, result
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))  # noqa
    this = z3.Const('this', V)
    made = lambda r: V.triple(r, HANDLERS(own(CLASS(r))), RESULT(own(CLASS(r))))  # noqa
    fold(e, WITH, WITH0, lambda t: one(t == this))
    fold(e, TIMES, TIMES0, lambda r: one(z3.And(KEY(CLASS(r)) != NONE, made(r) == this)))

    def given(s, l, pos):
        return WITH(*fields(l)[:3]) == TIMES(SEQ.at(q), SEQ.lo(q), SEQ.lo(q) + pos)

    def progress(L, s):
        out = []
        pos = [v for n, v in s.ghost.items() if n[0] == 'pos']
        seen = L.seen(s)
        for n, y in s.env.items():
            if not (isinstance(y, Z) and isinstance(y.kind, tuple) and y.kind[0] == 'list' and n != 'routes'):
                continue
            l = e.seq(y, s)
            if pos:
                out.append(('? %s: those so far' % n, given(s, l, pos[0])))
            if seen is not None:
                r = nth(q, pos[0])
                out.append(('no dispatcher yet', z3.Implies(KEY(CLASS(r)) != NONE, z3.Not(z3.Select(seen, KEY(CLASS(r)))))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(scan._build_route, [Z(routes, ('list', ('obj', 'route')))], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: what each dispatcher has, once' % n, s, given(s, e.seq(v, s), length(q)), keep)
    for n, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (n, x.__name__), s, FALSE, keep)
    return e.finish()


def add_route(keep):
    """a handler is added to those of its kind, after them; other kinds keep theirs"""
    from pyopenapi.migration import scan
    e, st = DV(), St()
    cls, kind, func, other = z3.Consts('cls kind func other', V)
    routes = z3.Int('routes')
    SPECIAL = z3.Bool('is a kind of object')
    e.fact(*[V.is_ref(x) for x in (cls, kind, func, other)])
    e.fact(routes >= 0, ISDICT(routes))
    e.contracts[issubclass] = lambda e, st, a, kw: [(st, ZB(SPECIAL))]
    e.attrs[('dispatcher', 'obj_route')] = lambda e, st, x: [(st, Z(V.ref(routes), ('dict', ('list', ('obj', 'handler')), ('obj', 'class'))))]
    seqs = e.mem(st, 'seq')
    H0, V0 = z3.Select(e.mem(st, 'has'), routes), z3.Select(e.mem(st, 'val'), routes)
    k, j = z3.Const('k?', V), z3.Int('j')
    # each kind has a list of its own
    own = z3.Function('kind of the list', I, V)
    e.fact(z3.ForAll([k], z3.Implies(z3.Select(H0, k), z3.And(
        V.is_ref(z3.Select(V0, k)), V.id(z3.Select(V0, k)) >= 0, ISLIST(V.id(z3.Select(V0, k))), own(V.id(z3.Select(V0, k))) == k,
        length(z3.Select(seqs, V.id(z3.Select(V0, k)))) >= 0)),
        patterns=[z3.Select(V0, k)]))
    fn = scan.Dispatcher.__dict__['_Dispatcher__add_route'].__func__
    res, exc = e.execute(fn, [Z(cls, ('obj', 'dispatcher')), Z(kind, ('obj', 'class')), Z(func, ('obj', 'handler'))], st)

    def of(s, k):
        h, v = z3.Select(e.mem(s, 'has'), routes), z3.Select(e.mem(s, 'val'), routes)
        return z3.Select(h, k), z3.Select(e.mem(s, 'seq'), V.id(z3.Select(v, k)))
    for n, (s, _) in enumerate(res):
        (h0, q0), (h1, q1) = of(st, kind), of(s, kind)
        m = z3.If(h0, length(q0), z3.IntVal(0))
        e.prove('%s: added at the end' % n, s, z3.And(SPECIAL, h1, length(q1) == m + 1, nth(q1, m) == func, z3.Implies(z3.And(
            h0, 0 <= j, j < m), nth(q1, j) == nth(q0, j))), keep)
        (h0, q0), (h1, q1) = of(st, other), of(s, other)
        e.prove('%s: others keep theirs' % n, s, z3.Implies(other != kind, z3.And(h0 == h1, z3.Implies(h0, q0 == q1))), keep)
    for n, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s): not a kind of object' % (n, x.__name__), s, z3.And(z3.BoolVal(x is ValueError), z3.Not(SPECIAL)), keep)
    return e.finish()


def register(keep):
    """a function is registered for each of the kinds, once, and given back"""
    from pyopenapi.migration import scan
    e, st = DV(), St()
    cls, kinds, func = z3.Consts('cls kinds func', V)
    e.fact(V.is_ref(kinds), V.id(kinds) >= 0, ISLIST(V.id(kinds)), V.is_ref(func), V.is_ref(cls))
    q = z3.Select(e.mem(st, 'seq'), V.id(kinds))
    e.fact(length(q) >= 0)
    st.ghost['added'] = EMPTY
    i = z3.Int('i?')
    e.fact(z3.ForAll([i], V.is_ref(z3.Select(SEQ.at(q), i)), patterns=[z3.Select(SEQ.at(q), i)]))

    def add(e, st, x, a, kw):
        if len(a) != 2 or kw:
            raise Unsupported('call of __add_route')
        bad = st.clone()
        bad.ghost['failed'] = TRUE
        e.throw(bad, ValueError)
        s = st.clone()
        s.ghost['added'] = append(s.ghost['added'], V.pair(e.v(a[0], st), e.v(a[1], st)))
        return [(s, None)]
    e.methods[('dispatcher', '_Dispatcher__add_route')] = add
    st.ghost['failed'] = FALSE
    j = z3.Int('j')

    def done(s, n):
        g = s.ghost['added']
        return z3.And(length(g) == n, z3.Implies(z3.And(0 <= j, j < n), nth(g, j) == V.pair(nth(q, j), func)))
    e.candidates.append(lambda L, s: [('those so far', done(s, L.pos(s)))] if L.pos(s) is not None else [])
    (s, f), = e.execute(scan.Dispatcher.__dict__['register'].__func__, [Z(cls, ('obj', 'dispatcher')), Z(kinds, ('list', ('obj', 'class')))], st)[0]
    e.prove('nothing is registered yet', s, length(s.ghost['added']) == 0, keep)
    e.sink = [[]]
    for n, (s, v) in enumerate(e.calls(f, [Z(func, ('obj', 'handler'))], {}, s)):
        e.prove('%s: for each kind, in their order' % n, s, done(s, length(q)), keep)
        e.prove('%s: given back' % n, s, e.v(v, s) == func, keep)
    for n, (s, x, _) in enumerate(e.sink[0]):
        e.prove('error %s (%s): only from adding' % (n, x.__name__), s, s.ghost['failed'], keep)
    return e.finish()


def changed(name, fn, keep):
    """what is nested may change: nothing is kept of what was there before"""
    from pyopenapi.migration.spec import obj as M
    cls = getattr(M, name)
    e, st = DV(), St()
    e.abstract = 300
    T = THING
    is_list, is_obj = name == '_List', name == 'Base2Obj'
    elm = '%s__elm' % name
    e.fields[cls] = {'children_cache': ('dict', T, 'str'), elm: ('list', T) if is_list else ('dict', T, 'str'), '__children__': ('dict', None, 'str'), '_Base__path': ('opt', 'str')}
    me, obj, other = Z(V.ref(z3.Int('self')), ('obj', cls)), z3.Const('obj', V), z3.Const('other', V)
    key, k = z3.String('key'), z3.Const('k', V)
    e.fact(z3.Int('self') >= 0, V.is_ref(obj), V.is_ref(other), V.id(other) >= 0, ISLIST(V.id(other)))
    (st, cache), = e.getattr(me, 'children_cache', st)
    st.ghost['set'], st.ghost['value'] = NOTHING, z3.K(V, NONE)

    def SET_(s, n):
        return z3.Select(s.ghost['value'], n)
    if not is_obj:
        (st, inside), = e.getattr(me, elm, st)
        e.fact(e.ident(inside) != e.ident(cache), e.ident(inside) != z3.Int('self'), V.id(other) != e.ident(inside))
        q0 = e.seq(inside, st) if is_list else None
    else:
        (st, names), = e.getattr(me, '__children__', st)
        known = e.has(names, st)
        e.fact(e.ident(names) != e.ident(cache))
        FULL = z3.Function('is full', V, B)
        e.fact(z3.Not(FULL(NONE)))
        e.methods[('truth', 'thing')] = lambda e, st, x: FULL(x.t)

        def attribute(e, st, a, kw):
            if len(a) == 2 and not isinstance(a[1], str) and isinstance(a[0], Z):
                n = e.v(a[1], st)
                if a[0].t.eq(me.t):
                    return [(st, Z(ATTR(me.t, n), T))]
                return [(st, Z(ATTR(a[0].t, n), T))]
            return NotImplemented

        def assign(e, st, a, kw):
            if len(a) == 3 and not isinstance(a[1], str) and isinstance(a[0], Z) and a[0].t.eq(me.t):
                s = st.clone()
                n = e.v(a[1], st)
                bad = st.clone()
                bad.ghost['failed'] = TRUE
                e.throw(bad, Exception)
                s.ghost['value'] = z3.Store(s.ghost['value'], n, e.v(a[2], st))
                s.ghost['set'] = z3.Store(s.ghost['set'], n, TRUE)
                return [(s, None)]
            return NotImplemented
        e.contracts[getattr], e.contracts[setattr] = attribute, assign
        PARENT = z3.Function('has a parent', V, B)

        def parent(e, st, x, a, kw):
            s = st.clone()
            s.ghost['parent'] = V.pair(x.t, e.v(a[0], st))
            return [(s, None)]
        e.methods[('thing', 'set_parent')] = parent
        e.contracts[hasattr] = lambda e, st, a, kw: [(st, ZB(PARENT(e.v(a[0], st))))] if a[1] == 'set_parent' else NotImplemented
        st.ghost['parent'], st.ghost['failed'] = NONE, FALSE
        e.fact(V.is_str(k))

        def merging(L, s):
            seen = L.seen(s)
            if seen is None:
                return []
            m, o = ATTR(me.t, k), ATTR(other, k)
            want = z3.And(z3.Select(seen, k), z3.Not(FULL(m)), FULL(o))
            return [('those so far', z3.And(z3.Select(s.ghost['set'], k) == want, z3.Implies(want, SET_(s, k) == o)))]
        e.candidates.append(merging)
    given = {'append': [me, Z(obj, T)], 'extend': [me, Z(other, ('list', T))], '__setitem__': [me, ZS(key), Z(obj, T)],
             'merge_children': [me, Z(other, ('obj', 'another'))], 'attach_child': [me, ZS(key), Z(obj, T)]}[fn]
    res, exc = e.execute(cls.__dict__[fn], given, st)
    for n, (s, _) in enumerate(res):
        (s, c), = e.getattr(me, 'children_cache', s)
        e.prove('%s: children are collected anew' % n, s, e.has(c, s) == NOTHING, keep)
        if fn == 'attach_child':
            e.prove('%s: attached' % n, s, z3.And(z3.Select(known, V.str(key)), s.ghost['set'] == z3.Store(NOTHING, V.str(key), TRUE), SET_(s, V.str(key)) == obj), keep)
            e.prove('%s: its parent' % n, s, z3.Implies(PARENT(obj), s.ghost['parent'] == V.pair(obj, me.t)), keep)
        elif fn == 'merge_children':
            m, o = ATTR(me.t, k), ATTR(other, k)
            want = z3.And(z3.Select(known, k), z3.Not(FULL(m)), FULL(o))
            e.prove('%s: what is missing is taken, and nothing else' % n, s, z3.And(z3.Select(s.ghost['set'], k) == want, z3.Implies(
                want, SET_(s, k) == o)), keep)
        else:
            (s, x), = e.getattr(me, elm, s)
            if fn == '__setitem__':
                e.prove('%s: set' % n, s, z3.And(e.has(x, s) == z3.Store(e.has(inside, st), V.str(key), TRUE), e.val(x, s) == z3.Store(
                    e.val(inside, st), V.str(key), obj)), keep)
            elif fn == 'append':
                q, j = e.seq(x, s), z3.Int('j')
                e.prove('%s: appended' % n, s, z3.And(length(q) == length(q0) + 1, nth(q, length(q0)) == obj, z3.Implies(z3.And(
                    0 <= j, j < length(q0)), nth(q, j) == nth(q0, j))), keep)
    for n, (s, x, _) in enumerate(exc):
        ok = s.ghost['failed'] if is_obj else FALSE
        if fn == 'attach_child':
            ok = z3.Or(ok, z3.Not(z3.Select(known, V.str(key))))
        e.prove('error %s (%s)' % (n, x.__name__), s, ok, keep)
    return e.finish()


CHANGES = [('Base2Obj', 'attach_child'), ('Base2Obj', 'merge_children'), ('_List', 'append'), ('_List', 'extend'), ('_Map', '__setitem__')]
ASSUMPTIONS = [
    'children are named by strings; two names that are composed can be told apart again (decided by C01; the known finding '
    'c06-nested-container is about what is composed twice), and no object has such a name itself',
    'what a container or another object gives as its children is that of the contract of its own class; each object has a cache '
    'of its own, and the children of an object do not change while it is traversed',
    'an object without elements is a container; an object that is not one counts as true',
    'a class has at most one dispatcher; handlers and takers of results do not change what is scanned',
    'for a class of objects, the base class is among its classes, before the last',
    'each kind of a dispatcher has a list of handlers of its own',
]
UNITS = [('default_tree_traversal', traversal)] + [('children of ' + n, lambda keep, n=n: children(n, keep)) for n in ('Base2Obj', '_Map', '_List')] + [
    ('_handle_cls', lambda keep: handle('_handle_cls', True, keep)), ('_handle_cls_without_app', lambda keep: handle('_handle_cls_without_app', False, keep)),
    ('_build_route', build_route), ('__add_route', add_route), ('register', register), ('scan', lambda keep: scanning(False, keep)), ('Scanner.scan', lambda keep: scanning(True, keep))] + [
    ('%s.%s' % (c, f), lambda keep, c=c, f=f: changed(c, f, keep)) for c, f in CHANGES]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
