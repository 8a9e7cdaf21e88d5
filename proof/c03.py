"""C03: JSON Pointers of moved objects are translated exactly"""
from lib import impl  # noqa: finds the package
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.c04 import TAIL, init, is_under, tail, under
from proof.values import Unsupported

STR = z3.StringVal
SLASH = STR('/')


UNDER = z3.Function('covered by', S, S, B)     # what _is_under gives (C04)
KEY = z3.Function('longest entry', I, S, V)
JOIN = z3.Function('joined', S, S, S, S)     # of the prefix and an entry, when so much remains
NEW, NEW0 = [z3.Function(x, I, S, S, V) for x in ('translated', 'translated then')]


def after(a, b):
    """what follows b/ in a"""
    return TAIL(TAIL(a, z3.Length(b)), z3.IntVal(1))


def truthy(e, st, v):
    """of what a table lists: a pointer or a nested table"""
    u = V.id(v)
    return z3.Or(z3.And(V.is_str(v), V.s(v) != STR('')), z3.And(V.is_ref(v), z3.Select(e.mem(st, 'has'), u) != NOTHING))


class Tables(object):
    def __init__(self):
        self.e, self.st = DV(), St()
        e, st = self.e, self.st
        e.solver.set('timeout', 500)
        e.retry = 3000
        e.abstract = 1500
        e.merging = 1000
        self.jp = jp = z3.String('jp')
        self.routes = routes = z3.Const('routes', V)
        e.fact(V.is_ref(routes), V.id(routes) >= 0, ISDICT(V.id(routes)), z3.Not(ISLIST(V.id(routes))))
        has, val = e.mem(st, 'has'), e.mem(st, 'val')
        u, g, r, f = z3.Int('u?'), z3.Const('g?', V), z3.String('r?'), z3.String('f?')
        x, there = z3.Select(z3.Select(val, u), g), z3.Select(z3.Select(has, u), g)
        # a table lists pointers and nested tables; those are not listed for the table itself; its locations do not end with /
        e.fact(z3.ForAll([u, g], z3.Implies(z3.And(u >= 0, there), z3.And(V.is_str(g), z3.Or(
            z3.And(V.is_str(x), z3.Not(z3.SuffixOf(SLASH, V.s(x)))),
            z3.And(V.is_ref(x), V.id(x) >= 0, ISDICT(V.id(x)), z3.Not(ISLIST(V.id(x))), V.s(g) != STR(''))))),
            patterns=[x, there]))
        # the table itself lists whole pointers
        e.fact(z3.Not(z3.Select(z3.Select(has, V.id(routes)), V.str(STR('')))))
        # the longest entry that covers a pointer
        k = KEY(u, r)
        e.fact(z3.ForAll([u, r], z3.Or(k == NONE, z3.And(V.is_str(k), self.match(u, r, k))), patterns=[k]))
        e.fact(z3.ForAll([u, r, g], z3.Implies(self.match(u, r, g), z3.And(k != NONE, z3.Or(
            z3.Length(V.s(k)) > z3.Length(V.s(g)), k == g))),
                         patterns=[z3.MultiPattern(k, there)]))
        # where it leads
        v = z3.Select(z3.Select(val, u), k)
        e.fact(z3.ForAll([u, f, r], z3.And(NEW(u, f, r) == NEW0(u, f, r), NEW(u, f, r) == z3.If(
            k == NONE, V.str(jp), z3.If(V.is_str(v), V.str(self.final(f, V.s(k), V.s(v), r)), NEW0(V.id(v), JOIN(f, V.s(k), r), strip(
                r, V.s(k)))))), patterns=[NEW(u, f, r)]))
        j = JOIN(f, V.s(g), r)
        e.fact(z3.ForAll([f, g, r], z3.And(j == join(f, V.s(g)), self.joined(f, V.s(g), r, j, UNDER)), patterns=[j]))
        e.fact(z3.ForAll([u, f, r], z3.Implies(z3.And(z3.Not(z3.SuffixOf(SLASH, V.s(v))), V.s(v) != STR('')), z3.Not(z3.SuffixOf(
            SLASH, based(f, V.s(v))))), patterns=[NEW(u, f, r)]))
        self.want = NEW(V.id(routes), STR(''), jp)

    def match(self, u, r, g):
        e, st = self.e, self.st
        x = z3.Select(z3.Select(e.mem(st, 'val'), u), g)
        return z3.And(z3.Select(z3.Select(e.mem(st, 'has'), u), g), truthy(e, st, x), UNDER(r, V.s(g)))

    def final(self, f, k, v, r):
        a = JOIN(f, k, r)
        base = based(f, v)
        return z3.If(self.jp == a, base, z3.Concat(base, SLASH, after(self.jp, a)))

    def joined(self, f, k, r, a, under):
        """what an entry covers of what remains, it covers of the pointer together with the prefix"""
        return z3.Implies(z3.And(self.remains(f, r), under(r, k), a == join(f, k), a != STR('')), under(self.jp, a))

    def remains(self, f, r):
        jp = self.jp
        return z3.If(f == STR(''), r == jp, z3.Or(z3.And(jp == f, r == STR('')), jp == z3.Concat(f, SLASH, r)))


def based(f, v):
    return z3.If(z3.PrefixOf(STR('#'), v), v, z3.Concat(f, SLASH, v))


def join(f, k):
    return z3.If(f == STR(''), k, z3.If(k == STR(''), f, z3.Concat(f, SLASH, k)))


def strip(r, k):
    return z3.If(r == k, STR(''), after(r, k))


def patch(keep):
    from pyopenapi.migration import store
    w = Tables()
    e, st, jp = w.e, w.st, w.jp
    a, b, r = z3.Strings('a b r')
    g = z3.Const('g?', V)
    e.lemma('two entries of the same length that cover a pointer are the same', z3.Implies(z3.And(
        under(r, a), under(r, b), z3.Length(a) == z3.Length(b)), a == b), keep)

    e.tail = TAIL
    f = z3.String('f')
    e.lemma('what an entry covers', w.joined(f, a, r, b, under), keep)
    e.lemma('no / at the end', z3.Implies(z3.And(z3.Not(z3.SuffixOf(SLASH, a)), a != STR('')), z3.Not(z3.SuffixOf(SLASH, based(f, a)))), keep)

    def lemmas(tail, under):
        x, y = tail(r, z3.Length(a)), tail(tail(r, z3.Length(a)), z3.IntVal(1))
        yield z3.Implies(z3.And(under(r, a), a != STR('')), z3.Or(
            z3.And(r == a, x == STR('')), z3.And(r != a, r == z3.Concat(a, SLASH, y), x == z3.Concat(SLASH, y))))
        yield z3.Implies(z3.And(a == STR('')), x == r)
    for n, c in enumerate(lemmas(tail, under)):
        e.lemma('remainder %s' % n, c, keep)
    e.fact(*[z3.ForAll([r, a], c, patterns=[TAIL(r, z3.Length(a))]) for c in lemmas(TAIL, UNDER)])
    e.contracts[store._is_under] = lambda e, st, a, kw: [(st, ZB(UNDER(e.s(a[0]), e.s(a[1]))))]

    def progress(L, s):
        out = []
        env = s.env
        cur, to, fix, rem, frm = [env.get(n) for n in ('current_routes', 'patch_to', 'fixed_prefix', 'remain_jp', 'patch_from')]
        if cur is None or fix is None or rem is None:
            return out
        c, f, r = e.v(cur, s), e.s(fix), e.s(rem)
        seen = L.seen(s)
        if seen is None:
            out.append(('a table', z3.And(V.is_ref(c), V.id(c) >= 0, ISDICT(V.id(c)), z3.Not(ISLIST(V.id(c))))))
            out.append(('nothing chosen', e.v(to, s) == NONE))
            out.append(('what remains', z3.And(w.remains(f, r), z3.Implies(f == STR(''), c == w.routes))))
            out.append(('where it leads', NEW(V.id(c), f, r) == w.want))
        elif frm is None or isinstance(frm, (Z, ZS)):
            p, t = e.v(frm, s), e.v(to, s)
            out.append(('the longest so far', z3.And(
                z3.Implies(p == NONE, t == NONE),
                z3.Implies(p != NONE, z3.And(V.is_str(p), z3.Select(seen, p), w.match(V.id(c), r, p), t == z3.Select(z3.Select(
                    e.mem(w.st, 'val'), V.id(c)), p))))))
            out.append(('of those before', z3.ForAll([g], z3.Implies(z3.And(z3.Select(seen, g), w.match(V.id(c), r, g)), z3.And(
                p != NONE, z3.Length(V.s(g)) <= z3.Length(V.s(p)))), patterns=[z3.Select(seen, g)])))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(store.SpecObjStore._patch_jp, [ZS(jp), Z(w.routes, ('dict', None, 'str'))], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: replaced by the location of the longest entry' % n, s, e.v(v, s) == w.want, keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('no error (%s)' % c.__name__, s, FALSE, keep)
    return e.finish()


P = '_SpecObjStore__'
ORD = z3.Function('order', S, I)            # of versions
PATCHED = z3.Function('patched', S, V, S)   # what _patch_jp gives
ROUTE = z3.Function('routes of', S, V)      # by version
VSEQ, RSEQ = z3.Consts('versions routes?', SEQ)


class Versions(object):
    """the tables of a document: a mapping in the order of the versions"""
    def __init__(self, e, st, store):
        self.e = e
        self.q, self.r = z3.Const('versions', SEQ), z3.Const('tables', SEQ)
        q, r = self.q, self.r
        i, j = z3.Ints('i? j?')
        at, lo, hi = SEQ.at(q), SEQ.lo(q), SEQ.hi(q)
        e.fact(length(q) >= 0, length(r) == length(q), SEQ.lo(r) == lo)
        e.fact(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(
            V.is_str(z3.Select(at, i)), z3.Select(SEQ.at(r), i) == ROUTE(V.s(z3.Select(at, i))), z3.Select(els(q), z3.Select(at, i)),
            z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < i), ORD(V.s(z3.Select(at, j))) < ORD(V.s(z3.Select(at, i)))),
                      patterns=[z3.Select(at, j)]))), patterns=[z3.Select(at, i)]))
        for k, h in (('__iter__', lambda st: self.names(st)), ('keys', lambda st: self.names(st)), ('values', lambda st: self.tables(st)),
                     ('items', lambda st: View('zip', [self.names(st), self.tables(st)]))):
            e.methods[('versions', k)] = lambda e, st, x, a, kw, h=h: [(st, h(st))]
        e.methods[('versions', '__contains__')] = lambda e, st, x, a, kw: [(st, ZB(z3.Select(els(q), e.v(a[0], st))))]

        def item(e, st, x, a, kw):
            v = e.v(a[0], st)
            e.throw(st.clone(z3.Not(z3.Select(els(q), v))), KeyError)
            return [(st.clone(z3.Select(els(q), v)), Z(ROUTE(V.s(v)), ('dict', None, 'str')))]
        e.methods[('versions', '__getitem__')] = item

    def names(self, st):
        return self.listing(st, self.q, 'str')

    def tables(self, st):
        return self.listing(st, self.r, ('dict', None, 'str'))

    def listing(self, st, q, kind):
        e = self.e
        r = e.new(st, ('list', kind), q)
        st.ek[e.ident(r).as_long()] = kind
        return r


def relocate(keep):
    from distutils.version import StrictVersion
    from pyopenapi import consts
    from pyopenapi.migration import store
    e, st = DV(), St()
    C = store.SpecObjStore
    e.fields[C] = {P + 'routes': ('dict', ('obj', 'versions'), 'str')}
    me = Z(V.ref(z3.Int('store')), ('obj', C))
    e.fact(z3.Int('store') >= 0)
    w = Versions(e, st, me)
    (st, routes), = e.getattr(me, P + 'routes', st)
    url, jp, frm = z3.Strings('url jp from_spec')
    to = z3.Const('to_spec', V)
    e.fact(z3.Or(to == NONE, V.is_str(to)))
    target = z3.If(z3.Or(to == NONE, to == V.str(STR(''))), STR(consts.DEFAULT_OPENAPI_SPEC_VERSION), V.s(to))
    known = z3.Select(e.has(routes, st), V.str(url))
    q, r = w.q, w.r
    at, lo = SEQ.at(q), SEQ.lo(q)
    OF = z3.Function('pointer after', I, S)
    i = z3.Int('i?')
    name = V.s(z3.Select(at, i))
    e.fact(OF(lo) == jp, z3.ForAll([i], z3.Implies(lo <= i, OF(i + 1) == z3.If(
        ORD(name) <= ORD(frm), OF(i), PATCHED(OF(i), ROUTE(name)))), patterns=[OF(i)]))
    # the versions up to the one that is asked for
    p = z3.Int('p')
    e.fact(0 <= p, p <= length(q), z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < lo + p), ORD(name) <= ORD(target)), patterns=[z3.Select(at, i)]),
           z3.Or(p == length(q), ORD(V.s(nth(q, p))) > ORD(target)))
    e.contracts[StrictVersion] = lambda e, st, a, kw: [(st, ZI(ORD(V.s(e.v(a[0], st)))))]

    def patched(e, st, a, kw):
        s, t = a[-2:]
        return [(st, ZS(PATCHED(e.s(s), e.v(t, st))))]
    e.contracts[C._patch_jp] = patched

    def progress(L, s):
        out = []
        pos = L.pos(s)
        if pos is not None:
            for n, t in L.vars(s, 'str'):
                out.append(('? %s is the pointer so far' % n, t == OF(lo + pos)))
            out.append(('those beyond are not later', z3.Or(pos <= p, OF(lo + pos) == OF(lo + p))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(C.relocate, [me, ZS(url), ZS(jp), ZS(frm), Z(to, None)], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: patched for every later version up to the one asked for, in order' % n, s, e.s(v) == z3.If(known, OF(lo + p), jp), keep)
        e.prove('%s: to a version that is known' % n, s, z3.Implies(known, z3.Select(els(q), V.str(target))), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s: the version is not known' % n, s, z3.And(known, z3.Not(z3.Select(els(q), V.str(target)))), keep)
    return e.finish()


def update(keep):
    """update_routes, of a document that has tables"""
    from pyopenapi.migration import store
    e, st = DV(), St()
    e.solver.set('timeout', 500)
    C = store.SpecObjStore
    table = ('dict', None, 'str')
    tables = ('dict', table, 'str')
    e.fields[C] = {P + 'routes': ('dict', tables, 'str'), P + 'migratable_spec_versions': ('list', 'str')}
    me = Z(V.ref(z3.Int('store')), ('obj', C))
    e.fact(z3.Int('store') >= 0)
    (st, docs), = e.getattr(me, P + 'routes', st)
    (st, vs), = e.getattr(me, P + 'migratable_spec_versions', st)
    q = e.seq(vs, st)
    at, lo, hi = SEQ.at(q), SEQ.lo(q), SEQ.hi(q)
    url, to = z3.Strings('url to_spec')
    routes = z3.Const('routes', V)
    U, W = V.str(url), V.str(to)
    LEVEL, OWNER = z3.Function('level', I, I), z3.Function('owner', I, V)
    e.fact(LEVEL(e.ident(docs)) == 0, V.is_ref(routes), V.id(routes) >= 0, ISDICT(V.id(routes)), LEVEL(V.id(routes)) == 3)
    k, u, i = z3.Const('k?', V), z3.Int('u?'), z3.Int('i?')
    has, val = e.mem(st, 'has'), e.mem(st, 'val')
    x = z3.Select(z3.Select(val, u), k)
    # each document has tables of its own, for the versions the store knows
    for n in (0, 1):
        e.fact(z3.ForAll([u, k], z3.Implies(z3.And(u >= 0, LEVEL(u) == n, z3.Select(z3.Select(has, u), k)), z3.And(
            V.is_str(k), V.is_ref(x), V.id(x) >= 0, ISDICT(V.id(x)), z3.Not(ISLIST(V.id(x))), LEVEL(V.id(x)) == n + 1,
            OWNER(V.id(x)) == V.pair(V.int(u), k), z3.Implies(n == 1, z3.Select(els(q), k)))), patterns=[x]))
    e.fact(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(V.is_str(z3.Select(at, i)), z3.Select(els(q), z3.Select(at, i)))),
                     patterns=[z3.Select(at, i)]))
    e.fact(length(q) >= 0)
    d0 = z3.Select(val, V.id(docs.t))
    known = z3.Select(z3.Select(has, V.id(docs.t)), U)
    e.fact(known)
    e.fact(z3.ForAll([k], z3.Implies(z3.And(known, z3.Select(els(q), k)), z3.Select(z3.Select(has, V.id(z3.Select(d0, U))), k)),
                     patterns=[z3.Select(z3.Select(has, V.id(z3.Select(d0, U))), k)]))
    st0 = st.clone()
    g, ou, ov = z3.Consts('g other_url other_version', V)
    for t in (g, ou, ov):
        e.fact(V.is_str(t))

    def table_of(s, url, version):
        has, val = e.mem(s, 'has'), e.mem(s, 'val')
        t = V.id(z3.Select(z3.Select(val, V.id(docs.t)), url))
        return z3.And(z3.Select(z3.Select(has, V.id(docs.t)), url), z3.Select(z3.Select(has, t), version)), V.id(
            z3.Select(z3.Select(val, t), version))

    def entry(s, url, version, k):
        """what a table has for a pointer"""
        there, t = table_of(s, url, version)
        return z3.If(z3.And(there, z3.Select(z3.Select(e.mem(s, 'has'), t), k)), z3.Select(z3.Select(e.mem(s, 'val'), t), k), NOTHERE)
    NOTHERE = z3.Const('not there', V)
    h, v = z3.Select(has, V.id(routes)), z3.Select(val, V.id(routes))
    res, exc = e.execute(C.update_routes, [me, ZS(url), ZS(to), Z(routes, table)], st)
    for n, (s, r) in enumerate(res):
        e.prove('%s: listed' % n, s, entry(s, U, W, g) == z3.If(z3.Select(h, g), z3.Select(v, g), entry(st0, U, W, g)), keep)
        e.prove('%s: nothing else' % n, s, z3.Implies(z3.Or(ou != U, ov != W), entry(s, ou, ov, g) == entry(st0, ou, ov, g)), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s: the version is not known' % n, s, z3.Not(z3.Select(els(q), W)), keep)
    return e.finish()


ASSUMPTIONS = [
    'a table of a document lists whole pointers, none of them empty, and a nested table does not list a nested table for the object it '
    'belongs to (\'\'); locations that are listed do not end with / (assumed of the tables that the conversions make)',
    'the tables of a document are in ascending order of the versions; StrictVersion orders versions (an uninterpreted order)',
    'the first tables of a document (an OrderedDict of empty dicts, made by update_routes) are looked at by the bounded leg only',
]
UNITS = [('init', init), ('_is_under', is_under), ('_patch_jp', patch), ('relocate', relocate), ('update_routes', update)]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
