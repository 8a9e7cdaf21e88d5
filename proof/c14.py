"""C14: documents are migrated version by version to the requested version"""
from lib import impl  # noqa: finds the package
import importlib
import pkgutil

import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.values import Unsupported

STR = z3.StringVal
ARR = z3.ArraySort(I, V)
NUMS = z3.ArraySort(I, I)
RANK = z3.Function('rank of a version', S, I)
OWN = z3.Function('version of an object', V, S)
URL, POINTER = z3.Function('document', S, S), z3.Function('pointer', S, S)
STEP = z3.Function('step', I, B)
A = '_ApiBase__'


#
# what is selected from a list: selected[i] is the element at SRC(k)[i], for the CNT(k) ones found among the first k
#

class Selection(object):
    def __init__(self, e, q, ok, name):
        self.e, self.q, self.ok = e, q, ok
        self.CNT, self.SRC = z3.Function('how many ' + name, I, I), z3.Function('from where ' + name, I, NUMS)
        self.name = name

    def at(self, k):
        """the step from k to k + 1"""
        c, s = self.CNT(k), self.SRC(k)
        yes = self.ok(nth(self.q, k))
        return z3.And(self.CNT(k + 1) == z3.If(yes, c + 1, c), self.SRC(k + 1) == z3.If(yes, z3.Store(s, c, k), s), 0 <= c, c <= k)

    def facts(self):
        k = z3.Int('k?')
        e = self.e
        e.fact(self.CNT(0) == 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < length(self.q)), self.at(k)), patterns=[STEP(k)]))
        e.fact(z3.ForAll([k], STEP(k), patterns=[STEP(k)]))

    def holds(self, l, k, change=lambda x: x):
        """l is what was selected of the first k"""
        i = z3.Int('i?')
        at, lo, hi, _ = fields(l)
        y = z3.Select(at, i)
        pat = {'patterns': [y]} if z3.is_const(at) or z3.is_select(at) or z3.is_app(at) and at.num_args() == 1 else {}
        return z3.And(STEP(k), hi - lo == self.CNT(k), z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), y == change(nth(self.q, z3.Select(
            self.SRC(k), i - lo)))), **pat))


def chosen(keep):
    """the elements that are selected: all of those wanted, each once, in the order they have"""
    e = DV(5000)
    q = z3.Const('q', SEQ)
    OKAY = z3.Function('wanted', V, B)
    s = Selection(e, q, OKAY, 'chosen')
    k, i, j, m = z3.Ints('k i j m')
    C, R = s.CNT, s.SRC
    # by induction on k; what is said of k is said of i and j: the i-th selected, and the place of the j-th element
    there = lambda k, i: z3.Implies(z3.And(0 <= i, i < C(k)), z3.And(  # noqa
        0 <= z3.Select(R(k), i), z3.Select(R(k), i) < k, OKAY(nth(q, z3.Select(R(k), i))), C(z3.Select(R(k), i)) == i))
    all_ = lambda k, j: z3.Implies(z3.And(0 <= j, j < k, OKAY(nth(q, j))), z3.And(  # noqa
        0 <= C(j), C(j) < C(k), z3.Select(R(k), C(j)) == j))
    up = lambda k, i, m: z3.Implies(z3.And(0 <= i, i < m, m < C(k)), z3.Select(R(k), i) < z3.Select(R(k), m))  # noqa
    zero = C(0) == 0
    for name, f in (('only what is wanted', lambda k: there(k, i)), ('all that is wanted', lambda k: all_(k, j)), (
            'in order, so once', lambda k: up(k, i, m))):
        e.lemma('%s: nothing yet' % name, z3.Implies(zero, f(z3.IntVal(0))), keep)
        e.lemma('%s: one more' % name, z3.Implies(z3.And(k >= 0, s.at(k), f(k), there(k, i), there(k, m)), f(k + 1)), keep)
    return e.finish()


def supported_versions(keep):
    """the packages whose name starts with v, as versions, in ascending order"""
    from pyopenapi import utils
    import os
    from distutils.version import StrictVersion
    e, st = DV(), St()
    e.abstract, e.patience = 300, 1000
    e.solver.set('timeout', 500)
    q = z3.Const('modules', SEQ)
    i, x = z3.Int('i?'), z3.Const('x?', V)
    one = z3.Select(SEQ.at(q), i)
    e.fact(length(q) >= 0, z3.ForAll([i], z3.And(V.is_triple(one), V.is_str(V.t1(one)), V.is_bool(V.t2(one))), patterns=[one]))
    packages = z3.Bool('is_pkg')
    name = z3.String('module_name')
    FOLDER = z3.Function('folder of', S, S, S)
    DIR = z3.Function('folder', S, S)
    e.contracts[os.path.dirname] = lambda e, st, a, kw: [(st, ZS(DIR(e.s(a[0]))))]
    e.contracts[os.path.join] = lambda e, st, a, kw: [(st, ZS(FOLDER(e.s(a[0]), e.s(a[1]))))] if len(a) == 2 else NotImplemented
    here = DIR(STR(utils.__file__))

    def modules(e, st, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('iter_modules with a prefix')
        s = st.clone()
        items = a[0] if isinstance(a[0], (list, tuple)) else None
        if items is None and isinstance(a[0], Tup):
            items = a[0].items
        if items is None:
            items = dvlib.units(e.seq(a[0], s))
            items = [ZS(tidy(V.s(y))) for y in items or []]
        if len(items) != 1:
            raise Unsupported('iter_modules of several folders')
        e.prove('the folder of the versions', s, e.s(items[0]) == FOLDER(here, name), keep)
        r = e.new(s, ('list', ('tup', None, 'str', 'bool')), q)
        s.ek[e.ident(r).as_long()] = ('tup', None, 'str', 'bool')
        return [(s, r)]
    e.contracts[pkgutil.iter_modules] = modules
    of_kind = Selection(e, q, lambda x: V.b(V.t2(x)) == packages, 'of the kind')
    of_kind.facts()
    n1 = of_kind.CNT(length(q))
    names = z3.Const('names', ARR)
    e.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n1), z3.Select(names, i) == V.t1(nth(q, z3.Select(of_kind.SRC(length(q)), i)))),
                     patterns=[z3.Select(names, i)]))
    q1 = SEQ.mk(names, z3.IntVal(0), n1, z3.K(V, FALSE))
    with_v = Selection(e, q1, lambda x: z3.PrefixOf(STR('v'), V.s(x)), 'that start with v')
    with_v.facts()
    n2 = with_v.CNT(n1)
    src = with_v.SRC(n1)
    TAIL = z3.Function('tail', S, I, S)
    e.tail = TAIL
    version = lambda t: dvlib.REPLACE(TAIL(t, z3.IntVal(1)), STR('_'), STR('.'))  # noqa
    SORTED = z3.Function('sorted by version', ARR, I, SEQ)
    ALL = z3.Const('versions', ARR)
    e.fact(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n2), z3.Select(ALL, i) == V.str(version(V.s(nth(q1, z3.Select(src, i)))))),
                     patterns=[z3.Select(ALL, i)]))
    want = SORTED(ALL, n2)
    e.fact(length(want) >= 0)
    st.ghost['sorted'] = z3.IntVal(0)

    def progress(L, s):
        out, pos = [], L.pos(s)
        if pos is None:
            return out
        for who, l in L.lists(s):
            out.append(('?of the kind %s' % who, of_kind.holds(l, pos, V.t1)))
            out.append(('?with v %s' % who, with_v.holds(l, pos)))
            at, lo, hi, _ = fields(l)
            out.append(('?as versions %s' % who, z3.And(hi - lo == pos, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Select(
                at, i) == z3.Select(ALL, i - lo))))))
        return out
    e.candidates.append(progress)

    def in_order(e, st, a, kw):
        if len(a) != 1 or set(kw) != {'key'} or kw['key'] is not StrictVersion or not e.is_list(a[0]):
            raise Unsupported('sorted in another way')
        at, lo, hi, _ = fields(e.seq(a[0], st))
        e.prove('the versions of the packages', st, z3.And(hi - lo == n2, z3.Implies(z3.And(lo <= i, i < hi), z3.Select(at, i) == z3.Select(
            ALL, i - lo))), keep)
        s = st.clone()
        s.ghost['sorted'] += 1
        r = e.new(s, ('list', 'str'), want)
        s.ek[e.ident(r).as_long()] = 'str'
        return [(s, r)]
    e.contracts[sorted] = in_order
    res, exc = e.execute(utils.get_supported_versions, [ZS(name), ZB(packages)], st)
    for m, (s, v) in enumerate(res):
        e.prove('%s: sorted' % m, s, z3.And(s.ghost['sorted'] == 1, e.seq(v, s) == want), keep)
    for m, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s)' % (m, c.__name__), s, FALSE, keep)
    return e.finish()


def migrate(keep):
    from pyopenapi import utils
    from pyopenapi.migration import base as M
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    C = M.ApiBase
    SO = ('obj', 'spec object')
    e.fields[C] = {A + 'store': ('obj', 'store'), A + 'migratable_spec_versions': ('list', 'str'), A + 'current_spec_version': ('opt', 'str')}
    me = Z(V.ref(z3.Int('api')), ('obj', C))
    e.fact(z3.Int('api') >= 0)
    (st, store), = e.getattr(me, A + 'store', st)
    (st, versions), = e.getattr(me, A + 'migratable_spec_versions', st)
    (st, before), = e.getattr(me, A + 'current_spec_version', st)
    obj = z3.Const('given', V)
    jref, target = z3.Strings('jref target')
    e.fact(V.is_ref(obj), V.is_ref(store.t))
    own = OWN(obj)
    vs = e.seq(versions, st)
    i, k, w = z3.Ints('i? k? w')
    e.fact(length(vs) >= 0, z3.ForAll([i], V.is_str(z3.Select(SEQ.at(vs), i)), patterns=[z3.Select(SEQ.at(vs), i)]))
    # where the requested version is, when it is there
    there = e.member(vs, V.str(target))
    e.fact(z3.Implies(there, z3.And(0 <= w, w < length(vs), nth(vs, w) == V.str(target))))
    e.fact(z3.ForAll([i], z3.Implies(z3.And(SEQ.lo(vs) <= i, i < SEQ.hi(vs), z3.Select(SEQ.at(vs), i) == V.str(target)), i == SEQ.lo(vs) + w),
                     patterns=[z3.Select(SEQ.at(vs), i)]))
    upto = SEQ.mk(SEQ.at(vs), SEQ.lo(vs), SEQ.lo(vs) + w + 1, SEQ.els(vs))
    sel = Selection(e, upto, lambda x: RANK(own) <= RANK(V.s(x)), 'to migrate through')
    sel.facts()
    n = sel.CNT(w + 1)
    version = lambda k: V.s(nth(upto, z3.Select(sel.SRC(w + 1), k)))  # noqa
    # what there is after k migrations
    OB, UP, RE = [z3.Function(x, I, V) for x in ('object', 'upgraded', 'relocations')]
    JP = z3.Function('where it is', I, S)
    url = URL(jref)
    e.fact(OB(0) == obj, JP(0) == POINTER(jref))
    e.fact(z3.ForAll([k], z3.And(V.is_ref(OB(k)), V.is_ref(UP(k)), V.is_ref(RE(k))), patterns=[STEP(k)]))
    st.ghost['done'], st.ghost['phase'], st.ghost['failed'] = z3.IntVal(0), z3.IntVal(0), FALSE
    previous = lambda k: z3.If(k == 0, own, version(k - 1))  # noqa

    def fail(e, st, c=Exception):
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, c)

    def now(e, st, phase, name, goal, after):
        e.prove('%s: in its turn' % name, st, z3.And(st.ghost['phase'] == phase, st.ghost['done'] < n), keep)
        e.prove('%s: of what there is' % name, st, goal, keep)
        s = st.clone()
        s.ghost['phase'] = z3.IntVal(after)
        return s
    PATH = lambda v: z3.Concat(STR('pyopenapi.migration.versions.'), dvlib.REPLACE(z3.Concat(STR('v'), v), STR('.'), STR('_')), STR('.main'))  # noqa
    MODULE = z3.Function('module', S, V)
    x = z3.String('x?')
    e.fact(z3.ForAll([x], V.is_ref(MODULE(x)), patterns=[MODULE(x)]))
    NAME = z3.Function('name of a module', V, S)
    e.fact(z3.ForAll([x], NAME(MODULE(x)) == x, patterns=[MODULE(x)]))

    def loader(e, st, a, kw):
        fail(e, st, ImportError)
        t = e.s(a[0])
        return [(st, Z(z3.If(z3.Bool('it is found'), MODULE(t), NONE), ('obj', 'loader')))]

    def load(e, st, x, a, kw):
        fail(e, st, ImportError)
        if len(a) != 1 or kw:
            raise Unsupported('load_module')
        return [(st, Z(MODULE(e.s(a[0])), ('obj', 'migration')))]

    def imported(e, st, a, kw):
        return load(e, st, None, a, kw)
    e.contracts[pkgutil.find_loader], e.contracts[importlib.import_module] = loader, imported
    e.methods[('loader', 'load_module')] = load
    e.methods[('truth', 'loader')] = e.methods[('truth', 'migration')] = lambda e, st, x: TRUE
    e.attrs[('migration', 'upgrade')] = lambda e, st, x: [(st, Z(x.t, ('obj', 'upgrade')))]

    def upgrade(e, st, x, a, kw):
        if len(a) != 3 or kw:
            raise Unsupported('call of upgrade')
        d = st.ghost['done']
        fail(e, st)
        s = now(e, st, 0, 'upgrade', z3.And(
            NAME(x.t) == PATH(version(d)), e.v(a[0], st) == OB(d), e.v(a[1], st) == me.t, e.v(a[2], st) == V.str(jref)), 1)
        return [(s, Tup([Z(UP(d), SO), Z(RE(d), ('obj', 'relocations'))]))]
    e.methods[('upgrade', '__call__')] = upgrade

    def routes(e, st, x, a, kw):
        if len(a) != 3 or kw:
            raise Unsupported('call of update_routes')
        d = st.ghost['done']
        r = a[2]
        if isinstance(r, dict):
            raise Unsupported('relocations of nothing')
        has, val = e.has(r, st), e.val(r, st)
        here = V.str(JP(d))
        return [(now(e, st, 1, 'update_routes', z3.And(
            e.v(a[0], st) == V.str(url), e.v(a[1], st) == V.str(version(d)), has == z3.Store(NOTHING, here, TRUE), z3.Select(val, here) == RE(d)), 2), None)]

    def relocate(e, st, x, a, kw):
        if len(a) != 4 or kw:
            raise Unsupported('call of relocate')
        d = st.ghost['done']
        return [(now(e, st, 2, 'relocate', z3.And(*[e.v(p, st) == V.str(t) for p, t in zip(a, (
            url, JP(d), previous(d), version(d)))]), 3), ZS(JP(d + 1)))]

    def prepare(e, st, a, kw):
        if len(a) != 3 or kw:
            raise Unsupported('call of prepare_obj')
        d = st.ghost['done']
        fail(e, st)
        return [(now(e, st, 3, 'prepare_obj', z3.And(
            e.v(a[0], st) == me.t, e.v(a[1], st) == UP(d), e.v(a[2], st) == V.str(z3.Concat(url, JP(d + 1)))), 4), Z(OB(d + 1), SO))]

    def put(e, st, x, a, kw):
        a = e.arguments(a, kw, ('obj', 'url', 'jp', 'spec_version')) if hasattr(e, 'arguments') else a + [kw.pop(y) for y in ('spec_version',)]
        if len(a) != 4 or kw:
            raise Unsupported('call of set')
        d = st.ghost['done']
        s = now(e, st, 4, 'set', z3.And(*[e.v(p, st) == t for p, t in zip(a, (
            OB(d + 1), V.str(url), V.str(JP(d + 1)), V.str(version(d))))]), 0)
        s.ghost['done'] = d + 1
        return [(s, None)]
    e.methods[('store', 'update_routes')], e.methods[('store', 'relocate')], e.methods[('store', 'set')] = routes, relocate, put
    e.contracts[C.prepare_obj] = prepare
    e.contracts[utils.jr_split] = lambda e, st, a, kw: [(st, Tup([ZS(URL(e.s(a[0]))), ZS(POINTER(e.s(a[0])))]))]
    e.contracts[M.StrictVersion] = lambda e, st, a, kw: [(st, ZI(RANK(e.s(a[0]))))]
    e.attrs[('spec object', '__swagger_version__')] = lambda e, st, x: [(st, ZS(OWN(x.t)))]
    ROOT = z3.Function('is a root', V, I, B)
    e.methods[('instance', 'spec object')] = lambda e, st, x, c: ROOT(x.t, z3.IntVal(e.code(c)))
    e.methods[('truth', 'spec object')] = lambda e, st, x: TRUE

    def progress(L, s):
        out, pos = [], L.pos(s)
        if pos is None:
            return out
        own = [(m, e.seq(s.env[m], s)) for m, _ in L.vars(s, 'ref') if e.is_list(s.env[m])]
        for who, l in L.lists(s) + own:
            out.append(('?versions so far %s' % who, sel.holds(l, pos)))
        d = s.ghost['done']
        out.append(('?migrations done', z3.And(STEP(pos), d == pos, s.ghost['phase'] == 0)))
        for m in L.names:
            x = s.env[m]
            out.append(('?%s is the object' % m, e.v(x, s) == OB(d)))
            out.append(('?%s is where it is' % m, e.v(x, s) == V.str(JP(d))))
            out.append(('?%s is its version' % m, e.v(x, s) == V.str(previous(d))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(C.migrate_obj, [me, Z(obj, SO), ZS(jref), ZS(target)], st)
    roots = [M.OpenApi, M.Swagger, M.ResourceListing]
    for m, (s, v) in enumerate(res):
        (s, after), = e.getattr(me, A + 'current_spec_version', s)
        d = s.ghost['done']
        e.prove('%s: a known version' % m, s, there, keep)
        e.prove('%s: every migration is done' % m, s, z3.And(d == n, s.ghost['phase'] == 0), keep)
        e.prove('%s: what the last one gave' % m, s, e.v(v, s) == OB(n), keep)
        e.prove('%s: the version is noted for a root' % m, s, e.v(after, s) == z3.If(z3.Or(*[ROOT(OB(n), z3.IntVal(e.code(c))) for c in roots]), V.str(
            target), before.t), keep)
    for m, (s, c, _) in enumerate(exc):
        (s, after), = e.getattr(me, A + 'current_spec_version', s)
        e.prove('error %s (%s): an unknown version, or a step that fails' % (m, c.__name__), s, z3.If(
            there, z3.Or(s.ghost['failed'], z3.Not(z3.Bool('it is found'))), z3.And(z3.BoolVal(c is ValueError), s.ghost['done'] == 0, s.ghost['phase'] == 0)), keep)
        e.prove('error %s: the version stays' % m, s, e.v(after, s) == before.t, keep)
    return e.finish()


def named(a, kw, names, optional=0):
    """the arguments of a call in order"""
    if len(a) > len(names) or set(kw) - set(names[len(a):]):
        raise Unsupported('arguments of a call')
    out = list(a) + [kw.get(n) for n in names[len(a):]]
    for n in names[len(a):len(names) - optional]:
        if n not in kw:
            raise Unsupported('arguments of a call')
    return out


def swagger_version(keep):
    """swaggerVersion, swagger or openapi of a description; what an object says of itself"""
    from pyopenapi import utils
    e, st = DV(), St()
    d = Z(V.ref(z3.Int('description')), ('dict', None, 'str'))
    e.fact(z3.Int('description') >= 0, ISDICT(z3.Int('description')))
    has, val = e.has(d, st), e.val(d, st)
    res, exc = e.execute(utils.get_swagger_version, [d], st)
    want = NONE
    for n in ('openapi', 'swagger', 'swaggerVersion'):
        want = z3.If(z3.Select(has, V.str(STR(n))), z3.Select(val, V.str(STR(n))), want)
    for m, (s, v) in enumerate(res):
        e.prove('%s: what the description says' % m, s, e.v(v, s) == want, keep)
    for m, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s)' % (m, c.__name__), s, FALSE, keep)
    o = z3.Const('given', V)
    ONE, TWO, HASONE = z3.Function('swaggerVersion of', V, S), z3.Function('swagger of', V, S), z3.Function('has swaggerVersion', V, B)
    e.attrs[('spec object', 'swaggerVersion')] = lambda e, st, x: [(st, ZS(ONE(x.t)))]
    e.attrs[('spec object', 'swagger')] = lambda e, st, x: [(st, ZS(TWO(x.t)))]
    e.methods[('instance', 'spec object')] = lambda e, st, x, c: FALSE
    e.methods[('hasattr', 'spec object')] = lambda e, st, x, name: HASONE(x.t) if name == 'swaggerVersion' else None
    for m, (s, v) in enumerate(e.execute(utils.get_swagger_version, [Z(o, ('obj', 'spec object'))], St())[0]):
        e.prove('object %s: what it says' % m, s, e.v(v, s) == V.str(z3.If(HASONE(o), ONE(o), TWO(o))), keep)
    return e.finish()


def resolve(keep):
    """what is known is given again; what was loaded is migrated; the rest is loaded first"""
    import weakref
    from pyopenapi import utils
    from pyopenapi.migration import base as M
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    C = M.ApiBase
    FO = ('obj', 'found')
    e.fields[C] = {A + 'store': ('obj', 'store'), A + 'url': 'str', A + 'original_spec_version': 'str'}
    me = Z(V.ref(z3.Int('api')), ('obj', C))
    e.fact(z3.Int('api') >= 0)
    (st, store), = e.getattr(me, A + 'store', st)
    (st, root), = e.getattr(me, A + 'url', st)
    (st, original), = e.getattr(me, A + 'original_spec_version', st)
    e.fact(V.is_ref(store.t))
    jref, source = z3.Strings('jref from_version')
    target, parser = z3.Consts('to_version parser', V)
    remove = z3.Bool('remove')
    e.fact(z3.Or(target == NONE, V.is_str(target)), z3.Or(parser == NONE, V.is_ref(parser)))
    goal = z3.If(z3.Or(target == NONE, V.s(target) == STR('')), source, V.s(target))
    given = URL(jref)
    url = z3.If(given == STR(''), e.s(root), given)
    here = z3.If(given == STR(''), z3.Concat(e.s(root), POINTER(jref)), jref)
    jp = POINTER(jref)
    got, until, j, loaded, migrated, prepared = z3.Consts('known found pointer_of_found loaded migrated prepared', V)
    early, late = z3.Strings('translated translated_later')
    for x in (got, until, loaded, migrated, prepared):
        e.fact(z3.Or(x == NONE, V.is_ref(x)))
    e.fact(V.is_str(j))
    for g in ('relocated', 'asked', 'searched', 'loaded', 'migrated', 'prepared'):
        st.ghost[g] = z3.IntVal(0)
    st.ghost['failed'] = FALSE

    def fail(e, st, c=Exception):
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, c)

    def count(st, g):
        s = st.clone()
        s.ghost[g] = tidy(s.ghost[g] + 1)
        return s
    same = lambda e, st, a, ts: z3.And(*[e.v(p, st) == t for p, t in zip(a, ts)])  # noqa

    def relocate(e, st, x, a, kw):
        a = named(a, kw, ('url', 'jp', 'from_spec', 'to_spec'))
        e.prove('relocate: of the pointer', st, same(e, st, a, (V.str(url), V.str(jp), V.str(source), V.str(goal))), keep)
        s = count(st, 'relocated')
        return [(s, ZS(z3.If(st.ghost['migrated'] == 0, early, late)))]

    def get(e, st, x, a, kw):
        a = named(a, kw, ('url', 'jp', 'spec_version'))
        where = z3.If(source == goal, jp, early)
        e.prove('get: the translated pointer', st, same(e, st, a, (V.str(url), V.str(where), V.str(goal))), keep)
        return [(count(st, 'asked'), Z(got, FO))]

    def get_until(e, st, x, a, kw):
        a = named(a, kw, ('url', 'jp', 'spec_version', 'until'))
        e.prove('get_until: from the given version', st, same(e, st, a, (V.str(url), V.str(jp), V.str(source), V.str(goal))), keep)
        return [(count(st, 'searched'), Tup([Z(until, FO), ZS(V.s(j)), Z(z3.Const('version of it', V), None)]))]

    def load(e, st, a, kw):
        a = named(a, kw, ('self', 'jref', 'getter', 'parser', 'remove_dummy'), 3)
        fail(e, st)
        p = e.v(a[3], st)
        r = e.truth(a[4], st) if a[4] is not None else FALSE
        e.prove('load_obj: of the reference, when nothing is found', st, z3.And(
            e.v(a[0], st) == me.t, e.v(a[1], st) == V.str(here), e.v(a[2], st) == NONE, p == parser, r == remove, until == NONE, st.ghost['searched'] == 1), keep)
        return [(count(st, 'loaded'), Z(loaded, FO))]

    def migrate(e, st, a, kw):
        a = named(a, kw, ('self', 'obj', 'jref', 'spec_version'))
        fail(e, st)
        e.prove('migrate_obj: what was found or loaded, from where it is', st, z3.And(
            e.v(a[0], st) == me.t, e.v(a[1], st) == z3.If(until != NONE, until, loaded), z3.Or(until != NONE, st.ghost['loaded'] == 1),
            e.v(a[2], st) == V.str(z3.If(until != NONE, z3.Concat(url, V.s(j)), here)), e.v(a[3], st) == V.str(goal)), keep)
        return [(count(st, 'migrated'), Z(migrated, FO))]

    def prepare(e, st, a, kw):
        a = named(a, kw, ('self', 'obj', 'jref'))
        fail(e, st)
        e.prove('prepare_obj: what was migrated', st, z3.And(e.v(a[1], st) == migrated, st.ghost['migrated'] == 1), keep)
        return [(count(st, 'prepared'), Z(prepared, FO))]
    for n, f in (('relocate', relocate), ('get', get), ('get_until', get_until)):
        e.methods[('store', n)] = f
    e.contracts[C.load_obj], e.contracts[C.migrate_obj], e.contracts[C.prepare_obj] = load, migrate, prepare
    e.contracts[utils.jr_split] = lambda e, st, a, kw: [(st, Tup([ZS(URL(e.s(a[0]))), ZS(POINTER(e.s(a[0])))]))]
    PLAIN = z3.Function('is a plain value', V, I, B)
    e.methods[('instance', 'found')] = lambda e, st, x, c: PLAIN(x.t, z3.IntVal(e.code(c)))
    e.methods[('truth', 'found')] = lambda e, st, x: TRUE
    PROXY = z3.Function('proxy', V, V)
    e.contracts[weakref.proxy] = lambda e, st, a, kw: [(st, Z(PROXY(e.v(a[0], st)), FO))]
    res, exc = e.execute(C.resolve_obj, [me, ZS(jref), ZS(source), Z(parser, ('obj', 'parser')), Z(target, 'str'), ZB(remove)], st)
    for m, (s, v) in enumerate(res):
        a, b = v.items if isinstance(v, Tup) else v
        a, b = e.v(a, s), e.v(b, s)
        g = s.ghost
        e.prove('%s: of a reference' % m, s, jref != STR(''), keep)
        thing = z3.If(got != NONE, got, prepared)
        where = z3.If(got != NONE, z3.If(source == goal, jp, early), late)
        plain = z3.Or(*[PLAIN(thing, z3.IntVal(e.code(c))) for c in (str, int, list, dict)])
        e.prove('%s: what is known, without loading' % m, s, z3.Implies(got != NONE, z3.And(
            g['searched'] == 0, g['loaded'] == 0, g['migrated'] == 0, g['asked'] == 1)), keep)
        e.prove('%s: else what was migrated' % m, s, z3.Implies(got == NONE, z3.And(
            g['migrated'] == 1, g['prepared'] == 1, g['loaded'] == z3.If(until == NONE, 1, 0))), keep)
        e.prove('%s: the object, and where it is' % m, s, z3.And(thing != NONE, z3.If(plain, z3.And(a == thing, b == V.str(where)), z3.And(
            a == PROXY(thing), b == V.str(z3.Concat(url, where))))), keep)
        e.prove('%s: of the original version, unless it is there' % m, s, z3.Or(got != NONE, until != NONE, source == e.s(original)), keep)
    for m, (s, c, _) in enumerate(exc):
        nothing = z3.And(got == NONE, z3.Or(z3.And(until == NONE, source != e.s(original)), z3.And(until == NONE, loaded == NONE), migrated == NONE,
                                            prepared == NONE))
        e.prove('error %s (%s): no reference, or nothing there' % (m, c.__name__), s, z3.Or(jref == STR(''), s.ghost['failed'], nothing), keep)
    return e.finish()


def init(keep):
    """what is given is kept; nothing is known yet; the store and the resolver are the only ones"""
    from pyopenapi import utils
    from pyopenapi.migration import base as M
    e, st = DV(), St()
    C = M.ApiBase
    e.fields[C] = dict((A + n, k) for n, k in (('url', ('opt', 'str')), ('original_spec_version', 'str'), ('migratable_spec_versions', ('list', 'str')), (
        'current_spec_version', ('opt', 'str')), ('store', ('obj', 'store')), ('resolver', ('obj', 'resolver')), ('sep', 'str')))
    e.closed.add(C)
    me = e.new(st, ('obj', C))
    versions = Z(V.ref(z3.Int('versions')), ('list', 'str'))
    e.fact(z3.Int('versions') >= 0, e.is_kind(versions.t, versions.kind))
    url, hook, resolver, sep, own = z3.Const('url', V), z3.Const('hook', V), z3.Const('resolver', V), z3.String('separator'), z3.String('version')
    e.fact(z3.Or(url == NONE, V.is_str(url)), *[z3.Or(x == NONE, z3.And(V.is_ref(x), V.id(x) >= 0)) for x in (hook, resolver)])
    STORE, RESOLVER = z3.Function('store for', V, V), z3.Function('resolver with', V, V)
    st.ghost['asked'] = z3.IntVal(0)

    def supported(e, st, a, kw):
        a = named(a, kw, ('module_name', 'is_pkg'))
        s = st.clone()
        s.ghost['asked'] = s.ghost['asked'] + 1
        if a[0] != M.os.path.join('migration', 'versions') or a[1] is not True:
            raise Unsupported('which versions')
        return [(s, versions)]
    e.contracts[utils.get_supported_versions] = supported

    def store(e, st, a, kw):
        if a or set(kw) != set(['migratable_spec_versions']):
            raise Unsupported('arguments of the store')
        t = STORE(e.v(kw['migratable_spec_versions'], st))
        e.fact(V.is_ref(t))
        return [(st, Z(t, ('obj', 'store')))]
    e.contracts[M.SpecObjStore] = store

    def made(e, st, a, kw):
        given = named(a, kw, ('url_load_hook', 'default_getter'), 1)
        if len(given) > 1 and given[1] is not None:
            raise Unsupported('arguments of the resolver')
        t = RESOLVER(e.v(given[0], st))
        e.fact(V.is_ref(t))
        return [(st, Z(t, ('obj', 'resolver')))]
    e.contracts[M.Resolver] = made
    for n in ('hook', 'resolver'):
        e.methods[('truth', n)] = lambda e, st, x: TRUE
    res, exc = e.execute(C.__init__, [me, Z(url, ('opt', 'str')), Z(hook, ('opt', ('obj', 'hook'))), Z(resolver, ('opt', ('obj', 'resolver'))), ZS(sep)], st)
    for m, (s, v) in enumerate(res):
        for name, want in (('url', url), ('sep', V.str(sep)), ('resolver', z3.If(resolver != NONE, resolver, RESOLVER(hook))), (
                'migratable_spec_versions', versions.t), ('spec_obj_store', STORE(versions.t)), ('original_spec_version', V.str(STR(''))), (
                    'current_spec_version', NONE)):
            for n, (x, w) in enumerate(e.execute(getattr(C, name).fget, [me], s)[0]):
                e.prove('%s: %s (%d)' % (m, name, n), x, e.v(w, x) == want, keep)
        e.prove('%s: a hook, or a resolver' % m, s, z3.Or(hook == NONE, resolver == NONE), keep)
    for m, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s): both' % (m, c.__name__), s, z3.And(hook != NONE, resolver != NONE), keep)
    return e.finish()


def load(keep):
    """a document is parsed once for its version, with the parts that are known; the result is recorded"""
    from pyopenapi import utils
    from pyopenapi.migration import base as M
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    C = M.ApiBase
    SO = ('obj', 'spec object')
    e.fields[C] = {A + 'store': ('obj', 'store'), A + 'resolver': ('obj', 'resolver'), A + 'original_spec_version': 'str'}
    me = Z(V.ref(z3.Int('api')), ('obj', C))
    e.fact(z3.Int('api') >= 0)
    for n in ('store', 'resolver'):
        (st, x), = e.getattr(me, A + n, st)
        e.fact(V.is_ref(x.t))
    (st, original), = e.getattr(me, A + 'original_spec_version', st)
    jref = z3.String('jref')
    getter, parser, version, known_, override = z3.Consts('getter parser version known override', V)
    remove = z3.Bool('remove')
    for x in (getter, parser, known_):
        e.fact(z3.Or(x == NONE, V.is_ref(x)))
    e.fact(z3.Or(version == NONE, V.is_str(version)), V.is_ref(override))
    RES, DECL = z3.Function('retrieved', S, V), z3.Function('declarations', V, S, V)
    LISTING, SWAGGER, OPENAPI, PARSED = [z3.Function(n, V, S, V, V) for n in ('listing', 'swagger document', 'openapi document', 'parsed part')]
    src = RES(jref)
    url, jp = URL(jref), POINTER(jref)
    y, t, z = z3.Const('y?', V), z3.String('t?'), z3.Const('z?', V)
    for f in (LISTING, SWAGGER, OPENAPI):
        e.fact(z3.ForAll([y, t, z], V.is_ref(f(y, t, z)), patterns=[f(y, t, z)]))
    e.fact(z3.ForAll([y, t], V.is_ref(DECL(y, t)), patterns=[DECL(y, t)]))
    st.ghost['failed'], st.ghost['asked'], st.ghost['parsed'], st.ghost['set'] = FALSE, z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)

    def fail(e, st, c=Exception):
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, c)

    def count(st, g):
        s = st.clone()
        s.ghost[g] = tidy(s.ghost[g] + 1)
        return s
    same = lambda e, st, a, ts: z3.And(*[e.v(p, st) == t for p, t in zip(a, ts)])  # noqa

    def retrieve(e, st, x, a, kw):
        a = named(a, kw, ('jref', 'getter'), 1)
        fail(e, st)
        e.prove('retrieved with the getter', st, e.v(a[1], st) == getter, keep)
        return [(st, Z(RES(e.s(a[0])), ('obj', 'description')))]
    e.methods[('resolver', 'resolve')] = retrieve
    e.methods[('truth', 'description')] = e.methods[('truth', 'spec object')] = e.methods[('truth', 'parser')] = lambda e, st, x: TRUE

    def version_of(e, st, a, kw):
        fail(e, st, AttributeError)
        e.prove('version of what was retrieved', st, e.v(a[0], st) == src, keep)
        return [(st, Z(version, 'str'))]
    e.contracts[utils.get_swagger_version] = version_of
    e.contracts[utils.jr_split] = lambda e, st, a, kw: [(st, Tup([ZS(URL(e.s(a[0]))), ZS(POINTER(e.s(a[0])))]))]

    def get(e, st, x, a, kw):
        a = named(a, kw, ('url', 'jp', 'spec_version'))
        e.prove('get: of the version', st, same(e, st, a, (V.str(url), V.str(jp), version)), keep)
        return [(count(st, 'asked'), Z(known_, SO))]

    def get_under(e, st, x, a, kw):
        a = named(a, kw, ('url', 'jp', 'spec_version', 'remove'))
        fail(e, st)
        e.prove('get_under: of the version', st, same(e, st, a, (V.str(url), V.str(jp), version, V.bool(remove))), keep)
        return [(st, Z(override, ('obj', 'override')))]

    def put(e, st, x, a, kw):
        a = named(a, kw, ('obj', 'url', 'jp', 'spec_version'))
        fail(e, st)
        s = count(st, 'set')
        s.ghost['what'], s.ghost['version'] = e.v(a[0], st), e.v(a[3], st)
        e.prove('set: where it was loaded from', st, same(e, st, a[1:3], (V.str(url), V.str(jp))), keep)
        return [(s, None)]
    st.ghost['what'], st.ghost['version'] = NONE, NONE
    for n, f in (('get', get), ('get_under', get_under), ('set', put)):
        e.methods[('store', n)] = f
    EMPTY_ = V.ref(z3.Int('nothing loaded before'))

    def parts(e, st, x):
        """an empty dict or what is known under the pointer"""
        if isinstance(x, dict):
            if x:
                raise Unsupported('parts given to a constructor')
            return EMPTY_
        if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'dict':
            e.prove('nothing is known before', st, e.has(x, st) == NOTHING, keep)
            return EMPTY_
        return e.v(x, st)

    def made(f):
        def make(e, st, a, kw):
            a = named(a, kw, ('spec', 'path', 'override'))
            fail(e, st)
            return [(count(st, 'parsed'), Z(f(e.v(a[0], st), e.s(a[1]), parts(e, st, a[2])), SO))]
        return make
    for c, f in ((M.ResourceListing, LISTING), (M.Swagger, SWAGGER), (M.OpenApi, OPENAPI)):
        e.contracts[c] = made(f)

    def parse(e, st, x, a, kw):
        if len(a) != 3 or kw:
            raise Unsupported('call of the parser')
        fail(e, st)
        r = PARSED(e.v(a[0], st), e.s(a[1]), parts(e, st, a[2]))
        return [(count(st, 'parsed'), Z(r, SO))]
    e.methods[('parser', '__call__')] = parse
    HASV = z3.Function('has a version', V, B)
    e.methods[('hasattr', 'spec object')] = lambda e, st, x, name: HASV(x.t) if name == '__swagger_version__' else None
    e.attrs[('spec object', '__swagger_version__')] = lambda e, st, x: [(st, ZS(OWN(x.t)))]
    ROOT = z3.Function('is a root', V, I, B)
    e.methods[('instance', 'spec object')] = lambda e, st, x, c: ROOT(x.t, z3.IntVal(e.code(c)))
    roots = [M.OpenApi, M.Swagger, M.ResourceListing]
    # 1.2: the declarations that are listed
    listing_ = LISTING(src, jref, EMPTY_)
    apis = z3.Const('apis', SEQ)
    AT = z3.Function('path of an api', V, S)
    DIR = z3.Function('folder of a url', S, S)
    JOINED = z3.Function('joined url', S, S, S)
    COMPOSED = z3.Function('pointer in a url', S, S, S)
    TAIL = z3.Function('tail', S, I, S)
    e.tail = TAIL
    i, k = z3.Ints('i? k?')
    e.fact(length(apis) >= 0, z3.ForAll([i], V.is_ref(z3.Select(SEQ.at(apis), i)), patterns=[z3.Select(SEQ.at(apis), i)]))
    st.ghost['attached'] = NONE

    def apis_(e, st, x):
        s = st.clone()
        r = e.new(s, ('list', ('obj', 'api')), apis)
        s.ek[e.ident(r).as_long()] = ('obj', 'api')
        return [(s, r)]
    e.attrs[('spec object', 'apis')] = apis_
    e.attrs[('api', 'path')] = lambda e, st, x: [(st, ZS(AT(x.t)))]
    e.contracts[utils.url_dirname] = lambda e, st, a, kw: [(st, ZS(DIR(e.s(a[0]))))]
    e.contracts[utils.url_join] = lambda e, st, a, kw: [(st, ZS(JOINED(e.s(a[0]), e.s(a[1]))))]

    def compose(e, st, a, kw):
        a = named(a, kw, ('segment', 'base'))
        return [(st, ZS(COMPOSED(e.s(a[0]), e.s(a[1]))))]
    e.contracts[utils.jp_compose] = compose

    def declaration(e, st, a, kw):
        a = named(a, kw, ('spec', 'path', 'override'))
        fail(e, st)
        parts(e, st, a[2])
        return [(st, Z(DECL(e.v(a[0], st), e.s(a[1])), SO))]
    e.contracts[M.ApiDeclaration] = declaration
    HS, VL = z3.Function('names so far', I, SET), z3.Function('declarations so far', I, z3.ArraySort(V, V))
    name = TAIL(AT(nth(apis, k)), z3.IntVal(1))
    place = JOINED(DIR(jref), name)
    decl = DECL(RES(place), COMPOSED(name, place))
    e.fact(HS(0) == NOTHING)
    e.fact(z3.ForAll([k], z3.And(STEP(k), z3.Implies(z3.And(0 <= k, k < length(apis)), z3.And(
        HS(k + 1) == z3.Store(HS(k), V.str(name), TRUE), VL(k + 1) == z3.Store(VL(k), V.str(name), decl)))), patterns=[STEP(k)]))

    def attach(e, st, x, val):
        s = st.clone()
        e.prove('1.2: each declaration under its name', st, z3.And(e.has(val, st) == HS(length(apis)), z3.Implies(z3.Select(
            HS(length(apis)), y), z3.Select(e.val(val, st), y) == z3.Select(VL(length(apis)), y))), keep)
        s.ghost['attached'] = x.t
        return [(s, None)]
    e.attrs[('spec object', 'cached_apis', 'set')] = attach

    def progress(L, s):
        out, pos = [], L.pos(s)
        if pos is None:
            return out
        for who, l in L.lists(s):
            at, lo, hi, _ = fields(l)
            out.append(('?paths so far %s' % who, z3.And(hi - lo == pos, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Select(
                at, i) == V.str(AT(nth(apis, i - lo))))))))
        for c in L.cells('has'):
            if c is not None:
                out.append(('?declarations so far %s' % c, z3.And(STEP(pos), z3.Select(e.mem(s, 'has'), c) == HS(pos), z3.ForAll([y], z3.Implies(
                    z3.Select(HS(pos), y), z3.Select(z3.Select(e.mem(s, 'val'), c), y) == z3.Select(VL(pos), y))))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(C.load_obj, [me, ZS(jref), Z(getter, ('obj', 'getter')), Z(parser, ('obj', 'parser')), ZB(remove)], st)
    is_ = lambda x: version == V.str(STR(x))  # noqa
    part = PARSED(src, jref, EMPTY_)
    want = z3.If(is_('1.2'), listing_, z3.If(is_('2.0'), SWAGGER(src, jref, override), z3.If(is_('3.0.0'), OPENAPI(src, jref, override), part)))
    for m, (s, v) in enumerate(res):
        (s, after), = e.getattr(me, A + 'original_spec_version', s)
        g = s.ghost
        r = e.v(v, s)
        e.prove('%s: what is known, as it is' % m, s, z3.Implies(known_ != NONE, z3.And(
            r == known_, g['parsed'] == 0, g['set'] == 0, e.s(after) == e.s(original))), keep)
        e.prove('%s: else parsed for its version' % m, s, z3.Implies(known_ == NONE, z3.And(
            r == want, r != NONE, g['parsed'] == 1, z3.Or(is_('1.2'), is_('2.0'), is_('3.0.0'), z3.And(version == NONE, parser != NONE)))), keep)
        e.prove('%s: and recorded' % m, s, z3.Implies(known_ == NONE, z3.And(g['set'] == 1, g['what'] == r, g['version'] == z3.If(
            z3.And(version == NONE, HASV(r)), V.str(OWN(r)), version))), keep)
        e.prove('%s: with its declarations' % m, s, z3.Implies(z3.And(known_ == NONE, is_('1.2')), g['attached'] == r), keep)
        e.prove('%s: the version is noted for a root' % m, s, z3.Implies(known_ == NONE, e.s(after) == z3.If(z3.Or(*[ROOT(r, z3.IntVal(
            e.code(c))) for c in roots]), OWN(r), e.s(original))), keep)
    for m, (s, c, _) in enumerate(exc):
        g = s.ghost
        bad = z3.And(z3.Not(z3.Or(is_('1.2'), is_('2.0'), is_('3.0.0'))), z3.Or(version != NONE, parser == NONE, part == NONE))
        e.prove('error %s (%s): it cannot be retrieved or parsed' % (m, c.__name__), s, z3.And(known_ == NONE, g['set'] == 0) if not z3.is_true(
            tidy(g['failed'])) else TRUE, keep)
        e.prove('error %s: of a version or part that is not known' % m, s, z3.Or(g['failed'], bad, is_('1.2')), keep)
    return e.finish()


#
# the steps of a conversion
#

def upgrade_(version, keep):
    """what is converted is normalized, recorded and linked, and then merged"""
    from pyopenapi import utils
    M = importlib.import_module('pyopenapi.migration.versions.v%s.main' % version.replace('.', '_'))
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    SO = ('obj', 'spec object')
    obj = z3.Const('given', V)
    app = Z(V.ref(z3.Int('app')), ('obj', 'app'))
    jref = z3.String('jref')
    url, jp = URL(jref), POINTER(jref)
    e.fact(V.is_ref(obj))
    own = OWN(obj)
    ISA_ = z3.Function('is an object of', V, I, B)
    code = lambda c: z3.IntVal(e.code(c))  # noqa
    e.methods[('instance', 'spec object')] = lambda e, st, x, c: ISA_(x.t, code(c))
    e.methods[('truth', 'spec object')] = lambda e, st, x: TRUE
    e.attrs[('spec object', '__swagger_version__')] = lambda e, st, x: [(st, ZS(OWN(x.t)))]
    if version == '1.2':
        res, exc = e.execute(M.upgrade, [Z(obj, SO), app, ZS(jref)], st)
        for m, (s, v) in enumerate(res):
            a, b = v.items if isinstance(v, Tup) else v
            e.prove('%s: the object as it is' % m, s, z3.And(e.v(a, s) == obj, z3.BoolVal(b == {}) if isinstance(b, dict) else e.has(b, s) == NOTHING), keep)
        for m, (s, c, _) in enumerate(exc):
            e.prove('error %s' % m, s, FALSE, keep)
        return e.finish()
    STAGES = ('yaml', 'normalized', 'recorded', 'routed', 'linked', 'merged')
    for g in STAGES:
        st.ghost[g] = NONE      # the object it was done for
    st.ghost['failed'] = FALSE

    def fail(e, st, c=Exception):
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, c)
    e.contracts[utils.jr_split] = lambda e, st, a, kw: [(st, Tup([ZS(URL(e.s(a[0]))), ZS(POINTER(e.s(a[0])))]))]
    e.attrs[('app', 'spec_obj_store')] = lambda e, st, x: [(st, Z(V.ref(z3.Int('store')), ('obj', 'store')))]
    e.attrs[('app', 'sep')] = lambda e, st, x: [(st, ZS(z3.String('separator')))]

    def put(e, st, x, a, kw):
        a = named(a, kw, ('obj', 'url', 'jp', 'spec_version'))
        fail(e, st)
        e.prove('recorded where it is, for its version', st, z3.And(*[e.v(p, st) == V.str(t) for p, t in zip(a[1:], (url, jp, STR(version)))]), keep)
        s = st.clone()
        s.ghost['recorded'] = e.v(a[0], st)
        return [(s, None)]
    OVERRIDE = z3.Const('known parts', V)
    RE = z3.Const('relocations', V)
    e.fact(V.is_ref(OVERRIDE), V.is_ref(RE), RE != V.ref(z3.Int('no relocations')))

    def get_under(e, st, x, a, kw):
        a = named(a, kw, ('url', 'jp', 'spec_version', 'remove'))
        fail(e, st)
        e.prove('parts that are known, which stay', st, z3.And(*([e.v(p, st) == V.str(t) for p, t in zip(a[:3], (url, jp, STR(version)))] + [
            z3.Not(e.truth(a[3], st))])), keep)
        return [(st, Z(OVERRIDE, ('obj', 'override')))]

    def relocations(e, st, b):
        if isinstance(b, dict):
            if b:
                raise Unsupported('relocations')
            return V.ref(z3.Int('no relocations'))
        if isinstance(b, Z) and isinstance(b.kind, tuple) and b.kind[0] == 'dict':
            if not e.has(b, st).eq(NOTHING):
                raise Unsupported('relocations')
            return V.ref(z3.Int('no relocations'))
        return e.v(b, st)

    def routes(e, st, x, a, kw):
        a = named(a, kw, ('url', 'to_spec', 'routes'))
        fail(e, st)
        r = a[2]
        here = V.str(jp)
        e.prove('relocations of where it is', st, z3.And(
            e.v(a[0], st) == V.str(url), e.v(a[1], st) == V.str(STR(version)), e.has(r, st) == z3.Store(NOTHING, here, TRUE)), keep)
        s = st.clone()
        # an empty one is not compared
        s.ghost['routed'] = z3.Select(e.val(r, st), here)
        return [(s, None)]
    for n, f in (('set', put), ('get_under', get_under), ('update_routes', routes)):
        e.methods[('store', n)] = f
    # what runs over the object
    ARG = {'YamlFixer': (), 'NormalizeRef': ('base_url',), 'Resolve': ('app',), 'Merge': ('app',)}
    terms = {}

    def scanner(name):
        t = terms[name] = V.ref(z3.Int('scanner ' + name))

        def make(e, st, a, kw):
            if len(a) != len(ARG[name]) or kw:
                raise Unsupported('arguments of %s' % name)
            for x in a:
                e.prove('%s: of this document' % name, st, e.v(x, st) == (V.str(url) if name == 'NormalizeRef' else app.t), keep)
            return [(st, Z(t, ('obj', name)))]
        return make
    for n in ARG:
        e.contracts[getattr(M, n)] = scanner(n)
    CONVERTED = z3.Const('converted from 1.2', V)
    CACHED = z3.Int('declarations')
    scanned = 'scanned'
    st.ghost['scanned'] = NOTHING
    st.ghost['scanned root'] = FALSE
    after = {'YamlFixer': (), 'NormalizeRef': (), 'Resolve': ('normalized', 'recorded'), 'Merge': ('linked',)}
    stage = {'YamlFixer': 'yaml', 'NormalizeRef': 'normalized', 'Resolve': 'linked', 'Merge': 'merged'}

    def scan(e, st, a, kw):
        a = named(a, kw, ('route', 'root', 'nexter', 'leaves'), 2)
        if 'nexter' in kw:
            raise Unsupported('nexter')
        fail(e, st)
        items = a[0] if isinstance(a[0], (list, tuple)) else dvlib.units(e.seq(a[0], st))
        if items is None or len(items) != 1:
            raise Unsupported('routes of a scan')
        who = tidy(e.v(items[0], st) if not z3.is_expr(items[0]) else items[0])
        root = e.v(a[1], st)
        s = st.clone()
        if version == '2.0' and who.eq(terms.get('Upgrade', NONE)):
            if a[3] is not None:
                raise Unsupported('leaves')
            t = z3.Const('name!', V)
            s.ghost['scanned root'] = z3.Or(s.ghost['scanned root'], root == obj)
            x = z3.Const('n?', V)
            # the declaration: the one that is looked up last
            key = st.ghost.get('looked up')
            if key is not None:
                e.prove('1.2: an object of the description', st, z3.Or(root == obj, root == DECL(key)), keep)
                s.ghost['scanned'] = z3.Store(s.ghost['scanned'], key, TRUE)
            else:
                e.prove('1.2: the description', st, root == obj, keep)
            return [(s, None)]
        names = [n for n in ARG if who.eq(terms[n])]
        if len(names) != 1:
            raise Unsupported('routes of a scan')
        n = names[0]
        leaves = a[3] if len(a) > 3 and a[3] is not None else []
        if not isinstance(leaves, (list, tuple)):
            leaves = leaves.items if isinstance(leaves, Tup) else dvlib.units(e.seq(leaves, st))
        if leaves is None:
            raise Unsupported('leaves')
        leaves = [tidy(e.v(x, st) if not z3.is_expr(x) else x) for x in leaves]
        if leaves:
            operation = V.cls(code(M.objects.Operation if version == '3.0.0' else M.Operation))
            # operations have operations inside in 3.0.0 (callbacks), and none in 2.0
            if n != 'YamlFixer' or not all(x.eq(operation) for x in leaves):
                raise Unsupported('leaves')
            e.prove('%s: of all operations' % n, st, z3.BoolVal(version == '2.0'), keep)
        e.prove('%s: in its turn' % n, st, z3.And(*([st.ghost[g] == root for g in after[n]] + [st.ghost[stage[n]] == NONE] + [
            st.ghost[g] == NONE for g in ('linked', 'merged') if n == 'NormalizeRef'] + (
                [st.ghost['routed'] != NONE] if n == 'Resolve' and version == '3.0.0' else []))), keep)
        s.ghost[stage[n]] = root
        return [(s, None)]
    e.contracts[M.scan] = scan
    conv = []
    if version == '2.0':
        DECL = z3.Function('declaration', V, V)
        terms['Upgrade'] = V.ref(z3.Int('converter'))
        e.fact(z3.Or(CONVERTED == NONE, V.is_ref(CONVERTED)))

        def upgrade(e, st, a, kw):
            a = named(a, kw, ('sep',))
            e.prove('1.2: with the separator of the app', st, e.s(a[0]) == z3.String('separator'), keep)
            return [(st, Z(terms['Upgrade'], ('obj', 'Upgrade')))]
        e.contracts[M.Upgrade] = upgrade
        e.attrs[('spec object', 'cached_apis')] = lambda e, st, x: [(st, Z(V.ref(CACHED), ('dict', SO, 'str')))]
        has = z3.Const('has declarations', SET)
        e.fact(CACHED >= 0, ISDICT(CACHED))
        d = Z(V.ref(CACHED), ('dict', SO, 'str'))
        has = e.has(d, st)
        y = z3.Const('n?', V)
        val = e.val(d, st)
        e.fact(z3.ForAll([y], z3.Implies(z3.Select(has, y), z3.And(V.is_ref(z3.Select(val, y)), V.is_str(y))), patterns=[z3.Select(val, y)]))

        def swagger(e, st, x, a, kw):
            fail(e, st)
            e.prove('1.2: all of the description was run over', st, z3.And(st.ghost['scanned root'], z3.ForAll([y], z3.Implies(z3.Select(
                has, y), z3.Select(st.ghost['scanned'], y)))), keep)
            return [(st, Z(CONVERTED, SO))]
        e.methods[('Upgrade', 'get_swagger')] = swagger
        ret = z3.If(own == STR('1.2'), CONVERTED, obj)
        no = own != STR('2.0')
        known_ = z3.If(own == STR('1.2'), z3.And(CONVERTED != NONE, OWN(CONVERTED) == STR('2.0')), own == STR('2.0'))
        reloc = V.ref(z3.Int('no relocations'))
        # the loop: each name is scanned
        DV_scan = e.contracts[M.scan]

        def scan2(e, st, a, kw):
            b = named(a, kw, ('route', 'root', 'nexter', 'leaves'), 2)
            root = tidy(e.v(b[1], st))
            if z3.is_select(root) and root.arg(0).eq(tidy(val)):
                st = st.clone()
                st.ghost['looked up'] = root.arg(1)
                e.fact(z3.Implies(z3.Select(has, root.arg(1)), DECL(root.arg(1)) == root))
            return [(drop(s), v) for s, v in DV_scan(e, st, a, kw)]

        def drop(s):
            s.ghost.pop('looked up', None)
            return s
        e.contracts[M.scan] = scan2

        def progress(L, s):
            seen = L.seen(s)
            if seen is None:
                return []
            return [('?the names that were run over', s.ghost['scanned'] == seen), ('?the description was run over', s.ghost['scanned root']),
                    ('?nothing else yet', z3.And(*[s.ghost[g] == NONE for g in STAGES]))]
        e.candidates.append(progress)
    else:
        from pyopenapi.migration.versions.v2_0.scanner.upgrade import converters
        OBJ_, CONV = {}, {}
        S3 = z3.Function('is of version 3', V, B)
        kinds = (('Swagger', M.objects.OpenApi, converters.to_openapi, True, 1, True), ('License', M.objects.License, converters.to_license, False, 1, True),
                 ('Info', M.objects.Info, converters.to_info, False, 1, True), ('Schema', M.objects.SchemaOrReference, converters.to_schema, False, 1, True),
                 ('PathItem', M.objects.PathItem, converters.to_path_item, True, 2, False))
        y, z, t = z3.Consts('y? z?', V) + [z3.String('t?')]
        for name, cls, f, two, n, parts in kinds:
            CONV[name] = z3.Function('converted ' + name, V, S, V) if n == 1 else z3.Function('converted ' + name, V, S, S, V)
            OBJ_[name] = z3.Function('made ' + name, V, S, V, V)
            r = OBJ_[name](y, t, z)
            e.fact(z3.ForAll([y, t, z], z3.And(V.is_ref(r), OWN(r) == STR('3.0.0')), patterns=[r]))

            def convert(e, st, a, kw, name=name, two=two, n=n):
                if len(a) != n + 1 or kw:
                    raise Unsupported('call of a converter')
                fail(e, st)
                r = Z(CONV[name](e.v(a[0], st), *[e.s(x) for x in a[1:]]), ('obj', 'converted'))
                return [(st, Tup([r, Z(RE, ('obj', 'relocations'))]) if two else r)]

            def make(e, st, a, kw, name=name):
                a = named(a, kw, ('spec', 'path', 'override'), 1)
                fail(e, st)
                return [(st, Z(OBJ_[name](e.v(a[0], st), e.s(a[1]), e.v(a[2], st)), SO))]
            e.contracts[f], e.contracts[cls] = convert, make
        isa = lambda n: ISA_(obj, code(getattr(M, n)))  # noqa
        # an object is of one of these classes
        for a in kinds:
            for b in kinds:
                if a[0] < b[0]:
                    e.fact(z3.Not(z3.And(isa(a[0]), isa(b[0]))))
        ret, reloc = NONE, V.ref(z3.Int('no relocations'))
        for name, cls, f, two, n, parts in kinds:
            w = OBJ_[name](CONV[name](obj, *([url, jp] if n == 2 else [jp])), jp, OVERRIDE if parts else NONE)
            if not parts:
                w0 = w
                w = OBJ_[name](CONV[name](obj, url, jp), jp, NONE)
            ret = z3.If(isa(name), w, ret)
            if two:
                reloc = z3.If(isa(name), RE, reloc)
        some = z3.Or(*[isa(k[0]) for k in kinds])
        ret = z3.If(own == STR('2.0'), ret, obj)
        reloc = z3.If(own == STR('2.0'), reloc, V.ref(z3.Int('no relocations')))
        known_ = z3.Or(z3.And(own == STR('2.0'), some), own == STR('3.0.0'))
    res, exc = e.execute(M.upgrade, [Z(obj, SO), app, ZS(jref)], st)
    for m, (s, v) in enumerate(res):
        a, b = v.items if isinstance(v, Tup) else v
        e.prove('%s: the converted object, which is of the version' % m, s, z3.And(known_, e.v(a, s) == ret), keep)
        e.prove('%s: its relocations' % m, s, relocations(e, s, b) == reloc, keep)
        e.prove('%s: normalized, recorded, linked and merged' % m, s, z3.And(*[s.ghost[g] == ret for g in STAGES if g != 'routed'] + (
            [z3.Implies(reloc == RE, s.ghost['routed'] == RE)] if version == '3.0.0' else [])), keep)
    for m, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s): of another version or kind, or a step that fails' % (m, c.__name__), s, z3.Or(s.ghost['failed'], z3.Not(known_)), keep)
    return e.finish()


ASSUMPTIONS = [
    'StrictVersion orders versions by a rank that is a function of their text; sorted() with that key orders by it',
    'pkgutil.iter_modules gives (loader, name, is a package) of what is in the folder; the loader found for a name and '
    'importlib.import_module give the module of that name',
    'os.path.dirname and os.path.join are uninterpreted functions of their arguments',
    'the supported versions are distinct (they are names of folders)',
    'scan() runs a visitor over all of an object (C06); the visitors normalize, link and merge (C12, C13); the converters give an '
    'object of the next version (C08 to C11); the store keeps, relocates and gives what it was given (C03, C04); references are '
    'split by jr_split (C01); retrieval gives the document (C15)',
    'an object of version 2.0 is of one of the classes that are converted, or of none: not of two',
    'an object of a document compares as true',
]
def status_codes(version, keep):
    """ numbers as status codes, as yaml has them, become texts """
    import importlib
    import six
    M = importlib.import_module('pyopenapi.migration.versions.%s.scanner.yaml' % version)
    e, st = DV(), St()
    op, T = z3.Const('operation', V), ('obj', 'response')
    e.fact(V.is_ref(op), V.id(op) >= 0)
    codes = z3.Const('responses', V)
    PATH, path = z3.Function('path of', V, S), z3.String('path')
    old = Z(codes, ('dict', T, ('or', 'str', 'int')))
    e.fact(z3.Or(codes == NONE, z3.And(V.is_ref(codes), V.id(codes) >= 0, codes != op)))
    e.attrs[('operation', 'responses')] = lambda e, st, x: [(st, Z(codes, ('opt', ('obj', 'map'))))]
    e.methods[('truth', 'map')] = lambda e, st, x: e.has(old, st) != NOTHING
    for n in ('items', 'keys', 'values'):
        e.methods[('map', n)] = lambda e, st, x, a, kw, n=n: [(st, View(n, old))]
    e.methods[('map', '__iter__')] = lambda e, st, x, a, kw: [(st, View('keys', old))]
    e.methods[('map', 'get_path')] = lambda e, st, x, a, kw: [(st, ZS(path))]

    def contains(e, st, x, a, kw):
        return [(st, ZB(z3.Select(e.has(old, st), e.v(a[0], st))))]
    e.methods[('map', '__contains__')] = contains

    def item(e, st, x, a, kw):
        k = e.v(a[0], st)
        e.throw(st.clone(z3.Not(z3.Select(e.has(old, st), k))), KeyError)
        return [(st.clone(z3.Select(e.has(old, st), k)), Z(z3.Select(e.val(old, st), k), T))]
    e.methods[('map', '__getitem__')] = item

    def made(e, st, a, kw):
        """ as proved in C05: a map of nothing has no members """
        a = named(a, kw, ('spec', 'path'), 2)
        s = st.clone()
        if not (a and (a[0] == {} or isinstance(a[0], Z) and e.must(s, e.has(a[0], s) == NOTHING))):
            raise Unsupported('a map that is not made of nothing')
        r = e.new(s, ('dict', T, 'str'))
        e.fact(PATH(r.t) == (e.s(a[1]) if len(a) > 1 else STR('')))
        return [(s, r)]
    e.contracts[M.MapOfResponseOrReference] = made

    def attach(e, st, x, a, kw):
        a = named(a, kw, ('name', 'obj'))
        if a[0] != 'responses':
            raise Unsupported('another member')
        s = st.clone()
        s.ghost['attached'], s.ghost['times'] = e.v(a[1], s), s.ghost['times'] + 1
        return [(s, None)]
    e.methods[('operation', 'attach_child')] = attach
    st.ghost['attached'], st.ghost['times'] = NONE, z3.IntVal(0)
    code = z3.String('code')
    text, number = V.str(code), V.int(dvlib.INT(code))
    decimal = dvlib.NUM(dvlib.INT(code)) == code
    has0, val0 = e.has(old, st), e.val(old, st)

    def moved(has, val, h, v):
        a, b = z3.Select(has, text), z3.And(z3.Select(has, number), decimal)
        x = z3.Select(v, text)
        return z3.And(z3.Select(h, text) == z3.Or(a, b), z3.Implies(z3.Or(a, b), z3.Or(z3.And(a, x == z3.Select(val, text)), z3.And(
            b, x == z3.Select(val, number)))))

    def others(h, v):
        y = z3.Const('y', V)
        e.fact(z3.Not(V.is_str(y)))
        return z3.Not(z3.Select(h, y))

    def progress(L, s):
        seen = L.seen(s)
        out = []
        for i in L.cells('has') if seen is not None else []:
            if i is not None:
                h, v = [tidy(z3.Select(e.mem(s, n), i)) for n in ('has', 'val')]
                out += [('those so far, under texts', moved(seen, val0, h, v)), ('only texts', others(h, v))]
        return out
    e.candidates.append(progress)
    e.expect |= {'those so far, under texts', 'only texts'}
    fixer = Z(V.ref(z3.IntVal(10 ** 6)), ('obj', M.YamlFixer))
    res, exc = e.execute(M.YamlFixer._op, [fixer, ZS(z3.String('at')), Z(op, ('obj', 'operation'))], st)
    for n, (s, _) in enumerate(res):
        t, times = s.ghost['attached'], s.ghost['times']
        r = Z(t, ('dict', T, 'str'))
        h, v = e.has(r, s), e.val(r, s)
        e.prove('%s: nothing to do without responses' % n, s, z3.Implies(codes == NONE, times == 0), keep)
        some = z3.And(codes != NONE, has0 != NOTHING)
        e.prove('%s: attached' % n, s, z3.Implies(some, z3.And(times == 1, PATH(t) == path)), keep)
        e.prove('%s: each under the text of its code, and no other' % n, s, z3.Implies(z3.And(codes != NONE, times == 1), z3.And(
            moved(has0, val0, h, v), others(h, v))), keep)
        e.prove('%s: what was there is as it was' % n, s, z3.And(e.has(old, s) == has0, e.val(old, s) == val0), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s)' % (n, c.__name__), s, FALSE, keep)
    return e.finish()


UNITS = [('status codes of ' + v, lambda keep, v=v: status_codes(v, keep)) for v in ('v2_0', 'v3_0_0')] + [('selection', chosen), ('get_supported_versions', supported_versions), ('migrate_obj', migrate),
         ('get_swagger_version', swagger_version), ('resolve_obj', resolve), ('load_obj', load), ('init', init)] + [
             ('upgrade to ' + v, lambda keep, v=v: upgrade_(v, keep)) for v in ('1.2', '2.0', '3.0.0')]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
