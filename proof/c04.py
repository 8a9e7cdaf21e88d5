"""C04: stored objects are found again, and only under their own reference"""
from lib import impl  # noqa: finds the package
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.values import Unsupported

LEVEL, OWNER = z3.Function('level', I, I), z3.Function('owner', I, V)
TOKENS = z3.Function('tokens', S, SEQ)
P = '_SpecObjStore__'


def under(jp, base):
    """is a pointer at or below another? tokens are compared as a whole"""
    return z3.Or(base == z3.StringVal(''), jp == base, z3.PrefixOf(z3.Concat(base, z3.StringVal('/')), jp))


def is_under(keep):
    from pyopenapi.migration import store
    e = DV()
    jp, base = z3.Strings('jp base')
    for n, (s, v) in enumerate(e.execute(store._is_under, [ZS(jp), ZS(base)], St())[0]):
        e.prove('%s: at or below, token by token' % n, s, e.truth(v, s) == under(jp, base), keep)
    e.lemma('no error', z3.BoolVal(not e.sink[0]), keep)
    return e.finish()


class World(object):
    """a store with documents url -> pointer -> version -> object; each dict is its own"""
    def __init__(self, timeout=10000):
        from pyopenapi.migration import store
        self.store = store
        self.e = e = DV(timeout)
        self.st = st = St()
        e.solver.set('timeout', 500)
        C = self.cls = store.SpecObjStore
        self.obj = ('obj', 'spec object')
        kinds = ('dict', ('dict', ('dict', self.obj, 'str'), 'str'), 'str')
        e.fields[C] = {P + 'spec_objs': kinds}
        self.me = Z(V.ref(z3.Int('store')), ('obj', C))
        e.fact(z3.Int('store') >= 0)
        (st, docs), = e.getattr(self.me, P + 'spec_objs', st)
        self.st, self.docs = st, docs
        e.fact(LEVEL(e.ident(docs)) == 0)
        k = z3.Const('k?', V)
        h, v = e.has(docs, st), e.val(docs, st)
        x = z3.Select(v, k)
        e.fact(z3.ForAll([k], z3.Implies(z3.Select(h, k), z3.And(
            V.is_str(k), V.is_ref(x), V.id(x) >= 0, ISDICT(V.id(x)), LEVEL(V.id(x)) == 1, OWNER(V.id(x)) == k)), patterns=[z3.Select(v, k)]))
        u = z3.Int('u?')
        uh, uv = z3.Select(e.mem(st, 'has'), u), z3.Select(e.mem(st, 'val'), u)
        x = z3.Select(uv, k)
        e.fact(z3.ForAll([u, k], z3.Implies(z3.And(LEVEL(u) == 1, z3.Select(uh, k)), z3.And(
            V.is_str(k), V.is_ref(x), V.id(x) >= 0, ISDICT(V.id(x)), LEVEL(V.id(x)) == 2, OWNER(V.id(x)) == V.pair(V.int(u), k))),
            patterns=[z3.Select(uv, k)]))
        for m in ('has', 'val'):
            e.mem(st, m)
        self.st0 = st.clone()

    def there(self, st, url, path, version):
        """is an object stored?"""
        e = self.e
        d = V.id(self.docs.t)
        has, val = e.mem(st, 'has'), e.mem(st, 'val')
        u = V.id(z3.Select(z3.Select(val, d), url))
        p = V.id(z3.Select(z3.Select(val, u), path))
        return z3.And(z3.Select(z3.Select(has, d), url), z3.Select(z3.Select(has, u), path), z3.Select(z3.Select(has, p), version))

    def at(self, st, url, path, version):
        e = self.e
        val = e.mem(st, 'val')
        u = V.id(z3.Select(z3.Select(val, V.id(self.docs.t)), url))
        p = V.id(z3.Select(z3.Select(val, u), path))
        return z3.Select(z3.Select(val, p), version)


def rest(a, b, more=0):
    """what follows len(b) + more characters of a"""
    n = z3.Length(b) + more
    return z3.SubString(a, n, z3.Length(a) - n)


TAIL = z3.Function('tail', S, I, S)


def tail(a, n):
    """what a[n:] is"""
    m = z3.Length(a)
    n = z3.If(n < 0, z3.If(n + m < 0, z3.IntVal(0), n + m), z3.If(n > m, m, n))
    return z3.If(m > n, z3.SubString(a, n, m - n), z3.StringVal(''))


def init(keep):
    from pyopenapi import utils
    from pyopenapi.migration import store
    e, st = DV(), St()
    C = store.SpecObjStore
    e.fields[C] = {P + 'spec_objs': ('dict', None, 'str'), P + 'routes': ('dict', None, 'str'),
                   P + 'migratable_spec_versions': ('opt', ('list', 'str'))}
    me = Z(V.ref(z3.Int('store')), ('obj', C))
    given, known = z3.Consts('versions known', V)
    e.fact(z3.Int('store') >= 0)
    for x in (given, known):
        e.fact(z3.Or(x == NONE, z3.And(V.is_ref(x), V.id(x) >= 0, ISLIST(V.id(x)), z3.Not(ISDICT(V.id(x))))))
    e.contracts[utils.get_supported_versions] = lambda e, st, a, kw: [(st, Z(known, ('list', 'str')))]
    q = z3.Select(e.mem(st, 'seq'), V.id(given))
    for n, (s, _) in enumerate(e.execute(C.__init__, [me, Z(given, ('opt', ('list', 'str')))], st)[0]):
        for name in ('spec_objs', 'routes'):
            (s, x), = e.getattr(me, P + name, s)
            e.prove('%s: no %s' % (n, name), s, e.has(x, s) == NOTHING, keep)
        (s, a), = e.getattr(me, P + 'spec_objs', s)
        (s, b), = e.getattr(me, P + 'routes', s)
        e.prove('%s: kept apart' % n, s, e.v(a, s) != e.v(b, s), keep)
        (s, x), = e.getattr(me, P + 'migratable_spec_versions', s)
        e.prove('%s: the versions given, or those of the package' % n, s, e.v(x, s) == z3.If(z3.And(
            given != NONE, length(q) > 0), given, known), keep)
    return e.finish()


def get(keep):
    from pyopenapi import utils
    w = World()
    e, st = w.e, w.st
    url, jp, version, g = z3.String('url'), z3.String('jp'), z3.String('spec_version'), z3.Const('g', V)
    e.fact(V.is_str(g))
    U, W = V.str(url), V.str(version)
    RESOLVED = z3.Function('reached', V, SEQ, V)

    def split(e, st, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('jp_split with a limit')
        s = st.clone()
        q = TOKENS(e.s(a[0]))
        e.fact(length(q) >= 0)
        r = e.new(s, ('list', None), q)
        s.ek[e.ident(r).as_long()] = 'str'
        s.ghost['split'] = V.str(e.s(a[0]))
        return [(s, r)]
    e.contracts[utils.jp_split] = split

    def resolve(e, st, x, a, kw):
        s = st.clone()
        q = e.seq(a[0], s)
        s.ghost['object'], s.ghost['parts'] = x.t, q
        key = [v for k, v in s.ghost.items() if k[0] == 'key']
        s.ghost['path'] = key[-1] if key else NONE
        e.throw(st.clone(), RuntimeError)
        t = RESOLVED(x.t, q)
        return [(s, Z(t, None))]
    e.methods[('spec object', 'resolve')] = resolve
    st.ghost.update({'object': NONE, 'parts': EMPTY, 'path': NONE, 'split': NONE})

    def match(s, p):
        return z3.And(w.there(s, U, p, W), under(jp, V.s(p)))

    def progress(L, s):
        seen = L.seen(s)
        if seen is not None:
            return [('those before are not for this', z3.Implies(z3.Select(seen, g), z3.Not(match(w.st0, g)))),
                    ('nothing found so far', s.ghost['object'] == NONE)]
    e.candidates.append(progress)
    res, exc = e.execute(w.cls.get, [w.me, ZS(url), ZS(jp), ZS(version)], st)
    for n, (s, v) in enumerate(res):
        x, p, q = s.ghost['object'], s.ghost['path'], s.ghost['parts']
        found = x != NONE
        e.prove('%s: nothing when nothing is stored at or above' % n, s, z3.Implies(z3.Not(found), z3.And(e.v(v, s) == NONE, z3.Not(match(w.st0, g)))), keep)
        if not p.eq(NONE):
            e.prove('%s: of an object stored at or above, for this document and version' % n, s, z3.Implies(found, z3.And(
                match(w.st0, p), x == w.at(w.st0, U, p, W))), keep)
            e.prove('%s: what remains of the pointer is split' % n, s, z3.Implies(found, s.ghost['split'] == V.str(rest(jp, V.s(p)))), keep)
            t = TOKENS(V.s(s.ghost['split']))
            i = z3.Int('i')
            e.prove('%s: it is followed' % n, s, z3.Implies(found, z3.And(
                length(q) == z3.If(length(t) > 0, length(t) - 1, z3.IntVal(0)),
                z3.Implies(z3.And(0 <= i, i < length(q)), nth(q, i) == nth(t, i + 1)), e.v(v, s) == RESOLVED(x, q))), keep)
        else:
            e.prove('%s: no object' % n, s, z3.Not(found), keep)
        e.prove('%s: the store is as it was' % n, s, z3.And(w.there(s, U, g, W) == w.there(w.st0, U, g, W), w.at(s, U, g, W) == w.at(
            w.st0, U, g, W)), keep)
    for s, c, _ in exc:
        if c is not RuntimeError:
            e.prove('no error (%s)' % c.__name__, s, FALSE, keep)
    return e.finish()


def get_under(whole, keep):
    w = World()
    e, st = w.e, w.st
    url, jp, version = z3.String('url'), z3.String('jp'), z3.String('spec_version')
    g, r, ou, ov = z3.Consts('g r other_url other_version', V)
    remove = z3.Bool('remove')
    U, W = V.str(url), V.str(version)
    for x in (g, r, ou, ov):
        e.fact(V.is_str(x))
    slash = z3.Concat(jp, z3.StringVal('/'))
    n1 = z3.Length(jp) + 1
    e.tail = TAIL
    k = z3.Const('k?', V)
    a = z3.String('a')
    e.fact((jp == z3.StringVal('')) == z3.BoolVal(whole))
    if whole:
        # a pointer begins with '#'
        slash = z3.StringVal('#')
        e.fact(z3.ForAll([k], z3.Implies(w.there(w.st0, U, k, W), z3.PrefixOf(slash, V.s(k)))), z3.PrefixOf(slash, V.s(g)), n1 == 1)
    else:
        e.lemma('remainder: of the pointer itself', tail(jp, n1) == z3.StringVal(''), keep)
        e.fact(TAIL(jp, n1) == z3.StringVal(''))
        # one object has a remainder: jp and jp + '/' would have the same
        e.fact(z3.Not(z3.And(w.there(w.st0, U, V.str(jp), W), w.there(w.st0, U, V.str(slash), W))))
    e.lemma('remainder: of those below', z3.Implies(z3.And(n1 == z3.Length(slash), z3.PrefixOf(slash, a)), a == z3.Concat(
        slash, tail(a, n1))), keep)
    e.fact(z3.ForAll([k], z3.Implies(z3.PrefixOf(slash, V.s(k)), V.s(k) == z3.Concat(slash, TAIL(V.s(k), n1))),
                     patterns=[TAIL(V.s(k), n1)]))

    def rest(p):
        return V.str(TAIL(V.s(p), n1))

    def match(s, p):
        return z3.And(w.there(s, U, p, W), under(V.s(p), jp))

    def progress(L, s):
        seen = L.seen(s)
        out = []
        if seen is None:
            return out
        m = z3.And(z3.Select(seen, g), match(w.st0, g))
        key = rest(g)
        for l in L.changed:
            if l[0] == 'mem' and l[1] == 'has' and l[2] is not None and z3.is_int_value(l[2]):
                h, v = z3.Select(e.mem(s, 'has'), l[2]), z3.Select(e.mem(s, 'val'), l[2])
                out.append(('collected', z3.Implies(m, z3.And(z3.Select(h, key), z3.Select(v, key) == w.at(w.st0, U, g, W)))))
                out.append(('nothing else', z3.Implies(z3.Select(h, r), z3.Exists([k], z3.And(
                    z3.Select(seen, k), match(w.st0, k), r == rest(k), z3.Select(v, r) == w.at(w.st0, U, k, W))))))
        out.append(('removed', w.there(s, U, g, W) == z3.And(w.there(w.st0, U, g, W), z3.Not(z3.And(m, remove)))))
        q = z3.Const('q?', V)
        out.append(('the rest is there', z3.ForAll([q], z3.Implies(z3.Not(z3.Select(seen, q)), z3.And(
            w.there(s, U, q, W) == w.there(w.st0, U, q, W))))))
        out.append(('other versions', w.there(s, ou, g, ov) == z3.If(z3.And(ou == U, ov == W), w.there(s, U, g, W), w.there(w.st0, ou, g, ov))))
        u = z3.Int('u?')
        out.append(('documents as they were', z3.ForAll([u], z3.Implies(z3.And(u >= 0, LEVEL(u) <= 1), z3.And(
            z3.Select(e.mem(s, 'has'), u) == z3.Select(e.mem(w.st0, 'has'), u), z3.Select(e.mem(s, 'val'), u) == z3.Select(e.mem(w.st0, 'val'), u))))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(w.cls.get_under, [w.me, ZS(url), ZS(jp), ZS(version), ZB(remove)], st)
    for n, (s, v) in enumerate(res):
        t = e.v(v, s)
        if not t.eq(NONE):
            h, x = z3.Select(e.mem(s, 'has'), V.id(t)), z3.Select(e.mem(s, 'val'), V.id(t))
            key = rest(g)
            e.prove('%s: what is stored at or below is collected' % n, s, z3.Implies(match(w.st0, g), z3.And(
                z3.Select(h, key), z3.Select(x, key) == w.at(w.st0, U, g, W))), keep)
            e.prove('%s: nothing else is' % n, s, z3.Implies(z3.Select(h, r), z3.Exists([k], z3.And(
                match(w.st0, k), r == rest(k), z3.Select(x, r) == w.at(w.st0, U, k, W)))), keep)
        else:
            e.prove('%s: nothing is stored' % n, s, z3.Not(match(w.st0, g)), keep)
        e.prove('%s: removed when asked to' % n, s, w.there(s, U, g, W) == z3.And(w.there(w.st0, U, g, W), z3.Not(z3.And(
            remove, match(w.st0, g)))), keep)
        e.prove('%s: nothing else is removed' % n, s, z3.Implies(z3.Or(ou != U, ov != W), w.there(s, ou, g, ov) == w.there(w.st0, ou, g, ov)), keep)
        e.prove('%s: what stays is as it was' % n, s, z3.Implies(w.there(s, ou, g, ov), w.at(s, ou, g, ov) == w.at(w.st0, ou, g, ov)), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s: only when everything would be removed' % n, s, z3.And(remove, jp == z3.StringVal('')), keep)
    return e.finish()


def set_(keep):
    w = World()
    e, st = w.e, w.st
    url, jp, version = z3.String('url'), z3.String('jp'), z3.String('spec_version')
    g, ou, ov, obj = z3.Consts('g other_url other_version obj', V)
    U, W, J = V.str(url), V.str(version), V.str(jp)
    for x in (g, ou, ov):
        e.fact(V.is_str(x))
    from pyopenapi.migration.spec import _Base
    e.fact(e.is_kind(obj, ('obj', 'spec object')), V.id(obj) >= 0)
    B = z3.Bool('is a spec object')
    e.contracts[issubclass] = lambda e, st, a, kw: [(st, ZB(B))] if a[1] is _Base else NotImplemented
    res, exc = e.execute(w.cls.set, [w.me, Z(obj, ('obj', 'spec object')), ZS(url), ZS(jp), ZS(version)], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: stored' % n, s, z3.And(w.there(s, U, J, W), w.at(s, U, J, W) == obj), keep)
        same = z3.And(ou == U, g == J, ov == W)
        e.prove('%s: nothing else' % n, s, z3.Implies(z3.Not(same), z3.And(
            w.there(s, ou, g, ov) == w.there(w.st0, ou, g, ov),
            z3.Implies(w.there(s, ou, g, ov), w.at(s, ou, g, ov) == w.at(w.st0, ou, g, ov)))), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s: not a spec object' % n, s, z3.Not(B), keep)
    return e.finish()


def get_until(keep):
    w = World()
    e, st = w.e, w.st
    url, jp, version = z3.String('url'), z3.String('jp'), z3.String('spec_version')
    until = z3.Const('until', V)
    e.fields[w.cls][P + 'migratable_spec_versions'] = ('list', 'str')
    (st, vs), = e.getattr(w.me, P + 'migratable_spec_versions', st)
    q = e.seq(vs, st)
    AT = z3.Function('index', S, I)
    a, b = z3.Ints('a b')
    i = z3.Int('i?')
    # versions are named once
    at, lo = SEQ.at(q), SEQ.lo(q)
    e.fact(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < SEQ.hi(q)), z3.And(
        V.is_str(z3.Select(at, i)), AT(V.s(z3.Select(at, i))) == i - lo)), patterns=[z3.Select(at, i)]))
    e.fact(0 <= a, a < length(q), nth(q, a) == V.str(version), 0 <= b, b < length(q))
    e.fact(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < SEQ.hi(q)), z3.Select(els(q), z3.Select(at, i))), patterns=[z3.Select(at, i)]))
    e.fact(z3.Or(until == NONE, until == V.str(z3.StringVal('')), z3.And(nth(q, b) == until)))
    none = z3.Or(until == NONE, until == V.str(z3.StringVal('')))
    last = z3.If(none, length(q) - 1, b)
    e.fact(a <= last)
    RELOC = z3.Function('translated', S, V, V, V, V)
    GET = z3.Function('found', S, V, V, V)
    POINTER = z3.Function('pointer at version', I, V)

    def CHAIN(i):
        return POINTER(lo + i)
    e.fact(CHAIN(a) == V.str(jp), z3.ForAll([i], z3.And(V.is_str(POINTER(i)), POINTER(i + 1) == RELOC(
        url, POINTER(i), z3.Select(at, i), z3.Select(at, i + 1))), patterns=[POINTER(i)]))

    def relocate(e, st, a, kw):
        a = list(a)
        if len(a) == 4 and not kw:
            a.append(None)
        elif set(kw) == set(['to_spec']) and len(a) == 4:
            a.append(kw['to_spec'])
        elif len(a) != 5:
            raise Unsupported('call of relocate')
        t = RELOC(e.s(a[1]), e.v(a[2], st), e.v(a[3], st), e.v(a[4], st))
        return [(st, ZS(V.s(t)))]

    def find(e, st, a, kw):
        if len(a) != 4 or kw:
            raise Unsupported('call of get')
        return [(st, Z(GET(e.s(a[1]), e.v(a[2], st), e.v(a[3], st)), None))]
    e.contracts[w.cls.relocate] = relocate
    e.contracts[w.cls.get] = find
    n = z3.Int('n')

    def tried(k):
        return GET(url, CHAIN(k), nth(q, k)) != NONE

    def progress(L, s):
        pos = L.pos(s)
        out = []
        for c, l in L.lists(s):
            x = SEQ.at(l) if not mk(l) else l.arg(0)
            first = SEQ.lo(l) if not mk(l) else l.arg(1)
            pat = {'patterns': [z3.Select(x, i)]} if z3.is_const(x) else {}
            n0 = lo + a - first
            out.append(('pointers by version', z3.And(length(l) == pos + 1, z3.ForAll([i], z3.Implies(
                z3.And(first <= i, i <= first + pos), z3.Select(x, i) == V.pair(z3.Select(at, n0 + i), POINTER(n0 + i))), **pat))))
        if pos is not None:
            for x, t in L.vars(s, 'str'):
                out.append(('? %s is the pointer' % x, V.str(t) == CHAIN(a + pos)))
                out.append(('? %s is the version' % x, V.str(t) == nth(q, a + pos)))
            out.append(('? not in newer ones', z3.Implies(z3.And(n > last - pos, n <= last), z3.Not(tried(n)))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(w.cls.get_until, [w.me, ZS(url), ZS(jp), ZS(version), Z(until, None)], st)
    for k, (s, v) in enumerate(res):
        x, p, y = [e.v(z, s) for z in (v.items if isinstance(v, Tup) else v)]
        e.prove('%s: the newest version with something' % k, s, z3.Implies(z3.And(a <= n, n <= last, tried(n)), z3.And(
            x != NONE, AT(V.s(y)) >= n)), keep)
        m = AT(V.s(y))
        e.prove('%s: what is there, where and in which version' % k, s, z3.Implies(x != NONE, z3.And(
            a <= m, m <= last, y == nth(q, m), p == CHAIN(m), x == GET(url, p, y))), keep)
        e.prove('%s: or nothing' % k, s, z3.Implies(x == NONE, z3.And(p == NONE, y == NONE)), keep)
    for s, c, _ in exc:
        e.prove('no error (%s)' % c.__name__, s, FALSE, keep)
    return e.finish()


#
# following tokens
#

NODE, MAP_, LIST_, ARRAY, DICT = [z3.Function(x, V, B) for x in ('is an object', 'is a map', 'is a list', 'is an array', 'is a dict')]
ATTR, ITEM = [z3.Function(x, V, V, V) for x in ('attribute of', 'item of')]
ELM = ITEM      # maps and lists give their elements as items
NUMBER = z3.Function('number', S, I)
STEP = z3.Function('step', V, V, V)
ARR = z3.ArraySort(I, V)
FOLLOW, FOLLOW0 = [z3.Function(x, V, ARR, I, I, V) for x in ('reached', 'reached then')]
GOOD, GOOD0 = [z3.Function(x, V, ARR, I, I, B) for x in ('can be followed', 'can be followed then')]


def following(e):
    """facts of what a path of tokens leads to; things are objects, maps, lists, arrays, dicts or primitive"""
    x, t = z3.Consts('x? t?', V)
    at = z3.Const('at?', z3.ArraySort(I, V))
    lo, hi = z3.Ints('lo? hi?')
    kinds = (NODE, MAP_, LIST_, ARRAY, DICT)
    for i, a in enumerate(kinds):
        e.fact(z3.Not(a(NONE)))
        for b in kinds[:i]:
            e.fact(z3.ForAll([x], z3.Not(z3.And(a(x), b(x))), patterns=[z3.MultiPattern(a(x), b(x))]))
    e.fact(z3.ForAll([x, t], STEP(x, t) == z3.If(NODE(x), ATTR(x, t), z3.If(MAP_(x), ELM(x, t), z3.If(
        LIST_(x), ELM(x, V.int(NUMBER(V.s(t)))), z3.If(ARRAY(x), ITEM(x, V.int(NUMBER(V.s(t)))), ITEM(x, t))))), patterns=[STEP(x, t)]))
    # unfolded where it is asked for, and not further
    r, r0 = FOLLOW(x, at, lo, hi), FOLLOW0(x, at, lo, hi)
    e.fact(z3.ForAll([x, at, lo, hi], z3.And(r == r0, r == z3.If(
        lo >= hi, x, FOLLOW0(STEP(x, z3.Select(at, lo)), at, lo + 1, hi))), patterns=[r]))
    r, r0 = GOOD(x, at, lo, hi), GOOD0(x, at, lo, hi)
    e.fact(z3.ForAll([x, at, lo, hi], z3.And(r == r0, r == z3.If(
        lo >= hi, TRUE, z3.And(inner(x), GOOD0(STEP(x, z3.Select(at, lo)), at, lo + 1, hi)))), patterns=[r]))


def inner(x):
    return z3.Or(NODE(x), MAP_(x), LIST_(x), ARRAY(x), DICT(x))


def good(x, q):
    at, lo, hi = fields(q)[:3]
    return GOOD(x, at, lo, hi)


def follow(x, q):
    at, lo, hi = fields(q)[:3]
    return FOLLOW(x, at, lo, hi)


def resolve_of(name, keep):
    from pyopenapi.migration.spec import obj as M
    cls = getattr(M, name)
    e, st = DV(), St()
    following(e)
    T = ('obj', 'thing')
    me, parts = z3.Const('self', V), z3.Const('parts', V)
    q0 = z3.Const('tokens', SEQ)
    i = z3.Int('i?')
    pred = {M.Base2Obj: NODE, M._Map: MAP_, M._List: LIST_, list: ARRAY, dict: DICT}
    e.fact(V.is_ref(me), V.id(me) >= 0, pred[cls](me), V.is_ref(parts), V.id(parts) >= 0, ISLIST(V.id(parts)), length(q0) >= 0,
           z3.ForAll([i], V.is_str(z3.Select(SEQ.at(q0), i))), V.id(parts) != V.id(me))
    e.fact(z3.Select(e.mem(st, 'seq'), V.id(parts)) == q0)

    def instance(e, st, x, c):
        if c not in pred:
            raise Unsupported('isinstance of %r' % (c,))
        return pred[c](x.t)
    e.methods[('instance', 'thing')] = instance
    e.attrs[('thing', '__class__')] = lambda e, st, x: [(st, Model(x, 'type'))]

    def thing(t):
        return Z(t, T)

    def attribute(e, st, a, kw):
        if len(a) == 2 and not isinstance(a[1], str):
            e.throw(st.clone(), AttributeError)
            return [(st, thing(ATTR(a[0].t, e.v(a[1], st))))]
        return NotImplemented
    e.contracts[getattr] = attribute

    def item(e, st, x, a, kw):
        e.throw(st.clone(), KeyError)
        return [(st, thing(ITEM(x.t, e.v(a[0], st))))]
    e.methods[('thing', '__getitem__')] = item

    def number(e, st, a, kw):
        if len(a) == 1 and e.is_str(a[0]):
            e.throw(st.clone(), ValueError)
            return [(st, ZI(NUMBER(e.s(a[0]))))]
        return NotImplemented
    e.contracts[int] = number

    def elements(e, st, x):
        return [(st, Z(x.t, ('obj', 'elements')))]
    e.attrs[('thing', '_%s__elm' % name.lstrip('_') if name.startswith('_') else name)] = elements
    e.attrs[('thing', '_Map__elm')] = e.attrs[('thing', '_List__elm')] = elements
    e.methods[('elements', '__getitem__')] = lambda e, st, x, a, kw: [(st, thing(ELM(x.t, e.v(a[0], st))))] if not e.throw(
        st.clone(), KeyError) else []

    def resolve(e, st, x, a, kw):
        """of those inside: decided with their own classes"""
        e.throw(st.clone(), KeyError)
        q = e.seq(a[0], st)
        ok = z3.Or(NODE(x.t), MAP_(x.t), LIST_(x.t))
        if not e.feasible(st, lnot(ok)):
            pass
        else:
            e.throw(st.clone(lnot(ok)), AttributeError)
            st = st.clone(ok)
        s = st.clone()
        e.put(s, 'seq', e.ident(a[0]), e.fresh('left', SEQ))
        return [(s, thing(follow(x.t, q)))]
    e.methods[('thing', 'resolve')] = resolve
    want = follow(me, q0)

    e.fact(good(me, q0))

    def progress(L, s):
        out = []
        q = e.seq(Z(parts, ('list', 'str')), s)
        for n, t in L.vars(s, 'ref'):
            out.append(('? %s is where the tokens before lead' % n, z3.And(
                follow(t, q) == want, good(t, q), z3.Or(length(q) <= 0, z3.Not(z3.Or(MAP_(t), LIST_(t)))))))
        out.append(('tokens left', z3.And(length(q) >= 0, SEQ.at(q) == SEQ.at(q0))))
        return out
    e.candidates.append(progress)
    fn = cls.__dict__['resolve']
    res, exc = e.execute(fn, [thing(me), Z(parts, ('list', 'str'))], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: what the tokens lead to' % n, s, e.v(v, s) == want, keep)
    return e.finish()


ASSUMPTIONS = [
    'each document, pointer and version of the store has a dict of its own (the invariant that set() keeps by making them)',
    'a pointer and that pointer followed by / (an empty token) are not both stored when one of them is collected: both have the '
    'same remainder',
    'pointers begin with # when everything is collected',
    'the versions a store knows are distinct, and the version looked for is one of them',
    'a pointer does not go below a string, number or boolean; int() of a token is an uninterpreted function; a negative index is '
    'not told from others',
    'what attribute a token gives of an object is decided by C05; jp_split by C01',
]
UNITS = [('init', init), ('_is_under', is_under), ('get', get), ('get_under', lambda keep: get_under(False, keep)),
         ('get_under of everything', lambda keep: get_under(True, keep)), ('set', set_),
         ('get_until', get_until)] + [('resolve of ' + n, lambda keep, n=n: resolve_of(n, keep)) for n in ('Base2Obj', '_Map', '_List')]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
