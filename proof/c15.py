"""C15: retrieving a reference gives what its pointer leads to, documents are retrieved once"""
from lib import impl  # noqa: finds the package
import inspect
import json
import os
import re

import six
import yaml
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.c04 import TOKENS
from proof.values import Unsupported

P = '_Resolver__'
STR = z3.StringVal
URL, POINTER, HOOKED = [z3.Function(x, S, S) for x in ('document', 'pointer', 'redirected')]
SCHEME, NETLOC, PATH = [z3.Function(x, S, S) for x in ('scheme', 'netloc', 'path')]
JOINED = z3.Function('joined path', S, S, S)
DECODED_PATH, ABSOLUTE = z3.Function('percent-decoded', S, S), z3.Function('an absolute path', S, B)
MADE = z3.Function('getter made', V, V, V)
FETCHED = z3.Function('retrieved', V, V)
ISCLASS, FULL, ARRAY, DICT = [z3.Function(x, V, B) for x in ('is a class', 'is full', 'is an array', 'is a dict')]
KEYS = z3.Function('keys of', V, z3.ArraySort(V, B))
NUMBER = z3.Function('number', S, I)
ISNUMBER = z3.Function('is a number', S, B)
ITEM = z3.Function('item', V, V, V)
ARR = z3.ArraySort(I, V)
FOLLOW, FOLLOW0 = [z3.Function(x, V, ARR, I, I, V) for x in ('reached', 'reached then')]
LEADS, LEADS0 = [z3.Function(x, V, ARR, I, I, B) for x in ('leads somewhere', 'leads somewhere then')]
DOC = ('obj', 'value')


def HAS(x, key):
    return z3.Select(KEYS(x), key)


def numeric(t):
    """ documents in yaml have numbers as keys """
    return V.int(dvlib.INT(V.s(t)))


def same_number(s):
    return dvlib.NUM(dvlib.INT(s)) == s


def following(e):
    x, t = z3.Consts('x? t?', V)
    at = z3.Const('at?', ARR)
    lo, hi = z3.Ints('lo? hi?')
    e.fact(z3.ForAll([x], z3.Not(z3.And(ARRAY(x), DICT(x))), patterns=[z3.MultiPattern(ARRAY(x), DICT(x))]))
    t = z3.Select(at, lo)
    key = z3.If(ARRAY(x), V.int(NUMBER(V.s(t))), z3.If(z3.And(z3.Not(HAS(x, t)), HAS(x, numeric(t)), same_number(V.s(t))), numeric(t), t))
    there = z3.And(z3.Or(ARRAY(x), DICT(x)), z3.Implies(ARRAY(x), ISNUMBER(V.s(t))), HAS(x, key))
    r, r0 = FOLLOW(x, at, lo, hi), FOLLOW0(x, at, lo, hi)
    e.fact(z3.ForAll([x, at, lo, hi], z3.And(r == r0, r == z3.If(lo >= hi, x, FOLLOW0(ITEM(x, key), at, lo + 1, hi))), patterns=[r]))
    r, r0 = LEADS(x, at, lo, hi), LEADS0(x, at, lo, hi)
    e.fact(z3.ForAll([x, at, lo, hi], z3.And(r == r0, r == z3.Or(lo >= hi, z3.And(there, LEADS0(ITEM(x, key), at, lo + 1, hi)))), patterns=[r]))


def along(f, x, q):
    return f(x, *fields(q)[:3])


def values(e):
    """what documents are made of"""
    def instance(e, st, x, c):
        pred = {list: ARRAY, dict: DICT}
        if c not in pred:
            raise Unsupported('isinstance of %r' % (c,))
        return pred[c](x.t)
    e.methods[('instance', 'value')] = instance
    e.methods[('truth', 'value')] = lambda e, st, x: FULL(x.t)
    e.attrs[('value', '__class__')] = lambda e, st, x: [(st, Model(x, 'type'))]

    def item(e, st, x, a, kw):
        v = e.v(a[0], st)
        e.throw(st.clone(z3.Not(HAS(x.t, v))), KeyError)
        e.throw(st.clone(z3.Not(z3.Or(ARRAY(x.t), DICT(x.t)))), TypeError)
        st = st.clone(HAS(x.t, v), z3.Or(ARRAY(x.t), DICT(x.t)))
        if e.is_str(a[0]):
            e.throw(st.clone(ARRAY(x.t)), TypeError)
            st = st.clone(DICT(x.t))
        return [(st, Z(ITEM(x.t, v), DOC))]
    e.methods[('value', '__getitem__')] = item

    def has(e, st, x, a, kw):
        if not e.must(st, DICT(x.t)):
            raise Unsupported('what an array contains')
        return [(st, ZB(HAS(x.t, e.v(a[0], st))))]

    def keys(e, st, x, a, kw):
        if not e.must(st, DICT(x.t)) or a or kw:
            raise Unsupported('the items of an array')
        s = st.clone()
        r = e.new(s, ('set', ('or', 'str', 'int')))
        e.put(s, 'has', e.ident(r), KEYS(x.t))
        s.ek[e.ident(r).as_long()] = ('or', 'str', 'int')
        return [(s, r)]
    e.methods[('value', '__contains__')], e.methods[('value', '__iter__')], e.methods[('value', 'keys')] = has, keys, keys

    def number(e, st, a, kw):
        if len(a) == 1 and e.is_str(a[0]):
            ok = ISNUMBER(e.s(a[0]))
            e.throw(st.clone(z3.Not(ok)), ValueError)
            return [(st.clone(ok), ZI(NUMBER(e.s(a[0]))))]
        return NotImplemented
    e.contracts[int] = number


def resolve(given, keep):
    from pyopenapi import utils
    from pyopenapi.migration import resolve as M, getter as G
    e, st = DV(), St()
    e.solver.set('timeout', 500)
    e.abstract = 1000
    C = M.Resolver
    e.dump = bool(os.environ.get('DUMP'))
    values(e)
    following(e)
    getter, hook = ('opt', ('obj', 'getter')), ('opt', ('obj', 'hook'))
    e.fields[C] = {P + 'cache': ('dict', ('opt', DOC), 'str'), P + 'url_load_hook': hook, P + 'default_getter': getter}
    me = Z(V.ref(z3.Int('resolver')), ('obj', C))
    e.fact(z3.Int('resolver') >= 0)
    jref = z3.String('jref')
    own = z3.Const('getter', V)
    (st, cache), = e.getattr(me, P + 'cache', st)
    (st, h), = e.getattr(me, P + 'url_load_hook', st)
    (st, default), = e.getattr(me, P + 'default_getter', st)
    g = z3.Const('other_url', V)
    url = URL(jref)
    local = z3.If(h.t == NONE, url, HOOKED(url))
    U = V.str(url)
    e.fact(z3.Not(FULL(NONE)), z3.Not(ARRAY(NONE)), z3.Not(DICT(NONE)))
    for x in (own, h.t, default.t):
        e.fact(z3.Or(x == NONE, V.is_ref(x)))
    e.fact((own != NONE) == z3.BoolVal(given))
    has0, val0 = e.has(cache, st), e.val(cache, st)
    old = z3.If(z3.Select(has0, U), z3.Select(val0, U), NONE)
    # which getter is asked
    file_ = z3.And(SCHEME(local) == STR('file'), PATH(local) != STR(''))
    code = lambda c: V.cls(z3.IntVal(e.code(c)))  # noqa
    made_local = MADE(code(G.LocalGetter), V.str(DECODED_PATH(PATH(local))))
    # of urlparse: with a host, a path begins with a slash; for absolute paths os.path.join gives them
    whole = lambda p: z3.Implies(ABSOLUTE(p), ABSOLUTE(DECODED_PATH(p)))  # noqa
    e.fact(z3.Or(NETLOC(local) == STR(''), PATH(local) == STR(''), ABSOLUTE(PATH(local))), whole(PATH(local)))
    chosen = z3.If(own != NONE, own, z3.If(file_, made_local, z3.If(default.t != NONE, default.t, code(G.UrlGetter))))
    x = z3.Const('x?', V)
    a = z3.Const('a?', V)
    e.fact(z3.ForAll([x, a], z3.And(z3.Not(ISCLASS(MADE(x, a))), MADE(x, a) != NONE), patterns=[MADE(x, a)]))
    e.fact(ISCLASS(code(G.UrlGetter)), ISCLASS(code(G.LocalGetter)))
    asked = z3.If(ISCLASS(chosen), MADE(chosen, V.str(local)), chosen)
    doc = z3.If(FULL(old), old, FETCHED(asked))
    st.ghost['times'], st.ghost['asked'], st.ghost['failed'] = z3.IntVal(0), NONE, FALSE

    def fail(e, st):
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, OSError)

    e.contracts[utils.jr_split] = lambda e, st, a, kw: [(st, Tup([ZS(URL(e.s(a[0]))), ZS(POINTER(e.s(a[0])))]))]

    def split(e, st, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('jp_split with a limit')
        s = st.clone()
        q = TOKENS(e.s(a[0]))
        i = z3.Int('i?')
        e.fact(length(q) >= 0, z3.ForAll([i], V.is_str(z3.Select(SEQ.at(q), i)), patterns=[z3.Select(SEQ.at(q), i)]))
        r = e.new(s, ('list', 'str'), q)
        s.ek[e.ident(r).as_long()] = 'str'
        return [(s, r)]
    e.contracts[utils.jp_split] = split
    e.methods[('hook', '__call__')] = lambda e, st, x, a, kw: [(st, ZS(HOOKED(e.s(a[0]))))]
    e.methods[('truth', 'hook')] = e.methods[('truth', 'getter')] = lambda e, st, x: TRUE

    def parse(e, st, a, kw):
        u = e.s(a[0])
        s = st.clone()
        return [(s, Z(V.str(u), ('obj', 'parsed url')))]
    e.contracts[six.moves.urllib.parse.urlparse] = parse
    for n, f in (('scheme', SCHEME), ('netloc', NETLOC), ('path', PATH)):
        e.attrs[('parsed url', n)] = lambda e, st, x, f=f: [(st, ZS(f(V.s(x.t))))]

    def join(e, st, a, kw):
        r = JOINED(e.s(a[0]), e.s(a[1]))
        e.fact(z3.Implies(z3.Or(e.s(a[0]) == STR(''), ABSOLUTE(e.s(a[1]))), r == e.s(a[1])))
        return [(st, ZS(r))]
    e.contracts[os.path.join] = join
    e.contracts[six.moves.urllib.parse.unquote] = lambda e, st, a, kw: [(st, ZS(DECODED_PATH(e.s(a[0]))))]

    def made(cls):
        def make(e, st, a, kw):
            fail(e, st)
            return [(st, Z(MADE(cls if z3.is_expr(cls) else code(cls), e.v(a[0], st)), ('obj', 'getter')))]
        return make
    e.contracts[G.LocalGetter], e.contracts[G.UrlGetter] = made(G.LocalGetter), made(G.UrlGetter)
    e.methods[('getter', '__call__')] = lambda e, st, x, a, kw: made(x.t)(e, st, a, kw)

    def isclass(e, st, a, kw):
        if isinstance(a[0], type):
            return [(st, True)]
        return [(st, ZB(ISCLASS(e.v(a[0], st))))]
    e.contracts[inspect.isclass] = isclass

    def advance(e, st, a, kw):
        t = e.v(a[0], st)
        s = st.clone()
        s.ghost['times'], s.ghost['asked'] = s.ghost['times'] + 1, t
        fail(e, s)
        return [(s, Z(FETCHED(t), ('opt', DOC)))]
    e.contracts[six.advance_iterator] = e.contracts[next] = advance

    q0 = TOKENS(POINTER(jref))
    at, lo, hi, _ = fields(q0)
    first = z3.If(hi - lo > 0, lo + 1, lo)
    want, leads = FOLLOW(doc, at, first, hi), LEADS(doc, at, first, hi)

    def progress(L, s):
        out = []
        if L.seen(s) is not None:
            for n, t in sorted((n, e.s(t)) for n, t in s.env.items() if e.is_str(t)):
                out.append(('? %s is no number looked at' % n, z3.Not(z3.And(z3.Select(L.seen(s), numeric(V.str(t))), same_number(t)))))
        if L.pos(s) is None and L.seen(s) is None:
            for c, l in L.lists(s):
                for n, t in L.vars(s, 'ref') + L.vars(s, 'value'):
                    out.append(('? %s is where the tokens before lead' % n, z3.And(
                        along(FOLLOW, t, l) == want, along(LEADS, t, l) == leads)))
                out.append(('tokens left', z3.And(length(l) >= 0)))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(C.resolve, [me, ZS(jref), Z(own, ('obj', 'getter')) if given else None], st)

    def same(n, s, ok):
        """what every end has: the document is retrieved when it is not known, and kept"""
        has, val = e.has(cache, s), e.val(cache, s)
        t = s.ghost['times']
        e.prove('%s: retrieved once, unless known' % n, s, z3.And(
            z3.Implies(FULL(old), t == 0), t <= 1, z3.Implies(t == 1, s.ghost['asked'] == asked)), keep)
        e.prove('%s: other documents stay' % n, s, z3.Implies(g != U, z3.And(
            z3.Select(has, g) == z3.Select(has0, g), z3.Select(val, g) == z3.Select(val0, g))), keep)
        e.prove('%s: a known document stays' % n, s, z3.Implies(FULL(old), z3.And(
            z3.Select(has, U), z3.Select(val, U) == old)), keep)
        if ok:
            e.prove('%s: a full document is known from then on' % n, s, z3.And(z3.Select(has, U), z3.Select(val, U) == doc), keep)
    for n, (s, v) in enumerate(res):
        e.prove('%s: what the pointer leads to' % n, s, z3.And(FULL(doc), leads, e.v(v, s) == want), keep)
        same(n, s, True)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s): nothing there' % (n, c.__name__), s, z3.Or(s.ghost['failed'], z3.Not(z3.And(FULL(doc), leads))), keep)
        same('error %s' % n, s, False)
    return e.finish()


def init(keep):
    from pyopenapi.migration import resolve as M
    e, st = DV(), St()
    C = M.Resolver
    getter, hook = ('opt', ('obj', 'getter')), ('opt', ('obj', 'hook'))
    e.fields[C] = {P + 'cache': ('dict', ('opt', DOC), 'str'), P + 'url_load_hook': hook, P + 'default_getter': getter}
    me = Z(V.ref(z3.Int('resolver')), ('obj', C))
    h, g = z3.Consts('hook getter', V)
    e.fact(z3.Int('resolver') >= 0)
    for n, (s, _) in enumerate(e.execute(C.__init__, [me, Z(h, hook), Z(g, getter)], st)[0]):
        for name, want in (('url_load_hook', h), ('default_getter', g)):
            (s, x), = e.getattr(me, P + name, s)
            e.prove('%s: %s kept' % (n, name), s, e.v(x, s) == want, keep)
        (s, x), = e.getattr(me, P + 'cache', s)
        e.prove('%s: nothing known' % n, s, e.has(x, s) == NOTHING, keep)
    return e.finish()


#
# getters
#

LOADED, DECODED = z3.Function('loaded', S, V), z3.Function('decoded', V, S, S)
JSON_, YAML_ = z3.Function('parsed as json', S, V), z3.Function('parsed as yaml', S, V)


def next_(keep):
    from pyopenapi.migration import getter as G
    e, st = DV(), St()
    C = G.Getter
    e.fields[C] = {'urls': ('list', 'str')}
    me = Z(V.ref(z3.Int('getter')), ('obj', C))
    e.fact(z3.Int('getter') >= 0)
    (st, urls), = e.getattr(me, 'urls', st)
    q = e.seq(urls, st)
    i = z3.Int('i?')
    e.fact(z3.ForAll([i], V.is_str(z3.Select(SEQ.at(q), i)), patterns=[z3.Select(SEQ.at(q), i)]), length(q) >= 0)
    first = V.s(z3.Select(SEQ.at(q), SEQ.lo(q)))
    for n, c in (('bytes', bytes), ('other', None)):
        e.methods[('instance', n)] = lambda e, st, x, k, c=c: z3.BoolVal(c is not None and k is c)
        e.attrs[(n, '__class__')] = lambda e, st, x: [(st, Model(x, 'type'))]
    st.ghost['kind'], st.ghost['path'], st.ghost['failed'] = z3.IntVal(0), NONE, FALSE

    def fail(e, st, c):
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, c)

    def load(e, st, a, kw):
        if len(a) != 2 or kw:
            raise Unsupported('call of load')
        p = e.s(a[1])
        x, out = LOADED(p), []
        fail(e, st, OSError)
        for n, k in enumerate((('dict', None, 'str'), ('obj', 'bytes'), 'str', ('obj', 'other'))):
            s = st.clone(V.is_str(x) if k == 'str' else z3.And(V.is_ref(x), V.id(x) >= 0, z3.Not(ISLIST(V.id(x))), ISDICT(V.id(x)) == z3.BoolVal(n == 0)))
            s.ghost['kind'], s.ghost['path'] = z3.IntVal(n + 1), V.str(p)
            out.append((s, ZS(V.s(x)) if k == 'str' else Z(x, k)))
        return out
    e.contracts[C.load] = load

    def decode(e, st, x, a, kw):
        if kw or len(a) > 1:
            raise Unsupported('call of decode')
        fail(e, st, UnicodeDecodeError)
        return [(st, ZS(DECODED(x.t, e.s(a[0]) if a else STR('utf-8'))))]
    e.methods[('bytes', 'decode')] = decode

    def parse(f, errors):
        def h(e, st, a, kw):
            if len(a) != 1 or kw:
                raise Unsupported('call of a parser')
            t = f(e.s(a[0]))
            for c in errors:
                fail(e, st, c)
            return [(st, Z(t, None))]
        return h
    e.contracts[G.json.loads] = parse(JSON_, (ValueError,))
    e.contracts[G.yaml.load] = parse(YAML_, (ValueError, G.yaml.YAMLError))
    res, exc = e.execute(C.__next__, [me], st)
    loaded = LOADED(first)

    def used(s):
        (s, u), = e.getattr(me, 'urls', s)
        return e.seq(u, s)
    for n, (s, v) in enumerate(res):
        k = s.ghost['kind']
        text = z3.If(k == 2, DECODED(loaded, STR('utf-8')), V.s(loaded))
        e.prove('%s: of the first url' % n, s, z3.And(length(q) > 0, s.ghost['path'] == V.str(first)), keep)
        e.prove('%s: a dictionary as it is, text parsed' % n, s, e.v(v, s) == z3.If(k == 1, loaded, z3.If(
            z3.PrefixOf(STR('{'), text), JSON_(text), YAML_(text))), keep)
        e.prove('%s: of a dictionary, bytes or text' % n, s, z3.And(1 <= k, k <= 3), keep)
        u = used(s)
        e.prove('%s: the next ones are left' % n, s, z3.And(length(u) == length(q) - 1, z3.Implies(z3.And(
            0 <= i, i < length(u)), nth(u, i) == nth(q, i + 1))), keep)
    for n, (s, c, _) in enumerate(exc):
        if c is StopIteration:
            e.prove('error %s: nothing is left' % n, s, length(q) == 0, keep)
        elif c is ValueError:
            e.prove('error %s: something else is loaded' % n, s, z3.Or(s.ghost['failed'], s.ghost['kind'] == 4), keep)
        else:
            e.prove('error %s (%s): it cannot be loaded or parsed' % (n, c.__name__), s, s.ghost['failed'], keep)
    return e.finish()


def simple(keep):
    """getters that load from a callback, a url or a dictionary"""
    from pyopenapi.migration import getter as G
    e, st = DV(), St()
    C = G.SimpleGetter
    e.fields[C] = {'urls': ('list', 'str'), 'base_path': 'str'}
    e.closed.add(C)
    path = z3.String('path')
    me = Z(V.ref(z3.Int('getter')), ('obj', C))
    e.fact(z3.Int('getter') >= 0)
    for n, (s, _) in enumerate(e.execute(C.__init__, [me, ZS(path)], st.clone())[0]):
        (s, u), = e.getattr(me, 'urls', s)
        q = e.seq(u, s)
        e.prove('init %s: its only url' % n, s, z3.And(length(q) == 1, nth(q, 0) == V.str(path)), keep)
    GIVEN = z3.Function('given by the callback', S, V)
    method, fn = ('obj', 'method'), Z(V.ref(z3.IntVal(-7777)), ('obj', 'callback'))
    names = [n for n in dir(C) if n.endswith('simple_getter_callback__')]
    for n in names:
        e.attrs[(C, n)] = lambda e, st, x: [(st, Z(fn.t, method))]
    e.attrs[('method', '__func__')] = lambda e, st, x: [(st, fn)]

    def call(e, st, x, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('call of the callback')
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, OSError)
        return [(st, Z(GIVEN(e.s(a[0])), None))]
    e.methods[('callback', '__call__')] = call
    st.ghost['failed'] = FALSE
    res, exc = e.execute(C.load, [me, ZS(path)], st)
    for n, (s, v) in enumerate(res):
        e.prove('load %s: what the callback gives' % n, s, e.v(v, s) == GIVEN(path), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('load error %s (%s): that of the callback' % (n, c.__name__), s, s.ghost['failed'], keep)
    return e.finish()


def from_dict(keep):
    from pyopenapi.migration import getter as G
    e, st = DV(), St()
    C = G.DictGetter
    e.fields[C] = {'_path2dict': ('dict', None, 'str')}
    path = z3.String('path')
    me = Z(V.ref(z3.Int('getter')), ('obj', C))
    e.fact(z3.Int('getter') >= 0)
    k = z3.Const('k', V)
    urls, table = Z(V.ref(z3.Int('urls')), ('list', 'str')), z3.Const('table', V)
    e.fact(z3.Int('urls') >= 0, e.is_kind(urls.t, urls.kind), length(e.seq(urls, st)) > 0, z3.Or(table == NONE, z3.And(
        V.is_ref(table), V.id(table) >= 0, ISDICT(V.id(table)), z3.Not(ISLIST(V.id(table))))))
    e.fields[C].update({'urls': urls.kind, 'base_path': 'str'})
    e.closed.add(C)
    new = e.new(st, ('obj', C))
    res, exc = e.execute(C.__init__, [new, urls, Z(table, ('opt', ('dict', None, 'str')))], st.clone())
    for n, (s, v) in enumerate(res):
        (s, u), = e.getattr(new, 'urls', s)
        (s, d), = e.getattr(new, '_path2dict', s)
        e.prove('init %s: those urls' % n, s, z3.And(e.v(u, s) == urls.t, e.seq(u, s) == e.seq(urls, st)), keep)
        known = z3.If(table == NONE, NOTHING, z3.Select(e.mem(st, 'has'), V.id(table)))
        e.prove('init %s: that table' % n, s, z3.And(e.has(d, s) == known, z3.Implies(z3.Select(known, k), z3.Select(
            e.val(d, s), k) == z3.Select(z3.Select(e.mem(st, 'val'), V.id(table)), k))), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('init error %s' % n, s, FALSE, keep)
    (st, d), = e.getattr(me, '_path2dict', st)
    has, val = e.has(d, st), e.val(d, st)
    there = z3.Select(has, V.str(path))
    res, exc = e.execute(C.load, [me, ZS(path)], st)
    for n, (s, v) in enumerate(res):
        t = e.v(v, s)
        e.prove('%s: what the path stands for' % n, s, z3.Implies(there, t == z3.Select(val, V.str(path))), keep)
        e.prove('%s: or an empty one' % n, s, z3.Implies(z3.Not(there), z3.And(
            V.is_ref(t), ISDICT(V.id(t)), z3.Select(e.mem(s, 'has'), V.id(t)) == NOTHING)), keep)
        e.prove('%s: the mapping stays' % n, s, z3.And(e.has(d, s) == has, e.val(d, s) == val), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s' % n, s, FALSE, keep)
    return e.finish()


def from_url(keep):
    from pyopenapi.migration import getter as G
    e, st = DV(), St()
    BODY, HANDLE = z3.Function('content', V, V), z3.Function('opened', S, V)
    path = z3.String('path')
    e.fact(z3.ForAll([path], V.is_ref(HANDLE(path)), patterns=[HANDLE(path)]))
    st.ghost['open'] = z3.IntVal(0)

    def urlopen(e, st, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('call of urlopen')
        e.throw(st.clone(), OSError)
        s = st.clone()
        s.ghost['open'] += 1
        return [(s, Z(HANDLE(e.s(a[0])), ('obj', 'handle')))]
    e.contracts[six.moves.urllib.request.urlopen] = urlopen
    e.methods[('truth', 'handle')] = lambda e, st, x: TRUE

    def read(e, st, x, a, kw):
        if a or kw:
            raise Unsupported('call of read')
        e.throw(st.clone(), OSError)
        return [(st, Z(BODY(x.t), None))]

    def close(e, st, x, a, kw):
        s = st.clone()
        s.ghost['open'] -= 1
        return [(s, None)]
    e.methods[('handle', 'read')], e.methods[('handle', 'close')] = read, close
    p = z3.String('url')
    res, exc = e.execute(G._url_load, [ZS(p)], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: what the url has' % n, s, e.v(v, s) == BODY(HANDLE(p)), keep)
        e.prove('%s: closed' % n, s, s.ghost['open'] == 0, keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s: closed' % n, s, s.ghost['open'] == 0, keep)
        e.prove('error %s (%s)' % (n, c.__name__), s, z3.BoolVal(c is OSError), keep)
    return e.finish()


EXT, IS_FILE, FOLDER, WINDOWS = z3.Function('extension', S, S), z3.Function('is a file', S, B), z3.Function('folder of', S, S), z3.Function('a drive', S, B)
TEXT = z3.Function('text of a file', S, V)


def files(e):
    """os.path and urlparse, on paths that are not those of Windows"""
    def ext(p):
        e.fact(z3.SuffixOf(EXT(p), p))
        return EXT(p)

    def join(e, st, a, kw):
        return [(st, ZS(JOINED(e.s(a[0]), e.s(a[1]))))]
    e.contracts[os.path.splitext] = lambda e, st, a, kw: [(st, Tup([ZS(e.fresh('stem', S)), ZS(ext(e.s(a[0])))]))]
    e.contracts[os.path.join] = join
    e.contracts[os.path.isfile] = lambda e, st, a, kw: [(st, ZB(IS_FILE(e.s(a[0]))))]
    e.contracts[os.path.dirname] = lambda e, st, a, kw: [(st, ZS(FOLDER(e.s(a[0]))))]
    e.contracts[six.moves.urllib.parse.urlparse] = lambda e, st, a, kw: [(st, Z(V.str(e.s(a[0])), ('obj', 'parsed url')))]
    for n, f in (('scheme', SCHEME), ('netloc', NETLOC), ('path', PATH)):
        e.attrs[('parsed url', n)] = lambda e, st, x, f=f: [(st, ZS(f(V.s(x.t))))]
    e.contracts[six.moves.urllib.parse.unquote] = lambda e, st, a, kw: [(st, ZS(DECODED_PATH(e.s(a[0]))))]

    def match(e, st, a, kw):
        if len(a) != 2 or kw or a[0] != '^/[A-Z]+:':
            raise Unsupported('re.match %r' % (a,))
        return [(st, None)]
    e.contracts[re.match] = match


def valid(t):
    return z3.Or(*[t == STR(x) for x in ('.json', '.yaml', '.yml')])


def local(keep):
    """the file of a path or of a file URL: itself, one with a known name within it, or one with an extension"""
    from pyopenapi.migration import getter as G
    e, st = DV(), St()
    files(e)
    C = G.LocalGetter
    e.fields[C] = {'urls': ('list', 'str'), 'base_path': 'str'}
    e.closed.add(C)
    e.solver.set('timeout', 200)
    path = z3.String('given')
    me = Z(V.ref(z3.Int('getter')), ('obj', C))
    e.fact(z3.Int('getter') >= 0)
    p = z3.If(z3.PrefixOf(STR('file://'), path), DECODED_PATH(PATH(path)), path)
    ext = EXT(p)
    nothing = STR('')
    last = nothing
    for x in ('.yaml', '.json'):
        last = z3.If(IS_FILE(z3.Concat(p, STR(x))), z3.Concat(p, STR(x)), last)
    want = z3.If(z3.Or(*[z3.SuffixOf(STR(x), ext) for x in ('json', 'yaml', 'yml')]), p, last)
    for x in reversed(('resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml')):
        want = z3.If(z3.SuffixOf(STR(x), path), p, z3.If(IS_FILE(JOINED(p, STR(x))), JOINED(p, STR(x)), want))
    e.fact(p != nothing, *[JOINED(p, STR(x)) != nothing for x in ('resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml')])
    res, exc = e.execute(C.__init__, [me, ZS(path)], st)
    for n, (s, _) in enumerate(res):
        (s, u), = e.getattr(me, 'urls', s)
        q = e.seq(u, s)
        e.prove('%s: the one file' % n, s, z3.And(want != nothing, length(q) == 1, nth(q, 0) == V.str(want)), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s): there is none' % (n, c.__name__), s, z3.And(z3.BoolVal(c is ValueError), want == nothing), keep)
    return e.finish()


def local_load(keep):
    """a file is read as it is named when its extension is known"""
    from pyopenapi.migration import getter as G
    e, st = DV(), St()
    files(e)
    C = G.LocalGetter
    e.fields[C] = {'base_path': 'str'}
    path = z3.String('path')
    me = Z(V.ref(z3.Int('getter')), ('obj', C))
    e.fact(z3.Int('getter') >= 0)
    st.ghost['opened'], st.ghost['failed'], st.ghost['open'] = NONE, FALSE, z3.IntVal(0)

    def fail(e, st):
        s = st.clone()
        s.ghost['failed'] = TRUE
        e.throw(s, OSError)

    def open_(e, st, a, kw):
        if len(a) > 2 or kw or len(a) == 2 and a[1] not in ('r', 'rt'):
            raise Unsupported('call of open')
        fail(e, st)
        s = st.clone()
        s.ghost['opened'], s.ghost['open'] = V.str(e.s(a[0])), s.ghost['open'] + 1
        return [(s, Z(V.str(e.s(a[0])), ('obj', 'file')))]
    e.contracts[open] = open_

    def read(e, st, x, a, kw):
        if a or kw:
            raise Unsupported('call of read')
        fail(e, st)
        return [(st, Z(TEXT(V.s(x.t)), None))]

    def close(e, st, x, a, kw):
        s = st.clone()
        s.ghost['open'] = s.ghost['open'] - 1
        return [(s, None)]
    e.methods[('file', 'read')], e.methods[('file', '__exit__')], e.methods[('file', 'close')] = read, close, close
    e.methods[('file', '__enter__')] = lambda e, st, x, a, kw: [(st, x)]
    res, exc = e.execute(C.load, [me, ZS(path)], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: the text of the file' % n, s, z3.Implies(valid(EXT(path)), z3.And(s.ghost['opened'] == V.str(path), e.v(v, s) == TEXT(path))), keep)
        e.prove('%s: closed' % n, s, s.ghost['open'] == 0, keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s): it cannot be read' % (n, c.__name__), s, s.ghost['failed'], keep)
        e.prove('error %s (%s): closed' % (n, c.__name__), s, s.ghost['open'] == 0, keep)
    return e.finish()


def patched(keep):
    """an extension is added where there is none"""
    from pyopenapi import utils
    e, st = DV(), St()
    files(e)
    base, path = z3.Strings('base path')
    more = z3.If(valid(EXT(base)), EXT(base), STR('.json'))
    res, exc = e.execute(utils.patch_path, [ZS(base), ZS(path)], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: with its extension, or that of the folder' % n, s, e.s(v) == z3.If(z3.Or(valid(EXT(path)), z3.SuffixOf(more, path)), path, z3.Concat(
            path, more)), keep)
    for n, (s, c, _) in enumerate(exc):
        e.prove('error %s (%s)' % (n, c.__name__), s, FALSE, keep)
    return e.finish()


ASSUMPTIONS = [
    'getters are asked through next(); whether something is full (true) is a property of the value; a document is not changed while '
    'pointers are followed',
    'urlparse, unquote, os.path.*, int() of a token, json.loads, yaml.load, bytes.decode, urlopen, open and read are external: uninterpreted '
    'functions that may fail; an extension is at the end of its path; os.path.join gives an absolute path as it is',
    'paths are not those of Windows (no drives; os.name is that of this system)',
    'a document of which the getter gives something empty is retrieved again',
    'jr_split and jp_split are decided by C01',
]
UNITS = [('init', init), ('resolve', lambda keep: resolve(False, keep)), ('resolve with a getter', lambda keep: resolve(True, keep)), ('Getter.next', next_),
         ('SimpleGetter', simple), ('DictGetter', from_dict), ('_url_load', from_url), (
             'LocalGetter', local), ('LocalGetter.load', local_load), ('patch_path', patched)]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
