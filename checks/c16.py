"""bounded leg of C16: scoped names"""
from lib import impl
from lib.case import call, show

TOKENS = ['a', 'b', 'get', 'something-get', 'x', '', 'aa', 'ba']
SEPS = ['!##!', '/', ':', '-', '.']


def generate(rng):
    sep = rng.choice(SEPS)
    parts = lambda n: [rng.choice(TOKENS) for _ in range(rng.randrange(1, n + 1))]
    names = [[t for t in parts(4) if t] or ['z'] for _ in range(rng.randrange(7))]
    queries = []
    for _ in range(6):
        q = parts(3)
        if names and rng.random() < .6:
            full = rng.choice(names)
            q = full[rng.randrange(len(full)):]
            if rng.random() < .3:
                q = [q[0][rng.randrange(len(q[0])):]] + q[1:]
        queries.append([q, rng.random() < .5])
    lists = [[rng.choice(TOKENS + [None]) for _ in range(rng.randrange(1, 5))] for _ in range(3)]
    return {'leg': 'scope', 'sep': sep, 'names': names, 'queries': queries, 'lists': lists, 'default': rng.random() < .2}


def judge(case):
    sep = case['sep']
    if case['default']:
        sep = impl.consts.SCOPE_SEPARATOR
    if any(sep in t for n in case['names'] for t in n) or any(sep in t for q, _ in case['queries'] for t in q):
        return None
    values = {}
    for i, n in enumerate(case['names']):
        values[sep.join(n)] = i
    d = impl.utils.ScopeDict(values)
    if not case['default']:
        d.sep = sep
    for q, as_tuple in [(n, t) for n in case['names'] for t in (True, False)] + [tuple(x) for x in case['queries']]:
        name = sep.join(t for t in q if t)
        key = tuple(q) if as_tuple else name
        got = call(lambda: d[key])
        what = 'looking up %r in %s (separator %r) %r' % (key, show(values), sep, got)
        if name in values:
            if got.exc is not None or got.value != values[name]:
                return what + ', expected %r' % values[name]
            continue
        ends = [k for k in values if k.endswith(name)]
        last = name.split(sep)[-1]
        if len(ends) > 1:
            few = [k for k in ends if k.split(sep)[-1] == last]
            if len(few) != 1:
                if not isinstance(got.exc, ValueError):
                    return what + ', expected a value error'
                continue
            ends = few
        if not ends:
            if not isinstance(got.exc, KeyError):
                return what + ', expected a key error'
        elif got.exc is not None or got.value != values[ends[0]]:
            return what + ', expected %r' % values[ends[0]]
    for parts in case['lists']:
        if any(t and sep in t for t in parts):
            continue
        cur = None
        for t in parts:
            got = call(impl.utils.scope_compose, cur, t, sep=sep)
            if got.exc is not None:
                return 'composing %r of %r %r' % (cur, parts, got)
            cur = got.value
        real = [t for t in parts if t]
        got = call(impl.utils.scope_split, cur, sep=sep)
        if real and (got.exc is not None or got.value != real):
            return 'splitting %r, composed of %r, %r' % (cur, parts, got)
    return None
