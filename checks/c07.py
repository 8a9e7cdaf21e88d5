"""bounded leg of C07: comparing an object with itself and with mutated copies"""
import copy

from contracts import tables as T
from lib import impl, walk
from lib.case import call, show, same
from lib.gen import Gen
from checks import c05


def generate(rng):
    version = rng.choice(sorted(T.VERSIONS))
    table = T.VERSIONS[version]
    cls = rng.choice(sorted(table))
    refs = dict((c, [u for u in c05.REFS if u]) for c in table)
    g = c05.G(rng, version, depth=rng.choice([1, 2, 3]), refs=refs)
    a = g.obj(cls)
    b = copy.deepcopy(a)
    how = rng.choice(['same', 'change', 'change', 'change', 'change', 'other', 'kind'])
    if how == 'other':
        b = g.obj(cls)
    elif how == 'change':
        for _ in range(rng.choice([1, 1, 1, 2])):
            mutate(rng, g, version, cls, b)
    cls2 = cls
    if how == 'kind':
        cls2 = rng.choice(sorted(table))
        try:
            getattr(impl.OBJECTS[version], cls2)(b, 'p')
        except Exception:
            cls2 = cls
    return {'leg': 'compare', 'version': version, 'cls': cls, 'cls2': cls2, 'a': a, 'b': b}


def mutate(rng, g, version, cls, raw):
    """one change somewhere in 'raw', in place"""
    every = list(walk.objects(version, T.O(cls), raw))
    toks, c, part = rng.choice(every)
    table = T.keys(version, c)
    present = [k for k in table if k in part and part[k] is not None]
    rng.shuffle(present)
    kind = rng.randrange(4)
    if kind == 0:
        k = rng.choice(sorted(table))
        t, required = table[k]
        if k != '$ref' and not (required and not T.is_field(t)):
            part[k] = g.value(t, 1)
    elif kind == 1:
        for k in present:
            if not table[k][1] and k != '$ref':
                del part[k]
                return
    else:
        for k in present:
            if deep(rng, g, table[k][0], part[k]):
                return


def deep(rng, g, t, v):
    """a change inside a container"""
    if T.is_field(t):
        t = t.arg if t.kind == 'field' else t
        if t.kind == 'any' and isinstance(v, (list, dict)):
            t = T.LIST(T.ANY) if isinstance(v, list) else T.MAP(T.ANY)
    if t.kind == 'list' and isinstance(v, list):
        op = rng.randrange(4)
        if op == 0 or not v:
            v.append(g.value(t.arg, 1))
        elif op == 1:
            v.pop(rng.randrange(len(v)))
        elif op == 2:
            v[rng.randrange(len(v))] = g.value(t.arg, 1)
        else:
            return deep(rng, g, t.arg, rng.choice(v))
        return True
    if t.kind == 'map' and isinstance(v, dict):
        op = rng.randrange(4)
        if op == 0 or not v:
            v[g.name()] = g.value(t.arg, 1)
        elif op == 1:
            v.pop(rng.choice(sorted(v)))
        elif op == 2:
            v[rng.choice(sorted(v))] = g.value(t.arg, 1)
        else:
            return deep(rng, g, t.arg, v[rng.choice(sorted(v))])
        return True
    return False


class Unclear(Exception):
    """numbers of different types, booleans against numbers: not decided by the property"""


def plain(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all([plain(a[k], b[k]) for k in a])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all([plain(x, y) for x, y in zip(a, b)])
    if type(a) != type(b) and a == b:
        raise Unclear()
    return same(a, b)


def equal(version, t, a, b):
    """are two values of type t equal: an absent keyword has its default, an absent child is none"""
    if a is None or b is None:
        return a is None and b is None
    k = t.kind
    if T.is_field(t):
        return plain(a, b)
    if k == 'orbool':
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return equal(version, t.arg, a, b)
    if k == 'list':
        return len(a) == len(b) and all([equal(version, t.arg, x, y) for x, y in zip(a, b)])
    if k == 'map':
        return set(a) == set(b) and all([equal(version, t.arg, a[n], b[n]) for n in a])
    cls = t.arg
    if k == 'orref':
        if ('$ref' in a) != ('$ref' in b):
            return False
        if '$ref' in a:
            cls = 'Reference'
    if version == '3.0.0' and cls in T.V3_ALIASES:
        return equal(version, T.V3_ALIASES[cls], a, b)
    defaults = c05.DEFAULTS.get(version, {}).get(cls, {})
    ok = True
    for n, (ct, required) in T.keys(version, cls).items():
        d = defaults.get(n)
        if not equal(version, ct, a.get(n, d), b.get(n, d)):
            ok = False
    return ok


def overlooked(version, t, a, b):
    """may the known finding c07-plain-containers make a and b look equal?  It overlooks all but one
    element of lists and maps of plain values, and additional elements of lists in plain keywords"""
    if a is None or b is None:
        return a is None and b is None
    k = t.kind
    if T.is_field(t):
        return overlooked_plain(a, b)
    if k == 'orbool':
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        return overlooked(version, t.arg, a, b)
    if k == 'list':
        if t.arg is T.STR:
            return len(a) == len(b) and a[:1] == b[:1]
        return len(a) == len(b) and all([overlooked(version, t.arg, x, y) for x, y in zip(a, b)])
    if k == 'map':
        if t.arg is T.STR:
            return set(a) == set(b) and (not a or any([a[n] == b[n] for n in a]))
        return set(a) == set(b) and all([overlooked(version, t.arg, a[n], b[n]) for n in a])
    cls = t.arg
    if k == 'orref':
        if ('$ref' in a) != ('$ref' in b):
            return False
        if '$ref' in a:
            cls = 'Reference'
    if version == '3.0.0' and cls in T.V3_ALIASES:
        return overlooked(version, T.V3_ALIASES[cls], a, b)
    defaults = c05.DEFAULTS.get(version, {}).get(cls, {})
    return all([overlooked(version, ct, a.get(n, defaults.get(n)), b.get(n, defaults.get(n)))
                for n, (ct, _) in T.keys(version, cls).items()])


def overlooked_plain(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all([overlooked_plain(a[k], b[k]) for k in a])
    if isinstance(a, list) and isinstance(b, list):
        return all([overlooked_plain(x, y) for x, y in zip(a, b)])
    return same(a, b)


def shorter(a, b):
    """is a list in b shorter than the one in a?"""
    if isinstance(a, dict) and isinstance(b, dict):
        return any(shorter(a[k], b.get(k, [])) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) > len(b) or any(shorter(x, y) for x, y in zip(a, b))
    return False


def judge(case):
    version, a, b = case['version'], case['a'], case['b']
    A = getattr(impl.OBJECTS[version], case['cls'])
    B = getattr(impl.OBJECTS[version], case['cls2'])
    x, y = A(a, 'p'), B(b, 'q')
    try:
        want = A is B and equal(version, T.O(case['cls']), a, b)
    except Unclear:
        return None
    for what, fn in (('compare', lambda: x.compare(y)), ('compare the other way round', lambda: y.compare(x)),
                     ('compare with base', lambda: x.compare(y, base='#'))):
        got = call(fn)
        if not want and A is B:
            if got.exc is None and got.value[0] is True and overlooked(version, T.O(case['cls']), a, b):
                continue
            if isinstance(got.exc, IndexError) and (shorter(b, a) if 'other' in what else shorter(a, b)):
                continue
        if got.exc is not None or got.value[0] is not want:
            return '%s of %s %s and %s %s %r, expected %s' % (
                what, case['cls'], show(a), case['cls2'], show(b), got, want)
    got = call(lambda: x.compare(A(copy.deepcopy(a), 'r')))
    if got.exc is not None or got.value[0] is not True:
        return 'compare of %s %s with itself %r' % (case['cls'], show(a), got)
    return None
