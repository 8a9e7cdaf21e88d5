"""bounded leg of C04: histories of the store against a list of stored objects"""
import copy

from contracts import tables as T
from lib import impl, walk
from lib.case import call, show
from lib.gen import Gen
from checks import c03

VERSIONS = c03.VERSIONS
URLS = ['http://h/a.json', 'http://h/b.json']
NAMES = ['a', 'ab', 'a/b', 'a~1b', 'b', '0', '1', '10', '', '~']
ROOTS = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}


def generate(rng):
    docs = {}
    spec = {}
    for u in URLS:
        for v in ('2.0', '3.0.0'):
            g = Gen(rng, v, depth=3, density=rng.choice([.2, .4]), max_len=2, names=NAMES)
            docs.setdefault(u, {})[v] = g.obj(ROOTS[v])
            spec[(u, v)] = ['#'] + [walk.pointer(t) for t, c, _ in walk.objects(v, T.O(ROOTS[v]), docs[u][v]) if t]
    ops = []
    used = []
    for _ in range(rng.randrange(2, 14)):
        u, v = rng.choice(URLS), rng.choice(['2.0', '3.0.0'])
        at = spec[(u, v)]
        near = [p for p in at if any(p.startswith(q) or q.startswith(p) for uu, vv, q in used if (uu, vv) == (u, v))]
        jp = rng.choice(near) if near and rng.random() < .7 else rng.choice(at)
        op = rng.choice(['set', 'set', 'get', 'get', 'under', 'until', 'routes'])
        if op == 'set':
            used.append((u, v, jp))
        if op == 'under':
            if rng.random() < .3:
                jp = '/'.join(jp.split('/')[:-1]) or '#'
            ops.append([op, u, v, jp, rng.random() < .5])
        elif op == 'until':
            ops.append([op, u, v, jp, rng.choice([None, '2.0', '2.5', '3.0.0', '10.0'])])
        elif op == 'routes':
            if rng.random() < .5:
                src = rng.choice(spec[(u, '2.0')])
                dst = rng.choice(spec[(u, '3.0.0')])
                if not any(o[0] == op and o[1] == u for o in ops):
                    ops.append([op, u, '3.0.0', {src: dst}])
        else:
            ops.append([op, u, v, jp])
    return {'leg': 'store', 'docs': docs, 'ops': ops}


def judge(case):
    store = impl.store.SpecObjStore(migratable_spec_versions=list(VERSIONS))
    docs = case['docs']
    at = {}
    for u in docs:
        for v in docs[u]:
            for toks, cls, raw in walk.objects(v, T.O(ROOTS[v]), docs[u][v]):
                at[(u, v, walk.pointer(toks))] = (cls, raw)
    model = {}          # (url, version, pointer) -> object
    routes = {}

    def find(u, v, jp):
        """-> stored objects at or above jp"""
        toks = jp.split('/')
        return [(p, o) for (uu, vv, p), o in model.items()
                if (uu, vv) == (u, v) and toks[:len(p.split('/'))] == p.split('/')]

    def check(got, u, v, jp, what):
        """got: the object found, or None"""
        found = find(u, v, jp)
        if not found:
            return None if got is None else '%s gives %r, nothing is stored there' % (what, got)
        if got is None:
            return '%s gives nothing, but %s is stored' % (what, [p for p, _ in found])
        cls, raw = at[(u, v, jp)]
        if type(got) is not getattr(impl.OBJECTS[v], cls) or getattr(got, 'spec', None) is not raw:
            return '%s gives %s of %s, expected %s of %s' % (
                what, type(got).__name__, show(getattr(got, 'spec', None)), cls, show(raw))
        if len(found) == 1 and found[0][0] == jp and got is not found[0][1]:
            return '%s does not give the object stored there' % what
        return None

    for op in case['ops']:
        kind, u, v = op[:3]
        what = '%s after %s' % (op, show([o for o in case['ops'][:case['ops'].index(op)]]))
        if kind == 'routes':
            store.update_routes(u, v, copy.deepcopy(op[3]))
            routes.setdefault((u, v), {}).update(op[3])
            continue
        jp = op[3]
        if kind == 'set':
            cls, raw = at[(u, v, jp)]
            obj = getattr(impl.OBJECTS[v], cls)(raw, u + jp)
            got = call(store.set, obj, u, jp, v)
            if got.exc is not None:
                return '%s: %r' % (what, got)
            model[(u, v, jp)] = obj
        elif kind == 'get':
            got = call(store.get, u, jp, v)
            if got.exc is not None:
                return '%s: %r' % (what, got)
            msg = check(got.value, u, v, jp, what)
            if msg:
                return msg
        elif kind == 'under':
            got = call(store.get_under, u, jp, v, remove=op[4])
            if got.exc is not None:
                return '%s: %r' % (what, got)
            toks = jp.split('/')
            want = dict(('/'.join(p.split('/')[len(toks):]), o) for (uu, vv, p), o in model.items()
                        if (uu, vv) == (u, v) and p.split('/')[:len(toks)] == toks)
            value = got.value or {}
            if sorted(value) != sorted(want) or any(value[k] is not want[k] for k in want):
                return '%s gives %s, expected %s' % (what, sorted(value), sorted(want))
            if op[4]:
                for k, o in list(model.items()):
                    if any(o is w for w in want.values()):
                        del model[k]
        elif kind == 'until':
            until = op[4] or VERSIONS[-1]
            if c03.key(until) < c03.key(v):
                continue
            cur, wants = jp, [(v, jp)]
            for w in VERSIONS:
                if c03.key(v) < c03.key(w) <= c03.key(until):
                    cur = c03.translate(cur, routes.get((u, w), {}))
                    wants.append((w, cur))
            if any(find(u, w, p) and (u, w, p) not in at for w, p in wants):
                continue    # below a stored object, but not there
            got = call(store.get_until, u, jp, v, until=op[4])
            if got.exc is not None:
                return '%s: %r' % (what, got)
            hit = [(w, p) for w, p in reversed(wants) if find(u, w, p)]
            obj, gjp, gv = got.value
            if not hit:
                if got.value != (None, None, None):
                    return '%s gives %r, nothing is stored' % (what, got.value)
                continue
            if (gv, gjp) != hit[0]:
                return '%s gives %s of %s, expected %s of %s' % (what, gjp, gv, hit[0][1], hit[0][0])
            msg = check(obj, u, gv, gjp, what)
            if msg:
                return msg
    # in the end: everything stored is found
    for (u, v, jp), obj in model.items():
        got = call(store.get, u, jp, v)
        if got.exc is not None:
            return 'finally get(%r, %r, %r): %r after %s' % (u, jp, v, got, show(case['ops']))
        msg = check(got.value, u, v, jp, 'finally get(%r, %r, %r) after %s' % (u, jp, v, show(case['ops'])))
        if msg:
            return msg
    return None
