"""bounded leg of C06: traversal, handlers and navigation of one loaded object"""
import collections

from contracts import tables as T
from lib import impl, walk
from lib.case import call, show
from lib.gen import Gen
from checks import c05


def generate(rng):
    version = rng.choice(sorted(T.VERSIONS))
    table = T.VERSIONS[version]
    cls = rng.choice(sorted(table))
    if rng.random() < .4:
        cls = {'1.2': 'ApiDeclaration', '2.0': 'Swagger', '3.0.0': 'OpenApi'}[version]
    refs = dict((c, [u for u in c05.REFS if u]) for c in table)
    raw = c05.G(rng, version, depth=rng.choice([1, 2, 3, 4]), refs=refs).obj(cls)
    kinds = sorted(set(c for _, c, _ in walk.objects(version, T.O(cls), raw)))
    leaves = rng.sample(kinds, rng.randrange(min(3, len(kinds)) + 1)) if rng.random() < .6 else []
    handlers = []       # per route: list of lists of classes
    for _ in range(rng.randrange(1, 4)):
        handlers.append([rng.sample(sorted(table), rng.randrange(1, 4)) if rng.random() < .5 else
                         [rng.choice(kinds)] for _ in range(rng.randrange(4))])
    return {'leg': 'scan', 'version': version, 'cls': cls, 'raw': raw, 'leaves': leaves, 'handlers': handlers,
            'twice': rng.random() < .3, 'with_app': rng.random() < .3, 'edit': edit(rng, version, cls, raw, refs)}


def edit(rng, version, cls, raw, refs):
    """a child to attach after a first traversal: [tokens of the object, key, raw child]"""
    if rng.random() < .6:
        return None
    every = [(t, c, r) for t, c, r in walk.objects(version, T.O(cls), raw) if 'Reference' != c]
    rng.shuffle(every)
    for toks, c, r in every:
        keys = [k for k, (t, _) in sorted(T.keys(version, c).items()) if k in r and not T.is_field(t)
                and t.kind != 'orbool']
        if keys:
            key = rng.choice(keys)
            new = c05.G(rng, version, depth=2, refs=refs).value(T.keys(version, c)[key][0], 2)
            return [list(toks), key, new] if new else None
    return None


def make_route(version, handlers, log, route_no, with_app):
    class Disp(impl.scan.Dispatcher):
        pass

    def add(n, classes):
        def handler(self, path, obj, *app):
            log.append((route_no, n, path, obj, app))
            return ('result', route_no, n)
        Disp.register([getattr(impl.OBJECTS[version], c) for c in classes])(handler)

    for n, classes in enumerate(handlers):
        add(n, classes)
    results = []

    @Disp.result
    def result(self, ret):
        results.append(ret)

    class Route(object):
        pass
    Route.Disp = Disp
    route = Route()
    route.results = results
    return route


def judge(case):
    version, cls, raw = case['version'], case['cls'], case['raw']
    what = '%s %s %s' % (version, cls, show(raw))
    root = getattr(impl.OBJECTS[version], cls)(raw, 'p')
    if case['twice']:
        list(impl.scan.default_tree_traversal(root, []))
    if case.get('edit'):
        list(impl.scan.default_tree_traversal(root, []))
        toks, key, new = case['edit']
        obj = root.resolve(list(toks))
        part = getattr(type(obj)(dict(obj.spec, **{key: new}), 'q'), key)
        if call(obj.attach_child, key, part).exc is not None:
            return None
        obj.spec[key] = new     # what the walk below expects
        what += ' after attaching %s at %s' % (show(new), walk.pointer(list(toks) + [key]))
    every = list(walk.objects(version, T.O(cls), raw))
    leaves = set(case['leaves'])
    stop = [t for t, c, _ in every if c in leaves]
    want = dict((walk.pointer(t), (c, r)) for t, c, r in every
                if not any(t[:len(s)] == s and len(t) > len(s) for s in stop))
    kinds = [getattr(impl.OBJECTS[version], c) for c in case['leaves']]
    got = call(lambda: list(impl.scan.default_tree_traversal(root, kinds)))
    if got.exc is not None:
        return '%s: traversal %r' % (what, got)
    known = {}      # the known finding c06-nested-container
    for t, _, _ in every:
        wrong = walk.separated_again(version, T.O(cls), raw, t)
        if wrong != walk.pointer(t):
            known[wrong] = walk.pointer(t)
    got.value = [(known.get(p, p), o) for p, o in got.value]
    count = collections.Counter(p for p, _ in got.value)
    for p, n in count.items():
        if n > 1:
            return '%s: %s is visited %d times' % (what, p, n)
    for p in want:
        if p not in count:
            return '%s: %s is not visited' % (what, p)
    for p, o in got.value:
        if p not in want:
            return '%s: %s is visited, nothing is expected there' % (what, p)
        c, r = want[p]
        if type(o).__name__ != c or o.spec is not r:
            return '%s: %s visits %s of %s, expected %s' % (what, p, type(o).__name__, show(o.spec), c)
    for t, c, r in every:
        at = call(root.resolve, list(t))
        if at.exc is not None or getattr(at.value, 'spec', None) is not r:
            return '%s: resolving %s %r' % (what, t, at)
        if walk.pointer(t) in want and not any(o is at.value for _, o in got.value):
            return '%s: resolving %s gives another object than the traversal' % (what, t)
    # handlers
    log = []
    with_app = case['with_app']
    routes = [make_route(version, h, log, i, with_app) for i, h in enumerate(case['handlers'])]
    app = object()
    if with_app:
        ran = call(impl.scan.Scanner(app).scan, routes, root, leaves=kinds)
    else:
        ran = call(impl.scan.scan, routes, root, leaves=kinds)
    if ran.exc is not None:
        return '%s: scan %r' % (what, ran)
    log[:] = [(i, n, known.get(p, p), o, a) for i, n, p, o, a in log]
    expect = collections.Counter()
    for p, (c, r) in want.items():
        for i, hs in enumerate(case['handlers']):
            for n, classes in enumerate(hs):
                # with an application, a Header is a Parameter, too
                k = classes.count(c) + (with_app and version == '3.0.0' and c == 'Header') * classes.count('Parameter')
                if k:
                    expect[(i, n, p, id(r))] += k
    seen = collections.Counter((i, n, p, id(o.spec)) for i, n, p, o, a in log)
    if expect != seen:
        diff = (expect - seen) or (seen - expect)
        return '%s: handlers %s; %s of (route, handler, pointer): %s' % (
            what, show(case['handlers']), 'missing' if expect - seen else 'unexpected', list(diff)[:3])
    for i, n, p, o, a in log:
        if a != ((app,) if with_app else ()):
            return '%s: handler called with %r' % (what, a)
    for i, route in enumerate(routes):
        if sorted(route.results) != sorted(('result', i, n) for j, n, _, _, _ in log if j == i):
            return '%s: results %s of route %d' % (what, route.results, i)
    try:
        impl.scan.scan(routes, None)
    except ValueError:
        return None
    return 'scanning nothing is accepted'
