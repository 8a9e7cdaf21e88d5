"""bounded leg of C12: links and rewritten references after migration, chains and cycles"""
import copy
import weakref

from contracts import tables as T, conv23 as S
from lib import impl, walk
from lib.readback import read
from lib.case import call, show, same, where
from lib.gen import Gen
from checks import conv, c05

impl_proxy = weakref.ProxyType
A, B = 'http://h/v/a.json', 'http://h/v/b.json'
NAMES = ['a', 'b', 'x/y', 'a~b', '~1', 'pet', '0', u'\u00e9']
PARTS = {'schemas': 'Schema', 'responses': 'Response', 'parameters': 'Parameter', 'examples': 'Example',
         'requestBodies': 'RequestBody', 'headers': 'Header', 'securitySchemes': 'SecurityScheme', 'links': 'Link',
         'callbacks': 'Callback'}


class G30(Gen):
    def gen_PathItem(self, raw, depth):
        pool = self.refs.get('PathItem')
        if pool and self.rng.random() < .3:
            raw['$ref'] = self.rng.choice(pool)
        return raw


def doc30(rng, me, others):
    """others: {url: components layout} that references may lead to"""
    g = G30(rng, '3.0.0', depth=3, density=rng.choice([.15, .3]), max_len=2, names=NAMES)
    for url, (comps, paths) in others.items():
        base = {True: '', False: rng.choice([url, url.rsplit('/', 1)[1]])}[url == me]
        for part, names in comps.items():
            g.refs.setdefault(PARTS[part], []).extend(
                base + walk.pointer(['components', part, n]) for n in names)
        g.refs.setdefault('PathItem', []).extend(base + walk.pointer(['paths', p]) for p in paths)
    comps, paths = others[me]
    doc = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'components': {}, 'paths': {}}
    for part, names in comps.items():
        doc['components'][part] = {}
        for n in names:
            if rng.random() < .3:
                doc['components'][part][n] = {'$ref': rng.choice(g.refs[PARTS[part]])}
            elif part == 'callbacks':
                doc['components'][part][n] = dict((p, g.obj('PathItem', 1)) for p in ['/x', '{$y}'][:rng.randrange(3)])
            else:
                doc['components'][part][n] = g.obj(PARTS[part], 2)
    for p in paths:
        doc['paths'][p] = g.obj('PathItem', 2)
        # a path item without own reference has its operations
        for m in rng.sample(T.V3_METHODS, rng.randrange(3)):
            doc['paths'][p][m] = g.obj('Operation', 3)
    for _ in range(rng.randrange(3)):
        aim(rng, g, doc)
    return doc


def base_type(t):
    while t.kind in ('list', 'map', 'orbool'):
        t = t.arg
    if t.kind in ('obj', 'orref') and t.arg in T.V3_ALIASES:
        return base_type(T.V3_ALIASES[t.arg])
    return t


def wrap(rng, t, inner):
    if t.kind == 'list':
        return [wrap(rng, t.arg, inner)]
    if t.kind == 'map':
        return {rng.choice(NAMES): wrap(rng, t.arg, inner)}
    if t.kind == 'orbool':
        return wrap(rng, t.arg, inner)
    if t.arg in T.V3_ALIASES and list(inner) != ['$ref']:
        return wrap(rng, T.V3_ALIASES[t.arg], inner)
    return inner


def holders(version):
    """-> {class: [(class it may lie in, key, type)]}"""
    ret = {}
    for cls in T.VERSIONS[version]:
        for k, (t, _) in sorted(T.keys(version, cls).items()):
            if base_type(t).kind in ('obj', 'orref'):
                ret.setdefault(base_type(t).arg, []).append((cls, k, t))
    return ret


def distances(version, root):
    dist, todo, up = {root: 0}, [root], {}
    for cls in T.VERSIONS[version]:
        for k, (t, _) in T.keys(version, cls).items():
            if base_type(t).kind in ('obj', 'orref'):
                up.setdefault(cls, []).append(base_type(t).arg)
    while todo:
        c = todo.pop(0)
        for d in up.get(c, []):
            if d not in dist:
                dist[d] = dist[c] + 1
                todo.append(d)
    return dist


def positions(version):
    """everything that may hold a Reference Object: [(class, key, type)]"""
    ret = []
    for cls in sorted(T.VERSIONS[version]):
        for k, (t, _) in sorted(T.keys(version, cls).items()):
            u = t
            while u.kind in ('list', 'map', 'orbool'):
                u = u.arg
            if u.kind == 'orref':
                ret.append((cls, k, t, u.arg))
    return ret


def aim(rng, g, doc):
    """put one reference at some place that may hold one into 'doc'"""
    version, root = g.version, {'3.0.0': 'OpenApi', '2.0': 'Swagger'}[g.version]
    options = [p for p in positions(version) if g.refs.get(p[3]) and p[0] in distances(version, root)]
    if not options:
        return
    cls, key, t, kind = rng.choice(options)
    raw = dict(g.obj(cls, 0), **{key: wrap(rng, t, {'$ref': rng.choice(g.refs[kind])})})
    dist, up = distances(version, root), holders(version)
    while cls != root:
        near = [h for h in up[cls] if h[0] in dist and (dist[h[0]] < dist[cls] or rng.random() < .1)]
        if not near:
            continue
        cls, key, t = rng.choice(near)
        outer = {} if cls in (root, 'Components') else g.obj(cls, 0)
        if '$ref' in outer:
            del outer['$ref']
        raw = dict(outer, **{key: wrap(rng, t, raw)})

    def put(into, part):
        for k, v in part.items():
            if isinstance(v, dict) and isinstance(into.get(k), dict):
                if k in ('paths', 'components') or into is doc.get('components'):
                    put(into[k], v)
                else:
                    into[k + ' aim'] = v
            else:
                into.setdefault(k, v)
    put(doc, raw)


def layout(rng):
    comps = {}
    for part in PARTS:
        if rng.random() < .5:
            comps[part] = rng.sample(NAMES, rng.randrange(1, 4))
    return comps, rng.sample(['/', '/a', '/a/{b}', '/a~1b'], rng.randrange(3))


def generate(rng):
    kind = rng.choice(['3.0.0', '3.0.0', '2.0', '2.0->3.0.0', 'chain'])
    if kind == 'chain':
        n = rng.randrange(1, 7)
        back = rng.choice([None] + list(range(n)))
        return {'leg': 'chain', 'length': n, 'back': back, 'kind': rng.choice(['schema', 'parameter', 'v2'])}
    if kind == '3.0.0':
        others = {A: layout(rng)}
        if rng.random() < .6:
            others[B] = layout(rng)
        docs = dict((u, doc30(rng, u, others)) for u in others)
        case = {'leg': 'link', 'docs': docs, 'version': '3.0.0', 'break': rng.random()}
    else:
        while True:
            doc = conv.Gen20(rng, '2.0', depth=2).document()
            if conv.ok_chain(doc):
                break
        docs = {A: doc}
        if doc.get('definitions') and rng.random() < .5:
            g = conv.Gen20(rng, '2.0', depth=2)
            g.refs = {'Schema': ['#/definitions/' + S.encode_token(n) for n in doc['definitions']]}
            docs[B] = {'swagger': '2.0', 'paths': {},
                       'definitions': dict((n, g.obj('Schema', 2)) for n in doc['definitions'])}
            for toks, cls, raw in list(walk.objects('2.0', T.O('Swagger'), doc)):
                if cls == 'Schema' and raw.get('$ref') and rng.random() < .4:
                    raw['$ref'] = rng.choice(['b.json', './b.json', B]) + raw['$ref']
        case = {'leg': 'link', 'docs': docs, 'version': '2.0' if kind == '2.0' else '3.0.0', 'break': rng.random()}
    return case


def references(version, root, raw):
    """-> [(tokens, raw object)] of everything that holds a reference"""
    return [(t, r) for t, c, r in walk.objects(version, T.O(root), raw) if r.get('$ref') is not None]


def target(docs, url, ref):
    """-> (url, tokens) denoted by a reference in document url"""
    file_, frag = ref.split('#', 1)
    if file_:
        name = file_.rsplit('/', 1)[-1]
        url = [u for u in docs if u.rsplit('/', 1)[1] == name][0]
    return url, tuple(t.replace('~1', '/').replace('~0', '~') for t in frag.split('/')[1:])


def judge_link(case):
    docs, version = copy.deepcopy(case['docs']), case['version']
    source = '2.0' if 'swagger' in docs[A] else '3.0.0'
    root = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}[source]
    what = '%s migrated to %s' % (show(case['docs'], 3000), version)
    if source == '2.0' and version == '3.0.0':
        both = dict(docs)

        def deref(raw):
            url, seen = A, 0
            while isinstance(raw, dict) and raw.get('$ref') is not None and seen < 50:
                url, toks = target(both, url, raw['$ref'])
                raw = walk.lookup(both[url], toks)
                seen += 1
            if seen == 50:
                raise S.Rejected('a cycle that the conversion has to follow')
            return raw
        conv.bind(docs[A])
        S.deref = deref
        refs = dict((k, A + p['$ref']) for k, p in docs[A]['paths'].items() if p.get('$ref'))
        if call(S.document, copy.deepcopy(docs[A]), refs).exc is not None:
            return None
    every = references(source, root, docs[A])
    if every and case['break'] < .2:
        bad = copy.deepcopy(docs)
        toks, _ = every[int(case['break'] * 5 * len(every))]
        part = walk.lookup(bad[A], toks)
        part['$ref'] = part['$ref'].rsplit('/', 1)[0] + '/no such name'
        got = call(impl.create, bad, A, version)
        if got.exc is None:
            return '%s: dangling %s at %s is accepted' % (what, part['$ref'], walk.pointer(toks))
    raws = copy.deepcopy(docs)
    got = call(impl.create, docs, A, version)
    if got.exc is not None:
        return '%s: %r' % (what, got)
    app = got.value
    todo = [(A, (), app.root)]
    done = set()
    while todo:
        url, base, obj = todo.pop()
        if id(obj.spec) in done:
            continue
        done.add(id(obj.spec))
        for path, o in impl.scan.default_tree_traversal(obj, []):
            o = o.__repr__.__self__ if isinstance(o, impl_proxy) else o
            ref = getattr(o, 'ref', None)
            if ref is None:
                continue
            here = walk.pointer(base) + path[1:]
            attrs = o.get_attrs('migration')
            linked = attrs and attrs.ref_obj
            if linked is None:
                return '%s: %s in %s at %s is not linked' % (what, ref, url, here)
            linked = linked.__repr__.__self__ if isinstance(linked, impl_proxy) else linked
            turl, ttoks = target(docs, url, ref)
            if attrs.normalized_ref != turl + walk.pointer(ttoks):
                return '%s: normalized reference %s of %s in %s at %s' % (what, attrs.normalized_ref, ref, url, here)
            if turl == A and (source == version or obj is app.root):
                want = call(app.root.resolve, list(ttoks))
                if want.exc is not None:
                    return '%s: %s at %s denotes nothing in the migrated document' % (what, ref, here)
                if linked.spec is not want.value.spec or type(linked) is not type(want.value):
                    return '%s: %s at %s is linked to %s' % (what, ref, here, show(linked.spec))
            elif source == version:
                if linked.spec is not walk.lookup(docs[turl], ttoks):
                    return '%s: %s in %s at %s is linked to %s' % (what, ref, url, here, show(linked.spec))
            elif turl == B:
                want = S.schema(copy.deepcopy(walk.lookup(raws[B], ttoks)))
                msg = plain(read(linked), want)
                if msg:
                    return '%s: %s in %s at %s is linked to %s: %s' % (what, ref, url, here, show(linked.spec), msg)
            todo.append((turl, ttoks, linked))
    # references rewritten to the new location
    if source == '2.0' and version == '3.0.0':
        want = S.document(copy.deepcopy(raws[A]), refs)

        def rewrite(v):
            if isinstance(v, dict):
                for k, x in v.items():
                    if k == '$ref' and isinstance(x, str):
                        turl, toks = target(raws, A, x)
                        if turl == A:
                            new = '/'.join(['#'] + S.moved(raws[A], [walk.enc(t) for t in toks]))
                            v[k] = new if x.startswith('#') else A + new
                        else:
                            v[k] = turl + walk.pointer(toks)
                    else:
                        rewrite(x)
            elif isinstance(v, list):
                for x in v:
                    rewrite(x)
        holders = [(c, r) for _, c, r in walk.objects('3.0.0', T.O('OpenApi'), want) if '$ref' in r]
        for c, h in holders:
            one = {'$ref': h['$ref']}
            rewrite(one)
            for k in [k for k in h if c == 'Reference']:
                del h[k]        # nothing beside a reference counts
            h['$ref'] = one['$ref']
        if not same(c05.norm('3.0.0', T.O('OpenApi'), read(app.root)), c05.norm('3.0.0', T.O('OpenApi'), want)):
            return '%s: %s' % (what, where(c05.norm('3.0.0', T.O('OpenApi'), read(app.root)),
                                           c05.norm('3.0.0', T.O('OpenApi'), want)))
    else:
        for toks, raw in every:
            old = walk.lookup(raws[A], toks)['$ref']
            o = call(app.root.resolve, list(toks))
            if o.exc is not None or target(docs, A, o.value.ref) != target(docs, A, old):
                return '%s: reference %s at %s: %s' % (what, old, walk.pointer(toks), show(raw))
    # dereferencing
    for toks, raw in every if source == version else []:
        cur, url, seen = walk.lookup(raws[A], toks), A, []
        while cur.get('$ref') is not None:
            url, t = target(raws, url, cur['$ref'])
            if (url, t) in seen:
                break
            seen.append((url, t))
            cur = walk.lookup(raws[url], t)
        o = app.root.resolve(list(toks))
        got = call(impl.utils.deref, o)
        if cur.get('$ref') is not None:
            if not isinstance(got.exc, impl.errs.CycleDetectionError):
                return '%s: dereferencing the cycle from %s %r' % (what, walk.pointer(toks), got)
        elif got.exc is not None or got.value.spec is not walk.lookup(docs[url], t):
            return '%s: dereferencing %s gives %s' % (what, walk.pointer(toks), got.exc or show(got.value.spec))
    return None


def plain(got, want):
    """equal up to references, which are compared elsewhere"""
    def strip(v):
        if isinstance(v, dict):
            return dict((k, '' if k == '$ref' and isinstance(x, str) else strip(x)) for k, x in v.items())
        if isinstance(v, list):
            return [strip(x) for x in v]
        return v
    a = c05.norm('3.0.0', T.ORREF('Schema'), got)
    b = c05.norm('3.0.0', T.ORREF('Schema'), want)
    return None if same(strip(a), strip(b)) else where(strip(a), strip(b))


def judge_chain(case):
    n, back = case['length'], case['back']
    names = ['n%d' % i for i in range(n + 1)]
    if case['kind'] == 'v2':
        part, last = 'definitions', {'type': 'string'}
        table = {}
        doc = {'swagger': '2.0', 'paths': {}, part: table}
        base, version = '#/definitions/', '2.0'
    else:
        part, last = {'schema': ('schemas', {'type': 'string'}),
                      'parameter': ('parameters', {'name': 'x', 'in': 'query'})}[case['kind']]
        table = {}
        doc = {'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}, 'components': {part: table}}
        base, version = '#/components/%s/' % part, '3.0.0'
    for i in range(n):
        table[names[i]] = {'$ref': base + names[i + 1]}
    table[names[n]] = last if back is None else {'$ref': base + names[back]}
    got = call(impl.create, {A: doc}, A, version)
    if got.exc is not None:
        return 'chain %s: %r' % (show(doc), got)
    objs = getattr(got.value.root if version == '2.0' else got.value.root.components, part)
    for i in range(n + 1):
        out = call(impl.utils.deref, objs[names[i]])
        if back is not None:
            if not isinstance(out.exc, impl.errs.CycleDetectionError):
                return 'deref of %s in %s %r, expected a cycle error' % (names[i], show(doc), out)
        elif out.exc is not None or out.value.spec is not last:
            return 'deref of %s in %s gives %s' % (names[i], show(doc), out.exc or show(out.value.spec))
    return None


def judge(case):
    return judge_chain(case) if case['leg'] == 'chain' else judge_link(case)
