"""bounded leg of C14: histories of loading, migrating and resolving"""
import copy

from contracts import tables as T, conv23 as S
from lib import impl, walk
from lib.readback import read
from lib.case import call, show, same, where
from checks import conv, conv12_leg, c05, c12

URL = 'http://h/v/doc.json'
PARSERS = {'2.0': {'definitions': 'Schema', 'parameters': 'Parameter', 'responses': 'Response'},
           '3.0.0': {'schemas': 'Schema', 'responses': 'Response', 'parameters': 'Parameter', 'headers': 'Header'}}
ALL = ['1.2', '2.0', '3.0.0']
KINDS = {'1.2': 'ResourceListing', '2.0': 'Swagger', '3.0.0': 'OpenApi'}


def generate(rng):
    kind = rng.choice(['migrate', 'migrate', 'parts', 'resolve', 'resolve'])
    source = rng.choice(['2.0', '3.0.0'] if kind != 'migrate' else ALL)
    if source == '1.2':
        case = conv12_leg.generate(rng)
        return {'leg': kind, 'source': source, 'case': case, 'targets': [rng.choice(ALL + ['2.5', '4.0', '']) for _ in range(2)]}
    if source == '2.0':
        while True:
            doc = conv.Gen20(rng, '2.0', depth=2).document()
            if conv.ok_chain(doc):
                break
    else:
        doc = c12.doc30(rng, c12.A, {c12.A: c12.layout(rng)})
        doc = relink(doc)
    case = {'leg': kind, 'source': source, 'doc': doc}
    if kind == 'migrate':
        case['yaml'] = rng.random() < .3
        case['targets'] = [rng.choice(ALL + ['2.5', '4.0', '']) for _ in range(2)]
    elif kind == 'parts':
        spots = [walk.pointer(t) for t, c, r in walk.objects(source, T.O(KINDS[source]), doc)
                 if t and t[-1]        # an empty last token is a known finding
                 # ... and so is an escaped token after the first one
                 and not any('/' in x or '~0' in x or '~1' in x for x in t[1:])]
        case['parts'] = []
        for jp in rng.sample(spots, min(len(spots), rng.randrange(1, 6))):
            # none inside another
            if not any((p + '/').startswith(jp + '/') or (jp + '/').startswith(p + '/') for p in case['parts']):
                case['parts'].append(jp)
        case['remove'] = rng.random() < .5
    else:
        case['picks'] = [rng.random() for _ in range(5)]
        case['early'] = rng.random() < .4
    return case


def relink(v):
    """references to the document under its own URL"""
    if isinstance(v, dict):
        return dict((k, '#' + x.split('#', 1)[1] if k == '$ref' and isinstance(x, str) else relink(x)) for k, x in v.items())
    if isinstance(v, list):
        return [relink(x) for x in v]
    return v


def status_numbers(v):
    """ the same, with status codes as yaml has them: numbers """
    if isinstance(v, dict):
        ret = {}
        for k, x in v.items():
            ops = k in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace') and isinstance(x, dict) and isinstance(
                x.get('responses'), dict)
            ret[k] = status_numbers(x)
            if ops:
                ret[k]['responses'] = dict((int(c) if c.isdigit() and str(int(c)) == c else c, y) for c, y in ret[k]['responses'].items())
        return ret
    if isinstance(v, list):
        return [status_numbers(x) for x in v]
    return v


def order(v):
    return ALL.index(v)


def judge(case):
    return {'migrate': judge_migrate, 'parts': judge_parts, 'resolve': judge_resolve}[case['leg']](case)


def judge_migrate(case):
    source = case['source']
    if source == '1.2':
        docs, url = conv12_leg.documents(case['case'])
    else:
        docs, url = {URL: case['doc']}, URL
    for target in case['targets']:
        app = impl.load(copy.deepcopy(docs), url)
        what = '%s migrated from %s to %r' % (show(docs, 2500), source, target)
        if type(app.raw).__name__ != KINDS[source] or app.original_spec_version != source:
            return '%s: loaded as %s of version %s' % (what, type(app.raw).__name__, app.original_spec_version)
        again = call(app.load_obj, url)
        if again.exc is not None or again.value is not app.raw:
            return '%s: loading again, before it is migrated, %r' % (what, again)
        got = call(app.migrate_obj, app.raw, url, target)
        if target not in ALL:
            if not isinstance(got.exc, ValueError):
                return '%s %r, expected a value error' % (what, got)
            continue
        if got.exc is not None:
            if isinstance(got.exc, impl.errs.SchemaError):
                return None
            return '%s %r' % (what, got)
        if order(target) < order(source):
            continue
        steps = [v for v in ALL if order(source) <= order(v) <= order(target)]
        base = impl.utils.jr_split(url)[0]
        roots = [(t, j) for t, j in app.prepared if t.__name__ in KINDS.values()]
        want = [(KINDS[v], base + '#') for v in steps]
        if [(t.__name__, j) for t, j in roots] != want:
            return '%s: prepared %s, expected %s' % (what, [(t.__name__, j) for t, j in roots], want)
        if type(got.value).__name__ != KINDS[target] or got.value.__swagger_version__ != target:
            return '%s gives %s' % (what, type(got.value).__name__)
        for v in ALL:
            o = app.spec_obj_store.get(base, '#', v)
            if (o is None) != (v not in steps and v != source) or o is not None and type(o).__name__ != KINDS[v]:
                return '%s: %s is recorded for %s' % (what, type(o).__name__, v)
        if app.spec_obj_store.get(base, '#', target) is not got.value or app.current_spec_version != target:
            return '%s: the result is not recorded' % what
        again = call(app.load_obj, url)
        if again.exc is not None or again.value is not app.raw:
            return '%s: loading again %r' % (what, again)
        if case.get('yaml'):
            n = impl.load(dict((u, status_numbers(d)) for u, d in docs.items()), url)
            end = call(n.migrate_obj, n.raw, url, target)
            if end.exc is not None or not same(read(end.value), read(got.value)):
                return '%s: with status codes as numbers, %s' % (what, end.exc or where(read(end.value), read(got.value)))
        if source == '2.0' and target == '3.0.0':
            two = impl.load(copy.deepcopy(docs), url)
            mid = two.migrate_obj(two.raw, url, '2.0')
            end = call(two.migrate_obj, mid, url, '3.0.0')
            if end.exc is not None or not same(read(end.value), read(got.value)):
                return '%s: in two calls %s' % (what, end.exc or where(read(end.value), read(got.value)))
    return None


def judge_parts(case):
    source, doc = case['source'], copy.deepcopy(case['doc'])
    app, log = impl.make_app({URL: doc}, URL)
    what = 'loading %s of %s %s' % (case['parts'], source, show(case['doc'], 2500))
    kinds = dict((walk.pointer(t), (t, c, r)) for t, c, r in walk.objects(source, T.O(KINDS[source]), doc))
    loaded = {}
    for jp in case['parts']:
        toks, c, raw = kinds[jp]
        got = call(app.load_obj, URL + jp, parser=getattr(impl.OBJECTS[source], c), remove_dummy=case['remove'])
        if got.exc is not None or type(got.value).__name__ != c or got.value.spec is not raw:
            return '%s: %s %r' % (what, jp, got)
        loaded[jp] = got.value
    got = call(app.load_obj, URL, remove_dummy=case['remove'])
    if got.exc is not None:
        return '%s: %r' % (what, got)
    for p in loaded:
        at = call(got.value.resolve, list(kinds[p][0]))
        if at.exc is not None or at.value is not loaded[p]:
            return '%s: %s, loaded before, is not part of the document' % (what, p)
    a = call(read, got.value)
    b = c05.norm(source, T.O(KINDS[source]), case['doc'])
    if a.exc is not None or not same(c05.norm(source, T.O(KINDS[source]), a.value), b):
        return '%s: dumped %s' % (what, a.exc or where(c05.norm(source, T.O(KINDS[source]), a.value), b))
    again = call(app.load_obj, URL)
    if again.exc is not None or again.value is not got.value:
        return '%s: loading again %r' % (what, again)
    if log.log.count(URL) != 1:
        return '%s: retrieved %d times' % (what, log.log.count(URL))
    return None


def judge_resolve(case):
    source, doc = case['source'], copy.deepcopy(case['doc'])
    what = 'resolving in %s %s' % (source, show(case['doc'], 2500))
    app = impl.load({URL: doc}, URL)
    early = []
    spots = [(t, c, r) for t, c, r in walk.objects(source, T.O(KINDS[source]), doc)
             if len(t) == 2 and t[0] in PARSERS['2.0'] or len(t) == 3 and t[0] == 'components' and t[1] in PARSERS['3.0.0']]
    if not spots:
        return None
    raws = copy.deepcopy(case['doc'])
    conv.bind(raws)
    refs = dict((k, URL + p['$ref']) for k, p in raws['paths'].items() if p.get('$ref'))
    if source == '2.0' and call(S.document, copy.deepcopy(raws), refs).exc is not None:
        return None
    got = call(app.migrate_obj, app.raw, URL, '3.0.0')
    if got.exc is not None:
        return '%s: %r' % (what, got)
    root = got.value
    for x in case['picks']:
        toks, c, raw = spots[int(x * len(spots))]
        jp = walk.pointer(toks)
        new = '/'.join(['#'] + S.moved(case['doc'], [walk.enc(t) for t in toks])) if source == '2.0' else jp
        seen = []
        for ref in (URL + jp, jp, URL + jp):
            r = call(app.resolve_obj, ref, source, parser=None, to_spec_version='3.0.0')
            if r.exc is not None:
                return '%s: %s %r' % (what, ref, r)
            obj, at = r.value
            if at != URL + new:
                return '%s: %s is found at %s, expected %s' % (what, ref, at, URL + new)
            seen.append(obj.__repr__.__self__)
        want = call(root.resolve, [t.replace('~1', '/').replace('~0', '~') for t in new.split('/')[1:]])
        if want.exc is not None or any(o is not want.value for o in seen):
            return '%s: %s gives %s, expected the object at %s' % (what, jp, show(seen[0].spec), new)
    r = call(app.resolve_obj, '', source)
    if not isinstance(r.exc, ValueError):
        return '%s: resolving an empty reference %r' % (what, r)
    return None
