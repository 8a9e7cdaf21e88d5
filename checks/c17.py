"""bounded leg of C17: conversions leave their sources, and each other, alone"""
import copy

from lib import impl
from lib.readback import read
from lib.case import call, same, where, show
from contracts import tables as T
from checks import conv, conv12_leg

URL = conv.URL


def generate(rng):
    kind = rng.choice(['single', 'document', 'document', 'upgrade'])
    if kind == 'single':
        two = [conv.gen_single(rng) for _ in range(2)]
        for c in two:
            c['consumes'] = rng.choice([None, [], conv.Gen20(rng, '2.0').mimes()])
        if rng.random() < .4:
            g = conv.Gen20(rng, '2.0', depth=2)
            two[0] = {'spec': rng.choice(['parameter', 'response', 'operation', 'path_item']), 'consumes': two[0]['consumes']}
            two[0]['raw'] = {'parameter': lambda: g.gen_Parameter(g._plain('Parameter'), 2), 'response': g.response,
                             'operation': lambda: g.operation({}, []),
                             'path_item': lambda: {'parameters': g.parameters(), 'get': g.operation({}, []),
                                                   'put': g.operation({}, [])}}[two[0]['spec']]()
        return {'leg': kind, 'objs': two}
    if kind == 'document':
        return {'leg': kind, 'docs': [conv.gen_document(rng)['doc'] for _ in range(2)]}
    return {'leg': kind, 'cases': [conv12_leg.generate(rng) for _ in range(2)]}


MORE = {
    'parameter': ('Parameter', lambda o, c: impl.cv.from_parameter(o, None, c, 'p')[0]),
    'response': ('Response', lambda o, c: impl.cv.to_response(o, c, 'p')),
    'operation': ('Operation', lambda o, c: impl.cv.to_operation(o, None, 'http://h', 'p', produces=c, consumes=c)),
    'path_item': ('PathItem', lambda o, c: impl.cv.to_path_item(o, 'http://h', 'p', consumes=c, produces=c)),
}


def freeze(got):
    return ('raises', type(got.exc).__name__) if got.exc is not None else ('gives', canon(copy.deepcopy(got.value)))


def canon(v):
    """media types are listed in no particular order"""
    return list(v) if isinstance(v, tuple) else v


def compare(a, b):
    if a[0] != b[0] or a[0] == 'raises':
        return None if a == b else '%s, then %s' % (show(a, 300), show(b, 300))
    return None if same(a[1], b[1]) else where(b[1], a[1])


def judge(case):
    return {'single': judge_single, 'document': judge_document, 'upgrade': judge_upgrade}[case['leg']](case)


def judge_single(case):
    objs = []
    for c in copy.deepcopy(case['objs']):
        if c['spec'] in MORE:
            cls, fn = MORE[c['spec']]
        else:
            cls, name = conv.SINGLE[c['spec']]
            base = getattr(impl.cv, name, None)
            fn = lambda o, _c, base=base: base(o, 'p')
        objs.append((fn, getattr(impl.o20, cls)(c['raw'], 'p'), c))
    what = 'converting %s' % show(case['objs'])
    kept, values = [], []
    for fn, o, c in objs:
        got = call(fn, o, c['consumes'])
        values.append(got)
        kept.append(freeze(got))
    for (fn, o, c), k, v, orig in zip(objs, kept, values, case['objs']):
        if not same(o.spec, orig['raw']) or not same(c['consumes'], orig['consumes']):
            return '%s: the source was changed: %s' % (what, where(c, orig))
        diff = compare(k, freeze(call(fn, o, c['consumes'])))
        if diff:
            return '%s: converted again: %s' % (what, diff)
        diff = compare(k, freeze(v))
        if diff:
            return '%s: the result was changed later: %s' % (what, diff)
        fresh = type(o)(copy.deepcopy(orig['raw']), 'p')
        if not same(read(o), read(fresh)):
            return '%s: the source object was changed: %s' % (what, where(read(o), read(fresh)))
    return None


def tables(app):
    return copy.deepcopy([(k, v) for k, v in sorted(vars(app.spec_obj_store).items())
                          if 'migration' in k or 'reloc' in k or 'route' in k])


def judge_document(case):
    docs = copy.deepcopy(case['docs'])
    what = 'converting %s' % show(case['docs'], 3000)
    done = []
    for doc, orig in zip(docs, case['docs']):
        app = impl.create({URL: doc}, URL, '2.0')
        before = read(app.root)
        got = call(impl.cv.to_openapi, app.root, '#')
        done.append((app, doc, orig, before, got, freeze(got)))
    for app, doc, orig, before, got, kept in done:
        if not same(doc, orig):
            return '%s: the source was changed: %s' % (what, where(doc, orig))
        if not same(read(app.root), before):
            return '%s: the source object was changed: %s' % (what, where(read(app.root), before))
        diff = compare(kept, freeze(call(impl.cv.to_openapi, app.root, '#'))) or compare(kept, freeze(got))
        if diff:
            return '%s: %s' % (what, diff)
    # the same through the application
    results = []
    for doc, orig in zip(docs, case['docs']):
        app = impl.load({URL: doc}, URL)
        before = read(app.raw)
        got = call(app.migrate_obj, app.raw, URL, '3.0.0')
        dump = got.exc is None and read(got.value)
        results.append((app, doc, orig, before, got, dump, tables(app)))
    for app, doc, orig, before, got, dump, table in results:
        if not same(doc, orig):
            return '%s: the source was changed by migrating: %s' % (what, where(doc, orig))
        if not same(read(app.raw), before):
            return '%s: the source object was changed by migrating: %s' % (what, where(read(app.raw), before))
        if got.exc is None and not same(read(got.value), dump):
            return '%s: the result was changed by another conversion: %s' % (what, where(read(got.value), dump))
        if tables(app) != table:
            return '%s: the relocation table was changed by another conversion' % what
        again = impl.load({URL: copy.deepcopy(orig)}, URL)
        r = call(again.migrate_obj, again.raw, URL, '3.0.0')
        if (r.exc is None) != (got.exc is None) or r.exc is None and not same(read(r.value), dump):
            return '%s: migrated again: %s' % (what, r.exc or got.exc or where(read(r.value), dump))
    return None


def judge_upgrade(case):
    what = 'upgrading %s' % show(case['cases'], 3000)

    def run(app):
        up = impl.up12.Upgrade(sep=app.sep if hasattr(app, 'sep') else impl.consts.SCOPE_SEPARATOR)
        impl.scan.scan(root=app.raw, route=[up])
        for name in app.raw.cached_apis:
            impl.scan.scan(root=app.raw.cached_apis[name], route=[up])
        return up.get_swagger()

    done = []
    for c in case['cases']:
        docs, url = conv12_leg.documents(copy.deepcopy(c))
        app = impl.load(docs, url)
        before = [read(app.raw)] + [read(app.raw.cached_apis[n]) for n in sorted(app.raw.cached_apis)]
        got = call(run, app)
        kept = freeze(got if got.exc is not None else call(read, got.value))
        done.append((c, docs, url, app, before, got, kept))
    for c, docs, url, app, before, got, kept in done:
        want = conv12_leg.documents(c)[0]
        if not same(docs, want):
            return '%s: the source was changed: %s' % (what, where(docs, want))
        now = [read(app.raw)] + [read(app.raw.cached_apis[n]) for n in sorted(app.raw.cached_apis)]
        if not same(now, before):
            return '%s: the source object was changed: %s' % (what, where(now, before))
        again = call(run, app)
        diff = compare(kept, freeze(again if again.exc is not None else call(read, again.value)))
        if diff:
            return '%s: upgraded again: %s' % (what, diff)
        if got.exc is None and compare(kept, freeze(call(read, got.value))):
            return '%s: the result was changed by another conversion' % what
        app2 = impl.load(conv12_leg.documents(copy.deepcopy(c))[0], url)
        other = call(run, app2)
        diff = compare(kept, freeze(other if other.exc is not None else call(read, other.value)))
        if diff:
            return '%s: upgraded from the same description: %s' % (what, diff)
    return None
