"""bounded leg of C13: chains and cycles of path items, merged"""
import copy

from contracts import tables as T
from lib import impl, walk
from lib.readback import read
from lib.case import call, show, same, where
from lib.gen import Gen
from checks import conv, c05

A, B = 'http://h/v/a.json', 'http://h/v/b.json'
PATHS = ['/', '/a', '/a/{b}', '/a~1b', '/x', '/y']
INTERNAL = 'x-pyopenapi_internal_request_body'


def item(rng, version):
    if version == '3.0.0':
        g = Gen(rng, version, depth=2, density=.2, max_len=2)
        raw = {}
        for k in T.VERSIONS[version]['PathItem']:
            if k != '$ref' and rng.random() < .3:
                raw[k] = g.value(T.VERSIONS[version]['PathItem'][k], 2)
        return raw
    g = conv.Gen20(rng, version, depth=1, density=.2, max_len=2)
    g.refs = {}
    raw = {}
    for m in T.V2_METHODS:
        if rng.random() < .3:
            raw[m] = g.operation({}, [], no_body=True)
    if rng.random() < .4:
        raw['parameters'] = g.parameters({}, no_body=rng.random() < .7)
        if any(p['in'] in ('body', 'formData') for p in raw['parameters']):
            for m in T.V2_METHODS:
                if m in raw:
                    raw[m].pop('consumes', None)
    return raw


def generate(rng):
    version = rng.choice(['2.0', '3.0.0', '2.0->3.0.0'])
    source = version[:5] if version[0] == '3' else '2.0'
    docs = {}
    spots = []
    for url in [A, B][:rng.choice([1, 1, 2])]:
        docs[url] = {'swagger': '2.0', 'paths': {}} if source == '2.0' else {
            'openapi': '3.0.0', 'info': {'title': 't', 'version': '1'}, 'paths': {}}
        for p in rng.sample(PATHS, rng.randrange(1, 6)):
            docs[url]['paths'][p] = item(rng, source)
            spots.append((url, p))
    order = list(spots)
    rng.shuffle(order)
    for i, (url, p) in enumerate(order):
        if rng.random() < .75:
            to = order[i + 1] if i + 1 < len(order) and rng.random() < .8 else rng.choice(order)
            ref = '#' + walk.pointer(('paths', to[1]))[1:]
            if to[0] != url:
                ref = rng.choice([to[0], to[0].rsplit('/', 1)[1]]) + ref
            docs[url]['paths'][p]['$ref'] = ref
    return {'leg': 'merge', 'docs': docs, 'version': version.split('>')[-1]}


def judge(case):
    docs, version = copy.deepcopy(case['docs']), case['version']
    what = '%s migrated to %s' % (show(case['docs'], 3000), version)
    got = call(impl.create, docs, A, version)
    if got.exc is not None:
        if isinstance(got.exc, impl.errs.SchemaError) and version == '3.0.0' and 'swagger' in docs[A]:
            return None
        return '%s: %r' % (what, got)
    root = got.value.root
    table = T.keys(version, 'PathItem')
    children = [k for k in table if not T.is_field(table[k][0])]
    for p in docs[A]['paths']:
        own = root.paths[p]
        want, seen, cur = {}, [], own
        while True:
            spec = cur.spec
            if any(spec is s for s in seen):
                break
            seen.append(spec)
            for k in children:
                if k not in want:
                    v = spec.get(k)
                    if v is not None and v != [] and (v != {} or table[k][0].kind == 'obj'):
                        want[k] = v
            if cur.ref is None:
                break
            cur = cur.get_attrs('migration').ref_obj
            if cur is None:
                return '%s: a reference after %s is not linked' % (what, p)
        if 'openapi' in docs[A] or version == '2.0':
            # the members are those of the description
            url, raw, mine = A, case['docs'][A]['paths'][p], {}
            trail = []
            while (url, id(raw)) not in trail:
                trail.append((url, id(raw)))
                for k in children:
                    v = raw.get(k)
                    if k not in mine and v is not None and v != [] and (v != {} or table[k][0].kind == 'obj'):
                        mine[k] = v
                if raw.get('$ref') is None:
                    break
                file_, frag = raw['$ref'].split('#')
                if file_:
                    url = A if file_.endswith('a.json') else B
                raw = walk.lookup(case['docs'][url], [t.replace('~1', '/').replace('~0', '~') for t in frag.split('/')[1:]])
            if not same(c05.norm(version, T.O('PathItem'), mine), c05.norm(version, T.O('PathItem'), want)):
                return '%s: members of the chain of %s differ from the description: %s' % (
                    what, p, where(c05.norm(version, T.O('PathItem'), want), c05.norm(version, T.O('PathItem'), mine)))
        out = call(impl.utils.final, own)
        if out.exc is not None:
            return '%s: merged form of %s %r' % (what, p, out)
        if own.ref is None:
            if out.value is not own:
                return '%s: the merged form of %s, which references nothing, is another object' % (what, p)
        else:
            dump = call(read, out.value)
            if dump.exc is not None:
                return '%s: merged form of %s %r' % (what, p, dump)
            dump.value.pop(INTERNAL, None)
            a = c05.norm(version, T.O('PathItem'), dump.value)
            b = c05.norm(version, T.O('PathItem'), want)
            if not same(a, b):
                return '%s: merged form of %s: %s' % (what, p, where(a, b))
            for k in children:
                v = getattr(out.value, k)
                if k in want and (v is None or not any(v.spec is s.get(k) for s in seen)):
                    return '%s: %s of the merged form of %s is not the one of the chain' % (what, k, p)
        # the item itself
        dump = read(own)
        dump.pop(INTERNAL, None)
        spec = dict((k, v) for k, v in own.spec.items() if k != INTERNAL)
        a, b = c05.norm(version, T.O('PathItem'), dump), c05.norm(version, T.O('PathItem'), spec)
        if not same(a, b):
            return '%s: %s is changed by merging: %s' % (what, p, where(a, b))
    return None
