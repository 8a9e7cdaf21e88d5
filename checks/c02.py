"""bounded leg of C02"""
from lib import impl
from lib.case import call

NAMES = ['a', 'b', 'x.json', 'swagger.yaml', 'd d', u'\u00e9', 'doc', '~', 'A', '.hidden', 'a..b']
DOCS = ['http://h', 'https://h.com:8080', 'file://']


def generate(rng):
    dirs = [rng.choice(NAMES) for _ in range(rng.randrange(4))]
    name = rng.choice(['swagger.json', 'x.yaml', 'doc', 'b.json'])
    k = rng.randrange(5)
    frag = rng.choice([None, '', '/', '/definitions/a', '/a~1b/~0', '/x#y', 'anchor', '/a?b'])
    segs = [rng.choice(NAMES + ['..', '..', '.']) for _ in range(rng.randrange(1, 6))]
    segs[-1] = rng.choice(NAMES)
    kind = ['fragment', 'relative', 'absolute', 'url', 'relative'][k]
    if kind == 'fragment' and frag is None:
        frag = '/x'
    return {'leg': 'ref', 'root': rng.choice(DOCS), 'dirs': dirs, 'name': name, 'kind': kind, 'segs': segs, 'frag': frag}


def resolve(base, segs):
    out = list(base)
    for s in segs:
        if s == '.':
            continue
        if s == '..':
            out = out[:-1]
        else:
            out.append(s)
    return out


def parts(case):
    doc = case['root'] + '/' + '/'.join(case['dirs'] + [case['name']])
    frag = case['frag']
    tail = '' if frag is None else '#' + frag
    keep = '#' + frag if frag else ''
    if case['kind'] == 'fragment':
        return doc, tail, doc + keep
    if case['kind'] == 'url':
        url = 'http://other/' + '/'.join(s for s in case['segs'] if s not in ('.', '..'))
        return doc, url + tail, url + keep
    path = '/'.join(case['segs'])
    base = case['dirs']
    if case['kind'] == 'absolute':
        path, base = '/' + path, []
    return doc, path + tail, case['root'] + '/' + '/'.join(resolve(base, case['segs'])) + keep


def judge(case):
    doc, ref, want = parts(case)
    got = call(impl.utils.normalize_jr, ref, doc)
    if got.exc is not None or got.value != want:
        return 'normalize_jr(%r, %r) %r, expected %r' % (ref, doc, got, want)
    again = call(impl.utils.normalize_jr, got.value, doc)
    if again.exc is not None or again.value != want:
        return 'normalizing %r again in %r %r' % (got.value, doc, again)
    # the scanners that record the normalized reference
    for ver, name, raw in (('2.0', 'Schema', {'$ref': ref}), ('2.0', 'Reference', {'$ref': ref}),
                           ('2.0', 'PathItem', {'$ref': ref}), ('3.0.0', 'Reference', {'$ref': ref}),
                           ('3.0.0', 'PathItem', {'$ref': ref})):
        from pyopenapi.migration.versions.v2_0.scanner import NormalizeRef as N2
        from pyopenapi.migration.versions.v3_0_0.scanner import NormalizeRef as N3
        obj = getattr(impl.OBJECTS[ver], name)(raw, 'p')
        got = call(impl.scan.scan, root=obj, route=[(N2 if ver == '2.0' else N3)(doc)])
        attrs = obj.get_attrs('migration')
        val = getattr(attrs, 'normalized_ref', None)
        if got.exc is not None or val != want:
            return 'the normalized reference of a %s %s with %r in %r is %r, expected %r' % (ver, name, ref, doc, val, want)
        if obj.ref != ref:
            return 'normalizing changed $ref %r to %r' % (ref, obj.ref)
    return None
