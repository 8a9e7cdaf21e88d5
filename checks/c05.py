"""bounded leg of C05: load, read and dump one object of any kind"""
import copy

from contracts import tables as T
from contracts.aliases import ALIASES, DEFAULTS
from lib import impl, walk
from lib.case import call, show, where, same
from lib.gen import Gen, NAMES

REFS = ['#/a', 'http://h/b.json#/c', '']


class G(Gen):
    def obj(self, cls, depth=None):
        ret = super(G, self).obj(cls, depth)
        r = self.rng
        table = T.VERSIONS[self.version].get(cls)
        if table is None:
            return ret
        if '$ref' in table and r.random() < .3:
            ret['$ref'] = r.choice(REFS)
        for k in table:
            if not k.startswith('!') and r.random() < .03:
                ret[k] = None
        if r.random() < .05:
            ret['x-ext'] = self.any_()
        return ret


def generate(rng):
    version = rng.choice(sorted(T.VERSIONS))
    table = T.VERSIONS[version]
    cls = rng.choice(sorted(table))
    if rng.random() < .15:
        cls = {'1.2': 'ApiDeclaration', '2.0': 'Swagger', '3.0.0': 'OpenApi'}[version]
    refs = dict((c, [u for u in REFS if u]) for c in table)
    raw = G(rng, version, depth=rng.choice([1, 2, 3]), refs=refs).obj(cls)
    lost = None
    required = [k for k in T.keys(version, cls) if T.keys(version, cls)[k][1] and T.is_field(T.keys(version, cls)[k][0])]
    if required and rng.random() < .2:
        lost = rng.choice(required)
    return {'leg': 'dump', 'version': version, 'cls': cls, 'raw': raw, 'lost': lost}


def norm(version, t, v):
    """leave out what may be missing: nulls, extension keywords, empty collections of nested objects"""
    k = t.kind
    if v is None or T.is_field(t) or k == 'orbool' and isinstance(v, bool):
        return v
    if k == 'orbool':
        return norm(version, t.arg, v)
    if k == 'list':
        return [norm(version, t.arg, x) for x in v]
    if k == 'map':
        return dict((str(n), norm(version, t.arg, x)) for n, x in v.items())
    cls = t.arg
    if k == 'orref' and '$ref' in v:
        cls = 'Reference'
    if version == '3.0.0' and cls in T.V3_ALIASES:
        return norm(version, T.V3_ALIASES[cls], v)
    table = T.keys(version, cls)
    ret = {}
    for n, x in v.items():
        if x is None or n.startswith('x-'):
            continue
        if n in table:
            ct = table[n][0]
            x = norm(version, ct, x)
            if not T.is_field(ct) and ct.kind in ('list', 'map') and not x:
                continue
            if not T.is_field(ct) and ct.kind in ('obj', 'orref') and ct.arg in T.V3_ALIASES and not x:
                continue
        ret[n] = x
    return ret


def judge(case):
    version, cls, raw = case['version'], case['cls'], case['raw']
    keep = copy.deepcopy(raw)
    klass = getattr(impl.OBJECTS[version], cls)
    loaded = call(klass, raw, 'p')
    what = '%s %s %s' % (version, cls, show(keep))
    if loaded.exc is not None:
        return '%s cannot be loaded: %r' % (what, loaded)
    obj = loaded.value
    # reading
    for toks, c, part in walk.objects(version, T.O(cls), raw):
        got = call(navigate, obj, version, toks)
        if got.exc is not None:
            return '%s: no object at %s: %r' % (what, '/'.join(toks), got)
        o = got.value
        if type(o).__name__ != c or type(o) is not getattr(impl.OBJECTS[version], c):
            return '%s: %s at %s, expected %s' % (what, type(o).__name__, '/'.join(toks), c)
        msg = read(o, version, c, part)
        if msg:
            return '%s: at /%s: %s' % (what, '/'.join(toks), msg)
    if known_booleans(version, T.O(cls), raw):
        # the known finding c05-boolean-child: everything else has to be dumped all the same
        without(version, T.O(cls), keep)
        raw = copy.deepcopy(keep)
        obj = klass(raw, 'p')
    out = call(obj.dump)
    if out.exc is not None:
        return '%s: dump %r' % (what, out)
    want = norm(version, T.O(cls), keep)
    got = call(norm, version, T.O(cls), out.value)
    if got.exc is not None or not same(got.value, want):
        return '%s: dumped as %s; %s' % (what, show(out.value), '' if got.exc else where(got.value, want))
    if not same(raw, keep):
        return '%s: changed by loading and dumping: %s' % (what, where(raw, keep))
    if case.get('lost'):
        part = dict(raw)
        part.pop(case['lost'], None)
        o = call(klass, part, 'p')
        if o.exc is None:
            got = call(getattr, o.value, case['lost'])
            if got.exc is None:
                return '%s: reading %s, required and absent, %r' % (what, case['lost'], got)
    return None


def known_booleans(version, t, raw):
    """are there nested objects given as a boolean?"""
    return any(isinstance(r.get(k), bool) and kt.kind == 'orbool'
               for _, c, r in walk.objects(version, t, raw) for k, (kt, _) in T.keys(version, c).items())


def without(version, t, raw):
    for _, c, r in list(walk.objects(version, t, raw)):
        for k, (kt, _) in T.keys(version, c).items():
            if kt.kind == 'orbool' and isinstance(r.get(k), bool):
                del r[k]


def navigate(obj, version, toks):
    for t in toks:
        if isinstance(obj, impl.spec_obj._List):
            obj = obj[int(t)]
        elif isinstance(obj, impl.spec_obj._Map):
            obj = obj[t]
        else:
            obj = getattr(obj, t)
    return obj


def read(o, version, cls, part):
    aliases = ALIASES[version].get(cls, {})
    for key, (t, required) in T.keys(version, cls).items():
        names = [key] + [a for a in aliases if aliases[a] == key]
        for name in names:
            got = call(getattr, o, name)
            if T.is_field(t):
                if key in part:
                    if got.exc is not None or got.value is not part[key]:
                        return 'reading %s %r, expected %s' % (name, got, show(part[key]))
                elif required:
                    if got.exc is None:
                        return 'reading %s, required and absent, %r' % (name, got)
                else:
                    want = DEFAULTS.get(version, {}).get(cls, {}).get(key)
                    if got.exc is not None or not same(got.value, want):
                        return 'reading %s %r, expected the default %s' % (name, got, show(want))
            elif key in part or not required:
                if got.exc is not None:
                    return 'reading %s %r' % (name, got)
                if part.get(key) is None:
                    if got.value is not None:
                        return 'reading %s %r, expected nothing' % (name, got)
                elif t.kind in ('list', 'map'):
                    kind = impl.spec_obj._List if t.kind == 'list' else impl.spec_obj._Map
                    if not isinstance(got.value, kind) or len(got.value) != len(part[key]):
                        return 'reading %s %r, expected a container of %s' % (name, got, show(part[key]))
                elif isinstance(part[key], bool):
                    if got.value is not part[key]:
                        return 'reading %s %r, expected %s' % (name, got, part[key])
    return None
