"""bounded leg of C08: upgrading Swagger 1.2"""
import copy
from urllib.parse import urlsplit

from lib import impl
from lib.gen import Gen
from lib.readback import read
from lib.case import call, same, where, show, Outcome
from contracts import conv12 as S

LISTING = 'http://h/api.json'
TYPES = ['integer', 'number', 'string', 'boolean', 'array', 'void']
MODELS = ['Pet', 'Tag', 'a/b', 'x~y', 'Status']
METHODS = ['GET', 'POST', 'PUT', 'delete', 'PATCH']


class Gen12(Gen):
    def data_type(self, raw, models, void=False):
        r = self.rng
        for k in ('type', '$ref', 'minimum', 'maximum', 'items', 'format'):
            raw.pop(k, None)
        k = r.randrange(6)
        if k == 0 and models:
            raw['$ref'] = r.choice(models)
        elif k == 1 and models:
            raw['type'] = r.choice(models)
        else:
            raw['type'] = r.choice(TYPES[:5] + (['void'] if void else []))
        if raw.get('type') == 'array':
            raw['items'] = self.items(models)
        if raw.get('type') in ('integer', 'number') and r.random() < .5:
            lim = ['1', '1.0', '-3', '2.5', '0', '1e3'] if raw['type'] == 'number' else ['1', '1.0', '-3', '0', '100', '9223372036854775807', '-9007199254740993']
            for k in ('minimum', 'maximum'):
                if r.random() < .6:
                    raw[k] = r.choice(lim)
        elif r.random() < .02:
            raw['minimum'] = '1'
        if r.random() < .4:
            raw['format'] = self.string()
        return raw

    def items(self, models):
        r = self.rng
        if models and r.random() < .4:
            return {r.choice(['$ref', 'type']): r.choice(models)}
        ret = {'type': r.choice(TYPES[:4])}
        if r.random() < .5:
            ret['format'] = self.string()
        return ret

    def parameter(self, models):
        r = self.rng
        raw = self.obj('Parameter', 0)
        raw['paramType'] = r.choice(['body', 'query', 'path', 'header', 'form'])
        raw['name'] = self.name()
        raw = self.data_type(raw, models if raw['paramType'] == 'body' or r.random() < .05 else [])
        if raw['paramType'] == 'form' and r.random() < .2:
            raw['type'] = 'File'
            for k in ('$ref', 'items', 'minimum', 'maximum'):
                raw.pop(k, None)
        if 'items' in raw and raw['paramType'] != 'body' and r.random() < .95:
            raw['items'] = self.items([])
        if '$ref' not in raw and 'type' not in raw:
            raw['type'] = 'string'
        return raw

    def gen_Authorizations(self, raw, _):
        raw.setdefault('scope', self.string())
        return raw

    def auth(self):
        r = self.rng
        return dict((self.name(), [self.obj('Authorizations', 1) for _ in range(r.randrange(3))])
                    for _ in range(r.randrange(3)))

    def operation(self, models):
        r = self.rng
        raw = self.obj('Operation', 0)
        raw['nickname'] = self.string()
        raw = self.data_type(raw, models, void=True)
        raw['parameters'] = [self.parameter(models) for _ in range(r.randrange(4))]
        raw.pop('deprecated', None)
        if r.random() < .5:
            raw['deprecated'] = r.choice(['true', 'false'])
        if r.random() < .4:
            raw['authorizations'] = self.auth()
        return raw

    def declaration(self, name, base, named=True):
        r = self.rng
        models = r.sample(MODELS, r.randrange(4))
        decl = {'swaggerVersion': '1.2', 'basePath': base, 'apis': []}
        if named or r.random() < .5:
            decl['resourcePath'] = name if r.random() < .8 else name[1:]
        for k in ('consumes', 'produces'):
            if r.random() < .4:
                decl[k] = [self.string() for _ in range(r.randrange(3))]
        if r.random() < .3:
            decl['authorizations'] = self.auth()
        for p in r.sample(['/x', '/x/{id}', '/a~b', ''], r.randrange(4)):
            decl['apis'].append({'path': name + p, 'operations': []})
            for m in r.sample(METHODS, r.randrange(3)):
                op = self.operation(models)
                op['method'] = m
                decl['apis'][-1]['operations'].append(op)
        if models or r.random() < .3:
            decl['models'] = {}
            for m in models:
                raw = self.obj('Model', 0)
                raw['id'] = m
                raw['properties'] = {}
                for _ in range(r.randrange(4)):
                    raw['properties'][self.name()] = self.data_type(self.obj('Property', 0), models)
                raw.pop('subTypes', None)
                if r.random() < .4:
                    raw['subTypes'] = r.sample(models, r.randrange(len(models) + 1))
                decl['models'][m] = raw
        return decl

    def authorization(self):
        r = self.rng
        raw = {'type': r.choice(['basicAuth', 'apiKey', 'oauth2'])}
        if raw['type'] == 'apiKey':
            raw['passAs'] = r.choice(['header', 'query'])
            raw['keyname'] = self.string()
        if r.random() < .6:
            raw['scopes'] = [self.obj('Scope', 1) for _ in range(r.randrange(3))]
        if raw['type'] == 'oauth2':
            grants = {}
            if r.random() < .5:
                grants['implicit'] = {'loginEndpoint': {'url': 'http://login'}}
            if r.random() < .5:
                grants['authorization_code'] = {}
                if r.random() < .8:
                    grants['authorization_code']['tokenEndpoint'] = {'url': 'http://token'}
            if grants or r.random() < .5:
                raw['grantTypes'] = grants
        return raw

    def case(self):
        r = self.rng
        base = r.choice(['http://h', 'https://h:80', 'http://h/api', 'http://h/api/v1'])
        root = '/'.join(base.split('/')[:3])
        listing = {'swaggerVersion': '1.2', 'apis': []}
        if r.random() < .7:
            listing['apiVersion'] = self.string()
        if r.random() < .7:
            listing['info'] = self.obj('Info', 1)
        if r.random() < .5:
            listing['authorizations'] = dict((self.name(), self.authorization()) for _ in range(r.randrange(3)))
        decls = {}
        places = [base, root]
        if r.random() < .1:     # more than one host
            places += r.sample(['http://h2', 'http://i/api', 'http://h:80', 'https://h:8080/v1'], 2)
        for name in r.sample(['/pet', '/user', '/s/t'], r.randrange(4)):
            decls[name] = self.declaration(name, r.choice(places),
                                            named=any('resourcePath' not in d for d in decls.values()))
            listing['apis'].append({'path': name})
        return {'leg': 'upgrade12', 'listing': listing, 'decls': decls, 'sep': r.choice(['!##!', ':', '##'])}


def expected(case):
    decls = [case['decls'][a['path']] for a in case['listing']['apis']]
    doc = S.assemble(case['listing'], decls, case['sep'])
    roots = set('/'.join(k.split('/')[:3]) for k in doc['paths'])
    if len(roots) == 1:     # otherwise full URLs are kept, as a document has one host
        root, = roots
        doc['host'] = root.split('//')[1]
        doc['paths'] = dict((k[len(root):], v) for k, v in doc['paths'].items())
    return doc


def documents(case):
    docs = {LISTING: case['listing']}
    for name, decl in case['decls'].items():
        docs['http://h' + name] = decl
    return docs, LISTING


def judge(case):
    case = copy.deepcopy(case)
    want = call(expected, case)
    if want.exc is not None and not isinstance(want.exc, S.Rejected):
        raise want.exc

    def run():
        docs = documents(case)[0]
        app = impl.load(docs, LISTING, sep=case['sep'])
        # the conversion itself (references of models may dangle, so they are not linked here)
        conv = impl.up12.Upgrade(sep=case['sep'])
        impl.scan.scan(root=app.raw, route=[conv])
        for name in app.raw.cached_apis:
            impl.scan.scan(root=app.raw.cached_apis[name], route=[conv])
        return read(conv.get_swagger())
    got = call(run)
    if want.exc is not None:
        if got.exc is None:
            return '%s: should be rejected (%s)' % (show(case), want.exc)
        if not isinstance(got.exc, impl.errs.SchemaError):
            return '%s: should be rejected with SchemaError, but %r' % (show(case), got)
        return None
    if got.exc is not None:
        return '%s: unexpectedly %r' % (show(case), got)
    ref = read(impl.o20.Swagger(want.value, "#"))
    if not same(got.value, ref):
        return '%s: %s' % (show(case), where(got.value, ref))
    return None


def generate(rng):
    return Gen12(rng, '1.2', depth=2).case()
