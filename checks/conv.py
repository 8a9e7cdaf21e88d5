"""bounded leg of the conversion properties (C09, C10, C11, C17)"""
import copy
from urllib.parse import urlsplit, urlunsplit

from lib import impl
from lib.gen import Gen, MIMES, NAMES, STRS
from lib.readback import read
from lib.case import call, agree, same, where, show
from contracts import conv23 as S

impl_cv = impl.cv
URL = 'http://h/v/doc.json'

FORMATS = ['csv', 'ssv', 'pipes', 'multi', 'tsv']
FLOWS = ['implicit', 'password', 'application', 'accessCode', 'access_code']


class Gen20(Gen):
    """descriptions of Swagger 2.0 that its specification allows"""

    def gen_Schema(self, raw, depth):
        r = self.rng
        refs = self.refs.get('Schema')
        if refs and r.random() < .25:
            raw = {'$ref': r.choice(refs)} if r.random() < .7 else dict(raw, **{'$ref': r.choice(refs)})
        if raw.get('discriminator') == '':
            raw['discriminator'] = 'kind'
        return raw

    def gen_ExternalDocumentation(self, raw, _):
        raw.setdefault('url', self.string())
        return raw

    def gen_Tag(self, raw, _):
        raw.setdefault('name', self.string())
        return raw

    gen_License = gen_Tag

    def gen_Info(self, raw, _):
        raw.setdefault('title', self.string())
        raw.setdefault('version', self.string())
        return raw

    def gen_SecurityScheme(self, raw, _):
        r = self.rng
        raw['type'] = r.choice(['basic', 'apiKey', 'oauth2'])
        raw.pop('flow', None)
        if raw['type'] == 'oauth2' and r.random() < .95:
            raw['flow'] = r.choice(FLOWS)
        return raw

    def _collection(self, raw):
        if 'collectionFormat' in raw:
            raw['collectionFormat'] = self.rng.choice(FORMATS)
        return raw

    def gen_Items(self, raw, _):
        return self._collection(raw)

    gen_Header = gen_Items

    def gen_Parameter(self, raw, depth, body=None):
        """body: None (any), False (no body), 'body', 'form'"""
        r = self.rng
        self._collection(raw)
        raw['name'] = self.name()
        if body is None:
            body = r.choice([False, False, 'body', 'form'])
        raw.pop('schema', None)
        if body is False:
            raw['in'] = r.choice(['query', 'path', 'header'])
        elif body == 'form':
            raw['in'] = 'formData'
            if r.random() < .25:
                raw['type'] = 'file'
        else:
            raw = dict((k, v) for k, v in raw.items() if k in ('name', 'description', 'required'))
            raw['in'] = 'body'
            raw['schema'] = self.obj('Schema', depth - 1)
            if r.random() < .1:
                raw['schema'] = {'type': 'file'}
        if raw.get('type') == 'array' and r.random() < .9:
            raw['items'] = self.obj('Items', 1)
            cur = raw['items']
            while isinstance(cur, dict) and cur.get('type') == 'array':
                cur = cur.setdefault('items', {'type': 'string'})
        return raw

    def parameters(self, refs=None, no_body=False, n=5):
        """a parameter list: at most one body or any number of form fields"""
        r = self.rng
        kind = False if no_body else r.choice([False, 'body', 'form', 'form'])
        ret = []
        names = set()
        for _ in range(r.randrange(n + 1)):
            k = r.choice([False, kind])
            if k == 'body' and r.random() < .95 and any(p.get('in') == 'body' or '$ref' in p for p in ret):
                k = False
            if refs and r.random() < .25:
                pool = refs.get(k) or []
                if pool:
                    ret.append({'$ref': r.choice(pool)})
                    continue
            p = self.gen_Parameter(self._plain('Parameter'), 2, k)
            if p['name'] in names and r.random() < .9:
                continue
            names.add(p['name'])
            ret.append(p)
        return ret

    def _plain(self, cls):
        keep, self.__dict__['_off'] = None, True
        hook = self.__class__.gen_Parameter
        try:
            self.__class__.gen_Parameter = lambda s, raw, d: raw
            return self.obj(cls, 2)
        finally:
            self.__class__.gen_Parameter = hook

    def mimes(self, file_=False):
        r = self.rng
        pool = MIMES
        return r.sample(pool, r.randrange(1, 4))

    def response(self):
        raw = self.obj('Response', 2)
        if self.rng.random() < .1:
            raw['schema'] = {'type': 'file'}
        return raw

    def operation(self, refs, responses, no_body=False):
        r = self.rng
        raw = self.obj('Operation', 0)
        for key in ('consumes', 'produces'):
            raw.pop(key, None)
            if r.random() < .4:
                raw[key] = self.mimes()
        raw.pop('schemes', None)
        if r.random() < .2:
            raw['schemes'] = r.sample(['http', 'https', 'ws'], r.randrange(1, 3))
        if r.random() < .5:
            raw['tags'] = [self.string() for _ in range(r.randrange(3))]
        if r.random() < .4:
            raw['security'] = [dict((self.name(), [self.string()] * r.randrange(2)) for _ in range(r.randrange(3)))
                               for _ in range(r.randrange(3))]
        if r.random() < .3:
            raw['externalDocs'] = self.obj('ExternalDocumentation', 1)
        if r.random() < .8:
            raw['parameters'] = self.parameters(refs, no_body)
        if r.random() < .8:
            raw['responses'] = {}
            for k in r.sample(['200', '404', 'default', '5XX'], r.randrange(3)):
                if responses and r.random() < .3:
                    raw['responses'][k] = {'$ref': r.choice(responses)}
                else:
                    raw['responses'][k] = self.response()
        return raw

    def document(self):
        r = self.rng
        doc = {'swagger': '2.0', 'paths': {}}
        enc = S.encode_token
        names = lambda n: r.sample(self.names, r.randrange(n + 1))
        defs = names(4)
        self.refs = {'Schema': ['#/definitions/' + enc(n) for n in defs]}
        if defs:
            doc['definitions'] = dict((n, self.obj('Schema', 2)) for n in defs)
            # the target of a reference has to be an object
        refs = {False: [], 'body': [], 'form': []}
        doc['parameters'] = {}
        for n in names(4):
            if not n:
                continue        # the entry of the empty name is that of all parameters
            k = r.choice([False, 'body', 'form'])
            doc['parameters'][n] = self.gen_Parameter(self._plain('Parameter'), 2, k)
            refs[k].append('#/parameters/' + enc(n))
        responses = []
        doc['responses'] = {}
        for n in names(3):
            doc['responses'][n] = self.response()
            responses.append('#/responses/' + enc(n))
        for key in ('parameters', 'responses'):
            if not doc[key] and r.random() < .8:
                del doc[key]
        if r.random() < .5:
            doc['info'] = self.obj('Info', 2)
        if r.random() < .6:
            doc['host'] = r.choice(['h', 'example.com:8080', ''])
        if r.random() < .6:
            doc['basePath'] = r.choice(['/', '/v1', '/v1/x'])
        if r.random() < .4:
            doc['schemes'] = r.sample(['http', 'https', 'ws'], r.randrange(3))
        for key in ('consumes', 'produces'):
            if r.random() < .4:
                doc[key] = self.mimes()
        if r.random() < .3:
            doc['tags'] = [self.obj('Tag', 1) for _ in range(r.randrange(3))]
        if r.random() < .3:
            doc['externalDocs'] = self.obj('ExternalDocumentation', 1)
        if r.random() < .3:
            doc['security'] = [{self.name(): [self.string()]} for _ in range(r.randrange(3))]
        if r.random() < .5:
            doc['securityDefinitions'] = dict((n, self.obj('SecurityScheme', 1)) for n in names(3))
        paths = r.sample(['/', '/a', '/a/{b}', '/a~b', '/a~1b', '/x'], r.randrange(4))
        for p in paths:
            item = {}
            own = []
            shared = False
            if r.random() < .4:
                own = self.parameters(refs)
                item['parameters'] = own
                shared = any(x.get('in') in ('body', 'formData') or '$ref' in x or x.get('type') == 'file' for x in own)
            for m in r.sample(S.METHODS, r.randrange(3)):
                item[m] = self.operation(refs, responses, no_body=shared and r.random() < .8)
            others = [q for q in paths if q != p]
            if others and r.random() < .15:
                item['$ref'] = '#/paths/' + enc(r.choice(others))
            doc['paths'][p] = item
        return doc


def lookup(doc, ref):
    cur = doc
    for tok in ref[2:].split('/'):
        cur = cur[tok.replace('~1', '/').replace('~0', '~')]
    return cur


def bind(doc):
    """make 'deref' and the URL functions of the specification concrete"""
    def deref(raw):
        seen = []
        while isinstance(raw, dict) and raw.get('$ref') is not None:
            assert raw['$ref'] not in seen, 'cyclic'
            seen.append(raw['$ref'])
            raw = lookup(doc, raw['$ref'])
        return raw
    S.deref = deref
    S.own_copy = copy.deepcopy
    S.with_scheme = lambda url, scheme: urlunsplit((scheme,) + tuple(urlsplit(url))[1:])
    S.compose_url = lambda scheme, host, path: urlunsplit((scheme, host, path, '', ''))


def ok_chain(doc):
    """no cyclic chain of schema references that the specification has to follow"""
    try:
        bind(doc)

        def walk(v):
            if isinstance(v, dict):
                if isinstance(v.get('$ref'), str):
                    S.deref(v)
                for x in v.values():
                    walk(x)
            elif isinstance(v, list):
                for x in v:
                    walk(x)
        walk(doc)
        return True
    except (AssertionError, KeyError, TypeError):
        return False


SINGLE = {
    'schema': ('Schema', 'to_schema'), 'items': ('Items', 'from_items'), 'header': ('Header', 'to_header'),
    'xml': ('XMLObject', 'to_xml'), 'external_docs': ('ExternalDocumentation', 'to_external_docs'),
    'tag': ('Tag', 'to_tag'), 'contact': ('Contact', 'to_contact'), 'license_': ('License', 'to_license'),
    'info': ('Info', 'to_info'), 'security_scheme': ('SecurityScheme', 'to_security_scheme'),
}


def judge_single(case):
    """C09: one object, converted alone"""
    cls, fn = SINGLE[case['spec']]
    bind({})
    raw = case['raw']
    keep = copy.deepcopy(raw)
    func = getattr(impl.cv, fn, None)
    if func is None:
        return None
    want = call(getattr(S, case['spec']), copy.deepcopy(raw))
    obj = getattr(impl.o20, cls)(raw, 'p')
    got = call(func, obj, 'p')
    msg = agree(got, want, S.Rejected, impl.errs.SchemaError)
    if msg:
        return '%s of %s: %s' % (fn, show(raw), msg)
    return None


def linked(doc):
    app = impl.create({URL: doc}, URL, '2.0')
    return app


def judge_operation(case):
    """C10: the parameters of one operation in a document"""
    doc = case['doc']
    bind(doc)
    app = linked(doc)
    src = doc['paths']['/p']['get']
    obj = getattr(app.root.paths['/p'], 'get')
    want = call(S.operation, copy.deepcopy(src), None, 'http://h/', None, case['consumes'])
    got = call(impl.cv.to_operation, obj, None, 'http://h/', 'p', produces=None, consumes=case['consumes'])
    msg = agree(got, want, S.Rejected, impl.errs.SchemaError)
    return msg and 'operation %s: %s' % (show(src), msg)


def judge_document(case):
    """C11: a whole document"""
    doc = case['doc']
    bind(doc)
    app = linked(doc)
    refs = dict((k, URL + p['$ref']) for k, p in doc['paths'].items() if p.get('$ref'))
    want = call(S.document, copy.deepcopy(doc), refs)
    got = call(lambda: impl.cv.to_openapi(app.root, '#'))
    msg = agree(got, want, S.Rejected, impl.errs.SchemaError, norm=lambda v: v[0])
    if msg:
        return 'document %s: %s' % (show(doc), msg)
    if got.exc is not None:
        return None
    # the table of moved objects
    final = impl.create({URL: copy.deepcopy(doc)}, URL, '3.0.0')
    dump = read(final.root)
    for part, target in (('definitions', 'schemas'), ('responses', 'responses'), ('securityDefinitions', 'securitySchemes'),
                         ('parameters', 'parameters')):
        for name in doc.get(part) or {}:
            old = [part, S.encode_token(name)]
            new = '#/' + '/'.join(S.moved(doc, old))
            jp = final.spec_obj_store.relocate(URL, '#/' + '/'.join(old), '2.0', '3.0.0')
            if jp != new:
                return 'document %s: %s is moved to %s, expected %s' % (show(doc), '/'.join(old), jp, new)
            cur = dump
            for tok in new[2:].split('/'):
                tok = tok.replace('~1', '/').replace('~0', '~')
                if not isinstance(cur, dict) or tok not in cur:
                    return 'document %s: nothing at %s in the converted document' % (show(doc), new)
                cur = cur[tok]
    return None


def gen_single(rng):
    spec = rng.choice(sorted(SINGLE) + ['schema'] * 8 + ['header', 'security_scheme'])
    g = Gen20(rng, '2.0', depth=rng.choice([1, 2, 3]))
    g.refs = {'Schema': ['#/definitions/x']}
    return {'leg': 'single', 'spec': spec, 'raw': g.obj(SINGLE[spec][0])}


def gen_operation(rng):
    while True:
        g = Gen20(rng, '2.0', depth=2)
        doc = g.document()
        refs = {False: [], 'body': [], 'form': []}
        for n, p in (doc.get('parameters') or {}).items():
            kind = {'body': 'body', 'formData': 'form'}.get(p['in'], False)
            refs[kind].append('#/parameters/' + S.encode_token(n))
        op = g.operation(refs, [])
        op.pop('responses', None)
        doc['paths'] = {'/p': {'get': op}}
        if ok_chain(doc):
            return {'leg': 'operation', 'doc': doc, 'consumes': rng.choice([None, [], g.mimes()])}


def gen_document(rng):
    while True:
        doc = Gen20(rng, '2.0', depth=2).document()
        if ok_chain(doc):
            return {'leg': 'document', 'doc': doc}


JUDGES = {'single': judge_single, 'operation': judge_operation, 'document': judge_document}


def judge(case):
    return JUDGES[case['leg']](case)
