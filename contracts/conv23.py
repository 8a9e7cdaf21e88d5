"""Specification of the conversion Swagger 2.0 -> OpenAPI 3.0.0, over plain JSON values.

Written from the statements of C09, C10 and C11 (and the two format
specifications), not from /repo.  The functions are executed twice: by CPython
on generated descriptions (bounded leg), and symbolically by the verifier on an
arbitrary well-formed description (proof leg).  `deref` stands for the object a
reference denotes and is supplied by whoever runs the specification.
"""

MIME_FORM = ['application/x-www-form-urlencoded', 'multipart/form-data']
MIME_FILE = [
    'multipart/form-data', 'application/x-www-form-urlencoded', 'application/octet-stream', 'application/pdf',
    'image/*', 'image/gif', 'image/png', 'image/jpeg', 'image/bmp', 'image/webp', 'audio/*', 'audio/midi',
    'audio/mpeg', 'audio/webm', 'audio/ogg', 'audio/wav', 'video/*', 'video/webm', 'video/ogg',
]

# keywords that a 2.0 Items/Parameter/Header object and a 3.0.0 Schema object share
TYPE_KEYS = [
    'type', 'format', 'default', 'maximum', 'exclusiveMaximum', 'minimum', 'exclusiveMinimum', 'maxLength',
    'minLength', 'pattern', 'maxItems', 'minItems', 'uniqueItems', 'enum', 'multipleOf',
]
# ... and a 2.0 Schema object
SCHEMA_KEYS = TYPE_KEYS + ['title', 'maxProperties', 'minProperties', 'description', 'readOnly', 'example']


class Unspecified(Exception):
    """not allowed by the specification of Swagger 2.0, and not decided here"""


class Rejected(Exception):
    """the conversion has to raise a SchemaError"""


def deref(raw):
    """the object denoted by 'raw': 'raw' itself unless it is a Reference Object"""
    raise NotImplementedError()


def encode_token(token):
    return token.replace('~', '~0').replace('/', '~1')


def pick(src, names):
    out = {}
    for name in names:
        val = src.get(name)
        if val is not None:
            out[name] = val
    return out


#
# C09: schemas and metadata
#

def external_docs(src):
    out = {'url': src['url']}
    if src.get('description') is not None:
        out['description'] = src['description']
    return out


def xml(src):
    return pick(src, ['name', 'namespace', 'prefix', 'attribute', 'wrapped'])


def tag(src):
    out = {'name': src['name']}
    if src.get('description') is not None:
        out['description'] = src['description']
    if src.get('externalDocs') is not None:
        out['externalDocs'] = external_docs(src['externalDocs'])
    return out


def contact(src):
    return pick(src, ['name', 'url', 'email'])


def license_(src):
    out = {'name': src['name']}
    if src.get('url') is not None:
        out['url'] = src['url']
    return out


def info(src):
    out = {'title': src['title'], 'version': src['version']}
    if src.get('description') is not None:
        out['description'] = src['description']
    if src.get('termsOfService') is not None:
        out['termsOfService'] = src['termsOfService']
    if src.get('contact') is not None:
        out['contact'] = contact(src['contact'])
    if src.get('license') is not None:
        out['license'] = license_(src['license'])
    return out


def items(src):
    out = pick(src, TYPE_KEYS)
    if src.get('items') is not None:
        out['items'] = items(src['items'])
    return out


def schema(src):
    if src.get('$ref') is not None:
        return {'$ref': src['$ref']}
    if src.get('type') == 'file':
        return {'type': 'string', 'format': 'binary'}
    out = pick(src, SCHEMA_KEYS)
    if src.get('required'):
        out['required'] = src['required']
    if src.get('allOf'):
        out['allOf'] = [schema(x) for x in src['allOf']]
    if src.get('items') is not None:
        out['items'] = schema(src['items'])
    if src.get('properties'):
        out['properties'] = {name: schema(x) for name, x in src['properties'].items()}
    extra = src.get('additionalProperties')
    if extra is not None:
        if isinstance(extra, bool):
            if not extra:
                out['additionalProperties'] = False
        else:
            out['additionalProperties'] = schema(extra)
    if src.get('discriminator'):
        out['discriminator'] = {'propertyName': src['discriminator']}
    if src.get('xml') is not None:
        out['xml'] = xml(src['xml'])
    if src.get('externalDocs') is not None:
        out['externalDocs'] = external_docs(src['externalDocs'])
    return out


FLOWS = {'accessCode': 'authorizationCode', 'access_code': 'authorizationCode', 'application': 'clientCredentials'}


def security_scheme(src):
    out = pick(src, ['description', 'name', 'in'])
    out['type'] = src['type']
    if src['type'] == 'basic':
        out['type'] = 'http'
        out['scheme'] = 'basic'
    if src['type'] == 'oauth2':
        if not src.get('flow'):
            raise Rejected('OAuth2 without a flow')
        flow = pick(src, ['authorizationUrl', 'tokenUrl'])
        flow['scopes'] = src.get('scopes') or {}
        out['flows'] = {FLOWS.get(src['flow'], src['flow']): flow}
    return out


#
# C10: parameters and request bodies
#

def style_of(fmt, where, type_):
    """-> (style, explode) of an explicit collection format; None for 'nothing'"""
    if fmt == 'csv':
        if where == 'query':
            return 'form', False
        if where == 'path' or where == 'header':
            return 'simple', None
        return None, None
    if fmt == 'multi':
        if where == 'query':
            return 'form', True
        return None, None
    if fmt == 'ssv' or fmt == 'pipes':
        if where != 'query' or type_ != 'array':
            raise Rejected('no style for this collection format')
        return ('spaceDelimited' if fmt == 'ssv' else 'pipeDelimited'), None
    return None, None


def add_style(out, src, where):
    if src.get('collectionFormat') is not None:
        style, explode = style_of(src['collectionFormat'], where, src.get('type'))
        if style is not None:
            out['style'] = style
        if explode is not None:
            out['explode'] = explode


def header(src):
    out = pick(src, ['description'])
    out['schema'] = items(src)
    add_style(out, src, 'header')
    return out


def parameter(src):
    out = pick(src, ['description', 'required', 'allowEmptyValue'])
    out['name'] = src['name']
    out['in'] = src['in']
    type_ = items(src)
    if type_:
        out['schema'] = type_
    add_style(out, src, src['in'])
    return out


def proper(src):
    """a body parameter has a schema and no type; the others have no schema"""
    if src['in'] == 'body':
        return src.get('schema') is not None and src.get('type') is None
    return src.get('schema') is None


def is_body(src):
    return src.get('type') == 'file' or src.get('in') == 'formData' or src.get('in') == 'body'


def is_file_body(src):
    if src.get('type') == 'file':
        return True
    if src['in'] == 'formData':
        return False
    return deref(src['schema']).get('type') == 'file'


def is_form_body(src):
    return src['in'] == 'formData' and src.get('type') != 'file'


def mime_types(src, consumes):
    if is_file_body(src):
        if not consumes:
            return ['multipart/form-data']
        return {m for m in MIME_FILE if m in consumes} or ['multipart/form-data']
    if is_form_body(src):
        if not consumes:
            return ['application/x-www-form-urlencoded']
        return {m for m in MIME_FORM if m in consumes} or ['application/x-www-form-urlencoded']
    return consumes or ['application/json']


def content_type(src):
    """the media type of the encoded field"""
    if src.get('type') == 'file':
        return 'application/octet-stream'
    if src.get('type') == 'object':
        return 'application/json'
    if src.get('type') == 'array' and src.get('items') is not None:
        return content_type(src['items'])
    return 'text/plain'


def encoding(src, where, mime):
    if mime not in MIME_FORM:
        return None
    out = {'contentType': content_type(src)}
    if src.get('collectionFormat') is not None:
        style, explode = style_of(src['collectionFormat'], where, src.get('type'))
        if style is not None:
            out['style'] = style
            if explode is not None:
                out['explode'] = explode
    return out


def property_of(param):
    """the property that stands for a form or file field"""
    src = deref(param)
    if param.get('$ref') is not None:
        out = {'$ref': param['$ref']}
    elif src.get('schema') is not None:
        out = schema(src['schema'])
    elif src.get('type') == 'file':
        out = {'type': 'string', 'format': 'binary'}
    else:
        out = items(src)
        if src.get('description') is not None:
            out['description'] = src['description']
    if src.get('allowEmptyValue') is True:
        out['nullable'] = True
    return out


def media_type(param, mime, old):
    """the media type object 'old' with one more field"""
    src = deref(param)
    if not proper(src):
        raise Unspecified('a schema goes with the body')
    if not (is_file_body(src) or is_form_body(src)):
        raise Unspecified('neither a field nor a file')
    if old is not None and 'properties' not in old['schema']:
        raise Unspecified('fields together with a body')
    if old is not None and src['name'] in old['schema']['properties']:
        raise Rejected('two form fields of the same name')
    out = old if old is not None else {'schema': {'properties': {}}}
    out['schema']['properties'][src['name']] = property_of(param)
    if src.get('required'):
        if 'required' not in out['schema']:
            out['schema']['required'] = []
        out['schema']['required'].append(src['name'])
    where = src['in'] if src.get('schema') is None else None
    enc = encoding(src['schema'] if src.get('schema') is not None else src, where, mime)
    if enc is not None:
        if 'encoding' not in out:
            out['encoding'] = {}
        out['encoding'][src['name']] = enc
    return out


def request_body(param, body, consumes):
    """the request body 'body' (None: none so far) with one more parameter"""
    src = deref(param)
    if not is_body(src):
        raise Unspecified('no body parameter')
    if not proper(src):
        raise Unspecified('a schema goes with the body')
    out = body if body is not None else {'content': {}}
    if src.get('required'):
        out['required'] = True
    if is_file_body(src) or is_form_body(src):
        for mime in mime_types(src, consumes):
            out['content'][mime] = media_type(param, mime, out['content'].get(mime) or None)
    else:
        if body is not None:
            raise Rejected('a second body')
        if src.get('description') is not None:
            out['description'] = src['description']
        for mime in mime_types(src, consumes):
            out['content'][mime] = {'schema': schema(src['schema'])}
    return out


#
# C11: documents
#

def response(src, produces):
    target = deref(src)
    if src.get('$ref') is not None and target.get('schema') is None:
        return {'$ref': src['$ref']}
    out = pick(target, ['description'])
    body = target.get('schema')
    if body is not None:
        if body.get('type') == 'file':
            out['content'] = {'application/octet-stream': {'schema': {'type': 'string', 'format': 'binary'}}}
        else:
            if not produces:
                produces = ['application/json' if body.get('type') == 'object' else 'text/plain']
            out['content'] = {mime: {'schema': schema(body)} for mime in produces}
    if target.get('headers'):
        out['headers'] = {name: header(x) for name, x in target['headers'].items()}
    return out


def with_scheme(url, scheme):
    """'url' with another scheme"""
    raise NotImplementedError()


def operation(src, body, url, produces, consumes):
    out = pick(src, ['summary', 'description', 'operationId', 'deprecated'])
    if src.get('tags'):
        out['tags'] = src['tags']
    if src.get('security') is not None:
        out['security'] = src['security']
    if src.get('parameters'):
        for param in src['parameters']:
            if is_body(deref(param)):
                body = request_body(param, body, src.get('consumes') or consumes)
            else:
                if 'parameters' not in out:
                    out['parameters'] = []
                out['parameters'].append(parameter_or_ref(param))
    if body is not None:
        out['requestBody'] = body
    if src.get('responses'):
        out['responses'] = {k: response(r, src.get('produces') or produces) for k, r in src['responses'].items()}
    if src.get('externalDocs') is not None:
        out['externalDocs'] = external_docs(src['externalDocs'])
    if src.get('schemes'):
        out['servers'] = [{'url': with_scheme(url, s)} for s in src['schemes']]
    return out


def parameter_or_ref(src):
    if src.get('$ref') is not None:
        return {'$ref': src['$ref']}
    return parameter(src)


METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']


def parameter_of(param, body, consumes):
    """-> what a parameter becomes, and whether that is the request body"""
    if is_body(deref(param)):
        return request_body(param, body, consumes), True
    return parameter_or_ref(param), False


def path_item(src, ref, url, consumes, produces):
    return path_item_and_moved(src, ref, url, consumes, produces)[0]


def path_item_and_moved(src, ref, url, consumes, produces):
    """'ref': the normalized reference of this path item, None when it has none;
    -> the path item, and the places of what it has elsewhere after the conversion"""
    out, moved_ = {}, {}
    if ref is not None:
        out['$ref'] = ref
    body = None
    if src.get('parameters'):
        for i, param in enumerate(src['parameters']):
            if is_body(deref(param)):
                body = request_body(param, body, consumes)
                moved_['parameters/' + str(i)] = 'x-pyopenapi_internal_request_body'
            else:
                if 'parameters' not in out:
                    out['parameters'] = []
                out['parameters'].append(parameter_or_ref(param))
    for method in METHODS:
        if src.get(method) is not None:
            out[method] = operation(src[method], own_copy(body), url, produces, consumes)
    if body is not None:
        # kept for debugging only
        out['x-pyopenapi_internal_request_body'] = body
    return out, moved_


def own_copy(value):
    """a deep copy"""
    raise NotImplementedError()


def compose_url(scheme, host, path):
    raise NotImplementedError()


def server_url(src):
    if src.get('host'):
        scheme = src['schemes'][0] if src.get('schemes') else 'https'
        return compose_url(scheme, src['host'], src.get('basePath') or '')
    return src.get('basePath') or '/'


def document(src, refs):
    return document_and_moved(src, refs)[0]


def document_and_moved(src, refs):
    """'refs': path -> normalized reference of the path items that have one;
    -> the document, and the table of what is elsewhere after the conversion"""
    url = server_url(src)
    out, moved_ = {'openapi': '3.0.0', 'servers': [{'url': url}]}, {}
    if src.get('info') is not None:
        out['info'] = info(src['info'])
    if src.get('paths'):
        out['paths'] = {}
        for k, p in src['paths'].items():
            if k.startswith('x-'):
                raise Unspecified('no path')
            out['paths'][k], m = path_item_and_moved(p, refs.get(k), url, src.get('consumes'), src.get('produces'))
            if m:
                if 'paths' not in moved_:
                    moved_['paths'] = {}
                moved_['paths'][encode_token(k)] = m
    if src.get('security'):
        out['security'] = src['security']
    if src.get('tags'):
        out['tags'] = [tag(t) for t in src['tags']]
    if src.get('externalDocs') is not None:
        out['externalDocs'] = external_docs(src['externalDocs'])
    if src.get('definitions') or src.get('parameters') or src.get('responses') or src.get('securityDefinitions'):
        out['components'] = components(src, moved_)
    return out, moved_


def components(src, moved_):
    out = {}
    if src.get('definitions'):
        out['schemas'] = {k: schema(x) for k, x in src['definitions'].items()}
        moved_['definitions'] = 'components/schemas'
    if src.get('parameters'):
        bodies = {}
        for k, x in src['parameters'].items():
            if is_body(deref(x)):
                if 'requestBodies' not in out:
                    out['requestBodies'] = {}
                out['requestBodies'][k] = request_body(x, None, None)
                bodies[encode_token(k)] = '#/components/requestBodies/' + encode_token(k)
            else:
                if 'parameters' not in out:
                    out['parameters'] = {}
                out['parameters'][k] = parameter_or_ref(x)
        bodies[''] = '#/components/parameters'
        moved_['parameters'] = bodies
    if src.get('responses'):
        out['responses'] = {k: response(x, src.get('produces')) for k, x in src['responses'].items()}
        moved_['responses'] = 'components/responses'
    if src.get('securityDefinitions'):
        out['securitySchemes'] = {k: security_scheme(x) for k, x in src['securityDefinitions'].items()}
        moved_['securityDefinitions'] = 'components/securitySchemes'
    return out


def moved(src, pointer):
    """where the converted document has what 'pointer' (tokens, encoded) denoted: the
    table of moved objects of a whole document, as a function"""
    if len(pointer) >= 2 and pointer[0] == 'definitions' and src.get('definitions'):
        return ['components', 'schemas'] + pointer[1:]
    if len(pointer) >= 2 and pointer[0] == 'responses' and src.get('responses'):
        return ['components', 'responses'] + pointer[1:]
    if len(pointer) >= 2 and pointer[0] == 'securityDefinitions' and src.get('securityDefinitions'):
        return ['components', 'securitySchemes'] + pointer[1:]
    if len(pointer) >= 2 and pointer[0] == 'parameters' and src.get('parameters'):
        for name, param in src['parameters'].items():
            if encode_token(name) == pointer[1] and is_body(param):
                return ['components', 'requestBodies'] + pointer[1:]
        return ['components', 'parameters'] + pointer[1:]
    return pointer
