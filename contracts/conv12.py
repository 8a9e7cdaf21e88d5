"""Specification of the upgrade Swagger 1.2 -> 2.0, over plain JSON values
(written from the statement of C08; executed concretely and symbolically)."""
import decimal
import os
from urllib.parse import urlparse, urlunparse

from contracts.conv23 import Rejected, Unspecified

PRIMITIVES = ['integer', 'number', 'string', 'boolean', 'array', 'void']


def need(src, key):
    """the value of a required key"""
    if src.get(key) is None:
        raise Unspecified('%s is missing' % key)
    return src[key]


def scoped(scope, name, sep):
    """full name of a model of a resource"""
    return scope + sep + name if scope and name else scope or name


def escape(token):
    return token.replace('~', '~0').replace('/', '~1')


def definition(scope, name, sep):
    return '#/definitions/' + escape(scoped(scope, name, sep))


def resource_name(decl):
    """the name of a resource is its path without the leading slash"""
    path = decl.get('resourcePath') or ''
    return path[1:] if path.startswith('/') else path


def type_or_ref(src, scope, sep):
    """a primitive type stays, the name of a model becomes a reference to its definition"""
    out = {}
    if src.get('$ref') is not None:
        out['$ref'] = definition(scope, src['$ref'], sep)
    if src.get('type') in PRIMITIVES:
        out['type'] = src['type']
    elif src.get('type'):
        out['$ref'] = definition(scope, src['type'], sep)
    return out


def to_number(text, type_):
    """limits are strings in 1.2"""
    if type_ == 'integer':
        return int(decimal.Decimal(text))
    if type_ == 'number':
        return float(text)
    raise Rejected('limits of something that is not a number')


def add_limits(out, src):
    for key in ['minimum', 'maximum']:
        if src.get(key):
            out[key] = to_number(src[key], src.get('type'))


def set_if(out, key, val):
    if val is not None:
        out[key] = val


def data_type(src, scope, sep):
    out = type_or_ref(src, scope, sep)
    set_if(out, 'format', src.get('format'))
    set_if(out, 'default', src.get('defaultValue'))
    add_limits(out, src)
    set_if(out, 'uniqueItems', src.get('uniqueItems'))
    set_if(out, 'enum', src.get('enum'))
    if src.get('items') is not None:
        out['items'] = type_or_ref(src['items'], scope, sep)
        set_if(out['items'], 'format', src['items'].get('format'))
    return out


def items(src):
    """items of a non-body parameter"""
    if src.get('$ref') is not None:
        raise Rejected('reference in a non-body parameter')
    if src.get('type') not in PRIMITIVES:
        raise Rejected('items that are no primitives')
    out = {'type': src['type']}
    set_if(out, 'format', src.get('format'))
    return out


def parameter(src, scope, sep):
    out = {'name': need(src, 'name')}
    set_if(out, 'required', src.get('required'))
    set_if(out, 'description', src.get('description'))
    kind = need(src, 'paramType')
    out['in'] = 'formData' if kind == 'form' else kind
    if out['in'] == 'body':
        out['schema'] = data_type(src, scope, sep)
        return out
    if src.get('$ref') is not None:
        raise Rejected('reference in a non-body parameter')
    if src.get('allowMultiple') is True and src.get('items') is None:
        # several values of the type of this parameter
        out['type'] = 'array'
        out['collectionFormat'] = 'csv'
        set_if(out, 'uniqueItems', src.get('uniqueItems'))
        out['items'] = items(src)
        add_limits(out['items'], src)
        set_if(out['items'], 'enum', src.get('enum'))
        if 'defaultValue' in src:
            out['default'] = [src['defaultValue']]
        return out
    out['type'] = need(src, 'type').lower()
    set_if(out, 'format', src.get('format'))
    set_if(out, 'default', src.get('defaultValue'))
    add_limits(out, src)
    set_if(out, 'enum', src.get('enum'))
    if src.get('items') is not None:
        out['collectionFormat'] = 'csv'
        set_if(out, 'uniqueItems', src.get('uniqueItems'))
        out['items'] = items(src['items'])
    return out


def operation(src, decl, sep):
    scope = resource_name(decl)
    out = {'operationId': need(src, 'nickname')}
    if scope:
        out['tags'] = [scope]
    set_if(out, 'summary', src.get('summary'))
    set_if(out, 'description', src.get('notes'))
    out['deprecated'] = src.get('deprecated') == 'true'
    consumes = src.get('consumes') or decl.get('consumes')
    if consumes:
        out['consumes'] = consumes
    produces = src.get('produces') or decl.get('produces')
    if produces:
        out['produces'] = produces
    out['parameters'] = [parameter(p, scope, sep) for p in need(src, 'parameters')]
    auth = src.get('authorizations')
    if auth is None:        # an empty one removes those of the declaration
        auth = decl.get('authorizations')
    if auth:
        out['security'] = [{name: [need(v, 'scope') for v in scopes]} for name, scopes in auth.items()]
    result = {'description': ''}
    if src.get('type') != 'void':
        result['schema'] = data_type(src, scope, sep)
    out['responses'] = {'default': result}
    return out


def add_model(definitions, src, decl, sep):
    """one more model of a resource: its definition, and what it adds to the definitions of its sub types"""
    scope = resource_name(decl)
    name = scoped(scope, need(src, 'id'), sep)
    props = {}
    for key, prop in need(src, 'properties').items():
        props[key] = data_type(prop, scope, sep)
        set_if(props[key], 'description', prop.get('description'))
    out = definitions.setdefault(name, {})
    out.setdefault('properties', {}).update(props)
    for key in ['required', 'discriminator', 'description']:
        if key in src:
            out[key] = need(src, key)
    for sub in src.get('subTypes') or []:
        child = definitions.setdefault(scoped(scope, sub, sep), {})
        child.setdefault('allOf', []).append({'$ref': '#/definitions/' + escape(name)})


def definitions(decls, sep):
    out = {}
    for decl in decls:
        for m in (decl.get('models') or {}).values():
            add_model(out, m, decl, sep)
    return out


def authorization(src):
    kind = need(src, 'type')
    out = {'type': 'basic' if kind == 'basicAuth' else kind}
    out['scopes'] = {need(s, 'scope'): s.get('description') or '' for s in src.get('scopes') or []}
    if kind == 'oauth2':
        login = token = None
        grants = src.get('grantTypes') or {}
        if grants.get('implicit') is not None:
            login = need(need(grants['implicit'], 'loginEndpoint'), 'url')
        if (grants.get('authorization_code') or {}).get('tokenEndpoint') is not None:
            token = need(grants['authorization_code']['tokenEndpoint'], 'url')
        if login:
            out['authorizationUrl'] = login
        if token:
            out['tokenUrl'] = token
        if login:
            out['flow'] = 'implicit'
        elif token:
            out['flow'] = 'access_code'
    elif kind == 'apiKey':
        out['name'] = need(src, 'keyname')
        out['in'] = need(src, 'passAs')
    return out


def info(src):
    out = {}
    set_if(out, 'version', src.get('apiVersion'))
    meta = src.get('info')
    if meta is None:
        return out
    if need(meta, 'title'):
        out['title'] = meta['title']
    if need(meta, 'description'):
        out['description'] = meta['description']
    if meta.get('termsOfServiceUrl'):
        out['termsOfService'] = meta['termsOfServiceUrl']
    if meta.get('contact'):
        out['contact'] = {'email': meta['contact']}
    if meta.get('license') or meta.get('licenseUrl'):
        out['license'] = {}
        if meta.get('license'):
            out['license']['name'] = meta['license']
        if meta.get('licenseUrl'):
            out['license']['url'] = meta['licenseUrl']
    return out


def skeleton(src):
    """the document before any resource is added"""
    return {'swagger': '2.0', 'schemes': ['http', 'https'], 'host': '', 'basePath': '', 'info': info(src), 'tags': [],
            'definitions': {}, 'parameters': {}, 'responses': {}, 'paths': {}, 'security': [],
            'securityDefinitions': {}, 'consumes': [], 'produces': []}


def add_tag(tags, name):
    """a resource with a name has a tag, once"""
    known = False
    for tag in tags:
        if tag['name'] == name:
            known = True
            break
    if name and not known:
        tags.append({'name': name})


def place_operation(paths, op, api, decl, sep):
    """an operation is found under its full URL and its method"""
    path = need(decl, 'basePath') + need(api, 'path')
    if path not in paths:
        paths[path] = {}
    paths[path][need(op, 'method').lower()] = operation(op, decl, sep)


def add_resource(doc, decl, sep):
    """one more API declaration"""
    add_tag(doc['tags'], resource_name(decl))
    for api in need(decl, 'apis'):
        for op in need(api, 'operations'):
            place_operation(doc['paths'], op, api, decl, sep)
    for m in (decl.get('models') or {}).values():
        add_model(doc['definitions'], m, decl, sep)


def finish(doc):
    """the network location that all full URLs have in common becomes the host"""
    root = os.path.commonprefix(list(doc['paths']))
    if root.endswith('/'):
        root = root[:-1]
    parts = urlparse(root)
    if root and all(urlparse(url).netloc == parts.netloc for url in doc['paths']):
        doc['host'] = parts.netloc
        prefix = urlunparse((parts.scheme, parts.netloc, '', '', '', ''))
        short = {}
        for url, item in doc['paths'].items():
            short[url[len(prefix):]] = item
        doc['paths'] = short
    return doc


def assemble(listing, decls, sep):
    """all of the document, with full URLs as paths"""
    doc = skeleton(listing)
    for name, auth in (listing.get('authorizations') or {}).items():
        doc['securityDefinitions'][name] = authorization(auth)
    for decl in decls:
        add_resource(doc, decl, sep)
    return doc
