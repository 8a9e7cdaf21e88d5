"""Field tables of the three description formats, written from the published
specifications (Swagger 1.2, Swagger 2.0, OpenAPI 3.0.0), not from /repo.

A table entry is   class name -> {key: type}   with the types below; a key that
starts with '!' is required by the specification.
"""


class T(object):
    """a type of JSON value"""
    __slots__ = ('kind', 'arg')

    def __init__(self, kind, arg=None):
        self.kind = kind
        self.arg = arg

    def __repr__(self):
        return self.kind if self.arg is None else '%s(%s)' % (self.kind, self.arg)


ANY = T('any')        # any JSON value, kept verbatim
STR = T('str')
BOOL = T('bool')
NUM = T('num')
STRS = T('field', T('list', STR))      # a plain field that holds a list of strings
ANYS = T('field', T('list', ANY))


def LIST(t):
    return T('list', t)


def MAP(t):
    return T('map', t)


def O(name):
    return T('obj', name)


def ORREF(name):
    return T('orref', name)


def ORBOOL(t):
    return T('orbool', t)


STRLIST = LIST(STR)     # a *child* list of strings

_SCHEMA_KEYS = {
    'type': STR, 'format': STR, 'default': ANY, 'maximum': NUM, 'exclusiveMaximum': BOOL,
    'minimum': NUM, 'exclusiveMinimum': BOOL, 'maxLength': NUM, 'minLength': NUM, 'pattern': STR,
    'maxItems': NUM, 'minItems': NUM, 'uniqueItems': BOOL, 'enum': ANYS, 'multipleOf': NUM,
}


def _with(base, **kw):
    ret = dict(base)
    ret.update(kw)
    return ret


V1 = {
    'Items': {'$ref': STR, 'type': STR, 'format': STR},
    'Scope': {'!scope': STR, 'description': STR},
    'LoginEndpoint': {'!url': STR},
    'Implicit': {'tokenName': STR, '!loginEndpoint': O('LoginEndpoint')},
    'TokenRequestEndpoint': {'!url': STR, 'clientIdName': STR, 'clientSecretName': STR},
    'TokenEndpoint': {'!url': STR, 'tokenName': STR},
    'AuthorizationCode': {'tokenRequestEndpoint': O('TokenRequestEndpoint'), 'tokenEndpoint': O('TokenEndpoint')},
    'GrantTypes': {'implicit': O('Implicit'), 'authorization_code': O('AuthorizationCode')},
    'Authorizations': {'scope': STR, 'description': STR},
    'Authorization': {'type': STR, 'passAs': STR, 'keyname': STR, 'scopes': LIST(O('Scope')),
                      'grantTypes': O('GrantTypes')},
    'ResponseMessage': {'!code': NUM, '!message': STR, 'responseModel': STR},
}
_DT1 = {'type': STR, '$ref': STR, 'format': STR, 'defaultValue': ANY, 'enum': ANYS, 'minimum': STR,
        'maximum': STR, 'uniqueItems': BOOL, 'items': O('Items')}
V1.update({
    'Parameter': _with(_DT1, **{'!paramType': STR, '!name': STR, 'description': STR, 'required': BOOL,
                                'allowMultiple': BOOL}),
    'Operation': _with(_DT1, **{'!method': STR, 'summary': STR, 'notes': STR, '!nickname': STR, 'produces': STRS,
                                'consumes': STRS, 'deprecated': STR,
                                'authorizations': MAP(LIST(O('Authorizations'))),
                                'parameters': LIST(O('Parameter')), 'responseMessages': LIST(O('ResponseMessage'))}),
    'Api': {'!path': STR, 'description': STR, 'operations': LIST(O('Operation'))},
    'Property': _with(_DT1, description=STR),
    'Model': {'!id': STR, 'description': STR, 'required': STRS, 'subTypes': STRS, 'discriminator': STR,
              '!properties': MAP(O('Property'))},
    'ApiDeclaration': {'!swaggerVersion': STR, 'apiVersion': STR, '!basePath': STR, 'resourcePath': STR,
                       'produces': STRS, 'consumes': STRS, 'description': STR, '!apis': LIST(O('Api')),
                       'models': MAP(O('Model')), 'authorizations': MAP(LIST(O('Authorizations')))},
    'Info': {'!title': STR, '!description': STR, 'termsOfServiceUrl': STR, 'contact': STR, 'license': STR,
             'licenseUrl': STR},
    'ResourceInListing': {'path': STR, 'description': STR},
    'ResourceListing': {'!swaggerVersion': STR, 'apiVersion': STR, 'apis': LIST(O('ResourceInListing')),
                        'info': O('Info'), 'authorizations': MAP(O('Authorization'))},
})

V2 = {
    'Reference': {'$ref': STR},
    'XMLObject': {'name': STR, 'namespace': STR, 'prefix': STR, 'attribute': BOOL, 'wrapped': BOOL},
    'ExternalDocumentation': {'description': STR, 'url': STR},
    'Tag': {'name': STR, 'description': STR, 'externalDocs': O('ExternalDocumentation')},
    'Items': _with(_SCHEMA_KEYS, collectionFormat=STR, items=O('Items')),
    'Schema': _with(_SCHEMA_KEYS, **{
        '$ref': STR, 'maxProperties': NUM, 'minProperties': NUM, 'title': STR, 'description': STR,
        'discriminator': STR, 'readOnly': BOOL, 'example': ANY, 'required': STRS,
        'xml': O('XMLObject'), 'externalDocs': O('ExternalDocumentation'), 'items': O('Schema'),
        'allOf': LIST(O('Schema')), 'properties': MAP(O('Schema')), 'additionalProperties': ORBOOL(O('Schema'))}),
    'Contact': {'name': STR, 'url': STR, 'email': STR},
    'License': {'name': STR, 'url': STR},
    'Info': {'version': STR, 'title': STR, 'description': STR, 'termsOfService': STR,
             'contact': O('Contact'), 'license': O('License')},
    'Parameter': _with(_SCHEMA_KEYS, **{
        'name': STR, 'in': STR, 'required': BOOL, 'collectionFormat': STR, 'description': STR,
        'allowEmptyValue': BOOL, 'schema': O('Schema'), 'items': O('Items')}),
    'Header': _with(_SCHEMA_KEYS, collectionFormat=STR, description=STR, items=O('Items')),
    'Response': {'description': STR, 'examples': ANY, 'schema': O('Schema'), 'headers': MAP(O('Header'))},
    'Operation': {'operationId': STR, 'deprecated': BOOL, 'description': STR, 'summary': STR,
                  'tags': STRLIST, 'consumes': STRLIST, 'produces': STRLIST, 'schemes': STRLIST,
                  'parameters': LIST(ORREF('Parameter')), 'responses': MAP(ORREF('Response')),
                  'security': LIST(MAP(STRLIST)), 'externalDocs': O('ExternalDocumentation')},
    'SecurityScheme': {'type': STR, 'description': STR, 'name': STR, 'in': STR, 'flow': STR,
                       'authorizationUrl': STR, 'tokenUrl': STR, 'scopes': MAP(STR)},
}
V2_METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')
V2['PathItem'] = {'$ref': STR, 'parameters': LIST(ORREF('Parameter'))}
for _m in V2_METHODS:
    V2['PathItem'][_m] = O('Operation')
V2['Swagger'] = {
    'swagger': STR, 'host': STR, 'basePath': STR, 'info': O('Info'), 'schemes': STRLIST, 'consumes': STRLIST,
    'produces': STRLIST, 'paths': MAP(O('PathItem')), 'definitions': MAP(O('Schema')),
    'parameters': MAP(O('Parameter')), 'responses': MAP(O('Response')),
    'securityDefinitions': MAP(O('SecurityScheme')), 'security': LIST(MAP(STRLIST)), 'tags': LIST(O('Tag')),
    'externalDocs': O('ExternalDocumentation')}

V3 = {
    'Reference': {'!$ref': STR},
    'Contact': {'name': STR, 'url': STR, 'email': STR},
    'License': {'!name': STR, 'url': STR},
    'Info': {'!title': STR, 'description': STR, 'termsOfService': STR, '!version': STR,
             'contact': O('Contact'), 'license': O('License')},
    'ServerVariable': {'!default': STR, 'description': STR, 'enum': STRLIST},
    'Server': {'!url': STR, 'description': STR, 'variables': MAP(O('ServerVariable'))},
    'Example': {'summary': STR, 'description': STR, 'value': ANY, 'externalValue': STR},
    'XML_': {'name': STR, 'namespace': STR, 'prefix': STR, 'attribute': BOOL, 'wrapped': BOOL},
    'ExternalDocumentation': {'description': STR, '!url': STR},
    'Discriminator': {'propertyName': STR, 'mapping': MAP(STR)},
    'Schema': _with(_SCHEMA_KEYS, **{
        'title': STR, 'maxProperties': NUM, 'minProperties': NUM, 'required': STRS, 'description': STR,
        'nullable': BOOL, 'readOnly': BOOL, 'writeOnly': BOOL, 'example': ANY, 'deprecated': BOOL,
        'discriminator': O('Discriminator'), 'xml': O('XML_'), 'externalDocs': O('ExternalDocumentation'),
        'allOf': LIST(ORREF('Schema')), 'oneOf': LIST(ORREF('Schema')), 'anyOf': LIST(ORREF('Schema')),
        'not': ORREF('Schema'), 'items': ORREF('Schema'), 'properties': MAP(ORREF('Schema')),
        'additionalProperties': ORBOOL(ORREF('Schema'))}),
    'Parameter': {'!name': STR, '!in': STR, 'description': STR, 'required': BOOL, 'deprecated': BOOL,
                  'allowEmptyValue': BOOL, 'style': STR, 'explode': BOOL, 'allowReserved': BOOL, 'example': ANY,
                  'examples': MAP(ORREF('Example')), 'schema': ORREF('Schema'), 'content': MAP(O('MediaType'))},
    'Header': {'description': STR, 'required': BOOL, 'deprecated': BOOL, 'allowEmptyValue': BOOL, 'style': STR,
               'explode': BOOL, 'allowReserved': BOOL, 'example': ANY, 'examples': MAP(ORREF('Example')),
               'schema': ORREF('Schema'), 'content': MAP(O('MediaType'))},
    'Encoding': {'contentType': STR, 'style': STR, 'explode': BOOL, 'allowReserved': BOOL,
                 'headers': MAP(ORREF('Header'))},
    'MediaType': {'example': ANY, 'schema': ORREF('Schema'), 'examples': MAP(ORREF('Example')),
                  'encoding': MAP(O('Encoding'))},
    'RequestBody': {'description': STR, 'required': BOOL, '!content': MAP(O('MediaType'))},
    'Link': {'operationRef': STR, 'operationId': STR, 'requestBody': ANY, 'description': STR,
             'server': O('Server'), 'parameters': MAP(STR)},
    'Response': {'!description': STR, 'headers': MAP(ORREF('Header')), 'content': MAP(O('MediaType')),
                 'links': MAP(ORREF('Link'))},
    'OAuthFlow': {'authorizationUrl': STR, 'tokenUrl': STR, 'refreshUrl': STR, '!scopes': MAP(STR)},
    'OAuthFlows': {'implicit': O('OAuthFlow'), 'password': O('OAuthFlow'), 'clientCredentials': O('OAuthFlow'),
                   'authorizationCode': O('OAuthFlow')},
    'SecurityScheme': {'!type': STR, 'description': STR, 'name': STR, 'in': STR, 'scheme': STR,
                       'bearerFormat': STR, 'openIdConnectUrl': STR, 'flows': O('OAuthFlows')},
    'Operation': {'summary': STR, 'description': STR, 'operationId': STR, 'deprecated': BOOL,
                  'externalDocs': O('ExternalDocumentation'), 'tags': STRLIST,
                  'parameters': LIST(ORREF('Parameter')), 'requestBody': ORREF('RequestBody'),
                  'responses': MAP(ORREF('Response')), 'security': LIST(MAP(STRLIST)), 'servers': LIST(O('Server')),
                  'callbacks': MAP(ORREF('Callback'))},
    'Components': {'schemas': MAP(ORREF('Schema')), 'responses': MAP(ORREF('Response')),
                   'parameters': MAP(ORREF('Parameter')), 'examples': MAP(ORREF('Example')),
                   'requestBodies': MAP(ORREF('RequestBody')), 'headers': MAP(ORREF('Header')),
                   'securitySchemes': MAP(ORREF('SecurityScheme')), 'links': MAP(ORREF('Link')),
                   'callbacks': MAP(ORREF('Callback'))},
    'Tag': {'!name': STR, 'description': STR, 'externalDocs': O('ExternalDocumentation')},
    'OpenApi': {'openapi': STR, 'info': O('Info'), 'servers': LIST(O('Server')), 'paths': MAP(O('PathItem')),
                'components': O('Components'), 'security': LIST(MAP(STRLIST)), 'tags': LIST(O('Tag')),
                'externalDocs': O('ExternalDocumentation')},
}
V3_METHODS = V2_METHODS + ('trace',)
V3['PathItem'] = {'$ref': STR, 'summary': STR, 'description': STR, 'servers': LIST(O('Server')),
                  'parameters': LIST(ORREF('Parameter'))}
for _m in V3_METHODS:
    V3['PathItem'][_m] = O('Operation')
# a Callback Object is a map of Path Items
V3_ALIASES = {'Callback': MAP(O('PathItem'))}

VERSIONS = {'1.2': V1, '2.0': V2, '3.0.0': V3}

# kinds of values that the library keeps as plain fields (as opposed to child objects)
FIELD_KINDS = ('any', 'str', 'bool', 'num', 'field')


def keys(version, cls):
    """-> {key: (type, required)}"""
    ret = {}
    for k, t in VERSIONS[version][cls].items():
        ret[k.lstrip('!')] = (t, k.startswith('!'))
    return ret


def is_field(t):
    return t.kind in FIELD_KINDS
