"""known findings: specific inputs on which the repository breaks a property and is not repaired"""
import os
import re

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')


def listed():
    """[(property, key, text)] of the findings that are not repaired"""
    ret = []
    with open(PATH) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m:
                ret.append(m.groups())
    return ret


def c14_empty_token():
    from lib import impl
    url = 'http://h/v/doc.json'
    doc = {'swagger': '2.0', 'paths': {}, 'securityDefinitions': {'': {'type': 'basic'}, 'b': {'type': 'basic'}}}
    app, _ = impl.make_app({url: doc}, url)
    part = app.load_obj(url + '#/securityDefinitions/', parser=impl.o20.SecurityScheme)
    root = app.load_obj(url)
    if root.securityDefinitions is part or root.securityDefinitions is None or sorted(root.securityDefinitions.keys()) != ["", "b"]:
        return ('loading #/securityDefinitions/ before its document replaces all of securityDefinitions in '
                'the document by that one object')


def c11_empty_parameter():
    from lib import impl
    url = 'http://h/v/doc.json'
    param = {'name': 'b', 'in': 'body', 'schema': {'type': 'string'}}
    doc = {'swagger': '2.0', 'paths': {}, 'parameters': {'': param, 'q': {'name': 'q', 'in': 'query', 'type': 'string'}}}
    app = impl.create({url: doc}, url, '3.0.0')
    jp = app.spec_obj_store.relocate(url, '#/parameters/', '2.0', '3.0.0')
    if jp != '#/components/requestBodies/':
        return 'the body parameter at #/parameters/ is converted to #/components/requestBodies/ but relocated to ' + jp


def c05_boolean_child():
    from lib import impl
    out = []
    for val in (True, False):
        raw = {'type': 'object', 'additionalProperties': val}
        for o in (impl.o20.Schema(raw, '#'), impl.o30.Schema(raw, '#')):
            try:
                if o.dump() != raw:
                    out.append('%s is left out' % val)
            except AttributeError as e:
                out.append('%s: %s' % (val, e))
    return out and 'dumping a Schema with a boolean additionalProperties: ' + '; '.join(sorted(set(out)))


def c06_nested_container():
    from lib import impl
    o = impl.o30.Operation({'responses': {}, 'callbacks': {'n': {'/x': {}}}}, '#')
    got = [p for p, c in impl.scan.default_tree_traversal(o, []) if isinstance(c, impl.o30.PathItem)]
    p = impl.o12.Operation({'method': 'GET', 'nickname': 'n', 'authorizations': {'a': [{'scope': 's'}]}}, '#')
    got += [p for p, c in impl.scan.default_tree_traversal(p, []) if isinstance(c, impl.o12.Authorizations)]
    if got != ['#/callbacks/n/~1x', '#/authorizations/a/0']:
        return 'a path item of a callback and a scope of an authorization are visited at %s' % got


def c07_plain_containers():
    from lib import impl
    out = []
    for cls, a, b in ((impl.o30.Operation, {'tags': ['a', 'b'], 'responses': {}}, {'tags': ['a', 'c'], 'responses': {}}),
                      (impl.o30.Schema, {'enum': [1]}, {'enum': [1, 2]}), (impl.o30.Schema, {'enum': [1, 2]}, {'enum': [1]}),
                      (impl.o30.OAuthFlow, {'scopes': {'a': '1', 'b': '2'}}, {'scopes': {'a': '1', 'b': '3'}})):
        try:
            if cls(a, '#').compare(cls(b, '#'))[0]:
                out.append('%s and %s compare as equal' % (a, b))
        except IndexError as e:
            out.append('comparing %s with %s raises %r' % (a, b, e))
    return '; '.join(out)


def c14_escaped_token():
    from lib import impl
    url = 'http://h/v/doc.json'
    app, _ = impl.make_app({url: {'swagger': '2.0', 'paths': {'/user': {'parameters': []}}}}, url)
    part = app.load_obj(url + '#/paths/~1user', parser=impl.o20.PathItem)
    root = app.load_obj(url)
    if root.paths['/user'] is not part:
        return '#/paths/~1user, loaded before its document, is not the path item of the document'


KEYS = {'c14-empty-token': c14_empty_token, 'c11-empty-parameter': c11_empty_parameter,
        'c05-boolean-child': c05_boolean_child, 'c06-nested-container': c06_nested_container,
        'c07-plain-containers': c07_plain_containers, 'c14-escaped-token': c14_escaped_token}


def report(prop):
    """the findings of this property that still fail: [(key, text)]"""
    ret = []
    for p, key, _text in listed():
        if p == prop:
            try:
                msg = KEYS[key]()
            except Exception as e:
                msg = 'raises %s: %s' % (type(e).__name__, e)
            if msg:
                ret.append((key, msg))
    return ret
