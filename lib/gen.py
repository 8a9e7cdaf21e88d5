"""random well-formed descriptions, driven by contracts/tables.py"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from contracts import tables as T  # noqa

NAMES = ['a', 'b', 'pet', 'Pet', 'x/y', 'a~b', '~1', '~0', '/pets', '/pets/{id}', '/', '', '~', 'definitions', 'items',
         'a b', 'get', '0', '1', '#', 'not', u'\u00e9']
STRS = ['', 'a', 'text', 'b~c', '/x', 'true', '0', u'\u00fc', ' ']
TYPES = ['string', 'integer', 'number', 'boolean', 'array', 'object', 'string']
MIMES = ['application/json', 'application/xml', 'text/plain', 'application/x-www-form-urlencoded',
         'multipart/form-data', 'application/octet-stream', 'image/png', 'x/unknown']


class Gen(object):
    """density: how likely an optional keyword is present; depth: nesting limit"""

    def __init__(self, rng, version, depth=3, density=None, refs=None, max_len=3, names=None):
        self.rng = rng
        self.version = version
        self.depth = depth
        self.density = density
        self.refs = refs or {}
        self.max_len = max_len
        self.names = names or NAMES

    # scalars
    def string(self):
        return self.rng.choice(STRS)

    def name(self):
        return self.rng.choice(self.names)

    def any_(self, depth=2):
        r = self.rng
        k = r.randrange(9 if depth else 6)
        if k == 0:
            return r.choice([True, False])
        if k == 1:
            return r.choice([0, 1, -7, 12345678901234567890])
        if k == 2:
            return r.choice([0.5, -2.25, 1e10])
        if k in (3, 4, 5):
            return self.string()
        if k == 6:
            return [self.any_(depth - 1) for _ in range(r.randrange(3))]
        return dict((self.name(), self.any_(depth - 1)) for _ in range(r.randrange(3)))

    def value(self, t, depth):
        r = self.rng
        k = t.kind
        if k == 'any':
            return self.any_()
        if k == 'str':
            return self.string()
        if k == 'bool':
            return r.choice([True, False])
        if k == 'num':
            return r.choice([0, 1, 5, -1, 2.5, 0.0])
        if k == 'field':
            return self.value(t.arg, depth)
        if k == 'list':
            return [self.value(t.arg, depth - 1) for _ in range(r.randrange(self.max_len + 1))]
        if k == 'map':
            return dict((self.name(), self.value(t.arg, depth - 1)) for _ in range(r.randrange(self.max_len + 1)))
        if k == 'obj':
            return self.obj(t.arg, depth - 1)
        if k == 'orref':
            refs = self.refs.get(t.arg)
            if refs and r.random() < .3:
                return {'$ref': r.choice(refs)}
            return self.obj(t.arg, depth - 1)
        if k == 'orbool':
            if r.random() < .5:
                return r.choice([True, False])
            return self.value(t.arg, depth)
        raise ValueError(t)

    def obj(self, cls, depth=None):
        depth = self.depth if depth is None else depth
        r = self.rng
        if self.version == '3.0.0' and cls in T.V3_ALIASES:
            return self.value(T.V3_ALIASES[cls], depth)
        table = T.keys(self.version, cls)
        hook = getattr(self, 'gen_' + cls, None)
        density = self.density if self.density is not None else r.choice([.1, .3, .5, .8])
        ret = {}
        names = list(table)
        r.shuffle(names)
        for name in names:
            t, required = table[name]
            if name == '$ref' and not required:
                continue
            if not required and r.random() > density:
                continue
            if not T.is_field(t) and not required and depth <= 0:
                continue
            if name == 'type' and t is T.STR:
                ret[name] = r.choice(TYPES)
            else:
                ret[name] = self.value(t, depth)
        if hook:
            ret = hook(ret, depth)
        return ret
