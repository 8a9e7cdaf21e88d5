"""contracts on the upgrade 1.2 -> 2.0 and their verification (C08, C17)

What the code leaves as None counts as absent (an object loaded from the result
gives the same for both).
"""
import os

import z3

from lib import impl
from contracts import conv12 as S
from contracts import tables as T
from proof import couple
from proof.conv import Contract, Derived, frame, jp_compose, main, positional
from proof.engine import Domain, Engine
from proof.terms import *  # noqa
from proof.values import *  # noqa

up, o12 = impl.up12, impl.o12


def text(name, e=None):
    s = Sym(z3.Const(name, J), T.STR)
    if e is not None:
        e.typed(s.t, T.STR, null=False)
    return s


class Contract12(Derived):
    """contracts of functions over 1.2 objects"""
    classes = ()        # of the source object
    fresh = True

    def __init__(self, name, code, spec, **kw):
        Contract.__init__(self, name, '', spec, '', **kw)
        self.code_name = code
        obj = up
        for part in code.split('.'):
            obj = getattr(obj, part, None)
        self.code = obj

    def handles(self, v, side):
        raw = v if side == 'spec' else v.raw if isinstance(v, View) else None
        if not isinstance(raw, Sym) or raw.ty is None or raw.ty.kind != 'obj' or raw.ty.arg not in self.classes:
            return None
        if side == 'code' and v.cls is not getattr(o12, raw.ty.arg, None):
            return None
        return raw

    def handle(self, e, f, args, kw, st, side):
        vals = positional(e, f, args, kw)
        if isinstance(vals[0], Union):
            return e.split(st, vals[0], lambda s, x: e.call(f, [x] + vals[1:], {}, s))
        raw = self.handles(vals[0], side)
        if raw is None:
            return NotImplemented
        if side == 'code':
            e.assumed.add(self.name)
        return self.outcome(e, raw, vals, st, side)

    def outcome(self, e, raw, vals, st, side):
        return self.result(e, st, [raw.t] + [e.term(x, st) for x in vals[1:]], side)

    def prepare(self, e):
        """the function itself is executed, not replaced"""
        e.contracts.pop(self.spec, None)
        e.contracts.pop(self.code, None)

    def verify(self, keep=False):
        if self.code is None:
            raise Unsupported('%s is gone' % self.code_name)
        obs, log = [], []
        for self.case in self.cases:
            name = self.name if self.case is None else '%s of %s' % (self.name, self.case)
            e, o, l = self.verify_case(name, keep)
            obs += o
            log += l
        return e, obs, log

    def verify_case(self, name, keep):
        from proof import conv
        old = conv.engine
        conv.engine = engine
        try:
            return Contract.verify_case(self, name, keep)
        finally:
            conv.engine = old

    def source(self, e, name, const='raw'):
        raw = Sym(z3.Const(const, J), T.O(name))
        e.typed(raw.t, raw.ty, null=False)
        return raw, View(getattr(o12, name), raw)


class DataType(Contract12):
    classes = cases = ('Property', 'Parameter', 'Operation')

    def inputs(self, e, st):
        raw, obj = self.source(e, self.case)
        scope, sep = text('scope', e), text('sep', e)
        return [obj, scope, sep], [raw, scope, sep]


class Parameter(Contract12):
    classes = cases = ('Parameter',)

    inputs = DataType.inputs


def swagger(e, st, **parts):
    """the document so far: of some parts only their terms are known"""
    r = e.new(st, HDict())
    h = HDict()
    for k, v in parts.items():
        h.ents[k] = (z3.BoolVal(True), v)
    st.heap[r.id] = h
    return r


def some(e, st, name, kind):
    t = z3.Const(name, J)
    e.fact(t != NULL, KIND(t) == kind)
    return e.new(st, HDict(t) if kind == 5 else HList(t))


def part_of(e, st, doc, key):
    return e.getitem(doc, key, st)


class Change(Contract12):
    """contracts of functions that change a part of the document"""
    doc = 0             # position of the document, among the arguments of the code
    part = ''           # the part that changes
    kind = 5

    def change(self, e, st, target, key, side):
        """target: the part, as an object"""
        if self.partial:
            e.raise_if(st, e.app('undefined_' + self.name, *key, sort=B), Domain)
        if self.rejects:
            e.raise_if(st, e.app('rejects_' + self.name, *key, sort=B),
                       S.Rejected if side == 'spec' else impl.errs.SchemaError)
        if not isinstance(target, Ref) or target.id in e.frozen:
            raise Unsupported('a part of the document that may be shared')
        t = e.app('SPEC_' + self.name, e.term(target, st), *key)
        e.fact(t != NULL, KIND(t) == self.kind)
        st.heap[target.id] = HDict(t) if self.kind == 5 else HList(t)

    def compare(self, code, spec):
        return [(self.results[0], self.results[1], self.part)]


class Placement(Change):
    classes = cases = ('Operation',)
    part = 'paths'

    def handle(self, e, f, args, kw, st, side):
        vals = positional(e, f, args, kw)
        i = 0 if side == 'code' else 1
        raw = self.handles(vals[i], side)
        if raw is None:
            return NotImplemented
        if side == 'code':
            _, api, decl, doc, sep = vals
            if not isinstance(api, View) or not isinstance(decl, View):
                return NotImplemented
            e.assumed.add(self.name)
            target = part_of(e, st, doc, 'paths')
        else:
            target, _, api, decl, sep = vals
        self.change(e, st, target, [raw.t, e.term(api, st), e.term(decl, st), e.term(sep, st)], side)
        return None

    def inputs(self, e, st):
        raw, obj = self.source(e, 'Operation')
        api_raw, api = self.source(e, 'Api', 'api')
        decl_raw, decl = self.source(e, 'ApiDeclaration', 'decl')
        sep = text('sep', e)
        mine, theirs = some(e, st, 'paths', 5), some(e, st, 'paths', 5)
        self.results = (mine, theirs)
        return [obj, api, decl, swagger(e, st, paths=mine), sep], [theirs, raw, api_raw, decl_raw, sep]


class Model(Change):
    classes = cases = ('Model',)
    part = 'definitions'

    def handle(self, e, f, args, kw, st, side):
        vals = positional(e, f, args, kw)
        raw = self.handles(vals[0 if side == 'code' else 1], side)
        if raw is None:
            return NotImplemented
        if side == 'code':
            _, decl, doc, sep = vals
            if not isinstance(decl, View):
                return NotImplemented
            e.assumed.add(self.name)
            target = part_of(e, st, doc, 'definitions')
        else:
            target, _, decl, sep = vals
        self.change(e, st, target, [raw.t, e.term(decl, st), e.term(sep, st)], side)
        return None

    def inputs(self, e, st):
        raw, obj = self.source(e, 'Model')
        decl_raw, decl = self.source(e, 'ApiDeclaration', 'decl')
        sep = text('sep', e)
        mine, theirs = some(e, st, 'definitions', 5), some(e, st, 'definitions', 5)
        self.results = (mine, theirs)
        return [obj, decl, swagger(e, st, definitions=mine), sep], [theirs, raw, decl_raw, sep]


class Method(Contract12):
    """methods of Upgrade"""

    def upgrade(self, e, st, doc, sep=None):
        r = e.new(st, HObj(up.Upgrade))
        names = ('_Upgrade__swagger', '_Upgrade__sep')
        st.heap[r.id] = HObj(up.Upgrade, dict(zip(names, (doc, sep))))
        self.me = r
        return r

    def document(self, run):
        return run.st.heap[self.me.id].attrs['_Upgrade__swagger']


class Resource(Method):
    classes = cases = ('ApiDeclaration',)

    def inputs(self, e, st):
        raw, obj = self.source(e, self.case)
        sep = text('sep', e)

        def doc():
            return swagger(e, st, paths=some(e, st, 'paths', 5), definitions=some(e, st, 'definitions', 5),
                           tags=some(e, st, 'tags', 4))
        self.theirs = doc()
        return [self.upgrade(e, st, doc(), sep), text('path'), obj], [self.theirs, raw, sep]

    def compare(self, code, spec):
        return [(self.document(code), self.theirs, 'document')]


class Listing(Method):
    classes = cases = ('ResourceListing',)

    def inputs(self, e, st):
        raw, obj = self.source(e, self.case)
        return [self.upgrade(e, st, None), text('path'), obj], [raw]

    def compare(self, code, spec):
        return [(self.document(code), spec.val, 'document')]


class Auth(Method):
    classes = cases = ('Authorization',)

    def inputs(self, e, st):
        raw, obj = self.source(e, self.case)
        path = text('path', e)
        self.name_ = Sym(ELEM(e.app('jp_split', path.t), e.lit(2)), T.STR)
        self.theirs = some(e, st, 'securityDefinitions', 5)
        return [self.upgrade(e, st, swagger(e, st, securityDefinitions=some(e, st, 'securityDefinitions', 5))), path, obj], [raw]

    def compare(self, code, spec):
        e = self.e
        e.setitem(self.theirs, self.name_, spec.val, spec.st)
        doc = self.document(code)
        return [(e.getitem(doc, 'securityDefinitions', code.st), self.theirs, 'security definitions')]


class Finish(Method):
    cases = (None,)

    def inputs(self, e, st):
        def doc():
            return swagger(e, st, paths=some(e, st, 'paths', 5), host=text('host', e))
        theirs = doc()
        return [self.upgrade(e, st, doc())], [theirs]

    def compare(self, code, spec):
        return [(code.val, spec.val, 'document')]


def jp_split(e, f, args, kw, st):
    """contract of jp_split (decided with C01): the tokens of the path of a node; an authorization is
    at '#/authorizations/<name>'"""
    p = args[0]
    if len(args) > 1 or kw or not isinstance(p, Sym):
        return NotImplemented
    t = e.app('jp_split', p.t)
    e.fact(LEN(t) == 3, NE(t), KIND(t) == 4, t != NULL)
    return Sym(t, T.LIST(T.STR))


def common_prefix(e, f, args, kw, st):
    t = e.app('commonprefix', e.term(args[0], st))
    e.fact(KIND(t) == 2, t != NULL)
    return Sym(t, T.STR)


CONTRACTS = [
    DataType('data_type', 'convert_schema_from_datatype', S.data_type, rejects=True, partial=True),
    Parameter('parameter', 'convert_parameter', S.parameter, rejects=True, partial=True),
    Placement('place_operation', 'convert_operation', S.place_operation, rejects=True, partial=True),
    Model('add_model', 'convert_model', S.add_model, rejects=True, partial=True),
    Resource('add_resource', 'Upgrade._api_declaration', S.add_resource, rejects=True, partial=True),
    Listing('skeleton', 'Upgrade._resource_listing', S.skeleton, partial=True),
    Auth('authorization', 'Upgrade._authorization', S.authorization, partial=True),
    Finish('finish', 'Upgrade.get_swagger', S.finish, partial=True),
]
BY_NAME = dict((c.name, c) for c in CONTRACTS)
REPLACED = ('data_type', 'parameter', 'place_operation', 'add_model')


def engine():
    e = Engine('1.2')
    e.drop_null = True
    e.contracts[impl.utils.jp_compose] = jp_compose
    e.contracts[impl.utils.jp_split] = jp_split
    e.contracts[os.path.commonprefix] = common_prefix
    for name in REPLACED:
        c = BY_NAME[name]
        if c.code is not None:
            e.contracts[c.code] = c.code_handler
            e.contracts[c.spec] = c.spec_handler
    return e


if __name__ == '__main__':
    import sys
    main(sys.argv[1:], CONTRACTS, BY_NAME)
