"""contracts on the converters 2.0 -> 3.0.0 and their verification (C09, C10, C11, C17)"""
import time

import z3

from lib import impl
from contracts import conv23 as S
from contracts import tables as T
from proof import couple, loops
from proof.builtins_ import copy_value, elem_of, raw_get, urlparse, urlunsplit
from proof.engine import Domain, Engine, Precondition, Stop, source
from proof.terms import *  # noqa
from proof.values import *  # noqa
from pyopenapi.errs import SchemaError

cv, o20 = impl.cv, impl.o20


def positional(e, f, args, kw):
    """arguments in the order of the parameters"""
    node = source(f)
    env = e.bind(args, node, f.__defaults__ or (), args, kw, f.__name__)
    return [env[x.arg] for x in node.args.args]


def is_a(ty, name):
    while ty is not None and ty.kind == 'orbool':
        ty = ty.arg
    return ty is not None and ty.kind in ('obj', 'orref') and ty.arg == name


class Contract(object):
    """SPEC_name(raw, ...): what both the code and the specification give for a source object"""

    fresh = False       # may parts of the result be changed by the caller?
    cases = (None,)     # the inputs, one case after the other
    case = None

    def __init__(self, name, code, spec, cls, rejects=False, partial=False, nonempty=False):
        self.name, self.rejects, self.partial, self.nonempty = name, rejects, partial, nonempty
        self.code, self.spec, self.cls = getattr(cv, code, None), spec, getattr(o20, cls, None)
        self.code_name, self.ty = code, T.O(cls)

    def result(self, e, st, key, side):
        """-> the result as a fresh object"""
        name = self.name
        if self.partial:
            e.raise_if(st, e.app('undefined_' + name, *key, sort=B), Domain)
        if self.rejects:
            e.raise_if(st, e.app('rejects_' + name, *key, sort=B), S.Rejected if side == 'spec' else SchemaError)
        t = e.app('SPEC_' + name, *key)
        e.fact(t != NULL, KIND(t) == 5)
        if self.nonempty:
            e.fact(NE(t))
        r = e.new(st, HDict(t))
        if not self.fresh:
            e.shared.add(r.id)
        return r

    def code_handler(self, e, f, args, kw, st):
        vals = positional(e, f, args, kw)
        if isinstance(vals[0], Union):
            return e.split(st, vals[0], lambda s, x: e.call(f, [x] + vals[1:], {}, s))
        if not isinstance(vals[0], View) or vals[0].cls is not self.cls or any(v is not None and v is not f for v in vals[2:]):
            return NotImplemented
        e.assumed.add(self.name)
        return self.result(e, st, [vals[0].raw.t], 'code')

    def spec_handler(self, e, f, args, kw, st):
        vals = positional(e, f, args, kw)
        if isinstance(vals[0], Union):
            return e.split(st, vals[0], lambda s, x: e.call(f, [x] + vals[1:], {}, s))
        if not isinstance(vals[0], Sym) or not is_a(vals[0].ty, self.ty.arg):
            return NotImplemented
        return self.result(e, st, [vals[0].t], 'spec')

    def inputs(self, e, st):
        """-> arguments of the code, arguments of the specification"""
        raw = Sym(z3.Const('raw', J), self.ty)
        e.typed(raw.t, self.ty, null=False)
        return [View(self.cls, raw), Sym(z3.Const('path', J), T.STR)], [raw]

    def prepare(self, e):
        pass

    def compare(self, code, spec):
        return [(code.val, spec.val, 'result')]

    def verify(self, keep=False):
        if self.code is None or self.cls is None:
            raise Unsupported('%s is gone' % self.code_name)
        obs, log = [], []
        for self.case in self.cases:
            name = self.name if self.case is None else '%s (%s)' % (self.name, self.case)
            e, o, l = self.verify_case(name, keep)
            obs += o
            log += l
        return e, obs, log

    def verify_case(self, name, keep):
        self.e = e = engine()
        st = State()
        ca, sa = self.inputs(e, st)
        self.prepare(e)
        spec = couple.execute(e, 'spec', st, lambda s: e.call_function(self.spec, sa, {}, s))
        st.pc = st.pc + (lnot(spec.cond('domain', 'spec')),)
        code = couple.execute(e, 'code', st, lambda s: e.call_function(self.code, ca, {}, s))
        obs, log = couple.relate(e, name, code, spec, compare=self.compare, keep=keep)
        if self.nonempty and not code.st.dead:
            couple.prove(e, '%s: not empty' % name, code.st.pc + (lnot(spec.cond('domain', 'spec')),),
                         e.truth(code.val, code.st), obs, keep)
        if not self.rejects:
            couple.prove(e, '%s: never rejects' % name, (lnot(spec.cond('domain', 'spec')),),
                         lnot(spec.cond('reject', 'spec')), obs, keep)
        if not self.partial:
            couple.prove(e, '%s: always defined' % name, (), lnot(spec.cond('domain', 'spec')), obs, keep)
        frame(name, code, obs)
        return e, obs, log


def frame(name, code, obs):
    """nothing loaded from the source, and no global object, is changed"""
    o = couple.Obligation('%s: changes nothing of its source' % name)
    writes = [x for x in code.st.events if x[1] == 'write'] + [
        x for r in code.raises for x in r.state.events if x[1] == 'write']
    o.status = 'failed' if writes else 'proved'
    o.output = '\n'.join(str(x[2]) for x in writes)
    o.kind = 'frame'
    obs.append(o)


def loaded(e, st, raw, ty_holder, key):
    """what an object of the class 'ty_holder' has for an element 'raw' of its container 'key'"""
    cls = getattr(o20, ty_holder).__children__[key]['child_builder']
    return elem_of(e, Cont(cls, Sym(z3.Const('of_raw', J))), raw, st)


def optional(e, st, t):
    """None, or an object with the content of a term"""
    r = e.new(st, HDict(t))
    e.fact(z3.Or(t == NULL, z3.And(KIND(t) == 5, NE(t))))
    return Union([(t == NULL, None), (t != NULL, r)])


def body_facts(e, t, cond=None):
    """what holds of every request body: it has contents, and these are an object"""
    k = e.lit('content')
    f = land(KIND(t) == 5, NE(t), HAS(t, k), GET(t, k) != NULL, KIND(GET(t, k)) == 5)
    e.get(t, 'content')
    return f


def a_body(e, t):
    return z3.Or(t == NULL, body_facts(e, t))


def bodies(e, rec, accs, st):
    """candidates for loop invariants: a variable holds a request body, or nothing"""
    return [lambda v, i=i: a_body(e, v[i]) for i, a in enumerate(accs) if a.kind == 'slot' and a.cls is HDict]


def given_body(e, st, case):
    """the request body so far"""
    if case in ('the first', 'no body'):
        return None
    t = z3.Const('body', J)
    e.fact(t != NULL, body_facts(e, t))
    return e.new(st, HDict(t))


def mime_list(e, st, t, key):
    """None, an empty list, or the list of strings with the content of a term"""
    cls = o20.Operation.__children__[key]['child_builder']
    e.typed(t, T.STRLIST)
    e.fact(z3.Or(t == NULL, NE(t)))
    none = z3.Const('none_' + key, B)
    return Union([(z3.And(t == NULL, none), None), (z3.And(t == NULL, z3.Not(none)), e.new(st, HList())),
                  (t != NULL, Cont(cls, Sym(t, T.STRLIST)))])


def truthy_term(e, v, st):
    """the term of a value, null for everything that is false"""
    if isinstance(v, Union):
        out = NULL
        for g, x in v.alts:
            out = ite(g, truthy_term(e, x, st), out)
        return out
    c = z3.simplify(e.truth(v, st))
    if z3.is_false(c):
        return NULL
    t = e.term(v, st)
    if z3.is_true(c) or e.must(st, c):
        return t
    return ite(c, t, NULL)


def forget(e, v, st):
    """the callee may have changed this object"""
    if isinstance(v, Union):
        for _, x in v.alts:
            forget(e, x, st)
    if isinstance(v, Ref):
        ids = loops.reach([v.id], st, set())
        if ids & (e.shared | e.frozen):
            raise Unsupported('an object that may be shared is handed over')
        for i in ids:
            st.heap[i] = HUnk(e.fresh('after'))


class Derived(Contract):
    """contracts with several arguments"""

    def key(self, e, vals, st):
        raise NotImplementedError()

    def code_handler(self, e, f, args, kw, st):
        return self.handle(e, f, args, kw, st, 'code')

    def spec_handler(self, e, f, args, kw, st):
        return self.handle(e, f, args, kw, st, 'spec')

    def handle(self, e, f, args, kw, st, side):
        vals = positional(e, f, args, kw)
        if isinstance(vals[0], Union):
            return e.split(st, vals[0], lambda s, x: e.call(f, [x] + vals[1:], {}, s))
        if not (isinstance(vals[0], Sym) if side == 'spec' else isinstance(vals[0], View)) or vals[0] is None:
            return NotImplemented
        raw = vals[0] if side == 'spec' else vals[0].raw
        if not is_a(raw.ty, self.ty.arg):
            return NotImplemented
        if side == 'code':
            e.assumed.add(self.name)
        return self.outcome(e, raw, vals, st, side)


def inline_once(e, fn):
    """the first call is executed, the calls within it are replaced by the contract"""
    handler = e.contracts[fn]

    def once(e, f, args, kw, st):
        e.contracts[fn] = handler
        try:
            return e.call_function(fn, args, kw, st)
        finally:
            e.contracts[fn] = once

    e.contracts[fn] = once


class MediaType(Derived):
    fresh = True

    def prepare(self, e):
        inline_once(e, S.schema)

    def outcome(self, e, raw, vals, st, side):
        old = vals[2]
        t = truthy_term(e, old, st)
        forget(e, old, st)
        return self.result(e, st, [raw.t, e.term(vals[1], st), t], side)

    def inputs(self, e, st):
        raw, mime, old = Sym(z3.Const('raw', J), T.ORREF('Parameter')), z3.Const('mime', J), z3.Const('old', J)
        e.typed(raw.t, raw.ty, null=False)
        e.typed(mime, T.STR, null=False)
        obj = loaded(e, st, raw, 'Operation', 'parameters')
        empty = e.new(st, HDict())
        code = optional(e, st, old)
        code = Union([(g, empty if x is None else x) for g, x in code.alts])
        m = Sym(mime, T.STR)
        return [obj, m, code, Sym(z3.Const('path', J), T.STR)], [raw, m, optional(e, st, old)]


class ParameterOf(Derived):
    """from_parameter: a request body, or a parameter"""
    fresh = True
    cases = ('the first', 'one more')

    def request_body(self, e, raw, body, consumes, st, side):
        key = [raw.t, truthy_term(e, body, st), truthy_term(e, consumes, st)]
        e.raise_if(st, lnot(a_body(e, key[1])), Precondition)
        forget(e, body, st)
        ret = REQUEST_BODY.result(e, st, key, side)
        e.fact(body_facts(e, e.term(ret, st)))
        return ret

    def outcome(self, e, raw, vals, st, side):
        body, consumes = vals[1], vals[2]
        target = dereferenced(e, raw)
        flag = is_body(e, target, st, side)

        def yes(s):
            s.env['%val'] = self.request_body(e, raw, body, consumes, s, side)

        def no(s):
            s.env['%val'] = PARAMETER_OR_REF.result(e, s, [raw.t], side)

        e.branch(flag, st, yes, no)
        if st.dead:
            raise Stop()
        return Tup([st.env.pop('%val'), context(flag, target.t)])

    def inputs(self, e, st):
        raw, c = Sym(z3.Const('raw', J), T.ORREF('Parameter')), z3.Const('consumes', J)
        e.typed(raw.t, raw.ty, null=False)
        obj = loaded(e, st, raw, 'Operation', 'parameters')
        consumes = mime_list(e, st, c, 'consumes')
        return [obj, given_body(e, st, self.case), consumes, Sym(z3.Const('path', J), T.STR)], \
            [raw, given_body(e, st, self.case), Sym(c, T.STRLIST)]

    def prepare(self, e):
        for f in (S.request_body, S.is_body, S.parameter_or_ref, S.parameter_of):
            e.contracts.pop(f, None)

    def compare(self, code, spec):
        e = self.e
        if not isinstance(code.val, Tup) or len(code.val.items) != 2:
            raise Unsupported('result of from_parameter')
        val, ctx = code.val.items
        body = e.truth(e.getattr(ctx, 'is_body', code.st), code.st)
        return [(val, spec.val.items[0], 'result'), (body, e.truth(spec.val.items[1], spec.st), 'is a body'),
                (z3.Implies(e.truth(e.getattr(ctx, 'is_file', code.st), code.st), body), z3.BoolVal(True), 'a file is a body')]


def context(flag, target):
    """what is known about the second result of from_parameter"""
    def op(e, st, op, *args):
        if op == 'getattr' and args[0] == 'is_body':
            return e.boolean(flag)
        if op == 'getattr' and args[0] == 'is_file':
            return e.boolean(land(flag, e.app('is_file_context', target, sort=B)))
        raise Unsupported('use of a parameter context: %s' % op)
    return Thing('context', op)


class Response(Derived):
    def outcome(self, e, raw, vals, st, side):
        return self.result(e, st, [raw.t, truthy_term(e, vals[1], st)], side)

    def inputs(self, e, st):
        raw, p = Sym(z3.Const('raw', J), T.ORREF('Response')), z3.Const('produces', J)
        e.typed(raw.t, raw.ty, null=False)
        obj = loaded(e, st, raw, 'Operation', 'responses')
        return [obj, mime_list(e, st, p, 'produces'), Sym(z3.Const('path', J), T.STR)], [raw, Sym(p, T.STRLIST)]


class Operation(Derived):
    cases = ('no body', 'with a body')

    # code: obj, body, root_url, path, produces, consumes; specification: src, body, url, produces, consumes
    def outcome(self, e, raw, vals, st, side):
        body, url = vals[1], vals[2]
        produces, consumes = vals[-2:]
        key = [raw.t, truthy_term(e, body, st), e.term(url, st), truthy_term(e, produces, st), truthy_term(e, consumes, st)]
        e.raise_if(st, lnot(a_body(e, key[1])), Precondition)
        forget(e, body, st)
        return self.result(e, st, key, side)

    def inputs(self, e, st):
        raw = Sym(z3.Const('raw', J), T.O('Operation'))
        c, p, url = z3.Const('consumes', J), z3.Const('produces', J), Sym(z3.Const('url', J), T.STR)
        e.typed(raw.t, raw.ty, null=False)
        e.typed(url.t, T.STR, null=False)
        return [View(self.cls, raw), given_body(e, st, self.case), url, Sym(z3.Const('path', J), T.STR),
                mime_list(e, st, p, 'produces'), mime_list(e, st, c, 'consumes')], \
            [raw, given_body(e, st, self.case), url, Sym(p, T.STRLIST), Sym(c, T.STRLIST)]


class PathItem(Derived):
    # code: obj, root_url, path, consumes, produces; specification: src, ref, url, consumes, produces
    def outcome(self, e, raw, vals, st, side):
        url = vals[1] if side == 'code' else vals[2]
        consumes, produces = vals[-2:]
        key = [raw.t, e.term(url, st), truthy_term(e, consumes, st), truthy_term(e, produces, st)]
        ret = self.result(e, st, key, side)
        if side == 'spec':
            own = normalized(e, raw)
            e.raise_if(st, e.term(vals[1], st) != e.term(own, st), Precondition)
        t = e.app('SPEC_path_item_moved', raw.t)
        e.fact(t != NULL, KIND(t) == 5)
        m = e.new(st, HDict(t))
        e.shared.add(m.id)
        return Tup([ret, m])

    def inputs(self, e, st):
        raw, url = Sym(z3.Const('raw', J), T.O('PathItem')), Sym(z3.Const('url', J), T.STR)
        c, p = z3.Const('consumes', J), z3.Const('produces', J)
        e.typed(raw.t, raw.ty, null=False)
        e.typed(url.t, T.STR, null=False)
        return [View(self.cls, raw), url, Sym(z3.Const('path', J), T.STR), mime_list(e, st, c, 'consumes'),
                mime_list(e, st, p, 'produces')], [raw, normalized(e, raw), url, Sym(c, T.STRLIST), Sym(p, T.STRLIST)]

    def compare(self, code, spec):
        if not isinstance(code.val, Tup) or len(code.val.items) != 2:
            raise Unsupported('result of to_path_item')
        return [(code.val.items[0], spec.val.items[0], 'result'), (code.val.items[1], spec.val.items[1], 'moved')]


class Document(Derived):
    def inputs(self, e, st):
        raw = Sym(z3.Const('raw', J), T.O('Swagger'))
        e.typed(raw.t, raw.ty, null=False)
        refs = Thing('refs', refs_op)
        return [View(self.cls, raw), Sym(z3.Const('path', J), T.STR)], [raw, refs]

    def compare(self, code, spec):
        if not isinstance(code.val, Tup) or len(code.val.items) != 2:
            raise Unsupported('result of to_openapi')
        return [(code.val.items[0], spec.val.items[0], 'result'), (code.val.items[1], spec.val.items[1], 'moved')]


def refs_op(e, st, op, *args):
    """path -> normalized reference of the path item, when it has one"""
    if op == 'method' and args[0] == 'get' or op == 'getattr' and args[0] == 'get':
        if op == 'getattr':
            return Bound(Thing('refs', refs_op), 'get')
        k = args[1][0]
        if isinstance(k, Sym) and k.t.decl().name() == 'key':
            return normalized(e, Sym(ELEM(k.t.arg(0), k.t.arg(1)), T.O('PathItem')))
    raise Unsupported('references of the path items: %s' % op)


def normalized(e, raw):
    """normalized reference of a path item"""
    ref = raw_get(e, raw, '$ref', o20.PathItem)
    t = e.app('NREF', raw.t)
    e.fact(KIND(t) == 2, t != NULL, t != e.lit(''))
    return Union([(ref.t == NULL, None), (ref.t != NULL, Sym(t, T.STR))])


def dereferenced(e, raw):
    """what an object denotes: assumed of deref() after all references are resolved (see C12)"""
    name = raw.ty.arg if raw.ty.kind in ('obj', 'orref') else None
    if name is None:
        raise Unsupported('dereferencing %r' % raw)
    t = e.app('DEREF', raw.t)
    ref = e.lit('$ref')
    e.typed(t, T.O(name), null=False)
    e.get(t, '$ref')
    e.get(raw.t, '$ref')
    e.fact(lnot(HAS(t, ref)), z3.Implies(lnot(HAS(raw.t, ref)), t == raw.t))
    return Sym(t, T.O(name))


def code_deref(e, f, args, kw, st):
    v = args[0]
    if len(args) > 1 or kw:
        return NotImplemented
    if isinstance(v, Union):
        return e.split(st, v, lambda s, x: e.call(f, [x], {}, s))
    if v is None:
        e.throw(st, AttributeError)
    if not isinstance(v, View):
        return NotImplemented
    e.assumed.add('deref')
    raw = dereferenced(e, v.raw)
    return View(getattr(o20, raw.ty.arg), raw)


def spec_deref(e, f, args, kw, st):
    v = args[0]
    if isinstance(v, Union):
        return e.split(st, v, lambda s, x: e.call(f, [x], {}, s))
    if v is None:
        e.throw(st, Domain)
    e.raise_if(st, v.t == NULL, Domain)
    return dereferenced(e, v)


def is_body(e, target, st, side):
    return e.app('IS_BODY', target.t, sort=B)


def attributes(e, obj, args, kw, st):
    """obj.get_attrs('migration')"""
    if args and args[0] == 'migration':
        return Thing('migration', lambda e, s, op, *a: migration_op(e, s, op, obj, *a))
    return NotImplemented


def migration_op(e, st, op, obj, *args):
    if op == 'getattr' and args[0] == 'normalized_ref':
        return normalized(e, obj.raw)
    if op == 'truth':
        return z3.BoolVal(True)
    raise Unsupported('migration attribute: %s %s' % (op, args[:1]))


def spec_compose_url(e, f, args, kw, st):
    return urlunsplit(e, [Tup(list(args) + ['', ''])], {}, st)


def spec_with_scheme(e, f, args, kw, st):
    return urlunsplit(e, [Tup([args[1]] + urlparse(e, args[0], st, 5).items[1:])], {}, st)


def spec_own_copy(e, f, args, kw, st):
    return copy_value(e, args[0], st, True)


class ContentType(Derived):
    """the media type of an encoded field: a string"""

    def value(self, e, t):
        if t.eq(NULL):
            return e.lit('text/plain')
        out = e.app('SPEC_content_type', t)
        e.fact(KIND(out) == 2, out != NULL, e.app('SPEC_content_type', NULL) == e.lit('text/plain'))
        return out

    def handle(self, e, f, args, kw, st, side):
        v = args[0]
        if isinstance(v, Union):
            return e.split(st, v, lambda s, x: e.call(f, [x] + list(args[1:]), {}, s))
        if v is None:
            return 'text/plain'
        if not isinstance(v, (Sym, View)):
            return NotImplemented
        if isinstance(v, View):
            e.assumed.add(self.name)
        return Sym(self.value(e, e.term(v, st)), T.STR)

    def unfold(self, e, t, ty):
        """what the specification says about the media type of 't', in terms of its items"""
        e.typed(t, ty)
        s = State((t != NULL,))
        side, e.side = e.side, 'spec'
        e.raises.append([])
        val = e.call_function(self.spec, [Sym(t, ty)], {}, s)
        e.raises.pop()
        e.side = side
        e.fact(z3.Implies(t != NULL, self.value(e, t) == e.term(val, s)))

    def candidates(self, e, rec, accs, st):
        """loop invariants: a variable holds an attribute of another; the media type stays the same"""
        out = []
        for i, a in enumerate(accs):
            if a.kind != 'view' or a.ty is None:
                continue
            for t in (a.ph, a.init):
                self.unfold(e, t, a.ty)
            key = e.lit('type')
            for j, b in enumerate(accs):
                if j != i and b.sort == J and b.kind == 'sym':
                    e.get(a.ph, 'type')
                    e.fact(GET(NULL, key) == NULL)
                    out.append(lambda v, i=i, j=j: v[j] == GET(v[i], key))
            out.append(lambda v, i=i, a=a: self.value(e, v[i]) == self.value(e, a.init))
        return out

    def verify_for(self, name, keep):
        e = engine()
        self.e = e
        st = State()
        raw = Sym(z3.Const('raw', J), T.O(name))
        e.typed(raw.t, raw.ty, null=False)
        e.candidates.append(self.candidates)
        self.unfold(e, raw.t, raw.ty)
        spec = couple.execute(e, 'spec', st, lambda s: e.call_function(self.spec, [raw], {}, s))
        args = [View(getattr(o20, name), raw), Sym(z3.Const('path', J), T.STR)]
        code = couple.execute(e, 'code', st, lambda s: e.call_function(self.code, args, {}, s))
        obs, log = couple.relate(e, '%s of %s' % (self.name, name), code, spec, keep=keep)
        frame('%s of %s' % (self.name, name), code, obs)
        return e, obs, log

    def verify(self, keep=False):
        if self.code is None:
            raise Unsupported('%s is gone' % self.code_name)
        obs, log = [], []
        for name in ('Items', 'Schema', 'Parameter'):
            e, o, l = self.verify_for(name, keep)
            obs += o
            log += l
        return e, obs, log




CONTRACTS = [
    Contract('external_docs', 'to_external_docs', S.external_docs, 'ExternalDocumentation', partial=True, nonempty=True),
    Contract('xml', 'to_xml', S.xml, 'XMLObject'),
    Contract('tag', 'to_tag', S.tag, 'Tag', partial=True, nonempty=True),
    Contract('contact', 'to_contact', S.contact, 'Contact'),
    Contract('license', 'to_license', S.license_, 'License', partial=True, nonempty=True),
    Contract('info', 'to_info', S.info, 'Info', partial=True, nonempty=True),
    Contract('items', 'from_items', S.items, 'Items'),
    Contract('schema', 'to_schema', S.schema, 'Schema', partial=True),
    Contract('security_scheme', 'to_security_scheme', S.security_scheme, 'SecurityScheme', partial=True, rejects=True,
             nonempty=True),
    Contract('header', 'to_header', S.header, 'Header', rejects=True, nonempty=True),
    Contract('parameter', 'to_parameter', S.parameter, 'Parameter', rejects=True, partial=True, nonempty=True),
    ContentType('content_type', '_decide_encoding_content_type', S.content_type, 'Items'),
    MediaType('media_type', 'to_media_type', S.media_type, 'Parameter', rejects=True, partial=True, nonempty=True),
    ParameterOf('parameter_of', 'from_parameter', S.parameter_of, 'Parameter', rejects=True, partial=True, nonempty=True),
    Response('response', 'to_response', S.response, 'Response', rejects=True, partial=True),
    Operation('operation', 'to_operation', S.operation, 'Operation', rejects=True, partial=True),
    PathItem('path_item', 'to_path_item', S.path_item_and_moved, 'PathItem', rejects=True, partial=True),
    Document('document', 'to_openapi', S.document_and_moved, 'Swagger', rejects=True, partial=True),
]
BY_NAME = {}
for _c in CONTRACTS:
    BY_NAME[_c.name] = _c
REQUEST_BODY = Contract('request_body', '', S.request_body, 'Parameter', rejects=True, partial=True, nonempty=True)
REQUEST_BODY.fresh = True
PARAMETER_OR_REF = Contract('parameter_or_ref', '', S.parameter_or_ref, 'Parameter', rejects=True, partial=True, nonempty=True)


def request_body_spec(e, f, args, kw, st):
    vals = positional(e, f, args, kw)
    if not isinstance(vals[0], Sym):
        return NotImplemented
    return BY_NAME['parameter_of'].request_body(e, vals[0], vals[1], vals[2], st, 'spec')


def jp_compose(e, f, args, kw, st):
    """contract of jp_compose (proved with C01): the base, and the encoded tokens, joined with '/'"""
    segment, base = positional(e, f, args, kw)
    if segment is None:
        return base
    if isinstance(segment, (str, Sym)) and e.stringy(segment):
        tokens = [segment]
    elif isinstance(segment, Ref) and isinstance(st.heap[segment.id], HList) and st.heap[segment.id].base is None and all(
            z3.is_true(g) for g, _ in st.heap[segment.id].items):
        tokens = [v for _, v in st.heap[segment.id].items]
    else:
        return NotImplemented
    parts = []
    if isinstance(base, SV):
        parts = [e.app('prefix', e.term(base, st))]
    elif base:
        parts = [e.lit(base + '/')]
    for i, x in enumerate(tokens):
        if not e.stringy(x):
            raise Unsupported('a token that is no string')
        if i:
            parts.append(e.lit('/'))
        parts.append(encoded(e, x, st))
    return Sym(e.cat(parts), T.STR)


def encoded(e, x, st):
    if isinstance(x, str):
        return e.lit(x.replace('~', '~0').replace('/', '~1'))
    return e.strfun('replace', e.strfun('replace', x.t, ('~', '~0')), ('/', '~1'))


def engine():
    e = Engine('2.0')
    e.contracts[impl.utils.jp_compose] = jp_compose
    for c in CONTRACTS:
        if c.code is not None and c.cls is not None:
            e.contracts[c.code] = c.code_handler
            e.contracts[c.spec] = c.spec_handler
    e.contracts[S.request_body] = request_body_spec
    e.contracts[S.parameter_or_ref] = PARAMETER_OR_REF.spec_handler
    e.contracts[S.is_body] = lambda e, f, args, kw, st: e.boolean(is_body(e, args[0], st, 'spec'))
    e.contracts[impl.utils.deref] = code_deref
    e.contracts[S.deref] = spec_deref
    e.contracts[S.compose_url] = spec_compose_url
    e.contracts[S.with_scheme] = spec_with_scheme
    e.contracts[S.own_copy] = spec_own_copy
    e.things[('method', 'get_attrs')] = attributes
    e.candidates.append(bodies)
    return e


def main(names, contracts=None, by_name=None):
    import traceback
    by_name = by_name or BY_NAME
    for n in names or [c.name for c in contracts or CONTRACTS]:
        t = time.time()
        try:
            e, obs, log = by_name[n].verify()
        except Unsupported as x:
            print(n, 'UNSUPPORTED', x)
            traceback.print_exc(limit=-12)
            continue
        bad = [o for o in obs if o.status != 'proved']
        print('%-16s %3d obligations, %d not proved, %.2fs (solver %.2fs) facts %d' % (
            n, len(obs), len(bad), time.time() - t, sum(o.time for o in obs), len(e.facts)))
        for l in log:
            print('   ', l)
        for o in bad[:4]:
            print('  ', o)
            print('      ' + o.output[:1800].replace('\n', '\n      '))


if __name__ == '__main__':
    import sys
    main(sys.argv[1:])
