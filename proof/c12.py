"""C12: references are linked to the object they denote, cycles are reported"""
from lib import impl  # noqa: finds the package
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.values import Unsupported
from proof.engine import source

CH = z3.Function('chain', I, V)
HASREF = z3.Function('has_ref', I, B)


def graph(timeout=10000):
    """a verifier that knows loaded objects, their $ref and what was attached to them"""
    from pyopenapi.migration.spec import obj, attr
    e = DV(timeout)
    O, A = obj.Base2Obj, attr.AttributeGroup

    def ref(e, st, x):
        out = []
        for s, there in e.fork(st, HASREF(e.ident(x))):
            out.append((s, e.read(z3.Select(e.mem(s, 'attr.ref'), e.ident(x)), ('opt', 'str'), s) if there else Ellipsis))
        return out

    def set_ref(e, st, x, val):
        s = st.clone()
        e.put(s, 'attr.ref', e.ident(x), e.v(val, s))
        return [(s, None)]
    e.attrs[(O, 'ref')] = ref
    e.attrs[(O, 'ref', 'set')] = set_ref
    e.attrs[(O, '$ref')] = lambda e, st, x: [(st, Ellipsis)]        # no class has it
    e.fields[O] = {'attrs': ('dict', ('obj', A))}
    kinds = {'ref_obj': ('opt', ('obj', O)), 'final_obj': ('opt', ('obj', O)), 'normalized_ref': ('opt', 'str')}
    e.fields[A] = {'attrs': ('dict', None)}

    def group(name):
        """attribute of a group, as proof of attr() has it: what was set, or None"""
        def get(e, st, x):
            d = e.read(z3.Select(e.mem(st, 'attr.attrs'), e.ident(x)), ('dict', None), st)
            k = V.str(z3.StringVal(name))
            t = z3.If(z3.Select(e.has(d, st), k), z3.Select(e.val(d, st), k), NONE)
            return [(st, e.read(t, kinds[name], st))]

        def set_(e, st, x, val):
            d = e.read(z3.Select(e.mem(st, 'attr.attrs'), e.ident(x)), ('dict', None), st)
            return [(s, None) for s in dvlib.setitem(e, d, name, val, st)]
        e.attrs[(A, name)] = get
        e.attrs[(A, name, 'set')] = set_
    for n in kinds:
        group(n)
    return e, O, A


def text(s):
    return V.str(z3.StringVal(s))


def group_of(e, st, x):
    """the attributes for 'migration' of an object, or None"""
    d = V.id(z3.Select(e.mem(st, 'attr.attrs'), V.id(x)))
    k = text('migration')
    return z3.If(z3.Select(z3.Select(e.mem(st, 'has'), d), k), z3.Select(z3.Select(e.mem(st, 'val'), d), k), NONE)


def attached(e, st, x, name):
    """what was attached to an object, or None"""
    g = group_of(e, st, x)
    d = V.id(z3.Select(e.mem(st, 'attr.attrs'), V.id(g)))
    k = text(name)
    return z3.If(z3.And(g != NONE, z3.Select(z3.Select(e.mem(st, 'has'), d), k)), z3.Select(z3.Select(e.mem(st, 'val'), d), k), NONE)


def linked(e, st, x):
    """a reference, linked to what it denotes"""
    return z3.And(x != NONE, HASREF(V.id(x)), z3.Select(e.mem(st, 'attr.ref'), V.id(x)) != NONE, attached(e, st, x, 'ref_obj') != NONE)


def deref(keep):
    from pyopenapi import utils, errs
    e, O, A = graph()
    st = St()
    obj = z3.Const('obj', V)
    e.fact(e.is_kind(obj, ('opt', ('obj', O))), z3.Implies(V.is_ref(obj), V.id(obj) >= 0))
    st0 = st.clone()
    for n in ('attr.ref', 'attr.attrs', 'has', 'val'):
        e.mem(st0, n)
        e.mem(st, n)

    def link(x):
        return linked(e, st0, x)

    def step(n):
        """the definition of the chain"""
        e.fact(z3.Implies(n >= 0, CH(n + 1) == z3.If(link(CH(n)), attached(e, st0, CH(n), 'ref_obj'), CH(n))))
    e.fact(CH(z3.IntVal(0)) == obj)

    def chain(L, s):
        out = []
        for i, q in L.lists(s):
            n = length(q)
            step(n - 1)
            out.append(('visited the chain so far', z3.And(n >= 1, all_of(q, lambda x, i: x == CH(i)))))
            out.append(('all but the last are linked', all_of(q, lambda x, i: z3.Implies(i < n - 1, link(x)))))
            out.append(('elements', all_of(q, lambda x, i: z3.Select(els(q), x))))
            out.append(('none twice', all_pairs(q, lambda x, y: x != y)))
            for name in L.names:
                x = s.env[name]
                if x is None or isinstance(x, Z) and x.kind == ('obj', O):
                    out.append(('? %s is the last visited' % name, e.v(x, s) == CH(n - 1)))
        return out
    e.candidates.append(chain)
    e.expect |= {'visited the chain so far', 'all but the last are linked', 'none twice'}
    res, exc = e.execute(utils.deref, [Z(obj, ('obj', O))], st)
    for n, (s, v) in enumerate(res):
        t = e.v(v, s)
        x = e.mem(s, 'seq')
        lists = [tidy(z3.Select(x, i)) for i in idents(x)]
        ends = [length(q) - 1 for q in lists] + [z3.IntVal(0)]
        e.prove('%s: the result is on the chain' % n, s, lor(*[z3.And(t == CH(i), i >= 0) for i in ends]), keep)
        e.prove('%s: the result is not a linked reference' % n, s, z3.Not(link(t)), keep)
        e.prove('%s: all before it on the chain are' % n, s, z3.And(*[z3.Implies(
            t == CH(length(q) - 1), all_of(q, lambda x, i: z3.Implies(i < length(q) - 1, z3.And(x == CH(i), link(x))))) for q in lists]), keep)
        for m in ('attr.ref', 'attr.attrs', 'has', 'val'):
            e.prove('%s: %s as before' % (n, m), s, e.mem(s, m) == e.mem(st0, m), keep)
    for n, (s, c, _) in enumerate(exc):
        if c is not errs.CycleDetectionError:
            e.prove('error %s: no other error' % n, s, FALSE, keep)
            continue
        x = e.mem(s, 'seq')
        lists = [tidy(z3.Select(x, i)) for i in idents(x)]
        cyc = []
        for q in lists:
            # the object after the last visited one is among those visited
            last = length(q) - 1
            step(last)
            y = CH(last + 1)
            cyc.append(z3.And(link(CH(last)), e.member(q, y), z3.And(0 <= WIT(q, y), WIT(q, y) <= last, CH(WIT(q, y)) == y)))
        e.prove('error %s: the chain comes back to an object it passed' % n, s, lor(*cyc), keep)
    e.invariant('every iteration visits an object that was not visited before: a cyclic chain cannot go on for ever', 'none twice')
    return e.finish()


def idents(x):
    """ids of the lists that were written to"""
    out = []
    while z3.is_store(x):
        if not any(i.eq(x.arg(1)) for i in out):
            out.append(x.arg(1))
        x = x.arg(0)
    return out


#
# attached attributes
#

def attribute(keep):
    """attr(): an attribute of a group is what was set last, or the default"""
    from pyopenapi.migration.spec import attr
    e = DV()
    A = attr.AttributeGroup
    e.fields[A] = {'attrs': ('dict', None)}
    k, other = z3.Strings('key other')
    x, d, val = z3.Consts('self default val', V)
    e.fact(V.is_ref(x), V.id(x) >= 0, other != k)
    obj = Z(x, ('obj', A))
    st = St()
    (made, prop), = e.execute(attr.attr, [ZS(k), False, Z(d)], st)[0]
    here, = e.getattr(obj, 'attrs', made)
    st, dic = here
    has, vals = e.has(dic, st), e.val(dic, st)
    for n, (s, v) in enumerate(e.execute(prop.items[0], [obj], st)[0]):
        e.prove('%s: read' % n, s, e.v(v, s) == z3.If(z3.Select(has, V.str(k)), z3.Select(vals, V.str(k)), d), keep)
        e.prove('%s: reading changes nothing' % n, s, land(*[e.mem(s, m) == e.mem(st, m) for m in s.mem]), keep)
    e.prove('reading is no error', st, z3.BoolVal(not e.sink[0]), keep)
    for n, (s, v) in enumerate(e.execute(prop.items[1], [obj, Z(val)], st)[0]):
        e.prove('%s: set' % n, s, z3.And(e.has(dic, s) == z3.Store(has, V.str(k), TRUE), e.val(dic, s) == z3.Store(vals, V.str(k), val)), keep)
        i = z3.Int('another')
        e.prove('%s: nothing else is set' % n, s, z3.Implies(i != e.ident(dic), z3.And(*[
            z3.Select(e.mem(s, m), i) == z3.Select(e.mem(st, m), i) for m in s.mem])), keep)
    e.prove('setting is no error', st, z3.BoolVal(not e.sink[0]), keep)
    return e.finish()


#
# linking
#

LEVEL, OWNER = z3.Function('level', I, I), z3.Function('owner', I, I)
MEM = ('attr.ref', 'attr.attrs', 'has', 'val')
F = z3.Function('resolved', V, V, V, V, V, V)
G = z3.Function('resolved_ref', V, V, V, V, V, V)
URL, FRAG = z3.Function('url_of', S, S), z3.Function('pointer_of', S, S)


def own(e, st, x, must=False):
    """every object has its own attributes"""
    d = V.id(z3.Select(e.mem(st, 'attr.attrs'), V.id(x)))
    g = group_of(e, st, x)
    gd = V.id(z3.Select(e.mem(st, 'attr.attrs'), V.id(g)))
    return z3.And(V.is_ref(x), LEVEL(V.id(x)) == 0, d >= 0, LEVEL(d) == 1, OWNER(d) == V.id(x), V.is_ref(z3.Select(e.mem(st, 'attr.attrs'), V.id(x))),
                  z3.Implies(g != NONE, z3.And(V.is_ref(g), V.id(g) >= 0, LEVEL(V.id(g)) == 2, OWNER(V.id(g)) == V.id(x),
                                               V.is_ref(z3.Select(e.mem(st, 'attr.attrs'), V.id(g))),
                                               gd >= 0, LEVEL(gd) == 3, OWNER(gd) == V.id(x))),
                  ISDICT(d), z3.Implies(g != NONE, ISDICT(gd)))


def state_of(e, st, x):
    return [z3.Select(e.mem(st, 'attr.ref'), V.id(x)), attached(e, st, x, 'ref_obj'), attached(e, st, x, 'normalized_ref')]


def same_state(e, s, t, x):
    return z3.And(*[a == b for a, b in zip(state_of(e, s, x), state_of(e, t, x))])


def resolving(e, O, others, calls):
    """the contract of app.resolve_obj: what was linked before stays as it is, and so do the references 'others'"""
    def resolve_obj(e, st, o, args, kw):
        from pyopenapi.migration.base import ApiBase
        full = e.bind(source(ApiBase.resolve_obj).args, ApiBase.resolve_obj.__defaults__, [o] + list(args), kw, 'resolve_obj')
        for name in ('jref', 'from_spec_version', 'parser', 'to_spec_version', 'remove_dummy'):
            if name not in full:
                raise Unsupported('resolve_obj without %s' % name)
        a = [opaque(e, full[n], st) for n in ('jref', 'from_spec_version', 'parser', 'to_spec_version', 'remove_dummy')]
        before = st.clone()
        bad = st.clone()
        e.throw(bad, RuntimeError)      # whatever is raised goes through
        s = st.clone()
        for m in MEM:
            e.mem(s, m)
            s.mem[m] = e.fresh('mem.' + m, e.mem(st, m).sort())
        s.keys = {}
        for x in others:
            s.pc += (z3.Implies(x != NONE, own(e, s, x)),)
            s.pc += (z3.Implies(z3.And(x != NONE, attached(e, before, x, 'ref_obj') != NONE), same_state(e, before, s, x)),)
        x = others[0]
        s.pc += (z3.Implies(x != NONE, z3.And(same_state(e, before, s, x), group_of(e, s, x) == group_of(e, before, x))),)
        r, ref = F(*a), G(*a)
        e.fact(V.is_str(ref), e.is_kind(r, ('opt', ('obj', O))), z3.Implies(r != NONE, V.id(r) >= 0))
        s.pc += (z3.Implies(r != NONE, own(e, s, r)),)
        s.ghost['called'] = e.v(True, s)
        s.ghost['result'], s.ghost['ref'] = r, ref
        for m in MEM:
            s.ghost['after ' + m] = s.mem[m]
        calls.append((before, a))
        return [(s, Tup([Z(r, ('obj', O)), ZS(V.s(ref))]))]
    e.methods[('app', 'resolve_obj')] = resolve_obj


def opaque(e, x, st):
    try:
        return e.v(x, st)
    except Unsupported:
        if isinstance(x, SV):
            raise
        return V.cls(z3.IntVal(e.code(x)))


def resolve_unit(version, kind):
    """_resolve: links a reference to what its normalized target denotes"""
    def unit(keep):
        from pyopenapi.migration import versions
        import importlib
        from pyopenapi import errs
        pkg = 'pyopenapi.migration.versions.v%s' % version.replace('.', '_')
        mod = importlib.import_module(pkg + '.scanner.resolve')
        objects = importlib.import_module(pkg + '.objects')
        attrs = importlib.import_module(pkg + '.attrs')
        e, O, A = graph()
        st = St()
        obj, g, path = z3.Consts('obj g path', V)
        expected = objects.Schema
        e.fact(e.is_kind(obj, ('opt', ('obj', O))), e.is_kind(g, ('obj', O)), V.id(g) >= 0, z3.Implies(V.is_ref(obj), V.id(obj) >= 0),
               z3.Implies(obj != g, V.id(obj) != V.id(g)))
        for m in MEM:
            e.mem(st, m)
        e.fact(z3.Implies(obj != NONE, own(e, st, obj)), own(e, st, g))
        kinds = [c for c in (objects.Reference, objects.PathItem, getattr(objects, 'Schema')) if c is not None]
        codes = dict((c, ISA(V.id(obj), z3.IntVal(e.code(c)))) for c in kinds)
        ref = z3.Select(e.mem(st, 'attr.ref'), V.id(obj))
        e.fact(z3.Or(ref == NONE, V.is_str(ref)))
        is_ref, is_path, is_schema = [codes[c] for c in (objects.Reference, objects.PathItem, objects.Schema)]
        others = z3.Not(z3.Or(*codes.values()))
        e.fact(z3.AtMost(is_ref, is_path, is_schema, 1))
        # these kinds have a $ref, a 3.0.0 schema has none
        has = [is_ref, is_path] + ([is_schema] if version == '2.0' else [])
        e.fact(z3.Implies(z3.And(obj != NONE, z3.Or(*has)), HASREF(V.id(obj))))
        e.methods[('instance', O)] = lambda e, s, x, cls: ISA(e.ident(x), z3.IntVal(e.code(cls)))
        calls = []
        resolving(e, O, [obj, g], calls)
        e.fields['app'] = {'original_spec_version': 'str'}
        app = Z(V.ref(z3.IntVal(10 ** 6)), ('obj', 'app'))
        e.fact(LEVEL(z3.IntVal(10 ** 6)) == 9)
        orig = z3.String('original_spec_version')
        e.fact(z3.Select(e.mem(st, 'attr.original_spec_version'), z3.IntVal(10 ** 6)) == V.str(orig))
        st0 = st.clone()
        truth = land(obj != NONE, HASREF(V.id(obj)), ref != NONE, V.s(ref) != z3.StringVal(''))
        link0, norm0 = attached(e, st, obj, 'ref_obj'), attached(e, st, obj, 'normalized_ref')
        e.fact(z3.Or(norm0 == NONE, V.is_str(norm0)))
        some = z3.And(norm0 != NONE, V.s(norm0) != z3.StringVal(''))
        if version == '2.0':
            cls = getattr(attrs, kind + 'AttributeGroup')
            e.fact({'Reference': is_ref, 'PathItem': is_path, 'Schema': is_schema}[kind] if kind != 'Schema' else z3.Or(is_schema, others))
            args = [Z(obj, ('obj', O)), expected, cls, app, Z(path, 'str')]
            e.fact(z3.Or(path == NONE, V.is_str(path)))
            wanted = z3.And(truth, z3.Not(others), link0 == NONE, some)
            rejected = z3.And(truth, others)
            missing = z3.And(truth, z3.Not(others), link0 == NONE, z3.Not(some))
            call = [norm0, text('2.0'), V.cls(z3.IntVal(e.code(expected))), NONE, V.bool(TRUE)]
        else:
            args = [Z(obj, ('obj', O)), expected, app, Z(path, 'str')]
            e.fact(z3.Or(path == NONE, V.is_str(path)))
            this = z3.And(obj != NONE, z3.Or(is_ref, is_path))
            e.fact(z3.Implies(z3.And(this, some), V.is_str(ref)))       # it was normalized, so it has one
            wanted = z3.And(this, link0 == NONE, some)
            rejected = FALSE
            missing = z3.And(this, is_ref, z3.Not(some))
            call = [norm0, V.str(z3.If(orig == z3.StringVal('3.0.0'), orig, z3.StringVal('2.0'))), V.cls(z3.IntVal(e.code(expected))),
                    text('3.0.0'), V.bool(TRUE)]

            def again(e, st, a, kw):
                """the contract of _resolve, for what the reference denotes"""
                x = e.v(a[0], st)
                if not (a[1] is expected and a[2] is app):
                    raise Unsupported('another call of _resolve')
                s0, s = st.clone(), st.clone()
                e.throw(st.clone(), errs.JsonReferenceError)
                for m in MEM:
                    s.mem[m] = e.fresh('mem.' + m, e.mem(st, m).sort())
                s.keys = {}
                for y in (obj, g):
                    s.pc += (z3.Implies(z3.And(y != NONE, attached(e, s0, y, 'ref_obj') != NONE), same_state(e, s0, s, y)),
                             z3.Implies(y != NONE, own(e, s, y)))
                s.pc += (z3.Implies(z3.And(x != NONE, ISA(V.id(x), z3.IntVal(e.code(objects.Reference)))), z3.And(
                    attached(e, s, x, 'ref_obj') != NONE, own(e, s, x))),)
                for m in MEM:
                    s.ghost['after ' + m] = s.mem[m]
                s.ghost['again'] = x
                return [(s, None)]

            def jr_split(e, st, a, kw):
                x = e.s(a[0])
                return [(st, Tup([ZS(URL(x)), ZS(FRAG(x))]))]
            from pyopenapi import utils
            e.contracts[utils.jr_split] = jr_split
        for m in MEM:
            st.ghost['after ' + m] = e.mem(st, m)
        st.ghost.update({'called': V.bool(FALSE), 'result': NONE, 'ref': NONE, 'again': NONE})
        fn = mod._resolve
        node = source(fn)
        env = e.bind(node.args, fn.__defaults__ or (), args, {}, fn.__name__)
        if version != '2.0':
            e.contracts[fn] = again
        e.used.add(fn.__module__ + '.' + fn.__qualname__)
        e.sink = [[]]
        res = e.run(node, env, Frame(fn.__globals__, fn.__qualname__, None), st)
        exc = e.sink[0]
        e.ends += [x[0] for x in res] + [x[0] for x in exc]
        for n, (s, v) in enumerate(res):
            called = s.ghost['called'] == V.bool(TRUE)
            r, newref = s.ghost['result'], s.ghost['ref']
            e.prove('%s: resolves what is to be linked' % n, s, called == wanted, keep)
            e.prove('%s: the normalized target is resolved' % n, s, z3.Implies(called, z3.And(r == F(*call), newref == G(*call))), keep)
            e.prove('%s: linked to what was found' % n, s, z3.Implies(wanted, z3.And(r != NONE, attached(e, s, obj, 'ref_obj') == r)), keep)
            if version != '2.0':
                e.prove('%s: rewritten' % n, s, z3.Implies(wanted, z3.And(
                    attached(e, s, obj, 'normalized_ref') == newref,
                    z3.Select(e.mem(s, 'attr.ref'), V.id(obj)) == z3.If(z3.PrefixOf(z3.StringVal('#'), V.s(ref)),
                                                                         V.str(FRAG(V.s(newref))), newref))), keep)
                e.prove('%s: a reference that was found is linked, too' % n, s, z3.Implies(
                    z3.And(wanted, r != obj, ISA(V.id(r), z3.IntVal(e.code(objects.Reference)))), attached(e, s, r, 'ref_obj') != NONE), keep)
                e.prove('%s: a reference ends linked' % n, s, z3.Implies(
                    z3.And(obj != NONE, is_ref), attached(e, s, obj, 'ref_obj') != NONE), keep)
                e.prove('%s: what was linked stays as it is' % n, s, z3.Implies(z3.And(
                    attached(e, st0, g, 'ref_obj') != NONE), same_state(e, st0, s, g)), keep)
            else:
                e.prove('%s: $ref as it was' % n, s, z3.Implies(obj != NONE, z3.Select(e.mem(s, 'attr.ref'), V.id(obj)) == ref), keep)
                e.prove('%s: the normalized target as it was' % n, s, z3.Implies(obj != NONE, attached(e, s, obj, 'normalized_ref') == norm0), keep)
                e.prove('%s: another reference as it was' % n, s, z3.Implies(
                    z3.And(g != obj, attached(e, st0, g, 'ref_obj') != NONE), same_state(e, st0, s, g)), keep)
            e.prove('%s: otherwise as it was' % n, s, z3.Implies(z3.And(z3.Not(wanted), obj != NONE), same_state(e, st0, s, obj)), keep)
            e.prove('%s: no error is due' % n, s, z3.Not(z3.Or(rejected, missing)), keep)
        for n, (s, c, _) in enumerate(exc):
            called = s.ghost['called'] == V.bool(TRUE)
            if c is RuntimeError:
                continue
            if c is errs.SchemaError:
                e.prove('error %s: only for what can not be a reference' % n, s, rejected, keep)
            elif c is errs.JsonReferenceError:
                e.prove('error %s: there is no target, or nothing was found' % n, s, z3.Or(
                    missing, z3.And(wanted, called, s.ghost['result'] == NONE), s.ghost['again'] != NONE,
                    z3.And(wanted, called, s.ghost['result'] != NONE) if version != '2.0' else FALSE), keep)
            else:
                e.prove('error %s (%s): no other error' % (n, c.__name__), s, FALSE, keep)
        return e.finish()
    return unit


#
# who is asked to be linked
#

POS = z3.Function('parser_of_position', I, I)
PKG = 'pyopenapi.migration.versions.v%s.'
ROOTS = {'2.0': 'Swagger', '3.0.0': 'OpenApi'}


def modules(version, *names):
    import importlib
    pkg = PKG % version.replace('.', '_')
    return [importlib.import_module(pkg + n) for n in names]


def or_reference(t):
    """what a position that may hold a reference holds, or None"""
    u = t
    while u.kind in ('list', 'map', 'orbool'):
        u = u.arg
    return u.arg if u.kind == 'orref' else None


def handlers_of(mod, name):
    """class -> functions that the scanner calls for its objects"""
    from pyopenapi.migration import scan
    cls = getattr(mod, name)
    disp = [x for x in vars(cls).values() if isinstance(x, scan.DispatcherMeta)]
    if len(disp) != 1:
        raise Unsupported('%s has no dispatcher, or several' % name)
    return cls, disp[0].obj_route


def node_of(e, st, version, cls, objects, tag):
    """an object of a class, and what it holds at the places of references: -> (value, [(type, kind of object, term)])"""
    from contracts import tables, aliases
    O = ('node', tag)
    o = Z(V.ref(z3.Int('obj')), ('obj', O))
    e.fact(z3.Int('obj') >= 0)
    places = []
    for key, (t, _) in sorted(tables.keys(version, cls).items()):
        what = or_reference(t)
        if what is None:
            continue
        names = [key] + [a for a, k in aliases.ALIASES[version].get(cls, {}).items() if k == key]
        kind = {'list': ('list', ('obj', 'child')), 'map': ('dict', ('obj', 'child'), 'str'), 'orref': ('obj', 'child'), 'orbool': None}[t.kind]
        if t.kind in ('list', 'map') and t.arg.kind != 'orref':
            raise Unsupported('nested containers')
        term = z3.Const('at ' + key, V)
        e.fact(e.is_kind(term, ('opt', kind)) if kind else z3.Or(term == NONE, V.is_bool(term), e.is_kind(term, ('obj', 'child'))),
               z3.Implies(V.is_ref(term), V.id(term) >= 0))
        for n in names:
            e.attrs[(O, n)] = lambda e, st, x, term=term, kind=kind: [(st, e.value(term, kind))]
        places.append((t.kind, what, key, term))
    return o, places


def asked_unit(version, cls):
    """every place of an object that may hold a reference is linked, with the parser of that place"""
    def unit(keep):
        from pyopenapi import utils
        mod, objects, attrs = modules(version, 'scanner.resolve', 'objects', 'attrs')
        e = DV()
        e.solver.set('timeout', 300)
        st = St()
        app, path = Z(V.ref(z3.IntVal(10 ** 6)), ('obj', 'app')), ZS(z3.String('path'))
        scanner, route = handlers_of(mod, 'Resolve')
        c = getattr(objects, cls)
        obj, places = node_of(e, st, version, cls, objects, cls)
        e.fields[scanner] = {'app': ('obj', 'app')}
        me = Z(V.ref(z3.IntVal(10 ** 6 + 1)), ('obj', scanner))
        e.fact(z3.Select(e.mem(st, 'attr.app'), z3.IntVal(10 ** 6 + 1)) == app.t)
        groups = {}
        wanted = {}

        def expect(what):
            """the parser of a position, and the group of what may be there"""
            x = getattr(objects, what)
            if what not in wanted:
                wanted[what] = e.code(x)
            return z3.IntVal(wanted[what])
        for kind, what, key, term in places:
            p = expect(what + 'OrReference')
            # each object has one place
            if kind == 'list':
                q = e.seq(Z(term, ('list', ('obj', 'child'))), st)
                e.fact(z3.Implies(term != NONE, all_of(q, lambda x, i: z3.Implies(x != NONE, POS(V.id(x)) == p))))
            elif kind == 'map':
                d = Z(term, ('dict', ('obj', 'child'), 'str'))
                h, v = e.has(d, st), e.val(d, st)
                k = z3.Const('k?', V)
                e.fact(z3.ForAll([k], z3.Implies(z3.And(term != NONE, z3.Select(h, k), z3.Select(v, k) != NONE), POS(V.id(z3.Select(v, k))) == p),
                                 patterns=[z3.Select(v, k)]))
            else:
                e.fact(z3.Implies(V.is_ref(term), POS(V.id(term)) == p))
        from contracts import tables
        own_ref = cls != 'Reference' and '$ref' in tables.keys(version, cls)
        if own_ref:
            e.fact(POS(z3.Int('obj')) == expect(cls))

        def ask(e, st, args, kw):
            a = list(args) + list(kw.values())
            x = args[0]
            parser = [y for y in a if not isinstance(y, SV) and callable(y) and any(y is getattr(objects, w) for w in wanted)]
            if version == '2.0':
                group = [y for y in a if isinstance(y, type) and y.__module__ == attrs.__name__]
                ok = [getattr(attrs, (cls if e.v(x, st).eq(obj.t) else 'Reference') + 'AttributeGroup')]
                parser = parser if group == ok else []
            bad = TRUE if len(parser) != 1 else None
            t = e.v(x, st)
            code = z3.IntVal(e.code(parser[0])) if parser else z3.IntVal(-1)
            if bad is None:
                bad = z3.Or(z3.Not(lor(*[y.t == app.t for y in a if isinstance(y, Z)])), z3.And(t != NONE, z3.Or(z3.Not(V.is_ref(t)), POS(V.id(t)) != code)))
            s = st.clone()
            s.ghost['wrong'] = z3.Or(s.ghost['wrong'], bad)
            for g, x, *_ in some:
                s.ghost[g] = z3.Or(s.ghost[g], t == x)
            return [(s, None)]
        e.contracts[mod._resolve] = ask
        e.contracts[utils.jp_compose] = lambda e, st, a, kw: [(st, ZS(e.fresh('pointer', S)))]
        # an arbitrary object at each place: (ghost, object, is it there, where, id of the container)
        some = []
        for kind, what, key, term in places:
            if kind == 'list':
                q, i = e.seq(Z(term, ('list', ('obj', 'child'))), st), z3.Int('position in ' + key)
                some.append(('asked ' + key, nth(q, i), z3.And(term != NONE, 0 <= i, i < length(q)), i, V.id(term)))
            elif kind == 'map':
                d, k = Z(term, ('dict', ('obj', 'child'), 'str')), z3.Const('name in ' + key, V)
                some.append(('asked ' + key, z3.Select(e.val(d, st), k), z3.And(term != NONE, z3.Select(e.has(d, st), k)), k, V.id(term)))
            else:
                some.append(('asked ' + key, term, V.is_ref(term), None, None))
        if own_ref:
            some.append(('asked $ref', obj.t, TRUE, None, None))
        st.ghost['wrong'] = FALSE
        for g, *_ in some:
            st.ghost[g] = FALSE

        def progress(L, s):
            out = []
            if 'wrong' not in [l[1] for l in L.changed if l[0] == 'ghost']:
                return out
            out.append(('nothing wrong', z3.Not(s.ghost['wrong'])))
            seen, pos = L.seen(s), L.pos(s)
            for g, x, there, where, ident in some:
                out.append(('%s before' % g, z3.Implies(L.entry.ghost[g], s.ghost[g])))
                for kind, i in L.coll if where is not None else []:
                    if pos is not None and kind == 'seq' and i.eq(tidy(ident)):
                        out.append(('%s the elements so far' % g, z3.Implies(z3.And(there, where < pos), s.ghost[g])))
                    if seen is not None and kind == 'has' and i.eq(tidy(ident)):
                        out.append(('%s the entries so far' % g, z3.Implies(z3.And(there, z3.Select(seen, where)), s.ghost[g])))
            return out
        e.candidates.append(progress)
        live = [st]
        for fn in route.get(c, []):
            nxt = []
            for s in live:
                res, exc = e.execute(fn, [me, path, obj], s)
                for x, cl, _ in exc:
                    e.prove('no error', x, FALSE, keep)
                nxt += [x for x, _ in res]
            live = nxt
        for n, s in enumerate(live):
            e.prove('%s: each with the parser of its place, nothing else' % n, s, z3.Not(s.ghost['wrong']), keep)
            for g, x, there, *_ in some:
                e.prove('%s: %s is linked' % (n, g[6:]), s, z3.Implies(z3.And(there, x != NONE), s.ghost[g]), keep)
        return e.finish()
    return unit


def holders(version):
    """the classes of the specification that hold references, or are references"""
    from contracts import tables
    return sorted(c for c in tables.VERSIONS[version] if c != 'Reference' and (
        '$ref' in tables.keys(version, c) or any(or_reference(t) for t, _ in tables.keys(version, c).values())))


#
# normalization
#

NJ = z3.Function('normalized', V, V, V)


def normalized_unit(version, cls):
    """the normalized target of a reference is its $ref, relative to the document"""
    def unit(keep):
        from pyopenapi import utils
        mod, = modules(version, 'scanner.norm_ref')
        objects, = modules(version, 'objects')
        e, O, A = graph()
        st = St()
        scanner, route = handlers_of(mod, 'NormalizeRef')
        base, obj, g, path = z3.Consts('base_url obj g path', V)
        me = e.new(st, ('obj', scanner))
        e.fact(z3.Or(base == NONE, V.is_str(base)))
        e.contracts[utils.normalize_jr] = lambda e, st, a, kw: normal(e, st, list(a) + list(kw.values()))

        def normal(e, st, a):
            s = st.clone()
            r = NJ(e.v(a[0], s), e.v(a[1] if len(a) > 1 else None, s))
            return [(s, e.read(r, ('opt', 'str'), s))]
        for m in MEM:
            e.mem(st, m)
        (made, _), = e.execute(scanner.__init__, [me, Z(base, 'str')], st)[0]
        for m in MEM:
            if not made.mem[m].eq(st.mem[m]):
                raise Unsupported('the constructor changes objects')
        e.fact(e.is_kind(obj, ('obj', O)), e.is_kind(g, ('obj', O)), V.id(obj) >= 0, V.id(g) >= 0, own(e, st, obj), own(e, st, g), HASREF(V.id(obj)))
        ref = z3.Select(e.mem(st, 'attr.ref'), V.id(obj))
        e.fact(z3.Or(ref == NONE, V.is_str(ref)))
        live = [made]
        for fn in route.get(getattr(objects, cls), []):
            nxt = []
            for s in live:
                res, exc = e.execute(fn, [me, ZS(V.s(path)), Z(obj, ('obj', O))], s)
                for x, cl, _ in exc:
                    e.prove('no error', x, FALSE, keep)
                nxt += [x for x, _ in res]
            live = nxt
        some = z3.And(ref != NONE, V.s(ref) != z3.StringVal(''))
        for n, s in enumerate(live):
            e.prove('%s: normalized' % n, s, z3.Implies(some, attached(e, s, obj, 'normalized_ref') == NJ(ref, base)), keep)
            e.prove('%s: no reference, nothing changes' % n, s, z3.Implies(z3.Not(some), same_state(e, st, s, obj)), keep)
            e.prove('%s: $ref and link as before' % n, s, z3.And(*[a == b for a, b in list(zip(state_of(e, st, obj), state_of(e, s, obj)))[:2]]), keep)
            e.prove('%s: other objects as before' % n, s, z3.Implies(g != obj, same_state(e, st, s, g)), keep)
        if not live:
            e.prove('it ends', st, FALSE, keep)
        return e.finish()
    return unit

ASSUMPTIONS = [
    'deref, _resolve: an object keeps its attached attributes in a dict of its own (AttributeGroup, Base2Obj.get_attrs: one group per '
    'object and namespace)',
    'app.resolve_obj: what was linked before the call stays linked as it was (contract assumed for the recursion through the loader; '
    'C14 and C15 speak about what it finds); any exception it raises goes through',
    '_resolve of 3.0.0 calling itself: its own contract; the recursion ends (chains of references that end in themselves are reported '
    'by the store, bounded legs only)',
    'each object lies in one place of the document (objects are made per position, C06)',
    'the scanner calls each handler with every object of the class it is registered for (decided by C06)',
    'weakref.proxy(obj) behaves as obj',
]

UNITS = [('deref', deref), ('attr', attribute)] + [
    ('_resolve 2.0 ' + k, resolve_unit('2.0', k)) for k in ('Reference', 'PathItem', 'Schema')] + [
    ('_resolve 3.0.0', resolve_unit('3.0.0', None))] + [
    ('Resolve %s %s' % (v, c), asked_unit(v, c)) for v in ('2.0', '3.0.0') for c in holders(v)] + [
    ('NormalizeRef %s %s' % (v, c), normalized_unit(v, c)) for v, c in (
        ('2.0', 'Reference'), ('2.0', 'PathItem'), ('2.0', 'Schema'), ('3.0.0', 'Reference'), ('3.0.0', 'PathItem'))]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
