"""C13: path items that reference others, merged in order of precedence"""
from lib import impl  # noqa: finds the package
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.c12 import modules, handlers_of, opaque
from proof.values import Unsupported

FULL = z3.Function('is_full', I, B)         # bool() of a member
CHAIN = z3.Function('chain', I, V)
FIRST = z3.Function('merged', I, V, V)
TARGET = z3.Function('resolved', V, V, V, V)
MEMBERS = z3.Function('members', I, I)      # the dict of the members of a path item
FINAL_NAME = z3.StringVal('final_obj')


def full(t):
    return z3.And(t != NONE, FULL(V.id(t)))


def items(timeout=10000):
    """a verifier that knows path items: members by name, $ref, attached attributes"""
    from pyopenapi.migration.spec import obj
    from pyopenapi import utils
    e = DV(timeout)
    O = obj.Base2Obj
    member = ('opt', ('obj', 'member'))
    e.methods[('truth', 'member')] = lambda e, st, x: FULL(e.ident(x))

    def dic(x):
        return Z(V.ref(MEMBERS(e.ident(x))), ('dict', ('obj', 'member'), 'str'))

    def get(e, st, a, kw):
        x, name = a[0], a[1]
        if not (isinstance(x, Z) and x.kind == ('obj', O) and e.is_str(name)):
            return NotImplemented
        if isinstance(name, str) and name not in e.member_names:
            return NotImplemented
        out = []
        for s, y in e.some(st, x):
            out.append((s, e.read(z3.Select(e.val(dic(y), s), e.v(name, s)), member, s)))
        return out

    def put(e, st, a, kw):
        x, name, val = a
        if not (isinstance(x, Z) and x.kind == ('obj', O) and e.is_str(name)):
            return NotImplemented
        out = []
        for s, y in e.some(st, x):
            s = s.clone()
            i = MEMBERS(e.ident(y))
            e.put(s, 'val', i, z3.Store(tidy(z3.Select(e.mem(s, 'val'), i)), e.v(name, s), e.v(val, s)))
            out.append((s, None))
        return out
    e.member_names = ()
    e.contracts[getattr], e.contracts[setattr] = get, put
    e.fields[O] = {}
    e.closed.add(O)
    e.attrs[(O, 'invalidate_children_cache')] = lambda e, st, x: [(st, Model(lambda e, st, a, kw: [(st, None)]))]
    e.utils = utils
    return e, O


def member(e, st, x, name):
    """what a path item has under a name"""
    return z3.Select(z3.Select(e.mem(st, 'val'), MEMBERS(V.id(x))), name)


def merge_children(keep):
    """the members an object has not are taken from another, nothing else changes"""
    e, O = items()
    st = St()
    me, other, third, g = z3.Consts('self other third name', V)
    names = Z(V.ref(z3.Int('names')), ('dict', None, 'str'))
    e.attrs[(O, '__children__')] = lambda e, st, x: [(st, names)]
    e.fact(V.is_str(g), z3.Int('names') >= 0, ISDICT(z3.Int('names')))
    for x in (me, other, third):
        e.fact(e.is_kind(x, ('obj', O)), V.id(x) >= 0, MEMBERS(V.id(x)) >= 0, MEMBERS(V.id(x)) != z3.Int('names'))
        for y in (me, other, third):
            if not x.eq(y):
                e.fact(z3.Implies(x != y, MEMBERS(V.id(x)) != MEMBERS(V.id(y))))
    e.mem(st, 'val')
    children = e.has(names, st)
    st0 = st.clone()

    def merged(s):
        a, b = member(e, st0, me, g), member(e, st0, other, g)
        return z3.If(full(a), a, z3.If(full(b), b, a))

    def progress(L, s):
        seen = L.seen(s)
        out = []
        if seen is not None:
            out.append(('merged so far', member(e, s, me, g) == z3.If(z3.Select(seen, g), merged(s), member(e, st0, me, g))))
            k = z3.Const('k?', V)
            out.append(('? the rest of the other is as it was', z3.ForAll([k], z3.Implies(z3.Not(z3.Select(seen, k)), member(
                e, s, other, k) == member(e, st0, other, k)))))
            out.append(('? the rest is as it was', z3.ForAll([k], z3.Implies(z3.Not(z3.Select(seen, k)), member(
                e, s, me, k) == member(e, st0, me, k)))))
        return out
    e.candidates.append(progress)
    e.expect.add('merged so far')
    res, exc = e.execute(O.merge_children, [Z(me, ('obj', O)), Z(other, ('obj', O))], st)
    for n, (s, v) in enumerate(res):
        e.prove('%s: its own member, or else that of the other' % n, s, z3.Implies(z3.Select(children, g), member(e, s, me, g) == merged(s)), keep)
        e.prove('%s: no other member' % n, s, z3.Implies(z3.Not(z3.Select(children, g)), member(e, s, me, g) == member(e, st0, me, g)), keep)
        e.prove('%s: other objects as they were' % n, s, z3.Implies(third != me, member(e, s, third, g) == member(e, st0, third, g)), keep)
    for s, c, _ in exc:
        e.prove('no error', s, FALSE, keep)
    if not res:
        e.prove('it ends', st, FALSE, keep)
    return e.finish()


def merge_unit(keep):
    """_merge_path_item: the first full member along the chain"""
    from pyopenapi.migration.versions import comm
    from pyopenapi import errs
    from pyopenapi.migration.base import ApiBase
    from proof.engine import source
    e, O = items()
    st = St()
    obj, third, g, source_v, target_v = z3.Consts('obj third name from to', V)
    A = ('group', 'path item')
    NREF = z3.Function('normalized_ref', V, V)
    e.fact(V.is_str(g), V.is_str(source_v), V.is_str(target_v))
    GROUP = z3.Function('group_of', I, I)
    e.attrs[(A, 'normalized_ref')] = lambda e, st, x: [(st, e.read(z3.Select(e.mem(st, 'attr.normalized_ref'), e.ident(x)), ('opt', 'str'), st))]

    def nref(s, x):
        return z3.Select(e.mem(s, 'attr.normalized_ref'), GROUP(V.id(x)))

    def get_attrs(e, st, a, kw):
        if len(a) < 2 or a[1] != 'migration':
            raise Unsupported('another namespace')
        return [(st, Z(V.ref(GROUP(e.ident(a[0]))), ('obj', A)))]
    e.contracts[O.get_attrs] = get_attrs
    made = []

    def parse(e, st, a, kw):
        s = st.clone()
        x = e.new(s, ('obj', O))
        i = e.ident(x)
        made.append(x.t)
        e.fact(MEMBERS(i) == i - 10 ** 6)
        k = z3.K(V, NONE)
        e.put(s, 'val', tidy(MEMBERS(i)), k)
        if not (len(a) == 1 and not kw and (a[0] == {} or isinstance(a[0], Z) and e.must(s, e.has(a[0], s) == NOTHING))):
            raise Unsupported('a path item that is not made of nothing')
        return [(s, x)]
    parser = Model(parse, 'parser')

    def merge(e, st, a, kw):
        """as proved above, for the member g (an arbitrary name)"""
        x, other = a
        s = st.clone()
        new, old = e.fresh('members', MAP), e.mem(st, 'val')
        i = MEMBERS(e.ident(x))
        u, w = z3.Select(z3.Select(old, i), g), z3.Select(z3.Select(old, MEMBERS(V.id(other.t))), g)
        s.pc += (z3.Select(new, g) == z3.If(full(u), u, z3.If(full(w), w, u)),)
        e.put(s, 'val', tidy(i), new)
        return [(s, None)]
    e.contracts[O.merge_children] = merge

    def resolve_obj(e, st, o, args, kw):
        b = e.bind(source(ApiBase.resolve_obj).args, ApiBase.resolve_obj.__defaults__, [o] + list(args), kw, 'resolve_obj')
        if b['parser'] is not parser and not (isinstance(b['parser'], Model) and b['parser'].fn is parse):
            raise Unsupported('another parser')
        e.throw(st.clone(), RuntimeError)       # whatever is raised goes through
        t = TARGET(e.v(b['jref'], st), e.v(b['from_spec_version'], st), e.v(b['to_spec_version'], st))
        e.fact(e.is_kind(t, ('opt', ('obj', O))), z3.Implies(t != NONE, z3.And(V.id(t) >= 0, MEMBERS(V.id(t)) >= 0)))
        r = e.fresh('url', S)
        return [(st, Tup([Z(t, ('obj', O)), ZS(r)]))]
    e.methods[('app', 'resolve_obj')] = resolve_obj
    app = Z(V.ref(z3.IntVal(10 ** 6)), ('obj', 'app'))
    for x in (obj, third):
        e.fact(e.is_kind(x, ('obj', O)), V.id(x) >= 0, MEMBERS(V.id(x)) >= 0)
    for m in ('val', 'attr.normalized_ref'):
        e.mem(st, m)
    st0 = st.clone()

    def more(x):
        r = nref(st0, x)
        return z3.And(r != NONE, V.s(r) != z3.StringVal(''))

    def step(n):
        """the definitions of the chain and of the merged member, where they are needed"""
        e.fact(z3.Implies(z3.And(n >= 0, more(CHAIN(n))), CHAIN(n + 1) == TARGET(nref(st0, CHAIN(n)), source_v, target_v)))
        f, m = FIRST(n, g), member(e, st0, CHAIN(n), g)
        e.fact(z3.Implies(n >= 0, FIRST(n + 1, g) == z3.If(full(f), f, z3.If(full(m), m, f))))
    e.fact(CHAIN(z3.IntVal(0)) == obj, FIRST(z3.IntVal(0), g) == NONE)

    def progress(L, s):
        out = []
        for i, q in L.lists(s):
            n = length(q)
            step(n - 1)
            out.append(('visited the chain so far', z3.And(n >= 1, all_of(q, lambda x, i: z3.And(x == CHAIN(i), x != NONE)))))
            out.append(('all but the last reference another', all_of(q, lambda x, i: z3.Implies(i < n - 1, more(x)))))
            out.append(('elements', all_of(q, lambda x, i: z3.Select(els(q), x))))
            out.append(('none twice', all_pairs(q, lambda x, y: x != y)))
            for x in made:
                out.append(('merged so far', member(e, s, x, g) == FIRST(n, g)))
            for name in L.names:
                x = s.env[name]
                if e.is_str(x) or isinstance(x, Z) and x.kind == 'str':
                    out.append(('? %s is the reference of the last' % name, e.v(x, s) == nref(st0, CHAIN(n - 1))))
                elif isinstance(x, Z) and x.kind == ('obj', A):
                    out.append(('? %s is of the last' % name, x.t == V.ref(GROUP(V.id(CHAIN(n - 1))))))
                elif isinstance(x, Z) and x.kind == ('obj', O):
                    out.append(('? %s is the last' % name, x.t == CHAIN(n - 1)))
        return out
    e.candidates.append(progress)
    e.expect |= {'visited the chain so far', 'merged so far', 'none twice'}
    args = [Z(obj, ('obj', O)), ZS(z3.String('path')), ZS(V.s(source_v)), ZS(V.s(target_v)), app, parser, PathGroup]
    step(z3.IntVal(0))
    res, exc = e.execute(comm._merge_path_item, args, st)
    from proof.c12 import idents

    def visited(s):
        x = e.mem(s, 'seq')
        return [tidy(z3.Select(x, i)) for i in idents(x)]
    for n, (s, v) in enumerate(res):
        t = e.v(v, s)
        qs = visited(s)
        for q in qs:
            step(length(q) - 1)
        e.prove('%s: a new path item' % n, s, lor(*[t == x for x in made]), keep)
        e.prove('%s: the first full member of the chain' % n, s, lor(*[z3.And(
            length(q) >= 1, all_of(q, lambda x, i: x == CHAIN(i)), member(e, s, t, g) == FIRST(length(q), g)) for q in qs]), keep)
        e.prove('%s: the chain ends, or comes back' % n, s, lor(*[z3.And(length(q) >= 1, lor(
            z3.Not(more(CHAIN(length(q) - 1))), e.member(q, CHAIN(length(q))))) for q in qs]), keep)
        e.prove('%s: other objects as they were' % n, s, member(e, s, third, g) == member(e, st0, third, g), keep)
        e.prove('%s: references as they were' % n, s, e.mem(s, 'attr.normalized_ref') == e.mem(st0, 'attr.normalized_ref'), keep)
    for n, (s, c, _) in enumerate(exc):
        if c is RuntimeError:
            continue
        qs = visited(s)
        e.prove('error %s: a reference of the chain leads nowhere' % n, s, lor(*[z3.And(
            length(q) >= 1, CHAIN(length(q)) == NONE, more(CHAIN(length(q) - 1))) for q in qs]), keep)
    e.invariant('every iteration merges an item that was not merged before: a cyclic chain cannot go on for ever', 'none twice')
    return e.finish()


class PathGroup(object):
    """stands for the class of the attributes"""


def handler_unit(version):
    """the scanner attaches the merged form to those with a $ref, and to nothing else"""
    def unit(keep):
        from pyopenapi.migration.versions import comm
        mod, objects, attrs = modules(version, 'scanner.merge', 'objects', 'attrs')
        e = DV()
        st = St()
        O, A = ('path item', version), ('group', version)
        MERGED = z3.Function('merged form', V, V, V, V)
        obj, ref, orig, path = z3.Const('obj', V), z3.Const('ref', V), z3.String('original'), z3.String('path')
        e.fact(e.is_kind(obj, ('obj', O)), V.id(obj) >= 0, z3.Or(ref == NONE, V.is_str(ref)))
        scanner, route = handlers_of(mod, 'Merge')
        app = Z(V.ref(z3.IntVal(10 ** 6)), ('obj', 'app'))
        e.attrs[('app', 'original_spec_version')] = lambda e, st, x: [(st, ZS(orig))]
        me = e.new(st, ('obj', scanner))
        (st, _), = e.execute(scanner.__init__, [me, app], st)[0]
        e.attrs[(O, 'ref')] = lambda e, st, x: [(st, e.value(ref, ('opt', 'str')))]
        group = Z(V.ref(z3.Int('group')), ('obj', A))
        e.fact(z3.Int('group') >= 0)

        def get_attrs(e, st, x, a, kw):
            if [y for y in list(a) + list(kw.values())] != ['migration', attrs.PathItemAttributeGroup]:
                raise Unsupported('other attributes')
            return [(st, group)]
        e.methods[(O, 'get_attrs')] = get_attrs
        st.ghost['set'], st.ghost['value'] = FALSE, NONE

        def put(e, st, x, val):
            s = st.clone()
            s.ghost['set'], s.ghost['value'] = TRUE, e.v(val, s)
            return [(s, None)]
        e.attrs[(A, 'final_obj', 'set')] = put

        def merge(e, st, a, kw):
            from proof.engine import source
            b = e.bind(source(comm._merge_path_item).args, (), a, kw, '_merge_path_item')
            vals = list(b.values())
            if not e.v(vals[4], st).eq(app.t) and not e.must(st, e.v(vals[4], st) == app.t) or vals[5] is not objects.PathItem or \
                    vals[6] is not attrs.PathItemAttributeGroup:
                raise Unsupported('other arguments')
            t = MERGED(e.v(vals[0], st), e.v(vals[2], st), e.v(vals[3], st))
            e.fact(V.is_ref(t), V.id(t) >= 0)
            return [(st, Z(t, ('obj', O)))]
        e.contracts[comm._merge_path_item] = merge
        live = [st]
        for fn in route.get(objects.PathItem, []):
            nxt = []
            for s in live:
                res, exc = e.execute(fn, [me, ZS(path), Z(obj, ('obj', O))], s)
                for x, c, _ in exc:
                    e.prove('no error', x, FALSE, keep)
                nxt += [x for x, _ in res]
            live = nxt
        some = z3.And(ref != NONE, V.s(ref) != z3.StringVal(''))
        three = V.str(z3.StringVal('3.0.0'))
        two = V.str(z3.StringVal('2.0'))
        start = two if version == '2.0' else z3.If(orig == z3.StringVal('3.0.0'), three, two)
        to = two if version == '2.0' else three
        for n, s in enumerate(live):
            e.prove('%s: attached when it references another' % n, s, s.ghost['set'] == some, keep)
            e.prove('%s: its merged form' % n, s, z3.Implies(some, s.ghost['value'] == MERGED(obj, start, to)), keep)
        if not live:
            e.prove('it ends', st, FALSE, keep)
        if set(route) - {objects.PathItem}:
            raise Unsupported('handlers of other kinds')
        return e.finish()
    return unit


def final_unit(keep):
    """final(): the merged form of what references another, or the object itself"""
    from pyopenapi import utils
    e = DV()
    st = St()
    O, A = ('path item', ''), ('group', '')
    obj, ref, merged = z3.Consts('obj ref merged', V)
    e.fact(e.is_kind(obj, ('obj', O)), V.id(obj) >= 0, z3.Or(ref == NONE, V.is_str(ref)), e.is_kind(merged, ('opt', ('obj', O))),
           z3.Implies(merged != NONE, V.id(merged) >= 0))
    e.attrs[(O, 'ref')] = lambda e, st, x: [(st, e.value(ref, ('opt', 'str')))]
    e.attrs[(A, 'final_obj')] = lambda e, st, x: [(st, e.value(merged, ('opt', ('obj', O))))]
    e.methods[('truth', O)] = lambda e, st, x: TRUE

    def get_attrs(e, st, x, a, kw):
        if not a or a[0] != 'migration':
            raise Unsupported('another namespace')
        return [(st, Z(V.ref(z3.IntVal(10 ** 6)), ('obj', A)))]
    e.methods[(O, 'get_attrs')] = get_attrs
    res, exc = e.execute(utils.final, [Z(obj, ('obj', O))], st)
    some = z3.And(ref != NONE, V.s(ref) != z3.StringVal(''), merged != NONE)
    for n, (s, v) in enumerate(res):
        e.prove('%s: the merged form' % n, s, e.v(v, s) == z3.If(some, merged, obj), keep)
    for s, c, _ in exc:
        e.prove('no error', s, FALSE, keep)
    return e.finish()


ASSUMPTIONS = [
    'getattr and setattr of a member of a path item by its name read and write that member (child(), decided by C05)',
    'app.resolve_obj gives the same object for the same arguments while a chain is merged, and leaves members and normalized targets '
    'of the items of the chain as they are (decided by C14, bounded)',
    'a path item that exists is true',
    'PathItem({}) has no members',
]

UNITS = [('merge_children', merge_children), ('_merge_path_item', merge_unit), ('Merge 2.0', handler_unit('2.0')),
         ('Merge 3.0.0', handler_unit('3.0.0')), ('final', final_unit)]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
