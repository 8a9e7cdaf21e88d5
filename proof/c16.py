"""C16: scoped names (utils.ScopeDict, scope_compose, scope_split)"""
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.values import Unsupported

SEP = z3.String('separator')


def start(timeout=10000):
    return DV(timeout)


def last_part(e, k, st):
    """the last part of a name: what rsplit(sep, 1)[-1] gives"""
    q = RSPLIT(k, SEP, z3.IntVal(1))
    dvlib.split_facts(e, k, SEP, z3.IntVal(1), q, True)
    return V.s(nth(q, length(q) - 1))


FOLD = z3.Function('composed', I, S)


def composed(a, b):
    """two parts: those that are empty are left out"""
    return z3.If(a == '', b, z3.If(b == '', a, z3.Concat(a, SEP, b)))


def compose(keep):
    """scope_compose leaves out what is empty, and joins the rest"""
    from lib import impl  # noqa
    from pyopenapi import utils
    e = start()
    a, b = z3.Consts('scope name', V)
    for x in (a, b):
        e.fact(z3.Or(x == NONE, V.is_str(x)))
    res, exc = e.execute(utils.scope_compose, [Z(a, 'str'), Z(b, 'str'), ZS(SEP)], St())
    empty = [z3.Or(x == NONE, V.s(x) == '') for x in (a, b)]
    for n, (s, v) in enumerate(res):
        t = e.v(v, s)
        e.prove('%s: nothing of nothing' % n, s, z3.Implies(z3.And(*empty), z3.Or(t == NONE, t == V.str(z3.StringVal('')))), keep)
        e.prove('%s: the scope when there is no name' % n, s, z3.Implies(z3.And(empty[1], z3.Not(empty[0])), t == a), keep)
        e.prove('%s: the name when there is no scope' % n, s, z3.Implies(z3.And(empty[0], z3.Not(empty[1])), t == b), keep)
        e.prove('%s: both joined by the separator' % n, s, z3.Implies(z3.And(z3.Not(empty[0]), z3.Not(empty[1])), t == V.str(
            z3.Concat(V.s(a), SEP, V.s(b)))), keep)
    for s, c, _ in exc:
        e.prove('no error', s, FALSE, keep)
    return e.finish()


def split(keep):
    """scope_split gives the parts, or None alone"""
    from lib import impl  # noqa
    from pyopenapi import utils
    e = start()
    a = z3.Const('scope', V)
    e.fact(z3.Or(a == NONE, V.is_str(a)), z3.Length(SEP) > 0)
    res, exc = e.execute(utils.scope_split, [Z(a, 'str'), ZS(SEP)], St())
    empty = z3.Or(a == NONE, V.s(a) == '')
    for n, (s, v) in enumerate(res):
        q = e.seq(v, s)
        parts = SPLIT(V.s(a), SEP, z3.IntVal(-1))
        i = z3.Int('i')
        e.prove('%s: the parts' % n, s, z3.Implies(z3.Not(empty), z3.And(length(q) == length(parts), z3.Implies(
            z3.And(0 <= i, i < length(q)), nth(q, i) == nth(parts, i)))), keep)
        e.prove('%s: none' % n, s, z3.Implies(empty, z3.And(length(q) == 1, nth(q, z3.IntVal(0)) == NONE)), keep)
    for s, c, _ in exc:
        e.prove('no error', s, FALSE, keep)
    return e.finish()


def scope_dict(keep, parts=False):
    from lib import impl  # noqa
    from pyopenapi import utils
    import os
    e = start()
    e.dump = bool(os.environ.get('DUMP'))
    D = utils.ScopeDict
    e.container[D] = (None, 'str')
    e.exact.add(D)
    e.fields[D] = {'_ScopeDict__sep': 'str'}
    self = Z(V.ref(z3.Int('self')), ('obj', D))
    e.fact(z3.Int('self') >= 0, z3.Length(SEP) > 0)
    st = St()
    has, val = e.has(self, st), e.val(self, st)
    e.fact(z3.Select(e.mem(st, 'attr._ScopeDict__sep'), z3.Int('self')) == V.str(SEP))
    k = z3.String('k')
    key = V.str(k)
    # two arbitrary names, to speak about all names
    g, h = z3.Consts('g h', V)
    e.fact(V.is_str(g), V.is_str(h), g != h)

    def ends(x):
        return z3.And(z3.Select(has, x), z3.SuffixOf(k, V.s(x)))

    def same_last(x):
        q = RSPLIT(V.s(x), SEP, z3.IntVal(1))
        return V.s(nth(q, length(q) - 1)) == last_part(e, k, st)
    for x in (g, h):
        last_part(e, V.s(x), st)

    def collected(L, s):
        """what a list has collected of the names that were looked at"""
        out = []
        seen, pos = L.seen(s), L.pos(s)
        for n, q in L.lists(s):
            if seen is not None:
                out.append(('the names that end with it', all_of(q, lambda y, i: z3.And(z3.Select(seen, y), z3.SuffixOf(k, V.s(y))))))
                for x in (g, h):
                    out.append(('%s if it ends with it' % x, e.member(q, x) == z3.And(z3.Select(seen, x), z3.SuffixOf(k, V.s(x)))))
            out.append(('nothing twice', all_pairs(q, lambda y, z: y != z)))
            for d, src in L.coll if pos is not None else []:
                if d == 'seq':
                    r = tidy(z3.Select(e.mem(s, 'seq'), src))
                    out.append(('of those before', all_of(q, lambda y, i: z3.And(
                        WIT(r, y) >= 0, WIT(r, y) < pos, nth(r, WIT(r, y)) == y, same_last(y)))))
                    for x in (g, h):
                        out.append(('%s if its last part is the same' % x, e.member(q, x) == z3.And(
                            e.member(r, x), WIT(r, x) < pos, same_last(x))))
        return out
    e.candidates.append(collected)
    arg = ZS(k)
    if parts:
        arg = Z(V.ref(z3.Int('parts')), ('list', 'str', 'tuple'))
        e.fact(z3.Int('parts') >= 0, z3.Int('parts') != z3.Int('self'))
        q = e.seq(arg, st)
        n = length(q)
        st.pc += (n > 0,)
        e.fact(FOLD(z3.IntVal(1)) == V.s(nth(q, z3.IntVal(0))), k == FOLD(n))

        def folded(L, s):
            pos = L.pos(s)
            out = []
            for name, t in L.vars(s, 'str') if pos is not None else []:
                # the definition of FOLD, where it is needed
                a, b = FOLD(pos + 1), V.s(nth(q, pos + 1))
                e.fact(z3.Implies(pos >= 0, FOLD(pos + 2) == composed(a, b)))
                a, b = FOLD(pos), V.s(nth(q, pos))
                e.fact(z3.Implies(pos >= 1, FOLD(pos + 1) == composed(a, b)))
                out.append(('the parts so far', t == FOLD(pos + 1)))
            return out
        e.candidates.append(folded)
        e.expect.add('the parts so far')
    res, exc = e.execute(D.__getitem__, [self, arg], st)
    zero, one = z3.IntVal(0), z3.IntVal(1)

    def last(x):
        return same_last(x)
    e.expect |= {'the names that end with it', 'of those before'}
    there = z3.Select(has, key)
    for n, (s, v) in enumerate(res):
        t = e.v(v, s)
        m = t.arg(1) if z3.is_select(t) else e.fresh('no_name')
        e.prove('%s: stored under the full name' % n, s, z3.Implies(there, t == z3.Select(val, key)), keep)
        e.prove('%s: value of a name that ends with it' % n, s, z3.Implies(z3.Not(there), z3.And(t == z3.Select(val, m), ends(m))), keep)
        e.prove('%s: of the only such name, or the only one with the same last part' % n, s, z3.Implies(
            z3.And(z3.Not(there), g != m, ends(g)), z3.And(last(m), z3.Not(last(g)))), keep)
    for n, (s, c, _) in enumerate(exc):
        if c is KeyError:
            e.prove('key error %s: no name ends with it' % n, s, z3.And(z3.Not(there), z3.Not(ends(g))), keep)
        elif c is ValueError:
            lists = set()
            x = e.mem(s, 'seq')
            while z3.is_store(x):
                lists.add(x.arg(1).as_long() if z3.is_int_value(x.arg(1)) else None)
                x = x.arg(0)
            some = [nth(tidy(z3.Select(e.mem(s, 'seq'), z3.IntVal(i))), j) for i in sorted(lists - {None}) for j in (zero, one)]
            e.prove('value error %s: some name ends with it' % n, s, z3.And(z3.Not(there), lor(*[ends(x) for x in some])), keep)
            e.prove('value error %s: no name is the only one' % n, s, z3.Implies(ends(g), lor(*[z3.And(
                x != g, ends(x), z3.Or(z3.Not(last(g)), last(x))) for x in some])), keep)
        else:
            e.prove('no other error', s, FALSE, keep)
    return e.finish()


def separator(keep):
    """the separator is the one that was given last"""
    from lib import impl  # noqa
    from pyopenapi import utils
    e, st = start(), St()
    D = utils.ScopeDict
    e.container[D] = (None, 'str')
    e.exact.add(D)
    e.fields[D] = {'_ScopeDict__sep': 'str'}
    self = Z(V.ref(z3.Int('self')), ('obj', D))
    e.fact(z3.Int('self') >= 0)
    sep = z3.String('sep')
    for what, fn, args, want in [('from then on', D.sep.fset, [self, ZS(sep)], sep)]:
        res, exc = e.execute(fn, args, st.clone())
        for n, (s, _) in enumerate(res):
            if 'attr._ScopeDict__sep' not in s.mem:
                raise Unsupported('kept elsewhere')
            e.prove('%s %d: the separator' % (what, n), s, z3.Select(e.mem(s, 'attr._ScopeDict__sep'), z3.Int('self')) == V.str(want), keep)
        for n, (s, c, _) in enumerate(exc):
            e.prove('%s: error %d (%s)' % (what, n, c.__name__), s, z3.BoolVal(False), keep)
        if not res:
            raise Unsupported('nothing is made')
    return e.finish()


ASSUMPTIONS = [
    'str.split, rsplit, endswith and join as modelled in proof/dvlib.py; splitting a name that was composed of parts gives the '
    'parts when none of them overlaps the separator',
    'a ScopeDict is reached through dict as the Python documentation has it: dict.__getitem__ raises KeyError for what is not there',
]

UNITS = [('ScopeDict[name]', scope_dict), ('ScopeDict[parts]', lambda keep: scope_dict(keep, True)),
         ('separator', separator), ('scope_compose', compose), ('scope_split', split)]

if __name__ == '__main__':
    import sys
    for f in UNITS:
        print(f[0])
        e, obs, log = f[1](False)
        print('\n'.join(log))
        for o in obs:
            print(o.name, o.status, round(o.time, 2), (o.output or '')[:1500] if o.status != 'proved' else '')
