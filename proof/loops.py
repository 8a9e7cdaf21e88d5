"""loops: unrolled over known sequences, folds over symbolic collections

A fold is described by a LoopRecord: the collection, and for every location the
body changes an accumulator with its value before the loop (init), at the head of
an arbitrary iteration (ph), after that iteration (step), and after the loop (out).
Two loops are related in couple.py.
"""
import ast

import z3

from proof.builtins_ import TRUE_, as_dict, as_list, elem_of, flatten, is_map, looked_at, refs_in
from proof.engine import Raised, Stop
from proof.terms import *  # noqa
from proof.values import *  # noqa
from contracts import tables as T


class Acc(object):
    __slots__ = ('loc', 'sort', 'init', 'ph', 'step', 'out', 'kind', 'ty', 'cls', 'group', 'ref', 'shared')

    def __init__(self, loc, sort):
        self.loc, self.sort = loc, sort
        self.init = self.ph = self.step = self.out = self.ty = self.cls = self.ref = None
        self.kind, self.group, self.shared = 'sym', [loc], 0

    def __repr__(self):
        return '%s: %s' % (self.loc, self.kind)


class Shared(Unsupported):
    pass


class LoopRecord(object):
    def __init__(self, side, coll, label):
        self.side, self.coll, self.label = side, coll, label
        self.entry = ()        # path conditions at the entry
        self.body = ()         # ... at the end of an arbitrary iteration
        self.accs, self.raises, self.flags, self.inner, self.invs = [], {}, {}, [], []
        self.idx = None
        self.broke = None      # (condition in the iteration, flag after the loop)
        self.returned = None
        self.head = ()
        self.wild = False      # while loop

    def __repr__(self):
        return 'loop %s over %s' % (self.label, ' '.join(str(self.coll).split())[:60])


def for_loop(e, s, st, fr):
    it = e.ev(s.iter, st, fr)
    orelse = (lambda x: e.block(s.orelse, x, fr)) if s.orelse else None

    def body(x, v):
        e.assign(s.target, v, x, fr)
        e.block(s.body, x, fr)

    iterate(e, it, st, fr, body, '%s:%d' % (fr.name, s.lineno), targets(s.target), orelse)


def targets(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def comprehension(e, node, st, fr, kind):
    if kind == 'dict':
        acc = e.new(st, HDict())
    else:
        acc = e.new(st, HList(bag=(kind == 'set')))
    saved = {}
    names = [n for g in node.generators for n in targets(g.target)]
    for n in names:
        if n in st.env:
            saved[n] = st.env[n]

    def level(i, x):
        if i == len(node.generators):
            if kind == 'dict':
                e.setitem(acc, e.ev(node.key, x, fr), e.ev(node.value, x, fr), x)
            else:
                e.method(acc, 'append', [e.ev(node.elt, x, fr)], {}, x)
            return
        g = node.generators[i]
        it = e.ev(g.iter, x, fr)

        def body(y, v):
            e.assign(g.target, v, y, fr)

            def go(conds, z):
                if not conds:
                    return level(i + 1, z)
                e.branch(e.truth(e.ev(conds[0], z, fr), z), z, lambda w: go(conds[1:], w), lambda w: None)

            go(g.ifs, y)

        iterate(e, it, x, fr, body, '%s:%d' % (fr.name, node.lineno), targets(g.target))

    level(0, st)
    if st.dead:
        raise Stop()
    for n in names:
        st.env.pop(n, None)
    st.env.update(saved)
    return acc


def mapped(e, fn, coll, st):
    acc = e.new(st, HList())
    from proof.engine import Frame
    fr = Frame({}, 'map')

    def body(x, v):
        e.method(acc, 'append', [e.call(fn, [v], {}, x)], {}, x)

    iterate(e, coll, st, fr, body, 'map', [])
    return acc


#
# what a loop goes through
#

def known(e, it, st):
    """-> [(guard, value)] when all elements are known, else None"""
    if isinstance(it, Items):
        of = it.of
        if it.kind == 'enumerate':
            seq = known(e, of, st)
            if seq is None:
                return None
            out, n = [], z3.IntVal(it.start) if isinstance(it.start, int) else None
            count = it.start
            plain = True
            for g, v in seq:
                out.append((g, Tup([count if plain else IntV(n), v])))
                if not z3.is_true(g):
                    plain = False
                n = z3.simplify(n + z3.If(g, 1, 0))
                count += 1
            return out
        if it.kind == 'zip':
            seqs = [known(e, x, st) for x in of]
            if any(x is None for x in seqs) or any(not z3.is_true(g) for x in seqs for g, _ in x):
                return None
            return [(TRUE_, Tup([v for _, v in row])) for row in zip(*seqs)]
        if isinstance(of, dict) and not isinstance(of, SV):
            pairs = [(TRUE_, k, v) for k, v in of.items()]
        elif isinstance(of, Ref) and isinstance(st.heap[of.id], HDict):
            h = st.heap[of.id]
            if h.base is not None or h.dyn:
                return None
            pairs = [(g, k, v) for k, (g, v) in h.ents.items() if not z3.is_false(g)]
        else:
            if it.kind == 'keys' and not isinstance(of, dict):
                return known(e, of, st)
            return None
        if it.kind == 'items':
            return [(g, Tup([k, v])) for g, k, v in pairs]
        return [(g, k if it.kind == 'keys' else v) for g, k, v in pairs]
    if isinstance(it, Tup):
        return [(TRUE_, v) for v in it.items]
    if isinstance(it, Ref):
        h = st.heap[it.id]
        if isinstance(h, HList) and h.base is None:
            if h.bag and len(h.items) > 1:
                return None     # a set: as a collection
            return list(h.items)
        looked_at(e, it)
        if isinstance(h, HDict) and h.base is None and not h.dyn:
            return [(g, k) for k, (g, _) in h.ents.items() if not z3.is_false(g)]
        return None
    if not isinstance(it, SV):
        if isinstance(it, (set, frozenset)):
            it = sorted(it, key=str)
        try:
            return [(TRUE_, v) for v in it]
        except TypeError:
            return None
    return None


def symbolic(e, it, st):
    """-> (term of the collection, what makes an element of an index)"""
    kind, of = 'list', it
    if isinstance(it, Items):
        kind, of = it.kind, it.of
    if kind == 'enumerate':
        c, make = symbolic(e, of, st)
        start = it.start

        def numbered(i, s):
            n = NUM(i)
            e.fact(n >= 0)
            return Tup([IntV(n + start), make(i, s)])

        return c, numbered
    if kind == 'zip':
        raise Unsupported('zip')
    if isinstance(of, Items):
        raise Unsupported('nested iteration')
    if isinstance(of, View):
        raise Unsupported('iteration over a loaded object')
    if isinstance(of, Thing):
        of = of.op(e, st, 'iter', kind)
        if isinstance(of, tuple):
            return of
    if of is None:
        e.throw(st, TypeError if kind == 'list' else AttributeError)
    if isinstance(of, Sym):
        e.raise_if(st, of.t == NULL, TypeError if kind == 'list' else AttributeError)
        ty = of.ty
        c = of.t
        mapping = ty is not None and ty.kind in ('map', 'obj', 'orref') or kind != 'list'
        cont = None
    elif isinstance(of, Cont):
        ty, c, cont, mapping = of.raw.ty, of.raw.t, of, is_map(of)
    elif isinstance(of, Ref):
        h = st.heap[of.id]
        c = e.term(of, st)
        ty, cont, mapping = None, None, isinstance(h, HDict) or kind != 'list'
        if isinstance(h, HList) and h.base is None and all(isinstance(x, str) and not isinstance(x, SV) for _, x in h.items):
            ty = T.STRLIST
        if isinstance(h, HList) and h.base is None:
            e.fact(NE(c) == lor(*[g for g, _ in h.items]))
        if isinstance(h, HUnk) and kind == 'list':
            mapping = False
    else:
        raise Unsupported('iteration over %r' % (it,))
    if ty is not None and ty.kind == 'str':
        raise Unsupported('iteration over a string')
    ety = None
    if ty is not None and ty.kind in ('list', 'map'):
        ety = ty.arg
    elif ty is not None and ty.kind == 'field' and ty.arg.kind == 'list':
        ety = ty.arg.arg

    def make(i, s):
        def key():
            k = KEY(c, i)
            e.fact(HAS(c, k), KIND(k) == 2, k != NULL, NE(c))
            return Sym(k, T.STR)

        def val():
            v = ELEM(c, i)
            if ety is not None:
                e.typed(v, ety, null=False)
            if mapping:
                key()
                e.get(c, KEY(c, i), ety)
                e.fact(GET(c, KEY(c, i)) == v)
            else:
                e.fact(MEMBER(v, c))
            x = Sym(v, ety)
            return elem_of(e, cont, x, s) if cont is not None else x

        if kind == 'items':
            return Tup([key(), val()])
        if kind == 'keys' or kind == 'list' and mapping:
            return key()
        return val()

    return c, make


def iterate(e, it, st, fr, body, label, names, orelse=None):
    if isinstance(it, Items) and isinstance(it.of, Union) and it.kind != 'zip':
        alts = it.of.alts
        return spread(e, [(g, Items(it.kind, x, it.start)) for g, x in alts], st, fr, body, label, names, orelse)
    if isinstance(it, Union):
        return spread(e, it.alts, st, fr, body, label, names, orelse)
    if isinstance(it, Items) and it.kind == 'enumerate' and isinstance(it.of, Items) and isinstance(it.of.of, Union):
        raise Unsupported('enumeration of alternatives')
    seq = known(e, it, st)
    if seq is not None:
        return unroll(e, seq, st, fr, body, orelse)
    c, make = symbolic(e, it, st)
    fold(e, c, make, st, fr, body, label, names, orelse)


def spread(e, alts, st, fr, body, label, names, orelse=None):
    """a loop over one of several collections"""
    alts = [(g, x) for g, x in alts if e.feasible(st, g)]
    if not alts:
        st.kill()
        raise Stop()
    if len(alts) == 1:
        st.pc = st.pc + (() if z3.is_true(alts[0][0]) else (alts[0][0],))
        return iterate(e, alts[0][1], st, fr, body, label, names, orelse)
    base, outs = len(st.pc), []
    for g, x in alts:
        s = st.clone(g)
        try:
            iterate(e, x, s, fr, body, label, names, orelse)
        except Stop:
            continue
        if not s.dead:
            outs.append(s)
    e.become_all(st, outs, base)


def settled(e, v, st):
    """one of several constants, when the path tells which"""
    if not isinstance(v, Sym):
        return v
    t = v.t
    while t.decl().kind() == z3.Z3_OP_ITE:
        if e.must(st, t.arg(0)):
            t = t.arg(1)
        elif e.must(st, lnot(t.arg(0))):
            t = t.arg(2)
        else:
            return v
    c = e.litval(t)
    return c if isinstance(c, str) else Sym(t, v.ty)


def unroll(e, seq, st, fr, body, orelse=None):
    ctx = {'breaks': [], 'continues': []}
    base0 = len(st.pc)
    breaks = []
    for g, v in seq:
        if st.dead:
            break

        def yes(x, v=v):
            v = settled(e, v, x)
            base = len(x.pc)
            fr.loops.append(ctx)
            ctx['continues'], ctx['breaks'] = [], []
            try:
                body(x, v)
            except Stop:
                x.kill()
            finally:
                fr.loops.pop()
            breaks.extend(ctx['breaks'])
            if ctx['continues']:
                e.become_all(x, [x.clone()] + ctx['continues'], base)

        e.branch(g, st, yes, lambda x: None)
    if orelse is not None and not st.dead:
        orelse(st)
    if breaks:
        e.become_all(st, [st.clone()] + breaks, base0)


#
# folds
#

def plain(v):
    """what a value consists of: a set of 'bool', 'int', 'ref', 'none', 'view', 'cont', 'sym', 'other'"""
    if isinstance(v, Union):
        return set().union(*[plain(x) for _, x in v.alts])
    if isinstance(v, BoolV) or v is True or v is False:
        return {'bool'}
    if isinstance(v, IntV) or isinstance(v, int) and not isinstance(v, SV):
        return {'int'}
    if isinstance(v, Ref):
        return {'ref'}
    if v is None:
        return {'none'}
    if isinstance(v, View):
        return {'view'}
    if isinstance(v, Sym) or isinstance(v, (str, float)) and not isinstance(v, SV):
        return {'sym'}
    return {'other'}


def norm(h):
    return HDict(h.base) if isinstance(h, HUnk) else h


def unmodified(e, base, k, g, v, st):
    """an entry that was only looked at"""
    k = e.lit(k) if isinstance(k, (str, int)) else k
    if base is None or not g.eq(HAS(base, k)):
        return False
    if not isinstance(v, Ref) or v.id not in st.heap:
        return False
    h = st.heap[v.id]
    if h.__class__ is HUnk:
        return h.base.eq(GET(base, k))
    if isinstance(h, HDict):
        return h.base is not None and h.base.eq(GET(base, k)) and not h.dyn and all(
            unmodified(e, h.base, k2, g2, v2, st) for k2, (g2, v2) in h.ents.items())
    if isinstance(h, HList):
        return h.base is not None and h.base.eq(GET(base, k)) and not h.items
    return False


def changed(e, a, b, skip):
    """locations that differ between two states"""
    out = set()
    for n in a.env:
        if n in b.env and not e.same(a.env[n], b.env[n]):
            out.add(('env', n))
    for r in a.heap:
        if r in skip or r not in b.heap or a.heap[r] is b.heap[r]:
            continue
        x, y = a.heap[r], b.heap[r]
        if isinstance(x, HUnk) and isinstance(y, HUnk):
            if not x.base.eq(y.base):
                out.add(('base', r))
            continue
        if isinstance(x, HUnk) and isinstance(y, HList):
            if y.items or y.base is None or not y.base.eq(x.base):
                out.add(('base', r))
            continue
        x, y = norm(x), norm(y)
        if isinstance(x, HDict) and isinstance(y, HDict):
            bx, by = x.base, y.base
            if (bx is None) != (by is None) or bx is not None and not bx.eq(by):
                out.add(('base', r))
                if any(k not in y.ents for k in x.ents):
                    out.add(('whole', r))
            else:
                n = len(y.dyn)
                while n > len(x.dyn) and bx is not None and y.dyn[n - 1][0].eq(HAS(bx, y.dyn[n - 1][1])) and unmodified(
                        e, bx, y.dyn[n - 1][1], *(y.dyn[n - 1][::2] + (b,))):
                    n -= 1      # only looked at
                y = HDict(y.base, y.ents, y.dyn[:n])
            if ('base', r) in out:
                pass
            elif len(x.dyn) != len(y.dyn) or any(
                    not (g.eq(g2) and k.eq(k2) and e.same(v, v2)) for (g, k, v), (g2, k2, v2) in zip(x.dyn, y.dyn)):
                out.add(('base', r))
            for k in y.ents:
                g, v = y.ents[k]
                if k in x.ents:
                    if not (x.ents[k][0].eq(g) and e.same(x.ents[k][1], v)):
                        out.add(('ent', r, k))
                elif not unmodified(e, bx, k, g, v, b) and not z3.is_false(g):
                    out.add(('ent', r, k))
        elif isinstance(x, HList) and isinstance(y, HList):
            if len(x.items) != len(y.items) or (x.base is None) != (y.base is None) or \
                    x.base is not None and not x.base.eq(y.base) or any(
                        not (g.eq(h) and e.same(v, w)) for (g, v), (h, w) in zip(x.items, y.items)):
                out.add(('base', r))
        elif isinstance(x, HObj) and isinstance(y, HObj):
            for k in y.attrs:
                if k not in x.attrs or not e.same(x.attrs[k], y.attrs[k]):
                    out.add(('attr', r, k))
        else:
            raise Unsupported('a loop changes the kind of an object')
    return out


def lookup(e, loc, st):
    """-> (guard or None, value)"""
    if loc[0] == 'env':
        return None, st.env[loc[1]]
    if loc[0] == 'attr':
        return None, st.heap[loc[1]].attrs.get(loc[2])
    h = norm(st.heap[loc[1]])
    if loc[2] in h.ents:
        return h.ents[loc[2]]
    if h.base is not None:
        t = e.get(h.base, loc[2])
        return HAS(h.base, e.lit(loc[2])), Sym(t)
    return z3.BoolVal(False), None


def store(e, loc, st, guard, val):
    if loc[0] == 'env':
        st.env[loc[1]] = val
        return
    h = st.heap[loc[1]]
    h = norm(h).copy() if loc[0] == 'ent' else h.copy()
    if loc[0] == 'attr':
        h.attrs[loc[2]] = val
    else:
        h.ents[loc[2]] = (guard, val)
    st.heap[loc[1]] = h


def content(e, r, whole, st):
    """the term of what a 'base' location holds"""
    h = st.heap[r]
    if isinstance(h, HDict) and not whole:
        x = Ref()
        st.heap[x.id] = HDict(h.base, {}, h.dyn)
        t = e.term(x, st)
        del st.heap[x.id]
        return t
    return e.term(Ref(r), st)


def set_content(r, whole, st, t, bag=False):
    h = st.heap[r]
    if isinstance(h, HDict):
        st.heap[r] = HDict(t, {} if whole else dict(h.ents))
    elif isinstance(h, HList):
        st.heap[r] = HList(t, bag=h.bag)
    else:
        st.heap[r] = HUnk(t)


def nullable(e, guard, v, st):
    """term of a value, null when it is absent"""
    if guard is not None and z3.is_false(guard):
        return NULL
    t = e.term(v, st)
    return t if guard is None or z3.is_true(guard) else ite(guard, t, NULL)


def ref_ids(v):
    return refs_in(v)


def reach(ids, st, seen):
    for r in ids:
        if r in seen or r not in st.heap:
            continue
        seen.add(r)
        h = st.heap[r]
        if isinstance(h, HDict):
            reach([x for _, v in h.ents.values() for x in refs_in(v)] + [x for _, _, v in h.dyn for x in refs_in(v)], st, seen)
        elif isinstance(h, HList):
            reach([x for _, v in h.items for x in refs_in(v)], st, seen)
        elif isinstance(h, HObj):
            reach([x for v in h.attrs.values() for x in refs_in(v)], st, seen)
    return seen


def view_type(v):
    if isinstance(v, Union):
        for _, x in v.alts:
            r = view_type(x)
            if r is not None:
                return r
    if isinstance(v, View):
        return v.cls, v.raw.ty
    return None


def sym_type(e, vals):
    tys = set()
    ty = None
    for v in vals:
        for x in ([y for _, y in v.alts] if isinstance(v, Union) else [v]):
            if x is None:
                continue
            t = e.ty_of(x)
            tys.add(repr(t))
            ty = t
    return ty if len(tys) == 1 else None


def plan(e, locs, head, after):
    """-> accumulators for the changed locations"""
    accs, slots = [], {}
    wholes = set(l[1] for l in locs if l[0] == 'whole')
    for loc in sorted((l for l in locs if l[0] != 'whole'), key=str):
        if loc[0] == 'ent' and loc[1] in wholes:
            continue
        if loc[0] == 'base':
            a = Acc(loc, J)
            a.kind = 'whole' if loc[1] in wholes else 'base'
            accs.append(a)
            continue
        vals = []
        for s in [head] + after:
            g, v = lookup(e, loc, s)
            if g is None or not z3.is_false(g):
                vals.append(v)
        kinds = set().union(*[plain(v) for v in vals]) if vals else set()
        if 'other' in kinds:
            raise Unsupported('a loop changes %s' % (loc,))
        if kinds == {'bool'} and loc[0] != 'ent':
            a = Acc(loc, B)
        elif kinds == {'int'} and loc[0] != 'ent':
            a = Acc(loc, I)
        elif 'ref' in kinds:
            if kinds - {'ref', 'none', 'sym'}:
                raise Unsupported('a loop changes %s' % (loc,))
            a = Acc(loc, J)
            a.kind = 'slot'
            ids = set()
            for s in [head] + after:
                g, v = lookup(e, loc, s)
                if g is None or not z3.is_false(g):
                    ids |= set(refs_in(v))
            slots[loc] = (a, ids)
            continue
        elif 'view' in kinds:
            if kinds - {'view', 'none'}:
                raise Unsupported('a loop changes %s' % (loc,))
            a = Acc(loc, J)
            a.kind = 'view'
            tys = set()
            for v in vals:
                t = view_type(v)
                if t is not None:
                    tys.add((t[0], repr(t[1])))
                    a.cls, a.ty = t
            if len(tys) != 1:
                raise Classes('objects of several classes in one variable')
        else:
            a = Acc(loc, J)
            a.ty = sym_type(e, vals)
            a.cls = all(v is not None for v in vals)
        accs.append(a)
    groups = []
    for loc, (a, ids) in slots.items():
        hit = [g for g in groups if g[1] & ids]
        locs2, ids2 = [loc], set(ids)
        for g in hit:
            locs2 = g[0] + locs2
            ids2 |= g[1]
            groups.remove(g)
        groups.append((locs2, ids2))
    for locs2, ids2 in groups:
        a = Acc(locs2[0], J)
        a.kind, a.group = 'slot', locs2
        a.shared = 2 if ids2 & e.frozen else 1 if ids2 & e.shared else 0
        kinds = set()
        for s in [head] + after:
            for r in ids2:
                if r in s.heap:
                    kinds.add(type(s.heap[r]))
        if HObj in kinds:
            raise Unsupported('a loop makes objects')
        a.cls = HDict if kinds <= {HDict} else HList if kinds <= {HList} else HUnk
        accs.append(a)
    return accs


def value_at(e, a, t, st):
    """put the value of an accumulator into a state"""
    if a.kind in ('base', 'whole'):
        set_content(a.loc[1], a.kind == 'whole', st, t)
        return
    if a.kind == 'slot':
        r = Ref()
        st.heap[r.id] = a.cls(t)
        a.ref = r.id
        if a.shared:
            (e.frozen if a.shared > 1 else e.shared).add(r.id)
        e.fact(z3.Implies(t != NULL, KIND(t) == {HDict: 5, HList: 4}.get(a.cls, KIND(t))))
        for loc in a.group:
            if loc[0] == 'ent':
                store(e, loc, st, t != NULL, r)
            else:
                store(e, loc, st, None, Union([(t == NULL, None), (t != NULL, r)]))
        return
    if a.kind == 'view':
        v = View(a.cls, Sym(t, a.ty))
        val = Union([(t == NULL, None), (t != NULL, v)])
    elif a.sort == B:
        val = BoolV(t)
    elif a.sort == I:
        val = IntV(t)
    else:
        if a.ty is not None:
            e.typed(t, a.ty)
        val = Sym(t, a.ty)
    store(e, a.loc, st, t != NULL if a.loc[0] == 'ent' else None, val)


def term_of(e, a, st, base):
    """the value of an accumulator in a state"""
    if a.kind in ('base', 'whole'):
        return content(e, a.loc[1], a.kind == 'whole', st)
    if a.kind == 'slot':
        outs = [nullable(e, *lookup(e, loc, st), st=st) for loc in a.group]
        if len(a.group) > 1:
            same_object(e, a, st)
        return outs[0]
    g, v = lookup(e, a.loc, st)
    if a.sort == B:
        return v.t if isinstance(v, BoolV) else boolval(v)
    if a.sort == I:
        return v.t if isinstance(v, IntV) else z3.IntVal(v)
    return nullable(e, g, v, st)


def alternatives(e, loc, st):
    g, v = lookup(e, loc, st)
    out = [(x, y) for x, y in (v.alts if isinstance(v, Union) else [(TRUE_, v)])]
    if g is not None:
        out = [(land(g, x), y) for x, y in out] + [(lnot(g), None)]
    return [(x, y) for x, y in out if not z3.is_false(x)]


def same_object(e, a, st):
    """all locations of a group hold the same object (or nothing)"""
    first = alternatives(e, a.group[0], st)
    for loc in a.group[1:]:
        for g, v in first:
            for h, w in alternatives(e, loc, st):
                if v is None and w is None or isinstance(v, Ref) and isinstance(w, Ref) and v.id == w.id:
                    continue
                if e.feasible(st, land(g, h)):
                    raise Shared('a loop changes what is shared')


def fold(e, c, make, st, fr, body, label, names, orelse=None):
    if not e.feasible(st, NE(c)):
        if orelse is not None:
            orelse(st)
        return
    active = [l for l in e.active if l[0].eq(c)]
    idx = e.app('i%d' % len(active), c)
    e.active.append((c, idx))
    try:
        rec = LoopRecord(e.side, c, label)
        rec.entry, rec.idx = st.pc, idx

        def once(s):
            body(s, make(idx, s))

        save = st.clone()
        marks = len(e.loops), len(fr.returns), len(e.raises[-1])
        try:
            run_fold(e, rec, st, fr, once, names, NE(c))
        except Shared:
            # what is found under symbolic keys is not looked at as objects any more
            st.become(save)
            del e.loops[marks[0]:], fr.returns[marks[1]:], e.raises[-1][marks[2]:]
            for r in list(st.heap):
                if isinstance(st.heap[r], HDict) and st.heap[r].dyn:
                    flatten(e, Ref(r), st)
            rec = LoopRecord(e.side, c, label)
            rec.entry, rec.idx = st.pc, idx
            run_fold(e, rec, st, fr, once, names, NE(c))
    finally:
        e.active.pop()
    if orelse is not None and not st.dead:
        if rec.broke is None:
            orelse(st)
        else:
            e.branch(rec.broke[1], st, lambda x: None, orelse)


def trial(e, head, fr, once):
    """one iteration -> states that go on, that break, that return; exceptions"""
    s = head.clone()
    ctx = {'breaks': [], 'continues': []}
    fr.loops.append(ctx)
    nret = len(fr.returns)
    e.raises.append([])
    try:
        try:
            once(s)
        except Stop:
            s.kill()
    finally:
        fr.loops.pop()
        raised = e.raises.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
    go = [x for x in [s] + ctx['continues'] if not x.dead]
    return go, [x for x in ctx['breaks'] if not x.dead], [x for x in rets if not x.dead], raised


def run_fold(e, rec, st, fr, once, names, there):
    nloops = len(e.loops)
    base = len(st.pc)
    for n in names:
        st.env.pop(n, None)
    # which locations does an iteration change?
    locs, accs = set(), []
    first = st.clone(there)
    head = first
    skip = set()
    for _ in range(8):
        del e.loops[nloops:]
        go, brk, ret, raised = trial(e, head, fr, once)
        after = go + brk + ret
        more = set()
        for s in after:
            more |= changed(e, head, s, skip)
        more = set(('whole', l[1]) if l[0] == 'whole' else l for l in more) - locs
        regroup = [a for a in accs if a.kind == 'slot']
        fresh_locs = bool(more)
        locs |= more
        new = plan(e, locs, st, after) if locs else []
        if not fresh_locs and [(a.kind, tuple(a.group), str(a.sort), a.cls, repr(a.ty)) for a in new] == \
                [(a.kind, tuple(a.group), str(a.sort), a.cls, repr(a.ty)) for a in accs]:
            break
        accs = new
        head = st.clone(there)
        skip = set()
        for a in accs:
            a.ph = e.fresh('ph_' + '_'.join(str(x) for x in a.loc), a.sort)
        abstract(e, accs, head, skip, [a.ph for a in accs])
    else:
        raise Unsupported('a loop whose effects do not settle')
    for a in accs:
        a.init = term_of(e, a, st, base)
    # unary invariants
    cands = []
    for a in accs:
        if a.sort != J:
            continue
        p = a.ph
        if e.valid(st.pc, a.init != NULL):
            cands.append((a, lambda t: t != NULL))
        for f in (lambda t: NE(t), lambda t: z3.Or(t == NULL, NE(t))):
            if e.valid(st.pc, f(a.init)):
                cands.append((a, f))
                break
        for k in (4, 5):
            if e.valid(st.pc, z3.Or(a.init == NULL, KIND(a.init) == k)):
                cands.append((a, lambda t, k=k: z3.Or(t == NULL, KIND(t) == k)))
    for f in e.invariants(rec, accs, st):
        cands.append((None, f))

    same = uniform(e, accs, steps_of(e, accs, go + brk + ret, base))

    def inst(cs, which):
        return [f(getattr(a, which)) if a is not None else f([getattr(x, which) for x in accs]) for a, f in cs]

    while True:
        del e.loops[nloops:]
        skip = set()
        head = st.clone(there)
        abstract(e, accs, head, skip, [a.ph for a in accs])
        head.pc = head.pc + tuple(inst(cands, 'ph')) + tuple(u.at(u.acc.ph, u.key) for u in same)
        go, brk, ret, raised = trial(e, head, fr, once)
        after = go + brk + ret
        for s in after:
            if changed(e, head, s, skip) - locs:
                raise Unsupported('a loop whose effects do not settle')
        steps = [[term_of(e, a, s, base) for a in accs] for s in after]
        bad = []
        for a, f in cands:
            for s, row in zip(after, steps):
                goal = f(row[accs.index(a)]) if a is not None else f(row)
                if not e.valid(s.pc, goal):
                    bad.append((a, f))
                    break
        odd = [u for u in same if not all(u.kept(e, s.pc, row[accs.index(u.acc)]) for s, row in zip(after, steps))]
        if not bad and not odd:
            break
        same = [u for u in same if u not in odd]
        cands = [x for x in cands if x not in bad]
    for s in after:
        escaped(e, accs, s, head)
    inner = e.loops[nloops:]
    del e.loops[nloops:]
    # the record
    n = len(head.pc)
    joined = e.join_all([s.clone() for s in after], n) if after else None
    for a in accs:
        a.out = e.fresh('out_' + '_'.join(str(x) for x in a.loc), a.sort)
    if after:
        cols = list(steps[-1])
        for s, row in list(zip(after, steps))[-2::-1]:
            cols = [ite(land(*s.pc[n:]), x, y) for x, y in zip(row, cols)]
        for a, x in zip(accs, cols):
            a.step = x
    else:
        for a in accs:
            a.step = a.ph
    rec.head = head.pc
    rec.body = joined.pc if joined is not None else (z3.BoolVal(False),)
    rec.accs, rec.inner, rec.invs = accs, inner, inst(cands, 'ph')
    for r in raised:
        cond = land(*r.pc[n:])
        rec.raises[r.cls] = lor(rec.raises[r.cls], cond) if r.cls in rec.raises else cond
    # the state after the loop
    before = st.clone()
    stale(e, accs, st)
    abstract(e, accs, st, set(), [a.out for a in accs])
    for f in inst(cands, 'out'):
        e.fact(z3.Implies(land(*rec.entry), f))
    empty = lnot(there)
    for a in accs:
        e.fact(z3.Implies(land(*(rec.entry + (empty,))), a.out == a.init))
    evs = []
    for s in after + [r.state for r in raised]:
        for x in s.events[len(before.events):]:
            if not any(x is y for y in evs):
                evs.append(x)
    st.events = before.events + tuple(evs)
    if brk or ret:
        rec.broke = (lor(*[land(*s.pc[n:]) for s in brk + ret]), e.fresh('broke', B))
        e.fact(z3.Implies(land(*(rec.entry + (empty,))), lnot(rec.broke[1])))
        rows = list(zip(after, steps))
        for i, a in enumerate(accs):
            # what only a last iteration changes, and what it changes it to
            if all(e.valid(s.pc, row[i] == a.ph) for s, row in rows[:len(go)]):
                e.fact(z3.Implies(land(*(rec.entry + (lnot(rec.broke[1]),))), a.out == a.init))
            last = [z3.simplify(row[i]) for _, row in rows[len(go):]]
            if all(x.eq(last[0]) for x in last) and (z3.is_true(last[0]) or z3.is_false(last[0]) or e.litval(last[0]) is not None):
                e.fact(z3.Implies(land(*(rec.entry + (rec.broke[1],))), a.out == last[0]))
    if ret:
        rec.returned = (lor(*[land(*s.pc[n:]) for s in ret]), e.fresh('returned', B))
        e.fact(z3.Implies(rec.returned[1], rec.broke[1]))
        vals = ret[-1].env['%ret']
        t = e.term(vals, ret[-1])
        sort_bool = all(plain(s.env['%ret']) == {'bool'} for s in ret)
        for s in reversed(ret[:-1]):
            t = ite(land(*s.pc[n:]), e.term(s.env['%ret'], s), t)
        a = Acc(('ret',), J)
        a.ty = sym_type(e, [s.env['%ret'] for s in ret if isinstance(s.env['%ret'], (Sym, str))]) if not sort_bool else T.BOOL
        a.init, a.ph, a.step, a.out = NULL, e.fresh('ph_ret'), t, e.fresh('out_ret')
        a.step = ite(rec.returned[0], t, a.ph)
        a.kind = 'ret'
        rec.accs = rec.accs + [a]
        if all('ref' in plain(s.env['%ret']) for s in ret):
            raise Unsupported('a loop returns an object')
        if sort_bool:
            e.fact(z3.Or(a.out == TRUE, a.out == FALSE))
    for cls in sorted(rec.raises, key=str):
        flag = e.fresh('raised_%s' % cls.__name__, B)
        e.fact(z3.Implies(land(*(rec.entry + (empty,))), lnot(flag)))
        rec.flags[cls] = flag
    if rec.flags:
        # a loop ends with one exception
        fl = list(rec.flags.values())
        e.fact(*[z3.Not(z3.And(a, b)) for i, a in enumerate(fl) for b in fl[:i]])
    e.loops.append(rec)
    for cls in sorted(rec.raises, key=str):
        e.raise_if(st, rec.flags[cls], cls)
    if ret:
        s = st.clone(rec.returned[1])
        val = Sym(a.out, a.ty)
        s.env['%ret'] = BoolV(a.out == TRUE) if sort_bool else val
        fr.returns.append(s)
        st.pc = st.pc + (lnot(rec.returned[1]),)
    return rec


def has_at(t, k):
    """is a key in the dict of a term?  by the definition of 'store'"""
    if t.eq(EMPTY_DICT):
        return z3.BoolVal(False)
    if t.decl().eq(STO):
        return lor(t.arg(1) == k, has_at(t.arg(0), k))
    if t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), has_at(t.arg(1), k), has_at(t.arg(2), k))
    return HAS(t, k)


def get_at(t, k):
    if t.eq(EMPTY_DICT):
        return NULL
    if t.decl().eq(STO):
        return z3.If(t.arg(1) == k, t.arg(2), get_at(t.arg(0), k))
    if t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), get_at(t.arg(1), k), get_at(t.arg(2), k))
    return GET(t, k)


class Same(object):
    """invariant: all that a dict holds is one and the same value"""
    def __init__(self, acc, key, val):
        self.acc, self.key, self.val = acc, key, val

    def at(self, t, k):
        return z3.Implies(has_at(t, k), get_at(t, k) == self.val)

    def kept(self, e, pc, step):
        k = e.fresh('any_key')
        return e.valid(pc + (self.at(self.acc.ph, k),), self.at(step, k))


def steps_of(e, accs, after, base):
    return [[term_of(e, a, s, base) for a in accs] for s in after]


def mentions(t, x, seen=None):
    seen = set() if seen is None else seen
    if t.eq(x):
        return True
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return any(mentions(c, x, seen) for c in t.children())


def uniform(e, accs, rows):
    """candidates: dicts that start empty, where each iteration stores a value that does not depend on it"""
    out = []
    for i, a in enumerate(accs):
        if a.kind not in ('base', 'whole') or not a.init.eq(EMPTY_DICT):
            continue
        for row in rows:
            t = row[i]
            while t.decl().kind() == z3.Z3_OP_ITE:
                t = t.arg(1) if t.arg(1).decl().eq(STO) else t.arg(2)
            if not t.decl().eq(STO) or not t.arg(0).eq(a.ph):
                continue
            k = t.arg(1)
            v = z3.simplify(z3.substitute(t.arg(2), (HAS(a.ph, k), z3.BoolVal(False)), (GET(a.ph, k), NULL)))
            if not any(mentions(v, b.ph) for b in accs) and not mentions(v, k):
                out.append(Same(a, k, v))
    return out


def abstract(e, accs, st, skip, terms):
    for a, t in zip(accs, terms):
        value_at(e, a, t, st)
        if a.kind == 'slot':
            skip.add(a.ref)


def stale(e, accs, st):
    """objects that were replaced in the loop: nothing is known about them"""
    for a in accs:
        if a.kind == 'slot':
            for loc in a.group:
                g, v = lookup(e, loc, st)
                if g is None or not z3.is_false(g):
                    for r in refs_in(v):
                        if r in st.heap and not isinstance(st.heap[r], HObj):
                            st.heap[r] = HUnk(e.fresh('stale'))


def escaped(e, accs, st, head):
    """an object that is part of a term must not be reachable under another name"""
    held, named = set(), set()
    for a in accs:
        if a.kind in ('base', 'whole'):
            h = st.heap[a.loc[1]]
            ids = []
            if isinstance(h, HDict):
                ids = [r for _, _, v in h.dyn for r in refs_in(v)]
                if a.kind == 'whole':
                    ids += [r for _, v in h.ents.values() for r in refs_in(v)]
            elif isinstance(h, HList):
                ids = [r for _, v in h.items for r in refs_in(v)]
            reach(ids, st, held)
        elif a.kind == 'slot':
            ids = []
            for _, v in alternatives(e, a.group[0], st):
                ids += refs_in(v)
            named |= set(ids)
            inside = set()
            reach(ids, st, inside)
            held |= inside - set(ids)
    if held & named or held & set(head.heap):
        raise Unsupported('an object of the loop is shared')


class Classes(Unsupported):
    pass


def while_loop(e, s, st, fr, peeled=0):
    if s.orelse:
        raise Unsupported('while/else')
    # a few iterations first: loops that end by themselves
    save = st.clone()
    n = 0
    ctx = {'breaks': [], 'continues': []}
    base0 = len(st.pc)
    outs = []
    nret, nraise, nloops = len(fr.returns), len(e.raises[-1]), len(e.loops)
    cur = st.clone()
    while n < 12 and not cur.dead:
        c = z3.simplify(e.truth(e.ev(s.test, cur, fr), cur))
        if z3.is_false(c) or not e.feasible(cur, c):
            outs.append(cur)
            cur = None
            break
        if not z3.is_true(c) and e.feasible(cur, lnot(c)):
            outs.append(cur.clone(lnot(c)))
            cur = cur.clone(c)
        base = len(cur.pc)
        ctx['continues'] = []
        fr.loops.append(ctx)
        try:
            e.block(s.body, cur, fr)
        finally:
            fr.loops.pop()
        if ctx['continues']:
            e.become_all(cur, [cur.clone()] + ctx['continues'], base)
        n += 1
        if len(outs) > 3:
            break
    if cur is None or cur.dead:
        e.become_all(st, outs + ctx['breaks'], base0)
        return
    # does not end by itself: any number of iterations
    del fr.returns[nret:]
    del e.raises[-1][nraise:]
    del e.loops[nloops:]
    st.become(save)
    rec = LoopRecord(e.side, e.fresh('while'), '%s:%d' % (fr.name, s.lineno))
    rec.entry, rec.wild = st.pc, True

    def once(x):
        c = e.truth(e.ev(s.test, x, fr), x)
        x.pc = x.pc + (c,)
        if not e.feasible(x):
            x.kill()
            return
        e.block(s.body, x, fr)

    save = st.clone()
    nfacts = len(e.loops)
    try:
        run_fold(e, rec, st, fr, once, [], z3.BoolVal(True))
    except Classes:
        # the first iteration on its own
        if peeled > 1:
            raise
        del e.loops[nfacts:]
        st.become(save)
        test = e.truth(e.ev(s.test, st, fr), st)

        def first(x):
            ctx2 = {'breaks': [], 'continues': []}
            fr.loops.append(ctx2)
            try:
                e.block(s.body, x, fr)
            finally:
                fr.loops.pop()
            if ctx2['breaks'] or ctx2['continues']:
                raise Unsupported('break in a while loop')
            while_loop(e, s, x, fr, peeled + 1)

        e.branch(test, st, first, lambda x: None)
        return
    if rec.broke is not None:
        raise Unsupported('break in a while loop')
    c = e.truth(e.ev(s.test, st, fr), st)
    st.pc = st.pc + (lnot(c),)
