"""verifier with an explicit memory, for functions whose contracts speak about strings, lists, dicts and objects

The source of a function of /repo is parsed on every run and executed path by
path.  Values are terms of one datatype V; lists, dicts and attributes live in
arrays indexed by the identity of the object.  Loops over something of unknown
size are cut: what the body changes is forgotten, candidate invariants that hold
at the entry and are preserved by the body are kept (the others dropped), and the
paths out of the loop (its end, break, return, exceptions) go on from an arbitrary
iteration.  Calls are replaced by contracts where there is one, and inlined
otherwise.  Anything that is not understood raises Unsupported: nothing is proved.
"""
import ast
import builtins
import functools
import time
import types

import six
import z3

from proof.couple import Obligation, model_text
from proof.engine import source
from proof.values import Unsupported

_for_all = z3.ForAll


def for_all(vs, body, *args, **kw):
    """without the patterns where they are none (a term with a condition in it)"""
    try:
        return _for_all(vs, body, *args, **kw)
    except z3.Z3Exception:
        kw.pop('patterns', None)
        return _for_all(vs, body, *args, **kw)


z3.ForAll = for_all
z3.set_param('warning', False)


_V = z3.Datatype('V')
_V.declare('none')
_V.declare('bool', ('b', z3.BoolSort()))
_V.declare('int', ('i', z3.IntSort()))
_V.declare('str', ('s', z3.StringSort()))
_V.declare('ref', ('id', z3.IntSort()))
_V.declare('pair', ('fst', _V), ('snd', _V))
_V.declare('triple', ('t0', _V), ('t1', _V), ('t2', _V))
_V.declare('cls', ('c', z3.IntSort()))
V = _V.create()
S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
SET = z3.ArraySort(V, B)
MAP = z3.ArraySort(V, V)
# a list: elements, where they begin and end, and which values there are among them
_L = z3.Datatype('L')
_L.declare('mk', ('at', z3.ArraySort(I, V)), ('lo', I), ('hi', I), ('els', SET))
SEQ = _L.create()
NONE = V.none
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
NOTHING = z3.K(V, FALSE)
EMPTY = SEQ.mk(z3.K(I, NONE), z3.IntVal(0), z3.IntVal(0), NOTHING)
SORTS = {'has': SET, 'val': MAP, 'seq': SEQ}
ISLIST, ISDICT = z3.Function('is_list', I, B), z3.Function('is_dict', I, B)
ISA = z3.Function('isa', I, I, B)
CARD = z3.Function('card', SET, I)
SPLIT = z3.Function('split', S, S, I, SEQ)
RSPLIT = z3.Function('rsplit', S, S, I, SEQ)
JOIN = z3.Function('join', S, SEQ, S)
WIT = z3.Function('where', SEQ, V, I)


def land(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    return TRUE if not xs else xs[0] if len(xs) == 1 else z3.And(*xs)


def lor(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    return FALSE if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def lnot(x):
    return FALSE if z3.is_true(x) else TRUE if z3.is_false(x) else x.arg(0) if z3.is_not(x) else z3.Not(x)


def tidy(t):
    return z3.simplify(t)


def mk(q):
    return z3.is_app(q) and q.decl().eq(SEQ.mk)


def length(q):
    if mk(q):
        return z3.simplify(q.arg(2) - q.arg(1))
    return SEQ.hi(q) - SEQ.lo(q)


def nth(q, i):
    at, lo = (q.arg(0), q.arg(1)) if mk(q) else (SEQ.at(q), SEQ.lo(q))
    return z3.simplify(z3.Select(at, lo + i))


def els(q):
    return q.arg(3) if mk(q) else SEQ.els(q)


def fields(q):
    return (q.arg(0), q.arg(1), q.arg(2), q.arg(3)) if mk(q) else (SEQ.at(q), SEQ.lo(q), SEQ.hi(q), SEQ.els(q))


def append(q, x):
    at, lo, hi, e = fields(q)
    return z3.simplify(SEQ.mk(z3.Store(at, hi, x), lo, hi + 1, z3.Store(e, x, TRUE)))


def prepend(q, x):
    at, lo, hi, e = fields(q)
    return z3.simplify(SEQ.mk(z3.Store(at, lo - 1, x), lo - 1, hi, z3.Store(e, x, TRUE)))


QUANTIFIED = {}


def quantified(t):
    k = t.get_id()
    if k not in QUANTIFIED:
        QUANTIFIED[k] = (z3.is_quantifier(t) or any(quantified(c) for c in t.children()), t)
    return QUANTIFIED[k][0]


def root(at):
    while z3.is_store(at):
        at = at.arg(0)
    return at


def plain(t):
    """can a term be part of a pattern?"""
    if not z3.is_app(t) or t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR):
        return z3.is_int_value(t) or z3.is_string_value(t)
    return all(plain(c) for c in t.children())


def all_of(q, fn):
    """fn(element, position) for all elements of a list"""
    at, lo, hi, _ = fields(q)
    p = z3.Int('p?')
    x = z3.Select(at, p)
    r = root(at)
    body = z3.Implies(z3.And(lo <= p, p < hi), fn(x, p - lo))
    return z3.ForAll([p], body) if not plain(r) else z3.ForAll([p], body, patterns=[z3.Select(r, p)])


def all_pairs(q, fn):
    """fn(earlier element, later element) for all pairs of elements of a list"""
    at, lo, hi, _ = fields(q)
    p, o = z3.Int('p?'), z3.Int('o?')
    r = root(at)
    body = z3.Implies(z3.And(lo <= p, p < o, o < hi), fn(z3.Select(at, p), z3.Select(at, o)))
    return z3.ForAll([p, o], body)


def listing(xs):
    q = EMPTY
    for x in xs:
        q = append(q, x)
    return q


def is_opt(kind):
    return isinstance(kind, tuple) and kind[0] == 'opt'


def bare(kind):
    while is_opt(kind):
        kind = kind[1]
    return kind


def join_kinds(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    x, y = bare(a), bare(b)
    if x == y:
        return ('opt', x)
    if x is None and is_opt(a):
        return ('opt', y)
    if y is None and is_opt(b):
        return ('opt', x)
    if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[0] in ('dict', 'list') and len(x) > 1 and len(y) > 1 and (
            x[0] == 'dict' or len(x) == len(y) == 2):
        k = (x[0], join_kinds(x[1], y[1])) + ((x[2],) if len(x) == len(y) == 3 and x[2] == y[2] else ())
        return ('opt', k) if is_opt(a) or is_opt(b) else k
    return None


class SV(object):
    __slots__ = ()

    def __bool__(self):
        raise Unsupported('truth of a symbolic value used natively')

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    __hash__ = object.__hash__


class Z(SV):
    """None, or a value of a kind: 'str', 'int', 'bool', ('list', kind), ('dict', kind), ('set', kind), ('obj', class)"""
    __slots__ = ('t', 'kind')

    def __init__(self, t, kind=None):
        self.t, self.kind = t, kind

    def __repr__(self):
        return 'Z(%s:%s)' % (self.t, self.kind)


class ZB(SV):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class ZI(ZB):
    __slots__ = ()


class ZS(ZB):
    __slots__ = ()


class Tup(SV):
    __slots__ = ('items', 'names', 'cls')

    def __init__(self, items, names=None, cls=None):
        self.items, self.names, self.cls = list(items), names, cls


class Clo(SV):
    __slots__ = ('node', 'env', 'fr', 'defaults', 'name')

    def __init__(self, node, env, fr, defaults, name):
        self.node, self.env, self.fr, self.defaults, self.name = node, env, fr, defaults, name


class Meth(SV):
    __slots__ = ('self', 'name', 'fn')

    def __init__(self, self_, name, fn=None):
        self.self, self.name, self.fn = self_, name, fn


class Sup(SV):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class View(SV):
    """items(), keys(), values(), enumerate(), zip(), range(), reversed()"""
    __slots__ = ('kind', 'of')

    def __init__(self, kind, of):
        self.kind, self.of = kind, of


class Exc(SV):
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, list(args)


class Model(SV):
    """a callable of the contracts: fn(e, st, args, kw) -> [(state, value)]"""
    __slots__ = ('fn', 'name')

    def __init__(self, fn, name=''):
        self.fn, self.name = fn, name


class St(object):
    __slots__ = ('pc', 'env', 'mem', 'ghost', 'ek', 'keys', 'events')

    def __init__(self, pc=(), env=None, mem=None, ghost=None, ek=None, keys=None, events=()):
        self.pc, self.env, self.mem = tuple(pc), env if env is not None else {}, mem if mem is not None else {}
        self.ghost, self.ek, self.keys, self.events = ghost or {}, ek or {}, keys or {}, events

    def clone(self, *more):
        return St(self.pc + tuple(x for x in more if not z3.is_true(x)), dict(self.env), dict(self.mem), dict(self.ghost),
                  dict(self.ek), dict(self.keys), self.events)


class Frame(object):
    def __init__(self, glob, name, cls=None, outer=None):
        self.glob, self.name, self.cls, self.outer = glob, name, cls, outer
        self.nloops = 0


class DV(object):
    def __init__(self, timeout=10000):
        self.facts, self.count, self.ids = [], {}, 0
        self.settling = 0
        self.patience = 4000    # ms for a candidate for an invariant
        self.rounds, self.pending = 0, []
        self.second = 0         # ms for cvc5, where z3 gives up
        self.solver = z3.Solver()
        self.solver.set('timeout', 2000)
        self.flushed = 0
        self.fcache = {}
        self.contracts, self.methods, self.attrs = {}, {}, {}
        self.candidates = []
        self.sink = [[]]
        self.fields = {}        # class -> {attribute: kind}
        self.used, self.assumed = set(), set()
        self.timeout, self.depth = timeout, 0
        self.obs, self.log = [], []
        self.classes = []
        self.inline = ('pyopenapi',)
        self.stats = {'feasible': 0}
        self.literal = {}
        self.merging = 6
        self.container = {}     # class that extends dict or list -> kinds
        self.splits = 0         # how often the cases of an obligation may be told apart
        self.abstract = 0       # milliseconds to try it first without the theory of strings
        self.retry = 0          # milliseconds, for units about strings
        self.tail = None        # what a[n:] of a string is called, for units that give lemmas about it
        self.closed = set()     # classes whose objects have the attributes of fields and of the class only
        self.exact = set()      # classes that stand for themselves only, not for derived classes
        self.nloop = 0
        self.unroll_while = 0
        self.dump = False
        self.ends = []
        self.kept, self.lost, self.expect = set(), set(), set()
        self.joins = []
        self.kinds = []         # [(condition on a term, kind)]: kinds of values that are found out by type checks
        self.cut, self.met = False, {}      # is the contract taken for the first call, too; the functions that call themselves
        self.stack, self.recursion = [], None       # what a function gives that calls itself, by its contract
        self.equality = None
        self.unordered = False  # list(set) is a list of the elements in any order, not a loop
        self.keys = 'str'       # what the keys of a dict of a kind that does not say are
        self.chains = True

    #
    # facts
    #

    def fact(self, *fs):
        self.facts += [f for f in fs if not z3.is_true(f)]

    def fresh(self, name, sort=V):
        n = self.count.get(name, 0)
        self.count[name] = n + 1
        return z3.Const('%s!%d' % (name, n), sort)

    def feasible(self, st, extra=TRUE):
        cs = [c for c in st.pc if not z3.is_true(c) and not quantified(c)]
        x = tidy(extra)
        if z3.is_false(x):
            return False
        if not z3.is_true(x):
            cs.append(x)
        key = (tuple(c.get_id() for c in cs), len(self.facts))
        if key in self.fcache:
            return self.fcache[key][0]
        while self.flushed < len(self.facts):
            if not quantified(self.facts[self.flushed]):
                self.solver.add(self.facts[self.flushed])
            self.flushed += 1
        self.solver.push()
        self.solver.add(*cs)
        self.stats['feasible'] += 1
        r = self.solver.check() != z3.unsat
        self.solver.pop()
        self.fcache[key] = (r, cs)
        return r

    def must(self, st, c):
        c = tidy(c)
        if z3.is_true(c):
            return True
        return not self.feasible(st, lnot(c))

    def mem(self, st, name):
        if name not in st.mem:
            st.mem[name] = z3.Const(name + '0', z3.ArraySort(I, SORTS.get(name, V)))
        return st.mem[name]

    def code(self, cls):
        for i, c in enumerate(self.classes):
            if c is cls:
                return i
        self.classes.append(cls)
        return len(self.classes) - 1

    #
    # conversions
    #

    def v(self, x, st):
        """the V term of a value"""
        if isinstance(x, Z):
            return x.t
        if isinstance(x, ZS):
            return V.str(x.t)
        if isinstance(x, ZI):
            return V.int(x.t)
        if isinstance(x, ZB):
            return V.bool(x.t)
        if isinstance(x, (Tup, tuple)):
            items = x.items if isinstance(x, Tup) else x
            if len(items) == 2:
                return V.pair(self.v(items[0], st), self.v(items[1], st))
            if len(items) == 3:
                return V.triple(*[self.v(y, st) for y in items])
            raise Unsupported('a tuple of %d elements as a value' % len(items))
        if x is None:
            return NONE
        if isinstance(x, bool):
            return V.bool(z3.BoolVal(x))
        if isinstance(x, int):
            return V.int(z3.IntVal(x))
        if isinstance(x, str):
            return V.str(z3.StringVal(x))
        if isinstance(x, type):
            return V.cls(z3.IntVal(self.code(x)))
        raise Unsupported('no term for %r' % (x,))

    def kind(self, x, st=None):
        if isinstance(x, Z):
            if x.kind is None or z3.is_app(x.t) and x.t.decl().eq(V.ref):
                return x.kind
            return ('opt', x.kind)
        if isinstance(x, ZS) or isinstance(x, str):
            return 'str'
        if isinstance(x, ZI):
            return 'int'
        if x is None:
            return ('opt', None)
        if isinstance(x, (ZB, bool)):
            return 'bool'
        if isinstance(x, int):
            return 'int'
        if isinstance(x, (Tup, tuple)):
            items = x.items if isinstance(x, Tup) else x
            return ('tup',) + tuple(self.kind(y) for y in items)
        return None

    def make(self, t, kind):
        """the value of a term that is not None"""
        if kind == 'str':
            return ZS(tidy(V.s(t)))
        if kind == 'int':
            return ZI(tidy(V.i(t)))
        if kind == 'bool':
            return ZB(tidy(V.b(t)))
        if isinstance(kind, tuple) and kind[0] == 'tup':
            fs = (V.fst, V.snd) if len(kind) == 3 else (V.t0, V.t1, V.t2)
            if len(kind) - 1 == len(fs):
                return Tup([self.make(tidy(f(t)), k) if k is not None and not is_opt(k) else self.value(f(t), k)
                            for f, k in zip(fs, kind[1:])])
        return Z(t, bare(kind))

    def value(self, t, kind):
        """the value of a term that may be None"""
        t = tidy(t)
        if t.eq(NONE):
            return None
        return Z(t, bare(kind))

    def read(self, t, kind, st, there=TRUE):
        """the value of a term that is read from the memory"""
        t = tidy(t)
        if z3.is_app(t):
            d = t.decl()
            if d.eq(V.none.decl() if hasattr(V.none, 'decl') else V.none):
                return None
            if d.eq(V.str):
                return ZS(t.arg(0))
            if d.eq(V.int):
                return ZI(t.arg(0))
            if d.eq(V.bool):
                return ZB(t.arg(0))
        fs = []
        opt, k = isinstance(kind, tuple) and kind[0] == 'opt', bare(kind)
        if k is not None:
            f = self.is_kind(t, k)
            fs.append(lor(t == NONE, f) if opt else f)
        if not (k in ('str', 'int', 'bool')):
            fs.append(z3.Implies(V.is_ref(t), V.id(t) >= self.ids))
        fs = [f for f in fs if not z3.is_true(tidy(f))]
        if fs:
            st.pc += (z3.Implies(there, land(*fs)),)
        if isinstance(k, tuple) and k[0] == 'or':
            return Z(t, None)
        if k is not None and not opt:
            return self.make(t, k)
        return Z(t, k)

    def kind_of_term(self, t):
        if z3.is_app(t):
            for c, k in ((V.str, 'str'), (V.int, 'int'), (V.bool, 'bool')):
                if t.decl().eq(c):
                    return k
        return None

    def typed(self, t, kind, null=False):
        """fact: a term of an input is of a kind"""
        f = self.is_kind(t, kind)
        self.fact(lor(t == NONE, f) if null else f)

    def is_kind(self, t, kind):
        if kind is None:
            return TRUE
        if is_opt(kind):
            return lor(t == NONE, self.is_kind(t, kind[1]))
        if kind == 'str':
            return V.is_str(t)
        if kind == 'int':
            return V.is_int(t)
        if kind == 'bool':
            return V.is_bool(t)
        if kind[0] == 'or':
            return lor(*[self.is_kind(t, k) for k in kind[1:]])
        if kind[0] == 'tup':
            if len(kind) == 3:
                return land(V.is_pair(t), self.is_kind(V.fst(t), kind[1]), self.is_kind(V.snd(t), kind[2]))
            return land(V.is_triple(t), *[self.is_kind(f(t), k) for f, k in zip((V.t0, V.t1, V.t2), kind[1:])])
        if kind[0] == 'list':
            return land(V.is_ref(t), ISLIST(V.id(t)), z3.Not(ISDICT(V.id(t))))
        if kind[0] == 'dict':
            return land(V.is_ref(t), ISDICT(V.id(t)), z3.Not(ISLIST(V.id(t))))
        if kind[0] == 'obj':
            return land(V.is_ref(t), z3.Not(ISDICT(V.id(t))), z3.Not(ISLIST(V.id(t))))
        return V.is_ref(t)

    #
    # exceptions and forks
    #

    def throw(self, st, cls, val=None):
        self.sink[-1].append((st, cls, val))
        return []

    def guard(self, st, bad, cls):
        """-> the state in which 'bad' does not hold (or none); raises on the other path"""
        bad = tidy(bad)
        if z3.is_false(bad):
            return [st]
        if self.feasible(st, bad):
            self.throw(st.clone(bad), cls)
            return [st.clone(lnot(bad))] if self.feasible(st, lnot(bad)) else []
        return [st]

    def fork(self, st, c):
        """-> [(state, bool)]"""
        if isinstance(c, bool):
            return [(st, c)]
        c = tidy(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        yes, no = self.feasible(st, c), self.feasible(st, lnot(c))
        if yes and no:
            return [(st.clone(c), True), (st.clone(lnot(c)), False)]
        return [(st, True)] if yes else [(st, False)] if no else []

    def some(self, st, x, exc=AttributeError):
        """-> [(state, value that is not None)]"""
        if x is None:
            return self.throw(st, exc)
        if isinstance(x, Z):
            out = []
            for s in self.guard(st, x.t == NONE, exc):
                out.append((s, self.make(x.t, self.kind_at(s, x))))
            return out
        return [(st, x)]

    def kind_at(self, st, x):
        if x.kind is not None:
            return x.kind
        t = x.t
        if self.must(st, V.is_str(t)):
            return 'str'
        if self.must(st, V.is_int(t)):
            return 'int'
        if self.must(st, V.is_bool(t)):
            return 'bool'
        if self.must(st, V.is_ref(t)):
            if self.must(st, ISLIST(V.id(t))):
                return ('list', None)
            if self.must(st, ISDICT(V.id(t))):
                return ('dict', None)
            for is_, k in self.kinds:
                if self.must(st, is_(t)):
                    return k
        return None

    def each(self, pairs, fn):
        out = []
        for st, x in pairs:
            out += fn(st, x)
        return out

    #
    # objects
    #

    def new(self, st, kind, content=None):
        self.ids -= 1
        i = z3.IntVal(self.ids)
        if kind[0] == 'list':
            self.put(st, 'seq', i, content if content is not None else EMPTY)
            self.fact(ISLIST(i), z3.Not(ISDICT(i)))
        elif kind[0] in ('dict', 'set'):
            self.put(st, 'has', i, content[0] if content is not None else NOTHING)
            self.put(st, 'val', i, content[1] if content is not None and len(content) > 1 else z3.K(V, NONE))
            self.fact(z3.BoolVal(True) if kind[0] == 'set' else ISDICT(i), z3.Not(ISLIST(i)))
        else:
            self.fact(z3.Not(ISDICT(i)), z3.Not(ISLIST(i)))
        return Z(V.ref(i), kind)

    def put(self, st, name, i, content):
        st.mem[name] = z3.Store(self.mem(st, name), i, content)

    def seq(self, x, st):
        q = tidy(z3.Select(self.mem(st, 'seq'), self.ident(x)))
        if not mk(q):
            f = length(q) >= 0
            if not any(f.eq(c) for c in st.pc):
                st.pc += (f,)
        return q

    def has(self, x, st):
        return tidy(z3.Select(self.mem(st, 'has'), self.ident(x)))

    def val(self, x, st):
        return tidy(z3.Select(self.mem(st, 'val'), self.ident(x)))

    def ident(self, x):
        return tidy(V.id(x.t))

    def elem_kind(self, x, st):
        """kind of what a list, dict or set holds"""
        i = self.ident(x)
        if z3.is_int_value(i) and i.as_long() < 0:
            k = st.ek.get(i.as_long(), 'empty')
            return None if k == 'empty' else k
        return x.kind[1] if isinstance(x.kind, tuple) and len(x.kind) > 1 else None

    def key_kind(self, x):
        return x.kind[2] if isinstance(x.kind, tuple) and len(x.kind) > 2 else self.keys

    def note_kind(self, x, k, st):
        """a value of kind k was put into x"""
        i = self.ident(x)
        if z3.is_int_value(i) and i.as_long() < 0:
            old = st.ek.get(i.as_long(), 'empty')
            st.ek[i.as_long()] = k if old == 'empty' else join_kinds(old, k)

    #
    # truth, equality
    #

    def truth(self, x, st):
        """-> z3 Bool"""
        if isinstance(x, ZS):
            return x.t != z3.StringVal('')
        if isinstance(x, ZI):
            return x.t != 0
        if isinstance(x, ZB):
            return x.t
        if isinstance(x, Tup):
            return z3.BoolVal(bool(x.items))
        if isinstance(x, View):
            raise Unsupported('truth of a view')
        if isinstance(x, Z):
            t, k = x.t, bare(x.kind)
            if k == 'str':
                return land(t != NONE, V.s(t) != z3.StringVal(''))
            if k == 'int':
                return land(t != NONE, V.i(t) != 0)
            if k == 'bool':
                return land(t != NONE, V.b(t))
            if isinstance(k, tuple):
                if k[0] == 'list':
                    return land(t != NONE, length(self.seq(x, st)) > 0)
                if k[0] in ('dict', 'set'):
                    return land(t != NONE, self.has(x, st) != NOTHING)
                if k[0] == 'tup':
                    return t != NONE
                if k[0] == 'obj':
                    if ('truth', k[1]) in self.methods:
                        return land(t != NONE, self.methods[('truth', k[1])](self, st, x))
                    if isinstance(k[1], type) and any('__len__' in c.__dict__ or '__bool__' in c.__dict__ for c in k[1].__mro__):
                        raise Unsupported('truth of %s' % k[1].__name__)
                    return t != NONE
            i = V.id(t)
            return z3.Or(z3.And(V.is_bool(t), V.b(t)), z3.And(V.is_int(t), V.i(t) != 0),
                         z3.And(V.is_str(t), V.s(t) != z3.StringVal('')), V.is_pair(t), V.is_triple(t), V.is_cls(t),
                         z3.And(V.is_ref(t), z3.If(ISLIST(i), length(z3.Select(self.mem(st, 'seq'), i)) > 0, z3.If(
                             ISDICT(i), z3.Select(self.mem(st, 'has'), i) != NOTHING, TRUE))))
        if isinstance(x, SV):
            return TRUE
        return z3.BoolVal(bool(x))

    def eq(self, a, b, st):
        if not isinstance(a, SV) and not isinstance(b, SV):
            if isinstance(a, (tuple, list)) and self.symbolic(a) or isinstance(b, (tuple, list)) and self.symbolic(b):
                return self.eq(Tup(list(a)), Tup(list(b)), st)
            return z3.BoolVal(bool(a == b))
        if isinstance(a, (ZS, str)) and isinstance(b, (ZS, str)):
            return self.s(a) == self.s(b)
        if isinstance(a, ZI) and self.is_int(b) or isinstance(b, ZI) and self.is_int(a):
            return self.i(a) == self.i(b)
        if isinstance(a, (Tup, tuple)) and isinstance(b, (Tup, tuple)):
            x = a.items if isinstance(a, Tup) else a
            y = b.items if isinstance(b, Tup) else b
            return land(*[self.eq(p, q, st) for p, q in zip(x, y)]) if len(x) == len(y) else FALSE
        if self.equality is not None:
            r = self.equality(self, a, b, st)
            if r is not None:
                return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Clo, Meth, Sup, View, Exc, Model)):
                raise Unsupported('equality of %r' % x)
            if isinstance(y, (list, dict, set)) and not isinstance(y, SV):
                raise Unsupported('equality with a container')
            if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'list' and isinstance(y, Z) and y.kind == x.kind:
                raise Unsupported('equality of lists')
            if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'obj' and isinstance(x.kind[1], type):
                if any('__eq__' in c.__dict__ for c in x.kind[1].__mro__ if c is not object):
                    raise Unsupported('equality of %s' % x.kind[1].__name__)
        return self.v(a, st) == self.v(b, st)

    def symbolic(self, x):
        if isinstance(x, SV):
            return True
        return isinstance(x, (tuple, list)) and any(self.symbolic(y) for y in x)

    def is_int(self, x):
        return isinstance(x, ZI) or isinstance(x, int) and not isinstance(x, bool)

    def i(self, x):
        return x.t if isinstance(x, ZI) else z3.IntVal(x)

    def s(self, x):
        return x.t if isinstance(x, ZS) else z3.StringVal(x)

    def is_str(self, x):
        return isinstance(x, (ZS, str))

    def boolean(self, c):
        if isinstance(c, bool):
            return c
        c = tidy(c)
        return True if z3.is_true(c) else False if z3.is_false(c) else ZB(c)

    def contains(self, coll, x, st):
        if isinstance(coll, View) and coll.kind == 'keys':
            coll = coll.of
        if isinstance(coll, Z) and isinstance(coll.kind, tuple):
            if coll.kind[0] == 'list':
                return self.member(self.seq(coll, st), self.v(x, st))
            if coll.kind[0] in ('dict', 'set'):
                return z3.Select(self.has(coll, st), self.v(x, st))
        if isinstance(coll, (ZS, str)) and self.is_str(x):
            return z3.Contains(self.s(coll), self.s(x))
        if isinstance(coll, Tup):
            return lor(*[self.eq(x, y, st) for y in coll.items])
        if not isinstance(coll, SV):
            if not isinstance(x, SV):
                return z3.BoolVal(x in coll)
            return lor(*[self.eq(x, y, st) for y in coll])
        raise Unsupported('membership in %r' % (coll,))

    #
    # merging of paths
    #

    def squeeze(self, states):
        if len(states) <= self.merging:
            return states
        out = []
        for s in states:
            for i, x in enumerate(out):
                m = self.merge(x, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ca, cb = land(*a.pc[n:]), land(*b.pc[n:])
        if set(a.env) != set(b.env) or a.ghost.keys() != b.ghost.keys() or a.events != b.events:
            return None
        env = {}
        for k in a.env:
            x = self.mergev(ca, a.env[k], b.env[k], a, b)
            if x is Ellipsis:
                return None
            env[k] = x
        mem = {}
        for k in set(a.mem) | set(b.mem):
            x, y = self.mem(a, k), self.mem(b, k)
            mem[k] = x if x.eq(y) else z3.If(ca, x, y)
        ghost = dict((k, a.ghost[k] if a.ghost[k].eq(b.ghost[k]) else z3.If(ca, a.ghost[k], b.ghost[k])) for k in a.ghost)
        ek = {}
        for k in set(a.ek) | set(b.ek):
            x, y = a.ek.get(k, 'empty'), b.ek.get(k, 'empty')
            ek[k] = y if x == 'empty' else x if y == 'empty' else join_kinds(x, y)
        keys = {}
        for k, v in a.keys.items():
            if k in b.keys:
                w = b.keys[k]
                if k[0] == 'item':
                    x = self.mergev(ca, v[0], w[0], a, b)
                    if x is Ellipsis:
                        return None
                    keys[k] = (x,)
                else:
                    x = self.mergev(ca, v, w, a, b)
                    if x is Ellipsis:
                        return None
                    keys[k] = x
        c = tidy(lor(ca, cb))
        return St(a.pc[:n] + (() if z3.is_true(c) else (c,)), env, mem, ghost, ek, keys, a.events)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Z) and isinstance(b, Z):
            return a.t.eq(b.t)
        if isinstance(a, ZB) and type(a) is type(b):
            return a.t.eq(b.t)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Clo) and isinstance(b, Clo):
            return a.node is b.node
        if isinstance(a, Meth) and isinstance(b, Meth):
            return a.name == b.name and a.fn is b.fn and self.same(a.self, b.self)
        if isinstance(a, View) and isinstance(b, View):
            return a.kind == b.kind and self.same(a.of, b.of)
        if isinstance(a, SV) or isinstance(b, SV):
            return False
        try:
            return type(a) is type(b) and bool(a == b)
        except Exception:
            return False

    def mergev(self, c, a, b, sa, sb):
        if self.same(a, b):
            return a
        for cls, to, ok in ((ZS, self.s, self.is_str), (ZI, self.i, self.is_int),
                            (ZB, lambda x: x.t if isinstance(x, ZB) else z3.BoolVal(x),
                             lambda x: type(x) is ZB or isinstance(x, bool))):
            if ok(a) and ok(b):
                return cls(z3.If(c, to(a), to(b)))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.names == b.names:
            items = [self.mergev(c, x, y, sa, sb) for x, y in zip(a.items, b.items)]
            return Ellipsis if any(x is Ellipsis for x in items) else Tup(items, a.names, a.cls)
        try:
            x, y = self.v(a, sa), self.v(b, sb)
        except Unsupported:
            return Ellipsis
        ka, kb = bare(self.kind(a)), bare(self.kind(b))
        if a is not None and b is not None and ka != kb:
            if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] and ka[0] in ('list', 'dict', 'set'):
                kb = ka = (ka[0], None)
            else:
                return Ellipsis
        return Z(z3.If(c, x, y), ka if a is not None else kb)

    #
    # functions
    #

    def bind(self, args, defaults, a, kw, name):
        env = {}
        names = [x.arg for x in args.args]
        if len(a) > len(names):
            if not args.vararg:
                raise Unsupported('too many arguments for %s' % name)
            env[args.vararg.arg] = Tup(a[len(names):])
        elif args.vararg:
            env[args.vararg.arg] = Tup([])
        for n, x in zip(names, a):
            env[n] = x
        kw = dict(kw)
        for n in names:
            if n in kw:
                if n in env:
                    raise Unsupported('argument %s twice' % n)
                env[n] = kw.pop(n)
        if kw:
            raise Unsupported('unknown arguments %s of %s' % (sorted(kw), name))
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            env.setdefault(n, d)
        for n in names:
            if n not in env:
                raise Unsupported('argument %s of %s is missing' % (n, name))
        if args.kwarg:
            raise Unsupported('keyword arguments')
        return env

    def positional(self, fn, a, kw):
        node = source(fn)
        env = self.bind(node.args, fn.__defaults__ or (), a, kw, fn.__name__)
        return [env[x.arg] for x in node.args.args]

    def function(self, fn, a, kw, st):
        """execute the body of a function -> [(state, result)]"""
        node = source(fn)
        env = self.bind(node.args, fn.__defaults__ or (), a, kw, fn.__name__)
        if fn.__closure__:
            for n, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                env.setdefault(n, cell.cell_contents)
        if fn.__module__ and fn.__module__.startswith('pyopenapi'):
            self.used.add(fn.__module__ + '.' + fn.__qualname__)
        return self.run(node, env, Frame(fn.__globals__, fn.__qualname__, self.owner(fn)), st)

    def owner(self, fn):
        parts = fn.__qualname__.split('.')
        if len(parts) < 2 or '<locals>' in parts:
            return None
        obj = fn.__globals__.get(parts[0])
        for p in parts[1:-1]:
            obj = getattr(obj, p, None)
        return obj if isinstance(obj, type) else None

    def run(self, node, env, fr, st):
        if self.depth > 12:
            raise Unsupported('recursion of %s' % fr.name)
        if self.recursion is not None and (any(n is node for n in self.stack) or (self.cut and calls_itself(node))):
            self.met.setdefault(id(node), []).append((node, dict(env), fr))
            ret = self.recursion(self, st, [env[x.arg] for x in node.args.args])
            if ret is not NotImplemented:
                return ret
        self.depth += 1
        self.stack.append(node)
        try:
            s = st.clone()
            caller, s.env = s.env, env
            out = []
            thrown = len(self.sink[-1])
            if isinstance(node, ast.Lambda):
                res = self.ev(node.body, s, fr)
            else:
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node)) and ('yield',) not in s.ghost:
                    raise Unsupported('a generator')
                res = []
                for x, o in self.block(node.body, s, fr):
                    if o is None:
                        res.append((x, None))
                    elif o[0] == 'return':
                        res.append((x, o[1]))
                    else:
                        raise Unsupported('break outside of a loop')
            for i in range(thrown, len(self.sink[-1])):
                x, cls, val = self.sink[-1][i]
                x = x.clone()
                x.env = dict(caller)
                self.sink[-1][i] = (x, cls, val)
            for x, val in res:
                x = x.clone()
                x.env = {'%ret': val}
                out.append(x)
            out = self.squeeze(out)
            pairs = []
            for x in out:
                val = x.env['%ret']
                x.env = dict(caller)
                pairs.append((x, val))
            return pairs
        finally:
            self.depth -= 1
            self.stack.pop()

    def calls(self, f, args, kw, st):
        """-> [(state, result)]"""
        if isinstance(f, Clo):
            env = self.bind(f.node.args, f.defaults, args, kw, f.name)
            full = dict(f.env)
            for k, x in st.env.items():
                if k in full and not k.startswith('%') and self.encloses(f, st):
                    full[k] = x
            full.update(env)
            if not isinstance(f.node, ast.Lambda):
                full[f.name] = f
            return self.run(f.node, full, Frame(f.fr.glob, f.name, None, f.fr), st)
        if isinstance(f, Model):
            return f.fn(self, st, args, kw)
        if isinstance(f, Meth):
            if f.fn is not None:
                return self.calls(f.fn, [f.self] + list(args), kw, st)
            return self.method(f.self, f.name, list(args), kw, st)
        if isinstance(f, Z) and isinstance(bare(f.kind), tuple) and (bare(f.kind)[1], '__call__') in self.methods:
            out = []
            for s, x in self.some(st, f, TypeError):
                out += self.methods[(x.kind[1], '__call__')](self, s, x, list(args), kw)
            return out
        if isinstance(f, SV):
            raise Unsupported('call of %r' % f)
        if isinstance(f, types.MethodType):
            return self.calls(f.__func__, [f.__self__] + list(args), kw, st)
        try:
            h = self.contracts.get(f)
        except TypeError:
            h = None
        if h is not None:
            ret = h(self, st, args, kw)
            if ret is not NotImplemented:
                return ret
        from proof import dvlib
        try:
            h = dvlib.MODELS.get(f)
        except TypeError:
            h = None
        if h is not None:
            ret = h(self, st, args, kw)
            if ret is not NotImplemented:
                return ret
        if isinstance(f, type) and issubclass(f, BaseException):
            return [(st, Exc(f, args))]
        if isinstance(f, type) and f.__module__.startswith(self.inline):
            return self.construct(f, args, kw, st)
        if isinstance(f, types.FunctionType) and f.__module__ and f.__module__.startswith(self.inline):
            return self.function(f, args, kw, st)
        if not any(self.symbolic(x) for x in list(args) + list(kw.values())):
            try:
                return [(st, f(*args, **kw))]
            except Exception as x:
                return self.throw(st, type(x))
        raise Unsupported('call of %s' % getattr(f, '__name__', f))

    def encloses(self, f, st):
        return True

    def construct(self, cls, args, kw, st):
        s = st.clone()
        obj = self.new(s, ('obj', cls))
        init = None
        for c in cls.__mro__:
            if '__init__' in c.__dict__ and c is not object:
                init = c.__dict__['__init__']
                break
        if init is None:
            return [(s, obj)]
        return [(x, obj) for x, _ in self.calls(init, [obj] + list(args), kw, s)]

    #
    # statements: -> [(state, None or outcome)]
    #

    def block(self, stmts, st, fr):
        live, outs = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for y, o in self.stmt(s, x, fr):
                    if o is None:
                        nxt.append(y)
                    else:
                        outs.append((y, o))
            live = self.squeeze(nxt)
            if not live:
                break
        return [(x, None) for x in live] + outs

    def stmt(self, s, st, fr):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, st, fr)

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        if isinstance(s.value, ast.Yield):
            out = []
            for x, v in self.ev(s.value.value, st, fr):
                x = x.clone()
                x.ghost[('yield',)] = append(x.ghost[('yield',)], self.v(v, x))
                out.append((x, None))
            return out
        return [(x, None) for x, _ in self.ev(s.value, st, fr)]

    def st_Pass(self, s, st, fr):
        return [(st, None)]

    def st_Import(self, s, st, fr):
        import importlib
        st = st.clone()
        for a in s.names:
            mod = importlib.import_module(a.name)
            st.env[a.asname or a.name.split('.')[0]] = mod if a.asname else importlib.import_module(a.name.split('.')[0])
        return [(st, None)]

    def st_FunctionDef(self, s, st, fr):
        if s.decorator_list:
            raise Unsupported('decorated inner function')
        out = []
        for x, d in self.evs(s.args.defaults, st, fr):
            x = x.clone()
            x.env[s.name] = Clo(s, dict(x.env), fr, d, s.name)
            out.append((x, None))
        return out

    def st_Return(self, s, st, fr):
        if s.value is None:
            return [(st, ('return', None))]
        return [(x, ('return', v)) for x, v in self.ev(s.value, st, fr)]

    def st_Raise(self, s, st, fr):
        if s.exc is None:
            if '%exc' not in st.env:
                raise Unsupported('bare raise')
            e = st.env['%exc']
            return self.throw(st, e.cls, e)
        for x, v in self.ev(s.exc, st, fr):
            if isinstance(v, Exc):
                self.throw(x, v.cls, v)
            elif isinstance(v, type) and issubclass(v, BaseException):
                self.throw(x, v, Exc(v))
            else:
                raise Unsupported('raise')
        return []

    def st_Assert(self, s, st, fr):
        out = []
        for x, v in self.ev(s.test, st, fr):
            out += [(y, None) for y in self.guard(x, lnot(self.truth(v, x)), AssertionError)]
        return out

    def st_If(self, s, st, fr):
        out = []
        for x, v in self.ev(s.test, st, fr):
            for y, c in self.fork(x, self.truth(v, x)):
                out += self.block(s.body if c else s.orelse, y, fr)
        return out

    def st_Assign(self, s, st, fr):
        live = self.ev(s.value, st, fr)
        out = []
        for x, v in live:
            states = [x]
            for t in s.targets:
                states = [z for y in states for z in self.assign(t, v, y, fr)]
            out += [(y, None) for y in states]
        return out

    def st_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [(st, None)]
        return [(y, None) for x, v in self.ev(s.value, st, fr) for y in self.assign(s.target, v, x, fr)]

    def st_AugAssign(self, s, st, fr):
        import copy
        load = copy.copy(s.target)
        load.ctx = ast.Load()
        out = []
        for x, (old, v) in self.evs([load, s.value], st, fr):
            if isinstance(s.op, ast.Add) and isinstance(old, Z) and isinstance(old.kind, tuple) and old.kind[0] == 'list':
                out += [(y, None) for y, _ in self.method(old, 'extend', [v], {}, x)]
                continue
            for y, n in self.binop(s.op, old, v, x):
                out += [(z, None) for z in self.assign(s.target, n, y, fr)]
        return out

    def st_Delete(self, s, st, fr):
        live = [st]
        for t in s.targets:
            nxt = []
            for x in live:
                if isinstance(t, ast.Name):
                    x = x.clone()
                    x.env.pop(t.id, None)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, (o, k) in self.evs([t.value, t.slice], x, fr):
                        nxt += self.delitem(o, k, y)
                else:
                    raise Unsupported('del')
            live = nxt
        return [(x, None) for x in live]

    def assign(self, t, val, st, fr):
        """-> states"""
        if isinstance(t, ast.Name):
            st = st.clone()
            st.env[t.id] = val
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            states = []
            for x, vals in self.unpack(val, len(t.elts), st):
                live = [x]
                for tt, v in zip(t.elts, vals):
                    live = [z for y in live for z in self.assign(tt, v, y, fr)]
                states += live
            return states
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('assignment to a slice')
            return [z for y, (o, k) in self.evs([t.value, t.slice], st, fr) for z in self.setitem(o, k, val, y)]
        if isinstance(t, ast.Attribute):
            return [z for y, o in self.ev(t.value, st, fr) for z in self.setattr(o, self.mangle(t.attr, fr), val, y)]
        raise Unsupported('assignment to %s' % type(t).__name__)

    def unpack(self, val, n, st):
        out = []
        for s, x in self.some(st, val, TypeError) if isinstance(val, Z) or val is None else [(st, val)]:
            if isinstance(x, (Tup, tuple, list)):
                items = x.items if isinstance(x, Tup) else list(x)
                if len(items) != n:
                    self.throw(s, ValueError)
                    continue
                out.append((s, items))
            elif isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'list':
                q = self.seq(x, s)
                for y in self.guard(s, length(q) != n, ValueError):
                    k = self.elem_kind(x, y)
                    out.append((y, [self.element(q, z3.IntVal(j), k, y) for j in range(n)]))
            else:
                raise Unsupported('unpacking %r' % (x,))
        return out

    def element(self, q, i, kind, st):
        """element of a sequence that has one there"""
        from proof.dvlib import units
        x = nth(q, i)
        if not units(q):
            st.pc += (z3.Implies(z3.And(0 <= i, i < length(q)), z3.Select(els(q), x)),)
            self.member(q, x)
        return self.read(x, kind, st, z3.And(0 <= i, i < length(q)))

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None and f.cls is None:
                f = f.outer
            if f is not None:
                return '_%s%s' % (f.cls.__name__.lstrip('_'), name)
        return name

    def st_With(self, s, st, fr):
        """of contexts that hide no exception: try, finally"""
        if len(s.items) != 1:
            raise Unsupported('with several contexts')
        item, n = s.items[0], '<context %d>' % s.lineno
        load = lambda: ast.Name(n, ast.Load())  # noqa
        call = lambda m: ast.Call(ast.Attribute(load(), m, ast.Load()), [], [])  # noqa
        enter = ast.Expr(call('__enter__')) if item.optional_vars is None else ast.Assign([item.optional_vars], call('__enter__'))
        new = [ast.Assign([ast.Name(n, ast.Store())], item.context_expr), enter, ast.Try(s.body, [], [], [ast.Expr(call('__exit__'))])]
        for x in new:
            ast.fix_missing_locations(ast.copy_location(x, s))
        return self.block(new, st, fr)

    def st_Try(self, s, st, fr):
        if s.finalbody:
            # what follows every outcome; an outcome of its own replaces that
            inner = ast.copy_location(ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[]), s)
            self.sink.append([])
            try:
                res = self.st_Try(inner, st, fr) if s.handlers else self.block(s.body, st, fr)
            finally:
                caught = self.sink.pop()
            out = []
            for x, o in res:
                out += [(y, o if p is None else p) for y, p in self.block(s.finalbody, x, fr)]
            for x, cls, val in caught:
                for y, p in self.block(s.finalbody, x.clone(), fr):
                    if p is None:
                        self.throw(y, cls, val)
                    else:
                        out.append((y, p))
            return out
        self.sink.append([])
        try:
            res = self.block(s.body, st, fr)
        finally:
            caught = self.sink.pop()
        out = []
        for x, o in res:
            if o is None and s.orelse:
                out += self.block(s.orelse, x, fr)
            else:
                out.append((x, o))
        for x, cls, val in caught:
            for h in s.handlers:
                if h.type is None:
                    types_ = BaseException
                else:
                    (_, types_), = self.ev(h.type, x, fr)
                    if isinstance(types_, Tup):
                        types_ = tuple(types_.items)
                if issubclass(cls, types_):
                    y = x.clone()
                    exc = val if isinstance(val, Exc) else Exc(cls)
                    y.env['%exc'] = exc
                    if h.name:
                        y.env[h.name] = exc
                    out += self.block(h.body, y, fr)
                    break
            else:
                self.throw(x, cls, val)
        return out

    def st_Break(self, s, st, fr):
        return [(st, ('break',))]

    def st_Continue(self, s, st, fr):
        return [(st, ('continue',))]

    def st_While(self, s, st, fr):
        from proof import dvloops
        return dvloops.while_loop(self, s, st, fr)

    def st_For(self, s, st, fr):
        from proof import dvloops
        return dvloops.for_loop(self, s, st, fr)

    #
    # expressions: -> [(state, value)]
    #

    def ev(self, n, st, fr):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st, fr)

    def evs(self, nodes, st, fr):
        live = [(st, [])]
        for n in nodes:
            nxt = []
            for x, vals in live:
                if n is None:
                    nxt.append((x, vals + [None]))
                    continue
                for y, v in self.ev(n, x, fr):
                    nxt.append((y, vals + [v]))
            live = nxt
        return live

    def ev_Constant(self, n, st, fr):
        return [(st, n.value)]

    def ev_Name(self, n, st, fr):
        return [(st, self.name(n.id, st, fr))]

    def name(self, i, st, fr):
        if i in st.env:
            return st.env[i]
        if i in fr.glob:
            return fr.glob[i]
        if hasattr(builtins, i):
            return getattr(builtins, i)
        raise Unsupported('name %s' % i)

    def ev_Tuple(self, n, st, fr):
        return [(x, Tup(v) if any(self.symbolic(y) for y in v) else tuple(v)) for x, v in self.evs(n.elts, st, fr)]

    def ev_List(self, n, st, fr):
        out = []
        for x, vals in self.evs(n.elts, st, fr):
            x = x.clone()
            out.append((x, self.list_of(vals, x)))
        return out

    def member(self, q, x):
        """is a value among the elements of a list?"""
        w = WIT(q, x)
        self.fact(z3.Implies(z3.Select(els(q), x), z3.And(0 <= w, w < length(q), nth(q, w) == x)))
        return z3.Select(els(q), x)

    def part(self, q, lo, hi):
        """the elements from lo to hi (0 <= lo <= hi <= length)"""
        at, l, h, _ = fields(q)
        return tidy(SEQ.mk(at, l + lo, l + hi, self.fresh('elements', SET)))

    def concat(self, q, r):
        from proof.dvlib import units
        us = units(r)
        if us is not None:
            for x in us:
                q = append(q, x)
            return q
        us = units(q)
        if us is not None:
            for x in us[::-1]:
                r = prepend(r, x)
            return r
        c = self.fresh('concat', SEQ)
        i = z3.Int('i')
        n, m = length(q), length(r)
        self.fact(SEQ.lo(c) == 0, length(c) == n + m, z3.ForAll([i], z3.And(
            z3.Implies(z3.And(0 <= i, i < n), z3.Select(SEQ.at(c), i) == nth(q, i)),
            z3.Implies(z3.And(n <= i, i < n + m), z3.Select(SEQ.at(c), i) == nth(r, i - n))), patterns=[z3.Select(SEQ.at(c), i)]),
            SEQ.els(c) == z3.SetUnion(els(q), els(r)))
        return c

    def list_of(self, vals, st):
        r = self.new(st, ('list', None), listing([self.v(y, st) for y in vals]))
        for y in vals:
            self.note_kind(r, self.kind(y), st)
        return r

    def ev_Dict(self, n, st, fr):
        out = []
        if any(k is None for k in n.keys):
            raise Unsupported('** in a dict')
        for x, vals in self.evs(list(n.keys) + list(n.values), st, fr):
            x = x.clone()
            r = self.new(x, ('dict', None))
            live = [x]
            m = len(n.keys)
            for k, v in zip(vals[:m], vals[m:]):
                live = [z for y in live for z in self.setitem(r, k, v, y)]
            out += [(y, r) for y in live]
        return out

    def ev_Set(self, n, st, fr):
        out = []
        for x, vals in self.evs(n.elts, st, fr):
            x = x.clone()
            h = NOTHING
            for y in vals:
                h = z3.Store(h, self.v(y, x), TRUE)
            out.append((x, self.new(x, ('set', None), (h,))))
        return out

    def ev_JoinedStr(self, n, st, fr):
        from proof import dvlib
        plain = all(isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None for v in n.values)
        out = []
        for x, vals in self.evs([v if isinstance(v, ast.Constant) else v.value for v in n.values], st, fr):
            exact = plain and all(self.is_str(v) for v in vals)
            out.append((x, ZS(dvlib.cat([self.s(v) for v in vals]) if exact else self.fresh('text', S))))
        return out

    def ev_BoolOp(self, n, st, fr):
        is_or = isinstance(n.op, ast.Or)

        def go(i, s):
            out = []
            for x, v in self.ev(n.values[i], s, fr):
                if i == len(n.values) - 1:
                    out.append((x, v))
                    continue
                for y, c in self.fork(x, self.truth(v, x)):
                    if c == is_or:
                        out.append((y, v))
                    else:
                        out += go(i + 1, y)
            return out

        return self.join_values(go(0, st))

    def join_values(self, pairs):
        """fewer paths where the values are just conditions"""
        if len(pairs) < 2:
            return pairs
        if all(isinstance(v, (bool, ZB)) and not isinstance(v, (ZI, ZS)) for _, v in pairs):
            states = []
            for x, v in pairs:
                x = x.clone()
                x.env['%v'] = v
                states.append(x)
            out = states[0]
            for s in states[1:]:
                m = self.merge(out, s)
                if m is None:
                    return pairs
                out = m
            return [(out, out.env.pop('%v'))]
        return pairs

    def ev_IfExp(self, n, st, fr):
        out = []
        for x, v in self.ev(n.test, st, fr):
            for y, c in self.fork(x, self.truth(v, x)):
                out += self.ev(n.body if c else n.orelse, y, fr)
        return out

    def ev_UnaryOp(self, n, st, fr):
        out = []
        for x, v in self.ev(n.operand, st, fr):
            if isinstance(n.op, ast.Not):
                out.append((x, self.boolean(lnot(self.truth(v, x)))))
            elif isinstance(n.op, ast.USub) and self.is_int(v):
                out.append((x, ZI(-v.t) if isinstance(v, ZI) else -v))
            else:
                raise Unsupported('unary operator')
        return out

    def ev_BinOp(self, n, st, fr):
        return [y for x, (a, b) in self.evs([n.left, n.right], st, fr) for y in self.binop(n.op, a, b, x)]

    def binop(self, op, a, b, st):
        if not self.symbolic(a) and not self.symbolic(b):
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Mod: o.mod, ast.BitAnd: o.and_, ast.BitOr: o.or_,
                 ast.FloorDiv: o.floordiv}.get(type(op))
            if f is None:
                raise Unsupported('operator %s' % type(op).__name__)
            try:
                return [(st, f(a, b))]
            except Exception as x:
                return self.throw(st, type(x))
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return [(st, ZS(self.fresh('text', S)))]
        out = []
        for x, p in self.some(st, a, TypeError):
            for y, q in self.some(x, b, TypeError):
                out += self.binop_(op, p, q, y)
        return out

    def binop_(self, op, a, b, st):
        if isinstance(op, ast.Add):
            if self.is_str(a) and self.is_str(b):
                return [(st, ZS(tidy(z3.Concat(self.s(a), self.s(b)))))]
            if self.is_int(a) and self.is_int(b):
                return [(st, ZI(self.i(a) + self.i(b)))]
            if isinstance(a, (Tup, tuple)) and isinstance(b, (Tup, tuple)):
                return [(st, Tup(list(a.items if isinstance(a, Tup) else a) + list(b.items if isinstance(b, Tup) else b)))]
            if self.is_list(a) and self.is_list(b):
                st = st.clone()
                r = self.new(st, ('list', None), self.concat(self.seq(a, st), self.seq(b, st)))
                for x in (a, b):
                    if length(self.seq(x, st)).eq(z3.IntVal(0)):
                        continue
                    self.note_kind(r, self.elem_kind(x, st), st)
                return [(st, r)]
        if isinstance(op, ast.Sub) and self.is_int(a) and self.is_int(b):
            return [(st, ZI(self.i(a) - self.i(b)))]
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
            h = [self.as_set(x, st) for x in (a, b)]
            c = z3.SetDifference(*h) if isinstance(op, ast.Sub) else z3.SetIntersect(*h) if isinstance(
                op, ast.BitAnd) else z3.SetUnion(*h)
            if self.unordered and isinstance(op, ast.Sub):
                x = z3.Const('x?', V)
                d, a, b = [self.fresh(n, SET) for n in ('difference', 'minuend', 'subtrahend')]
                self.fact(a == h[0], b == h[1], z3.ForAll([x], z3.Select(d, x) == z3.And(z3.Select(a, x), z3.Not(z3.Select(b, x))), patterns=[
                    z3.Select(y, x) for y in (a, b, d)]))
                c = d
            st = st.clone()
            return [(st, self.new(st, ('set', None), (c,)))]
        raise Unsupported('operator %s on %r and %r' % (type(op).__name__, a, b))

    def as_set(self, x, st):
        if isinstance(x, View) and x.kind == 'keys':
            x = x.of
        if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] in ('set', 'dict'):
            return self.has(x, st)
        if isinstance(x, (set, frozenset)):
            h = NOTHING
            for y in sorted(x, key=str):
                h = z3.Store(h, self.v(y, st), TRUE)
            return h
        raise Unsupported('set of %r' % (x,))

    def is_list(self, x):
        return isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'list'

    def is_dict(self, x):
        return isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'dict'

    def ev_Compare(self, n, st, fr):
        out = []
        for x, vals in self.evs([n.left] + list(n.comparators), st, fr):
            live = [(x, [])]
            for op, a, b in zip(n.ops, vals, vals[1:]):
                live = [(z, cs + [c]) for y, cs in live for z, c in self.compare(op, a, b, y)]
            out += [(y, self.boolean(land(*cs))) for y, cs in live]
        return out

    def compare(self, op, a, b, st):
        """-> [(state, z3 Bool)]"""
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot)):
            for x, y in ((a, b), (b, a)):
                if y is None:
                    c = x.t == NONE if isinstance(x, Z) else z3.BoolVal(x is None)
                    return [(st, lnot(c) if neg else c)]
            if not isinstance(a, SV) and not isinstance(b, SV):
                return [(st, z3.BoolVal((a is b) != neg))]
            if isinstance(a, Z) and isinstance(b, Z) or isinstance(a, (type, bool)) or isinstance(b, (type, bool)):
                c = self.v(a, st) == self.v(b, st)
                return [(st, lnot(c) if neg else c)]
            raise Unsupported('identity of %r and %r' % (a, b))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = self.eq(a, b, st)
            return [(st, lnot(c) if neg else c)]
        if isinstance(op, (ast.In, ast.NotIn)):
            out = []
            for s, coll in self.some(st, b, TypeError):
                if self.is_str(coll):
                    for s2, x in self.some(s, a, TypeError):
                        c = self.contains(coll, x, s2)
                        out.append((s2, lnot(c) if neg else c))
                    continue
                if isinstance(coll, Z) and isinstance(coll.kind, tuple) and coll.kind[0] == 'obj':
                    for s2, r in self.method(coll, '__contains__', [a], {}, s):
                        c = self.truth(r, s2)
                        out.append((s2, lnot(c) if neg else c))
                    continue
                c = self.contains(coll, a, s)
                out.append((s, lnot(c) if neg else c))
            return out
        if not self.symbolic(a) and not self.symbolic(b):
            import operator as o
            f = {ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)]
            return [(st, z3.BoolVal(f(a, b)))]
        out = []
        for s, x in self.some(st, a, TypeError):
            for s2, y in self.some(s, b, TypeError):
                if not (self.is_int(x) and self.is_int(y)):
                    raise Unsupported('order of %r and %r' % (x, y))
                p, q = self.i(x), self.i(y)
                out.append((s2, {ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)]))
        return out

    def ev_Attribute(self, n, st, fr):
        return [y for x, o in self.ev(n.value, st, fr) for y in self.getattr(o, self.mangle(n.attr, fr), x)]

    def ev_Subscript(self, n, st, fr):
        out = []
        if isinstance(n.slice, ast.Slice):
            for x, (o, lo, hi, step) in self.evs([n.value, n.slice.lower, n.slice.upper, n.slice.step], st, fr):
                out += self.slice(o, lo, hi, step, x)
            return out
        for x, (o, k) in self.evs([n.value, n.slice], st, fr):
            out += self.getitem(o, k, x)
        return out

    def ev_Lambda(self, n, st, fr):
        return [(x, Clo(n, dict(x.env), fr, d, '<lambda>')) for x, d in self.evs(n.args.defaults, st, fr)]

    def comprehension(self, n, st, fr, kind):
        from proof import dvloops
        return dvloops.comprehension(self, n, st, fr, kind)

    def ev_ListComp(self, n, st, fr):
        return self.comprehension(n, st, fr, 'list')

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, st, fr):
        return self.comprehension(n, st, fr, 'set')

    def ev_DictComp(self, n, st, fr):
        return self.comprehension(n, st, fr, 'dict')

    def ev_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            if not n.args:
                return [(st, Sup(fr.cls, st.env['self']))]
            return [(x, Sup(a, b)) for x, (a, b) in self.evs(n.args, st, fr)]
        out = []
        nodes = [n.func] + [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
        if any(k.arg is None for k in n.keywords):
            raise Unsupported('**kwargs')
        for x, vals in self.evs(nodes, st, fr):
            args = []
            for a, v in zip(n.args, vals[1:]):
                if isinstance(a, ast.Starred):
                    if isinstance(v, Tup):
                        args += v.items
                    elif isinstance(v, (tuple, list)):
                        args += list(v)
                    else:
                        raise Unsupported('*args')
                else:
                    args.append(v)
            kw = dict(zip([k.arg for k in n.keywords], vals[1 + len(n.args):]))
            out += self.calls(vals[0], args, kw, x)
        return out

    # attributes, items and methods are in dvlib.py

    def getattr(self, o, name, st, default=Ellipsis):
        from proof import dvlib
        return dvlib.getattr_(self, o, name, st, default)

    def setattr(self, o, name, val, st):
        from proof import dvlib
        return dvlib.setattr_(self, o, name, val, st)

    def getitem(self, o, k, st):
        from proof import dvlib
        return dvlib.getitem(self, o, k, st)

    def setitem(self, o, k, val, st):
        from proof import dvlib
        return dvlib.setitem(self, o, k, val, st)

    def delitem(self, o, k, st):
        from proof import dvlib
        return dvlib.delitem(self, o, k, st)

    def slice(self, o, lo, hi, step, st):
        from proof import dvlib
        return dvlib.slice_(self, o, lo, hi, step, st)

    def method(self, o, name, args, kw, st):
        from proof import dvlib
        return dvlib.method(self, o, name, args, kw, st)

    #
    # obligations
    #

    # hooks for contracts

    def on_join(self, sep, q, r):
        self.joins.append((sep, q, r))

    def instance(self, x, cls, st):
        """isinstance of an object of a known class"""
        c = x.kind[1]
        h = self.methods.get(('instance', c))
        if h is not None:
            return h(self, st, x, cls)
        if not isinstance(c, type) or not isinstance(cls, type):
            raise Unsupported('isinstance of %r' % (x,))
        if issubclass(c, cls):
            return TRUE
        if c in self.exact or cls in (str, int, bool, list, dict, bytes, float):
            return FALSE
        raise Unsupported('isinstance of %s with %s' % (c.__name__, cls.__name__))

    def type_of(self, x, st):
        return [(st, Model(x, 'type'))]

    def has_attr(self, x, name, st):
        if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'obj':
            c = x.kind[1]
            h = self.methods.get(('hasattr', c))
            if h is not None:
                r = h(self, st, x, name)
                return r if r is None or hasattr(None, name) else land(x.t != NONE, r)
            if isinstance(c, type) and hasattr(c, name):
                return TRUE
        return None

    def dynamic_attr(self, st, a):
        raise Unsupported('getattr of a symbolic name')

    def prove(self, name, st, goal, keep=False):
        if self.settling:
            return None
        if self.rounds:         # within a loop whose invariants are not settled
            self.pending.append((name, st.clone(), goal, keep))
            return None
        o = Obligation(name)
        t = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*self.facts)
        s.add(*st.pc)
        s.add(z3.Not(goal))
        if keep:
            o.smt2 = s.to_smt2()
        r = z3.unknown
        if self.abstract:
            from proof.strings import follows
            if follows(self.facts + list(st.pc), goal, self.abstract):
                r = z3.unsat
        if r == z3.unknown:
            r = s.check()
        if r == z3.unknown and self.splits and self.split(st.pc, tidy(goal), self.splits):
            r = z3.unsat
        if r == z3.unknown and self.second:
            from proof.strings import cvc5
            if cvc5(s.to_smt2(), self.second):
                r = z3.unsat
                o.backend = 'cvc5'
        r = self.again(s, r)
        o.time = time.time() - t
        if r == z3.unsat:
            o.status = 'proved'
        else:
            o.status = 'failed' if r == z3.sat else 'unknown'
            text = 'goal: %s\n' % goal.sexpr()[:2000]
            text += model(s.model()) if r == z3.sat else s.reason_unknown()
            o.output = text[:6000]
            o.model = s.model() if r == z3.sat else None
        self.obs.append(o)
        return o

    def lemma(self, name, goal, keep=False):
        """an obligation that holds without the assumptions of the unit"""
        facts, self.facts, abstract, self.abstract = self.facts, [], self.abstract, 0
        try:
            return self.prove(name, St(), goal, keep)
        finally:
            self.facts, self.abstract = facts, abstract

    def split(self, pc, goal, depth):
        """is a goal that says what holds in several cases proved case by case?"""
        atom = condition(goal)
        if atom is None or not depth:
            return False
        for val in (TRUE, FALSE):
            hyps = tuple(pc) + (atom if z3.is_true(val) else z3.Not(atom),)
            g = tidy(z3.substitute(goal, (atom, val)))
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*self.facts)
            s.add(*[z3.substitute(c, (atom, val)) for c in hyps[:-1]])
            s.add(hyps[-1])
            s.add(z3.Not(g))
            r = s.check()
            if r != z3.unsat and not self.split(hyps, g, depth - 1) and self.again(s, r) != z3.unsat:
                return False
        return True

    def again(self, s, r, seeds=(0, 7)):
        """what the solver gives up on, once more in a context of its own: what it does with strings depends on the order of terms"""
        if r != z3.unknown or not self.retry:
            return r
        text = s.to_smt2()
        for seed in seeds:
            x = z3.Solver(ctx=z3.Context())
            x.set('timeout', self.retry)
            x.set('smt.random_seed', seed)
            x.from_string(text)
            if x.check() == z3.unsat:
                return z3.unsat
        return r

    def invariant(self, name, label):
        """an obligation: the loop keeps an invariant"""
        o = Obligation(name)
        o.time = 0.0
        o.status = 'proved' if label in set(l for _, l in self.kept) else 'unknown'
        o.output = 'not an invariant of a loop' if o.status == 'unknown' else ''
        self.obs.append(o)
        return o

    def finish(self):
        """-> what a unit gives: a counterexample only counts when the invariants it rests on are there"""
        if self.ends and not any(self.possible(x) for x in self.ends):
            raise Unsupported('the assumptions contradict each other')
        if not self.obs:
            raise Unsupported('no end of the function is reached')
        missing = sorted(self.expect - set(l for _, l in self.kept)) + sorted(str(l) for l in self.lost)
        if missing:
            for o in self.obs:
                if o.status == 'failed':
                    o.status = 'unknown'
                    o.output = 'invariants that do not hold or do not apply: %s\n' % missing + o.output
        self.used |= set()
        return self, self.obs, self.log

    def execute(self, fn, args, st, kw=None):
        """-> (normal ends [(state, value)], exceptions [(state, class, value)])"""
        self.sink = [[]]
        res = self.calls(fn, args, kw or {}, st)
        self.ends += [x[0] for x in res] + [x[0] for x in self.sink[0]]
        return res, self.sink[0]

    def possible(self, st):
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.facts)
        s.add(*st.pc)
        return s.check() != z3.unsat


def calls_itself(node):
    return isinstance(node, ast.FunctionDef) and any(
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == node.name for b in node.body for n in ast.walk(b))


def condition(t):
    """a condition that the cases of a term depend on, or None"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop(0)
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            c = x.arg(0)
            while z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                c = c.arg(0)
            return c
        todo += x.children()
    return None


def model(m):
    lines = []
    for d in m.decls():
        if d.arity() == 0:
            lines.append('%s = %s' % (d.name(), str(m[d])[:400]))
    return '\n'.join(sorted(lines))


def report(units, names):
    import traceback
    for name, fn in units:
        if names and name not in names:
            continue
        t = time.time()
        try:
            e, obs, log = fn(False)
        except Unsupported as x:
            traceback.print_exc()
            print(name, 'UNSUPPORTED', x)
            continue
        print('\n'.join(log))
        for o in obs:
            print(name, '|', o.name, o.status, round(o.time, 2), (o.output or '')[:1500] if o.status != 'proved' else '')
        print(name, 'total %.1fs' % (time.time() - t))
