"""values of the symbolic interpreter; anything else is an ordinary Python object and means itself"""
import itertools

from proof.terms import *  # noqa

_ids = itertools.count(1)


class Unsupported(Exception):
    """outside the subset the verifier understands: nothing is proved, nothing is alleged"""


class SV(object):
    """a symbolic value"""
    __slots__ = ()

    def __bool__(self):
        raise Unsupported('truth of a symbolic value used natively')

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    __hash__ = object.__hash__


class Sym(SV):
    """a JSON value (sort J), read-only; 'ty': its type in contracts/tables.py, None if unknown"""
    __slots__ = ('t', 'ty', 'nn')

    def __init__(self, t, ty=None, nn=False):
        self.t, self.ty, self.nn = t, ty, nn

    def __repr__(self):
        return 'Sym(%s:%s)' % (self.t, self.ty)


class BoolV(SV):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Bool(%s)' % self.t


class IntV(SV):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Ref(SV):
    """a mutable object on the heap of the state"""
    __slots__ = ('id',)

    def __init__(self, id_=None):
        self.id = next(_ids) if id_ is None else id_

    def __repr__(self):
        return 'Ref%d' % self.id


class View(SV):
    """an object of the library, loaded from the raw value 'raw'"""
    __slots__ = ('cls', 'raw')

    def __init__(self, cls, raw):
        self.cls, self.raw = cls, raw

    def __repr__(self):
        return 'View(%s,%s)' % (self.cls.__name__, self.raw.t)


class Cont(SV):
    """a list or map of the library, loaded from the raw value 'raw'"""
    __slots__ = ('cls', 'raw')

    def __init__(self, cls, raw):
        self.cls, self.raw = cls, raw

    def __repr__(self):
        return 'Cont(%s,%s)' % (self.cls.__name__, self.raw.t)


class Union(SV):
    """one of several values, under exclusive conditions"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%s)' % ', '.join('%s: %r' % a for a in self.alts)


class Tup(SV):
    __slots__ = ('items', 'names')

    def __init__(self, items, names=None):
        self.items, self.names = list(items), names


class Closure(SV):
    __slots__ = ('node', 'env', 'glob', 'frame', 'defaults', 'name')

    def __init__(self, node, env, glob, frame, defaults, name):
        self.node, self.env, self.glob, self.frame, self.defaults, self.name = node, env, glob, frame, defaults, name


class Bound(SV):
    """method 'name' of 'self'"""
    __slots__ = ('self', 'name', 'fn')

    def __init__(self, self_, name, fn=None):
        self.self, self.name, self.fn = self_, name, fn


class Thing(SV):
    """a stand-in with behaviour of its own: op(engine, state, operation, *args)"""
    __slots__ = ('name', 'op', 'data')

    def __init__(self, name, op, data=None):
        self.name, self.op, self.data = name, op, data

    def __repr__(self):
        return 'Thing(%s)' % self.name


class Items(SV):
    """what a loop goes through: 'kind' is one of list, items, keys, values, enumerate, zip"""
    __slots__ = ('kind', 'of', 'start')

    def __init__(self, kind, of, start=0):
        self.kind, self.of, self.start = kind, of, start


# contents of the heap; never modified in place

class HDict(object):
    """base (a J term, None: empty), then entries under constant keys, then entries under other keys"""
    __slots__ = ('base', 'ents', 'dyn')

    def __init__(self, base=None, ents=None, dyn=None):
        self.base, self.ents, self.dyn = base, ents if ents is not None else {}, dyn if dyn is not None else []

    def copy(self):
        return HDict(self.base, dict(self.ents), list(self.dyn))


class HList(object):
    """base (a J term, None: empty), then (guard, value); 'bag': the order means nothing"""
    __slots__ = ('base', 'items', 'bag')

    def __init__(self, base=None, items=None, bag=False):
        self.base, self.items, self.bag = base, items if items is not None else [], bag

    def copy(self):
        return HList(self.base, list(self.items), self.bag)


class HUnk(object):
    """a value of which only the J term is known"""
    __slots__ = ('base',)

    def __init__(self, base):
        self.base = base

    def copy(self):
        return HUnk(self.base)


class HObj(object):
    """instance of a class of the code"""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs if attrs is not None else {}

    def copy(self):
        return HObj(self.cls, dict(self.attrs))


class State(object):
    __slots__ = ('pc', 'env', 'heap', 'events')

    def __init__(self, pc=(), env=None, heap=None, events=()):
        self.pc, self.env, self.heap, self.events = tuple(pc), env if env is not None else {}, \
            heap if heap is not None else {}, events

    def clone(self, *more):
        return State(self.pc + tuple(x for x in more if not z3.is_true(x)), dict(self.env), dict(self.heap), self.events)

    def become(self, other):
        self.pc, self.env, self.heap, self.events = other.pc, other.env, other.heap, other.events

    @property
    def dead(self):
        return any(z3.is_false(x) for x in self.pc)

    def kill(self):
        self.pc = self.pc + (z3.BoolVal(False),)

    def cond(self):
        return land(*self.pc)
