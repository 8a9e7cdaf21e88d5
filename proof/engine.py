"""symbolic interpreter for the Python of /repo and of the specifications in contracts/

Functions are taken from the source file they were loaded from (parsed again on
every run) and executed on symbolic values.  Branches are merged, calls are
inlined or replaced by contracts, loops over symbolic collections become folds
(loops.py).  Whatever is not understood raises Unsupported.
"""
import ast
import copy
import inspect
import textwrap
import types

import six
import z3

from proof.terms import *  # noqa
from proof.values import *  # noqa
from proof.values import _ids
from contracts import tables as T

import sys
sys.setrecursionlimit(20000)
MISSING = object()
SRC = {}


def tree_of(path):
    if path not in SRC:
        with open(path) as f:
            SRC[path] = ast.parse(f.read(), path)
    return SRC[path]


def source(fn):
    """the definition of a function, from its source file"""
    code = fn.__code__
    found = []
    for node in ast.walk(tree_of(code.co_filename)):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            first = node.lineno
            if isinstance(node, ast.FunctionDef) and node.decorator_list:
                first = node.decorator_list[0].lineno
            if code.co_firstlineno in (first, node.lineno):
                if isinstance(node, ast.Lambda) == (code.co_name == '<lambda>') and (
                        isinstance(node, ast.Lambda) or node.name == code.co_name):
                    found.append(node)
    if len(found) != 1:
        raise Unsupported('no source for %s' % fn)
    return found[0]


class Frame(object):
    def __init__(self, glob, name, cls=None, outer=None):
        self.glob, self.name, self.cls, self.outer = glob, name, cls, outer
        self.returns, self.loops = [], []


class Raised(object):
    def __init__(self, pc, cls, state, value=None):
        self.pc, self.cls, self.state, self.value = pc, cls, state, value


class Stop(Exception):
    """the current path ends within an expression"""


class Domain(Exception):
    """outside the domain of the specification"""


class Precondition(Exception):
    """a precondition of a contract does not hold"""


class Engine(object):
    def __init__(self, version='2.0', timeout=10000):
        self.version = version
        self.facts, self.fact_keys = [], set()
        self.fs = z3.Solver()
        self.fs.set('timeout', 1000)
        self.flushed = 0
        self.lits, self.strs, self.sfuncs, self.decls = {}, [], {}, {}
        self.parts = {}
        self.contracts, self.models, self.things = {}, {}, {}
        self.interp = ('pyopenapi', 'contracts.', 'proof.specs')
        self.loops, self.side, self.active = [], 'code', []
        self.candidates = []    # (engine, record, accumulators, state) -> invariant candidates
        self.raises = [[]]
        self.drop_null = False      # an entry that holds None counts as absent (on the side of the code)
        self.dropped = set()
        self.shared, self.frozen = set(), set()     # objects with parts, or themselves, known elsewhere
        self.depth = self.grounding = 0
        self.counter = {}
        self.stats = {'queries': 0, 'time': 0.0, 'feasible': 0}
        self.used = set()       # functions of /repo that were executed
        self.assumed = set()    # contracts that were relied upon
        self.timeout = timeout
        self.fcache = {}
        from proof import builtins_
        builtins_.install(self)
        for t, k in ((NULL, 'null'), (TRUE, 'bool'), (FALSE, 'bool')):
            self.fact(KIND(t) == KINDS[k])
        for i, t in enumerate((NULL, TRUE, FALSE, EMPTY_DICT, EMPTY_LIST)):
            self.fact(CODE(t) == -1 - i)
        self.fact(KIND(EMPTY_DICT) == 5, KIND(EMPTY_LIST) == 4, z3.Not(NE(EMPTY_DICT)), z3.Not(NE(EMPTY_LIST)),
                  z3.Not(NE(NULL)), z3.Not(TRUTHY(NULL)), TRUTHY(TRUE), z3.Not(TRUTHY(FALSE)))

    #
    # facts and questions
    #

    def fact(self, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            k = f.get_id()
            if k not in self.fact_keys:
                self.fact_keys.add(k)
                self.facts.append(f)

    def feasible(self, st, extra=None):
        cs = list(st.pc) + ([extra] if extra is not None else [])
        cs = [c for c in cs if not z3.is_true(c)]
        if any(z3.is_false(c) for c in cs):
            return False
        if extra is not None:
            s = z3.simplify(extra)
            if z3.is_false(s):
                return False
        key = tuple(sorted(c.get_id() for c in cs))
        if key in self.fcache:
            return self.fcache[key][0]
        while self.flushed < len(self.facts):
            self.fs.add(self.facts[self.flushed])
            self.flushed += 1
        self.fs.push()
        self.fs.add(*cs)
        self.stats['feasible'] += 1
        r = self.fs.check() != z3.unsat
        self.fs.pop()
        self.fcache[key] = (r, cs)
        return r

    def must(self, st, cond):
        """does 'cond' follow from the path?  (cheap)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible(st)
        return not self.feasible(st, lnot(cond))

    def valid(self, pc, goal):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        return not self.feasible(State(pc), lnot(goal))

    def invariants(self, rec, accs, st):
        return [f for c in self.candidates for f in c(self, rec, accs, st)]

    def fresh(self, name, sort=J):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return z3.Const('%s!%d' % (name, n), sort)

    def decl(self, name, *sorts):
        key = (name,) + tuple(s.name() for s in sorts)
        if key not in self.decls:
            self.decls[key] = z3.Function(name, *sorts)
        return self.decls[key]

    def app(self, name, *args, **kw):
        sort = kw.get('sort', J)
        return self.decl(name, *([a.sort() for a in args] + [sort]))(*args) if args else z3.Const(name, sort)

    #
    # literals and strings
    #

    def lit(self, c):
        if c is None:
            return NULL
        if c is True:
            return TRUE
        if c is False:
            return FALSE
        if isinstance(c, (list, tuple)) and not isinstance(c, SV):
            t = EMPTY_LIST
            for x in c:
                t = APP(t, self.lit(x))
                self.container_facts(t, 4)
            return t
        if isinstance(c, dict):
            t = EMPTY_DICT
            for k in sorted(c, key=str):
                t = STO(t, self.lit(k), self.lit(c[k]))
                self.container_facts(t, 5)
            return t
        if isinstance(c, (str, int, float, bytes)):
            key = (type(c).__name__, c)
            if key not in self.lits:
                t = z3.Const('%s:%r' % (type(c).__name__[0], c), J)
                self.lits[key] = t
                self.fact(CODE(t) == len(self.lits), KIND(t) == (2 if isinstance(c, str) else 3),
                          TRUTHY(t) == z3.BoolVal(bool(c)), z3.Not(NE(t)) if not c else NE(t))
                if isinstance(c, str) and self.grounding < 2:
                    self.strs.append(c)
                    for name in list(self.sfuncs):
                        self.ground(name, c)
            return self.lits[key]
        if isinstance(c, type):
            return self.app('class:' + c.__module__ + '.' + c.__qualname__)
        raise Unsupported('no term for %r' % (c,))

    def container_facts(self, t, kind):
        self.fact(NE(t), t != NULL, KIND(t) == kind, CODE(t) == -10)

    def stored(self, t):
        """facts about a dict with one more entry"""
        self.container_facts(t, 5)
        b, k, v = t.children()
        self.fact(HAS(t, k), GET(t, k) == v, z3.Implies(z3.And(HAS(b, k), GET(b, k) == v), t == b))

    def ground(self, name, c):
        method, args = name
        try:
            val = getattr(c, method)(*args)
        except Exception:
            return
        t = self.lit(c)
        sort = B if isinstance(val, bool) else I if isinstance(val, int) else J
        f = self.sapp(method, t, args, sort)
        if isinstance(val, bool):
            self.fact(f == z3.BoolVal(val))
        elif isinstance(val, int):
            self.fact(f == val)
        elif isinstance(val, (str, list)) and not isinstance(val, SV):
            self.grounding += 1
            self.fact(f == self.lit(val))
            self.grounding -= 1

    def sapp(self, method, t, args, sort=J):
        return self.app('str.%s%r' % (method, args), t, sort=sort)

    def strfun(self, method, t, args, sort=J):
        """str method with constant arguments"""
        key = (method, tuple(args))
        if key not in self.sfuncs:
            self.sfuncs[key] = True
            for c in list(self.strs):
                self.ground(key, c)
        return self.sapp(method, t, tuple(args), sort)

    def cat(self, parts):
        flat = []
        for p in parts:
            for q in self.parts.get(p.get_id(), (p, [p]))[1] if not isinstance(p, str) else [p]:
                if isinstance(q, str):
                    c = q
                else:
                    c = self.litval(q)
                if c is not None:
                    if c == '':
                        continue
                    if flat and isinstance(flat[-1], str):
                        flat[-1] += c
                        continue
                    flat.append(c)
                else:
                    flat.append(q)
        if not flat:
            return self.lit('')
        ts = [self.lit(x) if isinstance(x, str) else x for x in flat]
        out = ts[-1]
        for x in reversed(ts[:-1]):
            out = CAT(x, out)
        if len(ts) > 1:
            self.parts[out.get_id()] = (out, ts)
            self.fact(out != NULL, KIND(out) == 2)
            if any(isinstance(x, str) for x in flat):
                self.fact(out != self.lit(''))
        return out

    def litval(self, t):
        for k in ((),):
            pass
        n = t.decl().name() if z3.is_const(t) else None
        if n and n[:2] == 's:':
            for (kind, c), x in self.lits.items():
                if kind == 'str' and x.eq(t):
                    return c
        return None

    #
    # truth, terms
    #

    def truth(self, v, st):
        """-> z3 Bool"""
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, Sym):
            return self.truth_sym(v)
        if isinstance(v, IntV):
            return v.t != 0
        if isinstance(v, Union):
            return lor(*[land(g, self.truth(x, st)) for g, x in v.alts])
        if isinstance(v, View):
            for c in v.cls.__mro__:
                if '__len__' in c.__dict__ or '__bool__' in c.__dict__ or '__nonzero__' in c.__dict__:
                    raise Unsupported('truth of %s' % v.cls)
            return z3.BoolVal(True)
        if isinstance(v, Cont):
            return NE(v.raw.t)
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if isinstance(h, HUnk):
                return TRUTHY(h.base)
            if isinstance(h, HDict):
                if v.id in self.dropped:
                    raise Unsupported('truth of a dict that may hold None')
                return lor(*([g for g, _ in h.ents.values()] + [g for g, _, _ in h.dyn] +
                             ([NE(h.base)] if h.base is not None else [])))
            if isinstance(h, HList):
                return lor(*([g for g, _ in h.items] + ([NE(h.base)] if h.base is not None else [])))
            if isinstance(h, HObj):
                for c in h.cls.__mro__:
                    if '__len__' in c.__dict__ or '__bool__' in c.__dict__:
                        raise Unsupported('truth of %s' % h.cls)
            return z3.BoolVal(True)
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, Thing):
            return v.op(self, st, 'truth')
        if isinstance(v, SV):
            return z3.BoolVal(True)
        return z3.BoolVal(bool(v))

    def truth_sym(self, v):
        t, k = v.t, v.ty.kind if v.ty is not None else None
        if k == 'str':
            return land(t != NULL, t != self.lit(''))
        if k == 'bool':
            return t == TRUE
        if k == 'num':
            return land(t != NULL, t != self.lit(0))
        if k in ('list', 'map', 'obj', 'orref', 'field'):
            return NE(t)
        return self.truth_term(t)

    def truth_term(self, t):
        """truth of a value of any type"""
        if t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), self.truth_term(t.arg(1)), self.truth_term(t.arg(2)))
        if t.eq(NULL):
            return z3.BoolVal(False)
        self.fact(z3.Implies(z3.Or(KIND(t) == 4, KIND(t) == 5), TRUTHY(t) == NE(t)),
                  z3.Implies(KIND(t) == 2, TRUTHY(t) == (t != self.lit(''))))
        return TRUTHY(t)

    def term(self, v, st):
        """the J term of a value"""
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, BoolV):
            return ite(v.t, TRUE, FALSE)
        if isinstance(v, IntV):
            return OFINT(v.t)
        if isinstance(v, (View, Cont)):
            return v.raw.t
        if isinstance(v, Union):
            out = self.term(v.alts[-1][1], st)
            for g, x in reversed(v.alts[:-1]):
                out = ite(g, self.term(x, st), out)
            return out
        if isinstance(v, Tup):
            t = EMPTY_LIST
            for x in v.items:
                t = APP(t, self.term(x, st))
                self.container_facts(t, 4)
            return t
        if isinstance(v, Ref):
            h = st.heap[v.id]
            if isinstance(h, HUnk):
                return h.base
            if isinstance(h, HDict):
                t = h.base if h.base is not None else EMPTY_DICT
                for k in sorted(h.ents, key=lambda x: (type(x).__name__, x)):
                    g, x = h.ents[k]
                    if z3.is_false(g):
                        continue
                    n = STO(t, self.lit(k), self.term(x, st))
                    self.stored(n)
                    t = ite(g, n, t)
                for g, k, x in h.dyn:
                    n = STO(t, k, self.term(x, st))
                    self.stored(n)
                    t = ite(g, n, t)
                return t
            if isinstance(h, HList):
                t = h.base if h.base is not None else EMPTY_LIST
                items = h.items
                if h.bag and all(not isinstance(x, SV) for _, x in items):
                    items = sorted(items, key=lambda y: str(y[1]))
                for g, x in items:
                    if z3.is_false(g):
                        continue
                    n = APP(t, self.term(x, st))
                    self.container_facts(n, 4)
                    t = ite(g, n, t)
                return t
            raise Unsupported('no term for an object of %s' % h.cls.__name__)
        if isinstance(v, SV):
            if isinstance(v, Thing):
                return v.op(self, st, 'term')
            raise Unsupported('no term for %r' % v)
        return self.lit(v)

    def get(self, t, key, ty=None):
        """value of a key of a dict; null when absent"""
        k = self.lit(key) if isinstance(key, str) else key
        out = GET(t, k)
        self.fact(z3.Or(HAS(t, k), out == NULL), z3.Implies(HAS(t, k), NE(t)))
        if ty is not None:
            self.typed(out, ty)
        return out

    def typed(self, t, ty, null=True):
        k = ty.kind
        own = {'bool': z3.Or(t == TRUE, t == FALSE), 'str': KIND(t) == 2, 'num': KIND(t) == 3, 'field': KIND(t) == 4,
               'list': KIND(t) == 4, 'map': KIND(t) == 5, 'obj': KIND(t) == 5, 'orref': KIND(t) == 5,
               'orbool': z3.Or(KIND(t) == 1, KIND(t) == 5)}.get(k)
        if own is not None:
            self.fact(z3.Or(t == NULL, own) if null else own)
        if not null:
            self.fact(t != NULL)
        if k == 'orbool':
            self.fact(z3.Implies(KIND(t) == 1, z3.Or(t == TRUE, t == FALSE)))

    #
    # merging
    #

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.t.eq(b.t)
        if isinstance(a, BoolV) and isinstance(b, BoolV) or isinstance(a, IntV) and isinstance(b, IntV):
            return a.t.eq(b.t)
        if isinstance(a, (View, Cont)) and type(a) is type(b):
            return a.cls is b.cls and a.raw.t.eq(b.raw.t)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Union) and isinstance(b, Union):
            return len(a.alts) == len(b.alts) and all(
                g.eq(h) and self.same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.name == b.name and self.same(a.self, b.self) and a.fn is b.fn
        if isinstance(a, Closure) and isinstance(b, Closure):
            return a.node is b.node
        if isinstance(a, SV) or isinstance(b, SV):
            return False
        try:
            return type(a) is type(b) and bool(a == b)
        except Exception:
            return False

    def scalar(self, v):
        return isinstance(v, (Sym,)) or v is None or (isinstance(v, (str, bool, int, float)) and not isinstance(v, SV))

    def ty_of(self, v):
        if isinstance(v, Sym):
            return v.ty
        if isinstance(v, bool):
            return T.BOOL
        if isinstance(v, str):
            return T.STR
        if isinstance(v, (int, float)):
            return T.NUM
        return None

    def merge(self, c, a, b):
        """the value that is 'a' when c, else 'b'"""
        if z3.is_true(c) or self.same(a, b):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, (BoolV, bool)) and isinstance(b, (BoolV, bool)):
            return BoolV(ite(c, a.t if isinstance(a, BoolV) else boolval(a), b.t if isinstance(b, BoolV) else boolval(b)))
        if isinstance(a, IntV) and isinstance(b, IntV):
            return IntV(ite(c, a.t, b.t))
        if self.scalar(a) and self.scalar(b):
            ta, tb = self.ty_of(a), self.ty_of(b)
            ty = None
            if ta is not None and tb is not None:
                ty = ta if repr(ta) == repr(tb) else None
            elif a is None:
                ty = tb
            elif b is None:
                ty = ta
            if isinstance(a, Sym) or isinstance(b, Sym) or ty is not None:
                return Sym(ite(c, self.lit(a) if not isinstance(a, Sym) else a.t,
                               self.lit(b) if not isinstance(b, Sym) else b.t), ty)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.names == b.names:
            return Tup([self.merge(c, x, y) for x, y in zip(a.items, b.items)], a.names)
        alts = []
        for g, v in (a.alts if isinstance(a, Union) else [(z3.BoolVal(True), a)]):
            alts.append((land(c, g), v))
        nc = lnot(c)
        for g, v in (b.alts if isinstance(b, Union) else [(z3.BoolVal(True), b)]):
            g = land(nc, g)
            for i, (h, w) in enumerate(alts):
                if self.same(v, w):
                    alts[i] = (z3.simplify(lor(h, g)), w)
                    break
            else:
                alts.append((g, v))
        alts = [(z3.simplify(g), v) for g, v in alts]
        alts = [(g, v) for g, v in alts if not z3.is_false(g)]
        return alts[0][1] if len(alts) == 1 else Union(alts)

    def merge_content(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, HUnk) and isinstance(b, HUnk):
            return HUnk(ite(c, a.base, b.base))
        if isinstance(a, HUnk) and isinstance(b, (HDict, HList)):
            a = HDict(a.base) if isinstance(b, HDict) else HList(a.base)
        if isinstance(b, HUnk) and isinstance(a, (HDict, HList)):
            b = HDict(b.base) if isinstance(a, HDict) else HList(b.base)
        if type(a) is not type(b):
            raise Unsupported('merging %s and %s' % (type(a).__name__, type(b).__name__))
        nc = lnot(c)
        if isinstance(a, HDict):
            out = HDict(self.merge_base(c, a.base, b.base, EMPTY_DICT))
            for k in list(a.ents) + [k for k in b.ents if k not in a.ents]:
                if k in a.ents and k in b.ents:
                    (g, v), (h, w) = a.ents[k], b.ents[k]
                    if z3.is_false(g):
                        v = w
                    elif z3.is_false(h):
                        w = v
                    out.ents[k] = (ite(c, g, h), self.merge(c, v, w))
                elif k in a.ents:
                    g, v = a.ents[k]
                    if b.base is not None:
                        h = HAS(b.base, self.lit(k))
                        out.ents[k] = (ite(c, g, h), self.merge(c, v, Sym(self.get(b.base, k))))
                    else:
                        out.ents[k] = (land(c, g), v)
                else:
                    h, w = b.ents[k]
                    if a.base is not None:
                        g = HAS(a.base, self.lit(k))
                        out.ents[k] = (ite(c, g, h), self.merge(c, Sym(self.get(a.base, k)), w))
                    else:
                        out.ents[k] = (land(nc, h), w)
            n = 0
            while n < len(a.dyn) and n < len(b.dyn) and a.dyn[n][1].eq(b.dyn[n][1]):
                (g, k, v), (h, _, w) = a.dyn[n], b.dyn[n]
                out.dyn.append((ite(c, g, h), k, self.merge(c, v, w)))
                n += 1
            out.dyn += [(land(c, g), k, v) for g, k, v in a.dyn[n:]] + [(land(nc, g), k, v) for g, k, v in b.dyn[n:]]
            return out
        if isinstance(a, HList):
            out = HList(self.merge_base(c, a.base, b.base, EMPTY_LIST), bag=a.bag or b.bag)
            n = 0
            while n < len(a.items) and n < len(b.items) and (
                    a.items[n][0].eq(b.items[n][0]) or self.same(a.items[n][1], b.items[n][1])):
                (g, v), (h, w) = a.items[n], b.items[n]
                out.items.append((ite(c, g, h), self.merge(c, v, w)))
                n += 1
            out.items += [(land(c, g), v) for g, v in a.items[n:]] + [(land(nc, g), v) for g, v in b.items[n:]]
            return out
        if isinstance(a, HObj) and a.cls is b.cls:
            out = HObj(a.cls)
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    out.attrs[k] = self.merge(c, a.attrs[k], b.attrs[k])
                else:
                    raise Unsupported('attribute %s set on one branch only' % k)
            return out
        raise Unsupported('merging %s' % type(a).__name__)

    def merge_base(self, c, a, b, empty):
        if a is None and b is None:
            return None
        return ite(c, a if a is not None else empty, b if b is not None else empty)

    def join(self, c, a, b):
        """the state that is 'a' when c, else 'b' (either may be dead)"""
        if a.dead:
            return b
        if b.dead:
            return a
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        either = z3.simplify(lor(land(*a.pc[n:]), land(*b.pc[n:])))
        pc = a.pc[:n] + (() if z3.is_true(either) else (either,))
        self.align(a, b)
        self.align(b, a)
        env = {}
        for k in a.env:
            if k in b.env:
                env[k] = self.merge(c, a.env[k], b.env[k])
        heap = {}
        for k in set(a.heap) | set(b.heap):
            if k in a.heap and k in b.heap:
                heap[k] = self.merge_content(c, a.heap[k], b.heap[k])
            else:
                heap[k] = a.heap[k] if k in a.heap else b.heap[k]
        m = 0
        while m < len(a.events) and m < len(b.events) and a.events[m] is b.events[m]:
            m += 1
        return State(pc, env, heap, a.events[:m] + a.events[m:] + b.events[m:])

    def align(self, a, b):
        """parts of objects that 'a' knows as objects become objects in 'b' too"""
        from proof import builtins_
        todo = [k for k in a.heap if k in b.heap]
        while todo:
            k = todo.pop()
            x, y = a.heap[k], b.heap[k]
            if x is y or not isinstance(x, HDict) or isinstance(y, HUnk) and not x.ents:
                continue
            if isinstance(y, HUnk):
                y = b.heap[k] = HDict(y.base)
            if not isinstance(y, HDict) or y.base is None or y.dyn:
                continue
            for key, (g, v) in x.ents.items():
                if key in y.ents:
                    continue
                if isinstance(v, Ref) and v.id not in b.heap and isinstance(a.heap[v.id], (HUnk, HDict, HList)):
                    b.heap[v.id] = HUnk(self.get(y.base, key))
                    y = y.copy()
                    y.ents[key] = (HAS(y.base, self.lit(key)), v)
                    b.heap[k] = y
                    if k in self.shared or k in self.frozen:
                        self.frozen.add(v.id)
                    todo.append(v.id)
                else:
                    builtins_.entry(self, Ref(k), key, b, False)
                    y = b.heap[k]

    def join_all(self, states, base):
        """states that exclude each other, split after 'base' conditions"""
        states = [s for s in states if not s.dead]
        if not states:
            return None
        out = states[-1]
        for s in reversed(states[:-1]):
            out = self.join(land(*s.pc[base:]), s, out)
        return out

    def become_all(self, st, states, base):
        out = self.join_all(states, base)
        if out is None:
            st.kill()
        else:
            st.become(out)

    def split(self, st, v, fn):
        """fn(state, alternative) for every alternative of a value; merges states and results"""
        if not isinstance(v, Union):
            return fn(st, v)
        base, outs = len(st.pc), []
        for g, x in v.alts:
            if not self.feasible(st, g):
                continue
            s = st.clone(g)
            try:
                s.env['%val'] = fn(s, x)
            except Stop:
                continue
            outs.append(s)
        if not outs:
            st.kill()
            raise Stop()
        out = self.join_all(outs, base)
        st.become(out)
        return st.env.pop('%val')

    #
    # exceptions
    #

    def raise_if(self, st, cond, cls):
        if not self.feasible(st, cond):
            return
        self.raises[-1].append(Raised(st.pc + (cond,), cls, st.clone(cond)))
        if z3.is_true(cond) or not self.feasible(st, lnot(cond)):
            st.kill()
            raise Stop()
        st.pc = st.pc + (lnot(cond),)

    def throw(self, st, cls):
        self.raise_if(st, z3.BoolVal(True), cls)

    #
    # functions
    #

    def bind(self, args, node, defaults, a, kw, name):
        """-> {parameter: value}"""
        env = {}
        names = [x.arg for x in node.args.args]
        if len(a) > len(names):
            if not node.args.vararg:
                raise Unsupported('too many arguments for %s' % name)
            env[node.args.vararg.arg] = Tup(a[len(names):])
        elif node.args.vararg:
            env[node.args.vararg.arg] = Tup([])
        for n, v in zip(names, a):
            env[n] = v
        kw = dict(kw)
        for n in names:
            if n in kw:
                if n in env:
                    raise Unsupported('argument %s twice' % n)
                env[n] = kw.pop(n)
        if kw:
            raise Unsupported('unknown arguments %s of %s' % (sorted(kw), name))
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in env:
                env[n] = d
        for n in names:
            if n not in env:
                raise Unsupported('argument %s of %s is missing' % (n, name))
        if node.args.kwarg:
            raise Unsupported('keyword arguments')
        return env

    def call_function(self, fn, a, kw, st, cls=None):
        node = source(fn)
        env = self.bind(a, node, fn.__defaults__ or (), a, kw, fn.__name__)
        if fn.__closure__:
            for n, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                env.setdefault(n, cell.cell_contents)
        if fn.__module__ and fn.__module__.startswith('pyopenapi'):
            self.used.add(fn.__module__ + '.' + fn.__qualname__)
        return self.run(node, env, Frame(fn.__globals__, fn.__qualname__, cls or self.owner(fn)), st)

    def owner(self, fn):
        parts = fn.__qualname__.split('.')
        if len(parts) < 2 or '<locals>' in parts:
            return None
        obj = fn.__globals__.get(parts[0])
        for p in parts[1:-1]:
            obj = getattr(obj, p, None)
        return obj if isinstance(obj, type) else None

    def run(self, node, env, fr, st):
        if self.depth > 14:
            raise Unsupported('recursion of %s' % fr.name)
        self.depth += 1
        try:
            caller, base = st.env, len(st.pc)
            st.env = env
            if isinstance(node, ast.Lambda):
                val = self.ev(node.body, st, fr)
                st.env = caller
                return val
            self.block(node.body, st, fr)
            outs = [s for s in fr.returns if not s.dead]
            if not st.dead:
                s = st.clone()
                s.env = {'%ret': None}
                outs.append(s)
            for s in outs:
                s.env = {'%ret': s.env['%ret']}
            if not outs:
                st.env = caller
                st.kill()
                raise Stop()
            st.become(self.join_all(outs, base))
            val = st.env['%ret']
            st.env = caller
            return val
        finally:
            self.depth -= 1

    #
    # statements
    #

    def block(self, stmts, st, fr):
        for s in stmts:
            if st.dead:
                return
            try:
                self.stmt(s, st, fr)
            except Stop:
                st.kill()
                return

    def stmt(self, s, st, fr):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, st, fr)

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            val = self.ev(s.value.value, st, fr)
            self.event(st, 'yield', val)
            return
        self.ev(s.value, st, fr)

    def st_Pass(self, s, st, fr):
        pass

    def st_Import(self, s, st, fr):
        for a in s.names:
            import importlib
            mod = importlib.import_module(a.name)
            st.env[a.asname or a.name.split('.')[0]] = mod if a.asname else importlib.import_module(a.name.split('.')[0])

    def st_Global(self, s, st, fr):
        raise Unsupported('global')

    def st_FunctionDef(self, s, st, fr):
        if s.decorator_list:
            raise Unsupported('decorated inner function')
        defaults = [self.ev(d, st, fr) for d in s.args.defaults]
        st.env[s.name] = Closure(s, dict(st.env), fr.glob, fr, defaults, s.name)

    def st_Return(self, s, st, fr):
        val = self.ev(s.value, st, fr) if s.value is not None else None
        r = st.clone()
        r.env['%ret'] = val
        fr.returns.append(r)
        st.kill()

    def st_Raise(self, s, st, fr):
        if s.exc is None:
            raise Unsupported('bare raise')
        self.throw(st, self.exc_class(s.exc, st, fr))

    def exc_class(self, e, st, fr):
        if isinstance(e, ast.Call):
            c = self.ev(e.func, st, fr)
        else:
            c = self.ev(e, st, fr)
        if isinstance(c, Thing) and c.name == 'exception':
            return c.data
        if isinstance(c, type) and issubclass(c, BaseException):
            return c
        raise Unsupported('raise')

    def st_Assert(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        self.raise_if(st, lnot(c), AssertionError)

    def branch(self, c, st, yes, no):
        """run one or both continuations"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return yes(st)
        if z3.is_false(c):
            return no(st)
        if not self.feasible(st, c):
            st.pc = st.pc + (lnot(c),)
            return no(st)
        if not self.feasible(st, lnot(c)):
            st.pc = st.pc + (c,)
            return yes(st)
        a, b = st.clone(c), st.clone(lnot(c))
        for f, x in ((yes, a), (no, b)):
            try:
                f(x)
            except Stop:
                x.kill()
        if a.dead and b.dead:
            st.kill()
            return
        st.become(self.join(c, a, b))

    def st_If(self, s, st, fr):
        c = self.truth(self.ev(s.test, st, fr), st)
        self.branch(c, st, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr))

    def st_Assign(self, s, st, fr):
        val = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, val, st, fr)

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)

    def st_AugAssign(self, s, st, fr):
        load = copy.copy(s.target)
        load.ctx = ast.Load()
        old = self.ev(load, st, fr)
        val = self.ev(s.value, st, fr)
        if isinstance(s.op, ast.Add) and isinstance(old, Ref) and isinstance(st.heap[old.id], (HList, HUnk)):
            self.method(old, 'extend', [val], {}, st)
            return
        self.assign(s.target, self.binop(s.op, old, val, st), st, fr)

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, st, fr), self.ev(t.slice, st, fr), st)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Unsupported('del')

    def assign(self, t, val, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = val
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, v in zip(t.elts, self.unpack(val, len(t.elts), st)):
                self.assign(x, v, st, fr)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st, fr)
            self.setitem(obj, self.ev(t.slice, st, fr), val, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st, fr), self.mangle(t.attr, fr), val, st)
        else:
            raise Unsupported('assignment to %s' % type(t).__name__)

    def unpack(self, val, n, st):
        if isinstance(val, Tup):
            if len(val.items) != n:
                raise Unsupported('unpacking')
            return val.items
        if isinstance(val, Union):
            cols = [self.unpack(x, n, st) for _, x in val.alts]
            out = cols[-1]
            for (g, _), c in zip(reversed(val.alts[:-1]), reversed(cols[:-1])):
                out = [self.merge(g, x, y) for x, y in zip(c, out)]
            return out
        if isinstance(val, (tuple, list)) and not isinstance(val, SV):
            return list(val)
        if isinstance(val, Ref) and isinstance(st.heap[val.id], HList):
            h = st.heap[val.id]
            if h.base is None and len(h.items) == n and all(z3.is_true(g) for g, _ in h.items):
                return [x for _, x in h.items]
        raise Unsupported('unpacking %r' % (val,))

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None and f.cls is None:
                f = f.outer
            if f is not None:
                return '_%s%s' % (f.cls.__name__.lstrip('_'), name)
        return name

    def st_While(self, s, st, fr):
        from proof import loops
        loops.while_loop(self, s, st, fr)

    def st_For(self, s, st, fr):
        from proof import loops
        loops.for_loop(self, s, st, fr)

    def st_Break(self, s, st, fr):
        fr.loops[-1]['breaks'].append(st.clone())
        st.kill()

    def st_Continue(self, s, st, fr):
        fr.loops[-1]['continues'].append(st.clone())
        st.kill()

    def st_With(self, s, st, fr):
        raise Unsupported('with')

    def st_Try(self, s, st, fr):
        base = len(st.pc)
        env0 = dict(st.env)
        for n in ast.walk(ast.Module(s.body, [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env0.pop(n.id, None)
        self.raises.append([])
        try:
            self.block(s.body, st, fr)
        finally:
            caught = self.raises.pop()
        outs = []
        if not st.dead:
            self.block(s.orelse, st, fr)
            if not st.dead:
                outs.append(st.clone())
        for r in caught:
            for h in s.handlers:
                types_ = self.ev(h.type, st, fr) if h.type is not None else BaseException
                if isinstance(types_, Tup):
                    types_ = tuple(types_.items)
                if issubclass(r.cls, types_):
                    x = r.state.clone()
                    x.env = dict(env0)
                    if h.name:
                        x.env[h.name] = Thing('exception', None, r.cls)
                    self.block(h.body, x, fr)
                    if not x.dead:
                        outs.append(x)
                    break
            else:
                self.raises[-1].append(r)
        if s.finalbody:
            raise Unsupported('finally')
        self.become_all(st, outs, base)

    #
    # expressions
    #

    def ev(self, e, st, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, st, fr)

    def ev_Constant(self, e, st, fr):
        return e.value

    def ev_Name(self, e, st, fr):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, Union) and any(isinstance(x, Ref) for _, x in v.alts):
                alts = [(g, x) for g, x in v.alts if self.feasible(st, g)]
                if alts and len(alts) < len(v.alts):
                    v = alts[0][1] if len(alts) == 1 else Union(alts)
            return v
        f = fr
        while f is not None:
            cl = getattr(f, 'closure', None)
            if cl is not None and e.id in cl:
                return cl[e.id]
            f = f.outer
        if e.id in fr.glob:
            return fr.glob[e.id]
        import builtins
        if hasattr(builtins, e.id):
            return getattr(builtins, e.id)
        raise Unsupported('name %s' % e.id)

    def ev_Tuple(self, e, st, fr):
        vals = [self.ev(x, st, fr) for x in e.elts]
        if not any(isinstance(v, SV) for v in vals):
            return tuple(vals)
        return Tup(vals)

    def ev_List(self, e, st, fr):
        vals = [self.ev(x, st, fr) for x in e.elts]
        r = Ref()
        st.heap[r.id] = HList(None, [(z3.BoolVal(True), v) for v in vals])
        return r

    def ev_Set(self, e, st, fr):
        vals = [self.ev(x, st, fr) for x in e.elts]
        if any(isinstance(v, SV) for v in vals):
            raise Unsupported('set of symbolic values')
        return frozenset(vals)

    def ev_Dict(self, e, st, fr):
        r = Ref()
        st.heap[r.id] = HDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.method(r, 'update', [self.ev(v, st, fr)], {}, st)
                continue
            key = self.ev(k, st, fr)
            self.setitem(r, key, self.ev(v, st, fr), st)
        return r

    def ev_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(self.lit(x.value))
            else:
                parts.append(self.tostr(self.ev(x.value, st, fr), st))
        return Sym(self.cat(parts), T.STR)

    def tostr(self, v, st):
        if isinstance(v, Sym) and v.ty is not None and v.ty.kind == 'str':
            return v.t
        if not isinstance(v, SV):
            return self.lit(str(v))
        return self.app('str', self.term(v, st))

    def ev_BoolOp(self, e, st, fr):
        is_or = isinstance(e.op, ast.Or)

        def go(rest, s):
            v = self.ev(rest[0], s, fr)
            if len(rest) == 1:
                return v
            c = self.truth(v, s)
            c = z3.simplify(c)
            stop = c if is_or else z3.simplify(lnot(c))
            if z3.is_true(stop) or not self.feasible(s, lnot(stop)):
                return v
            if z3.is_false(stop) or not self.feasible(s, stop):
                return go(rest[1:], s)
            a, b = s.clone(stop), s.clone(lnot(stop))
            a.env['%val'] = self.narrow(v, stop, a)
            try:
                b.env['%val'] = go(rest[1:], b)
            except Stop:
                b.kill()
            s.become(self.join(stop, a, b))
            return s.env.pop('%val')

        return go(e.values, st)

    def narrow(self, v, cond, st):
        """drop the alternatives that 'cond' excludes"""
        if isinstance(v, Union):
            alts = [(g, x) for g, x in v.alts if self.feasible(st, g)]
            if len(alts) == 1:
                return alts[0][1]
            if alts:
                return Union(alts)
        return v

    def ev_IfExp(self, e, st, fr):
        c = z3.simplify(self.truth(self.ev(e.test, st, fr), st))
        if z3.is_true(c) or not self.feasible(st, lnot(c)):
            return self.ev(e.body, st, fr)
        if z3.is_false(c) or not self.feasible(st, c):
            return self.ev(e.orelse, st, fr)
        a, b = st.clone(c), st.clone(lnot(c))
        for x, n in ((a, e.body), (b, e.orelse)):
            try:
                x.env['%val'] = self.ev(n, x, fr)
            except Stop:
                x.kill()
        if a.dead and b.dead:
            st.kill()
            raise Stop()
        st.become(self.join(c, a, b))
        return st.env.pop('%val')

    def ev_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            c = lnot(self.truth(v, st))
            return True if z3.is_true(c) else False if z3.is_false(c) else BoolV(c)
        if isinstance(e.op, ast.USub):
            if isinstance(v, IntV):
                return IntV(-v.t)
            if not isinstance(v, SV):
                return -v
        raise Unsupported('unary operator')

    def ev_BinOp(self, e, st, fr):
        return self.binop(e.op, self.ev(e.left, st, fr), self.ev(e.right, st, fr), st)

    def binop(self, op, a, b, st):
        if not isinstance(a, SV) and not isinstance(b, SV):
            import operator as o
            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Mod: o.mod, ast.BitAnd: o.and_, ast.BitOr: o.or_,
                 ast.FloorDiv: o.floordiv}.get(type(op))
            if f is None:
                raise Unsupported('operator %s' % type(op).__name__)
            try:
                return f(a, b)
            except Exception as x:
                self.throw(st, type(x))
        if isinstance(a, Union):
            return self.split(st, a, lambda s, x: self.binop(op, x, b, s))
        if isinstance(b, Union):
            return self.split(st, b, lambda s, x: self.binop(op, a, x, s))
        if isinstance(op, ast.Add):
            if isinstance(a, (IntV, int)) and isinstance(b, (IntV, int)):
                return IntV((a.t if isinstance(a, IntV) else z3.IntVal(a)) + (b.t if isinstance(b, IntV) else z3.IntVal(b)))
            if isinstance(a, (Tup, tuple)) and isinstance(b, (Tup, tuple)):
                return Tup(list(a.items if isinstance(a, Tup) else a) + list(b.items if isinstance(b, Tup) else b))
            if self.stringy(a) and self.stringy(b):
                for x in (a, b):
                    if isinstance(x, Sym):
                        self.raise_if(st, x.t == NULL, TypeError)
                return Sym(self.cat([self.term(a, st), self.term(b, st)]), T.STR)
            if self.listy(a, st) and self.listy(b, st):
                r = self.new(st, self.list_content(a, st).copy())
                self.method(r, 'extend', [b], {}, st)
                return r
        if isinstance(op, ast.Sub) and isinstance(a, (IntV, int)) and isinstance(b, (IntV, int)):
            return IntV((a.t if isinstance(a, IntV) else z3.IntVal(a)) - (b.t if isinstance(b, IntV) else z3.IntVal(b)))
        if isinstance(op, ast.BitAnd):
            from proof import builtins_
            return builtins_.set_and(self, a, b, st)
        raise Unsupported('operator %s on %r and %r' % (type(op).__name__, a, b))

    def new(self, st, content):
        r = Ref()
        st.heap[r.id] = content
        return r

    def stringy(self, v):
        return isinstance(v, str) and not isinstance(v, SV) or isinstance(v, Sym) and v.ty is not None and v.ty.kind == 'str'

    def listy(self, v, st):
        return isinstance(v, Ref) and isinstance(st.heap[v.id], (HList, HUnk)) or \
            isinstance(v, Sym) and v.ty is not None and v.ty.kind in ('list', 'field') or \
            not isinstance(v, SV) and isinstance(v, list)

    def list_content(self, v, st):
        if isinstance(v, Ref):
            h = st.heap[v.id]
            return HList(h.base) if isinstance(h, HUnk) else h
        if isinstance(v, Sym):
            return HList(v.t)
        return HList(None, [(z3.BoolVal(True), x) for x in v])

    def ev_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            out.append(self.compare(op, left, right, st))
            left = right
        if all(isinstance(x, bool) for x in out):
            return all(out)
        c = land(*[x.t if isinstance(x, BoolV) else boolval(x) for x in out])
        return True if z3.is_true(c) else False if z3.is_false(c) else BoolV(c)

    def compare(self, op, a, b, st):
        from proof import builtins_
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = builtins_.is_(self, a, b, st)
            return self.boolean(c if isinstance(op, ast.Is) else lnot(c))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            c = builtins_.eq(self, a, b, st)
            return self.boolean(c if isinstance(op, ast.Eq) else lnot(c))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = builtins_.contains(self, b, a, st)
            return self.boolean(c if isinstance(op, ast.In) else lnot(c))
        return self.boolean(builtins_.order(self, op, a, b, st))

    def boolean(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        return True if z3.is_true(c) else False if z3.is_false(c) else BoolV(c)

    def ev_Attribute(self, e, st, fr):
        obj = self.ev(e.value, st, fr)
        return self.getattr(obj, self.mangle(e.attr, fr), st)

    def ev_Subscript(self, e, st, fr):
        obj = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            lo, hi, step = [self.ev(x, st, fr) if x is not None else None
                            for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return self.slice(obj, lo, hi, step, st)
        return self.getitem(obj, self.ev(e.slice, st, fr), st)

    def ev_Lambda(self, e, st, fr):
        return Closure(e, dict(st.env), fr.glob, fr, [self.ev(d, st, fr) for d in e.args.defaults], '<lambda>')

    def ev_ListComp(self, e, st, fr):
        from proof import loops
        return loops.comprehension(self, e, st, fr, 'list')

    def ev_GeneratorExp(self, e, st, fr):
        from proof import loops
        return loops.comprehension(self, e, st, fr, 'list')

    def ev_SetComp(self, e, st, fr):
        from proof import loops
        return loops.comprehension(self, e, st, fr, 'set')

    def ev_DictComp(self, e, st, fr):
        from proof import loops
        return loops.comprehension(self, e, st, fr, 'dict')

    def ev_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            args = [self.ev(x, st, fr) for x in e.args]
            return Thing('super', None, (args[0] if args else fr.cls, args[1] if len(args) > 1 else st.env['self']))
        f = self.ev(e.func, st, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                if isinstance(v, Tup):
                    args += v.items
                elif isinstance(v, (tuple, list)) and not isinstance(v, SV):
                    args += list(v)
                else:
                    raise Unsupported('*args')
            else:
                args.append(self.ev(x, st, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs')
            kw[k.arg] = self.ev(k.value, st, fr)
        return self.call(f, args, kw, st)

    #
    # calls
    #

    def native(self, v, st):
        """is 'v' an ordinary value all the way down?"""
        if isinstance(v, SV):
            return False
        if isinstance(v, (tuple, list)):
            return all(self.native(x, st) for x in v)
        return True

    def call(self, f, args, kw, st):
        if isinstance(f, Union):
            return self.split(st, f, lambda s, x: self.call(x, args, kw, s))
        if isinstance(f, Thing):
            return f.op(self, st, 'call', args, kw)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw, st)
        if isinstance(f, Bound):
            if f.fn is not None:
                return self.call(f.fn, [f.self] + list(args), kw, st)
            return self.method(f.self, f.name, list(args), kw, st)
        if isinstance(f, SV):
            raise Unsupported('call of %r' % f)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + list(args), kw, st)
        try:
            model = self.models.get(f)
            contract = self.contracts.get(f)
        except TypeError:
            model = contract = None
        if contract is not None:
            ret = contract(self, f, args, kw, st)
            if ret is not NotImplemented:
                return ret
        if model is not None:
            ret = model(self, args, kw, st)
            if ret is not NotImplemented:
                return ret
        if isinstance(f, type):
            from proof import builtins_
            return builtins_.construct(self, f, args, kw, st)
        if isinstance(f, types.FunctionType) and f.__module__ and f.__module__.startswith(self.interp):
            return self.call_function(f, args, kw, st)
        if all(self.native(x, st) for x in args) and all(self.native(x, st) for x in kw.values()):
            try:
                return f(*args, **kw)
            except Exception as x:
                self.throw(st, type(x))
        raise Unsupported('call of %s' % getattr(f, '__name__', f))

    def call_closure(self, f, args, kw, st):
        if isinstance(f.node, ast.Lambda):
            env = self.bind(args, f.node, f.defaults, args, kw, f.name)
        else:
            env = self.bind(args, f.node, f.defaults, args, kw, f.name)
        fr = Frame(f.glob, f.name, None, f.frame)
        outer = dict(f.env)
        for k in list(outer):
            if k in st.env and f.frame is getattr(self, '_frame', None):
                outer[k] = st.env[k]
        full = dict(outer)
        # values of the enclosing function at the time of the call, when it is the caller
        for k, v in st.env.items():
            if k in full and not k.startswith('%'):
                full[k] = v
        full.update(env)
        if not isinstance(f.node, ast.Lambda):
            full[f.name] = f
        return self.run(f.node, full, fr, st)

    def event(self, st, name, *args):
        st.events = st.events + ((st.pc, name, args, st.clone(), tuple(self.loop_idx)),)

    loop_idx = ()

    # attribute and item access, and methods, are in builtins_.py
    def getattr(self, obj, name, st, default=MISSING):
        from proof import builtins_
        return builtins_.getattr_(self, obj, name, st, default)

    def setattr(self, obj, name, val, st):
        from proof import builtins_
        return builtins_.setattr_(self, obj, name, val, st)

    def getitem(self, obj, key, st):
        from proof import builtins_
        return builtins_.getitem(self, obj, key, st)

    def setitem(self, obj, key, val, st):
        from proof import builtins_
        return builtins_.setitem(self, obj, key, val, st)

    def delitem(self, obj, key, st):
        from proof import builtins_
        return builtins_.delitem(self, obj, key, st)

    def slice(self, obj, lo, hi, step, st):
        from proof import builtins_
        return builtins_.slice_(self, obj, lo, hi, step, st)

    def method(self, obj, name, args, kw, st):
        from proof import builtins_
        return builtins_.method(self, obj, name, args, kw, st)
