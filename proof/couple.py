"""comparing what the code does with what its contract says"""
import time

import z3

from proof.builtins_ import TRUE_, entry
from proof.engine import Domain, Engine, Precondition, Raised, Stop
from proof.loops import content
from proof.terms import *  # noqa
from proof.values import *  # noqa


def category(cls, side):
    from pyopenapi.errs import SchemaError
    from contracts.conv23 import Rejected
    if side == 'spec':
        if cls is Precondition:
            return 'error'
        return 'reject' if issubclass(cls, Rejected) else 'domain'
    return 'reject' if issubclass(cls, SchemaError) else 'error'


#
# loops: the relational rule
#

def flags(rec, cat, after):
    """disjunction over the exceptions of a category, in an iteration or after the loop"""
    return lor(*[rec.flags[c] if after else x for c, x in rec.raises.items() if category(c, rec.side) == cat])


def couple_all(e, loops, hyp, log):
    """facts that relate loops of the code to loops of the contract"""
    facts = []
    code = [l for l in loops if l.side == 'code' and not l.wild]
    spec = [l for l in loops if l.side == 'spec' and not l.wild]
    for ls in spec:
        for lc in code:
            facts += couple(e, lc, ls, tuple(hyp) + tuple(facts), log)
    return facts


def couple(e, lc, ls, hyp, log):
    entry_ = tuple(hyp) + tuple(lc.entry) + tuple(ls.entry)
    if not e.feasible(State(entry_)):
        return []
    if not lc.coll.eq(ls.coll) and not e.valid(entry_, lc.coll == ls.coll):
        return []
    pairs = [(a, b) for a in lc.accs for b in ls.accs
             if a.sort == b.sort and (a.kind == 'ret') == (b.kind == 'ret') and e.valid(entry_, a.init == b.init)]
    if bool(lc.broke) != bool(ls.broke):
        pass
    same_idx = [] if lc.idx.eq(ls.idx) else [lc.idx == ls.idx]
    while True:
        h = entry_ + tuple(same_idx) + tuple(lc.head) + tuple(ls.head) + tuple(a.ph == b.ph for a, b in pairs)
        if not e.feasible(State(h)):
            # no iteration at all, or the hypothesis is contradictory: nothing is concluded
            return []
        h = h + tuple(couple_all(e, lc.inner + ls.inner, h, log))
        no = lnot(flags(ls, 'domain', False))
        h = h + (no,)
        rejects = e.valid(h, flags(lc, 'reject', False) == flags(ls, 'reject', False))
        errors = e.valid(h, lnot(lor(flags(lc, 'error', False), flags(ls, 'error', False))))
        if lc.broke or ls.broke:
            bc = lc.broke[0] if lc.broke else z3.BoolVal(False)
            bs = ls.broke[0] if ls.broke else z3.BoolVal(False)
            rc = lc.returned[0] if lc.returned else z3.BoolVal(False)
            rs = ls.returned[0] if ls.returned else z3.BoolVal(False)
            live = lnot(lor(flags(lc, 'reject', False), flags(ls, 'reject', False)))
            if not e.valid(h + (live,), z3.And(bc == bs, rc == rs)):
                log.append('%s and %s end differently' % (lc, ls))
                return []
        g = h + tuple(lc.body) + tuple(ls.body)
        good = [(a, b) for a, b in pairs if e.valid(g, a.step == b.step)]
        if len(good) == len(pairs):
            break
        pairs = good
    if not (rejects and errors):
        log.append('%s and %s: exceptions differ (%s)' % (lc, ls, ', '.join(
            w for w, ok in (('rejections', rejects), ('errors', errors)) if not ok)))
        log.append('  coupled: %s' % ['%s=%s' % (a.loc, b.loc) for a, b in pairs])
        return []
    guard = land(*(tuple(lc.entry) + tuple(ls.entry)))
    ok = lnot(flags(ls, 'domain', True))
    out = [z3.Implies(z3.And(guard, ok), flags(lc, 'reject', True) == flags(ls, 'reject', True)),
           z3.Implies(z3.And(guard, ok), lnot(lor(flags(lc, 'error', True), flags(ls, 'error', True))))]
    calm = lnot(lor(flags(lc, 'reject', True), flags(ls, 'reject', True)))
    for a, b in pairs:
        out.append(z3.Implies(land(guard, ok, calm), a.out == b.out))
    if lc.broke and ls.broke:
        out.append(z3.Implies(land(guard, ok, calm), lc.broke[1] == ls.broke[1]))
        if lc.returned and ls.returned:
            out.append(z3.Implies(land(guard, ok, calm), lc.returned[1] == ls.returned[1]))
    log.append('%s ~ %s: %s' % (lc, ls, ['%s=%s' % (a.loc, b.loc) for a, b in pairs]))
    return out


#
# values
#

def equal(e, a, sa, b, sb, label):
    """-> [(what, formula)] whose conjunction says that two values are equal"""
    if isinstance(a, Union):
        return [(w, z3.Implies(g, f)) for g, x in a.alts for w, f in equal(e, x, sa, b, sb, label)]
    if isinstance(b, Union):
        return [(w, z3.Implies(g, f)) for g, x in b.alts for w, f in equal(e, a, sa, x, sb, label)]
    if isinstance(a, (tuple, list)) and not isinstance(a, SV):
        a = Tup(list(a))
    if isinstance(b, (tuple, list)) and not isinstance(b, SV):
        b = Tup(list(b))
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return [(label, z3.BoolVal(False))]
        return [x for i, (p, q) in enumerate(zip(a.items, b.items)) for x in equal(e, p, sa, q, sb, '%s[%d]' % (label, i))]
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = sa.heap[a.id], sb.heap[b.id]
        if isinstance(x, HUnk) and isinstance(y, (HDict, HList)):
            x = HDict(x.base) if isinstance(y, HDict) else HList(x.base)
            sa.heap[a.id] = x
        if isinstance(y, HUnk) and isinstance(x, (HDict, HList)):
            y = HDict(y.base) if isinstance(x, HDict) else HList(y.base)
            sb.heap[b.id] = y
        if isinstance(x, HDict) and isinstance(y, HDict):
            out = []
            keys = [k for k in x.ents if not z3.is_false(x.ents[k][0])]
            keys += [k for k in y.ents if k not in keys and not z3.is_false(y.ents[k][0])]
            try:
                for k in keys:
                    entry(e, a, k, sa, False)
                    entry(e, b, k, sb, False)
            except Unsupported:
                keys = None
            x, y = sa.heap[a.id], sb.heap[b.id]
            if keys is not None and all(k in x.ents and k in y.ents or
                                        (k in x.ents) != (k in y.ents) and (x.base is None or y.base is None)
                                        for k in keys):
                for k in sorted(keys, key=str):
                    g, v = x.ents.get(k, (z3.BoolVal(False), None))
                    h, w = y.ents.get(k, (z3.BoolVal(False), None))
                    lab = '%s[%r]' % (label, k)
                    out.append((lab + ' is there', g == h))
                    if z3.is_false(g) or z3.is_false(h):
                        continue
                    out += [(l, z3.Implies(land(g, h), f)) for l, f in equal(e, v, sa, w, sb, lab)]
                if x.base is None and y.base is None and not x.dyn and not y.dyn:
                    return out
                if len(x.dyn) == len(y.dyn) and all(p[1].eq(q[1]) for p, q in zip(x.dyn, y.dyn)):
                    bx, by = x.base if x.base is not None else EMPTY_DICT, y.base if y.base is not None else EMPTY_DICT
                    out.append((label + '[...]', bx == by))
                    for i, ((g, k, v), (h, _, w)) in enumerate(zip(x.dyn, y.dyn)):
                        lab = '%s[.%d.]' % (label, i)
                        out.append((lab + ' is there', g == h))
                        out += [(l, z3.Implies(land(g, h), f)) for l, f in equal(e, v, sa, w, sb, lab)]
                    return out
                out.append((label + '[...]', content(e, a.id, False, sa) == content(e, b.id, False, sb)))
                return out
        if isinstance(x, HList) and isinstance(y, HList):
            if x.bag or y.bag:
                return bags(e, x, y, sa, sb, label)
            if x.base is None and y.base is None and len(x.items) == len(y.items):
                out = []
                for i, ((g, v), (h, w)) in enumerate(zip(x.items, y.items)):
                    lab = '%s[%d]' % (label, i)
                    out.append((lab + ' is there', g == h))
                    out += [(l, z3.Implies(land(g, h), f)) for l, f in equal(e, v, sa, w, sb, lab)]
                return out
            if x.base is None and y.base is None and len(x.items) != len(y.items):
                # compare as sequences of what is there
                pass
    try:
        return [(label, e.term(a, sa) == e.term(b, sb))]
    except Unsupported:
        return [(label, z3.BoolVal(False))]


def bags(e, x, y, sa, sb, label):
    """equal as sets, for lists of constants; as terms otherwise"""
    if x.base is None and y.base is None and all(not isinstance(v, SV) for _, v in x.items + y.items):
        out = []
        for c in sorted(set(v for _, v in x.items + y.items), key=str):
            out.append(('%s contains %r' % (label, c), lor(*[g for g, v in x.items if v == c]) ==
                        lor(*[g for g, v in y.items if v == c])))
        return out
    r, s = Ref(), Ref()
    sa, sb = sa.clone(), sb.clone()
    sa.heap[r.id], sb.heap[s.id] = x, y
    return [(label, e.term(r, sa) == e.term(s, sb))]


#
# obligations
#

class Obligation(object):
    def __init__(self, name):
        self.name, self.status, self.output, self.time, self.size = name, None, '', 0.0, 0
        self.smt2, self.backend = None, 'z3'

    def __repr__(self):
        return '%s: %s (%.2fs)' % (self.name, self.status, self.time)


class Run(object):
    """result of executing one side"""
    def __init__(self, val, st, raises):
        self.val, self.st, self.raises = val, st, raises

    def cond(self, cat, side):
        return lor(*[land(*r.pc) for r in self.raises if category(r.cls, side) == cat])


def execute(e, side, st, thunk):
    """run one side from a state"""
    e.side = side
    e.raises = [[]]
    s = st.clone()
    try:
        val = thunk(s)
    except Stop:
        val = None
        s.kill()
    return Run(val, s, e.raises.pop())


def prove(e, name, hyp, goal, out, keep=False):
    o = Obligation(name)
    t = time.time()
    s = z3.Solver()
    s.set('timeout', e.timeout)
    for f in e.facts:
        s.add(f)
    for f in hyp:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    o.time = time.time() - t
    if r == z3.unsat:
        o.status = 'proved'
        if keep:
            o.smt2 = s.to_smt2()
    else:
        o.status = 'failed' if r == z3.sat else 'unknown'
        text = 'goal: %s\n' % goal.sexpr()[:3000]
        if r == z3.sat:
            text += model_text(s.model())
        else:
            text += s.reason_unknown()
        o.output = text[:6000]
    out.append(o)
    return o


def model_text(m):
    lines = []
    for d in m.decls():
        if d.arity() == 0 and d.range().name() == 'Bool':
            lines.append('%s = %s' % (d.name(), m[d]))
    for d in m.decls():
        if d.arity() == 0 and d.range().name() == 'J' and '!' not in str(m[d])[:0]:
            lines.append('%s = %s' % (d.name(), m[d]))
            if len(lines) > 200:
                break
    for d in m.decls():
        if d.name() in ('has', 'nonempty', 'truthy'):
            lines.append('%s = %s' % (d.name(), m[d].sexpr()[:1500] if hasattr(m[d], 'sexpr') else '...'))
    return '\n'.join(lines)


def relate(e, name, code, spec, pre=(), compare=None, keep=False):
    """-> obligations: the code meets the contract on every input for which the contract is defined"""
    out, log = [], []
    hyp = tuple(pre)
    hyp += tuple(couple_all(e, e.loops, hyp, log))
    domain = spec.cond('domain', 'spec')
    hyp += (lnot(domain),)
    rs, rc = spec.cond('reject', 'spec'), code.cond('reject', 'code')
    for r in code.raises:
        if category(r.cls, 'code') == 'error':
            prove(e, '%s: no %s' % (name, r.cls.__name__), hyp, lnot(land(*r.pc)), out, keep)
    for r in spec.raises:
        if category(r.cls, 'spec') == 'error':
            prove(e, '%s: no %s in the contract' % (name, r.cls.__name__), hyp, lnot(land(*r.pc)), out, keep)
    if not (z3.is_false(rs) and z3.is_false(rc)):
        prove(e, '%s: rejects exactly what the contract rejects' % name, hyp, rc == rs, out, keep)
    if not code.st.dead and not spec.st.dead:
        both = hyp + tuple(code.st.pc) + tuple(spec.st.pc)
        if not e.feasible(State(both)):
            o = Obligation('%s: not vacuous' % name)
            o.status, o.output = 'failed', 'no input reaches the end of both the code and the contract'
            out.append(o)
        pairs = (compare or (lambda c, s: [(c.val, s.val, 'result')]))(code, spec)
        for a, b, label in pairs:
            if isinstance(a, z3.ExprRef):
                prove(e, '%s: %s' % (name, label), both, a == b, out, keep)
                continue
            for what, f in equal(e, a, code.st, b, spec.st, label):
                prove(e, '%s: %s' % (name, what), both, f, out, keep)
    elif code.st.dead != spec.st.dead:
        prove(e, '%s: ends' % name, hyp + tuple(code.st.pc if spec.st.dead else spec.st.pc), z3.BoolVal(False), out, keep)
    return out, log
