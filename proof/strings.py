"""formulas with the operations on strings left uninterpreted, but for a few laws: what follows from them follows, and sooner"""
import subprocess
import tempfile

import z3

S, I, B = z3.StringSort(), z3.IntSort(), z3.BoolSort()
OPS = {}
NAMES = {z3.Z3_OP_SEQ_PREFIX: 'prefix', z3.Z3_OP_SEQ_SUFFIX: 'suffix', z3.Z3_OP_SEQ_CONTAINS: 'contains', z3.Z3_OP_SEQ_LENGTH: 'length',
         z3.Z3_OP_SEQ_EXTRACT: 'extract', z3.Z3_OP_SEQ_INDEX: 'index', z3.Z3_OP_SEQ_AT: 'at', z3.Z3_OP_SEQ_REPLACE: 'replace'}
CAT = z3.Function('u.cat', S, S, S)
LEN = z3.Function('u.length', S, I)
PRE, SUF = z3.Function('u.prefix', S, S, B), z3.Function('u.suffix', S, S, B)
for k, f in ((z3.Z3_OP_SEQ_LENGTH, LEN), (z3.Z3_OP_SEQ_PREFIX, PRE), (z3.Z3_OP_SEQ_SUFFIX, SUF)):
    OPS[k] = f


def op(kind, args, sort):
    if kind not in OPS:
        OPS[kind] = z3.Function('u.' + NAMES[kind], *([a.sort() for a in args] + [sort]))
    return OPS[kind](*args)


class Abstract(object):
    def __init__(self):
        self.cache, self.literals, self.keep = {}, set(), []

    def __call__(self, t):
        k = t.get_id()
        if k not in self.cache:
            self.keep.append(t)
            self.cache[k] = self.change(t)
        return self.cache[k]

    def change(self, t):
        if z3.is_quantifier(t):
            if t.is_lambda():
                return t
            n = t.num_vars()
            vs = [z3.FreshConst(t.var_sort(i), 'q') for i in range(n)]
            rev = vs[::-1]
            body = self(z3.substitute_vars(t.body(), *rev))
            pats = []
            for i in range(t.num_patterns()):
                p = t.pattern(i)
                ts = [self(z3.substitute_vars(c, *rev)) for c in p.children()]
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            return (z3.ForAll if t.is_forall() else z3.Exists)(vs, body, patterns=pats)
        if z3.is_string_value(t):
            self.literals.add(t.as_string())
            return t
        if not z3.is_app(t) or not t.num_args():
            return t
        ch = [self(c) for c in t.children()]
        kind = t.decl().kind()
        if kind == z3.Z3_OP_SEQ_CONCAT and t.sort() == S:
            r = ch[-1]
            for c in ch[-2::-1]:
                r = CAT(c, r)
            return r
        if kind in NAMES and ch[0].sort() == S:
            return op(kind, ch, t.sort())
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        if z3.is_and(t):
            return z3.And(*ch)
        if z3.is_or(t):
            return z3.Or(*ch)
        if z3.is_distinct(t):
            return z3.Distinct(*ch)
        return t.decl()(*ch)

    def laws(self):
        x, y, z = z3.Strings('x! y! z!')
        e = z3.StringVal('')
        c = CAT(x, y)
        out = [z3.ForAll([x], z3.And(LEN(x) >= 0, z3.Implies(LEN(x) == 0, x == e)), patterns=[LEN(x)]),
               z3.ForAll([x, y], z3.And(LEN(c) == LEN(x) + LEN(y), PRE(x, c), SUF(y, c), z3.Implies(x == e, c == y), z3.Implies(y == e, c == x)),
                         patterns=[c]),
               z3.ForAll([x, y, z], CAT(CAT(x, y), z) == CAT(x, CAT(y, z)), patterns=[CAT(CAT(x, y), z)]),
               z3.ForAll([x, y], z3.Implies(PRE(x, y), LEN(x) <= LEN(y)), patterns=[PRE(x, y)])]
        self.literals.add('')
        out += [LEN(z3.StringVal(w)) == len(w) for w in sorted(self.literals)]
        return out


def follows(hyps, goal, timeout):
    """does the goal follow without knowing more of strings than a few laws?"""
    a = Abstract()
    fs = [a(h) for h in hyps] + [a(z3.Not(goal))]
    s = z3.Solver()
    s.add(*fs)
    s.add(*a.laws())
    text = s.to_smt2()
    for seed in range(5):
        s = z3.SimpleSolver(ctx=z3.Context())
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.set('timeout', timeout)
        s.set('random_seed', seed)
        s.from_string(text)
        if s.check() == z3.unsat:
            return True
    return False


def cvc5(text, timeout):
    """does cvc5 find no model?"""
    with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
        f.write('(set-logic ALL)\n' + text)
        f.flush()
        try:
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--strings-exp', '--tlimit', str(timeout), f.name], capture_output=True, text=True,
                               timeout=timeout / 1000 + 10)
        except subprocess.TimeoutExpired:
            return False
        return p.stdout.strip() == 'unsat'
