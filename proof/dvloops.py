"""loops of the verifier with an explicit memory (dv.py): unrolled when what they run over is known, cut otherwise"""
import ast

import z3

from proof.dv import *  # noqa
from proof.dvlib import units
from proof.values import Unsupported


class Loop(object):
    """what candidates for invariants can speak about"""
    def __init__(self, e, fr, label, entry, changed, coll):
        self.e, self.fr, self.label, self.entry, self.changed, self.coll = e, fr, label, entry, changed, coll

    @property
    def names(self):
        return [l[1] for l in self.changed if l[0] == 'env']

    def pos(self, st):
        """number of elements a loop over a list has done, or None"""
        return st.ghost.get(('pos', self.label))

    def seen(self, st):
        """the set of elements a loop over a dict or set has done, or None"""
        return st.ghost.get(('seen', self.label))

    def cells(self, name):
        """ids whose lists ('seq') or entries ('has', 'val') the loop changes; None stands for unknown ones"""
        return [l[2] for l in self.changed if l[0] == 'mem' and l[1] == name]

    def whole(self, name):
        return any(i is None for i in self.cells(name))

    def lists(self, st):
        """sequences of the lists that the loop changes"""
        return [(i, tidy(z3.Select(self.e.mem(st, 'seq'), i))) for i in self.cells('seq') if i is not None]

    def vars(self, st, kind):
        """[(name, term)] of the variables of a kind that the loop changes"""
        out = []
        for n in self.names:
            x = st.env.get(n)
            if kind == 'str' and self.e.is_str(x):
                out.append((n, self.e.s(x)))
            elif kind == 'int' and self.e.is_int(x):
                out.append((n, self.e.i(x)))
            elif isinstance(x, Z) and (x.kind == kind or kind == 'ref' and isinstance(x.kind, tuple) and x.kind[0] in (
                    'obj', 'list', 'dict', 'set')):
                out.append((n, x.t))
        return out


#
# what a loop runs over
#

def known(e, x, st):
    """elements of something known, or None"""
    if isinstance(x, Tup):
        return x.items
    if isinstance(x, dict):
        return list(x)
    if isinstance(x, (tuple, list, set, frozenset, str)):
        return list(x)
    if isinstance(x, type({}.keys())) or isinstance(x, type({}.items())) or isinstance(x, type({}.values())):
        return list(x)
    if not isinstance(x, SV) and hasattr(x, '__next__'):
        return list(x)
    if isinstance(x, View):
        if x.kind == 'enumerate':
            k = known(e, x.of, st)
            return None if k is None else [Tup([i, y]) for i, y in enumerate(k)]
        if x.kind == 'zip':
            ks = [known(e, y, st) for y in x.of]
            return None if any(k is None for k in ks) else [Tup(list(y)) for y in zip(*ks)]
        if x.kind == 'reversed':
            k = known(e, x.of, st)
            return None if k is None else k[::-1]
        return None
    if isinstance(x, Z) and e.is_list(x):
        u = units(e.seq(x, st))
        if u is not None:
            k = e.elem_kind(x, st)
            return [e.read(y, k, st) for y in u]
    return None


def sequential(e, x, st):
    """-> (length term, fn(state, position) -> value) of something that is indexed, or None"""
    if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] == 'obj' and (x.kind[1], '__iter__') in e.methods:
        out = e.methods[(x.kind[1], '__iter__')](e, st, x, [], {})
        if len(out) != 1 or out[0][0] is not st:
            raise Unsupported('iteration that does more')
        return sequential(e, out[0][1], st)
    if isinstance(x, Z) and x.kind is None:
        k = e.kind_at(st, x)
        return None if k is None else sequential(e, Z(x.t, k), st)
    if isinstance(x, Z) and e.is_list(x):
        q, k = e.seq(x, st), e.elem_kind(x, st)
        return length(q), lambda s, i: e.element(q, i, k, s), [('seq', e.ident(x))]
    if isinstance(x, (Tup, tuple, list)):
        items = x.items if isinstance(x, Tup) else list(x)
        q = listing([e.v(y, st) for y in items])
        ks = set(e.kind(y) for y in items)
        k = ks.pop() if len(ks) == 1 else None
        return z3.IntVal(len(items)), lambda s, i: e.element(q, i, k, s), []
    if isinstance(x, View):
        if x.kind == 'enumerate':
            r = sequential(e, x.of, st)
            if r is not None:
                return r[0], lambda s, i: Tup([ZI(i), r[1](s, i)]), r[2]
        if x.kind == 'zip':
            r = [sequential(e, y, st) for y in x.of]
            if None not in r:
                n = r[0][0]
                for m in r[1:]:
                    n = z3.If(m[0] < n, m[0], n)
                return n, lambda s, i: Tup([m[1](s, i) for m in r]), [y for m in r for y in m[2]]
        if x.kind == 'reversed':
            r = sequential(e, x.of, st)
            if r is not None:
                return r[0], lambda s, i: r[1](s, r[0] - 1 - i), r[2]
        if x.kind == 'map':
            r = sequential(e, x.of[1], st)
            if r is not None:
                def mapped(s, i):
                    out = e.calls(x.of[0], [r[1](s, i)], {}, s)
                    if len(out) != 1 or any(out[0][0].mem.get(n) is not s.mem.get(n) for n in set(s.mem) | set(out[0][0].mem)):
                        raise Unsupported('a map of something that does more than to compute')
                    return out[0][1]
                return r[0], mapped, r[2]
        if x.kind == 'range':
            n = e.i(x.of)
            return z3.If(n < 0, z3.IntVal(0), n), lambda s, i: ZI(i), []
    if isinstance(x, ZS):
        return z3.Length(x.t), lambda s, i: ZS(z3.SubString(x.t, i, 1)), []
    return None


def keyed(e, x, st):
    """-> (set term, fn(state, key term) -> value, dict) of something with keys, or None"""
    kind = 'keys'
    if isinstance(x, View) and x.kind in ('keys', 'items', 'values'):
        kind, x = x.kind, x.of
    if isinstance(x, Z) and isinstance(x.kind, tuple) and x.kind[0] in ('dict', 'set'):
        h = e.has(x, st)
        kk = e.key_kind(x) if x.kind[0] == 'dict' else e.elem_kind(x, st)

        def value(s, t):
            k = e.read(t, kk, s)
            if kind == 'keys':
                return k
            from proof.dvlib import entry
            v = entry(e, x, k, s)
            return v if kind == 'values' else Tup([k, v])
        return h, value, x
    return None


def iterate(e, coll, st, fr, label, body):
    """run body(state, element) for each element -> [(state, outcome)]"""
    if isinstance(coll, View) and coll.kind == 'map':
        f, of = coll.of

        def body_(s, x):
            out = []
            for y, v in e.calls(f, [x], {}, s):
                out += body(y, v)
            return out
        return iterate(e, of, st, fr, label, body_)
    if isinstance(coll, View) and coll.kind == 'chain':
        live, out = [st], []
        for n, part in enumerate(coll.of):
            nxt = []
            for s in live:
                for y, o in iterate(e, part, s, fr, label + ('part %d' % n,), body):
                    if o is None:
                        nxt.append(y)
                    else:
                        out.append((y, o))
            live = e.squeeze(nxt)
        return [(s, None) for s in live] + out
    if isinstance(coll, Z) and not isinstance(coll.kind, tuple) or coll is None:
        out = []
        for s, x in e.some(st, coll, TypeError):
            if isinstance(x, Z) and not isinstance(x.kind, tuple):
                raise Unsupported('iteration over %r' % (x,))
            out += iterate(e, x, s, fr, label, body)
        return out
    if isinstance(coll, Z):
        out = []
        for s, x in e.some(st, coll, TypeError):
            out += iterate_(e, x, s, fr, label, body)
        return out
    return iterate_(e, coll, st, fr, label, body)


def iterate_(e, coll, st, fr, label, body):
    if isinstance(coll, Z) and coll.kind[0] == 'obj':
        h = e.methods.get((coll.kind[1], '__iter__'))
        if h is None:
            raise Unsupported('iteration over %r' % (coll,))
        out = []
        for s, x in h(e, st, coll, [], {}):
            out += iterate(e, x, s, fr, label, body)
        return out
    items = known(e, coll, st)
    if items is not None:
        live, outs = [st], []
        for x in items:
            nxt = []
            for s in live:
                for y, o in body(s, x):
                    if o is None or o[0] == 'continue':
                        nxt.append(y)
                    else:
                        outs.append((y, o))
            live = e.squeeze(nxt)
        return [(s, None) for s in live] + outs
    sq = sequential(e, coll, st)
    if sq is not None:
        n, at, deps = sq
        key = ('pos', label)
        st = st.clone()
        st.ghost[key] = z3.IntVal(0)

        def head(s):
            s.pc += (0 <= s.ghost[key], s.ghost[key] <= n)

        def guard(s):
            i = s.ghost[key]
            return [(t, c) for t, c in e.fork(s, i < n)]

        def step(s):
            i = s.ghost[key]
            s = s.clone()
            x = at(s, i)
            out = []
            for y, o in body(s, x):
                y = y.clone()
                if o is None or o[0] == 'continue':
                    y.ghost[key] = i + 1
                out.append((y, o))
            return out

        def end(s):
            s.pc += (s.ghost[key] == n,)
        return cut(e, st, fr, label, coll, [key], head, guard, step, end, deps)
    kd = keyed(e, coll, st)
    if kd is None:
        raise Unsupported('iteration over %r' % (coll,))
    h, value, d = kd
    key = ('seen', label)
    st = st.clone()
    st.ghost[key] = NOTHING

    def head(s):
        s.pc += (z3.IsSubset(s.ghost[key], h),)

    def guard(s):
        return [(t, c) for t, c in e.fork(s, s.ghost[key] != h)]

    def step(s):
        s = s.clone()
        t = e.fresh('key')
        s.pc += (z3.Select(h, t), z3.Not(z3.Select(s.ghost[key], t)))
        s.ghost[('key', label)] = t
        x = value(s, t)
        out = []
        for y, o in body(s, x):
            y = y.clone()
            y.ghost.pop(('key', label), None)
            if o is None or o[0] == 'continue':
                y.ghost[key] = z3.Store(s.ghost[key], t, TRUE)
            out.append((y, o))
        return out

    def end(s):
        s.pc += (s.ghost[key] == h,)
    return cut(e, st, fr, label, coll, [key], head, guard, step, end, [('has', e.ident(d))])


#
# cutting
#

def olds(e, t, snapshot, cache):
    """does a term only speak about what existed before the loop?"""
    key = t.get_id()
    if key in cache:
        return cache[key]
    ok = True
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        if '!' in n:
            a, b = n.rsplit('!', 1)
            ok = not b.isdigit() or int(b) < snapshot.get(a, 0)
    else:
        ok = all(olds(e, c, snapshot, cache) for c in t.children())
    cache[key] = ok
    return ok


def indices(base, t, out, seen):
    """where an array was written to; adds None when that is unknown"""
    if t.eq(base) or t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_store(t):
        out.append(t.arg(1))
        indices(base, t.arg(0), out, seen)
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        indices(base, t.arg(1), out, seen)
        indices(base, t.arg(2), out, seen)
    else:
        out.append(None)


def sort_of(e, name):
    return SORTS.get(name, V)


class Cut(object):
    def __init__(self, e, st, fr, label, own):
        self.e, self.entry, self.fr, self.label, self.own = e, st, fr, label, own
        self.snapshot, self.ids = dict(e.count), e.ids
        self.changed = []       # ('env', name), ('mem', name, index or None), ('ghost', key)
        self.kinds = {}         # name -> kind
        self.eks = {}           # id -> kind
        self.cache = {}
        self.parts = {}         # list -> which of its fields the loop changes

    def add(self, l):
        for x in self.changed:
            if x[:2] == l[:2] and len(x) == len(l) and (len(l) < 3 or (x[2] is None) == (l[2] is None) and (
                    x[2] is None or x[2].eq(l[2]))):
                return False
        self.changed.append(l)
        return True

    def compare(self, head, x):
        """note what differs between the head of the loop and the end of an iteration"""
        e, new = self.e, False
        for k in head.env:
            if k.startswith('%'):
                continue
            if k not in x.env:
                raise Unsupported('del of %s in a loop' % k)
            a, b = head.env[k], x.env[k]
            if e.same(a, b):
                continue
            if ('env', k) not in self.changed:
                self.changed.append(('env', k))
                self.kinds[k] = e.kind(self.entry.env[k])
                e.v(self.entry.env[k], self.entry)
                new = True
            e.v(b, x)
            kb = e.kind(b)
            if kb is None and isinstance(b, Z) and isinstance(self.kinds[k], tuple):
                kb = e.kind_at(x, b)
            kk = join_kinds(self.kinds[k], kb)
            if kk != self.kinds[k]:
                self.kinds[k] = kk
                new = True
        for k in x.env:
            if k not in head.env and k not in self.entry.env:
                pass
        for name in set(head.mem) | set(x.mem):
            a, b = e.mem(head, name), e.mem(x, name)
            if a.eq(b):
                continue
            out = []
            indices(a, b, out, set())
            for i in out:
                if i is not None:
                    i = tidy(i)
                    if z3.is_int_value(i) and i.as_long() < 0:
                        if i.as_long() < self.ids:
                            continue        # allocated in this iteration
                    elif not olds(e, i, self.snapshot, self.cache):
                        i = None
                new |= self.add(('mem', name, i))
                if name == 'seq' and i is not None:
                    new |= self.list_parts(i, tidy(z3.Select(a, i)), tidy(z3.Select(b, i)))
        for i, k in x.ek.items():
            if i < self.ids:
                continue
            old = self.eks.get(i, self.entry.ek.get(i, 'empty'))
            kk = k if old == 'empty' else join_kinds(old, k)
            if kk != old:
                self.eks[i] = kk
                new = True
        for k in set(head.ghost) | set(x.ghost):
            if k in self.own or k[0] in ('key',):
                continue
            a, b = head.ghost.get(k), x.ghost.get(k)
            if a is None:
                continue        # a ghost of an inner loop
            if b is None or not a.eq(b):
                new |= self.add(('ghost', k))
        if x.events != head.events:
            raise Unsupported('events in a loop')
        return new

    def list_parts(self, i, a, b):
        old = self.parts.setdefault(i.sexpr(), frozenset())
        now = frozenset(k for k, (x, y) in enumerate(zip(fields(a), fields(b))) if not tidy(x).eq(tidy(y)))
        self.parts[i.sexpr()] = old | now
        return not now <= old

    def forget_list(self, i, st):
        e = self.e
        q = tidy(z3.Select(e.mem(st, 'seq'), i))
        now = list(fields(q))
        for k in self.parts.get(i.sexpr(), (0, 1, 2, 3)):
            now[k] = e.fresh('list.%s.%s' % (''.join(str(i).split())[:20], ('at', 'lo', 'hi', 'els')[k]), now[k].sort())
        q = SEQ.mk(*now)
        st.mem['seq'] = z3.Store(e.mem(st, 'seq'), i, q)
        st.pc += (q.arg(1) <= q.arg(2),)

    def havoc(self):
        e = self.e
        st = self.entry.clone()
        for g in self.own:
            st.ghost[g] = e.fresh('_'.join(str(y) for y in g), st.ghost[g].sort())
        for l in self.changed:
            if l[0] == 'env':
                k = self.kinds[l[1]]
                t = e.fresh(l[1])
                b = bare(k)
                if b == 'bool' and not is_opt(k):
                    st.env[l[1]] = ZB(e.fresh(l[1], B))
                elif b == 'str' and not is_opt(k):
                    st.env[l[1]] = ZS(e.fresh(l[1], S))
                elif b == 'int' and not is_opt(k):
                    st.env[l[1]] = ZI(e.fresh(l[1], I))
                else:
                    st.env[l[1]] = e.read(t, k, st)
                    if isinstance(k, tuple) and b[0] in ('list', 'dict', 'set', 'obj') and self.entry.env[l[1]] is not None:
                        # what it is was there before the iteration: it is not what the iteration is going to allocate
                        st.pc += (z3.Implies(V.is_ref(t), V.id(t) >= e.ids),)
            elif l[0] == 'ghost':
                st.ghost[l[1]] = e.fresh('_'.join(str(y) for y in l[1]), st.ghost[l[1]].sort())
        whole = set(l[1] for l in self.changed if l[0] == 'mem' and l[2] is None)
        for name in whole:
            st.mem[name] = e.fresh('mem.' + name, e.mem(st, name).sort())
        for l in self.changed:
            if l[0] == 'mem' and l[2] is not None and l[1] not in whole:
                if l[1] == 'seq':
                    self.forget_list(l[2], st)
                    continue
                st.mem[l[1]] = z3.Store(e.mem(st, l[1]), l[2], e.fresh('mem.%s.%s' % (l[1], ''.join(str(l[2]).split())[:20]), sort_of(e, l[1])))
        for i, k in self.eks.items():
            st.ek[i] = k
        gone = [l for l in self.changed if l[0] == 'mem']
        for k in list(st.keys):
            for l in gone:
                name = 'attr.' + k[2] if k[0] == 'attr' else 'val'
                if l[1] == name or k[0] == 'item' and l[1] in ('has', 'val'):
                    if l[2] is None or not z3.is_int_value(l[2]) or l[2].as_long() == k[1]:
                        st.keys.pop(k, None)
        return st


def automatic(L, st):
    """invariants worth trying on any loop"""
    e, out = L.e, []
    for n in L.names:
        x, y = st.env[n], L.entry.env[n]
        if isinstance(x, Z) and y is not None:
            out.append(('%s is not None' % n, x.t != NONE))
            for d in L.coll if isinstance(L.coll, list) and isinstance(x.kind, tuple) and x.kind[0] in ('list', 'dict', 'set') else []:
                out.append(('%s is not what is run over' % n, z3.And(V.is_ref(x.t), V.id(x.t) != d[1])))
        if e.is_int(x) and e.is_int(y):
            out.append(('%s grows' % n, e.i(x) >= e.i(y)))
        if isinstance(x, ZB) and type(x) is ZB:
            out.append(('%s as before' % n, x.t == e.truth(y, L.entry)))
        if e.is_str(y) and isinstance(x, Z) and x.kind is None:
            out.append(('%s is a string' % n, V.is_str(x.t)))
    for name in sorted(set(l[1] for l in L.changed if l[0] == 'mem' and l[2] is None)):
        ids, seen = [], set()
        indices(z3.Const(name + '0', e.mem(st, name).sort()), e.mem(L.entry, name), ids, seen)
        for i in ids[:12]:
            if i is not None:
                out.append(('%s[%s] unchanged' % (name, i), z3.Select(e.mem(st, name), i) == z3.Select(e.mem(L.entry, name), i)))
        for d in L.coll if isinstance(L.coll, list) else []:
            out.append(('%s[%s] unchanged' % d, z3.Select(e.mem(st, name), d[1]) == z3.Select(e.mem(L.entry, name), d[1])))
    return out


def candidates(L, st):
    out = []
    for f in [automatic] + L.e.candidates:
        for label, c in f(L, st) or []:
            out.append(((f.__name__, label), c))
    return out


def valid(e, st, c):
    if z3.is_true(c) or z3.is_true(z3.simplify(c)):
        return True
    s = z3.Solver()
    s.set('timeout', e.patience)
    s.add(*e.facts)
    s.add(*st.pc)
    s.add(z3.Not(c))
    import time
    t = time.time()
    if e.abstract:
        from proof.strings import follows
        if follows(e.facts + list(st.pc), c, e.abstract):
            return True
    r = e.again(s, s.check())
    if e.dump and r != z3.unsat:
        e.ndump = getattr(e, 'ndump', 0) + 1
        print('candidate', e.ndump, r, round(time.time() - t, 2), ' '.join(str(c).split())[:200])
        x = z3.Solver()
        x.add(*e.facts)
        x.add(*st.pc)
        x.add(z3.Not(c))
        open('/tmp/cand%d.smt2' % e.ndump, 'w').write('(set-logic ALL)\n' + x.to_smt2())
    return r == z3.unsat


def cut(e, st, fr, label, coll, own, head, guard, step, end, deps=()):
    """-> [(state, outcome)]"""
    c = Cut(e, st, fr, label, own)
    deps = [(n, tidy(i)) for n, i in deps]
    for _ in range(12):
        h = c.havoc()
        head(h)
        new = False
        e.sink.append([])
        e.settling += 1
        try:
            for s, go in guard(h):
                if go:
                    for x, o in step(s):
                        if o is None or o[0] == 'continue':
                            new |= c.compare(h, x)
        finally:
            e.sink.pop()
            e.settling -= 1
        if not new:
            break
    else:
        raise Unsupported('what the loop changes does not settle')
    L = Loop(e, fr, label, st, c.changed, [d for d in deps])
    live = None         # labels of the candidates that are still believed
    cs, candidate_labels = candidates_at_entry(e, L, c, st) if not e.settling else ([], set())
    live = set(cs)
    while True:
        h = c.havoc()
        head(h)
        inv = [(l, f) for l, f in candidates(L, h) if l in live]
        h.pc += tuple(f for _, f in inv if not z3.is_true(z3.simplify(f)))
        for n, i in deps:
            if not e.settling and not z3.Select(e.mem(h, n), i).eq(z3.Select(e.mem(st, n), i)) and not tidy(z3.Select(e.mem(h, n), i)).eq(
                    tidy(z3.Select(e.mem(st, n), i))) and not valid(e, h, z3.Select(e.mem(h, n), i) == z3.Select(
                        e.mem(st, n), i)):
                raise Unsupported('the loop may change what it runs over')
        e.sink.append([])
        outs, ends = [], []
        mark = len(e.pending)
        e.rounds += 1
        try:
            for s, go in guard(h):
                if not go:
                    end(s)
                    outs.append((s, None))
                    continue
                for x, o in step(s):
                    if o is None or o[0] == 'continue':
                        ends.append(x)
                    elif o[0] == 'break':
                        outs.append((x, ('broke',)))
                    else:
                        outs.append((x, o))
        finally:
            thrown = e.sink.pop()
            e.rounds -= 1
        dropped = set()
        for x in ends:
            fs = [(l, f) for l, f in candidates(L, x) if l in live and l not in dropped]
            if not fs or valid(e, x, land(*[f for _, f in fs])):
                continue
            for l, f in fs:
                if not valid(e, x, f):
                    dropped.add(l)
        for x in ends:
            if c.compare(h, x):
                raise Unsupported('what the loop changes does not settle')
        if not dropped:
            break
        live -= dropped
        del e.pending[mark:]
    if not e.rounds and e.pending:
        pending, e.pending = e.pending, []
        for x in pending:
            e.prove(*x)
    if not e.settling:
        e.kept |= set(l for l in live if l[0] != 'automatic')
        e.lost |= set(l for l in candidate_labels - live if l[0] != 'automatic' and not l[1].startswith('?'))
        e.log.append('loop %s of %s: changes %s, keeps %s' % (label[-1], fr.name, [x[:2] + (str(x[2]),) if len(x) > 2 else x for x in c.changed], sorted(
            l[1] for l in live)))
    for x, *_ in outs + thrown:
        for g in own + [('key', label)]:
            x.ghost.pop(g, None)
    e.sink[-1] += thrown
    return outs


def candidates_at_entry(e, L, c, st):
    h = c.havoc()
    out = []
    # the entry with the shape of the head: variables as terms
    s = st.clone()
    for l in c.changed:
        if l[0] == 'env':
            k, b = c.kinds[l[1]], bare(c.kinds[l[1]])
            x = s.env[l[1]]
            if isinstance(h.env[l[1]], Z):
                s.env[l[1]] = Z(e.v(x, s), h.env[l[1]].kind)
    for i, k in c.eks.items():
        s.ek[i] = k
    there = set(l for l, _ in candidates(L, h))
    for l, f in candidates(L, s):
        if l in there and valid(e, s, f):
            out.append(l)
    return out, there


#
# statements and comprehensions
#

def after(e, s, outs, fr):
    res = []
    for x, o in outs:
        if o is None:
            if s is not None and s.orelse:
                res += e.block(s.orelse, x, fr)
            else:
                res.append((x, None))
        elif o[0] in ('broke', 'break'):
            res.append((x, None))
        else:
            res.append((x, o))
    return res


def new_label(e, fr):
    e.nloop += 1
    return (fr.name, e.nloop)


def for_loop(e, s, st, fr):
    out = []
    for x, coll in e.ev(s.iter, st, fr):
        def body(y, el):
            r = []
            for z in e.assign(s.target, el, y, fr):
                r += e.block(s.body, z, fr)
            return r
        out += after(e, s, iterate(e, coll, x, fr, new_label(e, fr), body), fr)
    return out


def while_loop(e, s, st, fr):
    def guard(x):
        r = []
        for y, v in e.ev(s.test, x, fr):
            r += e.fork(y, e.truth(v, y))
        return r
    # a loop whose condition is known is unrolled
    live, outs = [st], []
    label = new_label(e, fr)
    if e.unroll_while:
        for _ in range(e.unroll_while):
            nxt = []
            for x in live:
                for y, go in guard(x):
                    if not go:
                        outs.append((y, None))
                        continue
                    for z, o in e.block(s.body, y, fr):
                        if o is None or o[0] == 'continue':
                            nxt.append(z)
                        else:
                            outs.append((z, o))
            live = e.squeeze(nxt)
        if live:
            raise Unsupported('a while loop that does not end')
        return after(e, s, outs, fr)
    res = cut(e, st, fr, label, None, [], lambda h: None, guard, lambda x: e.block(s.body, x, fr), lambda x: None)
    return after(e, s, res, fr)


def comprehension(e, n, st, fr, kind):
    """as the loop that it abbreviates"""
    acc = '%%acc%d' % n.col_offset
    st = st.clone()
    r = e.new(st, (kind if kind != 'generator' else 'list', None))
    outer = dict(st.env)

    def level(i, s):
        if i == len(n.generators):
            if kind == 'dict':
                return [(z, None) for y, (k, v) in e.evs([n.key, n.value], s, fr) for z in e.setitem(r, k, v, y)]
            return [(z, None) for y, v in e.ev(n.elt, s, fr)
                    for z, _ in e.method(r, 'append' if kind == 'list' else 'add', [v], {}, y)]
        g = n.generators[i]

        def body(y, el):
            live = e.assign(g.target, el, y, fr)
            for c in g.ifs:
                nxt, out = [], []
                for z in live:
                    for w, v in e.ev(c, z, fr):
                        for u, yes in e.fork(w, e.truth(v, w)):
                            (nxt if yes else out).append(u)
                live = nxt
                skipped.extend(out)
            res = []
            for z in live:
                res += level(i + 1, z)
            while skipped:
                res.append((skipped.pop(), None))
            return res
        skipped = []
        res = []
        for y, coll in e.ev(g.iter, s, fr):
            res += iterate(e, coll, y, fr, new_label(e, fr), body)
        return res
    out = []
    for x, o in level(0, st):
        if o is not None:
            raise Unsupported('break in a comprehension')
        x = x.clone()
        x.env = dict((k, v) for k, v in x.env.items() if k in outer)
        for k, v in outer.items():
            x.env[k] = v
        out.append((x, r))
    return out


def as_sequence(e, x, st):
    """-> [(state, sequence, kind)] of something iterable, in the order of iteration"""
    st = st.clone()
    r = e.new(st, ('list', None))

    def body(s, el):
        return [(y, None) for y, _ in e.method(r, 'append', [el], {}, s)]
    fr = Frame({}, 'list', None)
    return [(s, e.seq(r, s), e.elem_kind(r, s)) for s, o in iterate(e, x, st, fr, new_label(e, fr), body)]
