"""C01: tokens of JSON Pointers survive encoding and splitting"""
from lib import impl  # noqa: finds the package
import z3

from proof.dv import *  # noqa
from proof import dvlib
from proof.values import Unsupported

STR = z3.StringVal
R, NUM = dvlib.REPLACE, dvlib.NUM
ENC, DEC = z3.Function('encoded', S, S), z3.Function('decoded', S, S)
SEP = STR('/')
ARR = z3.ArraySort(I, V)
JN = z3.Function('joined', ARR, I, I, S)
DIFF = z3.Function('differ at', ARR, I, ARR, I, I, I)
LOOK = z3.Function('separator at', ARR, I, I, I)


#
# definitions, where they are needed
#

def replaced(x, a, b):
    """str.replace: occurrences from left to right, that do not overlap"""
    n = len(a.as_string())
    rest = lambda k: z3.SubString(x, k, z3.Length(x) - k)  # noqa
    return R(x, a, b) == z3.If(x == STR(''), STR(''), z3.If(z3.PrefixOf(a, x), z3.Concat(b, R(rest(n), a, b)), z3.Concat(
        z3.SubString(x, 0, 1), R(rest(1), a, b))))


def encoded(x):
    c, t = z3.SubString(x, 0, 1), z3.SubString(x, 1, z3.Length(x) - 1)
    return ENC(x) == z3.If(x == STR(''), STR(''), z3.Concat(z3.If(c == STR('~'), STR('~0'), z3.If(c == SEP, STR('~1'), c)), ENC(t)))


def decoded(x):
    rest = lambda k: z3.SubString(x, k, z3.Length(x) - k)  # noqa
    return DEC(x) == z3.If(x == STR(''), STR(''), z3.If(z3.PrefixOf(STR('~0'), x), z3.Concat(STR('~'), DEC(rest(2))), z3.If(
        z3.PrefixOf(STR('~1'), x), z3.Concat(SEP, DEC(rest(2))), z3.Concat(z3.SubString(x, 0, 1), DEC(rest(1))))))


def text(at, i):
    return V.s(z3.Select(at, i))


def joined(at, lo, hi):
    return JN(at, lo, hi) == z3.If(lo >= hi, STR(''), z3.If(lo == hi - 1, text(at, lo), z3.Concat(text(at, lo), SEP, JN(at, lo + 1, hi))))


#
# lemmas, by induction
#

def theory():
    e = DV(5000)
    e.retry, e.second = 0, 20000
    return e


def alphabet(keep):
    e = theory()
    t0, t1, tl = STR('~0'), STR('~1'), STR('~')
    c, t = z3.Strings('c t')

    # replacing ~ and then / is encoding
    def defs(x):
        return [encoded(x), replaced(x, tl, t0)]

    def after(c):
        return z3.If(c == tl, t0, c)
    # first what replacing does to what was replaced: by cases of the first character
    rest = R(t, tl, t0)
    for name, first in (('~', tl), ('/', SEP), ('another character', c)):
        more = [] if name != 'another character' else [z3.Length(c) == 1, c != tl, c != SEP]
        x = z3.Concat(first, t)
        r = R(x, tl, t0)
        unfold = [encoded(x), replaced(x, tl, t0)]
        y = z3.Concat(after(first), rest)
        chars = [z3.Concat(t0, rest), z3.Concat(STR('0'), rest)] if name == '~' else [z3.Concat(first, rest)]
        unfold += [replaced(z, SEP, t1) for z in chars]
        e.lemma('encoding: %s' % name, z3.Implies(z3.And(*(more + unfold + [R(rest, SEP, t1) == ENC(t)])), R(r, SEP, t1) == ENC(x)), keep)
    e.lemma('encoding: nothing', z3.Implies(z3.And(encoded(STR('')), replaced(STR(''), tl, t0), replaced(STR(''), SEP, t1)), R(R(
        STR(''), tl, t0), SEP, t1) == ENC(STR(''))), keep)
    # decoding of what is encoded
    for name, first, enc in (('~', tl, t0), ('/', SEP, t1), ('another character', c, c)):
        more = [] if name != 'another character' else [z3.Length(c) == 1, c != tl, c != SEP]
        x, y = z3.Concat(first, t), z3.Concat(enc, ENC(t))
        e.lemma('decoding what is encoded: %s' % name, z3.Implies(z3.And(*(more + [encoded(x), decoded(y), DEC(ENC(t)) == t])), DEC(
            ENC(x)) == x), keep)
        e.lemma('no separator in what is encoded: %s' % name, z3.Implies(z3.And(*(more + [encoded(x), z3.Not(z3.Contains(ENC(t), SEP))])),
                                                                         z3.Not(z3.Contains(ENC(x), SEP))), keep)
    e.lemma('decoding what is encoded: nothing', z3.Implies(z3.And(encoded(STR('')), decoded(STR(''))), DEC(ENC(STR(''))) == STR('')), keep)
    e.lemma('no separator in what is encoded: nothing', z3.Implies(encoded(STR('')), z3.Not(z3.Contains(ENC(STR('')), SEP))), keep)
    # replacing ~1 and then ~0 is decoding
    r1 = lambda x: R(x, t1, SEP)  # noqa
    r0 = lambda x: R(x, t0, tl)  # noqa
    goal = lambda x: r0(r1(x)) == DEC(x)  # noqa
    e.lemma('decoding: nothing', z3.Implies(z3.And(decoded(STR('')), replaced(STR(''), t1, SEP), replaced(STR(''), t0, tl)), goal(STR(''))), keep)
    x = z3.Concat(t1, t)
    e.lemma('decoding: ~1', z3.Implies(z3.And(goal(t), decoded(x), replaced(x, t1, SEP), replaced(z3.Concat(SEP, r1(t)), t0, tl)), goal(x)), keep)
    x = z3.Concat(t0, t)
    y = z3.Concat(STR('0'), t)
    e.lemma('decoding: ~0', z3.Implies(z3.And(goal(t), decoded(x), replaced(x, t1, SEP), replaced(y, t1, SEP), replaced(
        z3.Concat(t0, r1(t)), t0, tl)), goal(x)), keep)
    e.lemma('decoding: no 0 at the front appears', z3.Implies(z3.And(z3.Not(z3.PrefixOf(STR('0'), t)), replaced(t, t1, SEP)), z3.Not(
        z3.PrefixOf(STR('0'), r1(t)))), keep)
    x = z3.Concat(tl, t)
    e.lemma('decoding: ~ and something else', z3.Implies(z3.And(
        goal(t), z3.Not(z3.PrefixOf(STR('0'), t)), z3.Not(z3.PrefixOf(STR('1'), t)), z3.Not(z3.PrefixOf(STR('0'), r1(t))), decoded(x),
        replaced(x, t1, SEP), replaced(z3.Concat(tl, r1(t)), t0, tl)), goal(x)), keep)
    x = z3.Concat(c, t)
    e.lemma('decoding: another character', z3.Implies(z3.And(
        z3.Length(c) == 1, c != tl, goal(t), decoded(x), replaced(x, t1, SEP), replaced(z3.Concat(c, r1(t)), t0, tl)), goal(x)), keep)
    return e.finish()


#
# lists of texts
#

W1, W2 = z3.Const('p', ARR), z3.Const('q', ARR)


def bad(at, lo, hi):
    """where there is a separator, if there is one anywhere"""
    return LOOK(at, lo, hi)


def clean(at, lo, hi):
    """there is no separator in any of the texts: said of those that are looked at"""
    return lambda *js: [z3.Implies(z3.And(lo <= j, j < hi), z3.Not(z3.Contains(text(at, j), SEP))) for j in js]


def listing_(keep):
    """what joins to the same text is the same, when there is no separator within; what is joined after one another"""
    e = theory()
    x, y, a, b = z3.Strings('x y a b')
    lo, mo, n, m, i = z3.Ints('lo mo n m i')
    no = lambda t: z3.Not(z3.Contains(t, SEP))  # noqa
    first = z3.Implies(z3.And(no(x), no(y), z3.Concat(x, SEP, a) == z3.Concat(y, SEP, b)), x == y)
    e.lemma('the text before the first separator', first, keep)
    e.lemma('the text after it', z3.Implies(z3.And(x == y, z3.Concat(x, SEP, a) == z3.Concat(y, SEP, b)), a == b), keep)
    # induction on the number of texts
    p, q = W1, W2
    P = lambda lo, n: JN(p, lo, lo + n)  # noqa
    Q = lambda mo, m: JN(q, mo, mo + m)  # noqa
    same = lambda lo, n, mo, m: z3.And(n == m, z3.Implies(z3.And(0 <= i, i < n), text(p, lo + i) == text(q, mo + i)))  # noqa
    hyp = [joined(p, lo, lo + n), joined(q, mo, mo + m), m >= 1, no(text(p, lo)), no(text(q, mo)), P(lo, n) == Q(mo, m)]
    i_ = z3.Int('i')
    e.lemma('the same texts: of one', z3.Implies(z3.And(*(hyp + [n == 1])), same(lo, n, mo, m)), keep)
    e.lemma('the same texts: against one', z3.Implies(z3.And(*(hyp + [n > 1, m == 1])), FALSE), keep)
    X, Y, A_, B_ = text(p, lo), text(q, mo), P(lo + 1, n - 1), Q(mo + 1, m - 1)
    cut = z3.And(X == Y, A_ == B_)
    inst = lambda f: z3.substitute(f, (x, X), (y, Y), (a, A_), (b, B_))  # noqa
    after = z3.Implies(z3.And(x == y, z3.Concat(x, SEP, a) == z3.Concat(y, SEP, b)), a == b)
    JP, JQ = z3.Concat(X, SEP, JN(p, lo + 1, lo + n)), z3.Concat(Y, SEP, JN(q, mo + 1, mo + m))
    e.lemma('the same texts: unfolded', z3.Implies(z3.And(*(hyp + [n > 1, m > 1])), JP == JQ), keep)
    e.lemma('the same texts: the first', z3.Implies(z3.And(no(X), no(Y), JP == JQ, inst(first), inst(after), lo + 1 + (n - 1) == lo + n), cut), keep)
    step = z3.substitute(same(lo, n, mo, m), (lo, lo + 1), (n, n - 1), (mo, mo + 1), (m, m - 1), (i, i - 1))
    e.lemma('the same texts: one more', z3.Implies(z3.And(n > 1, m > 1, X == Y, step), same(lo, n, mo, m)), keep)
    # joining the elements of two lists after one another: r is p followed by q
    r = z3.Const('r', ARR)
    hi = lo + n
    all_ = [joined(p, lo, hi), joined(r, lo, hi + m), n >= 1, m >= 1]
    goal = lambda lo, n: JN(r, lo, lo + n + m) == z3.Concat(JN(p, lo, lo + n), SEP, JN(r, lo + n, lo + n + m))  # noqa
    e.lemma('one after the other: of one', z3.Implies(z3.And(*(all_ + [n == 1, text(r, lo) == text(p, lo)])), goal(lo, n)), keep)
    e.lemma('one after the other: one more', z3.Implies(z3.And(*(all_ + [n > 1, text(r, lo) == text(p, lo), z3.substitute(
        goal(lo, n), (lo, lo + 1), (n, n - 1))])), goal(lo, n)), keep)
    # lists with the same elements join to the same text
    same_ = lambda lo, mo, n: JN(p, lo, lo + n) == JN(q, mo, mo + n)  # noqa
    defs = [joined(p, lo, lo + n), joined(q, mo, mo + n)]
    e.lemma('equal lists: none', z3.Implies(z3.And(*(defs + [n <= 0])), same_(lo, mo, n)), keep)
    e.lemma('equal lists: one more', z3.Implies(z3.And(*(defs + [n >= 1, text(p, lo) == text(q, mo), z3.substitute(
        same_(lo, mo, n), (lo, lo + 1), (mo, mo + 1), (n, n - 1))])), same_(lo, mo, n)), keep)
    return e.finish()


#
# the functions
#

def laws(e):
    """what the lemmas give"""
    x = z3.String('x?')
    y = R(R(x, STR('~'), STR('~0')), SEP, STR('~1'))
    e.fact(z3.ForAll([x], y == ENC(x), patterns=[y]))
    y = R(R(x, STR('~1'), SEP), STR('~0'), STR('~'))
    e.fact(z3.ForAll([x], y == DEC(x), patterns=[y]))


def same_text(e, at, lo, n, bt, mo, m):
    """an instance of: lists with the same elements join to the same text"""
    d = e.fresh('differ', I)
    return z3.Or(JN(at, lo, lo + n) == JN(bt, mo, mo + m), n != m, z3.And(0 <= d, d < n, text(at, lo + d) != text(bt, mo + d)))


def token(x):
    """ the text of a key """
    return z3.If(V.is_int(x), NUM(V.i(x)), V.s(x))


def compose(kind, keep):
    from pyopenapi import utils
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    laws(e)
    base = z3.Const('base', V)
    e.fact(z3.Or(base == NONE, V.is_str(base)))
    given = z3.And(base != NONE, V.s(base) != STR(''))
    i = z3.Int('i?')
    E_ = z3.Const('expected', ARR)
    e.fact(z3.Select(E_, 0) == base)
    one = z3.String('segment')
    if kind == 'list':
        # texts, and numbers: the keys of documents in yaml
        arg = Z(V.ref(z3.Int('segments')), ('list', ('or', 'str', 'int')))
        e.fact(z3.Int('segments') >= 0, ISLIST(z3.Int('segments')))
        q = e.seq(arg, st)
        x = z3.Select(SEQ.at(q), i)
        e.fact(length(q) >= 0, z3.ForAll([i], z3.Or(V.is_str(x), V.is_int(x)), patterns=[x]))
        e.fact(z3.ForAll([i], z3.Select(E_, i) == z3.If(i == 0, base, V.str(ENC(token(nth(q, i - 1))))), patterns=[z3.Select(E_, i)]))
        n = length(q)
        seqs = e.mem(st, 'seq')
    else:
        arg = ZS(one) if kind == 'text' else None
        n = z3.IntVal(1)
        e.fact(z3.Select(E_, 1) == V.str(ENC(one)))
        e.fact(joined(E_, z3.IntVal(1), z3.IntVal(2)))
    e.fact(joined(E_, z3.IntVal(0), n + 1))

    def on_join(sep, r, t):
        if not (z3.is_string_value(sep) and sep.as_string() == '/'):
            raise Unsupported('joined by something else')
        at, lo, hi, _ = fields(r)
        e.fact(t == JN(at, lo, hi))
        if not z3.is_const(at):
            # what is in front
            c = e.fresh('all', ARR)
            e.fact(c == at)
            at = c
            e.fact(t == JN(at, lo, hi))
        for k, m in ((z3.IntVal(0), n + 1), (z3.IntVal(1), n)):
            e.fact(same_text(e, at, lo, tidy(hi - lo), E_, k, m))
    e.on_join = on_join

    def progress(L, s):
        pos = L.pos(s)
        out = []
        for _, l in L.lists(s) if pos is not None else []:
            at, lo, hi, _ = fields(l)
            x = z3.Select(at, i)
            pat = {'patterns': [x]} if z3.is_const(at) or z3.is_select(at) or at.num_args() == 1 else {}
            out.append(('those so far', z3.And(hi - lo == pos, z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), x == V.str(ENC(
                token(nth(q, i - lo))))), **pat))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(utils.jp_compose, [arg, Z(base, 'str') if False else Z(base, None)], st)
    for k, (s, v) in enumerate(res):
        if kind == 'none':
            e.prove('%s: the pointer itself' % k, s, e.v(v, s) == base, keep)
            continue
        want = z3.If(given, JN(E_, 0, n + 1), JN(E_, 1, n + 1))
        e.prove('%s: the tokens encoded, after the pointer' % k, s, e.v(v, s) == V.str(want), keep)
        if kind == 'list':
            e.prove('%s: the list is as it was' % k, s, z3.Select(e.mem(s, 'seq'), z3.Int('segments')) == z3.Select(seqs, z3.Int('segments')), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (k, x.__name__), s, FALSE, keep)
    return e.finish()


def split(limit, keep):
    from pyopenapi import utils
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    laws(e)
    jp = z3.Const('jp', V)
    n = z3.Int('max_split')
    e.fact(z3.Or(jp == NONE, V.is_str(jp)))
    q = SPLIT(V.s(jp), SEP, n if limit else z3.IntVal(-1))
    i, j = z3.Int('i?'), z3.Int('j')
    e.fact(length(q) >= 1, z3.ForAll([i], V.is_str(z3.Select(SEQ.at(q), i)), patterns=[z3.Select(SEQ.at(q), i)]))

    def progress(L, s):
        pos = L.pos(s)
        out = []
        for _, l in L.lists(s) if pos is not None else []:
            out.append(('those so far', z3.And(length(l) == pos, z3.Implies(z3.And(0 <= j, j < pos), nth(l, j) == V.str(DEC(V.s(nth(q, j))))))))
        return out
    e.candidates.append(progress)
    res, exc = e.execute(utils.jp_split, [Z(jp, None)] + [ZI(n)] * limit, st)
    empty = z3.Or(jp == NONE, V.s(jp) == STR(''))
    for k, (s, v) in enumerate(res):
        l = e.seq(v, s)
        e.prove('%s: the parts between separators, decoded' % k, s, z3.If(empty, length(l) == 0, z3.And(length(l) == length(q), z3.Implies(
            z3.And(0 <= j, j < length(l)), nth(l, j) == V.str(DEC(V.s(nth(q, j))))))), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (k, x.__name__), s, FALSE, keep)
    return e.finish()


def round_trip(keep):
    """splitting what was composed, by the contracts of both and the lemmas"""
    e = theory()
    base = z3.String('base')
    n, i, d1, d2 = z3.Ints('n i d1 d2')
    E_, T, B_, r, tok = [z3.Const(x, ARR) for x in ('expected', 'parts', 'parts_of_base', 'all', 'tokens')]
    m, b = z3.Ints('number_of_parts number_of_parts_of_base')
    no = lambda t: z3.Not(z3.Contains(t, SEP))  # noqa
    c = JN(E_, 0, n + 1)
    zero = z3.IntVal(0)
    hyp = [n >= 1, m >= 1, b >= 1, base != STR(''),
           c == JN(T, 0, m), base == JN(B_, 0, b),                      # parts join to what was split
           text(E_, 0) == base, joined(E_, zero, n + 1)]
    # all: the parts of the pointer, then the encoded tokens
    at = lambda i: text(r, i) == z3.If(i < b, text(B_, i), text(E_, i - b + 1))  # noqa
    app = JN(r, 0, b + n) == z3.Concat(JN(r, 0, b), SEP, JN(r, b, b + n))        # one after the other
    ext1 = z3.Or(JN(r, 0, b) == JN(B_, 0, b), z3.And(0 <= d1, d1 < b, text(r, d1) != text(B_, d1)))
    ext2 = z3.Or(JN(r, b, b + n) == JN(E_, 1, 1 + n), z3.And(0 <= d2, d2 < n, text(r, b + d2) != text(E_, 1 + d2)))
    e.lemma('what is composed is the parts of the pointer and the encoded tokens', z3.Implies(z3.And(*(hyp + [
        app, ext1, ext2, at(d1), at(b + d2)])), JN(r, 0, b + n) == JN(T, 0, m)), keep)
    # the same texts: an instance of the lemma
    k = z3.Int('k')
    clean1, clean2 = no(text(r, k)), no(text(T, k))
    e.lemma('no separators in these', z3.Implies(z3.And(
        0 <= k, k < b + n, at(k), no(text(B_, k)), text(E_, k - b + 1) == ENC(text(tok, k - b)), no(ENC(text(tok, k - b)))), clean1), keep)
    same = lambda i: z3.And(m == b + n, z3.Implies(z3.And(0 <= i, i < m), text(T, i) == text(r, i)))  # noqa
    e.lemma('the tokens of the pointer first', z3.Implies(z3.And(b >= 1, n >= 1, same(i), at(i), 0 <= i, i < b), DEC(text(T, i)) == DEC(text(B_, i))), keep)
    e.lemma('then those appended', z3.Implies(z3.And(
        b >= 1, n >= 1, same(b + i), at(b + i), 0 <= i, i < n, text(E_, i + 1) == ENC(text(tok, i)), DEC(ENC(text(tok, i))) == text(tok, i)),
        DEC(text(T, b + i)) == text(tok, i)), keep)
    # different tokens, different pointers
    u = z3.Const('other_tokens', ARR)
    n2 = z3.Int('n2')
    e.lemma('different tokens give different pointers', z3.Implies(z3.And(
        m == b + n, m == b + n2, z3.Implies(z3.And(0 <= i, i < n), DEC(text(T, b + i)) == text(tok, i)),
        z3.Implies(z3.And(0 <= i, i < n2), DEC(text(T, b + i)) == text(u, i))), z3.And(n == n2, z3.Implies(z3.And(0 <= i, i < n), text(
            tok, i) == text(u, i)))), keep)
    return e.finish()


PARSED = [z3.Function(x, S, S) for x in ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')]
UNPARSED = z3.Function('unparsed', *([S] * 7))
NORMAL = z3.Function('normal url', S, S)


def txt(e, st, x):
    """the text a value is: it has to be one"""
    if isinstance(x, Z):
        if e.kind_at(st, x) != 'str':
            raise Unsupported('maybe no text')
        return V.s(x.t)
    if not e.is_str(x):
        raise Unsupported('not a text')
    return e.s(x)


def url_functions(e):
    """urlparse and urlunparse"""
    import collections
    import six
    from six.moves.urllib import parse as P
    names = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')

    def parse(e, st, a, kw):
        if len(a) != 1 or kw:
            raise Unsupported('urlparse with more than a text')
        t = txt(e, st, a[0])
        return [(st, Tup([ZS(f(t)) for f in PARSED], names))]

    def unparse(e, st, a, kw):
        if len(a) != 1 or kw or not isinstance(a[0], (Tup, tuple)):
            raise Unsupported('urlunparse of %r' % (a,))
        items = a[0].items if isinstance(a[0], Tup) else a[0]
        if len(items) != 6:
            raise Unsupported('urlunparse of %d parts' % len(items))
        return [(st, ZS(UNPARSED(*[txt(e, st, x) for x in items])))]
    e.contracts[P.urlparse], e.contracts[P.urlunparse] = parse, unparse


def jr_split(keep):
    from pyopenapi import utils
    e, st = DV(), St()
    url_functions(e)
    ref = z3.String('ref')

    def normal(e, st, a, kw):
        e.throw(st.clone(), ValueError)
        return [(st, ZS(NORMAL(e.s(a[0]))))]
    e.contracts[utils.normalize_url] = normal
    res, exc = e.execute(utils.jr_split, [ZS(ref)], st)
    p = [f(ref) for f in PARSED]
    for k, (s, v) in enumerate(res):
        a, b = v.items if isinstance(v, Tup) else v
        e.prove('%s: the document' % k, s, e.s(a) == NORMAL(UNPARSED(*(p[:5] + [STR('')]))), keep)
        e.prove('%s: the pointer' % k, s, e.s(b) == z3.Concat(STR('#'), p[5]), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s): of the URL alone' % (k, x.__name__), s, z3.BoolVal(x is ValueError), keep)
    return e.finish()


ASSUMPTIONS = [
    'str.replace replaces from left to right what does not overlap; str.split gives the parts between separators, which have none '
    'within and give the text when joined; str.join joins',
    'induction over characters and over lists: each step is an obligation, the principle is not',
    'urlparse and urlunparse are uninterpreted functions of the text and of the six parts',
]
UNITS = [('characters', alphabet), ('lists', listing_)] + [('jp_compose of ' + n, lambda keep, n=n: compose(n, keep)) for n in (
    'none', 'text', 'list')] + [('jp_split', lambda keep: split(False, keep)), ('jp_split with a limit', lambda keep: split(True, keep)),
                              ('round trip', round_trip), ('jr_split', jr_split)]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
