"""C02: references are resolved against the document they occur in"""
from lib import impl  # noqa: finds the package
import re

import z3

from proof.dv import *  # noqa
from proof.c01 import ARR, JN, NORMAL, PARSED, SEP, UNPARSED, joined, same_text, txt, url_functions
from proof.values import Unsupported

STR = z3.StringVal
SCHEME, NETLOC, PATH, PARAMS, QUERY, FRAGMENT = PARSED
POSIXDIR, OSDIR = z3.Function('folder', S, S), z3.Function('folder (os)', S, S)
JOINPATH = z3.Function('joined path', S, S, S)
DEREL = z3.Function('without dot segments', S, S)
FILEURL, ABSPATH = z3.Function('file url', S, S), z3.Function('absolute path', S, S)
WINDOWS = z3.Function('is a windows path', S, B)
DOTS = z3.Function('is three dots or more', S, B)


def path_functions(e):
    import os
    import posixpath
    one = lambda f: lambda e, st, a, kw: [(st, ZS(f(txt(e, st, a[0]))))] if len(a) == 1 and not kw else NotImplemented  # noqa
    e.contracts[os.path.dirname] = e.contracts[posixpath.dirname] = one(POSIXDIR)
    e.contracts[os.path.abspath] = one(ABSPATH)
    join = lambda e, st, a, kw: [(st, ZS(JOINPATH(txt(e, st, a[0]), txt(e, st, a[1]))))] if len(a) == 2 and not kw else NotImplemented  # noqa
    e.contracts[os.path.join] = e.contracts[posixpath.join] = join


def with_path(url, path):
    return UNPARSED(SCHEME(url), NETLOC(url), path, PARAMS(url), QUERY(url), FRAGMENT(url))


def parts(ref):
    """what is before the first #, and after it"""
    i = z3.IndexOf(ref, STR('#'), 0)
    there = z3.Contains(ref, STR('#'))
    u = z3.If(there, z3.SubString(ref, 0, i), ref)
    f = z3.If(there, z3.SubString(ref, i + 1, z3.Length(ref) - i - 1), STR(''))
    return u, f


def normal(ref, url):
    """the reference, for the document where it occurs (a V: maybe none)"""
    u, f = parts(ref)
    given = z3.And(url != NONE, V.s(url) != STR(''))
    own = V.s(url)
    doc = z3.If(u == STR(''), z3.If(given, own, STR('')), z3.If(z3.And(SCHEME(u) == STR(''), given), DEREL(with_path(
        own, JOINPATH(POSIXDIR(PATH(own)), u))), u))
    return z3.If(z3.And(doc != STR(''), f == STR('')), doc, z3.Concat(doc, STR('#'), f))


def normalize_jr(keep):
    from pyopenapi import utils
    e, st = DV(), St()
    e.retry = 5000
    url_functions(e)
    path_functions(e)
    e.contracts[utils.derelativise_url] = lambda e, st, a, kw: [(st, ZS(DEREL(txt(e, st, a[0]))))] if len(a) == 1 and not kw else NotImplemented
    ref, url = z3.Consts('reference url', V)
    e.fact(z3.Or(url == NONE, V.is_str(url)), z3.Or(ref == NONE, V.is_str(ref)))
    x = z3.String('x?')
    e.fact(z3.ForAll([x], DEREL(x) != STR(''), patterns=[DEREL(x)]))
    res, exc = e.execute(utils.normalize_jr, [Z(ref, None), Z(url, None)], st)
    u, f = parts(V.s(ref))
    given = z3.And(url != NONE, V.s(url) != STR(''))
    for k, (s, v) in enumerate(res):
        t = e.v(v, s)
        e.prove('%s: no reference' % k, s, z3.Implies(ref == NONE, t == NONE), keep)
        e.prove('%s: a fragment is of this document' % k, s, z3.Implies(z3.And(ref != NONE, u == STR(''), given), t == V.str(z3.If(
            f == STR(''), V.s(url), z3.Concat(V.s(url), STR('#'), f)))), keep)
        e.prove('%s: a path is from the folder of this document' % k, s, z3.Implies(z3.And(
            ref != NONE, u != STR(''), SCHEME(u) == STR(''), given), t == V.str(normal(V.s(ref), url))), keep)
        e.prove('%s: with a scheme it stays' % k, s, z3.Implies(z3.And(ref != NONE, u != STR(''), SCHEME(u) != STR('')), t == V.str(z3.If(
            f == STR(''), u, z3.Concat(u, STR('#'), f)))), keep)
        e.prove('%s: without a document' % k, s, z3.Implies(z3.And(ref != NONE, z3.Not(given)), t == V.str(normal(V.s(ref), url))), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s): nothing at all' % (k, x.__name__), s, z3.And(V.s(ref) == STR(''), z3.Not(given)), keep)
    return e.finish()


def again(keep):
    """what is normal stays as it is, whatever document it occurs in"""
    e = DV(10000)
    e.second = 20000
    r, u, f = z3.String('r'), z3.String('u'), z3.String('f')
    url, other = z3.Consts('url other', V)
    # a URL with a scheme and without #, and a fragment
    for name, t in (('', u), (' with a fragment', z3.Concat(u, STR('#'), f))):
        a, b = parts(t)
        hyp = [z3.Not(z3.Contains(u, STR('#'))), u != STR('')]
        e.lemma('parts of a normal reference%s' % name, z3.Implies(z3.And(*hyp), z3.And(a == u, b == (f if name else STR('')))), keep)
    a, b = z3.Strings('before after')
    given = z3.And(other != NONE, V.s(other) != STR(''))
    doc = z3.If(z3.And(SCHEME(a) == STR(''), given), DEREL(with_path(V.s(other), JOINPATH(POSIXDIR(PATH(V.s(other))), a))), a)
    out = z3.If(z3.And(doc != STR(''), b == STR('')), doc, z3.Concat(doc, STR('#'), b))
    for name, t, g in (('', u, STR('')), (' with a fragment', z3.Concat(u, STR('#'), f), f)):
        e.lemma('normalizing it again%s' % name, z3.Implies(z3.And(
            a == u, b == g, u != STR(''), SCHEME(u) != STR(''), z3.BoolVal(not name) if not name else f != STR('')), out == t), keep)
    return e.finish()


#
# dot segments
#

PUT = z3.Function('folders so far', I, ARR)
DEPTH = z3.Function('number of folders so far', I, I)
STEP = z3.Function('step', I, B)        # where the definitions are looked at


def derelativise(keep):
    from pyopenapi import utils
    e, st = DV(), St()
    e.abstract = 1000
    e.solver.set('timeout', 500)
    url_functions(e)
    url = z3.String('url')
    path = PATH(url)
    n = z3.Length(path)
    rest = z3.If(n > 1, z3.SubString(path, 1, n - 1), STR(''))
    TAIL = z3.Function('tail', S, I, S)
    e.tail = TAIL
    q = SPLIT(TAIL(path, z3.IntVal(1)), SEP, z3.IntVal(-1))
    i, k = z3.Ints('i? k?')
    e.fact(length(q) >= 1, z3.ForAll([i], V.is_str(z3.Select(SEQ.at(q), i)), patterns=[z3.Select(SEQ.at(q), i)]))
    # what is reached after k segments
    x = nth(q, k)
    t = V.s(x)
    up = z3.Or(t == STR('..'), DOTS(t))
    d = DEPTH(k)
    e.fact(DEPTH(0) == 0)
    e.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < length(q)), z3.And(
        d >= 0,
        DEPTH(k + 1) == z3.If(t == STR('.'), d, z3.If(up, z3.If(d > 0, d - 1, z3.IntVal(0)), d + 1)),
        PUT(k + 1) == z3.If(z3.Or(t == STR('.'), up), PUT(k), z3.Store(PUT(k), d, x)))), patterns=[STEP(k)]))
    e.fact(z3.ForAll([k], STEP(k), patterns=[STEP(k)]))
    e.fact(z3.Not(DOTS(STR('.'))), z3.Not(DOTS(STR('..'))))

    def full(e, st, a, kw):
        if len(a) == 2 and not kw and isinstance(a[0], str) and a[0] == r'\.{3,}' and e.is_str(a[1]):
            m = z3.Const('the match', V)
            e.fact(V.is_ref(m))
            r = z3.If(DOTS(e.s(a[1])), m, NONE)
            return [(st, Z(r, ('obj', 'match')))]
        return NotImplemented
    e.contracts[utils._fullmatch] = full

    def progress(L, s):
        pos = L.pos(s)
        out = []
        own = [(n, e.seq(s.env[n], s)) for n, _ in L.vars(s, 'ref') if e.is_list(s.env[n])]
        for who, l in L.lists(s) + own if pos is not None else []:
            at, lo, hi, _ = fields(l)
            y = z3.Select(at, i)
            pat = {'patterns': [y]} if z3.is_const(at) or z3.is_select(at) or at.num_args() == 1 else {}
            out.append(('?folders so far %s' % who, z3.And(STEP(pos), hi - lo == DEPTH(pos), z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), y == z3.Select(
                PUT(pos), i - lo)), **pat))))
        return out
    e.candidates.append(progress)
    n = length(q)

    def on_join(sep, r, t):
        if not (z3.is_string_value(sep) and sep.as_string() == '/'):
            raise Unsupported('joined by something else')
        at, lo, hi, _ = fields(r)
        e.fact(t == JN(at, lo, hi), same_text(e, at, lo, tidy(hi - lo), PUT(n), z3.IntVal(0), DEPTH(n)))
    e.on_join = on_join
    e.fact(JN(PUT(n), 0, 0) == STR(''))
    res, exc = e.execute(utils.derelativise_url, [ZS(url)], st)
    for m, (s, v) in enumerate(res):
        e.prove('%s: the path without dot segments, all else the same' % m, s, e.v(v, s) == V.str(with_path(url, z3.Concat(SEP, JN(
            PUT(n), 0, DEPTH(n))))), keep)
    for m, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (m, x.__name__), s, FALSE, keep)
    return e.finish()


def fullmatch(keep):
    """a match of the whole text, or None"""
    from pyopenapi import utils
    e, st = DV(), St()
    regex, chunk = z3.Strings('regex chunk')
    found = z3.Const('match at the front', V)
    end = z3.Int('end of it')
    e.fact(z3.Or(found == NONE, V.is_ref(found)), 0 <= end, end <= z3.Length(chunk))
    e.contracts[re.match] = lambda e, st, a, kw: [(st, Z(found, ('opt', ('obj', 'match'))))]
    e.methods[('match', 'span')] = lambda e, st, x, a, kw: [(st, Tup([ZI(z3.IntVal(0)), ZI(end)]))]
    res, exc = e.execute(utils._fullmatch, [ZS(regex), ZS(chunk)], st)
    for k, (s, v) in enumerate(res):
        whole = z3.And(found != NONE, end == z3.Length(chunk))
        e.prove('%s: the match, when it is of the whole' % k, s, e.v(v, s) == z3.If(whole, found, NONE), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (k, x.__name__), s, FALSE, keep)
    return e.finish()


def normalize_url(keep):
    """a URL stays, the path of a file becomes one, anything else is refused"""
    from pyopenapi import utils
    e, st = DV(), St()
    url_functions(e)
    path_functions(e)
    url = z3.Const('url', V)
    e.fact(z3.Or(url == NONE, V.is_str(url)))
    m = z3.Const('the match', V)
    e.fact(V.is_ref(m))
    pattern = utils._WINDOWS_PATH_PREFIX_PATTERN
    e.contracts[pattern.match] = lambda e, st, a, kw: [(st, Z(z3.If(WINDOWS(txt(e, st, a[0])), m, NONE), ('opt', ('obj', 'match'))))]
    e.contracts[utils.path2url] = lambda e, st, a, kw: [(st, ZS(FILEURL(txt(e, st, a[0]))))]
    res, exc = e.execute(utils.normalize_url, [Z(url, None)], st)
    t = V.s(url)
    empty = z3.Or(url == NONE, t == STR(''))
    file_ = z3.And(SCHEME(t) == STR(''), NETLOC(t) == STR(''), PATH(t) != STR(''))
    for k, (s, v) in enumerate(res):
        e.prove('%s: as it is, or of the file' % k, s, e.v(v, s) == z3.If(empty, url, z3.If(WINDOWS(t), V.str(FILEURL(t)), z3.If(
            SCHEME(t) != STR(''), url, V.str(FILEURL(ABSPATH(t)))))), keep)
        e.prove('%s: not refused' % k, s, z3.Or(empty, WINDOWS(t), SCHEME(t) != STR(''), file_), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s): neither' % (k, x.__name__), s, z3.And(
            z3.BoolVal(x is ValueError), z3.Not(empty), z3.Not(WINDOWS(t)), SCHEME(t) == STR(''), z3.Not(file_)), keep)
    return e.finish()


def url_dirname(keep):
    from pyopenapi import utils, consts
    e, st = DV(), St()
    e.retry = 5000
    url_functions(e)
    path_functions(e)
    url = z3.String('url')
    res, exc = e.execute(utils.url_dirname, [ZS(url)], st)
    file_ = z3.Or(*[z3.SuffixOf(STR(x), PATH(url)) for x in ('json', 'yaml')])
    for k, (s, v) in enumerate(res):
        e.prove('%s: the folder of a file' % k, s, e.v(v, s) == V.str(z3.If(file_, with_path(url, POSIXDIR(PATH(url))), url)), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (k, x.__name__), s, FALSE, keep)
    return e.finish()


def url_join(keep):
    from pyopenapi import utils
    e, st = DV(), St()
    e.retry = 5000
    url_functions(e)
    url, name = z3.Strings('url name')
    p = PATH(url)
    res, exc = e.execute(utils.url_join, [ZS(url), ZS(name)], st)
    ends, begins = z3.SuffixOf(SEP, p), z3.PrefixOf(SEP, name)
    want = z3.If(z3.And(ends, begins), z3.Concat(p, z3.SubString(name, 1, z3.Length(name) - 1)), z3.If(
        z3.Or(ends, begins), z3.Concat(p, name), z3.Concat(p, SEP, name)))
    for k, (s, v) in enumerate(res):
        e.prove('%s: one separator between' % k, s, e.v(v, s) == V.str(with_path(url, want)), keep)
    for k, (s, x, _) in enumerate(exc):
        e.prove('error %s (%s)' % (k, x.__name__), s, FALSE, keep)
    return e.finish()


ASSUMPTIONS = [
    'urlparse and urlunparse are uninterpreted functions of the text and of the six parts; os.path and posixpath (dirname, join, abspath) '
    'are uninterpreted, and the same for both; path2url is',
    'a regular expression matches at the front what re.match says; \\\\.{3,} stands for three dots or more',
    'a URL in normal form has a scheme and no #',
]
UNITS = [('normalize_jr', normalize_jr), ('normalizing again', again), ('derelativise_url', derelativise), ('_fullmatch', fullmatch),
         ('normalize_url', normalize_url), ('url_dirname', url_dirname), ('url_join', url_join)]

if __name__ == '__main__':
    import sys
    from proof.dv import report
    report(UNITS, sys.argv[1:])
