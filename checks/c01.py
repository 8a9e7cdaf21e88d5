"""bounded leg of C01"""
from lib import impl
from lib.case import call, show

ALPHABET = ['~', '/', '0', '1', 'a', '#', '', '~0', '~1', '~01', '~10', '//', '/~', u'\u00e9', ' ', '%7E', '.']


def enc(t):
    return ''.join({'~': '~0', '/': '~1'}.get(c, c) for c in t)


def dec(t):
    out, i = '', 0
    while i < len(t):
        if t[i] == '~' and t[i + 1:i + 2] in ('0', '1'):
            out += '~' if t[i + 1] == '0' else '/'
            i += 2
        else:
            out += t[i]
            i += 1
    return out


def gen_token(rng):
    return ''.join(rng.choice(ALPHABET) for _ in range(rng.randrange(5)))


def generate(rng):
    k = rng.randrange(4)
    if k == 0:
        return {'leg': 'ref', 'url': rng.choice(['http://h/a.json', 'https://h:80/x/y.yaml?q=1', 'file:///a/b c/x.json',
                                                'http://h', 'http://h/a/../b.json']),
                'fragment': rng.choice([None, '', '/'] + ['/' + '/'.join(enc(gen_token(rng)) for _ in range(3))] * 3)}
    base = [gen_token(rng) for _ in range(rng.randrange(1, 4))]
    if base == ['']:
        base = ['#']
    return {'leg': 'tokens', 'base': base, 'a': [gen_token(rng) for _ in range(rng.randrange(4))],
            'b': [gen_token(rng) for _ in range(rng.randrange(4))], 'single': gen_token(rng),
            'number': rng.randrange(1000)}


def judge(case):
    u = impl.utils
    if case['leg'] == 'ref':
        frag = case['fragment']
        ref = case['url'] + ('' if frag is None else '#' + frag)
        got = call(u.jr_split, ref)
        want = (case['url'], '#' + (frag or ''))
        if got.exc is not None or tuple(got.value) != want:
            return 'jr_split(%r) %r, expected %r' % (ref, got, want)
        return None
    base = '/'.join(enc(t) for t in case['base'])
    results = {}
    for key in ('a', 'b'):
        toks = list(case[key])
        keep = list(toks)
        got = call(u.jp_compose, toks, base=base)
        want = '/'.join([base] + [enc(t) for t in keep])
        if toks != keep:
            return 'jp_compose(%r, %r) changed its argument to %r' % (keep, base, toks)
        if got.exc is not None or got.value != want:
            return 'jp_compose(%r, %r) %r, expected %r' % (keep, base, got, want)
        back = call(u.jp_split, got.value)
        if back.exc is not None or list(back.value) != case['base'] + keep:
            return 'jp_split(%r) %r, expected %r' % (got.value, back, case['base'] + keep)
        results[key] = got.value
    if (results['a'] == results['b']) != (case['a'] == case['b']):
        return 'token lists %r and %r both give %r' % (case['a'], case['b'], results['a'])
    got = call(u.jp_compose, [case['single'], case['number']], base=base)
    want = '%s/%s/%s' % (base, enc(case['single']), case['number'])
    if got.exc is not None or got.value != want:
        return 'jp_compose(%r, %r) %r, expected %r' % ([case['single'], case['number']], base, got, want)
    got = call(u.jp_compose, case['single'], base=base)
    want = base + '/' + enc(case['single'])
    if got.exc is not None or got.value != want:
        return 'jp_compose(%r, %r) %r, expected %r' % (case['single'], base, got, want)
    got = call(u.jp_compose, case['single'])
    if got.exc is not None or got.value != enc(case['single']):
        return 'jp_compose(%r) %r, expected %r' % (case['single'], got, enc(case['single']))
    got = call(u.jp_split, '#/' + case['single'].replace('/', ''))
    want = ['#', dec(case['single'].replace('/', ''))]
    if case['single'].count('~') == 0 and (got.exc is not None or list(got.value) != want):
        return 'jp_split(%r) %r, expected %r' % ('#/' + case['single'], got, want)
    return None
