"""bounded leg of C15: resolving references into raw documents"""
import copy
import json
import os
import pathlib
import shutil
import tempfile

from lib import impl, walk
from lib.case import call, show, same
from lib.impl import yaml

URLS = ['http://h/a.json', 'http://h/b', 'http://i/c.yaml?q=1', 'http://i/c.yaml?q=2', 'http://i/c.yaml', 'http://i/C.yaml', 'http://i/c.yaml/',
        'https://h/b', 'http://h:80/b', 'http://h/b;p', 'http://h/%62', 'ftp://h/a.json']
KEYS = ['a', 'b', 'a/b', 'a~b', '~1', '~0', '', 'x y', '0', u'\u00e9', '200', 'items']


def value(rng, depth):
    if depth and rng.random() < .8:
        if rng.random() < .4:
            return [value(rng, depth - 1) for _ in range(rng.randrange(4))]
        return dict((rng.choice(KEYS), value(rng, depth - 1)) for _ in range(rng.randrange(4)))
    return rng.choice([0, 1, -3, 2.5, True, False, None, '', 'text', u'\u00fc', 'a: b', '12', 'true'])


def numbers(v):
    """ the same, with numeric keys (ex. status codes) as numbers, as yaml has them """
    if isinstance(v, dict):
        return dict((int(k) if k.isdigit() and str(int(k)) == k else k, numbers(x)) for k, x in v.items())
    if isinstance(v, list):
        return [numbers(x) for x in v]
    return v


def places(v, toks=()):
    yield toks
    if isinstance(v, dict):
        for k in v:
            for x in places(v[k], toks + (k,)):
                yield x
    elif isinstance(v, list):
        for i, w in enumerate(v):
            for x in places(w, toks + (str(i),)):
                yield x


def generate(rng):
    if rng.random() < .1:
        return generate_files(rng)
    docs = {}
    for u in rng.sample(URLS, rng.randrange(1, 4)):
        doc = dict((rng.choice(KEYS), value(rng, 3)) for _ in range(rng.randrange(1, 5)))
        if rng.random() < .15:
            doc = rng.choice([{}, [value(rng, 2)], {}])
        docs[u] = [rng.choice(['dict', 'json', 'json-bytes', 'yaml', 'yaml-bytes', 'flow']), doc]
    hook = rng.random() < .3
    refs = []
    for _ in range(rng.randrange(1, 8)):
        u = rng.choice(sorted(docs))
        at = rng.choice(list(places(docs[u][1])))
        kind = rng.choice(['ok', 'ok', 'ok', 'ok', 'lost', 'nowhere'])
        if kind == 'nowhere':
            at = at + (rng.choice(['zz', '17', 'a', '']),)
        refs.append([u if kind != 'lost' else 'http://h/lost.json', list(at), rng.random() < .15])
    return {'leg': 'resolve', 'docs': docs, 'hook': hook, 'refs': refs}


def generate_files(rng):
    names = rng.sample(['swagger.json', 'resource_list.json', 'swagger.yaml', 'a.json', 'b.yaml', 'c.yml', 'd.json', 'e.yaml', 'f g.json', u'h%20\u00fc.json',
                        'i;j.json', 'k#l.yaml'], 4)
    docs = dict((n, dict((rng.choice(KEYS), value(rng, 2)) for _ in range(3))) for n in names)
    return {'leg': 'files', 'docs': docs, 'seed': rng.randrange(10 ** 6), 'folder': rng.choice(['', '', 'v1', 'v1.json', 'v2.yaml', 'a b', u'\u00e9%41', 'x?y'])}


def text(kind, doc):
    if kind == 'dict':
        return doc if isinstance(doc, dict) else json.dumps(doc)
    if kind.startswith('json'):
        ret = json.dumps(doc, ensure_ascii=False)
    elif kind == 'flow':
        ret = '# a comment\n' + json.dumps(doc)
    else:
        ret = yaml.safe_dump(numbers(doc), allow_unicode=True)
        if ret.startswith('{'):
            ret = '---\n' + ret
    return ret.encode('utf-8') if kind.endswith('bytes') else ret


def judge(case):
    return judge_files(case) if case['leg'] == 'files' else judge_refs(case)


def judge_refs(case):
    prefix = 'http://mirror/' if case['hook'] else ''
    made = dict((prefix + u, text(k, copy.deepcopy(d))) for u, (k, d) in case['docs'].items())
    if case['hook']:
        made.update((u, '{"wrong": 1}') for u in case['docs'])
    source = impl.DocGetter(made)
    resolver = impl.resolve.Resolver(url_load_hook=(lambda u: prefix + u) if case['hook'] else None,
                                     default_getter=source.klass())
    what = show(case)
    used = set()
    for url, toks, own in case['refs']:
        ref = url + walk.pointer(toks) if toks else url
        if own and url in case['docs'] and not case['hook']:
            got = call(resolver.resolve, ref, getter=source.klass()(url))
        else:
            got = call(resolver.resolve, ref)
        here = 'resolving %s %r in %s' % (ref, got, what)
        if url not in case['docs']:
            if got.exc is None:
                return here + ', expected an error'
            continue
        doc = case['docs'][url][1]
        used.add(url)
        if not doc:
            if got.exc is None:
                return here + ', expected an error for an empty document'
            continue
        at = call(walk.lookup, doc, toks)
        cur = doc
        for i, t in enumerate(toks):
            if not isinstance(cur, (dict, list)):
                at = call(lambda: {}[0])
                break
            nxt = call(lambda: cur[int(t)] if isinstance(cur, list) else cur[t])
            if nxt.exc is not None:
                at = nxt
                break
            cur = nxt.value
        if at.exc is not None:
            if got.exc is None:
                return here + ', but nothing is there'
        elif got.exc is not None or not same(got.value, numbers(at.value) if case['docs'][url][0].startswith('yaml') else at.value):
            return here + ', expected %s' % show(at.value)
        elif case['docs'][url][0] == 'dict' and isinstance(doc, dict) and isinstance(at.value, (dict, list)):
            if got.value is not walk.lookup(made[prefix + url], toks):
                return here + ', a copy of the given dictionary'
    for u in set(source.log):
        name = u[len(prefix):]
        if name not in case['docs'] and name != 'http://h/lost.json':
            return 'unexpectedly retrieved %s in %s' % (u, what)
        if source.log.count(u) > 1 and name in case['docs'] and case['docs'][name][1]:
            return '%s is retrieved %d times in %s' % (u, source.log.count(u), what)
    return None


def judge_files(case):
    scratch = tempfile.mkdtemp(prefix='verif-c15-')
    try:
        folder = os.path.join(scratch, case.get('folder', '')).rstrip('/')
        if folder != scratch:
            os.mkdir(folder)
        for n, doc in case['docs'].items():
            with open(os.path.join(folder, n), 'w') as f:
                f.write(json.dumps(doc) if n.endswith('json') else yaml.safe_dump(doc))
        opened = []
        for n, doc in case['docs'].items():
            full = os.path.join(folder, n)
            stem = full.rsplit('.', 1)[0]
            url = pathlib.Path(full).as_uri()
            paths = [full, url]
            # without extension: .json is looked for first, then .yaml
            if not n.endswith('.yml') and (n.endswith('.json') or n.rsplit('.', 1)[0] + '.json' not in case['docs']):
                paths.append(stem)
            for p in paths:
                got = call(lambda: next(impl.getter.LocalGetter(p)))
                if got.exc is not None or not same(got.value, doc):
                    return 'reading %s of %s %r, expected %s' % (p, sorted(case['docs']), got, show(doc))
            if impl.utils.normalize_url(full) != url:
                return 'the URL of %s: %s, expected %s' % (full, impl.utils.normalize_url(full), url)
            got = call(impl.resolve.Resolver().resolve, url)
            if got.exc is not None or not same(got.value, doc):
                return 'resolving %s %r, expected %s' % (url, got, show(doc))
        for n in ('swagger.json', 'resource_list.json', 'swagger.yaml'):
            if n in case['docs']:
                got = call(lambda: next(impl.getter.LocalGetter(folder)))
                if got.exc is not None or not any(same(got.value, case['docs'].get(m)) for m in (
                        'swagger.json', 'resource_list.json', 'swagger.yaml')):
                    return 'reading the folder of %s %r' % (sorted(case['docs']), got)
        got = call(lambda: next(impl.getter.LocalGetter(os.path.join(folder, 'missing.json'))))
        if got.exc is None:
            return 'reading a missing file %r' % got
        got = call(lambda: next(impl.getter.LocalGetter(os.path.join(folder, 'missing'))))
        if got.exc is None:
            return 'reading a missing file %r' % got
    finally:
        shutil.rmtree(scratch)
    return None
