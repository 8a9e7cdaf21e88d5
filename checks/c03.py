"""bounded leg of C03"""
from lib import impl
from lib.case import call, show, clone

VERSIONS = ['1.2', '2.0', '2.5', '3.0.0', '3.0.1', '10.0']
TOKENS = ['a', 'ab', 'b', 'a~1b', '~0', '0', '1', '10', 'definitions', 'x', '']
URLS = ['http://h/a.json', 'http://h/b.json']


def gen_jp(rng, n=4):
    return '/'.join(['#'] + [rng.choice(TOKENS) for _ in range(rng.randrange(n + 1))])


def gen_key(rng):
    return '/'.join(rng.choice(TOKENS[:-1]) for _ in range(rng.randrange(1, 3)))


def covers(a, b):
    return a == '' or b == a or b.startswith(a + '/')


def gen_table(rng, depth, key, top=True):
    ret = {}
    for _ in range(rng.randrange(1, 4)):
        k = key()
        if depth and rng.random() < .4:
            sub = gen_table(rng, depth - 1, lambda: gen_key(rng), False)
            if rng.random() < .3:
                sub[''] = rng.choice(['#/n/m', 'q'])
            if rng.random() < .1:
                sub = {}
            ret[k] = sub
        else:
            ret[k] = '#/' + gen_key(rng) if top or rng.random() < .5 else gen_key(rng)
    return ret


def tables(table, prefix=()):
    """-> prefixes of the non-empty nested tables"""
    out = []
    for k, to in table.items():
        if isinstance(to, dict) and to:
            toks = tuple(prefix) + tuple(k.split('/') if k else ())
            out += [toks] + tables(to, toks)
    return out


def admissible(table):
    """no entry is listed twice, none covers a nested table that it is not the own entry of"""
    plain = [tuple(p) for p, _ in flatten(table)]
    nested = tables(table)
    if len(set(plain)) < len(plain) or len(set(nested)) < len(nested):
        return False
    if split(table):
        return False
    # what a table lists for itself is its '' entry
    return not any(n[:len(p)] == p and (len(n) > len(p) or not own_entry(table, p))
                   for p in plain for n in nested)


def split(table):
    """is what lies inside one entry listed by another entry, too?"""
    for k, to in table.items():
        if not isinstance(to, dict):
            continue
        if split(to):
            return True
        inner = [k.split('/') + p if k else p for p, _ in flatten(to)]
        for k2 in table:
            toks = k2.split('/')
            if k2 != k and any(p[:len(toks)] == toks for p in inner):
                return True
    return False


def own_entry(table, prefix):
    """is the plain entry 'prefix' the '' entry of the nested table at 'prefix'"""
    def walk(t, pre):
        for k, to in t.items():
            toks = pre + tuple(k.split('/') if k else ())
            if isinstance(to, dict):
                if toks == prefix and '' in to:
                    return True
                if walk(to, toks):
                    return True
        return False
    return walk(table, ())


def top_key(rng):
    jp = gen_jp(rng, 2)
    return jp


def generate(rng):
    updates = [[rng.choice(URLS), rng.choice(VERSIONS), gen_table(rng, 2, lambda: top_key(rng))]
               for _ in range(rng.randrange(5))]
    # updates of one table must not make a plain entry cover a nested one either
    state = {}
    kept = []
    for url, ver, table in updates:
        new = dict(state.get((url, ver), {}))
        new.update(table)
        if not admissible(new):
            continue
        state[(url, ver)] = new
        kept.append([url, ver, table])
    keys = [k for _, _, t in kept for k in t]
    queries = []
    for _ in range(8):
        jp = gen_jp(rng)
        if keys and rng.random() < .6:
            jp = rng.choice(keys)
            for _ in range(rng.randrange(3)):
                jp += '/' + rng.choice(TOKENS)
        queries.append([rng.choice(URLS), jp, rng.choice(VERSIONS), rng.choice(VERSIONS)])
    return {'leg': 'routes', 'updates': kept, 'queries': queries}


def flatten(table, prefix=None):
    """-> [(prefix tokens, new pointer)]"""
    out = []
    for k, to in table.items():
        toks = (prefix or []) + (k.split('/') if k else [])
        if isinstance(to, dict):
            out += flatten(to, toks)
        elif to.startswith('#'):
            out.append((toks, to.split('/')))
        else:
            # relative to the object of the enclosing table
            out.append((toks, (prefix or []) + to.split('/')))
    return out


def translate(jp, table):
    toks = jp.split('/')
    best = None
    for pre, to in flatten(table):
        if toks[:len(pre)] == pre and (best is None or len(pre) > len(best[0])):
            best = (pre, to)
    if best is None:
        return jp
    return '/'.join(best[1] + toks[len(best[0]):])


def key(v):
    return [int(x) for x in (v.split('.') + ['0', '0'])[:3]]


def judge(case):
    store = impl.store.SpecObjStore(migratable_spec_versions=list(VERSIONS))
    tables = {}
    for url, ver, table in clone(case['updates']):
        tables.setdefault((url, ver), {}).update(clone(table))
        got = call(store.update_routes, url, ver, table)
        if got.exc is not None:
            return 'update_routes(%r, %r, %s) %r' % (url, ver, show(table), got)
    for url, jp, from_, to in case['queries']:
        want = jp
        for v in sorted(VERSIONS, key=key):
            if key(from_) < key(v) <= key(to):
                want = translate(want, tables.get((url, v), {}))
        got = call(store.relocate, url, jp, from_, to)
        if got.exc is not None or got.value != want:
            return 'relocate(%r, %r, %r, %r) with %s %r, expected %r' % (
                url, jp, from_, to, show(case['updates']), got, want)
    return None

