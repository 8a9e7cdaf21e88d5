"""where the objects of a raw description are, by contracts/tables.py alone"""
from contracts import tables as T


def enc(tok):
    return str(tok).replace('~', '~0').replace('/', '~1')


def objects(version, t, raw, tokens=()):
    """yield (tokens, class name, raw object) of every object in 'raw', a value of type t,
    outermost first; references are objects of class Reference"""
    k = t.kind
    if k == 'orbool':
        if not isinstance(raw, bool):
            for x in objects(version, t.arg, raw, tokens):
                yield x
    elif k == 'list':
        for i, v in enumerate(raw):
            for x in objects(version, t.arg, v, tokens + (str(i),)):
                yield x
    elif k == 'map':
        for n, v in raw.items():
            for x in objects(version, t.arg, v, tokens + (str(n),)):
                yield x
    elif k in ('obj', 'orref'):
        cls = t.arg
        if k == 'orref' and '$ref' in raw:
            cls = 'Reference'
        elif version == '3.0.0' and cls in T.V3_ALIASES:
            for x in objects(version, T.V3_ALIASES[cls], raw, tokens):
                yield x
            return
        yield tokens, cls, raw
        table = T.keys(version, cls)
        for n, v in raw.items():
            if n in table and v is not None and not T.is_field(table[n][0]):
                for x in objects(version, table[n][0], v, tokens + (n,)):
                    yield x


def separated_again(version, t, raw, tokens):
    """the pointer of the known finding c06-nested-container: below a container in a container, the
    separator between the two names is encoded, too"""
    out, group = ['#'], []

    def flush():
        if len(group) > 2:
            out.append(enc(group[0]))
            inner = enc(group[-1])
            for k in reversed(group[1:-1]):
                inner = enc(k) + '/' + inner if k is group[-2] and len(group) == 3 else enc(k) + '/' + enc(inner)
            out.append(enc(inner))
        else:
            out.extend(enc(k) for k in group)
        del group[:]

    for tok in tokens:
        if t.kind == 'orbool':
            t = t.arg
        if t.kind in ('obj', 'orref') and version == '3.0.0' and t.arg in T.V3_ALIASES and '$ref' not in raw:
            t = T.V3_ALIASES[t.arg]
        if t.kind in ('obj', 'orref'):
            flush()
            t = T.keys(version, t.arg)[tok][0]
            raw = raw[tok]
        else:
            t = t.arg
            raw = raw[int(tok)] if isinstance(raw, list) else raw[tok]
        group.append(tok)
    flush()
    return '/'.join(out)


def lookup(raw, tokens):
    for t in tokens:
        raw = raw[int(t)] if isinstance(raw, list) else raw[t]
    return raw


def pointer(tokens, base='#'):
    return '/'.join([base] + [enc(t) for t in tokens])
