"""what a loaded object holds, by reading its keywords one by one (that dump() gives the same is part of C05 alone)"""
from contracts import tables as T
from lib import impl


def read(o):
    if isinstance(o, impl.spec_obj._List):
        return [read(x) for x in o]
    if isinstance(o, impl.spec_obj._Map):
        return dict((k, read(o[k])) for k in o.keys())
    if not isinstance(o, impl.spec_obj.Base2Obj):
        return o
    version, cls, ret = o.__swagger_version__, type(o).__name__, {}
    for key, (t, _) in T.keys(version, cls).items():
        if T.is_field(t):
            if o.is_set(key) and getattr(o, key) is not None:
                ret[key] = getattr(o, key)
        else:
            val = getattr(o, key)
            if val is not None and not (t.kind in ('list', 'map') and not len(val)):
                ret[key] = read(val)
    return ret
