"""helpers shared by the bounded legs"""
import copy
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from lib.undecided import Undecided  # noqa

CODE = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + os.sep


class Outcome(object):
    """what a call did: its value, or the class of what it raised"""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    def __repr__(self):
        if self.exc is not None:
            return 'raises %s(%s)' % (type(self.exc).__name__, str(self.exc)[:200])
        return 'returns ' + show(self.value)


def call(fn, *a, **k):
    try:
        return Outcome(fn(*a, **k))
    except Undecided:
        raise
    except Exception as e:
        if misuse(e) and not inside(e):
            # the function is gone or takes other arguments: that says nothing about a property
            raise Undecided('%s: %s' % (type(e).__name__, e))
        return Outcome(exc=e)


def misuse(e):
    """does 'e' say that what the harness uses is gone, or is called differently now?"""
    if isinstance(e, AttributeError):
        return getattr(e, 'obj', None) is not None
    return isinstance(e, TypeError) and 'argument' in str(e)


def inside(e):
    """was 'e' raised by code under test (or below it), not by the harness itself?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(CODE):
            return True
        tb = tb.tb_next
    return False


def show(v, limit=1500):
    try:
        s = json.dumps(v, sort_keys=True, ensure_ascii=True)
    except (TypeError, ValueError):
        s = repr(v)
    return s if len(s) <= limit else s[:limit] + '...'


def same(a, b):
    """equality of JSON values that tells booleans from numbers"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b and isinstance(a, float) == isinstance(b, float)
    return type(a) == type(b) and a == b


def where(a, b, path=''):
    """first difference of two JSON values, for messages"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '%s/%s is missing (expected %s)' % (path, k, show(b[k], 300))
            if k not in b:
                return '%s/%s is unexpected: %s' % (path, k, show(a[k], 300))
            if not same(a[k], b[k]):
                return where(a[k], b[k], '%s/%s' % (path, k))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s has %d elements, expected %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where(x, y, '%s/%d' % (path, i))
    return '%s is %s, expected %s' % (path or 'the result', show(a, 300), show(b, 300))


def drop_none(v):
    if isinstance(v, dict):
        return dict((k, drop_none(x)) for k, x in v.items() if x is not None)
    if isinstance(v, list):
        return [drop_none(x) for x in v]
    return v


def agree(got, want, rejected, allowed, norm=None):
    """compare the outcome of the code with the outcome of the specification.

    rejected: exception class by which the specification rejects
    allowed: exception class the code has to reject with
    """
    if want.exc is not None:
        if type(want.exc).__name__ == 'Unspecified':
            return None
        if not isinstance(want.exc, rejected):
            raise want.exc      # an error of the specification itself
        if got.exc is None:
            return 'accepted, should be rejected (%s): %s' % (want.exc, got)
        if not isinstance(got.exc, allowed):
            return 'should be rejected with %s, but %s' % (allowed.__name__, got)
        return None
    if got.exc is not None:
        return 'unexpectedly %r; expected %s' % (got, show(want.value))
    value = norm(got.value) if norm else got.value
    if not same(value, want.value):
        return where(value, want.value)
    return None


def clone(v):
    return copy.deepcopy(v)
