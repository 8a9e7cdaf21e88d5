"""terms of the verifier: an uninterpreted sort of JSON values with the few functions the proofs need"""
import z3

J = z3.DeclareSort('J')
B = z3.BoolSort()
I = z3.IntSort()
NULL, TRUE, FALSE = z3.Consts('null true false', J)
EMPTY_DICT, EMPTY_LIST = z3.Consts('empty_dict empty_list', J)
CODE = z3.Function('code', J, I)             # tells the literals apart
HAS = z3.Function('has', J, J, B)            # key in dict
GET = z3.Function('get', J, J, J)            # dict.get(key), null when absent
STO = z3.Function('store', J, J, J, J)       # the dict with one more entry
DEL = z3.Function('delete', J, J, J)
APP = z3.Function('append', J, J, J)         # the list with one more element
EXT = z3.Function('extend', J, J, J)
ELEM = z3.Function('elem', J, J, J)          # n-th element of a list / n-th value of a dict
KEY = z3.Function('key', J, J, J)            # n-th key of a dict
LEN = z3.Function('len', J, I)
NE = z3.Function('nonempty', J, B)
TRUTHY = z3.Function('truthy', J, B)
MEMBER = z3.Function('member', J, J, B)      # element in list
CAT = z3.Function('cat', J, J, J)
NUM = z3.Function('num', J, I)
OFINT = z3.Function('ofint', I, J)
KIND = z3.Function('kind', J, I)             # type of a value
KINDS = {'null': 0, 'bool': 1, 'str': 2, 'num': 3, 'list': 4, 'dict': 5, 'other': 6}


def land(*xs):
    out = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        return z3.simplify(z3.If(c, a, b))
    return z3.If(c, a, b)


def boolval(x):
    return z3.BoolVal(bool(x))
