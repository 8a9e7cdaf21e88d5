"""which units decide which property"""
import importlib

from proof.obligations import conv_unit, conv12_unit

TRUSTED = ['the verifier: /verif/proof (symbolic execution of the Python source into first-order formulas)',
           'z3', 'the Python standard library as modelled in proof/builtins_.py']

MODULES = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C12', 'C13', 'C14', 'C15', 'C16']       # those decided by the verifier with explicit memory: proof/cXX.py

C09 = ['external_docs', 'xml', 'tag', 'contact', 'license', 'info', 'items', 'schema', 'security_scheme', 'header']
C10 = ['parameter', 'content_type', 'media_type', 'parameter_of']
C11 = ['response', 'operation', 'path_item', 'document']
C08 = ['data_type', 'parameter', 'place_operation', 'add_model', 'add_resource', 'skeleton', 'authorization', 'finish']


def units(prop):
    if prop == 'C08':
        return [(n, conv12_unit(n)) for n in C08]
    if prop == 'C09':
        return [(n, conv_unit(n)) for n in C09]
    if prop == 'C10':
        return [(n, conv_unit(n)) for n in C10 + ['xml', 'external_docs', 'items', 'schema', 'header', 'response', 'operation']]
    if prop == 'C11':
        return [(n, conv_unit(n)) for n in C09 + C10 + C11]
    if prop in MODULES:
        return importlib.import_module('proof.' + prop.lower()).UNITS
    if prop == 'C17':
        return [('source unchanged by ' + n, conv_unit(n, 'frame')) for n in C09 + C10 + C11] + [
            ('source unchanged by 1.2 ' + n, conv12_unit(n, 'frame')) for n in C08]
    return []


CONV = [
    'a loaded object is a view of its JSON source: an attribute gives what the source has under that key, converted by the '
    'child builder (contracts of the getters; decided by C05)',
    'what is loaded matches the declared type of its field (strings, numbers, lists, maps, objects)',
    'deref() after all references are resolved gives an object without $ref, the object itself when it has none (decided by C12)',
    'recursive calls of a converter are replaced by its own contract: termination by structural descent is not verified',
    'the order in which a set is iterated does not matter',
    'numbers are mathematical',
    'dump() gives a deep copy of the source',
]


CONV12 = [
    'the path of an authorization in an Authorizations object is #/authorizations/<name>, and splitting it gives its name last '
    '(decided with C01 and C06)',
    'os.path.commonprefix is an uninterpreted function of its argument',
    'an entry of a result that holds None counts as absent: an object loaded from the result gives the same for both',
    'the scanner calls each visitor with the path and the object of each node of the resource listing (decided by C06)',
    'every tag of the document built so far has a name',
]


DV = [
    'termination is not verified: partial correctness',
    'numbers are mathematical',
    'an object has one of the kinds the contract of the function states',
]


def assumptions(prop):
    if prop == 'C08':
        return CONV[:4] + CONV[5:] + CONV12
    if prop == 'C17':
        return CONV + CONV12 + [
            'the result of a conversion is a function of its source (the contracts of C08 to C11, decided with them): with the source '
            'unchanged, converting it again gives an equal result',
            'code that writes to module state, class attributes or default arguments is not taken by the verifier (the unit is then undecided)',
        ]
    if prop in MODULES:
        return DV + importlib.import_module('proof.' + prop.lower()).ASSUMPTIONS
    return CONV if prop in ('C09', 'C10', 'C11') else []
