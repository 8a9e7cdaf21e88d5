"""how each property is decided (see DESIGN.md)"""
B = ('bounded checking of the real code against an executable contract', 'exploration',
     'bounded: seeded random cases judged by the contract')
P = 'deductive verification of the real source: contracts discharged function by function by z3'
LEVELS = dict(('C%02d' % i, B) for i in range(1, 18))
for c in ('C08', 'C09', 'C10', 'C11'):
    LEVELS[c] = (P, 'proof', 'every obligation of the converters generated from the current source, for all inputs and all '
                 'iterations; seeded cases of the executable contract run beside it to give failing inputs, and stand in '
                 '(bounded) for a function the verifier cannot take')
LEVELS['C17'] = (P, 'proof', 'the frame obligations of every converter of 1.2 and 2.0, for all inputs: no write reaches the source, and none reaches '
                 'what outlives the call (module state, defaults: the verifier does not take such code); that the result is equal again follows '
                 'with the contracts of C08 to C11; seeded cases of repeated and interleaved conversions run beside it, and stand in (bounded) for '
                 'a function the verifier cannot take')
LEVELS['C16'] = (P, 'proof', 'every obligation of ScopeDict.__getitem__ and sep, scope_compose and scope_split generated from the current '
                 'source, for all names and all iterations; seeded cases run beside it to give failing inputs, and stand in '
                 '(bounded) for a function the verifier cannot take')
BESIDE = ('; the assumptions are listed in the evidence; seeded cases run beside it to give failing inputs, and stand in (bounded) '
          'for a function the verifier cannot take')
for c, what in (('C01', 'jp_compose, jp_split and jr_split and the lemmas about encoded tokens'),
                ('C02', 'normalize_jr, derelativise_url, normalize_url, url_dirname and url_join'),
                ('C06', 'default_tree_traversal, scan, Scanner, Dispatcher and the children and attachment of objects, maps and lists'),
                ('C05', 'what every keyword and alias of every class reads, and the load, dump and access functions of objects, lists and maps'),
                ('C07', 'the compare functions of objects, lists and maps, and the lemmas that they decide an equality'),
                ('C03', 'SpecObjStore._patch_jp, relocate and update_routes'),
                ('C04', 'SpecObjStore.set, get, get_under, get_until and the resolve methods of objects, maps and lists'),
                ('C12', 'deref, the attached attributes, the _resolve functions and the handlers of Resolve and NormalizeRef of both formats'),
                ('C14', 'get_supported_versions, get_swagger_version, load_obj, migrate_obj, resolve_obj, ApiBase.__init__, YamlFixer._op and the upgrade function of each version'),
                ('C13', 'merge_children, _merge_path_item, the Merge handlers of both formats and final')):
    LEVELS[c] = (P, 'proof', 'every obligation of %s generated from the current source, for all inputs and all iterations%s' % (what, BESIDE))
LEVELS['C15'] = (P, 'proof', 'every obligation of Resolver.resolve, Getter.__next__, the simple, dict and local getters, patch_path and _url_load generated from the current '
                 'source, for all references, documents and iterations' + BESIDE)
