#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that statements stay reviewable)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': dict({'files': ['pyopenapi/' + f for f in files],
                               'mechanism': [{'name': n, 'where': 'pyopenapi/' + w} for n, w in mech]},
                              **({'state': state} if state else {}))})

CV = 'migration/versions/v2_0/scanner/upgrade/converters.py'
PC = 'migration/versions/v2_0/scanner/upgrade/parameter_context.py'
CO = 'migration/versions/v2_0/scanner/upgrade/constants.py'
OBJ = 'migration/spec/obj.py'
U12 = 'migration/versions/v1_2/scanner/upgrade.py'

prop('C01', 'JSON Pointer tokens survive encoding and splitting',
     "Appending any list of reference tokens to a JSON Pointer and splitting the result gives back the tokens of that "
     "pointer followed by exactly the appended tokens, whatever characters they contain ('/', '~', '~0', '~1', nothing "
     "at all). Different token lists appended to the same pointer give different pointers. Splitting a JSON Reference "
     "yields its document URL and a '#'-rooted pointer that together denote the same target.",
     ['inputs'], 'all strings as tokens, all token lists, all non-empty base pointers, all references',
     'Tests try a dozen literal strings; the guarantee is over every sequence of escape characters, and a wrong order '
     'of two replacements only shows for nested escapes.',
     ['utils.py'], [('encode/append', 'utils.py:jp_compose'), ('split/decode', 'utils.py:jp_split'),
                    ('reference splitting', 'utils.py:jr_split')])
prop('C02', 'References are resolved against the document they occur in',
     "A $ref that is only a fragment is normalized to that fragment of the document it occurs in; one with a relative or "
     "absolute path is normalized to the file found by resolving that path against the folder of that document, with "
     "'.' and '..' segments removed; one with a scheme is left unchanged. A non-empty fragment is preserved verbatim, "
     "and normalizing a normalized reference again changes nothing.",
     ['inputs'], 'all references (fragment, relative path, absolute path, full URL, with or without fragment) and all '
                 'http or file document URLs',
     'Tests use a handful of URLs, none of them in a root folder or with nested parent segments, and never check idempotence.',
     ['utils.py', 'migration/versions/v2_0/scanner/norm_ref.py', 'migration/versions/v3_0_0/scanner/norm_ref.py'],
     [('normalization', 'utils.py:normalize_jr'), ('dot segments', 'utils.py:derelativise_url'),
      ('folder of a document', 'utils.py:url_dirname'), ('joining', 'utils.py:url_join'),
      ('document URL normalization', 'utils.py:normalize_url')])
prop('C03', 'JSON Pointers of moved objects are translated exactly',
     "Translating a JSON Pointer replaces the longest prefix, compared whole token by whole token, that the table of "
     "moved objects (which lists what lies inside an object at one place) lists by its new location and keeps the rest of the pointer verbatim; a pointer that no entry covers "
     "is returned unchanged. Translating from one spec version to another applies the tables of every version after the "
     "first up to and including the second, in ascending order, using only the tables of the same document.",
     ['inputs', 'histories'], 'all pointers, all tables of moved objects, nested ones included (where no plain entry covers a non-empty nested table), all version pairs, all histories of table updates',
     'Tests use tables in which no entry is a textual prefix of an unrelated pointer and at most three versions.',
     ['migration/store.py'], [('one step', 'migration/store.py:SpecObjStore._patch_jp'),
                              ('several versions', 'migration/store.py:SpecObjStore.relocate'),
                              ('table updates', 'migration/store.py:SpecObjStore.update_routes')],
     [{'name': 'routes', 'meaning': 'document -> version -> table of moved prefixes'}])
prop('C04', 'Stored objects are found again, and only under their own reference',
     "Looking up a pointer for a document and spec version gives the object reached by following the remaining tokens "
     "from an object stored, for that document and version, at or above that pointer, and nothing when no such object is "
     "stored. Collecting what is stored at or below a pointer gives exactly those objects keyed by the remaining "
     "pointer, and removes those and nothing else when asked to remove. Searching across versions gives the newest "
     "version stored at the translated pointer, no newer than the requested one.",
     ['histories', 'inputs'], 'all histories of storing, looking up and removing over all documents, pointers and versions',
     'Tests store five pointers of one document; no two of them share a textual prefix that is not a token prefix.',
     ['migration/store.py'], [('store', 'migration/store.py:SpecObjStore.set'), ('look up', 'migration/store.py:SpecObjStore.get'),
                              ('collect/remove', 'migration/store.py:SpecObjStore.get_under'),
                              ('newest version', 'migration/store.py:SpecObjStore.get_until')],
     [{'name': 'spec_objs', 'meaning': 'document -> pointer -> version -> object'}])
prop('C05', 'Loading and dumping a description loses and invents nothing',
     "For every object kind of Swagger 1.2, Swagger 2.0 and OpenAPI 3.0.0, loading any well-formed description and "
     "dumping it gives every keyword the format defines with its value unchanged, at every depth, and nothing else; only "
     "extension keywords, empty collections of nested objects and null values may be missing. Reading a keyword of a "
     "loaded object, directly or through its snake-case alias, gives its value in the description, or its default when "
     "it is absent; reading an absent required keyword is an error.",
     ['inputs', 'configurations'], 'all object kinds of the three formats and all descriptions of each kind, of any size and depth',
     'Tests load a few sample documents and compare selected keywords; a keyword missing from one object kind of one '
     'version is invisible to them.',
     [OBJ, 'migration/versions/v1_2/objects.py', 'migration/versions/v2_0/objects.py', 'migration/versions/v3_0_0/objects.py'],
     [('field access', OBJ + ':field'), ('nested objects', OBJ + ':child'), ('aliases', OBJ + ':rename'),
      ('lists', OBJ + ':_List'), ('maps', OBJ + ':_Map'), ('objects', OBJ + ':Base2Obj.dump'),
      ('reference or object', 'migration/versions/v3_0_0/objects.py:if_not_ref_else')])
prop('C06', 'Traversal visits every object exactly once, under its own pointer',
     "Scanning a loaded document visits the root and every object nested in it, through lists and maps of any depth, "
     "exactly once each, together with the encoded JSON Pointer that leads from the root to that very object. Objects "
     "below an object whose kind is given as a leaf are not visited. For each visited object every handler registered "
     "for its kind runs exactly once with that pointer and object, and no other handler runs (except that scanning with an "
     "application also runs the handlers of the kinds that its kind specialises).",
     ['inputs', 'configurations'], 'all documents of any size and nesting, all sets of leaves, all sets of registered handlers',
     'Tests count visits on two sample documents and never check the pointers of objects in nested containers or with '
     'characters that need encoding.',
     ['migration/scan.py', OBJ], [('walk', 'migration/scan.py:default_tree_traversal'), ('dispatch', 'migration/scan.py:scan'),
                                  ('children of an object', OBJ + ':Base2Obj.get_children'),
                                  ('children of a list', OBJ + ':_List.get_children'), ('children of a map', OBJ + ':_Map.get_children'),
                                  ('navigation', OBJ + ':Base2Obj.resolve')])
prop('C07', 'Comparing two objects decides whether they are equal',
     "Comparing two loaded objects reports them as the same exactly when they are of the same kind and all their keywords "
     "have equal values and all their nested objects, lists and maps are equal, at every depth. In particular an object "
     "equals itself loaded twice, the verdict does not depend on which of the two is asked, and a difference in any "
     "single keyword, list element, list length or map key is always reported.",
     ['inputs'], 'all pairs of objects of all kinds, of any size and depth',
     'Tests compare a few pairs with one difference each; differences after the first element of a list or map were never tried.',
     [OBJ], [('objects', OBJ + ':Base2Obj.compare'), ('lists', OBJ + ':_List.compare'), ('maps', OBJ + ':_Map.compare')])
prop('C08', 'Upgrading Swagger 1.2 keeps every operation, model and authorization',
     "Upgrading a Swagger 1.2 resource listing with its API declarations gives one Swagger 2.0 operation for each of its "
     "operations, found under the base path joined with the api path (without the location, which becomes the host, if all have the same) and under its method, with the same id, texts, "
     "parameters (in order), media types and security, tagged by its resource; one definition per model, named after "
     "resource and model; and one security definition per authorization. Types, formats, defaults, enumerations, limits "
     "and array items keep their values, and references point to the definitions of the same resource. Constructs that "
     "2.0 cannot express (references in non-body parameters, non-primitive items) are rejected with a schema error.",
     ['inputs'], 'all 1.2 resource listings with any number of API declarations, operations, parameters, models and authorizations',
     'Tests upgrade one sample document plus two malformed ones and inspect selected members.',
     [U12, 'migration/versions/v2_0/main.py'],
     [('operations', U12 + ':convert_operation'), ('parameters', U12 + ':convert_parameter'), ('models', U12 + ':convert_model'),
      ('data types', U12 + ':convert_schema_from_datatype'), ('limits', U12 + ':convert_min_max'),
      ('types and references', U12 + ':update_type_and_ref'), ('document', U12 + ':Upgrade')])
prop('C09', 'Schemas and metadata keep their meaning from 2.0 to 3.0.0',
     "Converting a Swagger 2.0 schema, item, header, XML, external documentation, tag, contact, license, info or security "
     "scheme object to OpenAPI 3.0.0 keeps every keyword the target defines with its value unchanged, converts nested "
     "objects in place at every depth, and adds nothing else; only null values, empty collections and an "
     "additionalProperties of true (the default) may be left out. Exactly the documented differences are applied: references "
     "stay references, files become binary strings, a discriminator becomes an object, basic authentication becomes an "
     "http scheme, OAuth2 flows get their 3.0.0 names, and an explicit collection format of a header becomes its style.",
     ['inputs'], 'all schemas of any nesting and all metadata objects, with any combination of keywords present',
     'Tests convert one object per kind with most keywords present; absent and falsy keywords and deep nesting are not combined.',
     [CV, CO], [('schemas', CV + ':to_schema'), ('items', CV + ':from_items'), ('headers', CV + ':to_header'),
                ('security schemes', CV + ':to_security_scheme'), ('flows', CV + ':to_flows'), ('info', CV + ':to_info'),
                ('tags', CV + ':to_tag'), ('keyword tables', CO + ':SCHEMA_FIELDS')])
prop('C10', 'Parameters become parameters or request bodies without loss',
     "Each Swagger 2.0 parameter that is neither body, form nor file becomes exactly one parameter with the same name, "
     "location, description and flags and its type keywords under its schema; a body becomes the content of the request "
     "body under every consumed media type (or the JSON default), and form and file fields become one property each of "
     "the object schema under every consumed form or file media type (or the default for it), listed as required when "
     "they are, with their encoding. An explicit collection format gives the style and explode defined for that location, "
     "and ssv or pipes outside query arrays, for which there is none, are rejected. A second body, or a second form field of the same name, is rejected.",
     ['inputs'], 'all parameters in all locations, all lists of consumed media types, all sequences of parameters of an operation',
     'Tests convert about twenty single parameters; combinations of media types, flags and several form fields are not exercised.',
     [CV, PC, CO], [('dispatch', CV + ':from_parameter'), ('parameters', CV + ':to_parameter'), ('bodies', CV + ':to_request_body'),
                    ('form fields', CV + ':to_media_type'), ('encoding', CV + ':to_encoding'),
                    ('collection formats', CV + ':to_style_and_explode'), ('media types', PC + ':ParameterContext.get_valid_mime_type')])
prop('C11', 'Converted documents keep every path, operation, response and component',
     "Converting a Swagger 2.0 document keeps every path, operation (under its method), response, header, tag, "
     "definition, parameter, response and security definition under its name, lists in their order, with their texts, ids and "
     "security requirements, and composes server URLs from scheme, host and base path. A response carries its schema "
     "under every produced media type, media types given by an operation replacing those of the document, and parameters "
     "of a path apply to each of its operations separately. The table of moved objects maps the old pointer of every "
     "definition, parameter, response and security definition to where the converted document has it.",
     ['inputs'], 'all Swagger 2.0 documents with any number of paths, operations, responses and components',
     'Tests convert three sample documents and look at selected members; interactions between operations of one path, '
     'or names that need encoding in pointers, do not occur in them.',
     [CV, 'migration/versions/v3_0_0/main.py'],
     [('document', CV + ':to_openapi'), ('path items', CV + ':to_path_item'), ('operations', CV + ':to_operation'),
      ('responses', CV + ':to_response'), ('servers', CV + ':from_swagger_to_server')])
prop('C12', 'References are linked to the object they denote, cycles are reported',
     "After migration every reference in a document is linked to the object that its normalized target denotes in the "
     "migrated version, and a reference to an object that moved is rewritten to the new location; a target that cannot be "
     "found is an error. Dereferencing follows a chain of references, of any length, to the first object that is not a "
     "linked reference, and a cyclic chain ends in a cycle error instead of not ending.",
     ['inputs', 'programs'], 'all documents with references between any places that allow them, all chains and cycles of any length',
     'Tests check selected references in sample documents; chains longer than two, cycles through several objects and '
     'every place that allows a reference are not enumerated.',
     ['utils.py', 'migration/versions/v2_0/scanner/resolve.py', 'migration/versions/v3_0_0/scanner/resolve.py',
      'migration/versions/v2_0/scanner/norm_ref.py', 'migration/versions/v3_0_0/scanner/norm_ref.py'],
     [('dereferencing', 'utils.py:deref'), ('cycle detection', 'utils.py:CycleGuard'),
      ('linking 2.0', 'migration/versions/v2_0/scanner/resolve.py:_resolve'),
      ('linking 3.0.0', 'migration/versions/v3_0_0/scanner/resolve.py:_resolve'),
      ('normalizing', 'migration/versions/v3_0_0/scanner/norm_ref.py:_normalize')])
prop('C13', 'Path items that reference others are merged in order of precedence',
     "The merged form of a path item that references another one has, for each operation, parameter list and server list, "
     "the path item's own when it has one, otherwise that of the item it references, otherwise that of the item this one "
     "references, and so on until the chain ends or comes back to an item already merged. Nothing else is added, and "
     "the path items of the chain themselves are not changed by merging.",
     ['inputs', 'programs'], 'all chains and cycles of path item references of any length with any distribution of members',
     'Tests merge one chain of two items; precedence over longer chains and cycles is not exercised.',
     ['migration/versions/comm.py', OBJ, 'migration/versions/v2_0/scanner/merge.py', 'migration/versions/v3_0_0/scanner/merge.py', 'utils.py'],
     [('merging', 'migration/versions/comm.py:_merge_path_item'), ('members', OBJ + ':Base2Obj.merge_children'),
      ('merged or own', 'utils.py:final')])
prop('C14', 'Documents are migrated version by version to the requested version',
     "Migrating a loaded description to a spec version applies every conversion after its own version up to and including "
     "the requested one, each exactly once and in ascending order, and records the result of each; an unknown version is "
     "rejected. Resolving a reference written for the original document gives the migrated object at the translated "
     "pointer, the same object each time. Loading a document again gives the same object, and loading a document of which "
     "parts (none of them inside another) were loaded before reuses those parts as its members. "
     "Status codes that a description (in YAML) has as numbers are texts after migration.",
     ['inputs', 'histories'], 'all descriptions of all versions, all target versions, all histories of loading, migrating and resolving',
     'Tests migrate sample documents from start to end once; histories that load parts before the whole, or the same '
     'reference twice, are hardly exercised.',
     ['migration/base.py', 'migration/versions/v2_0/main.py', 'migration/versions/v3_0_0/main.py', OBJ, 'utils.py'],
     [('loading', 'migration/base.py:ApiBase.load_obj'), ('migrating', 'migration/base.py:ApiBase.migrate_obj'),
      ('resolving', 'migration/base.py:ApiBase.resolve_obj'), ('version of a description', 'utils.py:get_swagger_version'),
      ('available versions', 'utils.py:get_supported_versions'), ('reuse of parts', OBJ + ':_Base')])
prop('C15', 'Retrieving a reference gives exactly the value its pointer leads to',
     "Resolving a JSON Reference retrieves its document by its URL, as redirected by the load hook, at most once per URL "
     "(for non-empty documents), and gives the value reached from that document by the decoded tokens of the pointer: by "
     "key in objects (a number as key, as YAML has it, is found by its decimal text), by index in arrays. A missing document or a pointer that leads nowhere is an error. Retrieved text "
     "is parsed as JSON when it starts with a brace and as YAML otherwise, bytes are decoded as UTF-8 first, and "
     "dictionaries are taken as they are.",
     ['inputs', 'histories'], 'all documents, all pointers into them, all hooks and getters, all histories of resolving',
     'Tests resolve a few fixed pointers into sample files; caching, arrays and encoded tokens are not combined.',
     ['migration/resolve.py', 'migration/getter.py', 'utils.py'],
     [('resolving', 'migration/resolve.py:Resolver.resolve'), ('parsing', 'migration/getter.py:Getter.__next__'),
      ('local files', 'migration/getter.py:LocalGetter'), ('file extensions', 'utils.py:patch_path')])
prop('C16', 'Scoped names are found by full name or by an unambiguous ending',
     "Looking up a value stored under a scoped name by the full name, or by the tuple of its parts, gives that value. "
     "Any other name gives the value of the only stored name that ends with it, or, when several do, of the only one "
     "whose last part equals the last part of the name looked up; it is a value error when still ambiguous and a key error when no stored "
     "name ends with it. Composing scope parts and splitting the result gives the non-empty parts back.",
     ['inputs', 'histories'], 'all sets of stored scoped names, all names looked up, all separators',
     'Tests use a dictionary of seven names and one custom separator.',
     ['utils.py'], [('look-up', 'utils.py:ScopeDict.__getitem__'), ('composing', 'utils.py:scope_compose'), ('splitting', 'utils.py:scope_split')])
prop('C17', 'Conversion never changes its source',
     "Converting any object or document between spec versions leaves the source objects and the description they were "
     "loaded from exactly as they were, and converting the same source again gives an equal result. Objects converted "
     "from different sources never influence each other, and the relocation table and the result of one conversion are "
     "not affected by another.",
     ['inputs', 'histories'], 'all source objects of all kinds and all sequences of conversions',
     'Tests look at what a conversion returns, never at what it does to its input or to later conversions.',
     [CV, U12, PC, 'migration/versions/v3_0_0/main.py', 'migration/versions/v2_0/main.py', OBJ],
     [('2.0 converters', CV + ':to_openapi'), ('1.2 converters', U12 + ':convert_operation'), ('dump copies', OBJ + ':_List.dump')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, sort_keys=True) + '\n')
print(len(P))
