#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the list below."""
import json, os

P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(
            files=['pyopenapi/' + f for f in files],
            mechanism=[dict(name=n, where='pyopenapi/' + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where='pyopenapi/' + w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))


CONV = 'migration/versions/v2_0/scanner/upgrade/converters.py'
V2 = 'migration/versions/v2_0/objects.py'
V3 = 'migration/versions/v3_0_0/objects.py'
OBJ = 'migration/spec/obj.py'

p('C01', 'JSON Pointers encode and decode every name without loss',
  'Encoding any list of names into a JSON Pointer and splitting the pointer again returns exactly those names, whatever characters they contain, and composing onto a base pointer only appends the encoded names to it. Encoding follows RFC 6901 ("~" as "~0", "/" as "~1") and decoding never confuses an escaped character with an escape sequence.',
  ['inputs'], 'all lists of names (any characters, in particular "/" and "~" in any combination) and all base pointers',
  'tests pin about ten pointers; names such as "~1" or "~01" that a wrong decoding order would mangle are never round-tripped',
  ['utils.py'], [('pointer composing/encoding', 'utils.py jp_compose'), ('pointer splitting/decoding', 'utils.py jp_split')],
  observe=['return values'])
p('C02', 'References resolve against the document that contains them',
  'Normalising a reference found in a document yields an absolute reference: a pure fragment addresses the containing document, an absolute URL is kept, and a relative file reference is taken from the directory of the containing document with "." and ".." segments removed; the fragment is preserved verbatim and normalising the result again changes nothing. Splitting a reference into document URL and pointer loses neither part, and a missing fragment means the whole document ("#").',
  ['inputs'], 'all references (relative, absolute, fragment-only; any path segments and fragments) and all absolute document URLs',
  'tests use a handful of literal URLs; dot segments, fragments containing URL punctuation, and repeated normalisation are unsampled',
  ['utils.py'], [('reference normalisation', 'utils.py normalize_jr'), ('reference splitting', 'utils.py jr_split'), ('dot segment removal', 'utils.py derelativise_url')],
  observe=['return values', 'normalised reference kept with every $ref holder'])
p('C03', 'Document URLs and local paths normalise, join and take their directory',
  'A local path becomes an absolute file URL while a URL that already has a scheme is returned unchanged, so normalising is idempotent. The directory of a document URL drops exactly the last path component when that names a JSON or YAML file, keeping scheme, host, parameters, query and fragment, and joining a name onto a URL appends it to the path with exactly one slash at the seam.',
  ['inputs'], 'all local paths and URLs over the modelled alphabet',
  'tests sample about a dozen URLs; slash placement, missing paths and queries combine in ways not listed',
  ['utils.py', 'consts.py'], [('URL normalisation', 'utils.py normalize_url'), ('URL directory', 'utils.py url_dirname'), ('URL join', 'utils.py url_join')],
  observe=['return values'])
p('C04', 'Scoped names are found by full or by unambiguous partial key',
  'A value stored under a scoped key is returned for its full key, whether given as one string or as the sequence of its scopes, and for any trailing part of the key that identifies it uniquely. When several keys end with the requested text, the one whose last scope equals the last scope of the requested text is returned if it is unique and otherwise an ambiguity error is raised; a text that no key ends with raises a missing-key error and never returns another value.',
  ['inputs'], 'all sets of scoped keys and all requested names, for any separator',
  'tests use three fixed dictionaries; collisions between names that are suffixes of one another need particular key sets',
  ['utils.py'], [('scoped lookup', 'utils.py ScopeDict'), ('scope composing/splitting', 'utils.py scope_compose, scope_split')],
  observe=['lookup results and exceptions'])
p('C05', 'Container comparison reports nothing exactly when the containers are equal',
  'Comparing two JSON-like values yields an empty difference list if and only if they are equal (lists of scalars being compared regardless of order), and every reported location is a JSON Pointer to a place where they differ. Excluded keys are never reported and, when keys to include are given, only those are compared, at every depth.',
  ['inputs'], 'all pairs of nested dicts/lists/scalars within the bound, all exclude/include sets',
  'tests compare a few literal pairs; a difference that goes unreported in some nesting is invisible to them and would blind every test built on this helper',
  ['utils.py'], [('container comparison', 'utils.py compare_container')], observe=['difference list'])
p('C06', 'Following references terminates and reaches the end of the chain',
  'Dereferencing an object follows its chain of resolved references to the first object that is not a resolved reference and returns that object. A chain that comes back to an object already visited is reported as a cycle instead of looping, and an object without a reference is returned as it is.',
  ['inputs', 'configurations'], 'all reference graphs (self loops, long cycles, tails leading into cycles, dangling ends) within the bound',
  'tests dereference short acyclic chains and one loop; the graph shape is the quantifier',
  ['utils.py'], [('dereferencing', 'utils.py deref, final'), ('cycle detection', 'utils.py CycleGuard')], observe=['returned object', 'cycle error'])
p('C07', 'Loading a Swagger 1.2 or 2.0 document keeps every field the format defines',
  'Every field that the Swagger 1.2 or 2.0 specification defines for an object is readable on the loaded object under its name with exactly the value from the document and dumping the object gives back the same content, with absent fields staying absent and empty containers being the only thing a dump may drop. This holds for each object kind of both formats, nested containers and boolean-or-schema positions included.',
  ['inputs'], 'all objects of each kind: any subset of their fields present, any values',
  'tests load complete sample files and compare a few fields; a field that is lost, renamed or swapped in one object kind goes unnoticed unless a sample uses it',
  ['migration/versions/v1_2/objects.py', V2, OBJ], [('declarative field tables', 'migration/versions/v2_0/objects.py'), ('field/child properties', 'migration/spec/obj.py field, child'), ('dump', 'migration/spec/obj.py Base2Obj.dump, _Map.dump, _List.dump')],
  observe=['attribute reads', 'dump()'])
p('C08', 'Loading an OpenAPI 3.0.0 document keeps every field the format defines',
  'Every field that the OpenAPI 3.0.0 specification defines for an object is readable on the loaded object under its name, and under its documented snake-case alias, with exactly the value from the document. Dumping the object gives back the same content, with absent fields staying absent and empty containers being the only thing a dump may drop, and each nested object or reference is loaded as the kind its position demands.',
  ['inputs'], 'all objects of each kind: any subset of their fields present, any values, each nested position holding an object or a reference',
  'tests load a handful of sample documents; most optional fields and nested positions of the format never occur in them',
  [V3, OBJ], [('declarative field tables', 'migration/versions/v3_0_0/objects.py'), ('field/child/rename properties', 'migration/spec/obj.py'), ('dump', 'migration/spec/obj.py Base2Obj.dump')],
  observe=['attribute reads', 'dump()'])
p('C09', 'Every object of a loaded tree has one address that leads back to it',
  'Walking a loaded document visits every object in it exactly once, each under a JSON Pointer that resolves from the root back to that very object, even when map keys contain "/" or "~". The path and parent recorded in an object agree with its position, each handler registered for an object kind runs exactly once per object of that kind with its result handed on, and attaching, appending or replacing a child is reflected by later walks.',
  ['inputs', 'histories'], 'all object trees within the bound with arbitrary map keys, and all short sequences of tree updates',
  'tests walk two sample documents whose keys rarely need escaping and seldom walk again after an update',
  [OBJ, 'migration/scan.py'], [('child enumeration and its cache', 'migration/spec/obj.py get_children'), ('tree traversal and dispatch', 'migration/scan.py default_tree_traversal, scan'), ('pointer resolution inside an object', 'migration/spec/obj.py resolve')],
  state=[('children cache', 'enumeration of the children of an object, dropped when they change', 'migration/spec/obj.py children_cache')],
  observe=['visited (path, object) pairs', 'resolve() results'])
p('C10', 'Comparing two specification objects finds a difference exactly when they differ',
  'Two loaded objects of the same kind compare as same exactly when all their fields and children are equal, whatever the position of the difference; comparing is reflexive and symmetric in its verdict and never fails with an error on valid objects. When they differ, the reported location leads to a place where they differ.',
  ['inputs'], 'all pairs of objects of a kind differing anywhere, in any length or element of lists and maps',
  'the comparison is mostly used by tests as an oracle; they check a few literal differences, so a difference it overlooks silently weakens other tests',
  [OBJ], [('comparison', 'migration/spec/obj.py Base2Obj.compare, _List.compare, _Map.compare')], observe=['(same, location) result'])
p('C11', 'The object store answers a pointer only with the object at that pointer',
  'Looking up a document URL, JSON Pointer and version returns the object stored exactly there, or the matching descendant of a stored ancestor, and otherwise nothing; an entry whose pointer is merely a textual prefix of the requested one (such as "User" and "UserInfo"), of another document, or of another version never answers. Collecting what is stored under a pointer returns exactly its descendants (and the object stored at the pointer itself, under the empty key), keyed by their relative pointers, and removes exactly those when asked to.',
  ['histories', 'inputs'], 'all store contents (any set of pointers, including textual prefixes of one another, URLs and versions) and all queries',
  'tests use short fixed pointer sets; the failing cases need one stored name to be a textual prefix of another',
  ['migration/store.py'], [('object lookup', 'migration/store.py SpecObjStore.get'), ('collecting descendants', 'migration/store.py SpecObjStore.get_under'), ('insertion', 'migration/store.py SpecObjStore.set')],
  state=[('object cache', 'URL -> pointer -> version -> object', 'migration/store.py')], observe=['get() / get_under() results'])
p('C12', 'Pointers are relocated by the longest matching route, token by token',
  'Relocating a pointer between versions replaces the longest registered route that is a whole-token prefix of it (routes may be nested, and relative or absolute targets), keeps the remaining tokens unchanged, and leaves a pointer without a matching route as it is. Relocation applies exactly the version steps between source and target, in order, and only routes of the same document.',
  ['histories', 'inputs'], 'all route tables within the bound and all pointers, including names that are textual prefixes of one another',
  'tests check fixed route tables in which no name is a prefix of another; the wrong route is picked only for such name pairs',
  ['migration/store.py'], [('route registration', 'migration/store.py update_routes'), ('pointer patching', 'migration/store.py _patch_jp'), ('version stepping', 'migration/store.py relocate')],
  state=[('routes', 'URL -> version -> pointer routes', 'migration/store.py')], observe=['relocate() results'])
p('C13', 'The newest usable version of a stored object is found',
  'Asking for an object up to a version returns the stored object of the newest version not newer than the requested one and not older than the starting one, under the pointer relocated to that version, together with that version. If no such version is stored the answer is empty, and versions outside the range are never returned.',
  ['histories', 'inputs'], 'all combinations of stored versions, starting version, limit and relocations',
  'tests check one stored chain; the combination of gaps, limits and relocated pointers is the quantifier',
  ['migration/store.py'], [('version search', 'migration/store.py get_until')], observe=['get_until() result'])
p('C14', 'Raw documents are fetched once and addressed by exact JSON Pointer',
  'Resolving a reference to raw data returns exactly the value its JSON Pointer designates in the document at its URL (escapes, list indices and falsy values included), or fails if there is none. Each document is fetched at most once however often and in whatever order its parts are requested, the redirect hook only changes where it is fetched from, and one document never answers for another.',
  ['histories', 'inputs'], 'all sequences of reference requests over several documents, all pointers into nested data, any hook mapping',
  'tests resolve single references; request sequences and escapes inside pointers are unsampled',
  ['migration/resolve.py', 'utils.py'], [('raw resolution and caching', 'migration/resolve.py Resolver.resolve')],
  state=[('raw cache', 'document URL -> parsed document', 'migration/resolve.py')], observe=['returned value', 'getter calls'])
p('C15', 'Schemas keep their meaning when a 2.0 document is upgraded to 3.0.0',
  'A 2.0 schema is upgraded to a 3.0.0 schema with the same constraints at every depth: all validation and annotation keywords keep their values (falsy ones included), nested schemas under items, properties, allOf and additionalProperties are upgraded in place and order, and references are kept. Only the documented spellings change: a discriminator name becomes a discriminator object, a file type becomes a binary string, and "additionalProperties: true" may be left out because it is the default.',
  ['inputs'], 'all schemas within the bound: any subset of keywords, any values, any nesting of the sub-schema positions',
  'tests upgrade about ten sample schemas; most keyword combinations and falsy values never occur',
  [CONV, 'migration/versions/v2_0/scanner/upgrade/constants.py'], [('schema conversion', CONV + ' to_schema, from_items, to_xml, to_external_docs'), ('keyword lists', 'migration/versions/v2_0/scanner/upgrade/constants.py')],
  observe=['converted schema', 'dump of the migrated object'])
p('C16', 'Non-body parameters and headers are upgraded to 3.0.0 without losing constraints',
  'A 2.0 query, path or header parameter and a 2.0 response header become their 3.0.0 counterparts with name, location, description, required and empty-value flags kept and all type keywords, nested items included, moved into the schema. The collection format maps to the equivalent style and explode setting for that location (csv, multi, ssv, pipes; tsv has none), a format illegal for its location is rejected, and without a stated collection format no style is invented.',
  ['inputs'], 'all parameters and headers: any subset of keywords, any values, every location, type and collection format',
  'tests convert a few sample parameters; location x type x format x keyword combinations are not covered',
  [CONV], [('parameter conversion', CONV + ' to_parameter, from_items'), ('collection format mapping', CONV + ' to_style_and_explode'), ('header conversion', CONV + ' to_header')],
  observe=['converted parameter/header'])
p('C17', 'Body, form and file parameters become one equivalent request body',
  'A 2.0 body parameter becomes a request body offering its schema under every consumable media type of the operation (or a default type if none is declared), and form and file parameters of an operation, including those inherited from the path, are collected as properties of one object schema per acceptable form media type, with required names, empty-value flags and encodings kept. The request body is required exactly if one of its parameters is, two operations never share or leak form fields into each other, and several bodies or duplicate form names are rejected.',
  ['inputs', 'histories'], 'all lists of body/form/file parameters at path and operation level, any order, any consumes lists',
  'tests convert single operations; sharing between operations of a path and particular parameter orders and media-type sets are unsampled',
  [CONV, 'migration/versions/v2_0/scanner/upgrade/parameter_context.py'], [('request body assembly', CONV + ' to_request_body, to_media_type, from_parameter'), ('media type selection', 'migration/versions/v2_0/scanner/upgrade/parameter_context.py')],
  observe=['converted request bodies'])
p('C18', 'Responses keep their schema, media types and headers when upgraded to 3.0.0',
  'A 2.0 response becomes a 3.0.0 response with the same description and headers and with its schema offered under every media type the operation, or else the document, produces, or under one default type if none is declared; a file response is offered as a binary string schema under application/octet-stream alone, whatever is produced. A response without a schema has no content, and a referenced response is kept as a reference or inlined with the content of its target, never altered otherwise.',
  ['inputs'], 'all responses: any schema, headers, produces lists, status codes, direct or referenced',
  'tests convert a few literal responses; the file type and header/produces combinations are not pinned',
  [CONV], [('response conversion', CONV + ' to_response, to_header'), ('operation conversion', CONV + ' to_operation')], observe=['converted responses'])
p('C19', 'Operations and document-level parts survive the upgrade to 3.0.0',
  'Upgrading a 2.0 document keeps info, tags, external documentation, security requirements and every path and operation with its summary, description, id, tags, deprecation, security and order of parameters, and nothing is moved to another path or method. Host, base path and schemes become server URLs, security definitions become the equivalent 3.0.0 security schemes and flows, and definitions, parameters and responses become the components of the same name.',
  ['inputs'], 'all documents within the bound: any subset of the parts present, any names and values, any security scheme kind',
  'tests upgrade the pet store and a few fragments; security scheme kinds other than the sampled ones and absent optional parts are unsampled',
  [CONV, 'migration/versions/v3_0_0/main.py'], [('document conversion', CONV + ' to_openapi, from_swagger_to_server'), ('path and operation conversion', CONV + ' to_path_item, to_operation'), ('security conversion', CONV + ' to_security_scheme, to_flows'), ('info/tags conversion', CONV + ' to_info, to_tag')],
  observe=['migrated document dump'])
p('C20', 'A Swagger 1.2 API is upgraded to an equivalent 2.0 document',
  'Upgrading a 1.2 resource listing with its API declarations yields a 2.0 document that has one operation for every declared operation under the same absolute path and method, with its parameters, media types, security and return type kept, and one definition for every model, qualified by its resource, with its properties. References between models of a resource point at the qualified definitions, numeric limits become numbers, and authorizations become the matching security definitions.',
  ['inputs'], 'all listings within the bound: any subset of optional fields, any parameter kinds and types, any names',
  'tests upgrade one sample API; the absent-field, falsy-value and type combinations are not covered',
  ['migration/versions/v1_2/scanner/upgrade.py', 'migration/versions/v2_0/main.py'], [('1.2 conversion', 'migration/versions/v1_2/scanner/upgrade.py')],
  observe=['dump of the 2.0 document'])
p('C21', 'References still designate the same thing after migration',
  'After loading a document and migrating it, every reference in it is resolved: following it leads to the object that the original document designates by it, migrated to the requested version, and that reference, taken against the migrated document, addresses the same object. This holds for local references, references into other documents and chains of them, whatever the names involved and in whatever order documents are loaded.',
  ['inputs', 'configurations'], 'all documents within the bound with references between arbitrary named definitions, parameters, responses and path items, in one or two documents',
  'tests follow references in a few sample files whose names need no escaping and are not prefixes of one another',
  ['migration/base.py', 'migration/store.py', 'migration/versions/v3_0_0/scanner/resolve.py', 'migration/versions/v2_0/scanner/resolve.py'],
  [('resolution of an object', 'migration/base.py ApiBase.resolve_obj'), ('loading and caching', 'migration/base.py ApiBase.load_obj, migrate_obj'), ('per-version resolving', 'migration/versions/v3_0_0/scanner/resolve.py')],
  observe=['resolved object and normalised reference kept with each reference'])
p('C22', 'A referencing path item is merged with its targets, local parts first',
  'The merged form of a path item with a reference contains every operation and parameter list it declares itself plus those it lacks from the referenced path items, nearer ones taking precedence along a chain of references, and nothing else. Cycles of references between path items end the merge instead of looping, and the path items taking part keep their own content.',
  ['inputs', 'configurations'], 'all sets of path items with any subset of operations and any chain or cycle of references between them',
  'tests merge one chain; the subset-by-chain combinations and cycles are not covered',
  ['migration/versions/comm.py', OBJ], [('path item merging', 'migration/versions/comm.py _merge_path_item'), ('merging of children', 'migration/spec/obj.py Base2Obj.merge_children')], observe=['merged path item'])
p('C23', 'YAML documents with numeric status codes behave like their quoted form',
  'A document whose response codes were read from YAML as integers loads and migrates to the same result as the document with the codes written as strings, in 2.0 and in 3.0.0. No response is lost, its content is unchanged, and references inside it are still resolved.',
  ['inputs'], 'all mixes of integer and string status codes and of plain and referenced responses within the bound',
  'one sample YAML file is compared with its JSON twin; 3.0.0 documents and references under integer codes are not sampled',
  ['migration/getter.py', 'migration/versions/v2_0/scanner/yaml.py', 'migration/versions/v2_0/main.py', 'migration/versions/v3_0_0/scanner/resolve.py'], [('status code normalisation', 'migration/versions/v2_0/scanner/yaml.py YamlFixer')], observe=['migrated document'])
p('C24', 'Local and remote documents are located and loaded as named',
  'A local path naming a file loads that file, a folder loads the first existing well-known specification file in it (resource list, then swagger as json, yaml, yml), and a path without extension loads the file with a supported extension added; if nothing exists an error is raised instead of loading something else. A loader hands out its content exactly once, parses text as JSON when it starts with a brace and as YAML otherwise, accepts text, bytes or ready dictionaries, and rejects other types.',
  ['inputs', 'configurations'], 'all paths over the modelled alphabet and all states of the file system regarding candidate files',
  'tests use a few files that exist; the combination of path shape and existing files is the quantifier',
  ['migration/getter.py', 'utils.py', 'consts.py'], [('local file location', 'migration/getter.py LocalGetter'), ('extension patching', 'utils.py patch_path'), ('content parsing', 'migration/getter.py Getter.__next__')],
  observe=['path opened', 'object returned'])
p('C25', 'Declared fields read, default, rename and restrict as declared',
  'For any declaration of fields, children, internal values and attributes, reading a declared name gives the value from the document, else the declared default, and a required one that is missing or a restricted one that is present raises an error. A renamed accessor always reads and writes the same value as the name it stands for, read-only fields refuse assignment, inherited declarations apply unless redeclared, and values attached to one object never appear on another.',
  ['inputs', 'histories', 'programs'], 'all combinations of declaration options and field presence, and all short sequences of reads and writes',
  'tests declare a few classes; combinations of key renaming, defaults, inheritance and presence are not enumerated',
  [OBJ, 'migration/spec/attr.py'], [('field properties', 'migration/spec/obj.py field, internal, rename, child'), ('class construction', 'migration/spec/obj.py FieldMeta'), ('attribute groups', 'migration/spec/attr.py')], observe=['attribute reads/writes'])
p('C26', 'Documents are recognised by declared version and only ever migrated forward',
  'The version a document declares decides how it is loaded, a document of an unknown version is rejected, and a fragment without version is loaded only as the kind it is asked for. Migration applies exactly the steps from the object\'s version up to the requested one in ascending order, rejects unknown target versions, yields an object of the requested version and files it under the pointer it has in that version, and reports the original and current versions of the root document.',
  ['inputs', 'configurations'], 'all declared versions, requested versions and fragment kinds',
  'tests load known versions only and migrate to the newest',
  ['migration/base.py', 'utils.py', 'migration/versions/v3_0_0/main.py', 'migration/versions/v2_0/main.py'], [('version detection', 'utils.py get_swagger_version'), ('loading by version', 'migration/base.py load_obj'), ('migration steps', 'migration/base.py migrate_obj'), ('supported versions', 'utils.py get_supported_versions')], observe=['object class and version', 'exceptions'])
p('C27', 'Migration leaves the source document and the source objects unchanged',
  'Loading and migrating a document never changes the parsed source data handed in, nor the dump of the objects of the older version, so the same source can be loaded, migrated or compared again with the same result. Migrating a second time, or in a second application, gives an equal document.',
  ['inputs', 'histories'], 'all documents within the bound, all numbers of repetitions within the bound',
  'tests load a file once and look at the result; aliasing between source and result is invisible to them',
  [CONV, 'migration/versions/v3_0_0/scanner/resolve.py', 'migration/base.py'], [('conversion into fresh containers', CONV), ('reference rewriting', 'migration/versions/v3_0_0/scanner/resolve.py')], observe=['source data before and after', 'dumps'])
p('C28', 'Objects loaded ahead of their document take their place in it',
  'When a part of a document was loaded before the document itself, the document contains that very object at that position when it is loaded afterwards, whatever the names on the way to it (of parts lying within one another, the outermost), and every other part is built from the document. Parts migrated ahead of their document, or of the schema or info object around them, take their place in the migrated document or object alike. A position is never filled with an object belonging to another pointer, and an override that reaches into a position holding a plain string is an error.',
  ['histories', 'inputs'], 'all sets of pre-loaded pointers within the bound, including names with "/" and "~" and names that are prefixes of one another',
  'tests pre-load one object under a plain name',
  [OBJ, 'migration/store.py', 'migration/base.py'], [('override distribution', 'migration/spec/obj.py _Base.__init__, child, _List, _Map'), ('collection of pre-loaded objects', 'migration/store.py get_under')], observe=['identity of the objects in the loaded tree'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        fh.write(json.dumps(x) + '\n')
print(len(P))
