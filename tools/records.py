"""The properties, one record each (see meta.py)."""
NOT_APPLICABLE = []
ORACLE = 'Assumes the reference model in mc/ is right and that nothing outside the stated bounds behaves differently. '

RECORDS = [
 dict(
  id='C01', title='Splitting and joining paths are exact inverses',
  statement='For every list of non-empty field names and every delimiter, joining the fields into a path and splitting that path gives back exactly the same fields, however the path was put together (all at once, field by field from either end, or by errors propagating outwards). First/last field extraction and field iteration agree with splitting for every path text, quoted and escaped ones included, and a text that is not a well-formed path is always reported as a path error.',
  over=['inputs'], quantifier='every sequence of field names over an alphabet that contains every special character (delimiters, quotes, escape, blank), and every raw path text over the special characters, up to the length bound, for several delimiters',
  why='The tests split and join a few dozen hand-picked paths; the guarantee is about any interplay of quotes, escapes and delimiters, and about all the path operations agreeing with each other.',
  files=['marsh/path.py', 'marsh/errors.py'],
  mechanism=['split, iterative_split, head, tail, escape_field, join_fields, append, prepend @ marsh/path.py', 'MarshError.prepend/append @ marsh/errors.py'],
  observe=['marsh.path.*', 'MarshError.path'],
  technique='exhaustive enumeration of field lists and path texts on the real code against a reference splitter',
  level_note=ORACLE + 'Exhaustive up to 3 fields / 3 characters per field and raw texts of 6 characters (8 thorough).'),
 dict(
  id='C02', title='Editing an element changes exactly the addressed place',
  statement='Selecting, setting, combining and removing at a path act on exactly the addressed place of nested data: everything else, including key order, stays equal, the input is never modified, and the result reads back at that path. Combining extends an existing mapping or sequence and otherwise sets; an unreachable path is reported as an error that names the deepest existing place.',
  over=['inputs', 'histories'], quantifier='every initial element out of a family that covers nesting and container types, every path up to three fields (negative and one-past-the-end indices, quoted fields, missing values on the way), every operation, and histories of two (thorough: longer) operations',
  why='Tests execute single edits on a few elements; structure sharing, neighbours and compositions of edits are not examined.',
  files=['marsh/element.py', 'marsh/path.py'],
  mechanism=['select, override, remove @ marsh/element.py'],
  observe=['marsh.element.select/override/remove'],
  technique='explicit-state enumeration of edit histories on the real code against a reference model of nested data',
  level_note=ORACLE + 'All single edits with paths up to 3 fields, all 2-edit histories over a reduced alphabet.'),
 dict(
  id='C03', title='Merging elements is deep, ordered, associative and pure',
  statement='Merging nested data is a deep merge: mappings merge key by key keeping first-appearance key order, a later value replaces an earlier one unless it is the missing marker, and sequences are replaced or, when asked for, concatenated. The merge of any number of elements equals merging them one after another, never modifies or aliases mutable parts of its inputs, and missing values are found wherever they are nested.',
  over=['inputs'], quantifier='every pair of a universe of nested elements, every triple of a smaller one, with and without concatenation and in several container types',
  why='Tests merge a handful of examples and cannot establish key order, purity or the multi-argument law.',
  files=['marsh/element.py'],
  mechanism=['merge, has_missing, standardize @ marsh/element.py'],
  observe=['marsh.element.merge/has_missing/standardize'],
  technique='exhaustive enumeration of element tuples on the real code against a reference merge',
  level_note=ORACLE + 'Exhaustive over the stated universe of about 220 elements of depth 3.'),
 dict(
  id='C04', title='The text syntax has one meaning and never loses information',
  statement='Every text is either read as exactly the value the documented command-line syntax gives it (numbers exactly, quoted text verbatim, true/false/null in any case, nested mappings and sequences with optional blanks) or is rejected with a parse error whose message points at the first character with which the text can not go on; nothing else is ever raised. Every JSON-like value written in that syntax reads back equal and of the same type.',
  over=['inputs'], quantifier='every text of bounded length over the structural characters and over a token alphabet, for values and for overrides; every value shape of bounded depth printed in several styles',
  why='The tests parse about a hundred texts; the syntax has to be unambiguous and total over all texts.',
  files=['marsh/parse.py'],
  mechanism=['element, override, sequence/mapping/terminal readers @ marsh/parse.py'],
  observe=['marsh.parse.element', 'marsh.parse.override'],
  technique='exhaustive enumeration of bounded texts on the real parser against an independent reference parser',
  level_note=ORACLE + 'Every text of up to 5 (6 thorough) characters over 13/14 special characters.'),
 dict(
  id='C05', title='A command line is the left-to-right fold of its overrides',
  statement='The configuration a program receives equals the given overrides applied one after another, left to right, to the configuration so far: sets, combinations, deletions and loaded config files at any path. An override that cannot be applied ends the program with a message that names it and its path, and the program body does not run.',
  over=['histories', 'inputs'], quantifier='every command line of up to two (thorough: three) overrides out of a menu that sets, combines, deletes and loads files at nested and conflicting paths, and every extension of it by one more override',
  why='Tests run a few fixed command lines; the guarantee is about all orders and conflicts of overrides.',
  files=['marsh/entry_point.py', 'marsh/parse.py', 'marsh/element.py', 'marsh/config.py'],
  mechanism=['parsing and application of overrides @ marsh/entry_point.py', 'override_config @ marsh/parse.py'],
  observe=['the configuration passed to the decorated function', 'exit status and printed message'],
  technique='explicit-state enumeration of override histories run through the real entry point against a reference fold',
  level_note=ORACLE + 'Every command line of up to 3 (4 thorough) overrides out of a menu of 31.'),
 dict(
  id='C06', title='Given values reach exactly the parameters they name',
  statement='For every signature (positional-only, ordinary, keyword-only, defaults, variadic) and for every structured type (dataclass, named tuple, typed dict, annotated class), each given mapping value or sequence item reaches exactly the parameter it names or is positioned at, arguments of the call itself act as defaults, and everything else keeps its own default; any kind of callable with the same signature binds the same, whatever attributes it has. A value that no parameter takes or a parameter without any value is an unmarshal error and nothing is called.',
  over=['inputs'], quantifier='every signature of up to three parameters of every kind, every subset of given names, every sequence length, every division between command line, call arguments and defaults; every dataclass, named tuple and typed dict of up to three fields of every kind',
  why='The binding has special cases per kind of parameter; tests look at a few of the thousands of combinations.',
  files=['marsh/_functional.py', 'marsh/schema/template/structured.py', 'marsh/entry_point.py'],
  mechanism=['StructuredUnmarshalSchema (construct, bind arguments) @ marsh/schema/template/structured.py', 'call-time arguments as defaults @ marsh/entry_point.py'],
  observe=['arguments received by the function', 'constructed objects', 'marsh.unmarshal', 'marsh.unmarshal_args'],
  technique='exhaustive enumeration of signatures, inputs and call arguments run on the real code against a reference binder',
  level_note=ORACLE + 'All signatures of up to 3 parameters; about 300k bindings.'),
 dict(
  id='C08', title='What is marshaled unmarshals into an equal value',
  statement='For every value of a supported type, marshaling gives plain JSON-like data, leaves the value untouched, is idempotent, and unmarshaling that data with the same type gives back an equal value of the same type. This holds for any nesting of containers and structures and also when the data travels through JSON text or through a config file written and loaded by marsh.',
  over=['inputs'], quantifier='every supported value type with all its special values, inside of every chain of containers and structured types up to the depth bound, as values and as mapping keys, by every route (python data, JSON text, YAML and JSON files)',
  why='Marshal and unmarshal rules are written separately per type; tests check each side with a few values and seldom in combination.',
  files=['marsh/_functional.py', 'marsh/schema/core/marshal.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/types/datetime.py', 'marsh/schema/types/bytes.py', 'marsh/schema/types/enum.py', 'marsh/schema/types/mapping.py', 'marsh/schema/types/dataclass.py', 'marsh/schema/types/set.py', 'marsh/config.py'],
  mechanism=['marshal, unmarshal, cast @ marsh/_functional.py', 'Marshal/unmarshal schema pairs @ marsh/schema/types/mapping.py', 'write, load @ marsh/config.py'],
  observe=['marsh.marshal', 'marsh.unmarshal', 'marsh.cast', 'marsh.config.write/load'],
  technique='exhaustive enumeration of values of all types up to a nesting depth, round-tripped through the real code',
  level_note=ORACLE + 'About 7 000 types (125 000 thorough); YAML files are compared without key order (they are written sorted).'),
 dict(
  id='C09', title='Unmarshaling is total and gives the documented value',
  statement='For every supported type and every JSON-like element, unmarshaling either gives the documented value of that type or raises an unmarshal error; no other exception escapes, the element is never modified, and the result is the same when repeated. A result always is an instance of the requested type, at every level of nesting.',
  over=['inputs'], quantifier='every type expression built from leaf types by container, union, literal, enum and structure constructors up to the depth bound, against every element of a universe covering all kinds of valid and invalid data',
  why='Tests check each type with values chosen for it; totality concerns every combination of a type with data it was not written for.',
  files=['marsh/_functional.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/core/base.py', 'marsh/schema/template/sequence.py', 'marsh/schema/template/mapping.py', 'marsh/schema/types/tuple.py', 'marsh/schema/types/set.py', 'marsh/schema/types/primitive.py', 'marsh/schema/types/slice.py', 'marsh/schema/types/datetime.py', 'marsh/schema/types/complex.py', 'marsh/schema/types/bytes.py', 'marsh/schema/types/defaultdict.py'],
  mechanism=['unmarshal @ marsh/_functional.py', 'sequence, mapping, union, literal, primitive schemas @ marsh/schema/template/mapping.py'],
  observe=['marsh.unmarshal'],
  technique='exhaustive enumeration of (type, element) pairs on the real code against a reference unmarshaler',
  level_note=ORACLE + 'All type expressions of depth <= 3 (4 thorough).'),
 dict(
  id='C10', title='Conversions between primitive values never lose information',
  statement='Converting a primitive value to another primitive type either keeps exactly its mathematical or textual value (to the precision of a float where one is involved) or is rejected: text is read only if it is a number of that kind, a float becomes an integer only if it is whole, and booleans are only read from the documented words. Every accepted text means the same whatever its case or spelling of that word.',
  over=['inputs'], quantifier='every text up to the length bound over the characters of numbers and of the boolean words, every case variant of those words, and all special numbers, to each primitive type and to subclasses',
  why='Silent loss shows up only for particular spellings and magnitudes that tests do not contain.',
  files=['marsh/schema/types/primitive.py', 'marsh/schema/types/none.py', 'marsh/schema/types/complex.py'],
  mechanism=['bool/int/float/str/none conversion @ marsh/schema/types/primitive.py'],
  observe=['marsh.unmarshal', 'marsh.cast'],
  technique='exhaustive enumeration of bounded texts and special numbers on the real code against exact arithmetic',
  level_note=ORACLE + 'Texts of up to 5 (6 thorough) numeric characters and 4 (5) letters.'),
 dict(
  id='C11', title='The path of an error leads exactly to the offending place',
  statement='When unmarshaling fails, the reported path, split by the path rules, addresses exactly the place of the given element that is at fault: following it in the element reaches the bad value, or the container that lacks or should not have the named item. This holds for any nesting of containers and for mapping keys made of delimiters, quotes and escapes; an argument given by position is named by its parameter.',
  over=['inputs'], quantifier='every chain of containers up to the depth bound with valid siblings, one fault of every kind at every depth, keys made of every special character, and every kind of fault inside of other types (slices, loggers, sets, keys, unions, components) in each container',
  why='The path is assembled while the error propagates through every layer; tests look at single layers and plain keys.',
  files=['marsh/errors.py', 'marsh/path.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/template/sequence.py', 'marsh/schema/template/mapping.py', 'marsh/schema/template/structured.py', 'marsh/schema/types/tuple.py'],
  mechanism=['MarshError.prepend @ marsh/errors.py', 'error propagation of container schemas @ marsh/schema/template/sequence.py'],
  observe=['UnmarshalError.path', 'marsh.element.select'],
  technique='exhaustive fault placement in nested containers on the real code, paths decided by an independent splitter',
  level_note=ORACLE + 'Chains of up to 3 (4 thorough) of 15 container kinds.'),
 dict(
  id='C12', title='Defaults fill exactly the missing values',
  statement='A field that is absent or marked missing takes its default (or a fresh value of its default factory), a given value always wins over a default, an optional field without a default becomes None, and a required field without a value is reported as missing by name. Defaults are never shared between results nor modified, and a missing key of a default dictionary gives a fresh zero value of its type.',
  over=['inputs', 'histories'], quantifier='every structure of up to two (thorough three) fields out of all field types, each required or with a default or a factory, and absent, given or marked missing, also nested in structures and containers; results mutated between two unmarshals; histories of up to three (four) operations on default dictionaries of every kind of value',
  why='Absent, missing marker, default and factory interact with every kind of field type; tests sample a few of these products.',
  files=['marsh/schema/core/unmarshal.py', 'marsh/schema/template/structured.py', 'marsh/schema/types/dataclass.py', 'marsh/schema/types/typeddict.py', 'marsh/schema/types/namedtuple.py', 'marsh/schema/argument.py', 'marsh/_functional.py'],
  mechanism=['default handling of UnmarshalSchema @ marsh/schema/core/unmarshal.py', 'structured fields @ marsh/schema/template/structured.py'],
  observe=['marsh.unmarshal', 'constructed objects'],
  technique='exhaustive enumeration of structures and given/missing patterns on the real code against a reference filler',
  level_note=ORACLE + 'Structures of up to 2 (3 thorough) fields of every kind, and their nesting.'),
 dict(
  id='C13', title='Alternatives are tried in the order in which they are written',
  statement='A value of a union is what the first written member that accepts the element makes of it, a literal is the first listed one that equals or converts from the element, and an enum member, also of an enum that is a primitive type as well, is found by any of its names before by value. If no alternative accepts the element the failure is an unmarshal error that mentions the alternatives.',
  over=['inputs'], quantifier='every ordered selection of two to four union members, of three to four literals and of three to four enum members, against every element of a universe',
  why='Order matters exactly where several alternatives accept the same element; tests cover a few orders of a few members.',
  files=['marsh/schema/template/union.py', 'marsh/schema/types/union.py', 'marsh/schema/types/literal.py', 'marsh/schema/types/enum.py'],
  mechanism=['union, literal and enum schemas @ marsh/schema/template/union.py'],
  observe=['marsh.unmarshal'],
  technique='exhaustive enumeration of ordered alternatives and elements on the real code against first-match semantics',
  level_note=ORACLE + 'All ordered selections within the bounds.'),
 dict(
  id='C07', title='A run that can not go on ends cleanly at the first failing step',
  statement='A run goes through the same steps in the same order (load the configuration with every override and file, make the output directory, write the configuration, unmarshal it, call the program) and stops at the first step that fails: no later step has any effect (no file, no call), the working directory is as before, and the process exits with status 1 and a printable message that names the override, file, directory or the path of the value at fault (or, with MARSH_FULL_ERROR, raises the full error). Options that can not be used are rejected with the usage (status 2) before the first step. If no step fails the program is called exactly once, its result is returned and its own errors pass through unchanged.',
  over=['inputs', 'fault_sequences'], quantifier='every way to fail each step (malformed overrides, unreadable config files, unresolvable references, unusable directories and files, values that do not fit, raising programs), at every position among good overrides, in combination with the ways to fail later steps',
  why='Each failure is tested alone at best; what matters is which of several failing steps is reported and that nothing of the later steps happened.',
  files=['marsh/entry_point.py', 'marsh/errors.py', 'marsh/config.py', 'marsh/parse.py'],
  mechanism=['EntryPoint run sequence @ marsh/entry_point.py', 'error formatting @ marsh/errors.py'],
  observe=['exit status', 'stderr', 'calls of the decorated function', 'files and working directory afterwards'],
  technique='exhaustive enumeration of command lines with faults at every step, run through the real entry point against a reference of the run sequence',
  level_note=ORACLE + 'All combinations of 42 load faults, 15 misfits, 10 output directories, 9 config-out targets and 9 endings for 2 programs.'),
 dict(
  id='C14', title='What an operation gives does not depend on what was done before',
  statement='Unmarshaling, marshaling, documentation and selection give the same result whatever types and values were used before: types that compare or print equal but differ (order of union members, 1 against True, classes of the same name), failed builds, forward references, discarded types and cleared caches never leak into a later result.',
  over=['histories'], quantifier='every history of up to two operations (thorough three) out of a menu of about sixty that use look-alike types, recursive and broken types, defaults, factories and annotations, each followed by each operation and compared with the same operation in a fresh process',
  why='The results are cached in several global caches keyed by types; a wrong hit needs a particular pair of operations in one process, which tests in a shared process neither isolate nor enumerate.',
  files=['marsh/schema/core/unmarshal.py', 'marsh/schema/core/marshal.py', 'marsh/schema/core/base.py', 'marsh/utils.py', 'marsh/schema/types/dataclass.py'],
  mechanism=['UnmarshalSchemaMeta caches and recursion handling @ marsh/schema/core/unmarshal.py', 'ValueCache, WeakTypeCache @ marsh/utils.py', 'resolve_type_hints @ marsh/utils.py'],
  observe=['marsh.unmarshal', 'marsh.marshal', 'UnmarshalSchema.doc/select'],
  technique='explicit-state enumeration of operation histories on the real code in forked processes, compared with each operation alone',
  level_note=ORACLE + 'Every history of 2 (3 thorough) operations followed by every operation of the menu.'),
 dict(
  id='C23', title='The written configuration reproduces the run, where it is asked for',
  statement='The configuration written by --config-out equals the configuration the program would run with, in the requested format, and running the program from that file, possibly followed by further overrides, is the same as the original command line with these overrides. An output directory is made at exactly the given or templated place and the program runs inside of it, with a copy of its configuration.',
  over=['inputs', 'histories'], quantifier='every command line of up to two (thorough three) overrides and every special value, alone, nested and as a key, written in every way, loaded again and extended at every split; every output pattern and time zone',
  why='The text formats have many special words and characters, and the order of overrides against loaded files matters; tests write one plain configuration.',
  files=['marsh/entry_point.py', 'marsh/config.py'],
  mechanism=['--config-out and --output @ marsh/entry_point.py', 'write, load @ marsh/config.py'],
  observe=['written files', 'stdout', 'configuration and working directory of the program body'],
  technique='exhaustive enumeration of command lines replayed through written configurations on the real entry point',
  level_note=ORACLE + 'Every command line of up to 2 (3) overrides and 67 special values x 5 ways of writing.'),
 dict(
  id='C24', title='References between values are resolved once everything is known',
  statement='A reference in a value stands for what the referred place has after all overrides and files were applied, wherever and in whichever order it was given: a value that is a single reference becomes the referred value itself, a reference inside of text becomes its text, relative references count from the place they stand at. Circular or dangling references end the run, and meta data can be referred to but is not part of the configuration.',
  over=['inputs', 'histories'], quantifier='every assignment of plain values and references (absolute, relative, nested, within text, into meta data, circular, dangling) to up to three places and the meta data, in every order and by command line or file',
  why='The result depends on chains of references across places and on the order of sources; tests resolve a few fixed examples.',
  files=['marsh/entry_point.py', 'marsh/element.py', 'marsh/config.py'],
  mechanism=['resolve @ marsh/element.py', 'meta data and resolution step @ marsh/entry_point.py'],
  observe=['configuration of the program body', 'exit status and message', 'written configuration'],
  technique='exhaustive enumeration of reference graphs run through the real entry point against a reference resolver',
  level_note=ORACLE + 'Every graph of up to 3 places over 24 values with 5 kinds of meta data.'),
 dict(
  id='C15', title='Registered schemas apply at once and in the order of their priorities',
  statement='Which schema handles a type is decided by the registered schemas alone, in the order of their priorities: a higher priority comes first, the more recently registered one first for equal priorities, and a schema registered before or after others stays on that side of each of them. A registration, replacement or removal takes effect at once for every type, also for types already in use and nested in others, and a contradictory or repeated registration is refused without any effect.',
  over=['histories'], quantifier='every history of up to three registrations with base and relative priorities, replacements, removals and contradictory additions, before and after the types were used, for marshaling and unmarshaling',
  why='The order is the result of all registrations together and cached schemas have to be dropped; tests register one or two schemas before first use.',
  files=['marsh/utils.py', 'marsh/schema/_functional.py', 'marsh/schema/core/base.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/core/marshal.py'],
  mechanism=['PriorityOrder @ marsh/utils.py', 'registries and their caches @ marsh/schema/core/base.py', 'register @ marsh/schema/_functional.py'],
  observe=['marsh.utils.PriorityOrder', 'marsh.schema.register', 'marsh.unmarshal and marsh.marshal of the affected types'],
  technique='explicit-state enumeration of registration histories on the real code against a reference order',
  level_note=ORACLE + 'All orders of 3 (4) values with relations and up to 1 (2) changes, all histories of 2 to 3 registrations.'),
 dict(
  id='C16', title='A namespace makes exactly the registered classes selectable by name',
  statement='For a type that belongs to a namespace, exactly the currently registered subclasses of it can be selected by their names, each is unmarshaled as it would be on its own, and marshaling an instance adds the name that selects its class again. Registrations, replacements and deletions take effect at once and nothing of a refused one remains; unknown names are reported.',
  over=['histories'], quantifier='every history of up to three (thorough four) creations, deletions and registrations in two namespaces over a class hierarchy, observed after each step or only at the end',
  why='Selection depends on cached lookups, on the class hierarchy and on the history of registrations; tests register once and look at one class.',
  files=['marsh/schema/namespace.py', 'marsh/schema/types/namespace.py'],
  mechanism=['Namespace, Namespaces @ marsh/schema/namespace.py', 'namespace schemas @ marsh/schema/types/namespace.py'],
  observe=['marsh.unmarshal', 'marsh.marshal', 'marsh.namespaces', 'schema documentation'],
  technique='explicit-state enumeration of namespace histories on the real code against a reference namespace model',
  level_note=ORACLE + 'All histories of 3 (4 thorough) operations.'),
 dict(
  id='C17', title='Threads get what they would get one after the other',
  statement='Operations run by several threads at the same time (unmarshaling, marshaling, documentation, iterating the same lazily consumed values, calling the same cached functions, and registering new schemas, namespaces or components meanwhile) each give a result that they would also give if run one after the other, and so does everything that follows. No registration is lost and nothing from before a registration is used once it is complete.',
  over=['schedules'], quantifier='every interleaving with a bounded number of preemptions of pairs (and some triples) of operations on shared structures between bytecodes, and of pairs of whole operations between lines, on cold and warm caches',
  why='The outcome depends on the point at which a thread is interrupted; tests are single threaded or hit arbitrary interleavings.',
  files=['marsh/utils.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/core/base.py', 'marsh/schema/namespace.py'],
  mechanism=['cache, PriorityOrder, WeakTypeCache, CachePool, IterableFromIterator @ marsh/utils.py', 'per thread recursion state @ marsh/schema/core/unmarshal.py', 'Namespaces @ marsh/schema/namespace.py'],
  observe=['results of the operations of each thread and of further operations afterwards'],
  technique='stateless model checking of the real code: preemption-bounded enumeration of thread schedules with a controlled scheduler, against all serial orders',
  level_note='Real threads run one at a time under a scheduler that can switch at every line or bytecode; preemption bounds 1 to 2 (3 thorough), first visits of each place.'),
 dict(
  id='C18', title='Config files are found, loaded, merged and written as named',
  statement='A config name with or without its extension finds exactly the matching file of a supported type, a directory of configs loads as the mapping of what it contains, and what is written to a file is loaded again unchanged. Several configs merge in the given order with later ones taking precedence, optionally below the key they are named for. A missing, unreadable or malformed file (also one torn while it was written, if its text is no longer well-formed) is always reported as a config error that names it.',
  over=['inputs', 'crash_points'], quantifier='every set of up to two (thorough three) neighbouring files and directories out of look-alike names against every way to name a config, every value in every format, every truncation of a written file, every merge of configs in every order, every directory tree listed',
  why='Finding depends on which similarly named files exist together, and a torn file on the byte at which writing stopped; tests use a few fixed well-formed files.',
  files=['marsh/config.py', 'marsh/entry_point.py'],
  mechanism=['find, load, write, tree @ marsh/config.py', 'ConfigSchema and its registry @ marsh/config.py'],
  observe=['marsh.config.find/load/write/loads/dumps/tree', 'marsh.config.ConfigSchema'],
  technique='exhaustive enumeration of file trees, values and truncation points on the real code in scratch directories against a reference file system lookup',
  level_note=ORACLE + 'All pairs (triples) of 24 neighbouring names against 31 lookups; every prefix of the written files.'),
 dict(
  id='C19', title='Caches act like what they stand for',
  statement='A mapping for arbitrary keys acts like an ordered mapping also for keys that can not be hashed, a cached function or method returns what calling it would return for every combination of arguments, and a cache of types never keeps a type alive or confuses it with another. An iterator that is consumed lazily gives each of its readers all of its values in order, and hit counts, clearing and disabling take effect exactly as asked.',
  over=['histories'], quantifier='every sequence of up to five (thorough seven) operations on each structure, with keys and arguments that are equal but of different types, equal but not hashable, or garbage collected meanwhile',
  why='Wrong hits and broken order need a particular sequence of insertions, removals and look-alike keys; tests execute one short sequence each.',
  files=['marsh/utils.py'],
  mechanism=['SafeDict, ValueCache, cache, CachePool, WeakTypeCache, IterableFromIterator @ marsh/utils.py'],
  observe=['marsh.utils'],
  technique='explicit-state enumeration of operation sequences on the real structures against reference containers',
  level_note=ORACLE + 'All operation sequences up to the bound of each structure.'),
 dict(
  id='C21', title='Annotations apply to each annotated value wherever its type is written',
  statement='Annotations of a type see exactly the values of that type, in the order they are written (those for the element before it is converted, the others after), at every place where a type may be written: fields, parameters, items, keys, union members and their nestings, also if written as text. A value that an annotation refuses is reported as an error at that value, unrelated metadata has no effect, and the predefined annotations accept exactly the numbers and collections they name.',
  over=['programs', 'inputs'], quantifier='every list of up to three annotations of each kind (also refusing, also unrelated metadata) at every place where a type may be written and every pair (thorough triple) of nested places, given or default values, boundary numbers',
  why='Annotations pass through separate code for each kind of type and place; tests annotate two or three of these places.',
  files=['marsh/annotation.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/types/annotated.py', 'marsh/utils.py'],
  mechanism=['Annotation, PreAnnotation @ marsh/annotation.py', 'annotated schemas @ marsh/schema/types/annotated.py', 'resolve_type_hints @ marsh/utils.py'],
  observe=['marsh.unmarshal', 'calls of the annotations'],
  technique='exhaustive enumeration of annotated type structures on the real code against applying the annotations by hand',
  level_note=ORACLE + 'Every list of up to 3 annotations at 43 places, 7 lists at all pairs (triples thorough) of places.'),
 dict(
  id='C22', title='Help shows every field and option as it is, at every path',
  statement='The help of a program lists every option and every field of its configuration with the type, default and description it really has, in order, down to the depth that is asked for, and nothing else. Asking for the help of a path shows what belongs to exactly that place and reports a path that leads nowhere. Each description is the one written for that very field in the docstring or comments of its type (or the nearest base class), whichever of the supported ways it is written in, and folding it to the width of the terminal loses nothing.',
  over=['programs'], quantifier='every program with up to two fields (three in reduced form) out of a menu of types, defaults and descriptions, as function, dataclass, class or named tuple; every path into it; depths and widths; every combination of ways to describe two fields in a class and its base',
  why='Tests compare the help of a few programs; attribution of descriptions, depth limits and nested paths interact with the kind of type and its position.',
  files=['marsh/doc/common.py', 'marsh/doc/terminal.py', 'marsh/entry_point.py', 'marsh/utils.py', 'marsh/schema/core/unmarshal.py'],
  mechanism=['doc, doc_static, get_select @ marsh/schema/core/unmarshal.py', 'help screens @ marsh/entry_point.py, marsh/doc/terminal.py', 'extraction of descriptions @ marsh/utils.py'],
  observe=['printed help', 'marsh.schema.UnmarshalSchema(..).doc / select'],
  technique='exhaustive enumeration of generated programs and help paths on the real code against a reference rendering',
  level_note=ORACLE + 'Every program of up to 2 fields of the menu at depths 0 to 5; paths of up to 3 fields (4 thorough).'),
 dict(
  id='C25', title='Values are independent of each other and inputs are never modified',
  statement='Unmarshaling, marshaling, casting, documenting, loading, parsing and running a program never modify what they are given. What they hand out shares no mutable part with what was or will be handed out otherwise: changing it in any way changes no other value, no default, no schema and no later result, also after refused values.',
  over=['histories'], quantifier='every history of up to four (thorough five) operations, in between of which a client destroys everything it was given, on types with every kind of default and empty value; every value type inside of every container; texts, files and entry points used again',
  why='Sharing shows only when an earlier result is changed and the operation is repeated; tests look at each result once.',
  files=['marsh/schema/core/unmarshal.py', 'marsh/schema/core/marshal.py', 'marsh/schema/types', 'marsh/config.py', 'marsh/parse.py', 'marsh/entry_point.py'],
  mechanism=['default values @ marsh/schema/core/unmarshal.py', 'empty values of containers @ marsh/schema/types', 'passing on of arguments @ marsh/entry_point.py'],
  observe=['marsh.unmarshal, marsh.marshal, marsh.cast, schema.doc, marsh.config.load, marsh.parse, marsh.main'],
  technique='explicit-state enumeration of operation histories with a destructive client on the real code',
  level_note=ORACLE + 'All histories up to 4 operations (5 thorough) out of 8 on 18 types; sharing of structure between elements is not excluded.'),
 dict(
  id='C26', title='A type means the same wherever it stands and however it is asked for',
  statement='Unmarshaling an element as a type gives the same value, or is refused alike, whether the type stands alone, is the type of a field, parameter, item or value of a mapping, is optional, annotated, a union member, the bound of a type variable, or any nesting of these. It also does not matter whether it is asked for by a call, a schema, a cast, as arguments of a function or as a component of a namespace. Keywords passed along with an element act as further entries of it which take precedence.',
  over=['programs', 'inputs'], quantifier='every type out of a menu of all supported kinds at every place and every pair (thorough triple) of nested places where a type may stand, in every way to ask for it, with every element out of a menu of over a hundred',
  why='Each place and each way to ask passes through code of its own that wraps, caches or simplifies the type; tests combine a few.',
  files=['marsh/schema/core/unmarshal.py', 'marsh/schema/core/base.py', 'marsh/schema/template', 'marsh/schema/types', 'marsh/schema/namespace.py', 'marsh/utils.py'],
  mechanism=['UnmarshalSchema, unmarshal, unmarshal_args, cast, cast_args @ marsh/schema/core/unmarshal.py', 'parameters of structures @ marsh/schema/template/structured.py', 'resolution of forward references @ marsh/utils.py'],
  observe=['marsh.unmarshal', 'marsh.schema.UnmarshalSchema', 'marsh.cast', 'marsh.unmarshal_args', 'marsh.cast_args', 'Namespace.build'],
  technique='exhaustive enumeration of places, ways to ask, types and elements on the real code, each compared with the same type standing alone',
  level_note='The reference is marsh itself on the type alone, which C08, C09, C10 and C13 decide against independent references. 144 types at 48 places, pairs of places (triples thorough).'),
 dict(
  id='C27', title='Helpers for extensions tell types and values apart by what they are',
  statement='The documented helpers that custom schemas are built on recognise every type in each way it can be written (old or new syntax, bare, annotated, with or without arguments, as a subclass with further bases) and take out exactly the item, key, value, member and literal types it was written with. They classify every value by what it can do, also look-alikes of containers and values that can not be compared, and such values are marshaled, used as defaults and passed on like any other. Conversions of single values and literals, encoded bytes, suggestions for misspelt names and texts of docstrings agree with what unmarshaling, error messages and help give, and whatever can not be converted is a value error.',
  over=['inputs'], quantifier='every helper on every type made of nine types by about forty ways to write containers and unions; on ninety values; on every short text, number, list of literals, word with candidates, docstring and forward reference within the bounds',
  why='The helpers decide what a schema does with a type or value; tests ask each of them about a few examples of the plain kind.',
  files=['marsh/utils.py', 'marsh/schema/core/marshal.py'],
  mechanism=['is_*, get_type, inspect_sequence_type, inspect_mapping_type, cast_*, match_literal, get_closest, extraction of descriptions, resolve_type_hints @ marsh/utils.py'],
  observe=['marsh.utils', 'marsh.marshal', 'marsh.unmarshal'],
  technique='exhaustive enumeration of types, values and texts on the real helpers against what they were made of and against unmarshaling',
  level_note=ORACLE + 'Every combination of the stated types, values and texts; four characters per text (five thorough).'),
 dict(
  id='C28', title='Options act as documented in every order, spelling and combination',
  statement='Every option of a program takes effect as documented whichever way it is spelled, in any order, before or after the overrides, alone or combined with all others, and if it is given twice the last one counts. Config files are looked up below the config directory seen from where the program was started, the program runs inside of the output directory with its configuration written as asked, log records of the level and format asked for are shown, and asking for help shows it and does nothing else. Options that a program does not offer are rejected, and an earlier run of a program, failed or not, has no effect on a later one.',
  over=['inputs', 'histories'], quantifier='every pair of spellings of the six options (thorough: all six at once) with eight lists of overrides before, after and behind the separator; every order of every subset of the options; every repeated option; every pair of runs out of a menu',
  why='Tests give one option at a time; which directory a path is relative to, what help prevents and what a previous run leaves behind show only in combination.',
  files=['marsh/entry_point.py', 'marsh/config.py'],
  mechanism=['get_arg_parser, load_config, maybe_change_cwd, maybe_print_help, __call__ @ marsh/entry_point.py'],
  observe=['arguments and working directory of the program', 'files', 'printed text, log and exit status'],
  technique='exhaustive enumeration of option combinations, orders and histories of runs through the real entry point against a reference of what each option asks for',
  level_note=ORACLE + 'Every pair of the stated spellings in quick, every combination in thorough.'),
 dict(
  id='C29', title='A type given as text means what it means where it is written',
  statement='A type that is written as text (in whole or nested in another type, by postponed annotations, as the bound of a type variable, through an alias or with the name of its module) stands for what its names mean in the module that contains it, for every kind of structure, callable and method, also where the same names mean other types in other modules. This holds for what is inherited from or extended in another module, for names that are only defined later, for types that contain themselves or each other, and in whichever order the types are used. A value that does not fit the type meant is refused at its place.',
  over=['programs', 'histories'], quantifier='every way to write a structure or callable with every way to write a type as text and every kind of named type in two modules that use the same names, defined before or after, in every order of use, twice; every pair of structures that contain each other',
  why='Python remembers what a text meant and shares it between equal types, so what goes wrong depends on which module was used first; tests have one module.',
  files=['marsh/utils.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/template/callable.py', 'marsh/schema/types/dataclass.py', 'marsh/schema/types/typeddict.py', 'marsh/schema/types/typevar.py'],
  mechanism=['resolve_type_hints @ marsh/utils.py', 'resolve_forward_ref @ marsh/schema/core/unmarshal.py', 'parameters of structures @ marsh/schema/template/callable.py, marsh/schema/types', 'type variables @ marsh/schema/types/typevar.py'],
  observe=['marsh.unmarshal', 'marsh.unmarshal_args'],
  technique='exhaustive enumeration of generated pairs of modules and orders of use on the real code against the module each text stands in',
  level_note=ORACLE + 'Names that are local to a function are left out, as Python does not resolve them either.'),
 dict(
  id='C20', title='Errors and the helpers for tests tell exactly what failed',
  statement='The text of an error is its message followed by its path, the first cause that is not an error of marsh itself and the type it is about, also when it was passed on, and copies and pickled errors keep all of it; each named place it passes is put in front of its path once. A handler of errors is called with exactly the errors it is for, those of the handlers inside of it included, and with none if full errors are asked for. The helpers for tests pass exactly if what they state is true: the value or element is the expected one, or the failure has the stated kind and cause, however it is chained.',
  over=['inputs', 'fault_sequences'], quantifier='every chain of up to three (thorough four) errors of fourteen kinds linked in every way, every message, path, type and places passed; every pair of nested handlers with every error; every helper with every type, element, value, expectation and cause out of a menu',
  why='Tests use the helpers with what is true, so one that always passes would go unnoticed, and look at the text of few errors.',
  files=['marsh/errors.py', 'marsh/testing.py'],
  mechanism=['MarshError.pretty, UnmarshalError, maybe_handle_error, prepend @ marsh/errors.py', 'catch_cause, unmarshal_succeeds, unmarshal_fails, marshal_succeeds, marshal_fails @ marsh/testing.py'],
  observe=['text and attributes of errors', 'outcome of marsh.testing helpers'],
  technique='exhaustive enumeration of error chains, handlers and statements on the real code against a reference of what each has to tell',
  level_note=ORACLE + 'A failure that hides its cause with `from None` is left out.'),
]
