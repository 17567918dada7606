import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["exit status","stdout","generated files"],hook_needed=hook)))
TESTS="The suite runs one OS schedule of a two-thread run per fixture; only 3 of its 41 tests can run here, none of which compiles a document."
p("C01","Every source file is compiled exactly once under every schedule",
  "For every directory tree, every thread count of at least one and every interleaving of the worker threads, qlc terminates, and each regular file whose name ends in `.graphql`, at any depth below the root directory, is compiled exactly once: its `.graphql.d.ts` is written once, or an error about that file is reported. Files with any other extension are never compiled. No worker stops while work is left and none waits for ever.",
  ["schedules","inputs"],"all interleavings (to a preemption bound) of 1-3 workers over directory shapes with siblings, chains and empty directories",TESTS,
  ["src/worker_pool.rs"],[("work queue and termination detection","src/worker_pool.rs: Worker::pop_work, Worker::run"),("directory walk","src/worker_pool.rs: Work::run_dir_entry")],
  [dict(name="work queue and idle/outstanding counters",meaning="what is left to do and who is doing it",where="src/worker_pool.rs")])
p("C02","No diagnostic, exit status or global type is lost to scheduling",
  "For the same inputs and configuration, the multiset of printed diagnostics, the exit status and the global types file are the same for every thread count and every interleaving of the workers. In particular every error found by any worker makes the exit status non-zero, and every enum or input object used by any file is exported from the global types file.",
  ["schedules","configurations"],"all interleavings (to a preemption bound) of runs whose files produce errors, warnings and global types on different workers; thread counts 1-4 and above",TESTS,
  ["src/worker_pool.rs","src/cli.rs"],[("per-worker aggregates merged after join","src/worker_pool.rs: WorkAggregateResult::extend_from, WorkerPool::work"),("exit status","src/cli.rs: print_exit_info")])
p("C03","Generated files are a deterministic function of the inputs",
  "The bytes of every generated file depend only on the schema, the sources and the configuration. The order in which directories are listed, hash seeds, thread count and interleaving, outputs left by earlier runs and repetition of the run make no difference; neither does the order of types, fields, enum values and possible types in the schema JSON.",
  ["schedules","inputs","configurations","histories"],"all listing orders of small directories, an enumerated set of hash seeds, thread counts, pre-existing outputs, and all permutations of small schema lists",
  "A fixture test compares one run's output with a file; a map iterated in hash order passes most of the time, and no test varies listing order, seeds or leftovers.",
  ["src/graphql/ir.rs","src/typescript.rs","src/graphql.rs"],[("sorting by name before printing","src/graphql/ir.rs, src/typescript.rs: sort_unstable_by*")])
p("F01","Every file system failure is reported and isolated",
  "If any directory listing, open, read or write performed during a run fails, qlc still terminates on its own, prints an error and exits non-zero, never exiting zero with an expected output missing, truncated or wrong. Sources not touched by the failure are compiled as if it had not happened. Short reads, short writes and interrupted calls change nothing at all.",
  ["fault_sequences"],"every single failing file system operation (and pairs) of representative runs, several error codes; every transfer shortened or interrupted",
  "No test makes any I/O call fail other than a missing schema or import.",
  ["src/worker_pool.rs","src/graphql.rs","src/cli.rs","src/graphql/schema.rs"],[("I/O errors become messages","src/graphql.rs: read_graphql_file, compile_file, compile_global_types_file; src/worker_pool.rs: DirIoError")])
p("F02","A killed run can simply be repeated",
  "If qlc is killed at any point, including in the middle of writing a file, then running it again to completion gives exactly the directory tree and exit status that an undisturbed first run gives. Inputs are never altered at any point of a run.",
  ["crash_points","histories"],"every crash point before and after each file system operation, and torn prefixes of each write, followed by a clean run",
  "No test kills the program or runs it over leftovers.",
  ["src/graphql.rs"],[("outputs are rewritten whole and never read","src/graphql.rs: compile_file, compile_global_types_file")])
p("F03","qlc writes only its own outputs, inside the root directory",
  "The only files a run creates or changes are `<source>.graphql.d.ts` next to a source below the root directory and the one configured global types file, which lies inside the root directory unless the configured name itself climbs out of it; with no enum or input object in use the global types file is not touched. Sources, schema, configuration and everything else stay as they were, for every configuration, import path and document (a global types module that is named like a source, the schema or the configuration is not covered).",
  ["inputs","configurations","fault_sequences"],"all write-intent operations of every run the checks make, plus enumerated module names, prefixes and import paths that try to leave the root",
  "Tests look only at the files they expect, never at what else was written.",
  ["src/graphql.rs"],[("output path derivation","src/graphql.rs: compile_file, compile_global_types_file")],obs=["file system operations with write intent","directory tree before and after"])
p("T01","Result types describe exactly the responses the operation can get",
  "For every document that is valid against the schema, the exported type of the operation or fragment, with its nested types, describes exactly the shapes a conforming server can return: for each possible concrete object type at each level, the response keys selected for that type by fields, aliases, inline fragments and fragment spreads, merged as GraphQL merges them, each with its own type. No selected key is missing, none is extra, no two concrete types whose shapes differ share one shape, and `__typename` is the literal name (or names) of the concrete types it stands for.",
  ["inputs","programs"],"all valid selection sets up to a size bound over schemas with objects, interfaces, unions, enums, scalars and lists, including nested abstract types",
  "41 fixtures sample a few selections; the result must hold for every combination of nested selections and abstract types.",
  ["src/graphql/ir.rs","src/typescript.rs"],[("collecting fields per concrete type","src/graphql/ir.rs: collect_fields_from_selection_set, ComplexTraversal, UniqueFields"),("merging equal possibilities","src/typescript.rs: type_definitions_from_complex_field_collection")])
p("T02","List and null wrappers are preserved at every depth",
  "For every chain of list and non-null wrappers around a named type, the generated TypeScript type is the one that nests arrays and `| null` in the same order: for result fields, for fields of input objects and for variables. A nesting of lists that qlc does not support is rejected with an error, never silently changed.",
  ["inputs"],"all wrapper chains up to list depth 4, around every kind of named type, in each position",
  "Fixtures contain four list types; most two-level chains are never compiled.",
  ["src/graphql/schema/field.rs","src/typescript.rs","src/graphql/variable.rs"],[("wrapper state machine","src/graphql/schema/field.rs: ModifierBuilder"),("printing","src/typescript.rs: prop_type_def, input_def_from_type"),("variables","src/graphql/variable.rs: unwrap_var_def")])
p("T03","Variables types list exactly the declared variables",
  "For every operation with variables, the exported `<Name>Variables` type has exactly one property per declared variable, of the TypeScript type of its GraphQL type, optional exactly when the GraphQL type is nullable; an operation without variables exports none and is annotated with `never`. The properties are independent of the order of declaration.",
  ["inputs"],"all lists of up to three variables over built-in scalars, custom scalars, enums and input objects with every supported wrapper",
  "Fixtures declare three variables lists.",
  ["src/graphql/variable.rs","src/typescript.rs"],[("variable IR","src/graphql/variable.rs: try_build_variable_ir"),("printing","src/typescript.rs: compile_variables_type_definition")])
p("T04","The global types file is complete, minimal and correct",
  "After a run, the global types file exports exactly the enums and input objects used by the compiled files plus everything reachable from those input objects, including recursive ones, each once. Each enum lists exactly its schema values and each input object exactly its schema fields with their types, a field being optional exactly when nullable. Every name a generated file imports from it is exported by it.",
  ["inputs","programs"],"all sets of files using subsets of a graph of enums and input objects, and all small reference graphs between input objects including cycles",
  "One fixture has a nested input object; none has a cycle, shared references or several files using different types.",
  ["src/typescript.rs","src/worker_pool.rs","src/graphql.rs"],[("transitive closure over input fields","src/typescript.rs: add_sub_input_objects, global_types_from_names"),("collection of used names","src/typescript.rs: compile_ir; src/worker_pool.rs")])
p("T05","Every generated module is closed and correctly named",
  "In every generated file each type name is declared once, every name referred to is declared in the file, imported by it or a configured custom scalar, and every import is used. The operation's or fragment's type is exported under its own name (`Query`, `Mutation` or `Subscription` when unnamed), the type at a nested selection under the names joined by `_`, and the default export is the typed document node of the matching operation kind applied to those types.",
  ["inputs","programs"],"all generated modules of the enumerations of T01, T03 and T04, over all operation kinds, named and unnamed",
  "Fixtures compare whole files for a few documents; closure must hold for all.",
  ["src/typescript.rs","src/graphql/ir.rs"],[("module assembly","src/typescript.rs: compile_ir, compile_imports"),("names","src/typescript.rs: type_definitions_from_complex_field_collection"),("operation kind","src/graphql/ir.rs: OperationKind")])
p("T06","Fragments and selection order do not change the result type",
  "Replacing an imported fragment spread by the equivalent inline fragment, moving fields into a redundant inline fragment on their parent type, reordering or repeating selections, and splitting fragments over files imported directly or through another fragment do not change the generated types, up to type annotations' own names staying the same.",
  ["inputs","programs"],"all rewritings of each enumerated document by the listed equivalences",
  "No fixture compares two ways of writing the same selection.",
  ["src/graphql/ir.rs","src/graphql.rs"],[("spread handling","src/graphql/ir.rs: collect_fields_from_selection_set"),("imports","src/graphql.rs: add_imported_fragments, parse_foreign_fragments")])
p("T07","Documentation and deprecation reach the output and stay inside comments",
  "Whatever text a schema description contains, the generated file outside comments is the same as without it: the text can neither end its comment nor open another. The comment carries every word of a field's or enum's description, fields deprecated in the schema are marked `@deprecated` and no others are unless their description says so itself, and result properties are `readonly` exactly unless disabled.",
  ["inputs","configurations"],"all description strings up to a length bound over the characters that matter to comments, times deprecation and the readonly option",
  "Fixtures contain a handful of harmless one-line descriptions.",
  ["src/typescript.rs","src/graphql/schema/field.rs"],[("comment printing","src/typescript.rs: compile_documentation"),("description clean-up","src/graphql/schema/field.rs: Field::try_from")])
p("T08","Custom scalars follow the configured naming everywhere",
  "A custom scalar is printed as `any` by default, as its schema name when custom scalars are enabled, and as prefix plus name when a prefix is also configured, identically in result fields, variables and input object fields. Built-in scalars are always `boolean`, `string` (String, ID) and `number` (Int, Float).",
  ["configurations","inputs"],"all combinations of the two options from either source, times every position and wrapper",
  "Three fixtures use one scalar in result fields only.",
  ["src/typescript.rs","src/typescript/field.rs","src/cli.rs"],[("scalar printing","src/typescript.rs: compile_custom_scalar_name, type_name_from_scalar; src/typescript/field.rs: compile_scalar"),("option","src/cli.rs: RuntimeConfig::bottom_type_config")])
p("E01","Invalid documents are rejected with a located error and no output",
  "Every document that selects an unknown field, gives or omits a selection set against the field's type, spreads an unknown fragment, names an unknown type, uses an unknown variable type, or contains zero or several definitions is reported as an error naming its file (with line and column of the offending item where the problem lies in its own text), makes the exit status non-zero and produces no output file for that document. Other documents of the same run are unaffected, and every valid document that keeps to what qlc supports (one operation or fragment definition in a file, fields, aliases, arguments, inline fragments with a type condition, spreads, variables of at most one list) is accepted.",
  ["inputs","programs"],"every single fault of each kind injected at every position of the enumerated documents, alongside valid ones",
  "Tests have one sample for four of the kinds.",
  ["src/graphql.rs","src/graphql/ir.rs","src/graphql/variable.rs"],[("validation while collecting","src/graphql/ir.rs: insert_field, collect_fields_from_selection_set"),("document shape","src/graphql.rs: parse_graphql_file"),("messages","src/cli.rs: PrintableMessage")])
p("E02","No input makes qlc crash or hang",
  "For every content of source files, import lines, configuration and schema, qlc terminates with exit status 0, 1 or 2 after printing its report: it never panics, overflows its stack or runs for ever, at any size a project can have. This includes cyclic imports, fragments that spread each other, input objects that refer to each other, deep and wide import graphs and malformed import lines.",
  ["inputs"],"all small import graphs and fragment reference graphs including cycles, all input object graphs, all short import lines over a critical alphabet, all token strings up to a length bound",
  "No test contains a cycle of any kind or a malformed import.",
  ["src/graphql.rs","src/graphql/ir.rs","src/typescript.rs"],[("import recursion","src/graphql.rs: add_imported_fragments, get_file_path_of_fragment"),("spread recursion","src/graphql/ir.rs: collect_fields_from_selection_set"),("input object recursion","src/typescript.rs: add_sub_input_objects")])
p("E03","Warnings appear exactly when deserved and never change results",
  "A narrowing warning is printed for exactly those spreads and inline fragments written in the file being compiled whose type has no possible type in common with the types still possible at that place, or whose directly spread fragment has none. A deprecation warning is printed, only when enabled, for exactly the deprecated fields selected in a file without errors, with line and column. Warnings change neither the exit status nor any output file.",
  ["inputs","configurations"],"all enumerated documents with abstract types, with and without the option, locally and through imports",
  "Two fixtures cover one warning of each kind.",
  ["src/graphql/ir.rs","src/cli.rs"],[("narrowing","src/graphql/ir.rs: clone_for_type_spread, ForeignFragmentJumpState"),("deprecation","src/graphql/ir.rs: insert_field")])
p("E04","The report and the exit status agree with what happened",
  "Once the command line is understood, the exit status is 0 exactly when no error was printed and 1 otherwise, whatever the number of warnings. The closing summary states the true number of errors and of warnings, in singular for one and plural otherwise, and is absent for a count of zero.",
  ["inputs"],"all combinations of 0-3 error files, 0-3 warnings and clean files, and all places where errors arise",
  "Tests check that a message is contained in the output, never counts.",
  ["src/cli.rs"],[("summary and exit","src/cli.rs: print_exit_info")])
p("E05","A malformed schema is refused as a whole",
  "If the schema file is missing, is not JSON, or lacks any part qlc depends on (the wrapper objects, a type's name or kind, the fields, values or possible types its kind requires, a field's name, type or wrapped type, a known kind), then qlc prints exactly one error about the schema, exits with status 1 and writes nothing. A schema that has all of these is accepted, with any additional content ignored.",
  ["inputs"],"every single deletion, null, wrong-kind and wrong-type mutation at every JSON path of a complete schema, every truncation, and harmless additions",
  "Three tests cover a missing file, one syntax error and one missing key.",
  ["src/graphql/schema.rs","src/graphql/schema/json.rs","src/graphql/schema/field.rs"],[("typed decoding","src/graphql/schema/json.rs"),("kind requirements","src/graphql/schema.rs: Type::try_from; src/graphql/schema/field.rs: FieldType::try_from")])
p("G01","Options mean the same from command line and configuration file",
  "Each option that exists in both places has the same effect given on the command line or in the JSON configuration file; a value on the command line wins over the file, and the file over the default. A relative schema path in the configuration file is relative to that file, on the command line to the working directory, and by default the schema is `schema.json` in the root directory; a configuration file that is named but missing, unreadable or ill-typed is an error with nothing written.",
  ["configurations"],"all pairs of (absent, value A, value B) per option over both sources, and all option pairs",
  "Two tests set the schema path; no test sets any other option in the file.",
  ["src/cli.rs"],[("merging","src/cli.rs: RuntimeConfig::from_cli, ConfigFileMatches::from_file_parse")])
p("G02","Imports resolve to the file they name, for every layout",
  "An import line of the form `#import \"path\"` in the leading comment block makes exactly the fragment of the named file, and of the files it imports in turn, available: a path starting with `.` is relative to the importing file, one starting with the configured prefix is relative to the root directory after removing it, any other is relative to the root directory. A missing import is an error at its line; comment and blank lines before or between imports change nothing, and import lines after the first definition line are ignored.",
  ["inputs","configurations"],"all import graphs over files in a small directory tree, in each path style, prefix configuration and preamble layout",
  "Two fixtures import along one path each.",
  ["src/graphql.rs"],[("path resolution","src/graphql.rs: get_file_path_of_fragment"),("preamble scan","src/graphql.rs: add_imported_fragments")])
p("G03","Generated imports point at the modules that exist",
  "Every generated file imports its typed document node from the configured module and its global types from the configured global types module, by the configured names; the global types file is written at the path, relative to the root directory, that name denotes once the root prefix is removed, with extension `.ts` unless the name has one; a name that denotes no file is refused. Whenever a generated file imports global types and the run succeeds, that file exists.",
  ["configurations"],"all combinations of module names (plain, nested, with extension, prefixed) and prefixes",
  "One fixture uses one combination.",
  ["src/graphql.rs","src/typescript.rs"],[("output path","src/graphql.rs: compile_global_types_file"),("import specifiers","src/typescript.rs: compile_imports")])
p("N01","The npm installer installs only a binary whose checksum matches",
  "Whatever the download server, file system and tar do, the installer script exits with status 0 only if an archive with the pinned SHA-256 for this platform was downloaded completely from the release's address, through up to ten redirects, over verified TLS, and unpacked; in every other case it terminates with a non-zero status and an archive that fails the check is never unpacked nor left behind. On success the binary of the archive is in place and executable and the archive is removed; when nothing goes wrong it succeeds, with or without remains of an earlier installation.",
  ["fault_sequences","configurations"],"all sequences of server answers (success, redirects, errors, connection loss and truncation), checksum outcomes, tar outcomes and file system errors, on every platform",
  "The npm package has no tests.",
  ["pkg/npm/lib/postinstall.js"],[("download and verify before untar","pkg/npm/lib/postinstall.js: main, download, checksum, untar")],obs=["exit status","file system and process calls of the script"])
p("N02","The schema downloader succeeds only with a complete schema file",
  "Whatever the server and the file system do, the schema download script exits with status 0 exactly if the complete body of a 200 response was stored in the output file; in every other case it terminates with a non-zero status and leaves no partial output file behind. The request it sends asks for every part of the introspection result that qlc reads, including deprecated fields and enough levels of type wrapping.",
  ["fault_sequences"],"all server behaviours (status codes, truncation at every chunk, connection loss before and after headers) and file system errors",
  "The npm package has no tests.",
  ["pkg/npm/lib/download.js"],[("stream to file with clean-up","pkg/npm/lib/download.js: download")],obs=["exit status","output file"])
p("N03","The document node helper types give back data and variables",
  "For every typed document node kind, the published helper types extract exactly the data type and the variables type the node was built with, for every combination of data and variables types that qlc generates, and the modules qlc generates compile against the published declarations, under every supported module resolution and strictness.",
  ["programs"],"all node kinds times representative data and variables types, including `never`, checked by the TypeScript compiler",
  "The npm package has no tests.",
  ["pkg/npm/lib/typed-documentnode.d.ts"],[("conditional types","pkg/npm/lib/typed-documentnode.d.ts: DataOf, VariablesOf")],obs=["TypeScript compiler diagnostics"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
