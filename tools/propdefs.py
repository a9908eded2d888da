"""Source of properties.jsonl and MANIFEST.json: python3 tools/propdefs.py regenerates both."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique='', note='', thorough=True, design=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, thorough=thorough, design=design))
NA = []

prop('P01', 'Versions have one total order, and equality and hashing agree with it',
     'Exactly the documented version language is accepted and a version prints as it was written. Comparing any two versions '
     'follows the documented order (token by token; numbers by value whatever their length, words alphabetically, a word before a '
     'number; a longer version is earlier than its own prefix; trailing zero tokens do not count), which is antisymmetric and '
     'transitive apart from zero-padded versions. Versions that compare equal are equal and hash equally.',
     ['inputs'], 'every pair and triple of version strings',
     'order laws quantify over all pairs and triples of strings; tests compare a few hand-picked pairs',
     ['crates/rez-next-version/src/version.rs'],
     [('parse', 'crates/rez-next-version/src/version.rs:Version::parse'), ('order', 'crates/rez-next-version/src/version.rs:compare_rez'),
      ('hash', 'crates/rez-next-version/src/version.rs:impl Hash')],
     observe='parse result, comparison, equality and hash of each pair',
     technique='TLA+ order specification (Version.tla) model-checked with TLC for the order laws; recorded comparison matrices of the real code validated against it',
     note='Order laws checked exhaustively on token lists up to length 2 (quick) over a token alphabet; real comparison matrices over TLC-generated and random universes are validated row by row.')

prop('P02', 'Version ranges denote sets of versions and their operations are set operations',
     'A range admits exactly the versions its text describes (bounds, alternatives, wildcards, exclusions). Intersection, union, '
     'difference, inclusion, overlap and emptiness of ranges agree with the same operations on the sets of versions they admit, '
     'and printing, re-reading or serialising a range does not change the set.',
     ['inputs'], 'every pair of ranges and every version',
     'set laws quantify over all range pairs and all versions; tests check a few memberships',
     ['crates/rez-next-version/src/range/mod.rs', 'crates/rez-next-version/src/range/parser.rs', 'crates/rez-next-version/src/range/types.rs', 'crates/rez-next-version/src/range/satisfiability.rs'],
     [('parse', 'crates/rez-next-version/src/range/parser.rs:parse_range_str'), ('operations', 'crates/rez-next-version/src/range/mod.rs:intersect/union/subtract/is_subset_of'),
      ('membership', 'crates/rez-next-version/src/range/types.rs:bound_matches')],
     observe='membership vectors of ranges and of the results of their operations',
     technique='TLA+ denotation of ranges (Range.tla); membership vectors and operation results recorded from the real code validated with TLC',
     note='Ranges from a grammar over bounded universes of totally ordered versions; zero-padded versions are judged on membership, union and reload only.')

prop('P03', 'A requirement means the same however it is written, printed or evaluated',
     'A well-formed requirement is read with its name, namespace, weak or conflict marker and constraint, and selects exactly the '
     'versions the constraint allows; the package-level and solver-level forms of a requirement agree. Printing and re-reading or serialising it '
     'preserves all of that, and platform and environment conditions hold exactly where they say.',
     ['inputs'], 'every requirement text and every version, platform and environment',
     'two parsers and two evaluators must agree on every text and version; tests sample a few strings on each',
     ['crates/rez-next-package/src/requirement/types.rs', 'crates/rez-next-package/src/requirement/parser.rs', 'crates/rez-next-package/src/requirement/display.rs', 'crates/rez-next-package/src/package/requirement.rs'],
     [('solver requirement', 'crates/rez-next-package/src/requirement/types.rs:VersionConstraint::is_satisfied_by'), ('package requirement', 'crates/rez-next-package/src/package/requirement.rs:PackageRequirement::satisfied_by')],
     observe='parsed fields and membership vectors of the requirement and of its printed and serialised copies',
     technique='TLA+ semantics of requirement constraints (Req.tla) over Version.tla; recorded readings of the real parsers validated with TLC',
     note='All constraint forms with all bounds of a 30-version list, plus random combinations; conditions over three platforms, two architectures, two variables.')

prop('P04', 'A resolve is consistent and reports every requirement it could not meet',
     'A successful resolve selects at most one version of each package, only packages and variants that exist and that something in the '
     'request or in the selection requires, no pre-release unless allowed, and no dependency cycle. Every requirement, weak '
     'reference and conflict of the request and of the selected packages holds, or is reported as failed (never in strict mode, where the '
     'resolve is then an error). Nothing is reported as failed that is met, does not apply, or could be met by '
     'another version of that package that everything else allows.',
     ['inputs', 'histories'], 'every repository content and request',
     'the number of repositories and requests is unbounded and violations need particular orders of selection, replacement and backtracking',
     ['crates/rez-next-solver/src/dependency_resolver.rs', 'crates/rez-next-solver/src/resolution_state.rs', 'crates/rez-next-solver/src/solver.rs'],
     [('selection loop', 'crates/rez-next-solver/src/dependency_resolver.rs:resolve_recursive'), ('replacement and pruning', 'crates/rez-next-solver/src/resolution_state.rs:set_package_requirements'),
      ('conflicts', 'crates/rez-next-solver/src/resolution_state.rs:check_conflicts')],
     state='selected packages, active requirements, failed requirements', observe='result or error of a resolve',
     technique='TLA+ resolver machine (MCResolve.tla) model-checked for soundness; answers of the real resolver to exhaustive small and random problems validated against the same definitions (Resolve.tla)',
     note='All problems over two packages with two versions and 6-7 kinds of requirement each (sampled in quick), plus random problems up to 7 packages.')

prop('P05', 'A resolve prefers the newest allowed versions, repeats and terminates',
     'When the preferred version (newest, or oldest if so configured) of each package never has to be revised, the resolve succeeds with exactly those '
     'versions, and a dependency cycle among them is an error. In strict mode, if one package with requirements on leaf packages has '
     'an older version that fits, the resolve succeeds. The same request always gives the same answer, and every resolve terminates.',
     ['inputs', 'histories'], 'every repository content and request, and every hash seed',
     'preference and termination depend on the whole search; hash-order effects show only on some runs',
     ['crates/rez-next-solver/src/dependency_resolver.rs', 'crates/rez-next-solver/src/resolution_state.rs', 'crates/rez-next-solver/src/solver.rs'],
     [('candidate order', 'crates/rez-next-solver/src/dependency_resolver.rs:filter_and_sort_candidates'), ('backtracking', 'crates/rez-next-solver/src/dependency_resolver.rs:backtrack_dependency_source'),
      ('cycles', 'crates/rez-next-solver/src/resolution_state.rs:detect_cycle')],
     observe='result or error of repeated resolves',
     technique='TLA+ definition of the preferred selection and of solvability (Resolve.tla, model-checked in MCResolve.tla); repeated real resolves validated against it',
     note='Problems up to 9 packages; solvability by exhaustive enumeration in TLC. General completeness of the search is not claimed (DESIGN.md).')

prop('P07', 'Ignored and removed packages stay hidden, whole or gone, across any crash',
     'An ignored version is not offered to anyone until it is unignored; removing a version, or everything ignored for longer than a given time, removes exactly '
     'those payloads and nothing on a read-only repository, and a dry run changes nothing and counts the same. If the process crashes or any single '
     'file operation fails at any point of a removal, a partly removed version stays hidden and repeating the removal completes it.',
     ['histories', 'crash_points', 'fault_sequences'], 'every sequence of operations and every crash or failing system call in it',
     'crash and failure points between the individual file-system calls cannot be sampled by ordinary tests',
     ['crates/rez-next-repository/src/package_repository/filesystem.rs', 'crates/rez-next-repository/src/simple_repository.rs'],
     [('remove', 'crates/rez-next-repository/src/package_repository/filesystem.rs:remove_package'), ('ignore', 'crates/rez-next-repository/src/package_repository/filesystem.rs:ignore_package'),
      ('age', 'crates/rez-next-repository/src/package_repository/filesystem.rs:remove_ignored_since'), ('visibility', 'crates/rez-next-repository/src/simple_repository.rs:scan')],
     state='payload (none, whole, partial) and ignore marker with its age, per version', observe='results of the operations, directory contents and packages offered after each',
     technique='TLA+ life-cycle machine (Lifecycle.tla) with crash and fault actions model-checked with TLC; behaviours it generates are replayed on the real repository under an LD_PRELOAD crash/fault injector and validated',
     note='Two families of two versions; every system call of every operation crashed or failed from six states, plus TLC-simulated histories.')

prop('P09', 'Copying, moving and removing packages touches exactly what was named',
     'Copying a package makes an identical payload at the destination and leaves the source; moving also removes the source, only after the whole copy exists; '
     'removing deletes exactly the named versions; the first repository that has the package is used. An existing destination is replaced only when forced, a package copied or moved onto itself survives, a version left out means '
     'the newest, and names that are not one directory are refused. A crash or a failing file operation at any point never loses the last whole copy, touches no other package, and failure is reported.',
     ['inputs', 'histories', 'crash_points', 'fault_sequences'], 'every sequence of operations over several repositories, every option and every crash or failing system call',
     'the loss windows lie between individual file-system calls, and aliasing between source and destination needs particular arguments',
     ['crates/rez-next-package/src/package_copy.rs', 'crates/rez-next-package/src/package_move.rs', 'crates/rez-next-package/src/package_remove.rs', 'src/cli/commands/cp.rs', 'src/cli/commands/mv.rs', 'src/cli/commands/rm.rs'],
     [('copy', 'crates/rez-next-package/src/package_copy.rs:copy_package'), ('move', 'crates/rez-next-package/src/package_move.rs:move_package'), ('remove', 'crates/rez-next-package/src/package_remove.rs:remove_package'), ('cp', 'src/cli/commands/cp.rs'), ('mv', 'src/cli/commands/mv.rs'), ('rm', 'src/cli/commands/rm.rs')],
     state='payload of every package version in every repository', observe='results of the operations and all repository contents after each',
     technique='TLA+ machine of package stores (Store.tla) with crash and fault actions model-checked with TLC; generated behaviours replayed on the real library and command line under a crash/fault injector and validated',
     note='Two repositories, two versions of one family plus a bystander; every system call of each operation crashed or failed.',
     design='Limits: the command line takes the first repository that holds the version directory, even one that is ignored there, so the same version being ignored in one of several paths is not modelled; an interrupted copy may leave an incomplete destination (the statement does not say otherwise); `PackageRemoveConfig.force = false` is not judged, its documentation being ambiguous.')

prop('P12', 'A context environment is what its packages commands, in order, make of it',
     'The environment of a resolved context is the starting environment changed by each package command (set, unset, prepend, append, set-if-empty, reset, '
     'alias, command, source) in resolve order within the pre, main and post phases, with references to other variables expanded and each '
     'package able to see what came before it. Generating it twice gives the same variables, and the reported difference to the parent environment is '
     'exactly the variables added, changed and removed. A process run in the context (command, batch, script, background process or the rez-next env command) sees exactly that '
     'environment and its exit status is reported; rez-next env prints the same environment.',
     ['inputs', 'histories'], 'every sequence of package commands over every starting environment and every way of running a process in the context',
     'each command acts on the state left by all earlier ones of all packages; tests try single commands',
     ['crates/rez-next-rex/src/executor.rs', 'crates/rez-next-context/src/environment.rs', 'crates/rez-next-context/src/execution.rs', 'src/cli/commands/env.rs'],
     [('commands', 'crates/rez-next-rex/src/executor.rs:RexExecutor'), ('context environment', 'crates/rez-next-context/src/environment.rs:EnvironmentManager'),
      ('processes', 'crates/rez-next-context/src/execution.rs:ContextExecutor'), ('command line', 'src/cli/commands/env.rs')],
     state='variables, aliases, startup commands and sourced scripts after each command', observe='generated environment, its difference to the parent, the environment of spawned processes',
     technique='TLA+ specification of rex commands as transitions on an environment (Env.tla), explored with TLC; its behaviours and random longer ones replayed into the executor, the context and the CLI, and the recorded environments validated against it',
     note='TLC behaviours of bounded length over a small variable and value alphabet plus random longer programs; stop() is judged on being reported, not on the variables left behind.',
     design='Env.tla is the state machine: one transition per rex command on (variables, aliases, startup commands, sources, parent). MCEnv enumerates command sequences; the driver distributes them over one to three packages and the three phases, runs the real EnvironmentManager / RexExecutor / ContextExecutor / rez-next env, and P12.tla folds the same commands over the starting environment and compares. Not claimed: contents after stop(), package names that give invalid variable names, the interactive shell.')

prop('P13', 'Activation scripts reproduce every value literally',
     'A generated activation script, run by the shell it was generated for (bash, zsh, fish, PowerShell, CMD), sets every variable to exactly the value in the environment, '
     'whatever characters the value contains, and expands or executes nothing found in a value; aliases in bash, zsh and fish run exactly the text given.',
     ['inputs'], 'every value text and every supported shell',
     'quoting is right only if it is right for every combination of special characters; tests look for a substring of the script',
     ['crates/rez-next-rex/src/shell.rs', 'crates/rez-next-context/src/shell.rs'],
     [('rex scripts', 'crates/rez-next-rex/src/shell.rs:generate_shell_script'), ('context scripts', 'crates/rez-next-context/src/shell.rs:ShellExecutor')],
     observe='the script text read by a model of each shell; bash scripts also run by the real bash',
     technique='TLA+ readers of the shell quoting languages (Shell.tla) validated with TLC on the text of real generated scripts; values enumerated by TLC',
     note='All texts up to length 3 over the special characters of all shells plus random longer ones and injection payloads; real execution for bash only (other shells are not installed).',
     design='Shell.tla is, per shell, the reader of assignment and alias lines (quotes, escapes, expansion characters); the script text of the real generators is read by it and must give back every value, and any active expansion character outside quotes is a violation. For bash the script is also executed. Not claimed: CMD values with quotes or line breaks, PowerShell and CMD aliases, paths of sourced scripts.')

prop('P06', 'A package.py is read as Python evaluates it, or refused',
     'Reading a package.py gives exactly the fields and the command actions that Python gives when it executes the file (names, versions, lists, numbers, booleans, conditionals, loops, string formatting, command functions), '
     'or an error; no statement, field or action is silently dropped, changed or taken from the branch Python would not take. Files using only the supported statements are read, and reading never panics.',
     ['inputs'], 'every package.py text',
     'the reader is an interpreter: it is right only if it agrees with Python for every combination of statements and expressions; tests sample single files',
     ['crates/rez-next-package/src/python_ast_parser.rs', 'crates/rez-next-package/src/serialization/load.rs'],
     [('module interpreter', 'crates/rez-next-package/src/python_ast_parser.rs:PythonAstParser'), ('file loading', 'crates/rez-next-package/src/serialization/load.rs:PackageSerializer::load_from_file')],
     state='variables and command functions after each statement',
     observe='the Package returned, or the error',
     technique='TLA+ operational semantics of the package.py fragment of Python (Py.tla) with TLC; modules enumerated/sampled by TLC behaviours are written as text, read by the real reader and the outcome validated against the specification; the specification itself is compared with CPython',
     note='All one-statement expressions of depth 2 in the model constants plus sampled modules of up to 6 statements with nested if/for/def and commands; values with quotes or line breaks in command arguments, and command-local variables named like the version fields, are outside the specification.',
     design='Py.tla executes a module over a store of variables and command functions and yields the package or an error, and whether only the supported fragment was used. The harness reads the same module with the real reader. Accepted outcomes: the specified package; or an error when Python fails or the fragment was left. The oracle is itself checked on every run by executing the generated modules with CPython (a difference there is a tool error, not a violation). Not specified: command arguments with quotes or line breaks (the Rex text form cannot carry them and activation reports them), a command-local variable called version, named format fields that are left to Rex.')

prop('P08', 'Saved packages and contexts load back as they were saved',
     'Saving a package definition as YAML, JSON (plain or gzip-compressed), TOML or binary, with any of the serialization options, and loading the file gives back every field the format and the options carry, whatever the texts contain and whatever the file held before; '
     'package.py saving does so for name, version, description, authors, requires, build_requires, variants and tools. Saving and loading a resolved context (.rxt, .rxtb) gives back the whole context. A cut JSON, compressed or context file is refused.',
     ['inputs', 'histories'], 'every package and context, every format and option, every history of saves',
     'losing or altering a field depends on the text, the format, the options and the previous file; tests round-trip a few simple packages',
     ['crates/rez-next-package/src/serialization/save.rs', 'crates/rez-next-package/src/serialization/load.rs', 'crates/rez-next-package/src/package/serialize.rs', 'crates/rez-next-context/src/serialization.rs'],
     [('package files', 'crates/rez-next-package/src/serialization/mod.rs:PackageSerializer'), ('serde form', 'crates/rez-next-package/src/package/serialize.rs:impl Serialize for Package'), ('context files', 'crates/rez-next-context/src/serialization.rs:ContextSerializer')],
     state='the document each file holds', observe='fields of the loaded package or context, or the error',
     technique='TLA+ specification of documents in files (Doc.tla) with TLC; save/cut/delete histories enumerated by TLC are executed with the real serializers and every load is validated against the specification state',
     note='All histories of two operations on two files over seven formats (three in thorough, sampled), every field alone in every format, about 65 difficult texts in every kind of field, random packages and contexts. Not carried by design: config, filepath, is_dev_package, commands_function; XML and to_package_py are not claimed.',
     design='Doc.tla holds per path the document the last save left (the fields the format and options carry) or that the file is damaged; loading must return exactly it. XML saving is a documented simplification (name, version, description, unescaped) and to_package_py writes lower-case booleans and placeholder tests that existing tests pin, so neither is claimed. A cut YAML, TOML or package.py file cannot be told from a whole one and is left unspecified.')

prop('P10', 'Repository queries answer exactly what is on disk, newest first',
     'Listing, finding and getting packages through repositories gives exactly the packages that lie on disk and are not hidden by an .ignore marker: all of a family, from every repository, newest version first, unversioned last, ties in the order of the search path; the latest is the newest '
     'of all repositories, and a given version comes from the first repository that has it. A definition that cannot be loaded makes every query for its family fail. The answer depends on the disk alone, not on earlier or simultaneous queries.',
     ['inputs', 'histories', 'schedules'], 'every content of every set of repositories, every history of changes, every order and overlap of queries',
     'which packages are seen depends on the combination of layouts, markers, broken files, version order and cache state; tests use one or two well-formed packages',
     ['crates/rez-next-repository/src/simple_repository.rs', 'crates/rez-next-repository/src/filesystem.rs'],
     [('queries', 'crates/rez-next-repository/src/simple_repository.rs:RepositoryManager'), ('scan', 'crates/rez-next-repository/src/simple_repository.rs:SimpleRepository'), ('initialised repository', 'crates/rez-next-repository/src/filesystem.rs:FileSystemRepository')],
     state='package definitions, their order on the search path, and ignore markers', observe='results of list, find and get, asked one after another and at the same time',
     technique='TLA+ machine of repositories on disk (Catalog.tla) model-checked with TLC; put/break/drop/hide/show histories generated by TLC are carried out on a real directory tree and the answers of the real repositories validated against the specification state',
     note='Two or three repositories, four families, three versions each plus unversioned packages; queries one after another and from many tasks at once. Versions that differ only by trailing zeros (known finding of P01) are kept out of one family.',
     design='Catalog.tla says which definitions are visible (markers, a definition in the family directory hiding the versions below) and what each query answers. Every query step uses a new manager, on which several queries run in a random order or concurrently. A FileSystemRepository passes over definitions it cannot load (it only logs them), so only the visible loaded packages are compared there.')

prop('P11', 'Search and reverse dependencies find every match and nothing else',
     'rez-next search returns exactly the visible packages whose name (and, as asked or by default, description, tools, requirements) contains the query or matches the pattern, honouring case, type, variant, date, latest-only and limit options, in the order asked for and with the documented scores; '
     'a query, pattern or date it cannot understand is refused. depends and the reverse dependency tree list exactly the packages that require the given one, directly or through others, each once at its shortest distance, within the depth and requirement kinds asked for; plugins are the families whose newest package names the given one.',
     ['inputs'], 'every repository content and every combination of options',
     'filters, scores, sorting and limits interact, and distances depend on the whole requirement graph including cycles; tests look at single options on one package',
     ['src/cli/commands/search_v2', 'src/cli/commands/depends.rs', 'crates/rez-next-repository/src/package_search.rs'],
     [('search', 'src/cli/commands/search_v2/filter.rs:perform_search'), ('matching', 'src/cli/commands/search_v2/matcher.rs:evaluate_package_match'), ('depends', 'src/cli/commands/depends.rs:build_reverse_dependency_tree'), ('tree', 'crates/rez-next-repository/src/package_search.rs:get_reverse_dependency_tree'), ('plugins', 'crates/rez-next-repository/src/package_search.rs:get_plugins')],
     observe='output of the real command line program and of the library functions',
     technique='TLA+ specification of search, scores and requirement distances (Catalog.tla) checked with TLC over all graphs of up to four families; real command line and library answers over generated repositories validated against it',
     note='All requirement graphs over 3 (thorough 4) families in the model; random repositories with up to 3 paths, random option combinations; patterns of literals, any, digit classes, anchors and alternatives.',
     design='Search is specified as a filter, score and order over the visible packages; Levels is breadth-first distance and is checked against an independent definition of distance. The table and detailed output forms are only checked for success. depends may refuse to answer when some definition cannot be loaded.')

prop('P14', 'Every setting comes from the strongest source that gives it',
     'The main configuration is the first readable file of the search order (REZ_CONFIG_FILE list, then the home files unless disabled) over the defaults, with REZ_PACKAGES_PATH, REZ_LOCAL_PACKAGES_PATH and REZ_RELEASE_PACKAGES_PATH over both; files that are missing or cannot be understood are passed over, fields left out have their defaults, '
     'and rez-next config shows exactly that, as a whole, field by field and in its lists of files, refusing unknown fields. The layered configuration merges user, project and environment table by table, the later one winning and nothing else changing; a layer that cannot be read is an error. '
     'Commands look for packages in exactly the configured places, ~ meaning the home directory and missing places being passed over.',
     ['inputs'], 'every combination of files, their contents and formats, and environment variables',
     'precedence, partial files and nested overrides combine; tests set one variable or parse one file',
     ['crates/rez-next-common/src/config.rs', 'crates/rez-next-config/src/lib.rs', 'src/cli/commands/config.rs'],
     [('main configuration', 'crates/rez-next-common/src/config.rs:RezCoreConfig::load'), ('search order', 'crates/rez-next-common/src/config.rs:RezCoreConfig::get_search_paths'), ('layers', 'crates/rez-next-config/src/lib.rs:Config::load'), ('overrides', 'crates/rez-next-config/src/lib.rs:set_nested_value'), ('config command', 'src/cli/commands/config.rs:execute')],
     observe='output of rez-next config, search, view, solve, complete and depends, and Config::load in a fresh process',
     technique='TLA+ specification of trees, merging, replacing and search order (Config.tla) whose laws TLC checks over all pairs of small trees; the trees TLC generates are written as TOML layers, YAML/JSON files and environment variables for real processes, whose configuration is validated against the specification',
     note='Trees of depth 3 over two keys in the model, further keys and values in the generated files; system-wide files (/etc) and the file beside the executable are not touched.',
     design='A configuration tree is the set of its leaves. Merge, Replace and Overrides are pure operators with laws (later wins, nothing invented, the rest untouched, idempotence) checked by TLC on all 14641 pairs of trees. Each recorded run is one process with its own HOME, XDG_CONFIG_HOME, working directory and environment; files take every TOML form (inline, dotted, sections), YAML and JSON, and can be broken, unreadable, directories or not Unicode. The where steps place one version of a package in each of four places and compare what several commands find.')

prop('P15', 'A cached package payload is whole, under every crash and race',
     'A path that the package payload cache hands out leads to the whole payload of exactly that variant (name, version, index and attributes), with the contents it was added with. Whatever process crashes, meets a failing disk or runs at the same time, at any point, every entry is afterwards whole, absent, or marked as incomplete, and results are those of some order of the operations. '
     'An entry stays until it is removed or cleaning finds it unused for longer than the limit, cleaning removes stalled copies but never one whose process lives, and neither the size limit nor entries of other variants are ever violated.',
     ['crash_points', 'schedules', 'histories'], 'every history of add, get, remove and clean by several processes, each stopped, failed or crashed at any call',
     'the cache is shared by processes that know nothing of each other; tests call one method after another in one process',
     ['crates/rez-next-package/src/package_cache.rs'],
     [('lookup', 'crates/rez-next-package/src/package_cache.rs:PackageCache::get_cached_root'), ('adding', 'crates/rez-next-package/src/package_cache.rs:PackageCache::add_variant'), ('removing', 'crates/rez-next-package/src/package_cache.rs:PackageCache::remove_variant'), ('cleaning', 'crates/rez-next-package/src/package_cache.rs:PackageCache::clean'), ('identity', 'crates/rez-next-package/src/package_cache.rs:VariantHandle::sha1_hash')],
     observe='results of the operations, each in its own process, and list_cached plus the bytes of every payload after each',
     technique='two TLA+ models: the cache as users see it, with every mixture of two processes and every interrupted operation (PCache.tla), and the steps on disk with lock, flag, metadata and payload (PProto.tla), both checked by TLC; histories that TLC generates run as real processes that are stopped, crashed or failed at chosen calls, and every recorded history is validated against the specification',
     note='Two processes at once, up to four variants, one stop, crash or fault per operation; the clock is put forward by changing recorded times.',
     design='PProto models the protocol on disk (lock, copying flag held by the copier, metadata last in and first out, renaming away) for three processes with crashes at every step; its invariant is that a lookup finds only whole payloads. PCache is what users see: per variant none, copy or have. Mixes gives every interleaving of two operations (adding has two phases, cleaning takes the entries one by one), Cut every remainder of an interrupted one. The harness stops the first process at its n-th changing call (SIGSTOP), runs the others, lets it go on, and records results and contents; remains of other programs are left in the directories, and hash prefixes are made to collide.')

prop('P16', 'A suite is what its edits made it, and its tools follow from its contexts',
     'After any history of creating, adding and removing contexts, aliasing and hiding tools, through the library or the command line, a suite on disk holds exactly the contexts, in order, with the requests, prefix, priority, aliases and hidden tools those edits gave it; an edit that is refused (existing suite, unknown or duplicate context, bad name or mode, unreadable file) or interrupted leaves every suite as it was or as intended, and readers never see anything else. '
     'The tools a suite exposes follow from its contents alone: every alias of an enabled context whose tool is not hidden, under its context prefix, where of several contexts the one of highest priority has the name and between equals the conflict mode decides (error, first, last, or renaming to context_name), and no tool silently takes the place of another. '
     'Listing finds every suite in the search paths, and a name leads to the first one.',
     ['histories', 'inputs', 'crash_points'], 'every history of edits, every text in them, every point where an edit is cut off or read meanwhile',
     'tool tables depend on combinations of prefixes, priorities, hidden tools and modes, and saved suites on every text and interruption; tests build two contexts and look at one alias',
     ['crates/rez-next-suites/src/suite.rs', 'crates/rez-next-suites/src/suite_context.rs', 'crates/rez-next-suites/src/suite_manager.rs', 'src/cli/commands/suites.rs'],
     [('tool table', 'crates/rez-next-suites/src/suite.rs:Suite::get_tools'), ('edits', 'crates/rez-next-suites/src/suite.rs:Suite::add_context'), ('saving', 'crates/rez-next-suites/src/suite.rs:Suite::save'), ('loading', 'crates/rez-next-suites/src/suite.rs:Suite::load'), ('search', 'crates/rez-next-suites/src/suite_manager.rs:SuiteManager::load_suite'), ('commands', 'src/cli/commands/suites.rs:execute')],
     observe='result of every edit, each in its own process; after each the suites loaded from all places, their tool tables, and what the manager and the command line list',
     technique='TLA+ specification of suites, edits and tool tables (Suite.tla) whose invariants TLC checks over all suites that short histories reach; histories that TLC generates are run as real edits, some crashed, failed or stopped in the middle, and every recorded history is validated against the specification',
     note='Up to 4 contexts and 3 places; the model check has up to 3 contexts over two aliases, two prefixes and two priorities; two writers of one suite at the same time are not claimed.',
     design='A suite is a sequence of contexts; Edit is one command, Tools the table or a conflict. TLC checks on every reachable suite that the table is sound (a name leads to one visible tool of an enabled context), complete (every offered name is exposed, in prefix mode every tool), and ranked (different priorities never conflict). The harness runs each edit in its own process with names, requests, descriptions and tools that YAML could misread; an edit is crashed or failed at every changing call, or stopped there while the suites are read; suite files are spoiled by hand. Not claimed: tools that packages provide without an alias (get_tools does not resolve contexts), simultaneous writers.')

def out():
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['state']: a['state'] = [{'name': p['state']}]
            if p['observe']: a['observe_at'] = [p['observe']]
            a['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    na = {n['property'] for n in NA}
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'hooks': {'guard': 'none', 'enable': 'none needed: no hook was added to the code', 'source_commits': []},
         'checks': [{'property': p['id'], 'quick_cmd': f"./check {p['id']} quick", 'thorough_cmd': f"./check {p['id']} thorough",
                     'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in P if p['id'] not in na],
         'not_applicable': NA,
         'notes': 'TLA+ specifications in spec/, checked with TLC; harness/ runs the real code; lib/ drives both. See DESIGN.md.'}
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
def design():
    t = open(f'{V}/tools/DESIGN.in.md').read()
    ps = ['## Properties', '']
    for p in P:
        ps += [f"### {p['id']} {p['title']}", '', f"Decided by: {p['technique']}.", '', f"Bounds: {p['note']}", '', f"Why tests cannot settle it: {p['why']}.", '']
        if p['design']: ps += [p['design'], '']
    for n in NA: ps += [f"### {n['property']} (not claimed)", '', n['reason'], '']
    rf = f'{V}/tools/seedresults.json'
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    ss = ['| change | property | what it breaks | needs | result |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(f'{V}/seeded')) if os.path.isdir(f'{V}/seeded') else []:
        m = json.load(open(f'{V}/seeded/{d}/meta.json'))
        ss.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |")
    open(f'{V}/DESIGN.md', 'w').write(t.replace('@@PROPS@@', '\n'.join(ps)).replace('@@SEEDS@@', '\n'.join(ss)))
if __name__ == '__main__':
    design()
    out()
