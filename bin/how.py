HOW = {
"C04": "Types and values are built by reflection (all kinds, named, embedded and unexported fields, nil everywhere, lengths around the 1024 limit, edge numbers, NaN), captured in a state message by the real encoder and decoded by the real decoder from whole, one-byte and data-with-EOF readers. Oracle: an independent model of the decoded tree, compared bit for bit with names, types and order; map entries as a set. A second relation: two values of one type decode alike exactly when the model says they are equal within the limits. Bounds: type depth 4, about 60 nodes. Left open: references met twice within one variable (cycle markers), zero-size pointees (Go gives them one address).",
"C05": "Each decoder gets arbitrary bytes, mutated valid messages (bit flips, cuts, substituted numbers and tags), lying counts and lengths in every position and containers nested up to six million levels. Oracle: returns (no panic, no death of the process, whose address space is capped at 12 GB) and allocates at most 4 MB + 4 KB per received byte; every strict prefix of a valid message is rejected; over the HTTP handlers, sequences of good and bad requests give an error status and no effect for the bad ones and exactly one handling each, in order, for the good ones.",
"C06": "Random object graphs whose references reuse earlier objects (cycles, sharing, self reference through every kind), shapes chosen to defeat a missing bound (sharing ladders with 2^60 paths, chains of 20000, self-containing maps, slices, interfaces), and maps beyond the entry limit with keys that differ only in some parts. Oracles: returns; decodes; depth, element count and string limits hold; the number of decoded fields is linear in the number of objects; the value is unchanged (canonical dump before and after, including capacity beyond length); re-encoding and encoding an independently rebuilt equal graph (other addresses, other insertion order) give the same content.",
"C07": "Results are generated from a small alphabet so that equal, nearly equal and shifted subtrees are common; round trip through MarshalMsgpack/UnmarshalMsgpack (and the compressors), with a canonical form as the oracle; field tree identities are compared pairwise with canonical forms, on trees and on minimal perturbations of them.",
"C08": "Sets of runs are made by perturbing a base result (missing, extra, reordered, differing frames and fields, panics, failure); the stable result is compared with an independently written model; permuted construction orders must give the same outcome.",
"C09": "Pairs of stored result sets are made by perturbing a base; the comparison's counts, field changes, regressions, panics and time changes are compared with an independent model; metamorphic: identical sides give no difference, swapping sides mirrors the differences.",
"C10": "Random histories of save, load, delete, list, clear on memory, on-disk and nested prefixed storages against a map, with sizes around the split boundary, values that look like internal markers, overlapping prefixes; concurrent histories with one writer per key.",
"C17": "Batches of state, point and panic messages with unique tokens, with known ids, ids of another kind and unknown ids, are delivered by up to 8 goroutines directly to the collector, and by the real client over HTTP to the real server whose collector is exchanged between rounds. Oracle: completes; per function exactly the sent multiset with own values, stack and time, in each goroutine's order; panics likewise; reached changed functions counted once. Sequential histories against baseline results are compared with a model of the stable-field filter. Schedules are sampled; the thorough tier runs under the race detector.",
"C12": "Pairs of texts over a small line alphabet (edited copies or unrelated), and pairs of pairwise different lines with known edits. Oracles: one mark per line; the unmarked lines of both sides are the same sequence; no marks for identical texts; with known edits the marks are exactly the edited lines; a radius adds exactly the lines around pure insertions.",
"C18": "Random trees (odd names, links to files, directories, outside and nowhere, unreadable entries, obstacles at the destination) are copied with CopyDir/CopyFile and walked; random path pairs for containment against a lexical model; replaceFile with missing, linked and blocked targets; the whole engine with a temporary copy over random GOPATH/GOMODCACHE layouts, with a first stage that scribbles over everything it was given. Oracle: tree snapshots (source unchanged, copy equal, nothing left behind, error whenever the copy is incomplete, no writes after the return). Modes are not compared (copies use default modes). All in scratch directories.",
"C20": "Random analysis outcomes go through PrepareReportData, BuildReportMap and WriteToFile; the file read back is compared with an independently written summary, and permuted outcomes must give the same bytes. Charts are rendered for arbitrary stored reports. The engine is run with stand-in stages returning random outcomes, early ends and failures: the report must be exactly that of the facts handed over, and absent after a failure.",
"C22": "Write sequences to limited buffers, tee writers (nil, failing, closing writers), line limits, concurrent locked buffers, limiting wait groups, striped locks, content keys and environments, each against a few-line model. Schedules are sampled.",
"C23": "Stacks mixing project, vendored, sibling-directory, standard library and module cache frames are captured for two layouts of the same project; the kept frames must be those of an independent classifier and have the same identity in both layouts; edited copies must differ in identity exactly if their files or functions differ in order.",
"C11": "Modules of up to four packages (functions, methods on plain and generic receivers, test files, ignored files, nested modules) are generated with a second version made by known edits (statements, literals including white space in strings, signatures, removal, addition, moves between files and packages) and independent comments and layout, and laid out in a scratch module cache. Oracle: the generator's own token sequences decide which functions changed; identity, file, entry line, return lines, definition and line marks are compared with an independent parse of the old files. Transitive runs: five modules requiring versions of each other and a project, against a level-by-level model. Modules without a go.mod file, init functions and changes of a receiver's type are outside the generated space.",
"C16": "Random requirement sets rendered as go.mod in varied syntax (blocks, quotes, comments, excludes), workspaces with plain, wildcard, glob and absolute uses, and pairs of them. Oracle: set difference over the generated requirements; highest/lowest version by semantic versioning; repeated calls give the same order.",
"C01": "Whole programs of up to 14 functions are generated from a grammar (if chains, all loops, switches, type switches, select, labels, goto, closures, defer/recover, deferred result changes, panics, recursion, local constants, named/blank/variadic parameters and results, value/pointer/generic receivers, generics, shadowed type, package and builtin names, comments and compiler directives, files with and without type information, functions in test files). A random subset of return, panic, entry and exit points is added in random order with commits in between. Oracle: the instrumented package compiles, and its output (results with types, panics, every traced side effect in order) equals that of the original. Left out: names that hide panic, recover or nil themselves; evaluation orders Go leaves open.",
"C02": "The same programs, with all kinds of points on all functions, against a reference build in which the generator, which knows every scope and type, sends the messages itself; both are received by the real server. Oracle: per kind of message the two sequences agree: same function, each visible variable under its name with its value, each result under ret/rec or its identifier with its value, no name twice, nothing that was not visible, same panic texts. The receiver and constants may be absent.",
"C03": "Trees of packages (methods, generics, bodiless functions, test files, build tags, CRLF, links to files and directories, several spellings of a path, modes, existing .bkp files, directories and links, unparsable and mixed packages) get random histories of client injections, all kinds of points, line insertions, commits and failing operations, sequential and in concurrent batches, in up to three rounds with edits of the project in between. Oracle: after each restore the tree equals the snapshot (bytes, modes, links, set of files), restore reports no error, and a later commit brings nothing back. A second test runs the module update itself against a scratch proxy without tests to execute, with failing downloads, tidy, extensions and injections, on modules and workspaces with and without sums: project and module cache must be as before.",
"C15": "Files of up to four functions with literals and comments spanning lines before and after code, line directives, random layout, CRLF, one-line functions; random sets of marked lines, texts and stop points, one function after the other, repeatedly and concurrently. Oracle by counting newlines and scanning tokens: exactly the marked lines are preceded by exactly the text, nothing else changes, tokens are the same, the inserted lines are comments of their own, every line with code is offered once in order with its index and text.",
"C13": "Projects of up to 60 functions (plain, methods on value, pointer and generic receivers, generics; in five packages, as one module or a workspace, plus a dependency) with a generated call graph using about thirty ways to call (direct, values in variables, fields, maps, channels and slices, method values and expressions, promotion, interfaces, constraints, closures, defer, go, callbacks through the dependency, methods named init or main) and line directives. All parameter types and method names are unique, so calls by type lead only where the generator put them. Oracle: backward reachability over the generated edges for random sets of changed functions; exact caller sets, changed functions per caller, files, entry lines, return points. Methods of generic types the project itself never instantiates are a known finding.",
"C14": "The same projects with internal and external test packages: tests, subtests as literals, tables and functions, cleanups, test helpers of all kinds, suite methods named like tests, functions named almost like tests or outside test files, benchmarks, examples, fuzz tests, TestMain. Oracle: backward reachability over the generated edges; what the standard library may call by type is allowed but not required.",
"C19": "Random combinations of all flags in all spellings and orders with custom flags, GOPATH and GOMODCACHE, and configurations built directly, each value valid, at a bound or invalid, in a scratch directory with existing reports, directories in place of reports and files in place of directories. Oracle: a reference validator and the documented defaults; accepted configurations must write their report; refused ones are corrected and prepared again; existing files stay as they are. Lack of permission cannot be tried as root.",
"C24": "Old and new versions of modules with functions of colliding names (methods, prefixes of each other), known edits per line, comments, multi-line literals and several statements per line are generated in a scratch module cache and analyzed by AnalyzeModuleChanges. RunMutationTesting then runs with stand-ins for go-mutesting and go, which record arguments, working directory and the sources they see, and play generated outcomes (tests pass, fail, time out, build or setup failures, odd exit codes, failing tool, no summary, no tool). Oracle: counts from the planned outcomes; name filter, file list, package patterns and test patterns against the generated model; which lines are excluded against the generator's record of edits; snapshots of module cache, project and temporary directory with modes. The exit protocol is that of avito-tech/go-mutesting (0 detected, 1 alive, 2 skipped), which is not installed here.",
"C25": "Two versions of a module (and of a module it requires) with up to 12 functions are generated and served from a proxy on the file system: result kinds (numbers, strings, slices, maps, structures, pointers, errors) times changes (none, text only, every value, values above a bound, new panic) times place (itself, internal package, required module). The project (one module or a workspace) calls them from a dozen shapes of functions (early returns, loops, closures, goroutines, methods, generics, pointer parameters, error wrapping, recovered panics, chains of callers, varying local values) with known tests (plain, tables, subtests, helpers, asserting, failing). AnalysisEngine.Run runs with the real stages, wrapped only to record what they return; targets by -module, -modules or -gomod, with and without the temporary copy. Oracle: an evaluator which computes each variable of each call for both versions. Left open: a variable that changes between nil and a structured value is only counted as a difference; calls of function values are judged by types, so tests that use the testing package's calls may be selected in addition. go clean -cache is replaced by a start from a cache with only the standard library, to save its compilation.",
}
