PBT = "property-based testing (rapid): "
prop("C01", "Instrumented code compiles and behaves exactly like the original",
 "For any Go function, adding the return-state, panic, entry and exit monitoring points to it (in any combination and to any number of functions of the package) yields a package that still compiles. Every call of an instrumented function returns the same results, panics with the same value, and performs the same side effects in the same order as in the original code.",
 ["programs", "inputs"], "all Go functions (statement forms, result shapes, shadowing, generics, closures, defers) and all calls of them",
 "The tests inject into a few dozen fixed functions and mostly compare the rewritten text; the behaviour of the rewritten code over arbitrary statement shapes is never executed and compared.",
 ["lens/asttweak.go", "lens/astclient.go"],
 [("ASTModifier.InjectFuncPointReturnStates / makeReturnTemp", "lens/asttweak.go"), ("ASTModifier.InjectFuncPointPanic/Entry/Finish", "lens/asttweak.go"), ("InjectASTClient", "lens/asttweak.go")],
 PBT + "generated Go programs, differential execution original vs instrumented",
 "Generated programs from a grammar of statement forms and result shapes; both versions are compiled and executed and their traces compared. Trusts the Go toolchain.")
prop("C02", "Every return taken is captured exactly once, with the true values",
 "When an instrumented function runs, each return it actually takes (an explicit return anywhere in its body, or falling off its end) sends exactly one state message, identifying a point of that function and carrying the values its parameters, visible locals and results had at that moment. A function left by a panic sends a panic message instead, and paths not taken send nothing.",
 ["programs", "inputs"], "all Go functions and all execution paths through them",
 "Existing tests look at the inserted text of fixed snippets; whether every return path reports, once, with the right values, depends on control flow they never execute.",
 ["lens/asttweak.go", "lens/astclient.go", "lens/astsrv.go"],
 [("rewriteBlock / visibleDeclsBefore / makeSnapshotLit", "lens/asttweak.go"), ("SendLensPointStateMessage", "lens/astclient.go")],
 PBT + "generated Go programs with self-tracing, messages compared with the program's own trace",
 "Each generated function records at each return what it is about to return and its variables; messages decoded from the real client are matched one to one. Trusts the Go toolchain.")
prop("C03", "Restoring puts the source tree back byte for byte",
 "After any sequence of injections, line insertions and commits over any set of source files, restoring leaves every file and directory of the project and of the modified modules exactly as before the first injection: same bytes, no added and no missing files. Restoring again, or starting a new round of injection afterwards, behaves the same.",
 ["histories", "fault_sequences"], "all sequences of injection, commit and restore operations over any files, sequential or concurrent",
 "Tests restore after one or two fixed edits; the guarantee is about arbitrary interleavings of edits, repeated commits, failed edits and repeated restores.",
 ["lens/asttweak.go", "lens/file.go"],
 [("backupOrigFile, Restore, addCleanupAction", "lens/asttweak.go"), ("replaceFile", "lens/file.go")],
 PBT + "stateful operation sequences against a snapshot of the tree",
 "Random operation histories, with concurrent batches, over generated trees; the tree is compared byte for byte with the snapshot.")
prop("C04", "Values captured in the monitored process decode to the same values",
 "Any message the injected client encodes (point, state with fields of any Go type, panic, error) is decoded by the analyzer to the same point id, time, stack, field names in order, and a faithful tree of the values: every scalar, string, byte and element value, map entry and struct field within the capture limits appears under its own name with its exact value and type (a reference met a second time within one captured variable may be given as a cycle marker instead). Distinct values of one type within the limits never decode to the same result.",
 ["inputs"], "all Go values and messages",
 "Round-trip tests use a fixed table of values; the encoding has separate paths per kind, width, sign, length and nesting that only generated values cover.",
 ["lens/astclient.go", "lens/astsrv.go"],
 [("lensEncodeMessage*, lensMsgEncoder.streamField", "lens/astclient.go"), ("newLensReader, readField, readValue, decodeMessage*", "lens/astsrv.go")],
 PBT + "encode/decode round trip against a reflect-based reference model",
 "Random reflect-built types and values, compared with an independent model of the decoded tree.")
prop("C05", "Malformed monitor messages are rejected without harm",
 "For any bytes whatsoever received as a monitor message, the analyzer either decodes a message or returns an error; it never panics, hangs, or allocates memory out of proportion to the bytes received. Every strict prefix of a valid message is rejected rather than decoded to something else, and a rejected message never disturbs the handling of later ones.",
 ["inputs", "fault_sequences"], "all byte strings, truncations and corruptions of valid messages",
 "Tests feed a few hand-truncated messages; the guarantee is about every byte string.",
 ["lens/astsrv.go"],
 [("lensReader with limit checks", "lens/astsrv.go"), ("HTTP handlers", "lens/astsrv.go")],
 PBT + "structure-aware mutation fuzzing of encoded messages, in process and over HTTP",
 "Random bytes, mutations and truncations of generated valid messages; allocation is measured per decode.")
prop("C06", "Capturing any value terminates, stays bounded and is deterministic",
 "Encoding any Go value, including cyclic, self-referential, very deep, very wide and nil-filled ones, terminates without panicking and yields a message bounded by the capture limits on depth, element count and string size, with truncation of strings at the documented size. Equal values always encode to the same content, whatever the map insertion order or pointer addresses (the order of the entries of a map, and which of several map entries sharing one reference is labelled as the cycle, are left open), and encoding never modifies the value.",
 ["inputs"], "all Go value graphs",
 "Tests cover one cycle and one long slice; termination and boundedness are claims about all object graphs.",
 ["lens/astclient.go"],
 [("streamField visited set, maxRecurse, maxLen", "lens/astclient.go"), ("limitLensMonitorStringSize", "lens/astclient.go"), ("lensCompareReflectValue map key order", "lens/astclient.go")],
 PBT + "random value graphs with cycles and sharing; termination, size bound, determinism oracles",
 "Random object graphs; each is encoded repeatedly from independently built equal copies.")
prop("C07", "Stored test results load back unchanged",
 "Serializing any test result and loading it back yields the same result: the same callers, call frames in order, field trees, stacks, times, panics and extension frames, regardless of how values repeat inside it. Two results or field trees with different content never serialize to, or are identified as, the same thing, and compressed data always decompresses to the original.",
 ["inputs"], "all test results, in particular those with many partly equal subtrees",
 "The encoding de-duplicates by content hash; only generated near-duplicate trees reveal two different values sharing an identity.",
 ["lens/types.go", "lens/compress.go", "lens/util.go"],
 [("TestResult.MarshalMsgpack/UnmarshalMsgpack dictionaries", "lens/types.go"), ("FieldValue(s).ID", "lens/types.go"), ("Zstd/Snappy", "lens/compress.go")],
 PBT + "round trip and identity-injectivity on generated near-duplicate trees",
 "Random results drawn from a small alphabet so that equal and nearly equal subtrees are common.")
prop("C08", "A field is compared only if it was stable across all baseline runs",
 "Given the recorded results of repeated runs of one test, the stable result contains a caller's call frame and field exactly when it occurred in every run with the same value in the same call (the k-th call with the same project call path), and nothing else is invented, dropped or altered. Panics are kept as often as they occurred in both runs, and a failure in either run makes the result a failure. The outcome does not depend on map iteration order.",
 ["inputs", "histories"], "all sets of repeated run results",
 "Tests give two or three fixed runs; the rule must hold for every combination of missing, extra, reordered and differing frames and fields.",
 ["lens/astexec.go"],
 [("testResultStableFields, stableFieldValues", "lens/astexec.go")],
 PBT + "generated sets of runs against a reference model",
 "Random run sets built by perturbing a base result; compared with an independently written model.")
prop("C09", "The comparison reports exactly the differences between the runs",
 "Comparing the stored results of the tests before and after an update reports a field change for exactly those caller fields whose stable values differ or which are missing on one side, counts every compared field as either same or different, and reports the most significant change in time per caller, for the tests that have results on both sides. A test that passed before and fails after, and panics that appear only after, are reported as regressions, and identical results yield no difference at all.",
 ["inputs", "histories"], "all pairs of stored results for any set of tests and callers",
 "Existing tests compare small fixed pairs; reporting exactly the differences is a claim about every pair.",
 ["lens/engine.go"],
 [("CompareTestResults, DiffValues", "lens/engine.go")],
 PBT + "generated result pairs against a reference comparison model, plus metamorphic relations",
 "Random pairs produced by perturbing a base; compared with an independently written model.")
prop("C10", "Every storage backend behaves like a map of keys to values",
 "For any sequence of saves, loads, deletes, listings and clears with any keys (non-empty, outside the storage's own reserved prefixes) and values of any size, each storage (in-memory, on-disk, and any nesting of prefixed views) answers exactly like a map: the last saved value is loaded unchanged, deleted keys are gone, and listings contain exactly the live keys with the prefix. Views with different prefixes over one storage never see or affect each other's keys, and concurrent use of different keys behaves like some sequential order.",
 ["histories", "inputs", "schedules"], "all operation histories, keys, value sizes, and concurrent use",
 "Tests run short fixed sequences; splitting of large values, overwrites with a different size, and prefix isolation fail only on particular histories.",
 ["lens/storage.go"],
 [("badger value splitting", "lens/storage.go"), ("KeyPrefixStorage", "lens/storage.go")],
 PBT + "stateful model-based testing of all backends against a map",
 "Random histories with sizes around the split boundaries, overlapping prefixes; concurrent histories on disjoint keys.")
prop("C11", "Module change analysis finds exactly the changed functions",
 "For any old and new version of a module in the module cache, the analysis reports every function or method of both versions (same package, receiver and name) whose code differs between them, and none that differs only in comments or formatting, each with its old identity and definition. Dependency updates the new version brings to the project are followed likewise. The result does not depend on how often or in which order the modules are listed.",
 ["programs", "inputs"], "all pairs of module versions and all lists of module changes",
 "Tests use a few fixed published modules; the set of changed functions must be exact for every edit of every module.",
 ["lens/module.go", "lens/static.go"],
 [("AnalyzeModuleChanges, extractFunctions", "lens/module.go"), ("FindModulePathInCache", "lens/module.go")],
 PBT + "generated module version pairs in a scratch module cache with known edit sets",
 "Generated multi-package modules with a known set of edits between versions.")
prop("C12", "Changed-line marks cover exactly the lines that changed",
 "For any old and new text of a function, the change marks have one entry per line of the marked text, and taking the unmarked lines (with no widening radius) of both texts gives the same sequence of lines, so no changed line is ever unmarked. A widening radius additionally marks exactly the lines within that distance of a place where lines were only inserted, and identical texts have no marks.",
 ["inputs"], "all pairs of texts and radii",
 "Tests check a handful of pairs; an unmarked changed line would only show on particular alignments.",
 ["lens/module.go"],
 [("computeChangeLineBitmap", "lens/module.go")],
 PBT + "random line-edit pairs against validity predicates",
 "Random texts over a small line alphabet; validity predicates, not one expected diff.")
prop("C13", "Every project function that can reach a changed function is found",
 "For any project, every project function from which a changed module function can be called, directly or through any chain of calls, methods, interfaces, function values, closures and other packages, is reported as a caller of that changed function, and no function without any such chain is (where a call through an interface or function value may lead is judged by types). Excepted are main and init functions and files of generated code, which are never reported. Each caller is reported once, with the right file, entry line and return points, also if the file has line directives.",
 ["programs"], "all projects and all sets of changed functions",
 "Tests use a few fixed projects; reachability has to hold for every call graph shape.",
 ["lens/static.go"],
 [("CallerStaticAnalysis, reverseDFS", "lens/static.go"), ("LoadProjectCallGraph", "lens/static.go")],
 PBT + "generated projects with known call graphs against a reachability oracle",
 "Generated call graphs with several call mechanisms; must-reach and cannot-reach sets come from the generator.")
prop("C14", "Every test that exercises a relevant function is selected, and only those",
 "For any project and set of relevant project functions, the tests selected are exactly the test functions from which one of them can be reached (other than through another test function; where a call through an interface or function value may lead is judged by types), each selected once and linked to all of the relevant functions it reaches. Benchmarks, examples, helpers and non-test functions with similar names are never selected as tests.",
 ["programs"], "all projects, test layouts and target sets",
 "Tests use fixed projects with a few tests; selection has to be exact for every call graph.",
 ["lens/static.go"],
 [("TestStaticAnalysis, isGoTestFunction", "lens/static.go")],
 PBT + "generated projects and tests with known call graphs against a reachability oracle",
 "Generated projects with internal and external test packages, helpers, subtests and shared fixtures.")
prop("C15", "Inserting lines into a function changes nothing but those lines",
 "Inserting a directive line for marked lines of a function only ever adds whole lines consisting of that text: removing them gives back the original file byte for byte, the code means the same, every line is inserted inside the named function, and none lands inside a string literal or comment. Each marked line of code (one that does not start inside a literal or comment) is preceded by the inserted text.",
 ["programs", "inputs"], "all functions and all sets of marked lines",
 "Tests insert into short fixed functions; multi-line strings, comments and nested literals at the marked lines are a combinatorial space.",
 ["lens/asttweak.go"],
 [("InsertFuncLines", "lens/asttweak.go")],
 PBT + "generated functions and line sets, token-level oracle",
 "Generated Go source with multi-line tokens; token streams before and after are compared.")
prop("C16", "Dependency diffs list exactly the version changes",
 "For any two go.mod files (or go.work workspaces), the reported module changes are exactly the modules required by both whose required versions differ, with the right old and new version and directness, each such change once and in a reproducible order. Looking up a module's version in a project gives the version its go.mod requires (in a workspace the highest of its modules), and the modules and packages of a workspace are exactly those of its used directories.",
 ["inputs", "configurations"], "all go.mod and go.work contents",
 "Tests use a few fixed files; the rules interact (indirect, several modules, wildcards, comments, blocks).",
 ["lens/module.go", "lens/engine.go"],
 [("DiffModulesFromGoModFiles, DiffModulesFromGoWorkFiles", "lens/module.go"), ("FindModuleVersion, parseProjectDeps", "lens/module.go")],
 PBT + "generated go.mod/go.work pairs against a reference model",
 "Random requirement sets rendered in varied syntax.")
prop("C17", "No monitor message is lost, duplicated or mixed up under concurrency",
 "However many messages arrive concurrently and in whatever order and mix (including ones for unknown points), the collected test result contains each known-point message exactly once under the right function, with its own values and stack, in the order each goroutine sent them, and collection always completes. When baseline results are given, each call keeps exactly the fields that were stable for the same call of the baseline, and each reached changed function is counted once.",
 ["schedules", "histories", "fault_sequences"], "all arrival interleavings and message mixes",
 "Tests handle messages one after another; loss, hangs and mix-ups appear only under particular interleavings and with unexpected ids.",
 ["lens/astexec.go", "lens/astsrv.go"],
 [("testMonitor Handle*, makeTestResult", "lens/astexec.go"), ("HTTP server and handlers", "lens/astsrv.go")],
 PBT + "generated concurrent message batches against a multiset model",
 "Random batches delivered by many goroutines, directly and over HTTP; schedules are sampled, not enumerated.")
prop("C18", "Analysis works on a faithful copy and leaves the original untouched",
 "Copying a project or directory for analysis reproduces every file and directory of the source with its exact content (links by the content they lead to), skipping only what was asked, reports an error if anything could not be copied, has stopped writing when it returns, and never writes to the source. Path containment tests say yes exactly for paths inside the directory, and file replacement is all or nothing.",
 ["inputs", "histories", "fault_sequences"], "all directory trees, file names, and failure points",
 "Tests copy tiny fixed trees; names, links and failures form an open space.",
 ["lens/file.go", "lens/engine.go"],
 [("CopyDir, CopyFile, concurrentWalk, replaceFile, fileWithinDir", "lens/file.go"), ("setupTempEnvironment", "lens/engine.go")],
 PBT + "generated trees and paths against a tree model",
 "Random trees in scratch directories; run against real file system calls.")
prop("C19", "Configuration is validated completely before anything is touched",
 "For any combination of command-line flags and configuration values, preparation either yields a configuration that carries every given value to its place, or fails with an error when a required value is missing or invalid, when both an updated go.mod and an updated go.work are given, or when a report could not be written to its path; it never reports success for a configuration whose report could not be produced. A configuration that failed can be corrected and prepared again. Preparing never changes or adds a file; it adds at most missing directories for the reports.",
 ["configurations"], "all combinations of flags and configuration values",
 "Tests try single values; interactions between options are combinatorial.",
 ["lens/engine.go", "lens/cmd/flags.go"],
 [("Config.Prepare, parseInitialModules, validateOutputPath", "lens/engine.go"), ("flag parsing", "lens/cmd/flags.go")],
 PBT + "generated configurations against a reference validator",
 "Random option combinations in scratch projects; compared with an independently written acceptance rule.")
prop("C20", "The report states exactly the analysed facts, reproducibly",
 "For any analysis outcome, the report lists each reachable changed function, relevant project function, test and performance change once, its counts equal the lengths of its lists and the totals of the outcome, and reading the written file back gives the same facts. The same outcome always gives the same report, in whatever order it was collected, and charts can be rendered for every report. However an analysis ends, the report is made from exactly the facts established, and no report is written when a stage failed.",
 ["inputs", "histories"], "all analysis outcomes",
 "Tests check one fixed report; consistency and order independence are claims about every outcome.",
 ["lens/report.go"],
 [("PrepareReportData, BuildReportMap, WriteToFile", "lens/report.go"), ("RenderReportChartsFromJson", "lens/report.go")],
 PBT + "generated outcomes against a reference summary, permutation metamorphic relation",
 "Random outcomes; permutations of each must give the same report.")
prop("C21", "Call-site monitoring reports the call and preserves behaviour",
 "Adding monitoring points before the calls of a function leaves the code compiling and behaving as before (same results, panics and order of side effects), and each monitored call actually made sends exactly one message, before the call, carrying the values of its arguments. Calls not made send nothing.",
 ["programs", "inputs"], "all call sites in all Go functions",
 "Tests compare text for fixed call sites; evaluation order and control flow are never executed.",
 ["lens/asttweak.go"],
 [("InjectFuncPointBeforeCall", "lens/asttweak.go")],
 PBT + "generated Go programs, differential execution and message/trace matching",
 "Generated call sites; both versions are compiled and executed.")
prop("C22", "Shared helpers keep their bounds and exclusion under any use",
 "For any sequence of writes, output buffers hold everything written up to their limit and beyond it a marked most recent part of it (at least half the limit), tee writers deliver every byte to every writer, and line limits keep whole lines within the limit. Concurrency limits are never exceeded and never lose a waiter, locks by key exclude each other, and merged environments give each variable once with the overriding value and drop dynamic loader variables.",
 ["histories", "schedules", "inputs"], "all write sequences, concurrency levels, keys and environments",
 "Tests use a few fixed writes and goroutines.",
 ["lens/util.go", "lens/util_io.go", "lens/exec.go"],
 [("limitedRollingBuffer, TeeWriter", "lens/util_io.go"), ("LimitingWaitGroup, stripedMutex, limitStringLines", "lens/util.go"), ("mergeSafeEnv, GoEnv", "lens/exec.go")],
 PBT + "stateful sequences against reference models",
 "Random write/lock/limit histories against simple models.")
prop("C23", "Stack frames and paths are attributed to the right owner",
 "For any captured stack, the frames kept are exactly the frames of project code in order, with file paths expressed the same way wherever the project is located, so that the same call in two runs has the same stack identity and different project call paths have different ones. Generated, standard library and module cache files are never attributed to the project.",
 ["inputs", "configurations"], "all stacks and directory layouts",
 "Tests use a few fixed paths.",
 ["lens/astexec.go"],
 [("trimStackFile, ProjectFrames, StackFramesKey", "lens/astexec.go")],
 PBT + "generated stacks and layouts against a reference model",
 "Random layouts and stacks; compared with an independently written classifier.")
prop("C24", "Mutation testing counts every mutant once and restores the sources",
 "For any set of changed functions and any outcome of the individual mutants, the mutation counts equal the number of mutants the mutation tool made and of those for which the tests failed (mutants that do not build are not detected). The tests run with the mutant in place of the source, in all modules of the project; with targeted tests exactly those reaching a changed function of the mutated file. Only functions with the name of a changed function are mutated, in the files of changed functions; scoped to lines (radius 0), exactly the changed lines of code in the function's body are. Failures of the tool or unreadable sources give an error. Afterwards all sources, and a report.json of the project, are as before.",
 ["configurations", "fault_sequences"], "all function sets, scopes and mutant outcomes",
 "There is no test of mutation accounting with varied tool outcomes.",
 ["lens/mutation.go"],
 [("RunMutationTesting", "lens/mutation.go")],
 PBT + "generated tool outcomes through a stand-in mutation tool",
 "The external mutation tool is replaced by a stand-in that records its invocation and plays generated outcomes.")
prop("C25", "A whole analysis reports behaviour changes that tests can observe",
 "Running the complete analysis of a module update on a project, exactly the changed module functions reachable from the project are counted, their project callers and the tests reaching these are found, and the changed functions the tests execute are counted as reached. For every such test, each calling function whose variables or results at its return differ with the update, while being the same whenever the old version is run, is reported with each field that differs; calls that no longer return count as differences; functions whose values do not differ, or differ between runs of the old version, are not reported. Tests which pass before and fail after are regressions. The project directory and module cache are afterwards as before, and repeating the analysis gives the same findings.",
 ["programs", "histories"], "all projects, updates and tests",
 "No existing test runs the analysis end to end on a project whose true differences are known.",
 ["lens/engine.go", "lens/astexec.go", "lens/module.go", "lens/static.go", "lens/asttweak.go"],
 [("AnalysisEngine.Run", "lens/engine.go"), ("RunModuleUpdateAnalysis", "lens/astexec.go")],
 PBT + "generated module update scenarios run end to end against known ground truth",
 "Generated projects and module versions served from a scratch module proxy on the local file system; many independent functions per run.")
