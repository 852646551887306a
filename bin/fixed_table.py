PROP = {
"fix: frame nested nodes by child count when hashing field values": ("C07", "field trees that differ only in where a nested node ends had the same identity, so one was stored in place of the other"),
"fix: do not wait forever for a state message with an unknown point id": ("C17", "a state message with an unknown point id made the collection wait forever"),
"fix: omit empty test reports for tests without pre-update results": ("C09", "tests with only post-update results produced an empty test report"),
"fix: report the most significant time change of a caller": ("C09", "the time change reported for a caller was not the most significant one when times decreased"),
"fix: load stored values in one transaction and report empty values as found": ("C10", "loading a split value during an overwrite mixed the parts of two values, and an empty value was reported as missing"),
"fix: store values that look like a split marker as a part": ("C10", "a value that looks like the internal split marker could not be loaded back"),
"fix: detect cycles through interfaces and pointers by value identity": ("C06,C04", "self-referential interfaces and pointers were unwrapped forever, cycles through interfaces repeated to the depth limit at every level, and empty slices or pointers to a first field were captured as cycles"),
"fix: capture the values of NaN map keys": ("C04", "values under NaN map keys were captured as invalid"),
"fix: bound memory and nesting when decoding monitor messages": ("C05", "a corrupt count or length made the decoder panic or allocate without bound, and deep nesting overflowed the stack"),
"fix: do not report functions and channels as cycles": ("C04,C06", "a second function value with the same code was captured as a cycle"),
"fix: count only known module functions as reached": ("C17", "point messages with unknown ids were counted as reached changed functions"),
"fix: keep the element boundaries of captured string slices": ("C17", "string slices with different elements, such as [a b] and [\"a b\"], were captured as the same field value"),
"fix: report performance changes in a consistent order": ("C20", "the order of the performance changes in the report was random"),
"fix: chart the field changes of a test in a consistent order": ("C20", "the order of the charted field changes was random"),
"fix: show how much slower a run was as a positive percentage": ("C20", "a slower run was shown with a negative percentage"),
"fix: report the changed function count when no change is reachable": ("C20", "the report of an analysis without reachable changes gave no changed functions"),
"fix: recognize file names starting with dots as inside their directory": ("C18,C23", "files whose first path element starts with two dots, such as ..data, were taken to be outside the directory"),
"fix: keep the destination when replacing a file fails": ("C18", "replacing a file by a missing one deleted the destination"),
"fix: copy the content of a directory given as a symlink": ("C18", "copying a directory given as a symbolic link copied nothing and reported success"),
"fix: wait for started copies when copying a directory fails": ("C18", "a failed copy returned while other files were still being written"),
"fix: keep the position of GOMODCACHE within the copied GOPATH": ("C18", "a module cache within GOPATH outside pkg/mod was replaced by a wrong path in the copy"),
"fix: remove the temporary copy when preparing it fails": ("C18", "a temporary copy was left behind when preparing it failed"),
"fix: accept writes to a TeeWriter without writers": ("C22", "writing to a tee without writers panicked"),
"fix: keep the changed functions of a module listed twice": ("C11", "listing a module twice lost all of its changed functions"),
"fix: list the module changes of a workspace once and in a consistent order": ("C16", "workspace module changes were listed once per using module and in random order"),
"fix: find the highest required module version in a workspace": ("C16", "looking up a module in a workspace gave the version of the alphabetically first module"),
"fix: expand go.work wildcards relative to the workspace": ("C16", "go.work wildcards gave absolute paths, so that changes between workspaces were missed, and absolute wildcards failed"),
"fix: do not analyze dependencies which the project already has in a newer version": ("C11", "a dependency the project already has in a newer version was analyzed as a downgrade"),
"fix: escape the version when locating a module in the cache": ("C11", "module versions with upper case letters were not found in the cache"),
"fix: ignore comment and line break differences when comparing functions": ("C11", "functions that differ only in comments or line breaks were reported as changed"),
"fix: compare pre-release Go versions": ("C11", "pre-release Go versions were taken to be older than any other"),
"fix: analyze the highest version of a dependency updated by several modules": ("C11", "which version of a dependency required by several updated modules is analyzed depended on their order"),
"fix: instrument the returns in else chains, labeled statements and select cases": ("C02", "returns in the last else, the second else-if, a labeled statement or a select case sent nothing"),
"fix: capture the state when falling off the end of a function with early returns": ("C02", "falling off the end of a function that also has an explicit return sent nothing"),
"fix: name result types hidden by a variable through an alias": ("C01", "a variable named like (a part of) a result type, or a shift by a value converted to the result type, made the instrumented code fail to compile"),
"fix: do not capture local constants which overflow their default type": ("C01", "a local constant such as 1 << 70 made the instrumented code fail to compile"),
"fix: capture a parenthesized call returning several results": ("C01", "returning a parenthesized call with several results made the instrumented code fail to compile"),
"fix: keep comments and compiler directives in place when instrumenting": ("C01", "comments moved into other code: a //go:noinline of a function following a short instrumented function made the package fail to compile"),
"fix: capture returned nil and constants without type information": ("C02", "a returned nil was not captured when the package imports packages without export data, and a returned untyped constant had its default type"),
"fix: capture a returned constant with the type of the result": ("C02,C01", "a returned constant was captured with its default type, which also failed to compile for constants overflowing it"),
"fix: type check the instrumented file itself if it is a test file or excluded from the build": ("C01,C02", "functions in test files were instrumented without their types, and an external test package made the injection crash"),
"fix: restore files which have an unrelated .bkp file, are symlinks or have their own mode": ("C03", "a modified file was never restored if a .bkp file or directory of that name existed, the target of a linked source file stayed modified, and a restored file lost its mode"),
"fix: remove the injected client if only part of it could be written": ("C03", "a client file whose counterpart could not be written was never removed"),
"fix: discard pending edits when restoring": ("C03", "edits pending at a restore came back with the next commit, overwriting changes made in between"),
"fix: restore all module files after the update without using existing .bkp files": ("C03,C25", "the update analysis overwrote and removed the user's go.mod.bkp and go.sum.bkp, left a go.sum it created, go.work.sum changed and go.mod.bkp when a backup failed"),
"fix: never insert a line inside a multi-line literal or comment": ("C15", "a line was inserted inside a multi-line literal or comment followed by code on its last line"),
"fix: use actual line numbers when inserting lines": ("C15", "a line directive made line insertion crash or use other lines"),
"fix: locate functions in the actual source file despite line directives": ("C13", "a line directive naming another go file made the caller analysis fail, one naming another file (goyacc) hid the function"),
"fix: only select functions go test runs as tests": ("C14", "suite methods TestX and functions like Testhelper were selected as tests, and the tests calling them were not"),
"fix: validate both report files before the analysis": ("C19", "the chart path was only validated without a JSON path, its type never; directories were accepted; a user file .write_test was deleted"),
"fix: skip writing report files which are not configured": ("C19", "an empty report path passed validation, then the report failed at the end of the analysis"),
"fix: do not add target modules again when preparing a corrected configuration": ("C19", "preparing a corrected configuration again listed the target modules twice"),
"fix: reject a project path which is no directory": ("C19", "a project path that does not exist or is a file was accepted"),
"fix: count the mutants the tests failed for as detected": ("C24", "the number of detected mutants was the number of those the tests passed for"),
"fix: do not count mutants that fail to build as detected": ("C24", "mutants that did not compile were counted as detected by the tests"),
"fix: only mutate functions with the exact name of a changed function": ("C24", "functions whose name only contains that of a changed function were mutated"),
"fix: keep the report.json of the project when mutation testing": ("C24", "a report.json of the project was overwritten and removed"),
"fix: quote paths in the mutation exec scripts": ("C24", "modules in directories with spaces, quotes or globs were not tested, sources with quotes in their name broke the script"),
"fix: map changed lines to the lines of the source file when scoping mutations": ("C24", "with comments or several statements per line in the source, other lines than the changed ones were mutated"),
"fix: do not start scoping mutations if a changed function lacks its changed lines": ("C24", "a failure left exclusions being written to sources after the restore"),
"fix: judge mutants with large diffs": ("C24", "mutants whose diff is larger than 128 KB were skipped, their tests never ran"),
}
