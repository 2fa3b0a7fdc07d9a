prop("C01", "Each lint rule reports exactly the elements that violate it",
 "For every parsed file, each lint rule reports a failure at the position of every element that violates the rule as documented, with that rule's message, and reports nothing for an element that does not. The text classifications the rules rely on (camel case, snake case, package and version naming, derived option values) are decided the same way for every string.",
 ["inputs", "programs"], "Every Protobuf file the parser accepts, for each of the registered lint rules.",
 "The tests lint a few dozen sample files; a condition that is wrong for a combination of declarations, comments, options or name shapes none of them contains goes unnoticed.",
 ["internal/lint", "internal/strs", "internal/protostrs"],
 [("rule visitors", "internal/lint/check_*.go"), ("name classification", "internal/strs/strs.go"), ("derived option values", "internal/protostrs/protostrs.go")],
 SUMMARY, LIMIT)
prop("C02", "Lint rules reach every element they apply to at every depth",
 "A lint rule that applies to a kind of element examines all elements of that kind: all files of all linted directories, and messages, enums, fields, oneofs, services and methods nested to any depth in messages (proto2 groups excepted). Deeper nesting never hides an element from a rule.",
 ["inputs", "programs"], "Every file, every nesting depth and every position of an element among its siblings.",
 "Sample files nest at most two levels and rarely put the offending element anywhere but in the common place; a missing descent shows only for the nested case of the one rule affected.",
 ["internal/lint"],
 [("driver", "internal/lint/lint.go"), ("descent", "internal/lint/check_*.go VisitMessage, VisitService, VisitEnum, VisitOneof")],
 SUMMARY + "; traversal obligations per rule", LIMIT)
prop("C03", "Linting one file is not influenced by the files linted before it",
 "What a lint rule reports for a file depends only on that file, its configuration and, for the rules that compare the files of one directory, the files of that directory. No state a rule gathered in an earlier file, directory or run carries over.",
 ["inputs", "histories"], "Every sequence and grouping of files in one lint run.",
 "Tests lint mostly one file at a time; leaked rule state shows only for a particular predecessor file.",
 ["internal/lint"],
 [("per-file reset", "internal/lint/check_*.go OnStart, Finally"), ("driver", "internal/lint/lint.go")],
 SUMMARY + "; stores and resets of rule state", LIMIT)
prop("C04", "Lint rule selection follows the configuration and the published groups",
 "The rules that run are those of the configured group (the default group when none is given, none when defaults are disabled), plus the added ones, minus the removed ones; unknown group names and rule IDs are errors. Every rule is registered once under its own ID, the groups contain the published rules, and the listing and comparing commands show exactly those sets.",
 ["configurations", "inputs"], "Every combination of group, additions, removals and ignores in a configuration, and every listing command.",
 "The tests check a handful of configurations; membership of some ninety rules in five groups and the interplay of additions and removals is sampled only.",
 ["internal/lint/lint.go", "internal/exec/runner.go"],
 [("registry and groups", "internal/lint/lint.go"), ("selection", "internal/lint/lint.go GetLinters"), ("listing", "internal/exec/runner.go")],
 SUMMARY + "; registry and group tables evaluated from package initialisation", LIMIT)
prop("C05", "Lint failures carry their rule ID; only ignores or suppression drop them",
 "Every failure a rule raises is reported under that rule's ID, unless the configuration ignores that rule for that file or directory, or suppression is enabled, the rule is suppressible and the element's comment carries its suppression annotation. Failures of all rules and directories are gathered, none replaces another.",
 ["inputs", "configurations"], "Every failure of every rule under every ignore configuration and comment.",
 "Tests cover one or two ignores and annotations; a path that loses or mislabels a failure needs a particular combination of rule, comment and configuration.",
 ["internal/lint/base_linter.go", "internal/lint/lint.go"],
 [("tagging and suppression", "internal/lint/base_linter.go"), ("ignores", "internal/lint/lint.go"), ("generated ignores", "internal/exec/runner.go")],
 SUMMARY, LIMIT)
prop("C06", "Every incompatible change is reported by its compatibility rule",
 "For any two versions of an API, each compatibility rule reports exactly the incompatible changes it documents (deleted packages, messages, fields, enums, values, oneofs, services or methods; changed field name, type, label or oneof; changed enum value name; changed method types or streaming; use of beta packages), naming the element. Nested messages and enums are compared to every depth, and compatible changes are not reported.",
 ["inputs", "programs"], "Every pair of package sets.",
 "The tests compare one pair of trees per rule; changes in nested types or combinations of reserved, renamed and retyped elements are not sampled.",
 ["internal/breaking"],
 [("rules", "internal/breaking/check_*.go"), ("matching and recursion", "internal/breaking/helpers.go")],
 SUMMARY, LIMIT)
prop("C07", "Breaking checks compare the right versions, packages and rules",
 "The breaking check compares the stored or checked-out earlier version as the old side with the current tree as the new side, with all registered rules, over all packages except beta packages when the configuration leaves those out; the beta dependency rule runs when configured. A failure to obtain either version is an error, never an empty comparison.",
 ["inputs", "configurations", "fault_sequences"], "Every configuration, source of the earlier version, and failure while obtaining it.",
 "The tests run one direction with stored descriptor sets; swapped sides, lost packages or skipped rules in other modes are not exercised.",
 ["internal/breaking/runner.go", "internal/exec/runner.go", "internal/git/git.go", "internal/extract/extract.go"],
 [("pipeline", "internal/exec/runner.go BreakCheck"), ("runner", "internal/breaking/runner.go"), ("earlier version", "internal/git/git.go"), ("beta filter", "internal/extract/extract.go WithoutBeta")],
 SUMMARY, LIMIT)
prop("C08", "Reported failures and errors always give a non-zero exit status",
 "Whenever a command prints a lint, format, compile or compatibility failure, or an error occurs, the process exits with a non-zero status, and it exits with zero otherwise (for a single file, failures of the other files of its directory count although they are not printed). The combined command stops at its first failing step.",
 ["inputs", "fault_sequences"], "Every command, every set of failures and every error.",
 "The exit status is tested for a few commands and failures; a mode in which failures are printed but success is returned is not sampled.",
 ["internal/exec/runner.go", "internal/cmd/cmd.go", "cmd/prototool/main.go"],
 [("failure to error", "internal/exec/runner.go"), ("error to status", "internal/cmd/cmd.go")],
 SUMMARY, LIMIT)
prop("C10", "Temporary files and directories are removed on every exit",
 "Every temporary file or directory prototool creates (for descriptor sets, diffs and checked-out repositories) is removed by the time the operation that needed it ends, on success, failure and error alike, and opened files are closed.",
 ["fault_sequences", "inputs"], "Every path through the operations that create temporary artifacts, including every error path.",
 "Tests exercise the success paths; leaks happen on error paths that need a failing git, protoc, write or read.",
 ["internal/git/git.go", "internal/diff/diff.go", "internal/protoc/compiler.go", "internal/exec/runner.go"],
 [("temporary clone", "internal/git/git.go"), ("diff files", "internal/diff/diff.go"), ("descriptor set files", "internal/protoc/compiler.go")],
 SUMMARY, LIMIT)
prop("C12", "New files never replace existing ones",
 "Creating Protobuf files or a configuration file fails when a target already exists, and then leaves it as it is. With several targets, every one of them is checked before it is written.",
 ["inputs", "fault_sequences"], "Every list of targets and every state of the file system.",
 "Tests create fresh files in a temporary directory; an overwritten file needs an existing target in a particular position or a failing examination.",
 ["internal/create/handler.go", "internal/exec/runner.go"],
 [("target check", "internal/create/handler.go"), ("configuration target check", "internal/exec/runner.go Init")],
 SUMMARY, LIMIT)
prop("C13", "Format changes files only when asked to, and each mode reports faithfully",
 "Formatting writes a file only in overwrite mode and only when its formatted content differs, diff mode prints the difference, lint mode reports each file that differs, and without a mode the formatted content is printed. All modes but overwrite fail when a file is not formatted, and no mode changes a file that cannot be parsed or formatted.",
 ["inputs", "configurations"], "Every combination of mode flags and every set of files.",
 "Tests cover single flags on a few files; a write in the wrong mode or a lost difference needs a particular combination.",
 ["internal/exec/runner.go"],
 [("modes", "internal/exec/runner.go format, formatFile")],
 SUMMARY, LIMIT)
prop("C16", "Configuration is found nearest first and decoded strictly",
 "The configuration used for a directory is that of the nearest directory upwards that has one, two configuration files in one directory are an error, and given configuration data takes the place of files. Unknown keys, malformed values and trailing data are errors, not ignored.",
 ["configurations", "inputs"], "Every directory layout and every configuration text.",
 "Tests decode a few sample files; leniency shows only for texts with an unknown key in a particular place or format.",
 ["internal/settings/config_provider.go"],
 [("discovery", "internal/settings/config_provider.go"), ("strict decoding", "internal/settings/config_provider.go")],
 SUMMARY, LIMIT)
prop("C17", "Every configuration value takes effect where documented, invalid ones are errors",
 "Each documented configuration key sets the behaviour it names and no other, relative paths are resolved against the directory of the configuration file, and duplicate, conflicting or out-of-range values are errors. Values that are not given take their documented defaults.",
 ["configurations"], "Every configuration.",
 "Tests check a few complete samples; a key that is dropped, mapped to another or not validated needs that key to be set alone or wrongly.",
 ["internal/settings/config_provider.go", "internal/settings/settings.go"],
 [("mapping", "internal/settings/config_provider.go"), ("plugin types and paths", "internal/settings/settings.go")],
 SUMMARY, LIMIT)
prop("C18", "Every command-line flag reaches the component it configures",
 "Each flag and environment variable a command offers is handed, unchanged and in the right position, to the operation it configures, and from there to every component the operation builds. Each command runs its own operation with the documented arguments.",
 ["inputs", "configurations"], "Every command with every combination of its flags.",
 "Tests use a few flags per command; a flag that is bound to the wrong variable, swapped, or lost on the way to a component shows only when it is given.",
 ["internal/cmd", "internal/exec", "internal/protoc", "internal/file", "internal/create", "internal/format", "internal/grpc"],
 [("flags and commands", "internal/cmd/flags.go, internal/cmd/templates.go"), ("options", "internal/exec/exec.go, internal/exec/runner.go")],
 SUMMARY, LIMIT)
prop("C19", "Only a complete, checked protoc download is used, and caches are kept apart",
 "The protoc used is the configured version for this platform from the configured URL: a download that fails, has another status or cannot be unpacked is an error, archive entries cannot be written outside the cache, and a directory that fails its check is downloaded again, and what a failed or interrupted download left behind is not taken for complete. Downloads of one version exclude each other across processes, and deleting the cache removes only prototool's own cache.",
 ["fault_sequences", "schedules", "configurations"], "Every server response, archive, cache state and interleaving of prototool processes.",
 "Downloading is not possible in the tests, and concurrent or faulty downloads are never exercised.",
 ["internal/protoc/downloader.go"],
 [("download and unpack", "internal/protoc/downloader.go"), ("locking", "internal/protoc/flock*.go")],
 SUMMARY, LIMIT)
prop("C20", "A path is inside a directory only by whole path components",
 "Whether a file belongs to a directory or an excluded or ignored prefix is decided by whole path components of cleaned paths: siblings whose names merely begin alike are neither excluded, ignored, linted nor generated together. This holds for excludes, lint ignores and the choice of the files of a directory.",
 ["inputs", "configurations"], "Every pair of paths.",
 "Test trees have no sibling directories with a common name prefix in the places that matter.",
 ["internal/settings/config_provider.go", "internal/file/file.go", "internal/lint/lint.go"],
 [("containment", "internal/settings/settings.go, internal/file/file.go"), ("ignores", "internal/lint/lint.go")],
 SUMMARY, LIMIT)
prop("C21", "Every line protoc prints is accounted for",
 "Each line protoc prints becomes a failure with the file, line, column and message it states, is one of the documented lines that are dropped, or makes the command fail; unused imports are failures unless allowed. A protoc that fails, is killed or prints something unknown never counts as success.",
 ["inputs", "fault_sequences"], "Every output and every way of ending of the protoc process.",
 "Tests use a few real protoc messages; other shapes of output and ways of ending are not produced.",
 ["internal/protoc/compiler.go"],
 [("output parsing", "internal/protoc/compiler.go"), ("process result", "internal/protoc/compiler.go")],
 SUMMARY, LIMIT)
prop("C22", "protoc runs per directory with the configured includes, plugins and options",
 "For every directory of files, protoc is run with exactly that directory's files, the configured include paths and the well-known types, and, when generating, each configured plugin with its flags, path, output and package mappings. Output directories are created first, and the dry run prints the same commands.",
 ["inputs", "configurations"], "Every tree of files and every generation configuration.",
 "Tests generate for a few plugins; other types, flags and relative locations are not sampled.",
 ["internal/protoc/compiler.go"],
 [("arguments", "internal/protoc/compiler.go"), ("plugin flags", "internal/protoc/compiler.go")],
 SUMMARY, LIMIT)
prop("C23", "Formatting keeps every declaration, attribute and value, in canonical order",
 "For every parsed file, the formatted text contains each declaration with its name, type, label, number, ranges, options, literal values and comments, nested as in the source, with the header first, imports sorted and options grouped as documented. What formatting prints for an element does not depend on unrelated elements.",
 ["inputs", "programs"], "Every Protobuf file the parser accepts.",
 "Tests compare a few golden files; an attribute that is lost or misplaced needs that attribute on that kind of element.",
 ["internal/format", "internal/buf/buf.go"],
 [("header, options and imports", "internal/format/first_pass_visitor.go"), ("declarations", "internal/format/main_visitor.go"), ("fields and options", "internal/format/base_visitor.go")],
 SUMMARY + "; order of emitted text as a sequence summary", LIMIT + " Known losses of comments and groups are listed in DESIGN.md.")
prop("C24", "Fixing changes only the package-derived file options and the file header",
 "With fixing on, formatting sets each of the documented file options to the value derived from the package and the configuration, adds the missing ones, and replaces the file header with the configured one; all other options and declarations stay as they are. With fixing off none of them is changed.",
 ["inputs", "configurations"], "Every file and every fix configuration.",
 "Tests fix a few golden files; files without a package, with other options or versions are not sampled.",
 ["internal/format/first_pass_visitor.go", "internal/protostrs/protostrs.go"],
 [("fix", "internal/format/first_pass_visitor.go"), ("derived values", "internal/protostrs/protostrs.go")],
 SUMMARY, LIMIT)
prop("C25", "The reflected model mirrors the compiled descriptors",
 "Packages, messages, fields, enums, values, oneofs, services and methods that are inspected or compared are those of the compiled descriptors, with the same names, numbers, labels, types, oneof membership, streaming, nesting, dependencies and importers. Every lookup by name or number returns the element with that name or number, and duplicates are errors.",
 ["inputs", "programs"], "Every compiled set of files.",
 "Tests look at a few elements of one sample; a lost or mislinked element needs a particular shape.",
 ["internal/reflect", "internal/extract", "internal/desc"],
 [("from descriptors", "internal/reflect/reflect.go"), ("linking", "internal/extract/extract.go"), ("merging", "internal/desc/desc.go")],
 SUMMARY, LIMIT)
prop("C26", "The well-known type tables are complete and agree",
 "The list of well-known type files and the Go and gogo package mappings used for generation name the same files, each mapped to its published package. Generated code for a plugin of a kind uses the mappings of that kind, and configured mappings take precedence.",
 ["configurations", "inputs"], "Every well-known type and every kind of plugin.",
 "Tests compile a few imports; a missing or wrong mapping shows only in code generated for that import.",
 ["internal/wkt/wkt.go", "internal/protoc/compiler.go"],
 [("tables", "internal/wkt/wkt.go"), ("mappings", "internal/protoc/compiler.go")],
 "package-initialisation evaluation of the tables; guarded effect summaries of their use, compared with a reviewed specification", LIMIT)
prop("C27", "gRPC calls use the given address, method, headers, security and timeouts",
 "A gRPC call connects to the given address with the given security, keepalive and connection timeout, sends the given headers and every input message to the given method within the call timeout, and prints each response, or the whole exchange when details are asked for. Invalid combinations of flags, unknown methods, failing calls and unprintable responses are errors, and the connection is closed.",
 ["inputs", "configurations", "fault_sequences"], "Every combination of flags, request stream and server behaviour.",
 "Tests call one local server with default settings; security, timeouts and failing servers are not sampled.",
 ["internal/grpc", "internal/exec/runner.go"],
 [("call", "internal/grpc/handler.go"), ("events", "internal/grpc/invocation_event_handler.go"), ("flags", "internal/exec/runner.go GRPC")],
 SUMMARY, LIMIT)
prop("C28", "Failures are printed completely, in order and in the requested format",
 "Failures are sorted by file, line, column, rule and message, and each is printed with the requested fields in the requested order, with defaults for missing positions, or as one JSON object per failure. Unknown fields in the format are errors.",
 ["inputs", "configurations"], "Every set of failures and every output format.",
 "Tests print a few failures in the default format; ties, missing fields and other formats are not sampled.",
 ["internal/text/text.go", "internal/exec/runner.go"],
 [("order and fields", "internal/text/text.go"), ("printing", "internal/exec/runner.go")],
 SUMMARY, LIMIT)
prop("C30", "A command works on exactly the Protobuf files of its directory",
 "For a directory, a command works on all Protobuf files at or below it that are not excluded, grouped by directory, with paths shown relative to the working directory; for a file, on the files of its directory, reporting that file. Walking gives up with an error at the walk timeout, and one that yields no files, or reads outside the configured root, is an error.",
 ["inputs", "configurations", "schedules"], "Every tree, exclude configuration, start directory and timing.",
 "Tests walk a few fixed trees; other layouts, start points and timeouts are not sampled.",
 ["internal/file", "internal/exec/runner.go"],
 [("walk", "internal/file/proto_set_provider.go"), ("grouping", "internal/file/proto_set_provider.go"), ("single file", "internal/exec/runner.go getMeta")],
 SUMMARY, LIMIT)
prop("C31", "Created files have the package and options their location and settings imply",
 "A created Protobuf file has the configured file header, the given package or the one implied by its location and the configured package directories, and the file options derived from that package. A created configuration file is the documented template for the protoc version, commented out unless uncommented is asked for.",
 ["inputs", "configurations"], "Every location, configuration and flag.",
 "Tests create a few files; other package directories, nesting and header settings are not sampled.",
 ["internal/create", "internal/cfginit/cfginit.go"],
 [("package choice", "internal/create/handler.go"), ("templates", "internal/create/create.go, internal/cfginit/cfginit.go")],
 SUMMARY, LIMIT)

RULE = "structural dataflow rule over the SSA form and call graph of the whole module"
prop("C09", "No error is dropped between where it occurs and the exit status",
 "Every error that an operation of prototool can meet (reading, writing, parsing, running protoc or git, network, configuration) reaches the result of the command, except the few that by design carry no failure. No error branch reports success, and results that come with an error are not used.",
 ["fault_sequences", "inputs"], "Every call in the module that yields an error, on every path.",
 "Almost none of the several hundred error branches can be provoked in the tests: files do not fail to close, disks are not full, protoc does not crash.",
 ["internal", "cmd/prototool"],
 [("error results", "every package below internal"), ("exit status", "internal/cmd/cmd.go")],
 RULE + " (error propagation) and " + SUMMARY, LIMIT)
prop("C11", "Commands change only what they exist to change",
 "Linting, compiling, breaking checks, inspecting, listing and dry runs change no file of the user's tree; format writes only in overwrite mode, generation writes only below the configured output paths and with generation requested, and downloads touch only the cache. External programs are run, and the network is used, only by the operations specified for it.",
 ["inputs", "configurations"], "Every command with every combination of flags, over every path through the code it can reach.",
 "The tests check outputs, not the absence of other writes; an extra effect shows only in a mode or on a path no test looks at.",
 ["internal/exec/runner.go", "internal/protoc", "internal/git/git.go", "internal/create", "internal/diff/diff.go"],
 [("operations", "internal/exec/runner.go"), ("effects", "internal/protoc, internal/git, internal/create, internal/diff")],
 RULE + " (effects reachable per operation) and " + SUMMARY, LIMIT)
prop("C14", "The same input gives the same result, whatever order maps are walked in",
 "What a command prints, generates and decides does not depend on the order in which Go walks maps or in which concurrent work finishes: lists gathered from maps or concurrent work are sorted by a key that determines the order before they are used. Which one of several simultaneous errors is returned may vary.",
 ["schedules", "inputs"], "Every loop over a map in the module and every list of failures, files, packages and commands.",
 "Map order is random per run; with the two or three entries of the test data a wrong order shows rarely and then looks like a flake.",
 ["internal"],
 [("sorting", "internal/text/text.go, internal/lint/lint.go, internal/breaking/runner.go, internal/reflect, internal/protoc/compiler.go, internal/exec/runner.go")],
 RULE + " (map iteration order) and " + SUMMARY, LIMIT)
prop("C15", "Concurrent work is free of races, lock leaks and lost workers",
 "State shared between goroutines is only accessed under its lock or ordered by waiting, every lock that is taken is released on every path, every worker that is started is waited for or told to stop, and no worker blocks for ever on a channel nobody serves. Each concurrent protoc run works on its own command.",
 ["schedules", "fault_sequences"], "Every interleaving of the goroutines of protoc runs, file walks, downloads and signals.",
 "The tests run few interleavings, without the race detector and without timeouts or failures in the middle.",
 ["internal/protoc", "internal/file/proto_set_provider.go"],
 [("protoc runs", "internal/protoc/compiler.go"), ("downloader cache", "internal/protoc/downloader.go"), ("file walk", "internal/file/proto_set_provider.go")],
 RULE + " (locksets, goroutine lifetimes, channel counterparts) and " + SUMMARY, LIMIT)
prop("C29", "No input makes prototool panic",
 "No Protobuf file the parser accepts, no configuration, argument, protoc output, descriptor set, archive or server response makes prototool panic: every index and slice is within bounds, every value that can be absent is tested before it is used, no division by zero, failed type assertion or store into an absent map can happen.",
 ["inputs", "configurations"], "Every index, slice, dereference of something optional, type assertion, division and map store in the module.",
 "A panic needs the one malformed or unusual input none of the samples contains.",
 ["internal"],
 [("parsing of names, options and output", "internal/protostrs, internal/strs, internal/protoc, internal/lint"), ("descriptors", "internal/reflect, internal/extract, internal/desc")],
 RULE + " (difference constraints for bounds, definite tests for absent values)", LIMIT)
prop("C32", "The descriptor-set commands write the merged descriptors in the chosen form",
 "Descriptor set commands compile the selected files, with imports and source information included only when asked for, merge the sets of all directories into one without losing or duplicating files, and write it, as JSON or binary as asked, to the one chosen output: file, temporary file whose name is printed, or standard output. The breaking descriptor set always includes imports, requires an output path, and is read back the same way.",
 ["configurations", "inputs", "fault_sequences"], "Every combination of output, format and inclusion flags over every set of directories.",
 "Tests write one small descriptor set in one form; merging of overlapping sets and the flag combinations are not sampled.",
 ["internal/exec/runner.go", "internal/desc/desc.go", "internal/protoc/compiler.go"],
 [("commands", "internal/exec/runner.go DescriptorSet, BreakDescriptorSet"), ("merge", "internal/desc/desc.go"), ("flags", "internal/protoc/compiler.go")],
 SUMMARY, LIMIT)
prop("C33", "Listing, inspection, dry runs and version output show what is in force",
 "The commands that only show something print all of what they name and nothing else: the files that would be processed, the rules and groups in force and their differences, the packages with their dependencies and importers, the protoc commands that would be run, and the version. Each goes to standard output in a definite order, and invalid combinations of listing flags are errors.",
 ["inputs", "configurations"], "Every listing, inspection and dry-run command for every configuration and tree.",
 "Output of these commands is tested for one or two cases; a lost or extra entry in another case goes unnoticed.",
 ["internal/exec/runner.go", "internal/cmd"],
 [("printing", "internal/exec/runner.go"), ("commands", "internal/cmd/templates.go")],
 SUMMARY, LIMIT)
prop("N01", "Formatting twice equals formatting once, and keeps the meaning of the file",
 "For every file the parser accepts, formatting the formatted file changes nothing, and the formatted file compiles to the same descriptors as the original.",
 ["inputs"], "Every Protobuf file.",
 "The tests format a few dozen sample files.",
 ["internal/format"],
 [("formatter", "internal/format")],
 "none", LIMIT,
 na="Relates the formatter to the third-party parser and to protoc over all texts: it needs the grammar both accept and an inductive argument over the printed form, which no static analysis of this source yields. What each visitor emits, and in which order, is decided under C23 and C24.")
prop("N02", "A file walk ends within the walk timeout and downloads end eventually",
 "Walking the tree for files ends with an error once the configured walk timeout passes, and no prototool command runs for ever.",
 ["fault_sequences", "schedules"], "Every tree, file system and server.",
 "Slow file systems and servers do not occur in the tests.",
 ["internal/file/proto_set_provider.go", "internal/protoc/downloader.go"],
 [("walk", "internal/file/proto_set_provider.go"), ("download", "internal/protoc/downloader.go")],
 "none", LIMIT,
 na="Elapsed time depends on the operating system, the network (http.Get has no timeout) and protoc; no static bound exists. That the timeout is wired to the walk, and that a worker is not left behind, is decided under C15, C18 and C30.")
prop("N03", "Prototool's parser and protoc accept the same files",
 "Every file protoc compiles can be linted and formatted, and positions reported by lint are those of the source text.",
 ["inputs"], "Every Protobuf file.",
 "The tests use files both accept.",
 ["internal/protoc", "internal/lint", "internal/format"],
 [("parser", "github.com/emicklei/proto (third party)")],
 "none", LIMIT,
 na="Compares two third-party programs (emicklei/proto and protoc) whose source is not part of this repository.")
