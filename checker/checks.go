package main

// allChecks maps every property to the parts of the specification and the
// rules that decide it.
func allChecks() []*Check {
	s := func(area, root string) Sel { return Sel{Area: area, Root: root} }
	return []*Check{
		{ID: "C01", Note: noteSummary("every method of every visitor of every registered lint rule, and the text classification helpers the rules use"),
			Sels: []Sel{s("lintrun", `\(\*lint\.baseLinter\)\.Check|lint\.(GetDirPathToDescriptors|runVisitor|hasCompleteSentenceComment)`), s("lint", ".*"), s("strs", ".*"), s("tables", `lint\.packageNoKeywordsKeywordsMap`),
				s("lintrun", `lint\.(commentContainsPeriod|commentStartsWithUppercaseLetter|hasGolangStyleComment|isPackageLowerCase)`)}},
		{ID: "C02", Note: noteSummary("every traversal step (Accept) and the driver of every lint rule"),
			Sels: []Sel{s("lintrun", `lint\.(GetDirPathToDescriptors|CheckMultiple|checkOne|filterIgnores)|\(\*lint\.runner\)\.Run`), {Area: "lint", Root: ".*", Head: `^check: |\)\.Accept\(`}, s("lintrun", `lint\.runVisitor`)}},
		{ID: "C03", Note: noteSummary("every reset, store and map update of every lint rule and its start and end of file steps"),
			Sels: []Sel{s("lintrun", `\(\*lint\.baseLinter\)\.Check|lint\.(GetDirPathToDescriptors|checkOne|filterIgnores|shouldIgnore)`), {Area: "lint", Root: ".*", Head: `^(check|OnStart|Finally): |: (store|mapput|mapdel)`}, s("lintrun", `lint\.(runVisitor|CheckMultiple)`)}},
		{ID: "C04", Note: noteSummary("the registry and group tables, rule selection and the listing commands"),
			Sels: []Sel{s("tables", `lint\.(AllLinters|DefaultLinters|GoogleLinters|Uber1Linters|Uber2Linters|GroupToLinters|allLintIDs)`),
				s("lintrun", `lint\.(GetLinters|checkLintID|NewLinter|NewSuppressableLinter|newBaseLinter)|\(\*lint\.baseLinter\)\.(ID|Purpose)`),
				s("exec", `\(\*exec\.runner\)\.(listLinters|listAllLintGroups|listLintGroup|diffLintGroups|printLinters|Lint)|exec\.(getLinterIDs|diffMaps)`)}},
		{ID: "C05", Note: noteSummary("suppression, ignores and what is attached to a lint failure"),
			Sels: []Sel{s("file", `file\.IsExcluded`), s("lintrun", `\(\*lint\.baseLinter\)\.(Check|allowSuppression|isSuppressed)|lint\.(CheckMultiple|checkOne|filterIgnores|shouldIgnore|newBaseLinter)|\(\*lint\.runner\)\.Run`),
				s("exec", `\(\*exec\.runner\)\.generateIgnores`)}},
		{ID: "C06", Note: noteSummary("every registered compatibility rule, with all helpers followed"),
			Sels: []Sel{s("breaking", ".*"), s("tables", `breaking\..*`)}},
		{ID: "C07", Note: noteSummary("the break pipeline: which trees are compared, in which direction, with which packages and rules"),
			Sels: []Sel{s("breakrun", ".*"), s("exec", `\(\*exec\.runner\)\.(BreakCheck|BreakDescriptorSet|getPackageSet.*|cloneForWorkDirPath)|exec\.moreThanOneSet`),
				s("extract", `\(\*extract\.PackageSet\)\.WithoutBeta|extract\.(NewPackageSet|newPackageSet)`), s("strs", `protostrs\.MajorBetaVersion`), s("git", ".*"), {Area: "breaking", Root: "registry"}}},
		{ID: "C08", Note: noteSummary("the commands that report failures and the path from their error to the exit status"),
			Sels: []Sel{s("protoc", `\(\*protoc\.compiler\)\.(Compile|runCmdMeta|parseProtocOutput)`), s("cmd", `cmd\.(Do|checkCmd|printAndGetErrorExitCode|runRootCommand)`),
				s("exec", `\(\*exec\.ExitError\)\.Error|\(\*exec\.runner\)\.(All|Lint|Format|Compile|Gen|BreakCheck|lint|format|compile|doCompile|printFailures|printFailuresForErrorFormat|compileFullControl|DescriptorSet|getPackageSet.*|generateIgnores)|exec\.newExitErrorf`),
				{Area: "commands", Root: ".*", Head: `^Run: `}}},
		{ID: "C09", Note: "Every call in the module that yields an error is an obligation (rule errors, see rules_err.go): on every control-flow path from the call, the error is returned, appended to the error returned, stored where a caller takes it from, handed on, tested against nil with a failing outcome on the error branch, or among the reviewed cases where it carries no failure. " + noteSummary("which error each operation returns"),
			Sels: errSels(), Rules: []Rule{{"errors", errorRule}}},
		{ID: "C10", Note: noteSummary("every function that creates temporary artifacts or opens files"),
			Sels: []Sel{s("protoc", `\(\*protoc\.compiler\)\.(getCmdMetas|ProtocCommands)|protoc\.cleanCmdMetas|\(\*protoc\.downloader\)\.(downloadInternal|getDownloadData|cache)`), s("lintrun", `lint\.GetDirPathToDescriptors`), s("exec", `\(\*exec\.runner\)\.(getPackageSet.*|DescriptorSet|BreakCheck)`), s("git", ".*"), s("desc", `diff\..*`), s("protoc", `\(\*protoc\.cmdMeta\)\.Clean|\(\*protoc\.compiler\)\.(Compile|getDescriptorSetFilePath)|protoc\.getTempFilePath`)}},
		{ID: "C11", Note: "Every call to an external function that can change files, processes or the network is an obligation (rule effects, see rules_eff.go): the effects that each command can reach in the call graph, with the option and dry-run gates between, are those the command exists for, and what is written, removed or run derives from the sources specified for it. " + noteSummary("the functions that have such effects"),
			Sels: effSels(), Rules: []Rule{{"effects", effectRule}}},
		{ID: "C12", Note: noteSummary("the functions that create new files for the user"),
			Sels: []Sel{s("create", `\(\*create\.handler\)\.(Create|checkFilePath|create)`), s("exec", `\(\*exec\.runner\)\.(Init|Create)`)}},
		{ID: "C13", Note: noteSummary("the three output modes of format"),
			Sels: []Sel{s("format", `\(\*format\.transformer\)\.Transform`), s("exec", `\(\*exec\.runner\)\.(Format|format|formatFile|newTransformer|All)`), {Area: "commands", Root: "formatCmdTemplate|allCmdTemplate"}, s("desc", `diff\..*`)}},
		{ID: "C14", Note: "Every loop over a map in the module is an obligation (rule maporder, see rules_map.go): what the iterations do commutes (map and set updates, sums, extremes, membership tests, failing with some error), or the list they gather is sorted by a total key before anything that depends on order uses it. " + noteSummary("where lists are sorted, and by which key"),
			Sels: sortSels(), Rules: []Rule{{"maporder", mapRule}}},
		{ID: "C15", Note: "Lockset and goroutine-lifetime analysis (rules locks and goroutines, see rules_sync.go): every access to a variable or field shared between goroutines is an obligation, discharged by a common mutex held on every path, by ordering before the goroutine starts or after it is waited for, or by immutability; every lock taken is released on every path and never taken while held; every goroutine started is waited for, receives a counterpart for each channel operation and is told when the wait is given up. " + noteSummary("the functions that start goroutines, lock or wait"),
			Sels: syncSels(), Rules: []Rule{{"locks", lockRule}, {"goroutines", goRule}}},
		{ID: "C16", Note: noteSummary("configuration discovery and decoding"),
			Sels: []Sel{s("file", `\(\*file\.protoSetProvider\)\.(getBaseProtoSets|getConfig|getMultipleForDir|getDefaultBaseProtoSet|GetForDir)`), s("settings", `\(\*settings\.configProvider\)\..*|settings\.(getExternalConfig|jsonUnmarshalStrict|getFilePathForDir|getSingleFilePathForDir|newConfigProvider|NewConfigProvider|ConfigProviderWith.*)`),
				s("tables", `settings\.ConfigFilenames`)}},
		{ID: "C17", Note: noteSummary("the mapping and validation of configuration values"),
			Sels: []Sel{s("settings", `.*`), s("strs", `strs\.(SortUniq|SortUniqModify|MapToSortedSlice|Intersection)`)}},
		{ID: "C18", Note: noteSummary("the flags of every command, what each command runs, and the option plumbing down to every component"),
			Sels: []Sel{s("cmd", `.*`), s("exec", `\(\*exec\.runner\)\.(compile|doCompile|compileFullControl|getMeta|Create|Lint|Gen|GRPC|Init)`), s("commands", ".*"), s("cmd", `cmd\.(getRunner|getRootCommand)|\(\*cmd\.cmdTemplate\)\.Build`),
				s("exec", `exec\.(RunnerWith.*|NewRunner|newRunner)|\(\*exec\.runner\)\.(cloneForWorkDirPath|new.*)`),
				s("protoc", `protoc\.(CompilerWith.*|DownloaderWith.*|NewCompiler|newCompiler|NewDownloader|newDownloader)|\(\*protoc\.compiler\)\.newDownloader`),
				s("file", `file\.(ProtoSetProviderWith.*|NewProtoSetProvider|newProtoSetProvider)`),
				s("create", `create\.(HandlerWith.*|NewHandler|newHandler)`), s("format", `format\.(TransformerWith.*|NewTransformer|newTransformer)`),
				s("grpc", `grpc\.(HandlerWith.*|NewHandler|newHandler)`),
				s("lintrun", `lint\.(NewRunner|newRunner|RunnerWithLogger)`)}},
		{ID: "C19", Note: noteSummary("the protoc download and cache"),
			Sels: []Sel{s("protoc", `\(\*protoc\.compiler\)\.newDownloader`), s("protoc", `\(\*protoc\.downloader\)\..*|protoc\.(flock.*|getDefaultBasePath.*|getProtocSPath|getUnameSUnameMPaths|newDownloader)`),
				s("exec", `\(\*exec\.runner\)\.(CacheUpdate|CacheDelete)`)}},
		{ID: "C20", Note: noteSummary("directory containment and exclusion, and their callers"),
			Sels: []Sel{s("file", `\(\*file\.protoSetProvider\)\.walkAndGetAllProtoFiles|file\.getDirPathToProtoFiles`), s("protoc", `\(\*protoc\.compiler\)\.(getCmdMetas|makeGenDirs)`), s("exec", `\(\*exec\.runner\)\.(format|formatFile)`), s("settings", `settings\.(IsWithinDir|getExcludePrefixes.*)|\(\*settings\.configProvider\)\.GetExclude.*`),
				s("file", `file\.(IsExcluded|validateIsRel|validateProtoSet|AbsClean|CheckAbs)`), s("lintrun", `lint\.(GetDirPathToDescriptors|shouldIgnore)`)}},
		{ID: "C21", Note: noteSummary("the parsing of protoc's output"),
			Sels: []Sel{s("protoc", `\(\*protoc\.compiler\)\.(parseProtoc.*|runCmdMeta|Compile)|protoc\.getDisplayFilePath|\(\*protoc\.cmdMeta\)\..*`)}},
		{ID: "C22", Note: noteSummary("the protoc invocations: arguments, include paths and plugins"),
			Sels: []Sel{s("protoc", `\(\*protoc\.compiler\)\.Compile`), s("exec", `\(\*exec\.runner\)\.(Gen|doProtocCommands|newCompiler)`), s("protoc", `\(\*protoc\.compiler\)\.(getCmdMetas|getPluginFlagSets|makeGenDirs|getDescriptorSetFilePath|ProtocCommands)|protoc\.(getIncludes|getPluginFlagSet.*|getModifierFlags|getRelOutputFilePath|devNull|getFileDescriptorSet)|\(protoc\.FileDescriptorSets\)\.Unwrap|\(\*protoc\.cmdMeta\)\.String`)}},
		{ID: "C23", Rules: []Rule{{"printed", printRule}}, Note: noteSummary("every method of both formatter passes, including the order in which text is emitted"),
			Sels: []Sel{s("format", `\(\*format\.(baseVisitor|mainVisitor)\)\..*|\(\*format\.firstPassVisitor\)\..*|\(\*format\.transformer\)\.Transform|format\.(isSingleValueLiteral|checkFix)`),
				s("desc", `.*buf\..*`)}},
		{ID: "C24", Note: noteSummary("what --fix rewrites"),
			Sels: []Sel{s("exec", `exec\.getFormat.*|\(\*exec\.runner\)\.(Format|All|format|formatFile)`), s("format", `\(\*format\.firstPassVisitor\)\.(Do|VisitOption|VisitPackage|VisitSyntax|VisitComment|VisitImport|PImports)|format\.(newFirstPassVisitor|checkFix|TransformerWith.*)|\(\*format\.transformer\)\.Transform`),
				s("strs", `protostrs\..*|strs\.(ToUpperCamelCase|SplitSnakeCaseWord|IsCapitalized|isDelimiter)`), s("exec", `\(\*exec\.runner\)\.newTransformer`)}},
		{ID: "C25", Note: noteSummary("the construction of the reflection model and its accessors"),
			Sels: []Sel{s("extract", ".*"), s("reflect", ".*"), s("strs", `strs\.(SortUniq|MapToSortedSlice)`), s("desc", `desc\..*`),
				s("exec", `\(\*exec\.runner\)\.(InspectPackage.*|getPackage|printPackageNames)|exec\.extractSortPackageNames`)}},
		{ID: "C26", Note: noteSummary("the well-known type tables"),
			Sels: []Sel{s("protoc", `protoc\.getPluginFlagSet`), s("tables", `wkt\..*`), s("protoc", `protoc\.(getModifierFlags|getPluginFlagSetProtoFlags)`)}},
		{ID: "C27", Note: noteSummary("gRPC calls"),
			Sels: []Sel{s("desc", `desc\.(Sort|sort).*`), s("grpc", ".*"), s("exec", `\(\*exec\.runner\)\.(GRPC|newGRPCHandler)`), {Area: "commands", Root: "grpcCmdTemplate"}}},
		{ID: "C28", Note: noteSummary("how failures are ordered and printed"),
			Sels: []Sel{s("exec", `\(\*exec\.runner\)\.(lint|doCompile|compile|compileFullControl|BreakCheck|formatFile|printFailures)`), s("lintrun", `lint\.CheckMultiple`), s("text", ".*"), s("tables", `text\..*`), s("exec", `\(\*exec\.runner\)\.(printFailuresForErrorFormat|println)`)}},
		{ID: "C29", Note: "Every index, slice, division, map store, pointer and type-assertion result whose failure would panic is an obligation (rules bounds and nils, see rules_idx.go and rules_nil.go): difference constraints collected from the dominating branch conditions, the results of library calls, the constructors of the value and all call sites imply that the index is in range, and a value that can be absent is tested on every path before it is used.", Rules: []Rule{{"bounds", boundsRule}, {"nils", nilRule}}},
		{ID: "C30", Note: noteSummary("which files a command works on"),
			Sels: []Sel{s("lintrun", `lint\.GetDirPathToDescriptors`), s("exec", `\(\*exec\.runner\)\.(format|formatFile)`), s("settings", `settings\.getExcludePrefixes.*|\(\*settings\.configProvider\)\.GetExclude.*`), s("file", ".*"), s("exec", `\(\*exec\.runner\)\.(getMeta|Files|printAffectedFiles)`)}},
		{ID: "C31", Note: noteSummary("what create and config init write"),
			Sels: []Sel{s("strs", `protostrs\..*|strs\.(ToUpperCamelCase|SplitSnakeCaseWord|IsCapitalized|isDelimiter)`), s("settings", `settings\.getFileHeaderLines`), s("create", ".*"), s("tables", `create\..*|cfginit\..*`), s("exec", `\(\*exec\.runner\)\.(Init|Create|newCreateHandler)`)}},
		{ID: "C32", Note: noteSummary("the descriptor-set commands and the merging of descriptor sets"),
			Sels: []Sel{s("protoc", `\(\*protoc\.compiler\)\.getCmdMetas`), s("exec", `\(\*exec\.runner\)\.getPackageSet.*`), s("exec", `\(\*exec\.runner\)\.(DescriptorSet|BreakDescriptorSet|compileFullControl|doCompile|newCompiler|getPackageSetForDescriptorSetPath)`), s("desc", `desc\.(Merge|Sort|sort|merge|clone).*`),
				s("protoc", `protoc\.(getFileDescriptorSet)|\(protoc\.FileDescriptorSets\)\.Unwrap|\(\*protoc\.compiler\)\.(Compile|getDescriptorSetFilePath)`), {Area: "commands", Root: "(d|D)escriptorSetCmdTemplate"}}},
		{ID: "C33", Note: noteSummary("the commands that only show something: version, files, listings, packages and dry runs"),
			Sels: []Sel{s("protoc", `\(\*protoc\.compiler\)\.ProtocCommands|\(\*protoc\.cmdMeta\)\.String`), s("lintrun", `lint\.GetLinters|\(\*lint\.baseLinter\)\.Purpose`), s("exec", `\(\*exec\.runner\)\.(Version|Files|InspectPackage.*|printPackageNames|printLinters|listLinters|listAllLinters|listLintGroup|listAllLintGroups|diffLintGroups|doProtocCommands|printAffectedFiles|println)|exec\.(extractSortPackageNames|getLinterIDs|diffMaps|newTabWriter)`),
				s("cmd", ".*"), {Area: "commands", Root: "(version|files|inspect.*|lint|compile|generate)CmdTemplate", Head: `^Run: `}}},
	}
}

var allAreaIDs = []string{"exec", "protoc", "file", "settings", "git", "create", "desc", "grpc", "breakrun", "breaking", "reflect", "extract", "cmd", "lintrun", "format", "text", "commands"}

func areaSels(head string, areas ...string) []Sel {
	var out []Sel
	for _, a := range areas {
		out = append(out, Sel{Area: a, Root: ".*", Head: head})
	}
	return out
}

// errSels are the results that are errors.
func errSels() []Sel {
	return areaSels(`^return \((any\(\), )*(err\(\)|ret\.\d\(.*\)|\(\*?[a-z]+\.[a-zA-Z]+\)\.[A-Za-z]+\(.*\)|[a-zA-Z/.]+\.[A-Za-z]+\(.*\)|[A-Za-z]+@[0-9a-f]+|ret@[0-9a-f]+|\{Code: .*)\)`,
		"exec", "protoc", "file", "settings", "git", "create", "desc", "grpc", "breakrun", "reflect", "extract", "cmd", "lintrun")
}

// effSels are the calls that change something outside the process.
func effSels() []Sel {
	return areaSels(`^call (io/ioutil\.(WriteFile|TempFile|TempDir)|os\.\w+|\(\*os\.File\)|\(\*?os/exec|net/http|\(\*exec\.runner\)\.(compile|format|formatFile|newCompiler|newDownloader)|protoc\.CompilerWithGen|\(\*protoc\.compiler\)\.(makeGenDirs|runCmdMeta)|github.com/fullstorydev)`,
		"exec", "protoc", "git", "create", "desc", "grpc", "cmd")
}

// sortSels are the steps that make an order definite.
func sortSels() []Sel {
	return areaSels(`sort\.|^cbret|SortUniq|SortFailures|sortFailures|SortedDirPaths`, allAreaIDs...)
}

// syncSels are the steps that start, order or end concurrent work.
func syncSels() []Sel {
	return areaSels(`^(call (\(\*?(sync|golang.org/x/sync|github.com/gofrs/flock|context|os/signal|time)|sync|os/signal|context|time\.)|go |send|recv|select|chan|close)`, allAreaIDs...)
}

func noteSummary(what string) string {
	return "Guarded effect summaries (every call, store and result with the exact condition under which it happens, computed by dataflow over the type-checked SSA form, with helpers followed and loops summarised) of " + what + " are computed from the current source and compared, as canonical terms, with the reviewed specification in checker/spec. An obligation is one specified effect or result; it is discharged when the current source has it under the same condition, and any effect or result that is not specified is a violation."
}
