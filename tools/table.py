PENDING = "check not built yet"

# ---------------------------------------------------------------- job server
prop("J01", "Only the package's first compiler builds it; others reuse its archives",
 "When several compile commands for the same import path run concurrently under one job server, exactly one is told to build and every other one waits for it and then reuses its published files, which are verified against the published label and content before being put in place. A build which ends (successfully, with an error, or by its process going away) always releases those who wait, and a failed or incomplete result is reported as such rather than reused. Concurrent requests see each build in one consistent state.",
 ["schedules","fault_sequences"], "all interleavings of compile commands sharing an import path, all failures of the building process",
 "Existing tests run a handful of goroutines against one schedule; the guarantee is over every interleaving and every failing step of the publisher.",
 ["internal/jobserver/nbt/nbt.go","internal/toolexec/proxy/compile.go"],
 [("build state machine", "internal/jobserver/nbt.service"), ("client side", "internal/toolexec/proxy.CompileCommand.Close")],
 "typestate of the build state, must-follow release of waiters, error-fate and lock-order analysis",
 "does not bound waiting time; hash collisions of the content digest are outside its scope.")
prop("J02", "Every job server request is answered exactly once, with its own outcome",
 "The job server sends exactly one reply to every request it receives: the handler's result when it succeeded, and the handler's error otherwise, also when the request cannot be decoded or the reply cannot be encoded. A client returns an error for every reply that carries one, and a result otherwise. Requests do not share mutable per-request data with each other.",
 ["schedules","inputs","fault_sequences"], "all requests, including malformed ones, and all failures while handling them, under concurrency",
 "Tests exercise well-formed requests one at a time; a missing or double reply needs a failing encode/decode path or concurrent requests.",
 ["internal/jobserver/common/handler.go","internal/jobserver/common/request.go","internal/jobserver/client/client.go","internal/jobserver/server.go"],
 [("handler wrapper","internal/jobserver/common.HandleRequest"),("client","internal/jobserver/client.Client.Request")],
 "path counting of reply events, error-fate analysis, capture/escape analysis of request contexts",
 "the NATS transport is trusted to deliver.")
prop("J03", "Shared state is only accessed under its lock, and locks never deadlock",
 "Every piece of state that concurrent goroutines share (job server caches, dependency graph, client registry, memoised version, and package-level caches) is accessed only with its mutex held, or only atomically. Every acquired lock is released on all paths, a mutex is never acquired again by its holder, locks are acquired in one global order, and no goroutine blocks on another party's progress while holding a lock such progress needs.",
 ["schedules"], "all interleavings of the goroutines of the job server and of a weaving process",
 "The race detector and the tests only see the schedules they run.",
 ["internal/jobserver","internal/injector","internal/goenv/goenv.go","internal/filelock"],
 [("caches","internal/jobserver/common"),("server client registry","internal/jobserver/server.go")],
 "lockset analysis, lock-order graph, must-release analysis, goroutine capture analysis",
 "value-based lock identity per struct field; state shared through external libraries is outside its scope.")
prop("J04", "Nested package resolution neither recurses without end nor deadlocks",
 "Builds started to resolve packages on behalf of a compilation cannot start an unbounded chain of builds: nested go commands always get an explicit toolexec setting, never force rebuilding everything again, and are attached to the running job server. A resolution which would make a package's build wait for itself, directly or through other packages, is rejected with an error before anything waits, whatever the order in which dependencies were registered. Registered dependencies last as long as any request that needs them and are removed afterwards.",
 ["programs","schedules","histories"], "all import graphs and all orders in which nested resolutions arrive",
 "Tests cover one cycle shape; cycles can involve any number of packages and arrive in any order.",
 ["internal/jobserver/pkgs","internal/jobserver/common/graph.go","internal/goflags/flags.go"],
 [("cycle detection","internal/jobserver/common.Graph"),("nested builds","internal/jobserver/pkgs.service.resolve")],
 "value provenance of spawned build configurations, must-precede and argument agreement for the dependency edges, structural search-completeness rules",
 "relies on go/packages passing BuildFlags and Env on verbatim.")
prop("J05", "Cached results are keyed by all their inputs, computed once and never modified",
 "Two job server requests share a cached result only when every input that can influence it is equal; differences in the order of environment variables or in superseded assignments do not matter. A cached result is computed at most once concurrently, a failed computation is reported and never cached, and a result is served only once completely computed. A result shared through a cache is never modified on behalf of one request.",
 ["inputs","histories","schedules"], "all sequences and interleavings of resolve, load and version requests",
 "Tests send few requests with nearly equal inputs; a key that omits an input only shows for a specific pair of requests.",
 ["internal/jobserver/pkgs","internal/jobserver/common/cache.go","internal/jobserver/buildid/version.go","internal/goenv/goenv.go"],
 [("cache","internal/jobserver/common.Cache"),("key","internal/jobserver/pkgs.ResolveRequest.hash")],
 "field-coverage of cache keys, guarded typestate of cache slots, alias analysis of cached values",
 "SHA-512 collisions and files changing on disk during one job server's life are outside its scope.")
prop("J06", "One job server per work tree; it stays up while it has clients and cleans up",
 "At most one job server serves a given URL file: a server only starts while holding the file's exclusive lock and after finding no reachable server in it, the file holds exactly the new server's URL before the lock is released, and it is removed when this server ends (normally, on failure or on interrupt). An idle server shuts down only if no client is connected when the inactivity period ends; a connecting client cancels a pending shutdown and the departure of the last client schedules one. A server is only handed out once ready, and one that fails to start or shuts down releases what it created.",
 ["histories","schedules","fault_sequences"], "all orders of client arrival and departure, concurrent server starts, all failures while starting and interrupts",
 "Tests start one server and a few clients; concurrent starts, interrupts and failing steps are not exercised.",
 ["internal/cmd/server.go","internal/jobserver/server.go","internal/jobserver/nbt/nbt.go","internal/goproxy/proxy.go"],
 [("start and URL file","internal/cmd.Server"),("client registry","internal/jobserver.Server"),("shutdown of command-owned servers","internal/goproxy.Run")],
 "must-precede/must-follow of lock, probe, write and removal events; guarded typestate of the client registry; release-on-all-paths",
 "a server killed without a chance to clean up leaves its file behind, which the next server overwrites.")
prop("J07", "Clients find the right job server; file locks track their state",
 "A process that needs the job server uses the one named in its environment if any, otherwise the one whose URL is in the work tree's URL file, starting one as needed; it never reads the URL without the file's lock nor uses an empty one, and gives up with an error when the server process fails or the start timeout elapses. A file lock is only regarded as held once the system granted it; re-acquiring a held lock has no effect while changing its kind really changes it; I/O through a lock file that is not open fails.",
 ["schedules","fault_sequences","histories"], "all interleavings with a starting or failing server, all environments, all sequences of lock operations",
 "The tests use a server that starts at once, and lock sequences that all succeed.",
 ["internal/jobserver/client/env.go","internal/filelock/filelock.go","internal/filelock/filelock_unix.go"],
 [("discovery","internal/jobserver/client.FromEnvironment"),("locks","internal/filelock.Mutex")],
 "typestate of the file lock against its system calls, must-precede of lock before read, select-arm analysis of the wait loop",
 "flock semantics of the system are trusted.")

# ---------------------------------------------------------------- fingerprints
prop("F01", "The injector fingerprint covers the whole injector configuration",
 "Two aspect lists that differ in anything that can influence weaving (any configured value of an aspect, join point, advice or code template, their number or their order where it matters) have different fingerprints: every such value enters the fingerprint, in an encoding that delimits values and distinguishes kinds of join points, advice and templates from each other. Equal configurations always have equal fingerprints, whatever the iteration order of maps. A failure to compute part of the fingerprint is reported.",
 ["inputs","configurations"], "all pairs of aspect lists over all join point, advice and template kinds",
 "Tests compare a few fingerprints; an omitted field or an ambiguous encoding only shows on a specific pair of configurations, where stale builds are silently reused.",
 ["internal/fingerprint","internal/injector/aspect"],
 [("hasher","internal/fingerprint.Hasher"),("Hash methods","internal/injector/aspect/...: Hash")],
 "field-coverage and lossless-carry dataflow over every Hash method, uniqueness of encodings, order-independence of map hashing",
 "collisions of the underlying digest are outside its scope.")
prop("F02", "The tool version changes whenever anything that shapes woven code changes",
 "The version orchestrion reports to the go command on behalf of a Go tool (which keys the build cache) is the tool's own version output extended with a suffix that covers: orchestrion's release, the content of a development build's executable, the configured aspects, and every package that injected code or link dependencies can pull in, with the module version of each, or with the content of all of its source files where the module has no fixed version (main module, replacements by directories). A failure to obtain any part fails the version query; no partial version is ever reported.",
 ["configurations","histories"], "all configurations, dependency sets, contents of local modules and failures",
 "Tests compute the version for one module and compare it with itself; a part that is left out only shows when that part alone changes between two builds, as a stale cache entry.",
 ["internal/toolexec/version.go","internal/jobserver/buildid"],
 [("tool version","internal/toolexec.ComputeVersion"),("suffix","internal/jobserver/buildid.service.versionSuffix")],
 "must-carry dataflow from each input to the digest, loop completeness, error propagation analysis",
 "that the version of a published module fixes its content is trusted to the module system.")
prop("F03", "Weaving output never depends on map order, concurrency, time or randomness",
 "Everything orchestrion produces for a build (woven source files, synthetic files, import configurations' contents, link dependency records, fingerprints, tool versions) depends only on its inputs: no iteration order of a map, completion order of concurrent work, clock, process identity, address or random value shows in it. Lists filled from a map are sorted, by what tells their entries apart, before they are used.",
 ["inputs","schedules"], "all inputs and map iteration orders",
 "Tests check one or two runs with small maps, in which random iteration orders rarely differ visibly.",
 ["internal/toolexec","internal/injector","internal/fingerprint","internal/jobserver/buildid"],
 [("synthetic imports","internal/injector/typed.ReferenceMap.AddSyntheticImports"),("link dependencies","internal/toolexec/aspect/linkdeps")],
 "effect analysis of every map iteration and concurrent worker, entropy source audit",
 "determinism of the Go toolchain and of third-party libraries is trusted; log output is out of scope.")
prop("W01", "Prefilters never rule out a package, file or aspect that could match",
 "Before weaving, packages and files are skipped, and aspects left out, on the answer of cheap filters (imported packages, package name, test-main mode, text of the file). Whenever a filter answers that a join point or function option can never match, that join point or option does not match any node of the package or file concerned. Aspects are only left out on that answer, files are only left unparsed when no file of the package has an aspect left, and filters are told the same package, imports, text and mode that matching sees.",
 ["inputs","configurations"], "all source files, packages and combinations of join points",
 "Tests ask a few filters about a few packages; a filter that is slightly too eager silently leaves code uninstrumented only for the sources that need it.",
 ["internal/injector/aspect/may","internal/injector/aspect/join","internal/injector/parse","internal/injector/imports.go"],
 [("filters","internal/injector/aspect/join.Point"),("lattice","internal/injector/aspect/may.MatchType"),("parser","internal/injector/parse.Parser.ParseFiles")],
 "classification of every NeverMatch answer by the facts it relies on, refutation of the matching function under these facts by abstract interpretation",
 "identifiers, keywords and comments of a file are assumed to appear literally in its text; the packages a file can name are those in the import configuration.")
prop("W02", "Ignored code and excluded packages are never woven; everything else is",
 "A node directly preceded by an ignore directive (//orchestrion:ignore or //dd:ignore, alone or followed by a space and a reason) is neither woven nor is anything below it; every other node is visited, and advice is applied to visited nodes only. A package whose path matches the first applicable entry of the special-case table (the path itself or, for prefix entries, anything below it) is never woven, woven with tracer-internal aspects only, or woven normally, as that entry says; packages matching no entry are woven with all aspects.",
 ["inputs"], "all comments, syntax trees and import paths",
 "Tests use a few files and paths; a directive or path that is recognised too loosely or too strictly silently weaves code that opted out, or skips code that did not.",
 ["internal/injector/labels.go","internal/injector/injector.go","internal/toolexec/aspect/specialcase.go","internal/toolexec/aspect/oncompile.go"],
 [("directives","internal/injector.isIgnored"),("traversal","internal/injector.Injector.applyAspects"),("special cases","internal/toolexec/aspect.FindBehaviorOverride")],
 "abstract interpretation of the opt-out tests over classes of comments and import paths; path analysis of the traversal and the weaver",
 "the import path of a test variant is reported by the go command as 'pkg [pkg.test]', which exact entries do not match.")
prop("W03", "Every matching aspect's advice is applied once, in order, and takes effect",
 "At every visited node, all join points are matched before any advice is applied; then each advice of each matching aspect is applied exactly once, in ascending order of namespace (advice without one comes last), order, and position in the configuration. A failing advice stops the weaving of the file and is returned to the caller. A file counts as modified exactly if some advice changed a node of it or imports had to be added for injected code; each modified file, and no other, is written and compiled in place of the file it was woven from.",
 ["inputs","configurations"], "all sources, and all numbers and orders of aspects and advice",
 "Tests weave examples with one or two aspects; a lost change flag, a reordered or skipped advice only shows with several advice on one node.",
 ["internal/injector/injector.go","internal/injector/aspect/advice/order.go","internal/toolexec/aspect/oncompile.go"],
 [("matching and applying","internal/injector.injectNode"),("files","internal/injector.Injector.InjectFiles"),("order","internal/injector/aspect/advice.Sort")],
 "loop-completeness and order analysis of advice collection and application; abstract evaluation of the comparator on all sign combinations; path analysis of error and change reporting",
 "what a single advice does to the syntax tree is out of scope, except that it reports the change.")
prop("T01", "Every toolchain command runs exactly once, as given, with its own outcome",
 "A command other than the compiler and the linker is executed as it is. A compile or link command is executed exactly once, after it was pinned for and processed by all phases in order (weaving, link dependencies of main packages, linking); it is not executed when parsing, pinning or processing failed (which is returned), nor when its outputs were reused or a phase asks to skip it (which succeeds), nor for version queries, which are answered with the extended version. The tool gets exactly the arguments, environment and standard streams orchestrion was given, except for edits of arguments a phase names (which replace that argument's value only), and its outcome, including its exit status, is reported.",
 ["inputs","fault_sequences"], "all command lines and combinations of failures",
 "Tests parse and edit a few command lines; combinations of failing steps, and unusual argument forms are never run.",
 ["internal/cmd/toolexec.go","internal/toolexec/proxy"],
 [("command","internal/cmd.Toolexec"),("execution","internal/toolexec/proxy.RunCommand"),("edits","internal/toolexec/proxy.command.SetFlag")],
 "path analysis of the toolexec command over all outcomes of its steps; value provenance of the executed command; abstract evaluation of argument edits and of the recognition of tools",
 "os/exec is trusted.")
prop("T03", "Import configurations are read, extended and written back without loss",
 "Every line of an import configuration is understood as the Go tools understand it (packagefile, importmap, comments, blank lines) or kept verbatim. An import configuration orchestrion writes contains every entry it has, one line each, as the Go tools read them; entries are added but never removed, and merging never replaces one. A package's archive is looked up through the import map, and a missing archive is an error. Failures to read or write are reported.",
 ["inputs","fault_sequences"], "all import configurations, import paths and I/O failures",
 "Tests round-trip one or two configurations; an unusual line (an '=' in a path, a directive without a space, an import map entry) is silently lost.",
 ["internal/toolexec/importcfg"],
 [("parser","internal/toolexec/importcfg.parse"),("writer","internal/toolexec/importcfg.ImportConfig.write"),("lookup","internal/toolexec/importcfg.ImportConfig.Lookup")],
 "abstract evaluation of the parser on every class of line and of lookups; loop-completeness and text-template analysis of the writer; effect analysis of the tables",
 "the format is the one cmd/compile and cmd/link of go1.25 read.")
prop("T04", "Packages injected code needs are recorded, inherited, imported and linked",
 "Every package injected code refers to, other than those the compiled package already has, is recorded as a link dependency with its kind (import, or link name); an imported one is also added, with everything it was resolved to, to the import configuration. Link dependencies are inherited by importers, never forgotten or weakened, attached to the archive before it is published, and read back as written. A main package imports the transitive closure of its link dependencies, and the linker is given an archive for each of them; a dependency that cannot be resolved to an archive is an error.",
 ["inputs","histories"], "all sets, kinds and chains of link dependencies and import configurations",
 "Tests cover short chains; a dependency lost in a longer chain, or of the other kind, only shows as a link or start-up failure of some program.",
 ["internal/toolexec/aspect","internal/toolexec/aspect/linkdeps","internal/toolexec/proxy/compile.go"],
 [("recording","internal/toolexec/aspect.Weaver.OnCompile"),("main packages","internal/toolexec/aspect.Weaver.OnCompileMain"),("linking","internal/toolexec/aspect.Weaver.OnLink"),("format","internal/toolexec/aspect/linkdeps.Read")],
 "abstract evaluation of the link dependency format and table, loop-completeness and worklist-closure analysis of recording, propagation and resolution",
 "that the resolved archives are up to date is the go command's responsibility.")
prop("T05", "Test builds never mix archives of the package under test with other variants",
 "When archives resolved for link dependencies are merged into the import configuration of a test, the package under test is never replaced, no variant built for another test is used, and other packages are replaced exactly by the variants the go command builds for this test: those of the dependency and of all it imports, once the tests are made to import it where it depends on the package under test and that has a variant of its own. Every resolution is made for the test being built; a dependency that is imported by code compiled without the variant, but resolves to a variant built for this test, is an error, found before anything is merged. The linker learns the package under test exactly as it was recorded when compiling the test main.",
 ["inputs","configurations"], "all combinations of dependencies, kinds and variants",
 "Tests cover a few combinations; mixed variants only show as link failures (fingerprint mismatches) or duplicated state in particular package graphs.",
 ["internal/toolexec/aspect/resolve.go","internal/toolexec/aspect/oncompile-main.go","internal/toolexec/aspect/onlink.go","internal/toolexec/proxy","internal/jobserver/pkgs/testvariants.go","internal/jobserver/pkgs/overlay.go"],
 [("variants","internal/jobserver/pkgs.mergeTestVariant"),("merging","internal/toolexec/aspect.mergeResolvedArchives"),("rejection","internal/toolexec/aspect.rejectSyntheticVariantDependency"),("metadata","internal/toolexec/proxy.CompileCommand.attachTestMain")],
 "abstract evaluation of archive merging over all provenance combinations, abstract interpretation of variant selection over small package graphs, must-precede of rejection before merging, format analysis of test-main metadata",
 "what the go command builds for an overlay is outside its scope.")
prop("W04", "Packages woven code refers to are imported under names that reach them",
 "Every package that injected code refers to by name is imported, under that name, by the file the code goes into: an import already there is only relied on when its name stands for that package at the place of injection, and importing a package is never weakened to linking it. Imports recorded during weaving are all added to the file, and removing duplicate imports keeps every name that may be in use. The imports an aspect declares to add cover all its advice can import, and leave out only those every matching file has already.",
 ["inputs","configurations"], "all sets of imports and scopes of the woven file, and all advice and templates",
 "Tests weave files with a few plain imports; a dot, blank or repeated import, or a local variable shadowing an alias, breaks the build of some program.",
 ["internal/injector/typed/refmap.go","internal/injector/imports.go","internal/injector/aspect/advice","internal/injector/aspect/aspect.go","internal/injector/aspect/context/context.go"],
 [("references","internal/injector/typed.ReferenceMap"),("duplicates","internal/injector.canonicalizeImports"),("declared imports","internal/injector/aspect.Aspect.AddedImports"),("templates","internal/injector/aspect/advice/code.Template")],
 "abstract evaluation of the decision to import over all kinds of existing imports, path analysis of the choice among duplicates, loop completeness and value provenance of recorded and declared imports",
 "which identifiers a template text means is decided by Go's parser; text/template actions that compute import names are outside its scope.")
prop("W05", "Sources and build inputs are never modified in place",
 "Orchestrion never writes to a source file it weaves: the woven version is written below the output directory of the compilation, under the name of its source, where no other generated file can take its place. An import configuration is only replaced after the one the go command wrote has been kept under its name with '.original' appended, and that backup is never overwritten. All else it creates, replaces or removes is its own (temporary directories, job server files, the archive being compiled, which is only added to or copied over, the pinned tool file) or was named by the user.",
 ["inputs","fault_sequences"], "all commands, sources, path values and failures of file operations",
 "Tests look at the files they expect; a write elsewhere, or one done although keeping the original failed, damages the user's tree or the go command's inputs only in unusual situations.",
 ["internal/injector/write.go","internal/toolexec/aspect","internal/toolexec/importcfg/importcfg.go","internal/toolexec/proxy/compile.go","internal/jobserver","internal/pin/pin.go"],
 [("woven files","internal/injector.Injector.writeModifiedFile"),("backups","internal/toolexec/aspect.writeUpdatedImportConfig"),("other writes","internal/files.Copy")],
 "effect analysis of every file system change with symbolic evaluation of the paths changed; path analysis of backups before overwriting",
 "files changed by the go commands orchestrion starts (go mod tidy, go list) are judged by the properties about those commands.")
prop("G01", "No failed step is mistaken for success",
 "When a call made by orchestrion reports an error (reading, writing, closing or renaming a file, parsing, running a command, talking to the job server, weaving), the function that made it never goes on to report success: it returns that error or another one. The exceptions are failures the code recognises as an expected answer (end of file, a missing file, an exit status), attempts that are repeated, and steps whose outcome cannot matter (printing messages, closing what was only read, tracing, removing temporary files). The errors of steps that run concurrently are collected and returned as well.",
 ["fault_sequences","inputs"], "every failure of every call, at any point of any command",
 "Tests inject few failures; a dropped one yields a truncated file, a partial configuration or an uninstrumented binary without any sign of it.",
 ["main.go","internal/toolexec","internal/injector","internal/jobserver","internal/pin","internal/cmd","internal/report"],
 [("compile","internal/toolexec/aspect.Weaver.OnCompile"),("archives","internal/toolexec/proxy.CompileCommand.Close"),("files","internal/files.Copy"),("reports","internal/report.FromWorkDir")],
 "error-fate dataflow: every path after each failing call of the shipped program ends by reporting it",
 "functions without an error result are only required to look at the error; which exit code results is judged by G03.")
prop("W06", "Packages that cannot be checked are left to the compiler; nothing is half-woven",
 "A package that does not type-check is handed to the compiler exactly as written, so that the compiler reports the problem: nothing is woven, no file is written and the command is unchanged; only when orchestrion itself is too old for the package does it report so. Any other failure to read, parse or check a package is reported before anything is woven, and the compile command is only changed once all its files have been woven. When a package is woven, all its files are parsed whole and type-checked together, under the language version and imports of the compile command, and all type information weaving reads is gathered.",
 ["inputs","fault_sequences"], "all packages, well-typed or not, and all failures",
 "Tests check one ill-typed package; half-checked packages only show as wrong matches or misleading errors in particular programs.",
 ["internal/injector/check.go","internal/injector/injector.go","internal/injector/parse/parser.go","internal/toolexec/aspect/oncompile.go"],
 [("type checking","internal/injector.Injector.typeCheck"),("weaving","internal/injector.Injector.InjectFiles"),("parsing","internal/injector/parse.Parser.ParseFiles")],
 "error-class analysis of type checking, abstract evaluation of what is done with each class, and completeness and provenance of what is type-checked",
 "that the type checker and the compiler agree about a program is assumed.")
prop("P02", "orchestrion go runs the go command exactly as asked",
 "`orchestrion go ARGS` runs the go command exactly once with ARGS in order and unchanged, in the directory a -C flag names, with the process's environment and standard streams; for the commands that take build flags (build, clean, get, install, list, run, test), -toolexec and a quoted value naming this executable's toolexec command come right after the command's name. For these commands a job server is listening, with its URL in the environment, before the go command starts and until it is over; nothing is run when the job server cannot start or -C's directory cannot be entered. The version pinned is checked in the directory -C names.",
 ["inputs","schedules","fault_sequences"], "all command lines, and all schedules of the job server's start",
 "Tests look at a few command lines without a job server; a misplaced argument, an ignored -C or a race with the server's start breaks particular builds only.",
 ["internal/goproxy","internal/cmd/go.go"],
 [("command","internal/goproxy.BuildCmd"),("run","internal/goproxy.Run"),("-C","internal/goproxy.ProcessDashC")],
 "abstract interpretation of command lines of unknown length over list values, happens-before analysis of the job server's goroutine, value provenance of options and arguments",
 "whether -toolexec's value survives characters cmd/go cannot unquote (backslashes, quotes in the executable's path) is not judged.")
prop("G03", "Failures end in a non-zero exit status",
 "Whenever a command of orchestrion fails, the process exits with a non-zero status: every explicit exit status is a non-zero constant or that of a failed command, the commands return the errors they meet, main turns every error left into a failure, and nothing intercepts errors or silences panics before. When the go command fails, its own exit status is the one `orchestrion go` ends with. Only finding that another job server already serves the URL file is no failure of the server command.",
 ["fault_sequences"], "every failure in every command",
 "Tests call functions, not the process; a build script relies on the status after each possible failure.",
 ["main.go","internal/cmd","internal/goproxy/proxy.go"],
 [("main","main"),("commands","internal/cmd.Go"),("server","internal/cmd.Server")],
 "audit of every explicit exit status, error-fate dataflow of the commands, path analysis of main, and abstract interpretation of how the go command's exit status is passed on",
 "the cli library is trusted to return the error of the command it runs.")
prop("P01", "orchestrion pin leaves a complete, consistent pin",
 "`orchestrion pin` reads and changes the tool file and go.mod under a lock that depends on the module only and is always released; the tool file is only ever replaced by a complete temporary file of the same directory (removed on failure), made up only when there is none, and every change made to it (pruning included) is written, after orchestrion and the integrations were added to its imports and the obsolete ones removed. go.mod ends up requiring the running version of orchestrion unless it required a later one, and go 1.23.0 or later, with its toolchain directive restored, by go commands naming that go.mod, run outside of any workspace with the local toolchain; only imports without valid configuration are pruned, never orchestrion's and never with pruning disabled. Automatic pinning happens only where orchestrion is not required yet: a requirement for another version is an error and nothing is changed.",
 ["inputs","schedules","fault_sequences"], "all tool files and go.mod files, all failures, concurrent pinning of one module",
 "Tests pin a few scaffolded modules from one process; a lock that differs between processes, a lost change or a wrong requirement shows on particular modules only.",
 ["internal/pin","internal/gomod"],
 [("pin","internal/pin.PinOrchestrion"),("automatic","internal/pin.AutoPinOrchestrion"),("go commands","internal/gomod.RunEdit")],
 "path analysis of what precedes and follows each change, value provenance of the lock's name and the temporary file's, and abstract interpretation of the edits made in each situation of go.mod",
 "what `go mod tidy` itself does to go.mod is not judged.")
prop("W07", "Pooled contexts, chain links and hashers are never shared or stale",
 "An object taken from a pool (contexts, node-chain links, fingerprint hashers, checksum states) carries nothing over from its previous use; a function gives back only what it acquired itself, at most once, never uses it afterwards nor lets it outlive the call (stored, returned, another goroutine), and no join point, advice, template or global variable can hold on to a context. A context derived from another (Parent, Child) has all of its properties except its place in the tree, and cannot replace nodes through the other's cursor. The chain of nodes gets one link for each node entered, popped once when the node is left (after the node was looked at), the first one carrying the root configuration.",
 ["inputs","schedules"], "all files, aspects and schedules",
 "Pools hand stale or shared objects out only under particular schedules and garbage collections; a test sees them by luck.",
 ["internal/injector/aspect/context","internal/fingerprint","internal/injector/injector.go","internal/jobserver/buildid"],
 [("contexts","internal/injector/aspect/context.context.Release"),("chains","internal/injector/aspect/context.NodeChain.Child"),("weaving","internal/injector.Injector.applyAspects")],
 "ownership and typestate analysis of pooled objects: initialisation of every field, who may release, use after release, escape",
 "objects never given back (left to the garbage collector) are not judged.")
prop("W09", "Woven code is compiled at the language level it needs",
 "Advice that inserts a template's code demands the template's language level for every template compiled; the levels demanded in any file are merged to the highest (compared as Go versions), file by file and over all modified files of the package once all are done, and set on the compile command. The command's -lang is raised to it exactly when one was given that is lower, an error to do so being reported, and never lowered. Setting a flag changes this flag's value only, in both the `-flag value` and `-flag=value` forms, or fails.",
 ["inputs"], "all packages, templates and compile commands",
 "Tests weave code needing one level; a level lost or lowered only shows when an older module gets newer code.",
 ["internal/injector","internal/toolexec/proxy","internal/toolexec/aspect/oncompile.go"],
 [("advice","internal/injector/aspect/advice.prependStatements.Apply"),("merge","internal/injector/aspect/context.GoLangVersion.SetAtLeast"),("package","internal/injector.Injector.InjectFiles"),("command","internal/toolexec/proxy.CompileCommand.SetLang"),("flag","internal/toolexec/proxy.command.SetFlag")],
 "value-provenance of levels from template to command, completeness of merges over loops, and abstract interpretation of SetLang and SetFlag over both flag forms",
 "that a template declares the level its own code needs is up to its author.")

prop("C02", "Configuration is loaded completely, and each file only once",
"Loading a configuration takes in every import of a package's orchestrion.tool.go, every entry of an orchestrion.yml's extends (resolved against the directory of the file naming it) and all of the file's aspects, reading each file at most once even when files refer to each other in circles; the aspects of a configuration are those of everything it is made of, and only configurations holding nothing are left out. "
"Only the absence of a package's own orchestrion.tool.go or orchestrion.yml is tolerated: a missing file or package that is referred to, a file that does not parse, and (when validation was asked for) a file the schema rejects fail the load. "
"A package is never said to have no configuration when it has some, and weaving uses the configuration of the main module's directory (go env GOMOD).",
["inputs"], "every tree of tool files and extends entries, circles included, with validation on or off",
"the tests load a handful of hand-written trees; an entry dropped, loaded twice or a missing file taken for an empty one only shows with other trees",
["internal/injector/config/config.go", "internal/injector/config/config-go.go", "internal/injector/config/config-yml.go", "internal/injector/config/validate.go", "internal/injector/config/builtin.go", "internal/toolexec/aspect/oncompile.go"],
[("load","internal/injector/config.Loader.Load"),("tool file","internal/injector/config.Loader.loadGoFile"),("yml file","internal/injector/config.Loader.loadYMLFile"),("once","internal/injector/config.Loader.markLoaded"),("weaving","internal/toolexec/aspect.Weaver.OnCompile")],
"completeness of loops and accumulations over the loader's structures, must-precede of the loaded mark, path analysis of what is skipped and which absences are tolerated",
"decided for every configuration tree: the rules quantify over paths of the loading functions, not over trees")

prop("W08", "Woven code keeps its original file positions",
"Whenever a file is rewritten, every declaration, statement or expression kept from the original is preceded, where needed, by //line directives with which the compiler reports its original file and line (honouring the original's own //line directives), and code added by advice is reported as `<generated>`; every directive names exactly the file and line of what follows it, and file and line are those at which it is actually printed and was originally parsed. "
"Directives start in the first column of a line of their own; printing them changes no other text of the program (strings included) and loses no comment. "
"An original file that begins with `//line F`, `//line F:1` or `//line F:1:1` is known as F, any other by its own name.",
["inputs"], "all source files (laid out as gofmt does), whatever advice adds to them or removes from them, and their own //line directives",
"the golden files show a few dozen layouts; a wrong position only shows where removed and added lines meet in a particular way",
["internal/injector/lineinfo","internal/injector/write.go","internal/injector/postprocess.go","internal/injector/parse"],
[("annotate","internal/injector/lineinfo.AnnotateMovedNodes"),("visit","internal/injector/lineinfo.annotationVisitor.Visit"),("directive","internal/injector/lineinfo.annotationVisitor.directive"),("write","internal/injector.Injector.writeModifiedFile"),("consume","internal/injector/parse.consumeLineDirective")],
"symbolic provenance of every position the annotator records and prints, path enumeration over its conditions (each path without a directive must imply that the positions agree), and abstract interpretation of the directive printer and of the white space remover",
"relies on go/printer laying the restored file out the way the restorer measured it; a known finding lists a position of return statements where dst does not.")

prop("C01", "Every documented configuration is understood in full",
"Every kind of join point, function option and advice the configuration schema (internal/injector/config/schema.json) documents is understood under exactly its documented name and in each documented form, and what is built carries every value given for its documented properties: nested join points, lists and code templates whole and in order, pieces of names in their places; a property left out has its documented default. "
"A kind, function option or match mode that does not exist, an entry with no or several kinds, and an aspect without join point or advice is an error, and different kinds or modes are never built into the same. "
"Every valid type name (import path and identifier) the schema admits is accepted.",
["inputs"], "every configuration the schema admits, every other kind, option or mode name",
"tests decode the shipped configurations; a dropped property, a swapped kind or a mode taken for another shows only with a configuration using it",
["internal/injector/config/schema.json","internal/injector/aspect/join","internal/injector/aspect/advice","internal/injector/aspect/aspect.go","internal/injector/singleton","internal/injector/typed/typename.go"],
[("join points","internal/injector/aspect/join.FromYAML"),("advice","internal/injector/aspect/advice.FromYAML"),("options","internal/injector/aspect/join.unmarshalFuncDeclOption.UnmarshalYAML"),("entry","internal/injector/singleton.Unmarshal"),("aspect","internal/injector/aspect.Aspect.UnmarshalYAML"),("template","internal/injector/aspect/advice/code.Template.UnmarshalYAML"),("names","internal/injector/typed.NewTypeName")],
"enumeration of the JSON schema (kinds, forms, properties, defaults, enumerations, patterns) against the decoders: value-carrying analysis from the YAML node to the object returned, on every successful path; abstract interpretation of mode and option decoders over every documented and every other name; inclusion of regular languages for names",
"the schema in the repository is the specification; YAML syntax itself is goccy/go-yaml's.")

prop("P03", "Only the orchestrion version go.mod requires ever builds or weaves",
"Before anything is woven, a tool's version computed or a build started by `orchestrion go`, `orchestrion diff --build` or `orchestrion toolexec`, a released orchestrion checks that it is the version the go.mod of the working directory resolves orchestrion's module to (its replacement's version, or the replacement's directory when that has no version and is the very source this orchestrion was built from); any other version is an error naming the one required. "
"When the version required cannot be determined, and for a development build whose working directory has no orchestrion.tool.go, orchestrion is pinned instead, and failing to pin is an error. "
"Which version is running is told by its build information (a module built from source or replaced by a directory is a development build), and only the check itself tells child processes that it has been made.",
["inputs"], "all go.mod requirements and replacements, builds and versions",
"no test can run a release against a go.mod of another version; a check which accepts one version too many, or is not made on one path, breaks no build here",
["internal/ensure","internal/pin/auto.go","internal/version","internal/cmd/go.go","internal/cmd/diff.go","internal/cmd/toolexec.go"],
[("check","internal/ensure.requiredVersion"),("go.mod","internal/ensure.goModVersion"),("automatic pinning","internal/pin.AutoPinOrchestrion"),("running version","internal/version.TagInfo")],
"abstract interpretation of the comparison and of the build information's use over representative versions, provenance of the version and directory compared, and must-hold of the check's success before every guarded call",
"which module a go.mod resolves to is the go command's answer.")

prop("D01", "orchestrion diff reports every woven file against its original",
"The report on a work folder takes in every Go file below the orchestrion directory of each of its package folders; the original of a file is the one its line directive names, and `orchestrion diff` compares every file left by the filters with its original unless that does not exist (cgo), prints the differences, and lists with --files every file and with --package each package once; what cannot be read, compared or woven (an empty report) is an error. "
"Left out are exactly the files of special packages (unless --debug) and those whose path does not match --filter. "
"With --build the command given (or `build ./...`) is run with -work (and -a for --no-cache), each once and before its other flags, and the report is on the folder that build printed once it has succeeded.",
["inputs","fault_sequences"], "all work folders, filters, build arguments and build output",
"tests run the filters over four files and one build; a file passed over, a swapped comparison or a swallowed failure is silent: the diff merely looks smaller",
["internal/report","internal/cmd/diff.go"],
[("walk","internal/report.fromWorkFS"),("original","internal/report.NewModifiedFile"),("filters","internal/report.Report.WithSpecialCasesFilter"),("comparison","internal/report.Report.diff"),("build","internal/cmd.executeBuildAndCaptureWorkDir")],
"completeness of the walk over the work folder, abstract interpretation of the filters, the comparison, the command and the build's arguments over representative cases, provenance of what is compared, printed and read",
"that `diff` finds the differences is its own; a dangling symbolic link below a package's orchestrion folder is taken for the absence of that folder.")

prop("W10", "Function options and templates see every parameter and result, in order",
"A function join point matches exactly the functions and function literals all its options agree on: the signature options compare the types of the single parameters and results, one for each name, in order; the implements options look at every parameter or result (or at the last result); name and receiver options at the function's own; and a type name matches exactly the expressions spelling that type (pointer, import path, name, type arguments aside). "
"In a template, the function is the innermost one around the node, and its methods return the parameter or result asked for (by position among the single ones; the first or last of the type asked for, and only failing that of a type implementing it), after giving it a unique name if it has none or a blank one and leaving all others referable; there is an error for positions out of bounds, and an empty answer for a search in vain.",
["inputs"], "all parameter lists (unnamed, named, grouped, blank), options and names asked for",
"tests use a handful of signatures; parameters sharing a type, blank names or a match in the last group pick the wrong parameter, or none, without an error",
["internal/injector/aspect/join/function.go","internal/injector/aspect/advice/code/dot_function.go","internal/injector/typed/typename.go"],
[("signature","internal/injector/aspect/join.signature.evaluate"),("options","internal/injector/aspect/join.functionDeclaration.Matches"),("template","internal/injector/aspect/advice/code.fieldAt"),("innermost function","internal/injector/aspect/advice/code.dot.Function"),("type names","internal/injector/typed.TypeName.Matches")],
"abstract interpretation of the options and of the template's methods over all small parameter lists (none, unnamed, named, grouped, blank) and type expressions, compared with the list of single parameters they stand for",
"lists of up to five names are interpreted; whether a type implements an interface is go/types' answer (typed.ExprImplements is taken as given).")

prop("G05", "The flags of the go command are understood as the go command does",
     "For every command line of the go command (and value of GOFLAGS), the build flags orchestrion passes on to the builds it starts itself are exactly those in effect for that command: each known flag in each accepted form, later ones overriding earlier ones, and nothing taken from arguments to the program or test binary. Coverage is requested for the packages the command covers, named in a way which does not depend on the directory. The command line looked at is that of the closest go command above the process.",
     ["inputs"], "all go command lines, GOFLAGS values and process ancestries",
     "Packages injected by aspects, link-time dependencies and fingerprints are resolved with these flags: a flag read differently from the go command makes the injected packages inconsistent with the rest of the build (link errors, wrong tags, wrong race or coverage mode), or makes the build fail. Tests only try a few command lines.",
     ["internal/goflags/flags.go", "internal/goflags/quoted/quoted.go", "internal/goproxy/proxy.go"],
     [("parser", "internal/goflags.ParseCommandFlags"), ("coverage", "internal/goflags.CommandFlags.inferCoverpkg"), ("ancestry", "internal/goflags.parentGoCommandFlags"), ("splitting GOFLAGS", "internal/goflags/quoted.Split"), ("passed on", "internal/goflags.CommandFlags.Slice")],
     "abstract interpretation of the flag parser over every build flag in every form and over combinations of arguments, compared with the go command's own rules; provenance of the command line parsed, of the coverage patterns and of the copies made",
     "Flags unknown to orchestrion whose value is a separate argument beginning with a hyphen are read heuristically by the code and are not in the sets explored. The flag table is the checker's own copy of the documentation of the go command (go help build, go help testflag). GOFLAGS from go env -w is not read by orchestrion and is not decided.")

prop("T02", "Every command line of the compiler and linker is read as they would",
     "Every flag the toolchain's compiler and linker declare is accepted, in all the forms they take it (optional booleans, counts, numbers, values), so that no build fails for its -gcflags or -ldflags; the arguments left are the tool's inputs. Output, package, build ID, language, import configuration, header, build mode and version request are the values of their own flags. A command line the tool would reject does not end orchestrion without an error.",
     ["inputs"], "all command lines of the compile and link tools of the toolchain in use",
     "A flag not registered, or registered with another kind, is an error (or takes the next argument) only for builds which use it: tests run a few typical command lines of one toolchain.",
     ["internal/toolexec/proxy/compile.flags.go", "internal/toolexec/proxy/link.flags.go", "internal/toolexec/proxy/compile.go", "internal/toolexec/proxy/link.go"],
     [("compiler's flags", "internal/toolexec/proxy.compileFlagSet.parse"), ("linker's flags", "internal/toolexec/proxy.linkFlagSet.parse")],
     "comparison of the flags registered (abstract interpretation of the registration) with those declared in the source of the toolchain's compiler and linker; provenance of the arguments parsed and of the flags captured",
     "The flags are those of the toolchain in GOROOT (go1.26.10 here); declarations guarded by a test of GOOS (plan9) are left out. That a number or a value is well-formed is left to the tool; flags read as text instead of as numbers are accepted.")

prop("N01", "A woven program behaves as the original plus its advice",
     "Apart from the effects of the advice applied, a program built by orchestrion computes what the original computes: same results, same order of evaluation, same panics and same initialisation order. What advice adds happens where its join point says.",
     ["inputs"], "all Go programs, all aspects, all executions of the woven program",
     "It quantifies over programs and their executions; tests compare golden files of a few dozen snippets.",
     ["internal/injector/aspect/advice", "internal/injector/injector.go"],
     [("advice", "internal/injector/aspect/advice.wrapExpression.Apply"), ("templates", "internal/injector/aspect/advice/code.Template.CompileExpression")],
     "none", "", na="Equivalence of two programs one of which is made by user-written templates is undecidable, and depends on the templates (data, not part of this source); the parts which are about orchestrion's own code are decided by W03 (applied once, in order, and effective), W04 (names reach what they name), W08 (positions) and W10 (what templates see).")
prop("N02", "Requests and builds are answered within bounded time",
     "A request to the job server, the start of a job server and a build which waits for another one end within a time which depends on the work to be done only; nothing waits for ever, and an idle job server ends after its inactivity timeout and not before.",
     ["schedules", "fault_sequences"], "all schedules, loads and timeouts",
     "A test cannot tell slow from stuck, and only sees the schedules its machine happens to produce.",
     ["internal/jobserver", "internal/filelock"],
     [("inactivity", "internal/jobserver.Server"), ("waiting builds", "internal/jobserver/nbt.service")],
     "none", "", na="Durations are run-time quantities (network, scheduler, load) which no static argument bounds; that every waiter is released by some event, whatever the outcome of the build it waits for, is decided by J01, deadlock freedom by J03 and J04, and that the server outlives its clients by J06.")
prop("N03", "The version chosen for a pinned module is the right one",
     "When orchestrion is pinned, the versions left in go.mod are those minimal version selection gives, and comparisons between versions (released, pre-release, pseudo-versions) order them as the go command does.",
     ["inputs"], "all sets of requirements and versions",
     "Tests pin against what the module cache holds.",
     ["internal/pin", "internal/ensure"],
     [("requirement", "internal/pin.PinOrchestrion"), ("versions", "internal/ensure.requiredVersion")],
     "none", "", na="Selection and comparison are done by the go command and golang.org/x/mod/semver, called with values only known at run time; that they are called with the right ones, and their answers heeded, is decided by P01 and P03.")
prop("G02", "No command line, configuration or source makes orchestrion crash",
     "Whatever the configuration, the source woven, the command line or the environment, orchestrion ends with an error naming the cause, never with a panic or an exhaustion of the stack.",
     ["inputs"], "all configurations, sources, command lines and environments",
     "Crashes need unusual inputs, by definition not those of the tests.",
     ["internal/injector", "internal/toolexec", "internal/cmd"],
     [("recover", "main.main"), ("parsing", "internal/injector/config.Loader")],
     "none", "", na="Absence of panics needs the values of indices, type assertions and nil checks over dst/ast trees produced by external parsers; the dataflow in reach gives no useful bound there (most of several hundred index expressions and unchecked assertions would be undecided). What is decided instead: recursion over imports and configuration files ends (J04, C02), positions asked for by templates are checked against bounds (W10), and errors are never lost (G01, G03).")

prop("G04", "What orchestrion opens, creates for a while or locks is always released",
     "On every path, also those of failures, every file opened is closed, every temporary file is removed or renamed into place, every temporary directory is removed, and every file lock is released: by the function which acquired it, by the owner it is handed to, or by a clean-up function which is run. Locks held by a process about to exit are released by the exit.",
     ["inputs", "fault_sequences"], "all paths, including every failing step",
     "Leaks on failing paths (a lock file never unlocked, a temporary overlay left behind, open files piling up in the job server) do not make any test fail.",
     ["internal/files", "internal/filelock", "internal/jobserver/nbt/nbt.go", "internal/jobserver/pkgs/overlay.go", "internal/jobserver/client/env.go", "internal/pin/pin.go", "internal/toolexec", "internal/injector", "main.go"],
     [("storage of the job server", "internal/jobserver/nbt.Subscribe"), ("overlays", "internal/jobserver/pkgs.addTestVariantOverlays"), ("URL file lock", "internal/jobserver/client.clientFromURLFile"), ("updated files", "internal/pin.writeUpdated")],
     "ownership analysis: on every path, what is opened, created for a while or locked is closed, removed or unlocked by the function which has acquired it, or handed to an owner (field, result, clean-up function) who does",
     "A field's owner is taken to release it if some function releases what the field holds; a release under a condition other than an error, in a deferred function, is taken to be made when needed. Connections and goroutines are not covered; the log files of a daemonised job server belong to its process.")
prop("W11", "Each advice changes exactly what it documents, or nothing",
 "append-args adds its values after the call's arguments (through a variadic function when the last one is spread), replace-function changes only the called function, prepend-statements puts its block first, wrap-expression replaces the expression (the value of a key-value pair), assign-value gives every name its own copy, inject-declarations and add-struct-field append, add-blank-import imports. No node of the tree is used in two places. An advice given another kind of node, or whose template fails, reports an error and leaves the tree as it was.",
 ["inputs"], "every node an aspect can match, every number of arguments, statements, names, fields, links and templates",
 "Every piece of woven code is put in its place by one of these functions; one that drops an argument or an existing statement miscompiles the user's program without any error.",
 ["internal/injector/aspect/advice/call.go","internal/injector/aspect/advice/block.go","internal/injector/aspect/advice/wrap.go","internal/injector/aspect/advice/assign.go","internal/injector/aspect/advice/inject.go","internal/injector/aspect/advice/import.go","internal/injector/aspect/advice/struct.go"],
 [("append-args","internal/injector/aspect/advice.appendArgs.Apply"),("replace-function","internal/injector/aspect/advice.redirectCall.Apply"),("prepend-statements","internal/injector/aspect/advice.prependStatements.Apply"),("wrap-expression","internal/injector/aspect/advice.wrapExpression.Apply"),("assign-value","internal/injector/aspect/advice.assignValue.Apply"),("inject-declarations","internal/injector/aspect/advice.injectDeclarations.Apply"),("add-struct-field","internal/injector/aspect/advice.addStructField.Apply")],
 "abstract interpretation of every advice's Apply over the shapes of nodes it can be given, following the syntax tree it builds, compared with the tree the documentation describes",
 "Lists of up to three elements; what the compiled template contains is opaque (its own properties are W04, W08, W09 and W10). The packages imported, and the calls made on the context, are part of what is compared.")
prop("W12", "A join point matches exactly the nodes its documentation describes",
 "struct-definition, struct-literal (with or without &, or one field), declaration-of, value-declaration (declarations of the package, not of its functions), function-call, method-call (however the receiver's type is spelled, by pointer or by value as asked for), directive (the exact word of a //-comment, on the node or where it is passed on to it), configuration, import-path, package-name, test-main, and their combinations by all-of, one-of and not match where they should and nowhere else.",
 ["inputs"], "every node with its ancestors, every spelling of names, paths, types and directives",
 "A join point that matches too much rewrites code the user did not ask for, one that matches too little silently leaves code without instrumentation; tests only look at a few snippets of code.",
 ["internal/injector/aspect/join/struct.go","internal/injector/aspect/join/declaration.go","internal/injector/aspect/join/directive.go","internal/injector/aspect/join/expression.go","internal/injector/aspect/join/method_call.go","internal/injector/aspect/join/all-of.go","internal/injector/aspect/join/one-of.go","internal/injector/aspect/join/not.go","internal/injector/aspect/join/configuration.go","internal/injector/aspect/join/testmain.go","internal/injector/aspect/join/package.go"],
 [("struct-definition","internal/injector/aspect/join.structDefinition.Matches"),("struct-literal","internal/injector/aspect/join.structLiteral.Matches"),("declaration-of","internal/injector/aspect/join.declarationOf.Matches"),("value-declaration","internal/injector/aspect/join.valueDeclaration.Matches"),("directive","internal/injector/aspect/join.directive.Matches"),("function-call","internal/injector/aspect/join.functionCall.Matches"),("method-call","internal/injector/aspect/join.methodCall.Matches"),("all-of","internal/injector/aspect/join.allOf.Matches")],
 "abstract interpretation of every join point's Matches over the shapes of nodes, their ancestors and types, compared with the answer its documentation gives",
 "The function join point is W10. The type of a value declared without one is not looked at (value-declaration matches it, as it always did). Type names are compared by typed.TypeName.Matches (W10).")
