prop("C01", "An incremental build leaves what a build from scratch would leave",
     "After every run that reports success, every object, precompiled header, library, executable and generated file of every registered builder is the one a build from scratch of the current description and the current files would have produced. This holds whatever was added, removed, reordered, retyped or edited since earlier runs: sources, headers, precompiled headers, include and library directories, libraries, compile and link dependencies, flags of the target or of its toolchain, generator inputs, outputs, payloads and commands.",
     ["histories", "inputs", "configurations"],
     "for every finite sequence of runs, edits and description changes (including undoing a change) on every project",
     "Each test drives one or two hand-written changes to one target; the property speaks of every change to every list, combined and undone in any order, across generators, libraries and executables.",
     [T + "src/target/friend/compile_pch.cpp", T + "src/target/friend/compile_object.cpp", T + "src/target/friend/link_target.cpp", S + "src/target_serialization.cpp", S + "include/schema/target_schema.h", S + "include/schema/path.h", T + "src/custom_generator/custom_generator.cpp"],
     [("comparison of the stored record with the description", "CompilePch::BuildCompile, CompileObject::BuildObjectCompile, LinkTarget::BuildLink"), ("what is stored", "TargetSerialization::UpdateStore, TargetSchema to_json/from_json"), ("generator ids", "CustomGenerator::BuildId / GenerateTask")],
     HIST, NOTE)
prop("C02", "A run repeats only work whose inputs changed, and nothing twice",
     "A command is executed in a run only if it was never completed before, or something it is declared to depend on (its sources, headers, dependencies, flags, directories, libraries, payload, or a product it consumes) changed since it last completed. A run with nothing changed since a successful run executes no command, and no run executes the same step twice.",
     ["histories", "schedules"],
     "for every history of successful runs and changes, and every schedule of the worker threads",
     "Tests count rebuild callbacks for single targets; they do not cover dependency chains, undone changes, or combinations in which one change must not trigger unrelated work.",
     [T + "src/target/friend/compile_object.cpp", T + "src/target/friend/compile_pch.cpp", T + "src/target/friend/link_target.cpp", T + "src/custom_generator/custom_generator.cpp", S + "include/schema/path.h"],
     [("selection of sources to compile", "CompileObject::RecompileSources / CompileSources"), ("dirty flag", "Target::dirty_"), ("generator id selection", "CustomGenerator::BuildGenerate")],
     HIST, NOTE)
prop("C03", "A failed run never makes a later successful run stale or wasteful",
     "When commands fail (leaving their output untouched, garbled or deleted), an input is missing, or a record cannot be written, the following successful run leaves every output as a build from scratch would. Work that completed in the failed run, for inputs that have not changed since, is not repeated.",
     ["fault_sequences", "histories"],
     "for every step that can fail, every way of failing, and every change made before and after the failure, including putting the inputs back",
     "Tests have a failing mock command for one target and do not look at the run that follows, nor at inputs that are put back after a failure.",
     [T + "src/target/tasks.cpp", T + "src/target/friend/link_target.cpp", S + "src/target_serialization.cpp", S + "include/schema/interface/serialization_interface.h", T + "src/custom_generator/custom_generator.cpp"],
     [("partial record after a failure", "Target::EndTask, TargetSerialization::AddSource/UpdatePchCompiled/UpdateTargetCompiled"), ("record removed before the first command", "SerializationInterface::RemoveFile"), ("write errors reported", "env::save_file")],
     HIST, NOTE)
prop("C04", "A build killed at any point is repaired by the next run",
     "If the building process dies at any moment - before, during or after any command, or while a record is being written - then the next run starts normally, and when it reports success every output is what a build from scratch would leave. This also holds when the inputs are put back to their previous content before the next run.",
     ["crash_points", "histories"],
     "for every crash point of every step and of every record write, on first builds and on rebuilds, with inputs kept or put back",
     "No test kills a build; the dangerous histories need a crash after an output was replaced and before the record was, followed by a particular edit.",
     [S + "include/schema/interface/serialization_interface.h", S + "src/target_serialization.cpp", S + "src/custom_generator_serialization.cpp", T + "src/target/tasks.cpp", "buildcc/lib/env/include/env/util.h"],
     [("record removed before the first command", "SerializationInterface::RemoveFile"), ("a damaged record is no record", "SerializationInterface::LoadFromFile")],
     HIST, NOTE)
prop("C05", "Failures stop dependent work, are reported, and never hang a run",
     "Once a step fails, no step that depends on it (later stages of the same builder, builders that depend on it directly or transitively, tests, post-build actions) is started in that run. The run always terminates, and it reports success if and only if every step succeeded and every required input existed.",
     ["fault_sequences", "schedules", "configurations"],
     "for every failing step or missing input, every schedule and number of worker threads",
     "Tests check the failure flag of single targets with mocks; the interleavings of a failing builder with running ones, and the exit of the whole run, are not exercised.",
     [T + "src/target/tasks.cpp", T + "src/custom_generator/custom_generator.cpp", "buildcc/lib/args/src/tasks.cpp", "buildcc/lib/args/src/register.cpp", "buildcc/lib/env/src/task_state.cpp"],
     [("global failure flag checked by every task", "env::get_task_state"), ("run outcome", "Reg::Run / Reg::Instance::RunBuild")],
     HIST, NOTE)

prop("C06", "A step starts only after everything it depends on is complete",
     "In every run, no compile, link or generate command of a builder starts while any builder it depends on (directly or through others) is still working, and never before that builder's turn. Within a target the precompiled header is complete before the first object is compiled, and all objects before the link; the commands of a file generator run one at a time in the order given. Nothing is built before registration ends, and the post-build action starts after the last command.",
     ["schedules", "configurations"],
     "for every dependency graph, every set of out-of-date steps, every duration of every step and every number of worker threads",
     "Tests run tiny graphs of mocked builders on whatever schedule happens; a missing edge shows only when a particular step is slow.",
     ["buildcc/lib/args/src/register.cpp", T + "src/target/tasks.cpp", T + "src/target/build.cpp", T + "src/custom_generator/custom_generator.cpp", T + "src/generator/file_generator.cpp"],
     [("dependencies become task edges", "Reg::Instance::Dep, BuildTask"), ("stages of a target", "Target::StartTask/PchTask/ObjectTask/TargetTask/EndTask"), ("generator subflow", "CustomGenerator::GenerateTask")],
     HIST + "; histories in which every single step in turn takes long", NOTE)
prop("C08", "A generator regenerates exactly the ids whose inputs, outputs or payload changed",
     "After every successful run each output of each generator id is what its callback or commands make of the current inputs, outputs list, payload (blob) and commands. A callback or command list is executed only if the id is new or one of these changed since it last completed; other ids of the same generator are left alone. The callback receives exactly the inputs, outputs and payload of its id, also when names of patterns are used in the paths.",
     ["histories", "inputs", "configurations"],
     "for every sequence of additions, removals and changes of ids, inputs, outputs, payloads and commands, including undone ones",
     "Tests cover one change to one id; ids that appear and disappear, payloads that are added or dropped, and chains of generators are left out.",
     [T + "src/custom_generator/custom_generator.cpp", T + "src/generator/file_generator.cpp", S + "src/custom_generator_serialization.cpp", S + "include/schema/custom_generator_schema.h", T + "include/target/custom_generator/custom_blob_handler.h"],
     [("id selection", "CustomGenerator::BuildGenerate / BuildId"), ("stored ids", "CustomGeneratorSchema"), ("commands as payload", "FileGenerator::Build")],
     HIST, NOTE)
prop("C09", "A failing generator id costs only itself",
     "When the callback or a command of one generator id fails, throws, dies or cannot store its result, the next successful run brings every output of every id up to date. Ids that completed, in the failed run or before it, are not run again while their inputs stay the same, ids that did not complete are, and builders depending on the generator do not start in the failed run.",
     ["fault_sequences", "crash_points", "histories"],
     "for every id and every way of failing, followed by any change or none",
     "Tests look at the failing run only.",
     [T + "src/custom_generator/custom_generator.cpp", S + "src/custom_generator_serialization.cpp"],
     [("success is stored per id", "CustomGeneratorSerialization::AddId"), ("record of a failed run", "CustomGenerator::EndTask")],
     HIST, NOTE)
prop("C10", "Templates are expanded with the current values, and only when needed",
     "After a successful run every output of a template generator equals its current input with every name replaced by its current value (project and builder directories, user patterns; doubled braces stand for a brace). An output is written only when its template, its output path or a value changed. A template that cannot be read or an output that cannot be written fails the run, and the next run repairs it.",
     ["inputs", "histories", "fault_sequences"],
     "for every template edit, value change, added, dropped or renamed template, failed write and crash",
     "Tests expand one template once.",
     [T + "src/generator/template_generator.cpp", T + "src/custom_generator/custom_generator.cpp", "buildcc/lib/env/src/command.cpp", "buildcc/lib/env/include/env/util.h"],
     [("expansion", "template_generate_cb"), ("values are part of the stored payload", "TemplateGenerator::Build")],
     HIST, NOTE)
prop("C11", "The commands that run are the ones the description asks for",
     "Every compile, precompiled-header, link, generator and test command carries exactly the program of its toolchain for its language, the flags of the toolchain followed by those of the target in the order given, all include and library directories, libraries, inputs and outputs, quoted so that paths with spaces stay one argument - for plain, GCC, MinGW, MSVC and generic targets of every type.",
     ["configurations", "inputs"],
     "for every combination of target family, type, language, lists of flags, directories and libraries, and paths with spaces",
     "Tests compare a few commands of one family against literals; combinations of lists, types and odd paths are not covered.",
     ["buildcc/targets/include/targets/target_gcc.h", "buildcc/targets/include/targets/target_msvc.h", "buildcc/targets/include/targets/target_mingw.h", "buildcc/targets/include/targets/target_generic.h", T + "src/target/build.cpp", T + "src/target/friend/compile_object.cpp", T + "src/target/friend/compile_pch.cpp", T + "src/target/friend/link_target.cpp", "buildcc/lib/env/src/command.cpp"],
     [("command templates", "TargetConfig of each family"), ("aggregated flags", "Target::Build, internal::aggregate*"), ("compiler selection", "CompileObject::CacheCompileCommands")],
     HIST, NOTE)
prop("C13", "A damaged build record is treated as no record",
     "If the record of a builder is missing, empty, truncated, garbled, or well-formed but of the wrong shape, the next run does not crash or fail because of it: it runs normally, and when it reports success every output is what a build from scratch would leave.",
     ["inputs", "histories"],
     "for every builder and every truncation, garbling, missing or wrongly typed field of its record, with or without further changes",
     "Tests cover a missing file and one broken file.",
     [S + "include/schema/interface/serialization_interface.h", S + "src/target_serialization.cpp", S + "src/custom_generator_serialization.cpp", S + "include/schema/target_schema.h", S + "include/schema/custom_generator_schema.h", S + "include/schema/path.h"],
     [("load and verify", "SerializationInterface::LoadFromFile, TargetSerialization::Verify")],
     HIST, NOTE)
prop("C16", "What is switched off takes no part in the build",
     "Builders, dependencies, tests and functions registered under a toolchain state or condition that is off are not called, built, run or ordered; everything that is on is built as if the rest were not there, including when an off dependency would have closed a cycle.",
     ["configurations", "histories"],
     "for every mix of on and off registrations and every change of the parts that are on",
     "Tests register single items.",
     ["buildcc/lib/args/include/args/register.h", "buildcc/lib/args/src/register.cpp", "buildcc/lib/args/include/args/args.h"],
     [("conditional registration", "Reg::CallInstance / Reg::ToolchainInstance")],
     HIST, NOTE)
prop("C18", "Every registered test runs once, after a successful build, and counts",
     "When and only when the whole build succeeded, every registered test is executed exactly once, after the last build command, with the executable, arguments and working directory it was registered with, and its output goes where that asks. The run reports success only if every test succeeded; a failing test neither hangs the run nor causes anything to be rebuilt later.",
     ["schedules", "fault_sequences", "histories"],
     "for every set of tests, every failing test, every failing build step and every schedule",
     "Tests use a mocked runner for one test.",
     ["buildcc/lib/args/src/register.cpp", "buildcc/lib/args/src/tasks.cpp", "buildcc/lib/args/include/args/register.h"],
     [("test tasks", "Reg::Instance::RunTest / TestInfo::TestRunner")],
     HIST, NOTE)
prop("C19", "compile_commands.json lists exactly the compile commands of the build",
     "After a successful run that generates it, compile_commands.json is valid JSON with, for every source of every added target, an entry naming the source file, the build directory and exactly the command that compiles it, and no other entries - also after sources were added or removed and with paths that need quoting.",
     ["histories", "inputs", "configurations"],
     "for every project, target family and change of sources and flags",
     "There is one smoke test that does not look at the content.",
     ["buildcc/plugins/src/clang_compile_commands.cpp", T + "src/api/target_getter.cpp"],
     [("generation", "plugin::ClangCompileCommands::Generate")],
     HIST, NOTE)
prop("C20", "An edit made while the build runs is not lost",
     "When an input is edited while a run is in progress - before, while or after the step that reads it is carried out - then the next run without further edits leaves every output as a build from scratch of the current files would.",
     ["schedules", "histories"],
     "for every input, every step during which the edit happens, on first builds and rebuilds",
     "No test edits files during a build.",
     [S + "include/schema/path.h", T + "src/target/build.cpp", T + "src/target/friend/compile_pch.cpp", T + "src/target/friend/compile_object.cpp", T + "src/custom_generator/custom_generator.cpp"],
     [("times are taken before the commands run", "PathInfoList::ComputeHashForAll, ConvertUserSchema")],
     HIST + "; the simulator edits the file while the chosen step is executing", NOTE)

prop("C07", "Registration accepts exactly sensible projects, everything once, in order",
     "Registering builders and dependencies is rejected (the run ends with an error before any command is executed) exactly when a builder is registered twice, a dependency names a builder that is not registered, a dependency is given twice, or the dependencies form a cycle of any length, including a builder that depends on itself. Every accepted set of dependencies is honoured: each registered builder is carried out exactly once, after everything it depends on.",
     ["configurations", "schedules", "inputs"],
     "for every sequence of registrations and dependencies, in any order, over any number of builders",
     "Tests register two to four builders in a few fixed orders; detecting a cycle depends on the order in which edges are added and on the shape of the graph.",
     ["buildcc/lib/args/src/register.cpp", "buildcc/lib/args/include/args/register.h", "buildcc/lib/args/src/tasks.cpp"],
     [("cycle detection", "Reg::Instance::Dep, DepDetectCyclicDependency, DepDetectDuplicate"), ("registered builders", "Reg::Instance::BuildStoreTask")],
     API, APINOTE)
prop("C12", "Every source has its own object, inside the target's build directory",
     "The object path of every source lies inside the build directory of its target and depends only on the source; two different sources never share an object (a target for which they would is rejected), a source that is given more than once is compiled once, and sources inside the root of the environment, outside of it, in parent directories or given with . and .. and spaces are all placed this way.",
     ["inputs", "configurations"],
     "for every set of sources in every place relative to the project root and every way of writing their paths",
     "Tests have sources inside the root only, with distinct names.",
     [T + "src/target/friend/compile_object.cpp", "buildcc/lib/env/src/env.cpp"],
     [("object placement", "CompileObject::AddObjectData / ConstructObjectPath")],
     API, APINOTE)
prop("C14", "A target has exactly the lists it was given",
     "The sources, headers, precompiled headers, libraries, include and library directories, flags and compile and link dependencies of a target or target information are exactly those that were added, in the order they were added, resolved against its root, after the flags of its toolchain. Copy replaces and Insert extends exactly the selected lists, by copy or by move, and touches no other list. A file whose extension the toolchain does not accept for that list is rejected, and globbing a directory adds exactly the acceptable files directly in it.",
     ["inputs", "histories", "configurations"],
     "for every sequence of additions, globs, copies and insertions over every list, extension configuration and root",
     "Tests add one or two items and copy one option at a time; two dozen near-identical functions per list leave room for a slip in any one of them.",
     [T + "include/target/api/sync_api.h", T + "src/api/sync_api.cpp", T + "include/target/api/source_api.h", T + "include/target/api/include_api.h", T + "include/target/api/lib_api.h", T + "src/api/lib_api.cpp", T + "include/target/api/pch_api.h", T + "include/target/api/deps_api.h", T + "src/target_info/target_info.cpp", "buildcc/lib/toolchain/src/common/toolchain_config.cpp"],
     [("copy and insert", "internal::SyncApi::SpecializedCopy / SpecializedInsert"), ("extension kinds", "ToolchainConfig::GetFileExt / ExpectsValidSource / ExpectsValidHeader")],
     API, APINOTE)
prop("C15", "Stored objects stay found, unique and typed, and are destroyed once",
     "An object added to a store under an identifier is found under that identifier, with the type it was added with, for as long as the store is not cleared. A second object with the same identifier, a lookup of an unknown identifier and a lookup with another type are rejected. Every object is destroyed exactly once, when its store is cleared or destroyed.",
     ["histories", "inputs"],
     "for every sequence of additions, lookups and clears, with several types and identifiers, on the global store and on others",
     "Tests add a handful of objects of one or two types.",
     ["buildcc/lib/env/include/env/storage.h", "buildcc/lib/env/src/storage.cpp"],
     [("typed erased pointers", "ScopedStorage::Add / Ref / ConstRef / Contains / Valid / Clear")],
     API, APINOTE)
prop("C17", "Toolchain search and verification find exactly what is there",
     "Searching for a toolchain returns exactly the given or environment directories that hold all of its executables, in the order of the search and each file name taken exactly; directories that are missing, unusable or not directories do not disturb the search. Verifying a toolchain takes the first such directory, asks that compiler for version and architecture (MSVC: its environment), turns the toolchain's executables into that directory's paths, and is rejected when nothing is found or a question fails; so is a search through a variable that is not set. The search plugin returns exactly the entries, of the directories its variables name, whose whole name matches its pattern.",
     ["inputs", "configurations", "fault_sequences"],
     "for every layout of directories and executables, every list of search paths and environment values, and every answer of the compiler",
     "Tests search for one toolchain in one directory.",
     ["buildcc/lib/toolchain/src/api/toolchain_find.cpp", "buildcc/lib/toolchain/src/api/toolchain_verify.cpp", "buildcc/toolchains/src/toolchain_infos.cpp", "buildcc/plugins/src/buildcc_find.cpp", "buildcc/lib/env/include/env/host_os_util.h"],
     [("directory scan", "ToolchainFind::Find, ContainsToolchainBinaries"), ("verification", "ToolchainVerify::Verify, get_gcc_info and relatives")],
     API, APINOTE)
prop("C21", "Commands and texts are expanded, executed, stored and split faithfully",
     "Expanding a pattern replaces every name by its (first given) default value or the value of the call, exactly once and without interpreting the value; a doubled brace stands for a brace, and an unknown name or stray brace is rejected. Executing a command hands exactly that command and directory to the system, collects exactly the output that was asked for and succeeds iff the exit status is 0. Saving and loading a file, splitting and trimming text lose and add nothing, and failures are reported.",
     ["inputs"],
     "for every pattern, set of values, text, exit status and output",
     "Tests expand a few well-formed patterns and run a few commands.",
     ["buildcc/lib/env/src/command.cpp", "buildcc/lib/env/src/execute.cpp", "buildcc/lib/env/include/env/util.h", "buildcc/lib/env/include/env/command.h"],
     [("expansion", "Command::Construct"), ("execution", "Command::Execute"), ("text", "util::split, trim, load_file, save_file")],
     API, APINOTE)
prop("C22", "Every setting has the value its user gave last, and no other",
     "Each setting of the project, of each toolchain and of each target has the value given on the command line, else that of the last configuration file that sets it, else its initial value; a setting of one toolchain or target never reaches another. An unknown option or subcommand, an invalid value, a missing configuration file or missing root or build directory is rejected. The project that is started, and a toolchain constructed from its arguments, have exactly these values.",
     ["inputs", "configurations"],
     "for every combination of command line, configuration files and initial values",
     "Tests parse a few fixed files and command lines.",
     ["buildcc/lib/args/src/args.cpp", "buildcc/lib/args/src/parse.cpp", "buildcc/lib/args/include/args/args.h"],
     [("options", "Args::AddToolchain, AddTarget, RootArgs"), ("construction", "ArgToolchain::ConstructToolchain")],
     API, APINOTE)

prop("C23", "buildexe builds exactly what its settings say and runs its script",
     "In immediate mode buildexe compiles and links exactly the target its settings describe; in script mode it verifies the host toolchain, builds the buildcc library out of BUILDCC_HOME, builds the script against it and the chosen library files, and then runs that script with exactly the configured files. A later run carries out exactly what a change of settings or files, a clean or an earlier failure requires, and the script is run only after everything it needs succeeded. A failing step, an invalid setting or an incomplete BUILDCC_HOME is reported and stops the run.",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "for every combination of settings and every history of runs, edits, setting changes, cleans and failing commands",
     "buildexe has no tests: the path from settings to commands is only tried by hand.",
     ["buildexe/buildexe.cpp", "buildexe/src/args_setup.cpp", "buildexe/src/build_env_setup.cpp", "buildexe/src/build_env_home.cpp", "buildexe/src/toolchain_setup.cpp", "bootstrap/src/build_buildcc.cpp", "bootstrap/src/build_tpl.cpp"],
     [("script mode", "BuildEnvSetup::BuildCompileEnvironment, BuildUserTargetWithLibs, RunUserTarget"), ("settings", "ArgTargetInfo, ArgScriptInfo")],
     API, APINOTE)

NOTES = "TLA+ (TLC). See DESIGN.md."
