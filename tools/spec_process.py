P("C30", "Coroutines run their body once, in order, and only while active",
  "Along any history of waits, sends, runs and status queries, a coroutine's body runs exactly once and in order, each yield reaching the waiter and each sent value the yield it answers. A coroutine that ended in any way is done, one that is running cannot be resumed; such misuse is an error, never a rerun or a crash.",
  ["histories", "schedules"], "every history of coroutine commands, including coroutines that drive each other or themselves",
  "Misuse shows in an order of commands across two bodies; two defects (rerun and crash) were found here.",
  ["helena_dialect/coroutines.go", "helena_dialect/core.go"], [("coroutineCommand, coroutineWaitCmd, coroutineYieldCmd, runProcess", "helena_dialect/coroutines.go"), ("Process.Run, ProcessStack", "helena_dialect/core.go")],
  "Two coroutines whose bodies' endings are chosen by the solver are driven by symbolic histories and compared with a state machine.",
  [H("hd", "Coroutines", "histories of K commands on a coroutine and another that it may drive", {"K": 3}, {"K": 4}, reach=["end"]),
   H("hd", "Coroutines", "the same when given nothing but nil or an empty tuple", {"K": 2, "NILS": 1}, {"K": 3, "NILS": 1}, reach=["end"]),
   H("hd", "Coroutines", "the same when commands give nil", {"K": 2, "ALL": 1, "VALUES": 1}, {"K": 3, "ALL": 1, "VALUES": 2}, tsecs=300, reach=["end"]),
   H("hd", "Coroutines", "histories of K commands on two coroutines that may drive each other", {"K": 2, "ALL": 1, "VIA": 1}, {"K": 3, "ALL": 1, "VIA": 1}, reach=["end"])])

P("C31", "Any command on any arguments gives a result, never a crash",
  "Every built-in command, called with any number and kind of argument values, gives a result (a value or an error) and never crashes the host; with or without error capture, called or asked for help. The argument values are left unchanged.",
  ["inputs"], "every command, every number and kind of arguments",
  "Crashes hide in unusual kinds at unusual positions (five were found here); the suites check the documented forms.",
  ["helena_dialect/basic_commands.go", "helena_dialect/lists.go", "helena_dialect/dicts.go", "helena_dialect/strings.go", "helena_dialect/numbers.go", "helena_dialect/tuples.go", "helena_dialect/scripts.go", "helena_dialect/argspecs.go", "helena_dialect/controls.go", "helena_dialect/variables.go", "helena_dialect/subcommands.go"], [("every command's Execute and Help", "helena_dialect/helena_dialect.go")],
  "Each root command and each subcommand of the value ensembles is given symbolic kinds of arguments; a Go panic in any path is a violation.",
  [H("hd", "CommandTotality", "up to N arguments of every kind", {"N": 2}, {"N": 3}, secs=120, tsecs=900, reach=["ok", "error"]),
   H("hd", "CommandTotality", "help on up to N arguments", {"N": 2, "HELP": 1}, {"N": 2, "HELP": 1}, secs=120, tsecs=900, reach=["ok", "error"]),
   H("hd", "CommandTotality", "the same with error stacks and positions captured", {"N": 2, "OPTS": 1}, {"N": 2, "OPTS": 1}, secs=120, tsecs=900, reach=["ok", "error"])],
  outside="Unbounded recursion (alias a a; a), which exhausts any stack; commands of the native and command-line packages.")

P("C32", "Help, usages and accepted numbers of arguments agree",
  "help on any command gives its usage with the given arguments filled in, and fails exactly when a call with as many arguments would fail for their number; a call with too few or too many arguments fails with the same usage. So it is through any nesting of ensembles, namespaces and procedures. Built-in commands accept exactly the numbers of arguments their usage shows.",
  ["inputs", "programs"], "every command and nesting of ensembles, every number of arguments",
  "Skipped and filled-in arguments add up over nested ensembles; a crash and two wrong arities were found here.",
  ["helena_dialect/basic_commands.go", "helena_dialect/argspecs.go", "helena_dialect/arguments.go", "helena_dialect/ensembles.go", "helena_dialect/namespaces.go", "helena_dialect/subcommands.go"], [("helpCmd", "helena_dialect/basic_commands.go"), ("BuildUsage, ArgspecValue.Usage", "helena_dialect/argspecs.go"), ("ensembleMetacommand/ensembleCommand Help", "helena_dialect/ensembles.go")],
  "Reference usages built from the generated signatures; for built-ins, usages are parsed and compared with calls on every number of arguments.",
  [H("hd", "HelpUsage", "an ensemble, namespace or procedure of one level with up to N words", {"N": 4}, {"N": 5}, reach=["ok", "error"]),
   H("hd", "HelpUsage", "every signature at the leaves", {"N": 4, "LEAF": 1}, {"N": 5, "LEAF": 1}, reach=["ok", "error"]),
   H("hd", "MetaHelp", "every subcommand of 9 kinds of command values with up to 5 words", {}, {}, reach=["arity error", "accepted"]),
   H("hd", "HelpUsage", "two levels", {"N": 5, "DEPTH": 2, "SUB": 0}, {"N": 5, "DEPTH": 2, "SUB": 1}, reach=["ok", "error"]),
   H("hd", "HelpUsage", "DEPTH+1 levels of ensembles and procedures of up to 5 arguments", {"WIDE": 1, "N": 8}, {"WIDE": 1, "N": 12, "DEPTH": 2}, reach=["ok", "error"]),
   H("hd", "ArityErrors", "procedures of up to 5 arguments", {"WIDE": 1, "N": 6}, {"WIDE": 1, "N": 8}, reach=["arity", "other"]),
   H("hd", "ArityErrors", "procedures, closures, macros and ensembles with up to N arguments", {"N": 4}, {"N": 6}, reach=["arity", "other"]),
   H("hd", "BuiltinArity", "every built-in command and subcommand with up to N arguments", {"N": 5}, {"N": 6}, reach=["help", "help error", "arity error", "accepted"])])

P("C33", "Ensembles call their subcommands as if called directly",
  "Calling a subcommand through an ensemble is calling its command with the ensemble's arguments, each through its guard once and in order, before the subcommand's own; results, codes, yields and resumptions are those of the direct call. Without a subcommand the ensemble gives its arguments; with an unknown one, it is an error.",
  ["programs", "schedules"], "every signature, argument list, ending and resumption",
  "Guards that yield or fail, in-place argument shifts and tail calls combine; a wrong-command defect was found here.",
  ["helena_dialect/ensembles.go", "helena_dialect/scopes.go", "helena_dialect/namespaces.go"], [("ensembleCommand.Execute, ensembleMetacommand", "helena_dialect/ensembles.go"), ("call subcommand", "helena_dialect/scopes.go")],
  "Self-composition: the ensemble call and the direct call of the resolved command run side by side in two interpreters; logs, yields and results are compared.",
  [H("hd", "EnsembleDispatch", "up to R ensemble arguments, up to N more, up to L commands run with any ending", {"R": 2, "N": 1}, {"R": 2, "N": 2}, secs=120, tsecs=900, reach=["ok"]),
   H("hd", "EnsembleDispatch", "the same with arguments and guard results of any kind", {"R": 1, "N": 1, "ODD": 3}, {"R": 2, "N": 1, "ODD": 3}, secs=90, tsecs=900, reach=["ok"]),
   H("hd", "Builtins", "calls of every command that runs bodies, with up to R arguments taken by an ensemble, up to L commands run with any ending", {"VIA": 0, "L": 3, "CODES": 5}, {"VIA": 0, "R": 4, "L": 5, "CODES": 5}, reach=["ok", "error"])])

P("C34", "Containers keep their own commands and variables; imports copy",
  "Along any history of definitions, calls and imports through namespaces, ensembles and scopes, a name called through a container runs that container's current command in that container, and nothing outside changes; import binds the command as it is at that time under the given name.",
  ["histories"], "every history of definitions, redefinitions, calls and imports",
  "Redefinition after import, and same names in several containers, need a specific order of commands.",
  ["helena_dialect/namespaces.go", "helena_dialect/ensembles.go", "helena_dialect/scopes.go"], [("namespace call, import, eval, selectors", "helena_dialect/namespaces.go"), ("scope eval, call", "helena_dialect/scopes.go"), ("ensemble eval, call", "helena_dialect/ensembles.go")],
  "Differential against a table of containers along symbolic histories.",
  [H("hd", "ContainerHistories", "histories of K commands over three containers, with DEFS kinds of definitions", {"K": 2}, {"K": 3, "DEFS": 1}, tsecs=300, reach=["end"]),
   H("hd", "ContainerHistories", "the same after any definitions of two names inside and outside", {"K": 1, "PRE": 1, "DEFS": 4}, {"K": 2, "PRE": 1, "DEFS": 1}, tsecs=300, reach=["end"]),
   H("hd", "ContainerArguments", "calls through and imports from 4 kinds of container with up to M arguments, one of which of any kind", {"M": 3, "ODD": 1}, {"M": 4, "ODD": 1}, reach=["end"]),
   H("hd", "Builtins", "calls of every command that runs bodies through a namespace or a scope, up to L commands run with any ending", {"VIA": -2, "L": 3, "CODES": 5}, {"VIA": -2, "L": 5, "CODES": 5}, reach=["ok", "error"])])

P("C35", "Codes, yields and resumptions pass through any nesting of bodies",
  "A body within any nesting of body-running commands runs once and in order; each of its yields reaches the host once and each answer reaches its yield; its code passes through each level as that level's kind of body says. Capture options and pooled continuations change nothing.",
  ["programs", "schedules"], "every nesting of body-running commands, every ending and resumption",
  "Each command implements tail calls and resumption on its own, over a shared process stack; pairs and triples multiply.",
  ["helena_dialect/core.go", "helena_dialect/controls.go", "helena_dialect/procs.go", "helena_dialect/closures.go", "helena_dialect/macros.go", "helena_dialect/scopes.go", "helena_dialect/namespaces.go"], [("Process.Run, ProcessStack, ContinuationValue", "helena_dialect/core.go")],
  "A body with solver-chosen endings runs in a symbolic nesting of wrappers; log, yields and result are compared with the composition of the wrappers' rules.",
  [H("hd", "Wrappers", "nestings of D levels", {"D": 2}, {"D": 3}, reach=["end"]),
   H("hd", "Wrappers", "the same with values, yields and answers of VALUES more kinds", {"D": 1, "VALUES": 2}, {"D": 2, "VALUES": 1}, tsecs=240, reach=["end"]),
   H("hd", "Wrappers", "the same with error capture", {"D": 2, "OPTS": 1}, {"D": 2, "OPTS": 1}, reach=["end"]),
   H("hd", "Wrappers", "the same with any reuse of pooled continuations and processes", {"D": 1, "POOLS": 1}, {"D": 2, "POOLS": 1}, reach=["end"]),
   H("hd", "Dispatch", "a command that yields up to Y times called through D of 14 kinds of dispatching", {"D": 2, "Y": 3}, {"D": 3, "Y": 2}, tsecs=300, reach=["end"]),
   H("hd", "Dispatch", "the same with error capture", {"D": 1, "Y": 2, "OPTS": 1}, {"D": 2, "Y": 3, "OPTS": 1}, reach=["end"]),
   H("hd", "Dispatch", "the same with any reuse of pooled continuations and processes", {"D": 1, "Y": 2, "POOLS": 1}, {"D": 2, "Y": 1, "POOLS": 1}, tsecs=300, reach=["end"])])

P("C36", "Interleaved processes behave as if each ran alone",
  "Processes that share commands, compiled scripts and a pool, resumed in any order, each give the yields and the result they give when run alone to the end.",
  ["schedules"], "every pair of programs, every interleaving of resumptions",
  "Shared program caches, pools and frames are corrupted only by specific interleavings.",
  ["helena_dialect/core.go", "core/compiler.go"], [("Process, ProcessStack, pools", "helena_dialect/core.go"), ("ProgramState, Executor", "core/compiler.go")],
  "Self-composition: the interleaved run, with the schedule chosen by the solver, against each process alone.",
  [H("hd", "Processes", "two processes of the same program, up to L commands run each", {"SAME": 1, "L": 3}, {"SAME": 1, "L": 4}, reach=["end"]),
   H("hd", "Processes", "two processes of any two programs", {"L": 1}, {"L": 2}, reach=["end"])])

P("C37", "Captured error traces list the calls being made, innermost first",
  "With error capture on, an error in any nesting of calls carries one level per call being made, from the innermost to the outermost, each with the words of its call and, when positions are captured, the source and exact position of its sentence. Errors caught earlier and resumptions leave no mark in it.",
  ["programs", "schedules"], "every nesting of body-running commands, kind of error and resumption",
  "Levels and positions depend on every frame above; the suites check two macros in a row. A crash was found here.",
  ["helena_dialect/core.go", "core/compiler.go", "core/errors.go"], [("Process.Run error capture", "helena_dialect/core.go"), ("ErrorStack", "core/errors.go"), ("LastFrame, OpCodePositions", "core/compiler.go")],
  "A body failing in one of 5 ways runs in a symbolic nesting of 40 calls; the expected levels are computed from the source text alone.",
  [H("hd", "ErrorTraces", "nestings of D calls", {"D": 2}, {"D": 2}, secs=120, reach=["ok", "error"]),
   H("hd", "ErrorTraces", "the same without positions", {"D": 1, "POS": 0}, {"D": 2, "POS": 0}, reach=["ok", "error"])],
  outside="The words given for an error raised while the words of a sentence are still being evaluated.")

P("C38", "Each module file runs once and its module is shared by its importers",
  "Along any history of imports, under any spelling of the paths, each module file is read and run at most once with success, in its own root scope; its importers share its state and commands as they were when imported. Circular imports and files that cannot be read, parsed or run to the end are errors that leave nothing loaded, and may be tried again.",
  ["histories", "crash_points"], "every set of files importing each other, every history of imports, every failure while loading",
  "Import graphs, failures in the middle of a load and repeated imports multiply; the suites use two fixed files.",
  ["helena_dialect/modules.go"], [("resolveModule, loadFileBasedModule, createModule, importCommand, ModuleRegistry", "helena_dialect/modules.go")],
  "Differential against a reference loader; the files' contents are chosen by the solver as they are first read (file reads are modelled by the engine).",
  [H("hd", "Modules", "1 import into any graph of 3 files, 9 kinds of bodies, 6 kinds of import", {"K": 1}, {"K": 1}, secs=120, reach=["ok", "error"]),
   H("hd", "Modules", "K operations of OPS kinds on 3 files of KINDS kinds", {"K": 3, "KINDS": 2, "OPS": 2}, {"K": 2, "KINDS": 3, "OPS": 4}, secs=120, reach=["ok", "error"]),
   H("hd", "Modules", "modules that fail, KINDS ways from FIRST on", {"K": 2, "KINDS": 5, "FIRST": 4, "OPS": 2}, {"K": 3, "KINDS": 5, "FIRST": 4, "OPS": 2}, reach=["ok", "error"]),
   H("hd", "Modules", "the same", {"K": 2, "KINDS": 3, "OPS": 2}, {"K": 3, "KINDS": 3, "OPS": 2}, secs=120, reach=["ok", "error"])],
  outside="Files and links on a real disk; modules run by the command line and native modules.")


P("C39", "Script values run as the sentences they hold, however they were built",
  "A script value, whether a literal, parsed, appended from scripts and tuples, or split and joined again, runs as its sentences in order, wherever and each time it runs: with its intrinsics seeing the last result, its variables resolved in the running scope, and its yields and errors as if written there. Its length is its number of sentences.",
  ["programs", "histories"], "every list of sentences, construction, use and ending",
  "Scripts cache their compiled program; constructions and contexts of use multiply.",
  ["helena_dialect/scripts.go", "helena_dialect/core.go", "core/compiler.go"], [("script append, split, parse", "helena_dialect/scripts.go"), ("CompileScriptValue", "helena_dialect/core.go")],
  "A script of symbolic sentences is built in 7 ways and run in 5 contexts, with endings chosen by the solver, against a reference interpreter of the sentences.",
  [H("hd", "ScriptValues", "up to N sentences of 8 kinds, up to 3 endings", {"N": 2}, {"N": 2, "SEP": 2}, reach=["end"]),
   H("hd", "ScriptTuples", "tuples of up to N values of 10 kinds, alone or appended", {"N": 2}, {"N": 3}, reach=["ok", "error", "end"]),
   H("hd", "ScriptValues", "the same with newline or semicolon separators, 2 endings", {"N": 1, "SEP": 2, "CODES": 2}, {"N": 3, "SEP": 1, "CODES": 1}, reach=["end"])])

P("C40", "Tuples and aliases call the words they stand for",
  "A command given as any nesting of tuples, tuple values, aliases and alias commands is called once with the words it stands for in order, then its own arguments, whose tuples are left whole; it yields, is resumed and ends as if called directly.",
  ["programs", "schedules"], "every nesting of prefixes, argument list and ending",
  "Prefixes are expanded recursively and continuations cross each alias; the suites use one level.",
  ["helena_dialect/aliases.go", "helena_dialect/core.go", "helena_dialect/tuples.go"], [("expandPrefixCommand, resolveLeadingTuple", "helena_dialect/core.go"), ("aliasCommand", "helena_dialect/aliases.go")],
  "Symbolic nestings of prefixes around a command that records its arguments and ends in any way, against the flat list of words.",
  [H("hd", "Prefixes", "nestings of up to D prefixes, ARGS kinds of arguments", {"D": 1, "ARGS": 4}, {"D": 2, "ARGS": 1}, secs=200, reach=["end"]),
   H("hd", "Builtins", "calls of every command that runs bodies through an alias or a tuple with up to R of its arguments, up to L commands run with any ending", {"VIA": -1, "L": 3, "CODES": 5}, {"VIA": -1, "R": 4, "L": 5, "CODES": 5}, reach=["ok", "error"])])

PICOL = ["picol_dialect/picol_dialect.go"]
P("C41", "Picol control commands run tests and bodies in order, with any endings",
  "In the Picol dialect, if, while, for, &&, ||, ! and procedures run exactly the tests and bodies their definition calls for, in order; break, continue, return and errors in tests, bodies and steps end or continue them as defined, and results are those of the last body run.",
  ["programs"], "every ending of every test, body and step",
  "Each test, body and step may end in five ways; the suites sample a few endings.",
  PICOL, [("ifCmd, whileCmd, forCmd, andCmd, orCmd, notCmd, procCommand", PICOL[0])],
  "Tests and bodies end as the solver chooses; calls, result code and value are compared with a reference interpreter.",
  [H("hp", "Control", "up to L tests, bodies and steps run", {"L": 6}, {"L": 10}, reach=["end"]),
   H("hp", "Control", "the same with values of VALUES more kinds", {"L": 4, "VALUES": 3}, {"L": 6, "VALUES": 3}, reach=["end"])])

P("C42", "Picol commands give a result on any arguments; procedures bind them locally",
  "In the Picol dialect, every command and procedure gives a result, never a crash, on any number and kind of arguments. Procedures bind required, defaulted and remaining arguments from the left, accept exactly the numbers of arguments their usage shows, and have their own variables; set and incr change the named variable only.",
  ["inputs", "histories"], "every number and kind of arguments, signature and history of assignments",
  "Crashes hide in unusual kinds of arguments and counts (four defects were found here).",
  PICOL, [("the commands' Execute", PICOL[0]), ("procCmd, procCommand", PICOL[0]), ("PicolScope", PICOL[0])],
  "Symbolic kinds of arguments, signatures and histories, against reference binding and variables; a Go panic in any path is a violation.",
  [H("hp", "Totality", "every command on up to N arguments of every kind", {"N": 3}, {"N": 3}, secs=90, reach=["ok", "error", "proc"]),
   H("hp", "ProcArguments", "signatures of up to N arguments, calls with up to M", {"N": 4, "M": 6}, {"N": 6, "M": 8}, reach=["ok", "error"]),
   H("hp", "ProcArguments", "the same with one argument of 4 other kinds", {"N": 3, "M": 4, "ODD": 1}, {"N": 4, "M": 6, "ODD": 1}, reach=["ok", "error"]),
   H("hp", "ProcArguments", "the same from a procedure with variables of the same names or after other calls", {"N": 3, "M": 4, "FROM": 3}, {"N": 4, "M": 6, "FROM": 3}, reach=["ok", "error"]),
   H("hp", "Variables", "histories of K assignments and calls", {"K": 3}, {"K": 4}, secs=60, reach=["end"])])

P("C47", "Picol operators and conditions compute what their operands denote",
  "In the Picol dialect, arithmetic folds its numeric operands from the left, comparisons order numbers, == and != compare texts and tuples element by element, every value used as a condition has one truth wherever it is tested or is an error, and procedures are those of the innermost call in progress that defines them.",
  ["inputs"], "every operator, number and kind of operands; every kind of condition in every command; every nest of definitions",
  "Operands mix integers, reals, texts and invalid values in any number and order; the suites try a few of each.",
  PICOL, [("addCmd, subtractCmd, multiplyCmd, divideCmd, compareNumbersCmd", PICOL[0]), ("compareValuesCmd, equalValues", PICOL[0]), ("evaluateCondition", PICOL[0]), ("resolveNamedCommand", PICOL[0])],
  "Symbolic integers and kinds of operands against Go's arithmetic, a structural equality, a table of truths and a stack of definitions.",
  [H("hp", "Operators", "up to N operands of 7 kinds", {"N": 3}, {"N": 4}, secs=90, reach=["ok", "error"]),
   H("hp", "Equality", "values nested to depth D", {"D": 2, "LEAVES": 2}, {"D": 2, "LEAVES": 3}, tsecs=300, reach=["end"]),
   H("hp", "Equality", "with more leaves", {"D": 1}, {"D": 1}, reach=["end"]),
   H("hp", "Conditions", "17 kinds of conditions, any integer, 9 uses", {}, {}, reach=["ok", "error"]),
   H("hp", "Scopes", "D nested calls that define a procedure before, after or never", {"D": 3}, {"D": 5}, reach=["end"])])

P("C43", "Native regexp and os commands give what the Go functions they name give",
  "Each method of the native regexp command gives, for any expression, text and limits, the value of Go's function of that name as Helena values (nil for no match), and errors for invalid expressions; os ReadFile gives the file's content as it is at the time or an error. Any number and kind of arguments gives a result, never a crash.",
  ["inputs", "histories"], "every method, expression of a fixed list, text, limit, kind of arguments and history of files",
  "18 methods by shapes of matches: empty, missing groups, limits; the suites check one call each.",
  ["native/go_regexp/go_regexp.go", "native/go_os/go_os.go"], [("RegexpCmd.Execute", "native/go_regexp/go_regexp.go"), ("OsCmd.Execute", "native/go_os/go_os.go")],
  "Differential against Go's own package on symbolic texts; files are written and removed in symbolic histories.",
  [H("hp", "Regexps", "24 expressions, texts of up to N letters, 5 limits", {"N": 2}, {"N": 4}, reach=["end"]),
   H("hp", "RegexpTotality", "up to N arguments after the method", {"N": 2}, {"N": 3}, reach=["ok", "error"]),
   H("hp", "Files", "histories of K writes, removals and reads", {"K": 3}, {"K": 4, "N": 3}, reach=["ok", "error"])],
  assumptions=["Go's regexp package itself runs natively within the engine, on texts made concrete one by one (every text within the bound is covered)."],
  outside="Other expressions; ReplaceAllStringFunc (not implemented); errors of the system other than a missing file.")

P("C46", "Interpreters on several goroutines do not affect each other",
  "Independent interpreters, each with a module registry of its own, running at the same time on several goroutines each give the results they give alone: whatever one of them puts back in a pool shared with the others may be taken and overwritten at once, and is neither read nor changed afterwards; and they do not change, without synchronisation, anything that package-level variables hold or lead to.",
  ["schedules", "programs"], "every schedule in which another goroutine takes what is put in a pool, every ending of tests, bodies and sources",
  "A use after a put shows only when another goroutine takes the object in between; wrong results of if and when were found here.",
  ["helena_dialect/core.go", "helena_dialect/controls.go", "helena_dialect/logic.go", "core/compiler.go"], [("programStatePool, continuationValuePool", "helena_dialect/core.go"), ("loopCmdStatePool, whileCmdStatePool, ifCmdStatePool, whenCmdStatePool", "helena_dialect/controls.go"), ("andCmdStatePool", "helena_dialect/logic.go")],
  "Put is replaced by another goroutine that takes the object at once, clears its fields and its reusable buffers, and keeps it; everything that can be reached from the package-level variables of the code is compared before and after; the harnesses of other properties must still agree with their references, and the objects must stay as they were left. Counterexamples are replayed with the same stand-in in Go's own sync.Pool.",
  [H("hd", "Wrappers", "nestings of D body-running commands", {"D": 1, "POOLS": 2}, {"D": 2, "POOLS": 2}, reach=["end"]),
   H("hd", "IfBranches", "up to N branches", {"N": 3, "POOLS": 2}, {"N": 3, "POOLS": 2}, reach=["end"]),
   H("hd", "WhenBranches", "up to 2 cases", {"POOLS": 2}, {"POOLS": 2}, reach=["end"]),
   H("hd", "WhileLoops", "up to 4 tests and bodies run", {"POOLS": 2}, {"POOLS": 2}, reach=["end"]),
   H("hd", "LoopSources", "loops over any sources", {"POOLS": 2}, {"POOLS": 2}, reach=["end"]),
   H("hd", "Logic", "up to N operands", {"N": 3, "POOLS": 2}, {"N": 4, "POOLS": 2}, reach=["end"]),
   H("hd", "CatchHandlers", "catch with any handlers", {"POOLS": 2}, {"POOLS": 2}, reach=["end"]),
   H("hd", "Processes", "two processes of any two programs", {"L": 1, "POOLS": 2}, {"L": 1, "POOLS": 2}, reach=["end"]),
   H("hd", "CommandTotality", "every command on up to N arguments of every kind", {"N": 1, "POOLS": 2}, {"N": 2, "POOLS": 2}, tsecs=200, reach=["ok", "error"]),
   H("hd", "Dispatch", "D nested dispatchers", {"D": 1, "POOLS": 2}, {"D": 2, "POOLS": 2}, tsecs=200, reach=["end"]),
   H("hcore", "Alone", "9 harnesses of the core at small bounds", {"N": 1, "K": 1}, {"N": 2, "K": 1}, reach=["end"]),
   H("hp", "Alone", "10 harnesses of the Picol dialect and native commands at small bounds", {"N": 1, "K": 1}, {"N": 2, "K": 2}, tsecs=200, reach=["end"])],
  assumptions=["Other goroutines reach an interpreter's objects only through sync.Pool and package-level variables; code that takes locks or uses atomic operations is taken to synchronise rightly; the stand-in takes an object at the time it is put and no later (a later overwriting can only show what an earlier one shows)."],
  outside="Scripts and values shared by interpreters on purpose (a script value caches its compiled program without locking), module registries given to several interpreters.")

NOT("C44", "The log command writes each message once with its level",
  "slog methods write exactly one record with the message and the level of the method.",
  ["inputs"], "any sequence of messages", "The effect is entirely within Go's slog package and its global handler.",
  ["native/go_slog/go_slog.go"], [("SlogCmd.Execute", "native/go_slog/go_slog.go")],
  "The command only forwards to log/slog, whose global handler, clock and output are outside the encoding; nothing of it is left to decide by solving.")

NOT("C45", "The interactive prompt evaluates what is typed and completes open blocks",
  "The prompt evaluates complete scripts, asks for more lines while a block or string is open, and survives errors.",
  ["inputs", "histories"], "any sequence of lines", "Any input may be split over lines anywhere.",
  ["cli/cli.go"], [("the REPL", "cli/cli.go")],
  "The loop is interwoven with a terminal library and file I/O that cannot be executed symbolically, and exposes no function to call; the parser's stream property it relies on (incomplete versus invalid input) is covered by C04 to C06.")
