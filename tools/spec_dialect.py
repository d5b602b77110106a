P("C11", "List commands return the list their indexes and arguments denote",
  "range, remove, insert, replace, append, at and length on any list with any 64-bit indexes and any number and kind of arguments give the list (or element, default or number) the index rules prescribe, or an error result exactly when the arguments are invalid. They never crash and never change the list they are given.",
  ["inputs"], "every list, every index, every number and kind of arguments",
  "Index clamping has a dozen boundary cases per subcommand at both ends; the suites try a few lists and indexes. Three defects were found here.",
  ["helena_dialect/lists.go"], [("listRangeCmd, listRemoveCmd, listInsertCmd, listReplaceCmd, listAtCmd, listAppendCmd, listLengthCmd", "helena_dialect/lists.go"), ("ListAt", "core/selectors.go")],
  "Differential: each subcommand runs on a list of symbolic elements with unconstrained symbolic indexes and is compared with a reference that picks elements one at a time by the index rules.",
  [H("hd", "ListEditing", "lists of up to N elements, any two 64-bit indexes, up to 2 new elements", {"N": 3}, {"N": 5}, reach=["end"]),
   H("hd", "ListEditing", "the same with nil and tuple elements", {"N": 3, "MIXED": 1}, {"N": 4, "MIXED": 2}, reach=["end"]),
   H("hd", "ListArguments", "every subcommand with up to N arguments of 11 kinds", {"N": 2}, {"N": 3}, reach=["ok", "error"])],
  outside="Longer lists: the commands copy slices between computed bounds and treat all elements alike.")

P("C12", "Dictionary commands behave as a finite map from texts to values",
  "size, has, get, add, remove, merge, keys, values and entries on any dictionary give what a finite map from key texts to values prescribes, whatever the internal order of the map; keys are equal exactly when their texts are. Every number and kind of arguments gives either that result or an error, and dictionaries given as arguments are never changed.",
  ["inputs"], "every dictionary, every key, every number and kind of arguments, every map iteration order",
  "Key aliasing (integer and text keys), missing keys and defaults, merges of overlapping dictionaries and map iteration order combine; the suites fix one dictionary.",
  ["helena_dialect/dicts.go"], [("dict*Cmd", "helena_dialect/dicts.go")],
  "Differential against an association list; map iteration orders are chosen by the engine (every permutation).",
  [H("hd", "DictCommands", "dictionaries of up to N entries over aliasing keys, merges of up to M more", {"N": 2, "M": 2, "E": 1}, {"N": 3, "M": 2, "E": 2}, reach=["end"]),
   H("hd", "DictCommands", "the same, merging one dictionary of up to E entries", {"N": 2, "M": 1, "E": 2}, {"N": 2, "M": 1, "E": 3}, reach=["end"]),
   H("hd", "DictCommands", "the same with nil and tuple values", {"N": 1, "M": 1, "E": 1, "MIXED": 1, "KEYS": 4}, {"N": 2, "M": 1, "E": 2, "MIXED": 1, "KEYS": 4}, reach=["end"]),
   H("hd", "DictArguments", "every subcommand with up to N arguments of 11 kinds", {"N": 2}, {"N": 3}, reach=["ok", "error"])])

P("C13", "String commands return the bytes their indexes and arguments denote",
  "length, at, range, append, remove, insert and replace on any string with any 64-bit indexes give exactly the prescribed bytes, and the six comparisons are the byte-wise order of the texts. Every number and kind of arguments gives either that result or an error, never a crash.",
  ["inputs"], "every string, every index, every pair of strings, every number and kind of arguments",
  "Same boundary cases as lists, plus bytes outside ASCII and subcommand-as-infix forms.",
  ["helena_dialect/strings.go"], [("string*Cmd", "helena_dialect/strings.go"), ("StringAt", "core/selectors.go")],
  "Differential against byte-at-a-time references, over symbolic bytes and indexes.",
  [H("hd", "StringEditing", "strings of up to N arbitrary bytes, any two 64-bit indexes", {"N": 3}, {"N": 4}, reach=["end"]),
   H("hd", "StringComparison", "pairs of strings of up to N arbitrary bytes", {"N": 2}, {"N": 3}, reach=["end"]),
   H("hd", "StringArguments", "every subcommand with up to N arguments of 11 kinds", {"N": 2}, {"N": 3}, reach=["ok", "error"])])

P("C14", "Values are immutable along every history",
  "No command changes a value that was obtained before it ran: whatever sequence of list, dictionary, string and tuple commands follows, each value still reads as it did when it was returned. Arguments bound by a call, including remainders, keep their values whatever runs later.",
  ["histories"], "every sequence of commands sharing values",
  "Sharing of backing arrays shows only when two specific commands extend or edit the same value in a particular order.",
  ["helena_dialect/lists.go", "helena_dialect/dicts.go", "helena_dialect/strings.go", "helena_dialect/argspecs.go", "core/compiler.go"], [("list/dict editing commands", "helena_dialect/lists.go"), ("remainder slices", "helena_dialect/argspecs.go"), ("executor stack", "core/compiler.go")],
  "Every value returned along a symbolic history is snapshotted and compared after each later command.",
  [H("hd", "CollectionHistories", "all sequences of K commands over 17 commands and all earlier values", {"K": 2}, {"K": 3}, reach=["end"]),
   H("hd", "ArgumentLifetime", "closures and coroutines keeping up to M arguments while other commands run", {"M": 3}, {"M": 5}, reach=["end"])])

P("C15", "Sorting gives the ordered permutation, or the comparator's failure",
  "list sort returns a permutation of the elements that the order (textual by default, or the given comparator) never contradicts, leaving the list itself unchanged. A comparator that does not end in a boolean makes the sort end with that failure.",
  ["inputs"], "every list, every comparator verdict",
  "Sorting outcomes depend on every pairwise comparison; the suites sort two lists.",
  ["helena_dialect/lists.go"], [("listSortCmd, listExecutor", "helena_dialect/lists.go")],
  "Symbolic elements (the standard library's sort is executed symbolically); order, permutation and comparator call counts are asserted.",
  [H("hd", "ListSort", "lists of up to N elements: texts of up to S bytes, or integers with a comparator", {"N": 4}, {"N": 5}, tsecs=600, reach=["end"]),
   H("hd", "ListSortErrors", "lists of up to N elements, comparators ending in any code or value", {"N": 3}, {"N": 4}, reach=["failed", "sorted"])],
  outside="Comparators that yield; comparators that are not an order.")

P("C16", "foreach visits each element once, in order, with each ending honoured",
  "list and dict foreach run the body once per element (each key once), bind the element by the given shape, skip on continue, stop on break, stop and pass every other code, and yield the value of the last completed body. A body that yields is resumed where it stopped, with the value sent.",
  ["inputs", "programs", "schedules"], "every list, every sequence of body endings and resumptions",
  "Endings of each iteration (normal, break, continue, return, tail call, yield, error, custom) combine over iterations; the suites try one at a time.",
  ["helena_dialect/lists.go", "helena_dialect/dicts.go"], [("listForeachCmd", "helena_dialect/lists.go"), ("dictForeachCmd", "helena_dialect/dicts.go")],
  "Differential against a reference loop with a symbolic ending for each iteration and symbolic resumption values.",
  [H("hd", "Foreach", "up to N elements, any ending each", {"N": 3}, {"N": 4}, reach=["end"]),
   H("hd", "Foreach", "the same with nil and tuple results", {"N": 2, "MIXED": 1}, {"N": 3, "MIXED": 1}, reach=["end"])])

P("C17", "Displayed lists and dictionaries rebuild the same collection",
  "The display form of any list, and of any dictionary in any iteration order, evaluates in a fresh root scope to an equal list or dictionary.",
  ["inputs"], "every content and nesting",
  "Display composes the quoting rules of C07 with nested blocks and substitution; the suites display a few collections.",
  ["core/display.go", "helena_dialect/lists.go", "helena_dialect/dicts.go"], [("DisplayList, DisplayLiteralOrString, DisplayBlock", "core/display.go"), ("DisplayListValue", "helena_dialect/lists.go"), ("DisplayDictionaryValue", "helena_dialect/dicts.go")],
  "Round-trip through the real tokenizer, parser, compiler and commands, over symbolic contents.",
  [H("hd", "CollectionDisplay", "1 element deep collections of up to E strings of up to N bytes", {"N": 1, "E": 2}, {"N": 2, "E": 2}, reach=["end"]),
   H("hd", "CollectionShapes", "nests of depth D+1 of up to W strings, scripts, qualified words, nothing, tuples, lists and dictionaries", {"D": 3, "W": 1}, {"D": 4, "W": 1}, reach=["end"]),
   H("hd", "CollectionShapes", "the same", {"D": 0, "W": 3}, {"D": 1, "W": 2}, tsecs=300, reach=["end"]),
   H("hd", "CollectionDisplay", "the same, single strings", {"N": 2, "E": 1}, {"N": 3, "E": 1}, reach=["end"])])

P("C18", "Arithmetic computes the exact result with the usual precedence",
  "+, -, * and / as prefix commands and infix chains give the mathematical result of their integer operands with the usual precedence and associativity; exact quotients are integers, others the nearest real. Operands that are reals, or whose result is not within 2^53, are computed as doubles from left to right, products and quotients first; whole results within 64 bits are integers. Any number and kind of operands and operators gives a result or an error, never a crash.",
  ["inputs"], "every operand and operator sequence",
  "Precedence and the integer/real boundary depend on the whole chain; the suites evaluate a few chains.",
  ["helena_dialect/math.go", "helena_dialect/numbers.go"], [("addCmd, subtractCmd, multiplyCmd, divideCmd", "helena_dialect/math.go"), ("numberCmd / executeInfix", "helena_dialect/numbers.go")],
  "Exact symbolic integers against integer references (doubles derived from bounded integers are reasoned about exactly).",
  [H("hd", "IntegerArithmetic", "up to N operands in -R..R", {"N": 3, "R": 1000}, {"N": 4, "R": 100}, reach=["end"]),
   H("hd", "Division", "two operands in -R..R", {"R": 2000}, {"R": 20000}, reach=["end"]),
   H("hd", "RealArithmetic", "up to N operands among NUMBERS chosen integers and reals (zero, halves, 2^31 to 2^63 and beyond, 1e300, the smallest double, infinity), every operator sequence", {"N": 3, "NUMBERS": 8}, {"N": 3, "NUMBERS": 15}, reach=["end"]),
   H("hd", "NumberArguments", "prefix commands with up to N operands of 11 kinds", {"N": 4}, {"N": 5}, reach=["end"]),
   H("hd", "InfixArguments", "chains of up to N words", {"N": 5}, {"N": 6}, reach=["end"])],
  outside="Integers beyond 2^53, which the dialect computes as doubles by design; real operands other than the chosen ones.")

P("C19", "Number comparison is the order of numbers",
  "The six numeric comparisons agree with one total order of numbers: for every two integers up to 2^53 in magnitude and every two doubles, exactly one of less, equal and greater holds, and the others follow. Operands that are not numbers are errors or unequal, as stated, never a crash.",
  ["inputs"], "every pair of integers up to 2^53 and every pair of doubles",
  "Rounding, signed zero and mixed integer/real operands are not sampled.",
  ["helena_dialect/numbers.go"], [("numberOperator commands", "helena_dialect/numbers.go")],
  "The comparisons run on unconstrained symbolic doubles and integers; the six outcomes are asserted against integer order and IEEE order.",
  [H("hd", "NumberComparison", "all pairs", {}, {}, secs=60, reach=["end"])],
  outside="Integers beyond 2^53; NaN.")

P("C20", "Logic evaluates left to right and stops at the first decisive operand",
  "&& and || evaluate block operands in order, only up to the first that decides, and ! negates; each operand's other endings (error, return, yield, break...) end the expression with that ending and nothing later runs. true and false run the branch they select and only that one.",
  ["programs", "schedules"], "every operand sequence and ending",
  "Endings and resumptions at each operand position multiply; the suites try selected ones.",
  ["helena_dialect/logic.go"], [("andCmd, orCmd, notCmd, trueCmd, falseCmd", "helena_dialect/logic.go")],
  "Symbolic operands with symbolic endings and a counter of evaluations.",
  [H("hd", "Logic", "up to N operands of any kind and ending", {"N": 3}, {"N": 4}, reach=["end"]),
   H("hd", "TrueFalse", "every argument form of true, false and !", {}, {}, reach=["end"])])

P("C21", "Variables and constants follow one map; failed commands change nothing",
  "Along any sequence of let, set, unset, get and exists, with names or nested tuples of names, names behave as one map in which constants are never redefined, overwritten or removed. Destructuring binds every name or, when any part fails, none: a command that fails changes nothing.",
  ["histories"], "every sequence of variable commands, shapes and values",
  "Partial destructuring failures and redefinition across kinds need a specific order of several commands.",
  ["helena_dialect/variables.go", "helena_dialect/core.go"], [("letCmd, setCmd, getCmd, existsCmd, unsetCmd", "helena_dialect/variables.go"), ("DestructureConstant, DestructureVariable, DestructureLocal, Scope", "helena_dialect/core.go")],
  "Differential against an association-list model along symbolic histories; the whole environment is compared after each command.",
  [H("hd", "VariableHistories", "all histories of up to K commands over 8 shapes and 6 values", {"K": 2}, {"K": 3}, tsecs=600, reach=["end"]),
   H("hd", "NestedShapes", "let, set, unset and foreach of shapes of up to NODES names and tuples nested to DEPTH, values with at most one mismatch, one name already defined", {"NODES": 6, "DEPTH": 3}, {"NODES": 7, "DEPTH": 4}, tsecs=300, reach=["ok", "error"]),
   H("hd", "QualifiedAccess", "get and exists through one selector of each kind, with and without default", {}, {}, reach=["end"]),
   H("hd", "QualifiedAccess", "the same with nil and tuple elements", {"MIXED": 1}, {"MIXED": 1}, reach=["end"])])

P("C22", "Bodies see and define exactly what their kind of scope allows",
  "Definitions made in a macro, closure, procedure, scope, namespace or block body are visible exactly where that kind of body says: macros and blocks in the caller, closures in the definition scope, procedures, scopes and namespaces in their own. Arguments belong to one call, through recursion and nesting.",
  ["programs"], "every pair of nested bodies and kind of definition",
  "Visibility is a product of body kind, definition kind and observer; the suites test each kind alone.",
  ["helena_dialect/core.go", "helena_dialect/macros.go", "helena_dialect/closures.go", "helena_dialect/procs.go", "helena_dialect/scopes.go", "helena_dialect/namespaces.go"], [("Scope.NewChildScope, NewLocalScope, ResolveVariable, ResolveNamedCommand", "helena_dialect/core.go")],
  "The real dialect runs generated nestings; observed visibility is compared with a table model.",
  [H("hd", "ScopeIsolation", "6 kinds of body, definitions of variables, constants and commands, observed inside, outside and across calls", {}, {}, reach=["end"]),
   H("hd", "GuardScopes", "8 forms of guards, defaults and bodies of 3 kinds of command, defined in 3 and called from 6 places", {}, {}, reach=["end"]),
   H("hd", "RepeatedCalls", "two to four calls of 4 kinds of command whose first one defines and ends in 6 ways each, also suspended", {}, {}, reach=["end"]),
   H("hd", "LocalFrames", "recursion to depth N", {"N": 4}, {"N": 8}, reach=["end"]),
   H("hd", "Hierarchy", "three nested scopes of 3 kinds, histories of K definitions of HOW kinds and calls of CALLS kinds of one command", {"K": 4, "HOW": 1, "CALLS": 1}, {"K": 4, "HOW": 2, "CALLS": 2}, tsecs=300, reach=["end"]),
   H("hd", "Hierarchy", "the same", {"K": 3, "HOW": 3, "CALLS": 3}, {"K": 5, "HOW": 1, "CALLS": 1}, tsecs=300, reach=["end"])])

P("C23", "Positional arguments bind by one rule everywhere",
  "argspec set, macros, closures and procedures bind positional arguments alike: required ones first, optional ones from the left as long as arguments remain, the remainder gets the rest, guards apply to given values only, defaults to absent ones. Too few or too many arguments is an error and nothing runs or is set.",
  ["inputs"], "every specification and every argument list",
  "Which argument gets which value depends on the whole specification and the number of arguments; the suites try selected counts.",
  ["helena_dialect/argspecs.go", "helena_dialect/arguments.go", "helena_dialect/macros.go", "helena_dialect/closures.go", "helena_dialect/procs.go"], [("ApplyArguments, SetNamedVariables", "helena_dialect/argspecs.go"), ("BuildArguments", "helena_dialect/arguments.go")],
  "Differential against an independent binder, over symbolic specifications and arguments, on four call mechanisms.",
  [H("hd", "ArgspecPositional", "up to N parameters of every kind, up to M arguments, guards", {"N": 3, "M": 4, "G": 1}, {"N": 4, "M": 5, "G": 1}, tsecs=600, reach=["end"]),
   H("hd", "ArgspecPositional", "the same with one value or default of 5 other kinds", {"N": 2, "M": 3, "G": 1, "ODD": 1}, {"N": 3, "M": 3, "G": 1, "ODD": 1}, tsecs=300, reach=["end"]),
   H("hd", "DefaultScripts", "two optional arguments with default scripts of any ending, up to two calls", {}, {}, reach=["end"])])

P("C24", "Options bind in any order, each to its own argument",
  "Options may be given in any order before, between and after positional arguments where the specification allows; each takes its value (or is a flag), missing optional ones take their default, and unknown, repeated-invalid, missing and valueless options are errors that leave nothing set.",
  ["inputs"], "every specification with options and every argument list",
  "Option and positional allocation interact through counts and order; four defects were found here.",
  ["helena_dialect/argspecs.go", "helena_dialect/arguments.go"], [("ApplyArguments, optionSlots", "helena_dialect/argspecs.go")],
  "Differential against an independent option binder.",
  [H("hd", "ArgspecOptions", "up to N parameters, up to M arguments", {"N": 2, "M": 4}, {"N": 3, "M": 4}, tsecs=600, reach=["end"]),
   H("hd", "ArgspecOptions", "up to N required parameters, required options and flags, names with dashes", {"N": 3, "M": 4, "KINDS": 3, "DASH": 1}, {"N": 4, "M": 4, "KINDS": 3, "DASH": 1}, tsecs=600, reach=["end"]),
   H("hd", "ArgspecOptions", "the same with one value or default of 5 other kinds", {"N": 2, "M": 3, "ODD": 1}, {"N": 2, "M": 4, "ODD": 1}, secs=120, tsecs=600, reach=["end"])])

P("C25", "Any argument specification is rejected or usable",
  "Any value given as an argument specification is either rejected with an error or gives a specification whose usage and binding of any arguments produce results; no specification or argument list crashes the host. It is accepted exactly when its words are well formed, argument and option names are distinct, every option has an argument (an optional one for flags) and there is one remainder at most, with no option after it. Defaults given as scripts run in order, once per call that needs them, with any command, and their failures end the call.",
  ["inputs", "programs"], "every nesting of values used as a specification, every argument list",
  "Malformed specifications are unbounded in shape; the suites list a few. Several crashes were found here.",
  ["helena_dialect/argspecs.go", "helena_dialect/arguments.go"], [("BuildArguments, buildArgument", "helena_dialect/arguments.go"), ("ArgspecValueFromValue, Usage, ApplyArguments, DefaultScripts", "helena_dialect/argspecs.go")],
  "Symbolic specifications built from word kinds are given to every entry point; any Go panic is a violation.",
  [H("hd", "ArgspecTotality", "up to N words of every kind, up to M arguments", {"N": 2, "M": 2}, {"N": 2, "M": 3}, reach=["accepted", "rejected"]),
   H("hd", "SpecificationRules", "up to N entries of ENTRIES forms over 2 names", {"N": 4, "ENTRIES": 6}, {"N": 4, "ENTRIES": 10}, tsecs=200, reach=["accepted", "rejected"]),
   H("hd", "SpecificationRules", "the same, every form", {"N": 2}, {"N": 3, "ENTRIES": 19}, tsecs=200, reach=["accepted", "rejected"]),
   H("hd", "DefaultScripts", "two optional arguments with default scripts of any ending", {}, {}, reach=["end"])])

P("C26", "Loops run tests, sources and bodies in order, any ending honoured",
  "while and loop run their tests, sources and body in order, once per iteration; break stops, continue skips, any other code ends the loop with it, and the value is that of the last completed body. Anything that yields is resumed where it stopped, with the value sent; loop variables stay local to the loop.",
  ["programs", "schedules"], "every sequence of endings and resumptions, every number and kind of sources",
  "Endings of tests, sources and bodies combine over iterations; the suites try one at a time.",
  ["helena_dialect/controls.go"], [("whileCmd, loopCmd, loop sources", "helena_dialect/controls.go")],
  "Differential against a reference loop: each command called by the loop ends in any way, chosen by the solver, and every yield is answered.",
  [H("hd", "WhileLoops", "up to L commands run, each with any ending", {"L": 4}, {"L": 6}, reach=["end"]),
   H("hd", "LoopSources", "up to S sources of 6 kinds, 2 shapes; up to L commands run", {"S": 2, "L": 3}, {"S": 2, "L": 4}, reach=["end"]),
   H("hd", "WhileLoops", "the same with values, yields and answers of VALUES more kinds", {"L": 2, "VALUES": 8}, {"L": 3, "VALUES": 4}, tsecs=240, reach=["end"]),
   H("hd", "LoopSources", "the same with values, yields and answers of VALUES more kinds", {"S": 2, "L": 2, "VALUES": 1}, {"S": 2, "L": 2, "VALUES": 3}, tsecs=240, reach=["end"])],
  outside="Longer runs; sources given as commands other than tuples and scripts.")

P("C27", "Branches run the first true test's body, and only that",
  "if and when evaluate tests in order until one is true, run its body and nothing else, and give its result; with none true, the default or nothing. A test or body that ends otherwise (error, return, break, tail call, custom code) ends the command with that; one that yields is resumed where it stopped.",
  ["programs", "schedules"], "every number of branches, kind of test and ending",
  "Test kinds, command prefixes, endings and resumptions multiply; the suites sample them singly.",
  ["helena_dialect/controls.go"], [("ifCmd, whenCmd", "helena_dialect/controls.go")],
  "Differential against a reference branch selection with solver-chosen endings.",
  [H("hd", "IfBranches", "up to N branches with 5 kinds of tests, up to L commands run", {"N": 3, "L": 3}, {"N": 4, "L": 3}, reach=["end"]),
   H("hd", "WhenBranches", "up to N cases of 5 kinds under 4 kinds of command, up to L commands run", {"N": 2, "L": 3}, {"N": 2, "L": 5}, reach=["end"]),
   H("hd", "IfBranches", "the same with values, yields and answers of VALUES more kinds", {"N": 2, "L": 2, "VALUES": 5}, {"N": 2, "L": 2, "VALUES": 8}, tsecs=240, reach=["end"]),
   H("hd", "WhenBranches", "the same with values, yields and answers of VALUES more kinds", {"N": 2, "L": 2, "VALUES": 1}, {"N": 1, "L": 2, "VALUES": 5}, tsecs=240, reach=["end"])])

P("C28", "catch runs the one handler of the ending, and finally always",
  "catch ends with its body's result unless a handler matches its code: then that handler alone runs, with the value, and gives the result; pass resumes the original one. finally runs once after either. Without handlers, catch gives the code and value as a tuple. Any other argument list is an error; nothing crashes.",
  ["programs", "schedules"], "every set of handlers, every ending of body and handlers, every resumption",
  "Body, handler, pass and finally endings with yields at each point give thousands of histories; five defects were found here.",
  ["helena_dialect/controls.go"], [("catchCmd", "helena_dialect/controls.go")],
  "Differential against a reference interpreter of catch over resumable bodies with solver-chosen endings.",
  [H("hd", "CatchHandlers", "none, one or all handlers, up to L commands run, each with any ending", {"L": 5}, {"L": 7}, reach=["end"]),
   H("hd", "CatchHandlers", "every set of handlers", {"L": 4, "ALL": 1}, {"L": 6, "ALL": 1}, reach=["end"]),
   H("hd", "CatchHandlers", "the same with values, yields and answers of VALUES more kinds", {"L": 3, "VALUES": 2}, {"L": 3, "VALUES": 8}, tsecs=360, reach=["end"]),
   H("hd", "CatchHandlers", "every set of handlers, the same", {"L": 3, "ALL": 1, "VALUES": 1}, {"L": 3, "ALL": 1, "VALUES": 3}, tsecs=360, reach=["end"]),
   H("hd", "CatchCodes", "a body of any ending, directly and through 4 kinds of tail calls", {}, {}, reach=["end"]),
   H("hd", "CatchArguments", "up to N arguments of 7 kinds", {"N": 4}, {"N": 5}, reach=["end"])])

P("C29", "Last results and pipes refer to the last command of the same script",
  "Within a script, ^ gives the result of the last command run at the same level and |> passes it as first argument, whether that command ended at once, through a tail call or after any number of yields; expressions and scripts nested in it have their own. Resuming never runs a command again.",
  ["programs", "schedules"], "every sequence of sentences, pipes and resumptions",
  "The result slot is shared by intrinsics, nested frames and resumption; two defects were found here.",
  ["core/compiler.go", "core/intrinsics.go", "core/evaluator.go"], [("ExecuteUntil, ProgramState, frames", "core/compiler.go"), ("last result and pipe intrinsics", "core/intrinsics.go")],
  "Differential against a reference evaluator of sentences; each command yields, fails or succeeds as the solver chooses.",
  [H("hd", "Pipelines", "up to K sentences of 12 kinds", {"K": 3}, {"K": 4}, reach=["end"]),
   H("hd", "Pipelines", "the same with errors", {"K": 2, "E": 1}, {"K": 3, "E": 1}, reach=["end"]),
   H("hd", "Pipelines", "the same with values, yields and answers of VALUES more kinds", {"K": 2, "VALUES": 1}, {"K": 2, "VALUES": 2}, tsecs=240, reach=["end"])])
