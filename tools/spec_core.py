P("C01", "Tokenization is lossless and positions are exact",
  "Tokenizing any source text never fails and yields non-empty tokens whose raw sequences concatenate to exactly that text. Every token's recorded position is the index, line and column of its first character.",
  ["inputs"], "every byte string, of every length and content",
  "The suites tokenize about a hundred hand-written lines; losslessness and positions must hold for every byte string, including invalid UTF-8 and truncated escapes.",
  ["core/tokenizer.go"], [("Tokenizer.Next, addToken, addText", "core/tokenizer.go"), ("sourceCursor.Next", "core/tokenizer.go")],
  "The tokenizer is executed on a string of symbolic bytes (each byte any of 256 values); the harness recomputes index, line and column from the source alone.",
  [H("hcore", "TokenizerLossless", "all strings of up to N arbitrary bytes", {"N": 4}, {"N": 5}, reach=["end"])],
  outside="Longer sources; the tokenizer keeps no state other than the current token, so longer inputs repeat the same transitions.")

P("C02", "Tokens and their literals follow the lexical grammar",
  "Every source text splits into tokens of the type, extent and literal value the lexical grammar prescribes: maximal runs for whitespace, quotes, comment marks and text, line continuations, and escape sequences decoded to the character they denote. Escapes that are truncated, malformed or not recognized stand for the characters as written.",
  ["inputs"], "every byte string",
  "Escapes have many length- and digit-dependent cases (octal, \\x, \\u, \\U, surrogate and out-of-range code points) of which the suites try a few values each.",
  ["core/tokenizer.go"], [("Tokenizer.Next", "core/tokenizer.go"), ("getEscape, isOctal, isHexadecimal, digitValue", "core/tokenizer.go")],
  "Differential: an independent reference tokenizer (harness/hcore/tokenizer.go) written from the language documentation runs on the same symbolic bytes; type, extent and literal of every token are compared.",
  [H("hcore", "TokenizerReference", "all strings of up to N arbitrary bytes", {"N": 3}, {"N": 4}, reach=["end"]),
   H("hcore", "TokenizerEscapes", "a character, a backslash, an escape letter or digit, then up to N characters of '07afFg \\n\\\\'", {"N": 3}, {"N": 5}, reach=["end"]),
   H("hcore", "TokenizerWideEscapes", "\\u and \\U followed by 0..10 arbitrary lowercase hexadecimal digits", {"N": 3}, reach=["end"])],
  outside="Sources longer than the bound, mixed-case digits in wide escapes beyond the second harness.")

P("C03", "Parsing follows the grammar: same tree, or the prescribed error",
  "Every source text either parses to exactly the script, sentence, word and morpheme structure the grammar assigns to it or is rejected with the grammar's error for its first fault; no source makes the parser fail in any other way. Captured positions, when requested, are those of the first character of each item.",
  ["inputs"], "every source text",
  "Delimiter mismatches, stray closers and end-of-input faults combine without bound; the suites try selected combinations. Five crashes or silent losses were found and repaired here.",
  ["core/parser.go", "core/syntax.go"], [("Parser.parseToken and the parse* methods", "core/parser.go"), ("context stack", "core/parser.go")],
  "Differential: the tree built by the real non-recursive parser is compared, node by node, with that of an independent recursive-descent reference parser over the reference tokens.",
  [H("hcore", "ParserReference", "all strings of up to N arbitrary bytes", {"N": 3}, {"N": 4}, reach=["accepted", "rejected"]),
   H("hcore", "ParserSyntax", "all strings of exactly N characters with a syntactic role", {"N": 4}, {"N": 5}, reach=["accepted", "rejected"]),
   H("hcore", "ParserSyntax", "the same with captured positions compared", {"N": 4, "POS": 1}, {"N": 5, "POS": 1}, reach=["accepted", "rejected"]),
   H("hcore", "ParserNesting", "all strings of N delimiters", {"N": 6}, {"N": 8}, reach=["accepted", "rejected"])],
  outside="Longer sources and deeper nesting than stated.")

P("C04", "Strings, comments and substitutions parse as the grammar says",
  "Within quoted strings, here-strings, tagged strings, line and block comments and substitution prefixes, every source yields the contents, delimiter lengths, indentation stripping and substitution markers the grammar prescribes. Unterminated forms are reported as such.",
  ["inputs"], "every source text around these forms",
  "Each form has its own closing, nesting and indentation rules whose interactions with every other special character are not sampled.",
  ["core/parser.go"], [("parseString, parseHereString, parseTaggedString, parseLineComment, parseBlockComment, beginSubstitution", "core/parser.go")],
  "Same differential oracle as C03, with sources that open one of these forms and continue with symbolic characters.",
  [H("hcore", "ParserStrings", "a quoted string with up to N characters of 14 special and plain ones", {"N": 4, "POS": 1}, {"N": 5, "POS": 1}, reach=["accepted", "rejected"]),
   H("hcore", "ParserSubstitutions", "words starting with $ and up to N more characters", {"N": 4, "POS": 1}, {"N": 5, "POS": 1}, reach=["accepted", "rejected"]),
   H("hcore", "ParserTagged", "tagged strings with up to N characters incl. indented lines", {"N": 4}, {"N": 6}, reach=["accepted", "rejected"]),
   H("hcore", "ParserHereStrings", "here-strings with up to N characters", {"N": 5}, {"N": 7}, reach=["accepted", "rejected"]),
   H("hcore", "ParserComments", "line and block comments with one or two marks and up to N characters", {"N": 4, "POS": 1}, {"N": 6, "POS": 1}, reach=["accepted", "rejected"]),
   H("hcore", "ParserBlockComments", "block comments with one or two marks and up to N of TOKENS tokens (openings and closings with one to three marks, braces, escapes, line ends)", {"N": 4, "TOKENS": 11, "POS": 1}, {"N": 6, "TOKENS": 7, "POS": 1}, reach=["accepted", "rejected"]),
   H("hcore", "ParserLongDelimiters", "tagged strings with longer tags and here-strings with four or five quotes, with up to N of TOKENS tokens (runs of quotes, parts of the tag, line ends, spaces)", {"N": 4, "TOKENS": 11}, {"N": 6, "TOKENS": 7}, reach=["accepted", "rejected"])],
  outside="Longer contents; other tags.")

P("C05", "Incremental parsing equals batch parsing; early errors are final",
  "Driving the tokenizer and parser step by step, with a parser already used for any other source, gives the same tree or error as parsing at once. Requesting positions changes nothing but positions, trees are unaffected by later use of the parser, and an error reported before the end of the input is never repaired by more input.",
  ["inputs", "histories"], "every source text, every continuation, every previous use of the parser",
  "The interactive prompt decides between asking for more input and failing on this distinction; the suites check a handful of unterminated scripts.",
  ["core/parser.go", "core/tokenizer.go"], [("Begin/Next/End/CloseStream", "core/parser.go"), ("ParseStream", "core/parser.go")],
  "Self-composition: batch and incremental runs, with and without positions, whole source and prefix, on the same symbolic source.",
  [H("hcore", "ParserIncremental", "all N-character sources over 15 special and plain characters, 7 earlier sources left in any state", {"N": 3}, {"N": 4}, reach=["end"]),
   H("hcore", "ParserCompleteness", "all N-character sources and M-character continuations (sources not ending in a character the tokenizer may still merge with the continuation)", {"N": 3, "M": 2}, {"N": 4, "M": 2}, reach=["final", "undecided"]),
   H("hcore", "ParserPositionsNeutral", "all N-character sources", {"N": 4}, {"N": 5}, reach=["end"]),
   H("hcore", "ParserIndependentTrees", "all pairs of N-character sources", {"N": 2}, {"N": 3}, reach=["end"])],
  outside="Token-at-a-time feeding of an unfinished stream: the parser looks one token ahead, so a stream must hold the next token (as ParseStream's does).")

P("C06", "Words evaluate to what their syntax denotes",
  "A word made of literals, strings, blocks, tuples, expressions, substitutions and selectors in any order is either rejected as invalid or evaluates to the value its structure denotes, resolving variables, distributing over tuples, applying selectors left to right and expanding tuples in place. Undefined names, unselectable values and invalid words are error results, never crashes.",
  ["inputs", "programs"], "every sequence of morphemes and every environment",
  "Words combine kinds, substitution depth, expansion and selector chains freely; the suites evaluate a fixed list of them.",
  ["core/compiler.go", "core/syntax.go", "core/selectors.go", "core/values.go"], [("SyntaxChecker.CheckWord", "core/syntax.go"), ("Compiler.emitWord and Executor.ExecuteUntil", "core/compiler.go")],
  "Differential: an independent evaluator over the morpheme sequence (harness/hcore/eval.go) against the compiled program, in an environment of variables holding strings, tuples, lists, dictionaries and values that record every selector applied.",
  [H("hcore", "WordEvaluation", "all words of up to K morphemes of KINDS kinds over NAMES names", {"K": 3}, {"K": 4, "KINDS": 7}, reach=["value", "error"]),
   H("hcore", "WordPlaces", "all words of up to K morphemes over NAMES names, in 13 places", {"K": 2}, {"K": 3, "NAMES": 1}, tsecs=300, reach=["value", "error"]),
   H("hcore", "SubstitutionLevels", "up to N levels of substitution of 4 kinds of source in 4 places", {"N": 8}, {"N": 16}, reach=["value", "error"])],
  outside="Longer words; environments other than the harness's.")

P("C07", "Displayed values read back as the same value",
  "The display form of any string, of any tuple of strings and of any qualified value whose parts are displayable is Helena source that parses and evaluates to that same value. The display form of any boolean, integer or real is one word whose text reads back as that same value.",
  ["inputs"], "every string content and every nesting",
  "Quoting decisions depend on every character and its neighbours; the suites display a few strings.",
  ["core/display.go", "core/values.go"], [("DisplayLiteralOrString, DisplayLiteralOrBlock, DisplayList", "core/display.go"), ("Display methods", "core/values.go")],
  "Round-trip: display a value made of symbolic strings, then tokenize, parse and evaluate the text with the real code and compare structurally.",
  [H("hcore", "DisplayString", "strings of up to N arbitrary bytes", {"N": 3}, {"N": 4}, reach=["end"]),
   H("hcore", "DisplayTuple", "tuples of strings of up to N arbitrary bytes", {"N": 2}, {"N": 3}, reach=["end"]),
   H("hcore", "DisplayQualified", "qualified values whose source and selectors are strings of up to N arbitrary bytes", {"N": 2}, {"N": 3}, reach=["end"]),
   H("hcore", "DisplayNumber", "booleans, integers within N of 5 bases, 23 doubles of every magnitude and number of digits and small multiples of 7 scales", {"N": 9}, {"N": 30}, secs=120, tsecs=300, reach=["end"])],
  outside="Doubles outside the list (the conversion to text of a symbolic double is out of reach); values without a source form (commands, custom values), which display as an undisplayable mark.")

P("C08", "Text, integer and boolean conversions are exact",
  "Exactly the decimal texts of 64-bit integers convert to integers, to the value they denote, and every integer's text reads back as it; only true and false convert to booleans. Which kinds of values have a text, and the conversion of every kind to every scalar, are fixed; all other conversions are error results.",
  ["inputs"], "every string, every 64-bit integer, every kind of value",
  "Range ends and malformed numerals are a measure-zero part of the input space.",
  ["core/values.go"], [("ValueToInteger, StringIsInteger, ValueToBoolean, ValueToString", "core/values.go")],
  "strconv is executed symbolically together with the code; the oracle is an independent numeral reader.",
  [H("hcore", "IntegerStrings", "all strings of up to N arbitrary bytes", {"N": 3}, {"N": 5}, reach=["accepted", "rejected"]),
   H("hcore", "IntegerBoundary", "all numerals sharing the leading 19-K digits of 2^63-1, with every sign form and up to K+1 more digits", {"K": 3}, {"K": 5}, reach=["accepted", "rejected"]),
   H("hcore", "IntegerRoundTrip", "all integers in -R..R, and the neighbours of every power of ten and of the range ends", {"R": 999}, {"R": 9999}, reach=["end"]),
   H("hcore", "BooleanStrings", "all strings of up to N arbitrary bytes", {"N": 6}, {"N": 8}, reach=["accepted", "rejected"]),
   H("hcore", "KindConversions", "one value of each of 14 kinds", reach=["end"])],
  outside="Real number text (floating point), integers between the sampled ranges for the round trip.")

P("C09", "Indexing never leaves the value",
  "Indexing a list or string with any 64-bit integer or any text yields the element at that position when it exists, the default when one is given, and an error otherwise; indexed characters are the bytes of the string.",
  ["inputs"], "every index and every size",
  "Index extremes and non-integer indexes must be handled for every value; tests use small in-range ones.",
  ["core/values.go", "core/selectors.go"], [("ListAtOrDefault, StringAtOrDefault", "core/values.go"), ("IndexedSelector.Apply", "core/selectors.go")],
  "The index is a symbolic 64-bit integer (or a symbolic string) and the string's bytes are symbolic.",
  [H("hcore", "ListIndexing", "lists of up to N elements, any int64 index", {"N": 4}, {"N": 8}, reach=["end"]),
   H("hcore", "StringIndexing", "strings of up to N arbitrary bytes, any int64 index", {"N": 4}, {"N": 8}, reach=["end"]),
   H("hd", "Elements", "lists, tuples and strings of up to N elements, any int64 index, texts of up to TEXT characters, values of other kinds, with and without defaults", {"N": 3, "TEXT": 2}, {"N": 4, "TEXT": 3}, reach=["invalid", "element", "default", "out of range"]),
   H("hcore", "TextIndexing", "indexes given as any string of up to N bytes", {"N": 2}, {"N": 3}, reach=["invalid", "element", "out of range"])])

P("C10", "Selectors distribute over tuples and compose left to right",
  "Applying a chain of indexed, keyed and generic selectors to any nest of tuples selects element by element, left to right, and succeeds exactly when every element has the selected item. Building the same chain on a qualified word and applying it later selects the same items; malformed selectors are errors.",
  ["inputs"], "every nest of tuples and every selector chain",
  "Nesting and chain length are unbounded; the suites cover single selectors.",
  ["core/selectors.go", "core/values.go"], [("ApplySelector", "core/selectors.go"), ("TupleValue.Select*, QualifiedValue.Select*", "core/values.go")],
  "Differential against a structural definition of selection over arbitrary nests of tuples with list, dictionary, string and recording leaves.",
  [H("hcore", "SelectorLaws", "tuple nests of depth D with up to 2 elements per level, chains of up to N selectors", {"D": 1, "N": 2}, {"D": 2, "N": 2}, reach=["selected", "failed"]),
   H("hcore", "SelectorCreation", "selectors of up to 2 keys of 14 kinds applied to values of 14 kinds", reach=["end"])])
