From 9c941fa66bc0d45d53b435d63b3d8d6aeac830df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 01/37] fix: unrecognized escapes of non-ASCII characters keep
 their bytes

---
 src/core/tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tokenizer.go b/src/core/tokenizer.go
index 4e0c325..73b3817 100644
--- a/src/core/tokenizer.go
+++ b/src/core/tokenizer.go
@@ -165,7 +165,7 @@ func (tokenizer *Tokenizer) Next() *Token {
 					emittedToken = tokenizer.addToken(TokenType_CONTINUATION, position, &literal)
 					break
 				}
-				escape := string(e) // Default value for unrecognized sequences
+				escape := string([]byte{e}) // Default value for unrecognized sequences
 				if isEscape(e) {
 					escape = string(getEscape(e))
 				} else if isOctal(e) {
-- 
2.43.0


From 3da2c9792a36f8d09e96be68d67ca59992ba3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 02/37] fix: report unmatched delimiters before a trailing line
 comment

---
 src/core/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 7a52698..c695d80 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -516,6 +516,7 @@ func (parser *Parser) CloseStream() ParseResult {
 			return PARSE_ERROR("unmatched tagged string delimiter")
 		case *lineCommentNode:
 			parser.closeLineComment()
+			return parser.CloseStream()
 		case *blockCommentNode:
 			return PARSE_ERROR("unmatched block comment delimiter")
 		default:
-- 
2.43.0


From c5963d2783c5a364be3c46784c731cfbfd2c21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 03/37] fix: unterminated tagged strings and block comments are
 parse errors at end of stream

---
 src/core/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index c695d80..388cc7e 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -975,6 +975,9 @@ func (parser *Parser) closeTaggedString(literal string) bool {
 	if literal != node.tag {
 		return false
 	}
+	if parser.stream.End() {
+		return false
+	}
 	next := parser.stream.Current()
 	if next.Type != TokenType_STRING_DELIMITER {
 		return false
@@ -1072,6 +1075,9 @@ func (parser *Parser) openBlockComment(token Token, delimiter string, nested boo
 // Attempt to close the block comment parsing context, report whether the context was closed
 func (parser *Parser) closeBlockComment() bool {
 	node := parser.context.node.(*blockCommentNode)
+	if parser.stream.End() {
+		return false
+	}
 	token := parser.stream.Current()
 	if token.Type != TokenType_COMMENT {
 		return false
-- 
2.43.0


From cbbbc4c34488a89c8179ac0b3848dd7eb31f1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 04/37] fix: stale substitutions before a closing delimiter are
 literals

---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 388cc7e..b50e232 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -631,6 +631,7 @@ func (parser *Parser) openTuple(token Token) {
 
 // Close the tuple parsing context
 func (parser *Parser) closeTuple() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -663,6 +664,7 @@ func (parser *Parser) openBlock(token Token) {
 
 // Close the block parsing context
 func (parser *Parser) closeBlock() {
+	parser.endSubstitution()
 	node := (parser.context.node).(*blockNode)
 	range_ := parser.stream.Range(node.start, parser.stream.CurrentIndex()-1)
 	value := ""
@@ -700,6 +702,7 @@ func (parser *Parser) openExpression(token Token) {
 
 // Close the expression parsing context
 func (parser *Parser) closeExpression() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
-- 
2.43.0


From c24b4624fba4b96bc107e7fa1b839f72de9c43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:50 +0000
Subject: [PATCH 05/37] fix: invalid words are evaluation errors and no longer
 crash the host

---
 src/core/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index a9a5a89..7fdee9b 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -24,6 +24,7 @@ const (
 	OpCode_PUSH_RESULT
 	OpCode_JOIN_STRINGS
 	OpCode_MAKE_TUPLE
+	OpCode_INVALID_WORD
 )
 
 //
@@ -201,7 +202,7 @@ func (compiler Compiler) emitWord(program *Program, word Word) {
 		compiler.emitQualified(program, word)
 	case WordType_IGNORED:
 	case WordType_INVALID:
-		panic(InvalidWordStructureError)
+		program.PushOpCode(OpCode_INVALID_WORD, word.Position)
 	default:
 		panic("CANTHAPPEN")
 	}
@@ -923,6 +924,9 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 				state.Push(NewTupleValue(append([]Value{}, values...)))
 			}
 
+		case OpCode_INVALID_WORD:
+			return ERROR(InvalidWordStructureError.message)
+
 		default:
 			panic("CANTHAPPEN")
 		}
-- 
2.43.0


From c0468c08f1c3fd366835626d4640941b23752d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 06/37] fix: display a lone backslash as a quoted string

---
 src/core/display.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/display.go b/src/core/display.go
index 9b62e00..1cf601d 100644
--- a/src/core/display.go
+++ b/src/core/display.go
@@ -65,7 +65,7 @@ func DisplayLiteralOrString(str string) string {
 	if len(tokens) == 0 {
 		return `""`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && str != `\` {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"({[]`)
@@ -82,7 +82,7 @@ func DisplayLiteralOrBlock(str string) string {
 	if len(tokens) == 0 {
 		return `{}`
 	}
-	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT {
+	if len(tokens) == 1 && tokens[0].Type == TokenType_TEXT && str != `\` {
 		return tokens[0].Literal
 	}
 	re := regexp.MustCompile(`[\\$"#(){}[\]]`)
-- 
2.43.0


From b15e22c0398d5b0ef9024236c19e41d8a73b822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:24 +0000
Subject: [PATCH 07/37] fix: string indexing returns the selected byte
 unaltered

---
 src/core/values.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/values.go b/src/core/values.go
index 22f9fa2..36b6e07 100644
--- a/src/core/values.go
+++ b/src/core/values.go
@@ -394,7 +394,7 @@ func StringAtOrDefault(value string, index Value, def Value) Result {
 			return ERROR(`index out of range "` + fmt.Sprint(i) + `"`)
 		}
 	}
-	return OK(StringValue{string(value[i])})
+	return OK(StringValue{value[i : i+1]})
 }
 
 func (value StringValue) Display(_ DisplayFunction) string {
-- 
2.43.0


From c3882e12b35670f76bf9c125d47f0cc12c067fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 08/37] fix: range, remove and replace accept any last index

---
 src/helena_dialect/lists.go   | 6 +++---
 src/helena_dialect/strings.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..b4ddf9d 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -108,7 +108,7 @@ func (listRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.LIST([]core.Value{}))
 		}
-		return core.OK(core.LIST(values[first:min(last+1, length)]))
+		return core.OK(core.LIST(values[first : min(last, length-1)+1]))
 	}
 }
 func (listRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -164,7 +164,7 @@ func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	newValues := make([]core.Value, 0, len(head)+len(tail))
 	newValues = append(append(newValues, head...), tail...)
 	return core.OK(core.LIST(newValues))
@@ -234,7 +234,7 @@ func (listReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := values[0:min(first, length)]
-	tail := values[min(max(first, last+1), length):]
+	tail := values[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := ValueToArray(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..82cdb5b 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -105,7 +105,7 @@ func (stringRangeCmd) Execute(args []core.Value, _ any) core.Result {
 		if first >= length || last < first || last < 0 {
 			return core.OK(core.STR(""))
 		}
-		return core.OK(core.STR(str[first:min(last+1, length)]))
+		return core.OK(core.STR(str[first : min(last, length-1)+1]))
 	}
 }
 func (stringRangeCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -161,7 +161,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
@@ -227,7 +227,7 @@ func (stringReplaceCmd) Execute(args []core.Value, _ any) core.Result {
 		return lastResult
 	}
 	head := str[0:min(first, length)]
-	tail := str[min(max(first, last+1), length):]
+	tail := str[min(max(first, min(last, length-1)+1), length):]
 	result2, insert := core.ValueToString(args[4])
 	if result2.Code != core.ResultCode_OK {
 		return result2
-- 
2.43.0


From eb89be7a62209a7ff1a471cf867b8ded81f9f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 09/37] fix: list and string remove take exactly a first and a
 last index

---
 src/helena_dialect/lists.go   | 2 +-
 src/helena_dialect/strings.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index b4ddf9d..85b94ce 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -146,7 +146,7 @@ const LIST_REMOVE_SIGNATURE = "list value remove first last"
 type listRemoveCmd struct{}
 
 func (listRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(LIST_REMOVE_SIGNATURE)
 	}
 	result, values := ValueToArray(args[1])
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 82cdb5b..4d3b7b6 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -143,7 +143,7 @@ const STRING_REMOVE_SIGNATURE = "string value remove first last"
 type stringRemoveCmd struct{}
 
 func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
-	if len(args) != 4 && len(args) != 5 {
+	if len(args) != 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	result, str := core.ValueToString(args[1])
-- 
2.43.0


From d7e6cc7ddd66229e25315a210f778aa496c56377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 10/37] fix: comparing composite values no longer crashes the
 host

---
 src/helena_dialect/numbers.go |  2 +-
 src/helena_dialect/strings.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/numbers.go b/src/helena_dialect/numbers.go
index 7b2b8ae..092f450 100644
--- a/src/helena_dialect/numbers.go
+++ b/src/helena_dialect/numbers.go
@@ -133,7 +133,7 @@ func binaryOp(
 		if len(args) != 3 {
 			return OPERATOR_ARITY_ERROR(operator)
 		}
-		if args[0] == args[2] {
+		if isSameValue(args[0], args[2]) {
 			return core.OK(core.BOOL(whenEqual))
 		}
 		result, operand2 := core.ValueToFloat(args[2])
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 4d3b7b6..cefdf49 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -250,6 +250,20 @@ func STRING_OPERATOR_ARITY_ERROR(operator string) core.Result {
 	return core.ERROR(`wrong # operands: should be "` + STRING_OPERATOR_SIGNATURE(operator) + `"`)
 }
 
+// Report whether two values are identical. Composite values are not comparable
+// by identity.
+func isSameValue(value1 core.Value, value2 core.Value) bool {
+	switch value1.Type() {
+	case core.ValueType_LIST,
+		core.ValueType_DICTIONARY,
+		core.ValueType_TUPLE,
+		core.ValueType_SCRIPT,
+		core.ValueType_QUALIFIED:
+		return false
+	}
+	return value1 == value2
+}
+
 type binaryCmd struct {
 	name      string
 	whenEqual bool
@@ -260,7 +274,7 @@ func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
+	if isSameValue(args[1], args[2]) {
 		return core.OK(core.BOOL(cmd.whenEqual))
 	}
 	result1, operand1 := core.ValueToString(args[1])
-- 
2.43.0


From e7746c30a968e0f749f7971878acc64f9407723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:05 +0000
Subject: [PATCH 11/37] fix: argument specifiers with an empty or invalid name
 are errors

---
 src/helena_dialect/arguments.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 44d6ea5..f7e102b 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -217,20 +217,23 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 				{
 					result1, nameOrGuard := core.ValueToString(specs[0])
 					result2, nameOrDefault := core.ValueToString(specs[1])
-					if result1.Code != core.ResultCode_OK && result2.Code != core.ResultCode_OK {
-						return core.ERROR("invalid argument name"), Argument{}
-					}
-					if (nameOrGuard == "" || nameOrGuard == "?") &&
-						(nameOrDefault == "" || nameOrDefault == "?") {
-						return core.ERROR("empty argument name"), Argument{}
-					}
-					if result1.Code == core.ResultCode_OK && nameOrGuard[0] == '?' {
+					if result1.Code == core.ResultCode_OK && len(nameOrGuard) > 0 && nameOrGuard[0] == '?' {
+						if nameOrGuard == "?" {
+							return core.ERROR("empty argument name"), Argument{}
+						}
 						return core.OK(core.NIL), Argument{
 							Name:    nameOrGuard[1:],
 							Type:    ArgumentType_OPTIONAL,
 							Default: specs[1],
 						}
-					} else if nameOrDefault[0] == '?' {
+					}
+					if result2.Code != core.ResultCode_OK {
+						return core.ERROR("invalid argument name"), Argument{}
+					}
+					if nameOrDefault == "" || nameOrDefault == "?" {
+						return core.ERROR("empty argument name"), Argument{}
+					}
+					if nameOrDefault[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:  nameOrDefault[1:],
 							Type:  ArgumentType_OPTIONAL,
-- 
2.43.0


From 89cc7d80c4ecd94ab7d30a68d40666e4de87ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 12/37] fix: option arguments have distinct names and cannot be
 remainders

---
 src/helena_dialect/arguments.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index f7e102b..177b2eb 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -93,6 +93,15 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 					`argument for flag "` + OptionName(lastOption.Names) + `" must be optional`,
 				), nil
 			}
+			if arg.Type == ArgumentType_REMAINDER {
+				return core.ERROR(
+					`argument for option "` + OptionName(lastOption.Names) + `" cannot be remainder`,
+				), nil
+			}
+			if _, ok := argnames[arg.Name]; ok {
+				return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
+			}
+			argnames[arg.Name] = struct{}{}
 			arg.Option = lastOption
 			args = append(args, arg)
 			lastOption = nil
-- 
2.43.0


From dce930fc085db47926fe35f69c73622b0146c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:24 +0000
Subject: [PATCH 13/37] fix: only one remainder argument is allowed in an
 argspec

---
 src/helena_dialect/arguments.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 177b2eb..d469b54 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -114,7 +114,9 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 		if _, ok := argnames[arg.Name]; ok {
 			return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
 		}
-		hasRemainder = arg.Type == ArgumentType_REMAINDER
+		if arg.Type == ArgumentType_REMAINDER {
+			hasRemainder = true
+		}
 		argnames[arg.Name] = struct{}{}
 		args = append(args, arg)
 	}
-- 
2.43.0


From 342f3f02115380e77556d4449848ae7c3061e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 14/37] fix: an option with no value is an error

---
 src/helena_dialect/argspecs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 5cd7a8b..ffcc6ce 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -318,6 +318,11 @@ func (argspec ArgspecValue) findSlots(
 				slots[optionSlot] = i
 				i++
 			case OptionType_OPTION:
+				if i+1 >= len(args) {
+					return core.ERROR(
+						`missing value for option "` + OptionName(arg.Option.Names) + `"`,
+					), findSlotsResult{}
+				}
 				switch arg.Type {
 				case ArgumentType_REQUIRED:
 					nbRequired -= 2
-- 
2.43.0


From b84caf69bbf823f15d963c1f98ca1d673d24dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:45 +0000
Subject: [PATCH 15/37] fix: remainder arguments after options keep their
 values

---
 src/helena_dialect/argspecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index ffcc6ce..e221283 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -193,7 +193,7 @@ func (argspec ArgspecValue) setSlotValues(
 					value = core.TUPLE([]core.Value{})
 				} else {
 					value = core.TUPLE(
-						args[slots[slot] : slots[slot]+int(remainders)],
+						append([]core.Value{}, args[slots[slot]:slots[slot]+int(remainders)]...),
 					)
 				}
 			}
-- 
2.43.0


From c8de23a7fea1a2b8cb6a725bed0a0eb1a019f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:10 +0000
Subject: [PATCH 16/37] fix: default scripts of arguments may use any command

---
 src/helena_dialect/argspecs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index e221283..0578eb6 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -170,7 +170,7 @@ func (argspec ArgspecValue) setSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
@@ -381,7 +381,7 @@ func (argspec ArgspecValue) setPositionalSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
-- 
2.43.0


From f91109ca12273f84ef4a8b572f9ee9c0ddb0e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:20 +0000
Subject: [PATCH 17/37] fix: setting the variables of an argspec is all or
 nothing

---
 src/helena_dialect/core.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index b0361eb..0def2da 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -493,15 +493,27 @@ func (scope *Scope) SetNamedVariable(name string, value core.Value) core.Result
 	return core.OK(value)
 }
 func (scope *Scope) SetNamedVariables(slots map[string]uint, values []core.Value) core.Result {
+	// First pass for error checking, in slot order
+	names := make([]string, len(values))
 	for name, slot := range slots {
+		names[slot] = name
+	}
+	for slot, name := range names {
 		if values[slot] == nil {
 			continue
 		}
-		result := scope.SetNamedVariable(name, values[slot])
+		result := scope.checkNamedVariable(name)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
 	}
+	// Second pass for actual setting
+	for slot, name := range names {
+		if values[slot] == nil {
+			continue
+		}
+		scope.Context.Variables[name] = values[slot]
+	}
 	return core.OK(core.NIL)
 }
 func (scope *Scope) DestructureVariable(variable core.Value, value core.Value, check bool) core.Result {
-- 
2.43.0


From 8500ebb1f9fbebbeb10a6f767d78ed1bce593a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:52 +0000
Subject: [PATCH 18/37] fix: catch with no handler gives the result of any body

---
 src/helena_dialect/controls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..1759852 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -606,7 +606,7 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From 96b9d23ddaf54dac4fa0a858c806d459a99bad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:01 +0000
Subject: [PATCH 19/37] fix: resuming an uncaught yield after catch no longer
 crashes the host

---
 src/helena_dialect/controls.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1759852..1a63175 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -622,7 +622,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Body was ended by an uncaught yield
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
@@ -659,6 +663,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 				i := cmd.findHandlerIndex(state.bodyResult.Code, state.args)
 				if i >= len(state.args)-1 {
 					state.result = state.bodyResult
+					if state.result.Code == core.ResultCode_YIELD {
+						// End body, its state cannot be resumed here
+						state.result = core.YIELD(state.bodyResult.Value)
+					}
 					state.step = catchStateStep_beforeFinally
 					continue
 				}
-- 
2.43.0


From 8ef7560833e3d6a7941fbd3cfcf217509e53f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:26 +0000
Subject: [PATCH 20/37] fix: catch body and handlers must be scripts

---
 src/helena_dialect/controls.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1a63175..9c7b72c 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -600,11 +600,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 	if checkResult.Code != core.ResultCode_OK {
 		return checkResult
 	}
+	body := args[1]
+	if body.Type() != core.ValueType_SCRIPT {
+		return core.ERROR("body must be a script")
+	}
 	if len(args) == 2 {
-		body := args[1]
-		if body.Type() != core.ValueType_SCRIPT {
-			return core.ERROR("body must be a script")
-		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
 		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
@@ -644,8 +644,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -683,14 +682,14 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -725,7 +724,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
@@ -821,6 +820,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 					if result, _ := core.ValueToString(args[i+1]); result.Code != core.ResultCode_OK {
 						return core.ERROR(`invalid ` + keyword + ` handler parameter name`)
 					}
+					if args[i+2].Type() != core.ValueType_SCRIPT {
+						return core.ERROR(`invalid ` + keyword + ` handler body`)
+					}
 					i += 3
 				}
 			}
@@ -831,6 +833,9 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 			case 1:
 				return core.ERROR(`wrong #args: missing ` + keyword + ` handler body`)
 			default:
+				if args[i+1].Type() != core.ValueType_SCRIPT {
+					return core.ERROR(`invalid ` + keyword + ` handler body`)
+				}
 				i += 2
 			}
 		default:
-- 
2.43.0


From 6108cb626bba800d9ea3ddbd2695c6bdf44f1dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 21/37] fix: a resumed yield is not yielded again by intrinsic
 commands

---
 src/core/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index 7fdee9b..ef20f0c 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -782,6 +782,9 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			if result.Code != ResultCode_OK {
 				return result
 			}
+		} else {
+			// Value yielded back is the result of the command
+			state.SetResult(OK(state.Result.Value))
 		}
 	}
 	for state.PC < stop {
-- 
2.43.0


From 69a7924519e9165c2efba071c025f937488786f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 22/37] fix: a pipe is not ignored after a bare pipe sentence

---
 src/core/compiler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index ef20f0c..6f0a3a1 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -873,6 +873,7 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 		case OpCode_EVALUATE_SENTENCE:
 			{
 				args := state.LastFrame
+				shifted := false
 				for len(args) > 0 {
 					// Loop for successive command resolution
 					cmdname := args[0]
@@ -880,15 +881,15 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 					if result.Code != ResultCode_OK {
 						return result
 					}
-					lastCommand := state.Command
 					state.Command = command
 					if command == LAST_RESULT {
 						// Intrinsic command: return last result = no-op
 					} else if command == SHIFT_LAST_FRAME_RESULT {
 						// // Intrinsic command: swap last frame result with argument 1
-						if len(args) < 2 || lastCommand == command {
+						if len(args) < 2 || shifted {
 							// No-op
 						} else {
+							shifted = true
 							args[0] = args[1]
 							args[1] = state.lastFrameResult().Value
 							continue
-- 
2.43.0


From 91b48cfe7591153a316d83103182355672e01446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 23/37] fix: a coroutine cannot resume itself while it is
 running

---
 src/helena_dialect/coroutines.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 8f6aa2e..f058f89 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -15,6 +15,7 @@ type coroutineCommand struct {
 	scope   *Scope
 	body    core.ScriptValue
 	state   coroutineState
+	running bool
 	process *Process
 }
 
@@ -54,6 +55,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> wait")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if cmd.state == coroutineState_inactive {
 			cmd.state = coroutineState_active
 			program := cmd.scope.CompileScriptValue(cmd.body)
@@ -83,6 +87,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if cmd.state == coroutineState_done {
 			return core.ERROR("coroutine is done")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if len(args) == 3 {
 			cmd.process.YieldBack(args[2])
 		}
@@ -94,7 +101,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 }
 
 func (cmd *coroutineCommand) run() core.Result {
+	cmd.running = true
 	result := cmd.process.Run()
+	cmd.running = false
 	switch result.Code {
 	case core.ResultCode_OK,
 		core.ResultCode_RETURN:
-- 
2.43.0


From b68f1a87a4212484a86d860ef84716fff53cb9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 24/37] fix: a coroutine that failed is done and can no longer
 be resumed

---
 src/helena_dialect/coroutines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index f058f89..4bc495d 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -112,8 +112,10 @@ func (cmd *coroutineCommand) run() core.Result {
 	case core.ResultCode_YIELD:
 		return core.OK(result.Value)
 	case core.ResultCode_ERROR:
+		cmd.state = coroutineState_done
 		return result
 	default:
+		cmd.state = coroutineState_done
 		return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
 	}
 }
-- 
2.43.0


From 46153cc745bc2d23f2f5fd2d5c6f250e980e0215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 25/37] fix: append, remove and merge with no value are errors

---
 src/helena_dialect/dicts.go   | 6 ++++++
 src/helena_dialect/lists.go   | 3 +++
 src/helena_dialect/scripts.go | 3 +++
 src/helena_dialect/strings.go | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index 38e6be4..fb3bfe1 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -165,6 +165,9 @@ const DICT_REMOVE_SIGNATURE = "dict value remove ?key ...?"
 type dictRemoveCmd struct{}
 
 func (dictRemoveCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_REMOVE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
@@ -191,6 +194,9 @@ const DICT_MERGE_SIGNATURE = "dict value merge ?dict ...?"
 type dictMergeCmd struct{}
 
 func (dictMergeCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(DICT_MERGE_SIGNATURE)
+	}
 	if len(args) == 2 {
 		return valueToDictionaryValue(args[1])
 	}
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 85b94ce..128cf60 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -123,6 +123,9 @@ const LIST_APPEND_SIGNATURE = "list value append ?list ...?"
 type listAppendCmd struct{}
 
 func (listAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(LIST_APPEND_SIGNATURE)
+	}
 	result, values := ValueToArray(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/scripts.go b/src/helena_dialect/scripts.go
index 5293c32..2e7d60c 100644
--- a/src/helena_dialect/scripts.go
+++ b/src/helena_dialect/scripts.go
@@ -82,6 +82,9 @@ const SCRIPT_APPEND_SIGNATURE = "script value append ?script ...?"
 type scriptAppendCmd struct{}
 
 func (scriptAppendCmd) Execute(args []core.Value, context any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(SCRIPT_APPEND_SIGNATURE)
+	}
 	result := valueToScript(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index cefdf49..2e7a65b 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -120,6 +120,9 @@ const STRING_APPEND_SIGNATURE = "string value append ?string ...?"
 type stringAppendCmd struct{}
 
 func (stringAppendCmd) Execute(args []core.Value, _ any) core.Result {
+	if len(args) < 2 {
+		return ARITY_ERROR(STRING_APPEND_SIGNATURE)
+	}
 	result, str := core.ValueToString(args[1])
 	if result.Code != core.ResultCode_OK {
 		return result
-- 
2.43.0


From 2a5873f04b6f772d6a78c3720e661ac2128e2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 26/37] fix: comparing custom values as strings no longer
 crashes the host

---
 src/helena_dialect/strings.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index 2e7a65b..c6cf8db 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -1,6 +1,9 @@
 package helena_dialect
 
-import "helena/core"
+import (
+	"helena/core"
+	"reflect"
+)
 
 type stringCommand struct {
 	scope    *Scope
@@ -263,6 +266,8 @@ func isSameValue(value1 core.Value, value2 core.Value) bool {
 		core.ValueType_SCRIPT,
 		core.ValueType_QUALIFIED:
 		return false
+	case core.ValueType_CUSTOM:
+		return reflect.ValueOf(value1).Comparable() && value1 == value2
 	}
 	return value1 == value2
 }
-- 
2.43.0


From 465724b0d2f22c4a55e373b8d7fcb112ce779790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 27/37] fix: help on subcommands with fewer arguments than
 their ensemble no longer crashes

---
 src/helena_dialect/arguments.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index d469b54..f55c752 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -313,6 +313,9 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 
 func BuildUsage(args []Argument, skip uint) string {
 	result := ""
+	if skip > uint(len(args)) {
+		skip = uint(len(args))
+	}
 	for i, arg := range args[skip:] {
 		if i != 0 {
 			result += " "
-- 
2.43.0


From 18b6148202e45d62525a69f9e8ed620fab36b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 28/37] fix: help accepts what foreach and string remove accept

---
 src/helena_dialect/dicts.go   | 2 +-
 src/helena_dialect/lists.go   | 2 +-
 src/helena_dialect/strings.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/dicts.go b/src/helena_dialect/dicts.go
index fb3bfe1..3e3de94 100644
--- a/src/helena_dialect/dicts.go
+++ b/src/helena_dialect/dicts.go
@@ -381,7 +381,7 @@ func (dictForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (dictForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(DICT_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(DICT_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index 128cf60..12cbb52 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -412,7 +412,7 @@ func (listForeachCmd) Execute(args []core.Value, context any) core.Result {
 	return next()
 }
 func (listForeachCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 4 {
+	if len(args) > 5 {
 		return ARITY_ERROR(LIST_FOREACH_SIGNATURE)
 	}
 	return core.OK(core.STR(LIST_FOREACH_SIGNATURE))
diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index c6cf8db..1efa5d3 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -171,7 +171,7 @@ func (stringRemoveCmd) Execute(args []core.Value, _ any) core.Result {
 	return core.OK(core.STR(head + tail))
 }
 func (stringRemoveCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
-	if len(args) > 5 {
+	if len(args) > 4 {
 		return ARITY_ERROR(STRING_REMOVE_SIGNATURE)
 	}
 	return core.OK(core.STR(STRING_REMOVE_SIGNATURE))
-- 
2.43.0


From db5720c50b4949a1a28417186793078ca65928cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 29/37] fix: commands called through a scope keep their
 arguments in ensembles

---
 src/helena_dialect/scopes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/scopes.go b/src/helena_dialect/scopes.go
index 41a74ed..def66f1 100644
--- a/src/helena_dialect/scopes.go
+++ b/src/helena_dialect/scopes.go
@@ -71,7 +71,9 @@ func (scope *scopeCommand) Execute(args []core.Value, _ any) core.Result {
 		if scope.scope.ResolveLocalCommand(command) == nil {
 			return core.ERROR(`unknown command "` + command + `"`)
 		}
-		program := scope.scope.CompileArgs(args[2:])
+		// The program outlives this call, so it must not share its arguments
+		cmdline := append([]core.Value{}, args[2:]...)
+		program := scope.scope.CompileArgs(cmdline)
 		return CreateContinuationValue(scope.scope, program)
 
 	default:
-- 
2.43.0


From cc93e940fa46e0e4c1bcf2874f40e05628e4ac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:02 +0000
Subject: [PATCH 30/37] fix: errors about the result of an empty script no
 longer crash the host

---
 src/helena_dialect/core.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 0def2da..ea040dd 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -165,9 +165,11 @@ func (process *Process) Run() core.Result {
 				var frame = append([]core.Value{}, context.state.LastFrame...)
 				if context.program.OpCodePositions != nil {
 					level = core.ErrorStackLevel{
-						Frame:    &frame,
-						Source:   context.program.Source,
-						Position: context.program.OpCodePositions[context.state.PC-1],
+						Frame:  &frame,
+						Source: context.program.Source,
+					}
+					if context.state.PC > 0 {
+						level.Position = context.program.OpCodePositions[context.state.PC-1]
 					}
 				} else {
 					level = core.ErrorStackLevel{
-- 
2.43.0


From e78732d7f43ab37a0143413db91d92558a147d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 31/37] fix: comparing blocks and tuples no longer crashes in
 picol

---
 src/picol_dialect/picol_dialect.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..c78c1e4 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -184,13 +184,31 @@ func compareValuesCmd(
 	})
 }
 
+// Values are compared as strings; tuples are compared element by element
+func equalValues(op1 core.Value, op2 core.Value) bool {
+	tuple1, ok1 := op1.(core.TupleValue)
+	tuple2, ok2 := op2.(core.TupleValue)
+	if ok1 && ok2 {
+		if len(tuple1.Values) != len(tuple2.Values) {
+			return false
+		}
+		for i := range tuple1.Values {
+			if !equalValues(tuple1.Values[i], tuple2.Values[i]) {
+				return false
+			}
+		}
+		return true
+	}
+	return asString(op1) == asString(op2)
+}
+
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return equalValues(op1, op2) },
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return !equalValues(op1, op2) },
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From d5f2b5481057fa3ef5aaa103efc0d53ed2b678a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:47 +0000
Subject: [PATCH 32/37] fix: picol commands given something else than a script
 fail and no longer crash

---
 src/picol_dialect/picol_dialect.go | 36 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index c78c1e4..2b4ce48 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -66,6 +66,10 @@ func ARITY_ERROR(signature string) core.Result {
 	return core.ERROR(`wrong # args: should be "` + signature + `"`)
 }
 
+func INVALID_SCRIPT_ERROR() core.Result {
+	return core.ERROR("value must be a script")
+}
+
 type simpleCommand struct {
 	fn func(args []core.Value, context any) core.Result
 }
@@ -318,13 +322,17 @@ var ifCmd = makeCommand(
 		if testResult.Code != core.ResultCode_OK {
 			return testResult
 		}
-		var script core.ScriptValue
+		var body core.Value
 		if testResult.Value.(core.BooleanValue).Value {
-			script = args[2].(core.ScriptValue)
+			body = args[2]
 		} else if len(args) == 3 {
 			return EMPTY
 		} else {
-			script = args[4].(core.ScriptValue)
+			body = args[4]
+		}
+		script, ok := body.(core.ScriptValue)
+		if !ok {
+			return INVALID_SCRIPT_ERROR()
 		}
 		result := scope.Evaluator.EvaluateScript(script.Script)
 		if result.Code != core.ResultCode_OK {
@@ -343,10 +351,13 @@ var forCmd = makeCommand(
 		if len(args) != 5 {
 			return ARITY_ERROR("for start test next command")
 		}
-		start := args[1].(core.ScriptValue)
+		start, ok1 := args[1].(core.ScriptValue)
 		test := args[2]
-		next := args[3].(core.ScriptValue)
-		script := args[4].(core.ScriptValue)
+		next, ok3 := args[3].(core.ScriptValue)
+		script, ok4 := args[4].(core.ScriptValue)
+		if !ok1 || !ok3 || !ok4 {
+			return INVALID_SCRIPT_ERROR()
+		}
 		var result core.Result
 		result = scope.Evaluator.EvaluateScript(start.Script)
 		if result.Code != core.ResultCode_OK {
@@ -389,7 +400,10 @@ var whileCmd = makeCommand(
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-		script := args[2].(core.ScriptValue)
+		script, ok := args[2].(core.ScriptValue)
+		if !ok {
+			return INVALID_SCRIPT_ERROR()
+		}
 		var result core.Result
 		for {
 			result = evaluateCondition(test, scope)
@@ -637,12 +651,16 @@ var procCmd = makeCommand(
 		if len(args) != 4 {
 			return ARITY_ERROR("proc name args body")
 		}
-		name, _argspecs, body := args[1], args[2], args[3]
+		name, _argspecs := args[1], args[2]
+		body, ok := args[3].(core.ScriptValue)
+		if !ok {
+			return INVALID_SCRIPT_ERROR()
+		}
 		result, argspecs := valueToArgspecs(_argspecs)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
-		scope.Commands[asString(name)] = procCommand{argspecs, body.(core.ScriptValue)}
+		scope.Commands[asString(name)] = procCommand{argspecs, body}
 		return EMPTY
 	},
 )
-- 
2.43.0


From 9c36f7a9225bffcf0ba94ec98b756451ddb9e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 33/37] fix: picol procs with no value for their optional
 arguments and args no longer crash

---
 src/picol_dialect/picol_dialect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 2b4ce48..fec0c49 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -531,7 +531,11 @@ func (proc procCommand) Execute(args []core.Value, context any) core.Result {
 		argspec := proc.argspecs[p]
 		var value core.Value
 		if p == len(proc.argspecs)-1 && argspec.name == "args" {
-			value = core.TUPLE(append([]core.Value{}, args[a:]...))
+			rest := []core.Value{}
+			if a < len(args) {
+				rest = append(rest, args[a:]...)
+			}
+			value = core.TUPLE(rest)
 			a = len(args) - 1
 		} else if p < len(args)-1 {
 			value = args[a]
-- 
2.43.0


From 95d3b5c7761fa10a36f3db96f6ae2c0e5079d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 34/37] fix: picol while takes exactly a test and a script

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index fec0c49..8dd2eed 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -396,7 +396,7 @@ var forCmd = makeCommand(
 var whileCmd = makeCommand(
 	func(args []core.Value, context any) core.Result {
 		scope := context.(*PicolScope)
-		if len(args) != 3 && len(args) != 5 {
+		if len(args) != 3 {
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-- 
2.43.0


From 6491a99c6b8e35c0d061891d9bfd3766e029f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 35/37] fix: pooled states are no longer used after they are
 put back

---
 src/helena_dialect/controls.go | 25 ++++++++++++++++---------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 9c7b72c..9117361 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -356,11 +361,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -550,18 +556,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
-	whenCmdStatePool.Put(state)
+	scope := state.scope
 	var body core.Value
 	if state.i == len(state.cases)-1 {
 		body = state.cases[state.i]
 	} else {
 		body = state.cases[state.i+1]
 	}
+	whenCmdStatePool.Put(state)
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..4551d56 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -251,11 +251,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -300,11 +301,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = args
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From 6999c3dab7645481e4b75b13844e75f4c35fa7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 36/37] fix: commands that run bodies keep their arguments
 after a yield

---
 src/helena_dialect/controls.go | 6 ++++--
 src/helena_dialect/logic.go    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 9117361..3b115e7 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -339,7 +339,8 @@ func (cmd ifCmd) Execute(args []core.Value, context any) core.Result {
 		return checkResult
 	}
 	i := 0
-	return ifCmdTest(scope, args, i)
+	// Callers may reuse the args array after a yield
+	return ifCmdTest(scope, append([]core.Value{}, args...), i)
 }
 func (ifCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	return core.OK(core.STR(IF_SIGNATURE))
@@ -625,7 +626,8 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.OK(core.TUPLE([]core.Value{core.STR(core.RESULT_CODE_NAME(result))}))
 		}
 	}
-	return cmd.run(&catchState{step: catchStateStep_beforeBody, args: args}, scope)
+	// Callers may reuse the args array after a yield
+	return cmd.run(&catchState{step: catchStateStep_beforeBody, args: append([]core.Value{}, args...)}, scope)
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 4551d56..0725939 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -236,7 +236,8 @@ func (andCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) < 2 {
 		return ARITY_ERROR(AND_SIGNATURE)
 	}
-	return andCmdCondition(scope, args, 1)
+	// Callers may reuse the args array after a yield
+	return andCmdCondition(scope, append([]core.Value{}, args...), 1)
 }
 func (andCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	return core.OK(core.STR(AND_SIGNATURE))
@@ -286,7 +287,8 @@ func (orCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) < 2 {
 		return ARITY_ERROR(OR_SIGNATURE)
 	}
-	return orCmdCondition(scope, args, 1)
+	// Callers may reuse the args array after a yield
+	return orCmdCondition(scope, append([]core.Value{}, args...), 1)
 }
 func (orCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	return core.OK(core.STR(OR_SIGNATURE))
-- 
2.43.0


From 9b86e0ab76591b43ae1dbe93cbd0e632ae3322e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:09 +0000
Subject: [PATCH 37/37] fix: an option not followed by an argument is an error,
 also before another option

---
 src/helena_dialect/arguments.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index f55c752..60d5740 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -71,6 +71,9 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 			return result, nil
 		}
 		if option != nil {
+			if lastOption != nil {
+				return core.ERROR(`missing argument for option "` + OptionName(lastOption.Names) + `"`), nil
+			}
 			if hasRemainder {
 				return core.ERROR("cannot use remainder argument before options"), nil
 			}
-- 
2.43.0

