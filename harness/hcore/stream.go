package hcore

import (
	"helena/core"
	"helena/zzverif/sym"
)

// sameScript compares two syntax trees; positions are compared when pos is set.
func sameScript(a, b *core.Script, pos bool) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if len(a.Sentences) != len(b.Sentences) {
		return false
	}
	if pos && !samePos(a.Position, b.Position) {
		return false
	}
	for i, s := range a.Sentences {
		t := b.Sentences[i]
		if len(s.Words) != len(t.Words) || pos && !samePos(s.Position, t.Position) {
			return false
		}
		for j, w := range s.Words {
			v := t.Words[j]
			if w.Value != nil || v.Value != nil || pos && !samePos(w.Word.Position, v.Word.Position) {
				return false
			}
			if !sameMorphemes(w.Word.Morphemes, v.Word.Morphemes, pos) {
				return false
			}
		}
	}
	return true
}

func samePos(a, b *core.SourcePosition) bool {
	return a == nil && b == nil || a != nil && b != nil && *a == *b
}

func sameMorphemes(a, b []core.Morpheme, pos bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i, m := range a {
		if m.Type() != b[i].Type() || pos && !samePos(m.Position(), b[i].Position()) {
			return false
		}
		switch x := m.(type) {
		case core.LiteralMorpheme:
			if x.Value != b[i].(core.LiteralMorpheme).Value {
				return false
			}
		case core.TupleMorpheme:
			y := b[i].(core.TupleMorpheme)
			if !sameScript(&x.Subscript, &y.Subscript, pos) {
				return false
			}
		case core.BlockMorpheme:
			y := b[i].(core.BlockMorpheme)
			if x.Value != y.Value || !sameScript(&x.Subscript, &y.Subscript, pos) {
				return false
			}
		case core.ExpressionMorpheme:
			y := b[i].(core.ExpressionMorpheme)
			if !sameScript(&x.Subscript, &y.Subscript, pos) {
				return false
			}
		case core.StringMorpheme:
			if !sameMorphemes(x.Morphemes, b[i].(core.StringMorpheme).Morphemes, pos) {
				return false
			}
		case core.HereStringMorpheme:
			y := b[i].(core.HereStringMorpheme)
			if x.Value != y.Value || x.DelimiterLength != y.DelimiterLength {
				return false
			}
		case core.TaggedStringMorpheme:
			y := b[i].(core.TaggedStringMorpheme)
			if x.Value != y.Value || x.Tag != y.Tag {
				return false
			}
		case core.LineCommentMorpheme:
			y := b[i].(core.LineCommentMorpheme)
			if x.Value != y.Value || x.DelimiterLength != y.DelimiterLength {
				return false
			}
		case core.BlockCommentMorpheme:
			y := b[i].(core.BlockCommentMorpheme)
			if x.Value != y.Value || x.DelimiterLength != y.DelimiterLength {
				return false
			}
		case core.SubstituteNextMorpheme:
			y := b[i].(core.SubstituteNextMorpheme)
			if x.Value != y.Value || x.Expansion != y.Expansion {
				return false
			}
		}
	}
	return true
}

func sameParse(a, b core.ParseResult, pos bool) bool {
	return a.Success == b.Success && a.Message == b.Message && sameScript(a.Script, b.Script, pos)
}

const streamChars = "a $*(){}[]\"#;\n\\"

// ParserIncremental: running the tokenizer and the parser step by step, with a parser
// that was already used for another source, gives the batch result.
func ParserIncremental() {
	n := sym.Param("N", 3)
	pos := sym.Bool("pos")
	src := sym.BytesOf("src", n, streamChars)
	options := &core.ParserOptions{CapturePositions: pos}
	tokens := core.Tokenizer{}.Tokenize(src)
	batch := core.NewParser(options).ParseTokens(tokens, nil)

	parser := core.NewParser(options)
	before := [...]string{"", "a [b", "\"\"\"x", "a}", "$", "# x", "\"\"T\nx"}[sym.Choice("before", 7)]
	parser.ParseTokens(core.Tokenizer{}.Tokenize(before), nil)

	tokenizer := core.Tokenizer{}
	tokenizer.Begin(core.NewStringStream(src))
	stream := core.NewArrayTokenStream([]core.Token{}, nil)
	count := 0
	for !tokenizer.End() {
		t := tokenizer.Next()
		if t == nil {
			continue
		}
		sym.Assert(count < len(tokens) && tokens[count] == *t, "incremental tokens are the batch tokens")
		count++
		stream.Emit(*t)
	}
	sym.Assert(count == len(tokens), "incremental token count")
	parser.Begin(stream)
	result := core.ParseResult{Success: true}
	for result.Success && !parser.End() {
		result = parser.Next()
		sym.Assert(result.Script == nil, "no script before the end of the stream")
	}
	if result.Success {
		result = parser.CloseStream()
	}
	sym.Observe("message", result.Message)
	sym.Assert(sameParse(batch, result, true), "incremental parse equals batch parse")
	sym.Reach("end")
}

// ParserCompleteness: an error reported before the end of the stream is
// final: no continuation of the source makes it parse; and a source that only
// fails at the end of the stream has a continuation which does parse.
func ParserCompleteness() {
	n := sym.Param("N", 3)
	m := sym.Param("M", 2)
	src := sym.BytesOf("src", n, streamChars)
	more := sym.BytesOf("more", m, "a) ]}\"#\n")
	tokens := core.Tokenizer{}.Tokenize(src)
	parser := core.NewParser(nil)
	partial := parser.ParseStream(core.NewArrayTokenStream(tokens, nil))
	// the lookahead of the tokenizer may still change the last token
	sym.Assume(src[n-1] != '"' && src[n-1] != '#' && src[n-1] != '\\')
	if partial.Success {
		sym.Assert(partial.Script == nil, "no script before the end of the stream")
		sym.Reach("undecided")
		return
	}
	whole := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src+more), nil)
	sym.Observe("message", whole.Message)
	sym.Assert(!whole.Success, "an error before the end of the stream is final")
	sym.Assert(whole.Message == partial.Message, "the same error is reported")
	sym.Reach("final")
}

// ParserPositionsNeutral: capturing positions changes nothing but positions.
func ParserPositionsNeutral() {
	n := sym.Param("N", 3)
	src := sym.BytesOf("src", n, streamChars)
	tokens := core.Tokenizer{}.Tokenize(src)
	a := core.NewParser(nil).ParseTokens(tokens, nil)
	b := core.NewParser(&core.ParserOptions{CapturePositions: true}).ParseTokens(tokens, nil)
	sym.Observe("message", a.Message)
	sym.Assert(sameParse(a, b, false), "capturing positions does not change the parse")
	sym.Reach("end")
}

// ParserIndependentTrees: a syntax tree is not changed by parsing another
// source with the same parser.
func ParserIndependentTrees() {
	n := sym.Param("N", 2)
	src := sym.BytesOf("src", n, streamChars)
	other := sym.BytesOf("other", n, "a {}[\"#$")
	tokens := core.Tokenizer{}.Tokenize(src)
	p := core.NewParser(nil)
	a := p.ParseTokens(tokens, nil)
	p.ParseTokens(core.Tokenizer{}.Tokenize(other), nil)
	b := core.NewParser(nil).ParseTokens(tokens, nil)
	sym.Observe("message", a.Message)
	sym.Assert(sameParse(a, b, true), "a tree survives the reuse of its parser")
	sym.Reach("end")
}
