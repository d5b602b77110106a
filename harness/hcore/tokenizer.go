// Package hcore holds the harnesses of the core package.
package hcore

import (
	"helena/core"
	"helena/zzverif/sym"
)

// TokenizerLossless: the token sequences concatenate to the source, and each
// token's position is the index, line and column of its first character.
func TokenizerLossless() {
	n := sym.Choice("n", sym.Param("N", 3)+1)
	src := sym.Bytes("src", n)
	checkLossless(src, core.Tokenizer{}.Tokenize(src))
	sym.Reach("end")
}

func checkLossless(src string, tokens []core.Token) {
	all := ""
	pos, line, col := 0, 0, 0
	for _, t := range tokens {
		sym.Assert(int(t.Position.Index) == pos, "tokens are contiguous")
		sym.Assert(int(t.Position.Line) == line, "token line")
		sym.Assert(int(t.Position.Column) == col, "token column")
		sym.Assert(len(t.Sequence) > 0, "tokens are not empty")
		for i := 0; i < len(t.Sequence); i++ {
			if t.Sequence[i] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
		pos += len(t.Sequence)
		all += t.Sequence
	}
	sym.Observe("all", all)
	sym.ObserveInt("count", len(tokens))
	sym.Assert(all == src, "tokens cover the source")
}

// TokenizerReference: type, extent and literal of every token are those of an
// independent description of the lexical syntax.
func TokenizerReference() {
	n := sym.Choice("n", sym.Param("N", 3)+1)
	src := sym.Bytes("src", n)
	checkReference(src)
	sym.Reach("end")
}

// TokenizerEscapes: as TokenizerReference, on a backslash followed by an
// escape letter or digits and more text.
func TokenizerEscapes() {
	n := sym.Choice("n", sym.Param("N", 3)+1)
	pre := sym.BytesOf("pre", 1, "\\ a\"")
	src := pre + "\\" + sym.BytesOf("kind", 1, "xuU0167\\n\n") + sym.BytesOf("digits", n, "07afFg \n\\")
	checkReference(src)
	sym.Reach("end")
}

// TokenizerWideEscapes: \U and \u followed by hexadecimal digits only.
func TokenizerWideEscapes() {
	n := sym.Int("n", 0, 10)
	n = sym.ConcretizeInt(n)
	b := sym.Bytes("digits", n)
	for i := 0; i < n; i++ {
		sym.Assume(b[i] >= '0' && b[i] <= '9' || b[i] >= 'a' && b[i] <= 'f')
	}
	c := "u"
	if sym.Bool("wide") {
		c = "U"
	}
	checkReference("\\" + c + b)
	sym.Reach("end")
}

type refToken struct {
	typ        core.TokenType
	start, end int
	literal    string
}

func isWs(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == 0x0C }

func single(c byte) (core.TokenType, bool) {
	switch c {
	case '\n':
		return core.TokenType_NEWLINE, true
	case '(':
		return core.TokenType_OPEN_TUPLE, true
	case ')':
		return core.TokenType_CLOSE_TUPLE, true
	case '{':
		return core.TokenType_OPEN_BLOCK, true
	case '}':
		return core.TokenType_CLOSE_BLOCK, true
	case '[':
		return core.TokenType_OPEN_EXPRESSION, true
	case ']':
		return core.TokenType_CLOSE_EXPRESSION, true
	case '$':
		return core.TokenType_DOLLAR, true
	case ';':
		return core.TokenType_SEMICOLON, true
	case '*':
		return core.TokenType_ASTERISK, true
	}
	return 0, false
}

func encodeRune(cp uint64) string {
	switch {
	case cp < 0x80:
		return string([]byte{byte(cp)})
	case cp < 0x800:
		return string([]byte{byte(0xC0 | cp>>6), byte(0x80 | cp&0x3F)})
	case cp >= 0xD800 && cp < 0xE000 || cp > 0x10FFFF:
		return "\xEF\xBF\xBD"
	case cp < 0x10000:
		return string([]byte{byte(0xE0 | cp>>12), byte(0x80 | cp>>6&0x3F), byte(0x80 | cp&0x3F)})
	}
	return string([]byte{byte(0xF0 | cp>>18), byte(0x80 | cp>>12&0x3F), byte(0x80 | cp>>6&0x3F), byte(0x80 | cp&0x3F)})
}

func hexVal(c byte) (uint64, bool) {
	switch {
	case c >= '0' && c <= '9':
		return uint64(c - '0'), true
	case c >= 'a' && c <= 'f':
		return uint64(c-'a') + 10, true
	case c >= 'A' && c <= 'F':
		return uint64(c-'A') + 10, true
	}
	return 0, false
}

// refEscape decodes the escape sequence whose backslash is at i.
func refEscape(s string, i int) (end int, literal string) {
	c := s[i+1]
	end = i + 2
	switch c {
	case 'a':
		return end, "\a"
	case 'b':
		return end, "\b"
	case 'f':
		return end, "\f"
	case 'n':
		return end, "\n"
	case 'r':
		return end, "\r"
	case 't':
		return end, "\t"
	case 'v':
		return end, "\v"
	case '\\':
		return end, "\\"
	}
	max, base := 0, uint64(16)
	cp := uint64(0)
	digits := 0
	switch {
	case c >= '0' && c <= '7':
		max, base = 3, 8
		end--
	case c == 'x':
		max = 2
	case c == 'u':
		max = 4
	case c == 'U':
		max = 8
	}
	for digits < max && end < len(s) {
		d, ok := hexVal(s[end])
		if !ok || d >= base {
			break
		}
		cp = cp*base + d
		digits++
		end++
	}
	if digits == 0 {
		return end, s[i+1 : i+2]
	}
	return end, encodeRune(cp)
}

func refTokenize(s string) []refToken {
	var out []refToken
	i := 0
	for i < len(s) {
		c := s[i]
		start := i
		if t, ok := single(c); ok {
			i++
			out = append(out, refToken{t, start, i, s[start:i]})
			continue
		}
		switch {
		case isWs(c):
			for i < len(s) && isWs(s[i]) {
				i++
			}
			out = append(out, refToken{core.TokenType_WHITESPACE, start, i, s[start:i]})
		case c == '#' || c == '"':
			for i < len(s) && s[i] == c {
				i++
			}
			t := core.TokenType_COMMENT
			if c == '"' {
				t = core.TokenType_STRING_DELIMITER
			}
			out = append(out, refToken{t, start, i, s[start:i]})
		case c == '\\' && i+1 < len(s):
			if s[i+1] == '\n' {
				i += 2
				for i < len(s) && isWs(s[i]) {
					i++
				}
				out = append(out, refToken{core.TokenType_CONTINUATION, start, i, " "})
				continue
			}
			end, lit := refEscape(s, i)
			i = end
			out = append(out, refToken{core.TokenType_ESCAPE, start, i, lit})
		case c == '\\':
			// a trailing backslash is text of its own
			i++
			out = append(out, refToken{core.TokenType_TEXT, start, i, "\\"})
		default:
			for i < len(s) && isText(s[i]) {
				i++
			}
			out = append(out, refToken{core.TokenType_TEXT, start, i, s[start:i]})
		}
	}
	return out
}

func isText(c byte) bool {
	if _, ok := single(c); ok {
		return false
	}
	return !isWs(c) && c != '#' && c != '"' && c != '\\'
}

func checkReference(src string) {
	tokens := core.Tokenizer{}.Tokenize(src)
	ref := refTokenize(src)
	sym.Assert(len(tokens) == len(ref), "number of tokens")
	for i, t := range tokens {
		r := ref[i]
		sym.Assert(t.Type == r.typ, "token type")
		sym.Assert(int(t.Position.Index) == r.start, "token start")
		sym.Assert(len(t.Sequence) == r.end-r.start, "token extent")
		sym.Observe("lit", t.Literal)
		sym.Assert(t.Literal == r.literal, "token literal")
	}
}
