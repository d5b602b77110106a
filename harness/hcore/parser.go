package hcore

import (
	"helena/core"
	"helena/zzverif/sym"
	"strings"
)

// ---- independent reference parser ----

type refMorph struct {
	kind      string // lit, tuple, block, expr, str, here, tag, line, blockc, sub
	value     string
	n         int // delimiter length, or 1 for an expansion
	sentences [][]refWord
	parts     []*refMorph
	at        int // index of its first character
}
type refWord struct {
	morphs []*refMorph
	at     int
}

type refParser struct {
	src  string
	toks []refToken
	pos  int
	err  string
}

func (p *refParser) end() bool { return p.pos >= len(p.toks) }
func (p *refParser) peekIs(t core.TokenType) bool {
	return !p.end() && p.toks[p.pos].typ == t
}
func (p *refParser) seq(t refToken) string { return p.src[t.start:t.end] }

// substitution prefix: every "$" opens a pending substitution; pending ones
// with no source turn back into plain text.
type refSeq struct {
	morphs  []*refMorph
	pending bool // the last morphemes are substitutions awaiting their source
	sel     bool // a source (and selectors) was just read
}

func (q *refSeq) last() *refMorph {
	if len(q.morphs) == 0 {
		return nil
	}
	return q.morphs[len(q.morphs)-1]
}
func (q *refSeq) source() {
	q.sel = q.pending
	q.pending = false
}
func (q *refSeq) text(s string, at int) {
	if l := q.last(); l != nil && l.kind == "lit" && !q.pending && !q.sel {
		l.value += s
		return
	}
	q.morphs = append(q.morphs, &refMorph{kind: "lit", value: s, at: at})
	q.source()
}
func (q *refSeq) dollar(s string, star bool, at int) {
	m := &refMorph{kind: "sub", value: s, at: at}
	if l := q.last(); star && (l == nil || l.kind != "sub") {
		m.n = 1
	}
	q.morphs = append(q.morphs, m)
	q.pending = true
	q.sel = false
}
func (q *refSeq) stale() {
	if !q.pending {
		return
	}
	q.pending = false
	v := ""
	at := 0
	for q.last() != nil && q.last().kind == "sub" {
		v = q.last().value + v
		at = q.last().at
		q.morphs = q.morphs[:len(q.morphs)-1]
	}
	q.text(v, at)
}

// nested parses up to the closing token; the opening one was consumed.
func (p *refParser) nested(closer core.TokenType, unmatched string) [][]refWord {
	ss, closed := p.script(closer, true)
	if p.err == "" && !closed {
		p.err = unmatched
	}
	return ss
}

func (p *refParser) script(closer core.TokenType, inside bool) (out [][]refWord, closed bool) {
	var words []refWord
	var q *refSeq
	at := 0
	endWord := func() {
		if q != nil {
			q.stale()
			words = append(words, refWord{q.morphs, at})
			q = nil
		}
	}
	endSentence := func() {
		endWord()
		if words != nil {
			out = append(out, words)
			words = nil
		}
	}
	for !p.end() {
		t := p.toks[p.pos]
		p.pos++
		if inside && t.typ == closer {
			endSentence()
			return out, true
		}
		switch t.typ {
		case core.TokenType_WHITESPACE, core.TokenType_CONTINUATION:
			endWord()
			continue
		case core.TokenType_NEWLINE, core.TokenType_SEMICOLON:
			endSentence()
			continue
		case core.TokenType_CLOSE_TUPLE, core.TokenType_CLOSE_BLOCK, core.TokenType_CLOSE_EXPRESSION:
			name := map[core.TokenType]string{core.TokenType_CLOSE_TUPLE: "parenthesis", core.TokenType_CLOSE_BLOCK: "brace", core.TokenType_CLOSE_EXPRESSION: "bracket"}[t.typ]
			if inside {
				p.err = "mismatched right " + name
			} else {
				p.err = "unmatched right " + name
			}
			return out, false
		}
		first := q == nil
		if first {
			q = &refSeq{}
			at = t.start
		}
		switch t.typ {
		case core.TokenType_TEXT, core.TokenType_ESCAPE, core.TokenType_ASTERISK:
			q.text(t.literal, t.start)
		case core.TokenType_DOLLAR:
			p.dollar(q, t)
		case core.TokenType_OPEN_TUPLE, core.TokenType_OPEN_BLOCK, core.TokenType_OPEN_EXPRESSION:
			p.group(q, t)
		case core.TokenType_STRING_DELIMITER:
			if !first {
				p.err = "unexpected string delimiter"
				return out, false
			}
			p.str(q, t)
		case core.TokenType_COMMENT:
			if !first {
				if q.pending {
					p.err = "unexpected comment delimiter"
					return out, false
				}
				q.text(t.literal, t.start)
				break
			}
			if p.peekIs(core.TokenType_OPEN_BLOCK) {
				p.pos++
				p.blockComment(q, t)
				break
			}
			m := &refMorph{kind: "line", n: t.end - t.start, at: t.start}
			q.morphs = append(q.morphs, m)
			for !p.end() && !p.peekIs(core.TokenType_NEWLINE) {
				m.value += p.toks[p.pos].literal
				p.pos++
			}
		}
		if p.err != "" {
			return out, false
		}
	}
	endSentence()
	return out, false
}

func (p *refParser) dollar(q *refSeq, t refToken) {
	v := "$"
	star := false
	if p.peekIs(core.TokenType_ASTERISK) {
		p.pos++
		v, star = "$*", true
	}
	q.dollar(v, star, t.start)
}

func (p *refParser) group(q *refSeq, t refToken) {
	m := &refMorph{at: t.start}
	q.morphs = append(q.morphs, m)
	from := p.pos
	switch t.typ {
	case core.TokenType_OPEN_TUPLE:
		m.kind = "tuple"
		m.sentences = p.nested(core.TokenType_CLOSE_TUPLE, "unmatched left parenthesis")
	case core.TokenType_OPEN_BLOCK:
		m.kind = "block"
		m.sentences = p.nested(core.TokenType_CLOSE_BLOCK, "unmatched left brace")
		if p.err == "" {
			for _, t := range p.toks[from : p.pos-1] {
				m.value += t.literal
			}
		}
	case core.TokenType_OPEN_EXPRESSION:
		m.kind = "expr"
		m.sentences = p.nested(core.TokenType_CLOSE_EXPRESSION, "unmatched left bracket")
		q.source()
		return
	}
	if q.pending {
		q.source()
	}
}

func (p *refParser) str(q *refSeq, t refToken) {
	n := t.end - t.start
	switch {
	case n == 1:
		m := &refMorph{kind: "str", at: t.start}
		q.morphs = append(q.morphs, m)
		in := &refSeq{}
		for {
			if p.end() {
				p.err = "unmatched string delimiter"
				return
			}
			t := p.toks[p.pos]
			p.pos++
			if in.pending && t.typ != core.TokenType_TEXT && t.typ != core.TokenType_DOLLAR &&
				t.typ != core.TokenType_OPEN_BLOCK && t.typ != core.TokenType_OPEN_EXPRESSION {
				in.stale()
			}
			switch {
			case t.typ == core.TokenType_STRING_DELIMITER:
				if t.end-t.start != 1 {
					p.err = "extra characters after string delimiter"
					return
				}
				in.stale()
				m.parts = in.morphs
				return
			case t.typ == core.TokenType_DOLLAR:
				p.dollar(in, t)
			case t.typ == core.TokenType_OPEN_EXPRESSION,
				(t.typ == core.TokenType_OPEN_TUPLE || t.typ == core.TokenType_OPEN_BLOCK) && (in.pending || in.sel):
				p.group(in, t)
				if p.err != "" {
					return
				}
			default:
				in.text(t.literal, t.start)
			}
		}
	case n == 2 && p.peekIs(core.TokenType_TEXT):
		tag := p.toks[p.pos].literal
		for !p.end() {
			nl := p.peekIs(core.TokenType_NEWLINE)
			p.pos++
			if nl {
				break
			}
		}
		raw := ""
		for {
			if p.end() {
				p.err = "unmatched tagged string delimiter"
				return
			}
			t := p.toks[p.pos]
			p.pos++
			if t.typ == core.TokenType_TEXT && t.literal == tag && p.peekIs(core.TokenType_STRING_DELIMITER) &&
				p.toks[p.pos].end-p.toks[p.pos].start == 2 {
				p.pos++
				break
			}
			raw += p.seq(t)
		}
		// every line loses as many bytes as the closing tag is indented by
		lines := strings.Split(raw, "\n")
		indent := len(lines[len(lines)-1])
		for i, l := range lines {
			if len(l) < indent {
				indent2 := len(l)
				lines[i] = l[indent2:]
			} else {
				lines[i] = l[indent:]
			}
		}
		q.morphs = append(q.morphs, &refMorph{kind: "tag", value: tag + ":" + strings.Join(lines, "\n"), at: t.start})
	case n == 2:
		q.morphs = append(q.morphs, &refMorph{kind: "str", at: t.start})
	default:
		m := &refMorph{kind: "here", n: n, at: t.start}
		q.morphs = append(q.morphs, m)
		for {
			if p.end() {
				p.err = "unmatched here-string delimiter"
				return
			}
			t := p.toks[p.pos]
			p.pos++
			if t.typ == core.TokenType_STRING_DELIMITER && t.end-t.start == n {
				return
			}
			m.value += p.seq(t)
		}
	}
}

func (p *refParser) blockComment(q *refSeq, open refToken) {
	n := open.end - open.start
	m := &refMorph{kind: "blockc", n: n, at: open.start}
	q.morphs = append(q.morphs, m)
	depth := 1
	for {
		if p.end() {
			p.err = "unmatched block comment delimiter"
			return
		}
		t := p.toks[p.pos]
		p.pos++
		if t.typ == core.TokenType_COMMENT && t.end-t.start == n && p.peekIs(core.TokenType_OPEN_BLOCK) {
			depth++
		}
		if t.typ == core.TokenType_CLOSE_BLOCK && p.peekIs(core.TokenType_COMMENT) && p.toks[p.pos].end-p.toks[p.pos].start == n {
			depth--
			if depth == 0 {
				p.pos++
				return
			}
		}
		m.value += p.seq(t)
	}
}

func refParse(src string) ([][]refWord, string) {
	p := &refParser{src: src, toks: refTokenize(src)}
	ss, _ := p.script(0, false)
	return ss, p.err
}

// posCheck checks captured positions (nil: none must be captured).
type posCheck struct{ src string }

func (c *posCheck) ok(p *core.SourcePosition, at int) bool {
	if p == nil {
		return false
	}
	line, col := 0, 0
	for i := 0; i < at; i++ {
		if c.src[i] == '\n' {
			line++
			col = 0
		} else {
			col++
		}
	}
	return int(p.Index) == at && int(p.Line) == line && int(p.Column) == col
}

// ---- comparison of the real AST with the reference ----

func cmpScript(s core.Script, r [][]refWord, pos *posCheck) {
	sym.Assert(len(s.Sentences) == len(r), "number of sentences")
	for i, se := range s.Sentences {
		sym.Assert(len(se.Words) == len(r[i]), "number of words")
		if pos != nil {
			sym.Assert(pos.ok(se.Position, r[i][0].at), "sentence position")
		}
		for j, w := range se.Words {
			sym.Assert(w.Value == nil, "parsed words have no value")
			if pos != nil {
				sym.Assert(pos.ok(w.Word.Position, r[i][j].at), "word position")
			}
			cmpMorphemes(w.Word.Morphemes, r[i][j].morphs, pos)
		}
	}
}

func cmpMorphemes(ms []core.Morpheme, rs []*refMorph, pos *posCheck) {
	sym.Assert(len(ms) == len(rs), "number of morphemes")
	for i, m := range ms {
		r := rs[i]
		if pos != nil {
			sym.Assert(pos.ok(m.Position(), r.at), "morpheme position")
		} else {
			sym.Assert(m.Position() == nil, "no position unless captured")
		}
		switch x := m.(type) {
		case core.LiteralMorpheme:
			sym.Assert(r.kind == "lit", "morpheme kind: literal")
			sym.Assert(x.Value == r.value, "literal value")
		case core.TupleMorpheme:
			sym.Assert(r.kind == "tuple", "morpheme kind: tuple")
			cmpScript(x.Subscript, r.sentences, pos)
		case core.BlockMorpheme:
			sym.Assert(r.kind == "block", "morpheme kind: block")
			sym.Assert(x.Value == r.value, "block value")
			cmpScript(x.Subscript, r.sentences, pos)
		case core.ExpressionMorpheme:
			sym.Assert(r.kind == "expr", "morpheme kind: expression")
			cmpScript(x.Subscript, r.sentences, pos)
		case core.StringMorpheme:
			sym.Assert(r.kind == "str", "morpheme kind: string")
			cmpMorphemes(x.Morphemes, r.parts, pos)
		case core.HereStringMorpheme:
			sym.Assert(r.kind == "here", "morpheme kind: here-string")
			sym.Assert(x.Value == r.value, "here-string value")
			sym.Assert(int(x.DelimiterLength) == r.n, "here-string delimiter length")
		case core.TaggedStringMorpheme:
			sym.Assert(r.kind == "tag", "morpheme kind: tagged string")
			sym.Assert(x.Tag+":"+x.Value == r.value, "tagged string value")
		case core.LineCommentMorpheme:
			sym.Assert(r.kind == "line", "morpheme kind: line comment")
			sym.Assert(x.Value == r.value, "line comment value")
			sym.Assert(int(x.DelimiterLength) == r.n, "line comment delimiter length")
		case core.BlockCommentMorpheme:
			sym.Assert(r.kind == "blockc", "morpheme kind: block comment")
			sym.Assert(x.Value == r.value, "block comment value")
			sym.Assert(int(x.DelimiterLength) == r.n, "block comment delimiter length")
		case core.SubstituteNextMorpheme:
			sym.Assert(r.kind == "sub", "morpheme kind: substitution")
			sym.Assert(x.Value == r.value, "substitution value")
			sym.Assert(x.Expansion == (r.n == 1), "substitution expansion")
		default:
			sym.Fail("unknown morpheme")
		}
	}
}

func checkParse(src string, positions bool) {
	var pos *posCheck
	if positions {
		pos = &posCheck{src}
	}
	res := core.NewParser(&core.ParserOptions{CapturePositions: positions}).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
	ref, err := refParse(src)
	sym.Observe("message", res.Message)
	if err != "" {
		sym.Assert(!res.Success, "ill-formed source is rejected")
		sym.Assert(res.Message == err, "parse error message")
		sym.Assert(res.Script == nil, "no script on error")
		sym.Reach("rejected")
		return
	}
	sym.Assert(res.Success, "well-formed source is accepted")
	sym.Assert(res.Script != nil, "script on success")
	cmpScript(*res.Script, ref, pos)
	sym.Reach("accepted")
}

// ParserReference: every byte string is parsed into the syntax tree, or
// rejected with the error, that an independent grammar assigns to it.
func ParserReference() {
	n := sym.Choice("n", sym.Param("N", 3)+1)
	checkParse(sym.Bytes("src", n), false)
}

const syntaxChars = "a $*(){}[]\"#;\n\\"

// ParserSyntax: longer sources over the characters with a syntactic role.
func ParserSyntax() {
	n := sym.Param("N", 4)
	checkParse(sym.BytesOf("src", n, syntaxChars), sym.Param("POS", 0) == 1)
}

// ParserStrings: sources inside a double-quoted string.
func ParserStrings() {
	n := sym.Choice("n", sym.Param("N", 4)+1)
	checkParse("\""+sym.BytesOf("src", n, "ab $*({[)]}\"\\")+"\" c", sym.Param("POS", 0) == 1)
}

// ParserSubstitutions: words starting with a substitution.
func ParserSubstitutions() {
	n := sym.Choice("n", sym.Param("N", 4)+1)
	checkParse("a $"+sym.BytesOf("src", n, "ab $*({[)]}#\\"), sym.Param("POS", 0) == 1)
}

// ParserTagged: tagged strings, with indented lines.
func ParserTagged() {
	n := sym.Choice("n", sym.Param("N", 4)+1)
	checkParse("\"\"T\n"+sym.BytesOf("src", n, "aT \n\"\\#{")+sym.BytesOf("nl", 1, "\n ")+"T\"\"", false)
}

// ParserHereStrings: here-strings.
func ParserHereStrings() {
	n := sym.Choice("n", sym.Param("N", 4)+1)
	checkParse("\"\"\""+sym.BytesOf("src", n, "a \n\"\\$")+"\"\"\"", false)
}

// ParserComments: line and block comments.
func ParserComments() {
	n := sym.Choice("n", sym.Param("N", 4)+1)
	open := "#"
	if sym.Bool("long") {
		open = "##"
	}
	if sym.Bool("block") {
		open += "{"
	}
	checkParse(open+sym.BytesOf("src", n, "a#{}\n\\ ")+"}", sym.Param("POS", 0) == 1)
}

// ParserBlockComments: block comments of any nesting, opened and closed with
// one to three marks.
func ParserBlockComments() {
	src := [...]string{"#{", "##{"}[sym.Choice("open", 2)]
	n := sym.Choice("n", sym.Param("N", 5)+1)
	for i := 0; i < n; i++ {
		src += [...]string{"#{", "##{", "}#", "}##", "}###", "}", "#", "{", "\\", "a", "\n"}[sym.Choice("token", sym.Param("TOKENS", 11))]
	}
	checkParse(src, sym.Param("POS", 0) == 1)
}

// ParserLongDelimiters: tagged strings with longer tags and here-strings with
// more quotes, next to shorter and longer runs of the same.
func ParserLongDelimiters() {
	src := [...]string{"\"\"TT\n", "\"\"TaT\n", "\"\"\"\"", "\"\"\"\"\""}[sym.Choice("open", 4)]
	n := sym.Choice("n", sym.Param("N", 4)+1)
	for i := 0; i < n; i++ {
		src += [...]string{"\"\"", "T", "TT", "\n", "a", "\"", "  ", "\"\"\"", "\"\"\"\"", "aT", "$"}[sym.Choice("token", sym.Param("TOKENS", 11))]
	}
	checkParse(src, sym.Param("POS", 0) == 1)
}

// ParserNesting: delimiters only, to a larger depth.
func ParserNesting() {
	n := sym.Param("N", 6)
	checkParse(sym.BytesOf("src", n, "()[]{}"), false)
}
