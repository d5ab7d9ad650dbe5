package h

import (
	"github.com/akm/tparser/token"
	"tpharness/sv"
)

func observeTokens(toks []*token.Token) {
	s := ""
	for _, t := range toks {
		s += typeCode(t.Type) + ":" + num(t.Start.Index) + "-" + num(t.End.Index) + " "
	}
	sv.Observe("tokens", s)
}

// allTokens pulls tokens until end of file (at most one more than runes).
func allTokens(text []rune, flags token.TokeninzerFlag) []*token.Token {
	tz := token.NewTokenizer(&text, flags)
	var out []*token.Token
	for i := 0; i <= len(text)+1; i++ {
		t := tz.GetNext()
		if t == nil {
			sv.Fail("the tokenizer returns no token before end of file")
		}
		out = append(out, t)
		if t.Type == token.EOF {
			t2 := tz.GetNext()
			sv.Assert(t2 != nil && t2.Type == token.EOF && t2.Start.Index == t.Start.Index, "end of file is not repeated")
			return out
		}
	}
	sv.Fail("more tokens than characters")
	return nil
}

// checkReproduce: with blanks and comments loaded the raw texts concatenate
// to the text; with them skipped the stream is the same minus those tokens.
func checkReproduce(text []rune) {
	all := allTokens(text, token.LoadSpace|token.LoadComment)
	observeTokens(all)
	at := 0
	for _, t := range all {
		sv.Assert(t.Start.Index == at, "gap or overlap between tokens")
		raw := t.Raw()
		if t.Type == token.EOF {
			sv.Assert(at == len(text), "end of file before the end of the text")
			sv.Assert(len(raw) == 0, "end of file has text")
			break
		}
		sv.Assert(len(raw) > 0, "empty token")
		sv.Assert(at+len(raw) <= len(text), "token text beyond the source")
		for i, r := range raw {
			sv.Assert(r == text[at+i], "token text differs from the source")
		}
		at = t.End.Index
	}
	for mode := 0; mode < 3; mode++ {
		flags := token.TokeninzerFlag(0)
		if mode == 1 {
			flags = token.LoadSpace
		} else if mode == 2 {
			flags = token.LoadComment
		}
		some := allTokens(text, flags)
		j := 0
		for _, t := range all {
			if t.Type == token.Space && mode != 1 || t.Type == token.Comment && mode != 2 {
				continue
			}
			sv.Assert(j < len(some), "a token is missing when blanks or comments are skipped")
			s := some[j]
			sv.Assert(s.Type == t.Type && s.Start.Index == t.Start.Index && s.End.Index == t.End.Index, "skipping blanks or comments changes another token")
			j++
		}
		sv.Assert(j == len(some), "extra token when blanks or comments are skipped")
	}
}

func checkClasses(text []rune) {
	all := allTokens(text, token.LoadSpace|token.LoadComment)
	observeTokens(all)
	ref := refLex(text)
	sv.Assert(len(all) == len(ref)+1, "wrong number of tokens")
	for i, l := range ref {
		t := all[i]
		sv.Assert(t.Start.Index == l.start && t.End.Index == l.end, "token boundary differs from the lexical grammar")
		if l.typ == unknownLexeme {
			switch t.Type {
			case token.EOF, token.Space, token.Comment, token.Identifier, token.QualifiedIdentifier, token.ReservedWord, token.NumeralInt, token.NumeralReal, token.Label, token.CharacterString:
				sv.Fail("a character that starts no lexeme is given the class of another lexeme")
			}
			continue
		}
		if l.typ == wordLexeme {
			sv.Assert(t.Type == token.Identifier || t.Type == token.ReservedWord, "token class differs from the lexical grammar")
			continue
		}
		sv.Assert(t.Type == l.typ, "token class differs from the lexical grammar")
	}
}

// inText: prefix, then k characters of the alphabet, then suffix.
func inText(prefix string, k int, alphabet string, suffix string) []rune {
	t := []rune(prefix)
	for i := 0; i < k; i++ {
		t = append(t, sv.RuneIn("r"+num(i), alphabet))
	}
	return append(t, []rune(suffix)...)
}

// casedWord: the word, every letter in either case.
func casedWord(tag, w string) []rune {
	var t []rune
	for i, r := range w {
		if 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' {
			t = append(t, sv.RuneIn(tag+num(i), string([]rune{r | 32, r &^ 32})))
		} else {
			t = append(t, r)
		}
	}
	return t
}

const (
	alphaComment = "*)}/(\n '{\ra.\x0b\u3042"
	alphaString  = "'\\a\n{"
	alphaNumber  = "09-.ex$#"
	alphaSymbol  = ":=<>.(*)/-+@^[],;{}'"
)

// delimText: one of the comment or string openers followed by every choice of
// n characters that matter to it, then nothing or another word.
func delimText(n int) []rune {
	suffix := []string{"", "b", "\nb *)b}b'b"}[sv.Concrete(sv.Int("suffix", 0, 2))]
	switch sv.Concrete(sv.Int("form", 0, 4)) {
	case 0:
		return inText("{", n, alphaComment, suffix)
	case 1:
		return inText("(*", n, alphaComment, suffix)
	case 2:
		return inText("//", n, alphaComment, suffix)
	case 3:
		return inText("'", n+1, alphaString, suffix)
	}
	return inText("b", n+1, alphaNumber, suffix)
}

// wordText: every reserved word in every letter case, followed by nothing or
// by any character, or cut by one letter.
func wordText() []rune {
	w := reservedRef[sv.Concrete(sv.Int("word", 0, len(reservedRef)-1))]
	t := casedWord("c", w)
	switch sv.Concrete(sv.Int("after", 0, 3)) {
	case 1:
		t = append(t, sv.Rune("next"))
	case 2:
		t = t[:len(t)-1]
	case 3:
		t = append([]rune{sv.RuneIn("pre", "_a0 '\u00e4-")}, t...)
	}
	return t
}

// changedWord: a reserved word with one letter replaced by any character.
func changedWord() []rune {
	w := reservedRef[sv.Concrete(sv.Int("word", 0, len(reservedRef)-1))]
	t := []rune(w)
	t[sv.Concrete(sv.Int("at", 0, len(w)-1))] = sv.Rune("r")
	return t
}

// longText: lexemes longer than the other harnesses reach: runs of one class
// with two arbitrary characters inside.
func longText() []rune {
	runs := []string{"abcdefghijklmnopqrstuvwxyz_0123456789ABCDEFGHIJ", "12345678901234567890123", "1234567890.0123456789", "        \t\t\t\r\n\n\n        ",
		"'a long quoted text, with = < > symbols'", "{ a long comment with (* inside *) }", "(* a long comment with { inside } *)", "// a line comment with ' and {\nend"}
	t := []rune(runs[sv.Concrete(sv.Int("run", 0, len(runs)-1))])
	t[sv.Concrete(sv.Int("at", 0, len(t)-1))] = sv.Rune("r")
	return t
}

// insideText: 1 to 3 arbitrary characters within a comment or a string, 1 or 2 within a word, a numeral, blanks or symbols.
func insideText() []rune {
	l := []struct{ before, after string }{{"{", "} b"}, {"(*", "*) b"}, {"//", "\nb"}, {"'", "' b"}, {"a", "a"}, {"1", "1"}, {"1.", "1"}, {" ", " "}, {"(", ")"}, {"b{", "}(*c*)"}, {"''", "''"}, {"a\n\n", "\n"}}
	k := sv.Concrete(sv.Int("form", 0, len(l)-1))
	f := l[k]
	t := []rune(f.before)
	n := 2
	if k < 4 {
		n = 3
	}
	for i := sv.Concrete(sv.Int("len", 1, n)); i > 0; i-- {
		t = append(t, sv.Rune("r"+num(i)))
	}
	return append(t, []rune(f.after)...)
}

// T01_Inside: 1 to 3 arbitrary Unicode characters within a comment or a string, 1 or 2 within a word, a numeral, blanks or symbols (12 forms).
func T01_Inside() { sv.Budget(tokenBudget); checkReproduce(insideText()) }

// T02_Inside: as T01_Inside.
func T02_Inside() { sv.Budget(tokenBudget); checkClasses(insideText()) }

// T03_Inside: as T01_Inside.
func T03_Inside() { sv.Budget(tokenBudget); checkPositions(insideText()) }

// T01_Any: all texts of 0..3 arbitrary Unicode characters (NUL excluded).
func T01_Any() { sv.Budget(tokenBudget); checkReproduce(anyText(sv.Concrete(sv.Int("len", 0, 3)))) }

// T01X_Any: all texts of 0..4 arbitrary Unicode characters (NUL excluded).
func T01X_Any() { sv.Budget(tokenBudget); checkReproduce(anyText(sv.Concrete(sv.Int("len", 0, 4)))) }

// T01_Delimited: a comment or string opener (or a letter) followed by every
// choice of 4 (strings, numerals: 5) characters that matter to it, then nothing,
// a word, or a text with every closer.
func T01_Delimited() { sv.Budget(tokenBudget); checkReproduce(delimText(4)) }

// T01X_Delimited: as quick with 5 (6) characters.
func T01X_Delimited() { sv.Budget(tokenBudget); checkReproduce(delimText(5)) }

// T01_Long: long runs of each class (8 texts of 20-50 characters) with any one
// character replaced by any Unicode character.
func T01_Long() { sv.Budget(tokenBudget); checkReproduce(longText()) }

// T02_Any: all texts of 0..3 arbitrary Unicode characters (NUL excluded).
func T02_Any() { sv.Budget(tokenBudget); checkClasses(anyText(sv.Concrete(sv.Int("len", 0, 3)))) }

// T02X_Any: all texts of 0..4 arbitrary Unicode characters (NUL excluded).
func T02X_Any() { sv.Budget(tokenBudget); checkClasses(anyText(sv.Concrete(sv.Int("len", 0, 4)))) }

// T02_Delimited: a comment or string opener (or a letter) followed by every
// choice of 4 (strings, numerals: 5) characters that matter to it, then nothing,
// a word, or a text with every closer.
func T02_Delimited() { sv.Budget(tokenBudget); checkClasses(delimText(4)) }

// T02X_Delimited: as quick with 5 (6) characters.
func T02X_Delimited() { sv.Budget(tokenBudget); checkClasses(delimText(5)) }

// T02_Words: every reserved word in every letter case: alone, followed by any
// character, without its last letter, after another character.
func T02_Words() { sv.Budget(tokenBudget); checkClasses(wordText()) }

// T02_Changed: every reserved word with one letter replaced by any character.
func T02_Changed() { sv.Budget(tokenBudget); checkClasses(changedWord()) }

// T02_Symbols: every choice of 4 of the symbol characters.
func T02_Symbols() { sv.Budget(tokenBudget); checkClasses(inText("", 3, alphaSymbol, "a")) }

// T02X_Symbols: every choice of 5 of the symbol characters.
func T02X_Symbols() { sv.Budget(tokenBudget); checkClasses(inText("", 4, alphaSymbol, "a")) }

// T02_Numbers: a digit or sign and every choice of 4 characters of numerals.
func T02_Numbers() { sv.Budget(tokenBudget); checkClasses(inText("", 5, "07-.ab", "")) }

// T02X_Numbers: a digit or sign and every choice of 7 characters of numerals.
func T02X_Numbers() { sv.Budget(tokenBudget); checkClasses(inText("", 7, "07-.ab", "")) }

// T02_Long: long runs of each class (8 texts of 20-50 characters) with any one
// character replaced by any Unicode character.
func T02_Long() { sv.Budget(tokenBudget); checkClasses(longText()) }

const tokenBudget = 300000

// posAt: true line and column of index i.
func posAt(t []rune, i int) (int, int) {
	line, col := 1, 1
	for _, r := range t[:i] {
		if r == '\n' {
			line, col = line+1, 1
		} else {
			col++
		}
	}
	return line, col
}

// places answers posAt for growing indexes in one pass.
type places struct {
	t            []rune
	i, line, col int
}

func (p *places) at(i int) (int, int) {
	if i < p.i || p.line == 0 {
		p.i, p.line, p.col = 0, 1, 1
	}
	for ; p.i < i; p.i++ {
		if p.t[p.i] == '\n' {
			p.line, p.col = p.line+1, 1
		} else {
			p.col++
		}
	}
	return p.line, p.col
}

func checkPositions(text []rune) {
	for _, flags := range []token.TokeninzerFlag{token.LoadSpace | token.LoadComment, 0} {
		all := allTokens(text, flags)
		observeTokens(all)
		pl := &places{t: text}
		for _, t := range all {
			l, c := pl.at(t.Start.Index)
			sv.Assert(t.Start.Line == l, "wrong start line")
			sv.Assert(t.Start.Col == c, "wrong start column")
			l, c = pl.at(t.End.Index)
			sv.Assert(t.End.Line == l, "wrong end line")
			sv.Assert(t.End.Col == c, "wrong end column")
		}
	}
}

// T03_Any: all texts of 0..3 arbitrary Unicode characters (NUL excluded), the
// first not a line feed.
func T03_Any() {
	sv.Budget(tokenBudget)
	t := anyText(sv.Concrete(sv.Int("len", 0, 3)))
	sv.Assume(len(t) == 0 || t[0] != '\n')
	checkPositions(t)
}

// T03_Lines: a character followed by every choice of 4 of the characters that
// matter to lines.
func T03_Lines() { sv.Budget(tokenBudget); checkPositions(inText("a", 4, "\n\r a;{}'*(", "b")) }

// T03X_Lines: a character followed by every choice of 6 of the characters that
// matter to lines.
func T03X_Lines() { sv.Budget(tokenBudget); checkPositions(inText("a", 6, "\n\r a;{}'*(", "b")) }

// T03_Delimited: a comment or string opener (or a letter) followed by every
// choice of 4 (strings, numerals: 5) characters that matter to it, then nothing,
// a word, or a text with every closer.
func T03_Delimited() { sv.Budget(tokenBudget); checkPositions(delimText(4)) }

// T03X_Delimited: as quick with 5 (6) characters.
func T03X_Delimited() { sv.Budget(tokenBudget); checkPositions(delimText(5)) }

// T03_Long: long runs of each class (8 texts of 20-50 characters) with any one
// character (not the first) replaced by any Unicode character.
func T03_Long() {
	sv.Budget(tokenBudget)
	t := longText()
	sv.Assume(t[0] != '\n')
	checkPositions(t)
}

// T03_Clone: a copy of a tokenizer made at any token boundary yields the same
// tokens and positions as the original from there on (texts of 4 characters
// that matter to lines).
func T03_Clone() {
	sv.Budget(tokenBudget)
	text := inText("a", 4, "\n a;{}'", "b")
	tz := token.NewTokenizer(&text, 0)
	for i := 0; i <= len(text)+1; i++ {
		cl := tz.Clone()
		a, b := tz.GetNext(), cl.GetNext()
		sv.Assert(a != nil && b != nil, "no token")
		sv.Assert(a.Type == b.Type && *a.Start == *b.Start && *a.End == *b.End, "a copied tokenizer sees another token or position")
		if a.Type == token.EOF {
			return
		}
		if i == 1 {
			for cl.GetNext().Type != token.EOF {
			}
		}
	}
}

const leadingLF = "a line feed at the very start of the text is not counted"

// T03_LeadingLF: texts that start with a line feed followed by 0..3 arbitrary
// characters.
func T03_LeadingLF() {
	sv.Budget(tokenBudget)
	text := append([]rune{'\n'}, anyText(sv.Concrete(sv.Int("len", 0, 3)))...)
	known := false
	for _, t := range allTokens(text, token.LoadSpace|token.LoadComment) {
		for _, p := range []struct{ i, line, col int }{{t.Start.Index, t.Start.Line, t.Start.Col}, {t.End.Index, t.End.Line, t.End.Col}} {
			l, c := posAt(text, p.i)
			if p.line == l && p.col == c {
				continue
			}
			if l == 2 {
				c++ // counted as the rest of the first line
			}
			sv.Assert(p.line == l-1 && p.col == c, "wrong position after a leading line feed")
			known = true
		}
	}
	if known {
		sv.Fail(leadingLF)
	}
}
