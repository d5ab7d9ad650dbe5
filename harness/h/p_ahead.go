package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ext"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/runes"
	"github.com/akm/tparser/token"
	"tpharness/sv"
)

// ---- T04: looking ahead changes nothing

type tokenShot struct {
	typ           token.Type
	from, to      int
	line, col     int
	toLine, toCol int
	raw           []rune
	start, end    *runes.Position
	token         *token.Token
}

func shot(t *token.Token) tokenShot {
	return tokenShot{t.Type, t.Start.Index, t.End.Index, t.Start.Line, t.Start.Col, t.End.Line, t.End.Col, append([]rune{}, t.Raw()...), t.Start, t.End, t}
}

func (s tokenShot) same(o tokenShot) bool {
	if s.typ != o.typ || s.from != o.from || s.to != o.to || s.line != o.line || s.col != o.col || s.toLine != o.toLine || s.toCol != o.toCol || len(s.raw) != len(o.raw) {
		return false
	}
	for i := range s.raw {
		if s.raw[i] != o.raw[i] {
			return false
		}
	}
	return true
}

// checkAhead: a tokenizer is cloned at any of the first places, the two are advanced in any order
// and each continues like one that was never cloned.
func checkAhead(text []rune) {
	flags := []token.TokeninzerFlag{token.LoadSpace | token.LoadComment, 0}[sv.Concrete(sv.Int("flags", 0, 1))]
	var want []tokenShot
	w := token.NewTokenizer(&text, flags)
	for i := 0; i < 4; i++ {
		want = append(want, shot(w.GetNext()))
	}
	at := sv.Concrete(sv.Int("at", 0, 2))
	order := sv.Concrete(sv.Int("order", 0, 3))
	a := token.NewTokenizer(&text, flags)
	var out []tokenShot
	next := func(t *token.Tokenizer, k int) {
		x := t.GetNext()
		sv.Assert(x != nil, "a tokenizer gives no token")
		s := shot(x)
		sv.Assert(s.same(want[k]), "looking ahead changes what is read next")
		out = append(out, s)
	}
	for i := 0; i < at; i++ {
		next(a, i)
	}
	b := a.Clone()
	for k := at; k < 4; k++ {
		switch order {
		case 0:
			next(b, k)
		case 1:
			next(a, k)
		case 2:
			next(a, k)
			next(b, k)
		case 3:
			next(b, k)
			next(a, k)
		}
	}
	for k := at; k < 4; k++ {
		if order == 0 {
			next(a, k)
		} else if order == 1 {
			next(b, k)
		}
	}
	for _, s := range out {
		sv.Assert(s.same(shot(s.token)), "a token handed out earlier changes")
	}
	sv.Observe("tokens", num(len(out)))
	sv.Cover("ahead")
}

// T04_Any: all texts of 0..3 arbitrary Unicode characters; cloned after 0..2 tokens; four orders of reading on.
// cover: ahead
func T04_Any() {
	sv.Budget(tokenBudget)
	checkAhead(anyText(sv.Concrete(sv.Int("len", 0, 3))))
}

// T04_Lines: a letter, three characters that matter to lines, comments and strings, a letter.
// cover: ahead
func T04_Lines() {
	sv.Budget(tokenBudget)
	checkAhead(inText("a", 3, "\n\r a;{}'*(/1.", "b"))
}

// T04X_Lines: as quick with four characters.
func T04X_Lines() {
	sv.Budget(tokenBudget)
	checkAhead(inText("a", 4, "\n\r a;{}'*(/1.", "b"))
}

// T04_Texts: every one of the valid texts; cloned after any number of tokens, the one or the other read to the end.
// cover: ahead
func T04_Texts() {
	sv.Budget(bigBudget)
	_, text := withAnyName()
	k := sv.Int("newline", 0, len(text)-1)
	text = append([]rune{}, text...)
	if c := sv.Concrete(k); text[c] == ' ' {
		text[c] = sv.RuneIn("blank", " \n\t")
	} else {
		return
	}
	var want []tokenShot
	for w := token.NewTokenizer(&text, 0); ; {
		want = append(want, shot(w.GetNext()))
		if want[len(want)-1].typ == token.EOF {
			break
		}
	}
	a := token.NewTokenizer(&text, 0)
	var old []*token.Tokenizer
	for i := range want {
		old = append(old, a.Clone())
		sv.Assert(shot(a.GetNext()).same(want[i]), "looking ahead changes what is read next")
		b := a.Clone()
		for j := i + 1; j < len(want) && j < i+6; j++ {
			sv.Assert(shot(b.GetNext()).same(want[j]), "a clone reads something else")
		}
	}
	for i := range old {
		sv.Assert(shot(old[i].GetNext()).same(want[i]), "a clone made earlier reads something else")
	}
	sv.Cover("ahead")
}

// T04_Parser: a parser at any of the first tokens of a text of four characters that matter takes a
// rollback point, reads on, rolls back (twice in a row, or nested), and reads on.
// cover: ahead
func T04_Parser() {
	sv.Budget(tokenBudget)
	text := inText("b", 3, "\n a;{}'.1", "b c")
	var want []tokenShot
	w := token.NewTokenizer(&text, 0)
	for i := 0; i < 6; i++ {
		want = append(want, shot(w.GetNext()))
	}
	p := parser.NewParser(parser.NewProgramContext(progPath))
	p.SetText(&text)
	is := func(t *token.Token, k int) {
		sv.Assert(t != nil && shot(t).same(want[k]), "after a rollback the parser reads something else")
		sv.Assert(p.CurrentToken() != nil && shot(p.CurrentToken()).same(want[k]), "the current token is not the one read last")
	}
	is(p.NextToken(), 0)
	at := sv.Concrete(sv.Int("at", 0, 1))
	if at == 1 {
		is(p.NextToken(), 1)
	}
	far := sv.Concrete(sv.Int("far", 0, 2))
	back := p.RollbackPoint()
	is(p.CurrentToken(), at)
	for i := 1; i <= far; i++ {
		is(p.NextToken(), at+i)
	}
	if sv.Concrete(sv.Int("nested", 0, 1)) == 1 {
		inner := p.RollbackPoint()
		is(p.NextToken(), at+far+1)
		inner()
		is(p.CurrentToken(), at+far)
		is(p.NextToken(), at+far+1)
	}
	back()
	is(p.CurrentToken(), at)
	for k := at + 1; k < 6; k++ {
		is(p.NextToken(), k)
	}
	sv.Observe("at", num(at)+" "+num(far))
	sv.Cover("ahead")
}

// T04_Cursor: a cursor on a text of four characters, advanced, cloned; seeking never moves it; the clone and the original move alone.
// cover: ahead
func T04_Cursor() {
	text := inText("", 4, "\na b", "")
	c := runes.NewCursor(&text)
	n := sv.Concrete(sv.Int("n", 0, len(text)))
	for i := 0; i < n; i++ {
		c.Next()
	}
	at := func(i int) rune {
		if i < len(text) {
			return text[i]
		}
		return runes.CursorEOF
	}
	k := sv.Concrete(sv.Int("seek", 0, 5))
	sv.Assert(c.Seek(k) == at(n+k) && c.Current() == at(n), "seeking gives another character")
	sv.Assert(c.Position.Index == n, "seeking moves the cursor")
	d := c.Clone()
	p := *c.Position
	for i := 1; i <= k; i++ {
		r := d.Next()
		sv.Assert(r == at(n+i) && d.Current() == r, "the clone of a cursor gives another character")
	}
	sv.Assert(*c.Position == p && c.Current() == at(n), "moving a clone moves the original")
	e := c.Clone()
	for i := 1; i <= k; i++ {
		c.Next()
	}
	sv.Assert(*c.Position == *d.Position && *e.Position == p, "the original and its clone come to different places")
	sv.Observe("n", num(n))
	sv.Cover("ahead")
}

// ---- K01: lists and sets of strings, predicates of tokens

func anyWordOf(n string) string {
	switch sv.Concrete(sv.Int(n+"len", 0, 2)) {
	case 0:
		return ""
	case 1:
		return string([]rune{sv.RuneIn(n+"a", "abAZ")})
	}
	return string([]rune{sv.RuneIn(n+"a", "abA"), sv.RuneIn(n+"b", "abA")})
}

func anyWords(n string, max int) []string {
	var l []string
	k := sv.Concrete(sv.Int(n, 0, max))
	for i := 0; i < k; i++ {
		l = append(l, anyWordOf(n+num(i)))
	}
	return l
}

func hasWord(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sameWords(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func anyChar(n string) string { return string([]rune{sv.RuneIn(n, "abA")}) }

func anyChars(n string, max int) []string {
	var l []string
	k := sv.Concrete(sv.Int(n, 0, max))
	for i := 0; i < k; i++ {
		l = append(l, anyChar(n+num(i)))
	}
	return l
}

// K01_Set: a set of up to three strings (of one character), one added, one removed: what it includes, its
// slice (sorted, each once), in every order of the hash table.
// cover: done
func K01_Set() {
	sv.MapOrders(1)
	l := anyChars("w", 3)
	s := ext.NewStringSet(l...)
	if sv.Concrete(sv.Int("change", 0, 1)) == 1 {
		x, y := anyChar("x"), anyChar("y")
		s.Add(x)
		l = append(append([]string{}, l...), x)
		s.Remove(y)
		var k []string
		for _, w := range l {
			if w != y {
				k = append(k, w)
			}
		}
		l = k
	}
	q := anyChar("q")
	sv.Assert(s.Include(q) == hasWord(l, q), "a set includes something else than what was added and not removed")
	var d []string
	for _, w := range l {
		if !hasWord(d, w) {
			d = append(d, w)
		}
	}
	sl := s.Slice()
	sv.Assert(len(sl) == len(d), "the slice of a set has more or fewer elements")
	for i, w := range sl {
		sv.Assert(hasWord(d, w), "the slice of a set has another element")
		if i > 0 {
			sv.Assert(sl[i-1] < w, "the slice of a set is not sorted, or repeats")
		}
	}
	sv.Observe("n", num(len(d)))
	sv.Cover("done")
}

// K01_Equal: two sets, or lists, of up to three strings of 0..2 characters: equal exactly when they have the same elements.
// cover: yes no
func K01_Equal() {
	a, b := anyWords("a", 2), anyWords("b", 3)
	var got, want bool
	if sv.Concrete(sv.Int("set", 0, 1)) == 1 {
		got = ext.NewStringSet(a...).Equal(ext.Strings(b).Set())
		want = true
		for _, w := range a {
			want = want && hasWord(b, w)
		}
		for _, w := range b {
			want = want && hasWord(a, w)
		}
	} else {
		got = ext.Strings(a).Equal(ext.Strings(b))
		want = sameWords(a, b)
	}
	if want {
		sv.Observe("equal", "yes")
		sv.Cover("yes")
	} else {
		sv.Observe("equal", "no")
		sv.Cover("no")
	}
	sv.Assert(got == want, "equality of string lists or sets is wrong")
}

// K01_List: the operations of a list of up to three strings of 0..2 characters; none but Sort changes the list.
// cover: done
func K01_List() {
	l := anyWords("w", 3)
	s := ext.Strings(append([]string{}, l...))
	switch sv.Concrete(sv.Int("op", 0, 7)) {
	case 0:
		q := anyWordOf("q")
		sv.Assert(s.Include(q) == hasWord(l, q), "Include is wrong")
	case 1:
		q, p := anyWordOf("q"), anyWordOf("p")
		var w []string
		for _, x := range l {
			if x != q && x != p {
				w = append(w, x)
			}
		}
		sv.Assert(sameWords(s.Exclude(q, p), w), "Exclude is wrong")
	case 2:
		q := anyWordOf("q")
		var w []string
		for _, x := range l {
			if x < q {
				w = append(w, x)
			}
		}
		sv.Assert(sameWords(s.Select(func(x string) bool { return x < q }), w), "Select is wrong")
	case 3:
		r := s.Reverse()
		sv.Assert(len(r) == len(l), "Reverse is wrong")
		for i := range r {
			sv.Assert(r[i] == l[len(l)-1-i], "Reverse is wrong")
		}
	case 4:
		r := s.Map(func(x string) string { return x + "!" })
		sv.Assert(len(r) == len(l), "Map is wrong")
		for i := range r {
			sv.Assert(r[i] == l[i]+"!", "Map is wrong")
		}
		u := s.ToUpper()
		sv.Assert(len(u) == len(l), "ToUpper is wrong")
		for i := range u {
			sv.Assert(len(u[i]) == len(l[i]), "ToUpper is wrong")
			for j := 0; j < len(u[i]); j++ {
				c := l[i][j]
				if c >= 'a' && c <= 'z' {
					c -= 32
				}
				sv.Assert(u[i][j] == c, "ToUpper is wrong")
			}
		}
	case 5:
		w := ""
		for i, x := range l {
			if i > 0 {
				w += "--"
			}
			w += x
		}
		sv.Assert(s.Join("--") == w, "Join is wrong")
	case 6:
		r := s.Interfaces()
		sv.Assert(len(r) == len(l), "Interfaces is wrong")
		for i := range r {
			x, ok := r[i].(string)
			sv.Assert(ok && x == l[i], "Interfaces is wrong")
		}
		in := []interface{}{1, s}
		in = append(in, r...)
		x, rest := ext.ExtractStrings(in...)
		sv.Assert(len(rest) == 1 && sameWords(x, append(append([]string{}, l...), l...)), "ExtractStrings is wrong")
	case 7:
		r := s.Sort()
		sv.Assert(len(r) == len(l), "Sort is wrong")
		for i, x := range r {
			sv.Assert(i == 0 || r[i-1] <= x, "Sort does not sort")
			n := 0
			for _, y := range r {
				if x == y {
					n++
				}
			}
			for _, y := range l {
				if x == y {
					n--
				}
			}
			sv.Assert(n == 0, "Sort changes the elements")
		}
		s = l
	}
	sv.Assert(sameWords(s, l), "an operation changes the list")
	sv.Observe("n", num(len(l)))
	sv.Cover("done")
}

// aToken is the first token of a text of one to three characters.
func aToken() (*token.Token, []rune) {
	var text []rune
	switch sv.Concrete(sv.Int("text", 0, 6)) {
	case 0:
		text = anyText(sv.Concrete(sv.Int("len", 0, 1)))
	case 1:
		text = inText("", 2, alphaSymbol, "")
	case 2:
		text = casedWord("word", []string{"begin", "do", "if", "of", "name", "forward", "platform", "true", "false", "index", "library"}[sv.Concrete(sv.Int("which", 0, 10))])
	case 3:
		text = []rune{sv.RuneIn("d", "0123456789"), '.', sv.RuneIn("e", "5a.")}
	case 4:
		text = []rune{'\'', sv.RuneIn("c", "ab"), '\''}
	case 5:
		// a string or comment that holds a word
		w := casedWord("word", []string{"do", "name", "forward", "platform", "true"}[sv.Concrete(sv.Int("which", 0, 4))])
		d := [][2]string{{"'", "'"}, {"{", "}"}, {"(*", "*)"}, {"//", ""}}[sv.Concrete(sv.Int("in", 0, 3))]
		text = append(append([]rune(d[0]), w...), []rune(d[1])...)
	case 6:
		// a word with one more character
		w := casedWord("word", []string{"do", "name", "forward", "platform", "true"}[sv.Concrete(sv.Int("which", 0, 4))])
		c := sv.RuneIn("c", "_0aZ'&")
		if sv.Concrete(sv.Int("before", 0, 1)) == 1 {
			text = append([]rune{c}, w...)
		} else {
			text = append(w, c)
		}
	}
	return token.NewTokenizer(&text, token.LoadSpace|token.LoadComment).GetNext(), text
}

// upperIs: the letters of t spell the upper case word w.
func upperIs(t []rune, w string) bool {
	if len(t) != len(w) {
		return false
	}
	for i := range t {
		c := t[i]
		if c >= 'a' && c <= 'z' {
			c -= 32
		}
		if c != rune(w[i]) {
			return false
		}
	}
	return true
}

// K01_Predicates: tokens of every class (symbols, words and reserved words in every letter case, numerals, strings, any character, strings and comments that hold a word, words with one more character)
// against the predicates: class, symbol, keyword, text, directive, and their negation, conjunction and disjunction.
// cover: yes no
func K01_Predicates() {
	t, text := aToken()
	raw := text[t.Start.Index:t.End.Index]
	typ := token.Type(sv.Concrete(sv.Int("type", 0, int(token.Unknown))))
	of := t.Type == typ
	var p token.Predicator
	var want bool
	switch sv.Concrete(sv.Int("pred", 0, 8)) {
	case 0:
		p, want = typ, of
	case 1:
		p, want = token.TokenType(typ), of
	case 2:
		s := []string{";", ":=", "..", "(", "<"}[sv.Concrete(sv.Int("sym", 0, 4))]
		p, want = token.Symbol([]rune(s)...), t.Type == token.SpecialSymbol && upperIs(raw, s)
	case 3:
		w := []string{"BEGIN", "DO", "OF"}[sv.Concrete(sv.Int("kw", 0, 2))]
		p, want = token.ReservedWord.HasKeyword(w), t.Type == token.ReservedWord && upperIs(raw, w)
	case 4:
		w := []string{"name", "NAME", "Index"}[sv.Concrete(sv.Int("txt", 0, 2))]
		p, want = token.Identifier.HasText(w), t.Type == token.Identifier && string(raw) == w
	case 5:
		w := []string{"NAME", "TRUE", "DO"}[sv.Concrete(sv.Int("up", 0, 2))]
		p, want = token.UpperCase(w), upperIs(raw, w)
	case 6:
		p, want = token.Directives("NAME", "FORWARD"), upperIs(raw, "NAME") || upperIs(raw, "FORWARD")
	case 7:
		p, want = token.PortabilityDirective, upperIs(raw, "PLATFORM") || upperIs(raw, "LIBRARY") || upperIs(raw, "DEPRECATED")
	case 8:
		w := []string{"name", ";", "DO"}[sv.Concrete(sv.Int("val", 0, 2))]
		p, want = token.Value(w), string(raw) == w && t.Type != token.ReservedWord || t.Type == token.ReservedWord && upperIs(raw, w)
	}
	switch sv.Concrete(sv.Int("how", 0, 5)) {
	case 1:
		p, want = token.Not(p), !want
	case 2:
		p, want = token.Some(p, typ), want || of
	case 3:
		p, want = token.Every(p, typ), want && of
	case 4:
		p, want = token.Every(p, token.Not(typ), token.Not(token.Space)), want && !of && t.Type != token.Space
	case 5:
		p, want = token.Some(typ, p, token.EOF), want || of || t.Type == token.EOF
	}
	if want {
		sv.Observe("is", "yes")
		sv.Cover("yes")
	} else {
		sv.Observe("is", "no")
		sv.Cover("no")
	}
	sv.Assert(p.Predicate(t) == want, "a predicate gives the wrong answer")
	sv.Assert(t.Is(p) == want, "Is gives the wrong answer")
}

// K01_Token: value, length and text of tokens of every class; the manifest constants.
// cover: done
func K01_Token() {
	t, text := aToken()
	raw := text[t.Start.Index:t.End.Index]
	v := t.Value()
	if t.Type == token.ReservedWord {
		sv.Assert(upperIs(raw, v), "the value of a reserved word is not its upper case text")
		for i := 0; i < len(v); i++ {
			sv.Assert(v[i] >= 'A' && v[i] <= 'Z', "the value of a reserved word is not in upper case")
		}
	} else {
		sv.Assert(v == string(raw), "the value of a token is not its text")
	}
	sv.Assert(t.RawString() == string(raw) && t.Len() == len(raw), "the text or length of a token is wrong")
	c := t.Clone()
	sv.Assert(c != t && shot(c).same(shot(t)), "a clone of a token differs from it")
	sv.Assert(ast.IsManifestConstant(string(raw)) == (upperIs(raw, "TRUE") || upperIs(raw, "FALSE")), "the manifest constants are not TRUE and FALSE")
	sv.Observe("type", num(int(t.Type)))
	sv.Cover("done")
}

// T04_Copies: any text of up to 3 characters; any of its tokens, positions and its cursor are cloned, and one of the two is changed by any amount.
// cover: token position cursor
func T04_Copies() {
	sv.Budget(tokenBudget)
	text := anyText(sv.Concrete(sv.Int("len", 0, 3)))
	a := token.NewTokenizer(&text, token.LoadSpace|token.LoadComment)
	t := a.GetNext()
	if sv.Concrete(sv.Int("second", 0, 1)) == 1 {
		t = a.GetNext()
	}
	by := sv.Int("by", 1, 3)
	move := func(p *runes.Position) {
		p.Index += by
		p.Line += by
		p.Col += by
	}
	swap := sv.Concrete(sv.Int("original", 0, 1)) == 1
	switch sv.Concrete(sv.Int("what", 0, 2)) {
	case 0:
		sv.Cover("token")
		c := t.Clone()
		s := shot(t)
		sv.Assert(s.same(shot(c)), "a clone of a token is another token")
		if swap {
			t, c = c, t
		}
		move(c.Start)
		move(c.End)
		c.Type = token.EOF
		sv.Assert(s.same(shot(t)), "changing the clone of a token changes the token")
	case 1:
		sv.Cover("position")
		p := *t.End
		x, y := t.End, t.End.Clone()
		sv.Assert(*y == p, "a clone of a position is another position")
		if swap {
			x, y = y, x
		}
		move(y)
		sv.Assert(*x == p, "changing the clone of a position changes the position")
	case 2:
		sv.Cover("cursor")
		x := a.Cursor
		y := x.Clone()
		p := *x.Position
		sv.Assert(y.Text == x.Text && y.Len == x.Len && *y.Position == p, "a clone of a cursor is another cursor")
		if swap {
			x, y = y, x
		}
		move(y.Position)
		y.Len = 0
		sv.Assert(*x.Position == p && x.Len == len(text), "changing the clone of a cursor changes the cursor")
	}
	sv.Observe("result", num(t.Start.Line))
}
