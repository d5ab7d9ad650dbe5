package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// every entry with its texts
var corpus = []struct {
	entry int
	texts []string
}{
	{eExpr, exprTexts}, {eStmt, stmtTexts}, {eTypes, typeTexts}, {eTypes, classTexts}, {eDecls, declTexts}, {eProgram, programTexts}, {eUnit, unitTexts},
}

func anyEntry() (int, []string) {
	c := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	return c.entry, c.texts
}

// ---- P01: crashes, endless loops, neither tree nor error

func survives(entry int, text []rune) {
	sv.Budget(budgetOf(text))
	sv.Observe("text", string(text))
	x := runRealAs(entry, text, true, true)
	if x.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		return
	}
	sv.Observe("result", num(len(x.items)))
	sv.Assert(!x.none, "neither a tree nor an error")
	sv.Cover("accept")
}

// P01_Mutated: 105 texts of all entries with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P01_Mutated() {
	e, t := anyEntry()
	survives(e, mutated(t))
}

// P01_Chars: the texts with any one character replaced by any Unicode character,
// or cut off after it.
// cover: accept reject
func P01_Chars() {
	e, t := anyEntry()
	survives(e, oneChar(t))
}

// P01_Exchanged: the texts with any two words exchanged, one moved, a run of 2..4
// words taken out or 1..4 doubled.
// cover: accept reject
func P01_Exchanged() {
	e, t := anyEntry()
	survives(e, exchanged(t))
}

// P01_Cut: the texts cut off before any word and followed by any one of 95 words.
// cover: accept reject
func P01_Cut() {
	e, t := anyEntry()
	survives(e, cutOff(t, 1))
}

// P01X_Cut: the texts cut off before any word and followed by any two of 95 words.
// cover: accept reject
func P01X_Cut() {
	e, t := anyEntry()
	survives(e, cutOff(t, 2))
}

func cutOff(texts []string, n int) []rune {
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	s := ""
	for _, w := range l[:sv.Concrete(sv.Int("at", 0, len(l)-1))] {
		s += w + " "
	}
	return soup(s, n, vocabulary, "")
}

// P01X_TwoWords: the texts with any two neighbouring words replaced or removed.
// cover: accept reject
func P01X_TwoWords() {
	e, t := anyEntry()
	survives(e, mutated2(t, vocabulary))
}

// P01_Any: all texts of 0..2 arbitrary Unicode characters, for every entry.
// cover: reject
func P01_Any() {
	e := sv.Concrete(sv.Int("entry", eExpr, eUnit))
	survives(e, anyText(sv.Concrete(sv.Int("len", 0, 2))))
}

// P01_Start: every sequence of 2 words of the vocabulary, for every entry.
// cover: accept reject
func P01_Start() {
	e := sv.Concrete(sv.Int("entry", eExpr, eUnit))
	survives(e, soup("", 2, vocabulary, ""))
}

// P01X_Start: every sequence of 4 words of the vocabulary, for every entry.
// cover: accept reject
func P01X_Start() {
	e := sv.Concrete(sv.Int("entry", eExpr, eUnit))
	survives(e, soup("", 4, vocabulary, ""))
}

// P01_Deep: 1..40 levels of 10 forms of nesting, closed, half closed, or not
// closed at all.
// cover: accept reject
func P01_Deep() {
	forms := []struct {
		entry                   int
		before, open, in, close string
		after                   string
	}{
		{eExpr, "", "( ", "a", ")", ""}, {eExpr, "", "[ ", "a", "]", ""}, {eExpr, "", "f ( ", "a", ")", ""}, {eExpr, "", "not ", "a", "", ""},
		{eStmt, "", "begin ", "a", " end", ""}, {eStmt, "", "if a then ", "b", " else c", ""}, {eStmt, "", "repeat ", "a", " until b", ""}, {eStmt, "", "try ", "a", " except end", ""},
		{eTypes, "type T = ", "record x : ", "Byte", " end", ";"}, {eTypes, "type T = ", "array of ", "Byte", "", ";"},
		{eStmt, "", "case a of 1 : ", "b", " end", ""},
	}
	f := forms[sv.Concrete(sv.Int("form", 0, len(forms)-1))]
	n := []int{1, 2, 3, 7, 20, 40}[sv.Concrete(sv.Int("n", 0, 5))]
	m := []int{n, n / 2, 0, n + 1}[sv.Concrete(sv.Int("closed", 0, 3))]
	survives(f.entry, []rune(f.before+repeat(n, f.open, "")+f.in+repeat(m, f.close, "")+f.after))
}

// P01_Files: programs whose unit files are missing, empty, or cut off anywhere.
// cover: accept reject
func P01_Files() {
	sv.Budget(parseBudget)
	text := []rune("unit a ; interface type T = Byte ; implementation initialization b end .")
	how := sv.Concrete(sv.Int("unit", 0, len(text)+1))
	if how <= len(text) {
		sv.File("a.pas", text[:how])
	}
	if sv.Concrete(sv.Int("program", 0, 3)) > 0 {
		sv.File("p.dpr", []rune("program p ; uses a in 'a.pas' ; var x : T ; begin end ."))
	}
	n, err := parser.ParseProgram("p.dpr")
	sv.Assert((n == nil) != (err == nil), "neither a tree nor an error, or both")
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		return
	}
	sv.Cover("accept")
	sv.Assert(n.Program != nil && len(n.Units) == 1 && n.Units[0] != nil, "an incomplete tree")
}

// ---- P07: malformed texts are rejected, accepted ones fully represented

const strict = onReject | onShape | onRest

// P07_Mutated: 105 texts of all entries with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P07_Mutated() {
	e, t := anyEntry()
	check(e, mutated(t), strict)
}

// P07_Chars: the texts with any one character replaced by any Unicode character,
// or cut off after it.
// cover: accept reject
func P07_Chars() {
	e, t := anyEntry()
	check(e, oneChar(t), strict)
}

// P07_Exchanged: the texts with any two words exchanged, one moved, a run of 2..4
// words taken out or 1..4 doubled.
// cover: accept reject
func P07_Exchanged() {
	e, t := anyEntry()
	check(e, exchanged(t), strict)
}

// P07X_TwoWords: the texts with any two neighbouring words replaced or removed.
// cover: accept reject
func P07X_TwoWords() {
	e, t := anyEntry()
	check(e, mutated2(t, vocabulary), strict)
}

// P07X_Start: every sequence of 4 words of the vocabulary, for every entry.
// cover: accept reject
func P07X_Start() {
	e := sv.Concrete(sv.Int("entry", eExpr, eUnit))
	check(e, soup("", 4, vocabulary, ""), strict)
}

// ---- E01: where errors are

// E01_Mutated: 105 texts of all entries, over several lines with comments, with
// any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func E01_Mutated() {
	e, t := anyEntry()
	check(e, mutatedOn(t, onLines), onError)
}

// E01_Exchanged: the texts with any two words exchanged, one moved, a run of 2..4
// words taken out or 1..4 doubled.
// cover: reject
func E01_Exchanged() {
	e, t := anyEntry()
	check(e, exchanged(t), onError)
}

// E01_Chars: the texts with any one character replaced by any Unicode character,
// or cut off after it (not starting with a line feed).
// cover: reject
func E01_Chars() {
	e, t := anyEntry()
	text := oneChar(t)
	sv.Assume(text[0] != '\n')
	check(e, text, onError)
}

// E01X_TwoWords: the texts with any two neighbouring words replaced or removed.
// cover: reject
func E01X_TwoWords() {
	e, t := anyEntry()
	check(e, mutated2(t, vocabulary), onError)
}

// ---- T03: where identifiers are

// T03_Idents: identifiers in the trees of 105 texts of all entries, over several
// lines with comments, with any one word replaced, removed or inserted.
// cover: accept
func T03_Idents() {
	e, t := anyEntry()
	check(e, mutatedOn(t, onLines), onPos)
}

// T03_Gaps: identifiers in the trees of the texts with any 3 characters out of
// blanks, line breaks and comment brackets in any one gap.
// cover: accept
func T03_Gaps() {
	e, t := anyEntry()
	text := withGap(t, func() []rune { return inText("", 3, " \n\r\t{}", "") })
	check(e, text, onPos)
}

// ---- W01: walking trees

// W01_Mutated: 105 texts of all entries with any one word replaced by any of 95 words, removed or inserted.
// cover: accept
func W01_Mutated() {
	e, t := anyEntry()
	check(e, mutated(t), onWalk)
}

// W01_Generated: all expressions, statements, type and other declaration
// sections, programs and units with at most 1 choice other than the plainest.
// cover: accept
func W01_Generated() {
	e := []int{eExpr, eStmt, eTypes, eDecls, eProgram, eUnit}[sv.Concrete(sv.Int("entry", 0, 5))]
	check(e, generated(e, 1), onWalk)
}

// W01X_Generated: as quick with at most 3 choices.
// cover: accept
func W01X_Generated() {
	e := []int{eExpr, eStmt, eTypes, eDecls, eProgram, eUnit}[sv.Concrete(sv.Int("entry", 0, 5))]
	check(e, generated(e, 3), onWalk)
}

// W01_Classes: all classes and routines with at most 2 choices other than the plainest.
// cover: accept
func W01_Classes() {
	if sv.Concrete(sv.Int("what", 0, 1)) == 0 {
		check(eTypes, genClass(2), onWalk)
	} else {
		check(eDecls, genRoutine(1), onWalk)
	}
}

type walkError struct{ n int }

func (walkError) Error() string { return "stop" }

// W01_Stops: the 105 texts, the callback failing at any one of the nodes.
// cover: stopped
func W01_Stops() {
	sv.Budget(parseBudget)
	c := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	x := &real{noWalk: true}
	text := []rune(c.texts[sv.Concrete(sv.Int("text", 0, len(c.texts)-1))])
	x = runRealAs(c.entry, text, true, false)
	if x.err != nil || len(x.roots) == 0 {
		return
	}
	total := 0
	for _, n := range x.roots {
		if err := astcore.WalkDown(n, func(ast.Node) error { total++; return nil }); err != nil {
			sv.Fail("WalkDown returns an error of its own")
		}
	}
	stop := 1 + sv.Concrete(sv.Int("stop", 0, 200))
	sv.Assume(stop <= total)
	n := 0
	for _, root := range x.roots {
		err := astcore.WalkDown(root, func(ast.Node) error {
			n++
			if n == stop {
				return walkError{n}
			}
			return nil
		})
		if n < stop {
			sv.Assert(err == nil, "WalkDown returns an error of its own")
			continue
		}
		sv.Cover("stopped")
		sv.Assert(n == stop, "WalkDown goes on after the callback failed")
		e, ok := err.(walkError)
		sv.Assert(ok && e.n == stop, "WalkDown does not return the callback's error")
		return
	}
}

// ---- P08: letter case

// sameTree: both outcomes are the same, apart from positions and the letter
// case of names.
func sameTree(a, b *real, fold bool, what string) {
	sv.Assert((a.err == nil) == (b.err == nil), what+" changes whether the text is accepted")
	if a.err != nil {
		sv.Cover("reject")
		return
	}
	sv.Cover("accept")
	sv.Assert(len(a.items) == len(b.items), what+" changes the tree")
	for i, x := range a.items {
		y := b.items[i]
		sv.Assert(x.k == y.k && x.rk == y.rk, what+" changes the tree or what a name refers to")
		if fold {
			sv.Assert(sameName([]rune(x.s), []rune(y.s)), what+" changes the tree")
		} else {
			sv.Assert(x.s == y.s, what+" changes the tree")
		}
		if x.k == 'r' {
			if x.ref < 0 || y.ref < 0 {
				sv.Assert(x.ref == y.ref, what+" changes what a name refers to")
			} else {
				sv.Assert(itemAt(a.items, x.ref) == itemAt(b.items, y.ref), what+" changes what a name refers to")
			}
		}
	}
}

func itemAt(l []item, p int) int {
	for i, x := range l {
		if x.k != '.' && x.p == p {
			return i
		}
	}
	return -1
}

// cased: the text, every letter outside quotes in either case.
func cased(s string) []rune {
	var t []rune
	quoted := false
	for i, r := range s {
		if r == '\'' {
			quoted = !quoted
		}
		if !quoted && ('a' <= r && r <= 'z' || 'A' <= r && r <= 'Z') {
			t = append(t, sv.RuneIn("c"+num(i), string([]rune{r | 32, r &^ 32})))
		} else {
			t = append(t, r)
		}
	}
	return t
}

func checkCase(entry int, plain, text []rune) {
	sv.Budget(parseBudget)
	sv.Observe("text", string(text))
	a := runReal(entry, plain)
	b := runReal(entry, text)
	sv.Observe("result", num(len(b.items)))
	sameTree(a, b, true, "letter case")
	for _, i := range b.items {
		if i.k != '.' {
			sv.Assert(i.p >= 0 && i.e <= len(text) && i.p <= i.e, "a name is not where it was written")
			sv.Assert(i.s == string(text[i.p:i.e]), "a name has another spelling than the one written")
		}
	}
}

// P08_Texts: 105 texts of all entries, every letter outside quotes in either case.
// cover: accept
func P08_Texts() {
	e, t := anyEntry()
	s := t[sv.Concrete(sv.Int("text", 0, len(t)-1))]
	checkCase(e, []rune(s), cased(s))
}

func generatedCases(fuel int) {
	e := []int{eExpr, eStmt, eTypes, eDecls, eProgram, eUnit}[sv.Concrete(sv.Int("entry", 0, 5))]
	g := &gen{fuel: fuel, both: true}
	g.entry(e)
	checkCase(e, g.t, g.t2)
}

// P08_Generated: all expressions, statements, declarations, programs and units
// with at most 1 choice other than the plainest, every letter of every
// word in either case.
// cover: accept
func P08_Generated() { generatedCases(1) }

// P08X_Generated: as quick with at most 2 choices.
// cover: accept
func P08X_Generated() { generatedCases(2) }

func upper(s string) string {
	t := []rune(s)
	for i, r := range t {
		if s[0] != '\'' && 'a' <= r && r <= 'z' {
			t[i] = r - 32
		}
	}
	return string(t)
}

var upperVocabulary = mapWords(vocabulary, upper)

func mapWords(l []string, f func(string) string) []string {
	out := make([]string, len(l))
	for i, w := range l {
		out[i] = f(w)
	}
	return out
}

// P08_Mutated: the texts with any one word replaced by any of 95 words: all in
// capitals or not, that word in capitals or not.
// cover: accept reject
func P08_Mutated() {
	e, texts := anyEntry()
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("at", 0, len(l)-1))
	k := sv.Int("word", 0, len(vocabulary)-1)
	var a, b []rune
	for i, w := range l {
		if i == at {
			for j := 0; j < 14; j++ {
				a = append(a, sv.WordRune(k, vocabulary, j))
				b = append(b, sv.WordRune(k, upperVocabulary, j))
			}
		} else {
			a = append(a, []rune(w)...)
			b = append(b, []rune(upper(w))...)
		}
		a, b = append(a, ' '), append(b, ' ')
	}
	checkCase(e, a, b)
}

// ---- P09: blanks and comments

var fillers = []string{"", "\n", "\t", "\r\n", "{c}", "{ ; ' (* }", "(* end *)", "(*)*)", "(* { ' *)", "// ' { (*\n", "{a}{b}", "\n\n{\n}\n", "//\n//\n", "{}", "(**)", "(***)", "{*)}"}

func checkGaps(entry int, plain, text []rune) {
	sv.Budget(parseBudget)
	sv.Observe("text", string(text))
	a := runReal(entry, plain)
	b := runReal(entry, text)
	sv.Observe("result", num(len(b.items)))
	sameTree(a, b, false, "what is between tokens")
}

// join puts the words together, the gap before word i given by gap(i); i may be
// the number of words.
func join(l []string, gap func(i int) []rune) []rune {
	var t []rune
	for i, w := range l {
		t = append(t, gap(i)...)
		t = append(t, []rune(w)...)
	}
	return append(t, gap(len(l))...)
}

func plainGap(i int) []rune {
	if i == 0 {
		return nil
	}
	return []rune{' '}
}

// P09_OneGap: the texts with any of 17 fillers in any one gap.
// cover: accept
func P09_OneGap() {
	e, texts := anyEntry()
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("gap", 0, len(l)))
	checkGaps(e, join(l, plainGap), join(l, func(i int) []rune {
		if i == at {
			return append(append([]rune{' '}, slot("filler", fillers)...), ' ')
		}
		return plainGap(i)
	}))
}

// P09_AllGaps: the texts with the same of 17 fillers in all gaps, with and
// without blanks around it.
// cover: accept
func P09_AllGaps() {
	e, texts := anyEntry()
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	k := sv.Concrete(sv.Int("filler", 1, len(fillers)-1))
	tight := sv.Concrete(sv.Int("tight", 0, 1)) == 1
	checkGaps(e, join(l, plainGap), join(l, func(i int) []rune {
		if tight && (i == 0 || l[i-1] != "/") {
			return []rune(fillers[k])
		}
		return []rune(" " + fillers[k] + " ")
	}))
}

// P09_Comment: the texts with a comment of any of the three kinds holding any
// two Unicode characters (that do not end it) in any one gap.
// cover: accept
func P09_Comment() {
	e, texts := anyEntry()
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("gap", 0, len(l)))
	kind := sv.Concrete(sv.Int("kind", 0, 2))
	x, y := sv.Rune("x"), sv.Rune("y")
	var c []rune
	switch kind {
	case 0:
		sv.Assume(x != '}' && y != '}')
		c = []rune{'{', x, y, '}'}
	case 1:
		sv.Assume(x != '*' && y != '*')
		c = []rune{'(', '*', x, y, '*', ')'}
	case 2:
		sv.Assume(!sv.In(x, "\n\r\f\v\u0085\u2028\u2029") && !sv.In(y, "\n\r\f\v\u0085\u2028\u2029"))
		c = []rune{'/', '/', x, y, '\n'}
	}
	checkGaps(e, join(l, plainGap), join(l, func(i int) []rune {
		if i == at {
			if i > 0 && l[i-1] == "/" {
				return append([]rune{' '}, c...)
			}
			return c
		}
		return plainGap(i)
	}))
}

// P09_Blanks: the texts with any two characters out of blank, tab, carriage
// return, line feed, vertical tab, form feed in any one gap.
// cover: accept
func P09_Blanks() {
	e, texts := anyEntry()
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("gap", 0, len(l)))
	x, y := sv.RuneIn("x", " \t\r\n\v\f"), sv.RuneIn("y", " \t\r\n\v\f")
	checkGaps(e, join(l, plainGap), join(l, func(i int) []rune {
		if i == at {
			return []rune{x, y}
		}
		return plainGap(i)
	}))
}

func wordy(r rune) bool {
	return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' || '0' <= r && r <= '9' || r == '_' || r == '\''
}

// P09_NoGap: the texts without blanks at any one place, or all places, where
// two tokens do not run together.
// cover: accept
func P09_NoGap() {
	e, texts := anyEntry()
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("gap", 1, len(l)))
	checkGaps(e, join(l, plainGap), join(l, func(i int) []rune {
		if i == 0 || i == len(l) || at < len(l) && i != at {
			return plainGap(i)
		}
		a, b := []rune(l[i-1]), []rune(l[i])
		x, y := a[len(a)-1], b[0]
		if wordy(x) && wordy(y) || !wordy(x) && !wordy(y) && x != ')' && x != ']' && x != ';' && y != ';' && y != ')' || (x == '-' || x == '+') || y == '.' || x == '.' {
			return plainGap(i)
		}
		return nil
	}))
}

// P09X_Mutated: the texts with any one word replaced, removed or inserted, and
// any of 16 fillers in all gaps.
// cover: accept reject
func P09X_Mutated() {
	e, texts := anyEntry()
	l := words(texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))])
	at := sv.Concrete(sv.Int("at", 0, len(l)-1))
	k := sv.Concrete(sv.Int("filler", 1, len(fillers)-1))
	w := slot("word", append([]string{" "}, vocabulary...))
	var a, b []rune
	for i := range l {
		if i == at {
			a, b = append(a, w...), append(b, w...)
		} else {
			a, b = append(a, []rune(l[i])...), append(b, []rune(l[i])...)
		}
		a = append(a, ' ')
		b = append(append(append(b, ' '), []rune(fillers[k])...), ' ')
	}
	checkGaps(e, a, b)
}
