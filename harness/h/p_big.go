package h

import (
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// Sizes: long lists, deep nestings, long names, many lines. What a text is made
// of is repeated up to some hundred times, around the powers of two and ten.

var sizes = []int{16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 257, 300}

func anySize() int { return sizes[sv.Concrete(sv.Int("size", 0, len(sizes)-1))] }

func anyLen() int {
	if n := sv.Concrete(sv.Int("n", 0, 12)); n > 0 {
		return n
	}
	return anySize()
}

func checkLong(f func(n int) (int, []rune)) {
	e, t := f(anyLen())
	check(e, t, faithful)
}

func anyLong() (int, []rune) {
	n := anyLen()
	switch sv.Concrete(sv.Int("of", 0, 4)) {
	case 0:
		return longP02(n)
	case 1:
		return longP03(n)
	case 2:
		return longP04(n)
	case 3:
		return longP05(n)
	}
	return longP06(n)
}

// times: the elements before 0 after, before 1 after and so on
func times(n int, before, after, sep string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		s += before + num(i) + after
	}
	return s
}

// P05_Long: classes with 1..12 (or any of 13 numbers up to 300) fields, methods,
// properties, sections, ancestors, parameters, index parameters and directives; so many
// classes.
// cover: accept
func P05_Long() { checkLong(longP05) }

func longP05(n int) (int, []rune) {
	s := "type "
	switch sv.Concrete(sv.Int("form", 0, 8)) {
	case 0:
		s += "C = class " + times(n, "f", ": Byte; ", "") + "end;"
	case 1:
		s += "C = class " + times(n, "f", "", ",") + ": Byte; end;"
	case 2:
		s += "C = class " + times(n, "procedure p", "(a: Byte); ", "") + "end;"
	case 3:
		s += "C = class f: Byte; " + times(n, "property p", ": Byte read f; ", "") + "end;"
	case 4:
		s += "C = class " + times(n, "public f", ": Byte; private procedure q; ", "") + "end;"
	case 5:
		s += "C = class(" + times(n, "a", "", ",") + ") end;"
	case 6:
		s += "C = class procedure p(" + times(n, "a", ": Byte", ";") + "); " + repeat(n, "virtual; ", "") + "end;"
	case 7:
		s += "C = class f: Byte; property p[" + times(n, "a", ": Byte", ";") + "]: Byte read f; end;"
	case 8:
		s += times(n, "c", " = class f: Byte; end", ";") + ";"
	}
	return eTypes, []rune(s)
}

// W01_Long: long lists and deep nestings (36 forms, 1..12 or any of 13 numbers up to 300 elements).
// cover: accept
func W01_Long() {
	e, t := anyLong()
	check(e, t, onWalk)
}

// P01_Long: long lists and deep nestings (36 forms, 1..12 or any of 13 numbers up to
// 300 elements), complete or cut off behind any of 12 parts.
// cover: accept reject
func P01_Long() {
	e, t := anyLong()
	k := sv.Concrete(sv.Int("cut", 1, 12))
	survives(e, t[:len(t)*k/12])
}

// ---- long tokens, many lines

var tokenSizes = []int{63, 64, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 1025}

// bigText: a run of n characters of any class, any character, and an end.
func bigText() []rune {
	n := tokenSizes[sv.Concrete(sv.Int("size", 0, len(tokenSizes)-1))]
	runs := []struct{ before, c, after string }{{"", "a", " b"}, {"", "7", ".."}, {"7.", "0", " b"}, {"'", "q", "' b"}, {"{", "c", "} b"}, {"(*", "c", "*) b"}, {"//", "c", "\nb"},
		{"a", " ", "b"}, {"a", "\n", "b"}, {"a", "\r\n", "b"}, {"", "(", ")"}, {"{", "\n", "} b"}, {"'", "\n", "' b"}, {"a", "\t", "b"}, {"", "b ", "c"}, {"", "x;\n", "y"}}
	r := runs[sv.Concrete(sv.Int("run", 0, len(runs)-1))]
	t := []rune(r.before)
	c := []rune(r.c)
	for i := 0; i < n; i++ {
		t = append(t, c...)
	}
	if sv.Concrete(sv.Int("any", 0, 1)) == 1 {
		t = append(t, sv.Rune("r"))
	}
	return append(t, []rune(r.after)...)
}

const bigBudget = 60000000

// T01_Big: runs of 63..1025 (any of 14 numbers) characters in 16 forms (words, numerals, strings,
// comments, blanks, lines, symbols), then any character or none, and an end.
func T01_Big() { sv.Budget(bigBudget); checkReproduce(bigText()) }

// T02_Big: as T01_Big.
func T02_Big() { sv.Budget(bigBudget); checkClasses(bigText()) }

// T03_Big: as T01_Big.
func T03_Big() { sv.Budget(bigBudget); checkPositions(bigText()) }

// E01_Big: an unexpected word behind as many lines, blanks or words (any of 20 numbers from 63 to 70000), or itself as long.
// cover: reject
func E01_Big() {
	l := append([]int{4096, 9999, 10000, 32768, 65536, 70000}, tokenSizes...)
	n := l[sv.Concrete(sv.Int("size", 0, len(l)-1))]
	s := ""
	switch sv.Concrete(sv.Int("form", 0, 5)) {
	case 0:
		s = "begin " + repeat(n, "\n", "") + "a b end"
	case 1:
		s = "begin " + repeat(n, " ", "") + "a b end"
	case 2:
		s = "begin a := {" + repeat(n, "c\n", "") + "} end"
	case 3:
		s = "begin a := (b " + repeat(n, "c", "") + ") end"
	case 4:
		s = "begin a := (b '" + repeat(n, "c", "") + "' ) end"
	case 5:
		s = "begin a := 1 +\r\n" + repeat(n, "\t", "") + "* 2 end"
	}
	sv.Budget(bigBudget)
	compare(eStmt, []rune(s), onError)
}

// E01_Files: a program with two units, each of the three files on several lines with comments
// and with any one word replaced by any of 14 words, removed or doubled: the error names
// the file it is in.
// cover: reject
func E01_Files() {
	sv.Budget(parseBudget)
	texts := []string{
		"program pp ; uses ua in 'd/ua.pas' , ub in 'ub.pas' ; var v : Byte ; begin v := 1 + 2 end .",
		"unit ua ; interface uses ub ; type T = record f : Byte end ; procedure p ( x : T ) ; implementation procedure q ; begin r ( 1 ) end ; initialization q end .",
		"unit ub ; interface const c = 1 ; implementation uses ua ; var z : Char ; initialization finalization s := t ^ end .",
	}
	paths := []string{"pp.dpr", "d/ua.pas", "ub.pas"}
	k := sv.Concrete(sv.Int("file", 0, 2))
	wrong := []rune{}
	for i, s := range texts {
		l := words(s)
		var t []rune
		at := -1
		if i == k {
			at = sv.Concrete(sv.Int("at", 0, len(l)-1))
		}
		for j, w := range l {
			if j == at {
				m := sv.Concrete(sv.Int("word", 0, 15))
				switch {
				case m < 14:
					w = []string{"end", "begin", ";", ":", "1", "'s'", "zz", ")", "(", "interface", "of", "=", ".", "?"}[m]
				case m == 14:
					w = w + " " + w
				default:
					w = ""
				}
			}
			t = append(t, []rune(w)...)
			if j%5 == 4 {
				t = append(t, []rune("\n  { }")...)
			}
			t = append(t, ' ')
		}
		sv.File(paths[i], t)
		if i == k {
			wrong = t
		}
	}
	entry := eUnit
	if k == 0 {
		entry = eProgram
	}
	p, err := parser.ParseProgram("pp.dpr")
	want := runRef(entry, wrong)
	sv.Assert((p == nil) != (err == nil), "neither a tree nor an error, or both")
	if err == nil {
		sv.Observe("result", "accepted")
		return
	}
	sv.Observe("result", "rejected")
	if want.stop == nil || want.stop.kind == "unspecified" || want.stop.dup {
		return
	}
	sv.Cover("reject")
	placeIn(paths[k], err, wrong, want.stop, want.r)
}

// ---- names and scopes

// R01_Long: names of 1..257 characters (any of 12 lengths) that end with any letter, in scopes
// within each other; also as names of types, units' declarations and labels.
// cover: accept
func R01_Long() {
	n := []int{0, 7, 8, 15, 16, 31, 32, 62, 63, 64, 127, 256}[sv.Concrete(sv.Int("size", 0, 11))]
	check(longNames(n))
}

// R02_Long: as R01_Long; accepted exactly when no scope declares a name twice.
// cover: accept reject
func R02_Long() {
	n := []int{0, 7, 8, 15, 16, 31, 32, 62, 63, 64, 127, 256}[sv.Concrete(sv.Int("size", 0, 11))]
	e, t, _ := longNames(n)
	check(e, t, onAccept|onReject)
}

func longNames(n int) (int, []rune, int) {
	l := []scoped{
		{eBlock, "var ? , ? : Byte ; procedure pp ( ? : Byte ) ; begin ? := ? end ; begin ? end"},
		{eBlock, "type ? = Byte ; ? = ? ; var ? : ? ; begin end"},
		{eBlock, "const ? = 1 ; procedure ? ; var ? : Char ; begin ? := ? end ; begin ? end"},
		{eTypes, "type T = class ? , ? : Byte ; property pp : Byte read ? write ? ; end ;"},
	}
	s := l[sv.Concrete(sv.Int("text", 0, len(l)-1))]
	pre := []rune(repeat(n, "n", ""))
	var t []rune
	k := 0
	for _, w := range words(s.text) {
		if w == "?" {
			t = append(t, pre...)
			t = append(t, sv.RuneIn("name"+num(k), letters))
			k++
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	return s.entry, t, onRefs | onAccept
}

// R01_Deep: routines within each other (1..12 or any of 13 numbers up to 300 levels), each with
// a parameter, every third with a local variable of any name; that name used on any of four levels.
// cover: accept
func R01_Deep() {
	n := anyLen()
	x, y := letter("x"), letter("y")
	at := []int{0, n / 2, n - 1, n}[sv.Concrete(sv.Int("at", 0, 3))]
	t := []rune("var ")
	t = append(t, x...)
	t = append(t, []rune(" : Byte ; ")...)
	for i := 0; i < n; i++ {
		t = append(t, []rune("procedure pp"+num(i)+" ( qq"+num(i)+" : Byte ) ; ")...)
		if i%3 == 1 {
			t = append(t, []rune("var ")...)
			t = append(t, x...)
			t = append(t, []rune(" : Char ; ")...)
		}
	}
	for i := n; i >= 0; i-- {
		t = append(t, []rune("begin ")...)
		if i == at {
			t = append(t, y...)
			t = append(t, []rune(" := qq0 ; pp0 ( qq"+num(n-1)+" ) ")...)
		}
		if i > 0 {
			t = append(t, []rune("end ; ")...)
		}
	}
	t = append(t, []rune("end")...)
	check(eBlock, t, onRefs|onAccept)
}

// R01_Many: a scope with 1..12 (or any of 13 numbers up to 300) declarations of five forms, a
// use of the first, the middle and the last of them, and of any other name.
// cover: accept
func R01_Many() {
	e, t := manyDecls(anyLen(), "")
	check(e, t, onRefs|onAccept)
}

// R02_Many: as R01_Many, a further declaration with the name of the first, the middle, the
// last, or of none of them, in either letter case.
// cover: accept reject
func R02_Many() {
	n := anyLen()
	k := []int{0, n / 2, n - 1, n}[sv.Concrete(sv.Int("again", 0, 3))]
	e, t := manyDecls(n, string([]rune{sv.RuneIn("case", "nN")})+"ame"+num(k))
	check(e, t, onAccept|onReject)
}

func manyDecls(n int, more string) (int, []rune) {
	forms := []string{"var % : Byte ;", "const % = 1 ;", "type % = Byte ;", "procedure % ; begin end ;", "type ee% = ( % ) ;"}
	first := sv.Concrete(sv.Int("first", 0, len(forms)-1))
	s := ""
	for i := 0; i < n; i++ {
		for _, w := range words(forms[(first+i)%len(forms)]) {
			switch w {
			case "%":
				w = "name" + num(i)
			case "ee%":
				w = "ee" + num(i)
			}
			s += w + " "
		}
	}
	t := []rune(s)
	if more != "" {
		t = append(t, []rune("var ")...)
		t = append(t, []rune(more)...)
		t = append(t, []rune(" : Char ; ")...)
	}
	return eBlock, append(t, []rune("begin x ( name0 , NAME"+num(n/2)+" , Name"+num(n-1)+" , name"+num(n)+" ) end")...)
}
