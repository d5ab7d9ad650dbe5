package h

import (
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// ---- Y01: one text after another with the same parser

func again1(p *parser.Parser, entry int, t []rune) *real {
	x := &real{noWalk: true}
	d := &dump{}
	x.on(p, entry, append([]rune{}, t...), d, true, false)
	if x.err != nil {
		x.none = false
	}
	x.items = d.out
	return x
}

func blanks(n int) []rune {
	t := make([]rune, n)
	for i := range t {
		t[i] = ' '
	}
	return t
}

// texts that use names after the declarations of other texts
var afterwards = []scoped{
	{eDecls, "const zzz = ? ;"},
	{eDecls, "procedure zzz ; begin ? := ? end ;"},
	{eStmt, "? := ?"},
	{eTypes, "type zzz = ? ; zzzz = ^ ? ;"},
	{eExpr, "? ( ? ) + 1"},
	{eDecls, "var ? : ? ;"},
	{eDecls, "procedure zzz ( ? : Byte ) ; begin ? end ;"},
}

func namedAs(s, tag string) []rune {
	var t []rune
	n := 0
	for _, w := range words(s) {
		if w == "?" {
			t = append(t, sv.RuneIn(tag+num(n), letters))
			n++
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	return t
}

// refTwice runs the reference on both texts in the same scope; first is the number of
// items of the first, done tells whether it was read to its end.
func refTwice(e1 int, t1 []rune, e2 int, t2 []rune) (res refResult, first int, done bool) {
	r := newRef(append(append([]rune{}, t1...), t2...))
	res.r = r
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(*refStop)
			if !ok {
				panic(x)
			}
			res.stop = s
		}
	}()
	r.entry(e1)
	first, done = len(r.out), true
	sv.Assert(r.tok(r.i).s == len(t1), "the reference does not read the first text to its end")
	r.entry(e2)
	return
}

// Y01_Names: 26 texts that declare names in all forms and scopes, then another of 7 texts that uses or declares names, with any names, the second with the same
// parser: it sees what the first declares in its outermost scope, and nothing of its inner scopes.
// cover: accept reject
func Y01_Names() {
	a := scopes[sv.Concrete(sv.Int("text", 0, 25))]
	t1 := named(a.text)
	b := afterwards[sv.Concrete(sv.Int("after", 0, len(afterwards)-1))]
	t2 := namedAs(b.text, "later")
	want, first, done := refTwice(a.entry, t1, b.entry, t2)
	if !done || want.stop != nil && want.stop.kind == "unspecified" {
		return
	}
	p := parser.NewParser(parser.NewProgramContext(progPath))
	x := again1(p, a.entry, t1)
	sv.Assert(x.err == nil, "a text of the grammar is rejected")
	y := again1(p, b.entry, append(blanks(len(t1)), t2...))
	if want.stop != nil {
		sv.Cover("reject")
		sv.Observe("result", "rejected")
		sv.Assert(y.err != nil, "a name is declared twice in one scope")
		return
	}
	sv.Cover("accept")
	sv.Observe("result", num(len(y.items)))
	sv.Assert(y.err == nil && !y.none, "a text is rejected after another one")
	sameItems(nil, y.items, want.r.out[first:], cmpRefs)
	unchanged(x)
}

// unchanged: what was built for an earlier text stays as it was.
func unchanged(x *real) {
	if x.again == nil {
		return
	}
	d := &dump{}
	x.again(d)
	sameItems(nil, d.out, x.items, cmpRefs)
}

// types that may refer to one declared later, and texts that declare one
var hanging = []scoped{
	{eTypes, "type ? = ^ ? ; ? = Byte ;"},
	{eTypes, "type ? = class of ? ; ? = class end ;"},
	{eDecls, "type ? = ^ ? ; var ? : ^ ? ;"},
	{eTypes, "type ? = class ; ? = record ? : ^ ? ; end ;"},
	{eStmt, "? := ?"},
}
var hung = []scoped{
	{eTypes, "type ? = Word ;"},
	{eTypes, "type ? = class end ;"},
	{eDecls, "const ? = 1 ; type ? = ( ? ) ;"},
	{eDecls, "procedure ? ( ? : Byte ) ; begin ? end ;"},
}

// Y01_Kept: 5 texts of types that may refer to types declared later, and then, with the same parser, one of 4 texts that declare names, all with any names: the tree of
// the first stays as it was.
// cover: accept reject
func Y01_Kept() {
	a := hanging[sv.Concrete(sv.Int("text", 0, len(hanging)-1))]
	b := hung[sv.Concrete(sv.Int("after", 0, len(hung)-1))]
	t1 := named(a.text)
	p := parser.NewParser(parser.NewProgramContext(progPath))
	x := again1(p, a.entry, t1)
	if x.err != nil {
		sv.Cover("reject")
		return
	}
	sv.Cover("accept")
	again1(p, b.entry, append(blanks(len(t1)), namedAs(b.text, "later")...))
	unchanged(x)
	sv.Observe("result", num(len(x.items)))
}

// texts with more than one parameter, and scopes in scopes
var innermost = []scoped{
	{eTypes, "type ? = procedure ( ? : Byte ; var ? : Word ) of object ; ? = Byte ;"},
	{eDecls, "type ? = function ( ? : Byte ; const ? ) : Word ; var ? : procedure ( ? , ? : Byte ; out ? ) ;"},
	{eTypes, "type ? = class ? : Byte ; procedure ? ( ? : Byte ; ? : Word ) ; virtual ; function ? ( ? : Byte ; ? ) : Word ; end ;"},
	{eTypes, "type ? = class constructor ? ( ? : Byte ; ? : Word ) ; destructor ? ( ? : Byte ; ? : Word ) ; end ;"},
	{eTypes, "type ? = class property ? [ ? : Byte ; ? : Word ] : Char read ? write ? ; end ;"},
	{eDecls, "procedure ? ( ? : Byte ; ? : Word ) ; const ? = 1 ; label ? ; type ? = ( ? , ? ) ; var ? : Byte ; begin ? end ; const ? = 1 ;"},
	{eDecls, "procedure ? ; procedure ? ( ? : Byte ; ? : Word ) ; var ? : ( ? , ? ) ; begin try ? except on ? : Word do try ? except on ? : Byte do ? end end end ; begin ? end ;"},
	{eStmt, "try ? except on ? : Byte do begin ? end ; on ? : Byte do if ? then ? ; else ? end"},
}

// Y01_Broken: 34 texts cut off after any word, with names that are letters of their own, then a text that uses any name with
// the same parser: if the name is not declared in the outermost scope before the end, it denotes nothing.
// cover: inner outer
func Y01_Broken() {
	all := append(append([]scoped{}, scopes[:26]...), innermost...)
	a := all[sv.Concrete(sv.Int("text", 0, len(all)-1))]
	ws := words(a.text)
	cut := sv.Concrete(sv.Int("cut", 1, len(ws)-1))
	var t1 []rune
	own := []rune("klmnopqrstuvwxy")
	n := 0
	for _, w := range ws[:cut] {
		if w == "?" {
			t1 = append(t1, own[n])
			n++
		} else {
			t1 = append(t1, []rune(w)...)
		}
		t1 = append(t1, ' ')
	}
	later := sv.RuneIn("later", letters)
	p := parser.NewParser(parser.NewProgramContext(progPath))
	x := again1(p, a.entry, t1)
	res := runRef(a.entry, t1)
	if res.stop != nil && res.stop.kind == "unspecified" {
		return
	}
	sv.Assert((x.err != nil) == (res.stop != nil), "a text outside the grammar is accepted, or one of it rejected")
	outer := false
	for _, d := range rootOf(res.r).decls {
		outer = outer || sameName(d.name, []rune{later})
	}
	y := again1(p, eExpr, []rune{later})
	sv.Assert(y.err == nil && len(y.items) > 0, "an expression is rejected after another text")
	for _, i := range y.items {
		if i.k != 'r' {
			continue
		}
		if outer {
			sv.Cover("outer")
		} else {
			sv.Cover("inner")
			sv.Assert(i.ref == refUnbound, "a name of an inner scope of an earlier text is still known")
		}
	}
	sv.Observe("result", num(len(y.items)))
}

func rootOf(r *ref) *rscope {
	s := r.sc
	for s.up != nil {
		s = s.up
	}
	return s
}

// texts with names that no text of the corpus has
var probes = []scoped{
	{eExpr, "x1 + x2 * Integer ( x3 . x4 ) in [ 1 .. x5 ]"},
	{eStmt, "begin x1 := 1 ; try x2 except on x3 : Byte do x3 end ; x3 end"},
	{eTypes, "type X1 = ^ X2 ; X2 = record x3 : X1 ; end ; X4 = class ; X5 = class ( X4 ) x6 : X4 ; property x7 : X4 read x6 ; end ; X4 = class end ; X8 = class of X4 ;"},
	{eDecls, "procedure x1 ( x2 : Byte ) ; var x3 : Word ; begin x2 := x3 end ; const x4 = x2 ;"},
	{eBlock, "label x1 ; var x2 : ( x3 , x4 ) ; begin x1 : x2 := x3 end"},
	{eStmt, "if x1 then x2 else begin"},
	{eTypes, "type X1 = class x2 : Byte ; property x3 : Byte read x4 ; end ;"},
	{eDecls, "function x1 : Byte ; external 'x2' ; var x3 : ;"},
}

func probeAfter(e int, t []rune) {
	b := probes[sv.Concrete(sv.Int("probe", 0, len(probes)-1))]
	t2 := []rune(b.text)
	p := parser.NewParser(parser.NewProgramContext(progPath))
	x := again1(p, e, t)
	y := again1(p, b.entry, t2)
	z := again1(parser.NewParser(parser.NewProgramContext(progPath)), b.entry, t2)
	if x.err == nil {
		sv.Cover("accept")
	} else {
		sv.Cover("reject")
	}
	sameOutcome(y, z)
	unchanged(x)
	sv.Assert(y.none == z.none, "the same text gives two different trees")
	if z.rest != nil {
		sv.Assert(y.rest != nil && y.rest.Start.Index == z.rest.Start.Index && y.rest.Type == z.rest.Type, "after another text, something else follows")
	}
	sv.Observe("result", num(len(y.items)))
}

// aCut: any of the texts of expressions, statements, types, classes and declarations, whole, cut off after any word or without any word.
func aCut() (int, []rune) {
	c := corpus[sv.Concrete(sv.Int("entry", 0, 4))]
	l := words(c.texts[sv.Concrete(sv.Int("text", 0, len(c.texts)-1))])
	at := sv.Concrete(sv.Int("at", 0, len(l)-1))
	cut := sv.Concrete(sv.Int("cut", 0, 1)) == 1
	var t []rune
	for i, w := range l {
		if i > at && cut {
			break
		}
		if i != at || cut {
			t = append(append(t, []rune(w)...), '\n')
		}
	}
	return c.entry, t
}

// Y01_Texts: 92 texts of expressions, statements, types, classes and declarations, cut off after any word or without any one word, then any of 8 texts with other names
// (three of which are rejected): the same outcome as with a new parser.
// cover: accept reject
func Y01_Texts() {
	e, t := aCut()
	probeAfter(e, t)
}

// Y01X_Mutated: as Y01_Texts with any one word replaced or inserted.
// cover: accept reject
func Y01X_Mutated() {
	c := corpus[sv.Concrete(sv.Int("entry", 0, 4))]
	probeAfter(c.entry, mutated(c.texts))
}
