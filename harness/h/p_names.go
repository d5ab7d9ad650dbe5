package h

import (
	"github.com/akm/tparser/ast"
	"tpharness/sv"
)

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// named: the text with every "?" any one-letter name.
func named(s string) []rune {
	var t []rune
	n := 0
	for _, w := range words(s) {
		if w == "?" {
			t = append(t, sv.RuneIn("name"+num(n), letters))
			n++
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	return t
}

type scoped struct {
	entry int
	text  string
}

func anyNamed(l []scoped) (int, []rune) {
	s := l[sv.Concrete(sv.Int("text", 0, len(l)-1))]
	return s.entry, named(s.text)
}

// texts in which every "?" is a name: declarations of all kinds in all scopes
// and uses of names
var scopes = []scoped{
	{eBlock, "var ? : Byte ; procedure pp ( ? : Byte ) ; var ? : Word ; begin ? := 1 end ; begin ? := 2 end"},
	{eBlock, "var ? , ? : Byte ; procedure ? ; begin ? := ? end ; begin end"},
	{eBlock, "const ? = 1 ; var ? : Byte ; begin ? := ? + ? end"},
	{eBlock, "const ? = 1 ; ? = ? + 1 ; begin ? end"},
	{eBlock, "type ? = ( ? , ? ) ; var ? : Byte ; begin ? := ? end"},
	{eBlock, "type ? = Byte ; var ? : ? ; begin ? ( ? ) end"},
	{eBlock, "type ? = record ? : Byte ; ? : Char end ; var ? : ? ; begin ? end"},
	{eBlock, "type ? = procedure ( ? : Byte ) ; var ? : ? ; begin ? := ? end"},
	{eBlock, "type ? = class ? : Byte ; procedure ? ( ? : Byte ) ; end ; begin ? := ? end"},
	{eBlock, "type ? = class ? : Byte ; property ? [ ? : Byte ] : Char ; end ; begin ? := ? end"},
	{eBlock, "threadvar ? : Byte ; label ? ; begin ? := ? end"},
	{eBlock, "label ? ; begin ? : ? ; goto ? end"},
	{eBlock, "var ? : Byte ; procedure pp ; var ? : Byte ; procedure qq ( ? : Byte ) ; begin ? end ; begin ? end ; begin ? end"},
	{eBlock, "procedure ? ; begin ? end ; procedure ? ; begin ? end ; begin ? end"},
	{eBlock, "procedure ? ( ? : Byte ) ; forward ; procedure ? ( ? : Byte ) ; begin ? end ; begin ? end"},
	{eBlock, "function ? ( ? : Byte ) : Word ; begin ? := ? end ; begin ? := ? end"},
	{eBlock, "procedure ? ( ? : Byte ) ; external 'x' ; begin ? ( ? ) end"},
	{eBlock, "procedure ? ( ? , ? : Byte ; var ? ) ; begin ? end ; begin end"},
	{eBlock, "var ? : Byte ; begin try ? except on ? : Integer do ? := ? ; on Word do ? end ; ? end"},
	{eBlock, "begin try aa except on ? : Word do try ? except on ? : Byte do ? end end ; ? end"},
	{eBlock, "procedure pp ( ? : Byte ) ; begin try aa except on ? : Word do ? end ; ? end ; begin ? end"},
	{eBlock, "var ? : ( ? , ? ) ; const ? = ? ; begin end"},
	{eBlock, "var ? : array [ ? .. ? ] of Byte ; ? : set of ( ? ) ; begin ? end"},
	{eBlock, "procedure pp ; const ? = 1 ; type ? = Byte ; var ? : ? ; begin ? end ; var ? : Byte ; begin ? end"},
	{eBlock, "const ? = 1 ; procedure pp ; const ? = ? ; begin ? end ; begin ? end"},
	{eBlock, "var ? : Byte ; procedure pp ( ? : Byte = ? ) ; begin ? end ; begin end"},
	{eProgram, "program ? ; uses ? , ? ; var ? : Byte ; begin ? end ."},
	{eProgram, "program pp ; uses ? ; procedure ? ; var ? : Byte ; begin ? end ; begin ? end ."},
	{eUnit, "unit uu ; interface var ? : Byte ; procedure ? ( ? : Byte ) ; implementation procedure ? ( ? : Byte ) ; begin ? end ; initialization ? end ."},
	{eUnit, "unit uu ; interface procedure ? ; overload ; procedure ? ( aa : Byte ) ; overload ; implementation procedure ? ; begin ? end ; initialization ? end ."},
	{eUnit, "unit uu ; interface const ? = 1 ; implementation var ? : Byte ; initialization ? := ? finalization ? end ."},
	{eUnit, "unit uu ; interface uses ? ; type ? = ( ? ) ; implementation uses ? ; const ? = ? ; end ."},
	{eUnit, "unit ? ; interface var ? : Byte ; implementation var ? : Byte ; initialization ? end ."},
	{eUnit, "unit uu ; interface type ? = class ; ? = class ? : ? ; end ; implementation var ? : ? ; end ."},
}

// R01_Names: 34 texts with up to 9 names, each any letter in either case, declared
// in all forms and scopes and used.
// cover: accept
func R01_Names() {
	e, t := anyNamed(scopes)
	check(e, t, onRefs|onAccept)
}

// R02_Names: as R01_Names; accepted exactly when no scope declares a name twice.
// cover: accept reject
func R02_Names() {
	e, t := anyNamed(scopes)
	check(e, t, onReject|onAccept)
}

// forms of declaration in a block; "?" is the declared name
var declForms = []string{
	"const ? = 1 ;", "const ? : Byte = 1 ;", "var ? : Byte ;", "var zz , ? : Byte ;", "threadvar ? : Byte ;", "type ? = Byte ;", "type ? = record end ;", "type yy = ( xx , ? ) ;", "label ? ;",
	"procedure ? ; begin end ;", "function ? : Byte ; begin end ;", "procedure ? ; external ;", "type ? = class end ;", "type ? = class ;", "type ? = class ; ? = class end ;", "var ww : ( ? ) ;", "var vv : set of ( ? , uu ) ;",
}

// R02_Pairs: every two of 17 forms of declaration, one after the other in one
// block, or the second in a routine (as parameter or local), for any names.
// cover: accept reject
func R02_Pairs() {
	a := declForms[sv.Concrete(sv.Int("a", 0, len(declForms)-1))]
	b := declForms[sv.Concrete(sv.Int("b", 0, len(declForms)-1))]
	var s string
	switch sv.Concrete(sv.Int("where", 0, 4)) {
	case 0:
		s = a + " " + b + " begin ? end"
	case 1:
		s = a + " procedure rr ; " + b + " begin ? end ; begin ? end"
	case 2:
		s = a + " procedure rr ( ? : Byte ) ; begin ? end ; begin end"
	case 3:
		s = "procedure rr ( ? : Byte ) ; " + b + " begin ? end ; begin ? end"
	case 4:
		s = "procedure rr ; " + a + " begin ? end ; " + b + " begin ? end"
	}
	check(eBlock, named(s), onReject|onAccept|onRefs)
}

// R02_Three: three declarations of five forms each in one block, for any names.
// cover: accept reject
func R02_Three() {
	forms := []string{"const ? = 1 ;", "var ? : Byte ;", "type ? = Byte ;", "procedure ? ; begin end ;", "type tt = ( ? ) ;"}
	s := ""
	for i := 0; i < 3; i++ {
		s += forms[sv.Concrete(sv.Int("f"+num(i), 0, 4))] + " "
	}
	check(eBlock, named(s+"begin end"), onReject|onAccept)
}

// R02_Hiding: the names of built-in types declared anew in all forms, in every
// letter case, and used from there on.
// cover: accept
func R02_Hiding() {
	builtins := []string{"Byte", "Integer", "Boolean", "Char", "Real", "Pointer", "Variant", "WideString"}
	n := casedWord("d", builtins[sv.Concrete(sv.Int("name", 0, len(builtins)-1))])
	u := make([]rune, len(n))
	copy(u, n)
	form := declForms[sv.Concrete(sv.Int("form", 0, len(declForms)-1))]
	var t []rune
	for _, w := range words(form + " var v1 : ? ; procedure pp ( ? : Word ) ; begin ? end ; begin ? end") {
		if w == "?" {
			t = append(t, n...)
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	check(eBlock, t, onAccept|onReject|onRefs)
}

// uses of names: statements and declarations after declarations of a, b, c, T, f
var useTexts = []string{
	"a := b + c", "f ( a , b )", "a . b [ c ] ^ := f ( c )", "if a then b else c", "case a of b : c ; 1 .. c : f end", "repeat a until b = c", "while a do f",
	"for a := b to c do f", "with a , b do c", "try a except on T do b else c end", "raise a at b", "begin a ; b := T ( c ) ; end", "a := [ b , c .. 1 ]", "a := @ b", "a := not b and ( c = - a )",
}

// R01_Uses: 15 statements in a routine whose parameter and locals hide outer
// declarations, any one word replaced by any of 12 names (also in another
// letter case, undeclared, or built-in).
// cover: accept
func R01_Uses() {
	names := []string{"a", "A", "b", "B", "c", "T", "t", "f", "rr", "zz", "Byte", "BYTE"}
	s := useTexts[sv.Concrete(sv.Int("text", 0, len(useTexts)-1))]
	l := words(s)
	at := sv.Concrete(sv.Int("at", 0, len(l)-1))
	t := []rune("const c = 1 ; type T = Byte ; var a , b : T ; function f ( x : T ) : T ; begin end ; procedure rr ( a : Char ) ; const b = 2 ; begin ")
	t = append(t, withSlot(s, at, 0, names, onBlanks)...)
	t = append(t, []rune("end ; begin ")...)
	t = append(t, []rune(s+" end")...)
	check(eBlock, t, onRefs|onAccept)
}

// R01_LookAhead: names around the places where the parser looks ahead: labels
// and calls, casts, exception variables, subranges, variant tags.
// cover: accept
func R01_LookAhead() {
	l := []scoped{
		{eBlock, "var ? : Byte ; type tt = record case ? : Byte of 1 : ( ? : Byte ) end ; uu = ? .. 5 ; vv = array [ ? .. 3 ] of Byte ; begin ? end"},
		{eBlock, "type tt = Byte ; var ? : Byte ; begin ? ( ? ) ; tt ( ? ) end"},
		{eBlock, "const ? = 1 ; type tt = ? .. ? ; uu = ( ? ) ; begin ? end"},
		{eBlock, "type tt = record case Byte of 1 : ( ) end ; var ? : tt ; ? : Byte ; begin ? := ? end"},
		{eBlock, "type tt = class aa : Byte ; property ? : Byte read aa ; property bb [ ? : Byte ] : Char read aa ; end ; var ? : Byte ; begin ? end"},
	}
	e, t := anyNamed(l)
	check(e, t, onRefs|onAccept)
}

// ---- F01: forward references

var forwardTexts = []scoped{
	{eTypes, "type ? = ^ ? ; ? = Byte ;"},
	{eTypes, "type ? = record aa : ? ; bb : ^ ? end ; ? = Char ;"},
	{eTypes, "type ? = ? ; ? = ? ; ? = Byte ;"},
	{eTypes, "type ? = procedure ( aa : ? ) ; ? = function : ? ; ? = Byte ;"},
	{eTypes, "type ? = array of ? ; ? = file of ? ; ? = Byte ;"},
	{eTypes, "type ? = class aa : ? ; procedure pp ( x : ? ) ; end ; ? = class ( ? ) end ;"},
	{eTypes, "type ? = class ; ? = class aa : ? end ; ? = class end ;"},
	{eTypes, "type ? = class ; ? = class ( ? ) end ; ? = class ( ? ) end ;"},
	{eTypes, "type ? = class property aa : ? ; property bb [ x : ? ] : Byte ; end ; ? = Byte ;"},
	{eTypes, "type ? = class of ? ; ? = class end ; ? = class of ? ;"},
	{eDecls, "type ? = ^ ? ; var ? : ? ; type ? = Byte ;"},
	{eDecls, "type ? = ^ ? ; ? = Byte ; procedure pp ; type ? = ^ ? ; ? = Byte ; begin end ;"},
	{eUnit, "unit uu ; interface type ? = ^ ? ; ? = class ; ? = class end ; implementation type ? = ^ ? ; end ."},
}

// F01_Names: 13 type sections with up to 6 names, each any letter in either case.
// cover: accept
func F01_Names() {
	e, t := anyNamed(forwardTexts)
	check(e, t, onRefs|onAccept)
}

// F01_Many: 14 type declarations before the declaration of what they stand for,
// as aliases, pointers, fields, parameters and elements, each of three names
// declared at the end or of an unknown one; the names any letters.
// cover: accept
func F01_Many() {
	forms := []string{"%", "^ %", "record aa : % end", "array of %", "file of %", "procedure ( aa : % )", "function : %"}
	first := sv.Concrete(sv.Int("first", 0, len(forms)-1))
	one := sv.Concrete(sv.Int("one", 0, 13))
	kind := sv.Concrete(sv.Int("kind", 0, 3))
	name := letter("name")
	t := []rune("type ")
	for i := 0; i < 14; i++ {
		t = append(t, []rune("t"+num(i)+" = ")...)
		for _, w := range words(forms[(first+i)%len(forms)]) {
			if w != "%" {
				t = append(t, []rune(w)...)
			} else if i == one {
				t = append(t, letter("use")...)
			} else {
				t = append(t, []rune([]string{"q1", "Q2", "q3", "q4"}[i%4])...)
			}
			t = append(t, ' ')
		}
		t = append(t, []rune("; ")...)
	}
	t = append(t, []rune("Q1 = "+[]string{"Byte", "class end", "record end", "( x1 , x2 )"}[kind]+" ; q2 = q1 ; q3 = class ; ")...)
	t = append(t, name...)
	t = append(t, []rune(" = Char ; Q3 = class aa : q4 ; end ;")...)
	check(eTypes, t, onRefs|onAccept)
}

// R01_Texts: 60 types, classes, declarations, programs and units, any one word
// replaced by any of 12 names.
// cover: accept
func R01_Texts() {
	names := []string{"a", "A", "b", "c", "T", "t", "U", "p", "x", "zz", "Byte", "INTEGER"}
	c := corpus[sv.Concrete(sv.Int("entry", 2, len(corpus)-1))]
	s := c.texts[sv.Concrete(sv.Int("text", 0, len(c.texts)-1))]
	at := sv.Concrete(sv.Int("at", 0, len(words(s))-1))
	check(c.entry, withSlot(s, at, 0, names, onBlanks), onRefs|onAccept)
}

// R01_Statements: 34 statements after declarations of their names, any one word
// replaced by any of 12 names.
// cover: accept
func R01_Statements() {
	names := []string{"a", "A", "b", "c", "T", "t", "x", "e", "E", "zz", "Byte", "INTEGER"}
	s := stmtTexts[sv.Concrete(sv.Int("text", 0, len(stmtTexts)-1))]
	at := sv.Concrete(sv.Int("at", 0, len(words(s))-1))
	t := []rune("const c = 1 ; x = 2 ; type T = Byte ; var a , b : T ; procedure rr ( e : Char ) ; const B = 2 ; begin ")
	t = append(t, withSlot(s, at, 0, names, onBlanks)...)
	t = append(t, []rune(" end ; begin a := e end")...)
	check(eBlock, t, onRefs|onAccept)
}

// F01_Forward: forward declared classes (any names) know their declaration.
// cover: accept completed
func F01_Forward() {
	l := []scoped{
		{eTypes, "type ? = class ; ? = class aa : Byte ; end ; ? = class end ;"},
		{eTypes, "type ? = class ; ? = class ; ? = class end ; ? = class aa : Byte ; end ;"},
		{eTypes, "type ? = class ; ? = Byte ; ? = class ( ? ) end ;"},
	}
	e, t := anyNamed(l)
	if !compare(e, t, onAccept|onReject|onRefs) {
		return
	}
	got := runReal(e, t)
	if got.err != nil {
		return
	}
	sec := got.roots[0].(ast.TypeSection)
	for i, d := range sec {
		f, ok := d.Type.(*ast.ForwardDeclaredClassType)
		if !ok {
			continue
		}
		var full *ast.CustomClassType
		for _, o := range sec[i+1:] {
			if c, ok := o.Type.(*ast.CustomClassType); ok && sameName([]rune(o.Ident.Name), []rune(d.Ident.Name)) {
				full = c
			}
		}
		if full != nil {
			sv.Cover("completed")
		}
		sv.Assert(f.Actual == full, "a forward declared class does not know its declaration")
	}
}
