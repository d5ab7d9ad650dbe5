package h

import "tpharness/sv"

// Lists of elements of different forms, in every order. In an element, ?
// stands for a name of its own, ?? for another.
type listing struct {
	entry  int
	before string
	elems  []string
	sep    string
	after  string
}

// listText: a list of n elements, each in any of its forms.
func (l listing) text(n int) []rune {
	t := []rune(l.before)
	t = append(t, ' ')
	for i := 0; i < n; i++ {
		if i > 0 {
			t = append(t, []rune(l.sep)...)
			t = append(t, ' ')
		}
		e := []rune(l.elems[sv.Concrete(sv.Int("e"+num(i), 0, len(l.elems)-1))])
		for j := 0; j < len(e); j++ {
			if e[j] != '?' {
				t = append(t, e[j])
				continue
			}
			if j+1 < len(e) && e[j+1] == '?' {
				j++
				t = append(t, 'm')
			} else {
				t = append(t, 'n')
			}
			t = append(t, []rune(num(i))...)
		}
		t = append(t, ' ')
	}
	return append(t, []rune(l.after)...)
}

// anyList: any of the lists with min..max elements of any form.
func anyList(ls []listing, min, max int) (int, []rune) {
	l := ls[sv.Concrete(sv.Int("list", 0, len(ls)-1))]
	return l.entry, l.text(sv.Concrete(sv.Int("n", min, max)))
}

var exprLists = []listing{
	{eExpr, "[", []string{"a", "1 .. b", "c + 1", "x .. y * 2", "[ ]"}, ",", "]"},
	{eExpr, "f (", []string{"a", "g ( 1 )", "( b = c )", "- 2", "'s'", "[ d ]"}, ",", ")"},
	{eExpr, "a [", []string{"i", "j + 1", "k [ 2 ]", "3", "not l"}, ",", "] . b"},
	{eExpr, "a +", []string{"b", "not c", "d * 2", "( e )", "f ( g )", "@ h"}, "+", "= z"},
	{eExpr, "a *", []string{"b", "not c", "( d - 1 )", "5", "f ( g ) ", "h ^"}, "and", "- z"},
}

var stmtLists = []listing{
	{eStmt, "case a of", []string{"1", "2 .. 3", "'a'", "'b' .. 'c'", "x + 1"}, ",", ": b end"},
	{eStmt, "case a of", []string{"1 : b", "2 , 3 : begin c end", "4 .. 5 : if d then e else f", "6 :", "7 : case g of 8 : h end"}, ";", "else i ; j end"},
	{eStmt, "try a except", []string{"on Integer do b", "on e : Word do c", "on Char do", "on f : Byte do if g then h else i", "on Real do begin j ; k end"}, ";", "else l end"},
	{eStmt, "try", []string{"b", "c := 1", "", "begin d end", "if e then f", "raise"}, ";", "finally g end"},
	{eStmt, "repeat", []string{"b", "c ( 1 )", "", "while d do e", "if f then g else h", "inherited"}, ";", "until i"},
	{eStmt, "try a except", []string{"b", "c := 1", "", "with d do e", "if f then g else h", "raise i"}, ";", "end"},
	{eStmt, "case a of 1 : b else", []string{"b", "c := 1", "", "begin d end", "if f then g else h", "goto i"}, ";", "end"},
	{eBlock, "label l ; label m ; begin", []string{"l : a", "b", "m :", "goto l", "", "asm x end"}, ";", "end"},
	{eStmt, "with", []string{"a", "b", "Integer"}, ",", "do c"},
}

var declLists = []listing{
	{eTypes, "type T = (", []string{"?", "? = 2", "? = x + 1"}, ",", ") ;"},
	{eTypes, "type T = record", []string{"? : Byte", "? , ?? : Char", "? : record x : Byte end", "? : array [ 1 .. 2 ] of Word", "? : ^ T", "? : string [ 5 ]"}, ";", "end ;"},
	{eTypes, "type T = record a : Byte ; case Byte of", []string{"1 : ( )", "2 , 3 : ( ? : Byte )", "4 : ( ? : Char ; case Word of 1 : ( ) )", "x .. y : ( ? , ?? : Byte ; )"}, ";", "end ;"},
	{eTypes, "type T = record case a : Char of", []string{"'a' : ( ? : Byte ; ?? : Char )", "'b' , 'c' : ( )", "d : ( ? : Byte )"}, ";", "; end ;"},
	{eTypes, "type T = array [", []string{"Byte", "1 .. 2", "( ? , ?? )", "Boolean", "x .. 3"}, ",", "] of Char ;"},
	{eDecls, "const", []string{"? = 1", "? : Byte = 2", "? = 'x' + 'y'", "? : array of Char = 3", "? = n0"}, ";", ";"},
	{eDecls, "var", []string{"? : Byte", "? , ?? : Char", "? : Word = 5", "? : Byte absolute v", "? : array of Char", "? : ( ??a , ??b )"}, ";", ";"},
	{eDecls, "threadvar", []string{"? : Byte", "? , ?? : Char", "? : set of Byte", "? : string"}, ";", ";"},
	{eTypes, "type", []string{"? = Byte", "? = ( ?a , ?b )", "? = ^ n0 platform", "? = type Word", "? = 1 .. 5", "? = class end", "? = procedure of object", "? = file of Char deprecated"}, ";", ";"},
	{eDecls, "", []string{"const ? = 1 ;", "var ? : Byte ;", "type ? = Char ;", "threadvar ? : Word ;", "label ? ;", "procedure ? ; begin end ;", "function ? : Byte ; forward ;"}, "", ""},
}

var classLists = []listing{
	{eTypes, "type T = class", []string{"? : Byte", "? , ?? : Char", "? : record x : Byte end", "? : array [ 1 .. 2 ] of Word", "? : T"}, ";", "; end ;"},
	{eTypes, "type T = class", []string{"procedure ? ;", "function ? ( x : Byte ) : Word ; virtual ; abstract ;", "constructor ? ( y : Char ) ; overload ;", "destructor ? ; override ;", "procedure ? ( var x ; const y : Byte ) ; reintroduce ; overload ;"}, "", "end ;"},
	{eTypes, "type T = class f : Byte ;", []string{"property ? : Byte", "property ? [ i : Byte ] : Char read f", "property ? : Word index 1 read f write f", "property ? : Char stored f default 3", "property ? : Byte nodefault implements I"}, ";", "; end ;"},
	{eTypes, "type A = class end ; B = Integer ; T = class (", []string{"A", "B", "C", "T"}, ",", ") x : Byte ; end ;"},
	{eTypes, "type T = class", []string{"private", "public ? : Byte ;", "protected procedure ? ; virtual ;", "published property ? : Byte ;", "? : Char ;", "private ? : Byte ; function ?? : Char ;"}, "", "end ;"},
	{eTypes, "type T = class procedure p ;", []string{"virtual", "abstract", "override", "overload", "reintroduce"}, ";", "; end ;"},
	{eTypes, "type T = class procedure p (", []string{"?", "? : Byte", "var ?", "const ? , ?? : Char", "out ? : array of Byte", "? : Word = 1"}, ";", ") ; end ;"},
	{eTypes, "type", []string{"? = class end", "? = class x : Byte ; end", "? = class ( n0 ) end", "? = class of n0", "? = class", "? = class ( n1 , n2 )"}, ";", ";"},
}

var routineLists = []listing{
	{eDecls, "procedure p (", []string{"?", "? : Byte", "var ?", "const ? , ?? : Char", "out ? : array of Byte", "? : Word = 1", "const ? : array of const"}, ";", ") ; begin end ;"},
	{eDecls, "type F = function (", []string{"?", "? : Byte", "var ?", "const ? , ?? : Char", "out ? : array of Byte", "? : Word = 1"}, ";", ") : Byte ;"},
	{eDecls, "procedure p ;", []string{"stdcall", "overload", "cdecl", "register", "far", "varargs", "safecall"}, ";", "; begin end ;"},
	{eDecls, "procedure p ;", []string{"stdcall", "overload", "external", "external 'l'", "external 'l' name 'n'", "external 'l' index 3"}, ";", "; var v : Byte ;"},
	{eProgram, "program p ; uses", []string{"?", "? , ??"}, ",", "; begin end ."},
	{eUnit, "unit u ; interface uses", []string{"?", "? in 'x.pas'", "? in 'd\\y.pas'"}, ",", "; implementation uses z ; end ."},
	{eUnit, "unit u ; interface implementation uses", []string{"?", "? in 'x.pas'", "? in 'd\\y.pas'"}, ",", "; end ."},
	{eUnit, "unit u ; interface", []string{"const ? = 1 ;", "var ? : Byte ;", "type ? = Char ;", "threadvar ? : Word ;", "procedure ? ;", "function ? ( x : Byte ) : Byte ; stdcall ;"}, "", "implementation end ."},
	{eUnit, "unit u ; interface implementation", []string{"const ? = 1 ;", "var ? : Byte ;", "type ? = Char ;", "label ? ;", "procedure ? ; begin end ;", "function ? ( x : Byte ) : Byte ; external ;"}, "", "initialization a end ."},
	{eUnit, "unit u ; interface implementation initialization", []string{"a", "b := 1", "", "begin c end"}, ";", "finalization d end ."},
	{eUnit, "unit u ; interface implementation initialization a ; finalization", []string{"a", "b := 1", "", "begin c end"}, ";", "end ."},
	{eProgram, "program p ; exports", []string{"?", "? name 'n'", "? index 1", "? index 2 name 'm'", "? name 'x' index 3"}, ",", "; begin end ."},
	{eProgram, "program p ;", []string{"exports ? ;", "exports ? name 'n' , ?? ;", "exports ? index 3 ;"}, "", "begin end ."},
	{eProgram, "program p ; begin a end", []string{"exports ? ;", "exports ? name 'n' , ?? ;", "exports ? index 3 ;"}, "", "."},
	{eDecls, "procedure p ;", []string{"const ? = 1 ;", "var ? : Byte ;", "type ? = Char ;", "label ? ;", "procedure ? ; begin end ;", "exports ? ;"}, "", "begin a end ;"},
}

// P02_Lists: 5 lists of expressions with 1..4 elements, each of any of 5 or 6 forms.
// cover: accept
func P02_Lists() {
	e, t := anyList(exprLists, 1, 4)
	check(e, t, faithful)
}

// P02X_Lists: as quick with 5 elements.
// cover: accept
func P02X_Lists() {
	e, t := anyList(exprLists, 1, 5)
	check(e, t, faithful)
}

// P03_Lists: 9 lists of statements, labels, selectors, handlers and objects with
// 1..4 elements, each of any of 3 to 6 forms.
// cover: accept
func P03_Lists() {
	e, t := anyList(stmtLists, 1, 4)
	check(e, t, faithful)
}

// P03X_Lists: as quick with 5 elements.
// cover: accept
func P03X_Lists() {
	e, t := anyList(stmtLists, 1, 5)
	check(e, t, faithful)
}

// P04_Lists: 10 lists of enumeration elements, fields, variants, dimensions,
// constants, variables, types and sections with 1..4 elements, each of any of 3 to 8 forms.
// cover: accept
func P04_Lists() {
	e, t := anyList(declLists, 1, 4)
	check(e, t, faithful)
}

// P04X_Lists: as quick with 5 elements.
// cover: accept
func P04X_Lists() {
	e, t := anyList(declLists, 1, 5)
	check(e, t, faithful)
}

// P05_Lists: 8 lists of members, parameters, directives, ancestors and classes
// with 1..4 elements, each of any of 4 to 6 forms.
// cover: accept
func P05_Lists() {
	e, t := anyList(classLists, 1, 4)
	check(e, t, faithful)
}

// P05X_Lists: as quick with 5 elements.
// cover: accept
func P05X_Lists() {
	e, t := anyList(classLists, 1, 5)
	check(e, t, faithful)
}

// P06_Lists: 15 lists of parameters, directives, used units, declarations,
// statements and exports with 1..4 elements, each of any of 2 to 7 forms.
// cover: accept
func P06_Lists() {
	e, t := anyList(routineLists, 1, 4)
	check(e, t, faithful)
}

// P06X_Lists: as quick with 5 elements.
// cover: accept
func P06X_Lists() {
	e, t := anyList(routineLists, 1, 5)
	check(e, t, faithful)
}

func anyOfAll() []listing {
	switch sv.Concrete(sv.Int("kind", 0, 4)) {
	case 0:
		return exprLists
	case 1:
		return stmtLists
	case 2:
		return declLists
	case 3:
		return classLists
	}
	return routineLists
}

// W01_Lists: 47 lists with 1..3 elements, each of any of 2 to 8 forms.
// cover: accept
func W01_Lists() {
	e, t := anyList(anyOfAll(), 1, 3)
	check(e, t, onWalk)
}

// W01X_Lists: as quick with 4 elements.
// cover: accept
func W01X_Lists() {
	e, t := anyList(anyOfAll(), 1, 4)
	check(e, t, onWalk)
}

// T03_Lists: identifiers in the trees of 47 lists with 1..2 elements, each of any
// of 2 to 8 forms.
// cover: accept
func T03_Lists() {
	e, t := anyList(anyOfAll(), 1, 2)
	check(e, t, onPos)
}
