package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"

	"tpharness/sv"
)

const parseBudget = 3000000

// budgetOf: steps allowed for a text; more than enough for linear parsing.
func budgetOf(text []rune) int {
	if len(text) > 300 {
		return parseBudget + 12000*(len(text)-300)
	}
	return parseBudget
}

const faithful = onAccept | onShape | onRest

// soup: every sequence of n of the phrases, between the prefix and the suffix.
func soup(prefix string, n int, phrases []string, suffix string) []rune {
	t := []rune(prefix)
	for i := 0; i < n; i++ {
		t = append(t, ' ')
		t = append(t, slot("w"+num(i), phrases)...)
	}
	t = append(t, ' ')
	return append(t, []rune(suffix)...)
}

func check(entry int, text []rune, what int) {
	sv.Budget(budgetOf(text))
	sv.Observe("text", string(text))
	compare(entry, text, what)
}

// ---- P02: expressions

// P02_Mutated: 21 expressions with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P02_Mutated() { check(eExpr, mutated(exprTexts), faithful) }

// P02_Generated: all expressions with at most 2 choices other than the plainest.
// cover: accept
func P02_Generated() { check(eExpr, generated(eExpr, 2), faithful) }

// P02X_Generated: all expressions with at most 3 choices other than the plainest.
// cover: accept
func P02X_Generated() { check(eExpr, generated(eExpr, 3), faithful) }

// operators: a chain of n operands and any of the 20 operators between them.
func operators(n int, ops []string) []rune {
	t := []rune([]string{"", "- ", "+ ", "not "}[sv.Concrete(sv.Int("sign", 0, 3))])
	for i := 0; i < n; i++ {
		if i > 0 {
			t = append(t, slot("op"+num(i), ops)...)
			t = append(t, ' ')
		}
		t = append(t, []rune("x"+num(i)+" ")...)
	}
	return t
}

// P02_Operators: every sequence of three of the 20 binary operators, with or
// without a sign or NOT in front.
// cover: accept
func P02_Operators() { check(eExpr, operators(4, binOps), faithful) }

// P02X_Operators: every sequence of four of the 20 binary operators, with or
// without a sign or NOT in front.
// cover: accept
func P02X_Operators() { check(eExpr, operators(5, binOps), faithful) }

// P02_Chain: every sequence of six operators out of one per precedence (+ * = and).
// cover: accept
func P02_Chain() { check(eExpr, operators(7, someOps), faithful) }

// P02X_Chain: every sequence of eight operators out of one per precedence.
// cover: accept
func P02X_Chain() { check(eExpr, operators(9, someOps), faithful) }

var exprWords = []string{"a", "1", "+", "*", "=", "(", ")", "[", "]", "not", "-", ".", ",", "^", "@", ".."}

// P02_Soup: every sequence of 5 of 16 words of expressions.
// cover: accept reject
func P02_Soup() { check(eExpr, soup("", 5, exprWords, ""), faithful) }

// P02X_Soup: every sequence of 7 of 16 words of expressions.
// cover: accept reject
func P02X_Soup() { check(eExpr, soup("", 7, exprWords, ""), faithful) }

// suffixes: a name with n of any suffixes, read, called or assigned.
func suffixes(n int) []rune {
	ws := []string{". m", "[ i ]", "^", "[ i , j + 1 ]"}
	return soup("a", n, ws, []string{"", "( x )", "+ 1"}[sv.Concrete(sv.Int("end", 0, 2))])
}

// P02_Suffixes: every sequence of 5 suffixes (member, index, indices, pointer)
// of a designator; plain, called, or as an operand.
// cover: accept
func P02_Suffixes() { check(eExpr, suffixes(5), faithful) }

// nested: n levels of nesting, each one of five forms, around an operand.
func nested(n int) []rune {
	open := []string{"(", "[", "f (", "not (", "x [", "Integer (", "a + ( b *"}
	end := []string{")", "]", ")", ")", "]", ")", "- c )"}
	var t, e []rune
	for i := 0; i < n; i++ {
		k := sv.Concrete(sv.Int("k"+num(i), 0, len(open)-1))
		t = append(append(t, []rune(open[k])...), ' ')
		e = append([]rune(" "+end[k]), e...)
	}
	t = append(t, []rune("z")...)
	return append(t, e...)
}

// P02_Nested: an operand within 3 levels of any of 7 forms of nesting.
// cover: accept
func P02_Nested() { check(eExpr, nested(3), faithful) }

// P02X_Nested: an operand within 5 levels of any of 7 forms of nesting.
// cover: accept
func P02X_Nested() { check(eExpr, nested(5), faithful) }

func repeat(n int, elem, sep string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += sep
		}
		s += elem
	}
	return s
}

// P02_Long: argument, index, set and operator lists of 1..12 (or any of 13 numbers up to 300) elements, and 1..12
// levels of parentheses.
// cover: accept
func P02_Long() { checkLong(longP02) }

func longP02(n int) (int, []rune) {
	var s string
	switch sv.Concrete(sv.Int("form", 0, 5)) {
	case 0:
		s = "f(" + repeat(n, "a", ",") + ")"
	case 1:
		s = "f[" + repeat(n, "a+1", ",") + "]"
	case 2:
		s = "[" + repeat(n, "a..b", ",") + "]"
	case 3:
		s = repeat(n, "a", "*") + "+" + repeat(n, "b", "-")
	case 4:
		s = repeat(n, "(", "") + "a" + repeat(n, ")", "")
	case 5:
		s = repeat(n, "not ", "") + "a" + repeat(n, "^", "")
	}
	return eExpr, []rune(s)
}

// P02_Names: expressions over names of types, variables, constants, routines and
// undeclared ones (each of 3 name places any of 6 names), where a type before
// parentheses is a cast.
// cover: accept
func P02_Names() {
	names := []string{"a", "T", "c", "f", "zz", "Word"}
	t := []rune("type T = Byte ; const c = 1 ; var a : T ; function f ( x : T ) : T ; begin end ; begin a := ")
	t = append(t, slot("n1", names)...)
	t = append(t, []rune(" ( ")...)
	t = append(t, slot("n2", names)...)
	t = append(t, []rune(" ) + ")...)
	t = append(t, slot("n3", names)...)
	t = append(t, []rune(" end")...)
	check(eBlock, t, faithful)
}

// ---- P03: statements

// P03_Mutated: 29 statements with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P03_Mutated() { check(eStmt, mutated(stmtTexts), faithful) }

// P03_Generated: all statements with at most 2 choices other than the plainest.
// cover: accept
func P03_Generated() { check(eStmt, generated(eStmt, 2), faithful) }

// P03X_Generated: all statements with at most 3 choices other than the plainest.
// cover: accept
func P03X_Generated() { check(eStmt, generated(eStmt, 3), faithful) }

var ifPhrases = []string{"if a then", "else", "b", ";", "begin", "end", "while c do", "x := 1"}

// P03_If: every sequence of 6 of 8 phrases (if, else, begin, end, while, calls,
// assignments, semicolons) in a compound statement.
// cover: accept reject
func P03_If() { check(eStmt, soup("begin", 6, ifPhrases, "end"), faithful) }

// P03X_If: every sequence of 8 of 8 phrases.
// cover: accept reject
func P03X_If() { check(eStmt, soup("begin", 8, ifPhrases, "end"), faithful) }

var casePhrases = []string{"1 :", "2 .. 3 :", ", 4", "b", ";", "else", "end", "case d of", "if e then"}

// P03_Case: CASE followed by every sequence of 6 of 9 phrases and END.
// cover: accept reject
func P03_Case() { check(eStmt, soup("case a of", 6, casePhrases, "end"), faithful) }

// P03X_Case: CASE followed by every sequence of 8 of 9 phrases and END.
// cover: accept reject
func P03X_Case() { check(eStmt, soup("case a of", 8, casePhrases, "end"), faithful) }

var tryPhrases = []string{"except", "finally", "on e : Integer do", "on Word do", "b", ";", "else", "end", "try", "raise"}

// P03_Try: TRY followed by every sequence of 6 of 10 phrases and END.
// cover: accept reject
func P03_Try() { check(eStmt, soup("try", 6, tryPhrases, "end"), faithful) }

// P03X_Try: TRY followed by every sequence of 8 of 10 phrases and END.
// cover: accept reject
func P03X_Try() { check(eStmt, soup("try", 8, tryPhrases, "end"), faithful) }

var loopPhrases = []string{"repeat", "until c", "for i := 1 to 2 do", "for j := a downto b do", "with o do", "with o , p do", "b", ";", "while d do"}

// P03_Loops: every sequence of 5 of 9 phrases of loops in a compound statement.
// cover: accept reject
func P03_Loops() { check(eStmt, soup("begin", 5, loopPhrases, "end"), faithful) }

// P03X_Loops: every sequence of 7 of 9 phrases of loops.
// cover: accept reject
func P03X_Loops() { check(eStmt, soup("begin", 7, loopPhrases, "end"), faithful) }

var labelPhrases = []string{"l :", "m :", "goto l", "goto m", ";", "b", "begin", "end", "if a then", "else"}

// P03_Labels: a block with two labels and every sequence of 5 of 10 phrases.
// cover: accept reject
func P03_Labels() {
	check(eBlock, soup("label l ; label m ; begin", 5, labelPhrases, "end"), faithful)
}

// P03X_Labels: a block with two labels and every sequence of 7 of 10 phrases.
// cover: accept reject
func P03X_Labels() {
	check(eBlock, soup("label l ; label m ; begin", 7, labelPhrases, "end"), faithful)
}

// P03_Nested: a statement within 3 levels of any of 17 forms.
// cover: accept
func P03_Nested() { check(eStmt, nestedStmt(3), faithful) }

// P03X_Nested: a statement within 4 levels of any of 17 forms.
// cover: accept
func P03X_Nested() { check(eStmt, nestedStmt(4), faithful) }

func nestedStmt(n int) []rune {
	open := []string{"begin", "begin s ;", "if a then", "if a then s else", "while a do", "for i := 1 to 2 do", "repeat", "with o do", "case a of 1 :", "try", "try s except", "case a of 1 : s else",
		"if a then", "try s finally", "try s except on Integer do", "try s except on e : Word do s ; else", "case a of 1 , 2 : s ; 3 .. 4 :"}
	end := []string{"end", "; s end", "", "", "", "", "until a", "", "end", "finally s end", "end", "end",
		"else s", "end", "end", "end", "; 5 : s else s end"}
	var t, e []rune
	for i := 0; i < n; i++ {
		k := sv.Concrete(sv.Int("k"+num(i), 0, len(open)-1))
		t = append(append(t, []rune(open[k])...), ' ')
		e = append([]rune(" "+end[k]), e...)
	}
	t = append(t, slot("inner", []string{"z", "z := 1", "", "raise", "inherited", "if a then s"})...)
	return append(t, e...)
}

// P03_Long: lists of 1..12 (or any of 13 numbers up to 300) statements, selectors, labels, handlers, with-objects
// and nested IFs.
// cover: accept
func P03_Long() { checkLong(longP03) }

func longP03(n int) (int, []rune) {
	var s string
	switch sv.Concrete(sv.Int("form", 0, 6)) {
	case 0:
		s = "begin " + repeat(n, "a := 1", ";") + " end"
	case 1:
		s = "case a of " + repeat(n, "1: b", ";") + " end"
	case 2:
		s = "case a of " + repeat(n, "1..2", ",") + ": b end"
	case 3:
		s = "try a except " + repeat(n, "on Integer do b", ";") + " else c end"
	case 4:
		s = "with " + repeat(n, "o", ",") + " do b"
	case 5:
		s = repeat(n, "if a then b else ", "") + "c"
	case 6:
		s = repeat(n, "begin ", "") + "a" + repeat(n, " end", "")
	}
	return eStmt, []rune(s)
}

// ---- P04: types and declarations

// P04_Types: 17 type sections with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P04_Types() { check(eTypes, mutated(typeTexts), faithful) }

// P04_Decls: constant, variable and label sections with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P04_Decls() { check(eDecls, mutated(plainDeclTexts), faithful) }

// P04_GenTypes: all type sections with at most 2 choices other than the plainest.
// cover: accept
func P04_GenTypes() { check(eTypes, generated(eTypes, 2), faithful) }

// P04X_GenTypes: all type sections with at most 3 choices other than the plainest.
// cover: accept
func P04X_GenTypes() { check(eTypes, generated(eTypes, 3), faithful) }

// P04_GenDecls: all declaration sections with at most 2 choices other than the plainest.
// cover: accept
func P04_GenDecls() { check(eDecls, generated(eDecls, 2), faithful) }

// P04X_GenDecls: all declaration sections with at most 3 choices other than the plainest.
// cover: accept
func P04X_GenDecls() { check(eDecls, generated(eDecls, 3), faithful) }

var recordPhrases = []string{"a : Byte", "b , c : Char", ";", "case Byte of", "case k : Word of", "1 :", "2 , 3 :", "(", ")", "d : record", "end"}

// P04_Record: RECORD followed by every sequence of 6 of 11 phrases and END.
// cover: accept reject
func P04_Record() { check(eTypes, soup("type T = record", 6, recordPhrases, "end ;"), faithful) }

// P04X_Record: RECORD followed by every sequence of 8 of 11 phrases and END.
// cover: accept reject
func P04X_Record() { check(eTypes, soup("type T = record", 8, recordPhrases, "end ;"), faithful) }

var typePhrases = []string{"^", "array of", "array [ Byte ] of", "set of", "packed", "file of", "Integer", "string", "[ 5 ]", "( x , y )", "1 .. 2", "T", "procedure", "of object", "platform"}

// P04_Type: a type name, EQUALS and every sequence of 4 of 15 phrases of types.
// cover: accept reject
func P04_Type() { check(eTypes, soup("type T = Char ; U =", 4, typePhrases, ";"), faithful) }

// P04X_Type: as quick with sequences of 5.
// cover: accept reject
func P04X_Type() { check(eTypes, soup("type T = Char ; U =", 5, typePhrases, ";"), faithful) }

var sectionPhrases = []string{"var", "const", "type", "threadvar", "label l ;", "a : Byte ;", "b , c : Char = 1 ;", "d = 2 ;", "e : Word = 3 ;", "T = Integer ;", "x : T absolute a ;"}

// P04_Sections: every sequence of 5 of 11 phrases of declaration sections.
// cover: accept reject
func P04_Sections() { check(eDecls, soup("", 5, sectionPhrases, ""), faithful) }

// P04X_Sections: every sequence of 6 of 11 phrases of declaration sections.
// cover: accept reject
func P04X_Sections() { check(eDecls, soup("", 6, sectionPhrases, ""), faithful) }

// P04_Long: lists of 1..12 (or any of 13 numbers up to 300) names, fields, elements, dimensions, variants and declarations.
// cover: accept
func P04_Long() { checkLong(longP04) }

func longP04(n int) (int, []rune) {
	s := ""
	list := func(before, after, sep string) {
		for i := 0; i < n; i++ {
			if i > 0 {
				s += sep
			}
			s += before + num(i) + after
		}
	}
	switch sv.Concrete(sv.Int("form", 0, 8)) {
	case 0:
		s = "var "
		list("a", "", ",")
		s += ": Byte;"
	case 1:
		s = "var "
		list("a", ": Byte", ";")
		s += ";"
	case 2:
		s = "const "
		list("a", " = 1", ";")
		s += ";"
	case 3:
		s = "type "
		list("a", " = Byte", ";")
		s += ";"
	case 4:
		s = "type T = ("
		list("a", "", ",")
		s += ");"
	case 5:
		s = "type T = record "
		list("a", ": Byte", ";")
		s += " end;"
	case 6:
		s = "type T = array ["
		list("0..", "", ",")
		s += "] of Char;"
	case 7:
		s = "type T = record case Byte of "
		list("", ": (x: Char)", ";")
		s += " end;"
	case 8:
		s = "threadvar "
		list("a", ", b", ";")
		s = "type T = " + repeat(n, "array of ", "") + repeat(n, "record a: ", "") + "Byte" + repeat(n, " end", "") + ";"
	}
	return eDecls, []rune(s)
}

// ---- P05: classes

// P05_Mutated: 9 class declarations with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P05_Mutated() { check(eTypes, mutated(classTexts), faithful) }

func genClass(fuel int) []rune {
	g := &gen{fuel: fuel}
	g.w("type").w("T").w("=")
	g.class()
	g.w(";")
	return g.t
}

// P05_Generated: all class declarations with at most 2 choices other than the plainest.
// cover: accept
func P05_Generated() { check(eTypes, genClass(2), faithful) }

// P05X_Generated: all class declarations with at most 3 choices other than the plainest.
// cover: accept
func P05X_Generated() { check(eTypes, genClass(3), faithful) }

var memberPhrases = []string{"private", "public", "f : Byte ;", "g , h : Char ;", "procedure p ;", "function q ( x : Byte ) : Word ;", "virtual ;", "property r : Byte read f ;", "constructor c ;", "property s ;", "destructor d ; override ;"}

// P05_Members: a class with every sequence of 4 of 11 phrases of members.
// cover: accept reject
func P05_Members() {
	check(eTypes, soup("type T = class", 4, memberPhrases, "end ;"), faithful)
}

// P05X_Members: a class with every sequence of 6 of 11 phrases of members.
// cover: accept reject
func P05X_Members() {
	check(eTypes, soup("type T = class", 6, memberPhrases, "end ;"), faithful)
}

var propertyPhrases = []string{": Byte", "[ i : Byte ] : Char", "index 3", "read f", "write f", "stored true", "stored false", "stored f", "default 1", "nodefault", "implements I"}

// P05_Property: a property with every sequence of 5 of 11 phrases.
// cover: accept reject
func P05_Property() {
	check(eTypes, soup("type T = class f : Byte ; property p", 5, propertyPhrases, "; end ;"), faithful)
}

// P05X_Property: a property with every sequence of 7 of 11 phrases.
// cover: accept reject
func P05X_Property() {
	check(eTypes, soup("type T = class f : Byte ; property p", 7, propertyPhrases, "; end ;"), faithful)
}

var methodPhrases = []string{"( )", "( x : Byte )", "( var x ; y , z : Char )", ": Word", ";", "virtual ;", "override ;", "overload ;", "abstract ;", "reintroduce ;"}

// P05_Method: a method of any of the four kinds with every sequence of 4 of 10 phrases.
// cover: accept reject
func P05_Method() {
	kind := []string{"procedure", "function", "constructor", "destructor"}[sv.Concrete(sv.Int("kind", 0, 3))]
	check(eTypes, soup("type T = class "+kind+" m", 4, methodPhrases, "property p : Byte ; end ;"), faithful)
}

// P05X_Method: a method of any of the four kinds with every sequence of 5 of 10 phrases.
// cover: accept reject
func P05X_Method() {
	kind := []string{"procedure", "function", "constructor", "destructor"}[sv.Concrete(sv.Int("kind", 0, 3))]
	check(eTypes, soup("type T = class "+kind+" m", 5, methodPhrases, "property p : Byte ; end ;"), faithful)
}

// P05_Ancestors: class headings with every sequence of 4 of 7 phrases.
// cover: accept reject
func P05_Ancestors() {
	check(eTypes, soup("type T = class", 4, []string{"(", ")", "TObject", "T", ",", "of", "f : Byte ;"}, "end ; V = class end ;"), faithful)
}

// ---- P06: programs, units, routines

// P06_Program: 7 programs with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P06_Program() { check(eProgram, mutated(programTexts), faithful) }

// P06_Unit: 6 units with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P06_Unit() { check(eUnit, mutated(unitTexts), faithful) }

// P06_Routine: 9 routine declarations with any one word replaced by any of 95 words, removed or inserted.
// cover: accept reject
func P06_Routine() { check(eDecls, mutated(routineTexts), faithful) }

// P06_GenProgram: all programs with at most 2 choices other than the plainest.
// cover: accept
func P06_GenProgram() { check(eProgram, generated(eProgram, 2), faithful) }

// P06X_GenProgram: all programs with at most 3 choices other than the plainest.
// cover: accept
func P06X_GenProgram() { check(eProgram, generated(eProgram, 3), faithful) }

// P06_GenUnit: all units with at most 2 choices other than the plainest.
// cover: accept
func P06_GenUnit() { check(eUnit, generated(eUnit, 2), faithful) }

// P06X_GenUnit: all units with at most 3 choices other than the plainest.
// cover: accept
func P06X_GenUnit() { check(eUnit, generated(eUnit, 3), faithful) }

// P06X_Unit4: all units with at most 4 choices other than the plainest.
// cover: accept
func P06X_Unit4() { check(eUnit, generated(eUnit, 4), faithful) }

func genRoutine(fuel int) []rune {
	g := &gen{fuel: fuel}
	g.routine(0, sv.Concrete(sv.Int("fn", 0, 1)) == 1)
	g.w("var").w("after").w(":").w("Byte").w(";")
	return g.t
}

// P06_GenRoutine: all routines with at most 2 choices other than the plainest, followed by a variable.
// cover: accept
func P06_GenRoutine() { check(eDecls, genRoutine(2), faithful) }

// P06X_GenRoutine: all routines with at most 3 choices other than the plainest, followed by a variable.
// cover: accept
func P06X_GenRoutine() { check(eDecls, genRoutine(3), faithful) }

var routinePhrases = []string{"( x , y : Byte )", "( var x ; const y : Char = 1 )", "( out x : array of Byte )", ": Word", ";", "stdcall ;", "forward ;", "external ;", "external 'l' name 'n' ;", "external 'l' index 2 ;", "begin end ;"}

// P06_Heading: a procedure or function with every sequence of 4 of 11 phrases.
// cover: accept reject
func P06_Heading() {
	kind := []string{"procedure", "function"}[sv.Concrete(sv.Int("kind", 0, 1))]
	check(eDecls, soup(kind+" p", 4, routinePhrases, "var v : Byte ;"), faithful)
}

// P06X_Heading: a procedure or function with every sequence of 6 of 11 phrases.
// cover: accept reject
func P06X_Heading() {
	kind := []string{"procedure", "function"}[sv.Concrete(sv.Int("kind", 0, 1))]
	check(eDecls, soup(kind+" p", 6, routinePhrases, "var v : Byte ;"), faithful)
}

var unitPhrases = []string{"implementation", "uses a ;", "uses b , c ;", "var d : Byte ;", "procedure p ;", "begin end ;", "initialization", "finalization", "s ;", "exports e ;", "end .", "external ;"}

// P06_UnitParts: a unit heading with every sequence of 6 of 12 phrases.
// cover: accept reject
func P06_UnitParts() { check(eUnit, soup("unit u ; interface", 6, unitPhrases, ""), faithful) }

// P06X_UnitParts: a unit heading with every sequence of 7 of 12 phrases.
// cover: accept reject
func P06X_UnitParts() { check(eUnit, soup("unit u ; interface", 7, unitPhrases, ""), faithful) }

var programPhrases = []string{"uses a ;", "uses b , c ;", "var d : Byte ;", "procedure p ;", "begin", "end ;", "end", "s ;", "exports e ;", ".", "forward ;", "label l ;"}

// P06_ProgramParts: a program heading with every sequence of 6 of 12 phrases.
// cover: accept reject
func P06_ProgramParts() { check(eProgram, soup("program u ;", 6, programPhrases, ""), faithful) }

// P06X_ProgramParts: a program heading with every sequence of 7 of 12 phrases.
// cover: accept reject
func P06X_ProgramParts() { check(eProgram, soup("program u ;", 7, programPhrases, ""), faithful) }

var exportPhrases = []string{"e", "f", ",", "name 'n'", "index 2", "name x + y", "; exports", "index z"}

// P06_Exports: an exports statement with every sequence of 5 of 8 phrases, before
// or after the body.
// cover: accept reject
func P06_Exports() {
	if sv.Concrete(sv.Int("where", 0, 1)) == 0 {
		check(eBlock, soup("exports", 5, exportPhrases, "; begin end exports g ;"), faithful)
	} else {
		check(eBlock, soup("exports g ; begin end exports", 5, exportPhrases, ";"), faithful)
	}
}

// P06_Index: the number of an external routine, any of 1 to 12 digits, in a program's
// declarations or in the interface section of a unit.
// cover: accept
func P06_Index() {
	n := sv.Concrete(sv.Int("digits", 1, 12))
	var ds []rune
	want := 0
	for i := 0; i < n; i++ {
		d := sv.RuneRange("digit"+num(i), '0', '9')
		ds = append(ds, d)
		want = want*10 + int(d-'0')
	}
	var opts *ast.ExternalOptions
	p := parser.NewParser(parser.NewProgramContext(progPath))
	t := append(append([]rune("procedure pp ; external 'l' index "), ds...), []rune(" ; begin end")...)
	p.SetText(&t)
	p.NextToken()
	if sv.Concrete(sv.Int("place", 0, 1)) == 0 {
		b, err := p.ParseBlock()
		sv.Assert(err == nil && len(b.DeclSections) == 1, "an external routine is rejected")
		f, ok := b.DeclSections[0].(*ast.FunctionDecl)
		sv.Assert(ok, "an external routine is not in the tree")
		opts = f.ExternalOptions
	} else {
		f, err := p.ParseExportedHeading()
		sv.Assert(err == nil, "an external routine is rejected")
		opts = f.ExternalOptions
	}
	sv.Assert(opts != nil && opts.Index != nil && opts.Name == nil, "the number of an external routine is not in the tree")
	sv.Assert(*opts.Index == want, "the number of an external routine is another one in the tree")
	sv.Observe("result", "accepted")
	sv.Cover("accept")
}

// P06_Long: 1..12 (or any of 13 numbers up to 300) parameters, parameter groups, directives, used units, exports,
// routines, nested routines.
// cover: accept
func P06_Long() { checkLong(longP06) }

func longP06(n int) (int, []rune) {
	s := ""
	list := func(before, after, sep string) {
		for i := 0; i < n; i++ {
			if i > 0 {
				s += sep
			}
			s += before + num(i) + after
		}
	}
	switch sv.Concrete(sv.Int("form", 0, 6)) {
	case 0:
		s = "procedure p("
		list("a", "", ",")
		s += ": Byte); begin end;"
	case 1:
		s = "procedure p("
		list("const a", ": Byte", ";")
		s += "); begin end;"
	case 2:
		s = "procedure p; " + repeat(n, "cdecl; ", "") + "begin end;"
	case 3:
		list("procedure p", "; begin end; ", "")
	case 4:
		list("procedure p", "; ", "")
		s += repeat(n, "begin s end; ", "")
	case 5:
		s = "program q; uses "
		list("a", "", ",")
		s += "; begin end."
		return eProgram, []rune(s)
	case 6:
		s = "program q; begin end exports "
		list("a", " index 1", ",")
		s += ";."
		return eProgram, []rune(s)
	}
	return eDecls, []rune(s)
}
