package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// ---- A01: a construct on its own and the same construct inside a program

// alone gives a parser on the first word of t, which stands where it stands behind before.
func alone(before string, t []rune, after string) *parser.Parser {
	src := append(blanks(len(before)), t...)
	src = append(src, []rune(after)...)
	ctx := parser.NewProgramContext(progPath)
	var p *parser.Parser
	if yes("unit") {
		p = parser.NewParser(parser.NewUnitContext(ctx, progPath))
	} else {
		p = parser.NewParser(ctx)
	}
	p.SetText(&src)
	p.NextToken()
	return p
}

// inside parses the program in which t stands between before and after.
func inside(before string, t []rune, after string) *ast.Block {
	src := append([]rune(before), t...)
	src = append(src, []rune(after)...)
	p := parser.NewProgramParser(parser.NewProgramContext(progPath))
	p.SetText(&src)
	p.NextToken()
	n, err := p.ParseProgram()
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		return nil
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	if n == nil || n.ProgramBlock == nil || n.ProgramBlock.Block == nil {
		sv.Fail("a program without a block is returned")
	}
	return n.ProgramBlock.Block
}

// agree: the construct alone is accepted, up to at, exactly if the program is, with the same tree.
func agree(p *parser.Parser, at int, err error, got, want func(*dump), in bool) {
	if !in {
		sv.Assert(err != nil || !standsAt(p, at), "a construct is accepted on its own and rejected in a program")
		return
	}
	if err != nil {
		sv.Fail("a construct is accepted in a program and rejected on its own")
	}
	a, b := &dump{}, &dump{}
	got(a)
	want(b)
	sv.Assert(len(a.out) == len(b.out), "a construct has another tree on its own than in a program")
	for i := range a.out {
		sv.Assert(a.out[i] == b.out[i], "a construct has another tree or other references on its own than in a program")
	}
}

// stopsAt: the parser is on the word that stands at the place.
func stopsAt(p *parser.Parser, at int) {
	sv.Assert(standsAt(p, at), "parsing a construct on its own stops elsewhere than behind it")
}

func standsAt(p *parser.Parser, at int) bool {
	t := p.CurrentToken()
	return t != nil && t.Start != nil && t.Start.Index == at
}

func aloneType(g *gen) {
	t := g.t
	const head = "program prog ; type "
	decl := append([]rune("zz = "), t...)
	b := inside(head, decl, "; begin end .")
	var want ast.Type
	if b != nil {
		s, ok := b.DeclSections[0].(ast.TypeSection)
		if !ok || len(s) != 1 {
			sv.Fail("a program with a type has no type section of one type")
		}
		want = s[0].Type
	}
	at := len(head) + len(decl)
	end := func(d *dump) { d.typ(want) }
	switch how := g.open("how", 4); how {
	case 0, 1:
		p := alone(head+"zz = ", t, "; begin end .")
		var n ast.Type
		var err error
		if how == 1 {
			sv.Assume(t[0] == 'I' || t[0] == 'T' || t[0] == 'k') // a name
			n, err = p.ParseTypeForIdentifier()
		} else {
			n, err = p.ParseType()
		}
		agree(p, at, err, func(d *dump) { d.typ(n) }, end, b != nil)
		if b != nil {
			stopsAt(p, at)
		}
	case 2:
		p := alone(head, decl, "; begin end .")
		n, err := p.ParseTypeDecl()
		agree(p, at, err, func(d *dump) { d.typ(n.Type) }, end, b != nil)
		if b != nil {
			stopsAt(p, at)
		}
	case 3:
		p := alone(head[:len(head)-5], append([]rune("type "), decl...), "; begin end .")
		n, err := p.ParseTypeSection(true)
		agree(p, at+2, err, func(d *dump) { d.typ(n[0].Type) }, end, b != nil)
		if b != nil {
			sv.Assert(len(n) == 1, "a section of one type has another number of them")
			stopsAt(p, at+2)
		}
	}
}

// A01_Types: types of up to 2 deviations from the plainest one, as the type of a declaration in a program and on their own, with the method for types, for
// types that begin with a name, for a declaration or for a section, in the context of a program or a unit: accepted alike, with the same tree, references and positions,
// and the parser stops behind the type.
// cover: accept
func A01_Types() {
	g := &gen{fuel: 2}
	g.typ()
	aloneType(g)
}

// A01X_Types: as A01_Types with up to 3 deviations.
// cover: accept
func A01X_Types() {
	g := &gen{fuel: 3}
	g.typ()
	aloneType(g)
}

func aloneStmt(g *gen) {
	t := g.t
	const head = "program prog ; "
	b := inside(head+"begin ", t, "end .")
	var want ast.StmtList
	if b != nil {
		c, ok := b.Body.(*ast.CompoundStmt)
		if !ok || c == nil {
			sv.Fail("a program with a body has no statements")
		}
		want = c.StmtList
	}
	end := func(d *dump) { d.stmts(want) }
	at := len(head) + len("begin ") + len(t)
	switch g.open("how", 3) {
	case 0:
		p := alone(head+"begin ", t, "end .")
		n, err := p.ParseStatement()
		agree(p, at, err, func(d *dump) {
			if n.LabelId != nil || n.Body != nil {
				d.stmts(ast.StmtList{n})
			} else {
				d.stmts(nil)
			}
		}, end, b != nil)
		if b != nil {
			stopsAt(p, at)
		}
	case 1:
		p := alone(head, append([]rune("begin "), t...), "end .")
		n, err := p.ParseCompoundStmt(true)
		agree(p, at+4, err, func(d *dump) { d.stmts(n.StmtList) }, end, b != nil)
		if b != nil {
			stopsAt(p, at+4)
		}
	case 2:
		p := alone(head, append([]rune("begin "), t...), "end .")
		n, err := p.ParseBlock()
		agree(p, at+4, err, func(d *dump) { d.block(n) }, func(d *dump) { d.block(b) }, b != nil)
		if b != nil {
			stopsAt(p, at+4)
		}
	}
}

// A01_Statements: statements of up to 2 deviations, as the body of a program and on their own, with the method for a statement, a compound statement or a block, in the context of a
// program or a unit.
// cover: accept
func A01_Statements() {
	g := &gen{fuel: 2}
	g.stmt()
	aloneStmt(g)
}

// A01X_Statements: as A01_Statements with up to 3 deviations.
// cover: accept
func A01X_Statements() {
	g := &gen{fuel: 3}
	g.stmt()
	aloneStmt(g)
}

func aloneExpr(g *gen) {
	t := g.t
	const head = "program prog ; const "
	decl := append([]rune("zz = "), t...)
	b := inside(head, decl, "; begin end .")
	var want *ast.Expression
	if b != nil {
		s, ok := b.DeclSections[0].(ast.ConstSection)
		if !ok || len(s) != 1 {
			sv.Fail("a program with a constant has no section of one constant")
		}
		want = s[0].ConstExpr
	}
	at := len(head) + len(decl)
	simple := want != nil && len(want.RelOpSimpleExpressions) == 0
	factor := simple && want.SimpleExpression.UnaryOp == nil && len(want.SimpleExpression.AddOpTerms) == 0 && len(want.SimpleExpression.Term.MulOpFactors) == 0
	set := false
	if factor {
		_, set = want.SimpleExpression.Term.Factor.(*ast.SetConstructor)
	}
	how := g.open("how", 5)
	if how == 4 {
		p := alone(head[:len(head)-6], append([]rune("const "), decl...), "; begin end .")
		n, err := p.ParseConstSection(true)
		agree(p, at+2, err, func(d *dump) { d.section(n) }, func(d *dump) { d.section(b.DeclSections[0].(ast.ConstSection)) }, b != nil)
		if b != nil {
			stopsAt(p, at+2)
		}
		return
	}
	p := alone(head+"zz = ", t, "; begin end .")
	var err error
	switch how {
	case 0:
		var n *ast.Expression
		n, err = p.ParseExpression()
		agree(p, at, err, func(d *dump) { d.expr(n) }, func(d *dump) { d.expr(want) }, b != nil)
	case 1:
		sv.Assume(simple)
		var n *ast.SimpleExpression
		n, err = p.ParseSimpleExpression()
		agree(p, at, err, func(d *dump) { d.simple(n) }, func(d *dump) { d.simple(want.SimpleExpression) }, b != nil)
		sv.Cover("simple")
	case 2:
		sv.Assume(factor)
		var n ast.Factor
		n, err = p.ParseFactor()
		agree(p, at, err, func(d *dump) { d.factor(n) }, func(d *dump) { d.factor(want.SimpleExpression.Term.Factor) }, b != nil)
		sv.Cover("factor")
	case 3:
		sv.Assume(set)
		var n *ast.SetConstructor
		n, err = p.ParseSetConstructor()
		agree(p, at, err, func(d *dump) { d.factor(n) }, func(d *dump) { d.factor(want.SimpleExpression.Term.Factor) }, b != nil)
		sv.Cover("set")
		return // this one stops on the closing bracket
	}
	if b != nil {
		stopsAt(p, at)
	}
}

// A01_Expressions: expressions of up to 2 deviations with one operator of each kind, as the value of a constant in a program and on their own, with the method for expressions, simple
// expressions, factors, set constructors (where they are one) or a section of constants, in the context of a program or a unit.
// cover: accept simple factor set
func A01_Expressions() {
	g := &gen{fuel: 2}
	g.expr()
	aloneExpr(g)
}

// A01X_Expressions: as A01_Expressions with any operator.
// cover: accept simple factor set
func A01X_Expressions() {
	g := &gen{fuel: 2, ops: binOps}
	g.expr()
	aloneExpr(g)
}

func aloneSection(g *gen) {
	t := g.t
	const head = "program prog ; "
	b := inside(head, t, "begin end .")
	var want ast.Node
	if b != nil {
		if len(b.DeclSections) != 1 {
			sv.Fail("a program with one section has another number of them")
		}
		want, _ = b.DeclSections[0].(ast.Node)
	}
	end := func(d *dump) { d.section(want) }
	p := alone(head, t, "begin end .")
	at := len(head) + len(t)
	if yes("block") {
		n, err := p.ParseBlock()
		agree(p, at+len("begin end "), err, func(d *dump) { d.block(n) }, func(d *dump) { d.block(b) }, b != nil)
		if b != nil {
			stopsAt(p, at+len("begin end "))
		}
		return
	}
	switch string(t[:2]) {
	case "va":
		n, err := p.ParseVarSection(true)
		agree(p, at, err, func(d *dump) { d.section(n) }, end, b != nil)
		sv.Cover("var")
	case "co":
		n, err := p.ParseConstSection(true)
		agree(p, at, err, func(d *dump) { d.section(n) }, end, b != nil)
		sv.Cover("const")
	case "ty":
		n, err := p.ParseTypeSection(true)
		agree(p, at, err, func(d *dump) { d.section(n) }, end, b != nil)
		sv.Cover("type")
	case "pr", "fu":
		n, err := p.ParseProcedureDeclSection()
		agree(p, at, err, func(d *dump) { d.section(n) }, end, b != nil)
		sv.Cover("routine")
		return // this one may stop on the semicolon of the declaration
	default:
		return
	}
	if b != nil {
		stopsAt(p, at)
	}
}

// A01_Sections: sections of variables, constants, types or one routine, of up to 2 deviations, in a program and on their own, with the method for the section or the one for a block,
// in the context of a program or a unit.
// cover: accept var const type routine
func A01_Sections() {
	g := &gen{fuel: 2}
	g.section(1)
	aloneSection(g)
}

// A01X_Sections: as A01_Sections with up to 3 deviations.
// cover: accept var const type routine
func A01X_Sections() {
	g := &gen{fuel: 3}
	g.section(1)
	aloneSection(g)
}

// A01_Headings: headings of routines of up to 2 deviations: their parameters on their own, and the heading in the interface section of a unit and on its own.
// cover: accept params heading
func A01_Headings() {
	g := &gen{fuel: 2}
	if yes("params") {
		const head = "program prog ; procedure zz "
		g.params()
		b := inside(head, g.t, "; begin end ; begin end .")
		var want ast.FormalParameters
		if b != nil {
			f, ok := b.DeclSections[0].(*ast.FunctionDecl)
			if !ok || f.FunctionHeading == nil {
				sv.Fail("a program with a routine does not have it")
			}
			want = f.FormalParameters
		}
		p := alone(head, g.t, "; begin end ; begin end .")
		n, err := p.ParseFormalParameters('(', ')')
		agree(p, len(head)+len(g.t), err, func(d *dump) { d.params(n) }, func(d *dump) { d.params(want) }, b != nil)
		if b != nil {
			stopsAt(p, len(head)+len(g.t))
		}
		sv.Cover("params")
		return
	}
	g.heading(yes("function"))
	if yes("directive") {
		g.one("dir", plainDirectives)
		g.w(";")
	}
	const head = "unit un ; interface "
	x := runRealAs(eUnit, append(append([]rune(head), g.t...), []rune("implementation end .")...), true, false)
	p := alone(head, g.t, "implementation end .")
	n, err := p.ParseExportedHeading()
	if err == nil {
		sv.Observe("result", "accepted")
		sv.Cover("accept")
	} else {
		sv.Observe("result", "rejected")
	}
	sv.Assert((err == nil) == (x.err == nil), "a heading is accepted on its own and rejected in a unit, or the reverse")
	if err == nil {
		d := &dump{}
		d.section(n)
		sv.Assert(len(x.roots) == 1, "a unit gives no tree")
		u, ok := x.roots[0].(*ast.Unit)
		if !ok || u.InterfaceSection == nil || len(u.InterfaceSection.InterfaceDecls) != 1 {
			sv.Fail("a unit with one heading has another number of them")
		}
		w := &dump{}
		w.section(u.InterfaceSection.InterfaceDecls[0])
		sv.Assert(len(d.out) == len(w.out), "a heading has another tree on its own than in a unit")
		for i := range d.out {
			sv.Assert(d.out[i] == w.out[i], "a heading has another tree on its own than in a unit")
		}
		stopsAt(p, len(head)+len(g.t))
		sv.Cover("heading")
	}
}

// A01_Names: lists of 1 to 5 names of any letters before a colon, as the names of variables in a program and on their own.
// cover: accept
func A01_Names() {
	var t []rune
	for i, n := 0, sv.Concrete(sv.Int("count", 1, 5)); i < n; i++ {
		if i > 0 {
			t = append(t, ',', ' ')
		}
		t = append(append(t, 'v', rune('0'+i)), letter("n"+num(i))...)
		t = append(t, ' ')
	}
	const head = "program prog ; var "
	b := inside(head, t, ": Byte ; begin end .")
	var want ast.IdentList
	if b != nil {
		s, ok := b.DeclSections[0].(ast.VarSection)
		if !ok || len(s) != 1 {
			sv.Fail("a program with a declaration of variables does not have it")
		}
		want = s[0].IdentList
	}
	p := alone(head, t, ": Byte ; begin end .")
	n, err := p.ParseIdentList(':')
	agree(p, len(head)+len(t), err, func(d *dump) { d.idents(*n) }, func(d *dump) { d.idents(want) }, b != nil)
	if b != nil {
		stopsAt(p, len(head)+len(t))
	}
}

// words that do not begin the construct; the last stands for the end of the text
var elsewhere = []string{"begin", "end", "var", "const", "type", "threadvar", "label", "exports", "procedure", "function", "a", "12", "'x'", ";", ".", "(", "Integer", "string", "uses", "property", "private", ""}

// A01_Optional: where one of 21 other words stands, before what would follow the right one, or the text ends, the methods for optional sections and bodies return nothing without an
// error and stay where they are if the part is optional, and an error if it is required.
// cover: optional required
func A01_Optional() {
	w := elsewhere[sv.Concrete(sv.Int("word", 0, len(elsewhere)-1))]
	what := sv.Concrete(sv.Int("what", 0, 3))
	sv.Assume(w != []string{"var", "const", "type", "begin"}[what])
	var src []rune
	if w != "" {
		src = []rune(w + []string{" b : Byte ; end", " b = 1 ; end", " b = Byte ; end", " b ; end"}[what])
	}
	p := parser.NewParser(parser.NewProgramContext(progPath))
	p.SetText(&src)
	p.NextToken()
	req := yes("required")
	var err error
	var none bool
	switch what {
	case 0:
		n, e := p.ParseVarSection(req)
		err, none = e, n == nil
	case 1:
		n, e := p.ParseConstSection(req)
		err, none = e, n == nil
	case 2:
		n, e := p.ParseTypeSection(req)
		err, none = e, n == nil
	case 3:
		n, e := p.ParseCompoundStmt(req)
		err, none = e, n == nil
	}
	if req {
		sv.Observe("result", "required")
		sv.Cover("required")
		sv.Assert(err != nil, "a required part that is not there is no error")
		return
	}
	sv.Observe("result", "optional")
	sv.Cover("optional")
	sv.Assert(err == nil, "an optional part that is not there is an error")
	sv.Assert(none, "an optional part that is not there is returned")
	stopsAt(p, 0)
}
