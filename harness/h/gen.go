package h

import "tpharness/sv"

// gen writes a text of the grammar. Wherever the grammar leaves a choice, the
// first alternative is the plainest one and costs nothing; any other costs one
// unit of fuel. All texts within the fuel are covered.
type gen struct {
	t    []rune
	fuel int
	n    int // choices so far
	ids  int // names made so far
	ops  []string
	both bool // also write the text in t2, every letter in either case
	t2   []rune
}

// pick chooses among k alternatives.
func (g *gen) pick(k int) int {
	if g.fuel == 0 {
		return 0
	}
	g.n++
	c := sv.Concrete(sv.Int("c"+num(g.n), 0, k-1))
	if c > 0 {
		g.fuel--
	}
	return c
}

// open chooses among k alternatives at no cost.
func (g *gen) open(tag string, k int) int { return sv.Concrete(sv.Int(tag, 0, k-1)) }

func (g *gen) w(s string) *gen {
	g.t = append(g.t, []rune(s)...)
	g.t = append(g.t, ' ')
	if g.both {
		if s[0] == '\'' {
			g.t2 = append(g.t2, []rune(s)...)
		} else {
			g.t2 = append(g.t2, casedWord("l"+num(len(g.t))+"_", s)...)
		}
		g.t2 = append(g.t2, ' ')
	}
	return g
}

// one: any of the words (one symbolic word).
func (g *gen) one(tag string, ws []string) {
	g.n++
	w := slot(tag+num(g.n), ws)
	g.t = append(append(g.t, w...), ' ')
	if g.both {
		g.t2 = append(append(g.t2, w...), ' ')
	}
}

// name: a name not used before (for declarations).
func (g *gen) name() string {
	g.ids++
	s := "n" + num(g.ids)
	g.w(s)
	return s
}

var counts = []int{1, 2, 3, 5}

// list: 1, 2, 3 or 5 elements.
func (g *gen) list(sep string, elem func()) {
	for i, n := 0, counts[g.pick(len(counts))]; i < n; i++ {
		if i > 0 {
			g.w(sep)
		}
		elem()
	}
}

// ---- expressions

var binOps = []string{"+", "-", "or", "xor", "*", "/", "div", "mod", "and", "shl", "shr", "as", "=", "<", ">", "<=", ">=", "<>", "in", "is"}

// one operator of each precedence, and one spelt as a word
var someOps = []string{"+", "*", "=", "and"}

func (g *gen) op() {
	if g.ops != nil {
		g.one("op", g.ops)
		return
	}
	g.one("op", someOps)
}

func (g *gen) expr() {
	switch k := g.pick(6); k {
	case 0:
		g.factor()
	case 1, 2, 3:
		g.factor()
		for ; k > 0; k-- {
			g.op()
			g.factor()
		}
	case 4:
		g.one("sign", []string{"+", "-"})
		g.factor()
	case 5:
		g.one("sign", []string{"+", "-"})
		g.factor()
		g.op()
		g.factor()
	}
}

func (g *gen) exprs() { g.list(",", g.expr) }

func (g *gen) factor() {
	switch g.pick(15) {
	case 0:
		g.w("a")
	case 1:
		g.w("12")
	case 2:
		g.w("'s t'")
	case 3:
		g.w("(")
		g.expr()
		g.w(")")
	case 4:
		g.w("not")
		g.factor()
	case 5:
		g.designator()
		g.w("(")
		g.exprs()
		g.w(")")
	case 6:
		g.designator()
	case 7:
		g.w("[")
		g.list(",", func() {
			g.expr()
			if g.pick(2) == 1 {
				g.w("..")
				g.expr()
			}
		})
		g.w("]")
	case 8:
		g.w("nil")
	case 9:
		g.w("@")
		g.designator()
	case 10:
		g.one("cast", []string{"Integer", "Real", "Pointer", "Boolean"})
		g.w("(")
		g.expr()
		g.w(")")
	case 11:
		g.w("1.5")
	case 12:
		g.one("val", []string{"true", "false"})
	case 13:
		g.w("[").w("]")
	case 14:
		g.w("$1F")
	}
}

func (g *gen) designator() {
	g.w("d")
	for n := g.pick(5); n > 0; n-- {
		switch g.pick(3) {
		case 0:
			g.w(".").w("m")
		case 1:
			g.w("[")
			g.exprs()
			g.w("]")
		case 2:
			g.w("^")
		}
	}
}

// ---- statements

func (g *gen) stmts() {
	n := g.pick(5)
	if n == 4 {
		return
	}
	for i := 0; i <= n; i++ {
		if i > 0 {
			g.w(";")
		}
		g.stmt()
	}
	if g.pick(2) == 1 {
		g.w(";")
	}
}

func (g *gen) stmt() {
	switch g.pick(20) {
	case 0:
		g.w("p")
	case 1:
		g.designator()
		g.w(":=")
		g.expr()
	case 2:
		g.designator()
		g.w("(")
		g.exprs()
		g.w(")")
	case 3:
		g.w("p").w("(").w(")")
	case 4:
		g.w("begin")
		g.stmts()
		g.w("end")
	case 5:
		g.w("if")
		g.expr()
		g.w("then")
		g.stmt()
	case 6:
		g.w("if")
		g.expr()
		g.w("then")
		g.stmt()
		g.w("else")
		g.stmt()
	case 7:
		g.caseStmt()
	case 8:
		g.w("repeat")
		g.stmts()
		g.w("until")
		g.expr()
	case 9:
		g.w("while")
		g.expr()
		g.w("do")
		g.stmt()
	case 10:
		g.w("for").w("i").w(":=")
		g.expr()
		g.one("dir", []string{"to", "downto"})
		g.expr()
		g.w("do")
		g.stmt()
	case 11:
		g.w("with")
		g.list(",", func() { g.w("o") })
		g.w("do")
		g.stmt()
	case 12:
		g.w("try")
		g.stmts()
		g.w("except")
		g.stmts()
		g.w("end")
	case 13:
		g.w("try")
		g.stmts()
		g.w("finally")
		g.stmts()
		g.w("end")
	case 14:
		g.w("raise")
		switch g.pick(3) {
		case 0:
			g.expr()
		case 1:
			g.expr()
			g.w("at")
			g.expr()
		}
	case 15:
		g.w("inherited")
	case 16:
		g.w("asm").w("mov").w("eax").w(",").w("1").w("end")
	case 17:
	case 18:
		g.try()
	case 19:
		g.w("l").w(":")
		g.stmt()
	}
}

func (g *gen) caseStmt() {
	g.w("case")
	g.expr()
	g.w("of")
	g.list(";", func() {
		g.list(",", func() {
			g.expr()
			if g.pick(2) == 1 {
				g.w("..")
				g.expr()
			}
		})
		g.w(":")
		g.stmt()
	})
	if g.pick(2) == 1 {
		g.w(";")
	}
	if g.pick(2) == 1 {
		g.w("else")
		g.stmts()
	}
	g.w("end")
}

func (g *gen) try() {
	g.w("try")
	g.stmts()
	g.w("except")
	g.list(";", func() {
		g.w("on")
		if g.pick(2) == 1 {
			g.w("e").w(":")
		}
		g.w("Integer").w("do")
		g.stmt()
	})
	if g.pick(2) == 1 {
		g.w(";")
	}
	if g.pick(2) == 1 {
		g.w("else")
		g.stmts()
	}
	g.w("end")
}

// ---- types

func (g *gen) ordinal() {
	switch g.pick(6) {
	case 0:
		g.w("Byte")
	case 1:
		g.w("1").w("..")
		g.expr()
	case 2:
		g.w("k").w("..").w("m")
	case 3:
		g.w("'a'").w("..").w("'z'")
	case 4:
		g.enum()
	case 5:
		g.w("Boolean")
	}
}

func (g *gen) enum() {
	g.w("(")
	g.list(",", func() {
		g.name()
		if g.pick(2) == 1 {
			g.w("=")
			g.expr()
		}
	})
	g.w(")")
}

func (g *gen) typeName() {
	switch g.pick(3) {
	case 0:
		g.w("Integer")
	case 1:
		g.w("string")
	case 2:
		g.w("TLater")
	}
}

func (g *gen) typ() {
	switch g.pick(20) {
	case 0:
		g.w("Integer")
	case 1:
		g.w("string")
	case 2:
		g.w("string").w("[")
		g.expr()
		g.w("]")
	case 3:
		g.w("TLater")
	case 4:
		g.w("^")
		g.typeName()
	case 5:
		g.enum()
	case 6:
		g.w("1").w("..")
		g.expr()
	case 7:
		g.w("k").w("..")
		g.expr()
	case 8:
		g.packed()
		g.w("array").w("of")
		g.typ()
	case 9:
		g.packed()
		g.w("array").w("[")
		g.list(",", g.ordinal)
		g.w("]").w("of")
		g.typ()
	case 10:
		g.packed()
		g.w("set").w("of")
		g.ordinal()
	case 11:
		g.packed()
		g.w("file").w("of")
		g.typeName()
	case 12:
		g.packed()
		g.w("record")
		g.fields(2)
		g.w("end")
	case 13:
		g.w("procedure")
		g.optParams()
		g.object()
	case 14:
		g.w("function")
		g.optParams()
		g.w(":")
		g.typeName()
		g.object()
	case 15:
		g.w("record").w("end")
	case 16:
		g.class()
	case 17:
		g.w("class").w("of").w("TObject")
	case 18:
		g.w("'a'").w("..").w("'f'")
	case 19:
		g.w("1.5").w("..").w("2.5")
	}
}

func (g *gen) packed() {
	if g.pick(2) == 1 {
		g.w("packed")
	}
}

func (g *gen) object() {
	if g.pick(2) == 1 {
		g.w("of").w("object")
	}
}

func (g *gen) names() { g.list(",", func() { g.name() }) }

func (g *gen) fields(depth int) {
	n := g.pick(5)
	if n == 4 {
		n = -1
	}
	for i := 0; i <= n; i++ {
		g.names()
		g.w(":")
		g.typ()
		if i < n || g.pick(2) == 0 {
			g.w(";")
		}
	}
	if depth > 0 && g.pick(2) == 1 {
		if len(g.t) > 2 && g.t[len(g.t)-2] != ';' && n >= 0 {
			g.w(";")
		}
		g.w("case")
		if g.pick(2) == 1 {
			g.name()
			g.w(":")
		}
		g.one("tag", []string{"Byte", "Boolean", "Char"})
		g.w("of")
		g.list(";", func() {
			g.exprs()
			g.w(":").w("(")
			g.fields(depth - 1)
			g.w(")")
		})
		if g.pick(2) == 1 {
			g.w(";")
		}
	}
}

func (g *gen) optParams() {
	switch g.pick(3) {
	case 1:
		g.params()
	case 2:
		g.w("(").w(")")
	}
}

func (g *gen) params() {
	g.w("(")
	g.list(";", func() {
		mode := g.pick(4)
		if mode > 0 {
			g.w([]string{"var", "const", "out"}[mode-1])
		}
		g.names()
		switch g.pick(5) {
		case 0:
			g.w(":")
			g.typeName()
		case 1:
			g.w(":").w("array").w("of")
			g.typeName()
		case 2:
			g.w(":").w("array").w("of").w("const")
		case 3:
			// no type
		case 4:
			g.w(":")
			g.typeName()
			g.w("=")
			g.expr()
		}
	})
	g.w(")")
}

func (g *gen) typeSection() {
	g.w("type")
	n := counts[g.pick(len(counts))]
	for i := 0; i < n; i++ {
		g.name()
		g.w("=")
		if g.pick(2) == 1 {
			g.w("type")
		}
		g.typ()
		if g.pick(2) == 1 {
			g.one("port", portabilityRef)
		}
		g.w(";")
	}
	switch g.pick(3) {
	case 1:
		g.w("TLater").w("=").w("Byte").w(";")
	case 2:
		g.w("TLater").w("=").w("class").w("end").w(";")
	}
}

// ---- classes

func (g *gen) class() {
	g.w("class")
	switch g.pick(3) {
	case 1:
		g.w("(")
		g.list(",", func() { g.w("TObject") })
		g.w(")")
	case 2:
		g.w("(").w("TObject").w(")")
		return
	}
	g.members("f0", false)
	for n := g.pick(4); n > 0; n-- {
		g.one("vis", []string{"private", "protected", "public", "published"})
		g.members("f"+num(n), true)
	}
	g.w("end")
}

func (g *gen) members(field string, vis bool) {
	switch g.pick(6) {
	case 0:
		g.w(field).w(":").w("Byte").w(";")
	case 1:
		if vis {
			break
		}
		g.w(field).w(":").w("Byte").w(";")
	case 2:
		g.w(field).w(",").w(field + "x").w(":")
		g.typ()
		g.w(";")
	case 3:
		g.w(field).w(":").w("Byte").w(";").w(field + "x").w(":")
		g.typ()
		g.w(";")
	case 4:
		g.w(field).w(":").w("Byte").w(";").w(field + "x").w(",").w(field + "y").w(",").w(field + "z").w(":").w("Char").w(";")
	case 5:
		g.w(field).w(":").w("Byte").w(";").w(field + "x").w(":").w("Word").w(";").w(field + "y").w(":").w("Word").w(";")
	}
	for n := g.pick(4); n > 0; n-- {
		g.method()
	}
	for n := g.pick(4); n > 0; n-- {
		g.property()
	}
}

func (g *gen) method() {
	switch g.pick(4) {
	case 0:
		g.w("procedure")
		g.name()
		g.optParams()
	case 1:
		g.w("function")
		g.name()
		g.optParams()
		g.w(":")
		g.typeName()
	case 2:
		g.w("constructor")
		g.name()
		g.optParams()
	case 3:
		g.w("destructor")
		g.name()
	}
	g.w(";")
	for n := g.pick(3); n > 0; n-- {
		g.one("dir", methodDirectives)
		g.w(";")
	}
}

func (g *gen) property() {
	g.w("property")
	g.name()
	switch g.pick(3) {
	case 0:
		g.w(":")
		g.typeName()
	case 1:
		g.w("[")
		g.list(";", func() {
			if g.pick(2) == 1 {
				g.w("const")
			}
			g.names()
			g.w(":")
			g.typeName()
		})
		g.w("]").w(":")
		g.typeName()
	}
	if g.pick(2) == 1 {
		g.w("index")
		g.expr()
	}
	switch g.pick(4) {
	case 0:
		g.w("read").w("f0")
	case 1:
		g.w("write").w("f0")
	case 2:
		g.w("read").w("f0").w("write").w("f0")
	}
	switch g.pick(4) {
	case 1:
		g.w("stored").w("true")
	case 2:
		g.w("stored").w("false")
	case 3:
		g.w("stored").w("f0")
	}
	switch g.pick(3) {
	case 1:
		g.w("default")
		g.expr()
	case 2:
		g.w("nodefault")
	}
	if g.pick(2) == 1 {
		g.w("implements").w("TObject")
	}
	g.w(";")
}

// ---- declarations

func (g *gen) section(depth int) {
	k := g.pick(7)
	if depth == 0 && k > 4 {
		k = 0
	}
	switch k {
	case 0:
		g.w("var")
		for n := counts[g.pick(len(counts))]; n > 0; n-- {
			g.names()
			g.w(":")
			g.typ()
			switch g.pick(3) {
			case 1:
				g.w("=")
				g.expr()
			case 2:
				g.w("absolute").w("other")
			}
			g.w(";")
		}
	case 1:
		g.w("const")
		for n := counts[g.pick(len(counts))]; n > 0; n-- {
			g.name()
			if g.pick(2) == 1 {
				g.w(":")
				g.typ()
			}
			g.w("=")
			g.expr()
			g.w(";")
		}
	case 2:
		g.typeSection()
	case 3:
		g.w("threadvar")
		for n := counts[g.pick(len(counts))]; n > 0; n-- {
			g.names()
			g.w(":")
			g.typ()
			g.w(";")
		}
	case 4:
		g.w("label")
		g.name()
		g.w(";")
	default:
		g.routine(depth-1, k == 6)
	}
}

func (g *gen) sections(depth int) {
	for n := g.pick(5); n > 0; n-- {
		g.section(depth)
	}
}

func (g *gen) heading(fn bool) {
	if fn {
		g.w("function")
	} else {
		g.w("procedure")
	}
	g.name()
	g.optParams()
	if fn {
		g.w(":")
		g.typeName()
	}
	g.w(";")
}

var plainDirectives = []string{"cdecl", "overload", "stdcall", "register", "pascal", "safecall", "far", "near", "export", "varargs", "local", "reintroduce", "override", "dynamic", "abstract"}

func (g *gen) routine(depth int, fn bool) {
	g.heading(fn)
	for n := g.pick(3); n > 0; n-- {
		g.one("dir", plainDirectives)
		g.w(";")
	}
	switch g.pick(7) {
	case 1:
		g.w("forward").w(";")
		return
	case 2:
		g.w("external").w(";")
		return
	case 3:
		g.w("external").w("'x.dll'").w(";")
		return
	case 4:
		g.w("external").w("'x.dll'").w("name").w("'y'").w(";")
		return
	case 5:
		g.w("external").w("'x.dll'").w("index").w("7").w(";")
		return
	case 6:
		g.w("external").w("'x.dll'").w(";").w("stdcall").w(";")
		return
	}
	g.block(depth)
	g.w(";")
}

func (g *gen) body() {
	if g.pick(2) == 1 {
		g.w("asm").w("nop").w("end")
		return
	}
	g.w("begin")
	g.stmts()
	g.w("end")
}

func (g *gen) exports() {
	for n := g.pick(3); n > 0; n-- {
		g.w("exports")
		g.list(",", func() {
			g.w("q")
			switch g.pick(5) {
			case 1:
				g.w("name")
				g.expr()
			case 2:
				g.w("index")
				g.expr()
			case 3:
				g.w("name").w("'n'").w("index").w("3")
			case 4:
				g.w("index").w("4").w("name").w("'m'")
			}
		})
		g.w(";")
	}
}

func (g *gen) block(depth int) {
	if depth >= 0 {
		g.sections(depth)
	}
	g.exports()
	g.body()
	g.exports()
}

func (g *gen) uses() {
	if g.pick(2) == 1 {
		g.w("uses")
		g.list(",", func() {
			g.name()
		})
		g.w(";")
	}
}

func (g *gen) program() {
	g.w("program").w("prog").w(";")
	g.uses()
	g.block(1)
	g.w(".")
}

func (g *gen) unit() {
	g.w("unit").w("un")
	if g.pick(2) == 1 {
		g.one("port", portabilityRef)
	}
	g.w(";").w("interface")
	g.uses()
	for n := g.pick(5); n > 0; n-- {
		switch g.pick(6) {
		case 0:
			g.w("var")
			g.names()
			g.w(":")
			g.typ()
			g.w(";")
		case 1:
			g.w("const")
			g.name()
			g.w("=")
			g.expr()
			g.w(";")
		case 2:
			g.typeSection()
		case 3:
			g.w("threadvar")
			g.names()
			g.w(":")
			g.typ()
			g.w(";")
		case 4:
			g.heading(false)
			for n := g.pick(3); n > 0; n-- {
				g.one("dir", plainDirectives)
				g.w(";")
			}
		case 5:
			g.heading(true)
			if g.pick(2) == 1 {
				g.w("external").w("'x.dll'").w("name").w("'y'").w(";")
			}
		}
	}
	g.w("implementation")
	g.uses()
	g.sections(1)
	g.exports()
	switch g.pick(3) {
	case 1:
		g.w("initialization")
		g.stmts()
	case 2:
		g.w("initialization")
		g.stmts()
		g.w("finalization")
		g.stmts()
	}
	g.w("end").w(".")
}

// generated: all texts of the entry within the fuel.
func generated(entry, fuel int) []rune {
	g := &gen{fuel: fuel}
	g.entry(entry)
	return g.t
}

func (g *gen) entry(entry int) {
	switch entry {
	case eExpr:
		g.expr()
	case eStmt:
		g.stmt()
	case eDecls:
		g.section(1)
	case eTypes:
		g.typeSection()
	case eProgram:
		g.program()
	case eUnit:
		g.unit()
	}
}
