package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"tpharness/sv"
)

// item is one element of the flat form in which a syntax tree is compared:
// a mark (operator, literal, construct), a declared name or a used name.
type item struct {
	k           byte // '.' mark, 'i' name, 'r' name that refers to something
	s           string
	p, e        int // start and end index of a name
	line, col   int
	eline, ecol int
	ref         int  // start index of the declaration referred to
	rk          byte // its kind
	cls         int  // reference side: token index
}

const (
	refUnbound = -2
	refBuiltin = -3
)

// dump turns a syntax tree into items, in source order.
type dump struct{ out []item }

func (d *dump) mark(s string) { d.out = append(d.out, item{k: '.', s: s}) }

func (d *dump) ident(i *ast.Ident) {
	if i == nil || i.Location == nil || i.Location.Start == nil || i.Location.End == nil {
		d.mark("<no identifier>")
		return
	}
	a, b := i.Location.Start, i.Location.End
	d.out = append(d.out, item{k: 'i', s: i.Name, p: a.Index, e: b.Index, line: a.Line, col: a.Col, eline: b.Line, ecol: b.Col})
}

func (d *dump) use(i *ast.Ident, ref *astcore.Decl) {
	d.ident(i)
	n := &d.out[len(d.out)-1]
	n.k = 'r'
	n.ref, n.rk = declPlace(ref)
}

func declPlace(ref *astcore.Decl) (int, byte) {
	if ref == nil {
		return refUnbound, '?'
	}
	if ref.Ident == nil || ref.Ident.Location == nil || ref.Ident.Location.Start == nil {
		return refBuiltin, declKind(ref.Node)
	}
	return ref.Ident.Location.Start.Index, declKind(ref.Node)
}

func declKind(n ast.Node) byte {
	switch n.(type) {
	case *ast.TypeDecl:
		return 'T'
	case *ast.VarDecl:
		return 'V'
	case *ast.ThreadVarDecl:
		return 'W'
	case *ast.ConstantDecl:
		return 'C'
	case *ast.LabelDeclSection:
		return 'L'
	case *ast.FormalParm:
		return 'P'
	case *ast.FunctionDecl:
		return 'F'
	case *ast.ExportedHeading:
		return 'H'
	case *ast.EnumeratedTypeElement:
		return 'E'
	case *ast.UsesClauseItem:
		return 'U'
	case *ast.ExceptionBlockHandlerDecl:
		return 'X'
	case *ast.Unit:
		return 'N'
	case *ast.Program:
		return 'G'
	case *ast.ClassField:
		return 'f'
	case *ast.ClassMethod:
		return 'm'
	case *ast.ClassProperty:
		return 'p'
	}
	return '-'
}

func (d *dump) exprs(es []*ast.Expression) {
	for _, e := range es {
		d.expr(e)
		d.mark(",")
	}
}

func (d *dump) expr(e *ast.Expression) {
	if e == nil || e.SimpleExpression == nil {
		d.mark("<no expression>")
		return
	}
	d.simple(e.SimpleExpression)
	for _, r := range e.RelOpSimpleExpressions {
		d.mark(r.RelOp)
		d.simple(r.SimpleExpression)
	}
	if len(e.RelOpSimpleExpressions) > 0 {
		d.mark(")rel")
	}
}

func (d *dump) simple(s *ast.SimpleExpression) {
	if s == nil {
		d.mark("<no simple expression>")
		return
	}
	if s.UnaryOp != nil {
		d.mark("unary")
		d.mark(*s.UnaryOp)
	}
	d.term(s.Term)
	for _, a := range s.AddOpTerms {
		d.mark(a.AddOp)
		d.term(a.Term)
	}
	if len(s.AddOpTerms) > 0 || s.UnaryOp != nil {
		d.mark(")add")
	}
}

func (d *dump) term(t *ast.Term) {
	if t == nil {
		d.mark("<no term>")
		return
	}
	d.factor(t.Factor)
	for _, m := range t.MulOpFactors {
		d.mark(m.MulOp)
		d.factor(m.Factor)
	}
	if len(t.MulOpFactors) > 0 {
		d.mark(")mul")
	}
}

func (d *dump) factor(f ast.Factor) {
	switch x := f.(type) {
	case *ast.DesignatorFactor:
		d.designator(x.Designator)
		if x.ExprList != nil {
			d.mark("call(")
			d.exprs(x.ExprList)
			d.mark(")")
		}
	case *ast.Address:
		d.mark("@")
		d.designator(x.Designator)
	case *ast.NumberFactor:
		d.mark("num")
		d.mark(x.Value)
	case *ast.StringFactor:
		d.mark("str")
		d.mark(x.Value)
	case *ast.ValueFactor:
		d.mark("val")
		d.mark(x.Value)
	case *ast.Nil:
		d.mark("nil")
	case *ast.Not:
		d.mark("not")
		d.factor(x.Factor)
	case *ast.Parentheses:
		d.mark("(")
		d.expr(x.Expression)
		d.mark(")")
	case *ast.SetConstructor:
		d.mark("[")
		for _, e := range x.SetElements {
			d.expr(e.Expression)
			if e.SubRangeEnd != nil {
				d.mark("..")
				d.expr(e.SubRangeEnd)
			}
			d.mark(",")
		}
		d.mark("]")
	case *ast.TypeCast:
		d.mark("cast")
		d.typeId(x.TypeId)
		d.expr(x.Expression)
		d.mark(")")
	default:
		d.mark("<unknown factor>")
	}
}

func (d *dump) designator(x *ast.Designator) {
	if x == nil {
		d.mark("<no designator>")
		return
	}
	d.qualId(x.QualId)
	for _, it := range x.Items {
		switch y := it.(type) {
		case *ast.DesignatorItemIdent:
			d.mark(".")
			d.ident(y.Ident)
		case ast.DesignatorItemExprList:
			d.mark("sub[")
			d.exprs(y)
			d.mark("]")
		case *ast.DesignatorItemDereference:
			d.mark("^")
		default:
			d.mark("<unknown suffix>")
		}
	}
	d.mark(")des")
}

func (d *dump) qualId(q *ast.QualId) {
	if q == nil || q.Ident == nil {
		d.mark("<no name>")
		return
	}
	if q.NamespaceId != nil {
		d.use(q.NamespaceId.Ident, q.NamespaceId.Ref)
		d.mark("qual")
	}
	d.use(q.Ident.Ident, q.Ident.Ref)
}

func (d *dump) stmts(l ast.StmtList) {
	for _, s := range l {
		d.stmt(s)
		d.mark(";")
	}
	d.mark(")stmts")
}

func (d *dump) stmt(s *ast.Statement) {
	if s == nil {
		d.mark("<no statement>")
		return
	}
	if s.LabelId != nil {
		d.mark("label")
		d.ident(s.LabelId)
	}
	switch x := s.Body.(type) {
	case nil:
		d.mark("empty")
	case *ast.CompoundStmt:
		d.mark("begin")
		d.stmts(x.StmtList)
	case *ast.CallStatement:
		d.designator(x.Designator)
		d.mark("do(")
		d.exprs(x.ExprList)
		d.mark(")")
	case *ast.AssignStatement:
		d.designator(x.Designator)
		d.mark(":=")
		d.expr(x.Expression)
	case *ast.InheritedStatement:
		d.mark("inherited")
	case *ast.GotoStatement:
		d.mark("goto")
		d.use(x.LabelId, x.Ref)
	case *ast.IfStmt:
		d.mark("if")
		d.expr(x.Condition)
		d.mark("then")
		d.stmt(x.Then)
		if x.Else != nil {
			d.mark("else")
			d.stmt(x.Else)
		}
		d.mark(")if")
	case *ast.CaseStmt:
		d.mark("case")
		d.expr(x.Expression)
		d.mark("of")
		for _, c := range x.Selectors {
			for _, l := range c.Labels {
				d.expr(l.ConstExpr)
				if l.ExtraConstExpr != nil {
					d.mark("..")
					d.expr(l.ExtraConstExpr)
				}
				d.mark(",")
			}
			d.mark(":")
			d.stmt(c.Statement)
		}
		if len(x.Else) > 0 {
			d.mark("else")
			d.stmts(x.Else)
		}
		d.mark(")case")
	case *ast.RepeatStmt:
		d.mark("repeat")
		d.stmts(x.StmtList)
		d.mark("until")
		d.expr(x.Condition)
	case *ast.WhileStmt:
		d.mark("while")
		d.expr(x.Condition)
		d.mark("do")
		d.stmt(x.Statement)
	case *ast.ForStmt:
		d.mark("for")
		d.qualId(x.QualId)
		d.mark(":=")
		d.expr(x.Initial)
		if x.Down {
			d.mark("downto")
		} else {
			d.mark("to")
		}
		d.expr(x.Terminal)
		d.mark("do")
		d.stmt(x.Statement)
	case *ast.WithStmt:
		d.mark("with")
		for _, q := range x.Objects {
			d.qualId(q)
			d.mark(",")
		}
		d.mark("do")
		d.stmt(x.Statement)
	case *ast.TryExceptStmt:
		d.mark("try")
		d.stmts(x.Statements)
		d.mark("except")
		if x.ExceptionBlock == nil {
			d.mark("<no exception block>")
			return
		}
		for _, h := range x.ExceptionBlock.Handlers {
			d.mark("on")
			if h.Decl == nil {
				d.mark("<no exception>")
			} else {
				if h.Decl.Ident != nil {
					d.ident(h.Decl.Ident)
					d.mark(":")
				}
				d.typ(h.Decl.Type)
			}
			d.mark("do")
			d.stmt(h.Statement)
		}
		if len(x.ExceptionBlock.Else) > 0 {
			d.mark("else")
			d.stmts(x.ExceptionBlock.Else)
		}
		d.mark(")except")
	case *ast.TryFinallyStmt:
		d.mark("try")
		d.stmts(x.Statements1)
		d.mark("finally")
		d.stmts(x.Statements2)
	case *ast.RaiseStmt:
		d.mark("raise")
		if x.Object != nil {
			d.expr(x.Object)
		}
		if x.Address != nil {
			d.mark("at")
			d.expr(x.Address)
		}
	case *ast.AssemblerStatement:
		d.mark("asm")
	default:
		d.mark("<unknown statement>")
	}
}

func (d *dump) typeId(t *ast.TypeId) {
	if t == nil {
		d.mark("<no type name>")
		return
	}
	if t.UnitId != nil {
		d.ident(t.UnitId)
		d.mark("qual")
	}
	d.use(t.Ident, t.Ref)
}

func (d *dump) idents(l ast.IdentList) {
	for _, i := range l {
		d.ident(i)
	}
}

func (d *dump) packed(b, is bool) {
	sv.Assert(b == is, "a type tells that it is packed but is not, or the reverse")
	if b {
		d.mark("packed")
	}
}

func (d *dump) typ(t ast.Type) {
	switch x := t.(type) {
	case *ast.TypeId:
		d.typeId(x)
	case ast.EnumeratedType:
		d.mark("enum")
		for _, e := range x {
			d.ident(e.Ident)
			if e.ConstExpr != nil {
				d.mark("=")
				d.expr(e.ConstExpr)
			}
		}
		d.mark(")enum")
	case *ast.SubrangeType:
		d.expr(x.Low)
		d.mark("..")
		d.expr(x.High)
	case *ast.FixedStringType:
		if id, ok := x.StringType.(*ast.TypeId); ok {
			d.typeId(id)
		} else {
			d.mark("<no string type>")
		}
		d.mark("len")
		d.expr(x.Length)
	case *ast.CustomPointerType:
		d.mark("^")
		d.typeId(x.TypeId)
	case *ast.ArrayType:
		d.packed(x.Packed, x.IsPacked())
		d.mark("array")
		for _, i := range x.IndexTypes {
			d.typ(i)
			d.mark(",")
		}
		d.mark("of")
		d.typ(x.BaseType)
	case *ast.SetType:
		d.packed(x.Packed, x.IsPacked())
		d.mark("set")
		d.typ(x.OrdinalType)
	case *ast.FileType:
		d.packed(x.Packed, x.IsPacked())
		d.mark("file")
		d.typeId(x.TypeId)
	case *ast.RecType:
		d.packed(x.Packed, x.IsPacked())
		d.mark("record")
		d.fieldList(x.FieldList)
		d.mark(")record")
	case *ast.ProcedureType:
		d.funcType(x.FunctionType)
		d.params(x.FormalParameters)
		if x.ReturnType != nil {
			d.mark("returns")
			d.typeId(x.ReturnType)
		}
		if x.OfObject {
			d.mark("of object")
		}
	case *ast.ForwardDeclaredClassType:
		d.mark("class forward")
	case *ast.CustomClassRefType:
		d.mark("class of")
		d.typeId(x.TypeId)
	case *ast.CustomClassType:
		d.class(x)
	default:
		d.mark("<unknown type>")
	}
}

func (d *dump) fieldList(f *ast.FieldList) {
	if f == nil {
		d.mark("<no fields>")
		return
	}
	for _, x := range f.FieldDecls {
		d.idents(x.IdentList)
		d.mark(":")
		d.typ(x.Type)
	}
	if v := f.VariantSection; v != nil {
		d.mark("case")
		if v.Ident != nil {
			d.ident(v.Ident)
			d.mark(":")
		}
		d.typ(v.TypeId)
		d.mark("of")
		for _, x := range v.RecVariants {
			d.exprs(x.ConstExprs)
			d.mark(":(")
			d.fieldList(x.FieldList)
			d.mark(")")
		}
	}
	d.mark(")fields")
}

func (d *dump) funcType(t ast.FunctionType) {
	switch t {
	case ast.FtProcedure:
		d.mark("procedure")
	case ast.FtFunction:
		d.mark("function")
	default:
		d.mark("<unknown routine kind>")
	}
}

func (d *dump) params(ps ast.FormalParameters) {
	for _, p := range ps {
		if p.Opt != nil {
			switch *p.Opt {
			case ast.FpoVar:
				d.mark("var")
			case ast.FpoConst:
				d.mark("const")
			case ast.FpoOut:
				d.mark("out")
			default:
				d.mark("<unknown mode>")
			}
		}
		if p.Parameter == nil {
			d.mark("<no parameter>")
			continue
		}
		d.idents(p.IdentList)
		if p.Type != nil {
			d.mark(":")
			if p.Type.IsArray {
				d.mark("array of")
			}
			if p.Type.Type == nil {
				d.mark("const")
			} else {
				d.typ(p.Type.Type)
			}
		}
		if p.ConstExpr != nil {
			d.mark("=")
			d.expr(p.ConstExpr)
		}
		d.mark(")param")
	}
	d.mark(")params")
}

func (d *dump) heading(h *ast.FunctionHeading) {
	if h == nil {
		d.mark("<no heading>")
		return
	}
	d.funcType(h.Type)
	d.ident(h.Ident)
	d.params(h.FormalParameters)
	if h.ReturnType != nil {
		d.mark("returns")
		d.typeId(h.ReturnType)
	}
}

func (d *dump) class(c *ast.CustomClassType) {
	d.mark("class")
	for _, t := range c.Heritage {
		d.typeId(t)
		d.mark(",")
	}
	for _, m := range c.Members {
		d.mark("section")
		d.mark(string(m.Visibility))
		for _, f := range m.ClassFieldList {
			d.idents(f.IdentList)
			d.mark(":")
			d.typ(f.Type)
		}
		for _, f := range m.ClassMethodList {
			d.mark("method")
			switch x := f.Heading.(type) {
			case *ast.FunctionHeading:
				d.heading(x)
			case *ast.ConstructorHeading:
				d.mark("constructor")
				d.ident(x.Ident)
				d.params(x.FormalParameters)
			case *ast.DestructorHeading:
				d.mark("destructor")
				d.ident(x.Ident)
			default:
				d.mark("<unknown heading>")
			}
			for _, x := range f.Directives {
				d.mark(string(x))
			}
		}
		for _, p := range m.ClassPropertyList {
			d.prop(p)
		}
	}
	d.mark(")class")
}

func (d *dump) prop(p *ast.ClassProperty) {
	d.mark("property")
	d.ident(p.Ident)
	if p.Interface != nil {
		if p.Interface.Parameters != nil {
			d.mark("[")
			d.params(p.Interface.Parameters)
		}
		d.mark(":")
		d.typeId(p.Interface.Type)
	}
	if p.Index != nil {
		d.mark("index")
		d.expr(p.Index)
	}
	if p.Read != nil {
		d.mark("read")
		d.use(p.Read.Ident, p.Read.Ref)
	}
	if p.Write != nil {
		d.mark("write")
		d.use(p.Write.Ident, p.Write.Ref)
	}
	if p.Stored != nil {
		d.mark("stored")
		if p.Stored.Constant != nil {
			if *p.Stored.Constant {
				d.mark("true")
			} else {
				d.mark("false")
			}
		}
		if p.Stored.IdentRef != nil {
			d.use(p.Stored.IdentRef.Ident, p.Stored.IdentRef.Ref)
		}
	}
	if p.Default != nil {
		if p.Default.NoDefault != nil {
			d.mark("nodefault")
		} else {
			d.mark("default")
			d.expr(p.Default.Value)
		}
	}
	if p.Implements != nil {
		d.mark("implements")
		d.typeId(p.Implements)
	}
	d.mark(")property")
}

func (d *dump) section(s ast.Node) {
	switch x := s.(type) {
	case *ast.LabelDeclSection:
		d.mark("label")
		d.ident(x.LabelId)
	case ast.ConstSection:
		d.mark("const")
		for _, c := range x {
			d.ident(c.Ident)
			if c.Type != nil {
				d.mark(":")
				d.typ(c.Type)
			}
			d.mark("=")
			d.expr(c.ConstExpr)
			d.portability(c.PortabilityDirective)
		}
		d.mark(")section")
	case ast.TypeSection:
		d.mark("type")
		for _, t := range x {
			d.ident(t.Ident)
			d.mark("=")
			d.typ(t.Type)
			d.portability(t.PortabilityDirective)
		}
		d.mark(")section")
	case ast.VarSection:
		d.mark("var")
		for _, v := range x {
			d.idents(v.IdentList)
			d.mark(":")
			d.typ(v.Type)
			if v.Absolute != nil {
				d.mark("absolute")
				if a, ok := v.Absolute.(*ast.VarDeclAbsoluteIdent); ok {
					d.ident((*ast.Ident)(a))
				} else {
					d.mark("<unknown absolute>")
				}
			}
			if v.ConstExpr != nil {
				d.mark("=")
				d.expr(v.ConstExpr)
			}
			d.portability(v.PortabilityDirective)
		}
		d.mark(")section")
	case ast.ThreadVarSection:
		d.mark("threadvar")
		for _, v := range x {
			d.idents(v.IdentList)
			d.mark(":")
			d.typ(v.Type)
		}
		d.mark(")section")
	case *ast.FunctionDecl:
		d.heading(x.FunctionHeading)
		d.directives(x.Directives, x.ExternalOptions)
		d.portability(x.PortabilityDirective)
		d.block(x.Block)
	case *ast.ExportedHeading:
		d.heading(x.FunctionHeading)
		d.directives(x.Directives, x.ExternalOptions)
	default:
		d.mark("<unknown section>")
	}
}

func (d *dump) portability(p *ast.PortabilityDirective) {
	if p != nil {
		d.mark("portability")
		d.mark(string(*p))
	}
}

func (d *dump) directives(l []ast.Directive, o *ast.ExternalOptions) {
	for _, x := range l {
		d.mark(string(x))
	}
	if o != nil {
		d.mark("library")
		d.mark(o.LibraryName)
		if o.Name != nil {
			d.mark("name")
			d.mark(*o.Name)
		}
		if o.Index != nil {
			d.mark("index")
			d.mark(num(*o.Index))
		}
	}
	d.mark(")heading")
}

func (d *dump) exports(l ast.ExportsStmts) {
	for _, s := range l {
		d.mark("exports")
		for _, i := range s.ExportsItems {
			d.ident(i.Ident)
			if i.Name != nil {
				d.mark("name")
				d.expr(i.Name)
			}
			if i.Index != nil {
				d.mark("index")
				d.expr(i.Index)
			}
			d.mark(",")
		}
	}
}

func (d *dump) block(b *ast.Block) {
	if b == nil {
		d.mark("<no block>")
		return
	}
	for _, s := range b.DeclSections {
		d.section(s)
	}
	d.exports(b.ExportsStmts1)
	switch x := b.Body.(type) {
	case nil:
		d.mark("no body")
	case *ast.CompoundStmt:
		d.mark("body")
		d.stmts(x.StmtList)
	case *ast.AssemblerStatement:
		d.mark("asm")
	default:
		d.mark("<unknown body>")
	}
	d.exports(b.ExportsStmts2)
	d.mark(")block")
}

func (d *dump) uses(u ast.UsesClause) {
	if u == nil {
		return
	}
	d.mark("uses")
	for _, i := range u {
		d.ident(i.Ident)
		if i.Path != nil {
			d.mark("in")
			d.mark(*i.Path)
		}
	}
	d.mark(")uses")
}

func (d *dump) program(p *ast.Program) {
	sv.Assert(p.GetIdent() == p.Ident && p.GetPath() == p.Path, "a program tells another name or path than it has")
	d.mark("program")
	d.ident(p.Ident)
	if p.ProgramBlock == nil {
		d.mark("<no program block>")
		return
	}
	d.uses(p.ProgramBlock.UsesClause)
	d.block(p.ProgramBlock.Block)
}

func (d *dump) unit(u *ast.Unit) {
	sv.Assert(u.GetIdent() == u.Ident && u.GetPath() == u.Path, "a unit tells another name or path than it has")
	d.mark("unit")
	d.ident(u.Ident)
	d.portability(u.PortabilityDirective)
	if u.InterfaceSection == nil || u.ImplementationSection == nil {
		d.mark("<incomplete unit>")
		return
	}
	d.mark("interface")
	d.uses(u.InterfaceSection.UsesClause)
	for _, s := range u.InterfaceSection.InterfaceDecls {
		d.section(s)
	}
	d.mark("implementation")
	d.uses(u.ImplementationSection.UsesClause)
	for _, s := range u.ImplementationSection.DeclSections {
		d.section(s)
	}
	d.exports(u.ImplementationSection.ExportsStmts)
	if u.InitSection != nil {
		d.mark("initialization")
		d.stmts(u.InitSection.InitializationStmts)
		d.mark("finalization")
		d.stmts(u.InitSection.FinalizationStmts)
	}
	d.mark(")unit")
}

// what a comparison looks at besides the shape of the tree
const (
	cmpShape = iota
	cmpRefs
	cmpPos
)

// sameItems asserts that the tree (got) is the one the reference demands.
func sameItems(text []rune, got, want []item, what int) {
	for i := range want {
		if i >= len(got) {
			sv.Fail("the tree ends early: the reference has more, starting with " + want[i].s)
		}
		g, w := got[i], want[i]
		if g.k != w.k {
			sv.Fail("the tree has " + g.s + " where the source says " + w.s)
		}
		sv.Assert(g.s == w.s, "the tree has another text than the source")
		if g.k == '.' {
			continue
		}
		if what == cmpPos {
			w.line, w.col = posAt(text, w.p)
			w.eline, w.ecol = posAt(text, w.e)
			sv.Assert(g.p == w.p && g.e == w.e && g.line == w.line && g.col == w.col && g.eline == w.eline && g.ecol == w.ecol, "an identifier has another position than in the source")
		}
		if g.k == 'r' && what == cmpRefs && w.rk != '*' {
			sv.Assert(g.ref == w.ref && g.rk == w.rk, "a name refers to another declaration than the scope rules say")
		}
	}
	if len(got) > len(want) {
		sv.Fail("the tree holds more than the source: " + got[len(want)].s)
	}
}

func itemsText(l []item) string {
	s := ""
	for _, i := range l {
		s += i.s
		if i.k == 'r' {
			s += "@" + num(i.ref) + string([]byte{i.rk})
		}
		s += " "
	}
	return s
}
