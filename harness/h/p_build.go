package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/token"
	"tpharness/sv"
)

// ---- B01: the constructors of nodes

// named is a name in one of the forms the constructors take, and what the identifier must be.
type namedArg struct {
	arg  interface{}
	id   *ast.Ident
	same bool // the very identifier is given
	text []rune
}

func nameToken(tag string) (*token.Token, []rune) {
	text := append([]rune{' '}, anyShort(tag)...)
	t := token.NewTokenizer(&text, 0).GetNext()
	return t, text[1:]
}

const identForms = 4

// anIdentArg: a value or a pointer, identifier or token.
func anIdentArg(tag string, form int) namedArg {
	if form < 2 {
		w := anyShort(tag)
		id := &ast.Ident{Name: string(w), Location: astcore.NewLocation(nil, nil)}
		if form == 0 {
			return namedArg{id, id, true, w}
		}
		return namedArg{*id, id, false, w}
	}
	t, w := nameToken(tag)
	id := &ast.Ident{Name: string(w), Location: astcore.NewLocation(t.Start, t.End)}
	if form == 2 {
		return namedArg{t, id, false, w}
	}
	return namedArg{*t, id, false, w}
}

func (n namedArg) is(id *ast.Ident, msg string) {
	sv.Assert(id != nil && (!n.same || id == n.id), msg)
	sv.Assert(id.Name == n.id.Name && id.Location != nil, msg)
	sv.Assert(id.Location.Start == n.id.Location.Start && id.Location.End == n.id.Location.End, msg)
}

func refIs(r *ast.IdentRef, n namedArg, ref *astcore.Decl, msg string) {
	sv.Assert(r != nil && r.Ref == ref, msg)
	n.is(r.Ident, msg)
}

func aDeclOf(w string) *astcore.Decl {
	c := &ast.ConstantDecl{Ident: &ast.Ident{Name: w}}
	return c.ToDeclarations()[0]
}

const builtWrong = "a constructor builds another node than the one of its arguments"

// B01_Expressions: NewExpression, NewSimpleExpression, NewTerm, NewDesignatorFactor, NewDesignator and NewConstExpr of every kind of operand in every form, any name: the node
// of that operand and nothing else.
// cover: done
func B01_Expressions() {
	f := sv.Concrete(sv.Int("form", 0, 20))
	var arg interface{}
	var n namedArg
	var ref *astcore.Decl
	var qual *ast.QualId
	var desig *ast.Designator
	var df *ast.DesignatorFactor
	var factor ast.Factor
	var term *ast.Term
	var simple *ast.SimpleExpression
	var expr *ast.Expression
	inner := &ast.Expression{SimpleExpression: &ast.SimpleExpression{Term: &ast.Term{Factor: &ast.Nil{}}}}
	n = anIdentArg("n", f%identForms)
	switch f {
	case 0, 1, 2, 3:
		arg = n.arg
	case 4, 5:
		ref = aDeclOf("x")
		r := ast.NewIdentRef(n.id, ref)
		arg = r
		if f == 5 {
			arg = *r
		}
		n.same = true
	case 6:
		qual = ast.NewQualId(nil, ast.NewIdentRef(n.id, nil))
		arg = qual
	case 7:
		desig = &ast.Designator{QualId: ast.NewQualId(nil, ast.NewIdentRef(n.id, nil))}
		arg = desig
	case 8:
		df = &ast.DesignatorFactor{Designator: &ast.Designator{}}
		factor = df
		arg = df
	case 9:
		factor = ast.NewNumber(string(n.text))
	case 10:
		factor = ast.NewString(string(n.text))
	case 11:
		factor = ast.NewValueFactor(string(n.text))
	case 12:
		factor = ast.NewNil()
	case 13:
		factor = &ast.Parentheses{Expression: inner}
	case 14:
		factor = &ast.Not{Factor: &ast.Nil{}}
	case 15:
		factor = &ast.SetConstructor{SetElements: []*ast.SetElement{ast.NewSetElement(inner)}}
	case 16:
		factor = &ast.Address{Designator: &ast.Designator{}}
	case 17:
		factor = &ast.TypeCast{Expression: inner}
	case 18:
		term = &ast.Term{Factor: &ast.Nil{}}
		arg = term
	case 19:
		simple = &ast.SimpleExpression{Term: &ast.Term{Factor: &ast.Nil{}}}
		arg = simple
	case 20:
		expr = inner
		arg = expr
	}
	if f >= 9 && f <= 17 {
		arg = factor
	}
	sv.Observe("form", num(f))
	sv.Cover("done")
	// what the constructor of each level makes
	var e *ast.Expression
	var s *ast.SimpleExpression
	var t *ast.Term
	var x ast.Factor
	var d *ast.Designator
	level := sv.Concrete(sv.Int("level", 0, 5))
	switch level {
	case 0:
		e = ast.NewExpression(arg)
	case 1:
		e = ast.NewConstExpr(arg)
	case 2:
		sv.Assume(f < 20)
		s = ast.NewSimpleExpression(arg)
	case 3:
		sv.Assume(f < 19)
		t = ast.NewTerm(arg)
	case 4:
		sv.Assume(f < 9)
		x = ast.NewDesignatorFactor(arg)
	case 5:
		sv.Assume(f < 8)
		d = ast.NewDesignator(arg)
	}
	if level < 2 {
		sv.Assert(e != nil && len(e.RelOpSimpleExpressions) == 0, builtWrong)
		if expr != nil {
			sv.Assert(e == expr, builtWrong)
			return
		}
		s = e.SimpleExpression
	}
	if level < 3 {
		sv.Assert(s != nil && s.UnaryOp == nil && len(s.AddOpTerms) == 0, builtWrong)
		if simple != nil {
			sv.Assert(s == simple, builtWrong)
			return
		}
		t = s.Term
	}
	if level < 4 {
		sv.Assert(t != nil && len(t.MulOpFactors) == 0, builtWrong)
		if term != nil {
			sv.Assert(t == term, builtWrong)
			return
		}
		x = t.Factor
	}
	if level < 5 {
		if factor != nil {
			sv.Assert(x == factor, builtWrong)
			switch y := x.(type) {
			case *ast.NumberFactor:
				sv.Assert(f == 9 && y.Value == string(n.text), builtWrong)
			case *ast.StringFactor:
				sv.Assert(f == 10 && y.Value == string(n.text), builtWrong)
			case *ast.ValueFactor:
				sv.Assert(f == 11 && y.Value == string(n.text), builtWrong)
			}
			return
		}
		y, ok := x.(*ast.DesignatorFactor)
		sv.Assert(ok && len(y.ExprList) == 0, builtWrong)
		d = y.Designator
	}
	sv.Assert(d != nil && len(d.Items) == 0 && (desig == nil || d == desig), builtWrong)
	sv.Assert(d.QualId != nil && (qual == nil || d.QualId == qual) && d.QualId.NamespaceId == nil, builtWrong)
	refIs(d.QualId.Ident, n, ref, builtWrong)
}

// B01_Names: the constructors of identifiers, lists of identifiers, names of types, units and items of a uses clause, in every form of their
// arguments, any names.
// cover: done
func B01_Names() {
	f := sv.Concrete(sv.Int("form", 0, identForms-1))
	n := anIdentArg("n", f)
	sv.Cover("done")
	switch sv.Concrete(sv.Int("what", 0, 9)) {
	case 0:
		n.is(ast.NewIdentFrom(n.arg), builtWrong)
	case 1:
		n.is((*ast.Ident)(ast.NewUnitId(n.arg)), builtWrong)
	case 2:
		a := ast.NewVarDeclAbsoluteIdent(n.arg)
		n.same = false
		n.is((*ast.Ident)(a), builtWrong)
	case 3:
		sv.Assume(f == 0 || f == 2)
		n.is(ast.NewDesignatorItemIdent(n.arg).Ident, builtWrong)
		i := ast.NewDesignatorItemIdent(n.arg)
		sv.Assert(ast.NewDesignatorItemIdent(i) == i, builtWrong)
	case 4:
		var ref *astcore.Decl
		args := []interface{}{}
		m := anIdentArg("m", f)
		unit := sv.Concrete(sv.Int("unit", 0, 1)) == 1
		if unit {
			args = append(args, m.arg)
		}
		if sv.Concrete(sv.Int("ref", 0, 1)) == 1 {
			ref = aDeclOf("x")
			args = append(args, ref)
		}
		t := ast.NewTypeId(n.arg, args...)
		sv.Assert(t != nil && t.Ref == ref, builtWrong)
		if unit {
			n.is(t.UnitId, builtWrong)
			m.is(t.Ident, builtWrong)
		} else {
			sv.Assert(t.UnitId == nil, builtWrong)
			n.is(t.Ident, builtWrong)
		}
	case 5:
		a := []interface{}{n.arg}
		all := []namedArg{n}
		for i := 1; i <= sv.Concrete(sv.Int("more", 0, 2)); i++ {
			m := anIdentArg("m"+num(i), (f+i)%identForms)
			a = append(a, m.arg)
			all = append(all, m)
		}
		var l ast.IdentList
		if sv.Concrete(sv.Int("how", 0, 1)) == 0 {
			sv.Assume(len(a) > 1 || f < 2)
			l = ast.NewIdentList(a...)
		} else {
			l = ast.NewIdentList(a)
		}
		sv.Assert(len(l) == len(all), builtWrong)
		for i := range all {
			all[i].is(l[i], builtWrong)
		}
	case 6:
		l := ast.IdentList{n.id, {Name: "z"}}
		m := ast.NewIdentList(l)
		if f > 1 {
			m = ast.NewIdentList([]*ast.Ident{n.id, l[1]})
		}
		sv.Assert(len(m) == 2 && m[0] == l[0] && m[1] == l[1], builtWrong)
	case 7:
		sv.Assume(f < 2)
		var paths []string
		if sv.Concrete(sv.Int("path", 0, 1)) == 1 {
			paths = []string{string(anyShort("p"))}
		}
		u := ast.NewUnitRef(n.arg, paths...)
		sv.Assert(u != nil && u.Unit == nil && (u.Path == nil) == (paths == nil) && (paths == nil || *u.Path == paths[0]), builtWrong)
		n.is(u.Ident, builtWrong)
	case 8:
		l := ast.NewIdentList([]string{string(n.text), "z"})
		sv.Assert(len(l) == 2 && l[0] != nil && l[0].Name == string(n.text) && l[1] != nil && l[1].Name == "z", builtWrong)
	case 9:
		u := ast.NewUnitRef(string(n.text))
		sv.Assert(u != nil && u.Ident != nil && u.Ident.Name == string(n.text) && u.Path == nil, builtWrong)
	}
}

// B01_Parameters: NewParameterType, NewArrayParameterType, NewParameter and NewFormalParm in every form of their arguments, any names.
// cover: done
func B01_Parameters() {
	sv.Cover("done")
	n := anIdentArg("n", sv.Concrete(sv.Int("name", 0, 1)))
	m := anIdentArg("m", 0)
	typ := sv.Concrete(sv.Int("type", 0, 5))
	id := ast.NewTypeId(m.id)
	rec := &ast.RecType{}
	arr := false
	var targ interface{}
	given := &ast.ParameterType{Type: rec, IsArray: true}
	switch typ {
	case 1:
		targ = m.arg
	case 2:
		targ = id
	case 3:
		targ = given
		arr = true
	case 4:
		targ = *given
		arr = true
	case 5:
		targ = rec
	}
	typeIs := func(p *ast.ParameterType, arr bool) {
		sv.Assert(p != nil && p.IsArray == arr, builtWrong)
		switch typ {
		case 0:
			sv.Assert(p.Type == nil, builtWrong)
		case 1:
			t, ok := p.Type.(*ast.TypeId)
			sv.Assert(ok && t.Ident == m.id && t.UnitId == nil && t.Ref == nil, builtWrong)
		case 2:
			sv.Assert(p.Type == ast.Type(id), builtWrong)
		default:
			sv.Assert(p.Type == ast.Type(rec), builtWrong)
		}
	}
	paramIs := func(p *ast.Parameter, value *ast.ConstExpr) {
		sv.Assert(p != nil && len(p.IdentList) == 1, builtWrong)
		n.is(p.IdentList[0], builtWrong)
		if typ == 0 {
			sv.Assert(p.Type == nil, builtWrong)
		} else {
			typeIs(p.Type, arr)
		}
		sv.Assert(p.ConstExpr == value, builtWrong)
	}
	switch sv.Concrete(sv.Int("what", 0, 4)) {
	case 0:
		typeIs(ast.NewParameterType(targ), arr)
	case 1:
		typeIs(ast.NewArrayParameterType(targ), true)
	case 2:
		v := ast.NewConstExpr(ast.NewNumber("1"))
		switch sv.Concrete(sv.Int("value", 0, 3)) {
		case 0:
			paramIs(ast.NewParameter(n.arg, targ), nil)
		case 1:
			paramIs(ast.NewParameter(n.arg, targ, v), v)
		case 2:
			p := ast.NewParameter(n.arg, targ, *v)
			sv.Assert(p.ConstExpr != nil && p.ConstExpr.SimpleExpression == v.SimpleExpression && p.ConstExpr.RelOpSimpleExpressions == nil, builtWrong)
			paramIs(p, p.ConstExpr)
		case 3:
			x := ast.NewNumber("2")
			p := ast.NewParameter(n.arg, targ, x)
			sv.Assert(p.ConstExpr != nil && p.ConstExpr.SimpleExpression.Term.Factor == ast.Factor(x), builtWrong)
			paramIs(p, p.ConstExpr)
		}
	case 3:
		p := ast.NewParameter(n.arg, targ)
		f := ast.NewFormalParm(p)
		sv.Assert(f.Opt == nil && f.Parameter == p, builtWrong)
		f = ast.NewFormalParm(*p)
		sv.Assert(f.Opt == nil, builtWrong)
		paramIs(f.Parameter, nil)
		f = ast.NewFormalParm(n.arg, targ)
		sv.Assert(f.Opt == nil, builtWrong)
		paramIs(f.Parameter, nil)
	case 4:
		o := sv.Concrete(sv.Int("option", 0, 2))
		want := []ast.FormalParmOption{ast.FpoVar, ast.FpoConst, ast.FpoOut}[o]
		var opt interface{}
		switch sv.Concrete(sv.Int("how", 0, 2)) {
		case 0:
			opt = want
		case 1:
			opt = &want
		case 2:
			opt = []string{"VAR", "CONST", "OUT"}[o]
		}
		f := ast.NewFormalParm(n.arg, targ, opt)
		sv.Assert(f.Opt != nil && *f.Opt == want, builtWrong)
		sv.Assert(string(*f.Opt) == []string{"VAR", "CONST", "OUT"}[o], builtWrong)
		paramIs(f.Parameter, nil)
		l := f.ToDeclarations()
		sv.Assert(len(l) == 1 && l[0].Ident == f.IdentList[0] && l[0].Node == ast.Node(f), builtWrong)
	}
}

// B01_Types: the constructors of names of built-in types of each kind with every built-in name of up to 10 letters in any letter case, and any other name of one or two
// characters: bound to the built-in type exactly if it is of that kind.
// cover: bound free
func B01_Types() {
	groups := [][]string{builtReal, builtOrdinal, builtString, {"POINTER", "PCHAR", "PANSICHAR", "PWIDECHAR"}, {"VARIANT", "OLEVARIANT"}}
	g := sv.Concrete(sv.Int("group", 0, 5))
	var w []rune
	if g < 5 {
		k := sv.Concrete(sv.Int("name", 0, 12))
		if k >= len(groups[g]) {
			return
		}
		w = casedWord("c", groups[g][k])
	} else {
		w = anyShort("n")
	}
	id := &ast.Ident{Name: string(w)}
	var t *ast.TypeId
	kind := sv.Concrete(sv.Int("kind", 0, 6))
	var length *ast.ConstExpr
	switch kind {
	case 0:
		t = ast.NewRealType(id)
	case 1:
		t = ast.NewOrdIdent(id)
	case 2:
		t = ast.NewStringType(id)
	case 3:
		t = ast.NewPointerType(id)
	case 4:
		t = ast.NewVariantType(id)
	case 5:
		kind = 3
		t = ast.NewEmbeddedPointerType(id)
	case 6:
		kind = 2
		length = ast.NewConstExpr(ast.NewNumber("7"))
		f := ast.NewFixedStringType(id, length)
		sv.Assert(f != nil && f.Length == length && f.IsStringType(), builtWrong)
		x, ok := f.StringType.(*ast.TypeId)
		sv.Assert(ok, builtWrong)
		t = x
	}
	sv.Assert(t != nil && t.Ident == id && t.UnitId == nil, builtWrong)
	sv.Assert((t.Ref != nil) == (kind == g), "the name of a type is bound to a built-in type of another kind, or not to its own")
	is := []bool{t.IsRealType(), t.IsOrdIdent(), t.IsStringType(), t.IsPointerType(), t.IsVariantType()}
	for k, b := range is {
		sv.Assert(b == (k == kind && k == g), "the name of a type is of another kind")
	}
	sv.Assert(t.IsSimpleType() == (t.IsRealType() || t.IsOrdIdent()) && t.IsOrdinalType() == t.IsOrdIdent(), "the name of a type is of another kind")
	if t.Ref != nil {
		sv.Cover("bound")
		d := ast.EmbeddedTypeDeclMap.Get(string(w))
		sv.Assert(d == t.Ref && sameName([]rune(d.Ident.Name), w), "the name of a type is bound to another built-in type")
	} else {
		sv.Cover("free")
	}
}

// B01_Parts: NewExternalOptions, NewCaseLabel, NewSetElement, NewCustomPointerType, NewCustomClassRefType, NewLabelId, NewQualId and NewIdentRef
// in every form of their arguments, any names and numbers.
// cover: done
func B01_Parts() {
	sv.Cover("done")
	a, b := string(anyShort("a")), string(anyShort("b"))
	k := sv.Int("k", -2, 70000)
	x, y := ast.NewConstExpr(ast.NewNumber(a)), ast.NewConstExpr(ast.NewNumber(b))
	t := ast.NewTypeId(&ast.Ident{Name: a})
	switch sv.Concrete(sv.Int("what", 0, 9)) {
	case 0:
		o := ast.NewExternalOptions(a)
		sv.Assert(o.LibraryName == a && o.Name == nil && o.Index == nil, builtWrong)
	case 1:
		o := ast.NewExternalOptions(a, b)
		sv.Assert(o.LibraryName == a && o.Name != nil && *o.Name == b && o.Index == nil, builtWrong)
	case 2:
		o := ast.NewExternalOptions(a, &b)
		sv.Assert(o.LibraryName == a && o.Name == &b && o.Index == nil, builtWrong)
	case 3:
		o := ast.NewExternalOptions(a, k)
		sv.Assert(o.LibraryName == a && o.Name == nil && o.Index != nil && *o.Index == k, builtWrong)
	case 4:
		o := ast.NewExternalOptions(a, &k)
		sv.Assert(o.LibraryName == a && o.Name == nil && o.Index == &k, builtWrong)
	case 5:
		l := ast.NewCaseLabel(x)
		sv.Assert(l.ConstExpr == x && l.ExtraConstExpr == nil, builtWrong)
		l = ast.NewCaseLabel(x, y)
		sv.Assert(l.ConstExpr == x && l.ExtraConstExpr == y, builtWrong)
	case 6:
		e := ast.NewSetElement(x)
		sv.Assert(e.Expression == x && e.SubRangeEnd == nil, builtWrong)
	case 7:
		sv.Assert(ast.NewCustomPointerType(t).TypeId == t && ast.NewCustomClassRefType(t).TypeId == t, builtWrong)
	case 8:
		sv.Assert(ast.NewLabelId(t.Ident) == t.Ident, builtWrong)
		ds := astcore.NewDeclarations(ast.IdentList{t.Ident, {Name: b}}, t)
		sv.Assert(len(ds) == 2 && ds[0].Ident == t.Ident && ds[1].Ident.Name == b && ds[0].Node == astcore.Node(t) && ds[1].Node == astcore.Node(t), builtWrong)
	case 9:
		d := aDeclOf(b)
		r, s := ast.NewIdentRef(t.Ident, d), ast.NewIdentRef(d.Ident, nil)
		q := ast.NewQualId(r, s)
		sv.Assert(r.Ident == t.Ident && r.Ref == d && s.Ident == d.Ident && s.Ref == nil && q.NamespaceId == r && q.Ident == s, builtWrong)
	}
}

// treeOf collects the identifiers of a tree built by hand, in their order.
type treeOf struct {
	ids []*ast.Ident
}

func (t *treeOf) id() *ast.Ident {
	i := &ast.Ident{Name: "n" + num(len(t.ids)), Location: astcore.NewLocation(nil, nil)}
	t.ids = append(t.ids, i)
	return i
}

func (t *treeOf) ref() *ast.IdentRef  { return ast.NewIdentRef(t.id(), nil) }
func (t *treeOf) typeId() *ast.TypeId { return ast.NewTypeId(t.id()) }
func (t *treeOf) expr() *ast.Expression {
	return ast.NewExpression(ast.NewQualId(nil, t.ref()))
}

func (t *treeOf) params(tag string) ast.FormalParameters {
	n := sv.Concrete(sv.Int(tag, 0, 2))
	var l ast.FormalParameters
	for i := 0; i < n; i++ {
		l = append(l, &ast.FormalParm{Parameter: &ast.Parameter{IdentList: ast.IdentList{t.id(), t.id()}, Type: &ast.ParameterType{Type: t.typeId()}}})
	}
	return l
}

func (t *treeOf) heading(tag string) *ast.FunctionHeading {
	h := &ast.FunctionHeading{Type: ast.FtProcedure, Ident: t.id(), FormalParameters: t.params(tag + "params")}
	if yes(tag + "function") {
		h.Type, h.ReturnType = ast.FtFunction, t.typeId()
	}
	return h
}

func (t *treeOf) heritage(tag string) []*ast.TypeId {
	var l []*ast.TypeId
	for i := sv.Concrete(sv.Int(tag, 0, 2)); i > 0; i-- {
		l = append(l, t.typeId())
	}
	return l
}

func yes(tag string) bool { return sv.Concrete(sv.Int(tag, 0, 1)) == 1 }

// W01_Built: object and interface types, interface methods and properties (which the parser does not build) made of the exported types, with every part there or not and
// up to 2 elements in lists: the walk visits their identifiers once each, in order, and stops at any one where the callback fails.
// cover: object interface method property stopped
func W01_Built() {
	t := &treeOf{}
	var n ast.Node
	switch sv.Concrete(sv.Int("kind", 0, 3)) {
	case 0:
		sv.Cover("object")
		o := &ast.CustomObjectType{}
		if h := t.heritage("heritage"); h != nil {
			o.Heritage = h
		}
		for i := sv.Concrete(sv.Int("sections", 0, 2)); i > 0; i-- {
			s := &ast.ClassMemberSection{}
			k := num(i)
			if yes("field" + k) {
				s.ClassFieldList = ast.ClassFieldList{{IdentList: ast.IdentList{t.id(), t.id()}, Type: t.typeId()}}
			}
			if yes("method" + k) {
				s.ClassMethodList = ast.ClassMethodList{{Heading: &ast.FunctionHeading{Ident: t.id()}}, {Heading: &ast.DestructorHeading{Ident: t.id()}}}
			}
			if yes("property" + k) {
				s.ClassPropertyList = ast.ClassPropertyList{{Ident: t.id(), Interface: &ast.PropertyInterface{Type: t.typeId()}}}
			}
			o.Members = append(o.Members, s)
		}
		n = o
	case 1:
		sv.Cover("interface")
		o := &ast.CustomInterfaceType{}
		if h := t.heritage("heritage"); h != nil {
			o.Heritage = h
		}
		if yes("guid") {
			o.Guid = &ast.InterfaceGuid{ConstExpr: t.expr()}
		}
		if yes("members") {
			o.Members = ast.InterfaceMemberList{}
		}
		n = o
	case 2:
		sv.Cover("method")
		n = &ast.InterfaceMethod{Heading: t.heading("h")}
	case 3:
		sv.Cover("property")
		p := &ast.InterfaceProperty{Ident: t.id()}
		if yes("interface") {
			p.Interface = &ast.PropertyInterface{Parameters: t.params("params"), Type: t.typeId()}
		}
		if yes("read") {
			p.Read = t.ref()
		}
		if yes("write") {
			p.Write = t.ref()
		}
		n = p
	}
	stop := sv.Concrete(sv.Int("stop", -1, 3))
	k := 0
	err := astcore.WalkDown(n, func(m ast.Node) error {
		if i, ok := m.(*ast.Ident); ok {
			sv.Assert(k < len(t.ids) && i == t.ids[k], "the walk visits another identifier than the next one of the tree")
			k++
			if k-1 == stop {
				return walkError{}
			}
		}
		return nil
	})
	if stop >= 0 && stop < len(t.ids) {
		sv.Cover("stopped")
		sv.Assert(err == error(walkError{}) && k == stop+1, "the walk does not stop with the error of the callback")
	} else {
		sv.Assert(err == nil && k == len(t.ids), "the walk does not visit every identifier of the tree")
	}
	sv.Observe("result", num(k))
}
