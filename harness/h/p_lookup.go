package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// ---- Q01: lookups by name return what the source declares under that name

// lower tells whether two letters are the same but for their case.
func sameRune(a, b rune) bool {
	if a >= 'A' && a <= 'Z' {
		a += 'a' - 'A'
	}
	if b >= 'A' && b <= 'Z' {
		b += 'a' - 'A'
	}
	return a == b
}

// entry is something declared in a text under construction.
type listedDecl struct {
	name  rune
	at    int
	kind  byte
	class int
	priv  bool
}

type lister struct {
	text []rune
	all  []listedDecl
	cls  int
	priv bool
}

func (l *lister) w(s string) {
	l.text = append(l.text, []rune(s)...)
	l.text = append(l.text, ' ')
}

// name writes a name that is declared here
func (l *lister) name(r rune, kind byte) {
	l.all = append(l.all, listedDecl{r, len(l.text), kind, l.cls, l.priv})
	l.text = append(l.text, r, ' ')
}

func (l *lister) member(form int, r rune) {
	switch form {
	case 0:
		l.name(r, 'f')
		l.w(": Byte ;")
	case 1:
		l.w("zz ,")
		l.name(r, 'f')
		l.w(", zzz : Byte ;")
	case 2:
		l.w("procedure")
		l.name(r, 'm')
		l.w("( yy : Byte ) ;")
	case 3:
		l.w("constructor")
		l.name(r, 'm')
		l.w(";")
	case 4:
		l.w("function")
		l.name(r, 'm')
		l.w(": Byte ; virtual ;")
	case 5:
		l.w("property")
		l.name(r, 'p')
		l.w(": Byte ;")
	case 6:
		l.w("destructor")
		l.name(r, 'm')
		l.w("; override ;")
	}
}

const memberForms = 7

// fields come before methods and those before properties in a section
var memberRank = []int{0, 0, 1, 1, 1, 2, 1}

func (l *lister) section(n string) {
	if v := anyVisibility(n); v != "" {
		l.priv = v == "private"
		l.w(v)
	}
}

// distinctIn: no two members of one class have the same name (what is found then is left open).
func (l *lister) distinct() {
	for i, a := range l.all {
		for _, b := range l.all[:i] {
			if a.class == b.class {
				sv.Assume(!sameRune(a.name, b.name))
			}
		}
	}
}

func isAt(i *ast.Ident, at int) bool {
	return i != nil && i.Location != nil && i.Location.Start != nil && i.Location.Start.Index == at
}

// memberIs checks that d declares l, or nothing if l is nil.
func memberIs(d *astcore.Decl, l *listedDecl) {
	if l == nil {
		sv.Assert(d == nil, "a member is found under a name that no visible member has")
		return
	}
	sv.Assert(d != nil, "a visible member is not found under its name")
	sv.Assert(isAt(d.Ident, l.at), "another member is found under the name")
	switch x := d.Node.(type) {
	case *ast.ClassField:
		sv.Assert(l.kind == 'f', "the declaration found has a node of another kind")
		ok := false
		for _, i := range x.IdentList {
			ok = ok || i == d.Ident
		}
		sv.Assert(ok, "the declaration found has the node of another field")
	case *ast.ClassMethod:
		sv.Assert(l.kind == 'm' && x.Heading.GetIdent() == d.Ident, "the declaration found has the node of another method")
	case *ast.ClassProperty:
		sv.Assert(l.kind == 'p' && x.Ident == d.Ident, "the declaration found has the node of another property")
	default:
		sv.Fail("the declaration found has a strange node")
	}
}

// wantMember is the member the rules give: an own one, private only on request, or that of the nearest ancestor
// which is not private.
func wantMember(all []listedDecl, chain []int, q rune, private bool) *listedDecl {
	for k, c := range chain {
		for i := range all {
			d := &all[i]
			if d.class == c && sameRune(d.name, q) && (!d.priv || k == 0 && private) {
				return d
			}
		}
	}
	return nil
}

func classesOf(t []rune) []*ast.CustomClassType {
	src := append([]rune{}, t...)
	p := parser.NewParser(parser.NewProgramContext(progPath))
	p.SetText(&src)
	p.NextToken()
	sec, err := p.ParseTypeSection(true)
	sv.Assert(err == nil, "a valid text is rejected")
	var l []*ast.CustomClassType
	for _, d := range sec {
		if c, ok := d.Type.(*ast.CustomClassType); ok {
			l = append(l, c)
		}
	}
	return l
}

func foundOrNot(d interface{}, found bool) {
	if found {
		sv.Observe("found", "yes")
		sv.Cover("found")
	} else {
		sv.Observe("found", "no")
		sv.Cover("missing")
	}
}

func lookup(l *lister, chains [][]int, props bool) {
	l.distinct()
	q := sv.RuneIn("query", letters)
	cs := classesOf(l.text)
	sv.Assert(len(cs) == len(chains), "the classes of the text are not there")
	k := sv.Concrete(sv.Int("class", 0, len(cs)-1))
	if props {
		up := sv.Concrete(sv.Int("ancestors", 0, 1)) == 1
		chain := chains[k][:1]
		if up {
			chain = chains[k]
		}
		p := cs[k].FindProperty(string(q), up)
		var want *listedDecl
		open := false
		for _, c := range chain {
			for i := range l.all {
				d := &l.all[i]
				if want == nil && d.class == c && d.kind == 'p' && sameRune(d.name, q) {
					want = d
					open = d.priv && c != chain[0]
				}
			}
		}
		foundOrNot(nil, p != nil)
		if open {
			return
		}
		if want == nil {
			sv.Assert(p == nil, "a property is found under a name that no property has")
			return
		}
		sv.Assert(p != nil && isAt(p.Ident, want.at), "a property is not found under its name, or another one is")
		return
	}
	private := sv.Concrete(sv.Int("private", 0, 1)) == 1
	d := cs[k].FindMemberDecl(string(q), private)
	foundOrNot(nil, d != nil)
	memberIs(d, wantMember(l.all, chains[k], q, private))
}

// Q01_Members: a class with two members (fields, fields in a list, methods, constructors, destructors, properties) in sections of any
// visibility; FindMemberDecl of any name.
// cover: found missing
func Q01_Members() { ownMembers(false) }

// Q01_Properties: the same with FindProperty.
// cover: found missing
func Q01_Properties() { ownMembers(true) }

func ownMembers(props bool) {
	l := &lister{}
	l.w("type tt = class")
	before := 0
	for i := 0; i < 2; i++ {
		l.section("vis" + num(i))
		f := sv.Concrete(sv.Int("form"+num(i), 0, memberForms-1))
		if i == 1 && memberRank[f] < memberRank[before] && l.text[len(l.text)-2] == ';' {
			l.w("public")
			l.priv = false
		}
		before = f
		l.member(f, sv.RuneIn("name"+num(i), letters))
	}
	l.w("end ;")
	lookup(l, [][]int{{0}}, props)
}

// Q01_Ancestry: three classes, each derived from the one before (directly, through an alias or a forward
// declaration) or not, each with a field, method or property, private, protected or default; FindMemberDecl of any name in any of them.
// cover: found missing
func Q01_Ancestry() { ancestry(false) }

// Q01_AncestryProperties: the same with FindProperty.
// cover: found missing
func Q01_AncestryProperties() { ancestry(true) }

func ancestry(props bool) {
	l := &lister{}
	how := sv.Concrete(sv.Int("how", 0, 5))
	l.w("type")
	if how == 1 {
		l.w("t0 = class ; t1 = class ;")
	}
	chains := [][]int{{0}, {1, 0}, {2, 1, 0}}
	heads := []string{"t0 = class", "t1 = class ( t0 )", "t2 = class ( t1 )"}
	switch how {
	case 2:
		heads[2] = "a1 = T1 ; a2 = a1 ; t2 = class ( A2 )"
	case 3:
		heads[2] = "t2 = class ( t0 , t1 )"
		chains[2] = []int{2, 0}
	case 4:
		heads[1] = "t1 = class"
		chains[1], chains[2] = []int{1}, []int{2, 1}
	case 5:
		heads[1] = "t1 = class ( unknown , t0 )"
		chains[1], chains[2] = []int{1}, []int{2, 1}
	}
	for i := 0; i < 3; i++ {
		l.cls, l.priv = i, false
		l.w(heads[i])
		if v := []string{"private", "protected", ""}[sv.Concrete(sv.Int("vis"+num(i), 0, 2-i%2))]; v != "" {
			l.priv = v == "private"
			l.w(v)
		}
		f := []int{0, 2, 5}[sv.Concrete(sv.Int("form"+num(i), 0, 2))]
		l.member(f, sv.RuneIn("name"+num(i), letters))
		l.w("end ;")
	}
	lookup(l, chains, props)
}

// Q01_Long: a class and its ancestor with 1..12 (or any of 13 numbers up to 300) members, names of up
// to four characters; every name, and names of no member, are looked up, in other letter case.
// cover: found missing
func Q01_Long() {
	sv.Budget(bigBudget)
	n := anyLen()
	form := sv.Concrete(sv.Int("form", 0, 3))
	body := []string{times(n, "f", ": Byte; ", ""), times(n, "f", "", ",") + ": Byte; ", times(n, "procedure f", "; ", ""), times(n, "property f", ": Byte; ", "")}[form]
	cs := classesOf([]rune("type tt = class " + body + "end ; uu = class ( tt ) protected F0 : Byte ; end ;"))
	sv.Assert(len(cs) == 2, "the classes of the text are not there")
	k := sv.Concrete(sv.Int("which", 0, 4))
	i := []int{0, n / 2, n - 1, n, n + 1}[k]
	q := "F" + num(i)
	d := cs[0].FindMemberDecl(q, true)
	e := cs[1].FindMemberDecl(q, sv.Concrete(sv.Int("private", 0, 1)) == 1)
	p := cs[1].FindProperty(q, true)
	foundOrNot(nil, d != nil)
	sv.Assert((d != nil) == (i < n), "a member is not found under its name, or one is found that does not exist")
	if d == nil {
		sv.Assert(e == nil && p == nil, "a member is found that does not exist")
		return
	}
	sv.Assert(d.Ident.Name == "f"+num(i), "another member is found under the name")
	if i == 0 {
		sv.Assert(e != nil && e.Ident.Name == "F0", "the own member is not found before that of the ancestor")
	} else {
		sv.Assert(e != nil && e.Ident == d.Ident, "the member of the ancestor is not found")
	}
	if form == 3 {
		sv.Assert(p != nil && p.Ident.Name == "f"+num(i), "the property of the ancestor is not found")
	} else {
		sv.Assert(p == nil, "a property is found that does not exist")
	}
}

// ---- declarations of units

type unitDecl struct {
	name rune
	at   int
	kind byte
}

// Q01_Unit: a unit whose interface has three declarations of any form (variables, constants, types, elements of
// enumerations, threadvars, routines) and whose implementation has one more, which uses another unit; what the unit
// says about any name afterwards: the interface declaration, nothing for others.
// cover: found missing
func Q01_Unit() {
	l := &lister{}
	l.w("unit uuu ; interface uses vvv ;")
	n := 3
	for i := 0; i < n; i++ {
		l.declare(sv.Concrete(sv.Int("form"+num(i), 0, 7)), sv.RuneIn("name"+num(i), letters), i, false)
	}
	l.w("implementation")
	l.cls = 1
	l.declare(sv.Concrete(sv.Int("impl", 0, 2)), sv.RuneIn("own", letters), n, true)
	l.w("end .")
	for i, a := range l.all {
		for _, b := range l.all[:i] {
			sv.Assume(!sameRune(a.name, b.name))
		}
	}
	src := append([]rune{}, l.text...)
	ctx := parser.NewUnitContext(parser.NewProgramContext(progPath), unitPath)
	p := parser.NewUnitParser(ctx)
	p.SetText(&src)
	p.NextToken()
	err := p.ProcessIdentAndIntfUses()
	if err == nil {
		err = p.ProcessIntfBody()
	}
	if err == nil {
		err = p.ProcessImplAndInit()
	}
	sv.Assert(err == nil, "a valid unit is rejected")
	sv.Assert(p.Unit.GetDeclMap() != nil, "a finished unit has no declarations")
	sv.Assert(p.Unit.GetIdent() == p.Unit.Ident && p.Unit.GetPath() == unitPath, "a unit does not know its name or its path")
	var q string
	switch sv.Concrete(sv.Int("ask", 0, 3)) {
	case 0:
		r := sv.RuneIn("query", letters)
		d := p.Unit.GetDeclMap().Get(string(r))
		foundOrNot(nil, d != nil)
		unitHas(d, l.all, r)
		return
	case 1:
		q = "UUU"
	case 2:
		q = "vvv"
	case 3:
		q = "byte"
	}
	d := p.Unit.GetDeclMap().Get(q)
	foundOrNot(nil, d != nil)
	sv.Assert(d == nil, "a unit lists a name that its interface does not declare")
}

func unitHas(d *astcore.Decl, all []listedDecl, q rune) {
	for _, w := range all {
		if w.class == 0 && sameRune(w.name, q) {
			sv.Assert(d != nil, "a declaration of the interface is not found under its name")
			sv.Assert(isAt(d.Ident, w.at), "another declaration is found under the name")
			declaredBy(d, w.kind)
			return
		}
	}
	sv.Assert(d == nil, "a name is found that the interface does not declare")
}

// declaredBy: the node of the declaration is of the kind and declares the identifier.
func declaredBy(d *astcore.Decl, kind byte) {
	k := byte('?')
	switch d.Node.(type) {
	case *ast.VarDecl:
		k = 'V'
	case *ast.ConstantDecl:
		k = 'C'
	case *ast.TypeDecl:
		k = 'T'
	case *ast.EnumeratedTypeElement:
		k = 'E'
	case *ast.ThreadVarDecl:
		k = 'W'
	case *ast.ExportedHeading:
		k = 'H'
	case *ast.FunctionDecl:
		k = 'F'
	}
	sv.Assert(k == kind, "the declaration found has a node of another kind")
	dn, ok := d.Node.(astcore.DeclNode)
	sv.Assert(ok, "the declaration found has a node that declares nothing")
	mine := 0
	for _, x := range dn.ToDeclarations() {
		if x.Ident == d.Ident {
			mine++
		}
		sv.Assert(x.Node == d.Node, "a declaration of a node has another node")
	}
	sv.Assert(mine == 1, "the declaration found has a node that does not declare it")
}

func (l *lister) declare(form int, r rune, i int, impl bool) {
	switch form {
	case 0:
		l.w("var yy" + num(i) + " ,")
		l.name(r, 'V')
		l.w(": Byte ;")
	case 1:
		l.w("const")
		l.name(r, 'C')
		l.w("= 1 ;")
	case 2:
		l.w("procedure")
		k := byte('H')
		if impl {
			k = 'F'
		}
		l.name(r, k)
		if impl {
			l.w("; begin end ;")
		} else {
			l.w("( qq : Byte ) ;")
		}
	case 3:
		l.w("type tt" + num(i) + " = ( ee" + num(i) + " ,")
		l.name(r, 'E')
		l.w(") ;")
	case 4:
		l.w("type")
		l.name(r, 'T')
		l.w("= record ff : Byte end ;")
	case 5:
		l.w("threadvar")
		l.name(r, 'W')
		l.w(", zz" + num(i) + " : Byte ;")
	case 6:
		l.w("type tt" + num(i) + " = record ff : ( ee" + num(i) + " ,")
		l.name(r, 'E')
		l.w(") end ;")
	case 7:
		l.w("function")
		l.name(r, 'H')
		l.w(": Byte ; stdcall ;")
	}
}

// Q01_Program: the same questions to the program that uses the unit, and to the units it lists.
// cover: found missing
func Q01_Program() {
	l := &lister{}
	l.w("program ppp ; uses uu in 'uu.pas' , Vv in 'vv.pas' ;")
	for i := 0; i < 2; i++ {
		l.declare(sv.Concrete(sv.Int("form"+num(i), 0, 5)), sv.RuneIn("name"+num(i), letters), i, true)
	}
	l.w("begin end .")
	sv.Assume(!sameRune(l.all[0].name, l.all[1].name))
	sv.File("ppp.dpr", l.text)
	u := &lister{}
	u.w("unit uu ; interface")
	u.declare(1, sv.RuneIn("unit", letters), 7, false)
	u.w("implementation end .")
	sv.File("uu.pas", u.text)
	sv.File("vv.pas", []rune("unit vv ; interface implementation end ."))
	p, err := parser.ParseProgram("ppp.dpr")
	sv.Assert(err == nil, "a valid program is rejected")
	q := sv.RuneIn("query", letters)
	switch sv.Concrete(sv.Int("ask", 0, 3)) {
	case 0:
		sv.Assert(p.Program.GetDeclMap() != nil, "a program that uses units has no declarations")
		d := p.Program.GetDeclMap().Get(string(q))
		foundOrNot(nil, d != nil)
		unitHas(d, l.all, q)
	case 1:
		x := p.Units.ByName("UU")
		sv.Assert(x != nil && x.Ident.Name == "uu" && x.GetPath() == "uu.pas", "a unit is not found under its name")
		d := x.GetDeclMap().Get(string(q))
		foundOrNot(nil, d != nil)
		unitHas(d, u.all, q)
	case 2:
		w := []rune{q, sv.RuneIn("query2", letters)}
		x := p.Units.ByName(string(w))
		c := p.ProgramBlock.UsesClause.Find(string(w))
		foundOrNot(nil, x != nil)
		name := ""
		if sameRune(w[0], 'u') && sameRune(w[1], 'u') {
			name = "uu"
		}
		if sameRune(w[0], 'v') && sameRune(w[1], 'v') {
			name = "vv"
		}
		if name == "" {
			sv.Assert(x == nil && c == nil, "a unit is found under a name that none has")
		} else {
			sv.Assert(x != nil && x.Ident.Name == name, "a unit is not found under its name")
			sv.Assert(c != nil && c.Unit == x, "the item of a unit is not found under its name, or it has another unit")
		}
	case 3:
		d := p.Program.GetDeclMap()
		sv.Assert(d.Get("uu") == nil && d.Get("vv") == nil && d.Get("byte") == nil, "a program lists a name that it does not declare")
		foundOrNot(nil, d.Get(string(q)) != nil)
	}
}

// ---- what a node declares

// Q01_Nodes: every one of 106 texts, one name in it any letter: what each node of the tree that declares names says it declares.
// cover: some
func Q01_Nodes() {
	e, t := withAnyName()
	x := runRealAs(e, t, true, true)
	if x.err != nil {
		return
	}
	n := 0
	for _, r := range x.roots {
		astcore.WalkDown(r, func(a ast.Node) error {
			n += declares(a)
			return nil
		})
	}
	sv.Observe("declared", num(n))
	if n > 0 {
		sv.Cover("some")
	}
}

func withAnyName() (int, []rune) {
	c := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	s := c.texts[sv.Concrete(sv.Int("text", 0, len(c.texts)-1))]
	return c.entry, []rune(s)
}

func declares(a ast.Node) int {
	d, ok := a.(astcore.DeclNode)
	if !ok {
		return 0
	}
	var want ast.IdentList
	switch x := a.(type) {
	case *ast.VarDecl:
		want = x.IdentList
	case *ast.ThreadVarDecl:
		want = x.IdentList
	case *ast.ConstantDecl:
		want = ast.IdentList{x.Ident}
	case *ast.LabelDeclSection:
		want = ast.IdentList{x.LabelId}
	case *ast.ExceptionBlockHandlerDecl:
		if x.Ident == nil {
			return 0
		}
		want = ast.IdentList{x.Ident}
	case *ast.EnumeratedTypeElement:
		want = ast.IdentList{x.Ident}
	case *ast.FieldDecl:
		want = x.IdentList
	case *ast.ExportedHeading:
		want = ast.IdentList{x.FunctionHeading.Ident}
	case *ast.FormalParm:
		want = x.Parameter.IdentList
	case *ast.TypeDecl:
		want = ast.IdentList{x.Ident}
	case *ast.UsesClauseItem:
		want = ast.IdentList{x.Ident}
	case *ast.FunctionDecl:
		want = ast.IdentList{x.FunctionHeading.Ident}
	case *ast.ClassField:
		want = x.IdentList
	case *ast.ClassMethod:
		want = ast.IdentList{x.Heading.GetIdent()}
	case *ast.ClassProperty:
		want = ast.IdentList{x.Ident}
	case *ast.Program:
		if x.Ident == nil {
			return 0
		}
		want = ast.IdentList{x.Ident}
	case *ast.Unit:
		want = ast.IdentList{x.Ident}
	default:
		return 0
	}
	l := d.ToDeclarations()
	sv.Assert(len(l) == len(want), "a node declares more or fewer names than its source")
	for i, w := range want {
		sv.Assert(l[i] != nil && l[i].Ident == w && w != nil && l[i].Ident.Name == w.Name, "a node declares other names than its source")
		sv.Assert(l[i].Node == a, "a declaration has the node of another one")
		f := l.Find(w.Name)
		sv.Assert(f != nil && f.Ident != nil && len(f.Ident.Name) == len(w.Name), "a declared name is not found in the declarations of its node")
	}
	for _, sec := range []ast.Node{a} {
		if s, ok := sec.(ast.InterfaceDecl); ok {
			for _, g := range s.GetDeclNodes() {
				sv.Assert(g != nil, "a section has a declaration that is none")
			}
		}
	}
	return len(want)
}

// ---- tables of declarations

type tableEntry struct {
	name []rune
	node astcore.DeclNode
	id   *ast.Ident
}

func anyShort(n string) []rune {
	w := []rune{sv.RuneIn(n+"a", letters)}
	if sv.Concrete(sv.Int(n+"len", 0, 1)) == 1 {
		w = append(w, sv.RuneIn(n+"b", letters+"_0"))
	}
	return w
}

// Q01_Table: two declarations are entered, a third entered or written over, in a table, a table with a parent or one
// composed of two tables; then any name is looked up.
// cover: found missing duplicate
func Q01_Table() {
	a, b := astcore.NewDeclMap(), astcore.NewDeclMap()
	var ea, eb []tableEntry
	kind := sv.Concrete(sv.Int("kind", 0, 2))
	var m astcore.DeclMap
	switch kind {
	case 0:
		m = a
	case 1:
		m = astcore.NewChainedDeclMap(b)
	case 2:
		m = astcore.NewCompositeDeclMap(a, b)
	}
	for i := 0; i < 3; i++ {
		w := anyShort("n" + num(i))
		id := &ast.Ident{Name: string(w), Location: astcore.NewLocation(nil, nil)}
		d := &ast.ConstantDecl{Ident: id}
		t, l := m, &ea
		if i == 0 && sv.Concrete(sv.Int("below", 0, 1)) == 1 && kind > 0 {
			t, l = b, &eb
		}
		if i == 2 && sv.Concrete(sv.Int("over", 0, 1)) == 1 {
			t.Overwrite(string(w), astcore.NewDeclaration(id, d))
			*l = append([]tableEntry{{w, d, id}}, *l...)
			continue
		}
		dup := false
		for _, e := range *l {
			dup = dup || sameName(e.name, w)
		}
		err := t.Set(d)
		if dup {
			sv.Cover("duplicate")
			sv.Assert(err != nil, "a name is entered twice in one table")
		} else {
			sv.Assert(err == nil, "a new name is not entered")
			*l = append(*l, tableEntry{w, d, id})
		}
	}
	q := anyShort("q")
	got := m.Get(string(q))
	foundOrNot(nil, got != nil)
	for _, l := range [][]tableEntry{ea, eb} {
		for _, e := range l {
			if sameName(e.name, q) {
				sv.Assert(got != nil && got.Ident == e.id && got.Node == astcore.Node(e.node), "another declaration is found than the one entered under the name")
				return
			}
		}
	}
	sv.Assert(got == nil, "a declaration is found under a name that was never entered")
}

// Q01_Lists: lists of up to four identifiers, declarations, units or items of a uses clause, of names of one or two characters; any name is looked up.
// cover: found missing
func Q01_Lists() {
	n := sv.Concrete(sv.Int("n", 0, 3))
	var ids ast.IdentList
	var names [][]rune
	var units ast.Units
	var uses ast.UsesClause
	for i := 0; i < n; i++ {
		w := anyShort("n" + num(i))
		names = append(names, w)
		id := &ast.Ident{Name: string(w)}
		ids = append(ids, id)
		units = append(units, &ast.Unit{Ident: id})
		uses = append(uses, &ast.UsesClauseItem{Ident: id})
	}
	q := anyShort("q")
	want := -1
	for i := n - 1; i >= 0; i-- {
		if sameName(names[i], q) {
			want = i
		}
	}
	foundOrNot(nil, want >= 0)
	var w *ast.Ident
	if want >= 0 {
		w = ids[want]
	}
	switch sv.Concrete(sv.Int("list", 0, 3)) {
	case 0:
		sv.Assert(ids.Find(string(q)) == w, "a list of identifiers does not find the first of the name")
		ns := ids.Names()
		sv.Assert(len(ns) == n, "a list of identifiers has more or fewer names")
		for i, s := range ns {
			sv.Assert(s == string(names[i]), "a list of identifiers has another name")
		}
	case 1:
		node := &ast.VarDecl{IdentList: ids}
		d := node.ToDeclarations().Find(string(q))
		sv.Assert((d == nil) == (w == nil) && (d == nil || d.Ident == w && d.Node == astcore.Node(node)), "a list of declarations does not find the first of the name")
	case 2:
		u := units.ByName(string(q))
		sv.Assert((u == nil) == (w == nil) && (u == nil || u == units[want]), "a list of units does not find the first of the name")
	case 3:
		c := uses.Find(string(q))
		sv.Assert((c == nil) == (w == nil) && (c == nil || c == uses[want]), "a uses clause does not find the first of the name")
		l := uses.IdentList()
		sv.Assert(len(l) == n && len(uses.Units()) == n, "a uses clause has more or fewer names or units")
		for i := range l {
			sv.Assert(l[i] == ids[i], "a uses clause has another name")
		}
	}
}

// ---- what any text declares

// inCase writes a name with other letter case: as it is, in capitals, in small letters or with the first letter changed.
func inCase(s string, how int) string {
	t := []rune(s)
	for i, r := range t {
		switch {
		case how == 0 || how == 3 && i > 0:
		case r >= 'a' && r <= 'z' && how != 2:
			t[i] = r - 32
		case r >= 'A' && r <= 'Z' && how != 1:
			t[i] = r + 32
		}
	}
	return string(t)
}

type ownMember struct {
	id   *ast.Ident
	node ast.Node
	priv bool
}

// membersOf lists what a class declares itself.
func membersOf(c *ast.CustomClassType) []ownMember {
	var l []ownMember
	for _, s := range c.Members {
		priv := s.Visibility == ast.CvPrivate
		for _, f := range s.ClassFieldList {
			for _, id := range f.IdentList {
				l = append(l, ownMember{id, f, priv})
			}
		}
		for _, m := range s.ClassMethodList {
			l = append(l, ownMember{m.Heading.GetIdent(), m, priv})
		}
		for _, p := range s.ClassPropertyList {
			l = append(l, ownMember{p.Ident, p, priv})
		}
	}
	return l
}

// once tells the number of idents with the name of ids[k].
func once(ids []*ast.Ident, k int) bool {
	n := 0
	for _, id := range ids {
		if sameName([]rune(id.Name), []rune(ids[k].Name)) {
			n++
		}
	}
	return n == 1
}

// findsMembers: a class finds each of its members under its name.
func findsMembers(c *ast.CustomClassType, how int) int {
	l := membersOf(c)
	var ids []*ast.Ident
	for _, m := range l {
		ids = append(ids, m.id)
	}
	n := 0
	for k, m := range l {
		if !once(ids, k) {
			continue
		}
		n++
		q := inCase(m.id.Name, how)
		d := c.FindMemberDecl(q, true)
		sv.Assert(d != nil && d.Ident == m.id && d.Node == m.node, "a member is not found under its name, or another one is")
		d = c.FindMemberDecl(q, false)
		if m.priv {
			sv.Assert(d == nil || d.Ident != m.id, "a private member is found without asking for it")
		} else {
			sv.Assert(d != nil && d.Ident == m.id && d.Node == m.node, "a visible member is not found under its name, or another one is")
		}
		p := c.FindProperty(q, false)
		w, isP := m.node.(*ast.ClassProperty)
		sv.Assert(isP == (p != nil) && (!isP || p == w), "a property is not found under its name, or another one is")
	}
	return n
}

func lookInClasses(e int, t []rune) {
	x := runRealAs(e, t, true, false)
	if x.err != nil {
		return
	}
	how := sv.Concrete(sv.Int("case", 0, 3))
	n := 0
	for _, r := range x.roots {
		astcore.WalkDown(r, func(a ast.Node) error {
			if c, ok := a.(*ast.CustomClassType); ok {
				n += findsMembers(c, how)
			}
			return nil
		})
	}
	sv.Observe("members", num(n))
	if n > 0 {
		sv.Cover("some")
	}
}

// Q01_Classes: 8 lists of members, classes, parameters and directives with 1..3 elements of any form, and class declarations with at most 2 choices other
// than the plainest: every member is looked up in the class under its name, in four ways of letter case.
// cover: some
func Q01_Classes() {
	if sv.Concrete(sv.Int("what", 0, 1)) == 0 {
		lookInClasses(anyList(classLists, 1, 3))
	} else {
		lookInClasses(eTypes, genClass(2))
	}
}

// Q01X_Classes: as quick with 4 elements and 3 choices.
// cover: some
func Q01X_Classes() {
	if sv.Concrete(sv.Int("what", 0, 1)) == 0 {
		lookInClasses(anyList(classLists, 1, 4))
	} else {
		lookInClasses(eTypes, genClass(3))
	}
}

// declaredIn lists the names a unit or the declarations of a program offer.
func declaredIn(root ast.Node) []ownMember {
	var l []ownMember
	astcore.WalkDown(root, func(a ast.Node) error {
		switch x := a.(type) {
		case *ast.VarDecl:
			for _, id := range x.IdentList {
				l = append(l, ownMember{id, x, false})
			}
		case *ast.ThreadVarDecl:
			for _, id := range x.IdentList {
				l = append(l, ownMember{id, x, false})
			}
		case *ast.ConstantDecl:
			l = append(l, ownMember{x.Ident, x, false})
		case *ast.TypeDecl:
			l = append(l, ownMember{x.Ident, x, false})
		case *ast.EnumeratedTypeElement:
			l = append(l, ownMember{x.Ident, x, false})
		case *ast.ExportedHeading:
			l = append(l, ownMember{x.FunctionHeading.Ident, x, false})
		}
		return nil
	})
	return l
}

func lookInUnit(t []rune) {
	src := append([]rune{}, t...)
	p := parser.NewUnitParser(parser.NewUnitContext(parser.NewProgramContext(progPath), unitPath))
	p.SetText(&src)
	p.NextToken()
	err := p.ProcessIdentAndIntfUses()
	if err == nil {
		err = p.ProcessIntfBody()
	}
	if err == nil {
		err = p.ProcessImplAndInit()
	}
	if err != nil {
		return
	}
	how := sv.Concrete(sv.Int("case", 0, 3))
	m := p.Unit.GetDeclMap()
	l := declaredIn(p.Unit.InterfaceSection.InterfaceDecls)
	var ids []*ast.Ident
	for _, d := range l {
		ids = append(ids, d.id)
	}
	for k, w := range l {
		if !once(ids, k) {
			continue
		}
		d := m.Get(inCase(w.id.Name, how))
		sv.Assert(d != nil && d.Ident == w.id && d.Node == w.node, "a declaration of the interface is not found under its name, or another one is")
		sv.Cover("some")
	}
	for _, w := range declaredIn(p.Unit.ImplementationSection) {
		if !among(ids, w.id) {
			sv.Assert(m.Get(inCase(w.id.Name, how)) == nil, "a name is found that only the implementation declares")
			sv.Cover("own")
		}
	}
	sv.Observe("declared", num(len(l)))
}

func among(ids []*ast.Ident, w *ast.Ident) bool {
	for _, id := range ids {
		if sameName([]rune(id.Name), []rune(w.Name)) {
			return true
		}
	}
	return false
}

// inUnit wraps declarations in a unit.
func inUnit(e int, t []rune) []rune {
	if e == eUnit {
		return t
	}
	u := []rune("unit uuu ; interface ")
	u = append(u, t...)
	return append(u, []rune(" implementation const ccc = 1 ; type ttt = ( eee ) ; end .")...)
}

var unitLists = append(append(append([]listing{}, declLists...), classLists[7]), routineLists[5:11]...)

// Q01_Units: 17 lists of declarations with 1..3 elements of any form in the interface (or the implementation) of a unit, and units with
// at most 2 choices other than the plainest: every name the interface declares is looked up in the unit, in four
// ways of letter case, and every name that only the implementation declares.
// cover: some own
func Q01_Units() {
	if sv.Concrete(sv.Int("what", 0, 1)) == 0 {
		lookInUnit(inUnit(anyList(unitLists, 1, 3)))
	} else {
		lookInUnit(generated(eUnit, 2))
	}
}

// Q01X_Units: as quick with 4 elements and 3 choices.
// cover: some own
func Q01X_Units() {
	if sv.Concrete(sv.Int("what", 0, 1)) == 0 {
		lookInUnit(inUnit(anyList(unitLists, 1, 4)))
	} else {
		lookInUnit(generated(eUnit, 3))
	}
}
