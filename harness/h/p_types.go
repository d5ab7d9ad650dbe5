package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"tpharness/sv"
)

// ---- C01: members and properties along the ancestry

var visibilityWords = []string{"", "private", "protected", "public", "published"}

func anyVisibility(n string) string {
	return visibilityWords[sv.Concrete(sv.Int(n, 0, len(visibilityWords)-1))]
}

// C01_Own: a class with two sections of any visibility, each with a field or a
// method, and a property whose read, write or stored names a member; any names.
// cover: accept reject
func C01_Own() {
	members := []string{"? : Byte ;", "xx , ? : Byte ;", "procedure ? ;", "function ? : Byte ; virtual ;", "constructor ? ;"}
	s := "type tt = class "
	for i := 0; i < 2; i++ {
		v := anyVisibility("vis" + num(i))
		if i == 1 && v == "" {
			v = "public"
		}
		s += v + " " + members[sv.Concrete(sv.Int("member"+num(i), 0, len(members)-1))] + " "
	}
	s += anyUse()
	check(eTypes, named(s+"; end ;"), onAccept|onReject|onRefs)
}

func anyUse() string {
	return "public property pp : Byte " + []string{"read ?", "write ?", "stored ?", "read ? write ?", "index 1 read ? stored ?"}[sv.Concrete(sv.Int("use", 0, 4))] + " "
}

// C01_Ancestor: a class and its ancestor, each with a section of any visibility
// with a field and a method, the ancestor named directly, through an alias, a
// forward declaration, another class between, or not known; any names.
// cover: accept reject
func C01_Ancestor() {
	a := anyVisibility("visa") + " ? : Byte ; procedure ? ; end ; "
	b := anyVisibility("visb") + " ? : Byte ; "
	var s string
	switch sv.Concrete(sv.Int("how", 0, 6)) {
	case 0:
		s = "type aa = class " + a + "bb = class ( aa ) " + b
	case 1:
		s = "type aa = class " + a + "xx = aa ; bb = class ( xx ) " + b
	case 2:
		s = "type aa = class ; aa = class " + a + "bb = class ( aa ) " + b
	case 3:
		s = "type aa = class " + a + "xx = class ( aa ) end ; bb = class ( xx ) " + b
	case 4:
		s = "type aa = class " + a + "xx = class ( aa ) private ? : Byte ; end ; bb = class ( xx , aa ) " + b
	case 5:
		s = "type aa = class " + a + "bb = class ( zz , aa ) " + b
	case 6:
		s = "type aa = class ; bb = class ( aa ) " + b
	}
	s += anyUse()
	check(eTypes, named(s+"; end ;"), onAccept|onReject|onRefs)
}

// C01_Three: three classes in a chain, each with one field of any visibility,
// and a property in the last; any names.
// cover: accept reject
func C01_Three() {
	s := "type aa = class " + anyVisibility("v0") + " ? : Byte ; end ; bb = class ( aa ) " + anyVisibility("v1") + " ? : Byte ; end ; cc = class ( bb ) "
	s += anyVisibility("v2") + " ? : Byte ; " + anyUse()
	check(eTypes, named(s+"; end ;"), onAccept|onReject|onRefs)
}

// C01_Names: names of ancestors, members and properties all open.
// cover: accept reject
func C01_Names() {
	l := []scoped{
		{eTypes, "type ? = class ? : Byte ; end ; ? = class ( ? ) ? : Byte ; property pp : Byte read ? ; end ;"},
		{eTypes, "type ? = class ; ? = class ? : Byte ; end ; ? = class ( ? ) property pp : Byte read ? ; end ;"},
		{eTypes, "type ? = class aa : Byte ; property ? : Byte read aa ; end ; ? = class ( ? ) property ? write aa ; end ;"},
		{eTypes, "type ? = class ? : Byte ; private ? : Byte ; end ; ? = ? ; ? = class ( ? ) property pp : Byte read ? ; end ;"},
	}
	e, t := anyNamed(l)
	check(e, t, onAccept|onReject|onRefs)
}

// classProps: the properties of the classes of a type section, in source order
func classProps(n ast.Node) []*ast.ClassProperty {
	var l []*ast.ClassProperty
	sec, ok := n.(ast.TypeSection)
	if !ok {
		sv.Fail("no type section")
	}
	for _, d := range sec {
		if c, ok := d.Type.(*ast.CustomClassType); ok {
			for _, m := range c.Members {
				for _, p := range m.ClassPropertyList {
					l = append(l, p)
				}
			}
		}
	}
	return l
}

// part is one part of a property definition, as items.
func part(p *ast.ClassProperty, k int) []item {
	d := &dump{}
	switch k {
	case 0:
		if p.Interface != nil {
			if p.Interface.Parameters != nil {
				d.params(p.Interface.Parameters)
			}
			d.typeId(p.Interface.Type)
		}
	case 1:
		if p.Index != nil {
			d.expr(p.Index)
		}
	case 2:
		if p.Read != nil {
			d.use(p.Read.Ident, p.Read.Ref)
		}
	case 3:
		if p.Write != nil {
			d.use(p.Write.Ident, p.Write.Ref)
		}
	case 4:
		if p.Stored != nil {
			d.mark("stored")
			if p.Stored.Constant != nil && *p.Stored.Constant {
				d.mark("true")
			}
			if p.Stored.IdentRef != nil {
				d.use(p.Stored.IdentRef.Ident, p.Stored.IdentRef.Ref)
			}
		}
	case 5:
		if p.Default != nil {
			if p.Default.NoDefault != nil {
				d.mark("nodefault")
			} else {
				d.expr(p.Default.Value)
			}
		}
	case 6:
		if p.Implements != nil {
			d.typeId(p.Implements)
		}
	}
	return d.out
}

func sameParts(a, b []item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// inherits checks links and effective definitions of the properties of a text.
func inherits(t []rune) {
	if !compare(eTypes, t, onAccept|onRefs) {
		return
	}
	got := runReal(eTypes, t)
	want := runRef(eTypes, t)
	if got.err != nil || want.stop != nil {
		return
	}
	props := classProps(got.roots[0])
	sv.Assert(len(props) == len(want.r.props), "not all properties are there")
	at := func(p *rprop) *ast.ClassProperty {
		for i, q := range want.r.props {
			if q == p {
				return props[i]
			}
		}
		return nil
	}
	for i, p := range want.r.props {
		real := props[i]
		if p.parent != nil {
			sv.Cover("linked")
			sv.Assert(real.Parent == at(p.parent), "a property that omits a part of its ancestor's property is not linked to it")
		} else if p.above == nil {
			sv.Cover("alone")
			sv.Assert(real.Parent == nil, "a property is linked, but no ancestor has one of that name")
		}
		eff := real.ComputedProperty()
		sv.Assert(eff != nil, "no effective definition")
		for k := 0; k < 7; k++ {
			var owner *rprop
			open := false
			for q := p; q != nil; q = q.above {
				if q.parts[k] {
					owner = q
					break
				}
				if q.above != nil && q.parent == nil {
					open = true // a property which repeats all it needs
					break
				}
			}
			if open {
				continue
			}
			if owner == nil {
				sv.Assert(len(part(eff, k)) == 0, "the effective definition has a part which nobody gives")
				continue
			}
			sv.Assert(sameParts(part(eff, k), part(at(owner), k)), "a part of the effective definition is not the one of the nearest ancestor that gives it")
			// and the property itself keeps what it has
			if owner != p {
				sv.Assert(len(part(real, k)) == 0, "a property has a part of its ancestor as its own")
			}
		}
	}
}

var partTexts = [][]string{
	{": Byte", "index 1", "read aa", "write ab", "stored ac", "default 5", "implements Ia"},
	{": Word", "index 2", "read ba", "write bb", "stored bc", "nodefault", "implements Ib"},
	{"[ i : Byte ] : Char", "index 3", "read ca", "write cb", "stored true", "default 6", "implements Ic"},
	{": Char", "index 4", "read da", "write db", "stored false", "default 7", "implements Id"},
}

// chainOf: classes, each with a property of the name, with the parts of the masks
func chainOf(names [][]rune, masks []int) []rune {
	t := []rune("type ")
	for i, m := range masks {
		c := string([]byte{byte('A' + i)})
		t = append(t, []rune("T"+c+" = class ")...)
		if i > 0 {
			t = append(t, []rune("( T"+string([]byte{byte('A' + i - 1)})+" ) ")...)
		}
		l := string([]byte{byte('a' + i)})
		t = append(t, []rune(l+"a , "+l+"b , "+l+"c : Byte ; property ")...)
		t = append(t, names[i]...)
		t = append(t, ' ')
		for k := 0; k < 7; k++ {
			if m>>k&1 == 1 {
				t = append(t, []rune(partTexts[i][k]+" ")...)
			}
		}
		t = append(t, []rune("; end ; ")...)
	}
	return t
}

// C01_Inherit: two classes with a property each, with every choice of the seven
// parts in both; the names any letters.
// cover: linked alone
func C01_Inherit() {
	a := sv.Concrete(sv.Int("a", 0, 127))
	b := sv.Concrete(sv.Int("b", 0, 127))
	inherits(chainOf([][]rune{letter("na"), letter("nb")}, []int{a, b}))
}

// C01_Chain: three classes with a property each, with every choice of two parts
// out of four that are left or given; one name in the three letter cases.
// cover: linked
func C01_Chain() {
	two := [][2]int{{0, 2}, {2, 3}, {0, 4}, {3, 5}, {1, 6}, {0, 3}}[sv.Concrete(sv.Int("parts", 0, 5))]
	var m []int
	var n [][]rune
	for i := 0; i < 3; i++ {
		c := sv.Concrete(sv.Int("mask"+num(i), 0, 3))
		m = append(m, c&1<<two[0]|c>>1<<two[1])
		n = append(n, []rune{sv.RuneIn("n"+num(i), "xX"), 'y'})
	}
	inherits(chainOf(n, m))
}

// C01X_Chain: four classes, every choice of five parts in each of three and all in the first.
// cover: linked
func C01X_Chain() {
	var m []int
	var n [][]rune
	m = append(m, 127)
	n = append(n, []rune("xy"))
	for i := 0; i < 3; i++ {
		m = append(m, sv.Concrete(sv.Int("mask"+num(i), 0, 31)))
		n = append(n, []rune{sv.RuneIn("n"+num(i), "xX"), 'y'})
	}
	inherits(chainOf(n, m))
}

// C01_Between: the ancestor with the property is reached through a class without
// it, an alias or a forward declaration; private properties; any names.
// cover: linked alone
func C01_Between() {
	l := []string{
		"type TA = class aa : Byte ; property ? : Byte read aa ; end ; TB = class ( TA ) end ; TC = class ( TB ) property ? write aa ; end ;",
		"type TA = class aa : Byte ; property ? : Byte read aa ; end ; TB = TA ; TC = class ( TB ) property ? write aa ; end ;",
		"type TA = class ; TA = class aa : Byte ; property ? : Byte read aa ; end ; TC = class ( TA ) property ? write aa ; end ;",
		"type TA = class aa : Byte ; property ? : Byte read aa ; property ? : Word write aa ; end ; TC = class ( TA ) property ? stored false ; property ? default 1 ; end ;",
		"type TA = class aa : Byte ; property ? : Byte read aa ; end ; TB = class ( TA ) property ? : Word write aa ; end ; TC = class ( TB ) property ? stored aa ; end ;",
		"type TA = class aa : Byte ; property ? : Byte read aa ; end ; TB = class property ? : Char ; end ; TC = class ( TB , TA ) property ? ; end ;",
		"type TA = class aa : Byte ; public property ? : Byte read aa ; protected property ? : Word ; end ; TC = class ( TA ) published property ? ; end ;",
	}
	inherits(named(l[sv.Concrete(sv.Int("text", 0, len(l)-1))]))
}

// ---- D01: what type names denote

// kinds: what a type says it is: real, ordinal, string, pointer, variant, simple
func kinds(t ast.Type) [6]bool {
	var k [6]bool
	if x, ok := t.(ast.RealType); ok {
		k[0] = x.IsRealType()
	}
	if x, ok := t.(ast.OrdinalType); ok {
		k[1] = x.IsOrdinalType()
	}
	if x, ok := t.(ast.StringType); ok {
		k[2] = x.IsStringType()
	}
	if x, ok := t.(ast.PointerType); ok {
		k[3] = x.IsPointerType()
	}
	if x, ok := t.(ast.VariantType); ok {
		k[4] = x.IsVariantType()
	}
	if x, ok := t.(ast.SimpleType); ok {
		k[5] = x.IsSimpleType()
	}
	return k
}

type base struct {
	text string
	kind byte // r o s p v -
}

var bases = []base{
	{"( xa , xb )", 'o'}, {"1 .. 9", 'o'}, {"'a' .. 'z'", 'o'}, {"xc .. 5", 'o'}, {"string [ 5 ]", 's'}, {"^ Byte", 'p'}, {"^ Real", 'p'}, {"record xd : Byte end", '-'},
	{"array of Byte", '-'}, {"array [ 1 .. 2 ] of Real", '-'}, {"set of Byte", '-'}, {"file of Byte", '-'}, {"class end", '-'}, {"class of xe", '-'}, {"procedure", '-'}, {"function : Byte", '-'}, {"packed array of string", '-'},
	{"file of Pointer", '-'}, {"class", '-'}, {"unknown", '-'},
}

// the same kinds of type in other shapes
var shapes = []base{
	{"( xa )", 'o'}, {"( xa = 3 )", 'o'}, {"( xa , xb = 2 , xc )", 'o'}, {"( xa , xb , xc , xd , xe , xf )", 'o'}, {"0 .. 1 + 2", 'o'}, {"xc .. xd", 'o'}, {"1 .. xc", 'o'}, {"7 .. 7", 'o'},
	{"'a' .. xc", 'o'}, {"string [ xc + 1 ]", 's'}, {"string [ 255 ]", 's'}, {"^ string", 'p'}, {"^ Boolean", 'p'}, {"^ Pointer", 'p'}, {"^ Variant", 'p'}, {"^ unknown", 'p'},
	{"record end", '-'}, {"packed record xa : Byte ; xb : Real ; end", '-'}, {"record case xa : Byte of 1 : ( xb : Real ) end", '-'}, {"array [ Boolean ] of Boolean", '-'}, {"array [ 1 .. 2 , Char ] of string", '-'},
	{"array of array of Pointer", '-'}, {"packed set of Boolean", '-'}, {"set of ( xa )", '-'}, {"set of 1 .. 3", '-'}, {"file of string", '-'}, {"packed file of Boolean", '-'}, {"class ( TObject ) end", '-'},
	{"class ( TObject )", '-'}, {"class xa : Byte ; procedure xb ; property xc : Byte read xa ; end", '-'}, {"class of TObject", '-'}, {"procedure of object", '-'}, {"procedure ( xa : Byte )", '-'}, {"function ( xa : Byte ) : Boolean of object", '-'},
	{"function : string", '-'},
}

func allBases() []base {
	l := append([]base{}, bases...)
	for _, w := range builtReal {
		l = append(l, base{w, 'r'})
	}
	for _, w := range builtOrdinal {
		l = append(l, base{w, 'o'})
	}
	for _, w := range builtString {
		l = append(l, base{w, 's'})
	}
	for _, w := range builtOther[:4] {
		l = append(l, base{w, 'p'})
	}
	for _, w := range builtOther[4:] {
		l = append(l, base{w, 'v'})
	}
	return append(l, shapes...)
}

func hasKinds(t ast.Type, kind byte, what string) {
	k := kinds(t)
	sv.Assert(k[0] == (kind == 'r'), what+" answers wrongly whether it is a real type")
	sv.Assert(k[1] == (kind == 'o'), what+" answers wrongly whether it is an ordinal type")
	sv.Assert(k[2] == (kind == 's'), what+" answers wrongly whether it is a string type")
	sv.Assert(k[3] == (kind == 'p'), what+" answers wrongly whether it is a pointer type")
	sv.Assert(k[4] == (kind == 'v'), what+" answers wrongly whether it is a variant type")
	sv.Assert(k[5] == (kind == 'r' || kind == 'o'), what+" answers wrongly whether it is a simple type")
}

// anyBase: one of the 84 types, words in any letter case
func anyBase(n string) ([]rune, byte) {
	all := allBases()
	b := all[sv.Concrete(sv.Int(n, 0, len(all)-1))]
	return casedWord(n+"c", b.text), b.kind
}

// aliases: a type section of n names; the one at the given place is the base type
// and all others stand for any name (also later ones, themselves, or unknown ones).
func aliases(n int) {
	b, kind := anyBase("base")
	at := sv.Concrete(sv.Int("place", 0, n-1))
	t := []rune("type ")
	names := make([][]rune, n)
	to := make([][]rune, n)
	for i := 0; i < n; i++ {
		names[i] = letter("name" + num(i))
		for j := 0; j < i; j++ {
			sv.Assume(!sameName(names[i], names[j]))
		}
		t = append(t, names[i]...)
		t = append(t, []rune(" = ")...)
		if i == at {
			t = append(t, b...)
		} else {
			to[i] = letter("to" + num(i))
			t = append(t, to[i]...)
		}
		t = append(t, []rune(" ; ")...)
	}
	got := runReal(eTypes, t)
	if got.err != nil {
		sv.Fail("a type section is rejected: " + sv.Force(got.err.Error()))
	}
	sec := got.roots[0].(ast.TypeSection)
	sv.Assert(len(sec) == n, "not all types are there")
	for i := range sec {
		k := i
		for steps := 0; k >= 0 && k != at; steps++ {
			next := -1
			if steps < n {
				for j := range names {
					if sameName(names[j], to[k]) {
						next = j
						break
					}
				}
			}
			k = next
		}
		if k == at {
			sv.Cover("denotes")
			hasKinds(sec[i].Type, kind, "a type name")
		} else {
			sv.Cover("nothing")
			hasKinds(sec[i].Type, '-', "a type name that denotes nothing")
		}
	}
	sv.Observe("result", num(len(sec)))
}

// D01_Alias: a base type (84 of them, words in any letter case) and one name
// before or after it that stands for any name.
// cover: denotes nothing
func D01_Alias() { aliases(2) }

// D01_Chain: a base type and two names that stand for any names.
// cover: denotes nothing
func D01_Chain() { aliases(3) }

// D01X_Chain: a base type and three names that stand for any names.
// cover: denotes nothing
func D01X_Chain() { aliases(4) }

// D01_Vars: variables, parameters and fields of built-in types in any letter case.
// cover: denotes
func D01_Vars() {
	b, kind := anyBase("base")
	t := []rune("var xx : ")
	t = append(t, b...)
	t = append(t, []rune(" ;")...)
	src := append([]rune{}, t...)
	p := parser.NewParser(parser.NewProgramContext(progPath))
	p.SetText(&src)
	p.NextToken()
	n, err := p.ParseDeclSections()
	if err != nil {
		sv.Fail("a variable is rejected: " + sv.Force(err.Error()))
	}
	v := n[0].(ast.VarSection)
	hasKinds(v[0].Type, kind, "the type of a variable")
	sv.Cover("denotes")
	sv.Observe("result", num(len(n)))
}

// D01_Qualified: a program and two units, six type names that stand for each other
// across the files, none, all or any one of them qualified with its unit or program,
// the last of 84 types (words in any letter case); and a set or array of the last.
// cover: accept reject
func D01_Qualified() {
	qualified([]int{0, 63, 1, 2, 4, 8, 16, 32}[sv.Concrete(sv.Int("qualified", 0, 7))])
}

// D01X_Qualified: the same, any of the six names qualified.
// cover: accept reject
func D01X_Qualified() { qualified(sv.Concrete(sv.Int("qualified", 0, 63))) }

func qualified(q int) {
	b, kind := anyBase("base")
	place := sv.Concrete(sv.Int("place", 0, 2))
	on := func(k int, u string) string {
		if q>>k&1 == 1 {
			return u + " . "
		}
		return ""
	}
	to := sv.Concrete(sv.Int("target", 0, 3))
	ua := []rune("unit ua ; interface type a1 = ")
	ua = append(ua, b...)
	ua = append(ua, []rune(" ; a2 = "+on(0, "ua")+"a1 ; implementation end .")...)
	ub := "unit ub ; interface uses ua ; type b1 = " + on(1, "ua") + []string{"a1", "a2"}[to&1] + " ; b2 = " + on(2, "ub") + "b1 ; implementation end ."
	pp := "program pp ; uses ua in 'ua.pas' , ub in 'ub.pas' ; type c1 = " + []string{on(3, "ub") + "b2", on(3, "ua") + "a2"}[to>>1] + " ; c2 = " + on(4, "pp") + "c1 ; "
	pp += []string{"c3 = " + on(5, "pp") + "c2 ;", "c3 = set of " + on(5, "pp") + "c2 ;", "c3 = array [ " + on(5, "pp") + "c2 ] of Byte ;"}[place] + " begin end ."
	sv.File("pp.dpr", []rune(pp))
	sv.File("ua.pas", ua)
	sv.File("ub.pas", []rune(ub))
	n, err := parser.ParseProgram("pp.dpr")
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		if place == 0 || kind == 'o' {
			sv.Fail("a program with names of types is rejected: " + sv.Force(err.Error()))
		}
		return
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	sv.Assert(place == 0 || kind == 'o', "a type that is not ordinal is accepted as array index or set element")
	sec := n.Program.ProgramBlock.Block.DeclSections[0].(ast.TypeSection)
	hasKinds(sec[0].Type, kind, "a name of a type of another unit")
	hasKinds(sec[1].Type, kind, "a name of a type of another unit")
	for _, u := range n.Units {
		for _, d := range u.InterfaceSection.InterfaceDecls {
			for _, t := range d.(ast.TypeSection) {
				hasKinds(t.Type, kind, "a type name of a unit")
			}
		}
	}
}

var ordinalPlaces = []string{
	"type tt = set of ? ;", "type tt = array [ ? ] of Byte ;", "type tt = array [ Byte , ? ] of Byte ;", "type tt = record case ? of 1 : ( ) end ;", "type tt = record case xx : ? of 1 : ( ) end ;", "type tt = packed set of ? ;",
}

// D01_Places: array indexes, set elements and variant selectors of any of 84
// types, directly and through a name declared before, any names.
// cover: accept reject
func D01_Places() {
	b, kind := anyBase("base")
	s := ordinalPlaces[sv.Concrete(sv.Int("place", 0, len(ordinalPlaces)-1))]
	name := letter("name")
	use := letter("use")
	t := []rune("type ")
	t = append(t, name...)
	t = append(t, []rune(" = ")...)
	t = append(t, b...)
	t = append(t, []rune(" ; ")...)
	for _, w := range words(s)[1:] {
		if w == "?" {
			t = append(t, use...)
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	got := runReal(eTypes, t)
	ok := sameName(name, use) && kind == 'o'
	if got.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		sv.Assert(!ok, "an ordinal type is rejected as array index, set element or variant selector")
		return
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	sv.Assert(ok, "a type that is not ordinal is accepted as array index, set element or variant selector")
}

// D01_Direct: array indexes, set elements and variant selectors of built-in types
// in any letter case.
// cover: accept reject
func D01_Direct() {
	all := allBases()[len(bases):]
	all = all[:len(all)-len(shapes)]
	i := sv.Concrete(sv.Int("base", 0, len(all)-1))
	b := casedWord("c", all[i].text)
	s := ordinalPlaces[sv.Concrete(sv.Int("place", 0, len(ordinalPlaces)-1))]
	var t []rune
	for _, w := range words(s) {
		if w == "?" {
			t = append(t, b...)
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	got := runReal(eTypes, t)
	if got.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		sv.Assert(all[i].kind != 'o', "an ordinal type is rejected as array index, set element or variant selector")
		return
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	sv.Assert(all[i].kind == 'o', "a type that is not ordinal is accepted as array index, set element or variant selector")
}

// D01_Names: ordinal places after type declarations with any names.
// cover: accept reject
func D01_Names() {
	l := []scoped{
		{eTypes, "type ? = Byte ; ? = ? ; ? = set of ? ;"},
		{eTypes, "type ? = ( xa , xb ) ; ? = ? ; ? = array [ ? ] of ? ;"},
		{eTypes, "type ? = set of Byte ; ? = 1 .. 3 ; tt = record case ? of 1 : ( ) end ;"},
		{eDecls, "type ? = Char ; const ? = 1 ; var ? : set of ? ;"},
		{eDecls, "type ? = file of Byte ; ? = Boolean ; procedure pp ; type ? = Real ; var vv : set of ? ; begin end ; var ww : array [ ? ] of Byte ;"},
	}
	e, t := anyNamed(l)
	check(e, t, onAccept|onReject)
}

// ---- I01: the same outcome every time

// other texts to be parsed in between, accepted and rejected ones
var others = []struct {
	entry int
	text  string
}{
	{eDecls, "type Byte = class end ; Integer = record end ; var Char , a , b , T : Real ; const Word = 1 ;"},
	{eTypes, "type Byte = class ; Byte = class a : Byte ; property x : Byte read a ; end ; a = Byte ; T = set of a ;"},
	{eTypes, "type T = class ; U = class ( T ) b : T ; property c : T read b write zz ;"},
	{eUnit, "unit a ; interface uses b , T ; type Integer = ( a1 , b1 ) ; implementation uses x ; var b : Integer ; initialization a1 end ."},
	{eProgram, "program a ; uses T , u ; procedure Integer ; begin begin end ; begin try b except on e : Byte do x ; end end ."},
	{eStmt, "try begin repeat if a then case b of 1 : ( "},
	{eExpr, "a . b [ 1 , ( 2 "},
	{eBlock, "label a ; procedure b ( T : Byte ) ; forward ; function b2 ( Integer : Char ) : Word ; begin ' end"},
	{eProgram, "program p ; uses a in 'gone.pas' ; begin end ."},
	{eTypes, "type a = b ; b = a ; T = ^ T ; u = record case a of 1 : ( ) end ;"},
	{eTypes, "type a = Byte ; c = set of a ; d = array [ Boolean ] of T ; string = a ;"},
}

func sameOutcome(a, b *real) {
	sv.Assert((a.err == nil) == (b.err == nil), "the same text is accepted once and rejected once")
	if a.err != nil {
		sv.Assert(sv.Force(a.err.Error()) == sv.Force(b.err.Error()), "the same text gives two different errors")
		return
	}
	sv.Assert(len(a.items) == len(b.items), "the same text gives two different trees")
	for i := range a.items {
		sv.Assert(a.items[i] == b.items[i], "the same text gives two different trees or resolutions")
	}
}

func again(entry int, t []rune, o int) {
	a := runReal(entry, t)
	runReal(others[o].entry, []rune(others[o].text))
	b := runReal(entry, t)
	if a.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
	} else {
		sv.Observe("result", num(len(a.items)))
		sv.Cover("accept")
	}
	sameOutcome(a, b)
}

func anyOther() int { return sv.Concrete(sv.Int("other", 0, len(others)-1)) }

// I01_Between: 106 texts of all entries parsed before and after any of 11 other texts.
// cover: accept
func I01_Between() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	s := e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))]
	again(e.entry, []rune(s), anyOther())
}

// I01_Names: scopes with any names, parsed before and after any of 11 other texts.
// cover: accept reject
func I01_Names() {
	e, t := anyNamed(scopes)
	again(e, t, anyOther())
}

// I01_After: the text in between is one of 34 with any names; the text parsed
// before and after is one of ten that depend on built-in and unknown names.
// cover: accept reject
func I01_After() {
	probes := []scoped{
		{eBlock, "var x : Byte ; y : set of Boolean ; begin a := b ; c ( d ) end"},
		{eTypes, "type T = a ; U = array [ Integer ] of b ; V = set of Char ;"},
		{eTypes, "type T = class ( c ) property x : d ; end ; V = class ; W = class ( V ) f : V ; end ;"},
		{eUnit, "unit u ; interface uses a , b ; var c : d ; implementation uses e ; initialization f end ."},
		{eProgram, "program p ; uses a ; begin b := c . d end ."},
		{eStmt, "try a except on b : Byte do c ; on Integer do d end"},
		{eBlock, "procedure a ; begin b end ; procedure c ( d : Byte ) ; begin e end ; begin f end"},
		{eTypes, "type T = set of Real ;"},
		{eStmt, "begin a := ( b end"},
		{eBlock, "var a , b : Byte ; const a = 1 ; begin end"},
	}
	p := probes[sv.Concrete(sv.Int("probe", 0, len(probes)-1))]
	t := []rune(p.text)
	a := runReal(p.entry, t)
	e, o := anyNamed(scopes)
	runReal(e, o)
	b := runReal(p.entry, t)
	if a.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
	} else {
		sv.Observe("result", num(len(a.items)))
		sv.Cover("accept")
	}
	sameOutcome(a, b)
}

// longName: any word of one to n characters that are letters
func longName(tag string, n int) []rune {
	k := sv.Concrete(sv.Int(tag+"len", 1, n))
	var w []rune
	for i := 0; i < k; i++ {
		w = append(w, sv.RuneIn(tag+num(i), letters))
	}
	return w
}

// I01_Apart: a text with any word of one to eight letters as the name of a type,
// of an element type, of a variable or of a used unit, parsed before and after a text with any
// other word of one to seven letters.
// cover: accept reject
func I01_Apart() {
	texts := []struct {
		entry     int
		pre, post string
	}{
		{eTypes, "type tt = ", " ;"},
		{eTypes, "type tt = set of ", " ;"},
		{eStmt, "", " := 1"},
		{eUnit, "unit uu ; interface uses ", " ; implementation end ."},
	}
	a := texts[sv.Concrete(sv.Int("text", 0, len(texts)-1))]
	o := texts[sv.Concrete(sv.Int("other", 0, len(texts)-1))]
	t := append(append([]rune(a.pre), longName("n", 8)...), []rune(a.post)...)
	x := append(append([]rune(o.pre), longName("m", 7)...), []rune(o.post)...)
	first := runReal(a.entry, t)
	runReal(o.entry, x)
	second := runReal(a.entry, t)
	if first.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
	} else {
		sv.Observe("result", num(len(first.items)))
		sv.Cover("accept")
	}
	sameOutcome(first, second)
}

// I01X_Mutated: 106 texts with any one word replaced, removed or inserted, parsed
// before and after any of 11 other texts.
// cover: accept reject
func I01X_Mutated() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	t := mutated(e.texts)
	again(e.entry, t, anyOther())
}

// unitsOutcome: everything about a parsed program and its units
func unitsOutcome(path string) *real {
	x := &real{}
	p, err := parser.ParseProgram(path)
	if err != nil {
		x.err = err
		return x
	}
	d := &dump{}
	d.program(p.Program)
	for _, u := range p.Units {
		d.unit(u)
	}
	x.items = d.out
	return x
}

// I01_Orders: a program with three units that use each other and unknown units
// (any names), of which two may declare a name twice, parsed twice, the second
// time with any order of the hash tables.
// cover: accept reject
func I01_Orders() {
	main := "program pp ; uses "
	names := "aBcyz"
	for k := 0; k < 3; k++ {
		n := string([]byte{byte('a' + k)})
		if k > 0 {
			main += ", "
		}
		main += n + " in '" + n + ".pas' "
		t := []rune("unit " + n + " ; interface uses ")
		t = append(t, sv.RuneIn("uses"+n, names))
		body := 0
		if k < 2 {
			body = sv.Concrete(sv.Int("body"+n, 0, 2))
		}
		switch body {
		case 0:
			t = append(t, []rune(" ; const v"+n+" = va + vb + vc ; implementation end .")...)
		case 1:
			t = append(t, []rune(" ; const v"+n+" = 1 ; v"+n+" = 2 ; implementation end .")...)
		case 2:
			t = append(t, []rune(" ; const v"+n+" = 1 ; implementation uses a ; const x = 1 ; x = 2 ; end .")...)
		}
		sv.File(n+".pas", t)
	}
	sv.File("pp.dpr", []rune(main+"; begin va := vb + vc end ."))
	a := unitsOutcome("pp.dpr")
	sv.MapOrders(1)
	b := unitsOutcome("pp.dpr")
	if a.err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
	} else {
		sv.Observe("result", num(len(a.items)))
		sv.Cover("accept")
	}
	sameOutcome(a, b)
}

// I01_Symbols: any three characters that are symbols, blanks, digits or letters,
// tokenised twice, the second time with any order of the hash tables.
// cover: twice
func I01_Symbols() {
	t := make([]rune, 3)
	for i := range t {
		t[i] = sv.RuneIn("c"+num(i), "#$&'()*+,-./:;<=>@[]^{}!?~ \n1aE")
	}
	a := allTokens(t, token.LoadSpace|token.LoadComment)
	sv.MapOrders(1)
	b := allTokens(t, token.LoadSpace|token.LoadComment)
	sv.MapOrders(0)
	sv.Cover("twice")
	observeTokens(a)
	sv.Assert(len(a) == len(b), "the same text gives two different token sequences")
	for i := range a {
		sv.Assert(a[i].Type == b[i].Type && a[i].Start.Index == b[i].Start.Index && a[i].End.Index == b[i].End.Index,
			"the same text gives two different token sequences")
	}
}

// I01_TextOrders: 106 texts of all entries parsed twice, the second time with any
// order of the hash tables.
// cover: accept
func I01_TextOrders() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	t := []rune(e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))])
	a := runReal(e.entry, t)
	sv.MapOrders(1)
	b := runReal(e.entry, t)
	sv.MapOrders(0)
	if a.err == nil {
		sv.Cover("accept")
	}
	sameOutcome(a, b)
}
