package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// Programs of several files. A module is written down word by word, noting
// what it declares and which names it uses; the oracle is the scope rule of
// the language: own declarations, then those of the interfaces of the used
// units, the last listed unit first.

type mdecl struct {
	name []rune
	at   int // where it is in its file (files are padded, so this tells the file, too)
	kind byte
	impl bool
}

type muse struct {
	name  []rune
	qual  string // name of a unit or program in front of it
	impl  bool
	decls int // how many own declarations come before it
}

type module struct {
	name      string
	text      []rune
	decls     []mdecl
	uses      []muse
	units     []*module // of the interface (or the program), as listed
	implUnits []*module
	inImpl    bool
}

func newModule(name string, pad int) *module {
	m := &module{name: name}
	for i := 0; i < pad; i++ {
		m.text = append(m.text, ' ')
	}
	return m
}

func (m *module) w(s string) {
	m.text = append(m.text, []rune(s)...)
	m.text = append(m.text, ' ')
}

func (m *module) decl(name []rune, kind byte) {
	m.decls = append(m.decls, mdecl{name, len(m.text), kind, m.inImpl})
	m.text = append(m.text, name...)
	m.text = append(m.text, ' ')
}

func (m *module) use(name []rune, qual string) {
	m.uses = append(m.uses, muse{name, qual, m.inImpl, len(m.decls)})
	if qual != "" {
		m.w(qual)
		m.w(".")
	}
	m.text = append(m.text, name...)
	m.text = append(m.text, ' ')
}

// usesOf writes a uses clause.
func (m *module) usesOf(l []*module, paths bool) {
	if m.inImpl {
		m.implUnits = l
	} else {
		m.units = l
	}
	for i, u := range l {
		if i == 0 {
			m.w("uses")
		} else {
			m.w(",")
		}
		m.w(u.name)
		if paths {
			m.w("in '" + u.name + ".pas'")
		}
	}
	if len(l) > 0 {
		m.w(";")
	}
}

// own finds a declaration of the module among the first n; those of the
// implementation come first.
func (m *module) own(name []rune, n int, impl bool) *mdecl {
	if impl {
		for i := n - 1; i >= 0; i-- {
			if m.decls[i].impl && sameName(m.decls[i].name, name) {
				return &m.decls[i]
			}
		}
	}
	for i := n - 1; i >= 0; i-- {
		if !m.decls[i].impl && sameName(m.decls[i].name, name) {
			return &m.decls[i]
		}
	}
	return nil
}

func lastOf(l []*module, name []rune) *mdecl {
	for i := len(l) - 1; i >= 0; i-- {
		if d := l[i].own(name, len(l[i].decls), false); d != nil {
			return d
		}
	}
	return nil
}

// find is the scope rule. open: the rule is silent. bad: an error.
func (m *module) find(u muse) (d *mdecl, open, bad bool) {
	if u.qual != "" {
		if u.qual == m.name {
			d = m.own(u.name, u.decls, u.impl)
			return d, false, d == nil
		}
		for _, l := range [][]*module{m.units, m.implUnits} {
			for _, x := range l {
				if x.name == u.qual {
					d = x.own(u.name, len(x.decls), false)
					return d, false, d == nil
				}
			}
		}
		return nil, true, false
	}
	if d = m.own(u.name, u.decls, u.impl); d != nil {
		return d, false, false
	}
	d = lastOf(m.units, u.name)
	if u.impl {
		if e := lastOf(m.implUnits, u.name); e != nil {
			if d != nil && d != e {
				return nil, true, false // which of the two uses clauses counts more
			}
			return e, false, false
		}
	}
	return d, false, false
}

// distinct: no name is declared twice in a section.
func (m *module) distinct() {
	for i := range m.decls {
		for j := 0; j < i; j++ {
			if m.decls[i].impl == m.decls[j].impl {
				sv.Assume(!sameName(m.decls[i].name, m.decls[j].name))
			}
		}
	}
}

// bad: the module has a name that cannot be found where it is looked for.
func (m *module) bad() bool {
	for _, u := range m.uses {
		if _, _, b := m.find(u); b {
			return true
		}
	}
	return false
}

// refersAs: the uses of names in the tree (all of them are names of "uses")
// refer to what the scope rule says.
func (m *module) refersAs(items []item) {
	k := 0
	for _, i := range items {
		if i.k != 'r' || i.ref == refBuiltin || i.rk == 'N' || i.rk == 'U' || i.rk == 'G' {
			continue
		}
		sv.Assert(k < len(m.uses), m.name+": more names than the source uses")
		u := m.uses[k]
		k++
		sv.Assert(i.s == string(u.name), m.name+": the names are not in the order of the source")
		d, open, _ := m.find(u)
		if open {
			continue
		}
		if d == nil {
			sv.Assert(i.ref == refUnbound, m.name+": a name refers to something, but nothing visible has that name")
			continue
		}
		sv.Assert(i.ref != refUnbound, m.name+": a name refers to nothing, but it is visible")
		sv.Assert(i.ref == d.at && i.rk == d.kind, m.name+": a name refers to another declaration than the scope rules say")
	}
	sv.Assert(k == len(m.uses), m.name+": fewer names than the source uses")
}

// parse runs the program; all modules must be listed by it.
func parseModules(p *module, units []*module) {
	sv.File(p.name+".dpr", p.text)
	for _, u := range units {
		sv.File(u.name+".pas", u.text)
	}
	bad := p.bad()
	for _, u := range units {
		if u.bad() {
			bad = true
		}
	}
	n, err := parser.ParseProgram(p.name + ".dpr")
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		if !bad {
			sv.Fail("a program of correct files is rejected: " + sv.Force(err.Error()))
		}
		return
	}
	sv.Observe("result", "accepted")
	sv.Assert(!bad, "a qualified name which the unit does not declare is accepted")
	sv.Cover("accept")
	d := &dump{}
	d.program(n.Program)
	p.refersAs(d.out)
	for _, u := range units {
		var t *ast.Unit
		for _, x := range n.Units {
			if x != nil && x.Ident != nil && x.Ident.Name == u.name {
				t = x
			}
		}
		sv.Assert(t != nil, "a listed unit is missing in the result")
		d := &dump{}
		d.unit(t)
		u.refersAs(d.out)
	}
}

func letter(n string) []rune { return []rune{sv.RuneIn(n, letters)} }

// declareAs writes one declaration of the name in one of six forms.
func (m *module) declareAs(form int, name []rune) {
	switch form {
	case 0:
		m.w("var")
		m.decl(name, 'V')
		m.w(": Byte ;")
	case 1:
		m.w("const")
		m.decl(name, 'C')
		m.w("= 1 ;")
	case 2:
		m.w("type")
		m.decl(name, 'T')
		m.w("= Byte ;")
	case 3:
		m.w("type e" + m.name + num(len(m.decls)) + " = (")
		m.decl(name, 'E')
		m.w(") ;")
	case 4:
		m.w("threadvar")
		m.decl(name, 'W')
		m.w(": Byte ;")
	case 5:
		m.w("procedure")
		if m.inImpl || m.name == "pp" {
			m.decl(name, 'F')
			m.w("; begin end ;")
		} else {
			m.decl(name, 'H')
			m.w("; stdcall ;")
		}
	}
}

const declareForms = 6

// R03_Program: a program with one declaration and two units with two interface
// declarations and one in the implementation, in six forms, any names; an
// unqualified use and uses qualified with the units and the program.
// cover: accept reject
func R03_Program() {
	form := sv.Concrete(sv.Int("form", 0, declareForms-1))
	ua, ub := newModule("ua", 0), newModule("ub", 300)
	p := newModule("pp", 600)
	for i, m := range []*module{ua, ub} {
		m.w("unit " + m.name + " ; interface")
		m.declareAs((form+i)%declareForms, letter(m.name+"1"))
		m.declareAs((form+3*i+1)%declareForms, letter(m.name+"2"))
		m.w("implementation")
		m.inImpl = true
		m.declareAs((form+2*i)%declareForms, letter(m.name+"3"))
		m.w("end .")
		m.distinct()
	}
	p.w("program pp ;")
	if sv.Concrete(sv.Int("order", 0, 1)) == 0 {
		p.usesOf([]*module{ua, ub}, true)
	} else {
		p.usesOf([]*module{ub, ua}, true)
	}
	p.declareAs(form, letter("own"))
	p.w("begin")
	switch sv.Concrete(sv.Int("how", 0, 4)) {
	case 0:
		p.use(letter("use"), "")
	case 1:
		p.use(letter("use"), "ua")
	case 2:
		p.use(letter("use"), "ub")
	case 3:
		p.use(letter("use"), "pp")
	case 4:
		p.use(letter("use"), "")
		p.w(":= 1 ;")
		p.use(letter("use2"), "ua")
	}
	p.w("end .")
	parseModules(p, []*module{ua, ub})
}

// R03_Units: two units, one of them using the other in its interface or its
// implementation, or both using each other in their implementations; each
// with one interface and one implementation declaration and a use in the
// interface and in the initialization, qualified or not; any names.
// cover: accept reject
func R03_Units() {
	form := sv.Concrete(sv.Int("form", 0, 5))
	ua, ub := newModule("ua", 0), newModule("ub", 300)
	p := newModule("pp", 600)
	links := sv.Concrete(sv.Int("links", 0, 4))
	qual := []string{"", "ua", "ub"}
	for i, m := range []*module{ua, ub} {
		o := []*module{[]*module{ub, ua}[i]}
		m.w("unit " + m.name + " ; interface")
		if links == 1 && i == 0 || links == 2 && i == 1 {
			m.usesOf(o, false)
		}
		m.declareAs((form+i)%declareForms, letter(m.name+"1"))
		q := sv.Concrete(sv.Int("qual"+num(i), 0, 2))
		m.w("const k" + m.name + " =")
		m.use(letter(m.name+"u"), visible(m, qual[q]))
		m.w("; implementation")
		m.inImpl = true
		if links == 3 || links == 4 && i == 1 {
			m.usesOf(o, false)
		}
		m.declareAs((form+2*i)%declareForms, letter(m.name+"2"))
		m.w("initialization")
		m.use(letter(m.name+"v"), visible(m, qual[q]))
		m.w("end .")
		m.distinct()
	}
	p.w("program pp ;")
	p.usesOf([]*module{ua, ub}, true)
	p.w("begin end .")
	parseModules(p, []*module{ua, ub})
}

// visible: the qualifier, if the module knows it at this place
func visible(m *module, qual string) string {
	if qual == m.name {
		return qual
	}
	for _, l := range [][]*module{m.units, m.implUnits} {
		for _, u := range l {
			if u.name == qual {
				return qual
			}
		}
	}
	return ""
}

// R03_Order: three units with one declaration each listed in any order by the
// program, the last two optionally using the ones before them; the same name
// may be declared by all of them, and is used in the program, and in the
// interface and the implementation of the using units.
// cover: accept
func R03_Order() {
	all := []*module{newModule("ua", 0), newModule("ub", 200), newModule("uc", 400)}
	p := newModule("pp", 600)
	form := 2 * sv.Concrete(sv.Int("form", 0, 1))
	for i, m := range all {
		m.w("unit " + m.name + " ; interface")
		how := 0
		if i > 0 {
			how = sv.Concrete(sv.Int("uses"+num(i), 0, 2))
		}
		l := all[:i]
		if i == 2 && how > 0 && sv.Concrete(sv.Int("turned", 0, 1)) == 1 {
			l = []*module{all[1], all[0]}
		}
		if how == 1 {
			m.usesOf(l, false)
		}
		if i > 0 {
			m.w("const k" + m.name + " =")
			m.use(letter(m.name+"u"), "")
			m.w(";")
		}
		m.declareAs(form, letter(m.name+"1"))
		m.w("implementation")
		m.inImpl = true
		if how == 2 {
			m.usesOf(l, false)
		}
		if i > 0 {
			m.w("initialization")
			m.use(letter(m.name+"v"), "")
		}
		m.w("end .")
	}
	p.w("program pp ;")
	o := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[sv.Concrete(sv.Int("order", 0, 5))]
	p.usesOf([]*module{all[o[0]], all[o[1]], all[o[2]]}, true)
	p.w("begin")
	p.use(letter("use"), "")
	p.w("end .")
	parseModules(p, all)
}

// R03_Types: types of other units as types of variables, parameters, fields,
// elements and ancestors, qualified or not; any names.
// cover: accept
func R03_Types() {
	ua, ub := newModule("ua", 0), newModule("ub", 300)
	p := newModule("pp", 600)
	for _, m := range []*module{ua, ub} {
		m.w("unit " + m.name + " ; interface type")
		m.decl(letter(m.name+"1"), 'T')
		m.w("= Byte ;")
		m.decl(letter(m.name+"2"), 'T')
		m.w("= class end ; implementation type")
		m.inImpl = true
		m.decl(letter(m.name+"3"), 'T')
		m.w("= Byte ; end .")
		m.distinct()
	}
	p.w("program pp ;")
	p.usesOf([]*module{ua, ub}, true)
	p.w("type")
	p.decl(letter("own"), 'T')
	p.w("= Byte ;")
	forms := []struct{ before, after string }{
		{"var xx :", ";"}, {"type tt =", ";"}, {"type tt = ^", ";"}, {"type tt = record ff :", "end ;"}, {"type tt = class ff :", "; end ;"},
		{"type tt = class (", ") end ;"}, {"type tt = array of", ";"}, {"procedure rr ( aa :", ") ; begin end ;"}, {"function rr :", "; begin end ;"}, {"const cc :", "= 1 ;"},
		{"type tt = class property ff :", "; end ;"}, {"type tt = function ( aa :", ") : Byte ;"},
	}
	f := forms[sv.Concrete(sv.Int("form", 0, len(forms)-1))]
	p.w(f.before)
	p.use(letter("use"), []string{"", "ua", "ub", "pp"}[sv.Concrete(sv.Int("qual", 0, 3))])
	p.w(f.after)
	p.w("begin end .")
	u := p.uses[0]
	d, open, bad := p.find(u)
	if bad || open || d == nil {
		sv.Assume(false) // what happens to unknown types is left open
	}
	parseModules(p, []*module{ua, ub})
}

// R03_Own: declarations qualified with the name of their own unit or program,
// in the interface and the implementation; any names.
// cover: accept reject
func R03_Own() {
	l := []scoped{
		{eUnit, "unit ? ; interface const ? = 1 ; type tt = Byte ; const ? = ? . ? ; implementation end ."},
		{eUnit, "unit ? ; interface type ? = Byte ; var vv : ? . ? ; implementation var ww : ? . ? ; end ."},
		{eUnit, "unit ? ; interface var ? : Byte ; implementation var ? : Byte ; initialization ? . ? := 1 end ."},
		{eUnit, "unit uu ; interface var ? : Byte ; procedure pp ( ? : Byte ) ; implementation procedure pp ( ? : Byte ) ; begin uu . ? := ? end ; end ."},
		{eUnit, "unit uu ; interface var aa : ( ? , ? ) = uu . ? ; implementation initialization uu . ? ; finalization uu . ? end ."},
		{eProgram, "program pp ; uses xx ; var ? : Byte ; procedure rr ; var ? : Byte ; begin pp . ? := ? end ; begin pp . ? end ."},
		{eProgram, "program ? ; uses xx ; type ? = Byte ; var vv : ? . ? ; begin end ."},
	}
	e, t := anyNamed(l)
	check(e, t, onRefs|onAccept|onReject)
}

// ---- U01: loading units in dependency order

// U01_Graph: three listed units; in the interfaces uses clauses of two names (in
// one of them, any, of one name), each any of the three units (in either case) or a unit that is not listed;
// names declared by all units are looked up in the interface and the
// implementation of all of them.
// cover: accept reject
func U01_Graph() {
	l := []int{2, 2, 2}
	l[sv.Concrete(sv.Int("short", 0, 2))] = 1
	unitGraphOf(l, 0)
}

// U01_Orders: as U01_Graph with one name in the uses clauses, for every order
// in which hash tables are iterated over.
// cover: accept reject
func U01_Orders() {
	sv.MapOrders(1)
	unitGraph(3, 1, 0)
}

// U01_Many: a unit which uses the three others, listed in all orders, the others
// using each other; for every order in which hash tables are iterated over.
// cover: accept reject
func U01_Many() {
	sv.MapOrders(1)
	unitGraphOf([]int{0, 1, 1, 3}, 0)
}

// U01_Impl: as U01_Graph with one name in the uses clause of the interface and
// one in that of the implementation.
// cover: accept reject
func U01_Impl() { unitGraph(3, 1, 1) }

// U01X_Four: four units, two names in each interface but one (any of them).
// cover: accept reject
func U01X_Four() {
	l := []int{2, 2, 2, 2}
	l[sv.Concrete(sv.Int("short", 0, 3))] = 1
	unitGraphOf(l, 0)
}

type gunit struct {
	name string
	intf []rune // names of the used units
	impl []rune
}

func isUnit(r rune, k int) bool {
	return sv.In(r, string([]byte{byte('a' + k), byte('A' + k)}))
}

func unitGraph(n, nIntf, nImpl int) {
	l := make([]int, n)
	for i := range l {
		l[i] = nIntf
	}
	unitGraphOf(l, nImpl)
}

// unitGraphOf: unit i uses nIntf[i] units in its interface, any of them.
func unitGraphOf(nIntf []int, nImpl int) {
	n := len(nIntf)
	names := ""
	for k := 0; k < n; k++ {
		names += string([]byte{byte('a' + k), byte('A' + k)})
	}
	names += "z"
	units := make([]*gunit, n)
	main := "program pp ; uses "
	for k := 0; k < n; k++ {
		u := &gunit{name: string([]byte{byte('a' + k)})}
		units[k] = u
		t := []rune("unit " + u.name + " ; interface ")
		list := func(what string, m int) []rune {
			var l []rune
			for i := 0; i < m; i++ {
				r := sv.RuneIn(what+u.name+num(i), names)
				for _, o := range l {
					sv.Assume(!sameName([]rune{o}, []rune{r}))
				}
				l = append(l, r)
				if i == 0 {
					t = append(t, []rune("uses ")...)
				} else {
					t = append(t, []rune(", ")...)
				}
				t = append(t, r, ' ')
			}
			if m > 0 {
				t = append(t, []rune("; ")...)
			}
			return l
		}
		u.intf = list("intf", nIntf[k])
		t = append(t, []rune("const v"+u.name+" = 1 ; w"+u.name+" = ")...)
		for j := 0; j < n; j++ {
			if j > 0 {
				t = append(t, []rune("+ ")...)
			}
			t = append(t, []rune("v"+string([]byte{byte('a' + j)})+" ")...)
		}
		t = append(t, []rune("; implementation ")...)
		if nImpl > 0 {
			u.impl = list("impl", nImpl)
		}
		t = append(t, []rune("initialization ")...)
		for j := 0; j < n; j++ {
			t = append(t, []rune("v"+string([]byte{byte('a' + j)})+" ; ")...)
		}
		t = append(t, []rune("end .")...)
		if k > 0 {
			main += ", "
		}
		main += u.name + " in '" + u.name + ".pas' "
		sv.File(u.name+".pas", t)
	}
	main += "; begin end ."
	sv.File("pp.dpr", []rune(main))
	p, err := parser.ParseProgram("pp.dpr")
	// the oracle: an interface may not use itself, directly or through others
	adj := make([][]bool, n)
	for k, u := range units {
		adj[k] = make([]bool, n)
		for j := 0; j < n; j++ {
			for _, r := range u.intf {
				if isUnit(r, j) {
					adj[k][j] = true
				}
			}
		}
	}
	cyclic := false
	reach := make([][]bool, n)
	for i := range reach {
		reach[i] = append([]bool{}, adj[i]...)
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if reach[i][k] && reach[k][j] {
					reach[i][j] = true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if reach[i][i] {
			cyclic = true
		}
	}
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		if !cyclic {
			sv.Fail("units without cycle are rejected: " + sv.Force(err.Error()))
		}
		return
	}
	sv.Observe("result", "accepted")
	sv.Cover("accept")
	sv.Assert(!cyclic, "units whose interfaces use each other are accepted")
	sv.Assert(len(p.Units) == n, "the result has not every unit once")
	for k, u := range units {
		var t *ast.Unit
		for _, x := range p.Units {
			if x.Ident.Name == u.name {
				sv.Assert(t == nil, "a unit is in the result twice")
				t = x
			}
		}
		sv.Assert(t != nil, "a unit is missing in the result")
		d := &dump{}
		d.unit(t)
		at := 0
		for _, i := range d.out {
			if i.k != 'r' {
				continue
			}
			j := at % n
			impl := at >= n
			at++
			sv.Assert(i.s == "v"+units[j].name, "the names are not in the order of the source")
			sees := j == k || adj[k][j]
			if impl {
				for _, r := range u.impl {
					if isUnit(r, j) {
						sees = true
					}
				}
			}
			sv.Assert((i.ref != refUnbound) == sees, "a unit does not see what it uses, or sees more")
		}
		sv.Assert(at == 2*n, "names are missing")
		checkUses(t.InterfaceSection.UsesClause, units, p.Units)
		checkUses(t.ImplementationSection.UsesClause, units, p.Units)
	}
	checkUses(p.Program.ProgramBlock.UsesClause, units, p.Units)
}

// checkUses: the items of a uses clause know the unit they name.
func checkUses(l ast.UsesClause, units []*gunit, loaded ast.Units) {
	for _, i := range l {
		r := []rune(i.Ident.Name)
		for k, u := range units {
			if isUnit(r[0], k) {
				sv.Assert(i.Unit != nil && i.Unit.Ident.Name == u.name, "a uses item does not know its unit, or knows another one")
			}
		}
		if sv.In(r[0], "z") {
			sv.Assert(i.Unit == nil, "a uses item knows a unit that was not loaded")
		}
	}
}

// U01_Files: two or three listed units, in which the file of one is missing,
// empty, malformed, has another name or the name of another unit.
// cover: accept reject
func U01_Files() {
	n := sv.Concrete(sv.Int("units", 1, 3))
	bad := sv.Concrete(sv.Int("which", 0, n-1))
	how := sv.Concrete(sv.Int("how", 0, 7))
	main := "program pp ; uses "
	for k := 0; k < n; k++ {
		name := string([]byte{byte('a' + k)})
		if k > 0 {
			main += ", "
		}
		main += name + " in '" + name + ".pas' "
		t := []rune("unit " + name + " ; interface const v" + name + " = 1 ; implementation end .")
		if k == bad {
			switch how {
			case 1:
				continue
			case 2:
				t = nil
			case 3:
				t = t[:len(t)-1]
			case 4:
				t[5] = sv.RuneIn("name", letters)
			case 5:
				t = []rune("program " + name + " ; begin end .")
			case 6:
				t[sv.Concrete(sv.Int("where", 0, len(t)-3))] = '?'
			case 7:
				t = []rune("unit " + name + " ; interface const v" + name + " = ; implementation end .")
			}
		}
		sv.File(name+".pas", t)
	}
	main += "; begin end ."
	sv.File("pp.dpr", []rune(main))
	p, err := parser.ParseProgram("pp.dpr")
	if how == 4 {
		// correct only under its own name
		if err != nil {
			sv.Cover("reject")
			sv.Observe("result", "rejected")
			return
		}
		sv.Observe("result", "accepted")
		sv.Assert(p != nil && len(p.Units) == n, "a unit is missing in the result")
		for k := 0; k < n; k++ {
			found := 0
			for _, u := range p.Units {
				if isUnit([]rune(u.Ident.Name)[0], k) {
					found++
				}
			}
			sv.Assert(found == 1, "the file of a unit holds another unit, and that is accepted")
		}
		sv.Cover("accept")
		return
	}
	sv.Assert((p == nil) != (err == nil), "neither a result nor an error, or both")
	if how == 0 {
		sv.Assert(err == nil && len(p.Units) == n, "correct units are rejected")
		sv.Observe("result", "accepted")
		sv.Cover("accept")
		return
	}
	sv.Observe("result", "rejected")
	sv.Assert(err != nil, "a missing or malformed unit is accepted")
	sv.Cover("reject")
}

var orders3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// R03_Many: a unit that uses three units in any order, in the interface or the
// implementation, or split over both; each declares one name;
// used in its interface and its implementation.
// cover: accept
func R03_Many() { manyUnits(false) }

// R03X_Many: as R03_Many, also used in a procedure and the initialization.
// cover: accept
func R03X_Many() { manyUnits(true) }

func manyUnits(more bool) {
	all := []*module{newModule("ua", 0), newModule("ub", 200), newModule("uc", 400)}
	m := newModule("ud", 600)
	p := newModule("pp", 900)
	form := sv.Concrete(sv.Int("form", 0, 2))
	for i, u := range all {
		u.w("unit " + u.name + " ; interface")
		u.declareAs((form+i)%3, letter(u.name+"1"))
		u.w("implementation end .")
	}
	o := orders3[sv.Concrete(sv.Int("order", 0, 5))]
	l := []*module{all[o[0]], all[o[1]], all[o[2]]}
	intf := sv.Concrete(sv.Int("intf", 0, 3)) // so many of them in the interface
	m.w("unit ud ; interface")
	m.usesOf(l[:intf], false)
	m.w("const kd =")
	m.use(letter("u1"), "")
	m.w("; implementation")
	m.inImpl = true
	m.usesOf(l[intf:], false)
	m.w("const ke =")
	m.use(letter("u2"), "")
	m.w(";")
	if more {
		m.w("procedure pd ; begin")
		m.use(letter("u3"), "")
		m.w("end ; initialization")
		m.use(letter("u4"), "")
	}
	m.w("end .")
	p.w("program pp ;")
	p.usesOf([]*module{all[0], all[1], all[2], m}, true)
	p.w("begin end .")
	parseModules(p, append(all, m))
}

// R03_Parts: two units with or without interface declaration, implementation
// declaration, procedure and initialization, the second with or without using the
// first in its interface or implementation; used in a program and in the second, any names.
// cover: accept
func R03_Parts() {
	all := []*module{newModule("ua", 0), newModule("ub", 300)}
	p := newModule("pp", 600)
	for i, u := range all {
		u.w("unit " + u.name + " ; interface")
		how := 0
		if i == 1 {
			how = sv.Concrete(sv.Int("uses", 0, 2))
		}
		if how == 1 {
			u.usesOf(all[:1], false)
		}
		if sv.Concrete(sv.Int("intf"+num(i), 0, 1)) == 1 {
			u.declareAs(i, letter(u.name+"1"))
		}
		u.w("implementation")
		u.inImpl = true
		if how == 2 {
			u.usesOf(all[:1], false)
		}
		impl := sv.Concrete(sv.Int("impl"+num(i), 0, 3))
		if impl&1 != 0 {
			u.declareAs(1-i, letter(u.name+"2"))
		}
		if impl&2 != 0 {
			u.w("procedure q" + u.name + " ; begin")
			u.use(letter(u.name+"u"), "")
			u.w("end ;")
		}
		if i == 1 && sv.Concrete(sv.Int("init", 0, 1)) == 1 {
			u.w("initialization")
			u.use(letter(u.name+"v"), "")
		}
		u.w("end .")
	}
	p.w("program pp ;")
	o := sv.Concrete(sv.Int("order", 0, 1))
	p.usesOf([]*module{all[o], all[1-o]}, true)
	p.w("begin")
	p.use(letter("use"), "")
	p.w("end .")
	parseModules(p, all)
}
