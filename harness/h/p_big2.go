package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// Sizes, continued: many units, long ancestries, long chains of names.

func anyUnits() int {
	if n := sv.Concrete(sv.Int("n", 0, 12)); n > 0 {
		return n
	}
	return []int{16, 17, 32, 33, 40}[sv.Concrete(sv.Int("size", 0, 4))]
}

// listed is the place in the list of the program of each of the n units.
func listed(n int) []int {
	l := make([]int, n)
	switch sv.Concrete(sv.Int("order", 0, 3)) {
	case 0:
		for i := range l {
			l[i] = i
		}
	case 1:
		for i := range l {
			l[i] = n - 1 - i
		}
	case 2: // even ones first
		for i := range l {
			l[i] = i * 2
			if i*2 >= n {
				l[i] = (i-(n+1)/2)*2 + 1
			}
		}
	case 3: // from both ends
		for i := range l {
			l[i] = i / 2
			if i%2 == 1 {
				l[i] = n - 1 - i/2
			}
		}
	}
	return l
}

// U01_Big: 1..12, 16, 17, 32, 33 or 40 units, each using the next one (and, in one form, also the
// last one, in another the next but one), listed in any of four orders; the last one uses any unit, itself,
// an unknown one or none, in its interface or implementation.
// cover: accept reject
func U01_Big() {
	sv.Budget(bigBudget)
	n := anyUnits()
	form := sv.Concrete(sv.Int("form", 0, 2))
	back := []int{-1, 0, n / 2, n - 1, n}[sv.Concrete(sv.Int("back", 0, 4))]
	impl := sv.Concrete(sv.Int("impl", 0, 1)) == 1
	order := listed(n)
	uses := make([][]int, n)
	for i := range uses {
		add := func(k int) {
			if k < 0 || k == i && i < n-1 {
				return
			}
			for _, o := range uses[i] {
				if o == k {
					return
				}
			}
			uses[i] = append(uses[i], k)
		}
		if i < n-1 {
			add(i + 1)
			if form == 1 {
				add(n - 1)
			}
			if form == 2 && i < n-2 {
				add(i + 2)
			}
		} else if !impl {
			add(back)
		}
	}
	main := "program pp ; uses "
	for k, i := range order {
		if k > 0 {
			main += ", "
		}
		main += "u" + num(i) + " in 'u" + num(i) + ".pas' "
		t := "unit u" + num(i) + " ; interface "
		for j, o := range uses[i] {
			if j == 0 {
				t += "uses "
			} else {
				t += ", "
			}
			t += "u" + num(o) + " "
		}
		if len(uses[i]) > 0 {
			t += "; "
		}
		t += "const v" + num(i) + " = 1 ; w" + num(i) + " = v" + num(i+1) + " + v" + num(i+2) + " + v" + num(i) + " ; implementation "
		if i == n-1 && impl && back >= 0 && back != i {
			t += "uses u" + num(back) + " ; "
		}
		sv.File("u"+num(i)+".pas", []rune(t+"end ."))
	}
	sv.File("pp.dpr", []rune(main+"; begin end ."))
	cyclic := !impl && back >= 0 && back < n
	p, err := parser.ParseProgram("pp.dpr")
	if err != nil {
		sv.Observe("result", "rejected")
		sv.Cover("reject")
		if !cyclic {
			sv.Fail("units without cycle are rejected: " + sv.Force(err.Error()))
		}
		return
	}
	sv.Observe("result", "accepted")
	sv.Assert(!cyclic, "units whose interfaces use each other are accepted")
	sv.Cover("accept")
	sv.Assert(len(p.Units) == n, "the result has not every unit once")
	for i := 0; i < n; i++ {
		var t *ast.Unit
		for _, x := range p.Units {
			if x.Ident.Name == "u"+num(i) {
				sv.Assert(t == nil, "a unit is in the result twice")
				t = x
			}
		}
		sv.Assert(t != nil, "a unit is missing in the result")
		for k, c := range t.InterfaceSection.UsesClause {
			want := uses[i][k]
			if want < n {
				sv.Assert(c.Unit != nil && c.Unit.Ident.Name == "u"+num(want), "a uses item does not know its unit, or knows another one")
			}
		}
		d := &dump{}
		d.unit(t)
		at := 0
		for _, x := range d.out {
			if x.k != 'r' {
				continue
			}
			k := []int{i + 1, i + 2, i}[at%3]
			at++
			sees := k == i
			for _, o := range uses[i] {
				if o == k && k < n {
					sees = true
				}
			}
			sv.Assert((x.ref != refUnbound) == sees, "a unit does not see what it uses, or sees more")
		}
		sv.Assert(at == 3, "names are missing")
	}
}

// R03_Big: a program and a unit that use 1, 4, 9, 16, 17 or 33 units, of which each declares a name
// (or 2 or 5 units with 20 names each) in its interface and one in its implementation; some declare a name which others declare, too;
// that one and any other name are used.
// cover: accept
func R03_Big() {
	sv.Budget(bigBudget)
	size := sv.Concrete(sv.Int("size", 0, 7))
	n := []int{1, 4, 9, 16, 17, 33, 2, 5}[size]
	many := 1
	if size > 5 {
		many = 20
	}
	pad := 1300
	if many == 1 {
		pad = 250
	}
	every := sv.Concrete(sv.Int("every", 1, 3))
	form := sv.Concrete(sv.Int("form", 0, declareForms-1))
	shared := []rune{sv.RuneIn("shared", "qQr")}
	var all []*module
	for i := 0; i < n; i++ {
		m := newModule("u"+num(i), pad*i)
		m.w("unit " + m.name + " ; interface")
		for j := 0; j < many; j++ {
			m.declareAs((form+j)%declareForms, []rune("n"+num(i)+"x"+num(j)))
		}
		if i%every == 0 {
			m.declareAs((form+i)%declareForms, shared)
		}
		m.w("implementation")
		m.inImpl = true
		m.declareAs(form, []rune("h"+num(i)))
		m.w("end .")
		all = append(all, m)
	}
	some := func(m *module) {
		m.use(shared, "")
		for _, k := range []int{0, n / 2, n - 1} {
			m.w(";")
			m.use([]rune("N"+num(k)+"x0"), "")
			m.w(";")
			m.use([]rune("n"+num(k)+"X"+num(many-1)), "u"+num(k))
			m.w(";")
			m.use([]rune("h"+num(k)), "")
			m.w(";")
		}
		m.use([]rune{sv.RuneIn("name"+m.name, "qQ")}, "")
	}
	m := newModule("um", pad*n)
	m.w("unit um ; interface")
	m.usesOf(all, false)
	m.w("implementation procedure qqq ; begin")
	m.inImpl = true
	some(m)
	m.w("end ; end .")
	p := newModule("pp", pad*n+2000)
	p.w("program pp ;")
	p.usesOf(append(append([]*module{}, all...), m), true)
	p.w("begin")
	some(p)
	p.w("end .")
	parseModules(p, append(all, m))
}

// D01_Big: 1..12 (or any of 13 numbers up to 300) names, each standing for the next (or the one before), the last one (the first one)
// for any of 8 base types or for the other end.
// cover: denotes nothing
func D01_Big() {
	sv.Budget(bigBudget)
	n := anyLen()
	all := allBases()
	c := sv.Concrete(sv.Int("base", 0, 8))
	down := sv.Concrete(sv.Int("down", 0, 1)) == 1
	kind := byte('-')
	text := "tt0"
	if c > 0 {
		b := all[[]int{0, 1, 4, 5, 7, 20, 26, 45}[c-1]%len(all)]
		text, kind = b.text, b.kind
	}
	s := "type "
	for i := 0; i < n; i++ {
		k := i
		if down {
			k = n - 1 - i
		}
		s += "tt" + num(k) + " = "
		if k == n-1 {
			s += text
		} else {
			s += "TT" + num(k+1)
		}
		s += " ; "
	}
	got := runReal(eTypes, []rune(s))
	if got.err != nil {
		sv.Fail("a type section is rejected: " + sv.Force(got.err.Error()))
	}
	sec := got.roots[0].(ast.TypeSection)
	sv.Assert(len(sec) == n, "not all types are there")
	for _, d := range sec {
		if kind == '-' {
			sv.Cover("nothing")
		} else {
			sv.Cover("denotes")
		}
		hasKinds(d.Type, kind, "a type name")
	}
	sv.Observe("result", num(len(sec)))
}

// F01_Big: 1..12 (or any of 13 numbers up to 300) types that refer to one name, which is declared
// before, in the middle or at the end; any name; in five forms.
// cover: accept
func F01_Big() {
	sv.Budget(bigBudget)
	n := anyLen()
	form := []string{"%", "^ %", "record aa : % end", "class aa : % ; end", "array of %"}[sv.Concrete(sv.Int("form", 0, 4))]
	at := []int{0, n / 2, n - 1, n}[sv.Concrete(sv.Int("at", 0, 3))]
	use, name := letter("use"), letter("name")
	t := []rune("type ")
	for i := 0; i <= n; i++ {
		if i == at {
			t = append(t, name...)
			t = append(t, []rune(" = Char ; ")...)
		}
		if i == n {
			break
		}
		t = append(t, []rune("tt"+num(i)+" = ")...)
		for _, w := range words(form) {
			if w == "%" {
				t = append(t, use...)
			} else {
				t = append(t, []rune(w)...)
			}
			t = append(t, ' ')
		}
		t = append(t, []rune("; ")...)
	}
	check(eTypes, t, onRefs|onAccept)
}

// C01_Big: 2..301 (any of 13 numbers) classes, each the ancestor of the next, the
// first with a field of any visibility and any name and a property of any name; in the last, properties that name any member and that inherit.
// cover: accept
func C01_Big() {
	sv.Budget(bigBudget)
	n := []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 129, 300}[sv.Concrete(sv.Int("n", 0, 12))]
	with := sv.Concrete(sv.Int("with", 0, 1)) == 1
	t := []rune("type tt0 = class " + anyVisibility("vis") + " ")
	t = append(t, letter("field")...)
	t = append(t, []rune(" , zz : Byte ; property ")...)
	t = append(t, letter("prop")...)
	t = append(t, []rune(" : Byte read zz ; end ; ")...)
	for i := 1; i <= n; i++ {
		t = append(t, []rune("tt"+num(i)+" = class ( TT"+num(i-1)+" ) ")...)
		if i == n {
			t = append(t, []rune("property yyy : Byte read ")...)
			t = append(t, letter("use")...)
			t = append(t, []rune(" ; property ")...)
			t = append(t, letter("prop2")...)
			t = append(t, []rune(" write ")...)
			t = append(t, letter("use2")...)
			t = append(t, []rune(" ; ")...)
		} else if with {
			t = append(t, []rune("ff"+num(i)+" : Byte ; ")...)
		}
		t = append(t, []rune("end ; ")...)
	}
	inherits(t)
	sv.Cover("accept")
}

// C01_Members: a class with 1..12 (or any of 13 numbers up to 300) fields, methods or sections, and one
// derived from it, each with properties that name the first, the middle, the last or any other member.
// cover: accept reject
func C01_Members() {
	sv.Budget(bigBudget)
	n := anyLen()
	form := sv.Concrete(sv.Int("form", 0, 3))
	body := []string{times(n, "f", ": Byte; ", ""), times(n, "f", "", ",") + ": Byte; ", times(n, "procedure f", "; ", ""), times(n, "public g", ": Byte; protected f", "") + ": Byte; "}[form]
	if form == 3 {
		body = ""
		for i := 0; i < n; i++ {
			body += "public g" + num(i) + " : Byte ; private f" + num(i) + " : Byte ; "
		}
	}
	t := []rune("type tt = class xx : Byte ; " + body)
	more := sv.Concrete(sv.Int("more", 0, 1))
	props := func() {
		for i, k := range []int{0, n / 2, n - 1, n}[:3+more] {
			t = append(t, []rune("property pp"+num(i)+" : Byte read F"+num(k)+" ; ")...)
		}
		t = append(t, []rune("property ppp : Byte read ")...)
		t = append(t, sv.RuneIn("x1", "xXf"), sv.RuneIn("x2", "xX0"))
		t = append(t, []rune(" write F"+num(n/2)+" ; ")...)
	}
	where := sv.Concrete(sv.Int("where", 0, 1))
	if where == 0 {
		props()
	}
	t = append(t, []rune("end ; uu = class ( tt ) ")...)
	if where == 1 {
		props()
	}
	t = append(t, []rune("end ;")...)
	check(eTypes, t, onAccept|onReject|onRefs)
}

// I01_All: one of 106 texts parsed before and after all the others and the 11 other ones.
// cover: accept
func I01_All() {
	sv.Budget(bigBudget)
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	t := []rune(e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))])
	a := runReal(e.entry, t)
	for _, c := range corpus {
		for _, s := range c.texts {
			runReal(c.entry, []rune(s))
		}
	}
	for _, o := range others {
		runReal(o.entry, []rune(o.text))
	}
	b := runReal(e.entry, t)
	if a.err == nil {
		sv.Cover("accept")
	}
	sv.Observe("result", num(len(a.items)))
	sameOutcome(a, b)
}

// I01_Times: one of 106 texts parsed 10, 33, 65 or 129 times.
// cover: accept
func I01_Times() {
	sv.Budget(bigBudget)
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	t := []rune(e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))])
	n := []int{10, 33, 65, 129}[sv.Concrete(sv.Int("size", 0, 3))]
	a := runReal(e.entry, t)
	for i := 2; i < n; i++ {
		runReal(e.entry, t)
	}
	b := runReal(e.entry, t)
	if a.err == nil {
		sv.Cover("accept")
	}
	sv.Observe("result", num(len(a.items)))
	sameOutcome(a, b)
}
