package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"tpharness/sv"
)

// ---- S01: scopes

type scopeEntry struct {
	name []rune
	id   *ast.Ident
	node astcore.DeclNode
}

// scopeStack is what a context should know: its scopes, the innermost last.
type scopeStack [][]scopeEntry

func (s scopeStack) find(q []rune) *scopeEntry {
	for k := len(s) - 1; k >= 0; k-- {
		if e := findEntry(s[k], q); e != nil {
			return e
		}
	}
	return nil
}

func findEntry(l []scopeEntry, q []rune) *scopeEntry {
	for i := range l {
		if sameName(l[i].name, q) {
			return &l[i]
		}
	}
	return nil
}

func sameDecl(d *astcore.Decl, e *scopeEntry, msg string) {
	if e == nil {
		sv.Assert(d == nil, msg)
		return
	}
	sv.Assert(d != nil && d.Ident == e.id && d.Node == astcore.Node(e.node), msg)
}

// constant declares a name; decl makes one of the two forms of a declaration.
func aDecl(w []rune) scopeEntry {
	id := &ast.Ident{Name: string(w), Location: astcore.NewLocation(nil, nil)}
	return scopeEntry{w, id, &ast.ConstantDecl{Ident: id}}
}

const ctxPath = "d/main.dpr"

// aContext makes a context of each kind, what it knows at first and its path.
func aContext() (parser.Context, scopeStack) {
	outer := aDecl([]rune{sv.RuneIn("outer", letters)})
	m := astcore.NewDeclMap()
	sv.Assert(m.Set(outer.node) == nil, "a new name is not entered")
	s := scopeStack{{outer}}
	switch sv.Concrete(sv.Int("kind", 0, 4)) {
	case 0:
		return parser.NewProgramContext(ctxPath, astcore.DeclMap(m)), s
	case 1:
		return parser.NewUnitContext(parser.NewProgramContext("q"), astcore.DeclMap(m), ctxPath), s
	case 2:
		return parser.NewStackableContext(parser.NewProgramContext(astcore.DeclMap(m), ctxPath)), append(s, nil)
	case 3:
		return parser.NewStackableContext(parser.NewUnitContext(parser.NewProgramContext("q"), ctxPath, astcore.DeclMap(m))), append(s, nil)
	default:
		c := parser.NewStackableContext(parser.NewProgramContext(ctxPath, astcore.DeclMap(m)))
		return parser.NewStackableContext(c), append(s, nil, nil)
	}
}

// history applies steps operations to the context and returns what it should know then.
func history(c parser.Context, s scopeStack, steps int, tag string) (scopeStack, []func()) {
	var close []func()
	for i := 0; i < steps; i++ {
		n := tag + num(i)
		switch sv.Concrete(sv.Int("op"+n, 0, 3)) {
		case 0:
			close = append(close, c.StackDeclMap())
			s = append(s, nil)
		case 1:
			if len(close) == 0 {
				sv.Cover("nothing to close")
				sv.Assume(false)
			}
			close[len(close)-1]()
			close, s = close[:len(close)-1], s[:len(s)-1]
			sv.Cover("closed")
		case 2:
			e := aDecl([]rune{sv.RuneIn("name"+n, letters)})
			dup := findEntry(s[len(s)-1], e.name) != nil
			err := c.Set(e.node)
			if dup {
				sv.Cover("duplicate")
				sv.Assert(err != nil, "a name is declared twice in one scope")
			} else {
				sv.Assert(err == nil, "a name that is new in its scope is rejected")
				s[len(s)-1] = append(append([]scopeEntry{}, s[len(s)-1]...), e)
			}
		case 3:
			e := aDecl([]rune{sv.RuneIn("name"+n, letters)})
			c.Overwrite(string(e.name), astcore.NewDeclaration(e.id, e.node))
			s[len(s)-1] = append([]scopeEntry{e}, s[len(s)-1]...)
		}
	}
	return s, close
}

func scopeHistory(steps int) {
	c, s := aContext()
	s, close := history(c, s, steps, "")
	sv.Assert(c.GetPath() == ctxPath, "a context has another path")
	q := []rune{sv.RuneIn("query", letters)}
	if sv.Concrete(sv.Int("close", 0, 1)) == 1 {
		for len(close) > 0 {
			close[len(close)-1]()
			close, s = close[:len(close)-1], s[:len(s)-1]
		}
	}
	w := s.find(q)
	foundOrNot(nil, w != nil)
	sameDecl(c.Get(string(q)), w, "a name does not denote what the innermost open scope declares")
}

// S01_History: contexts of programs and units, and one or two stacked on them, an outer declaration of any name, every sequence of 4 operations (open a scope,
// close it, declare, redefine a name) with any names; then any name is looked up, with the scopes open or all closed.
// cover: found missing closed duplicate
func S01_History() { scopeHistory(4) }

// S01X_History: as quick with 5 operations.
// cover: found missing closed duplicate
func S01X_History() { scopeHistory(5) }

// S01_Clone: a context of any kind after 2 operations is cloned; a scope is opened on the clone (or on the original) and 2
// operations are done there: the other one still answers as before, and has its path.
// cover: found missing
func S01_Clone() {
	c, s := aContext()
	s, _ = history(c, s, 2, "x")
	d := c.Clone()
	sv.Assert(c.GetPath() == ctxPath && d.GetPath() == ctxPath, "a context has another path")
	q := []rune{sv.RuneIn("query", letters)}
	w := s.find(q)
	foundOrNot(nil, w != nil)
	sameDecl(d.Get(string(q)), w, "a clone does not know what the context knows")
	if sv.Concrete(sv.Int("which", 0, 1)) == 1 {
		c, d = d, c
	}
	c.StackDeclMap()
	t := append(append(scopeStack{}, s...), nil)
	t, _ = history(c, t, 2, "y")
	sameDecl(d.Get(string(q)), w, "a scope opened on one context changes another one")
	sameDecl(c.Get(string(q)), t.find(q), "a name does not denote what the innermost open scope declares")
}

// aUnit is a unit of the name with the declaration of the entry.
func aUnit(name string, e scopeEntry) *ast.Unit {
	m := astcore.NewDeclMap()
	sv.Assert(m.Set(e.node) == nil, "a new name is not entered")
	return &ast.Unit{Ident: &ast.Ident{Name: name, Location: astcore.NewLocation(nil, nil)}, DeclMap: m}
}

// S01_Imports: a program context with two units (given to it or added), each with a declaration of any name; a unit context that uses up to three of units of any one-letter name, known
// or not, imports them, and 2 operations (as in S01_History); then any name, or a built-in one, is looked up.
// cover: found missing bound unbound
func S01_Imports() {
	e := []scopeEntry{aDecl([]rune{sv.RuneIn("in0", letters)}), aDecl([]rune{sv.RuneIn("in1", letters)})}
	us := ast.Units{aUnit("Uu", e[0]), aUnit("Vv", e[1])}
	var pc *parser.ProgramContext
	switch sv.Concrete(sv.Int("how", 0, 2)) {
	case 0:
		pc = parser.NewProgramContext(ctxPath, us)
	case 1:
		pc = parser.NewProgramContext(us[:1:1])
		pc.AddUnit(us[1])
	case 2:
		pc = parser.NewProgramContext()
		pc.AddUnit(us[0])
		pc.AddUnit(us[1])
	}
	sv.Assert(len(pc.Units) == 2 && pc.Units[0] == us[0] && pc.Units[1] == us[1], "a context has other units than it was given")
	names := []string{"uu", "VV", "ww"}
	var uses ast.UsesClause
	var which []int
	for i := 0; i < 3; i++ {
		k := sv.Concrete(sv.Int("use"+num(i), 0, 3))
		if k == 3 {
			break
		}
		for _, j := range which {
			sv.Assume(j != k)
		}
		which = append(which, k)
		uses = append(uses, &ast.UsesClauseItem{Ident: &ast.Ident{Name: names[k]}})
	}
	c := parser.NewUnitContext(pc, unitPath)
	c.ImportUnitDecls(uses)
	for i, k := range which {
		if k == 2 {
			sv.Cover("unbound")
			sv.Assert(uses[i].Unit == nil, "an unknown unit is bound")
		} else {
			sv.Cover("bound")
			sv.Assert(uses[i].Unit == us[k], "a unit in a uses clause is bound to another one, or not at all")
		}
	}
	s := scopeStack{}
	for _, k := range which {
		if k < 2 {
			s = append(s, []scopeEntry{e[k]})
		}
	}
	s, _ = history(c, append(s, nil), 2, "own")
	q := []rune{sv.RuneIn("query", letters)}
	w := s.find(q)
	foundOrNot(nil, w != nil)
	sameDecl(c.Get(string(q)), w, "a name does not denote what the unit, or else the last unit in the uses clause, declares")
	d := c.Get("integer")
	sv.Assert(d != nil && d == c.Get("INTEGER") && d == pc.Get("Integer"), "a built-in type is not known")
	for i := range us {
		sameDecl(us[i].DeclMap.Get(string(q)), findEntry(e[i:i+1], q), "an import changes the unit")
	}
}
