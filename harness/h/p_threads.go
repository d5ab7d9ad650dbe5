package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"tpharness/sv"
)

// ---- X01: several goroutines at once

// runShared parses the text itself, no copy of it.
func runShared(entry int, text []rune) ([]ast.Node, error) {
	ctx := parser.NewProgramContext(progPath)
	switch entry {
	case eProgram:
		p := parser.NewProgramParser(ctx)
		p.SetText(&text)
		p.NextToken()
		n, err := p.ParseProgram()
		return []ast.Node{n}, err
	case eUnit:
		p := parser.NewUnitParser(parser.NewUnitContext(ctx, unitPath))
		p.SetText(&text)
		p.NextToken()
		n, err := p.ParseUnit()
		return []ast.Node{n}, err
	}
	p := parser.NewParser(ctx)
	p.SetText(&text)
	p.NextToken()
	switch entry {
	case eExpr:
		n, err := p.ParseExpression()
		return []ast.Node{n}, err
	case eStmt:
		n, err := p.ParseStatement()
		return []ast.Node{n}, err
	case eBlock:
		n, err := p.ParseBlock()
		return []ast.Node{n}, err
	case eDecls:
		n, err := p.ParseDeclSections()
		var l []ast.Node
		for _, s := range n {
			l = append(l, s)
		}
		return l, err
	}
	n, err := p.ParseTypeSection(true)
	return []ast.Node{n}, err
}

// readAll asks a finished tree everything there is to ask.
func readAll(n ast.Node) int {
	c := 0
	astcore.WalkDown(n, func(n ast.Node) error {
		c++
		switch x := n.(type) {
		case *ast.Ident:
			c += len(sv.Force(x.String()))
			if x.Location != nil {
				c += len(sv.Force(x.Location.String()))
			}
		case *ast.TypeDecl:
			if x.Type != nil {
				kinds(x.Type)
			}
		case *ast.ClassProperty:
			if x.ComputedProperty() != nil {
				c++
			}
		case *ast.CustomClassType:
			for _, s := range []string{"a", "X", "b", "q"} {
				x.FindMemberDecl(s, true)
				x.FindMemberDecl(s, false)
				x.FindProperty(s, true)
				x.FindProperty(s, false)
			}
			x.GetParentClass()
		case ast.UsesClause:
			x.Find("a")
			x.IdentList()
			x.Units()
		case *ast.UsesClauseItem:
			x.EffectivePath()
		case *ast.Unit:
			if x.GetDeclMap() != nil {
				x.GetDeclMap().Get("a")
			}
			x.GetPath()
		case *ast.Program:
			if x.GetDeclMap() != nil {
				x.GetDeclMap().Get("a")
			}
		}
		if t, ok := n.(ast.Type); ok {
			kinds(t)
		}
		if t, ok := n.(astcore.DeclNode); ok {
			for _, d := range t.ToDeclarations() {
				if d.Ident != nil {
					c += len(d.Name)
				}
			}
		}
		return nil
	})
	return c
}

// together: the text parsed by several goroutines, each of which reads its tree; then
// several of them read one tree.
func together(entry int, t []rune) {
	sv.Together(func() {
		l, err := runShared(entry, t)
		if err != nil {
			sv.Force(err.Error())
			return
		}
		for _, n := range l {
			readAll(n)
		}
	})
	l, err := runShared(entry, t)
	if err != nil {
		sv.Cover("reject")
		sv.Observe("result", "rejected")
		return
	}
	sv.Cover("accept")
	sv.Observe("result", "accepted")
	sv.Together(func() {
		for _, n := range l {
			readAll(n)
		}
	})
}

// X01_Texts: 106 texts of all entries.
// cover: accept
func X01_Texts() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	together(e.entry, []rune(e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))]))
}

// X01_Names: 34 texts with up to six names, each any letter in either case.
// cover: accept reject
func X01_Names() {
	e, t := anyNamed(scopes)
	together(e, t)
}

// X01_Words: 106 texts with any one word in any letter case.
// cover: accept
func X01_Words() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	l := words(e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))])
	at := sv.Concrete(sv.Int("at", 0, len(l)-1))
	var t []rune
	for i, w := range l {
		if i == at {
			t = append(t, casedWord("w", w)...)
		} else {
			t = append(t, []rune(w)...)
		}
		t = append(t, ' ')
	}
	together(e.entry, t)
}

// X01_Slots: 106 texts with any one word replaced by any of 12 words.
// cover: accept reject
func X01_Slots() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	s := e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))]
	at := sv.Concrete(sv.Int("at", 0, len(words(s))-1))
	together(e.entry, withSlot(s, at, 0, []string{"end", ";", "a", "Byte", "1", "'x'", "nil", "(", "class", "begin", "string", "?"}, onBlanks))
}

// X01X_Slots: 106 texts with any one word replaced, removed or inserted.
// cover: accept reject
func X01X_Slots() {
	e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
	together(e.entry, mutated(e.texts))
}

// X01_Chars: any three characters, as tokens and as an expression.
// cover: accept reject
func X01_Chars() {
	t := []rune{sv.Rune("c0"), sv.Rune("c1"), sv.Rune("c2")}
	sv.Together(func() {
		k := token.NewTokenizer(&t, token.LoadSpace|token.LoadComment)
		for i := 0; i < 5; i++ {
			x := k.GetNext()
			if x == nil {
				break
			}
			sv.Force(x.String())
			x.Value()
			x.Is(token.Directive)
			x.Is(token.ReservedWord.HasKeyword("END"))
			if x.Type == token.EOF {
				break
			}
		}
	})
	together(eExpr, t)
}

// X01_Long: long lists and deep nestings (36 forms, 1..12 or any of 13 numbers up to 300 elements).
// cover: accept
func X01_Long() {
	sv.Budget(bigBudget)
	e, t := anyLong()
	together(e, t)
}

// X01_Chain: classes with properties that inherit, with every choice of two parts out of four in each of three.
// cover: accept
func X01_Chain() {
	two := [][2]int{{0, 2}, {2, 3}, {0, 4}, {3, 5}, {1, 6}, {0, 3}}[sv.Concrete(sv.Int("parts", 0, 5))]
	var m []int
	var n [][]rune
	for i := 0; i < 3; i++ {
		c := sv.Concrete(sv.Int("mask"+num(i), 0, 3))
		m = append(m, c&1<<two[0]|c>>1<<two[1])
		n = append(n, []rune("xy"))
	}
	together(eTypes, chainOf(n, m))
}

// X01_Units: a program with two units, any names; one may use the other; a file may be wrong.
// cover: accept reject
func X01_Units() {
	x, y, z := letter("x"), letter("y"), letter("z")
	cat := func(l ...interface{}) []rune {
		var t []rune
		for _, p := range l {
			switch p := p.(type) {
			case string:
				t = append(t, []rune(p)...)
			case []rune:
				t = append(t, p...)
			}
			t = append(t, ' ')
		}
		return t
	}
	uses := []string{"", "uses ub ;", "uses UB , uz ;"}[sv.Concrete(sv.Int("uses", 0, 2))]
	back := []string{"", "uses ua ;"}[sv.Concrete(sv.Int("back", 0, 1))]
	end := []string{"end .", "end"}[sv.Concrete(sv.Int("end", 0, 1))]
	sv.File("ua.pas", cat("unit ua ; interface", uses, "type", x, "= class zz : Byte ; end ; implementation var", y, ": Byte ; initialization", z, end))
	sv.File("ub.pas", cat("unit ub ; interface const", y, "= 1 ; implementation", back, "procedure qq ; begin", x, "end ; end ."))
	sv.File("pp.dpr", cat("program pp ; uses ua in 'ua.pas' , ub in 'ub.pas' ; var vv : ua .", x, "; begin", z, ":= ub .", y, "end ."))
	read := func(p *parser.Program) {
		readAll(p.Program)
		for _, u := range p.Units {
			readAll(u)
		}
		if u := p.Units.ByName("UA"); u != nil {
			u.GetDeclMap().Get("a")
		}
		p.Units.Compact()
		p.Units.DeclMaps().Reverse()
	}
	sv.Together(func() {
		p, err := parser.ParseProgram("pp.dpr")
		if err != nil {
			sv.Force(err.Error())
			return
		}
		read(p)
	})
	p, err := parser.ParseProgram("pp.dpr")
	if err != nil {
		sv.Cover("reject")
		sv.Observe("result", "rejected")
		return
	}
	sv.Cover("accept")
	sv.Observe("result", "accepted")
	sv.Together(func() { read(p) })
}

// X01_Tokens: the tokens of 106 texts with any one word in any letter case, and of runs of 63..1025 characters, asked for everything.
// cover: tokens
func X01_Tokens() {
	sv.Budget(bigBudget)
	var t []rune
	if sv.Concrete(sv.Int("big", 0, 1)) == 1 {
		t = bigText()
	} else {
		e := corpus[sv.Concrete(sv.Int("entry", 0, len(corpus)-1))]
		l := words(e.texts[sv.Concrete(sv.Int("text", 0, len(e.texts)-1))])
		at := sv.Concrete(sv.Int("at", 0, len(l)-1))
		for i, w := range l {
			if i == at {
				t = append(t, casedWord("w", w)...)
			} else {
				t = append(t, []rune(w)...)
			}
			t = append(t, []rune(" {c} ")...)
		}
		t = append(t, []rune("aVeryLongIdentifierOfManyLetters 'and a string of as many characters' 12345678901234567890123.5 {and a comment of twenty and more}")...)
	}
	sv.Together(func() {
		k := token.NewTokenizer(&t, token.LoadSpace|token.LoadComment)
		for {
			x := k.Clone().GetNext()
			x = k.GetNext()
			if x == nil || x.Type == token.EOF {
				break
			}
			if x.Len() < 40 {
				sv.Force(x.Clone().String())
			}
			sv.Force(x.ValueAbbr(10))
			x.Value()
			x.RawString()
			x.Is(token.Directive)
			x.Is(token.PortabilityDirective)
			x.Is(token.ReservedWord.HasKeyword("END"))
			x.Is(token.Some(token.Symbol(';', ','), token.Not(token.UpperCase("A"))))
		}
	})
	sv.Cover("tokens")
}
