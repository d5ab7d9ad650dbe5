package h

import (
	"github.com/akm/tparser/ast"
	"github.com/akm/tparser/ast/astcore"
	"github.com/akm/tparser/parser"
	"github.com/akm/tparser/token"
	"tpharness/sv"
)

// Running the real parser on a text and comparing it with the reference.

const (
	progPath = "main.dpr"
	unitPath = "unit1.pas"
)

type real struct {
	err    error
	noWalk bool
	none   bool // neither a tree nor an error
	roots  []ast.Node
	items  []item
	rest   *token.Token // token after what was parsed
	names  []string     // names of the identifiers WalkDown visits
	idx    []int        // and where they start
	again  func(*dump)  // dumps the tree once more
}

func (x *real) walk(n ast.Node) {
	x.roots = append(x.roots, n)
	if x.noWalk {
		return
	}
	if err := astcore.WalkDown(n, func(n ast.Node) error {
		if i, ok := n.(*ast.Ident); ok {
			x.names = append(x.names, i.Name)
			p := -1
			if i.Location != nil && i.Location.Start != nil {
				p = i.Location.Start.Index
			}
			x.idx = append(x.idx, p)
		}
		return nil
	}); err != nil {
		sv.Fail("WalkDown returns an error of its own")
	}
}

func runReal(entry int, text []rune) *real { return runRealAs(entry, text, true, false) }

// runRealAs parses the text; without trees only the outcome is kept.
func runRealAs(entry int, text []rune, trees, walk bool) *real {
	x := &real{noWalk: !walk}
	d := &dump{}
	src := append([]rune{}, text...)
	ctx := parser.NewProgramContext(progPath)
	switch entry {
	case eExpr, eStmt, eBlock, eDecls, eTypes:
		x.on(parser.NewParser(ctx), entry, src, d, trees, walk)
	case eProgram:
		p := parser.NewProgramParser(ctx)
		p.SetText(&src)
		p.NextToken()
		n, err := p.ParseProgram()
		x.err, x.none = err, n == nil
		if err == nil && n != nil && (trees || walk) {
			d.program(n)
			x.walk(n)
		}
		x.rest = p.CurrentToken()
	case eUnit:
		p := parser.NewUnitParser(parser.NewUnitContext(ctx, unitPath))
		p.SetText(&src)
		p.NextToken()
		x.err = p.ProcessIdentAndIntfUses()
		if x.err == nil {
			x.err = p.ProcessIntfBody()
		}
		if x.err == nil {
			x.err = p.ProcessImplAndInit()
		}
		if x.err == nil && (trees || walk) {
			x.none = p.Unit == nil
			if p.Unit != nil {
				d.unit(p.Unit)
				x.walk(p.Unit)
			}
		}
		x.rest = p.CurrentToken()
	}
	if x.err != nil {
		x.none = false
	}
	x.items = d.out
	return x
}

// on parses the text with the parser.
func (x *real) on(p *parser.Parser, entry int, src []rune, d *dump, trees, walk bool) {
	p.SetText(&src)
	p.NextToken()
	switch entry {
	case eExpr:
		n, err := p.ParseExpression()
		x.err, x.none = err, n == nil
		if err == nil && n != nil && (trees || walk) {
			d.expr(n)
			x.again = func(e *dump) { e.expr(n) }
			x.walk(n)
		}
	case eStmt:
		n, err := p.ParseStatement()
		x.err, x.none = err, n == nil
		if err == nil && n != nil && (trees || walk) {
			d.stmt(n)
			x.again = func(e *dump) { e.stmt(n) }
			x.walk(n)
		}
	case eBlock:
		n, err := p.ParseBlock()
		x.err, x.none = err, n == nil
		if err == nil && n != nil && (trees || walk) {
			d.block(n)
			x.again = func(e *dump) { e.block(n) }
			x.walk(n)
		}
	case eDecls:
		n, err := p.ParseDeclSections()
		x.err = err
		if err == nil && (trees || walk) {
			x.again = func(e *dump) {
				for _, s := range n {
					e.section(s)
				}
			}
			for _, s := range n {
				d.section(s)
				x.walk(s)
			}
		}
	case eTypes:
		n, err := p.ParseTypeSection(true)
		x.err, x.none = err, n == nil
		if err == nil && n != nil && (trees || walk) {
			d.section(n)
			x.again = func(e *dump) { e.section(n) }
			x.walk(n)
		}
	}
	x.rest = p.CurrentToken()
}

func entryPath(entry int) string {
	if entry == eUnit {
		return unitPath
	}
	return progPath
}

// what compare looks at
const (
	onAccept = 1 << iota // texts of the grammar are accepted
	onReject             // other texts are rejected
	onShape              // the tree has the shape of the source
	onRefs               // names refer to the declarations the scope rules say
	onPos                // identifiers are where the source has them
	onWalk               // WalkDown visits every identifier once
	onRest               // everything belonging to the construct is consumed
	onError              // errors tell the place
)

// compare runs the code and the reference on the text. It tells whether the
// text was accepted by both.
func compare(entry int, text []rune, what int) bool {
	got := runRealAs(entry, text, what&(onShape|onRefs|onPos) != 0, what&onWalk != 0)
	if got.err != nil {
		sv.Observe("result", "rejected")
	} else {
		sv.Observe("result", num(len(got.items)))
	}
	if got.none {
		sv.Fail("neither a tree nor an error")
	}
	want := runRef(entry, text)
	if want.stop != nil {
		if want.stop.kind == "unspecified" {
			sv.Cover("unspecified")
			return false
		}
		sv.Cover("reject")
		if got.err == nil {
			if what&onReject != 0 {
				sv.Fail("a text outside the grammar is accepted")
			}
			return false
		}
		if what&onError != 0 && !want.stop.dup {
			checkPlace(entry, got.err, text, want.stop, want.r)
		}
		return false
	}
	sv.Cover("accept")
	if got.err != nil {
		if what&onAccept != 0 {
			sv.Fail("a text of the grammar is rejected: " + sv.Force(got.err.Error()))
		}
		return false
	}
	if what&(onShape|onRefs|onPos) != 0 {
		mode := cmpShape
		if what&onRefs != 0 {
			mode = cmpRefs
		} else if what&onPos != 0 {
			mode = cmpPos
		}
		sameItems(text, got.items, want.r.out, mode)
	}
	if what&onRest != 0 {
		sv.Assert(got.rest != nil && got.rest.Start != nil && got.rest.Start.Index == want.r.tok(want.r.rest).s, "what follows the construct is not left as it is")
	}
	if what&onWalk != 0 {
		var names []item
		for _, i := range want.r.out {
			if i.k != '.' {
				names = append(names, i)
			}
		}
		n := 0
		for i, p := range got.idx {
			if n >= len(names) {
				sv.Fail("WalkDown visits an identifier that is not in the source: " + got.names[i])
			}
			sv.Assert(p == names[n].p && got.names[i] == names[n].s, "WalkDown visits the identifiers in another order than the source has them, or misses one")
			n++
		}
		sv.Assert(n == len(names), "WalkDown misses an identifier")
	}
	return true
}

// checkPlace: the message tells path:line:col of the token at which the
// reference gives up.
func checkPlace(entry int, err error, text []rune, want *refStop, r *ref) {
	placeIn(entryPath(entry), err, text, want, r)
}

func placeIn(path string, err error, text []rune, want *refStop, r *ref) {
	msg := []rune(sv.Force(err.Error()))
	at := -1
	for i := len(msg) - len(path); i >= 0; i-- {
		same := true
		for j := range path {
			if msg[i+j] != rune(path[j]) {
				same = false
				break
			}
		}
		if same {
			at = i + len(path)
			break
		}
	}
	if at < 0 || at >= len(msg) || msg[at] != ':' {
		sv.Fail("an error without the place: " + string(msg))
	}
	line, col, k := 0, 0, 0
	for _, c := range msg[at+1:] {
		if c == ':' {
			k++
			continue
		}
		if c < '0' || c > '9' {
			break
		}
		if k == 0 {
			line = line*10 + int(c-'0')
		} else {
			col = col*10 + int(c-'0')
		}
	}
	if k != 1 {
		sv.Fail("an error without line and column: " + string(msg))
	}
	l, c := posAt(text, r.tok(want.tok).s)
	sv.Assert(l == line && c == col, "an error points at another token than the offending one")
}
