package h

import (
	"unicode"

	"github.com/akm/tparser/token"
)

// A reference parser of the documented grammar, written from Grammer.md and
// the Object Pascal language guide and sharing no code with the repository. It
// says of a text: accepted (with the items of its tree), rejected (at which
// token), or not specified (forms on which the grammar and the code's
// documented limits are silent or differ; no check looks at those).

type rtok struct {
	typ  token.Type
	s, e int
	kw   string // reserved word, upper case
	sym  string // special symbol
}

type rdecl struct {
	tok  int
	kind byte
	name []rune
	typ  *rtype
	self bool // its own initial value is being read
}

type rscope struct {
	up    *rscope
	decls []*rdecl
}

// rtype is what the reference needs to know about a type.
type rtype struct {
	k     byte // 'o' ordinal, 'n' name, 'c' class, 'f' forward class, '-' other
	ref   *rdecl
	built string // built-in type name, when k == 'n'
	cls   *rclass
}

type rmember struct {
	tok  int
	kind byte
	priv bool
	name []rune
	prop *rprop
}

type rclass struct {
	up      *rtype
	members []rmember
}

type rprop struct {
	tok    int
	parts  [7]bool // interface, index, read, write, stored, default, implements
	parent *rprop  // linked to
	above  *rprop  // the ancestor's property of that name, linked or not
}

type pending struct {
	item int
	name []rune
	typ  *rtype
}

type ref struct {
	text  []rune
	toks  []rtok
	lexed int // text position up to which toks reach
	i     int // current token
	out   []item
	sc    *rscope
	pend  []pending
	inSec bool
	rest  int // token after the accepted text
	props []*rprop
	fwds  []*rdecl

	module []*rscope // the scopes of the unit's or program's own declarations
}

type refStop struct {
	kind string // "reject", "unspecified"
	tok  int
	dup  bool // rejected for what a name means, not for the grammar
}

func newRef(text []rune) *ref {
	return &ref{text: text, sc: &rscope{}}
}

func (r *ref) fail()        { panic(&refStop{kind: "reject", tok: r.i}) }
func (r *ref) failAt(t int) { panic(&refStop{kind: "reject", tok: t}) }
func (r *ref) semantic(t int) {
	panic(&refStop{kind: "reject", tok: t, dup: true})
}
func (r *ref) unspecified() { panic(&refStop{kind: "unspecified", tok: r.i}) }

var symbols2 = []string{":=", "<=", "<>", ">=", "..", ".)", "(."}

const symbols1 = "#$&()*+,-./:;<=>@[]^}"

var symTab = symbolTable()

func symbolTable() []string {
	out := make([]string, 128)
	for k := 0; k < len(symbols1); k++ {
		out[symbols1[k]] = symbols1[k : k+1]
	}
	return out
}

func (r *ref) tok(i int) rtok {
	for len(r.toks) <= i {
		if r.lexed >= len(r.text) {
			r.toks = append(r.toks, rtok{typ: token.EOF, s: len(r.text), e: len(r.text)})
			continue
		}
		l := refNext(r.text, r.lexed)
		r.lexed = l.end
		if l.typ == token.Space || l.typ == token.Comment {
			continue
		}
		if l.typ == wordLexeme {
			r.unspecified()
		}
		t := rtok{typ: l.typ, s: l.start, e: l.end}
		if l.typ == token.ReservedWord {
			t.kw = reservedWord(r.text, l.start, l.end)
		}
		if l.typ == token.SpecialSymbol {
			if l.end-l.start == 2 {
				for _, w := range symbols2 {
					if r.text[l.start] == rune(w[0]) && r.text[l.start+1] == rune(w[1]) {
						t.sym = w
					}
				}
			} else {
				t.sym = symTab[r.text[l.start]]
			}
		}
		r.toks = append(r.toks, t)
	}
	return r.toks[i]
}

func (r *ref) cur() rtok           { return r.tok(r.i) }
func (r *ref) next()               { r.i++ }
func (r *ref) isSym(s string) bool { return r.cur().sym == s }
func (r *ref) isKw(s string) bool  { return r.cur().kw == s }
func (r *ref) isIdent() bool       { return r.cur().typ == token.Identifier }
func (r *ref) isEOF() bool         { return r.cur().typ == token.EOF }

func (r *ref) raw(i int) []rune {
	t := r.tok(i)
	return r.text[t.s:t.e]
}

// isDirective: the current word, reserved or not, is w.
func (r *ref) isDirective(w string) bool { return isWord(r.raw(r.i), w) }

func (r *ref) oneOf(ws []string) string {
	for _, w := range ws {
		if r.isDirective(w) {
			return w
		}
	}
	return ""
}

func (r *ref) kwOneOf(ws []string) bool {
	k := r.cur().kw
	if k == "" {
		return false
	}
	for _, w := range ws {
		if k == w {
			return true
		}
	}
	return false
}

func (r *ref) sym(s string) {
	if !r.isSym(s) {
		r.fail()
	}
	r.next()
}

func (r *ref) kw(s string) {
	if !r.isKw(s) {
		r.fail()
	}
	r.next()
}

func (r *ref) mark(s string) { r.out = append(r.out, item{k: '.', s: s}) }

// name emits the current identifier and goes past it.
func (r *ref) name() int {
	if !r.isIdent() {
		r.fail()
	}
	i := r.i
	r.emit(i)
	r.next()
	return i
}

func (r *ref) emit(i int) {
	t := r.tok(i)
	r.out = append(r.out, item{k: 'i', s: string(r.text[t.s:t.e]), p: t.s, e: t.e, cls: i})
}

// use emits token i as a name that refers to d (or to a built-in type).
func (r *ref) use(i int, d *rdecl, built string) {
	r.emit(i)
	n := &r.out[len(r.out)-1]
	n.k = 'r'
	r.bind(n, d, built)
}

func (r *ref) bind(n *item, d *rdecl, built string) {
	switch {
	case d != nil && d.self:
		n.rk = '*'
	case d != nil:
		n.ref, n.rk = r.tok(d.tok).s, d.kind
	case built != "":
		n.ref, n.rk = refBuiltin, 'T'
	default:
		n.ref, n.rk = refUnbound, '?'
	}
}

func sameName(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if unicode.ToLower(a[i]) != unicode.ToLower(b[i]) {
			return false
		}
	}
	return true
}

func (s *rscope) own(name []rune) *rdecl {
	for i := len(s.decls) - 1; i >= 0; i-- {
		if sameName(s.decls[i].name, name) {
			return s.decls[i]
		}
	}
	return nil
}

var (
	builtReal    = []string{"REAL48", "REAL", "SINGLE", "DOUBLE", "EXTENDED", "CURRENCY", "COMP"}
	builtOrdinal = []string{"INTEGER", "CARDINAL", "SHORTINT", "SMALLINT", "LONGINT", "INT64", "BYTE", "WORD", "LONGWORD", "CHAR", "ANSICHAR", "WIDECHAR", "BOOLEAN"}
	builtString  = []string{"STRING", "ANSISTRING", "WIDESTRING"}
	builtOther   = []string{"POINTER", "PCHAR", "PANSICHAR", "PWIDECHAR", "VARIANT", "OLEVARIANT"}
)

func wordIn(t []rune, ws []string) string {
	for _, w := range ws {
		if isWord(t, w) {
			return w
		}
	}
	return ""
}

var builtByLen = byLen(append(append(append(append([]string{}, builtReal...), builtOrdinal...), builtString...), builtOther...))

func builtinName(t []rune) string {
	if len(t) >= len(builtByLen) {
		return ""
	}
	return wordIn(t, builtByLen[len(t)])
}

// find looks the name up: scopes from the inside, then built-in types.
func (r *ref) find(name []rune) (*rdecl, string) {
	for s := r.sc; s != nil; s = s.up {
		if d := s.own(name); d != nil {
			if d.kind == 'g' {
				r.unspecified()
			}
			return d, ""
		}
	}
	return nil, builtinName(name)
}

func (r *ref) push() func() {
	old := r.sc
	r.sc = &rscope{up: old}
	return func() { r.sc = old }
}

// declare adds the name to the current scope; twice is an error.
func (r *ref) declare(i int, kind byte, t *rtype) *rdecl {
	name := r.raw(i)
	if old := r.sc.own(name); old != nil {
		if old.kind == 'g' || kind == 'U' && old.kind != 'U' {
			r.unspecified()
		}
		r.semantic(i)
	}
	d := &rdecl{tok: i, kind: kind, name: name, typ: t}
	r.sc.decls = append(r.sc.decls, d)
	return d
}

// ---- expressions

var relOps = []string{">", "<", "<=", ">=", "=", "<>", "IN", "IS"}
var addOps = []string{"+", "-", "OR", "XOR"}
var mulOps = []string{"*", "/", "DIV", "MOD", "AND", "SHL", "SHR", "AS"}

func (r *ref) op(ops []string) string {
	t := r.cur()
	s := t.kw + t.sym
	if s == "" {
		return ""
	}
	for _, o := range ops {
		if s == o {
			return o
		}
	}
	return ""
}

func (r *ref) expr() {
	r.simple()
	n := 0
	for o := r.op(relOps); o != ""; o = r.op(relOps) {
		r.mark(o)
		r.next()
		r.simple()
		n++
	}
	if n > 0 {
		r.mark(")rel")
	}
}

func (r *ref) simple() {
	n := 0
	if r.isSym("+") || r.isSym("-") {
		r.mark("unary")
		r.mark(r.cur().sym)
		r.next()
		n++
	}
	r.term()
	for o := r.op(addOps); o != ""; o = r.op(addOps) {
		r.mark(o)
		r.next()
		r.term()
		n++
	}
	if n > 0 {
		r.mark(")add")
	}
}

func (r *ref) term() {
	r.factor()
	n := 0
	for o := r.op(mulOps); o != ""; o = r.op(mulOps) {
		r.mark(o)
		r.next()
		r.factor()
		n++
	}
	if n > 0 {
		r.mark(")mul")
	}
}

func (r *ref) exprs(end string) {
	for {
		r.expr()
		r.mark(",")
		if r.isSym(end) {
			r.next()
			return
		}
		r.sym(",")
	}
}

func (r *ref) literal(kind string) {
	r.mark(kind)
	r.mark(string(r.raw(r.i)))
	r.next()
}

func (r *ref) factor() {
	t := r.cur()
	switch {
	case t.sym == "@":
		r.mark("@")
		r.next()
		r.designator()
	case t.sym == "[":
		r.mark("[")
		r.next()
		for !r.isSym("]") {
			r.expr()
			if r.isSym("..") {
				r.mark("..")
				r.next()
				r.expr()
			}
			r.mark(",")
			if r.isSym("]") {
				break
			}
			r.sym(",")
			if r.isSym("]") {
				r.fail()
			}
		}
		r.next()
		r.mark("]")
	case t.sym == "(":
		r.mark("(")
		r.next()
		r.expr()
		r.sym(")")
		r.mark(")")
	case t.kw == "NIL":
		r.mark("nil")
		r.next()
	case t.kw == "NOT":
		r.mark("not")
		r.next()
		r.factor()
	case t.kw == "INHERITED" || t.kw == "STRING":
		r.unspecified()
	case t.typ == token.CharacterString:
		r.literal("str")
	case t.typ == token.NumeralInt || t.typ == token.NumeralReal:
		r.literal("num")
	case t.typ == token.Identifier:
		if wordIn(r.raw(r.i), []string{"TRUE", "FALSE"}) != "" {
			r.literal("val")
			return
		}
		d, b := r.find(r.raw(r.i))
		if (d != nil && d.kind == 'T' || b != "") && r.tok(r.i+1).sym == "(" {
			r.mark("cast")
			r.use(r.i, d, b)
			r.next()
			r.next()
			r.expr()
			r.sym(")")
			r.mark(")")
			return
		}
		r.designator()
		if r.isSym("(") {
			r.mark("call(")
			r.next()
			if r.isSym(")") {
				r.unspecified()
			}
			r.exprs(")")
			r.mark(")")
		}
	default:
		r.fail()
	}
}

func (r *ref) designator() {
	r.qualId()
	for {
		switch {
		case r.isSym("."):
			r.next()
			r.mark(".")
			r.name()
			continue
		case r.isSym("["):
			r.next()
			r.mark("sub[")
			r.exprs("]")
			r.mark("]")
			continue
		case r.isSym("^"):
			r.next()
			r.mark("^")
			continue
		}
		break
	}
	r.mark(")des")
}

func (r *ref) qualId() {
	if !r.isIdent() {
		r.fail()
	}
	d, b := r.find(r.raw(r.i))
	if isSpace(d) {
		if d.kind == 'U' {
			r.unspecified()
		}
		r.use(r.i, d, b)
		r.next()
		r.sym(".")
		r.mark("qual")
		if !r.isIdent() {
			r.fail()
		}
		o := r.inModule(r.raw(r.i))
		if o == nil {
			r.semantic(r.i)
		}
		r.use(r.i, o, "")
		r.next()
		return
	}
	r.use(r.i, d, b)
	r.next()
}

// isSpace: the name of a unit or program
func isSpace(d *rdecl) bool {
	return d != nil && (d.kind == 'U' || d.kind == 'N' || d.kind == 'G')
}

// inModule finds a declaration of the unit or program itself.
func (r *ref) inModule(name []rune) *rdecl {
	for _, s := range r.module {
		if d := s.own(name); d != nil {
			if isSpace(d) {
				r.unspecified()
			}
			return d
		}
	}
	return nil
}

// ---- statements

var stmtEnds = []string{"END", "ELSE", "UNTIL", "EXCEPT", "FINALLY", "FINALIZATION"}

func (r *ref) atStmtEnd() bool { return r.isSym(";") || r.kwOneOf(stmtEnds) }

func (r *ref) stmts(ends ...string) {
	for {
		n := len(r.out)
		if !r.stmt() {
			r.out = r.out[:n]
		} else {
			r.mark(";")
		}
		if r.kwOneOf(ends) {
			break
		}
		r.sym(";")
	}
	r.mark(")stmts")
}

// stmt tells whether there was a statement (an unlabelled empty one is none).
func (r *ref) stmt() bool {
	labelled := false
	if r.isIdent() {
		if d, _ := r.find(r.raw(r.i)); d != nil && d.kind == 'L' {
			labelled = true
			r.mark("label")
			r.name()
			r.sym(":")
		}
	}
	if r.atStmtEnd() {
		r.mark("empty")
		return labelled
	}
	switch r.cur().kw {
	case "INHERITED":
		r.next()
		r.mark("inherited")
		if r.isIdent() {
			r.unspecified()
		}
	case "GOTO":
		r.next()
		r.mark("goto")
		if r.cur().typ == token.NumeralInt {
			r.unspecified()
		}
		if !r.isIdent() {
			r.fail()
		}
		d, b := r.find(r.raw(r.i))
		r.use(r.i, d, b)
		r.next()
	case "BEGIN":
		r.next()
		r.mark("begin")
		r.stmts("END")
		r.next()
	case "IF":
		r.next()
		r.mark("if")
		r.expr()
		r.kw("THEN")
		r.mark("then")
		r.stmt()
		if r.isKw("ELSE") {
			r.next()
			r.mark("else")
			r.stmt()
		}
		r.mark(")if")
	case "CASE":
		r.caseStmt()
	case "REPEAT":
		r.next()
		r.mark("repeat")
		r.stmts("UNTIL")
		r.next()
		r.mark("until")
		r.expr()
	case "WHILE":
		r.next()
		r.mark("while")
		r.expr()
		r.kw("DO")
		r.mark("do")
		r.stmt()
	case "FOR":
		r.next()
		r.mark("for")
		r.qualId()
		r.sym(":=")
		r.mark(":=")
		r.expr()
		switch r.cur().kw {
		case "TO":
			r.mark("to")
		case "DOWNTO":
			r.mark("downto")
		default:
			r.fail()
		}
		r.next()
		r.expr()
		r.kw("DO")
		r.mark("do")
		r.stmt()
	case "WITH":
		r.next()
		r.mark("with")
		for {
			r.qualId()
			r.mark(",")
			if !r.isSym(",") {
				break
			}
			r.next()
		}
		if r.isSym(".") || r.isSym("[") || r.isSym("^") || r.isSym("(") {
			r.unspecified() // the language also takes designators here
		}
		r.kw("DO")
		r.mark("do")
		r.stmt()
	case "TRY":
		r.tryStmt()
	case "RAISE":
		r.next()
		r.mark("raise")
		if r.atStmtEnd() {
			break
		}
		if !r.isDirective("AT") {
			r.expr()
		}
		if r.isDirective("AT") {
			r.next()
			r.mark("at")
			r.expr()
		}
	case "ASM":
		r.asm()
	default:
		if r.cur().typ == token.NumeralInt {
			r.unspecified() // numeric labels
		}
		r.designator()
		switch {
		case r.isSym(":="):
			r.next()
			r.mark(":=")
			r.expr()
		default:
			r.mark("do(")
			if r.isSym("(") {
				r.next()
				if r.isSym(")") {
					r.next()
				} else {
					r.exprs(")")
				}
			}
			r.mark(")")
		}
	}
	return true
}

func (r *ref) asm() {
	for r.next(); !r.isKw("END"); r.next() {
		if r.isEOF() {
			r.fail()
		}
	}
	r.next()
	r.mark("asm")
}

func (r *ref) caseStmt() {
	r.next()
	r.mark("case")
	r.expr()
	r.kw("OF")
	r.mark("of")
	for {
		for {
			r.expr()
			if r.isSym("..") {
				r.next()
				r.mark("..")
				r.expr()
			}
			r.mark(",")
			if !r.isSym(",") {
				break
			}
			r.next()
		}
		r.sym(":")
		r.mark(":")
		r.stmt()
		if r.isKw("ELSE") || r.isKw("END") {
			break
		}
		r.sym(";")
		if r.isKw("ELSE") || r.isKw("END") {
			break
		}
	}
	if r.isKw("ELSE") {
		r.next()
		r.elseStmts()
	}
	r.kw("END")
	r.mark(")case")
}

// elseStmts: a statement list up to END that is not represented when empty.
func (r *ref) elseStmts() {
	n := len(r.out)
	r.mark("else")
	r.stmts("END")
	if len(r.out) == n+2 {
		r.out = r.out[:n]
	}
}

func (r *ref) tryStmt() {
	r.next()
	r.mark("try")
	r.stmts("EXCEPT", "FINALLY")
	if r.isKw("FINALLY") {
		r.next()
		r.mark("finally")
		r.stmts("END")
		r.next()
		return
	}
	r.next()
	r.mark("except")
	if !r.isDirective("ON") {
		r.elseStmts()
		r.next()
		r.mark(")except")
		return
	}
	for r.isDirective("ON") {
		r.next()
		r.handler()
		if r.isSym(";") {
			r.next()
		} else if r.isDirective("ON") {
			r.unspecified()
		}
	}
	if r.isSym(";") {
		r.unspecified()
	}
	if r.isKw("ELSE") {
		r.next()
		r.elseStmts()
	}
	r.kw("END")
	r.mark(")except")
}

func (r *ref) handler() {
	r.mark("on")
	if !r.isIdent() {
		if r.isKw("STRING") {
			r.unspecified() // a type, but not a class
		}
		r.fail()
	}
	d, b := r.find(r.raw(r.i))
	name := -1
	if !(d != nil && d.kind == 'T' || b != "") {
		if isSpace(d) {
			r.unspecified()
		}
		name = r.name()
		r.sym(":")
		r.mark(":")
	}
	if !r.isIdent() {
		r.unspecified() // only names of classes make sense
	}
	r.typ()
	defer r.push()()
	if name >= 0 {
		r.declare(name, 'X', nil)
	}
	r.kw("DO")
	r.mark("do")
	r.stmt()
}

// ---- types

func (r *ref) ordinal(t *rtype) bool {
	for n := 0; t != nil && n < 20; n++ {
		switch t.k {
		case 'o':
			return true
		case 'n':
			if t.built != "" {
				for _, w := range builtOrdinal {
					if w == t.built {
						return true
					}
				}
				return false
			}
			if t.ref == nil || t.ref.kind != 'T' {
				return false
			}
			t = t.ref.typ
		default:
			return false
		}
	}
	return false
}

// typeName emits the name of a type, bound now or at the end of the section.
func (r *ref) typeName() *rtype {
	if r.isKw("STRING") {
		r.use(r.i, nil, "STRING")
		r.next()
		return &rtype{k: 'n', built: "STRING"}
	}
	if !r.isIdent() {
		r.fail()
	}
	i := r.i
	d, b := r.find(r.raw(i))
	if isSpace(d) {
		r.name()
		r.sym(".")
		r.mark("qual")
		if !r.isIdent() {
			r.fail()
		}
		if d.kind != 'U' {
			if o := r.inModule(r.raw(r.i)); o != nil && o.kind == 'T' {
				r.use(r.i, o, "")
				r.next()
				return &rtype{k: 'n', ref: o}
			}
		}
		r.use(r.i, nil, "")
		r.out[len(r.out)-1].rk = '*'
		r.next()
		return &rtype{k: 'n'}
	}
	r.use(i, d, b)
	r.next()
	t := &rtype{k: 'n', ref: d, built: b}
	if d != nil && d.kind != 'T' {
		r.out[len(r.out)-1].rk = '*' // not a type
	}
	if d == nil && b == "" && r.inSec {
		r.pend = append(r.pend, pending{len(r.out) - 1, r.raw(i), t})
	}
	return t
}

func (r *ref) typ() *rtype {
	t := r.cur()
	switch {
	case t.sym == "(":
		r.mark("enum")
		for {
			r.next()
			i := r.name()
			if r.isSym("=") {
				r.next()
				r.mark("=")
				r.expr()
			}
			r.declare(i, 'E', nil)
			if r.isSym(")") {
				break
			}
			if !r.isSym(",") {
				r.fail()
			}
		}
		r.next()
		r.mark(")enum")
		return &rtype{k: 'o'}
	case t.sym == "^":
		r.next()
		r.mark("^")
		r.typeName()
		return &rtype{k: '-'}
	case t.sym == "+" || t.sym == "-" || t.sym == "#":
		r.unspecified()
	case t.typ == token.Identifier:
		if r.tok(r.i+1).sym == ".." {
			d, b := r.find(r.raw(r.i))
			if isSpace(d) || b != "" {
				r.unspecified()
			}
			r.use(r.i, d, b)
			r.mark(")des")
			r.next()
			r.next()
			r.mark("..")
			r.expr()
			return &rtype{k: 'o'}
		}
		return r.typeName()
	case t.typ == token.NumeralInt || t.typ == token.NumeralReal || t.typ == token.CharacterString:
		r.expr()
		r.sym("..")
		r.mark("..")
		r.expr()
		return &rtype{k: 'o'}
	case t.kw == "STRING":
		ty := r.typeName()
		if r.isSym("[") {
			r.next()
			r.mark("len")
			r.expr()
			r.sym("]")
			return &rtype{k: '-'}
		}
		return ty
	case t.kw == "PACKED":
		r.next()
		r.mark("packed")
		return r.struc(true)
	case t.kw == "ARRAY" || t.kw == "SET" || t.kw == "RECORD" || t.kw == "FILE":
		return r.struc(false)
	case t.kw == "FUNCTION" || t.kw == "PROCEDURE":
		return r.procType()
	case t.kw == "CLASS":
		return r.class()
	case t.kw == "NIL" || t.kw == "NOT" || t.kw == "INTERFACE" || t.kw == "OBJECT" || t.kw == "DISPINTERFACE":
		r.unspecified()
	}
	r.fail()
	return nil
}

func (r *ref) ordinalType() {
	i := r.i
	if !r.ordinal(r.typ()) {
		r.semantic(i)
	}
}

func (r *ref) struc(packed bool) *rtype {
	switch r.cur().kw {
	case "ARRAY":
		r.next()
		r.mark("array")
		if r.isSym("[") {
			for {
				r.next()
				r.ordinalType()
				r.mark(",")
				if r.isSym("]") {
					break
				}
				if !r.isSym(",") {
					r.fail()
				}
			}
			r.next()
		}
		r.kw("OF")
		r.mark("of")
		if r.isKw("CONST") {
			r.unspecified()
		}
		r.typ()
		if r.isKw("PACKED") {
			r.unspecified()
		}
	case "SET":
		r.next()
		r.kw("OF")
		r.mark("set")
		r.ordinalType()
	case "FILE":
		r.next()
		r.mark("file")
		if !r.isKw("OF") {
			r.unspecified() // untyped files
		}
		r.next()
		r.typeName()
	case "RECORD":
		r.next()
		r.mark("record")
		r.fields("END", "")
		r.next()
		r.mark(")record")
	default:
		r.fail()
	}
	return &rtype{k: '-'}
}

func (r *ref) identList(end string) {
	for {
		r.name()
		if r.isSym(end) {
			break
		}
		r.sym(",")
	}
	r.next()
}

func (r *ref) at(kw, sym string) bool {
	t := r.cur()
	return kw != "" && t.kw == kw || sym != "" && t.sym == sym
}

func (r *ref) fields(kw, sym string) {
	for !r.isKw("CASE") && !r.at(kw, sym) {
		r.identList(":")
		r.mark(":")
		r.typ()
		if r.at(kw, sym) {
			break
		}
		r.sym(";")
	}
	if r.isKw("CASE") {
		r.next()
		r.mark("case")
		if !r.isIdent() {
			if r.cur().typ == token.NumeralInt || r.cur().typ == token.CharacterString || r.isSym("(") || r.isKw("STRING") || r.isKw("CLASS") {
				r.unspecified()
			}
			r.fail()
		}
		if r.tok(r.i+1).sym == ":" {
			r.name()
			r.next()
			r.mark(":")
		}
		if !r.isIdent() {
			r.unspecified() // only type names make sense
		}
		r.ordinalType()
		r.kw("OF")
		r.mark("of")
		if r.at(kw, sym) {
			r.unspecified() // no variant at all
		}
		for !r.at(kw, sym) {
			for {
				r.expr()
				r.mark(",")
				if r.isSym(":") {
					break
				}
				r.sym(",")
			}
			r.next()
			r.sym("(")
			r.mark(":(")
			r.fields("", ")")
			r.next()
			r.mark(")")
			if r.at(kw, sym) {
				break
			}
			r.sym(";")
		}
	}
	r.mark(")fields")
}

func (r *ref) procType() *rtype {
	fn := r.isKw("FUNCTION")
	if fn {
		r.mark("function")
	} else {
		r.mark("procedure")
	}
	r.next()
	defer r.push()()
	r.optParams("(", ")")
	if fn {
		r.sym(":")
		r.mark("returns")
		r.typeName()
	}
	if r.isKw("OF") {
		r.next()
		r.kw("OBJECT")
		r.mark("of object")
	}
	return &rtype{k: '-'}
}

type rparam struct{ toks []int }

func (r *ref) optParams(open, end string) []int {
	var all []int
	if !r.isSym(open) {
		r.mark(")params")
		return nil
	}
	r.next()
	if r.isSym(end) {
		r.next()
		r.mark(")params")
		return nil
	}
	for {
		mode := false
		switch r.cur().kw {
		case "VAR", "CONST", "OUT":
			mode = true
			r.mark([]string{"var", "const", "out"}[indexOf([]string{"VAR", "CONST", "OUT"}, r.cur().kw)])
			r.next()
		}
		var mine []int
		for {
			mine = append(mine, r.name())
			if r.isSym(":") || r.isSym(";") || r.isSym(end) {
				break
			}
			if r.isSym("=") {
				r.fail()
			}
			r.sym(",")
		}
		if r.isSym(":") {
			r.next()
			r.mark(":")
			array := false
			if r.isKw("ARRAY") {
				r.next()
				if r.isSym("[") {
					r.unspecified()
				}
				r.kw("OF")
				r.mark("array of")
				array = true
			}
			if array && r.isKw("CONST") {
				r.mark("const")
				r.next()
			} else {
				if !r.isIdent() && !r.isKw("STRING") {
					r.typ()
					r.unspecified() // only type names make sense
				}
				r.typ()
			}
		} else if !mode {
			r.unspecified() // untyped parameters need a mode
		}
		if r.isSym("=") {
			r.next()
			r.mark("=")
			r.expr()
		}
		if !r.isSym(end) && !r.isSym(";") {
			r.fail()
		}
		r.mark(")param")
		for _, i := range mine {
			r.declare(i, 'P', nil)
		}
		all = append(all, mine...)
		if r.isSym(end) {
			break
		}
		r.next()
	}
	r.next()
	r.mark(")params")
	return all
}

func indexOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

// ---- classes

var visibilities = []string{"PRIVATE", "PROTECTED", "PUBLIC", "PUBLISHED"}
var methodDirectives = []string{"ABSTRACT", "VIRTUAL", "OVERRIDE", "OVERLOAD", "REINTRODUCE"}
var directivesRef = []string{"ABSTRACT", "CDECL", "DYNAMIC", "EXPORT", "EXTERNAL", "FAR", "FORWARD", "INDEX", "LOCAL", "MESSAGE", "NAME", "NEAR", "OVERLOAD", "OVERRIDE", "PASCAL", "REGISTER", "REINTRODUCE", "SAFECALL", "STDCALL", "VARARGS"}
var portabilityRef = []string{"PLATFORM", "DEPRECATED", "LIBRARY"}
var methodKinds = []string{"FUNCTION", "PROCEDURE", "CONSTRUCTOR", "DESTRUCTOR"}

func (r *ref) class() *rtype {
	r.next()
	if r.isSym(";") {
		r.mark("class forward")
		return &rtype{k: 'f'}
	}
	if r.isKw("OF") {
		r.next()
		r.mark("class of")
		if !r.isIdent() {
			r.fail()
		}
		d, b := r.find(r.raw(r.i))
		r.use(r.i, d, b)
		if d == nil && b == "" && r.inSec {
			r.pend = append(r.pend, pending{len(r.out) - 1, r.raw(r.i), nil})
		} else if d == nil && b == "" || d != nil && d.kind != 'T' {
			r.out[len(r.out)-1].rk = '*'
		}
		r.next()
		return &rtype{k: '-'}
	}
	r.mark("class")
	c := &rclass{}
	if r.isSym("(") {
		for {
			r.next()
			t := r.typeName()
			if c.up == nil {
				c.up = t
			}
			r.mark(",")
			if r.isSym(")") {
				break
			}
			if !r.isSym(",") {
				r.fail()
			}
		}
		r.next()
		if r.isSym(";") {
			r.mark(")class")
			return &rtype{k: 'c', cls: c}
		}
	}
	for first := true; !r.isKw("END"); first = false {
		v := r.oneOf(visibilities)
		r.mark("section")
		if v != "" {
			r.mark(v)
			r.next()
		} else {
			if !first {
				r.unspecified()
			}
			r.mark("default")
		}
		priv := v == "PRIVATE"
		// fields
		for r.isIdent() && r.oneOf(visibilities) == "" {
			start := len(r.out)
			r.identList(":")
			for _, it := range r.out[start:] {
				c.members = append(c.members, rmember{tok: it.cls, kind: 'f', priv: priv, name: r.raw(it.cls)})
			}
			r.mark(":")
			r.typ()
			if r.isKw("END") {
				break
			}
			if !r.isSym(";") && (r.kwOneOf(methodKinds) || r.isKw("PROPERTY") || r.oneOf(visibilities) != "") {
				r.unspecified()
			}
			r.sym(";")
		}
		for r.kwOneOf(methodKinds) {
			r.method(c, priv)
		}
		for r.isKw("PROPERTY") {
			r.property(c, priv)
		}
		if r.isKw("END") || r.oneOf(visibilities) != "" {
			continue
		}
		if r.isKw("CLASS") || r.kwOneOf(methodKinds) || r.isDirective("DEFAULT") {
			r.unspecified()
		}
		r.fail()
	}
	r.next()
	r.mark(")class")
	return &rtype{k: 'c', cls: c}
}

func (r *ref) method(c *rclass, priv bool) {
	defer r.push()()
	r.mark("method")
	var name int
	switch r.cur().kw {
	case "CONSTRUCTOR":
		r.next()
		r.mark("constructor")
		name = r.name()
		r.optParams("(", ")")
	case "DESTRUCTOR":
		r.next()
		r.mark("destructor")
		name = r.name()
		if r.isSym("(") {
			r.unspecified()
		}
	default:
		name, _ = r.heading()
	}
	c.members = append(c.members, rmember{tok: name, kind: 'm', priv: priv, name: r.raw(name)})
	if !r.isSym(";") {
		if r.isKw("END") || r.kwOneOf(methodKinds) || r.isKw("PROPERTY") || r.isIdent() || r.isKw("CLASS") {
			r.unspecified()
		}
		r.fail()
	}
	r.next()
	for {
		w := r.oneOf(methodDirectives)
		if w == "" {
			break
		}
		r.mark(w)
		r.next()
		if !r.isSym(";") {
			if r.isKw("END") || r.isKw("PROPERTY") || r.oneOf(visibilities) != "" {
				r.unspecified()
			}
			r.fail()
		}
		r.next()
	}
	if r.oneOf(directivesRef) != "" || r.isSym(";") || r.oneOf(portabilityRef) != "" {
		r.unspecified()
	}
}

// ancestor follows a type name to the class it denotes.
func ancestor(t *rtype) *rclass {
	for n := 0; t != nil && n < 20; n++ {
		switch t.k {
		case 'c':
			return t.cls
		case 'n':
			if t.ref == nil {
				return nil
			}
			t = t.ref.typ
		default:
			return nil
		}
	}
	return nil
}

func (c *rclass) member(name []rune) *rmember {
	own := true
	for n := 0; c != nil && n < 20; n++ {
		for i := range c.members {
			m := &c.members[i]
			if (own || !m.priv) && sameName(m.name, name) {
				return m
			}
		}
		own = false
		c = ancestor(c.up)
	}
	return nil
}

func (c *rclass) property(name []rune) *rprop {
	for n := 0; c != nil && n < 20; n++ {
		for i := range c.members {
			m := &c.members[i]
			if m.kind == 'p' && sameName(m.name, name) {
				return m.prop
			}
		}
		c = ancestor(c.up)
	}
	return nil
}

func (r *ref) specifier(c *rclass, word, mark string) bool {
	if !r.isDirective(word) {
		return false
	}
	r.next()
	r.mark(mark)
	if mark == "stored" {
		switch wordIn(r.raw(r.i), []string{"TRUE", "FALSE"}) {
		case "TRUE":
			r.mark("true")
			r.next()
			return true
		case "FALSE":
			r.mark("false")
			r.next()
			return true
		}
	}
	m := c.member(r.raw(r.i))
	if m != nil && m.kind == 'p' {
		r.unspecified() // the language wants a field or method
	}
	if m == nil {
		if r.isIdent() {
			r.semantic(r.i)
		}
		r.fail()
	}
	r.use(r.i, &rdecl{tok: m.tok, kind: m.kind}, "")
	r.next()
	if r.isSym(".") {
		r.unspecified()
	}
	return true
}

func (p *rprop) has(k int) bool {
	for n := 0; p != nil && n < 20; n++ {
		if p.parts[k] {
			return true
		}
		p = p.parent
	}
	return false
}

func (r *ref) property(c *rclass, priv bool) {
	r.next()
	r.mark("property")
	p := &rprop{}
	name := r.name()
	p.tok = name
	if r.isSym("[") || r.isSym(":") {
		p.parts[0] = true
		if r.isSym("[") {
			undo := r.push()
			r.mark("[")
			n := r.i
			r.optParams("[", "]")
			if r.i == n+2 {
				r.unspecified() // no parameter at all
			}
			undo()
		}
		r.sym(":")
		r.mark(":")
		r.typeName()
	}
	if r.isDirective("INDEX") {
		r.next()
		r.mark("index")
		r.expr()
		p.parts[1] = true
	}
	for _, m := range c.members {
		if m.kind == 'p' && sameName(m.name, r.raw(name)) {
			r.unspecified() // twice in one class
		}
	}
	parent := c.property(r.raw(name))
	p.parts[2] = r.specifier(c, "READ", "read")
	p.parts[3] = r.specifier(c, "WRITE", "write")
	p.parts[4] = r.specifier(c, "STORED", "stored")
	p.parts[5] = r.isDirective("DEFAULT") || r.isDirective("NODEFAULT")
	if r.isDirective("DEFAULT") {
		r.next()
		r.mark("default")
		r.expr()
	} else if r.isDirective("NODEFAULT") {
		r.next()
		r.mark("nodefault")
	}
	p.parts[6] = r.isDirective("IMPLEMENTS")
	if p.parts[6] {
		r.next()
		r.mark("implements")
		r.typeName()
	}
	r.mark(")property")
	if !r.isSym(";") {
		if r.isKw("END") || r.isKw("PROPERTY") || r.oneOf(visibilities) != "" || r.oneOf(portabilityRef) != "" {
			r.unspecified()
		}
		if r.isIdent() || r.kwOneOf(methodKinds) {
			r.unspecified() // specifiers in another order
		}
		r.fail()
	}
	r.next()
	p.above = parent
	if parent != nil {
		for k := 0; k < 4; k++ {
			if !p.parts[k] && parent.has(k) {
				p.parent = parent
			}
		}
	}
	r.props = append(r.props, p)
	c.members = append(c.members, rmember{tok: name, kind: 'p', priv: priv, name: r.raw(name), prop: p})
	if r.isSym(";") {
		r.unspecified()
	}
}

// ---- declarations

func (r *ref) atSectionEnd() bool { return r.cur().kw != "" || r.isEOF() }

func (r *ref) declEnd() {
	if !r.isSym(";") {
		if r.atSectionEnd() || r.oneOf(portabilityRef) != "" {
			r.unspecified()
		}
		r.fail()
	}
	r.next()
}

func (r *ref) constSection() {
	r.next()
	r.mark("const")
	for {
		i := r.name()
		d := r.declare(i, 'C', nil)
		d.self = true
		if r.isSym(":") {
			r.next()
			r.mark(":")
			r.typ()
		}
		r.sym("=")
		r.mark("=")
		if r.isSym("(") {
			n := len(r.out)
			r.expr()
			if r.isSym(",") || r.isSym(":") {
				r.unspecified()
			}
			_ = n
		} else {
			r.expr()
		}
		d.self = false
		if !r.isSym(";") && (r.oneOf(portabilityRef) != "") {
			r.unspecified()
		}
		r.sym(";")
		if r.atSectionEnd() {
			break
		}
	}
	r.mark(")section")
}

func (r *ref) typeSection() {
	r.next()
	r.mark("type")
	oldPend, oldIn := r.pend, r.inSec
	r.pend, r.inSec = nil, true
	for {
		i := r.name()
		r.sym("=")
		r.mark("=")
		if r.isKw("TYPE") {
			r.next()
		}
		t := r.typ()
		if old := r.sc.own(r.raw(i)); old != nil {
			if old.kind != 'T' || old.typ == nil || old.typ.k != 'f' || t.k != 'c' {
				r.semantic(i)
			}
			// the forward declaration stands for the class from now on
			old.typ.k, old.typ.cls = 'c', t.cls
			r.sc.decls = append(r.sc.decls, &rdecl{tok: i, kind: 'T', name: r.raw(i), typ: t})
		} else {
			r.declare(i, 'T', t)
		}
		if w := r.oneOf(portabilityRef); w != "" {
			r.mark("portability")
			r.mark(w)
			r.next()
		}
		r.declEnd()
		if r.atSectionEnd() {
			break
		}
	}
	for _, p := range r.pend {
		d, b := r.find(p.name)
		r.bind(&r.out[p.item], d, b)
		if d != nil && d.kind != 'T' {
			r.out[p.item].rk = '*'
		}
		if p.typ != nil {
			p.typ.ref = d
		}
	}
	r.pend, r.inSec = oldPend, oldIn
	r.mark(")section")
}

func (r *ref) varSection(thread bool) {
	r.next()
	kind := byte('V')
	if thread {
		r.mark("threadvar")
		kind = 'W'
	} else {
		r.mark("var")
	}
	oldIn := r.inSec
	r.inSec = false
	for {
		n := len(r.out)
		r.identList(":")
		names := r.out[n:]
		r.mark(":")
		r.typ()
		if !thread {
			abs := r.isDirective("ABSOLUTE")
			if abs {
				r.next()
				r.mark("absolute")
				if r.cur().typ == token.NumeralInt || r.cur().typ == token.CharacterString || r.isSym("$") {
					r.unspecified()
				}
				r.name()
				if !r.isSym(";") && !r.isSym("=") && !r.atSectionEnd() {
					if r.op(addOps)+r.op(mulOps)+r.op(relOps) != "" || r.isSym(".") || r.isSym("[") || r.isSym("^") || r.isSym("(") || r.isSym(":") {
						r.unspecified()
					}
				}
			}
			if r.isSym("=") {
				if abs {
					r.unspecified()
				}
				r.next()
				r.mark("=")
				if r.isSym("(") {
					r.expr()
					if r.isSym(",") || r.isSym(":") {
						r.unspecified()
					}
				} else {
					r.expr()
				}
			}
		}
		for _, it := range names {
			if it.k == 'i' {
				r.declare(it.cls, kind, nil)
			}
		}
		if thread {
			if r.oneOf(portabilityRef) != "" {
				r.unspecified()
			}
			r.sym(";")
		} else {
			r.declEnd()
		}
		if r.atSectionEnd() {
			break
		}
	}
	r.inSec = oldIn
	r.mark(")section")
}

func (r *ref) heading() (int, []int) {
	fn := r.isKw("FUNCTION")
	if fn {
		r.mark("function")
	} else {
		r.mark("procedure")
	}
	r.next()
	i := r.name()
	if r.isSym(".") {
		r.unspecified()
	}
	ps := r.optParams("(", ")")
	if fn {
		if r.isSym(";") {
			r.unspecified() // the rest of a forward declared function
		}
		r.sym(":")
		r.mark("returns")
		r.typeName()
	}
	return i, ps
}

// directives: tells whether the routine has no block.
func (r *ref) directives() bool {
	none := false
	start := len(r.out)
	var lib []item
	for {
		w := r.oneOf(directivesRef)
		if w == "" {
			break
		}
		if w == "MESSAGE" || w == "NAME" || w == "INDEX" {
			r.unspecified()
		}
		r.mark(w)
		r.next()
		if w == "FORWARD" || w == "EXTERNAL" {
			none = true
		}
		if w == "EXTERNAL" {
			if lib != nil {
				r.unspecified()
			}
			lib = []item{}
			if !r.isSym(";") {
				if r.isIdent() {
					r.unspecified() // constants are allowed as well
				}
				if r.cur().typ != token.CharacterString {
					r.fail()
				}
				lib = append(lib, item{k: '.', s: "library"}, item{k: '.', s: string(r.raw(r.i))})
				r.next()
				switch {
				case r.isSym(";"):
				case r.isDirective("NAME"):
					r.next()
					if r.cur().typ != token.CharacterString {
						if r.isIdent() {
							r.unspecified()
						}
						r.fail()
					}
					lib = append(lib, item{k: '.', s: "name"}, item{k: '.', s: string(r.raw(r.i))})
					r.next()
				case r.isDirective("INDEX"):
					r.next()
					if r.cur().typ != token.NumeralInt {
						if r.isIdent() || r.cur().typ == token.NumeralReal {
							r.unspecified()
						}
						r.fail()
					}
					lib = append(lib, item{k: '.', s: "index"}, item{k: '.', s: string(r.raw(r.i))})
					r.next()
				default:
					if r.op(addOps) != "" {
						r.unspecified()
					}
					r.fail()
				}
			}
		}
		if !r.isSym(";") && r.oneOf(directivesRef) != "" {
			r.unspecified()
		}
		r.sym(";")
	}
	_ = start
	r.out = append(r.out, lib...)
	r.mark(")heading")
	return none
}

func (r *ref) declareRoutine(i int, kind byte) {
	if old := r.sc.own(r.raw(i)); old != nil {
		if old.kind == 'g' {
			r.unspecified()
		}
		if old.kind != 'F' && old.kind != 'H' {
			r.semantic(i)
		}
		r.sc.decls = append(r.sc.decls, &rdecl{tok: i, kind: kind, name: r.raw(i)})
		return
	}
	r.declare(i, kind, nil)
}

func (r *ref) routine() {
	oldIn := r.inSec
	r.inSec = false
	undo := r.push()
	i, ps := r.heading()
	undo()
	r.sym(";")
	r.declareRoutine(i, 'F')
	undo = r.push()
	for _, p := range ps {
		r.declare(p, 'P', nil)
	}
	if r.directives() {
		r.mark("no body")
		r.mark(")block")
	} else {
		if r.oneOf(portabilityRef) != "" {
			r.unspecified()
		}
		if !r.block() {
			if r.isEOF() || r.isKw("END") || r.isKw("INITIALIZATION") {
				r.unspecified()
			}
			r.unspecified()
		}
		if !r.isSym(";") {
			r.unspecified()
		}
		r.next()
	}
	undo()
	r.inSec = oldIn
	if r.isSym(";") {
		r.unspecified()
	}
}

func (r *ref) declSections() {
	for {
		switch r.cur().kw {
		case "LABEL":
			r.next()
			r.mark("label")
			if r.cur().typ == token.NumeralInt {
				r.unspecified()
			}
			i := r.name()
			if r.isSym(",") {
				r.unspecified()
			}
			r.sym(";")
			r.declare(i, 'L', nil)
			if r.isSym(";") {
				r.unspecified()
			}
		case "CONST":
			r.constSection()
		case "TYPE":
			r.typeSection()
		case "VAR":
			r.varSection(false)
		case "THREADVAR":
			r.varSection(true)
		case "FUNCTION", "PROCEDURE":
			r.routine()
		case "RESOURCESTRING", "CONSTRUCTOR", "DESTRUCTOR", "CLASS":
			r.unspecified()
		default:
			return
		}
	}
}

func (r *ref) exports() {
	for r.isKw("EXPORTS") {
		r.next()
		r.mark("exports")
		for {
			r.name()
			var nm, ix []item
			for {
				if nm == nil && r.isDirective("NAME") {
					r.next()
					n := len(r.out)
					r.mark("name")
					r.expr()
					nm = append(nm, r.out[n:]...)
					r.out = r.out[:n]
				} else if ix == nil && r.isDirective("INDEX") {
					r.next()
					n := len(r.out)
					r.mark("index")
					r.expr()
					ix = append(ix, r.out[n:]...)
					r.out = r.out[:n]
				} else {
					break
				}
			}
			r.out = append(r.out, nm...)
			r.out = append(r.out, ix...)
			r.mark(",")
			if r.isSym(";") {
				break
			}
			r.sym(",")
		}
		r.next()
	}
}

// block tells whether it has a body.
func (r *ref) block() bool {
	r.declSections()
	r.exports()
	body := true
	switch r.cur().kw {
	case "BEGIN":
		r.next()
		r.mark("body")
		r.stmts("END")
		r.next()
	case "ASM":
		r.asm()
	default:
		body = false
		r.mark("no body")
	}
	r.exports()
	r.mark(")block")
	return body
}

func (r *ref) uses() {
	if !r.isKw("USES") {
		return
	}
	r.next()
	r.mark("uses")
	var names []int
	for {
		names = append(names, r.name())
		if r.isKw("IN") {
			r.next()
			r.mark("in")
			if r.cur().typ != token.CharacterString {
				r.fail()
			}
			r.mark(string(r.raw(r.i)))
			r.next()
		}
		if r.isSym(";") {
			break
		}
		r.sym(",")
	}
	r.next()
	for _, i := range names {
		r.declare(i, 'U', nil)
	}
	r.mark(")uses")
}

func (r *ref) program() {
	if !r.isKw("PROGRAM") {
		if r.kwOneOf([]string{"BEGIN", "USES", "VAR", "CONST", "TYPE", "LABEL", "FUNCTION", "PROCEDURE", "THREADVAR", "ASM", "EXPORTS"}) {
			r.unspecified() // the heading may be missing in the language
		}
		r.fail()
	}
	r.next()
	r.mark("program")
	name := r.name()
	if r.isSym("(") {
		r.unspecified()
	}
	r.sym(";")
	if r.isKw("USES") {
		r.uses()
		r.push() // the program's own declarations come after those of the units
		r.declare(name, 'G', nil)
		r.module = []*rscope{r.sc}
	} else {
		r.declare(name, 'g', nil) // not known without a uses clause
	}
	if !r.block() {
		r.fail()
	}
	if !r.isSym(".") {
		r.fail()
	}
}

func (r *ref) unit() {
	r.kw("UNIT")
	r.mark("unit")
	name := r.name()
	if w := r.oneOf(portabilityRef); w != "" {
		r.mark("portability")
		r.mark(w)
		r.next()
	}
	r.sym(";")
	r.kw("INTERFACE")
	r.mark("interface")
	r.uses()
	r.push()
	r.declare(name, 'N', nil)
	r.module = []*rscope{r.sc}
loop:
	for {
		switch r.cur().kw {
		case "TYPE":
			r.typeSection()
		case "VAR":
			r.varSection(false)
		case "THREADVAR":
			r.varSection(true)
		case "CONST":
			r.constSection()
		case "FUNCTION", "PROCEDURE":
			undo := r.push()
			i, _ := r.heading()
			undo()
			r.sym(";")
			r.declareRoutine(i, 'H')
			r.directives()
		case "RESOURCESTRING":
			r.unspecified()
		default:
			break loop
		}
	}
	if r.isIdent() && r.oneOf(portabilityRef) != "" {
		r.unspecified()
	}
	r.kw("IMPLEMENTATION")
	r.mark("implementation")
	r.uses()
	defer r.push()()
	r.module = []*rscope{r.sc, r.sc.up}
	r.declSections()
	r.exports()
	if r.isSym(";") {
		r.unspecified()
	}
	if r.isKw("BEGIN") || r.isKw("EXPORTS") {
		r.unspecified()
	}
	if r.isKw("INITIALIZATION") {
		r.next()
		r.mark("initialization")
		r.stmts("FINALIZATION", "END")
		if r.isKw("FINALIZATION") {
			r.next()
			r.mark("finalization")
			r.stmts("END")
		} else {
			r.mark("finalization")
			r.mark(")stmts")
		}
	}
	r.kw("END")
	if !r.isSym(".") {
		r.fail()
	}
	r.mark(")unit")
}

// what can be parsed
const (
	eExpr = iota
	eStmt
	eBlock
	eDecls
	eTypes
	eProgram
	eUnit
)

type refResult struct {
	stop *refStop // nil: accepted
	r    *ref
}

func runRef(entry int, text []rune) (res refResult) {
	r := newRef(text)
	res.r = r
	defer func() {
		if x := recover(); x != nil {
			s, ok := x.(*refStop)
			if !ok {
				panic(x)
			}
			res.stop = s
		}
	}()
	r.entry(entry)
	r.rest = r.i
	return
}

func (r *ref) entry(entry int) {
	switch entry {
	case eExpr:
		r.expr()
	case eStmt:
		r.stmt()
	case eBlock:
		r.block()
	case eDecls:
		r.declSections()
	case eTypes:
		if !r.isKw("TYPE") {
			r.fail()
		}
		r.typeSection()
	case eProgram:
		r.program()
	case eUnit:
		r.unit()
	}
}
