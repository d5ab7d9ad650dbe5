package h

import (
	"strconv"
	"unicode"

	"github.com/akm/tparser/token"
	"tpharness/sv"
)

// lexeme of the reference scanner: class and [start,end).
type lexeme struct {
	typ        token.Type
	start, end int
}

const unknownLexeme = token.Type(255)

// wordLexeme is a word with a non-ASCII letter: identifier or reserved word
// (U+017F and U+212A have ASCII upper or lower case), not decided here.
const wordLexeme = token.Type(254)

func at(t []rune, i int) rune {
	if i < len(t) {
		return t[i]
	}
	return 0
}

func isDig(r rune) bool { return '0' <= r && r <= '9' }

func isHead(r rune) bool { return unicode.IsLetter(r) || r == '_' }

func isBlank(r rune) bool { return unicode.IsSpace(r) }

func isSym(r rune) bool {
	switch r {
	case '#', '$', '&', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>', '@', '[', ']', '^', '}':
		return true
	}
	return false
}

var reservedRef = []string{
	"AND", "ARRAY", "AS", "ASM", "BEGIN", "CASE", "CLASS", "CONST", "CONSTRUCTOR", "DESTRUCTOR", "DISPINTERFACE", "DIV", "DO", "DOWNTO",
	"ELSE", "END", "EXCEPT", "EXPORTS", "FILE", "FINALIZATION", "FINALLY", "FOR", "FUNCTION", "GOTO", "IF", "IMPLEMENTATION", "IN", "INHERITED",
	"INITIALIZATION", "INLINE", "INTERFACE", "IS", "LABEL", "LIBRARY", "MOD", "NIL", "NOT", "OBJECT", "OF", "OR", "OUT", "PACKED", "PROCEDURE", "PROGRAM",
	"PROPERTY", "RAISE", "RECORD", "REPEAT", "RESOURCESTRING", "SET", "SHL", "SHR", "STRING", "THEN", "THREADVAR", "TO", "TRY", "TYPE", "UNIT",
	"UNTIL", "USES", "VAR", "WHILE", "WITH", "XOR",
}

var reservedByLen = byLen(reservedRef)

func byLen(ws []string) [][]string {
	out := make([][]string, 16)
	for _, w := range ws {
		out[len(w)] = append(out[len(w)], w)
	}
	return out
}

// reservedWord: the reserved word that t[s:e] spells in some letter case.
func reservedWord(t []rune, s, e int) string {
	if e-s >= len(reservedByLen) {
		return ""
	}
	for _, w := range reservedByLen[e-s] {
		if isWord(t[s:e], w) {
			return w
		}
	}
	return ""
}

// either[c]: the upper case letter c in either case.
var either = eitherCase()

func eitherCase() []string {
	out := make([]string, 128)
	for i := range out {
		out[i] = string([]byte{byte(i), byte(i) | 32})
	}
	return out
}

// isWord: the runes spell the (upper case) word in some letter case.
func isWord(t []rune, w string) bool {
	if len(t) != len(w) {
		return false
	}
	for i := 0; i < len(w); i++ {
		if !sv.In(t[i], either[w[i]]) {
			return false
		}
	}
	return true
}

// refNext scans one lexeme at i (i < len(t)).
func refNext(t []rune, i int) lexeme {
	r := t[i]
	n := at(t, i+1)
	switch {
	case r == '{':
		j := i + 1
		for j < len(t) && t[j] != '}' {
			j++
		}
		if j < len(t) {
			j++
		}
		return lexeme{token.Comment, i, j}
	case r == '/' && n == '/':
		j := i + 2
		for j < len(t) && t[j] != '\n' {
			j++
		}
		return lexeme{token.Comment, i, j}
	case r == '(' && n == '*':
		j := i + 2
		for j < len(t) && !(t[j] == '*' && at(t, j+1) == ')') {
			j++
		}
		if j < len(t) {
			j += 2
		}
		return lexeme{token.Comment, i, j}
	case r == '\'':
		j := i + 1
		for j < len(t) && !(t[j] == '\'' && (j == i+1 || t[j-1] != '\\')) {
			j++
		}
		if j == len(t) {
			return lexeme{unknownLexeme, i, j} // unterminated
		}
		j++
		return lexeme{token.CharacterString, i, j}
	case isDig(r) || r == '-' && isDig(n):
		j := i + 1
		for isDig(at(t, j)) {
			j++
		}
		if at(t, j) == '.' && at(t, j+1) != '.' {
			j++
			for isDig(at(t, j)) {
				j++
			}
			return lexeme{token.NumeralReal, i, j}
		}
		return lexeme{token.NumeralInt, i, j}
	case r == ':' && n == '=', r == '<' && (n == '=' || n == '>'), r == '>' && n == '=', r == '.' && (n == '.' || n == ')'), r == '(' && n == '.':
		return lexeme{token.SpecialSymbol, i, i + 2}
	case isSym(r):
		return lexeme{token.SpecialSymbol, i, i + 1}
	case isHead(r):
		j := i + 1
		wide := r > 127
		for isHead(at(t, j)) || isDig(at(t, j)) {
			if t[j] > 127 {
				wide = true
			}
			j++
		}
		if wide {
			return lexeme{wordLexeme, i, j}
		}
		if reservedWord(t, i, j) != "" {
			return lexeme{token.ReservedWord, i, j}
		}
		return lexeme{token.Identifier, i, j}
	case isBlank(r):
		j := i + 1
		for isBlank(at(t, j)) {
			j++
		}
		return lexeme{token.Space, i, j}
	}
	return lexeme{unknownLexeme, i, i + 1}
}

func refLex(t []rune) []lexeme {
	var out []lexeme
	for i := 0; i < len(t); {
		l := refNext(t, i)
		out = append(out, l)
		i = l.end
	}
	return out
}

func num(i int) string { return strconv.Itoa(i) }

func anyText(n int) []rune {
	t := make([]rune, n)
	for i := range t {
		t[i] = sv.Rune("r" + num(i))
	}
	return t
}

func typeCode(t token.Type) string { return num(int(t)) }
