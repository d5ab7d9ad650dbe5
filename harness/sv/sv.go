// Package sv is the vocabulary of the verification harnesses: symbolic inputs,
// assumptions, assertions. Under the symbolic executor (/verif/engine) these
// functions are intercepted; the bodies below are the native meaning, used
// when a solver model is replayed on the compiled code.
package sv

import (
	"strings"
	"sync"
)

// Ent is one entry of an input vector.
type Ent struct {
	N string `json:"n"`
	V int64  `json:"v"`
}

type Stop struct{ Status, Msg string }

var (
	vec  []Ent
	pos  int
	Obs  []string
	Put  func(path string, data []byte)
	need map[string]bool
)

// Begin installs a vector (native side only).
func Begin(v []Ent) { vec, pos, Obs = v, 0, nil }

func take(name string, lo, hi int64) int64 {
	for pos < len(vec) && vec[pos].N == "maporder" {
		pos++
	}
	if pos >= len(vec) || vec[pos].N != name {
		got := "<end>"
		if pos < len(vec) {
			got = vec[pos].N
		}
		panic(Stop{"desync", "harness asked for " + name + ", vector has " + got})
	}
	v := vec[pos].V
	pos++
	if v < lo || v > hi {
		panic(Stop{"desync", "value of " + name + " out of range"})
	}
	return v
}

// Int is any integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(take(name, int64(lo), int64(hi))) }

// Bool is any truth value.
func Bool(name string) bool { return take(name, 0, 1) == 1 }

// Rune is any Unicode scalar value except NUL.
func Rune(name string) rune { return rune(take(name, 1, 0x10ffff)) }

// RuneIn is any rune of chars.
func RuneIn(name string, chars string) rune {
	r := rune(take(name, 0, 0x10ffff))
	if !strings.ContainsRune(chars, r) {
		panic(Stop{"desync", "rune outside its set"})
	}
	return r
}

// RuneRange is any rune in [lo,hi].
func RuneRange(name string, lo, hi rune) rune { return rune(take(name, int64(lo), int64(hi))) }

// In tells whether r is one of chars (one condition, no case split).
func In(r rune, chars string) bool { return strings.ContainsRune(chars, r) }

// WordRune is the rune at pos of words[choice], padded with blanks.
func WordRune(choice int, words []string, pos int) rune {
	if choice < 0 || choice >= len(words) {
		return ' '
	}
	rs := []rune(words[choice])
	if pos < len(rs) {
		return rs[pos]
	}
	return ' '
}

func Assume(c bool) {
	if !c {
		panic(Stop{"infeasible", "assume"})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"fail", msg})
	}
}

func Fail(msg string) { panic(Stop{"fail", msg}) }

func Cover(tag string) {}

func Observe(tag, v string) { Obs = append(Obs, tag+"="+v) }

// File makes a source file available to the code under test.
func File(path string, runes []rune) {
	if Put != nil {
		Put(path, []byte(string(runes)))
	}
}

// FileBytes makes a file of these bytes available to the code under test.
func FileBytes(path string, b []byte) {
	if Put != nil {
		Put(path, b)
	}
}

// MapOrders: from now on maps are iterated over in another order (1), or no
// longer (0). One number, any of 24, decides for all maps: all orders of up to
// four entries, rotations and reversals of more.
func MapOrders(n int) {}

// Together runs f in several goroutines at the same time. f must not touch what
// the others use. The executor runs it once and watches what it changes outside of its own values: no
// such change means that no two of them can disturb each other, in whatever order they run.
func Together(f func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad interface{}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					bad = e
					mu.Unlock()
				}
			}()
			for k := 0; k < 3; k++ {
				f()
			}
		}()
	}
	wg.Wait()
	if bad != nil {
		panic(bad)
	}
}

func modelTogether(f func()) {
	share(1)
	f()
	if share(0) > 0 {
		share(2)
		f()
		share(0)
	}
}

func share(mode int) int { return 0 }

// Budget bounds the SSA steps of a path (termination obligations).
func Budget(steps int) {}

// Concrete splits on the value.
func Concrete(i int) int { return i }

// Symbolic tells the two worlds apart (only for harness housekeeping).
func Symbolic() bool { return false }

func isLazy(s string) bool            { return false }
func lazyKind(s string) int           { return 0 }
func lazyFormat(s string) string      { return "" }
func lazyArgs(s string) []interface{} { return nil }
func lazyParts(s string) []string     { return nil }
func typeName(x interface{}) string   { return "" }

// Force formats a string the executor left unformatted (fmt is not executed
// symbolically; this is a small interpreter of the verbs the code uses).
func Force(s string) string {
	if !isLazy(s) {
		return s
	}
	switch lazyKind(s) {
	case 2:
		r := ""
		for _, p := range lazyParts(s) {
			r += Force(p)
		}
		return r
	case 1:
		r := ""
		for _, a := range lazyArgs(s) {
			r += verb('v', false, a)
		}
		return r
	case 3:
		r := ""
		for i, a := range lazyArgs(s) {
			if i > 0 {
				r += " "
			}
			r += verb('v', false, a)
		}
		return r + "\n"
	}
	f := []rune(Force(lazyFormat(s)))
	args := lazyArgs(s)
	r := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r += string(f[i : i+1])
			continue
		}
		i++
		plus := false
		for i < len(f) && (f[i] == '+' || f[i] == '#') {
			plus = true
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			r += "%"
			continue
		}
		if k < len(args) {
			r += verb(f[i], plus, args[k])
			k++
		} else {
			r += "%!MISSING"
		}
	}
	return r
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]rune{rune('0' + n)})
	}
	return itoa(n/10) + string([]rune{rune('0' + n%10)})
}

func verb(v rune, plus bool, a interface{}) string {
	switch v {
	case 'd':
		switch x := a.(type) {
		case int:
			return itoa(x)
		case int32:
			return itoa(int(x))
		case int64:
			return itoa(int(x))
		case uint:
			return itoa(int(x))
		}
		return "<" + typeName(a) + ">"
	case 'T':
		return typeName(a)
	}
	s := ""
	switch x := a.(type) {
	case nil:
		return "<nil>"
	case string:
		s = Force(x)
	case error:
		s = Force(x.Error())
	case interface{ String() string }:
		s = Force(x.String())
	case int:
		return itoa(x)
	case bool:
		if x {
			return "true"
		}
		return "false"
	default:
		return "<" + typeName(a) + ">"
	}
	if v == 'q' {
		return "\"" + s + "\""
	}
	return s
}
