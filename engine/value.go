package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Value is one machine word: a concrete integer/bool (o == nil), a symbolic
// integer/bool (o is *Term) or a reference.
//
//	string   *Str (nil = "")
//	pointer  *Obj + n (slot offset), *SymPtr, *Opaque, or nil
//	slice    *Slice or nil
//	map      *Map or nil
//	func     *Closure or nil
//	iface    *Iface or nil
//	struct, array, tuple   *Agg (nil = zero)
//	float    float64
type Value struct {
	n int64
	o any
}

type Obj struct {
	birth int64
	s     []Value
}

type SymPtr struct {
	obj   *Obj
	off   int // slot offset of element 0
	idx   *Term
	esize int
	n     int
	sub   int // extra slot offset inside the element
}

// Opaque stands for a value of a package whose code is not modelled.
type Opaque struct {
	tag  string
	data any
}

type Slice struct {
	obj      *Obj
	off      int // slots
	len, cap int // elements
}

type Agg struct{ s []Value }

type Closure struct {
	fn   *Code
	free []Value
	bi   *ssa.Builtin
}

type Iface struct {
	t *RType
	v Value
}

// Str: concrete (rs == nil, lazy == nil), a rune sequence, or unformatted.
type Str struct {
	s    string
	rs   []Value
	lazy *Lazy
}

type Lazy struct {
	format Value   // string, when args used
	args   []Value // ifaces
	kind   int     // 0 Sprintf, 1 Sprint, 2 concat (args are strings), 3 Sprintln
}

type Map struct {
	birth int64
	ents  []ment
	idx   map[any]int
	live  int
	nsym  int // entries with symbolic keys
}

type ment struct {
	k, v Value
	live bool
	sym  bool
}

type RType struct {
	t    types.Type
	id   int
	meth map[*types.Func]*Code
	impl map[string]bool
}

func vint(n int64) Value { return Value{n: n} }
func vbool(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}
func vterm(t *Term) Value { return Value{o: t} }
func vstr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{o: &Str{s: s}}
}
func vcond(c bool, t *Term) Value {
	if t != nil {
		return Value{o: t}
	}
	return vbool(c)
}

func (v Value) sym() *Term {
	if v.o == nil {
		return nil
	}
	t, _ := v.o.(*Term)
	return t
}

// str returns a concrete string if it is one.
func (v Value) str() (string, bool) {
	if v.o == nil {
		return "", true
	}
	s := v.o.(*Str)
	if s.rs == nil && s.lazy == nil {
		return s.s, true
	}
	return "", false
}

// runes returns the rune sequence of a string (concrete or symbolic).
func (v Value) runes() []Value {
	if v.o == nil {
		return nil
	}
	s := v.o.(*Str)
	if s.lazy != nil {
		panic(unsupported("use of an unformatted string"))
	}
	if s.rs != nil {
		return s.rs
	}
	out := make([]Value, 0, len(s.s))
	for _, r := range s.s {
		out = append(out, vint(int64(r)))
	}
	return out
}

func (v Value) isLazy() bool {
	if v.o == nil {
		return false
	}
	return v.o.(*Str).lazy != nil
}

// mkStr builds a string value from runes, concretising when possible.
func mkStr(rs []Value) Value {
	if len(rs) == 0 {
		return Value{}
	}
	for _, r := range rs {
		if r.o != nil {
			cp := make([]Value, len(rs))
			for i, r := range rs {
				if r.o == nil && (r.n < 0 || r.n > utf8.MaxRune || (r.n >= 0xd800 && r.n < 0xe000)) {
					r.n = utf8.RuneError
				}
				cp[i] = r
			}
			return Value{o: &Str{rs: cp}}
		}
	}
	var b strings.Builder
	for _, r := range rs {
		if r.n < 0 || r.n > utf8.MaxRune {
			b.WriteRune(utf8.RuneError)
		} else {
			b.WriteRune(rune(r.n))
		}
	}
	return vstr(b.String())
}

func concat(a, b Value) Value {
	if a.o == nil {
		return b
	}
	if b.o == nil {
		return a
	}
	x, y := a.o.(*Str), b.o.(*Str)
	if x.lazy != nil || y.lazy != nil {
		return Value{o: &Str{lazy: &Lazy{kind: 2, args: []Value{a, b}}}}
	}
	if x.rs == nil && y.rs == nil {
		return vstr(x.s + y.s)
	}
	ra, rb := a.runes(), b.runes()
	out := make([]Value, 0, len(ra)+len(rb))
	out = append(out, ra...)
	out = append(out, rb...)
	return Value{o: &Str{rs: out}}
}

type unsupported string

func (u unsupported) Error() string { return string(u) }

func unsupportedf(f string, a ...any) unsupported { return unsupported(fmt.Sprintf(f, a...)) }

// ---- layout ---------------------------------------------------------------

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func slotsOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += slotsOf(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * slotsOf(u.Elem())
	}
	return 1
}

func fieldOff(st *types.Struct, f int) int {
	n := 0
	for i := 0; i < f; i++ {
		n += slotsOf(st.Field(i).Type())
	}
	return n
}

// ---- map keys -------------------------------------------------------------

type ptrKey struct {
	o *Obj
	n int64
}
type ifKey struct {
	t *RType
	k any
}

// keyOf returns a Go-comparable key for a concrete value; ok=false when the
// value has symbolic parts.
func keyOf(v Value) (any, bool) {
	switch o := v.o.(type) {
	case nil:
		return v.n, true
	case *Term:
		return nil, false
	case *Str:
		if o.lazy != nil {
			panic(unsupported("unformatted string as a map key"))
		}
		if o.rs != nil {
			return nil, false
		}
		return o.s, true
	case *Obj:
		return ptrKey{o, v.n}, true
	case *Iface:
		k, ok := keyOf(o.v)
		if !ok {
			return nil, false
		}
		return ifKey{o.t, k}, true
	case *Agg:
		var b []byte
		for _, x := range o.s {
			k, ok := keyOf(x)
			if !ok {
				return nil, false
			}
			switch k := k.(type) {
			case int64:
				b = append(b, 'i')
				b = strconv.AppendInt(b, k, 10)
			case string:
				b = append(b, 's')
				b = strconv.AppendInt(b, int64(len(k)), 10)
				b = append(b, ':')
				b = append(b, k...)
			case ptrKey:
				b = append(b, fmt.Sprintf("p%p+%d", k.o, k.n)...)
			default:
				panic(unsupportedf("aggregate map key part %T", k))
			}
		}
		return "\x00agg" + string(b), true
	}
	return v.o, true
}

// keyNil: nil strings, pointers and int zero share int64(0); disambiguated by
// the map's static key type, so no clash.
