package main

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

type intrinsic func(m *Machine, in *instr, a []Value) Value

var intrinsics = map[string]intrinsic{}

const svPkg = "tpharness/sv."

// decoding: files hold bytes, and the readers and decoders of the library are
// executed, too. Otherwise files are ASCII, and decoders do nothing.
var decoding bool

func runDecoders() {
	decoding = true
	for n := range intrinsics {
		if strings.Contains(n, "golang.org/x/text/") || n == "io.ReadAll" || n == "io/ioutil.ReadAll" || n == "bufio.NewReader" {
			delete(intrinsics, n)
		}
	}
}

// packages whose init functions are executed
func initWanted(path string) bool {
	if decoding && (strings.HasPrefix(path, "golang.org/x/text/") || path == "io/ioutil" || path == "bufio") {
		return true
	}
	if isRepoPkg(path) || strings.HasPrefix(path, "tpharness") {
		return true
	}
	switch path {
	case "github.com/pkg/errors", "github.com/philopon/go-toposort", "strconv", "io", "sort", "strings", "bytes", "slices", "maps", "cmp", "iter", "unicode/utf8", "path", "container/list", "container/heap", "internal/stringslite", "internal/bytealg", "math/bits", "internal/byteorder", "internal/itoa", "internal/strconv", "internal/cpu":
		return true
	}
	return false
}

// ---- unicode tables -------------------------------------------------------------

var uniOnce sync.Once
var uniSets = map[string]Set{}
var uniFns = map[string][]piece{}

func setOf(f func(rune) bool) Set {
	var rs []rng
	open := false
	for r := int64(0); r <= unicode.MaxRune+1; r++ {
		in := r <= unicode.MaxRune && f(rune(r))
		if in && !open {
			rs = append(rs, rng{r, r})
			open = true
		} else if in {
			rs[len(rs)-1].hi = r
		} else {
			open = false
		}
	}
	return Set(rs)
}

func fnOf(f func(rune) rune) []piece {
	var ps []piece
	for r := rune(0); r <= unicode.MaxRune; r++ {
		d := int64(f(r)) - int64(r)
		if d == 0 {
			continue
		}
		if n := len(ps); n > 0 && ps[n-1].hi == int64(r)-1 && ps[n-1].add == d {
			ps[n-1].hi = int64(r)
		} else {
			ps = append(ps, piece{int64(r), int64(r), true, d})
		}
	}
	return ps
}

func foldMin(r rune) rune {
	m := r
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		if x < m {
			m = x
		}
	}
	return m
}

func initUnicode() {
	uniOnce.Do(func() {
		type job struct {
			n string
			f func(rune) bool
		}
		js := []job{
			{"IsLetter", unicode.IsLetter}, {"IsSpace", unicode.IsSpace}, {"IsDigit", unicode.IsDigit},
			{"IsUpper", unicode.IsUpper}, {"IsLower", unicode.IsLower}, {"IsNumber", unicode.IsNumber},
			{"IsPunct", unicode.IsPunct}, {"IsControl", unicode.IsControl}, {"IsPrint", unicode.IsPrint},
			{"IsGraphic", unicode.IsGraphic}, {"IsSymbol", unicode.IsSymbol}, {"IsTitle", unicode.IsTitle},
			{"IsMark", unicode.IsMark},
		}
		res := make([]Set, len(js))
		var wg sync.WaitGroup
		for i, j := range js {
			wg.Add(1)
			go func() { defer wg.Done(); res[i] = setOf(j.f) }()
		}
		var up, lo, fo, ti, sf []piece
		wg.Add(5)
		go func() { defer wg.Done(); ti = fnOf(unicode.ToTitle) }()
		go func() { defer wg.Done(); sf = fnOf(unicode.SimpleFold) }()
		go func() { defer wg.Done(); up = fnOf(unicode.ToUpper) }()
		go func() { defer wg.Done(); lo = fnOf(unicode.ToLower) }()
		go func() { defer wg.Done(); fo = fnOf(foldMin) }()
		wg.Wait()
		for i, j := range js {
			uniSets[j.n] = res[i]
		}
		uniFns["ToUpper"], uniFns["ToLower"], uniFns["fold"] = up, lo, fo
		uniFns["ToTitle"], uniFns["SimpleFold"] = ti, sf
	})
}

func (m *Machine) inSet(v Value, s Set) Value {
	t := v.sym()
	if t == nil {
		return vbool(s.contains(v.n))
	}
	if t.k != kFn {
		return vbool(s.contains(m.concretize(v, "set test")))
	}
	c, ct := m.tt.setTerm(t.v, t.fn.pre(s))
	return vcond(c, ct)
}

type compKey struct {
	t *Term
	g string
}

func (m *Machine) mapRune(v Value, g string) Value {
	t := v.sym()
	if t == nil {
		return vint(applyPieces(uniFns[g], v.n))
	}
	if t.k != kFn {
		return vint(applyPieces(uniFns[g], m.concretize(v, g)))
	}
	k := compKey{t, g}
	if r, ok := m.compMemo[k]; ok {
		return r
	}
	r := m.fnVal(t.v, t.fn.compose(uniFns[g]))
	m.compMemo[k] = r
	return r
}

func (m *Machine) mapStr(v Value, g string) Value {
	rs := v.runes()
	out := make([]Value, len(rs))
	for i, r := range rs {
		out[i] = m.mapRune(r, g)
	}
	return mkStr(out)
}

// ---- strings ------------------------------------------------------------------------

// forceSimple formats a lazy string whose arguments need no method calls.
func (m *Machine) forceSimple(v Value) Value {
	if s, ok := v.o.(*Str); ok && s.lazy != nil {
		m.fmtForks = true
		defer func() { m.fmtForks = false }()
		r, ok := m.tryFormat(s.lazy)
		if !ok {
			panic(unsupported("use of an unformatted string"))
		}
		return r
	}
	return v
}

func (m *Machine) tryFormat(l *Lazy) (Value, bool) {
	if l.kind == 2 {
		var out Value
		for _, a := range l.args {
			if s, ok := a.o.(*Str); ok && s.lazy != nil {
				r, ok := m.tryFormat(s.lazy)
				if !ok {
					return Value{}, false
				}
				a = r
			}
			out = concat(out, a)
		}
		return out, true
	}
	if l.kind == 1 || l.kind == 3 {
		return m.sprint(l.args, l.kind == 3)
	}
	f := l.format
	if f.isLazy() {
		r, ok := m.tryFormat(f.o.(*Str).lazy)
		if !ok {
			return Value{}, false
		}
		f = r
	}
	fs, ok := f.str()
	if !ok {
		return Value{}, false
	}
	return m.sprintf(fs, l.args)
}

// sprint formats as Sprint or Sprintln do.
func (m *Machine) sprint(args []Value, ln bool) (Value, bool) {
	isStr := func(a Value) bool {
		ifc, ok := a.o.(*Iface)
		if !ok {
			return false
		}
		b, ok := ifc.t.t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	out := vstr("")
	for i, a := range args {
		if i > 0 && (ln || !isStr(a) && !isStr(args[i-1])) {
			out = concat(out, vstr(" "))
		}
		v, ok := m.fmtArg("v", a)
		if !ok {
			return Value{}, false
		}
		out = concat(out, v)
	}
	if ln {
		out = concat(out, vstr("\n"))
	}
	return out, true
}

// sprintf formats arguments that are plain strings, integers, bools and
// slices of them; anything else reports false.
func (m *Machine) sprintf(f string, args []Value) (Value, bool) {
	var out Value
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out = concat(out, vstr(f[i:]))
			break
		}
		out = concat(out, vstr(f[i:i+j]))
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			return Value{}, false
		}
		verb := f[st : i+1]
		i++
		if verb == "%" {
			out = concat(out, vstr("%"))
			continue
		}
		if ai >= len(args) {
			return Value{}, false
		}
		v, ok := m.fmtArg(verb, args[ai])
		if !ok {
			return Value{}, false
		}
		out = concat(out, v)
		ai++
	}
	return out, ai == len(args)
}

func (m *Machine) fmtArg(verb string, a Value) (Value, bool) {
	ifc, ok := a.o.(*Iface)
	if !ok {
		if a.o == nil {
			return vstr(fmt.Sprintf("%"+verb, nil)), true
		}
		return Value{}, false
	}
	if verb == "T" {
		return vstr(ifc.t.t.String()), true
	}
	if hasStringer(m, ifc.t) {
		return Value{}, false
	}
	switch u := ifc.t.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			v := ifc.v
			if s, ok := v.o.(*Str); ok && s.lazy != nil {
				r, ok := m.tryFormat(s.lazy)
				if !ok {
					return Value{}, false
				}
				v = r
			}
			if verb == "s" || verb == "v" {
				return v, true
			}
			if s, ok := v.str(); ok {
				return vstr(fmt.Sprintf("%"+verb, s)), true
			}
		case u.Info()&types.IsBoolean != 0:
			if ifc.v.o == nil {
				return vstr(fmt.Sprintf("%"+verb, ifc.v.n != 0)), true
			}
		case u.Info()&types.IsInteger != 0:
			if verb == "c" && u.Kind() == types.Int32 && ifc.v.o != nil {
				return mkStr([]Value{ifc.v}), true
			}
			if ifc.v.o == nil {
				return vstr(fmt.Sprintf("%"+verb, ifc.v.n)), true
			}
			if m.fmtForks && ifc.v.sym() != nil {
				return vstr(fmt.Sprintf("%"+verb, m.concretize(ifc.v, "formatted number"))), true
			}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok {
			vals := sliceVals(ifc.v, 1)
			if b.Info()&types.IsString != 0 && (verb == "v" || verb == "s") && !hasStringerType(m, u.Elem()) {
				out := vstr("[")
				for i, v := range vals {
					if i > 0 {
						out = concat(out, vstr(" "))
					}
					if s, ok := v.o.(*Str); ok && s.lazy != nil {
						r, ok := m.tryFormat(s.lazy)
						if !ok {
							return Value{}, false
						}
						v = r
					}
					out = concat(out, v)
				}
				return concat(out, vstr("]")), true
			}
			if b.Info()&types.IsString != 0 {
				var ss []string
				for _, v := range vals {
					if s, ok := v.o.(*Str); ok && s.lazy != nil {
						r, ok := m.tryFormat(s.lazy)
						if !ok {
							return Value{}, false
						}
						v = r
					}
					s, ok := v.str()
					if !ok {
						return Value{}, false
					}
					ss = append(ss, s)
				}
				return vstr(fmt.Sprintf("%"+verb, ss)), true
			}
			if b.Kind() == types.Int32 {
				var rs []rune
				for _, v := range vals {
					if v.o != nil {
						return Value{}, false
					}
					rs = append(rs, rune(v.n))
				}
				return vstr(fmt.Sprintf("%"+verb, rs)), true
			}
		}
	}
	return Value{}, false
}

func hasStringer(m *Machine, r *RType) bool { return hasStringerType(m, r.t) }

func hasStringerType(m *Machine, t types.Type) bool {
	m.w.mu.Lock()
	defer m.w.mu.Unlock()
	ms := m.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error":
			return true
		}
	}
	return false
}

// render shows a string value for messages.
func (m *Machine) render(v Value) string {
	s, ok := v.o.(*Str)
	if !ok {
		return ""
	}
	if s.lazy != nil {
		r, ok := m.tryFormat(s.lazy)
		if !ok {
			f := s.lazy.format
			if f.o != nil && !f.isLazy() {
				return m.render(f) + "(..)"
			}
			if s.lazy.kind == 2 {
				var b strings.Builder
				for _, a := range s.lazy.args {
					b.WriteString(m.render(a))
				}
				return b.String()
			}
			return "(unformatted)"
		}
		return m.render(r)
	}
	if s.rs == nil {
		return s.s
	}
	mod := m.pathModel()
	var b strings.Builder
	for _, r := range s.rs {
		if t := r.sym(); t != nil {
			b.WriteRune(rune(t.evalInt(mod)))
		} else {
			b.WriteRune(rune(r.n))
		}
	}
	return b.String()
}

func lazyStr(format Value, rest Value, kind int) Value {
	l := &Lazy{format: format, kind: kind}
	l.args = append([]Value(nil), sliceVals(rest, 1)...)
	if kind == 0 && len(l.args) == 0 {
		if s, ok := format.str(); ok && strings.IndexByte(s, '%') < 0 {
			return format
		}
	}
	return Value{o: &Str{lazy: l}}
}

func (m *Machine) errorValue(msg Value) Value {
	m.w.mu.Lock()
	p := m.w.prog.ImportedPackage("errors")
	t := p.Type("errorString").Type()
	rt := m.w.rtype(types.NewPointer(t))
	m.w.mu.Unlock()
	o := m.newObj(1)
	o.s[0] = msg
	return Value{o: &Iface{rt, Value{o: o}}}
}

// native runs a pure stdlib function when all arguments are concrete.
func native(f any) intrinsic {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	return func(m *Machine, in *instr, a []Value) Value {
		args := make([]reflect.Value, len(a))
		for i := range a {
			args[i] = m.toNative(a[i], rt.In(i))
		}
		var out []reflect.Value
		if rt.IsVariadic() {
			out = rv.CallSlice(args)
		} else {
			out = rv.Call(args)
		}
		vals := make([]Value, len(out))
		for i, o := range out {
			vals[i] = m.fromNative(o)
		}
		if len(vals) == 1 {
			return vals[0]
		}
		return Value{o: &Agg{vals}}
	}
}

func (m *Machine) concStr(v Value) string {
	v = m.forceSimple(v)
	if s, ok := v.str(); ok {
		return s
	}
	var b strings.Builder
	for _, r := range v.runes() {
		b.WriteRune(rune(m.concretize(r, "string argument of a library function")))
	}
	return b.String()
}

func (m *Machine) toNative(v Value, t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf(m.concStr(v)).Convert(t)
	case reflect.Bool:
		return reflect.ValueOf(m.decideV(v))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r := reflect.New(t).Elem()
		r.SetInt(m.concretize(v, "library argument"))
		return r
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r := reflect.New(t).Elem()
		r.SetUint(uint64(m.concretize(v, "library argument")))
		return r
	case reflect.Float64:
		return reflect.ValueOf(flt(v))
	case reflect.Slice:
		vals := sliceVals(v, 1)
		r := reflect.MakeSlice(t, len(vals), len(vals))
		for i, x := range vals {
			r.Index(i).Set(m.toNative(x, t.Elem()))
		}
		return r
	}
	panic(unsupportedf("native argument %s", t))
}

func (m *Machine) fromNative(r reflect.Value) Value {
	switch r.Kind() {
	case reflect.String:
		return vstr(r.String())
	case reflect.Bool:
		return vbool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vint(r.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return vint(int64(r.Uint()))
	case reflect.Float64:
		return Value{o: r.Float()}
	case reflect.Slice:
		if r.IsNil() {
			return Value{}
		}
		vals := make([]Value, r.Len())
		for i := range vals {
			vals[i] = m.fromNative(r.Index(i))
		}
		return m.newSlice(vals, 1)
	case reflect.Interface:
		if r.IsNil() {
			return Value{}
		}
		if e, ok := r.Interface().(error); ok {
			return m.errorValue(vstr(e.Error()))
		}
	}
	panic(unsupportedf("native result %s", r.Type()))
}

func allConcrete(m *Machine, a []Value) bool {
	for _, v := range a {
		switch o := v.o.(type) {
		case *Term:
			return false
		case *Str:
			if o.rs != nil {
				return false
			}
			if o.lazy != nil {
				return false
			}
		case *Slice:
			for _, x := range o.obj.s[o.off : o.off+o.len] {
				if _, ok := x.o.(*Term); ok {
					return false
				}
				if s, ok := x.o.(*Str); ok && (s.rs != nil || s.lazy != nil) {
					return false
				}
			}
		}
	}
	return true
}

func tuple(vs ...Value) Value { return Value{o: &Agg{vs}} }

func (m *Machine) opaqueCall(in *instr, args []Value) Value {
	o := args[0].o.(*Opaque)
	name := in.meth.Name()
	switch name {
	case "Bytes", "String":
		// decoder.Bytes(b) / decoder.String(s): identity on ASCII
		if len(args) == 2 {
			return tuple(args[1], Value{})
		}
	}
	res := in.ty.(*types.Tuple)
	mk := func(t types.Type) Value {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map:
			return Value{o: &Opaque{tag: o.tag + "." + name, data: o.data}}
		case *types.Interface:
			if t.String() == "error" {
				return Value{}
			}
			return Value{o: &Opaque{tag: o.tag + "." + name, data: o.data}}
		}
		return Value{}
	}
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return mk(res.At(0).Type())
	}
	vs := make([]Value, res.Len())
	for i := range vs {
		vs[i] = mk(res.At(i).Type())
	}
	return Value{o: &Agg{vs}}
}

// textLen is the length in bytes of the text of a builder.
func (m *Machine) textLen(v Value) int64 {
	return m.concretize(m.strLen(m.forceSimple(v)), "length of a text")
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// regN: native on concrete arguments; on symbolic ones the body is interpreted.
func regN(name string, f any) {
	nf := native(f)
	natives[name] = nf
}

var natives = map[string]intrinsic{}

func nop(m *Machine, in *instr, a []Value) Value { return Value{} }

// readerData finds the bytes behind an opaque reader or file value.
func (m *Machine) readerData(v Value) ([]Value, bool) {
	for depth := 0; depth < 10; depth++ {
		switch o := v.o.(type) {
		case *Iface:
			v = o.v
		case *Opaque:
			if d, ok := o.data.(Value); ok {
				v = d
				continue
			}
			if d, ok := o.data.([]Value); ok {
				return d, true
			}
			return nil, false
		case *Obj:
			if len(o.s) > int(v.n) {
				v = o.s[v.n]
				continue
			}
			return nil, false
		default:
			return nil, false
		}
	}
	return nil, false
}

// openFile finds the file of the path; names with symbolic characters are compared
// as they are written.
func (m *Machine) openFile(v Value) ([]Value, bool) {
	v = m.forceSimple(v)
	p, conc := v.str()
	for i := len(m.files) - 1; i >= 0; i-- {
		f := m.files[i]
		q, ok := f.path.str()
		if ok && conc {
			if filepath.Clean(q) == filepath.Clean(p) {
				return f.rs, true
			}
		} else if m.decideV(m.strEq(v, f.path)) {
			return f.rs, true
		}
	}
	return nil, false
}

func (m *Machine) noFile(v Value) Value {
	p, ok := m.forceSimple(v).str()
	if !ok {
		p = "file"
	}
	return tuple(Value{}, m.errorValue(vstr("open "+p+": no such file or directory")))
}

func init() {
	for _, n := range []string{"IsLetter", "IsSpace", "IsDigit", "IsUpper", "IsLower", "IsNumber", "IsPunct", "IsControl", "IsPrint", "IsGraphic", "IsSymbol", "IsTitle", "IsMark"} {
		reg("unicode."+n, func(m *Machine, in *instr, a []Value) Value { return m.inSet(a[0], uniSets[n]) })
	}
	reg("unicode.ToUpper", func(m *Machine, in *instr, a []Value) Value { return m.mapRune(a[0], "ToUpper") })
	reg("unicode.ToTitle", func(m *Machine, in *instr, a []Value) Value { return m.mapRune(a[0], "ToTitle") })
	reg("unicode.SimpleFold", func(m *Machine, in *instr, a []Value) Value { return m.mapRune(a[0], "SimpleFold") })
	reg("unicode.ToLower", func(m *Machine, in *instr, a []Value) Value { return m.mapRune(a[0], "ToLower") })
	isTab := func(m *Machine, a []Value) Value {
		res := vbool(false)
		tabs := a[:1]
		r := a[1]
		for _, tb := range tabs {
			o, ok := tb.o.(*Opaque)
			if !ok {
				panic(unsupported("unicode.Is with a custom table"))
			}
			n := strings.TrimPrefix(o.tag, "unicode.")
			alias := map[string]string{"Letter": "L", "Digit": "Nd", "Number": "N", "Upper": "Lu", "Lower": "Ll", "Space": "Z", "Punct": "P", "Symbol": "S", "Mark": "M", "Title": "Lt"}
			var rt *unicode.RangeTable
			if c, ok := alias[n]; ok {
				rt = unicode.Categories[c]
			} else if c, ok := unicode.Categories[n]; ok {
				rt = c
			} else if c, ok := unicode.Scripts[n]; ok {
				rt = c
			} else if c, ok := unicode.Properties[n]; ok {
				rt = c
			} else {
				panic(unsupported("unicode table " + n))
			}
			key := "Is:" + n
			uniMu.Lock()
			s, ok := uniExtra[key]
			if !ok {
				s = setOf(func(r rune) bool { return unicode.Is(rt, r) })
				uniExtra[key] = s
			}
			uniMu.Unlock()
			res = m.orV(res, m.inSet(r, s))
		}
		return res
	}
	reg("unicode.Is", func(m *Machine, in *instr, a []Value) Value { return isTab(m, a) })

	reg("strings.ToUpper", func(m *Machine, in *instr, a []Value) Value {
		v := m.forceSimple(a[0])
		if s, ok := v.str(); ok {
			return vstr(strings.ToUpper(s))
		}
		return m.mapStr(v, "ToUpper")
	})
	reg("strings.ToLower", func(m *Machine, in *instr, a []Value) Value {
		v := m.forceSimple(a[0])
		if s, ok := v.str(); ok {
			return vstr(strings.ToLower(s))
		}
		return m.mapStr(v, "ToLower")
	})
	reg("strings.EqualFold", func(m *Machine, in *instr, a []Value) Value {
		x, y := m.forceSimple(a[0]), m.forceSimple(a[1])
		return m.strEq(m.mapStr(x, "fold"), m.mapStr(y, "fold"))
	})
	reg("strings.Join", func(m *Machine, in *instr, a []Value) Value {
		var out Value
		for i, s := range sliceVals(a[0], 1) {
			if i > 0 {
				out = concat(out, a[1])
			}
			out = concat(out, s)
		}
		return out
	})
	reg("strings.Clone", func(m *Machine, in *instr, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(m *Machine, in *instr, a []Value) Value { return a[0] })
	pre := func(m *Machine, s, p Value) Value {
		rs, rp := m.forceSimple(s).runes(), m.forceSimple(p).runes()
		if len(rp) > len(rs) {
			return vbool(false)
		}
		return m.runesEq(rs[:len(rp)], rp)
	}
	suf := func(m *Machine, s, p Value) Value {
		rs, rp := m.forceSimple(s).runes(), m.forceSimple(p).runes()
		if len(rp) > len(rs) {
			return vbool(false)
		}
		return m.runesEq(rs[len(rs)-len(rp):], rp)
	}
	reg("strings.HasPrefix", func(m *Machine, in *instr, a []Value) Value { return pre(m, a[0], a[1]) })
	reg("strings.HasSuffix", func(m *Machine, in *instr, a []Value) Value { return suf(m, a[0], a[1]) })
	reg("strings.TrimPrefix", func(m *Machine, in *instr, a []Value) Value {
		if m.decideV(pre(m, a[0], a[1])) {
			return mkStr(m.forceSimple(a[0]).runes()[len(m.forceSimple(a[1]).runes()):])
		}
		return a[0]
	})
	reg("strings.TrimSuffix", func(m *Machine, in *instr, a []Value) Value {
		if m.decideV(suf(m, a[0], a[1])) {
			rs := m.forceSimple(a[0]).runes()
			return mkStr(rs[:len(rs)-len(m.forceSimple(a[1]).runes())])
		}
		return a[0]
	})
	find := func(m *Machine, rs, rp []Value, from int) int {
		for i := from; i+len(rp) <= len(rs); i++ {
			if m.decideV(m.runesEq(rs[i:i+len(rp)], rp)) {
				return i
			}
		}
		return -1
	}
	reg("strings.Contains", func(m *Machine, in *instr, a []Value) Value {
		return vbool(find(m, m.forceSimple(a[0]).runes(), m.forceSimple(a[1]).runes(), 0) >= 0)
	})
	reg("strings.ContainsRune", func(m *Machine, in *instr, a []Value) Value {
		r := vbool(false)
		for _, x := range m.forceSimple(a[0]).runes() {
			r = m.orV(r, m.eqInt(x, a[1]))
		}
		return r
	})
	repl := func(m *Machine, s, o, n Value, cnt int64) Value {
		rs, ro, rn := m.forceSimple(s).runes(), m.forceSimple(o).runes(), m.forceSimple(n).runes()
		if len(ro) == 0 {
			return vstr(strings.Replace(m.concStr(s), "", m.concStr(n), int(cnt)))
		}
		var out []Value
		i := 0
		for i < len(rs) {
			if cnt != 0 && i+len(ro) <= len(rs) && m.decideV(m.runesEq(rs[i:i+len(ro)], ro)) {
				out = append(out, rn...)
				i += len(ro)
				cnt--
				continue
			}
			out = append(out, rs[i])
			i++
		}
		return mkStr(out)
	}
	reg("strings.ReplaceAll", func(m *Machine, in *instr, a []Value) Value { return repl(m, a[0], a[1], a[2], -1) })
	reg("strings.Replace", func(m *Machine, in *instr, a []Value) Value { return repl(m, a[0], a[1], a[2], a[3].n) })
	reg("strings.Repeat", func(m *Machine, in *instr, a []Value) Value {
		var out Value
		for i := m.concretize(a[1], "repeat"); i > 0; i-- {
			out = concat(out, a[0])
		}
		return out
	})
	trimSet := func(m *Machine, s Value, in func(Value) Value, left, right bool) Value {
		rs := m.forceSimple(s).runes()
		i, j := 0, len(rs)
		for left && i < j && m.decideV(in(rs[i])) {
			i++
		}
		for right && i < j && m.decideV(in(rs[j-1])) {
			j--
		}
		return mkStr(rs[i:j])
	}
	reg("strings.TrimSpace", func(m *Machine, in *instr, a []Value) Value {
		return trimSet(m, a[0], func(v Value) Value { return m.inSet(v, uniSets["IsSpace"]) }, true, true)
	})
	for n, lr := range map[string][2]bool{"Trim": {true, true}, "TrimLeft": {true, false}, "TrimRight": {false, true}} {
		reg("strings."+n, func(m *Machine, in *instr, a []Value) Value {
			cut := m.forceSimple(a[1]).runes()
			return trimSet(m, a[0], func(v Value) Value {
				r := vbool(false)
				for _, c := range cut {
					r = m.orV(r, m.eqInt(v, c))
				}
				return r
			}, lr[0], lr[1])
		})
	}
	reg("strings.Compare", func(m *Machine, in *instr, a []Value) Value {
		if m.decideV(m.strEq(a[0], a[1])) {
			return vint(0)
		}
		if m.strLess(a[0], a[1]) {
			return vint(-1)
		}
		return vint(1)
	})
	// native when concrete, interpreted otherwise
	regN("strings.Index", strings.Index)
	regN("strings.IndexByte", strings.IndexByte)
	regN("strings.IndexRune", strings.IndexRune)
	regN("strings.IndexAny", strings.IndexAny)
	regN("strings.LastIndex", strings.LastIndex)
	regN("strings.LastIndexByte", strings.LastIndexByte)
	regN("strings.ContainsAny", strings.ContainsAny)
	regN("strings.Split", strings.Split)
	regN("strings.SplitN", strings.SplitN)
	regN("strings.Fields", strings.Fields)
	regN("strings.Count", strings.Count)
	regN("strings.Title", strings.Title)
	regN("strconv.Itoa", strconv.Itoa)
	regN("strconv.FormatInt", strconv.FormatInt)
	regN("strconv.Atoi", strconv.Atoi)
	regN("strconv.ParseInt", strconv.ParseInt)
	regN("strconv.ParseUint", strconv.ParseUint)
	regN("strconv.ParseFloat", strconv.ParseFloat)
	regN("strconv.Quote", strconv.Quote)
	regN("strconv.Unquote", strconv.Unquote)
	regN("path/filepath.Join", filepath.Join)
	regN("path/filepath.Dir", filepath.Dir)
	regN("path/filepath.Base", filepath.Base)
	regN("path/filepath.Ext", filepath.Ext)
	regN("path/filepath.Clean", filepath.Clean)
	regN("path/filepath.IsAbs", filepath.IsAbs)
	regN("path/filepath.ToSlash", filepath.ToSlash)
	regN("path/filepath.FromSlash", filepath.FromSlash)
	regN("path/filepath.Split", filepath.Split)
	reg("path/filepath.Abs", func(m *Machine, in *instr, a []Value) Value { return tuple(a[0], Value{}) })

	// bytealg (assembly)
	idxByte := func(m *Machine, bs []Value, b Value) Value {
		for i, x := range bs {
			if m.decideV(m.eqInt(x, b)) {
				return vint(int64(i))
			}
		}
		return vint(-1)
	}
	bytesOf := func(m *Machine, v Value) []Value {
		if s, ok := v.str(); ok {
			out := make([]Value, len(s))
			for i := range out {
				out[i] = vint(int64(s[i]))
			}
			return out
		}
		return m.strBytes(m.forceSimple(v))
	}
	reg("internal/bytealg.IndexByteString", func(m *Machine, in *instr, a []Value) Value { return idxByte(m, bytesOf(m, a[0]), a[1]) })
	reg("internal/bytealg.IndexByte", func(m *Machine, in *instr, a []Value) Value { return idxByte(m, sliceVals(a[0], 1), a[1]) })
	reg("internal/bytealg.CountString", func(m *Machine, in *instr, a []Value) Value {
		n := int64(0)
		for _, x := range bytesOf(m, a[0]) {
			if m.decideV(m.eqInt(x, a[1])) {
				n++
			}
		}
		return vint(n)
	})
	reg("internal/bytealg.Equal", func(m *Machine, in *instr, a []Value) Value {
		return m.runesEq(sliceVals(a[0], 1), sliceVals(a[1], 1))
	})
	reg("bytes.Equal", func(m *Machine, in *instr, a []Value) Value {
		return m.runesEq(sliceVals(a[0], 1), sliceVals(a[1], 1))
	})

	// strings.Builder / bytes.Buffer: slot 0 holds the text
	bw := func(get func(m *Machine, a []Value) Value, ret func(m *Machine, v Value) Value) intrinsic {
		return func(m *Machine, in *instr, a []Value) Value {
			o, ok := a[0].o.(*Obj)
			if !ok {
				m.throw("invalid memory address or nil pointer dereference")
			}
			v := get(m, a)
			r := ret(m, v)
			m.set(o, int(a[0].n), concat(o.s[a[0].n], v))
			return r
		}
	}
	nilErr := func(m *Machine, v Value) Value { return tuple(vint(0), Value{}) }
	for _, ty := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		reg(ty+"WriteString", bw(func(m *Machine, a []Value) Value { return a[1] }, nilErr))
		reg(ty+"WriteRune", bw(func(m *Machine, a []Value) Value { return mkStr([]Value{a[1]}) }, nilErr))
		reg(ty+"WriteByte", bw(func(m *Machine, a []Value) Value {
			if a[1].o == nil && a[1].n >= 0x80 {
				panic(unsupported("a byte of a character"))
			}
			return m.bytesStr([]Value{a[1]})
		}, func(*Machine, Value) Value { return Value{} }))
		reg(ty+"Write", bw(func(m *Machine, a []Value) Value { return m.bytesStr(sliceVals(a[1], 1)) }, nilErr))
		reg(ty+"String", func(m *Machine, in *instr, a []Value) Value {
			o, ok := a[0].o.(*Obj)
			if !ok {
				m.throw("invalid memory address or nil pointer dereference")
			}
			return o.s[a[0].n]
		})
		reg(ty+"Len", func(m *Machine, in *instr, a []Value) Value {
			o := a[0].o.(*Obj)
			return m.strLen(m.forceSimple(o.s[a[0].n]))
		})
		reg(ty+"Reset", func(m *Machine, in *instr, a []Value) Value {
			m.set(a[0].o.(*Obj), int(a[0].n), Value{})
			return Value{}
		})
		reg(ty+"Grow", func(m *Machine, in *instr, a []Value) Value {
			o, at := a[0].o.(*Obj), int(a[0].n)+1
			if n := m.textLen(o.s[at-1]) + m.concretize(a[1], "Grow"); n > o.s[at].n {
				m.set(o, at, vint(n))
			}
			return Value{}
		})
		reg(ty+"Cap", func(m *Machine, in *instr, a []Value) Value {
			o, at := a[0].o.(*Obj), int(a[0].n)+1
			n := o.s[at].n
			if k := m.textLen(o.s[at-1]); k > n {
				n = k
			}
			return vint(n)
		})
	}
	reg("(*bytes.Buffer).Bytes", func(m *Machine, in *instr, a []Value) Value {
		return m.newSlice(m.strBytes(m.forceSimple(a[0].o.(*Obj).s[a[0].n])), 1)
	})

	// fmt
	reg("fmt.Sprintf", func(m *Machine, in *instr, a []Value) Value { return lazyStr(a[0], a[1], 0) })
	reg("fmt.Sprint", func(m *Machine, in *instr, a []Value) Value { return lazyStr(Value{}, a[0], 1) })
	reg("fmt.Sprintln", func(m *Machine, in *instr, a []Value) Value { return lazyStr(Value{}, a[0], 3) })
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(m *Machine, in *instr, a []Value) Value { return tuple(vint(0), Value{}) })
	}
	reg("github.com/pkg/errors.callers", nop)

	// log
	reg("log.New", func(m *Machine, in *instr, a []Value) Value { return Value{o: m.newObj(32)} })
	for _, n := range []string{"(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print", "log.Printf", "log.Println", "log.Print", "(*log.Logger).Output", "(*log.Logger).SetFlags", "(*log.Logger).SetOutput"} {
		reg(n, nop)
	}

	// sync: single-threaded
	for i, l := range [][]string{{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock"}, {"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock"}} {
		by := int64(2*i - 1)
		for _, n := range l {
			reg(n, func(m *Machine, in *instr, a []Value) Value {
				m.sysSet(sysLock, vint(m.sysGet(sysLock).n+by))
				return Value{}
			})
		}
	}
	reg(svPkg+"share", func(m *Machine, in *instr, a []Value) Value {
		m.sysSet(sysShare, vint(0))
		if a[0].n == 0 {
			m.ex.assertsConc.Add(1)
		}
		if a[0].n == 1 {
			m.serial++
			m.sysSet(sysSince, vint(m.serial))
			m.sysSet(sysRec, vint(0))
			m.sysSet(sysLock, vint(0))
		}
		m.sysSet(sysShare, a[0])
		return m.sysGet(sysRec)
	})
	reg("(*sync.Map).Load", func(m *Machine, in *instr, a []Value) Value { panic(unsupported("sync.Map")) })

	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		p := "sync/atomic."
		held := func(m *Machine, n int64) { m.sysSet(sysLock, vint(m.sysGet(sysLock).n+n)) }
		get := func(m *Machine, a Value) Value {
			held(m, 1)
			v := m.load(a, &instr{})
			held(m, -1)
			return v
		}
		put := func(m *Machine, a, v Value) {
			held(m, 1)
			m.store(a, v, &instr{})
			held(m, -1)
		}
		reg(p+"Load"+t, func(m *Machine, in *instr, a []Value) Value { return get(m, a[0]) })
		reg(p+"Store"+t, func(m *Machine, in *instr, a []Value) Value { put(m, a[0], a[1]); return Value{} })
		reg(p+"Swap"+t, func(m *Machine, in *instr, a []Value) Value { v := get(m, a[0]); put(m, a[0], a[1]); return v })
		reg(p+"CompareAndSwap"+t, func(m *Machine, in *instr, a []Value) Value {
			v := get(m, a[0])
			if !sameRef(v, a[1]) {
				return vbool(false)
			}
			put(m, a[0], a[2])
			return vbool(true)
		})
		if t != "Pointer" {
			reg(p+"Add"+t, func(m *Machine, in *instr, a []Value) Value {
				v := get(m, a[0])
				v.n += a[1].n
				put(m, a[0], v)
				return v
			})
		}
	}

	// os / io
	openf := func(m *Machine, in *instr, a []Value) Value {
		rs, ok := m.openFile(a[0])
		if !ok {
			return m.noFile(a[0])
		}
		o := m.newObj(2) // the data, the position
		o.s[0] = Value{o: &Opaque{tag: "file", data: rs}}
		return tuple(Value{o: o}, Value{})
	}
	reg("os.Open", openf)
	file := func(m *Machine, v Value) *Obj {
		o, ok := v.o.(*Obj)
		if !ok {
			m.throw("invalid memory address or nil pointer dereference")
		}
		return o
	}
	reg(svPkg+"fileData", func(m *Machine, in *instr, a []Value) Value {
		return m.newSlice(append([]Value(nil), file(m, a[0]).s[0].o.(*Opaque).data.([]Value)...), 1)
	})
	reg(svPkg+"fileSize", func(m *Machine, in *instr, a []Value) Value {
		rs, ok := m.openFile(a[0])
		if !ok {
			return vint(-1)
		}
		return vint(int64(len(rs)))
	})
	reg(svPkg+"fileAt", func(m *Machine, in *instr, a []Value) Value { return file(m, a[0]).s[1] })
	reg(svPkg+"fileMove", func(m *Machine, in *instr, a []Value) Value {
		m.set(file(m, a[0]), 1, a[1])
		return Value{}
	})
	readf := func(m *Machine, in *instr, a []Value) Value {
		rs, ok := m.openFile(a[0])
		if !ok {
			return m.noFile(a[0])
		}
		return tuple(m.newSlice(append([]Value(nil), rs...), 1), Value{})
	}
	reg("os.ReadFile", readf)
	reg("io/ioutil.ReadFile", readf)
	reg("(*os.File).Close", nop)
	reg("(*os.File).Name", func(m *Machine, in *instr, a []Value) Value { return vstr("file") })
	readAll := func(m *Machine, in *instr, a []Value) Value {
		d, ok := m.readerData(a[0])
		if !ok {
			panic(unsupported("ReadAll of an unmodelled reader"))
		}
		return tuple(m.newSlice(append([]Value(nil), d...), 1), Value{})
	}
	reg("io.ReadAll", readAll)
	reg("io/ioutil.ReadAll", readAll)
	wrapR := func(m *Machine, in *instr, a []Value) Value { return Value{o: &Opaque{tag: "reader", data: a[0]}} }
	reg("golang.org/x/text/transform.NewReader", wrapR)
	reg("bufio.NewReader", wrapR)
	reg("(*golang.org/x/text/encoding.Decoder).Reader", func(m *Machine, in *instr, a []Value) Value {
		return Value{o: &Opaque{tag: "reader", data: a[1]}}
	})
	reg("(*golang.org/x/text/encoding.Decoder).Bytes", func(m *Machine, in *instr, a []Value) Value { return tuple(a[1], Value{}) })
	reg("(*golang.org/x/text/encoding.Decoder).String", func(m *Machine, in *instr, a []Value) Value { return tuple(a[1], Value{}) })
	reg("golang.org/x/text/transform.Bytes", func(m *Machine, in *instr, a []Value) Value {
		return tuple(a[1], vint(0), Value{})
	})
	reg("golang.org/x/text/transform.String", func(m *Machine, in *instr, a []Value) Value {
		return tuple(a[1], vint(0), Value{})
	})

	// sort: stable insertion order is produced by interpreting the real code;
	// reflect-based helpers are replaced.
	reg("internal/reflectlite.ValueOf", func(m *Machine, in *instr, a []Value) Value {
		return Value{o: &Agg{[]Value{a[0], {}, {}}}}
	})
	reg("(internal/reflectlite.Value).Len", func(m *Machine, in *instr, a []Value) Value {
		if ag, ok := a[0].o.(*Agg); ok {
			if i, ok := ag.s[0].o.(*Iface); ok {
				switch s := i.v.o.(type) {
				case *Slice:
					return vint(int64(s.len))
				case nil:
					return vint(0)
				}
			}
		}
		panic(unsupported("reflectlite.Value.Len"))
	})
	reg("internal/reflectlite.Swapper", func(m *Machine, in *instr, a []Value) Value {
		i, ok := a[0].o.(*Iface)
		if !ok {
			panic(unsupported("reflectlite.Swapper"))
		}
		s, ok := i.v.o.(*Slice)
		if !ok {
			if i.v.o != nil {
				panic(unsupported("reflectlite.Swapper"))
			}
			s = &Slice{}
		}
		st, ok := i.t.t.Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("reflectlite.Swapper"))
		}
		es := slotsOf(st.Elem())
		return Value{o: &Closure{fn: &Code{name: "swap", intrin: func(m *Machine, in *instr, a []Value) Value {
			x, y := int(m.concretize(a[0], "swap")), int(m.concretize(a[1], "swap"))
			m.inBounds(vint(int64(x)), s.len)
			m.inBounds(vint(int64(y)), s.len)
			for k := 0; k < es; k++ {
				p, q := s.off+x*es+k, s.off+y*es+k
				vp, vq := s.obj.s[p], s.obj.s[q]
				m.set(s.obj, p, vq)
				m.set(s.obj, q, vp)
			}
			return Value{}
		}}}}
	})
	reg("sort.Strings", func(m *Machine, in *instr, a []Value) Value {
		s, ok := a[0].o.(*Slice)
		if !ok {
			return Value{}
		}
		vals := append([]Value(nil), s.obj.s[s.off:s.off+s.len]...)
		for i := 1; i < len(vals); i++ {
			for j := i; j > 0 && m.strLess(vals[j], vals[j-1]); j-- {
				vals[j], vals[j-1] = vals[j-1], vals[j]
			}
		}
		for i, v := range vals {
			m.set(s.obj, s.off+i, v)
		}
		return Value{}
	})

	reg("unicode/utf8.RuneCountInString", func(m *Machine, in *instr, a []Value) Value {
		if s, ok := a[0].str(); ok {
			return vint(int64(utf8.RuneCountInString(s)))
		}
		return vint(int64(len(m.forceSimple(a[0]).runes())))
	})
	reg("runtime.Callers", func(m *Machine, in *instr, a []Value) Value { return vint(0) })
	reg("runtime.Caller", func(m *Machine, in *instr, a []Value) Value { return tuple(vint(0), Value{}, vint(0), vint(0)) })

	regSV()
}

// sameRef compares concrete words and object references.
func sameRef(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	if a.o == nil || b.o == nil {
		return a.o == nil && b.o == nil
	}
	x, ok1 := a.o.(*Obj)
	y, ok2 := b.o.(*Obj)
	if !ok1 || !ok2 {
		panic(unsupported("atomic comparison of a symbolic value"))
	}
	return x == y
}

var uniMu sync.Mutex
var uniExtra = map[string]Set{}

// redirects: library functions replaced by Go models of package sv.
var redirects = map[string]string{
	svPkg + "Together": "modelTogether",
	"fmt.Errorf":       "modelErrorf", "errors.Is": "modelIs", "errors.As": "modelAs",
	"github.com/pkg/errors.Is": "modelIs", "github.com/pkg/errors.As": "modelAs",
	"strings.Index": "modelIndex", "bytes.Index": "modelIndexBytes", "strings.Map": "modelMap", "internal/bytealg.MakeNoZero": "modelMake",
	"(*os.File).Read": "modelRead", "os.Stat": "modelStat", "os.Lstat": "modelStat",
	"fmt.Fprintf": "modelFprintf", "fmt.Fprint": "modelFprint", "fmt.Fprintln": "modelFprintln",
}

func regSV() {
	reg(svPkg+"assignAs", func(m *Machine, in *instr, a []Value) Value {
		e, ok1 := a[0].o.(*Iface)
		t, ok2 := a[1].o.(*Iface)
		if !ok1 || !ok2 {
			panic(unsupported("errors.As on an opaque value"))
		}
		pt, ok := t.t.t.Underlying().(*types.Pointer)
		if !ok {
			m.throw("errors: target must be a non-nil pointer")
		}
		if types.IsInterface(pt.Elem()) {
			if !m.w.implements(e.t, pt.Elem()) {
				return vbool(false)
			}
			m.store(t.v, a[0], &instr{})
			return vbool(true)
		}
		m.w.mu.Lock()
		rt := m.w.rtype(pt.Elem())
		m.w.mu.Unlock()
		if rt != e.t {
			return vbool(false)
		}
		if slotsOf(pt.Elem()) != 1 {
			panic(unsupported("errors.As to a struct value"))
		}
		m.store(t.v, e.v, &instr{})
		return vbool(true)
	})
	reg(svPkg+"Int", func(m *Machine, in *instr, a []Value) Value {
		n, _ := a[0].str()
		return m.newVar(n, a[1].n, a[2].n)
	})
	reg(svPkg+"Bool", func(m *Machine, in *instr, a []Value) Value {
		n, _ := a[0].str()
		v := m.newVar(n, 0, 1)
		return m.eqInt(v, vint(1))
	})
	reg(svPkg+"Rune", func(m *Machine, in *instr, a []Value) Value {
		n, _ := a[0].str()
		return m.newVarSet(n, Set{{1, 0xd7ff}, {0xe000, utf8.MaxRune}})
	})
	reg(svPkg+"RuneIn", func(m *Machine, in *instr, a []Value) Value {
		n, _ := a[0].str()
		cs, _ := a[1].str()
		var rs []rng
		for _, r := range cs {
			rs = append(rs, rng{int64(r), int64(r)})
		}
		return m.newVarSet(n, normSet(rs))
	})
	reg(svPkg+"In", func(m *Machine, in *instr, a []Value) Value {
		cs, _ := a[1].str()
		var rs []rng
		for _, r := range cs {
			rs = append(rs, rng{int64(r), int64(r)})
		}
		return m.inSet(a[0], normSet(rs))
	})
	reg(svPkg+"RuneRange", func(m *Machine, in *instr, a []Value) Value {
		n, _ := a[0].str()
		return m.newVar(n, a[1].n, a[2].n)
	})
	// Pick: element idx of a fixed-width table of words, rune by rune
	reg(svPkg+"WordRune", func(m *Machine, in *instr, a []Value) Value {
		// a[0] choice value, a[1] []string words, a[2] position
		words := sliceVals(a[1], 1)
		pos := int(a[2].n)
		at := func(i int64) int64 {
			if i < 0 || int(i) >= len(words) {
				return ' '
			}
			w, _ := words[i].str()
			rs := []rune(w)
			if pos < len(rs) {
				return int64(rs[pos])
			}
			return ' '
		}
		t := a[0].sym()
		if t == nil {
			return vint(at(a[0].n))
		}
		return m.fnVal(t.v, t.fn.mapPoints(at))
	})
	reg(svPkg+"Assume", func(m *Machine, in *instr, a []Value) Value {
		t := a[0].sym()
		if t == nil {
			if a[0].n == 0 {
				panic(pathEnd{outcome{outInfeasible, "assume"}})
			}
			return Value{}
		}
		if m.status(t) == 0 {
			panic(pathEnd{outcome{outInfeasible, "assume"}})
		}
		m.addPC(t)
		return Value{}
	})
	reg(svPkg+"Assert", func(m *Machine, in *instr, a []Value) Value {
		t := a[0].sym()
		if t == nil {
			if a[0].n == 0 {
				panic(pathEnd{outcome{outViolation, m.render(a[1])}})
			}
			m.ex.assertsConc.Add(1)
			return Value{}
		}
		m.ex.assertsSym.Add(1)
		if !m.decide(t) {
			panic(pathEnd{outcome{outViolation, m.render(a[1])}})
		}
		return Value{}
	})
	reg(svPkg+"Fail", func(m *Machine, in *instr, a []Value) Value {
		panic(pathEnd{outcome{outViolation, m.render(a[0])}})
	})
	reg(svPkg+"Cover", func(m *Machine, in *instr, a []Value) Value {
		s, _ := a[0].str()
		m.ex.cover(s)
		return Value{}
	})
	reg(svPkg+"Observe", func(m *Machine, in *instr, a []Value) Value {
		s, _ := a[0].str()
		m.obs = append(m.obs, obsEnt{s, a[1]})
		return Value{}
	})
	reg(svPkg+"FileBytes", func(m *Machine, in *instr, a []Value) Value {
		m.files = append(m.files, vfile{m.forceSimple(a[0]), append([]Value(nil), sliceVals(a[1], 1)...)})
		return Value{}
	})
	reg(svPkg+"File", func(m *Machine, in *instr, a []Value) Value {
		m.files = append(m.files, vfile{m.forceSimple(a[0]), append([]Value(nil), sliceVals(a[1], 1)...)})
		return Value{}
	})
	reg(svPkg+"MapOrders", func(m *Machine, in *instr, a []Value) Value {
		m.sysSet(sysMapOrder, vint(-a[0].n))
		return Value{}
	})
	reg(svPkg+"Budget", func(m *Machine, in *instr, a []Value) Value {
		m.limit = int(a[0].n)
		return Value{}
	})
	reg(svPkg+"Concrete", func(m *Machine, in *instr, a []Value) Value {
		return vint(m.concretize(a[0], "harness"))
	})
	reg(svPkg+"isLazy", func(m *Machine, in *instr, a []Value) Value { return vbool(a[0].isLazy()) })
	reg(svPkg+"lazyKind", func(m *Machine, in *instr, a []Value) Value { return vint(int64(a[0].o.(*Str).lazy.kind)) })
	reg(svPkg+"lazyFormat", func(m *Machine, in *instr, a []Value) Value { return a[0].o.(*Str).lazy.format })
	reg(svPkg+"lazyArgs", func(m *Machine, in *instr, a []Value) Value {
		l := a[0].o.(*Str).lazy
		if l.kind == 2 {
			return Value{}
		}
		return m.newSlice(append([]Value(nil), l.args...), 1)
	})
	reg(svPkg+"lazyParts", func(m *Machine, in *instr, a []Value) Value {
		l := a[0].o.(*Str).lazy
		if l.kind != 2 {
			return Value{}
		}
		return m.newSlice(append([]Value(nil), l.args...), 1)
	})
	reg(svPkg+"typeName", func(m *Machine, in *instr, a []Value) Value {
		if i, ok := a[0].o.(*Iface); ok {
			return vstr(i.t.t.String())
		}
		return vstr("<nil>")
	})
	reg(svPkg+"Symbolic", func(m *Machine, in *instr, a []Value) Value { return vbool(true) })
	_ = math.MaxInt
}
