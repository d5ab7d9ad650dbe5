package main

import (
	"go/token"
	"go/types"
	"math"
	"strconv"
	"unicode/utf8"
)

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func wrap(x int64, bits int, signed bool) int64 {
	if bits == 64 {
		return x
	}
	x &= 1<<uint(bits) - 1
	if signed && x>>(uint(bits)-1) == 1 {
		x -= 1 << uint(bits)
	}
	return x
}

func (m *Machine) binop(in *instr, a, b Value) Value {
	switch in.tok {
	case token.EQL:
		return m.eq(a, b, in.ty)
	case token.NEQ:
		v := m.eq(a, b, in.ty)
		if t := v.sym(); t != nil {
			return vterm(m.tt.not(t))
		}
		return vbool(v.n == 0)
	}
	bt, _ := in.ty.Underlying().(*types.Basic)
	if bt == nil {
		panic(unsupportedf("binop %s on %s", in.tok, in.ty))
	}
	if bt.Info()&types.IsString != 0 {
		switch in.tok {
		case token.ADD:
			return concat(a, b)
		case token.LSS:
			return vbool(m.strLess(a, b))
		case token.GTR:
			return vbool(m.strLess(b, a))
		case token.LEQ:
			return vbool(!m.strLess(b, a))
		case token.GEQ:
			return vbool(!m.strLess(a, b))
		}
	}
	if bt.Info()&types.IsFloat != 0 {
		x, y := flt(a), flt(b)
		switch in.tok {
		case token.ADD:
			return Value{o: x + y}
		case token.SUB:
			return Value{o: x - y}
		case token.MUL:
			return Value{o: x * y}
		case token.QUO:
			return Value{o: x / y}
		case token.LSS:
			return vbool(x < y)
		case token.LEQ:
			return vbool(x <= y)
		case token.GTR:
			return vbool(x > y)
		case token.GEQ:
			return vbool(x >= y)
		}
	}
	switch in.tok {
	case token.LSS:
		return m.less(a, b, in.ty)
	case token.GTR:
		return m.less(b, a, in.ty)
	case token.LEQ:
		return m.negV(m.less(b, a, in.ty))
	case token.GEQ:
		return m.negV(m.less(a, b, in.ty))
	}
	return m.arith(in.tok, a, b, in.ty)
}

func flt(v Value) float64 {
	if f, ok := v.o.(float64); ok {
		return f
	}
	return 0
}

func (m *Machine) negV(v Value) Value {
	if t := v.sym(); t != nil {
		return vterm(m.tt.not(t))
	}
	return vbool(v.n == 0)
}

func (m *Machine) term(v Value) *Term {
	if t := v.sym(); t != nil {
		return t
	}
	return m.tt.cst(v.n)
}

func (m *Machine) less(a, b Value, t types.Type) Value {
	if a.o == nil && b.o == nil {
		bits, signed, _ := intInfo(t)
		if !signed && bits == 64 {
			return vbool(uint64(a.n) < uint64(b.n))
		}
		return vbool(a.n < b.n)
	}
	if bits, signed, _ := intInfo(t); !signed && bits == 64 {
		// terms are signed: numbers of 2^63 and more are negative there
		ka, kb := signOf(a), signOf(b)
		switch {
		case ka == 0 || kb == 0:
			x, y := m.concretize(a, "unsigned comparison"), m.concretize(b, "unsigned comparison")
			return vbool(uint64(x) < uint64(y))
		case ka > kb: // b is the large one
			return vbool(true)
		case ka < kb:
			return vbool(false)
		}
	}
	x, y := m.term(a), m.term(b)
	if x.k == kAdd || x.k == kSub || x.k == kMul || y.k == kAdd || y.k == kSub || y.k == kMul {
		al, ah, ok1 := x.bounds()
		bl, bh, ok2 := y.bounds()
		if ok1 && ok2 && ah < bl {
			return vbool(true)
		}
		if ok1 && ok2 && al >= bh {
			return vbool(false)
		}
	}
	c, ct := m.tt.cmp(kLt, x, y)
	return vcond(c, ct)
}

// signOf: 1 if the integer is never negative, -1 if it always is, 0 if not known.
func signOf(v Value) int {
	lo, hi := v.n, v.n
	if t := v.sym(); t != nil {
		if t.k != kFn {
			l, h, ok := t.bounds()
			if !ok {
				return 0
			}
			lo, hi = l, h
		} else {
			img := t.fn.image(t.v.dom)
			lo, hi = img[0].lo, img[len(img)-1].hi
		}
	}
	if lo >= 0 {
		return 1
	}
	if hi < 0 {
		return -1
	}
	return 0
}

// boolInt turns a boolean term into an integer-comparable form when needed.
func isBoolKind(t *Term) bool {
	switch t.k {
	case kSet, kNot, kAnd, kOr, kEq, kLt:
		return true
	}
	return false
}

func (m *Machine) eqInt(a, b Value) Value {
	ta, tb := a.sym(), b.sym()
	if ta == nil && tb == nil {
		return vbool(a.n == b.n)
	}
	if ta != nil && isBoolKind(ta) || tb != nil && isBoolKind(tb) {
		// boolean equality
		if ta == nil {
			ta, tb, a, b = tb, ta, b, a
		}
		if tb == nil {
			if b.n != 0 {
				return a
			}
			return vterm(m.tt.not(ta))
		}
		if ta == tb {
			return vbool(true)
		}
		c1, x := m.tt.and([]*Term{ta, tb})
		c2, y := m.tt.and([]*Term{m.tt.not(ta), m.tt.not(tb)})
		if x == nil && y == nil {
			return vbool(c1 || c2)
		}
		if x == nil {
			if c1 {
				return vbool(true)
			}
			return vterm(y)
		}
		if y == nil {
			if c2 {
				return vbool(true)
			}
			return vterm(x)
		}
		c, t := m.tt.or([]*Term{x, y})
		return vcond(c, t)
	}
	c, ct := m.tt.cmp(kEq, m.term(a), m.term(b))
	return vcond(c, ct)
}

func (m *Machine) andV(a, b Value) Value {
	if a.o == nil {
		if a.n == 0 {
			return a
		}
		return b
	}
	if b.o == nil {
		if b.n == 0 {
			return b
		}
		return a
	}
	c, t := m.tt.and([]*Term{a.sym(), b.sym()})
	return vcond(c, t)
}

func (m *Machine) orV(a, b Value) Value {
	if a.o == nil {
		if a.n != 0 {
			return a
		}
		return b
	}
	if b.o == nil {
		if b.n != 0 {
			return b
		}
		return a
	}
	c, t := m.tt.or([]*Term{a.sym(), b.sym()})
	return vcond(c, t)
}

// strEq returns the (possibly symbolic) equality of two strings.
func (m *Machine) strEq(a, b Value) Value {
	if s, ok := a.str(); ok {
		if t, ok := b.str(); ok {
			return vbool(s == t)
		}
	}
	if a.o == b.o {
		return vbool(true)
	}
	a, b = m.forceSimple(a), m.forceSimple(b)
	if s, ok := a.str(); ok {
		if t, ok := b.str(); ok {
			return vbool(s == t)
		}
	}
	ra, rb := a.runes(), b.runes()
	return m.runesEq(ra, rb)
}

func (m *Machine) runesEq(ra, rb []Value) Value {
	if len(ra) != len(rb) {
		return vbool(false)
	}
	for i := range ra {
		if ra[i].o == nil && rb[i].o == nil && ra[i].n != rb[i].n {
			return vbool(false)
		}
	}
	var ts []*Term
	for i := range ra {
		v := m.eqInt(ra[i], rb[i])
		if v.o == nil {
			if v.n == 0 {
				return v
			}
			continue
		}
		ts = append(ts, v.sym())
	}
	if len(ts) == 0 {
		return vbool(true)
	}
	c, t := m.tt.and(ts)
	return vcond(c, t)
}

func (m *Machine) strLess(a, b Value) bool {
	if s, ok := a.str(); ok {
		if t, ok := b.str(); ok {
			return s < t
		}
	}
	a, b = m.forceSimple(a), m.forceSimple(b)
	ra, rb := a.runes(), b.runes()
	for i := 0; i < len(ra) && i < len(rb); i++ {
		if m.decideV(m.eqInt(ra[i], rb[i])) {
			continue
		}
		return m.decideV(m.less(ra[i], rb[i], types.Typ[types.Int32]))
	}
	return len(ra) < len(rb)
}

func (m *Machine) eq(a, b Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return vbool(flt(a) == flt(b))
		}
		if u.Kind() == types.UnsafePointer {
			return vbool(a == b)
		}
		return m.eqInt(a, b)
	case *types.Interface:
		return m.ifaceEq(a, b)
	case *types.Struct:
		return m.aggEq(a, b, t)
	case *types.Array:
		return m.aggEq(a, b, t)
	case *types.Slice, *types.Map, *types.Signature:
		// comparison with nil only
		if a.o == nil || b.o == nil {
			return vbool(a.o == nil && b.o == nil)
		}
		return vbool(a.o == b.o)
	}
	// pointers, chans
	if x, ok := a.o.(*Opaque); ok {
		y, ok := b.o.(*Opaque)
		return vbool(ok && x == y)
	}
	if _, ok := a.o.(*SymPtr); ok {
		panic(unsupported("comparison of symbolic pointers"))
	}
	return vbool(a.o == b.o && (a.o == nil || a.n == b.n))
}

func (m *Machine) ifaceEq(a, b Value) Value {
	x, ok1 := a.o.(*Iface)
	y, ok2 := b.o.(*Iface)
	if !ok1 || !ok2 {
		return vbool(a.o == b.o)
	}
	if x.t != y.t {
		return vbool(false)
	}
	switch x.t.t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		m.throw("comparing uncomparable type " + x.t.t.String())
	}
	return m.eq(x.v, y.v, x.t.t)
}

func (m *Machine) aggEq(a, b Value, t types.Type) Value {
	n := slotsOf(t)
	x := aggSlots(a, n)
	y := aggSlots(b, n)
	res := vbool(true)
	var rec func(t types.Type, off int)
	rec = func(t types.Type, off int) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), off)
				off += slotsOf(u.Field(i).Type())
			}
		case *types.Array:
			es := slotsOf(u.Elem())
			for i := 0; i < int(u.Len()); i++ {
				rec(u.Elem(), off+i*es)
			}
		default:
			res = m.andV(res, m.eq(x[off], y[off], t))
		}
	}
	rec(t, 0)
	return res
}

func aggSlots(v Value, n int) []Value {
	if a, ok := v.o.(*Agg); ok {
		return a.s
	}
	return make([]Value, n)
}

func (m *Machine) arith(op token.Token, a, b Value, t types.Type) Value {
	bits, signed, ok := intInfo(t)
	if !ok {
		// boolean &, | appear for AND/OR on bools only in generated code
		panic(unsupportedf("arith %s on %s", op, t))
	}
	ta, tb := a.sym(), b.sym()
	if ta == nil && tb == nil {
		return vint(m.cArith(op, a.n, b.n, bits, signed))
	}
	if tb == nil && ta.k == kFn {
		switch op {
		case token.ADD, token.SUB:
			k := b.n
			if op == token.SUB {
				k = -k
			}
			img := ta.fn.image(ta.v.dom)
			lo, hi := img[0].lo+k, img[len(img)-1].hi+k
			if wrap(lo, bits, signed) == lo && wrap(hi, bits, signed) == hi {
				ps := make([]piece, len(ta.fn.ps))
				for i, p := range ta.fn.ps {
					p.add += k
					ps[i] = p
				}
				return m.fnVal(ta.v, normFn(ps))
			}
		}
		if ta.fn.image(ta.v.dom).size() <= 70000 || onlyConst(ta.fn) {
			return m.fnVal(ta.v, ta.fn.mapPoints(func(x int64) int64 { return m.cArith(op, x, b.n, bits, signed) }))
		}
	}
	if ta == nil && tb.k == kFn {
		if op == token.ADD {
			return m.arith(op, b, a, t)
		}
		if tb.fn.image(tb.v.dom).size() <= 70000 || onlyConst(tb.fn) {
			return m.fnVal(tb.v, tb.fn.mapPoints(func(x int64) int64 { return m.cArith(op, a.n, x, bits, signed) }))
		}
	}
	if ta != nil && tb != nil && ta.k == kFn && tb.k == kFn && ta.v == tb.v && ta.v.dom.size() <= 70000 {
		var ps []piece
		for _, r := range ta.v.dom {
			for x := r.lo; x <= r.hi; x++ {
				ps = append(ps, piece{x, x, false, m.cArith(op, ta.fn.at(x), tb.fn.at(x), bits, signed)})
			}
		}
		return m.fnVal(ta.v, normFn(ps))
	}
	if (op == token.ADD || op == token.SUB) && bits >= 32 {
		k := kAdd
		if op == token.SUB {
			k = kSub
		}
		return vterm(m.tt.intern(&Term{k: k, args: []*Term{m.term(a), m.term(b)}}))
	}
	if op == token.MUL && bits >= 32 && (ta == nil) != (tb == nil) {
		x, k := m.term(a), m.term(b)
		if ta == nil {
			x, k = k, x
		}
		if !isBoolKind(x) {
			r := m.tt.intern(&Term{k: kMul, args: []*Term{x, k}})
			if lo, hi, ok := r.bounds(); ok && wrap(lo, bits, signed) == lo && wrap(hi, bits, signed) == hi {
				return vterm(r)
			}
		}
	}
	x := m.concretize(a, "arithmetic "+op.String())
	y := m.concretize(b, "arithmetic "+op.String())
	return vint(m.cArith(op, x, y, bits, signed))
}

func onlyConst(f *Fn) bool {
	for _, p := range f.ps {
		if p.aff {
			return false
		}
	}
	return true
}

func (m *Machine) cArith(op token.Token, x, y int64, bits int, signed bool) int64 {
	var r int64
	switch op {
	case token.ADD:
		r = x + y
	case token.SUB:
		r = x - y
	case token.MUL:
		r = x * y
	case token.QUO:
		if y == 0 {
			m.throw("integer divide by zero")
		}
		if signed {
			if y == -1 {
				r = -x
			} else {
				r = x / y
			}
		} else {
			r = int64(uint64(x) / uint64(y))
		}
	case token.REM:
		if y == 0 {
			m.throw("integer divide by zero")
		}
		if signed {
			if y == -1 {
				r = 0
			} else {
				r = x % y
			}
		} else {
			r = int64(uint64(x) % uint64(y))
		}
	case token.AND:
		r = x & y
	case token.OR:
		r = x | y
	case token.XOR:
		r = x ^ y
	case token.AND_NOT:
		r = x &^ y
	case token.SHL:
		if uint64(y) >= 64 {
			r = 0
		} else {
			r = x << uint(y)
		}
	case token.SHR:
		if signed {
			if uint64(y) >= 64 {
				y = 63
			}
			r = x >> uint(y)
		} else {
			if uint64(y) >= 64 {
				r = 0
			} else {
				r = int64(uint64(x) >> uint(y))
			}
		}
	default:
		panic(unsupportedf("arith %s", op))
	}
	return wrap(r, bits, signed)
}

func (m *Machine) convert(in *instr, v Value) Value {
	from, to := in.ty.Underlying(), in.ty2.Underlying()
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil {
			if fb.Info()&types.IsString != 0 {
				return v
			}
			return mkStr([]Value{v}) // string(rune)
		}
		if sl, ok := from.(*types.Slice); ok {
			s, _ := v.o.(*Slice)
			if s == nil {
				return Value{}
			}
			vals := s.obj.s[s.off : s.off+s.len]
			if b, _ := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
				return m.bytesStr(vals)
			}
			return m.mkStrFix(vals)
		}
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := to.(*types.Slice); ok {
			b, _ := sl.Elem().Underlying().(*types.Basic)
			var vals []Value
			if b.Kind() == types.Uint8 {
				if s, ok := v.str(); ok {
					vals = make([]Value, len(s))
					for i := 0; i < len(s); i++ {
						vals[i] = vint(int64(s[i]))
					}
				} else {
					vals = m.strBytes(v)
				}
			} else {
				vals = v.runes()
			}
			o := &Obj{birth: m.serial, s: append([]Value(nil), vals...)}
			return Value{o: &Slice{obj: o, len: len(vals), cap: len(vals)}}
		}
	}
	if fb == nil || tb == nil {
		if fb != nil && fb.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
			return v
		}
		return v
	}
	if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
		return v
	}
	if tb.Info()&types.IsFloat != 0 {
		if fb.Info()&types.IsInteger != 0 {
			return Value{o: float64(m.concretize(v, "float conversion"))}
		}
		if tb.Kind() == types.Float32 {
			return Value{o: float64(float32(flt(v)))}
		}
		return v
	}
	if fb.Info()&types.IsFloat != 0 {
		f := flt(v)
		if math.IsNaN(f) {
			return vint(math.MinInt64)
		}
		return vint(int64(f))
	}
	bits, signed, ok := intInfo(in.ty2)
	if !ok {
		return v
	}
	t := v.sym()
	if t == nil {
		return vint(wrap(v.n, bits, signed))
	}
	if t.k == kFn {
		img := t.fn.image(t.v.dom)
		lo, hi := img[0].lo, img[len(img)-1].hi
		if wrap(lo, bits, signed) == lo && wrap(hi, bits, signed) == hi {
			return v
		}
		if img.size() <= 70000 || onlyConst(t.fn) {
			return m.fnVal(t.v, t.fn.mapPoints(func(x int64) int64 { return wrap(x, bits, signed) }))
		}
		// truncation of a large affine range: split into wrapped pieces
		span := int64(1) << uint(bits)
		if bits <= 16 {
			var ps []piece
			for _, p := range t.fn.ps {
				if !p.aff {
					ps = append(ps, piece{p.lo, p.hi, false, wrap(p.add, bits, signed)})
					continue
				}
				x := p.lo
				for x <= p.hi {
					val := x + p.add
					w := wrap(val, bits, signed)
					max := span - 1
					if signed {
						max = span/2 - 1
					}
					end := x + (max - w)
					if end > p.hi {
						end = p.hi
					}
					ps = append(ps, piece{x, end, true, p.add + (w - val)})
					x = end + 1
				}
			}
			return m.fnVal(t.v, normFn(ps))
		}
	}
	if t.k == kAdd || t.k == kSub || t.k == kMul {
		if lo, hi, ok := t.bounds(); ok && bits < 64 {
			l, h := -int64(1)<<(bits-1), int64(1)<<(bits-1)-1
			if !signed {
				l, h = 0, int64(1)<<bits-1
			}
			if lo >= l && hi <= h {
				return v
			}
			if m.decideV(m.less(vint(h), v, types.Typ[types.Int64])) || m.decideV(m.less(v, vint(l), types.Typ[types.Int64])) {
				return vint(wrap(m.concretize(v, "integer conversion"), bits, signed))
			}
			return v
		}
	}
	if bits >= 32 {
		return v
	}
	return vint(wrap(m.concretize(v, "integer conversion"), bits, signed))
}

// mkStrFix is string([]rune): surrogates and out-of-range runes become U+FFFD.
func (m *Machine) mkStrFix(vals []Value) Value {
	out := vals
	for i, v := range vals {
		t := v.sym()
		if t == nil || t.k != kFn {
			continue
		}
		bad := union(Set{{math.MinInt32, -1}}, union(Set{{0xd800, 0xdfff}}, Set{{utf8.MaxRune + 1, math.MaxInt32}}))
		if disjoint(t.fn.image(t.v.dom), bad) {
			continue
		}
		if &out[0] == &vals[0] {
			out = append([]Value(nil), vals...)
		}
		g := []piece{{math.MinInt32, -1, false, utf8.RuneError}, {0xd800, 0xdfff, false, utf8.RuneError}, {utf8.MaxRune + 1, math.MaxInt32, false, utf8.RuneError}}
		out[i] = m.fnVal(t.v, t.fn.compose(g))
	}
	return mkStr(out)
}

func (m *Machine) strLen(v Value) Value {
	if s, ok := v.str(); ok {
		return vint(int64(len(s)))
	}
	rs := v.runes()
	n := int64(0)
	for _, r := range rs {
		t := r.sym()
		if t == nil {
			n += int64(utf8.RuneLen(rune(r.n)))
			continue
		}
		w := int64(4)
		for k, b := range []int64{0x80, 0x800, 0x10000} {
			c, ct := m.tt.cmp(kLt, t, m.tt.cst(b))
			if m.decideV(vcond(c, ct)) {
				w = int64(k + 1)
				break
			}
		}
		n += w
	}
	return vint(n)
}

func sliceVals(v Value, es int) []Value {
	s, _ := v.o.(*Slice)
	if s == nil {
		return nil
	}
	return s.obj.s[s.off : s.off+s.len*es]
}

func (m *Machine) newSlice(vals []Value, es int) Value {
	o := &Obj{birth: m.serial, s: vals}
	n := len(vals)
	if es > 0 {
		n /= es
	}
	return Value{o: &Slice{obj: o, len: n, cap: n}}
}

func (m *Machine) builtin(in *instr, args []Value) Value {
	switch in.name {
	case "len":
		switch u := in.ty.Underlying().(type) {
		case *types.Basic:
			return m.strLen(m.forceSimple(args[0]))
		case *types.Slice:
			if s, ok := args[0].o.(*Slice); ok {
				return vint(int64(s.len))
			}
			return vint(0)
		case *types.Map:
			if mp, ok := args[0].o.(*Map); ok {
				return vint(int64(mp.live))
			}
			if o, ok := args[0].o.(*Opaque); ok {
				panic(unsupported("map " + o.tag))
			}
			return vint(0)
		case *types.Array:
			return vint(u.Len())
		case *types.Pointer:
			return vint(u.Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch u := in.ty.Underlying().(type) {
		case *types.Slice:
			if s, ok := args[0].o.(*Slice); ok {
				return vint(int64(s.cap))
			}
			return vint(0)
		case *types.Array:
			return vint(u.Len())
		}
	case "append":
		var add []Value
		if b, ok := in.ty2.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if s, ok := args[1].str(); ok {
				for i := 0; i < len(s); i++ {
					add = append(add, vint(int64(s[i])))
				}
			} else {
				add = m.strBytes(m.forceSimple(args[1]))
			}
		} else {
			add = sliceVals(args[1], in.n)
		}
		s, _ := args[0].o.(*Slice)
		if len(add) == 0 && (in.n > 0 || args[1].o == nil) {
			return args[0]
		}
		es := in.n
		cnt := len(add)
		if es > 0 {
			cnt = len(add) / es
		} else if t, ok := args[1].o.(*Slice); ok {
			cnt = t.len
		}
		if s != nil && s.len+cnt <= s.cap {
			base := s.off + s.len*es
			if m.sys.s[sysShare].n != 0 && cnt > 0 {
				m.wrote(s.obj, s.obj.birth)
			}
			if s.obj.birth >= m.cpSer {
				copy(s.obj.s[base:], add)
			} else {
				for i, x := range append([]Value(nil), add...) {
					m.set(s.obj, base+i, x)
				}
			}
			return Value{o: &Slice{obj: s.obj, off: s.off, len: s.len + cnt, cap: s.cap}}
		}
		var old []Value
		n := 0
		if s != nil {
			old = s.obj.s[s.off : s.off+s.len*es]
			n = s.len
		}
		nc := (n + cnt)
		if nc < 2*n {
			nc = 2 * n
		}
		o := m.newObj(nc * es)
		copy(o.s, old)
		copy(o.s[n*es:], add)
		return Value{o: &Slice{obj: o, len: n + cnt, cap: nc}}
	case "copy":
		d, _ := args[0].o.(*Slice)
		var src []Value
		if b, ok := in.ty2.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if s, ok := args[1].str(); ok {
				for i := 0; i < len(s); i++ {
					src = append(src, vint(int64(s[i])))
				}
			} else {
				src = m.strBytes(args[1])
			}
		} else {
			src = append([]Value(nil), sliceVals(args[1], in.n)...)
		}
		if d == nil || in.n == 0 {
			return vint(0)
		}
		n := len(src)
		if n > d.len*in.n {
			n = d.len * in.n
		}
		for i := 0; i < n; i++ {
			m.set(d.obj, d.off+i, src[i])
		}
		return vint(int64(n / in.n))
	case "delete":
		if mp, ok := args[0].o.(*Map); ok {
			m.mapDelete(mp, args[1])
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		fr := m.cur
		if fr.isDefer && fr.parent != nil && fr.parent.pan != nil && !fr.parent.pan.recovered {
			par := m.writable(fr.parent)
			fr.parent = par
			par.pan.recovered = true
			return par.pan.val
		}
		return Value{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x := m.concretize(r, "min/max")
			y := m.concretize(a, "min/max")
			if (in.name == "min") == (y < x) {
				r = vint(y)
			} else {
				r = vint(x)
			}
		}
		return r
	case "clear":
		if mp, ok := args[0].o.(*Map); ok {
			for _, e := range mp.ents {
				if e.live {
					m.mapDelete(mp, e.k)
				}
			}
			return Value{}
		}
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			m.throw("invalid memory address or nil pointer dereference (value method called using nil pointer)")
		}
		return args[0]
	case "StringData", "SliceData", "String", "Slice":
		panic(unsupported("unsafe " + in.name))
	}
	panic(unsupportedf("builtin %s on %v", in.name, in.ty))
}

// ---- maps ---------------------------------------------------------------------

func (m *Machine) keyEq(a, b Value) Value {
	switch x := a.o.(type) {
	case *Str:
		return m.strEq(a, b)
	case *Agg:
		y := aggSlots(b, len(x.s))
		res := vbool(true)
		for i := range x.s {
			res = m.andV(res, m.keyEq(x.s[i], y[i]))
		}
		return res
	case *Iface:
		y, ok := b.o.(*Iface)
		if !ok || y.t != x.t {
			return vbool(false)
		}
		return m.keyEq(x.v, y.v)
	}
	if _, ok := b.o.(*Str); ok {
		return m.strEq(a, b)
	}
	if _, ok := b.o.(*Agg); ok {
		return m.keyEq(b, a)
	}
	if a.sym() != nil || b.sym() != nil {
		return m.eqInt(a, b)
	}
	return vbool(a.o == b.o && a.n == b.n)
}

// find locates the entry for key; may fork.  -1 when absent.
func (m *Machine) find(mp *Map, key Value) int {
	key = m.forceSimple(key)
	k, conc := keyOf(key)
	if conc {
		if i, ok := mp.idx[k]; ok {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if !e.live || conc && !e.sym {
			continue
		}
		if m.decideV(m.keyEq(e.k, key)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lookup(in *instr, mv, key Value) Value {
	mp, _ := mv.o.(*Map)
	if mp == nil {
		if _, ok := mv.o.(*Opaque); ok {
			panic(unsupported("lookup in opaque map"))
		}
		if in.flag {
			return Value{o: &Agg{make([]Value, 2)}}
		}
		return Value{}
	}
	if m.sys.s[sysShare].n == 2 {
		m.read(mp, mp.birth)
	}
	key = m.forceSimple(key)
	if _, conc := keyOf(key); !conc {
		// membership in a set-like map stays symbolic (no fork)
		same := len(mp.ents) > 0
		var v0 Value
		first := true
		for i := range mp.ents {
			e := &mp.ents[i]
			if !e.live {
				continue
			}
			if e.v.o != nil || (!first && e.v.n != v0.n) || (e.v.n != 1) {
				same = false
				break
			}
			v0, first = e.v, false
		}
		if bt, ok := in.ty.(*types.Map).Elem().Underlying().(*types.Basic); ok && same && bt.Info()&types.IsBoolean != 0 {
			var ts []*Term
			hit := false
			for i := range mp.ents {
				e := &mp.ents[i]
				if !e.live {
					continue
				}
				q := m.keyEq(e.k, key)
				if t := q.sym(); t != nil {
					ts = append(ts, t)
				} else if q.n != 0 {
					hit = true
					break
				}
			}
			var r Value
			if hit {
				r = vbool(true)
			} else if len(ts) == 0 {
				r = vbool(false)
			} else {
				c, t := m.tt.or(ts)
				r = vcond(c, t)
			}
			if in.flag {
				return Value{o: &Agg{[]Value{r, r}}}
			}
			return r
		}
	}
	i := m.find(mp, key)
	if i < 0 {
		if in.flag {
			return Value{o: &Agg{make([]Value, 2)}}
		}
		return Value{}
	}
	if in.flag {
		return Value{o: &Agg{[]Value{mp.ents[i].v, vbool(true)}}}
	}
	return mp.ents[i].v
}

func (m *Machine) mapSet(mp *Map, key, val Value) {
	key = m.forceSimple(key)
	if ifc, ok := key.o.(*Iface); ok {
		switch ifc.t.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			m.throw("hash of unhashable type " + ifc.t.t.String())
		}
	}
	i := m.find(mp, key)
	if m.sys.s[sysShare].n != 0 {
		m.wrote(mp, mp.birth)
	}
	if i >= 0 {
		if mp.birth < m.cpSer {
			m.trail = append(m.trail, undo{kind: 2, m: mp, i: i, v: mp.ents[i].v})
		}
		mp.ents[i].v = val
		return
	}
	k, conc := keyOf(key)
	if mp.birth < m.cpSer {
		m.trail = append(m.trail, undo{kind: 1, m: mp})
	}
	mp.ents = append(mp.ents, ment{k: key, v: val, live: true, sym: !conc})
	mp.live++
	if conc {
		mp.idx[k] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *Map, key Value) {
	i := m.find(mp, key)
	if m.sys.s[sysShare].n != 0 {
		m.wrote(mp, mp.birth)
	}
	if i < 0 {
		return
	}
	if mp.birth < m.cpSer {
		m.trail = append(m.trail, undo{kind: 3, m: mp, i: i})
	}
	e := &mp.ents[i]
	e.live = false
	mp.live--
	if e.sym {
		mp.nsym--
	} else {
		k, _ := keyOf(e.k)
		delete(mp.idx, k)
	}
}

// mapOrder returns the iteration order of a map (insertion order, or an order
// picked by a symbolic variable when the harness asked for it).
func (m *Machine) mapOrder(mp *Map) []int {
	if m.sys.s[sysShare].n == 2 {
		m.read(mp, mp.birth)
	}
	var live []int
	for i := range mp.ents {
		if mp.ents[i].live {
			live = append(live, i)
		}
	}
	st := m.sysGet(sysMapOrder).n
	k := len(live)
	if st == 0 || k < 2 {
		return live
	}
	// One symbolic number orders all maps ranged over from now on: every order
	// of up to four entries, rotations and reversals of more.
	if st < 0 {
		st = m.concretize(m.newVar("maporder", 0, 23), "map order") + 1
		m.sysSet(sysMapOrder, vint(st))
	}
	v := st - 1
	if k > 4 {
		v %= int64(2 * k)
	}
	out := make([]int, 0, k)
	if k <= 4 {
		rest := append([]int{}, live...)
		for len(rest) > 0 {
			i := int(v % int64(len(rest)))
			v /= int64(len(rest))
			out = append(out, rest[i])
			rest = append(rest[:i:i], rest[i+1:]...)
		}
		return out
	}
	for i := 0; i < k; i++ {
		j := (i + int(v)) % k
		if v >= int64(k) {
			j = k - 1 - j
		}
		out = append(out, live[j])
	}
	return out
}

func (m *Machine) newVar(name string, lo, hi int64) Value {
	return m.newVarSet(name, Set{{lo, hi}})
}

func (m *Machine) newVarSet(name string, s Set) Value {
	if len(s) == 0 {
		panic(unsupported("variable with empty domain"))
	}
	idx := m.nvStart + m.nvK
	m.nvK++
	var v *Var
	if idx < len(m.vars) {
		v = m.vars[idx] // instruction re-executed after a choice
	} else {
		v = m.tt.mkVar(len(m.vars), name, s)
		m.vars = append(m.vars, v)
		m.doms = append(m.doms, s)
	}
	if c, ok := s.single(); ok {
		return vint(c)
	}
	return vterm(m.tt.varTerm(v))
}

// ---- misc -----------------------------------------------------------------------

func (m *Machine) describe(v Value) string {
	switch o := v.o.(type) {
	case nil:
		return "nil"
	case *Iface:
		if s, ok := o.v.o.(*Str); ok && s.rs == nil && s.lazy == nil {
			return s.s
		}
		if p, ok := o.v.o.(*Obj); ok && len(p.s) > int(o.v.n) {
			if s, ok := p.s[o.v.n].o.(*Str); ok {
				return o.t.t.String() + " " + m.render(Value{o: s})
			}
		}
		return o.t.t.String()
	}
	return strconv.Itoa(int(v.n))
}
