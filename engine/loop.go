package main

import (
	"go/token"
	"go/types"
	"unicode/utf8"
)

type strIter struct{ v Value }

type mapIter struct {
	m     *Map
	order []int
}

func (m *Machine) loop() {
	for {
		fr := m.cur
		in := &fr.code.ins[fr.pc]
		m.steps++
		if m.steps > m.limit {
			panic(pathEnd{outcome{outSteps, "step bound reached in " + m.where(fr)}})
		}
		if m.instDone {
			m.instDone = false
			m.nvStart, m.nvK = len(m.vars), 0
			if len(m.instDec) > 0 {
				m.instDec = m.instDec[:0]
			}
			if m.replay != nil {
				m.replay = nil
			}
		}
		switch in.op {
		case oAlloc:
			fr.regs[in.dst] = Value{o: m.newObj(in.n)}
			fr.pc++
		case oMove:
			fr.regs[in.dst] = m.get(fr, in.a)
			fr.pc++
		case oLoad:
			p := m.get(fr, in.a)
			v := m.load(p, in)
			fr = m.cur
			fr.regs[in.dst] = v
			fr.pc++
		case oStore:
			m.store(m.get(fr, in.a), m.get(fr, in.b), in)
			m.cur.pc++
		case oBin:
			v := m.binop(in, m.get(fr, in.a), m.get(fr, in.b))
			fr = m.cur
			fr.regs[in.dst] = v
			fr.pc++
		case oNot:
			v := m.get(fr, in.a)
			if t := v.sym(); t != nil {
				v = vterm(m.tt.not(t))
			} else {
				v.n ^= 1
			}
			fr.regs[in.dst] = v
			fr.pc++
		case oNeg, oCompl:
			v := m.get(fr, in.a)
			var r Value
			if in.op == oNeg {
				if f, ok := v.o.(float64); ok {
					r = Value{o: -f}
				} else {
					r = m.arith(token.SUB, vint(0), v, in.ty)
				}
			} else {
				r = m.arith(token.XOR, v, vint(-1), in.ty)
			}
			m.cur.regs[in.dst] = r
			m.cur.pc++
		case oIf:
			e := &in.e1
			if m.decideV(m.get(fr, in.a)) {
				e = &in.e0
			}
			m.jump(m.cur, e)
		case oJump:
			m.jump(fr, &in.e0)
		case oCall:
			if in.code.native != nil {
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = m.get(fr, a)
				}
				if allConcrete(m, args) {
					v := in.code.native(m, in, args)
					m.cur.regs[in.dst] = v
					m.cur.pc++
					break
				}
			}
			fr.pc++
			m.pushArgs(in.code, nil, fr, in)
		case oIntrin:
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = m.get(fr, a)
			}
			v := in.fn(m, in, args)
			fr = m.cur
			fr.regs[in.dst] = v
			fr.pc++
		case oCallDyn:
			cv := m.get(fr, in.a)
			cl, _ := cv.o.(*Closure)
			if cl == nil {
				if _, ok := cv.o.(*Opaque); ok {
					panic(unsupported("call of opaque function"))
				}
				m.throw("invalid memory address or nil pointer dereference (call of nil func)")
			}
			if cl.fn.intrin != nil {
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = m.get(fr, a)
				}
				v := cl.fn.intrin(m, in, args)
				fr = m.cur
				fr.regs[in.dst] = v
				fr.pc++
				break
			}
			fr.pc++
			m.pushArgs(cl.fn, cl.free, fr, in)
		case oInvoke:
			rc, code := m.resolve(in, m.get(fr, in.a))
			args := make([]Value, len(in.args)+1)
			args[0] = rc
			for i, a := range in.args {
				args[i+1] = m.get(fr, a)
			}
			if code == nil {
				v := m.opaqueCall(in, args)
				m.cur.regs[in.dst] = v
				m.cur.pc++
				break
			}
			if code.intrin != nil {
				v := code.intrin(m, in, args)
				fr = m.cur
				fr.regs[in.dst] = v
				fr.pc++
				break
			}
			fr.pc++
			m.pushCall(code, nil, args, in.dst)
		case oBuiltin:
			args := make([]Value, len(in.args))
			for i, a := range in.args {
				args[i] = m.get(fr, a)
			}
			v := m.builtin(in, args)
			fr = m.cur
			fr.regs[in.dst] = v
			fr.pc++
		case oDefer:
			d := deferred{ins: in}
			for _, a := range in.args {
				d.args = append(d.args, m.get(fr, a))
			}
			switch opcode(in.c) {
			case oCallDyn, oInvoke:
				d.fn = m.get(fr, in.a)
			}
			fr.defers = append(fr.defers, d)
			fr.pc++
		case oRunDefers:
			if len(fr.defers) == 0 {
				fr.pc++
				break
			}
			m.runDeferred()
		case oReturn:
			var v Value
			switch len(in.args) {
			case 0:
			case 1:
				v = m.get(fr, in.args[0])
			default:
				a := &Agg{make([]Value, len(in.args))}
				for i, x := range in.args {
					a.s[i] = m.get(fr, x)
				}
				v = Value{o: a}
			}
			if m.ret(v) {
				return
			}
		case oExtract:
			a, _ := m.get(fr, in.a).o.(*Agg)
			fr.regs[in.dst] = a.s[in.n]
			fr.pc++
		case oField:
			v := m.get(fr, in.a)
			var r Value
			if a, ok := v.o.(*Agg); ok {
				if in.flag {
					r = Value{o: &Agg{a.s[in.n : in.n+in.n2 : in.n+in.n2]}}
				} else {
					r = a.s[in.n]
				}
			}
			fr.regs[in.dst] = r
			fr.pc++
		case oFieldAddr:
			p := m.get(fr, in.a)
			switch o := p.o.(type) {
			case *Obj:
				p.n += int64(in.n)
			case nil:
				m.throw("invalid memory address or nil pointer dereference")
			case *SymPtr:
				q := *o
				q.sub += in.n
				p.o = &q
			case *Opaque:
				panic(unsupported("field of opaque " + o.tag))
			}
			fr.regs[in.dst] = p
			fr.pc++
		case oIndexAddr:
			v := m.indexAddr(in, m.get(fr, in.a), m.get(fr, in.b))
			m.cur.regs[in.dst] = v
			m.cur.pc++
		case oIndex:
			v := m.index(in, m.get(fr, in.a), m.get(fr, in.b))
			m.cur.regs[in.dst] = v
			m.cur.pc++
		case oLookup:
			v := m.lookup(in, m.get(fr, in.a), m.get(fr, in.b))
			m.cur.regs[in.dst] = v
			m.cur.pc++
		case oMapUpdate:
			if o, ok := m.get(fr, in.a).o.(*Opaque); ok {
				panic(unsupported("map " + o.tag))
			}
			mp, _ := m.get(fr, in.a).o.(*Map)
			if mp == nil {
				m.throw("assignment to entry in nil map")
			}
			m.mapSet(mp, m.get(fr, in.b), m.get(fr, in.c))
			m.cur.pc++
		case oMakeClosure:
			cl := &Closure{fn: in.code, free: make([]Value, len(in.args))}
			for i, a := range in.args {
				cl.free[i] = m.get(fr, a)
			}
			fr.regs[in.dst] = Value{o: cl}
			fr.pc++
		case oMakeIface:
			fr.regs[in.dst] = Value{o: &Iface{in.rt, m.get(fr, in.a)}}
			fr.pc++
		case oMakeMap:
			fr.regs[in.dst] = Value{o: &Map{birth: m.serial, idx: map[any]int{}}}
			fr.pc++
		case oMakeSlice:
			n := int(m.concretize(m.get(fr, in.a), "make len"))
			c := int(m.concretize(m.get(fr, in.b), "make cap"))
			if n < 0 || c < n {
				m.throw("makeslice: len out of range")
			}
			if c > 1<<22 {
				panic(unsupported("huge slice"))
			}
			m.cur.regs[in.dst] = Value{o: &Slice{obj: m.newObj(c * in.n), len: n, cap: c}}
			m.cur.pc++
		case oRange:
			v := m.get(fr, in.a)
			o := m.newObj(1)
			if in.flag {
				fr.regs[in.dst] = Value{o: &rangeState{pos: o, str: v.runesOrLazy()}}
			} else {
				if o, ok := v.o.(*Opaque); ok {
					panic(unsupported("map " + o.tag))
				}
				mp, _ := v.o.(*Map)
				rs := &rangeState{pos: o, mp: mp}
				if mp != nil {
					rs.order = m.mapOrder(mp)
				}
				m.cur.regs[in.dst] = Value{o: rs}
			}
			m.cur.pc++
		case oNext:
			v := m.next(in, m.get(fr, in.a).o.(*rangeState))
			m.cur.regs[in.dst] = v
			m.cur.pc++
		case oPanic:
			v := m.get(fr, in.a)
			m.raise(v, "panic: "+m.describe(v))
		case oSlice:
			v := m.sliceOp(fr, in)
			m.cur.regs[in.dst] = v
			m.cur.pc++
		case oSlice2Arr:
			s, _ := m.get(fr, in.a).o.(*Slice)
			if s == nil {
				if in.n != 0 {
					m.throw("slice to array pointer: length")
				}
				fr.regs[in.dst] = Value{}
			} else {
				if s.len < in.n {
					m.throw("slice to array pointer: length")
				}
				fr.regs[in.dst] = Value{o: s.obj, n: int64(s.off)}
			}
			fr.pc++
		case oConvert:
			v := m.convert(in, m.get(fr, in.a))
			m.cur.regs[in.dst] = v
			m.cur.pc++
		case oTypeAssert:
			v := m.typeAssert(in, m.get(fr, in.a))
			m.cur.regs[in.dst] = v
			m.cur.pc++
		case oUnsup:
			panic(unsupported(in.name))
		default:
			panic(unsupportedf("op %d", in.op))
		}
		m.instDone = true
	}
}

func (m *Machine) jump(fr *Frame, e *edge) {
	switch len(e.moves) {
	case 0:
	case 2:
		fr.regs[e.moves[0]] = m.get(fr, e.moves[1])
	default:
		if cap(m.buf) < len(e.moves) {
			m.buf = make([]Value, len(e.moves)*2)
		}
		b := m.buf[:0]
		for i := 1; i < len(e.moves); i += 2 {
			b = append(b, m.get(fr, e.moves[i]))
		}
		for i := 0; i < len(e.moves); i += 2 {
			fr.regs[e.moves[i]] = b[i/2]
		}
	}
	fr.pc = e.pc
}

func (m *Machine) pushArgs(c *Code, free []Value, caller *Frame, in *instr) {
	m.pushCall(c, free, nil, in.dst)
	nf := m.cur
	for i, a := range in.args {
		nf.regs[i] = m.get(caller, a)
	}
}

func (m *Machine) load(p Value, in *instr) Value {
	switch o := p.o.(type) {
	case *Obj:
		if m.sys.s[sysShare].n == 2 {
			m.read(o, o.birth)
		}
		if in.flag {
			return Value{o: &Agg{append(make([]Value, 0, in.n), o.s[p.n:int(p.n)+in.n]...)}}
		}
		v := o.s[p.n]
		if in.flag2 && v.o == nil && v.n == 0 {
			switch in.ty.Underlying().(*types.Pointer).Elem().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
				return Value{o: &Opaque{tag: in.name}}
			default:
				panic(unsupported("variable " + in.name))
			}
		}
		return v
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *SymPtr:
		if in.flag {
			i := m.concretize(vterm(o.idx), "aggregate load at symbolic index")
			off := o.off + int(i)*o.esize + o.sub
			return Value{o: &Agg{append(make([]Value, 0, in.n), o.obj.s[off:off+in.n]...)}}
		}
		return m.tableLoad(o)
	case *Opaque:
		panic(unsupported("load through opaque " + o.tag))
	}
	panic(unsupportedf("load through %T", p.o))
}

// tableLoad reads obj[off+idx*esize+sub] for a symbolic index.
func (m *Machine) tableLoad(o *SymPtr) Value {
	if o.idx.k == kFn && o.idx.v.dom.size() <= 70000 {
		ok := true
		img := o.idx.fn.image(o.idx.v.dom)
	outer:
		for _, r := range img {
			for x := r.lo; x <= r.hi; x++ {
				if x < 0 || x >= int64(o.n) {
					continue
				}
				if o.obj.s[o.off+int(x)*o.esize+o.sub].o != nil {
					ok = false
					break outer
				}
			}
		}
		if ok {
			fn := o.idx.fn.mapPoints(func(x int64) int64 {
				if x < 0 || x >= int64(o.n) {
					return 0
				}
				return o.obj.s[o.off+int(x)*o.esize+o.sub].n
			})
			return m.fnVal(o.idx.v, fn)
		}
	}
	i := m.concretize(vterm(o.idx), "load at symbolic index")
	return o.obj.s[o.off+int(i)*o.esize+o.sub]
}

func (m *Machine) fnVal(v *Var, fn *Fn) Value {
	if len(fn.ps) > 0 {
		c := fn.ps[0]
		same := !c.aff
		for _, p := range fn.ps {
			if p.aff || p.add != c.add {
				same = false
				break
			}
		}
		if same {
			return vint(c.add)
		}
	}
	return vterm(m.tt.intern(&Term{k: kFn, v: v, fn: fn}))
}

func (m *Machine) store(p, v Value, in *instr) {
	switch o := p.o.(type) {
	case *Obj:
		if in.flag {
			if a, ok := v.o.(*Agg); ok {
				for i, x := range a.s {
					m.set(o, int(p.n)+i, x)
				}
			} else {
				for i := 0; i < in.n; i++ {
					m.set(o, int(p.n)+i, Value{})
				}
			}
			return
		}
		m.set(o, int(p.n), v)
	case nil:
		m.throw("invalid memory address or nil pointer dereference")
	case *SymPtr:
		i := m.concretize(vterm(o.idx), "store at symbolic index")
		off := o.off + int(i)*o.esize + o.sub
		m.store(Value{o: o.obj, n: int64(off)}, v, in)
	default:
		panic(unsupportedf("store through %T", p.o))
	}
}

func (m *Machine) inBounds(idx Value, n int) {
	t := idx.sym()
	if t == nil {
		if idx.n < 0 || idx.n >= int64(n) {
			m.throw("index out of range")
		}
		return
	}
	c1, t1 := m.tt.cmp(kLt, t, m.tt.cst(0))
	if m.decideV(vcond(c1, t1)) {
		m.throw("index out of range")
	}
	c2, t2 := m.tt.cmp(kLt, t, m.tt.cst(int64(n)))
	if !m.decideV(vcond(c2, t2)) {
		m.throw("index out of range")
	}
}

func (m *Machine) indexAddr(in *instr, x, idx Value) Value {
	var obj *Obj
	var off, n int
	if in.flag {
		switch o := x.o.(type) {
		case *Obj:
			obj, off, n = o, int(x.n), in.n2
		case nil:
			m.throw("invalid memory address or nil pointer dereference")
		default:
			panic(unsupportedf("index through %T", x.o))
		}
	} else {
		if s, ok := x.o.(*Slice); ok {
			obj, off, n = s.obj, s.off, s.len
		} else if x.o != nil {
			panic(unsupportedf("index of %T", x.o))
		}
	}
	m.inBounds(idx, n)
	if t := idx.sym(); t != nil {
		return Value{o: &SymPtr{obj: obj, off: off, idx: t, esize: in.n, n: n}}
	}
	return Value{o: obj, n: int64(off) + idx.n*int64(in.n)}
}

func (m *Machine) index(in *instr, x, idx Value) Value {
	if in.n >= 0 { // array value
		a, _ := x.o.(*Agg)
		m.inBounds(idx, in.n2)
		if a == nil {
			return Value{}
		}
		if t := idx.sym(); t != nil {
			if in.flag {
				idx = vint(m.concretize(idx, "array index"))
			} else {
				return m.tableLoad(&SymPtr{obj: &Obj{s: a.s}, idx: t, esize: in.n, n: in.n2})
			}
		}
		o := int(idx.n) * in.n
		if in.flag {
			return Value{o: &Agg{a.s[o : o+in.n : o+in.n]}}
		}
		return a.s[o]
	}
	// string
	if s, ok := x.str(); ok {
		m.inBounds(idx, len(s))
		if t := idx.sym(); t != nil {
			o := &Obj{s: make([]Value, len(s))}
			for i := 0; i < len(s); i++ {
				o.s[i] = vint(int64(s[i]))
			}
			return m.tableLoad(&SymPtr{obj: o, idx: t, esize: 1, n: len(s)})
		}
		return vint(int64(s[idx.n]))
	}
	bs := m.strBytes(x)
	i := m.concretize(idx, "string index")
	if i < 0 || int(i) >= len(bs) {
		m.throw("index out of range")
	}
	return bs[i]
}

// strBytes gives the byte sequence of a symbolic string; symbolic runes that
// may be non-ASCII are split by a decision.
func (m *Machine) strBytes(v Value) []Value {
	rs := v.runes()
	out := make([]Value, 0, len(rs))
	for _, r := range rs {
		t := r.sym()
		if t == nil {
			var b [4]byte
			n := utf8.EncodeRune(b[:], rune(r.n))
			for _, x := range b[:n] {
				out = append(out, vint(int64(x)))
			}
			continue
		}
		c, ct := m.tt.cmp(kLt, t, m.tt.cst(0x80))
		if m.decideV(vcond(c, ct)) {
			out = append(out, r)
			continue
		}
		x := m.concretize(r, "non-ASCII byte access")
		var b [4]byte
		n := utf8.EncodeRune(b[:], rune(x))
		for _, y := range b[:n] {
			out = append(out, vint(int64(y)))
		}
	}
	return out
}

// bytesStr builds a string from bytes (symbolic bytes must be ASCII).
func (m *Machine) bytesStr(bs []Value) Value {
	allc := true
	for _, b := range bs {
		if b.o != nil {
			allc = false
			break
		}
	}
	if allc {
		x := make([]byte, len(bs))
		for i, b := range bs {
			x[i] = byte(b.n)
		}
		return vstr(string(x))
	}
	var rs []Value
	i32 := types.Typ[types.Int32]
	for i := 0; i < len(bs); {
		b := bs[i]
		if m.below(b, 0x80) {
			rs = append(rs, b)
			i++
			continue
		}
		n := 4
		switch {
		case m.below(b, 0xc0):
			n = 1
		case m.below(b, 0xe0):
			n = 2
		case m.below(b, 0xf0):
			n = 3
		}
		if i+n > len(bs) {
			n = len(bs) - i
		}
		conc := true
		var x []byte
		for _, c := range bs[i : i+n] {
			if c.o != nil {
				conc = false
			}
			x = append(x, byte(c.n))
		}
		if conc {
			r, k := utf8.DecodeRune(x)
			rs = append(rs, vint(int64(r)))
			i += k
			continue
		}
		if n != 2 && n != 3 {
			panic(unsupported("a byte of a character"))
		}
		r := m.arith(token.AND, b, vint(0xff>>(n+1)), i32)
		for _, c := range bs[i+1 : i+n] {
			if m.below(c, 0x80) || !m.below(c, 0xc0) {
				panic(unsupported("a byte of a character"))
			}
			r = m.arith(token.OR, m.arith(token.SHL, r, vint(6), i32), m.arith(token.AND, c, vint(0x3f), i32), i32)
		}
		rs = append(rs, r)
		i += n
	}
	return mkStr(rs)
}

// below decides whether a byte is less than k.
func (m *Machine) below(b Value, k int64) bool {
	t := b.sym()
	if t == nil {
		return b.n < k
	}
	c, ct := m.tt.cmp(kLt, t, m.tt.cst(k))
	return m.decideV(vcond(c, ct))
}

func (v Value) runesOrLazy() []Value { return v.runes() }

type rangeState struct {
	pos   *Obj // slot 0: position
	str   []Value
	mp    *Map
	order []int
}

func (m *Machine) next(in *instr, st *rangeState) Value {
	p := st.pos.s[0]
	if in.flag {
		if int(p.n) >= len(st.str) {
			return Value{o: &Agg{make([]Value, 3)}}
		}
		r := st.str[p.n]
		key := Value{}
		if in.flag2 {
			n := int64(0)
			for _, x := range st.str[:p.n] {
				t := x.sym()
				if t == nil {
					n += int64(utf8.RuneLen(rune(x.n)))
					continue
				}
				w := int64(4)
				for k, b := range []int64{0x80, 0x800, 0x10000} {
					c, ct := m.tt.cmp(kLt, t, m.tt.cst(b))
					if m.decideV(vcond(c, ct)) {
						w = int64(k + 1)
						break
					}
				}
				n += w
			}
			key = vint(n)
		}
		m.set(st.pos, 0, vint(p.n+1))
		return Value{o: &Agg{[]Value{vint(1), key, r}}}
	}
	if st.mp == nil {
		return Value{o: &Agg{make([]Value, 3)}}
	}
	i := int(p.n)
	for i < len(st.order) && !st.mp.ents[st.order[i]].live {
		i++
	}
	if i >= len(st.order) {
		return Value{o: &Agg{make([]Value, 3)}}
	}
	e := st.mp.ents[st.order[i]]
	m.set(st.pos, 0, vint(int64(i+1)))
	return Value{o: &Agg{[]Value{vint(1), e.k, e.v}}}
}

func (m *Machine) typeAssert(in *instr, v Value) Value {
	var dyn *Iface
	ok := false
	switch o := v.o.(type) {
	case nil:
	case *Iface:
		dyn = o
		if in.flag2 {
			ok = m.w.implements(o.t, in.ty)
		} else {
			ok = o.t == in.rt
		}
	case *Opaque:
		panic(unsupported("type assertion on opaque " + o.tag))
	}
	var res Value
	if ok {
		if in.flag2 {
			res = v
		} else {
			res = dyn.v
		}
	}
	if in.flag {
		return Value{o: &Agg{[]Value{res, vbool(ok)}}}
	}
	if !ok {
		d := "nil"
		if dyn != nil {
			d = dyn.t.t.String()
		}
		m.throw("interface conversion: interface is " + d + ", not " + in.ty.String())
	}
	return res
}

func (m *Machine) sliceOp(fr *Frame, in *instr) Value {
	x := m.get(fr, in.a)
	var lo, hi, mx Value
	hasLo, hasHi, hasMx := in.b != -1<<30, in.c != -1<<30, in.n2 != -1<<30
	if hasLo {
		lo = vint(m.concretize(m.get(fr, in.b), "slice bound"))
	}
	if hasHi {
		hi = vint(m.concretize(m.get(fr, in.c), "slice bound"))
	}
	if hasMx {
		mx = vint(m.concretize(m.get(fr, int32(in.n2)), "slice bound"))
	}
	if in.n < 0 { // string
		if s, ok := x.str(); ok {
			h := len(s)
			if hasHi {
				h = int(hi.n)
			}
			if lo.n < 0 || h < int(lo.n) || h > len(s) {
				m.throw("slice bounds out of range")
			}
			return vstr(s[lo.n:h])
		}
		bs := m.strBytes(x)
		h := len(bs)
		if hasHi {
			h = int(hi.n)
		}
		if lo.n < 0 || h < int(lo.n) || h > len(bs) {
			m.throw("slice bounds out of range")
		}
		return m.bytesStr(bs[lo.n:h])
	}
	var s Slice
	if in.flag {
		o, _ := x.o.(*Obj)
		if o == nil {
			m.throw("invalid memory address or nil pointer dereference")
		}
		n := int(in.args[0])
		s = Slice{obj: o, off: int(x.n), len: n, cap: n}
	} else if x.o == nil {
		if lo.n != 0 || hi.n != 0 || mx.n != 0 {
			m.throw("slice bounds out of range")
		}
		return Value{}
	} else {
		s = *x.o.(*Slice)
	}
	h := s.len
	if hasHi {
		h = int(hi.n)
	}
	c := s.cap
	if hasMx {
		c = int(mx.n)
		if c < 0 || c > s.cap {
			m.throw("slice bounds out of range")
		}
	}
	if lo.n < 0 || h < int(lo.n) || h > c {
		m.throw("slice bounds out of range")
	}
	return Value{o: &Slice{obj: s.obj, off: s.off + int(lo.n)*in.n, len: h - int(lo.n), cap: c - int(lo.n)}}
}
