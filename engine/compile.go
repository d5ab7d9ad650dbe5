package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	oNop opcode = iota
	oAlloc
	oBin
	oNot
	oNeg
	oCompl
	oLoad
	oStore
	oCall    // static
	oCallDyn // closure value
	oInvoke  // interface method
	oBuiltin
	oIntrin
	oMove // ChangeType, ChangeInterface
	oConvert
	oDefer
	oExtract
	oField
	oFieldAddr
	oIndex
	oIndexAddr
	oIf
	oJump
	oLookup
	oMakeClosure
	oMakeIface
	oMakeMap
	oMakeSlice
	oMapUpdate
	oNext
	oRange
	oPanic
	oReturn
	oRunDefers
	oSlice
	oTypeAssert
	oUnsup
	oSlice2Arr
)

type edge struct {
	pc    int
	moves []int32 // dst,src pairs
}

type instr struct {
	op      opcode
	flag    bool // meaning per op
	flag2   bool
	dst     int32
	a, b, c int32
	n       int // size / field offset / ...
	n2      int
	tok     token.Token
	ty      types.Type
	ty2     types.Type
	rt      *RType
	args    []int32
	e0, e1  edge
	code    *Code
	fn      intrinsic
	meth    *types.Func
	name    string
	src     ssa.Instruction
}

type Code struct {
	w        *World
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	nfree    int
	ins      []instr
	consts   []Value
	compiled atomic.Bool
	intrin   intrinsic
	native   intrinsic // used when all arguments are concrete
	recPC    int       // pc of recover block, -1
	repo     bool
	nres     int
	resTypes *types.Tuple
}

const globBase = -1 << 24

func (w *World) codeFor(fn *ssa.Function) *Code {
	if c, ok := w.code[fn]; ok {
		return c
	}
	c := &Code{w: w, fn: fn, name: fn.String(), recPC: -1}
	if o := fn.Origin(); o != nil {
		c.name = o.String()
	}
	w.code[fn] = c
	if r := redirects[c.name]; r != "" {
		if p := w.prog.ImportedPackage("tpharness/sv"); p != nil {
			if f := p.Func(r); f != nil {
				c.fn, fn = f, f
			}
		}
	}
	c.intrin = intrinsics[c.name]
	if c.intrin == nil && (strings.HasPrefix(c.name, "(*strings.Builder).") || strings.HasPrefix(c.name, "(*bytes.Buffer).")) {
		// their text is kept in a form of its own
		name := c.name
		c.intrin = func(*Machine, *instr, []Value) Value { panic(unsupported(name)) }
	}
	c.native = natives[c.name]
	if fn.Pkg != nil {
		c.repo = isRepoPkg(fn.Pkg.Pkg.Path())
	}
	c.nparams = len(fn.Params)
	c.nfree = len(fn.FreeVars)
	c.resTypes = fn.Signature.Results()
	c.nres = c.resTypes.Len()
	return c
}

// ensure compiles c on first use.
func (w *World) ensure(c *Code) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !c.compiled.Load() {
		w.compile(c)
		c.compiled.Store(true)
	}
}

func fnPackage(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if p := fn.Parent(); p != nil {
		return fnPackage(p)
	}
	return nil
}

func (w *World) compile(c *Code) {
	fn := c.fn
	if fn.Blocks == nil {
		if p := fnPackage(fn); p != nil {
			w.build(p)
		}
	}
	if fn.Blocks == nil {
		c.ins = []instr{{op: oUnsup, name: "no body: " + c.name}}
		c.nregs = len(fn.Params) + len(fn.FreeVars) + 1
		return
	}
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	c.nregs = int(n)
	constIdx := map[ssa.Value]int32{}
	addConst := func(v ssa.Value, val Value) int32 {
		if i, ok := constIdx[v]; ok && v != nil {
			return i
		}
		c.consts = append(c.consts, val)
		i := int32(-len(c.consts))
		if v != nil {
			constIdx[v] = i
		}
		return i
	}
	opnd := func(v ssa.Value) int32 {
		if r, ok := regs[v]; ok {
			return r
		}
		switch v := v.(type) {
		case *ssa.Const:
			return addConst(v, w.constVal(v))
		case *ssa.Global:
			return int32(globBase - w.globalIdx(v))
		case *ssa.Function:
			return addConst(v, Value{o: &Closure{fn: w.codeFor(v)}})
		case *ssa.Builtin:
			return addConst(v, Value{o: &Closure{bi: v}})
		}
		panic(unsupportedf("operand %T", v))
	}
	// tables of packages that are not initialised here
	uninit := func(v ssa.Value) {
		if g, ok := v.(*ssa.Global); ok && !initWanted(g.Pkg.Pkg.Path()) {
			panic(unsupportedf("variable %s.%s", g.Pkg.Pkg.Path(), g.Name()))
		}
	}
	starts := make([]int, len(fn.Blocks))
	type fix struct {
		pc  int
		blk *ssa.BasicBlock
	}
	var fixes []fix
	mkEdge := func(from, to *ssa.BasicBlock) edge {
		e := edge{pc: to.Index}
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		// a block may be a predecessor twice (both If edges): ssa gives each
		// its own index; phis agree only if edges identical, so handle below.
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.moves = append(e.moves, regs[ph], opnd(ph.Edges[pi]))
		}
		return e
	}
	mkEdgeN := func(from, to *ssa.BasicBlock, nth int) edge {
		e := edge{pc: to.Index}
		pi, k := -1, 0
		for i, p := range to.Preds {
			if p == from {
				if k == nth {
					pi = i
					break
				}
				k++
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.moves = append(e.moves, regs[ph], opnd(ph.Edges[pi]))
		}
		return e
	}
	for bi, b := range fn.Blocks {
		starts[bi] = len(c.ins)
		for _, in := range b.Instrs {
			i := instr{src: in}
			if v, ok := in.(ssa.Value); ok {
				i.dst = regs[v]
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							i = instr{op: oUnsup, name: string(u), src: in}
							return
						}
						panic(r)
					}
				}()
				switch x := in.(type) {
				case *ssa.Phi, *ssa.DebugRef:
					i.op = oNop
				case *ssa.Alloc:
					i.op = oAlloc
					i.n = slotsOf(x.Type().(*types.Pointer).Elem())
				case *ssa.BinOp:
					i.op = oBin
					i.tok = x.Op
					i.a, i.b = opnd(x.X), opnd(x.Y)
					i.ty = x.X.Type()
					i.ty2 = x.Y.Type()
				case *ssa.UnOp:
					i.a = opnd(x.X)
					i.ty = x.X.Type()
					switch x.Op {
					case token.NOT:
						i.op = oNot
					case token.SUB:
						i.op = oNeg
					case token.XOR:
						i.op = oCompl
					case token.MUL:
						i.op = oLoad
						et := x.Type()
						i.n = slotsOf(et)
						i.flag = isAgg(et)
						if g, ok := x.X.(*ssa.Global); ok && !initWanted(g.Pkg.Pkg.Path()) {
							i.flag2 = true
							i.name = g.Pkg.Pkg.Path() + "." + g.Name()
						}
					default:
						panic(unsupportedf("unop %s", x.Op))
					}
				case *ssa.Store:
					i.op = oStore
					i.a, i.b = opnd(x.Addr), opnd(x.Val)
					i.flag = isAgg(x.Val.Type())
					i.n = slotsOf(x.Val.Type())
				case *ssa.ChangeType:
					i.op, i.a = oMove, opnd(x.X)
				case *ssa.ChangeInterface:
					i.op, i.a = oMove, opnd(x.X)
				case *ssa.Convert:
					i.op, i.a = oConvert, opnd(x.X)
					i.ty, i.ty2 = x.X.Type(), x.Type()
				case *ssa.MultiConvert:
					i.op, i.a = oConvert, opnd(x.X)
					i.ty, i.ty2 = x.X.Type(), x.Type()
				case *ssa.Extract:
					i.op, i.a, i.n = oExtract, opnd(x.Tuple), x.Index
				case *ssa.Field:
					i.op, i.a = oField, opnd(x.X)
					st := x.X.Type().Underlying().(*types.Struct)
					i.n = fieldOff(st, x.Field)
					i.n2 = slotsOf(st.Field(x.Field).Type())
					i.flag = isAgg(st.Field(x.Field).Type())
				case *ssa.FieldAddr:
					uninit(x.X)
					i.op, i.a = oFieldAddr, opnd(x.X)
					st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					i.n = fieldOff(st, x.Field)
				case *ssa.Index:
					i.op, i.a, i.b = oIndex, opnd(x.X), opnd(x.Index)
					i.ty = x.X.Type()
					if at, ok := i.ty.Underlying().(*types.Array); ok {
						i.n = slotsOf(at.Elem())
						i.flag = isAgg(at.Elem())
						i.n2 = int(at.Len())
					} else {
						i.n = -1 // string
					}
				case *ssa.IndexAddr:
					uninit(x.X)
					i.op, i.a, i.b = oIndexAddr, opnd(x.X), opnd(x.Index)
					switch u := x.X.Type().Underlying().(type) {
					case *types.Slice:
						i.n = slotsOf(u.Elem())
					case *types.Pointer:
						at := u.Elem().Underlying().(*types.Array)
						i.n = slotsOf(at.Elem())
						i.n2 = int(at.Len())
						i.flag = true
					}
				case *ssa.If:
					i.op, i.a = oIf, opnd(x.Cond)
					if b.Succs[0] == b.Succs[1] {
						i.e0 = mkEdgeN(b, b.Succs[0], 0)
						i.e1 = mkEdgeN(b, b.Succs[1], 1)
					} else {
						i.e0 = mkEdge(b, b.Succs[0])
						i.e1 = mkEdge(b, b.Succs[1])
					}
					fixes = append(fixes, fix{len(c.ins), b})
				case *ssa.Jump:
					i.op = oJump
					i.e0 = mkEdge(b, b.Succs[0])
					fixes = append(fixes, fix{len(c.ins), b})
				case *ssa.Lookup:
					i.op, i.a, i.b = oLookup, opnd(x.X), opnd(x.Index)
					i.flag = x.CommaOk
					if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
						i.ty = mt
						i.n = slotsOf(mt.Elem())
						i.flag2 = isAgg(mt.Elem())
					} else {
						i.op, i.n = oIndex, -1
					}
				case *ssa.MakeClosure:
					i.op = oMakeClosure
					i.code = w.codeFor(x.Fn.(*ssa.Function))
					for _, bnd := range x.Bindings {
						i.args = append(i.args, opnd(bnd))
					}
				case *ssa.MakeInterface:
					i.op, i.a = oMakeIface, opnd(x.X)
					i.rt = w.rtype(x.X.Type())
				case *ssa.MakeMap:
					i.op = oMakeMap
				case *ssa.MakeSlice:
					i.op, i.a, i.b = oMakeSlice, opnd(x.Len), opnd(x.Cap)
					i.n = slotsOf(x.Type().Underlying().(*types.Slice).Elem())
				case *ssa.MapUpdate:
					i.op, i.a, i.b, i.c = oMapUpdate, opnd(x.Map), opnd(x.Key), opnd(x.Value)
					i.ty = x.Map.Type().Underlying().(*types.Map)
				case *ssa.Range:
					i.op, i.a = oRange, opnd(x.X)
					_, i.flag = x.X.Type().Underlying().(*types.Basic)
				case *ssa.Next:
					i.op, i.a = oNext, opnd(x.Iter)
					i.flag = x.IsString
					for _, r := range *x.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && len(*e.Referrers()) > 0 {
							i.flag2 = true
						}
					}
				case *ssa.Panic:
					i.op, i.a = oPanic, opnd(x.X)
				case *ssa.Return:
					i.op = oReturn
					for _, r := range x.Results {
						i.args = append(i.args, opnd(r))
					}
				case *ssa.RunDefers:
					i.op = oRunDefers
				case *ssa.Slice:
					i.op, i.a = oSlice, opnd(x.X)
					i.b, i.c = -1<<30, -1<<30
					i.n2 = -1 << 30
					if x.Low != nil {
						i.b = opnd(x.Low)
					}
					if x.High != nil {
						i.c = opnd(x.High)
					}
					if x.Max != nil {
						i.n2 = int(opnd(x.Max))
					}
					i.ty = x.X.Type()
					switch u := i.ty.Underlying().(type) {
					case *types.Slice:
						i.n = slotsOf(u.Elem())
					case *types.Pointer:
						at := u.Elem().Underlying().(*types.Array)
						i.n = slotsOf(at.Elem())
						i.flag = true
						i.args = []int32{int32(at.Len())}
					default:
						i.n = -1
					}
				case *ssa.SliceToArrayPointer:
					i.op, i.a = oSlice2Arr, opnd(x.X)
					i.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				case *ssa.TypeAssert:
					i.op, i.a = oTypeAssert, opnd(x.X)
					i.ty = x.AssertedType
					i.flag = x.CommaOk
					i.flag2 = types.IsInterface(x.AssertedType)
					if !i.flag2 {
						i.rt = w.rtype(x.AssertedType)
					}
				case *ssa.Call:
					w.compileCall(&i, x.Common(), opnd)
				case *ssa.Defer:
					w.compileCall(&i, x.Common(), opnd)
					i.code2defer()
				default:
					panic(unsupportedf("instruction %T", in))
				}
			}()
			if i.op == oNop {
				continue
			}
			c.ins = append(c.ins, i)
		}
	}
	for _, f := range fixes {
		in := &c.ins[f.pc]
		in.e0.pc = starts[in.e0.pc]
		in.e1.pc = starts[in.e1.pc]
	}
	if fn.Recover != nil {
		c.recPC = starts[fn.Recover.Index]
	}
}

// deferred calls keep their original op in tok-independent field c.
func (i *instr) code2defer() {
	i.c = int32(i.op)
	i.op = oDefer
}

func (w *World) compileCall(i *instr, cc *ssa.CallCommon, opnd func(ssa.Value) int32) {
	if cc.IsInvoke() {
		i.op = oInvoke
		i.a = opnd(cc.Value)
		i.meth = cc.Method
		i.ty = cc.Signature().Results()
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		i.op = oBuiltin
		i.name = b.Name()
		if len(cc.Args) > 0 {
			i.ty = cc.Args[0].Type()
			if s, ok := i.ty.Underlying().(*types.Slice); ok {
				i.n = slotsOf(s.Elem())
				i.flag = isAgg(s.Elem())
			}
			if len(cc.Args) > 1 {
				i.ty2 = cc.Args[1].Type()
			}
		}
	} else if f := cc.StaticCallee(); f != nil {
		i.code = w.codeFor(f)
		i.op = oCall
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			i.a = opnd(mc)
			i.op = oCallDyn
		} else if f.Synthetic == "package initializer" {
			i.op = oIntrin
			i.fn = nop
		} else if i.code.intrin != nil {
			i.op = oIntrin
			i.fn = i.code.intrin
		}
	} else {
		i.op = oCallDyn
		i.a = opnd(cc.Value)
	}
	for _, a := range cc.Args {
		i.args = append(i.args, opnd(a))
	}
}

func (w *World) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return Value{} // nil or zero
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupportedf("const of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vbool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return vstr(constant.StringVal(c.Value))
		}
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if n, ok := constant.Int64Val(v); ok {
			return vint(n)
		}
		if u, ok := constant.Uint64Val(v); ok {
			return vint(int64(u))
		}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return Value{o: f}
	}
	panic(unsupportedf("const %s", fmt.Sprint(c)))
}
