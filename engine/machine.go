package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"
)

type Frame struct {
	code    *Code
	regs    []Value
	pc      int
	parent  *Frame
	birth   int64
	dst     int32
	depth   int
	defers  []deferred
	pan     *panicState // set while this frame runs defers because of a panic
	isDefer bool
}

type deferred struct {
	ins  *instr
	fn   Value
	args []Value
}

type panicState struct {
	val       Value
	msg       string
	recovered bool
}

type undo struct {
	kind uint8 // 0 slot, 1 map insert, 2 map update, 3 map delete, 4 dom
	obj  *Obj
	m    *Map
	i    int
	v    Value
	s    Set
}

type choice struct {
	frame   *Frame
	serial  int64
	trail   int
	decs    []int64 // in-instruction decisions to replay
	cond    *Term   // constraint of the alternative
	nvars   int
	nmulti  int
	npcs    int
	nobs    int
	nhist   int
	nfiles  int
	steps   int
	nvStart int
	gone    bool // alternative given away to another worker
	incomp  bool
}

type pcEnt struct {
	t       *Term
	implied bool
}

type obsEnt struct {
	tag string
	v   Value
}

type Machine struct {
	fmtForks     bool // a number may be split into its values for formatting
	w            *World
	tt           *TermTab
	sol          *Solver
	id           int
	globals      []*Obj
	cur          *Frame
	cps          []*choice
	pool         [poolRegs][]*Frame
	serial       int64
	cpSer        int64
	trail        []undo
	instDec      []int64
	replay       []int64
	vars         []*Var
	doms         []Set
	multi        []*Term
	pcs          []pcEnt
	obs          []obsEnt
	hist         []bool
	files        []vfile
	forced       []bool // job prefix
	sys          *Obj   // trailed engine flags
	steps        int
	limit        int
	maxDep       int
	incomp       bool // path was concretised / reduced
	ex           *Explorer
	model        Model // last satisfying model (may be stale; verified before use)
	buf          []Value
	seen         map[*Code]bool
	instrs       int64
	inInit       bool
	forks        int64
	reasons      map[string]int
	instDone     bool
	baseSer      int64
	locked       []any
	compMemo     map[compKey]Value
	nvStart, nvK int
}

const (
	sysMapOrder = iota
	sysMapCount
	sysTmp
	sysDepth
	sysPhase
	sysShare // 0, or what sv.Together watches: 1 writes, 2 also reads
	sysSince // objects older than this are shared
	sysLock  // locks held
	sysRec   // locations written under a lock
	sysN
)

type vfile struct {
	path Value
	rs   []Value
}

type outKind int

const (
	outDone outKind = iota
	outInfeasible
	outViolation
	outPanic
	outSteps
	outDepth
	outUnsup
	outRace
	outError
)

type outcome struct {
	kind outKind
	msg  string
}

type pathEnd struct{ o outcome }
type unwound struct{}

func newMachine(w *World, id int, ex *Explorer) *Machine {
	m := &Machine{w: w, id: id, ex: ex, tt: newTermTab(), sol: newSolver(), limit: 50000000, maxDep: 20000, seen: map[*Code]bool{}, reasons: map[string]int{}, compMemo: map[compKey]Value{}}
	m.sys = &Obj{birth: -1, s: make([]Value, sysN)}
	return m
}

func (m *Machine) newObj(n int) *Obj { return &Obj{birth: m.serial, s: make([]Value, n)} }

func (m *Machine) global(i int) *Obj {
	for len(m.globals) <= i {
		m.globals = append(m.globals, nil)
	}
	if m.globals[i] == nil {
		m.w.mu.Lock()
		n := m.w.globSz[i]
		m.w.mu.Unlock()
		m.globals[i] = &Obj{birth: -1, s: make([]Value, n)}
	}
	return m.globals[i]
}

func (m *Machine) get(fr *Frame, op int32) Value {
	if op >= 0 {
		return fr.regs[op]
	}
	if op > globBase {
		return fr.code.consts[-op-1]
	}
	return Value{o: m.global(int(globBase - op))}
}

// wrote, read: access to what is shared between the goroutines of
// sv.Together. A plain write is a race, as the other one writes there, too; a write under a
// lock is one if the same place is read without it.
func (m *Machine) wrote(place any, birth int64) {
	if birth >= m.sys.s[sysSince].n {
		return
	}
	if m.sys.s[sysLock].n == 0 {
		panic(pathEnd{outcome{outRace, m.cur.code.name + " changes a value shared with other goroutines"}})
	}
	n := int(m.sys.s[sysRec].n)
	for _, p := range m.locked[:n] {
		if p == place {
			return
		}
	}
	m.locked = append(m.locked[:n], place)
	m.sysSet(sysRec, vint(int64(n+1)))
}

func (m *Machine) read(place any, birth int64) {
	if birth >= m.sys.s[sysSince].n || m.sys.s[sysLock].n != 0 {
		return
	}
	for _, p := range m.locked[:m.sys.s[sysRec].n] {
		if p == place {
			panic(pathEnd{outcome{outRace, m.cur.code.name + " reads a value without the lock which others change it under"}})
		}
	}
}

func (m *Machine) set(o *Obj, i int, v Value) {
	if m.sys.s[sysShare].n != 0 && o != m.sys {
		m.wrote(o, o.birth)
	}
	if o.birth < m.cpSer {
		m.trail = append(m.trail, undo{kind: 0, obj: o, i: i, v: o.s[i]})
	}
	o.s[i] = v
}

func (m *Machine) sysGet(i int) Value    { return m.sys.s[i] }
func (m *Machine) sysSet(i int, v Value) { m.set(m.sys, i, v) }

func (m *Machine) writable(f *Frame) *Frame {
	if f.birth >= m.cpSer {
		return f
	}
	g := *f
	g.regs = append(make([]Value, 0, len(f.regs)), f.regs...)
	g.defers = f.defers[:len(f.defers):len(f.defers)]
	g.birth = m.serial
	if f.pan != nil {
		p := *f.pan
		g.pan = &p
	}
	return &g
}

// ---- decisions --------------------------------------------------------------

func (m *Machine) linked(v *Var) bool {
	for _, t := range m.multi {
		for _, x := range t.vars {
			if x == v {
				return true
			}
		}
	}
	return false
}

// slice collects the variables and multi-variable constraints connected to vs.
func (m *Machine) slice(vs []*Var) ([]*Var, []*Term) {
	in := map[*Var]bool{}
	var out []*Var
	for _, v := range vs {
		if !in[v] {
			in[v] = true
			out = append(out, v)
		}
	}
	used := make([]bool, len(m.multi))
	var ts []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range m.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				ts = append(ts, t)
				for _, v := range t.vars {
					if !in[v] {
						in[v] = true
						out = append(out, v)
					}
				}
			}
		}
	}
	return out, ts
}

func (m *Machine) dom(v *Var) Set { return m.doms[v.idx] }

// feasible asks the solver whether t can hold together with the path.
func (m *Machine) feasible(t *Term) int {
	vs, ts := m.slice(t.vars)
	if m.model != nil {
		ok := true
		for _, v := range vs {
			x, has := m.model[v]
			if !has || !m.dom(v).contains(x) {
				ok = false
				break
			}
		}
		if ok {
			for _, c := range ts {
				if !c.evalBool(m.model) {
					ok = false
					break
				}
			}
			if ok && t.evalBool(m.model) {
				return 1
			}
		}
	}
	r := m.sol.check(vs, m.dom, append(ts, t), true)
	if r.r == 1 && r.m != nil {
		nm := Model{}
		for k, v := range m.model {
			nm[k] = v
		}
		for k, v := range r.m {
			nm[k] = v
		}
		m.model = nm
	}
	if r.r < 0 {
		m.incomp = true
		m.reasons["solver unknown"]++
		return 1
	}
	return r.r
}

// status: 1 implied true, 0 implied false, 2 both feasible.
func (m *Machine) status(t *Term) int {
	switch t.k {
	case kSet:
		d := m.dom(t.v)
		if subset(d, t.set) {
			return 1
		}
		if disjoint(d, t.set) {
			return 0
		}
		if !m.linked(t.v) {
			return 2
		}
	case kNot:
		s := m.status(t.args[0])
		if s < 2 {
			return 1 - s
		}
		return 2
	case kAnd, kOr:
		all := true
		simple := true
		seen := map[*Var]bool{}
		for _, a := range t.args {
			if a.k == kSet {
				d := m.dom(a.v)
				sub, dis := subset(d, a.set), disjoint(d, a.set)
				if t.k == kAnd && dis {
					return 0
				}
				if t.k == kOr && sub {
					return 1
				}
				if t.k == kAnd && sub || t.k == kOr && dis {
					continue
				}
				all = false
				if seen[a.v] || m.linked(a.v) {
					simple = false
				}
				seen[a.v] = true
			} else {
				all = false
				simple = false
			}
		}
		if all {
			if t.k == kAnd {
				return 1
			}
			return 0
		}
		if simple {
			return 2
		}
	case kEq, kLt:
		a, b := t.args[0], t.args[1]
		if a.k == kFn && b.k == kFn {
			ia, ib := a.fn.image(m.dom(a.v)), b.fn.image(m.dom(b.v))
			if t.k == kEq {
				if disjoint(ia, ib) {
					return 0
				}
				x, ok1 := ia.single()
				y, ok2 := ib.single()
				if ok1 && ok2 && x == y {
					return 1
				}
			} else {
				if ia[len(ia)-1].hi < ib[0].lo {
					return 1
				}
				if ia[0].lo >= ib[len(ib)-1].hi {
					return 0
				}
			}
		}
	}
	for _, c := range m.multi {
		if c == t {
			return 1
		}
		if c.k == kNot && c.args[0] == t || t.k == kNot && t.args[0] == c {
			return 0
		}
	}
	p := m.feasible(t)
	q := m.feasible(m.tt.not(t))
	switch {
	case p == 1 && q == 1:
		return 2
	case p == 1:
		return 1
	case q == 1:
		return 0
	}
	panic(pathEnd{outcome{outInfeasible, "contradictory path"}})
}

func (m *Machine) constrain(t *Term) {
	switch t.k {
	case kSet:
		i := t.v.idx
		m.trail = append(m.trail, undo{kind: 4, i: i, s: m.doms[i]})
		m.doms[i] = inter(m.doms[i], t.set)
		return
	case kAnd:
		for _, a := range t.args {
			m.constrain(a)
		}
		return
	case kNot:
		if o := t.args[0]; o.k == kOr {
			for _, a := range o.args {
				m.constrain(m.tt.not(a))
			}
			return
		}
	}
	m.multi = append(m.multi, t)
}

func (m *Machine) addPC(t *Term) {
	m.pcs = append(m.pcs, pcEnt{t, false})
	m.constrain(t)
}

func (m *Machine) decideV(v Value) bool {
	if v.o == nil {
		return v.n != 0
	}
	t, ok := v.o.(*Term)
	if !ok {
		panic(unsupportedf("branch on %T", v.o))
	}
	return m.decide(t)
}

func (m *Machine) decide(t *Term) bool {
	if k := len(m.instDec); k < len(m.replay) {
		d := m.replay[k]
		m.instDec = append(m.instDec, d)
		return d != 0
	}
	switch m.status(t) {
	case 1:
		m.pcs = append(m.pcs, pcEnt{t, true})
		m.instDec = append(m.instDec, 1)
		return true
	case 0:
		m.pcs = append(m.pcs, pcEnt{m.tt.not(t), true})
		m.instDec = append(m.instDec, 0)
		return false
	}
	d := m.fork(t, append(append([]int64(nil), m.instDec...), 0))
	if d {
		m.instDec = append(m.instDec, 1)
	} else {
		m.instDec = append(m.instDec, 0)
	}
	return d
}

// fork takes the true side of t now (or the side the job prescribes) and
// leaves a choice point that resumes the current instruction with decs.
func (m *Machine) fork(t *Term, decs []int64) bool {
	m.forks++
	if k := len(m.hist); k < len(m.forced) {
		d := m.forced[k]
		m.hist = append(m.hist, d)
		if !d {
			t = m.tt.not(t)
		}
		m.addPC(t)
		return d
	}
	m.serial++
	cp := &choice{
		frame: m.cur, serial: m.serial, trail: len(m.trail),
		decs: decs, cond: m.tt.not(t),
		nvars: len(m.vars), nmulti: len(m.multi), npcs: len(m.pcs), nobs: len(m.obs),
		nhist: len(m.hist), nfiles: len(m.files), steps: m.steps, incomp: m.incomp, nvStart: m.nvStart,
	}
	m.cps = append(m.cps, cp)
	m.cpSer = m.serial
	m.cur = m.writable(m.cur)
	m.hist = append(m.hist, true)
	m.addPC(t)
	return true
}

func (m *Machine) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		u := &m.trail[i]
		switch u.kind {
		case 0:
			u.obj.s[u.i] = u.v
		case 1:
			mp := u.m
			last := len(mp.ents) - 1
			e := mp.ents[last]
			if !e.sym {
				k, _ := keyOf(e.k)
				delete(mp.idx, k)
			} else {
				mp.nsym--
			}
			mp.ents = mp.ents[:last]
			mp.live--
		case 2:
			u.m.ents[u.i].v = u.v
		case 3:
			e := &u.m.ents[u.i]
			e.live = true
			u.m.live++
			if !e.sym {
				k, _ := keyOf(e.k)
				u.m.idx[k] = u.i
			} else {
				u.m.nsym++
			}
		case 4:
			m.doms[u.i] = u.s
		}
		*u = undo{}
	}
	m.trail = m.trail[:n]
}

func (m *Machine) backtrack() bool {
	for len(m.cps) > 0 {
		cp := m.cps[len(m.cps)-1]
		m.cps = m.cps[:len(m.cps)-1]
		m.undoTo(cp.trail)
		if len(m.cps) > 0 {
			m.cpSer = m.cps[len(m.cps)-1].serial
		} else {
			m.cpSer = m.baseSer
		}
		m.vars = m.vars[:cp.nvars]
		m.doms = m.doms[:cp.nvars]
		m.multi = m.multi[:cp.nmulti]
		m.pcs = m.pcs[:cp.npcs]
		m.obs = m.obs[:cp.nobs]
		m.hist = m.hist[:cp.nhist]
		m.files = m.files[:cp.nfiles]
		m.steps = cp.steps
		m.incomp = cp.incomp
		if cp.gone {
			continue
		}
		m.serial++
		m.cur = m.writable(cp.frame)
		m.replay = cp.decs
		m.instDec = m.instDec[:0]
		m.instDone = false
		m.nvStart, m.nvK = cp.nvStart, 0
		m.hist = append(m.hist, false)
		m.addPC(cp.cond)
		return true
	}
	return false
}

// concretize forks over the values of an integer term (or, for large sets,
// picks one and marks the path as reduced).
func (m *Machine) concretize(v Value, why string) int64 {
	t := v.sym()
	if t == nil {
		return v.n
	}
	if k := len(m.instDec); k < len(m.replay) {
		x := m.replay[k]
		m.instDec = append(m.instDec, x)
		return x
	}
	for {
		var x int64
		small := false
		if t.k == kFn {
			img := t.fn.image(m.dom(t.v))
			x = img[0].lo
			small = img.size() <= 256
		}
		if !small || m.linked(t.v) {
			x = t.evalInt(m.pathModel())
		}
		c, ct := m.tt.cmp(kEq, t, m.tt.cst(x))
		if ct == nil {
			if !c {
				panic("concretize: model mismatch")
			}
			m.instDec = append(m.instDec, x)
			return x
		}
		if small {
			if m.status(ct) == 1 {
				m.pcs = append(m.pcs, pcEnt{ct, true})
				m.instDec = append(m.instDec, x)
				return x
			}
			if m.fork(ct, append([]int64(nil), m.instDec...)) {
				m.instDec = append(m.instDec, x)
				return x
			}
			continue
		}
		m.incomp = true
		m.reasons["concretised: "+why]++
		m.instDec = append(m.instDec, x)
		m.addPC(ct)
		return x
	}
}

// pathModel returns values for all variables satisfying the path.
func (m *Machine) pathModel() Model {
	mod := Model{}
	done := map[*Var]bool{}
	for _, t := range m.multi {
		if done[t.vars[0]] {
			continue
		}
		vs, ts := m.slice(t.vars)
		r := m.sol.check(vs, m.dom, ts, true)
		for _, v := range vs {
			done[v] = true
			if r.m != nil {
				mod[v] = r.m[v]
			} else {
				mod[v] = m.dom(v)[0].lo
			}
		}
	}
	for _, v := range m.vars {
		if !done[v] {
			d := m.dom(v)
			if len(d) == 0 {
				mod[v] = 0
				continue
			}
			mod[v] = d[0].lo
			if p := inter(d, Set{{'a', 'z'}}); len(p) > 0 && d[len(d)-1].hi > 255 {
				mod[v] = p[0].lo
			}
		}
	}
	return mod
}

// ---- panics -------------------------------------------------------------------

func (m *Machine) throw(msg string) {
	m.w.mu.Lock()
	rt := m.w.rtype(types.Typ[types.String])
	m.w.mu.Unlock()
	m.raise(Value{o: &Iface{rt, vstr(msg)}}, msg)
}

func (m *Machine) raise(v Value, msg string) {
	m.cur = m.writable(m.cur)
	m.cur.pan = &panicState{val: v, msg: msg}
	m.unwind()
	panic(unwound{})
}

// unwind continues panicking from m.cur (whose pan is set).
func (m *Machine) unwind() {
	for {
		fr := m.cur
		if len(fr.defers) > 0 {
			m.runDeferred()
			if m.cur == fr {
				continue // a modelled function: it has run already
			}
			return
		}
		if fr.pan.recovered {
			if fr.code.recPC >= 0 {
				fr.pan = nil
				fr.pc = fr.code.recPC
			} else {
				// no named results: return zero values
				fr.pan = nil
				m.ret(m.zeroResults(fr.code))
			}
			return
		}
		p := fr.pan
		par := fr.parent
		if par == nil {
			panic(pathEnd{outcome{outPanic, p.msg + " in " + m.where(fr)}})
		}
		// a panic leaving a deferred call replaces the outer one
		par = m.writable(par)
		if par.pan == nil {
			par.pan = &panicState{val: p.val, msg: p.msg}
			if !strings.Contains(p.msg, " @") {
				par.pan.msg = p.msg + " @" + m.where(fr)
			}
		} else {
			par.pan = &panicState{val: p.val, msg: p.msg}
		}
		m.cur = par
	}
}

func (m *Machine) where(fr *Frame) string {
	pc := fr.pc
	if pc >= len(fr.code.ins) {
		pc = len(fr.code.ins) - 1
	}
	s := fr.code.name
	if pc >= 0 && fr.code.ins[pc].src != nil {
		if p := fr.code.ins[pc].src.Pos(); p.IsValid() {
			ps := m.w.prog.Fset.Position(p)
			f := ps.Filename
			if i := strings.LastIndexByte(f, '/'); i >= 0 {
				f = f[i+1:]
			}
			s += fmt.Sprintf(" (%s:%d)", f, ps.Line)
		}
	}
	return s
}

func (m *Machine) zeroResults(c *Code) Value {
	switch c.nres {
	case 0, 1:
		return Value{}
	}
	return Value{o: &Agg{make([]Value, c.nres)}}
}

func (m *Machine) runDeferred() {
	fr := m.cur
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	m.callDeferred(d)
}

func (m *Machine) callDeferred(d deferred) {
	switch opcode(d.ins.c) {
	case oIntrin:
		d.ins.fn(m, d.ins, d.args)
		return
	case oBuiltin:
		panic(unsupported("deferred builtin " + d.ins.name))
	case oCall:
		m.pushCall(d.ins.code, nil, d.args, -1)
	case oCallDyn:
		cl, _ := d.fn.o.(*Closure)
		if cl == nil {
			m.throw("nil func deferred")
		}
		if cl.fn.intrin != nil {
			cl.fn.intrin(m, d.ins, d.args)
			return
		}
		m.pushCall(cl.fn, cl.free, d.args, -1)
	case oInvoke:
		rc, code := m.resolve(d.ins, d.fn)
		if code == nil {
			return // opaque
		}
		args := append([]Value{rc}, d.args...)
		if code.intrin != nil {
			code.intrin(m, d.ins, args)
			return
		}
		m.pushCall(code, nil, args, -1)
	}
	m.cur.isDefer = true
}

// resolve finds the method code for an invoke; nil code means opaque.
func (m *Machine) resolve(in *instr, recv Value) (Value, *Code) {
	switch o := recv.o.(type) {
	case nil:
		m.throw("invalid memory address or nil pointer dereference (method call on nil interface)")
	case *Iface:
		if _, ok := o.v.o.(*Opaque); ok {
			return o.v, nil
		}
		c := m.w.method(o.t, in.meth)
		if c == nil {
			panic(unsupportedf("no method %s on %s", in.meth.Name(), o.t.t))
		}
		return o.v, c
	case *Opaque:
		return recv, nil
	}
	panic(unsupportedf("invoke on %T", recv.o))
}

func (m *Machine) pushCall(c *Code, free, args []Value, dst int32) {
	if !c.compiled.Load() {
		m.w.ensure(c)
	}
	if !m.seen[c] {
		m.seen[c] = true
		if c.repo && !m.inInit {
			m.w.encoded.Store(c.name, true)
		}
	}
	var fr *Frame
	if n := len(c.nregsPool(m)); n > 0 {
		l := m.pool[c.nregs]
		fr = l[n-1]
		m.pool[c.nregs] = l[:n-1]
		regs := fr.regs
		clear(regs)
		*fr = Frame{code: c, parent: m.cur, birth: m.serial, dst: dst, regs: regs}
	} else {
		fr = &Frame{code: c, parent: m.cur, birth: m.serial, dst: dst, regs: make([]Value, c.nregs)}
	}
	if m.cur != nil {
		fr.depth = m.cur.depth + 1
		if fr.depth > m.maxDep {
			panic(pathEnd{outcome{outDepth, "recursion deeper than " + fmt.Sprint(m.maxDep) + " frames in " + c.name}})
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], free)
	m.cur = fr
}

// ret returns from m.cur.
func (m *Machine) ret(v Value) bool {
	fr := m.cur
	par := fr.parent
	if par == nil {
		m.cur = nil
		return true
	}
	par = m.writable(par)
	if fr.dst >= 0 {
		par.regs[fr.dst] = v
	}
	m.cur = par
	if fr.isDefer && par.pan != nil {
		m.unwind()
		return false
	}
	if fr.birth >= m.cpSer && fr.pan == nil && len(fr.regs) < poolRegs && len(m.pool[len(fr.regs)]) < 64 {
		// no checkpoint refers to it: the frame can be used again
		m.pool[len(fr.regs)] = append(m.pool[len(fr.regs)], fr)
	}
	return false
}

const poolRegs = 128

func (c *Code) nregsPool(m *Machine) []*Frame {
	if c.nregs < poolRegs {
		return m.pool[c.nregs]
	}
	return nil
}

// run executes until the path ends.
func (m *Machine) run() (out outcome) {
	for {
		again := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case unwound:
						m.instDone = true
						again = true
					case pathEnd:
						out = r.o
					case unsupported:
						out = outcome{outUnsup, string(r) + " in " + m.where(m.cur)}
					default:
						out = outcome{outError, fmt.Sprintf("engine: %v in %s\n%s", r, m.where(m.cur), debug.Stack())}
					}
				}
			}()
			m.loop()
		}()
		if !again {
			return out
		}
	}
}
