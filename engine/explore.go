package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type VecEnt struct {
	Name string `json:"n"`
	Val  int64  `json:"v"`
}

type Sample struct {
	Vec []VecEnt `json:"vec"`
	Obs []string `json:"obs"`
}

type Candidate struct {
	Kind string   `json:"kind"`
	Msg  string   `json:"msg"`
	Vec  []VecEnt `json:"vec"`
}

// Explorer runs one harness to completion with several workers.
type Explorer struct {
	w           *World
	entry       *Code
	workers     int
	deadline    time.Time
	mu          sync.Mutex
	cond        *sync.Cond
	queue       [][]bool
	idle        int
	needWork    atomic.Int32
	stop        atomic.Bool
	paths       atomic.Int64
	infeas      atomic.Int64
	unsup       atomic.Int64
	incomp      atomic.Int64
	assertsSym  atomic.Int64
	assertsConc atomic.Int64
	steps       atomic.Int64
	forks       atomic.Int64
	covers      map[string]int
	unsupWhy    map[string]int
	reasons     map[string]int
	cands       []Candidate
	candSeen    map[string]int
	samples     []Sample
	nsample     int
	sampleSeen  int64
	maxCands    int
	timedOut    bool
	sols        []*Solver
	certs       atomic.Int64
	certFail    atomic.Int64
	vcs         atomic.Int64
	fullVCs     atomic.Int64
	maxVars     int
	stepLimit   int
	err         string
}

func (ex *Explorer) cover(s string) {
	ex.mu.Lock()
	ex.covers[s]++
	ex.mu.Unlock()
}

func newExplorer(w *World, fn *ssa.Function, workers int, budget time.Duration) *Explorer {
	ex := &Explorer{w: w, workers: workers, covers: map[string]int{}, unsupWhy: map[string]int{}, candSeen: map[string]int{}, reasons: map[string]int{}, maxCands: 24, nsample: 400, stepLimit: 4000000}
	ex.cond = sync.NewCond(&ex.mu)
	ex.deadline = time.Now().Add(budget)
	w.mu.Lock()
	ex.entry = w.codeFor(fn)
	w.mu.Unlock()
	return ex
}

// initMachine runs package initialisers (concrete).
func (m *Machine) runInits() error {
	m.inInit = true
	defer func() { m.inInit = false }()
	order := m.w.initOrder()
	for _, f := range order {
		m.steps = 0
		m.cur = nil
		m.w.mu.Lock()
		c := m.w.codeFor(f)
		m.w.mu.Unlock()
		m.pushCall(c, nil, nil, -1)
		m.instDone = true
		if out := m.run(); out.kind != outDone {
			return fmt.Errorf("init %s: %s", c.name, out.msg)
		}
	}
	m.serial = 1
	m.trail = m.trail[:0]
	return nil
}

// initOrder lists the init functions of wanted packages in dependency order.
// The synthetic init functions call their imports' init; those calls are
// intercepted (see compileCall users): we simply mark the guard variables by
// making package init functions of other packages intrinsics.
func (w *World) initOrder() []*ssa.Function {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.inits != nil {
		return w.inits
	}
	seen := map[*types.Package]bool{}
	var out []*ssa.Function
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if !initWanted(p.Path()) {
			return
		}
		sp := w.prog.Package(p)
		if sp == nil {
			return
		}
		w.build(sp)
		out = append(out, sp.Func("init"))
	}
	visit(w.entry.Pkg)
	w.inits = out
	return out
}

func (ex *Explorer) run() {
	initUnicode()
	ex.queue = [][]bool{nil}
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ex.worker(i)
		}()
	}
	wg.Wait()
}

func (ex *Explorer) worker(id int) {
	m := newMachine(ex.w, id, ex)
	ex.mu.Lock()
	ex.sols = append(ex.sols, m.sol)
	ex.mu.Unlock()
	defer m.sol.close()
	if err := m.runInits(); err != nil {
		ex.mu.Lock()
		ex.err = err.Error()
		ex.mu.Unlock()
		ex.stop.Store(true)
		ex.cond.Broadcast()
		return
	}
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && !ex.stop.Load() {
			ex.idle++
			ex.needWork.Store(int32(ex.idle))
			if ex.idle == ex.workers {
				ex.stop.Store(true)
				ex.cond.Broadcast()
				break
			}
			ex.cond.Wait()
			ex.idle--
			ex.needWork.Store(int32(ex.idle))
		}
		if ex.stop.Load() {
			ex.mu.Unlock()
			break
		}
		job := ex.queue[0]
		ex.queue = ex.queue[1:]
		ex.mu.Unlock()
		ex.runJob(m, job)
	}
	ex.forks.Add(m.forks)
	ex.mu.Lock()
	for k, v := range m.reasons {
		ex.reasons[k] += v
	}
	ex.mu.Unlock()
}

func (ex *Explorer) runJob(m *Machine, prefix []bool) {
	// back to the base state
	m.undoTo(0)
	m.cps = m.cps[:0]
	m.serial++
	m.cpSer = m.serial // everything older is trailed
	base := m.cpSer
	_ = base
	m.vars, m.doms, m.multi, m.pcs = m.vars[:0], m.doms[:0], m.multi[:0], m.pcs[:0]
	m.obs, m.hist, m.files = m.obs[:0], m.hist[:0], m.files[:0]
	m.forced = prefix
	m.steps = 0
	m.incomp = false
	m.model = nil
	m.limit = ex.stepLimit
	m.baseSer = m.serial
	m.cur = nil
	m.instDec = m.instDec[:0]
	m.replay = nil
	m.instDone = true
	m.pushCall(ex.entry, nil, nil, -1)
	for {
		st := m.steps
		out := m.run()
		ex.steps.Add(int64(m.steps - st))
		ex.finish(m, out)
		if ex.stop.Load() {
			return
		}
		if time.Now().After(ex.deadline) {
			ex.mu.Lock()
			ex.timedOut = true
			ex.mu.Unlock()
			ex.stop.Store(true)
			ex.cond.Broadcast()
			return
		}
		if ex.needWork.Load() > 0 {
			ex.donate(m)
		}
		if !m.backtrack() {
			return
		}
	}
}

// donate gives the shallowest open alternative to another worker.
func (ex *Explorer) donate(m *Machine) {
	n := 0
	for _, cp := range m.cps {
		if cp.gone {
			continue
		}
		n++
	}
	if n < 2 {
		return
	}
	for _, cp := range m.cps {
		if cp.gone {
			continue
		}
		job := append(append([]bool(nil), m.hist[:cp.nhist]...), false)
		cp.gone = true
		ex.mu.Lock()
		ex.queue = append(ex.queue, job)
		ex.mu.Unlock()
		ex.cond.Signal()
		return
	}
}

func (m *Machine) vector() []VecEnt {
	mod := m.pathModel()
	out := make([]VecEnt, len(m.vars))
	for i, v := range m.vars {
		out[i] = VecEnt{v.name, mod[v]}
	}
	return out
}

func (m *Machine) evalStr(v Value, mod Model) (string, bool) {
	s, ok := v.o.(*Str)
	if !ok {
		return "", true
	}
	if s.lazy != nil {
		return "", false
	}
	if s.rs == nil {
		return s.s, true
	}
	var b strings.Builder
	for _, r := range s.rs {
		if t := r.sym(); t != nil {
			b.WriteRune(rune(t.evalInt(mod)))
		} else {
			b.WriteRune(rune(r.n))
		}
	}
	return b.String(), true
}

func (ex *Explorer) finish(m *Machine, out outcome) {
	if len(m.vars) > 0 {
		ex.mu.Lock()
		if len(m.vars) > ex.maxVars {
			ex.maxVars = len(m.vars)
		}
		ex.mu.Unlock()
	}
	switch out.kind {
	case outInfeasible:
		ex.infeas.Add(1)
		return
	case outDone:
		ex.paths.Add(1)
		if m.incomp {
			ex.incomp.Add(1)
		}
		ex.certify(m)
		n := atomic.AddInt64(&ex.sampleSeen, 1)
		take := n <= 40
		if !take {
			h := fnv.New32a()
			for _, d := range m.hist {
				if d {
					h.Write([]byte{1})
				} else {
					h.Write([]byte{0})
				}
			}
			x := h.Sum32() % uint32(n+1)
			take = int(x) < ex.nsample/4
		}
		if take {
			mod := m.pathModel()
			s := Sample{Vec: m.vector()}
			for _, o := range m.obs {
				t, ok := m.evalStr(o.v, mod)
				if !ok {
					t = "?"
				}
				s.Obs = append(s.Obs, o.tag+"="+t)
			}
			ex.mu.Lock()
			if len(ex.samples) < ex.nsample {
				ex.samples = append(ex.samples, s)
			} else {
				ex.samples[int(n)%ex.nsample] = s
			}
			ex.mu.Unlock()
		}
		return
	case outUnsup, outError:
		ex.unsup.Add(1)
		ex.mu.Lock()
		w := out.msg
		if len(w) > 1500 {
			w = w[:1500]
		}
		ex.unsupWhy[w]++
		ex.mu.Unlock()
		return
	}
	ex.paths.Add(1)
	kind := map[outKind]string{outViolation: "assert", outPanic: "panic", outSteps: "steps", outDepth: "depth", outRace: "race"}[out.kind]
	key := kind + ":" + canonMsg(out.msg)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.candSeen[key]++
	if ex.candSeen[key] > 3 || len(ex.cands) >= ex.maxCands {
		if len(ex.cands) >= ex.maxCands {
			ex.stop.Store(true)
			ex.cond.Broadcast()
		}
		return
	}
	ex.cands = append(ex.cands, Candidate{kind, out.msg, m.vector()})
}

func canonMsg(s string) string {
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// certify hands the path's verification condition to the solver:
//
//	(a) initial domains /\ path condition is satisfiable (not vacuous);
//	(b) initial domains /\ path condition /\ not(implied branch conditions and
//	    assertions) is unsatisfiable.
//
// both sliced into independent components of variables.
func (ex *Explorer) certify(m *Machine) {
	comp := map[*Var]int{}
	var parent []int
	var find func(i int) int
	find = func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	for i, v := range m.vars {
		comp[v] = i
		parent = append(parent, i)
	}
	for _, p := range m.pcs {
		for _, v := range p.t.vars[1:] {
			parent[find(comp[v])] = find(comp[p.t.vars[0]])
		}
	}
	type grp struct {
		vars []*Var
		pcs  []*Term
		imp  []*Term
	}
	gs := map[int]*grp{}
	for i, v := range m.vars {
		r := find(i)
		if gs[r] == nil {
			gs[r] = &grp{}
		}
		gs[r].vars = append(gs[r].vars, v)
	}
	for _, p := range m.pcs {
		if len(p.t.vars) == 0 {
			continue
		}
		g := gs[find(comp[p.t.vars[0]])]
		l := &g.pcs
		if p.implied {
			l = &g.imp
		}
		*l = append(*l, p.t)
	}
	init := func(v *Var) Set { return v.dom }
	for _, g := range gs {
		if len(g.pcs) == 0 && len(g.imp) == 0 {
			continue
		}
		g.pcs = dedup(g.pcs)
		g.imp = dedup(g.imp)
		ex.vcs.Add(2)
		if n := ex.vcs.Load() / 2; n <= 1000 || n%64 == 0 && ex.fullVCs.Load() < 4000 {
			ex.certifyFull(m, g.vars, g.pcs, g.imp)
		}
		// single-variable components: the path condition is one set; the
		// query is posed on it directly so that it can be cached.
		pcs := g.pcs
		if len(g.vars) == 1 && len(pcs) > 1 {
			c, t := m.tt.and(pcs)
			if t != nil {
				pcs = []*Term{t}
			} else if !c {
				ex.certFail.Add(1)
				continue
			}
		}
		if r := m.sol.check(g.vars, init, pcs, false); r.r == 0 {
			ex.certFail.Add(1)
		} else if r.r < 0 {
			m.incomp = true
		}
		if len(g.imp) > 0 {
			c, t := m.tt.and(g.imp)
			var neg []*Term
			if t == nil {
				if c {
					continue
				}
			} else {
				neg = []*Term{m.tt.not(t)}
			}
			if r := m.sol.check(g.vars, init, append(append([]*Term(nil), pcs...), neg...), false); r.r == 1 {
				ex.certFail.Add(1)
			}
		}
	}
	ex.certs.Add(1)
}

// certifyFull poses the two conditions as they were recorded, over the full
// alphabets, with no reduction and no cache.
func (ex *Explorer) certifyFull(m *Machine, vars []*Var, pcs, imp []*Term) {
	ex.fullVCs.Add(1)
	vs := append([]*Var(nil), vars...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].uid < vs[j].uid })
	init := func(v *Var) Set { return v.dom }
	if r := m.sol.ask(vs, init, pcs); r.r == 0 {
		ex.certFail.Add(1)
	}
	if len(imp) > 0 {
		c, t := m.tt.and(imp)
		if t == nil && c {
			return
		}
		ts := append([]*Term(nil), pcs...)
		if t != nil {
			ts = append(ts, m.tt.not(t))
		}
		if r := m.sol.ask(vs, init, ts); r.r == 1 {
			ex.certFail.Add(1)
		}
	}
}

func dedup(ts []*Term) []*Term {
	if len(ts) < 2 {
		return ts
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	out := ts[:1]
	for _, t := range ts[1:] {
		if t != out[len(out)-1] {
			out = append(out, t)
		}
	}
	return out
}
