package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Solver drives one incremental "z3 -in" process.
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	queries  int
	sat      int
	unsat    int
	unknown  int
	errs     int
	cacheHit int
	dur      time.Duration
	cache    map[string]satRes
	certHit  int
	dead     bool
}

type satRes struct {
	r int // 1 sat, 0 unsat, -1 unknown
	m Model
}

var solverPath = "z3"

func newSolver() *Solver {
	s := &Solver{cache: map[string]satRes{}}
	s.start()
	return s
}

func (s *Solver) start() {
	cmd := exec.Command(solverPath, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReader(out)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :rlimit 20000000)\n(set-logic QF_LIA)\n")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// check decides sat(/\ dom(v) /\ ts).  vars must include all vars of ts.
// doms gives the domain asserted for each var.
func (s *Solver) check(vars []*Var, dom func(*Var) Set, ts []*Term, wantModel bool) satRes {
	vs := append([]*Var(nil), vars...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].uid < vs[j].uid })
	if onlySets(ts) {
		return s.checkSets(vs, dom, ts)
	}
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.id
	}
	sort.Ints(ids)
	var kb []byte
	for _, v := range vs {
		kb = strconv.AppendInt(kb, int64(v.uid), 36)
		kb = append(kb, ':')
		kb = dom(v).key(kb)
		kb = append(kb, ';')
	}
	for _, i := range ids {
		kb = strconv.AppendInt(kb, int64(i), 36)
		kb = append(kb, ' ')
	}
	key := string(kb)
	if r, ok := s.cache[key]; ok && (!wantModel || r.r != 1 || r.m != nil) {
		s.cacheHit++
		return r
	}
	res := s.ask(vs, dom, ts)
	s.cache[key] = res
	return res
}

func onlySets(ts []*Term) bool {
	for _, t := range ts {
		switch t.k {
		case kSet:
		case kNot, kAnd, kOr:
			if !onlySets(t.args) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// checkSets decides a conjunction of Boolean combinations of set constraints.
// Each variable's alphabet is first reduced to its minterms (values that no
// constraint of the query tells apart are one class); the solver then decides
// the same formula over class numbers.  Results are cached up to renaming and
// shared by all workers; one query in 64 is also posed over the full alphabet
// and compared.
func (s *Solver) checkSets(vs []*Var, dom func(*Var) Set, ts []*Term) satRes {
	type red struct {
		name  string
		sets  []Set
		index map[*Term]int
		rep   []int64
		sigs  []string
	}
	rs := map[*Var]*red{}
	for i, v := range vs {
		rs[v] = &red{name: "x" + strconv.Itoa(i), sets: []Set{dom(v)}, index: map[*Term]int{}}
	}
	var collect func(t *Term)
	collect = func(t *Term) {
		if t.k == kSet {
			r := rs[t.v]
			if _, ok := r.index[t]; !ok {
				r.index[t] = len(r.sets)
				r.sets = append(r.sets, t.set)
			}
			return
		}
		for _, a := range t.args {
			collect(a)
		}
	}
	for _, t := range ts {
		collect(t)
	}
	var b strings.Builder
	atom := func(r *red, k int) {
		b.WriteString("(or false")
		for c, sig := range r.sigs {
			if sig[k] == 1 {
				b.WriteString(" (= " + r.name + " " + strconv.Itoa(c) + ")")
			}
		}
		b.WriteByte(')')
	}
	for _, v := range vs {
		r := rs[v]
		var cuts []int64
		for _, x := range r.sets {
			for _, g := range x {
				cuts = append(cuts, g.lo, g.hi+1)
			}
		}
		sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
		class := map[string]bool{}
		pos := make([]int, len(r.sets))
		sig := make([]byte, len(r.sets))
		for i, c := range cuts {
			if i > 0 && cuts[i-1] == c {
				continue
			}
			for k, x := range r.sets {
				for pos[k] < len(x) && x[pos[k]].hi < c {
					pos[k]++
				}
				sig[k] = 0
				if pos[k] < len(x) && x[pos[k]].lo <= c {
					sig[k] = 1
				}
			}
			if !class[string(sig)] {
				class[string(sig)] = true
				r.rep = append(r.rep, c)
				r.sigs = append(r.sigs, string(sig))
			}
		}
		fmt.Fprintf(&b, "(declare-const %s Int)\n(assert (<= 0 %s %d))\n(assert ", r.name, r.name, len(r.rep))
		atom(r, 0)
		b.WriteString(")\n")
	}
	var show func(t *Term)
	show = func(t *Term) {
		if t.k == kSet {
			r := rs[t.v]
			atom(r, r.index[t])
			return
		}
		b.WriteString("(" + map[tkind]string{kNot: "not", kAnd: "and", kOr: "or"}[t.k])
		for _, a := range t.args {
			b.WriteByte(' ')
			show(a)
		}
		b.WriteByte(')')
	}
	for _, t := range ts {
		b.WriteString("(assert ")
		show(t)
		b.WriteString(")\n")
	}
	key := b.String()
	sharedMu.Lock()
	e := shared[key]
	if e == nil {
		e = &sharedEnt{}
		shared[key] = e
	}
	sharedMu.Unlock()
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.done {
		s.cacheHit++
	} else {
		xs := make([]*Var, len(vs))
		for i := range vs {
			xs[i] = &Var{uid: -1, name: "x" + strconv.Itoa(i)}
		}
		r := s.askText(xs, key)
		e.done, e.r = true, r.r
		if r.r == 1 {
			for _, x := range xs {
				e.val = append(e.val, r.m[x])
			}
		}
		if s.queries%64 == 1 {
			if full := s.ask(vs, dom, ts); full.r >= 0 && full.r != r.r {
				s.errs++
			}
		}
	}
	r := satRes{r: e.r}
	if e.r == 1 {
		r.m = Model{}
		for i, v := range vs {
			if x := rs[v]; e.val[i] < 0 || int(e.val[i]) >= len(x.rep) {
				s.errs++
				return satRes{r: -1}
			} else {
				r.m[v] = x.rep[e.val[i]]
			}
		}
	}
	return r
}

type sharedEnt struct {
	mu   sync.Mutex
	done bool
	r    int
	val  []int64
}

var (
	sharedMu sync.Mutex
	shared   = map[string]*sharedEnt{}
)

func (s *Solver) ask(vs []*Var, dom func(*Var) Set, ts []*Term) satRes {
	var b strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&b, "(declare-const %s Int)\n", v.smt())
		b.WriteString("(assert " + setSMT(v.smt(), dom(v)) + ")\n")
	}
	for _, t := range ts {
		b.WriteString("(assert " + t.smt() + ")\n")
	}
	return s.askText(vs, b.String())
}

func (s *Solver) askText(vs []*Var, body string) satRes {
	t0 := time.Now()
	res := satRes{r: -1}
	io.WriteString(s.in, "(push)\n"+body+"(check-sat)\n")
	line := s.readLine()
	switch line {
	case "sat":
		res.r = 1
	case "unsat":
		res.r = 0
	default:
		if strings.Contains(line, "error") {
			s.errs++
		}
	}
	if res.r == 1 && len(vs) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vs {
			q.WriteString(v.smt() + " ")
		}
		q.WriteString("))\n")
		io.WriteString(s.in, q.String())
		txt := s.readSexp()
		res.m = Model{}
		parseModel(txt, vs, res.m)
	}
	io.WriteString(s.in, "(pop)\n")
	s.dur += time.Since(t0)
	s.queries++
	switch res.r {
	case 1:
		s.sat++
	case 0:
		s.unsat++
	default:
		s.unknown++
	}
	if s.dead {
		s.close()
		s.dead = false
		s.start()
	}
	return res
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "(error eof)"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readSexp() string {
	var b strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return b.String()
		}
		b.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			return b.String()
		}
	}
}

func parseModel(txt string, vs []*Var, m Model) {
	byName := map[string]*Var{}
	for _, v := range vs {
		byName[v.smt()] = v
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i++ {
		v, ok := byName[f[i]]
		if !ok {
			continue
		}
		val := f[i+1]
		neg := false
		if val == "-" && i+2 < len(f) {
			neg = true
			val = f[i+2]
		}
		x, _ := strconv.ParseInt(val, 10, 64)
		if neg {
			x = -x
		}
		m[v] = x
	}
}
