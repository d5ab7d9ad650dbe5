package main

import (
	"sort"
	"strconv"
	"strings"
)

// Var is one symbolic input.  idx is its creation index on the path.
type Var struct {
	uid  int
	idx  int
	name string
	dom  Set
}

// piece: for v in [lo,hi] the value is v+add (aff) or add (const).
type piece struct {
	lo, hi int64
	aff    bool
	add    int64
}

// Fn is a piecewise function of one variable, defined on the variable's
// initial domain.
type Fn struct {
	ps  []piece
	inv map[int64]Set // lazily built for large functions
}

type tkind uint8

const (
	kFn  tkind = iota // integer: fn(v)
	kSet              // bool: v in set
	kNot
	kAnd
	kOr
	kEq  // args[0] == args[1] (integers)
	kLt  // args[0] <  args[1]
	kAdd // integer ops on terms/consts
	kSub
	kMul // by a constant
	kCst // integer constant inside a general term
)

type Term struct {
	id   int
	k    tkind
	v    *Var
	fn   *Fn
	set  Set
	args []*Term
	c    int64
	vars []*Var // sorted by idx
}

// TermTab hash-conses terms; one per worker.
type TermTab struct {
	tab   map[string]*Term
	vars  map[string]*Var
	next  int
	nextV int
	buf   []byte
}

func newTermTab() *TermTab {
	return &TermTab{tab: map[string]*Term{}, vars: map[string]*Var{}}
}

func (tt *TermTab) mkVar(idx int, name string, dom Set) *Var {
	b := strconv.AppendInt(tt.buf[:0], int64(idx), 10)
	b = append(b, '|')
	b = append(b, name...)
	b = append(b, '|')
	b = dom.key(b)
	tt.buf = b
	if v, ok := tt.vars[string(b)]; ok {
		return v
	}
	v := &Var{uid: tt.nextV, idx: idx, name: name, dom: dom}
	tt.nextV++
	tt.vars[string(b)] = v
	return v
}

func (tt *TermTab) intern(t *Term) *Term {
	b := append(tt.buf[:0], byte('A'+t.k))
	switch t.k {
	case kFn:
		b = strconv.AppendInt(b, int64(t.v.uid), 36)
		b = append(b, ':')
		for _, p := range t.fn.ps {
			b = strconv.AppendInt(b, p.lo, 36)
			b = append(b, '-')
			b = strconv.AppendInt(b, p.hi, 36)
			if p.aff {
				b = append(b, '+')
			} else {
				b = append(b, '=')
			}
			b = strconv.AppendInt(b, p.add, 36)
			b = append(b, ',')
		}
	case kSet:
		b = strconv.AppendInt(b, int64(t.v.uid), 36)
		b = append(b, ':')
		b = t.set.key(b)
	case kCst:
		b = strconv.AppendInt(b, t.c, 36)
	default:
		for _, a := range t.args {
			b = strconv.AppendInt(b, int64(a.id), 36)
			b = append(b, ',')
		}
	}
	tt.buf = b
	if o, ok := tt.tab[string(b)]; ok {
		return o
	}
	tt.next++
	t.id = tt.next
	switch t.k {
	case kFn, kSet:
		t.vars = []*Var{t.v}
	case kCst:
	default:
		t.vars = mergeVars(t.args)
	}
	tt.tab[string(b)] = t
	return t
}

func mergeVars(args []*Term) []*Var {
	if len(args) == 1 {
		return args[0].vars
	}
	seen := map[*Var]bool{}
	var out []*Var
	for _, a := range args {
		for _, v := range a.vars {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].idx < out[j].idx })
	return out
}

// ---- piecewise functions -------------------------------------------------

func identFn(v *Var) *Fn {
	f := &Fn{}
	for _, r := range v.dom {
		f.ps = append(f.ps, piece{r.lo, r.hi, true, 0})
	}
	return f
}

func (tt *TermTab) varTerm(v *Var) *Term {
	return tt.intern(&Term{k: kFn, v: v, fn: identFn(v)})
}

func (p piece) at(x int64) int64 {
	if p.aff {
		return x + p.add
	}
	return p.add
}

func (f *Fn) at(x int64) int64 {
	i := sort.Search(len(f.ps), func(i int) bool { return f.ps[i].hi >= x })
	if i < len(f.ps) && f.ps[i].lo <= x {
		return f.ps[i].at(x)
	}
	return 0
}

func normFn(ps []piece) *Fn {
	out := ps[:0:0]
	for _, p := range ps {
		if p.lo == p.hi && p.aff {
			p = piece{p.lo, p.hi, false, p.lo + p.add}
		}
		if n := len(out); n > 0 {
			q := &out[n-1]
			if q.hi+1 == p.lo {
				if q.aff == p.aff && q.add == p.add {
					q.hi = p.hi
					continue
				}
				// const point continuing an affine run
				if q.aff && !p.aff && p.lo == p.hi && p.lo+q.add == p.add {
					q.hi = p.hi
					continue
				}
				if q.lo == q.hi && !q.aff && p.lo == p.hi && !p.aff && p.add == q.add+1 {
					*q = piece{q.lo, p.hi, true, q.add - q.lo}
					continue
				}
				if q.lo == q.hi && !q.aff && p.aff && q.add == q.lo+p.add {
					*q = piece{q.lo, p.hi, true, p.add}
					continue
				}
			}
		}
		out = append(out, p)
	}
	return &Fn{ps: out}
}

// image returns the values fn takes on dom.
func (f *Fn) image(dom Set) Set {
	var rs []rng
	for _, p := range f.ps {
		d := inter(Set{{p.lo, p.hi}}, dom)
		for _, r := range d {
			if p.aff {
				rs = append(rs, rng{r.lo + p.add, r.hi + p.add})
			} else {
				rs = append(rs, rng{p.add, p.add})
			}
		}
	}
	return normSet(rs)
}

// pre returns {v | fn(v) in s}.
func (f *Fn) pre(s Set) Set {
	if c, ok := s.single(); ok && len(f.ps) > 64 {
		if f.inv == nil {
			f.inv = map[int64]Set{}
		}
		if r, ok := f.inv[c]; ok {
			return r
		}
		r := f.pre0(s)
		f.inv[c] = r
		return r
	}
	return f.pre0(s)
}

func (f *Fn) pre0(s Set) Set {
	var rs []rng
	for _, p := range f.ps {
		if !p.aff {
			if s.contains(p.add) {
				rs = append(rs, rng{p.lo, p.hi})
			}
			continue
		}
		d := inter(Set{{p.lo + p.add, p.hi + p.add}}, s)
		for _, r := range d {
			rs = append(rs, rng{r.lo - p.add, r.hi - p.add})
		}
	}
	return normSet(rs)
}

// mapPoints applies g pointwise (domain must be small).
func (f *Fn) mapPoints(g func(int64) int64) *Fn {
	var ps []piece
	for _, p := range f.ps {
		if !p.aff {
			ps = append(ps, piece{p.lo, p.hi, false, g(p.add)})
			continue
		}
		for x := p.lo; x <= p.hi; x++ {
			ps = append(ps, piece{x, x, false, g(x + p.add)})
		}
	}
	return normFn(ps)
}

// compose applies the piecewise function g (over all relevant ints; identity
// elsewhere) to f.
func (f *Fn) compose(g []piece) *Fn {
	var ps []piece
	for _, p := range f.ps {
		if !p.aff {
			ps = append(ps, piece{p.lo, p.hi, false, applyPieces(g, p.add)})
			continue
		}
		lo, hi := p.lo+p.add, p.hi+p.add
		i := sort.Search(len(g), func(i int) bool { return g[i].hi >= lo })
		x := lo
		for x <= hi {
			if i >= len(g) || g[i].lo > hi {
				ps = append(ps, piece{x - p.add, hi - p.add, true, p.add})
				break
			}
			if g[i].lo > x {
				ps = append(ps, piece{x - p.add, g[i].lo - 1 - p.add, true, p.add})
				x = g[i].lo
			}
			e := g[i].hi
			if e > hi {
				e = hi
			}
			if g[i].aff {
				ps = append(ps, piece{x - p.add, e - p.add, true, p.add + g[i].add})
			} else {
				ps = append(ps, piece{x - p.add, e - p.add, false, g[i].add})
			}
			x = e + 1
			i++
		}
	}
	return normFn(ps)
}

func applyPieces(g []piece, x int64) int64 {
	i := sort.Search(len(g), func(i int) bool { return g[i].hi >= x })
	if i < len(g) && g[i].lo <= x {
		return g[i].at(x)
	}
	return x
}

// ---- boolean construction ------------------------------------------------
// Booleans are represented as (const, nil) or (_, term).

func (tt *TermTab) setTerm(v *Var, s Set) (bool, *Term) {
	s = inter(s, v.dom)
	if s.empty() {
		return false, nil
	}
	if setEq(s, v.dom) {
		return true, nil
	}
	return false, tt.intern(&Term{k: kSet, v: v, set: s})
}

func (tt *TermTab) not(t *Term) *Term {
	switch t.k {
	case kNot:
		return t.args[0]
	case kSet:
		_, r := tt.setTerm(t.v, minus(t.v.dom, t.set))
		return r
	}
	return tt.intern(&Term{k: kNot, args: []*Term{t}})
}

// and combines terms (nil-free); conj of same-var sets is intersected.
func (tt *TermTab) and(ts []*Term) (bool, *Term) { return tt.nary(kAnd, ts) }
func (tt *TermTab) or(ts []*Term) (bool, *Term)  { return tt.nary(kOr, ts) }

func (tt *TermTab) nary(k tkind, ts []*Term) (bool, *Term) {
	neutral := k == kAnd
	var flat []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.k == k {
			for _, a := range t.args {
				rec(a)
			}
		} else {
			flat = append(flat, t)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	sets := map[*Var]Set{}
	var order []*Var
	var rest []*Term
	seen := map[*Term]bool{}
	for _, t := range flat {
		if t.k == kSet {
			if s, ok := sets[t.v]; ok {
				if k == kAnd {
					sets[t.v] = inter(s, t.set)
				} else {
					sets[t.v] = union(s, t.set)
				}
			} else {
				sets[t.v] = t.set
				order = append(order, t.v)
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			rest = append(rest, t)
		}
	}
	var out []*Term
	for _, v := range order {
		c, t := tt.setTerm(v, sets[v])
		if t == nil {
			if c != neutral {
				return c, nil
			}
			continue
		}
		out = append(out, t)
	}
	out = append(out, rest...)
	if len(out) == 0 {
		return neutral, nil
	}
	if len(out) == 1 {
		return false, out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return false, tt.intern(&Term{k: k, args: out})
}

func (tt *TermTab) cst(c int64) *Term { return tt.intern(&Term{k: kCst, c: c}) }

// eq/lt on integer terms; either may be constant via cst.
func (tt *TermTab) cmp(k tkind, a, b *Term) (bool, *Term) {
	if a == b {
		return k == kEq, nil
	}
	if a.k == kCst && b.k == kCst {
		if k == kEq {
			return a.c == b.c, nil
		}
		return a.c < b.c, nil
	}
	if a.k == kFn && b.k == kCst {
		var s Set
		if k == kEq {
			s = point(b.c)
		} else {
			s = Set{{-1 << 62, b.c - 1}}
		}
		return tt.setTerm(a.v, a.fn.pre(s))
	}
	if a.k == kCst && b.k == kFn {
		var s Set
		if k == kEq {
			s = point(a.c)
		} else {
			s = Set{{a.c + 1, 1 << 62}}
		}
		return tt.setTerm(b.v, b.fn.pre(s))
	}
	if a.k == kFn && b.k == kFn {
		if a.v == b.v && a.v.dom.size() <= 70000 {
			var rs []rng
			for _, r := range a.v.dom {
				for x := r.lo; x <= r.hi; x++ {
					p, q := a.fn.at(x), b.fn.at(x)
					if (k == kEq && p == q) || (k == kLt && p < q) {
						rs = append(rs, rng{x, x})
					}
				}
			}
			return tt.setTerm(a.v, normSet(rs))
		}
		ia, ib := a.fn.image(a.v.dom), b.fn.image(b.v.dom)
		if k == kEq && disjoint(ia, ib) {
			return false, nil
		}
		if k == kLt {
			if ia[len(ia)-1].hi < ib[0].lo {
				return true, nil
			}
			if ia[0].lo >= ib[len(ib)-1].hi {
				return false, nil
			}
		}
	}
	if k == kEq && a.id > b.id {
		a, b = b, a
	}
	return false, tt.intern(&Term{k: k, args: []*Term{a, b}})
}

// bounds gives limits of an integer term's value; ok is false if they are not known
// to be far from overflowing.
func (t *Term) bounds() (lo, hi int64, ok bool) {
	const far = int64(1) << 61
	switch t.k {
	case kFn:
		img := t.fn.image(t.v.dom)
		if len(img) == 0 {
			return 0, 0, false
		}
		lo, hi = img[0].lo, img[len(img)-1].hi
	case kCst:
		lo, hi = t.c, t.c
	case kAdd, kSub, kMul:
		a, b, ok1 := t.args[0].bounds()
		c, d, ok2 := t.args[1].bounds()
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		switch t.k {
		case kAdd:
			lo, hi = a+c, b+d
		case kSub:
			lo, hi = a-d, b-c
		default:
			k := c // the constant
			if c != d {
				return 0, 0, false
			}
			if k != 0 && (a > far/abs(k) || a < -far/abs(k) || b > far/abs(k) || b < -far/abs(k)) {
				return 0, 0, false
			}
			lo, hi = a*k, b*k
			if lo > hi {
				lo, hi = hi, lo
			}
		}
	default:
		lo, hi = 0, 1
	}
	return lo, hi, lo > -far && hi < far
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// ---- evaluation under a model --------------------------------------------

type Model map[*Var]int64

func (t *Term) evalInt(m Model) int64 {
	switch t.k {
	case kFn:
		return t.fn.at(m[t.v])
	case kCst:
		return t.c
	case kAdd:
		return t.args[0].evalInt(m) + t.args[1].evalInt(m)
	case kSub:
		return t.args[0].evalInt(m) - t.args[1].evalInt(m)
	case kMul:
		return t.args[0].evalInt(m) * t.args[1].evalInt(m)
	}
	if t.evalBool(m) {
		return 1
	}
	return 0
}

func (t *Term) evalBool(m Model) bool {
	switch t.k {
	case kSet:
		return t.set.contains(m[t.v])
	case kNot:
		return !t.args[0].evalBool(m)
	case kAnd:
		for _, a := range t.args {
			if !a.evalBool(m) {
				return false
			}
		}
		return true
	case kOr:
		for _, a := range t.args {
			if a.evalBool(m) {
				return true
			}
		}
		return false
	case kEq:
		return t.args[0].evalInt(m) == t.args[1].evalInt(m)
	case kLt:
		return t.args[0].evalInt(m) < t.args[1].evalInt(m)
	}
	return t.evalInt(m) != 0
}

// ---- SMT-LIB printing ------------------------------------------------------

// Integers are SMT integers: values in harnesses stay far below the word size,
// so no operation on them wraps.
func bvc(c int64) string {
	if c < 0 {
		return "(- " + strconv.FormatUint(uint64(-c), 10) + ")"
	}
	return strconv.FormatInt(c, 10)
}

func setSMT(x string, s Set) string {
	var b strings.Builder
	if len(s) == 0 {
		return "false"
	}
	if len(s) > 1 {
		b.WriteString("(or")
	}
	for _, r := range s {
		if len(s) > 1 {
			b.WriteByte(' ')
		}
		if r.lo == r.hi {
			b.WriteString("(= " + x + " " + bvc(r.lo) + ")")
		} else {
			b.WriteString("(<= " + bvc(r.lo) + " " + x + " " + bvc(r.hi) + ")")
		}
	}
	if len(s) > 1 {
		b.WriteByte(')')
	}
	return b.String()
}

func (v *Var) smt() string {
	if v.uid < 0 {
		return v.name
	}
	return "v" + strconv.Itoa(v.uid)
}

func (t *Term) smt() string {
	switch t.k {
	case kSet:
		// print whichever of set / complement is shorter
		comp := minus(t.v.dom, t.set)
		if len(comp) < len(t.set) {
			return "(not " + setSMT(t.v.smt(), comp) + ")"
		}
		return setSMT(t.v.smt(), t.set)
	case kFn:
		x := t.v.smt()
		ps := t.fn.ps
		var b strings.Builder
		n := 0
		for i, p := range ps {
			val := bvc(p.add)
			if p.aff {
				if p.add == 0 {
					val = x
				} else {
					val = "(+ " + x + " " + bvc(p.add) + ")"
				}
			}
			if i == len(ps)-1 {
				b.WriteString(val)
			} else {
				b.WriteString("(ite (<= " + x + " " + bvc(p.hi) + ") " + val + " ")
				n++
			}
		}
		b.WriteString(strings.Repeat(")", n))
		return b.String()
	case kCst:
		return bvc(t.c)
	}
	op := map[tkind]string{kNot: "not", kAnd: "and", kOr: "or", kEq: "=", kLt: "<", kAdd: "+", kSub: "-", kMul: "*"}[t.k]
	var b strings.Builder
	b.WriteString("(" + op)
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(a.smt())
	}
	b.WriteByte(')')
	return b.String()
}
