package main

import (
	"sort"
	"strconv"
)

// Set is a sorted list of disjoint, non-adjacent inclusive integer ranges.
type rng struct{ lo, hi int64 }
type Set []rng

func point(c int64) Set { return Set{{c, c}} }

func (s Set) empty() bool { return len(s) == 0 }

func (s Set) contains(x int64) bool {
	i := sort.Search(len(s), func(i int) bool { return s[i].hi >= x })
	return i < len(s) && s[i].lo <= x
}

func (s Set) size() int64 {
	var n int64
	for _, r := range s {
		n += r.hi - r.lo + 1
	}
	return n
}

func (s Set) single() (int64, bool) {
	if len(s) == 1 && s[0].lo == s[0].hi {
		return s[0].lo, true
	}
	return 0, false
}

func normSet(rs []rng) Set {
	if len(rs) == 0 {
		return nil
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
	out := rs[:0:0]
	cur := rs[0]
	for _, r := range rs[1:] {
		if r.lo <= cur.hi+1 {
			if r.hi > cur.hi {
				cur.hi = r.hi
			}
		} else {
			out = append(out, cur)
			cur = r
		}
	}
	return append(out, cur)
}

func inter(a, b Set) Set {
	var out Set
	if len(a) > 8*len(b) {
		a, b = b, a
	}
	if len(b) > 8*len(a) {
		for _, r := range a {
			i := sort.Search(len(b), func(i int) bool { return b[i].hi >= r.lo })
			for ; i < len(b) && b[i].lo <= r.hi; i++ {
				lo, hi := r.lo, r.hi
				if b[i].lo > lo {
					lo = b[i].lo
				}
				if b[i].hi < hi {
					hi = b[i].hi
				}
				out = append(out, rng{lo, hi})
			}
		}
		return out
	}
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := a[i].lo, a[i].hi
		if b[j].lo > lo {
			lo = b[j].lo
		}
		if b[j].hi < hi {
			hi = b[j].hi
		}
		if lo <= hi {
			out = append(out, rng{lo, hi})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func union(a, b Set) Set {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	rs := make([]rng, 0, len(a)+len(b))
	rs = append(rs, a...)
	rs = append(rs, b...)
	return normSet(rs)
}

// minus returns a \ b.
func minus(a, b Set) Set {
	var out Set
	j := 0
	for _, r := range a {
		lo := r.lo
		for j < len(b) && b[j].hi < lo {
			j++
		}
		k := j
		for lo <= r.hi {
			if k >= len(b) || b[k].lo > r.hi {
				out = append(out, rng{lo, r.hi})
				break
			}
			if b[k].lo > lo {
				out = append(out, rng{lo, b[k].lo - 1})
			}
			lo = b[k].hi + 1
			k++
		}
	}
	return out
}

func setEq(a, b Set) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func subset(a, b Set) bool {
	j := 0
	for _, r := range a {
		for j < len(b) && b[j].hi < r.lo {
			j++
		}
		if j >= len(b) || b[j].lo > r.lo || b[j].hi < r.hi {
			return false
		}
	}
	return true
}

func disjoint(a, b Set) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i].hi < b[j].lo {
			i++
		} else if b[j].hi < a[i].lo {
			j++
		} else {
			return false
		}
	}
	return true
}

func (s Set) key(b []byte) []byte {
	for _, r := range s {
		b = strconv.AppendInt(b, r.lo, 36)
		if r.hi != r.lo {
			b = append(b, '-')
			b = strconv.AppendInt(b, r.hi, 36)
		}
		b = append(b, ',')
	}
	return b
}

func (s Set) String() string { return string(s.key(nil)) }
