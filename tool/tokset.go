package main

import (
	"math/bits"
	"sort"
	"strings"
)

// TokSet is a set of token types; bit 0 is EOF.
type TokSet [3]uint64

func (s TokSet) Has(t int) bool { return t >= 0 && t < 192 && s[t/64]>>(uint(t)%64)&1 == 1 }
func (s *TokSet) Add(t int)     { s[t/64] |= 1 << (uint(t) % 64) }
func (s TokSet) Union(o TokSet) TokSet {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}
func (s TokSet) Inter(o TokSet) TokSet {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s TokSet) Minus(o TokSet) TokSet {
	for i := range s {
		s[i] &^= o[i]
	}
	return s
}
func (s TokSet) Empty() bool { return s == TokSet{} }
func (s TokSet) Len() int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}
func (s TokSet) List() []int {
	var out []int
	for i := 0; i < 192; i++ {
		if s.Has(i) {
			out = append(out, i)
		}
	}
	return out
}
func tokSet(ts ...int) TokSet {
	var s TokSet
	for _, t := range ts {
		s.Add(t)
	}
	return s
}

// names renders a token set with the grammar's token names.
func (s TokSet) names(g *Grammar) string {
	var out []string
	for _, t := range s.List() {
		out = append(out, g.TokName(t))
	}
	sort.Strings(out)
	if len(out) > 12 {
		out = append(out[:12], "...")
	}
	return strings.Join(out, "|")
}

// Range is an inclusive interval of code points.
type Range struct{ Lo, Hi int32 }

// CharSet is a sorted list of disjoint code point intervals.
type CharSet []Range

func (c CharSet) norm() CharSet {
	s := append(CharSet(nil), c...)
	sort.Slice(s, func(i, j int) bool { return s[i].Lo < s[j].Lo })
	var out CharSet
	for _, r := range s {
		if r.Lo > r.Hi {
			continue
		}
		if n := len(out); n > 0 && r.Lo <= out[n-1].Hi+1 {
			if r.Hi > out[n-1].Hi {
				out[n-1].Hi = r.Hi
			}
			continue
		}
		out = append(out, r)
	}
	return out
}
func (c CharSet) Union(o CharSet) CharSet { return append(append(CharSet(nil), c...), o...).norm() }
func (c CharSet) Has(r int32) bool {
	for _, x := range c {
		if x.Lo <= r && r <= x.Hi {
			return true
		}
	}
	return false
}
func (c CharSet) Equal(o CharSet) bool {
	a, b := c.norm(), o.norm()
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (c CharSet) Inter(o CharSet) CharSet {
	var out CharSet
	for _, a := range c {
		for _, b := range o {
			lo, hi := max(a.Lo, b.Lo), min(a.Hi, b.Hi)
			if lo <= hi {
				out = append(out, Range{lo, hi})
			}
		}
	}
	return out.norm()
}
func (c CharSet) Minus(o CharSet) CharSet {
	out := c.norm()
	for _, b := range o.norm() {
		var next CharSet
		for _, a := range out {
			if b.Hi < a.Lo || b.Lo > a.Hi {
				next = append(next, a)
				continue
			}
			if a.Lo < b.Lo {
				next = append(next, Range{a.Lo, b.Lo - 1})
			}
			if a.Hi > b.Hi {
				next = append(next, Range{b.Hi + 1, a.Hi})
			}
		}
		out = next
	}
	return out
}
func (c CharSet) Size() int64 {
	var n int64
	for _, r := range c {
		n += int64(r.Hi-r.Lo) + 1
	}
	return n
}

const maxRune = 0x10FFFF

var allChars = CharSet{{0, maxRune}}
