package main

import (
	"fmt"
	"sort"
	"strings"
)

type Op int

const (
	OpTok Op = iota // a token set
	OpRef           // a rule reference
	OpSeq
	OpAlt
	OpOpt
	OpStar
	OpPlus
)

// E is a node of an ordered EBNF expression.
type E struct {
	Op        Op
	Kids      []*E
	Set       TokSet
	Rule      int
	NonGreedy bool
}

func eTok(s TokSet) *E { return &E{Op: OpTok, Set: s} }
func eRef(r int) *E    { return &E{Op: OpRef, Rule: r} }
func eSeq(k ...*E) *E  { return &E{Op: OpSeq, Kids: k} }
func eAlt(k ...*E) *E  { return &E{Op: OpAlt, Kids: k} }
func eOpt(k *E) *E     { return &E{Op: OpOpt, Kids: []*E{k}} }
func eStar(k *E) *E    { return &E{Op: OpStar, Kids: []*E{k}} }
func ePlus(k *E) *E    { return &E{Op: OpPlus, Kids: []*E{k}} }

// Grammar is a set of parser rules over tokens.
type Grammar struct {
	Rules    []string
	RuleIdx  map[string]int
	Body     []*E
	Tokens   []string // index = token type; 0 is EOF
	TokIdx   map[string]int
	Chars    []CharSet // characters of each token; nil for EOF
	nullable []bool
	first    []TokSet
	follow   []TokSet
}

func (g *Grammar) TokName(t int) string {
	if t >= 0 && t < len(g.Tokens) {
		return g.Tokens[t]
	}
	return fmt.Sprintf("token#%d", t)
}

func (g *Grammar) rule(name string) (int, bool) { i, ok := g.RuleIdx[name]; return i, ok }

// norm flattens sequences and alternatives and merges token alternatives.
func norm(e *E) *E {
	switch e.Op {
	case OpTok, OpRef:
		return e
	case OpSeq:
		var ks []*E
		for _, k := range e.Kids {
			n := norm(k)
			if n.Op == OpSeq {
				ks = append(ks, n.Kids...)
			} else {
				ks = append(ks, n)
			}
		}
		if len(ks) == 1 {
			return ks[0]
		}
		return &E{Op: OpSeq, Kids: ks}
	case OpAlt:
		var ks []*E
		for _, k := range e.Kids {
			n := norm(k)
			if n.Op == OpAlt {
				ks = append(ks, n.Kids...)
			} else {
				ks = append(ks, n)
			}
		}
		if len(ks) == 1 {
			return ks[0]
		}
		all := true
		var u TokSet
		for _, k := range ks {
			if k.Op != OpTok {
				all = false
			}
			u = u.Union(k.Set)
		}
		if all {
			return eTok(u)
		}
		return &E{Op: OpAlt, Kids: ks}
	default:
		return &E{Op: e.Op, Kids: []*E{norm(e.Kids[0])}, NonGreedy: e.NonGreedy}
	}
}

// canon is norm plus a fixed order for alternatives whose order cannot matter
// (pairwise disjoint lookahead, none nullable), with their token alternatives merged.
func (g *Grammar) canon(e *E) *E {
	e = norm(e)
	var rec func(e *E) *E
	rec = func(e *E) *E {
		if e.Op == OpTok || e.Op == OpRef {
			return e
		}
		out := &E{Op: e.Op, NonGreedy: e.NonGreedy}
		for _, k := range e.Kids {
			out.Kids = append(out.Kids, rec(k))
		}
		if e.Op == OpAlt {
			disjoint := true
			var seen TokSet
			for _, k := range out.Kids {
				f, n := g.First(k)
				if n || !seen.Inter(f).Empty() {
					disjoint = false
				}
				seen = seen.Union(f)
			}
			if disjoint {
				var toks TokSet
				var rest []*E
				for _, k := range out.Kids {
					if k.Op == OpTok {
						toks = toks.Union(k.Set)
					} else {
						rest = append(rest, k)
					}
				}
				if !toks.Empty() {
					rest = append(rest, eTok(toks))
				}
				sort.Slice(rest, func(i, j int) bool { return g.Str(rest[i]) < g.Str(rest[j]) })
				out.Kids = rest
			}
		}
		return out
	}
	return rec(e)
}

// Str renders an expression.
func (g *Grammar) Str(e *E) string {
	switch e.Op {
	case OpTok:
		l := e.Set.List()
		if len(l) == 1 {
			return g.TokName(l[0])
		}
		var ns []string
		for _, t := range l {
			ns = append(ns, g.TokName(t))
		}
		return "{" + strings.Join(ns, " ") + "}"
	case OpRef:
		if e.Rule < len(g.Rules) {
			return g.Rules[e.Rule]
		}
		return fmt.Sprintf("rule#%d", e.Rule)
	case OpSeq:
		var ns []string
		for _, k := range e.Kids {
			ns = append(ns, g.Str(k))
		}
		return "(" + strings.Join(ns, " ") + ")"
	case OpAlt:
		var ns []string
		for _, k := range e.Kids {
			ns = append(ns, g.Str(k))
		}
		return "(" + strings.Join(ns, " | ") + ")"
	}
	s := g.Str(e.Kids[0])
	switch e.Op {
	case OpOpt:
		s += "?"
	case OpStar:
		s += "*"
	case OpPlus:
		s += "+"
	}
	if e.NonGreedy {
		s += "?"
	}
	return s
}

func eEqual(a, b *E) bool {
	if a.Op != b.Op || a.Set != b.Set || a.Rule != b.Rule || a.NonGreedy != b.NonGreedy || len(a.Kids) != len(b.Kids) {
		return false
	}
	for i := range a.Kids {
		if !eEqual(a.Kids[i], b.Kids[i]) {
			return false
		}
	}
	return true
}

// analyse computes nullable, FIRST and FOLLOW of every rule.
func (g *Grammar) analyse() {
	n := len(g.Body)
	g.nullable = make([]bool, n)
	g.first = make([]TokSet, n)
	for changed := true; changed; {
		changed = false
		for i, b := range g.Body {
			f, nl := g.First(b)
			if f != g.first[i] || nl != g.nullable[i] {
				g.first[i], g.nullable[i] = f, nl
				changed = true
			}
		}
	}
	g.follow = make([]TokSet, n)
	for changed := true; changed; {
		changed = false
		for i, b := range g.Body {
			g.followIn(b, g.follow[i], func(r int, s TokSet) {
				u := g.follow[r].Union(s)
				if u != g.follow[r] {
					g.follow[r] = u
					changed = true
				}
			})
		}
	}
}

// First returns the first tokens of e and whether e derives the empty phrase.
func (g *Grammar) First(e *E) (TokSet, bool) {
	switch e.Op {
	case OpTok:
		return e.Set, false
	case OpRef:
		return g.first[e.Rule], g.nullable[e.Rule]
	case OpSeq:
		var s TokSet
		for _, k := range e.Kids {
			f, n := g.First(k)
			s = s.Union(f)
			if !n {
				return s, false
			}
		}
		return s, true
	case OpAlt:
		var s TokSet
		nl := false
		for _, k := range e.Kids {
			f, n := g.First(k)
			s = s.Union(f)
			nl = nl || n
		}
		return s, nl
	case OpPlus:
		return g.First(e.Kids[0])
	default:
		f, _ := g.First(e.Kids[0])
		return f, true
	}
}

// followIn reports, for every rule reference in e, the tokens that can come after it.
func (g *Grammar) followIn(e *E, after TokSet, add func(int, TokSet)) {
	switch e.Op {
	case OpRef:
		add(e.Rule, after)
	case OpSeq:
		for i := len(e.Kids) - 1; i >= 0; i-- {
			g.followIn(e.Kids[i], after, add)
			f, n := g.First(e.Kids[i])
			if n {
				after = after.Union(f)
			} else {
				after = f
			}
		}
	case OpAlt:
		for _, k := range e.Kids {
			g.followIn(k, after, add)
		}
	case OpOpt:
		g.followIn(e.Kids[0], after, add)
	case OpStar, OpPlus:
		f, _ := g.First(e.Kids[0])
		g.followIn(e.Kids[0], after.Union(f), add)
	}
}

// refs lists the rules e refers to.
func refs(e *E, f func(int)) {
	if e.Op == OpRef {
		f(e.Rule)
	}
	for _, k := range e.Kids {
		refs(k, f)
	}
}

// reach is the set of rules reachable from the given ones.
func (g *Grammar) reach(from ...int) map[int]bool {
	seen := map[int]bool{}
	var rec func(int)
	rec = func(r int) {
		if seen[r] {
			return
		}
		seen[r] = true
		refs(g.Body[r], rec)
	}
	for _, r := range from {
		rec(r)
	}
	return seen
}
