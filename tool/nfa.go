package main

import (
	"fmt"
	"sort"
	"strings"
)

// Symbols of automata: 0..191 token types (0 = EOF), 1000+i rule i, larger values chosen by the user.
const ruleSym = 1000

type nfaEdge struct {
	sym int
	to  int
}

// NFA is a nondeterministic automaton with epsilon edges.
type NFA struct {
	eps   [][]int
	edges [][]nfaEdge
	start int
	final map[int]bool
}

func newNFA() *NFA { return &NFA{final: map[int]bool{}} }
func (n *NFA) state() int {
	n.eps = append(n.eps, nil)
	n.edges = append(n.edges, nil)
	return len(n.eps) - 1
}
func (n *NFA) e(a, b int)         { n.eps[a] = append(n.eps[a], b) }
func (n *NFA) edge(a, sym, b int) { n.edges[a] = append(n.edges[a], nfaEdge{sym, b}) }

// add builds the fragment of e from state a and returns its end state. sym maps leaves to symbols.
func (n *NFA) add(e *E, a int, inline func(r int) *E) int {
	switch e.Op {
	case OpTok:
		b := n.state()
		for _, t := range e.Set.List() {
			n.edge(a, t, b)
		}
		return b
	case OpRef:
		if inline != nil {
			if body := inline(e.Rule); body != nil {
				return n.add(body, a, inline)
			}
		}
		b := n.state()
		n.edge(a, ruleSym+e.Rule, b)
		return b
	case OpSeq:
		for _, k := range e.Kids {
			a = n.add(k, a, inline)
		}
		return a
	case OpAlt:
		b := n.state()
		for _, k := range e.Kids {
			s := n.state()
			n.e(a, s)
			n.e(n.add(k, s, inline), b)
		}
		return b
	case OpOpt:
		s := n.state()
		n.e(a, s)
		b := n.add(e.Kids[0], s, inline)
		c := n.state()
		n.e(b, c)
		n.e(s, c)
		return c
	case OpStar, OpPlus:
		s := n.state()
		n.e(a, s)
		b := n.add(e.Kids[0], s, inline)
		n.e(b, s)
		c := n.state()
		n.e(b, c)
		if e.Op == OpStar {
			n.e(s, c)
		}
		return c
	}
	panic("bad expression")
}

// nfaOf is the automaton of an expression; rules for which inline returns nil stay symbols.
func nfaOf(e *E, inline func(r int) *E) *NFA {
	n := newNFA()
	n.start = n.state()
	n.final[n.add(e, n.start, inline)] = true
	return n
}

type dstate struct {
	key   string
	set   []int
	final bool
}

func (n *NFA) closure(set []int) []int {
	seen := map[int]bool{}
	var out []int
	work := append([]int(nil), set...)
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		out = append(out, s)
		work = append(work, n.eps[s]...)
	}
	sort.Ints(out)
	return out
}

func setKey(s []int) string {
	var b strings.Builder
	for _, x := range s {
		fmt.Fprintf(&b, "%d,", x)
	}
	return b.String()
}

func (n *NFA) isFinal(set []int) bool {
	for _, s := range set {
		if n.final[s] {
			return true
		}
	}
	return false
}

// step returns, for every symbol leaving the set, the closed successor set.
func (n *NFA) step(set []int) map[int][]int {
	m := map[int][]int{}
	for _, s := range set {
		for _, e := range n.edges[s] {
			m[e.sym] = append(m[e.sym], e.to)
		}
	}
	for k, v := range m {
		m[k] = n.closure(v)
	}
	return m
}

// includes reports whether L(a) ⊆ L(b), with a shortest counterexample otherwise.
func includes(a, b *NFA) (bool, []int) { return compareNFA(a, b, false) }

// equalNFA reports whether L(a) = L(b), with a shortest distinguishing word otherwise.
func equalNFA(a, b *NFA) (bool, []int) { return compareNFA(a, b, true) }

func compareNFA(a, b *NFA, both bool) (bool, []int) {
	type pair struct {
		x, y []int
		word []int
	}
	start := pair{a.closure([]int{a.start}), b.closure([]int{b.start}), nil}
	seen := map[string]bool{setKey(start.x) + "/" + setKey(start.y): true}
	queue := []pair{start}
	// states from which acceptance is impossible are harmless: only finality is compared
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		fa, fb := a.isFinal(p.x), b.isFinal(p.y)
		if fa && !fb || both && fb && !fa {
			return false, p.word
		}
		sa, sb := a.step(p.x), b.step(p.y)
		syms := map[int]bool{}
		for s := range sa {
			syms[s] = true
		}
		if both {
			for s := range sb {
				syms[s] = true
			}
		}
		var list []int
		for s := range syms {
			list = append(list, s)
		}
		sort.Ints(list)
		for _, s := range list {
			x, y := sa[s], sb[s]
			k := setKey(x) + "/" + setKey(y)
			if seen[k] {
				continue
			}
			seen[k] = true
			queue = append(queue, pair{x, y, append(append([]int(nil), p.word...), s)})
		}
		if len(seen) > 400000 {
			panic("automaton comparison too large")
		}
	}
	return true, nil
}

// wordStr renders a word over tokens and rules.
func (g *Grammar) wordStr(w []int) string {
	if len(w) == 0 {
		return "(empty)"
	}
	var out []string
	for _, s := range w {
		switch {
		case s >= ruleSym && s-ruleSym < len(g.Rules):
			out = append(out, "<"+g.Rules[s-ruleSym]+">")
		default:
			out = append(out, g.TokName(s))
		}
	}
	return strings.Join(out, " ")
}
