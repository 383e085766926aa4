package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Recursion (C25): the call stack grows with the nesting of bracketed constructs only. The rules of the decoded grammar
// that begin and end with a bracket may contain themselves; without them neither the grammar nor the code's call graph
// has a circle, other than descents of the syntax tree and recursions whose depth the interpretation bounds.

// bracketed are the rules whose phrases all begin with one token and end with another, each on its own.
func (g *Grammar) bracketed() map[int]string {
	out := map[int]string{}
	for i, b := range g.Body {
		first, n1 := g.First(b)
		last, n2 := g.last(b, map[int]bool{})
		if n1 || n2 || first.Len() != 1 || last.Len() != 1 || first == last {
			continue
		}
		out[i] = fmt.Sprintf("%s ... %s", first.names(g), last.names(g))
	}
	return out
}

// last is the set of tokens a phrase can end with, and whether it can be empty.
func (g *Grammar) last(e *E, busy map[int]bool) (TokSet, bool) {
	switch e.Op {
	case OpTok:
		return e.Set, false
	case OpRef:
		if busy[e.Rule] {
			return TokSet{}, g.nullable[e.Rule]
		}
		busy[e.Rule] = true
		defer delete(busy, e.Rule)
		return g.last(g.Body[e.Rule], busy)
	case OpSeq:
		var s TokSet
		for i := len(e.Kids) - 1; i >= 0; i-- {
			l, n := g.last(e.Kids[i], busy)
			s = s.Union(l)
			if !n {
				return s, false
			}
		}
		return s, true
	case OpAlt:
		var s TokSet
		nl := false
		for _, k := range e.Kids {
			l, n := g.last(k, busy)
			s = s.Union(l)
			nl = nl || n
		}
		return s, nl
	case OpPlus:
		return g.last(e.Kids[0], busy)
	}
	l, _ := g.last(e.Kids[0], busy)
	return l, true
}

func ruleDepth(c *Ctx, prop string, r *RuleRun) {
	g := c.recog().g
	nested := g.bracketed()
	// the grammar
	refs := make([]map[int]bool, len(g.Body))
	for i, b := range g.Body {
		refs[i] = map[int]bool{}
		var rec func(e *E)
		rec = func(e *E) {
			if e.Op == OpRef && nested[e.Rule] == "" {
				refs[i][e.Rule] = true
			}
			for _, k := range e.Kids {
				rec(k)
			}
		}
		rec(b)
	}
	for i := range g.Body {
		seen := map[int]bool{}
		work := []int{i}
		circle := false
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			for y := range refs[x] {
				circle = circle || y == i
				if !seen[y] {
					seen[y] = true
					work = append(work, y)
				}
			}
		}
		r.check(!circle, "rule "+g.Rules[i]+" of the grammar", "RFC5322Parser.g4", "contains itself outside brackets: the depth of the syntax tree, and of the stack, grows with the length of the input")
	}
	r.count("rules nested in brackets", len(nested))
	// the code
	e := c.effects()
	skip, all := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for i, fn := range c.ruleMethods() {
		if nested[i] != "" {
			skip[fn] = true
		}
		all[fn] = true
	}
	for _, m := range []map[*ssa.Function]bool{e.parse, e.setup} {
		for fn := range m {
			all[fn] = true
		}
	}
	q := &recursion{c, e, skip}
	calls := q.graph(all)
	// the runtime's tree walk calls the listener's methods
	for fn := range all {
		if skip[fn] {
			continue
		}
		e.eachInstr(fn, func(ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			if to := ci.Common().StaticCallee(); to == nil || !strings.HasSuffix(to.String(), "ParseTreeWalker).Walk") {
				return
			}
			for to := range all {
				if to.Signature.Recv() != nil && (strings.HasPrefix(to.Name(), "Enter") || strings.HasPrefix(to.Name(), "Exit")) {
					calls[fn] = append(calls[fn], recCall{fn, ci, to})
				}
			}
		})
	}
	inCircle := map[*ssa.Function]bool{}
	for _, grp := range q.groups(all, calls) {
		for _, fn := range sortFns(grp) {
			inCircle[fn] = true
			for _, call := range calls[fn] {
				if !grp[call.to] || q.descends(call) || q.bounded(call.to) {
					continue
				}
				r.fail("recursion of "+fn.String(), c.P.Pos(call.call.Pos()), "%s is called again while it runs, not for a part of the syntax tree and without a bound: the stack grows with the input", call.to)
			}
		}
	}
	for _, fn := range sortFns(all) {
		if !inCircle[fn] {
			r.ok(fn.String())
		}
	}
	r.count("functions in circles of calls", len(inCircle))
}

// descends: the call is for a child of a node received.
func (q *recursion) descends(c recCall) bool {
	k := &ranker{c: q.c, e: q.e, fn: c.from, body: map[*ssa.BasicBlock]bool{}}
	for _, p := range c.from.Params {
		is := func(v ssa.Value) bool { return v == ssa.Value(p) }
		for _, a := range c.call.Common().Args {
			if k.step(a, is, "GetChild") {
				return true
			}
		}
	}
	return false
}

// bounded: the interpretation of everything that can be parsed went through all of it without meeting the function more
// than a few times at once.
func (q *recursion) bounded(fn *ssa.Function) bool {
	if fn.Pkg == q.c.P.ParS {
		return false // the recogniser's own code is not interpreted
	}
	for _, rr := range plainRuns(q.c) {
		if rr.undecided() || rr.stat["depth "+fn.String()] > maxAgain {
			return false
		}
	}
	return true
}
