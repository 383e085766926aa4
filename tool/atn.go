package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// ATN state types (ANTLR 4.10 serialization, version 4).
const (
	stInvalid = iota
	stBasic
	stRuleStart
	stBlockStart
	stPlusBlockStart
	stStarBlockStart
	stTokenStart
	stRuleStop
	stBlockEnd
	stStarLoopBack
	stStarLoopEntry
	stPlusLoopBack
	stLoopEnd
)

const (
	trEpsilon    = 1
	trRange      = 2
	trRule       = 3
	trPredicate  = 4
	trAtom       = 5
	trAction     = 6
	trSet        = 7
	trNotSet     = 8
	trWildcard   = 9
	trPrecedence = 10
)

type atnTrans struct {
	typ              int
	to               int
	arg1, arg2, arg3 int
	rule             int // for rule transitions; to is the follow state
}

type atnState struct {
	typ, rule, extra int // extra: end state of a block start, loop back of a loop end
	nonGreedy, prec  bool
	decision         int
	trans            []atnTrans
}

// ATN is the decoded recognition network.
type ATN struct {
	lexer     bool
	maxTok    int
	states    []*atnState
	ruleStart []int
	ruleStop  []int
	ruleTok   []int
	modes     []int
	sets      []CharSet // may contain -1 for EOF
	decisions []int
	actions   int
	pos       token.Pos
}

func decodeATN(data []int64) (a *ATN, err error) {
	defer func() {
		if r := recover(); r != nil {
			a, err = nil, fmt.Errorf("serialized ATN is malformed: %v", r)
		}
	}()
	pos := 0
	next := func() int { v := data[pos]; pos++; return int(v) }
	if v := next(); v != 4 {
		return nil, fmt.Errorf("serialized ATN has version %d, want 4", v)
	}
	a = &ATN{}
	a.lexer = next() == 0
	a.maxTok = next()
	n := next()
	for i := 0; i < n; i++ {
		s := &atnState{decision: -1, extra: -1}
		s.typ = next()
		if s.typ != stInvalid {
			s.rule = next()
			switch s.typ {
			case stLoopEnd, stBlockStart, stPlusBlockStart, stStarBlockStart:
				s.extra = next()
			}
		}
		a.states = append(a.states, s)
	}
	for k := next(); k > 0; k-- {
		a.states[next()].nonGreedy = true
	}
	for k := next(); k > 0; k-- {
		a.states[next()].prec = true
	}
	nr := next()
	for i := 0; i < nr; i++ {
		a.ruleStart = append(a.ruleStart, next())
		if a.lexer {
			a.ruleTok = append(a.ruleTok, next())
		}
	}
	a.ruleStop = make([]int, nr)
	for i := range a.ruleStop {
		a.ruleStop[i] = -1
	}
	for i, s := range a.states {
		if s.typ == stRuleStop {
			a.ruleStop[s.rule] = i
		}
	}
	for k := next(); k > 0; k-- {
		a.modes = append(a.modes, next())
	}
	for k := next(); k > 0; k-- {
		ni, eof := next(), next()
		var c CharSet
		if eof != 0 {
			c = append(c, Range{-1, -1})
		}
		for ; ni > 0; ni-- {
			lo, hi := next(), next()
			c = append(c, Range{int32(lo), int32(hi)})
		}
		a.sets = append(a.sets, c)
	}
	for k := next(); k > 0; k-- {
		src, trg, tt, a1, a2, a3 := next(), next(), next(), next(), next(), next()
		t := atnTrans{typ: tt, to: trg, arg1: a1, arg2: a2, arg3: a3}
		if tt == trRule {
			// the deserializer's NewRuleTransition(states[arg1], arg2, arg3, states[trg]):
			// arg1 is the start state of the rule, trg the state after it.
			t = atnTrans{typ: tt, rule: a2, to: trg, arg1: a1, arg3: a3}
			_ = a.ruleStart[a2]
		}
		_ = a.states[trg]
		a.states[src].trans = append(a.states[src].trans, t)
	}
	for k := next(); k > 0; k-- {
		s := next()
		a.states[s].decision = len(a.decisions)
		a.decisions = append(a.decisions, s)
	}
	if a.lexer {
		a.actions = next()
		for i := 0; i < a.actions*3; i++ {
			next()
		}
	}
	if pos != len(data) {
		return nil, fmt.Errorf("serialized ATN has %d trailing values", len(data)-pos)
	}
	return a, nil
}

// label returns the token set of a parser transition, or ok=false for epsilon and rule transitions.
func (a *ATN) label(t atnTrans) (TokSet, bool, error) {
	var s TokSet
	add := func(lo, hi int) {
		for x := lo; x <= hi; x++ {
			if x == -1 {
				s.Add(0)
			} else {
				s.Add(x)
			}
		}
	}
	switch t.typ {
	case trAtom:
		if t.arg3 != 0 {
			s.Add(0)
		} else {
			add(t.arg1, t.arg1)
		}
	case trRange:
		if t.arg3 != 0 {
			return s, false, fmt.Errorf("EOF range")
		}
		add(t.arg1, t.arg2)
	case trSet:
		for _, r := range a.sets[t.arg1] {
			add(int(r.Lo), int(r.Hi))
		}
	case trNotSet:
		var x TokSet
		x, s = s, x
		for _, r := range a.sets[t.arg1] {
			add(int(r.Lo), int(r.Hi))
		}
		neg := s
		s = TokSet{}
		add(1, a.maxTok)
		s = s.Minus(neg)
	case trWildcard:
		add(1, a.maxTok)
	default:
		return s, false, nil
	}
	return s, true, nil
}

// decompile turns the network of one parser rule back into an ordered EBNF expression.
func (a *ATN) decompile(rule int) (e *E, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, err = nil, fmt.Errorf("rule %d: %v", rule, r)
		}
	}()
	steps := 0
	// seq decompiles from state s up to (not including) stop.
	var seq func(s, stop int) *E
	seq = func(s, stop int) *E {
		var out []*E
		for s != stop {
			steps++
			if steps > 100000 {
				panic("network does not have block structure")
			}
			st := a.states[s]
			if st.rule != rule {
				panic(fmt.Sprintf("state %d belongs to another rule", s))
			}
			switch st.typ {
			case stBasic, stBlockEnd, stLoopEnd, stRuleStart:
				if len(st.trans) != 1 {
					panic(fmt.Sprintf("state %d has %d transitions", s, len(st.trans)))
				}
				t := st.trans[0]
				switch t.typ {
				case trEpsilon:
					s = t.to
				case trRule:
					if t.arg1 != a.ruleStart[t.rule] {
						panic(fmt.Sprintf("rule transition of state %d does not lead to the start of its rule", s))
					}
					out = append(out, eRef(t.rule))
					s = t.to
				case trPredicate, trAction, trPrecedence:
					panic(fmt.Sprintf("state %d has a predicate or action", s))
				default:
					set, _, err := a.label(t)
					if err != nil {
						panic(err)
					}
					out = append(out, eTok(set))
					s = t.to
				}
			case stBlockStart:
				end := st.extra
				if len(st.trans) == 0 {
					panic("empty block")
				}
				var alts []*E
				eps, epsAt := false, -1
				for i, t := range st.trans {
					if t.typ != trEpsilon {
						panic("block transition is not epsilon")
					}
					if t.to == end {
						eps, epsAt = true, i
						continue
					}
					alts = append(alts, seq(t.to, end))
				}
				b := eAlt(alts...)
				if eps {
					if epsAt != len(st.trans)-1 && epsAt != 0 || len(alts) == 0 {
						panic("empty alternative in the middle of a block")
					}
					b = eOpt(b)
					b.NonGreedy = epsAt == 0
				}
				out = append(out, b)
				s = a.after(end)
			case stPlusBlockStart:
				end := st.extra
				var alts []*E
				for _, t := range st.trans {
					alts = append(alts, seq(t.to, end))
				}
				lb := a.only(end)
				l := a.states[lb]
				if l.typ != stPlusLoopBack || len(l.trans) != 2 {
					panic("plus block without loop back")
				}
				p := ePlus(eAlt(alts...))
				switch {
				case l.trans[0].to == s:
					s = l.trans[1].to
				case l.trans[1].to == s:
					p.NonGreedy = true
					s = l.trans[0].to
				default:
					panic("plus loop back does not return to its block")
				}
				if a.states[s].typ != stLoopEnd {
					panic("plus loop without end")
				}
				out = append(out, p)
				s = a.only(s)
			case stStarLoopEntry:
				if len(st.trans) != 2 {
					panic("star loop entry")
				}
				bi, ei := 0, 1
				if a.states[st.trans[0].to].typ == stLoopEnd {
					bi, ei = 1, 0
				}
				bs := a.states[st.trans[bi].to]
				if bs.typ != stStarBlockStart || a.states[st.trans[ei].to].typ != stLoopEnd {
					panic("star loop shape")
				}
				var alts []*E
				for _, t := range bs.trans {
					alts = append(alts, seq(t.to, bs.extra))
				}
				lb := a.only(bs.extra)
				if a.states[lb].typ != stStarLoopBack || a.only(lb) != s {
					panic("star loop back")
				}
				x := eStar(eAlt(alts...))
				x.NonGreedy = bi == 1
				out = append(out, x)
				s = a.only(st.trans[ei].to)
			default:
				panic(fmt.Sprintf("unexpected state %d of type %d", s, st.typ))
			}
		}
		return eSeq(out...)
	}
	return norm(seq(a.ruleStart[rule], a.ruleStop[rule])), nil
}

func (a *ATN) after(s int) int { return a.only(s) }
func (a *ATN) only(s int) int {
	st := a.states[s]
	if len(st.trans) != 1 || st.trans[0].typ != trEpsilon {
		panic(fmt.Sprintf("state %d should have one epsilon transition", s))
	}
	return st.trans[0].to
}

// lexChar returns the characters of a lexer rule that matches exactly one character.
func (a *ATN) lexChar(rule int) (CharSet, error) {
	var out CharSet
	seen := map[int]bool{}
	type item struct {
		s    int
		done bool
	}
	var work = []item{{a.ruleStart[rule], false}}
	key := func(i item) int {
		k := i.s * 2
		if i.done {
			k++
		}
		return k
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[key(it)] {
			continue
		}
		seen[key(it)] = true
		st := a.states[it.s]
		if st.typ == stRuleStop {
			if !it.done {
				return nil, fmt.Errorf("matches the empty string")
			}
			continue
		}
		for _, t := range st.trans {
			switch t.typ {
			case trEpsilon:
				work = append(work, item{t.to, it.done})
				continue
			case trRule, trPredicate, trAction, trPrecedence, trNotSet, trWildcard:
				return nil, fmt.Errorf("has a transition of type %d", t.typ)
			}
			if it.done {
				return nil, fmt.Errorf("matches more than one character")
			}
			switch t.typ {
			case trAtom:
				out = append(out, Range{int32(t.arg1), int32(t.arg1)})
			case trRange:
				out = append(out, Range{int32(t.arg1), int32(t.arg2)})
			case trSet:
				out = append(out, a.sets[t.arg1]...)
			}
			work = append(work, item{t.to, true})
		}
	}
	return out.norm(), nil
}

// StaticData is what a generated recogniser file holds in its tables.
type StaticData struct {
	serialized    []int64
	symbolicNames []string
	ruleNames     []string
	modeNames     []string
	literalNames  []string
	initFn        *ast.FuncDecl
	obj           types.Object // the static data variable
	file          string
}

// findStatic finds the tables of a generated recogniser: the function of the parser package that assigns
// a []int32 literal to a field of a package-level struct variable.
func findStatic(p *packages.Package) ([]*StaticData, error) {
	var out []*StaticData
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			sd := &StaticData{initFn: fd, file: p.Fset.Position(f.Pos()).Filename}
			found := 0
			var bad error
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
					return true
				}
				sel, ok := as.Lhs[0].(*ast.SelectorExpr)
				if !ok {
					return true
				}
				cl, ok := as.Rhs[0].(*ast.CompositeLit)
				if !ok {
					return true
				}
				tv := p.TypesInfo.Types[cl]
				sl, ok := tv.Type.Underlying().(*types.Slice)
				if !ok {
					return true
				}
				b, ok := sl.Elem().Underlying().(*types.Basic)
				if !ok {
					return true
				}
				if b.Kind() == types.Int32 {
					found++
					sd.serialized = nil
					for _, el := range cl.Elts {
						v, ok := constInt(p.TypesInfo, el)
						if !ok {
							bad = fmt.Errorf("%s: serialized ATN element is not constant", p.Fset.Position(el.Pos()))
							return false
						}
						sd.serialized = append(sd.serialized, v)
					}
				}
				if b.Kind() == types.String {
					var ss []string
					for _, el := range cl.Elts {
						v, ok := constString(p.TypesInfo, el)
						if !ok {
							return true
						}
						ss = append(ss, v)
					}
					switch strings.ToLower(sel.Sel.Name) {
					case "symbolicnames":
						sd.symbolicNames = ss
					case "rulenames":
						sd.ruleNames = ss
					case "modenames":
						sd.modeNames = ss
					case "literalnames":
						sd.literalNames = ss
					}
				}
				return true
			})
			if bad != nil {
				return nil, bad
			}
			if found > 1 {
				return nil, fmt.Errorf("%s assigns more than one serialized ATN", fd.Name.Name)
			}
			if found == 1 {
				out = append(out, sd)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].file < out[j].file })
	return out, nil
}

// grammarFromATN builds the grammar the tables encode.
func grammarFromATN(lex, par *StaticData, la, pa *ATN) (*Grammar, []string) {
	var probs []string
	g := &Grammar{RuleIdx: map[string]int{}, TokIdx: map[string]int{}}
	g.Tokens = append([]string{"EOF"}, make([]string, la.maxTok)...)
	g.Chars = make([]CharSet, la.maxTok+1)
	if len(lex.ruleNames) != len(la.ruleStart) {
		probs = append(probs, fmt.Sprintf("lexer: %d rule names for %d rules", len(lex.ruleNames), len(la.ruleStart)))
	}
	for i, t := range la.ruleTok {
		if t < 1 || t > la.maxTok {
			probs = append(probs, fmt.Sprintf("lexer rule %d has token type %d", i, t))
			continue
		}
		if i < len(lex.ruleNames) {
			g.Tokens[t] = lex.ruleNames[i]
		}
		c, err := la.lexChar(i)
		if err != nil {
			probs = append(probs, fmt.Sprintf("lexer rule %s %v", g.Tokens[t], err))
			continue
		}
		g.Chars[t] = g.Chars[t].Union(c)
	}
	for i, n := range g.Tokens {
		g.TokIdx[n] = i
	}
	g.Rules = append([]string(nil), par.ruleNames...)
	for i, n := range g.Rules {
		g.RuleIdx[n] = i
	}
	for i := range pa.ruleStart {
		e, err := pa.decompile(i)
		if err != nil {
			probs = append(probs, fmt.Sprintf("parser tables: %v", err))
			e = eSeq()
		}
		g.Body = append(g.Body, e)
	}
	if len(g.Rules) != len(g.Body) {
		probs = append(probs, fmt.Sprintf("parser: %d rule names for %d rules", len(g.Rules), len(g.Body)))
		for len(g.Rules) < len(g.Body) {
			g.Rules = append(g.Rules, fmt.Sprintf("rule#%d", len(g.Rules)))
		}
		g.Body = append(g.Body, make([]*E, 0)...)
		for len(g.Body) < len(g.Rules) {
			g.Body = append(g.Body, eSeq())
		}
	}
	g.analyse()
	return g, probs
}
