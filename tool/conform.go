package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Conformity of the generated recogniser code with the prediction tables. Every rule method is walked together with
// the network the tables decode to: each operation of the method (match a token, consume one of a set, call a rule,
// ask for a prediction, look at the next token) must be one that the network offers at that place, each choice made
// on the next token must be the alternative the network allows that token to start, and the method must end where
// the network does. The walk is over the product of the method's control flow and the network's states; the next
// token and the predicted alternative range over all their values.

func upperFirst(s string) string {
	r := []rune(s)
	if len(r) > 0 {
		r[0] = unicode.ToUpper(r[0])
	}
	return string(r)
}

// look holds first and follow sets of the network.
type look struct {
	a      *ATN
	first  []TokSet
	null   []bool
	follow []TokSet
}

func newLook(a *ATN) *look {
	l := &look{a: a, first: make([]TokSet, len(a.ruleStart)), null: make([]bool, len(a.ruleStart)), follow: make([]TokSet, len(a.ruleStart))}
	for again := true; again; {
		again = false
		for r, s := range a.ruleStart {
			f, end := l.from(s)
			if f != l.first[r] || end != l.null[r] {
				l.first[r], l.null[r] = f, end
				again = true
			}
		}
	}
	for again := true; again; {
		again = false
		for _, s := range a.states {
			if s == nil {
				continue
			}
			for _, t := range s.trans {
				if t.typ != trRule {
					continue
				}
				f, end := l.from(t.to)
				if end {
					f = f.Union(l.follow[s.rule])
				}
				if n := l.follow[t.rule].Union(f); n != l.follow[t.rule] {
					l.follow[t.rule] = n
					again = true
				}
			}
		}
	}
	return l
}

// from is the set of tokens that can come next at a state, and whether the end of its rule can.
func (l *look) from(s int) (TokSet, bool) {
	var out TokSet
	end := false
	seen := map[int]bool{}
	var walk func(int)
	walk = func(x int) {
		if seen[x] {
			return
		}
		seen[x] = true
		st := l.a.states[x]
		if st.typ == stRuleStop {
			end = true
			return
		}
		for _, t := range st.trans {
			switch {
			case t.typ == trRule:
				out = out.Union(l.first[t.rule])
				if l.null[t.rule] {
					walk(t.to)
				}
			default:
				set, ok, err := l.a.label(t)
				if err == nil && ok {
					out = out.Union(set)
				} else {
					walk(t.to)
				}
			}
		}
	}
	walk(s)
	return out, end
}

// next is from including what can follow the rule.
func (l *look) next(s int) TokSet {
	set, end := l.from(s)
	if end {
		set = set.Union(l.follow[l.a.states[s].rule])
	}
	return set
}

const laUnknown = -2

// lockstep walks one rule method.
type lockstep struct {
	c     *Ctx
	l     *look
	g     *Grammar
	fn    *ssa.Function
	rule  int
	rules map[*ssa.Function]int
	live  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	bad   map[string]bool
	fails []Finding
	ops   map[ssa.Instruction]bool
	n     int
}

type lsState struct {
	blk, prev *ssa.BasicBlock
	idx       int
	env       map[ssa.Value]int64
	pos, reg  int
	la        int // next token as a TokSet index, or laUnknown
	dec, alt  int // the decision predicted at this place (plus one), and its outcome
	stack     []lsCall
}

// lsCall is a place to return to: the method called a helper there.
type lsCall struct {
	ins       *ssa.Call
	blk, prev *ssa.BasicBlock
	idx       int
	env       map[ssa.Value]int64
}

func (w *lockstep) fail(ins ssa.Instruction, what, format string, args ...any) {
	k := what + fmt.Sprint(ins.Pos())
	if w.bad[k] {
		return
	}
	w.bad[k] = true
	pos := ins.Pos()
	if !pos.IsValid() {
		pos = w.fn.Pos()
	}
	w.fails = append(w.fails, Finding{Construct: "rule " + w.g.Rules[w.rule] + ": " + what, Pos: w.c.P.Pos(pos), Detail: fmt.Sprintf(format, args...)})
}

// liveness of integer and boolean values at block entries.
func liveInts(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	basic := func(v ssa.Value) bool {
		if _, ok := v.(*ssa.Const); ok {
			return false
		}
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
	}
	for again := true; again; {
		again = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			set := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					set[v] = true
				}
				for _, ins := range s.Instrs {
					if p, ok := ins.(*ssa.Phi); ok {
						for k, e := range p.Edges {
							if s.Preds[k] == b && basic(e) {
								set[e] = true
							}
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(set, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil && basic(*op) {
						set[*op] = true
					}
				}
			}
			for v := range set {
				if !live[b][v] {
					live[b][v] = true
					again = true
				}
			}
		}
	}
	return live
}

func (w *lockstep) eval(env map[ssa.Value]int64, v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			return 0, false
		}
		switch c.Value.Kind() {
		case constant.Bool:
			if constant.BoolVal(c.Value) {
				return 1, true
			}
			return 0, true
		case constant.Int:
			if n, ok := constant.Int64Val(c.Value); ok {
				return n, true
			}
			if n, ok := constant.Uint64Val(c.Value); ok {
				return int64(n), true
			}
		}
		return 0, false
	}
	n, ok := env[v]
	return n, ok
}

func boolInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func binop(op token.Token, x, y int64) (int64, bool) {
	switch op {
	case token.ADD:
		return x + y, true
	case token.SUB:
		return x - y, true
	case token.MUL:
		return x * y, true
	case token.AND:
		return x & y, true
	case token.OR:
		return x | y, true
	case token.XOR:
		return x ^ y, true
	case token.AND_NOT:
		return x &^ y, true
	case token.SHL:
		if uint64(y) >= 64 {
			return 0, true
		}
		return x << uint64(y), true
	case token.SHR:
		if uint64(y) >= 64 {
			return 0, true
		}
		return x >> uint64(y), true
	case token.EQL:
		return boolInt(x == y), true
	case token.NEQ:
		return boolInt(x != y), true
	case token.LSS:
		return boolInt(x < y), true
	case token.LEQ:
		return boolInt(x <= y), true
	case token.GTR:
		return boolInt(x > y), true
	case token.GEQ:
		return boolInt(x >= y), true
	}
	return 0, false
}

// move follows epsilon transitions from a position to a state that satisfies want, making only choices that the next
// token allows. why explains a failure.
func (w *lockstep) move(pos, la int, want func(s int) bool) (to int, why string) {
	if want(pos) {
		return pos, ""
	}
	type item struct{ s int }
	seen := map[int]bool{pos: true}
	queue := []int{pos}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		st := w.l.a.states[s]
		if st.typ == stRuleStop {
			continue
		}
		for i, t := range st.trans {
			if t.typ != trEpsilon && t.typ != trAction {
				continue
			}
			if len(st.trans) > 1 {
				if la == laUnknown {
					why = "the choice there is made without looking at the next token"
					continue
				}
				other := ""
				for j, u := range st.trans {
					if j != i && w.l.next(u.to).Has(la) {
						other = fmt.Sprintf("with %s as the next token, the tables choose alternative %d there", tokSet(la).names(w.g), j+1)
					}
				}
				if other != "" {
					why = other
					continue
				}
			}
			if seen[t.to] {
				continue
			}
			seen[t.to] = true
			if want(t.to) {
				return t.to, ""
			}
			queue = append(queue, t.to)
		}
	}
	if why == "" {
		why = "the tables do not lead there"
	}
	return -1, why
}

func (w *lockstep) stateName(s int) string {
	return fmt.Sprintf("state %d", s)
}

func calleeName(c *ssa.CallCommon) (name string, pkg string, static *ssa.Function) {
	if c.IsInvoke() {
		p := ""
		if c.Method.Pkg() != nil {
			p = c.Method.Pkg().Path()
		}
		return c.Method.Name(), p, nil
	}
	if f := c.StaticCallee(); f != nil {
		p := ""
		if f.Object() != nil && f.Object().Pkg() != nil {
			p = f.Object().Pkg().Path()
		}
		return f.Name(), p, f
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name(), "builtin", nil
	}
	return "", "", nil
}

func (w *lockstep) walk() {
	w.live = map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}
	w.bad = map[string]bool{}
	w.ops = map[ssa.Instruction]bool{}
	seen := map[string]bool{}
	work := []*lsState{{blk: w.fn.Blocks[0], pos: w.l.a.ruleStart[w.rule], reg: -1, la: laUnknown, env: map[ssa.Value]int64{}}}
	ids := map[ssa.Value]int{}
	id := func(v ssa.Value) int {
		if n, ok := ids[v]; ok {
			return n
		}
		ids[v] = len(ids)
		return len(ids) - 1
	}
	push := func(s *lsState) {
		if s.idx == 0 {
			env := map[ssa.Value]int64{}
			live := w.live[s.blk.Parent()]
			if live == nil {
				live = liveInts(s.blk.Parent())
				w.live[s.blk.Parent()] = live
			}
			for v := range live[s.blk] {
				if n, ok := s.env[v]; ok {
					env[v] = n
				}
			}
			// values that phis of this block take over from the predecessor
			var ks []string
			for _, ins := range s.blk.Instrs {
				p, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for k, e := range p.Edges {
					if s.blk.Preds[k] == s.prev {
						if n, ok := w.eval(s.env, e); ok {
							env[p] = n
						} else {
							delete(env, p)
						}
					}
				}
			}
			s.env = env
			for v, n := range env {
				ks = append(ks, fmt.Sprintf("%d=%d", id(v), n))
			}
			sort.Strings(ks)
			for _, c := range s.stack {
				ks = append(ks, fmt.Sprintf("@%p", c.ins))
				var es []string
				for v, n := range c.env {
					es = append(es, fmt.Sprintf("%d=%d", id(v), n))
				}
				sort.Strings(es)
				ks = append(ks, es...)
			}
			k := fmt.Sprint(s.blk.Parent(), s.blk.Index, " ", s.pos, " ", s.reg, " ", s.la, " ", s.dec, s.alt, " ", ks)
			if seen[k] {
				return
			}
			seen[k] = true
		}
		work = append(work, s)
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		w.n++
		if w.n > 400000 {
			w.fail(s.blk.Instrs[0], "size", "the walk through this method did not end")
			return
		}
		w.run(s, push)
	}
}

func (s *lsState) fork(idx int) *lsState {
	env := map[ssa.Value]int64{}
	for k, v := range s.env {
		env[k] = v
	}
	return &lsState{blk: s.blk, prev: s.prev, idx: idx, env: env, pos: s.pos, reg: s.reg, la: s.la, dec: s.dec, alt: s.alt, stack: s.stack}
}

// within: the function is being walked already.
func (s *lsState) within(fn, top *ssa.Function) bool {
	if fn == top || s.blk.Parent() == fn {
		return true
	}
	for _, c := range s.stack {
		if c.blk.Parent() == fn {
			return true
		}
	}
	return false
}

func (w *lockstep) run(s *lsState, push func(*lsState)) {
	for i := s.idx; i < len(s.blk.Instrs); i++ {
		switch x := s.blk.Instrs[i].(type) {
		case *ssa.Phi:
			// done on entry
		case *ssa.BinOp:
			a, ok1 := w.eval(s.env, x.X)
			b, ok2 := w.eval(s.env, x.Y)
			if n, ok := binop(x.Op, a, b); ok && ok1 && ok2 {
				s.env[x] = n
			} else {
				delete(s.env, x)
			}
		case *ssa.UnOp:
			if a, ok := w.eval(s.env, x.X); ok {
				switch x.Op {
				case token.NOT:
					s.env[x] = 1 - a
				case token.SUB:
					s.env[x] = -a
				case token.XOR:
					s.env[x] = ^a
				}
			} else if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL && g.Pkg == w.c.P.AntS {
				if n, ok := w.c.fixedGlobal(g); ok {
					s.env[x] = n
				}
			}
		case *ssa.Convert:
			if a, ok := w.eval(s.env, x.X); ok {
				if b, ok := x.Type().Underlying().(*types.Basic); ok {
					switch b.Kind() {
					case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
						s.env[x] = a
					case types.Uint32:
						s.env[x] = int64(uint32(a))
					case types.Int32:
						s.env[x] = int64(int32(a))
					}
				}
			}
		case *ssa.ChangeType:
			if a, ok := w.eval(s.env, x.X); ok {
				s.env[x] = a
			}
		case *ssa.Call:
			if !w.op(s, x, i, push) {
				return
			}
		case *ssa.Defer, *ssa.RunDefers:
			if len(s.stack) > 0 {
				w.fail(x, "defer", "a helper of a generated method defers a call")
			}
		case *ssa.Go:
			w.fail(x, "go statement", "a generated rule method starts a goroutine")
		case *ssa.Panic:
			if s.la == laUnknown {
				w.fail(x, "refuses the input", "no viable alternative is reported without looking at the next token")
			} else if w.l.next(s.pos).Has(s.la) {
				w.fail(x, "refuses the input", "no viable alternative is reported although the tables allow %s next", tokSet(s.la).names(w.g))
			}
			return
		case *ssa.Return:
			if n := len(s.stack); n > 0 {
				// back in the caller of a helper
				c := s.stack[n-1]
				env := map[ssa.Value]int64{}
				for k, v := range c.env {
					env[k] = v
				}
				if len(x.Results) == 1 {
					if v, ok := w.eval(s.env, x.Results[0]); ok {
						env[c.ins] = v
					}
				}
				push(&lsState{blk: c.blk, prev: c.prev, idx: c.idx, env: env, pos: s.pos, reg: s.reg, la: s.la, dec: s.dec, alt: s.alt, stack: s.stack[: n-1 : n-1]})
				return
			}
			stop := w.l.a.ruleStop[w.rule]
			if to, why := w.move(s.pos, s.la, func(n int) bool { return n == stop }); to < 0 {
				w.fail(x, "return", "the method ends although the rule does not end here: %s", why)
			}
			return
		case *ssa.If:
			c, ok := w.eval(s.env, x.Cond)
			for k, succ := range s.blk.Succs {
				if !ok || (c == 1) == (k == 0) {
					n := s.fork(0)
					n.prev, n.blk = s.blk, succ
					push(n)
				}
			}
			return
		case *ssa.Jump:
			n := s.fork(0)
			n.prev, n.blk = s.blk, s.blk.Succs[0]
			push(n)
			return
		}
	}
}

// op makes one operation of the method on the network; false ends this path.
func (w *lockstep) op(s *lsState, x *ssa.Call, i int, push func(*lsState)) bool {
	name, pkg, static := calleeName(&x.Call)
	args := x.Call.Args
	if !x.Call.IsInvoke() && static != nil && static.Signature.Recv() != nil && len(args) > 0 {
		args = args[1:]
	}
	w.ops[x] = true
	if static != nil && w.c.P.Own[pkgOf(static)] {
		if r, ok := w.rules[static]; ok {
			isCall := func(n int) bool {
				for _, t := range w.l.a.states[n].trans {
					if t.typ == trRule && t.rule == r {
						return true
					}
				}
				return false
			}
			if s.reg != s.pos {
				w.fail(x, "call of "+name, "the parser's state is not the one of this place in the tables (state %d is set, the place is state %d)", s.reg, s.pos)
			}
			to, why := w.move(s.pos, s.la, isCall)
			if to < 0 {
				w.fail(x, "call of "+name, "rule %s is not what the tables have next: %s", w.g.Rules[r], why)
				return false
			}
			if to != s.pos {
				w.fail(x, "call of "+name, "rule %s is entered from the wrong parser state (%d instead of %d)", w.g.Rules[r], s.pos, to)
			}
			for _, t := range w.l.a.states[to].trans {
				if t.typ == trRule && t.rule == r {
					s.pos = t.to
				}
			}
			s.la, s.dec = laUnknown, 0
			return true
		}
		if strings.HasPrefix(name, "New") && strings.HasSuffix(name, "Context") {
			return true
		}
		if len(static.Blocks) > 0 && len(static.FreeVars) == 0 && len(s.stack) < 6 && !s.within(static, w.fn) {
			// a helper: it is walked in place
			n := s.fork(0)
			n.stack = append(s.stack[:len(s.stack):len(s.stack)], lsCall{ins: x, blk: s.blk, prev: s.prev, idx: i + 1, env: n.env})
			n.env = map[ssa.Value]int64{}
			for k, p := range static.Params {
				if v, ok := w.eval(s.env, x.Call.Args[k]); ok {
					n.env[p] = v
				}
			}
			n.prev, n.blk = nil, static.Blocks[0]
			push(n)
			return false
		}
		w.fail(x, "call of "+name, "the method calls something that is not a rule of the grammar")
		return true
	}
	if pkg != antlrPath {
		if pkg == "builtin" {
			return true
		}
		w.fail(x, "call of "+pkg+"."+name, "the method calls something that is not an operation of the recogniser")
		return true
	}
	constArg := func(k int) (int64, bool) {
		if k >= len(args) {
			return 0, false
		}
		return w.eval(s.env, args[k])
	}
	switch name {
	case "GetState", "GetParserRuleContext", "GetTokenStream", "GetErrorHandler", "GetInterpreter", "EnterOuterAlt", "ReportMatch", "NewNoViableAltException", "GetCurrentToken", "LT":
	case "EnterRule":
		st, ok1 := constArg(1)
		r, ok2 := constArg(2)
		if !ok1 || int(st) != w.l.a.ruleStart[w.rule] {
			w.fail(x, "EnterRule", "the start state given is %d, the tables have %d", st, w.l.a.ruleStart[w.rule])
		}
		if !ok2 || int(r) != w.rule {
			w.fail(x, "EnterRule", "the rule index given is %d instead of %d", r, w.rule)
		}
		s.reg = int(st)
	case "SetState":
		n, ok := constArg(0)
		if !ok || n < 0 || int(n) >= len(w.l.a.states) {
			w.fail(x, "SetState", "the state is not a state of the tables")
			return false
		}
		if to, why := w.move(s.pos, s.la, func(k int) bool { return k == int(n) }); to < 0 {
			w.fail(x, fmt.Sprintf("SetState(%d)", n), "from state %d of the tables, state %d is not where the method goes: %s", s.pos, n, why)
			return false
		}
		s.pos, s.reg, s.dec = int(n), int(n), 0
	case "Sync":
		if s.reg != s.pos {
			w.fail(x, "Sync", "the parser's state is not the one of this place in the tables (state %d is set, the place is state %d)", s.reg, s.pos)
		}
	case "LA":
		if n, ok := constArg(0); !ok || n != 1 {
			w.fail(x, "LA", "the token looked at is not the next one")
			return true
		}
		if s.la != laUnknown {
			s.env[x] = tokValue(s.la)
			return true
		}
		for t := 0; t <= w.l.a.maxTok; t++ {
			n := s.fork(i + 1)
			n.la = t
			n.env[x] = tokValue(t)
			push(n)
		}
		return false
	case "AdaptivePredict":
		d, ok := constArg(1)
		if !ok || d < 0 || int(d) >= len(w.l.a.decisions) {
			w.fail(x, "AdaptivePredict", "the decision is not one of the tables")
			return false
		}
		if s.dec == int(d)+1 {
			s.env[x] = int64(s.alt) // asked again at the same place
			return true
		}
		ds := w.l.a.decisions[d]
		to, why := w.move(s.pos, s.la, func(k int) bool { return k == ds })
		if to < 0 {
			w.fail(x, fmt.Sprintf("decision %d", d), "the decision asked for is not the one the tables have here: %s", why)
			return false
		}
		for k := range w.l.a.states[ds].trans {
			n := s.fork(i + 1)
			n.env[x] = int64(k + 1)
			n.dec, n.alt = int(d)+1, k+1
			n.pos = w.l.a.states[ds].trans[k].to
			push(n)
		}
		return false
	case "Match":
		t, ok := constArg(0)
		if !ok {
			w.fail(x, "Match", "the token to match is not known")
			return false
		}
		set := tokSet(tokIndex(t))
		to, why := w.move(s.pos, s.la, func(k int) bool { return w.over(k, set) >= 0 })
		if to < 0 {
			w.fail(x, "Match of "+set.names(w.g), "this token is not what the tables have next: %s", why)
			return false
		}
		s.pos, s.la, s.dec = w.over(to, set), laUnknown, 0
	case "MatchWildcard":
		w.fail(x, name, "not an operation of this grammar")
	case "RecoverInline":
		set, to := w.set(s.pos)
		if to < 0 || s.la == laUnknown || set.Has(s.la) {
			w.fail(x, "RecoverInline", "an error is reported for a token the tables allow")
			return false
		}
		s.pos, s.la, s.dec = to, laUnknown, 0
	case "Consume":
		set, to := w.set(s.pos)
		if to < 0 {
			w.fail(x, "Consume", "the tables do not have a token next")
			return false
		}
		if s.la == laUnknown || !set.Has(s.la) {
			w.fail(x, "Consume", "a token the tables do not allow here is accepted: %s", tokSet(max(s.la, 0)).names(w.g))
			return false
		}
		s.pos, s.la, s.dec = to, laUnknown, 0
	default:
		w.fail(x, "call of "+name, "this operation of the recogniser is not one that the generated methods use")
	}
	return true
}

func pkgOf(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func tokValue(t int) int64 {
	if t == 0 {
		return -1
	}
	return int64(t)
}

func tokIndex(v int64) int {
	if v == -1 {
		return 0
	}
	return int(v)
}

// over is the state behind a transition over exactly this set of tokens.
func (w *lockstep) over(s int, set TokSet) int {
	for _, t := range w.l.a.states[s].trans {
		if l, ok, err := w.l.a.label(t); err == nil && ok && l == set {
			return t.to
		}
	}
	return -1
}

// set is the token transition that leaves a state.
func (w *lockstep) set(s int) (TokSet, int) {
	for _, t := range w.l.a.states[s].trans {
		if l, ok, err := w.l.a.label(t); err == nil && ok {
			return l, t.to
		}
	}
	return TokSet{}, -1
}

func ruleConform(c *Ctx, prop string, r *RuleRun) {
	rc := c.recog()
	g := rc.g
	rules := map[*ssa.Function]int{}
	byRule := c.ruleMethods()
	for k, fn := range byRule {
		rules[fn] = k
	}
	l := newLook(rc.parATN)
	scope := c.scope(prop)
	if prop == "C04" {
		scope = map[int]bool{}
		for k := range g.Rules {
			scope[k] = true
		}
	}
	steps := 0
	for k, n := range g.Rules {
		if !scope[k] {
			continue
		}
		fn := byRule[k]
		if fn == nil {
			r.fail("rule "+n, "", "the recogniser has no method %s for this rule", upperFirst(n))
			continue
		}
		w := &lockstep{c: c, l: l, g: g, fn: fn, rule: k, rules: rules}
		w.walk()
		w.frame()
		steps += w.n
		for _, f := range w.fails {
			r.fail(f.Construct, f.Pos, "%s", f.Detail)
		}
		for ins := range w.ops {
			_ = ins
			r.ok("rule " + n)
		}
	}
	r.count("rule methods", len(rules))
	r.count("steps of the walk through code and tables", steps)
}

// ruleMethods are the methods of the recogniser for the grammar's rules.
func (c *Ctx) ruleMethods() map[int]*ssa.Function {
	parserType := c.parserType()
	if parserType == nil {
		panic("the parser type was not found")
	}
	out := map[int]*ssa.Function{}
	ms := c.P.SSA.MethodSets.MethodSet(types.NewPointer(parserType))
	for i := 0; i < ms.Len(); i++ {
		fn := c.P.SSA.MethodValue(ms.At(i))
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		for k, n := range c.recog().g.Rules {
			if upperFirst(n) == fn.Name() {
				out[k] = fn
			}
		}
	}
	return out
}

// parserType is the type whose methods are the grammar's rules.
func (c *Ctx) parserType() *types.Named {
	return c.embedding("BaseParser")
}

// embedding finds the type of the parser package that embeds a base type of the ANTLR runtime.
func (c *Ctx) embedding(base string) *types.Named {
	sc := c.P.Parser.Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := named.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Embedded() && f.Type().String() == "*"+antlrPath+"."+base {
				return named
			}
		}
	}
	return nil
}

// frame checks how a rule method begins and ends: its context, and what it defers.
func (w *lockstep) frame() {
	want := upperFirst(w.g.Rules[w.rule]) + "Context"
	made, stored := 0, 0
	var local ssa.Value
	exits, recovers := false, false
	for _, b := range w.fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Call:
				name, _, f := calleeName(&x.Call)
				if f != nil && w.c.P.Own[pkgOf(f)] && strings.HasPrefix(name, "New") {
					made++
					if name != "New"+want {
						w.fail(x, "context", "the method makes a %s", strings.TrimPrefix(name, "New"))
					}
				}
			case *ssa.Store:
				if mi, ok := x.Val.(*ssa.MakeInterface); ok {
					if p, ok := mi.X.Type().(*types.Pointer); ok {
						if n, ok := p.Elem().(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "Context") {
							stored++
							local = x.Addr
							if n.Obj().Name() != want {
								w.fail(x, "context", "the method's context is a %s", n.Obj().Name())
							}
						}
					}
				}
			case *ssa.Defer:
				if f := w.deferred(&x.Call); f != nil {
					names := map[string]bool{}
					w.callsOf(f, names, 0)
					if names["ExitRule"] && !names["recover"] && b.Index == 0 {
						exits = true
					}
					if names["recover"] && names["SetException"] && names["ReportError"] && names["Recover"] && b.Index == 0 {
						recovers = true
					}
				} else if n, _, _ := calleeName(&x.Call); n == "ExitRule" && b.Index == 0 {
					exits = true
				}
			}
		}
	}
	first := w.fn.Blocks[0].Instrs[0]
	if made != 1 || stored != 1 {
		w.fail(first, "context", "the method makes %d contexts and keeps %d", made, stored)
	}
	if !exits {
		w.fail(first, "ExitRule", "leaving the rule is not deferred")
	}
	if !recovers {
		w.fail(first, "recover", "syntax errors found in this rule are not reported")
	}
	for _, b := range w.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		if u, ok := ret.Results[0].(*ssa.UnOp); !ok || u.X != local {
			w.fail(ret, "return value", "the method does not return its own context")
		}
	}
}

// deferred is the closure or helper of this package that is called when the method ends.
func (w *lockstep) deferred(c *ssa.CallCommon) *ssa.Function {
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		return mc.Fn.(*ssa.Function)
	}
	if f := c.StaticCallee(); f != nil && w.c.P.Own[pkgOf(f)] && len(f.Blocks) > 0 {
		return f
	}
	return nil
}

// callsOf names what a function calls, by itself or through helpers; recover counts only when it is called by the
// deferred function itself.
func (w *lockstep) callsOf(f *ssa.Function, names map[string]bool, depth int) {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			call, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			n, _, static := calleeName(call.Common())
			if n != "recover" || depth == 0 {
				names[n] = true
			}
			if static != nil && depth < 3 && w.c.P.Own[pkgOf(static)] && n != "recover" {
				w.callsOf(static, names, depth+1)
			}
		}
	}
}

// fixedGlobal is the value of a variable of the ANTLR runtime that is only written at its declaration.
func (c *Ctx) fixedGlobal(g *ssa.Global) (int64, bool) {
	type res struct {
		n  int64
		ok bool
	}
	r := memo(c, "global "+g.Name(), func() res {
		out := res{0, true}
		for _, sp := range c.P.SSA.AllPackages() {
			for _, m := range sp.Members {
				fn, ok := m.(*ssa.Function)
				if !ok || sp != g.Pkg && !c.P.Own[sp.Pkg] {
					continue
				}
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						s, ok := ins.(*ssa.Store)
						if !ok || s.Addr != ssa.Value(g) {
							continue
						}
						k, isConst := s.Val.(*ssa.Const)
						if !isConst || k.Value == nil || fn.Name() != "init" {
							return res{}
						}
						n, exact := constant.Int64Val(constant.ToInt(k.Value))
						out = res{n, exact}
					}
				}
			}
		}
		return out
	})
	return r.n, r.ok
}
