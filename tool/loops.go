package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination of the repository's own code outside the generated rule methods (whose loops are those of the
// tables): every loop has a measure that falls on every round, every recursion one that falls on every call.

type ranker struct {
	c  *Ctx
	e  *effects
	fn *ssa.Function
	// the loop under examination
	h    *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func ruleLoops(c *Ctx, prop string, r *RuleRun) {
	e := c.effects()
	rules := c.ruleMethods()
	skip := map[*ssa.Function]bool{}
	for _, fn := range rules {
		skip[fn] = true
	}
	all := map[*ssa.Function]bool{}
	for fn := range e.parse {
		all[fn] = true
	}
	for fn := range e.setup {
		all[fn] = true
	}
	loops := 0
	for _, fn := range sortFns(all) {
		if skip[fn] {
			continue
		}
		r.ok(fn.String())
		k := &ranker{c: c, e: e, fn: fn}
		if b := k.irreducible(); b != nil {
			r.fail(fn.String(), c.P.Pos(fn.Pos()), "jumps form a cycle without a single entry; no measure can be attached to it")
			continue
		}
		for _, h := range fn.Blocks {
			k.h, k.body = h, naturalLoop(h)
			if len(k.latches()) == 0 {
				continue
			}
			loops++
			why := k.measure()
			r.check(why != "", "loop of "+fn.String(), c.P.Pos(k.pos()), "no measure is found that falls on every round of this loop: it may run forever")
		}
	}
	r.count("functions examined", len(all)-len(skip))
	r.count("loops", loops)
	rec := k0(c, e, skip).recursions(r, all)
	r.count("recursive groups of functions", rec)
}

func k0(c *Ctx, e *effects, skip map[*ssa.Function]bool) *recursion {
	return &recursion{c, e, skip}
}

func (k *ranker) pos() token.Pos {
	for b := range k.body {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return k.fn.Pos()
}

func (k *ranker) latches() []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, p := range k.h.Preds {
		if k.h.Dominates(p) {
			out = append(out, p)
		}
	}
	return out
}

// irreducible finds a cycle of jumps that is not a natural loop.
func (k *ranker) irreducible() *ssa.BasicBlock {
	state := map[*ssa.BasicBlock]int{}
	var visit func(b *ssa.BasicBlock) *ssa.BasicBlock
	visit = func(b *ssa.BasicBlock) *ssa.BasicBlock {
		state[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			if state[s] == 1 {
				return s
			}
			if state[s] == 0 {
				if x := visit(s); x != nil {
					return x
				}
			}
		}
		state[b] = 2
		return nil
	}
	if len(k.fn.Blocks) == 0 {
		return nil
	}
	return visit(k.fn.Blocks[0])
}

// everyRound says whether a block is executed on every round that goes on.
func (k *ranker) everyRound(b *ssa.BasicBlock) bool {
	if !k.body[b] {
		return false
	}
	for _, l := range k.latches() {
		if !b.Dominates(l) {
			return false
		}
	}
	return true
}

// inv says whether a value is the same on every round.
func (k *ranker) inv(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !k.body[x.Block()] {
			return true
		}
		switch y := v.(type) {
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return k.inv(y.Call.Args[0])
			}
			return k.pureCall(&y.Call)
		case *ssa.BinOp:
			return k.inv(y.X) && k.inv(y.Y)
		case *ssa.Convert:
			return k.inv(y.X)
		case *ssa.ChangeType:
			return k.inv(y.X)
		case *ssa.Slice:
			return k.inv(y.X) && (y.Low == nil || k.inv(y.Low)) && (y.High == nil || k.inv(y.High))
		case *ssa.Field:
			return k.inv(y.X)
		case *ssa.FieldAddr:
			return k.inv(y.X)
		case *ssa.IndexAddr:
			return k.inv(y.X) && k.inv(y.Index)
		case *ssa.Extract:
			return k.inv(y.Tuple)
		case *ssa.UnOp:
			if y.Op == token.MUL {
				return k.inv(y.X) && !k.written(y.X)
			}
			return k.inv(y.X)
		}
	}
	return false
}

// pureCall says whether a call gives the same on every round: functions of texts and numbers, and the tree's
// (which does not change while it is interpreted).
func (k *ranker) pureCall(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if !k.inv(a) {
			return false
		}
	}
	if c.IsInvoke() {
		return k.inv(c.Value) && treeGetter(c.Method.Name())
	}
	fn := c.StaticCallee()
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "strings", "unicode", "unicode/utf8", "strconv", "math":
			return true
		}
	}
	return treeGetter(fn.Name()) && fn.Signature.Recv() != nil
}

func treeGetter(n string) bool {
	return strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "All")
}

// written says whether the memory at an address may be written in the loop.
func (k *ranker) written(addr ssa.Value) bool {
	fa, isField := addr.(*ssa.FieldAddr)
	if a, ok := addr.(*ssa.Alloc); ok && !isField {
		for _, ref := range *a.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr == ssa.Value(a) && k.body[x.Block()] {
					return true
				}
				if x.Val == ssa.Value(a) {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return true
			}
		}
		return false
	}
	if g, ok := addr.(*ssa.Global); ok {
		return k.loopWrites(func(s *ssa.Store) bool { return s.Addr == ssa.Value(g) })
	}
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		t := ia.Type().Underlying().(*types.Pointer).Elem()
		return k.loopWrites(func(s *ssa.Store) bool { return types.Identical(s.Val.Type(), t) })
	}
	if !isField {
		return true
	}
	key := fieldKey(fa.X.Type(), fa.Field)
	return k.loopWrites(func(s *ssa.Store) bool {
		if f, ok := s.Addr.(*ssa.FieldAddr); ok {
			return fieldKey(f.X.Type(), f.Field) == key
		}
		return types.Identical(s.Val.Type(), fa.Type().Underlying().(*types.Pointer).Elem())
	})
}

// loopWrites says whether a store of some kind may happen in the loop, in it or in the repository's functions it
// may call.
func (k *ranker) loopWrites(is func(*ssa.Store) bool) bool {
	seen := map[*ssa.Function]bool{}
	var in func(fn *ssa.Function) bool
	instr := func(ins ssa.Instruction) bool {
		if s, ok := ins.(*ssa.Store); ok && is(s) {
			return true
		}
		found := false
		k.e.mentions(ins, nil, func(f *ssa.Function) { found = found || in(f) })
		if c, ok := ins.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
			for f := range k.e.parse {
				if f.Name() == c.Common().Method.Name() && f.Signature.Recv() != nil && in(f) {
					found = true
				}
			}
		} else if ok && c.Common().StaticCallee() == nil {
			if _, b := c.Common().Value.(*ssa.Builtin); !b {
				found = true
			}
		}
		return found
	}
	in = func(fn *ssa.Function) bool {
		if seen[fn] || !k.e.own(fn) {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if instr(ins) {
					return true
				}
			}
		}
		return false
	}
	for b := range k.body {
		for _, ins := range b.Instrs {
			if instr(ins) {
				return true
			}
		}
	}
	return false
}

// measure names the measure that falls on every round.
func (k *ranker) measure() string {
	// iteration over a map or a text
	for b := range k.body {
		for _, ins := range b.Instrs {
			if n, ok := ins.(*ssa.Next); ok && k.everyRound(b) {
				if r, ok := n.Iter.(*ssa.Range); ok && !k.body[r.Block()] && k.exitsOn(n) {
					return "elements left"
				}
			}
		}
	}
	for _, ins := range k.h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if why := k.variable(p, k.latchValues(p), p); why != "" {
			return why
		}
	}
	if k.closing() {
		return "distance of two numbers"
	}
	// variables in memory
	for b := range k.body {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if why := k.cell(s); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// closing: two variables of the loop, one growing and one falling, are compared on every round.
func (k *ranker) closing() bool {
	moves := func(p *ssa.Phi, sign int64) bool {
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return false
		}
		for _, v := range k.latchValues(p) {
			d, ok := k.delta(v, func(v ssa.Value) bool { return v == ssa.Value(p) })
			if !ok || d*sign < 1 {
				return false
			}
		}
		return true
	}
	for b := range k.body {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !k.everyRound(b) {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, ok1 := c.X.(*ssa.Phi)
		y, ok2 := c.Y.(*ssa.Phi)
		if !ok1 || !ok2 || x.Block() != k.h || y.Block() != k.h {
			continue
		}
		stay := k.body[b.Succs[0]] && !k.body[b.Succs[1]]
		leave := !k.body[b.Succs[0]] && k.body[b.Succs[1]]
		switch c.Op {
		case token.LSS, token.LEQ:
			if stay && moves(x, 1) && moves(y, -1) || leave && moves(x, -1) && moves(y, 1) {
				return true
			}
		case token.GTR, token.GEQ:
			if stay && moves(x, -1) && moves(y, 1) || leave && moves(x, 1) && moves(y, -1) {
				return true
			}
		}
	}
	return false
}

// exitsOn: the loop is left when the iterator has no more.
func (k *ranker) exitsOn(n *ssa.Next) bool {
	for _, ref := range *n.Referrers() {
		x, ok := ref.(*ssa.Extract)
		if !ok || x.Index != 0 {
			continue
		}
		for _, ref := range *x.Referrers() {
			if i, ok := ref.(*ssa.If); ok && k.everyRound(i.Block()) && !k.body[i.Block().Succs[1]] {
				return true
			}
		}
	}
	return false
}

func (k *ranker) latchValues(p *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	for i, e := range p.Edges {
		if k.h.Dominates(k.h.Preds[i]) {
			out = append(out, e)
		}
	}
	return out
}

// same says whether v is the variable p, or another reading of it in the same round.
type isVar func(v ssa.Value) bool

// variable looks for a measure in a variable given its values at the end of a round.
func (k *ranker) variable(p ssa.Value, ends []ssa.Value, at *ssa.Phi) string {
	is := func(v ssa.Value) bool { return v == p }
	return k.ranked(p.Type(), ends, is)
}

func (k *ranker) ranked(t types.Type, ends []ssa.Value, is isVar) string {
	if len(ends) == 0 {
		return ""
	}
	all := func(f func(v ssa.Value) bool) bool {
		for _, v := range ends {
			if !k.deep(v, map[ssa.Value]bool{}, f) {
				return false
			}
		}
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := int64(1)<<40, -int64(1)<<40
			known := all(func(v ssa.Value) bool {
				d, ok := k.delta(v, is)
				if ok {
					lo, hi = min(lo, d), max(hi, d)
				}
				return ok
			})
			if !known {
				// it may also grow by unknown positive amounts
				if all(func(v ssa.Value) bool { return k.grows(v, is) }) && k.bound(is, 1, false) {
					return "distance to the bound"
				}
				return ""
			}
			if lo >= 1 && k.bound(is, 1, lo == 1 && hi == 1) {
				return "distance to the upper bound"
			}
			if hi <= -1 && k.bound(is, -1, lo == -1 && hi == -1) {
				return "distance to the lower bound"
			}
			return ""
		}
		if u.Info()&types.IsString != 0 && all(func(v ssa.Value) bool { return k.shorter(v, is) }) {
			return "length of the text"
		}
	case *types.Slice:
		if all(func(v ssa.Value) bool { return k.shorter(v, is) }) {
			return "length of the slice"
		}
	}
	for _, dir := range []string{"GetParent", "GetChild"} {
		if all(func(v ssa.Value) bool { return k.step(v, is, dir) }) {
			return "distance in the tree"
		}
	}
	return ""
}

// deep applies f to every value a variable may have after joins within the loop.
func (k *ranker) deep(v ssa.Value, seen map[ssa.Value]bool, f func(ssa.Value) bool) bool {
	if p, ok := v.(*ssa.Phi); ok && k.body[p.Block()] && p.Block() != k.h {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, e := range p.Edges {
			if !k.deep(e, seen, f) {
				return false
			}
		}
		return true
	}
	return f(v)
}

// delta: v is the variable plus a constant.
func (k *ranker) delta(v ssa.Value, is isVar) (int64, bool) {
	if is(v) {
		return 0, true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op != token.ADD && x.Op != token.SUB {
			return 0, false
		}
		if c, ok := x.Y.(*ssa.Const); ok {
			if n, ok := ssaInt(c); ok {
				d, ok := k.delta(x.X, is)
				if x.Op == token.SUB {
					n = -n
				}
				return d + n, ok
			}
		}
		if c, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD {
			if n, ok := ssaInt(c); ok {
				d, ok := k.delta(x.Y, is)
				return d + n, ok
			}
		}
	case *ssa.Phi:
		// increments on some ways only: the smallest
		if k.body[x.Block()] && x.Block() != k.h {
			lo, ok := int64(0), false
			for i, e := range x.Edges {
				d, o := k.delta(e, is)
				if !o {
					return 0, false
				}
				if i == 0 || d < lo && d >= 0 || d > lo && d <= 0 {
					lo = d
				}
				ok = true
			}
			return lo, ok
		}
	}
	return 0, false
}

func ssaInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// grows: v is the variable plus something positive, or a position found after it plus something positive.
func (k *ranker) grows(v ssa.Value, is isVar) bool {
	x, ok := v.(*ssa.BinOp)
	if !ok || x.Op != token.ADD {
		return false
	}
	atLeast := func(v ssa.Value) (int64, bool) {
		if is(v) {
			return 0, true
		}
		return 0, false
	}
	if _, ok := atLeast(x.X); ok && k.positive(x.Y, x.Block()) {
		return true
	}
	if _, ok := atLeast(x.Y); ok && k.positive(x.X, x.Block()) {
		return true
	}
	// (i + n) + c
	if k.positive(x.Y, x.Block()) {
		if y, ok := x.X.(*ssa.BinOp); ok && y.Op == token.ADD {
			return is(y.X) && k.natural(y.Y, x.Block()) || is(y.Y) && k.natural(y.X, x.Block()) || k.grows(y, is)
		}
		if y, ok := x.X.(*ssa.Phi); ok && k.body[y.Block()] {
			d, ok := k.delta(y, is)
			return ok && d >= 0
		}
	}
	return false
}

// positive: at least one, where it is used in block b.
func (k *ranker) positive(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := ssaInt(x)
		return ok && n >= 1
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return k.positive(x.X, b) && k.natural(x.Y, b) || k.natural(x.X, b) && k.positive(x.Y, b)
		}
	case *ssa.Extract:
		// the size of a decoded rune: positive if there is something to decode
		if c, ok := x.Tuple.(*ssa.Call); ok && x.Index == 1 {
			switch externName(&c.Call) {
			case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString", "unicode/utf8.DecodeLastRune":
				return true
			}
		}
	case *ssa.Call:
		switch externName(&x.Call) {
		case "unicode/utf8.RuneLen":
			return false
		}
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				return len(constant.StringVal(c.Value)) > 0
			}
		}
	}
	return k.guarded(v, b, 1)
}

// natural: not negative, where it is used in block b.
func (k *ranker) natural(v ssa.Value, b *ssa.BasicBlock) bool {
	switch x := v.(type) {
	case *ssa.Const:
		n, ok := ssaInt(x)
		return ok && n >= 0
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return true
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return k.natural(x.X, b) && k.natural(x.Y, b)
		}
	case *ssa.Phi:
		// a counter from a natural number up
		for i, e := range x.Edges {
			if x.Block().Dominates(x.Block().Preds[i]) {
				d, ok := k.delta(e, func(v ssa.Value) bool { return v == ssa.Value(x) })
				if !ok || d < 0 {
					return k.guarded(v, b, 0)
				}
			} else if c, ok := e.(*ssa.Const); !ok {
				return k.guarded(v, b, 0)
			} else if n, ok := ssaInt(c); !ok || n < -1 || n < 0 && b == x.Block() {
				return k.guarded(v, b, 0)
			}
		}
		return true
	}
	return k.positive(v, b) || k.guarded(v, b, 0)
}

// guarded: a condition known in block b says v >= n.
func (k *ranker) guarded(v ssa.Value, b *ssa.BasicBlock, n int64) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 {
			continue
		}
		i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		for s := 0; s < 2; s++ {
			if id.Succs[s] == d && len(d.Preds) == 1 && k.says(i.Cond, s == 0, v, n) {
				return true
			}
		}
	}
	return false
}

// says: the condition with this outcome implies v >= n.
func (k *ranker) says(cond ssa.Value, outcome bool, v ssa.Value, n int64) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && k.says(x.X, !outcome, v, n)
	case *ssa.BinOp:
		op, a, b := x.Op, x.X, x.Y
		if b == v {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		c, ok := b.(*ssa.Const)
		if a != v || !ok {
			return false
		}
		m, ok := ssaInt(c)
		if !ok {
			return false
		}
		if !outcome {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		switch op {
		case token.GEQ, token.EQL:
			return m >= n
		case token.GTR:
			return m+1 >= n
		case token.NEQ:
			// positions are at least -1
			if e, ok := a.(*ssa.Call); ok {
				return m == -1 && n == 0 && strings.Contains(externName(&e.Call), "Index")
			}
		}
	}
	return false
}

func externName(c *ssa.CallCommon) string {
	if fn := c.StaticCallee(); fn != nil && fn.Pkg != nil && fn.Signature.Recv() == nil {
		return fn.Pkg.Pkg.Path() + "." + fn.Name()
	}
	return ""
}

// bound: on every round the variable is compared with something fixed so that growing (dir 1) or falling (dir -1)
// far enough leaves the loop. exact allows tests for equality, which steps of one cannot jump over.
func (k *ranker) bound(is isVar, dir int, exact bool) bool {
	for b := range k.body {
		if len(b.Instrs) == 0 || !k.everyRound(b) {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for s := 0; s < 2; s++ {
			if !k.body[b.Succs[s]] && k.body[b.Succs[1-s]] && k.leaves(i.Cond, s == 0, is, dir, exact) {
				return true
			}
		}
	}
	return false
}

// leaves: the condition has this outcome (which leaves the loop) once the variable is far enough in a direction.
func (k *ranker) leaves(cond ssa.Value, outcome bool, is isVar, dir int, exact bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		return x.Op == token.NOT && k.leaves(x.X, !outcome, is, dir, exact)
	case *ssa.BinOp:
		op, a, b := x.Op, x.X, x.Y
		if _, ok := k.delta(b, is); ok {
			a, b = b, a
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		d, ok := k.delta(a, is)
		if !ok || !k.inv(b) {
			return false
		}
		if !outcome {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.GTR:
				op = token.LEQ
			case token.LEQ:
				op = token.GTR
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			}
		}
		switch op {
		case token.GEQ, token.GTR:
			return dir > 0
		case token.LEQ, token.LSS:
			return dir < 0
		case token.EQL:
			// up from nought or below to a length or a number, or down to nought
			if !exact {
				return false
			}
			if dir > 0 {
				return k.natural(b, k.h) && k.starts(is, func(v ssa.Value) bool {
					c, ok := v.(*ssa.Const)
					if !ok {
						return false
					}
					n, ok := ssaInt(c)
					if m, isC := b.(*ssa.Const); isC {
						if w, o := ssaInt(m); o {
							return ok && n+d <= w
						}
					}
					return ok && n+d <= 0
				})
			}
			c, isC := b.(*ssa.Const)
			if !isC {
				return false
			}
			n, ok := ssaInt(c)
			return ok && n-d <= 0 && k.starts(is, func(v ssa.Value) bool {
				if n-d == -1 {
					if y, ok := v.(*ssa.BinOp); ok && y.Op == token.SUB {
						if o, ok := y.Y.(*ssa.Const); ok {
							m, _ := ssaInt(o)
							return m == 1 && k.natural(y.X, k.h)
						}
					}
				}
				return k.natural(v, k.h)
			})
		}
	}
	return false
}

// starts checks the values of the variable when the loop is entered.
func (k *ranker) starts(is isVar, f func(ssa.Value) bool) bool {
	for _, ins := range k.h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !is(p) {
			continue
		}
		for i, e := range p.Edges {
			if !k.h.Dominates(k.h.Preds[i]) && !f(e) {
				return false
			}
		}
		return true
	}
	return false
}

// shorter: v is a proper part of the variable.
func (k *ranker) shorter(v ssa.Value, is isVar) bool {
	part := func(v ssa.Value) bool { return is(v) || k.noLonger(v, is) }
	switch x := v.(type) {
	case *ssa.Slice:
		if !part(x.X) {
			return false
		}
		if x.Low != nil && k.positive(x.Low, x.Block()) {
			return true
		}
		if x.Low != nil && !k.natural(x.Low, x.Block()) {
			return false
		}
		if x.High != nil {
			if h, ok := x.High.(*ssa.BinOp); ok && h.Op == token.SUB && k.lenOf(h.X, x.X, is) && k.positive(h.Y, x.Block()) {
				return true
			}
			// a position within it
			if c, ok := x.High.(*ssa.Call); ok && strings.Contains(externName(&c.Call), "Index") && len(c.Call.Args) > 0 && part(c.Call.Args[0]) {
				return true
			}
		}
		return k.shorter(x.X, is)
	case *ssa.Call:
		switch externName(&x.Call) {
		case "strings.TrimPrefix", "strings.TrimSuffix":
			return part(x.Call.Args[0]) && (k.shorter(x.Call.Args[0], is) || k.holds(x.Block(), map[string]string{"strings.TrimPrefix": "strings.HasPrefix", "strings.TrimSuffix": "strings.HasSuffix"}[externName(&x.Call)], x.Call.Args[:2]))
		case "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimLeftFunc", "strings.TrimRightFunc":
			return k.shorter(x.Call.Args[0], is)
		case "strings.Replace", "strings.ReplaceAll":
			from, a := constText(x.Call.Args[1])
			to, b := constText(x.Call.Args[2])
			if len(x.Call.Args) == 4 {
				if n, ok := x.Call.Args[3].(*ssa.Const); !ok {
					return false
				} else if m, ok := ssaInt(n); !ok || m == 0 {
					return false
				}
			}
			return a && b && len(to) < len(from) && part(x.Call.Args[0]) && k.holds(x.Block(), "strings.Contains", x.Call.Args[:2])
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok || !part(c.Call.Args[0]) {
			return false
		}
		switch externName(&c.Call) {
		case "strings.Cut":
			t, ok := constText(c.Call.Args[1])
			return ok && t != "" && x.Index < 2 && k.flag(x.Block(), c, 2)
		case "strings.CutPrefix", "strings.CutSuffix":
			t, ok := constText(c.Call.Args[1])
			return ok && t != "" && x.Index == 0 && k.flag(x.Block(), c, 1)
		}
	}
	return false
}

// noLonger: a part of the variable, perhaps all of it.
func (k *ranker) noLonger(v ssa.Value, is isVar) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return is(x.X) || k.noLonger(x.X, is)
	case *ssa.Call:
		switch externName(&x.Call) {
		case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimLeftFunc", "strings.TrimRightFunc":
			return is(x.Call.Args[0]) || k.noLonger(x.Call.Args[0], is)
		}
	}
	return false
}

func constText(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}

func (k *ranker) lenOf(v, x ssa.Value, is isVar) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && (c.Call.Args[0] == x || is(c.Call.Args[0]) && is(x))
}

// holds: a call of a function with these arguments is known to have given true in block b.
func (k *ranker) holds(b *ssa.BasicBlock, name string, args []ssa.Value) bool {
	return k.known(b, func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok || externName(&c.Call) != name || len(c.Call.Args) != len(args) {
			return false
		}
		for i, a := range c.Call.Args {
			if a == args[i] {
				continue
			}
			x, ok1 := constText(a)
			y, ok2 := constText(args[i])
			if !ok1 || !ok2 || x != y || x == "" {
				return false
			}
		}
		return true
	})
}

// flag: result i of a call is known to be true in block b, or the loop is left after the round if it is false.
func (k *ranker) flag(b *ssa.BasicBlock, call *ssa.Call, i int) bool {
	is := func(v ssa.Value) bool {
		x, ok := v.(*ssa.Extract)
		return ok && x.Tuple == ssa.Value(call) && x.Index == i
	}
	for _, l := range k.latches() {
		if !k.known(l, is) {
			return k.known(b, is)
		}
	}
	return true
}

func (k *ranker) known(b *ssa.BasicBlock, is func(ssa.Value) bool) bool {
	var says func(c ssa.Value, outcome bool) bool
	says = func(c ssa.Value, outcome bool) bool {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			return says(u.X, !outcome)
		}
		return outcome && is(c)
	}
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 {
			continue
		}
		i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		for s := 0; s < 2; s++ {
			if id.Succs[s] == d && len(d.Preds) == 1 && says(i.Cond, s == 0) {
				return true
			}
		}
	}
	return false
}

// step: v is a relative of the variable in the syntax tree, in one direction.
func (k *ranker) step(v ssa.Value, is isVar, dir string) bool {
	switch x := v.(type) {
	case *ssa.Call:
		recv, name := x.Call.Value, ""
		if x.Call.IsInvoke() {
			name = x.Call.Method.Name()
		} else if fn := x.Call.StaticCallee(); fn != nil && fn.Signature.Recv() != nil && len(x.Call.Args) > 0 {
			name, recv = fn.Name(), x.Call.Args[0]
		}
		if !strings.HasPrefix(name, dir) {
			return false
		}
		return is(recv) || k.alias(recv, is) || k.step(recv, is, dir)
	case *ssa.TypeAssert:
		return k.step(x.X, is, dir)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return k.step(t.X, is, dir)
		}
	case *ssa.MakeInterface:
		return k.step(x.X, is, dir)
	case *ssa.ChangeInterface:
		return k.step(x.X, is, dir)
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			return k.step(ia.X, is, dir)
		}
	}
	return false
}

func (k *ranker) alias(v ssa.Value, is isVar) bool {
	switch x := v.(type) {
	case *ssa.TypeAssert:
		return is(x.X) || k.alias(x.X, is)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return is(t.X) || k.alias(t.X, is)
		}
	case *ssa.MakeInterface:
		return is(x.X) || k.alias(x.X, is)
	case *ssa.ChangeInterface:
		return is(x.X) || k.alias(x.X, is)
	}
	return false
}

// cell looks for a measure in a variable that lives in memory: a local one captured by a closure, or a field.
func (k *ranker) cell(s *ssa.Store) string {
	if !k.everyRound(s.Block()) {
		return ""
	}
	var stores int
	same := func(a ssa.Value) bool { return sameAddr(a, s.Addr) }
	var base ssa.Value = s.Addr
	if fa, ok := base.(*ssa.FieldAddr); ok {
		base = fa.X
		if !k.inv(base) {
			return ""
		}
	} else if _, ok := base.(*ssa.Alloc); !ok {
		return ""
	}
	if k.loopWrites(func(o *ssa.Store) bool {
		if o == s {
			stores++
			return false
		}
		if same(o.Addr) {
			return true
		}
		if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
			if f, ok := o.Addr.(*ssa.FieldAddr); ok {
				return fieldKey(f.X.Type(), f.Field) == fieldKey(fa.X.Type(), fa.Field)
			}
			return false
		}
		return captures(o.Addr, s.Addr)
	}) {
		return ""
	}
	is := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && same(u.X)
	}
	return k.ranked(s.Val.Type(), []ssa.Value{s.Val}, is)
}

// captures says whether a closure's variable may be the given one.
func captures(v, of ssa.Value) bool {
	f, ok := v.(*ssa.FreeVar)
	if !ok {
		return false
	}
	fn := f.Parent()
	i := 0
	for i < len(fn.FreeVars) && fn.FreeVars[i] != f {
		i++
	}
	a, ok := of.(*ssa.Alloc)
	if !ok {
		return true
	}
	for _, ref := range *a.Referrers() {
		if mc, ok := ref.(*ssa.MakeClosure); ok {
			if mc.Fn != ssa.Value(fn) {
				if fn.Parent() != a.Parent() {
					return true
				}
				continue
			}
			if i < len(mc.Bindings) && mc.Bindings[i] == ssa.Value(a) {
				return true
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && (x.X == y.X || sameLoad(x.X, y.X))
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

// recursion examines groups of functions that call each other.
type recursion struct {
	c    *Ctx
	e    *effects
	skip map[*ssa.Function]bool
}

type recCall struct {
	from *ssa.Function
	call ssa.CallInstruction
	to   *ssa.Function
}

// graph lists the calls between functions.
func (q *recursion) graph(all map[*ssa.Function]bool) map[*ssa.Function][]recCall {
	calls := map[*ssa.Function][]recCall{}
	for fn := range all {
		if q.skip[fn] {
			continue
		}
		q.e.eachInstr(fn, func(ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			cc := ci.Common()
			add := func(to *ssa.Function) {
				if to != nil && all[to] && !q.skip[to] {
					calls[fn] = append(calls[fn], recCall{fn, ci, to})
				}
			}
			if cc.IsInvoke() {
				it, ok := cc.Value.Type().Underlying().(*types.Interface)
				for to := range all {
					if to.Name() == cc.Method.Name() && to.Signature.Recv() != nil && ok && types.Implements(to.Signature.Recv().Type(), it) {
						add(to)
					}
				}
				return
			}
			if to := cc.StaticCallee(); to != nil {
				add(to)
				return
			}
			if _, ok := cc.Value.(*ssa.Builtin); ok {
				return
			}
			// a function value: anything of that type whose value is taken
			for to := range all {
				if types.Identical(to.Signature, cc.Value.Type().Underlying()) && (to.Parent() != nil || to.Signature.Recv() == nil) {
					add(to)
				}
			}
		})
	}
	return calls
}

// groups lists the sets of functions that can call each other in a circle.
func (q *recursion) groups(all map[*ssa.Function]bool, calls map[*ssa.Function][]recCall) []map[*ssa.Function]bool {
	index, low, on := map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var groups []map[*ssa.Function]bool
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		index[fn] = len(index) + 1
		low[fn] = index[fn]
		stack = append(stack, fn)
		on[fn] = true
		self := false
		for _, c := range calls[fn] {
			if c.to == fn {
				self = true
			}
			if index[c.to] == 0 {
				visit(c.to)
				low[fn] = min(low[fn], low[c.to])
			} else if on[c.to] {
				low[fn] = min(low[fn], index[c.to])
			}
		}
		if low[fn] != index[fn] {
			return
		}
		grp := map[*ssa.Function]bool{}
		for {
			x := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[x] = false
			grp[x] = true
			if x == fn {
				break
			}
		}
		if len(grp) == 1 && !self {
			return
		}
		groups = append(groups, grp)
	}
	for _, fn := range sortFns(all) {
		if index[fn] == 0 && !q.skip[fn] {
			visit(fn)
		}
	}
	return groups
}

// recursions examines the groups: each call must fall.
func (q *recursion) recursions(r *RuleRun, all map[*ssa.Function]bool) int {
	calls := q.graph(all)
	groups := q.groups(all, calls)
	for _, grp := range groups {
		for _, f := range sortFns(grp) {
			for _, c := range calls[f] {
				if grp[c.to] && !q.falls(c) {
					r.fail("recursion of "+f.String(), q.c.P.Pos(c.call.Pos()), "the call of %s may repeat itself without end: no argument is a proper part of one received", c.to)
				}
			}
		}
	}
	return len(groups)
}

// falls: some argument is a proper part of a parameter.
func (q *recursion) falls(c recCall) bool {
	k := &ranker{c: q.c, e: q.e, fn: c.from, body: map[*ssa.BasicBlock]bool{}}
	args := append([]ssa.Value(nil), c.call.Common().Args...)
	if c.call.Common().IsInvoke() {
		args = append(args, c.call.Common().Value)
	}
	for _, p := range c.from.Params {
		is := func(v ssa.Value) bool { return v == ssa.Value(p) }
		for _, a := range args {
			if k.shorter(a, is) || k.step(a, is, "GetChild") || k.step(a, is, "GetParent") {
				return true
			}
			if b, ok := a.(*ssa.BinOp); ok {
				if d, ok := k.delta(b, is); ok && d < 0 && k.guarded(p, c.call.Block(), 1) {
					return true
				}
				if d, ok := k.delta(b, is); ok && d > 0 && q.below(k, p, c.call.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// below: a comparison with a length or constant is known to bound the parameter from above.
func (q *recursion) below(k *ranker, p ssa.Value, b *ssa.BasicBlock) bool {
	return k.known(b, func(v ssa.Value) bool {
		x, ok := v.(*ssa.BinOp)
		return ok && x.Op == token.LSS && x.X == p
	}) || q.notAtLeast(k, p, b)
}

func (q *recursion) notAtLeast(k *ranker, p ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			continue
		}
		if i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && id.Succs[1] == d && len(d.Preds) == 1 {
			if x, ok := i.Cond.(*ssa.BinOp); ok && (x.Op == token.GEQ || x.Op == token.EQL) && x.X == p {
				return true
			}
		}
	}
	return false
}
