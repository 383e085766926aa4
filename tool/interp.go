package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interp is the abstract interpreter of the handwritten code over all syntax trees of the grammar.
type Interp struct {
	c           *Ctx
	p           *Program
	g           *Grammar // the grammar walked (possibly a slice of the full one)
	steps       int
	limit       int
	next        int
	reports     map[string]*Report
	order       []string
	inert       map[int]bool
	ruleOf      map[string]int // context type name -> rule
	ctxType     map[int]*types.Named
	conf        runConf
	sentinel    int
	stat        map[string]int
	input       VStr
	texts       []textInfo
	reachable   map[int]bool
	heads       map[int]bool
	expand      map[int]bool
	noExpand    map[int]bool
	maxStates   int
	visits, raw int
}

// maxForks bounds how often one activation passes a place where the analysis has to split: the
// tables the code searches are shorter, and a loop over a text of unknown length has no such bound.
const maxForks = 16

// maxAgain bounds how often a function is met again while it runs.
const maxAgain = 20

// budget is the time after which a run that has not ended counts as not decided.
const budget = 600 * time.Second

var started = time.Now()

func (in *Interp) checkTime() {
	if time.Since(started) > budget {
		panic(undecided{"the analysis did not end in " + budget.String()})
	}
}

// Report is a problem found on some abstract path.
type Report struct {
	Kind, Construct, Pos, Detail string
	Trail                        []string
}

type PanicInfo struct {
	Why string
	Pos string
	Fn  string
}

type Outcome struct {
	st  *State
	ret Val
	pan *PanicInfo
}

type Res struct {
	st  *State
	v   Val
	pan *PanicInfo
}

func one(st *State, v Val) []Res { return []Res{{st: st, v: v}} }

func (in *Interp) report(kind, construct, pos string, st *State, f string, a ...any) {
	k := kind + "|" + construct
	if _, ok := in.reports[k]; ok {
		return
	}
	r := &Report{Kind: kind, Construct: construct, Pos: pos, Detail: fmt.Sprintf(f, a...)}
	if st != nil {
		r.Trail = append([]string(nil), st.trail...)
	}
	in.reports[k] = r
	in.order = append(in.order, k)
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// call runs fn to completion on every path.
func (in *Interp) call(st *State, fn *ssa.Function, args []Val, bind []Val) []Outcome {
	if len(fn.Blocks) == 0 {
		return []Outcome{{st: st, ret: in.unknownResult(st, fn.Signature, fn.String())}}
	}
	if len(st.frames) > 120 {
		panic(undecided{"recursion too deep in " + fn.String()})
	}
	in.stat["fn "+fn.String()]++
	again := 0
	for _, g := range st.frames {
		if g.fn == fn {
			again++
		}
	}
	if again > maxAgain {
		panic(undecided{"recursion too deep in " + fn.String()})
	}
	if again > 0 {
		if k := "depth " + fn.String(); in.stat[k] < again {
			in.stat[k] = again
		}
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], visit: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.env[fv] = bind[i]
		}
	}
	st.frames = append(st.frames, f)
	depth := len(st.frames)
	work := []*State{st}
	var outs []Outcome
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		more, out := in.run(s, depth)
		work = append(work, more...)
		outs = append(outs, out...)
		if len(outs)+len(work) > 3000 {
			panic(undecided{"too many paths in " + fn.String()})
		}
	}
	return outs
}

// finish leaves the current frame, running deferred calls.
func (in *Interp) finish(st *State, depth int, ret Val, pan *PanicInfo) []Outcome {
	f := st.frames[depth-1]
	f.pan = pan
	outs := []Outcome{{st: st, ret: ret, pan: pan}}
	for n := len(f.defs); n > 0; n-- {
		var next []Outcome
		for _, o := range outs {
			fr := o.st.frames[depth-1]
			if len(fr.defs) == 0 {
				next = append(next, o)
				continue
			}
			d := fr.defs[len(fr.defs)-1]
			fr.defs = fr.defs[:len(fr.defs)-1]
			fr.pan = o.pan
			o.st.tmp = append(o.st.tmp, o.ret)
			for _, r := range in.invokeVal(o.st, d.fn, d.args, d.call.Pos()) {
				ret := r.st.tmp[len(r.st.tmp)-1]
				r.st.tmp = r.st.tmp[:len(r.st.tmp)-1]
				p := r.st.frames[depth-1].pan
				if r.pan != nil {
					p = r.pan
				}
				next = append(next, Outcome{r.st, ret, p})
			}
		}
		outs = next
	}
	for i := range outs {
		o := &outs[i]
		fr := o.st.frames[depth-1]
		if pan != nil && o.pan == nil {
			// recovered: named results keep their values
			o.ret = in.namedResults(o.st, fr)
		} else if o.pan == nil && len(fn0(fr).Blocks) > 0 {
			o.ret = in.reloadResults(o.st, fr, o.ret)
		}
		o.st.frames = o.st.frames[:depth-1]
	}
	return outs
}

func fn0(f *Frame) *ssa.Function { return f.fn }

// namedResults reads the result variables of a function that recovered from a panic.
func (in *Interp) namedResults(st *State, f *Frame) Val {
	if f.fn.Recover != nil {
		for _, ins := range f.fn.Recover.Instrs {
			switch x := ins.(type) {
			case *ssa.UnOp:
				if p, ok := in.value(st, f, x.X).(VPtr); ok {
					v, _ := in.load(st, p)
					f.env[x] = v
				}
			case *ssa.Return:
				var t VTuple
				for _, r := range x.Results {
					t = append(t, in.value(st, f, r))
				}
				if len(t) == 1 {
					return t[0]
				}
				return t
			}
		}
	}
	return in.zeroResult(f.fn.Signature)
}

func (in *Interp) reloadResults(st *State, f *Frame, ret Val) Val { return ret }

func (in *Interp) zeroResult(sig *types.Signature) Val {
	var t VTuple
	for i := 0; i < sig.Results().Len(); i++ {
		t = append(t, zero(sig.Results().At(i).Type()))
	}
	if len(t) == 1 {
		return t[0]
	}
	return t
}

// run executes from the current position of the frame until it forks or ends.
func (in *Interp) run(st *State, depth int) (more []*State, outs []Outcome) {
	for {
		f := st.frames[depth-1]
		if f.pc >= len(f.block.Instrs) {
			panic(undecided{"fell off a block in " + f.fn.String()})
		}
		ins := f.block.Instrs[f.pc]
		f.pc++
		in.steps++
		in.checkTime()
		if in.steps > in.limit {
			panic(undecided{"step limit reached in " + f.fn.String()})
		}
		switch x := ins.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			in.enterBlock(st, f, f.block.Succs[0])
			continue
		case *ssa.If:
			cond := in.value(st, f, x.Cond)
			rs := in.truth(st, cond)
			if len(rs) > 1 && f.visit[f.block] > maxForks {
				panic(undecided{"loop over something of unknown length in " + f.fn.String()})
			}
			for i, r := range rs {
				g := r.st.frames[depth-1]
				to := g.block.Succs[1]
				if r.v.(VBool) {
					to = g.block.Succs[0]
				}
				in.loopEnter(r.st, g, to)
				in.enterBlock(r.st, g, to)
				if i > 0 {
					more = append(more, r.st)
				}
			}
			if len(rs) == 0 {
				return
			}
			st = rs[0].st
			continue
		case *ssa.Return:
			var t VTuple
			for _, r := range x.Results {
				t = append(t, in.value(st, f, r))
			}
			var ret Val = t
			if len(t) == 1 {
				ret = t[0]
			}
			outs = append(outs, in.finish(st, depth, ret, nil)...)
			return
		case *ssa.Panic:
			v := in.value(st, f, x.X)
			pi := &PanicInfo{Why: "panic(" + short(keyOf(v)) + ")", Pos: in.p.Pos(x.Pos()), Fn: f.fn.String()}
			outs = append(outs, in.finish(st, depth, nil, pi)...)
			return
		case *ssa.RunDefers:
			var next []Outcome
			cur := []Outcome{{st: st}}
			for n := len(f.defs); n > 0; n-- {
				next = nil
				for _, o := range cur {
					fr := o.st.frames[depth-1]
					if o.pan != nil || len(fr.defs) == 0 {
						next = append(next, o)
						continue
					}
					d := fr.defs[len(fr.defs)-1]
					fr.defs = fr.defs[:len(fr.defs)-1]
					for _, r := range in.invokeVal(o.st, d.fn, d.args, x.Pos()) {
						next = append(next, Outcome{r.st, nil, r.pan})
					}
				}
				cur = next
			}
			live := 0
			for _, o := range cur {
				if o.pan != nil {
					outs = append(outs, in.finish(o.st, depth, nil, o.pan)...)
					continue
				}
				if live > 0 {
					more = append(more, o.st)
				} else {
					st = o.st
				}
				live++
			}
			if live == 0 {
				return
			}
			continue
		case *ssa.Store:
			in.storeInstr(st, f, x)
			if p := in.lastPanic(st); p != nil {
				outs = append(outs, in.finish(st, depth, nil, p)...)
				return
			}
			continue
		case *ssa.MapUpdate:
			if p := in.mapUpdate(st, f, x); p != nil {
				outs = append(outs, in.finish(st, depth, nil, p)...)
				return
			}
			continue
		case *ssa.Defer:
			d := deferred{call: x.Call}
			for _, a := range x.Call.Args {
				d.args = append(d.args, in.value(st, f, a))
			}
			if x.Call.IsInvoke() {
				recv := in.value(st, f, x.Call.Value)
				d.fn = VTuple{recv, VUser{x.Call.Method.Name()}}
			} else {
				d.fn = in.value(st, f, x.Call.Value)
			}
			f.defs = append(f.defs, d)
			continue
		case *ssa.Go, *ssa.Send, *ssa.Select:
			panic(undecided{fmt.Sprintf("%T in %s", ins, f.fn)})
		}
		v, ok := ins.(ssa.Value)
		if !ok {
			panic(undecided{fmt.Sprintf("unknown instruction %T in %s", ins, f.fn)})
		}
		rs := in.eval(st, f, v)
		if len(rs) > 1 && f.visit[f.block] > maxForks {
			panic(undecided{"loop over something of unknown length in " + f.fn.String()})
		}
		first := true
		for _, r := range rs {
			if r.pan != nil {
				if r.pan.Fn == "" {
					r.pan.Fn, r.pan.Pos = f.fn.String(), in.p.Pos(ins.Pos())
				}
				outs = append(outs, in.finish(r.st, depth, nil, r.pan)...)
				continue
			}
			r.st.frames[depth-1].env[v] = r.v
			if first {
				st = r.st
				first = false
			} else {
				more = append(more, r.st)
			}
		}
		if first {
			return
		}
	}
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func (in *Interp) enterBlock(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	back := to.Dominates(from)
	f.visit[to]++
	if f.visit[to] > 3000 {
		panic(undecided{"loop without a static bound in " + f.fn.String()})
	}
	var vals []Val
	var phis []*ssa.Phi
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.value(st, f, ph.Edges[pi]))
	}
	if back && f.seg != nil && f.seg.head == to {
		vals = in.closeSeg(st, f, phis, vals)
	}
	for _, p := range to.Preds {
		if to.Dominates(p) {
			f.iter, f.iterHead = cpMap(st.heap), to
			break
		}
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.prev, f.block, f.pc = from, to, len(phis)
}

// segLoop is an abstract iteration that stands for all elements of a chunk.
type segLoop struct {
	chunk int
	head  *ssa.BasicBlock
	elem  int               // the unknown text that stands for each element of a list of texts
	k     int               // the unknown number of elements already visited
	start map[*ssa.Phi]VInt // the counters when the loop reached the chunk
	heap  map[int]*Obj      // memory at that time
}

// indexValues are the values of a loop that are a counter plus a constant, and the slices indexed by them.
type loopIndex struct {
	phis   []*ssa.Phi
	values []ssa.Value
	access []*ssa.IndexAddr
}

var loopIndexes = map[*ssa.BasicBlock]*loopIndex{}

func indexOf(head *ssa.BasicBlock) *loopIndex {
	if l, ok := loopIndexes[head]; ok {
		return l
	}
	l := &loopIndex{}
	loopIndexes[head] = l
	chain := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if chain[v] {
			return
		}
		chain[v] = true
		l.values = append(l.values, v)
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.BinOp:
				if _, ok := x.Y.(*ssa.Const); ok && x.X == v && (x.Op == token.ADD || x.Op == token.SUB) {
					add(x)
				}
			case *ssa.IndexAddr:
				if x.Index == v {
					l.access = append(l.access, x)
				}
			}
		}
	}
	for _, ins := range head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range ph.Edges {
			b, ok := e.(*ssa.BinOp)
			if !ok || !head.Dominates(head.Preds[i]) || b.Op != token.ADD || b.X != ph {
				continue
			}
			if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
				l.phis = append(l.phis, ph)
				add(ph)
			}
		}
	}
	return l
}

// loopEnter is called when the head of a loop lets an iteration begin: if it is for an element of a chunk, it
// becomes one for every element of it.
func (in *Interp) loopEnter(st *State, f *Frame, to *ssa.BasicBlock) {
	head := f.block
	if f.seg != nil || !head.Dominates(to) {
		return
	}
	isHead := false
	for _, p := range head.Preds {
		isHead = isHead || head.Dominates(p) && (to == p || to.Dominates(p))
	}
	if !isHead {
		return
	}
	l := indexOf(head)
	for _, a := range l.access {
		if a.Block() == head || !head.Dominates(a.Block()) {
			continue
		}
		sl, ok := in.before(st, f, head, a.X).(VSlice)
		if !ok {
			continue
		}
		ix, ok := f.env[a.Index].(VInt)
		if !ok {
			continue
		}
		o := st.heap[sl.Obj]
		if o == nil {
			continue
		}
		arr, ok := o.V.(VArr)
		if !ok {
			continue
		}
		p, ok := st.elemPos(arr.E, sl.Lo.add(ix, 1))
		if !ok || p >= len(arr.E) {
			continue
		}
		c, ok := arr.E[p].(VChunk)
		if !ok {
			continue
		}
		if p == 0 && isTextList(o.Typ) && in.unroll(st, c.ID) {
			return
		}
		in.openSeg(st, c.ID)
		f.seg.head = head
		k := st.newInt(0, inf)
		f.seg.k = k.T[0].A.ID
		f.seg.start = map[*ssa.Phi]VInt{}
		for _, ph := range l.phis {
			if v, ok := f.env[ph].(VInt); ok {
				f.seg.start[ph] = v
			}
		}
		for _, v := range l.values {
			if n, ok := f.env[v].(VInt); ok {
				if i, ok := v.(ssa.Instruction); ok && i.Block() == head {
					f.env[v] = n.add(k, 1)
				}
			}
		}
		return
	}
}

// before evaluates an operand of a loop's body at the head: one from before the loop, or read from memory again on
// every round. (Should the memory change in between, the elements are not those of the list found here, and the loop is
// undecided.)
func (in *Interp) before(st *State, f *Frame, head *ssa.BasicBlock, v ssa.Value) Val {
	i, ok := v.(ssa.Instruction)
	if !ok || !head.Dominates(i.Block()) {
		return in.value(st, f, v)
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if p, ok := in.before(st, f, head, x.X).(VPtr); ok && x.Op == token.MUL {
			if o := st.heap[p.Obj]; o != nil {
				if v, ok := getPath(o.V, p.Path); ok {
					return v
				}
			}
		}
	case *ssa.FieldAddr:
		if p, ok := in.before(st, f, head, x.X).(VPtr); ok {
			if rs := in.fieldAddr(st, p, x.Field, x.X.Type()); len(rs) == 1 && rs[0].pan == nil && rs[0].st == st {
				return rs[0].v
			}
		}
	}
	return VNil{}
}

// isTextList says whether an array holds texts.
func isTextList(t types.Type) bool {
	if t == nil {
		return false
	}
	var e types.Type
	switch x := t.Underlying().(type) {
	case *types.Slice:
		e = x.Elem()
	case *types.Array:
		e = x.Elem()
	default:
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// unroll sets the first element of a chunk of texts apart.
func (in *Interp) unroll(st *State, id int) bool {
	la, ok := st.lat[id]
	if !ok || len(la.El) != 1 {
		return false
	}
	if lo, _ := st.bounds(iFn("count", VChunk{id})); lo < 1 {
		return false
	}
	first := st.newStr(la.El[0])
	rest := st.id()
	st.lat[rest] = LAttr{Min: max(la.Min-1, 0), El: la.El}
	st.subst(&mapper{chk: func(i int) ([]Val, bool) {
		if i == id {
			return []Val{first, VChunk{rest}}, true
		}
		return nil, false
	}})
	delete(st.lat, id)
	return true
}

// openSeg starts treating the current loop iteration as one for every element of a chunk.
func (in *Interp) openSeg(st *State, chunk int) {
	f := st.top()
	// the innermost loop header that dominates the current block
	var head *ssa.BasicBlock
	for b := f.block; b != nil; b = b.Idom() {
		isHead := false
		for _, p := range b.Preds {
			if b.Dominates(p) {
				isHead = true
			}
		}
		if isHead {
			head = b
			break
		}
	}
	if head == nil {
		panic(undecided{"element of a list of unknown length in " + f.fn.String()})
	}
	if f.seg != nil {
		if f.seg.chunk == chunk && f.seg.head == head {
			return
		}
		panic(undecided{"nested iteration over lists of unknown length in " + f.fn.String()})
	}
	heap := f.iter
	if f.block == head {
		heap = cpMap(st.heap) // nothing of the iteration has happened yet
	} else if f.iterHead != head {
		panic(undecided{"element of a list of unknown length in " + f.fn.String()})
	}
	f.seg = &segLoop{chunk: chunk, head: head, heap: heap}
}

func (in *Interp) closeSeg(st *State, f *Frame, phis []*ssa.Phi, vals []Val) []Val {
	seg := f.seg
	id := seg.chunk
	f.seg = nil
	cnt := iFn("count", VChunk{id})
	for i, ph := range phis {
		if o, ok := f.env[ph].(VStr); ok {
			if n, ok := vals[i].(VStr); ok {
				vals[i] = in.foldText(st, seg, o, n)
			}
			continue
		}
		if o, ok := f.env[ph].(VBool); ok {
			if n, ok := vals[i].(VBool); !ok || n != o {
				panic(undecided{"an answer changes from element to element of a list of unknown length in " + f.fn.String()})
			}
			continue
		}
		old, ok1 := f.env[ph].(VInt)
		nv, ok2 := vals[i].(VInt)
		if !ok1 || !ok2 {
			continue
		}
		if s, ok := seg.start[ph]; ok && seg.k != 0 {
			nv = nv.add(iAtom(seg.k), -1).add(old, -1).add(iAtom(seg.k), 1).add(s, 1)
			old = s
		}
		d := nv.add(old, -1)
		if c, ok := d.isConst(); ok && c == 1 {
			vals[i] = old.add(cnt, 1)
		} else if !ok || c != 0 {
			vals[i] = st.opaque("number changed per element")
		}
	}
	for oid, o := range st.heap {
		if b := seg.heap[oid]; b != nil && b != o {
			st.heap[oid] = &Obj{o.Typ, in.foldVal(st, seg, b.V, o.V)}
		}
	}
	isElem := func(v Val) bool {
		s, ok := v.(VStr)
		return ok && seg.elem != 0 && len(s.P) == 1 && s.P[0].K == 'a' && s.P[0].ID == seg.elem
	}
	fix := func(v Val) Val {
		if isElem(v) {
			return VChunk{id}
		}
		return segToChunk(v, id)
	}
	for oid, o := range st.heap {
		if arr, ok := o.V.(VArr); ok {
			n := 0
			for _, e := range arr.E {
				if s, ok := e.(VSeg); ok && s.ID == id || isTextList(o.Typ) && isElem(e) {
					n++
				} else if isTextList(o.Typ) && seg.elem != 0 && seg.heap[oid] != o {
					unknowns(vlist{[]Val{e}}, func(u int) {
						if u == seg.elem {
							panic(undecided{"a list is made of changed elements of a list of unknown length in " + f.fn.String()})
						}
					})
				}
			}
			if n > 1 {
				panic(undecided{"several copies of each list element in " + f.fn.String()})
			}
			if n == 1 {
				var out []Val
				for _, e := range arr.E {
					out = append(out, fix(e))
				}
				st.heap[oid] = &Obj{o.Typ, VArr{out}}
			}
		}
	}
	// slices over such lists: their length grew by one for the element, it is the whole chunk
	one := func(v Val) Val {
		if s, ok := v.(VSlice); ok {
			if o := st.heap[s.Obj]; o != nil {
				if arr, ok := o.V.(VArr); ok {
					for _, e := range arr.E {
						if c, ok := e.(VChunk); ok && c.ID == id {
							if _, ok := st.elemPos(arr.E, s.Lo.add(s.Len, 1)); !ok {
								ln := s.Len.add(iConst(1), -1).add(cnt, 1)
								if _, ok := st.elemPos(arr.E, s.Lo.add(ln, 1)); ok {
									s.Len = ln
									return s
								}
							}
						}
					}
				}
			}
		}
		return v
	}
	for i := range vals {
		vals[i] = mapDeep(vals[i], one)
	}
	for oid, o := range st.heap {
		nv := mapDeep(o.V, one)
		st.heap[oid] = &Obj{o.Typ, nv}
	}
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = mapDeep(v, one)
		}
	}
	return vals
}

// foldVal turns what one abstract iteration made of a value into what all of them make of it.
func (in *Interp) foldVal(st *State, seg *segLoop, o, n Val) Val {
	switch x := n.(type) {
	case VStr:
		if y, ok := o.(VStr); ok {
			return in.foldText(st, seg, y, x)
		}
	case VBuild:
		if y, ok := o.(VBuild); ok {
			return VBuild{in.foldText(st, seg, y.S, x.S)}
		}
	case VStruct:
		if y, ok := o.(VStruct); ok && len(x.F) == len(y.F) {
			out := make([]Val, len(x.F))
			for i := range out {
				out[i] = in.foldVal(st, seg, y.F[i], x.F[i])
			}
			return VStruct{out}
		}
	case VArr:
		if y, ok := o.(VArr); ok && len(x.E) == len(y.E) {
			out := make([]Val, len(x.E))
			for i := range out {
				out[i] = in.foldVal(st, seg, y.E[i], x.E[i])
			}
			return VArr{out}
		}
	case VBool:
		if y, ok := o.(VBool); !ok || x != y {
			panic(undecided{"an answer changes from element to element of a list of unknown length"})
		}
	case VInt:
		if y, ok := o.(VInt); !ok || keyOf(x) != keyOf(y) {
			return st.newInt(-inf, inf)
		}
	}
	return n
}

// foldText is the text after all iterations, when one turns o into n.
func (in *Interp) foldText(st *State, seg *segLoop, o, n VStr) VStr {
	if keyOf(o) == keyOf(n) {
		return n
	}
	used := false
	unknowns(n, func(id int) { used = used || seg.elem != 0 && id == seg.elem })
	d, ok := cutPrefix(n, o)
	if ok && used {
		// what is appended per element: constant text and the element
		if len(d.P) > 0 && d.P[len(d.P)-1].K == 'a' && d.P[len(d.P)-1].ID == seg.elem {
			if sep, ok := (VStr{d.P[:len(d.P)-1]}).isLit(); ok {
				return concat(o, joinRest(VChunk{seg.chunk}, lit(sep)))
			}
		}
	}
	if !ok && !used {
		// overwritten: the same for every element
		dep := false
		unknowns(n, func(id int) { unknowns(o, func(x int) { dep = dep || x == id }) })
		if !dep {
			return n
		}
	}
	a := st.attr(o)
	b := st.attr(n)
	u := a.union(b)
	u.Max = inf
	return st.newStr(u)
}

// cutPrefix removes a leading text.
func cutPrefix(s, p VStr) (VStr, bool) {
	for i, x := range p.P {
		if i >= len(s.P) {
			return VStr{}, false
		}
		if keyOf(VStr{[]Part{x}}) == keyOf(VStr{[]Part{s.P[i]}}) {
			continue
		}
		if i == len(p.P)-1 && x.K == 'l' && s.P[i].K == 'l' && strings.HasPrefix(s.P[i].Lit, x.Lit) {
			q := s.P[i]
			q.Lit = q.Lit[len(x.Lit):]
			return VStr{append([]Part{q}, s.P[i+1:]...)}, true
		}
		return VStr{}, false
	}
	return VStr{append([]Part(nil), s.P[len(p.P):]...)}, true
}

func segToChunk(v Val, id int) Val {
	if s, ok := v.(VSeg); ok && s.ID == id {
		return VChunk{id}
	}
	return v
}

// mapDeep applies f to a value and everything directly inside it.
func mapDeep(v Val, f func(Val) Val) Val {
	switch x := v.(type) {
	case VStruct:
		out := make([]Val, len(x.F))
		for i, e := range x.F {
			out[i] = mapDeep(e, f)
		}
		return VStruct{out}
	case VArr:
		out := make([]Val, len(x.E))
		for i, e := range x.E {
			out[i] = mapDeep(e, f)
		}
		return VArr{out}
	case VTuple:
		out := make(VTuple, len(x))
		for i, e := range x {
			out[i] = mapDeep(e, f)
		}
		return out
	case VIface:
		return VIface{x.T, mapDeep(x.V, f)}
	}
	return f(v)
}

// value reads an operand.
func (in *Interp) value(st *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return in.globalPtr(st, x)
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VUser{"builtin " + x.Name()}
	}
	if r, ok := f.env[v]; ok && r != nil {
		return r
	}
	return st.opaque("undefined " + v.Name())
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool(constant.BoolVal(c.Value))
	case constant.String:
		return lit(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			n, ok1 := constant.Int64Val(constant.ToInt(constant.Num(constant.ToFloat(c.Value))))
			d, ok2 := constant.Int64Val(constant.ToInt(constant.Denom(constant.ToFloat(c.Value))))
			if ok1 && ok2 {
				return VFloat{iConst(n), d}
			}
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return iConst(i)
		}
	}
	return VOpaque{ID: -1, Why: "constant"}
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Info()&types.IsBoolean != 0:
			return VBool(false)
		case u.Info()&types.IsInteger != 0:
			return VInt{}
		case u.Info()&types.IsFloat != 0:
			return VFloat{VInt{}, 1}
		}
		return VNil{}
	case *types.Struct:
		if isTime(t) {
			return zeroTime()
		}
		if isBuild(t) {
			return VBuild{}
		}
		s := VStruct{F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := VArr{E: make([]Val, u.Len())}
		for i := range s.E {
			s.E[i] = zero(u.Elem())
		}
		return s
	case *types.Tuple:
		var t VTuple
		for i := 0; i < u.Len(); i++ {
			t = append(t, zero(u.At(i).Type()))
		}
		return t
	}
	return VNil{}
}

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func zeroTime() VTime {
	return VTime{F: [7]VInt{iConst(1), iConst(1), iConst(1), {}, {}, {}, {}}, Loc: VLoc{Name: lit("UTC")}}
}

func (in *Interp) globalPtr(st *State, g *ssa.Global) Val {
	if id, ok := st.globals[g]; ok {
		return VPtr{Obj: id}
	}
	t := g.Type().(*types.Pointer).Elem()
	var v Val
	name := g.String()
	own := g.Pkg != nil && in.p.Own[g.Pkg.Pkg]
	switch {
	case name == "time.UTC":
		v = VLoc{Name: lit("UTC")}
	case name == "time.Local":
		v = VLoc{Name: st.newStr(SAttr{CS: allChars, Max: inf, Taint: taintUnknown | taintLost}), Off: st.newInt(-86400, 86400)}
	case name == antlrPath+".ParseTreeWalkerDefault":
		v = VExt{st.alloc(nil, &extObj{Kind: "walker"})}
	case own:
		v = zero(t)
	default:
		if types.Identical(t, types.Universe.Lookup("error").Type()) {
			v = VIface{in.errType(), st.opaque(name)}
		} else {
			v = st.opaque(name)
		}
	}
	id := st.alloc(t, v)
	st.globals[g] = id
	return VPtr{Obj: id}
}

// errType stands for the dynamic type of errors made by library functions.
func (in *Interp) errType() types.Type {
	if p := in.p.All["errors"]; p != nil {
		if o := p.Types.Scope().Lookup("errorString"); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	return types.Universe.Lookup("error").Type()
}

func (in *Interp) newError(st *State, why string) Val {
	return VIface{in.errType(), st.opaque(why)}
}

// navigate

func getPath(v Val, path []int) (Val, bool) {
	for _, i := range path {
		switch x := v.(type) {
		case VStruct:
			if i >= len(x.F) {
				return nil, false
			}
			v = x.F[i]
		case VArr:
			if i >= len(x.E) {
				return nil, false
			}
			v = x.E[i]
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(v Val, path []int, n Val) (Val, bool) {
	if len(path) == 0 {
		return n, true
	}
	i := path[0]
	switch x := v.(type) {
	case VStruct:
		if i >= len(x.F) {
			return nil, false
		}
		out := append([]Val(nil), x.F...)
		y, ok := setPath(x.F[i], path[1:], n)
		out[i] = y
		return VStruct{out}, ok
	case VArr:
		if i >= len(x.E) {
			return nil, false
		}
		out := append([]Val(nil), x.E...)
		y, ok := setPath(x.E[i], path[1:], n)
		out[i] = y
		return VArr{out}, ok
	}
	return nil, false
}

func (in *Interp) load(st *State, p Val) (Val, *PanicInfo) {
	switch x := p.(type) {
	case VPtr:
		o := st.heap[x.Obj]
		if o == nil {
			return st.opaque("load"), nil
		}
		v, ok := getPath(o.V, x.Path)
		if !ok {
			return st.opaque("load"), nil
		}
		if c, ok := v.(VChunk); ok {
			in.openSeg(st, c.ID)
			if la := st.lat[c.ID]; isTextList(o.Typ) && len(la.El) == 1 {
				seg := st.top().seg
				if seg.elem == 0 {
					seg2 := *seg
					seg2.elem = st.newStr(la.El[0]).P[0].ID
					st.top().seg = &seg2
				}
				return sAtom(st.top().seg.elem), nil
			}
			return VSeg{c.ID}, nil
		}
		return v, nil
	case VNil:
		return nil, &PanicInfo{Why: "nil pointer dereference"}
	case VNode, VTok, VSym, VExt, VOpaque, VLoc, VRepl, VSeg:
		return p, nil
	}
	return st.opaque(fmt.Sprintf("load through %T", p)), nil
}

// mutable state of pending panics produced by stores
func (in *Interp) lastPanic(st *State) *PanicInfo {
	f := st.top()
	p := f.pan
	f.pan = nil
	return p
}

func (in *Interp) storeInstr(st *State, f *Frame, x *ssa.Store) {
	p := in.value(st, f, x.Addr)
	v := in.value(st, f, x.Val)
	if pi := in.store(st, p, v); pi != nil {
		pi.Pos, pi.Fn = in.p.Pos(x.Pos()), f.fn.String()
		f.pan = pi
	}
}

func (in *Interp) store(st *State, p, v Val) *PanicInfo {
	switch x := p.(type) {
	case VPtr:
		o := st.heap[x.Obj]
		if o == nil {
			return nil
		}
		n, ok := setPath(o.V, x.Path, v)
		if ok && (in.conf.maskName || in.conf.maskAddr) {
			n = in.masked(n, o.Typ)
		}
		if !ok {
			in.report("undecided", "store", "", st, "store into unknown part of %s", typeName2(o.Typ))
			return nil
		}
		st.heap[x.Obj] = &Obj{o.Typ, n}
		return nil
	case VNil:
		return &PanicInfo{Why: "nil pointer dereference"}
	case VExt, VNode:
		in.report("config", "store into the recogniser in "+st.top().fn.String(), in.p.Pos(st.top().fn.Pos()), st, "a field of the recogniser or of a syntax-tree node is changed")
		return nil
	}
	in.report("undecided", fmt.Sprintf("store in %s", st.top().fn), in.p.Pos(st.top().fn.Pos()), st, "store through %T", p)
	return nil
}

var implCache = map[[2]types.Type]bool{}

func implements(t types.Type, i *types.Interface) bool {
	k := [2]types.Type{t, i}
	v, ok := implCache[k]
	if !ok {
		v = types.Implements(t, i)
		implCache[k] = v
	}
	return v
}

// masked forgets the part of mail addresses that the analysis leaves out.
func (in *Interp) masked(v Val, t types.Type) Val {
	x, ok := v.(VStruct)
	if !ok || t == nil {
		return v
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != len(x.F) {
		return v
	}
	out := append([]Val(nil), x.F...)
	for i := range out {
		f := st.Field(i)
		if isMailAddress(t) && (in.conf.maskName && f.Name() == "Name" || in.conf.maskAddr && f.Name() == "Address") {
			out[i] = VStr{}
			continue
		}
		out[i] = in.masked(out[i], f.Type())
	}
	return VStruct{out}
}

func typeName2(t types.Type) string {
	if t == nil {
		return "object"
	}
	return typeName(t)
}

func (in *Interp) mapUpdate(st *State, f *Frame, x *ssa.MapUpdate) *PanicInfo {
	m, ok := in.value(st, f, x.Map).(VMap)
	k, v := in.value(st, f, x.Key), in.value(st, f, x.Value)
	if !ok {
		if _, isNil := in.value(st, f, x.Map).(VNil); isNil {
			return &PanicInfo{Why: "assignment to entry in nil map", Fn: f.fn.String(), Pos: in.p.Pos(x.Pos())}
		}
		return nil
	}
	o := st.heap[m.Obj].V.(*mapObj)
	n := &mapObj{append([]Val(nil), o.K...), append([]Val(nil), o.V...)}
	for i := range n.K {
		if keyOf(n.K[i]) == keyOf(k) {
			n.V[i] = v
			st.heap[m.Obj] = &Obj{st.heap[m.Obj].Typ, n}
			return nil
		}
	}
	n.K, n.V = append(n.K, k), append(n.V, v)
	st.heap[m.Obj] = &Obj{st.heap[m.Obj].Typ, n}
	return nil
}

// truth turns a condition into a concrete answer, forking when it is unknown.
func (in *Interp) truth(st *State, v Val) []Res {
	switch x := v.(type) {
	case VBool:
		return one(st, x)
	case VOpaque:
		return in.pred(st, "true", x)
	}
	return in.pred(st, "true", st.opaque("condition"))
}

// pred answers an uninterpreted question, consistently.
func (in *Interp) pred(st *State, name string, args ...Val) []Res {
	k := predKey(name, args)
	if p, ok := st.preds[k]; ok {
		return one(st, VBool(p.Ans))
	}
	in.noSeg(st)
	b := st.clone()
	st.preds[k] = Pred{name, args, true}
	b.preds[k] = Pred{name, args, false}
	return []Res{{st: st, v: VBool(true)}, {st: b, v: VBool(false)}}
}

func (in *Interp) noSeg(st *State) {
	for _, f := range st.frames {
		if f.seg != nil {
			panic(undecided{"a decision depends on the elements of a list of unknown length in " + f.fn.String()})
		}
	}
}

// cmpInt decides v op 0.
func (in *Interp) cmpInt(st *State, v VInt, op token.Token) []Res {
	lo, hi := st.bounds(v)
	switch op {
	case token.EQL, token.NEQ:
		eq := op == token.EQL
		if lo == 0 && hi == 0 {
			return one(st, VBool(eq))
		}
		if st.excluded(v, 0) {
			return one(st, VBool(!eq))
		}
		in.noSeg(st)
		b := st.clone()
		var out []Res
		if st.restrict(v, 0, 0) {
			out = append(out, Res{st: st, v: VBool(eq)})
		}
		if b.exclude(v, 0) {
			out = append(out, Res{st: b, v: VBool(!eq)})
		}
		return out
	case token.LSS:
		if hi < 0 {
			return one(st, VBool(true))
		}
		if lo >= 0 {
			return one(st, VBool(false))
		}
		in.noSeg(st)
		b := st.clone()
		var out []Res
		if st.restrict(v, -inf, -1) {
			out = append(out, Res{st: st, v: VBool(true)})
		}
		if b.restrict(v, 0, inf) {
			out = append(out, Res{st: b, v: VBool(false)})
		}
		return out
	case token.GEQ:
		return in.neg(in.cmpInt(st, v, token.LSS))
	case token.GTR:
		return in.cmpInt(st, v.mul(-1), token.LSS)
	case token.LEQ:
		return in.neg(in.cmpInt(st, v.mul(-1), token.LSS))
	}
	return in.pred(st, "cmp "+op.String(), v)
}

func (in *Interp) neg(rs []Res) []Res {
	for i := range rs {
		rs[i].v = !rs[i].v.(VBool)
	}
	return rs
}

// eqStr decides a == b.
func (in *Interp) eqStr(st *State, a, b VStr) []Res {
	cased := in.cased(st, a) || in.cased(st, b)
	rs := in.eqStr1(st, a, b)
	if len(rs) > 1 && cased {
		in.stat["decisions on the case of a letter"]++
	}
	return rs
}

// cased: the text holds a letter of the grammar of which the case is not known.
func (in *Interp) cased(st *State, a VStr) bool {
	hit := false
	unknowns(a, func(id int) {
		if at, ok := st.sat[id]; ok && at.CS.Size() == 2 && len(at.CS) == 2 && at.CS[0].Lo >= 'A' && at.CS[0].Lo <= 'Z' && at.CS[1].Lo == at.CS[0].Lo+32 {
			hit = true
		}
	})
	return hit
}

func (in *Interp) eqStr1(st *State, a, b VStr) []Res {
	// common prefix and suffix
	a, b = trimCommon(a, b)
	if len(a.P) == 0 && len(b.P) == 0 {
		return one(st, VBool(true))
	}
	if len(b.P) == 0 {
		a, b = b, a
	}
	if len(a.P) == 0 {
		if l, ok := b.isLit(); ok {
			return one(st, VBool(l == ""))
		}
		return in.cmpInt(st, applyIFn("len", []Val{b}), token.EQL)
	}
	_, la := a.isLit()
	_, lb := b.isLit()
	if la && lb {
		return one(st, VBool(false))
	}
	// impossible by length
	xl, xh := st.bounds(applyIFn("len", []Val{a}))
	yl, yh := st.bounds(applyIFn("len", []Val{b}))
	if xh < yl || yh < xl {
		return one(st, VBool(false))
	}
	// impossible by characters
	at, bt := st.attr(a), st.attr(b)
	if la && bt.Taint&taintUnknown == 0 {
		for _, r := range a.P[0].Lit {
			if !bt.CS.Has(r) {
				return one(st, VBool(false))
			}
		}
	}
	if lb && at.Taint&taintUnknown == 0 {
		for _, r := range b.P[0].Lit {
			if !at.CS.Has(r) {
				return one(st, VBool(false))
			}
		}
	}
	// first characters
	if ca, ra, ok := headChar(st, a); ok {
		if cb, rb, ok := headChar(st, b); ok {
			var out []Res
			st.tmp = append(st.tmp, ra, rb)
			for _, r := range in.cmpInt(st, ca.add(cb, -1), token.EQL) {
				n := len(r.st.tmp)
				x, y := r.st.tmp[n-2].(VStr), r.st.tmp[n-1].(VStr)
				r.st.tmp = r.st.tmp[:n-2]
				if r.v.(VBool) {
					out = append(out, in.eqStr(r.st, x, y)...)
				} else {
					out = append(out, r)
				}
			}
			return out
		}
	}
	// a lone unknown is replaced by what it equals
	if x, y := a, b; true {
		if len(y.P) == 1 && y.P[0].K == 'a' {
			x, y = y, x
		}
		if len(x.P) == 1 && x.P[0].K == 'a' {
			if l, ok := y.isLit(); ok {
				k := predKey("eq", []Val{x, y})
				if p, ok := st.preds[k]; ok {
					return one(st, VBool(p.Ans))
				}
				in.noSeg(st)
				c := st.clone()
				c.preds[k] = Pred{"eq", []Val{x, y}, false}
				id := x.P[0].ID
				st.subst(&mapper{str: func(i int) (VStr, bool) { return lit(l), i == id }})
				return []Res{{st: st, v: VBool(true)}, {st: c, v: VBool(false)}}
			}
		}
	}
	if keyOf(a) > keyOf(b) {
		a, b = b, a
	}
	return in.pred(st, "eq", a, b)
}

// headChar splits the first character off a string as a number.
func headChar(st *State, s VStr) (VInt, VStr, bool) {
	if len(s.P) == 0 {
		return VInt{}, s, false
	}
	p := s.P[0]
	rest := VStr{s.P[1:]}
	switch p.K {
	case 'l':
		for _, r := range p.Lit {
			return iConst(int64(r)), concat(lit(p.Lit[len(string(r)):]), rest), true
		}
	case 'd':
		return p.I.add(iConst('0'), 1), rest, true
	case 'a':
		at := st.sat[p.ID]
		if at.Min == 1 && at.Max == 1 {
			return iFn("chr", VStr{s.P[:1]}), rest, true
		}
	}
	return VInt{}, s, false
}

func trimCommon(a, b VStr) (VStr, VStr) {
	for len(a.P) > 0 && len(b.P) > 0 {
		x, y := a.P[0], b.P[0]
		if keyOf(VStr{[]Part{x}}) == keyOf(VStr{[]Part{y}}) {
			a, b = VStr{a.P[1:]}, VStr{b.P[1:]}
			continue
		}
		if x.K == 'l' && y.K == 'l' {
			n := 0
			for n < len(x.Lit) && n < len(y.Lit) && x.Lit[n] == y.Lit[n] {
				n++
			}
			if n == 0 {
				break
			}
			a = concat(lit(x.Lit[n:]), VStr{a.P[1:]})
			b = concat(lit(y.Lit[n:]), VStr{b.P[1:]})
			continue
		}
		break
	}
	for len(a.P) > 0 && len(b.P) > 0 {
		x, y := a.P[len(a.P)-1], b.P[len(b.P)-1]
		if keyOf(VStr{[]Part{x}}) == keyOf(VStr{[]Part{y}}) {
			a, b = VStr{a.P[:len(a.P)-1]}, VStr{b.P[:len(b.P)-1]}
			continue
		}
		if x.K == 'l' && y.K == 'l' {
			n := 0
			for n < len(x.Lit) && n < len(y.Lit) && x.Lit[len(x.Lit)-1-n] == y.Lit[len(y.Lit)-1-n] {
				n++
			}
			if n == 0 {
				break
			}
			a = concat(VStr{a.P[:len(a.P)-1]}, lit(x.Lit[:len(x.Lit)-n]))
			b = concat(VStr{b.P[:len(b.P)-1]}, lit(y.Lit[:len(y.Lit)-n]))
			continue
		}
		break
	}
	return a, b
}

// eval computes the value of an instruction.
func (in *Interp) eval(st *State, f *Frame, v ssa.Value) []Res {
	switch x := v.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		return one(st, VPtr{Obj: st.alloc(t, zero(t))})
	case *ssa.BinOp:
		return in.binop(st, x.Op, in.value(st, f, x.X), in.value(st, f, x.Y), x.X.Type())
	case *ssa.UnOp:
		a := in.value(st, f, x.X)
		switch x.Op {
		case token.MUL:
			r, p := in.load(st, a)
			if p != nil {
				return []Res{{st: st, pan: p}}
			}
			return one(st, r)
		case token.NOT:
			return in.neg(in.truth(st, a))
		case token.SUB:
			if i, ok := a.(VInt); ok {
				return one(st, i.mul(-1))
			}
			if fl, ok := a.(VFloat); ok {
				return one(st, VFloat{fl.N.mul(-1), fl.D})
			}
		}
		return one(st, st.opaque("unary "+x.Op.String()))
	case *ssa.FieldAddr:
		return in.fieldAddr(st, in.value(st, f, x.X), x.Field, x.X.Type())
	case *ssa.Field:
		s := in.value(st, f, x.X)
		if t, ok := s.(VStruct); ok && x.Field < len(t.F) {
			return one(st, t.F[x.Field])
		}
		if in.isHandle(s) {
			return one(st, s)
		}
		return one(st, in.unknownOf(st, x.Type(), "field"))
	case *ssa.IndexAddr:
		ix := in.value(st, f, x.Index)
		if n, ok := ix.(VInt); ok && f.seg != nil && f.seg.k != 0 {
			for _, m := range n.T {
				if m.A.Fn == "" && m.A.ID == f.seg.k && m.K == 1 {
					ix = n.add(iAtom(f.seg.k), -1)
				}
			}
		}
		return in.indexAddr(st, in.value(st, f, x.X), ix)
	case *ssa.Index:
		return in.index(st, in.value(st, f, x.X), in.value(st, f, x.Index))
	case *ssa.Lookup:
		return in.lookup(st, x, in.value(st, f, x.X), in.value(st, f, x.Index))
	case *ssa.Slice:
		return in.sliceOp(st, f, x)
	case *ssa.MakeInterface:
		return one(st, VIface{x.X.Type(), in.value(st, f, x.X)})
	case *ssa.ChangeInterface, *ssa.ChangeType:
		return one(st, in.value(st, f, *x.(ssa.Instruction).Operands(nil)[0]))
	case *ssa.Convert:
		return in.convert(st, in.value(st, f, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return in.convert(st, in.value(st, f, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		return in.typeAssert(st, x, in.value(st, f, x.X))
	case *ssa.Extract:
		t := in.value(st, f, x.Tuple)
		if tt, ok := t.(VTuple); ok && x.Index < len(tt) {
			return one(st, tt[x.Index])
		}
		return one(st, in.unknownOf(st, x.Type(), "extract"))
	case *ssa.MakeClosure:
		c := VFunc{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Bind = append(c.Bind, in.value(st, f, b))
		}
		return one(st, c)
	case *ssa.MakeSlice:
		n, ok := in.value(st, f, x.Len).(VInt)
		if c, isC := n.isConst(); ok && isC && c >= 0 && c < 10000 {
			et := x.Type().Underlying().(*types.Slice).Elem()
			arr := VArr{}
			for i := int64(0); i < c; i++ {
				arr.E = append(arr.E, zero(et))
			}
			return one(st, VSlice{st.alloc(x.Type().Underlying(), arr), VInt{}, iConst(c)})
		}
		if ok && len(n.T) == 1 && n.C == 0 && n.T[0].K == 1 && n.T[0].A.Fn == "count" {
			// make([]T, len(list)): filled by copy
			return one(st, VSlice{st.alloc(x.Type().Underlying(), VArr{[]Val{st.opaqueChunk(n.T[0].A.A[0].(VChunk))}}), VInt{}, n})
		}
		if ok {
			if lo, _ := st.bounds(n); lo >= 0 {
				return one(st, VSlice{st.alloc(x.Type().Underlying(), VArr{[]Val{VGap{n}}}), VInt{}, n})
			}
		}
		return one(st, st.opaque("make"))
	case *ssa.MakeMap:
		return one(st, VMap{st.alloc(x.Type(), &mapObj{})})
	case *ssa.MakeChan:
		return one(st, st.opaque("chan"))
	case *ssa.Range:
		return in.rangeOp(st, in.value(st, f, x.X))
	case *ssa.Next:
		return in.nextOp(st, f, x)
	case *ssa.Call:
		return in.callInstr(st, f, x)
	case *ssa.Phi:
		panic("phi outside block entry")
	}
	return one(st, in.unknownOf(st, v.Type(), fmt.Sprintf("%T", v)))
}

func (s *State) opaqueChunk(c VChunk) Val { return c }

func (in *Interp) isHandle(v Val) bool {
	switch v.(type) {
	case VNode, VTok, VSym, VExt, VOpaque:
		return true
	}
	return false
}

func (in *Interp) fieldAddr(st *State, p Val, field int, t types.Type) []Res {
	switch x := p.(type) {
	case VPtr:
		if o := st.heap[x.Obj]; o != nil {
			if inner, ok := getPath(o.V, x.Path); ok {
				if in.isHandle(inner) {
					return one(st, inner)
				}
				if bt, ok := inner.(VBuild); ok {
					_ = bt
					return one(st, st.opaque("builder field"))
				}
			}
		}
		return one(st, VPtr{x.Obj, append(append([]int(nil), x.Path...), field)})
	case VNil:
		return []Res{{st: st, pan: &PanicInfo{Why: "nil pointer dereference"}}}
	case VSeg:
		// a field of each element of a list of unknown length
		id := st.alloc(nil, st.opaque("field of a list element"))
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				st.heap[id].V = in.segField(st, x, s, field)
			}
		}
		return one(st, VPtr{Obj: id})
	}
	if in.isHandle(p) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				fl := s.Field(field)
				if fl.Embedded() {
					return one(st, p)
				}
				switch p.(type) {
				case VExt, VNode:
					if fl.Name() == "BuildParseTrees" {
						return one(st, p)
					}
				}
			}
		}
		id := st.alloc(nil, in.unknownOfHandleField(st, t, field))
		return one(st, VPtr{Obj: id})
	}
	return one(st, st.opaque("field address"))
}

func (in *Interp) segField(st *State, s VSeg, t *types.Struct, field int) Val {
	if b, ok := t.Field(field).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return sFn(fmt.Sprintf("field%d", field), s)
	}
	return st.opaque("field of a list element")
}

func (in *Interp) unknownOfHandleField(st *State, t types.Type, field int) Val {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
			return in.unknownOf(st, s.Field(field).Type(), "field "+s.Field(field).Name())
		}
	}
	return st.opaque("field")
}

// unknownOf is an unknown value of a type.
func (in *Interp) unknownOf(st *State, t types.Type, why string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return st.newStr(SAttr{CS: allChars, Max: inf, Taint: taintUnknown | taintLost})
		case u.Info()&types.IsInteger != 0:
			return st.newInt(-inf, inf)
		}
	case *types.Tuple:
		var out VTuple
		for i := 0; i < u.Len(); i++ {
			out = append(out, in.unknownOf(st, u.At(i).Type(), why))
		}
		return out
	}
	return st.opaque(why)
}

func (in *Interp) unknownResult(st *State, sig *types.Signature, why string) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return VTuple{}
	case 1:
		return in.unknownOf(st, r.At(0).Type(), why)
	}
	return in.unknownOf(st, r, why)
}

// boundsCheck forks off the panic of an index outside [0, n).
func (in *Interp) boundsCheck(st *State, i, n VInt, what string, vals ...Val) (ok []Res, bad []Res) {
	k := len(vals)
	st.tmp = append(append(st.tmp, vals...), i, n)
	pop := func(s *State) (VTuple, VInt, VInt) {
		m := len(s.tmp)
		vs := append(VTuple(nil), s.tmp[m-2-k:m-2]...)
		a, b := s.tmp[m-2].(VInt), s.tmp[m-1].(VInt)
		s.tmp = s.tmp[:m-2-k]
		return vs, a, b
	}
	fail := func(s *State, i, n VInt) {
		bad = append(bad, Res{st: s, pan: &PanicInfo{Why: fmt.Sprintf("%s out of range (%s of %s)", what, short(keyOf(i)), short(keyOf(n)))}})
	}
	for _, r := range in.cmpInt(st, i, token.LSS) {
		if r.v.(VBool) {
			_, a, b := pop(r.st)
			fail(r.st, a, b)
			continue
		}
		m := len(r.st.tmp)
		a, b := r.st.tmp[m-2].(VInt), r.st.tmp[m-1].(VInt)
		for _, q := range in.cmpInt(r.st, a.add(b, -1), token.LSS) {
			vs, a, b := pop(q.st)
			if q.v.(VBool) {
				ok = append(ok, Res{st: q.st, v: append(vs, a)})
			} else {
				fail(q.st, a, b)
			}
		}
	}
	return
}

func (in *Interp) indexAddr(st *State, x, idx Val) []Res {
	i, ok := idx.(VInt)
	if !ok {
		return one(st, st.opaque("index"))
	}
	switch a := x.(type) {
	case VSlice:
		good, bad := in.boundsCheck(st, i, a.Len, "index", x)
		out := bad
		for _, g := range good {
			t := g.v.(VTuple)
			out = append(out, in.elemAddr(g.st, t[0].(VSlice), t[1].(VInt))...)
		}
		return out
	case VPtr: // pointer to array
		if o := st.heap[a.Obj]; o != nil {
			if arr, ok := getPath(o.V, a.Path); ok {
				if ar, ok := arr.(VArr); ok {
					return in.concretise(st, i, int64(len(ar.E)), func(s *State, c int64) []Res {
						if c < 0 || c >= int64(len(ar.E)) {
							return []Res{{st: s, pan: &PanicInfo{Why: fmt.Sprintf("index out of range (%d of %d)", c, len(ar.E))}}}
						}
						return one(s, VPtr{a.Obj, append(append([]int(nil), a.Path...), int(c))})
					})
				}
			}
		}
	case VNil:
		return []Res{{st: st, pan: &PanicInfo{Why: "index out of range (nil slice)"}}}
	}
	return one(st, st.opaque("index"))
}

// concretise enumerates the values of a number with few of them.
func (in *Interp) concretise(st *State, i VInt, n int64, k func(*State, int64) []Res) []Res {
	if c, ok := i.isConst(); ok {
		return k(st, c)
	}
	lo, hi := st.bounds(i)
	if hi-lo > 400 {
		return one(st, st.opaque("index by an unknown number"))
	}
	in.noSeg(st)
	var out []Res
	for c := lo; c <= hi; c++ {
		if st.excluded(i, c) {
			continue
		}
		b := st.clone()
		if b.restrict(i, c, c) {
			out = append(out, k(b, c)...)
		}
	}
	return out
}

func (in *Interp) elemAddr(st *State, s VSlice, i VInt) []Res {
	o := st.heap[s.Obj]
	if o == nil {
		return one(st, st.opaque("element"))
	}
	arr, ok := o.V.(VArr)
	if !ok {
		return one(st, st.opaque("element"))
	}
	off := s.Lo.add(i, 1)
	if p, ok := st.elemPos(arr.E, off); ok && p < len(arr.E) {
		if _, gap := arr.E[p].(VGap); gap {
			panic(undecided{"an element of a list of unknown length that was just made, in " + st.frames[len(st.frames)-1].fn.String()})
		}
		if c, isChunk := arr.E[p].(VChunk); isChunk {
			// a chunk that may be empty has been excluded by the bounds check only for the last element
			if st.lat[c.ID].Min == 0 {
				l, _ := st.bounds(iFn("count", c))
				if l < 1 && p != len(arr.E)-1 {
					in.noSeg(st)
					b := st.clone()
					var out []Res
					if st.restrict(iFn("count", c), 1, inf) {
						out = append(out, Res{st: st, v: VPtr{s.Obj, []int{p}}})
					}
					if b.restrict(iFn("count", c), 0, 0) {
						out = append(out, in.elemAddr(b, s, i)...)
					}
					return out
				}
			}
		}
		return one(st, VPtr{s.Obj, []int{p}})
	}
	all := true
	for _, e := range arr.E {
		if _, ok := e.(VChunk); ok {
			all = false
		}
		if _, ok := e.(VGap); ok {
			all = false
		}
	}
	if all {
		return in.concretise(st, off, int64(len(arr.E)), func(b *State, c int64) []Res {
			if c < 0 || c >= int64(len(arr.E)) {
				return []Res{{st: b, pan: &PanicInfo{Why: "index out of range"}}}
			}
			return one(b, VPtr{s.Obj, []int{int(c)}})
		})
	}
	return one(st, VPtr{Obj: st.alloc(nil, st.opaque("some element of a list"))})
}

// index is an element of an array value or string.
func (in *Interp) index(st *State, x, idx Val) []Res {
	i, ok := idx.(VInt)
	if !ok {
		return one(st, st.opaque("index"))
	}
	switch a := x.(type) {
	case VStr:
		return in.strIndex(st, a, i)
	case VArr:
		return in.concretise(st, i, int64(len(a.E)), func(s *State, c int64) []Res {
			if c < 0 || c >= int64(len(a.E)) {
				return []Res{{st: s, pan: &PanicInfo{Why: "index out of range"}}}
			}
			return one(s, a.E[c])
		})
	}
	return one(st, st.opaque("index"))
}

// strIndex is byte i of a string.
func (in *Interp) strIndex(st *State, s VStr, i VInt) []Res {
	good, bad := in.boundsCheck(st, i, applyIFn("len", []Val{s}), "string index", s)
	out := bad
	for _, g := range good {
		t := g.v.(VTuple)
		s, i := t[0].(VStr), t[1].(VInt)
		off := VInt{}
		done := false
		for k, p := range s.P {
			d := i.add(off, -1)
			ln := applyIFn("len", []Val{VStr{s.P[k : k+1]}})
			if c, ok := d.isConst(); ok && c >= 0 {
				if p.K == 'l' && c < int64(len(p.Lit)) {
					out = append(out, Res{st: g.st, v: iConst(int64(p.Lit[c]))})
					done = true
					break
				}
				if p.K == 'd' && c == 0 {
					out = append(out, Res{st: g.st, v: p.I.add(iConst('0'), 1)})
					done = true
					break
				}
				if p.K == 'a' && c == 0 {
					at := g.st.sat[p.ID]
					if at.Min == 1 && at.Max == 1 && len(at.CS.Minus(CharSet{{0, 127}})) == 0 {
						out = append(out, Res{st: g.st, v: iFn("chr", VStr{s.P[k : k+1]})})
						done = true
						break
					}
				}
			}
			off = off.add(ln, 1)
		}
		if !done {
			v := g.st.newInt(0, 255)
			out = append(out, Res{st: g.st, v: v})
		}
	}
	return out
}

func (in *Interp) lookup(st *State, x *ssa.Lookup, m, k Val) []Res {
	if s, ok := m.(VStr); ok {
		if i, ok := k.(VInt); ok {
			return in.strIndex(st, s, i)
		}
	}
	et := x.Type()
	if x.CommaOk {
		et = x.Type().(*types.Tuple).At(0).Type()
	}
	wrap := func(v Val, ok bool) Val {
		if x.CommaOk {
			return VTuple{v, VBool(ok)}
		}
		return v
	}
	if _, isNil := m.(VNil); isNil {
		return one(st, wrap(zero(et), false))
	}
	mv, ok := m.(VMap)
	if !ok {
		if x.CommaOk {
			return one(st, VTuple{in.unknownOf(st, et, "lookup"), st.opaque("lookup ok")})
		}
		return one(st, in.unknownOf(st, et, "lookup"))
	}
	o := st.heap[mv.Obj].V.(*mapObj)
	var out []Res
	cur := []*State{st}
	st.tmp = append(st.tmp, k)
	for i := range o.K {
		var next []*State
		for _, s := range cur {
			mo := s.heap[mv.Obj].V.(*mapObj)
			kk := s.tmp[len(s.tmp)-1]
			for _, r := range in.equal(s, mo.K[i], kk) {
				if r.v.(VBool) {
					r.st.tmp = r.st.tmp[:len(r.st.tmp)-1]
					v := r.st.heap[mv.Obj].V.(*mapObj).V[i]
					out = append(out, Res{st: r.st, v: wrap(v, true)})
				} else {
					next = append(next, r.st)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		s.tmp = s.tmp[:len(s.tmp)-1]
		out = append(out, Res{st: s, v: wrap(zero(et), false)})
	}
	return out
}

func (in *Interp) rangeOp(st *State, x Val) []Res {
	switch m := x.(type) {
	case VMap:
		o := st.heap[m.Obj].V.(*mapObj)
		it := &mapObj{}
		for i := range o.K {
			it.K = append(it.K, o.K[i])
			it.V = append(it.V, o.V[i])
		}
		if len(o.K) > 1 {
			st.flags["maprange"] = true
		}
		return one(st, VIter{Obj: st.alloc(nil, it)})
	case VStr:
		it := &mapObj{}
		off := VInt{}
		s := m
		for len(s.P) > 0 {
			p := s.P[0]
			c, rest, ok := headChar(st, s)
			if !ok {
				return one(st, st.opaque("range over text of unknown length"))
			}
			it.K = append(it.K, off)
			it.V = append(it.V, c)
			if p.K == 'l' {
				for _, r := range p.Lit {
					off = off.add(iConst(int64(len(string(r)))), 1)
					break
				}
			} else {
				off = off.add(applyIFn("len", []Val{VStr{s.P[:1]}}), 1)
			}
			s = rest
		}
		return one(st, VIter{Obj: st.alloc(nil, it)})
	case VNil:
		return one(st, VIter{Obj: st.alloc(nil, &mapObj{})})
	}
	return one(st, st.opaque("range"))
}

func (in *Interp) nextOp(st *State, f *Frame, x *ssa.Next) []Res {
	it, ok := in.value(st, f, x.Iter).(VIter)
	tt := x.Type().(*types.Tuple)
	if !ok {
		panic(undecided{"iteration over an unknown text or map in " + f.fn.String()})
	}
	o := st.heap[it.Obj].V.(*mapObj)
	if len(o.K) == 0 {
		return one(st, VTuple{VBool(false), zero(tt.At(1).Type()), zero(tt.At(2).Type())})
	}
	st.heap[it.Obj] = &Obj{nil, &mapObj{o.K[1:], o.V[1:]}}
	return one(st, VTuple{VBool(true), o.K[0], o.V[0]})
}

func (in *Interp) sliceOp(st *State, f *Frame, x *ssa.Slice) []Res {
	v := in.value(st, f, x.X)
	var lo, hi Val = VInt{}, nil
	if x.Low != nil {
		lo = in.value(st, f, x.Low)
	}
	if x.High != nil {
		hi = in.value(st, f, x.High)
	}
	l, ok := lo.(VInt)
	if !ok {
		return one(st, in.unknownOf(st, x.Type(), "slice"))
	}
	switch a := v.(type) {
	case VNil:
		if h, ok := hi.(VInt); hi == nil || ok && isZero(h) && isZero(l) {
			return one(st, v)
		}
		return []Res{{st: st, pan: &PanicInfo{Why: "slice bounds out of range (nil slice)"}}}
	case VPtr: // array
		o := st.heap[a.Obj]
		arr, ok := getPath(o.V, a.Path)
		ar, ok2 := arr.(VArr)
		if !ok || !ok2 || len(a.Path) > 0 {
			return one(st, st.opaque("slice of array"))
		}
		h := iConst(int64(len(ar.E)))
		if hv, ok := hi.(VInt); ok {
			h = hv
		}
		if o.Typ != nil {
			if at, ok := o.Typ.Underlying().(*types.Array); ok {
				st.heap[a.Obj] = &Obj{types.NewSlice(at.Elem()), o.V}
			}
		}
		return one(st, VSlice{a.Obj, l, h.add(l, -1)})
	case VSlice:
		h := a.Len
		if hv, ok := hi.(VInt); ok {
			h = hv
		}
		return in.cutCheck(st, l, h, a.Len, a, func(s *State, a Val, l, h VInt) []Res {
			b := a.(VSlice)
			return one(s, VSlice{b.Obj, b.Lo.add(l, 1), h.add(l, -1)})
		})
	case VStr:
		n := applyIFn("len", []Val{a})
		h := n
		if hv, ok := hi.(VInt); ok {
			h = hv
		}
		return in.cutCheck(st, l, h, n, a, func(s *State, a Val, l, h VInt) []Res {
			return one(s, in.substr(s, a.(VStr), l, h))
		})
	}
	return one(st, in.unknownOf(st, x.Type(), "slice"))
}

func isZero(v VInt) bool { c, ok := v.isConst(); return ok && c == 0 }

// cutCheck forks off the panic of bounds outside 0 <= l <= h <= n.
func (in *Interp) cutCheck(st *State, l, h, n VInt, v Val, k func(*State, Val, VInt, VInt) []Res) []Res {
	st.tmp = append(st.tmp, l, h, n, v)
	var out []Res
	get := func(s *State) (VInt, VInt, VInt, Val) {
		m := len(s.tmp)
		return s.tmp[m-4].(VInt), s.tmp[m-3].(VInt), s.tmp[m-2].(VInt), s.tmp[m-1]
	}
	bad := func(s *State) {
		l, h, n, _ := get(s)
		s.tmp = s.tmp[:len(s.tmp)-4]
		out = append(out, Res{st: s, pan: &PanicInfo{Why: fmt.Sprintf("slice bounds out of range [%s:%s] of %s", short(keyOf(l)), short(keyOf(h)), short(keyOf(n)))}})
	}
	for _, r := range in.cmpInt(st, l, token.LSS) {
		if r.v.(VBool) {
			bad(r.st)
			continue
		}
		l, h, _, _ := get(r.st)
		for _, q := range in.cmpInt(r.st, h.add(l, -1), token.LSS) {
			if q.v.(VBool) {
				bad(q.st)
				continue
			}
			_, h, n, _ := get(q.st)
			for _, w := range in.cmpInt(q.st, n.add(h, -1), token.LSS) {
				if w.v.(VBool) {
					bad(w.st)
					continue
				}
				l, h, _, v := get(w.st)
				w.st.tmp = w.st.tmp[:len(w.st.tmp)-4]
				out = append(out, k(w.st, v, l, h)...)
			}
		}
	}
	return out
}

// substr cuts a string at byte offsets.
func (in *Interp) substr(st *State, s VStr, l, h VInt) VStr {
	head, tail, ok := splitAt(st, s, h)
	_ = tail
	if ok {
		_, mid, ok := splitAt(st, head, l)
		if ok {
			return mid
		}
	}
	if x, lo, ok := isSubstr(s); ok {
		s, l, h = x, l.add(lo, 1), h.add(lo, 1)
	}
	return sFn("substr", s, l, h)
}

// isSubstr: the text is a part of another, from the position returned.
func isSubstr(s VStr) (VStr, VInt, bool) {
	if len(s.P) != 1 || s.P[0].K != 'f' || s.P[0].Fn != "substr" || len(s.P[0].A) != 3 {
		return VStr{}, VInt{}, false
	}
	x, ok1 := s.P[0].A[0].(VStr)
	lo, ok2 := s.P[0].A[1].(VInt)
	return x, lo, ok1 && ok2
}

// splitAt splits a string at a byte offset.
func splitAt(st *State, s VStr, at VInt) (VStr, VStr, bool) {
	off := VInt{}
	for i := 0; i <= len(s.P); i++ {
		d := at.add(off, -1)
		if isZero(d) {
			return VStr{s.P[:i]}, VStr{s.P[i:]}, true
		}
		if i == len(s.P) {
			break
		}
		if c, ok := d.isConst(); ok && s.P[i].K == 'l' && c > 0 && c < int64(len(s.P[i].Lit)) {
			return concat(VStr{s.P[:i]}, lit(s.P[i].Lit[:c])), concat(lit(s.P[i].Lit[c:]), VStr{s.P[i+1:]}), true
		}
		// a single unknown ASCII character has length one
		ln := applyIFn("len", []Val{VStr{s.P[i : i+1]}})
		if lo, hi := st.bounds(ln); lo == hi {
			ln = iConst(lo)
		}
		off = off.add(ln, 1)
	}
	return s, VStr{}, false
}

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert, v Val) []Res {
	res := func(s *State, ok bool, val Val) []Res {
		if x.CommaOk {
			if !ok {
				val = zero(x.AssertedType)
			}
			return one(s, VTuple{val, VBool(ok)})
		}
		if !ok {
			return []Res{{st: s, pan: &PanicInfo{Why: "failed type assertion to " + typeName(x.AssertedType)}}}
		}
		return one(s, val)
	}
	iface, isI := x.AssertedType.Underlying().(*types.Interface)
	switch y := v.(type) {
	case VNil:
		return res(st, false, nil)
	case VIface:
		if o, ok := y.V.(VOpaque); ok && !types.IsInterface(y.T) && isI {
			_ = o
		}
		if isI {
			if implements(y.T, iface) {
				return res(st, true, y)
			}
			return res(st, false, nil)
		}
		if types.Identical(y.T, x.AssertedType) {
			return res(st, true, y.V)
		}
		return res(st, false, nil)
	}
	var out []Res
	for _, r := range in.pred(st, "is "+typeName(x.AssertedType), v) {
		if r.v.(VBool) {
			var val Val = v
			if !isI {
				val = in.unknownOf(r.st, x.AssertedType, "assertion")
			}
			out = append(out, res(r.st, true, val)...)
		} else {
			out = append(out, res(r.st, false, nil)...)
		}
	}
	return out
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) []Res {
	tb, tIsB := to.Underlying().(*types.Basic)
	fb, fIsB := from.Underlying().(*types.Basic)
	switch x := v.(type) {
	case VInt:
		if tIsB && tb.Info()&types.IsString != 0 {
			if c, ok := x.isConst(); ok {
				return one(st, lit(string(rune(c))))
			}
			// rune of a character
			if s, ok := chrToStr(st, x); ok {
				return one(st, s)
			}
			return one(st, st.newStr(SAttr{CS: allChars, Min: 1, Max: 1, Taint: taintUnknown | taintLost}))
		}
		if tIsB && tb.Info()&types.IsFloat != 0 {
			return one(st, VFloat{x, 1})
		}
		if tIsB && tb.Info()&types.IsInteger != 0 {
			lo, hi := st.bounds(x)
			ml, mh := intRange(tb)
			if lo >= ml && hi <= mh {
				return one(st, x)
			}
			if c, ok := x.isConst(); ok {
				return one(st, iConst(wrapInt(c, tb)))
			}
			_ = fb
			if tb.Kind() == types.Int64 || tb.Kind() == types.Int || tb.Kind() == types.Int32 {
				return one(st, x)
			}
			return one(st, st.newInt(ml, mh))
		}
	case VFloat:
		if tIsB && tb.Info()&types.IsInteger != 0 {
			if q, ok := exactDiv(x.N, x.D); ok {
				return one(st, q)
			}
			lo, hi := st.bounds(x.N)
			if lo >= 0 && hi < inf {
				return one(st, applyIFn("div", []Val{x.N, iConst(x.D)}))
			}
			return one(st, st.newInt(-inf, inf))
		}
		if tIsB {
			return one(st, x)
		}
	case VStr:
		if tIsB {
			return one(st, x)
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			// []byte(s), []rune(s)
			rs := in.rangeOp(st, x)
			if it, ok := rs[0].v.(VIter); ok {
				chars := st.heap[it.Obj].V.(*mapObj).V
				ascii := true
				for _, c := range chars {
					if _, hi := st.bounds(c.(VInt)); hi > 127 {
						ascii = false
					}
				}
				eb, _ := sl.Elem().Underlying().(*types.Basic)
				if ascii || eb != nil && eb.Kind() == types.Int32 {
					return one(st, VSlice{st.alloc(to.Underlying(), VArr{append([]Val(nil), chars...)}), VInt{}, iConst(int64(len(chars)))})
				}
			}
			id := st.alloc(to.Underlying(), VArr{[]Val{VBuild{x}}})
			return one(st, VSlice{id, VInt{}, iConst(1)})
		}
	case VSlice:
		if tIsB && tb.Info()&types.IsString != 0 {
			if es, ok := st.window(x); ok {
				var ps []VStr
				good := true
				for _, e := range es {
					switch c := e.(type) {
					case VInt:
						s, ok := chrToStr(st, c)
						good = good && ok
						ps = append(ps, s)
					case VBuild:
						ps = append(ps, c.S)
					default:
						good = false
					}
				}
				if good {
					return one(st, concat(ps...))
				}
			}
			return one(st, in.unknownOf(st, to, "convert"))
		}
	case VNil:
		if tIsB && tb.Info()&types.IsString != 0 {
			return one(st, VStr{})
		}
	}
	_ = fIsB
	if tIsB {
		return one(st, in.unknownOf(st, to, "convert"))
	}
	return one(st, v)
}

// chrToStr is the text of a character code.
func chrToStr(st *State, x VInt) (VStr, bool) {
	if c, ok := x.isConst(); ok {
		return lit(string(rune(c))), true
	}
	if x.C == 0 && len(x.T) == 1 && x.T[0].K == 1 && x.T[0].A.Fn == "chr" {
		return x.T[0].A.A[0].(VStr), true
	}
	d := x.add(iConst('0'), -1)
	if lo, hi := st.bounds(d); lo >= 0 && hi <= 9 {
		return sDigit(d), true
	}
	return VStr{}, false
}

func exactDiv(n VInt, d int64) (VInt, bool) {
	if d == 0 || n.C%d != 0 {
		return VInt{}, false
	}
	out := VInt{C: n.C / d}
	for _, t := range n.T {
		if t.K%d != 0 {
			return VInt{}, false
		}
		out.T = append(out.T, Mono{t.K / d, t.A})
	}
	return out, true
}

func intRange(b *types.Basic) (int64, int64) {
	switch b.Kind() {
	case types.Uint8:
		return 0, 255
	case types.Int8:
		return -128, 127
	case types.Uint16:
		return 0, 65535
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	}
	return -inf, inf
}

func wrapInt(c int64, b *types.Basic) int64 {
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(c))
	case types.Int8:
		return int64(int8(c))
	case types.Uint16:
		return int64(uint16(c))
	case types.Int16:
		return int64(int16(c))
	case types.Int32:
		return int64(int32(c))
	case types.Uint32:
		return int64(uint32(c))
	}
	return c
}

// equal decides x == y.
func (in *Interp) equal(st *State, x, y Val) []Res {
	switch a := x.(type) {
	case VStr:
		if b, ok := y.(VStr); ok {
			return in.eqStr(st, a, b)
		}
	case VInt:
		if b, ok := y.(VInt); ok {
			return in.cmpInt(st, a.add(b, -1), token.EQL)
		}
	case VFloat:
		if b, ok := y.(VFloat); ok {
			return in.cmpInt(st, a.N.mul(b.D).add(b.N.mul(a.D), -1), token.EQL)
		}
	case VBool:
		if b, ok := y.(VBool); ok {
			return one(st, VBool(a == b))
		}
		var out []Res
		for _, r := range in.truth(st, y) {
			out = append(out, Res{st: r.st, v: VBool(r.v.(VBool) == a)})
		}
		return out
	case VOpaque:
		if b, ok := y.(VOpaque); ok && a.ID == b.ID {
			return one(st, VBool(true))
		}
		if b, ok := y.(VBool); ok {
			return in.equal(st, b, x)
		}
	case VIface:
		if b, ok := y.(VIface); ok {
			if !types.Identical(a.T, b.T) {
				return one(st, VBool(false))
			}
			return in.equal(st, a.V, b.V)
		}
	case VStruct:
		if b, ok := y.(VStruct); ok && len(a.F) == len(b.F) {
			cur := []Res{{st: st, v: VBool(true)}}
			for i := range a.F {
				var next []Res
				for _, r := range cur {
					if !r.v.(VBool) {
						next = append(next, r)
						continue
					}
					next = append(next, in.equal(r.st, a.F[i], b.F[i])...)
				}
				cur = next
			}
			return cur
		}
	}
	nx, ny := isNilVal(x), isNilVal(y)
	if nx && ny {
		return one(st, VBool(true))
	}
	if nx || ny {
		o := x
		if nx {
			o = y
		}
		switch z := o.(type) {
		case VOpaque:
			return in.pred(st, "nil", z)
		case VUser:
			return in.pred(st, "nil", z)
		}
		return one(st, VBool(false))
	}
	if keyOf(x) == keyOf(y) {
		return one(st, VBool(true))
	}
	px, ok1 := x.(VPtr)
	py, ok2 := y.(VPtr)
	if ok1 && ok2 {
		return one(st, VBool(px.Obj == py.Obj && fmt.Sprint(px.Path) == fmt.Sprint(py.Path)))
	}
	return in.pred(st, "eq", x, y)
}

func isNilVal(v Val) bool { _, ok := v.(VNil); return ok }

func (in *Interp) binop(st *State, op token.Token, x, y Val, t types.Type) []Res {
	switch op {
	case token.EQL:
		return in.equal(st, x, y)
	case token.NEQ:
		return in.neg(in.equal(st, x, y))
	}
	switch a := x.(type) {
	case VStr:
		b, ok := y.(VStr)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return one(st, concat(a, b))
		case token.LSS:
			return in.lessStr(st, a, b)
		case token.GTR:
			return in.lessStr(st, b, a)
		case token.LEQ:
			return in.neg(in.lessStr(st, b, a))
		case token.GEQ:
			return in.neg(in.lessStr(st, a, b))
		}
	case VInt:
		b, ok := y.(VInt)
		if !ok {
			break
		}
		return in.intop(st, op, a, b, t)
	case VFloat:
		b, ok := y.(VFloat)
		if !ok {
			break
		}
		switch op {
		case token.ADD, token.SUB:
			k := int64(1)
			if op == token.SUB {
				k = -1
			}
			if a.D == b.D {
				return one(st, VFloat{a.N.add(b.N, k), a.D})
			}
			return one(st, VFloat{a.N.mul(b.D).add(b.N.mul(a.D), k), a.D * b.D})
		case token.MUL:
			if c, ok := b.N.isConst(); ok {
				return one(st, reduceF(VFloat{a.N.mul(c), a.D * b.D}))
			}
			if c, ok := a.N.isConst(); ok {
				return one(st, reduceF(VFloat{b.N.mul(c), a.D * b.D}))
			}
		case token.QUO:
			if c, ok := b.N.isConst(); ok && c != 0 {
				return one(st, reduceF(VFloat{a.N.mul(b.D), a.D * c}))
			}
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return in.cmpInt(st, a.N.mul(b.D).add(b.N.mul(a.D), -1), op)
		}
	case VBool:
		if b, ok := y.(VBool); ok {
			switch op {
			case token.AND, token.LAND:
				return one(st, a && b)
			case token.OR, token.LOR:
				return one(st, a || b)
			case token.XOR:
				return one(st, VBool(a != b))
			}
		}
	}
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return in.pred(st, "cmp "+op.String(), x, y)
	}
	return one(st, in.unknownOf(st, t, "operation "+op.String()))
}

func reduceF(f VFloat) VFloat {
	if f.D < 0 {
		f.N, f.D = f.N.mul(-1), -f.D
	}
	g := f.D
	gcd := func(a, b int64) int64 {
		for b != 0 {
			a, b = b, a%b
		}
		if a < 0 {
			return -a
		}
		return a
	}
	g = gcd(g, f.N.C)
	for _, t := range f.N.T {
		g = gcd(g, t.K)
	}
	if g > 1 {
		q, _ := exactDiv(f.N, g)
		return VFloat{q, f.D / g}
	}
	return f
}

func (in *Interp) intop(st *State, op token.Token, a, b VInt, t types.Type) []Res {
	bt, _ := t.Underlying().(*types.Basic)
	fit := func(v VInt) []Res {
		if bt != nil {
			lo, hi := st.bounds(v)
			ml, mh := intRange(bt)
			if c, ok := v.isConst(); ok {
				return one(st, iConst(wrapInt(c, bt)))
			}
			if (lo < ml || hi > mh) && bt.Kind() != types.Int32 {
				return one(st, st.newInt(ml, mh))
			}
		}
		return one(st, v)
	}
	ca, okA := a.isConst()
	cb, okB := b.isConst()
	switch op {
	case token.ADD:
		return fit(a.add(b, 1))
	case token.SUB:
		return fit(a.add(b, -1))
	case token.MUL:
		if okA {
			return fit(b.mul(ca))
		}
		if okB {
			return fit(a.mul(cb))
		}
		if x := a; keyOf(a) > keyOf(b) {
			a, b = b, x
		}
		return one(st, applyIFn("mul", []Val{a, b}))
	case token.QUO, token.REM:
		if !okB {
			var out []Res
			for _, r := range in.cmpInt(st, b, token.EQL) {
				if r.v.(VBool) {
					out = append(out, Res{st: r.st, pan: &PanicInfo{Why: "division by zero"}})
				} else {
					out = append(out, Res{st: r.st, v: r.st.newInt(-inf, inf)})
				}
			}
			return out
		}
		if cb == 0 {
			return []Res{{st: st, pan: &PanicInfo{Why: "division by zero"}}}
		}
		if okA {
			if op == token.QUO {
				return one(st, iConst(ca/cb))
			}
			return one(st, iConst(ca%cb))
		}
		if op == token.QUO {
			if q, ok := exactDiv(a, cb); ok {
				return one(st, q)
			}
			// split the exactly divisible part off a sum with a small remainder
			var q, r VInt
			r.C = a.C % cb
			q.C = a.C / cb
			for _, m := range a.T {
				if m.K%cb == 0 {
					q.T = append(q.T, Mono{m.K / cb, m.A})
				} else {
					r.T = append(r.T, m)
				}
			}
			ql, _ := st.bounds(q)
			if lo, hi := st.bounds(r); lo >= 0 && hi < cb && ql >= 0 && cb > 0 {
				return one(st, q)
			}
			return one(st, applyIFn("div", []Val{a, b}))
		}
		var r VInt
		r.C = a.C % cb
		for _, m := range a.T {
			if m.K%cb != 0 {
				r.T = append(r.T, m)
			}
		}
		al, _ := st.bounds(a)
		if lo, hi := st.bounds(r); lo >= 0 && hi < cb && al >= 0 && cb > 0 {
			return one(st, r)
		}
		return one(st, applyIFn("mod", []Val{a, b}))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return in.cmpInt(st, a.add(b, -1), op)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if okA && okB {
			var r int64
			switch op {
			case token.AND:
				r = ca & cb
			case token.OR:
				r = ca | cb
			case token.XOR:
				r = ca ^ cb
			case token.SHL:
				r = ca << uint(cb&63)
			case token.SHR:
				r = ca >> uint(cb&63)
			case token.AND_NOT:
				r = ca &^ cb
			}
			return one(st, iConst(r))
		}
		if op == token.AND && okB && cb == 3 {
			if lo, _ := st.bounds(a); lo >= 0 {
				return one(st, applyIFn("mod", []Val{a, iConst(4)}))
			}
		}
	}
	return one(st, st.newInt(-inf, inf))
}

// lessStr decides a < b.
func (in *Interp) lessStr(st *State, a, b VStr) []Res {
	a, b = trimCommonPrefix(a, b)
	if len(b.P) == 0 {
		return one(st, VBool(false))
	}
	if len(a.P) == 0 {
		return in.neg(in.eqStr(st, VStr{}, b))
	}
	// texts of digits of the same length compare as numbers
	if x, n, ok := digitsInt(a); ok {
		if y, m, ok := digitsInt(b); ok && n == m {
			return in.cmpInt(st, x.add(y, -1), token.LSS)
		}
	}
	ca, ra, ok1 := headChar(st, a)
	cb, rb, ok2 := headChar(st, b)
	if ok1 && ok2 {
		var out []Res
		st.tmp = append(st.tmp, ra, rb, ca, cb)
		pop := func(s *State) (VStr, VStr, VInt, VInt) {
			n := len(s.tmp)
			t := s.tmp[n-4:]
			s.tmp = s.tmp[:n-4]
			return t[0].(VStr), t[1].(VStr), t[2].(VInt), t[3].(VInt)
		}
		for _, r := range in.cmpInt(st, ca.add(cb, -1), token.EQL) {
			ra, rb, ca, cb := pop(r.st)
			if r.v.(VBool) {
				out = append(out, in.lessStr(r.st, ra, rb)...)
			} else {
				out = append(out, in.cmpInt(r.st, ca.add(cb, -1), token.LSS)...)
			}
		}
		return out
	}
	return in.pred(st, "less", a, b)
}

func trimCommonPrefix(a, b VStr) (VStr, VStr) {
	for len(a.P) > 0 && len(b.P) > 0 && keyOf(VStr{a.P[:1]}) == keyOf(VStr{b.P[:1]}) {
		a, b = VStr{a.P[1:]}, VStr{b.P[1:]}
	}
	return a, b
}

// digitsInt is the number a text of digits denotes.
func digitsInt(s VStr) (VInt, int, bool) {
	v := VInt{}
	n := 0
	for _, p := range s.P {
		switch p.K {
		case 'l':
			for _, r := range p.Lit {
				if r < '0' || r > '9' {
					return v, 0, false
				}
				v = v.mul(10).add(iConst(int64(r-'0')), 1)
				n++
			}
		case 'd':
			v = v.mul(10).add(p.I, 1)
			n++
		default:
			return v, 0, false
		}
	}
	return v, n, n > 0
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.ReplaceAll(fn.String(), antlrPath, "antlr")
}
