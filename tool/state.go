package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const inf = int64(1) << 61

// SAttr describes the texts an unknown can stand for.
type SAttr struct {
	CS       CharSet
	Min, Max int64 // characters
	Paired   bool  // CR and LF occur only as CR LF
	Taint    int
}

const (
	taintDecoded = 1 << iota
	taintComment
	taintFws
	taintUnknown
	taintInput
	taintLost // where it comes from is not known
)

func (a SAttr) union(b SAttr) SAttr {
	return SAttr{CS: a.CS.Union(b.CS), Min: min(a.Min, b.Min), Max: max(a.Max, b.Max), Paired: a.Paired && b.Paired, Taint: a.Taint | b.Taint}
}
func (a SAttr) equal(b SAttr) bool {
	return a.Min == b.Min && a.Max == b.Max && a.Paired == b.Paired && a.Taint == b.Taint && a.CS.Equal(b.CS)
}

// LAttr describes the elements of a chunk.
type LAttr struct {
	Min int64
	El  []SAttr
}

type IRange struct{ Lo, Hi int64 }

// Fact bounds a linear form (without constant) and excludes values.
type Fact struct {
	Form   VInt
	Lo, Hi int64
	Not    []int64
}

// Pred is a recorded answer to an uninterpreted question.
type Pred struct {
	Name string
	A    []Val
	Ans  bool
}

type Obj struct {
	Typ types.Type
	V   Val
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	visit    map[*ssa.BasicBlock]int
	defs     []deferred
	seg      *segLoop
	iter     map[int]*Obj // memory when the current iteration of a loop began
	iterHead *ssa.BasicBlock
	pan      *PanicInfo
}

type deferred struct {
	call ssa.CallCommon
	fn   Val
	args []Val
}

type Node struct {
	Rule int
	Text *VStr
	Kids []Kid
	Exp  bool
}
type Kid struct {
	Tok  int    // token type, or -1
	Set  TokSet // for Tok -2: one of several
	Rule int    // rule, or -1
	Text *VStr
	Node int
}

type GF struct {
	Rule int
	S    map[string]Val
}

type Ghost struct {
	F       []*GF
	Entries []Val
	Mode    int
}

type State struct {
	frames   []*Frame
	heap     map[int]*Obj
	globals  map[*ssa.Global]int
	sat      map[int]SAttr
	iat      map[int]IRange
	lat      map[int]LAttr
	facts    map[string]Fact
	preds    map[string]Pred
	nodes    map[int]*Node
	stack    []int // open nodes
	ghosts   []*Ghost
	depth    map[int]int // open comments etc.
	rec      string
	next     *int
	trail    []string
	flags    map[string]bool
	tmp      []Val
	entering int // the node whose Enter callback runs
	keep     []Val
	frame    []Val // the unknowns a summary abstracts from
}

func newState(next *int) *State {
	return &State{heap: map[int]*Obj{}, globals: map[*ssa.Global]int{}, sat: map[int]SAttr{}, iat: map[int]IRange{}, lat: map[int]LAttr{},
		facts: map[string]Fact{}, preds: map[string]Pred{}, nodes: map[int]*Node{}, depth: map[int]int{}, next: next, flags: map[string]bool{}}
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m)+2)
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (s *State) clone() *State {
	o := *s
	o.heap, o.globals, o.sat, o.iat, o.lat = cpMap(s.heap), cpMap(s.globals), cpMap(s.sat), cpMap(s.iat), cpMap(s.lat)
	o.facts, o.preds, o.nodes, o.depth, o.flags = cpMap(s.facts), cpMap(s.preds), cpMap(s.nodes), cpMap(s.depth), cpMap(s.flags)
	o.stack = append([]int(nil), s.stack...)
	o.tmp = append([]Val(nil), s.tmp...)
	o.keep = append([]Val(nil), s.keep...)
	o.frame = append([]Val(nil), s.frame...)
	o.trail = s.trail[:len(s.trail):len(s.trail)]
	o.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = cpMap(f.env)
		g.visit = cpMap(f.visit)
		g.defs = append([]deferred(nil), f.defs...)
		o.frames[i] = &g
	}
	o.ghosts = make([]*Ghost, len(s.ghosts))
	for i, g := range s.ghosts {
		o.ghosts[i] = g.clone()
	}
	return &o
}

func (g *Ghost) clone() *Ghost {
	o := &Ghost{Mode: g.Mode, Entries: append([]Val(nil), g.Entries...), F: make([]*GF, len(g.F))}
	for i, f := range g.F {
		o.F[i] = &GF{f.Rule, cpMap(f.S)}
	}
	return o
}

func (s *State) id() int { *s.next++; return *s.next }
func (s *State) note(f string, a ...any) {
	if len(s.trail) < 400 {
		s.trail = append(s.trail, fmt.Sprintf(f, a...))
	}
}
func (s *State) newStr(a SAttr) VStr {
	id := s.id()
	s.sat[id] = a
	return sAtom(id)
}
func (s *State) newInt(lo, hi int64) VInt {
	id := s.id()
	s.iat[id] = IRange{lo, hi}
	return iAtom(id)
}
func (s *State) opaque(why string) VOpaque { return VOpaque{s.id(), why} }
func (s *State) alloc(t types.Type, v Val) int {
	id := s.id()
	s.heap[id] = &Obj{t, v}
	return id
}

// attr computes the attributes of a string.
func (s *State) attr(v VStr) SAttr {
	out := SAttr{Paired: true}
	for i, p := range v.P {
		var a SAttr
		switch p.K {
		case 'l':
			for _, r := range p.Lit {
				a.CS = append(a.CS, Range{r, r})
			}
			a.CS = a.CS.norm()
			a.Min = int64(len([]rune(p.Lit)))
			a.Max = a.Min
			x := strings.ReplaceAll(p.Lit, "\r\n", "")
			a.Paired = !strings.ContainsAny(x, "\r\n")
		case 'a':
			a = s.sat[p.ID]
		case 'd':
			a = SAttr{CS: CharSet{{'0', '9'}}, Min: 1, Max: 1, Paired: true}
		case 'f':
			a = s.fnAttr(p)
		}
		if i == 0 {
			out = a
			continue
		}
		out.CS = out.CS.Union(a.CS)
		out.Min += a.Min
		out.Max = min(out.Max+a.Max, inf)
		out.Paired = out.Paired && a.Paired
		out.Taint |= a.Taint
	}
	return out
}

func (s *State) fnAttr(p Part) SAttr {
	un := SAttr{CS: allChars, Max: inf, Taint: taintUnknown}
	for _, a := range p.A {
		if x, ok := a.(VStr); ok {
			un.Taint |= s.attr(x).Taint
		}
	}
	switch {
	case p.Fn == "substr" || strings.HasPrefix(p.Fn, "trim") || strings.HasPrefix(p.Fn, "cut"):
		if x, ok := p.A[0].(VStr); ok {
			a := s.attr(x)
			a.Min = 0
			a.Paired = len(a.CS.Inter(CharSet{{'\n', '\n'}, {'\r', '\r'}})) == 0
			return a
		}
	case strings.HasPrefix(p.Fn, "replace") && len(p.A) == 3:
		x, ok1 := p.A[0].(VStr)
		y, ok2 := p.A[2].(VStr)
		if ok1 && ok2 {
			a, b := s.attr(x), s.attr(y)
			cs := a.CS.Union(b.CS)
			return SAttr{CS: cs, Max: inf, Paired: len(cs.Inter(CharSet{{'\n', '\n'}, {'\r', '\r'}})) == 0, Taint: a.Taint | b.Taint}
		}
	case strings.HasPrefix(p.Fn, "field"):
		un.Taint |= taintLost
	}
	switch p.Fn {
	case "drop":
		a := s.attr(p.A[0].(VStr))
		set, _ := p.A[1].(VStr).isLit()
		var cs CharSet
		for _, r := range set {
			cs = append(cs, Range{r, r})
		}
		if len(a.CS.Inter(cs)) > 0 {
			a.Min = 0
		}
		a.CS = a.CS.Minus(cs)
		if len(a.CS) == 0 && a.Taint&taintUnknown == 0 {
			a.Max = 0
		}
		a.Paired = len(a.CS.Inter(CharSet{{'\n', '\n'}, {'\r', '\r'}})) == 0
		return a
	case "join", "joinrest":
		l := p.A[0].(vlist)
		sep, ok := p.A[1].(VStr)
		if !ok {
			return un
		}
		sa := s.attr(sep)
		out := SAttr{Paired: sa.Paired, Taint: sa.Taint}
		n := int64(0)
		for _, e := range l.E {
			switch x := e.(type) {
			case VStr:
				a := s.attr(x)
				out.CS = out.CS.Union(a.CS)
				out.Min += a.Min
				out.Max = min(out.Max+a.Max, inf)
				out.Paired = out.Paired && a.Paired
				out.Taint |= a.Taint
				n++
			case VChunk:
				la := s.lat[x.ID]
				if len(la.El) != 1 {
					return un
				}
				a := la.El[0]
				out.CS = out.CS.Union(a.CS)
				out.Min += la.Min * a.Min
				out.Max = inf
				out.Paired = out.Paired && a.Paired
				out.Taint |= a.Taint
				n += la.Min
			default:
				return un
			}
		}
		if p.Fn == "joinrest" {
			out.Min += n * sa.Min
		} else if n > 1 {
			out.Min += (n - 1) * sa.Min
		}
		if len(l.E) > 1 || out.Max >= inf || p.Fn == "joinrest" {
			out.CS = out.CS.Union(sa.CS)
		}
		out.Max = inf
		return out
	case "decoded":
		un.Taint = taintDecoded
		return un
	case "itoa":
		return SAttr{CS: CharSet{{'-', '-'}, {'0', '9'}}, Min: 1, Max: 20, Paired: true}
	case "lower", "upper":
		a := s.attr(p.A[0].(VStr))
		a.CS = a.CS.Union(CharSet{{'a', 'z'}, {'A', 'Z'}, {0x80, maxRune}})
		return a
	case "map1": // a function of every character: same length
		a := s.attr(p.A[0].(VStr))
		a.CS = allChars
		a.Paired = false
		return a
	}
	return un
}

// form splits an integer into k*form + c with a normalised form.
func normForm(v VInt) (form VInt, k, c int64) {
	c = v.C
	if len(v.T) == 0 {
		return VInt{}, 0, c
	}
	g := int64(0)
	for _, t := range v.T {
		a := t.K
		if a < 0 {
			a = -a
		}
		for a != 0 {
			g, a = a, g%a
		}
	}
	if v.T[0].K < 0 {
		g = -g
	}
	f := VInt{}
	for _, t := range v.T {
		f.T = append(f.T, Mono{t.K / g, t.A})
	}
	return f, g, c
}

func (s *State) atomBounds(a *IAtom) (int64, int64) {
	if a.Fn == "" {
		if r, ok := s.iat[a.ID]; ok {
			return r.Lo, r.Hi
		}
		return -inf, inf
	}
	switch a.Fn {
	case "len":
		at := s.attr(a.A[0].(VStr))
		hi := at.Max * 4
		if at.Max >= inf {
			hi = inf
		} else if len(at.CS.Minus(CharSet{{0, 127}})) == 0 {
			hi = at.Max
		}
		return at.Min, hi
	case "runes":
		at := s.attr(a.A[0].(VStr))
		return at.Min, at.Max
	case "count":
		return s.lat[a.A[0].(VChunk).ID].Min, inf
	case "mod":
		if d, ok := a.A[1].(VInt); ok {
			if c, ok := d.isConst(); ok && c > 0 {
				lo, hi := s.bounds(a.A[0].(VInt))
				if lo >= 0 {
					return 0, min(hi, c-1)
				}
				return -(c - 1), c - 1
			}
		}
	case "div":
		if d, ok := a.A[1].(VInt); ok {
			if c, ok := d.isConst(); ok && c > 0 {
				lo, hi := s.bounds(a.A[0].(VInt))
				if lo > -inf && hi < inf {
					return lo / c, hi / c
				}
				if lo >= 0 {
					return 0, inf
				}
			}
		}
	case "daysin":
		if m, ok := a.A[1].(VInt); ok {
			if c, ok := m.isConst(); ok && c == 2 {
				return 28, 29
			}
		}
		return 28, 31
	case "chr":
		cs := s.attr(a.A[0].(VStr)).CS
		if len(cs) > 0 {
			return int64(cs[0].Lo), int64(cs[len(cs)-1].Hi)
		}
	}
	return -inf, inf
}

func mulSat(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a >= inf || a <= -inf || b >= inf || b <= -inf {
		if (a > 0) == (b > 0) {
			return inf
		}
		return -inf
	}
	p := a * b
	if p/b != a {
		if (a > 0) == (b > 0) {
			return inf
		}
		return -inf
	}
	if p > inf {
		return inf
	}
	if p < -inf {
		return -inf
	}
	return p
}
func addSat(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	if a <= -inf || b <= -inf {
		return -inf
	}
	return a + b
}

// bounds is the interval of an integer under the recorded facts.
func (s *State) bounds(v VInt) (int64, int64) {
	lo, hi := v.C, v.C
	for _, t := range v.T {
		l, h := s.atomBounds(t.A)
		if f, ok := s.facts[atomFormKey(t.A)]; ok {
			l, h = max(l, f.Lo), min(h, f.Hi)
			for changed := true; changed; {
				changed = false
				for _, n := range f.Not {
					if n == l {
						l++
						changed = true
					}
					if n == h {
						h--
						changed = true
					}
				}
			}
		}
		a, b := mulSat(l, t.K), mulSat(h, t.K)
		if a > b {
			a, b = b, a
		}
		lo, hi = addSat(lo, a), addSat(hi, b)
	}
	if len(v.T) > 1 {
		f, k, c := normForm(v)
		if ft, ok := s.facts[keyOf(f)]; ok {
			a, b := addSat(mulSat(ft.Lo, k), c), addSat(mulSat(ft.Hi, k), c)
			if a > b {
				a, b = b, a
			}
			lo, hi = max(lo, a), min(hi, b)
		}
		// facts about a part of the sum: the rest is bounded on its own
		for _, ft := range s.facts {
			if len(ft.Form.T) < 2 || len(ft.Form.T) >= len(v.T) {
				continue
			}
			for _, k := range []int64{1, -1, v.T[0].K, -v.T[0].K} {
				rest := v.add(ft.Form, -k)
				if len(rest.T) != len(v.T)-len(ft.Form.T) {
					continue
				}
				rl, rh := int64(0), int64(0)
				rl, rh = s.simpleBounds(rest)
				a, b := mulSat(ft.Lo, k), mulSat(ft.Hi, k)
				if a > b {
					a, b = b, a
				}
				lo, hi = max(lo, addSat(rl, a)), min(hi, addSat(rh, b))
			}
		}
	}
	return lo, hi
}

func (s *State) simpleBounds(v VInt) (int64, int64) {
	lo, hi := v.C, v.C
	for _, t := range v.T {
		l, h := s.bounds(VInt{T: []Mono{{1, t.A}}})
		a, b := mulSat(l, t.K), mulSat(h, t.K)
		if a > b {
			a, b = b, a
		}
		lo, hi = addSat(lo, a), addSat(hi, b)
	}
	return lo, hi
}

func atomFormKey(a *IAtom) string { return keyOf(VInt{T: []Mono{{1, a}}}) }

// restrict records lo <= v <= hi; it returns false when that is impossible.
func (s *State) restrict(v VInt, lo, hi int64) bool {
	bl, bh := s.bounds(v)
	if bl > hi || bh < lo {
		return false
	}
	if len(v.T) == 0 || bl >= lo && bh <= hi {
		return true
	}
	f, k, c := normForm(v)
	// lo <= k*f + c <= hi
	fl, fh := -inf, inf
	if lo > -inf {
		x := lo - c
		if k > 0 {
			fl = ceilDiv(x, k)
		} else {
			fh = floorDiv(x, k)
		}
	}
	if hi < inf {
		x := hi - c
		if k > 0 {
			fh = min(fh, floorDiv(x, k))
		} else {
			fl = max(fl, ceilDiv(x, k))
		}
	}
	key := keyOf(f)
	ft, ok := s.facts[key]
	if !ok {
		ft = Fact{Form: f, Lo: -inf, Hi: inf}
	}
	ft.Lo, ft.Hi = max(ft.Lo, fl), min(ft.Hi, fh)
	s.facts[key] = ft
	s.learnt(ft)
	l, h := s.bounds(v)
	return l <= h
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// exclude records v != c.
func (s *State) exclude(v VInt, c int64) bool {
	l, h := s.bounds(v)
	if l == h && l == c {
		return false
	}
	f, k, c0 := normForm(v)
	if (c-c0)%k != 0 {
		return true
	}
	key := keyOf(f)
	ft, ok := s.facts[key]
	if !ok {
		ft = Fact{Form: f, Lo: -inf, Hi: inf}
	}
	ft.Not = append(append([]int64(nil), ft.Not...), (c-c0)/k)
	s.facts[key] = ft
	if len(f.T) == 1 {
		a := f.T[0].A
		if a.Fn == "len" && (c-c0)/k == 0 {
			s.restrict(f, 1, inf)
		}
		if a.Fn == "chr" {
			if st, ok := a.A[0].(VStr); ok && len(st.P) == 1 && st.P[0].K == 'a' {
				at := s.sat[st.P[0].ID]
				x := int32((c - c0) / k)
				at.CS = at.CS.Minus(CharSet{{x, x}})
				s.sat[st.P[0].ID] = at
			}
		}
	}
	return true
}

// excluded says whether v cannot be c because of recorded facts.
func (s *State) excluded(v VInt, c int64) bool {
	l, h := s.bounds(v)
	if c < l || c > h {
		return true
	}
	f, k, c0 := normForm(v)
	if k == 0 {
		return c0 != c
	}
	if (c-c0)%k != 0 {
		return true
	}
	if ft, ok := s.facts[keyOf(f)]; ok {
		for _, n := range ft.Not {
			if n == (c-c0)/k {
				return true
			}
		}
	}
	return false
}

// learnt turns a new bound into knowledge about texts.
func (s *State) learnt(ft Fact) {
	if ft.Hi <= 0 && ft.Lo >= 0 || ft.Hi == 0 {
		allLen := true
		for _, t := range ft.Form.T {
			if t.A.Fn != "len" || t.K < 0 {
				allLen = false
			}
		}
		if allLen && ft.Hi == 0 {
			for _, t := range ft.Form.T {
				st := t.A.A[0].(VStr)
				if len(st.P) == 1 && st.P[0].K == 'a' {
					s.subst(&mapper{str: func(id int) (VStr, bool) {
						if id == st.P[0].ID {
							return VStr{}, true
						}
						return VStr{}, false
					}})
				} else if len(st.P) == 1 && st.P[0].K == 'f' {
					s.emptied(st.P[0])
				}
			}
			return
		}
	}
	if len(ft.Form.T) != 1 {
		return
	}
	a := ft.Form.T[0].A
	switch a.Fn {
	case "len":
		st := a.A[0].(VStr)
		if ft.Lo >= 1 && len(st.P) == 1 && st.P[0].K == 'a' {
			at := s.sat[st.P[0].ID]
			if at.Min < 1 {
				at.Min = 1
				s.sat[st.P[0].ID] = at
			}
		}
	case "count":
		id := a.A[0].(VChunk).ID
		if ft.Hi == 0 {
			s.subst(&mapper{chk: func(i int) ([]Val, bool) { return nil, i == id }})
		} else if ft.Lo >= 1 {
			la := s.lat[id]
			la.Min = max(la.Min, ft.Lo)
			s.lat[id] = la
		}
	case "chr":
		st := a.A[0].(VStr)
		if len(st.P) == 1 && st.P[0].K == 'a' {
			at := s.sat[st.P[0].ID]
			at.CS = at.CS.Inter(CharSet{{int32(max(ft.Lo, 0)), int32(min(ft.Hi, maxRune))}})
			s.sat[st.P[0].ID] = at
			if at.CS.Size() == 1 && at.Min == 1 && at.Max == 1 {
				ch := string(rune(at.CS[0].Lo))
				id := st.P[0].ID
				s.subst(&mapper{str: func(i int) (VStr, bool) { return lit(ch), i == id }})
			}
		}
	case "":
		if lo, hi := s.bounds(ft.Form); lo == hi {
			c := lo
			s.subst(&mapper{in: func(i int) (VInt, bool) { return iConst(c), i == a.ID }})
		}
	}
}

// emptied records that a derived text is empty.
func (s *State) emptied(p Part) {
	if p.Fn == "drop" {
		if x, ok := p.A[0].(VStr); ok && len(x.P) == 1 && x.P[0].K == 'a' {
			if set, ok := p.A[1].(VStr).isLit(); ok {
				at := s.sat[x.P[0].ID]
				at.CS = at.CS.Inter(charSetOf(set))
				s.sat[x.P[0].ID] = at
			}
		}
	}
	key := keyOf(VStr{[]Part{p}})
	s.subst(&mapper{none: func(q Part) bool { return keyOf(VStr{[]Part{q}}) == key }})
}

// tidy leaves out the parts of a text that are known to be empty.
func (s *State) tidy(v VStr) VStr {
	var ps []VStr
	for _, p := range v.P {
		if p.K != 'l' && partAttr(s, p).Max == 0 {
			continue
		}
		ps = append(ps, VStr{[]Part{p}})
	}
	return concat(ps...)
}

// subst replaces unknowns everywhere in the state.
func (s *State) subst(m *mapper) {
	c := &tracer{st: s, rw: func(i int, v Val) Val { return m.val(v) }, keepAll: true}
	c.run()
	facts := s.facts
	s.facts = map[string]Fact{}
	for _, f := range facts {
		v := m.i(f.Form)
		if len(v.T) == 0 {
			continue
		}
		g, k, cc := normForm(v)
		nf := Fact{Form: g, Lo: -inf, Hi: inf}
		lo, hi := f.Lo, f.Hi
		if k > 0 {
			if lo > -inf {
				nf.Lo = ceilDiv(lo-cc, k)
			}
			if hi < inf {
				nf.Hi = floorDiv(hi-cc, k)
			}
		} else {
			if hi < inf {
				nf.Lo = ceilDiv(hi-cc, k)
			}
			if lo > -inf {
				nf.Hi = floorDiv(lo-cc, k)
			}
		}
		for _, n := range f.Not {
			if (n-cc)%k == 0 {
				nf.Not = append(nf.Not, (n-cc)/k)
			}
		}
		key := keyOf(g)
		if old, ok := s.facts[key]; ok {
			nf.Lo, nf.Hi, nf.Not = max(nf.Lo, old.Lo), min(nf.Hi, old.Hi), append(nf.Not, old.Not...)
		}
		s.facts[key] = nf
	}
	preds := s.preds
	s.preds = map[string]Pred{}
	for _, p := range preds {
		for i := range p.A {
			if i == 0 {
				p.A = append([]Val(nil), p.A...)
			}
			p.A[i] = m.val(p.A[i])
		}
		s.preds[predKey(p.Name, p.A)] = p
	}
}

func predKey(n string, a []Val) string { return n + keyOf(vlist{a}) }

// tracer visits everything reachable from a state in a fixed order. Texts, numbers, opaque values and lists of
// data are slots; the rest is the shape.
type tracer struct {
	st       *State
	sb       strings.Builder
	slots    []Val
	seen     map[int]int
	seenN    map[int]int
	refs     map[int]int
	rw       func(i int, v Val) Val
	keepAll  bool // visit dead variables too
	intSlots bool // constants are slots too
	newHeap  map[int]*Obj
	newNode  map[int]*Node
	masks    func(t types.Type, field int) bool
	counting bool
	spec     int
	glob     int // where the slots of globals begin
}

func (t *tracer) w(f string, a ...any) {
	if !t.counting {
		fmt.Fprintf(&t.sb, f, a...)
	}
}

func (t *tracer) n(c byte, x int) {
	if !t.counting {
		t.sb.WriteByte(c)
		t.sb.WriteString(strconv.Itoa(x))
	}
}

func (t *tracer) s(x string) {
	if !t.counting {
		t.sb.WriteString(x)
	}
}

var ssaNames = map[*ssa.Function]string{}

func ssaName(f *ssa.Function) string {
	n, ok := ssaNames[f]
	if !ok {
		n = f.String()
		ssaNames[f] = n
	}
	return n
}

var globalNames = map[*ssa.Global]string{}

func globalName(g *ssa.Global) string {
	n, ok := globalNames[g]
	if !ok {
		n = g.String()
		globalNames[g] = n
	}
	return n
}

func (t *tracer) slot(v Val) Val {
	if t.counting {
		return v
	}
	t.sb.WriteByte('#')
	t.slots = append(t.slots, v)
	if t.rw != nil {
		return t.rw(len(t.slots)-1, v)
	}
	return v
}

func (t *tracer) run() {
	if t.refs == nil && !t.keepAll {
		c := &tracer{st: t.st, counting: true, refs: map[int]int{}, seen: map[int]int{}, seenN: map[int]int{}, newHeap: map[int]*Obj{}, newNode: map[int]*Node{}}
		c.roots()
		t.refs = c.refs
	}
	t.seen, t.seenN = map[int]int{}, map[int]int{}
	t.newHeap, t.newNode = map[int]*Obj{}, map[int]*Node{}
	t.roots()
	if t.rw != nil {
		for id, o := range t.newHeap {
			t.st.heap[id] = o
		}
		for id, n := range t.newNode {
			t.st.nodes[id] = n
		}
		if !t.keepAll {
			for id := range t.st.heap {
				if _, ok := t.seen[id]; !ok {
					delete(t.st.heap, id)
				}
			}
			for id := range t.st.nodes {
				if _, ok := t.seenN[id]; !ok {
					delete(t.st.nodes, id)
				}
			}
		}
	}
}

func (t *tracer) roots() {
	s := t.st
	t.w("rec=%s;", s.rec)
	if len(s.flags) > 0 {
		var ks []string
		for k, v := range s.flags {
			ks = append(ks, fmt.Sprintf("%s=%v", k, v))
		}
		sort.Strings(ks)
		t.w("%v;", ks)
	}
	for i, v := range s.keep {
		y := t.val(v, nil)
		if t.rw != nil {
			s.keep[i] = y
		}
	}
	if t.keepAll {
		for i, v := range s.frame {
			y := t.val(v, nil)
			if t.rw != nil {
				s.frame[i] = y
			}
		}
	}
	for _, id := range s.stack {
		t.node(id)
	}
	for i, v := range s.tmp {
		y := t.val(v, nil)
		if t.rw != nil {
			s.tmp[i] = y
		}
	}
	for _, f := range s.frames {
		if !t.counting {
			t.w("\nF %s b%d pc%d:", ssaName(f.fn), blockIdx(f.block), f.pc)
		}
		lv := liveAt(f.fn, f.block, f.pc)
		for _, v := range lv.order {
			x, ok := f.env[v]
			if !ok {
				continue
			}
			if !t.keepAll && !lv.live[v] {
				if t.rw != nil {
					delete(f.env, v)
				}
				continue
			}
			t.s(v.Name())
			t.s("=")
			y := t.val(x, v.Type())
			if t.rw != nil {
				f.env[v] = y
			}
		}
		for i := range f.defs {
			d := &f.defs[i]
			t.s("defer ")
			y := t.val(d.fn, nil)
			as := make([]Val, len(d.args))
			for j := range d.args {
				as[j] = t.val(d.args[j], nil)
			}
			if t.rw != nil {
				d.fn, d.args = y, as
			}
		}
	}
	t.glob = len(t.slots)
	var gs []*ssa.Global
	for g := range s.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return globalName(gs[i]) < globalName(gs[j]) })
	for _, g := range gs {
		t.s("\nG ")
		t.s(globalName(g))
		t.s(" ")
		t.obj(s.globals[g])
	}
	t.spec = len(t.slots)
	for gi, g := range s.ghosts {
		t.w("\nghost%d:%d:", gi, g.Mode)
		for _, f := range g.F {
			t.w("(%d", f.Rule)
			var ks []string
			for k := range f.S {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				t.w(" %s=", k)
				y := t.val(f.S[k], nil)
				if t.rw != nil {
					f.S[k] = y
				}
			}
			t.s(")")
		}
		t.s("E")
		y := t.slot(vlist{g.Entries})
		if t.rw != nil {
			g.Entries = y.(vlist).E
		}
	}
}

func (t *tracer) node(id int) {
	if n, ok := t.seenN[id]; ok {
		t.w("@n%d", n)
		return
	}
	t.seenN[id] = len(t.seenN)
	n := t.st.nodes[id]
	if n == nil {
		t.s("@gone")
		return
	}
	t.w("@n%d:%d{", t.seenN[id], n.Rule)
	m := &Node{Rule: n.Rule, Exp: n.Exp}
	if n.Text != nil {
		y := t.slot(*n.Text).(VStr)
		m.Text = &y
	}
	for _, k := range n.Kids {
		t.n(',', k.Tok)
		t.n('/', k.Rule)
		if k.Text != nil {
			y := t.slot(*k.Text).(VStr)
			k.Text = &y
		}
		if k.Node != 0 {
			t.node(k.Node)
		}
		m.Kids = append(m.Kids, k)
	}
	t.s("}")
	t.newNode[id] = m
}

func (t *tracer) obj(id int) {
	if t.refs != nil && t.counting {
		t.refs[id]++
	}
	if n, ok := t.seen[id]; ok {
		t.n('@', n)
		return
	}
	t.seen[id] = len(t.seen)
	o := t.st.heap[id]
	if o == nil {
		t.s("@gone")
		return
	}
	t.n('@', t.seen[id])
	t.s(":")
	y := t.val(o.V, o.Typ)
	t.newHeap[id] = &Obj{o.Typ, y}
}

func isMailAddress(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Address" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/mail"
}

// dataElem says whether lists with this element type are abstracted as data.
func dataElem(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Pointer:
		st, ok := u.Elem().Underlying().(*types.Struct)
		return ok && dataStruct(st)
	case *types.Struct:
		return dataStruct(u)
	}
	return false
}
func dataStruct(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		b, ok := st.Field(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsString|types.IsInteger) == 0 {
			return false
		}
	}
	return st.NumFields() > 0
}

// freeze turns the elements of a data list into values; ok is false when an element is shared.
func (s *State) freeze(es []Val, refs map[int]int) ([]Val, bool) {
	var out []Val
	for _, e := range es {
		switch x := e.(type) {
		case VStr, VChunk, VSeg:
			out = append(out, x)
		case VStruct:
			out = append(out, x)
		case VPtr:
			if len(x.Path) > 0 || refs != nil && refs[x.Obj] > 1 {
				return nil, false
			}
			o := s.heap[x.Obj]
			if o == nil {
				return nil, false
			}
			st, ok := o.V.(VStruct)
			if !ok {
				return nil, false
			}
			out = append(out, st)
		default:
			return nil, false
		}
	}
	return out, true
}

func (t *tracer) val(v Val, typ types.Type) Val {
	switch x := v.(type) {
	case nil:
		t.s("-")
	case VStr, VFloat:
		return t.slot(v)
	case VInt:
		if c, ok := x.isConst(); ok && !t.keepAll && !t.intSlots {
			t.w("%d", c)
			return v
		}
		return t.slot(v)
	case VOpaque:
		return t.slot(v)
	case VBool:
		t.w("%v", bool(x))
	case VNil:
		t.s("nil")
	case VPtr:
		t.w("ptr%v", x.Path)
		t.obj(x.Obj)
	case VIface:
		t.s("<")
		t.s(typeName(x.T))
		t.s(">")
		return VIface{x.T, t.val(x.V, x.T)}
	case VFunc:
		t.s("fn ")
		t.s(ssaName(x.Fn))
		b := make([]Val, len(x.Bind))
		for i, y := range x.Bind {
			b[i] = t.val(y, nil)
		}
		return VFunc{x.Fn, b}
	case VUser:
		t.w("user %s", x.Name)
	case VSlice:
		return t.slice(x, typ)
	case VStruct:
		t.s("{")
		out := make([]Val, len(x.F))
		var st *types.Struct
		if typ != nil {
			st, _ = typ.Underlying().(*types.Struct)
		}
		for i, y := range x.F {
			var ft types.Type
			if st != nil && i < st.NumFields() {
				ft = st.Field(i).Type()
			}
			out[i] = t.val(y, ft)
			t.s(";")
		}
		t.s("}")
		return VStruct{out}
	case VArr:
		t.s("[")
		var out []Val
		for _, y := range x.E {
			z := t.val(y, nil)
			t.s(";")
			if _, ok := y.(VChunk); ok && t.rw != nil {
				es := []Val{z}
				if l, ok := z.(vlist); ok {
					es = l.E
				}
				out = append(out, t.unfrozen(es, typ)...)
				continue
			}
			out = append(out, z)
		}
		t.s("]")
		return VArr{out}
	case VTuple:
		t.s("(")
		out := make(VTuple, len(x))
		for i, y := range x {
			out[i] = t.val(y, nil)
			t.s(";")
		}
		t.s(")")
		return out
	case VMap:
		t.s("map")
		t.obj(x.Obj)
	case *mapObj:
		m := &mapObj{}
		for i := range x.K {
			m.K = append(m.K, t.val(x.K[i], nil))
			t.s(":")
			m.V = append(m.V, t.val(x.V[i], nil))
			t.s(";")
		}
		return m
	case VNode:
		t.s("node")
		t.node(x.ID)
	case VTok:
		t.w("tok%d", x.Idx)
		t.node(x.Node)
	case VSym:
		t.w("sym%d", x.Idx)
		t.node(x.Node)
	case VExt:
		t.s("ext")
		t.obj(x.Obj)
	case *extObj:
		t.w("%s", x.Kind)
		m := &extObj{Kind: x.Kind}
		for _, y := range x.L {
			m.L = append(m.L, t.val(y, nil))
		}
		for _, y := range x.A {
			m.A = append(m.A, t.val(y, nil))
		}
		return m
	case VTime:
		t.s("time")
		for i := range x.F {
			x.F[i] = t.slot(x.F[i]).(VInt)
		}
		x.Loc = t.val(x.Loc, nil)
		return x
	case VLoc:
		t.s("loc")
		return VLoc{t.slot(x.Name).(VStr), t.slot(x.Off).(VInt)}
	case VBuild:
		t.s("build")
		return VBuild{t.slot(x.S).(VStr)}
	case VGap:
		t.s("gap")
		return VGap{t.slot(x.N).(VInt)}
	case VChunk, VSeg:
		t.s("chunk")
		return t.slot(x)
	case vlist:
		return t.slot(x)
	case VIter:
		t.s("iter")
		out := VIter{Obj: x.Obj}
		for _, y := range x.Items {
			out.Items = append(out.Items, t.val(y, nil))
		}
		if x.Obj != 0 {
			t.obj(x.Obj)
		}
		return out
	case VRepl:
		t.w("repl%q", x.Pairs)
	default:
		t.w("%T%v", v, v)
	}
	return v
}

var typeNames = map[types.Type]string{}

func typeName(t types.Type) string {
	n, ok := typeNames[t]
	if !ok {
		n = typeName0(t)
		typeNames[t] = n
	}
	return n
}

func typeName0(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *tracer) slice(x VSlice, typ types.Type) Val {
	var et types.Type
	if typ != nil {
		if st, ok := typ.Underlying().(*types.Slice); ok {
			et = st.Elem()
		}
	}
	o := t.st.heap[x.Obj]
	if t.counting {
		t.obj(x.Obj)
		return x
	}
	if o != nil && et == nil {
		if st, ok := o.Typ.(*types.Slice); ok {
			et = st.Elem()
		}
	}
	if o != nil && dataElem(et) && !t.keepAll && t.refs[x.Obj] == 1 {
		if es, ok := t.st.window(x); ok {
			if fz, ok := t.st.freeze(es, t.refs); ok {
				t.s("L")
				y := t.slot(vlist{fz})
				if t.rw == nil {
					return x
				}
				return t.thaw(y.(vlist).E, et)
			}
		}
	}
	if o != nil && !t.keepAll && t.refs[x.Obj] == 1 {
		// elements outside the window of the only slice are out of reach
		if es, ok := t.st.window(x); ok {
			t.s("W")
			y := t.val(VArr{es}, nil).(VArr)
			if t.rw == nil {
				return x
			}
			t.seen[x.Obj] = -1
			t.newHeap[x.Obj] = &Obj{o.Typ, y}
			return VSlice{x.Obj, VInt{}, listLen(y.E)}
		}
	}
	t.s("slice[")
	lo, ln := t.val(x.Lo, nil), t.val(x.Len, nil)
	t.s("]")
	t.obj(x.Obj)
	return VSlice{x.Obj, lo.(VInt), ln.(VInt)}
}

// unfrozen puts the frozen elements of a list of pointers back into the heap.
func (t *tracer) unfrozen(es []Val, typ types.Type) []Val {
	sl, ok := typ.(*types.Slice)
	if !ok {
		return es
	}
	ptr, ok := sl.Elem().Underlying().(*types.Pointer)
	if !ok {
		return es
	}
	var out []Val
	for _, e := range es {
		if st, ok := e.(VStruct); ok {
			id := t.st.id()
			t.newHeap[id] = &Obj{ptr.Elem(), st}
			t.seen[id] = -1
			e = VPtr{Obj: id}
		}
		out = append(out, e)
	}
	return out
}

// thaw builds a list from frozen elements.
func (t *tracer) thaw(es []Val, et types.Type) VSlice {
	s := t.st
	var out []Val
	ptr, isPtr := et.Underlying().(*types.Pointer)
	for _, e := range es {
		if st, ok := e.(VStruct); ok && isPtr {
			id := s.id()
			t.newHeap[id] = &Obj{ptr.Elem(), st}
			t.seen[id] = -1
			out = append(out, VPtr{Obj: id})
			continue
		}
		out = append(out, e)
	}
	id := s.id()
	t.newHeap[id] = &Obj{types.NewSlice(et), VArr{out}}
	t.seen[id] = -1
	return VSlice{id, VInt{}, listLen(out)}
}

func listLen(es []Val) VInt {
	n := VInt{}
	for _, e := range es {
		if c, ok := e.(VChunk); ok {
			n = n.add(iFn("count", c), 1)
		} else if g, ok := e.(VGap); ok {
			n = n.add(g.N, 1)
		} else {
			n.C++
		}
	}
	return n
}

// window returns the elements a slice covers.
func (s *State) window(x VSlice) ([]Val, bool) {
	o := s.heap[x.Obj]
	if o == nil {
		return nil, false
	}
	arr, ok := o.V.(VArr)
	if !ok {
		return nil, false
	}
	i, ok := s.elemPos(arr.E, x.Lo)
	if !ok {
		return nil, false
	}
	j, ok := s.elemPos(arr.E, x.Lo.add(x.Len, 1))
	if !ok || j < i {
		return nil, false
	}
	for _, e := range arr.E[i:j] {
		if _, ok := e.(VGap); ok {
			return nil, false
		}
	}
	return arr.E[i:j], true
}

// elemPos finds the element index at which the given offset falls.
func (s *State) elemPos(es []Val, off VInt) (int, bool) {
	p := VInt{}
	for i := 0; ; i++ {
		d := p.add(off, -1)
		if c, ok := d.isConst(); ok && c == 0 {
			return i, true
		}
		if i == len(es) {
			return 0, false
		}
		p = p.add(listLen(es[i:i+1]), 1)
	}
}

func blockIdx(b *ssa.BasicBlock) int {
	if b == nil {
		return -1
	}
	return b.Index
}

// Liveness of SSA values, to keep dead variables out of states.
type liveInfo struct {
	order []ssa.Value
	live  map[ssa.Value]bool
}
type fnLive struct {
	order []ssa.Value
	out   []map[ssa.Value]bool
	at    map[[2]int]*liveInfo
}

var liveCache = map[*ssa.Function]*fnLive{}

func liveAt(fn *ssa.Function, b *ssa.BasicBlock, pc int) *liveInfo {
	fl := liveCache[fn]
	if fl == nil {
		fl = &fnLive{at: map[[2]int]*liveInfo{}}
		liveCache[fn] = fl
		for _, p := range fn.Params {
			fl.order = append(fl.order, p)
		}
		for _, p := range fn.FreeVars {
			fl.order = append(fl.order, p)
		}
		for _, bb := range fn.Blocks {
			for _, in := range bb.Instrs {
				if v, ok := in.(ssa.Value); ok {
					fl.order = append(fl.order, v)
				}
			}
		}
		n := len(fn.Blocks)
		fl.out = make([]map[ssa.Value]bool, n)
		for i := range fl.out {
			fl.out[i] = map[ssa.Value]bool{}
		}
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				bb := fn.Blocks[i]
				for _, su := range bb.Succs {
					in := liveIn(su, fl.out[su.Index], 0)
					// phi operands along this edge
					for _, ins := range su.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						for j, pr := range su.Preds {
							if pr == bb {
								if track(ph.Edges[j]) && !fl.out[i][ph.Edges[j]] {
									fl.out[i][ph.Edges[j]] = true
									changed = true
								}
							}
						}
					}
					for v := range in {
						if !fl.out[i][v] {
							fl.out[i][v] = true
							changed = true
						}
					}
				}
			}
		}
	}
	if b == nil {
		return &liveInfo{order: fl.order, live: map[ssa.Value]bool{}}
	}
	k := [2]int{b.Index, pc}
	if li := fl.at[k]; li != nil {
		return li
	}
	li := &liveInfo{order: fl.order, live: liveIn(b, fl.out[b.Index], pc)}
	fl.at[k] = li
	return li
}

func track(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	}
	_, ok := v.(ssa.Instruction)
	return ok
}

// liveIn is the set live before instruction pc of b.
func liveIn(b *ssa.BasicBlock, out map[ssa.Value]bool, pc int) map[ssa.Value]bool {
	l := map[ssa.Value]bool{}
	for v := range out {
		l[v] = true
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(l, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && track(*op) {
				l[*op] = true
			}
		}
	}
	return l
}
