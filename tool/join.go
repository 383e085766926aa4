package main

import (
	"fmt"
	"sort"
	"strings"
)

// canonState is the shape of a state and its slots.
type canonState struct {
	shape  string
	slots  []Val
	detail string
	ids    []int       // unknowns in order of first occurrence
	num    map[int]int // unknown -> position
	spec   int         // slots from here on belong to the specification
}

func canon(s *State, intSlots bool) *canonState {
	t := &tracer{st: s, intSlots: intSlots}
	t.run()
	c := &canonState{shape: t.sb.String(), slots: t.slots, num: map[int]int{}, spec: t.spec}
	num := func(id int) int {
		n, ok := c.num[id]
		if !ok {
			n = len(c.ids)
			c.num[id] = n
			c.ids = append(c.ids, id)
		}
		return n
	}
	var sb strings.Builder
	for _, v := range c.slots {
		writeKey(&sb, v, num)
		sb.WriteByte(';')
	}
	c.detail = sb.String()
	return c
}

// gc forgets attributes and facts about unknowns that no longer occur.
func (s *State) gc(c *canonState) {
	used := func(v Val) bool {
		ok := true
		unknowns(v, func(id int) {
			if _, in := c.num[id]; !in {
				ok = false
			}
		})
		return ok
	}
	for id := range s.sat {
		if _, ok := c.num[id]; !ok {
			delete(s.sat, id)
		}
	}
	for id := range s.iat {
		if _, ok := c.num[id]; !ok {
			delete(s.iat, id)
		}
	}
	for id := range s.lat {
		if _, ok := c.num[id]; !ok {
			delete(s.lat, id)
		}
	}
	for k, f := range s.facts {
		if !used(f.Form) {
			delete(s.facts, k)
		}
	}
	for k, p := range s.preds {
		if !used(vlist{p.A}) {
			delete(s.preds, k)
		}
	}
}

// normalise drops what is unreachable.
func normalise(s *State) {
	t := &tracer{st: s, rw: func(i int, v Val) Val { return v }}
	t.run()
}

// StateSet is a set of abstract states, merged when they differ only in the names of unknowns.
type StateSet struct {
	byKey map[string]*member
	order []*member
}

type member struct {
	st    *State
	c     *canonState
	dirty bool
	dead  bool
}

func newStateSet() *StateSet { return &StateSet{byKey: map[string]*member{}} }

func (ss *StateSet) states() []*State {
	var out []*State
	for _, m := range ss.order {
		if !m.dead {
			out = append(out, m.st)
		}
	}
	return out
}
func (ss *StateSet) size() int {
	n := 0
	for _, m := range ss.order {
		if !m.dead {
			n++
		}
	}
	return n
}

// add merges a state into the set; it reports whether the set grew or weakened.
func (ss *StateSet) add(s *State) bool {
	normalise(s)
	c := canon(s, false)
	s.gc(c)
	key := c.shape + "\x00" + c.detail
	if m, ok := ss.byKey[key]; ok {
		if weaken(m.st, m.c, s, c) {
			m.dirty = true
			return true
		}
		return false
	}
	m := &member{st: s, c: c, dirty: true}
	ss.byKey[key] = m
	ss.order = append(ss.order, m)
	return true
}

// weaken unites the attributes and intersects the facts of two isomorphic states, into a.
func weaken(a *State, ca *canonState, b *State, cb *canonState) bool {
	changed := false
	toB := map[int]int{}
	for i, id := range ca.ids {
		toB[id] = cb.ids[i]
	}
	for id, at := range a.sat {
		if bt, ok := b.sat[toB[id]]; ok {
			u := at.union(bt)
			if !u.equal(at) {
				a.sat[id] = u
				changed = true
			}
		}
	}
	for id, r := range a.iat {
		if q, ok := b.iat[toB[id]]; ok {
			u := IRange{min(r.Lo, q.Lo), max(r.Hi, q.Hi)}
			if u != r {
				a.iat[id] = u
				changed = true
			}
		}
	}
	for id, l := range a.lat {
		if q, ok := b.lat[toB[id]]; ok {
			u := joinL(l, q)
			if !eqL(u, l) {
				a.lat[id] = u
				changed = true
			}
		}
	}
	m := renamer(toB)
	for k, f := range a.facts {
		g, ok := b.facts[keyOf(m.i(f.Form))]
		if !ok {
			lo, hi := b.bounds(m.i(f.Form))
			g = Fact{Form: f.Form, Lo: lo, Hi: hi}
		}
		n := Fact{Form: f.Form, Lo: min(f.Lo, g.Lo), Hi: max(f.Hi, g.Hi)}
		for _, x := range f.Not {
			if b.excluded(m.i(f.Form), x) {
				n.Not = append(n.Not, x)
			}
		}
		if n.Lo == f.Lo && n.Hi == f.Hi && len(n.Not) == len(f.Not) {
			continue
		}
		changed = true
		if n.Lo <= -inf && n.Hi >= inf && len(n.Not) == 0 {
			delete(a.facts, k)
		} else {
			a.facts[k] = n
		}
	}
	for k, p := range a.preds {
		q, ok := b.preds[predKey(p.Name, m.list(p.A))]
		if !ok || q.Ans != p.Ans {
			delete(a.preds, k)
			changed = true
		}
	}
	return changed
}

func joinL(a, b LAttr) LAttr {
	out := LAttr{Min: min(a.Min, b.Min)}
	if len(a.El) == len(b.El) {
		for i := range a.El {
			out.El = append(out.El, a.El[i].union(b.El[i]))
		}
	}
	return out
}
func eqL(a, b LAttr) bool {
	if a.Min != b.Min || len(a.El) != len(b.El) {
		return false
	}
	for i := range a.El {
		if !a.El[i].equal(b.El[i]) {
			return false
		}
	}
	return true
}

func renamer(to map[int]int) *mapper {
	return &mapper{
		str: func(id int) (VStr, bool) { n, ok := to[id]; return sAtom(n), ok },
		in:  func(id int) (VInt, bool) { n, ok := to[id]; return iAtom(n), ok },
		opq: func(id int) (Val, bool) { n, ok := to[id]; return VOpaque{ID: n}, ok },
		chk: func(id int) ([]Val, bool) { n, ok := to[id]; return []Val{VChunk{n}}, ok },
	}
}

// listAttr describes the elements of a frozen list.
func (s *State) listAttr(es []Val) LAttr {
	var out LAttr
	first := true
	for _, e := range es {
		var a LAttr
		switch x := e.(type) {
		case VChunk:
			a = s.lat[x.ID]
		case VSeg:
			a = s.lat[x.ID]
			a.Min = 1
		case VStr:
			a = LAttr{Min: 1, El: []SAttr{s.attr(x)}}
		case VStruct:
			a.Min = 1
			for _, f := range x.F {
				if y, ok := f.(VStr); ok {
					a.El = append(a.El, s.attr(y))
				}
			}
		}
		if first {
			out = a
			first = false
			continue
		}
		n := out.Min + a.Min
		out = joinL(out, a)
		out.Min = n
	}
	return out
}

// joinPlan says, slot by slot, what two states have in common.
type joinPlan struct {
	toB, toA map[int]int
	match    []bool
	pre      []int    // lists: length of the common prefix
	key      []string // of the differing parts
}

func planJoin(ca, cb *canonState) *joinPlan {
	p := &joinPlan{toB: map[int]int{}, toA: map[int]int{}, match: make([]bool, len(ca.slots)), pre: make([]int, len(ca.slots)), key: make([]string, len(ca.slots))}
	for i := range ca.slots {
		x, y := ca.slots[i], cb.slots[i]
		if tryMatch(x, y, p.toB, p.toA) {
			p.match[i] = true
			continue
		}
		if lx, ok := x.(vlist); ok {
			if ly, ok := y.(vlist); ok {
				n := 0
				for n < len(lx.E) && n < len(ly.E) && tryMatch(lx.E[n], ly.E[n], p.toB, p.toA) {
					n++
				}
				// a list that only grew: let its last chunk grow
				if n > 0 && (n == len(lx.E) || n == len(ly.E)) {
					if _, ok := lx.E[n-1].(VChunk); ok {
						n--
					}
				}
				p.pre[i] = n
				x, y = vlist{lx.E[n:]}, vlist{ly.E[n:]}
			}
		}
		p.key[i] = keyOf(x) + "\x00" + keyOf(y)
	}
	return p
}

// losslessJoin says that joining keeps the specification tied to the program: what it forgets in the
// specification's slots stays expressed by a slot of the program.
func losslessJoin(a, b *State, ca, cb *canonState) bool {
	p := planJoin(ca, cb)
	lost := [2]map[int]bool{{}, {}}
	prog := map[string]bool{}
	for i := 0; i < ca.spec; i++ {
		if !p.match[i] {
			prog[p.key[i]] = true
		}
	}
	for i := ca.spec; i < len(ca.slots); i++ {
		if !p.match[i] && !prog[p.key[i]] {
			return false
		}
	}
	// an unknown that lives on in what stays must not lose its relation to what is forgotten
	kept := [2]map[int]bool{{}, {}}
	for i := range ca.slots {
		for k, v := range []Val{ca.slots[i], cb.slots[i]} {
			if p.match[i] {
				unknowns(v, func(id int) { kept[k][id] = true })
			} else if l, ok := v.(vlist); ok {
				unknowns(vlist{l.E[:p.pre[i]]}, func(id int) { kept[k][id] = true })
			}
		}
	}
	ok := true
	for i := range ca.slots {
		if p.match[i] {
			continue
		}
		for k, v := range []Val{ca.slots[i], cb.slots[i]} {
			if l, isL := v.(vlist); isL {
				v = vlist{l.E[p.pre[i]:]}
			}
			unknowns(v, func(id int) {
				ok = ok && !kept[k][id]
				lost[k][id] = true
			})
		}
	}
	// nor may a relation between unknowns
	for k, s := range []*State{a, b} {
		for _, f := range s.facts {
			n, hit := 0, false
			unknowns(f.Form, func(id int) {
				n++
				hit = hit || lost[k][id]
			})
			ok = ok && (n < 2 || !hit)
		}
	}
	return ok
}

// generalise computes the least general state that covers two states of the same shape (anti-unification of
// their slots: equal pairs of values stay equal).
func generalise(a *State, ca *canonState, b *State, cb *canonState, intSlots, widen bool) *State {
	plan := planJoin(ca, cb)
	toB, match := plan.toB, plan.match
	r := a.clone()
	made := map[string]Val{}
	t := &tracer{st: r, intSlots: intSlots}
	t.rw = func(i int, v Val) Val {
		x, y := ca.slots[i], cb.slots[i]
		if match[i] {
			return v
		}
		k := plan.key[i]
		wrap := func(n Val) Val {
			if l, ok := x.(vlist); ok && plan.pre[i] > 0 {
				return vlist{append(append([]Val(nil), l.E[:plan.pre[i]]...), n.(vlist).E...)}
			}
			return n
		}
		if n, ok := made[k]; ok {
			return wrap(n)
		}
		var n Val
		switch p := x.(type) {
		case VStr:
			if q, ok := y.(VStr); ok {
				pa, qa := a.attr(p), b.attr(q)
				u := pa.union(qa)
				if pa.Max != qa.Max {
					u.Max = inf
				}
				n = r.newStr(u)
			}
		case VInt:
			if q, ok := y.(VInt); ok {
				l1, h1 := a.bounds(p)
				l2, h2 := b.bounds(q)
				lo, hi := min(l1, l2), max(h1, h2)
				if widen && l1 != l2 {
					lo = -inf
				}
				if widen && h1 != h2 {
					hi = inf
				}
				n = r.newInt(lo, hi)
			}
		case vlist:
			if q, ok := y.(vlist); ok {
				pe, qe := p.E[plan.pre[i]:], q.E[plan.pre[i]:]
				la, lb := a.listAttr(pe), b.listAttr(qe)
				var j LAttr
				switch {
				case len(pe) == 0:
					j = lb
					j.Min = 0
				case len(qe) == 0:
					j = la
					j.Min = 0
				default:
					j = joinL(la, lb)
				}
				id := r.id()
				r.lat[id] = j
				n = vlist{[]Val{VChunk{id}}}
			}
		}
		if n == nil {
			if _, ok := x.(vlist); ok {
				n = vlist{[]Val{r.opaque("join")}}
			} else {
				n = r.opaque("join")
			}
		}
		made[k] = n
		return wrap(n)
	}
	t.run()
	// attributes and facts of the kept unknowns
	inv := map[int]bool{}
	for id := range toB {
		inv[id] = true
	}
	for id, at := range a.sat {
		if inv[id] {
			if bt, ok := b.sat[toB[id]]; ok {
				r.sat[id] = at.union(bt)
			}
		}
	}
	for id, ra := range a.iat {
		if inv[id] {
			if q, ok := b.iat[toB[id]]; ok {
				r.iat[id] = IRange{min(ra.Lo, q.Lo), max(ra.Hi, q.Hi)}
			}
		}
	}
	for id, la := range a.lat {
		if inv[id] {
			if q, ok := b.lat[toB[id]]; ok {
				r.lat[id] = joinL(la, q)
			}
		}
	}
	m := renamer(toB)
	r.facts, r.preds = map[string]Fact{}, map[string]Pred{}
	known := func(v Val) bool {
		ok := true
		unknowns(v, func(id int) { ok = ok && inv[id] })
		return ok
	}
	for k, f := range a.facts {
		if !known(f.Form) {
			continue
		}
		lo, hi := b.bounds(m.i(f.Form))
		n := Fact{Form: f.Form, Lo: min(f.Lo, lo), Hi: max(f.Hi, hi)}
		if f.Lo <= -inf {
			n.Lo = -inf
		}
		if f.Hi >= inf {
			n.Hi = inf
		}
		for _, x := range f.Not {
			if b.excluded(m.i(f.Form), x) {
				n.Not = append(n.Not, x)
			}
		}
		if n.Lo > -inf || n.Hi < inf || len(n.Not) > 0 {
			r.facts[k] = n
		}
	}
	for k, p := range a.preds {
		if known(vlist{p.A}) {
			if q, ok := b.preds[predKey(p.Name, m.list(p.A))]; ok && q.Ans == p.Ans {
				r.preds[k] = p
			}
		}
	}
	c := canon(r, false)
	r.gc(c)
	return r
}

// tryMatch extends the bijection between unknowns so that x maps to y; it leaves it alone when that fails.
func tryMatch(x, y Val, toB, toA map[int]int) bool {
	var xs, ys []int
	n1 := map[int]int{}
	f := func(n map[int]int, l *[]int) numFn {
		return func(id int) int {
			i, ok := n[id]
			if !ok {
				i = len(*l)
				n[id] = i
				*l = append(*l, id)
			}
			return i
		}
	}
	var a, b strings.Builder
	writeKey(&a, x, f(n1, &xs))
	writeKey(&b, y, f(map[int]int{}, &ys))
	if a.String() != b.String() {
		return false
	}
	for i := range xs {
		if v, ok := toB[xs[i]]; ok && v != ys[i] {
			return false
		}
		if v, ok := toA[ys[i]]; ok && v != xs[i] {
			return false
		}
	}
	for i := range xs {
		toB[xs[i]] = ys[i]
		toA[ys[i]] = xs[i]
	}
	return true
}

// addLoop adds a state at a loop head: states of the same shape are generalised into one.
func (ss *StateSet) addLoop(s *State, round int) bool {
	normalise(s)
	intSlots := round > 6
	c := canon(s, false)
	s.gc(c)
	key := c.shape + "\x00" + c.detail
	if m, ok := ss.byKey[key]; ok && !m.dead {
		if weaken(m.st, m.c, s, c) {
			m.dirty = true
			return true
		}
		return false
	}
	if intSlots {
		c = canon(s, true)
	}
	for _, m := range ss.order {
		if m.dead {
			continue
		}
		mc := m.c
		if intSlots {
			mc = canon(m.st, true)
		}
		if mc.shape != c.shape {
			continue
		}
		g := generalise(m.st, mc, s, c, intSlots, round > 3)
		gc := canon(g, false)
		if gc.shape == m.c.shape && gc.detail == m.c.detail {
			// nothing lost but attributes
			if weaken(m.st, m.c, g, gc) {
				m.dirty = true
				return true
			}
			return false
		}
		m.dead = true
		delete(ss.byKey, m.c.shape+"\x00"+m.c.detail)
		return ss.addLoopMerged(g, gc, round)
	}
	c = canon(s, false)
	m := &member{st: s, c: c, dirty: true}
	ss.byKey[key] = m
	ss.order = append(ss.order, m)
	return true
}

func (ss *StateSet) addLoopMerged(g *State, gc *canonState, round int) bool {
	if round > 60 {
		panic(undecided{fmt.Sprintf("a grammar loop does not stabilise; shape %.300s", gc.shape)})
	}
	ss.addLoop(g, round+1)
	return true
}

type undecided struct{ why string }

func (u undecided) String() string { return u.why }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
