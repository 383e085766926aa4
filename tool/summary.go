package main

import (
	"fmt"
	"sort"
	"strings"
)

// Summaries: the subtree of a rule is analysed once for every situation up to the values of what was computed
// outside it. Those values are replaced by unknowns (equal values by equal ones) and put back afterwards.

type summary struct {
	x    []Val // the unknowns, in order
	outs []*State
}

// abstracted is a state with its values set apart.
type abstracted struct {
	key    string
	slots  []Val // the slots with unknowns in the place of values
	actual []Val // what each unknown stands for
	x      []Val
	c      *canonState
	attrs  []SAttr
}

func (in *Interp) abstractState(st *State) *abstracted {
	t := &tracer{st: st}
	t.run()
	g := &abstracted{slots: make([]Val, len(t.slots))}
	byKey := map[string]Val{}
	num := map[int]int{}
	// placeholders are negative identities, numbered in order of first occurrence
	fresh := func(actual Val, mk func(id int) Val) Val {
		id := -(len(g.x) + 1)
		v := mk(id)
		g.x = append(g.x, v)
		g.actual = append(g.actual, actual)
		return v
	}
	scalar := func(v Val, mk func(id int) Val) Val {
		k := keyOf(v)
		if o, ok := byKey[k]; ok {
			return o
		}
		n := fresh(v, mk)
		byKey[k] = n
		return n
	}
	// lists, short ones first
	type lst struct {
		keys []string
		v    vlist
		out  []Val
	}
	var lists []*lst
	listOf := map[string]*lst{}
	elKeys := func(l vlist) []string {
		ks := make([]string, len(l.E))
		for i, e := range l.E {
			ks[i] = keyOf(e)
		}
		return ks
	}
	table := func(i int, l vlist) bool { return i >= t.glob && i < t.spec && allConst(l.E) }
	for i, v := range t.slots {
		if l, ok := v.(vlist); ok && len(l.E) > 0 && !table(i, l) {
			k := keyOf(l)
			if listOf[k] == nil {
				x := &lst{keys: elKeys(l), v: l}
				listOf[k] = x
				lists = append(lists, x)
			}
		}
	}
	sort.SliceStable(lists, func(i, j int) bool { return len(lists[i].keys) < len(lists[j].keys) })
	var known []*lst
	newChunk := func(es []Val, ks []string) Val {
		k := "L" + strings.Join(ks, "\x01")
		if o, ok := byKey[k]; ok {
			return o
		}
		n := fresh(vlist{es}, func(id int) Val { return VChunk{id} })
		byKey[k] = n
		known = append(known, &lst{keys: ks, v: vlist{es}, out: []Val{n}})
		return n
	}
	for _, l := range lists {
		var run []int
		flush := func() {
			if len(run) > 0 {
				a, b := run[0], run[len(run)-1]+1
				l.out = append(l.out, newChunk(l.v.E[a:b], l.keys[a:b]))
				run = nil
			}
		}
		for i := 0; i < len(l.keys); {
			var best *lst
			for _, k := range known {
				if len(k.keys) <= len(l.keys)-i && (best == nil || len(k.keys) > len(best.keys)) {
					eq := true
					for j := range k.keys {
						if k.keys[j] != l.keys[i+j] {
							eq = false
							break
						}
					}
					if eq {
						best = k
					}
				}
			}
			if best != nil {
				flush()
				l.out = append(l.out, best.out...)
				i += len(best.keys)
				continue
			}
			run = append(run, i)
			i++
		}
		flush()
	}
	for i, v := range t.slots {
		switch x := v.(type) {
		case VStr:
			// texts the program has written itself may be told apart by it
			if l, ok := x.isLit(); ok && (l != "" || i >= t.glob && i < t.spec) {
				g.slots[i] = x
			} else {
				g.slots[i] = scalar(x, func(id int) Val { return sAtom(id) })
			}
		case VInt:
			if _, ok := x.isConst(); ok {
				g.slots[i] = x
			} else {
				g.slots[i] = scalar(x, func(id int) Val { return iAtom(id) })
			}
		case VOpaque:
			g.slots[i] = scalar(x, func(id int) Val { return VOpaque{ID: id, Why: x.Why} })
		case vlist:
			if len(x.E) == 0 || table(i, x) {
				g.slots[i] = x
			} else {
				g.slots[i] = vlist{listOf[keyOf(x)].out}
			}
		default:
			return nil
		}
	}
	var sb strings.Builder
	sb.WriteString(t.sb.String())
	nf := func(id int) int {
		n, ok := num[id]
		if !ok {
			n = len(num)
			num[id] = n
		}
		return n
	}
	// number by order of appearance in the slots, so that the order of creation does not matter
	for _, v := range g.slots {
		writeKey(&sb, v, nf)
		sb.WriteByte(';')
	}
	order := make([]int, len(g.x))
	for i := range g.x {
		order[i] = i
	}
	sort.Slice(order, func(a, b int) bool { return nf(-(order[a] + 1)) < nf(-(order[b] + 1)) })
	x, act := make([]Val, len(order)), make([]Val, len(order))
	for i, o := range order {
		x[i], act[i] = g.x[o], g.actual[o]
	}
	g.x, g.actual = x, act
	if in.conf.attrs {
		for i := range g.actual {
			a := SAttr{CS: allChars, Max: inf}
			switch v := g.actual[i].(type) {
			case VStr:
				a = st.attr(v)
			case vlist:
				la := st.listAttr(v.E)
				fmt.Fprintf(&sb, "|%v", la)
			}
			a.Min, a.Max = min(a.Min, 1), inf
			g.attrs = append(g.attrs, a)
			fmt.Fprintf(&sb, "|%v", a)
		}
	}
	g.key = sb.String()
	return g
}

// build makes the state in which the unknowns stand for the values.
func (g *abstracted) build(st *State) *State {
	s := st.clone()
	m := map[int]int{}
	for i, v := range g.x {
		id := s.id()
		m[idOf(v)] = id
		switch w := g.actual[i].(type) {
		case VStr:
			a := SAttr{CS: allChars, Max: inf}
			if g.attrs != nil {
				a = g.attrs[i]
			}
			s.sat[id] = a
			s.frame = append(s.frame, sAtom(id))
		case VInt:
			s.iat[id] = IRange{-inf, inf}
			s.frame = append(s.frame, iAtom(id))
		case VOpaque:
			s.frame = append(s.frame, VOpaque{id, w.Why})
		case vlist:
			la := LAttr{Min: 1}
			if g.attrs != nil {
				la = st.listAttr(w.E)
				la.Min = 1
			}
			s.lat[id] = la
			s.frame = append(s.frame, vlist{[]Val{VChunk{id}}})
		}
	}
	s.frame = s.frame[len(st.frame):]
	rn := &mapper{
		str: func(id int) (VStr, bool) { n, ok := m[id]; return sAtom(n), ok },
		in:  func(id int) (VInt, bool) { n, ok := m[id]; return iAtom(n), ok },
		opq: func(id int) (Val, bool) { n, ok := m[id]; return VOpaque{ID: n}, ok },
		chk: func(id int) ([]Val, bool) { n, ok := m[id]; return []Val{VChunk{n}}, ok },
	}
	s.facts, s.preds = map[string]Fact{}, map[string]Pred{}
	t := &tracer{st: s}
	t.rw = func(i int, v Val) Val { return rn.val(g.slots[i]) }
	t.run()
	return s
}

func idOf(v Val) int {
	switch x := v.(type) {
	case VStr:
		return x.P[0].ID
	case VInt:
		return x.T[0].A.ID
	case VOpaque:
		return x.ID
	case VChunk:
		return x.ID
	case vlist:
		return idOf(x.E[0])
	}
	return 0
}

// instantiate puts the values of st back into a result of a summary. It returns nil for a result that cannot
// occur with these values, and false if the summary cannot be used.
func (in *Interp) instantiate(st *State, g *abstracted, sum *summary, out *State) (*State, bool) {
	o := out.clone()
	val := map[int]Val{}
	type con struct{ pat, act Val }
	var cons []con
	for i, x := range sum.x {
		val[idOf(x)] = g.actual[i]
		if keyOf(out.frame[i]) != keyOf(x) {
			cons = append(cons, con{out.frame[i], g.actual[i]})
		}
	}
	fresh := map[int]int{}
	o.sat, o.iat, o.lat = cpMap(st.sat), cpMap(st.iat), cpMap(st.lat)
	rename := func(id int) int {
		if id < 0 {
			return id
		}
		n, ok := fresh[id]
		if !ok {
			n = o.id()
			fresh[id] = n
			if a, ok := out.sat[id]; ok {
				o.sat[n] = a
			}
			if a, ok := out.iat[id]; ok {
				o.iat[n] = a
			}
			if a, ok := out.lat[id]; ok {
				o.lat[n] = a
			}
		}
		return n
	}
	m := &mapper{
		str: func(id int) (VStr, bool) {
			if v, ok := val[id].(VStr); ok {
				return v, true
			}
			return sAtom(rename(id)), true
		},
		in: func(id int) (VInt, bool) {
			if v, ok := val[id].(VInt); ok {
				return v, true
			}
			return iAtom(rename(id)), true
		},
		opq: func(id int) (Val, bool) {
			if v, ok := val[id].(VOpaque); ok {
				return v, true
			}
			return VOpaque{ID: rename(id)}, true
		},
		chk: func(id int) ([]Val, bool) {
			if v, ok := val[id].(vlist); ok {
				return v.E, true
			}
			return []Val{VChunk{rename(id)}}, true
		},
	}
	o.frame = nil
	t := &tracer{st: o, rw: func(i int, v Val) Val { return m.val(v) }, keepAll: true}
	t.run()
	o.frame = append([]Val(nil), st.frame...)
	o.trail = st.trail[:len(st.trail):len(st.trail)]
	o.facts, o.preds = cpMap(st.facts), cpMap(st.preds)
	for _, c := range cons {
		pat := m.val(c.pat)
		ok := false
		switch a := c.act.(type) {
		case VStr:
			p, isS := pat.(VStr)
			if !isS {
				return nil, false
			}
			if keyOf(p) == keyOf(a) {
				continue
			}
			if l, isL := p.isLit(); isL {
				if al, isL := a.isLit(); isL {
					if al != l {
						return nil, true
					}
					continue
				}
				if l == "" {
					if !o.restrict(applyIFn("len", []Val{a}), 0, 0) {
						return nil, true
					}
					ok = true
				}
			}
		case VInt:
			p, isI := pat.(VInt)
			if !isI {
				return nil, false
			}
			if !o.restrict(a.add(p, -1), 0, 0) {
				return nil, true
			}
			ok = true
		case vlist:
			p, isL := pat.(vlist)
			if isL && len(p.E) == 0 {
				if !o.restrict(listLen(a.E), 0, 0) {
					return nil, true
				}
				ok = true
			}
		}
		if !ok {
			return nil, false
		}
	}
	var fs []Fact
	for _, k := range sortedKeys(out.facts) {
		fs = append(fs, out.facts[k])
	}
	for _, f := range fs {
		v := m.i(f.Form)
		if c, ok := v.isConst(); ok {
			if c < f.Lo || c > f.Hi {
				return nil, true
			}
			for _, n := range f.Not {
				if c == n {
					return nil, true
				}
			}
			continue
		}
		if f.Lo > -inf || f.Hi < inf {
			if !o.restrict(v, f.Lo, f.Hi) {
				return nil, true
			}
		}
		for _, n := range f.Not {
			if !o.exclude(v, n) {
				return nil, true
			}
		}
	}
	for _, k := range sortedKeys(out.preds) {
		p := out.preds[k]
		args := m.list(p.A)
		nk := predKey(p.Name, args)
		if q, ok := o.preds[nk]; ok {
			if q.Ans != p.Ans {
				return nil, true
			}
			continue
		}
		o.preds[nk] = Pred{p.Name, args, p.Ans}
	}
	return o, true
}

// allConst says whether the values are made of constants only.
func allConst(vs []Val) bool {
	for _, v := range vs {
		switch x := v.(type) {
		case VStr:
			if _, ok := x.isLit(); !ok {
				return false
			}
		case VInt:
			if _, ok := x.isConst(); !ok {
				return false
			}
		case VBool, VNil:
		case VStruct:
			if !allConst(x.F) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
