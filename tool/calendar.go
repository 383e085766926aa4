package main

// Feasibility of a state's facts about a date: the length of a month may be computed by the program itself, in
// terms of month and year, while the specification speaks of the length of the month.

// evalInt evaluates an integer form under values of its unknowns; days is the length of the month.
func evalInt(v VInt, env map[int]int64, days int64) (int64, bool) {
	r := v.C
	for _, t := range v.T {
		x, ok := evalAtom(t.A, env, days)
		if !ok {
			return 0, false
		}
		r += t.K * x
	}
	return r, true
}

func evalAtom(a *IAtom, env map[int]int64, days int64) (int64, bool) {
	switch a.Fn {
	case "":
		x, ok := env[a.ID]
		return x, ok
	case "daysin":
		return days, days > 0
	case "mod", "div", "mul":
		var xs [2]int64
		for i := range xs {
			f, ok := a.A[i].(VInt)
			if !ok {
				return 0, false
			}
			if xs[i], ok = evalInt(f, env, days); !ok {
				return 0, false
			}
		}
		switch {
		case a.Fn == "mul":
			return xs[0] * xs[1], true
		case xs[1] == 0:
			return 0, false
		case a.Fn == "mod":
			return xs[0] % xs[1], true
		}
		return xs[0] / xs[1], true
	}
	return 0, false
}

func (f Fact) holds(x int64) bool {
	if x < f.Lo || x > f.Hi {
		return false
	}
	for _, n := range f.Not {
		if n == x {
			return false
		}
	}
	return true
}

// plainAtoms lists the unknowns of a form that is a sum of unknowns.
func plainAtoms(v VInt) []int {
	var out []int
	for _, t := range v.T {
		if t.A.Fn != "" {
			return nil
		}
		out = append(out, t.A.ID)
	}
	return out
}

// assignments calls f for every assignment to the unknowns within their bounds until f returns true; it gives up,
// returning true, when there are too many.
func (s *State) assignments(ids []int, env map[int]int64, f func() bool) bool {
	total := int64(1)
	type rng struct{ lo, hi int64 }
	rs := make([]rng, len(ids))
	for i, id := range ids {
		lo, hi := s.bounds(iAtom(id))
		if hi < lo {
			return false
		}
		if hi-lo > 20000 {
			return true
		}
		rs[i] = rng{lo, hi}
		if total *= hi - lo + 1; total > 40000 {
			return true
		}
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(ids) {
			return f()
		}
		for x := rs[i].lo; x <= rs[i].hi; x++ {
			env[ids[i]] = x
			if rec(i + 1) {
				return true
			}
		}
		delete(env, ids[i])
		return false
	}
	return rec(0)
}

// dateFeasible says whether the facts of a state can all hold for some day, month and year.
func dateFeasible(s *State, d, m, y VInt) bool {
	within := func(v VInt, allowed map[int]bool) bool {
		ok := true
		unknowns(v, func(id int) { ok = ok && allowed[id] })
		return ok
	}
	set := func(vs ...VInt) map[int]bool {
		out := map[int]bool{}
		for _, v := range vs {
			for _, id := range plainAtoms(v) {
				out[id] = true
			}
		}
		return out
	}
	env := map[int]int64{}
	var yearFacts, dateFacts []Fact
	ys, dm := set(y), set(d, m, y)
	for _, f := range s.facts {
		switch {
		case within(f.Form, ys):
			yearFacts = append(yearFacts, f)
		case within(f.Form, dm):
			dateFacts = append(dateFacts, f)
		}
	}
	if len(dateFacts) == 0 {
		return true
	}
	leap := [2]bool{}
	all := s.assignments(plainAtoms(y), env, func() bool {
		for _, f := range yearFacts {
			if x, ok := evalInt(f.Form, env, 0); ok && !f.holds(x) {
				return false
			}
		}
		x, _ := evalInt(y, env, 0)
		leap[daysInConst(x, 2)-28] = true
		return leap[0] && leap[1]
	})
	if all {
		leap = [2]bool{true, true}
	}
	clear(env)
	return s.assignments(plainAtoms(m), env, func() bool {
		mv, ok := evalInt(m, env, 0)
		if !ok {
			return true
		}
		for l, on := range leap {
			if !on || l == 1 && mv != 2 && leap[0] {
				continue
			}
			days := daysInConst(2001, mv)
			if mv == 2 {
				days += int64(l)
			}
			if s.assignments(plainAtoms(d), env, func() bool {
				for _, f := range dateFacts {
					if x, ok := evalInt(f.Form, env, days); ok && !f.holds(x) {
						return false
					}
				}
				return true
			}) {
				return true
			}
		}
		return false
	})
}
