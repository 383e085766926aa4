package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// RunResult is what an analysis found.
type RunResult struct {
	conf     runConf
	reports  []*Report
	outcomes int
	entries  int
	steps    int
	maxState int
	stat     map[string]int
	dur      time.Duration
	undec    string
}

// analyse makes one analysis, restarting when a rule turns out to need its children.
func (c *Ctx) analyse(conf runConf) *RunResult {
	return memo(c, fmt.Sprintf("run %+v", conf), func() *RunResult {
		start := time.Now()
		extra := map[int]bool{}
		for {
			in := newInterp(c, conf)
			for r := range extra {
				in.expand[r] = true
			}
			rr, again := in.analyse(conf)
			if again >= 0 && !extra[again] {
				extra[again] = true
				continue
			}
			rr.dur = time.Since(start)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "run %s: %d steps, %d outcomes, %d states at most, %v\n", conf.name, rr.steps, rr.outcomes, rr.maxState, rr.dur)
			}
			return rr
		}
	})
}

func (in *Interp) analyse(conf runConf) (rr *RunResult, again int) {
	again = -1
	rr = &RunResult{conf: conf}
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case restart:
				again = y.rule
				rr.undec = "the children of rule " + in.g.Rules[y.rule] + " are needed"
			case undecided:
				rr.undec = y.why
			default:
				panic(x)
			}
		}
		for _, k := range in.order {
			rr.reports = append(rr.reports, in.reports[k])
		}
		in.stat["situations"] = in.raw
		rr.steps, rr.maxState, rr.stat = in.steps, in.maxStates, in.stat
	}()
	st := newState(&in.next)
	in.next = 100
	if conf.ghost {
		st.ghosts = []*Ghost{{}}
	}
	for _, o := range in.call(st, in.p.RootS.Func("init"), nil, nil) {
		if o.pan != nil {
			in.report("panic", o.pan.Fn+": "+o.pan.Why, o.pan.Pos, o.st, "package initialisation panics: %s", o.pan.Why)
			continue
		}
		st := o.st
		st.frames = nil
		if g := in.p.RootS.Var("CharsetReader"); g != nil {
			p := in.globalPtr(st, g).(VPtr)
			st.heap[p.Obj].V = VUser{"reader"}
		}
		fn := in.p.RootS.Func(conf.fn)
		if fn == nil {
			panic("function " + conf.fn + " does not exist")
		}
		in.input = st.newStr(SAttr{CS: allChars, Max: inf, Taint: taintInput})
		st.keep = []Val{in.input}
		for _, q := range in.call(st, fn, []Val{in.input}, nil) {
			rr.outcomes++
			in.outcome(q, conf)
		}
	}
	return rr, -1
}

// outcome checks one way the parse function can end.
func (in *Interp) outcome(o Outcome, conf runConf) {
	st := o.st
	fn := in.p.RootS.Func(conf.fn)
	pos := in.p.Pos(fn.Pos())
	if o.pan != nil {
		in.report("panic", fmt.Sprintf("%s in %s", o.pan.Why, o.pan.Fn), o.pan.Pos, st, "%s can panic: %s in %s", conf.fn, o.pan.Why, o.pan.Fn)
		return
	}
	rep := func(kind, construct, f string, a ...any) {
		in.report(kind, conf.fn+": "+construct, pos, st, f, a...)
	}
	t, ok := o.ret.(VTuple)
	if !ok || len(t) != 2 {
		rep("undecided", "results", "the results are not understood")
		return
	}
	res, err := t[0], t[1]
	isErr := 0 // 1 yes, -1 no
	switch e := err.(type) {
	case VNil:
		isErr = -1
	case VIface:
		isErr = 1
	case VOpaque, VUser:
		if p, ok := st.preds[predKey("nil", []Val{e})]; ok {
			isErr = 1
			if p.Ans {
				isErr = -1
			}
		}
	}
	if isErr == 0 {
		rep("error", "error value", "whether the returned error is nil is not known (%s)", short(keyOf(err)))
		return
	}
	isTime := conf.fn == "ParseDateTime"
	empty := func() bool {
		if isTime {
			x, ok := res.(VTime)
			return ok && keyOf(x) == keyOf(zeroTime())
		}
		if _, ok := res.(VNil); ok {
			return true
		}
		s, ok := res.(VSlice)
		if !ok {
			return false
		}
		c, ok := s.Len.isConst()
		return ok && c == 0
	}
	_, hi := st.bounds(applyIFn("len", []Val{st.keep[0].(VStr)}))
	switch {
	case !st.flags["parsed"]:
		in.stat["empty"]++
	case st.flags["bad"]:
		in.stat["rejected"]++
	default:
		in.stat["recognised"]++
	}
	switch {
	case !st.flags["parsed"]:
		if hi != 0 {
			rep("unrecognised", "result without recognition", "some input gets a result (error: %v) without being recognised", isErr > 0)
			return
		}
		if isErr > 0 {
			rep("empty", "empty input", "the empty input gives an error")
		} else if !empty() || !isTime && isNilVal(res) {
			rep("empty", "empty input", "the empty input does not give an empty, non-nil result")
		}
		return
	case st.flags["bad"]:
		if hi == 0 {
			rep("empty", "empty input", "the empty input is recognised and gives an error")
			return
		}
		if isErr < 0 {
			rep("error", "rejected input", "input the recogniser rejects gives no error")
		} else if !empty() {
			rep("error", "rejected input", "input the recogniser rejects gives results next to the error: %s", short(keyOf(res)))
		}
		return
	}
	if !conf.ghost {
		if isErr > 0 && !isTime {
			rep("error", "well-formed input", "a well-formed address list gives an error")
		} else if isErr > 0 && !empty() {
			rep("error", "error with results", "an error is returned next to results")
		}
		in.resultAttrs(st, res, conf)
		return
	}
	g := st.ghosts[0]
	if !isTime {
		if isErr > 0 {
			rep("error", "well-formed input", "a well-formed address list gives an error")
			return
		}
		in.compareList(st, res, g, conf)
		return
	}
	if len(g.Entries) != 1 {
		rep("walk", "walk", "the recognised date-time is not interpreted")
		return
	}
	in.compareDate(st, res, isErr > 0, g.Entries[0].(VStruct), conf)
}

func (in *Interp) compareList(st *State, res Val, g *Ghost, conf runConf) {
	fn := in.p.RootS.Func(conf.fn)
	pos := in.p.Pos(fn.Pos())
	got, ok := in.entries(st, res)
	if !ok {
		in.report("undecided", "result list", pos, st, "the returned list is not understood: %s", short(keyOf(res)))
		return
	}
	in.stat["compared outcomes"]++
	if len(got) != len(g.Entries) {
		in.report("structure", "result list", pos, st, "the returned list is %s, the mailboxes written are %s", short(keyOf(vlist{got})), short(keyOf(vlist{g.Entries})))
		return
	}
	for i := range got {
		a, b := keyOf(got[i]), keyOf(g.Entries[i])
		if a == b {
			continue
		}
		kind := "entry"
		x, ok1 := got[i].(VStruct)
		y, ok2 := g.Entries[i].(VStruct)
		if ok1 && ok2 && len(x.F) == 2 && len(y.F) == 2 {
			kind = ""
			if keyOf(x.F[0]) != keyOf(y.F[0]) {
				kind = "name"
			}
			if keyOf(x.F[1]) != keyOf(y.F[1]) {
				if kind == "name" {
					kind = "entry"
				} else {
					kind = "address"
				}
			}
		}
		in.report(kind, "result list", pos, st, "an entry of the returned list is %s, the mailbox written is %s", short(a), short(b))
		return
	}
}

// resultAttrs checks the characters results can contain and where their text can come from.
func (in *Interp) resultAttrs(st *State, res Val, conf runConf) {
	if !conf.attrs || conf.fn != "ParseAddressList" {
		return
	}
	fn := in.p.RootS.Func(conf.fn)
	pos := in.p.Pos(fn.Pos())
	es, ok := in.entries(st, res)
	if !ok {
		in.report("undecided", "result list", pos, st, "the returned list is not understood: %s", short(keyOf(res)))
		return
	}
	if len(es) == 0 {
		return
	}
	la := st.listAttr(es)
	if len(la.El) != 2 {
		in.report("undecided", "result list", pos, st, "the returned entries are not understood: %s", short(keyOf(vlist{es})))
		return
	}
	in.stat["attribute outcomes"]++
	for i, a := range la.El {
		what := []string{"name", "address"}[i]
		if a.Taint&taintLost != 0 {
			in.report("lost", "origin of the "+what, pos, st, "where the text of a returned %s comes from is not known", what)
		}
		if a.Taint&taintUnknown != 0 {
			in.report("charset", "characters of the "+what, pos, st, "what characters a returned %s can contain is not known", what)
			continue
		}
		for _, c := range []struct {
			r rune
			n string
		}{{0, "NUL"}, {'\n', "LF"}, {'\r', "CR"}} {
			if a.CS.Has(c.r) {
				in.report("charset", fmt.Sprintf("%s in a returned %s", c.n, what), pos, st, "a returned %s can contain %s that did not come out of an encoded word", what, c.n)
			}
		}
		if i == 1 && a.Taint&taintDecoded != 0 {
			in.report("decoded", "returned address", pos, st, "decoded text can become part of a returned address")
		}
		if a.Taint&taintComment != 0 {
			in.report("comment", "returned "+what, pos, st, "the text of a comment can become part of a returned %s", what)
		}
	}
}

// entries are the values of the returned list.
func (in *Interp) entries(st *State, res Val) ([]Val, bool) {
	var es []Val
	switch x := res.(type) {
	case VNil:
	case VSlice:
		w, ok := st.window(x)
		if !ok {
			return nil, false
		}
		es = w
	default:
		return nil, false
	}
	var got []Val
	for _, e := range es {
		if x, ok := e.(VPtr); ok {
			if o := st.heap[x.Obj]; o != nil {
				if v, ok := getPath(o.V, x.Path); ok {
					got = append(got, v)
					continue
				}
			}
		}
		got = append(got, e)
	}
	return got, true
}

var dateParts = []string{"year", "month", "day", "hour", "minute", "second", "offset"}

func (in *Interp) compareDate(st *State, res Val, isErr bool, e VStruct, conf runConf) {
	fn := in.p.RootS.Func(conf.fn)
	pos := in.p.Pos(fn.Pos())
	in.stat["compared outcomes"]++
	f := make([]VInt, 7)
	for i := range f {
		f[i], _ = e.F[i].(VInt)
	}
	class := ""
	for _, k := range []string{"year2", "zonenum", "zoneobs"} {
		if st.flags[k] {
			class += " " + k
		}
	}
	type vs struct {
		st    *State
		valid bool
	}
	for _, c := range []vs{{st, !invalid(st)}} {
		st := c.st
		if !c.valid {
			if !isErr {
				in.report("impossible", "impossible date-time", pos, st, "a date-time that does not exist is accepted (%s)", in.describe(st, f))
			} else if x, ok := res.(VTime); !ok || keyOf(x) != keyOf(zeroTime()) {
				in.report("error", "impossible date-time", pos, st, "an impossible date-time gives a time next to the error")
			}
			continue
		}
		if isErr {
			in.report("rejected"+class, "valid date-time", pos, st, "a valid date-time gives an error (%s)", in.describe(st, f))
			continue
		}
		x, ok := res.(VTime)
		if !ok {
			in.report("undecided", "date-time", pos, st, "the returned time is not understood: %s", short(keyOf(res)))
			continue
		}
		loc, ok := x.Loc.(VLoc)
		if !ok {
			in.report("date offset"+class, "returned time", pos, st, "the returned location is not understood: %s", short(keyOf(x.Loc)))
			continue
		}
		for i := 0; i < 7; i++ {
			var got VInt
			if i == 6 {
				got = loc.Off
			} else {
				got = x.F[i]
			}
			if !in.sameInt(st, got, f[i]) {
				k := "date " + dateParts[i]
				if i == 0 && st.flags["year2"] {
					k += " year2"
				}
				if i == 6 {
					k += strings.ReplaceAll(class, " year2", "")
				}
				in.report(k, "returned time", pos, st, "the %s of the returned time is %s instead of %s (%s)", dateParts[i], short(keyOf(got)), short(keyOf(f[i])), in.describe(st, f))
			}
		}
		if !in.sameInt(st, x.F[6], VInt{}) {
			in.report("date nanosecond", "returned time", pos, st, "the returned time has sub-seconds")
		}
	}
}

func (in *Interp) describe(st *State, f []VInt) string {
	var out []string
	for i, v := range f {
		lo, hi := st.bounds(v)
		out = append(out, fmt.Sprintf("%s %d..%d", dateParts[i], lo, hi))
	}
	for k := range st.flags {
		out = append(out, k)
	}
	if os.Getenv("VERIF_DEBUG") == "2" {
		for k, ft := range st.facts {
			out = append(out, fmt.Sprintf("{%s: %d..%d %v}", k, ft.Lo, ft.Hi, ft.Not))
		}
		for _, v := range f {
			out = append(out, keyOf(v))
		}
	}
	sort.Strings(out[7:])
	return strings.Join(out, ", ")
}

// sameInt says that two numbers are equal in every case.
func (in *Interp) sameInt(st *State, a, b VInt) bool {
	d := a.add(b, -1)
	if lo, hi := st.bounds(d); lo == 0 && hi == 0 {
		return true
	}
	return false
}
