package main

import (
	"fmt"
	"sort"
	"strings"
)

// Rules that judge the outcomes of the abstract interpretation, property by property.

func (c *Ctx) addrRun(f func(*runConf)) *RunResult {
	conf := runConf{name: "addr", fn: "ParseAddressList", rule: "addressList"}
	f(&conf)
	return c.analyse(conf)
}

func (c *Ctx) dateRun(f func(*runConf)) *RunResult {
	conf := runConf{name: "date", fn: "ParseDateTime", rule: "dateTime"}
	f(&conf)
	return c.analyse(conf)
}

func kindIn(kinds ...string) func(string) bool {
	return func(k string) bool {
		for _, x := range kinds {
			if k == x {
				return true
			}
		}
		return false
	}
}

// has says whether a run reports something of the given kinds.
func (rr *RunResult) has(kinds func(string) bool) bool {
	if rr.undec != "" {
		return true
	}
	for _, r := range rr.reports {
		if kinds(r.Kind) {
			return true
		}
	}
	return false
}

func (rr *RunResult) undecided() bool {
	return rr.has(kindIn("undecided"))
}

// account records what a run covered.
func (r *RuleRun) account(c *Ctx, rr *RunResult) {
	var fns []string
	for k := range rr.stat {
		if n := strings.TrimPrefix(k, "fn "); n != k && strings.Contains(n, "go-rfc5322") {
			fns = append(fns, n)
		}
	}
	sort.Strings(fns)
	pre := rr.conf.describe() + ": "
	r.count(pre+"functions interpreted", len(fns))
	r.count(pre+"instructions interpreted", rr.steps)
	r.count(pre+"subtree situations", rr.stat["situations"])
	r.count(pre+"outcomes of "+rr.conf.fn, rr.outcomes)
	for _, k := range []string{"compared outcomes", "attribute outcomes", "recognised", "rejected", "empty"} {
		if n := rr.stat[k]; n > 0 {
			r.count(pre+k, n)
		}
	}
	for _, f := range fns {
		r.ok(pre + f)
	}
}

func (c runConf) describe() string {
	s := c.name
	if c.ghost {
		s += " against the specification"
	}
	for _, x := range []struct {
		on bool
		n  string
	}{{c.attrs, "characters and origin"}, {c.noComments, "no comments"}, {c.noCFWS, "no comments or white space"}, {c.upper, "upper case"},
		{c.maskName, "names left out"}, {c.maskAddr, "addresses left out"}, {c.noEncoded, "no encoded words"}, {c.noQuoted, "no quoted strings"}} {
		if x.on {
			s += ", " + x.n
		}
	}
	return s
}

// judge makes the reports of the given kinds findings; a run that is not decided is a finding as well.
func (r *RuleRun) judge(c *Ctx, rr *RunResult, kinds func(string) bool) {
	r.account(c, rr)
	if rr.undec != "" {
		r.fail("interpretation of "+rr.conf.fn, "", "the callbacks could not be followed: %s", rr.undec)
	}
	for _, x := range rr.reports {
		if x.Kind == "undecided" || kinds(x.Kind) {
			r.failReport(x)
		}
	}
	if rr.undec == "" {
		need := "compared outcomes"
		if rr.conf.attrs {
			need = "attribute outcomes"
		}
		if (rr.conf.ghost || rr.conf.attrs) && rr.stat[need] == 0 {
			r.fail("interpretation of "+rr.conf.fn, "", "no result of well-formed input was reached")
		}
	}
}

func (r *RuleRun) failReport(x *Report) {
	t := x.Trail
	if len(t) > 30 {
		t = t[len(t)-30:]
	}
	d := x.Detail
	if len(t) > 0 {
		d += " [on the way: " + strings.Join(t, ", ") + "]"
	}
	r.fail(x.Kind+": "+x.Construct, x.Pos, "%s", d)
}

var compared = kindIn("structure", "entry", "name", "address")

func plainRuns(c *Ctx) []*RunResult {
	return []*RunResult{c.addrRun(func(*runConf) {}), c.dateRun(func(*runConf) {})}
}

// addrMain compares with the specification, first on inputs without comments and white space between tokens: what
// is wrong there need not be looked for in the larger space.
func addrMain(c *Ctx) *RunResult {
	small := c.addrRun(func(x *runConf) { x.ghost, x.noCFWS = true, true })
	if small.has(compared) || small.has(kindIn("error", "reader")) || small.undecided() {
		return small
	}
	return c.addrRun(func(x *runConf) { x.ghost = true })
}

// addrLike makes a comparison on the inputs addrMain found something in, further restricted.
func addrLike(c *Ctx, f func(*runConf)) *RunResult {
	main := addrMain(c)
	return c.addrRun(func(x *runConf) {
		*x = main.conf
		f(x)
	})
}

func dateMain(c *Ctx) *RunResult { return c.dateRun(func(x *runConf) { x.ghost = true }) }
func addrAttrs(c *Ctx) *RunResult {
	return c.addrRun(func(x *runConf) { x.attrs, x.plainDecode = true, true })
}

// C01
func rulePanic(c *Ctx, prop string, r *RuleRun) {
	for _, rr := range plainRuns(c) {
		r.judge(c, rr, kindIn("panic", "badtree"))
	}
}

// C02
func ruleErrors(c *Ctx, prop string, r *RuleRun) {
	kinds := kindIn("error", "empty", "unrecognised", "badtree")
	r.judge(c, c.addrRun(func(*runConf) {}), kinds)
	r.judge(c, dateMain(c), func(k string) bool { return kinds(k) || k == "impossible" || strings.HasPrefix(k, "rejected") })
}

// C03
func ruleWhole(c *Ctx, prop string, r *RuleRun) {
	for _, rr := range plainRuns(c) {
		r.judge(c, rr, kindIn("input", "config", "unrecognised"))
	}
}

// C05: what is recognised is not refused afterwards.
func ruleAccepted(c *Ctx, prop string, r *RuleRun) {
	errs := func(k string) bool { return strings.HasPrefix(k, "rejected") }
	r.judge(c, dateMain(c), errs)
	rr := c.addrRun(func(*runConf) {})
	r.account(c, rr)
	for _, x := range rr.reports {
		if x.Kind == "error" && strings.Contains(x.Construct, "well-formed") {
			r.failReport(x)
		}
	}
	if rr.undecided() {
		r.fail("interpretation of ParseAddressList", "", "the callbacks could not be followed: %s", rr.undec)
	}
}

// views are the comparisons with names or addresses left out.
func views(c *Ctx) (addresses, names *RunResult) {
	return addrLike(c, func(x *runConf) { x.maskName = true }), addrLike(c, func(x *runConf) { x.maskAddr = true })
}

// C06
func ruleStructure(c *Ctx, prop string, r *RuleRun) {
	main := addrMain(c)
	if !main.has(compared) || main.undecided() {
		r.judge(c, main, compared)
		return
	}
	a, n := views(c)
	if main.has(kindIn("structure")) || a.has(compared) && n.has(compared) {
		r.judge(c, main, compared)
		return
	}
	r.judge(c, main, func(string) bool { return false })
}

// C07
func ruleAddresses(c *Ctx, prop string, r *RuleRun) {
	main := addrMain(c)
	if !main.has(compared) || main.undecided() {
		r.judge(c, main, compared)
		return
	}
	a, n := views(c)
	r.judge(c, a, func(k string) bool { return k == "address" || k == "entry" && !n.has(compared) })
}

// C08
func ruleNames(c *Ctx, prop string, r *RuleRun) {
	main := addrMain(c)
	if !main.has(compared) || main.undecided() {
		r.judge(c, main, compared)
		return
	}
	a, n := views(c)
	r.judge(c, n, func(k string) bool { return k == "name" || k == "entry" && !a.has(compared) })
}

// without judges the main comparison by what becomes of its mismatches when the inputs are restricted.
func without(c *Ctx, r *RuleRun, main, less *RunResult, bad func(string) bool, what string) {
	if main.undecided() {
		r.judge(c, main, bad)
		return
	}
	if less.has(bad) {
		// the mismatch exists without it as well: only what is new counts
		old := map[string]bool{}
		for _, x := range less.reports {
			old[x.Kind] = true
		}
		r.account(c, less)
		r.judge(c, main, func(k string) bool { return bad(k) && !old[k] && less.undec == "" })
		r.Notes = append(r.Notes, "results differ from the specification also "+what+"; those differences belong to other properties")
		return
	}
	r.judge(c, main, bad)
}

// C09
func ruleQuoted(c *Ctx, prop string, r *RuleRun) {
	main := addrMain(c)
	if !main.has(compared) {
		r.judge(c, main, compared)
		return
	}
	without(c, r, main, addrLike(c, func(x *runConf) { x.noQuoted = true }), compared, "without quoted strings")
}

// C10
func ruleEncoded(c *Ctx, prop string, r *RuleRun) {
	main := addrMain(c)
	bad := func(k string) bool { return compared(k) || k == "error" }
	if !main.has(bad) {
		r.judge(c, main, func(k string) bool { return bad(k) || k == "reader" })
		return
	}
	without(c, r, main, addrLike(c, func(x *runConf) { x.noEncoded = true }), bad, "without encoded words")
	for _, x := range main.reports {
		if x.Kind == "reader" {
			r.failReport(x)
		}
	}
}

// C11
func ruleDecoded(c *Ctx, prop string, r *RuleRun) {
	r.judge(c, addrAttrs(c), kindIn("decoded", "lost", "input", "config"))
	a := addrMain(c)
	if !a.has(compared) {
		r.judge(c, a, compared)
		return
	}
	// an encoded word in an address, or one that changes the list
	a = addrLike(c, func(x *runConf) { x.maskName = true })
	if !a.has(compared) {
		r.judge(c, a, compared)
		return
	}
	without(c, r, a, addrLike(c, func(x *runConf) { x.maskName, x.noEncoded = true, true }), compared, "without encoded words")
}

// C12
func ruleInvisible(c *Ctx, prop string, r *RuleRun) {
	r.judge(c, addrAttrs(c), kindIn("comment", "lost"))
	main := addrMain(c)
	if main.has(compared) {
		without(c, r, main, addrLike(c, func(x *runConf) { x.noCFWS = true }), compared, "without comments and white space")
	} else {
		r.judge(c, main, compared)
	}
	d := dateMain(c)
	if d.has(dateKind) {
		without(c, r, d, c.dateRun(func(x *runConf) { x.ghost, x.noCFWS = true, true }), dateKind, "without comments and white space")
	} else {
		r.judge(c, d, dateKind)
	}
}

// C13
func ruleCharset(c *Ctx, prop string, r *RuleRun) {
	r.judge(c, addrAttrs(c), kindIn("charset", "lost"))
}

func dateKind(k string) bool {
	return strings.HasPrefix(k, "date ") || strings.HasPrefix(k, "rejected") || k == "impossible" || k == "walk" || k == "error"
}

// blame finds the property responsible for valid date-times that are rejected: one whose words occur in every
// report.
func blame(main *RunResult) string {
	year, num, obs, n := true, true, true, 0
	for _, x := range main.reports {
		if strings.HasPrefix(x.Kind, "rejected") {
			n++
			year = year && strings.Contains(x.Kind, "year2")
			num = num && strings.Contains(x.Kind, "zonenum")
			obs = obs && strings.Contains(x.Kind, "zoneobs")
		}
	}
	switch {
	case n == 0:
		return ""
	case year:
		return "C16"
	case num || obs:
		return "C15"
	}
	return "C14"
}

// C14, C15, C16
func ruleDate(c *Ctx, prop string, r *RuleRun) {
	main := dateMain(c)
	who := blame(main)
	r.judge(c, main, func(k string) bool {
		switch {
		case k == "walk":
			return true
		case strings.HasPrefix(k, "rejected"):
			return who == prop
		case strings.HasPrefix(k, "date offset"):
			return prop == "C15"
		case k == "date year year2":
			return prop == "C16"
		case strings.HasPrefix(k, "date "):
			return prop == "C14"
		}
		return false
	})
}

// C17
func ruleCase(c *Ctx, prop string, r *RuleRun) {
	main := dateMain(c)
	if !main.has(dateKind) {
		r.judge(c, main, dateKind)
		return
	}
	if main.stat["decisions on the case of a letter"] > 0 {
		// the fields are wrong, and what the program does depends on the case of the letters
		r.judge(c, main, dateKind)
		return
	}
	without(c, r, main, c.dateRun(func(x *runConf) { x.ghost, x.upper = true, true }), dateKind, "in upper case")
}

// C18
func ruleImpossible(c *Ctx, prop string, r *RuleRun) {
	r.judge(c, dateMain(c), func(k string) bool { return k == "impossible" })
}

// C21
func ruleConsole(c *Ctx, prop string, r *RuleRun) {
	for _, rr := range plainRuns(c) {
		r.judge(c, rr, kindIn("console"))
	}
}

var _ = fmt.Sprint
