// Command rfccheck decides the semantic properties listed in /verif/properties.jsonl for the Go package
// github.com/ProtonMail/go-rfc5322 by static analysis of its current source. It never runs that package.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Finding is a violated obligation.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos,omitempty"`
	Detail    string `json:"detail"`
}

func (f Finding) key() string { return f.Rule + " " + f.Construct }

// RuleRun collects what one rule examined.
type RuleRun struct {
	ID, Desc    string
	Min         int
	Obligations int
	Discharged  int
	Findings    []Finding
	Samples     []string
	Notes       []string
	Counts      map[string]int
}

func (r *RuleRun) count(what string, n int) {
	if r.Counts == nil {
		r.Counts = map[string]int{}
	}
	r.Counts[what] += n
}

func (r *RuleRun) ok(construct string) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, construct)
	}
}

func (r *RuleRun) fail(construct, pos, format string, args ...any) {
	r.Obligations++
	d := fmt.Sprintf(format, args...)
	if len(d) > 1500 {
		d = d[:1500] + "..."
	}
	r.Findings = append(r.Findings, Finding{r.ID, construct, pos, d})
}

// check records one obligation.
func (r *RuleRun) check(cond bool, construct, pos, format string, args ...any) {
	if cond {
		r.ok(construct)
	} else {
		r.fail(construct, pos, format, args...)
	}
}

// Rule is one obligation generator; it serves the properties in Props.
type Rule struct {
	ID    string
	Desc  string
	Props string // space-separated property ids
	Min   int    // the number of obligations confirmed by hand; fewer means the rule lost its anchors
	Run   func(c *Ctx, prop string, r *RuleRun)
}

func (r *Rule) serves(prop string) bool {
	for _, p := range strings.Fields(r.Props) {
		if p == prop {
			return true
		}
	}
	return false
}

// Ctx holds the analysed program and lazily computed facts shared by rules.
type Ctx struct {
	Dir  string
	Tier string
	P    *Program
	memo map[string]any
}

func memo[T any](c *Ctx, key string, f func() T) T {
	if v, ok := c.memo[key]; ok {
		return v.(T)
	}
	v := f()
	c.memo[key] = v
	return v
}

type known struct {
	prop, key, what string
	fixed           bool
}

// loadKnown reads known-findings.txt: lines "known: property=<id> key=<rule construct> <what fails>" and
// "fixed: property=<id> <commit> <what failed>"; only "known:" lines have an effect.
func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " | ", 3)
		if len(f) != 3 || !strings.HasPrefix(f[0], "property=") {
			continue
		}
		out = append(out, known{prop: strings.TrimPrefix(f[0], "property="), key: f[1], what: f[2]})
	}
	return out
}

func runRule(c *Ctx, ru *Rule, prop string) (rr *RuleRun) {
	rr = &RuleRun{ID: ru.ID, Desc: ru.Desc, Min: ru.Min}
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, st)
			}
			rr.fail("analysis", "", "the rule could not be decided: %v", x)
		}
	}()
	ru.Run(c, prop, rr)
	if rr.Obligations < ru.Min {
		rr.fail("instance count", "", "only %d instances of this rule were found, %d were confirmed by hand: its anchors are gone", rr.Obligations, ru.Min)
	}
	return rr
}

func main() {
	prop := flag.String("property", "", "property id, or 'all'")
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "directory of evidence, replays and known findings")
	tier := flag.String("tier", "", "quick or thorough")
	dump := flag.String("dump", "", "debugging output")
	flag.Parse()
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(25 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
		}()
	}
	start := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(4 << 30)
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = nil
		for p := range propInfo {
			props = append(props, p)
		}
		sort.Strings(props)
	}
	p, err := Load(*repo)
	c := &Ctx{Dir: *repo, Tier: *tier, P: p, memo: map[string]any{}}
	if *dump != "" {
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		dumpCmd(c, *dump, flag.Args())
		return
	}
	exit := 0
	for _, id := range props {
		t0 := time.Now()
		if id == props[0] {
			t0 = start
		}
		info, ok := propInfo[id]
		if !ok {
			fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
			os.Exit(2)
		}
		var runs []*RuleRun
		if err != nil {
			rr := &RuleRun{ID: "load", Desc: "the repository type-checks"}
			rr.fail("repository", "", "%v", err)
			runs = append(runs, rr)
		} else {
			for _, ru := range rules {
				if ru.serves(id) {
					runs = append(runs, runRule(c, ru, id))
				}
			}
		}
		if report(c, id, info, runs, *verif, *tier, time.Since(t0)) {
			exit = 1
		}
	}
	os.Exit(exit)
}

// report prints the outcome, writes evidence and replay files, and says whether there is a violation.
func report(c *Ctx, id string, info propertyInfo, runs []*RuleRun, verif, tier string, wall time.Duration) bool {
	knowns := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var viol []Finding
	printedKnown := map[string]bool{}
	obl, dis := 0, 0
	type ruleEv struct {
		Rule        string         `json:"rule"`
		Desc        string         `json:"what"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Counts      map[string]int `json:"analysed,omitempty"`
		Samples     []string       `json:"samples,omitempty"`
		Notes       []string       `json:"notes,omitempty"`
	}
	var evs []ruleEv
	samples := []any{}
	for _, r := range runs {
		obl += r.Obligations
		dis += r.Discharged
		evs = append(evs, ruleEv{r.ID, r.Desc, r.Obligations, r.Discharged, r.Counts, r.Samples, r.Notes})
		if len(r.Samples) > 0 && len(samples) < 12 {
			samples = append(samples, r.ID+": "+r.Samples[0])
		}
		for _, f := range r.Findings {
			isKnown := false
			for _, k := range knowns {
				if k.prop == id && k.key == f.key() {
					isKnown = true
					if !printedKnown[k.key] {
						printedKnown[k.key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.what)
					}
				}
			}
			if !isKnown {
				viol = append(viol, f)
			}
		}
	}
	seed := 0
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	cov := map[string]any{
		"obligations":   obl,
		"discharged":    dis,
		"rules":         evs,
		"samples":       samples,
		"explanation":   info.explain,
		"analysis_tool": "rfccheck (/verif/tool)",
	}
	if info.level == "translation_validation" {
		cov["programs"] = 2
		n := 0
		for _, r := range runs {
			n += r.Obligations
		}
		cov["disagreements_checked"] = n
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": info.level,
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100,
		"violations": len(viol), "assumptions": info.assumes,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d rules=%d tier=%s wall=%.1fs\n", id, obl, dis, len(runs), tier, wall.Seconds())
		return false
	}
	replay := filepath.Join(verif, "evidence", "replay-"+id+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d violated obligations\nreproduce: rfccheck -property %s -repo %s\n\n", id, len(viol), id, c.Dir)
	for i, f := range viol {
		fmt.Fprintf(&sb, "[%d] rule %s\n    construct: %s\n    at: %s\n    %s\n", i+1, f.Rule, f.Construct, f.Pos, f.Detail)
		if i < 8 {
			d := f.Detail
			if len(d) > 400 {
				d = d[:400] + "..."
			}
			fmt.Printf("  rule %s: %s (%s): %s\n", f.Rule, f.Construct, f.Pos, d)
		}
	}
	if err := os.WriteFile(replay, []byte(sb.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	return true
}
