package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

// Recog is everything known about the recogniser's tables.
type Recog struct {
	lexSD, parSD   *StaticData
	lexATN, parATN *ATN
	g              *Grammar // from the tables
	doc            *Grammar // from the .g4 files
	docErr         error
	probs          []string
}

func (c *Ctx) recog() *Recog {
	return memo(c, "recog", func() *Recog {
		r := &Recog{}
		sds, err := findStatic(c.P.Parser)
		if err != nil {
			panic(err)
		}
		for _, sd := range sds {
			a, err := decodeATN(sd.serialized)
			if err != nil {
				panic(fmt.Sprintf("%s: %v", sd.initFn.Name.Name, err))
			}
			if a.lexer {
				if r.lexSD != nil {
					panic("more than one lexer table")
				}
				r.lexSD, r.lexATN = sd, a
			} else {
				if r.parSD != nil {
					panic("more than one parser table")
				}
				r.parSD, r.parATN = sd, a
			}
		}
		if r.lexSD == nil || r.parSD == nil {
			panic("the serialized tables of lexer and parser were not found")
		}
		r.g, r.probs = grammarFromATN(r.lexSD, r.parSD, r.lexATN, r.parATN)
		r.doc, r.docErr = parseG4(filepath.Join(c.Dir, "RFC5322Lexer.g4"), filepath.Join(c.Dir, "RFC5322Parser.g4"))
		return r
	})
}

// scope is the set of rules a property is about.
func (c *Ctx) scope(prop string) map[int]bool {
	g := c.recog().g
	root := func(n string) []int {
		if i, ok := g.rule(n); ok {
			return []int{i}
		}
		panic("grammar rule " + n + " does not exist")
	}
	switch prop {
	case "C14", "C15", "C16", "C17", "C18":
		return g.reach(root("dateTime")...)
	case "C06", "C07", "C08", "C09", "C10", "C11", "C13":
		return g.reach(root("addressList")...)
	}
	return g.reach(append(root("dateTime"), root("addressList")...)...)
}

// ruleTables: tables decode and have block structure.
func ruleTables(c *Ctx, prop string, r *RuleRun) {
	rc := c.recog()
	for _, p := range rc.probs {
		r.fail("tables", "", "%s", p)
	}
	if len(rc.probs) == 0 {
		r.ok("tables decode into block-structured rules")
	}
	r.count("lexer ATN states", len(rc.lexATN.states))
	r.count("parser ATN states", len(rc.parATN.states))
	r.count("parser decisions", len(rc.parATN.decisions))
	r.count("parser rules", len(rc.g.Rules))
	r.check(rc.lexATN.maxTok == rc.parATN.maxTok, "vocabulary size", "", "lexer has %d token types, parser %d", rc.lexATN.maxTok, rc.parATN.maxTok)
	r.check(len(rc.lexATN.modes) == 1, "lexer modes", "", "the lexer has %d modes", len(rc.lexATN.modes))
	r.check(rc.lexATN.actions == 0, "lexer actions", "", "the lexer has %d actions (skip, channel, type, mode)", rc.lexATN.actions)
	for i, s := range rc.parATN.states {
		if s.prec {
			r.fail(fmt.Sprintf("state %d", i), "", "precedence rules are not part of this grammar")
		}
	}
	// every lexer rule is a start alternative of the single mode
	if len(rc.lexATN.modes) > 0 {
		m := rc.lexATN.states[rc.lexATN.modes[0]]
		reach := map[int]bool{}
		for _, t := range m.trans {
			reach[t.to] = true
		}
		for i, s := range rc.lexATN.ruleStart {
			r.check(reach[s], "lexer rule "+rc.lexSD.ruleNames[i]+" is reachable", "", "the lexer never tries this rule")
		}
	}
}

// ruleDocTables: the grammar files and the tables describe the same rules.
func ruleDocTables(c *Ctx, prop string, r *RuleRun) {
	rc := c.recog()
	if rc.docErr != nil {
		r.fail("grammar files", "", "%v", rc.docErr)
		return
	}
	d, g := rc.doc, rc.g
	// token types
	r.check(len(d.Tokens) == len(g.Tokens), "token count", "RFC5322Lexer.g4", "%d tokens documented, %d in the tables", len(d.Tokens)-1, len(g.Tokens)-1)
	tokMap := map[int]int{}
	for t := 1; t < len(d.Tokens); t++ {
		i, ok := g.TokIdx[d.Tokens[t]]
		if !ok {
			r.fail("token "+d.Tokens[t], "RFC5322Lexer.g4", "not in the lexer tables")
			continue
		}
		tokMap[t] = i
		r.check(d.Chars[t].Equal(g.Chars[i]), "token "+d.Tokens[t], "RFC5322Lexer.g4", "documented characters %v, the tables match %v", d.Chars[t], g.Chars[i])
	}
	tokMap[0] = 0
	ruleMap := map[int]int{}
	for i, n := range d.Rules {
		j, ok := g.RuleIdx[n]
		if !ok {
			r.fail("rule "+n, "RFC5322Parser.g4", "documented but not in the tables")
			continue
		}
		ruleMap[i] = j
	}
	for _, n := range g.Rules {
		if _, ok := d.RuleIdx[n]; !ok {
			r.fail("rule "+n, "", "in the tables but not documented")
		}
	}
	var conv func(e *E) *E
	conv = func(e *E) *E {
		o := &E{Op: e.Op, NonGreedy: e.NonGreedy}
		for _, t := range e.Set.List() {
			if m, ok := tokMap[t]; ok {
				o.Set.Add(m)
			}
		}
		if e.Op == OpRef {
			o.Rule = ruleMap[e.Rule]
		}
		for _, k := range e.Kids {
			o.Kids = append(o.Kids, conv(k))
		}
		return o
	}
	sc := c.scope(prop)
	for i, n := range d.Rules {
		j, ok := ruleMap[i]
		if !ok || !sc[j] && prop != "C04" {
			continue
		}
		want := conv(d.Body[i])
		eq, w := equalNFA(nfaOf(want, nil), nfaOf(g.Body[j], nil))
		if !eq {
			r.fail("rule "+n, "RFC5322Parser.g4", "the documented rule and the tables disagree on the phrase: %s", g.wordStr(w))
			continue
		}
		a, b := g.canon(want), g.canon(g.Body[j])
		r.check(eEqual(a, b), "rule "+n, "RFC5322Parser.g4", "same phrases but different order of alternatives or greediness: documented %s, tables %s", g.Str(a), g.Str(b))
	}
}

// ruleLexTotal: every character is exactly one token.
func ruleLexTotal(c *Ctx, prop string, r *RuleRun) {
	g := c.recog().g
	var all CharSet
	for t := 1; t < len(g.Tokens); t++ {
		cs := g.Chars[t]
		r.check(len(cs) > 0, "token "+g.Tokens[t], "", "matches no character")
		if x := all.Inter(cs); len(x) > 0 {
			r.fail("token "+g.Tokens[t], "", "shares the characters %v with another token", x)
		}
		all = all.Union(cs)
	}
	miss := allChars.Minus(all).Minus(CharSet{{0xD800, 0xDFFF}})
	r.check(len(miss) == 0, "character coverage", "parser/rfc5322_lexer.go", "no token matches the characters %s", hexSet(miss))
}

func hexSet(c CharSet) string {
	var out []string
	for _, r := range c {
		out = append(out, fmt.Sprintf("U+%04X..U+%04X", r.Lo, r.Hi))
	}
	return strings.Join(out, ", ")
}

// ruleLetters: each letter token is the letter in both cases (C17).
func ruleLetters(c *Ctx, prop string, r *RuleRun) {
	g := c.recog().g
	for ch := int32('A'); ch <= 'Z'; ch++ {
		n := string(rune(ch))
		t, ok := g.TokIdx[n]
		want := CharSet{{ch, ch}, {ch + 32, ch + 32}}
		r.check(ok && g.Chars[t].Equal(want), "letter token "+n, "parser/rfc5322_lexer.go", "does not match exactly the letter in both cases")
	}
}

// ruleEOF: the start rules end with EOF on every path and EOF occurs nowhere else.
func ruleEOF(c *Ctx, prop string, r *RuleRun) {
	g := c.recog().g
	for _, n := range []string{"addressList", "dateTime"} {
		i, ok := g.rule(n)
		if !ok {
			r.fail("start rule "+n, "", "does not exist")
			continue
		}
		// every word of the rule ends with EOF and contains it once
		a := nfaOf(g.Body[i], nil)
		var anySym []int
		for t := 1; t < len(g.Tokens); t++ {
			anySym = append(anySym, t)
		}
		for k := range g.Rules {
			anySym = append(anySym, ruleSym+k)
		}
		b := newNFA()
		s, f := b.state(), b.state()
		for _, x := range anySym {
			b.edge(s, x, s)
		}
		b.edge(s, 0, f)
		b.start, b.final = s, map[int]bool{f: true}
		ok2, w := includes(a, b)
		r.check(ok2, "start rule "+n, "RFC5322Parser.g4", "matches without the end of input: %s", g.wordStr(w))
	}
	for i, b := range g.Body {
		if g.Rules[i] == "addressList" || g.Rules[i] == "dateTime" {
			continue
		}
		var rec func(e *E) bool
		rec = func(e *E) bool {
			if e.Op == OpTok && e.Set.Has(0) {
				return true
			}
			for _, k := range e.Kids {
				if rec(k) {
					return true
				}
			}
			return false
		}
		r.check(!rec(b), "rule "+g.Rules[i]+" does not match EOF", "", "matches the end of input inside the grammar")
	}
}

// ruleProgress: no left recursion and no loop whose body can be empty (C22).
func ruleProgress(c *Ctx, prop string, r *RuleRun) {
	g := c.recog().g
	// left-reachability
	left := make([]map[int]bool, len(g.Body))
	for i, b := range g.Body {
		left[i] = map[int]bool{}
		var rec func(e *E)
		rec = func(e *E) {
			switch e.Op {
			case OpRef:
				left[i][e.Rule] = true
			case OpSeq:
				for _, k := range e.Kids {
					rec(k)
					if _, n := g.First(k); !n {
						return
					}
				}
			default:
				for _, k := range e.Kids {
					rec(k)
				}
			}
		}
		rec(b)
	}
	for i := range g.Body {
		seen := map[int]bool{}
		var work []int
		for k := range left[i] {
			work = append(work, k)
		}
		rec := false
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if x == i {
				rec = true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			for k := range left[x] {
				work = append(work, k)
			}
		}
		r.check(!rec, "rule "+g.Rules[i]+" is not left-recursive", "RFC5322Parser.g4", "the rule can call itself without consuming a character")
		var loops func(e *E)
		loops = func(e *E) {
			if e.Op == OpStar || e.Op == OpPlus {
				_, n := g.First(e.Kids[0])
				r.check(!n, "loop "+g.Str(e)+" in rule "+g.Rules[i], "RFC5322Parser.g4", "the loop body can match nothing")
			}
			for _, k := range e.Kids {
				loops(k)
			}
		}
		loops(g.Body[i])
	}
}
