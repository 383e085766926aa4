package main

import (
	"fmt"
	"sort"
	"strings"
)

// refGrammar is the current (non-obsolete) syntax of RFC 5322 section 3, with the non-ASCII characters of
// RFC 6532 and the encoded words of RFC 2047 in phrases, written over the tokens of the documented lexer.
// Rule names are prefixed so that they cannot be confused with the repository's. $comment is the recursive
// comment rule, which is treated as one symbol outside itself.
const refGrammar = `
rFWS: (rWSP* CR LF)? rWSP+ ;
rWSP: SP | TAB ;
rCFWS: (rFWS? rComment)+ rFWS? | rFWS ;
rComment: LParens (rFWS? rCcontent)* rFWS? RParens ;
rCcontent: rCtext | rQuotedPair | rComment ;
rQuotedPair: Backslash (rVchar | rWSP) ;
rAtom: rCFWS? rAtext+ rCFWS? ;
rDotAtomText: rAtext+ (Period rAtext+)* ;
rDotAtom: rCFWS? rDotAtomText rCFWS? ;
rQuotedCore: DQuote (rFWS? (rQtext | rQuotedPair))* rFWS? DQuote ;
rQuotedString: rCFWS? rQuotedCore rCFWS? ;
rWord: rAtom | rQuotedString ;
rEncodedWord: Equal Question rToken Question rToken Question rEncodedText Question Equal ;
rToken: rTokenChar+ ;
rEncodedText: rEncodedChar+ ;
rPhrase: (rWord | rCFWS? rEncodedWord rCFWS?)+ ;
rAddressList: rAddress (Comma rAddress)* EOF ;
rAddress: rMailbox | rGroup ;
rMailbox: rNameAddr | rAddrSpec ;
rNameAddr: rPhrase? rAngleAddr ;
rAngleAddr: rCFWS? Less rAddrSpec Greater rCFWS? ;
rGroup: rPhrase Colon rGroupList? Semicolon rCFWS? ;
rGroupList: rMailbox (Comma rMailbox)* | rCFWS ;
rAddrSpec: rLocalPart At rDomain ;
rLocalPart: rDotAtom | rQuotedString ;
rDomain: rDotAtom | rDomainLiteral ;
rLiteralCore: LBracket (rFWS? rDtext)* rFWS? RBracket ;
rDomainLiteral: rCFWS? rLiteralCore rCFWS? ;
rDateTime: (rDayOfWeek Comma)? rDay rMonth rYear rTimeOfDay rZone rCFWS? EOF ;
rDayOfWeek: rFWS? (M O N | T U E | W E D | T H U | F R I | S A T | S U N) ;
rDay: rFWS? Digit Digit? rFWS ;
rMonth: J A N | F E B | M A R | A P R | M A Y | J U N | J U L | A U G | S E P | O C T | N O V | D E C ;
rYear: rFWS Digit Digit Digit Digit rFWS ;
rTimeOfDay: Digit Digit Colon Digit Digit (Colon Digit Digit)? ;
rZone: rFWS (Plus | Minus) Digit Digit Digit Digit ;
rAtext: @atext ; rQtext: @qtext ; rCtext: @ctext ; rDtext: @dtext ; rVchar: @vchar ;
rTokenChar: @token ; rEncodedChar: @encoded ;
`

func ascii(parts ...any) CharSet {
	var c CharSet
	for i := 0; i < len(parts); i++ {
		switch p := parts[i].(type) {
		case string:
			for _, r := range p {
				c = append(c, Range{r, r})
			}
		case [2]int:
			c = append(c, Range{int32(p[0]), int32(p[1])})
		}
	}
	return c.norm()
}

var nonASCII = CharSet{{0x80, maxRune}}

// refClasses are the character classes of RFC 5322/6532 and RFC 2047.
var refClasses = map[string]CharSet{
	"atext":   ascii([2]int{'a', 'z'}, [2]int{'A', 'Z'}, [2]int{'0', '9'}, "!#$%&'*+-/=?^_`{|}~").Union(nonASCII),
	"ctext":   ascii([2]int{33, 39}, [2]int{42, 91}, [2]int{93, 126}).Union(nonASCII),
	"qtext":   ascii([2]int{33, 33}, [2]int{35, 91}, [2]int{93, 126}).Union(nonASCII),
	"dtext":   ascii([2]int{33, 90}, [2]int{94, 126}).Union(nonASCII),
	"vchar":   ascii([2]int{33, 126}).Union(nonASCII),
	"token":   ascii([2]int{33, 126}).Minus(ascii("()<>@,;:\\\"/[]?.=")),
	"encoded": ascii([2]int{33, 62}, [2]int{64, 126}),
}

var obsNoWSCTL = ascii([2]int{1, 8}, [2]int{11, 12}, [2]int{14, 31}, [2]int{127, 127})

// repoClasses are the character classes of the repository's grammar, each with the exact set the RFC gives it
// (with the obsolete control characters in ctext and qtext, section 4.1).
var repoClasses = map[string]CharSet{
	"atext":      refClasses["atext"],
	"ctext":      refClasses["ctext"].Union(obsNoWSCTL),
	"qtext":      refClasses["qtext"].Union(obsNoWSCTL),
	"dtext":      refClasses["dtext"],
	"vchar":      refClasses["vchar"],
	"wsp":        ascii(" \t"),
	"alpha":      ascii([2]int{'a', 'z'}, [2]int{'A', 'Z'}),
	"obsNoWSCTL": obsNoWSCTL,
}

// charsOfRule is the set of characters of a rule all of whose phrases are single characters.
func (g *Grammar) charsOf(e *E, depth int) (CharSet, error) {
	if depth > 50 {
		return nil, fmt.Errorf("recursive")
	}
	switch e.Op {
	case OpTok:
		var c CharSet
		for _, t := range e.Set.List() {
			if t == 0 {
				return nil, fmt.Errorf("contains EOF")
			}
			c = c.Union(g.Chars[t])
		}
		return c, nil
	case OpRef:
		return g.charsOf(g.Body[e.Rule], depth+1)
	case OpAlt:
		var c CharSet
		for _, k := range e.Kids {
			x, err := g.charsOf(k, depth+1)
			if err != nil {
				return nil, err
			}
			c = c.Union(x)
		}
		return c, nil
	case OpSeq:
		if len(e.Kids) == 1 {
			return g.charsOf(e.Kids[0], depth+1)
		}
	}
	return nil, fmt.Errorf("is not a single character: %s", g.Str(e))
}

// ruleClasses: each character class has exactly the characters of the RFC.
func ruleClasses(c *Ctx, prop string, r *RuleRun) {
	g := c.recog().g
	var names []string
	for n := range repoClasses {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want := repoClasses[n]
		if prop == "C23" {
			want = want.Inter(nonASCII)
			if len(want) == 0 {
				continue
			}
		}
		i, ok := g.rule(n)
		if !ok {
			r.fail("class "+n, "RFC5322Parser.g4", "the rule does not exist")
			continue
		}
		got, err := g.charsOf(g.Body[i], 0)
		if err != nil {
			r.fail("class "+n, "RFC5322Parser.g4", "%v", err)
			continue
		}
		if prop == "C23" {
			got = got.Inter(nonASCII)
		}
		r.check(got.Equal(want), "class "+n, "RFC5322Parser.g4", "lacks %s; has in addition %s", hexSet(want.Minus(got)), hexSet(got.Minus(want)))
	}
}

// charAtoms partitions the characters so that every given class is a union of parts.
func charAtoms(classes []CharSet) []CharSet {
	parts := []CharSet{allChars}
	for _, c := range classes {
		var next []CharSet
		for _, p := range parts {
			if x := p.Inter(c); len(x) > 0 {
				next = append(next, x)
			}
			if x := p.Minus(c); len(x) > 0 {
				next = append(next, x)
			}
		}
		parts = next
	}
	return parts
}

// refGrammarOver parses the reference grammar over abstract character parts.
type refInfo struct {
	parts []CharSet
	ref   *Grammar // tokens are parts, numbered from 1
	repo  *Grammar // the repository's grammar over the same parts
}

func (c *Ctx) refInfo(root string) *refInfo {
	return memo(c, "ref"+root, func() *refInfo {
		g := c.recog().g
		ri := &refInfo{}
		// classes: token sets used by the repo rules reachable from the root, and those of the reference
		var classes []CharSet
		seen := map[TokSet]bool{}
		i, ok := g.rule(root)
		if !ok {
			panic("rule " + root + " does not exist")
		}
		chars := func(s TokSet) CharSet {
			var cs CharSet
			for _, t := range s.List() {
				if t > 0 {
					cs = cs.Union(g.Chars[t])
				}
			}
			return cs
		}
		for r := range g.reach(i) {
			var rec func(e *E)
			rec = func(e *E) {
				if e.Op == OpTok && !seen[e.Set] {
					seen[e.Set] = true
					classes = append(classes, chars(e.Set))
				}
				for _, k := range e.Kids {
					rec(k)
				}
			}
			rec(g.Body[r])
		}
		// named single-character tokens of the reference, defined here independently of the lexer
		tok := map[string]CharSet{
			"SP": ascii(" "), "TAB": ascii("\t"), "CR": ascii("\r"), "LF": ascii("\n"), "LParens": ascii("("), "RParens": ascii(")"),
			"Backslash": ascii("\\"), "Period": ascii("."), "DQuote": ascii("\""), "Equal": ascii("="), "Question": ascii("?"),
			"Comma": ascii(","), "Less": ascii("<"), "Greater": ascii(">"), "Colon": ascii(":"), "Semicolon": ascii(";"), "At": ascii("@"),
			"LBracket": ascii("["), "RBracket": ascii("]"), "Plus": ascii("+"), "Minus": ascii("-"), "Digit": ascii([2]int{'0', '9'}),
		}
		for ch := 'A'; ch <= 'Z'; ch++ {
			tok[string(ch)] = ascii(string(ch), string(ch+32))
		}
		var src []string
		isDate := root == "dateTime"
		for _, part := range strings.Split(refGrammar, ";") {
			part = strings.TrimSpace(part)
			if part != "" {
				src = append(src, part)
			}
		}
		for n, cs := range tok {
			if len(n) == 1 && !isDate {
				continue // letters are only told apart by dates
			}
			classes = append(classes, cs)
		}
		for _, cs := range refClasses {
			classes = append(classes, cs)
		}
		ri.parts = charAtoms(classes)
		if len(ri.parts) > 180 {
			panic("too many character parts")
		}
		setOf := func(cs CharSet) TokSet {
			var s TokSet
			for k, p := range ri.parts {
				if len(p.Inter(cs)) > 0 {
					s.Add(k + 1)
				}
			}
			return s
		}
		names := []string{"EOF"}
		for _, p := range ri.parts {
			n := fmt.Sprintf("U+%04X", p[0].Lo)
			if p[0].Lo > 32 && p[0].Lo < 127 {
				n = fmt.Sprintf("%q", string(rune(p[0].Lo)))
			}
			names = append(names, n)
		}
		// the reference
		rg := &Grammar{RuleIdx: map[string]int{}, Tokens: names}
		type rr struct{ name, body string }
		var rs []rr
		for _, s := range src {
			k := strings.Index(s, ":")
			n := strings.TrimSpace(s[:k])
			rg.RuleIdx[n] = len(rg.Rules)
			rg.Rules = append(rg.Rules, n)
			rs = append(rs, rr{n, strings.TrimSpace(s[k+1:])})
		}
		for _, x := range rs {
			if strings.HasPrefix(x.body, "@") {
				rg.Body = append(rg.Body, eTok(setOf(refClasses[x.body[1:]])))
				continue
			}
			toks, err := g4lex(x.body)
			if err != nil {
				panic(err)
			}
			p := &g4parser{toks: toks, elem: func(n string) (*E, error) {
				if n == "EOF" {
					return eTok(tokSet(0)), nil
				}
				if cs, ok := tok[n]; ok {
					return eTok(setOf(cs)), nil
				}
				if k, ok := rg.RuleIdx[n]; ok {
					return eRef(k), nil
				}
				return nil, fmt.Errorf("undefined %s", n)
			}}
			e, err := p.alts()
			if err != nil || p.pos != len(toks) {
				panic(fmt.Sprintf("reference grammar rule %s: %v", x.name, err))
			}
			rg.Body = append(rg.Body, norm(e))
		}
		rg.analyse()
		ri.ref = rg
		// the repository's grammar over parts
		pg := &Grammar{Rules: g.Rules, RuleIdx: g.RuleIdx, Tokens: names}
		var conv func(e *E) *E
		conv = func(e *E) *E {
			o := &E{Op: e.Op, NonGreedy: e.NonGreedy, Rule: e.Rule}
			if e.Op == OpTok {
				o.Set = setOf(chars(e.Set))
				if e.Set.Has(0) {
					o.Set.Add(0)
				}
			}
			for _, k := range e.Kids {
				o.Kids = append(o.Kids, conv(k))
			}
			return o
		}
		for _, b := range g.Body {
			pg.Body = append(pg.Body, conv(b))
		}
		pg.analyse()
		ri.repo = pg
		return ri
	})
}

const absSym = 5000

// inlineNFA is the automaton of a rule with every rule expanded except those that abs maps to symbols.
func inlineNFA(g *Grammar, rule int, abs map[int][]int) *NFA {
	n := newNFA()
	n.start = n.state()
	busy := map[int]bool{}
	var add func(e *E, a int) int
	add = func(e *E, a int) int {
		switch e.Op {
		case OpRef:
			if syms := abs[e.Rule]; syms != nil {
				b := n.state()
				for _, x := range syms {
					n.edge(a, x, b)
				}
				return b
			}
			if busy[e.Rule] {
				panic("rule " + g.Rules[e.Rule] + " is recursive")
			}
			busy[e.Rule] = true
			b := add(g.Body[e.Rule], a)
			busy[e.Rule] = false
			return b
		case OpTok:
			b := n.state()
			for _, t := range e.Set.List() {
				n.edge(a, t, b)
			}
			return b
		case OpSeq:
			for _, k := range e.Kids {
				a = add(k, a)
			}
			return a
		case OpAlt:
			b := n.state()
			for _, k := range e.Kids {
				s := n.state()
				n.e(a, s)
				n.e(add(k, s), b)
			}
			return b
		case OpOpt:
			s := n.state()
			n.e(a, s)
			b := add(e.Kids[0], s)
			x := n.state()
			n.e(b, x)
			n.e(s, x)
			return x
		default:
			s := n.state()
			n.e(a, s)
			b := add(e.Kids[0], s)
			n.e(b, s)
			x := n.state()
			n.e(b, x)
			if e.Op == OpStar {
				n.e(s, x)
			}
			return x
		}
	}
	n.final[add(g.Body[rule], n.start)] = true
	if len(n.eps) > 400000 {
		panic("automaton too large")
	}
	return n
}

// ruleStrict: the strict syntax of the RFC is included in the repository's grammar (C05). The proof goes
// bottom-up: once L(reference rule) is included in L(repository rule), both are one symbol further up.
func ruleStrict(c *Ctx, prop string, r *RuleRun) {
	type pair struct{ ref, repo string }
	run := func(root string, abstract []pair, lower, upper []pair) {
		ri := c.refInfo(root)
		proved := map[pair]bool{}
		check := func(p pair, refAbs, repAbs map[int][]int) {
			ref, ok1 := ri.ref.RuleIdx[p.ref]
			rep, ok2 := ri.repo.RuleIdx[p.repo]
			if !ok1 || !ok2 {
				r.fail("rule "+p.repo, "RFC5322Parser.g4", "the rule does not exist")
				return
			}
			a, b := inlineNFA(ri.ref, ref, refAbs), inlineNFA(ri.repo, rep, repAbs)
			r.count("automaton states", len(a.eps)+len(b.eps))
			ok, w := includes(a, b)
			var ws []string
			for _, s := range w {
				if s >= absSym {
					ws = append(ws, "<"+ri.ref.Rules[s-absSym]+">")
				} else {
					ws = append(ws, ri.repo.Tokens[s])
				}
			}
			r.check(ok, "rule "+p.repo+" accepts all of "+p.ref, "RFC5322Parser.g4", "does not accept the RFC 5322 phrase: %s", strings.Join(ws, " "))
			proved[p] = ok
		}
		rc, ok1 := ri.ref.RuleIdx["rComment"]
		pc, ok2 := ri.repo.RuleIdx["comment"]
		if !ok1 || !ok2 {
			r.fail("rule comment", "RFC5322Parser.g4", "the rule does not exist")
			return
		}
		refC := map[int][]int{rc: {absSym + rc}}
		repC := map[int][]int{pc: {absSym + rc}}
		for _, p := range lower {
			check(p, refC, repC)
		}
		refA := map[int][]int{}
		repA := map[int][]int{}
		for _, p := range abstract {
			if !proved[p] {
				continue
			}
			a := ri.ref.RuleIdx[p.ref]
			b := ri.repo.RuleIdx[p.repo]
			refA[a] = []int{absSym + a}
			repA[b] = append(repA[b], absSym+a)
		}
		for _, p := range upper {
			check(p, refA, repA)
		}
	}
	space := []pair{{"rComment", "comment"}, {"rFWS", "fws"}, {"rFWS", "cfws"}, {"rCFWS", "cfws"}}
	run("addressList",
		append([]pair{{"rQuotedCore", "quotedString"}, {"rLiteralCore", "domainLiteral"}, {"rEncodedWord", "encodedWord"}}, space...),
		append([]pair{{"rQuotedPair", "quotedPair"}, {"rQuotedCore", "quotedString"}, {"rLiteralCore", "domainLiteral"}, {"rEncodedWord", "encodedWord"}}, space...),
		[]pair{{"rPhrase", "displayName"}, {"rLocalPart", "localPart"}, {"rDomain", "domain"}, {"rAddrSpec", "addrSpec"}, {"rAngleAddr", "angleAddr"},
			{"rMailbox", "mailbox"}, {"rGroup", "group"}, {"rAddress", "address"}, {"rAddressList", "addressList"}})
	run("dateTime", space, space,
		[]pair{{"rDayOfWeek", "dayOfweek"}, {"rDay", "day"}, {"rMonth", "month"}, {"rYear", "year"}, {"rZone", "zone"}, {"rDateTime", "dateTime"}})
}
