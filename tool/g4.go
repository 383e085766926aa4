package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"
)

type g4tok struct {
	kind string // id, str, set, punct
	text string
	line int
}

func g4lex(src string) ([]g4tok, error) {
	var out []g4tok
	line := 1
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r' || c == '\f':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("line %d: unterminated comment", line)
			}
			line += strings.Count(src[i:i+2+j], "\n")
			i += j + 4
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("line %d: unterminated literal", line)
			}
			out = append(out, g4tok{"str", src[i+1 : j], line})
			i = j + 1
		case c == '[':
			j := i + 1
			for j < len(src) && src[j] != ']' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("line %d: unterminated set", line)
			}
			out = append(out, g4tok{"set", src[i+1 : j], line})
			i = j + 1
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, g4tok{"id", src[i:j], line})
			i = j
		case strings.HasPrefix(src[i:], ".."):
			out = append(out, g4tok{"punct", "..", line})
			i += 2
		case strings.HasPrefix(src[i:], "->"):
			out = append(out, g4tok{"punct", "->", line})
			i += 2
		case strings.ContainsRune(":;|()?*+=~{},.", rune(c)):
			out = append(out, g4tok{"punct", string(c), line})
			i++
		default:
			return nil, fmt.Errorf("line %d: unexpected %q", line, c)
		}
	}
	return out, nil
}

// g4chars decodes the escapes of a literal or set body into code points; in sets, '-' ranges are kept as -1.
func g4chars(s string, set bool) ([]int32, error) {
	var out []int32
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+1 < len(s) {
			switch s[i+1] {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'u':
				hex := ""
				if i+2 < len(s) && s[i+2] == '{' {
					j := strings.IndexByte(s[i:], '}')
					if j < 0 {
						return nil, fmt.Errorf("bad escape in %q", s)
					}
					hex = s[i+3 : i+j]
					i += j + 1
				} else {
					if i+6 > len(s) {
						return nil, fmt.Errorf("bad escape in %q", s)
					}
					hex = s[i+2 : i+6]
					i += 6
				}
				v, err := strconv.ParseInt(hex, 16, 32)
				if err != nil {
					return nil, err
				}
				out = append(out, int32(v))
				continue
			default:
				out = append(out, int32(s[i+1]))
			}
			i += 2
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if set && r == '-' {
			out = append(out, -1)
		} else {
			out = append(out, int32(r))
		}
		i += n
	}
	return out, nil
}

func g4set(s string) (CharSet, error) {
	cs, err := g4chars(s, true)
	if err != nil {
		return nil, err
	}
	var out CharSet
	for i := 0; i < len(cs); i++ {
		if i+2 < len(cs) && cs[i+1] == -1 {
			out = append(out, Range{cs[i], cs[i+2]})
			i += 2
			continue
		}
		c := cs[i]
		if c == -1 {
			c = '-'
		}
		out = append(out, Range{c, c})
	}
	return out.norm(), nil
}

type g4rule struct {
	name string
	body *E
	line int
}

type g4parser struct {
	toks []g4tok
	pos  int
	// elem resolves an identifier.
	elem func(name string) (*E, error)
}

func (p *g4parser) peek() g4tok {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return g4tok{kind: "eof"}
}
func (p *g4parser) is(t string) bool { x := p.peek(); return x.kind == "punct" && x.text == t }
func (p *g4parser) accept(t string) bool {
	if p.is(t) {
		p.pos++
		return true
	}
	return false
}
func (p *g4parser) errf(f string, a ...any) error {
	return fmt.Errorf("grammar file line %d: %s", p.peek().line, fmt.Sprintf(f, a...))
}

func (p *g4parser) alts() (*E, error) {
	var alts []*E
	for {
		var seq []*E
		for !p.is("|") && !p.is(";") && !p.is(")") && p.peek().kind != "eof" {
			e, err := p.element()
			if err != nil {
				return nil, err
			}
			seq = append(seq, e)
		}
		alts = append(alts, eSeq(seq...))
		if !p.accept("|") {
			break
		}
	}
	// an empty alternative makes the rest optional
	var non []*E
	empty := -1
	for i, a := range alts {
		if len(a.Kids) == 0 {
			empty = i
		} else {
			non = append(non, a)
		}
	}
	if empty >= 0 && len(alts) > 1 {
		o := eOpt(eAlt(non...))
		o.NonGreedy = empty == 0
		return o, nil
	}
	return eAlt(alts...), nil
}

func (p *g4parser) element() (*E, error) {
	var e *E
	t := p.peek()
	switch {
	case t.kind == "punct" && t.text == "(":
		p.pos++
		x, err := p.alts()
		if err != nil {
			return nil, err
		}
		if !p.accept(")") {
			return nil, p.errf("expected )")
		}
		e = x
	case t.kind == "id":
		p.pos++
		if p.is("=") || p.is("+") && p.pos+1 < len(p.toks) && p.toks[p.pos+1].text == "=" {
			p.accept("+")
			p.accept("=")
			return p.element() // a label
		}
		x, err := p.elem(t.text)
		if err != nil {
			return nil, p.errf("%v", err)
		}
		e = x
	default:
		return nil, p.errf("unsupported element %q", t.text)
	}
	op := Op(-1)
	switch {
	case p.accept("?"):
		op = OpOpt
	case p.accept("*"):
		op = OpStar
	case p.accept("+"):
		op = OpPlus
	}
	if op >= 0 {
		e = &E{Op: op, Kids: []*E{e}}
		if p.accept("?") {
			e.NonGreedy = true
		}
	}
	return e, nil
}

// splitRules cuts a grammar file into (name, tokens of the body) pairs.
func splitRules(toks []g4tok) (rules []struct {
	name string
	body []g4tok
	line int
}, err error) {
	i := 0
	for i < len(toks) && toks[i].text != ";" {
		i++
	}
	i++ // past "grammar X;"
	for i < len(toks) {
		if toks[i].kind == "id" && toks[i].text == "options" || toks[i].kind == "id" && (toks[i].text == "tokens" || toks[i].text == "channels") {
			for i < len(toks) && toks[i].text != "}" {
				i++
			}
			i++
			continue
		}
		frag := false
		if toks[i].kind == "id" && toks[i].text == "fragment" {
			frag = true
			i++
		}
		if toks[i].kind != "id" || i+1 >= len(toks) || toks[i+1].text != ":" || frag {
			return nil, fmt.Errorf("grammar file line %d: unsupported construct near %q", toks[i].line, toks[i].text)
		}
		r := struct {
			name string
			body []g4tok
			line int
		}{name: toks[i].text, line: toks[i].line}
		i += 2
		for i < len(toks) && !(toks[i].kind == "punct" && toks[i].text == ";") {
			if toks[i].kind == "punct" && (toks[i].text == "{" || toks[i].text == "->") {
				return nil, fmt.Errorf("grammar file line %d: actions, predicates and commands are not supported", toks[i].line)
			}
			r.body = append(r.body, toks[i])
			i++
		}
		if i >= len(toks) {
			return nil, fmt.Errorf("grammar file: rule %s is not terminated", r.name)
		}
		i++
		rules = append(rules, r)
	}
	return rules, nil
}

// parseG4 reads the two grammar files into a Grammar.
func parseG4(lexFile, parFile string) (*Grammar, error) {
	g := &Grammar{RuleIdx: map[string]int{}, TokIdx: map[string]int{}}
	g.Tokens = []string{"EOF"}
	g.Chars = []CharSet{nil}
	src, err := os.ReadFile(lexFile)
	if err != nil {
		return nil, err
	}
	toks, err := g4lex(string(src))
	if err != nil {
		return nil, fmt.Errorf("%s: %v", lexFile, err)
	}
	rules, err := splitRules(toks)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", lexFile, err)
	}
	for _, r := range rules {
		cs, err := g4charRule(r.body)
		if err != nil {
			return nil, fmt.Errorf("%s: rule %s: %v", lexFile, r.name, err)
		}
		g.TokIdx[r.name] = len(g.Tokens)
		g.Tokens = append(g.Tokens, r.name)
		g.Chars = append(g.Chars, cs)
	}
	g.TokIdx["EOF"] = 0
	src, err = os.ReadFile(parFile)
	if err != nil {
		return nil, err
	}
	toks, err = g4lex(string(src))
	if err != nil {
		return nil, fmt.Errorf("%s: %v", parFile, err)
	}
	rules, err = splitRules(toks)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", parFile, err)
	}
	for i, r := range rules {
		if _, dup := g.RuleIdx[r.name]; dup {
			return nil, fmt.Errorf("%s: rule %s is defined twice", parFile, r.name)
		}
		g.RuleIdx[r.name] = i
		g.Rules = append(g.Rules, r.name)
	}
	for _, r := range rules {
		p := &g4parser{toks: r.body, elem: func(n string) (*E, error) {
			if t, ok := g.TokIdx[n]; ok {
				return eTok(tokSet(t)), nil
			}
			if x, ok := g.RuleIdx[n]; ok {
				return eRef(x), nil
			}
			return nil, fmt.Errorf("undefined name %s", n)
		}}
		e, err := p.alts()
		if err == nil && p.pos != len(p.toks) {
			err = p.errf("unexpected %q", p.peek().text)
		}
		if err != nil {
			return nil, fmt.Errorf("%s: rule %s: %v", parFile, r.name, err)
		}
		g.Body = append(g.Body, norm(e))
	}
	g.analyse()
	return g, nil
}

// g4charRule evaluates a lexer rule that is a choice of single characters, ranges and sets.
func g4charRule(ts []g4tok) (CharSet, error) {
	var out CharSet
	i := 0
	one := func() (int32, error) {
		cs, err := g4chars(ts[i].text, false)
		if err != nil {
			return 0, err
		}
		if len(cs) != 1 {
			return 0, fmt.Errorf("literal %q is not one character", ts[i].text)
		}
		i++
		return cs[0], nil
	}
	for i < len(ts) {
		switch ts[i].kind {
		case "str":
			lo, err := one()
			if err != nil {
				return nil, err
			}
			hi := lo
			if i < len(ts) && ts[i].text == ".." && i+1 < len(ts) && ts[i+1].kind == "str" {
				i++
				if hi, err = one(); err != nil {
					return nil, err
				}
			}
			out = append(out, Range{lo, hi})
		case "set":
			c, err := g4set(ts[i].text)
			if err != nil {
				return nil, err
			}
			out = append(out, c...)
			i++
		default:
			return nil, fmt.Errorf("unsupported %q in a lexer rule", ts[i].text)
		}
		if i < len(ts) {
			if ts[i].kind != "punct" || ts[i].text != "|" {
				return nil, fmt.Errorf("lexer rule is not a choice of single characters")
			}
			i++
			if i == len(ts) {
				return nil, fmt.Errorf("empty alternative")
			}
		}
	}
	return out.norm(), nil
}
