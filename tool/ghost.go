package main

import (
	"go/token"
	"strings"
)

// The specification: an attribute grammar computed alongside the program over the same syntax trees.

var ghostRules = map[string]bool{
	"fws": true, "qtext": true, "quotedChar": true, "quotedPair": true, "quotedContent": true, "quotedValue": true,
	"quotedString": true, "atom": true, "dotAtom": true, "encodedWord": true, "word": true, "unspaced": true,
	"displayName": true, "obsLocalPart": true, "localPart": true, "obsDomain": true, "domainLiteral": true, "domain": true,
	"port": true, "addrSpec": true, "obsAngleAddr": true, "angleAddr": true, "nameAddr": true, "mailbox": true,
	"day": true, "month": true, "year": true, "hour": true, "minute": true, "second": true, "offset": true, "obsZone": true,
	"dateTime": true,
}

// ghostText are the rules whose own text the specification uses.
var ghostText = map[string]bool{"fws": true, "qtext": true, "quotedChar": true, "atom": true, "dotAtom": true, "encodedWord": true,
	"unspaced": true, "domainLiteral": true, "port": true}

// ghostKids are the rules whose children the specification uses.
var ghostKids = map[string]bool{"day": true, "month": true, "year": true, "hour": true, "minute": true, "second": true, "offset": true, "obsZone": true}

var monthNames = []string{"JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"}

// obsolete zones in hours, RFC 5322 section 4.3
var obsZones = map[string]int64{"UT": 0, "UTC": 0, "GMT": 0, "EST": -5, "EDT": -4, "CST": -6, "CDT": -5, "MST": -7, "MDT": -6, "PST": -8, "PDT": -7}

func (st *State) gtop() *GF {
	g := st.ghosts[0]
	if len(g.F) == 0 {
		return nil
	}
	return g.F[len(g.F)-1]
}

func (f *GF) str(k string) VStr {
	if v, ok := f.S[k].(VStr); ok {
		return v
	}
	return VStr{}
}
func (f *GF) yes(k string) bool { v, _ := f.S[k].(VBool); return bool(v) }
func (f *GF) num(k string) VInt {
	v, _ := f.S[k].(VInt)
	return v
}

func (in *Interp) ghostEnter(st *State, r, node int) []*State {
	name := in.g.Rules[r]
	out := []*State{st}
	if ghostKids[name] {
		out = in.expandNode(st, node)
	}
	for _, s := range out {
		f := &GF{Rule: r, S: map[string]Val{}}
		if ghostText[name] {
			f.S["t"] = in.nodeText(s, node)
		}
		switch name {
		case "quotedString", "word", "displayName", "obsLocalPart", "obsDomain":
		case "dateTime":
			for _, k := range []string{"sec", "off"} {
				f.S[k] = VInt{}
			}
		}
		s.ghosts[0].F = append(s.ghosts[0].F, f)
	}
	return out
}

// digits are the values of the digit children, in order.
func (in *Interp) digits(st *State, node int) []VInt {
	var out []VInt
	for _, k := range st.nodes[node].Kids {
		if k.Rule < 0 && k.Text != nil && len(k.Text.P) == 1 {
			switch p := k.Text.P[0]; p.K {
			case 'd':
				out = append(out, p.I)
			case 'l':
				if p.Lit >= "0" && p.Lit <= "9" {
					out = append(out, iConst(int64(p.Lit[0]-'0')))
				}
			}
		}
	}
	return out
}

func decimal(ds []VInt) VInt {
	v := VInt{}
	for _, d := range ds {
		v = v.mul(10).add(d, 1)
	}
	return v
}

// letters are the letter tokens of the children.
func (in *Interp) letters(st *State, node int) string {
	s := ""
	for _, k := range st.nodes[node].Kids {
		if k.Rule < 0 && k.Tok >= 0 {
			s += in.g.TokName(k.Tok)
		}
	}
	return s
}

func (in *Interp) ghostExit(st *State, r, node int) []*State {
	g := st.ghosts[0]
	f := g.F[len(g.F)-1]
	g.F = g.F[:len(g.F)-1]
	name := in.g.Rules[r]
	p := st.gtop()
	if p == nil {
		if name == "dateTime" {
			if !dateFeasible(st, f.num("day"), f.num("month"), f.num("year")) {
				return nil
			}
			e := VStruct{}
			for _, k := range []string{"year", "month", "day", "hour", "min", "sec", "off"} {
				e.F = append(e.F, f.num(k))
			}
			g.Entries = []Val{e}
		}
		return []*State{st}
	}
	pn := in.g.Rules[p.Rule]
	set := func(k string, v Val) { p.S[k] = v }
	app := func(k string, v VStr) { p.S[k] = concat(p.str(k), v) }
	switch name {
	case "fws":
		v := applyFn("drop", []Val{f.str("t"), lit("\n\r")})
		switch pn {
		case "quotedValue":
			in.ghostParts(st, p, "v", v, "")
		case "quotedString":
			app("v", v)
		}
	case "qtext", "quotedChar":
		if pn == "quotedContent" || pn == "quotedPair" {
			set("v", f.str("t"))
		}
	case "quotedPair":
		if pn == "quotedContent" {
			set("v", f.str("v"))
		}
	case "quotedContent":
		if pn == "quotedValue" {
			in.ghostParts(st, p, "v", f.str("v"), "")
		}
	case "quotedValue":
		if pn == "quotedString" {
			app("v", in.joined(st, f, "v", ""))
		}
	case "quotedString", "atom":
		v := f.str("v")
		if name == "atom" {
			v = f.str("t")
		}
		switch pn {
		case "word":
			in.ghostParts(st, p, "v", v, "")
			in.ghostParts(st, p, "raw", v, "")
		case "localPart":
			set("v", v)
		case "obsDomain":
			in.ghostParts(st, p, "v", v, ".")
		}
	case "encodedWord":
		if pn != "word" {
			return []*State{st}
		}
		t := f.str("t")
		var out []*State
		st.tmp = append(st.tmp, t)
		for _, q := range in.pred(st, "decodable", t) {
			s := q.st
			t := s.tmp[len(s.tmp)-1].(VStr)
			s.tmp = s.tmp[:len(s.tmp)-1]
			pp := s.gtop()
			in.ghostParts(s, pp, "raw", t, "")
			if q.v.(VBool) {
				t = sFn("decoded", t)
			}
			in.ghostParts(s, pp, "v", t, "")
			pp.S["enc"] = VBool(true)
			out = append(out, s)
		}
		return out
	case "word":
		switch pn {
		case "displayName":
			w := in.joined(st, f, "v", "")
			enc := f.yes("enc")
			sep := false
			first := !p.yes("n")
			switch {
			case first:
			case p.yes("unsp"):
			case p.yes("enc") && enc:
			default:
				sep = true
			}
			p.S["n"] = VBool(true)
			p.S["unsp"] = VBool(false)
			p.S["enc"] = VBool(enc)
			old := in.joined(st, p, "v", "")
			if !sep {
				in.ghostParts(st, p, "v", w, "")
				return []*State{st}
			}
			// whether an empty first word adds a space is not specified
			var out []*State
			st.tmp = append(st.tmp, old, w)
			for _, q := range in.cmpInt(st, applyIFn("len", []Val{old}), token.EQL) {
				s := q.st
				n := len(s.tmp)
				w := s.tmp[n-1].(VStr)
				s.tmp = s.tmp[:n-2]
				if q.v.(VBool) {
					continue
				}
				in.ghostParts(s, s.gtop(), "v", lit(" "), "")
				in.ghostParts(s, s.gtop(), "v", w, "")
				out = append(out, s)
			}
			return out
		case "obsLocalPart":
			in.ghostParts(st, p, "v", in.joined(st, f, "raw", ""), ".")
		}
	case "unspaced":
		if pn == "displayName" {
			in.ghostParts(st, p, "v", f.str("t"), "")
			set("unsp", VBool(true))
		}
	case "displayName":
		if pn == "nameAddr" {
			set("name", in.joined(st, f, "v", ""))
		}
	case "dotAtom", "domainLiteral":
		v := f.str("t")
		if name == "domainLiteral" {
			v = applyFn("drop", []Val{v, lit("\n\r")})
		}
		if pn == "localPart" || pn == "domain" {
			set("v", v)
		}
	case "obsLocalPart", "obsDomain":
		v := in.joined(st, f, "v", ".")
		if pn == "localPart" || pn == "domain" {
			set("v", v)
		}
	case "localPart":
		if pn == "addrSpec" {
			set("local", f.str("v"))
		}
	case "domain":
		if pn == "addrSpec" {
			set("domain", f.str("v"))
		}
	case "port":
		if pn == "addrSpec" {
			set("port", concat(lit(":"), f.str("t")))
		}
	case "addrSpec":
		v := concat(f.str("local"), lit("@"), f.str("domain"), f.str("port"))
		set("addr", v)
	case "obsAngleAddr", "angleAddr":
		if pn == "angleAddr" || pn == "nameAddr" {
			set("addr", f.str("addr"))
		}
	case "nameAddr":
		if pn == "mailbox" {
			set("addr", f.str("addr"))
			set("name", f.str("name"))
		}
	case "mailbox":
		n, a := f.str("name"), f.str("addr")
		if in.conf.maskName {
			n = VStr{}
		}
		if in.conf.maskAddr {
			a = VStr{}
		}
		g.Entries = append(g.Entries, VStruct{[]Val{n, a}})
	case "day":
		p.S["day"] = decimal(in.digits(st, node))
	case "hour":
		v := decimal(in.digits(st, node))
		p.S["hour"] = v
		return in.invalidIf([]*State{st}, "hour", v.add(iConst(23), -1), token.GTR)
	case "minute":
		v := decimal(in.digits(st, node))
		p.S["min"] = v
		return in.invalidIf([]*State{st}, "minute", v.add(iConst(59), -1), token.GTR)
	case "second":
		v := decimal(in.digits(st, node))
		p.S["sec"] = v
		return in.invalidIf([]*State{st}, "second", v.add(iConst(60), -1), token.GTR)
	case "month":
		l := in.letters(st, node)
		for i, m := range monthNames {
			if m == l {
				p.S["month"] = iConst(int64(i + 1))
			}
		}
	case "year":
		ds := in.digits(st, node)
		y := decimal(ds)
		if len(ds) == 4 {
			p.S["year"] = y
			return in.ghostDay([]*State{st})
		}
		st.flags["year2"] = true
		st.tmp = append(st.tmp, y)
		var out []*State
		for _, q := range in.cmpInt(st, y.add(iConst(50), -1), token.LSS) {
			s := q.st
			y := s.tmp[len(s.tmp)-1].(VInt)
			s.tmp = s.tmp[:len(s.tmp)-1]
			k := int64(1900)
			if q.v.(VBool) {
				k = 2000
			}
			s.gtop().S["year"] = y.add(iConst(k), 1)
			out = append(out, s)
		}
		return in.ghostDay(out)
	case "offset":
		ds := in.digits(st, node)
		if len(ds) != 4 {
			return []*State{st}
		}
		sign := int64(1)
		for _, k := range st.nodes[node].Kids {
			if k.Rule < 0 && k.Text != nil {
				if t, ok := k.Text.isLit(); ok && t == "-" {
					sign = -1
				}
			}
		}
		m := decimal(ds[2:])
		off := decimal(ds[:2]).mul(3600).add(m, 60).mul(sign)
		p.S["off"] = off
		st.flags["zonenum"] = true
		return in.invalidIf([]*State{st}, "zone", m.add(iConst(59), -1), token.GTR)
	case "obsZone":
		if h, ok := obsZones[in.letters(st, node)]; ok {
			p.S["off"] = iConst(h * 3600)
			st.flags["zoneobs"] = true
		}
	}
	switch name {
	case "zone":
		if v, ok := f.S["off"]; ok {
			p.S["off"] = v
		}
	}
	return []*State{st}
}

// invalidIf marks the states in which v op 0 as impossible date-times.
func (in *Interp) invalidIf(ss []*State, why string, v VInt, op token.Token) []*State {
	var out []*State
	for _, s := range ss {
		if invalid(s) {
			out = append(out, s)
			continue
		}
		for _, q := range in.cmpInt(s, v, op) {
			if q.v.(VBool) {
				q.st.flags["invalid "+why] = true
			}
			out = append(out, q.st)
		}
	}
	return out
}

// ghostDay checks the day once day, month and year are known.
func (in *Interp) ghostDay(ss []*State) []*State {
	var out []*State
	for _, s := range ss {
		f := s.gtop()
		d, y, m := f.num("day"), f.num("year"), f.num("month")
		for _, x := range in.invalidIf([]*State{s}, "day 0", d.add(iConst(1), -1), token.LSS) {
			f := x.gtop()
			d, y, m = f.num("day"), f.num("year"), f.num("month")
			out = append(out, in.invalidIf([]*State{x}, "day", d.add(applyIFn("daysin", []Val{y, m}), -1), token.GTR)...)
		}
	}
	return out
}

// ghostParts adds a part to parts that belong together. They are kept both as a list and as a text: whichever of the two the
// program keeps remains tied to it when loops are generalised.
func (in *Interp) ghostParts(st *State, p *GF, k string, v VStr, sep string) {
	v = st.tidy(v)
	l, _ := p.S["l"+k].(vlist)
	p.S["l"+k] = vlist{append(append([]Val(nil), l.E...), v)}
	if sep == "" || p.yes("n") {
		v = concat(p.str(k), lit(sep), v)
	}
	if sep != "" {
		p.S["n"] = VBool(true)
	}
	p.S[k] = v
}

// joined chooses the form of the parts that the program's values are expressed in.
func (in *Interp) joined(st *State, f *GF, k, sep string) VStr {
	l, ok := f.S["l"+k].(vlist)
	if !ok {
		return f.str(k)
	}
	t := &tracer{st: st}
	t.run()
	have := map[int]bool{}
	for _, v := range t.slots[:t.spec] {
		unknowns(v, func(id int) { have[id] = true })
	}
	tied := func(v Val) bool {
		ok := true
		unknowns(v, func(id int) { ok = ok && have[id] })
		return ok
	}
	if joined := applyFn("join", []Val{l, lit(sep)}); tied(joined) {
		return joined
	}
	return f.str(k)
}

func invalid(s *State) bool {
	for k := range s.flags {
		if strings.HasPrefix(k, "invalid ") {
			return true
		}
	}
	return false
}
