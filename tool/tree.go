package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The recogniser's side of the analysis: every syntax tree of the grammar, walked abstractly.

// runConf says which analysis is made.
type runConf struct {
	name        string
	fn          string // the parse function
	rule        string // its start rule
	ghost       bool   // compare with the specification
	plainDecode bool   // decoded text is replaced by a harmless constant (only its flow matters)
	noComments  bool   // only inputs without comments
	upper       bool   // only inputs whose letters are upper case
	attrs       bool   // track what characters texts can contain
	maskName    bool
	maskAddr    bool
	noCFWS      bool // only inputs without comments and (but for the date syntax) white space between tokens
	noEncoded   bool // only inputs without encoded words
	noQuoted    bool // only inputs without quoted strings
}

// textInfo describes the texts of a rule.
type textInfo struct {
	cs       CharSet
	min, max int64
	paired   bool
	comment  bool
}

var debugRule = os.Getenv("VERIF_RULE")
var debugOn = os.Getenv("VERIF_DEBUG") != ""

type restart struct{ rule int }

func newInterp(c *Ctx, conf runConf) *Interp {
	in := &Interp{c: c, p: c.P, g: c.recog().g, limit: 60_000_000, reports: map[string]*Report{}, conf: conf,
		stat: map[string]int{}, ruleOf: map[string]int{}, ctxType: map[int]*types.Named{}, expand: map[int]bool{}, noExpand: map[int]bool{}}
	in.g = sliceGrammar(in.g, conf)
	in.prepare()
	return in
}

// sliceGrammar removes what the configuration leaves out.
func sliceGrammar(g *Grammar, conf runConf) *Grammar {
	drop := map[int]bool{}
	off := func(on bool, names ...string) {
		if on {
			for _, n := range names {
				if i, ok := g.rule(n); ok {
					drop[i] = true
				}
			}
		}
	}
	off(conf.noComments, "comment")
	off(conf.noCFWS, "cfws")
	off(conf.noEncoded, "encodedWord")
	off(conf.noQuoted, "quotedString")
	if len(drop) == 0 && !conf.upper {
		return g
	}
	// void: the expression has no phrases
	void := map[int]bool{}
	for k := range drop {
		void[k] = true
	}
	var isVoid func(e *E) bool
	isVoid = func(e *E) bool {
		switch e.Op {
		case OpRef:
			return void[e.Rule]
		case OpSeq:
			for _, k := range e.Kids {
				if isVoid(k) {
					return true
				}
			}
		case OpAlt:
			for _, k := range e.Kids {
				if !isVoid(k) {
					return false
				}
			}
			return true
		case OpPlus:
			return isVoid(e.Kids[0])
		}
		return false
	}
	for ch := true; ch; {
		ch = false
		for i, b := range g.Body {
			if !void[i] && isVoid(b) {
				void[i] = true
				ch = true
			}
		}
	}
	empty := &E{Op: OpSeq}
	var cut func(e *E) *E
	cut = func(e *E) *E {
		if e.Op == OpTok || e.Op == OpRef {
			return e
		}
		if (e.Op == OpOpt || e.Op == OpStar) && isVoid(e.Kids[0]) {
			return empty
		}
		n := &E{Op: e.Op, NonGreedy: e.NonGreedy}
		for _, k := range e.Kids {
			if e.Op == OpAlt && isVoid(k) {
				continue
			}
			n.Kids = append(n.Kids, cut(k))
		}
		return n
	}
	n := *g
	n.Body = nil
	for i, b := range g.Body {
		if void[i] {
			n.Body = append(n.Body, b)
		} else {
			n.Body = append(n.Body, norm(cut(b)))
		}
	}
	if conf.upper {
		n.Chars = nil
		for _, c := range g.Chars {
			if c.Size() == 2 && c[0].Lo >= 'A' && c[0].Lo <= 'Z' {
				c = CharSet{{c[0].Lo, c[0].Lo}}
			}
			n.Chars = append(n.Chars, c)
		}
	}
	n.analyse()
	return &n
}

func capital(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

func (in *Interp) prepare() {
	g := in.g
	for i, n := range g.Rules {
		tn := capital(n) + "Context"
		if m, ok := in.p.ParS.Members[tn].(*ssa.Type); ok {
			if nt, ok := m.Type().(*types.Named); ok {
				in.ctxType[i] = nt
				in.ruleOf[tn] = i
			}
		}
	}
	in.texts = make([]textInfo, len(g.Rules))
	start, ok := g.rule(in.conf.rule)
	if !ok {
		panic("grammar rule " + in.conf.rule + " does not exist")
	}
	in.reachable = g.reach(start)
	// texts by fixpoint
	const unset = int64(-1)
	min := make([]int64, len(g.Rules))
	for i := range min {
		min[i] = inf
	}
	var emin func(e *E) int64
	emin = func(e *E) int64 {
		switch e.Op {
		case OpTok:
			if e.Set.Has(0) && e.Set.Len() == 1 {
				return 0
			}
			return 1
		case OpRef:
			return min[e.Rule]
		case OpSeq:
			var n int64
			for _, k := range e.Kids {
				n = addSat(n, emin(k))
			}
			return n
		case OpAlt:
			n := inf
			for _, k := range e.Kids {
				if m := emin(k); m < n {
					n = m
				}
			}
			return n
		case OpPlus:
			return emin(e.Kids[0])
		}
		return 0
	}
	for ch := true; ch; {
		ch = false
		for i, b := range g.Body {
			if n := emin(b); n < min[i] {
				min[i] = n
				ch = true
			}
		}
	}
	var emax func(e *E, open map[int]bool) int64
	emax = func(e *E, open map[int]bool) int64 {
		switch e.Op {
		case OpTok:
			if e.Set.Has(0) && e.Set.Len() == 1 {
				return 0
			}
			return 1
		case OpRef:
			if open[e.Rule] {
				return inf
			}
			open[e.Rule] = true
			n := emax(g.Body[e.Rule], open)
			delete(open, e.Rule)
			return n
		case OpSeq:
			var n int64
			for _, k := range e.Kids {
				n = addSat(n, emax(k, open))
			}
			return n
		case OpAlt:
			var n int64
			for _, k := range e.Kids {
				if m := emax(k, open); m > n {
					n = m
				}
			}
			return n
		case OpOpt:
			return emax(e.Kids[0], open)
		}
		return inf
	}
	cr, lf := in.charTok('\r'), in.charTok('\n')
	for i := range g.Rules {
		t := &in.texts[i]
		t.min = min[i]
		t.max = emax(eRef(i), map[int]bool{})
		if t.max > inf {
			t.max = inf
		}
		var toks TokSet
		for r := range g.reach(i) {
			var rec func(e *E)
			rec = func(e *E) {
				if e.Op == OpTok {
					toks = toks.Union(e.Set)
				}
				for _, k := range e.Kids {
					rec(k)
				}
			}
			rec(g.Body[r])
			if g.Rules[r] == "comment" {
				t.comment = true
			}
		}
		for _, k := range toks.List() {
			if k > 0 {
				t.cs = t.cs.Union(g.Chars[k])
			}
		}
		t.paired = in.pairedRule(i, cr, lf)
	}
	// recursion heads
	in.heads = map[int]bool{}
	color := map[int]int{}
	var dfs func(r int)
	dfs = func(r int) {
		color[r] = 1
		refs(g.Body[r], func(k int) {
			switch color[k] {
			case 0:
				dfs(k)
			case 1:
				in.heads[k] = true
			}
		})
		color[r] = 2
	}
	dfs(start)
	// rules expanded into their children when entered
	if i, ok := g.rule("dateTime"); ok && i == start {
		for r := range in.reachable {
			if r == start || !hasTok(g.Body[r]) {
				continue
			}
			seqs, ok := in.sequences(g.Body[r])
			if !ok {
				continue
			}
			single := true
			for _, s := range seqs {
				if len(s) != 1 || s[0].Rule >= 0 {
					single = false
				}
			}
			if !single {
				in.expand[r] = true
			}
		}
	}
}

func hasTok(e *E) bool {
	if e.Op == OpTok {
		return true
	}
	for _, k := range e.Kids {
		if hasTok(k) {
			return true
		}
	}
	return false
}

func (in *Interp) charTok(ch int32) int {
	for t := 1; t < len(in.g.Chars); t++ {
		if in.g.Chars[t].Has(ch) {
			return t
		}
	}
	return -1
}

// pairedRule says that in every text of the rule CR and LF occur only as CR LF: every token sequence "CR LF" is
// matched within one sequence, and neither occurs elsewhere.
func (in *Interp) pairedRule(r, cr, lf int) bool {
	ok := true
	for k := range in.g.reach(r) {
		var rec func(e *E)
		rec = func(e *E) {
			switch e.Op {
			case OpTok:
				if e.Set.Has(cr) || e.Set.Has(lf) {
					ok = false
				}
			case OpSeq:
				for i := 0; i < len(e.Kids); i++ {
					x := e.Kids[i]
					if x.Op == OpTok && x.Set == tokSet(cr) && i+1 < len(e.Kids) && e.Kids[i+1].Op == OpTok && e.Kids[i+1].Set == tokSet(lf) {
						i++
						continue
					}
					rec(x)
				}
			default:
				for _, x := range e.Kids {
					rec(x)
				}
			}
		}
		rec(in.g.Body[k])
	}
	return ok
}

// sequences lists the child sequences of a rule body, if they are few.
func (in *Interp) sequences(e *E) ([][]Kid, bool) {
	var rec func(e *E) ([][]Kid, bool)
	rec = func(e *E) ([][]Kid, bool) {
		switch e.Op {
		case OpTok:
			l := e.Set.List()
			if len(l) > 3 {
				return [][]Kid{{{Tok: -2, Rule: -1, Set: e.Set}}}, true
			}
			var out [][]Kid
			for _, t := range l {
				out = append(out, []Kid{{Tok: t, Rule: -1}})
			}
			return out, true
		case OpRef:
			return [][]Kid{{{Tok: -1, Rule: e.Rule}}}, true
		case OpSeq:
			cur := [][]Kid{nil}
			for _, k := range e.Kids {
				s, ok := rec(k)
				if !ok {
					return nil, false
				}
				var next [][]Kid
				for _, a := range cur {
					for _, b := range s {
						next = append(next, append(append([]Kid(nil), a...), b...))
					}
				}
				if len(next) > 64 {
					return nil, false
				}
				cur = next
			}
			return cur, true
		case OpAlt:
			var out [][]Kid
			for _, k := range e.Kids {
				s, ok := rec(k)
				if !ok {
					return nil, false
				}
				out = append(out, s...)
			}
			return out, true
		case OpOpt:
			s, ok := rec(e.Kids[0])
			return append([][]Kid{nil}, s...), ok
		}
		return nil, false
	}
	s, ok := rec(e)
	if !ok {
		return nil, false
	}
	seen := map[string]bool{}
	var out [][]Kid
	for _, k := range s {
		key := ""
		for _, x := range k {
			key += fmt.Sprintf("%d/%d/%v,", x.Tok, x.Rule, x.Set)
		}
		if !seen[key] {
			seen[key] = true
			out = append(out, k)
		}
	}
	return out, len(out) <= 40
}

// newNode makes a syntax-tree node.
func (st *State) newNode(r int) int {
	id := st.id()
	st.nodes[id] = &Node{Rule: r}
	return id
}

// expandNode forks into the possible child sequences of a node.
func (in *Interp) expandNode(st *State, id int) []*State {
	n := st.nodes[id]
	if n.Exp {
		return []*State{st}
	}
	seqs, ok := in.sequences(in.g.Body[n.Rule])
	if !ok {
		panic(undecided{"the children of " + in.g.Rules[n.Rule] + " are examined, which can be any number"})
	}
	if n.Text != nil {
		panic(restart{n.Rule})
	}
	var out []*State
	for i, s := range seqs {
		x := st
		if i < len(seqs)-1 {
			x = st.clone()
		}
		m := &Node{Rule: n.Rule, Exp: true}
		for _, k := range s {
			if k.Rule < 0 {
				var t VStr
				if k.Tok == -2 {
					t = in.tokText(x, k.Set)
				} else {
					t = in.tokText(x, tokSet(k.Tok))
				}
				k.Text = &t
			}
			m.Kids = append(m.Kids, k)
		}
		x.nodes[id] = m
		out = append(out, x)
	}
	return out
}

func (in *Interp) tokText(st *State, set TokSet) VStr {
	if set == tokSet(0) {
		return lit("<EOF>")
	}
	var cs CharSet
	for _, t := range set.List() {
		if t > 0 {
			cs = cs.Union(in.g.Chars[t])
		}
	}
	if cs.Equal(CharSet{{'0', '9'}}) {
		return sDigit(st.newInt(0, 9))
	}
	if cs.Size() == 1 {
		return lit(string(rune(cs[0].Lo)))
	}
	return st.newStr(SAttr{CS: cs, Min: 1, Max: 1, Paired: !cs.Has('\r') && !cs.Has('\n'), Taint: in.taint(st)})
}

func (in *Interp) taint(st *State) int {
	t := 0
	for r, n := range st.depth {
		if n > 0 && in.g.Rules[r] == "comment" {
			t |= taintComment
		}
	}
	return t
}

// ruleText is a fresh text of a rule.
func (in *Interp) ruleText(st *State, r int) VStr {
	t := in.texts[r]
	if t.max == 1 && t.min == 1 && t.cs.Equal(CharSet{{'0', '9'}}) {
		return sDigit(st.newInt(0, 9))
	}
	if t.max == 1 && t.min == 1 && t.cs.Size() == 1 {
		return lit(string(rune(t.cs[0].Lo)))
	}
	a := SAttr{CS: t.cs, Min: t.min, Max: t.max, Paired: t.paired, Taint: in.taint(st)}
	if t.comment {
		a.Taint |= taintComment
	}
	return st.newStr(a)
}

func (in *Interp) nodeText(st *State, id int) VStr {
	n := st.nodes[id]
	if n == nil {
		return unknownStr(st)
	}
	if n.Text != nil {
		return *n.Text
	}
	m := *n
	m.Kids = append([]Kid(nil), n.Kids...)
	var t VStr
	if n.Exp {
		for i := range m.Kids {
			k := &m.Kids[i]
			if k.Text == nil {
				x := in.ruleText(st, k.Rule)
				if k.Node != 0 {
					x = in.nodeText(st, k.Node)
				}
				k.Text = &x
			}
			t = concat(t, *k.Text)
		}
	} else {
		t = in.ruleText(st, n.Rule)
	}
	m.Text = &t
	st.nodes[id] = &m
	return t
}

func (in *Interp) nodeIface(st *State, id int) Val {
	n := st.nodes[id]
	if n == nil || in.ctxType[n.Rule] == nil {
		return st.opaque("node")
	}
	return VIface{types.NewPointer(in.ctxType[n.Rule]), VNode{id}}
}

// kidVal is the child of an expanded node.
func (in *Interp) kidVal(st *State, id, i int) Val {
	n := st.nodes[id]
	k := n.Kids[i]
	if k.Rule < 0 {
		if t := in.antType("TerminalNodeImpl"); t != nil {
			return VIface{types.NewPointer(t), VTok{id, i}}
		}
		return VTok{id, i}
	}
	if k.Node == 0 {
		k.Node = st.newNode(k.Rule)
		st.nodes[k.Node].Text = k.Text
		m := *n
		m.Kids = append([]Kid(nil), n.Kids...)
		m.Kids[i] = k
		st.nodes[id] = &m
	}
	return in.nodeIface(st, k.Node)
}

func (in *Interp) antType(n string) types.Type {
	if m, ok := in.p.AntS.Members[n].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}

func (in *Interp) mkSlice(st *State, el types.Type, es []Val) Val {
	if el == nil {
		el = types.Universe.Lookup("any").Type()
	}
	id := st.alloc(types.NewSlice(el), VArr{es})
	return VSlice{id, VInt{}, iConst(int64(len(es)))}
}

// withKids runs f on the states in which the children of a node are known.
func (in *Interp) withKids(st *State, id int, f func(*State) []Res) []Res {
	n := st.nodes[id]
	if n == nil {
		panic(undecided{"children of a node that was left"})
	}
	if n.Exp {
		return f(st)
	}
	fresh := false
	for _, s := range st.stack {
		if s == id {
			fresh = !st.flags[fmt.Sprintf("left %d", id)]
		}
	}
	onTop := len(st.stack) > 0 && st.stack[len(st.stack)-1] == id
	if st.entering != id || !onTop || !fresh {
		if in.expand[n.Rule] {
			panic(undecided{"children of " + in.g.Rules[n.Rule] + " examined before it is entered"})
		}
		panic(restart{n.Rule})
	}
	var out []Res
	for _, x := range in.expandNode(st, id) {
		out = append(out, f(x)...)
	}
	return out
}

// handleMethod models the methods of syntax-tree nodes, tokens and recognisers.
func (in *Interp) handleMethod(st *State, h Val, name string, args []Val) ([]Res, bool) {
	str := types.Typ[types.String]
	_ = str
	switch x := h.(type) {
	case VNode:
		switch name {
		case "GetText":
			return one(st, in.nodeText(st, x.ID)), true
		case "GetRuleIndex":
			return one(st, iConst(int64(st.nodes[x.ID].Rule))), true
		case "GetRuleContext", "GetPayload":
			return one(st, in.nodeIface(st, x.ID)), true
		case "GetParent":
			for i, id := range st.stack {
				if id == x.ID {
					if i == 0 {
						return one(st, VNil{}), true
					}
					return one(st, in.nodeIface(st, st.stack[i-1])), true
				}
			}
			for _, id := range st.stack {
				for _, k := range st.nodes[id].Kids {
					if k.Node == x.ID {
						return one(st, in.nodeIface(st, id)), true
					}
				}
			}
			return one(st, st.opaque("parent")), true
		case "GetChildCount":
			return in.withKids(st, x.ID, func(s *State) []Res { return one(s, iConst(int64(len(s.nodes[x.ID].Kids)))) }), true
		case "GetChildren":
			return in.withKids(st, x.ID, func(s *State) []Res {
				var es []Val
				for i := range s.nodes[x.ID].Kids {
					es = append(es, in.kidVal(s, x.ID, i))
				}
				return one(s, in.mkSlice(s, in.antType("Tree"), es))
			}), true
		case "GetChild":
			return in.withKids(st, x.ID, func(s *State) []Res {
				c, ok := constArg(args, 0)
				if !ok {
					return one(s, s.opaque("child"))
				}
				if c < 0 || int(c) >= len(s.nodes[x.ID].Kids) {
					return one(s, VNil{})
				}
				return one(s, in.kidVal(s, x.ID, int(c)))
			}), true
		case "GetTokens":
			return in.withKids(st, x.ID, func(s *State) []Res {
				var es []Val
				for i, k := range s.nodes[x.ID].Kids {
					if c, ok := constArg(args, 0); ok && k.Rule < 0 && int64(k.Tok) == c {
						es = append(es, in.kidVal(s, x.ID, i))
					}
				}
				return one(s, in.mkSlice(s, in.antType("TerminalNode"), es))
			}), true
		case "GetToken":
			return in.withKids(st, x.ID, func(s *State) []Res {
				n, ok := constArg(args, 1)
				tt, ok2 := constArg(args, 0)
				if !ok || !ok2 {
					return one(s, s.opaque("token"))
				}
				for i, k := range s.nodes[x.ID].Kids {
					if k.Rule < 0 && int64(k.Tok) == tt {
						if n == 0 {
							return one(s, in.kidVal(s, x.ID, i))
						}
						n--
					}
				}
				return one(s, VNil{})
			}), true
		case "GetTypedRuleContext", "GetTypedRuleContexts":
			panic(undecided{"GetTypedRuleContext is used"})
		case "GetStart", "GetStop", "GetParser", "GetSourceInterval", "GetAltNumber", "GetException", "GetInvokingState":
			return one(st, st.opaque(name)), true
		case "ToStringTree", "String":
			return one(st, unknownStr(st)), true
		case "IsEmpty":
			return one(st, st.opaque(name)), true
		}
		return nil, false
	case VTok:
		switch name {
		case "GetText", "String":
			if n := st.nodes[x.Node]; n != nil && x.Idx < len(n.Kids) && n.Kids[x.Idx].Text != nil {
				return one(st, *n.Kids[x.Idx].Text), true
			}
			return one(st, unknownStr(st)), true
		case "GetSymbol", "GetPayload":
			if t := in.antType("CommonToken"); t != nil {
				return one(st, VIface{types.NewPointer(t), VSym{x.Node, x.Idx}}), true
			}
		case "GetParent":
			return one(st, in.nodeIface(st, x.Node)), true
		case "GetChildCount":
			return one(st, VInt{}), true
		case "GetChildren":
			return one(st, VNil{}), true
		}
		return one(st, st.opaque("terminal node "+name)), true
	case VSym:
		n := st.nodes[x.Node]
		switch name {
		case "GetText":
			return in.handleMethod(st, VTok(x), name, args)
		case "GetTokenType":
			if n != nil && n.Kids[x.Idx].Tok >= 0 {
				return one(st, iConst(int64(n.Kids[x.Idx].Tok))), true
			}
			return one(st, st.newInt(-1, 500)), true
		case "GetStart", "GetStop", "GetLine", "GetColumn", "GetTokenIndex", "GetChannel":
			return one(st, st.newInt(-1, inf)), true
		}
		return one(st, st.opaque("token "+name)), true
	case VExt:
		e, ok := st.heap[x.Obj].V.(*extObj)
		if !ok {
			return nil, false
		}
		switch {
		case name == "RemoveErrorListeners":
			st.heap[x.Obj] = &Obj{st.heap[x.Obj].Typ, &extObj{Kind: e.Kind, A: e.A}}
			return one(st, VTuple{}), true
		case name == "AddErrorListener":
			st.heap[x.Obj] = &Obj{st.heap[x.Obj].Typ, &extObj{Kind: e.Kind, A: e.A, L: append(append([]Val(nil), e.L...), args[0])}}
			return one(st, VTuple{}), true
		case e.Kind == "tokens" && (name == "Fill" || name == "GetText" || name == "Size"), strings.HasPrefix(name, "Get") && (e.Kind == "lexer" || e.Kind == "parser") && name != "GetAllTokens" && name != "GetErrorListenerDispatch",
			name == "Size" && e.Kind == "input":
			if name == "Fill" {
				return one(st, VTuple{}), true
			}
			return one(st, st.opaque(name)), true
		case name == "Walk" && e.Kind == "walker":
			return in.walkModel(st, args[0], args[1]), true
		}
		// start rules are handled by recogniserCall; methods of the generated recogniser are not antlr's
		if e.Kind == "parser" {
			if _, ok := in.startRule(name); ok {
				return in.parse(st, x, name), true
			}
		}
		in.report("config", "call of "+name+" in "+st.top().fn.String(), in.p.Pos(st.top().fn.Pos()), st, "%s is called on the %s; it may change what is recognised", name, e.Kind)
		return one(st, st.opaque(name)), true
	}
	return nil, false
}

func (in *Interp) startRule(method string) (int, bool) {
	for i, n := range in.g.Rules {
		if capital(n) == method {
			return i, true
		}
	}
	return 0, false
}

// recogniserCall models the constructors and the start rules of the generated recogniser.
func (in *Interp) recogniserCall(st *State, fn *ssa.Function, args []Val) ([]Res, bool) {
	sig := fn.Signature
	if sig.Recv() == nil {
		if strings.HasPrefix(fn.Name(), "New") && sig.Results().Len() == 1 && len(args) == 1 {
			if p, ok := sig.Results().At(0).Type().(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok {
					kind := ""
					switch {
					case strings.HasSuffix(n.Obj().Name(), "Lexer"):
						kind = "lexer"
					case strings.HasSuffix(n.Obj().Name(), "Parser"):
						kind = "parser"
					}
					if kind != "" {
						a := args[0]
						if i, ok := a.(VIface); ok {
							a = i.V
						}
						return one(st, VExt{st.alloc(nil, &extObj{Kind: kind, L: []Val{VUser{"console"}}, A: []Val{a}})}), true
					}
				}
			}
		}
		if strings.HasSuffix(fn.Name(), "Init") {
			return one(st, VTuple{}), true
		}
		return nil, false
	}
	if len(args) > 0 {
		if x, ok := args[0].(VExt); ok {
			return in.handleMethod(st, x, fn.Name(), args[1:])
		}
	}
	return nil, false
}

// parse models a start rule: the input is rejected (and every listener is told) or recognised.
func (in *Interp) parse(st *State, parser VExt, rule string) []Res {
	r, _ := in.startRule(rule)
	where := st.top().fn
	pos := in.p.Pos(where.Pos())
	if in.g.Rules[r] != in.conf.rule {
		in.report("config", "start rule of "+where.String(), pos, st, "recognition starts at rule %s instead of %s", in.g.Rules[r], in.conf.rule)
	}
	if st.flags["parsed"] {
		in.report("config", "second recognition in "+where.String(), pos, st, "the input is recognised twice in one call")
	}
	pe, _ := st.heap[parser.Obj].V.(*extObj)
	var lexer *extObj
	if pe != nil && len(pe.A) > 0 {
		if ts, ok := pe.A[0].(VExt); ok {
			if te, ok := st.heap[ts.Obj].V.(*extObj); ok && len(te.A) > 0 {
				if l, ok := te.A[0].(VExt); ok {
					lexer, _ = st.heap[l.Obj].V.(*extObj)
				}
			}
		}
	}
	if lexer == nil || lexer.Kind != "lexer" {
		in.report("config", "recogniser of "+where.String(), pos, st, "the parser does not read the tokens of a lexer made in this call")
		lexer = &extObj{}
	}
	mk := func(s *State) Val {
		id := s.newNode(r)
		return in.nodeIface(s, id)
	}
	var out []Res
	// rejected
	type step struct{ ls []Val }
	lexFails := !in.lexTotal()
	scen := [][][]Val{{pe.L}, {pe.L, pe.L}}
	if lexFails {
		scen = append(scen, [][]Val{lexer.L}, [][]Val{lexer.L, pe.L})
	}
	for _, sc := range scen {
		s := st.clone()
		s.flags["parsed"], s.flags["bad"] = true, true
		s.note("the recogniser rejects the input")
		cur := []Res{{st: s}}
		for _, ls := range sc {
			for _, l := range ls {
				if u, ok := l.(VUser); ok && u.Name == "console" {
					in.report("console", "recogniser of "+where.String(), pos, st, "the console error listener is still attached: rejected input is reported on standard error")
					continue
				}
				var next []Res
				for _, c := range cur {
					if c.pan != nil {
						next = append(next, c)
						continue
					}
					next = append(next, in.notify(c.st, l, "SyntaxError")...)
				}
				cur = next
			}
		}
		for _, c := range cur {
			if c.pan == nil {
				c.v = mk(c.st)
			}
			out = append(out, c)
		}
	}
	// recognised; ambiguity reports may be made
	st.flags["parsed"] = true
	cur := []Res{{st: st}}
	for _, l := range pe.L {
		if u, ok := l.(VUser); ok && u.Name == "console" {
			continue
		}
		for _, m := range []string{"ReportAmbiguity", "ReportAttemptingFullContext", "ReportContextSensitivity"} {
			if in.inertMethod(l, m) {
				continue
			}
			var next []Res
			for _, c := range cur {
				next = append(next, Res{st: c.st.clone()})
				next = append(next, in.notify(c.st, l, m)...)
			}
			cur = next
		}
	}
	for _, c := range cur {
		if c.pan == nil {
			c.v = mk(c.st)
		}
		out = append(out, c)
	}
	return out
}

func (in *Interp) lexTotal() bool {
	return memo(in.c, "lexTotal", func() bool {
		g := in.c.recog().g
		var all CharSet
		for t := 1; t < len(g.Tokens); t++ {
			all = all.Union(g.Chars[t])
		}
		return len(allChars.Minus(all).Minus(CharSet{{0xD800, 0xDFFF}})) == 0
	})
}

// notify calls a method of an error listener with unknown arguments.
func (in *Interp) notify(st *State, l Val, method string) []Res {
	i, ok := l.(VIface)
	if !ok {
		if _, isNil := l.(VNil); isNil {
			return []Res{{st: st, pan: &PanicInfo{Why: "a nil error listener is called"}}}
		}
		return []Res{{st: st}}
	}
	fn := in.p.SSA.LookupMethod(i.T, nil, method)
	if fn == nil {
		panic(undecided{"error listener without " + method})
	}
	args := []Val{i.V}
	ps := fn.Signature.Params()
	for k := 0; k < ps.Len(); k++ {
		v := in.unknownOf(st, ps.At(k).Type(), "argument of "+method)
		// The recogniser and the token are there always, the exception is not.
		if k < 2 && types.IsInterface(ps.At(k).Type()) {
			a := []Val{v}
			st.preds[predKey("nil", a)] = Pred{"nil", a, false}
		}
		args = append(args, v)
	}
	return in.callFn(st, fn, args, nil)
}

// inertMethod says that a method of the listener does nothing.
func (in *Interp) inertMethod(l Val, method string) bool {
	i, ok := l.(VIface)
	if !ok {
		return false
	}
	fn := in.p.SSA.LookupMethod(i.T, nil, method)
	return fn != nil && in.inertFn(fn, 0)
}

func (in *Interp) inertFn(fn *ssa.Function, depth int) bool {
	if depth > 4 || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		if len(b.Preds) > 0 && len(fn.Blocks) > 1 {
			return false
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.FieldAddr, *ssa.Field, *ssa.Return, *ssa.DebugRef:
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return false
				}
			case *ssa.Call:
				c := x.Call.StaticCallee()
				if c == nil || !in.inertFn(c, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// treeWalk is one walk of the tree with one listener.
type treeWalk struct {
	in     *Interp
	l      VIface
	enter  map[int]*ssa.Function
	exit   map[int]*ssa.Function
	active map[int]bool
	every  bool
	pans   map[string]Res
	porder []string
	sums   map[string]*summary
}

// walkModel models antlr.ParseTreeWalker.Walk.
func (in *Interp) walkModel(st *State, listener, tree Val) []Res {
	where := st.top().fn
	pos := in.p.Pos(where.Pos())
	l, ok := listener.(VIface)
	if !ok {
		panic(undecided{"the tree is walked with an unknown listener"})
	}
	ti, _ := tree.(VIface)
	n, ok := ti.V.(VNode)
	if !ok {
		panic(undecided{"something other than the recognised tree is walked"})
	}
	if st.flags["bad"] {
		in.report("badtree", "walk in "+where.String(), pos, st, "the tree of rejected input is walked; it is incomplete")
		return one(st, VTuple{})
	}
	if st.flags["walked"] {
		in.report("undecided", "second walk in "+where.String(), pos, st, "the tree is walked twice")
	}
	st.flags["walked"] = true
	t := &treeWalk{in: in, l: l, enter: map[int]*ssa.Function{}, exit: map[int]*ssa.Function{}, active: map[int]bool{}, pans: map[string]Res{}, sums: map[string]*summary{}}
	g := in.g
	for r := range in.reachable {
		nt := in.ctxType[r]
		if nt == nil {
			panic(undecided{"no context type for rule " + g.Rules[r]})
		}
		pt := types.NewPointer(nt)
		t.enter[r] = in.p.SSA.LookupMethod(pt, nil, "EnterRule")
		t.exit[r] = in.p.SSA.LookupMethod(pt, nil, "ExitRule")
		if in.inertCallback(t.enter[r], l) {
			t.enter[r] = nil
		}
		if in.inertCallback(t.exit[r], l) {
			t.exit[r] = nil
		}
		if t.enter[r] != nil || t.exit[r] != nil || in.conf.ghost && ghostRules[g.Rules[r]] {
			t.active[r] = true
		}
	}
	for _, m := range []string{"EnterEveryRule", "ExitEveryRule", "VisitTerminal"} {
		if !in.inertMethod(l, m) {
			panic(undecided{m + " of the listener is not empty"})
		}
	}
	for ch := true; ch; {
		ch = false
		for r := range in.reachable {
			if !t.active[r] {
				refs(g.Body[r], func(k int) {
					if t.active[k] && !t.active[r] {
						t.active[r] = true
						ch = true
					}
				})
			}
		}
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		var s []string
		for r := range t.active {
			s = append(s, g.Rules[r])
		}
		sort.Strings(s)
		fmt.Fprintln(os.Stderr, "active:", s)
	}
	root := n.ID
	var out []Res
	rule := st.nodes[root].Rule
	delete(st.nodes, root)
	for _, x := range t.visitRaw(st, rule, -1) {
		out = append(out, Res{st: x, v: VTuple{}})
	}
	for _, k := range t.porder {
		out = append(out, t.pans[k])
	}
	return out
}

// inertCallback says that a context's EnterRule or ExitRule does nothing for this listener.
func (in *Interp) inertCallback(fn *ssa.Function, l VIface) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	inert := true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.TypeAssert, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeInterface:
			case *ssa.Call:
				if !x.Call.IsInvoke() {
					return false
				}
				m := in.p.SSA.LookupMethod(l.T, x.Call.Method.Pkg(), x.Call.Method.Name())
				if m == nil {
					inert = false // not a listener of this grammar: the call cannot happen or fails
					continue
				}
				if !in.inertFn(m, 0) {
					inert = false
				}
			default:
				return false
			}
		}
	}
	return inert
}

func (t *treeWalk) activeE(e *E) bool {
	if e.Op == OpRef {
		return t.active[e.Rule]
	}
	for _, k := range e.Kids {
		if t.activeE(k) {
			return true
		}
	}
	return false
}

func (t *treeWalk) pan(r Res) {
	k := r.pan.Why + r.pan.Pos + r.pan.Fn
	if _, ok := t.pans[k]; !ok {
		t.pans[k] = r
		t.porder = append(t.porder, k)
	}
}

// call runs a callback on each state.
func (t *treeWalk) call(ss []*State, fn *ssa.Function) []*State {
	if fn == nil {
		return ss
	}
	var out []*State
	for _, s := range ss {
		rv := Val(VNode{s.stack[len(s.stack)-1]})
		for _, r := range t.in.callFn(s, fn, []Val{rv, t.l}, nil) {
			if r.pan != nil {
				t.pan(r)
				continue
			}
			out = append(out, r.st)
		}
	}
	return out
}

// exact unites states that differ only in the names of unknowns.
func (t *treeWalk) exact(ss []*State) []*State {
	if len(ss) < 2 {
		return ss
	}
	set := newStateSet()
	for _, s := range ss {
		set.add(s)
	}
	return set.states()
}

// merge unites states, also under generalisations that lose nothing of the specification.
func (t *treeWalk) merge(ss []*State) []*State {
	if len(ss) < 2 {
		return ss
	}
	set := newStateSet()
	for _, s := range ss {
		set.add(s)
	}
	out := set.states()
	if len(out) < 2 {
		return out
	}
	return t.in.relMerge(out)
}

// visit walks the subtree of a rule, from a summary when the same situation was analysed before. kid is the
// position among the children of an expanded parent, or -1.
func (t *treeWalk) visit(st *State, r, kid int) []*State {
	in := t.in
	if !t.active[r] {
		return []*State{st}
	}
	if in.heads[r] && st.depth[r] >= 2 {
		return []*State{st} // the nested levels before showed that it changes nothing
	}
	in.visits++
	in.checkTime()
	if len(st.stack) == 0 {
		return t.visitRaw(st, r, kid)
	}
	g := in.abstractState(st)
	if g == nil {
		return t.visitRaw(st, r, kid)
	}
	key := fmt.Sprintf("%d/%d/%v:%s", r, kid, st.depth, g.key)
	sum := t.sums[key]
	if sum == nil {
		hat := g.build(st)
		sum = &summary{x: hat.frame}
		sum.outs = t.visitRaw(hat.clone(), r, kid)
		t.sums[key] = sum
	}
	var out []*State
	for _, o := range sum.outs {
		x, ok := in.instantiate(st, g, sum, o)
		if !ok {
			in.stat["summary not applicable"]++
			return t.visitRaw(st, r, kid)
		}
		if x != nil {
			x.note("%s", in.g.Rules[r])
			out = append(out, x)
		}
	}
	return t.merge(out)
}

func (t *treeWalk) visitRaw(st *State, r, kid int) []*State {
	in := t.in
	name := in.g.Rules[r]
	head := in.heads[r]
	in.raw++
	var before string
	if head {
		before = stateKey(st)
		st.depth[r]++
	}
	node := 0
	if kid >= 0 {
		node = st.nodes[st.stack[len(st.stack)-1]].Kids[kid].Node
	} else {
		node = st.newNode(r)
	}
	st.stack = append(st.stack, node)
	st.note("enter %s", name)
	if debugOn && in.raw%1000 == 0 {
		var open []string
		for _, id := range st.stack {
			open = append(open, in.g.Rules[st.nodes[id].Rule])
		}
		fmt.Fprintln(os.Stderr, in.visits, in.raw, open)
	}
	cur := []*State{st}
	st.entering = node
	if in.expand[r] {
		cur = in.expandNode(st, node)
	}
	if in.conf.ghost {
		var next []*State
		for _, s := range cur {
			next = append(next, in.ghostEnter(s, r, node)...)
		}
		cur = next
	}
	cur = t.call(cur, t.enter[r])
	for _, s := range cur {
		s.entering = 0
	}
	cur = t.exact(cur)
	// children
	var done []*State
	for _, s := range cur {
		n := s.nodes[s.stack[len(s.stack)-1]]
		if n.Exp {
			part := []*State{s}
			for i, k := range n.Kids {
				if k.Rule < 0 || !t.active[k.Rule] {
					continue
				}
				var next []*State
				for _, x := range part {
					id := x.stack[len(x.stack)-1]
					if x.nodes[id].Kids[i].Node == 0 {
						m := *x.nodes[id]
						m.Kids = append([]Kid(nil), m.Kids...)
						m.Kids[i].Node = x.newNode(k.Rule)
						x.nodes[m.Kids[i].Node].Text = m.Kids[i].Text
						x.nodes[id] = &m
					}
					next = append(next, t.visit(x, k.Rule, i)...)
				}
				part = t.merge(next)
			}
			done = append(done, part...)
		} else {
			done = append(done, t.walk([]*State{s}, in.g.Body[r])...)
		}
	}
	cur = t.exact(done)
	cur = t.call(cur, t.exit[r])
	if in.conf.ghost {
		var next []*State
		for _, s := range cur {
			next = append(next, in.ghostExit(s, r, s.stack[len(s.stack)-1])...)
		}
		cur = next
	}
	for _, s := range cur {
		n := len(s.stack)
		s.stack = s.stack[:n-1]
		if head {
			s.depth[r]--
		}
		s.note("exit %s", name)
	}
	if len(cur) > 0 && len(cur[0].stack) > 0 {
		cur = t.merge(cur)
	}
	if head && st.depth[r] >= 1 {
		for _, s := range cur {
			if s.depth[r] == 1 && stateKey(s) != before {
				in.report("undecided", "nested "+name, "", s, "a nested %s changes the state of the interpretation; deeper nesting is not analysed", name)
			}
		}
	}
	if debugRule != "" && name == debugRule {
		for _, x := range cur {
			fmt.Fprintln(os.Stderr, "EXIT", name, strings.NewReplacer("\n", "~", "\x00", "^").Replace(stateKey(x)))
		}
	}
	if len(cur) > in.maxStates {
		in.maxStates = len(cur)
	}
	if len(cur) > 4000 {
		panic(undecided{"too many states at " + name})
	}
	return cur
}

// walk visits the children described by an expression.
func (t *treeWalk) walk(ss []*State, e *E) []*State {
	if !t.activeE(e) {
		return ss
	}
	switch e.Op {
	case OpTok:
		return ss
	case OpRef:
		var out []*State
		for _, s := range ss {
			out = append(out, t.visit(s, e.Rule, -1)...)
		}
		return t.merge(out)
	case OpSeq:
		for _, k := range e.Kids {
			ss = t.walk(ss, k)
		}
		return ss
	case OpAlt:
		var out []*State
		skip := false
		for _, k := range e.Kids {
			if !t.activeE(k) {
				skip = true
				continue
			}
			out = append(out, t.walk(cloneAll(ss), k)...)
		}
		if skip {
			out = append(out, ss...)
		}
		return t.merge(out)
	case OpOpt:
		out := t.walk(cloneAll(ss), e.Kids[0])
		return t.merge(append(ss, out...))
	case OpPlus:
		return t.star(t.walk(ss, e.Kids[0]), e.Kids[0])
	case OpStar:
		return t.star(ss, e.Kids[0])
	}
	panic("expression")
}

func cloneAll(ss []*State) []*State {
	out := make([]*State, len(ss))
	for i, s := range ss {
		out[i] = s.clone()
	}
	return out
}

// star computes the fixpoint of a loop, separately for every state it is entered with.
func (t *treeWalk) star(ss []*State, body *E) []*State {
	var out []*State
	for _, s := range ss {
		set := newStateSet()
		set.addLoop(s.clone(), 0)
		for round := 0; ; round++ {
			if round > 60 {
				panic(undecided{"a loop of the grammar does not stabilise: " + t.in.g.Str(body)})
			}
			var work []*member
			for _, m := range set.order {
				if m.dirty && !m.dead {
					work = append(work, m)
				}
			}
			if len(work) == 0 {
				break
			}
			for _, m := range work {
				if m.dead {
					continue
				}
				m.dirty = false
				for _, o := range t.walk([]*State{m.st.clone()}, body) {
					set.addLoop(o, round)
				}
			}
		}
		out = append(out, set.states()...)
	}
	return t.merge(out)
}

// stateKey identifies a state up to the names of its unknowns, with everything known about them.
func stateKey(s *State) string {
	x := s.clone()
	normalise(x)
	c := canon(x, false)
	x.gc(c)
	var sb strings.Builder
	sb.WriteString(c.shape)
	sb.WriteByte(0)
	sb.WriteString(c.detail)
	for i, id := range c.ids {
		if a, ok := x.sat[id]; ok {
			fmt.Fprintf(&sb, "|%d:%v,%d,%d,%v,%d", i, a.CS, a.Min, a.Max, a.Paired, a.Taint)
		}
		if a, ok := x.iat[id]; ok {
			fmt.Fprintf(&sb, "|%d:%v", i, a)
		}
		if a, ok := x.lat[id]; ok {
			fmt.Fprintf(&sb, "|%d:%v", i, a)
		}
	}
	m := func(id int) int { return c.num[id] }
	var fs []string
	for _, f := range x.facts {
		var b strings.Builder
		writeKey(&b, f.Form, m)
		fs = append(fs, fmt.Sprintf("%s:%d:%d:%v", b.String(), f.Lo, f.Hi, f.Not))
	}
	for _, p := range x.preds {
		var b strings.Builder
		writeKey(&b, vlist{p.A}, m)
		fs = append(fs, fmt.Sprintf("%s%s:%v", p.Name, b.String(), p.Ans))
	}
	sort.Strings(fs)
	sb.WriteString(strings.Join(fs, ";"))
	return sb.String()
}

// relMerge generalises states of the same shape when nothing about the specification is lost: every unknown it
// introduces into the specification's part also stands in the program's part.
func (in *Interp) relMerge(ss []*State) []*State {
	ss = in.uniteWith(ss, losslessJoin, 0)
	limit := 0
	switch {
	case !in.conf.ghost || in.conf.fn != "ParseAddressList":
		return ss
	case in.raw > 250000:
		limit = 1
	case in.raw > 150000:
		limit = 3
	case in.raw > 100000:
		limit = 6
	default:
		limit = 16
	}
	if len(ss) > limit {
		in.stat["merges that lose a relation"]++
		ss = in.uniteWith(ss, func(a, b *State, ca, cb *canonState) bool { return true }, limit)
	}
	return ss
}

// uniteWith generalises pairs of states of the same shape that satisfy ok, while there are more than limit.
func (in *Interp) uniteWith(ss []*State, ok func(a, b *State, ca, cb *canonState) bool, limit int) []*State {
	cs := map[*State]*canonState{}
	of := func(s *State) *canonState {
		c := cs[s]
		if c == nil {
			c = canon(s, true)
			cs[s] = c
		}
		return c
	}
	// apart holds the pairs found not to unite: neither state changed since
	apart := map[[2]*State]bool{}
	for again := true; again && len(ss) > 1 && len(ss) > limit; {
		again = false
		in.checkTime()
	outer:
		for i := range ss {
			ca := of(ss[i])
			for j := i + 1; j < len(ss); j++ {
				cb := of(ss[j])
				if ca.shape != cb.shape || apart[[2]*State{ss[i], ss[j]}] {
					continue
				}
				if !ok(ss[i], ss[j], ca, cb) {
					apart[[2]*State{ss[i], ss[j]}] = true
					continue
				}
				ss[i] = generalise(ss[i], ca, ss[j], cb, true, false)
				ss = append(ss[:j:j], ss[j+1:]...)
				again = true
				break outer
			}
		}
	}
	return ss
}

var _ = constant.Int
