package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parts of the generated code around the rule methods: constructors, one-time tables, contexts, listener dispatch
// and the accessors the callbacks use.

// loaded says which field of a package-level variable a value is loaded from.
func loadedField(v ssa.Value) (*ssa.Global, string) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return nil, ""
	}
	return addressedField(u.X)
}

func addressedField(v ssa.Value) (*ssa.Global, string) {
	f, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil, ""
	}
	g, ok := f.X.(*ssa.Global)
	if !ok {
		return nil, ""
	}
	return g, fieldName(f)
}

func fieldName(f *ssa.FieldAddr) string {
	p, ok := f.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(f.Field).Name()
}

func callsOf(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

func ruleGenerated(c *Ctx, prop string, r *RuleRun) {
	rc := c.recog()
	for _, x := range []struct {
		base, sim string
		sd        *StaticData
	}{{"BaseLexer", "NewLexerATNSimulator", rc.lexSD}, {"BaseParser", "NewParserATNSimulator", rc.parSD}} {
		if fn := c.P.ParS.Func(x.sd.initFn.Name.Name); fn != nil {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if g, f := addressedField(s.Addr); g != nil && f == "serializedATN" {
							x.sd.obj = g.Object()
						}
					}
				}
			}
		}
		c.constructor(r, x.base, x.sim, x.sd)
		c.tables(r, x.sd)
	}
	c.overrides(r)
	c.contexts(r)
	c.accessors(r)
}

// constructor: the recogniser is made of the tables, and nothing else is set that affects recognition.
func (c *Ctx) constructor(r *RuleRun, base, sim string, sd *StaticData) {
	t := c.embedding(base)
	if t == nil {
		r.fail(base, "", "no type embeds it")
		return
	}
	fn := c.P.ParS.Func("New" + t.Obj().Name())
	if fn == nil || len(fn.Params) != 1 {
		r.fail("New"+t.Obj().Name(), "", "there is no constructor")
		return
	}
	name := fn.Name()
	pos := c.P.Pos(fn.Pos())
	sims, bases := 0, 0
	initialised := false
	for _, call := range callsOf(fn) {
		n, pkg, f := calleeName(call.Common())
		args := call.Common().Args
		at := c.P.Pos(call.Pos())
		switch {
		case n == "New"+base:
			bases++
			r.check(len(args) == 1 && args[0] == ssa.Value(fn.Params[0]), name+": "+n, at, "the recogniser does not read what the constructor is given")
		case n == sim:
			sims++
			if len(args) != 4 {
				r.fail(name+": "+n, at, "unexpected arguments")
				continue
			}
			for i, want := range []string{"atn", "decisionToDFA", "predictionContextCache"} {
				g, field := loadedField(args[i+1])
				ok := g != nil && g.Object() == sd.obj && field == want
				if !ok && g == nil && want == "predictionContextCache" {
					if k, isCall := args[i+1].(*ssa.Call); isCall {
						kn, _, _ := calleeName(&k.Call)
						ok = kn == "NewPredictionContextCache"
					}
				}
				r.check(ok, name+": "+n+" "+want, at, "argument %d is not the %s of this recogniser's tables", i+2, want)
			}
			stored := false
			if call.Value() != nil {
				for _, u := range *call.Value().Referrers() {
					if s, ok := u.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "Interpreter" {
							stored = true
						}
					}
					if mi, ok := u.(*ssa.MakeInterface); ok {
						for _, u := range *mi.Referrers() {
							if s, ok := u.(*ssa.Store); ok {
								if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "Interpreter" {
									stored = true
								}
							}
						}
					}
				}
			}
			r.check(stored, name+": Interpreter", at, "the simulator of the tables is not the one the recogniser uses")
		case f != nil && pkg == c.P.Parser.PkgPath:
			if c.fills(f, sd, 0) {
				initialised = true
				r.ok(name + ": " + n)
			} else if f.Signature.Results().Len() == 0 || len(args) > 0 {
				r.fail(name+": call of "+n, at, "the constructor does something else than joining tables and input")
			}
		case pkg == antlrPath && n != "NewPredictionContextCache":
			r.fail(name+": call of "+n, at, "the constructor changes how the recogniser works")
		}
	}
	r.check(sims == 1 && bases == 1, name, pos, "the constructor makes %d simulators and %d recognisers", sims, bases)
	r.check(initialised, name+": tables", pos, "the tables may not be there yet")
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			switch f := fieldName(fa); f {
			case base, "Interpreter", "RuleNames", "LiteralNames", "SymbolicNames", "GrammarFileName", "channelNames", "modeNames", "Virt":
				r.ok(name + ": " + f)
			default:
				if g := fromGlobal(fa); g != nil {
					continue // judged with the tables
				}
				r.fail(name+": "+f, c.P.Pos(s.Pos()), "the constructor sets a field of the recogniser that the tables do not account for")
			}
		}
	}
}

// fills says whether calling the function makes sure the tables are filled.
func (c *Ctx) fills(fn *ssa.Function, sd *StaticData, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, call := range callsOf(fn) {
		n, pkg, f := calleeName(call.Common())
		if pkg == "sync" && n == "Do" && len(call.Common().Args) == 2 {
			var g *ssa.Function
			switch x := call.Common().Args[1].(type) {
			case *ssa.Function:
				g = x
			case *ssa.MakeClosure:
				g = x.Fn.(*ssa.Function)
			}
			if g != nil && (g.Name() == sd.initFn.Name.Name || c.callsNamed(g, sd.initFn.Name.Name)) {
				return true
			}
		}
		if f != nil && pkg == c.P.Parser.PkgPath && f.Name() != sd.initFn.Name.Name && c.fills(f, sd, depth+1) {
			return true
		}
	}
	return false
}

func (c *Ctx) callsNamed(fn *ssa.Function, name string) bool {
	for _, call := range callsOf(fn) {
		if n, _, _ := calleeName(call.Common()); n == name {
			return true
		}
	}
	return false
}

// tables: the network in use is the one the literal decodes to, and nothing changes it.
func (c *Ctx) tables(r *RuleRun, sd *StaticData) {
	name := sd.initFn.Name.Name
	counts := map[string]int{}
	initFn := c.P.ParS.Func(name)
	for _, fn := range c.P.ownFunctions() {
		if fn.Pkg != c.P.ParS {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				at := c.P.Pos(s.Pos())
				if g, f := addressedField(s.Addr); g != nil && g.Object() == sd.obj {
					counts[f]++
					if fn != initFn {
						r.fail(fn.Name()+": write to "+f, at, "the tables are changed outside %s", name)
						continue
					}
					switch f {
					case "atn":
						call, ok := s.Val.(*ssa.Call)
						n := ""
						var from string
						var g *ssa.Global
						if ok {
							n, _, _ = calleeName(&call.Call)
							args := call.Call.Args
							if len(args) > 0 {
								g, from = loadedField(args[len(args)-1])
							}
							if len(args) == 2 {
								if mk, ok := args[0].(*ssa.Call); ok {
									if k, _, _ := calleeName(&mk.Call); k != "NewATNDeserializer" || len(mk.Call.Args) != 1 || !isNil(mk.Call.Args[0]) {
										r.fail(name+": deserializer", at, "the network is not read with the standard options")
									}
								}
							}
						}
						r.check(n == "Deserialize" && g != nil && g.Object() == sd.obj && from == "serializedATN", name+": atn", at, "the network is not the one of the serialized table")
					default:
						r.ok(name + ": " + f)
					}
					continue
				}
				// element writes
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				g, f := loadedField(ia.X)
				if g == nil || g.Object() != sd.obj {
					continue
				}
				if f == "decisionToDFA" && fn == initFn {
					r.check(dfaOf(s.Val, ia.Index), name+": decisionToDFA", at, "the automaton of a decision is not made for that decision")
				} else {
					r.fail(fn.Name()+": write to an element of "+f, at, "the tables are changed after they were made")
				}
			}
		}
	}
	for _, f := range []string{"serializedATN", "atn", "decisionToDFA"} {
		r.check(counts[f] == 1, name+": "+f+" is set once", c.P.Pos(sd.initFn.Pos()), "it is set %d times", counts[f])
	}
}

func isNil(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// dfaOf recognises NewDFA(DecisionToState[i], i).
func dfaOf(v, index ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	n, _, _ := calleeName(&call.Call)
	if n != "NewDFA" || len(call.Call.Args) != 2 || call.Call.Args[1] != index {
		return false
	}
	st := call.Call.Args[0]
	for {
		switch x := st.(type) {
		case *ssa.ChangeInterface:
			st = x.X
			continue
		case *ssa.UnOp:
			ia, ok := x.X.(*ssa.IndexAddr)
			return ok && ia.Index == index
		}
		return false
	}
}

// overrides: the recogniser types do not replace anything of the runtime's behaviour.
func (c *Ctx) overrides(r *RuleRun) {
	rules := map[string]bool{}
	for _, n := range c.recog().g.Rules {
		rules[upperFirst(n)] = true
	}
	for _, base := range []string{"BaseLexer", "BaseParser"} {
		t := c.embedding(base)
		if t == nil {
			continue
		}
		var bt *types.Named
		if tn, ok := c.P.Antlr.Types.Scope().Lookup(base).(*types.TypeName); ok {
			bt, _ = tn.Type().(*types.Named)
		}
		if bt == nil {
			r.fail(base, "", "it is not in the runtime")
			continue
		}
		inherited := types.NewMethodSet(types.NewPointer(bt))
		for i := 0; i < t.NumMethods(); i++ {
			m := t.Method(i)
			n := m.Name()
			if rules[n] && base == "BaseParser" {
				continue
			}
			hides := inherited.Lookup(m.Pkg(), n) != nil || inherited.Lookup(c.P.Antlr.Types, n) != nil
			r.check(!hides && n != "Sempred" && n != "Action", t.Obj().Name()+"."+n, c.P.Pos(m.Pos()), "it replaces part of the runtime's recogniser")
		}
		r.ok(t.Obj().Name() + " replaces nothing of the runtime")
	}
}

// contexts: every rule's node belongs to that rule and is announced to the listener under its name.
func (c *Ctx) contexts(r *RuleRun) {
	g := c.recog().g
	sc := c.P.Parser.Types.Scope()
	for k, rule := range g.Rules {
		x := upperFirst(rule)
		tn, ok := sc.Lookup(x + "Context").(*types.TypeName)
		if !ok {
			r.fail("context of "+rule, "", "there is no type %sContext", x)
			continue
		}
		ptr := types.NewPointer(tn.Type())
		method := func(n string) *ssa.Function {
			m := c.P.SSA.LookupMethod(ptr, c.P.Parser.Types, n)
			if m == nil || m.Synthetic != "" || !c.P.Own[pkgOf(m)] {
				return nil
			}
			return m
		}
		for _, dir := range []string{"Enter", "Exit"} {
			m := method(dir + "Rule")
			if m == nil {
				r.fail(x+"Context."+dir+"Rule", c.P.Pos(tn.Pos()), "the node is not announced to the listener")
				continue
			}
			why := c.dispatch(m, dir+x)
			r.check(why == "", x+"Context."+dir+"Rule", c.P.Pos(m.Pos()), "%s", why)
		}
		if m := method("GetRuleContext"); m != nil {
			okay := false
			for _, b := range m.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					if mi, ok := ret.Results[0].(*ssa.MakeInterface); ok {
						okay = mi.X == ssa.Value(m.Params[0])
					}
				}
			}
			r.check(okay, x+"Context.GetRuleContext", c.P.Pos(m.Pos()), "it is not the node itself")
		} else {
			r.fail(x+"Context.GetRuleContext", c.P.Pos(tn.Pos()), "the tree walker does not see this node's own type")
		}
		for _, n := range []string{"GetChildren", "GetChild", "GetChildCount", "GetText", "GetTokens", "GetToken", "GetStart", "GetStop", "GetParent", "Accept", "GetPayload", "GetRuleIndex", "AddChild", "AddTokenNode", "AddErrorNode"} {
			if m := method(n); m != nil {
				r.fail(x+"Context."+n, c.P.Pos(m.Pos()), "it replaces part of the runtime's tree")
			}
		}
		fn := c.P.ParS.Func("New" + x + "Context")
		if fn == nil {
			r.fail("New"+x+"Context", "", "there is no constructor")
			continue
		}
		idx, base := false, false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.Store:
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "RuleIndex" {
						if v, ok := y.Val.(*ssa.Const); ok && v.Value != nil {
							n, _ := constant.Int64Val(v.Value)
							idx = int(n) == k
						} else {
							idx = false
						}
					}
				case *ssa.Call:
					n, _, _ := calleeName(&y.Call)
					if n == "NewBaseParserRuleContext" && len(fn.Params) == 3 {
						base = y.Call.Args[0] == ssa.Value(fn.Params[1]) && y.Call.Args[1] == ssa.Value(fn.Params[2])
					}
				}
			}
		}
		r.check(idx, "New"+x+"Context: RuleIndex", c.P.Pos(fn.Pos()), "the node is not marked as one of rule %s", rule)
		r.check(base, "New"+x+"Context: parent", c.P.Pos(fn.Pos()), "the node is not attached to the parent and parser state it is given")
	}
}

// dispatch checks that a context's EnterRule or ExitRule calls exactly the named method of the listener with itself.
func (c *Ctx) dispatch(m *ssa.Function, want string) string {
	found := 0
	for _, call := range callsOf(m) {
		com := call.Common()
		n, pkg, _ := calleeName(com)
		if !com.IsInvoke() || pkg != c.P.Parser.PkgPath {
			if _, ok := com.Value.(*ssa.Builtin); ok {
				continue
			}
			return "it calls " + n
		}
		if n != want {
			return "it announces the node as " + n + " instead of " + want
		}
		if len(com.Args) != 1 || com.Args[0] != ssa.Value(m.Params[0]) {
			return "it announces another node"
		}
		ex, ok := com.Value.(*ssa.Extract)
		if !ok {
			return "the listener it calls is not the one it is given"
		}
		ta, ok := ex.Tuple.(*ssa.TypeAssert)
		if !ok || ta.X != ssa.Value(m.Params[1]) {
			return "the listener it calls is not the one it is given"
		}
		// only the check that the listener is one of this grammar may decide
		b := call.Block()
		for b.Idom() != nil {
			d := b.Idom()
			if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && !b.Dominates(d) {
				if !reaches(d.Succs[0], b) || !reaches(d.Succs[1], b) {
					e, ok := iff.Cond.(*ssa.Extract)
					if !ok || e.Tuple != ssa.Value(ta) || e.Index != 1 || !reaches(d.Succs[0], b) {
						return "whether it announces the node depends on something else than the listener's type"
					}
				}
			}
			b = d
		}
		found++
	}
	if found != 1 {
		return fmt.Sprintf("it announces the node %d times", found)
	}
	return ""
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(*ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(a)
}

// shape prints a function with the names of types and tokens left out; two accessors of the same kind have the same.
func shape(fn *ssa.Function, hide string) string {
	num := map[ssa.Value]int{}
	id := func(v ssa.Value) string {
		switch x := v.(type) {
		case *ssa.Const:
			return "c" + x.String()
		case *ssa.Function:
			return "f" + x.Name()
		case *ssa.Builtin:
			return "b" + x.Name()
		case *ssa.Global:
			return "g" + x.Name()
		}
		if n, ok := num[v]; ok {
			return fmt.Sprint("v", n)
		}
		num[v] = len(num)
		return fmt.Sprint("v", num[v])
	}
	for _, p := range fn.Params {
		id(p)
	}
	var sb strings.Builder
	for _, b := range fn.DomPreorder() {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if v.Referrers() == nil || len(*v.Referrers()) == 0 {
					if _, isCall := ins.(*ssa.Call); !isCall {
						continue
					}
				}
				id(v)
			}
		}
	}
	order := map[*ssa.BasicBlock]int{}
	for i, b := range fn.DomPreorder() {
		order[b] = i
	}
	for _, b := range fn.DomPreorder() {
		fmt.Fprintf(&sb, "%d:", order[b])
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			v, isVal := ins.(ssa.Value)
			if isVal {
				if _, isCall := ins.(*ssa.Call); !isCall && (v.Referrers() == nil || len(*v.Referrers()) == 0) {
					continue
				}
				fmt.Fprintf(&sb, "%s=", id(v))
			}
			fmt.Fprintf(&sb, "%T(", ins)
			switch x := ins.(type) {
			case *ssa.BinOp:
				sb.WriteString(x.Op.String())
			case *ssa.UnOp:
				sb.WriteString(x.Op.String())
			case *ssa.TypeAssert:
				sb.WriteString(strings.ReplaceAll(x.AssertedType.String(), hide, "T"))
				fmt.Fprint(&sb, x.CommaOk)
			case *ssa.Extract:
				fmt.Fprint(&sb, x.Index)
			case *ssa.FieldAddr:
				sb.WriteString(fieldName(x))
			case *ssa.Call:
				if x.Call.IsInvoke() {
					sb.WriteString(x.Call.Method.Name())
				}
			case *ssa.MakeSlice:
				sb.WriteString(strings.ReplaceAll(x.Type().String(), hide, "T"))
			}
			for _, op := range ins.Operands(nil) {
				if op != nil && *op != nil {
					s := id(*op)
					sb.WriteString(" " + strings.ReplaceAll(s, hide, "T"))
				}
			}
			sb.WriteString(");")
		}
		for _, s := range b.Succs {
			fmt.Fprintf(&sb, ">%d", order[s])
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// accessors: what the callbacks ask of a node is what the accessor's name says.
func (c *Ctx) accessors(r *RuleRun) {
	g := c.recog().g
	sc := c.P.Parser.Types.Scope()
	rules := map[string]bool{}
	toks := map[string]int{}
	for _, n := range g.Rules {
		rules[upperFirst(n)] = true
	}
	for i, n := range g.Tokens {
		toks[n] = i
	}
	// used by hand-written code
	used := map[*ssa.Function]bool{}
	for _, fn := range c.P.ownFunctions() {
		if fn.Pkg != c.P.RootS {
			continue
		}
		for _, call := range callsOf(fn) {
			if f := call.Common().StaticCallee(); f != nil && pkgOf(f) == c.P.Parser.Types && f.Signature.Recv() != nil {
				used[f] = true
			}
		}
	}
	type acc struct {
		fn   *ssa.Function
		hide string
	}
	groups := map[string][]acc{}
	for _, n := range g.Rules {
		tn, ok := sc.Lookup(upperFirst(n) + "Context").(*types.TypeName)
		if !ok {
			continue
		}
		named := tn.Type().(*types.Named)
		for i := 0; i < named.NumMethods(); i++ {
			fn := c.P.SSA.FuncValue(named.Method(i))
			if fn == nil {
				continue
			}
			what, all := fn.Name(), false
			if t := strings.TrimPrefix(what, "All"); t != what && !rules[what] {
				what, all = t, true
			}
			if _, ok := toks[what]; ok && !rules[what] {
				if !used[fn] {
					continue
				}
				why := tokenAccessor(fn, all, toks[what])
				r.check(why == "", n+" node: "+fn.Name(), c.P.Pos(fn.Pos()), "%s", why)
				delete(used, fn)
				continue
			}
			if rules[what] {
				kind := "one"
				if all {
					kind = "all"
				} else if fn.Signature.Params().Len() == 1 {
					kind = "nth"
				}
				groups[kind] = append(groups[kind], acc{fn, what})
			}
		}
	}
	for _, kind := range []string{"one", "nth", "all"} {
		votes := map[string]int{}
		shapes := map[*ssa.Function]string{}
		for _, a := range groups[kind] {
			s := shape(a.fn, "parser.I"+a.hide+"Context")
			shapes[a.fn] = s
			votes[s]++
		}
		best := ""
		var keys []string
		for s := range votes {
			keys = append(keys, s)
		}
		sort.Strings(keys)
		for _, s := range keys {
			if votes[s] > votes[best] {
				best = s
			}
		}
		for _, a := range groups[kind] {
			if !used[a.fn] {
				continue
			}
			r.check(shapes[a.fn] == best, a.fn.String(), c.P.Pos(a.fn.Pos()), "it does not find the node's %s children as the %d accessors of the same kind do", a.hide, votes[best])
			delete(used, a.fn)
		}
	}
	for _, fn := range sortFns(used) {
		switch fn.Name() {
		case "GetParser", "GetRuleContext", "ToStringTree", "EnterRule", "ExitRule":
		default:
			if t := c.parserType(); t != nil && fn.Signature.Recv().Type().String() == types.NewPointer(t).String() {
				continue
			}
			if fn.Synthetic == "" && !strings.HasPrefix(fn.Name(), "Is") {
				continue // interpreted like hand-written code
			}
		}
	}
	r.count("accessors of the generated contexts", len(groups["one"])+len(groups["nth"])+len(groups["all"]))
}

// tokenAccessor says why a method is not the accessor of the node's tokens of a type.
func tokenAccessor(fn *ssa.Function, all bool, tok int) string {
	calls := callsOf(fn)
	if len(calls) != 1 {
		return "it does more than looking up the node's tokens"
	}
	n, _, _ := calleeName(calls[0].Common())
	want := "GetToken"
	if all {
		want = "GetTokens"
	}
	if n != want {
		return "it calls " + n
	}
	args := calls[0].Common().Args
	if len(args) < 2 {
		return "unexpected arguments"
	}
	k, ok := args[1].(*ssa.Const)
	if !ok || k.Value == nil {
		return "the token type is not constant"
	}
	if v, _ := constant.Int64Val(k.Value); int(v) != tok {
		return fmt.Sprintf("it looks up tokens of type %d instead of %d", v, tok)
	}
	if !all {
		if len(fn.Params) == 2 {
			if args[2] != ssa.Value(fn.Params[1]) {
				return "it does not return the token asked for"
			}
		} else if z, ok := args[2].(*ssa.Const); !ok || z.Value == nil || z.Int64() != 0 {
			return "it does not return the first token"
		}
	}
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 || ret.Results[0] != calls[0].Value() {
				return "it does not return what it looked up"
			}
		}
	}
	return ""
}
