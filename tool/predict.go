package main

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Prediction (C04, C05): the recogniser follows its tables as long as it runs with the runtime's full prediction and
// its own simulator. The mode without full context gives up on phrases that are in the grammar.

// changers are the runtime's methods that replace how the tables are followed.
var changers = map[string]string{
	"SetPredictionMode": "phrases of the grammar may be rejected or read differently without full context",
	"SetInterpreter":    "the tables are followed by something else",
	"SetErrorHandler":   "recognition is steered by something other than the runtime's default strategy",
	"SetTokenFactory":   "tokens are made by something else",
	"SetTokenSource":    "tokens come from somewhere else",
	"SetTokenStream":    "tokens come from somewhere else",
	"SetStateNumber":    "",
	"SetMode":           "the lexer's mode is changed",
	"PushMode":          "the lexer's mode is changed",
}

func rulePrediction(c *Ctx, prop string, r *RuleRun) {
	e := c.effects()
	gen := map[*ssa.Function]bool{}
	for _, fn := range c.ruleMethods() {
		gen[fn] = true
	}
	all := map[*ssa.Function]bool{}
	for _, m := range []map[*ssa.Function]bool{e.parse, e.setup} {
		for fn := range m {
			if c.P.Own[pkgOf(fn)] {
				all[fn] = true
			}
		}
	}
	calls := 0
	for _, fn := range sortFns(all) {
		r.ok(fn.String())
		e.eachInstr(fn, func(ins ssa.Instruction) {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				return
			}
			com := ci.Common()
			name, pkg := "", ""
			args := com.Args
			if com.IsInvoke() {
				name, pkg = com.Method.Name(), objPkg(com.Method)
			} else if to := com.StaticCallee(); to != nil && to.Object() != nil && to.Signature.Recv() != nil {
				name, pkg = to.Name(), objPkg(to.Object())
				args = args[1:]
			}
			if pkg != antlrPath {
				return
			}
			calls++
			why := changers[name]
			if why == "" || gen[fn] && strings.HasPrefix(fn.Name(), "New") {
				return
			}
			if len(args) == 1 && standard(name, args[0]) {
				return
			}
			r.fail("call of "+name+" in "+fn.String(), c.P.Pos(ins.Pos()), "%s", why)
		})
	}
	r.count("calls of the runtime's methods", calls)
}

// standard: the value is what the runtime uses anyway.
func standard(name string, v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Const:
			if name != "SetPredictionMode" || x.Value == nil {
				return false
			}
			m, ok := constant.Int64Val(x.Value)
			return ok && m >= 1
		case *ssa.Call:
			fn := x.Call.StaticCallee()
			return name == "SetErrorHandler" && fn != nil && fn.String() == antlrPath+".NewDefaultErrorStrategy"
		}
		return false
	}
}
