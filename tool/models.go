package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"time"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of builtins, of library functions and of the recogniser's run-time library.

type model func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res

func isBuild(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

func (in *Interp) callInstr(st *State, f *Frame, x *ssa.Call) []Res {
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, in.value(st, f, a))
	}
	if x.Call.IsInvoke() {
		recv := in.value(st, f, x.Call.Value)
		return in.invokeMethod(st, recv, x.Call.Method, args)
	}
	if b, ok := x.Call.Value.(*ssa.Builtin); ok {
		return in.builtin(st, f, b.Name(), args, x.Call.Args, x.Type())
	}
	if fn := x.Call.StaticCallee(); fn != nil {
		if fn.String() == "strings.Join" {
			// Joining the pieces of a text that was split replaces the one separator by the other.
			if c, ok := x.Call.Args[0].(*ssa.Call); ok && c.Referrers() != nil && len(*c.Referrers()) == 1 {
				if s := c.Call.StaticCallee(); s != nil && s.String() == "strings.Split" {
					old, ok1 := litOr(st, []Val{in.value(st, f, c.Call.Args[1])}, 0)
					nw, ok2 := litOr(st, args, 1)
					if ok1 && ok2 && old != "" {
						return one(st, in.replaceAll(st, strArg(st, []Val{in.value(st, f, c.Call.Args[0])}, 0), old, nw))
					}
				}
			}
		}
		var bind []Val
		if c, ok := in.value(st, f, x.Call.Value).(VFunc); ok {
			bind = c.Bind
		}
		return in.callFn(st, fn, args, bind)
	}
	return in.invokeVal(st, in.value(st, f, x.Call.Value), args, x.Pos())
}

// invokeVal calls a function value.
func (in *Interp) invokeVal(st *State, fn Val, args []Val, pos token.Pos) []Res {
	switch x := fn.(type) {
	case VFunc:
		return in.callFn(st, x.Fn, args, x.Bind)
	case VNil:
		return []Res{{st: st, pan: &PanicInfo{Why: "call of a nil function"}}}
	case VTuple: // deferred method call
		recv := x[0]
		name := x[1].(VUser).Name
		if i, ok := recv.(VIface); ok {
			if m := in.p.SSA.LookupMethod(i.T, nil, name); m != nil {
				return in.callFn(st, m, append([]Val{i.V}, args...), nil)
			}
		}
		return one(st, st.opaque("call of "+name))
	case VUser:
		if strings.HasPrefix(x.Name, "builtin ") {
			return in.builtin(st, st.top(), strings.TrimPrefix(x.Name, "builtin "), args, nil, nil)
		}
		if x.Name == "reader" {
			k := keyOf(vlist{args})
			return one(st, VTuple{VIface{in.errType(), VUser{"reader result of " + k}}, VUser{"reader error of " + k}})
		}
		return one(st, st.opaque("user function"))
	}
	in.stat["unknown call"]++
	return one(st, VTuple{st.opaque("call of an unknown function"), st.opaque("call of an unknown function")})
}

func (in *Interp) invokeMethod(st *State, recv Val, m *types.Func, args []Val) []Res {
	switch r := recv.(type) {
	case VNil:
		return []Res{{st: st, pan: &PanicInfo{Why: "method " + m.Name() + " called on a nil interface"}}}
	case VIface:
		switch r.V.(type) {
		case VTok, VSym, VNode, VExt:
			if rs, ok := in.handleMethod(st, r.V, m.Name(), args); ok {
				return rs
			}
		}
		if fn := in.p.SSA.LookupMethod(r.T, m.Pkg(), m.Name()); fn != nil {
			return in.callFn(st, fn, append([]Val{r.V}, args...), nil)
		}
	case VTok, VSym, VNode, VExt:
		if rs, ok := in.handleMethod(st, recv, m.Name(), args); ok {
			return rs
		}
	case VUser:
		return one(st, in.unknownResult(st, m.Type().(*types.Signature), m.Name()))
	case VOpaque:
		if strings.HasPrefix(r.Why, "argument of ") {
			var out []Res
			for _, q := range in.pred(st, "nil", r) {
				if q.v.(VBool) {
					q.pan = &PanicInfo{Why: "method " + m.Name() + " called on a nil interface"}
				} else {
					q.v = in.unknownResult(q.st, m.Type().(*types.Signature), m.Name())
				}
				out = append(out, q)
			}
			return out
		}
	}
	for _, a := range args {
		in.escape(st, a, "passed to "+m.FullName())
	}
	in.stat["unknown method "+m.FullName()]++
	return one(st, in.unknownResult(st, m.Type().(*types.Signature), m.Name()))
}

// escape is called for values handed to code that is not analysed.
func (in *Interp) escape(st *State, v Val, why string) {
	switch x := v.(type) {
	case VSlice:
		if o := st.heap[x.Obj]; o != nil {
			if a, ok := o.V.(VArr); ok && len(a.E) > 0 {
				panic(undecided{"a list is " + why})
			}
		}
	case VPtr:
		if o := st.heap[x.Obj]; o != nil {
			if _, ok := o.V.(VOpaque); ok {
				return
			}
			panic(undecided{"a variable is " + why})
		}
	case VMap:
		panic(undecided{"a map is " + why})
	case VIface:
		in.escape(st, x.V, why)
	case VFunc:
		for _, b := range x.Bind {
			in.escape(st, b, why)
		}
	}
}

func (in *Interp) callFn(st *State, fn *ssa.Function, args, bind []Val) []Res {
	name := fnName(fn)
	if rest, ok := strings.CutPrefix(name, "internal/stringslite."); ok && models["strings."+rest] != nil {
		name = "strings." + rest
	}
	if m, ok := models[name]; ok {
		in.stat["model "+name]++
		return m(in, st, args, fn)
	}
	own := fn.Pkg != nil && in.p.Own[fn.Pkg.Pkg]
	if fn.Pkg == nil && fn.Parent() != nil && fn.Parent().Pkg != nil {
		own = in.p.Own[fn.Parent().Pkg.Pkg]
	}
	if fn.Pkg == in.p.ParS && fn.Pkg != nil {
		if rs, ok := in.recogniserCall(st, fn, args); ok {
			return rs
		}
	}
	if strings.Contains(name, "antlr.") {
		if len(args) > 0 {
			v := args[0]
			if i, ok := v.(VIface); ok {
				v = i.V
			}
			switch v.(type) {
			case VTok, VSym, VNode, VExt:
				if rs, ok := in.handleMethod(st, v, fn.Name(), args[1:]); ok {
					return rs
				}
			}
		}
	}
	if fn.Signature.Recv() == nil && fn.Pkg != nil && fn.Pkg != in.p.RootS && fn.Name() == "init" {
		return one(st, VTuple{}) // another package's initialisation
	}
	interpretable := own || fn.Synthetic != ""
	if !interpretable && fn.Pkg != nil || !interpretable && fn.Origin() != nil {
		pk := fn.Pkg
		if o := fn.Origin(); o != nil {
			pk = o.Pkg
		}
		if pk != nil {
			switch pk.Pkg.Path() {
			case "slices", "maps", "cmp", "unicode", "unicode/utf8":
				interpretable = true
			}
		}
	}
	if fn.Parent() != nil && !own {
		interpretable = true // a closure of an interpreted library function
	}
	if strings.HasPrefix(name, "(*antlr.DefaultErrorListener)") || strings.HasPrefix(name, "(*antlr.BaseParseTreeVisitor)") {
		interpretable = true
	}
	switch name {
	case "strings.Cut", "internal/stringslite.Cut", "strings.ContainsFunc":
		interpretable = true // small enough to be read from the library's own source
	}
	if interpretable && len(fn.Blocks) > 0 {
		var rs []Res
		for _, o := range in.call(st, fn, args, bind) {
			rs = append(rs, Res{st: o.st, v: o.ret, pan: o.pan})
		}
		return rs
	}
	if name == "(*antlr.ParserATNSimulator).SetPredictionMode" && len(args) == 2 {
		// The runtime starts with 1; 2 differs in what is reported only.
		if m, ok := args[1].(VInt); ok {
			if k, ok := m.isConst(); ok && k >= 1 {
				return one(st, VTuple{})
			}
		}
	}
	if strings.Contains(name, "antlr.") {
		in.report("config", "call of "+name+" in "+st.top().fn.String(), in.p.Pos(st.top().fn.Pos()), st, "%s is called; it may change how the input is recognised", name)
		return one(st, in.unknownResult(st, fn.Signature, name))
	}
	if pure[name] || fn.Pkg != nil && pure[fn.Pkg.Pkg.Path()] {
		return one(st, in.unknownResult(st, fn.Signature, name))
	}
	for _, a := range args {
		in.escape(st, a, "passed to "+name)
	}
	in.stat["unmodelled "+name]++
	return one(st, in.unknownResult(st, fn.Signature, name))
}

var pure = map[string]bool{"log": true, "os": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true, "runtime": true, "runtime/debug": true, "math/rand": true, "log/slog": true, "sync/atomic": true, "unicode": true, "unicode/utf8": true}

func (in *Interp) builtin(st *State, f *Frame, name string, a []Val, ops []ssa.Value, typ types.Type) []Res {
	switch name {
	case "len", "cap":
		switch x := a[0].(type) {
		case VStr:
			return one(st, applyIFn("len", []Val{x}))
		case VSlice:
			if name == "cap" {
				return one(st, st.newInt(0, inf))
			}
			return one(st, x.Len)
		case VNil:
			return one(st, VInt{})
		case VMap:
			return one(st, iConst(int64(len(st.heap[x.Obj].V.(*mapObj).K))))
		case VArr:
			return one(st, iConst(int64(len(x.E))))
		}
		return one(st, st.newInt(0, inf))
	case "append":
		var el types.Type
		if typ != nil {
			if s, ok := typ.Underlying().(*types.Slice); ok {
				el = s.Elem()
			}
		}
		return one(st, in.appendVal(st, a[0], a[1:], el))
	case "copy":
		d, ok1 := a[0].(VSlice)
		if n, ok := a[0].(VNil); ok {
			_ = n
			return one(st, VInt{})
		}
		var es []Val
		ok2 := true
		switch s := a[1].(type) {
		case VSlice:
			es, ok2 = st.window(s)
		case VNil:
		default:
			ok2 = false
		}
		if ok2 && len(es) == 0 {
			return one(st, VInt{})
		}
		if ok1 && ok2 {
			if o := st.heap[d.Obj]; o != nil {
				if arr, ok := o.V.(VArr); ok {
					n := listLen(es)
					if i, ok := st.elemPos(arr.E, d.Lo); ok && i < len(arr.E) {
						if gap, ok := arr.E[i].(VGap); ok {
							left := gap.N.add(n, -1)
							room, _ := st.bounds(d.Len.add(n, -1))
							if lo, hi := st.bounds(left); lo >= 0 && room >= 0 {
								out := append(append([]Val(nil), arr.E[:i]...), es...)
								if hi > 0 {
									out = append(out, VGap{left})
								}
								st.heap[d.Obj] = &Obj{o.Typ, VArr{append(out, arr.E[i+1:]...)}}
								return one(st, n)
							}
						}
					}
					if lo, hi := st.bounds(n.add(d.Len, -1)); lo == 0 && hi == 0 || keyOf(n) == keyOf(d.Len) {
						if i, ok := st.elemPos(arr.E, d.Lo); ok {
							if j, ok := st.elemPos(arr.E, d.Lo.add(d.Len, 1)); ok {
								out := append(append(append([]Val(nil), arr.E[:i]...), es...), arr.E[j:]...)
								st.heap[d.Obj] = &Obj{o.Typ, VArr{out}}
								return one(st, n)
							}
						}
					}
					if dc, ok := d.Len.isConst(); ok {
						if nc, ok := n.isConst(); ok {
							if i, ok := st.elemPos(arr.E, d.Lo); ok {
								k := min(dc, nc)
								out := append([]Val(nil), arr.E...)
								copy(out[i:i+int(k)], es[:k])
								st.heap[d.Obj] = &Obj{o.Typ, VArr{out}}
								return one(st, iConst(k))
							}
						}
					}
				}
			}
		}
		panic(undecided{"copy of lists of unknown length in " + f.fn.String()})
	case "delete":
		if m, ok := a[0].(VMap); ok {
			o := st.heap[m.Obj].V.(*mapObj)
			n := &mapObj{}
			for i := range o.K {
				if keyOf(o.K[i]) != keyOf(a[1]) {
					n.K, n.V = append(n.K, o.K[i]), append(n.V, o.V[i])
				}
			}
			st.heap[m.Obj] = &Obj{st.heap[m.Obj].Typ, n}
		}
		return one(st, VTuple{})
	case "clear":
		if m, ok := a[0].(VMap); ok {
			st.heap[m.Obj] = &Obj{st.heap[m.Obj].Typ, &mapObj{}}
			return one(st, VTuple{})
		}
		panic(undecided{"clear in " + f.fn.String()})
	case "min", "max":
		cur := []Res{{st: st, v: a[0]}}
		st.tmp = append(st.tmp, a...)
		for i := 1; i < len(a); i++ {
			var next []Res
			for _, r := range cur {
				b := r.st.tmp[len(r.st.tmp)-len(a)+i]
				op := token.LSS
				if name == "max" {
					op = token.GTR
				}
				r.st.tmp = append(r.st.tmp, r.v)
				for _, q := range in.binop(r.st, op, r.v, b, types.Typ[types.Int]) {
					v := q.st.tmp[len(q.st.tmp)-1]
					q.st.tmp = q.st.tmp[:len(q.st.tmp)-1]
					if !q.v.(VBool) {
						v = q.st.tmp[len(q.st.tmp)-len(a)+i]
					}
					next = append(next, Res{st: q.st, v: v})
				}
			}
			cur = next
		}
		for _, r := range cur {
			r.st.tmp = r.st.tmp[:len(r.st.tmp)-len(a)]
		}
		return cur
	case "recover":
		n := len(st.frames)
		if n >= 2 && st.frames[n-2].pan != nil {
			st.frames[n-2].pan = nil
			return one(st, VIface{in.errType(), st.opaque("recovered panic")})
		}
		return one(st, VNil{})
	case "print", "println":
		return one(st, VTuple{})
	case "ssa:wrapnilchk":
		if _, ok := a[0].(VNil); ok {
			return []Res{{st: st, pan: &PanicInfo{Why: "nil pointer dereference"}}}
		}
		return one(st, a[0])
	}
	return one(st, st.opaque("builtin "+name))
}

// appendVal models append: the elements after the window of the destination are overwritten, as with spare capacity.
func (in *Interp) appendVal(st *State, dst Val, rest []Val, el types.Type) Val {
	var es []Val
	for _, r := range rest {
		switch x := r.(type) {
		case VSlice:
			w, ok := st.window(x)
			if !ok {
				panic(undecided{"append of an unknown part of a list in " + st.top().fn.String()})
			}
			es = append(es, w...)
		case VNil:
		case VStr: // append([]byte, string...)
			es = append(es, VBuild{x})
		case VOpaque:
			return st.opaque("append")
		default:
			return st.opaque("append")
		}
	}
	switch d := dst.(type) {
	case VNil:
		if len(es) == 0 {
			return d
		}
		return VSlice{st.alloc(types.NewSlice(elOr(el)), VArr{append([]Val(nil), es...)}), VInt{}, in.slen(es)}
	case VSlice:
		o := st.heap[d.Obj]
		if o == nil {
			return st.opaque("append")
		}
		arr, ok := o.V.(VArr)
		if !ok {
			return st.opaque("append")
		}
		if len(es) == 0 {
			return d
		}
		e, ok := st.elemPos(arr.E, d.Lo.add(d.Len, 1))
		if !ok {
			panic(undecided{"append to an unknown part of a list in " + st.top().fn.String()})
		}
		out := append(append([]Val(nil), arr.E[:e]...), es...)
		if e+len(es) < len(arr.E) {
			out = append(out, arr.E[e+len(es):]...)
		}
		st.heap[d.Obj] = &Obj{o.Typ, VArr{out}}
		return VSlice{d.Obj, d.Lo, d.Len.add(in.slen(es), 1)}
	}
	return st.opaque("append")
}

func elOr(t types.Type) types.Type {
	if t == nil {
		return types.Universe.Lookup("any").Type()
	}
	return t
}

// slen is the length of elements, counting the current element of an abstract iteration as one.
func (in *Interp) slen(es []Val) VInt { return listLen(es) }

// helpers

func asStr(v Val) (VStr, bool) { s, ok := v.(VStr); return s, ok }

func unknownStr(st *State, from ...Val) VStr {
	a := SAttr{CS: allChars, Max: inf, Taint: taintUnknown}
	lost := true
	for _, f := range from {
		if s, ok := f.(VStr); ok {
			a.Taint |= st.attr(s).Taint
			lost = false
		}
	}
	if lost {
		a.Taint |= taintLost
	}
	return st.newStr(a)
}

func allLit(a []Val) ([]string, bool) {
	var out []string
	for _, x := range a {
		s, ok := x.(VStr)
		if !ok {
			return nil, false
		}
		l, ok := s.isLit()
		if !ok {
			return nil, false
		}
		out = append(out, l)
	}
	return out, true
}

func partAttr(st *State, p Part) SAttr { return st.attr(VStr{[]Part{p}}) }

// caseMap maps a text to one case.
func caseMap(st *State, s VStr, upper bool) VStr {
	conv := strings.ToLower
	conv1 := unicode.ToLower
	fn := "lower"
	if upper {
		conv, conv1, fn = strings.ToUpper, unicode.ToUpper, "upper"
	}
	var ps []VStr
	for _, p := range s.P {
		switch p.K {
		case 'l':
			ps = append(ps, lit(conv(p.Lit)))
			continue
		case 'd':
			ps = append(ps, VStr{[]Part{p}})
			continue
		case 'f':
			if p.Fn == fn {
				ps = append(ps, VStr{[]Part{p}})
				continue
			}
		}
		a := partAttr(st, p)
		if a.CS.Size() <= 64 && a.Taint&taintUnknown == 0 {
			img := map[rune]bool{}
			same := true
			for _, r := range a.CS {
				for c := r.Lo; c <= r.Hi; c++ {
					img[conv1(rune(c))] = true
					same = same && conv1(rune(c)) == rune(c)
				}
			}
			if len(img) == 1 && a.Min == 1 && a.Max == 1 {
				for c := range img {
					ps = append(ps, lit(string(c)))
				}
				continue
			}
			if same {
				ps = append(ps, VStr{[]Part{p}})
				continue
			}
		}
		ps = append(ps, VStr{[]Part{{K: 'f', Fn: fn, A: []Val{VStr{[]Part{p}}}}}})
	}
	return concat(ps...)
}

func charSetOf(s string) CharSet {
	var cs CharSet
	for _, r := range s {
		cs = append(cs, Range{r, r})
	}
	return cs.norm()
}

// replaceAll models strings.ReplaceAll with a constant pattern.
func (in *Interp) replaceAll(st *State, s VStr, old, nw string) VStr {
	if l, ok := s.isLit(); ok {
		return lit(strings.ReplaceAll(l, old, nw))
	}
	if old == nw {
		return s
	}
	a := st.attr(s)
	if a.Taint&taintUnknown == 0 {
		for _, r := range old {
			if !a.CS.Has(r) {
				return s
			}
		}
	}
	rs := []rune(old)
	if len(rs) == 1 {
		var ps []VStr
		good := true
		for _, p := range s.P {
			if p.K == 'l' {
				ps = append(ps, lit(strings.ReplaceAll(p.Lit, old, nw)))
				continue
			}
			pa := partAttr(st, p)
			if pa.Taint&taintUnknown == 0 && !pa.CS.Has(rs[0]) {
				ps = append(ps, VStr{[]Part{p}})
				continue
			}
			if nw == "" {
				ps = append(ps, applyFn("drop", []Val{VStr{[]Part{p}}, lit(old)}))
				continue
			}
			good = false
		}
		if good {
			return concat(ps...)
		}
	}
	if old == "\r\n" && nw == "" && a.Paired {
		return applyFn("drop", []Val{s, lit("\n\r")})
	}
	return sFn("replace", s, lit(old), lit(nw))
}

// hasPrefix decides whether s starts with the constant p.
func (in *Interp) hasPrefix(st *State, s VStr, p string, suffix bool) []Res {
	if p == "" {
		return one(st, VBool(true))
	}
	if len(s.P) == 0 {
		return one(st, VBool(false))
	}
	rs := []rune(p)
	var c VInt
	var rest VStr
	var ok bool
	var first rune
	var restP string
	if suffix {
		c, rest, ok = lastChar(st, s)
		first, restP = rs[len(rs)-1], string(rs[:len(rs)-1])
	} else {
		c, rest, ok = headChar(st, s)
		first, restP = rs[0], string(rs[1:])
	}
	if ok {
		st.tmp = append(st.tmp, rest)
		var out []Res
		for _, r := range in.cmpInt(st, c.add(iConst(int64(first)), -1), token.EQL) {
			n := len(r.st.tmp)
			rest := r.st.tmp[n-1].(VStr)
			r.st.tmp = r.st.tmp[:n-1]
			if r.v.(VBool) {
				out = append(out, in.hasPrefix(r.st, rest, restP, suffix)...)
			} else {
				out = append(out, r)
			}
		}
		return out
	}
	a := st.attr(s)
	if a.Taint&taintUnknown == 0 {
		for _, r := range p {
			if !a.CS.Has(r) {
				return one(st, VBool(false))
			}
		}
	}
	pt := s.P[0]
	if suffix {
		pt = s.P[len(s.P)-1]
	}
	if pa := partAttr(st, pt); pa.Min >= 1 && pa.Taint&taintUnknown == 0 && !pa.CS.Has(first) {
		return one(st, VBool(false))
	}
	n := "hasprefix"
	if suffix {
		n = "hassuffix"
	}
	return in.pred(st, n, s, lit(p))
}

// lastChar splits the last character off a string.
func lastChar(st *State, s VStr) (VInt, VStr, bool) {
	if len(s.P) == 0 {
		return VInt{}, s, false
	}
	n := len(s.P) - 1
	p := s.P[n]
	rest := VStr{s.P[:n:n]}
	switch p.K {
	case 'l':
		rs := []rune(p.Lit)
		return iConst(int64(rs[len(rs)-1])), concat(rest, lit(string(rs[:len(rs)-1]))), true
	case 'd':
		return p.I.add(iConst('0'), 1), rest, true
	case 'a':
		at := st.sat[p.ID]
		if at.Min == 1 && at.Max == 1 {
			return iFn("chr", VStr{s.P[n:]}), rest, true
		}
	}
	return VInt{}, s, false
}

// containsAny decides whether s has a character of the set (or the substring, when sub).
func (in *Interp) contains(st *State, s VStr, what string, set bool) []Res {
	if what == "" {
		return one(st, VBool(!set))
	}
	if l, ok := s.isLit(); ok {
		if set {
			return one(st, VBool(strings.ContainsAny(l, what)))
		}
		return one(st, VBool(strings.Contains(l, what)))
	}
	for _, p := range s.P {
		if p.K == 'l' && (set && strings.ContainsAny(p.Lit, what) || !set && strings.Contains(p.Lit, what)) {
			return one(st, VBool(true))
		}
	}
	a := st.attr(s)
	cs := charSetOf(what)
	if a.Taint&taintUnknown == 0 {
		if set && len(a.CS.Inter(cs)) == 0 {
			return one(st, VBool(false))
		}
		if !set {
			for _, r := range what {
				if !a.CS.Has(r) {
					return one(st, VBool(false))
				}
			}
		}
	}
	if set || len([]rune(what)) == 1 {
		for _, p := range s.P {
			pa := partAttr(st, p)
			if pa.Min >= 1 && pa.Taint&taintUnknown == 0 && len(pa.CS.Minus(cs)) == 0 {
				return one(st, VBool(true))
			}
		}
		// fork and narrow when only one unknown can contain it
		k := predKey("hasany", []Val{s, lit(sortChars(what))})
		if p, ok := st.preds[k]; ok {
			return one(st, VBool(p.Ans))
		}
		rs := in.pred(st, "hasany", s, lit(sortChars(what)))
		for _, r := range rs {
			if !r.v.(VBool) {
				for _, p := range s.P {
					if p.K == 'a' {
						at := r.st.sat[p.ID]
						at.CS = at.CS.Minus(cs)
						r.st.sat[p.ID] = at
					}
				}
			}
		}
		return rs
	}
	return in.pred(st, "contains", s, lit(what))
}

// trim models the Trim family with a constant set.
func (in *Interp) trim(st *State, s VStr, set string, left, right bool) VStr {
	if l, ok := s.isLit(); ok {
		if left {
			l = strings.TrimLeft(l, set)
		}
		if right {
			l = strings.TrimRight(l, set)
		}
		return lit(l)
	}
	cs := charSetOf(set)
	one := func(s VStr, fromRight bool) (VStr, bool) {
		for len(s.P) > 0 {
			i := 0
			if fromRight {
				i = len(s.P) - 1
			}
			p := s.P[i]
			cut := func(n VStr) {
				if fromRight {
					s = concat(VStr{s.P[:i]}, n)
				} else {
					s = concat(n, VStr{s.P[1:]})
				}
			}
			if p.K == 'l' {
				t := p.Lit
				if fromRight {
					t = strings.TrimRight(t, set)
				} else {
					t = strings.TrimLeft(t, set)
				}
				if t == p.Lit {
					return s, true
				}
				if t != "" {
					cut(lit(t))
					return s, true
				}
				cut(VStr{})
				continue
			}
			a := partAttr(st, p)
			if a.Taint&taintUnknown != 0 {
				return s, false
			}
			if len(a.CS.Minus(cs)) == 0 {
				cut(VStr{})
				continue
			}
			if len(a.CS.Inter(cs)) == 0 {
				if a.Min >= 1 {
					return s, true
				}
				return s, false
			}
			return s, false
		}
		return s, true
	}
	good := true
	if left {
		var ok bool
		s, ok = one(s, false)
		good = good && ok
	}
	if right {
		var ok bool
		s, ok = one(s, true)
		good = good && ok
	}
	if good {
		return s
	}
	if len(st.attr(s).CS.Inter(cs)) == 0 && st.attr(s).Taint&taintUnknown == 0 {
		return s
	}
	return sFn(fmt.Sprintf("trim%v%v", left, right), s, lit(sortChars(set)))
}

const asciiSpace = "\t\n\v\f\r \u0085\u00a0"

// itoa is the decimal text of a number.
func itoa(st *State, v VInt) VStr {
	if c, ok := v.isConst(); ok {
		return lit(strconv.FormatInt(c, 10))
	}
	if lo, hi := st.bounds(v); lo >= 0 && hi <= 9 {
		return sDigit(v)
	}
	return sFn("itoa", v)
}

// sprint renders a value the way %v does.
func (in *Interp) sprint(st *State, v Val, verb string) VStr {
	if i, ok := v.(VIface); ok {
		if _, isStr := i.V.(VStr); isStr || true {
			if b, ok := i.T.Underlying().(*types.Basic); ok {
				if ms := types.NewMethodSet(i.T); ms.Lookup(nil, "String") == nil {
					switch x := i.V.(type) {
					case VStr:
						if verb == "v" || verb == "s" || verb == "" {
							return x
						}
						if verb == "q" {
							if l, ok := x.isLit(); ok {
								return lit(strconv.Quote(l))
							}
						}
					case VInt:
						if verb == "v" || verb == "d" || verb == "" {
							return itoa(st, x)
						}
						if verb == "c" || verb == "s" && b.Kind() == types.Int32 {
							if s, ok := chrToStr(st, x); ok {
								return s
							}
						}
						if verb == "02d" {
							if c, ok := x.isConst(); ok {
								return lit(fmt.Sprintf("%02d", c))
							}
							if lo, hi := st.bounds(x); lo >= 0 && hi <= 9 {
								return concat(lit("0"), sDigit(x))
							}
						}
					case VBool:
						if verb == "v" || verb == "t" || verb == "" {
							return lit(fmt.Sprint(bool(x)))
						}
					}
				}
			}
		}
		return sFn("fmt "+verb, i.V)
	}
	return sFn("fmt "+verb, v)
}

func (in *Interp) sprintf(st *State, a []Val) VStr {
	f, ok := a[0].(VStr)
	format, isL := f.isLit()
	if !ok || !isL {
		return unknownStr(st)
	}
	var args []Val
	if len(a) > 1 {
		switch s := a[1].(type) {
		case VSlice:
			w, ok := st.window(s)
			if !ok {
				return unknownStr(st)
			}
			args = w
		case VNil:
		default:
			return unknownStr(st)
		}
	}
	var out VStr
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = concat(out, lit(format[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return unknownStr(st)
		}
		if format[j] == '%' {
			out = concat(out, lit("%"))
			i = j
			continue
		}
		if n >= len(args) {
			return unknownStr(st)
		}
		out = concat(out, in.sprint(st, args[n], format[i+1:j+1]))
		n++
		i = j
	}
	return out
}

// numText parses a text as a decimal number: an optional sign and digits.
func numText(s VStr) (VInt, bool) {
	neg := false
	if len(s.P) > 0 && s.P[0].K == 'l' && len(s.P[0].Lit) > 0 && (s.P[0].Lit[0] == '+' || s.P[0].Lit[0] == '-') {
		neg = s.P[0].Lit[0] == '-'
		s = concat(lit(s.P[0].Lit[1:]), VStr{s.P[1:]})
	}
	v, n, ok := digitsInt(s)
	if !ok || n > 17 {
		return VInt{}, false
	}
	if neg {
		v = v.mul(-1)
	}
	return v, true
}

func (in *Interp) atoi(st *State, s VStr, fn *ssa.Function) []Res {
	if l, ok := s.isLit(); ok {
		n, err := strconv.Atoi(l)
		if err != nil {
			return one(st, VTuple{VInt{}, in.newError(st, "bad number")})
		}
		return one(st, VTuple{iConst(int64(n)), VNil{}})
	}
	if v, ok := numText(s); ok {
		return one(st, VTuple{v, VNil{}})
	}
	a := st.attr(s)
	if a.Taint&taintUnknown == 0 && len(a.CS.Inter(CharSet{{'0', '9'}})) == 0 {
		return one(st, VTuple{VInt{}, in.newError(st, "bad number")})
	}
	var out []Res
	for _, r := range in.pred(st, "number", s) {
		if r.v.(VBool) {
			out = append(out, Res{st: r.st, v: VTuple{iFn("atoi", s), VNil{}}})
		} else {
			out = append(out, Res{st: r.st, v: VTuple{r.st.newInt(-inf, inf), in.newError(r.st, "bad number")}})
		}
	}
	return out
}

// parseDuration models time.ParseDuration for texts with known units.
func parseDuration(s VStr) (VInt, bool) {
	units := map[string]int64{"ns": 1, "us": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9}
	neg := false
	total := VInt{}
	// flatten into characters: digits or letters
	type ch struct {
		d *VInt
		c byte
	}
	var cs []ch
	for _, p := range s.P {
		switch p.K {
		case 'l':
			for i := 0; i < len(p.Lit); i++ {
				cs = append(cs, ch{c: p.Lit[i]})
			}
		case 'd':
			v := p.I
			cs = append(cs, ch{d: &v})
		default:
			return total, false
		}
	}
	i := 0
	if i < len(cs) && cs[i].d == nil && (cs[i].c == '+' || cs[i].c == '-') {
		neg = cs[i].c == '-'
		i++
	}
	if i == len(cs) {
		return total, false
	}
	for i < len(cs) {
		v := VInt{}
		n := 0
		for i < len(cs) {
			if cs[i].d != nil {
				v = v.mul(10).add(*cs[i].d, 1)
			} else if cs[i].c >= '0' && cs[i].c <= '9' {
				v = v.mul(10).add(iConst(int64(cs[i].c-'0')), 1)
			} else {
				break
			}
			n++
			i++
		}
		u := ""
		for i < len(cs) && cs[i].d == nil && cs[i].c >= 'a' && cs[i].c <= 'z' {
			u += string(cs[i].c)
			i++
		}
		k, ok := units[u]
		if n == 0 || n > 6 || !ok {
			return total, false
		}
		total = total.add(v, k)
	}
	if neg {
		total = total.mul(-1)
	}
	return total, true
}

func mkOK(v ...Val) Val { return VTuple(v) }

func strArg(st *State, a []Val, i int) VStr {
	if i < len(a) {
		if s, ok := a[i].(VStr); ok {
			return s
		}
	}
	return unknownStr(st)
}

func constArg(a []Val, i int) (int64, bool) {
	if i < len(a) {
		if v, ok := a[i].(VInt); ok {
			return v.isConst()
		}
	}
	return 0, false
}

// runeSetModel builds a model out of "does the text have one of these characters".
func litOr(st *State, a []Val, i int) (string, bool) {
	if i >= len(a) {
		return "", false
	}
	s, ok := a[i].(VStr)
	if !ok {
		if v, ok := a[i].(VInt); ok {
			if c, ok := v.isConst(); ok {
				return string(rune(c)), true
			}
		}
		return "", false
	}
	return s.isLit()
}

var models map[string]model

func builderRecv(in *Interp, st *State, v Val) (VPtr, VBuild, bool) {
	p, ok := v.(VPtr)
	if !ok {
		return p, VBuild{}, false
	}
	o := st.heap[p.Obj]
	if o == nil {
		return p, VBuild{}, false
	}
	x, ok := getPath(o.V, p.Path)
	b, ok2 := x.(VBuild)
	return p, b, ok && ok2
}

// eachConst gives a text for each of the few values of a number.
func (in *Interp) eachConst(st *State, v VInt, f func(int64) Val) []Res {
	if c, ok := v.isConst(); ok {
		return one(st, f(c))
	}
	lo, hi := st.bounds(v)
	if hi-lo > 12 || lo > hi {
		return one(st, unknownStr(st))
	}
	var out []Res
	cur := st
	cur.tmp = append(cur.tmp, v)
	for c := lo; c <= hi && cur != nil; c++ {
		x := cur.tmp[len(cur.tmp)-1].(VInt)
		rs := in.cmpInt(cur, x.add(iConst(c), -1), token.EQL)
		cur = nil
		for _, r := range rs {
			if r.v.(VBool) {
				r.st.tmp = r.st.tmp[:len(r.st.tmp)-1]
				out = append(out, Res{st: r.st, v: f(c)})
			} else {
				cur = r.st
			}
		}
	}
	return out
}

// timeField reads a field of a time whose date may need normalising.
func (in *Interp) timeField(st *State, t Val, k int) []Res {
	x, ok := t.(VTime)
	if !ok {
		return one(st, st.newInt(-inf, inf))
	}
	var out []Res
	for _, r := range in.normTime(st, x) {
		if n, ok := r.v.(VTime); ok {
			out = append(out, Res{st: r.st, v: n.F[k]})
		} else {
			out = append(out, Res{st: r.st, v: r.st.newInt(-inf, inf)})
		}
	}
	return out
}

// normTime brings the fields of a time into range, forking on whether they are.
func (in *Interp) normTime(st *State, t VTime) []Res {
	st.tmp = append(st.tmp, t)
	cur := []*State{st}
	var out []Res
	get := func(s *State) VTime { return s.tmp[len(s.tmp)-1].(VTime) }
	set := func(s *State, t VTime) { s.tmp[len(s.tmp)-1] = t }
	bad := func(s *State) {
		s.tmp = s.tmp[:len(s.tmp)-1]
		out = append(out, Res{st: s, v: s.opaque("normalised time")})
	}
	rng := func(k int, lo, hi int64, over func(s *State, t VTime) bool) {
		var next []*State
		for _, s := range cur {
			for _, r := range in.cmpInt(s, get(s).F[k].add(iConst(lo), -1), token.LSS) {
				if r.v.(VBool) {
					bad(r.st)
					continue
				}
				for _, q := range in.cmpInt(r.st, get(r.st).F[k].add(iConst(hi), -1), token.GTR) {
					if q.v.(VBool) {
						if over == nil || !over(q.st, get(q.st)) {
							bad(q.st)
							continue
						}
					}
					next = append(next, q.st)
				}
			}
		}
		cur = next
	}
	rng(6, 0, 999999999, nil)
	rng(5, 0, 59, func(s *State, t VTime) bool {
		if lo, hi := s.bounds(t.F[5]); lo == 60 && hi == 60 {
			t.F[5] = VInt{}
			t.F[4] = t.F[4].add(iConst(1), 1)
			set(s, t)
			return true
		}
		return false
	})
	carry := func(k, mod int) func(s *State, t VTime) bool {
		return func(s *State, t VTime) bool {
			if lo, hi := s.bounds(t.F[k]); lo >= int64(mod) && hi < int64(2*mod) {
				t.F[k] = t.F[k].add(iConst(int64(mod)), -1)
				if k > 3 {
					t.F[k-1] = t.F[k-1].add(iConst(1), 1)
				} else {
					t.F[2] = t.F[2].add(iConst(1), 1)
				}
				set(s, t)
				return true
			}
			return false
		}
	}
	rng(4, 0, 59, carry(4, 60))
	rng(3, 0, 23, carry(3, 24))
	rng(1, 1, 12, func(s *State, t VTime) bool {
		if lo, hi := s.bounds(t.F[1]); lo == 13 && hi == 13 {
			t.F[1] = iConst(1)
			t.F[0] = t.F[0].add(iConst(1), 1)
			set(s, t)
			return true
		}
		return false
	})
	// the day: one month after the other, as long as it is a few
	for round := 0; len(cur) > 0; round++ {
		todo := cur
		cur = nil
		if round > 6 {
			for _, s := range todo {
				bad(s)
			}
			break
		}
		for _, s := range todo {
			for _, r := range in.cmpInt(s, get(s).F[2].add(iConst(1), -1), token.LSS) {
				if r.v.(VBool) {
					out = append(out, in.dayBefore(r.st, bad)...)
					continue
				}
				t := get(r.st)
				n := applyIFn("daysin", []Val{t.F[0], t.F[1]})
				for _, q := range in.cmpInt(r.st, t.F[2].add(n, -1), token.GTR) {
					t := get(q.st)
					if !q.v.(VBool) {
						q.st.tmp = q.st.tmp[:len(q.st.tmp)-1]
						out = append(out, Res{st: q.st, v: t})
						continue
					}
					if _, hi := q.st.bounds(t.F[2]); hi > 150 {
						bad(q.st)
						continue
					}
					t.F[2] = t.F[2].add(applyIFn("daysin", []Val{t.F[0], t.F[1]}), -1)
					set(q.st, t)
					for _, w := range in.cmpInt(q.st, t.F[1].add(iConst(12), -1), token.EQL) {
						t := get(w.st)
						if w.v.(VBool) {
							t.F[1], t.F[0] = iConst(1), t.F[0].add(iConst(1), 1)
						} else {
							t.F[1] = t.F[1].add(iConst(1), 1)
						}
						set(w.st, t)
						cur = append(cur, w.st)
					}
				}
			}
		}
	}
	return out
}

// dayBefore normalises a day below 1: day 0 is the last day of the month before.
func (in *Interp) dayBefore(st *State, bad func(*State)) []Res {
	t := st.tmp[len(st.tmp)-1].(VTime)
	if lo, hi := st.bounds(t.F[2]); lo != 0 || hi != 0 {
		bad(st)
		return nil
	}
	var out []Res
	for _, q := range in.cmpInt(st, t.F[1].add(iConst(1), -1), token.EQL) {
		t := q.st.tmp[len(q.st.tmp)-1].(VTime)
		pm, py := t.F[1].add(iConst(1), -1), t.F[0]
		if q.v.(VBool) {
			pm, py = iConst(12), t.F[0].add(iConst(1), -1)
		}
		t.F[2], t.F[1], t.F[0] = applyIFn("daysin", []Val{py, pm}), pm, py
		q.st.tmp = q.st.tmp[:len(q.st.tmp)-1]
		out = append(out, Res{st: q.st, v: t})
	}
	return out
}

// mapChars models strings.Map for a function that keeps or drops characters.
func (in *Interp) mapChars(st *State, f Val, s VStr) []Res {
	// the characters the function drops
	cs := st.attr(s).CS
	id := st.id()
	b := st.clone()
	b.sat[id] = SAttr{CS: cs, Min: 1, Max: 1}
	if len(cs) == 0 {
		return one(st, s)
	}
	before := len(b.heap)
	dropped := CharSet{}
	good := true
	repl := map[int32]string{}
	b.tmp = append(b.tmp, sAtom(id))
	for _, r := range in.invokeVal(b, f, []Val{iFn("chr", sAtom(id))}, token.NoPos) {
		if r.pan != nil || len(r.st.heap) > before+4 {
			good = false
			break
		}
		arg := r.st.tmp[len(r.st.tmp)-1].(VStr)
		var set CharSet
		if l, ok := arg.isLit(); ok {
			set = charSetOf(l)
		} else {
			set = r.st.sat[id].CS
		}
		v, ok := r.v.(VInt)
		if !ok {
			good = false
			break
		}
		if lo, hi := r.st.bounds(v); hi < 0 {
			_ = lo
			dropped = dropped.Union(set)
			continue
		}
		if ch, ok := chrToStr(r.st, v); ok && keyOf(ch) == keyOf(arg) {
			continue
		}
		if c, ok := v.isConst(); ok && set.Size() <= 8 {
			for _, q := range set {
				for x := q.Lo; x <= q.Hi; x++ {
					repl[x] = string(rune(c))
				}
			}
			continue
		}
		good = false
	}
	if good && dropped.Size() <= 300 {
		var sb strings.Builder
		for _, q := range dropped {
			for c := q.Lo; c <= q.Hi; c++ {
				sb.WriteRune(rune(c))
			}
		}
		out := s
		for c, n := range repl {
			out = in.replaceAll(st, out, string(rune(c)), n)
		}
		if sb.Len() > 0 {
			out = dropChars(st, out, sb.String())
		}
		return one(st, out)
	}
	return one(st, unknownStr(st, s))
}

// dropChars removes characters from a text.
func dropChars(st *State, s VStr, set string) VStr {
	var ps []VStr
	for _, p := range s.P {
		if p.K != 'l' {
			a := partAttr(st, p)
			in := a.CS.Inter(charSetOf(set))
			if a.Taint&taintUnknown == 0 && len(in) == 0 {
				ps = append(ps, VStr{[]Part{p}})
				continue
			}
			if a.Taint&taintUnknown == 0 {
				var sb strings.Builder
				for _, q := range in {
					for c := q.Lo; c <= q.Hi; c++ {
						sb.WriteRune(rune(c))
					}
				}
				ps = append(ps, applyFn("drop", []Val{VStr{[]Part{p}}, lit(sb.String())}))
				continue
			}
		}
		ps = append(ps, applyFn("drop", []Val{VStr{[]Part{p}}, lit(set)}))
	}
	return concat(ps...)
}

func init() {
	str1 := func(f func(in *Interp, st *State, s VStr) VStr) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return one(st, f(in, st, strArg(st, a, 0)))
		}
	}
	unk := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		return one(st, in.unknownResult(st, fn.Signature, fn.String()))
	}
	noop := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		return one(st, in.zeroResult(fn.Signature))
	}
	newErr := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		return one(st, in.newError(st, "error"))
	}
	prefix := func(suffix bool) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if p, ok := litOr(st, a, 1); ok {
				return in.hasPrefix(st, strArg(st, a, 0), p, suffix)
			}
			return in.pred(st, fn.Name(), a...)
		}
	}
	trimFix := func(suffix bool) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			p, ok := litOr(st, a, 1)
			if !ok {
				return one(st, unknownStr(st, a...))
			}
			st.tmp = append(st.tmp, strArg(st, a, 0))
			var out []Res
			for _, r := range in.hasPrefix(st, strArg(st, a, 0), p, suffix) {
				n := len(r.st.tmp)
				s := r.st.tmp[n-1].(VStr)
				r.st.tmp = r.st.tmp[:n-1]
				if r.v.(VBool) {
					t := s
					good := true
					for range []rune(p) {
						var ok bool
						if suffix {
							_, t, ok = lastChar(r.st, t)
						} else {
							_, t, ok = headChar(r.st, t)
						}
						good = good && ok
					}
					if good {
						s = t
					} else {
						s = sFn("cut"+fn.Name(), s, lit(p))
					}
				}
				out = append(out, Res{st: r.st, v: s})
			}
			return out
		}
	}
	cutFix := func(suffix bool) model {
		tf := trimFix(suffix)
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			st.tmp = append(st.tmp, strArg(st, a, 0))
			var out []Res
			for _, r := range tf(in, st, a, fn) {
				n := len(r.st.tmp)
				s := r.st.tmp[n-1].(VStr)
				r.st.tmp = r.st.tmp[:n-1]
				out = append(out, Res{st: r.st, v: VTuple{r.v, VBool(keyOf(s) != keyOf(r.v))}})
			}
			return out
		}
	}
	contains := func(set bool) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if p, ok := litOr(st, a, 1); ok {
				return in.contains(st, strArg(st, a, 0), p, set)
			}
			if s, ok := asStr(a[1]); ok && !set && fn.Name() == "Contains" {
				// a constant text searched for an unknown single character
				if l, ok := strArg(st, a, 0).isLit(); ok {
					if c, _, ok := headChar(st, s); ok && len(s.P) == 1 {
						return in.memberOf(st, c, l)
					}
				}
			}
			if v, ok := a[1].(VInt); ok {
				if l, ok := strArg(st, a, 0).isLit(); ok {
					return in.memberOf(st, v, l)
				}
			}
			return in.pred(st, fn.Name(), a...)
		}
	}
	index := func(set bool) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			p, ok := litOr(st, a, 1)
			s := strArg(st, a, 0)
			if !ok {
				if v, ok2 := a[1].(VInt); ok2 {
					if l, ok3 := s.isLit(); ok3 {
						var out []Res
						for _, r := range in.memberOf(st, v, l) {
							if r.v.(VBool) {
								out = append(out, Res{st: r.st, v: r.st.newInt(0, int64(len(l)))})
							} else {
								out = append(out, Res{st: r.st, v: iConst(-1)})
							}
						}
						return out
					}
				}
				return one(st, st.newInt(-1, inf))
			}
			if l, ok := s.isLit(); ok {
				if set {
					return one(st, iConst(int64(strings.IndexAny(l, p))))
				}
				if strings.HasPrefix(fn.Name(), "Last") {
					return one(st, iConst(int64(strings.LastIndex(l, p))))
				}
				return one(st, iConst(int64(strings.Index(l, p))))
			}
			var out []Res
			st.tmp = append(st.tmp, s)
			for _, r := range in.contains(st, s, p, set) {
				n := len(r.st.tmp)
				s := r.st.tmp[n-1].(VStr)
				r.st.tmp = r.st.tmp[:n-1]
				if r.v.(VBool) {
					// known when everything before it is
					off := VInt{}
					found := false
					if !strings.HasPrefix(fn.Name(), "Last") {
						for _, q := range s.P {
							if q.K == 'l' {
								if i := strings.Index(q.Lit, p); i >= 0 && !set {
									off, found = off.add(iConst(int64(i)), 1), true
									break
								}
							} else if pa := partAttr(r.st, q); pa.Taint&taintUnknown != 0 || len(pa.CS.Inter(charSetOf(p))) > 0 {
								break
							}
							off = off.add(applyIFn("len", []Val{VStr{[]Part{q}}}), 1)
						}
					}
					if found && !set {
						out = append(out, Res{st: r.st, v: off})
					} else {
						_, hi := r.st.bounds(applyIFn("len", []Val{s}))
						out = append(out, Res{st: r.st, v: r.st.newInt(0, max(0, hi-1))})
					}
				} else {
					out = append(out, Res{st: r.st, v: iConst(-1)})
				}
			}
			return out
		}
	}
	trim := func(left, right, space bool) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			set := asciiSpace
			if !space {
				var ok bool
				if set, ok = litOr(st, a, 1); !ok {
					return one(st, unknownStr(st, a...))
				}
			}
			return one(st, in.trim(st, strArg(st, a, 0), set, left, right))
		}
	}
	replace := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		old, ok1 := litOr(st, a, 1)
		nw, ok2 := litOr(st, a, 2)
		if fn.Name() == "Replace" {
			if n, ok := constArg(a, 3); !ok || n >= 0 {
				if ok && n == 0 {
					return one(st, a[0])
				}
				s := strArg(st, a, 0)
				if l, lit1 := s.isLit(); lit1 && ok && ok1 && ok2 {
					return one(st, lit(strings.Replace(l, old, nw, int(n))))
				}
				at := st.attr(s)
				if ok1 && at.Taint&taintUnknown == 0 {
					for _, r := range old {
						if !at.CS.Has(r) {
							return one(st, s)
						}
					}
				}
				return one(st, sFn(fmt.Sprintf("replace%d", n), s, a[1], a[2]))
			}
		}
		if ok1 && ok2 {
			return one(st, in.replaceAll(st, strArg(st, a, 0), old, nw))
		}
		return one(st, unknownStr(st, a...))
	}
	compare := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		if l, ok := allLit(a); ok {
			return one(st, iConst(int64(strings.Compare(l[0], l[1]))))
		}
		return one(st, st.newInt(-1, 1))
	}
	num := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		return in.atoi(st, strArg(st, a, 0), fn)
	}
	parseInt := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		base, ok := constArg(a, 1)
		s := strArg(st, a, 0)
		if bits, ok2 := constArg(a, 2); ok2 && bits != 0 && bits < 32 {
			if v, ok := numText(s); ok && base == 10 {
				_, hi := st.bounds(v)
				if hi >= 1<<(bits-1) {
					return one(st, VTuple{st.newInt(-inf, inf), st.opaque("range error")})
				}
			}
		}
		if ok && base == 10 {
			return in.atoi(st, s, fn)
		}
		if _, isL := s.isLit(); !isL || !ok {
			if ok && base == 0 {
				// a leading zero means octal
				return one(st, VTuple{st.newInt(-inf, inf), st.opaque("number error")})
			}
			return one(st, VTuple{st.newInt(-inf, inf), st.opaque("number error")})
		}
		l, _ := s.isLit()
		n, err := strconv.ParseInt(l, int(base), 64)
		if err != nil {
			return one(st, VTuple{VInt{}, in.newError(st, "bad number")})
		}
		return one(st, VTuple{iConst(n), VNil{}})
	}
	itoaM := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		if v, ok := a[0].(VInt); ok {
			if b, ok := constArg(a, 1); len(a) == 1 || ok && b == 10 {
				return one(st, itoa(st, v))
			}
		}
		return one(st, unknownStr(st))
	}
	timeF := func(k int) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			v := a[0]
			return in.timeField(st, v, k)
		}
	}
	durF := func(per int64) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if v, ok := a[0].(VInt); ok {
				return one(st, reduceF(VFloat{v, per}))
			}
			return one(st, unkFloat(st))
		}
	}
	durI := func(per int64) model {
		return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if v, ok := a[0].(VInt); ok {
				if q, ok := exactDiv(v, per); ok {
					return one(st, q)
				}
			}
			return one(st, st.newInt(-inf, inf))
		}
	}
	write := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		p, b, ok := builderRecv(in, st, a[0])
		if !ok {
			panic(undecided{"write to an unknown buffer in " + st.top().fn.String()})
		}
		var s VStr
		switch x := a[1].(type) {
		case VStr:
			s = x
		case VInt:
			t, ok := chrToStr(st, x)
			if !ok {
				t = unknownStr(st)
			}
			s = t
		case VSlice:
			s = unknownStr(st)
			if es, ok := st.window(x); ok {
				var ps []VStr
				good := true
				for _, e := range es {
					switch c := e.(type) {
					case VBuild:
						ps = append(ps, c.S)
					case VInt:
						t, ok := chrToStr(st, c)
						good = good && ok
						ps = append(ps, t)
					default:
						good = false
					}
				}
				if good {
					s = concat(ps...)
				}
			}
		case VNil:
		default:
			s = unknownStr(st)
		}
		in.store(st, p, VBuild{concat(b.S, s)})
		switch fn.Signature.Results().Len() {
		case 1:
			return one(st, VNil{})
		case 2:
			return one(st, VTuple{applyIFn("len", []Val{s}), VNil{}})
		}
		return one(st, VTuple{})
	}
	bString := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		if _, b, ok := builderRecv(in, st, a[0]); ok {
			return one(st, b.S)
		}
		return one(st, unknownStr(st))
	}
	bLen := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		if _, b, ok := builderRecv(in, st, a[0]); ok {
			return one(st, applyIFn("len", []Val{b.S}))
		}
		return one(st, st.newInt(0, inf))
	}
	bReset := func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		if p, _, ok := builderRecv(in, st, a[0]); ok {
			in.store(st, p, VBuild{})
		}
		return one(st, VTuple{})
	}
	models = map[string]model{
		"strings.ToLower": str1(func(in *Interp, st *State, s VStr) VStr { return caseMap(st, s, false) }),
		"strings.ToUpper": str1(func(in *Interp, st *State, s VStr) VStr { return caseMap(st, s, true) }),
		"strings.Clone":   str1(func(in *Interp, st *State, s VStr) VStr { return s }),
		"strings.EqualFold": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return in.eqStr(st, caseMap(st, strArg(st, a, 0), false), caseMap(st, strArg(st, a, 1), false))
		},
		"strings.HasPrefix":    prefix(false),
		"strings.HasSuffix":    prefix(true),
		"strings.TrimPrefix":   trimFix(false),
		"strings.TrimSuffix":   trimFix(true),
		"strings.CutPrefix":    cutFix(false),
		"strings.CutSuffix":    cutFix(true),
		"strings.Contains":     contains(false),
		"strings.ContainsRune": contains(false),
		"strings.ContainsAny":  contains(true),
		"strings.Index":        index(false),
		"strings.IndexByte":    index(false),
		"strings.IndexRune":    index(false),
		"strings.IndexAny":     index(true),
		"strings.LastIndex":    index(false),
		"strings.TrimSpace":    trim(true, true, true),
		"strings.Trim":         trim(true, true, false),
		"strings.TrimLeft":     trim(true, false, false),
		"strings.TrimRight":    trim(false, true, false),
		"strings.Replace":      replace,
		"strings.ReplaceAll":   replace,
		"strings.Compare":      compare,
		"strings.Map": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return in.mapChars(st, a[0], strArg(st, a, 1))
		},
		"strings.Title": unk,
		"strings.Repeat": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			n, ok := constArg(a, 1)
			if !ok || n < 0 || n > 1000 {
				return one(st, unknownStr(st, a...))
			}
			var out VStr
			for i := int64(0); i < n; i++ {
				out = concat(out, strArg(st, a, 0))
			}
			return one(st, out)
		},
		"strings.Count": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if l, ok := allLit(a); ok {
				return one(st, iConst(int64(strings.Count(l[0], l[1]))))
			}
			return one(st, st.newInt(0, inf))
		},
		"strings.Join": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			switch x := a[0].(type) {
			case VNil:
				return one(st, VStr{})
			case VSlice:
				if es, ok := st.window(x); ok {
					return one(st, applyFn("join", []Val{vlist{append([]Val(nil), es...)}, strArg(st, a, 1)}))
				}
			}
			return one(st, unknownStr(st))
		},
		"strings.Split": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if l, ok := allLit(a); ok {
				arr := VArr{}
				for _, x := range strings.Split(l[0], l[1]) {
					arr.E = append(arr.E, lit(x))
				}
				return one(st, VSlice{st.alloc(types.NewSlice(types.Typ[types.String]), arr), VInt{}, iConst(int64(len(arr.E)))})
			}
			s := strArg(st, a, 0)
			if sep, ok := litOr(st, a, 1); ok && sep != "" {
				at := st.attr(s)
				if at.Taint&taintUnknown == 0 {
					for _, r := range sep {
						if !at.CS.Has(r) {
							return one(st, VSlice{st.alloc(types.NewSlice(types.Typ[types.String]), VArr{[]Val{s}}), VInt{}, iConst(1)})
						}
					}
				}
			}
			at := st.attr(s)
			at.Min, at.Max, at.Paired = 0, inf, false
			id := st.id()
			st.lat[id] = LAttr{Min: 1, El: []SAttr{at}}
			es := []Val{VChunk{id}}
			return one(st, VSlice{st.alloc(types.NewSlice(types.Typ[types.String]), VArr{es}), VInt{}, listLen(es)})
		},
		"strings.Fields":    unk,
		"strings.NewReader": unk,
		"strings.NewReplacer": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if s, ok := a[0].(VSlice); ok {
				if es, ok := st.window(s); ok {
					if l, ok := allLit(es); ok {
						return one(st, VRepl{l})
					}
				}
			}
			return one(st, st.opaque("replacer"))
		},
		"(*strings.Replacer).Replace": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			r, ok := a[0].(VRepl)
			if !ok {
				return one(st, unknownStr(st, a...))
			}
			s := strArg(st, a, 1)
			if l, ok := s.isLit(); ok {
				return one(st, lit(strings.NewReplacer(r.Pairs...).Replace(l)))
			}
			single := true
			for i := 0; i+1 < len(r.Pairs); i += 2 {
				for j := i + 2; j+1 < len(r.Pairs); j += 2 {
					if strings.ContainsAny(r.Pairs[i+1], r.Pairs[j]) || strings.ContainsAny(r.Pairs[i], r.Pairs[j]) {
						single = false
					}
				}
			}
			if !single {
				return one(st, unknownStr(st, a...))
			}
			for i := 0; i+1 < len(r.Pairs); i += 2 {
				s = in.replaceAll(st, s, r.Pairs[i], r.Pairs[i+1])
			}
			return one(st, s)
		},
		"(*strings.Builder).WriteString": write,
		"(*strings.Builder).WriteByte":   write,
		"(*strings.Builder).WriteRune":   write,
		"(*strings.Builder).Write":       write,
		"(*strings.Builder).String":      bString,
		"(*strings.Builder).Len":         bLen,
		"(*strings.Builder).Reset":       bReset,
		"(*strings.Builder).Grow":        func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res { return one(st, VTuple{}) },
		"(*bytes.Buffer).WriteString":    write,
		"(*bytes.Buffer).WriteByte":      write,
		"(*bytes.Buffer).WriteRune":      write,
		"(*bytes.Buffer).Write":          write,
		"(*bytes.Buffer).String":         bString,
		"(*bytes.Buffer).Len":            bLen,
		"(*bytes.Buffer).Reset":          bReset,
		"(*bytes.Buffer).Grow":           func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res { return one(st, VTuple{}) },
		"strconv.Atoi":                   num,
		"strconv.ParseInt":               parseInt,
		"strconv.ParseUint":              parseInt,
		"strconv.Itoa":                   itoaM,
		"strconv.FormatInt":              itoaM,
		"fmt.Sprintf": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return one(st, in.sprintf(st, a))
		},
		"fmt.Sprint": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if s, ok := a[0].(VSlice); ok {
				if es, ok := st.window(s); ok {
					var out VStr
					prevStr := true
					for i, e := range es {
						isStr := false
						if x, ok := e.(VIface); ok {
							_, isStr = x.V.(VStr)
						}
						if i > 0 && !isStr && !prevStr {
							out = concat(out, lit(" "))
						}
						prevStr = isStr
						out = concat(out, in.sprint(st, e, "v"))
					}
					return one(st, out)
				}
			}
			return one(st, unknownStr(st))
		},
		"fmt.Errorf": newErr,
		"errors.New": newErr,
		"errors.Is": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if isNilVal(a[0]) || isNilVal(a[1]) {
				return one(st, VBool(isNilVal(a[0]) && isNilVal(a[1])))
			}
			if keyOf(a[0]) == keyOf(a[1]) {
				return one(st, VBool(true))
			}
			return in.pred(st, "errors.Is", a...)
		},
		"errors.Join": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if s, ok := a[0].(VSlice); ok {
				if es, ok := st.window(s); ok {
					for _, e := range es {
						if _, ok := e.(VIface); ok {
							return one(st, in.newError(st, "joined"))
						}
						if !isNilVal(e) {
							return one(st, st.opaque("joined error"))
						}
					}
					return one(st, VNil{})
				}
			}
			return one(st, VNil{})
		},
		"errors.Unwrap": unk,
		"time.FixedZone": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			off, ok := a[1].(VInt)
			if !ok {
				off = st.newInt(-inf, inf)
			}
			return one(st, VLoc{Name: strArg(st, a, 0), Off: off})
		},
		"time.LoadLocation": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return one(st, VTuple{VLoc{Name: strArg(st, a, 0), Off: st.newInt(-inf, inf)}, st.opaque("location error")})
		},
		"time.Date": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			var t VTime
			order := []int{0, 1, 2, 3, 4, 5, 6}
			for i, k := range order {
				v, ok := a[k].(VInt)
				if !ok {
					v = st.newInt(-inf, inf)
				}
				t.F[i] = v
			}
			if isNilVal(a[7]) {
				return []Res{{st: st, pan: &PanicInfo{Why: "time.Date with a nil location"}}}
			}
			t.Loc = a[7]
			return one(st, t)
		},
		"time.Now": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			var t VTime
			t.F = [7]VInt{st.newInt(1, 9999), st.newInt(1, 12), st.newInt(1, 31), st.newInt(0, 23), st.newInt(0, 59), st.newInt(0, 59), st.newInt(0, 999999999)}
			t.Loc = VLoc{Name: lit("Local"), Off: st.newInt(-86400, 86400)}
			return one(st, t)
		},
		"time.ParseDuration": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if v, ok := parseDuration(strArg(st, a, 0)); ok {
				return one(st, VTuple{v, VNil{}})
			}
			var out []Res
			for _, r := range in.pred(st, "duration", strArg(st, a, 0)) {
				if r.v.(VBool) {
					out = append(out, Res{st: r.st, v: VTuple{r.st.newInt(-inf, inf), VNil{}}})
				} else {
					out = append(out, Res{st: r.st, v: VTuple{VInt{}, in.newError(r.st, "bad duration")}})
				}
			}
			return out
		},
		"(time.Duration).Seconds":      durF(1e9),
		"(time.Duration).Minutes":      durF(60e9),
		"(time.Duration).Hours":        durF(3600e9),
		"(time.Duration).Nanoseconds":  durI(1),
		"(time.Duration).Milliseconds": durI(1e6),
		"(time.Month).String": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			v, ok := a[0].(VInt)
			if !ok {
				return one(st, unknownStr(st))
			}
			return in.eachConst(st, v, func(n int64) Val { return lit(time.Month(n).String()) })
		},
		"(time.Weekday).String": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			v, ok := a[0].(VInt)
			if !ok {
				return one(st, unknownStr(st))
			}
			return in.eachConst(st, v, func(n int64) Val { return lit(time.Weekday(n).String()) })
		},
		"(time.Time).Year":       timeF(0),
		"(time.Time).Month":      timeF(1),
		"(time.Time).Day":        timeF(2),
		"(time.Time).Hour":       timeF(3),
		"(time.Time).Minute":     timeF(4),
		"(time.Time).Second":     timeF(5),
		"(time.Time).Nanosecond": timeF(6),
		"(time.Time).Location": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if t, ok := a[0].(VTime); ok {
				return one(st, t.Loc)
			}
			return one(st, st.opaque("location"))
		},
		"(time.Time).Date": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			t, ok := a[0].(VTime)
			if !ok {
				return one(st, in.unknownResult(st, fn.Signature, "date"))
			}
			var out []Res
			for _, r := range in.normTime(st, t) {
				if n, ok := r.v.(VTime); ok {
					out = append(out, Res{st: r.st, v: VTuple{n.F[0], n.F[1], n.F[2]}})
				} else {
					out = append(out, Res{st: r.st, v: in.unknownResult(r.st, fn.Signature, "date")})
				}
			}
			return out
		},
		"(time.Time).AddDate": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			t, ok := a[0].(VTime)
			if !ok {
				return one(st, st.opaque("date"))
			}
			st.tmp = append(st.tmp, VTuple(a[1:]))
			var out []Res
			for _, r := range in.normTime(st, t) {
				k := len(r.st.tmp) - 1
				by := r.st.tmp[k].(VTuple)
				r.st.tmp = r.st.tmp[:k]
				n, ok := r.v.(VTime)
				for i := range by {
					d, isInt := by[i].(VInt)
					if ok = ok && isInt; ok {
						n.F[i] = n.F[i].add(d, 1)
					}
				}
				if ok {
					out = append(out, Res{st: r.st, v: n})
				} else {
					out = append(out, Res{st: r.st, v: r.st.opaque("date")})
				}
			}
			return out
		},
		"(time.Time).Clock": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			t, ok := a[0].(VTime)
			if !ok {
				return one(st, in.unknownResult(st, fn.Signature, "clock"))
			}
			var out []Res
			for _, r := range in.normTime(st, t) {
				if n, ok := r.v.(VTime); ok {
					out = append(out, Res{st: r.st, v: VTuple{n.F[3], n.F[4], n.F[5]}})
				} else {
					out = append(out, Res{st: r.st, v: in.unknownResult(r.st, fn.Signature, "clock")})
				}
			}
			return out
		},
		"(time.Time).UTC": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if t, ok := a[0].(VTime); ok {
				if l, ok := t.Loc.(VLoc); ok && isZero(l.Off) {
					return one(st, t)
				}
			}
			return one(st, st.opaque("time in UTC"))
		},
		"(time.Time).In": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if t, ok := a[0].(VTime); ok {
				l, ok1 := t.Loc.(VLoc)
				m, ok2 := a[1].(VLoc)
				if ok1 && ok2 && keyOf(l.Off) == keyOf(m.Off) {
					t.Loc = m
					return one(st, t)
				}
			}
			return one(st, st.opaque("time in another zone"))
		},
		"(time.Time).IsZero": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if t, ok := a[0].(VTime); ok && keyOf(t) == keyOf(zeroTime()) {
				return one(st, VBool(true))
			}
			return in.pred(st, "zero time", a[0])
		},
		"(time.Time).Add": unk, "(time.Time).Truncate": unk, "(time.Time).Round": unk,
		"(*sync.Mutex).Lock": noop, "(*sync.Mutex).Unlock": noop, "(*sync.RWMutex).Lock": noop, "(*sync.RWMutex).Unlock": noop,
		"(*sync.RWMutex).RLock": noop, "(*sync.RWMutex).RUnlock": noop,
		"(*sync.Once).Do": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			k := "once " + keyOf(a[0])
			if st.flags[k] {
				return one(st, VTuple{})
			}
			st.flags[k] = true
			var out []Res
			for _, r := range in.invokeVal(st, a[1], nil, token.NoPos) {
				if r.pan == nil {
					r.v = VTuple{}
				}
				out = append(out, r)
			}
			return out
		},
		"(*sync.Pool).Get": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return one(st, st.opaque("pooled object"))
		},
		"(*sync.Pool).Put": noop,
		"(*mime.WordDecoder).Decode": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return in.decode(st, a)
		},
		"unicode.ToLower": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return in.runeCase(st, a[0], false)
		},
		"unicode.ToUpper": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return in.runeCase(st, a[0], true)
		},
		"unicode.IsDigit":   runeIs(unicode.IsDigit),
		"unicode.IsLetter":  runeIs(unicode.IsLetter),
		"unicode.IsSpace":   runeIs(unicode.IsSpace),
		"unicode.IsControl": runeIs(unicode.IsControl),
		"unicode.IsUpper":   runeIs(unicode.IsUpper),
		"unicode.IsLower":   runeIs(unicode.IsLower),
		"unicode.IsPrint":   runeIs(unicode.IsPrint),
		"unicode/utf8.RuneCountInString": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			s := strArg(st, a, 0)
			at := st.attr(s)
			if at.Min == at.Max {
				return one(st, iConst(at.Min))
			}
			return one(st, iFn("runes", s))
		},
		"unicode/utf8.ValidString": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if at := st.attr(strArg(st, a, 0)); at.Taint&(taintUnknown|taintDecoded) == 0 && at.Max < inf {
				return one(st, VBool(true))
			}
			return in.pred(st, "validutf8", a[0])
		},
		"antlr.NewInputStream": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			s, ok := a[0].(VStr)
			if !ok || keyOf(s) != keyOf(st.keep[0]) {
				in.report("input", "call of antlr.NewInputStream in "+st.top().fn.String(), in.p.Pos(st.top().fn.Pos()), st, "the text handed to the recogniser is %s, not the caller's input", short(keyOf(a[0])))
			}
			return one(st, VExt{st.alloc(nil, &extObj{Kind: "input", A: []Val{a[0]}})})
		},
		"antlr.NewCommonTokenStream": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			if c, ok := constArg(a, 1); !ok || c != 0 {
				in.report("config", "call of antlr.NewCommonTokenStream in "+st.top().fn.String(), in.p.Pos(st.top().fn.Pos()), st, "the token stream does not read the default channel")
			}
			l := a[0]
			if i, ok := l.(VIface); ok {
				l = i.V
			}
			return one(st, VExt{st.alloc(nil, &extObj{Kind: "tokens", A: []Val{l}})})
		},
		"antlr.NewParseTreeWalker": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return one(st, VExt{st.alloc(nil, &extObj{Kind: "walker"})})
		},
		"antlr.NewDefaultErrorListener": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			return one(st, VPtr{Obj: st.alloc(t, zero(t))})
		},
		"(*antlr.ParseTreeWalker).Walk": func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
			return in.walkModel(st, a[1], a[2])
		},
	}
}

func unkFloat(st *State) Val { return st.opaque("float") }

// memberOf decides whether a character is one of a constant text.
func (in *Interp) memberOf(st *State, c VInt, l string) []Res {
	st.tmp = append(st.tmp, c)
	cur := []*State{st}
	var out []Res
	for _, r := range sortChars(l) {
		var next []*State
		for _, s := range cur {
			c := s.tmp[len(s.tmp)-1].(VInt)
			for _, q := range in.cmpInt(s, c.add(iConst(int64(r)), -1), token.EQL) {
				if q.v.(VBool) {
					q.st.tmp = q.st.tmp[:len(q.st.tmp)-1]
					out = append(out, Res{st: q.st, v: VBool(true)})
				} else {
					next = append(next, q.st)
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		s.tmp = s.tmp[:len(s.tmp)-1]
		out = append(out, Res{st: s, v: VBool(false)})
	}
	return out
}

func (in *Interp) runeCase(st *State, v Val, upper bool) []Res {
	x, ok := v.(VInt)
	if !ok {
		return one(st, st.newInt(-inf, inf))
	}
	if c, ok := x.isConst(); ok {
		if upper {
			return one(st, iConst(int64(unicode.ToUpper(rune(c)))))
		}
		return one(st, iConst(int64(unicode.ToLower(rune(c)))))
	}
	if s, ok := chrToStr(st, x); ok {
		m := caseMap(st, s, upper)
		if l, ok := m.isLit(); ok {
			return one(st, iConst(int64([]rune(l)[0])))
		}
		if keyOf(m) == keyOf(s) {
			return one(st, x)
		}
	}
	return one(st, st.newInt(0, maxRune))
}

func runeIs(f func(rune) bool) model {
	return func(in *Interp, st *State, a []Val, fn *ssa.Function) []Res {
		x, ok := a[0].(VInt)
		if !ok {
			return in.pred(st, fn.Name(), a[0])
		}
		if c, ok := x.isConst(); ok {
			return one(st, VBool(f(rune(c))))
		}
		if lo, hi := st.bounds(x); hi-lo <= 0x110000 && lo >= 0 && hi <= maxRune {
			var cs CharSet
			if s, ok := chrToStr(st, x); ok {
				cs = st.attr(s).CS
			} else {
				cs = CharSet{{int32(lo), int32(hi)}}
			}
			yes, no := false, false
			for _, r := range cs {
				for c := r.Lo; c <= r.Hi; c++ {
					if f(rune(c)) {
						yes = true
					} else {
						no = true
					}
				}
			}
			if !yes {
				return one(st, VBool(false))
			}
			if !no {
				return one(st, VBool(true))
			}
		}
		return in.pred(st, fn.Name(), a[0])
	}
}

// decode models (*mime.WordDecoder).Decode: the result is the decoded text, or an error, and which of the two is a
// fixed property of the word.
func (in *Interp) decode(st *State, a []Val) []Res {
	if len(a) < 2 {
		return one(st, VTuple{unknownStr(st), st.opaque("decode error")})
	}
	s, ok := a[1].(VStr)
	if !ok {
		s = unknownStr(st)
	}
	in.checkReader(st, a[0])
	dec := func(st *State) Res {
		if in.conf.plainDecode {
			return Res{st: st, v: VTuple{st.newStr(SAttr{CS: CharSet{{'A', 'Z'}}, Min: 1, Max: inf, Paired: true, Taint: taintDecoded}), VNil{}}}
		}
		return Res{st: st, v: VTuple{sFn("decoded", s), VNil{}}}
	}
	var out []Res
	for _, r := range in.pred(st, "decodable", s) {
		if r.v.(VBool) {
			out = append(out, dec(r.st))
		} else {
			out = append(out, Res{st: r.st, v: VTuple{VStr{}, in.newError(r.st, "cannot decode")}})
		}
	}
	return out
}

// checkReader verifies that a decoder uses the charset reader that is current now.
func (in *Interp) checkReader(st *State, d Val) {
	in.stat["decoder"]++
	bad := func(f string, a ...any) {
		in.report("reader", "decoding in "+st.top().fn.String(), in.p.Pos(st.top().fn.Pos()), st, f, a...)
	}
	p, ok := d.(VPtr)
	if !ok {
		bad("the decoder is not known")
		return
	}
	o := st.heap[p.Obj]
	if o == nil {
		bad("the decoder is not known")
		return
	}
	v, _ := getPath(o.V, p.Path)
	s, ok := v.(VStruct)
	if !ok || len(s.F) == 0 {
		bad("the decoder is not known")
		return
	}
	switch r := s.F[0].(type) {
	case VUser:
		if r.Name == "reader" {
			return
		}
	case VNil:
		if pr, ok := st.preds[predKey("nil", []Val{VUser{"reader"}})]; ok && pr.Ans {
			return
		}
	case VFunc:
		// a function that passes its arguments on to the current reader
		b := st.clone()
		cs := b.newStr(SAttr{CS: allChars, Max: inf})
		rd := Val(VIface{in.errType(), b.opaque("input")})
		good := true
		want := keyOf(vlist{[]Val{cs, rd}})
		for _, q := range in.invokeVal(b, r, []Val{cs, rd}, token.NoPos) {
			t, ok := q.v.(VTuple)
			if pr, isP := q.st.preds[predKey("nil", []Val{VUser{"reader"}})]; isP && pr.Ans {
				continue
			}
			if q.pan != nil || !ok || len(t) != 2 || !strings.Contains(keyOf(t[0]), "reader result of "+want) || !strings.Contains(keyOf(t[1]), "reader error of "+want) {
				good = false
			}
		}
		if good {
			return
		}
	}
	bad("the decoder's CharsetReader is not the value CharsetReader has at the time of the call")
}

var _ = constant.Int
