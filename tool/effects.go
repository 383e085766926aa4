package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis of the repository's own code: what it reads besides its arguments, what it writes besides its own
// allocations, what it calls outside. It is a reachability analysis (every function mentioned in a reachable
// function and every method of a type turned into an interface is reachable) followed by an interprocedural,
// flow-insensitive analysis of which values may point to memory shared between calls.

type effects struct {
	c     *Ctx
	parse map[*ssa.Function]bool // may run during a parse, other than in one-time initialisation
	setup map[*ssa.Function]bool // runs in package initialisation or under a sync.Once
	once  map[*ssa.Function]bool // passed to a shared sync.Once

	shared map[ssa.Value]bool // may point to memory shared between calls
	holds  map[ssa.Value]bool // a cell that may hold such a pointer
	fields map[string]bool    // fields (type and index) that may
	elems  map[string]bool    // element types of containers that may
	rets   map[*ssa.Function]bool
	change bool

	finds     []effect
	lazyReads int
}

// effect is one thing found, relevant for some properties.
type effect struct {
	props     string
	construct string
	pos       token.Pos
	detail    string
}

func (c *Ctx) effects() *effects {
	return memo(c, "effects", func() *effects {
		e := &effects{c: c, parse: map[*ssa.Function]bool{}, setup: map[*ssa.Function]bool{}, once: map[*ssa.Function]bool{},
			shared: map[ssa.Value]bool{}, holds: map[ssa.Value]bool{}, fields: map[string]bool{}, elems: map[string]bool{}, rets: map[*ssa.Function]bool{}}
		e.reach()
		e.flow()
		e.inspect()
		e.order()
		return e
	})
}

// own says whether a function is part of the repository (or a wrapper the compiler makes for it).
func (e *effects) own(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return e.c.P.Own[fn.Pkg.Pkg]
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil && e.c.P.Own[fn.Object().Pkg()] {
		return true
	}
	return fn.Synthetic != "" && fn.Signature.Recv() != nil && e.ownType(fn.Signature.Recv().Type()) || fn.Synthetic != "" && strings.Contains(fn.Synthetic, "bound")
}

func (e *effects) ownType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := types.Unalias(t).(*types.Named); !named {
			t = p.Elem()
		}
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && e.c.P.Own[n.Obj().Pkg()]
}

// methods lists the functions that a value of the type answers to when it is held in an interface.
func (e *effects) methods(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	if types.IsInterface(t) {
		return nil
	}
	ms := e.c.P.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if fn := e.c.P.SSA.MethodValue(ms.At(i)); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

// fromGlobal says whether an address is that of a package-level variable or a part of it.
func fromGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

// onceDo recognises a call of the Do method of a shared sync.Once and returns the function it runs.
func (e *effects) onceDo(c ssa.CallInstruction) (*ssa.Function, bool) {
	callee := c.Common().StaticCallee()
	if callee == nil || callee.String() != "(*sync.Once).Do" || len(c.Common().Args) != 2 {
		return nil, false
	}
	if fromGlobal(c.Common().Args[0]) == nil {
		return nil, false
	}
	switch f := c.Common().Args[1].(type) {
	case *ssa.Function:
		return f, true
	case *ssa.MakeClosure:
		return f.Fn.(*ssa.Function), true
	}
	return nil, false
}

// onceFunc recognises sync.OnceFunc, OnceValue and OnceValues.
func onceFunc(c ssa.CallInstruction) (*ssa.Function, bool) {
	callee := c.Common().StaticCallee()
	if callee == nil || callee.Pkg == nil && callee.Origin() == nil {
		return nil, false
	}
	if o := callee.Origin(); o != nil {
		callee = o
	}
	if callee.Pkg.Pkg.Path() != "sync" || !strings.HasPrefix(callee.Name(), "Once") || len(c.Common().Args) != 1 {
		return nil, false
	}
	switch f := c.Common().Args[0].(type) {
	case *ssa.Function:
		return f, true
	case *ssa.MakeClosure:
		return f.Fn.(*ssa.Function), true
	}
	return nil, false
}

func (e *effects) roots() []*ssa.Function {
	var out []*ssa.Function
	for _, m := range e.c.P.RootS.Members {
		if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(fn.Name(), "Parse") && token.IsExported(fn.Name()) {
			out = append(out, fn)
		}
	}
	return out
}

func (e *effects) reach() {
	work := e.roots()
	var init []*ssa.Function
	for pk := range e.c.P.Own {
		if sp := e.c.P.SSA.Package(pk); sp != nil {
			if fn := sp.Func("init"); fn != nil {
				init = append(init, fn)
			}
		}
	}
	addParse := func(fn *ssa.Function) {
		if fn != nil && e.own(fn) && !e.parse[fn] {
			e.parse[fn] = true
			work = append(work, fn)
		}
	}
	addSetup := func(fn *ssa.Function) {
		if fn != nil && e.own(fn) && !e.setup[fn] {
			e.setup[fn] = true
			init = append(init, fn)
		}
	}
	for _, fn := range work {
		e.parse[fn] = true
	}
	for _, fn := range init {
		e.setup[fn] = true
	}
	for len(work)+len(init) > 0 {
		if len(init) > 0 {
			fn := init[len(init)-1]
			init = init[:len(init)-1]
			e.eachInstr(fn, func(ins ssa.Instruction) {
				var skip []ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						addSetup(f)
						skip = append(skip, c.Common().Value)
					}
					f, ok := e.onceDo(c)
					if !ok {
						f, ok = onceFunc(c)
					}
					if ok {
						e.once[f] = true
						addSetup(f)
						skip = append(skip, c.Common().Args[len(c.Common().Args)-1])
					}
				}
				e.mentions(ins, skip, addParse)
			})
			continue
		}
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		e.eachInstr(fn, func(ins ssa.Instruction) {
			var skip []ssa.Value
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f, ok := e.onceDo(c); ok {
					e.once[f] = true
					addSetup(f)
					skip = append(skip, c.Common().Args[1])
				}
			}
			e.mentions(ins, skip, addParse)
		})
	}
}

func (e *effects) eachInstr(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			f(ins)
		}
	}
}

// mentions finds the functions an instruction makes reachable.
func (e *effects) mentions(ins ssa.Instruction, skip []ssa.Value, add func(*ssa.Function)) {
	if _, ok := ins.(*ssa.DebugRef); ok {
		return
	}
	var ops []*ssa.Value
	for _, op := range ins.Operands(ops) {
		if op == nil || *op == nil {
			continue
		}
		skipped := false
		for _, s := range skip {
			skipped = skipped || s == *op
		}
		if skipped {
			continue
		}
		switch x := (*op).(type) {
		case *ssa.Function:
			add(x)
		case *ssa.MakeClosure:
			add(x.Fn.(*ssa.Function))
		}
	}
	if mi, ok := ins.(*ssa.MakeInterface); ok {
		for _, m := range e.methods(mi.X.Type()) {
			add(m)
		}
	}
}

// immutable types: sharing a value of these cannot be observed.
func immutable(t types.Type) bool {
	switch t.String() {
	case "*time.Location", "*regexp.Regexp", "*strings.Replacer", "error", "time.Time", "*unicode.RangeTable", "reflect.Type":
		return true
	}
	return false
}

// pointerful says whether values of the type can lead to memory that someone could write.
func pointerful(t types.Type) bool {
	if immutable(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Array:
		return pointerful(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerful(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerful(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", types.TypeString(t, nil), i)
}

func elemKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		t = u.Elem()
	case *types.Array:
		t = u.Elem()
	case *types.Map:
		t = u.Elem()
	}
	return types.TypeString(t, nil)
}

func (e *effects) taint(v ssa.Value) {
	if v != nil && !e.shared[v] {
		e.shared[v] = true
		e.change = true
	}
}

func (e *effects) set(m map[string]bool, k string) {
	if !m[k] {
		m[k] = true
		e.change = true
	}
}

func (e *effects) hold(v ssa.Value) {
	if !e.holds[v] {
		e.holds[v] = true
		e.change = true
	}
}

func (e *effects) is(v ssa.Value) bool {
	if _, ok := v.(*ssa.Global); ok {
		return true
	}
	return e.shared[v]
}

// flow finds the values that may point to memory shared between calls.
func (e *effects) flow() {
	for round := 0; round < 50; round++ {
		e.change = false
		for fn := range e.setup {
			e.eachInstr(fn, func(ins ssa.Instruction) {
				// What a closure made during initialisation captured is shared by all its calls.
				if mc, ok := ins.(*ssa.MakeClosure); ok && e.parse[mc.Fn.(*ssa.Function)] {
					for _, fv := range mc.Fn.(*ssa.Function).FreeVars {
						e.taint(fv)
					}
				}
			})
		}
		for fn := range e.parse {
			e.eachInstr(fn, func(ins ssa.Instruction) { e.flowInstr(fn, ins) })
		}
		if !e.change {
			return
		}
	}
}

func (e *effects) flowInstr(fn *ssa.Function, ins ssa.Instruction) {
	from := func(dst ssa.Value, srcs ...ssa.Value) {
		for _, s := range srcs {
			if e.is(s) {
				e.taint(dst)
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL || !pointerful(x.Type()) {
			return
		}
		if e.is(x.X) || e.holds[x.X] {
			e.taint(x)
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if e.fields[fieldKey(a.X.Type(), a.Field)] {
				e.taint(x)
			}
		case *ssa.IndexAddr:
			if e.elems[elemKey(a.X.Type())] {
				e.taint(x)
			}
		}
	case *ssa.FieldAddr:
		from(x, x.X)
		if e.holds[x.X] {
			e.hold(x)
		}
	case *ssa.IndexAddr:
		from(x, x.X)
		if e.holds[x.X] {
			e.hold(x)
		}
	case *ssa.Slice:
		from(x, x.X)
	case *ssa.Phi:
		from(x, x.Edges...)
	case *ssa.ChangeType:
		from(x, x.X)
	case *ssa.ChangeInterface:
		from(x, x.X)
	case *ssa.Convert:
		if pointerful(x.Type()) && pointerful(x.X.Type()) {
			from(x, x.X)
		}
	case *ssa.MakeInterface:
		if pointerful(x.X.Type()) {
			from(x, x.X)
			if e.is(x.X) {
				for _, m := range e.methods(x.X.Type()) {
					if len(m.Params) > 0 && e.parse[m] {
						e.taint(m.Params[0])
					}
				}
			}
		}
	case *ssa.TypeAssert:
		if pointerful(x.Type()) {
			from(x, x.X)
		}
	case *ssa.Extract:
		if pointerful(x.Type()) {
			from(x, x.Tuple)
		}
	case *ssa.Field:
		if pointerful(x.Type()) {
			from(x, x.X)
			if e.fields[fieldKey(x.X.Type(), x.Field)] {
				e.taint(x)
			}
		}
	case *ssa.Index:
		if pointerful(x.Type()) {
			from(x, x.X)
		}
	case *ssa.Lookup:
		if pointerful(x.Type()) {
			from(x, x.X)
			if e.elems[elemKey(x.X.Type())] {
				e.taint(x)
			}
		}
	case *ssa.Range:
		from(x, x.X)
	case *ssa.Next:
		if pointerful(x.Type()) {
			from(x, x.Iter)
		}
	case *ssa.Store:
		if e.is(x.Val) && pointerful(x.Val.Type()) {
			e.storeShared(x.Addr)
		}
	case *ssa.MapUpdate:
		if e.is(x.Value) && pointerful(x.Value.Type()) {
			e.set(e.elems, elemKey(x.Map.Type()))
		}
	case *ssa.MakeClosure:
		for i, b := range x.Bindings {
			f := x.Fn.(*ssa.Function)
			if e.is(b) {
				e.taint(f.FreeVars[i])
			}
			if e.holds[b] {
				e.hold(f.FreeVars[i])
			}
			if e.holds[f.FreeVars[i]] {
				e.hold(b)
			}
		}
	case *ssa.Return:
		for _, r := range x.Results {
			if e.is(r) && pointerful(r.Type()) && !e.rets[fn] {
				e.rets[fn] = true
				e.change = true
			}
		}
	case *ssa.Call:
		e.flowCall(x, x)
	case *ssa.Defer:
		e.flowCall(x, nil)
	case *ssa.Go:
		e.flowCall(x, nil)
	}
}

func (e *effects) storeShared(addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		e.set(e.fields, fieldKey(a.X.Type(), a.Field))
	case *ssa.IndexAddr:
		e.set(e.elems, elemKey(a.X.Type()))
		if _, ok := a.X.(*ssa.Alloc); ok {
			e.hold(a.X)
		}
	default:
		e.hold(addr)
	}
}

func (e *effects) flowCall(c ssa.CallInstruction, dst ssa.Value) {
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && dst != nil {
			if e.is(com.Args[0]) {
				e.taint(dst)
			}
		}
		return
	}
	fn := com.StaticCallee()
	if fn == nil {
		return
	}
	if e.parse[fn] {
		for i, a := range com.Args {
			if i < len(fn.Params) && e.is(a) && pointerful(a.Type()) {
				e.taint(fn.Params[i])
			}
		}
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				if e.is(b) {
					e.taint(fn.FreeVars[i])
				}
			}
		}
		if dst != nil && e.rets[fn] && pointerful(dst.Type()) {
			e.taint(dst)
		}
		return
	}
	// A method of another package that hands out what a shared object holds.
	if dst != nil && fn.Signature.Recv() != nil && len(com.Args) > 0 && e.is(com.Args[0]) && pointerful(dst.Type()) {
		e.taint(dst)
	}
}

func (e *effects) find(props string, fn *ssa.Function, pos token.Pos, what, format string, args ...any) {
	if !pos.IsValid() {
		pos = fn.Pos()
	}
	e.finds = append(e.finds, effect{props, fn.String() + ": " + what, pos, fmt.Sprintf(format, args...)})
}

// pkgPath is the package of a function or variable outside the repository.
func objPkg(o types.Object) string {
	if o == nil || o.Pkg() == nil {
		return ""
	}
	return o.Pkg().Path()
}

// ambient lists what a result may not depend on, and side effects a parse may not have: by package, then name ("" is
// everything else of the package). The values are the properties it breaks.
var ambient = map[string]map[string]string{
	"os":               {"Exit": "C21", "Stdout": "C21", "Stderr": "C21", "Getenv": "C19", "LookupEnv": "C19", "Environ": "C19", "ExpandEnv": "C19", "Args": "C19", "Hostname": "C19", "Getwd": "C19", "Getpid": "C19", "Getppid": "C19", "Getuid": "C19", "ReadFile": "C19", "ReadDir": "C19", "Stat": "C19", "Lstat": "C19", "Executable": "C19", "Stdin": "C19", "ErrNotExist": "", "ErrExist": "", "": "C19 C21"},
	"log":              {"": "C21"},
	"net":              {"ParseIP": "", "ParseCIDR": "", "": "C19 C21"},
	"syscall":          {"": "C19 C21"},
	"math/rand":        {"": "C19"},
	"math/rand/v2":     {"": "C19"},
	"crypto/rand":      {"": "C19"},
	"hash/maphash":     {"": "C19"},
	"runtime":          {"KeepAlive": "", "": "C19"},
	"runtime/debug":    {"": "C19 C21"},
	"io/ioutil":        {"ReadAll": "", "NopCloser": "", "Discard": "", "": "C19 C21"},
	"path/filepath":    {"Abs": "C19", "Glob": "C19", "Walk": "C19", "WalkDir": "C19", "EvalSymlinks": "C19"},
	"flag":             {"": "C19 C21"},
	"expvar":           {"": "C19 C21"},
	"testing":          {"": "C19"},
	"plugin":           {"": "C19 C21"},
	"time":             {"Now": "C19", "Since": "C19", "Until": "C19", "Local": "C19", "LoadLocation": "C19", "Parse": "C19", "Unix": "C19", "UnixMilli": "C19", "UnixMicro": "C19", "After": "C19", "AfterFunc": "C19 C21", "Tick": "C19", "NewTicker": "C19", "NewTimer": "C19"},
	"fmt":              {"Print": "C21", "Printf": "C21", "Println": "C21", "Scan": "C19", "Scanf": "C19", "Scanln": "C19"},
	antlrPath:          {"NewFileStream": "C19 C21", "NewDiagnosticErrorListener": "C21", "NewConsoleErrorListener": "C21", "ConsoleErrorListenerINSTANCE": "C21", "NewTraceListener": "C21", "LexerATNSimulatorDebug": "C21", "ParserATNSimulatorDebug": "C21", "PrintArrayJavaStyle": ""},
	"mime":             {"TypeByExtension": "C19", "ExtensionsByType": "C19", "AddExtensionType": "C19 C20 C21"},
	"mime/multipart":   {"NewWriter": "C19"},
	"net/mail":         {"ParseDate": "C19"},
	"context":          {"WithTimeout": "C19", "WithDeadline": "C19", "WithTimeoutCause": "C19", "WithDeadlineCause": "C19"},
	"sync/atomic":      {"": ""},
	"embed":            {"": ""},
	"text/template":    {"": ""},
	"net/http":         {"": "C19 C21"},
	"os/exec":          {"": "C19 C21"},
	"os/signal":        {"": "C19 C21"},
	"os/user":          {"": "C19"},
	"io/fs":            {"": "C19"},
	"log/slog":         {"": "C21"},
	"log/syslog":       {"": "C21"},
	"runtime/pprof":    {"": "C19 C21"},
	"runtime/trace":    {"": "C19 C21"},
	"runtime/metrics":  {"": "C19"},
	"golang.org/x/sys": {"": "C19 C21"},
}

// ambientMethods are methods with the same problem.
var ambientMethods = map[string]string{
	"(time.Time).Local":                        "C19",
	"(net/mail.Header).Date":                   "C19",
	"(*sync.Pool).Get":                         "C19 C20",
	"(*sync.Pool).Put":                         "C20",
	"(*sync.Map).Load":                         "C19 C20",
	"(*sync.Map).Store":                        "C19 C20 C21",
	"(*sync.Map).LoadOrStore":                  "C19 C20 C21",
	"(*sync.Map).LoadAndDelete":                "C19 C20 C21",
	"(*sync.Map).Delete":                       "C19 C20 C21",
	"(*sync.Map).Range":                        "C19 C20",
	"(*sync.Map).Swap":                         "C19 C20 C21",
	"(reflect.Value).Pointer":                  "C19",
	"(reflect.Value).UnsafePointer":            "C19",
	"(*" + antlrPath + ".BaseParser).SetTrace": "C21",
	"(*" + antlrPath + ".BaseParser).DumpDFA":  "C21",
}

// readOnlyTypes are types of other packages whose methods do not change what others can observe.
var readOnlyTypes = map[string]bool{
	"regexp.Regexp": true, "strings.Replacer": true, "sync.Once": true, "sync.Mutex": true, "sync.RWMutex": true, "time.Location": true,
	"mime.WordDecoder": true, "net/mail.AddressParser": true, "time.Time": true, "unicode.RangeTable": true, "net/mail.Address": true,
	antlrPath + ".ParseTreeWalker": true, antlrPath + ".ATN": true, antlrPath + ".DFA": true, antlrPath + ".PredictionContextCache": true,
	antlrPath + ".IntervalSet": true, "golang.org/x/text/cases.Caser": true, "math/big.Int": false,
}

// writingFuncs are functions of other packages that write through an argument (its index).
var writingFuncs = map[string]int{
	"sort.Strings": 0, "sort.Ints": 0, "sort.Slice": 0, "sort.SliceStable": 0, "sort.Sort": 0, "sort.Stable": 0, "slices.Sort": 0, "slices.SortFunc": 0,
	"slices.SortStableFunc": 0, "slices.Reverse": 0, "slices.Delete": 0, "slices.Insert": 0, "slices.Replace": 0, "slices.Compact": 0, "maps.Copy": 0,
	"maps.DeleteFunc": 0, "encoding/json.Unmarshal": 1, "io.ReadFull": 1, "fmt.Sscanf": 2, "fmt.Sscan": 1, "utf8.EncodeRune": 0,
	"sync/atomic.AddInt32": 0, "sync/atomic.AddInt64": 0, "sync/atomic.AddUint32": 0, "sync/atomic.AddUint64": 0,
	"sync/atomic.StoreInt32": 0, "sync/atomic.StoreInt64": 0, "sync/atomic.StorePointer": 0, "sync/atomic.StoreUint32": 0, "sync/atomic.StoreUint64": 0,
	"sync/atomic.CompareAndSwapInt32": 0, "sync/atomic.CompareAndSwapInt64": 0, "sync/atomic.SwapInt32": 0, "sync/atomic.SwapInt64": 0,
}

func ambientProps(pkg, name string) string {
	m, ok := ambient[pkg]
	if !ok {
		return ""
	}
	if p, ok := m[name]; ok {
		return p
	}
	return m[""]
}

// inspect examines every reachable instruction.
func (e *effects) inspect() {
	written := map[*ssa.Global][]string{}  // by code that runs during a parse
	settable := map[*ssa.Global][]string{} // by code that runs neither then nor in initialisation
	for _, fn := range e.c.P.ownFunctions() {
		e.eachInstr(fn, func(ins ssa.Instruction) {
			var to ssa.Value
			switch x := ins.(type) {
			case *ssa.Store:
				to = x.Addr
			case *ssa.MapUpdate:
				to = x.Map
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear" || b.Name() == "copy") {
					to = x.Call.Args[0]
				}
			}
			if to == nil {
				return
			}
			if g := fromGlobal(to); g != nil {
				if e.parse[fn] {
					written[g] = append(written[g], fn.String())
				} else if !e.setup[fn] {
					settable[g] = append(settable[g], fn.String())
				}
			}
		})
	}
	fns := sortFns(e.parse)
	for _, fn := range fns {
		e.eachInstr(fn, func(ins ssa.Instruction) {
			e.references(fn, ins, false)
			e.writes(fn, ins)
			switch x := ins.(type) {
			case *ssa.Go:
				e.find("C19 C20 C21", fn, x.Pos(), "go statement", "parsing starts a goroutine")
			case *ssa.Select:
				e.find("C19", fn, x.Pos(), "select statement", "the result may depend on the scheduler")
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					if why := mapOrder(x); why != "" {
						e.find("C19", fn, x.Pos(), "loop over a map", "the iteration order of a map is random: %s", why)
					}
				}
			case *ssa.Convert:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if u, ok := x.X.Type().Underlying().(*types.Basic); ok && u.Kind() == types.UnsafePointer {
						e.find("C19", fn, x.Pos(), "pointer as a number", "an address differs from run to run")
					}
				}
			case *ssa.UnOp:
				g, _ := x.X.(*ssa.Global)
				if g == nil {
					g = fromGlobal(x.X)
				}
				if x.Op != token.MUL || g == nil || !e.c.P.Own[g.Pkg.Pkg] || g.Name() == "CharsetReader" && g.Pkg == e.c.P.RootS {
					break
				}
				if w := written[g]; len(w) > 0 {
					e.find("C19", fn, x.Pos(), "reads "+g.Name(), "it is written by %s while parsing, so results depend on earlier calls", w[0])
				} else if w := settable[g]; len(w) > 0 {
					e.find("C19", fn, x.Pos(), "reads "+g.Name(), "it is a setting other than the charset reader, changed by %s", w[0])
				} else if token.IsExported(g.Name()) {
					e.find("C19", fn, x.Pos(), "reads "+g.Name(), "it is an exported variable other than the charset reader, which anyone may change")
				}
			}
		})
	}
	for _, fn := range sortFns(e.setup) {
		if e.parse[fn] {
			continue
		}
		e.eachInstr(fn, func(ins ssa.Instruction) {
			e.references(fn, ins, true)
			if x, ok := ins.(*ssa.Range); ok {
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					if why := mapOrder(x); why != "" {
						e.find("C19", fn, x.Pos(), "loop over a map", "the iteration order of a map is random: %s", why)
					}
				}
			}
		})
	}
	// What is returned.
	for _, fn := range e.roots() {
		e.eachInstr(fn, func(ins ssa.Instruction) {
			ret, ok := ins.(*ssa.Return)
			if !ok {
				return
			}
			for _, v := range ret.Results {
				if !pointerful(v.Type()) || e.emptyShared(v) {
					continue
				}
				if e.is(v) {
					e.find("C20", fn, ret.Pos(), "returned value", "it may be shared with other calls")
				} else if _, ok := v.Type().Underlying().(*types.Slice); ok && e.elems[elemKey(v.Type())] {
					e.find("C20", fn, ret.Pos(), "returned value", "its elements may be shared with other calls")
				}
			}
		})
	}
}

// emptyShared says whether a value is a package-level slice of length 0: sharing it cannot be observed.
func (e *effects) emptyShared(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	n := 0
	good := true
	for _, fn := range e.c.P.ownFunctions() {
		e.eachInstr(fn, func(ins ssa.Instruction) {
			if s, ok := ins.(*ssa.Store); ok && s.Addr == g {
				n++
				sl, ok := s.Val.(*ssa.Slice)
				if !ok {
					good = false
					return
				}
				a, ok := sl.X.Type().Underlying().(*types.Pointer)
				if !ok {
					good = false
					return
				}
				arr, ok := a.Elem().Underlying().(*types.Array)
				good = good && ok && arr.Len() == 0
			}
		})
	}
	return n == 1 && good
}

func sortFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for fn := range m {
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// references examines what an instruction mentions of other packages.
func (e *effects) references(fn *ssa.Function, ins ssa.Instruction, setup bool) {
	if _, ok := ins.(*ssa.DebugRef); ok || strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") || strings.Contains(fn.Synthetic, "thunk") {
		return
	}
	if c, ok := ins.(ssa.CallInstruction); ok {
		if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "print" || b.Name() == "println") {
			e.find("C21", fn, ins.Pos(), "call of "+b.Name(), "it writes to standard error")
		}
	}
	var ops []*ssa.Value
	for _, op := range ins.Operands(ops) {
		if op == nil || *op == nil {
			continue
		}
		var o types.Object
		switch x := (*op).(type) {
		case *ssa.Function:
			if e.own(x) && x.Synthetic == "" {
				continue
			}
			o = x.Object()
			if f, ok := o.(*types.Func); ok && f.Type().(*types.Signature).Recv() != nil {
				full := f.FullName()
				if p := ambientMethods[full]; p != "" {
					e.find(p, fn, ins.Pos(), "use of "+full, "%s", explainAmbient(p))
				}
				// Methods of a package that is ambient as a whole.
				if p := ambient[objPkg(o)]; p != nil && p[""] != "" && p[""] != "C19" && objPkg(o) != "net" {
					e.find(p[""], fn, ins.Pos(), "use of "+full, "%s", explainAmbient(p[""]))
				}
				continue
			}
		case *ssa.Global:
			if x.Pkg == nil || e.c.P.Own[x.Pkg.Pkg] {
				continue
			}
			o = x.Object()
		}
		if o == nil {
			continue
		}
		p := ambientProps(objPkg(o), o.Name())
		if strings.HasPrefix(o.Name(), "init") && objPkg(o) != "" && setup {
			if _, ok := o.(*types.Func); !ok {
				continue
			}
		}
		if p != "" {
			e.find(p, fn, ins.Pos(), "use of "+objPkg(o)+"."+o.Name(), "%s", explainAmbient(p))
		}
	}
}

func explainAmbient(p string) string {
	switch {
	case strings.Contains(p, "C19") && strings.Contains(p, "C21"):
		return "it reaches outside the process or shares state between calls"
	case strings.Contains(p, "C19"):
		return "it depends on something other than the input and the charset reader"
	}
	return "it writes outside the package"
}

// writes examines what an instruction changes of the memory shared between calls.
func (e *effects) writes(fn *ssa.Function, ins ssa.Instruction) {
	name := func(v ssa.Value) string {
		if g := fromGlobal(v); g != nil {
			return "the package-level variable " + g.Name()
		}
		return "memory that is shared between calls"
	}
	switch x := ins.(type) {
	case *ssa.Store:
		if e.is(x.Addr) {
			e.find("C20 C21", fn, x.Pos(), "write to "+name(x.Addr), "parsing changes it without any synchronisation")
		}
	case *ssa.MapUpdate:
		if e.is(x.Map) {
			e.find("C20 C21", fn, x.Pos(), "write to a map in "+name(x.Map), "parsing changes it without any synchronisation")
		}
	case *ssa.Send:
		if e.is(x.Chan) {
			e.find("C20 C21", fn, x.Pos(), "send on a shared channel", "calls interact through it")
		}
	case ssa.CallInstruction:
		com := x.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append", "copy", "delete", "clear":
				if len(com.Args) > 0 && e.is(com.Args[0]) {
					if s, ok := com.Args[0].(*ssa.Slice); ok && s.Max != nil {
						break
					}
					e.find("C20 C21", fn, ins.Pos(), b.Name()+" on "+name(com.Args[0]), "it may write to memory that other calls use")
				}
			}
			return
		}
		callee := com.StaticCallee()
		if callee == nil || e.own(callee) {
			return
		}
		full := callee.String()
		if i, ok := writingFuncs[genericName(callee)]; ok && i < len(com.Args) {
			a := com.Args[i]
			if mi, ok := a.(*ssa.MakeInterface); ok {
				a = mi.X
			}
			if e.is(a) {
				e.find("C20 C21", fn, ins.Pos(), "call of "+full+" on "+name(a), "it writes to memory that other calls use")
			}
			return
		}
		if recv := callee.Signature.Recv(); recv != nil && len(com.Args) > 0 && e.is(com.Args[0]) {
			t := recv.Type()
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			if readOnlyTypes[types.TypeString(p.Elem(), nil)] || ambientMethods[full] != "" {
				return
			}
			e.find("C19 C20", fn, ins.Pos(), "call of "+full+" on "+name(com.Args[0]), "the object is shared between calls and the method may change it")
		}
	}
}

func genericName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// mapOrder says why a loop over a map could depend on the order of iteration ("" if it does not).
func mapOrder(r *ssa.Range) string {
	fn := r.Parent()
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			if next != nil {
				return "the iteration is used in more than one place"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	body := naturalLoop(next.Block())
	key := map[ssa.Value]bool{}
	for _, u := range *next.Referrers() {
		if x, ok := u.(*ssa.Extract); ok && x.Index == 1 {
			key[x] = true
		}
	}
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && body[i.Block()]
	}
	fixed := func(v ssa.Value) bool { return !inLoop(v) }
	// Leaving early is harmless when only one key can make it happen.
	unique := func(b *ssa.BasicBlock) bool {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		switch x := iff.Cond.(type) {
		case *ssa.BinOp:
			if x.Op == token.EQL || x.Op == token.NEQ {
				return key[x.X] && fixed(x.Y) || key[x.Y] && fixed(x.X)
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && f.String() == "strings.EqualFold" {
				return key[x.Call.Args[0]] && fixed(x.Call.Args[1]) || key[x.Call.Args[1]] && fixed(x.Call.Args[0])
			}
		}
		return false
	}
	// blocks that are entered only for that one key
	onlyOne := func(b *ssa.BasicBlock) bool {
		for d := b; d != nil && body[d]; d = d.Idom() {
			p := d.Idom()
			if p != nil && body[p] && unique(p) && len(d.Preds) == 1 {
				return true
			}
			if d == next.Block() {
				break
			}
		}
		return false
	}
	for b := range body {
		for _, s := range b.Succs {
			if !body[s] && b != next.Block() && !unique(b) && !onlyOne(b) {
				return "the loop is left at an entry chosen by more than an equal key"
			}
		}
		for _, ins := range b.Instrs {
			if onlyOne(b) {
				continue
			}
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				k := x.Key
				for {
					if c, ok := k.(*ssa.ChangeType); ok {
						k = c.X
						continue
					}
					break
				}
				if !key[k] {
					if e, ok := k.(*ssa.Extract); !ok || e.Tuple != ssa.Value(next) {
						return "entries are written under keys other than the entry's own"
					}
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && body[a.Block()] {
					continue
				}
				return "a variable is written in the loop"
			case *ssa.Phi:
				if b == next.Block() && len(x.Edges) > 1 {
					if commutes(x, body) {
						continue
					}
					return "a value is carried from entry to entry"
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					return "entries are appended"
				}
			}
		}
	}
	_ = fn
	return ""
}

// commutes says whether a loop-carried value is a sum, a maximum or the like.
func commutes(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for i, v := range p.Edges {
		if !body[p.Block().Preds[i]] {
			continue
		}
		if v == ssa.Value(p) {
			continue
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return false
		}
		t, ok := b.Type().Underlying().(*types.Basic)
		if !ok || t.Info()&types.IsInteger == 0 || b.X != ssa.Value(p) && b.Y != ssa.Value(p) {
			return false
		}
		switch b.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		default:
			return false
		}
	}
	return true
}

// naturalLoop is the set of blocks of the loop with the given header.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				work = append(work, p)
			}
		}
	}
	return body
}

// order checks that what one-time initialisation under a sync.Once writes is read only after it.
func (e *effects) order() {
	lazily := map[*ssa.Global]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		// local pointers to package-level variables
		e.eachInstr(fn, func(ins ssa.Instruction) {
			switch x := ins.(type) {
			case *ssa.Store:
				if g := fromGlobal(x.Addr); g != nil && e.c.P.Own[g.Pkg.Pkg] {
					lazily[g] = fn
				}
			case *ssa.MapUpdate:
				if g := fromGlobal(x.Map); g != nil && e.c.P.Own[g.Pkg.Pkg] {
					lazily[g] = fn
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && e.own(f) {
					visit(f)
				}
			}
		})
	}
	for fn := range e.once {
		visit(fn)
	}
	// ensures: functions after whose return the initialisation of the variable has been done.
	var ensures func(fn *ssa.Function, g *ssa.Global, depth int) bool
	runs := func(ins ssa.Instruction, g *ssa.Global, depth int) bool {
		c, ok := ins.(*ssa.Call)
		if !ok {
			return false
		}
		if f, ok := e.onceDo(c); ok {
			return e.initialises(f, g, map[*ssa.Function]bool{})
		}
		f := c.Call.StaticCallee()
		return f != nil && e.own(f) && depth < 6 && ensures(f, g, depth+1)
	}
	ensures = func(fn *ssa.Function, g *ssa.Global, depth int) bool {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if runs(ins, g, depth) {
					all := true
					for _, x := range fn.Blocks {
						if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
							all = false
						}
					}
					if all {
						return true
					}
				}
			}
		}
		return false
	}
	callers := map[*ssa.Function][]*ssa.Call{}
	taken := map[*ssa.Function]bool{}
	for fn := range e.parse {
		e.eachInstr(fn, func(ins ssa.Instruction) {
			c, _ := ins.(*ssa.Call)
			var ops []*ssa.Value
			for i, op := range ins.Operands(ops) {
				if op == nil || *op == nil {
					continue
				}
				if f, ok := (*op).(*ssa.Function); ok {
					if c != nil && i == 0 && c.Call.StaticCallee() == f {
						callers[f] = append(callers[f], c)
					} else {
						taken[f] = true
					}
				}
			}
		})
	}
	byInit := map[*ssa.Global]bool{} // initialised when the package is
	for pk := range e.c.P.Own {
		if sp := e.c.P.SSA.Package(pk); sp != nil && sp.Func("init") != nil {
			for g := range lazily {
				if ensures(sp.Func("init"), g, 0) || e.inInit(sp.Func("init"), g) {
					byInit[g] = true
				}
			}
		}
	}
	var after func(ins ssa.Instruction, g *ssa.Global, depth int) bool
	after = func(ins ssa.Instruction, g *ssa.Global, depth int) bool {
		b := ins.Block()
		for _, d := range b.Parent().Blocks {
			if !d.Dominates(b) {
				continue
			}
			for _, x := range d.Instrs {
				if x == ins {
					break
				}
				if runs(x, g, 0) {
					return true
				}
			}
		}
		fn := b.Parent()
		if depth > 6 || taken[fn] || len(callers[fn]) == 0 {
			return false
		}
		for _, c := range callers[fn] {
			if !after(c, g, depth+1) {
				return false
			}
		}
		return true
	}
	n := 0
	for _, fn := range sortFns(e.parse) {
		e.eachInstr(fn, func(ins ssa.Instruction) {
			u, ok := ins.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return
			}
			g := fromGlobal(u.X)
			if g == nil || lazily[g] == nil || byInit[g] {
				return
			}
			n++
			if !after(ins, g, 0) {
				e.find("C20", fn, u.Pos(), "reads "+g.Name(), "it is filled once, by %s, but that need not have happened, or may be happening, when it is read here", lazily[g])
			}
		})
	}
	e.lazyReads = n
}

// initialises says whether running a function once writes the variable.
func (e *effects) initialises(fn *ssa.Function, g *ssa.Global, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	found := false
	e.eachInstr(fn, func(ins ssa.Instruction) {
		switch x := ins.(type) {
		case *ssa.Store:
			found = found || fromGlobal(x.Addr) == g
		case *ssa.MapUpdate:
			found = found || fromGlobal(x.Map) == g
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && e.own(f) {
				found = found || e.initialises(f, g, seen)
			}
		}
	})
	return found
}

// inInit says whether package initialisation itself runs the code that fills the variable.
func (e *effects) inInit(init *ssa.Function, g *ssa.Global) bool {
	found := false
	e.eachInstr(init, func(ins ssa.Instruction) {
		if c, ok := ins.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && e.own(f) && f.Pkg == init.Pkg && strings.HasPrefix(f.Name(), "init#") {
				e.eachInstr(f, func(ins ssa.Instruction) {
					if c, ok := ins.(*ssa.Call); ok {
						if d, ok := e.onceDo(c); ok && e.initialises(d, g, map[*ssa.Function]bool{}) {
							found = true
						} else if d := c.Call.StaticCallee(); d != nil && e.own(d) {
							e.eachInstr(d, func(ins ssa.Instruction) {
								if c, ok := ins.(*ssa.Call); ok {
									if d, ok := e.onceDo(c); ok && e.initialises(d, g, map[*ssa.Function]bool{}) {
										found = true
									}
								}
							})
						}
					}
				})
			}
		}
	})
	return found
}

func ruleEffects(c *Ctx, prop string, r *RuleRun) {
	e := c.effects()
	bad := map[string]bool{}
	for _, f := range e.finds {
		has := false
		for _, p := range strings.Fields(f.props) {
			has = has || p == prop
		}
		if !has {
			continue
		}
		k := f.construct + f.detail
		if bad[k] {
			continue
		}
		bad[k] = true
		r.fail(f.construct, c.P.Pos(f.pos), "%s", f.detail)
	}
	n, ins := 0, 0
	for _, fn := range sortFns(e.parse) {
		r.ok(fn.String())
		n++
		e.eachInstr(fn, func(ssa.Instruction) { ins++ })
	}
	for fn := range e.setup {
		if !e.parse[fn] {
			n++
			e.eachInstr(fn, func(ssa.Instruction) { ins++ })
		}
	}
	r.count("functions that may run during a parse", len(e.parse))
	r.count("functions of one-time initialisation", n-len(e.parse))
	r.count("instructions examined", ins)
	r.count("values that may point to shared memory", len(e.shared))
	if prop == "C20" {
		r.count("reads of tables that are built once", e.lazyReads)
	}
}
