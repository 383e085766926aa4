package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values of the callback interpreter. All are immutable once built.
type Val interface{}

type (
	// VStr is the concatenation of its parts.
	VStr struct{ P []Part }
	// Part: 'l' literal, 'a' unknown text, 'd' one decimal digit of value I, 'f' function of its arguments.
	Part struct {
		K   byte
		Lit string
		ID  int
		I   VInt
		Fn  string
		A   []Val
	}
	// VInt is a linear form over integer unknowns.
	VInt struct {
		C int64
		T []Mono
	}
	Mono struct {
		K int64
		A *IAtom
	}
	// IAtom is an integer unknown (ID) or a function of its arguments.
	IAtom struct {
		ID int
		Fn string
		A  []Val
	}
	VBool  bool
	VFloat struct {
		N VInt
		D int64
	}
	VNil struct{}
	VPtr struct {
		Obj  int
		Path []int
	}
	VIface struct {
		T types.Type
		V Val
	}
	VFunc struct {
		Fn   *ssa.Function
		Bind []Val
	}
	// VUser is a function supplied by the user of the package.
	VUser  struct{ Name string }
	VSlice struct {
		Obj int
		Lo  VInt
		Len VInt
	}
	VStruct struct{ F []Val }
	VArr    struct{ E []Val }
	VMap    struct{ Obj int }
	// mapObj is the content of a map: concrete keys in insertion order.
	mapObj struct {
		K, V []Val
	}
	VTuple []Val
	VNode  struct{ ID int }
	VTok   struct{ Node, Idx int }
	VSym   struct{ Node, Idx int }
	VExt   struct{ Obj int }
	extObj struct {
		Kind string
		L    []Val
		A    []Val
	}
	VOpaque struct {
		ID  int
		Why string
	}
	VTime struct {
		F   [7]VInt // year month day hour minute second nanosecond
		Loc Val
	}
	VLoc struct {
		Name VStr
		Off  VInt
	}
	VBuild struct{ S VStr }
	// VChunk stands for any number of elements of a list.
	VChunk struct{ ID int }
	// VGap stands for a number of elements that were made and not written yet.
	VGap struct{ N VInt }
	// VSeg stands for each element of the chunk in turn, within one abstract loop iteration.
	VSeg  struct{ ID int }
	VIter struct {
		Items []Val // VTuple{key, value}
		Obj   int
	}
	// vlist is a frozen list.
	vlist struct{ E []Val }
	// VDrop is a strings.Replacer or similar table object.
	VRepl struct{ Pairs []string }
)

func lit(s string) VStr {
	if s == "" {
		return VStr{}
	}
	return VStr{[]Part{{K: 'l', Lit: s}}}
}
func sAtom(id int) VStr               { return VStr{[]Part{{K: 'a', ID: id}}} }
func sFn(fn string, a ...Val) VStr    { return VStr{[]Part{{K: 'f', Fn: fn, A: a}}} }
func sDigit(i VInt) VStr              { return VStr{[]Part{{K: 'd', I: i}}} }
func iConst(c int64) VInt             { return VInt{C: c} }
func iAtom(id int) VInt               { return VInt{T: []Mono{{1, &IAtom{ID: id}}}} }
func iFn(fn string, a ...Val) VInt    { return VInt{T: []Mono{{1, &IAtom{Fn: fn, A: a}}}} }
func (i VInt) isConst() (int64, bool) { return i.C, len(i.T) == 0 }

func concat(a ...VStr) VStr {
	var out []Part
	for _, s := range a {
		for _, p := range s.P {
			if p.K == 'd' {
				if c, ok := p.I.isConst(); ok && c >= 0 && c <= 9 {
					p = Part{K: 'l', Lit: string(rune('0' + c))}
				}
			}
			if p.K == 'l' {
				if p.Lit == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].K == 'l' {
					out[n-1] = Part{K: 'l', Lit: out[n-1].Lit + p.Lit}
					continue
				}
			}
			out = append(out, p)
		}
	}
	return VStr{out}
}

// isLit returns the text of a fully known string.
func (s VStr) isLit() (string, bool) {
	switch len(s.P) {
	case 0:
		return "", true
	case 1:
		if s.P[0].K == 'l' {
			return s.P[0].Lit, true
		}
	}
	return "", false
}

func (a VInt) add(b VInt, k int64) VInt {
	out := VInt{C: a.C + k*b.C}
	m := map[string]*Mono{}
	var keys []string
	put := func(t Mono, f int64) {
		k := atomKey(t.A)
		if x, ok := m[k]; ok {
			x.K += f * t.K
			return
		}
		m[k] = &Mono{f * t.K, t.A}
		keys = append(keys, k)
	}
	for _, t := range a.T {
		put(t, 1)
	}
	for _, t := range b.T {
		put(t, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if m[k].K != 0 {
			out.T = append(out.T, *m[k])
		}
	}
	return out
}
func (a VInt) mul(k int64) VInt { return VInt{}.add(a, k) }

func atomKey(a *IAtom) string {
	var sb strings.Builder
	writeAtom(&sb, a, nil)
	return sb.String()
}

type numFn func(id int) int

func writeAtom(sb *strings.Builder, a *IAtom, num numFn) {
	if a.Fn == "" {
		id := a.ID
		if num != nil {
			id = num(id)
		}
		fmt.Fprintf(sb, "i%d", id)
		return
	}
	sb.WriteString(a.Fn)
	sb.WriteByte('(')
	for i, x := range a.A {
		if i > 0 {
			sb.WriteByte(',')
		}
		writeKey(sb, x, num)
	}
	sb.WriteByte(')')
}

func keyOf(v Val) string {
	var sb strings.Builder
	writeKey(&sb, v, nil)
	return sb.String()
}

// writeKey renders a slot value; num renumbers unknowns.
func writeKey(sb *strings.Builder, v Val, num numFn) {
	nn := func(id int) int {
		if num != nil {
			return num(id)
		}
		return id
	}
	switch x := v.(type) {
	case VStr:
		sb.WriteByte('"')
		for i, p := range x.P {
			if i > 0 {
				sb.WriteByte('+')
			}
			switch p.K {
			case 'l':
				fmt.Fprintf(sb, "%q", p.Lit)
			case 'a':
				fmt.Fprintf(sb, "s%d", nn(p.ID))
			case 'd':
				sb.WriteString("d(")
				writeKey(sb, p.I, num)
				sb.WriteByte(')')
			case 'f':
				sb.WriteString(p.Fn)
				sb.WriteByte('(')
				for j, a := range p.A {
					if j > 0 {
						sb.WriteByte(',')
					}
					writeKey(sb, a, num)
				}
				sb.WriteByte(')')
			}
		}
		sb.WriteByte('"')
	case VInt:
		fmt.Fprintf(sb, "%d", x.C)
		for _, t := range x.T {
			fmt.Fprintf(sb, "%+d*", t.K)
			writeAtom(sb, t.A, num)
		}
	case VFloat:
		sb.WriteString("f")
		writeKey(sb, x.N, num)
		fmt.Fprintf(sb, "/%d", x.D)
	case VOpaque:
		fmt.Fprintf(sb, "?%d", nn(x.ID))
	case VChunk:
		fmt.Fprintf(sb, "*%d", nn(x.ID))
	case VGap:
		sb.WriteString("gap")
		writeKey(sb, x.N, num)
	case VSeg:
		fmt.Fprintf(sb, "each%d", nn(x.ID))
	case vlist:
		sb.WriteByte('[')
		for i, e := range x.E {
			if i > 0 {
				sb.WriteByte(' ')
			}
			writeKey(sb, e, num)
		}
		sb.WriteByte(']')
	case VStruct:
		sb.WriteByte('{')
		for i, e := range x.F {
			if i > 0 {
				sb.WriteByte(' ')
			}
			writeKey(sb, e, num)
		}
		sb.WriteByte('}')
	case VArr:
		sb.WriteString("arr")
		writeKey(sb, VStruct{x.E}, num)
	case VBool:
		fmt.Fprintf(sb, "%v", bool(x))
	case VNil, nil:
		sb.WriteString("nil")
	case VLoc:
		sb.WriteString("loc")
		writeKey(sb, x.Name, num)
		writeKey(sb, x.Off, num)
	case VTime:
		sb.WriteString("time")
		for _, f := range x.F {
			sb.WriteByte(' ')
			writeKey(sb, f, num)
		}
		writeKey(sb, x.Loc, num)
	case VBuild:
		sb.WriteString("build")
		writeKey(sb, x.S, num)
	case VPtr:
		fmt.Fprintf(sb, "ptr%d%v", x.Obj, x.Path)
	case VIface:
		fmt.Fprintf(sb, "iface %s ", types.TypeString(x.T, nil))
		writeKey(sb, x.V, num)
	case VFunc:
		fmt.Fprintf(sb, "func %s", x.Fn)
	case VUser:
		fmt.Fprintf(sb, "user %s", x.Name)
	default:
		fmt.Fprintf(sb, "%T%v", v, v)
	}
}

// mapVal rebuilds a slot value with its unknowns replaced.
type mapper struct {
	str  func(id int) (VStr, bool)
	in   func(id int) (VInt, bool)
	opq  func(id int) (Val, bool)
	chk  func(id int) ([]Val, bool)
	none func(p Part) bool // whether a derived text is empty
}

func (m *mapper) val(v Val) Val {
	switch x := v.(type) {
	case VStr:
		return m.s(x)
	case VInt:
		return m.i(x)
	case VFloat:
		return VFloat{m.i(x.N), x.D}
	case VOpaque:
		if m.opq != nil {
			if r, ok := m.opq(x.ID); ok {
				return r
			}
		}
		return x
	case VChunk:
		if m.chk != nil {
			if r, ok := m.chk(x.ID); ok {
				if len(r) == 1 {
					return r[0]
				}
				return vlist{r}
			}
		}
		return x
	case VSeg:
		if m.chk != nil {
			if r, ok := m.chk(x.ID); ok && len(r) == 1 {
				if c, ok := r[0].(VChunk); ok {
					return VSeg{c.ID}
				}
			}
		}
		return x
	case vlist:
		return vlist{m.list(x.E)}
	case VStruct:
		out := make([]Val, len(x.F))
		for i, e := range x.F {
			out[i] = m.val(e)
		}
		return VStruct{out}
	case VArr:
		out := make([]Val, len(x.E))
		for i, e := range x.E {
			out[i] = m.val(e)
		}
		return VArr{out}
	case VLoc:
		return VLoc{m.s(x.Name), m.i(x.Off)}
	case VTime:
		for i := range x.F {
			x.F[i] = m.i(x.F[i])
		}
		x.Loc = m.val(x.Loc)
		return x
	case VBuild:
		return VBuild{m.s(x.S)}
	case VGap:
		return VGap{m.i(x.N)}
	}
	return v
}

func (m *mapper) list(e []Val) []Val {
	var out []Val
	for _, x := range e {
		if c, ok := x.(VChunk); ok && m.chk != nil {
			if r, ok := m.chk(c.ID); ok {
				out = append(out, r...)
				continue
			}
		}
		out = append(out, m.val(x))
	}
	return out
}

func (m *mapper) s(x VStr) VStr {
	var ps []VStr
	for _, p := range x.P {
		switch p.K {
		case 'a':
			if m.str != nil {
				if r, ok := m.str(p.ID); ok {
					ps = append(ps, r)
					continue
				}
			}
		case 'd':
			p.I = m.i(p.I)
		case 'f':
			a := make([]Val, len(p.A))
			for i, y := range p.A {
				a[i] = m.val(y)
			}
			if m.none != nil && m.none(p) {
				continue
			}
			ps = append(ps, applyFn(p.Fn, a))
			continue
		}
		ps = append(ps, VStr{[]Part{p}})
	}
	return concat(ps...)
}

func (m *mapper) i(x VInt) VInt {
	out := VInt{C: x.C}
	for _, t := range x.T {
		r := VInt{T: []Mono{{1, t.A}}}
		if t.A.Fn == "" {
			if m.in != nil {
				if v, ok := m.in(t.A.ID); ok {
					r = v
				}
			}
		} else {
			a := make([]Val, len(t.A.A))
			for i, y := range t.A.A {
				a[i] = m.val(y)
			}
			r = applyIFn(t.A.Fn, a)
		}
		out = out.add(r, t.K)
	}
	return out
}

// applyFn simplifies a string function whose arguments may have become known.
func applyFn(fn string, a []Val) VStr {
	switch fn {
	case "drop":
		s := a[0].(VStr)
		set, _ := a[1].(VStr).isLit()
		var ps []VStr
		for _, p := range s.P {
			switch p.K {
			case 'l':
				ps = append(ps, lit(strings.Map(func(r rune) rune {
					if strings.ContainsRune(set, r) {
						return -1
					}
					return r
				}, p.Lit)))
			case 'd':
				ps = append(ps, VStr{[]Part{p}})
			default:
				if p.K == 'f' && p.Fn == "drop" {
					old, _ := p.A[1].(VStr).isLit()
					ps = append(ps, sFn("drop", p.A[0], lit(sortChars(old+set))))
				} else {
					ps = append(ps, sFn("drop", VStr{[]Part{p}}, lit(sortChars(set))))
				}
			}
		}
		return concat(ps...)
	case "join":
		l := a[0].(vlist)
		sep, ok := a[1].(VStr)
		if ok {
			var ps []VStr
			for i, e := range l.E {
				if c, ok := e.(VChunk); ok && i > 0 {
					ps = append(ps, joinRest(c, sep))
					continue
				}
				if i > 0 {
					ps = append(ps, sep)
				}
				switch x := e.(type) {
				case VStr:
					ps = append(ps, x)
				case VChunk:
					if len(sep.P) == 0 {
						ps = append(ps, joinRest(x, sep))
						continue
					}
					ps = append(ps, VStr{[]Part{{K: 'f', Fn: "join", A: []Val{vlist{[]Val{x}}, sep}}}})
				default:
					return VStr{[]Part{{K: 'f', Fn: fn, A: a}}}
				}
			}
			return concat(ps...)
		}
	case "joinrest":
		l := a[0].(vlist)
		if sep, ok := a[1].(VStr); ok {
			var ps []VStr
			for _, e := range l.E {
				switch x := e.(type) {
				case VStr:
					ps = append(ps, sep, x)
				case VChunk:
					ps = append(ps, joinRest(x, sep))
				default:
					return VStr{[]Part{{K: 'f', Fn: fn, A: a}}}
				}
			}
			return concat(ps...)
		}
	}
	return VStr{[]Part{{K: 'f', Fn: fn, A: a}}}
}

// joinRest is every element of a chunk with a separator before it.
func joinRest(c VChunk, sep VStr) VStr {
	return VStr{[]Part{{K: 'f', Fn: "joinrest", A: []Val{vlist{[]Val{c}}, sep}}}}
}

func sortChars(s string) string {
	r := []rune(s)
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	var out []rune
	for i, c := range r {
		if i == 0 || c != r[i-1] {
			out = append(out, c)
		}
	}
	return string(out)
}

// applyIFn simplifies an integer function.
func applyIFn(fn string, a []Val) VInt {
	ints := make([]int64, len(a))
	all := true
	for i, x := range a {
		v, ok := x.(VInt)
		if !ok {
			all = false
			break
		}
		c, ok := v.isConst()
		if !ok {
			all = false
			break
		}
		ints[i] = c
	}
	switch fn {
	case "len":
		s := a[0].(VStr)
		out := VInt{}
		for _, p := range s.P {
			switch p.K {
			case 'l':
				out.C += int64(len(p.Lit))
			case 'd':
				out.C++
			default:
				if _, lo, ok := isSubstr(VStr{[]Part{p}}); ok {
					if hi, ok := p.A[2].(VInt); ok {
						out = out.add(hi, 1).add(lo, -1)
						continue
					}
				}
				out = out.add(VInt{T: []Mono{{1, &IAtom{Fn: "len", A: []Val{VStr{[]Part{p}}}}}}}, 1)
			}
		}
		return out
	case "count":
		if l, ok := a[0].(vlist); ok {
			return listLen(l.E)
		}
		if _, ok := a[0].(VChunk); !ok {
			return iConst(1)
		}
	case "mod":
		if all && ints[1] != 0 {
			return iConst(ints[0] % ints[1])
		}
	case "div":
		if all && ints[1] != 0 {
			return iConst(ints[0] / ints[1])
		}
	case "mul":
		if all {
			return iConst(ints[0] * ints[1])
		}
	case "daysin":
		if all {
			return iConst(daysInConst(ints[0], ints[1]))
		}
		if m, ok := a[1].(VInt); ok {
			if c, ok := m.isConst(); ok && c >= 1 && c <= 12 && c != 2 {
				return iConst(daysInConst(2001, c))
			}
		}
	}
	return VInt{T: []Mono{{1, &IAtom{Fn: fn, A: a}}}}
}

func daysInConst(y, m int64) int64 {
	if m < 1 || m > 12 {
		return 31
	}
	d := [...]int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
	if m == 2 && (y%4 == 0 && y%100 != 0 || y%400 == 0) {
		d = 29
	}
	return d
}

// unknowns calls f for every unknown of a slot value.
func unknowns(v Val, f func(id int)) {
	switch x := v.(type) {
	case VStr:
		for _, p := range x.P {
			switch p.K {
			case 'a':
				f(p.ID)
			case 'd':
				unknowns(p.I, f)
			case 'f':
				for _, a := range p.A {
					unknowns(a, f)
				}
			}
		}
	case VInt:
		for _, t := range x.T {
			if t.A.Fn == "" {
				f(t.A.ID)
			}
			for _, a := range t.A.A {
				unknowns(a, f)
			}
		}
	case VFloat:
		unknowns(x.N, f)
	case VOpaque:
		f(x.ID)
	case VChunk:
		f(x.ID)
	case VGap:
		unknowns(x.N, f)
	case VSeg:
		f(x.ID)
	case vlist:
		for _, e := range x.E {
			unknowns(e, f)
		}
	case VStruct:
		for _, e := range x.F {
			unknowns(e, f)
		}
	case VArr:
		for _, e := range x.E {
			unknowns(e, f)
		}
	case VLoc:
		unknowns(x.Name, f)
		unknowns(x.Off, f)
	case VTime:
		for _, e := range x.F {
			unknowns(e, f)
		}
		unknowns(x.Loc, f)
	case VBuild:
		unknowns(x.S, f)
	}
}
