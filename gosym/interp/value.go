// Package interp executes Go SSA symbolically.
package interp

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// Value is any Go value.
//
//	scalar (bool/int/float/uintptr):  O==nil -> concrete bits N ; O==*smt.Term -> symbolic
//	string:   O==nil -> "" ; O==string ; O==*SymStr
//	pointer:  O==nil -> nil ; O==*Agg, N==slot index
//	struct/array (by value): O==*Agg, N==aggTag
//	slice: O==nil -> nil ; O==*Slice
//	interface: O==nil -> nil ; O==*Iface
//	map: *MapObj, chan: *ChanObj, func: *Closure | *ssa.Builtin | *HostFn
//	tuple: O==*Tuple
type Value struct {
	N uint64
	O any
}

const aggTag = ^uint64(0)

type Agg struct {
	F     []Value
	rd    *raceData
	owner *frozen
}

type Slice struct {
	A             *Agg
	Off, Len, Cap int
}

type SymStr struct{ B []Value }

type Iface struct {
	T *RType
	V Value
}

type Tuple struct{ V []Value }

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

// HostFn is a function value implemented by the engine.
type HostFn struct {
	Name string
	F    func(th *Thread, args []Value) Value
}

type RType struct {
	T  types.Type
	ID int
}

func (r *RType) String() string { return types.TypeString(r.T, nil) }

func cbool(b bool) Value {
	if b {
		return Value{N: 1}
	}
	return Value{}
}

func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{O: s}
}

func isAgg(v Value) bool {
	if v.N != aggTag {
		return false
	}
	_, ok := v.O.(*Agg)
	return ok
}

// copyVal deep-copies by-value aggregates.
func copyVal(v Value) Value {
	if v.N == aggTag {
		if a, ok := v.O.(*Agg); ok {
			n := &Agg{F: make([]Value, len(a.F))}
			for i := range a.F {
				f := a.F[i]
				if f.N == aggTag {
					f = copyVal(f)
				}
				n.F[i] = f
			}
			return Value{N: aggTag, O: n}
		}
	}
	return v
}

// ---- type information

type tkind uint8

const (
	kBool tkind = iota
	kInt
	kUint
	kFloat
	kComplex
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kIface
	kMap
	kChan
	kFunc
	kTuple
	kUnsafe
	kOther
)

type tinfo struct {
	k      tkind
	w      uint8
	t      types.Type
	fields []*tinfo
	elem   *tinfo
	n      int
	simple bool // zero value is Value{}
}

func (p *Program) tinfo(t types.Type) *tinfo {
	p.tmu.Lock()
	defer p.tmu.Unlock()
	return p.tinfoLocked(t)
}

func (p *Program) tinfoLocked(t types.Type) *tinfo {
	if ti, ok := p.tcache[t]; ok {
		return ti
	}
	ti := &tinfo{t: t, simple: true}
	p.tcache[t] = ti
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.k, ti.w = kBool, 0
		case types.Int, types.Int64, types.UntypedInt:
			ti.k, ti.w = kInt, 64
		case types.Int8:
			ti.k, ti.w = kInt, 8
		case types.Int16:
			ti.k, ti.w = kInt, 16
		case types.Int32, types.UntypedRune:
			ti.k, ti.w = kInt, 32
		case types.Uint, types.Uint64, types.Uintptr:
			ti.k, ti.w = kUint, 64
		case types.Uint8:
			ti.k, ti.w = kUint, 8
		case types.Uint16:
			ti.k, ti.w = kUint, 16
		case types.Uint32:
			ti.k, ti.w = kUint, 32
		case types.Float32:
			ti.k, ti.w = kFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.k, ti.w = kFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.k = kComplex
		case types.String, types.UntypedString:
			ti.k = kString
		case types.UnsafePointer:
			ti.k = kUnsafe
		default:
			ti.k = kOther
		}
	case *types.Pointer:
		ti.k = kPtr
	case *types.Struct:
		ti.k = kStruct
		ti.simple = false
		ti.n = u.NumFields()
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, p.tinfoLocked(u.Field(i).Type()))
		}
	case *types.Array:
		ti.k = kArray
		ti.simple = false
		ti.n = int(u.Len())
		ti.elem = p.tinfoLocked(u.Elem())
	case *types.Slice:
		ti.k = kSlice
	case *types.Interface:
		ti.k = kIface
	case *types.Map:
		ti.k = kMap
	case *types.Chan:
		ti.k = kChan
	case *types.Signature:
		ti.k = kFunc
	case *types.Tuple:
		ti.k = kTuple
		ti.simple = false
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, p.tinfoLocked(u.At(i).Type()))
		}
	default:
		ti.k = kOther
	}
	return ti
}

func (ti *tinfo) zero() Value {
	if ti.simple {
		return Value{}
	}
	switch ti.k {
	case kStruct:
		a := &Agg{F: make([]Value, len(ti.fields))}
		for i, f := range ti.fields {
			if !f.simple {
				a.F[i] = f.zero()
			}
		}
		return Value{N: aggTag, O: a}
	case kArray:
		a := &Agg{F: make([]Value, ti.n)}
		if !ti.elem.simple {
			for i := range a.F {
				a.F[i] = ti.elem.zero()
			}
		}
		return Value{N: aggTag, O: a}
	case kTuple:
		tu := &Tuple{}
		for _, f := range ti.fields {
			tu.V = append(tu.V, f.zero())
		}
		return Value{O: tu}
	}
	return Value{}
}

func (ti *tinfo) scalar() bool { return ti.k <= kFloat }

// ---- strings

func strLen(v Value) int {
	switch s := v.O.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.B)
	}
	panic(fmt.Sprintf("strLen of %T", v.O))
}

func strByte(v Value, i int) Value {
	switch s := v.O.(type) {
	case string:
		return Value{N: uint64(s[i])}
	case *SymStr:
		return s.B[i]
	}
	panic("strByte")
}

func strConc(v Value) (string, bool) {
	switch s := v.O.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func bytesToStr(b []Value) Value {
	for _, x := range b {
		if x.O != nil {
			return Value{O: &SymStr{B: append([]Value(nil), b...)}}
		}
	}
	if len(b) == 0 {
		return Value{}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.N)
	}
	return Value{O: string(bs)}
}

func strBytes(v Value) []Value {
	switch s := v.O.(type) {
	case nil:
		return nil
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Value{N: uint64(s[i])}
		}
		return out
	case *SymStr:
		return s.B
	}
	panic("strBytes")
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.O.(type) {
	case nil:
		return v
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return bytesToStr(s.B[lo:hi])
	}
	panic("strSlice")
}

func strCat(a, b Value) Value {
	if a.O == nil {
		return b
	}
	if b.O == nil {
		return a
	}
	x, ok1 := a.O.(string)
	y, ok2 := b.O.(string)
	if ok1 && ok2 {
		return Value{O: x + y}
	}
	return bytesToStr(append(append([]Value(nil), strBytes(a)...), strBytes(b)...))
}

// ---- debugging

func (p *Program) show(v Value, t types.Type, depth int) string {
	ti := p.tinfo(t)
	switch ti.k {
	case kBool, kInt, kUint, kFloat:
		if tm, ok := v.O.(*smt.Term); ok {
			return fmt.Sprintf("<sym t%d>", tm.ID)
		}
		switch ti.k {
		case kBool:
			return fmt.Sprint(v.N != 0)
		case kInt:
			return fmt.Sprint(smt.SExtTo64(v.N, ti.w))
		case kFloat:
			return fmt.Sprint(f64of(v.N, ti.w))
		}
		return fmt.Sprint(v.N)
	case kString:
		if s, ok := strConc(v); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("<symstr %d>", strLen(v))
	case kStruct:
		if depth <= 0 {
			return "{...}"
		}
		a := v.O.(*Agg)
		st := t.Underlying().(*types.Struct)
		var sb strings.Builder
		sb.WriteString("{")
		for i := range a.F {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(st.Field(i).Name() + ":" + p.show(a.F[i], st.Field(i).Type(), depth-1))
		}
		sb.WriteString("}")
		return sb.String()
	case kIface:
		if v.O == nil {
			return "nil"
		}
		i := v.O.(*Iface)
		return "(" + i.T.String() + ")" + p.show(i.V, i.T.T, depth-1)
	case kPtr:
		if v.O == nil {
			return "nil"
		}
		if depth <= 0 {
			return "&..."
		}
		a := v.O.(*Agg)
		if v.N == aggTag || int(v.N) >= len(a.F) {
			return "&?"
		}
		return "&" + p.show(a.F[v.N], t.Underlying().(*types.Pointer).Elem(), depth-1)
	}
	if v.O == nil {
		return "nil"
	}
	return fmt.Sprintf("<%s>", types.TypeString(t, nil))
}
