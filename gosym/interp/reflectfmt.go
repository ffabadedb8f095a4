package interp

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"

	farm "github.com/dgryski/go-farm"

	"gosym/smt"
)

func farmHash(b []byte) uint64 { return farm.Fingerprint64(b) }

// ---- a small model of reflect and internal/reflectlite

// reflVal is the payload of a modelled reflect.Value.
type reflVal struct {
	t    *RType
	v    Value
	addr *Value // pointer to the variable, when addressable
}

func (p *Program) typeIface(pkg string, t *RType) Value {
	pk := p.ByPath[pkg]
	var dyn types.Type
	if pkg == "reflect" {
		dyn = types.NewPointer(pk.Type("rtype").Type())
	} else {
		dyn = pk.Type("rtype").Type()
	}
	return Value{O: &Iface{T: p.rtype(dyn), V: Value{O: t}}}
}

func typeOfArg(v Value) *RType {
	switch x := v.O.(type) {
	case *RType:
		return x
	case *Iface:
		return typeOfArg(x.V)
	}
	unsupported("reflect: not a modelled type (%T)", v.O)
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func regReflect() {
	mkv := func(r *reflVal) Value {
		a := &Agg{F: make([]Value, 3)}
		if r != nil {
			a.F[0] = Value{O: r}
			a.F[2] = Value{N: 1}
		}
		return Value{N: aggTag, O: a}
	}
	get := func(c *callCtx, v Value) *reflVal {
		r, _ := v.O.(*Agg).F[0].O.(*reflVal)
		return r
	}
	need := func(c *callCtx, v Value) *reflVal {
		r := get(c, v)
		if r == nil {
			c.panicStr("reflect: call on zero Value")
		}
		return r
	}
	cur := func(r *reflVal) Value {
		if r.addr != nil {
			return r.addr.O.(*Agg).F[r.addr.N]
		}
		return r.v
	}
	for _, pk := range []string{"reflect", "internal/reflectlite"} {
		pk := pk
		reg(func(c *callCtx, a []Value) Value {
			if a[0].O == nil {
				return Value{}
			}
			return c.ex().w.P.typeIface(pk, a[0].O.(*Iface).T)
		}, pk+".TypeOf")
		reg(func(c *callCtx, a []Value) Value {
			if a[0].O == nil {
				return mkv(nil)
			}
			i := a[0].O.(*Iface)
			return mkv(&reflVal{t: i.T, v: i.V})
		}, pk+".ValueOf")
		vt := "(" + pk + ".Value)."
		reg(func(c *callCtx, a []Value) Value {
			r := need(c, a[0])
			v := cur(r)
			switch o := v.O.(type) {
			case nil:
				return Value{}
			case *Agg:
				return Value{N: uint64(len(o.F))}
			case *Slice:
				return Value{N: uint64(o.Len)}
			case *MapObj:
				return Value{N: uint64(o.n)}
			case string, *SymStr:
				return Value{N: uint64(strLen(v))}
			}
			unsupported("reflect Len")
			return Value{}
		}, vt+"Len")
		reg(func(c *callCtx, a []Value) Value {
			r := need(c, a[0])
			i := int(int64(c.ex().conc(a[1])))
			et := c.ex().w.P.rtype(elemType(r.t.T))
			switch o := cur(r).O.(type) {
			case *Agg:
				if i < 0 || i >= len(o.F) {
					c.panicStr("reflect: array index out of range")
				}
				if r.addr != nil {
					p := Value{N: uint64(i), O: o}
					return mkv(&reflVal{t: et, addr: &p})
				}
				return mkv(&reflVal{t: et, v: copyVal(o.F[i])})
			case *Slice:
				if i < 0 || i >= o.Len {
					c.panicStr("reflect: slice index out of range")
				}
				p := Value{N: uint64(o.Off + i), O: o.A}
				return mkv(&reflVal{t: et, addr: &p})
			}
			unsupported("reflect Index")
			return Value{}
		}, vt+"Index")
		reg(func(c *callCtx, a []Value) Value {
			r := need(c, a[0])
			v := copyVal(cur(r))
			if types.IsInterface(r.t.T) {
				return v
			}
			return Value{O: &Iface{T: r.t, V: v}}
		}, vt+"Interface")
		reg(func(c *callCtx, a []Value) Value {
			r := get(c, a[0])
			if r == nil {
				return Value{}
			}
			return Value{N: uint64(kindOf(r.t.T))}
		}, vt+"Kind")
		reg(func(c *callCtx, a []Value) Value { return cbool(get(c, a[0]) != nil) }, vt+"IsValid")
		reg(func(c *callCtx, a []Value) Value { return c.ex().w.P.typeIface(pk, need(c, a[0]).t) }, vt+"Type")
		reg(func(c *callCtx, a []Value) Value {
			r := need(c, a[0])
			switch r.t.T.Underlying().(type) {
			case *types.Pointer:
				p := cur(r)
				if p.O == nil {
					return mkv(nil)
				}
				return mkv(&reflVal{t: c.ex().w.P.rtype(elemType(r.t.T)), addr: &p})
			case *types.Interface:
				i, _ := cur(r).O.(*Iface)
				if i == nil {
					return mkv(nil)
				}
				return mkv(&reflVal{t: i.T, v: i.V})
			}
			c.panicStr("reflect: Elem of non-pointer")
			return Value{}
		}, vt+"Elem")
		reg(func(c *callCtx, a []Value) Value {
			r := need(c, a[0])
			if r.addr == nil {
				c.panicStr("reflect: Addr of unaddressable value")
			}
			return mkv(&reflVal{t: c.ex().w.P.rtype(types.NewPointer(r.t.T)), v: *r.addr})
		}, vt+"Addr")
		reg(func(c *callCtx, a []Value) Value {
			r, s := need(c, a[0]), need(c, a[1])
			if r.addr == nil {
				c.panicStr("reflect: Set on unaddressable value")
			}
			v := cur(s)
			if types.IsInterface(r.t.T) && !types.IsInterface(s.t.T) {
				v = Value{O: &Iface{T: s.t, V: v}}
			}
			c.ex().storeSlot(r.addr.O.(*Agg), int(r.addr.N), v)
			return Value{}
		}, vt+"Set")
		reg(func(c *callCtx, a []Value) Value {
			return cbool(cur(need(c, a[0])).O == nil)
		}, vt+"IsNil")
		reg(func(c *callCtx, a []Value) Value {
			r := need(c, a[0])
			st := r.t.T.Underlying().(*types.Struct)
			return Value{N: uint64(st.NumFields())}
		}, vt+"NumField")
		reg(func(c *callCtx, a []Value) Value {
			r := need(c, a[0])
			st := r.t.T.Underlying().(*types.Struct)
			i := int(c.ex().conc(a[1]))
			ft := c.ex().w.P.rtype(st.Field(i).Type())
			o := cur(r).O.(*Agg)
			if r.addr != nil {
				p := Value{N: uint64(i), O: o}
				return mkv(&reflVal{t: ft, addr: &p})
			}
			return mkv(&reflVal{t: ft, v: o.F[i]})
		}, vt+"Field")
		reg(func(c *callCtx, a []Value) Value { return cur(need(c, a[0])) }, vt+"String", vt+"Bool", vt+"Int", vt+"Uint", vt+"Float")
		reg(func(c *callCtx, a []Value) Value { return cbool(true) }, vt+"CanInterface")
		for _, rn := range []string{"(*" + pk + ".rtype).", "(" + pk + ".rtype)."} {
			reg(func(c *callCtx, a []Value) Value { return Value{N: uint64(kindOf(typeOfArg(a[0]).T))} }, rn+"Kind")
			reg(func(c *callCtx, a []Value) Value { return cbool(types.Comparable(typeOfArg(a[0]).T)) }, rn+"Comparable")
			reg(func(c *callCtx, a []Value) Value {
				e := elemType(typeOfArg(a[0]).T)
				if e == nil {
					c.panicStr("reflect: Elem of invalid type")
				}
				return c.ex().w.P.typeIface(pk, c.ex().w.P.rtype(e))
			}, rn+"Elem")
			reg(func(c *callCtx, a []Value) Value {
				return mkStr(types.TypeString(typeOfArg(a[0]).T, func(p *types.Package) string { return p.Name() }))
			}, rn+"String")
			reg(func(c *callCtx, a []Value) Value {
				if n, ok := typeOfArg(a[0]).T.(*types.Named); ok {
					return mkStr(n.Obj().Name())
				}
				return Value{}
			}, rn+"Name")
			reg(func(c *callCtx, a []Value) Value {
				switch u := typeOfArg(a[0]).T.Underlying().(type) {
				case *types.Array:
					return Value{N: uint64(u.Len())}
				}
				c.panicStr("reflect: Len of non-array type")
				return Value{}
			}, rn+"Len")
			reg(func(c *callCtx, a []Value) Value {
				u := typeOfArg(a[1])
				it, ok := u.T.Underlying().(*types.Interface)
				if !ok {
					c.panicStr("reflect: non-interface type passed to Type.Implements")
				}
				return cbool(types.Implements(typeOfArg(a[0]).T, it))
			}, rn+"Implements")
			reg(func(c *callCtx, a []Value) Value {
				return cbool(types.AssignableTo(typeOfArg(a[0]).T, typeOfArg(a[1]).T))
			}, rn+"AssignableTo")
		}
		reg(func(c *callCtx, a []Value) Value {
			i := a[0].O.(*Iface)
			s, _ := i.V.O.(*Slice)
			return Value{O: &HostFn{Name: "swapper", F: func(th *Thread, as []Value) Value {
				x, y := int(th.ex.conc(as[0])), int(th.ex.conc(as[1]))
				if s.A.owner != nil {
					th.ex.thaw(s.A.owner)
				}
				u, v := copyVal(s.A.F[s.Off+x]), copyVal(s.A.F[s.Off+y])
				th.ex.storeSlot(s.A, s.Off+x, v)
				th.ex.storeSlot(s.A, s.Off+y, u)
				return Value{}
			}}}
		}, pk+".Swapper")
	}
	reg(func(c *callCtx, a []Value) Value {
		n := int64(c.ex().conc(a[0]))
		return c.ex().w.P.typeIface("reflect", c.ex().w.P.rtype(types.NewArray(typeOfArg(a[1]).T, n)))
	}, "reflect.ArrayOf")
	reg(func(c *callCtx, a []Value) Value {
		return c.ex().w.P.typeIface("reflect", c.ex().w.P.rtype(types.NewPointer(typeOfArg(a[0]).T)))
	}, "reflect.PtrTo", "reflect.PointerTo")
	reg(func(c *callCtx, a []Value) Value {
		t := typeOfArg(a[0])
		p := alloc(c.ex().w.P.tinfo(t.T))
		return mkv(&reflVal{t: c.ex().w.P.rtype(types.NewPointer(t.T)), v: p})
	}, "reflect.New")
	reg(func(c *callCtx, a []Value) Value {
		t := typeOfArg(a[0])
		return mkv(&reflVal{t: t, v: c.ex().w.P.tinfo(t.T).zero()})
	}, "reflect.Zero")
	elems := func(r *reflVal) []Value {
		switch o := cur(r).O.(type) {
		case nil:
			return nil
		case *Agg:
			return o.F
		case *Slice:
			return o.A.F[o.Off : o.Off+o.Len]
		}
		unsupported("reflect.Copy")
		return nil
	}
	reg(func(c *callCtx, a []Value) Value {
		d, s := elems(need(c, a[0])), elems(need(c, a[1]))
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		for i := 0; i < n; i++ {
			d[i] = copyVal(s[i])
		}
		return Value{N: uint64(n)}
	}, "reflect.Copy")
	reg(func(c *callCtx, a []Value) Value {
		fr := &frame{th: c.th, code: c.code}
		return cbool(c.ex().deepEqual(fr, a[0], a[1]))
	}, "reflect.DeepEqual")
}

func (ex *Exec) deepEqual(fr *frame, a, b Value) bool {
	if a.O == nil || b.O == nil {
		return a.O == nil && b.O == nil
	}
	x, y := a.O.(*Iface), b.O.(*Iface)
	if x.T != y.T {
		return false
	}
	return ex.deepEq(fr, x.V, y.V, ex.w.P.tinfo(x.T.T))
}

func (ex *Exec) deepEq(fr *frame, a, b Value, ti *tinfo) bool {
	switch ti.k {
	case kSlice:
		x, _ := a.O.(*Slice)
		y, _ := b.O.(*Slice)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.Len != y.Len {
			return false
		}
		et := ex.w.P.tinfo(elemType(ti.t))
		for i := 0; i < x.Len; i++ {
			if !ex.deepEq(fr, x.A.F[x.Off+i], y.A.F[y.Off+i], et) {
				return false
			}
		}
		return true
	case kStruct:
		for i, f := range ti.fields {
			if !ex.deepEq(fr, a.O.(*Agg).F[i], b.O.(*Agg).F[i], f) {
				return false
			}
		}
		return true
	case kArray:
		for i := range a.O.(*Agg).F {
			if !ex.deepEq(fr, a.O.(*Agg).F[i], b.O.(*Agg).F[i], ti.elem) {
				return false
			}
		}
		return true
	case kIface:
		return ex.deepEqual(fr, a, b)
	case kPtr:
		if a.O == b.O && a.N == b.N {
			return true
		}
		if a.O == nil || b.O == nil {
			return false
		}
		return ex.deepEq(fr, a.O.(*Agg).F[a.N], b.O.(*Agg).F[b.N], ex.w.P.tinfo(elemType(ti.t)))
	case kMap:
		unsupported("DeepEqual of maps")
	case kFunc:
		return a.O == nil && b.O == nil
	}
	return ex.truth(fr.equal(a, b, ti))
}

// ---- fmt

func (c *callCtx) hasMethod(t *RType, name string) bool {
	ms := c.ex().w.P.SSA.MethodSets.MethodSet(t.T)
	s := ms.Lookup(nil, name)
	if s == nil {
		return false
	}
	sig, ok := s.Type().(*types.Signature)
	return ok && sig.Params().Len() == 0 && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.Typ[types.String])
}

func (c *callCtx) fmtVal(i Value, verb byte, plus, sharp bool, depth int) Value {
	if i.O == nil {
		if verb == 'v' || depth > 0 {
			return mkStr("<nil>")
		}
		return mkStr("%!" + string(verb) + "(<nil>)")
	}
	f := i.O.(*Iface)
	p := c.ex().w.P
	if (verb == 'v' || verb == 's' || verb == 'q') && !sharp {
		for _, m := range []string{"Error", "String"} {
			if c.hasMethod(f.T, m) {
				if kindOf(f.T.T) == reflect.Ptr && f.V.O == nil {
					return mkStr("<nil>")
				}
				fn := p.method(f.T, nil, m)
				if fn != nil {
					s := c.th.call(c.fr, fn, []Value{f.V}, nil)
					if verb == 'q' {
						if cs, ok := strConc(s); ok {
							return mkStr(strconv.Quote(cs))
						}
					}
					return s
				}
			}
		}
	}
	return c.fmtRaw(f.V, f.T.T, verb, plus, depth)
}

func (c *callCtx) fmtRaw(v Value, t types.Type, verb byte, plus bool, depth int) Value {
	p := c.ex().w.P
	ti := p.tinfo(t)
	if _, ok := v.O.(*smt.Term); ok {
		return mkStr("<sym>")
	}
	switch ti.k {
	case kBool:
		return mkStr(strconv.FormatBool(v.N != 0))
	case kInt:
		n := smt.SExtTo64(v.N, ti.w)
		switch verb {
		case 'x':
			return mkStr(fmt.Sprintf("%x", n))
		case 'c':
			return mkStr(fmt.Sprintf("%c", rune(n)))
		case 'q':
			return mkStr(fmt.Sprintf("%q", rune(n)))
		}
		return mkStr(strconv.FormatInt(n, 10))
	case kUint:
		if verb == 'x' {
			return mkStr(fmt.Sprintf("%x", v.N))
		}
		return mkStr(strconv.FormatUint(v.N, 10))
	case kFloat:
		f := f64bits(v.N, ti.w)
		switch verb {
		case 'v', 'g':
			return mkStr(fmt.Sprint(f))
		case 'f':
			return mkStr(fmt.Sprintf("%f", f))
		}
		return mkStr(fmt.Sprintf("%"+string(verb), f))
	case kString:
		if verb == 'q' {
			if s, ok := strConc(v); ok {
				return mkStr(strconv.Quote(s))
			}
			return strCat(strCat(mkStr("\""), v), mkStr("\""))
		}
		if verb == 'x' {
			if s, ok := strConc(v); ok {
				return mkStr(fmt.Sprintf("%x", s))
			}
			return mkStr("<sym>")
		}
		return v
	case kIface:
		return c.fmtVal(v, 'v', plus, false, depth+1)
	case kPtr:
		if v.O == nil {
			return mkStr("<nil>")
		}
		if depth == 0 {
			if st, ok := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && st != nil {
				a := v.O.(*Agg)
				if int(v.N) < len(a.F) {
					return strCat(mkStr("&"), c.fmtRaw(a.F[v.N], t.Underlying().(*types.Pointer).Elem(), verb, plus, depth+1))
				}
			}
		}
		return mkStr("0xc000000000")
	case kStruct:
		out := mkStr("{")
		st := t.Underlying().(*types.Struct)
		for i := range ti.fields {
			if i > 0 {
				out = strCat(out, mkStr(" "))
			}
			if plus {
				out = strCat(out, mkStr(st.Field(i).Name()+":"))
			}
			ft := st.Field(i).Type()
			fv := v.O.(*Agg).F[i]
			if !types.IsInterface(ft) && st.Field(i).Exported() {
				fv = Value{O: &Iface{T: p.rtype(ft), V: fv}}
				out = strCat(out, c.fmtVal(fv, verb, plus, false, depth+1))
			} else {
				out = strCat(out, c.fmtRaw(fv, ft, verb, plus, depth+1))
			}
		}
		return strCat(out, mkStr("}"))
	case kSlice, kArray:
		var es []Value
		if s, ok := v.O.(*Slice); ok {
			es = s.A.F[s.Off : s.Off+s.Len]
		} else if a, ok := v.O.(*Agg); ok {
			es = a.F
		}
		et := elemType(t)
		if (verb == 's' || verb == 'x') && p.tinfo(et).k == kUint && p.tinfo(et).w == 8 {
			return c.fmtRaw(bytesToStr(es), types.Typ[types.String], verb, plus, depth)
		}
		out := mkStr("[")
		for i, e := range es {
			if i > 0 {
				out = strCat(out, mkStr(" "))
			}
			if !types.IsInterface(et) {
				e = Value{O: &Iface{T: p.rtype(et), V: e}}
			}
			out = strCat(out, c.fmtVal(e, verb, plus, false, depth+1))
		}
		return strCat(out, mkStr("]"))
	case kMap:
		return mkStr("map[...]")
	case kFunc:
		if v.O == nil {
			return mkStr("<nil>")
		}
		return mkStr("0x400000")
	}
	return mkStr("?")
}

func (c *callCtx) sprintf(format string, args []Value) (Value, []Value) {
	out := Value{}
	var wrapped []Value
	lit := 0
	n := 0
	i := 0
	for i < len(format) {
		if format[i] != '%' {
			i++
			continue
		}
		out = strCat(out, mkStr(format[lit:i]))
		i++
		start := i
		plus, sharp := false, false
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			if format[i] == '+' {
				plus = true
			}
			if format[i] == '#' {
				sharp = true
			}
			i++
		}
		flags := format[start:i]
		if i >= len(format) {
			break
		}
		verb := format[i]
		i++
		lit = i
		if verb == '%' {
			out = strCat(out, mkStr("%"))
			continue
		}
		if n >= len(args) {
			out = strCat(out, mkStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[n]
		n++
		switch verb {
		case 'T':
			if a.O == nil {
				out = strCat(out, mkStr("<nil>"))
			} else {
				out = strCat(out, mkStr(types.TypeString(a.O.(*Iface).T.T, func(p *types.Package) string { return p.Name() })))
			}
			continue
		case 'w':
			wrapped = append(wrapped, a)
			out = strCat(out, c.fmtVal(a, 'v', plus, sharp, 0))
			continue
		case 'p':
			out = strCat(out, mkStr("0xc000000000"))
			continue
		}
		num := strings.Trim(flags, "+-# ")
		if num != "" && a.O != nil {
			// numeric flags on concrete scalars: use the host formatter
			f := a.O.(*Iface)
			ti := c.ex().w.P.tinfo(f.T.T)
			if f.V.O == nil || ti.k == kString {
				var h any
				switch ti.k {
				case kInt:
					h = smt.SExtTo64(f.V.N, ti.w)
				case kUint:
					h = f.V.N
				case kFloat:
					h = f64bits(f.V.N, ti.w)
				case kString:
					if s, ok := strConc(f.V); ok {
						h = s
					}
				}
				if h != nil {
					out = strCat(out, mkStr(fmt.Sprintf("%"+flags+string(verb), h)))
					continue
				}
			}
		}
		out = strCat(out, c.fmtVal(a, verb, plus, sharp, 0))
	}
	if lit < len(format) {
		out = strCat(out, mkStr(format[lit:]))
	}
	return out, wrapped
}

func regFmt() {
	vals := func(v Value) []Value {
		if s, _ := v.O.(*Slice); s != nil {
			return s.A.F[s.Off : s.Off+s.Len]
		}
		return nil
	}
	format := func(c *callCtx, v Value) string {
		s, ok := strConc(v)
		if !ok {
			unsupported("symbolic format string")
		}
		return s
	}
	reg(func(c *callCtx, a []Value) Value {
		s, _ := c.sprintf(format(c, a[0]), vals(a[1]))
		return s
	}, "fmt.Sprintf")
	reg(func(c *callCtx, a []Value) Value {
		out := Value{}
		prevStr := true
		for i, v := range vals(a[0]) {
			isStr := v.O != nil && kindOf(v.O.(*Iface).T.T) == reflect.String
			if i > 0 && !isStr && !prevStr {
				out = strCat(out, mkStr(" "))
			}
			out = strCat(out, c.fmtVal(v, 'v', false, false, 0))
			prevStr = isStr
		}
		return out
	}, "fmt.Sprint")
	reg(func(c *callCtx, a []Value) Value {
		s, w := c.sprintf(format(c, a[0]), vals(a[1]))
		ex := c.ex()
		p := ex.w.P
		switch len(w) {
		case 0:
			t := types.NewPointer(p.ByPath["errors"].Type("errorString").Type())
			z := &Agg{F: []Value{{N: aggTag, O: &Agg{F: []Value{s}}}}}
			return Value{O: &Iface{T: p.rtype(t), V: Value{O: z}}}
		case 1:
			t := types.NewPointer(p.ByPath["fmt"].Type("wrapError").Type())
			z := &Agg{F: []Value{{N: aggTag, O: &Agg{F: []Value{s, w[0]}}}}}
			return Value{O: &Iface{T: p.rtype(t), V: Value{O: z}}}
		}
		t := types.NewPointer(p.ByPath["fmt"].Type("wrapErrors").Type())
		sl := Value{O: &Slice{A: &Agg{F: append([]Value(nil), w...)}, Len: len(w), Cap: len(w)}}
		z := &Agg{F: []Value{{N: aggTag, O: &Agg{F: []Value{s, sl}}}}}
		return Value{O: &Iface{T: p.rtype(t), V: Value{O: z}}}
	}, "fmt.Errorf")
	_ = math.Inf
}
