package interp

import (
	"encoding/json"
	"go/types"
	"math"
	"reflect"
	"strings"
)

// json.Unmarshal is modelled for concrete input and plain struct targets: the
// host's decoder parses, the engine assigns. (json.Unmarshal is trusted library
// code; the repository only uses it for instrument hints.)
func init() {
	reg(func(c *callCtx, a []Value) Value {
		sl, _ := a[0].O.(*Slice)
		var b []byte
		if sl != nil {
			for i := 0; i < sl.Len; i++ {
				v := sl.A.F[sl.Off+i]
				if v.O != nil {
					unsupported("symbolic JSON input")
				}
				b = append(b, byte(v.N))
			}
		}
		ifc, ok := a[1].O.(*Iface)
		if !ok {
			unsupported("json.Unmarshal into nil")
		}
		pt, ok := ifc.T.T.Underlying().(*types.Pointer)
		if !ok {
			unsupported("json.Unmarshal into %s", ifc.T.T)
		}
		var raw json.RawMessage
		if err := json.Unmarshal(b, &raw); err != nil {
			return c.ex().mkError(err.Error())
		}
		// decode into a host value of an equivalent type first: this finds type errors
		// exactly as the real decoder does
		ht := jsonType(pt.Elem())
		hv := reflect.New(ht)
		err := json.Unmarshal(b, hv.Interface())
		p := ifc.V.O.(*Agg)
		p.F[ifc.V.N] = jsonAssign(hv.Elem(), pt.Elem(), p.F[ifc.V.N])
		if err != nil {
			return c.ex().mkError(err.Error())
		}
		return Value{}
	}, "encoding/json.Unmarshal")
}

func jsonType(t types.Type) reflect.Type {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.TypeOf(false)
		case types.String:
			return reflect.TypeOf("")
		case types.Int:
			return reflect.TypeOf(int(0))
		case types.Int32:
			return reflect.TypeOf(int32(0))
		case types.Int64:
			return reflect.TypeOf(int64(0))
		case types.Uint32:
			return reflect.TypeOf(uint32(0))
		case types.Uint64:
			return reflect.TypeOf(uint64(0))
		case types.Float64:
			return reflect.TypeOf(float64(0))
		}
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				unsupported("json: unexported field in %s", t)
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: jsonType(f.Type()), Tag: reflect.StructTag(u.Tag(i)), Anonymous: false})
		}
		return reflect.StructOf(fs)
	}
	unsupported("json target type %s", t)
	return nil
}

func jsonAssign(h reflect.Value, t types.Type, old Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch h.Kind() {
		case reflect.Bool:
			return cbool(h.Bool())
		case reflect.String:
			return mkStr(strings.Clone(h.String()))
		case reflect.Float64:
			return Value{N: math.Float64bits(h.Float())}
		case reflect.Int32:
			return Value{N: uint64(uint32(h.Int()))}
		case reflect.Int, reflect.Int64:
			return Value{N: uint64(h.Int())}
		default:
			return Value{N: h.Uint()}
		}
	case *types.Struct:
		a := old.O.(*Agg)
		for i := 0; i < u.NumFields(); i++ {
			a.F[i] = jsonAssign(h.Field(i), u.Field(i).Type(), a.F[i])
		}
		return old
	}
	return old
}
