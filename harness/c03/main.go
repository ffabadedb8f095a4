package main

import (
	"context"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){"Identity": Identity, "Kinds": Kinds, "Collide": Collide, "Truncate": Truncate, "TruncProc": TruncProc, "Caller": Caller, "Processor": Processor, "AsyncIdentity": AsyncIdentity, "AsyncTruncate": AsyncTruncate})
}

var keys = []attribute.Key{"a", "b"}

// same is the oracle: the lists denote the same attribute set (the last value of
// a repeated key counts, order does not matter).
func same(x, y []attribute.KeyValue) bool {
	for _, k := range keys {
		if !rt.And(true, last(x, k) == last(y, k)) {
			return false
		}
	}
	return true
}

func last(x []attribute.KeyValue, k attribute.Key) attribute.Value {
	var v attribute.Value
	for _, kv := range x {
		if kv.Key == k {
			v = kv.Value
		}
	}
	return v
}

func list(name string, max int) []attribute.KeyValue {
	n := rt.Choose(name+".n", max+1)
	out := []attribute.KeyValue{}
	for i := 0; i < n; i++ {
		k := keys[rt.Choose(name+".key", len(keys))]
		switch rt.Choose(name+".kind", rt.Param("kinds", 2)) {
		case 0:
			out = append(out, k.String(rt.String(name+".s", 1)))
		case 1:
			out = append(out, k.Int64(int64(rt.Choose(name+".i", 2))))
		case 2:
			out = append(out, k.Bool(rt.Choose(name+".b", 2) == 1))
		}
	}
	return out
}

func addVia(c apimetric.Int64UpDownCounter, api int, v int64, kvs []attribute.KeyValue) {
	switch api {
	case 0:
		c.Add(h.Ctx, v, apimetric.WithAttributes(kvs...))
	case 1:
		c.(bypass.FastInt64Adder).AddWithKeyValues(h.Ctx, v, kvs...)
	case 2:
		c.Add(h.Ctx, v, apimetric.WithAttributeSet(attribute.NewSet(kvs...)))
	}
}

// Identity: two recordings share a series exactly when their attributes are the
// same set, whatever the order, duplicates, value types, entry point or hash.
func Identity() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(rt.Choose("delta", 2) == 1)))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	n := rt.Param("max", 2)
	x, y := list("x", n), list("y", rt.Param("maxy", 1))
	xs := append([]attribute.KeyValue{}, x...)
	ys := append([]attribute.KeyValue{}, y...)
	addVia(c, rt.Choose("apix", 2), 1, x)
	addVia(c, rt.Choose("apiy", 2), 2, y)
	check(r, xs, ys)
}

func check(r *metric.ManualReader, xs, ys []attribute.KeyValue) {
	d := r.Produce(nil)
	ps := h.Points(d, "c")
	eq := same(xs, ys)
	rt.ObsInt("n", int64(len(ps)))
	if eq {
		rt.Reach("same")
		rt.Assert(len(ps) == 1, "equal attribute sets share one series")
		if len(ps) == 1 {
			rt.Assert(h.SumI(ps[0]) == 3, "one series holds both")
		}
	} else {
		rt.Reach("different")
		rt.Assert(len(ps) == 2, "different attribute sets are different series")
	}
	seen := int64(0)
	for _, p := range ps {
		s := h.SumI(p)
		seen += s
		kvs := p.Attributes.ToSlice()
		if s == 2 {
			rt.Assert(same(kvs, ys), "the series carries the attributes it was recorded with")
		} else {
			rt.Assert(same(kvs, xs), "the series carries the attributes it was recorded with")
		}
		for _, kv := range kvs {
			rt.Assert(kv.Key == keys[0] || kv.Key == keys[1], "no foreign attribute")
		}
	}
	rt.Assert(seen == 3, "nothing lost")
}

// Kinds: every attribute value type, with values that are equal, differ, or
// differ in type only.
func value(name string) attribute.KeyValue {
	k := keys[0]
	kind := rt.Choose(name+".kind", 8)
	alts := 2
	if kind >= 4 {
		alts = 3
	}
	alt := rt.Choose(name+".alt", alts)
	switch kind {
	case 0:
		return k.Bool(alt == 1)
	case 1:
		return k.Int64(int64(alt))
	case 2:
		return k.Float64(float64(alt))
	case 3:
		return k.String([]string{"p", "q"}[alt])
	case 4:
		return k.BoolSlice([][]bool{{true, false}, {false, true}, {}}[alt])
	case 5:
		return k.Int64Slice([][]int64{{0, 1}, {1, 0}, {}}[alt])
	case 6:
		return k.Float64Slice([][]float64{{0, 1}, {1, 0}, {}}[alt])
	default:
		return k.StringSlice([][]string{{"p", "q"}, {"q", "p"}, {}}[alt])
	}
}

func Kinds() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Delta()))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	x, y := []attribute.KeyValue{value("x")}, []attribute.KeyValue{value("y")}
	addVia(c, 0, 1, x)
	addVia(c, 1, 2, y)
	sx, sy := attribute.NewSet(x...), attribute.NewSet(y...)
	d := r.Produce(nil)
	ps := h.Points(d, "c")
	rt.ObsInt("n", int64(len(ps)))
	if sx.Equals(&sy) {
		rt.Assert(len(ps) == 1, "equal attribute sets share one series")
	} else {
		rt.Assert(len(ps) == 2, "attribute values that differ in value, order or type are different series")
		rt.Assert(len(h.At(d, "c", sx)) == 1 && h.SumI(h.At(d, "c", sx)[0]) == 1, "each series keeps its own data")
		rt.Assert(len(h.At(d, "c", sy)) == 1 && h.SumI(h.At(d, "c", sy)[0]) == 2, "each series keeps its own data")
	}
	// and once more: the same series are found again
	addVia(c, 0, 10, y)
	d = r.Produce(nil)
	ps = h.Points(d, "c")
	rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == 10 && ps[0].Attributes.Equals(&sy), "a later recording finds its series")
}

// Collide: three series with arbitrary (also equal) hashes, over a history with
// eviction: each series receives exactly its own data.
func Collide() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), h.Perf(1))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	n := rt.Param("series", 3)
	names := []string{"p", "q", "r", "s"}[:n]
	acc := make([]int64, n)
	v := int64(1)
	steps := rt.Param("steps", 4)
	for s := 0; s <= steps; s++ {
		op := n
		if s < steps {
			op = rt.Choose("op", n+1)
		}
		if op < n {
			c.Add(h.Ctx, v, h.KV("k", names[op]))
			acc[op] += v
			v *= 2
			continue
		}
		d := r.Produce(nil)
		tot := 0
		for i, nm := range names {
			ps := h.At(d, "c", h.Set(attribute.String("k", nm)))
			rt.Assert(len(ps) <= 1, "one point per series")
			tot += len(ps)
			var got int64
			if len(ps) == 1 {
				got = h.SumI(ps[0])
			}
			rt.Assert(got == acc[i], "colliding hashes do not mix series")
			if delta {
				acc[i] = 0
			}
		}
		rt.Assert(tot == len(h.Points(d, "c")), "no foreign series")
		rt.ObsInt("n", int64(tot))
	}
}

// Truncate: attribute keys and strings longer than the limit are cut to it, and
// two recordings share a series exactly when their cut attributes are equal.
func cut(s string, lim int) string {
	if len(s) > lim {
		return s[:lim]
	}
	return s
}

func cutKV(kvs []attribute.KeyValue, lim int) []attribute.KeyValue {
	out := []attribute.KeyValue{}
	for _, kv := range kvs {
		k := attribute.Key(cut(string(kv.Key), lim))
		switch kv.Value.Type() {
		case attribute.STRING:
			out = append(out, k.String(cut(kv.Value.AsString(), lim)))
		case attribute.STRINGSLICE:
			var ss []string
			for _, s := range kv.Value.AsStringSlice() {
				ss = append(ss, cut(s, lim))
			}
			out = append(out, k.StringSlice(ss))
		default:
			out = append(out, attribute.KeyValue{Key: k, Value: kv.Value})
		}
	}
	return out
}

func sameVal(a, b attribute.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Type() {
	case attribute.STRING:
		return a.AsString() == b.AsString()
	case attribute.STRINGSLICE:
		x, y := a.AsStringSlice(), b.AsStringSlice()
		return len(x) == len(y) && x[0] == y[0] && x[1] == y[1]
	}
	return a.AsInt64() == b.AsInt64()
}

func longList(name string) []attribute.KeyValue {
	ks := []attribute.Key{"a", "aaaa", "aaab"}
	first := true
	text := func() string {
		if !first && rt.Param("second", 0) == 0 {
			return "xyz"
		}
		first = false
		return rt.String(name+".v", []int{0, 2, 4, 3}[rt.Choose(name+".len", 3+rt.Param("second", 0))])
	}
	var out []attribute.KeyValue
	n := 1 + rt.Choose(name+".n", 2)
	for i := 0; i < n; i++ {
		k := ks[rt.Choose(name+".k", len(ks))]
		switch rt.Choose(name+".kind", 4) {
		case 0:
			out = append(out, k.String(text()))
		case 1:
			out = append(out, k.StringSlice([]string{"x", text()}))
		case 2:
			out = append(out, k.Int64(7))
		case 3:
			t := text()
			out = append(out, k.StringSlice([]string{t, "x"}))
		}
	}
	return out
}

func Truncate() {
	lim := int(rt.Int64("lim"))
	rt.Assume(rt.And(lim >= 1, lim <= 5))
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithPerformance(sdkinstrument.Performance{AttributeSizeLimit: uint32(lim)}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	x := longList("x")
	// truncation applies to what the API hands over: a set for Add, the list itself for the bypass
	api := rt.Choose("api", 2)
	seen := append([]attribute.KeyValue{}, x...)
	if api == 0 {
		s := attribute.NewSet(seen...)
		seen = s.ToSlice()
	}
	want := attribute.NewSet(cutKV(seen, lim)...)
	orig := append([]attribute.KeyValue{}, x...)
	addVia(c, api, 1, x)
	d := r.Produce(nil)
	ps := h.Points(d, "c")
	rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == 1, "one series")
	rt.Assert(ps[0].Attributes.Equals(&want), "keys and strings are cut to the limit and nothing else changes")
	for i := range orig {
		rt.Assert(orig[i].Key == x[i].Key && sameVal(orig[i].Value, x[i].Value), "the caller's attributes are left as they were")
	}
	rt.ObsInt("len", int64(ps[0].Attributes.Len()))
}

// Caller: the caller reuses its attribute slice after the call.
func Caller() {
	ignore := rt.Choose("ignore", 2) == 1
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(rt.Choose("delta", 2) == 1)), metric.WithPerformance(sdkinstrument.Performance{IgnoreCollisions: ignore}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	// Values that have different fingerprints, or the same one.
	vals := []attribute.KeyValue{attribute.String("k", "p"), attribute.String("k", "q"), attribute.String("k", "zzz")}
	if !ignore && rt.Choose("collide", 2) == 1 {
		vals = []attribute.KeyValue{attribute.Int64Slice("k", []int64{1, 2, 3}), attribute.Int64Slice("k", []int64{3, 2, 1}), attribute.Int64Slice("k", []int64{2, 1, 3})}
	}
	buf := []attribute.KeyValue{vals[0], attribute.String("a", "1")}
	b := c.(bypass.FastInt64Adder)
	b.AddWithKeyValues(h.Ctx, 1, buf...)
	rt.Assert(buf[0].Key == "k" && buf[1].Key == "a", "the caller's slice is not reordered")
	buf[0] = vals[1]
	b.AddWithKeyValues(h.Ctx, 2, buf...)
	buf[0] = vals[0]
	b.AddWithKeyValues(h.Ctx, 4, buf...)
	buf[0] = vals[2]
	d := r.Produce(nil)
	p := h.At(d, "c", h.Set(vals[0], attribute.String("a", "1")))
	q := h.At(d, "c", h.Set(vals[1], attribute.String("a", "1")))
	rt.Assert(len(p) == 1 && len(q) == 1 && len(h.Points(d, "c")) == 2, "two series")
	rt.Assert(h.SumI(p[0]) == 5 && h.SumI(q[0]) == 2, "each series has its data")
	buf[0] = vals[1]
	b.AddWithKeyValues(h.Ctx, 8, buf...)
	d = r.Produce(nil)
	q = h.At(d, "c", h.Set(vals[1], attribute.String("a", "1")))
	rt.Assert(len(q) == 1 && (h.SumI(q[0]) == 8 || h.SumI(q[0]) == 10), "the series is found again")
}

type proc struct{}

type ctxKey struct{}

func (proc) Process(ctx context.Context, in []attribute.KeyValue) []attribute.KeyValue {
	v, _ := ctx.Value(ctxKey{}).(string)
	return append(append([]attribute.KeyValue{}, in...), attribute.String("ctx", v))
}

// Processor: a measurement processor's output decides the series.
func Processor() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithPerformance(sdkinstrument.Performance{MeasurementProcessor: proc{}}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	x, y := rt.String("x", 1), rt.String("y", 1)
	c.Add(context.WithValue(h.Ctx, ctxKey{}, x), 1, h.KV("k", "v"))
	c.Add(context.WithValue(h.Ctx, ctxKey{}, y), 2, h.KV("k", "v"))
	d := r.Produce(nil)
	ps := h.Points(d, "c")
	if x == y {
		rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == 3, "same processed attributes, same series")
	} else {
		rt.Assert(len(ps) == 2, "different processed attributes, different series")
		px := h.At(d, "c", h.Set(attribute.String("k", "v"), attribute.String("ctx", x)))
		rt.Assert(len(px) == 1 && h.SumI(px[0]) == 1, "the series carries the processed attributes")
	}
	rt.ObsInt("n", int64(len(ps)))
}

// TruncProc: the limit holds with a measurement processor, for what the caller gave.
func TruncProc() {
	lim := int(rt.Int64("lim"))
	rt.Assume(rt.And(lim >= 1, lim <= 4))
	temp := rt.Choose("delta", 2) == 1
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(temp)), metric.WithPerformance(sdkinstrument.Performance{AttributeSizeLimit: uint32(lim), MeasurementProcessor: proc{}}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	x := []attribute.KeyValue{attribute.String("aaab", rt.String("x", []int{2, 5}[rt.Choose("xlen", 2)]))}
	y := []attribute.KeyValue{attribute.String("aaab", rt.String("y", []int{0, 2, 4}[rt.Choose("ylen", 3)]))}
	addVia(c, rt.Choose("apix", 2), 1, x)
	addVia(c, rt.Choose("apiy", 2), 2, y)
	ps := h.Points(r.Produce(nil), "c")
	total := int64(0)
	for _, p := range ps {
		total += h.SumI(p)
		for _, kv := range p.Attributes.ToSlice() {
			if kv.Key != "ctx" { // added by the processor
				rt.Assert(len(kv.Key) <= lim && len(kv.Value.AsString()) <= lim, "no key or value longer than the limit")
			}
		}
	}
	rt.Assert(total == 3, "nothing lost")
	same := cut(x[0].Value.AsString(), lim) == cut(y[0].Value.AsString(), lim)
	rt.Assert(len(ps) == 1 == same, "equal cut attributes share a series")
	rt.ObsInt("n", int64(len(ps)))
}

// AsyncIdentity: the same for observations inside a callback.
func AsyncIdentity() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(rt.Choose("delta", 2) == 1)))
	m := mp.Meter("m")
	c, _ := m.Int64ObservableUpDownCounter("c")
	x, y := list("x", rt.Param("max", 2)), list("y", rt.Param("maxy", 1))
	xs := append([]attribute.KeyValue{}, x...)
	ys := append([]attribute.KeyValue{}, y...)
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		o.ObserveInt64(c, 1, apimetric.WithAttributes(x...))
		o.ObserveInt64(c, 2, apimetric.WithAttributes(y...))
		return nil
	}, c)
	d := r.Produce(nil)
	ps := h.Points(d, "c")
	rt.ObsInt("n", int64(len(ps)))
	if same(xs, ys) {
		rt.Assert(len(ps) == 1, "equal attribute sets share one series")
		rt.Assert(h.SumI(ps[0]) == 2, "the last observation of a series counts")
		return
	}
	rt.Assert(len(ps) == 2, "different attribute sets are different series")
	for _, p := range ps {
		kvs := p.Attributes.ToSlice()
		if h.SumI(p) == 2 {
			rt.Assert(same(kvs, ys), "the series carries its attributes")
		} else {
			rt.Assert(h.SumI(p) == 1 && same(kvs, xs), "the series carries its attributes")
		}
	}
}

// AsyncTruncate: the size limit holds for observations, too.
func AsyncTruncate() {
	lim := int(rt.Int64("lim"))
	rt.Assume(rt.And(lim >= 1, lim <= 5))
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithPerformance(sdkinstrument.Performance{AttributeSizeLimit: uint32(lim)}))
	m := mp.Meter("m")
	c, _ := m.Int64ObservableUpDownCounter("c")
	x := longList("x")
	s := attribute.NewSet(append([]attribute.KeyValue{}, x...)...)
	want := attribute.NewSet(cutKV(s.ToSlice(), lim)...)
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		o.ObserveInt64(c, 1, apimetric.WithAttributes(x...))
		return nil
	}, c)
	ps := h.Points(r.Produce(nil), "c")
	rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == 1, "one series")
	rt.Assert(ps[0].Attributes.Equals(&want), "keys and strings are cut to the limit and nothing else changes")
	rt.ObsInt("len", int64(ps[0].Attributes.Len()))
}
