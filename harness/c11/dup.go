package main

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

type decl struct {
	kind       sdkinstrument.Kind
	float      bool
	name       string
	desc, unit string
}

func pick(i string) decl {
	return decl{
		kind:  sdkinstrument.Kind(rt.Choose(i+".kind", int(sdkinstrument.NumKinds))),
		float: rt.Choose(i+".float", 2) == 1,
		name:  []string{"a", "b"}[rt.Choose(i+".name", 2)],
		desc:  []string{"", "x", "longer"}[rt.Choose(i+".desc", rt.Param("descs", 3))],
		unit:  []string{"", "u"}[rt.Choose(i+".unit", 2)],
	}
}

func sync(k sdkinstrument.Kind) bool { return k < sdkinstrument.AsyncCounter }

// compatible: the two definitions have the same output.
func compatible(x, y decl) bool {
	return x.name == y.name && x.float == y.float && x.unit == y.unit && sync(x.kind) == sync(y.kind) && standard(x.kind) == standard(y.kind)
}

// Dup: two definitions in one scope: equal ones share one output, others have
// their own; those of the same name that differ are reported.
func Dup() {
	x := decl{kind: sdkinstrument.Kind(rt.Choose("x.kind", int(sdkinstrument.NumKinds))), float: rt.Choose("x.float", 2) == 1, name: "a", desc: []string{"", "y"}[rt.Choose("x.desc", 2)], unit: ""}
	y := pick("y")
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r))
	m := mp.Meter("m")
	m2 := m
	if rt.Choose("again", 2) == 1 {
		m2 = mp.Meter("m") // the same scope
	}
	rx, ex := h.Make(m, x.kind, x.float, x.name, apimetric.WithDescription(x.desc), apimetric.WithUnit(x.unit))
	ry, ey := h.Make(m2, y.kind, y.float, y.name, apimetric.WithDescription(y.desc), apimetric.WithUnit(y.unit))
	rt.Assert(ex == nil, "the first definition does not conflict")
	rt.Assert((ey != nil) == (x.name == y.name && !compatible(x, y)), "a definition that differs from one of the same name is reported, others are not")
	v, w := val("v", 5, x.float, x.kind == sdkinstrument.SyncHistogram), val("w", 7, y.float, y.kind == sdkinstrument.SyncHistogram)
	rx(v, attribute.Int("k", 1))
	ry(w, attribute.Int("k", 2))
	all := h.All(r.Produce(nil))
	s1, s2 := attribute.NewSet(attribute.Int("k", 1)), attribute.NewSet(attribute.Int("k", 2))
	if compatible(x, y) {
		rt.Reach("same")
		rt.Assert(len(all) == 1, "equal definitions share an output")
		rt.Assert(len(all[0].Points) == 2, "both are reported in the output")
		for _, p := range all[0].Points {
			rt.Assert(p.Attributes.Equals(&s1) && h.Value(p, x.float) == v || p.Attributes.Equals(&s2) && h.Value(p, x.float) == w, "both are reported in the output")
		}
		longer := x.desc
		if len(y.desc) > len(longer) {
			longer = y.desc
		}
		rt.Assert(all[0].Descriptor.Description == longer, "the longer description is reported")
		return
	}
	rt.Reach("different")
	rt.Assert(len(all) == 2, "definitions that differ have their own outputs")
	for i, d := range []decl{x, y} {
		set, val := s1, v
		if i == 1 {
			set, val = s2, w
		}
		found := 0
		for _, a := range all {
			if len(a.Points) == 1 && a.Points[0].Attributes.Equals(&set) {
				found++
				nk := 0
				if d.float {
					nk = 1
				}
				rt.Assert(a.Descriptor.Name == d.name && a.Descriptor.Unit == d.unit && a.Descriptor.Description == d.desc && a.Descriptor.Kind == d.kind && int(a.Descriptor.NumberKind) == nk, "an output has the definition of its instrument")
				rt.Assert(h.Value(a.Points[0], d.float) == val, "an output has the data of its instrument")
				rt.Assert(isKind(a.Points[0], standard(d.kind)), "an output has the aggregation of its instrument")
			}
		}
		rt.Assert(found == 1, "each instrument is reported once")
	}
}

// DupView: instruments of different names that views give one name, or one
// instrument through two views.
func DupView() {
	r := metric.NewManualReader("r")
	var opts []view.Option
	k, j := attribute.Int("k", 1), attribute.Int("j", 2)
	sets := [][]attribute.Key{nil, {}, {"k"}, {"j"}, {"k", "j"}, {"j", "k"}}
	// what is left of the attributes, and which key lists are the same
	left := []attribute.Set{h.Set(k, j), h.Set(), h.Set(k), h.Set(j), h.Set(k, j), h.Set(k, j)}
	class := []int{0, 1, 2, 3, 4, 4}
	a1 := rt.Choose("keys1", len(sets))
	a2 := rt.Choose("keys2", len(sets))
	differ := class[a1] != class[a2]
	same := rt.Choose("same", 2) == 1
	for i, keys := range []int{a1, a2} {
		name := []string{"a", "b"}[i]
		if same {
			name = "a"
		}
		co := []view.ClauseOption{view.MatchInstrumentName(name), view.WithName("o")}
		if sets[keys] != nil {
			co = append(co, view.WithKeys(sets[keys]))
		}
		opts = append(opts, view.WithClause(co...))
	}
	mp := h.Provider(metric.WithReader(r, append(opts, h.Tempo(rt.Choose("delta", 2) == 1))...))
	m := mp.Meter("m")
	c1, e1 := m.Int64UpDownCounter("a")
	rt.Assert((e1 != nil) == (same && differ), "outputs of one name that differ are reported")
	c2, e2 := m.Int64UpDownCounter("b")
	rt.Assert((e2 != nil) == (!same && differ), "outputs of one name that differ are reported")
	v, w := sym("v"), sym("w")
	at := apimetric.WithAttributes(k, j)
	c1.Add(h.Ctx, v, at)
	c2.Add(h.Ctx, w, at)
	d := r.Produce(nil)
	os := h.Insts(d, "o")
	if !same && !differ {
		rt.Assert(len(os) == 1 && len(os[0].Points) == 1 && h.SumI(os[0].Points[0]) == v+w, "instruments with one output are added up")
		rt.Assert(os[0].Points[0].Attributes == left[a1], "an output has the keys of its view")
		return
	}
	if same {
		want := 1
		if differ {
			want = 2
		}
		rt.Assert(len(os) == want, "one output for each different view")
		for i, o := range os {
			rt.Assert(len(o.Points) == 1 && h.SumI(o.Points[0]) == v, "each output takes each measurement once")
			rt.Assert(o.Points[0].Attributes == left[[]int{a1, a2}[i]], "an output has the keys of its view")
		}
		bs := h.Points(d, "b")
		rt.Assert(len(bs) == 1 && h.SumI(bs[0]) == w, "others are not affected")
		return
	}
	rt.Assert(len(os) == 2, "each has its output")
	for i, o := range os {
		val := v
		if i == 1 {
			val = w
		}
		rt.Assert(len(o.Points) == 1 && h.SumI(o.Points[0]) == val, "each has its output")
		rt.Assert(o.Points[0].Attributes == left[[]int{a1, a2}[i]], "an output has the keys of its view")
	}
}

// DupConc: two goroutines define and use instruments of the same name.
func DupConc() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r))
	mode := rt.Choose("mode", 3)
	v, w := sym("v"), sym("w")
	var e1, e2 error
	rt.Go(func() {
		c, err := mp.Meter("m").Int64Counter("c", apimetric.WithDescription("one"))
		e1 = err
		c.Add(h.Ctx, v)
	})
	rt.Go(func() {
		switch mode {
		case 0: // the same
			c, err := mp.Meter("m").Int64Counter("c", apimetric.WithDescription("one"))
			e2 = err
			c.Add(h.Ctx, w)
		case 1: // compatible
			c, err := mp.Meter("m").Int64Counter("c", apimetric.WithDescription("longer"))
			e2 = err
			c.Add(h.Ctx, w)
		case 2: // a conflict
			c, err := mp.Meter("m").Int64UpDownCounter("c")
			e2 = err
			c.Add(h.Ctx, w)
		}
	})
	if rt.Param("collect", 0) > 0 {
		rt.Go(func() { r.Produce(nil) })
	}
	rt.Wait()
	d := r.Produce(nil)
	is := h.Insts(d, "c")
	if mode == 2 {
		rt.Assert((e1 != nil) != (e2 != nil), "the second definition is reported")
		rt.Assert(len(is) == 2, "each has its output")
	} else {
		rt.Assert(e1 == nil && e2 == nil, "equal definitions do not conflict")
		rt.Assert(len(is) == 1 && len(is[0].Points) == 1, "equal definitions share an output")
	}
	rt.Assert(h.TotalI(d, "c") == v+w, "all data is reported")
}

// DupReaders: a conflict in any reader is reported.
func DupReaders() {
	n := 2
	var opts []metric.Option
	want := false
	rs := []*metric.ManualReader{}
	for i := 0; i < n; i++ {
		r := metric.NewManualReader([]string{"r", "s"}[rt.Choose("name", 2)])
		rs = append(rs, r)
		switch rt.Choose("views", 3) {
		case 0:
			opts = append(opts, metric.WithReader(r))
			want = true
		case 1: // renamed apart
			opts = append(opts, metric.WithReader(r, view.WithClause(view.MatchInstrumentKind(sdkinstrument.SyncUpDownCounter), view.WithName("u"))))
		case 2: // dropped
			opts = append(opts, metric.WithReader(r, view.WithClause(view.MatchInstrumentKind(sdkinstrument.SyncUpDownCounter), view.WithAggregation(aggregation.DropKind))))
		}
	}
	mp := h.Provider(opts...)
	m := mp.Meter("m")
	c1, e1 := m.Int64Counter("c")
	c2, e2 := m.Int64UpDownCounter("c")
	rt.Assert(e1 == nil && (e2 != nil) == want, "a conflict in any reader is reported")
	// and every time the instrument is asked for
	if rt.Choose("again", 2) == 1 {
		_, e3 := m.Int64UpDownCounter("c")
		_, e4 := m.Int64Counter("c")
		rt.Assert((e3 != nil) == want && (e4 != nil) == want, "a conflict in any reader is reported each time the instrument is asked for")
	}
	v, w := sym("v"), sym("w")
	c1.Add(h.Ctx, v)
	c2.Add(h.Ctx, w)
	for i, r := range rs {
		_ = i
		d := r.Produce(nil)
		found := false
		for _, p := range h.Points(d, "c") {
			if p.Aggregation.(aggregation.Sum).IsMonotonic() {
				found = true
				rt.Assert(h.SumI(p) == v, "a conflict does not affect the data")
			} else {
				rt.Assert(h.SumI(p) == w, "a conflict does not affect the data")
			}
		}
		rt.Assert(found, "a conflict does not affect the data")
	}
}

// Scopes: instruments of different scopes are separate; equal scopes are one.
func Scopes() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r))
	type scope struct {
		n, v, s string
		a       attribute.Set
	}
	x := scope{"m", "v", "s", attribute.NewSet([][]attribute.KeyValue{nil, {attribute.Int("a", 1)}}[rt.Choose("has", 2)]...)}
	y := scope{[]string{"m", "n"}[rt.Choose("n", 2)], []string{"v", "", "w"}[rt.Choose("v", 3)], []string{"s", "", "t"}[rt.Choose("s", 3)],
		attribute.NewSet([][]attribute.KeyValue{nil, {attribute.Int("a", 1)}, {attribute.Int("a", 2)}}[rt.Choose("a", 3)]...)}
	var recs []apimetric.Int64UpDownCounter
	for _, s := range []scope{x, y} {
		opts := []apimetric.MeterOption{apimetric.WithInstrumentationVersion(s.v), apimetric.WithSchemaURL(s.s)}
		if s.a.Len() > 0 || rt.Choose("empty", 2) == 1 {
			opts = append(opts, apimetric.WithInstrumentationAttributes(s.a.ToSlice()...))
		}
		m := mp.Meter(s.n, opts...)
		c, err := m.Int64UpDownCounter("c")
		rt.Assert(err == nil, "scopes do not conflict")
		recs = append(recs, c)
	}
	v, w := rt.Int64("v"), rt.Int64("w")
	recs[0].Add(h.Ctx, v)
	recs[1].Add(h.Ctx, w)
	d := r.Produce(nil)
	if x == y {
		rt.Assert(len(d.Scopes) == 1 && h.TotalI(d, "c") == v+w, "equal scopes are one")
		return
	}
	rt.Assert(len(d.Scopes) == 2, "different scopes are separate")
	for _, s := range d.Scopes {
		got := scope{s.Library.Name, s.Library.Version, s.Library.SchemaURL, attribute.NewSet(s.Library.Attributes.ToSlice()...)}
		rt.Assert(len(s.Instruments) == 1 && len(s.Instruments[0].Points) == 1, "each has its instrument")
		val := h.SumI(s.Instruments[0].Points[0])
		rt.Assert(got == x && val == v || got == y && val == w, "data is reported in its scope")
	}
}

// DupHint: equal definitions with a hint share one output, whatever the hint
// says: the same definition again, or one with another description.
func DupHint() {
	kind := sdkinstrument.Kind(rt.Choose("kind", int(sdkinstrument.NumKinds)))
	float := rt.Choose("float", 2) == 1
	aggs := []aggregation.Kind{aggregation.UndefinedKind, aggregation.AnySumKind, aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind, aggregation.GaugeKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind}
	a := aggs[rt.Choose("hint", len(aggs))]
	hint := ""
	if a != aggregation.UndefinedKind {
		hint = `,"aggregation":"` + hints[a] + `"`
	}
	if rt.Choose("config", 2) == 1 {
		hint += `,"config":{"histogram":{"max_size":16}}`
	}
	longer := rt.Choose("longer", 2) == 1
	r := metric.NewManualReader("r")
	m := h.Provider(metric.WithReader(r)).Meter("m")
	rx, ex := h.Make(m, kind, float, "a", apimetric.WithDescription(`{"description":"x"`+hint+`}`))
	second := "x"
	if longer {
		second = "longer"
	}
	ry, ey := h.Make(m, kind, float, "a", apimetric.WithDescription(`{"description":"`+second+`"`+hint+`}`))
	rt.Assert(ex == nil && ey == nil, "equal definitions do not conflict")
	rx(3, attribute.Int("k", 1))
	ry(5, attribute.Int("k", 2))
	d := r.Produce(nil)
	rt.Assert(len(d.Scopes) == 1 && len(d.Scopes[0].Instruments) == 1, "equal definitions share an output")
	i := d.Scopes[0].Instruments[0]
	rt.Assert(i.Descriptor.Description == second, "the longer description is reported")
	rt.Assert(len(i.Points) == 2, "both are reported in the output")
}
