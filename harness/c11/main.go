// Harnesses for views, hints and the outputs of instruments.
package main

import (
	"regexp"

	histostruct "github.com/lightstep/go-expohisto/structure"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/instrumentation"
)

func main() {
	rt.Run(map[string]func(){"Match": Match, "MatchRegexp": MatchRegexp, "Keys": Keys, "KeysInvalid": KeysInvalid, "Outputs": Outputs, "Agg": Agg, "Kinds": Kinds, "Config": Config, "Tempo": Tempo,
		"Dup": Dup, "DupHint": DupHint, "DupConc": DupConc, "DupReaders": DupReaders, "DupView": DupView, "Scopes": Scopes})
}

func str(name string, max int) string { return rt.String(name, rt.Choose(name+".len", max+1)) }

func sym(name string) int64 {
	v := rt.Int64(name)
	rt.Assume(rt.And(v > 0, v < 1<<30))
	return v
}

// val is any value, or a fixed one where the encoding of floating point or of
// logarithms would be out of reach.
func val(name string, fixed int64, float, hist bool) int64 {
	if float || hist {
		return fixed
	}
	return sym(name)
}

// Match: a view applies exactly when every criterion it states matches.
func Match() {
	name, lib, ver, schema := "ab", "l", "v", "s"
	kind := sdkinstrument.Kind(rt.Choose("kind", int(sdkinstrument.NumKinds)))
	float := rt.Choose("float", 2) == 1
	nk := number.Int64Kind
	if float {
		nk = number.Float64Kind
	}
	want := true
	opts := []view.ClauseOption{view.WithName("x")}
	switch rt.Choose("by", rt.Param("by", 6)) {
	case 0: // nothing: everything matches
	case 1:
		s := str("name", 2)
		opts = append(opts, view.MatchInstrumentName(s))
		want = s == "" || s == name
	case 2:
		k := sdkinstrument.Kind(rt.Byte("mkind"))
		rt.Assume(rt.And(k >= 0, k < sdkinstrument.NumKinds))
		opts = append(opts, view.MatchInstrumentKind(k))
		want = k == kind
	case 3:
		k := number.Kind(rt.Byte("mnum"))
		rt.Assume(rt.And(k >= 0, k <= 1))
		opts = append(opts, view.MatchNumberKind(k))
		want = k == nk
	case 4:
		s := instrumentation.Scope{Name: str("lib", 1), Version: str("ver", 1), SchemaURL: str("schema", 1)}
		opts = append(opts, view.MatchInstrumentationLibrary(s))
		want = (s.Name == "" || s.Name == lib) && (s.Version == "" || s.Version == ver) && (s.SchemaURL == "" || s.SchemaURL == schema)
	case 5:
		s := str("name", 2)
		k := sdkinstrument.Kind(rt.Byte("mkind"))
		rt.Assume(rt.And(k >= 0, k < sdkinstrument.NumKinds))
		n := number.Kind(rt.Byte("mnum"))
		rt.Assume(rt.And(n >= 0, n <= 1))
		l := str("lib", 1)
		opts = append(opts, view.MatchInstrumentName(s), view.MatchInstrumentKind(k), view.MatchNumberKind(n), view.MatchInstrumentationLibrary(instrumentation.Scope{Name: l}))
		want = (s == "" || s == name) && k == kind && n == nk && (l == "" || l == lib)
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, view.WithClause(opts...)))
	m := mp.Meter(lib, apimetric.WithInstrumentationVersion(ver), apimetric.WithSchemaURL(schema))
	rec, err := h.Make(m, kind, float, name)
	rt.Assert(err == nil, "no conflict")
	rec(5)
	all := h.All(r.Produce(nil))
	rt.Assert(len(all) == 1 && len(all[0].Points) == 1, "one output")
	if want {
		rt.Reach("match")
		rt.Assert(all[0].Descriptor.Name == "x", "a view that matches applies")
	} else {
		rt.Reach("mismatch")
		rt.Assert(all[0].Descriptor.Name == name, "a view that does not match does not apply")
	}
	rt.Assert(all[0].Descriptor.Kind == kind && all[0].Descriptor.NumberKind == nk, "kind and number stay")
	rt.Assert(h.Value(all[0].Points[0], float) == 5, "the value is reported")
}

// MatchRegexp: by regular expression, alone and with a name (the name counts).
func MatchRegexp() {
	names := []string{"abc", "xab", "ab", "b"}
	name := names[rt.Choose("name", len(names))]
	re := rt.Choose("re", 3)
	opts := []view.ClauseOption{view.MatchInstrumentNameRegexp(regexp.MustCompile([]string{"ab", "^ab", "^ab$"}[re])), view.WithName("x")}
	want := [][]bool{{true, true, true, false}, {true, false, true, false}, {false, false, true, false}}
	match := false
	for i, n := range names {
		if n == name {
			match = want[re][i]
		}
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, view.WithClause(opts...)))
	rec, _ := h.Make(mp.Meter("m"), sdkinstrument.SyncCounter, false, name)
	v := sym("v")
	rec(v)
	if match {
		name = "x"
	}
	all := h.All(r.Produce(nil))
	rt.Assert(len(all) == 1 && all[0].Descriptor.Name == name && h.SumI(all[0].Points[0]) == v, "the view applies exactly to the names that match")
}

// Keys: a view with a list of keys keeps exactly those attributes, and the data
// of the attribute sets that become equal is combined.
func Keys() {
	names := []attribute.Key{"a", "b"}
	var keep []attribute.Key
	sel := rt.Choose("keep", 5)
	if sel > 0 {
		keep = []attribute.Key{}
	}
	kept := [2]bool{true, true}
	if sel > 0 {
		kept = [2]bool{sel == 2 || sel == 4, sel == 3 || sel == 4}
	}
	for i := range names {
		if sel > 0 && kept[i] {
			keep = append(keep, names[i])
		}
	}
	if sel == 4 && rt.Choose("extra", 2) == 1 {
		keep = append(keep, "z", "a")
	}
	async := rt.Choose("async", 2) == 1
	kind := sdkinstrument.SyncUpDownCounter
	if async {
		kind = sdkinstrument.AsyncUpDownCounter
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, view.WithClause(view.WithKeys(keep)), h.Tempo(rt.Choose("delta", 2) == 1)))
	rec, _ := h.Make(mp.Meter("m"), kind, false, "c")
	n := rt.Param("records", 2)
	var sets []attribute.Set
	var sums []int64
	for i := 0; i < n; i++ {
		var kvs, want []attribute.KeyValue
		for j, k := range names {
			if x := rt.Choose("has", 2); x > 0 {
				kv := k.Int64(int64(rt.Choose("val", 2)))
				if rt.Param("sym", 1) > 0 && j == 0 {
					kv = k.String(rt.String("s", 1))
				}
				kvs = append(kvs, kv)
				if kept[j] {
					want = append(want, kv)
				}
			}
		}
		v := sym("v")
		if async {
			// repeated observations of one set: the last counts; keep them apart
			kvs = append(kvs, attribute.Int("i", i))
			if sel == 0 {
				want = append(want, attribute.Int("i", i))
			}
		}
		rec(v, kvs...)
		ws := attribute.NewSet(want...)
		found := false
		for k := range sets {
			if sets[k].Equals(&ws) {
				sums[k] += v
				found = true
				break
			}
		}
		if !found {
			sets = append(sets, ws)
			sums = append(sums, v)
		}
	}
	d := r.Produce(nil)
	rt.Assert(len(h.Points(d, "c")) == len(sets), "one point for each set of kept attributes")
	for k := range sets {
		ps := h.At(d, "c", sets[k])
		rt.Assert(len(ps) == 1, "the attributes reported are the kept ones")
		rt.Assert(h.SumI(ps[0]) == sums[k], "data that falls together is combined")
	}
}

// KeysInvalid: a view's keys apply also to measurements that have an attribute
// without a key, which is left out.
func KeysInvalid() {
	names := []attribute.Key{"a", "b", ""}
	sel := rt.Choose("keep", 3)
	opts := []view.Option{h.Tempo(rt.Choose("delta", 2) == 1)}
	if sel > 0 {
		opts = append(opts, view.WithClause(view.WithKeys(names[sel-1:sel])))
	}
	kind := sdkinstrument.SyncUpDownCounter
	if rt.Choose("async", 2) == 1 {
		kind = sdkinstrument.AsyncUpDownCounter
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, opts...))
	rec, _ := h.Make(mp.Meter("m"), kind, false, "c")
	var kvs, want []attribute.KeyValue
	for i, k := range names {
		if rt.Choose("has", 2) == 1 {
			kv := k.String("x")
			if i == 0 {
				kv = k.String(rt.String("s", 1))
			}
			kvs = append(kvs, kv)
			if k != "" && (sel == 0 || sel == i+1) {
				want = append(want, kv)
			}
		}
	}
	v := sym("v")
	rec(v, kvs...)
	d := r.Produce(nil)
	ps := h.At(d, "c", attribute.NewSet(want...))
	rt.Assert(len(ps) == 1 && len(h.Points(d, "c")) == 1, "the attributes reported are the kept ones that have a key")
	rt.Assert(h.SumI(ps[0]) == v, "the value")
}

// Outputs: several views of one instrument: each that applies has its output,
// with its name and description; drop removes it; equal outputs are one.
func Outputs() {
	type out struct {
		name, desc string
		keys       bool
	}
	var opts []view.Option
	var want []out
	n := rt.Param("views", 2)
	matched := false
	for i := 0; i < n; i++ {
		co := []view.ClauseOption{}
		o := out{name: "c", desc: "d"}
		if rt.Choose("match", 2) == 0 {
			co = append(co, view.MatchInstrumentName("other"), view.WithName("x"))
			opts = append(opts, view.WithClause(co...))
			continue
		}
		co = append(co, view.MatchInstrumentName("c"))
		matched = true
		switch rt.Choose("name", 3) {
		case 1:
			o.name = "y"
			co = append(co, view.WithName("y"))
		case 2:
			o.name = "c_z"
			co = append(co, view.WithRenameFunction(func(s string) string { return s + "_z" }))
		}
		if rt.Choose("desc", 2) == 1 {
			o.desc = "view"
			co = append(co, view.WithDescription("view"))
		}
		if rt.Choose("keys", 2) == 1 {
			o.keys = true
			co = append(co, view.WithKeys([]attribute.Key{}))
		}
		drop := rt.Choose("drop", 2) == 1
		if drop {
			co = append(co, view.WithAggregation(aggregation.DropKind))
		}
		opts = append(opts, view.WithClause(co...))
		if drop {
			continue
		}
		dup := false
		for k := range want {
			if want[k].name == o.name && want[k].keys == o.keys {
				dup = true // the longer description is kept
				if len(o.desc) > len(want[k].desc) {
					want[k].desc = o.desc
				}
			}
		}
		if !dup {
			want = append(want, o)
		}
	}
	if !matched {
		want = append(want, out{name: "c", desc: "d"})
	}
	conflict := false
	for i := range want {
		for j := range want[:i] {
			conflict = conflict || want[i].name == want[j].name
		}
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, opts...))
	kind := []sdkinstrument.Kind{sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter, sdkinstrument.SyncHistogram}[rt.Choose("kind", rt.Param("kinds", 3))]
	rec, err := h.Make(mp.Meter("m"), kind, false, "c", apimetric.WithDescription("d"), apimetric.WithUnit("u"))
	rt.Assert((err != nil) == conflict, "outputs of the same name that differ are a conflict, and nothing else is")
	v := val("v", 5, false, kind == sdkinstrument.SyncHistogram)
	rec(v, attribute.Int("k", 1))
	all := h.All(r.Produce(nil))
	rt.Assert(len(all) == len(want), "each view that applies has an output")
	with, without := attribute.NewSet(attribute.Int("k", 1)), attribute.NewSet()
	for _, w := range want {
		found := 0
		for _, a := range all {
			if a.Descriptor.Name != w.name || len(a.Points) != 1 {
				continue
			}
			set := with
			if w.keys {
				set = without
			}
			if !a.Points[0].Attributes.Equals(&set) {
				continue
			}
			found++
			rt.Assert(a.Descriptor.Description == w.desc, "the description is that of the view")
			rt.Assert(a.Descriptor.Unit == "u" && a.Descriptor.Kind == kind, "unit and kind stay")
			rt.Assert(h.SumI(a.Points[0]) == v, "each output takes each measurement once")
		}
		rt.Assert(found == 1, "each view that applies has an output")
	}
}

func standard(k sdkinstrument.Kind) aggregation.Kind {
	switch k {
	case sdkinstrument.SyncHistogram:
		return aggregation.HistogramKind
	case sdkinstrument.SyncGauge, sdkinstrument.AsyncGauge:
		return aggregation.GaugeKind
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		return aggregation.NonMonotonicSumKind
	}
	return aggregation.MonotonicSumKind
}

func gauge(k sdkinstrument.Kind) bool {
	return k == sdkinstrument.SyncGauge || k == sdkinstrument.AsyncGauge
}

func updown(k sdkinstrument.Kind) bool {
	return k == sdkinstrument.SyncUpDownCounter || k == sdkinstrument.AsyncUpDownCounter
}

// allowed: the aggregations that are meaningful for a kind of instrument.
func allowed(k sdkinstrument.Kind, a aggregation.Kind) bool {
	switch k {
	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
		return a == aggregation.MonotonicSumKind || a == aggregation.NonMonotonicSumKind || a == aggregation.HistogramKind || a == aggregation.MinMaxSumCountKind
	case sdkinstrument.SyncUpDownCounter, sdkinstrument.AsyncUpDownCounter:
		return a == aggregation.NonMonotonicSumKind
	case sdkinstrument.AsyncCounter:
		return a == aggregation.MonotonicSumKind || a == aggregation.NonMonotonicSumKind
	}
	return a == aggregation.GaugeKind
}

var hints = map[aggregation.Kind]string{
	aggregation.DropKind:            "drop",
	aggregation.AnySumKind:          "sum",
	aggregation.MonotonicSumKind:    "monotonic_sum",
	aggregation.NonMonotonicSumKind: "nonmonotonic_sum",
	aggregation.GaugeKind:           "gauge",
	aggregation.HistogramKind:       "histogram",
	aggregation.MinMaxSumCountKind:  "minmaxsumcount",
}

func isKind(p data.Point, want aggregation.Kind) bool {
	switch want {
	case aggregation.HistogramKind:
		_, ok := p.Aggregation.(aggregation.Histogram)
		return ok && p.Aggregation.Kind() == want
	case aggregation.GaugeKind:
		_, ok := p.Aggregation.(aggregation.Gauge)
		return ok && p.Aggregation.Kind() == want
	case aggregation.MinMaxSumCountKind:
		_, ok := p.Aggregation.(aggregation.MinMaxSumCount)
		return ok && p.Aggregation.Kind() == want
	}
	s, ok := p.Aggregation.(aggregation.Sum)
	return ok && s.IsMonotonic() == (want == aggregation.MonotonicSumKind) && p.Aggregation.Kind() == want
}

// Agg: the aggregation is that of the view, else of the hint, else the default of
// the reader; one without a meaning for the instrument is replaced by the
// standard one and reported, unless it is a hint.
func Agg() {
	kinds := []aggregation.Kind{aggregation.UndefinedKind, aggregation.DropKind, aggregation.AnySumKind, aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind, aggregation.GaugeKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind}
	kind := sdkinstrument.Kind(rt.Choose("kind", int(sdkinstrument.NumKinds)))
	float := rt.Choose("float", 2) == 1
	async := kind >= sdkinstrument.AsyncCounter

	opts := []view.Option{}
	want := standard(kind)
	if d := rt.Choose("default", 8); d > 0 {
		want = kinds[d]
		opts = append(opts, h.DefAgg(want))
	}
	hinted := false
	desc := "d"
	if x := rt.Choose("hint", 9); x > 0 {
		hinted = true
		desc = `{"description":"d"}`
		if x < 8 {
			desc = `{"description":"d","aggregation":"` + hints[kinds[x]] + `"}`
			want = kinds[x]
		}
	}
	switch v := rt.Choose("view", 9); v {
	case 0:
	default:
		co := []view.ClauseOption{view.MatchInstrumentName("c")}
		if v < 8 {
			co = append(co, view.WithAggregation(kinds[v]))
			want = kinds[v]
		}
		opts = append(opts, view.WithClause(co...))
	}
	if want == aggregation.AnySumKind {
		switch {
		case gauge(kind):
			rt.Assume(!hinted) // a sum of a gauge has no meaning to assert
			want = aggregation.UndefinedKind
		case updown(kind):
			want = aggregation.NonMonotonicSumKind
		default:
			want = aggregation.MonotonicSumKind
		}
	}
	wantErr := false
	if want != aggregation.DropKind && !hinted && !allowed(kind, want) {
		wantErr = true
		want = standard(kind)
	}
	if async && (want == aggregation.HistogramKind || want == aggregation.MinMaxSumCountKind) {
		want = aggregation.GaugeKind // the distribution of one observation
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, opts...))
	rec, err := h.Make(mp.Meter("m"), kind, float, "c", apimetric.WithDescription(desc))
	rt.Assert((err != nil) == wantErr, "an aggregation without a meaning for the instrument is reported")
	v := val("v", 5, float, want == aggregation.HistogramKind)
	rec(v)
	all := h.All(r.Produce(nil))
	if want == aggregation.DropKind {
		rt.Assert(len(all) == 0, "drop removes the output")
		return
	}
	rt.Assert(len(all) == 1 && len(all[0].Points) == 1, "one output")
	p := all[0].Points[0]
	rt.Assert(isKind(p, want), "the aggregation is the configured one")
	rt.Assert(all[0].Descriptor.Description == "d" && all[0].Descriptor.Name == "c", "a hint does not show in the description")
	rt.Assert(h.Value(p, float) == v, "the value is reported")
}

// Kinds: by default each kind of instrument has its standard aggregation.
func Kinds() {
	kind := sdkinstrument.Kind(rt.Choose("kind", int(sdkinstrument.NumKinds)))
	float := rt.Choose("float", 2) == 1
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r))
	rec, err := h.Make(mp.Meter("m"), kind, float, "c", apimetric.WithDescription("d"), apimetric.WithUnit("u"))
	rt.Assert(err == nil, "no conflict")
	v := val("v", 5, float, kind == sdkinstrument.SyncHistogram)
	rec(v)
	all := h.All(r.Produce(nil))
	rt.Assert(len(all) == 1 && len(all[0].Points) == 1, "one output")
	d := all[0].Descriptor
	nk := number.Int64Kind
	if float {
		nk = number.Float64Kind
	}
	rt.Assert(d.Name == "c" && d.Description == "d" && d.Unit == "u" && d.Kind == kind && d.NumberKind == nk, "the descriptor is that of the instrument")
	p := all[0].Points[0]
	rt.Assert(isKind(p, standard(kind)), "each kind of instrument has its standard aggregation")
	rt.Assert(p.Temporality == aggregation.CumulativeTemporality, "the standard temporality is cumulative")
	rt.Assert(h.Value(p, float) == v, "the value is reported")
	mono := kind == sdkinstrument.SyncCounter || kind == sdkinstrument.AsyncCounter
	if s, ok := p.Aggregation.(aggregation.Sum); ok && !gauge(kind) && kind != sdkinstrument.SyncHistogram {
		rt.Assert(s.IsMonotonic() == mono, "counters are monotonic, up-down counters are not")
	}
}

// Config: the aggregator configuration is that of the view, else of the hint,
// else the default of the reader, else of the provider.
func Config() {
	float := rt.Choose("float", 2) == 1
	var opts []view.Option
	want := int32(160)
	if rt.Choose("default", 2) == 1 {
		c := aggregator.Config{Histogram: histostruct.NewConfig(histostruct.WithMaxSize(8))}
		opts = append(opts, view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) { return c, c }))
		want = 8
	}
	desc := ""
	switch rt.Choose("hint", 3) {
	case 1:
		desc = `{"config":{"histogram":{"max_size":4}}}`
		want = 4
	case 2:
		desc = `{"aggregation":"histogram"}`
	}
	switch rt.Choose("view", 3) {
	case 1:
		opts = append(opts, view.WithClause(view.WithName("c")))
	case 2:
		opts = append(opts, view.WithClause(view.WithAggregatorConfig(aggregator.Config{Histogram: histostruct.NewConfig(histostruct.WithMaxSize(2))})))
		want = 2
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, opts...))
	rec, err := h.Make(mp.Meter("m"), sdkinstrument.SyncHistogram, float, "c", apimetric.WithDescription(desc))
	rt.Assert(err == nil, "no conflict")
	rec(1)
	rec(2)
	ps := h.Points(r.Produce(nil), "c")
	rt.Assert(len(ps) == 1, "one output")
	hg := ps[0].Aggregation.(aggregation.Histogram)
	rt.Assert(hg.Count() == 2, "both counted")
	// two values a factor of two apart tell the size by the scale
	scale := map[int32]int32{160: 7, 8: 2, 4: 1, 2: 0}[want]
	rt.Assert(hg.Scale() == scale, "the histogram has the configured size")
}

// Tempo: the temporality is that of the hint, else the reader's choice for the
// kind of instrument.
func Tempo() {
	kind := sdkinstrument.Kind(rt.Choose("kind", int(sdkinstrument.NumKinds)))
	float := rt.Choose("float", 2) == 1
	sel := sdkinstrument.Kind(rt.Choose("sel", int(sdkinstrument.NumKinds)))
	delta := sel == kind
	opts := []view.Option{view.WithDefaultAggregationTemporalitySelector(func(k sdkinstrument.Kind) aggregation.Temporality {
		if k == sel {
			return aggregation.DeltaTemporality
		}
		return aggregation.CumulativeTemporality
	})}
	if rt.Choose("preferred", 2) == 1 {
		opts = []view.Option{view.WithDefaultAggregationTemporalitySelector(view.DeltaPreferredTemporality)}
		delta = !updown(kind)
	}
	desc := ""
	switch rt.Choose("hint", 5) {
	case 3:
		desc = `{"temporality":"sometimes"}` // reported, and the default stays
	case 4:
		desc = `{"temporality":"delta"` // not a hint
	case 1:
		desc, delta = `{"temporality":"delta"}`, true
	case 2:
		desc, delta = `{"temporality":"cumulative"}`, false
	}
	if rt.Choose("view", 2) == 1 {
		opts = append(opts, view.WithClause(view.MatchInstrumentName("c")))
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, opts...))
	rec, err := h.Make(mp.Meter("m"), kind, float, "c", apimetric.WithDescription(desc))
	rt.Assert(err == nil, "no conflict")
	v := val("v", 5, float, kind == sdkinstrument.SyncHistogram)
	rec(v)
	for k := 0; k < 2; k++ {
		ps := h.Points(r.Produce(nil), "c")
		if len(ps) == 0 {
			rt.Assert(k == 1 && delta, "a series is absent only from a delta without a change")
			continue
		}
		p := ps[0]
		if kind == sdkinstrument.AsyncGauge {
			rt.Assert(h.Value(p, float) == v, "gauges report the last value")
			continue
		}
		want := aggregation.CumulativeTemporality
		if delta {
			want = aggregation.DeltaTemporality
		}
		rt.Assert(p.Temporality == want, "the temporality is the configured one")
		rt.Assert(k == 0 || !delta || kind == sdkinstrument.SyncGauge || h.Value(p, float) == 0, "a delta reports changes only")
		rt.Assert(k == 1 && delta || h.Value(p, float) == v, "the value is reported")
	}
}
