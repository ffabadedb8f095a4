// Harnesses for the conversion of collected metrics to OTLP and for the
// accounting of exports.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/export"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/collector/component"
	"go.opentelemetry.io/collector/consumer"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	metricnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/resource"
	tracenoop "go.opentelemetry.io/otel/trace/noop"
)

func main() {
	rt.Run(map[string]func(){"Points": Points, "Float": Float, "Hist": Hist, "Attrs": Attrs, "Batch": Batch, "Resource": Resource, "ResourceConc": ResourceConc, "Outcome": Outcome, "Names": Names, "Explicit": Explicit, "Extreme": Extreme})
}

// sink is the destination of the export.
type sink struct {
	got  []pmetric.Metrics
	err  error
	n    int  // the points received
	take bool // the destination moves the data away
}

func (s *sink) Start(context.Context, component.Host) error { return nil }
func (s *sink) Shutdown(context.Context) error              { return nil }
func (s *sink) Capabilities() consumer.Capabilities         { return consumer.Capabilities{} }
func (s *sink) ConsumeMetrics(_ context.Context, m pmetric.Metrics) error {
	s.n += m.DataPointCount()
	if s.take {
		k := pmetric.NewMetrics()
		m.ResourceMetrics().MoveAndAppendTo(k.ResourceMetrics())
		m = k
	}
	s.got = append(s.got, m)
	return s.err
}

var (
	tracer                         = tracenoop.NewTracerProvider().Tracer("t")
	counter apimetric.Int64Counter = metricnoop.Int64Counter{}
)

func send(d data.Metrics, rm *internal.ResourceMap, expo bool) pmetric.Metrics {
	s := &sink{}
	err := export.ExportMetrics(h.Ctx, d, tracer, counter, rm, s, expo)
	rt.Assert(err == nil, "the export succeeds")
	rt.Assert(len(s.got) == 1, "one batch is sent")
	return s.got[0]
}

func only(m pmetric.Metrics) pmetric.Metric {
	rt.Assert(m.ResourceMetrics().Len() == 1, "one resource")
	rm := m.ResourceMetrics().At(0)
	rt.Assert(rm.ScopeMetrics().Len() == 1 && rm.ScopeMetrics().At(0).Metrics().Len() == 1, "one metric")
	return rm.ScopeMetrics().At(0).Metrics().At(0)
}

func stamp(t time.Time) pcommon.Timestamp { return pcommon.Timestamp(t.UnixNano()) }

func tempo(t aggregation.Temporality) pmetric.AggregationTemporality {
	if t == aggregation.DeltaTemporality {
		return pmetric.AggregationTemporalityDelta
	}
	return pmetric.AggregationTemporalityCumulative
}

var aggs = []aggregation.Kind{aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind, aggregation.GaugeKind, aggregation.MinMaxSumCountKind}

// Points: integer sums, gauges and MinMaxSumCount.
func Points() {
	delta := rt.Choose("delta", 2) == 1
	r := metric.NewManualReader("r")
	agg := rt.Choose("agg", len(aggs))
	desc := `{"description":"about","aggregation":"` + []string{"monotonic_sum", "nonmonotonic_sum", "gauge", "minmaxsumcount"}[agg] + `"}`
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)))
	c, _ := mp.Meter("m").Int64UpDownCounter("c", apimetric.WithDescription(desc), apimetric.WithUnit("u"))
	v, w := rt.Int64("v"), rt.Int64("w")
	if agg == 0 {
		rt.Assume(rt.And(v > 0, w > 0))
	}
	lim := int64(1) << rt.Param("bits", 30) // exact in float64
	if agg == 3 {
		rt.Assume(rt.And(rt.And(v > -lim, v < lim), rt.And(w > -lim, w < lim)))
	}
	rt.Assume(rt.And(v != 0, v+w != 0))
	c.Add(h.Ctx, v, h.KV("k", "x"))
	c.Add(h.Ctx, w, h.KV("k", "x"))
	d := r.Produce(nil)
	in := h.Points(d, "c")
	rt.Assert(len(in) == 1, "reported")
	m := only(send(d, &internal.ResourceMap{}, true))
	rt.Assert(m.Name() == "c" && m.Unit() == "u" && m.Description() == "about", "name, unit and description")
	switch agg {
	case 0, 1:
		rt.Assert(m.Type() == pmetric.MetricTypeSum, "a sum is exported as a sum")
		rt.Assert(m.Sum().IsMonotonic() == (agg == 0), "monotonicity is preserved")
		rt.Assert(m.Sum().AggregationTemporality() == tempo(in[0].Temporality), "temporality is preserved")
		rt.Assert(m.Sum().DataPoints().Len() == 1, "one point")
		p := m.Sum().DataPoints().At(0)
		rt.Assert(p.ValueType() == pmetric.NumberDataPointValueTypeInt && p.IntValue() == v+w, "the value is preserved")
		rt.Assert(p.StartTimestamp() == stamp(in[0].Start) && p.Timestamp() == stamp(in[0].End), "the interval is preserved")
		attrs(p.Attributes(), in[0].Attributes)
	case 2:
		rt.Assert(m.Type() == pmetric.MetricTypeGauge && m.Gauge().DataPoints().Len() == 1, "a gauge is exported as a gauge")
		p := m.Gauge().DataPoints().At(0)
		rt.Assert(p.ValueType() == pmetric.NumberDataPointValueTypeInt && p.IntValue() == w, "the value is preserved")
		rt.Assert(p.Timestamp() == stamp(in[0].End), "the time is preserved")
		attrs(p.Attributes(), in[0].Attributes)
	case 3:
		rt.Assert(m.Type() == pmetric.MetricTypeHistogram && m.Histogram().DataPoints().Len() == 1, "MinMaxSumCount is exported as a histogram without buckets")
		rt.Assert(m.Histogram().AggregationTemporality() == tempo(in[0].Temporality), "temporality is preserved")
		p := m.Histogram().DataPoints().At(0)
		rt.Assert(p.Count() == 2 && p.HasSum() && p.HasMin() && p.HasMax(), "count, sum, min and max are present")
		rt.Assert(p.BucketCounts().Len() == 0 && p.ExplicitBounds().Len() == 0, "no buckets")
		rt.Assert(p.Sum() == float64(v+w), "the sum is preserved")
		lo, hi := v, w
		if w < v {
			lo, hi = w, v
		}
		rt.Assert(p.Min() == float64(lo), "the minimum is preserved")
		rt.Assert(p.Max() == float64(hi), "the maximum is preserved")
		rt.Assert(p.StartTimestamp() == stamp(in[0].Start) && p.Timestamp() == stamp(in[0].End), "the interval is preserved")
		attrs(p.Attributes(), in[0].Attributes)
	}
}

// Float: any float64 value.
func Float() {
	r := metric.NewManualReader("r")
	agg := rt.Choose("agg", len(aggs))
	desc := `{"description":"about","aggregation":"` + []string{"monotonic_sum", "nonmonotonic_sum", "gauge", "minmaxsumcount"}[agg] + `"}`
	mp := h.Provider(metric.WithReader(r, h.Tempo(rt.Choose("delta", 2) == 1)))
	c, _ := mp.Meter("m").Float64Gauge("c", apimetric.WithDescription(desc))
	v := rt.Float64("v")
	rt.Assume(rt.And(v-v == 0, v != 0))
	c.Record(h.Ctx, v)
	d := r.Produce(nil)
	in := h.Points(d, "c")
	rt.Assert(len(in) == 1, "reported")
	m := only(send(d, &internal.ResourceMap{}, true))
	switch agg {
	case 0, 1:
		p := m.Sum().DataPoints().At(0)
		rt.Assert(p.ValueType() == pmetric.NumberDataPointValueTypeDouble && p.DoubleValue() == v, "the value is preserved")
		rt.Assert(m.Sum().IsMonotonic() == (agg == 0), "monotonicity is preserved")
	case 2:
		p := m.Gauge().DataPoints().At(0)
		rt.Assert(p.ValueType() == pmetric.NumberDataPointValueTypeDouble && p.DoubleValue() == v, "the value is preserved")
	case 3:
		p := m.Histogram().DataPoints().At(0)
		rt.Assert(rt.And(rt.And(p.Sum() == v, p.Min() == v), rt.And(p.Max() == v, p.Count() == 1)), "sum, min, max and count are preserved")
	}
}

var table = []int64{0, 1, 2, 3, 5, 8, 1000, 1 << 40}

// Hist: exponential histograms; any choice of values from a table.
func Hist() {
	float := rt.Choose("float", 2) == 1
	delta := rt.Choose("delta", 2) == 1
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)))
	kind, vals := sdkinstrument.SyncHistogram, table
	if rt.Choose("signed", 2) == 1 {
		kind, vals = sdkinstrument.SyncUpDownCounter, signed
	}
	rec, _ := h.Make(mp.Meter("m"), kind, float, "c", apimetric.WithDescription(`{"aggregation":"histogram"}`))
	n := 1 + rt.Choose("n", rt.Param("values", 3))
	for i := 0; i < n; i++ {
		rec(vals[rt.Choose("v", len(vals))])
	}
	d := r.Produce(nil)
	in := h.Points(d, "c")
	m := only(send(d, &internal.ResourceMap{}, true))
	rt.Assert(m.Type() == pmetric.MetricTypeExponentialHistogram && m.ExponentialHistogram().DataPoints().Len() == 1, "an exponential histogram")
	rt.Assert(m.ExponentialHistogram().AggregationTemporality() == tempo(in[0].Temporality), "temporality is preserved")
	judge(m.ExponentialHistogram().DataPoints().At(0), in[0], float)
}

func judge(p pmetric.ExponentialHistogramDataPoint, in data.Point, float bool) {
	hg := in.Aggregation.(aggregation.Histogram)
	rt.Assert(p.Count() == hg.Count() && p.ZeroCount() == hg.ZeroCount() && p.Scale() == hg.Scale(), "count, zero count and scale are preserved")
	rt.Assert(p.HasSum() && p.HasMin() && p.HasMax(), "sum, min and max are present")
	sum, min, max := float64(number.ToInt64(hg.Sum())), float64(number.ToInt64(hg.Min())), float64(number.ToInt64(hg.Max()))
	if float {
		sum, min, max = number.ToFloat64(hg.Sum()), number.ToFloat64(hg.Min()), number.ToFloat64(hg.Max())
	}
	rt.Assert(p.Sum() == sum && p.Min() == min && p.Max() == max, "sum, min and max are preserved")
	buckets(p.Positive(), hg.Positive())
	buckets(p.Negative(), hg.Negative())
	rt.Assert(p.StartTimestamp() == stamp(in.Start) && p.Timestamp() == stamp(in.End), "the interval is preserved")
	attrs(p.Attributes(), in.Attributes)
}

func buckets(p pmetric.ExponentialHistogramDataPointBuckets, b aggregation.Buckets) {
	rt.Assert(p.BucketCounts().Len() == int(b.Len()), "the buckets are preserved")
	if b.Len() > 0 {
		rt.Assert(p.Offset() == b.Offset(), "the offset is preserved")
	}
	for i := 0; i < int(b.Len()); i++ {
		rt.Assert(p.BucketCounts().At(i) == b.At(uint32(i)), "the buckets are preserved")
	}
}

// Explicit: histograms with explicit bounds; every value lies in the bucket that
// counts it.
func Explicit() {
	float := rt.Choose("float", 2) == 1
	delta := rt.Choose("delta", 2) == 1
	kind, vals := sdkinstrument.SyncHistogram, table
	if rt.Choose("signed", 2) == 1 {
		// only these kinds of instruments take negative values
		kind, vals = sdkinstrument.SyncUpDownCounter, signed
	}
	explicit(float, delta, kind, func(i int) float64 { return float64(vals[rt.Choose("v", len(vals))]) })
}

var signed = []int64{0, 1, 3, 1000, -1, -2, -3, -5, -1000, -(1 << 40)}

// Extreme: values at the ends of the range of numbers.
func Extreme() {
	vals := []float64{0, 5, math.MaxFloat64, math.MaxFloat64 / 2, math.SmallestNonzeroFloat64, 0x1p-1022, 0x1p-1021, 0x1.8p-1022, 0x1p1023, 0x1.5p1000, 1.5e308}
	kind, sign := sdkinstrument.SyncHistogram, 1.0
	if rt.Choose("signed", 2) == 1 {
		kind, sign = sdkinstrument.SyncUpDownCounter, -1
	}
	explicit(true, true, kind, func(i int) float64 { return sign * vals[rt.Choose("v", len(vals))] })
}

func explicit(float, delta bool, kind sdkinstrument.Kind, value func(i int) float64) {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)))
	size := rt.Choose("size", 2)
	desc := `{"aggregation":"histogram"` + []string{"}", `,"config":{"histogram":{"max_size":4}}}`}[size]
	m1 := mp.Meter("m")
	var rec func(float64)
	switch {
	case kind == sdkinstrument.SyncHistogram && float:
		c, _ := m1.Float64Histogram("c", apimetric.WithDescription(desc))
		rec = func(v float64) { c.Record(h.Ctx, v) }
	case kind == sdkinstrument.SyncHistogram:
		c, _ := m1.Int64Histogram("c", apimetric.WithDescription(desc))
		rec = func(v float64) { c.Record(h.Ctx, int64(v)) }
	case float:
		c, _ := m1.Float64UpDownCounter("c", apimetric.WithDescription(desc))
		rec = func(v float64) { c.Add(h.Ctx, v) }
	default:
		c, _ := m1.Int64UpDownCounter("c", apimetric.WithDescription(desc))
		rec = func(v float64) { c.Add(h.Ctx, int64(v)) }
	}
	n := 1 + rt.Choose("n", rt.Param("values", 3))
	var vals []float64
	var sum float64
	for i := 0; i < n; i++ {
		v := value(i)
		vals = append(vals, v)
		sum += v
		rec(v)
	}
	d := r.Produce(nil)
	in := h.Points(d, "c")
	m := only(send(d, &internal.ResourceMap{}, false))
	rt.Assert(m.Type() == pmetric.MetricTypeHistogram && m.Histogram().DataPoints().Len() == 1, "a histogram")
	rt.Assert(m.Histogram().AggregationTemporality() == tempo(in[0].Temporality), "temporality is preserved")
	p := m.Histogram().DataPoints().At(0)
	rt.Assert(p.Count() == uint64(n) && p.Sum() == sum, "count and sum are preserved")
	lo, hi := vals[0], vals[0]
	for _, v := range vals {
		if v < lo {
			lo = v
		}
		if v > hi {
			hi = v
		}
	}
	rt.Assert(p.Min() == lo && p.Max() == hi, "min and max are preserved")
	rt.Assert(p.BucketCounts().Len() == p.ExplicitBounds().Len()+1, "one bucket more than bounds")
	var total uint64
	for i := 0; i < p.BucketCounts().Len(); i++ {
		total += p.BucketCounts().At(i)
		if i > 0 && i < p.ExplicitBounds().Len() {
			rt.Assert(p.ExplicitBounds().At(i-1) < p.ExplicitBounds().At(i), "bounds increase")
		}
	}
	rt.Assert(total == uint64(n), "the buckets add up to the count")
	// the number of values up to each bound is the number counted up to it,
	// within the resolution of the boundaries
	for i := 0; i < p.ExplicitBounds().Len(); i++ {
		b := p.ExplicitBounds().At(i)
		tol := math.Abs(b) * 1e-9
		if math.Abs(b) < 0x1p-1000 {
			tol = 0x1p-1022 // the mapping does not tell apart smaller numbers
		}
		var below, counted, atBound uint64
		for _, v := range vals {
			if v < b-tol || v == 0 && b == 0 {
				below++
			} else if v <= b || v-b <= tol {
				if !(b == 0 && v > 0) {
					atBound++
				}
			}
		}
		for k := 0; k <= i; k++ {
			counted += p.BucketCounts().At(k)
		}
		rt.Assert(counted >= below && counted <= below+atBound, "every value lies in the bucket that counts it")
	}
	// and as many buckets tell values apart as in the collected histogram
	fine := true
	for _, v := range vals {
		fine = fine && math.Abs(v) < 1e300 && (v == 0 || math.Abs(v) > 0x1p-1000)
	}
	if fine {
		agg := in[0].Aggregation.(aggregation.Histogram)
		want, have := 0, 0
		if agg.ZeroCount() > 0 {
			want++
		}
		for _, b := range []aggregation.Buckets{agg.Positive(), agg.Negative()} {
			for i := uint32(0); i < b.Len(); i++ {
				if b.At(i) > 0 {
					want++
				}
			}
		}
		for i := 0; i < p.BucketCounts().Len(); i++ {
			if p.BucketCounts().At(i) > 0 {
				have++
			}
		}
		rt.Assert(have == want, "the resolution is kept")
	}
	attrs(p.Attributes(), in[0].Attributes)
}

// attrs: the exported attributes are exactly those of the set.
func attrs(m pcommon.Map, set attribute.Set) {
	rt.Assert(m.Len() == set.Len(), "each attribute is exported once")
	for i := set.Iter(); i.Next(); {
		kv := i.Attribute()
		v, ok := m.Get(string(kv.Key))
		rt.Assert(ok, "the key is preserved")
		same(v, kv.Value)
	}
}

func same(v pcommon.Value, a attribute.Value) {
	switch a.Type() {
	case attribute.BOOL:
		rt.Assert(v.Type() == pcommon.ValueTypeBool && v.Bool() == a.AsBool(), "bool")
	case attribute.INT64:
		rt.Assert(v.Type() == pcommon.ValueTypeInt && v.Int() == a.AsInt64(), "int64")
	case attribute.FLOAT64:
		rt.Assert(v.Type() == pcommon.ValueTypeDouble && (v.Double() == a.AsFloat64() || a.AsFloat64() != a.AsFloat64()), "float64")
	case attribute.STRING:
		rt.Assert(v.Type() == pcommon.ValueTypeStr && v.Str() == a.AsString(), "string")
	case attribute.BOOLSLICE:
		x := a.AsBoolSlice()
		rt.Assert(v.Type() == pcommon.ValueTypeSlice && v.Slice().Len() == len(x), "slice")
		for i := range x {
			rt.Assert(v.Slice().At(i).Type() == pcommon.ValueTypeBool && v.Slice().At(i).Bool() == x[i], "bools")
		}
	case attribute.INT64SLICE:
		x := a.AsInt64Slice()
		rt.Assert(v.Type() == pcommon.ValueTypeSlice && v.Slice().Len() == len(x), "slice")
		for i := range x {
			rt.Assert(v.Slice().At(i).Type() == pcommon.ValueTypeInt && v.Slice().At(i).Int() == x[i], "ints")
		}
	case attribute.FLOAT64SLICE:
		x := a.AsFloat64Slice()
		rt.Assert(v.Type() == pcommon.ValueTypeSlice && v.Slice().Len() == len(x), "slice")
		for i := range x {
			rt.Assert(v.Slice().At(i).Type() == pcommon.ValueTypeDouble && v.Slice().At(i).Double() == x[i], "floats")
		}
	case attribute.STRINGSLICE:
		x := a.AsStringSlice()
		rt.Assert(v.Type() == pcommon.ValueTypeSlice && v.Slice().Len() == len(x), "slice")
		for i := range x {
			rt.Assert(v.Slice().At(i).Type() == pcommon.ValueTypeStr && v.Slice().At(i).Str() == x[i], "strings")
		}
	default:
		rt.Assert(v.Type() == pcommon.ValueTypeEmpty, "empty")
	}
}

func attr(k attribute.Key) attribute.KeyValue {
	switch rt.Choose("type", 9) {
	case 0:
		return k.Bool(rt.Bool("b"))
	case 1:
		return k.Int64(rt.Int64("i"))
	case 2:
		return k.Float64(rt.Float64("f"))
	case 3:
		return k.String(rt.String("s", rt.Choose("len", 3)))
	case 4:
		return k.BoolSlice([]bool{true, rt.Choose("bs", 2) == 1}[:rt.Choose("n", 3)])
	case 5:
		return k.Int64Slice([]int64{1, int64(rt.Choose("is", 2))}[:rt.Choose("n", 3)])
	case 6:
		return k.Float64Slice([]float64{1, float64(rt.Choose("fs", 2))}[:rt.Choose("n", 3)])
	case 7:
		return k.StringSlice([]string{"x", []string{"y", ""}[rt.Choose("ss", 2)]}[:rt.Choose("n", 3)])
	}
	return attribute.KeyValue{Key: k}
}

// Attrs: attributes of every type are exported with their values, on points and
// on the resource.
func Attrs() {
	var kvs []attribute.KeyValue
	for i, n := 0, rt.Choose("count", 3); i < n; i++ {
		kvs = append(kvs, attr([]attribute.Key{"a", "b"}[i]))
	}
	out := pcommon.NewMap()
	set := attribute.NewSet(kvs...)
	internal.CopyAttributes(out, set)
	attrs(out, set)
	for _, kv := range kvs {
		v, ok := out.Get(string(kv.Key))
		rt.Assert(ok, "every attribute given is exported")
		same(v, kv.Value)
	}
}

// Batch: several scopes, instruments and points: each is exported once, where it
// belongs; instruments without points are left out.
func Batch() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)))
	scopes := 1 + rt.Choose("scopes", 2)
	kinds := []sdkinstrument.Kind{sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncGauge, sdkinstrument.SyncHistogram, sdkinstrument.AsyncCounter}
	var recs []h.Rec
	for s := 0; s < scopes; s++ {
		m := mp.Meter([]string{"", "lib"}[s], apimetric.WithInstrumentationVersion([]string{"", "v"}[s]), apimetric.WithSchemaURL([]string{"", "url"}[s]), apimetric.WithInstrumentationAttributes([][]attribute.KeyValue{nil, {attribute.String("scope", "x"), attribute.Int("n", 1)}}[s]...))
		n := rt.Choose("insts", rt.Param("insts", 2)+1)
		for i := 0; i < n; i++ {
			k := kinds[rt.Choose("kind", len(kinds))]
			float := rt.Choose("float", rt.Param("float", 1)) == 1
			rec, _ := h.Make(m, k, float, []string{"a", "b"}[i], apimetric.WithDescription([]string{"", "d"}[i]), apimetric.WithUnit([]string{"u", ""}[i]))
			recs = append(recs, rec)
			pts := rt.Choose("points", rt.Param("points", 2)+1)
			for p := 0; p < pts; p++ {
				v := int64(10*s + 3*i + p + 1)
				if k != sdkinstrument.SyncHistogram && !float {
					v = rt.Int64("v")
					rt.Assume(v > 0)
				}
				rec(v, attribute.Int("p", p))
			}
		}
	}
	rm := &internal.ResourceMap{}
	for k := 0; k < rt.Param("exports", 1); k++ {
		d := r.Produce(nil)
		out := send(d, rm, true)
		rt.Assert(out.ResourceMetrics().Len() == 1, "one resource")
		sms := out.ResourceMetrics().At(0).ScopeMetrics()
		rt.Assert(sms.Len() == len(d.Scopes), "each scope is exported once")
		points := 0
		for i, s := range d.Scopes {
			sm := sms.At(i)
			rt.Assert(sm.Scope().Name() == s.Library.Name && sm.Scope().Version() == s.Library.Version && sm.SchemaUrl() == s.Library.SchemaURL, "the scope is preserved")
			attrs(sm.Scope().Attributes(), s.Library.Attributes)
			rt.Assert(s.Library.Attributes.Len() == 0 && s.Library.Name == "" || s.Library.Attributes.Len() == 2 && s.Library.Name == "lib", "the scope has its attributes")
			at := 0
			for _, in := range s.Instruments {
				if len(in.Points) == 0 {
					continue
				}
				rt.Assert(at < sm.Metrics().Len(), "each instrument with data is exported")
				m := sm.Metrics().At(at)
				at++
				rt.Assert(m.Name() == in.Descriptor.Name && m.Description() == in.Descriptor.Description && m.Unit() == in.Descriptor.Unit, "name, description and unit are preserved")
				points += len(in.Points)
				for j, p := range in.Points {
					point(m, j, len(in.Points), p, in.Descriptor)
				}
			}
			rt.Assert(at == sm.Metrics().Len(), "instruments without data are left out")
		}
		rt.Assert(out.DataPointCount() == points, "each point is exported once")
		rt.ObsInt("points", int64(points))
	}
}

func point(m pmetric.Metric, j, n int, p data.Point, d sdkinstrument.Descriptor) {
	float := d.NumberKind != 0
	switch p.Aggregation.Kind() {
	case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind:
		rt.Assert(m.Type() == pmetric.MetricTypeSum && m.Sum().DataPoints().Len() == n, "a sum")
		rt.Assert(m.Sum().IsMonotonic() == (p.Aggregation.Kind() == aggregation.MonotonicSumKind) && m.Sum().AggregationTemporality() == tempo(p.Temporality), "monotonicity and temporality")
		q := m.Sum().DataPoints().At(j)
		rt.Assert(q.StartTimestamp() == stamp(p.Start) && q.Timestamp() == stamp(p.End), "the interval is preserved")
		if float {
			rt.Assert(q.DoubleValue() == h.SumF(p), "the value is preserved")
		} else {
			rt.Assert(q.IntValue() == h.SumI(p), "the value is preserved")
		}
		attrs(q.Attributes(), p.Attributes)
	case aggregation.GaugeKind:
		rt.Assert(m.Type() == pmetric.MetricTypeGauge && m.Gauge().DataPoints().Len() == n, "a gauge")
		q := m.Gauge().DataPoints().At(j)
		rt.Assert(q.Timestamp() == stamp(p.End), "the time is preserved")
		if float {
			rt.Assert(q.DoubleValue() == float64(h.Value(p, true)), "the value is preserved")
		} else {
			rt.Assert(q.IntValue() == h.Value(p, false), "the value is preserved")
		}
		attrs(q.Attributes(), p.Attributes)
	case aggregation.HistogramKind:
		rt.Assert(m.Type() == pmetric.MetricTypeExponentialHistogram && m.ExponentialHistogram().DataPoints().Len() == n, "a histogram")
		rt.Assert(m.ExponentialHistogram().AggregationTemporality() == tempo(p.Temporality), "temporality")
		judge(m.ExponentialHistogram().DataPoints().At(j), p, float)
	}
}

// Resource: every batch carries the attributes of its own resource, whatever was
// exported before.
func Resource() {
	rm := &internal.ResourceMap{}
	pool := []*resource.Resource{
		resource.NewSchemaless(attribute.String("service", "x"), attribute.Int("n", 1)),
		resource.NewSchemaless(attribute.String("service", "y")),
		resource.Empty(),
		resource.NewSchemaless(attribute.Int("n", 1), attribute.String("service", "x")),
	}
	for k := 0; k < rt.Param("exports", 4); k++ {
		res := pool[rt.Choose("res", len(pool))]
		out := send(data.Metrics{Resource: res}, rm, true)
		rt.Assert(out.ResourceMetrics().Len() == 1, "one resource")
		attrs(out.ResourceMetrics().At(0).Resource().Attributes(), *res.Set())
		// what the receiver does with the batch is its own matter
		out.ResourceMetrics().At(0).Resource().Attributes().PutStr("receiver", "z")
	}
}

// ResourceConc: two exports at the same time.
func ResourceConc() {
	rm := &internal.ResourceMap{}
	pool := []*resource.Resource{
		resource.NewSchemaless(attribute.String("service", "x")),
		resource.NewSchemaless(attribute.String("service", "y")),
	}
	x, y := pool[rt.Choose("x", 2)], pool[rt.Choose("y", 2)]
	send(data.Metrics{Resource: pool[0]}, rm, true)
	for _, res := range []*resource.Resource{x, y} {
		res := res
		rt.Go(func() {
			out := send(data.Metrics{Resource: res}, rm, true)
			attrs(out.ResourceMetrics().At(0).Resource().Attributes(), *res.Set())
		})
	}
	rt.Wait()
}

// anyError is an error that says it is a cancellation, a timeout, or neither.
type anyError struct{ canceled, timeout bool }

func (*anyError) Error() string { return "any" }
func (e *anyError) Is(t error) bool {
	return t == context.Canceled && e.canceled || t == context.DeadlineExceeded && e.timeout
}

// Outcome: the result of the destination is returned, and counted with the number
// of points under its state.
func Outcome() {
	r, self := metric.NewManualReader("r"), metric.NewManualReader("self")
	mp, sp := h.Provider(metric.WithReader(r, h.Delta())), h.Provider(metric.WithReader(self, h.Delta()))
	items, _ := sp.Meter("self").Int64Counter("items")
	c, _ := mp.Meter("m").Int64Counter("c")
	g, _ := mp.Meter("n").Int64Histogram("g")
	boom := errors.New("boom")
	errs := []error{nil, context.Canceled, context.DeadlineExceeded, boom, fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", context.DeadlineExceeded), fmt.Errorf("wrapped: %w", boom), nil}
	states := []string{"ok", "canceled", "timeout", "error", "canceled", "timeout", "error", ""}
	rm := &internal.ResourceMap{}
	for k := 0; k < rt.Param("exports", 2); k++ {
		n := rt.Choose("points", 3)
		for i := 0; i < n; i++ {
			c.Add(h.Ctx, 1, apimetric.WithAttributes(attribute.Int("i", i)))
		}
		if rt.Choose("hist", 2) == 1 {
			g.Record(h.Ctx, 7)
			n++
		}
		e := rt.Choose("err", len(errs))
		if e == len(errs)-1 {
			// any error, whatever it says it is
			o := &anyError{canceled: rt.Bool("canceled"), timeout: rt.Bool("timeout")}
			rt.Assume(!(o.canceled && o.timeout))
			errs[e], states[e] = o, "error"
			if o.canceled {
				states[e] = "canceled"
			}
			if o.timeout {
				states[e] = "timeout"
			}
		}
		s := &sink{err: errs[e], take: rt.Choose("take", 2) == 1}
		err := export.ExportMetrics(h.Ctx, r.Produce(nil), tracer, items, rm, s, true)
		rt.Assert((err == nil) == (errs[e] == nil) && (err == nil || errors.Is(err, errs[e])), "the result of the destination is returned")
		rt.Assert(len(s.got) == 1 && s.n == n, "every point is sent")
		ps := h.Points(self.Produce(nil), "items")
		if n == 0 {
			for _, p := range ps {
				rt.Assert(h.SumI(p) == 0, "nothing is counted for no points")
			}
			continue
		}
		rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == int64(n), "every point is counted once")
		st, ok1 := ps[0].Attributes.Value("state")
		su, ok2 := ps[0].Attributes.Value("success")
		rt.Assert(ok1 && ok2 && ps[0].Attributes.Len() == 2, "with state and success")
		rt.Assert(st.AsString() == states[e], "the state is that of the result")
		rt.Assert(su.AsBool() == (errs[e] == nil), "success is that of the result")
	}
}

// Names: the metrics of the collector's components are named after the SDK, all
// others keep their names; they are otherwise as if made directly.
func Names() {
	suffix := []string{"", "x", "otelcol_", "_otelcol_x"}[rt.Choose("suffix", 4)]
	prefix := []string{"otelcol_", "a.otelcol_", "otelcol.", "aotelcol_", "otelsdk_", "Otelcol_"}[rt.Choose("prefix", 6)]
	want := prefix + suffix
	if prefix == "otelcol_" {
		want = "otelsdk_" + suffix
	}
	r := metric.NewManualReader("r")
	m := internal.NOTelColMeterProvider(h.Provider(metric.WithReader(r))).Meter("scope", apimetric.WithInstrumentationVersion("v"))
	kind := sdkinstrument.Kind(rt.Choose("kind", int(sdkinstrument.NumKinds)))
	float := rt.Choose("float", 2) == 1
	rec, err := h.Make(m, kind, float, prefix+suffix, apimetric.WithUnit("u"), apimetric.WithDescription("d"))
	rt.Assert(err == nil, "the instrument is made")
	rec(3, attribute.Int("k", 1))
	d := r.Produce(nil)
	rt.Assert(len(d.Scopes) == 1 && d.Scopes[0].Library.Name == "scope" && d.Scopes[0].Library.Version == "v" && len(d.Scopes[0].Instruments) == 1, "in its scope")
	i := d.Scopes[0].Instruments[0]
	rt.Assert(i.Descriptor.Name == want, "the collector's metrics are named after the SDK, others keep their names")
	rt.Assert(i.Descriptor.Kind == kind && i.Descriptor.Unit == "u" && i.Descriptor.Description == "d" && (i.Descriptor.NumberKind == number.Float64Kind) == float, "the definition is kept")
	rt.Assert(len(i.Points) == 1 && h.Value(i.Points[0], float) == 3, "the measurement is kept")
}
