package main

import (
	"context"
	"math"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/histogram"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/bypass"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){"RangeF": RangeF, "RangeI": RangeI, "RangeAsync": RangeAsync, "MMSCI": MMSCI, "MMSCF": MMSCF, "Hist": Hist, "HistI": HistI, "HistMerge": HistMerge, "Gauge": Gauge, "GaugeF": GaugeF, "GaugeHist": GaugeHist, "GaugeConc": GaugeConc, "AggConc": AggConc})
}

func finite(v float64) bool {
	return rt.And(v == v, rt.And(v <= math.MaxFloat64, v >= -math.MaxFloat64))
}

// RangeF: any float64 bit pattern on every synchronous float instrument.
func RangeF() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	kind := rt.Choose("inst", 4)
	opts := []view.Option{h.Tempo(delta)}
	if kind == 1 {
		// the histogram instrument under min/max/sum/count, whose statistics are symbolic
		opts = append(opts, view.WithClause(view.MatchInstrumentKind(sdkinstrument.SyncHistogram), view.WithAggregation(aggregation.MinMaxSumCountKind)))
	}
	mp := h.Provider(metric.WithReader(r, opts...))
	m := mp.Meter("m")
	v := rt.Float64("v")
	fast := rt.Choose("fast", 2) == 1
	okv := finite(v)
	var rec func(float64)
	switch kind {
	case 0:
		c, _ := m.Float64Counter("c")
		rec = func(v float64) {
			if fast {
				c.(bypass.FastFloat64Adder).AddWithKeyValues(h.Ctx, v)
			} else {
				c.Add(h.Ctx, v)
			}
		}
		okv = rt.And(okv, v >= 0)
	case 1:
		c, _ := m.Float64Histogram("c")
		rec = func(v float64) {
			if fast {
				c.(bypass.FastFloat64Recorder).RecordWithKeyValues(h.Ctx, v)
			} else {
				c.Record(h.Ctx, v)
			}
		}
		okv = rt.And(okv, v >= 0)
	case 2:
		c, _ := m.Float64UpDownCounter("c")
		rec = func(v float64) {
			if fast {
				c.(bypass.FastFloat64Adder).AddWithKeyValues(h.Ctx, v)
			} else {
				c.Add(h.Ctx, v)
			}
		}
	case 3:
		c, _ := m.Float64Gauge("c")
		rec = func(v float64) { c.Record(h.Ctx, v) }
	}
	rec(v)
	ps := h.Points(r.Produce(nil), "c")
	rt.Assert(len(ps) <= 1, "one series")
	if okv {
		rt.Reach("valid")
		if len(ps) == 0 {
			// only a delta sum of zero may be omitted
			rt.Assert(rt.And(delta, rt.And(v == 0, kind == 0 || kind == 2)), "a valid measurement is never dropped")
			return
		}
		switch kind {
		case 0, 2:
			rt.Assert(h.SumF(ps[0]) == v, "a valid measurement is recorded exactly")
		case 1:
			a := ps[0].Aggregation.(aggregation.MinMaxSumCount)
			rt.Assert(a.Count() == 1 && h.SumF(ps[0]) == v && number.ToFloat64(a.Min()) == v && number.ToFloat64(a.Max()) == v, "a valid measurement is recorded exactly")
		case 3:
			rt.Assert(number.ToFloat64(ps[0].Aggregation.(aggregation.Gauge).Gauge()) == v, "a valid measurement is recorded exactly")
		}
	} else {
		rt.Reach("invalid")
		rt.Assert(len(ps) == 0, "NaN, infinities and, on monotonic instruments, negative values are dropped")
		// and the instrument still works
		rec(1)
		rt.Assert(len(h.Points(r.Produce(nil), "c")) == 1, "an invalid measurement leaves the instrument usable")
	}
}

// RangeI: any int64 on every synchronous integer instrument.
func RangeI() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	kind := rt.Choose("inst", 4)
	opts := []view.Option{h.Tempo(delta)}
	if kind == 1 {
		opts = append(opts, view.WithClause(view.MatchInstrumentKind(sdkinstrument.SyncHistogram), view.WithAggregation(aggregation.MinMaxSumCountKind)))
	}
	mp := h.Provider(metric.WithReader(r, opts...))
	m := mp.Meter("m")
	v := rt.Int64("v")
	fast := rt.Choose("fast", 2) == 1
	okv := true
	switch kind {
	case 0:
		c, _ := m.Int64Counter("c")
		if fast {
			c.(bypass.FastInt64Adder).AddWithKeyValues(h.Ctx, v)
		} else {
			c.Add(h.Ctx, v)
		}
		okv = v >= 0
	case 1:
		c, _ := m.Int64Histogram("c")
		if fast {
			c.(bypass.FastInt64Recorder).RecordWithKeyValues(h.Ctx, v)
		} else {
			c.Record(h.Ctx, v)
		}
		okv = v >= 0
	case 2:
		c, _ := m.Int64UpDownCounter("c")
		if fast {
			c.(bypass.FastInt64Adder).AddWithKeyValues(h.Ctx, v)
		} else {
			c.Add(h.Ctx, v)
		}
	case 3:
		c, _ := m.Int64Gauge("c")
		c.Record(h.Ctx, v)
	}
	ps := h.Points(r.Produce(nil), "c")
	rt.Assert(len(ps) <= 1, "one series")
	if !okv {
		rt.Assert(len(ps) == 0, "negative values on monotonic instruments are dropped")
		return
	}
	if len(ps) == 0 {
		rt.Assert(delta && v == 0 && (kind == 0 || kind == 2), "a valid measurement is never dropped")
		return
	}
	switch kind {
	case 0, 2:
		rt.Assert(h.SumI(ps[0]) == v, "a valid measurement is recorded exactly")
	case 1:
		a := ps[0].Aggregation.(aggregation.MinMaxSumCount)
		rt.Assert(a.Count() == 1 && h.SumI(ps[0]) == v && number.ToInt64(a.Min()) == v && number.ToInt64(a.Max()) == v, "a valid measurement is recorded exactly")
	case 3:
		rt.Assert(number.ToInt64(ps[0].Aggregation.(aggregation.Gauge).Gauge()) == v, "a valid measurement is recorded exactly")
	}
	rt.ObsInt("v", v)
}

// RangeAsync: NaN and infinities are dropped from observations, other values are not.
func RangeAsync() {
	r := metric.NewManualReader("r")
	r2 := metric.NewManualReader("r2")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), metric.WithReader(r2, h.Tempo(delta)))
	m := mp.Meter("m")
	if rt.Choose("reader", 2) == 1 {
		r = r2
	}
	v := rt.Float64("v")
	kind := rt.Choose("inst", 3)
	one := func(_ context.Context, o apimetric.Float64Observer) error { o.Observe(v); return nil }
	switch kind {
	case 0:
		m.Float64ObservableCounter("c", apimetric.WithFloat64Callback(one))
	case 1:
		m.Float64ObservableUpDownCounter("c", apimetric.WithFloat64Callback(one))
	case 2:
		m.Float64ObservableGauge("c", apimetric.WithFloat64Callback(one))
	}
	ps := h.Points(r.Produce(nil), "c")
	if finite(v) {
		rt.Assert(len(ps) == 1, "a valid observation is never dropped")
		if kind == 2 {
			rt.Assert(number.ToFloat64(ps[0].Aggregation.(aggregation.Gauge).Gauge()) == v, "a valid observation is recorded exactly")
		} else {
			rt.Assert(h.SumF(ps[0]) == v, "a valid observation is recorded exactly")
		}
	} else {
		rt.Assert(len(ps) == 0, "NaN and infinite observations are dropped")
	}
}

func mmsc() view.Option {
	return view.WithClause(view.MatchInstrumentKind(sdkinstrument.SyncHistogram), view.WithAggregation(aggregation.MinMaxSumCountKind))
}

// MMSCI: any sequence of recordings and collections; any values.
func MMSCI() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta), mmsc()), h.Perf(1))
	c, _ := mp.Meter("m").Int64Histogram("c")
	var n uint64
	var sum, min, max int64
	var d data.Metrics
	steps := rt.Param("steps", 4)
	for s := 0; s <= steps; s++ {
		if s < steps && rt.Choose("op", 2) == 0 {
			v := rt.Int64("v")
			rt.Assume(v >= 0)
			c.Record(h.Ctx, v)
			if n == 0 {
				min, max = v, v
			} else {
				min = rt.IteInt64(v < min, v, min)
				max = rt.IteInt64(v > max, v, max)
			}
			n++
			sum += v
			continue
		}
		d = r.Produce(&d)
		ps := h.Points(d, "c")
		if n == 0 {
			rt.Assert(len(ps) == 0, "nothing recorded, nothing reported")
			continue
		}
		rt.Assert(len(ps) == 1, "one series")
		a := ps[0].Aggregation.(aggregation.MinMaxSumCount)
		rt.Assert(a.Count() == n, "count of the measurements")
		rt.Assert(h.SumI(ps[0]) == sum, "sum of the measurements")
		rt.Assert(number.ToInt64(a.Min()) == min, "smallest measurement")
		rt.Assert(number.ToInt64(a.Max()) == max, "largest measurement")
		rt.Reach("point")
		if delta {
			n, sum = 0, 0
		}
	}
	rt.ObsInt("sum", sum)
}

// MMSCF is MMSCI for floats (minimum, maximum and count).
func MMSCF() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta), mmsc()), h.Perf(1))
	c, _ := mp.Meter("m").Float64Histogram("c")
	var n uint64
	var min, max, sum float64
	steps := rt.Param("steps", 3)
	for s := 0; s <= steps; s++ {
		if s < steps && rt.Choose("op", 2) == 0 {
			v := rt.Float64("v")
			rt.Assume(rt.And(v >= 0, v < 1e300))
			c.Record(h.Ctx, v)
			if n == 0 {
				min, max, sum = v, v, v
			} else {
				min = rt.IteFloat64(v < min, v, min)
				max = rt.IteFloat64(v > max, v, max)
				sum = -1
			}
			n++
			continue
		}
		ps := h.Points(r.Produce(nil), "c")
		if n == 0 {
			rt.Assert(len(ps) == 0, "nothing recorded, nothing reported")
			continue
		}
		rt.Assert(len(ps) == 1, "one series")
		a := ps[0].Aggregation.(aggregation.MinMaxSumCount)
		rt.Assert(a.Count() == n, "count of the measurements")
		rt.Assert(number.ToFloat64(a.Min()) == min, "smallest measurement")
		rt.Assert(number.ToFloat64(a.Max()) == max, "largest measurement")
		if n == 1 {
			rt.Assert(h.SumF(ps[0]) == sum, "sum of the measurements")
		}
		if delta {
			n = 0
		}
	}
}

// bucketOK: the bucket counts are those of the values under the scale.
func bucketOK(a aggregation.Histogram, vals []float64) {
	var zero uint64
	sum := uint64(0)
	base := math.Pow(2, math.Pow(2, -float64(a.Scale())))
	for _, v := range vals {
		if v == 0 {
			zero++
		}
	}
	rt.Assert(a.ZeroCount() == zero, "zero count")
	pos := a.Positive()
	for i := uint32(0); i < pos.Len(); i++ {
		idx := float64(pos.Offset()) + float64(i)
		lo, hi := math.Pow(base, idx), math.Pow(base, idx+1)
		var inside, edge uint64
		for _, v := range vals {
			if v == 0 {
				continue
			}
			switch {
			case v > lo*(1+1e-9) && v < hi*(1-1e-9):
				inside++
			case v >= lo*(1-1e-9) && v <= hi*(1+1e-9):
				edge++
			}
		}
		rt.Assert(pos.At(i) >= inside && pos.At(i) <= inside+edge, "every measurement is counted in the bucket that contains it")
		sum += pos.At(i)
	}
	rt.Assert(sum+zero == uint64(len(vals)), "the buckets add up to the count")
}

var histVals = []float64{0, 1, 1.5, 2, 3, 1000, 0.001}

// Hist: the exponential histogram over histories, with a small bucket limit.
func Hist() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	size := int32(rt.Param("size", 4))
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta), view.WithClause(view.MatchInstrumentName("c"), view.WithAggregatorConfig(aggregator.Config{Histogram: histogram.NewConfig(histogram.WithMaxSize(size))}))), h.Perf(1))
	c, _ := mp.Meter("m").Float64Histogram("c")
	var vals []float64
	var d data.Metrics
	steps := rt.Param("steps", 3)
	reuse := rt.Choose("reuse", 2) == 1
	for s := 0; s <= steps; s++ {
		op := len(histVals)
		if s < steps {
			op = rt.Choose("op", len(histVals)+1)
		}
		if op < len(histVals) {
			c.Record(h.Ctx, histVals[op])
			vals = append(vals, histVals[op])
			continue
		}
		if reuse {
			d = r.Produce(&d)
		} else {
			d = r.Produce(nil)
		}
		ps := h.Points(d, "c")
		if len(vals) == 0 {
			rt.Assert(len(ps) == 0, "nothing recorded, nothing reported")
			continue
		}
		rt.Assert(len(ps) == 1, "one series")
		judgeHist(ps[0], vals, size)
		if delta {
			vals = nil
		}
	}
	rt.ObsInt("n", int64(len(vals)))
}

func judgeHist(p data.Point, vals []float64, size int32) {
	a := p.Aggregation.(aggregation.Histogram)
	sum, min, max := 0.0, vals[0], vals[0]
	for _, v := range vals {
		sum += v
		min = math.Min(min, v)
		max = math.Max(max, v)
	}
	rt.Assert(a.Count() == uint64(len(vals)), "count of the measurements")
	rt.Assert(math.Abs(number.ToFloat64(a.Sum())-sum) < 1e-9, "sum of the measurements")
	rt.Assert(number.ToFloat64(a.Min()) == min, "smallest measurement")
	rt.Assert(number.ToFloat64(a.Max()) == max, "largest measurement")
	rt.Assert(a.Positive().Len() <= uint32(size), "the bucket limit holds")
	rt.Assert(a.Negative().Len() == 0, "no negative bucket")
	bucketOK(a, vals)
	rt.Reach("hist")
}

// HistI: integer histogram, any (symbolic) number of repetitions is beyond the
// encoding; concrete values, several per interval, merged across collections of
// two readers.
func HistI() {
	r1, r2 := metric.NewManualReader("r1"), metric.NewManualReader("r2")
	mp := h.Provider(metric.WithReader(r1, h.Delta()), metric.WithReader(r2, h.Cumulative()), h.Perf(1))
	c, _ := mp.Meter("m").Int64Histogram("c")
	vs := []int64{0, 7, 100000}
	var v1, v2 []float64
	steps := rt.Param("steps", 4)
	judge := func(r *metric.ManualReader, vals []float64) {
		ps := h.Points(r.Produce(nil), "c")
		if len(vals) == 0 {
			rt.Assert(len(ps) == 0, "nothing recorded, nothing reported")
			return
		}
		rt.Assert(len(ps) == 1, "one series")
		a := ps[0].Aggregation.(aggregation.Histogram)
		var sum, min, max int64
		for i, v := range vals {
			sum += int64(v)
			if i == 0 || int64(v) < min {
				min = int64(v)
			}
			if i == 0 || int64(v) > max {
				max = int64(v)
			}
		}
		rt.Assert(a.Count() == uint64(len(vals)), "count of the measurements")
		rt.Assert(number.ToInt64(a.Sum()) == sum, "sum of the measurements")
		rt.Assert(number.ToInt64(a.Min()) == min, "smallest measurement")
		rt.Assert(number.ToInt64(a.Max()) == max, "largest measurement")
		bucketOK(a, vals)
	}
	for s := 0; s <= steps; s++ {
		op := 3
		if s < steps {
			op = rt.Choose("op", 5)
		}
		if op < 3 {
			c.Record(h.Ctx, vs[op])
			v1 = append(v1, float64(vs[op]))
			v2 = append(v2, float64(vs[op]))
			continue
		}
		if op == 3 {
			judge(r1, v1)
			v1 = nil
		}
		if op == 4 || s == steps {
			judge(r2, v2)
		}
	}
}

// HistMerge: two attribute sets folded into one output series by a view.
func HistMerge() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta), view.WithClause(view.MatchInstrumentName("c"), view.WithKeys(nil), view.WithName("o"), view.WithKeys([]attributeKey{}))), h.Perf(1))
	c, _ := mp.Meter("m").Float64Histogram("c")
	var vals []float64
	names := []string{"p", "q"}
	for s := 0; s < rt.Param("steps", 3); s++ {
		v := histVals[rt.Choose("v", len(histVals))]
		c.Record(h.Ctx, v, h.KV("k", names[rt.Choose("k", 2)]))
		vals = append(vals, v)
	}
	ps := h.Points(r.Produce(nil), "o")
	rt.Assert(len(ps) == 1, "one series")
	rt.Assert(ps[0].Attributes.Len() == 0, "no attributes")
	judgeHist(ps[0], vals, 160)
}

// Gauge: the value reported is the last one recorded.
func Gauge() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), h.Perf(1))
	c, _ := mp.Meter("m").Int64Gauge("c")
	names := []string{"p", "q"}
	var last [2]int64
	var has [2]bool
	var d data.Metrics
	steps := rt.Param("steps", 4)
	for s := 0; s <= steps; s++ {
		op := 2
		if s < steps {
			op = rt.Choose("op", 3)
		}
		if op < 2 {
			v := rt.Int64("v")
			c.Record(h.Ctx, v, h.KV("k", names[op]))
			last[op], has[op] = v, true
			continue
		}
		d = r.Produce(&d)
		n := 0
		for i := range names {
			ps := h.At(d, "c", h.Set(kv("k", names[i])))
			rt.Assert((len(ps) == 1) == has[i], "a gauge series is reported when it was set, and only then")
			if len(ps) == 1 {
				n++
				rt.Assert(number.ToInt64(ps[0].Aggregation.(aggregation.Gauge).Gauge()) == last[i], "a gauge reports the last value recorded")
				rt.Reach("gauge")
			}
			if delta {
				has[i] = false
			}
		}
		rt.Assert(n == len(h.Points(d, "c")), "no foreign series")
	}
	rt.ObsInt("p", last[0])
}

// GaugeF: several attribute sets folded into one output series: the last one recorded wins.
func GaugeF() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta), view.WithClause(view.MatchInstrumentName("c"), view.WithKeys([]attributeKey{}))), h.Perf(1))
	c, _ := mp.Meter("m").Float64Gauge("c")
	names := []string{"p", "q"}
	var last float64
	has := false
	steps := rt.Param("steps", 4)
	for s := 0; s <= steps; s++ {
		op := 2
		if s < steps {
			op = rt.Choose("op", 3)
		}
		if op < 2 {
			v := rt.Float64("v")
			rt.Assume(finite(v))
			c.Record(h.Ctx, v, h.KV("k", names[op]))
			last, has = v, true
			continue
		}
		ps := h.Points(r.Produce(nil), "c")
		rt.Assert(len(ps) <= 1, "one series")
		rt.Assert((len(ps) == 1) == has, "a gauge series is reported when it was set, and only then")
		if len(ps) == 1 {
			rt.Assert(number.ToFloat64(ps[0].Aggregation.(aggregation.Gauge).Gauge()) == last, "a gauge reports the last value recorded")
		}
		if delta {
			has = false
		}
	}
}

// GaugeHist: a gauge read by two readers keeps its last value for both.
func GaugeHist() {
	r1, r2 := metric.NewManualReader("r1"), metric.NewManualReader("r2")
	mp := h.Provider(metric.WithReader(r1, h.Delta()), metric.WithReader(r2, h.Cumulative()), h.Perf(1))
	c, _ := mp.Meter("m").Int64Gauge("c")
	var last int64
	var has1, has2 bool
	for s := 0; s < rt.Param("steps", 5); s++ {
		switch rt.Choose("op", 3) {
		case 0:
			v := rt.Int64("v")
			c.Record(h.Ctx, v)
			last, has1, has2 = v, true, true
		case 1:
			ps := h.Points(r1.Produce(nil), "c")
			rt.Assert((len(ps) == 1) == has1, "a delta gauge is reported when it was set in the interval")
			if len(ps) == 1 {
				rt.Assert(number.ToInt64(ps[0].Aggregation.(aggregation.Gauge).Gauge()) == last, "a gauge reports the last value recorded")
			}
			has1 = false
		case 2:
			ps := h.Points(r2.Produce(nil), "c")
			rt.Assert((len(ps) == 1) == has2, "a cumulative gauge is reported once it was set")
			if len(ps) == 1 {
				rt.Assert(number.ToInt64(ps[0].Aggregation.(aggregation.Gauge).Gauge()) == last, "a gauge reports the last value recorded")
			}
		}
	}
}

// GaugeConc: recorders, and collections of one or two readers, at the same
// time: a report is never older than the one before, and in the end the last
// value was reported.
func GaugeConc() {
	r1, r2 := metric.NewManualReader("r1"), metric.NewManualReader("r2")
	delta := rt.Choose("delta", 2) == 1
	fold := view.WithClause(view.MatchInstrumentName("c"), view.WithKeys([]attributeKey{}))
	two := rt.Choose("two", rt.Param("readers", 2)) == 1
	opts := []metric.Option{metric.WithReader(r1, h.Tempo(delta), fold), h.Perf(1)}
	r := r1
	if two {
		opts = append(opts, metric.WithReader(r2, h.Tempo(!delta), fold))
		r = []*metric.ManualReader{r1, r2}[rt.Choose("reader", 2)]
	}
	mp := h.Provider(opts...)
	c, _ := mp.Meter("m").Int64Gauge("c")
	names := []string{"p", "q"}
	// With both readers collecting at once there is one recording.
	both := rt.Param("both", 0)
	k1, k2 := names[rt.Choose("k1", 2-both)], names[rt.Choose("k2", 2-both)]
	// 1 comes before 2, and 3 is concurrent unless it is absent.
	other := rt.Choose("other", rt.Param("other", 2)) == 1
	warm := rt.Choose("warm", 2) == 1
	if warm {
		c.Record(h.Ctx, 0, h.KV("k", "p"))
		if k1 != "p" || k2 != "p" {
			c.Record(h.Ctx, 0, h.KV("k", "q"))
		}
		r1.Produce(nil)
		if two {
			r2.Produce(nil)
		}
	} else {
		rt.Assume(!other || rt.Param("cold", 0) == 1)
	}
	var got []int64
	report := func(r *metric.ManualReader) {
		ps := h.Points(r.Produce(nil), "c")
		rt.Assert(len(ps) <= 1, "one series")
		for _, p := range ps {
			got = append(got, number.ToInt64(p.Aggregation.(aggregation.Gauge).Gauge()))
		}
	}
	rt.Go(func() {
		if both == 0 {
			c.Record(h.Ctx, 1, h.KV("k", k1))
		}
		c.Record(h.Ctx, 2, h.KV("k", k2))
	})
	if other {
		rt.Go(func() { c.Record(h.Ctx, 3, h.KV("k", "p")) })
	}
	rt.Go(func() { report(r) })
	r3 := r1
	if r == r1 {
		r3 = r2
	}
	if two && both == 1 {
		r3.Produce(nil)
	}
	rt.Wait()
	if two && rt.Choose("other first", 2) == 1 {
		r3.Produce(nil)
	}
	report(r)
	rt.Assert(len(got) > 0, "a value is reported")
	last := got[len(got)-1]
	rt.Assert(last == 2 || other && last == 3, "the last value recorded is reported")
	for i, v := range got {
		rt.Assert(v >= 0 && v <= 3, "a value that was recorded")
		rt.Assert(v > 0 || warm && (r == r1) != delta, "a value that was not reported before")
		rt.Assert(!(v == 1 && i > 0 && got[i-1] == 2), "a report is not older than the one before")
	}
	rt.ObsInt("last", last)
}

// AggConc: distributions under recorders and collections of one or two readers
// at the same time: each report is of a set of the measurements (count, sum,
// extremes and buckets belong together), an interval never repeats what was
// reported, and in the end everything was.
func AggConc() {
	r1, r2 := metric.NewManualReader("r1"), metric.NewManualReader("r2")
	delta := rt.Choose("delta", 2) == 1
	ints := rt.Choose("int", rt.Param("kinds", 2)) == 1
	hist := rt.Choose("mmsc", rt.Param("kinds", 2)) == 0 && rt.Param("mmsc", 0) == 0
	kind := aggregation.MinMaxSumCountKind
	if hist {
		kind = aggregation.HistogramKind
	}
	fold := view.WithClause(view.MatchInstrumentName("c"), view.WithKeys([]attributeKey{}), view.WithAggregation(kind))
	two := rt.Param("readers", 1) == 2
	opts := []metric.Option{metric.WithReader(r1, fold, h.Tempo(delta)), h.Perf(1)}
	if two {
		opts = append(opts, metric.WithReader(r2, fold, h.Tempo(!delta)))
	}
	mp := h.Provider(opts...)
	m := mp.Meter("m")
	var rec func(v int64, k string)
	if ints {
		c, _ := m.Int64Histogram("c")
		rec = func(v int64, k string) { c.Record(h.Ctx, v, h.KV("k", k)) }
	} else {
		c, _ := m.Float64Histogram("c")
		rec = func(v int64, k string) { c.Record(h.Ctx, float64(v), h.KV("k", k)) }
	}
	type readings struct {
		r     *metric.ManualReader
		delta bool
		seen  int64
		d     data.Metrics
	}
	get := func(x *readings) {
		x.d = x.r.Produce(&x.d)
		ps := h.Points(x.d, "c")
		rt.Assert(len(ps) <= 1, "one series")
		if len(ps) == 0 {
			rt.Assert(x.delta || x.seen == 0, "a cumulative series is always reported")
			return
		}
		p := ps[0]
		a := p.Aggregation.(aggregation.MinMaxSumCount)
		toI := func(n number.Number) int64 {
			if ints {
				return number.ToInt64(n)
			}
			return int64(number.ToFloat64(n))
		}
		sum := toI(a.Sum())
		rt.Assert(sum >= 1 && sum <= 15, "the sum is of measurements")
		var vals []float64
		for i := 0; i < 4; i++ {
			if sum>>i&1 == 1 {
				vals = append(vals, float64(int(1)<<i))
			}
		}
		rt.Assert(a.Count() == uint64(len(vals)), "the count is of the same measurements as the sum")
		rt.Assert(toI(a.Min()) == int64(vals[0]), "the smallest of the same measurements")
		rt.Assert(toI(a.Max()) == int64(vals[len(vals)-1]), "the largest of the same measurements")
		if hist {
			rt.Reach("hist")
			bucketOK(p.Aggregation.(aggregation.Histogram), vals)
		}
		if x.delta {
			rt.Assert(sum&x.seen == 0, "a measurement is in one interval")
			x.seen |= sum
		} else {
			rt.Assert(sum&x.seen == x.seen, "a cumulative series keeps what it reported")
			x.seen = sum
		}
		rt.Assert(x.seen&4 == 0 || x.seen&2 != 0, "measurements of one goroutine are reported in order")
	}
	x1, x2 := &readings{r: r1, delta: delta}, &readings{r: r2, delta: !delta}
	same := rt.Choose("same", 2) == 1
	k2 := "p"
	if !same {
		k2 = "q"
	}
	all := int64(0)
	if rt.Choose("warm", 2) == 1 {
		rec(1, "p")
		all = 1
		if rt.Choose("collected", 2) == 1 {
			get(x1)
		}
	}
	all |= 2
	then := rt.Param("then", 1) == 1
	if then {
		all |= 4
	}
	rt.Go(func() {
		rec(2, "p")
		if then {
			rec(4, "p")
		}
	})
	if rt.Param("other", 1) == 1 {
		all |= 8
		rt.Go(func() { rec(8, k2) })
	}
	if two {
		rt.Go(func() { get(x2) })
	}
	get(x1)
	rt.Wait()
	get(x1)
	rt.Assert(x1.seen == all, "in the end every measurement was reported")
	if two {
		get(x2)
		rt.Assert(x2.seen == all, "in the end every measurement was reported")
	}
	rt.ObsInt("seen", x1.seen)
}
