package main

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){
		"Record": Record, "Evict": Evict, "TwoReaders": TwoReaders, "FloatAdd": FloatAdd, "Hist": Hist, "NewSeries": NewSeries, "Evict2": Evict2,
		"GaugeRace": GaugeRace,
	})
}

func add(c apimetric.Int64UpDownCounter, v int64, k string) {
	if k == "" {
		c.Add(h.Ctx, v)
	} else {
		c.Add(h.Ctx, v, h.KV("k", k))
	}
}

// Record: concurrent recorders of one series and a concurrent collection.
func Record() {
	rdr := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(rdr, h.Tempo(delta)), h.Perf(uint32(rt.Param("inactive", 1))))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	n := rt.Param("recorders", 2)
	vals := make([]int64, n)
	var want int64
	for i := range vals {
		vals[i] = rt.Int64("v")
		want += vals[i]
	}
	var mid []data.Metrics
	for i := range vals {
		v := vals[i]
		rt.Go(func() { add(c, v, "") })
	}
	rt.Go(func() {
		for i := 0; i < rt.Param("collects", 1); i++ {
			mid = append(mid, rdr.Produce(nil))
		}
	})
	rt.Wait()
	end := rdr.Produce(nil)
	if delta {
		var t int64
		for _, m := range mid {
			t += h.TotalI(m, "c")
		}
		t += h.TotalI(end, "c")
		rt.Assert(t == want, "the deltas of every collection add up to everything recorded")
	} else {
		rt.Assert(h.TotalI(end, "c") == want, "the cumulative sum equals everything recorded")
	}
	rt.Assert(len(h.Points(end, "c")) <= 1, "one series for one attribute set")
	rt.ObsInt("end", h.TotalI(end, "c"))
	for _, m := range mid {
		rt.ObsInt("mid", h.TotalI(m, "c"))
		rt.Assert(len(h.Points(m, "c")) <= 1, "one series for one attribute set")
	}
}

// FloatAdd: concurrent float additions (compare-and-swap loop).
func FloatAdd() {
	rdr := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(rdr, h.Tempo(rt.Choose("delta", 2) == 1)))
	c, _ := mp.Meter("m").Float64UpDownCounter("c")
	c.Add(h.Ctx, 1)
	n := rt.Param("recorders", 2)
	var t float64
	rt.Go(func() { c.Add(h.Ctx, 2) })
	rt.Go(func() { c.Add(h.Ctx, 4) })
	if n > 2 {
		rt.Go(func() { c.Add(h.Ctx, 8) })
	}
	if rt.Param("collects", 1) > 0 {
		rt.Go(func() {
			for _, p := range h.Points(rdr.Produce(nil), "c") {
				if p.Temporality == aggregation.DeltaTemporality {
					t += h.SumF(p)
				}
			}
		})
	}
	rt.Wait()
	for _, p := range h.Points(rdr.Produce(nil), "c") {
		t += h.SumF(p)
	}
	want := 7.0
	if n > 2 {
		want = 15
	}
	rt.Assert(t == want, "every float addition is counted once")
	rt.ObsFloat("t", t)
}

// Evict: a recorder returns to a series at the moment the collector evicts it.
func Evict() {
	rdr := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(rdr, h.Tempo(delta)), h.Perf(1))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	a, b := rt.Int64("a"), rt.Int64("b")
	add(c, a, "x")
	t := h.TotalI(rdr.Produce(nil), "c")
	var mid data.Metrics
	rt.Go(func() { mid = rdr.Produce(nil) })
	rt.Go(func() { add(c, b, "x") })
	want := a + b
	if rt.Param("recorders", 1) > 1 {
		b2 := rt.Int64("b2")
		want += b2
		rt.Go(func() { add(c, b2, "x") })
	}
	rt.Wait()
	if delta {
		t += h.TotalI(mid, "c")
	} else {
		t = 0
	}
	end := rdr.Produce(nil)
	t += h.TotalI(end, "c")
	rt.Assert(t == want, "nothing is lost or repeated when a series is evicted while it is being updated")
	rt.Assert(len(h.Points(end, "c")) <= 1, "one series for one attribute set")
	rt.ObsInt("t", t)
	// and the series stays usable
	add(c, 5, "x")
	end2 := rdr.Produce(nil)
	if delta {
		rt.Assert(h.TotalI(end2, "c") == 5, "the series stays usable")
	} else {
		rt.Assert(h.TotalI(end2, "c") == want+5, "the series stays usable")
	}
}

// Evict2: two delta readers collect, one of them while the recorder returns.
func Evict2() {
	r1, r2 := metric.NewManualReader("r1"), metric.NewManualReader("r2")
	mp := h.Provider(metric.WithReader(r1, h.Delta()), metric.WithReader(r2, h.Tempo(rt.Choose("delta", 2) == 1)), h.Perf(1))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	a, b := rt.Int64("a"), rt.Int64("b")
	add(c, a, "x")
	t1 := h.TotalI(r1.Produce(nil), "c")
	var m1, m2 data.Metrics
	rt.Go(func() { m1 = r1.Produce(nil) })
	rt.Go(func() { add(c, b, "x") })
	if rt.Param("both", 0) > 0 {
		rt.Go(func() { m2 = r2.Produce(nil) })
	}
	rt.Wait()
	t1 += h.TotalI(m1, "c") + h.TotalI(r1.Produce(nil), "c")
	rt.Assert(t1 == a+b, "reader 1 receives everything once")
	var t2 int64
	end := r2.Produce(nil)
	for _, p := range h.Points(end, "c") {
		t2 += h.SumI(p)
	}
	for _, p := range h.Points(m2, "c") {
		if p.Temporality == aggregation.DeltaTemporality {
			t2 += h.SumI(p)
		}
	}
	rt.Assert(t2 == a+b, "reader 2 receives everything once")
	rt.ObsInt("t1", t1)
	rt.ObsInt("t2", t2)
}

// TwoReaders: two readers collect concurrently with a recorder.
func TwoReaders() {
	r1, r2 := metric.NewManualReader("r1"), metric.NewManualReader("r2")
	mp := h.Provider(metric.WithReader(r1, h.Delta()), metric.WithReader(r2, h.Tempo(rt.Choose("delta", 2) == 1)), h.Perf(uint32(rt.Param("inactive", 1))))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	a, b := rt.Int64("a"), rt.Int64("b")
	if rt.Param("warm", 0) > 0 {
		add(c, a, "")
	}
	var m1, m2 data.Metrics
	rt.Go(func() { m1 = r1.Produce(nil) })
	rt.Go(func() { m2 = r2.Produce(nil) })
	rt.Go(func() {
		if rt.Param("warm", 0) == 0 {
			add(c, a, "")
		}
		add(c, b, "")
	})
	rt.Wait()
	t1 := h.TotalI(m1, "c") + h.TotalI(r1.Produce(nil), "c")
	var t2 int64
	for _, p := range h.Points(m2, "c") {
		if p.Temporality == aggregation.DeltaTemporality {
			t2 += h.SumI(p)
		}
	}
	t2 += h.TotalI(r2.Produce(nil), "c")
	rt.Assert(t1 == a+b, "reader 1 receives everything once")
	rt.Assert(t2 == a+b, "reader 2 receives everything once")
	rt.ObsInt("t1", t1)
	rt.ObsInt("t2", t2)
}

// NewSeries: recorders create different series (and the same one) at once.
func NewSeries() {
	rdr := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(rdr, h.Tempo(rt.Choose("delta", 2) == 1)))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	a, b, d := rt.Int64("a"), rt.Int64("b"), rt.Int64("d")
	if rt.Param("warm", 0) > 0 {
		add(c, 0, "x")
	}
	rt.Go(func() { add(c, a, "x") })
	rt.Go(func() { add(c, b, "y") })
	if rt.Param("recorders", 3) > 2 {
		rt.Go(func() { add(c, d, "x") })
	} else {
		add(c, d, "x")
	}
	rt.Wait()
	m := rdr.Produce(nil)
	var x, y int64
	for _, p := range h.Points(m, "c") {
		v, _ := p.Attributes.Value("k")
		if v.AsString() == "x" {
			x += h.SumI(p)
		} else {
			y += h.SumI(p)
		}
	}
	rt.Assert(x == a+d, "series x holds its own measurements")
	rt.Assert(y == b, "series y holds its own measurements")
	rt.Assert(len(h.Points(m, "c")) <= 2, "at most two series")
	rt.ObsInt("x", x)
	rt.ObsInt("y", y)
}

// Hist: histogram-like aggregations under concurrent update and collection.
func Hist() {
	rdr := metric.NewManualReader("r")
	kind := aggregation.HistogramKind
	if rt.Choose("mmsc", 2) == 1 {
		kind = aggregation.MinMaxSumCountKind
	}
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(rdr, h.Tempo(delta), view.WithClause(view.WithAggregation(kind))), h.Perf(1))
	c, _ := mp.Meter("m").Float64Histogram("c")
	if rt.Param("warm", 1) > 0 {
		c.Record(h.Ctx, 1)
	}
	var mid data.Metrics
	rt.Go(func() { c.Record(h.Ctx, 2) })
	if rt.Param("recorders", 1) > 1 {
		rt.Go(func() { c.Record(h.Ctx, 4) })
	} else {
		c.Record(h.Ctx, 4)
	}
	rt.Go(func() { mid = rdr.Produce(nil) })
	rt.Wait()
	end := rdr.Produce(nil)
	wantN, want := uint64(2), 6.0
	if rt.Param("warm", 1) > 0 {
		wantN, want = 3, 7
	}
	var n uint64
	var t float64
	min, max := 1e9, -1e9
	see := func(m data.Metrics) {
		for _, p := range h.Points(m, "c") {
			n += h.Count(p)
			t += h.SumF(p)
			a := p.Aggregation.(aggregation.MinMaxSumCount)
			if v := number.ToFloat64(a.Min()); v < min {
				min = v
			}
			if v := number.ToFloat64(a.Max()); v > max {
				max = v
			}
		}
	}
	if delta {
		see(mid)
	}
	see(end)
	rt.Assert(n == wantN, "every recorded value is counted once")
	rt.Assert(t == want, "every recorded value is summed once")
	rt.Assert(max == 4, "maximum")
	if rt.Param("warm", 1) > 0 {
		rt.Assert(min == 1, "minimum")
	} else {
		rt.Assert(min == 2, "minimum")
	}
	rt.ObsInt("n", int64(n))
	rt.ObsFloat("t", t)
}

// GaugeRace: after concurrent gauge writes the value is one of the last writes.
func GaugeRace() {
	rdr := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(rdr, h.Tempo(rt.Choose("delta", 2) == 1)), h.Perf(1))
	g, _ := mp.Meter("m").Int64Gauge("c")
	a, b, d := rt.Int64("a"), rt.Int64("b"), rt.Int64("d")
	rt.Assume(a != b && b != d && a != d)
	g.Record(h.Ctx, a)
	rt.Go(func() { g.Record(h.Ctx, b) })
	rt.Go(func() { rdr.Produce(nil) })
	rt.Wait()
	g.Record(h.Ctx, d)
	end := h.Points(rdr.Produce(nil), "c")
	rt.Assert(len(end) == 1, "one gauge point")
	if len(end) == 1 {
		v := number.ToInt64(end[0].Aggregation.(aggregation.Gauge).Gauge())
		rt.Assert(v == d, "the gauge reports the last value recorded")
		rt.ObsInt("v", v)
	}
}
