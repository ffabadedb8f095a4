package main

import (
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel/attribute"
)

func main() {
	rt.Run(map[string]func(){"History": History, "HistoryF": HistoryF, "HistHistory": HistHistory, "Instruments": Instruments})
}

var names = []string{"x", "y"}

func set(i int) attribute.Set { return attribute.NewSet(attribute.String("k", names[i])) }

// get returns the sum reported for series i and whether it was reported.
func get(d data.Metrics, n string, i int) (int64, bool) {
	ps := h.At(d, n, set(i))
	rt.Assert(len(ps) <= 1, "a series is reported at most once per collection")
	if len(ps) == 0 {
		return 0, false
	}
	return h.SumI(ps[0]), true
}

// History: any history of additions to two series and collections by a delta
// and a cumulative reader, with eviction of inactive series and with the
// memory of the previous collection reused or not.
func History() {
	rd, rc := metric.NewManualReader("d"), metric.NewManualReader("c")
	mp := h.Provider(metric.WithReader(rd, h.Delta()), metric.WithReader(rc, h.Cumulative()), h.Perf(uint32(1+rt.Choose("inactive", rt.Param("inactives", 2)))))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	reuse := rt.Choose("reuse", 2) == 1
	var dd, dc data.Metrics
	var total [2]int64   // everything recorded
	var pending [2]int64 // recorded since the last delta collection
	var seen [2]bool
	steps := rt.Param("steps", 5)
	for s := 0; s <= steps; s++ {
		op := 2
		if s < steps {
			op = rt.Choose("op", 4)
		}
		switch op {
		case 0, 1:
			v := rt.Int64("v")
			c.Add(h.Ctx, v, h.KV("k", names[op]))
			total[op] += v
			pending[op] += v
			seen[op] = true
		case 2:
			if reuse {
				dd = rd.Produce(&dd)
			} else {
				dd = rd.Produce(nil)
			}
			for i := range names {
				got, ok := get(dd, "c", i)
				rt.Assert(got == pending[i], "a delta collection reports exactly what was recorded since the previous one")
				if ok {
					rt.Assert(h.At(dd, "c", set(i))[0].Temporality == aggregation.DeltaTemporality, "delta temporality")
					rt.Reach("delta-point")
				}
				pending[i] = 0
			}
			rt.Assert(len(h.Points(dd, "c")) <= 2, "no foreign series")
		}
		if op == 3 || s == steps {
			if reuse {
				dc = rc.Produce(&dc)
			} else {
				dc = rc.Produce(nil)
			}
			n := 0
			for i := range names {
				got, ok := get(dc, "c", i)
				rt.Assert(ok == seen[i], "a cumulative collection reports every series ever recorded, and no other")
				rt.Assert(got == total[i], "a cumulative collection reports the total since the start")
				if ok {
					n++
					rt.Assert(h.At(dc, "c", set(i))[0].Temporality == aggregation.CumulativeTemporality, "cumulative temporality")
					rt.Reach("cumulative-point")
				}
			}
			rt.Assert(len(h.Points(dc, "c")) == n, "no foreign series")
		}
	}
	rt.ObsInt("x", total[0])
	rt.ObsInt("y", total[1])
	rt.ObsInt("np", int64(len(h.Points(dc, "c"))))
}

// HistoryF is History for a monotonic float counter with exact small values.
func HistoryF() {
	delta := rt.Choose("delta", 2) == 1
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), h.Perf(1))
	c, _ := mp.Meter("m").Float64Counter("c")
	var d data.Metrics
	var acc float64
	steps := rt.Param("steps", 5)
	v := 1.0
	for s := 0; s <= steps; s++ {
		op := 1
		if s < steps {
			op = rt.Choose("op", 2)
		}
		if op == 0 {
			c.Add(h.Ctx, v)
			acc += v
			v *= 2
			continue
		}
		if rt.Choose("reuse", 2) == 1 {
			d = r.Produce(&d)
		} else {
			d = r.Produce(nil)
		}
		var got float64
		for _, p := range h.Points(d, "c") {
			got += h.SumF(p)
			rt.Assert(p.Aggregation.(aggregation.Sum).IsMonotonic(), "a counter is monotonic")
		}
		rt.Assert(got == acc, "float sums are conserved")
		if delta {
			acc = 0
		}
	}
	rt.ObsFloat("acc", acc)
}

// HistHistory: histogram and min/max/sum/count histories.
func HistHistory() {
	delta := rt.Choose("delta", 2) == 1
	kind := aggregation.HistogramKind
	if rt.Choose("mmsc", 2) == 1 {
		kind = aggregation.MinMaxSumCountKind
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta), h.DefAgg(kind)), h.Perf(1))
	c, _ := mp.Meter("m").Int64Histogram("c")
	vals := []int64{3, 1, 200, 7, 7, 1000, 5, 64}
	var d data.Metrics
	var n uint64
	var sum, min, max int64
	steps := rt.Param("steps", 5)
	vi := 0
	for s := 0; s <= steps; s++ {
		op := 1
		if s < steps {
			op = rt.Choose("op", 2)
		}
		if op == 0 {
			v := vals[vi%len(vals)]
			vi++
			c.Record(h.Ctx, v, h.KV("k", "x"))
			if n == 0 || v < min {
				min = v
			}
			if n == 0 || v > max {
				max = v
			}
			n++
			sum += v
			continue
		}
		if rt.Choose("reuse", 2) == 1 {
			d = r.Produce(&d)
		} else {
			d = r.Produce(nil)
		}
		ps := h.Points(d, "c")
		if n == 0 {
			rt.Assert(h.TotalCount(d, "c") == 0, "nothing recorded, nothing reported")
		} else {
			rt.Assert(len(ps) == 1, "one series")
			if len(ps) == 1 {
				p := ps[0]
				a := p.Aggregation.(aggregation.MinMaxSumCount)
				rt.Assert(a.Count() == n, "count")
				rt.Assert(h.SumI(p) == sum, "sum")
				rt.Assert(number.ToInt64(a.Min()) == min, "min")
				rt.Assert(number.ToInt64(a.Max()) == max, "max")
				if hh, ok := p.Aggregation.(aggregation.Histogram); ok && kind == aggregation.HistogramKind {
					t := hh.ZeroCount()
					for i := uint32(0); i < hh.Positive().Len(); i++ {
						t += hh.Positive().At(i)
					}
					for i := uint32(0); i < hh.Negative().Len(); i++ {
						t += hh.Negative().At(i)
					}
					rt.Assert(t == n, "the buckets add up to the count")
					rt.Reach("buckets")
				}
			}
		}
		if delta {
			n, sum, min, max = 0, 0, 0, 0
		}
	}
	rt.ObsInt("n", int64(n))
}

// Instruments: several instruments and meters with memory reuse; each
// instrument's data stays with the instrument.
func Instruments() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), h.Perf(1))
	m1, m2 := mp.Meter("m1"), mp.Meter("m2")
	c1, _ := m1.Int64Counter("c1")
	c2, _ := m1.Int64UpDownCounter("c2")
	c3, _ := m2.Int64Counter("c3")
	a, b, c := rt.Int64("a"), rt.Int64("b"), rt.Int64("c")
	rt.Assume(a >= 0)
	rt.Assume(c >= 0)
	var d data.Metrics
	var want [3]int64
	for s := 0; s < rt.Param("steps", 3); s++ {
		if rt.Choose("add1", 2) == 1 {
			c1.Add(h.Ctx, a, h.KV("k", "x"))
			want[0] += a
		}
		if rt.Choose("add2", 2) == 1 {
			c2.Add(h.Ctx, b)
			want[1] += b
		}
		if rt.Choose("add3", 2) == 1 {
			c3.Add(h.Ctx, c, h.KV("k", "y"))
			want[2] += c
		}
		d = r.Produce(&d)
		rt.Assert(h.TotalI(d, "c1") == want[0], "instrument 1 keeps its own data")
		rt.Assert(h.TotalI(d, "c2") == want[1], "instrument 2 keeps its own data")
		rt.Assert(h.TotalI(d, "c3") == want[2], "instrument 3 keeps its own data")
		for _, p := range h.Points(d, "c1") {
			sx := set(0)
			rt.Assert(p.Attributes.Equals(&sx), "series attributes of instrument 1")
		}
		for _, p := range h.Points(d, "c2") {
			rt.Assert(p.Attributes.Len() == 0, "series attributes of instrument 2")
			rt.Assert(!p.Aggregation.(aggregation.Sum).IsMonotonic(), "an updowncounter is not monotonic")
		}
		for _, p := range h.Points(d, "c3") {
			sy := set(1)
			rt.Assert(p.Attributes.Equals(&sy), "series attributes of instrument 3")
		}
		rt.Assert(len(d.Scopes) == 2, "one scope per meter")
		for _, s := range d.Scopes {
			for _, i := range s.Instruments {
				want := "m1"
				if i.Descriptor.Name == "c3" {
					want = "m2"
				}
				rt.Assert(s.Library.Name == want, "instruments are reported under their meter")
			}
		}
		if delta {
			want = [3]int64{}
		}
	}
	rt.ObsInt("w0", want[0])
}
