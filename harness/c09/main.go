// Harnesses for the independence of readers and for collection intervals.
package main

import (
	"context"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){"Independent": Independent, "IndependentAgg": IndependentAgg, "IndependentAsync": IndependentAsync, "Drop": Drop, "Conc": Conc,
		"Times": Times, "TimesReaders": TimesReaders, "TimesConc": TimesConc})
}

func attr(i int) attribute.Set { return attribute.NewSet(attribute.Int("k", i)) }

// Independent: a reader next to any other readers reports exactly what it would
// report alone, whenever the others collect.
func Independent() {
	delta, odelta := rt.Choose("delta", 2) == 1, rt.Choose("odelta", 2) == 1
	kinds := rt.Param("kinds", 3)
	kind := rt.Choose("kind", kinds)
	inactive := uint32(1 + rt.Choose("inactive", rt.Param("inact", 2)))
	other := []view.Option{h.Tempo(odelta)}
	switch rt.Choose("oview", rt.Param("views", 3)) {
	case 1:
		other = append(other, view.WithClause(view.WithKeys([]attribute.Key{})))
	case 2:
		other = append(other, view.WithClause(view.MatchInstrumentName("c"), view.WithAggregation(aggregation.DropKind)))
	}
	a, b, alone := metric.NewManualReader("a"), metric.NewManualReader("b"), metric.NewManualReader("b")
	ropts := []metric.Option{metric.WithReader(a, other...), metric.WithReader(b, h.Tempo(delta)), h.Perf(inactive)}
	if rt.Choose("order", rt.Param("orders", 2)) == 1 {
		ropts[0], ropts[1] = ropts[1], ropts[0]
	}
	p1 := h.Provider(ropts...)
	p2 := h.Provider(metric.WithReader(alone, h.Tempo(delta)), h.Perf(inactive))
	var recs []func(v int64, i int)
	for _, p := range []*metric.MeterProvider{p1, p2} {
		m := p.Meter("m")
		switch kind {
		case 0:
			c, _ := m.Int64UpDownCounter("c")
			recs = append(recs, func(v int64, i int) { c.Add(h.Ctx, v, apimetric.WithAttributeSet(attr(i))) })
		case 1:
			c, _ := m.Int64Gauge("c")
			recs = append(recs, func(v int64, i int) { c.Record(h.Ctx, v, apimetric.WithAttributeSet(attr(i))) })
		case 2:
			c, _ := m.Int64Counter("c")
			recs = append(recs, func(v int64, i int) { c.Add(h.Ctx, v, apimetric.WithAttributeSet(attr(i))) })
		}
	}
	n := rt.Param("series", 2)
	steps := rt.Param("steps", 4)
	for s := 0; s <= steps; s++ {
		op := n + 1
		if s < steps {
			op = rt.Choose("op", n+2)
		}
		switch {
		case op < n:
			v := rt.Int64("v")
			rt.Assume(rt.And(v > 0, v < 1<<40))
			recs[0](v, op)
			recs[1](v, op)
		case op == n:
			a.Produce(nil)
		default:
			d1, d2 := b.Produce(nil), alone.Produce(nil)
			same(d1, d2, n)
		}
	}
}

func value(p data.Point) int64 {
	if g, ok := p.Aggregation.(aggregation.Gauge); ok {
		return number.ToInt64(g.Gauge())
	}
	return h.SumI(p)
}

func same(d1, d2 data.Metrics, n int) {
	rt.Assert(len(h.Points(d1, "c")) == len(h.Points(d2, "c")), "other readers do not change what is reported")
	for i := 0; i < n; i++ {
		x, y := h.At(d1, "c", attr(i)), h.At(d2, "c", attr(i))
		rt.Assert(len(x) == len(y) && len(x) <= 1, "other readers do not change what is reported")
		if len(x) == 1 {
			rt.Assert(value(x[0]) == value(y[0]), "other readers do not change the values")
			rt.Assert(x[0].Temporality == y[0].Temporality, "other readers do not change the temporality")
			{
				_, xg := x[0].Aggregation.(aggregation.MinMaxSumCount)
				_, yg := y[0].Aggregation.(aggregation.MinMaxSumCount)
				rt.Assert(xg == yg, "other readers do not change the aggregation")
			}
		}
	}
	rt.ObsInt("n", int64(len(h.Points(d1, "c"))))
}

// IndependentAgg: the same for readers that use different aggregations of one
// instrument.
func IndependentAgg() {
	kinds := []aggregation.Kind{aggregation.MonotonicSumKind, aggregation.MinMaxSumCountKind, aggregation.HistogramKind}
	ka, kb := kinds[rt.Choose("ka", 3)], kinds[rt.Choose("kb", 3)]
	da, db := rt.Choose("da", 2) == 1, rt.Choose("db", 2) == 1
	a, b := metric.NewManualReader("a"), metric.NewManualReader([]string{"b", "a"}[rt.Choose("name", 2)])
	mp := h.Provider(metric.WithReader(a, h.Tempo(da), h.DefAgg(ka)), metric.WithReader(b, h.Tempo(db), h.DefAgg(kb)), h.Perf(1))
	c, _ := mp.Meter("m").Int64Histogram("c")
	type acc struct {
		r     *metric.ManualReader
		delta bool
		kind  aggregation.Kind
		sum   int64
		count uint64
	}
	accs := []*acc{{r: a, delta: da, kind: ka}, {r: b, delta: db, kind: kb}}
	steps := rt.Param("steps", 4)
	v := int64(1)
	for s := 0; s < steps+2; s++ {
		op := 1 + (s - steps)
		if s < steps {
			op = rt.Choose("op", 3)
		}
		if op == 0 {
			c.Record(h.Ctx, v)
			for _, x := range accs {
				x.sum += v
				x.count++
			}
			v *= 2
			continue
		}
		x := accs[op-1]
		ps := h.Points(x.r.Produce(nil), "c")
		if len(ps) == 0 {
			rt.Assert(x.count == 0, "a reader misses nothing")
			continue
		}
		rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == x.sum, "a reader sees everything once")
		if x.kind != aggregation.MonotonicSumKind {
			rt.Assert(h.Count(ps[0]) == x.count, "a reader sees everything once")
		}
		_, hist := ps[0].Aggregation.(aggregation.Histogram)
		rt.Assert(hist == (x.kind == aggregation.HistogramKind), "a reader keeps its own aggregation")
		rt.Assert((ps[0].Temporality == aggregation.DeltaTemporality) == x.delta, "a reader keeps its own temporality")
		if x.delta {
			x.sum, x.count = 0, 0
		}
	}
}

// IndependentAsync: a reader of asynchronous instruments next to another reader, with
// any view and temporality, reports what it would report alone.
func IndependentAsync() {
	delta, odelta := rt.Choose("delta", 2) == 1, rt.Choose("odelta", 2) == 1
	kind := rt.Choose("kind", 3)
	other := []view.Option{h.Tempo(odelta)}
	switch rt.Choose("oview", 3) {
	case 1:
		other = append(other, view.WithClause(view.WithKeys([]attribute.Key{})))
	case 2:
		other = append(other, view.WithClause(view.MatchInstrumentName("c"), view.WithAggregation(aggregation.DropKind)))
	}
	a, b, alone := metric.NewManualReader("a"), metric.NewManualReader([]string{"b", "a"}[rt.Choose("name", 2)]), metric.NewManualReader("b")
	ropts := []metric.Option{metric.WithReader(a, other...), metric.WithReader(b, h.Tempo(delta))}
	if rt.Choose("order", rt.Param("orders", 2)) == 1 {
		ropts[0], ropts[1] = ropts[1], ropts[0]
	}
	n := rt.Param("series", 2)
	vals, has := make([]int64, n), make([]bool, n)
	for _, p := range []*metric.MeterProvider{h.Provider(ropts...), h.Provider(metric.WithReader(alone, h.Tempo(delta)))} {
		m := p.Meter("m")
		cb := apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
			for i := range vals {
				if has[i] {
					o.Observe(vals[i], apimetric.WithAttributeSet(attr(i)))
				}
			}
			return nil
		})
		switch kind {
		case 0:
			m.Int64ObservableUpDownCounter("c", cb)
		case 1:
			m.Int64ObservableCounter("c", cb)
		case 2:
			m.Int64ObservableGauge("c", cb)
		}
	}
	for s := 0; s < rt.Param("steps", 3); s++ {
		i := rt.Choose("series", n+1)
		if i < n {
			vals[i], has[i] = rt.Int64("v"), rt.Choose("has", 2) == 1
		}
		if rt.Choose("other", 2) == 1 {
			a.Produce(nil)
		}
		same(b.Produce(nil), alone.Produce(nil), n)
	}
}

// Drop: a reader that drops the instrument, or all readers do.
func Drop() {
	da, db := rt.Choose("dropa", 2) == 1, rt.Choose("dropb", 2) == 1
	a, b := metric.NewManualReader("a"), metric.NewManualReader("b")
	opt := func(drop bool) []view.Option {
		o := []view.Option{h.Tempo(rt.Choose("delta", 2) == 1)}
		if drop {
			o = append(o, view.WithClause(view.MatchInstrumentName("c"), view.WithAggregation(aggregation.DropKind)))
		}
		return o
	}
	mp := h.Provider(metric.WithReader(a, opt(da)...), metric.WithReader(b, opt(db)...))
	m := mp.Meter("m")
	v := rt.Int64("v")
	rt.Assume(v > 0)
	kind := rt.Choose("kind", 4)
	rec := func() {}
	switch kind {
	case 0:
		c, err := m.Int64Counter("c")
		rt.Assert(err == nil && c != nil, "a dropped instrument is still returned")
		rec = func() { c.Add(h.Ctx, v, h.KV("k", "v")) }
	case 1:
		c, err := m.Int64Gauge("c")
		rt.Assert(err == nil && c != nil, "a dropped instrument is still returned")
		rec = func() { c.Record(h.Ctx, v, h.KV("k", "v")) }
	case 2:
		c, err := m.Int64Histogram("c", apimetric.WithDescription(`{"aggregation":"minmaxsumcount"}`))
		rt.Assert(err == nil && c != nil, "a dropped instrument is still returned")
		rec = func() { c.Record(h.Ctx, v, h.KV("k", "v")) }
	case 3:
		c, err := m.Int64ObservableUpDownCounter("c")
		rt.Assert(err == nil && c != nil, "a dropped instrument is still returned")
		_, err = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			o.ObserveInt64(c, v, h.KV("k", "v").(apimetric.ObserveOption))
			return nil
		}, c)
		rt.Assert(err == nil, "a callback for a dropped instrument is accepted")
	}
	e, _ := m.Int64Counter("e")
	for k := 0; k < 2; k++ {
		rec()
		e.Add(h.Ctx, 1)
	}
	for i, r := range []*metric.ManualReader{a, b} {
		d := r.Produce(nil)
		drop := []bool{da, db}[i]
		if drop {
			rt.Assert(len(h.Insts(d, "c")) == 0, "a dropped instrument is not reported")
		} else {
			rt.Assert(len(h.Points(d, "c")) == 1, "the other reader reports it")
		}
		rt.Assert(h.TotalI(d, "e") == 2, "other instruments are not affected")
	}
}

// Conc: readers with different views collect while data is recorded.
func Conc() {
	a, b := metric.NewManualReader("a"), metric.NewManualReader("b")
	mp := h.Provider(metric.WithReader(a, h.Delta(), view.WithClause(view.WithKeys([]attribute.Key{}))), metric.WithReader(b, h.Cumulative()), h.Perf(1))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(h.Ctx, 1, apimetric.WithAttributeSet(attr(0)))
	var ta, tb int64
	rt.Go(func() { c.Add(h.Ctx, 2, apimetric.WithAttributeSet(attr(1))) })
	rt.Go(func() {
		ps := h.Points(a.Produce(nil), "c")
		rt.Assert(len(ps) == 1, "one series")
		ta = h.SumI(ps[0])
	})
	rt.Go(func() { tb = h.TotalI(b.Produce(nil), "c") })
	rt.Wait()
	rt.Assert((ta == 1 || ta == 3) && (tb == 1 || tb == 3), "each reader sees complete measurements")
	ta += h.TotalI(a.Produce(nil), "c")
	rt.Assert(ta == 3, "the delta reader sees everything once")
	d := b.Produce(nil)
	rt.Assert(h.TotalI(d, "c") == 3 && len(h.Points(d, "c")) == 2, "the cumulative reader sees everything")
}

// Times: the intervals of successive collections are contiguous.
func Times() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	t0 := time.Now()
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), h.Perf(1))
	t1 := time.Now()
	m := mp.Meter("m")
	c, _ := m.Int64UpDownCounter("c")
	on := true
	m.Int64ObservableUpDownCounter("o", apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
		if on {
			o.Observe(rt.Int64("o"))
		}
		return nil
	}))
	var start, last time.Time
	have := false
	for k := 0; k < rt.Param("collects", 3); k++ {
		on = rt.Choose("on", 2) == 1
		if rt.Choose("rec", 2) == 1 {
			c.Add(h.Ctx, 1)
		}
		before := time.Now()
		d := r.Produce(nil)
		after := time.Now()
		var end time.Time
		some := false
		for _, n := range []string{"c", "o"} {
			for _, p := range h.Points(d, n) {
				rt.Assert(rt.And(le(before, p.End), le(p.End, after)), "the end of the interval is the time of the collection")
				rt.Assert(le(p.Start, p.End), "an interval does not end before it starts")
				if some {
					rt.Assert(eq(end, p.End), "one collection has one end")
				}
				some, end = true, p.End
				if have {
					if delta {
						rt.Assert(eq(p.Start, last), "delta intervals are contiguous")
					} else {
						rt.Assert(eq(p.Start, start), "the cumulative start is fixed")
					}
				} else {
					rt.Assert(rt.And(le(t0, p.Start), le(p.Start, t1)), "the first interval starts with the provider")
					start = p.Start
				}
			}
		}
		if !some {
			// nothing reported: only judge collections in a row that report something
			return
		}
		last = end
		have = true
	}
}

// le and eq compare two times without choosing a branch.
func le(a, b time.Time) bool {
	return rt.Or(a.Unix() < b.Unix(), rt.And(a.Unix() == b.Unix(), a.Nanosecond() <= b.Nanosecond()))
}

func eq(a, b time.Time) bool {
	return rt.And(a.Unix() == b.Unix(), a.Nanosecond() == b.Nanosecond())
}

// TimesReaders: each reader has its own sequence of intervals.
func TimesReaders() {
	rs := []*metric.ManualReader{metric.NewManualReader("a"), metric.NewManualReader("b")}
	mp := h.Provider(metric.WithReader(rs[0], h.Delta()), metric.WithReader(rs[1], h.Delta()))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	var last [2]time.Time
	var have [2]bool
	for k := 0; k < rt.Param("collects", 4); k++ {
		i := rt.Choose("reader", 2)
		c.Add(h.Ctx, 1)
		ps := h.Points(rs[i].Produce(nil), "c")
		rt.Assert(len(ps) == 1, "reported")
		if have[i] {
			rt.Assert(ps[0].Start.Equal(last[i]), "a reader's delta intervals are contiguous")
		}
		have[i] = true
		last[i] = ps[0].End
	}
}

// TimesConc: collections of one delta reader at the same time have intervals that
// do not overlap.
func TimesConc() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Delta()))
	m := mp.Meter("m")
	m.Int64ObservableGauge("g", apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
		return nil
	}))
	c, _ := m.Int64UpDownCounter("c")
	n := rt.Param("collectors", 2)
	var pts []data.Point
	c.Add(h.Ctx, 1)
	rt.Go(func() { c.Add(h.Ctx, 1) })
	got := make([][]data.Point, n)
	for i := 0; i < n; i++ {
		i := i
		rt.Go(func() { got[i] = h.Points(r.Produce(nil), "c") })
	}
	rt.Wait()
	for _, g := range got {
		pts = append(pts, g...)
	}
	var sum int64
	for i, p := range pts {
		sum += h.SumI(p)
		rt.Assert(!p.Start.After(p.End), "an interval does not end before it starts")
		for _, q := range pts[:i] {
			rt.Assert(!p.Start.Before(q.End) || !q.Start.Before(p.End), "delta intervals of a reader do not overlap")
		}
	}
	rt.ObsInt("n", int64(len(pts)))
	for _, p := range h.Points(r.Produce(nil), "c") {
		sum += h.SumI(p)
	}
	rt.Assert(sum == 2, "nothing is lost or reported twice")
}
