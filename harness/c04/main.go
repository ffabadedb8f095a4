package main

import (
	"context"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){"AggLimit": AggLimit, "InstLimit": InstLimit, "AggLimitConc": AggLimitConc, "AsyncLimit": AsyncLimit, "AsyncDeltaLimit": AsyncDeltaLimit, "InstLimitConc": InstLimitConc, "InstLimitCollide": InstLimitCollide, "WhereLimit": WhereLimit, "Free": Free, "AsyncFree": AsyncFree, "FreeReaders": FreeReaders, "FreeRounds": FreeRounds, "CollideFree": CollideFree, "FreeKinds": FreeKinds, "FreeConc": FreeConc})
}

var names = []string{"a", "b", "c", "d", "e"}

func overflowSet() attribute.Set {
	return attribute.NewSet(attribute.Bool("otel.metric.overflow", true))
}

func set(i int) attribute.Set { return attribute.NewSet(attribute.String("k", names[i])) }

// judge: at most lim series; every series is one that was recorded, with no
// more than its own data, or the overflow series; the total is everything.
func judge(d data.Metrics, lim int, own []int64, rec []bool) {
	ps := h.Points(d, "c")
	rt.Assert(len(ps) <= lim, "a collection never reports more series than the limit")
	var want, got int64
	for _, v := range own {
		want += v
	}
	over := false
	ov := overflowSet()
	for i, p := range ps {
		got += h.SumI(p)
		for j := range ps[:i] {
			rt.Assert(!ps[j].Attributes.Equals(&p.Attributes), "one point per series")
		}
		if p.Attributes.Equals(&ov) {
			over = true
			rt.Reach("overflow")
			continue
		}
		found := false
		for i := range own {
			s := set(i)
			if p.Attributes.Equals(&s) {
				found = true
				rt.Assert(h.SumI(p) <= own[i], "a series holds no foreign data")
			}
		}
		rt.Assert(found, "a reported series was recorded or is the overflow series")
	}
	rt.Assert(got == want, "what does not fit is counted in the overflow series: the total is preserved")
	if !over {
		for i := range own {
			if rec[i] {
				ps := h.At(d, "c", set(i))
				rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == own[i], "without overflow every series is complete")
			}
		}
	}
	rt.ObsInt("n", int64(len(ps)))
	rt.ObsBool("over", over)
}

// run applies any history of additions to n series and collections.
func run(c apimetric.Int64UpDownCounter, r *metric.ManualReader, delta bool, lim, n int, room int) {
	own := make([]int64, n)
	rec := make([]bool, n)
	ever := map[int]bool{}
	steps := rt.Param("steps", 5)
	for s := 0; s <= steps; s++ {
		op := n
		if s < steps {
			op = rt.Choose("op", n+1)
		}
		if op < n {
			v := rt.Int64("v")
			rt.Assume(rt.And(v > 0, v < 1<<40))
			c.Add(h.Ctx, v, h.KV("k", names[op]))
			own[op] += v
			rec[op] = true
			ever[op] = true
			continue
		}
		d := r.Produce(nil)
		judge(d, lim, own, rec)
		if len(ever) < room {
			rt.Assert(len(h.At(d, "c", overflowSet())) == 0, "no overflow below the limit")
		}
		if delta {
			for i := range own {
				own[i] = 0
				rec[i] = false
			}
		}
	}
}

// AggLimit: the output cardinality limit.
func AggLimit() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	lim := 1 + rt.Choose("lim", rt.Param("maxlim", 3))
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), metric.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: uint32(lim), InactiveCollectionPeriods: 1 + uint32(rt.Choose("inactive", 2))}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	run(c, r, delta, lim, rt.Param("series", 4), lim)
}

// InstLimit: the instrument cardinality limit in front of the output.
func InstLimit() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	lim := 2 + rt.Choose("lim", rt.Param("maxlim", 2))
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), metric.WithPerformance(sdkinstrument.Performance{InstrumentCardinalityLimit: uint32(lim), InactiveCollectionPeriods: 1 + uint32(rt.Choose("inactive", 2))}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	bound := lim
	if !delta {
		bound = 1000 // a cumulative reader remembers series the instrument has let go
	}
	run(c, r, delta, bound, rt.Param("series", 4), lim)
}

// AggLimitConc: recorders of different series race for the last slots.
func AggLimitConc() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	lim := 2
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), metric.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: uint32(lim), InactiveCollectionPeriods: 1}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	own := []int64{1, 2, 4}
	if rt.Param("recorders", 2) == 2 {
		own[2] = 0
	}
	for i, v := range own {
		if v != 0 {
			i, v := i, v
			rt.Go(func() { c.Add(h.Ctx, v, h.KV("k", names[i])) })
		}
	}
	if rt.Param("collect", 0) > 0 {
		rt.Go(func() {
			d := r.Produce(nil)
			rt.Assert(len(h.Points(d, "c")) <= lim, "a collection never reports more series than the limit")
			if delta {
				for i := range own {
					for _, p := range h.At(d, "c", set(i)) {
						own[i] -= h.SumI(p)
					}
				}
				for _, p := range h.At(d, "c", overflowSet()) {
					for i := range own {
						if h.SumI(p)&(1<<i) != 0 {
							own[i] = 0
						}
					}
				}
			}
		})
	}
	rt.Wait()
	judge(r.Produce(nil), lim, own, []bool{own[0] != 0, own[1] != 0, own[2] != 0})
}

// InstLimitConc: recorders of different series race for the last records of
// the instrument.
func InstLimitConc() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	lim := 2 + rt.Choose("lim", 2)
	perf := sdkinstrument.Performance{InstrumentCardinalityLimit: uint32(lim), InactiveCollectionPeriods: 1 + uint32(rt.Choose("inactive", 2)), IgnoreCollisions: rt.Choose("ignore", 2) == 1}
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), metric.WithPerformance(perf))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	own := []int64{1, 2, 4, 8}
	rec := []bool{true, true, true, true}
	if lim == 3 {
		c.Add(h.Ctx, own[2], h.KV("k", names[2]))
	}
	for i := 0; i < 2; i++ {
		rt.Go(func() { c.Add(h.Ctx, own[i], h.KV("k", names[i])) })
	}
	rt.Wait()
	if lim == 2 {
		c.Add(h.Ctx, own[2], h.KV("k", names[2]))
	}
	c.Add(h.Ctx, own[3], h.KV("k", names[3]))
	judge(r.Produce(nil), lim, own, rec)
}

// InstLimitCollide: records count against the instrument limit also when
// their fingerprints collide, as those of permuted slices do.
func InstLimitCollide() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	lim := 2 + rt.Choose("lim", 2)
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), metric.WithPerformance(sdkinstrument.Performance{InstrumentCardinalityLimit: uint32(lim), InactiveCollectionPeriods: 1}))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	vals := []attribute.KeyValue{attribute.Int64Slice("k", []int64{1, 2, 3}), attribute.Int64Slice("k", []int64{3, 2, 1}), attribute.Int64Slice("k", []int64{2, 1, 3}), attribute.Int64Slice("k", []int64{5, 2, 3})}
	own := make([]int64, len(vals))
	for s, steps := 0, rt.Param("steps", 4); s <= steps; s++ {
		op := len(vals)
		if s < steps {
			op = rt.Choose("op", len(vals)+1)
		}
		if op < len(vals) {
			v := rt.Int64("v")
			rt.Assume(rt.And(v > 0, v < 1<<40))
			c.Add(h.Ctx, v, apimetric.WithAttributes(vals[op]))
			own[op] += v
			continue
		}
		d := r.Produce(nil)
		ps := h.Points(d, "c")
		rt.Assert(!delta || len(ps) <= lim, "a collection never reports more series than the limit")
		var want, got int64
		for i, v := range own {
			want += v
			for _, p := range h.At(d, "c", attribute.NewSet(vals[i])) {
				rt.Assert(h.SumI(p) <= v, "a series holds no foreign data")
			}
		}
		for _, p := range ps {
			got += h.SumI(p)
		}
		rt.Assert(got == want, "what does not fit is counted in the overflow series: the total is preserved")
		rt.ObsInt("n", int64(len(ps)))
		if delta {
			own = make([]int64, len(vals))
		}
	}
}

// CollideFree: series whose fingerprints collide go quiet and return, each on
// its own.
func CollideFree() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), h.Perf(1))
	c, _ := mp.Meter("m").Int64UpDownCounter("c")
	vals := []attribute.KeyValue{attribute.Int64Slice("k", []int64{1, 2, 3}), attribute.Int64Slice("k", []int64{3, 2, 1}), attribute.Int64Slice("k", []int64{2, 1, 3})}
	own := make([]int64, len(vals))
	seen := make([]bool, len(vals))
	for s, n := 0, rt.Param("rounds", 3); s < n; s++ {
		used := rt.Choose("used", 1<<len(vals))
		if s == 0 && used&(used+1) != 0 {
			rt.Assume(false) // the first round's series are numbered in order of use
		}
		for i := range vals {
			if used>>i&1 == 1 {
				v := rt.Int64("v")
				rt.Assume(rt.And(v > 0, v < 1<<40))
				c.Add(h.Ctx, v, apimetric.WithAttributes(vals[i]))
				own[i] += v
				seen[i] = true
			}
		}
		d := r.Produce(nil)
		for i := range vals {
			ps := h.At(d, "c", attribute.NewSet(vals[i]))
			if seen[i] {
				rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == own[i], "each series has its own data")
			} else {
				rt.Assert(len(ps) == 0, "nothing without measurements")
			}
			if delta {
				own[i], seen[i] = 0, false
			}
		}
	}
}

// AsyncLimit: observations, cumulative.
func AsyncLimit() {
	r := metric.NewManualReader("r")
	lim := 1 + rt.Choose("lim", rt.Param("maxlim", 3))
	mp := h.Provider(metric.WithReader(r, h.Cumulative()), metric.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: uint32(lim)}))
	m := mp.Meter("m")
	c, _ := m.Int64ObservableUpDownCounter("c")
	n := rt.Param("series", 4)
	var own []int64
	var rec []bool
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		own = make([]int64, n)
		rec = make([]bool, n)
		for i := 0; i < n; i++ {
			if rt.Choose("obs", 2) == 1 {
				own[i] = rt.Int64("v")
				rec[i] = true
				rt.Assume(rt.And(own[i] > 0, own[i] < 1<<40))
				o.ObserveInt64(c, own[i], h.KV("k", names[i]).(apimetric.ObserveOption))
			}
		}
		return nil
	}, c)
	for s := 0; s < rt.Param("collects", 2); s++ {
		judge(r.Produce(nil), lim, own, rec)
	}
}

// AsyncDeltaLimit: observations under delta temporality stay within the limit: the
// sets that have a series report their difference, what does not fit is counted in
// the overflow series in each collection that observes it.
func AsyncDeltaLimit() {
	r := metric.NewManualReader("r")
	lim := 1 + rt.Choose("lim", rt.Param("maxlim", 3))
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: uint32(lim)}))
	m := mp.Meter("m")
	c, _ := m.Int64ObservableCounter("c")
	n := rt.Param("series", 4)
	var prior, own []int64
	var had, has []bool
	var over int64
	overs := 0
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		own, has = make([]int64, n), make([]bool, n)
		over, overs = 0, 0
		owns := 0
		for i := 0; i < n; i++ {
			if rt.Choose("obs", 2) == 0 {
				continue
			}
			v := rt.Int64("v")
			rt.Assume(rt.And(v > 0, v < 1<<40))
			o.ObserveInt64(c, v, h.KV("k", names[i]).(apimetric.ObserveOption))
			if owns < lim-1 {
				owns++
				own[i], has[i] = v, true
			} else {
				over += v
				overs++
			}
		}
		return nil
	}, c)
	for s := 0; s < rt.Param("collects", 2); s++ {
		prior, had = own, has
		d := r.Produce(nil)
		rt.Assert(len(h.Points(d, "c")) <= lim, "a collection never reports more series than the limit")
		os := h.At(d, "c", overflowSet())
		if overs == 0 {
			rt.Assert(len(os) == 0, "no overflow below the limit")
		} else {
			rt.Assert(len(os) == 1 && h.SumI(os[0]) == over, "what does not fit is counted in the overflow series")
		}
		for i := 0; i < n; i++ {
			ps := h.At(d, "c", attribute.NewSet(attribute.String("k", names[i])))
			want := own[i]
			if had != nil && had[i] {
				want -= prior[i]
			}
			if len(ps) == 0 {
				rt.Assert(rt.Or(!has[i], want == 0), "a series that changed is reported")
				continue
			}
			rt.Assert(has[i] && len(ps) == 1, "a series that has a place")
			rt.Assert(h.SumI(ps[0]) == want, "every other series reports only its own data")
		}
		rt.ObsInt("n", int64(len(h.Points(d, "c"))))
	}
}

// WhereLimit: the limit is taken from the view, the hint, the default selector or
// the performance settings, for any aggregation.
func WhereLimit() {
	r := metric.NewManualReader("r")
	lim := 2 + rt.Choose("lim", 2)
	kind := []aggregation.Kind{aggregation.MonotonicSumKind, aggregation.HistogramKind, aggregation.MinMaxSumCountKind}[rt.Choose("kind", 3)]
	opts := []view.Option{h.Tempo(rt.Choose("delta", 2) == 1), h.DefAgg(kind)}
	perf := sdkinstrument.Performance{}
	desc := ""
	switch rt.Choose("where", 5) {
	case 0:
		perf.AggregatorCardinalityLimit = uint32(lim)
	case 1:
		opts = append(opts, view.WithClause(view.MatchInstrumentName("c"), view.WithAggregatorConfig(aggregator.Config{CardinalityLimit: uint32(lim)})))
	case 2:
		opts = append(opts, view.WithDefaultAggregationConfigSelector(func(sdkinstrument.Kind) (aggregator.Config, aggregator.Config) {
			return aggregator.Config{CardinalityLimit: uint32(lim)}, aggregator.Config{CardinalityLimit: uint32(lim)}
		}))
	case 3:
		desc = []string{`{"config":{"cardinality_limit":2}}`, `{"config":{"cardinality_limit":3}}`}[lim-2]
	case 4:
		desc = []string{`{"config":{"histogram":{"max_size":20},"cardinality_limit":2}}`, `{"config":{"cardinality_limit":3,"histogram":{"max_size":20}}}`}[lim-2]
	}
	mp := h.Provider(metric.WithReader(r, opts...), metric.WithPerformance(perf))
	float := rt.Choose("float", 2) == 1
	n := 5
	m := mp.Meter("m")
	if float {
		c, _ := m.Float64Histogram("c", apimetric.WithDescription(desc))
		for i := 0; i < n; i++ {
			c.Record(h.Ctx, 1, h.KV("k", names[i]))
		}
	} else {
		c, _ := m.Int64Histogram("c", apimetric.WithDescription(desc))
		for i := 0; i < n; i++ {
			c.Record(h.Ctx, 1, h.KV("k", names[i]))
		}
	}
	ps := h.Points(r.Produce(nil), "c")
	rt.Assert(len(ps) == lim, "the series beyond the limit share the overflow series")
	ov := overflowSet()
	total, over := 0.0, 0.0
	for _, p := range ps {
		v := 0.0
		if float {
			v = h.SumF(p)
		} else {
			v = float64(h.SumI(p))
		}
		total += v
		if p.Attributes.Equals(&ov) {
			over += v
		}
		if kind != aggregation.MonotonicSumKind {
			rt.Assert(float64(h.Count(p)) == v, "counts agree")
			_ = number.Int64Kind
		}
	}
	rt.Assert(total == float64(n), "the total is preserved")
	rt.Assert(over == float64(n-lim+1), "the overflow series has what does not fit")
}

// place is what the property says about the places below a limit of lim: a
// series holds one from its first measurement until period collections in a
// row have passed without a measurement.
type place struct {
	lim, period int
	agg         bool    // the limit is the aggregator's
	own         []bool  // reported under its own attributes
	over        []bool  // counted in the overflow series
	quiet       []int   // collections since the last measurement
	amount      []int64 // since the last collection
	used        []bool  // measured since the last collection
	must        []bool  // has to be reported under its own attributes
}

func newPlace(lim, period, n int) *place {
	return &place{lim: lim, period: period, own: make([]bool, n), over: make([]bool, n), quiet: make([]int, n), amount: make([]int64, n), used: make([]bool, n), must: make([]bool, n)}
}

func (p *place) record(i int, v int64) {
	if !p.used[i] {
		held := 0
		over := false
		for j := range p.own {
			// An overflowing series that is used may have taken a place
			// that has become free.
			if p.own[j] || p.used[j] {
				held++
			}
			over = over || p.over[j]
		}
		if over {
			held++
		}
		// An own series keeps its place, a series that has none takes one
		// when there is room.
		// Below the aggregator limit one is kept for the overflow series
		// only until it exists, below that of the instrument always.
		room := held < p.lim-1 || (p.agg && over && held < p.lim)
		p.must[i] = p.own[i] || (!p.over[i] && room)
		if p.must[i] && !p.own[i] && p.quiet[i] > 0 {
			rt.Reach("again")
		}
		if !p.own[i] && !p.must[i] {
			p.over[i] = true
		}
	}
	p.quiet[i] = 0
	p.used[i] = true
	p.amount[i] += v
}

// report compares what a delta reader collected (nil: another reader).
func (p *place) report(d data.Metrics, value func(data.Point) int64) {
	var total, want int64
	for _, pt := range h.Points(d, "c") {
		total += value(pt)
	}
	for i := range p.own {
		if !p.used[i] {
			continue
		}
		want += p.amount[i]
		ps := h.At(d, "c", set(i))
		if p.must[i] {
			rt.Assert(len(ps) == 1 && value(ps[0]) == p.amount[i], "a series keeps its place while it is used, and a series gone quiet leaves its place to others")
		}
		p.own[i] = len(ps) == 1
		if p.own[i] {
			p.over[i] = false
		} else {
			rt.Reach("overflow")
			p.over[i] = true
		}
		p.amount[i], p.used[i] = 0, false
	}
	rt.Assert(total == want, "the total is preserved")
	p.tick()
}

func (p *place) tick() {
	for i := range p.own {
		p.quiet[i]++
		if p.quiet[i] > p.period && (p.own[i] || p.over[i]) {
			rt.Reach("freed")
			p.own[i], p.over[i] = false, false
		}
	}
}

// Free: series that go quiet give back their place below either limit.
func Free() {
	r := metric.NewManualReader("r")
	lim := 2 + rt.Choose("lim", 2)
	period := 1 + rt.Choose("period", rt.Param("periods", 2))
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: uint32(period)}
	if rt.Choose("agg", 2) == 1 {
		perf.AggregatorCardinalityLimit = uint32(lim)
	} else {
		perf.InstrumentCardinalityLimit = uint32(lim)
	}
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithPerformance(perf))
	c, _ := mp.Meter("m").Int64Counter("c")
	n := rt.Param("series", 3)
	p := newPlace(lim, period, n)
	p.agg = perf.AggregatorCardinalityLimit != 0
	used := 0
	for s, steps := 0, rt.Param("steps", 5); s <= steps; s++ {
		op := 0
		if s < steps {
			op = rt.Choose("op", min(used+1, n)+1)
		}
		if op == 0 {
			p.report(r.Produce(nil), h.SumI)
			continue
		}
		i := op - 1
		used = max(used, op)
		v := rt.Int64("v")
		rt.Assume(rt.And(v > 0, v < 1<<40))
		c.Add(h.Ctx, v, h.KV("k", names[i]))
		p.record(i, v)
	}
}

// FreeRounds: the same with more series: which of them are used is chosen for
// every collection.
func FreeRounds() {
	r := metric.NewManualReader("r")
	lim := 3 + rt.Choose("lim", rt.Param("lims", 1))
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: 1}
	if rt.Choose("agg", 2) == 1 {
		perf.AggregatorCardinalityLimit = uint32(lim)
	} else {
		perf.InstrumentCardinalityLimit = uint32(lim)
	}
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithPerformance(perf))
	c, _ := mp.Meter("m").Int64Counter("c")
	n := rt.Param("series", 4)
	p := newPlace(lim, 1, n)
	p.agg = perf.AggregatorCardinalityLimit != 0
	for s, rounds := 0, rt.Param("rounds", 3); s < rounds; s++ {
		used := 0
		if s == 0 {
			used = 1<<(1+rt.Choose("used", n)) - 1
		} else {
			used = rt.Choose("used", 1<<n)
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 1 {
				v := rt.Int64("v")
				rt.Assume(rt.And(v > 0, v < 1<<40))
				c.Add(h.Ctx, v, h.KV("k", names[i]))
				p.record(i, v)
			}
		}
		p.report(r.Produce(nil), h.SumI)
	}
}

// FreeReaders: with a second reader, a collection of either counts.
func FreeReaders() {
	r := metric.NewManualReader("r")
	r2 := metric.NewManualReader("r2")
	lim := 2
	period := 1 + rt.Choose("period", rt.Param("periods", 2))
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: uint32(period)}
	delta2 := rt.Choose("delta2", 2) == 1
	if rt.Choose("limit", 2) == 1 {
		perf.AggregatorCardinalityLimit = uint32(lim)
	} else {
		perf.InstrumentCardinalityLimit = uint32(lim)
	}
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithReader(r2, h.Tempo(delta2)), metric.WithPerformance(perf))
	c, _ := mp.Meter("m").Int64Counter("c")
	used := 0
	last := -1
	n := 2
	for s, steps := 0, rt.Param("steps", 5); s < steps; s++ {
		op := rt.Choose("op", min(used+1, n)+2)
		switch {
		case op == 0:
			r.Produce(nil)
			last++
		case op == 1:
			r2.Produce(nil)
			last++
		default:
			used = max(used, op-1)
			c.Add(h.Ctx, 1, h.KV("k", names[op-2]))
			last = 0
		}
	}
	if last <= period {
		return
	}
	rt.Reach("freed")
	// Nothing was recorded for long enough: there is room for a new series, once
	// the reader has reported what it had.
	second := rt.Choose("second", 2) == 1
	if second && !delta2 {
		return
	}
	if second {
		r = r2
	}
	r.Produce(nil)
	if perf.AggregatorCardinalityLimit != 0 {
		r.Produce(nil)
	}
	c.Add(h.Ctx, 5, h.KV("k", names[4]))
	ps := h.At(r.Produce(nil), "c", set(4))
	rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == 5, "a series gone quiet leaves its place to others")
}

// FreeKinds: the same for every synchronous instrument, number kind and aggregation.
func FreeKinds() {
	r := metric.NewManualReader("r")
	period := 1 + rt.Choose("period", 2)
	kind := []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncHistogram, sdkinstrument.SyncGauge}[rt.Choose("kind", 4)]
	opts := []view.Option{h.Delta()}
	if kind == sdkinstrument.SyncHistogram {
		switch rt.Choose("agg", 3) {
		case 0:
			opts = append(opts, h.DefAgg(aggregation.MinMaxSumCountKind))
		case 1:
			opts = append(opts, h.DefAgg(aggregation.HistogramKind))
		case 2:
			opts = append(opts, h.DefAgg(aggregation.GaugeKind))
		}
	}
	float := rt.Choose("float", 2) == 1
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: uint32(period)}
	if rt.Choose("limit", 2) == 1 {
		perf.AggregatorCardinalityLimit = 2
	} else {
		perf.InstrumentCardinalityLimit = 2
	}
	mp := h.Provider(metric.WithReader(r, opts...), metric.WithPerformance(perf))
	rec, _ := h.Make(mp.Meter("m"), kind, float, "c")
	for i, n := 0, 1+rt.Choose("before", 2); i < n; i++ {
		rec(3, attribute.String("k", names[i]))
	}
	for i := 0; i <= period; i++ {
		r.Produce(nil)
	}
	rec(7, attribute.String("k", names[2+rt.Choose("which", 2)]))
	ps := h.Points(r.Produce(nil), "c")
	ov := overflowSet()
	rt.Assert(len(ps) == 1 && !ps[0].Attributes.Equals(&ov), "a series gone quiet leaves its place to others")
}

// AsyncFree: a series that is not observed does not hold a place.
func AsyncFree() {
	r := metric.NewManualReader("r")
	lim := 2 + rt.Choose("lim", 2)
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)), metric.WithPerformance(sdkinstrument.Performance{AggregatorCardinalityLimit: uint32(lim)}))
	m := mp.Meter("m")
	c, _ := m.Int64ObservableUpDownCounter("c")
	n := rt.Param("series", 4)
	var rec []bool
	num := 0
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		rec = make([]bool, n)
		num = 0
		for i := 0; i < n && num < lim-1; i++ {
			if rt.Choose("obs", 2) == 1 {
				rec[i] = true
				num++
				v := rt.Int64("v")
				rt.Assume(rt.And(v > 0, v < 1<<40))
				o.ObserveInt64(c, v, h.KV("k", names[i]).(apimetric.ObserveOption))
			}
		}
		return nil
	}, c)
	for s, k := 0, rt.Param("collects", 3); s < k; s++ {
		d := r.Produce(nil)
		rt.Assert(len(h.At(d, "c", overflowSet())) == 0, "a series that is not observed does not hold a place")
		if !delta {
			for i := range rec {
				rt.Assert((len(h.At(d, "c", set(i))) == 1) == rec[i], "exactly the observed series are reported")
			}
		}
	}
}

// FreeConc: however recorders and a collection interleave, nothing stays behind.
func FreeConc() {
	r := metric.NewManualReader("r")
	perf := sdkinstrument.Performance{InactiveCollectionPeriods: 1}
	if rt.Choose("limit", 2) == 1 {
		perf.AggregatorCardinalityLimit = 2
	} else {
		perf.InstrumentCardinalityLimit = 2
	}
	mp := h.Provider(metric.WithReader(r, h.Delta()), metric.WithPerformance(perf))
	c, _ := mp.Meter("m").Int64Counter("c")
	if rt.Choose("old", 2) == 1 {
		// The series is about to be dropped.
		c.Add(h.Ctx, 1, h.KV("k", names[0]))
		r.Produce(nil)
	}
	second := rt.Choose("second", 2)
	rt.Go(func() { c.Add(h.Ctx, 1, h.KV("k", names[0])) })
	rt.Go(func() { c.Add(h.Ctx, 2, h.KV("k", names[second])) })
	if rt.Param("collect", 1) == 1 {
		rt.Go(func() { r.Produce(nil) })
	}
	rt.Wait()
	for i := 0; i < 3; i++ {
		r.Produce(nil)
	}
	c.Add(h.Ctx, 7, h.KV("k", names[3]))
	ps := h.Points(r.Produce(nil), "c")
	s3 := set(3)
	rt.Assert(len(ps) == 1 && ps[0].Attributes.Equals(&s3) && h.SumI(ps[0]) == 7, "a series gone quiet leaves its place to others")
}
