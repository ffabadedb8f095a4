// Harnesses for asynchronous instruments and callbacks.
package main

import (
	"context"
	"errors"
	"math"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/metric/noop"
)

func main() {
	rt.Run(map[string]func(){"Hist": Hist, "HistF": HistF, "Readers": Readers, "Reject": Reject, "Filter": Filter, "FilterConst": FilterConst, "Conc": Conc, "Escape": Escape, "Global": Global,
		"Life": Life, "UnregConc": UnregConc, "RegConc": RegConc, "UnregTwo": UnregTwo, "Single": Single})
}

var names = []string{"a", "b", "c"}

func set(i int) attribute.Set { return attribute.NewSet(attribute.String("k", names[i])) }

func kv(i int) apimetric.ObserveOption { return apimetric.WithAttributeSet(set(i)) }

func val(p data.Point) int64 {
	if g, ok := p.Aggregation.(aggregation.Gauge); ok {
		return number.ToInt64(g.Gauge())
	}
	return h.SumI(p)
}

// seen is what one reader has been shown so far: the value of the last
// collection and the last value ever.
type seen struct {
	prev    map[int]int64
	last    map[int]int64
	collect int
}

// judge checks one collection of a reader against the values observed in it.
func (s *seen) judge(d data.Metrics, name string, delta, gauge bool, obs map[int]int64, n int) {
	tot := 0
	for i := 0; i < n; i++ {
		ps := h.At(d, name, set(i))
		tot += len(ps)
		rt.Assert(len(ps) <= 1, "one point per series")
		v, ok := obs[i]
		if !ok {
			rt.Assert(len(ps) == 0, "a series that is not observed is not reported")
			continue
		}
		if !delta || gauge {
			rt.Assert(len(ps) == 1, "every observed series is reported")
			rt.Assert(val(ps[0]) == v, "the last observation of the collection is reported")
			continue
		}
		before, had := s.prev[i]
		// a series missing from the previous collection starts from zero
		// or from its last value
		ever := s.last[i]
		if len(ps) == 0 {
			rt.Assert(rt.Or(v == before, v == ever), "only an unchanged series is omitted")
			continue
		}
		if had {
			rt.Assert(val(ps[0]) == v-before, "a delta is the difference between two observations")
		} else {
			rt.Assert(rt.Or(val(ps[0]) == v, val(ps[0]) == v-ever), "the first delta starts from zero")
		}
	}
	rt.Assert(tot == len(h.Points(d, name)), "no other series is reported")
	for _, p := range h.Points(d, name) {
		if !gauge {
			rt.Assert((p.Temporality == aggregation.DeltaTemporality) == delta, "temporality")
		}
	}
	s.prev = map[int]int64{}
	if s.last == nil {
		s.last = map[int]int64{}
	}
	for i, v := range obs {
		s.prev[i] = v
		s.last[i] = v
	}
	s.collect++
	rt.ObsInt("n", int64(tot))
}

func instrument(m apimetric.Meter, kind int) apimetric.Int64Observable {
	switch kind {
	case 0:
		c, _ := m.Int64ObservableCounter("c")
		return c
	case 1:
		c, _ := m.Int64ObservableUpDownCounter("c")
		return c
	}
	c, _ := m.Int64ObservableGauge("c")
	return c
}

// Hist: any sequence of collections, each with any observations.
func Hist() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	kind := rt.Choose("kind", 3)
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)))
	m := mp.Meter("m")
	c := instrument(m, kind)
	n := rt.Param("series", 2)
	var obs map[int]int64
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		obs = map[int]int64{}
		for i := 0; i < n; i++ {
			for j := rt.Choose("times", 3); j > 0; j-- {
				v := rt.Int64("v")
				o.ObserveInt64(c, v, kv(i))
				obs[i] = v
			}
		}
		return nil
	}, c)
	var s seen
	var d data.Metrics
	reuse := rt.Choose("reuse", 2) == 1
	for k := 0; k < rt.Param("collects", 3); k++ {
		if reuse {
			d = r.Produce(&d)
		} else {
			d = r.Produce(nil)
		}
		s.judge(d, "c", delta, kind == 2, obs, n)
	}
}

// HistF: floating point.
func HistF() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)))
	m := mp.Meter("m")
	c, _ := m.Float64ObservableUpDownCounter("c")
	var v float64
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		v = rt.Float64("v")
		rt.Assume(rt.And(v == v, rt.And(v <= math.MaxFloat64, v >= -math.MaxFloat64)))
		o.ObserveFloat64(c, v)
		return nil
	}, c)
	prev := 0.0
	for k := 0; k < rt.Param("collects", 3); k++ {
		ps := h.Points(r.Produce(nil), "c")
		if !delta {
			rt.Assert(len(ps) == 1 && h.SumF(ps[0]) == v, "the observation is reported")
			continue
		}
		if len(ps) == 0 {
			rt.Assert(rt.And(k > 0, v == prev), "only an unchanged series is omitted")
		} else {
			rt.Assert(h.SumF(ps[0]) == v-prev, "a delta is the difference between two observations")
		}
		prev = v
	}
}

// Readers: two readers with different temporalities each see their own history.
func Readers() {
	rd, rc := metric.NewManualReader("d"), metric.NewManualReader("c")
	mp := h.Provider(metric.WithReader(rd, h.Delta()), metric.WithReader(rc, h.Cumulative()))
	m := mp.Meter("m")
	kind := rt.Choose("kind", 3)
	c := instrument(m, kind)
	obs := map[int]int64{}
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		obs = map[int]int64{}
		for i := 0; i < 2; i++ {
			if i == 1 && rt.Choose("second", 2) == 0 {
				continue
			}
			obs[i] = rt.Int64("v")
			o.ObserveInt64(c, obs[i], kv(i))
		}
		return nil
	}, c)
	var sd, sc seen
	for k := 0; k < rt.Param("collects", 4); k++ {
		if rt.Choose("reader", 2) == 0 {
			sd.judge(rd.Produce(nil), "c", true, kind == 2, obs, 2)
		} else {
			sc.judge(rc.Produce(nil), "c", false, kind == 2, obs, 2)
		}
	}
}

// Reject: observations that are not allowed have no effect and do no harm.
func Reject() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(rt.Choose("delta", 2) == 1)))
	m, m2 := mp.Meter("m"), mp.Meter("m2")
	c, _ := m.Int64ObservableCounter("c")
	e, _ := m.Int64ObservableCounter("e")
	f, _ := m2.Int64ObservableCounter("f")
	nc, _ := noop.NewMeterProvider().Meter("x").Int64ObservableCounter("n")
	var kept apimetric.Observer
	what := rt.Choose("what", 4)
	v := rt.Int64("v")
	rt.Assume(v != 0)
	runs := 0
	reg, err := m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		runs++
		kept = o
		switch what {
		case 0:
			o.ObserveInt64(e, 7) // not declared
		case 1:
			o.ObserveInt64(f, 7) // another meter's
		case 2:
			o.ObserveInt64(nc, 7) // another SDK's
		}
		o.ObserveInt64(c, v)
		return nil
	}, c)
	rt.Assert(err == nil && reg != nil, "registration succeeds")
	for k := 0; k < 2; k++ {
		if k == 1 && what == 3 {
			kept.ObserveInt64(c, 99) // after the callback returned
			kept.ObserveInt64(c, 98, kv(0))
		}
		d := r.Produce(nil)
		rt.Assert(runs == k+1, "each collection runs the callback once")
		rt.Assert(len(h.Points(d, "e")) == 0 && len(h.Points(d, "f")) == 0, "a rejected observation has no effect")
		ps := h.Points(d, "c")
		rt.Assert(len(ps) <= 1, "a rejected observation has no effect")
		if len(ps) == 1 {
			rt.Assert(rt.Or(h.SumI(ps[0]) == v, h.SumI(ps[0]) == 0), "a rejected observation has no effect")
		} else {
			rt.Assert(k == 1, "the allowed observation is kept")
		}
	}
	// registrations that cannot work are refused
	cb := func(context.Context, apimetric.Observer) error { runs = 1000; return nil }
	_, err = m.RegisterCallback(cb, f)
	rt.Assert(err != nil, "an instrument of another meter is refused")
	_, err = m.RegisterCallback(cb, nc)
	rt.Assert(err != nil, "an instrument of another SDK is refused")
	_, err = m.RegisterCallback(cb)
	rt.Assert(err != nil, "a callback without instruments is refused")
	_, err = m.RegisterCallback(nil, c)
	rt.Assert(err != nil, "a nil callback is refused")
	r.Produce(nil)
	rt.Assert(runs == 3, "a refused callback never runs")
}

// Filter: a view that removes attributes adds up the sums of the observations
// that fall together, for every reader history.
func Filter() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta), view.WithClause(view.WithKeys([]attribute.Key{"a"}))))
	m := mp.Meter("m")
	c, _ := m.Int64ObservableUpDownCounter("c")
	var x, y int64
	var two bool
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		x, y = rt.Int64("x"), 0
		o.ObserveInt64(c, x, apimetric.WithAttributes(attribute.String("a", "1"), attribute.String("b", "1")))
		if two = rt.Choose("two", 2) == 1; two {
			y = rt.Int64("y")
			o.ObserveInt64(c, y, apimetric.WithAttributes(attribute.String("a", "1"), attribute.String("b", "2")))
		}
		return nil
	}, c)
	var prev int64
	for k := 0; k < rt.Param("collects", 3); k++ {
		d := r.Produce(nil)
		ps := h.Points(d, "c")
		rt.Assert(len(ps) <= 1, "one series remains")
		want := x + y
		if delta {
			want -= prev
			prev = x + y
		}
		if len(ps) == 0 {
			rt.Assert(rt.And(delta, want == 0), "nothing is lost")
			continue
		}
		rt.Assert(h.SumI(ps[0]) == want, "observations that fall together are added up")
		s := attribute.NewSet(attribute.String("a", "1"))
		rt.Assert(ps[0].Attributes.Equals(&s), "only the kept keys remain")
	}
}

// FilterConst: two declared instruments, two views of one of them.
func FilterConst() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta),
		view.WithClause(view.MatchInstrumentName("c"), view.WithName("c1")),
		view.WithClause(view.MatchInstrumentName("c"), view.WithName("c2"), view.WithKeys([]attribute.Key{})),
	))
	m := mp.Meter("m")
	c, _ := m.Int64ObservableUpDownCounter("c")
	e, _ := m.Int64ObservableUpDownCounter("e")
	var v, w int64
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		v, w = rt.Int64("v"), rt.Int64("w")
		o.ObserveInt64(c, v, kv(0))
		o.ObserveInt64(e, w, kv(0))
		return nil
	}, c, e)
	var pv, pw int64
	for k := 0; k < 2; k++ {
		d := r.Produce(nil)
		var wv, ww = v, w
		if delta {
			wv, ww = v-pv, w-pw
			pv, pw = v, w
		}
		one := func(name string, s attribute.Set, want int64) {
			ps := h.Points(d, name)
			if len(ps) == 0 {
				rt.Assert(rt.And(delta, want == 0), "every view reports")
				return
			}
			rt.Assert(len(ps) == 1 && ps[0].Attributes.Equals(&s), "one series")
			rt.Assert(h.SumI(ps[0]) == want, "every view reports the observation")
		}
		one("c1", set(0), wv)
		one("c2", attribute.NewSet(), wv)
		one("e", set(0), ww)
	}
}

// Conc: two readers collect at the same time.
func Conc() {
	rd, rc := metric.NewManualReader("d"), metric.NewManualReader("c")
	mp := h.Provider(metric.WithReader(rd, h.Delta()), metric.WithReader(rc, h.Cumulative()))
	m := mp.Meter("m")
	c := instrument(m, rt.Choose("kind", 2))
	v := rt.Int64("v")
	rt.Assume(v != 0)
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		o.ObserveInt64(c, v, kv(0))
		return nil
	}, c)
	for _, r := range []*metric.ManualReader{rd, rc} {
		r := r
		rt.Go(func() {
			ps := h.Points(r.Produce(nil), "c")
			rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == v, "concurrent readers each see the observation once")
		})
	}
	rt.Wait()
	ps := h.Points(rc.Produce(nil), "c")
	rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == v, "and again")
	ps = h.Points(rd.Produce(nil), "c")
	rt.Assert(len(ps) == 0 || h.SumI(ps[0]) == 0, "and no change")
}

// Escape: a goroutine keeps the observer and observes while the callback's
// collection finishes; the observation counts in that collection or not at all.
func Escape() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Tempo(rt.Choose("delta", 2) == 1)))
	m := mp.Meter("m")
	c := instrument(m, rt.Choose("kind", 3))
	late := rt.Choose("series", 2)
	fails := rt.Choose("fails", 2) == 1
	first := true
	m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		if first {
			o.ObserveInt64(c, 2, kv(0))
			first = false
			rt.Go(func() { o.ObserveInt64(c, 4, kv(late)) })
			if fails {
				return errors.New("failed")
			}
		}
		return nil
	}, c)
	d := r.Produce(nil)
	ps, qs := h.At(d, "c", set(0)), h.At(d, "c", set(1))
	rt.Assert(len(ps) == 1 && len(h.Points(d, "c")) == 1+len(qs), "what was observed in time is reported")
	rt.ObsInt("first", val(ps[0]))
	if late == 0 {
		rt.Assert(len(qs) == 0 && (val(ps[0]) == 2 || val(ps[0]) == 4), "one of the two observations")
	} else {
		rt.Assert(val(ps[0]) == 2, "the observation")
		rt.Assert(len(qs) == 0 || len(qs) == 1 && val(qs[0]) == 4, "the late observation or nothing")
	}
	rt.Wait()
	rt.Assert(len(h.Points(r.Produce(nil), "c")) == 0, "a late observation does not leak into another collection")
}

type wrapI struct{ apimetric.Int64ObservableCounter }

func (w wrapI) Unwrap() apimetric.Observable { return w.Int64ObservableCounter }

type wrapF struct{ apimetric.Float64ObservableGauge }

func (w wrapF) Unwrap() apimetric.Observable { return w.Float64ObservableGauge }

// Global: instruments and callbacks made with the global provider before the SDK
// was installed work as if made with the SDK, alone or with one of the SDK's own.
func Global() {
	g := otel.GetMeterProvider().Meter("m")
	kind := sdkinstrument.Kind(rt.Choose("kind", int(sdkinstrument.NumKinds)))
	float := rt.Choose("float", 2) == 1
	rec, err := h.Make(g, kind, float, "a", apimetric.WithDescription("d"), apimetric.WithUnit("u"))
	rt.Assert(err == nil, "the instrument is made")
	c, _ := g.Int64ObservableCounter("c")
	f, _ := g.Float64ObservableGauge("f")
	v := rt.Int64("v")
	rt.Assume(rt.And(v > 0, v < 1000))
	runs := 0
	cb := func(_ context.Context, o apimetric.Observer) error {
		runs++
		o.ObserveInt64(c, v)
		o.ObserveFloat64(f, 2.5)
		return nil
	}
	var reg apimetric.Registration
	early := rt.Choose("early", 2) == 1
	if early {
		reg, err = g.RegisterCallback(cb, c, f)
		rt.Assert(err == nil, "the registration succeeds")
	}
	r := metric.NewManualReader("r")
	otel.SetMeterProvider(h.Provider(metric.WithReader(r, h.Tempo(rt.Choose("delta", 2) == 1))))
	if !early {
		m := g
		if rt.Choose("direct", 2) == 1 {
			// instruments of the SDK that another library has wrapped
			m = otel.GetMeterProvider().Meter("m")
			di, _ := m.Int64ObservableCounter("c")
			df, _ := m.Float64ObservableGauge("f")
			c, f = wrapI{di}, wrapF{df}
		}
		reg, err = m.RegisterCallback(cb, c, f)
		rt.Assert(err == nil, "the registration succeeds")
	}
	rec(3, attribute.Int("k", 1))
	d := r.Produce(nil)
	is := h.Insts(d, "a")
	rt.Assert(len(is) == 1 && is[0].Descriptor.Kind == kind && is[0].Descriptor.Unit == "u" && is[0].Descriptor.Description == "d", "the instrument is that of the SDK")
	rt.Assert(len(is[0].Points) == 1 && h.Value(is[0].Points[0], float) == 3, "its measurement is reported")
	rt.Assert(runs == 1, "the callback runs once")
	ps := h.Points(d, "c")
	rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == v, "the observation is reported")
	fs := h.Points(d, "f")
	rt.Assert(len(fs) == 1 && number.ToFloat64(fs[0].Aggregation.(aggregation.Gauge).Gauge()) == 2.5, "the observation is reported")
	rt.Assert(reg.Unregister() == nil, "the callback is unregistered")
	r.Produce(nil)
	rt.Assert(runs == 1, "and does not run again")
}
