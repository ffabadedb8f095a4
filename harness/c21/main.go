// Package c21: the API may be used from any number of goroutines, and from the
// functions the SDK calls, without races, deadlocks or panics, and every call
// has its effect.
package main

import (
	"context"
	"errors"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){"API": API, "Reenter": Reenter, "Handler": Handler, "Conflict": Conflict})
}

type world struct {
	mp     *metric.MeterProvider
	m      apimetric.Meter
	r1, r2 *metric.ManualReader
	c      apimetric.Int64Counter
	hist   apimetric.Float64Histogram
	obs    apimetric.Int64ObservableGauge
	reg    apimetric.Registration

	// what the delta reader r1 collected of "c" while the threads ran
	got [4]int64
}

func newWorld() *world {
	w := &world{r1: metric.NewManualReader("r1"), r2: metric.NewManualReader("r2")}
	w.mp = h.Provider(metric.WithReader(w.r1, h.Delta()), metric.WithReader(w.r2, h.Cumulative()),
		metric.WithPerformance(sdkinstrument.Performance{InactiveCollectionPeriods: 1}))
	w.m = w.mp.Meter("m")
	w.c, _ = w.m.Int64Counter("c")
	w.hist, _ = w.m.Float64Histogram("h")
	w.obs, _ = w.m.Int64ObservableGauge("g")
	w.reg, _ = w.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		o.ObserveInt64(w.obs, 3)
		return nil
	}, w.obs)
	return w
}

// op is one use of the API; v is what it adds to "c".
func (w *world) op(n, thread int, v int64) int64 {
	switch n {
	case 0:
		w.c.Add(h.Ctx, v, h.KV("k", "x"))
		return v
	case 1:
		c, err := w.m.Int64Counter("c")
		rt.Assert(err == nil, "the same instrument again")
		c.Add(h.Ctx, v)
		return v
	case 2:
		c, err := w.mp.Meter("m").Int64Counter("c")
		rt.Assert(err == nil, "the same meter and instrument again")
		c.Add(h.Ctx, v, h.KV("k", "y"))
		return v
	case 3:
		c, err := w.mp.Meter("other").Int64Counter("c")
		rt.Assert(err == nil, "another meter")
		c.Add(h.Ctx, v)
		return v
	case 4:
		w.got[thread] += h.TotalI(w.r1.Produce(nil), "c")
	case 5:
		w.r2.Produce(nil)
	case 6:
		reg, err := w.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			o.ObserveInt64(w.obs, 4, apimetric.WithAttributes(attribute.Int("n", thread)))
			return nil
		}, w.obs)
		rt.Assert(err == nil, "register")
		rt.Assert(reg.Unregister() == nil, "unregister")
	case 7:
		w.reg.Unregister()
	case 8:
		g, err := w.m.Float64ObservableCounter("new", apimetric.WithFloat64Callback(func(_ context.Context, o apimetric.Float64Observer) error {
			o.Observe(5)
			return nil
		}))
		rt.Assert(err == nil && g != nil, "a new instrument")
	case 9:
		rt.Assert(w.mp.ForceFlush(h.Ctx) == nil, "flush")
	case 10:
		w.hist.Record(h.Ctx, 2)
	case 11:
		// a conflict is reported and the instrument still works
		c, err := w.m.Int64Counter("h")
		rt.Assert(err != nil, "the conflict is reported")
		c.Add(h.Ctx, 1)
	case 12:
		// the same with a description, which the output takes
		c, err := w.m.Int64Counter("h", apimetric.WithDescription("described"))
		rt.Assert(err != nil, "the conflict is reported")
		c.Add(h.Ctx, 1)
	}
	return 0
}

const numOps = 13

// API: two (or more) threads, each with any use of the API.
func API() {
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(error) {}))
	w := newWorld()
	if rt.Choose("before", 2) == 1 {
		w.c.Add(h.Ctx, 1<<10, h.KV("k", "x"))
		w.got[3] = h.TotalI(w.r1.Produce(nil), "c")
	}
	n, ops := rt.Param("threads", 2), rt.Param("ops", numOps-1)
	var want [4]int64
	if w.got[3] != 0 {
		want[3] = 1 << 10
	}
	last := 0
	for t := 0; t < n; t++ {
		last += rt.Choose("op", ops-last)
		op := last
		v := rt.Int64("v")
		rt.Assume(v >= 0)
		rt.Go(func() { want[t] = w.op(op, t, v) })
	}
	rt.Wait()
	var total, got int64
	for t := range want {
		total += want[t]
		got += w.got[t]
	}
	d := w.r1.Produce(nil)
	got += h.TotalI(d, "c")
	rt.Assert(got == total, "every addition is delivered once to the delta reader")
	rt.Assert(h.TotalI(w.r2.Produce(nil), "c") == total, "every addition is delivered once to the cumulative reader")
	judge(d)
}

func judge(d data.Metrics) {
	for i, s := range d.Scopes {
		for j := range d.Scopes[:i] {
			rt.Assert(d.Scopes[j].Library != s.Library, "one report per scope")
		}
		for i, x := range s.Instruments {
			for j := range s.Instruments[:i] {
				rt.Assert(s.Instruments[j].Descriptor.Name != x.Descriptor.Name || s.Instruments[j].Descriptor.Kind != x.Descriptor.Kind, "one output per instrument")
			}
		}
	}
}

// use is any use of the API by a function that the SDK calls.
func (w *world) use(n int) {
	switch n {
	case 0:
		w.c.Add(h.Ctx, 1)
	case 1:
		c, err := w.m.Int64Counter("inner")
		rt.Assert(err == nil, "create")
		c.Add(h.Ctx, 1)
	case 2:
		c, err := w.mp.Meter("inner").Int64Counter("c")
		rt.Assert(err == nil, "create")
		c.Add(h.Ctx, 1)
	case 3:
		reg, err := w.m.RegisterCallback(func(context.Context, apimetric.Observer) error { return nil }, w.obs)
		rt.Assert(err == nil, "register")
		rt.Assert(reg.Unregister() == nil, "unregister")
	case 4:
		w.reg.Unregister()
	case 5:
		w.hist.Record(h.Ctx, 1, h.KV("inner", "x"))
	case 6:
		w.mp.ForceFlush(h.Ctx)
	case 7:
		w.mp.Shutdown(h.Ctx)
	}
}

const numUses = 8

// foreign is an instrument of another SDK.
type foreign struct{ apimetric.Int64Observable }

// Reenter: callbacks use the API.
func Reenter() {
	w := newWorld()
	use := rt.Choose("use", numUses)
	runs := 0
	w.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
		w.use(use)
		runs++
		o.ObserveInt64(w.obs, 9, apimetric.WithAttributes(attribute.Int("n", 1)))
		return nil
	}, w.obs)
	for i := 1; i <= 2; i++ {
		d := w.r1.Produce(nil)
		rt.Assert(runs == i && len(h.At(d, "g", h.Set(attribute.Int("n", 1)))) == 1, "the callback ran and its observation is reported")
	}
	w.r2.Produce(nil)
	rt.Assert(runs == 3, "the callback ran")
}

// Handler: the error handler uses the API.
func Handler() {
	w := newWorld()
	use := rt.Choose("use", numUses+2)
	calls := 0
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) {
		if calls++; calls == 1 {
			rt.Assert(err.Error() != "", "the error says something")
			switch use {
			case numUses:
				w.r1.Produce(nil)
			case numUses + 1:
				w.r2.Produce(nil)
			default:
				w.use(use)
			}
		}
	}))
	switch rt.Choose("error", 11) {
	case 0: // a conflict
		_, err := w.m.Int64Counter("h")
		rt.Assert(err != nil, "the conflict is reported")
	case 1: // a negative addition
		w.c.Add(h.Ctx, -1)
	case 2: // an empty key
		w.c.Add(h.Ctx, 1, h.KV("", "x"))
	case 3: // an empty key, observed, and an instrument that was not declared
		o2, _ := w.m.Int64ObservableGauge("g2")
		w.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			o.ObserveInt64(w.obs, 9, apimetric.WithAttributes(attribute.String("", "x")))
			o.ObserveInt64(o2, 9)
			return nil
		}, w.obs)
		w.r1.Produce(nil)
	case 4: // a callback fails
		w.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			return errors.New("failed")
		}, w.obs)
		w.r1.Produce(nil)
	case 5: // descriptions that are no hints, or not valid ones
		c, err := w.m.Int64Counter("hinted", apimetric.WithDescription("{"))
		rt.Assert(err == nil, "the instrument is created")
		c.Add(h.Ctx, 1)
	case 6:
		c, err := w.m.Int64Counter("hinted", apimetric.WithDescription(`{"aggregation":"unknown"}`))
		rt.Assert(err == nil, "the instrument is created")
		c.Add(h.Ctx, 1)
	case 7:
		c, err := w.m.Int64Counter("hinted", apimetric.WithDescription(`{"temporality":"unknown"}`))
		rt.Assert(err == nil, "the instrument is created")
		c.Add(h.Ctx, 1)
	case 8:
		c, err := w.m.Int64Histogram("hinted", apimetric.WithDescription(`{"config":{"histogram":{"max_size":1}}}`))
		rt.Assert(err == nil, "the instrument is created")
		c.Record(h.Ctx, 1)
	case 9: // an observation of an instrument of another SDK, and one after the callback returned
		var late apimetric.Observer
		w.m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			late = o
			o.ObserveInt64(foreign{}, 9)
			return nil
		}, w.obs)
		w.r1.Produce(nil)
		before := calls
		rt.Assert(before > 0, "the error is handled")
		late.ObserveInt64(w.obs, 9)
		rt.Assert(calls == before+1, "the error is handled")
	case 10: // a reader that is registered twice
		h.Provider(metric.WithReader(w.r1, h.Delta()))
	}
	rt.Assert(calls > 0, "the error is handled")
	rt.ObsInt("calls", int64(calls))
}

// Conflict: a conflict is described, by the handler or by the caller, while
// other goroutines define the instrument again.
func Conflict() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Delta()))
	m := mp.Meter("m")
	m.Float64Histogram("h")
	inHandler := rt.Choose("handler", 2) == 1
	named := func(err error) {
		rt.Assert(strings.Contains(err.Error(), "\"h\""), "the conflict names the instrument")
	}
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) {
		if inHandler {
			named(err)
		}
	}))
	if rt.Choose("before", 2) == 1 {
		_, err := m.Int64Counter("h", apimetric.WithDescription("x"))
		rt.Assert(err != nil, "the conflict is reported")
	}
	rt.Go(func() {
		_, err := m.Int64Counter("h")
		rt.Assert(err != nil, "the conflict is reported")
		if !inHandler {
			named(err)
		}
	})
	rt.Go(func() {
		c, err := m.Int64Counter("h", apimetric.WithDescription("described"))
		rt.Assert(err != nil, "the conflict is reported")
		c.Add(h.Ctx, 1)
	})
	if rt.Choose("collect", rt.Param("collect", 1)) == 1 {
		rt.Go(func() { r.Produce(nil) })
	}
	rt.Wait()
	for _, in := range h.Insts(r.Produce(nil), "h") {
		rt.Assert(in.Descriptor.NumberKind == number.Float64Kind || in.Descriptor.Description == "described", "the longer description is taken")
	}
}
