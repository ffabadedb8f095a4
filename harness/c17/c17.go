// Harnesses for the periodic reader and the lifecycle of the provider.
package main

import (
	"context"
	"errors"
	"sync"
	"sync/atomic"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){"Export": Export, "Flush": Flush, "After": After, "Errors": Errors, "Twice": Twice, "Inert": Inert, "Ctx": Ctx})
}

// sink is a push exporter that adds up what it is given.
type sink struct {
	busy   int32
	total  int64
	calls  int
	closed int
	done   bool
	kinds  []string
	err    func(kind string) error
	slow   bool
	last   context.Context
}

func (s *sink) String() string { return "sink" }

func (s *sink) take(ctx context.Context, kind string, d data.Metrics) error {
	rt.Assert(s.busy == 0, "one export at a time")
	rt.Assert(s.closed == 0, "nothing is exported after the final export")
	rt.Assert(!s.done, "nothing is exported after the shutdown")
	s.busy++
	s.last = ctx
	v := h.TotalI(d, "c")
	if s.slow {
		rt.Yield()
		rt.Assert(h.TotalI(d, "c") == v, "the data does not change during the export")
	}
	atomic.AddInt64(&s.total, v)
	s.calls++
	s.kinds = append(s.kinds, kind)
	if kind == "shutdown" {
		s.closed++
	}
	s.busy--
	if s.err != nil {
		return s.err(kind)
	}
	return nil
}

func (s *sink) ExportMetrics(ctx context.Context, d data.Metrics) error {
	return s.take(ctx, "export", d)
}
func (s *sink) ShutdownMetrics(ctx context.Context, d data.Metrics) error {
	return s.take(ctx, "shutdown", d)
}
func (s *sink) ForceFlushMetrics(ctx context.Context, d data.Metrics) error {
	return s.take(ctx, "flush", d)
}

func value(name string) int64 {
	v := rt.Int64(name)
	rt.Assume(rt.And(v > 0, v < 1<<40))
	return v
}

// Export: whatever the moments of the periodic exports, what was recorded before
// the shutdown has been exported once when it returns.
func Export() {
	rt.SetTicks(rt.Param("ticks", 2))
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(error) {
		rt.Assert(false, "no export fails when the exporter does not")
	}))
	s := &sink{slow: true}
	mp := h.Provider(metric.WithReader(metric.NewPeriodicReader(s, time.Second), h.Delta()))
	c, _ := mp.Meter("m").Int64Counter("c")
	var sum int64
	for i := 0; i < rt.Param("adds", 2); i++ {
		v := value("v")
		sum += v
		c.Add(h.Ctx, v)
	}
	err := mp.Shutdown(h.Ctx)
	rt.Assert(err == nil, "the shutdown succeeds")
	rt.Assert(s.closed == 1, "the final data is exported once")
	rt.Assert(s.total == sum, "everything recorded is exported exactly once")
	s.done = true
	c.Add(h.Ctx, 1)
	rt.Wait()
}

// Flush: a flush returns after the data recorded before it was exported, while
// periodic exports go on.
func Flush() {
	rt.SetTicks(rt.Param("ticks", 1))
	s := &sink{slow: true}
	mp := h.Provider(metric.WithReader(metric.NewPeriodicReader(s, time.Second), h.Delta()))
	c, _ := mp.Meter("m").Int64Counter("c")
	v, w := value("v"), value("w")
	c.Add(h.Ctx, v)
	two := rt.Choose("two", 2) == 1
	var wg sync.WaitGroup
	if two {
		wg.Add(1)
		rt.Go(func() {
			rt.Assert(mp.ForceFlush(h.Ctx) == nil, "the flush succeeds")
			wg.Done()
		})
	}
	rt.Assert(mp.ForceFlush(h.Ctx) == nil, "the flush succeeds")
	rt.Assert(atomic.LoadInt64(&s.total) == v, "what was recorded before a flush is exported when it returns")
	c.Add(h.Ctx, w)
	wg.Wait()
	rt.Assert(mp.Shutdown(h.Ctx) == nil, "the shutdown succeeds")
	rt.Assert(s.total == v+w, "everything recorded is exported exactly once")
	s.done = true
}

// After: flushes and recordings concurrent with a shutdown or after it.
func After() {
	rt.SetTicks(rt.Param("ticks", 1))
	s := &sink{slow: true}
	mp := h.Provider(metric.WithReader(metric.NewPeriodicReader(s, time.Second), h.Delta()))
	c, _ := mp.Meter("m").Int64Counter("c")
	v := value("v")
	c.Add(h.Ctx, v)
	w := value("w")
	switch rt.Choose("with", 3) {
	case 0:
		rt.Go(func() { _ = mp.ForceFlush(h.Ctx) })
	case 1:
		rt.Go(func() { c.Add(h.Ctx, w) })
	case 2:
		n := 0
		rt.Go(func() {
			if err := mp.Shutdown(h.Ctx); err != nil {
				rt.Assert(errors.Is(err, metric.ErrAlreadyShutdown), "a second shutdown is reported")
				n++
			}
		})
		if err := mp.Shutdown(h.Ctx); err != nil {
			rt.Assert(errors.Is(err, metric.ErrAlreadyShutdown), "a second shutdown is reported")
			n++
		}
		rt.Wait()
		rt.Assert(n == 1, "one of two shutdowns performs it")
		rt.Assert(s.closed == 1 && s.total == v, "the final data is exported once")
		return
	}
	rt.Assert(mp.Shutdown(h.Ctx) == nil, "the shutdown succeeds")
	t := s.total
	rt.Assert(rt.Or(t == v, t == v+w), "everything recorded before is exported exactly once")
	s.done = true
	_ = mp.ForceFlush(h.Ctx)
	rt.Wait()
}

// Errors: the errors of each reader's exporter are reported; one failing reader
// does not keep the others from being flushed or shut down.
func Errors() {
	rt.SetTicks(0)
	e := []error{errors.New("a"), errors.New("b")}
	op := []string{"flush", "shutdown"}[rt.Choose("op", 2)]
	var ss []*sink
	var bad []bool
	var opts []metric.Option
	n := 1 + rt.Choose("readers", 2)
	for i := 0; i < n; i++ {
		i := i
		f := rt.Choose("bad", 2) == 1
		bad = append(bad, f)
		s := &sink{}
		s.err = func(kind string) error {
			if f && kind == op {
				return e[i]
			}
			return nil
		}
		ss = append(ss, s)
		opts = append(opts, metric.WithReader(metric.NewPeriodicReader(s, time.Second), h.Delta()))
	}
	mp := h.Provider(opts...)
	c, _ := mp.Meter("m").Int64Counter("c")
	v := value("v")
	c.Add(h.Ctx, v)
	var err error
	if op == "flush" {
		err = mp.ForceFlush(h.Ctx)
	} else {
		err = mp.Shutdown(h.Ctx)
	}
	any := false
	for i := range ss {
		any = any || bad[i]
		rt.Assert(errors.Is(err, e[i]) == bad[i], "each error is reported")
		rt.Assert(ss[i].total == v && len(ss[i].kinds) == 1 && ss[i].kinds[0] == op, "every reader is flushed or shut down once")
	}
	rt.Assert((err != nil) == any, "no other error is reported")
	if op == "flush" {
		_ = mp.Shutdown(h.Ctx)
	}
}

// Twice: a reader registered with a second provider keeps serving the first.
func Twice() {
	rt.SetTicks(0)
	v, w := value("v"), value("w")
	if rt.Choose("manual", 2) == 1 {
		r := metric.NewManualReader("r")
		m1, m2 := h.Provider(metric.WithReader(r, h.Delta())), h.Provider(metric.WithReader(r, h.Delta()))
		c1, _ := m1.Meter("m").Int64Counter("c")
		c2, _ := m2.Meter("m").Int64Counter("c")
		c1.Add(h.Ctx, v)
		c2.Add(h.Ctx, w)
		rt.Assert(h.TotalI(r.Produce(nil), "c") == v, "the reader serves the provider that registered it first")
		return
	}
	s := &sink{}
	r := metric.NewPeriodicReader(s, time.Second)
	m1, m2 := h.Provider(metric.WithReader(r, h.Delta())), h.Provider(metric.WithReader(r, h.Delta()))
	c1, _ := m1.Meter("m").Int64Counter("c")
	c2, _ := m2.Meter("m").Int64Counter("c")
	c1.Add(h.Ctx, v)
	c2.Add(h.Ctx, w)
	rt.Assert(m1.ForceFlush(h.Ctx) == nil && s.total == v, "the reader serves the provider that registered it first")
	_ = m1.Shutdown(h.Ctx)
}

// Inert: meters obtained after the shutdown do nothing; those obtained before may
// still be used and collected by hand.
func Inert() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Delta()))
	m := mp.Meter("m")
	c, _ := m.Int64Counter("c")
	same := rt.Choose("same", 2) == 1
	v := value("v")
	c.Add(h.Ctx, v)
	rt.Assert(mp.Shutdown(h.Ctx) == nil, "the shutdown succeeds")
	rt.Assert(errors.Is(mp.Shutdown(h.Ctx), metric.ErrAlreadyShutdown), "a second shutdown is reported")
	late := mp.Meter([]string{"n", "m"}[rt.Choose("name", 2)])
	d, err := late.Int64Counter([]string{"d", "c"}[b2i(same)])
	rt.Assert(err == nil, "instruments can be created after the shutdown")
	d.Add(h.Ctx, value("w"))
	g, err := late.Int64ObservableGauge("g", apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
		rt.Fail("a callback registered after the shutdown runs")
		return nil
	}))
	rt.Assert(err == nil && g != nil, "instruments can be created after the shutdown")
	out := r.Produce(nil)
	rt.Assert(h.TotalI(out, "c") == v && len(h.Insts(out, "d")) == 0 && len(h.Insts(out, "g")) == 0, "a meter obtained after the shutdown has no effect")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type key struct{}

// Ctx: the context of the caller reaches the exporter; periodic exports have a
// deadline and are canceled by the shutdown.
func Ctx() {
	rt.SetTicks(1)
	s := &sink{}
	mp := h.Provider(metric.WithReader(metric.NewPeriodicReader(s, time.Second), h.Delta()))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(h.Ctx, 1)
	ctx := context.WithValue(h.Ctx, key{}, "k")
	s.err = func(kind string) error {
		_, has := s.last.Deadline()
		if kind == "export" {
			rt.Assert(has, "a periodic export has a deadline")
		} else {
			rt.Assert(s.last.Value(key{}) == "k", "the caller's context is passed on")
			rt.Assert(s.last.Err() == nil, "the caller's context is not canceled")
		}
		return nil
	}
	rt.Assert(mp.ForceFlush(ctx) == nil, "the flush succeeds")
	rt.Assert(mp.Shutdown(ctx) == nil, "the shutdown succeeds")
}
