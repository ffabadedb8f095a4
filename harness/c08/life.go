package main

import (
	"context"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	apimetric "go.opentelemetry.io/otel/metric"
)

// Life: any history of registering, unregistering and collecting: each
// collection runs every registered callback exactly once and no other.
func Life() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Cumulative()))
	m := mp.Meter("m")
	c := instrument(m, 1)
	n := rt.Param("callbacks", 3)
	runs := make([]int, n)
	val := make([]int64, n)
	regs := make([]apimetric.Registration, n)
	live := make([]bool, n)
	steps := rt.Param("steps", 5)
	next := 0
	for s := 0; s <= steps; s++ {
		op := n + 1
		if s < steps {
			op = rt.Choose("op", n+2)
		}
		switch {
		case op < n: // unregister op (also twice)
			if regs[op] == nil {
				continue
			}
			err := regs[op].Unregister()
			rt.Assert((err == nil) == live[op], "unregistering twice is reported")
			live[op] = false
		case op == n: // register the next
			if next == n {
				continue
			}
			i := next
			next++
			var err error
			regs[i], err = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
				runs[i]++
				val[i] = rt.Int64("v")
				o.ObserveInt64(c, val[i], kv(i))
				return nil
			}, c)
			rt.Assert(err == nil, "registration succeeds")
			live[i] = true
		default:
			for i := range runs {
				runs[i] = 0
			}
			d := r.Produce(nil)
			for i := range runs {
				if live[i] {
					rt.Assert(runs[i] == 1, "a registered callback runs once per collection")
				} else {
					rt.Assert(runs[i] == 0, "an unregistered callback does not run")
				}
				ps := h.At(d, "c", set(i))
				rt.Assert((len(ps) == 1) == live[i], "its observations are reported")
				if len(ps) == 1 {
					rt.Assert(h.SumI(ps[0]) == val[i], "its observations are reported")
				}
			}
		}
	}
}

// UnregConc: one of n callbacks is unregistered while a reader collects.
func UnregConc() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Cumulative()))
	m := mp.Meter("m")
	c := instrument(m, 1)
	n := rt.Param("callbacks", 3)
	runs := make([]int, n)
	val := make([]int64, n)
	regs := make([]apimetric.Registration, n)
	for i := 0; i < n; i++ {
		i := i
		regs[i], _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			runs[i]++
			val[i] = rt.Int64("v")
			o.ObserveInt64(c, val[i], kv(i))
			return nil
		}, c)
	}
	victim := rt.Choose("victim", n)
	rt.Go(func() { r.Produce(nil) })
	rt.Go(func() { rt.Assert(regs[victim].Unregister() == nil, "unregister succeeds") })
	rt.Wait()
	for i := range runs {
		if i == victim {
			rt.Assert(runs[i] <= 1, "an unregistered callback runs at most once")
		} else {
			rt.Assert(runs[i] == 1, "other callbacks run exactly once")
		}
		runs[i] = 0
	}
	d := r.Produce(nil)
	for i := range runs {
		want := 1
		if i == victim {
			want = 0
		}
		ps := h.At(d, "c", set(i))
		rt.Assert(len(ps) == want, "afterwards exactly their observations are reported")
		if want == 1 {
			rt.Assert(h.SumI(ps[0]) == val[i], "afterwards exactly their observations are reported")
		}
		rt.Assert(runs[i] == want, "afterwards exactly the registered callbacks run")
	}
}

// UnregTwo: two callbacks are unregistered (or one twice) concurrently.
func UnregTwo() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Cumulative()))
	m := mp.Meter("m")
	c := instrument(m, 1)
	n := 3
	runs := make([]int, n)
	val := make([]int64, n)
	regs := make([]apimetric.Registration, n)
	for i := 0; i < n; i++ {
		i := i
		regs[i], _ = m.RegisterCallback(func(_ context.Context, o apimetric.Observer) error {
			runs[i]++
			val[i] = rt.Int64("v")
			o.ObserveInt64(c, val[i], kv(i))
			return nil
		}, c)
	}
	x, y := rt.Choose("x", n), rt.Choose("y", n)
	var ex, ey error
	rt.Go(func() { ex = regs[x].Unregister() })
	rt.Go(func() { ey = regs[y].Unregister() })
	rt.Wait()
	if x == y {
		rt.Assert((ex == nil) != (ey == nil), "unregistering twice is reported")
	} else {
		rt.Assert(ex == nil && ey == nil, "unregister succeeds")
	}
	d := r.Produce(nil)
	for i := range runs {
		want := 1
		if i == x || i == y {
			want = 0
		}
		ps := h.At(d, "c", set(i))
		rt.Assert(len(ps) == want, "exactly their observations are reported")
		if want == 1 {
			rt.Assert(h.SumI(ps[0]) == val[i], "exactly their observations are reported")
		}
		rt.Assert(runs[i] == want, "exactly the registered callbacks run")
	}
}

// RegConc: a callback and an instrument are registered while a reader collects,
// another callback is unregistered.
func RegConc() {
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Cumulative()))
	m := mp.Meter("m")
	c := instrument(m, 1)
	var runs [3]int
	cb := func(i int) apimetric.Callback {
		return func(_ context.Context, o apimetric.Observer) error {
			runs[i]++
			o.ObserveInt64(c, int64(i+1), kv(i))
			return nil
		}
	}
	m.RegisterCallback(cb(0), c)
	old, _ := m.RegisterCallback(cb(1), c)
	rt.Go(func() { r.Produce(nil) })
	rt.Go(func() {
		_, err := m.RegisterCallback(cb(2), c)
		rt.Assert(err == nil, "registration succeeds")
		if rt.Param("both", 0) == 1 {
			old.Unregister()
		}
	})
	rt.Wait()
	rt.Assert(runs[0] == 1, "other callbacks run exactly once")
	if rt.Param("both", 0) == 0 {
		rt.Assert(runs[1] == 1, "other callbacks run exactly once")
	}
	rt.Assert(runs[1] <= 1 && runs[2] <= 1, "no callback runs twice")
	runs = [3]int{}
	d := r.Produce(nil)
	rt.Assert(runs[0] == 1 && runs[2] == 1, "registered callbacks run")
	rt.Assert(len(h.At(d, "c", set(2))) == 1, "and are reported")
}

// Single: callbacks given at construction of the instrument, for every kind.
func Single() {
	r := metric.NewManualReader("r")
	delta := rt.Choose("delta", 2) == 1
	mp := h.Provider(metric.WithReader(r, h.Tempo(delta)))
	m := mp.Meter("m")
	runs := [2]int{}
	v, w := rt.Int64("v"), rt.Int64("w")
	f, g := float64(rt.Choose("f", 3)), float64(rt.Choose("g", 3))
	icb := func(i int, x int64) apimetric.Int64Callback {
		return func(_ context.Context, o apimetric.Int64Observer) error { runs[i]++; o.Observe(x, kv(i)); return nil }
	}
	fcb := func(i int, x float64) apimetric.Float64Callback {
		return func(_ context.Context, o apimetric.Float64Observer) error { runs[i]++; o.Observe(x, kv(i)); return nil }
	}
	i0, i1 := apimetric.WithInt64Callback(icb(0, v)), apimetric.WithInt64Callback(icb(1, w))
	f0, f1 := apimetric.WithFloat64Callback(fcb(0, f)), apimetric.WithFloat64Callback(fcb(1, g))
	kind := rt.Choose("kind", 6)
	switch kind {
	case 0:
		m.Int64ObservableCounter("c", i0, i1)
	case 1:
		m.Int64ObservableUpDownCounter("c", i0, i1)
	case 2:
		m.Int64ObservableGauge("c", i0, i1)
	case 3:
		m.Float64ObservableCounter("c", f0, f1)
	case 4:
		m.Float64ObservableUpDownCounter("c", f0, f1)
	case 5:
		m.Float64ObservableGauge("c", f0, f1)
	}
	d := r.Produce(nil)
	rt.Assert(runs[0] == 1 && runs[1] == 1, "each callback runs once")
	for i := 0; i < 2; i++ {
		ps := h.At(d, "c", set(i))
		rt.Assert(len(ps) == 1, "each observation is reported")
		if kind < 3 {
			rt.Assert(val(ps[0]) == []int64{v, w}[i], "each observation is reported")
		} else if kind < 5 {
			rt.Assert(h.SumF(ps[0]) == []float64{f, g}[i], "each observation is reported")
		}
	}
}
