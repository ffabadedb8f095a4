// Package c24: problems are reported at once, and the same problem again only
// after its period.
package main

import (
	"errors"
	"math"
	"strings"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/internal/doevery"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel"
	apimetric "go.opentelemetry.io/otel/metric"
)

func main() {
	rt.Run(map[string]func(){"Problems": Problems, "Period": Period, "Conc": Conc, "Nested": Nested})
}

// last is when a problem was last reported: between these readings.
type last struct {
	ok       bool
	from, to time.Time
}

// skip: some time passes.
func skip() {
	d := rt.Int64("passes")
	rt.Assume(d >= 0)
	rt.Assume(d < 1<<20)
	rt.Skip(d)
}

// judge: reported between the readings t0 and t1?
func (l *last) judge(period time.Duration, reported bool, t0, t1 time.Time) {
	if !l.ok {
		rt.Assert(reported, "a problem is reported at once")
	} else if reported {
		rt.Assert(t1.Sub(l.from) > period, "a problem is not reported again within its period")
	} else {
		rt.Assert(t0.Sub(l.to) <= period, "a problem that goes on after its period is reported again")
	}
	if reported {
		*l = last{true, t0, t1}
	}
}

// Problems: invalid measurements, at any times.
func Problems() {
	var got []error
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) { got = append(got, err) }))
	r := metric.NewManualReader("r")
	m := h.Provider(metric.WithReader(r, h.Cumulative())).Meter("m")
	c, _ := m.Float64Counter("the_counter")
	u, _ := m.Float64UpDownCounter("the_updown")
	hi, _ := m.Int64Histogram("the_histogram")
	var seen [4]last
	for i, n := 0, rt.Param("ops", 3); i < n; i++ {
		skip()
		t0 := time.Now()
		got = nil
		var want error
		name := "the_counter"
		k := rt.Choose("problem", 8)
		p := 0
		period := 30 * time.Second
		switch k {
		case 0:
			c.Add(h.Ctx, math.NaN())
			want, p = aggregator.ErrNaNInput, 0
		case 1:
			u.Add(h.Ctx, math.NaN())
			want, p, name = aggregator.ErrNaNInput, 0, "the_updown"
		case 2:
			c.Add(h.Ctx, math.Inf(1))
			want, p = aggregator.ErrInfInput, 1
		case 3:
			u.Add(h.Ctx, math.Inf(-1))
			want, p, name = aggregator.ErrInfInput, 1, "the_updown"
		case 4:
			c.Add(h.Ctx, -1)
			want, p = aggregator.ErrNegativeInput, 2
		case 5:
			hi.Record(h.Ctx, -1)
			want, p, name = aggregator.ErrNegativeInput, 2, "the_histogram"
		case 6:
			u.Add(h.Ctx, -1)
			p = -1
		case 7:
			// (an empty key is seen when a series is created)
			c.Add(h.Ctx, 1, h.KV("", string(rune('a'+i))))
			p, period = 3, time.Minute
		}
		t1 := time.Now()
		rt.Assert(len(got) <= 1, "one report per problem")
		if p < 0 {
			rt.Assert(len(got) == 0, "valid measurements are not reported")
			continue
		}
		seen[p].judge(period, len(got) == 1, t0, t1)
		if len(got) == 1 {
			rt.Assert(want == nil || errors.Is(got[0], want), "the report names the problem")
			rt.Assert(strings.Contains(got[0].Error(), name), "the report names the instrument")
		}
	}
}

// Period: two places, any times, two periods.
func Period() {
	var seen [2]last
	for i, n := 0, rt.Param("ops", 4); i < n; i++ {
		skip()
		t0 := time.Now()
		done := false
		k := rt.Choose("place", 2)
		period := []time.Duration{time.Second, 10 * time.Second}[k]
		if k == 0 {
			doevery.TimePeriod(time.Second, func() { done = true })
		} else {
			doevery.TimePeriod(10*time.Second, func() { done = true })
		}
		t1 := time.Now()
		seen[k].judge(period, done, t0, t1)
	}
}

func place(f func()) { doevery.TimePeriod(1000*time.Hour, f) }

// Conc: several goroutines with the same problem: one report.
func Conc() {
	n := 0
	var got [3]int
	for t, ts := 0, rt.Param("threads", 2); t < ts; t++ {
		rt.Go(func() {
			place(func() { got[t]++ })
			place(func() { got[t]++ })
		})
	}
	rt.Wait()
	for _, g := range got {
		n += g
	}
	rt.Assert(n == 1, "one report")
}

// Nested: a report that has the problem itself, or another one.
func Nested() {
	n := 0
	c, _ := h.Provider(metric.WithReader(metric.NewManualReader("r"), h.Cumulative())).Meter("m").Float64Counter("c")
	two := rt.Choose("other", 2) == 1
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(error) {
		n++
		rt.Assert(n < 5, "reports end")
		if two {
			c.Add(h.Ctx, -1, apimetric.WithAttributes())
		} else {
			c.Add(h.Ctx, math.NaN())
		}
	}))
	c.Add(h.Ctx, math.NaN())
	rt.Assert(n == map[bool]int{true: 2, false: 1}[two], "each problem is reported once")
}
