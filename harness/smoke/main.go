package main

import (
	"context"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/sum"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

func main() {
	rt.Run(map[string]func(){"Lock2": Lock2, "Seq": Seq, "Conc": Conc, "Dpor": Dpor, "Dpor2": Dpor2, "Dpor3": Dpor3, "Dpor4": Dpor4})
}

func total(d data.Metrics) (int64, int) {
	var t int64
	n := 0
	for _, s := range d.Scopes {
		for _, i := range s.Instruments {
			for _, p := range i.Points {
				t += number.ToInt64(p.Aggregation.(*sum.MonotonicInt64).Sum())
				n++
			}
		}
	}
	return t, n
}

func Seq() {
	rdr := metric.NewManualReader("r")
	mp := metric.NewMeterProvider(metric.WithReader(rdr), metric.WithResource(resource.Empty()))
	c, err := mp.Meter("m").Int64Counter("c")
	rt.Assert(err == nil, "no error")
	ctx := context.Background()
	a, b := rt.Int64("a"), rt.Int64("b")
	rt.Assume(a >= 0)
	rt.Assume(b >= 0)
	s := rt.String("s", 1)
	c.Add(ctx, a, apimetric.WithAttributes(attribute.String("k", s)))
	c.Add(ctx, b, apimetric.WithAttributes(attribute.String("k", "v")))
	t, n := total(rdr.Produce(nil))
	rt.Assert(t == a+b, "sum is conserved")
	rt.Assert(n <= 2, "at most two points")
	rt.ObsInt("t", t)
	rt.ObsInt("n", int64(n))
	if n == 1 {
		rt.Reach("merged")
	} else {
		rt.Reach("split")
	}
}

func Conc() {
	rdr := metric.NewManualReader("r")
	mp := metric.NewMeterProvider(metric.WithReader(rdr), metric.WithResource(resource.Empty()))
	c, _ := mp.Meter("m").Int64Counter("c")
	ctx := context.Background()
	a, b := rt.Int64("a"), rt.Int64("b")
	rt.Assume(a >= 0)
	rt.Assume(b >= 0)
	rt.Go(func() { c.Add(ctx, a) })
	rt.Go(func() { c.Add(ctx, b) })
	rt.Wait()
	t, _ := total(rdr.Produce(nil))
	rt.Assert(t == a+b, "sum is conserved")
	rt.ObsInt("t", t)
}
