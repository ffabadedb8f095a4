// Package hlib holds helpers shared by the harnesses: they read collected
// data through the exported API only.
package hlib

import (
	"context"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/view"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

var Ctx = context.Background()

// Delta makes every instrument kind use delta temporality.
func Delta() view.Option {
	return view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.DeltaTemporality })
}

// Cumulative makes every instrument kind use cumulative temporality.
func Cumulative() view.Option {
	return view.WithDefaultAggregationTemporalitySelector(func(sdkinstrument.Kind) aggregation.Temporality { return aggregation.CumulativeTemporality })
}

func DefAgg(k aggregation.Kind) view.Option {
	return view.WithDefaultAggregationKindSelector(func(sdkinstrument.Kind) aggregation.Kind { return k })
}

func Tempo(delta bool) view.Option {
	if delta {
		return Delta()
	}
	return Cumulative()
}

// Provider makes a provider with an empty resource.
func Provider(opts ...metric.Option) *metric.MeterProvider {
	return metric.NewMeterProvider(append([]metric.Option{metric.WithResource(resource.Empty())}, opts...)...)
}

// Insts returns the instruments named n of every scope.
func Insts(d data.Metrics, n string) []data.Instrument {
	var out []data.Instrument
	for _, s := range d.Scopes {
		for _, i := range s.Instruments {
			if i.Descriptor.Name == n {
				out = append(out, i)
			}
		}
	}
	return out
}

// Points returns the points of the instruments named n.
func Points(d data.Metrics, n string) []data.Point {
	var out []data.Point
	for _, i := range Insts(d, n) {
		out = append(out, i.Points...)
	}
	return out
}

// At returns the points of instrument n whose attribute set equals set.
func At(d data.Metrics, n string, set attribute.Set) []data.Point {
	var out []data.Point
	for _, p := range Points(d, n) {
		if p.Attributes.Equals(&set) {
			out = append(out, p)
		}
	}
	return out
}

func SumI(p data.Point) int64 {
	return number.ToInt64(p.Aggregation.(aggregation.HasASum).Sum())
}
func SumF(p data.Point) float64 {
	return number.ToFloat64(p.Aggregation.(aggregation.HasASum).Sum())
}

func Count(p data.Point) uint64 {
	switch a := p.Aggregation.(type) {
	case aggregation.Histogram:
		return a.Count()
	case aggregation.MinMaxSumCount:
		return a.Count()
	}
	return 0
}

// TotalI adds up every point of instrument n.
func TotalI(d data.Metrics, n string) int64 {
	var t int64
	for _, p := range Points(d, n) {
		t += SumI(p)
	}
	return t
}

func TotalCount(d data.Metrics, n string) uint64 {
	var t uint64
	for _, p := range Points(d, n) {
		t += Count(p)
	}
	return t
}

func KV(k, v string) apimetric.MeasurementOption {
	return apimetric.WithAttributes(attribute.String(k, v))
}

func Set(kvs ...attribute.KeyValue) attribute.Set { return attribute.NewSet(kvs...) }

func Perf(inactive uint32) metric.Option {
	return metric.WithPerformance(sdkinstrument.Performance{InactiveCollectionPeriods: inactive})
}
