package hlib

import (
	"context"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
)

// Rec records, or sets what is observed in the collections to come.
type Rec func(v int64, kvs ...attribute.KeyValue)

type observation struct {
	v   int64
	kvs []attribute.KeyValue
}

// Make creates an instrument of any kind and number.
func Make(m apimetric.Meter, kind sdkinstrument.Kind, float bool, name string, opts ...apimetric.InstrumentOption) (Rec, error) {
	var obs []observation
	async := func(v int64, kvs ...attribute.KeyValue) { obs = append(obs, observation{v, kvs}) }
	icb := apimetric.Int64Callback(func(_ context.Context, o apimetric.Int64Observer) error {
		for _, x := range obs {
			o.Observe(x.v, apimetric.WithAttributes(x.kvs...))
		}
		return nil
	})
	fcb := apimetric.Float64Callback(func(_ context.Context, o apimetric.Float64Observer) error {
		for _, x := range obs {
			o.Observe(float64(x.v), apimetric.WithAttributes(x.kvs...))
		}
		return nil
	})
	switch {
	case kind == sdkinstrument.SyncCounter && !float:
		var oo []apimetric.Int64CounterOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Int64Counter(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) { c.Add(Ctx, v, apimetric.WithAttributes(kvs...)) }, err
	case kind == sdkinstrument.SyncCounter:
		var oo []apimetric.Float64CounterOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Float64Counter(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) { c.Add(Ctx, float64(v), apimetric.WithAttributes(kvs...)) }, err
	case kind == sdkinstrument.SyncUpDownCounter && !float:
		var oo []apimetric.Int64UpDownCounterOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Int64UpDownCounter(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) { c.Add(Ctx, v, apimetric.WithAttributes(kvs...)) }, err
	case kind == sdkinstrument.SyncUpDownCounter:
		var oo []apimetric.Float64UpDownCounterOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Float64UpDownCounter(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) { c.Add(Ctx, float64(v), apimetric.WithAttributes(kvs...)) }, err
	case kind == sdkinstrument.SyncGauge && !float:
		var oo []apimetric.Int64GaugeOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Int64Gauge(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) { c.Record(Ctx, v, apimetric.WithAttributes(kvs...)) }, err
	case kind == sdkinstrument.SyncGauge:
		var oo []apimetric.Float64GaugeOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Float64Gauge(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) {
			c.Record(Ctx, float64(v), apimetric.WithAttributes(kvs...))
		}, err
	case kind == sdkinstrument.SyncHistogram && !float:
		var oo []apimetric.Int64HistogramOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Int64Histogram(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) { c.Record(Ctx, v, apimetric.WithAttributes(kvs...)) }, err
	case kind == sdkinstrument.SyncHistogram:
		var oo []apimetric.Float64HistogramOption
		for _, o := range opts {
			oo = append(oo, o)
		}
		c, err := m.Float64Histogram(name, oo...)
		return func(v int64, kvs ...attribute.KeyValue) {
			c.Record(Ctx, float64(v), apimetric.WithAttributes(kvs...))
		}, err
	case kind == sdkinstrument.AsyncCounter && !float:
		oo := []apimetric.Int64ObservableCounterOption{apimetric.WithInt64Callback(icb)}
		for _, o := range opts {
			oo = append(oo, o)
		}
		_, err := m.Int64ObservableCounter(name, oo...)
		return async, err
	case kind == sdkinstrument.AsyncCounter:
		oo := []apimetric.Float64ObservableCounterOption{apimetric.WithFloat64Callback(fcb)}
		for _, o := range opts {
			oo = append(oo, o)
		}
		_, err := m.Float64ObservableCounter(name, oo...)
		return async, err
	case kind == sdkinstrument.AsyncUpDownCounter && !float:
		oo := []apimetric.Int64ObservableUpDownCounterOption{apimetric.WithInt64Callback(icb)}
		for _, o := range opts {
			oo = append(oo, o)
		}
		_, err := m.Int64ObservableUpDownCounter(name, oo...)
		return async, err
	case kind == sdkinstrument.AsyncUpDownCounter:
		oo := []apimetric.Float64ObservableUpDownCounterOption{apimetric.WithFloat64Callback(fcb)}
		for _, o := range opts {
			oo = append(oo, o)
		}
		_, err := m.Float64ObservableUpDownCounter(name, oo...)
		return async, err
	case kind == sdkinstrument.AsyncGauge && !float:
		oo := []apimetric.Int64ObservableGaugeOption{apimetric.WithInt64Callback(icb)}
		for _, o := range opts {
			oo = append(oo, o)
		}
		_, err := m.Int64ObservableGauge(name, oo...)
		return async, err
	default:
		oo := []apimetric.Float64ObservableGaugeOption{apimetric.WithFloat64Callback(fcb)}
		for _, o := range opts {
			oo = append(oo, o)
		}
		_, err := m.Float64ObservableGauge(name, oo...)
		return async, err
	}
}

// Value is the sum or the gauge of a point.
func Value(p data.Point, float bool) int64 {
	var n number.Number
	if g, ok := p.Aggregation.(aggregation.Gauge); ok {
		n = g.Gauge()
	} else {
		n = p.Aggregation.(aggregation.HasASum).Sum()
	}
	if float {
		return int64(number.ToFloat64(n))
	}
	return number.ToInt64(n)
}

// All returns every instrument of every scope.
func All(d data.Metrics) []data.Instrument {
	var out []data.Instrument
	for _, s := range d.Scopes {
		out = append(out, s.Instruments...)
	}
	return out
}
