// Package c26: the Prometheus exporter publishes what is collected.
package main

import (
	"context"
	"errors"
	"strings"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/prom"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/prometheusexporter"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	metricnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/resource"
	tracenoop "go.opentelemetry.io/otel/trace/noop"
)

func main() {
	rt.Run(map[string]func(){"Create": Create, "Values": Values, "Close": Close, "Periodic": Periodic, "Self": Self})
}

var failures = []error{nil, errors.New("first"), errors.New("second")}

func start(opts ...prom.Option) (metric.PushExporter, *prometheusexporter.Probe, error) {
	p := &prometheusexporter.Probe{}
	prometheusexporter.Next = func() *prometheusexporter.Probe { return p }
	e, err := prom.NewExporter(h.Ctx, prom.NewConfig(opts...))
	return e, p, err
}

// Create: the configured port, and failures of the exporter.
func Create() {
	otel.SetMeterProvider(metricnoop.NewMeterProvider())
	otel.SetTracerProvider(tracenoop.NewTracerProvider())
	p := &prometheusexporter.Probe{}
	made := 0
	prometheusexporter.Next = func() *prometheusexporter.Probe { made++; return p }
	p.CreateErr = failures[rt.Choose("create", 2)]
	p.StartErr = failures[rt.Choose("start", 2)]
	var opts []prom.Option
	want := "0.0.0.0:9090"
	switch rt.Choose("port", 4) {
	case 1:
		opts, want = []prom.Option{prom.WithPort(0)}, "0.0.0.0:0"
	case 2:
		opts, want = []prom.Option{prom.WithPort(65535), nil}, "0.0.0.0:65535"
	case 3:
		opts, want = []prom.Option{prom.WithPort(1), prom.WithPort(8888)}, "0.0.0.0:8888"
	}
	e, err := prom.NewExporter(h.Ctx, prom.NewConfig(opts...))
	rt.Assert((err != nil) == (p.CreateErr != nil || p.StartErr != nil), "a failure is returned")
	rt.Assert(made == 1, "one exporter is made")
	rt.Assert(p.Config.Endpoint == want, "it listens on the configured port")
	rt.Assert(p.Config.ResourceToTelemetrySettings.Enabled, "the resource is published")
	if err == nil {
		rt.Assert(e != nil && p.Started == 1 && p.Stopped == 0, "it is started once")
	}
}

// Values: what is collected is what is published; histograms have explicit bounds.
func Values() {
	otel.SetMeterProvider(metricnoop.NewMeterProvider())
	otel.SetTracerProvider(tracenoop.NewTracerProvider())
	e, p, err := start()
	rt.Assert(err == nil, "it starts")
	var got []pmetric.Metrics
	p.Metrics = func(_ context.Context, m pmetric.Metrics) error {
		got = append(got, m)
		return nil
	}
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r, h.Cumulative()), metric.WithResource(resource.NewSchemaless(attribute.String("res", "yes"))))
	m := mp.Meter("m", apimetric.WithInstrumentationVersion("v1"))
	kind := rt.Choose("kind", 5)
	float := rt.Choose("float", 2) == 1
	var total int64
	n := 1 + rt.Choose("exports", rt.Param("exports", 2))
	var rec func(int64)
	if kind == 4 {
		c, _ := m.Int64Histogram("c", apimetric.WithDescription(`{"aggregation":"minmaxsumcount"}`), apimetric.WithUnit("u"))
		rec = func(v int64) { c.Record(h.Ctx, v, h.KV("k", "x")) }
		if float {
			return
		}
	} else {
		k := []sdkinstrument.Kind{sdkinstrument.SyncCounter, sdkinstrument.SyncUpDownCounter, sdkinstrument.SyncGauge, sdkinstrument.SyncHistogram}[kind]
		r, _ := h.Make(m, k, float, "c", apimetric.WithUnit("u"))
		rec = func(v int64) { r(v) }
	}
	for i := 1; i <= n; i++ {
		v := rt.Int64("v")
		switch {
		case kind == 3 || float:
			v = []int64{1, 7, 1 << 20}[rt.Choose("value", 3)]
		default:
			rt.Assume(rt.And(v > 0, v < 1<<20))
		}
		total += v
		rec(v)
		d := r.Produce(nil)
		if rt.Choose("flush", 2) == 1 {
			rt.Assert(e.ForceFlushMetrics(h.Ctx, d) == nil, "flushed")
		} else {
			rt.Assert(e.ExportMetrics(h.Ctx, d) == nil, "exported")
		}
		rt.Assert(len(got) == i, "each export publishes once")
		rms := got[i-1].ResourceMetrics()
		rt.Assert(rms.Len() == 1, "one resource")
		x, ok := rms.At(0).Resource().Attributes().Get("res")
		rt.Assert(ok && x.Str() == "yes", "the resource is published")
		rt.Assert(rms.At(0).ScopeMetrics().Len() == 1, "one scope")
		sm := rms.At(0).ScopeMetrics().At(0)
		rt.Assert(sm.Scope().Name() == "m" && sm.Scope().Version() == "v1", "the scope is published")
		rt.Assert(sm.Metrics().Len() == 1, "one metric")
		o := sm.Metrics().At(0)
		rt.Assert(o.Name() == "c" && o.Unit() == "u", "name and unit")
		switch kind {
		case 0, 1:
			rt.Assert(o.Type() == pmetric.MetricTypeSum && o.Sum().IsMonotonic() == (kind == 0), "counters are published as counters")
			rt.Assert(o.Sum().AggregationTemporality() == pmetric.AggregationTemporalityCumulative, "totals since the start")
			rt.Assert(o.Sum().DataPoints().Len() == 1, "one point")
			same(o.Sum().DataPoints().At(0), float, total)
		case 2:
			rt.Assert(o.Type() == pmetric.MetricTypeGauge && o.Gauge().DataPoints().Len() == 1, "gauges are published as gauges")
			same(o.Gauge().DataPoints().At(0), float, v)
		case 3, 4:
			rt.Assert(o.Type() == pmetric.MetricTypeHistogram, "histograms are published with explicit bounds")
			rt.Assert(o.Histogram().AggregationTemporality() == pmetric.AggregationTemporalityCumulative, "totals since the start")
			rt.Assert(o.Histogram().DataPoints().Len() == 1, "one point")
			q := o.Histogram().DataPoints().At(0)
			rt.Assert(q.Count() == uint64(i) && q.Sum() == float64(total), "count and sum")
			if kind == 3 {
				var sum uint64
				for k := 0; k < q.BucketCounts().Len(); k++ {
					sum += q.BucketCounts().At(k)
				}
				rt.Assert(sum == uint64(i), "the buckets add up to the count")
			}
		}
	}
	rt.Assert(p.Stopped == 0, "it keeps running")
}

func same(p pmetric.NumberDataPoint, float bool, v int64) {
	if float {
		rt.Assert(p.ValueType() == pmetric.NumberDataPointValueTypeDouble && p.DoubleValue() == float64(v), "the value is published")
	} else {
		rt.Assert(p.ValueType() == pmetric.NumberDataPointValueTypeInt && p.IntValue() == v, "the value is published")
	}
	rt.Assert(p.Timestamp() != pcommon.Timestamp(0), "with its time")
}

// Close: a shutdown publishes the final data and then closes; all errors are returned.
func Close() {
	otel.SetMeterProvider(metricnoop.NewMeterProvider())
	otel.SetTracerProvider(tracenoop.NewTracerProvider())
	e, p, _ := start()
	p.ShutdownErr = failures[rt.Choose("shutdown", 2)*2]
	exportErr := failures[rt.Choose("export", 2)]
	ctx := context.WithValue(h.Ctx, e, 1)
	n := 0
	p.Metrics = func(c context.Context, m pmetric.Metrics) error {
		rt.Assert(p.Stopped == 0, "nothing is published after the end")
		rt.Assert(m.DataPointCount() == 1, "the final data is published")
		rt.Assert(c.Value(e) == 1, "the caller's context is passed on")
		n++
		return exportErr
	}
	r := metric.NewManualReader("r")
	c, _ := h.Provider(metric.WithReader(r, h.Cumulative())).Meter("m").Int64Counter("c")
	c.Add(h.Ctx, 1)
	d := r.Produce(nil)
	before := rt.Choose("before", 2)
	if before == 1 {
		rt.Assert(errors.Is(e.ExportMetrics(ctx, d), exportErr), "the result of an export is returned")
	}
	err := e.ShutdownMetrics(ctx, d)
	rt.Assert(n == 1+before, "the final data is published once")
	rt.Assert(p.Stopped == 1, "it is closed once")
	rt.Assert((err == nil) == (exportErr == nil && p.ShutdownErr == nil), "it succeeds when both do")
	if exportErr != nil {
		rt.Assert(errors.Is(err, exportErr), "the export's error is returned")
	}
	if p.ShutdownErr != nil {
		rt.Assert(errors.Is(err, p.ShutdownErr), "the shutdown's error is returned")
	}
	rt.Assert(strings.Contains(e.String(), "prom"), "it has a name")
}

// Periodic: behind a periodic reader nothing is lost, whatever the ticks.
func Periodic() {
	otel.SetMeterProvider(metricnoop.NewMeterProvider())
	otel.SetTracerProvider(tracenoop.NewTracerProvider())
	rt.SetTicks(rt.Param("ticks", 2))
	e, p, _ := start()
	last := int64(0)
	p.Metrics = func(_ context.Context, m pmetric.Metrics) error {
		rt.Assert(p.Stopped == 0, "nothing is published after the end")
		if m.DataPointCount() == 0 {
			return nil
		}
		v := m.ResourceMetrics().At(0).ScopeMetrics().At(0).Metrics().At(0).Sum().DataPoints().At(0).IntValue()
		rt.Assert(v >= last, "totals never decrease")
		last = v
		return nil
	}
	mp := h.Provider(metric.WithReader(metric.NewPeriodicReader(e, 1e9), h.Cumulative()))
	c, _ := mp.Meter("m").Int64Counter("c")
	var total int64
	for i, n := 0, 1+rt.Choose("n", 2); i < n; i++ {
		v := rt.Int64("v")
		rt.Assume(rt.And(v > 0, v < 1<<40))
		c.Add(h.Ctx, v)
		total += v
		if rt.Choose("flush", 2) == 1 {
			rt.Assert(mp.ForceFlush(h.Ctx) == nil, "flushed")
			rt.Assert(last == total, "a flush publishes everything")
		}
	}
	rt.Assert(mp.Shutdown(h.Ctx) == nil, "shut down")
	rt.Assert(last == total && p.Stopped == 1, "a shutdown publishes everything and closes")
}

// Self: exports are counted by their result where that is wanted.
func Self() {
	self := metric.NewManualReader("self")
	otel.SetMeterProvider(h.Provider(metric.WithReader(self, h.Cumulative())))
	otel.SetTracerProvider(tracenoop.NewTracerProvider())
	want := rt.Choose("self", 2) == 1
	e, p, _ := start(func(c *prom.Config) { c.SelfMetrics = want })
	exportErr := failures[rt.Choose("fail", 2)]
	p.Metrics = func(context.Context, pmetric.Metrics) error { return exportErr }
	r := metric.NewManualReader("r")
	c, _ := h.Provider(metric.WithReader(r, h.Cumulative())).Meter("m").Int64Counter("c")
	n := rt.Choose("points", 3)
	for i := 0; i < n; i++ {
		c.Add(h.Ctx, 1, h.KV("k", []string{"a", "b"}[i]))
	}
	e.ExportMetrics(h.Ctx, r.Produce(nil))
	d := self.Produce(nil)
	if !want {
		rt.Assert(len(h.Insts(d, "otelsdk.telemetry.items")) == 0, "no metrics about itself")
		return
	}
	rt.Assert(h.TotalI(d, "otelsdk.telemetry.items") == int64(n), "each point is counted once")
	for _, q := range h.Points(d, "otelsdk.telemetry.items") {
		v, _ := q.Attributes.Value("state")
		rt.Assert(v.AsString() == map[bool]string{true: "ok", false: "error"}[exportErr == nil], "by its result")
		rt.Assert(q.Aggregation.Kind() == aggregation.MonotonicSumKind, "as a counter")
	}
}
