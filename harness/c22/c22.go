// Harnesses for the metric and trace pipelines and for the launcher. The
// collector's exporter and batcher and the reader of environment variables are
// replaced by stand-ins.
package main

import (
	"context"
	"errors"
	"time"

	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/pipelines"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter"
	"github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor"
	"go.opentelemetry.io/collector/config/configopaque"
	"go.opentelemetry.io/collector/config/configtls"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/propagation"
	"go.opentelemetry.io/otel/sdk/resource"
	"go.opentelemetry.io/otel/trace"
)

func main() {
	rt.Run(map[string]func(){"Temporality": Temporality, "Period": Period, "Dest": Dest, "Traces": Traces, "Propagators": Propagators, "Failures": Failures})
}

type stands struct {
	exp map[string]*otelarrowexporter.Probe
	bat map[string]*concurrentbatchprocessor.Probe
}

func stand() *stands {
	s := &stands{exp: map[string]*otelarrowexporter.Probe{}, bat: map[string]*concurrentbatchprocessor.Probe{}}
	otelarrowexporter.Next = func(k string) *otelarrowexporter.Probe {
		if s.exp[k] == nil {
			s.exp[k] = &otelarrowexporter.Probe{}
		}
		return s.exp[k]
	}
	concurrentbatchprocessor.Next = func(k string) *concurrentbatchprocessor.Probe {
		if s.bat[k] == nil {
			s.bat[k] = &concurrentbatchprocessor.Probe{}
		}
		return s.bat[k]
	}
	return s
}

func (s *stands) metrics() *otelarrowexporter.Probe {
	p := otelarrowexporter.Next("metrics")
	return p
}

// metricsOf collects what the exporter is sent.
func (s *stands) watch(got *[]pmetric.Metrics) {
	s.metrics().Metrics = func(_ context.Context, m pmetric.Metrics) error {
		*got = append(*got, m)
		return nil
	}
}

func find(got []pmetric.Metrics, name string) (out []pmetric.Metric) {
	for _, g := range got {
		for i := 0; i < g.ResourceMetrics().Len(); i++ {
			r := g.ResourceMetrics().At(i)
			for j := 0; j < r.ScopeMetrics().Len(); j++ {
				ms := r.ScopeMetrics().At(j).Metrics()
				for k := 0; k < ms.Len(); k++ {
					if ms.At(k).Name() == name {
						out = append(out, ms.At(k))
					}
				}
			}
		}
	}
	return
}

var prefs = []struct {
	name        string
	ok          bool
	sync, async pmetric.AggregationTemporality
}{
	{"", true, cumulative, cumulative},
	{"cumulative", true, cumulative, cumulative},
	{"delta", true, delta, delta},
	{"stateless", true, delta, cumulative},
	{"lowmemory", true, delta, cumulative},
	{"Delta", true, delta, delta},
	{"LOWMEMORY", true, delta, cumulative},
	{"CUMULATIVE", true, cumulative, cumulative},
	{"deltas", false, 0, 0},
	{"low", false, 0, 0},
	{" delta", false, 0, 0},
}

const (
	cumulative = pmetric.AggregationTemporalityCumulative
	delta      = pmetric.AggregationTemporalityDelta
)

// Temporality: the preference decides the temporality of every kind of instrument.
func Temporality() {
	rt.SetTicks(0)
	p := prefs[rt.Choose("pref", len(prefs))]
	s := stand()
	var got []pmetric.Metrics
	s.watch(&got)
	shutdown, err := pipelines.NewMetricsPipeline(pipelines.PipelineConfig{Endpoint: "host:1", Insecure: true, Resource: resource.Empty(), TemporalityPreference: p.name})
	rt.Assert((err == nil) == p.ok, "unknown preferences are rejected, and only those")
	if err != nil {
		return
	}
	m := otel.GetMeterProvider().Meter("m")
	c, _ := m.Int64Counter("c")
	f, _ := m.Float64Counter("f")
	u, _ := m.Int64UpDownCounter("u")
	hi, _ := m.Int64Histogram("h")
	v := rt.Int64("v")
	rt.Assume(rt.And(v > 0, v < 1<<40))
	oc, _ := m.Int64ObservableCounter("oc", apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error { o.Observe(v); return nil }))
	ou, _ := m.Int64ObservableUpDownCounter("ou", apimetric.WithInt64Callback(func(_ context.Context, o apimetric.Int64Observer) error { o.Observe(v); return nil }))
	_, _ = oc, ou
	n := 0
	for k := 0; k < 2; k++ {
		c.Add(h.Ctx, v)
		f.Add(h.Ctx, 2)
		u.Add(h.Ctx, v)
		hi.Record(h.Ctx, 3)
		if k == 0 {
			rt.Assert(otel.GetMeterProvider().(interface {
				ForceFlush(context.Context) error
			}).ForceFlush(h.Ctx) == nil, "the flush succeeds")
		} else {
			rt.Assert(shutdown() == nil, "the shutdown succeeds")
		}
		n++
		rt.Assert(len(got) == n, "each flush and shutdown exports")
	}
	total := func(t pmetric.AggregationTemporality, first int64) int64 {
		if t == delta {
			return first
		}
		return 2 * first
	}
	tail := got[1:]
	for _, x := range []struct {
		name string
		t    pmetric.AggregationTemporality
		sum  int64
		some bool
	}{
		{"c", p.sync, total(p.sync, v), true},
		{"u", cumulative, 2 * v, true},
		{"oc", p.async, v, p.async == cumulative},
		{"ou", cumulative, v, true},
	} {
		ms := find(tail, x.name)
		if !x.some && len(ms) == 0 {
			continue
		}
		rt.Assert(len(ms) == 1 && ms[0].Type() == pmetric.MetricTypeSum && ms[0].Sum().AggregationTemporality() == x.t, "the temporality is that of the preference")
		sum := x.sum
		if !x.some {
			sum = 0
		}
		rt.Assert(ms[0].Sum().DataPoints().At(0).IntValue() == sum, "the values follow the temporality")
	}
	fs := find(tail, "f")
	rt.Assert(len(fs) == 1 && fs[0].Sum().AggregationTemporality() == p.sync && fs[0].Sum().DataPoints().At(0).DoubleValue() == float64(total(p.sync, 2)), "float counter")
	hs := find(tail, "h")
	rt.Assert(len(hs) == 1 && hs[0].Type() == pmetric.MetricTypeExponentialHistogram && hs[0].ExponentialHistogram().AggregationTemporality() == p.sync, "histograms follow the preference")
	rt.Assert(hs[0].ExponentialHistogram().DataPoints().At(0).Count() == uint64(total(p.sync, 1)), "histogram values follow the temporality")
}

// Period: the reporting period is that configured; what is not a positive
// duration is rejected.
func Period() {
	rt.SetTicks(0)
	cases := []struct {
		text string
		d    time.Duration
	}{{"", 30 * time.Second}, {"1s", time.Second}, {"1h30m", 90 * time.Minute}, {"250ms", 250 * time.Millisecond}, {"0", 0}, {"0s", 0}, {"-1s", 0}, {"10", 0}, {"x", 0}, {"1 s", 0}}
	c := cases[rt.Choose("case", len(cases))]
	if rt.Choose("sym", 2) == 1 {
		// any single-digit number of seconds
		b := rt.Byte("b")
		rt.Assume(rt.And(b >= '0', b <= '9'))
		c.text = string([]byte{b, 's'})
		c.d = time.Duration(b-'0') * time.Second
	}
	stand()
	shutdown, err := pipelines.NewMetricsPipeline(pipelines.PipelineConfig{Endpoint: "host:1", Insecure: true, Resource: resource.Empty(), ReportingPeriod: c.text})
	rt.Assert((err == nil) == (c.d > 0), "exactly positive durations are accepted")
	if err != nil {
		return
	}
	rt.Assert(shutdown() == nil, "the shutdown succeeds")
	rt.Assert(rt.Interval() == c.d, "exports happen with the period configured")
}

// dest judges the destination of an exporter.
func dest(p *otelarrowexporter.Probe, endpoint string, insecure bool, tls *configtls.ClientConfig, hdrs map[string]string) {
	rt.Assert(p.Config.ClientConfig.Endpoint == endpoint, "the endpoint is that configured")
	rt.Assert(len(p.Config.ClientConfig.Headers) == len(hdrs), "the headers are those configured")
	for k, v := range hdrs {
		g, ok := p.Config.ClientConfig.Headers[k]
		rt.Assert(ok && g == configopaque.String(v), "each header is passed on")
	}
	t := p.Config.ClientConfig.TLSSetting
	rt.Assert(t.Insecure == (insecure || (tls != nil && tls.Insecure)), "the connection is insecure only if configured so")
	if !insecure && tls != nil {
		rt.Assert(t.ServerName == tls.ServerName && t.CAFile == tls.CAFile && t.InsecureSkipVerify == tls.InsecureSkipVerify, "the TLS settings are passed on")
	}
	rt.Assert(!t.InsecureSkipVerify || (tls != nil && tls.InsecureSkipVerify), "certificates are verified")
}

func text(name string) string { return rt.String(name, rt.Choose(name+"len", 2)) }

func config() pipelines.PipelineConfig {
	c := pipelines.PipelineConfig{Endpoint: text("endpoint"), Insecure: rt.Choose("insecure", 2) == 1, Propagators: []string{"b3"}}
	if rt.Choose("tls", 2) == 1 {
		c.TLSSetting = &configtls.ClientConfig{ServerName: text("server"), Insecure: rt.Choose("tlsins", 2) == 1}
	}
	switch rt.Choose("headers", 3) {
	case 1:
		c.Headers = map[string]string{"a": text("a")}
	case 2:
		c.Headers = map[string]string{"a": "1", "b": text("b")}
	}
	c.Resource = resource.NewSchemaless(attribute.String("service", text("service")))
	return c
}

func service(m pcommon.Map, c pipelines.PipelineConfig) {
	v, ok := m.Get("service")
	rt.Assert(ok && m.Len() == 1 && v.Str() == c.Resource.Attributes()[0].Value.AsString(), "the resource is that configured")
}

// Dest: the metrics pipeline sends to the configured destination, with its resource.
func Dest() {
	rt.SetTicks(0)
	c := config()
	s := stand()
	var got []pmetric.Metrics
	s.watch(&got)
	shutdown, err := pipelines.NewMetricsPipeline(c)
	rt.Assert(err == nil, "the pipeline is created")
	dest(s.metrics(), c.Endpoint, c.Insecure, c.TLSSetting, c.Headers)
	ctr, _ := otel.GetMeterProvider().Meter("m").Int64Counter("c")
	ctr.Add(h.Ctx, 1)
	rt.Assert(shutdown() == nil, "the shutdown succeeds")
	rt.Assert(len(got) == 1 && len(find(got, "c")) == 1, "the shutdown exports what was recorded")
	service(got[0].ResourceMetrics().At(0).Resource().Attributes(), c)
	rt.Assert(s.exp["metrics"].Stopped == 1 && s.bat["metrics"].Stopped == 1, "the shutdown closes the exporter")
}

// Traces: the trace pipeline sends every ended span to the configured
// destination, with its resource.
func Traces() {
	c := config()
	s := stand()
	e := otelarrowexporter.Next("traces")
	spans := 0
	e.Traces = func(_ context.Context, t ptrace.Traces) error {
		for i := 0; i < t.ResourceSpans().Len(); i++ {
			service(t.ResourceSpans().At(i).Resource().Attributes(), c)
		}
		spans += t.SpanCount()
		return nil
	}
	shutdown, err := pipelines.NewTracePipeline(c)
	rt.Assert(err == nil, "the pipeline is created")
	dest(e, c.Endpoint, c.Insecure, c.TLSSetting, c.Headers)
	n := rt.Choose("spans", 3)
	t := otel.GetTracerProvider().Tracer("t")
	for i := 0; i < n; i++ {
		_, sp := t.Start(h.Ctx, "s")
		rt.Assert(sp.SpanContext().IsSampled(), "every span is sampled")
		sp.End()
	}
	rt.Assert(shutdown() == nil, "the shutdown succeeds")
	rt.Assert(spans == n, "the shutdown exports every ended span once")
	rt.Assert(e.Stopped == 1 && s.bat["traces"].Stopped == 1, "the shutdown closes the exporter")
}

// Propagators: the ones named are used; at least one must be known.
func Propagators() {
	names := []string{"b3", "baggage", "tracecontext", "ottrace", "B3", ""}
	fields := [][]string{{"x-b3-traceid"}, {"baggage"}, {"traceparent"}, {"ot-tracer-traceid"}, nil, nil}
	var sel []string
	want := map[string]bool{}
	for i, n := 0, rt.Choose("n", 3); i < n; i++ {
		k := rt.Choose("p", len(names))
		sel = append(sel, names[k])
		for _, f := range fields[k] {
			want[f] = true
		}
	}
	stand()
	otel.SetTextMapPropagator(propagation.NewCompositeTextMapPropagator())
	shutdown, err := pipelines.NewTracePipeline(pipelines.PipelineConfig{Endpoint: "host:1", Insecure: true, Resource: resource.Empty(), Propagators: sel})
	rt.Assert((err == nil) == (len(want) > 0), "without a known propagator the configuration is rejected")
	if err != nil {
		return
	}
	got := map[string]bool{}
	for _, f := range otel.GetTextMapPropagator().Fields() {
		got[f] = true
	}
	for _, f := range []string{"x-b3-traceid", "baggage", "traceparent", "ot-tracer-traceid"} {
		rt.Assert(got[f] == want[f], "exactly the propagators named are installed")
	}
	_ = trace.SpanContext{}
	rt.Assert(shutdown() == nil, "the shutdown succeeds")
}

// Failures: an exporter that cannot be created or started fails the pipeline.
func Failures() {
	rt.SetTicks(0)
	boom := errors.New("boom")
	traces := rt.Choose("traces", 2) == 1
	kind := []string{"metrics", "traces"}[b2i(traces)]
	stand()
	e, b := otelarrowexporter.Next(kind), concurrentbatchprocessor.Next(kind)
	where := rt.Choose("where", 5)
	switch where {
	case 1:
		e.CreateErr = boom
	case 2:
		b.CreateErr = boom
	case 3:
		e.StartErr = boom
	case 4:
		b.StartErr = boom
	}
	x := rt.Choose("close", 3)
	switch x {
	case 1:
		e.ShutdownErr = boom
	case 2:
		b.ShutdownErr = boom
	}
	c := pipelines.PipelineConfig{Endpoint: "host:1", Insecure: true, Resource: resource.Empty(), Propagators: []string{"b3"}}
	var shutdown func() error
	var err error
	if traces {
		shutdown, err = pipelines.NewTracePipeline(c)
	} else {
		shutdown, err = pipelines.NewMetricsPipeline(c)
	}
	rt.Assert((err != nil) == (where != 0), "a failure of the exporter is reported")
	if err != nil {
		return
	}
	err = shutdown()
	// the batch span processor hands the errors of its exporter to the error handler
	rt.Assert((err != nil) == (x != 0) || (traces && err == nil), "a failure of the shutdown is reported")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
