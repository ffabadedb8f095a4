// Harnesses for the launcher's configuration. The collector's exporter and
// batcher and the reader of environment variables are replaced by stand-ins.
package main

import (
	"context"
	"errors"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/lightstep/otel-launcher-go/launcher"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter"
	"github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor"
	"github.com/sethvargo/go-envconfig"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/propagation"
)

func main() {
	rt.Run(map[string]func(){"Validate": Validate, "Options": Options, "Token": Token, "Resource": Resource, "Signals": Signals, "Env": Env, "Vars": Vars, "Defaults": Defaults, "Combine": Combine, "Handler": Handler})
}

type logger struct {
	fatal, debug int
}

func (l *logger) Fatalf(string, ...interface{}) { l.fatal++ }
func (l *logger) Debugf(string, ...interface{}) { l.debug++ }

type stands struct {
	exp map[string]*otelarrowexporter.Probe
	bat map[string]*concurrentbatchprocessor.Probe
	res []pcommon.Map
	tps int
	mps int
}

func stand() *stands {
	rt.SetTicks(0)
	s := &stands{exp: map[string]*otelarrowexporter.Probe{}, bat: map[string]*concurrentbatchprocessor.Probe{}}
	otelarrowexporter.Next = func(k string) *otelarrowexporter.Probe {
		if s.exp[k] == nil {
			s.exp[k] = &otelarrowexporter.Probe{
				Traces: func(_ context.Context, t ptrace.Traces) error {
					for i := 0; i < t.ResourceSpans().Len(); i++ {
						s.res = append(s.res, t.ResourceSpans().At(i).Resource().Attributes())
					}
					s.tps += t.SpanCount()
					return nil
				},
				Metrics: func(_ context.Context, m pmetric.Metrics) error {
					for i := 0; i < m.ResourceMetrics().Len(); i++ {
						s.res = append(s.res, m.ResourceMetrics().At(i).Resource().Attributes())
					}
					s.mps += m.DataPointCount()
					return nil
				},
			}
		}
		return s.exp[k]
	}
	concurrentbatchprocessor.Next = func(k string) *concurrentbatchprocessor.Probe {
		if s.bat[k] == nil {
			s.bat[k] = &concurrentbatchprocessor.Probe{}
		}
		return s.bat[k]
	}
	return s
}

// env provides what the environment says, starting from the documented defaults.
func env(set func(*launcher.Config), err error) {
	envconfig.Hook = func(v any) error {
		c := v.(*launcher.Config)
		*c = launcher.Config{
			SpanExporterEndpoint:                launcher.DefaultSpanExporterEndpoint,
			ServiceVersion:                      "unknown",
			MetricExporterEndpoint:              launcher.DefaultMetricExporterEndpoint,
			MetricExporterTemporalityPreference: "cumulative",
			MetricsEnabled:                      true,
			LogLevel:                            "info",
			Propagators:                         []string{"b3"},
			MetricReportingPeriod:               "30s",
		}
		if set != nil {
			set(c)
		}
		return err
	}
}

func text(name string) string { return rt.String(name, rt.Choose(name+"len", 2)) }

func pick(name string, opts ...string) string { return opts[rt.Choose(name, len(opts))] }

// Validate: a configuration without a service name, or without an access token
// for the public endpoint, is refused; a complete one is accepted.
func Validate() {
	s := stand()
	name := pick("name", "none", "env", "option", "resource", "otel", "otelempty")
	se := pick("span", launcher.DefaultSpanExporterEndpoint, "", "host:1")
	me := pick("metric", launcher.DefaultMetricExporterEndpoint, "host:2")
	enabled := rt.Choose("enabled", 2) == 1
	token := pick("token", "none", "env", "header", "option")
	env(func(c *launcher.Config) {
		c.SpanExporterEndpoint, c.MetricExporterEndpoint, c.MetricsEnabled = se, me, enabled
		if name == "env" {
			c.ServiceName = "svc"
		}
		if token == "header" {
			c.Headers = map[string]string{"lightstep-access-token": "tok"}
		}
	}, nil)
	l := &logger{}
	opts := []launcher.Option{launcher.WithLogger(l)}
	switch name {
	case "option":
		opts = append(opts, launcher.WithServiceName("svc"))
	case "resource":
		opts = append(opts, launcher.WithResourceAttributes(map[string]string{"service.name": "svc"}))
	case "otel":
		rt.Setenv("OTEL_RESOURCE_ATTRIBUTES", "service.name=svc")
	case "otelempty":
		rt.Setenv("OTEL_RESOURCE_ATTRIBUTES", "service.name=")
		name = "none"
	}
	switch token {
	case "env":
		rt.Setenv("LS_ACCESS_TOKEN", "tok")
	case "option":
		opts = append(opts, launcher.WithAccessToken("tok"))
	}
	ls := launcher.ConfigureOpentelemetry(opts...)
	need := se == launcher.DefaultSpanExporterEndpoint || (me == launcher.DefaultMetricExporterEndpoint && enabled)
	maybe := me == launcher.DefaultMetricExporterEndpoint
	if name == "none" || (need && token == "none") {
		rt.Assert(l.fatal > 0, "an incomplete configuration is refused")
	} else if !maybe || token != "none" {
		rt.Assert(l.fatal == 0, "a complete configuration is accepted")
	}
	if l.fatal > 0 {
		return
	}
	for k, want := range map[string]bool{"traces": se != "", "metrics": enabled} {
		e := s.exp[k]
		rt.Assert((e != nil) == want, "exactly the enabled signals are exported")
		if e == nil {
			continue
		}
		t := string(e.Config.ClientConfig.Headers["lightstep-access-token"])
		rt.Assert((t == "tok") == (token != "none"), "the access token is sent")
	}
	ls.Shutdown()
	rt.Assert(l.fatal == 0, "the shutdown succeeds")
}

// Options: what is set in code is used instead of the environment.
func Options() {
	s := stand()
	l := &logger{}
	e := struct{ se, me, period, name string }{text("ese"), text("eme"), "7s", "svc"}
	sins, mins := rt.Choose("sins", 2) == 1, rt.Choose("mins", 2) == 1
	env(func(c *launcher.Config) {
		c.SpanExporterEndpoint, c.MetricExporterEndpoint = "s"+e.se, "m"+e.me
		c.SpanExporterEndpointInsecure, c.MetricExporterEndpointInsecure = sins, mins
		c.MetricReportingPeriod, c.ServiceName = e.period, e.name
		c.Headers = map[string]string{"k": "e"}
	}, nil)
	opts := []launcher.Option{launcher.WithLogger(l)}
	se, me, period, hdr, other := "s"+e.se, "m"+e.me, 7*time.Second, "e", ""
	switch rt.Choose("what", 7) {
	case 1:
		se = "o" + text("ose")
		opts = append(opts, launcher.WithSpanExporterEndpoint(se))
	case 2:
		me = "o" + text("ome")
		opts = append(opts, launcher.WithMetricExporterEndpoint(me))
	case 3:
		sins = !sins
		opts = append(opts, launcher.WithSpanExporterInsecure(sins))
	case 4:
		mins = !mins
		opts = append(opts, launcher.WithMetricExporterInsecure(mins))
	case 5:
		period = 90 * time.Second
		opts = append(opts, launcher.WithMetricReportingPeriod(period))
	case 6:
		hdr, other = text("hdr"), "x"
		opts = append(opts, launcher.WithHeaders(map[string]string{"k": hdr, "o": other}))
	}
	ls := launcher.ConfigureOpentelemetry(opts...)
	rt.Assert(l.fatal == 0, "the configuration is accepted")
	t, m := s.exp["traces"], s.exp["metrics"]
	rt.Assert(t != nil && m != nil, "both signals are exported")
	rt.Assert(t.Config.ClientConfig.Endpoint == se && m.Config.ClientConfig.Endpoint == me, "each signal goes to its endpoint")
	rt.Assert(t.Config.ClientConfig.TLSSetting.Insecure == sins && m.Config.ClientConfig.TLSSetting.Insecure == mins, "each connection is as secure as configured")
	for _, x := range []*otelarrowexporter.Probe{t, m} {
		hs := x.Config.ClientConfig.Headers
		rt.Assert(string(hs["k"]) == hdr && string(hs["o"]) == other && len(hs) == 1+len(other), "the headers are those configured")
	}
	ls.Shutdown()
	rt.Assert(rt.Interval() == period, "the period is that configured")
}

// Token: an access token in the headers, or set in code, takes precedence over
// the environment variable.
func Token() {
	s := stand()
	l := &logger{}
	e, hd, op := pick("env", "", "E"), pick("hdr", "", "H"), pick("opt", "", "O")
	rt.Setenv("LS_ACCESS_TOKEN", e)
	env(func(c *launcher.Config) {
		c.ServiceName = "svc"
		if hd != "" {
			c.Headers = map[string]string{"lightstep-access-token": hd, "other": "x"}
		}
	}, nil)
	opts := []launcher.Option{launcher.WithLogger(l)}
	if op != "" {
		switch rt.Choose("how", 2) {
		case 0:
			opts = append(opts, launcher.WithAccessToken(op))
		case 1:
			opts = append(opts, launcher.WithHeaders(map[string]string{"lightstep-access-token": op}))
		}
	}
	ls := launcher.ConfigureOpentelemetry(opts...)
	want := op
	if want == "" {
		want = hd
	}
	if want == "" {
		want = e
	}
	rt.Assert((l.fatal > 0) == (want == ""), "a token is required for the public endpoint")
	if want == "" {
		return
	}
	for _, x := range s.exp {
		hs := x.Config.ClientConfig.Headers
		rt.Assert(string(hs["lightstep-access-token"]) == want, "the token with precedence is sent")
		rt.Assert((string(hs["other"]) == "x") == (hd != ""), "other headers are kept")
	}
	ls.Shutdown()
}

// Resource: what identifies the service is on everything exported.
func Resource() {
	s := stand()
	l := &logger{}
	name, version := "n"+text("name"), text("version")
	attr := text("attr")
	host := pick("host", "none", "env", "attr")
	envAttrs := ""
	envName := rt.Choose("envname", 2) == 1
	if envName {
		envAttrs = "service.name=other,x=y"
	}
	if host == "env" {
		if envAttrs != "" {
			envAttrs += ","
		}
		envAttrs += "host.name=h1"
	}
	rt.Setenv("OTEL_RESOURCE_ATTRIBUTES", envAttrs)
	env(func(c *launcher.Config) {
		c.SpanExporterEndpoint, c.MetricExporterEndpoint = "host:1", "host:2"
		c.ServiceVersion = version
	}, nil)
	ra := map[string]string{"a": attr, "b": "2"}
	if host == "attr" {
		ra["host.name"] = "h2"
	}
	ls := launcher.ConfigureOpentelemetry(launcher.WithLogger(l), launcher.WithServiceName(name), launcher.WithResourceAttributes(ra))
	rt.Assert(l.fatal == 0, "the configuration is accepted")
	_, sp := otel.GetTracerProvider().Tracer("t").Start(h.Ctx, "s")
	sp.End()
	c, _ := otel.GetMeterProvider().Meter("m").Int64Counter("c")
	c.Add(h.Ctx, 1)
	ls.Shutdown()
	rt.Assert(s.tps == 1 && s.mps >= 1 && len(s.res) == 2, "a shutdown exports spans and metrics")
	str := func(m pcommon.Map, k string) string {
		v, ok := m.Get(k)
		if !ok {
			return ""
		}
		return v.AsString()
	}
	for _, m := range s.res {
		rt.Assert(str(m, "service.name") == name, "the service name is that configured")
		rt.Assert(str(m, "service.version") == version, "the service version is that configured")
		rt.Assert(str(m, "a") == attr && str(m, "b") == "2", "the attributes are those configured")
		rt.Assert(str(m, "telemetry.sdk.language") == "go" && str(m, "telemetry.sdk.name") != "" && str(m, "telemetry.sdk.version") != "" && str(m, "telemetry.distro.name") == "lightstep", "the SDK is named")
		if envName {
			rt.Assert(str(m, "x") == "y", "attributes of the environment are kept")
		}
		hn := str(m, "host.name")
		rt.Assert(hn != "" && (host != "env" || hn == "h1") && (host != "attr" || hn == "h2"), "the host is named")
	}
}

// Signals: the failure of one signal is reported and does not disturb the other;
// the shutdown reaches both.
func Signals() {
	s := stand()
	l := &logger{}
	boom := errors.New("boom")
	env(func(c *launcher.Config) {
		c.SpanExporterEndpoint, c.MetricExporterEndpoint, c.ServiceName = "host:1", "host:2", "svc"
	}, nil)
	bad := rt.Choose("bad", 4)
	opts := []launcher.Option{launcher.WithLogger(l)}
	switch bad {
	case 1:
		otelarrowexporter.Next("traces").StartErr = boom
	case 2:
		otelarrowexporter.Next("metrics").StartErr = boom
	case 3:
		opts = append(opts, launcher.WithMetricExporterTemporalityPreference("bad"))
	}
	ls := launcher.ConfigureOpentelemetry(opts...)
	rt.Assert(l.fatal == b2i(bad != 0), "a failure to set up a signal is reported")
	l.fatal = 0
	t, m := otelarrowexporter.Next("traces"), otelarrowexporter.Next("metrics")
	fails := 0
	if rt.Choose("failm", 2) == 1 {
		m.ShutdownErr = boom
		fails += b2i(bad < 2)
	}
	if rt.Choose("failt", 2) == 1 {
		t.ShutdownErr = boom // reported to the error handler by the span processor
	}
	ls.Shutdown()
	rt.Assert(bad == 1 || t.Stopped == 1, "the trace exporter is shut down")
	rt.Assert(bad == 2 || bad == 3 || m.Stopped == 1, "the metric exporter is shut down")
	rt.Assert(l.fatal == fails, "a failure to shut down is reported")
	_ = s
}

// Env: an environment that cannot be read is reported.
func Env() {
	stand()
	l := &logger{}
	bad := rt.Choose("bad", 2) == 1
	var err error
	if bad {
		err = errors.New("bad environment")
	}
	env(func(c *launcher.Config) {
		c.SpanExporterEndpoint, c.MetricExporterEndpoint, c.ServiceName = "host:1", "host:2", "svc"
		if rt.Choose("debug", 2) == 1 {
			c.LogLevel = "warn"
		}
	}, err)
	ls := launcher.ConfigureOpentelemetry(launcher.WithLogger(l))
	rt.Assert((l.fatal > 0) == bad, "an environment that cannot be read is reported")
	ls.Shutdown()
}

// Handler: errors go to the error handler that was configured.
func Handler() {
	stand()
	l := &logger{}
	env(func(c *launcher.Config) {
		c.SpanExporterEndpoint, c.MetricExporterEndpoint, c.ServiceName = "host:1", "host:2", "svc"
	}, nil)
	var got []error
	opts := []launcher.Option{launcher.WithLogger(l)}
	own := rt.Choose("own", 2) == 1
	if own {
		opts = append(opts, launcher.WithErrorHandler(otel.ErrorHandlerFunc(func(e error) { got = append(got, e) })))
	}
	ls := launcher.ConfigureOpentelemetry(opts...)
	boom := errors.New("boom")
	otel.Handle(boom)
	rt.Assert(!own || (len(got) == 1 && got[0] == boom), "errors are given to the handler configured")
	ls.Shutdown()
}

// process reads the environment as go-envconfig does.
func process(v any) error {
	for _, f := range rt.Fields(v) {
		tag, ok := strings.CutPrefix(f.Tag, "env:\"")
		if !ok {
			continue
		}
		tag, _, _ = strings.Cut(tag, "\"")
		name, opts, _ := strings.Cut(tag, ",")
		val, found := os.LookupEnv(name)
		if i := strings.Index(opts, "default="); i >= 0 && !found {
			val = opts[i+len("default="):]
		}
		if val == "" {
			continue
		}
		switch p := f.Ptr.(type) {
		case *string:
			*p = val
		case *bool:
			b, err := strconv.ParseBool(val)
			if err != nil {
				return err
			}
			*p = b
		case *time.Duration:
			d, err := time.ParseDuration(val)
			if err != nil {
				return err
			}
			*p = d
		case *[]string:
			for _, x := range strings.Split(val, ",") {
				*p = append(*p, strings.TrimSpace(x))
			}
		case *map[string]string:
			*p = map[string]string{}
			for _, x := range strings.Split(val, ",") {
				k, w, ok := strings.Cut(x, ":")
				if !ok {
					return errors.New("invalid map item")
				}
				(*p)[strings.TrimSpace(k)] = strings.TrimSpace(w)
			}
		}
	}
	return nil
}

// result is what a configuration leads to.
type result struct {
	traces, metrics   bool
	se, me            string
	sins, mins        bool
	period            time.Duration
	hdr               string
	name, version, at string
	fields            string
	delta             bool
	errs, debug       int
	fatal             int
}

// outcome configures the launcher, records a span and a counter, and shuts down.
func outcome(opts ...launcher.Option) (r result) {
	s := stand()
	envconfig.Hook = process
	l := &logger{}
	counted := 0
	otel.SetTextMapPropagator(propagation.NewCompositeTextMapPropagator())
	opts = append([]launcher.Option{launcher.WithLogger(l), launcher.WithErrorHandler(otel.ErrorHandlerFunc(func(error) { counted++ }))}, opts...)
	var delta bool
	ls := launcher.ConfigureOpentelemetry(opts...)
	r.fatal = l.fatal
	if l.fatal > 0 {
		return
	}
	r.debug = l.debug
	t, m := s.exp["traces"], s.exp["metrics"]
	r.traces, r.metrics = t != nil, m != nil
	if t != nil {
		r.se, r.sins = t.Config.ClientConfig.Endpoint, t.Config.ClientConfig.TLSSetting.Insecure
		r.hdr = string(t.Config.ClientConfig.Headers["k"])
		has := map[string]bool{}
		for _, f := range otel.GetTextMapPropagator().Fields() {
			has[f] = true
		}
		for _, f := range []string{"x-b3-traceid", "traceparent", "baggage", "ot-tracer-traceid"} {
			if has[f] {
				r.fields += f + " "
			}
		}
		if rt.Param("spans", 1) == 1 {
			_, sp := otel.GetTracerProvider().Tracer("t").Start(h.Ctx, "s")
			sp.End()
		}
	}
	if m != nil {
		old := m.Metrics
		m.Metrics = func(ctx context.Context, x pmetric.Metrics) error {
			for i := 0; i < x.ResourceMetrics().Len(); i++ {
				for j := 0; j < x.ResourceMetrics().At(i).ScopeMetrics().Len(); j++ {
					ms := x.ResourceMetrics().At(i).ScopeMetrics().At(j).Metrics()
					for k := 0; k < ms.Len(); k++ {
						if ms.At(k).Name() == "c" {
							delta = ms.At(k).Sum().AggregationTemporality() == pmetric.AggregationTemporalityDelta
						}
					}
				}
			}
			return old(ctx, x)
		}
		r.me, r.mins = m.Config.ClientConfig.Endpoint, m.Config.ClientConfig.TLSSetting.Insecure
		if t == nil {
			r.hdr = string(m.Config.ClientConfig.Headers["k"])
		} else {
			rt.Assert(r.hdr == string(m.Config.ClientConfig.Headers["k"]), "both signals have the headers")
		}
		c, _ := otel.GetMeterProvider().Meter("m").Int64Counter("c")
		c.Add(h.Ctx, 1)
	}
	ls.Shutdown()
	rt.Assert(l.fatal == 0, "the shutdown succeeds")
	rt.Assert(len(s.res) == b2i(t != nil && rt.Param("spans", 1) == 1)+b2i(m != nil), "the shutdown exports every enabled signal")
	if m != nil {
		r.period = rt.Interval()
	}
	r.delta, r.errs = delta, counted
	for i, a := range s.res {
		var x [3]string
		for j, k := range []string{"service.name", "service.version", "at"} {
			if v, ok := a.Get(k); ok {
				x[j] = v.AsString()
			}
		}
		rt.Assert(i == 0 || (r.name == x[0] && r.version == x[1] && r.at == x[2]), "both signals have the same resource")
		r.name, r.version, r.at = x[0], x[1], x[2]
	}
	return
}

const b3 = "x-b3-traceid "

func defaults() result {
	return result{traces: true, metrics: true, se: launcher.DefaultSpanExporterEndpoint, me: launcher.DefaultMetricExporterEndpoint,
		period: 30 * time.Second, name: "svc", version: "unknown", fields: b3}
}

// setting is one documented setting: its variable, its option and what both
// change in the result.
type setting struct {
	env  string
	val  string
	opt  func(int) launcher.Option
	want func(*result, int)
}

var settings = []setting{
	{"LS_SERVICE_VERSION", "v1", func(i int) launcher.Option { return launcher.WithServiceVersion(two("v1", "v2", i)) }, func(r *result, i int) { r.version = two("v1", "v2", i) }},
	{"OTEL_EXPORTER_OTLP_SPAN_ENDPOINT", "s:1", func(i int) launcher.Option { return launcher.WithSpanExporterEndpoint(two("s:1", "s:2", i)) }, func(r *result, i int) { r.se = two("s:1", "s:2", i) }},
	{"OTEL_EXPORTER_OTLP_METRIC_ENDPOINT", "m:1", func(i int) launcher.Option { return launcher.WithMetricExporterEndpoint(two("m:1", "m:2", i)) }, func(r *result, i int) { r.me = two("m:1", "m:2", i) }},
	{"OTEL_EXPORTER_OTLP_SPAN_INSECURE", "true", func(i int) launcher.Option { return launcher.WithSpanExporterInsecure(i == 0) }, func(r *result, i int) { r.sins = i == 0 }},
	{"OTEL_EXPORTER_OTLP_METRIC_INSECURE", "true", func(i int) launcher.Option { return launcher.WithMetricExporterInsecure(i == 0) }, func(r *result, i int) { r.mins = i == 0 }},
	{"OTEL_EXPORTER_OTLP_METRIC_PERIOD", "5s", func(i int) launcher.Option {
		return launcher.WithMetricReportingPeriod(time.Duration(5+i) * time.Second)
	}, func(r *result, i int) { r.period = time.Duration(5+i) * time.Second }},
	{"OTEL_EXPORTER_OTLP_METRIC_TEMPORALITY_PREFERENCE", "delta", func(i int) launcher.Option {
		return launcher.WithMetricExporterTemporalityPreference(two("delta", "cumulative", i))
	}, func(r *result, i int) { r.delta = i == 0 }},
	{"OTEL_EXPORTER_OTLP_HEADERS", "k:1,lightstep-access-token:t", func(i int) launcher.Option {
		return launcher.WithHeaders(map[string]string{"k": two("1", "2", i)})
	}, func(r *result, i int) { r.hdr = two("1", "2", i) }},
	{"OTEL_PROPAGATORS", "tracecontext", func(i int) launcher.Option {
		return launcher.WithPropagators([]string{two("tracecontext", "baggage", i)})
	}, func(r *result, i int) { r.fields = two("traceparent ", "baggage ", i) }},
	{"LS_METRICS_ENABLED", "false", func(i int) launcher.Option { return launcher.WithMetricsEnabled(i == 1) }, func(r *result, i int) {
		if i == 0 {
			r.metrics, r.me, r.mins, r.period, r.delta, r.errs = false, "", false, 0, false, 0
		}
	}},
	{"LS_METRICS_BUILTINS_ENABLED", "false", func(i int) launcher.Option { return launcher.WithMetricsBuiltinsEnabled(i == 1) }, func(r *result, i int) { r.errs = i }},
	{"LS_METRICS_BUILTIN_LIBRARIES", "nosuch", func(i int) launcher.Option {
		return launcher.WithMetricsBuiltinLibraries(append([]string{"nosuch"}, []string{"another"}[:i]...))
	}, func(r *result, i int) { r.errs = 1 + i }},
	{"OTEL_LOG_LEVEL", "warn", func(i int) launcher.Option { return launcher.WithLogLevel("error") }, func(r *result, i int) {}},
	{"OTEL_RESOURCE_ATTRIBUTES", "at=x", func(i int) launcher.Option {
		return launcher.WithResourceAttributes(map[string]string{"at": two("x", "y", i)})
	}, func(r *result, i int) { r.at = two("x", "y", i) }},
	{"LS_SERVICE_NAME", "a", func(i int) launcher.Option { return launcher.WithServiceName(two("a", "b", i)) }, func(r *result, i int) { r.name = two("a", "b", i) }},
}

func two(a, b string, i int) string { return []string{a, b}[i] }

func same(g, w result) {
	rt.Assert(g.fatal == 0, "the configuration is accepted")
	rt.Assert(g.traces == w.traces && g.metrics == w.metrics, "exactly the enabled signals are exported")
	rt.Assert(g.se == w.se && g.me == w.me, "each signal goes to its endpoint")
	rt.Assert(g.sins == w.sins && g.mins == w.mins, "each connection is as secure as configured")
	rt.Assert(g.period == w.period, "the period is that configured")
	rt.Assert(g.hdr == w.hdr, "the headers are those configured")
	if rt.Param("spans", 1) == 0 && !g.metrics {
		g.name, g.version, g.at = w.name, w.version, w.at // nothing is exported
	}
	rt.Assert(g.name == w.name && g.version == w.version && g.at == w.at, "the resource is that configured")
	rt.Assert(g.fields == w.fields, "the propagators are those configured")
	rt.Assert(g.delta == w.delta, "the temporality is that configured")
	rt.Assert(g.errs == w.errs, "the builtin libraries are those configured")
}

// base is an environment that is complete and starts no builtin library.
func base() result {
	rt.Setenv("LS_SERVICE_NAME", "svc")
	rt.Setenv("LS_METRICS_BUILTIN_LIBRARIES", "nosuch")
	w := defaults()
	w.errs = 1
	return w
}

// Vars: every documented setting can be made by its variable and by its option,
// and the option takes precedence.
func Vars() {
	w := base()
	k := settings[rt.Choose("setting", len(settings))]
	how := rt.Choose("how", 3)
	opts := []launcher.Option{launcher.WithAccessToken("t")}
	if how != 1 {
		rt.Setenv(k.env, k.val)
		k.want(&w, 0)
	}
	if how != 0 {
		w = base()
		if how == 2 {
			rt.Setenv(k.env, k.val)
		}
		opts = append(opts, k.opt(1))
		k.want(&w, 1)
	}
	same(outcome(opts...), w)
}

// Combine: two settings do not disturb each other; of two options for the same
// setting the last one counts.
func Combine() {
	w := base()
	a, b := rt.Choose("a", len(settings)), rt.Choose("b", len(settings))
	opts := []launcher.Option{launcher.WithAccessToken("t")}
	i := rt.Choose("which", 2)
	if rt.Choose("env", 2) == 1 {
		rt.Setenv(settings[a].env, settings[a].val)
		settings[a].want(&w, 0)
	} else {
		opts = append(opts, settings[a].opt(0))
		settings[a].want(&w, 0)
	}
	opts = append(opts, settings[b].opt(i))
	off := !w.metrics && !(settings[b].env == "LS_METRICS_ENABLED" && i == 1)
	if !w.metrics && !off {
		// enabled again
		w.metrics, w.me, w.period, w.errs = true, launcher.DefaultMetricExporterEndpoint, 30*time.Second, 1
	}
	settings[b].want(&w, i)
	if !w.metrics {
		w.me, w.mins, w.period, w.delta, w.errs = "", false, 0, false, 0
	}
	if (settings[a].env == "LS_METRICS_BUILTINS_ENABLED" && settings[b].env == "LS_METRICS_BUILTIN_LIBRARIES") ||
		(settings[b].env == "LS_METRICS_BUILTINS_ENABLED" && settings[a].env == "LS_METRICS_BUILTIN_LIBRARIES") {
		w.errs = 0
		if settings[b].env == "LS_METRICS_BUILTINS_ENABLED" {
			w.errs = i
		}
	}
	same(outcome(opts...), w)
}

// Defaults: what is not configured has its documented default.
func Defaults() {
	w := defaults()
	rt.Setenv("LS_SERVICE_NAME", "svc")
	rt.Setenv("LS_METRICS_BUILTINS_ENABLED", "false")
	same(outcome(launcher.WithAccessToken("t")), w)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
