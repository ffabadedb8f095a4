// Harnesses for the trace exporter and the lifecycle of both exporters, with the
// collector's exporter and batcher replaced by stand-ins.
package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	mexp "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/exporters/otlp/otelcol"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	texp "github.com/lightstep/otel-launcher-go/lightstep/sdk/trace/exporters/otlp/otelcol"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter"
	"github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor"
	"go.opentelemetry.io/collector/pdata/pcommon"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/collector/pdata/ptrace"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	apimetric "go.opentelemetry.io/otel/metric"
	metricnoop "go.opentelemetry.io/otel/metric/noop"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
	tracenoop "go.opentelemetry.io/otel/trace/noop"
)

func main() {
	rt.Run(map[string]func(){"Span": Span, "Parts": Parts, "Batch": Batch, "Outcome": Outcome, "OutcomeMetrics": OutcomeMetrics, "Close": Close, "CloseMetrics": CloseMetrics, "Conc": Conc})
}

// stand prepares the stand-ins of the next exporter.
func stand() (*otelarrowexporter.Probe, *concurrentbatchprocessor.Probe) {
	e, b := &otelarrowexporter.Probe{}, &concurrentbatchprocessor.Probe{}
	otelarrowexporter.Next = func(string) *otelarrowexporter.Probe { return e }
	concurrentbatchprocessor.Next = func(string) *concurrentbatchprocessor.Probe { return b }
	return e, b
}

func exporter(mp apimetric.MeterProvider) (sdktrace.SpanExporter, *otelarrowexporter.Probe) {
	e, _ := stand()
	if mp == nil {
		mp = metricnoop.NewMeterProvider()
	}
	x, err := texp.NewExporter(h.Ctx, texp.NewConfig(texp.WithEndpoint("host:1"), texp.WithInsecure()), texp.WithMeterProvider(mp), texp.WithTracerProvider(tracenoop.NewTracerProvider()))
	rt.Assert(err == nil && x != nil, "the exporter is created")
	return x, e
}

func tid(b byte) (t trace.TraceID) { t[0], t[15] = 1, b; return }
func sid(b byte) (s trace.SpanID)  { s[0], s[7] = 1, b; return }

func stamp(t time.Time) pcommon.Timestamp { return pcommon.Timestamp(t.UnixNano()) }

func when(name string) time.Time {
	n := rt.Int64(name)
	rt.Assume(rt.And(n >= 0, n < 1000000000))
	return time.Unix(1700000000, n)
}

func attrs(m pcommon.Map, kvs []attribute.KeyValue) {
	set := attribute.NewSet(kvs...)
	rt.Assert(m.Len() == set.Len(), "each attribute is exported once")
	for i := set.Iter(); i.Next(); {
		kv := i.Attribute()
		v, ok := m.Get(string(kv.Key))
		rt.Assert(ok, "the key is preserved")
		switch kv.Value.Type() {
		case attribute.INT64:
			rt.Assert(v.Type() == pcommon.ValueTypeInt && v.Int() == kv.Value.AsInt64(), "the attribute value is preserved")
		case attribute.STRING:
			rt.Assert(v.Type() == pcommon.ValueTypeStr && v.Str() == kv.Value.AsString(), "the attribute value is preserved")
		}
	}
}

func state(n int) trace.TraceState {
	var s trace.TraceState
	for i := 0; i < n; i++ {
		s, _ = s.Insert([]string{"a", "b"}[i], "1")
	}
	return s
}

func count(name string) int {
	n := rt.Int(name)
	rt.Assume(rt.And(n >= 0, n <= 1<<31))
	return n
}

// one exports a single span and returns it as received.
func one(st tracetest.SpanStub) ptrace.Span {
	x, e := exporter(nil)
	var got []ptrace.Traces
	e.Traces = func(_ context.Context, t ptrace.Traces) error { got = append(got, t); return nil }
	rt.Assert(x.ExportSpans(h.Ctx, tracetest.SpanStubs{st}.Snapshots()) == nil, "the export succeeds")
	rt.Assert(len(got) == 1 && got[0].SpanCount() == 1, "one span is sent")
	return got[0].ResourceSpans().At(0).ScopeSpans().At(0).Spans().At(0)
}

// Span: the fields of one span.
func Span() {
	t, s, p := tid(rt.Byte("t")), sid(rt.Byte("s")), trace.SpanID{}
	if rt.Choose("parent", 2) == 1 {
		p = sid(rt.Byte("p"))
	}
	kind := trace.SpanKind(rt.Int("kind"))
	code := codes.Code(rt.Uint32("code"))
	ts := rt.Choose("state", 3)
	st := tracetest.SpanStub{
		Name:              rt.String("name", rt.Choose("nlen", 2)),
		SpanContext:       trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: s, TraceState: state(ts), TraceFlags: trace.TraceFlags(rt.Byte("flags")), Remote: rt.Bool("remote")}),
		Parent:            trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: p, TraceFlags: trace.TraceFlags(rt.Byte("pflags")), Remote: rt.Bool("premote")}),
		ChildSpanCount:    rt.Int("children"),
		SpanKind:          kind,
		StartTime:         when("start"),
		EndTime:           when("end"),
		Status:            sdktrace.Status{Code: code, Description: rt.String("msg", rt.Choose("mlen", 2))},
		DroppedAttributes: count("da"),
		DroppedEvents:     count("de"),
		DroppedLinks:      count("dl"),
	}
	st.Resource = resource.Empty()
	o := one(st)
	rt.Assert(o.Name() == st.Name, "the name is preserved")
	rt.Assert(trace.TraceID(o.TraceID()) == t, "the trace ID is preserved")
	rt.Assert(trace.SpanID(o.SpanID()) == s, "the span ID is preserved")
	rt.Assert(trace.SpanID(o.ParentSpanID()) == p, "the parent is preserved")
	rt.Assert(o.TraceState().AsRaw() == []string{"", "a=1", "b=1,a=1"}[ts], "the trace state is preserved")
	rt.Assert(o.StartTimestamp() == stamp(st.StartTime), "the start is preserved")
	rt.Assert(o.EndTimestamp() == stamp(st.EndTime), "the end is preserved")
	rt.Assert(o.DroppedAttributesCount() == uint32(st.DroppedAttributes), "the number of dropped attributes is preserved")
	rt.Assert(o.DroppedEventsCount() == uint32(st.DroppedEvents), "the number of dropped events is preserved")
	rt.Assert(o.DroppedLinksCount() == uint32(st.DroppedLinks), "the number of dropped links is preserved")
	rt.Assert(o.Status().Message() == st.Status.Description, "the status message is preserved")
	want := ptrace.StatusCodeUnset
	if code == codes.Ok {
		want = ptrace.StatusCodeOk
	} else if code == codes.Error {
		want = ptrace.StatusCodeError
	}
	rt.Assert(o.Status().Code() == want, "the status is preserved")
	wk := ptrace.SpanKindUnspecified
	switch kind {
	case trace.SpanKindInternal:
		wk = ptrace.SpanKindInternal
	case trace.SpanKindServer:
		wk = ptrace.SpanKindServer
	case trace.SpanKindClient:
		wk = ptrace.SpanKindClient
	case trace.SpanKindProducer:
		wk = ptrace.SpanKindProducer
	case trace.SpanKindConsumer:
		wk = ptrace.SpanKindConsumer
	}
	rt.Assert(o.Kind() == wk, "the kind is preserved")
	rt.Assert(o.Attributes().Len() == 0 && o.Events().Len() == 0 && o.Links().Len() == 0, "nothing is added")
}

func some(n int) (kvs []attribute.KeyValue) {
	if n > 0 {
		kvs = append(kvs, attribute.Int64("i", rt.Int64("i")))
	}
	if n > 1 {
		kvs = append(kvs, attribute.String("s", rt.String("v", 1)))
	}
	return
}

// Parts: attributes, events and links of one span.
func Parts() {
	t, s := tid(rt.Byte("t")), sid(rt.Byte("s"))
	max := rt.Param("parts", 2) + 1
	st := tracetest.SpanStub{
		SpanContext: trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: s}),
		Attributes:  some(rt.Choose("attrs", 3)),
	}
	for i, n := 0, rt.Choose("events", max); i < n; i++ {
		st.Events = append(st.Events, sdktrace.Event{Name: rt.String("en", 1), Time: when("et"), Attributes: some(rt.Choose("ea", 3)), DroppedAttributeCount: count("ed")})
	}
	for i, n := 0, rt.Choose("links", max); i < n; i++ {
		st.Links = append(st.Links, sdktrace.Link{
			SpanContext:           trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid(rt.Byte("lt")), SpanID: sid(rt.Byte("ls")), TraceState: state(rt.Choose("lts", 2)), TraceFlags: trace.TraceFlags(rt.Byte("lflags")), Remote: rt.Bool("lremote")}),
			Attributes:            some(rt.Choose("la", 3)),
			DroppedAttributeCount: count("ld"),
		})
	}
	st.Resource = resource.Empty()
	o := one(st)
	attrs(o.Attributes(), st.Attributes)
	rt.Assert(o.Events().Len() == len(st.Events), "each event is exported once")
	for i, e := range st.Events {
		g := o.Events().At(i)
		rt.Assert(g.Name() == e.Name, "the event name is preserved")
		rt.Assert(g.Timestamp() == stamp(e.Time), "the event time is preserved")
		rt.Assert(g.DroppedAttributesCount() == uint32(e.DroppedAttributeCount), "the dropped attributes of an event are preserved")
		attrs(g.Attributes(), e.Attributes)
	}
	rt.Assert(o.Links().Len() == len(st.Links), "each link is exported once")
	for i, l := range st.Links {
		g := o.Links().At(i)
		rt.Assert(trace.TraceID(g.TraceID()) == l.SpanContext.TraceID(), "the linked trace is preserved")
		rt.Assert(trace.SpanID(g.SpanID()) == l.SpanContext.SpanID(), "the linked span is preserved")
		rt.Assert(g.TraceState().AsRaw() == l.SpanContext.TraceState().String(), "the linked trace state is preserved")
		rt.Assert(g.DroppedAttributesCount() == uint32(l.DroppedAttributeCount), "the dropped attributes of a link are preserved")
		attrs(g.Attributes(), l.Attributes)
	}
}

// Batch: each span of a batch is exported once, under its own resource and scope.
func Batch() {
	res := []*resource.Resource{
		resource.NewSchemaless(attribute.String("service", "x")),
		resource.NewSchemaless(attribute.String("service", "y"), attribute.Int("n", 1)),
		resource.Empty(),
	}
	scopes := []instrumentation.Scope{
		{},
		{Name: "lib"},
		{Name: "lib", Version: "v"},
		{Name: "lib", Version: "v", SchemaURL: "u"},
		{Name: "lib", Version: "v", SchemaURL: "u", Attributes: attribute.NewSet(attribute.String("k", "v"))},
	}
	ns := rt.Param("scopes", len(scopes))
	x, e := exporter(nil)
	var got []ptrace.Traces
	e.Traces = func(_ context.Context, t ptrace.Traces) error { got = append(got, t); return nil }
	for k := 0; k < rt.Param("exports", 1); k++ {
		got = nil
		n := rt.Choose("spans", rt.Param("spans", 3)+1)
		var in tracetest.SpanStubs
		for i := 0; i < n; i++ {
			in = append(in, tracetest.SpanStub{
				Name:                 fmt.Sprint("s", i),
				SpanContext:          trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid(1), SpanID: sid(byte(i))}),
				Resource:             res[rt.Choose("res", len(res))],
				InstrumentationScope: scopes[rt.Choose("scope", ns)],
			})
		}
		rt.Assert(x.ExportSpans(h.Ctx, in.Snapshots()) == nil, "the export succeeds")
		seen := make([]int, n)
		total := 0
		for _, t := range got {
			for i := 0; i < t.ResourceSpans().Len(); i++ {
				rs := t.ResourceSpans().At(i)
				for j := 0; j < rs.ScopeSpans().Len(); j++ {
					ss := rs.ScopeSpans().At(j)
					for k := 0; k < ss.Spans().Len(); k++ {
						total++
						s := ss.Spans().At(k)
						id := s.SpanID()
						at := int(id[7])
						rt.Assert(id[0] == 1 && at < n, "no other span is exported")
						seen[at]++
						rt.Assert(s.Name() == in[at].Name, "the span is that of the ID")
						attrs(rs.Resource().Attributes(), in[at].Resource.Attributes())
						w := in[at].InstrumentationScope
						rt.Assert(ss.Scope().Name() == w.Name && ss.Scope().Version() == w.Version && ss.SchemaUrl() == w.SchemaURL, "the span is exported under its own scope")
						attrs(ss.Scope().Attributes(), w.Attributes.ToSlice())
					}
				}
			}
		}
		rt.Assert(total == n, "as many spans as given are exported")
		for i := range seen {
			rt.Assert(seen[i] == 1, "each span is exported once")
		}
	}
}

var (
	boom = errors.New("boom")
	bang = errors.New("bang")
	pow  = errors.New("pow")
)

// anyError is an error that says it is a cancellation, a timeout, or neither.
type anyError struct{ canceled, timeout bool }

func (*anyError) Error() string { return "any" }
func (e *anyError) Is(t error) bool {
	return t == context.Canceled && e.canceled || t == context.DeadlineExceeded && e.timeout
}

// Outcome: the result of the destination is returned and counted.
func Outcome() {
	self := metric.NewManualReader("self")
	sp := h.Provider(metric.WithReader(self, h.Delta()))
	x, e := exporter(sp)
	errs := []error{nil, context.Canceled, context.DeadlineExceeded, boom, fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", context.DeadlineExceeded), fmt.Errorf("wrapped: %w", boom), nil}
	states := []string{"ok", "canceled", "timeout", "error", "canceled", "timeout", "error", ""}
	for k := 0; k < rt.Param("exports", 2); k++ {
		n := rt.Choose("spans", 3)
		var in tracetest.SpanStubs
		for i := 0; i < n; i++ {
			in = append(in, tracetest.SpanStub{SpanContext: trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid(1), SpanID: sid(byte(i))}), Resource: resource.Empty()})
		}
		c := rt.Choose("err", len(errs))
		if c == len(errs)-1 {
			// any error, whatever it says it is
			o := &anyError{canceled: rt.Bool("canceled"), timeout: rt.Bool("timeout")}
			rt.Assume(!(o.canceled && o.timeout))
			errs[c], states[c] = o, "error"
			if o.canceled {
				states[c] = "canceled"
			}
			if o.timeout {
				states[c] = "timeout"
			}
		}
		sent := 0
		take := rt.Choose("take", 2) == 1
		e.Traces = func(_ context.Context, t ptrace.Traces) error {
			sent += t.SpanCount()
			if take {
				t.ResourceSpans().MoveAndAppendTo(ptrace.NewTraces().ResourceSpans())
			}
			return errs[c]
		}
		err := x.ExportSpans(h.Ctx, in.Snapshots())
		rt.Assert(sent == n, "every span is sent once")
		ps := h.Points(self.Produce(nil), "otelsdk.telemetry.items")
		if n == 0 {
			for _, p := range ps {
				rt.Assert(h.SumI(p) == 0, "nothing is counted for no spans")
			}
			continue
		}
		rt.Assert((err == nil) == (errs[c] == nil) && (err == nil || errors.Is(err, errs[c])), "the result of the destination is returned")
		rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == int64(n), "every span is counted once")
		st, ok1 := ps[0].Attributes.Value("state")
		su, ok2 := ps[0].Attributes.Value("success")
		rt.Assert(ok1 && ok2, "with state and success")
		rt.Assert(st.AsString() == states[c], "the state is that of the result")
		rt.Assert(su.AsBool() == (errs[c] == nil), "success is that of the result")
	}
}

// OutcomeMetrics: the same through the metrics exporter, by an export or a flush.
func OutcomeMetrics() {
	self := metric.NewManualReader("self")
	otel.SetMeterProvider(h.Provider(metric.WithReader(self, h.Delta())))
	e, _ := stand()
	cfg := mexp.NewConfig(mexp.WithEndpoint("host:1"), mexp.WithInsecure())
	cfg.SelfMetrics, cfg.SelfSpans = rt.Choose("self", 2) == 1, false
	x, err := mexp.NewExporter(h.Ctx, cfg)
	rt.Assert(err == nil, "the exporter is created")
	r := metric.NewManualReader("r")
	c, _ := h.Provider(metric.WithReader(r, h.Delta())).Meter("m").Int64Counter("c")
	for k := 0; k < rt.Param("exports", 2); k++ {
		n := 1 + rt.Choose("points", 2)
		for i := 0; i < n; i++ {
			c.Add(h.Ctx, 1, apimetric.WithAttributes(attribute.Int("i", i)))
		}
		var want error
		state := "ok"
		if rt.Choose("fails", 2) == 1 {
			o := &anyError{canceled: rt.Bool("canceled"), timeout: rt.Bool("timeout")}
			rt.Assume(!(o.canceled && o.timeout))
			want, state = o, "error"
			if o.canceled {
				state = "canceled"
			}
			if o.timeout {
				state = "timeout"
			}
		}
		sent := 0
		take := rt.Choose("take", 2) == 1
		e.Metrics = func(_ context.Context, m pmetric.Metrics) error {
			sent += m.DataPointCount()
			if take {
				m.ResourceMetrics().MoveAndAppendTo(pmetric.NewMetrics().ResourceMetrics())
			}
			return want
		}
		if rt.Choose("flush", 2) == 1 {
			err = x.ForceFlushMetrics(h.Ctx, r.Produce(nil))
		} else {
			err = x.ExportMetrics(h.Ctx, r.Produce(nil))
		}
		rt.Assert(sent == n, "every point is sent once")
		rt.Assert((err == nil) == (want == nil) && (err == nil || errors.Is(err, want)), "the result of the destination is returned")
		ps := h.Points(self.Produce(nil), "otelsdk.telemetry.items")
		if !cfg.SelfMetrics {
			rt.Assert(len(ps) == 0, "nothing is counted")
			continue
		}
		rt.Assert(len(ps) == 1 && h.SumI(ps[0]) == int64(n), "every point is counted once")
		st, ok1 := ps[0].Attributes.Value("state")
		su, ok2 := ps[0].Attributes.Value("success")
		rt.Assert(ok1 && ok2 && st.AsString() == state && su.AsBool() == (want == nil), "with the state of the result")
	}
}

func pick(name string, e error) error {
	if rt.Choose(name, 2) == 1 {
		return e
	}
	return nil
}

// check judges the creation and the shutdown of an exporter: batcher first, each
// once, every error reported.
func check(create func() error, shutdown func() error, e *otelarrowexporter.Probe, b *concurrentbatchprocessor.Probe) {
	e.CreateErr, b.CreateErr = pick("ec", boom), pick("bc", boom)
	e.StartErr, b.StartErr = pick("es", boom), pick("bs", boom)
	err := create()
	bad := e.CreateErr != nil || b.CreateErr != nil || e.StartErr != nil || b.StartErr != nil
	rt.Assert((err != nil) == bad, "a failure to create or start is reported, and nothing else")
	if err != nil {
		rt.Assert(errors.Is(err, boom), "with its error")
		return
	}
	rt.Assert(e.Started == 1 && b.Started == 1, "both are started once")
	rt.Assert(e.Config.ClientConfig.Endpoint == "host:1" && e.Config.ClientConfig.TLSSetting.Insecure, "the endpoint is that configured")
	e.ShutdownErr, b.ShutdownErr = pick("ex", bang), pick("bx", pow)
	b.OnShutdown = func() { rt.Assert(e.Stopped == 0, "the batcher is flushed before the exporter is closed") }
	err = shutdown()
	rt.Assert(e.Stopped == 1 && b.Stopped == 1, "both are shut down once")
	rt.Assert((err != nil) == (e.ShutdownErr != nil || b.ShutdownErr != nil), "a failure to shut down is reported")
	if e.ShutdownErr != nil {
		rt.Assert(errors.Is(err, bang), "the error of the exporter is reported")
	}
	if b.ShutdownErr != nil {
		rt.Assert(errors.Is(err, pow), "the error of the batcher is reported")
	}
}

// Close: lifecycle of the trace exporter.
func Close() {
	e, b := stand()
	var x sdktrace.SpanExporter
	check(func() (err error) {
		x, err = texp.NewExporter(h.Ctx, texp.NewConfig(texp.WithEndpoint("host:1"), texp.WithInsecure()), texp.WithMeterProvider(metricnoop.NewMeterProvider()), texp.WithTracerProvider(tracenoop.NewTracerProvider()))
		return err
	}, func() error { return x.Shutdown(h.Ctx) }, e, b)
}

// CloseMetrics: lifecycle of the metrics exporter; the final data is exported
// before the shutdown.
func CloseMetrics() {
	e, b := stand()
	cfg := mexp.NewConfig(mexp.WithEndpoint("host:1"), mexp.WithInsecure())
	cfg.SelfMetrics, cfg.SelfSpans = false, false
	var x metric.PushExporter
	r := metric.NewManualReader("r")
	mp := h.Provider(metric.WithReader(r))
	c, _ := mp.Meter("m").Int64Counter("c")
	c.Add(h.Ctx, 5)
	sent := 0
	e.Metrics = func(_ context.Context, m pmetric.Metrics) error {
		rt.Assert(e.Stopped == 0 && b.Stopped == 0, "data is exported before the shutdown")
		sent += m.DataPointCount()
		return nil
	}
	check(func() (err error) {
		x, err = mexp.NewExporter(h.Ctx, cfg)
		return err
	}, func() error {
		n := sent
		d := r.Produce(nil)
		switch rt.Choose("flush", 3) {
		case 1:
			rt.Assert(x.ExportMetrics(h.Ctx, d) == nil && sent == n+1, "an export sends the data")
			n++
		case 2:
			rt.Assert(x.ForceFlushMetrics(h.Ctx, d) == nil && sent == n+1, "a flush sends the data")
			n++
		}
		err := x.ShutdownMetrics(h.Ctx, d)
		rt.Assert(sent == n+1, "a shutdown sends the final data")
		return err
	}, e, b)
}

// Conc: two exports at the same time.
func Conc() {
	x, e := exporter(nil)
	sent := [2]int{}
	e.Traces = func(_ context.Context, t ptrace.Traces) error {
		for i := 0; i < t.ResourceSpans().Len(); i++ {
			rs := t.ResourceSpans().At(i)
			s := rs.ScopeSpans().At(0).Spans().At(0)
			v, ok := rs.Resource().Attributes().Get("service")
			rt.Assert(ok && v.Str() == s.Name() && rs.Resource().Attributes().Len() == 1, "each span is exported under its own resource")
			id := s.SpanID()
			sent[id[7]]++
			rs.Resource().Attributes().PutStr("receiver", "z")
		}
		return nil
	}
	names := []string{"x", "y"}
	for i := 0; i < 2; i++ {
		i := i
		name := names[rt.Choose("res", 2)]
		in := tracetest.SpanStubs{{Name: name, SpanContext: trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid(1), SpanID: sid(byte(i))}), Resource: resource.NewSchemaless(attribute.String("service", name))}}
		rt.Go(func() { rt.Assert(x.ExportSpans(h.Ctx, in.Snapshots()) == nil, "the export succeeds") })
	}
	rt.Wait()
	rt.Assert(sent[0] == 1 && sent[1] == 1, "each span is exported once")
}
