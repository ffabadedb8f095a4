From a48ef8b6d3f22d24300c27943290eae0d03761e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:36 +0000
Subject: [PATCH 01/34] fix: TruncateAttributes no longer modifies the caller's
 attribute slice

---
 lightstep/sdk/metric/sdkinstrument/performance.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lightstep/sdk/metric/sdkinstrument/performance.go b/lightstep/sdk/metric/sdkinstrument/performance.go
index fce29c5..2c8f7f8 100644
--- a/lightstep/sdk/metric/sdkinstrument/performance.go
+++ b/lightstep/sdk/metric/sdkinstrument/performance.go
@@ -101,14 +101,25 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 	if sizeLimit == 0 {
 		return attrs
 	}
+	// The input may be the caller's own slice, it is copied before
+	// the first modification.
+	copied := false
+	modify := func() {
+		if !copied {
+			attrs = append([]attribute.KeyValue(nil), attrs...)
+			copied = true
+		}
+	}
 	for idx, kv := range attrs {
 		if len(kv.Key) > int(sizeLimit) {
+			modify()
 			attrs[idx].Key = kv.Key[:sizeLimit]
 		}
 		switch attrs[idx].Value.Type() {
 		case attribute.STRING:
 			s := kv.Value.AsString()
 			if len(s) > int(sizeLimit) {
+				modify()
 				attrs[idx].Value = attribute.StringValue(s[:sizeLimit])
 			}
 
@@ -122,6 +133,7 @@ func (p Performance) TruncateAttributes(attrs []attribute.KeyValue) []attribute.
 				}
 			}
 			if any {
+				modify()
 				attrs[idx].Value = attribute.StringSliceValue(ss)
 			}
 		}
-- 
2.43.0


From 5cd167c03a953556387f65cab295aa3a722ce4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 02/34] fix: an instrument dropped by every reader is not
 collected

---
 lightstep/sdk/metric/meter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 90e877d..b763056 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -173,8 +173,8 @@ func configureInstrument[T any](
 
 	if inst != nil {
 		m.byDesc[desc] = inst
+		*listPtr = append(*listPtr, inst)
 	}
-	*listPtr = append(*listPtr, inst)
 	if err != nil {
 		// Handle instrument creation errors when they're new,
 		// not for repeat entries above.
-- 
2.43.0


From d0478982376ec1984cc920096b308042a8ec433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 03/34] fix: Unregister no longer modifies the callbacks of a
 collection in progress

---
 lightstep/sdk/metric/meter.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index b763056..8b269fd 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -99,15 +99,19 @@ func (mr *metricRegistration) Unregister() error {
 	}
 
 	mycb := mr.callback
-	cbs := mr.meter.callbacks
 
-	for i := 0; i < len(cbs); i++ {
-		if mycb == cbs[i] {
-			cbs[i] = cbs[len(cbs)-1]
-			mr.meter.callbacks = cbs[:len(cbs)-1]
-			break
+	mr.meter.lock.Lock()
+	defer mr.meter.lock.Unlock()
+
+	// Note: the list is copied, not modified in place, because
+	// collection iterates over it without holding the lock.
+	cbs := make([]*asyncstate.Callback, 0, len(mr.meter.callbacks))
+	for _, cb := range mr.meter.callbacks {
+		if cb != mycb {
+			cbs = append(cbs, cb)
 		}
 	}
+	mr.meter.callbacks = cbs
 
 	mr.callback = nil
 
-- 
2.43.0


From f53eea4bc6e125283e24657070d8770e27257e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 04/34] fix: CoerceToFloat64 keeps the sign of int64 numbers

---
 lightstep/sdk/metric/number/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/number/number.go b/lightstep/sdk/metric/number/number.go
index ee4dd61..28d0272 100644
--- a/lightstep/sdk/metric/number/number.go
+++ b/lightstep/sdk/metric/number/number.go
@@ -40,7 +40,7 @@ type Any interface {
 // CoerceToFloat64 converts Number to float64 according to Kind.
 func (n Number) CoerceToFloat64(k Kind) float64 {
 	if k == Int64Kind {
-		return float64(n)
+		return float64(int64(n))
 	}
 	return math.Float64frombits(uint64(n))
 }
-- 
2.43.0


From 5cbbda7f8f6f42eafb963ba8e0a1db965741d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 05/34] fix: export the minimum and maximum of int64
 MinMaxSumCount as numbers

---
 lightstep/sdk/metric/internal/export/export.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index a226228..dde7b14 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -252,8 +252,8 @@ func copyMMSCPoints(m pmetric.Metric, inM data.Instrument) {
 			dp.SetSum(t.Sum().CoerceToFloat64(number.Int64Kind))
 			dp.SetCount(t.Count())
 			if t.Count() != 0 {
-				dp.SetMax(number.ToFloat64(t.Max()))
-				dp.SetMin(number.ToFloat64(t.Min()))
+				dp.SetMax(t.Max().CoerceToFloat64(number.Int64Kind))
+				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 		case *minmaxsumcount.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
-- 
2.43.0


From 73d6ff5af23c2920e8980c77f66fd6649e2b1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:20 +0000
Subject: [PATCH 06/34] fix: explicit histogram export no longer panics for
 scales of zero and below

---
 lightstep/sdk/metric/internal/export/export.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index dde7b14..99e703d 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -18,6 +18,8 @@ import (
 	"context"
 	"errors"
 
+	"github.com/lightstep/go-expohisto/mapping"
+	"github.com/lightstep/go-expohisto/mapping/exponent"
 	"github.com/lightstep/go-expohisto/mapping/logarithm"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/internal"
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
@@ -134,6 +136,15 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 	}
 }
 
+// newMapping returns the mapping for a histogram scale: the logarithm
+// mapping supports positive scales, the exponent mapping all others.
+func newMapping(scale int32) (mapping.Mapping, error) {
+	if scale <= 0 {
+		return exponent.NewMapping(scale)
+	}
+	return logarithm.NewMapping(scale)
+}
+
 // copyExplicitHistogramBuckets converts a Lightstep exponential histogram to an OTel histogram with
 // explicitly defined buckets.
 func copyExplicitHistogramBuckets(
@@ -149,7 +160,7 @@ func copyExplicitHistogramBuckets(
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
 		positiveNumElements := int32(sourcePositiveBuckets.Len())
-		mapping, _ := logarithm.NewMapping(sourceScale)
+		mapping, _ := newMapping(sourceScale)
 		leftBound, _ := mapping.LowerBoundary(positiveOffset)
 
 		for element := int32(0); element < positiveNumElements; element++ {
-- 
2.43.0


From 907ae176396668010c70ff05b6d6391aa95953f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:52 +0000
Subject: [PATCH 07/34] fix: a hint applies to every matching view, not to the
 first one only

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3bb06c0..10693ba 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -277,8 +277,9 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			continue
 		}
 
+		// the hint erases itself from the modified description, the
+		// original is kept because the hint applies to every view.
 		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
-		instrument = modified // the hint erases itself from the description
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
@@ -286,7 +287,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 		cf := singleBehavior{
 			fromName: instrument.Name,
-			desc:     viewDescriptor(instrument, view),
+			desc:     viewDescriptor(modified, view),
 			kind:     akind,
 			acfg:     pickAggConfig(hintAcfg, defCfg, view.AggregatorConfig()),
 			tempo:    tempo,
-- 
2.43.0


From e41e62d8d4c06f0f06fa7453814c32d24e8bca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:52 +0000
Subject: [PATCH 08/34] fix: a matching view without an aggregation honours a
 hinted or default drop

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 10693ba..309281b 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -284,6 +284,9 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
 		}
+		if akind == aggregation.DropKind {
+			continue
+		}
 
 		cf := singleBehavior{
 			fromName: instrument.Name,
-- 
2.43.0


From 0981c0a0f102ffea897f54e6c866007fd9ce78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:52 +0000
Subject: [PATCH 09/34] fix: a hinted sum aggregation follows the monotonicity
 of its instrument

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 309281b..83f739f 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -635,11 +635,6 @@ func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config
 // checkSemanticCompatibility checks whether an instrument /
 // aggregator pairing is well defined.
 func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior) error {
-	if behavior.hinted {
-		// Anything goes!
-		return nil
-	}
-
 	agg := behavior.kind
 	cat := agg.Category(ik)
 
@@ -655,6 +650,11 @@ func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior)
 		behavior.kind = agg
 	}
 
+	if behavior.hinted {
+		// Anything goes!
+		return nil
+	}
+
 	switch ik {
 	case sdkinstrument.SyncCounter, sdkinstrument.SyncHistogram:
 		switch cat {
-- 
2.43.0


From ec78bb337290a466ec897367bcd773ff0d463848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 10/34] fix: exporting an attribute without a value no longer
 panics

---
 lightstep/sdk/internal/common.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/internal/common.go b/lightstep/sdk/internal/common.go
index bd40754..c6edde8 100644
--- a/lightstep/sdk/internal/common.go
+++ b/lightstep/sdk/internal/common.go
@@ -106,7 +106,8 @@ func CopyAttributes(dest pcommon.Map, src attribute.Set) {
 				sl.AppendEmpty().SetStr(v)
 			}
 		default:
-			panic("unhandled case")
+			// An attribute without a value, i.e., attribute.INVALID.
+			dest.PutEmpty(key)
 		}
 	}
 }
-- 
2.43.0


From 9c86a168792c2ecae75b132bdd8e8fffae46cb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 11/34] fix: spans are exported under their own scope, also
 when its name is empty

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 93a3048..66d2458 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -20,6 +20,7 @@ import (
 	"go.opentelemetry.io/collector/pdata/ptrace"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/sdk/instrumentation"
 	"go.opentelemetry.io/otel/sdk/trace"
 	apitrace "go.opentelemetry.io/otel/trace"
 )
@@ -85,13 +86,13 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 
 	c.ResourceMap.Get(in[0].Resource()).CopyTo(rs.Resource())
 
-	curName := ""
+	var curScope instrumentation.Scope
 	var ss ptrace.ScopeSpans
-	for _, tr := range in {
+	for i, tr := range in {
 		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope name is encountered.
-		if ssName := tr.InstrumentationScope().Name; ssName != curName {
-			curName = ssName
+		// until new scope is encountered.
+		if scope := tr.InstrumentationScope(); i == 0 || scope != curScope {
+			curScope = scope
 			ss = rs.ScopeSpans().AppendEmpty()
 			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
 			ss.Scope().SetName(tr.InstrumentationScope().Name)
-- 
2.43.0


From eef0fe98099430195aa0a25b793001843c2fc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:52 +0000
Subject: [PATCH 12/34] fix: spans are exported under their own resource

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index 66d2458..c63132c 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -90,8 +90,13 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 	var ss ptrace.ScopeSpans
 	for i, tr := range in {
 		// input is list of ReadOnlySpans. Add spans to the same scopespan
-		// until new scope is encountered.
-		if scope := tr.InstrumentationScope(); i == 0 || scope != curScope {
+		// until new resource or scope is encountered.
+		newResource := i != 0 && !tr.Resource().Equal(in[i-1].Resource())
+		if newResource {
+			rs = out.ResourceSpans().AppendEmpty()
+			c.ResourceMap.Get(tr.Resource()).CopyTo(rs.Resource())
+		}
+		if scope := tr.InstrumentationScope(); i == 0 || newResource || scope != curScope {
 			curScope = scope
 			ss = rs.ScopeSpans().AppendEmpty()
 			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
-- 
2.43.0


From 6f26e1009a1dafec4006ad4ef3d3e850cf031786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 13/34] fix: conflicts of readers with the same name do not
 replace each other

---
 lightstep/sdk/metric/internal/viewstate/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/errors.go b/lightstep/sdk/metric/internal/viewstate/errors.go
index b395ab2..a9eca4d 100644
--- a/lightstep/sdk/metric/internal/viewstate/errors.go
+++ b/lightstep/sdk/metric/internal/viewstate/errors.go
@@ -87,7 +87,7 @@ func (vc *ViewConflictsBuilder) Combine(other ViewConflictsBuilder) {
 		*vc = ViewConflictsBuilder{}
 	}
 	for k, v := range other {
-		(*vc)[k] = v
+		(*vc)[k] = append((*vc)[k], v...)
 	}
 }
 
-- 
2.43.0


From 344bfd59eeda94276afdd6959fdec8dc7fe1efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:17 +0000
Subject: [PATCH 14/34] fix: two views with the same output take each
 measurement once

---
 .../sdk/metric/internal/viewstate/viewstate.go   | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 83f739f..3e2403b 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -399,7 +399,11 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 			}
 			conflicts.Add(v.views.Name, c)
 		}
-		compiled = append(compiled, leaf)
+		// Two views of one instrument may have the same output, which
+		// takes each measurement once.
+		if !containsInstrument(compiled, leaf) {
+			compiled = append(compiled, leaf)
+		}
 	}
 	return Combine(instrument, compiled...), conflicts
 }
@@ -573,6 +577,16 @@ func Combine(desc sdkinstrument.Descriptor, insts ...Instrument) Instrument {
 	return multiInstrument[int64](insts)
 }
 
+// containsInstrument returns whether inst is one of insts.
+func containsInstrument(insts []Instrument, inst Instrument) bool {
+	for _, other := range insts {
+		if other == inst {
+			return true
+		}
+	}
+	return false
+}
+
 // multiInstrument is used by Combine() to combine the effects of
 // multiple instrument-view behaviors.  These instruments produce
 // multiAccumulators in NewAccumulator.
-- 
2.43.0


From db53a7ae9b377ac0cbb6a5d46c2912850ec6f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:33 +0000
Subject: [PATCH 15/34] fix: a view without aggregator config keeps the
 configured defaults

---
 lightstep/sdk/metric/internal/viewstate/viewstate.go | 4 ++--
 lightstep/sdk/metric/view/views.go                   | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 3e2403b..e623e56 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -638,9 +638,9 @@ func equalConfigs(a, b aggregator.Config) bool {
 }
 
 // pickAggConfig returns the aggregator configuration prescribed by a
-// view clause when it not the default value, otherwise the hinted config.
+// view clause when it is set and not the default value, otherwise the hinted config.
 func pickAggConfig(hintCfg, defCfg, viewCfg aggregator.Config) aggregator.Config {
-	if viewCfg != defCfg {
+	if viewCfg != (aggregator.Config{}) && viewCfg != defCfg {
 		return viewCfg
 	}
 	return hintCfg
diff --git a/lightstep/sdk/metric/view/views.go b/lightstep/sdk/metric/view/views.go
index 49bd207..e237c3a 100644
--- a/lightstep/sdk/metric/view/views.go
+++ b/lightstep/sdk/metric/view/views.go
@@ -107,7 +107,10 @@ func Validate(v *Views) (*Views, error) {
 		clause := &valid.Clauses[i]
 
 		err = v.checkAggregation(err, &clause.aggregation, aggregation.UndefinedKind)
-		err = v.checkAggConfig(err, &clause.acfg)
+		// Without a setting the defaults of the instrument kind apply.
+		if clause.acfg != (aggregator.Config{}) {
+			err = v.checkAggConfig(err, &clause.acfg)
+		}
 
 		if clause.instrumentName != "" && clause.instrumentNameRegexp != nil {
 			err = multierr.Append(err, fmt.Errorf("view has instrument name and regexp matches"))
-- 
2.43.0


From fed4f17ad50fd73f7d5bff3c319cc7fc65aa2d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 16/34] fix: PeriodicReader exports nothing after its final
 data

---
 lightstep/sdk/metric/periodic.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/periodic.go b/lightstep/sdk/metric/periodic.go
index 54fef5d..86a09ef 100644
--- a/lightstep/sdk/metric/periodic.go
+++ b/lightstep/sdk/metric/periodic.go
@@ -57,6 +57,7 @@ type PeriodicReader struct {
 	producer Producer
 	stop     context.CancelFunc
 	wait     sync.WaitGroup
+	shutdown bool
 }
 
 type PeriodicReaderOption func(*PeriodicReader)
@@ -138,7 +139,10 @@ func (pr *PeriodicReader) collectWithTimeout(ctx context.Context, method func(co
 func (pr *PeriodicReader) Shutdown(ctx context.Context) error {
 	pr.stop()
 	pr.wait.Wait()
-	return pr.collect(ctx, pr.exporter.ShutdownMetrics)
+	return pr.collect(ctx, func(ctx context.Context, data data.Metrics) error {
+		pr.shutdown = true
+		return pr.exporter.ShutdownMetrics(ctx, data)
+	})
 }
 
 // ForceFlush immediately waits for an existing collection, otherwise
@@ -156,6 +160,11 @@ func (pr *PeriodicReader) collect(ctx context.Context, method func(context.Conte
 	pr.lock.Lock()
 	defer pr.lock.Unlock()
 
+	// Nothing is exported after the final data.
+	if pr.shutdown {
+		return ErrAlreadyShutdown
+	}
+
 	// The lock ensures that re-use of `pr.data` is successful, it
 	// means that shutdown, flush, and ordinary collection are
 	// exclusive.  Note that shutdown will cancel a concurrent
-- 
2.43.0


From 43a12435e3c0a717f9d279a5023261f7793851bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 17/34] fix: trace exporter keeps the attributes of the
 instrumentation scope

---
 lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
index c63132c..86b5023 100644
--- a/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
+++ b/lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go
@@ -102,6 +102,7 @@ func (c *client) d2pd(in []trace.ReadOnlySpan) ptrace.Traces {
 			ss.SetSchemaUrl(tr.InstrumentationScope().SchemaURL)
 			ss.Scope().SetName(tr.InstrumentationScope().Name)
 			ss.Scope().SetVersion(tr.InstrumentationScope().Version)
+			internal.CopyAttributes(ss.Scope().Attributes(), tr.InstrumentationScope().Attributes)
 		}
 
 		s := ss.Spans().AppendEmpty()
-- 
2.43.0


From 8bd54b66c6274cf59f24f81738902c89775f62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:46 +0000
Subject: [PATCH 18/34] fix: errors of asynchronous callbacks are handled

---
 lightstep/sdk/metric/internal/asyncstate/callback.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/asyncstate/callback.go b/lightstep/sdk/metric/internal/asyncstate/callback.go
index 0721957..3835279 100644
--- a/lightstep/sdk/metric/internal/asyncstate/callback.go
+++ b/lightstep/sdk/metric/internal/asyncstate/callback.go
@@ -20,6 +20,7 @@ import (
 	"sync"
 
 	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
+	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
 )
 
@@ -77,8 +78,11 @@ func (c *Callback) Run(ctx context.Context, state *State) {
 		callback: c,
 		state:    state,
 	}
-	c.function(ctx, cp)
+	err := c.function(ctx, cp)
 	cp.invalidate()
+	if err != nil {
+		otel.Handle(err)
+	}
 }
 
 // callbackState is used to lookup the current callback and
-- 
2.43.0


From 2f59863f49bd78de964005f5db279baa04cbb238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:46 +0000
Subject: [PATCH 19/34] fix: host metrics report an incorrect network summary

---
 lightstep/instrumentation/host/host.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lightstep/instrumentation/host/host.go b/lightstep/instrumentation/host/host.go
index fe43adc..ef8b07f 100644
--- a/lightstep/instrumentation/host/host.go
+++ b/lightstep/instrumentation/host/host.go
@@ -201,7 +201,7 @@ func (h *host) register() error {
 				return err
 			}
 			if len(ioStats) != 1 {
-				return err
+				return fmt.Errorf("host network usage: incorrect summary count")
 			}
 
 			// Host CPU time
-- 
2.43.0


From 66d339610d8c743c7abfbe9b63b101ffa50999d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:46 +0000
Subject: [PATCH 20/34] fix: runtime metric names match their pattern exactly

---
 lightstep/instrumentation/runtime/descriptor.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lightstep/instrumentation/runtime/descriptor.go b/lightstep/instrumentation/runtime/descriptor.go
index 5c16e67..50e5ee7 100644
--- a/lightstep/instrumentation/runtime/descriptor.go
+++ b/lightstep/instrumentation/runtime/descriptor.go
@@ -215,14 +215,16 @@ func (bd *builtinDescriptor) findFamily(name string) (family *builtinMetricFamil
 		if wilds > 1 {
 			return nil, fmt.Errorf("too many wildcards: %s", pat)
 		}
-		if wilds == 0 && name == pat {
-			matches++
-			family = f
+		if wilds == 0 {
+			if name == pat {
+				matches++
+				family = f
+			}
 			continue
 		}
 		pfx, sfx, _ := strings.Cut(pat, "*")
 
-		if len(name) > len(pat) && strings.HasPrefix(name, pfx) && strings.HasSuffix(name, sfx) {
+		if len(name) >= len(pat) && strings.HasPrefix(name, pfx) && strings.HasSuffix(name, sfx) {
 			matches++
 			family = f
 			continue
-- 
2.43.0


From 0cf173d9a6522fa9f9dca9ae52ca08e6ac9181a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:46 +0000
Subject: [PATCH 21/34] fix: the error handler is called without the lock of
 the meter

---
 lightstep/sdk/metric/meter.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index 8b269fd..b518f25 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -145,6 +145,15 @@ func configureInstrument[T any](
 	// Compute the instrument descriptor
 	desc := sdkinstrument.NewDescriptor(name, ik, nk, cfg.Description(), cfg.Unit())
 
+	// The error handler may use this meter, it is called after the
+	// lock is released.
+	var handle error
+	defer func() {
+		if handle != nil {
+			otel.Handle(handle)
+		}
+	}()
+
 	m.lock.Lock()
 	defer m.lock.Unlock()
 
@@ -179,11 +188,9 @@ func configureInstrument[T any](
 		m.byDesc[desc] = inst
 		*listPtr = append(*listPtr, inst)
 	}
-	if err != nil {
-		// Handle instrument creation errors when they're new,
-		// not for repeat entries above.
-		otel.Handle(err)
-	}
+	// Handle instrument creation errors when they're new,
+	// not for repeat entries above.
+	handle = err
 	return inst, err
 }
 
-- 
2.43.0


From 062f80a0b497315caa4d417de4a95508c189aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:22 +0000
Subject: [PATCH 22/34] fix: explicit histogram bounds stay increasing at the
 end of the range of numbers

---
 .../sdk/metric/internal/export/export.go      | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index 99e703d..9ff1ca7 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -17,6 +17,7 @@ package export
 import (
 	"context"
 	"errors"
+	"math"
 
 	"github.com/lightstep/go-expohisto/mapping"
 	"github.com/lightstep/go-expohisto/mapping/exponent"
@@ -157,33 +158,29 @@ func copyExplicitHistogramBuckets(
 	dest.ExplicitBounds().Append(0)
 	dest.BucketCounts().Append(sourceZeroCount)
 
+	var count uint64
 	if sourcePositiveBuckets.Len() > 0 {
 		positiveOffset := sourcePositiveBuckets.Offset()
 		positiveNumElements := int32(sourcePositiveBuckets.Len())
 		mapping, _ := newMapping(sourceScale)
-		leftBound, _ := mapping.LowerBoundary(positiveOffset)
 
-		for element := int32(0); element < positiveNumElements; element++ {
-			index := element + positiveOffset
-
-			rightBound, _ := mapping.LowerBoundary(index + 1)
-
-			// We have to add a bucket to get from zero to the start of the first user-defined bucket.
-			// This has no count.
-			if element == 0 {
-				dest.ExplicitBounds().Append(leftBound)
-				dest.BucketCounts().Append(0)
+		// The values below the first boundary, in the bucket from zero to the start of the
+		// first user-defined bucket, have no count.
+		for element := int32(0); element <= positiveNumElements; element++ {
+			// Boundaries which are out of the range of numbers are left out.
+			if bound, err := mapping.LowerBoundary(element + positiveOffset); err == nil && !math.IsInf(bound, 0) {
+				dest.ExplicitBounds().Append(bound)
+				dest.BucketCounts().Append(count)
+				count = 0
+			}
+			if element < positiveNumElements {
+				count += sourcePositiveBuckets.At(uint32(element))
 			}
-
-			dest.ExplicitBounds().Append(rightBound)
-			dest.BucketCounts().Append(sourcePositiveBuckets.At(uint32(element)))
-
-			leftBound = rightBound
 		}
 	}
 
-	// There are no elements in the (..., +Inf] bucket.
-	dest.BucketCounts().Append(0)
+	// The (..., +Inf] bucket has the elements beyond the last boundary, if any.
+	dest.BucketCounts().Append(count)
 }
 
 func copyExponentialHistogramPoints(m pmetric.Metric, inM data.Instrument) {
-- 
2.43.0


From fe6d48f2799be151a2b77865b31db10d69e85b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:26 +0000
Subject: [PATCH 23/34] fix: explicit histograms count negative values

---
 .../sdk/metric/internal/export/export.go      | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index 9ff1ca7..559395b 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -120,7 +120,8 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(t.Min().CoerceToFloat64(number.Int64Kind))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			below := copyExplicitNegativeBuckets(t.Negative(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), below+t.ZeroCount(), t.Scale(), dp)
 
 		case *histogram.Float64:
 			dp.SetSum(number.ToFloat64(t.Sum()))
@@ -130,7 +131,8 @@ func copyExplicitHistogramPoints(m pmetric.Metric, inM data.Instrument) {
 				dp.SetMin(number.ToFloat64(t.Min()))
 			}
 
-			copyExplicitHistogramBuckets(t.Positive(), t.ZeroCount(), t.Scale(), dp)
+			below := copyExplicitNegativeBuckets(t.Negative(), t.Scale(), dp)
+			copyExplicitHistogramBuckets(t.Positive(), below+t.ZeroCount(), t.Scale(), dp)
 		default:
 			panic("unhandled case")
 		}
@@ -146,6 +148,35 @@ func newMapping(scale int32) (mapping.Mapping, error) {
 	return logarithm.NewMapping(scale)
 }
 
+// copyExplicitNegativeBuckets adds the explicit buckets of negative values,
+// which come before the zero bucket, in increasing order.  It returns the
+// number of elements that belong to the bucket that follows.
+func copyExplicitNegativeBuckets(
+	sourceNegativeBuckets aggregation.Buckets,
+	sourceScale int32,
+	dest pmetric.HistogramDataPoint,
+) uint64 {
+	if sourceNegativeBuckets.Len() == 0 {
+		return 0
+	}
+	negativeOffset := sourceNegativeBuckets.Offset()
+	mapping, _ := newMapping(sourceScale)
+
+	var count uint64
+	for element := int32(sourceNegativeBuckets.Len()); element >= 0; element-- {
+		// Boundaries which are out of the range of numbers are left out.
+		if bound, err := mapping.LowerBoundary(element + negativeOffset); err == nil && !math.IsInf(bound, 0) {
+			dest.ExplicitBounds().Append(-bound)
+			dest.BucketCounts().Append(count)
+			count = 0
+		}
+		if element > 0 {
+			count += sourceNegativeBuckets.At(uint32(element - 1))
+		}
+	}
+	return count
+}
+
 // copyExplicitHistogramBuckets converts a Lightstep exponential histogram to an OTel histogram with
 // explicitly defined buckets.
 func copyExplicitHistogramBuckets(
@@ -154,7 +185,7 @@ func copyExplicitHistogramBuckets(
 	sourceScale int32,
 	dest pmetric.HistogramDataPoint,
 ) {
-	// add the zero bucket in: (-Inf, 0]
+	// add the zero bucket in: (-Inf, 0], or from the last negative bucket to 0
 	dest.ExplicitBounds().Append(0)
 	dest.BucketCounts().Append(sourceZeroCount)
 
-- 
2.43.0


From abfc9e2cac3fda3f69b6362d425e147e22c0801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:19 +0000
Subject: [PATCH 24/34] fix: enforce the instrument cardinality limit when
 goroutines race for the last place

---
 .../metric/internal/syncstate/bykeyvalue.go   | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index 41b421d..abdfdd4 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -162,7 +162,7 @@ func acquireReadLockedKV(inst *Observer, fp uint64, attrs []attribute.KeyValue,
 	// attribute set.  Note this means we are performing
 	// two map lookups for overflowing attributes and only
 	// one lookup if the attribute set was preexisting.
-	if !*overflow && uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1 {
+	if !*overflow && inst.fullLocked() {
 		// Use the overflow attributes, repeat.
 		attrs = pipeline.OverflowAttributes
 		fp = overflowAttributesFingerprint
@@ -200,8 +200,15 @@ func acquireNotfoundKV[N number.Any](inst *Observer, fp uint64, attrs []attribut
 	newRec.computeAttrsUnderLock(attrs)
 
 	for {
-		acquired, loaded := acquireWriteKV(inst, fp, newRec)
+		acquired, loaded, full := acquireWriteKV(inst, fp, newRec)
 
+		if full {
+			// Another goroutine took the last place since the read
+			// lock was released, use the overflow attributes.
+			fp = overflowAttributesFingerprint
+			newRec.computeAttrsUnderLock(pipeline.OverflowAttributes)
+			continue
+		}
 		if !loaded {
 			// When this happens, we are waiting for the call to delete()
 			// inside SnapshotAndProcess() to complete before inserting
@@ -214,8 +221,16 @@ func acquireNotfoundKV[N number.Any](inst *Observer, fp uint64, attrs []attribut
 	}
 }
 
+// fullLocked returns whether a new record would take the place that is
+// reserved for the overflow attributes.
+func (inst *Observer) fullLocked() bool {
+	return uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1
+}
+
 // acquireWriteKV acquires the write lock and gets or sets a `*record`.
-func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool) {
+// The last result is true when the cardinality limit is reached, in
+// which case the caller should use the overflow attributes.
+func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, bool, bool) {
 	inst.lock.Lock()
 	defer inst.lock.Unlock()
 
@@ -223,14 +238,18 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 
 		if inst.performance.IgnoreCollisions || attributesEqual(oldRec.attrsList, newRec.attrsList) {
 			if oldRec.refMapped.ref() {
-				return oldRec, true
+				return oldRec, true, false
 			}
 			// in which case, there's been a race
-			return nil, false
+			return nil, false, false
 		}
 	}
 
+	if inst.fullLocked() && !attributesEqual(newRec.attrsList, pipeline.OverflowAttributes) {
+		return nil, false, true
+	}
+
 	newRec.next = inst.currentFP[fp]
 	inst.currentFP[fp] = newRec
-	return newRec, true
+	return newRec, true, false
 }
-- 
2.43.0


From 1bcf56833772cb82364eeba4090aa9e8febd3447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:25 +0000
Subject: [PATCH 25/34] fix: count colliding records against the instrument
 cardinality limit

---
 lightstep/sdk/metric/internal/syncstate/bykeyvalue.go | 3 ++-
 lightstep/sdk/metric/internal/syncstate/sync.go       | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
index abdfdd4..db75196 100644
--- a/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
+++ b/lightstep/sdk/metric/internal/syncstate/bykeyvalue.go
@@ -224,7 +224,7 @@ func acquireNotfoundKV[N number.Any](inst *Observer, fp uint64, attrs []attribut
 // fullLocked returns whether a new record would take the place that is
 // reserved for the overflow attributes.
 func (inst *Observer) fullLocked() bool {
-	return uint32(len(inst.currentFP)) >= inst.performance.InstrumentCardinalityLimit-1
+	return inst.currentSize >= inst.performance.InstrumentCardinalityLimit-1
 }
 
 // acquireWriteKV acquires the write lock and gets or sets a `*record`.
@@ -251,5 +251,6 @@ func acquireWriteKV(inst *Observer, fp uint64, newRec *recordKV) (*recordKV, boo
 
 	newRec.next = inst.currentFP[fp]
 	inst.currentFP[fp] = newRec
+	inst.currentSize++
 	return newRec, true, false
 }
diff --git a/lightstep/sdk/metric/internal/syncstate/sync.go b/lightstep/sdk/metric/internal/syncstate/sync.go
index 2ac340a..66a3d5a 100644
--- a/lightstep/sdk/metric/internal/syncstate/sync.go
+++ b/lightstep/sdk/metric/internal/syncstate/sync.go
@@ -55,6 +55,10 @@ type Observer struct {
 
 	// currentFP is protected by lock.
 	currentFP map[uint64]*recordKV
+
+	// currentSize is the number of records in currentFP, colliding
+	// ones included.  It is protected by lock.
+	currentSize uint32
 }
 
 // New builds a new synchronous instrument *Observer given the
@@ -123,6 +127,8 @@ func (inst *Observer) SnapshotAndProcess() {
 					tail.next = rec
 					tail = rec
 				}
+			} else {
+				inst.currentSize--
 			}
 		}
 
-- 
2.43.0


From f6008c1ffeb8e09d57c74ad7a631c72f2dc81a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 26/34] fix: report problems with hints after the meter's lock
 is released

---
 .../metric/internal/viewstate/viewstate.go    | 21 ++++++++++++-------
 lightstep/sdk/metric/meter.go                 | 17 +++++++++------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index e623e56..843a688 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -195,7 +195,8 @@ func (v *Compiler) Collectors() []data.Collector {
 // tryToApplyHint looks for a Lightstep-specified hint structure
 // encoded as JSON in the description.  If valid, returns the modified
 // configuration, otherwise returns the default for the instrument.
-func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg, defCfg aggregator.Config, hinted bool) {
+// Problems with the hint are passed to handle.
+func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor, handle func(error)) (_ sdkinstrument.Descriptor, akind aggregation.Kind, tempo aggregation.Temporality, acfg, defCfg aggregator.Config, hinted bool) {
 	// These are the default behaviors, we'll use them unless there's a valid hint.
 	akind = v.views.Defaults.Aggregation(instrument.Kind)
 	tempo = v.views.Defaults.Temporality(instrument.Kind)
@@ -213,7 +214,7 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 	var hint view.Hint
 	if err := json.Unmarshal([]byte(instrument.Description), &hint); err != nil {
 		// This could be noisy if valid descriptions contain spurious '{' chars.
-		otel.Handle(fmt.Errorf("hint parse error: %w", err))
+		handle(fmt.Errorf("hint parse error: %w", err))
 		return instrument, akind, tempo, acfg, defCfg, hinted
 	}
 
@@ -227,7 +228,7 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 	if hint.Aggregation != "" {
 		parseKind, ok := aggregation.ParseKind(hint.Aggregation)
 		if !ok {
-			otel.Handle(fmt.Errorf("hint invalid aggregation: %v", hint.Aggregation))
+			handle(fmt.Errorf("hint invalid aggregation: %v", hint.Aggregation))
 		} else if parseKind != aggregation.UndefinedKind {
 			akind = parseKind
 		}
@@ -236,7 +237,7 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 	if hint.Temporality != "" {
 		parseTempo, ok := aggregation.ParseTemporality(hint.Temporality)
 		if !ok {
-			otel.Handle(fmt.Errorf("hint invalid temporality: %v", hint.Temporality))
+			handle(fmt.Errorf("hint invalid temporality: %v", hint.Temporality))
 		} else if parseTempo != aggregation.UndefinedTemporality {
 			tempo = parseTempo
 		}
@@ -246,7 +247,7 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 		cfg := histostruct.NewConfig(histostruct.WithMaxSize(hint.Config.Histogram.MaxSize))
 		cfg, err := cfg.Validate()
 		if err != nil {
-			otel.Handle(err)
+			handle(err)
 		}
 		acfg.Histogram = cfg
 	}
@@ -261,6 +262,12 @@ func (v *Compiler) tryToApplyHint(instrument sdkinstrument.Descriptor) (_ sdkins
 // implementation, the result saved in the instrument and used to
 // construct new Accumulators throughout its lifetime.
 func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, ViewConflictsBuilder) {
+	return v.CompileWithHandler(instrument, otel.Handle)
+}
+
+// CompileWithHandler is Compile for callers who hold a lock: problems
+// with a hint in the description are passed to handle.
+func (v *Compiler) CompileWithHandler(instrument sdkinstrument.Descriptor, handle func(error)) (Instrument, ViewConflictsBuilder) {
 	var behaviors []singleBehavior
 	var matches []view.ClauseConfig
 
@@ -279,7 +286,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 		// the hint erases itself from the modified description, the
 		// original is kept because the hint applies to every view.
-		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument)
+		modified, hintAkind, tempo, hintAcfg, defCfg, hinted := v.tryToApplyHint(instrument, handle)
 
 		if akind == aggregation.UndefinedKind {
 			akind = hintAkind
@@ -307,7 +314,7 @@ func (v *Compiler) Compile(instrument sdkinstrument.Descriptor) (Instrument, Vie
 
 	// If there were no matching views, set the default aggregation.
 	if len(matches) == 0 {
-		modified, akind, tempo, acfg, _, hinted := v.tryToApplyHint(instrument)
+		modified, akind, tempo, acfg, _, hinted := v.tryToApplyHint(instrument, handle)
 		instrument = modified // the hint erases itself from the description
 
 		if akind != aggregation.DropKind {
diff --git a/lightstep/sdk/metric/meter.go b/lightstep/sdk/metric/meter.go
index b518f25..b581a2f 100644
--- a/lightstep/sdk/metric/meter.go
+++ b/lightstep/sdk/metric/meter.go
@@ -147,10 +147,13 @@ func configureInstrument[T any](
 
 	// The error handler may use this meter, it is called after the
 	// lock is released.
-	var handle error
+	var unhandled []error
+	handle := func(err error) {
+		unhandled = append(unhandled, err)
+	}
 	defer func() {
-		if handle != nil {
-			otel.Handle(handle)
+		for _, err := range unhandled {
+			otel.Handle(err)
 		}
 	}()
 
@@ -163,7 +166,7 @@ func configureInstrument[T any](
 		var conflicts viewstate.ViewConflictsBuilder
 
 		for _, compiler := range m.compilers {
-			_, err := compiler.Compile(desc)
+			_, err := compiler.CompileWithHandler(desc, handle)
 			conflicts.Combine(err)
 		}
 
@@ -175,7 +178,7 @@ func configureInstrument[T any](
 	compiled := pipeline.NewRegister[viewstate.Instrument](len(m.compilers))
 
 	for pipe, compiler := range m.compilers {
-		comp, err := compiler.Compile(desc)
+		comp, err := compiler.CompileWithHandler(desc, handle)
 		compiled[pipe] = comp
 		conflicts.Combine(err)
 	}
@@ -190,7 +193,9 @@ func configureInstrument[T any](
 	}
 	// Handle instrument creation errors when they're new,
 	// not for repeat entries above.
-	handle = err
+	if err != nil {
+		handle(err)
+	}
 	return inst, err
 }
 
-- 
2.43.0


From 1b142c78d545f680cd641b1062d466971248c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 27/34] fix: protect the description of an output while a
 conflict is printed

---
 .../sdk/metric/internal/viewstate/base_instrument.go     | 2 ++
 lightstep/sdk/metric/internal/viewstate/errors.go        | 9 +++++----
 lightstep/sdk/metric/internal/viewstate/viewstate.go     | 7 ++++---
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/base_instrument.go b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
index fdc6beb..eea9337 100644
--- a/lightstep/sdk/metric/internal/viewstate/base_instrument.go
+++ b/lightstep/sdk/metric/internal/viewstate/base_instrument.go
@@ -77,6 +77,8 @@ func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) OriginalName() str
 }
 
 func (metric *instrumentBase[N, Storage, Auxiliary, Methods]) Descriptor() sdkinstrument.Descriptor {
+	metric.instLock.Lock()
+	defer metric.instLock.Unlock()
 	return metric.desc
 }
 
diff --git a/lightstep/sdk/metric/internal/viewstate/errors.go b/lightstep/sdk/metric/internal/viewstate/errors.go
index a9eca4d..65ac027 100644
--- a/lightstep/sdk/metric/internal/viewstate/errors.go
+++ b/lightstep/sdk/metric/internal/viewstate/errors.go
@@ -223,13 +223,14 @@ func renameString(d Duplicate) string {
 // aggregation kind, and unit to summarize most of the potentially
 // conflicting characteristics of an instrument.
 func shortString(d Duplicate) string {
+	desc := d.Descriptor()
 	s := fmt.Sprintf("%v-%v-%v",
-		strings.TrimSuffix(d.Descriptor().Kind.String(), "Kind"),
-		strings.TrimSuffix(d.Descriptor().NumberKind.String(), "Kind"),
+		strings.TrimSuffix(desc.Kind.String(), "Kind"),
+		strings.TrimSuffix(desc.NumberKind.String(), "Kind"),
 		strings.TrimSuffix(d.Aggregation().String(), "Kind"),
 	)
-	if d.Descriptor().Unit != "" {
-		s = fmt.Sprintf("%v-%v", s, d.Descriptor().Unit)
+	if desc.Unit != "" {
+		s = fmt.Sprintf("%v-%v", s, desc.Unit)
 	}
 	return s
 }
diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 843a688..821ea35 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -354,14 +354,15 @@ func (v *Compiler) CompileWithHandler(instrument sdkinstrument.Descriptor, handl
 			if inst.Aggregation() != behavior.kind {
 				continue
 			}
-			if inst.Descriptor().Kind.Synchronous() != behavior.desc.Kind.Synchronous() {
+			desc := inst.Descriptor()
+			if desc.Kind.Synchronous() != behavior.desc.Kind.Synchronous() {
 				continue
 			}
 
-			if inst.Descriptor().Unit != behavior.desc.Unit {
+			if desc.Unit != behavior.desc.Unit {
 				continue
 			}
-			if inst.Descriptor().NumberKind != behavior.desc.NumberKind {
+			if desc.NumberKind != behavior.desc.NumberKind {
 				continue
 			}
 			if !equalConfigs(inst.Config(), behavior.acfg) {
-- 
2.43.0


From 38c1166b6b67c78d10f3250bdbbe501aafc5dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 28/34] fix: keep the attributes of a meter's instrumentation
 scope

---
 lightstep/sdk/metric/internal/export/export.go | 1 +
 lightstep/sdk/metric/provider.go               | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/lightstep/sdk/metric/internal/export/export.go b/lightstep/sdk/metric/internal/export/export.go
index 559395b..93e1868 100644
--- a/lightstep/sdk/metric/internal/export/export.go
+++ b/lightstep/sdk/metric/internal/export/export.go
@@ -321,6 +321,7 @@ func d2pd(
 		sm := rm.ScopeMetrics().AppendEmpty()
 		sm.Scope().SetName(inS.Library.Name)
 		sm.Scope().SetVersion(inS.Library.Version)
+		internal.CopyAttributes(sm.Scope().Attributes(), inS.Library.Attributes)
 		sm.SetSchemaUrl(inS.Library.SchemaURL)
 
 		for _, inM := range inS.Instruments {
diff --git a/lightstep/sdk/metric/provider.go b/lightstep/sdk/metric/provider.go
index a416a35..707e11a 100644
--- a/lightstep/sdk/metric/provider.go
+++ b/lightstep/sdk/metric/provider.go
@@ -107,6 +107,10 @@ func (mp *MeterProvider) Meter(name string, options ...metric.MeterOption) metri
 		Version:   cfg.InstrumentationVersion(),
 		SchemaURL: cfg.SchemaURL(),
 	}
+	// Note: scopes with an empty set and without attributes are the same.
+	if attrs := cfg.InstrumentationAttributes(); attrs.Len() != 0 {
+		lib.Attributes = attrs
+	}
 
 	mp.lock.Lock()
 	defer mp.lock.Unlock()
-- 
2.43.0


From 20318cd8d55c64b088f7fd47dbf881ed16254c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 29/34] fix: a cumulative gauge reported zero before its first
 measurement was processed

---
 .../sdk/metric/internal/viewstate/collectors.go    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lightstep/sdk/metric/internal/viewstate/collectors.go b/lightstep/sdk/metric/internal/viewstate/collectors.go
index dd2a7b3..105195b 100644
--- a/lightstep/sdk/metric/internal/viewstate/collectors.go
+++ b/lightstep/sdk/metric/internal/viewstate/collectors.go
@@ -32,6 +32,8 @@ type statefulSyncInstrument[N number.Any, Storage any, Methods aggregator.Method
 
 // Collect for synchronous cumulative temporality.
 func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence, output *[]data.Instrument) {
+	var methods Methods
+
 	p.instLock.Lock()
 	defer p.instLock.Unlock()
 
@@ -39,6 +41,18 @@ func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence,
 
 	for set, entry := range p.data {
 		p.appendPoint(ioutput, set, &entry.storage, aggregation.CumulativeTemporality, seq.Start, seq.Now, false)
+
+		if methods.Kind() != aggregation.GaugeKind {
+			continue
+		}
+
+		// A gauge has no value while its first measurement is
+		// being recorded or has not been processed.
+		ptsArr := ioutput.Points
+		cpy, _ := methods.ToStorage(ptsArr[len(ptsArr)-1].Aggregation)
+		if !methods.HasChange(cpy) {
+			ioutput.Points = ptsArr[0 : len(ptsArr)-1 : cap(ptsArr)]
+		}
 	}
 }
 
-- 
2.43.0


From 800198aba60b62bc172bed6902c4f9e8dcddeb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:36 +0000
Subject: [PATCH 30/34] fix: a gauge lost the last value when recorders
 overtook each other

---
 lightstep/sdk/metric/aggregator/gauge/gauge.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/aggregator/gauge/gauge.go b/lightstep/sdk/metric/aggregator/gauge/gauge.go
index d2b060c..13b98f0 100644
--- a/lightstep/sdk/metric/aggregator/gauge/gauge.go
+++ b/lightstep/sdk/metric/aggregator/gauge/gauge.go
@@ -138,13 +138,13 @@ func (Methods[N, Traits]) Copy(from, to *State[N, Traits]) {
 }
 
 func (Methods[N, Traits]) Update(state *State[N, Traits], number N) {
-	newSeq := atomic.AddUint64(&sequenceVar, 1)
-
 	state.lock.Lock()
 	defer state.lock.Unlock()
 
+	// Note: the sequence number is taken with the lock held, so that
+	// numbers increase from one value of the state to the next.
 	state.value = number
-	state.seq = newSeq
+	state.seq = atomic.AddUint64(&sequenceVar, 1)
 }
 
 func (Methods[N, Traits]) Merge(from, to *State[N, Traits]) {
-- 
2.43.0


From 2d500fb3fe829626daa23812e8e5f75b090d3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 31/34] fix: protect the samples of the runtime metrics from
 concurrent collections

---
 lightstep/instrumentation/runtime/builtin.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lightstep/instrumentation/runtime/builtin.go b/lightstep/instrumentation/runtime/builtin.go
index a5685de..97d7830 100644
--- a/lightstep/instrumentation/runtime/builtin.go
+++ b/lightstep/instrumentation/runtime/builtin.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"fmt"
 	"runtime/metrics"
+	"sync"
 
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/metric"
@@ -184,7 +185,13 @@ func (r *builtinRuntime) register(desc *builtinDescriptor) error {
 		})
 	}
 
+	// lock protects samples when several readers collect at once.
+	var lock sync.Mutex
+
 	if _, err := r.meter.RegisterCallback(func(ctx context.Context, obs metric.Observer) error {
+		lock.Lock()
+		defer lock.Unlock()
+
 		r.readFunc(samples)
 
 		for idx, samp := range samples {
-- 
2.43.0


From 828d9715c0ed24ca3fe8ca5c492ea484ff9ecad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 32/34] fix: a cumulative distribution reported a zero minimum
 before its first measurement was processed

---
 lightstep/sdk/metric/internal/viewstate/collectors.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/collectors.go b/lightstep/sdk/metric/internal/viewstate/collectors.go
index 105195b..c2206fc 100644
--- a/lightstep/sdk/metric/internal/viewstate/collectors.go
+++ b/lightstep/sdk/metric/internal/viewstate/collectors.go
@@ -42,12 +42,14 @@ func (p *statefulSyncInstrument[N, Storage, Methods]) Collect(seq data.Sequence,
 	for set, entry := range p.data {
 		p.appendPoint(ioutput, set, &entry.storage, aggregation.CumulativeTemporality, seq.Start, seq.Now, false)
 
-		if methods.Kind() != aggregation.GaugeKind {
+		switch methods.Kind() {
+		case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind:
 			continue
 		}
 
-		// A gauge has no value while its first measurement is
-		// being recorded or has not been processed.
+		// A gauge has no value and a distribution has no minimum
+		// and maximum while its first measurement is being
+		// recorded or has not been processed.
 		ptsArr := ioutput.Points
 		cpy, _ := methods.ToStorage(ptsArr[len(ptsArr)-1].Aggregation)
 		if !methods.HasChange(cpy) {
-- 
2.43.0


From d2abd0e8c2fe773dfb1cc5b10d07c302ec7ba126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 33/34] fix: an observation made after its callback returned is
 not recorded

---
 lightstep/sdk/metric/internal/asyncstate/async.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lightstep/sdk/metric/internal/asyncstate/async.go b/lightstep/sdk/metric/internal/asyncstate/async.go
index ab540bd..58f517e 100644
--- a/lightstep/sdk/metric/internal/asyncstate/async.go
+++ b/lightstep/sdk/metric/internal/asyncstate/async.go
@@ -176,6 +176,14 @@ func Observe[N number.Any, Traits number.Traits[N]](inst metric.Observable, cs *
 		return
 	}
 
+	// The lock ensures that the callback does not return, and the value
+	// is not collected, between creating the accumulator and updating it.
+	cs.lock.Lock()
+	defer cs.lock.Unlock()
+
+	if cs.callback == nil {
+		return
+	}
 	if acc := obs.getOrCreate(cs, options); acc != nil {
 		acc.(viewstate.Updater[N]).Update(value)
 	}
-- 
2.43.0


From d58286cbf85c0f043037c99a03827e8ab30d8925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 34/34] fix: instruments with the same hinted aggregation are
 the same instrument

---
 .../metric/internal/viewstate/viewstate.go    | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lightstep/sdk/metric/internal/viewstate/viewstate.go b/lightstep/sdk/metric/internal/viewstate/viewstate.go
index 821ea35..0123e89 100644
--- a/lightstep/sdk/metric/internal/viewstate/viewstate.go
+++ b/lightstep/sdk/metric/internal/viewstate/viewstate.go
@@ -425,6 +425,23 @@ func buildView[N number.Any, Traits number.Traits[N]](behavior singleBehavior) l
 	return compileAsync[N, Traits](behavior)
 }
 
+// compiledKind returns the aggregation kind that compileSync or
+// compileAsync uses for an instrument.
+func compiledKind(ik sdkinstrument.Kind, kind aggregation.Kind) aggregation.Kind {
+	switch kind {
+	case aggregation.MonotonicSumKind, aggregation.NonMonotonicSumKind, aggregation.GaugeKind:
+		return kind
+	case aggregation.HistogramKind, aggregation.MinMaxSumCountKind:
+		if ik.Synchronous() {
+			return kind
+		}
+	}
+	if ik.Synchronous() {
+		return aggregation.MonotonicSumKind
+	}
+	return aggregation.GaugeKind
+}
+
 // newSyncView returns a compiled synchronous instrument.  If the view
 // calls for delta temporality, a lowmemory instrument is returned,
 // otherwise for cumulative temporality a stateful instrument will be
@@ -673,7 +690,9 @@ func checkSemanticCompatibility(ik sdkinstrument.Kind, behavior *singleBehavior)
 	}
 
 	if behavior.hinted {
-		// Anything goes!
+		// Anything goes!  The kind is the one that will be
+		// compiled, so that an equal definition will match it.
+		behavior.kind = compiledKind(ik, behavior.kind)
 		return nil
 	}
 
-- 
2.43.0

