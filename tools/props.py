M = "lightstep/sdk/metric/"
I = M + "internal/"
NOTE = ("Bounded: within the stated bounds every input value and every schedule is covered (z3 decides every feasible branch and assertion; "
        "schedules up to commutation of independent operations). Trusts the gosym translation of Go SSA (validated each run by replaying sample paths natively), z3, and sequentially consistent atomics. ")
PROPS = [
dict(id="C01", title="Synchronous measurements are delivered exactly once under any interleaving",
 statement="Whatever the interleaving of goroutines recording on a synchronous instrument and collections by any number of readers, every recorded measurement is reported to each reader exactly once: deltas add up to, and a cumulative value equals, everything recorded. This includes measurements that arrive while their series is being created, collected or evicted for inactivity.",
 over=["schedules", "inputs"], qtext="all interleavings of recorders and collectors, all values",
 why="Tests run a few goroutines freely and cannot reach the few-instruction windows around reference counts, eviction and snapshot; the scheduler samples a handful of interleavings.",
 files=[I+"syncstate/sync.go", I+"syncstate/refcount_mapped.go", I+"syncstate/bykeyvalue.go", I+"viewstate/accumulators.go", M+"number/traits.go", M+"aggregator/sum/sum.go"],
 mech=[("reference count and unmapped bit", I+"syncstate/refcount_mapped.go"), ("update/collect counters compared under collectLock", I+"syncstate/sync.go"), ("atomic swap of the current aggregate into a snapshot", I+"viewstate/accumulators.go")],
 state=[("refMapped", "number of live references and whether the record is unmapped", I+"syncstate/refcount_mapped.go"), ("updateCount/collectedCount", "activity since the last collection", I+"syncstate/sync.go")],
 observe=["ManualReader.Produce"], note=NOTE + "Bounds: 2-3 threads, 1-2 operations each, one instrument, sum, histogram, gauge."),
dict(id="C02", title="Delta and cumulative reports conserve the data over any history",
 statement="Over any sequence of measurements and collections, a delta reader receives exactly what was recorded since its previous collection and a cumulative reader receives every series' total since the start, whether or not series are evicted for inactivity in between and whether or not the caller reuses the memory of the previous collection.",
 over=["histories", "inputs", "configurations"], qtext="all operation sequences up to the bound, all values, all inactivity periods and temporalities",
 why="Tests follow a few fixed scripts; the interplay of eviction, re-creation, memory reuse and two readers only shows on particular orders.",
 files=[I+"syncstate/sync.go", I+"viewstate/collectors.go", I+"viewstate/accumulators.go", I+"viewstate/base_instrument.go", M+"data/sequence.go"],
 mech=[("output entry per attribute set with auxiliary reference count", I+"viewstate/base_instrument.go"), ("stateful/stateless and lowmemory collectors", I+"viewstate/collectors.go"), ("Reallocate reuses the caller's memory", M+"data/sequence.go")],
 observe=["ManualReader.Produce"], note=NOTE + "Bounds: up to 4-6 operations over two series and two readers."),
dict(id="C03", title="A measurement belongs to the series of its attribute set",
 statement="Two measurements of an instrument are reported in the same series exactly when their attributes are the same set: order and repeated keys do not matter (the last value of a key counts), values of different types differ, and hash collisions never mix two sets. Recording never changes the attributes the caller passed, and a measurement processor's result decides the series.",
 over=["inputs"], qtext="all attribute lists up to the bound, all string contents, every possible hash function",
 why="Tests use a handful of attribute lists and the real hash; a collision cannot be produced by example.",
 files=[I+"syncstate/sync.go", I+"syncstate/bykeyvalue.go", I+"fprint/fprint.go", I+"asyncstate/async.go", M+"bypass/bypass.go"],
 mech=[("fingerprint lookup followed by comparison of the attributes", I+"syncstate/sync.go"), ("fast lookup by key/value list", I+"syncstate/bykeyvalue.go")],
 observe=["ManualReader.Produce"], note=NOTE + "The hash function is an uninterpreted function."),
dict(id="C04", title="Cardinality limits hold and preserve totals",
 statement="Whatever the number and order of attribute sets, and however recorders and collections interleave, an output never has more series than its cardinality limit and a synchronous instrument no more records than its own; what does not fit is counted in the overflow series, so that no measurement is lost, none is counted twice and every other series reports only its own data (an observed value that does not fit is counted in each collection that observes it). The limit of the view, the hint, the default configuration or the performance settings applies, in this order.",
 over=["histories", "inputs", "schedules"], qtext="all histories of recordings over more attribute sets than fit, all limits up to the bound, concurrent recorders",
 why="Tests fill one limit in one order; boundary counts, eviction and races for the last slot need all orders.",
 files=[I+"viewstate/base_instrument.go", I+"syncstate/sync.go", I+"viewstate/collectors.go", I+"pipeline/overflow.go", M+"sdkinstrument/performance.go"],
 mech=[("overflow entry taken when the map is full", I+"viewstate/base_instrument.go"), ("instrument-level overflow record", I+"syncstate/sync.go")],
 observe=["ManualReader.Produce"], note=NOTE),
dict(id="C05", title="Values that an instrument must not accept have no effect",
 statement="NaN and infinite values, and negative values recorded on a counter or histogram, are dropped without a trace in any series; every other value of the number type is accepted and counted, on every instrument kind, synchronous or observed.",
 over=["inputs"], qtext="every float64 bit pattern and every int64",
 why="Tests try a few special values; the property is about every bit pattern.",
 files=[M+"aggregator/aggregator.go", I+"syncstate/sync.go", I+"asyncstate/async.go"],
 mech=[("RangeTest before an update", M+"aggregator/aggregator.go")],
 observe=["ManualReader.Produce"], note=NOTE),
dict(id="C06", title="Histograms and MinMaxSumCount report exactly the measurements",
 statement="For any measurements and collections, the count, sum, minimum, maximum, zero count and bucket counts reported are those of the measurements of the interval (delta) or of all of them (cumulative), also after buckets are rescaled to the size limit and after the data of several attribute sets is merged. Recorders and collections at the same time lose nothing and count nothing twice, and each report is of one set of measurements.",
 over=["inputs", "histories", "schedules"], qtext="all value sequences and collection points up to the bound, all interleavings of recorders and collections",
 why="Tests compare a few sequences; merge, move and reset of the aggregates interact with collection order.",
 files=[M+"aggregator/histogram/histogram.go", M+"aggregator/minmaxsumcount/minmaxsumcount.go", I+"viewstate/accumulators.go"],
 mech=[("Move, Merge and Copy of the aggregates", M+"aggregator/minmaxsumcount/minmaxsumcount.go")],
 observe=["ManualReader.Produce"], note=NOTE + "MinMaxSumCount: symbolic values; exponential histogram: bucket mapping over concrete values chosen symbolically from a table (logarithms are not encodable)."),
dict(id="C07", title="A gauge reports the last value recorded",
 statement="A gauge series reports the value of the last recording, for every history of recordings and collections by any number of readers, also when a view folds several attribute sets into one series: the most recent recording of any of them wins.",
 over=["inputs", "histories"], qtext="all sequences of recordings and collections up to the bound, all values",
 why="Which of several merged records is the last depends on the order of merge, which tests fix.",
 files=[M+"aggregator/gauge/gauge.go", I+"viewstate/accumulators.go"],
 mech=[("sequence number taken at each update and compared in Merge", M+"aggregator/gauge/gauge.go")],
 observe=["ManualReader.Produce"], note=NOTE),
dict(id="C08", title="Asynchronous instruments report exactly what their callbacks observe",
 statement="In each collection a cumulative reader is shown for each observed series the last value observed in that collection, a delta reader the difference to the previous collection, and a gauge the value itself; series that were not observed are not reported. Observations for instruments that were not registered with the callback, of another provider, or after the callback returned have no effect; sums that fall together under a view's keys are added up.",
 over=["histories", "inputs", "schedules"], qtext="all observation histories up to the bound, all values, concurrent readers",
 why="Tests use fixed scripts of observations; delta state across absent, repeated and folded series needs all histories.",
 files=[I+"asyncstate/async.go", I+"asyncstate/callback.go", I+"viewstate/collectors.go", I+"viewstate/accumulators.go"],
 mech=[("state per collection with last-value snapshots", I+"asyncstate/async.go"), ("SubtractSwap against the prior collection", I+"viewstate/collectors.go")],
 observe=["ManualReader.Produce"], note=NOTE + "A delta series absent from the previous collection may restart from zero (a documented TODO in the code), so the check accepts either."),
dict(id="C09", title="Readers are independent of each other",
 statement="What a reader reports does not depend on which other readers exist, on their views, temporalities and aggregations, or on when they collect: it is what it would report as the only reader. An instrument dropped by some or all readers does not disturb anything else.",
 over=["histories", "configurations", "schedules"], qtext="all interleavings of collections by two readers, pairs of configurations, all values",
 why="Needs a comparison of two systems over all histories (a relational property), which example tests do not make.",
 files=[M+"provider.go", M+"meter.go", I+"syncstate/sync.go", I+"asyncstate/async.go", I+"viewstate/accumulators.go", I+"pipeline/register.go"],
 mech=[("one compiled instrument per pipeline, combined", I+"viewstate/viewstate.go"), ("per-pipeline collection state", I+"syncstate/sync.go")],
 observe=["ManualReader.Produce"], note=NOTE),
dict(id="C10", title="Collection intervals are contiguous and ordered",
 statement="Every point of a collection ends at the time of that collection; a delta point starts where the reader's previous collection ended and a cumulative point at the start of the provider. Intervals never end before they start, and those of concurrent collections by one reader do not overlap.",
 over=["histories", "schedules", "inputs"], qtext="every non-decreasing clock, all collection orders and schedules up to the bound",
 why="Tests use a wall clock and sequential collections.",
 files=[M+"producer.go", M+"data/sequence.go", I+"viewstate/collectors.go"],
 mech=[("lastCollect read and written under the producer's lock", M+"producer.go")],
 observe=["ManualReader.Produce (Start, End)"], note=NOTE + "time.Now is a symbolic non-decreasing reading."),
dict(id="C11", title="Views and hints shape the output exactly as configured",
 statement="A view applies exactly to the instruments that match all its criteria; each matching view yields one output with its name, description, attribute keys, aggregation and configuration, equal outputs are one and take each measurement once, a drop removes the output, and instruments that no view matches keep their default output. The aggregation and its configuration are those of the view, else of the hint in the description, else of the reader's defaults; an aggregation without a meaning for the instrument is replaced by the standard one and reported.",
 over=["configurations", "inputs"], qtext="all combinations of criteria, settings and hints up to the bound, symbolic names, kinds and values",
 why="Tests sample a few combinations; precedence between view, hint and default is a product of many choices.",
 files=[I+"viewstate/viewstate.go", M+"view/views.go", M+"view/clause.go", M+"view/view.go", M+"view/hint.go"],
 mech=[("Compile: matches, hint, defaults, semantic compatibility", I+"viewstate/viewstate.go")],
 observe=["ManualReader.Produce", "errors returned by instrument constructors"], note=NOTE),
dict(id="C12", title="Duplicate instruments share an output or are reported as conflicts",
 statement="Two instruments of one scope with equal definitions share one output that reports the data of both, with the longer description. Definitions of one name that differ in number, unit, aggregation or synchronicity each keep their own output with their own data, and the second constructor returns an error; nothing else returns one, whichever goroutines define the instruments and whatever the readers are called. Different scopes (name, version, schema or attributes) never conflict or share data.",
 over=["configurations", "schedules", "inputs"], qtext="every pair of definitions, concurrent definitions, all values",
 why="Tests list a few pairs; the property is about every pair and every schedule of definition.",
 files=[I+"viewstate/viewstate.go", I+"viewstate/errors.go", M+"meter.go", M+"provider.go"],
 mech=[("comparison with existing outputs of the same name", I+"viewstate/viewstate.go"), ("byDesc lookup under the meter's lock", M+"meter.go")],
 observe=["ManualReader.Produce", "errors returned by instrument constructors"], note=NOTE),
dict(id="C13", title="Each instrument kind has its aggregation, monotonicity and temporality",
 statement="Counters are reported as monotonic sums, up-down counters as non-monotonic sums, histograms as exponential histograms and gauges as gauges, with the instrument's own name, unit, description and number kind; the temporality is the hinted one, else the reader's selection for that kind of instrument, and the values follow it: totals if cumulative, changes if delta.",
 over=["configurations", "inputs"], qtext="every instrument kind, number, selector and hint, all values",
 why="A full cross product with the value checked, which tests sample.",
 files=[M+"view/standard.go", I+"viewstate/viewstate.go", I+"viewstate/collectors.go", M+"syncinst.go", M+"asyncinst.go"],
 mech=[("StandardAggregationKind and temporality selectors", M+"view/standard.go"), ("delta/cumulative collectors for sync and async", I+"viewstate/viewstate.go")],
 observe=["ManualReader.Produce"], note=NOTE),
dict(id="C14", title="Exported metrics say what was collected",
 statement="Every point of a collection is exported exactly once, under its resource, scope (with its attributes) and instrument, with the same name, unit, description, attributes, times, temporality, monotonicity and values: sums and gauges keep their number and type, MinMaxSumCount and histograms their count, sum, extremes and buckets. Explicit-boundary conversion puts every measurement in a bucket whose bounds contain it. Exporting again, concurrently, or for another resource does not mix anything up.",
 over=["inputs", "configurations", "schedules"], qtext="every int64 and float64, every attribute type, combinations of scopes, instruments and resources, concurrent exports",
 why="Tests compare a few values; sign, kind and boundary conversions matter on every value.",
 files=[I+"export/export.go", M+"exporters/otlp/otelcol/client.go", M+"number/number.go", M+"aggregator/histogram/histogram.go"],
 mech=[("conversion of each aggregate to pdata points", I+"export/export.go"), ("numbers coerced by kind", M+"number/number.go")],
 observe=["pmetric.Metrics handed to the consumer"], note=NOTE + "The destination is a recording consumer. Exponential histograms over a table of values (logarithms are not encodable)."),
dict(id="C15", title="Exported spans say what was recorded",
 statement="Every span given to the trace exporter is exported exactly once, under its own resource and instrumentation scope, with the same name, identifiers, parent, trace state, kind, times, status, attributes, events, links and drop counts; spans of a batch, and of batches exported at the same time, are never mixed up.",
 over=["inputs", "configurations", "schedules"], qtext="all field values, all batches of spans over the resources and scopes of the bound, concurrent exports",
 why="Tests export a few spans of one resource; batches that mix scopes and resources in every order are not tried.",
 files=["lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
 mech=[("d2pd groups spans by resource and scope", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go")],
 observe=["ptrace.Traces handed to the collector exporter"], note=NOTE + "The collector's arrow exporter and batch processor are stand-ins that record what they are given."),
dict(id="C16", title="Every export is accounted for with its result",
 statement="The result of an export is that of the destination. The self-observability metrics count each exported point and span once, under the state of that result: ok, canceled, timeout or error, also when the error is wrapped. Metrics of the embedded collector parts (otelcol_*) are reported as otelsdk_*, others keep their names.",
 over=["histories", "inputs"], qtext="all sequences of destination results up to the bound",
 why="Tests check one result; wrapped errors and sequences of results are not tried.",
 files=[M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
 mech=[("count by the classified error", M+"exporters/otlp/otelcol/client.go")],
 observe=["otelsdk.telemetry.items", "error returned by the export"], note=NOTE),
dict(id="C17", title="Shutdown and flush deliver everything exactly once, then stop",
 statement="Whatever the timing of periodic exports, flushes and shutdowns, a flush or shutdown returns after everything recorded before it was exported, exactly once; exports of a reader never overlap; nothing is exported after the final export; one of several shutdowns performs it and the others say so. Every reader is flushed and shut down even if another fails, all errors are returned, the caller's context is passed on, and meters obtained later are inert. Exporters close their batcher before the connection, each once.",
 over=["schedules", "histories", "faults"], qtext="all schedules of ticks, flushes, shutdowns and recordings, all failure combinations",
 why="Tests use timeouts and one order; a tick in the middle of a shutdown cannot be scheduled by a test.",
 files=[M+"periodic.go", M+"provider.go", M+"manual.go", M+"exporters/otlp/otelcol/client.go", "lightstep/sdk/trace/exporters/otlp/otelcol/client.go"],
 mech=[("collect under the reader's lock; stop and wait before the final collect", M+"periodic.go"), ("provider-wide shutdown once", M+"provider.go")],
 observe=["calls of the push exporter", "returned errors"], note=NOTE + "Bounds: up to 2-3 ticks; timers never expire otherwise; the collector components are stand-ins."),
dict(id="C18", title="Callbacks run exactly once per collection while registered",
 statement="Each collection runs every callback that is registered exactly once and none that is not: registering and unregistering, also while a collection is running, never makes another callback run twice or not at all; unregistering twice is reported and harmless.",
 over=["histories", "schedules"], qtext="all histories of register, unregister and collect up to the bound, all schedules against a collection",
 why="The list of callbacks is shared with running collections; only particular schedules show an update in place.",
 files=[M+"meter.go", I+"asyncstate/callback.go", M+"provider.go"],
 mech=[("callbacks copied on write under the meter's lock", M+"meter.go")],
 observe=["callback invocations", "ManualReader.Produce"], note=NOTE),
dict(id="C19", title="Series that go quiet give back their place",
 statement="A synchronous series without a measurement for the configured number of collections (InactiveCollectionPeriods) is dropped: it no longer counts against the instrument cardinality limit nor, for a delta reader, against the aggregator limit, and a new series then gets its own place and not the overflow. A series keeps its place while it is used more often than that. This holds however recorders and collections interleave. An asynchronous series that is not observed in a collection holds no place in it. No total is lost by any of this.",
 over=["histories", "schedules", "configurations"], qtext="all histories of measurements and collections up to the bound, and all schedules of recorders against the collection that drops a series",
 why="A leaked reference or a wrong period shows only as memory growth and overflow after long runs; tests use one history.",
 files=[I+"syncstate/sync.go", I+"syncstate/refcount_mapped.go", I+"viewstate/collectors.go", I+"viewstate/accumulators.go", M+"sdkinstrument/performance.go"],
 mech=[("inactiveCount and tryUnmap", I+"syncstate/sync.go"), ("auxiliary reference count of output entries", I+"viewstate/collectors.go")],
 observe=["ManualReader.Produce"], note=NOTE),
dict(id="C20", title="Attribute size limits hold and truncated attributes identify the series",
 statement="With an attribute size limit, no recorded key or string value is reported longer than the limit (what a measurement processor adds is up to it); shorter ones are unchanged, longer ones are cut to the limit, and measurements share a series exactly when their cut attributes are equal. The caller's attributes are left unchanged.",
 over=["inputs", "configurations"], qtext="all string contents and limits up to the bound",
 why="Tests cut one string at one limit.",
 files=[I+"syncstate/sync.go", I+"asyncstate/async.go", M+"sdkinstrument/performance.go", I+"pipeline/register.go"],
 mech=[("TruncateAttributes before lookup", M+"sdkinstrument/performance.go")],
 observe=["ManualReader.Produce"], note=NOTE),
dict(id="C21", title="The API is safe to use from any goroutine, callback or error handler",
 statement="Creating meters and instruments, recording, registering and unregistering callbacks, collecting and flushing may be done from any number of goroutines at once, from inside a callback, and from inside the error handler the SDK calls: nothing deadlocks, panics or races, every call has its effect, and every addition reaches every reader once. Conflicts, invalid measurements, and the errors of callbacks are given to the error handler.",
 over=["schedules", "inputs"], qtext="all pairs of uses of the API under every interleaving; every use of the API in every place the SDK calls the user",
 why="Tests use the API from one goroutine at a time; lock orders and re-entrance show only in particular combinations.",
 files=[M+"provider.go", M+"meter.go", I+"asyncstate/callback.go", I+"syncstate/sync.go", I+"doevery/doevery.go"],
 mech=[("locks of provider, meter, instrument and pipeline", M+"meter.go")],
 observe=["termination", "ManualReader.Produce", "otel.Handle"], note=NOTE + "Re-entering a collection of the same reader from its own callback is outside (the reader's lock is documented to be held)."),
dict(id="C22", title="Pipelines send to the configured destination as configured",
 statement="The metric and trace pipelines send to the configured endpoint with the configured headers, security and resource; the temporality preference (cumulative, delta, stateless, lowmemory; any case) gives each kind of instrument its documented temporality, values included; the reporting period is that configured. Unknown preferences, periods that are not positive durations and configurations without a known propagator are rejected, and failures of the exporter are reported. A shutdown delivers all ended spans and all metrics before it closes the exporter.",
 over=["configurations", "inputs", "faults"], qtext="combinations of settings with symbolic texts and values, every failure of a component",
 why="Tests create pipelines and look at few settings; the effect of the settings on exported data is not tested.",
 files=["pipelines/metrics.go", "pipelines/trace.go", "pipelines/common.go", "lightstep/sdk/internal/common.go", "lightstep/sdk/trace/exporters/otlp/otelcol/otlp.go"],
 mech=[("tempoOptions", "pipelines/metrics.go"), ("exporter options from the configuration", "pipelines/common.go")],
 observe=["configuration and data received by the collector exporter", "global providers and propagator"], note=NOTE + "The collector's exporter and batcher are stand-ins; TLS and the network itself are outside."),
dict(id="C23", title="The launcher applies its configuration and refuses incomplete ones",
 statement="ConfigureOpentelemetry refuses a configuration without a service name or, for the public endpoint, without an access token, and accepts complete ones; what is set in code overrides the environment; each signal goes to its own endpoint with its own security and the common headers, with the token of the highest precedence; exactly the enabled signals are exported; everything exported carries the configured service name, version, attributes and SDK identification. The failure of one signal is reported and leaves the other working; Shutdown reaches every signal.",
 over=["configurations", "inputs", "faults"], qtext="combinations of options and environment with symbolic texts, every failure of a signal",
 why="Tests set one option at a time and inspect the configuration structure, not what reaches the exporters.",
 files=["launcher/config.go"],
 mech=[("newConfig, validateConfiguration, setup functions", "launcher/config.go")],
 observe=["configuration and data received by the collector exporters", "logger"], note=NOTE + "The collector's exporter, batcher and go-envconfig are stand-ins."),
dict(id="C25", title="Builtin metrics report what was read, as documented",
 statement="The host, runtime and process instrumentation report each reading of the operating system and of runtime/metrics unchanged, exactly once, under the documented name, unit, kind and attributes; totals that would count twice and histograms are left out; what fails to be read or is not known is reported as an error and never as a value, and does not disturb the other metrics. Readers that collect at the same time each report one reading. A pipeline starts exactly the configured libraries and reports names that do not exist.",
 over=["inputs", "configurations", "faults"], qtext="all readings, all selections and orders of metrics of the runtime up to the bound, all failures of a reading",
 why="Tests compare with the readings of the machine at hand; a value given to the wrong metric, or another Go version's metrics, do not show.",
 files=["lightstep/instrumentation/runtime/builtin.go", "lightstep/instrumentation/runtime/defs.go", "lightstep/instrumentation/runtime/descriptor.go", "lightstep/instrumentation/host/host.go", "lightstep/instrumentation/cputime/cputime.go", "pipelines/metrics.go"],
 mech=[("patterns of metric names to instruments and attributes", "lightstep/instrumentation/runtime/descriptor.go"), ("sample and instrument index", "lightstep/instrumentation/runtime/builtin.go"), ("readings", "lightstep/instrumentation/host/host.go")],
 observe=["ManualReader.Produce", "pmetric.Metrics given to the collector exporter", "otel.Handle"], note=NOTE + "gopsutil, runtime/metrics and getrusage are stand-ins whose readings are symbolic; the real readings are outside."),
dict(id="C26", title="The Prometheus exporter publishes what is collected until it is closed",
 statement="The Prometheus exporter listens on the configured port (9090 by default), publishes each export once with values, names, units, scope and resource as collected and histograms with explicit increasing bounds whose buckets add up to the count, returns every failure to create, start, export or close, and on shutdown publishes the final data before it closes, once. Its exports are counted under their result unless that is disabled.",
 over=["inputs", "configurations", "faults", "schedules"], qtext="all values within the bound, all failures of the exporter, all schedules of the periodic reader",
 why="Tests scrape one counter; failures and the order of the shutdown are not tried.",
 files=[M+"exporters/prom/client.go", I+"export/export.go"],
 mech=[("client", M+"exporters/prom/client.go")],
 observe=["calls of the collector's Prometheus exporter", "returned errors"], note=NOTE + "The collector's Prometheus exporter is a stand-in: its HTTP server and text format are outside."),
dict(id="C24", title="A problem is reported at once, then at most once per period",
 statement="An invalid measurement (NaN, infinite, or negative where the instrument is monotonic) or an attribute with an empty key is reported to the error handler, with its instrument, the first time it happens, not again within its period (30 seconds for measurements, a minute for keys), and again when it still happens after that. Different problems are limited separately, goroutines that have the same problem at the same time give one report, valid measurements give none, and a handler may itself make valid use of the instruments.",
 over=["histories", "inputs", "schedules"], qtext="all sequences of problems up to the bound with any whole number of seconds between them, all interleavings of two goroutines",
 why="Tests use short real sleeps; the limits at every distance in time, and concurrent reports, are not tried.",
 files=[I+"doevery/doevery.go", M+"aggregator/aggregator.go", I+"viewstate/base_instrument.go", I+"syncstate/sync.go"],
 mech=[("one entry per call site, under a mutex", I+"doevery/doevery.go"), ("range tests report through it", M+"aggregator/aggregator.go")],
 observe=["errors given to the OpenTelemetry error handler"], note=NOTE),
]
NA = {}
