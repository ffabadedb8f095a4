// Package c25: the builtin instrumentation reports what it reads. The readings of
// the operating system and of package runtime/metrics come from stand-ins.
package main

import (
	"context"
	"errors"
	"sync"
	"time"

	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/cputime"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/host"
	"github.com/lightstep/otel-launcher-go/lightstep/instrumentation/runtime"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/aggregator/aggregation"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/data"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/number"
	"github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/sdkinstrument"
	h "github.com/lightstep/otel-launcher-go/lightstep/sdk/metric/zzverif/hlib"
	"github.com/lightstep/otel-launcher-go/pipelines"
	"github.com/lightstep/otel-launcher-go/zzverif/rt"
	"github.com/lightstep/otel-launcher-go/zzverif/zmetrics"
	"github.com/lightstep/otel-launcher-go/zzverif/zsyscall"
	"github.com/open-telemetry/opentelemetry-collector-contrib/exporter/otelarrowexporter"
	"github.com/open-telemetry/otel-arrow/collector/processor/concurrentbatchprocessor"
	"github.com/shirou/gopsutil/v3/cpu"
	"github.com/shirou/gopsutil/v3/mem"
	"github.com/shirou/gopsutil/v3/net"
	"go.opentelemetry.io/collector/pdata/pmetric"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	apimetric "go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/sdk/resource"
)

func main() {
	rt.Run(map[string]func(){"Runtime": Runtime, "RuntimeNames": RuntimeNames, "Conc": Conc, "RuntimeKinds": RuntimeKinds, "Host": Host, "HostFails": HostFails, "CPUTime": CPUTime, "CPUTimeFails": CPUTimeFails, "Builtins": Builtins, "Global": Global})
}

func setup() (*metric.MeterProvider, *metric.ManualReader, *[]error) {
	errs := new([]error)
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) { *errs = append(*errs, err) }))
	r := metric.NewManualReader("r")
	return h.Provider(metric.WithReader(r, h.Cumulative())), r, errs
}

// one is the point of the instrument with these attributes.
func one(d data.Metrics, name, unit string, kind sdkinstrument.Kind, kvs ...attribute.KeyValue) data.Point {
	is := h.Insts(d, name)
	rt.Assert(len(is) == 1, "the instrument is reported once under its documented name")
	rt.Assert(is[0].Descriptor.Unit == unit, "the unit is the documented one")
	rt.Assert(is[0].Descriptor.Kind == kind, "the instrument is of the documented kind")
	ps := h.At(d, name, attribute.NewSet(kvs...))
	rt.Assert(len(ps) == 1, "the reading is reported once under its documented attributes")
	return ps[0]
}

func points(d data.Metrics) (n int) {
	for _, i := range h.All(d) {
		n += len(i.Points)
	}
	return
}

func i64(p data.Point) int64 {
	if p.Aggregation.Kind() == aggregation.GaugeKind {
		return number.ToInt64(p.Aggregation.(aggregation.Gauge).Gauge())
	}
	return h.SumI(p)
}

func f64(p data.Point) float64 {
	if p.Aggregation.Kind() == aggregation.GaugeKind {
		return number.ToFloat64(p.Aggregation.(aggregation.Gauge).Gauge())
	}
	return h.SumF(p)
}

const (
	counter = sdkinstrument.AsyncCounter
	updown  = sdkinstrument.AsyncUpDownCounter
	gauge   = sdkinstrument.AsyncGauge
)

type metricRow struct {
	name   string
	kind   zmetrics.ValueKind
	out    string // "" = not reported
	unit   string
	inst   sdkinstrument.Kind
	class  []string
	errors bool
}

const (
	u64 = zmetrics.KindUint64
	flt = zmetrics.KindFloat64
	his = zmetrics.KindFloat64Histogram
)

// What the documentation of the package says about the metrics of the runtime.
var table = []metricRow{
	{name: "/cgo/go-to-c-calls:calls", kind: u64, out: "cgo.go-to-c-calls", unit: "{calls}", inst: counter},
	{name: "/cpu/classes/gc/mark/assist:cpu-seconds", kind: flt, out: "cpu.time", unit: "{cpu-seconds}", inst: counter, class: []string{"gc", "mark", "assist"}},
	{name: "/cpu/classes/idle:cpu-seconds", kind: flt, out: "cpu.time", unit: "{cpu-seconds}", inst: counter, class: []string{"idle"}},
	{name: "/cpu/classes/scavenge/background:cpu-seconds", kind: flt, out: "cpu.time", unit: "{cpu-seconds}", inst: counter, class: []string{"scavenge", "background"}},
	{name: "/cpu/classes/gc/total:cpu-seconds", kind: flt},
	{name: "/cpu/classes/total:cpu-seconds", kind: flt},
	{name: "/gc/cycles/automatic:gc-cycles", kind: u64, out: "gc.cycles", unit: "{gc-cycles}", inst: counter, class: []string{"automatic"}},
	{name: "/gc/cycles/forced:gc-cycles", kind: u64, out: "gc.cycles", unit: "{gc-cycles}", inst: counter, class: []string{"forced"}},
	{name: "/gc/cycles/total:gc-cycles", kind: u64},
	{name: "/gc/heap/allocs:bytes", kind: u64, out: "gc.heap.allocs", unit: "By", inst: counter},
	{name: "/gc/heap/allocs:objects", kind: u64, out: "gc.heap.allocs.objects", inst: counter},
	{name: "/gc/heap/frees:bytes", kind: u64, out: "gc.heap.frees", unit: "By", inst: counter},
	{name: "/gc/heap/frees:objects", kind: u64, out: "gc.heap.frees.objects", inst: counter},
	{name: "/gc/heap/tiny/allocs:objects", kind: u64, out: "gc.heap.tiny.allocs", unit: "{objects}", inst: counter},
	{name: "/gc/heap/goal:bytes", kind: u64, out: "gc.heap.goal", unit: "By", inst: gauge},
	{name: "/gc/heap/objects:objects", kind: u64, out: "gc.heap.objects", unit: "{objects}", inst: updown},
	{name: "/gc/gogc:percent", kind: u64, out: "gc.gogc", unit: "{percent}", inst: gauge},
	{name: "/gc/gomemlimit:bytes", kind: u64, out: "gc.gomemlimit", unit: "By", inst: gauge},
	{name: "/gc/heap/live:bytes", kind: u64, out: "gc.heap.live", unit: "By", inst: gauge},
	{name: "/gc/limiter/last-enabled:gc-cycle", kind: u64, out: "gc.limiter.last-enabled", unit: "{gc-cycle}", inst: gauge},
	{name: "/gc/stack/starting-size:bytes", kind: u64, out: "gc.stack.starting-size", unit: "By", inst: gauge},
	{name: "/gc/scan/globals:bytes", kind: u64, out: "gc.scan", unit: "By", inst: updown, class: []string{"globals"}},
	{name: "/gc/scan/total:bytes", kind: u64},
	{name: "/memory/classes/heap/free:bytes", kind: u64, out: "memory.usage", unit: "By", inst: updown, class: []string{"heap", "free"}},
	{name: "/memory/classes/metadata/mcache/inuse:bytes", kind: u64, out: "memory.usage", unit: "By", inst: updown, class: []string{"metadata", "mcache", "inuse"}},
	{name: "/memory/classes/other:bytes", kind: u64, out: "memory.usage", unit: "By", inst: updown, class: []string{"other"}},
	{name: "/memory/classes/total:bytes", kind: u64},
	{name: "/sched/gomaxprocs:threads", kind: u64, out: "sched.gomaxprocs", unit: "{threads}", inst: gauge},
	{name: "/sched/goroutines:goroutines", kind: u64, out: "sched.goroutines", unit: "{goroutines}", inst: updown},
	{name: "/sync/mutex/wait/total:seconds", kind: flt, out: "sync.mutex.wait.total", unit: "s", inst: counter},
	{name: "/godebug/non-default-behavior/zip:events", kind: u64},
	{name: "/gc/heap/allocs-by-size:bytes", kind: his},
	{name: "/gc/heap/frees-by-size:bytes", kind: his},
	{name: "/gc/pauses:seconds", kind: his},
	{name: "/sched/latencies:seconds", kind: his},
	{name: "/sched/pauses/total/gc:seconds", kind: his},
	{name: "/not/known:things", kind: u64, errors: true},
	{name: "/memory/classes:bytes", kind: u64, errors: true},
	{name: "/sched/goroutines:goroutines/s", kind: u64, errors: true},
	{name: "", kind: u64, errors: true},
}

func (m *metricRow) attrs() (kvs []attribute.KeyValue) {
	for i, c := range m.class {
		kvs = append(kvs, attribute.String([]string{"class", "class2", "class3", "class4"}[i], c))
	}
	return
}

// runs the instrumentation for these metrics of the runtime and compares two
// collections of any readings.
func run(rows []metricRow) {
	mp, r, errs := setup()
	zmetrics.AllHook = func() (ds []zmetrics.Description) {
		for _, m := range rows {
			ds = append(ds, zmetrics.Description{Name: m.name, Kind: m.kind})
		}
		return
	}
	vals := map[string]zmetrics.Value{}
	zmetrics.ReadHook = func(ss []zmetrics.Sample) {
		for i := range ss {
			ss[i].Value = vals[ss[i].Name]
		}
	}
	bad, known := 0, 0
	for _, m := range rows {
		if m.errors {
			bad++
		}
		if m.out != "" {
			known++
		}
	}
	err := runtime.Start(runtime.WithMeterProvider(mp))
	rt.Assert(err == nil || known == 0, "the instrumentation starts")
	rt.Assert(len(*errs) == bad, "metrics that are not known are reported as errors and left out")
	for i := 0; i < 2; i++ {
		for _, m := range rows {
			switch m.kind {
			case u64:
				v := rt.Int64("u")
				rt.Assume(v >= 0)
				vals[m.name] = zmetrics.Uint64(uint64(v))
			case flt:
				v := rt.Float64("f")
				rt.Assume(rt.And(v >= 0, v < 1e300))
				vals[m.name] = zmetrics.Float64(v)
			case his:
				vals[m.name] = zmetrics.Hist(&zmetrics.Float64Histogram{})
			}
		}
		d := r.Produce(nil)
		n := 0
		for _, m := range rows {
			if m.out == "" {
				continue
			}
			n++
			p := one(d, "process.runtime.go."+m.out, m.unit, m.inst, m.attrs()...)
			if m.kind == u64 {
				rt.Assert(uint64(i64(p)) == vals[m.name].Uint64(), "the value is the reading")
			} else {
				rt.Assert(f64(p) == vals[m.name].Float64(), "the value is the reading")
			}
		}
		rt.Assert(points(d) == n, "nothing else is reported")
		rt.Assert(len(*errs) == bad, "a collection makes no errors")
	}
}

// Runtime: any selection of metrics in any order.
func Runtime() {
	var rows []metricRow
	used := map[int]bool{}
	for i, n := 0, rt.Param("metrics", 2); i < n; i++ {
		k := rt.Choose("metric", len(table))
		if used[k] {
			return
		}
		used[k] = true
		rows = append(rows, table[k])
	}
	if rt.Param("all", 0) == 1 {
		rows = nil
		at := rt.Choose("first", len(table))
		rows = append(append(rows, table[at:]...), table[:at]...)
	}
	run(rows)
}

// RuntimeNames: names below the documented patterns that no present runtime has.
func RuntimeNames() {
	parts := []string{"a", "total", "heap-b", "classes"}
	var class []string
	name := ""
	for i, n := 0, 1+rt.Choose("len", 3); i < n; i++ {
		c := parts[rt.Choose("part", len(parts))]
		class = append(class, c)
		name += "/" + c
	}
	row := []metricRow{
		{name: "/memory/classes" + name + ":bytes", kind: u64, out: "memory.usage", unit: "By", inst: updown},
		{name: "/cpu/classes" + name + ":cpu-seconds", kind: flt, out: "cpu.time", unit: "{cpu-seconds}", inst: counter},
		{name: "/gc/cycles" + name + ":gc-cycles", kind: u64, out: "gc.cycles", unit: "{gc-cycles}", inst: counter},
		{name: "/gc/scan" + name + ":bytes", kind: u64, out: "gc.scan", unit: "By", inst: updown},
	}[rt.Choose("family", 4)]
	row.class = class
	if class[len(class)-1] == "total" {
		row.out = ""
	}
	run([]metricRow{table[0], row})
}

// RuntimeKinds: metrics of a kind that the documentation does not expect do no harm.
func RuntimeKinds() {
	mp, r, errs := setup()
	first := table[rt.Choose("metric", len(table))]
	ok := metricRow{name: "/sched/goroutines:goroutines", kind: u64}
	if first.name == ok.name {
		return
	}
	kind := []zmetrics.ValueKind{zmetrics.KindBad, u64, flt, his}[rt.Choose("kind", 4)]
	ds := []zmetrics.Description{{Name: first.name, Kind: kind}, {Name: ok.name, Kind: u64}}
	if rt.Choose("order", 2) == 1 {
		ds[0], ds[1] = ds[1], ds[0]
	}
	zmetrics.AllHook = func() []zmetrics.Description { return ds }
	zmetrics.ReadHook = func(ss []zmetrics.Sample) {
		for i := range ss {
			switch {
			case ss[i].Name == ok.name:
				ss[i].Value = zmetrics.Uint64(77)
			case kind == u64:
				ss[i].Value = zmetrics.Uint64(5)
			case kind == flt:
				ss[i].Value = zmetrics.Float64(5)
			case kind == his:
				ss[i].Value = zmetrics.Hist(&zmetrics.Float64Histogram{})
			}
		}
	}
	rt.Assert(runtime.Start(runtime.WithMeterProvider(mp)) == nil, "the instrumentation starts")
	d := r.Produce(nil)
	p := one(d, "process.runtime.go.sched.goroutines", "{goroutines}", updown)
	rt.Assert(i64(p) == 77, "the other metric is reported")
	_ = errs
}

// Conc: two readers collect at the same time; each reports what was read for it.
func Conc() {
	errs := 0
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) { errs++ }))
	r1, r2 := metric.NewManualReader("1"), metric.NewManualReader("2")
	mp := h.Provider(metric.WithReader(r1, h.Cumulative()), metric.WithReader(r2, h.Cumulative()))
	var lock sync.Mutex
	k := 0
	next := func() int {
		lock.Lock()
		defer lock.Unlock()
		k++
		return k
	}
	lib := rt.Choose("library", 3)
	switch lib {
	case 0:
		rows := []metricRow{table[14], table[16]}
		zmetrics.AllHook = func() (ds []zmetrics.Description) {
			for _, m := range rows {
				ds = append(ds, zmetrics.Description{Name: m.name, Kind: m.kind})
			}
			return
		}
		zmetrics.ReadHook = func(ss []zmetrics.Sample) {
			v := next()
			for i := range ss {
				ss[i].Value = zmetrics.Uint64(uint64(v))
			}
		}
		rt.Assert(runtime.Start(runtime.WithMeterProvider(mp)) == nil, "the instrumentation starts")
	case 1:
		cpu.Hook = func(per bool) ([]cpu.TimesStat, error) {
			v := float64(next())
			return []cpu.TimesStat{{User: v, System: v}}, nil
		}
		mem.Hook = func() (*mem.VirtualMemoryStat, error) { return &mem.VirtualMemoryStat{Total: 1}, nil }
		net.Hook = func(per bool) ([]net.IOCountersStat, error) { return make([]net.IOCountersStat, 1), nil }
		rt.Assert(host.Start(host.WithMeterProvider(mp)) == nil, "the instrumentation starts")
	case 2:
		zsyscall.Hook = func(who int, ru *zsyscall.Rusage) error {
			v := int64(next())
			ru.Utime.Sec, ru.Stime.Sec = v, v
			return nil
		}
		rt.Assert(cputime.Start(cputime.WithMeterProvider(mp)) == nil, "the instrumentation starts")
	}
	k = 0
	check := func(d data.Metrics) {
		a, b := 0.0, 0.0
		switch lib {
		case 0:
			a = float64(i64(one(d, "process.runtime.go.gc.heap.goal", "By", gauge)))
			b = float64(i64(one(d, "process.runtime.go.gc.gogc", "{percent}", gauge)))
		case 1:
			a = f64(one(d, "system.cpu.time", "s", counter, state("user")))
			b = f64(one(d, "system.cpu.time", "s", counter, state("system")))
		case 2:
			a = f64(one(d, "process.cpu.time", "s", counter, state("user")))
			b = f64(one(d, "process.cpu.time", "s", counter, state("system")))
		}
		rt.Assert(a == b && (a == 1 || a == 2), "the values of a collection are from one reading")
	}
	rt.Go(func() { check(r1.Produce(nil)) })
	check(r2.Produce(nil))
	rt.Wait()
	rt.Assert(errs == 0, "no errors")
}

func reading() float64 {
	v := rt.Float64("reading")
	rt.Assume(rt.And(v >= 0, v < 1e300))
	return v
}

func bytes() uint64 {
	v := rt.Int64("bytes")
	rt.Assume(v >= 0)
	return uint64(v)
}

type hostReading struct {
	cpu cpu.TimesStat
	mem mem.VirtualMemoryStat
	net net.IOCountersStat
}

func (x *hostReading) hooks() {
	cpu.Hook = func(per bool) ([]cpu.TimesStat, error) {
		rt.Assert(!per, "the sum over all is read")
		return []cpu.TimesStat{x.cpu}, nil
	}
	mem.Hook = func() (*mem.VirtualMemoryStat, error) {
		m := x.mem
		return &m, nil
	}
	net.Hook = func(per bool) ([]net.IOCountersStat, error) {
		rt.Assert(!per, "the sum over all is read")
		return []net.IOCountersStat{x.net}, nil
	}
}

func state(s string) attribute.KeyValue  { return attribute.String("state", s) }
func direct(s string) attribute.KeyValue { return attribute.String("direction", s) }

// Host: any readings, two collections.
func Host() {
	mp, r, errs := setup()
	x := &hostReading{}
	x.hooks()
	rt.Assert(host.Start(host.WithMeterProvider(mp)) == nil, "the instrumentation starts")
	for i, n := 0, rt.Param("collects", 1); i < n; i++ {
		c := &x.cpu
		c.User, c.System, c.Idle = reading(), reading(), reading()
		// the other states: powers of two, their sum is exact in any order
		other := 0.0
		for i, f := range []*float64{&c.Nice, &c.Iowait, &c.Irq, &c.Softirq, &c.Steal, &c.Guest, &c.GuestNice} {
			*f = 0
			if rt.Param("others", 1) == 1 && rt.Choose("other", 2) == 1 {
				*f = float64(int(1) << i)
			}
			other += *f
		}
		k := rt.Choose("memory", 5)
		x.mem.Used = []uint64{0, 1, 3 << 30, 5<<40 + 1, 77777777777}[k]
		x.mem.Available = []uint64{1, 0, 5 << 30, 1<<40 + 3, 3}[k]
		x.mem.Total = []uint64{1, 3, 9 << 30, 7<<40 + 5, 77777777780}[k]
		x.net.BytesSent, x.net.BytesRecv = bytes(), bytes()
		d := r.Produce(nil)
		rt.Assert(f64(one(d, "system.cpu.time", "s", counter, state("user"))) == c.User, "user CPU time")
		rt.Assert(f64(one(d, "system.cpu.time", "s", counter, state("system"))) == c.System, "system CPU time")
		rt.Assert(f64(one(d, "system.cpu.time", "s", counter, state("idle"))) == c.Idle, "idle CPU time")
		rt.Assert(f64(one(d, "system.cpu.time", "s", counter, state("other"))) == other, "other CPU time is the sum of the other states")
		rt.Assert(uint64(i64(one(d, "system.memory.usage", "By", updown, state("used")))) == x.mem.Used, "used memory")
		rt.Assert(uint64(i64(one(d, "system.memory.usage", "By", updown, state("available")))) == x.mem.Available, "available memory")
		rt.Assert(f64(one(d, "system.memory.utilization", "", gauge, state("used"))) == float64(x.mem.Used)/float64(x.mem.Total), "used memory, as a part of the total")
		rt.Assert(f64(one(d, "system.memory.utilization", "", gauge, state("available"))) == float64(x.mem.Available)/float64(x.mem.Total), "available memory, as a part of the total")
		rt.Assert(uint64(i64(one(d, "system.network.io", "By", counter, direct("transmit")))) == x.net.BytesSent, "bytes sent")
		rt.Assert(uint64(i64(one(d, "system.network.io", "By", counter, direct("receive")))) == x.net.BytesRecv, "bytes received")
		rt.Assert(points(d) == 10, "nothing else is reported")
	}
	rt.Assert(len(*errs) == 0, "no errors")
}

// HostFails: readings that fail are errors, never values.
func HostFails() {
	mp, r, errs := setup()
	x := &hostReading{cpu: cpu.TimesStat{User: 1, System: 2, Idle: 3, Nice: 4}, mem: mem.VirtualMemoryStat{Used: 5, Available: 6, Total: 11}, net: net.IOCountersStat{BytesSent: 7, BytesRecv: 8}}
	x.hooks()
	rt.Assert(host.Start(host.WithMeterProvider(mp)) == nil, "the instrumentation starts")
	before := rt.Choose("before", 2) == 1
	if before {
		rt.Assert(points(r.Produce(nil)) == 10, "everything is reported")
	}
	failed := errors.New("failed")
	switch rt.Choose("fail", 7) {
	case 0:
		cpu.Hook = func(bool) ([]cpu.TimesStat, error) { return nil, failed }
	case 1:
		mem.Hook = func() (*mem.VirtualMemoryStat, error) { return nil, failed }
	case 2:
		net.Hook = func(bool) ([]net.IOCountersStat, error) { return nil, failed }
	case 3:
		cpu.Hook = func(bool) ([]cpu.TimesStat, error) { return nil, nil }
	case 4:
		net.Hook = func(bool) ([]net.IOCountersStat, error) { return nil, nil }
	case 5:
		cpu.Hook = func(bool) ([]cpu.TimesStat, error) { return make([]cpu.TimesStat, 2), nil }
	case 6:
		net.Hook = func(bool) ([]net.IOCountersStat, error) { return make([]net.IOCountersStat, 2), nil }
	}
	d := r.Produce(nil)
	rt.Assert(len(*errs) > 0, "a failure to read is reported")
	for _, i := range h.All(d) {
		for _, p := range i.Points {
			v := 0.0
			if i.Descriptor.NumberKind == number.Int64Kind {
				v = float64(i64(p))
			} else {
				v = f64(p)
			}
			rt.Assert(v > 0, "a failure to read is not reported as a value")
		}
	}
	x.hooks()
	n := len(*errs)
	rt.Assert(points(r.Produce(nil)) == 10, "afterwards everything is reported again")
	rt.Assert(len(*errs) == n, "afterwards there are no errors")
}

// CPUTime: any readings.
func CPUTime() {
	mp, r, errs := setup()
	var us, uu, ss, su int64
	zsyscall.Hook = func(who int, ru *zsyscall.Rusage) error {
		rt.Assert(who == zsyscall.RUSAGE_SELF, "the process's own usage is read")
		ru.Utime.Sec, ru.Utime.Usec = us, uu
		ru.Stime.Sec, ru.Stime.Usec = ss, su
		return nil
	}
	rt.Assert(cputime.Start(cputime.WithMeterProvider(mp)) == nil, "the instrumentation starts")
	secs := []int64{0, 1, 59, 86400, 31557600}
	usecs := []int64{0, 1, 250000, 999999}
	var last float64
	var from, to time.Time
	for i := 0; i < 2; i++ {
		if i == 0 || rt.Param("again", 0) == 1 {
			us, uu = secs[rt.Choose("s", len(secs))], usecs[rt.Choose("us", len(usecs))]
			ss, su = secs[rt.Choose("s", len(secs))], usecs[rt.Choose("us", len(usecs))]
		}
		t0 := time.Now()
		d := r.Produce(nil)
		t1 := time.Now()
		near := func(got float64, s, us int64) bool {
			x := got - (float64(s) + float64(us)/1e6)
			return rt.And(x < 1e-7, x > -1e-7)
		}
		rt.Assert(near(f64(one(d, "process.cpu.time", "s", counter, state("user"))), us, uu), "user CPU time")
		rt.Assert(near(f64(one(d, "process.cpu.time", "s", counter, state("system"))), ss, su), "system CPU time")
		up := f64(one(d, "process.uptime", "s", updown))
		if i > 0 {
			// (the start of the process is before the harness, only differences count)
			grown := up - last
			rt.Assert(grown >= t0.Sub(to).Seconds()-1e-5 && grown <= t1.Sub(from).Seconds()+1e-5, "the uptime grows as the time passes")
		}
		last, from, to = up, t0, t1
		rt.Assert(points(d) == 3, "nothing else is reported")
	}
	rt.Assert(len(*errs) == 0, "no errors")
}

// CPUTimeFails: readings that fail are errors, never values.
func CPUTimeFails() {
	mp, r, errs := setup()
	failed := errors.New("failed")
	fail := rt.Choose("start", 2) == 1
	zsyscall.Hook = func(_ int, ru *zsyscall.Rusage) error {
		if fail {
			return failed
		}
		ru.Utime.Sec, ru.Stime.Sec = 5, 6
		return nil
	}
	err := cputime.Start(cputime.WithMeterProvider(mp))
	rt.Assert((err != nil) == fail, "it starts when the readings work")
	if fail {
		rt.Assert(points(r.Produce(nil)) == 0, "nothing is reported")
		return
	}
	fail = true
	d := r.Produce(nil)
	rt.Assert(len(*errs) > 0, "a failure to read is reported")
	rt.Assert(len(h.Points(d, "process.cpu.time")) == 0, "a failure to read is not reported as a value")
	fail = false
	rt.Assert(points(r.Produce(nil)) == 3, "afterwards everything is reported again")
}

// Builtins: the metrics pipeline starts exactly the libraries it is configured with.
func Builtins() {
	rt.SetTicks(0)
	exp := &otelarrowexporter.Probe{}
	bat := &concurrentbatchprocessor.Probe{}
	otelarrowexporter.Next = func(string) *otelarrowexporter.Probe { return exp }
	concurrentbatchprocessor.Next = func(string) *concurrentbatchprocessor.Probe { return bat }
	got := map[string]int{}
	exp.Metrics = func(_ context.Context, m pmetric.Metrics) error {
		for i := 0; i < m.ResourceMetrics().Len(); i++ {
			sms := m.ResourceMetrics().At(i).ScopeMetrics()
			for j := 0; j < sms.Len(); j++ {
				ms := sms.At(j).Metrics()
				for k := 0; k < ms.Len(); k++ {
					got[ms.At(k).Name()]++
				}
			}
		}
		return nil
	}
	x := &hostReading{cpu: cpu.TimesStat{User: 1, System: 2, Idle: 3, Nice: 4}, mem: mem.VirtualMemoryStat{Used: 5, Available: 6, Total: 11}, net: net.IOCountersStat{BytesSent: 7, BytesRecv: 8}}
	x.hooks()
	cpufails := rt.Choose("fails", 2) == 1
	zsyscall.Hook = func(_ int, ru *zsyscall.Rusage) error {
		if cpufails {
			return errors.New("failed")
		}
		ru.Utime.Sec, ru.Stime.Sec = 5, 6
		return nil
	}
	zmetrics.AllHook = func() []zmetrics.Description {
		return []zmetrics.Description{{Name: "/sched/goroutines:goroutines", Kind: u64}}
	}
	zmetrics.ReadHook = func(ss []zmetrics.Sample) {
		for i := range ss {
			ss[i].Value = zmetrics.Uint64(9)
		}
	}
	var errs []error
	otel.SetErrorHandler(otel.ErrorHandlerFunc(func(err error) { errs = append(errs, err) }))
	names := []string{"all", "all:stable", "host", "host:stable", "cputime", "cputime:stable", "runtime", "runtime:stable", "other", "", "host:other", "all:", ":stable", "hos"}
	enabled := rt.Choose("enabled", 2) == 1
	var libs []string
	var host, cput, run bool
	wrong := 0
	for i, n := 0, rt.Choose("libs", rt.Param("libs", 2)+1); i < n; i++ {
		k := rt.Choose("lib", len(names))
		libs = append(libs, names[k])
		switch k {
		case 0, 1, 11:
			host, cput, run = true, true, true
			if cpufails {
				wrong++
			}
		case 2, 3:
			host = true
		case 4, 5:
			cput = true
			if cpufails {
				wrong++
			}
		case 6, 7:
			run = true
		default:
			wrong++
		}
	}
	if !enabled {
		host, cput, run, wrong = false, false, false, 0
	}
	shutdown, err := pipelines.NewMetricsPipeline(pipelines.PipelineConfig{Endpoint: "host:1", Insecure: true, Resource: resource.Empty(), MetricsBuiltinsEnabled: enabled, MetricsBuiltinLibraries: libs})
	rt.Assert(err == nil, "the pipeline starts")
	rt.Assert(len(errs) == wrong, "libraries that do not exist or do not start are reported")
	rt.Assert(shutdown() == nil, "the shutdown succeeds")
	for name, want := range map[string]bool{
		"system.cpu.time": host, "system.memory.usage": host, "system.memory.utilization": host, "system.network.io": host,
		"process.cpu.time": cput && !cpufails, "process.uptime": cput && !cpufails, "process.runtime.go.sched.goroutines": run,
	} {
		w := 0
		if want {
			w = 1
		}
		rt.Assert(got[name] == w, "exactly the metrics of the configured libraries are exported")
	}
}

// Global: without a provider, or with none, the global one is used.
func Global() {
	mp, r, errs := setup()
	other := metric.NewManualReader("other")
	op := metric.NewMeterProvider(metric.WithReader(other))
	x := &hostReading{cpu: cpu.TimesStat{User: 1}, mem: mem.VirtualMemoryStat{Used: 5, Available: 6, Total: 11}}
	x.hooks()
	zsyscall.Hook = func(_ int, ru *zsyscall.Rusage) error { return nil }
	zmetrics.AllHook = func() []zmetrics.Description {
		return []zmetrics.Description{{Name: "/sched/goroutines:goroutines", Kind: u64}}
	}
	zmetrics.ReadHook = func(ss []zmetrics.Sample) {
		for i := range ss {
			ss[i].Value = zmetrics.Uint64(9)
		}
	}
	how := rt.Choose("how", 3)
	var use apimetric.MeterProvider
	if how == 2 {
		otel.SetMeterProvider(op)
		use = mp
	} else {
		otel.SetMeterProvider(mp)
	}
	var err error
	n := 0
	switch lib := rt.Choose("library", 3); {
	case lib == 0 && how == 0:
		n, err = 10, host.Start()
	case lib == 0:
		n, err = 10, host.Start(host.WithMeterProvider(use))
	case lib == 1 && how == 0:
		n, err = 3, cputime.Start()
	case lib == 1:
		n, err = 3, cputime.Start(cputime.WithMeterProvider(use))
	case lib == 2 && how == 0:
		n, err = 1, runtime.Start()
	case lib == 2:
		n, err = 1, runtime.Start(runtime.WithMeterProvider(use))
	}
	rt.Assert(err == nil && len(*errs) == 0, "the instrumentation starts")
	rt.Assert(points(r.Produce(nil)) == n, "everything is reported to the given provider, or else to the global one")
	rt.Assert(points(other.Produce(nil)) == 0, "and to no other")
}
