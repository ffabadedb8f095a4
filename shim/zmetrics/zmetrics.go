// Package zmetrics stands in for package runtime/metrics: a harness provides the
// descriptions and the readings.
package zmetrics

type ValueKind int

const (
	KindBad ValueKind = iota
	KindUint64
	KindFloat64
	KindFloat64Histogram
)

type Float64Histogram struct {
	Counts  []uint64
	Buckets []float64
}

type Value struct {
	kind ValueKind
	u    uint64
	f    float64
	h    *Float64Histogram
}

func (v Value) Kind() ValueKind { return v.kind }

func (v Value) Uint64() uint64 {
	if v.kind != KindUint64 {
		panic("called Uint64 on non-uint64 metric value")
	}
	return v.u
}

func (v Value) Float64() float64 {
	if v.kind != KindFloat64 {
		panic("called Float64 on non-float64 metric value")
	}
	return v.f
}

func (v Value) Float64Histogram() *Float64Histogram {
	if v.kind != KindFloat64Histogram {
		panic("called Float64Histogram on non-Float64Histogram metric value")
	}
	return v.h
}

// The values a harness makes.
func Uint64(u uint64) Value          { return Value{kind: KindUint64, u: u} }
func Float64(f float64) Value        { return Value{kind: KindFloat64, f: f} }
func Hist(h *Float64Histogram) Value { return Value{kind: KindFloat64Histogram, h: h} }

type Description struct {
	Name        string
	Description string
	Kind        ValueKind
	Cumulative  bool
}

type Sample struct {
	Name  string
	Value Value
}

var (
	AllHook  func() []Description
	ReadHook func([]Sample)
)

func All() []Description {
	if AllHook == nil {
		return nil
	}
	return AllHook()
}

func Read(m []Sample) {
	if ReadHook == nil {
		for i := range m {
			m[i].Value = Value{}
		}
		return
	}
	ReadHook(m)
}
