package ztime

import "github.com/lightstep/otel-launcher-go/zzverif/rt"

func Now() Time             { return rt.Now() }
func Since(t Time) Duration { return rt.Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(rt.Now()) }
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	return rt.NewTicker(d)
}
func Tick(d Duration) <-chan Time           { return rt.NewTicker(d).C }
func Sleep(d Duration)                      { rt.Sleep(d) }
func After(d Duration) <-chan Time          { return NewTimer(d).C }
func AfterFunc(d Duration, f func()) *Timer { return rt.AfterFunc(d, f) }
func NewTimer(d Duration) *Timer            { return rt.NewTimer(d) }
