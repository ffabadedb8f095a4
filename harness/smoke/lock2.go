package main

import (
	"sync"

	"github.com/lightstep/otel-launcher-go/zzverif/rt"
)

// Lock2: the spawned thread runs between two critical sections of the main thread.
func Lock2() {
	var l1, l2 sync.Mutex
	stop := false
	x, r := 0, false
	rt.Go(func() {
		l1.Lock()
		ok := !stop
		l1.Unlock()
		if !ok {
			return
		}
		r = true
		l2.Lock()
		x = 1
		l2.Unlock()
	})
	l1.Lock()
	stop = true
	l1.Unlock()
	l2.Lock()
	y := x
	l2.Unlock()
	rt.Wait()
	rt.ObsInt("y", int64(y))
	rt.ObsBool("r", r)
}
