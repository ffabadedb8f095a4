package main

import (
	"sync"
	"sync/atomic"

	"github.com/lightstep/otel-launcher-go/zzverif/rt"
)

// Dpor has many distinguishable interleavings; it validates the reduction.
func Dpor() {
	var x, y, z int64
	var mu sync.Mutex
	var g int64
	var a, b, c, d, e int64
	rt.Go(func() {
		atomic.StoreInt64(&x, 1)
		a = atomic.LoadInt64(&y)
		mu.Lock()
		g = g*3 + 1
		mu.Unlock()
		d = atomic.AddInt64(&z, 1)
	})
	rt.Go(func() {
		atomic.StoreInt64(&y, 1)
		b = atomic.LoadInt64(&x)
		mu.Lock()
		g = g*3 + 2
		e = atomic.LoadInt64(&z)
		mu.Unlock()
	})
	rt.Go(func() {
		c = atomic.LoadInt64(&x) + 2*atomic.LoadInt64(&y)
		atomic.AddInt64(&z, 4)
		if rt.Param("cas", 0) > 0 {
			if atomic.CompareAndSwapInt64(&z, 4, 10) {
				mu.Lock()
				g = g * 7
				mu.Unlock()
			}
		}
	})
	rt.Wait()
	rt.ObsInt("a", a)
	rt.ObsInt("b", b)
	rt.ObsInt("c", c)
	rt.ObsInt("d", d)
	rt.ObsInt("e", e)
	rt.ObsInt("g", g)
	rt.ObsInt("z", z)
}

func Dpor2() {
	var x, y int64
	var a, b, c int64
	rt.Go(func() {
		atomic.StoreInt64(&x, 1)
		a = atomic.LoadInt64(&y)
	})
	rt.Go(func() {
		atomic.StoreInt64(&y, 1)
		b = atomic.LoadInt64(&x)
	})
	rt.Go(func() {
		c = atomic.LoadInt64(&x) + 2*atomic.LoadInt64(&y)
	})
	rt.Wait()
	rt.ObsInt("a", a)
	rt.ObsInt("b", b)
	rt.ObsInt("c", c)
}

func Dpor3() {
	var mu sync.RWMutex
	var once sync.Once
	ch := make(chan int64, 1)
	var g, o, h int64
	var a, b, c int64
	rt.Go(func() {
		mu.Lock()
		g = g*2 + 1
		mu.Unlock()
		once.Do(func() { atomic.StoreInt64(&o, 1) })
		select {
		case ch <- 1:
		default:
			h = 10
		}
	})
	rt.Go(func() {
		mu.RLock()
		a = g
		mu.RUnlock()
		once.Do(func() { atomic.StoreInt64(&o, 2) })
		b = atomic.LoadInt64(&o)
		mu.Lock()
		g = g * 5
		mu.Unlock()
	})
	rt.Go(func() {
		mu.RLock()
		c = g
		mu.RUnlock()
		select {
		case x := <-ch:
			c += 100 * x
		default:
		}
		if rt.Param("more", 0) > 0 {
			mu.Lock()
			g += 3
			mu.Unlock()
		}
	})
	rt.Wait()
	rt.ObsInt("a", a)
	rt.ObsInt("b", b)
	rt.ObsInt("c", c)
	rt.ObsInt("g", g)
	rt.ObsInt("h", h)
}

func Dpor4() {
	ch := make(chan int64)
	done := make(chan struct{})
	var a, b, n int64
	rt.Go(func() {
		ch <- 1
		atomic.AddInt64(&n, 1)
		ch <- 2
	})
	rt.Go(func() {
		ch <- 3
		a = atomic.LoadInt64(&n)
	})
	rt.Go(func() {
		for i := 0; i < 3; i++ {
			b = b*10 + <-ch
		}
		close(done)
	})
	<-done
	rt.Wait()
	rt.ObsInt("a", a)
	rt.ObsInt("b", b)
}
