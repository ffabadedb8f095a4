// Package rt is the harness runtime. Under the symbolic engine every exported
// function is an intrinsic; compiled natively it replays recorded inputs and
// schedules against the real code.
package rt

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
)

type inputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type caseT struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []inputVal     `json:"inputs"`
	Sched   []int          `json:"sched"`
	Free    bool           `json:"free"`
	Repeat  int            `json:"repeat"`
	Timeout int            `json:"timeout_ms"`
	Clock   bool           `json:"clock"`
	Budget  int            `json:"budget_ms"` // for repeats
}

type result struct {
	Case     int      `json:"case"`
	Status   string   `json:"status"` // ok assert panic assume stuck
	Msgs     []string `json:"msgs"`
	Obs      []string `json:"obs"`
	Diverged bool     `json:"diverged"`
	Note     string   `json:"note"`
}

type assumeFail struct{}

type thread struct {
	id   int
	done bool
	sel  int
}

type state struct {
	mu      sync.Mutex
	c       caseT
	queues  map[string][]uint64
	hash    map[string]uint64
	obs     []string
	msgs    []string
	panics  []string
	assumed bool
	div     bool
	note    string
	// controlled scheduling
	ctl      bool
	threads  []*thread
	byGo     map[uint64]*thread
	cond     *sync.Cond
	token    *thread // the one that may run
	inChan   bool
	moved    time.Time
	pos      int
	wg       sync.WaitGroup
	lastT    time.Time
	timeSet  bool
	skipped  int64
	interval time.Duration
	ticks    int
	timers   bool
}

var st *state

func key(kind, name string) string { return kind + "|" + name }

func newState(c caseT) *state {
	s := &state{c: c, queues: map[string][]uint64{}, hash: map[string]uint64{}}
	for _, in := range c.Inputs {
		k := key(in.Kind, in.Name)
		s.queues[k] = append(s.queues[k], in.Val)
	}
	m := &thread{id: 0, sel: -2}
	s.threads = []*thread{m}
	s.token = m
	s.byGo = map[uint64]*thread{}
	s.cond = sync.NewCond(&s.mu)
	s.ctl = !c.Free
	return s
}

func (s *state) pop(kind, name string) (uint64, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := key(kind, name)
	q := s.queues[k]
	if len(q) == 0 {
		if kind != "time" && kind != "elapsed" && kind != "nsec" {
			s.div = true
			s.note = "no recorded input for " + k
		}
		return 0, false
	}
	s.queues[k] = q[1:]
	return q[0], true
}

// ---- inputs

func Int64(name string) int64   { v, _ := st.pop("int64", name); return int64(v) }
func Uint64(name string) uint64 { v, _ := st.pop("uint64", name); return v }
func Int(name string) int       { v, _ := st.pop("int", name); return int(v) }
func Int32(name string) int32   { v, _ := st.pop("int32", name); return int32(v) }
func Uint32(name string) uint32 { v, _ := st.pop("uint32", name); return uint32(v) }
func Byte(name string) byte     { v, _ := st.pop("byte", name); return byte(v) }
func Bool(name string) bool     { v, _ := st.pop("bool", name); return v != 0 }
func Float64(name string) float64 {
	v, _ := st.pop("float64", name)
	return math.Float64frombits(v)
}
func String(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(fmt.Sprintf("%s[%d]", name, i))
	}
	return string(b)
}

// Choose picks one of n alternatives.
func Choose(name string, n int) int { v, _ := st.pop("choose", name); return int(v) }

// Param reads a bound of the current run.
func Param(name string, def int) int {
	if v, ok := st.c.Params[name]; ok {
		return v
	}
	return def
}

// Assume restricts the inputs considered.
func Assume(ok bool) {
	if !ok {
		panic(assumeFail{})
	}
}

// Assert states the property.
func Assert(ok bool, msg string) {
	if !ok {
		s := st
		s.mu.Lock()
		s.msgs = append(s.msgs, msg)
		s.mu.Unlock()
	}
}

func Fail(msg string) { Assert(false, msg); panic(assumeFail{}) }

// Reach marks a point that some execution must reach.
func Reach(label string) {}

func Symbolic() bool { return false }

func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }
func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteFloat64(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func obs(s string) {
	x := st
	x.mu.Lock()
	x.obs = append(x.obs, s)
	x.mu.Unlock()
}
func ObsInt(name string, v int64)   { obs(fmt.Sprintf("%s=%d", name, v)) }
func ObsUint(name string, v uint64) { obs(fmt.Sprintf("%s=%d", name, v)) }
func ObsBool(name string, v bool)   { obs(fmt.Sprintf("%s=%v", name, v)) }
func ObsStr(name string, v string)  { obs(fmt.Sprintf("%s=%q", name, v)) }
func ObsFloat(name string, v float64) {
	if v != v {
		obs(name + "=NaN")
		return
	}
	obs(fmt.Sprintf("%s=%x", name, math.Float64bits(v)))
}

func Setenv(k, v string) { os.Setenv(k, v) }

// ---- threads

// goid identifies the calling goroutine.
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// Visible is called before every synchronisation operation; it returns when the
// recorded schedule says that this thread performs its operation.
func Visible() { visible(false) }

func visible(ch bool) {
	s := st
	if s == nil {
		return
	}
	if s.c.Free {
		jitter()
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.ctl || len(s.threads) == 1 {
		return
	}
	me := s.byGo[goid()]
	if me == nil {
		return
	}
	if s.token == me {
		s.token = nil
	}
	s.turn(me, ch)
}

// turn waits for the token (mu held).
func (s *state) turn(me *thread, ch bool) {
	for s.ctl {
		if s.pos >= len(s.c.Sched) {
			s.free()
			return
		}
		id := s.c.Sched[s.pos]
		if s.token == nil && id < len(s.threads) && s.threads[id].done {
			s.diverge(fmt.Sprintf("schedule names thread %d at %d", id, s.pos))
			return
		}
		if s.token == nil && id == me.id {
			s.token = me
			s.inChan = ch
			s.pos++
			s.moved = time.Now()
			return
		}
		s.cond.Broadcast()
		s.cond.Wait()
	}
}

func (s *state) diverge(note string) {
	s.div = true
	s.note = note
	s.free()
}

// watch takes the token from a thread that waits for another one in a channel
// operation and gives up on a schedule that does not go on.
func (s *state) watch(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(5 * time.Millisecond):
		}
		s.mu.Lock()
		if s.ctl && len(s.threads) > 1 {
			d := time.Since(s.moved)
			if s.token != nil && s.inChan && d > 20*time.Millisecond {
				s.token = nil
				s.cond.Broadcast()
			} else if d > 2*time.Second {
				s.diverge(fmt.Sprintf("the schedule stalls at %d", s.pos))
			}
		}
		s.mu.Unlock()
	}
}

// Chan is a scheduling point before a channel operation.
func Chan[T any](ch T) T {
	visible(true)
	return ch
}

// Gate enables the recorded case of a select statement.
func Gate[T any](i int, ch T) T {
	s := st
	if s == nil {
		return ch
	}
	if i == 0 {
		visible(true)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	me := s.byGo[goid()]
	if s.c.Free || me == nil {
		return ch
	}
	k := key("select", "select")
	if i == 0 {
		me.sel = -2
		if q := s.queues[k]; s.ctl && len(q) > 0 {
			me.sel = int(int64(q[0]))
			s.queues[k] = q[1:]
		}
	}
	if me.sel != -2 && me.sel != i {
		var none T
		return none
	}
	return ch
}

func (s *state) free() {
	s.ctl = false
	s.cond.Broadcast()
}

var jseed uint64 = 88172645463325252
var jmu sync.Mutex

func jitter() {
	jmu.Lock()
	jseed ^= jseed << 13
	jseed ^= jseed >> 7
	jseed ^= jseed << 17
	x := jseed
	jmu.Unlock()
	switch x % 5 {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(x>>32%40) * time.Microsecond)
	}
}

// Go starts a concurrent thread.
func Go(f func()) {
	s := st
	if s == nil {
		go f()
		return
	}
	s.mu.Lock()
	t := &thread{id: len(s.threads), sel: -2}
	s.threads = append(s.threads, t)
	if len(s.threads) == 2 {
		s.moved = time.Now()
	}
	s.mu.Unlock()
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		s.mu.Lock()
		s.byGo[goid()] = t
		s.turn(t, false)
		s.mu.Unlock()
		defer func() {
			if r := recover(); r != nil {
				s.recovered(r)
			}
			s.mu.Lock()
			t.done = true
			if s.token == t {
				s.token = nil
				s.moved = time.Now()
			}
			s.cond.Broadcast()
			s.mu.Unlock()
		}()
		f()
	}()
}

func Daemon(f func()) { Go(f) }

// Wait waits for every thread started with Go.
func Wait() {
	Visible()
	st.wg.Wait()
}

func Yield() { Visible() }

func (s *state) recovered(r any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := r.(assumeFail); ok {
		s.assumed = true
		return
	}
	stack := string(debug.Stack())
	if len(stack) > 6000 {
		stack = stack[:6000]
	}
	s.panics = append(s.panics, fmt.Sprint(r))
	s.note += stack
}

// ---- clock

const unixBase = 63113904000 + 20*365*86400 - 62135596800

func Now() time.Time {
	s := st
	if s == nil {
		return time.Now()
	}
	if s.c.Clock {
		Visible()
	}
	if v, ok := s.pop("time", "time"); ok {
		s.lastT = time.Unix(int64(unixBase+v)+s.skipped, int64(v%1000)).UTC()
		s.timeSet = true
		return s.lastT
	}
	if d, ok := s.pop("elapsed", "elapsed"); ok {
		n, _ := s.pop("nsec", "nsec")
		s.lastT = time.Unix(unixBase+int64(d), int64(n)).UTC()
		s.timeSet = true
		return s.lastT
	}
	if s.timeSet {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.lastT = s.lastT.Add(time.Second)
		return s.lastT
	}
	return time.Now()
}

// NewTicker delivers at most the announced number of ticks, quickly.
func NewTicker(d time.Duration) *time.Ticker {
	s := st
	if s == nil {
		return time.NewTicker(d)
	}
	s.mu.Lock()
	s.interval = d
	s.mu.Unlock()
	n := s.ticks
	if !s.c.Free {
		ch := make(chan time.Time, n)
		for i := 0; i < n; i++ {
			ch <- time.Now()
		}
		return &time.Ticker{C: ch}
	}
	ch := make(chan time.Time, 1)
	go func() {
		for i := 0; i < n; i++ {
			time.Sleep(200 * time.Microsecond)
			ch <- time.Now()
		}
	}()
	return &time.Ticker{C: ch}
}

func Sleep(d time.Duration) {
	if st == nil {
		time.Sleep(d)
		return
	}
	if d > time.Millisecond {
		d = time.Millisecond
	}
	time.Sleep(d)
}

func timerDur(d time.Duration) time.Duration {
	s := st
	if s == nil {
		return d
	}
	if s.timers {
		return 500 * time.Microsecond
	}
	return time.Hour
}
func AfterFunc(d time.Duration, f func()) *time.Timer { return time.AfterFunc(timerDur(d), f) }
func NewTimer(d time.Duration) *time.Timer            { return time.NewTimer(timerDur(d)) }

// Gosched is a scheduling point.
func Gosched() {
	Visible()
	if st == nil || !st.ctl {
		runtime.Gosched()
	}
}

// Block acquires a lock; a lock the recorded schedule expects to be free and
// that is not ends the controlled part of the replay.
func Block(try func() bool, lock func()) {
	if try() {
		return
	}
	if s := st; s != nil {
		s.mu.Lock()
		if s.ctl && s.pos < len(s.c.Sched) {
			s.diverge("a lock was not free")
		}
		s.mu.Unlock()
	}
	lock()
}

// Field is an exported field of a structure.
type Field struct {
	Name, Tag string
	Ptr       any
}

// Fields lists the exported fields of the structure that p points to.
func Fields(p any) (fs []Field) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.IsExported() {
			fs = append(fs, Field{f.Name, string(f.Tag), v.Field(i).Addr().Interface()})
		}
	}
	return
}

// Interval is that of the last ticker.
func Interval() time.Duration {
	st.mu.Lock()
	defer st.mu.Unlock()
	return st.interval
}

// Skip moves the clock on, by seconds.
func Skip(secs int64) { st.skipped += secs }

func SetTicks(n int) { st.ticks = n }
func Ticks() int     { return st.ticks }
func FireTimers()    { st.timers = true }

// HashOf replays the recorded fingerprint of some content.
func HashOf(b []byte) (uint64, bool) {
	s := st
	if s == nil {
		return 0, false
	}
	s.mu.Lock()
	if h, ok := s.hash[string(b)]; ok {
		s.mu.Unlock()
		return h, true
	}
	q := s.queues[key("hash", "hash")]
	s.mu.Unlock()
	if len(q) == 0 {
		return 0, false
	}
	h, _ := s.pop("hash", "hash")
	s.mu.Lock()
	s.hash[string(b)] = h
	s.mu.Unlock()
	return h, true
}

// ---- driver

// Run executes the recorded cases.
func Run(hs map[string]func()) {
	path := os.Getenv("GOSYM_REPLAY")
	var cases []caseT
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &cases)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err)
		os.Exit(3)
	}
	enc := json.NewEncoder(os.Stdout)
	for i, c := range cases {
		h := hs[c.Harness]
		if h == nil {
			fmt.Fprintln(os.Stderr, "replay: no harness", c.Harness)
			os.Exit(3)
		}
		n := c.Repeat
		if n <= 0 {
			n = 1
		}
		var r result
		t0 := time.Now()
		for k := 0; k < n; k++ {
			if k > 0 && c.Budget > 0 && time.Since(t0) > time.Duration(c.Budget)*time.Millisecond {
				break
			}
			r = runCase(i, c, h)
			if r.Status != "ok" && r.Status != "assume" {
				break
			}
		}
		enc.Encode(r)
		if r.Status == "stuck" {
			os.Stdout.Sync()
			os.Exit(0)
		}
	}
}

func runCase(i int, c caseT, h func()) result {
	s := newState(c)
	st = s
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				s.recovered(r)
			}
			s.mu.Lock()
			s.threads[0].done = true
			if s.ctl {
				s.free()
			}
			s.mu.Unlock()
		}()
		s.mu.Lock()
		s.byGo[goid()] = s.threads[0]
		s.mu.Unlock()
		h()
	}()
	stop := make(chan struct{})
	defer close(stop)
	go s.watch(stop)
	to := c.Timeout
	if to == 0 {
		to = 10000
	}
	r := result{Case: i, Status: "ok"}
	select {
	case <-done:
	case <-time.After(time.Duration(to) * time.Millisecond):
		r.Status = "stuck"
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	r.Obs, r.Diverged, r.Note = s.obs, s.div, s.note
	r.Msgs = append(r.Msgs, s.msgs...)
	if r.Status == "ok" {
		switch {
		case len(s.panics) > 0:
			r.Status = "panic"
			r.Msgs = append(r.Msgs, s.panics...)
		case len(s.msgs) > 0:
			r.Status = "assert"
		case s.assumed:
			r.Status = "assume"
		}
	}
	return r
}
