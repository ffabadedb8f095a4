package interp

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// ---- vector clocks

type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v *vclock) set(i int, x uint32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}
func (v *vclock) join(o vclock) {
	for i, x := range o {
		if x > v.get(i) {
			v.set(i, x)
		}
	}
}
func (v vclock) clone() vclock { return append(vclock(nil), v...) }

// ---- threads

type opKind uint8

const (
	opStart opKind = iota
	opLock
	opRLock
	opAtomic
	opChan
	opWait
	opYield
	opOther
)

type objID struct {
	p any
	n uint64
}

type pendOp struct {
	kind    opKind
	obj     objID
	obj2    []objID // select
	write   bool
	enabled func() bool
	rel     *vclock // what happens before the enabling of this op (unlock edges)
	rec     bool    // issued by code that the native replay controls
}

type event struct {
	th   int
	op   pendOp
	clk  vclock // dpor clock after the event
	idx  uint32 // local index of the event in its thread (dpor clock component)
	node *schedNode
	tpos int // trail position of the scheduling decision
}

type schedNode struct {
	done    uint32 // threads explored or scheduled for exploration from here
	enabled uint32
	sleep   uint32
	owner   *Explorer
}

type Thread struct {
	ex       *Exec
	id       int
	wake     chan struct{}
	exited   chan struct{}
	finished bool
	started  bool
	pend     *pendOp
	vc       vclock // Go happens-before
	dc       vclock // dependency order (for DPOR)
	yields   int
	casFails int // compare-and-swaps that failed since the last other operation
	progress uint64
	top      *frame
	depth    int
	daemon   bool
	handed   bool
	recvOn   []*ChanObj
	nid      int // number in the native replay, or -1
}

func (ex *Exec) newThread(parent *Thread) *Thread {
	th := &Thread{ex: ex, id: len(ex.threads), wake: make(chan struct{}), exited: make(chan struct{})}
	if parent != nil {
		th.vc = parent.vc.clone()
		th.dc = parent.dc.clone()
		parent.vc.set(parent.id, parent.vc.get(parent.id)+1)
	}
	th.vc.set(th.id, 1)
	ex.threads = append(ex.threads, th)
	if len(ex.threads) > 30 {
		panic(abortPath{"limit", "more than 30 threads"})
	}
	return th
}

// main is the body of the goroutine backing a simulated thread.
func (th *Thread) main(f func()) {
	ex := th.ex
	defer func() {
		r := recover()
		th.finished = true
		th.pend = nil
		if ex.dead {
			close(th.exited)
			return
		}
		if r != nil {
			ex.stopped(r)
			close(th.exited)
			close(ex.doneCh)
			return
		}
		close(th.exited)
		if th.id == 0 {
			close(ex.doneCh)
			return
		}
		// hand over to another thread
		func() {
			defer func() {
				if r := recover(); r != nil {
					ex.stopped(r)
					close(ex.doneCh)
				}
			}()
			nt := ex.pick(th)
			if nt == nil {
				return
			}
			ex.cur = nt
			nt.wake <- struct{}{}
		}()
	}()
	if th.id != 0 {
		<-th.wake
		if ex.dead {
			panic(abortPath{"killed", ""})
		}
		th.begin()
	}
	th.started = true
	f()
	if th.id == 0 {
		th.drain()
	}
}

// drain lets the threads that are left when the harness ends run until they
// wait for something, so that the order of their operations and those of the
// harness is explored. What they do is not judged here: it is when it happens
// before the end of the harness.
func (th *Thread) drain() {
	ex := th.ex
	if !ex.liveOthers(th) || ex.w.X.Cfg.NoDPOR {
		return
	}
	ex.drain, ex.drainEvents = true, len(ex.events)
	ex.drainObs, ex.drainInputs, ex.drainSched = len(ex.obs), len(ex.inputs), len(ex.sched)
	th.visible(pendOp{kind: opWait, enabled: func() bool {
		for _, t := range ex.threads {
			if t != th && !t.finished && t.pend != nil && t.pend.kind != opYield && (t.pend.enabled == nil || t.pend.enabled()) {
				return false
			}
		}
		return true
	}})
}

// stopped notes why the path ended.
func (ex *Exec) stopped(r any) {
	if a, ok := r.(abortPath); ex.drain && !(ok && a.kind == "restart") {
		return
	}
	ex.abort = r
}

// report adds a violation.
func (ex *Exec) report(v *Violation) {
	if ex.drain {
		return
	}
	ex.w.X.mu.Lock()
	ex.w.X.addViolation(*v)
	ex.w.X.mu.Unlock()
}

func (th *Thread) spawn(rec bool, f func(nt *Thread)) *Thread {
	ex := th.ex
	if ex.initing > 0 {
		unsupported("goroutine started during package initialisation")
	}
	nt := ex.newThread(th)
	nt.pend = &pendOp{kind: opStart, rec: rec}
	nt.nid = -1
	if rec {
		ex.natives++
		nt.nid = ex.natives
	}
	ex.multi = true
	go nt.main(func() { f(nt) })
	return nt
}

func dependent(a, b *pendOp) bool {
	if a.kind == opStart || b.kind == opStart || a.kind == opYield || b.kind == opYield || a.kind == opWait || b.kind == opWait {
		return false
	}
	match := func(x, y objID) bool { return x == y }
	if a.obj2 == nil && b.obj2 == nil {
		return match(a.obj, b.obj) && (a.write || b.write)
	}
	as := append([]objID{a.obj}, a.obj2...)
	bs := append([]objID{b.obj}, b.obj2...)
	for _, x := range as {
		for _, y := range bs {
			if x.p != nil && match(x, y) && (a.write || b.write) {
				return true
			}
		}
	}
	return false
}

// liveOthers reports whether any other thread could still run.
func (ex *Exec) liveOthers(th *Thread) bool {
	for _, t := range ex.threads {
		if t != th && !t.finished {
			return true
		}
	}
	return false
}

// visible is called before a synchronisation operation.
func (th *Thread) visible(op pendOp) {
	ex := th.ex
	th.casFails = 0
	if ex.initing > 0 {
		return
	}
	if !ex.liveOthers(th) {
		if op.enabled != nil && !op.enabled() {
			th.pend = &op
			panicDeadlock(ex)
		}
		if op.kind == opYield {
			th.yields++
			if th.yields > 200 {
				v := ex.mkViolation("livelock", "thread spins without progress", "")
				ex.report(v)
				panic(abortPath{"killed", "livelock"})
			}
		}
		th.note(&op)
		// the threads that have ended may still race with this operation
		for _, t := range ex.threads {
			if t != th && th.dc.get(t.id) < t.dc.get(t.id) {
				ex.curNode(nil, 0)
				ex.exec(th, &op)
				break
			}
		}
		return
	}
	th.pend = &op
	nt := ex.pick(th)
	if nt != th {
		ex.cur = nt
		nt.wake <- struct{}{}
		<-th.wake
		if ex.dead {
			panic(abortPath{"killed", ""})
		}
	}
	th.begin()
}

// begin executes the bookkeeping of the pending op (which is now happening).
func (th *Thread) begin() {
	ex := th.ex
	op := th.pend
	th.pend = nil
	if op == nil {
		return
	}
	th.note(op)
	ex.exec(th, op)
}

// note adds an operation to the schedule that the native replay follows.
func (th *Thread) note(op *pendOp) {
	if op.rec && th.nid >= 0 && th.ex.natives > 0 {
		th.ex.sched = append(th.ex.sched, th.nid)
	}
}

func panicDeadlock(ex *Exec) {
	var s string
	for _, t := range ex.threads {
		if !t.finished {
			k := "?"
			if t.pend != nil {
				k = fmt.Sprint(opNames[t.pend.kind])
			}
			s += fmt.Sprintf(" T%d:%s", t.id, k)
		}
	}
	v := ex.mkViolation("deadlock", "deadlock:"+s, "")
	ex.report(v)
	panic(abortPath{"killed", "deadlock"})
}

var opNames = [...]string{"start", "lock", "rlock", "atomic", "chan", "wait", "yield", "other"}

// pick decides which thread performs its pending operation next.
func (ex *Exec) pick(cur *Thread) *Thread {
	var enabled uint32
	var yielding uint32
	for _, t := range ex.threads {
		if t.finished || t.pend == nil {
			continue
		}
		if t.pend.enabled != nil && !t.pend.enabled() {
			continue
		}
		if t.pend.kind == opYield {
			yielding |= 1 << t.id
			continue
		}
		enabled |= 1 << t.id
	}
	onlyYield := false
	if enabled == 0 {
		enabled = yielding
		onlyYield = true
	}
	if enabled == 0 {
		panicDeadlock(ex)
	}
	ex.schedPts++
	if onlyYield {
		for _, t := range ex.threads {
			if yielding&(1<<t.id) != 0 {
				t.yields++
				if t.yields > 50 {
					v := ex.mkViolation("livelock", "threads spin without progress", "")
					ex.report(v)
					panic(abortPath{"killed", "livelock"})
				}
			}
		}
	}
	var d decision
	if ex.pos < len(ex.trail) {
		d = ex.trail[ex.pos]
		if d.kind != dSched {
			panic("replay divergence: want sched")
		}
		if enabled&(1<<uint(d.val)) == 0 {
			panic(fmt.Sprintf("replay divergence: thread %d not enabled", d.val))
		}
		ex.pos++
	} else {
		if ex.w.X.stop.Load() {
			panic(abortPath{"killed", ""})
		}
		cand := enabled &^ ex.sleep
		if cand == 0 {
			panic(abortPath{"sleep", ""})
		}
		var ch int
		if cur != nil && cand&(1<<cur.id) != 0 {
			ch = cur.id
		} else {
			for cand&(1<<uint(ch)) == 0 {
				ch++
			}
		}
		node := &schedNode{done: 1 << uint(ch), enabled: enabled, sleep: ex.sleep, owner: ex.w.X}
		d = decision{kind: dSched, val: int64(ch), sleep: ex.sleep, node: node}
		if ex.w.X.Cfg.NoDPOR {
			for i := 0; i < len(ex.threads); i++ {
				if i != ch && enabled&(1<<uint(i)) != 0 {
					node.done |= 1 << uint(i)
					ex.fork(decision{kind: dSched, val: int64(i), node: node}, ex.model)
				}
			}
		}
		ex.record(d)
	}
	t := ex.threads[d.val]
	// sleep set of the chosen child (before filtering by the executed op)
	ex.sleep = d.sleep
	ex.curNode(d.node, ex.pos-1)
	return t
}

func (ex *Exec) curNode(n *schedNode, tpos int) {
	ex.pendNode = n
	ex.pendTpos = tpos
}

// exec performs race analysis for op by th and updates clocks and sleep sets.
func (ex *Exec) exec(th *Thread, op *pendOp) {
	e := &event{th: th.id, op: *op, node: ex.pendNode, tpos: ex.pendTpos}
	clk := th.dc.clone()
	if op.kind != opStart && op.kind != opYield && op.kind != opWait {
		for i := len(ex.events) - 1; i >= 0; i-- {
			o := ex.events[i]
			if o.th != th.id && dependent(&o.op, op) {
				clk.join(o.clk)
			}
		}
		if op.rel != nil {
			clk.join(*op.rel)
		}
	}
	e.idx = th.dc.get(th.id) + 1
	clk.set(th.id, e.idx)
	e.clk = clk
	if op.kind != opStart && op.kind != opYield && op.kind != opWait && !ex.w.X.Cfg.NoDPOR && ex.pos >= len(ex.trail) {
		// immediate races, most recent first
		var covered vclock
		for i := len(ex.events) - 1; i >= 0; i-- {
			o := ex.events[i]
			if o.th == th.id || !dependent(&o.op, op) {
				continue
			}
			if th.dc.get(o.th) >= o.idx {
				continue // ordered before us already
			}
			if covered.get(o.th) >= o.idx {
				continue // not an immediate race
			}
			if ex.drain && i >= ex.drainEvents {
				continue
			}
			ex.backtrack(o, e, i)
			covered.join(o.clk)
		}
	}
	th.dc = clk.clone()
	ex.events = append(ex.events, e)
	// sleep set: remove threads whose pending op depends on this one
	var ns uint32
	for _, t := range ex.threads {
		b := uint32(1) << uint(t.id)
		if ex.sleep&b == 0 || t == th || t.finished || t.pend == nil {
			continue
		}
		if !dependent(t.pend, op) {
			ns |= b
		}
	}
	ex.sleep = ns
}

// backtrack schedules the reversal of the race between o and e (source sets):
// some thread that can begin the part of the execution that does not depend
// on o must be explored from the state before o.
func (ex *Exec) backtrack(o *event, e *event, oi int) {
	n := o.node
	if n == nil {
		return
	}
	var v []*event
	for _, w := range ex.events[oi+1:] {
		if w.clk.get(o.th) < o.idx {
			v = append(v, w)
		}
	}
	v = append(v, e)
	var initials, seen uint32
	for i, f := range v {
		b := uint32(1) << uint(f.th)
		if seen&b != 0 {
			continue
		}
		seen |= b
		ok := true
		for _, w := range v[:i] {
			if f.clk.get(w.th) >= w.idx {
				ok = false
				break
			}
		}
		if ok {
			initials |= b
		}
	}
	x := ex.w.X
	x.mu.Lock()
	defer x.mu.Unlock()
	if initials&(n.done|n.sleep) != 0 {
		return
	}
	cand := initials & n.enabled
	if cand == 0 {
		cand = n.enabled &^ n.sleep &^ n.done
	} else if b := uint32(1) << uint(e.th); cand&b != 0 {
		cand = b
	} else {
		cand &= -cand // one is enough
	}
	for i := 0; i < 32; i++ {
		if cand&(1<<uint(i)) == 0 {
			continue
		}
		tr := make([]decision, o.tpos, o.tpos+1)
		copy(tr, ex.trail[:o.tpos])
		tr = append(tr, decision{kind: dSched, val: int64(i), node: n, sleep: n.sleep | n.done})
		n.done |= 1 << uint(i)
		// The path condition of the prefix is implied by ours, so our model fits.
		x.work = append(x.work, workItem{trail: tr, model: ex.model})
		x.cond.Signal()
	}
}

// ---- data races

type slotRD struct {
	wT, wC uint32
	wAt    ssa.Instruction
	r      vclock
	rAt    ssa.Instruction
	aw     vclock // atomic writes
	ar     vclock
}

type raceData struct{ s []slotRD }

func (th *Thread) access(a *Agg, idx int, write, atomic bool, at ssa.Instruction) {
	ex := th.ex
	if ex.initing > 0 || !ex.w.X.Cfg.RaceCheck {
		return
	}
	if a.rd == nil {
		a.rd = &raceData{s: make([]slotRD, len(a.F))}
	}
	if idx >= len(a.rd.s) {
		return
	}
	s := &a.rd.s[idx]
	me := uint32(th.id)
	myc := th.vc.get(th.id)
	conflict := func(v vclock) bool {
		for t, c := range v {
			if t != th.id && c > th.vc.get(t) {
				return true
			}
		}
		return false
	}
	bad := false
	var other ssa.Instruction
	if s.wC != 0 && s.wT != me && s.wC > th.vc.get(int(s.wT)) {
		bad, other = true, s.wAt
	}
	if write && conflict(s.r) {
		bad, other = true, s.rAt
	}
	if !atomic {
		if conflict(s.aw) || (write && conflict(s.ar)) {
			bad = true
		}
	}
	if bad {
		w1, w2 := "?", "?"
		if at != nil {
			w1 = ex.w.P.Position(at.Pos())
			w1 += " in " + at.Parent().String()
		}
		if other != nil {
			w2 = ex.w.P.Position(other.Pos())
			w2 += " in " + other.Parent().String()
		}
		v := ex.mkViolation("race", fmt.Sprintf("data race: %s conflicts with %s", w1, w2), w1)
		ex.report(v)
	}
	switch {
	case atomic && write:
		s.aw.set(th.id, myc)
	case atomic:
		s.ar.set(th.id, myc)
	case write:
		s.wT, s.wC, s.wAt = me, myc, at
	default:
		s.r.set(th.id, myc)
		s.rAt = at
	}
}

// accessDeep records an access to a slot and everything nested by value.
func (th *Thread) accessDeep(a *Agg, idx int, write bool, at ssa.Instruction) {
	v := a.F[idx]
	if isAgg(v) {
		sub := v.O.(*Agg)
		for i := range sub.F {
			th.accessDeep(sub, i, write, at)
		}
		return
	}
	th.access(a, idx, write, false, at)
}
