package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

// RTPath is the import path of the harness runtime package.
const RTPath = "github.com/lightstep/otel-launcher-go/zzverif/rt"

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func noop(c *callCtx, a []Value) Value { return c.zeroResult() }

func (c *callCtx) ex() *Exec { return c.th.ex }

func (c *callCtx) zeroResult() Value {
	r := c.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return c.ex().w.P.tinfo(r.At(0).Type()).zero()
	}
	return c.ex().w.P.tinfo(r).zero()
}

func (c *callCtx) panicStr(msg string) {
	if c.fr != nil {
		c.fr.rtPanic(msg)
	}
	panic(targetPanic{v: Value{O: &Iface{T: c.ex().w.P.rtErr(), V: mkStr(msg)}}})
}

// repoCaller reports whether the operation is issued by code under test.
func (c *callCtx) repoCaller() bool { return c.fr == nil || c.fr.code.repo }

func (c *callCtx) vis(op pendOp) {
	if c.repoCaller() {
		op.rec = true
		c.th.visible(op)
		return
	}
	if op.enabled != nil && !op.enabled() {
		// contention inside dependency code: must wait
		c.th.visible(op)
	}
}

// agg returns the aggregate a struct pointer refers to.
func (c *callCtx) agg(p Value) *Agg {
	if p.O == nil {
		c.panicStr("invalid memory address or nil pointer dereference")
	}
	a := p.O.(*Agg)
	if int(p.N) >= len(a.F) {
		unsupported("odd pointer in %s", c.code.name)
	}
	s, ok := a.F[p.N].O.(*Agg)
	if !ok {
		unsupported("pointer to non-struct in %s", c.code.name)
	}
	return s
}

// ---- happens-before helpers

func (ex *Exec) vcOf(id objID) *vclock {
	m, _ := ex.ext["vc"].(map[objID]*vclock)
	if m == nil {
		m = map[objID]*vclock{}
		ex.ext["vc"] = m
	}
	v := m[id]
	if v == nil {
		v = &vclock{}
		m[id] = v
	}
	return v
}

func (th *Thread) acquire(id objID) {
	if th.ex.multi {
		th.vc.join(*th.ex.vcOf(id))
	}
}
func (th *Thread) release(id objID, replace bool) {
	if th.ex.multi {
		v := th.ex.vcOf(id)
		if replace {
			*v = th.vc.clone()
		} else {
			v.join(th.vc)
		}
		th.vc.set(th.id, th.vc.get(th.id)+1)
	}
}

// ---- mutexes

type mutexState struct {
	w    *Thread
	r    map[*Thread]int
	nr   int
	cnt  int64
	run  *Thread
	fin  bool
	rel  vclock // releases by writers and readers
	wrel vclock // releases by writers
}

func (ex *Exec) mu(a *Agg) *mutexState {
	m, _ := ex.ext["mu"].(map[*Agg]*mutexState)
	if m == nil {
		m = map[*Agg]*mutexState{}
		ex.ext["mu"] = m
	}
	s := m[a]
	if s == nil {
		s = &mutexState{r: map[*Thread]int{}}
		m[a] = s
	}
	return s
}

func init() {
	lock := func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		s := c.ex().mu(ag)
		c.vis(pendOp{kind: opLock, obj: objID{p: ag}, write: true, rel: &s.rel, enabled: func() bool { return s.w == nil && s.nr == 0 }})
		s.w = c.th
		c.th.acquire(objID{p: ag})
		return Value{}
	}
	unlock := func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		s := c.ex().mu(ag)
		if s.w == nil {
			panic(targetPanic{v: Value{O: &Iface{T: c.ex().w.P.rtErr(), V: mkStr("fatal error: unlock of unlocked mutex")}}})
		}
		s.w = nil
		s.rel.join(c.th.dc)
		s.wrel.join(c.th.dc)
		c.th.release(objID{p: ag}, false)
		return Value{}
	}
	trylock := func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		s := c.ex().mu(ag)
		c.vis(pendOp{kind: opLock, obj: objID{p: ag}, write: true, rel: &s.rel})
		if s.w == nil && s.nr == 0 {
			s.w = c.th
			c.th.acquire(objID{p: ag})
			return cbool(true)
		}
		return cbool(false)
	}
	reg(lock, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(unlock, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(trylock, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		s := c.ex().mu(ag)
		c.vis(pendOp{kind: opRLock, obj: objID{p: ag}, write: false, rel: &s.wrel, enabled: func() bool { return s.w == nil }})
		s.nr++
		c.th.acquire(objID{p: ag})
		return Value{}
	}, "(*sync.RWMutex).RLock")
	reg(func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		s := c.ex().mu(ag)
		if s.nr <= 0 {
			panic(targetPanic{v: Value{O: &Iface{T: c.ex().w.P.rtErr(), V: mkStr("fatal error: RUnlock of unlocked RWMutex")}}})
		}
		s.nr--
		s.rel.join(c.th.dc)
		// readers do not synchronise with readers: keep their clocks apart
		c.th.release(objID{p: ag, n: 1}, false)
		return Value{}
	}, "(*sync.RWMutex).RUnlock")
	// a writer also synchronises with previous readers
	intrinsics["(*sync.RWMutex).Lock"] = func(c *callCtx, a []Value) Value {
		r := lock(c, a)
		c.th.acquire(objID{p: c.agg(a[0]), n: 1})
		return r
	}
	reg(func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		s := c.ex().mu(ag)
		c.vis(pendOp{kind: opLock, obj: objID{p: ag}, write: true, rel: &s.rel, enabled: func() bool { return s.run == nil || s.run == c.th }})
		if s.run == c.th {
			panicDeadlock(c.ex())
		}
		if s.fin {
			c.th.acquire(objID{p: ag})
			return Value{}
		}
		s.run = c.th
		done := func() {
			s.run = nil
			s.fin = true
			s.rel.join(c.th.dc)
			c.th.release(objID{p: ag}, false)
		}
		ok := false
		defer func() {
			if !ok {
				done()
			}
		}()
		c.th.callFn(c.fr, a[1], nil)
		ok = true
		done()
		return Value{}
	}, "(*sync.Once).Do")
	// wait groups
	wgAdd := func(c *callCtx, ag *Agg, d int64) {
		s := c.ex().mu(ag)
		c.vis(pendOp{kind: opAtomic, obj: objID{p: ag}, write: true})
		s.cnt += d
		if s.cnt < 0 {
			c.panicStr("sync: negative WaitGroup counter")
		}
		c.th.release(objID{p: ag}, false)
	}
	reg(func(c *callCtx, a []Value) Value {
		wgAdd(c, c.agg(a[0]), int64(c.ex().conc(a[1])))
		return Value{}
	}, "(*sync.WaitGroup).Add")
	reg(func(c *callCtx, a []Value) Value { wgAdd(c, c.agg(a[0]), -1); return Value{} }, "(*sync.WaitGroup).Done")
	reg(func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		s := c.ex().mu(ag)
		c.vis(pendOp{kind: opAtomic, obj: objID{p: ag}, write: true, enabled: func() bool { return s.cnt == 0 }})
		c.th.acquire(objID{p: ag})
		return Value{}
	}, "(*sync.WaitGroup).Wait")
	reg(func(c *callCtx, a []Value) Value { c.vis(pendOp{kind: opYield}); return Value{} }, "runtime.Gosched")
	// pools: last in, first out; New when empty
	reg(func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		m, _ := c.ex().ext["pool"].(map[*Agg][]Value)
		if l := m[ag]; len(l) > 0 {
			v := l[len(l)-1]
			m[ag] = l[:len(l)-1]
			c.th.acquire(objID{p: ag})
			return v
		}
		nf := ag.F[len(ag.F)-1]
		if nf.O == nil {
			return Value{}
		}
		return c.th.callFn(c.fr, nf, nil)
	}, "(*sync.Pool).Get")
	reg(func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		m, _ := c.ex().ext["pool"].(map[*Agg][]Value)
		if m == nil {
			m = map[*Agg][]Value{}
			c.ex().ext["pool"] = m
		}
		m[ag] = append(m[ag], a[1])
		c.th.release(objID{p: ag}, false)
		return Value{}
	}, "(*sync.Pool).Put")
	regSyncMap()
	regAtomics()
	regRT()
	regMath()
	regMisc()
	regReflect()
	regFmt()
}

// ---- sync.Map

func regSyncMap() {
	get := func(c *callCtx, a []Value, write bool) *MapObj {
		ag := c.agg(a[0])
		if ag.owner != nil {
			c.ex().thaw(ag.owner)
		}
		m, _ := c.ex().ext["smap"].(map[*Agg]*MapObj)
		if m == nil {
			m = map[*Agg]*MapObj{}
			c.ex().ext["smap"] = m
		}
		if m[ag] == nil {
			it := c.ex().w.P.tinfo(types.NewInterfaceType(nil, nil))
			m[ag] = newMap(it, it)
		}
		c.vis(pendOp{kind: opAtomic, obj: objID{p: ag}, write: write})
		c.th.acquire(objID{p: ag})
		if write {
			c.th.release(objID{p: ag}, false)
		}
		return m[ag]
	}
	fr := func(c *callCtx) *frame {
		if c.fr != nil {
			return c.fr
		}
		return &frame{th: c.th, code: c.code}
	}
	tup := func(v Value, ok bool) Value { return Value{O: &Tuple{V: []Value{v, cbool(ok)}}} }
	find := func(c *callCtx, m *MapObj, k Value) int { return fr(c).mapFind(m, k) }
	reg(func(c *callCtx, a []Value) Value {
		m := get(c, a, false)
		if i := find(c, m, a[1]); i >= 0 {
			return tup(m.ents[i].v, true)
		}
		return tup(Value{}, false)
	}, "(*sync.Map).Load")
	put := func(c *callCtx, m *MapObj, k, v Value) {
		if i := find(c, m, k); i >= 0 {
			m.ents[i].v = v
			return
		}
		m.ents = append(m.ents, mapEnt{k: k, v: v})
		m.n++
		if kk, ok := c.ex().keyOf(k, m.kt); ok {
			m.idx[kk] = len(m.ents) - 1
		} else {
			m.sym++
		}
	}
	reg(func(c *callCtx, a []Value) Value { put(c, get(c, a, true), a[1], a[2]); return Value{} }, "(*sync.Map).Store")
	reg(func(c *callCtx, a []Value) Value {
		m := get(c, a, true)
		if i := find(c, m, a[1]); i >= 0 {
			return tup(m.ents[i].v, true)
		}
		put(c, m, a[1], a[2])
		return tup(a[2], false)
	}, "(*sync.Map).LoadOrStore")
	lad := func(c *callCtx, a []Value) Value {
		m := get(c, a, true)
		if i := find(c, m, a[1]); i >= 0 {
			v := m.ents[i].v
			fr(c).mapKill(m, i)
			return tup(v, true)
		}
		return tup(Value{}, false)
	}
	reg(lad, "(*sync.Map).LoadAndDelete")
	reg(func(c *callCtx, a []Value) Value { lad(c, a); return Value{} }, "(*sync.Map).Delete")
	reg(func(c *callCtx, a []Value) Value {
		m := get(c, a, true)
		i := find(c, m, a[1])
		var old Value
		if i >= 0 {
			old = m.ents[i].v
		}
		put(c, m, a[1], a[2])
		return tup(old, i >= 0)
	}, "(*sync.Map).Swap")
	reg(func(c *callCtx, a []Value) Value {
		m := get(c, a, true)
		i := find(c, m, a[1])
		if i < 0 || !c.ex().truth(fr(c).equal(m.ents[i].v, a[2], m.vt)) {
			return cbool(false)
		}
		m.ents[i].v = a[3]
		return cbool(true)
	}, "(*sync.Map).CompareAndSwap")
	reg(func(c *callCtx, a []Value) Value {
		m := get(c, a, true)
		i := find(c, m, a[1])
		if i < 0 || !c.ex().truth(fr(c).equal(m.ents[i].v, a[2], m.vt)) {
			return cbool(false)
		}
		fr(c).mapKill(m, i)
		return cbool(true)
	}, "(*sync.Map).CompareAndDelete")
	reg(func(c *callCtx, a []Value) Value {
		m := get(c, a, false)
		ents := append([]mapEnt(nil), m.ents...)
		for _, e := range ents {
			if e.dead {
				continue
			}
			if i := find(c, m, e.k); i < 0 {
				continue
			}
			if !c.ex().truth(c.th.callFn(c.fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return Value{}
	}, "(*sync.Map).Range")
	reg(func(c *callCtx, a []Value) Value {
		m := get(c, a, true)
		m.ents, m.idx, m.n, m.sym = nil, map[any]int{}, 0, 0
		return Value{}
	}, "(*sync.Map).Clear")
}

// ---- atomics

func regAtomics() {
	type loc struct {
		a *Agg
		i int
	}
	at := func(c *callCtx, p Value, isStruct bool) loc {
		if p.O == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		if isStruct {
			s := c.agg(p)
			i := len(s.F) - 1
			// a nested struct (atomic.Bool has v uint32 last; atomic.Value has v any)
			return loc{s, i}
		}
		return loc{p.O.(*Agg), int(p.N)}
	}
	touch := func(c *callCtx, l loc, write bool) {
		id := objID{l.a, uint64(l.i)}
		if write && l.a.owner != nil {
			c.ex().thaw(l.a.owner)
		}
		c.vis(pendOp{kind: opAtomic, obj: id, write: write})
		if c.ex().multi {
			c.th.access(l.a, l.i, write, true, nil)
		}
	}
	load := func(st bool) intrinsic {
		return func(c *callCtx, a []Value) Value {
			l := at(c, a[0], st)
			touch(c, l, false)
			c.th.acquire(objID{l.a, uint64(l.i)})
			return l.a.F[l.i]
		}
	}
	store := func(st bool) intrinsic {
		return func(c *callCtx, a []Value) Value {
			l := at(c, a[0], st)
			touch(c, l, true)
			c.th.release(objID{l.a, uint64(l.i)}, true)
			l.a.F[l.i] = a[1]
			return Value{}
		}
	}
	swap := func(st bool) intrinsic {
		return func(c *callCtx, a []Value) Value {
			l := at(c, a[0], st)
			touch(c, l, true)
			c.th.acquire(objID{l.a, uint64(l.i)})
			c.th.release(objID{l.a, uint64(l.i)}, false)
			o := l.a.F[l.i]
			l.a.F[l.i] = a[1]
			return o
		}
	}
	rmw := func(st bool, w uint8, and, or, old bool) intrinsic {
		return func(c *callCtx, a []Value) Value {
			l := at(c, a[0], st)
			touch(c, l, true)
			c.th.acquire(objID{l.a, uint64(l.i)})
			c.th.release(objID{l.a, uint64(l.i)}, false)
			ex := c.ex()
			o := l.a.F[l.i]
			t1, t2 := ex.term(o, w), ex.term(a[1], w)
			var r *smt.Term
			switch {
			case and:
				r = ex.C.Bin(smt.OBAnd, t1, t2)
			case or:
				r = ex.C.Bin(smt.OBOr, t1, t2)
			default:
				r = ex.C.Add(t1, t2)
			}
			l.a.F[l.i] = fromTerm(r)
			if old {
				return o
			}
			return l.a.F[l.i]
		}
	}
	cas := func(st bool, ti *tinfo) intrinsic {
		return func(c *callCtx, a []Value) Value {
			l := at(c, a[0], st)
			// A thread that does nothing but fail to compare-and-swap waits
			// for another one, it yields.
			n := c.th.casFails
			if n >= 3 {
				c.vis(pendOp{kind: opYield})
			}
			touch(c, l, true)
			c.th.acquire(objID{l.a, uint64(l.i)})
			fr := c.fr
			if fr == nil {
				fr = &frame{th: c.th, code: c.code}
			}
			if !c.ex().truth(fr.equal(l.a.F[l.i], a[1], ti)) {
				c.th.casFails = n + 1
				return cbool(false)
			}
			c.th.casFails = 0
			c.th.release(objID{l.a, uint64(l.i)}, false)
			l.a.F[l.i] = a[2]
			return cbool(true)
		}
	}
	i64, i32 := &tinfo{k: kUint, w: 64, simple: true}, &tinfo{k: kUint, w: 32, simple: true}
	ptr := &tinfo{k: kPtr, simple: true}
	for _, e := range []struct {
		n  string
		ti *tinfo
	}{{"Int32", i32}, {"Int64", i64}, {"Uint32", i32}, {"Uint64", i64}, {"Uintptr", i64}, {"Pointer", ptr}} {
		pk := "sync/atomic."
		reg(load(false), pk+"Load"+e.n)
		reg(store(false), pk+"Store"+e.n)
		reg(swap(false), pk+"Swap"+e.n)
		reg(cas(false, e.ti), pk+"CompareAndSwap"+e.n)
		if e.n != "Pointer" {
			reg(rmw(false, e.ti.w, false, false, false), pk+"Add"+e.n)
			reg(rmw(false, e.ti.w, true, false, true), pk+"And"+e.n)
			reg(rmw(false, e.ti.w, false, true, true), pk+"Or"+e.n)
		}
		tn := "(*sync/atomic." + e.n + ")."
		if e.n == "Pointer" {
			tn = "(*sync/atomic.Pointer[T])."
		}
		reg(load(true), tn+"Load")
		reg(store(true), tn+"Store")
		reg(swap(true), tn+"Swap")
		reg(cas(true, e.ti), tn+"CompareAndSwap")
		if e.n != "Pointer" {
			reg(rmw(true, e.ti.w, false, false, false), tn+"Add")
			reg(rmw(true, e.ti.w, true, false, true), tn+"And")
			reg(rmw(true, e.ti.w, false, true, true), tn+"Or")
		}
	}
	b := &tinfo{k: kBool, simple: true}
	tn := "(*sync/atomic.Bool)."
	reg(load(true), tn+"Load")
	reg(store(true), tn+"Store")
	reg(swap(true), tn+"Swap")
	reg(cas(true, b), tn+"CompareAndSwap")
	tn = "(*sync/atomic.Value)."
	reg(load(true), tn+"Load")
	reg(func(c *callCtx, a []Value) Value {
		if a[1].O == nil {
			c.panicStr("sync/atomic: store of nil value into Value")
		}
		return store(true)(c, a)
	}, tn+"Store")
	reg(swap(true), tn+"Swap")
	reg(func(c *callCtx, a []Value) Value {
		return cas(true, c.ex().w.P.tinfo(types.NewInterfaceType(nil, nil)))(c, a)
	}, tn+"CompareAndSwap")
}

// ---- harness runtime

func (c *callCtx) str(v Value) string {
	s, ok := strConc(v)
	if !ok {
		unsupported("symbolic string where a constant is needed")
	}
	return s
}

func regRT() {
	rt := func(n string, f intrinsic) { intrinsics[RTPath+"."+n] = f }
	sym := func(kind string, w uint8) intrinsic {
		return func(c *callCtx, a []Value) Value { return c.ex().freshVar(c.str(a[0]), kind, w) }
	}
	rt("Int64", sym("int64", 64))
	rt("Uint64", sym("uint64", 64))
	rt("Int", sym("int", 64))
	rt("Int32", sym("int32", 32))
	rt("Uint32", sym("uint32", 32))
	rt("Byte", sym("byte", 8))
	rt("Float64", sym("float64", 64))
	rt("Bool", sym("bool", 0))
	rt("String", func(c *callCtx, a []Value) Value {
		n := int(c.ex().conc(a[1]))
		b := make([]Value, n)
		for i := range b {
			b[i] = c.ex().freshVar(fmt.Sprintf("%s[%d]", c.str(a[0]), i), "byte", 8)
		}
		return bytesToStr(b)
	})
	rt("Choose", func(c *callCtx, a []Value) Value {
		n := int(c.ex().conc(a[1]))
		v := c.ex().choose(n)
		c.ex().inputs = append(c.ex().inputs, Input{Name: c.str(a[0]), Kind: "choose", Val: uint64(v)})
		return Value{N: uint64(v)}
	})
	rt("Assume", func(c *callCtx, a []Value) Value { c.ex().assume(a[0]); return Value{} })
	rt("Assert", func(c *callCtx, a []Value) Value {
		where := ""
		if c.fr != nil && c.fr.at != nil {
			where = c.ex().w.P.Position(c.fr.at.Pos())
		}
		c.ex().check(a[0], c.str(a[1]), where)
		return Value{}
	})
	rt("Fail", func(c *callCtx, a []Value) Value {
		c.ex().check(cbool(false), c.str(a[0]), "")
		panic(abortPath{"killed", "fail"})
	})
	rt("Go", func(c *callCtx, a []Value) Value {
		f := a[0]
		c.th.spawn(true, func(nt *Thread) { nt.callFn(nil, f, nil) })
		return Value{}
	})
	rt("Wait", func(c *callCtx, a []Value) Value {
		ex := c.ex()
		th := c.th
		th.visible(pendOp{kind: opWait, rec: true, enabled: func() bool {
			for _, t := range ex.threads {
				if t != th && !t.finished && !t.daemon {
					return false
				}
			}
			return true
		}})
		for _, t := range ex.threads {
			if t != th && t.finished {
				th.vc.join(t.vc)
				th.dc.join(t.dc)
			}
		}
		return Value{}
	})
	rt("Reach", func(c *callCtx, a []Value) Value {
		if !c.ex().drain {
			c.ex().reached[c.str(a[0])] = true
		}
		return Value{}
	})
	rt("Param", func(c *callCtx, a []Value) Value {
		if v, ok := c.ex().w.X.Cfg.Params[c.str(a[0])]; ok {
			return Value{N: uint64(int64(v))}
		}
		return a[1]
	})
	obs := func(kt types.Type) intrinsic {
		return func(c *callCtx, a []Value) Value {
			c.ex().obs = append(c.ex().obs, obsRec{name: c.str(a[0]), v: a[1], ti: c.ex().w.P.tinfo(kt)})
			return Value{}
		}
	}
	rt("ObsInt", obs(types.Typ[types.Int64]))
	rt("ObsUint", obs(types.Typ[types.Uint64]))
	rt("ObsFloat", obs(types.Typ[types.Float64]))
	rt("ObsBool", obs(types.Typ[types.Bool]))
	rt("ObsStr", obs(types.Typ[types.String]))
	rt("Symbolic", func(c *callCtx, a []Value) Value { return cbool(true) })
	// Ite avoids forking in harness code
	rt("And", func(c *callCtx, a []Value) Value {
		ex := c.ex()
		return fromTerm(ex.C.And(ex.boolTerm(a[0]), ex.boolTerm(a[1])))
	})
	rt("Or", func(c *callCtx, a []Value) Value {
		ex := c.ex()
		return fromTerm(ex.C.Or(ex.boolTerm(a[0]), ex.boolTerm(a[1])))
	})
	rt("Not", func(c *callCtx, a []Value) Value {
		ex := c.ex()
		return fromTerm(ex.C.Not(ex.boolTerm(a[0])))
	})
	ite := func(w uint8) intrinsic {
		return func(c *callCtx, a []Value) Value {
			ex := c.ex()
			return fromTerm(ex.C.Ite(ex.boolTerm(a[0]), ex.term(a[1], w), ex.term(a[2], w)))
		}
	}
	rt("IteInt64", ite(64))
	rt("IteFloat64", ite(64))
	// clock control
	rt("Now", func(c *callCtx, a []Value) Value { return c.ex().timeNow() })
	rt("Interval", func(c *callCtx, a []Value) Value {
		v, _ := c.ex().ext["interval"].(Value)
		return v
	})
	rt("Fields", func(c *callCtx, a []Value) Value {
		ifc, ok := a[0].O.(*Iface)
		if !ok {
			unsupported("Fields of nil")
		}
		pt, ok := ifc.T.T.Underlying().(*types.Pointer)
		if !ok {
			unsupported("Fields of %v", ifc.T)
		}
		stt, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			unsupported("Fields of %v", ifc.T)
		}
		ag := c.agg(ifc.V)
		p := c.ex().w.P
		var fs []Value
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if !f.Exported() {
				continue
			}
			ptr := Value{O: &Iface{T: p.rtype(types.NewPointer(f.Type())), V: Value{O: ag, N: uint64(i)}}}
			fs = append(fs, Value{N: aggTag, O: &Agg{F: []Value{mkStr(f.Name()), mkStr(stt.Tag(i)), ptr}}})
		}
		return Value{O: &Slice{A: &Agg{F: fs}, Len: len(fs), Cap: len(fs)}}
	})
	// Skip: the clock moves on by a number of seconds, symbolic perhaps.
	rt("Skip", func(c *callCtx, a []Value) Value {
		ex := c.ex()
		t := ex.term(a[0], 64)
		if ex.skipped != nil {
			t = ex.C.Add(ex.skipped, t)
		}
		ex.skipped = t
		return Value{}
	})
	rt("SetTicks", func(c *callCtx, a []Value) Value {
		c.ex().ext["ticks"] = int(c.ex().conc(a[0]))
		return Value{}
	})
	rt("FireTimers", func(c *callCtx, a []Value) Value {
		c.ex().ext["timers"] = true
		return Value{}
	})
	rt("Yield", func(c *callCtx, a []Value) Value { c.th.visible(pendOp{kind: opYield, rec: true}); return Value{} })
	rt("Daemon", func(c *callCtx, a []Value) Value {
		f := a[0]
		nt := c.th.spawn(true, func(nt *Thread) { nt.callFn(nil, f, nil) })
		nt.daemon = true
		return Value{}
	})
}

// ---- time

// timeNow returns a time.Time with strictly increasing concrete seconds, or, with
// SymTime, non-decreasing symbolic seconds and nanoseconds.
func (ex *Exec) timeNow() Value {
	const base = 63113904000 + 20*365*86400 // seconds since year 1
	a := &Agg{F: make([]Value, 3)}
	if !ex.w.X.Cfg.SymTime {
		ex.timeN++
		a.F[0] = Value{N: ex.timeN % 1000}
		a.F[1] = Value{N: base + ex.timeN}
		if ex.skipped != nil {
			a.F[1] = fromTerm(ex.C.Add(ex.C.BV(base+ex.timeN, 64), ex.skipped))
		}
		ex.inputs = append(ex.inputs, Input{Name: "time", Kind: "time", Val: ex.timeN})
		return Value{N: aggTag, O: a}
	}
	d := ex.freshVar("elapsed", "elapsed", 32)
	n := ex.freshVar("nsec", "nsec", 32)
	c := ex.C
	// the reading in seconds since the base, at least the previous one and
	// below 2^32; 0 <= nsec < 1e9
	dt, nt := d.O.(*smt.Term), n.O.(*smt.Term)
	ex.assume(fromTerm(c.Bin(smt.OUlt, nt, c.BV(1000000000, 32))))
	// time does not go back; stated for every pair of readings, which spares
	// the solver the transitive closure
	var cond *smt.Term = c.True()
	for _, r := range ex.readings {
		cond = c.And(cond, c.Or(c.Bin(smt.OUlt, r[0], dt), c.And(c.Eq(r[0], dt), c.Bin(smt.OUle, r[1], nt))))
	}
	if len(ex.readings) > 0 {
		ex.assume(fromTerm(cond))
	}
	ex.readings = append(ex.readings, [2]*smt.Term{dt, nt})
	a.F[0] = fromTerm(c.ZExt(n.O.(*smt.Term), 64))
	a.F[1] = fromTerm(c.Add(c.BV(base, 64), c.ZExt(dt, 64)))
	return Value{N: aggTag, O: a}
}

// cmpElapsed compares the time between two readings with a constant, without the
// multiplication: t - u < k as t < u + k in seconds and nanoseconds.
func (ex *Exec) cmpElapsed(op token.Token, a, b *smt.Term) *smt.Term {
	m, _ := ex.ext["elapsed"].(map[*smt.Term][2]*Agg)
	if m == nil {
		return nil
	}
	x, ok := m[a]
	k := b
	if !ok {
		if x, ok = m[b]; !ok {
			return nil
		}
		k = a
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	if !k.IsConst() {
		return nil
	}
	q, r := int64(k.Val)/1000000000, int64(k.Val)%1000000000
	if r < 0 {
		q, r = q-1, r+1000000000
	}
	c := ex.C
	ts, tn, us, un := ex.term(x[0].F[1], 64), ex.term(x[0].F[0], 64), ex.term(x[1].F[1], 64), ex.term(x[1].F[0], 64)
	n := c.Add(un, c.BV(uint64(r), 64))
	carry := c.Not(c.Bin(smt.OSlt, n, c.BV(1000000000, 64)))
	s := c.Add(us, c.Ite(carry, c.BV(uint64(q+1), 64), c.BV(uint64(q), 64)))
	n = c.Ite(carry, c.Sub(n, c.BV(1000000000, 64)), n)
	lex := func(s1, n1, s2, n2 *smt.Term, last smt.Op) *smt.Term {
		return c.Or(c.Bin(smt.OSlt, s1, s2), c.And(c.Eq(s1, s2), c.Bin(last, n1, n2)))
	}
	switch op {
	case token.LSS:
		return lex(ts, tn, s, n, smt.OSlt)
	case token.LEQ:
		return lex(ts, tn, s, n, smt.OSle)
	case token.GTR:
		return lex(s, n, ts, tn, smt.OSlt)
	case token.GEQ:
		return lex(s, n, ts, tn, smt.OSle)
	}
	return nil
}

// tickTime is the value a ticker delivers; not a reading of the clock.
func (ex *Exec) tickTime() Value {
	return Value{N: aggTag, O: &Agg{F: []Value{{}, {N: 63113904000 + 20*365*86400 + ex.timeN}, {}}}}
}

func regMisc() {
	reg(func(c *callCtx, a []Value) Value {
		if c.ex().w.X.Cfg.ClockDep {
			c.th.visible(pendOp{kind: opAtomic, obj: objID{p: "clock"}, write: true, rec: c.repoCaller()})
		}
		return c.ex().timeNow()
	}, "time.Now")
	reg(func(c *callCtx, a []Value) Value { return Value{} }, "time.Sleep")
	// No monotonic readings here; the difference of two readings, which are less
	// than 2^32 seconds apart, is exact.
	reg(func(c *callCtx, a []Value) Value {
		ex := c.ex()
		t, u := a[0].O.(*Agg), a[1].O.(*Agg)
		sym := func(v Value) bool { _, ok := v.O.(*smt.Term); return ok }
		const early = 63113904000
		switch {
		case !sym(t.F[1]) && !sym(u.F[1]):
			d := int64(t.F[1].N) - int64(u.F[1].N)
			if d > 9223372035 {
				return Value{N: 1<<63 - 1}
			} else if d < -9223372035 {
				return Value{N: 1 << 63}
			}
		case !sym(u.F[1]) && u.F[1].N < early:
			return Value{N: 1<<63 - 1}
		case !sym(t.F[1]) && t.F[1].N < early:
			return Value{N: 1 << 63}
		}
		x := ex.C.Sub(ex.term(t.F[1], 64), ex.term(u.F[1], 64))
		n := ex.C.Sub(ex.term(t.F[0], 64), ex.term(u.F[0], 64))
		r := fromTerm(ex.C.Add(ex.C.Mul(ex.C.BV(1000000000, 64), x), n))
		if rt, ok := r.O.(*smt.Term); ok {
			m, _ := ex.ext["elapsed"].(map[*smt.Term][2]*Agg)
			if m == nil {
				m = map[*smt.Term][2]*Agg{}
				ex.ext["elapsed"] = m
			}
			m[rt] = [2]*Agg{t, u}
		}
		return r
	}, "(time.Time).Sub")
	ticker := func(c *callCtx, a []Value) Value {
		n, _ := c.ex().ext["ticks"].(int)
		p := c.ex().w.P
		// *Ticker{C, initTicker bool}
		pt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		z := p.tinfo(pt).zero()
		z.O.(*Agg).F[0] = Value{O: &ChanObj{cap: 1, ticker: true, ticks: n, et: p.tinfo(p.ByPath["time"].Type("Time").Type())}}
		return Value{O: &Agg{F: []Value{z}}}
	}
	reg(func(c *callCtx, a []Value) Value {
		if int64(c.ex().conc(a[0])) <= 0 {
			c.panicStr("non-positive interval for NewTicker")
		}
		c.ex().ext["interval"] = a[0]
		return ticker(c, a)
	}, "time.NewTicker")
	reg(func(c *callCtx, a []Value) Value {
		ag := c.agg(a[0])
		if ch := chOf(ag.F[0]); ch != nil {
			ch.ticks = 0
		}
		return Value{}
	}, "(*time.Ticker).Stop")
	reg(ticker, "time.NewTimer")
	reg(func(c *callCtx, a []Value) Value { return cbool(true) }, "(*time.Timer).Reset")
	reg(func(c *callCtx, a []Value) Value { return Value{} }, "(*time.Ticker).Reset")
	reg(func(c *callCtx, a []Value) Value {
		pt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		z := c.ex().w.P.tinfo(pt).zero()
		if on, _ := c.ex().ext["timers"].(bool); on {
			f := a[1]
			stop := z.O.(*Agg)
			nt := c.th.spawn(false, func(nt *Thread) {
				if !c.ex().timerStopped(stop) {
					nt.callFn(nil, f, nil)
				}
			})
			nt.daemon = true
		}
		return Value{O: &Agg{F: []Value{z}}}
	}, "time.AfterFunc")
	reg(func(c *callCtx, a []Value) Value {
		m, _ := c.ex().ext["tstop"].(map[*Agg]bool)
		if m == nil {
			m = map[*Agg]bool{}
			c.ex().ext["tstop"] = m
		}
		m[c.agg(a[0])] = true
		return cbool(true)
	}, "(*time.Timer).Stop")
	reg(func(c *callCtx, a []Value) Value { return Value{} }, "time.runtimeNano")
	reg(noop, "(*log.Logger).Print", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Output", "log.Print", "log.Printf", "log.Println",
		"log.Fatalf", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime/debug.FreeOSMemory", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Read", "internal/race.Write", "internal/race.Disable", "internal/race.Enable",
		"internal/race.ReadRange", "internal/race.WriteRange", "runtime.Callers", "runtime.ReadMemStats",
		"fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint",
		"go.opentelemetry.io/otel/internal/global.Info", "go.opentelemetry.io/otel/internal/global.Debug", "go.opentelemetry.io/otel/internal/global.Warn", "go.opentelemetry.io/otel/internal/global.Error",
		"internal/godebug.New", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Name",
		"log.New", "os.NewFile", "syscall.runtime_envs", "internal/goos.init")
	reg(func(c *callCtx, a []Value) Value { return Value{O: "go1.24"} }, "runtime.Version")
	reg(func(c *callCtx, a []Value) Value {
		fr := c.fr
		for i := int64(c.ex().conc(a[0])); i > 0 && fr != nil; i-- {
			fr = fr.caller
		}
		if fr == nil || fr.at == nil {
			return Value{O: &Tuple{V: []Value{{}, mkStr(""), {}, cbool(false)}}}
		}
		ps := c.ex().w.P.Fset.Position(fr.at.Pos())
		return Value{O: &Tuple{V: []Value{{N: 1}, mkStr(ps.Filename), {N: uint64(ps.Line)}, cbool(true)}}}
	}, "runtime.Caller")
	reg(func(c *callCtx, a []Value) Value { return Value{N: 4} }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	// random bytes: some fixed ones
	reg(func(c *callCtx, a []Value) Value {
		n := 0
		if s, _ := a[1].O.(*Slice); s != nil {
			n = s.Len
			for i := 0; i < n; i++ {
				s.A.F[s.Off+i] = Value{N: uint64(17*i+3) & 255}
			}
		}
		return Value{O: &Tuple{V: []Value{{N: uint64(n)}, {}}}}
	}, "(*crypto/rand.reader).Read")
	reg(func(c *callCtx, a []Value) Value { return Value{N: 4242} }, "os.Getpid")
	reg(func(c *callCtx, a []Value) Value { return Value{O: &Tuple{V: []Value{mkStr("host"), {}}}} }, "os.Hostname")
	reg(func(c *callCtx, a []Value) Value { return Value{O: &Tuple{V: []Value{mkStr("/usr/bin/prog"), {}}}} }, "os.Executable")
	reg(func(c *callCtx, a []Value) Value {
		m, _ := c.ex().ext["env"].(map[string]Value)
		return m[c.str(a[0])]
	}, "os.Getenv")
	reg(func(c *callCtx, a []Value) Value {
		m, _ := c.ex().ext["env"].(map[string]Value)
		v, ok := m[c.str(a[0])]
		return Value{O: &Tuple{V: []Value{v, cbool(ok)}}}
	}, "os.LookupEnv", "syscall.Getenv")
	reg(func(c *callCtx, a []Value) Value {
		m, _ := c.ex().ext["env"].(map[string]Value)
		if m == nil {
			m = map[string]Value{}
			c.ex().ext["env"] = m
		}
		m[c.str(a[0])] = a[1]
		return Value{}
	}, "os.Setenv", RTPath+".Setenv")
	// byte algorithms
	idxByte := func(c *callCtx, b []Value, x Value) Value {
		ex := c.ex()
		for i := range b {
			if b[i].O == nil && x.O == nil {
				if byte(b[i].N) == byte(x.N) {
					return Value{N: uint64(i)}
				}
				continue
			}
			if ex.branch(ex.C.Eq(ex.term(b[i], 8), ex.term(x, 8))) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	slb := func(v Value) []Value {
		if s, _ := v.O.(*Slice); s != nil {
			return s.A.F[s.Off : s.Off+s.Len]
		}
		return nil
	}
	reg(func(c *callCtx, a []Value) Value { return idxByte(c, strBytes(a[0]), a[1]) }, "internal/bytealg.IndexByteString", "strings.IndexByte")
	reg(func(c *callCtx, a []Value) Value { return idxByte(c, slb(a[0]), a[1]) }, "internal/bytealg.IndexByte", "bytes.IndexByte")
	count := func(c *callCtx, b []Value, x Value) Value {
		ex := c.ex()
		n := uint64(0)
		for i := range b {
			if ex.branch(ex.C.Eq(ex.term(b[i], 8), ex.term(x, 8))) {
				n++
			}
		}
		return Value{N: n}
	}
	reg(func(c *callCtx, a []Value) Value { return count(c, strBytes(a[0]), a[1]) }, "internal/bytealg.CountString")
	reg(func(c *callCtx, a []Value) Value { return count(c, slb(a[0]), a[1]) }, "internal/bytealg.Count")
	index := func(c *callCtx, h, n []Value) Value {
		ex := c.ex()
		for i := 0; i+len(n) <= len(h); i++ {
			t := ex.C.True()
			for j := range n {
				t = ex.C.And(t, ex.C.Eq(ex.term(h[i+j], 8), ex.term(n[j], 8)))
			}
			if ex.branch(t) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	reg(func(c *callCtx, a []Value) Value { return index(c, strBytes(a[0]), strBytes(a[1])) }, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(c *callCtx, a []Value) Value { return index(c, slb(a[0]), slb(a[1])) }, "internal/bytealg.Index", "bytes.Index")
	cmp := func(c *callCtx, x, y []Value) Value {
		fr := &frame{th: c.th, code: c.code}
		u, v := bytesToStr(x), bytesToStr(y)
		ex := c.ex()
		lt := ex.boolTerm(fr.strLess(u, v, false))
		gt := ex.boolTerm(fr.strLess(v, u, false))
		return fromTerm(ex.C.Ite(lt, ex.C.BV(^uint64(0), 64), ex.C.Ite(gt, ex.C.BV(1, 64), ex.C.BV(0, 64))))
	}
	reg(func(c *callCtx, a []Value) Value { return cmp(c, strBytes(a[0]), strBytes(a[1])) }, "internal/bytealg.CompareString", "strings.Compare", "runtime.cmpstring")
	reg(func(c *callCtx, a []Value) Value { return cmp(c, slb(a[0]), slb(a[1])) }, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(c *callCtx, a []Value) Value {
		fr := &frame{th: c.th, code: c.code}
		return fr.equal(bytesToStr(slb(a[0])), bytesToStr(slb(a[1])), c.ex().w.P.tinfo(types.Typ[types.String]))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(c *callCtx, a []Value) Value {
		n := int(c.ex().conc(a[0]))
		return Value{O: mkSlice(&tinfo{k: kUint, w: 8, simple: true}, n, n)}
	}, "internal/bytealg.MakeNoZero")
	reg(func(c *callCtx, a []Value) Value { return cbool(true) }, "(*strings.Builder).copyCheck")
	reg(noop, "(*strings.Builder).copyCheck")
	reg(func(c *callCtx, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.NoEscape", "internal/abi.Escape")
	// regexp: host evaluation on concrete strings
	mk := func(c *callCtx, pat string) (Value, error) {
		re, err := regexp.Compile(pat)
		if err != nil {
			return Value{}, err
		}
		a := &Agg{F: make([]Value, 1)}
		a.F[0] = Value{O: re}
		return Value{O: a}, nil
	}
	reg(func(c *callCtx, a []Value) Value {
		v, err := mk(c, c.str(a[0]))
		if err != nil {
			c.panicStr(err.Error())
		}
		return v
	}, "regexp.MustCompile")
	reg(func(c *callCtx, a []Value) Value {
		v, err := mk(c, c.str(a[0]))
		if err != nil {
			return Value{O: &Tuple{V: []Value{{}, c.ex().mkError(err.Error())}}}
		}
		return Value{O: &Tuple{V: []Value{v, {}}}}
	}, "regexp.Compile")
	hostRe := func(c *callCtx, v Value) *regexp.Regexp {
		if v.O == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		return v.O.(*Agg).F[0].O.(*regexp.Regexp)
	}
	reg(func(c *callCtx, a []Value) Value {
		re := hostRe(c, a[0])
		s, ok := strConc(a[1])
		if !ok {
			s = c.concStr(a[1])
		}
		return cbool(re.MatchString(s))
	}, "(*regexp.Regexp).MatchString")
	reg(func(c *callCtx, a []Value) Value { return mkStr(hostRe(c, a[0]).String()) }, "(*regexp.Regexp).String")
	reg(func(c *callCtx, a []Value) Value {
		return mkStr(hostRe(c, a[0]).ReplaceAllString(c.str(a[1]), c.str(a[2])))
	}, "(*regexp.Regexp).ReplaceAllString")
	// farm hash
	reg(func(c *callCtx, a []Value) Value { return c.ex().hash(slb(a[0])) }, "github.com/dgryski/go-farm.Fingerprint64", "github.com/dgryski/go-farm.Hash64")
	// errors.Is/As rely on reflectlite, which is modelled below.
	reg(func(c *callCtx, a []Value) Value { return c.ex().freshVar("rand", "rand", 64) }, "math/rand.Int63", "math/rand.Uint64")
}

func (ex *Exec) timerStopped(a *Agg) bool {
	m, _ := ex.ext["tstop"].(map[*Agg]bool)
	return m[a]
}

func (c *callCtx) concStr(v Value) string {
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		out[i] = byte(c.ex().conc(b))
	}
	return string(out)
}

// hash models the 64-bit fingerprint as an arbitrary function of the content:
// equal contents have equal hashes, different contents may or may not collide.
type hashEnt struct {
	b []Value
	h Value
}

func (ex *Exec) hash(b []Value) Value {
	c := ex.C
	if !ex.w.X.Cfg.SymHash {
		conc := true
		for _, x := range b {
			if x.O != nil {
				conc = false
			}
		}
		if conc {
			bs := make([]byte, len(b))
			for i := range b {
				bs[i] = byte(b[i].N)
			}
			return Value{N: farmHash(bs)}
		}
		unsupported("symbolic content is fingerprinted without the symbolic hash model")
	}
	for _, e := range ex.hashTab {
		if len(e.b) != len(b) {
			continue
		}
		t := c.True()
		for i := range b {
			t = c.And(t, c.Eq(ex.term(b[i], 8), ex.term(e.b[i], 8)))
		}
		if t.IsFalse() {
			continue
		}
		if ex.branch(t) {
			return e.h
		}
	}
	// fresh content: it collides with an earlier content, or has a hash of its own
	n := ex.choose(len(ex.hashVals) + 1)
	var hv uint64
	if n > 0 {
		hv = ex.hashVals[n-1]
	} else {
		hv = (uint64(len(ex.hashTab)) + 1) * 0x9e3779b97f4a7c15
		ex.hashVals = append(ex.hashVals, hv)
	}
	h := Value{N: hv}
	ex.inputs = append(ex.inputs, Input{Name: "hash", Kind: "hash", W: 64, T: c.BV(hv, 64)})
	cp := append([]Value(nil), b...)
	ex.hashTab = append(ex.hashTab, hashEnt{cp, h})
	return h
}

// ---- errors

func (ex *Exec) mkError(msg string) Value {
	pk := ex.w.P.ByPath["errors"]
	t := types.NewPointer(pk.Type("errorString").Type())
	z := &Agg{F: []Value{{N: aggTag, O: &Agg{F: []Value{mkStr(msg)}}}}}
	return Value{O: &Iface{T: ex.w.P.rtype(t), V: Value{O: z}}}
}

// ---- math

func regMath() {
	id := func(c *callCtx, a []Value) Value { return a[0] }
	reg(id, "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits")
	un := func(f func(float64) float64) intrinsic {
		return func(c *callCtx, a []Value) Value {
			if a[0].O != nil {
				unsupported("%s of a symbolic float", c.code.name)
			}
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	for n, f := range map[string]func(float64) float64{"Log": math.Log, "Log2": math.Log2, "Exp": math.Exp, "Exp2": math.Exp2, "Floor": math.Floor,
		"Ceil": math.Ceil, "Trunc": math.Trunc, "Log10": math.Log10, "Log1p": math.Log1p, "Round": math.Round} {
		reg(un(f), "math."+n)
		reg(un(f), "math.arch"+n)
	}
	reg(func(c *callCtx, a []Value) Value {
		return fromTerm(c.ex().C.Un(smt.OFSqrt, c.ex().term(a[0], 64), 64, 0))
	}, "math.Sqrt", "math.sqrt")
	reg(func(c *callCtx, a []Value) Value {
		if a[0].O != nil || a[1].O != nil {
			unsupported("math.Pow of a symbolic float")
		}
		return Value{N: math.Float64bits(math.Pow(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))}
	}, "math.Pow")
	mm := func(isMin bool) intrinsic {
		return func(c *callCtx, a []Value) Value {
			if a[0].O == nil && a[1].O == nil {
				x, y := math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)
				if isMin {
					return Value{N: math.Float64bits(math.Min(x, y))}
				}
				return Value{N: math.Float64bits(math.Max(x, y))}
			}
			C := c.ex().C
			x, y := c.ex().term(a[0], 64), c.ex().term(a[1], 64)
			nan := C.Or(C.Not(C.Bin(smt.OFEq, x, x)), C.Not(C.Bin(smt.OFEq, y, y)))
			lt, gt := C.Bin(smt.OFLt, x, y), C.Bin(smt.OFLt, y, x)
			eq := C.Bin(smt.OBOr, x, y) // equal values differ in the sign of zero at most
			if !isMin {
				lt, gt = gt, lt
				eq = C.Bin(smt.OBAnd, x, y)
			}
			return fromTerm(C.Ite(nan, C.BV(math.Float64bits(math.NaN()), 64), C.Ite(lt, x, C.Ite(gt, y, eq))))
		}
	}
	reg(mm(true), "math.Min", "math.archMin")
	reg(mm(false), "math.Max", "math.archMax")
	reg(func(c *callCtx, a []Value) Value {
		return Value{N: math.Float64bits(math.Ldexp(math.Float64frombits(c.ex().conc(a[0])), int(int64(c.ex().conc(a[1])))))}
	}, "math.Ldexp")
	reg(func(c *callCtx, a []Value) Value {
		f, e := math.Frexp(math.Float64frombits(c.ex().conc(a[0])))
		return Value{O: &Tuple{V: []Value{{N: math.Float64bits(f)}, {N: uint64(int64(e))}}}}
	}, "math.Frexp")
	reg(func(c *callCtx, a []Value) Value {
		ex := c.ex()
		if a[0].O == nil {
			x := math.Float64frombits(a[0].N)
			return cbool(x != x)
		}
		t := ex.term(a[0], 64)
		return fromTerm(ex.C.Not(ex.C.Bin(smt.OFEq, t, t)))
	}, "math.IsNaN")
	reg(func(c *callCtx, a []Value) Value {
		ex := c.ex()
		s := int64(ex.conc(a[1]))
		t := ex.term(a[0], 64)
		p := ex.C.Eq(t, ex.C.BV(math.Float64bits(math.Inf(1)), 64))
		n := ex.C.Eq(t, ex.C.BV(math.Float64bits(math.Inf(-1)), 64))
		switch {
		case s > 0:
			return fromTerm(p)
		case s < 0:
			return fromTerm(n)
		}
		return fromTerm(ex.C.Or(p, n))
	}, "math.IsInf")
	// bits
	bu := func(w uint8, f func(uint64) int) intrinsic {
		return func(c *callCtx, a []Value) Value { return Value{N: uint64(int64(f(c.ex().conc(a[0]))))} }
	}
	reg(bu(64, func(x uint64) int { return bits.LeadingZeros64(x) }), "math/bits.LeadingZeros64")
	reg(bu(64, func(x uint64) int { return bits.Len64(x) }), "math/bits.Len64", "math/bits.Len", "math/bits.Len32")
	reg(bu(64, func(x uint64) int { return bits.TrailingZeros64(x) }), "math/bits.TrailingZeros64", "math/bits.TrailingZeros")
	reg(bu(64, func(x uint64) int { return bits.OnesCount64(x) }), "math/bits.OnesCount64")
}

// ---- packages without a useful symbolic body

func (p *Program) intrinsicByPkg(c *code) intrinsic {
	if strings.HasPrefix(c.name, "(*go.opentelemetry.io/otel/internal/global.ErrDelegator)") {
		return nil
	}
	switch c.pkgPath {
	case "log", "github.com/go-logr/logr", "github.com/go-logr/stdr", "go.uber.org/zap", "go.uber.org/zap/zapcore", "runtime/pprof", "runtime/trace", "google.golang.org/grpc/grpclog":
		if c.fn.Synthetic == "package initializer" || c.fn.Name() == "init" {
			return func(*callCtx, []Value) Value { return Value{} }
		}
		return noop
	}
	return nil
}

var _ = ssa.Function{}
