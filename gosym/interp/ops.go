package interp

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

type intrinsic func(c *callCtx, args []Value) Value

type callCtx struct {
	th   *Thread
	fr   *frame // caller
	fn   *ssa.Function
	code *code
}

// ---- maps

type mapEnt struct {
	k, v Value
	dead bool
}

type MapObj struct {
	kt, vt *tinfo
	ents   []mapEnt
	idx    map[any]int
	sym    int // number of live entries with a symbolic key
	n      int
	owner  *frozen
	rd     *Agg // pseudo cell for the race detector
}

func newMap(kt, vt *tinfo) *MapObj {
	return &MapObj{kt: kt, vt: vt, idx: map[any]int{}, rd: &Agg{F: make([]Value, 1)}}
}

type ckey struct {
	n uint64
	o any
}

// keyOf returns a comparable Go value identifying a fully concrete key.
func (ex *Exec) keyOf(v Value, ti *tinfo) (any, bool) {
	switch ti.k {
	case kBool, kInt, kUint:
		if v.O != nil {
			return nil, false
		}
		return v.N, true
	case kFloat:
		if v.O != nil {
			return nil, false
		}
		f := f64bits(v.N, ti.w)
		if f != f {
			return nil, false
		}
		return f, true
	case kString:
		s, ok := strConc(v)
		return s, ok
	case kPtr, kUnsafe, kChan, kMap:
		return ckey{v.N, v.O}, true
	case kIface:
		if v.O == nil {
			return nil, true
		}
		i := v.O.(*Iface)
		et := ex.w.P.tinfo(i.T.T)
		if et.k == kSlice || et.k == kMap || et.k == kFunc {
			return nil, false
		}
		k, ok := ex.keyOf(i.V, et)
		if !ok {
			return nil, false
		}
		return ckey{uint64(i.T.ID), k}, true
	case kStruct, kArray:
		a := v.O.(*Agg)
		var out any = uint64(len(a.F))
		for i := range a.F {
			et := ti.elem
			if ti.k == kStruct {
				et = ti.fields[i]
			}
			k, ok := ex.keyOf(a.F[i], et)
			if !ok {
				return nil, false
			}
			out = [2]any{out, k}
		}
		return out, true
	}
	return nil, false
}

func (fr *frame) hashable(v Value, ti *tinfo) {
	ex := fr.th.ex
	switch ti.k {
	case kIface:
		if v.O == nil {
			return
		}
		i := v.O.(*Iface)
		et := ex.w.P.tinfo(i.T.T)
		if et.k == kSlice || et.k == kMap || et.k == kFunc {
			fr.rtPanic("hash of unhashable type " + i.T.String())
		}
		fr.hashable(i.V, et)
	case kStruct:
		for i, f := range ti.fields {
			if f.k == kIface || f.k == kStruct || f.k == kArray {
				fr.hashable(v.O.(*Agg).F[i], f)
			}
		}
	case kArray:
		if ti.elem.k == kIface || ti.elem.k == kStruct || ti.elem.k == kArray {
			for _, e := range v.O.(*Agg).F {
				fr.hashable(e, ti.elem)
			}
		}
	}
}

func (fr *frame) mapFind(m *MapObj, key Value) int {
	fr.hashable(key, m.kt)
	ex := fr.th.ex
	k, conc := ex.keyOf(key, m.kt)
	if conc {
		if i, ok := m.idx[k]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if ex.truth(fr.equal(e.k, key, m.kt)) {
			return i
		}
	}
	return -1
}

func (fr *frame) mapAccess(m *MapObj, write bool) {
	if fr.th.ex.multi {
		fr.th.access(m.rd, 0, write, false, fr.at)
	}
}

func (fr *frame) mapGet(m *MapObj, key Value) (Value, bool) {
	fr.mapAccess(m, false)
	i := fr.mapFind(m, key)
	if i < 0 {
		return Value{}, false
	}
	return m.ents[i].v, true
}

func (fr *frame) mapSet(m *MapObj, key, v Value) {
	if m.owner != nil {
		fr.th.ex.thaw(m.owner)
	}
	fr.mapAccess(m, true)
	i := fr.mapFind(m, key)
	if i >= 0 {
		m.ents[i].v = copyVal(v)
		return
	}
	m.ents = append(m.ents, mapEnt{k: copyVal(key), v: copyVal(v)})
	m.n++
	if k, ok := fr.th.ex.keyOf(key, m.kt); ok {
		m.idx[k] = len(m.ents) - 1
	} else {
		m.sym++
	}
}

func (fr *frame) mapDelete(m *MapObj, key Value) {
	if m.owner != nil {
		fr.th.ex.thaw(m.owner)
	}
	fr.mapAccess(m, true)
	i := fr.mapFind(m, key)
	if i < 0 {
		return
	}
	fr.mapKill(m, i)
}

func (fr *frame) mapKill(m *MapObj, i int) {
	e := &m.ents[i]
	if k, ok := fr.th.ex.keyOf(e.k, m.kt); ok {
		delete(m.idx, k)
	} else {
		m.sym--
	}
	e.dead = true
	m.n--
	if m.n == 0 {
		m.ents = nil
	}
}

type mapIter struct {
	m     *MapObj
	ents  []mapEnt
	order []int
	pos   int
	snap  int
}

func (fr *frame) mapIter(v Value) *mapIter {
	it := &mapIter{}
	if v.O == nil {
		return it
	}
	m := v.O.(*MapObj)
	fr.mapAccess(m, false)
	it.m = m
	ex := fr.th.ex
	for i := range m.ents {
		if !m.ents[i].dead {
			it.order = append(it.order, i)
		}
	}
	if len(it.order) > 1 && ex.w.X.Cfg.MapOrder && ex.initing == 0 {
		if ex.mapRev < 0 {
			ex.mapRev = ex.choose(2)
		}
		if ex.mapRev == 1 {
			for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		}
	}
	it.ents = m.ents
	return it
}

func (fr *frame) mapNext(it *mapIter) (Value, Value, bool) {
	if it.m == nil {
		return Value{}, Value{}, false
	}
	fr.mapAccess(it.m, false)
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if i < len(it.m.ents) && !it.m.ents[i].dead {
			return it.m.ents[i].k, it.m.ents[i].v, true
		}
	}
	return Value{}, Value{}, false
}

// ---- channels

type chItem struct {
	v  Value
	vc vclock
}

type ChanObj struct {
	cap    int
	et     *tinfo
	buf    []chItem
	closed bool
	clVC   vclock
	hand   map[*Thread]chItem
	recvVC vclock
	ticker bool
	ticks  int
	owner  *frozen
}

// waitRecv lists the channels a pending thread is ready to receive from.
func (t *Thread) waitsOn(ch *ChanObj) bool {
	if t.finished || t.pend == nil || t.handed {
		return false
	}
	for _, c := range t.recvOn {
		if c == ch {
			return true
		}
	}
	return false
}

func (ex *Exec) receiver(ch *ChanObj, me *Thread) *Thread {
	for _, t := range ex.threads {
		if t != me && t.waitsOn(ch) {
			return t
		}
	}
	return nil
}

func (ex *Exec) canSend(ch *ChanObj, me *Thread) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		return true
	}
	if ch.cap > 0 {
		return len(ch.buf) < ch.cap
	}
	return ex.receiver(ch, me) != nil
}

func (ex *Exec) canRecv(ch *ChanObj, me *Thread) bool {
	if ch == nil {
		return false
	}
	if ch.ticker {
		return ch.ticks > 0
	}
	if _, ok := ch.hand[me]; ok {
		return true
	}
	return len(ch.buf) > 0 || ch.closed
}

func (fr *frame) doSend(ch *ChanObj, v Value) {
	th := fr.th
	if ch.closed {
		fr.rtPanic("send on closed channel")
	}
	th.vc.join(ch.recvVC)
	it := chItem{v: copyVal(v), vc: th.vc.clone()}
	th.vc.set(th.id, th.vc.get(th.id)+1)
	if ch.cap > 0 {
		ch.buf = append(ch.buf, it)
		return
	}
	r := th.ex.receiver(ch, th)
	if r == nil {
		panic("doSend: no receiver")
	}
	if ch.hand == nil {
		ch.hand = map[*Thread]chItem{}
	}
	ch.hand[r] = it
	r.handed = true
	th.vc.join(r.vc)
}

func (fr *frame) doRecv(ch *ChanObj, et *tinfo) (Value, bool) {
	th := fr.th
	if ch.ticker {
		ch.ticks--
		return th.ex.tickTime(), true
	}
	if it, ok := ch.hand[th]; ok {
		delete(ch.hand, th)
		th.handed = false
		th.vc.join(it.vc)
		return it.v, true
	}
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = ch.buf[1:]
		th.vc.join(it.vc)
		ch.recvVC.join(th.vc)
		th.vc.set(th.id, th.vc.get(th.id)+1)
		return it.v, true
	}
	th.vc.join(ch.clVC)
	return et.zero(), false
}

func chOf(v Value) *ChanObj {
	if v.O == nil {
		return nil
	}
	return v.O.(*ChanObj)
}

func (fr *frame) chanSend(cv, v Value) {
	ch := chOf(cv)
	th := fr.th
	th.visible(pendOp{kind: opChan, rec: fr.code.chans, obj: objID{p: ch}, write: true, enabled: func() bool { return th.ex.canSend(ch, th) }})
	fr.doSend(ch, v)
}

func (fr *frame) chanRecv(cv Value, et *tinfo) (Value, bool) {
	ch := chOf(cv)
	th := fr.th
	if ch != nil {
		th.recvOn = []*ChanObj{ch}
	}
	th.visible(pendOp{kind: opChan, rec: fr.code.chans, obj: objID{p: ch}, write: true, enabled: func() bool { return th.ex.canRecv(ch, th) }})
	th.recvOn = nil
	return fr.doRecv(ch, et)
}

func (fr *frame) chanClose(cv Value) {
	ch := chOf(cv)
	th := fr.th
	if ch == nil {
		fr.rtPanic("close of nil channel")
	}
	th.visible(pendOp{kind: opChan, rec: fr.code.chans, obj: objID{p: ch}, write: true})
	if ch.closed {
		fr.rtPanic("close of closed channel")
	}
	if ch.owner != nil {
		th.ex.thaw(ch.owner)
	}
	ch.closed = true
	ch.clVC = th.vc.clone()
	th.vc.set(th.id, th.vc.get(th.id)+1)
}

func (cc *compiler) selectStmt(x *ssa.Select) instr {
	dst := cc.regs[x]
	type st struct {
		send bool
		ch   opnd
		v    opnd
		et   *tinfo
	}
	var sts []st
	for _, s := range x.States {
		e := st{send: s.Dir == types.SendOnly, ch: cc.op(s.Chan)}
		e.et = cc.p.tinfo(s.Chan.Type().Underlying().(*types.Chan).Elem())
		if e.send {
			e.v = cc.op(s.Send)
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	return func(fr *frame) {
		th := fr.th
		ex := th.ex
		chs := make([]*ChanObj, len(sts))
		op := pendOp{kind: opChan, write: true, rec: fr.code.chans}
		var recvs []*ChanObj
		for i := range sts {
			chs[i] = chOf(sts[i].ch.get(fr))
			if chs[i] != nil {
				op.obj2 = append(op.obj2, objID{p: chs[i]})
				if !sts[i].send {
					recvs = append(recvs, chs[i])
				}
			}
		}
		ready := func() []int {
			if th.handed {
				for i := range sts {
					if !sts[i].send && chs[i] != nil {
						if _, ok := chs[i].hand[th]; ok {
							return []int{i}
						}
					}
				}
			}
			var r []int
			for i := range sts {
				if sts[i].send && ex.canSend(chs[i], th) || !sts[i].send && ex.canRecv(chs[i], th) {
					r = append(r, i)
				}
			}
			return r
		}
		if blocking {
			op.enabled = func() bool { return len(ready()) > 0 }
			th.recvOn = recvs
		}
		th.visible(op)
		th.recvOn = nil
		r := ready()
		sel := -1
		if len(r) > 0 {
			sel = r[ex.choose(len(r))]
		}
		if fr.code.chans && th.nid >= 0 && ex.initing == 0 {
			ex.inputs = append(ex.inputs, Input{Name: "select", Kind: "select", Val: uint64(int64(sel))})
		}
		tu := &Tuple{V: []Value{{N: uint64(int64(sel))}, {}}}
		for i := range sts {
			if sts[i].send {
				continue
			}
			if i == sel {
				v, ok := fr.doRecv(chs[i], sts[i].et)
				tu.V[1] = cbool(ok)
				tu.V = append(tu.V, v)
			} else {
				tu.V = append(tu.V, sts[i].et.zero())
			}
		}
		if sel >= 0 && sts[sel].send {
			fr.doSend(chs[sel], sts[sel].v.get(fr))
		}
		fr.regs[dst] = Value{O: tu}
	}
}

// ---- calls

func (cc *compiler) goStmt(x *ssa.Go) instr {
	f := cc.callPrep(x, &x.Call)
	return func(fr *frame) {
		p := f(fr)
		fr.th.spawn(fr.code.chans, func(nt *Thread) { p(nt, nil) })
	}
}

func (cc *compiler) call(in ssa.Instruction, c *ssa.CallCommon) func(fr *frame) func() Value {
	f := cc.callPrep(in, c)
	return func(fr *frame) func() Value {
		p := f(fr)
		return func() Value { return p(fr.th, fr) }
	}
}

func (th *Thread) callFn(caller *frame, f Value, args []Value) Value {
	switch fn := f.O.(type) {
	case nil:
		if caller != nil {
			caller.rtPanic("invalid memory address or nil pointer dereference")
		}
		panic(targetPanic{v: Value{O: &Iface{T: th.ex.w.P.rtErr(), V: mkStr("nil func call")}}})
	case *Closure:
		return th.call(caller, fn.Fn, args, fn.Env)
	case *HostFn:
		return fn.F(th, args)
	}
	unsupported("call of %T", f.O)
	return Value{}
}

// callPrep compiles a call: evaluating operands now, performing the call later.
func (cc *compiler) callPrep(in ssa.Instruction, c *ssa.CallCommon) func(fr *frame) func(th *Thread, caller *frame) Value {
	p := cc.p
	args := make([]opnd, len(c.Args))
	for i, a := range c.Args {
		args[i] = cc.op(a)
	}
	eval := func(fr *frame, extra int) []Value {
		vs := make([]Value, extra, extra+len(args))
		for i := range args {
			vs = append(vs, args[i].get(fr))
		}
		return vs
	}
	if c.IsInvoke() {
		recv := cc.op(c.Value)
		name, pkg := c.Method.Name(), c.Method.Pkg()
		return func(fr *frame) func(*Thread, *frame) Value {
			v := recv.get(fr)
			if v.O == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference (method " + name + " on nil interface)")
			}
			i := v.O.(*Iface)
			as := eval(fr, 1)
			as[0] = i.V
			fn := p.method(i.T, pkg, name)
			if fn == nil {
				unsupported("method %s on %s", name, i.T)
			}
			return func(th *Thread, caller *frame) Value { return th.call(caller, fn, as, nil) }
		}
	}
	switch fn := c.Value.(type) {
	case *ssa.Builtin:
		b := cc.builtin(in, c, fn)
		return func(fr *frame) func(*Thread, *frame) Value {
			as := eval(fr, 0)
			return func(th *Thread, caller *frame) Value {
				if caller == nil {
					caller = fr
				}
				return b(caller, as)
			}
		}
	case *ssa.Function:
		if fn.Synthetic == "package initializer" && fn.Pkg != cc.fn.Pkg {
			return func(fr *frame) func(*Thread, *frame) Value {
				return func(*Thread, *frame) Value { return Value{} }
			}
		}
		var cd *code
		return func(fr *frame) func(*Thread, *frame) Value {
			as := eval(fr, 0)
			return func(th *Thread, caller *frame) Value {
				k := cd
				if k == nil {
					k = p.code(fn)
					cd = k
				}
				return th.callCode(caller, k, as, nil)
			}
		}
	}
	fv := cc.op(c.Value)
	return func(fr *frame) func(*Thread, *frame) Value {
		f := fv.get(fr)
		as := eval(fr, 0)
		return func(th *Thread, caller *frame) Value { return th.callFn(caller, f, as) }
	}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, need, esz int) int {
	nc := oldCap
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if esz == 0 {
		return need
	}
	b := nc * esz
	if b <= 32768 {
		i := sort.SearchInts(sizeClasses, b)
		b = sizeClasses[i]
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return b / esz
}

var stdSizes = types.SizesFor("gc", "amd64")

func (fr *frame) appendVals(dst *Slice, et *tinfo, esz int, src []Value) Value {
	th := fr.th
	l, c := 0, 0
	if dst != nil {
		l, c = dst.Len, dst.Cap
	}
	n := l + len(src)
	if dst != nil && n <= c {
		if len(src) > 0 && dst.A.owner != nil {
			th.ex.thaw(dst.A.owner)
		}
		for i, v := range src {
			k := dst.Off + l + i
			if th.ex.multi {
				th.accessDeep(dst.A, k, true, fr.at)
			}
			th.ex.storeSlot(dst.A, k, v)
		}
		return Value{O: &Slice{A: dst.A, Off: dst.Off, Len: n, Cap: c}}
	}
	nc := growCap(c, n, esz)
	a := &Agg{F: make([]Value, nc)}
	for i := 0; i < l; i++ {
		if th.ex.multi {
			th.accessDeep(dst.A, dst.Off+i, false, fr.at)
		}
		a.F[i] = copyVal(dst.A.F[dst.Off+i])
	}
	for i, v := range src {
		a.F[l+i] = copyVal(v)
	}
	if !et.simple {
		for i := n; i < nc; i++ {
			a.F[i] = et.zero()
		}
	}
	return Value{O: &Slice{A: a, Len: n, Cap: nc}}
}

func (fr *frame) sliceVals(v Value) []Value {
	switch s := v.O.(type) {
	case nil:
		return nil
	case *Slice:
		if fr.th.ex.multi {
			for i := 0; i < s.Len; i++ {
				fr.th.accessDeep(s.A, s.Off+i, false, fr.at)
			}
		}
		return s.A.F[s.Off : s.Off+s.Len]
	case string, *SymStr:
		return strBytes(v)
	}
	panic(fmt.Sprintf("sliceVals %T", v.O))
}

func (cc *compiler) builtin(in ssa.Instruction, c *ssa.CallCommon, b *ssa.Builtin) func(fr *frame, a []Value) Value {
	p := cc.p
	t0 := func() types.Type { return c.Args[0].Type() }
	switch b.Name() {
	case "append":
		et := t0().Underlying().(*types.Slice).Elem()
		eti := p.tinfo(et)
		esz := int(stdSizes.Sizeof(et))
		return func(fr *frame, a []Value) Value {
			d, _ := a[0].O.(*Slice)
			if len(a) == 1 {
				return a[0]
			}
			src := fr.sliceVals(a[1])
			if d == nil && len(src) == 0 {
				return a[0]
			}
			if len(src) == 0 {
				return a[0]
			}
			// guard against aliasing of src and dst
			cp := make([]Value, len(src))
			for i := range src {
				cp[i] = copyVal(src[i])
			}
			return fr.appendVals(d, eti, esz, cp)
		}
	case "copy":
		return func(fr *frame, a []Value) Value {
			d, _ := a[0].O.(*Slice)
			src := fr.sliceVals(a[1])
			if d == nil {
				return Value{}
			}
			n := d.Len
			if len(src) < n {
				n = len(src)
			}
			if n > 0 && d.A.owner != nil {
				fr.th.ex.thaw(d.A.owner)
			}
			cp := make([]Value, n)
			for i := range cp {
				cp[i] = copyVal(src[i])
			}
			for i := range cp {
				if fr.th.ex.multi {
					fr.th.accessDeep(d.A, d.Off+i, true, fr.at)
				}
				fr.th.ex.storeSlot(d.A, d.Off+i, cp[i])
			}
			return Value{N: uint64(n)}
		}
	case "len", "cap":
		isCap := b.Name() == "cap"
		ti := p.tinfo(t0())
		var alen int
		if ti.k == kPtr {
			alen = int(t0().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
		return func(fr *frame, a []Value) Value {
			switch ti.k {
			case kString:
				return Value{N: uint64(strLen(a[0]))}
			case kSlice:
				s, _ := a[0].O.(*Slice)
				if s == nil {
					return Value{}
				}
				if isCap {
					return Value{N: uint64(s.Cap)}
				}
				return Value{N: uint64(s.Len)}
			case kArray:
				return Value{N: uint64(ti.n)}
			case kPtr:
				return Value{N: uint64(alen)}
			case kMap:
				m, _ := a[0].O.(*MapObj)
				if m == nil {
					return Value{}
				}
				fr.mapAccess(m, false)
				return Value{N: uint64(m.n)}
			case kChan:
				ch := chOf(a[0])
				if ch == nil {
					return Value{}
				}
				if isCap {
					return Value{N: uint64(ch.cap)}
				}
				return Value{N: uint64(len(ch.buf))}
			}
			panic("len")
		}
	case "delete":
		return func(fr *frame, a []Value) Value {
			if m, _ := a[0].O.(*MapObj); m != nil {
				fr.mapDelete(m, a[1])
			}
			return Value{}
		}
	case "clear":
		ti := p.tinfo(t0())
		if ti.k == kMap {
			return func(fr *frame, a []Value) Value {
				if m, _ := a[0].O.(*MapObj); m != nil {
					if m.owner != nil {
						fr.th.ex.thaw(m.owner)
					}
					fr.mapAccess(m, true)
					m.ents, m.idx, m.n, m.sym = nil, map[any]int{}, 0, 0
				}
				return Value{}
			}
		}
		et := p.tinfo(t0().Underlying().(*types.Slice).Elem())
		return func(fr *frame, a []Value) Value {
			s, _ := a[0].O.(*Slice)
			if s == nil {
				return Value{}
			}
			if s.A.owner != nil {
				fr.th.ex.thaw(s.A.owner)
			}
			for i := 0; i < s.Len; i++ {
				if fr.th.ex.multi {
					fr.th.accessDeep(s.A, s.Off+i, true, fr.at)
				}
				fr.th.ex.storeSlot(s.A, s.Off+i, et.zero())
			}
			return Value{}
		}
	case "close":
		return func(fr *frame, a []Value) Value { fr.chanClose(a[0]); return Value{} }
	case "panic":
		return func(fr *frame, a []Value) Value {
			panic(targetPanic{v: a[0], where: p.Position(in.Pos())})
		}
	case "print", "println":
		return func(fr *frame, a []Value) Value { return Value{} }
	case "recover":
		return func(fr *frame, a []Value) Value {
			cl := fr.caller
			if cl == nil || !cl.panicking {
				return Value{}
			}
			tp, ok := cl.panicV.(targetPanic)
			if !ok {
				return Value{}
			}
			cl.panicking = false
			cl.panicV = nil
			return tp.v
		}
	case "min", "max":
		ti := p.tinfo(c.Args[0].Type())
		isMin := b.Name() == "min"
		return func(fr *frame, a []Value) Value {
			r := a[0]
			for _, v := range a[1:] {
				r = fr.minmax(r, v, ti, isMin)
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, a []Value) Value {
			if a[0].O == nil {
				fr.rtPanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "String":
		return func(fr *frame, a []Value) Value {
			n := int(int64(fr.th.ex.conc(a[1])))
			if a[0].O == nil || n == 0 {
				return Value{}
			}
			ag := a[0].O.(*Agg)
			return bytesToStr(ag.F[a[0].N : int(a[0].N)+n])
		}
	case "StringData":
		return func(fr *frame, a []Value) Value {
			b := strBytes(a[0])
			if len(b) == 0 {
				return Value{}
			}
			return Value{O: &Agg{F: append([]Value(nil), b...)}}
		}
	case "SliceData":
		return func(fr *frame, a []Value) Value {
			s, _ := a[0].O.(*Slice)
			if s == nil {
				return Value{}
			}
			return Value{N: uint64(s.Off), O: s.A}
		}
	case "Slice":
		return func(fr *frame, a []Value) Value {
			n := int(int64(fr.th.ex.conc(a[1])))
			if a[0].O == nil {
				return Value{}
			}
			ag := a[0].O.(*Agg)
			if int(a[0].N)+n > len(ag.F) {
				unsupported("unsafe.Slice beyond object")
			}
			return Value{O: &Slice{A: ag, Off: int(a[0].N), Len: n, Cap: n}}
		}
	}
	name := b.Name()
	return func(fr *frame, a []Value) Value {
		unsupported("builtin %s", name)
		return Value{}
	}
}

func (fr *frame) minmax(x, y Value, ti *tinfo, isMin bool) Value {
	ex := fr.th.ex
	c := ex.C
	switch ti.k {
	case kInt, kUint:
		op := smt.OUlt
		if ti.k == kInt {
			op = smt.OSlt
		}
		a, b := ex.term(x, ti.w), ex.term(y, ti.w)
		lt := c.Bin(op, a, b)
		if isMin {
			return fromTerm(c.Ite(lt, a, b))
		}
		return fromTerm(c.Ite(lt, b, a))
	case kFloat:
		// NaN propagates, -0 < +0
		a, b := ex.term(x, ti.w), ex.term(y, ti.w)
		lt := c.Bin(smt.OFLt, a, b)
		eq := c.Bin(smt.OFEq, a, b)
		var r, z *smt.Term
		if isMin {
			r = c.Ite(lt, a, b)
			z = c.Bin(smt.OBOr, a, b)
		} else {
			r = c.Ite(lt, b, a)
			z = c.Bin(smt.OBAnd, a, b)
		}
		r = c.Ite(eq, z, r)
		anan := c.Not(c.Bin(smt.OFEq, a, a))
		bnan := c.Not(c.Bin(smt.OFEq, b, b))
		return fromTerm(c.Ite(anan, a, c.Ite(bnan, b, r)))
	case kString:
		lt := ex.truth(fr.strLess(x, y, false))
		if lt == isMin {
			return x
		}
		return y
	}
	panic("minmax")
}
