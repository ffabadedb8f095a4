package interp

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"gosym/smt"
)

func f64bits(n uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(n)))
	}
	return math.Float64frombits(n)
}

type opnd struct {
	reg int // >=0 register
	c   Value
	g   *ssa.Global
}

func (o *opnd) get(fr *frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.g != nil {
		return Value{N: 0, O: fr.th.ex.global(o.g)}
	}
	return o.c
}

type instr func(fr *frame)

type phi struct {
	dst   int
	edges []opnd
}

type block struct {
	phis  []phi
	ins   []instr
	src   []ssa.Instruction
	npred int
	preds []int
	term  int // 0 fallthrough(jump) 1 if 2 return 3 panic/unreachable
	cond  opnd
	succ  [2]int
	rets  []opnd
}

type code struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []block
	hasDefer bool
	recov    int
	repo     bool
	intr     intrinsic
	noBody   bool
	pkgPath  string
	chans    bool // the native replay controls its goroutines and channel operations
	results  *tinfo
	nparams  int
}

type deferred struct {
	fn   Value
	inv  *ssa.CallCommon
	args []Value
	recv Value
	next *deferred
	call func()
}

type frame struct {
	th        *Thread
	code      *code
	caller    *frame
	regs      []Value
	cur       int
	prev      int
	defers    []func()
	panicking bool
	panicV    any
	result    Value
	done      bool
	at        ssa.Instruction
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// canonical name used for intrinsics
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

// Controlled are the packages outside the repository whose goroutines and channel
// operations the native replay controls.
var Controlled = map[string]bool{"go.opentelemetry.io/otel/sdk/trace": true}

func (p *Program) code(fn *ssa.Function) *code {
	if c, ok := p.codes.Load(fn); ok {
		return c.(*code)
	}
	c := p.compile(fn)
	a, _ := p.codes.LoadOrStore(fn, c)
	return a.(*code)
}

func (p *Program) compile(fn *ssa.Function) *code {
	c := &code{fn: fn, name: fnName(fn), recov: -1}
	c.pkgPath = fnPkgPath(fn)
	c.repo = c.pkgPath == p.RepoMod || strings.HasPrefix(c.pkgPath, p.RepoMod+"/")
	c.chans = c.repo || Controlled[c.pkgPath]
	if r, ok := p.Redirect[c.name]; ok && r != fn {
		fn = r
	}
	if in, ok := intrinsics[c.name]; ok {
		c.intr = in
		return c
	}
	if in := p.intrinsicByPkg(c); in != nil {
		c.intr = in
		return c
	}
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	if fn.Blocks == nil {
		c.noBody = true
		return c
	}
	if fn.Signature.Results().Len() > 0 {
		if fn.Signature.Results().Len() == 1 {
			c.results = p.tinfo(fn.Signature.Results().At(0).Type())
		} else {
			c.results = p.tinfo(fn.Signature.Results())
		}
	}
	regs := map[ssa.Value]int{}
	n := 0
	for _, x := range fn.Params {
		regs[x] = n
		n++
	}
	c.nparams = n
	for _, x := range fn.FreeVars {
		regs[x] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = n
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	cc := &compiler{p: p, c: c, regs: regs, fn: fn}
	c.blocks = make([]block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cc.block(&c.blocks[i], b)
	}
	return c
}

type compiler struct {
	p    *Program
	c    *code
	fn   *ssa.Function
	regs map[ssa.Value]int
}

func (cc *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: cc.p.constVal(x)}
	case *ssa.Global:
		return opnd{reg: -1, g: x}
	case *ssa.Function:
		return opnd{reg: -1, c: Value{O: &Closure{Fn: x}}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: Value{O: x}}
	}
	r, ok := cc.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v (%T) in %v", v, v, cc.fn))
	}
	return opnd{reg: r}
}

func (p *Program) constVal(c *ssa.Const) Value {
	ti := p.tinfo(c.Type())
	if c.Value == nil {
		return ti.zero()
	}
	switch ti.k {
	case kBool:
		return cbool(constant.BoolVal(c.Value))
	case kInt, kUint:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{N: uint64(i) & smt.Mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{N: u & smt.Mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if ti.w == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return Value{N: uint64(math.Float32bits(f32))}
		}
		return Value{N: math.Float64bits(f)}
	case kString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case kComplex:
		return Value{O: "complex"}
	}
	panic(fmt.Sprintf("const of type %v", c.Type()))
}

func (cc *compiler) block(b *block, sb *ssa.BasicBlock) {
	for _, pb := range sb.Preds {
		b.preds = append(b.preds, pb.Index)
	}
	for _, in := range sb.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			ph := phi{dst: cc.regs[x]}
			for _, e := range x.Edges {
				ph.edges = append(ph.edges, cc.op(e))
			}
			b.phis = append(b.phis, ph)
		case *ssa.Jump:
			b.term = 0
			b.succ[0] = sb.Succs[0].Index
		case *ssa.If:
			b.term = 1
			b.cond = cc.op(x.Cond)
			b.succ[0] = sb.Succs[0].Index
			b.succ[1] = sb.Succs[1].Index
		case *ssa.Return:
			b.term = 2
			for _, r := range x.Results {
				b.rets = append(b.rets, cc.op(r))
			}
		case *ssa.Panic:
			b.term = 3
			o := cc.op(x.X)
			b.ins = append(b.ins, func(fr *frame) {
				panic(targetPanic{v: o.get(fr), where: cc.p.Position(x.Pos()) + " in " + cc.fn.String()})
			})
			b.src = append(b.src, in)
		case *ssa.DebugRef:
		default:
			b.ins = append(b.ins, cc.instr(in))
			b.src = append(b.src, in)
		}
	}
}

// ---- execution

func (th *Thread) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	c := th.ex.w.P.code(fn)
	return th.callCode(caller, c, args, env)
}

func (th *Thread) callCode(caller *frame, c *code, args []Value, env []Value) Value {
	ex := th.ex
	if c.intr != nil {
		return c.intr(&callCtx{th: th, fr: caller, fn: c.fn, code: c}, args)
	}
	if c.noBody {
		unsupported("no body for %s", c.name)
	}
	if c.repo {
		ex.w.P.Executed.LoadOrStore(c.name, c)
	}
	th.depth++
	if th.depth > 400 {
		th.depth = 0
		panic(abortPath{"limit", "call depth exceeded in " + c.name})
	}
	fr := &frame{th: th, code: c, caller: caller, regs: make([]Value, c.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	oldTop := th.top
	th.top = fr
	if !c.hasDefer {
		fr.run()
	} else {
		for !fr.done {
			fr.runProtected()
		}
	}
	th.top = oldTop
	th.depth--
	return fr.result
}

func (fr *frame) runProtected() {
	th := fr.th
	depth := th.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		if r == nil {
			panic("runProtected: no panic")
		}
		switch r.(type) {
		case targetPanic:
		default:
			panic(r)
		}
		th.depth = depth
		th.top = fr
		fr.panicking = true
		fr.panicV = r
		fr.runDefers()
		// recovered
		if fr.code.recov >= 0 {
			fr.cur = fr.code.recov
			fr.prev = -1
			return
		}
		// no named results: return zero values
		if fr.code.results != nil {
			fr.result = fr.code.results.zero()
		}
		fr.done = true
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			depth := fr.th.depth
			defer func() {
				if !ok {
					r := recover()
					fr.th.depth = depth
					if _, is := r.(targetPanic); !is {
						panic(r)
					}
					fr.th.top = fr
					fr.panicking = true
					fr.panicV = r
				}
			}()
			d()
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *frame) run() {
	th := fr.th
	ex := th.ex
	for {
		b := &fr.code.blocks[fr.cur]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].dst] = b.phis[0].edges[pi].get(fr)
			} else {
				var tmpA [8]Value
				tmp := tmpA[:0]
				for i := range b.phis {
					tmp = append(tmp, b.phis[i].edges[pi].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		for i, in := range b.ins {
			fr.at = b.src[i]
			in(fr)
		}
		ex.steps += len(b.ins) + 1
		if ex.steps > ex.w.X.Cfg.MaxSteps {
			panic(abortPath{"limit", fmt.Sprintf("more than %d steps", ex.w.X.Cfg.MaxSteps)})
		}
		switch b.term {
		case 0:
			fr.prev = fr.cur
			fr.cur = b.succ[0]
		case 1:
			fr.prev = fr.cur
			c := b.cond.get(fr)
			var t bool
			if c.O == nil {
				t = c.N != 0
			} else {
				t = ex.branch(c.O.(*smt.Term))
			}
			if t {
				fr.cur = b.succ[0]
			} else {
				fr.cur = b.succ[1]
			}
		case 2:
			switch len(b.rets) {
			case 0:
			case 1:
				fr.result = b.rets[0].get(fr)
			default:
				tu := &Tuple{V: make([]Value, len(b.rets))}
				for i := range b.rets {
					tu.V[i] = b.rets[i].get(fr)
				}
				fr.result = Value{O: tu}
			}
			fr.done = true
			return
		default:
			panic("unreachable block end in " + fr.code.name)
		}
	}
}

// rtPanic raises a Go runtime panic in the interpreted program.
func (fr *frame) rtPanic(msg string) {
	ex := fr.th.ex
	where := ""
	if fr.at != nil {
		where = ex.w.P.Position(fr.at.Pos()) + " in " + fr.code.name
	}
	panic(targetPanic{v: Value{O: &Iface{T: ex.w.P.rtErr(), V: mkStr(msg)}}, where: where})
}

func (p *Program) rtErr() *RType {
	pk := p.ByPath["runtime"]
	if pk == nil {
		return p.rtype(types.Typ[types.String])
	}
	if t := pk.Type("errorString"); t != nil {
		return p.rtype(t.Type())
	}
	return p.rtype(types.Typ[types.String])
}

func (ex *Exec) panicString(v Value) string {
	if v.O == nil {
		return "nil"
	}
	i := v.O.(*Iface)
	if s, ok := i.V.O.(string); ok {
		return s
	}
	return ex.w.P.show(v, i.T.T, 3)
}

// ---- memory

func (fr *frame) slot(p Value) (*Agg, int) {
	if p.O == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	a, ok := p.O.(*Agg)
	if !ok {
		unsupported("dereference of %T in %s", p.O, fr.code.name)
	}
	if p.N >= uint64(len(a.F)) {
		unsupported("pointer outside its object in %s", fr.code.name)
	}
	return a, int(p.N)
}

func (fr *frame) load(p Value, ti *tinfo) Value {
	a, i := fr.slot(p)
	th := fr.th
	if th.ex.multi {
		th.accessDeep(a, i, false, fr.at)
	}
	v := a.F[i]
	if v.N == aggTag {
		return copyVal(v)
	}
	if ti.k == kString {
		if s, ok := v.O.(*Slice); ok { // *(*string)(unsafe.Pointer(&bytes))
			return bytesToStr(s.A.F[s.Off : s.Off+s.Len])
		}
	}
	return v
}

func (fr *frame) store(p Value, v Value) {
	a, i := fr.slot(p)
	th := fr.th
	if a.owner != nil {
		th.ex.thaw(a.owner)
	}
	if th.ex.multi {
		th.accessDeep(a, i, true, fr.at)
	}
	th.ex.storeSlot(a, i, v)
}

func (ex *Exec) storeSlot(a *Agg, i int, v Value) {
	if v.N == aggTag {
		if src, ok := v.O.(*Agg); ok {
			dst, ok := a.F[i].O.(*Agg)
			if !ok || a.F[i].N != aggTag {
				a.F[i] = copyVal(v)
				return
			}
			if dst == src {
				return
			}
			if dst.owner != nil {
				ex.thaw(dst.owner)
			}
			if len(dst.F) != len(src.F) {
				unsupported("aggregate store of different shape")
			}
			for j := range src.F {
				ex.storeSlot(dst, j, src.F[j])
			}
			return
		}
	}
	a.F[i] = v
}

func (ex *Exec) newAgg(n int) *Agg {
	return &Agg{F: make([]Value, n)}
}

// alloc returns a pointer to a fresh zero variable.
func alloc(ti *tinfo) Value {
	return Value{N: 0, O: &Agg{F: []Value{ti.zero()}}}
}

// ---- instructions

func (cc *compiler) instr(in ssa.Instruction) instr {
	p := cc.p
	switch x := in.(type) {
	case *ssa.Alloc:
		dst := cc.regs[x]
		ti := p.tinfo(x.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) { fr.regs[dst] = alloc(ti) }
	case *ssa.BinOp:
		return cc.binop(x)
	case *ssa.UnOp:
		return cc.unop(x)
	case *ssa.Call:
		dst := cc.regs[x]
		f := cc.call(x, &x.Call)
		return func(fr *frame) { fr.regs[dst] = f(fr)() }
	case *ssa.Defer:
		f := cc.call(x, &x.Call)
		if x.DeferStack != nil {
			return func(fr *frame) { unsupported("defer stack") }
		}
		return func(fr *frame) {
			th := f(fr)
			fr.defers = append(fr.defers, func() { th() })
		}
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Go:
		return cc.goStmt(x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		dst := cc.regs[in.(ssa.Value)]
		o := cc.op(*in.Operands(nil)[0])
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.Convert:
		return cc.convert(x, x.X)
	case *ssa.MultiConvert:
		return cc.convert(x, x.X)
	case *ssa.Extract:
		dst := cc.regs[x]
		o := cc.op(x.Tuple)
		idx := x.Index
		return func(fr *frame) { fr.regs[dst] = o.get(fr).O.(*Tuple).V[idx] }
	case *ssa.Field:
		dst := cc.regs[x]
		o := cc.op(x.X)
		idx := x.Field
		return func(fr *frame) { fr.regs[dst] = o.get(fr).O.(*Agg).F[idx] }
	case *ssa.FieldAddr:
		dst := cc.regs[x]
		o := cc.op(x.X)
		idx := uint64(x.Field)
		return func(fr *frame) {
			a, i := fr.slot(o.get(fr))
			s, ok := a.F[i].O.(*Agg)
			if !ok {
				unsupported("field address through reinterpreted pointer in %s", fr.code.name)
			}
			fr.regs[dst] = Value{N: idx, O: s}
		}
	case *ssa.Index:
		dst := cc.regs[x]
		o, i := cc.op(x.X), cc.op(x.Index)
		iti := p.tinfo(x.Index.Type())
		isStr := p.tinfo(x.X.Type()).k == kString
		return func(fr *frame) {
			v := o.get(fr)
			var n int
			if isStr {
				n = strLen(v)
			} else {
				n = len(v.O.(*Agg).F)
			}
			k := fr.index(i.get(fr), iti, n)
			if isStr {
				fr.regs[dst] = strByte(v, k)
			} else {
				fr.regs[dst] = v.O.(*Agg).F[k]
			}
		}
	case *ssa.IndexAddr:
		dst := cc.regs[x]
		o, i := cc.op(x.X), cc.op(x.Index)
		iti := p.tinfo(x.Index.Type())
		if p.tinfo(x.X.Type()).k == kSlice {
			return func(fr *frame) {
				v := o.get(fr)
				s, _ := v.O.(*Slice)
				n := 0
				if s != nil {
					n = s.Len
				}
				k := fr.index(i.get(fr), iti, n)
				fr.regs[dst] = Value{N: uint64(s.Off + k), O: s.A}
			}
		}
		return func(fr *frame) {
			a, si := fr.slot(o.get(fr))
			arr, ok := a.F[si].O.(*Agg)
			if !ok {
				unsupported("index through reinterpreted pointer")
			}
			k := fr.index(i.get(fr), iti, len(arr.F))
			fr.regs[dst] = Value{N: uint64(k), O: arr}
		}
	case *ssa.Lookup:
		return cc.lookup(x)
	case *ssa.MakeChan:
		dst := cc.regs[x]
		o := cc.op(x.Size)
		et := p.tinfo(x.Type().Underlying().(*types.Chan).Elem())
		return func(fr *frame) {
			n := int(int64(fr.th.ex.conc(o.get(fr))))
			fr.regs[dst] = Value{O: &ChanObj{cap: n, et: et}}
		}
	case *ssa.MakeClosure:
		dst := cc.regs[x]
		var bs []opnd
		for _, b := range x.Bindings {
			bs = append(bs, cc.op(b))
		}
		fn := x.Fn.(*ssa.Function)
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = Value{O: &Closure{Fn: fn, Env: env}}
		}
	case *ssa.MakeInterface:
		dst := cc.regs[x]
		o := cc.op(x.X)
		rt := p.rtype(x.X.Type())
		return func(fr *frame) { fr.regs[dst] = Value{O: &Iface{T: rt, V: o.get(fr)}} }
	case *ssa.MakeMap:
		dst := cc.regs[x]
		mt := x.Type().Underlying().(*types.Map)
		kt, vt := p.tinfo(mt.Key()), p.tinfo(mt.Elem())
		return func(fr *frame) { fr.regs[dst] = Value{O: newMap(kt, vt)} }
	case *ssa.MakeSlice:
		dst := cc.regs[x]
		lo, co := cc.op(x.Len), cc.op(x.Cap)
		et := p.tinfo(x.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			ex := fr.th.ex
			l := int64(ex.conc(lo.get(fr)))
			c := int64(ex.conc(co.get(fr)))
			if l < 0 || l > 1<<32 {
				fr.rtPanic("makeslice: len out of range")
			}
			if c < l || c > 1<<32 {
				fr.rtPanic("makeslice: cap out of range")
			}
			if c > 1<<21 {
				unsupported("makeslice of %d elements", c)
			}
			fr.regs[dst] = Value{O: mkSlice(et, int(l), int(c))}
		}
	case *ssa.MapUpdate:
		m, k, v := cc.op(x.Map), cc.op(x.Key), cc.op(x.Value)
		return func(fr *frame) {
			mv := m.get(fr)
			if mv.O == nil {
				fr.rtPanic("assignment to entry in nil map")
			}
			fr.mapSet(mv.O.(*MapObj), k.get(fr), v.get(fr))
		}
	case *ssa.Next:
		return cc.next(x)
	case *ssa.Range:
		dst := cc.regs[x]
		o := cc.op(x.X)
		isStr := p.tinfo(x.X.Type()).k == kString
		return func(fr *frame) {
			v := o.get(fr)
			if isStr {
				fr.regs[dst] = Value{O: &strIter{s: v}}
				return
			}
			fr.regs[dst] = Value{O: fr.mapIter(v)}
		}
	case *ssa.Select:
		return cc.selectStmt(x)
	case *ssa.Send:
		c, v := cc.op(x.Chan), cc.op(x.X)
		return func(fr *frame) { fr.chanSend(c.get(fr), v.get(fr)) }
	case *ssa.Slice:
		return cc.slice(x)
	case *ssa.SliceToArrayPointer:
		dst := cc.regs[x]
		o := cc.op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) {
			s, _ := o.get(fr).O.(*Slice)
			if s == nil {
				if n == 0 {
					fr.regs[dst] = Value{}
					return
				}
				fr.rtPanic("slice to array pointer: length mismatch")
			}
			if int64(s.Len) < n {
				fr.rtPanic("slice to array pointer: length mismatch")
			}
			if s.Off == 0 && int64(len(s.A.F)) == n {
				fr.regs[dst] = Value{N: 0, O: &Agg{F: []Value{{N: aggTag, O: s.A}}}}
				return
			}
			// alias by copying is unsound for writes; used for reads only in practice
			na := &Agg{F: append([]Value(nil), s.A.F[s.Off:s.Off+int(n)]...)}
			fr.regs[dst] = Value{N: 0, O: &Agg{F: []Value{{N: aggTag, O: na}}}}
		}
	case *ssa.Store:
		a, v := cc.op(x.Addr), cc.op(x.Val)
		return func(fr *frame) { fr.store(a.get(fr), v.get(fr)) }
	case *ssa.TypeAssert:
		return cc.typeAssert(x)
	}
	panic(fmt.Sprintf("instr %T", in))
}

func (fr *frame) index(i Value, ti *tinfo, n int) int {
	ex := fr.th.ex
	if i.O == nil {
		var k int64
		if ti.k == kInt {
			k = smt.SExtTo64(i.N, ti.w)
		} else {
			k = int64(i.N)
			if i.N > 1<<62 {
				k = -1
			}
		}
		if k < 0 || k >= int64(n) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k)
	}
	t := i.O.(*smt.Term)
	c := ex.C
	if t.W < 64 {
		if ti.k == kInt {
			t = c.SExt(t, 64)
		} else {
			t = c.ZExt(t, 64)
		}
	}
	ok := c.Bin(smt.OUlt, t, c.BV(uint64(n), 64))
	if !ex.branch(ok) {
		fr.rtPanic("index out of range")
	}
	return int(ex.concretize(t))
}

func mkSlice(et *tinfo, l, c int) *Slice {
	a := &Agg{F: make([]Value, c)}
	if !et.simple {
		for i := range a.F {
			a.F[i] = et.zero()
		}
	}
	return &Slice{A: a, Len: l, Cap: c}
}

func (cc *compiler) unop(x *ssa.UnOp) instr {
	p := cc.p
	dst := cc.regs[x]
	o := cc.op(x.X)
	ti := p.tinfo(x.X.Type())
	switch x.Op {
	case token.MUL:
		rt := p.tinfo(x.Type())
		return func(fr *frame) { fr.regs[dst] = fr.load(o.get(fr), rt) }
	case token.NOT:
		return func(fr *frame) {
			v := o.get(fr)
			if v.O == nil {
				fr.regs[dst] = Value{N: 1 - v.N}
			} else {
				fr.regs[dst] = fromTerm(fr.th.ex.C.Not(v.O.(*smt.Term)))
			}
		}
	case token.SUB:
		return func(fr *frame) {
			v := o.get(fr)
			c := fr.th.ex.C
			switch ti.k {
			case kFloat:
				fr.regs[dst] = fromTerm(c.Un(smt.OFNeg, fr.th.ex.term(v, ti.w), ti.w, 0))
			case kComplex:
				unsupported("complex")
			default:
				if v.O == nil {
					fr.regs[dst] = Value{N: -v.N & smt.Mask(ti.w)}
				} else {
					fr.regs[dst] = fromTerm(c.Neg(v.O.(*smt.Term)))
				}
			}
		}
	case token.XOR:
		return func(fr *frame) {
			v := o.get(fr)
			if v.O == nil {
				fr.regs[dst] = Value{N: ^v.N & smt.Mask(ti.w)}
			} else {
				fr.regs[dst] = fromTerm(fr.th.ex.C.BNot(v.O.(*smt.Term)))
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		et := p.tinfo(x.X.Type().Underlying().(*types.Chan).Elem())
		return func(fr *frame) {
			v, ok := fr.chanRecv(o.get(fr), et)
			if commaOk {
				fr.regs[dst] = Value{O: &Tuple{V: []Value{v, cbool(ok)}}}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	panic("unop " + x.Op.String())
}

func (cc *compiler) binop(x *ssa.BinOp) instr {
	p := cc.p
	dst := cc.regs[x]
	a, b := cc.op(x.X), cc.op(x.Y)
	ti := p.tinfo(x.X.Type())
	tiy := p.tinfo(x.Y.Type())
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if ti.k == kIface || tiy.k == kIface {
			ti = p.tinfo(types.NewInterfaceType(nil, nil))
		}
		if ti.k == kBool || ti.k == kInt || ti.k == kUint {
			return func(fr *frame) {
				u, v := a.get(fr), b.get(fr)
				if u.O == nil && v.O == nil {
					fr.regs[dst] = cbool((u.N == v.N) != neg)
					return
				}
				ex := fr.th.ex
				t := ex.C.Eq(ex.term(u, ti.w), ex.term(v, ti.w))
				if neg {
					t = ex.C.Not(t)
				}
				fr.regs[dst] = fromTerm(t)
			}
		}
		return func(fr *frame) {
			r := fr.equal(a.get(fr), b.get(fr), ti)
			if neg {
				if r.O == nil {
					r.N = 1 - r.N
				} else {
					r = fromTerm(fr.th.ex.C.Not(r.O.(*smt.Term)))
				}
			}
			fr.regs[dst] = r
		}
	}
	switch ti.k {
	case kString:
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			switch op {
			case token.ADD:
				fr.regs[dst] = strCat(u, v)
			case token.LSS:
				fr.regs[dst] = fr.strLess(u, v, false)
			case token.LEQ:
				fr.regs[dst] = fr.strLess(u, v, true)
			case token.GTR:
				fr.regs[dst] = fr.strLess(v, u, false)
			case token.GEQ:
				fr.regs[dst] = fr.strLess(v, u, true)
			default:
				panic("string op")
			}
		}
	case kComplex:
		return func(fr *frame) { unsupported("complex arithmetic") }
	case kFloat:
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			ex := fr.th.ex
			t1, t2 := ex.term(u, ti.w), ex.term(v, ti.w)
			var r *smt.Term
			switch op {
			case token.ADD:
				r = ex.C.Bin(smt.OFAdd, t1, t2)
			case token.SUB:
				r = ex.C.Bin(smt.OFSub, t1, t2)
			case token.MUL:
				r = ex.C.Bin(smt.OFMul, t1, t2)
			case token.QUO:
				r = ex.C.Bin(smt.OFDiv, t1, t2)
			case token.LSS:
				r = ex.C.Bin(smt.OFLt, t1, t2)
			case token.LEQ:
				r = ex.C.Bin(smt.OFLe, t1, t2)
			case token.GTR:
				r = ex.C.Bin(smt.OFLt, t2, t1)
			case token.GEQ:
				r = ex.C.Bin(smt.OFLe, t2, t1)
			default:
				panic("float op")
			}
			fr.regs[dst] = fromTerm(r)
		}
	case kBool:
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			ex := fr.th.ex
			t1, t2 := ex.boolTerm(u), ex.boolTerm(v)
			switch op {
			case token.AND, token.LAND:
				fr.regs[dst] = fromTerm(ex.C.And(t1, t2))
			case token.OR, token.LOR:
				fr.regs[dst] = fromTerm(ex.C.Or(t1, t2))
			case token.XOR:
				fr.regs[dst] = fromTerm(ex.C.Not(ex.C.Eq(t1, t2)))
			default:
				panic("bool op")
			}
		}
	case kInt, kUint:
	default:
		panic(fmt.Sprintf("binop %v on %v", op, x.X.Type()))
	}
	w := ti.w
	mask := smt.Mask(w)
	signed := ti.k == kInt
	sx := func(n uint64) int64 { return smt.SExtTo64(n, w) }
	switch op {
	case token.SHL, token.SHR:
		ysigned := tiy.k == kInt
		return func(fr *frame) {
			u, v := a.get(fr), b.get(fr)
			ex := fr.th.ex
			if ysigned {
				neg := false
				if v.O == nil {
					neg = smt.SExtTo64(v.N, tiy.w) < 0
				} else {
					neg = ex.branch(ex.C.Bin(smt.OSlt, v.O.(*smt.Term), ex.C.BV(0, tiy.w)))
				}
				if neg {
					fr.rtPanic("negative shift amount")
				}
			}
			if u.O == nil && v.O == nil {
				sh := v.N
				switch {
				case op == token.SHL:
					if sh >= uint64(w) {
						fr.regs[dst] = Value{}
					} else {
						fr.regs[dst] = Value{N: (u.N << sh) & mask}
					}
				case signed:
					if sh >= uint64(w) {
						sh = uint64(w) - 1
					}
					fr.regs[dst] = Value{N: uint64(sx(u.N)>>sh) & mask}
				default:
					if sh >= uint64(w) {
						fr.regs[dst] = Value{}
					} else {
						fr.regs[dst] = Value{N: u.N >> sh}
					}
				}
				return
			}
			t1, t2 := ex.term(u, w), ex.term(v, tiy.w)
			if t2.W > w {
				lt := ex.C.Bin(smt.OUlt, t2, ex.C.BV(uint64(w), t2.W))
				t2 = ex.C.Ite(lt, ex.C.Extract(t2, 0, w), ex.C.BV(uint64(w), w))
			} else {
				t2 = ex.C.ZExt(t2, w)
			}
			so := smt.OShl
			if op == token.SHR {
				so = smt.OLShr
				if signed {
					so = smt.OAShr
				}
			}
			fr.regs[dst] = fromTerm(ex.C.Bin(so, t1, t2))
		}
	}
	return func(fr *frame) {
		u, v := a.get(fr), b.get(fr)
		if u.O == nil && v.O == nil {
			var n uint64
			switch op {
			case token.ADD:
				n = u.N + v.N
			case token.SUB:
				n = u.N - v.N
			case token.MUL:
				n = u.N * v.N
			case token.QUO:
				if v.N == 0 {
					fr.rtPanic("integer divide by zero")
				}
				if signed {
					if sx(v.N) == -1 {
						n = uint64(-sx(u.N))
					} else {
						n = uint64(sx(u.N) / sx(v.N))
					}
				} else {
					n = u.N / v.N
				}
			case token.REM:
				if v.N == 0 {
					fr.rtPanic("integer divide by zero")
				}
				if signed {
					if sx(v.N) == -1 {
						n = 0
					} else {
						n = uint64(sx(u.N) % sx(v.N))
					}
				} else {
					n = u.N % v.N
				}
			case token.AND:
				n = u.N & v.N
			case token.OR:
				n = u.N | v.N
			case token.XOR:
				n = u.N ^ v.N
			case token.AND_NOT:
				n = u.N &^ v.N
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				var r bool
				if signed {
					p, q := sx(u.N), sx(v.N)
					switch op {
					case token.LSS:
						r = p < q
					case token.LEQ:
						r = p <= q
					case token.GTR:
						r = p > q
					default:
						r = p >= q
					}
				} else {
					switch op {
					case token.LSS:
						r = u.N < v.N
					case token.LEQ:
						r = u.N <= v.N
					case token.GTR:
						r = u.N > v.N
					default:
						r = u.N >= v.N
					}
				}
				fr.regs[dst] = cbool(r)
				return
			default:
				panic("binop " + op.String())
			}
			fr.regs[dst] = Value{N: n & mask}
			return
		}
		ex := fr.th.ex
		c := ex.C
		t1, t2 := ex.term(u, w), ex.term(v, w)
		var r *smt.Term
		switch op {
		case token.ADD:
			r = c.Add(t1, t2)
		case token.SUB:
			r = c.Sub(t1, t2)
		case token.MUL:
			r = c.Mul(t1, t2)
		case token.QUO, token.REM:
			if ex.branch(c.Eq(t2, c.BV(0, w))) {
				fr.rtPanic("integer divide by zero")
			}
			so := smt.OUDiv
			if op == token.REM {
				so = smt.OURem
			}
			if signed {
				so = smt.OSDiv
				if op == token.REM {
					so = smt.OSRem
				}
			}
			r = c.Bin(so, t1, t2)
		case token.AND:
			r = c.Bin(smt.OBAnd, t1, t2)
		case token.OR:
			r = c.Bin(smt.OBOr, t1, t2)
		case token.XOR:
			r = c.Bin(smt.OBXor, t1, t2)
		case token.AND_NOT:
			r = c.Bin(smt.OBAnd, t1, c.BNot(t2))
		default:
			lt, le := smt.OUlt, smt.OUle
			if signed {
				lt, le = smt.OSlt, smt.OSle
			}
			if r = ex.cmpElapsed(op, t1, t2); r != nil {
				break
			}
			switch op {
			case token.LSS:
				r = c.Bin(lt, t1, t2)
			case token.LEQ:
				r = c.Bin(le, t1, t2)
			case token.GTR:
				r = c.Bin(lt, t2, t1)
			case token.GEQ:
				r = c.Bin(le, t2, t1)
			}
		}
		fr.regs[dst] = fromTerm(r)
	}
}

func (fr *frame) strLess(u, v Value, orEq bool) Value {
	x, ok1 := strConc(u)
	y, ok2 := strConc(v)
	if ok1 && ok2 {
		if orEq {
			return cbool(x <= y)
		}
		return cbool(x < y)
	}
	ex := fr.th.ex
	c := ex.C
	a, b := strBytes(u), strBytes(v)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := c.Bool(len(a) < len(b) || (orEq && len(a) == len(b)))
	for i := n - 1; i >= 0; i-- {
		p, q := ex.term(a[i], 8), ex.term(b[i], 8)
		r = c.Ite(c.Eq(p, q), r, c.Bin(smt.OUlt, p, q))
	}
	return fromTerm(r)
}

// equal compares two values of static type ti.
func (fr *frame) equal(u, v Value, ti *tinfo) Value {
	ex := fr.th.ex
	switch ti.k {
	case kBool, kInt, kUint:
		if u.O == nil && v.O == nil {
			return cbool(u.N == v.N)
		}
		return fromTerm(ex.C.Eq(ex.term(u, ti.w), ex.term(v, ti.w)))
	case kFloat:
		return fromTerm(ex.C.Bin(smt.OFEq, ex.term(u, ti.w), ex.term(v, ti.w)))
	case kString:
		x, ok1 := strConc(u)
		y, ok2 := strConc(v)
		if ok1 && ok2 {
			return cbool(x == y)
		}
		if strLen(u) != strLen(v) {
			return cbool(false)
		}
		a, b := strBytes(u), strBytes(v)
		r := ex.C.True()
		for i := range a {
			r = ex.C.And(r, ex.C.Eq(ex.term(a[i], 8), ex.term(b[i], 8)))
		}
		return fromTerm(r)
	case kPtr, kUnsafe, kChan, kMap:
		return cbool(u.O == v.O && u.N == v.N)
	case kSlice, kFunc:
		return cbool((u.O == nil) == (v.O == nil) && (u.O == nil || u.O == v.O))
	case kIface:
		if u.O == nil || v.O == nil {
			return cbool(u.O == nil && v.O == nil)
		}
		a, b := u.O.(*Iface), v.O.(*Iface)
		if a.T != b.T {
			return cbool(false)
		}
		et := ex.w.P.tinfo(a.T.T)
		if et.k == kSlice || et.k == kMap || et.k == kFunc {
			fr.rtPanic("comparing uncomparable type " + a.T.String())
		}
		return fr.equal(a.V, b.V, et)
	case kStruct:
		a, b := u.O.(*Agg), v.O.(*Agg)
		r := ex.C.True()
		for i, f := range ti.fields {
			e := fr.equal(a.F[i], b.F[i], f)
			if e.O == nil {
				if e.N == 0 {
					return e
				}
				continue
			}
			r = ex.C.And(r, e.O.(*smt.Term))
		}
		return fromTerm(r)
	case kArray:
		a, b := u.O.(*Agg), v.O.(*Agg)
		r := ex.C.True()
		for i := range a.F {
			e := fr.equal(a.F[i], b.F[i], ti.elem)
			if e.O == nil {
				if e.N == 0 {
					return e
				}
				continue
			}
			r = ex.C.And(r, e.O.(*smt.Term))
		}
		return fromTerm(r)
	case kComplex:
		unsupported("complex comparison")
	}
	panic(fmt.Sprintf("equal on %v", ti.t))
}

func (cc *compiler) convert(x ssa.Value, src ssa.Value) instr {
	p := cc.p
	dst := cc.regs[x]
	o := cc.op(src)
	from, to := p.tinfo(src.Type()), p.tinfo(x.Type())
	num := func(k tkind) bool { return k == kInt || k == kUint }
	switch {
	case num(from.k) && num(to.k):
		return func(fr *frame) {
			v := o.get(fr)
			if v.O == nil {
				n := v.N
				if from.k == kInt {
					n = uint64(smt.SExtTo64(n, from.w))
				}
				fr.regs[dst] = Value{N: n & smt.Mask(to.w)}
				return
			}
			t, ok := v.O.(*smt.Term)
			if !ok { // uintptr holding a pointer
				fr.regs[dst] = v
				return
			}
			c := fr.th.ex.C
			switch {
			case to.w < from.w:
				t = c.Extract(t, 0, to.w)
			case to.w > from.w && from.k == kInt:
				t = c.SExt(t, to.w)
			case to.w > from.w:
				t = c.ZExt(t, to.w)
			}
			fr.regs[dst] = fromTerm(t)
		}
	case num(from.k) && to.k == kFloat:
		so := smt.OFFromU
		if from.k == kInt {
			so = smt.OFFromS
		}
		return func(fr *frame) {
			ex := fr.th.ex
			fr.regs[dst] = fromTerm(ex.C.Un(so, ex.term(o.get(fr), from.w), to.w, 0))
		}
	case from.k == kFloat && num(to.k):
		so := smt.OFToU
		if to.k == kInt {
			so = smt.OFToS
		}
		return func(fr *frame) {
			ex := fr.th.ex
			fr.regs[dst] = fromTerm(ex.C.Un(so, ex.term(o.get(fr), from.w), to.w, 0))
		}
	case from.k == kFloat && to.k == kFloat:
		return func(fr *frame) {
			ex := fr.th.ex
			if from.w == to.w {
				fr.regs[dst] = o.get(fr)
				return
			}
			fr.regs[dst] = fromTerm(ex.C.Un(smt.OFToF, ex.term(o.get(fr), from.w), to.w, 0))
		}
	case from.k == kString && to.k == kSlice:
		et := p.tinfo(x.Type().Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			return func(fr *frame) {
				b := strBytes(o.get(fr))
				fr.regs[dst] = Value{O: &Slice{A: &Agg{F: append([]Value(nil), b...)}, Len: len(b), Cap: len(b)}}
			}
		}
		return func(fr *frame) {
			s, ok := strConc(o.get(fr))
			if !ok {
				unsupported("[]rune of symbolic string")
			}
			rs := []rune(s)
			a := &Agg{F: make([]Value, len(rs))}
			for i, r := range rs {
				a.F[i] = Value{N: uint64(uint32(r))}
			}
			fr.regs[dst] = Value{O: &Slice{A: a, Len: len(rs), Cap: len(rs)}}
		}
	case from.k == kSlice && to.k == kString:
		et := p.tinfo(src.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			s, _ := o.get(fr).O.(*Slice)
			if s == nil {
				fr.regs[dst] = Value{}
				return
			}
			if et.w == 8 {
				if fr.th.ex.multi {
					for i := 0; i < s.Len; i++ {
						fr.th.access(s.A, s.Off+i, false, false, fr.at)
					}
				}
				fr.regs[dst] = bytesToStr(s.A.F[s.Off : s.Off+s.Len])
				return
			}
			var rs []rune
			for i := 0; i < s.Len; i++ {
				rs = append(rs, rune(int32(fr.th.ex.conc(s.A.F[s.Off+i]))))
			}
			fr.regs[dst] = mkStr(string(rs))
		}
	case num(from.k) && to.k == kString:
		return func(fr *frame) {
			n := fr.th.ex.conc(o.get(fr))
			fr.regs[dst] = mkStr(string(rune(smt.SExtTo64(n, from.w))))
		}
	case (from.k == kPtr || from.k == kUnsafe) && (to.k == kPtr || to.k == kUnsafe):
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case from.k == kUnsafe && num(to.k), num(from.k) && to.k == kUnsafe:
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case from.k == kSlice && to.k == kArray:
		n := to.n
		return func(fr *frame) {
			s, _ := o.get(fr).O.(*Slice)
			if s == nil || s.Len < n {
				if n == 0 {
					fr.regs[dst] = to.zero()
					return
				}
				fr.rtPanic("slice to array: length mismatch")
			}
			na := &Agg{F: make([]Value, n)}
			for i := 0; i < n; i++ {
				na.F[i] = copyVal(s.A.F[s.Off+i])
			}
			fr.regs[dst] = Value{N: aggTag, O: na}
		}
	}
	if from.k == to.k {
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	}
	return func(fr *frame) { unsupported("convert %v -> %v", src.Type(), x.Type()) }
}

func (cc *compiler) typeAssert(x *ssa.TypeAssert) instr {
	p := cc.p
	dst := cc.regs[x]
	o := cc.op(x.X)
	toIface := types.IsInterface(x.AssertedType)
	rt := p.rtype(x.AssertedType)
	zt := p.tinfo(x.AssertedType)
	commaOk := x.CommaOk
	return func(fr *frame) {
		v := o.get(fr)
		ok := false
		var r Value
		if v.O != nil {
			i := v.O.(*Iface)
			if toIface {
				if p.implements(i.T, x.AssertedType) {
					ok, r = true, v
				}
			} else if i.T == rt {
				ok, r = true, i.V
			}
		}
		if commaOk {
			if !ok {
				r = zt.zero()
			}
			fr.regs[dst] = Value{O: &Tuple{V: []Value{r, cbool(ok)}}}
			return
		}
		if !ok {
			dyn := "nil"
			if v.O != nil {
				dyn = v.O.(*Iface).T.String()
			}
			fr.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, rt))
		}
		fr.regs[dst] = r
	}
}

func (cc *compiler) slice(x *ssa.Slice) instr {
	p := cc.p
	dst := cc.regs[x]
	o := cc.op(x.X)
	var lo, hi, mx *opnd
	mk := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		k := cc.op(v)
		return &k
	}
	lo, hi, mx = mk(x.Low), mk(x.High), mk(x.Max)
	bound := func(fr *frame, b *opnd, def int) int {
		if b == nil {
			return def
		}
		v := fr.th.ex.conc(b.get(fr))
		if v > 1<<40 {
			fr.rtPanic("slice bounds out of range")
		}
		return int(v)
	}
	kind := p.tinfo(x.X.Type()).k
	return func(fr *frame) {
		v := o.get(fr)
		if kind == kString {
			n := strLen(v)
			l, h := bound(fr, lo, 0), bound(fr, hi, n)
			if h > n || l > h {
				fr.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
			}
			fr.regs[dst] = strSlice(v, l, h)
			return
		}
		var a *Agg
		var off, n, c int
		if kind == kSlice {
			s, _ := v.O.(*Slice)
			if s != nil {
				a, off, n, c = s.A, s.Off, s.Len, s.Cap
			}
		} else {
			pa, i := fr.slot(v)
			a = pa.F[i].O.(*Agg)
			n, c = len(a.F), len(a.F)
		}
		l, h := bound(fr, lo, 0), bound(fr, hi, n)
		m := bound(fr, mx, c)
		if m > c || h > m || l > h {
			fr.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, c))
		}
		if a == nil {
			fr.regs[dst] = Value{}
			return
		}
		fr.regs[dst] = Value{O: &Slice{A: a, Off: off + l, Len: h - l, Cap: m - l}}
	}
}

func (cc *compiler) lookup(x *ssa.Lookup) instr {
	p := cc.p
	dst := cc.regs[x]
	m, k := cc.op(x.X), cc.op(x.Index)
	if p.tinfo(x.X.Type()).k == kString {
		iti := p.tinfo(x.Index.Type())
		return func(fr *frame) {
			s := m.get(fr)
			i := fr.index(k.get(fr), iti, strLen(s))
			fr.regs[dst] = strByte(s, i)
		}
	}
	vt := p.tinfo(x.X.Type().Underlying().(*types.Map).Elem())
	commaOk := x.CommaOk
	return func(fr *frame) {
		mv := m.get(fr)
		var v Value
		ok := false
		key := k.get(fr)
		if mv.O != nil {
			v, ok = fr.mapGet(mv.O.(*MapObj), key)
		}
		if ok {
			v = copyVal(v)
		} else {
			v = vt.zero()
		}
		if commaOk {
			fr.regs[dst] = Value{O: &Tuple{V: []Value{v, cbool(ok)}}}
		} else {
			fr.regs[dst] = v
		}
	}
}

type strIter struct {
	s Value
	i int
}

func (cc *compiler) next(x *ssa.Next) instr {
	dst := cc.regs[x]
	o := cc.op(x.Iter)
	if x.IsString {
		return func(fr *frame) {
			it := o.get(fr).O.(*strIter)
			n := strLen(it.s)
			if it.i >= n {
				fr.regs[dst] = Value{O: &Tuple{V: []Value{{}, {}, {}}}}
				return
			}
			ex := fr.th.ex
			if s, ok := strConc(it.s); ok {
				for j, r := range s[it.i:] {
					_ = j
					w := len(string(r))
					if r == 0xFFFD {
						// width 1 for invalid encoding, 3 for a literal U+FFFD
						w = 1
						if strings.HasPrefix(s[it.i:], "\uFFFD") {
							w = 3
						}
					}
					fr.regs[dst] = Value{O: &Tuple{V: []Value{{N: 1}, {N: uint64(it.i)}, {N: uint64(uint32(r))}}}}
					it.i += w
					break
				}
				return
			}
			b := strByte(it.s, it.i)
			if b.O != nil {
				if ex.branch(ex.C.Bin(smt.OUlt, b.O.(*smt.Term), ex.C.BV(0x80, 8))) {
					fr.regs[dst] = Value{O: &Tuple{V: []Value{{N: 1}, {N: uint64(it.i)}, fromTerm(ex.C.ZExt(b.O.(*smt.Term), 32))}}}
					it.i++
					return
				}
			} else if b.N < 0x80 {
				fr.regs[dst] = Value{O: &Tuple{V: []Value{{N: 1}, {N: uint64(it.i)}, {N: b.N}}}}
				it.i++
				return
			}
			// multi-byte: concretise up to 4 bytes
			var bs []byte
			for j := it.i; j < n && j < it.i+4; j++ {
				bs = append(bs, byte(ex.conc(strByte(it.s, j))))
			}
			for _, r := range string(bs) {
				w := len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(string(bs), "\uFFFD") {
					w = 1
				}
				fr.regs[dst] = Value{O: &Tuple{V: []Value{{N: 1}, {N: uint64(it.i)}, {N: uint64(uint32(r))}}}}
				it.i += w
				break
			}
		}
	}
	return func(fr *frame) {
		it := o.get(fr).O.(*mapIter)
		k, v, ok := fr.mapNext(it)
		if !ok {
			fr.regs[dst] = Value{O: &Tuple{V: []Value{{}, {}, {}}}}
			return
		}
		fr.regs[dst] = Value{O: &Tuple{V: []Value{{N: 1}, copyVal(k), copyVal(v)}}}
	}
}
