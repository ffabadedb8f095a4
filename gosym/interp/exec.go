package interp

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"gosym/smt"
)

// Program is the shared, immutable-after-load program plus caches.
type Program struct {
	SSA      *ssa.Program
	Fset     *token.FileSet
	RepoMod  string // module path of the code under test
	RepoDir  string
	ByPath   map[string]*ssa.Package
	tmu      sync.Mutex
	tcache   map[types.Type]*tinfo
	rmu      sync.Mutex
	rmap     typeutil.Map
	rcache   map[types.Type]*RType
	nr       int
	codes    sync.Map // *ssa.Function -> *code
	implMu   sync.Mutex
	implC    map[[2]any]bool
	methMu   sync.Mutex
	methC    map[methKey]*ssa.Function
	buildMu  sync.Mutex
	Executed sync.Map // function name -> struct{} (repo functions executed)
	Redirect map[string]*ssa.Function
	NoInit   map[string]bool
}

type methKey struct {
	t    *RType
	name string
	pkg  *types.Package
}

func NewProgram(prog *ssa.Program) *Program {
	return &Program{SSA: prog, Fset: prog.Fset, tcache: map[types.Type]*tinfo{},
		rcache: map[types.Type]*RType{}, implC: map[[2]any]bool{}, methC: map[methKey]*ssa.Function{},
		ByPath: map[string]*ssa.Package{}, Redirect: map[string]*ssa.Function{}, NoInit: defaultNoInit()}
}

func defaultNoInit() map[string]bool {
	m := map[string]bool{}
	for _, p := range []string{"os", "syscall", "net", "runtime", "log", "internal/poll", "internal/godebug", "os/user", "os/exec", "crypto/tls", "net/http",
		"internal/cpu", "internal/testlog", "go.uber.org/zap", "google.golang.org/grpc", "go.uber.org/zap/zapcore", "golang.org/x/sys/unix", "internal/oserror"} {
		m[p] = true
	}
	return m
}

func (p *Program) rtype(t types.Type) *RType {
	p.rmu.Lock()
	defer p.rmu.Unlock()
	if r, ok := p.rcache[t]; ok {
		return r
	}
	if v := p.rmap.At(t); v != nil {
		r := v.(*RType)
		p.rcache[t] = r
		return r
	}
	p.nr++
	r := &RType{T: t, ID: p.nr}
	p.rmap.Set(t, r)
	p.rcache[t] = r
	return r
}

func (p *Program) implements(t *RType, it types.Type) bool {
	k := [2]any{t, it}
	p.implMu.Lock()
	defer p.implMu.Unlock()
	if b, ok := p.implC[k]; ok {
		return b
	}
	m, _ := types.MissingMethod(t.T, it.Underlying().(*types.Interface), true)
	p.implC[k] = m == nil
	return m == nil
}

func (p *Program) method(t *RType, pkg *types.Package, name string) *ssa.Function {
	k := methKey{t, name, nil}
	if !token.IsExported(name) {
		k.pkg = pkg
	}
	p.methMu.Lock()
	defer p.methMu.Unlock()
	if f, ok := p.methC[k]; ok {
		return f
	}
	p.buildMu.Lock()
	f := p.SSA.LookupMethod(t.T, pkg, name)
	p.buildMu.Unlock()
	p.methC[k] = f
	return f
}

// Position renders a source position relative to the repository.
func (p *Program) Position(pos token.Pos) string {
	ps := p.Fset.Position(pos)
	f := strings.TrimPrefix(ps.Filename, p.RepoDir+"/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- control-flow signals used inside the engine (Go panics)

type targetPanic struct {
	v     Value // interface value
	where string
}
type abortPath struct {
	kind string // "assume" "limit" "unsupported" "violation" "killed" "sleep" "restart" "end" "timeout"
	msg  string
}

func unsupported(f string, a ...any) {
	panic(abortPath{"unsupported", fmt.Sprintf(f, a...)})
}

// ---- decisions

const (
	dBranch uint8 = iota
	dEqual        // concretisation: val, neg
	dChoose
	dSched
)

type decision struct {
	kind  uint8
	neg   bool
	val   int64
	sleep uint32
	node  *schedNode
}

type workItem struct {
	trail []decision
	model smt.Model
}

// Input is one nondeterministic input drawn along a path.
type Input struct {
	Name string
	Kind string
	W    uint8
	T    *smt.Term // nil for choices
	Val  uint64    // choices
}

type Violation struct {
	Kind    string // "assert" "panic" "deadlock" "race" "livelock"
	Msg     string
	Where   string
	Harness string
	Inputs  []InputVal
	Sched   []int
	Trail   int
	Obs     []string
}

type InputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

// Config bounds one exploration.
type Config struct {
	Harness   string
	Params    map[string]int
	MaxSteps  int // per path
	MaxPaths  int
	Deadline  time.Time
	Workers   int
	Solver    string
	Timeout   int  // ms per query
	MapOrder  bool // explore two iteration orders
	SymTime   bool
	SymHash   bool
	ClockDep  bool // reading the clock is a scheduling point
	NoDPOR    bool // explore every enabled thread at every scheduling point
	Preempt   int  // -1 unbounded
	RaceCheck bool
	StopFirst bool
	Verbose   bool
	Seed      int
}

// Stats accumulates what an exploration covered.
type Stats struct {
	Paths       int
	Completed   int
	Assumed     int
	SleepCut    int
	Limited     int
	Unsupported map[string]int
	Restarts    int
	Steps       int64
	Schedules   int
	MaxThreads  int
	SchedPoints int64
	Asserts     int64
	AssertQ     int64
	AssertTriv  int64
	AssertUnk   int64
	Queries     int
	Sat         int
	Unsat       int
	Unknown     int
	SolverErrs  int
	SolverTime  time.Duration
	MaxQuery    time.Duration
	Reached     map[string]int
	Exhausted   bool
	Wall        time.Duration
	Models      int
	Inputs      int
}

type Sample struct {
	Inputs []InputVal
	Sched  []int
	Obs    []string
	Multi  bool
}

// Explorer runs one harness over all its paths.
type Explorer struct {
	P           *Program
	Cfg         Config
	Fn          *ssa.Function
	mu          sync.Mutex
	cond        *sync.Cond
	work        []workItem
	busy        int
	stop        atomic.Bool
	hitDeadline bool
	St          Stats
	Viol        []Violation
	seenViol    map[string]bool
	Samples     []Sample
	MaxSamples  int
	Outcomes    map[string]int
	unfz        sync.Map // *ssa.Package -> true
}

func NewExplorer(p *Program, fn *ssa.Function, cfg Config) *Explorer {
	x := &Explorer{P: p, Fn: fn, Cfg: cfg, seenViol: map[string]bool{}}
	x.cond = sync.NewCond(&x.mu)
	x.St.Unsupported = map[string]int{}
	x.St.Reached = map[string]int{}
	return x
}

func (x *Explorer) push(it workItem) {
	x.mu.Lock()
	x.work = append(x.work, it)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) pop() (workItem, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop.Load() {
			return workItem{}, false
		}
		if n := len(x.work); n > 0 {
			it := x.work[n-1]
			x.work = x.work[:n-1]
			x.busy++
			x.St.Paths++
			if x.Cfg.MaxPaths > 0 && x.St.Paths > x.Cfg.MaxPaths {
				x.hitDeadline = true
				x.stop.Store(true)
				x.cond.Broadcast()
				return workItem{}, false
			}
			return it, true
		}
		if x.busy == 0 {
			x.cond.Broadcast()
			return workItem{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) done() {
	x.mu.Lock()
	x.busy--
	if x.busy == 0 && len(x.work) == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

// Run explores until exhausted, stopped or out of time.
func (x *Explorer) Run() {
	t0 := time.Now()
	x.work = []workItem{{model: smt.Model{}}}
	n := x.Cfg.Workers
	if n <= 0 {
		n = 1
	}
	var wg sync.WaitGroup
	timer := time.AfterFunc(time.Until(x.Cfg.Deadline), func() {
		x.mu.Lock()
		x.hitDeadline = true
		x.mu.Unlock()
		x.stop.Store(true)
		x.cond.Broadcast()
	})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{P: x.P, X: x, C: smt.NewCtx(), frz: map[*ssa.Package]*frozen{}}
			w.S = smt.NewSolver(x.Cfg.Solver, "-in", "-smt2")
			if d := os.Getenv("GOSYM_DUMP"); d != "" {
				f, _ := os.Create(d)
				w.S.Dump = f
			}
			if x.Cfg.Timeout > 0 {
				w.S.Timeout = x.Cfg.Timeout
			}
			for {
				it, ok := x.pop()
				if !ok {
					break
				}
				w.runItem(it)
				x.done()
				if len(w.C.Terms) > 3000000 {
					w.absorb()
					w.S.Close()
					w.C = smt.NewCtx()
					w.frz = map[*ssa.Package]*frozen{}
					w.S = smt.NewSolver(x.Cfg.Solver, "-in", "-smt2")
					w.S.Timeout = x.Cfg.Timeout
				}
			}
			w.absorb()
			w.S.Close()
		}()
	}
	wg.Wait()
	timer.Stop()
	x.St.Exhausted = !x.hitDeadline && !x.stop.Load()
	x.St.Wall = time.Since(t0)
}

func (w *Worker) absorb() {
	x := w.X
	x.mu.Lock()
	defer x.mu.Unlock()
	x.St.Queries += w.S.Queries
	x.St.Sat += w.S.SatN
	x.St.Unsat += w.S.UnsatN
	x.St.Unknown += w.S.UnknownN
	x.St.SolverErrs += w.S.Errors
	x.St.SolverTime += w.S.Elapsed
	if w.S.MaxQuery > x.St.MaxQuery {
		x.St.MaxQuery = w.S.MaxQuery
	}
}

// Worker owns a term context and a solver process.
type Worker struct {
	P   *Program
	X   *Explorer
	C   *smt.Ctx
	S   *smt.Solver
	frz map[*ssa.Package]*frozen
}

type frozen struct {
	taint   bool
	pkg     *ssa.Package
	globals map[*ssa.Global]*Agg
}

// Exec is the state of one path.
type Exec struct {
	w                                       *Worker
	C                                       *smt.Ctx
	trail                                   []decision
	pos                                     int
	fixed                                   int // length of the given prefix
	pc                                      []*smt.Term
	pcset                                   map[*smt.Term]bool // term -> truth on this path
	model                                   smt.Model
	eval                                    *smt.Evaluator
	vars                                    []*smt.Term
	nin                                     int
	inputs                                  []Input
	sched                                   []int
	globals                                 map[*ssa.Global]*Agg
	inited                                  map[*ssa.Package]*frozen
	initing                                 int
	freezing                                *frozen
	threads                                 []*Thread
	cur                                     *Thread
	multi                                   bool
	natives                                 int // threads the native replay controls, besides the first
	dead                                    bool
	steps                                   int
	obs                                     []obsRec
	reached                                 map[string]bool
	asserts, assertQ, assertTriv, assertUnk int64
	schedPts                                int64
	models                                  int
	events                                  []*event
	nodesAt                                 []int
	sleep                                   uint32
	doneCh                                  chan struct{}
	abort                                   any
	timeN                                   uint64
	skipped                                 *smt.Term
	readings                                [][2]*smt.Term
	hashVals                                []uint64
	hashTab                                 []hashEnt
	mapRev                                  int // -1 undecided
	ext                                     map[string]any
	idseq                                   uint64
	preempts                                int
	pendNode                                *schedNode
	pendTpos                                int
	drain                                   bool // the harness has ended
	drainEvents                             int
	drainObs, drainInputs, drainSched       int
}

type obsRec struct {
	name string
	v    Value
	ti   *tinfo
}

func (w *Worker) runItem(it workItem) {
	for {
		again := w.runOnce(it)
		if !again {
			return
		}
		w.X.mu.Lock()
		w.X.St.Restarts++
		w.X.mu.Unlock()
	}
}

func (w *Worker) runOnce(it workItem) (again bool) {
	ex := &Exec{w: w, C: w.C, trail: append(make([]decision, 0, len(it.trail)+32), it.trail...), fixed: len(it.trail), pcset: map[*smt.Term]bool{},
		model: it.model, globals: map[*ssa.Global]*Agg{}, inited: map[*ssa.Package]*frozen{}, reached: map[string]bool{},
		doneCh: make(chan struct{}), mapRev: -1, ext: map[string]any{}}
	if it.model != nil {
		ex.eval = smt.NewEvaluator(it.model)
	}
	th := ex.newThread(nil)
	ex.cur = th
	go th.main(func() { th.call(nil, ex.w.X.Fn, nil, nil) })
	<-ex.doneCh
	// kill remaining threads
	ex.dead = true
	for _, t := range ex.threads {
		if !t.finished {
			t.wake <- struct{}{}
			<-t.exited
		}
	}
	return ex.finish()
}

// finish classifies the end of a path.
func (ex *Exec) finish() (again bool) {
	x := ex.w.X
	if ex.drain {
		ex.obs, ex.inputs, ex.sched = ex.obs[:ex.drainObs], ex.inputs[:ex.drainInputs], ex.sched[:ex.drainSched]
	}
	kind, msg := "end", ""
	var viol *Violation
	switch a := ex.abort.(type) {
	case nil:
	case abortPath:
		kind, msg = a.kind, a.msg
	case targetPanic:
		kind = "violation"
		m := ex.panicString(a.v)
		viol = ex.mkViolation("panic", "panic: "+m, a.where)
	case error:
		kind, msg = "unsupported", "engine: "+a.Error()
	default:
		kind, msg = "unsupported", fmt.Sprintf("engine: %v", a)
	}
	if kind == "restart" {
		return true
	}
	if kind == "unsupported" || kind == "limit" {
		msg += " " + ex.trace()
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.St.Steps += int64(ex.steps)
	x.St.Asserts += ex.asserts
	x.St.AssertQ += ex.assertQ
	x.St.AssertTriv += ex.assertTriv
	x.St.AssertUnk += ex.assertUnk
	x.St.SchedPoints += ex.schedPts
	x.St.Models += ex.models
	if len(ex.inputs) > x.St.Inputs {
		x.St.Inputs = len(ex.inputs)
	}
	if len(ex.threads) > x.St.MaxThreads {
		x.St.MaxThreads = len(ex.threads)
	}
	for l := range ex.reached {
		x.St.Reached[l]++
	}
	switch kind {
	case "end":
		x.St.Completed++
		x.St.Schedules++
		if x.Outcomes != nil {
			x.Outcomes[fmt.Sprint(ex.mkSample().Obs)]++
		}
		if len(x.Samples) < x.MaxSamples || (x.MaxSamples > 0 && x.St.Completed%97 == 0) {
			s := ex.mkSample()
			if len(x.Samples) < x.MaxSamples {
				x.Samples = append(x.Samples, s)
			} else {
				x.Samples[(x.St.Completed/97)%x.MaxSamples] = s
			}
		}
	case "assume":
		x.St.Assumed++
	case "sleep":
		x.St.SleepCut++
	case "limit":
		x.St.Limited++
		x.St.Unsupported["limit: "+msg]++
	case "violation":
		if viol != nil {
			x.addViolation(*viol)
		}
	case "killed":
	default:
		x.St.Unsupported[msg]++
	}
	if x.Cfg.Verbose {
		fmt.Printf("path %d: %s %s steps=%d trail=%d pc=%d\n", x.St.Paths, kind, msg, ex.steps, len(ex.trail), len(ex.pc))
	}
	return false
}

func (ex *Exec) trace() string {
	var sb strings.Builder
	sb.WriteString("[")
	n := 0
	for f := ex.cur.top; f != nil && n < 14; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.code.name)
		if f.at != nil {
			sb.WriteString("@" + ex.w.P.Position(f.at.Pos()))
		}
		n++
	}
	sb.WriteString("]")
	return sb.String()
}

func (x *Explorer) addViolation(v Violation) { // x.mu held
	k := v.Kind + "|" + v.Msg
	if x.seenViol[k] {
		return
	}
	x.seenViol[k] = true
	x.Viol = append(x.Viol, v)
	if x.Cfg.StopFirst || len(x.Viol) >= 20 {
		x.stop.Store(true)
		x.cond.Broadcast()
	}
}

func (ex *Exec) mkViolation(kind, msg, where string) *Violation {
	v := &Violation{Kind: kind, Msg: msg, Where: where, Harness: ex.w.X.Cfg.Harness, Sched: append([]int(nil), ex.sched...), Trail: len(ex.trail)}
	v.Inputs = ex.inputVals(ex.model)
	return v
}

func (ex *Exec) inputVals(m smt.Model) []InputVal {
	ev := smt.NewEvaluator(m)
	var out []InputVal
	for _, in := range ex.inputs {
		iv := InputVal{Name: in.Name, Kind: in.Kind, Val: in.Val}
		if in.T != nil {
			iv.Val = ev.Eval(in.T)
		}
		out = append(out, iv)
	}
	return out
}

func (ex *Exec) ensureModel() bool {
	if ex.model != nil {
		return true
	}
	r, m := ex.w.S.Check(ex.pc, nil, ex.vars)
	if r == smt.Sat && m != nil {
		ex.setModel(m)
		return true
	}
	if r == smt.Unsat {
		panic(abortPath{"assume", "infeasible"})
	}
	return false
}

func (ex *Exec) setModel(m smt.Model) {
	ex.model = m
	ex.eval = smt.NewEvaluator(m)
	ex.models++
}

func (ex *Exec) mkSample() Sample {
	s := Sample{Sched: append([]int(nil), ex.sched...), Multi: ex.multi}
	if ex.model == nil {
		ex.ensureModel()
	}
	if ex.model == nil {
		return s
	}
	s.Inputs = ex.inputVals(ex.model)
	for _, o := range ex.obs {
		s.Obs = append(s.Obs, o.name+"="+ex.obsString(o))
	}
	return s
}

func (ex *Exec) obsString(o obsRec) string {
	ev := ex.eval
	val := func(v Value) uint64 {
		if t, ok := v.O.(*smt.Term); ok {
			return ev.Eval(t)
		}
		return v.N
	}
	switch o.ti.k {
	case kBool:
		return fmt.Sprint(val(o.v) != 0)
	case kInt:
		return fmt.Sprint(smt.SExtTo64(val(o.v), o.ti.w))
	case kUint:
		return fmt.Sprint(val(o.v))
	case kFloat:
		f := f64of(val(o.v), o.ti.w)
		if f != f {
			return "NaN"
		}
		return fmt.Sprintf("%x", val(o.v))
	case kString:
		bs := strBytes(o.v)
		b := make([]byte, len(bs))
		for i, x := range bs {
			b[i] = byte(val(x))
		}
		return fmt.Sprintf("%q", string(b))
	}
	return "?"
}

// ---- decisions

func (ex *Exec) assertPC(t *smt.Term) {
	if t.IsTrue() {
		return
	}
	if _, ok := ex.pcset[t]; ok {
		return
	}
	ex.pcset[t] = true
	ex.pcset[ex.C.Not(t)] = false
	ex.pc = append(ex.pc, t)
}

func (ex *Exec) record(d decision) {
	ex.trail = append(ex.trail, d)
	ex.pos++
}

func (ex *Exec) fork(d decision, m smt.Model) {
	tr := make([]decision, ex.pos, ex.pos+1)
	copy(tr, ex.trail[:ex.pos])
	tr = append(tr, d)
	ex.w.X.push(workItem{trail: tr, model: m})
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (ex *Exec) branch(c *smt.Term) bool {
	if c.IsConst() {
		return c.Val != 0
	}
	if v, ok := ex.pcset[c]; ok {
		return v
	}
	if ex.initing > 0 {
		unsupported("symbolic branch during package initialisation")
	}
	if ex.drain {
		return ex.drainEval(c) != 0
	}
	nc := ex.C.Not(c)
	if ex.pos < len(ex.trail) {
		d := ex.trail[ex.pos]
		if d.kind != dBranch {
			panic(fmt.Sprintf("replay divergence at %d: want branch got %d", ex.pos, d.kind))
		}
		ex.pos++
		if d.val != 0 {
			ex.assertPC(c)
			return true
		}
		ex.assertPC(nc)
		return false
	}
	if ex.w.X.stop.Load() {
		panic(abortPath{"killed", ""})
	}
	if !ex.ensureModel() {
		// no model: query both sides
		r1, m1 := ex.w.S.Check(ex.pc, c, ex.vars)
		r0, m0 := ex.w.S.Check(ex.pc, nc, ex.vars)
		if r1 == smt.Unsat && r0 == smt.Unsat {
			panic(abortPath{"assume", "infeasible"})
		}
		if r1 == smt.Unsat {
			ex.record(decision{kind: dBranch, val: 0})
			ex.assertPC(nc)
			if r0 == smt.Sat {
				ex.setModel(m0)
			}
			return false
		}
		if r0 != smt.Unsat {
			ex.fork(decision{kind: dBranch, val: 0}, m0)
		}
		ex.record(decision{kind: dBranch, val: 1})
		ex.assertPC(c)
		if r1 == smt.Sat {
			ex.setModel(m1)
		}
		return true
	}
	want := ex.eval.Eval(c) != 0
	other, mine := nc, c
	if !want {
		other, mine = c, nc
	}
	r, m := ex.w.S.Check(ex.pc, other, ex.vars)
	if r != smt.Unsat {
		var ov int64
		if !want {
			ov = 1
		}
		ex.fork(decision{kind: dBranch, val: ov}, m)
	}
	var wv int64
	if want {
		wv = 1
	}
	ex.record(decision{kind: dBranch, val: wv})
	ex.assertPC(mine)
	return want
}

// concretize forks over the feasible values of t.
func (ex *Exec) concretize(t *smt.Term) uint64 {
	if t.IsConst() {
		return t.Val
	}
	if ex.initing > 0 {
		unsupported("symbolic value during package initialisation")
	}
	if ex.drain {
		return ex.drainEval(t)
	}
	for n := 0; ; n++ {
		if n > 300 {
			panic(abortPath{"limit", "concretisation of more than 300 values"})
		}
		if ex.pos < len(ex.trail) {
			d := ex.trail[ex.pos]
			if d.kind != dEqual {
				panic("replay divergence: want equal")
			}
			ex.pos++
			e := ex.C.Eq(t, ex.C.BV(uint64(d.val), t.W))
			if d.neg {
				ex.assertPC(ex.C.Not(e))
				continue
			}
			ex.assertPC(e)
			return uint64(d.val)
		}
		if !ex.ensureModel() {
			panic(abortPath{"limit", "no model for concretisation"})
		}
		v := ex.eval.Eval(t)
		e := ex.C.Eq(t, ex.C.BV(v, t.W))
		if e.IsTrue() {
			return v
		}
		r, m := ex.w.S.Check(ex.pc, ex.C.Not(e), ex.vars)
		if r != smt.Unsat {
			ex.fork(decision{kind: dEqual, neg: true, val: int64(v)}, m)
		}
		ex.record(decision{kind: dEqual, val: int64(v)})
		ex.assertPC(e)
		return v
	}
}

// choose is an n-way nondeterministic choice.
func (ex *Exec) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if ex.initing > 0 {
		unsupported("choice during package initialisation")
	}
	if ex.drain {
		return 0
	}
	if ex.pos < len(ex.trail) {
		d := ex.trail[ex.pos]
		if d.kind != dChoose {
			panic("replay divergence: want choose")
		}
		ex.pos++
		return int(d.val)
	}
	if ex.w.X.stop.Load() {
		panic(abortPath{"killed", ""})
	}
	for i := n - 1; i >= 1; i-- {
		ex.fork(decision{kind: dChoose, val: int64(i)}, ex.model)
	}
	ex.record(decision{kind: dChoose, val: 0})
	return 0
}

// drainEval is a value of t in the model of the path.
func (ex *Exec) drainEval(t *smt.Term) uint64 {
	if ex.eval == nil {
		panic(abortPath{"killed", ""})
	}
	return ex.eval.Eval(t)
}

func (ex *Exec) assume(c Value) {
	t := ex.boolTerm(c)
	if ex.drain {
		if ex.drainEval(t) == 0 {
			panic(abortPath{"killed", ""})
		}
		return
	}
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		panic(abortPath{"assume", ""})
	}
	if v, ok := ex.pcset[t]; ok {
		if !v {
			panic(abortPath{"assume", ""})
		}
		return
	}
	if ex.pos < len(ex.trail) {
		ex.assertPC(t)
		return
	}
	if ex.model != nil && ex.eval.Eval(t) != 0 {
		ex.assertPC(t)
		return
	}
	r, m := ex.w.S.Check(ex.pc, t, ex.vars)
	switch r {
	case smt.Unsat:
		panic(abortPath{"assume", ""})
	case smt.Sat:
		ex.setModel(m)
	default:
		ex.model, ex.eval = nil, nil
	}
	ex.assertPC(t)
}

// check discharges an assertion.
func (ex *Exec) check(c Value, msg, where string) {
	if ex.drain {
		if ex.drainEval(ex.boolTerm(c)) == 0 {
			panic(abortPath{"killed", ""})
		}
		return
	}
	ex.asserts++
	t := ex.boolTerm(c)
	if ex.pos < len(ex.trail) {
		// already discharged on the ancestor path
		if t.IsFalse() {
			panic(abortPath{"killed", ""})
		}
		if v, ok := ex.pcset[t]; ok && !v {
			panic(abortPath{"killed", ""})
		}
		ex.assertPC(t)
		return
	}
	if t.IsTrue() {
		ex.assertTriv++
		return
	}
	if v, ok := ex.pcset[t]; ok && v {
		ex.assertTriv++
		return
	}
	n := ex.C.Not(t)
	var r smt.Result
	var m smt.Model
	if ex.model != nil && ex.eval.Eval(n) != 0 {
		r, m = smt.Sat, ex.model
	} else {
		ex.assertQ++
		r, m = ex.w.S.Check(ex.pc, n, ex.vars)
		if r == smt.Unknown {
			r, m = ex.fallback(n)
		}
	}
	switch r {
	case smt.Sat:
		v := ex.mkViolation("assert", msg, where)
		v.Inputs = ex.inputVals(m)
		ex.report(v)
		if t.IsFalse() {
			panic(abortPath{"killed", "violation"})
		}
		// continue with the assertion assumed
		if ex.model != nil && ex.eval.Eval(t) != 0 {
			ex.assertPC(t)
			return
		}
		r2, m2 := ex.w.S.Check(ex.pc, t, ex.vars)
		if r2 != smt.Sat {
			panic(abortPath{"killed", "violation"})
		}
		ex.setModel(m2)
		ex.assertPC(t)
	case smt.Unsat:
		ex.assertPC(t)
	default:
		ex.assertUnk++
	}
}

// fallback tries other solvers on pc ∧ t from scratch.
func (ex *Exec) fallback(t *smt.Term) (smt.Result, smt.Model) {
	for _, alt := range [][]string{{"z3", "-in", "-smt2"}} {
		s := smt.NewSolver(alt[0], alt[1:]...)
		s.Timeout = ex.w.S.Timeout
		r, m := s.Check(ex.pc, t, ex.vars)
		s.Close()
		if r != smt.Unknown {
			return r, m
		}
	}
	return smt.Unknown, nil
}

func (ex *Exec) boolTerm(v Value) *smt.Term {
	if t, ok := v.O.(*smt.Term); ok {
		return t
	}
	return ex.C.Bool(v.N != 0)
}

func (ex *Exec) term(v Value, w uint8) *smt.Term {
	if t, ok := v.O.(*smt.Term); ok {
		return t
	}
	if w == 0 {
		return ex.C.Bool(v.N != 0)
	}
	return ex.C.BV(v.N, w)
}

func fromTerm(t *smt.Term) Value {
	if t.IsConst() {
		return Value{N: t.Val}
	}
	return Value{O: t}
}

// truth forces a boolean value to a concrete branch.
func (ex *Exec) truth(v Value) bool {
	if v.O == nil {
		return v.N != 0
	}
	return ex.branch(v.O.(*smt.Term))
}

// conc forces a scalar to a concrete value.
func (ex *Exec) conc(v Value) uint64 {
	if v.O == nil {
		return v.N
	}
	if t, ok := v.O.(*smt.Term); ok {
		if t.W == 0 {
			if ex.branch(t) {
				return 1
			}
			return 0
		}
		return ex.concretize(t)
	}
	panic(fmt.Sprintf("conc of %T", v.O))
}

func (ex *Exec) freshVar(name, kind string, w uint8) Value {
	t := ex.C.Var(fmt.Sprintf("%s!%d!%d", sanitize(name), len(ex.inputs), w), w)
	ex.vars = append(ex.vars, t)
	ex.inputs = append(ex.inputs, Input{Name: name, Kind: kind, W: w, T: t})
	return Value{O: t}
}

// auxVar is a symbolic value that is not a harness input (e.g. NaN payload).
func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

// ---- globals and package initialisation

func (ex *Exec) global(g *ssa.Global) *Agg {
	if a, ok := ex.globals[g]; ok {
		if ex.freezing != nil {
			ex.freezing.taint = true
		}
		return a
	}
	pkg := g.Pkg
	if fz, ok := ex.inited[pkg]; ok {
		if fz == nil && ex.freezing != nil {
			ex.freezing.taint = true
		}
		if fz != nil {
			if a, ok := fz.globals[g]; ok {
				return a
			}
		}
		// not yet allocated (package being initialised, or NoInit)
		return ex.allocGlobal(g)
	}
	// first touch on this path
	if fz, ok := ex.w.frz[pkg]; ok {
		if _, un := ex.w.X.unfz.Load(pkg); !un {
			ex.inited[pkg] = fz
			if a, ok := fz.globals[g]; ok {
				return a
			}
			a := &Agg{F: []Value{ex.w.P.tinfo(g.Type().Underlying().(*types.Pointer).Elem()).zero()}, owner: fz}
			fz.globals[g] = a
			return a
		}
	}
	ex.runInit(pkg)
	return ex.global(g)
}

func (ex *Exec) allocGlobal(g *ssa.Global) *Agg {
	a := &Agg{F: []Value{ex.w.P.tinfo(g.Type().Underlying().(*types.Pointer).Elem()).zero()}}
	if fz := ex.inited[g.Pkg]; fz != nil {
		a.owner = fz
		fz.globals[g] = a
	} else {
		ex.globals[g] = a
	}
	return a
}

func (ex *Exec) runInit(pkg *ssa.Package) {
	ex.w.P.build(pkg)
	_, un := ex.w.X.unfz.Load(pkg)
	var fz *frozen
	if !un {
		fz = &frozen{pkg: pkg, globals: map[*ssa.Global]*Agg{}}
	}
	ex.inited[pkg] = fz
	if ex.w.P.NoInit[pkg.Pkg.Path()] {
		if fz != nil {
			ex.w.frz[pkg] = fz
		}
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	ex.initing++
	old := ex.freezing
	ex.freezing = fz
	defer func() {
		ex.initing--
		ex.freezing = old
		if r := recover(); r != nil {
			if ap, ok := r.(abortPath); ok && ap.kind == "unsupported" {
				panic(abortPath{"unsupported", "init of " + pkg.Pkg.Path() + ": " + ap.msg})
			}
			if tp, ok := r.(targetPanic); ok {
				panic(abortPath{"unsupported", "init of " + pkg.Pkg.Path() + " panicked: " + ex.panicString(tp.v)})
			}
			panic(r)
		}
	}()
	ex.cur.call(nil, init, nil, nil)
	if fz != nil && fz.taint {
		ex.w.X.unfz.Store(pkg, true)
		panic(abortPath{"restart", pkg.Pkg.Path()})
	}
	if fz != nil {
		// everything reachable from the globals is shared from now on
		seen := map[any]bool{}
		for _, a := range fz.globals {
			freezeAgg(a, fz, seen)
		}
		ex.w.frz[pkg] = fz
	}
}

func freezeAgg(a *Agg, fz *frozen, seen map[any]bool) {
	if a == nil || seen[a] {
		return
	}
	seen[a] = true
	if a.owner == nil {
		a.owner = fz
	}
	for _, v := range a.F {
		freezeVal(v, fz, seen)
	}
}

func freezeVal(v Value, fz *frozen, seen map[any]bool) {
	switch o := v.O.(type) {
	case *Agg:
		freezeAgg(o, fz, seen)
	case *Slice:
		freezeAgg(o.A, fz, seen)
	case *Iface:
		if !seen[o] {
			seen[o] = true
			freezeVal(o.V, fz, seen)
		}
	case *MapObj:
		if !seen[o] {
			seen[o] = true
			if o.owner == nil {
				o.owner = fz
			}
			for _, e := range o.ents {
				freezeVal(e.k, fz, seen)
				freezeVal(e.v, fz, seen)
			}
		}
	case *Closure:
		if !seen[o] {
			seen[o] = true
			for _, e := range o.Env {
				freezeVal(e, fz, seen)
			}
		}
	case *ChanObj:
		if !seen[o] {
			seen[o] = true
			if o.owner == nil {
				o.owner = fz
			}
		}
	case *Tuple:
		for _, e := range o.V {
			freezeVal(e, fz, seen)
		}
	}
}

// thaw marks the owner as mutable and restarts the path.
func (ex *Exec) thaw(fz *frozen) {
	if ex.freezing == fz {
		return
	}
	ex.w.X.unfz.Store(fz.pkg, true)
	ex.w.frz = map[*ssa.Package]*frozen{}
	panic(abortPath{"restart", fz.pkg.Pkg.Path()})
}

func (p *Program) build(pkg *ssa.Package) {
	p.buildMu.Lock()
	defer p.buildMu.Unlock()
	pkg.Build()
}

func f64of(n uint64, w uint8) float64 {
	return f64bits(n, w)
}
