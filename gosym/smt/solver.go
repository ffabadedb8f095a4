package smt

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver drives one interactive SMT-LIB2 process.
type Solver struct {
	Path    string
	Args    []string
	Timeout int // ms per query

	cmd   *exec.Cmd
	in    io.WriteCloser
	bw    *bufio.Writer
	out   *bufio.Reader
	ndef  int
	def   map[*Term]bool
	stack []*Term // asserted path condition (one push level each)

	Queries  int
	SatN     int
	UnsatN   int
	UnknownN int
	Errors   int
	Elapsed  time.Duration
	MaxQuery time.Duration
	Dump     io.Writer
}

func NewSolver(path string, args ...string) *Solver {
	return &Solver{Path: path, Args: args, Timeout: 30000}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.Path, s.Args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.Path, err))
	}
	s.in = in
	s.bw = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.def = map[*Term]bool{}
	s.ndef = 0
	s.stack = nil
	s.send("(set-option :global-declarations true)\n")
	s.send("(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.Timeout))
}

func (s *Solver) send(x string) {
	if s.Dump != nil {
		io.WriteString(s.Dump, x)
	}
	s.bw.WriteString(x)
}

// Close ends the process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func ref(t *Term) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			if t.Val != 0 {
				return "true"
			}
			return "false"
		}
		if t.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.W/4), t.Val)
		}
		return fmt.Sprintf("#b%0*b", int(t.W), t.Val)
	case OVar:
		return "|" + t.Name + "|"
	}
	return "t" + strconv.Itoa(int(t.ID))
}

func isFOp(t *Term) bool {
	switch t.Op {
	case OFAdd, OFSub, OFMul, OFDiv, OFNeg, OFFromS, OFFromU, OFToF, OFRound, OFSqrt:
		return true
	}
	return false
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// fp reference of a raw-bits term
func fref(t *Term) string {
	if isFOp(t) {
		return "f" + strconv.Itoa(int(t.ID))
	}
	return "((_ to_fp " + fpSort(t.W) + ") " + ref(t) + ")"
}

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
}

func body(t *Term) string {
	var sb strings.Builder
	switch t.Op {
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.W-t.A[0].W, ref(t.A[0]))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.A[0].W, ref(t.A[0]))
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.Val)+int(t.W)-1, t.Val, ref(t.A[0]))
	case OFLt:
		return fmt.Sprintf("(fp.lt %s %s)", fref(t.A[0]), fref(t.A[1]))
	case OFLe:
		return fmt.Sprintf("(fp.leq %s %s)", fref(t.A[0]), fref(t.A[1]))
	case OFEq:
		return fmt.Sprintf("(fp.eq %s %s)", fref(t.A[0]), fref(t.A[1]))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.W, fref(t.A[0]))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.W, fref(t.A[0]))
	}
	sb.WriteString("(")
	n, ok := opName[t.Op]
	if !ok {
		panic(fmt.Sprint("no smt name for op ", t.Op))
	}
	sb.WriteString(n)
	for _, a := range t.A {
		sb.WriteString(" ")
		sb.WriteString(ref(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func fbody(t *Term) string {
	switch t.Op {
	case OFAdd:
		return fmt.Sprintf("(fp.add RNE %s %s)", fref(t.A[0]), fref(t.A[1]))
	case OFSub:
		return fmt.Sprintf("(fp.sub RNE %s %s)", fref(t.A[0]), fref(t.A[1]))
	case OFMul:
		return fmt.Sprintf("(fp.mul RNE %s %s)", fref(t.A[0]), fref(t.A[1]))
	case OFDiv:
		return fmt.Sprintf("(fp.div RNE %s %s)", fref(t.A[0]), fref(t.A[1]))
	case OFNeg:
		return fmt.Sprintf("(fp.neg %s)", fref(t.A[0]))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.W), ref(t.A[0]))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpSort(t.W), ref(t.A[0]))
	case OFToF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(t.W), fref(t.A[0]))
	case OFSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", fref(t.A[0]))
	case OFRound:
		rm := [...]string{"RTN", "RTP", "RTZ"}[t.Val]
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", rm, fref(t.A[0]))
	}
	panic("fbody")
}

func (s *Solver) define(t *Term) {
	if t.Op == OConst || s.def[t] {
		return
	}
	s.def[t] = true
	for _, a := range t.A {
		s.define(a)
	}
	s.ndef++
	switch {
	case t.Op == OVar:
		s.send("(declare-const " + ref(t) + " " + sortOf(t.W) + ")\n")
	case isFOp(t):
		s.send(fmt.Sprintf("(define-fun f%d () (_ FloatingPoint %s) %s)\n", t.ID, fpSort(t.W), fbody(t)))
		s.send(fmt.Sprintf("(define-fun t%d () %s (fp.to_ieee_bv f%d))\n", t.ID, sortOf(t.W), t.ID))
	default:
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.ID, sortOf(t.W), body(t)))
	}
}

func (s *Solver) sync(pc []*Term) {
	if s.cmd == nil {
		s.start()
	} else if s.ndef > 400000 {
		s.Close()
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		s.send("(push 1)\n(assert " + ref(t) + ")\n")
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra.  When sat and vars != nil the model is returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Elapsed += d
		if d > s.MaxQuery {
			s.MaxQuery = d
		}
	}()
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		for _, v := range vars {
			s.define(v)
		}
		s.send("(push 1)\n(assert " + ref(extra) + ")\n")
	}
	for _, v := range vars {
		s.define(v)
	}
	s.send("(check-sat)\n")
	s.bw.Flush()
	res := Unknown
	deadline := time.AfterFunc(time.Duration(s.Timeout)*time.Millisecond+20*time.Second, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	l, err := s.readLine()
	deadline.Stop()
	if err != nil {
		s.UnknownN++
		s.Close()
		return Unknown, nil
	}
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(l, "(error") {
			s.Errors++
			if s.Dump == nil {
				fmt.Println("SOLVER-ERROR", l)
			}
			s.UnknownN++
			s.Close()
			return Unknown, nil
		}
	}
	var m Model
	if res == Sat && vars != nil {
		m = s.getModel(vars)
	}
	if extra != nil && s.cmd != nil {
		s.send("(pop 1)\n")
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnknownN++
	}
	return res, m
}

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(ref(v))
		sb.WriteString(" ")
	}
	sb.WriteString("))\n(echo \"@done\")\n")
	s.send(sb.String())
	s.bw.Flush()
	var acc strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			s.Close()
			return nil
		}
		if strings.Trim(l, "\"") == "@done" {
			break
		}
		acc.WriteString(l)
		acc.WriteString(" ")
	}
	txt := acc.String()
	if strings.HasPrefix(txt, "(error") {
		s.Errors++
		return nil
	}
	// names never contain blanks or parentheses, so tokens alternate name/value
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(toks); i += 2 {
		m[strings.Trim(toks[i], "|")] = parseVal(toks[i+1])
	}
	return m
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	}
	panic("bad model value " + v)
}
