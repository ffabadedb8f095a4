// Package smt provides hash-consed terms over booleans and bit-vectors
// (floats are carried as their IEEE bit patterns), a concrete evaluator and
// an incremental SMT-LIB2 solver driver.
package smt

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	// boolean
	ONot
	OAnd
	OOr
	OEq  // any sort
	OIte // any sort
	// bit-vector
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OExtract // val = low bit
	OConcat
	// float (operands and results are raw IEEE bits)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFFromS // signed int -> float of width W
	OFFromU
	OFToS // float -> signed int of width W (saturation/UB: see doc)
	OFToU
	OFToF   // width change
	OFRound // val: 0 floor 1 ceil 2 trunc
	OFSqrt
)

// Term is an immutable hash-consed node.  W==0 means boolean.
type Term struct {
	Op   Op
	W    uint8
	ID   int32
	Val  uint64
	A    []*Term
	Name string
}

type key struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c int32
	name    string
}

// Ctx is a term factory (not safe for concurrent use).
type Ctx struct {
	tab           map[key]*Term
	nary          map[string]*Term
	Terms         []*Term
	Vars          []*Term
	tTrue, tFalse *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}, nary: map[string]*Term{}}
	c.tTrue = c.mk(OConst, 0, 1, "")
	c.tFalse = c.mk(OConst, 0, 0, "")
	return c
}

func (c *Ctx) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	if len(args) > 3 {
		b := make([]byte, 0, 8+4*len(args))
		b = append(b, byte(op), w)
		for _, a := range args {
			b = append(b, byte(a.ID), byte(a.ID>>8), byte(a.ID>>16), byte(a.ID>>24))
		}
		k := string(b)
		if t, ok := c.nary[k]; ok {
			return t
		}
		t := &Term{Op: op, W: w, Val: val, A: append([]*Term(nil), args...), ID: int32(len(c.Terms))}
		c.Terms = append(c.Terms, t)
		c.nary[k] = t
		return t
	}
	k := key{op: op, w: w, val: val, a: -1, b: -1, c: -1, name: name}
	switch len(args) {
	case 3:
		k.c = args[2].ID
		fallthrough
	case 2:
		k.b = args[1].ID
		fallthrough
	case 1:
		k.a = args[0].ID
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, W: w, Val: val, A: append([]*Term(nil), args...), Name: name, ID: int32(len(c.Terms))}
	c.Terms = append(c.Terms, t)
	c.tab[k] = t
	return t
}

func Mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// SExtTo64 sign-extends the low w bits of v.
func SExtTo64(v uint64, w uint8) int64 {
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) True() *Term  { return c.tTrue }
func (c *Ctx) False() *Term { return c.tFalse }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}
func (c *Ctx) BV(v uint64, w uint8) *Term { return c.mk(OConst, w, v&Mask(w), "") }
func (c *Ctx) Var(name string, w uint8) *Term {
	n := len(c.Terms)
	t := c.mk(OVar, w, 0, name)
	if len(c.Terms) > n {
		c.Vars = append(c.Vars, t)
	}
	return t
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.Val == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.Val == 0 }

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.Val == 0)
	}
	if a.Op == ONot {
		return a.A[0]
	}
	return c.mk(ONot, 0, 0, "", a)
}
func (c *Ctx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.tFalse
	}
	if a.IsTrue() || a == b {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if (a.Op == ONot && a.A[0] == b) || (b.Op == ONot && b.A[0] == a) {
		return c.tFalse
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OAnd, 0, 0, "", a, b)
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.tTrue
	}
	if a.IsFalse() || a == b {
		return b
	}
	if b.IsFalse() {
		return a
	}
	if (a.Op == ONot && a.A[0] == b) || (b.Op == ONot && b.A[0] == a) {
		return c.tTrue
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OOr, 0, 0, "", a, b)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Val == b.Val)
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	}
	// linear: move everything to one side when both are sums sharing terms
	if a.W != 0 && (a.Op == OAdd || b.Op == OAdd) {
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.Val == 0)
		}
	}
	// ite(c, k1, k2) == k
	if b.Op == OIte {
		a, b = b, a
	}
	if a.Op == OIte && b.IsConst() && a.A[1].IsConst() && a.A[2].IsConst() {
		e1, e2 := a.A[1].Val == b.Val, a.A[2].Val == b.Val
		switch {
		case e1 && e2:
			return c.tTrue
		case e1:
			return a.A[0]
		case e2:
			return c.Not(a.A[0])
		default:
			return c.tFalse
		}
	}
	if a.Op == OZExt && b.IsConst() {
		iw := a.A[0].W
		if b.Val > Mask(iw) {
			return c.tFalse
		}
		return c.Eq(a.A[0], c.BV(b.Val, iw))
	}
	if b.Op == OZExt && a.IsConst() {
		return c.Eq(b, a)
	}
	if a.Op == OZExt && b.Op == OZExt && a.A[0].W == b.A[0].W {
		return c.Eq(a.A[0], b.A[0])
	}
	if x, kx := addConst(a); kx != 0 {
		// x + k == y + l
		y, ky := addConst(b)
		if y != nil && kx == ky {
			return c.Eq(x, y)
		}
		if b.IsConst() {
			return c.Eq(x, c.BV(b.Val-kx, a.W))
		}
	} else if y, ky := addConst(b); ky != 0 && a.IsConst() {
		return c.Eq(y, c.BV(a.Val-ky, a.W))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", a, b)
}

func (c *Ctx) Ite(i, a, b *Term) *Term {
	if i.IsTrue() || a == b {
		return a
	}
	if i.IsFalse() {
		return b
	}
	if a.W == 0 {
		if a.IsTrue() && b.IsFalse() {
			return i
		}
		if a.IsFalse() && b.IsTrue() {
			return c.Not(i)
		}
		return c.Or(c.And(i, a), c.And(c.Not(i), b))
	}
	if i.Op == ONot {
		return c.Ite(i.A[0], b, a)
	}
	return c.mk(OIte, a.W, 0, "", i, a, b)
}

// ---- linear sums: OAdd nodes are flattened; A = [t1, t2, ...] where each is
// either a non-sum term, a Mul by constant, or (last) a constant.

func (c *Ctx) linParts(t *Term, coef uint64, m map[*Term]uint64, k *uint64) {
	switch {
	case t.Op == OConst:
		*k += coef * t.Val
	case t.Op == OAdd:
		for _, x := range t.A {
			c.linParts(x, coef, m, k)
		}
	case t.Op == OMul && t.A[0].IsConst():
		c.linParts(t.A[1], coef*t.A[0].Val, m, k)
	default:
		m[t] += coef
	}
}

func (c *Ctx) lin(m map[*Term]uint64, k uint64, w uint8) *Term {
	mask := Mask(w)
	var ts []*Term
	for t, co := range m {
		if co&mask != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	k &= mask
	if len(ts) == 0 {
		return c.BV(k, w)
	}
	var parts []*Term
	for _, t := range ts {
		co := m[t] & mask
		if co == 1 {
			parts = append(parts, t)
		} else {
			parts = append(parts, c.mk(OMul, w, 0, "", c.BV(co, w), t))
		}
	}
	if k != 0 {
		parts = append(parts, c.BV(k, w))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return c.mk(OAdd, w, 0, "", parts...)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.BV(a.Val+b.Val, a.W)
	}
	if a.IsConst() && a.Val == 0 {
		return b
	}
	if b.IsConst() && b.Val == 0 {
		return a
	}
	m := map[*Term]uint64{}
	var k uint64
	c.linParts(a, 1, m, &k)
	c.linParts(b, 1, m, &k)
	return c.lin(m, k, a.W)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.W)
	}
	m := map[*Term]uint64{}
	var k uint64
	c.linParts(a, 1, m, &k)
	c.linParts(b, ^uint64(0), m, &k)
	return c.lin(m, k, a.W)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(0, a.W), a) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if b.IsConst() {
			return c.BV(a.Val*b.Val, a.W)
		}
		m := map[*Term]uint64{}
		var k uint64
		c.linParts(b, a.Val, m, &k)
		return c.lin(m, k, a.W)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(OMul, a.W, 0, "", a, b)
}

// addConst splits a sum x + k of one term and a constant.
func addConst(t *Term) (*Term, uint64) {
	if t.Op == OAdd && len(t.A) == 2 && t.A[1].IsConst() {
		return t.A[0], t.A[1].Val
	}
	if t.IsConst() {
		return nil, 0
	}
	return t, 0
}

// urange is an interval that contains the unsigned value of t.
func urange(t *Term) (lo, hi uint64) {
	switch t.Op {
	case OConst:
		return t.Val, t.Val
	case OZExt:
		return urange(t.A[0])
	case OAdd:
		if x, k := addConst(t); k != 0 && x != nil {
			l, h := urange(x)
			if s := h + k; s >= h && s <= Mask(t.W) {
				return l + k, s
			}
		}
	case OBAnd:
		if t.A[1].IsConst() {
			return 0, t.A[1].Val
		}
	}
	return 0, Mask(t.W)
}

// ult simplifies an unsigned comparison by intervals and common constants.
func (c *Ctx) ult(a, b *Term) *Term {
	la, ha := urange(a)
	lb, hb := urange(b)
	if ha < lb {
		return c.tTrue
	}
	if la >= hb {
		return c.tFalse
	}
	full := Mask(a.W)
	x, kx := addConst(a)
	y, ky := addConst(b)
	if x != nil && y != nil && kx != 0 && kx == ky {
		_, hx := urange(x)
		_, hy := urange(y)
		if hx <= full-kx && hy <= full-ky {
			return c.Bin(OUlt, x, y)
		}
	}
	if x != nil && kx != 0 && b.IsConst() && b.Val >= kx {
		if _, hx := urange(x); hx <= full-kx {
			return c.Bin(OUlt, x, c.BV(b.Val-kx, a.W))
		}
	}
	if y != nil && ky != 0 && a.IsConst() && a.Val >= ky {
		if _, hy := urange(y); hy <= full-ky {
			return c.Bin(OUlt, c.BV(a.Val-ky, a.W), y)
		}
	}
	if a.Op == OZExt && b.Op == OZExt && a.A[0].W == b.A[0].W {
		return c.Bin(OUlt, a.A[0], b.A[0])
	}
	if a.Op == OZExt && b.IsConst() && b.Val <= Mask(a.A[0].W) {
		return c.Bin(OUlt, a.A[0], c.BV(b.Val, a.A[0].W))
	}
	if b.Op == OZExt && a.IsConst() && a.Val <= Mask(b.A[0].W) {
		return c.Bin(OUlt, c.BV(a.Val, b.A[0].W), b.A[0])
	}
	return nil
}

// Bin builds a binary BV op with constant folding and light simplification.
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	switch op {
	case OAdd:
		return c.Add(a, b)
	case OMul:
		return c.Mul(a, b)
	}
	w := a.W
	res := w
	switch op {
	case OUlt, OUle, OSlt, OSle, OFLt, OFLe, OFEq:
		res = 0
	}
	if a.IsConst() && b.IsConst() {
		v := evalBin(op, a.Val, b.Val, w)
		if res == 0 {
			return c.Bool(v != 0)
		}
		return c.BV(v, res)
	}
	switch op {
	case OBAnd:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.Val == 0 {
				return b
			}
			if b.Val == Mask(w) {
				return a
			}
			// x & 1 where x = sum with even parts... left to solver
			if a.Op == OBAnd && a.A[1].IsConst() {
				return c.Bin(OBAnd, a.A[0], c.BV(a.A[1].Val&b.Val, w))
			}
			if a.Op == OZExt && b.Val >= Mask(a.A[0].W) && b.Val&Mask(a.A[0].W) == Mask(a.A[0].W) {
				return a
			}
			if _, hi := urange(a); hi != Mask(w) && b.Val&(uint64(1)<<bits.Len64(hi)-1) == 0 {
				return c.BV(0, w)
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.Val == 0 {
			return a
		}
		if b.IsConst() && b.Val == Mask(w) {
			return b
		}
		if a == b {
			return a
		}
	case OBXor:
		if a == b {
			return c.BV(0, w)
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && b.Val == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.IsConst() && b.Val == 0 {
			return a
		}
		if b.IsConst() && b.Val >= uint64(w) && op != OAShr {
			return c.BV(0, w)
		}
		if op == OShl && b.IsConst() {
			return c.Mul(a, c.BV(uint64(1)<<b.Val, w))
		}
	case OUDiv, OSDiv:
		if b.IsConst() && b.Val == 1 {
			return a
		}
		if op == OUDiv && b.IsConst() && bits.OnesCount64(b.Val) == 1 {
			return c.Bin(OLShr, a, c.BV(uint64(bits.TrailingZeros64(b.Val)), w))
		}
	case OURem:
		if b.IsConst() && bits.OnesCount64(b.Val) == 1 {
			return c.Bin(OBAnd, a, c.BV(b.Val-1, w))
		}
	case OUlt:
		if a == b {
			return c.tFalse
		}
		if b.IsConst() && b.Val == 0 {
			return c.tFalse
		}
		if a.IsConst() && a.Val == Mask(w) {
			return c.tFalse
		}
		if t := c.ult(a, b); t != nil {
			return t
		}
	case OUle:
		if a == b {
			return c.tTrue
		}
		return c.Not(c.Bin(OUlt, b, a))
	case OSlt:
		if a == b {
			return c.tFalse
		}
		if w > 1 {
			_, ha := urange(a)
			_, hb := urange(b)
			if ha <= Mask(w-1) && hb <= Mask(w-1) {
				return c.Bin(OUlt, a, b)
			}
		}
	case OSle:
		if a == b {
			return c.tTrue
		}
		return c.Not(c.Bin(OSlt, b, a))
	case OFAdd, OFMul:
		if a.ID > b.ID {
			a, b = b, a
		}
	}
	return c.mk(op, res, 0, "", a, b)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.BV(^a.Val, a.W)
	}
	if a.Op == OBNot {
		return a.A[0]
	}
	return c.mk(OBNot, a.W, 0, "", a)
}
func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return c.BV(a.Val, w)
	}
	if a.Op == OZExt {
		return c.ZExt(a.A[0], w)
	}
	return c.mk(OZExt, w, 0, "", a)
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return c.BV(uint64(SExtTo64(a.Val, a.W)), w)
	}
	return c.mk(OSExt, w, 0, "", a)
}
func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.W == w {
		return a
	}
	if a.IsConst() {
		return c.BV(a.Val>>lo, w)
	}
	if (a.Op == OZExt || a.Op == OSExt) && lo == 0 {
		iw := a.A[0].W
		if w <= iw {
			return c.Extract(a.A[0], 0, w)
		}
		if a.Op == OZExt {
			return c.ZExt(a.A[0], w)
		}
		return c.SExt(a.A[0], w)
	}
	if a.Op == OConcat {
		lw := a.A[1].W
		if lo+w <= lw {
			return c.Extract(a.A[1], lo, w)
		}
		if lo >= lw {
			return c.Extract(a.A[0], lo-lw, w)
		}
	}
	return c.mk(OExtract, w, uint64(lo), "", a)
}
func (c *Ctx) Concat(hi, lo *Term) *Term {
	if hi.IsConst() && lo.IsConst() {
		return c.BV(hi.Val<<lo.W|lo.Val, hi.W+lo.W)
	}
	return c.mk(OConcat, hi.W+lo.W, 0, "", hi, lo)
}

// Un builds unary conversions/float unary ops; w is the result width.
func (c *Ctx) Un(op Op, a *Term, w uint8, val uint64) *Term {
	if a.IsConst() {
		return c.BV(evalUn(op, a.Val, a.W, w, val), w)
	}
	return c.mk(op, w, val, "", a)
}

func f64(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := Mask(w)
	sa, sb := SExtTo64(a, w), SExtTo64(b, w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OSDiv:
		if sb == 0 {
			if sa >= 0 {
				return m
			}
			return 1
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSRem:
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sa>>b) & m
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sa < sb)
	case OSle:
		return b2u(sa <= sb)
	case OConcat:
		return a<<w | b // w = width of low part (caller handles)
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := f64(a, w), f64(b, w)
		if w == 32 {
			fx, fy := float32(x), float32(y)
			switch op {
			case OFAdd:
				return uint64(math.Float32bits(fx + fy))
			case OFSub:
				return uint64(math.Float32bits(fx - fy))
			case OFMul:
				return uint64(math.Float32bits(fx * fy))
			default:
				return uint64(math.Float32bits(fx / fy))
			}
		}
		switch op {
		case OFAdd:
			return math.Float64bits(x + y)
		case OFSub:
			return math.Float64bits(x - y)
		case OFMul:
			return math.Float64bits(x * y)
		default:
			return math.Float64bits(x / y)
		}
	case OFLt:
		return b2u(f64(a, w) < f64(b, w))
	case OFLe:
		return b2u(f64(a, w) <= f64(b, w))
	case OFEq:
		return b2u(f64(a, w) == f64(b, w))
	}
	panic(fmt.Sprint("evalBin op ", op))
}

func evalUn(op Op, a uint64, aw, w uint8, val uint64) uint64 {
	switch op {
	case OFNeg:
		return a ^ (1 << (aw - 1))
	case OFFromS:
		return fbits(float64(SExtTo64(a, aw)), w)
	case OFFromU:
		return fbits(float64(a), w)
	case OFToS:
		return uint64(int64(f64(a, aw))) & Mask(w)
	case OFToU:
		return uint64(f64(a, aw)) & Mask(w)
	case OFToF:
		return fbits(f64(a, aw), w)
	case OFRound:
		switch val {
		case 0:
			return fbits(math.Floor(f64(a, aw)), w)
		case 1:
			return fbits(math.Ceil(f64(a, aw)), w)
		default:
			return fbits(math.Trunc(f64(a, aw)), w)
		}
	case OFSqrt:
		return fbits(math.Sqrt(f64(a, aw)), w)
	}
	panic(fmt.Sprint("evalUn op ", op))
}

// Model maps variable names to values (missing = 0).
type Model map[string]uint64

// Evaluator evaluates terms of one Ctx under one Model with memoisation.
type Evaluator struct {
	M    Model
	memo map[*Term]uint64
}

func NewEvaluator(m Model) *Evaluator { return &Evaluator{M: m, memo: map[*Term]uint64{}} }

func (e *Evaluator) Eval(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.Val
	case OVar:
		return e.M[t.Name] & maskb(t.W)
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var v uint64
	switch t.Op {
	case ONot:
		v = 1 - e.Eval(t.A[0])
	case OAnd:
		v = e.Eval(t.A[0])
		if v != 0 {
			v = e.Eval(t.A[1])
		}
	case OOr:
		v = e.Eval(t.A[0])
		if v == 0 {
			v = e.Eval(t.A[1])
		}
	case OEq:
		v = b2u(e.Eval(t.A[0]) == e.Eval(t.A[1]))
	case OIte:
		if e.Eval(t.A[0]) != 0 {
			v = e.Eval(t.A[1])
		} else {
			v = e.Eval(t.A[2])
		}
	case OAdd:
		for _, a := range t.A {
			v += e.Eval(a)
		}
		v &= Mask(t.W)
	case OBNot:
		v = ^e.Eval(t.A[0]) & Mask(t.W)
	case OZExt:
		v = e.Eval(t.A[0])
	case OSExt:
		v = uint64(SExtTo64(e.Eval(t.A[0]), t.A[0].W)) & Mask(t.W)
	case OExtract:
		v = (e.Eval(t.A[0]) >> t.Val) & Mask(t.W)
	case OConcat:
		v = e.Eval(t.A[0])<<t.A[1].W | e.Eval(t.A[1])
	case OFNeg, OFFromS, OFFromU, OFToS, OFToU, OFToF, OFRound, OFSqrt:
		v = evalUn(t.Op, e.Eval(t.A[0]), t.A[0].W, t.W, t.Val)
	default:
		v = evalBin(t.Op, e.Eval(t.A[0]), e.Eval(t.A[1]), t.A[0].W)
	}
	e.memo[t] = v
	return v
}

func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return Mask(w)
}

// CollectVars adds the variables of t to out.
func CollectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OVar {
		*out = append(*out, t)
	}
	for _, a := range t.A {
		CollectVars(a, seen, out)
	}
}
