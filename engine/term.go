package main

// Hash-consed terms over booleans (width 0) and bit-vectors.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpZext
	OpSext
	OpExtract // low bits only: truncation to w
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle"}

type Term struct {
	op   Op
	w    uint8
	k    uint64 // const value; var index
	a    [3]*Term
	id   uint32 // per-context id for composite and variable terms
	emit uint32 // solver generation in which this term has been defined
	// evaluation memo
	evGen uint32
	evVal uint64
}

var True = &Term{op: OpConst, w: 0, k: 1}
var False = &Term{op: OpConst, w: 0, k: 0}

const smallConst = 1024

var smallConsts [5][smallConst]*Term

func widx(w uint8) int {
	switch w {
	case 8:
		return 1
	case 16:
		return 2
	case 32:
		return 3
	case 64:
		return 4
	}
	panic(fmt.Sprintf("bad width %d", w))
}

func init() {
	for i, w := range []uint8{8, 16, 32, 64} {
		for k := 0; k < smallConst; k++ {
			smallConsts[i+1][k] = &Term{op: OpConst, w: w, k: uint64(k) & mask(w)}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func mkConst(w uint8, k uint64) *Term {
	if w == 0 {
		if k != 0 {
			return True
		}
		return False
	}
	k &= mask(w)
	if k < smallConst {
		if w == 8 && k > 255 {
			panic("impossible")
		}
		return smallConsts[widx(w)][k]
	}
	return &Term{op: OpConst, w: w, k: k}
}

func mkBool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sx(k uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(k<<sh) >> sh
}

func (t *Term) String() string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("%d:%d", t.k, t.w)
	}
	if t.op == OpVar {
		return fmt.Sprintf("v%d_%d", t.k, t.w)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opNames[t.op])
	if t.op >= OpZext {
		fmt.Fprintf(&sb, "ext%d", t.w)
	}
	for _, x := range t.a {
		if x != nil {
			sb.WriteString(" " + x.String())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
}

type ckey struct {
	w uint8
	k uint64
}

// TermCtx is a per-worker hash-consing table.
type TermCtx struct {
	tab    map[tkey]*Term
	consts map[ckey]*Term
	vars   map[ckey]*Term
	next   uint32
	evGen  uint32
}

func newTermCtx() *TermCtx {
	return &TermCtx{tab: map[tkey]*Term{}, consts: map[ckey]*Term{}, vars: map[ckey]*Term{}}
}

func (c *TermCtx) canonConst(t *Term) *Term {
	if t == nil || t.op != OpConst || t.w == 0 || t.k < smallConst {
		return t
	}
	k := ckey{t.w, t.k}
	if x, ok := c.consts[k]; ok {
		return x
	}
	c.consts[k] = t
	return t
}

func (c *TermCtx) Var(idx int, w uint8) *Term {
	k := ckey{w, uint64(idx)}
	if x, ok := c.vars[k]; ok {
		return x
	}
	c.next++
	t := &Term{op: OpVar, w: w, k: uint64(idx), id: c.next}
	c.vars[k] = t
	return t
}

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term) *Term {
	a, b, d = c.canonConst(a), c.canonConst(b), c.canonConst(d)
	k := tkey{op, w, a, b, d, 0}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, w: w, a: [3]*Term{a, b, d}, id: c.next}
	c.tab[k] = t
	return t
}

func sameTerm(a, b *Term) bool {
	return a == b || (a.op == OpConst && b.op == OpConst && a.w == b.w && a.k == b.k)
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OpConst {
		return mkBool(a.k == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	return c.mk(OpNot, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k == 0 {
			return False
		}
		return b
	}
	if b.op == OpConst {
		if b.k == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return False
	}
	return c.mk(OpAnd, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.op == OpConst {
		if a.k != 0 {
			return True
		}
		return b
	}
	if b.op == OpConst {
		if b.k != 0 {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a[0] == b) || (b.op == OpNot && b.a[0] == a) {
		return True
	}
	return c.mk(OpOr, 0, a, b, nil)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.op == OpConst {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if sameTerm(a, b) {
		return a
	}
	if a.w == 0 {
		if a == True {
			return c.Or(cond, b)
		}
		if a == False {
			return c.And(c.Not(cond), b)
		}
		if b == True {
			return c.Or(c.Not(cond), a)
		}
		if b == False {
			return c.And(cond, a)
		}
	}
	return c.mk(OpIte, a.w, cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == OpConst && b.op == OpConst {
		return mkBool(a.k == b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OpConst {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpIte:
			x, y := a.a[1], a.a[2]
			if x.op == OpConst || y.op == OpConst {
				if x.op == OpConst && y.op == OpConst {
					switch {
					case x.k == b.k && y.k == b.k:
						return True
					case x.k == b.k:
						return a.a[0]
					case y.k == b.k:
						return c.Not(a.a[0])
					default:
						return False
					}
				}
				return c.Ite(a.a[0], c.Eq(x, b), c.Eq(y, b))
			}
		case OpZext:
			in := a.a[0]
			if b.k&^mask(in.w) != 0 {
				return False
			}
			return c.Eq(in, mkConst(in.w, b.k))
		case OpSext:
			in := a.a[0]
			if uint64(sx(b.k&mask(in.w), in.w))&mask(b.w) != b.k {
				return False
			}
			return c.Eq(in, mkConst(in.w, b.k))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, a, b, nil)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OpAdd:
		return x + y, true
	case OpSub:
		return x - y, true
	case OpMul:
		return x * y, true
	case OpUDiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case OpSDiv:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a), true
		}
		return uint64(a / b), true
	case OpSRem:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a % b), true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w) >> y), true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpUlt:
		return b2u(x < y), true
	case OpUle:
		return b2u(x <= y), true
	case OpSlt:
		return b2u(sx(x, w) < sx(y, w)), true
	case OpSle:
		return b2u(sx(x, w) <= sx(y, w)), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds a binary bit-vector operation; comparisons yield booleans.
func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	rw := a.w
	if op >= OpUlt && op <= OpSle {
		rw = 0
	}
	if a.op == OpConst && b.op == OpConst {
		if v, ok := foldBin(op, a.w, a.k, b.k); ok {
			return mkConst(rw, v)
		}
	}
	switch op {
	case OpAdd, OpBOr, OpBXor, OpMul, OpBAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			switch {
			case op == OpMul && b.k == 1, (op == OpAdd || op == OpBOr || op == OpBXor) && b.k == 0:
				return a
			case (op == OpMul || op == OpBAnd) && b.k == 0:
				return b
			case op == OpBAnd && b.k == mask(b.w):
				return a
			}
			if op == OpAdd && a.op == OpAdd && a.a[1].op == OpConst {
				return c.Bin(OpAdd, a.a[0], mkConst(a.w, a.a[1].k+b.k))
			}
		}
	case OpSub:
		if b.op == OpConst {
			if b.k == 0 {
				return a
			}
			return c.Bin(OpAdd, a, mkConst(a.w, -b.k))
		}
		if a == b {
			return mkConst(a.w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst && b.k == 0 {
			return a
		}
	case OpUlt, OpSlt:
		if a == b {
			return False
		}
		if op == OpUlt {
			if b.op == OpConst && b.k == 0 {
				return False
			}
			if a.op == OpZext && b.op == OpConst && b.k > mask(a.a[0].w) {
				return True
			}
		}
		if op == OpSlt && a.op == OpZext && b.op == OpConst {
			if sx(b.k, b.w) <= 0 {
				return False
			}
			if b.k > mask(a.a[0].w) {
				return True
			}
		}
		if op == OpSlt && b.op == OpZext && a.op == OpConst && sx(a.k, a.w) < 0 {
			return True
		}
	case OpUle, OpSle:
		if a == b {
			return True
		}
		if op == OpUle && a.op == OpConst && a.k == 0 {
			return True
		}
	}
	return c.mk(op, rw, a, b, nil)
}

func (c *TermCtx) Neg(a *Term) *Term { return c.Bin(OpSub, mkConst(a.w, 0), a) }
func (c *TermCtx) BNot(a *Term) *Term {
	return c.Bin(OpBXor, a, mkConst(a.w, mask(a.w)))
}

// Conv converts a to width w; signed tells whether the source is signed.
func (c *TermCtx) Conv(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if w > a.w && signed {
			return mkConst(w, uint64(sx(a.k, a.w)))
		}
		return mkConst(w, a.k)
	}
	if w < a.w {
		if (a.op == OpZext || a.op == OpSext) && a.a[0].w == w {
			return a.a[0]
		}
		return c.mk(OpExtract, w, a, nil, nil)
	}
	if signed {
		if a.op == OpZext {
			return c.Conv(a.a[0], w, false)
		}
		return c.mk(OpSext, w, a, nil, nil)
	}
	return c.mk(OpZext, w, a, nil, nil)
}

// Model maps variable index -> value (absent means zero).
type Model map[uint64]uint64

func (c *TermCtx) newEval() { c.evGen++ }

// Eval evaluates t under m. newEval must be called whenever the model changes.
func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return m[t.k] & mask(t.w)
	}
	if t.evGen == c.evGen {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OpNot:
		v = 1 - c.Eval(t.a[0], m)
	case OpAnd:
		v = c.Eval(t.a[0], m)
		if v != 0 {
			v = c.Eval(t.a[1], m)
		}
	case OpOr:
		v = c.Eval(t.a[0], m)
		if v == 0 {
			v = c.Eval(t.a[1], m)
		}
	case OpIte:
		if c.Eval(t.a[0], m) != 0 {
			v = c.Eval(t.a[1], m)
		} else {
			v = c.Eval(t.a[2], m)
		}
	case OpEq:
		v = b2u(c.Eval(t.a[0], m) == c.Eval(t.a[1], m))
	case OpZext:
		v = c.Eval(t.a[0], m)
	case OpSext:
		v = uint64(sx(c.Eval(t.a[0], m), t.a[0].w)) & mask(t.w)
	case OpExtract:
		v = c.Eval(t.a[0], m) & mask(t.w)
	default:
		x, y := c.Eval(t.a[0], m), c.Eval(t.a[1], m)
		w := t.a[0].w
		r, ok := foldBin(t.op, w, x, y)
		if !ok { // division by zero: SMT-LIB semantics
			switch t.op {
			case OpUDiv:
				r = mask(w)
			case OpURem, OpSRem:
				r = x
			case OpSDiv:
				if sx(x, w) < 0 {
					r = 1
				} else {
					r = mask(w)
				}
			}
		}
		v = r
		if t.w != 0 {
			v &= mask(t.w)
		}
	}
	t.evGen, t.evVal = c.evGen, v
	return v
}

var _ = bits.Len
