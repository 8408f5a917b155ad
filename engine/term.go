package main

// Hash-consed bit-vector/boolean terms with normalising constructors.
// w == 0 is the Bool sort; w > 0 is (_ BitVec w).

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF
	OpNot // bool
	OpAnd // bool n-ary
	OpOr  // bool n-ary
	OpEq
	OpIte
	OpConcat  // n-ary, msb first
	OpExtract // k = lo, result width = w
	OpSext
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBand
	OpBor
	OpBxor
	OpBnot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpUlt
	OpUle
	OpSlt
	OpSle
)

type Term struct {
	id    int
	op    Op
	w     int
	args  []*Term
	k     uint64
	big   *big.Int
	name  string
	size  int // dag-ish size estimate (tree size capped)
	vars  []int
	varsC bool
	// unsigned interval (valid for 0 < w <= 64)
	rlo, rhi uint64
	rok      bool
}

type TermCtx struct {
	buckets map[uint64][]*Term
	n       int
	True    *Term
	False   *Term
	varsBy  map[string]*Term
	ufID    map[string]int
	varTerm map[int]*Term
	memo    map[[3]int]*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{buckets: map[uint64][]*Term{}, varsBy: map[string]*Term{}, ufID: map[string]int{}, varTerm: map[int]*Term{}, memo: map[[3]int]*Term{}}
	c.True = c.mk(&Term{op: OpConst, w: 0, k: 1})
	c.False = c.mk(&Term{op: OpConst, w: 0, k: 0})
	return c
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	return h * 0xff51afd7ed558ccd
}

func (c *TermCtx) mk(t *Term) *Term {
	h := mix(uint64(t.op)<<32|uint64(t.w), t.k)
	for _, a := range t.args {
		h = mix(h, uint64(a.id)+1)
	}
	for i := 0; i < len(t.name); i++ {
		h = mix(h, uint64(t.name[i]))
	}
	if t.big != nil {
		for _, w := range t.big.Bits() {
			h = mix(h, uint64(w))
		}
	}
next:
	for _, o := range c.buckets[h] {
		if o.op != t.op || o.w != t.w || o.k != t.k || o.name != t.name || len(o.args) != len(t.args) {
			continue
		}
		for i := range o.args {
			if o.args[i] != t.args[i] {
				continue next
			}
		}
		if (o.big == nil) != (t.big == nil) || (o.big != nil && o.big.Cmp(t.big) != 0) {
			continue
		}
		return o
	}
	c.n++
	t.id = c.n
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	c.setRange(t)
	c.buckets[h] = append(c.buckets[h], t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func bigMask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

func (c *TermCtx) Const(w int, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.True
		}
		return c.False
	}
	if w > 64 {
		return c.ConstBig(w, new(big.Int).SetUint64(v))
	}
	return c.mk(&Term{op: OpConst, w: w, k: v & mask(w)})
}

func (c *TermCtx) ConstBig(w int, v *big.Int) *Term {
	if w <= 64 {
		m := new(big.Int).And(v, bigMask(64))
		return c.Const(w, m.Uint64())
	}
	if v.Sign() < 0 || v.BitLen() > w {
		v = new(big.Int).And(v, bigMask(w))
	}
	return c.mk(&Term{op: OpConst, w: w, big: v})
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.k == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.k == 0 }
func (t *Term) Big() *big.Int {
	if t.big != nil {
		return t.big
	}
	return new(big.Int).SetUint64(t.k)
}
func (t *Term) isZero() bool {
	return t.op == OpConst && t.w > 0 && t.k == 0 && (t.big == nil || t.big.Sign() == 0)
}
func (t *Term) isOnes() bool {
	if t.op != OpConst || t.w == 0 {
		return false
	}
	if t.w <= 64 {
		return t.k == mask(t.w)
	}
	return t.big.Cmp(bigMask(t.w)) == 0
}

// Signed returns the value of a constant as a signed 64-bit integer.
func (t *Term) Signed() int64 {
	if t.w >= 64 {
		return int64(t.k)
	}
	s := uint(64 - t.w)
	return int64(t.k<<s) >> s
}

func (c *TermCtx) Var(name string, w int) *Term {
	if t, ok := c.varsBy[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	t := c.mk(&Term{op: OpVar, w: w, name: name})
	c.varsBy[name] = t
	c.varTerm[t.id] = t
	return t
}

// UF applies an uninterpreted function. The name must determine the signature.
func (c *TermCtx) UF(name string, w int, args ...*Term) *Term {
	if len(args) == 0 {
		return c.Var(name, w)
	}
	return c.mk(&Term{op: OpUF, w: w, name: name, args: args})
}

// ---------------------------------------------------------------- booleans

func (c *TermCtx) Not(a *Term) *Term {
	switch {
	case a.IsConst():
		return c.Bool(a.k == 0)
	case a.op == OpNot:
		return a.args[0]
	case a.op == OpUlt:
		return c.Ule(a.args[1], a.args[0])
	case a.op == OpUle:
		return c.Ult(a.args[1], a.args[0])
	case a.op == OpSlt:
		return c.Sle(a.args[1], a.args[0])
	case a.op == OpSle:
		return c.Slt(a.args[1], a.args[0])
	case a.op == OpEq && a.args[0].w == 1 && a.args[1].IsConst():
		return c.Eq(a.args[0], c.Const(1, 1-a.args[1].k))
	case a.op == OpEq && a.args[0].w == 1 && a.args[0].IsConst():
		return c.Eq(a.args[1], c.Const(1, 1-a.args[0].k))
	}
	return c.mk(&Term{op: OpNot, w: 0, args: []*Term{a}})
}

func (c *TermCtx) And(as ...*Term) *Term { return c.nary(OpAnd, as) }
func (c *TermCtx) Or(as ...*Term) *Term  { return c.nary(OpOr, as) }

func (c *TermCtx) nary(op Op, as []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OpOr {
		unit, zero = c.False, c.True
	}
	var l []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if seen[c.Not(a).id] {
			return false
		}
		seen[a.id] = true
		l = append(l, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(l) == 0 {
		return unit
	}
	if len(l) == 1 {
		return l[0]
	}
	// absorption: x ∧ (x ∨ y) = x ; x ∧ (¬x ∨ y) = x ∧ y  (and duals)
	dual := OpOr
	if op == OpOr {
		dual = OpAnd
	}
	changed := false
	out := l[:0:0]
	for _, a := range l {
		if a.op == dual {
			drop := false
			var keep []*Term
			for _, x := range a.args {
				if seen[x.id] {
					drop = true
					break
				}
				if seen[c.Not(x).id] {
					continue
				}
				keep = append(keep, x)
			}
			if drop {
				changed = true
				continue
			}
			if len(keep) != len(a.args) {
				changed = true
				out = append(out, c.nary(dual, keep))
				continue
			}
		}
		out = append(out, a)
	}
	if changed {
		return c.nary(op, out)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return c.mk(&Term{op: op, w: 0, args: l})
}

func (c *TermCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.size > 4 || b.size > 4 {
		k := [3]int{a.id, b.id, -1}
		if r, ok := c.memo[k]; ok {
			return r
		}
		r := c.eq(a, b)
		c.memo[k] = r
		return r
	}
	return c.eq(a, b)
}

func (c *TermCtx) eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.False
	}
	if a.w == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: OpEq, w: 0, args: []*Term{a, b}})
	}
	if a.IsConst() {
		a, b = b, a
	}
	// b may be const
	if a.w <= 64 && a.rok && b.rok && (a.rhi < b.rlo || b.rhi < a.rlo) {
		return c.False
	}
	if b.IsConst() {
		switch a.op {
		case OpIte:
			t, e := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
			if t.IsConst() || e.IsConst() {
				return c.Ite(a.args[0], t, e)
			}
		case OpBnot:
			return c.Eq(a.args[0], c.Bnot(b))
		case OpBxor:
			if a.args[0].IsConst() {
				return c.Eq(a.args[1], c.Bxor(a.args[0], b))
			}
		case OpAdd:
			if a.args[0].IsConst() {
				return c.Eq(a.args[1], c.Sub(b, a.args[0]))
			}
		}
	}
	if linear := func(t *Term) bool { return t.op == OpAdd || t.op == OpMul && t.args[0].IsConst() || t.op == OpNeg }; a.w <= 64 && !b.IsConst() && (linear(a) || linear(b)) {
		// k + m*x = 0 with an odd m has one solution
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.isZero())
		}
		k, m, x := uint64(0), uint64(1), d
		if x.op == OpAdd && len(x.args) == 2 && x.args[0].IsConst() {
			k, x = x.args[0].k, x.args[1]
		}
		if x.op == OpNeg {
			m, x = mask(a.w), x.args[0]
		} else if x.op == OpMul && x.args[0].IsConst() {
			m, x = x.args[0].k, x.args[1]
		}
		if m&1 == 1 && x.op != OpAdd && x.op != OpMul {
			inv := m // Newton's iteration doubles the correct bits
			for i := 0; i < 6; i++ {
				inv *= 2 - m*inv
			}
			return c.Eq(x, c.Const(a.w, -k*inv))
		}
	}
	if a.op == OpConcat || b.op == OpConcat {
		pa, pb := c.align(a, b)
		if len(pa) > 1 {
			gain := false
			var es []*Term
			for i := range pa {
				e := c.Eq(pa[i], pb[i])
				if e.IsFalse() {
					return c.False
				}
				if e.IsTrue() {
					gain = true
					continue
				}
				es = append(es, e)
			}
			if gain || (a.op == OpConcat && b.op == OpConcat && len(pa) == len(a.args) && len(pa) == len(b.args)) || len(pa) <= 4 {
				return c.And(es...)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpEq, w: 0, args: []*Term{a, b}})
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.IsTrue() || a == b {
		return a
	}
	if cond.IsFalse() {
		return b
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Ite width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		switch {
		case a.IsTrue():
			return c.Or(cond, b)
		case a.IsFalse():
			return c.And(c.Not(cond), b)
		case b.IsTrue():
			return c.Or(c.Not(cond), a)
		case b.IsFalse():
			return c.And(cond, a)
		case a == cond:
			return c.Or(cond, b)
		case b == cond:
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.op == OpIte && a.args[0] == cond {
		return c.Ite(cond, a.args[1], b)
	}
	if b.op == OpIte && b.args[0] == cond {
		return c.Ite(cond, a, b.args[2])
	}
	// ite(c1, ite(c2, x, y), y) = ite(c1&c2, x, y)
	if a.op == OpIte && a.args[2] == b {
		return c.Ite(c.And(cond, a.args[0]), a.args[1], b)
	}
	if b.op == OpIte && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	if a.w == 1 && a.IsConst() && b.IsConst() {
		// one-bit value of a condition
		if cond.op == OpEq && cond.args[0].w == 1 {
			x, y := cond.args[0], cond.args[1]
			if x.IsConst() {
				x, y = y, x
			}
			if y.IsConst() {
				if y.k == a.k {
					return x
				}
				return c.Bnot(x)
			}
		}
		if a.k == 0 {
			return c.Bnot(c.mk(&Term{op: OpIte, w: 1, args: []*Term{cond, b, a}}))
		}
	}
	if a.w > 1 && (a.op == OpConcat || b.op == OpConcat || (a.IsConst() && b.IsConst())) {
		pa, pb := c.align(a, b)
		if a.IsConst() && b.IsConst() {
			pa, pb = c.constRuns(a, b)
		}
		if len(pa) > 1 {
			same := false
			for i := range pa {
				if pa[i] == pb[i] {
					same = true
				}
			}
			if same {
				out := make([]*Term, len(pa))
				for i := range pa {
					out[i] = c.Ite(cond, pa[i], pb[i])
				}
				return c.Concat(out...)
			}
		}
	}
	return c.mk(&Term{op: OpIte, w: a.w, args: []*Term{cond, a, b}})
}

// constRuns splits two constants into maximal runs of equal / different bits,
// at most 8 pieces.
func (c *TermCtx) constRuns(a, b *Term) ([]*Term, []*Term) {
	x := new(big.Int).Xor(a.Big(), b.Big())
	var cuts []int // bit positions where a new run starts (from lsb)
	cur := x.Bit(0)
	cuts = append(cuts, 0)
	for i := 1; i < a.w; i++ {
		if x.Bit(i) != cur {
			cuts = append(cuts, i)
			cur = x.Bit(i)
		}
	}
	if len(cuts) > 8 {
		return []*Term{a}, []*Term{b}
	}
	var pa, pb []*Term
	hi := a.w
	for i := len(cuts) - 1; i >= 0; i-- {
		pa = append(pa, c.Extract(a, hi-1, cuts[i]))
		pb = append(pb, c.Extract(b, hi-1, cuts[i]))
		hi = cuts[i]
	}
	return pa, pb
}

// ---------------------------------------------------------------- structure

func (c *TermCtx) Concat(as ...*Term) *Term {
	var l []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.w == 0 {
			panic("concat of bool")
		}
		if a.op == OpConcat {
			for _, x := range a.args {
				add(x)
			}
			return
		}
		if len(l) > 0 {
			p := l[len(l)-1]
			if p.IsConst() && a.IsConst() {
				w := p.w + a.w
				if w <= 64 {
					l[len(l)-1] = c.Const(w, p.k<<uint(a.w)|a.k)
				} else {
					v := new(big.Int).Lsh(p.Big(), uint(a.w))
					l[len(l)-1] = c.ConstBig(w, v.Or(v, a.Big()))
				}
				return
			}
			if p.op == OpExtract && a.op == OpExtract && p.args[0] == a.args[0] && int(p.k) == int(a.k)+a.w {
				l[len(l)-1] = c.Extract(p.args[0], int(p.k)+p.w-1, int(a.k))
				return
			}
		}
		l = append(l, a)
	}
	for _, a := range as {
		add(a)
	}
	if len(l) == 1 {
		return l[0]
	}
	w := 0
	for _, x := range l {
		w += x.w
	}
	return c.mk(&Term{op: OpConcat, w: w, args: append([]*Term(nil), l...)})
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.size > 4 && w > 0 {
		k := [3]int{a.id, hi, lo}
		if r, ok := c.memo[k]; ok {
			return r
		}
		r := c.extract(a, hi, lo)
		c.memo[k] = r
		return r
	}
	return c.extract(a, hi, lo)
}

func (c *TermCtx) extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 || lo < 0 || hi >= a.w {
		panic(fmt.Sprintf("bad extract [%d:%d] of width %d", hi, lo, a.w))
	}
	switch a.op {
	case OpConst:
		if a.w <= 64 {
			return c.Const(w, a.k>>uint(lo))
		}
		return c.ConstBig(w, new(big.Int).And(new(big.Int).Rsh(a.big, uint(lo)), bigMask(w)))
	case OpExtract:
		return c.Extract(a.args[0], hi+int(a.k), lo+int(a.k))
	case OpConcat:
		var parts []*Term
		top := a.w
		for _, x := range a.args {
			xhi, xlo := top-1, top-x.w
			top = xlo
			h, l := hi, lo
			if h > xhi {
				h = xhi
			}
			if l < xlo {
				l = xlo
			}
			if h >= l {
				parts = append(parts, c.Extract(x, h-xlo, l-xlo))
			}
		}
		return c.Concat(parts...)
	case OpSext:
		in := a.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
	case OpIte:
		x, y := c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo)
		if x.IsConst() || y.IsConst() || x == y || x.op != OpExtract || y.op != OpExtract {
			return c.Ite(a.args[0], x, y)
		}
	case OpBand, OpBor, OpBxor:
		x, y := c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo)
		if x.IsConst() || y.IsConst() {
			return c.bitop(a.op, x, y)
		}
	case OpBnot:
		return c.Bnot(c.Extract(a.args[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		// low bits only depend on low bits: narrow when both operands get simpler
		if lo == 0 && w <= 64 {
			x, y := c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0)
			if (x.op != OpExtract || x.IsConst()) && (y.op != OpExtract || y.IsConst()) {
				switch a.op {
				case OpAdd:
					return c.Add(x, y)
				case OpSub:
					return c.Sub(x, y)
				case OpMul:
					return c.Mul(x, y)
				}
			}
		}
	}
	return c.mk(&Term{op: OpExtract, w: w, k: uint64(lo), args: []*Term{a}})
}

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	return c.Concat(c.Const(w-a.w, 0), a)
}

func (c *TermCtx) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		if w <= 64 {
			return c.Const(w, uint64(a.Signed()))
		}
		v := new(big.Int).Set(a.Big())
		if v.Bit(a.w-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(a.w)))
		}
		return c.ConstBig(w, new(big.Int).And(v, bigMask(w)))
	}
	if c.signZero(a) {
		return c.Zext(a, w)
	}
	if a.op == OpSext {
		return c.Sext(a.args[0], w)
	}
	return c.mk(&Term{op: OpSext, w: w, args: []*Term{a}})
}

func (c *TermCtx) signZero(a *Term) bool {
	if a.op == OpConcat && a.args[0].IsConst() {
		return a.args[0].Big().Bit(a.args[0].w-1) == 0
	}
	if a.IsConst() {
		return a.Big().Bit(a.w-1) == 0
	}
	return a.rok && a.w <= 64 && a.rhi < uint64(1)<<uint(a.w-1)
}

func (c *TermCtx) signOne(a *Term) bool {
	if a.op == OpConcat && a.args[0].IsConst() {
		return a.args[0].Big().Bit(a.args[0].w-1) == 1
	}
	if a.IsConst() {
		return a.Big().Bit(a.w-1) == 1
	}
	return a.rok && a.w <= 64 && a.rlo >= uint64(1)<<uint(a.w-1)
}

// align cuts a and b at each other's concat boundaries.
func (c *TermCtx) align(a, b *Term) ([]*Term, []*Term) {
	segs := func(t *Term) []*Term {
		if t.op == OpConcat {
			return t.args
		}
		return []*Term{t}
	}
	sa, sb := segs(a), segs(b)
	cut := map[int]bool{}
	p := a.w
	for _, x := range sa {
		p -= x.w
		cut[p] = true
	}
	p = b.w
	for _, x := range sb {
		p -= x.w
		cut[p] = true
	}
	pos := make([]int, 0, len(cut))
	for k := range cut {
		pos = append(pos, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(pos)))
	var pa, pb []*Term
	split := func(segs []*Term, w int) []*Term {
		var out []*Term
		hi := w
		si, shi := 0, w
		for _, lo := range pos {
			for shi-segs[si].w > lo || shi-segs[si].w >= hi {
				if shi-segs[si].w >= hi {
					shi -= segs[si].w
					si++
					continue
				}
				break
			}
			s := segs[si]
			slo := shi - s.w
			out = append(out, c.Extract(s, hi-1-slo, lo-slo))
			hi = lo
			if hi == slo {
				shi = slo
				si++
			}
		}
		return out
	}
	pa = split(sa, a.w)
	pb = split(sb, b.w)
	return pa, pb
}

// ---------------------------------------------------------------- bit operations

func (c *TermCtx) bitop(op Op, a, b *Term) *Term {
	switch op {
	case OpBand:
		return c.Band(a, b)
	case OpBor:
		return c.Bor(a, b)
	}
	return c.Bxor(a, b)
}

// pieceMerge computes a bit operation piecewise; it succeeds only if no
// piece needs a new operator node.
func (c *TermCtx) pieceMerge(a, b *Term, f func(x, y *Term) *Term) *Term {
	if a.op != OpConcat && b.op != OpConcat {
		return nil
	}
	pa, pb := c.align(a, b)
	if len(pa) < 2 || len(pa) > 128 {
		return nil
	}
	out := make([]*Term, len(pa))
	for i := range pa {
		r := f(pa[i], pb[i])
		if r == nil {
			return nil
		}
		out[i] = r
	}
	return c.Concat(out...)
}

func (c *TermCtx) maskSplit(k *Term) []*Term {
	// constant -> maximal runs of equal bits (msb first), nil if too many
	v := k.Big()
	var out []*Term
	hi := k.w
	for hi > 0 {
		b := v.Bit(hi - 1)
		lo := hi - 1
		for lo > 0 && v.Bit(lo-1) == b {
			lo--
		}
		out = append(out, c.Extract(k, hi-1, lo))
		hi = lo
		if len(out) > 8 {
			return nil
		}
	}
	return out
}

func (c *TermCtx) Band(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		if a.w <= 64 {
			return c.Const(a.w, a.k&b.k)
		}
		return c.ConstBig(a.w, new(big.Int).And(a.big, b.big))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.isZero() {
			return b
		}
		if b.isOnes() {
			return a
		}
		if runs := c.maskSplit(b); runs != nil {
			out := make([]*Term, len(runs))
			hi := a.w
			for i, r := range runs {
				if r.isZero() {
					out[i] = r
				} else {
					out[i] = c.Extract(a, hi-1, hi-r.w)
				}
				hi -= r.w
			}
			return c.Concat(out...)
		}
	}
	if r := c.pieceMerge(a, b, func(x, y *Term) *Term {
		switch {
		case x == y:
			return x
		case x.isZero() || y.isZero():
			return c.Const(x.w, 0).resize(c, x.w)
		case x.isOnes():
			return y
		case y.isOnes():
			return x
		case x.IsConst() && y.IsConst():
			return c.Band(x, y)
		}
		return nil
	}); r != nil {
		return r
	}
	if a.op == OpBnot && a.args[0] == b || b.op == OpBnot && b.args[0] == a {
		return c.ConstBig(a.w, new(big.Int))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpBand, w: a.w, args: []*Term{a, b}})
}

func (t *Term) resize(c *TermCtx, w int) *Term { return t }

func (c *TermCtx) Bor(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		if a.w <= 64 {
			return c.Const(a.w, a.k|b.k)
		}
		return c.ConstBig(a.w, new(big.Int).Or(a.big, b.big))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.isZero() {
			return a
		}
		if b.isOnes() {
			return b
		}
		if runs := c.maskSplit(b); runs != nil && a.op != OpConcat {
			out := make([]*Term, len(runs))
			hi := a.w
			for i, r := range runs {
				if r.isOnes() {
					out[i] = r
				} else {
					out[i] = c.Extract(a, hi-1, hi-r.w)
				}
				hi -= r.w
			}
			return c.Concat(out...)
		}
		if a.op == OpConcat {
			// cut the constant into runs so every piece resolves
			if runs := c.maskSplit(b); runs != nil {
				var out []*Term
				hi := a.w
				for _, r := range runs {
					if r.isOnes() {
						out = append(out, r)
					} else {
						out = append(out, c.Extract(a, hi-1, hi-r.w))
					}
					hi -= r.w
				}
				return c.Concat(out...)
			}
		}
	}
	if r := c.pieceMerge(a, b, func(x, y *Term) *Term {
		switch {
		case x == y, y.isZero():
			return x
		case x.isZero():
			return y
		case x.isOnes():
			return x
		case y.isOnes():
			return y
		case x.IsConst() && y.IsConst():
			return c.Bor(x, y)
		}
		return nil
	}); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpBor, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Bxor(a, b *Term) *Term {
	if a == b {
		return c.ConstBig(a.w, new(big.Int))
	}
	if a.IsConst() && b.IsConst() {
		if a.w <= 64 {
			return c.Const(a.w, a.k^b.k)
		}
		return c.ConstBig(a.w, new(big.Int).Xor(a.big, b.big))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.isZero() {
			return a
		}
		if b.isOnes() {
			return c.Bnot(a)
		}
	}
	if r := c.pieceMerge(a, b, func(x, y *Term) *Term {
		switch {
		case x.isZero():
			return y
		case y.isZero():
			return x
		case x.IsConst() && y.IsConst():
			return c.Bxor(x, y)
		}
		return nil
	}); r != nil {
		return r
	}
	// flatten xor chains into a canonical sorted sum
	var l []*Term
	var k *Term
	cnt := map[int]int{}
	byID := map[int]*Term{}
	ok := true
	var add func(t *Term, d int)
	add = func(t *Term, d int) {
		if t.op == OpBxor && d < 12 {
			add(t.args[0], d+1)
			add(t.args[1], d+1)
			return
		}
		if t.IsConst() {
			if k == nil {
				k = t
			} else {
				k = c.Bxor(k, t)
			}
			return
		}
		cnt[t.id]++
		byID[t.id] = t
		if len(byID) > 16 {
			ok = false
		}
	}
	add(a, 0)
	add(b, 0)
	if ok && (a.op == OpBxor || b.op == OpBxor) {
		for id, n := range cnt {
			if n%2 == 1 {
				l = append(l, byID[id])
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		var r *Term
		if k != nil && !k.isZero() {
			r = k
		}
		for _, t := range l {
			if r == nil {
				r = t
			} else {
				x, y := r, t
				r = c.mk(&Term{op: OpBxor, w: a.w, args: []*Term{x, y}})
			}
		}
		if r == nil {
			return c.ConstBig(a.w, new(big.Int))
		}
		return r
	}
	if b.IsConst() || a.id > b.id && !a.IsConst() {
		a, b = b, a
	}
	return c.mk(&Term{op: OpBxor, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Bnot(a *Term) *Term {
	if a.IsConst() {
		if a.w <= 64 {
			return c.Const(a.w, ^a.k)
		}
		return c.ConstBig(a.w, new(big.Int).Xor(a.big, bigMask(a.w)))
	}
	if a.op == OpBnot {
		return a.args[0]
	}
	if a.op == OpConcat {
		out := make([]*Term, len(a.args))
		for i, x := range a.args {
			out[i] = c.Bnot(x)
		}
		return c.Concat(out...)
	}
	if a.op == OpIte && a.args[1].IsConst() && a.args[2].IsConst() && a.w > 1 {
		return c.Ite(a.args[0], c.Bnot(a.args[1]), c.Bnot(a.args[2]))
	}
	return c.mk(&Term{op: OpBnot, w: a.w, args: []*Term{a}})
}

// ---------------------------------------------------------------- shifts (shift amount has the same width)

func (c *TermCtx) ShlK(a *Term, k int) *Term {
	if k >= a.w {
		return c.ConstBig(a.w, new(big.Int))
	}
	if k == 0 {
		return a
	}
	return c.Concat(c.Extract(a, a.w-1-k, 0), c.Const(k, 0))
}

func (c *TermCtx) LshrK(a *Term, k int) *Term {
	if k >= a.w {
		return c.ConstBig(a.w, new(big.Int))
	}
	if k == 0 {
		return a
	}
	return c.Concat(c.Const(k, 0), c.Extract(a, a.w-1, k))
}

func (c *TermCtx) Shl(a, s *Term) *Term {
	if s.IsConst() {
		k := s.Big()
		if !k.IsUint64() || k.Uint64() >= uint64(a.w) {
			return c.ConstBig(a.w, new(big.Int))
		}
		return c.ShlK(a, int(k.Uint64()))
	}
	return c.mk(&Term{op: OpShl, w: a.w, args: []*Term{a, s}})
}

func (c *TermCtx) Lshr(a, s *Term) *Term {
	if s.IsConst() {
		k := s.Big()
		if !k.IsUint64() || k.Uint64() >= uint64(a.w) {
			return c.ConstBig(a.w, new(big.Int))
		}
		return c.LshrK(a, int(k.Uint64()))
	}
	return c.mk(&Term{op: OpLshr, w: a.w, args: []*Term{a, s}})
}

func (c *TermCtx) Ashr(a, s *Term) *Term {
	if c.signZero(a) {
		return c.Lshr(a, s)
	}
	if s.IsConst() {
		k := a.w - 1
		if b := s.Big(); b.IsUint64() && b.Uint64() < uint64(a.w) {
			k = int(b.Uint64())
		}
		if k == 0 {
			return a
		}
		return c.Sext(c.Extract(a, a.w-1, k), a.w)
	}
	return c.mk(&Term{op: OpAshr, w: a.w, args: []*Term{a, s}})
}

// ---------------------------------------------------------------- arithmetic

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		if a.w <= 64 {
			return c.Const(a.w, a.k+b.k)
		}
		v := new(big.Int).Add(a.big, b.big)
		return c.ConstBig(a.w, v.And(v, bigMask(a.w)))
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.isZero() {
		return b
	}
	if r := c.pieceMerge(a, b, func(x, y *Term) *Term {
		switch {
		case x.isZero():
			return y
		case y.isZero():
			return x
		}
		return nil
	}); r != nil {
		return r
	}
	// a constant goes into constant low bits as far as they reach
	if a.IsConst() && a.w <= 64 {
		if hi, lo, w := lowConst(b); w > 0 {
			return c.plusLow(hi, b, w, a.k+lo)
		}
		if b.op == OpAdd && b.args[0].IsConst() {
			if hi, lo, w := lowConst(b.args[1]); w > 0 {
				return c.plusLow(hi, b.args[1], w, a.k+lo+b.args[0].k)
			}
		}
	}
	// flatten into const + sorted summands with multiplicities
	if a.op == OpAdd || b.op == OpAdd || a.op == OpNeg || b.op == OpNeg || a == b {
		if r := c.sum(a, b); r != nil {
			return r
		}
	}
	if !a.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpAdd, w: a.w, args: []*Term{a, b}})
}

// lowConst splits the constant lowest bits off a concatenation.
func lowConst(t *Term) (hi []*Term, lo uint64, w int) {
	if t.op != OpConcat || t.w > 64 {
		return nil, 0, 0
	}
	l := t.args[len(t.args)-1]
	if !l.IsConst() {
		return nil, 0, 0
	}
	return t.args[:len(t.args)-1], l.k, l.w
}

// plusLow adds k to the concatenation t with its w constant low bits taken as
// zero.
func (c *TermCtx) plusLow(hi []*Term, t *Term, w int, k uint64) *Term {
	k &= mask(t.w)
	if k>>uint(w) == 0 {
		return c.Concat(append(append([]*Term{}, hi...), c.Const(w, k))...)
	}
	z := c.Concat(append(append([]*Term{}, hi...), c.Const(w, 0))...)
	return c.mk(&Term{op: OpAdd, w: t.w, args: []*Term{c.Const(t.w, k), z}})
}

// offset writes t as a base plus a constant that does not overflow.
func (c *TermCtx) offset(t *Term) (*Term, uint64) {
	if t.w > 64 {
		return t, 0
	}
	if t.op == OpAdd && t.args[0].IsConst() {
		if b, k := t.args[1], t.args[0].k; b.rok && k <= mask(t.w)-b.rhi {
			return b, k
		}
	}
	if hi, lo, w := lowConst(t); w > 0 && lo != 0 {
		return c.Concat(append(append([]*Term{}, hi...), c.Const(w, 0))...), lo
	}
	return t, 0
}

func (c *TermCtx) sum(ts ...*Term) *Term {
	w := ts[0].w
	coef := map[int]*big.Int{}
	byID := map[int]*Term{}
	k := new(big.Int)
	ok := true
	var add func(t *Term, m *big.Int, d int)
	add = func(t *Term, m *big.Int, d int) {
		switch {
		case t.IsConst():
			k.Add(k, new(big.Int).Mul(m, t.Big()))
		case t.op == OpAdd && d < 16:
			add(t.args[0], m, d+1)
			add(t.args[1], m, d+1)
		case t.op == OpNeg && d < 16:
			add(t.args[0], new(big.Int).Neg(m), d+1)
		case t.op == OpMul && t.args[0].IsConst():
			add(t.args[1], new(big.Int).Mul(m, t.args[0].Big()), d+1)
		default:
			if x, o := coef[t.id]; o {
				x.Add(x, m)
			} else {
				coef[t.id] = new(big.Int).Set(m)
				byID[t.id] = t
				if len(byID) > 12 {
					ok = false
				}
			}
		}
	}
	for _, t := range ts {
		add(t, big.NewInt(1), 0)
	}
	if !ok {
		return nil
	}
	bm := bigMask(w)
	var l []*Term
	for id, m := range coef {
		m.And(m, bm)
		if m.Sign() == 0 {
			continue
		}
		t := byID[id]
		if m.Cmp(big.NewInt(1)) != 0 {
			if m.Cmp(bm) == 0 {
				t = c.mk(&Term{op: OpNeg, w: w, args: []*Term{t}})
			} else {
				t = c.Mul(c.ConstBig(w, m), t)
			}
		}
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var r *Term
	for _, t := range l {
		if r == nil {
			r = t
		} else {
			r = c.mk(&Term{op: OpAdd, w: w, args: []*Term{r, t}})
		}
	}
	kc := c.ConstBig(w, new(big.Int).And(k, bm))
	if r == nil {
		return kc
	}
	if kc.isZero() {
		return r
	}
	return c.mk(&Term{op: OpAdd, w: w, args: []*Term{kc, r}})
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.IsConst() {
		if a.w <= 64 {
			return c.Const(a.w, -a.k)
		}
		v := new(big.Int).Neg(a.big)
		return c.ConstBig(a.w, v.And(v, bigMask(a.w)))
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	return c.mk(&Term{op: OpNeg, w: a.w, args: []*Term{a}})
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.ConstBig(a.w, new(big.Int))
	}
	if b.isZero() {
		return a
	}
	return c.Add(a, c.Neg(b))
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		if a.w <= 64 {
			return c.Const(a.w, a.k*b.k)
		}
		v := new(big.Int).Mul(a.big, b.big)
		return c.ConstBig(a.w, v.And(v, bigMask(a.w)))
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		v := a.Big()
		if v.Sign() == 0 {
			return a
		}
		if v.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if a.isOnes() {
			return c.Neg(b)
		}
		if n := v.BitLen(); v.TrailingZeroBits() == uint(n-1) {
			return c.ShlK(b, n-1)
		}
		if b.op == OpMul && b.args[0].IsConst() {
			return c.Mul(c.Mul(a, b.args[0]), b.args[1])
		}
		if b.op == OpAdd && b.args[0].IsConst() {
			return c.Add(c.Mul(a, b.args[0]), c.Mul(a, b.args[1]))
		}
	}
	if !a.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Udiv(a, b *Term) *Term {
	if b.IsConst() && a.IsConst() && !b.isZero() {
		if a.w <= 64 {
			return c.Const(a.w, a.k/b.k)
		}
		return c.ConstBig(a.w, new(big.Int).Div(a.big, b.big))
	}
	if b.IsConst() && !b.isZero() {
		v := b.Big()
		if n := v.BitLen(); v.TrailingZeroBits() == uint(n-1) {
			return c.LshrK(a, n-1)
		}
	}
	return c.mk(&Term{op: OpUdiv, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Urem(a, b *Term) *Term {
	if b.IsConst() && a.IsConst() && !b.isZero() {
		if a.w <= 64 {
			return c.Const(a.w, a.k%b.k)
		}
		return c.ConstBig(a.w, new(big.Int).Mod(a.big, b.big))
	}
	if b.IsConst() && !b.isZero() {
		v := b.Big()
		if n := v.BitLen(); v.TrailingZeroBits() == uint(n-1) {
			if n == 1 {
				return c.ConstBig(a.w, new(big.Int))
			}
			return c.Zext(c.Extract(a, n-2, 0), a.w)
		}
	}
	return c.mk(&Term{op: OpUrem, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Sdiv(a, b *Term) *Term {
	if c.signZero(a) && c.signZero(b) {
		return c.Udiv(a, b)
	}
	if b.IsConst() && a.IsConst() && !b.isZero() && a.w <= 64 {
		if b.Signed() == -1 {
			return c.Neg(a)
		}
		return c.Const(a.w, uint64(a.Signed()/b.Signed()))
	}
	if b.IsConst() && b.w == 64 {
		if c0, k, s, ok := c.scaled(a); ok && c0 == 0 && k == b.Signed() {
			return s
		}
	}
	return c.mk(&Term{op: OpSdiv, w: a.w, args: []*Term{a, b}})
}

func (c *TermCtx) Srem(a, b *Term) *Term {
	if c.signZero(a) && c.signZero(b) {
		return c.Urem(a, b)
	}
	if b.IsConst() && a.IsConst() && !b.isZero() && a.w <= 64 {
		if b.Signed() == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(a.Signed()%b.Signed()))
	}
	return c.mk(&Term{op: OpSrem, w: a.w, args: []*Term{a, b}})
}

// ---------------------------------------------------------------- comparisons

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Big().Cmp(b.Big()) < 0)
	}
	if b.isZero() || a.isOnes() {
		return c.False
	}
	if a.w <= 64 && a.rok && b.rok {
		if a.rhi < b.rlo {
			return c.True
		}
		if a.rlo >= b.rhi {
			return c.False
		}
	}
	if x, k := c.offset(a); true {
		if y, l := c.offset(b); x == y {
			return c.Bool(k < l)
		}
	}
	if x, y, ok := c.stripZ(a, b); ok {
		return c.Ult(x, y)
	}
	if b.IsConst() && b.w <= 64 && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	return c.mk(&Term{op: OpUlt, w: 0, args: []*Term{a, b}})
}

// stripZ removes common leading constant-zero bits.
func (c *TermCtx) stripZ(a, b *Term) (*Term, *Term, bool) {
	lz := func(t *Term) int {
		if t.IsConst() {
			return t.w - t.Big().BitLen()
		}
		if t.op == OpConcat && t.args[0].isZero() {
			return t.args[0].w
		}
		return 0
	}
	n := lz(a)
	if m := lz(b); m < n {
		n = m
	}
	if n > 0 && n < a.w {
		return c.Extract(a, a.w-1-n, 0), c.Extract(b, b.w-1-n, 0), true
	}
	return nil, nil, false
}

func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Big().Cmp(b.Big()) <= 0)
	}
	if a.isZero() || b.isOnes() {
		return c.True
	}
	if a.w <= 64 && a.rok && b.rok {
		if a.rhi <= b.rlo {
			return c.True
		}
		if a.rlo > b.rhi {
			return c.False
		}
	}
	if x, k := c.offset(a); true {
		if y, l := c.offset(b); x == y {
			return c.Bool(k <= l)
		}
	}
	if x, y, ok := c.stripZ(a, b); ok {
		return c.Ule(x, y)
	}
	if b.isZero() {
		return c.Eq(a, b)
	}
	// canonical: const on a side becomes strict
	if a.IsConst() && a.w <= 64 {
		return c.Ult(c.Const(a.w, a.k-1), b)
	}
	if b.IsConst() && b.w <= 64 {
		return c.Ult(a, c.Const(b.w, b.k+1))
	}
	return c.mk(&Term{op: OpUle, w: 0, args: []*Term{a, b}})
}

// scaled writes a 64-bit t as c0 + k*s without overflow, k > 0 constant and s
// sign-extended from fewer bits.
func (c *TermCtx) scaled(t *Term) (c0, k int64, s *Term, ok bool) {
	if t.w != 64 {
		return
	}
	if t.op == OpAdd && t.args[0].IsConst() {
		c0, t = t.args[0].Signed(), t.args[1]
	}
	if t.op != OpMul || !t.args[0].IsConst() {
		return
	}
	k, s = t.args[0].Signed(), t.args[1]
	n := 64
	switch {
	case s.op == OpSext:
		n = s.args[0].w
	case s.op == OpConcat && s.args[0].isZero():
		n = 65 - s.args[0].w
	}
	if k <= 0 || n > 62 {
		return
	}
	m := new(big.Int).Lsh(big.NewInt(k), uint(n-1))
	m.Add(m, new(big.Int).Abs(big.NewInt(c0)))
	ok = m.BitLen() <= 63
	return
}

// floorSub is floor((a-b)/k), which fits if k > 1 or b is 0.
func floorSub(a, b, k int64) *big.Int {
	v := new(big.Int).Sub(big.NewInt(a), big.NewInt(b))
	return v.Div(v, big.NewInt(k)) // Euclidean, k > 0
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.IsConst() && a.w == 64 {
		if c0, k, s, ok := c.scaled(b); ok {
			if q := floorSub(a.Signed(), c0, k); q.IsInt64() {
				return c.Slt(c.Const(64, uint64(q.Int64())), s)
			}
		}
	}
	if b.IsConst() && b.w == 64 {
		if c0, k, s, ok := c.scaled(a); ok {
			// s < ceil((v-c0)/k)
			if q := floorSub(c0, b.Signed(), k); q.Neg(q).IsInt64() {
				return c.Slt(s, c.Const(64, uint64(q.Int64())))
			}
		}
	}
	za, zb := c.signZero(a), c.signZero(b)
	if oa, ob := c.signOne(a), c.signOne(b); za && zb || oa && ob {
		return c.Ult(a, b)
	} else if za && ob {
		return c.False
	} else if oa && zb {
		return c.True
	}
	if b.isZero() && a.w > 1 {
		return c.Eq(c.Extract(a, a.w-1, a.w-1), c.Const(1, 1))
	}
	if zb && a.IsConst() && !za {
		return c.True
	}
	if za && b.IsConst() && !zb {
		return c.False
	}
	return c.mk(&Term{op: OpSlt, w: 0, args: []*Term{a, b}})
}

func (c *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() && a.w <= 64 {
		return c.Bool(a.Signed() <= b.Signed())
	}
	za, zb := c.signZero(a), c.signZero(b)
	if oa, ob := c.signOne(a), c.signOne(b); za && zb || oa && ob {
		return c.Ule(a, b)
	} else if za && ob {
		return c.False
	} else if oa && zb {
		return c.True
	}
	if a.isZero() && b.w > 1 {
		return c.Eq(c.Extract(b, b.w-1, b.w-1), c.Const(1, 0))
	}
	if zb && a.IsConst() && !za {
		return c.True
	}
	if za && b.IsConst() && !zb {
		return c.False
	}
	if a.IsConst() && a.w <= 64 && a.Signed() != -1<<uint(a.w-1) {
		return c.Slt(c.Const(a.w, a.k-1), b)
	}
	if b.IsConst() && b.w <= 64 && uint64(b.Signed()) != mask(b.w-1) {
		return c.Slt(a, c.Const(b.w, b.k+1))
	}
	return c.mk(&Term{op: OpSle, w: 0, args: []*Term{a, b}})
}

// ---------------------------------------------------------------- intervals

func (c *TermCtx) setRange(t *Term) {
	if t.w == 0 || t.w > 64 {
		return
	}
	m := mask(t.w)
	t.rok = true
	t.rlo, t.rhi = 0, m
	a := func(i int) *Term { return t.args[i] }
	switch t.op {
	case OpConst:
		t.rlo, t.rhi = t.k, t.k
	case OpIte:
		x, y := a(1), a(2)
		t.rlo, t.rhi = min(x.rlo, y.rlo), max(x.rhi, y.rhi)
	case OpConcat:
		var lo, hi uint64
		for _, x := range t.args {
			lo = lo<<uint(x.w) | x.rlo
			hi = hi<<uint(x.w) | x.rhi
		}
		t.rlo, t.rhi = lo, hi
	case OpAdd:
		x, y := a(0), a(1)
		s1, c1 := bits.Add64(x.rlo, y.rlo, 0)
		s2, c2 := bits.Add64(x.rhi, y.rhi, 0)
		if c1 == 0 && c2 == 0 && s2 <= m {
			t.rlo, t.rhi = s1, s2
		}
	case OpMul:
		x, y := a(0), a(1)
		h, l := bits.Mul64(x.rhi, y.rhi)
		if h == 0 && l <= m {
			t.rlo, t.rhi = x.rlo*y.rlo, l
		}
	case OpUdiv:
		x, y := a(0), a(1)
		if y.rlo > 0 {
			t.rlo, t.rhi = x.rlo/y.rhi, x.rhi/y.rlo
		}
	case OpUrem:
		x, y := a(0), a(1)
		if y.rlo > 0 {
			t.rhi = min(x.rhi, y.rhi-1)
		}
	case OpBand:
		t.rhi = min(a(0).rhi, a(1).rhi)
	case OpBor:
		t.rlo = max(a(0).rlo, a(1).rlo)
		n := bits.Len64(a(0).rhi | a(1).rhi)
		t.rhi = mask(n)
	case OpBxor:
		n := bits.Len64(a(0).rhi | a(1).rhi)
		t.rhi = mask(n)
	case OpLshr:
		t.rhi = a(0).rhi
	case OpExtract:
		if a(0).w <= 64 && t.k == 0 && a(0).rhi <= m {
			t.rlo, t.rhi = a(0).rlo, a(0).rhi
		}
	}
}

// ---------------------------------------------------------------- free symbols

// symbols returns the sorted ids of variables and UF names occurring in t.
func (c *TermCtx) symbols(t *Term) []int {
	if t.varsC {
		return t.vars
	}
	var rec func(t *Term) []int
	rec = func(t *Term) []int {
		if t.varsC {
			return t.vars
		}
		var r []int
		if t.op == OpVar {
			r = []int{t.id}
		} else if len(t.args) == 1 && t.op != OpUF {
			r = rec(t.args[0])
		} else {
			m := map[int]bool{}
			if t.op == OpUF {
				id, ok := c.ufID[t.name]
				if !ok {
					id = -(len(c.ufID) + 1)
					c.ufID[t.name] = id
				}
				m[id] = true
			}
			var big []int
			for _, a := range t.args {
				v := rec(a)
				if len(v) > len(big) {
					big = v
				}
				for _, x := range v {
					m[x] = true
				}
			}
			if len(m) == len(big) {
				r = big
			} else {
				for x := range m {
					r = append(r, x)
				}
				sort.Ints(r)
			}
		}
		t.vars, t.varsC = r, true
		return r
	}
	return rec(t)
}

// ---------------------------------------------------------------- evaluation

type ufKey struct {
	name string
	args string
}

// Model maps variables (by term id) and UF applications to values.
type Model struct {
	v  map[int]*big.Int
	uf map[ufKey]*big.Int
}

func NewModel() *Model { return &Model{v: map[int]*big.Int{}, uf: map[ufKey]*big.Int{}} }

type evaluator struct {
	c *TermCtx
	m *Model
	// memo: uint64 for w<=64, big otherwise
	small map[int]uint64
	bigs  map[int]*big.Int
}

func (c *TermCtx) evaluator(m *Model) *evaluator {
	return &evaluator{c: c, m: m, small: map[int]uint64{}, bigs: map[int]*big.Int{}}
}

func (e *evaluator) Big(t *Term) *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(e.U(t))
	}
	if t.op == OpConst {
		return t.big
	}
	if v, ok := e.bigs[t.id]; ok {
		return v
	}
	v := e.evalBig(t)
	e.bigs[t.id] = v
	return v
}

func (e *evaluator) ufArgs(t *Term) string {
	var sb strings.Builder
	for _, a := range t.args {
		sb.WriteString(e.Big(a).Text(16))
		sb.WriteByte(',')
	}
	return sb.String()
}

func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return v
}

func (e *evaluator) evalBig(t *Term) *big.Int {
	m := bigMask(t.w)
	A := func(i int) *big.Int { return e.Big(t.args[i]) }
	r := new(big.Int)
	switch t.op {
	case OpVar:
		if v, ok := e.m.v[t.id]; ok {
			return v
		}
		return r
	case OpUF:
		if v, ok := e.m.uf[ufKey{t.name, e.ufArgs(t)}]; ok {
			return v
		}
		return r
	case OpIte:
		if e.U(t.args[0]) != 0 {
			return A(1)
		}
		return A(2)
	case OpConcat:
		for _, a := range t.args {
			r.Lsh(r, uint(a.w))
			r.Or(r, e.Big(a))
		}
		return r
	case OpExtract:
		return r.And(r.Rsh(A(0), uint(t.k)), m)
	case OpSext:
		return r.And(sgn(A(0), t.args[0].w), m)
	case OpAdd:
		return r.And(r.Add(A(0), A(1)), m)
	case OpMul:
		return r.And(r.Mul(A(0), A(1)), m)
	case OpNeg:
		return r.And(r.Neg(A(0)), m)
	case OpBand:
		return r.And(A(0), A(1))
	case OpBor:
		return r.Or(A(0), A(1))
	case OpBxor:
		return r.Xor(A(0), A(1))
	case OpBnot:
		return r.Xor(A(0), m)
	case OpUdiv:
		if A(1).Sign() == 0 {
			return m
		}
		return r.Div(A(0), A(1))
	case OpUrem:
		if A(1).Sign() == 0 {
			return A(0)
		}
		return r.Mod(A(0), A(1))
	case OpShl:
		if s := A(1); s.IsUint64() && s.Uint64() < uint64(t.w) {
			return r.And(r.Lsh(A(0), uint(s.Uint64())), m)
		}
		return r
	case OpLshr:
		if s := A(1); s.IsUint64() && s.Uint64() < uint64(t.w) {
			return r.Rsh(A(0), uint(s.Uint64()))
		}
		return r
	}
	panic(fmt.Sprintf("evalBig: op %d", t.op))
}

// U evaluates a term of width <= 64 (or Bool).
func (e *evaluator) U(t *Term) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if v, ok := e.small[t.id]; ok {
		return v
	}
	v := e.evalU(t)
	if t.w > 0 {
		v &= mask(t.w)
	}
	e.small[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) evalU(t *Term) uint64 {
	a := func(i int) uint64 { return e.U(t.args[i]) }
	s := func(i int) int64 {
		w := t.args[i].w
		return int64(a(i)<<uint(64-w)) >> uint(64-w)
	}
	wide := len(t.args) > 0 && t.args[0].w > 64
	switch t.op {
	case OpVar:
		if v, ok := e.m.v[t.id]; ok {
			return v.Uint64()
		}
		return 0
	case OpUF:
		if v, ok := e.m.uf[ufKey{t.name, e.ufArgs(t)}]; ok {
			return v.Uint64()
		}
		return 0
	case OpNot:
		return 1 - a(0)
	case OpAnd:
		for i := range t.args {
			if a(i) == 0 {
				return 0
			}
		}
		return 1
	case OpOr:
		for i := range t.args {
			if a(i) != 0 {
				return 1
			}
		}
		return 0
	case OpEq:
		if wide {
			return b2u(e.Big(t.args[0]).Cmp(e.Big(t.args[1])) == 0)
		}
		return b2u(a(0) == a(1))
	case OpIte:
		if a(0) != 0 {
			return a(1)
		}
		return a(2)
	case OpConcat:
		var r uint64
		for i, x := range t.args {
			r = r<<uint(x.w) | a(i)
		}
		return r
	case OpExtract:
		if wide {
			return new(big.Int).And(new(big.Int).Rsh(e.Big(t.args[0]), uint(t.k)), bigMask(64)).Uint64()
		}
		return a(0) >> uint(t.k)
	case OpSext:
		return uint64(s(0))
	case OpAdd:
		return a(0) + a(1)
	case OpSub:
		return a(0) - a(1)
	case OpMul:
		return a(0) * a(1)
	case OpNeg:
		return -a(0)
	case OpUdiv:
		if a(1) == 0 {
			return ^uint64(0)
		}
		return a(0) / a(1)
	case OpUrem:
		if a(1) == 0 {
			return a(0)
		}
		return a(0) % a(1)
	case OpSdiv:
		if a(1) == 0 {
			if s(0) < 0 {
				return 1
			}
			return ^uint64(0)
		}
		if s(1) == -1 {
			return -a(0)
		}
		return uint64(s(0) / s(1))
	case OpSrem:
		if a(1) == 0 {
			return a(0)
		}
		if s(1) == -1 {
			return 0
		}
		return uint64(s(0) % s(1))
	case OpBand:
		return a(0) & a(1)
	case OpBor:
		return a(0) | a(1)
	case OpBxor:
		return a(0) ^ a(1)
	case OpBnot:
		return ^a(0)
	case OpShl:
		if a(1) >= uint64(t.w) {
			return 0
		}
		return a(0) << a(1)
	case OpLshr:
		if a(1) >= uint64(t.w) {
			return 0
		}
		return a(0) >> a(1)
	case OpAshr:
		k := a(1)
		if k >= uint64(t.w) {
			k = uint64(t.w - 1)
		}
		return uint64(s(0) >> k)
	case OpUlt:
		if wide {
			return b2u(e.Big(t.args[0]).Cmp(e.Big(t.args[1])) < 0)
		}
		return b2u(a(0) < a(1))
	case OpUle:
		if wide {
			return b2u(e.Big(t.args[0]).Cmp(e.Big(t.args[1])) <= 0)
		}
		return b2u(a(0) <= a(1))
	case OpSlt:
		if wide {
			return b2u(sgn(e.Big(t.args[0]), t.args[0].w).Cmp(sgn(e.Big(t.args[1]), t.args[1].w)) < 0)
		}
		return b2u(s(0) < s(1))
	case OpSle:
		if wide {
			return b2u(sgn(e.Big(t.args[0]), t.args[0].w).Cmp(sgn(e.Big(t.args[1]), t.args[1].w)) <= 0)
		}
		return b2u(s(0) <= s(1))
	}
	panic(fmt.Sprintf("evalU: op %d", t.op))
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%s#%d", t.Big().Text(16), t.w)
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	names := map[Op]string{OpUF: t.name, OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpConcat: "++", OpExtract: fmt.Sprintf("x[%d+%d]", t.k, t.w), OpSext: "sext", OpAdd: "+", OpSub: "-", OpMul: "*", OpUdiv: "udiv", OpUrem: "urem", OpSdiv: "sdiv", OpSrem: "srem", OpBand: "&", OpBor: "|", OpBxor: "^", OpBnot: "~", OpNeg: "neg", OpShl: "<<", OpLshr: ">>", OpAshr: ">>s", OpUlt: "u<", OpUle: "u<=", OpSlt: "s<", OpSle: "s<="}
	var sb strings.Builder
	sb.WriteString("(" + names[t.op])
	for i, a := range t.args {
		if i > 20 {
			sb.WriteString(" ...")
			break
		}
		sb.WriteString(" " + a.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}
