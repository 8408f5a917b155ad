package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"gosym/blake2b"
)

const bpPkg = "github.com/yoss22/bulletproofs"

var secpP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

func modSqrtFast(a *big.Int) *big.Int {
	e := new(big.Int).Add(secpP, big.NewInt(1))
	e.Rsh(e, 2)
	return new(big.Int).Exp(a, e, secpP)
}

func isQR(y *big.Int) bool {
	e := new(big.Int).Sub(secpP, big.NewInt(1))
	e.Rsh(e, 1)
	return new(big.Int).Exp(y, e, secpP).Cmp(big.NewInt(1)) == 0
}

func lift(xc *big.Int, sign uint64) *big.Int {
	x3 := new(big.Int).Mul(xc, xc)
	x3.Mul(x3, xc)
	x3.Add(x3, big.NewInt(7))
	y := modSqrtFast(x3)
	if sign&1 != 0 {
		y = new(big.Int).Sub(secpP, y)
	}
	return y
}

// digest models a hash function: real on constants, uninterpreted otherwise.
func digest(name string, f func([]byte) [32]byte) intrinsic {
	return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.bytesOf(st, args[0].(Slice))
		r := make(Agg, 32)
		if c, ok := concreteBytes(b); ok {
			h := f(c)
			for i := range r {
				r[i] = x.c.Const(8, uint64(h[i]))
			}
			return r
		}
		t := x.uf(name, 256, b)
		for i := range r {
			k := 31 - i
			r[i] = x.c.Extract(t, k*8+7, k*8)
		}
		return r
	}
}

func cryptoIntrinsics(m map[string]intrinsic) {
	m["golang.org/x/crypto/blake2b.Sum256"] = digest("blake2b256", func(b []byte) [32]byte { return blake2b.Sum256(b) })
	m["crypto/sha256.Sum256"] = digest("sha256", func(b []byte) [32]byte { return sha256.Sum256(b) })
	m[shimPkg+".Sha256"] = m["crypto/sha256.Sum256"]

	sh := shimPkg + "."
	// LiftX(x, sign) computes the y coordinate selected by Point.Read.
	m[sh+"liftX"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		// dst *big.Int, x *big.Int, sign byte
		b := x.bigAt(st, args[1])
		s := x.term(args[2])
		if c, ok := b.concrete(); ok && s.IsConst() {
			x.bigSet(st, args[0], x.bigConst(lift(c, s.k)))
			return nil
		}
		w := max(512, b.mag.w)
		sg := x.c.Extract(s, 0, 0)
		y := x.c.UF(fmt.Sprintf("liftx/%d", w+8), 254, x.c.Concat(x.c.Zext(b.mag, w), x.c.Zext(sg, 8)))
		y = x.c.Concat(x.c.Const(1, 0), x.c.Concat(x.c.Bnot(sg), y))
		x.bigSet(st, args[0], BigVal{x.c.False, y})
		return nil
	}
	m[sh+"nonResidue"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.c.Ite(x.qr(x.bigAt(st, args[0]).mag), x.c.Const(8, 0), x.c.Const(8, 1))
	}
	m["github.com/yoss22/bulletproofs.IsQuadraticResidue"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.bigAt(st, args[0])
		return x.qr(b.mag)
	}
	m["github.com/yoss22/bulletproofs.GetB32"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.bigAt(st, args[0])
		w := max(256, b.mag.w)
		mg := x.c.Zext(b.mag, w)
		if w > 256 && !x.split(st, x.c.Eq(x.c.Extract(mg, w-1, 256), x.c.Const(w-256, 0))) {
			x.rtPanic(st, "slice bounds out of range (GetB32)")
			return nil
		}
		r := make(Agg, 32)
		for i := range r {
			k := 31 - i
			r[i] = x.c.Extract(mg, k*8+7, k*8)
		}
		return r
	}
	m["github.com/yoss22/bulletproofs.ModSqrtFast"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.bigAt(st, args[0])
		t := deref(at.(*ssa.Call).Type())
		if c, ok := b.concrete(); ok {
			return x.newBig(st, t, x.bigConst(modSqrtFast(c)))
		}
		w := max(1024, b.mag.w)
		return x.newBig(st, t, BigVal{x.c.False, x.c.Concat(x.c.Const(2, 1), x.c.UF(fmt.Sprintf("modsqrt/%d", w), 254, x.c.Zext(b.mag, w)))})
	}
	// NewProver and Verify: range proof verification is an uninterpreted predicate
	// of the commitment and the proof.
	m["github.com/yoss22/bulletproofs.NewProver"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		t := deref(at.(*ssa.Call).Type())
		o := x.newObj(st, t, x.size(t))
		x.setCell(o, 0, args[0])
		return Ptr{o.id, 0}
	}
	m["(*github.com/yoss22/bulletproofs.Prover).Verify"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		args[0].(Ptr).cell0(x, st)
		call := at.(*ssa.Call)
		ts := append(x.flatT(st, args[1], call.Call.Args[1].Type(), 0), x.flatT(st, args[2], call.Call.Args[2].Type(), 0)...)
		return x.c.Eq(x.uf("rangeproof", 8, ts), x.c.Const(8, 1))
	}
	// group operations on points, by coordinates
	m["github.com/yoss22/bulletproofs.ScalarMulPoint"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.pointUF(st, "scalarmul", x.flatArgs(st, args, at), at)
	}
	m["github.com/yoss22/bulletproofs.SumPoints"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.pointUF(st, "sumpoints", x.flatArgs(st, args, at), at)
	}
}

func (p Ptr) cell0(x *Exec, st *State) Value {
	if p.obj == 0 {
		unsup("nil prover")
	}
	return x.cell(st.heap.get(p.obj), p.off)
}

func (x *Exec) pointUF(st *State, name string, ts []*Term, at ssa.Instruction) Value {
	pt := deref(at.(*ssa.Call).Type())
	t := x.uf(name, 512, ts)
	for _, k := range []int{0, 256} { // coordinates are reduced
		x.assume(st, x.c.Ult(x.c.Extract(t, k+255, k), x.c.ConstBig(256, secpP)))
	}
	o := x.newObj(st, pt, x.size(pt))
	bt := deref(x.leafAt(pt, 0))
	x.setCell(o, 0, x.newBig(st, bt, BigVal{x.c.False, x.c.Extract(t, 511, 256)}))
	x.setCell(o, 1, x.newBig(st, bt, BigVal{x.c.False, x.c.Extract(t, 255, 0)}))
	return Ptr{o.id, 0}
}

// qr decides whether y is a quadratic residue. The y coordinates of symbolic points
// carry the answer in bit 254 (their values are arbitrary but for that).
func (x *Exec) qr(t *Term) *Term {
	switch {
	case t.IsConst():
		return x.c.Bool(isQR(t.Big()))
	case t.op == OpIte:
		return x.c.Ite(t.args[0], x.qr(t.args[1]), x.qr(t.args[2]))
	case t.op == OpAdd && len(t.args) == 2:
		for i := range t.args {
			if k, n := t.args[i], t.args[1-i]; k.IsConst() && k.Big().Cmp(secpP) == 0 && n.op == OpNeg {
				return x.c.Not(x.qr(n.args[0]))
			}
		}
	}
	return x.c.Eq(x.c.Extract(x.c.Zext(t, max(256, t.w)), 254, 254), x.c.Const(1, 1))
}
