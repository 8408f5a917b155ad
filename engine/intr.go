package main

// Models of library functions that are not interpreted from source.

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"net"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(x *Exec, st *State, args []Value, at ssa.Instruction) Value

var intrinsics = map[string]intrinsic{}

const ndPkg = "github.com/dblokhin/gringo/verifnd"
const shimPkg = "github.com/dblokhin/gringo/verifshim"

func (x *Exec) findIntrinsic(name string, fn *ssa.Function) intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	if h := x.h; h != nil && h.UF != nil && h.UF[name] {
		return ufIntrinsic(name)
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch pkg {
	case "github.com/sirupsen/logrus":
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") {
			return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
				return x.exit(st, "process exit: logrus."+n)
			}
		}
		if strings.HasPrefix(n, "Panic") {
			return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
				x.doPanic(st, Iface{x.eng.rtErr, Str{s: "logrus.Panic"}}, "panic: logrus."+n)
				return nil
			}
		}
		if n == "init" {
			return nil
		}
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value { return nil }
	}
	return nil
}

// exit models process termination.
func (x *Exec) exit(st *State, msg string) Value {
	x.oblige("no process exit")
	x.violate(st, "exit", msg+"\n"+firstLines(x.stack(st), 3), st.ev, nil, st.known)
	x.finish(st, "violation")
	return nil
}

func (x *Exec) cstr(v Value) string {
	s, ok := v.(Str)
	if !ok || s.b != nil {
		unsup("symbolic string where a constant is needed")
	}
	return s.s
}

func (x *Exec) cint(st *State, v Value) int64 { return int64(x.concretize(st, x.term(v))) }

// flat lists the scalar terms of a value for use as uninterpreted arguments.
func (x *Exec) flat(st *State, v Value, d int) []*Term {
	if d > 6 {
		unsup("uninterpreted argument too deep")
	}
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return []*Term{x.c.Ite(v, x.c.Const(8, 1), x.c.Const(8, 0))}
		}
		return []*Term{v}
	case Agg:
		var r []*Term
		for _, e := range v {
			r = append(r, x.flat(st, e, d+1)...)
		}
		return r
	case Slice:
		var r []*Term
		n := x.constLen(st, v)
		if n == 0 {
			return nil
		}
		o := st.heap.get(v.obj)
		k := x.size(o.ty)
		_ = k
		for i := 0; i < n; i++ {
			r = append(r, x.flat(st, x.cell(o, v.off+i), d+1)...)
		}
		return r
	case Str:
		return x.strBytes(v)
	case Ptr:
		if v.obj == 0 {
			return []*Term{x.c.Const(8, 0)}
		}
		o := st.heap.get(v.obj)
		n := x.size(o.ty)
		var r []*Term
		for i := 0; i < n; i++ {
			r = append(r, x.flat(st, x.cell(o, v.off+i), d+1)...)
		}
		return r
	case BigVal:
		return []*Term{x.c.Zext(v.mag, max(v.mag.w, 512))}
	case Iface:
		return x.flat(st, v.v, d+1)
	case MutexVal:
		return nil
	}
	unsup("uninterpreted argument %T", v)
	return nil
}

// flatT lists scalars following the type; points of the curve are
// represented by x and the residuosity of y.
func (x *Exec) flatT(st *State, v Value, t types.Type, d int) []*Term {
	if d > 8 {
		unsup("uninterpreted argument too deep")
	}
	if isNamed(t, bpPkg, "Point") {
		a := v.(Agg)
		px, py := a[0].(Ptr), a[1].(Ptr)
		if px.obj == 0 || py.obj == 0 {
			return []*Term{x.c.Const(8, 0)}
		}
		bx, by := x.bigAt(st, px), x.bigAt(st, py)
		q := x.c.Ite(x.qr(by.mag), x.c.Const(8, 1), x.c.Const(8, 0))
		return []*Term{x.c.Zext(bx.mag, max(bx.mag.w, 512)), q}
	}
	if atomicLeaf(t) {
		return x.flat(st, v, d)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := v.(Agg)
		o := x.offsets(u)
		var r []*Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			r = append(r, x.flatT(st, x.sub(a, o[i], o[i+1], ft), ft, d+1)...)
		}
		return r
	case *types.Array:
		a := v.(Agg)
		n := x.size(u.Elem())
		var r []*Term
		for i := 0; i < int(u.Len()); i++ {
			r = append(r, x.flatT(st, x.sub(a, i*n, (i+1)*n, u.Elem()), u.Elem(), d+1)...)
		}
		return r
	case *types.Pointer:
		if p, ok := v.(Ptr); ok && p.obj == 0 {
			return []*Term{x.c.Const(8, 0)}
		}
		return x.flatT(st, x.load(st, v, u.Elem()), u.Elem(), d+1)
	case *types.Slice:
		s := v.(Slice)
		n := x.constLen(st, s)
		var r []*Term
		for i := 0; i < n; i++ {
			r = append(r, x.flatT(st, x.sliceElem(st, s, i, u.Elem()), u.Elem(), d+1)...)
		}
		return r
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return []*Term{x.c.Const(8, 0)}
		}
		return x.flatT(st, i.v, i.t, d+1)
	}
	return x.flat(st, v, d)
}

// flatArgs flattens the arguments of a static call.
func (x *Exec) flatArgs(st *State, args []Value, at ssa.Instruction) []*Term {
	call, ok := at.(*ssa.Call)
	if !ok {
		unsup("uninterpreted function outside a call")
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.flatT(st, a, call.Call.Args[i].Type(), 0)...)
	}
	return ts
}

// uf applies an uninterpreted function of width w, split into words for wide results.
func (x *Exec) uf(name string, w int, args []*Term) *Term {
	if len(args) == 0 {
		args = []*Term{x.c.Const(8, 0)}
	}
	a := x.c.Concat(args...)
	return x.c.UF(fmt.Sprintf("%s/%d", name, a.w), w, a)
}

// ufIntrinsic replaces a scalar function by an uninterpreted one.
func ufIntrinsic(name string) intrinsic {
	return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		ts := x.flatArgs(st, args, at)
		call, ok := at.(*ssa.Call)
		if !ok {
			unsup("uninterpreted %s outside a call", name)
		}
		rt := call.Type()
		b, ok := rt.Underlying().(*types.Basic)
		if !ok {
			unsup("uninterpreted %s with result %s", name, rt)
		}
		w, _ := basicWidth(b)
		if b.Info()&types.IsBoolean != 0 {
			return x.c.Eq(x.uf(name, 8, ts), x.c.Const(8, 1))
		}
		if w < 8 {
			unsup("uninterpreted %s with result %s", name, rt)
		}
		return x.uf(name, w, ts)
	}
}

func nop(x *Exec, st *State, args []Value, at ssa.Instruction) Value { return nil }

func (x *Exec) fresh(st *State, name string, w int) *Term {
	x.freshN++
	return x.c.Var(fmt.Sprintf("$%s.%d", name, x.freshN), w)
}

// setLeaf stores through a pointer to a single cell.
func (x *Exec) setLeaf(st *State, p Value, v Value) {
	q := x.leafPtr(st, p)
	x.setCell(st.heap.mut(q.obj), q.off, v)
}

func init() {
	syncIntrinsics(intrinsics)
	ndIntrinsics(intrinsics)
	bigIntrinsics(intrinsics)
	libIntrinsics(intrinsics)
	cryptoIntrinsics(intrinsics)
}

// ---------------------------------------------------------------- harness primitives

func ndIntrinsics(m map[string]intrinsic) {
	p := ndPkg + "."
	scalar := func(w int) intrinsic {
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			return x.nondet(st, x.cstr(args[0]), w)
		}
	}
	m[p+"U8"] = scalar(8)
	m[p+"U16"] = scalar(16)
	m[p+"U32"] = scalar(32)
	m[p+"U64"] = scalar(64)
	m[p+"I64"] = scalar(64)
	m[p+"Bool"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		t := x.nondet(st, x.cstr(args[0]), 8)
		x.assume(st, x.c.Ult(t, x.c.Const(8, 2)))
		return x.c.Eq(t, x.c.Const(8, 1))
	}
	m[p+"Int"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		t := x.nondet(st, x.cstr(args[0]), 64)
		x.assume(st, x.c.And(x.c.Sle(x.term(args[1]), t), x.c.Sle(t, x.term(args[2]))))
		return t
	}
	m[p+"Bytes"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		name := x.cstr(args[0])
		n := int(x.cint(st, args[1]))
		k := st.names[name]
		st.names[name] = k + 1
		b := make([]*Term, n)
		for i := range b {
			b[i] = x.c.Var(fmt.Sprintf("%s#%d[%d]", name, k, i), 8)
		}
		st.nd = &ndNode{name, k, b, st.nd}
		return x.newBytes(st, b)
	}
	m[p+"Choose"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		name := x.cstr(args[0])
		n := int(x.cint(st, args[1]))
		k := x.choose(st, n)
		idx := st.names[name]
		st.names[name] = idx + 1
		t := x.k64(int64(k))
		st.nd = &ndNode{name, idx, []*Term{t}, st.nd}
		return t
	}
	m[p+"Assume"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		x.assume(st, x.term(args[0]))
		return nil
	}
	m[p+"Assert"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		msg := x.cstr(args[1])
		x.assert(st, x.term(args[0]), msg, st.known)
		return nil
	}
	m[p+"Cover"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		n := x.cstr(args[0])
		c := x.covers[n]
		if c == nil {
			c = &cover{}
			x.covers[n] = c
		}
		c.Hits++
		if c.Hits == 1 && len(x.samples) < 6 {
			s := x.values(st, st.ev)
			s["@cover"] = []string{n}
			s["@events"] = st.evs.list()
			x.samples = append(x.samples, s)
			x.sampleUF = append(x.sampleUF, x.ufTable(st, st.ev, nil))
		}
		return nil
	}
	m[p+"MaxAlloc"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		st.limit = x.cint(st, args[0])
		return nil
	}
	m[p+"Known"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		id := x.cstr(args[0])
		if !x.eng.knownIDs[id] {
			return nil
		}
		if st.known == "" && x.split(st, x.term(args[1])) {
			st.known = id
		}
		return nil
	}
	m[p+"WaitIdle"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		g := st.g()
		if g.slept { // resumed
			g.slept = false
			if x.opt.Race { // what follows is after everything so far
				for _, o := range st.gs {
					g.vc = join(g.vc, o.vc)
					o.tick()
				}
			}
			x.event(st, g, at)
			return nil
		}
		g.slept = true
		x.block(st, &waitOp{kind: "idle"})
		return blockedMark{}
	}
	m[p+"Blocked"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		n := 0
		for i, g := range st.gs {
			if i != st.cur && g.status != gDone && !g.daemon {
				n++
			}
		}
		return x.k64(int64(n))
	}
	m[p+"daemon"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		st.g().daemon = true
		return nil
	}
	m[p+"Baseline"] = nop
	m[p+"Symbolic"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value { return x.c.True }
	m[p+"Concrete"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.c.Const(64, x.concretize(st, x.term(args[0])))
	}
	m[p+"Random"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		n, have := int(x.cint(st, args[0])), st.names["$crand"]
		if n > have {
			n = have
		}
		o := x.newObj(st, types.Typ[types.Uint8], n)
		for i := 0; i < n; i++ {
			vn := "$crand"
			if k := have - n + i; k > 0 {
				vn = fmt.Sprintf("$crand#%d", k)
			}
			x.setCell(o, i, x.c.Var(vn, 8))
		}
		return Slice{o.id, 0, x.k64(int64(n)), x.k64(int64(n))}
	}
	m[p+"RandRead"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value { return x.c.False }
	m[p+"RandU64"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value { return Agg{x.k64(0), x.c.False} }
	m[p+"Thorough"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.c.Bool(x.eng.tier == "thorough")
	}
	m[p+"Shard"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		n := int(x.cint(st, args[0]))
		k := x.h.Shard
		if x.h.Shards <= 1 || x.h.Shards != n {
			k = x.choose(st, n)
		}
		t := x.k64(int64(k))
		idx := st.names["$shard"]
		st.names["$shard"] = idx + 1
		st.nd = &ndNode{"$shard", idx, []*Term{t}, st.nd}
		return t
	}
	m[p+"SetPreempt"] = nop
}

// ---------------------------------------------------------------- math/big

func (x *Exec) bigAt(st *State, v Value) BigVal {
	p := x.leafPtr(st, v)
	if p.obj == 0 {
		unsup("nil big.Int")
	}
	b, ok := x.cell(st.heap.get(p.obj), p.off).(BigVal)
	if !ok {
		if q, ok := x.cell(st.heap.get(p.obj), p.off).(Poison); ok {
			unsup("poison: %s", q.msg)
		}
		unsup("big.Int cell")
	}
	return b
}

func (b BigVal) concrete() (*big.Int, bool) {
	if !b.neg.IsConst() || !b.mag.IsConst() {
		return nil, false
	}
	r := new(big.Int).Set(b.mag.Big())
	if b.neg.k == 1 {
		r.Neg(r)
	}
	return r, true
}

func (x *Exec) bigConst(v *big.Int) BigVal {
	w := (v.BitLen() + 7) / 8 * 8
	if w == 0 {
		w = 8
	}
	return BigVal{x.c.Bool(v.Sign() < 0), x.c.ConstBig(w, new(big.Int).Abs(v))}
}

func (x *Exec) newBig(st *State, t types.Type, b BigVal) Ptr {
	o := x.newObj(st, t, 1)
	x.setCell(o, 0, b)
	return Ptr{o.id, 0}
}

func (x *Exec) bigSet(st *State, z Value, b BigVal) Value {
	p := x.leafPtr(st, z)
	if p.obj == 0 {
		x.rtPanic(st, "invalid memory address or nil pointer dereference")
		return nil
	}
	x.setCell(st.heap.mut(p.obj), p.off, b)
	return p
}

// sgnTerm encodes a big value as a signed bit-vector of width w.
func (x *Exec) bigSigned(b BigVal, w int) *Term {
	m := x.c.Zext(b.mag, w)
	return x.c.Ite(b.neg, x.c.Neg(m), m)
}

func (x *Exec) bigFromSigned(t *Term) BigVal {
	neg := x.c.Slt(t, x.c.Const(t.w, 0))
	return BigVal{neg, x.c.Ite(neg, x.c.Neg(t), t)}
}

func bigIntrinsics(m map[string]intrinsic) {
	q := "(*math/big.Int)."
	// concrete evaluation of arbitrary methods
	type bigOp func(z *big.Int, a []*big.Int) *big.Int
	conc := func(n int, f bigOp, sym func(x *Exec, st *State, a []BigVal) (BigVal, bool)) intrinsic {
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			var bs []BigVal
			var cs []*big.Int
			all := true
			for i := 0; i < n; i++ {
				p := x.leafPtr(st, args[i+1])
				if p.obj == 0 {
					bs = append(bs, BigVal{})
					cs = append(cs, nil)
					continue
				}
				b := x.bigAt(st, args[i+1])
				bs = append(bs, b)
				c, ok := b.concrete()
				all = all && ok
				cs = append(cs, c)
			}
			if all {
				r := f(new(big.Int), cs)
				if r == nil {
					return Ptr{}
				}
				return x.bigSet(st, args[0], x.bigConst(r))
			}
			if sym != nil {
				if r, ok := sym(x, st, bs); ok {
					return x.bigSet(st, args[0], r)
				}
			}
			unsup("symbolic math/big operation")
			return nil
		}
	}
	m[q+"Set"] = conc(1, func(z *big.Int, a []*big.Int) *big.Int { return z.Set(a[0]) },
		func(x *Exec, st *State, a []BigVal) (BigVal, bool) { return a[0], true })
	m[q+"Neg"] = conc(1, func(z *big.Int, a []*big.Int) *big.Int { return z.Neg(a[0]) },
		func(x *Exec, st *State, a []BigVal) (BigVal, bool) {
			zero := x.c.Eq(a[0].mag, x.c.Const(a[0].mag.w, 0))
			return BigVal{x.c.And(x.c.Not(a[0].neg), x.c.Not(zero)), a[0].mag}, true
		})
	m[q+"Add"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.Add(a[0], a[1]) },
		func(x *Exec, st *State, a []BigVal) (BigVal, bool) {
			if a[0].neg.IsFalse() && a[1].neg.IsFalse() {
				w := max(a[0].mag.w, a[1].mag.w) + 1
				return BigVal{x.c.False, x.c.Add(x.c.Zext(a[0].mag, w), x.c.Zext(a[1].mag, w))}, true
			}
			w := max(a[0].mag.w, a[1].mag.w) + 2
			return x.bigFromSigned(x.c.Add(x.bigSigned(a[0], w), x.bigSigned(a[1], w))), true
		})
	m[q+"Sub"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.Sub(a[0], a[1]) },
		func(x *Exec, st *State, a []BigVal) (BigVal, bool) {
			if a[0].neg.IsFalse() && a[1].neg.IsFalse() {
				w := max(a[0].mag.w, a[1].mag.w)
				p, q := x.c.Zext(a[0].mag, w), x.c.Zext(a[1].mag, w)
				neg := x.c.Ult(p, q)
				return BigVal{neg, x.c.Ite(neg, x.c.Sub(q, p), x.c.Sub(p, q))}, true
			}
			w := max(a[0].mag.w, a[1].mag.w) + 2
			return x.bigFromSigned(x.c.Sub(x.bigSigned(a[0], w), x.bigSigned(a[1], w))), true
		})
	m[q+"Mul"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.Mul(a[0], a[1]) },
		func(x *Exec, st *State, a []BigVal) (BigVal, bool) {
			w := a[0].mag.w + a[1].mag.w
			var mg *Term
			if l, r := a[0].mag, a[1].mag; l.w >= 256 && r.w >= 256 && !l.IsConst() && !r.IsConst() {
				if l.id > r.id {
					l, r = r, l
				}
				mg = x.c.UF(fmt.Sprintf("bigmul%d", w), w, x.c.Concat(l, r))
			} else {
				mg = x.c.Mul(x.c.Zext(l, w), x.c.Zext(r, w))
			}
			return BigVal{x.c.And(x.c.Not(x.c.Eq(a[0].neg, a[1].neg)), x.c.Not(x.c.Eq(mg, x.c.Const(w, 0)))), mg}, true
		})
	m[q+"Mod"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.Mod(a[0], a[1]) },
		func(x *Exec, st *State, a []BigVal) (BigVal, bool) {
			if !a[1].neg.IsFalse() {
				return BigVal{}, false
			}
			w := max(a[0].mag.w, a[1].mag.w)
			if m := a[1].mag; m.IsConst() && w >= 256 {
				v := x.c.Zext(a[0].mag, w)
				r := x.c.Ite(x.c.Ult(v, x.c.Zext(m, w)), x.c.Extract(v, m.w-1, 0), x.c.UF(fmt.Sprintf("bigmod%d", w), m.w, x.c.Concat(v, m)))
				neg := x.c.Ite(x.c.Eq(r, x.c.Const(m.w, 0)), r, x.c.Sub(m, r))
				return BigVal{x.c.False, x.c.Ite(a[0].neg, neg, r)}, true
			}
			if !a[0].neg.IsFalse() {
				return BigVal{}, false
			}
			return BigVal{x.c.False, x.c.Urem(x.c.Zext(a[0].mag, w), x.c.Zext(a[1].mag, w))}, true
		})
	m[q+"Exp"] = conc(3, func(z *big.Int, a []*big.Int) *big.Int { return z.Exp(a[0], a[1], a[2]) }, nil)
	m[q+"ModInverse"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.ModInverse(a[0], a[1]) }, nil)
	m[q+"ModSqrt"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.ModSqrt(a[0], a[1]) }, nil)
	m[q+"Quo"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.Quo(a[0], a[1]) }, nil)
	m[q+"Div"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.Div(a[0], a[1]) }, nil)
	m[q+"Rem"] = conc(2, func(z *big.Int, a []*big.Int) *big.Int { return z.Rem(a[0], a[1]) }, nil)
	m[q+"Abs"] = conc(1, func(z *big.Int, a []*big.Int) *big.Int { return z.Abs(a[0]) },
		func(x *Exec, st *State, a []BigVal) (BigVal, bool) { return BigVal{x.c.False, a[0].mag}, true })
	m[q+"Lsh"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.bigAt(st, args[1])
		n := int(x.concretize(st, x.term(args[2])))
		w := b.mag.w + n
		return x.bigSet(st, args[0], BigVal{b.neg, x.c.ShlK(x.c.Zext(b.mag, w), n)})
	}
	m[q+"Rsh"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.bigAt(st, args[1])
		n := int(x.concretize(st, x.term(args[2])))
		if !b.neg.IsFalse() {
			unsup("Rsh of negative big.Int")
		}
		if n >= b.mag.w {
			return x.bigSet(st, args[0], BigVal{x.c.False, x.c.Const(8, 0)})
		}
		return x.bigSet(st, args[0], BigVal{b.neg, x.c.LshrK(b.mag, n)})
	}
	m[q+"SetBytes"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.bytesOf(st, args[1].(Slice))
		mg := x.c.Const(8, 0)
		if len(b) > 0 {
			mg = x.c.Concat(b...)
		}
		return x.bigSet(st, args[0], BigVal{x.c.False, mg})
	}
	m[q+"SetInt64"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.bigSet(st, args[0], x.bigFromSigned(x.term(args[1])))
	}
	m[q+"SetUint64"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.bigSet(st, args[0], BigVal{x.c.False, x.term(args[1])})
	}
	m["math/big.NewInt"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		var t types.Type
		if c, ok := at.(*ssa.Call); ok {
			t = deref(c.Type())
		} else {
			unsup("NewInt outside a call")
		}
		return x.newBig(st, t, x.bigFromSigned(x.term(args[0])))
	}
	m[q+"SetString"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b, ok := new(big.Int).SetString(x.cstr(args[1]), int(x.cint(st, args[2])))
		if !ok {
			return Agg{Ptr{}, x.c.False}
		}
		return Agg{x.bigSet(st, args[0], x.bigConst(b)), x.c.True}
	}
	m[q+"Cmp"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a, b := x.bigAt(st, args[0]), x.bigAt(st, args[1])
		w := max(a.mag.w, b.mag.w) + 1
		p, r := x.bigSigned(a, w), x.bigSigned(b, w)
		return x.c.Ite(x.c.Eq(p, r), x.k64(0), x.c.Ite(x.c.Slt(p, r), x.k64(-1), x.k64(1)))
	}
	m[q+"CmpAbs"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a, b := x.bigAt(st, args[0]), x.bigAt(st, args[1])
		w := max(a.mag.w, b.mag.w)
		p, r := x.c.Zext(a.mag, w), x.c.Zext(b.mag, w)
		return x.c.Ite(x.c.Eq(p, r), x.k64(0), x.c.Ite(x.c.Ult(p, r), x.k64(-1), x.k64(1)))
	}
	m[q+"Sign"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := x.bigAt(st, args[0])
		z := x.c.Eq(a.mag, x.c.Const(a.mag.w, 0))
		return x.c.Ite(z, x.k64(0), x.c.Ite(a.neg, x.k64(-1), x.k64(1)))
	}
	m[q+"Bit"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := x.bigAt(st, args[0])
		i := int(x.cint(st, args[1]))
		if !a.neg.IsFalse() {
			unsup("Bit of possibly negative big.Int")
		}
		if i >= a.mag.w {
			return x.c.Const(64, 0)
		}
		return x.c.Zext(x.c.Extract(a.mag, i, i), 64)
	}
	m[q+"BitLen"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := x.bigAt(st, args[0])
		r := x.k64(0)
		for i := 0; i < a.mag.w; i++ {
			r = x.c.Ite(x.c.Eq(x.c.Extract(a.mag, i, i), x.c.Const(1, 1)), x.k64(int64(i+1)), r)
		}
		return r
	}
	low64 := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := x.bigAt(st, args[0])
		v := x.c.Zext(a.mag, max(64, a.mag.w))
		v = x.c.Extract(v, 63, 0)
		return x.c.Ite(a.neg, x.c.Neg(v), v)
	}
	m[q+"Uint64"] = low64
	m[q+"Int64"] = low64
	m[q+"IsUint64"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := x.bigAt(st, args[0])
		if a.mag.w <= 64 {
			return x.c.Not(a.neg)
		}
		return x.c.And(x.c.Not(a.neg), x.c.Eq(x.c.Extract(a.mag, a.mag.w-1, 64), x.c.Const(a.mag.w-64, 0)))
	}
	m[q+"Bytes"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := x.bigAt(st, args[0])
		w := (a.mag.w + 7) / 8 * 8
		mg := x.c.Zext(a.mag, w)
		n := w / 8
		for n > 0 && x.split(st, x.c.Eq(x.c.Extract(mg, n*8-1, n*8-8), x.c.Const(8, 0))) {
			n--
		}
		b := make([]*Term, n)
		for i := range b {
			k := n - 1 - i
			b[i] = x.c.Extract(mg, k*8+7, k*8)
		}
		return x.newBytes(st, b)
	}
	m[q+"FillBytes"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := x.bigAt(st, args[0])
		s := args[1].(Slice)
		n := x.constLen(st, s)
		w := max(n*8, (a.mag.w+7)/8*8)
		mg := x.c.Zext(a.mag, w)
		if w > n*8 && !x.split(st, x.c.Eq(x.c.Extract(mg, w-1, n*8), x.c.Const(w-n*8, 0))) {
			x.doPanic(st, Iface{x.eng.rtErr, Str{s: "math/big: buffer too small to fit value"}}, "math/big: buffer too small to fit value")
			return nil
		}
		o := st.heap.mut(s.obj)
		for i := 0; i < n; i++ {
			k := n - 1 - i
			x.setCell(o, s.off+i, x.c.Extract(mg, k*8+7, k*8))
		}
		return s
	}
	opaque := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		if c, ok := x.bigAt(st, args[0]).concrete(); ok {
			return Str{s: c.String()}
		}
		return Str{s: "<big>"}
	}
	m[q+"String"] = opaque
}

// ---------------------------------------------------------------- library

func (x *Exec) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return x.c.False
	}
	if len(a) == 0 {
		return x.c.True
	}
	return x.c.Eq(x.c.Concat(a...), x.c.Concat(b...))
}

func (x *Exec) rawBytes(st *State, v Value) []*Term {
	switch v := v.(type) {
	case Str:
		return x.strBytes(v)
	case Slice:
		return x.bytesOf(st, v)
	}
	unsup("bytes of %T", v)
	return nil
}

func concreteBytes(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return nil, false
		}
		r[i] = byte(t.k)
	}
	return r, true
}

func libIntrinsics(m map[string]intrinsic) {
	eq := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		if a, ok := args[0].(Slice); ok {
			b := args[1].(Slice)
			if !a.len.IsConst() || !b.len.IsConst() {
				if !x.split(st, x.c.Eq(a.len, b.len)) {
					return x.c.False
				}
			}
		}
		return x.bytesEq(x.rawBytes(st, args[0]), x.rawBytes(st, args[1]))
	}
	m["bytes.Equal"] = eq
	m["internal/bytealg.Equal"] = eq
	cmp := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a, b := x.rawBytes(st, args[0]), x.rawBytes(st, args[1])
		return x.c.Ite(x.bytesEq(a, b), x.k64(0), x.c.Ite(x.bytesLess(a, b), x.k64(-1), x.k64(1)))
	}
	m["bytes.Compare"] = cmp
	m["internal/bytealg.Compare"] = cmp
	m["internal/bytealg.CompareString"] = cmp
	m["strings.Compare"] = cmp
	idx := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.rawBytes(st, args[0])
		c := x.term(args[1])
		r := x.k64(-1)
		for i := len(b) - 1; i >= 0; i-- {
			r = x.c.Ite(x.c.Eq(b[i], c), x.k64(int64(i)), r)
		}
		return r
	}
	m["internal/bytealg.IndexByte"] = idx
	m["internal/bytealg.IndexByteString"] = idx
	m["internal/bytealg.LastIndexByteString"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		b := x.rawBytes(st, args[0])
		c := x.term(args[1])
		r := x.k64(-1)
		for i := range b {
			r = x.c.Ite(x.c.Eq(b[i], c), x.k64(int64(i)), r)
		}
		return r
	}
	m["internal/bytealg.MakeNoZero"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		n := x.term(args[0])
		s, ok := x.allocSlice(st, types.Typ[types.Uint8], n, n)
		if !ok {
			return nil
		}
		return s
	}
	count := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		r := x.k64(0)
		for _, b := range x.rawBytes(st, args[0]) {
			r = x.c.Add(r, x.c.Ite(x.c.Eq(b, x.term(args[1])), x.k64(1), x.k64(0)))
		}
		return r
	}
	m["internal/bytealg.Count"] = count
	m["internal/bytealg.CountString"] = count
	m["internal/race.Enabled"] = nop
	for _, n := range []string{"ReadRange", "WriteRange", "Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "Errors"} {
		m["internal/race."+n] = nop
	}
	m["internal/msan.Read"] = nop
	m["runtime.KeepAlive"] = nop
	m["runtime.GC"] = nop
	m["runtime.SetFinalizer"] = nop
	m["runtime.ReadMemStats"] = nop
	m["os.Exit"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.exit(st, "process exit: os.Exit")
	}
	m["internal/reflectlite.Swapper"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		i := args[0].(Iface)
		s, ok := i.v.(Slice)
		if !ok {
			unsup("Swapper of %T", i.v)
		}
		sz := x.size(i.t.Underlying().(*types.Slice).Elem())
		return &Closure{name: "swapper", native: func(x *Exec, st *State, a []Value) Value {
			p, q := int(x.cint(st, a[0])), int(x.cint(st, a[1]))
			n := x.constLen(st, s)
			if p < 0 || p >= n || q < 0 || q >= n {
				x.rtPanic(st, "reflect: slice index out of range")
				return nil
			}
			o := st.heap.mut(s.obj)
			for k := 0; k < sz; k++ {
				v, w := x.cell(o, s.off+p*sz+k), x.cell(o, s.off+q*sz+k)
				x.setCell(o, s.off+p*sz+k, w)
				x.setCell(o, s.off+q*sz+k, v)
			}
			return Agg{}
		}}
	}
	m["reflect.Swapper"] = m["internal/reflectlite.Swapper"]
	m["internal/reflectlite.ValueOf"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		// only the length is ever used (sort.Slice)
		return Agg{args[0], Ptr{}, x.c.Const(64, 0)}
	}
	m["(internal/reflectlite.Value).Len"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		a := args[0].(Agg)
		i, ok := a[0].(Iface)
		if !ok {
			unsup("reflectlite value")
		}
		return x.lenOf(st, i.v)
	}
	m["(*strings.Builder).copyCheck"] = nop
	m["(*strings.Builder).String"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		p := x.leafPtr(st, args[0])
		if x.nilRecv(st, p) {
			return nil
		}
		b, ok := x.cell(st.heap.get(p.obj), p.off+1).(Slice)
		if !ok {
			unsup("strings.Builder")
		}
		return mkStr(x.bytesOf(st, b))
	}
	// time
	m["time.Now"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		var sec *Term
		if x.inInit(st) {
			sec = x.k64(1700000000)
		} else {
			k := st.names["$now"]
			st.names["$now"] = k + 1
			if st.lastNow == nil {
				sec = x.c.Var("$now#0", 64)
				x.assume(st, x.c.And(x.c.Ule(x.k64(1700000000), sec), x.c.Ule(sec, x.k64(4000000000))))
			} else {
				// monotone, and at most three seconds pass between two readings
				sec = x.c.Add(st.lastNow, x.c.Zext(x.c.Var(fmt.Sprintf("$now#%d", k), 2), 64))
			}
			st.nd = &ndNode{"$now", k, []*Term{sec}, st.nd}
			if st.done {
				return nil
			}
			st.lastNow = sec
		}
		return Agg{x.c.Const(64, 0), x.c.Add(sec, x.k64(62135596800)), Ptr{}}
	}
	// the exact difference, saturated (as documented; wall clock readings only)
	m["(time.Time).Sub"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		c := x.c
		var sec, ns [2]*Term
		for i := range sec {
			a := args[i].(Agg)
			wall := x.term(a[0])
			if !c.Extract(wall, 63, 63).isZero() {
				unsup("time.Sub with monotonic readings")
			}
			sec[i], ns[i] = c.Sext(x.term(a[1]), 128), c.Zext(c.Extract(wall, 29, 0), 128)
		}
		if ns[0] == ns[1] {
			d := c.Sub(x.term(args[0].(Agg)[1]), x.term(args[1].(Agg)[1]))
			sec0, sec1 := c.Extract(sec[0], 63, 0), c.Extract(sec[1], 63, 0)
			if x.split(st, c.And(inSecs(c, sec0), inSecs(c, sec1))) {
				l := x.k64(9223372036)
				small := c.Sext(c.Extract(d, 33, 0), 64)
				switch {
				case x.split(st, c.Eq(small, d)): // within 272 years
					return c.Mul(x.k64(1000000000), small)
				case x.split(st, c.Slt(l, d)):
					return x.k64(1<<63 - 1)
				case x.split(st, c.Slt(d, c.Neg(l))):
					return c.Const(64, 1<<63)
				// 272 to 292 years: the leading bits of the result are known
				case x.split(st, c.Slt(x.k64(0), d)):
					return c.Concat(c.Const(4, 7), c.Extract(c.Mul(x.k64(1000000000), d), 59, 0))
				default:
					return c.Concat(c.Const(4, 8), c.Extract(c.Mul(x.k64(1000000000), d), 59, 0))
				}
			}
			if st.done {
				return nil
			}
		}
		k := func(v string) *Term { return c.ConstBig(128, bigOf(v)) }
		v := c.Add(c.Mul(k("1000000000"), c.Sub(sec[0], sec[1])), c.Sub(ns[0], ns[1]))
		hi, lo := k("9223372036854775807"), c.Neg(k("9223372036854775808"))
		v = c.Ite(c.Slt(hi, v), hi, c.Ite(c.Slt(v, lo), lo, v))
		return c.Extract(v, 63, 0)
	}
	m["time.runtimeNano"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value { return x.k64(1) }
	m["time.now"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return Agg{x.k64(1700000000), x.c.Const(32, 0), x.k64(1)}
	}
	// randomness
	rnd := func(w int) intrinsic {
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			if x.inInit(st) {
				st.names["$initrand"]++
				return x.c.Const(w, uint64(st.names["$initrand"])*0x9e3779b97f4a7c15)
			}
			return x.nondet(st, "$rand", w)
		}
	}
	m["unique.Make"] = uniqueMake
	m["math/rand.Uint64"] = rnd(64)
	m["math/rand.Uint32"] = rnd(32)
	m["math/rand/v2.Uint64"] = rnd(64)
	m["math/rand.Int63"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.c.LshrK(rnd(64)(x, st, args, at).(*Term), 1)
	}
	m["math/rand.Seed"] = nop
	rintn := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		t := rnd(64)(x, st, args, at).(*Term)
		return x.c.Urem(t, x.c.Zext(x.term(args[0]), 64))
	}
	m["math/rand.Intn"] = rintn
	m["math/rand/v2.IntN"] = rintn
	m["crypto/rand.Read"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		s := args[0].(Slice)
		if d := x.opt.Draws; d > 0 { // bounded number of draws
			if st.names["$draws"]++; st.names["$draws"] > d {
				x.assume(st, x.c.False)
				return nil
			}
		}
		n := x.constLen(st, s)
		if n > 0 {
			o := st.heap.mut(s.obj)
			for i := 0; i < n; i++ {
				x.setCell(o, s.off+i, x.nondet(st, "$crand", 8))
			}
		}
		return Agg{x.k64(int64(n)), Iface{}}
	}
	// net
	resolve := func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		c, ok := at.(*ssa.Call)
		if !ok {
			unsup("ResolveTCPAddr outside a call")
		}
		netw, addr := x.cstr(args[0]), x.cstr(args[1])
		tt := c.Type().(*types.Tuple)
		host, _, err := net.SplitHostPort(addr)
		var a *net.TCPAddr
		if err == nil && host != "" && net.ParseIP(host) == nil {
			err = fmt.Errorf("no name resolution")
		}
		if err == nil {
			a, err = net.ResolveTCPAddr(netw, addr)
		}
		if err != nil {
			return Agg{Ptr{}, x.goErr(err.Error())}
		}
		pt := deref(tt.At(0).Type())
		o := x.newObj(st, pt, x.size(pt))
		var ip Value = x.nilSlice
		if a.IP != nil {
			b := make([]*Term, len(a.IP))
			for i := range b {
				b[i] = x.c.Const(8, uint64(a.IP[i]))
			}
			ip = x.newBytes(st, b)
		}
		x.setCell(o, 0, ip)
		x.setCell(o, 1, x.k64(int64(a.Port)))
		x.setCell(o, 2, Str{s: a.Zone})
		return Agg{Ptr{o.id, 0}, Iface{}}
	}
	m["net.ResolveTCPAddr"] = resolve
	m["net.DialTCP"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return Agg{Ptr{}, x.goErr("connection refused")}
	}
	m["net.ParseIP"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		ip := net.ParseIP(x.cstr(args[0]))
		if ip == nil {
			return x.nilSlice
		}
		b := make([]*Term, len(ip))
		for i := range b {
			b[i] = x.c.Const(8, uint64(ip[i]))
		}
		return x.newBytes(st, b)
	}
	m["encoding/hex.DecodeString"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		d, err := hex.DecodeString(x.cstr(args[0]))
		b := make([]*Term, len(d))
		for i := range b {
			b[i] = x.c.Const(8, uint64(d[i]))
		}
		if err != nil {
			return Agg{x.newBytes(st, b), x.goErr(err.Error())}
		}
		return Agg{x.newBytes(st, b), Iface{}}
	}
	m["encoding/hex.EncodeToString"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		var r []*Term
		for _, b := range x.bytesOf(st, args[0].(Slice)) {
			for _, n := range []*Term{x.c.LshrK(b, 4), x.c.Band(b, x.c.Const(8, 15))} {
				r = append(r, x.c.Ite(x.c.Ult(n, x.c.Const(8, 10)), x.c.Add(n, x.c.Const(8, '0')), x.c.Add(n, x.c.Const(8, 'a'-10))))
			}
		}
		return mkStr(r)
	}
	// fmt: evaluated on constants, opaque otherwise
	sp := func(mode string) intrinsic {
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			var va []Value
			format := ""
			rest := args[0]
			if mode == "f" {
				format = x.cstr(args[0])
				rest = args[1]
			}
			s := rest.(Slice)
			n := x.constLen(st, s)
			ok := true
			var ga []interface{}
			for i := 0; i < n; i++ {
				v := x.sliceElem(st, s, i, types.NewInterfaceType(nil, nil))
				va = append(va, v)
				g, o := x.goVal(v)
				ok = ok && o
				ga = append(ga, g)
			}
			if ok {
				switch mode {
				case "f":
					return Str{s: fmt.Sprintf(format, ga...)}
				case "ln":
					return Str{s: fmt.Sprintln(ga...)}
				default:
					return Str{s: fmt.Sprint(ga...)}
				}
			}
			x.freshN++
			return Str{s: fmt.Sprintf("<opaque %d %s>", x.freshN, format)}
		}
	}
	m["fmt.Sprintf"] = sp("f")
	m["fmt.Sprint"] = sp("")
	m["fmt.Sprintln"] = sp("ln")
	for _, n := range []string{"Printf", "Println", "Print"} {
		m["fmt."+n] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			return Agg{x.k64(0), Iface{}}
		}
		m["fmt.F"+strings.ToLower(n)] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			unsup("fmt.Fprint")
			return nil
		}
	}
	// encoding/binary helpers used by the shims
	sh := shimPkg + "."
	m[sh+"DataSize"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		return x.k64(int64(x.dataSize(st, args[0].(Iface))))
	}
	m[sh+"ReadSize"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		i := args[0].(Iface)
		if i.t == nil {
			return x.k64(-1)
		}
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			if p, ok := i.v.(Ptr); ok && p.obj == 0 {
				return x.k64(-1)
			}
			return x.k64(int64(encSize(u.Elem())))
		case *types.Slice:
			es := encSize(u.Elem())
			if es < 0 {
				return x.k64(-1)
			}
			return x.c.Mul(i.v.(Slice).len, x.k64(int64(es)))
		}
		return x.k64(-1)
	}
	m[sh+"Encode"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		i := args[1].(Iface)
		var leaves []*Term
		var collect func(v Value, t types.Type)
		collect = func(v Value, t types.Type) {
			if isAgg(t) {
				a := v.(Agg)
				for k := range a {
					leaves = append(leaves, x.term(a[k]))
				}
				return
			}
			leaves = append(leaves, x.term(v))
		}
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			collect(x.load(st, i.v, u.Elem()), u.Elem())
		case *types.Slice:
			s := i.v.(Slice)
			n := x.constLen(st, s)
			for k := 0; k < n; k++ {
				collect(x.sliceElem(st, s, k, u.Elem()), u.Elem())
			}
		default:
			collect(i.v, i.t)
		}
		var out []*Term
		for _, t := range leaves {
			out = append(out, x.encLeaf(t, bigEndian(args[0]))...)
		}
		return x.newBytes(st, out)
	}
	m[sh+"Decode"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		i := args[1].(Iface)
		b := x.bytesOf(st, args[2].(Slice))
		be := bigEndian(args[0])
		dec := func(p Ptr, t types.Type) {
			n := x.size(t)
			for k := 0; k < n; k++ {
				lt := x.leafAt(t, k)
				w, _ := intWidth(lt)
				isB := false
				if bt, ok := lt.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
					isB = true
					w = 8
				}
				c := append([]*Term(nil), b[:w/8]...)
				b = b[w/8:]
				if !be {
					for l, r := 0, len(c)-1; l < r; l, r = l+1, r-1 {
						c[l], c[r] = c[r], c[l]
					}
				}
				v := x.c.Concat(c...)
				if isB {
					v = x.c.Not(x.c.Eq(v, x.c.Const(8, 0)))
				}
				x.setCell(st.heap.mut(p.obj), p.off+k, v)
			}
		}
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			dec(x.leafPtr(st, i.v), u.Elem())
		case *types.Slice:
			s := i.v.(Slice)
			n := x.constLen(st, s)
			for k := 0; k < n; k++ {
				dec(Ptr{s.obj, s.off + k*x.size(u.Elem())}, u.Elem())
			}
		}
		return nil
	}
}

func bigEndian(v Value) bool {
	i := v.(Iface)
	n, ok := types.Unalias(i.t).(*types.Named)
	if !ok {
		unsup("byte order %v", i.t)
	}
	switch n.Obj().Name() {
	case "bigEndian":
		return true
	case "littleEndian":
		return false
	}
	unsup("byte order %v", i.t)
	return false
}

// encSize is the encoding/binary size of a fixed-size type, -1 if it has none.
func encSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return 1
		}
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			return -1
		}
		if u.Info()&types.IsInteger != 0 {
			w, _ := basicWidth(u)
			return w / 8
		}
		return -1
	case *types.Array:
		n := encSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		r := 0
		for i := 0; i < u.NumFields(); i++ {
			n := encSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			r += n
		}
		return r
	}
	return -1
}

func (x *Exec) dataSize(st *State, i Iface) int {
	if i.t == nil {
		return -1
	}
	switch u := i.t.Underlying().(type) {
	case *types.Pointer:
		return encSize(u.Elem())
	case *types.Slice:
		n := encSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * x.constLen(st, i.v.(Slice))
	}
	return encSize(i.t)
}

func (x *Exec) encLeaf(t *Term, be bool) []*Term {
	if t.w == 0 {
		return []*Term{x.c.Ite(t, x.c.Const(8, 1), x.c.Const(8, 0))}
	}
	n := t.w / 8
	r := make([]*Term, n)
	for i := range r {
		k := i
		if be {
			k = n - 1 - i
		}
		r[i] = x.c.Extract(t, k*8+7, k*8)
	}
	return r
}

// goErr is an opaque non-nil error.
func (x *Exec) goErr(msg string) Value {
	return Iface{x.eng.rtErr, Str{s: msg}}
}

// goVal converts a constant interface value to a Go value for formatting.
func (x *Exec) goVal(v Value) (interface{}, bool) {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil, i.t == nil && ok
	}
	if n, ok := types.Unalias(i.t).(*types.Named); ok && n.NumMethods() > 0 {
		return nil, false
	}
	b, ok := i.t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch u := i.v.(type) {
	case Str:
		if u.b == nil {
			return u.s, true
		}
	case *Term:
		if !u.IsConst() {
			return nil, false
		}
		if u.w == 0 {
			return u.k == 1, true
		}
		_, s := basicWidth(b)
		if s {
			return u.Signed(), true
		}
		return u.k, true
	}
	return nil, false
}

// inSecs: seconds whose difference is exact in 64 bits.
func inSecs(c *TermCtx, s *Term) *Term {
	l := c.Const(64, 1<<62)
	return c.And(c.Slt(s, l), c.Slt(c.Neg(l), s))
}
