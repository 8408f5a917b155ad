package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) get(st *State, fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if r, ok := x.consts[v]; ok {
			return r
		}
		r := x.constVal(v)
		x.consts[v] = r
		return r
	case *ssa.Global:
		return x.global(st, v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{bi: v}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		unsup("unknown value %s in %s", v.Name(), fr.info.name)
	}
	r := fr.regs[i]
	if r == nil {
		unsup("undefined register %s in %s", v.Name(), fr.info.name)
	}
	if p, ok := r.(Poison); ok {
		unsup("poison: %s", p.msg)
	}
	return r
}

func (x *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(k.Value))
		case u.Info()&types.IsInteger != 0:
			w, _ := basicWidth(u)
			b, _ := new(big.Int).SetString(constant.ToInt(k.Value).ExactString(), 10)
			return x.c.ConstBig(w, new(big.Int).And(b, bigMask(64)))
		case u.Info()&types.IsString != 0:
			return Str{s: constant.StringVal(k.Value)}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(k.Value))
			return Float(f)
		}
	}
	unsup("constant %s", k)
	return nil
}

func (x *Exec) term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if p, ok := v.(Poison); ok {
			unsup("poison: %s", p.msg)
		}
		unsup("expected a scalar, got %T", v)
	}
	return t
}

// i64 widens an integer value to 64 bits.
func (x *Exec) i64(v Value, t types.Type) *Term {
	tm := x.term(v)
	w, s := intWidth(t)
	if w == 64 {
		return tm
	}
	if s {
		return x.c.Sext(tm, 64)
	}
	return x.c.Zext(tm, 64)
}

func (x *Exec) k64(v int64) *Term { return x.c.Const(64, uint64(v)) }

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// ---------------------------------------------------------------- memory access

func (x *Exec) load(st *State, p Value, t types.Type) Value {
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			x.rtPanic(st, "invalid memory address or nil pointer dereference")
			return nil
		}
		o := st.heap.get(p.obj)
		if o == nil {
			unsup("dangling pointer")
		}
		if !isAgg(t) {
			v := x.cell(o, p.off)
			x.checkLeaf(v, t)
			return v
		}
		n := x.size(t)
		r := make(Agg, n)
		for i := range r {
			r[i] = x.cell(o, p.off+i)
		}
		return r
	case SymPtr:
		n := x.size(t)
		r := make(Agg, n)
		o := st.heap.get(p.obj)
		for i := range r {
			r[i] = x.symCell(st, o, p, i)
			if r[i] == nil {
				k := int(x.concretize(st, p.idx))
				return x.load(st, Ptr{p.obj, p.off + k*p.stride}, t)
			}
		}
		if !isAgg(t) {
			return r[0]
		}
		return r
	}
	unsup("load through %T", p)
	return nil
}

func (x *Exec) checkLeaf(v Value, t types.Type) {
	tm, ok := v.(*Term)
	w, _ := intWidth(t)
	if b, isB := t.Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
		w = 0
	}
	if ok && w >= 0 && tm.w != w {
		unsup("reinterpreting memory: %d bits as %s", tm.w, t)
	}
}

func (x *Exec) symCell(st *State, o *Obj, p SymPtr, i int) Value {
	if p.n > 2048 {
		return nil
	}
	lo, hi := 0, p.n-1
	if p.idx.rok {
		if int64(p.idx.rlo) > int64(lo) && p.idx.rlo < uint64(p.n) {
			lo = int(p.idx.rlo)
		}
		if p.idx.rhi < uint64(hi) {
			hi = int(p.idx.rhi)
		}
	}
	v := x.cell(o, p.off+hi*p.stride+i)
	for k := hi - 1; k >= lo; k-- {
		c := x.cell(o, p.off+k*p.stride+i)
		m, ok := x.mergeVal(x.c.Eq(p.idx, x.c.Const(p.idx.w, uint64(k))), c, v)
		if !ok {
			return nil
		}
		v = m
	}
	return v
}

func (x *Exec) store(st *State, p Value, v Value, t types.Type) bool {
	switch p := p.(type) {
	case Ptr:
		if p.obj == 0 {
			x.rtPanic(st, "invalid memory address or nil pointer dereference")
			return false
		}
		if a, ok := v.(Agg); ok && isAgg(t) {
			if len(a) == 0 {
				return true
			}
			o := st.heap.mut(p.obj)
			for i, c := range a {
				x.setCell(o, p.off+i, c)
			}
			return true
		}
		o := st.heap.mut(p.obj)
		x.setCell(o, p.off, v)
		return true
	case SymPtr:
		vals, ok := v.(Agg)
		if !ok || !isAgg(t) {
			vals = Agg{v}
		}
		if p.n > 2048 {
			k := int(x.concretize(st, p.idx))
			return x.store(st, Ptr{p.obj, p.off + k*p.stride}, v, t)
		}
		o := st.heap.get(p.obj)
		type upd struct {
			i int
			v Value
		}
		var us []upd
		for k := 0; k < p.n; k++ {
			cond := x.c.Eq(p.idx, x.c.Const(p.idx.w, uint64(k)))
			if cond.IsFalse() {
				continue
			}
			for i, nv := range vals {
				m, ok := x.mergeVal(cond, nv, x.cell(o, p.off+k*p.stride+i))
				if !ok {
					kk := int(x.concretize(st, p.idx))
					return x.store(st, Ptr{p.obj, p.off + kk*p.stride}, v, t)
				}
				us = append(us, upd{p.off + k*p.stride + i, m})
			}
		}
		o = st.heap.mut(p.obj)
		for _, u := range us {
			x.setCell(o, u.i, u.v)
		}
		return true
	}
	unsup("store through %T", p)
	return false
}

func (x *Exec) sliceElem(st *State, s Slice, i int, et types.Type) Value {
	return x.load(st, Ptr{s.obj, s.off + i*x.size(et)}, et)
}

// constLen concretizes the length of a slice.
func (x *Exec) constLen(st *State, s Slice) int {
	return int(x.concretize(st, s.len))
}

// bytesOf reads a []byte (concrete length).
func (x *Exec) bytesOf(st *State, s Slice) []*Term {
	n := x.constLen(st, s)
	r := make([]*Term, n)
	if n == 0 {
		return r
	}
	o := st.heap.get(s.obj)
	for i := range r {
		r[i] = x.term(x.cell(o, s.off+i))
	}
	return r
}

func (x *Exec) newBytes(st *State, b []*Term) Slice {
	o := x.newObj(st, types.Typ[types.Uint8], len(b))
	for i, t := range b {
		x.setCell(o, i, t)
	}
	n := x.k64(int64(len(b)))
	return Slice{o.id, 0, n, n}
}

// ---------------------------------------------------------------- panics

func (x *Exec) rtPanic(st *State, msg string) {
	t := x.eng.rtErr
	x.doPanic(st, Iface{t, Str{s: "runtime error: " + msg}}, "runtime error: "+msg)
}

func (x *Exec) doPanic(st *State, v Value, msg string) {
	st.top().panicking = &panicVal{v: v, msg: msg, trace: x.stack(st)}
	st.top().running = false
	x.unwind(st)
}

// unwind continues panicking from the top frame.
func (x *Exec) unwind(st *State) {
	g := st.g()
	for {
		f := st.top()
		if f.isInit {
			unsup("panic during init: %s", f.panicking.msg)
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			if x.callDeferred(st, d) {
				return
			}
			if st.done {
				return
			}
			continue
		}
		p := f.panicking
		if len(g.frames) == 1 {
			if p.goexit {
				g.frames = nil
				g.status = gDone
				return
			}
			kind := "panic"
			if strings.HasPrefix(p.msg, "process exit") {
				kind = "exit"
			}
			x.oblige("no uncaught panic")
			x.violate(st, kind, p.msg+"\n"+firstLines(p.trace, 3), st.ev, nil, st.known)
			x.finish(st, "violation")
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
		n := st.top()
		if f.isDefer {
			// a new panic inside a deferred call replaces the old one
			n.panicking = p
			n.running = false
			continue
		}
		n.panicking = p
	}
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " < ")
}

func (x *Exec) oblige(msg string) {
	o := x.oblig[msg]
	if o == nil {
		o = &obl{Msg: msg}
		x.oblig[msg] = o
	}
	o.Checked++
}

// callDeferred starts a deferred call; true if a frame was pushed.
func (x *Exec) callDeferred(st *State, d deferred) bool {
	g := st.g()
	n := len(g.frames)
	x.callClosure(st, d.fn, d.args, -1, nil)
	if st.done {
		return true
	}
	if len(g.frames) > n {
		st.top().isDefer = true
		return true
	}
	return false
}

// ---------------------------------------------------------------- calls

// callClosure calls fn; ret is the caller register receiving the result.
func (x *Exec) callClosure(st *State, cl *Closure, args []Value, ret int, at ssa.Instruction) {
	if cl == nil {
		x.rtPanic(st, "invalid memory address or nil pointer dereference")
		return
	}
	if cl.native != nil {
		v := cl.native(x, st, args)
		if !st.done && ret >= 0 {
			st.top().regs[ret] = v
		}
		return
	}
	if cl.bi != nil {
		v := x.builtin(st, cl.bi.Name(), args, nil, at)
		if ret >= 0 && v != nil {
			st.top().regs[ret] = v
		}
		return
	}
	x.callFn(st, cl.fn, args, cl.binds, ret, at)
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, binds []Value, ret int, at ssa.Instruction) {
	if fn.Synthetic == "package initializer" {
		return // packages are initialised when one of their variables is first used
	}
	info := x.info(fn)
	if info.intr != nil {
		fr := st.top()
		d := len(st.g().frames)
		v := info.intr(x, st, args, at)
		if st.done || st.top() != fr || len(st.g().frames) != d {
			return
		}
		if ret >= 0 {
			if v == nil {
				v = x.zeroResult(fn)
			}
			fr.regs[ret] = v
		}
		return
	}
	if info.redir != nil && (len(st.g().frames) == 0 || st.top().fn != info.redir) {
		fn = info.redir
		info = x.info(fn)
	}
	if len(fn.Blocks) == 0 {
		if st.top().isInit || x.inInit(st) {
			unsup("no body: %s", info.name)
		}
		unsup("no body: %s", info.name)
	}
	if fn.Pkg != nil && !x.inInit(st) {
		x.fnSeen[fn] = true
	}
	g := st.g()
	if len(g.frames) > 400 {
		unsup("call depth > 400 in %s", info.name)
	}
	f := &Frame{fn: fn, info: info, regs: make([]Value, info.n), ret: ret, block: fn.Blocks[0]}
	copy(f.regs, args)
	copy(f.regs[len(fn.Params):], binds)
	g.frames = append(g.frames, f)
}

func (x *Exec) zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Agg{}
	case 1:
		return x.zero(r.At(0).Type())
	}
	return x.zero(r)
}

func (x *Exec) inInit(st *State) bool {
	for _, f := range st.g().frames {
		if f.isInit {
			return true
		}
	}
	return false
}

// ensureInit pushes the init of g's package if it has not run; true if pushed.
func (x *Exec) ensureInit(st *State, g *ssa.Global) bool {
	p := g.Pkg
	if p == nil || st.inited[p] {
		return false
	}
	st.inited[p] = true
	if x.eng.skipInit(p.Pkg.Path()) {
		return false
	}
	in := p.Func("init")
	if in == nil || len(in.Blocks) == 0 {
		return false
	}
	info := x.info(in)
	f := &Frame{fn: in, info: info, regs: make([]Value, info.n), ret: -1, block: in.Blocks[0], isInit: true}
	st.g().frames = append(st.g().frames, f)
	return true
}

// ---------------------------------------------------------------- control

func (x *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	n := 0
	var vals []Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		var v Value
		e := ph.Edges[pi]
		if i, ok := fr.info.idx[e]; ok {
			v = fr.regs[i] // may be undefined or poison on dead edges
			if v == nil {
				v = Poison{"undefined phi edge"}
			}
		} else {
			v = x.get(st, fr, e)
		}
		vals = append(vals, v)
	}
	for i := 0; i < n; i++ {
		fr.regs[fr.info.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
	}
	fr.prev, fr.block, fr.ip = from, to, n
}

type stopPoint struct {
	depth int
	block *ssa.BasicBlock // nil: return of the frame
	gor   int
}

func (x *Exec) at(st *State, s *stopPoint) bool {
	if st.cur != s.gor {
		return false
	}
	d := len(st.g().frames)
	if s.block == nil {
		return d < s.depth
	}
	if d < s.depth {
		return true // escaped
	}
	if d > s.depth {
		return false
	}
	f := st.top()
	if f.block != s.block || f.panicking != nil {
		return false
	}
	n := 0
	for n < len(f.block.Instrs) {
		if _, ok := f.block.Instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return f.ip == n
}

// run executes st until it ends or reaches stop. The state may spawn others.
func (x *Exec) run(st *State, stop *stopPoint) {
	first := true
	for !st.done {
		if stop != nil && !first && x.at(st, stop) {
			st.arrived = stop
			return
		}
		first = false
		x.runSome(st, stop)
	}
}

// runSome steps until done/stop, converting unsupported features.
func (x *Exec) runSome(st *State, stop *stopPoint) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		u, ok := r.(unsupported)
		if !ok {
			fmt.Println("engine panic in", x.h.Name, "at", x.stackSafe(st))
			panic(r)
		}
		if x.recoverInit(st, u.msg) {
			return
		}
		where := firstLines(x.stackSafe(st), 3)
		x.unsup[u.msg+" @ "+where]++
		x.finish(st, "unsupported")
	}()
	for !st.done {
		x.step(st)
		x.steps++
		st.steps++
		if st.steps > x.opt.MaxSteps {
			x.incompl["step limit per path"]++
			if x.opt.Verbose {
				fmt.Println("step limit at", x.stackSafe(st))
			}
			x.finish(st, "step limit")
			return
		}
		if x.steps&1023 == 0 && time.Now().After(x.deadline) {
			x.incompl["time limit"]++
			x.stopAll = true
		}
		if x.stopAll {
			x.finish(st, "stopped")
			return
		}
		if stop != nil && x.at(st, stop) {
			return
		}
	}
}

func (x *Exec) stackSafe(st *State) (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return x.stack(st)
}

// recoverInit turns an unsupported operation during package init into poison.
func (x *Exec) recoverInit(st *State, msg string) bool {
	g := st.g()
	k := -1
	for i, f := range g.frames {
		if f.isInit {
			k = i
		}
	}
	if k < 0 {
		return false
	}
	if x.opt.Verbose {
		fmt.Println("init:", g.frames[k].fn.Pkg.Pkg.Path(), msg, firstLines(x.stackSafe(st), 4))
	}
	f := g.frames[k]
	if len(g.frames) > k+1 {
		callee := g.frames[k+1]
		g.frames = g.frames[:k+1]
		f.panicking = nil
		if callee.ret >= 0 {
			f.regs[callee.ret] = Poison{msg}
		}
		return true
	}
	f.panicking = nil
	in := f.block.Instrs[f.ip]
	switch in := in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
		g.frames = g.frames[:k]
		return true
	case *ssa.Store:
		// poison the destination
		func() {
			defer func() { recover() }()
			p, ok := x.get(st, f, in.Addr).(Ptr)
			if ok && p.obj != 0 {
				o := st.heap.mut(p.obj)
				for i := 0; i < x.size(in.Val.Type()); i++ {
					x.setCell(o, p.off+i, Poison{msg})
				}
			}
		}()
	default:
		if v, ok := in.(ssa.Value); ok {
			f.regs[f.info.idx[v]] = Poison{msg}
		}
	}
	f.ip++
	return true
}

func (x *Exec) step(st *State) {
	g := st.g()
	if g.status != gRun {
		x.schedule(st)
		return
	}
	fr := g.frames[len(g.frames)-1]
	if fr.running || fr.panicking != nil {
		x.contDefers(st, fr)
		return
	}
	in := fr.block.Instrs[fr.ip]
	st.chPos = 0
	if x.opt.Race && len(st.gs) > 1 && !x.inInit(st) {
		x.accessInstr(st, fr, in)
	}
	x.exec(st, fr, in)
	st.choices = st.choices[:0]
}

// contDefers resumes a frame whose deferred call just finished.
func (x *Exec) contDefers(st *State, fr *Frame) {
	if fr.panicking != nil {
		if !fr.panicking.recovered {
			x.unwind(st)
			return
		}
		fr.panicking = nil
		fr.running = true
		fr.after = 1
	}
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		x.callDeferred(st, d)
		return
	}
	fr.running = false
	if fr.after == 1 {
		fr.after = 0
		if rb := fr.fn.Recover; rb != nil {
			fr.prev, fr.block, fr.ip = nil, rb, 0
			return
		}
		x.doReturn(st, x.zeroResult(fr.fn))
		return
	}
	fr.ip++
}

func (x *Exec) doReturn(st *State, v Value) {
	g := st.g()
	f := st.top()
	if f.onReturn != nil {
		v = f.onReturn(x, st, v)
	}
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.status = gDone
		if g.id == 0 {
			x.finish(st, "ok")
		}
		return
	}
	if f.ret >= 0 {
		st.top().regs[f.ret] = v
	}
}

func (x *Exec) set(fr *Frame, in ssa.Value, v Value) {
	fr.regs[fr.info.idx[in]] = v
}

func (x *Exec) globalOperands(st *State, in ssa.Instruction) bool {
	var buf [8]*ssa.Value
	for _, op := range in.Operands(buf[:0]) {
		if g, ok := (*op).(*ssa.Global); ok {
			if g.Name() == "init$guard" {
				continue
			}
			if x.ensureInit(st, g) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) exec(st *State, fr *Frame, in ssa.Instruction) {
	if x.globalOperands(st, in) {
		return
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		fr.ip++
	case *ssa.Alloc:
		t := deref(in.Type())
		o := x.newObj(st, t, x.size(t))
		x.set(fr, in, Ptr{o.id, 0})
		fr.ip++
	case *ssa.UnOp:
		x.unop(st, fr, in)
	case *ssa.BinOp:
		a, b := x.get(st, fr, in.X), x.get(st, fr, in.Y)
		v := x.binop(st, in.Op, a, b, in.X.Type(), in.Y.Type())
		if v != nil && !st.done && st.top() == fr && fr.panicking == nil {
			x.set(fr, in, v)
			fr.ip++
		}
	case *ssa.Call:
		x.call(st, fr, in)
	case *ssa.ChangeInterface:
		x.set(fr, in, x.get(st, fr, in.X))
		fr.ip++
	case *ssa.ChangeType:
		x.set(fr, in, x.get(st, fr, in.X))
		fr.ip++
	case *ssa.Convert:
		x.set(fr, in, x.convert(st, x.get(st, fr, in.X), in.X.Type(), in.Type()))
		fr.ip++
	case *ssa.MakeInterface:
		x.set(fr, in, Iface{in.X.Type(), x.get(st, fr, in.X)})
		fr.ip++
	case *ssa.Extract:
		tp, ok := x.get(st, fr, in.Tuple).(Agg)
		if !ok {
			unsup("extract from non tuple")
		}
		v := tp[in.Index]
		x.set(fr, in, v)
		fr.ip++
	case *ssa.Field:
		a, ok := x.get(st, fr, in.X).(Agg)
		if !ok {
			unsup("field of %T", x.get(st, fr, in.X))
		}
		u := in.X.Type().Underlying().(*types.Struct)
		o := x.offsets(u)
		x.set(fr, in, x.sub(a, o[in.Field], o[in.Field+1], u.Field(in.Field).Type()))
		fr.ip++
	case *ssa.FieldAddr:
		p := x.get(st, fr, in.X)
		u := deref(in.X.Type()).Underlying().(*types.Struct)
		off := x.offsets(u)[in.Field]
		switch p := p.(type) {
		case Ptr:
			if p.obj == 0 {
				x.rtPanic(st, "invalid memory address or nil pointer dereference")
				return
			}
			x.set(fr, in, Ptr{p.obj, p.off + off})
		case SymPtr:
			p.off += off
			x.set(fr, in, p)
		default:
			unsup("fieldaddr of %T", p)
		}
		fr.ip++
	case *ssa.IndexAddr:
		x.indexAddr(st, fr, in)
	case *ssa.Index:
		x.index(st, fr, in)
	case *ssa.Lookup:
		x.lookup(st, fr, in)
	case *ssa.Slice:
		x.sliceOp(st, fr, in)
	case *ssa.SliceToArrayPointer:
		s := x.get(st, fr, in.X).(Slice)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		if x.split(st, x.c.Slt(s.len, x.k64(n))) {
			x.rtPanic(st, "cannot convert slice to array pointer: length too short")
			return
		}
		x.set(fr, in, Ptr{s.obj, s.off})
		fr.ip++
	case *ssa.Store:
		if x.store(st, x.get(st, fr, in.Addr), x.get(st, fr, in.Val), in.Val.Type()) {
			fr.ip++
		}
	case *ssa.MakeClosure:
		b := make([]Value, len(in.Bindings))
		for i, v := range in.Bindings {
			b[i] = x.get(st, fr, v)
		}
		x.set(fr, in, &Closure{fn: in.Fn.(*ssa.Function), binds: b})
		fr.ip++
	case *ssa.MakeSlice:
		x.makeSlice(st, fr, in)
	case *ssa.MakeMap:
		o := x.newObj(st, in.Type(), 0)
		o.mty = in.Type().Underlying().(*types.Map)
		x.set(fr, in, MapRef{o.id})
		fr.ip++
	case *ssa.MakeChan:
		n := int(int64(x.concretize(st, x.i64(x.get(st, fr, in.Size), in.Size.Type()))))
		o := x.newObj(st, in.Type(), 0)
		o.ch = &chanData{cap: n, elem: in.Type().Underlying().(*types.Chan).Elem()}
		x.set(fr, in, ChanRef{o.id})
		fr.ip++
	case *ssa.MapUpdate:
		m := x.get(st, fr, in.Map).(MapRef)
		if m.obj == 0 {
			x.doPanic(st, Iface{x.eng.rtErr, Str{s: "assignment to entry in nil map"}}, "assignment to entry in nil map")
			return
		}
		x.mapSet(st, m, x.get(st, fr, in.Key), x.get(st, fr, in.Value))
		fr.ip++
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, in)
	case *ssa.Range:
		v := x.get(st, fr, in.X)
		o := x.newObj(st, types.Typ[types.Int], 0)
		switch v := v.(type) {
		case MapRef:
			o.it = &iterData{m: v.obj}
		case Str:
			o.it = &iterData{isS: true, str: v}
		default:
			unsup("range over %T", v)
		}
		x.set(fr, in, IterRef{o.id})
		fr.ip++
	case *ssa.Next:
		x.next(st, fr, in)
	case *ssa.Jump:
		x.jump(st, fr, fr.block.Succs[0])
	case *ssa.If:
		x.branch(st, fr, in)
	case *ssa.Return:
		var v Value
		switch len(in.Results) {
		case 0:
			v = Agg{}
		case 1:
			v = x.get(st, fr, in.Results[0])
		default:
			a := make(Agg, len(in.Results))
			for i, r := range in.Results {
				a[i] = x.get(st, fr, r)
			}
			v = a
		}
		x.doReturn(st, v)
	case *ssa.Panic:
		v := x.get(st, fr, in.X)
		x.doPanic(st, v, "panic: "+x.describe(st, v))
	case *ssa.Defer:
		cl, args := x.callee(st, fr, &in.Call)
		if st.top() != fr || fr.panicking != nil {
			return
		}
		fr.defers = append(fr.defers, deferred{fn: cl, args: args})
		fr.ip++
	case *ssa.RunDefers:
		fr.running = true
		fr.after = 0
	case *ssa.Go:
		cl, args := x.callee(st, fr, &in.Call)
		if st.top() != fr || fr.panicking != nil {
			return
		}
		fr.ip++
		x.spawnG(st, cl, args, in)
	case *ssa.Send, *ssa.Select:
		x.chanOp(st, fr, in)
	default:
		unsup("instruction %T", in)
	}
}

func (x *Exec) describe(st *State, v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		switch u := i.v.(type) {
		case Str:
			return u.String()
		case *Term:
			return u.String()
		case Ptr:
			if u.obj != 0 {
				o := st.heap.get(u.obj)
				if o != nil && len(o.cells) > u.off {
					if s, ok := o.cells[u.off].(Str); ok {
						return s.String()
					}
				}
			}
		}
		return i.t.String()
	}
	return fmt.Sprintf("%T", v)
}

func (x *Exec) sub(a Agg, lo, hi int, t types.Type) Value {
	if isAgg(t) {
		return a[lo:hi:hi]
	}
	return a[lo]
}

// callee resolves the function and arguments of a call.
func (x *Exec) callee(st *State, fr *Frame, c *ssa.CallCommon) (*Closure, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		i, ok := x.get(st, fr, c.Value).(Iface)
		if !ok {
			unsup("invoke on %T", x.get(st, fr, c.Value))
		}
		if i.t == nil {
			x.rtPanic(st, "invalid memory address or nil pointer dereference")
			return nil, nil
		}
		fn := x.eng.lookup(i.t, c.Method)
		if fn == nil {
			unsup("method %s of %s", c.Method.Name(), i.t)
		}
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, x.get(st, fr, a))
		}
		return &Closure{fn: fn}, args
	}
	for _, a := range c.Args {
		args = append(args, x.get(st, fr, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return &Closure{fn: f}, args
	case *ssa.Builtin:
		return &Closure{bi: f}, args
	}
	cl, ok := x.get(st, fr, c.Value).(*Closure)
	if !ok {
		unsup("call of %T", x.get(st, fr, c.Value))
	}
	return cl, args
}

func (x *Exec) call(st *State, fr *Frame, in *ssa.Call) {
	cl, args := x.callee(st, fr, &in.Call)
	if st.done || st.top() != fr || fr.panicking != nil {
		return
	}
	ret := fr.info.idx[in]
	if cl != nil && cl.bi != nil {
		v := x.builtin(st, cl.bi.Name(), args, in.Call.Args, in)
		if st.done || st.top() != fr || fr.panicking != nil || v == nil {
			return
		}
		fr.regs[ret] = v
		fr.ip++
		return
	}
	if cl == nil {
		x.rtPanic(st, "invalid memory address or nil pointer dereference")
		return
	}
	g := st.g()
	n := len(g.frames)
	ip := fr.ip
	fr.ip++ // callee returns behind the call; undone when blocked
	if cl.fn != nil && x.info(cl.fn).intr != nil {
		// intrinsics split before taking effect and re-execute this instruction
		fr.ip = ip
		info := x.info(cl.fn)
		v := info.intr(x, st, args, in)
		if st.done {
			return
		}
		if g.status == gRun && st.g() == g && len(g.frames) == n && st.top() == fr && fr.panicking == nil && fr.ip == ip {
			if _, block := v.(blockedMark); block {
				return
			}
			if v == nil {
				v = x.zeroResult(cl.fn)
			}
			fr.regs[ret] = v
			fr.ip++
		}
		return
	}
	if cl.native != nil {
		fr.ip = ip
		v := cl.native(x, st, args)
		if st.done || st.top() != fr || fr.panicking != nil {
			return
		}
		fr.regs[ret] = v
		fr.ip++
		return
	}
	x.callClosure(st, cl, args, ret, in)
}

type blockedMark struct{}

// ---------------------------------------------------------------- branch with merging

func (x *Exec) branch(st *State, fr *Frame, in *ssa.If) {
	cond := x.term(x.get(st, fr, in.Cond))
	b := fr.block
	if cond.IsConst() || st.knows(cond) {
		if cond.IsConst() && cond.k == 0 {
			x.jump(st, fr, b.Succs[1])
		} else {
			x.jump(st, fr, b.Succs[0])
		}
		return
	}
	if st.knows(x.c.Not(cond)) {
		x.jump(st, fr, b.Succs[1])
		return
	}
	if fr.loops == nil {
		fr.loops = map[*ssa.BasicBlock]int{}
	}
	fr.loops[b]++
	if x.opt.Loop > 0 && fr.loops[b] > x.opt.Loop {
		x.incompl[fmt.Sprintf("loop bound %d reached in %s", x.opt.Loop, fr.info.name)]++
		x.finish(st, "loop limit")
		return
	}
	if !x.opt.Merge || st.multi() || x.inInit(st) {
		if x.split(st, cond) {
			x.jump(st, fr, b.Succs[0])
		} else {
			x.jump(st, fr, b.Succs[1])
		}
		return
	}
	stopB, acyc := x.region(fr.info, b)
	if !acyc {
		if x.split(st, cond) {
			x.jump(st, fr, b.Succs[0])
		} else {
			x.jump(st, fr, b.Succs[1])
		}
		return
	}
	// run both sides to the join and merge
	nc := x.c.Not(cond)
	mv := st.ev.U(cond) == 1
	mine, other := cond, nc
	sm, so := b.Succs[0], b.Succs[1]
	if !mv {
		mine, other = nc, cond
		sm, so = so, sm
	}
	r, ev := x.sat(st, other)
	if r == Unknown {
		x.unknown++
	}
	if r != Sat {
		x.addPC(st, mine, r == Unsat)
		x.jump(st, fr, sm)
		return
	}
	x.forks++
	base := st.pc
	o := st.clone()
	x.addPC(o, other, false)
	o.ev = ev
	x.jump(o, o.top(), so)
	x.addPC(st, mine, false)
	x.jump(st, fr, sm)
	stop := &stopPoint{depth: len(st.g().frames), block: stopB, gor: st.cur}
	saved := x.work
	var arr []*State
	x.nested++
	local := []*State{o}
	x.work = &local
	runOne := func(s *State) {
		if !x.at(s, stop) {
			x.run(s, stop)
		}
		if s.done {
			x.endPath(s)
		} else {
			arr = append(arr, s)
		}
	}
	// the current state object must stay usable by our caller, so run a copy
	cp := st.clone()
	runOne(cp)
	for len(local) > 0 && !x.stopAll {
		s := local[len(local)-1]
		local = local[:len(local)-1]
		runOne(s)
	}
	x.nested--
	x.work = saved
	if len(arr) == 0 {
		x.finish(st, "merged away")
		return
	}
	// merge pairwise, restricted to states really at the join
	var out []*State
	for _, s := range arr {
		merged := false
		for i, t := range out {
			if m := x.merge(base, t, s, stop); m != nil {
				out[i] = m
				merged = true
				x.merges++
				break
			}
		}
		if !merged {
			out = append(out, s)
		}
	}
	if len(out) > 1 {
		x.mergeFail++
	}
	*st = *out[0]
	for _, s := range out[1:] {
		x.spawn(s)
	}
}

func (x *Exec) region(info *FnInfo, b *ssa.BasicBlock) (*ssa.BasicBlock, bool) {
	if !info.pdOK {
		info.pdOK = true
		info.ipdom = postDom(info.fn)
		info.acyc = map[*ssa.BasicBlock]bool{}
	}
	stop := info.ipdom[b]
	ok, done := info.acyc[b]
	if !done {
		ok = acyclic(b, stop)
		info.acyc[b] = ok
	}
	return stop, ok
}

// acyclic reports whether the blocks between b and stop form no cycle.
func acyclic(b, stop *ssa.BasicBlock) bool {
	state := map[*ssa.BasicBlock]int{}
	var dfs func(n *ssa.BasicBlock) bool
	dfs = func(n *ssa.BasicBlock) bool {
		if n == stop {
			return true
		}
		switch state[n] {
		case 1:
			return false
		case 2:
			return true
		}
		state[n] = 1
		for _, s := range n.Succs {
			if !dfs(s) {
				return false
			}
		}
		state[n] = 2
		return true
	}
	return dfs(b)
}

// postDom computes immediate post-dominators (nil = function exit).
func postDom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	exit := n
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << uint(i%64)
	}
	pd := make([][]uint64, n+1)
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << uint(exit%64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := append([]uint64(nil), full...)
			if len(b.Succs) == 0 {
				copy(cur, pd[exit])
			}
			for _, s := range b.Succs {
				for w := range cur {
					cur[w] &= pd[s.Index][w]
				}
			}
			cur[i/64] |= 1 << uint(i%64)
			for w := range cur {
				if cur[w] != pd[i][w] {
					pd[i] = cur
					ch = true
					break
				}
			}
		}
	}
	cnt := func(i int) int {
		c := 0
		for _, w := range pd[i] {
			for ; w != 0; w &= w - 1 {
				c++
			}
		}
		return c
	}
	r := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i := 0; i < n; i++ {
		// the immediate post-dominator has the largest own set among strict ones
		best, bc := exit, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]>>uint(j%64)&1 == 1 {
				if c := cnt(j); c > bc {
					best, bc = j, c
				}
			}
		}
		if best != exit {
			r[fn.Blocks[i]] = fn.Blocks[best]
		}
	}
	return r
}

func sameFrames(a, b *State, depth int) bool {
	if len(a.gs) != len(b.gs) || a.cur != b.cur || len(a.g().frames) != len(b.g().frames) {
		return false
	}
	return true
}

// extras lists non-implied constraints added since base.
func extras(p, base *pcNode) []*Term {
	var l []*Term
	for ; p != base; p = p.prev {
		if p == nil {
			return nil
		}
		if !p.implied {
			l = append(l, p.t)
		}
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// merge joins two states that arrived at stop; nil if impossible.
func (x *Exec) merge(base *pcNode, a, b *State, stop *stopPoint) *State {
	if !sameFrames(a, b, stop.depth) {
		return nil
	}
	want := stop.depth
	if stop.block == nil {
		want--
	}
	if len(a.g().frames) != want || want == 0 {
		return nil
	}
	fa, fb := a.top(), b.top()
	if fa.panicking != nil || fb.panicking != nil || fa.running || fb.running || len(fa.defers) != len(fb.defers) || fa.block != fb.block || fa.ip != fb.ip {
		return nil
	}
	if len(a.inited) != len(b.inited) || a.limit != b.limit || a.known != b.known || a.preempt != b.preempt || a.delays != b.delays || a.lastNow != b.lastNow {
		return nil
	}
	if a.nd != b.nd {
		return nil
	}
	for k, v := range a.names {
		if b.names[k] != v {
			return nil
		}
	}
	ea, eb := extras(a.pc, base), extras(b.pc, base)
	var sel *Term
	for i := 0; i < len(ea) && i < len(eb); i++ {
		if ea[i] == eb[i] {
			continue
		}
		if x.c.Not(ea[i]) == eb[i] {
			sel = ea[i]
		}
		break
	}
	if sel == nil {
		sel = x.c.And(ea...)
	}
	// regs of the top frame: only phis of the join (or the call result) may differ
	type regUpd struct {
		i int
		v Value
	}
	var ups []regUpd
	live := map[int]bool{}
	if stop.block != nil {
		for _, in := range fa.block.Instrs[:fa.ip] {
			live[fa.info.idx[in.(*ssa.Phi)]] = true
		}
	} else if fa.ip > 0 {
		if v, ok := fa.block.Instrs[fa.ip-1].(ssa.Value); ok {
			live[fa.info.idx[v]] = true
		}
	}
	for i := range fa.regs {
		va, vb := fa.regs[i], fb.regs[i]
		if sameVal(va, vb) {
			continue
		}
		if !live[i] {
			if stop.block == nil {
				return nil
			}
			ups = append(ups, regUpd{i, Poison{"merged register"}})
			continue
		}
		v, ok := x.mergeVal(sel, va, vb)
		if !ok {
			return nil
		}
		ups = append(ups, regUpd{i, v})
	}
	// heap
	type cellUpd struct {
		id, i int
		v     Value
	}
	var cus []cellUpd
	var adds []*Obj
	ok := true
	diffObjs(&a.heap, &b.heap, func(id int, p, q *Obj) {
		if !ok {
			return
		}
		if p == nil {
			adds = append(adds, q)
			return
		}
		if q == nil {
			return
		}
		if p.n != q.n || len(p.m) != len(q.m) {
			ok = false
			return
		}
		n := len(p.cells)
		if len(q.cells) > n {
			n = len(q.cells)
		}
		for i := 0; i < n; i++ {
			var va, vb Value
			if i < len(p.cells) {
				va = p.cells[i]
			}
			if i < len(q.cells) {
				vb = q.cells[i]
			}
			if sameVal(va, vb) {
				continue
			}
			va, vb = x.cell(p, i), x.cell(q, i)
			v, o := x.mergeVal(sel, va, vb)
			if !o {
				ok = false
				return
			}
			cus = append(cus, cellUpd{id, i, v})
		}
		for i := range p.m {
			if !sameVal(p.m[i].k, q.m[i].k) || !sameVal(p.m[i].v, q.m[i].v) {
				ok = false
				return
			}
		}
		if p.ch != nil && (p.ch.closed != q.ch.closed || len(p.ch.buf) != len(q.ch.buf)) {
			ok = false
			return
		}
		if p.ch != nil {
			for i := range p.ch.buf {
				if !sameVal(p.ch.buf[i], q.ch.buf[i]) {
					ok = false
				}
			}
		}
		if p.it != nil && (p.it.pos != q.it.pos || len(p.it.done) != len(q.it.done)) {
			ok = false
		}
	})
	if !ok {
		return nil
	}
	for k := 0; k < len(a.g().frames)-1; k++ {
		f, g := a.g().frames[k], b.g().frames[k]
		if f.block != g.block || f.ip != g.ip || len(f.defers) != len(g.defers) {
			return nil
		}
		for i := range f.regs {
			if !sameVal(f.regs[i], g.regs[i]) {
				return nil
			}
		}
	}
	r := a
	for _, u := range ups {
		r.top().regs[u.i] = u.v
	}
	for _, u := range cus {
		x.setCell(r.heap.mut(u.id), u.i, u.v)
	}
	for _, o := range adds {
		r.heap.put(o)
	}
	r.pc = base
	x.addPC(r, x.c.Or(x.c.And(ea...), x.c.And(eb...)), false)
	if b.steps > r.steps {
		r.steps = b.steps
	}
	return r
}

func sameVal(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch p := a.(type) {
	case Agg:
		q, ok := b.(Agg)
		if !ok || len(p) != len(q) {
			return false
		}
		for i := range p {
			if !sameVal(p[i], q[i]) {
				return false
			}
		}
		return true
	case Str:
		q, ok := b.(Str)
		if !ok || p.s != q.s || len(p.b) != len(q.b) || (p.b == nil) != (q.b == nil) {
			return false
		}
		for i := range p.b {
			if p.b[i] != q.b[i] {
				return false
			}
		}
		return true
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			return false
		}
		if p.t == nil || q.t == nil {
			return p.t == nil && q.t == nil
		}
		return types.Identical(p.t, q.t) && sameVal(p.v, q.v)
	case *Closure:
		q, ok := b.(*Closure)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		if p == nil || q == nil || p.fn != q.fn || p.bi != q.bi || p.native != nil || q.native != nil || len(p.binds) != len(q.binds) {
			return false
		}
		for i := range p.binds {
			if !sameVal(p.binds[i], q.binds[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// ---------------------------------------------------------------- operators

func (x *Exec) unop(st *State, fr *Frame, in *ssa.UnOp) {
	if in.Op == token.ARROW {
		x.chanOp(st, fr, in)
		return
	}
	a := x.get(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		v := x.load(st, a, in.Type())
		if v == nil {
			return
		}
		x.set(fr, in, v)
	case token.NOT:
		x.set(fr, in, x.c.Not(x.term(a)))
	case token.SUB:
		if f, ok := a.(Float); ok {
			x.set(fr, in, -f)
		} else {
			x.set(fr, in, x.c.Neg(x.term(a)))
		}
	case token.XOR:
		x.set(fr, in, x.c.Bnot(x.term(a)))
	default:
		unsup("unop %s", in.Op)
	}
	fr.ip++
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		// comparisons with nil may mix representations
		if s, ok := a.(SymPtr); ok {
			if q, ok := b.(Ptr); ok && q.obj == 0 {
				_ = s
				return c.Bool(op == token.NEQ)
			}
		}
		if ia, ok := a.(Iface); ok {
			if _, ok := b.(Iface); !ok {
				b = Iface{tb, b}
			}
			_ = ia
		} else if _, ok := b.(Iface); ok {
			a = Iface{ta, a}
		}
		t := x.eqVal(a, b)
		if op == token.NEQ {
			t = c.Not(t)
		}
		return t
	}
	if fa, ok := a.(Float); ok {
		fb := b.(Float)
		switch op {
		case token.ADD:
			return fa + fb
		case token.SUB:
			return fa - fb
		case token.MUL:
			return fa * fb
		case token.QUO:
			return fa / fb
		case token.LSS:
			return c.Bool(fa < fb)
		case token.GTR:
			return c.Bool(fa > fb)
		case token.LEQ:
			return c.Bool(fa <= fb)
		case token.GEQ:
			return c.Bool(fa >= fb)
		}
		unsup("float op %s", op)
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch op {
		case token.ADD:
			if sa.b == nil && sb.b == nil {
				return Str{s: sa.s + sb.s}
			}
			return mkStr(append(append([]*Term{}, x.strBytes(sa)...), x.strBytes(sb)...))
		case token.LSS:
			return x.bytesLess(x.strBytes(sa), x.strBytes(sb))
		case token.GTR:
			return x.bytesLess(x.strBytes(sb), x.strBytes(sa))
		case token.LEQ:
			return c.Not(x.bytesLess(x.strBytes(sb), x.strBytes(sa)))
		case token.GEQ:
			return c.Not(x.bytesLess(x.strBytes(sa), x.strBytes(sb)))
		}
		unsup("string op %s", op)
	}
	p, q := x.term(a), x.term(b)
	w, signed := intWidth(ta)
	switch op {
	case token.ADD:
		return c.Add(p, q)
	case token.SUB:
		return c.Sub(p, q)
	case token.MUL:
		return c.Mul(p, q)
	case token.QUO, token.REM:
		if x.split(st, c.Eq(q, c.Const(w, 0))) {
			x.rtPanic(st, "integer divide by zero")
			return nil
		}
		if op == token.QUO {
			if signed {
				return c.Sdiv(p, q)
			}
			return c.Udiv(p, q)
		}
		if signed {
			return c.Srem(p, q)
		}
		return c.Urem(p, q)
	case token.AND:
		if w == 0 {
			return c.And(p, q)
		}
		return c.Band(p, q)
	case token.OR:
		if w == 0 {
			return c.Or(p, q)
		}
		return c.Bor(p, q)
	case token.XOR:
		return c.Bxor(p, q)
	case token.AND_NOT:
		return c.Band(p, c.Bnot(q))
	case token.SHL, token.SHR:
		wy, sy := intWidth(tb)
		if sy && !q.IsConst() {
			if x.split(st, c.Slt(q, c.Const(wy, 0))) {
				x.rtPanic(st, "negative shift amount")
				return nil
			}
		} else if sy && q.Signed() < 0 {
			x.rtPanic(st, "negative shift amount")
			return nil
		}
		var big *Term
		var s *Term
		if wy > w {
			big = c.Not(c.Ult(q, c.Const(wy, uint64(w))))
			s = c.Extract(q, w-1, 0)
		} else {
			s = c.Zext(q, w)
		}
		var r, over *Term
		if op == token.SHL {
			r, over = c.Shl(p, s), c.Const(w, 0)
		} else if signed {
			r, over = c.Ashr(p, s), c.Ashr(p, c.Const(w, uint64(w-1)))
		} else {
			r, over = c.Lshr(p, s), c.Const(w, 0)
		}
		if big != nil {
			return c.Ite(big, over, r)
		}
		return r
	case token.LSS:
		if signed {
			return c.Slt(p, q)
		}
		return c.Ult(p, q)
	case token.LEQ:
		if signed {
			return c.Sle(p, q)
		}
		return c.Ule(p, q)
	case token.GTR:
		if signed {
			return c.Slt(q, p)
		}
		return c.Ult(q, p)
	case token.GEQ:
		if signed {
			return c.Sle(q, p)
		}
		return c.Ule(q, p)
	}
	unsup("binop %s", op)
	return nil
}

// bytesLess is lexicographic comparison of byte strings.
func (x *Exec) bytesLess(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	if n == 0 {
		return x.c.Bool(len(a) < len(b))
	}
	p, q := x.c.Concat(a[:n]...), x.c.Concat(b[:n]...)
	if len(a) < len(b) {
		return x.c.Ule(p, q)
	}
	return x.c.Ult(p, q)
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		wt, _ := basicWidth(tb)
		switch {
		case tb.Info()&types.IsInteger != 0:
			if f, ok := v.(Float); ok {
				return x.c.Const(wt, uint64(int64(f)))
			}
			if p, ok := v.(Ptr); ok {
				_ = p
				unsup("pointer to integer")
			}
			t := x.term(v)
			wf, sf := intWidth(from)
			if wt <= wf {
				return x.c.Extract(t, wt-1, 0)
			}
			if sf {
				return x.c.Sext(t, wt)
			}
			return x.c.Zext(t, wt)
		case tb.Info()&types.IsFloat != 0:
			if f, ok := v.(Float); ok {
				if tb.Kind() == types.Float32 {
					return Float(float32(f))
				}
				return f
			}
			t := x.term(v)
			if !t.IsConst() {
				unsup("symbolic integer to float")
			}
			_, sf := intWidth(from)
			if sf {
				return Float(t.Signed())
			}
			return Float(t.k)
		case tb.Info()&types.IsString != 0:
			switch f := fu.(type) {
			case *types.Slice:
				s := v.(Slice)
				eb, _ := f.Elem().Underlying().(*types.Basic)
				if eb.Kind() == types.Uint8 {
					return mkStr(x.bytesOf(st, s))
				}
				n := x.constLen(st, s)
				var sb strings.Builder
				for i := 0; i < n; i++ {
					t := x.term(x.sliceElem(st, s, i, f.Elem()))
					if !t.IsConst() {
						unsup("symbolic rune to string")
					}
					sb.WriteRune(rune(t.Signed()))
				}
				return Str{s: sb.String()}
			case *types.Basic:
				if f.Info()&types.IsString != 0 {
					return v
				}
				t := x.term(v)
				if !t.IsConst() {
					unsup("symbolic rune to string")
				}
				return Str{s: string(rune(t.Signed()))}
			}
		case tb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			eb := ts.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return x.newBytes(st, x.strBytes(s))
			}
			if s.b != nil {
				unsup("symbolic string to runes")
			}
			var l []*Term
			for _, r := range s.s {
				l = append(l, x.c.Const(32, uint64(r)))
			}
			o := x.newObj(st, ts.Elem(), len(l))
			for i, t := range l {
				x.setCell(o, i, t)
			}
			n := x.k64(int64(len(l)))
			return Slice{o.id, 0, n, n}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) indexAddr(st *State, fr *Frame, in *ssa.IndexAddr) {
	v := x.get(st, fr, in.X)
	idx := x.i64(x.get(st, fr, in.Index), in.Index.Type())
	var et types.Type
	var ln *Term
	var obj, off int
	switch p := v.(type) {
	case Slice:
		et = in.X.Type().Underlying().(*types.Slice).Elem()
		ln, obj, off = p.len, p.obj, p.off
	case Ptr:
		a := deref(in.X.Type()).Underlying().(*types.Array)
		et = a.Elem()
		if p.obj == 0 {
			x.rtPanic(st, "invalid memory address or nil pointer dereference")
			return
		}
		ln, obj, off = x.k64(a.Len()), p.obj, p.off
	case SymPtr:
		k := int(x.concretize(st, p.idx))
		a := deref(in.X.Type()).Underlying().(*types.Array)
		et = a.Elem()
		ln, obj, off = x.k64(a.Len()), p.obj, p.off+k*p.stride
	default:
		unsup("indexaddr of %T", v)
	}
	if !x.bounds(st, idx, ln) {
		return
	}
	sz := x.size(et)
	if idx.IsConst() {
		x.set(fr, in, Ptr{obj, off + int(idx.k)*sz})
	} else {
		n := 0
		if ln.IsConst() {
			n = int(ln.k)
		} else if o := st.heap.get(obj); o.n >= 0 {
			n = (o.n - off) / max(sz, 1)
		}
		if n == 0 || n > 2048 {
			k := int(x.concretize(st, idx))
			x.set(fr, in, Ptr{obj, off + k*sz})
		} else {
			x.set(fr, in, SymPtr{obj, off, idx, sz, n})
		}
	}
	fr.ip++
}

// bounds checks 0 <= idx < ln, panicking when violated.
func (x *Exec) bounds(st *State, idx, ln *Term) bool {
	if !x.split(st, x.c.Ult(idx, ln)) {
		x.rtPanic(st, fmt.Sprintf("index out of range [%s] with length %s", termStr(idx), termStr(ln)))
		return false
	}
	return true
}

func termStr(t *Term) string {
	if t.IsConst() {
		return fmt.Sprint(t.Signed())
	}
	return "?"
}

func (x *Exec) index(st *State, fr *Frame, in *ssa.Index) {
	v := x.get(st, fr, in.X)
	idx := x.i64(x.get(st, fr, in.Index), in.Index.Type())
	switch a := v.(type) {
	case Str:
		if !x.bounds(st, idx, x.k64(int64(a.length()))) {
			return
		}
		x.set(fr, in, x.strIndex(st, a, idx))
	case Agg:
		u := in.X.Type().Underlying().(*types.Array)
		if !x.bounds(st, idx, x.k64(u.Len())) {
			return
		}
		sz := x.size(u.Elem())
		if idx.IsConst() {
			k := int(idx.k)
			x.set(fr, in, x.sub(a, k*sz, (k+1)*sz, u.Elem()))
		} else {
			n := int(u.Len())
			r := append(Agg(nil), a[(n-1)*sz:n*sz]...)
			for k := n - 2; k >= 0; k-- {
				for i := 0; i < sz; i++ {
					m, ok := x.mergeVal(x.c.Eq(idx, x.k64(int64(k))), a[k*sz+i], r[i])
					if !ok {
						unsup("symbolic index into array value")
					}
					r[i] = m
				}
			}
			x.set(fr, in, x.sub(r, 0, sz, u.Elem()))
		}
	default:
		unsup("index of %T", v)
	}
	fr.ip++
}

func (x *Exec) strIndex(st *State, s Str, idx *Term) Value {
	b := x.strBytes(s)
	if idx.IsConst() {
		return b[idx.k]
	}
	lo, hi := 0, len(b)-1
	if idx.rok {
		if idx.rlo < uint64(len(b)) {
			lo = int(idx.rlo)
		}
		if idx.rhi < uint64(hi) {
			hi = int(idx.rhi)
		}
	}
	r := b[hi]
	for k := hi - 1; k >= lo; k-- {
		r = x.c.Ite(x.c.Eq(idx, x.k64(int64(k))), b[k], r)
	}
	return r
}

func (x *Exec) sliceOp(st *State, fr *Frame, in *ssa.Slice) {
	v := x.get(st, fr, in.X)
	opt := func(o ssa.Value) *Term {
		if o == nil {
			return nil
		}
		return x.i64(x.get(st, fr, o), o.Type())
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if s, ok := v.(Str); ok {
		n := x.k64(int64(s.length()))
		if lo == nil {
			lo = x.k64(0)
		}
		if hi == nil {
			hi = n
		}
		if !x.split(st, x.c.And(x.c.Ule(lo, hi), x.c.Ule(hi, n))) {
			x.rtPanic(st, "slice bounds out of range")
			return
		}
		l, h := int(x.concretize(st, lo)), int(x.concretize(st, hi))
		if s.b == nil {
			x.set(fr, in, Str{s: s.s[l:h]})
		} else {
			x.set(fr, in, mkStr(s.b[l:h:h]))
		}
		fr.ip++
		return
	}
	var obj, off int
	var ln, cp *Term
	var et types.Type
	switch p := v.(type) {
	case Slice:
		obj, off, ln, cp = p.obj, p.off, p.len, p.cap
		et = in.X.Type().Underlying().(*types.Slice).Elem()
	case Ptr:
		a := deref(in.X.Type()).Underlying().(*types.Array)
		if p.obj == 0 {
			x.rtPanic(st, "invalid memory address or nil pointer dereference")
			return
		}
		et = a.Elem()
		obj, off, ln = p.obj, p.off, x.k64(a.Len())
		cp = ln
	case SymPtr:
		k := int(x.concretize(st, p.idx))
		a := deref(in.X.Type()).Underlying().(*types.Array)
		et = a.Elem()
		obj, off, ln = p.obj, p.off+k*p.stride, x.k64(a.Len())
		cp = ln
	default:
		unsup("slice of %T", v)
	}
	if lo == nil {
		lo = x.k64(0)
	}
	if hi == nil {
		hi = ln
	}
	top := cp
	if mx != nil {
		top = mx
	}
	ok := x.c.And(x.c.Ule(lo, hi), x.c.Ule(hi, top))
	if mx != nil {
		ok = x.c.And(ok, x.c.Ule(mx, cp))
	}
	if !x.split(st, ok) {
		x.rtPanic(st, fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %s", termStr(lo), termStr(hi), termStr(top)))
		return
	}
	l := int(x.concretize(st, lo))
	lt := x.k64(int64(l))
	if obj == 0 {
		x.set(fr, in, x.nilSlice)
	} else {
		x.set(fr, in, Slice{obj, off + l*x.size(et), x.c.Sub(hi, lt), x.c.Sub(top, lt)})
	}
	fr.ip++
}

func (x *Exec) makeSlice(st *State, fr *Frame, in *ssa.MakeSlice) {
	ln := x.i64(x.get(st, fr, in.Len), in.Len.Type())
	cp := x.i64(x.get(st, fr, in.Cap), in.Cap.Type())
	et := in.Type().Underlying().(*types.Slice).Elem()
	s, ok := x.allocSlice(st, et, ln, cp)
	if !ok {
		return
	}
	x.set(fr, in, s)
	fr.ip++
}

func (x *Exec) elemBytes(et types.Type) int64 {
	return x.eng.sizes.Sizeof(et)
}

func (x *Exec) allocSlice(st *State, et types.Type, ln, cp *Term) (Slice, bool) {
	es := x.elemBytes(et)
	maxN := int64(1) << 47
	if es > 0 {
		maxN /= es
	}
	if !x.split(st, x.c.Ule(ln, x.k64(maxN))) {
		x.rtPanic(st, "makeslice: len out of range")
		return Slice{}, false
	}
	if ln != cp {
		if !x.split(st, x.c.And(x.c.Ule(ln, cp), x.c.Ule(cp, x.k64(maxN)))) {
			x.rtPanic(st, "makeslice: cap out of range")
			return Slice{}, false
		}
	}
	if st.limit > 0 && es > 0 {
		lim := st.limit / es
		x.assert(st, x.c.Ule(cp, x.k64(lim)), fmt.Sprintf("single allocation stays within %d bytes", st.limit), st.known)
		if st.done {
			return Slice{}, false
		}
	}
	n := -1
	if cp.IsConst() {
		n = int(cp.k) * x.size(et)
	}
	o := x.newObj(st, et, n)
	return Slice{o.id, 0, ln, cp}, true
}

// ---------------------------------------------------------------- maps

func (x *Exec) mapFind(st *State, o *Obj, k Value) int {
	for i := range o.m {
		if x.split(st, x.eqVal(o.m[i].k, k)) {
			return i
		}
	}
	return -1
}

func (x *Exec) mapSet(st *State, m MapRef, k, v Value) {
	o := st.heap.get(m.obj)
	i := x.mapFind(st, o, k)
	o = st.heap.mut(m.obj)
	if i >= 0 {
		o.m[i].v = v
	} else {
		o.m = append(o.m, mapEntry{k, v})
	}
}

func (x *Exec) lookup(st *State, fr *Frame, in *ssa.Lookup) {
	v := x.get(st, fr, in.X)
	if s, ok := v.(Str); ok {
		idx := x.i64(x.get(st, fr, in.Index), in.Index.Type())
		if !x.bounds(st, idx, x.k64(int64(s.length()))) {
			return
		}
		x.set(fr, in, x.strIndex(st, s, idx))
		fr.ip++
		return
	}
	m := v.(MapRef)
	mt := in.X.Type().Underlying().(*types.Map)
	var r Value
	found := false
	if m.obj != 0 {
		o := st.heap.get(m.obj)
		if i := x.mapFind(st, o, x.get(st, fr, in.Index)); i >= 0 {
			r, found = o.m[i].v, true
		}
	}
	if !found {
		r = x.zero(mt.Elem())
	}
	if in.CommaOk {
		r = Agg{r, x.c.Bool(found)}
	}
	x.set(fr, in, r)
	fr.ip++
}

func (x *Exec) next(st *State, fr *Frame, in *ssa.Next) {
	it := x.get(st, fr, in.Iter).(IterRef)
	d := st.heap.get(it.obj).it
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		if d.str.b != nil {
			// ASCII only beyond this point
			if d.pos >= len(d.str.b) {
				x.set(fr, in, Agg{x.c.False, x.k64(0), x.c.Const(32, 0)})
			} else {
				b := d.str.b[d.pos]
				if !x.split(st, x.c.Ult(b, x.c.Const(8, 0x80))) {
					unsup("range over symbolic non-ASCII string")
				}
				x.set(fr, in, Agg{x.c.True, x.k64(int64(d.pos)), x.c.Zext(b, 32)})
				st.heap.mut(it.obj).it.pos++
			}
			fr.ip++
			return
		}
		if d.pos >= len(d.str.s) {
			x.set(fr, in, Agg{x.c.False, x.k64(0), x.c.Const(32, 0)})
		} else {
			r, n := utf8.DecodeRuneInString(d.str.s[d.pos:])
			x.set(fr, in, Agg{x.c.True, x.k64(int64(d.pos)), x.c.Const(32, uint64(r))})
			st.heap.mut(it.obj).it.pos += n
		}
		fr.ip++
		return
	}
	zk, zv := Value(x.c.False), Value(x.c.False)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return x.c.False
		}
		return x.zero(t)
	}
	var rem []int
	var o *Obj
	if d.m != 0 {
		o = st.heap.get(d.m)
		for i := range o.m {
			seen := false
			for _, k := range d.done {
				if k2 := x.eqVal(k, o.m[i].k); k2.IsTrue() {
					seen = true
				}
			}
			if !seen {
				rem = append(rem, i)
			}
		}
	}
	if len(rem) == 0 {
		zk, zv = z(tt.At(1).Type()), z(tt.At(2).Type())
		x.set(fr, in, Agg{x.c.False, zk, zv})
		fr.ip++
		return
	}
	k := 0
	if x.opt.MapOrder == "any" && !x.inInit(st) {
		k = x.choose(st, len(rem))
	}
	e := o.m[rem[k]]
	m := st.heap.mut(it.obj)
	m.it.done = append(m.it.done, e.k)
	x.set(fr, in, Agg{x.c.True, e.k, e.v})
	fr.ip++
}

func (x *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) {
	i, ok := x.get(st, fr, in.X).(Iface)
	if !ok {
		unsup("typeassert of %T", x.get(st, fr, in.X))
	}
	good := false
	var v Value
	if i.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(i.t, it)
			v = i
		} else {
			good = types.Identical(i.t, in.AssertedType)
			v = i.v
		}
	}
	if in.CommaOk {
		if !good {
			v = x.zero(in.AssertedType)
		}
		x.set(fr, in, Agg{v, x.c.Bool(good)})
		fr.ip++
		return
	}
	if !good {
		x.doPanic(st, Iface{x.eng.rtErr, Str{s: "interface conversion"}}, fmt.Sprintf("interface conversion: interface is %v, not %s", i.t, in.AssertedType))
		return
	}
	x.set(fr, in, v)
	fr.ip++
}
