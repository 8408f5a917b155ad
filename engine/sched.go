package main

// Goroutines, channels and locks. Goroutines switch only at synchronisation
// operations; switching away from a goroutine that could continue costs one
// unit of the preemption bound.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) spawnG(st *State, cl *Closure, args []Value, in ssa.Instruction) {
	if cl == nil {
		x.rtPanic(st, "go of nil func value")
		return
	}
	if x.inInit(st) {
		return
	}
	g := &Gor{id: len(st.gs), name: "go@" + x.pos(in)}
	st.gs = append(st.gs, g)
	if len(st.gs) > 40 {
		unsup("more than 40 goroutines")
	}
	if cl.fn == nil {
		unsup("go of builtin or native function")
	}
	cur := st.cur
	st.cur = len(st.gs) - 1
	if i := x.info(cl.fn); i.intr != nil {
		st.cur = cur
		unsup("go of intrinsic %s", i.name)
	}
	x.callFn(st, cl.fn, args, cl.binds, -1, nil)
	st.cur = cur
	st.g().yielded = false
	if x.opt.Race {
		p := st.g()
		g.vc = p.vc
		g.tick()
		p.tick()
	}
	x.event(st, st.g(), in)
}

func (x *Exec) runnable(st *State) []int {
	var r []int
	for i, g := range st.gs {
		if g.status == gRun && len(g.frames) > 0 {
			r = append(r, i)
		}
	}
	return r
}

func (x *Exec) trace(st *State, s string) {
	st.sched = &strNode{s, st.sched}
}

// yieldPoint may switch to another goroutine before a synchronisation
// operation; true if it did.
func (x *Exec) yieldPoint(st *State) bool {
	g := st.g()
	if g.yielded {
		g.yielded = false
		return false
	}
	if st.preempt >= x.opt.Preempt || x.inInit(st) {
		return false
	}
	r := x.runnable(st)
	if len(r) < 2 {
		return false
	}
	opts := []int{st.cur}
	for _, i := range r {
		if i != st.cur {
			opts = append(opts, i)
		}
	}
	k := x.choose(st, len(opts))
	if k == 0 {
		return false
	}
	g.yielded = true
	st.preempt++
	st.cur = opts[k]
	x.trace(st, fmt.Sprintf("preempt g%d -> g%d", g.id, st.cur))
	return true
}

// schedule picks the next goroutine when the current one cannot run.
func (x *Exec) schedule(st *State) {
	r := x.runnable(st)
	if len(r) == 0 {
		// sleepers wake before an idle waiter only if nobody waits for idleness
		for i, g := range st.gs {
			if g.status == gBlocked && g.wait != nil && g.wait.kind == "idle" {
				g.status, g.wait = gRun, nil
				st.cur = i
				return
			}
		}
		woke := false
		for _, g := range st.gs {
			if g.status == gBlocked && g.wait != nil && g.wait.kind == "sleep" {
				g.status, g.wait = gRun, nil
				woke = true
			}
		}
		if woke {
			if m := st.gs[0]; m.status == gBlocked { // time passes, but not for the harness
				st.stuck++
			} else {
				st.stuck = 0
			}
			if st.stuck <= 50 {
				x.schedule(st)
				return
			}
		}
		x.oblige("no deadlock")
		var l []string
		for _, g := range st.gs {
			if g.status == gBlocked {
				k := "?"
				if g.wait != nil {
					k = g.wait.kind
				}
				fr := g.frames[len(g.frames)-1]
				l = append(l, fmt.Sprintf("%s in %s", k, fr.info.name))
			}
		}
		sort.Strings(l)
		x.violate(st, "deadlock", "goroutines blocked for ever: "+strings.Join(l, "; "), st.ev, nil, st.known)
		x.finish(st, "violation")
		return
	}
	for i := range r { // round robin
		if r[i] > st.cur {
			r = append(append([]int(nil), r[i:]...), r[:i]...)
			break
		}
	}
	st.chPos = 0
	k := 0
	if x.opt.Delays < 0 || st.delays < x.opt.Delays {
		k = x.choose(st, len(r))
		if k > 0 {
			st.delays++
		}
	}
	st.choices = st.choices[:0]
	if r[k] == 0 {
		st.stuck = 0
	}
	if st.cur != r[k] {
		x.trace(st, fmt.Sprintf("g%d -> g%d", st.cur, r[k]))
	}
	st.cur = r[k]
}

func (x *Exec) block(st *State, w *waitOp) {
	g := st.g()
	g.status = gBlocked
	g.wait = w
}

// wake makes a blocked goroutine re-execute its instruction.
func (g *Gor) wake() {
	g.status = gRun
	g.wait = nil
	g.yielded = true
}

func (x *Exec) wakeChan(st *State, ch int, sends, recvs bool) {
	for _, g := range st.gs {
		if g.status != gBlocked || g.wait == nil {
			continue
		}
		w := g.wait
		switch w.kind {
		case "send":
			if w.ch == ch && sends {
				g.wake()
			}
		case "recv":
			if w.ch == ch && recvs {
				g.wake()
			}
		case "select":
			for _, c := range w.cases {
				if c.ch == ch && (c.send && sends || !c.send && recvs) {
					g.wake()
					break
				}
			}
		}
	}
}

func (x *Exec) wakePtr(st *State, p Ptr, kinds ...string) {
	for _, g := range st.gs {
		if g.status == gBlocked && g.wait != nil && g.wait.ptr == p {
			for _, k := range kinds {
				if g.wait.kind == k {
					g.wake()
					break
				}
			}
		}
	}
}

func (x *Exec) chanClose(st *State, c ChanRef) {
	if c.obj == 0 {
		x.doPanic(st, Iface{x.eng.rtErr, Str{s: "close of nil channel"}}, "close of nil channel")
		return
	}
	o := st.heap.mut(c.obj)
	if o.ch.closed {
		x.doPanic(st, Iface{x.eng.rtErr, Str{s: "close of closed channel"}}, "close of closed channel")
		return
	}
	o.ch.closed = true
	x.rel(st, st.g(), Ptr{c.obj, -1})
	x.wakeChan(st, c.obj, true, true)
}

type partner struct {
	g, c int // goroutine, select case or -1
}

// partners finds blocked goroutines that can pair with an operation on ch.
func (x *Exec) partners(st *State, ch int, wantSend bool) []partner {
	var r []partner
	for i, g := range st.gs {
		if i == st.cur || g.status != gBlocked || g.wait == nil {
			continue
		}
		w := g.wait
		switch w.kind {
		case "send":
			if wantSend && w.ch == ch {
				r = append(r, partner{i, -1})
			}
		case "recv":
			if !wantSend && w.ch == ch {
				r = append(r, partner{i, -1})
			}
		case "select":
			for k, c := range w.cases {
				if c.ch == ch && c.send == wantSend {
					r = append(r, partner{i, k})
					break
				}
			}
		}
	}
	return r
}

// complete finishes the blocked operation of a goroutine.
func (x *Exec) complete(st *State, p partner, v Value, ok bool) {
	g := st.gs[p.g]
	fr := g.frames[len(g.frames)-1]
	in := g.wait.instr
	x.event(st, g, in)
	x.finishOp(st, fr, in, p.c, v, ok)
	g.status = gRun
	g.wait = nil
	if x.opt.Race { // a rendezvous orders both ways
		a := st.g()
		g.vc, a.vc = join(g.vc, a.vc), join(a.vc, g.vc)
		g.tick()
		a.tick()
	}
}

func (x *Exec) finishOp(st *State, fr *Frame, in ssa.Instruction, c int, v Value, ok bool) {
	switch in := in.(type) {
	case *ssa.Send:
	case *ssa.UnOp:
		if in.CommaOk {
			x.set(fr, in, Agg{v, x.c.Bool(ok)})
		} else {
			x.set(fr, in, v)
		}
	case *ssa.Select:
		r := Agg{x.k64(int64(c)), x.c.Bool(ok)}
		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == c {
				r = append(r, v)
			} else {
				r = append(r, x.zero(et))
			}
		}
		x.set(fr, in, r)
	default:
		unsup("completing %T", in)
	}
	fr.ip++
}

// trySend attempts a send; done tells whether it took place.
func (x *Exec) canSend(st *State, ch int) bool {
	if ch == 0 {
		return false
	}
	d := st.heap.get(ch).ch
	if d.closed {
		return true
	}
	if len(d.buf) < d.cap {
		return true
	}
	return d.cap == 0 && len(x.partners(st, ch, false)) > 0
}

func (x *Exec) canRecv(st *State, ch int) bool {
	if ch == 0 {
		return false
	}
	d := st.heap.get(ch).ch
	if len(d.buf) > 0 || d.closed {
		return true
	}
	return d.cap == 0 && len(x.partners(st, ch, true)) > 0
}

// doSend performs an enabled send; false if it panicked.
func (x *Exec) doSend(st *State, ch int, v Value) bool {
	o := st.heap.mut(ch)
	if o.ch.closed {
		x.doPanic(st, Iface{x.eng.rtErr, Str{s: "send on closed channel"}}, "send on closed channel")
		return false
	}
	if o.ch.cap == 0 {
		ps := x.partners(st, ch, false)
		p := ps[x.choose(st, len(ps))]
		x.complete(st, p, v, true)
		return true
	}
	o.ch.buf = append(o.ch.buf, v)
	x.acq(st, st.g(), Ptr{ch, -1})
	x.rel(st, st.g(), Ptr{ch, -1})
	x.wakeChan(st, ch, false, true)
	return true
}

func (x *Exec) doRecv(st *State, ch int) (Value, bool) {
	o := st.heap.mut(ch)
	if len(o.ch.buf) > 0 {
		v := o.ch.buf[0]
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		x.acq(st, st.g(), Ptr{ch, -1})
		x.rel(st, st.g(), Ptr{ch, -1})
		x.wakeChan(st, ch, true, false)
		return v, true
	}
	if o.ch.closed {
		x.acq(st, st.g(), Ptr{ch, -1})
		return x.zero(o.ch.elem), false
	}
	ps := x.partners(st, ch, true)
	p := ps[x.choose(st, len(ps))]
	w := st.gs[p.g].wait
	v := w.val
	if p.c >= 0 {
		v = w.cases[p.c].val
	}
	x.complete(st, p, x.c.False, false)
	return v, true
}

func (x *Exec) chanOp(st *State, fr *Frame, in ssa.Instruction) {
	if x.yieldPoint(st) {
		return
	}
	switch in := in.(type) {
	case *ssa.Send:
		ch := x.get(st, fr, in.Chan).(ChanRef)
		v := x.get(st, fr, in.X)
		if !x.canSend(st, ch.obj) {
			x.block(st, &waitOp{kind: "send", ch: ch.obj, val: v, instr: in})
			return
		}
		if x.doSend(st, ch.obj, v) {
			x.event(st, st.g(), in)
			fr.ip++
		}
	case *ssa.UnOp:
		if in.Op != token.ARROW {
			unsup("chanOp %s", in.Op)
		}
		ch := x.get(st, fr, in.X).(ChanRef)
		if !x.canRecv(st, ch.obj) {
			x.block(st, &waitOp{kind: "recv", ch: ch.obj, instr: in})
			return
		}
		v, ok := x.doRecv(st, ch.obj)
		x.event(st, st.g(), in)
		x.finishOp(st, fr, in, 0, v, ok)
	case *ssa.Select:
		var cases []selCase
		var ready []int
		for i, s := range in.States {
			ch := x.get(st, fr, s.Chan).(ChanRef)
			c := selCase{send: s.Dir == types.SendOnly, ch: ch.obj}
			if c.send {
				c.val = x.get(st, fr, s.Send)
				if x.canSend(st, c.ch) {
					ready = append(ready, i)
				}
			} else if x.canRecv(st, c.ch) {
				ready = append(ready, i)
			}
			cases = append(cases, c)
		}
		if len(ready) == 0 {
			if !in.Blocking {
				x.event(st, st.g(), in)
				x.finishOp(st, fr, in, -1, x.c.False, false)
				return
			}
			x.block(st, &waitOp{kind: "select", cases: cases, instr: in})
			return
		}
		k := ready[x.choose(st, len(ready))]
		if len(ready) > 1 {
			x.trace(st, fmt.Sprintf("g%d select case %d", st.cur, k))
		}
		if cases[k].send {
			if x.doSend(st, cases[k].ch, cases[k].val) {
				x.event(st, st.g(), in)
				x.finishOp(st, fr, in, k, x.c.False, false)
			}
			return
		}
		v, ok := x.doRecv(st, cases[k].ch)
		x.event(st, st.g(), in)
		x.finishOp(st, fr, in, k, v, ok)
	}
}

// ---------------------------------------------------------------- sync

func (x *Exec) leafPtr(st *State, v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case SymPtr:
		k := int(x.concretize(st, p.idx))
		return Ptr{p.obj, p.off + k*p.stride}
	}
	unsup("sync object through %T", v)
	return Ptr{}
}

func (x *Exec) nilRecv(st *State, p Ptr) bool {
	if p.obj == 0 {
		x.rtPanic(st, "invalid memory address or nil pointer dereference")
		return true
	}
	return false
}

// rkey is the key of a lock's readers.
func rkey(p Ptr) Ptr { return Ptr{p.obj, -2 - p.off} }

func syncIntrinsics(m map[string]intrinsic) {
	mutex := func(f func(x *Exec, st *State, p Ptr, v MutexVal) Value) intrinsic {
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			p := x.leafPtr(st, args[0])
			if x.nilRecv(st, p) {
				return nil
			}
			if x.inInit(st) {
				return nil
			}
			if at != nil && x.yieldPoint(st) {
				return blockedMark{}
			}
			v, ok := x.cell(st.heap.get(p.obj), p.off).(MutexVal)
			if !ok {
				unsup("mutex cell")
			}
			r := f(x, st, p, v)
			if _, b := r.(blockedMark); b && at == nil {
				unsup("blocking lock in deferred call")
			} else if !b {
				x.event(st, st.g(), at)
			}
			return r
		}
	}
	set := func(x *Exec, st *State, p Ptr, v MutexVal) { x.setCell(st.heap.mut(p.obj), p.off, v) }
	lock := mutex(func(x *Exec, st *State, p Ptr, v MutexVal) Value {
		if v.w || v.r > 0 {
			x.block(st, &waitOp{kind: "lock", ptr: p})
			return blockedMark{}
		}
		set(x, st, p, MutexVal{w: true})
		x.acq(st, st.g(), p)
		x.acq(st, st.g(), rkey(p))
		return nil
	})
	fatal := func(x *Exec, st *State, msg string) Value {
		x.violate(st, "panic", "fatal error: "+msg+"\n"+firstLines(x.stack(st), 3), st.ev, nil, st.known)
		x.finish(st, "violation")
		return nil
	}
	unlock := mutex(func(x *Exec, st *State, p Ptr, v MutexVal) Value {
		if !v.w {
			return fatal(x, st, "sync: unlock of unlocked mutex")
		}
		set(x, st, p, MutexVal{})
		x.rel(st, st.g(), p)
		x.wakePtr(st, p, "lock", "rlock")
		return nil
	})
	try := mutex(func(x *Exec, st *State, p Ptr, v MutexVal) Value {
		if v.w || v.r > 0 {
			return x.c.False
		}
		set(x, st, p, MutexVal{w: true})
		x.acq(st, st.g(), p)
		x.acq(st, st.g(), rkey(p))
		return x.c.True
	})
	for _, t := range []string{"Mutex", "RWMutex"} {
		m["(*sync."+t+").Lock"] = lock
		m["(*sync."+t+").Unlock"] = unlock
		m["(*sync."+t+").TryLock"] = try
	}
	m["(*sync.RWMutex).RLock"] = mutex(func(x *Exec, st *State, p Ptr, v MutexVal) Value {
		if v.w {
			x.block(st, &waitOp{kind: "rlock", ptr: p})
			return blockedMark{}
		}
		// a waiting writer blocks new readers
		for _, g := range st.gs {
			if g.status == gBlocked && g.wait != nil && g.wait.kind == "lock" && g.wait.ptr == p && v.r > 0 {
				x.block(st, &waitOp{kind: "rlock", ptr: p})
				return blockedMark{}
			}
		}
		set(x, st, p, MutexVal{r: v.r + 1})
		x.acq(st, st.g(), p)
		return nil
	})
	m["(*sync.RWMutex).RUnlock"] = mutex(func(x *Exec, st *State, p Ptr, v MutexVal) Value {
		if v.r <= 0 {
			return fatal(x, st, "sync: RUnlock of unlocked RWMutex")
		}
		set(x, st, p, MutexVal{r: v.r - 1})
		x.rel(st, st.g(), rkey(p))
		x.wakePtr(st, p, "lock", "rlock")
		return nil
	})
	wg := func(f func(x *Exec, st *State, p Ptr, n int, args []Value) Value) intrinsic {
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			p := x.leafPtr(st, args[0])
			if x.nilRecv(st, p) {
				return nil
			}
			if at != nil && x.yieldPoint(st) {
				return blockedMark{}
			}
			v, ok := x.cell(st.heap.get(p.obj), p.off).(WGVal)
			if !ok {
				unsup("waitgroup cell")
			}
			r := f(x, st, p, v.n, args)
			if _, b := r.(blockedMark); !b {
				x.event(st, st.g(), at)
			}
			return r
		}
	}
	add := func(x *Exec, st *State, p Ptr, n, d int) Value {
		n += d
		if n < 0 {
			x.doPanic(st, Iface{x.eng.rtErr, Str{s: "sync: negative WaitGroup counter"}}, "sync: negative WaitGroup counter")
			return nil
		}
		x.setCell(st.heap.mut(p.obj), p.off, WGVal{n})
		x.rel(st, st.g(), p)
		if n == 0 {
			x.wakePtr(st, p, "wg")
		}
		return nil
	}
	m["(*sync.WaitGroup).Add"] = wg(func(x *Exec, st *State, p Ptr, n int, args []Value) Value {
		return add(x, st, p, n, int(int64(x.concretize(st, x.term(args[1])))))
	})
	m["(*sync.WaitGroup).Done"] = wg(func(x *Exec, st *State, p Ptr, n int, args []Value) Value {
		return add(x, st, p, n, -1)
	})
	m["(*sync.WaitGroup).Wait"] = wg(func(x *Exec, st *State, p Ptr, n int, args []Value) Value {
		if n > 0 {
			x.block(st, &waitOp{kind: "wg", ptr: p})
			return blockedMark{}
		}
		x.acq(st, st.g(), p)
		return nil
	})
	m["(*sync.Once).Do"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		p := x.leafPtr(st, args[0])
		if x.nilRecv(st, p) {
			return nil
		}
		v, ok := x.cell(st.heap.get(p.obj), p.off).(OnceVal)
		if !ok {
			unsup("once cell")
		}
		if v.done {
			x.acq(st, st.g(), p)
			return nil
		}
		x.setCell(st.heap.mut(p.obj), p.off, OnceVal{true})
		if _, ok := at.(*ssa.Call); ok {
			st.top().ip++
		}
		x.callClosure(st, args[1].(*Closure), nil, -1, nil)
		return nil
	}
	m["time.Sleep"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		if x.inInit(st) {
			return nil
		}
		g := st.g()
		if g.slept {
			g.slept = false
			x.event(st, g, at)
			return nil
		}
		g.slept = true
		x.block(st, &waitOp{kind: "sleep"})
		return blockedMark{}
	}
	m["runtime.Gosched"] = func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
		if x.yieldPoint(st) {
			return blockedMark{}
		}
		return nil
	}

	// sync/atomic functions
	atom := func(f func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value) intrinsic {
		return func(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
			p := x.leafPtr(st, args[0])
			if x.nilRecv(st, p) {
				return nil
			}
			if at != nil && x.yieldPoint(st) {
				return blockedMark{}
			}
			if x.racing(st) {
				if at != nil {
					x.access(st, p.obj, p.off, 1, true, true, at)
				}
				x.acq(st, st.g(), p)
				x.rel(st, st.g(), p)
			}
			x.event(st, st.g(), at)
			return f(x, st, st.heap.get(p.obj), p, args)
		}
	}
	for _, k := range []string{"Int32", "Uint32", "Int64", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			m[pk+"Load"+k] = atom(func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value {
				return x.cell(o, p.off)
			})
			m[pk+"Store"+k] = atom(func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value {
				x.setCell(st.heap.mut(p.obj), p.off, args[1])
				return nil
			})
			m[pk+"Swap"+k] = atom(func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value {
				old := x.cell(o, p.off)
				x.setCell(st.heap.mut(p.obj), p.off, args[1])
				return old
			})
			m[pk+"CompareAndSwap"+k] = atom(func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value {
				if x.split(st, x.eqVal(x.cell(o, p.off), args[1])) {
					x.setCell(st.heap.mut(p.obj), p.off, args[2])
					return x.c.True
				}
				return x.c.False
			})
			m[pk+"Add"+k] = atom(func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value {
				v := x.c.Add(x.term(x.cell(o, p.off)), x.term(args[1]))
				x.setCell(st.heap.mut(p.obj), p.off, v)
				return v
			})
		}
	}
	m["(*sync/atomic.Value).Load"] = atom(func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value {
		return x.cell(o, p.off)
	})
	m["(*sync/atomic.Value).Store"] = atom(func(x *Exec, st *State, o *Obj, p Ptr, args []Value) Value {
		x.setCell(st.heap.mut(p.obj), p.off, args[1])
		return nil
	})
}
