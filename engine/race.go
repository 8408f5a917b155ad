package main

// Schedule events, for replaying an interleaving on the compiled code, and
// data races: accesses to one cell by two goroutines, at least one writing,
// that no synchronisation orders on the explored path.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type clock []int32

func (c clock) at(g int) int32 {
	if g < len(c) {
		return c[g]
	}
	return 0
}

func join(a, b clock) clock {
	if len(b) > len(a) {
		a, b = b, a
	}
	for i, v := range b {
		if v > a[i] {
			r := append(clock(nil), a...)
			for j := i; j < len(b); j++ {
				if b[j] > r[j] {
					r[j] = b[j]
				}
			}
			return r
		}
	}
	return a
}

func (g *Gor) tick() {
	r := make(clock, g.id+1)
	copy(r, g.vc)
	if len(g.vc) > len(r) {
		r = append(clock(nil), g.vc...)
	}
	r[g.id]++
	g.vc = r
}

// event notes a completed synchronisation operation.
func (x *Exec) event(st *State, g *Gor, in ssa.Instruction) {
	if in == nil || len(st.gs) < 2 || x.inInit(st) {
		return
	}
	p := x.eng.prog.Fset.Position(in.Pos())
	if !strings.HasPrefix(p.Filename, x.eng.repo+"/") || strings.HasPrefix(p.Filename, x.eng.repo+"/verifnd/") {
		return
	}
	st.evs = &strNode{fmt.Sprintf("%d|%s:%d", g.id, p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line), st.evs}
}

func (n *strNode) list() []string {
	var l []string
	for ; n != nil; n = n.prev {
		l = append(l, n.s)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func (x *Exec) racing(st *State) bool { return x.opt.Race && !x.inInit(st) }

// acq orders everything released on key before what the goroutine does next.
func (x *Exec) acq(st *State, g *Gor, key Ptr) {
	if x.opt.Race {
		if c, ok := st.svc[key]; ok {
			g.vc = join(g.vc, c)
		}
	}
}

// rel makes the goroutine's past visible to those that acquire key.
func (x *Exec) rel(st *State, g *Gor, key Ptr) {
	if x.opt.Race {
		n := make(map[Ptr]clock, len(st.svc)+1)
		for k, v := range st.svc {
			n[k] = v
		}
		n[key] = join(g.vc, n[key])
		st.svc = n
		g.tick()
	}
}

type accNode struct {
	obj, off, n int
	write       bool
	atomic      bool
	g           int
	vc          clock
	in          ssa.Instruction
	prev        *accNode
}

func (x *Exec) access(st *State, obj, off, n int, write, atomic bool, in ssa.Instruction) {
	if obj == 0 || len(st.gs) < 2 {
		return
	}
	g := st.g()
	for p, k := st.acc, 0; p != nil && k < 8; p, k = p.prev, k+1 {
		if p.g != g.id {
			break
		}
		if p.obj == obj && p.off == off && p.n == n && p.write == write && p.vc.at(g.id) == g.vc.at(g.id) {
			return
		}
	}
	st.acc = &accNode{obj, off, n, write, atomic, g.id, g.vc, in, st.acc}
}

// accessInstr records what an instruction is about to read or write.
func (x *Exec) accessInstr(st *State, fr *Frame, in ssa.Instruction) {
	at := func(p Value, n int, write bool) {
		switch p := p.(type) {
		case Ptr:
			x.access(st, p.obj, p.off, n, write, false, in)
		case SymPtr:
			x.access(st, p.obj, p.off, p.n*p.stride, write, false, in)
		}
	}
	switch in := in.(type) {
	case *ssa.Store:
		at(x.get(st, fr, in.Addr), x.size(in.Val.Type()), true)
	case *ssa.UnOp:
		if in.Op.String() == "*" {
			if _, ok := in.X.(*ssa.Global); ok && in.X.Parent() == nil && !strings.HasPrefix(in.X.(*ssa.Global).Pkg.Pkg.Path(), modPath) {
				return
			}
			at(x.get(st, fr, in.X), x.size(in.Type()), false)
		}
	case *ssa.MapUpdate:
		x.access(st, x.get(st, fr, in.Map).(MapRef).obj, -1, 1, true, false, in)
	case *ssa.Lookup:
		if m, ok := x.get(st, fr, in.X).(MapRef); ok {
			x.access(st, m.obj, -1, 1, false, false, in)
		}
	case *ssa.Next:
		if !in.IsString {
			if d := st.heap.get(x.get(st, fr, in.Iter).(IterRef).obj).it; d != nil {
				x.access(st, d.m, -1, 1, false, false, in)
			}
		}
	}
}

// races checks the accesses of a finished path.
func (x *Exec) races(st *State) {
	if !x.opt.Race || st.acc == nil || st.end != "ok" {
		return
	}
	x.oblige("no data race")
	type cell struct{ obj, off int }
	type last struct {
		w  *accNode
		rs []*accNode
	}
	m := map[cell]*last{}
	var l []*accNode
	gs := map[int]map[int]bool{}
	for n := st.acc; n != nil; n = n.prev {
		l = append(l, n)
		if gs[n.obj] == nil {
			gs[n.obj] = map[int]bool{}
		}
		gs[n.obj][n.g] = true
	}
	hit := func(a, b *accNode) bool {
		if a == nil || a.g == b.g || a.atomic && b.atomic || b.vc.at(a.g) >= a.vc.at(a.g) {
			return false
		}
		d := func(n *accNode) string {
			k := "read"
			if n.write {
				k = "write"
			}
			return k + " at " + x.pos(n.in)
		}
		p := []string{d(a), d(b)}
		sort.Strings(p)
		x.violate(st, "race", "data race: "+p[0]+" and "+p[1], st.ev, nil, st.known)
		return true
	}
	for i := len(l) - 1; i >= 0; i-- {
		b := l[i]
		if len(gs[b.obj]) < 2 {
			continue
		}
		for k := 0; k < b.n; k++ {
			c := cell{b.obj, b.off + k}
			t := m[c]
			if t == nil {
				t = &last{}
				m[c] = t
			}
			hit(t.w, b)
			if b.write {
				for _, r := range t.rs {
					hit(r, b)
				}
				t.w, t.rs = b, nil
			} else {
				rs := t.rs[:0:0]
				for _, r := range t.rs {
					if r.g != b.g {
						rs = append(rs, r)
					}
				}
				t.rs = append(rs, b)
			}
		}
	}
}

// accessSlices records what copy or append reads and writes.
func (x *Exec) accessSlices(st *State, args []Value, at ssa.Instruction, cp bool) {
	d, ok := args[0].(Slice)
	if !ok || !d.len.IsConst() || !d.cap.IsConst() {
		return
	}
	src, ok := args[1].(Slice)
	n := 0
	if ok {
		if !src.len.IsConst() {
			return
		}
		n = int(src.len.k)
	} else if s, ok := args[1].(Str); ok {
		n = s.length()
	}
	dl, dc := int(d.len.k), int(d.cap.k)
	if cp && n > dl {
		n = dl
	}
	if n == 0 {
		return
	}
	cells := func(obj int) int {
		if o := st.heap.get(obj); o != nil {
			return x.size(o.ty)
		}
		return 0
	}
	if ok && src.obj != 0 {
		if sz := cells(src.obj); sz > 0 {
			x.access(st, src.obj, src.off, n*sz, false, false, at)
		}
	}
	sz := 0
	if d.obj != 0 {
		sz = cells(d.obj)
	}
	switch {
	case sz == 0:
	case cp:
		x.access(st, d.obj, d.off, n*sz, true, false, at)
	case dl+n <= dc:
		x.access(st, d.obj, d.off+dl*sz, n*sz, true, false, at)
	case dl > 0:
		x.access(st, d.obj, d.off, dl*sz, false, false, at)
	}
}
