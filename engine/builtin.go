package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// minTerm picks the smaller of two non-negative lengths, splitting if needed.
func (x *Exec) minLen(st *State, a, b *Term) int {
	if a == b {
		return int(x.concretize(st, a))
	}
	if x.split(st, x.c.Ule(a, b)) {
		return int(x.concretize(st, a))
	}
	return int(x.concretize(st, b))
}

func (x *Exec) lenOf(st *State, v Value) *Term {
	switch v := v.(type) {
	case Slice:
		return v.len
	case Str:
		return x.k64(int64(v.length()))
	case MapRef:
		if v.obj == 0 {
			return x.k64(0)
		}
		return x.k64(int64(len(st.heap.get(v.obj).m)))
	case ChanRef:
		if v.obj == 0 {
			return x.k64(0)
		}
		return x.k64(int64(len(st.heap.get(v.obj).ch.buf)))
	}
	unsup("len of %T", v)
	return nil
}

func (x *Exec) builtin(st *State, name string, args []Value, sargs []ssa.Value, at ssa.Instruction) Value {
	switch name {
	case "len":
		if p, ok := args[0].(Ptr); ok && sargs != nil {
			_ = p
			return x.k64(deref(sargs[0].Type()).Underlying().(*types.Array).Len())
		}
		if _, ok := args[0].(Agg); ok {
			return x.k64(sargs[0].Type().Underlying().(*types.Array).Len())
		}
		return x.lenOf(st, args[0])
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return v.cap
		case ChanRef:
			if v.obj == 0 {
				return x.k64(0)
			}
			return x.k64(int64(st.heap.get(v.obj).ch.cap))
		}
		if sargs != nil {
			if a, ok := sargs[0].Type().Underlying().(*types.Array); ok {
				return x.k64(a.Len())
			}
			if p, ok := sargs[0].Type().Underlying().(*types.Pointer); ok {
				return x.k64(p.Elem().Underlying().(*types.Array).Len())
			}
		}
		unsup("cap of %T", args[0])
	case "append":
		if x.racing(st) && at != nil {
			x.accessSlices(st, args, at, false)
		}
		return x.appendOp(st, args, at)
	case "copy":
		if x.racing(st) && at != nil {
			x.accessSlices(st, args, at, true)
		}
		return x.copyOp(st, args, sargs)
	case "delete":
		m := args[0].(MapRef)
		if m.obj == 0 {
			return Agg{}
		}
		if x.racing(st) && at != nil {
			x.access(st, m.obj, -1, 1, true, false, at)
		}
		i := x.mapFind(st, st.heap.get(m.obj), args[1])
		if i >= 0 {
			o := st.heap.mut(m.obj)
			o.m = append(append([]mapEntry(nil), o.m[:i]...), o.m[i+1:]...)
		}
		return Agg{}
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			if v.obj != 0 {
				st.heap.mut(v.obj).m = nil
			}
			return Agg{}
		case Slice:
			n := x.constLen(st, v)
			if n > 0 {
				o := st.heap.mut(v.obj)
				sz := x.size(o.ty)
				et := sargs[0].Type().Underlying().(*types.Slice).Elem()
				_ = sz
				k := x.size(et)
				for i := 0; i < n*k; i++ {
					x.setCell(o, v.off+i, x.zeroLeaf(x.leafAt(et, i%k)))
				}
			}
			return Agg{}
		}
	case "print", "println":
		return Agg{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			_, signed := intWidth(sargs[0].Type())
			p, q := x.term(r), x.term(a)
			var lt *Term
			if signed {
				lt = x.c.Slt(p, q)
			} else {
				lt = x.c.Ult(p, q)
			}
			if name == "max" {
				lt = x.c.Not(lt)
			}
			r = x.c.Ite(lt, p, q)
		}
		return r
	case "recover":
		g := st.g()
		if f := st.top(); f.isDefer && len(g.frames) >= 2 {
			pf := g.frames[len(g.frames)-2]
			if pf.panicking != nil && !pf.panicking.recovered && !pf.panicking.goexit {
				pf.panicking.recovered = true
				v := pf.panicking.v
				if v == nil {
					return Iface{}
				}
				return v
			}
		}
		return Iface{}
	case "close":
		x.chanClose(st, args[0].(ChanRef))
		if !st.done {
			x.event(st, st.g(), at)
		}
		return Agg{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			x.rtPanic(st, "invalid memory address or nil pointer dereference")
			return nil
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	case "StringData":
		s := args[0].(Str)
		if s.length() == 0 {
			return Ptr{}
		}
		b := x.newBytes(st, x.strBytes(s))
		return Ptr{b.obj, 0}
	case "String":
		p := args[0].(Ptr)
		n := int(x.concretize(st, x.i64(args[1], sargs[1].Type())))
		if n == 0 {
			return Str{}
		}
		l := x.k64(int64(n))
		return mkStr(x.bytesOf(st, Slice{p.obj, p.off, l, l}))
	case "Slice":
		p := args[0].(Ptr)
		n := x.i64(args[1], sargs[1].Type())
		if p.obj == 0 {
			return x.nilSlice
		}
		return Slice{p.obj, p.off, n, n}
	case "Add":
		p := args[0].(Ptr)
		n := x.i64(args[1], sargs[1].Type())
		if n.IsConst() {
			return Ptr{p.obj, p.off + int(n.k)}
		}
	case "Sizeof":
		return x.k64(x.eng.sizes.Sizeof(sargs[0].Type()))
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) appendOp(st *State, args []Value, at ssa.Instruction) Value {
	s, ok := args[0].(Slice)
	if !ok {
		unsup("append to %T", args[0])
	}
	var et types.Type
	switch in := at.(type) {
	case *ssa.Call:
		et = in.Type().Underlying().(*types.Slice).Elem()
	default:
		unsup("append outside a call")
	}
	var src []Value
	sz := x.size(et)
	switch t := args[1].(type) {
	case Str:
		for _, b := range x.strBytes(t) {
			src = append(src, b)
		}
	case Slice:
		n := x.constLen(st, t)
		if n > 0 {
			o := st.heap.get(t.obj)
			for i := 0; i < n*sz; i++ {
				src = append(src, x.cell(o, t.off+i))
			}
		}
	default:
		unsup("append of %T", args[1])
	}
	if len(src) == 0 {
		return s
	}
	n := len(src)
	if sz > 0 {
		n = len(src) / sz
	}
	ln := x.constLen(st, s)
	cp := int(x.concretize(st, s.cap))
	if ln+n <= cp {
		o := st.heap.mut(s.obj)
		for i, v := range src {
			x.setCell(o, s.off+ln*sz+i, v)
		}
		return Slice{s.obj, s.off, x.k64(int64(ln + n)), s.cap}
	}
	nc := 2 * cp
	if nc < ln+n {
		nc = ln + n
	}
	if st.limit > 0 && int64(nc)*x.elemBytes(et) > 2*st.limit {
		x.assert(st, x.c.False, "single allocation stays within limit", "")
	}
	o := x.newObj(st, et, nc*sz)
	if ln > 0 {
		old := st.heap.get(s.obj)
		for i := 0; i < ln*sz; i++ {
			x.setCell(o, i, x.cell(old, s.off+i))
		}
	}
	for i, v := range src {
		x.setCell(o, ln*sz+i, v)
	}
	return Slice{o.id, 0, x.k64(int64(ln + n)), x.k64(int64(nc))}
}

func (x *Exec) copyOp(st *State, args []Value, sargs []ssa.Value) Value {
	d := args[0].(Slice)
	var src []Value
	var n int
	switch s := args[1].(type) {
	case Str:
		n = x.minLen(st, d.len, x.k64(int64(s.length())))
		for _, b := range x.strBytes(s)[:n] {
			src = append(src, b)
		}
	case Slice:
		n = x.minLen(st, d.len, s.len)
		if n > 0 {
			o := st.heap.get(s.obj)
			sz := 1
			if sargs != nil {
				sz = x.size(sargs[0].Type().Underlying().(*types.Slice).Elem())
			} else {
				sz = x.size(o.ty)
			}
			for i := 0; i < n*sz; i++ {
				src = append(src, x.cell(o, s.off+i))
			}
		}
	default:
		unsup("copy from %T", args[1])
	}
	if len(src) > 0 {
		o := st.heap.mut(d.obj)
		for i, v := range src {
			x.setCell(o, d.off+i, v)
		}
	}
	return x.k64(int64(n))
}
