package main

// Values, memory layout and the persistent heap.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Ptr points at cell off of object obj. obj 0 is nil.
type Ptr struct{ obj, off int }

// SymPtr points at cell off + idx*stride, idx < n (already checked).
type SymPtr struct {
	obj, off  int
	idx       *Term
	stride, n int
}

// Slice views cells from off on. obj 0 with nil=true is the nil slice.
type Slice struct {
	obj, off int
	len, cap *Term
}

// Str is a string: concrete s, or symbolic bytes b when b != nil.
type Str struct {
	s string
	b []*Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
	// engine-level function
	native func(x *Exec, st *State, args []Value) Value
	name   string
}

type MapRef struct{ obj int }
type ChanRef struct{ obj int }
type IterRef struct{ obj int }
type Agg []Value
type Poison struct{ msg string }
type Float float64

// BigVal is the content of a math/big.Int.
type BigVal struct {
	neg *Term
	mag *Term
}

// sync primitives, one leaf each
type MutexVal struct {
	w bool
	r int
}
type WGVal struct{ n int }
type OnceVal struct{ done bool }

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (s Str) length() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (x *Exec) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = x.c.Const(8, uint64(s.s[i]))
	}
	return r
}

func mkStr(b []*Term) Str {
	var sb []byte
	for _, t := range b {
		if !t.IsConst() {
			if b == nil {
				return Str{}
			}
			return Str{b: b}
		}
		sb = append(sb, byte(t.k))
	}
	return Str{s: string(sb)}
}

// ---------------------------------------------------------------- layout

type layoutCache struct {
	size map[types.Type]int
	offs map[*types.Struct][]int
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return isNamed(types.Unalias(a), pkg, name)
		}
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

// atomicLeaf reports whether a struct type is represented by one special cell.
func atomicLeaf(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "math/big":
		return n.Obj().Name() == "Int"
	case "sync":
		switch n.Obj().Name() {
		case "Mutex", "RWMutex", "WaitGroup", "Once":
			return true
		}
	}
	return false
}

func isAgg(t types.Type) bool {
	if atomicLeaf(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (x *Exec) size(t types.Type) int {
	if n, ok := x.lay.size[t]; ok {
		return n
	}
	n := 1
	if !atomicLeaf(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n = 0
			for i := 0; i < u.NumFields(); i++ {
				n += x.size(u.Field(i).Type())
			}
		case *types.Array:
			n = int(u.Len()) * x.size(u.Elem())
		case *types.Tuple:
			unsup("size of tuple")
		}
	}
	x.lay.size[t] = n
	return n
}

func (x *Exec) offsets(u *types.Struct) []int {
	if o, ok := x.lay.offs[u]; ok {
		return o
	}
	o := make([]int, u.NumFields()+1)
	for i := 0; i < u.NumFields(); i++ {
		o[i+1] = o[i] + x.size(u.Field(i).Type())
	}
	x.lay.offs[u] = o
	return o
}

// leafAt returns the type of the i-th leaf cell of t.
func (x *Exec) leafAt(t types.Type, i int) types.Type {
	for {
		if atomicLeaf(t) {
			return t
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			o := x.offsets(u)
			k := 0
			for k < u.NumFields() && !(i >= o[k] && i < o[k+1]) {
				k++
			}
			t, i = u.Field(k).Type(), i-o[k]
		case *types.Array:
			n := x.size(u.Elem())
			t, i = u.Elem(), i%n
		default:
			return t
		}
	}
}

func basicWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return -1, false
}

func intWidth(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -1, false
	}
	return basicWidth(b)
}

func (x *Exec) zeroLeaf(t types.Type) Value {
	if n, ok := types.Unalias(t).(*types.Named); ok && atomicLeaf(t) {
		switch n.Obj().Name() {
		case "Int":
			return BigVal{x.c.False, x.c.Const(8, 0)}
		case "Mutex", "RWMutex":
			return MutexVal{}
		case "WaitGroup":
			return WGVal{}
		case "Once":
			return OnceVal{}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.UnsafePointer, types.UntypedNil:
			return Ptr{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return Float(0)
		}
		w, _ := basicWidth(u)
		if w < 0 {
			unsup("zero of %s", t)
		}
		return x.c.Const(w, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return x.nilSlice
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	}
	unsup("zero of %s", t)
	return nil
}

func (x *Exec) zero(t types.Type) Value {
	if tu, ok := t.(*types.Tuple); ok {
		r := make(Agg, tu.Len())
		for i := range r {
			r[i] = x.zero(tu.At(i).Type())
		}
		return r
	}
	if !isAgg(t) {
		return x.zeroLeaf(t)
	}
	n := x.size(t)
	r := make(Agg, n)
	for i := range r {
		r[i] = x.zeroLeaf(x.leafAt(t, i))
	}
	return r
}

// ---------------------------------------------------------------- heap

type tok struct{ _ int }

type Obj struct {
	tok   *tok
	id    int
	ty    types.Type // element type, repeated
	cells []Value
	n     int // logical number of cells, -1: unbounded (symbolic size)
	m     []mapEntry
	mty   *types.Map
	ch    *chanData
	it    *iterData
	tag   string
}

type mapEntry struct{ k, v Value }

type chanData struct {
	buf    []Value
	cap    int
	closed bool
	elem   types.Type
}

type iterData struct {
	m    int
	done []Value
	str  Str
	pos  int
	isS  bool
}

const radixBits = 5
const radixN = 1 << radixBits

type hnode struct {
	tok  *tok
	kids [radixN]*hnode
	objs [radixN]*Obj
}

type Heap struct {
	root  *hnode
	depth int
	tok   *tok
}

func (h *Heap) get(id int) *Obj {
	n := h.root
	for d := h.depth; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>(uint(d)*radixBits))&(radixN-1)]
	}
	if n == nil {
		return nil
	}
	return n.objs[id&(radixN-1)]
}

func (h *Heap) own(n *hnode) *hnode {
	if n == nil {
		return &hnode{tok: h.tok}
	}
	if n.tok == h.tok {
		return n
	}
	c := *n
	c.tok = h.tok
	return &c
}

func (h *Heap) put(o *Obj) {
	for o.id>>(uint(h.depth+1)*radixBits) != 0 {
		r := &hnode{tok: h.tok}
		r.kids[0] = h.root
		h.root = r
		h.depth++
	}
	h.root = h.own(h.root)
	n := h.root
	for d := h.depth; d > 0; d-- {
		i := (o.id >> (uint(d) * radixBits)) & (radixN - 1)
		n.kids[i] = h.own(n.kids[i])
		n = n.kids[i]
	}
	n.objs[o.id&(radixN-1)] = o
}

// mut returns an object owned by this heap.
func (h *Heap) mut(id int) *Obj {
	o := h.get(id)
	if o == nil {
		unsup("dangling object %d", id)
	}
	if o.tok == h.tok {
		return o
	}
	c := *o
	c.tok = h.tok
	c.cells = append([]Value(nil), o.cells...)
	c.m = append([]mapEntry(nil), o.m...)
	if o.ch != nil {
		d := *o.ch
		d.buf = append([]Value(nil), o.ch.buf...)
		c.ch = &d
	}
	if o.it != nil {
		d := *o.it
		d.done = append([]Value(nil), o.it.done...)
		c.it = &d
	}
	h.put(&c)
	return &c
}

// fork gives both heaps fresh ownership tokens.
func (h *Heap) fork() Heap {
	c := *h
	h.tok = &tok{}
	c.tok = &tok{}
	return c
}

// diffObjs lists object ids whose nodes differ between a and b.
func diffObjs(a, b *Heap, f func(id int, x, y *Obj)) {
	ra, da, rb, db := a.root, a.depth, b.root, b.depth
	for da < db {
		n := &hnode{}
		n.kids[0] = ra
		ra = n
		da++
	}
	for db < da {
		n := &hnode{}
		n.kids[0] = rb
		rb = n
		db++
	}
	var rec func(x, y *hnode, d, base int)
	rec = func(x, y *hnode, d, base int) {
		if x == y {
			return
		}
		for i := 0; i < radixN; i++ {
			if d == 0 {
				var o, p *Obj
				if x != nil {
					o = x.objs[i]
				}
				if y != nil {
					p = y.objs[i]
				}
				if o != p {
					f(base+i, o, p)
				}
				continue
			}
			var k, l *hnode
			if x != nil {
				k = x.kids[i]
			}
			if y != nil {
				l = y.kids[i]
			}
			if k != l {
				rec(k, l, d-1, base+i<<(uint(d)*radixBits))
			}
		}
	}
	rec(ra, rb, da, 0)
}

func (x *Exec) newObj(st *State, ty types.Type, n int) *Obj {
	x.nextObj++
	o := &Obj{tok: st.heap.tok, id: x.nextObj, ty: ty, n: n}
	st.heap.put(o)
	return o
}

// cell reads cell i with default zero.
func (x *Exec) cell(o *Obj, i int) Value {
	if i < len(o.cells) && o.cells[i] != nil {
		return o.cells[i]
	}
	if o.n >= 0 && i >= o.n {
		unsup("cell %d out of object of %d cells", i, o.n)
	}
	sz := x.size(o.ty)
	if sz == 0 {
		unsup("cell of zero-size object")
	}
	return x.zeroLeaf(x.leafAt(o.ty, i%sz))
}

func (x *Exec) setCell(o *Obj, i int, v Value) {
	if o.n >= 0 && i >= o.n {
		unsup("store to cell %d of object of %d cells", i, o.n)
	}
	if i >= len(o.cells) {
		if i > 1<<21 {
			unsup("object too large: cell %d", i)
		}
		n := i + 1
		if o.n >= 0 && o.n <= 4096 {
			n = o.n
		} else if n < 2*len(o.cells) {
			n = 2 * len(o.cells)
			if o.n >= 0 && n > o.n {
				n = o.n
			}
		}
		c := make([]Value, n)
		copy(c, o.cells)
		o.cells = c
	}
	o.cells[i] = v
}

func (v Str) String() string {
	if v.b == nil {
		return v.s
	}
	var sb strings.Builder
	for _, t := range v.b {
		if t.IsConst() {
			sb.WriteByte(byte(t.k))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------- equality and merging of values

func (x *Exec) eqVal(a, b Value) *Term {
	c := x.c
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.w != q.w {
			unsup("comparison of %T and %T", a, b)
		}
		return c.Eq(p, q)
	case Str:
		q := b.(Str)
		if p.b == nil && q.b == nil {
			return c.Bool(p.s == q.s)
		}
		if p.length() != q.length() {
			return c.False
		}
		if p.length() == 0 {
			return c.True
		}
		return c.Eq(c.Concat(x.strBytes(p)...), c.Concat(x.strBytes(q)...))
	case Ptr:
		q, ok := b.(Ptr)
		if !ok {
			unsup("comparison of pointers with symbolic index")
		}
		return c.Bool(p == q)
	case Iface:
		q := b.(Iface)
		if p.t == nil || q.t == nil {
			return c.Bool(p.t == nil && q.t == nil)
		}
		if !types.Identical(p.t, q.t) {
			return c.False
		}
		return x.eqVal(p.v, q.v)
	case Agg:
		q := b.(Agg)
		r := c.True
		for i := range p {
			r = c.And(r, x.eqVal(p[i], q[i]))
		}
		return r
	case MapRef:
		return c.Bool(p == b.(MapRef))
	case ChanRef:
		return c.Bool(p == b.(ChanRef))
	case Float:
		return c.Bool(p == b.(Float))
	case *Closure:
		q := b.(*Closure)
		if p == nil || q == nil {
			return c.Bool(p == nil && q == nil)
		}
	case Slice:
		q := b.(Slice)
		if p.obj == 0 || q.obj == 0 {
			return c.Bool(p.obj == 0 && q.obj == 0)
		}
	case Poison:
		unsup("poison: %s", p.msg)
	}
	unsup("comparison of %T", a)
	return nil
}

func (x *Exec) mergeVal(cond *Term, a, b Value) (Value, bool) {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok || p.w != q.w {
			return nil, false
		}
		return x.c.Ite(cond, p, q), true
	case Str:
		q, ok := b.(Str)
		if !ok || p.length() != q.length() {
			return nil, false
		}
		if p.b == nil && q.b == nil && p.s == q.s {
			return p, true
		}
		pb, qb := x.strBytes(p), x.strBytes(q)
		r := make([]*Term, len(pb))
		for i := range r {
			r[i] = x.c.Ite(cond, pb[i], qb[i])
		}
		return mkStr(r), true
	case Slice:
		q, ok := b.(Slice)
		if !ok || p.obj != q.obj || p.off != q.off {
			return nil, false
		}
		if p.len != q.len || p.cap != q.cap {
			return nil, false
		}
		return p, true
	case SymPtr:
		q, ok := b.(SymPtr)
		if !ok || p != q {
			return nil, false
		}
		return p, true
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if p.t == nil && q.t == nil {
			return p, true
		}
		if p.t == nil || q.t == nil || !types.Identical(p.t, q.t) {
			return nil, false
		}
		v, ok := x.mergeVal(cond, p.v, q.v)
		return Iface{p.t, v}, ok
	case Agg:
		q, ok := b.(Agg)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		r := make(Agg, len(p))
		for i := range p {
			v, ok := x.mergeVal(cond, p[i], q[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case BigVal:
		q, ok := b.(BigVal)
		if !ok {
			return nil, false
		}
		w := p.mag.w
		if q.mag.w > w {
			w = q.mag.w
		}
		return BigVal{x.c.Ite(cond, p.neg, q.neg), x.c.Ite(cond, x.c.Zext(p.mag, w), x.c.Zext(q.mag, w))}, true
	case *Closure:
		q, ok := b.(*Closure)
		if !ok {
			return nil, false
		}
		if p == q {
			return p, true
		}
		if p == nil || q == nil || p.fn != q.fn || p.bi != q.bi || p.native != nil || len(p.binds) != len(q.binds) {
			return nil, false
		}
		for i := range p.binds {
			v, ok := x.mergeVal(cond, p.binds[i], q.binds[i])
			if !ok {
				return nil, false
			}
			if _, isP := v.(Ptr); !isP {
				return nil, false
			}
		}
		return p, true
	case nil:
		return nil, b == nil
	}
	// remaining kinds are comparable Go values
	switch a.(type) {
	case Ptr, MapRef, ChanRef, IterRef, Float, MutexVal, WGVal, OnceVal, Poison:
		if a == b {
			return a, true
		}
	}
	return nil, false
}
