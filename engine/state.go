package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	t       *Term
	implied bool
	prev    *pcNode
	n       int
}

type ndNode struct {
	name string
	idx  int
	ts   []*Term
	prev *ndNode
}

type State struct {
	heap    Heap
	gs      []*Gor
	cur     int
	pc      *pcNode
	nd      *ndNode
	ev      *evaluator
	names   map[string]int
	inited  map[*ssa.Package]bool
	steps   int
	choices []int
	chPos   int
	preempt int
	stuck   int // times the clock moved while the harness waits
	delays  int // choices of another goroutine than the next
	done    bool
	end     string
	limit   int64 // allocation limit in bytes, 0: none
	lastNow *Term
	killed  bool
	arrived *stopPoint
	sched   *strNode
	evs     *strNode      // completed synchronisation operations
	acc     *accNode      // memory accesses (race detection)
	svc     map[Ptr]clock // never changed in place
	known   string        // id of the known finding this state belongs to
}

type strNode struct {
	s    string
	prev *strNode
}

type gstatus int

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type Gor struct {
	id      int
	frames  []*Frame
	status  gstatus
	wait    *waitOp
	name    string
	yielded bool // the pending sync operation already passed its switch point
	slept   bool
	daemon  bool // a timer
	vc      clock
}

type waitOp struct {
	kind  string // send recv select lock rlock wg idle
	ch    int
	val   Value
	ptr   Ptr
	cases []selCase
	instr ssa.Instruction
}

type selCase struct {
	send bool
	ch   int
	val  Value
}

type panicVal struct {
	v         Value
	msg       string
	recovered bool
	goexit    bool
	trace     string
}

type deferred struct {
	fn   *Closure
	args []Value
	pos  string
}

type Frame struct {
	fn        *ssa.Function
	info      *FnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	ip        int
	defers    []deferred
	ret       int // register of the caller, -1 none
	isDefer   bool
	isInit    bool
	panicking *panicVal
	running   bool // running defers because of RunDefers or after recovery
	after     int  // 0: resume instruction; 1: return via Recover block
	loops     map[*ssa.BasicBlock]int
	// onReturn post-processes the result when the frame returns
	onReturn func(x *Exec, st *State, v Value) Value
}

type FnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	name  string
	intr  intrinsic
	redir *ssa.Function
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	acyc  map[*ssa.BasicBlock]bool
	pdOK  bool
	steps int
}

func (f *Frame) clone() *Frame {
	c := *f
	c.regs = append([]Value(nil), f.regs...)
	c.defers = append([]deferred(nil), f.defers...)
	if f.panicking != nil {
		p := *f.panicking
		c.panicking = &p
	}
	if f.loops != nil {
		c.loops = map[*ssa.BasicBlock]int{}
		for k, v := range f.loops {
			c.loops[k] = v
		}
	}
	return &c
}

func (s *State) clone() *State {
	c := *s
	c.heap = s.heap.fork()
	c.gs = make([]*Gor, len(s.gs))
	for i, g := range s.gs {
		ng := *g
		ng.frames = make([]*Frame, len(g.frames))
		for j, f := range g.frames {
			ng.frames[j] = f.clone()
		}
		c.gs[i] = &ng
	}
	c.names = map[string]int{}
	for k, v := range s.names {
		c.names[k] = v
	}
	c.inited = map[*ssa.Package]bool{}
	for k, v := range s.inited {
		c.inited[k] = v
	}
	c.choices = append([]int(nil), s.choices...)
	return &c
}

func (s *State) g() *Gor     { return s.gs[s.cur] }
func (s *State) top() *Frame { f := s.gs[s.cur].frames; return f[len(f)-1] }
func (s *State) multi() bool {
	n := 0
	for _, g := range s.gs {
		if g.status != gDone {
			n++
		}
	}
	return n > 1
}

// ---------------------------------------------------------------- executor

type Violation struct {
	Kind     string              `json:"kind"`
	Msg      string              `json:"msg"`
	Values   map[string][]string `json:"values"`
	UF       []UFEntry           `json:"uf,omitempty"`
	Trace    string              `json:"trace,omitempty"`
	Sched    []string            `json:"sched,omitempty"`
	Events   []string            `json:"events,omitempty"`
	Harness  string              `json:"harness"`
	Property string              `json:"property"`
	Pkg      string              `json:"pkg"`
	Replayed string              `json:"replayed,omitempty"`
	Known    string              `json:"known,omitempty"`
}

type UFEntry struct {
	Name string   `json:"name"`
	Args []string `json:"args"`
	Val  string   `json:"val"`
}

type Exec struct {
	eng      *Engine
	c        *TermCtx
	sol      *Solver
	lay      layoutCache
	nilSlice Slice
	nextObj  int
	globals  map[*ssa.Global]int
	uniq     map[string]int
	infos    map[*ssa.Function]*FnInfo
	consts   map[*ssa.Const]Value
	work     *[]*State
	tokTrue  *Term

	opt       Options
	h         *Harness
	paths     int
	ended     map[string]int
	merges    int
	mergeFail int
	forks     int
	steps     int
	fnSeen    map[*ssa.Function]bool
	viol      []*Violation
	violKeys  map[string]bool
	known     map[string]*Violation
	unsup     map[string]int
	unknown   int
	incompl   map[string]int
	covers    map[string]*cover
	oblig     map[string]*obl
	samples   []map[string][]string
	sampleUF  [][]UFEntry
	t0        time.Time
	deadline  time.Time
	stopAll   bool
	nested    int
	freshN    int
	chanTrace bool
	statesMax int
}

type cover struct {
	Hits int
}

type obl struct {
	Checked, Solver int
	Msg             string
}

type Options struct {
	MaxStates int
	MaxSteps  int // per path
	Timeout   time.Duration
	Loop      int // max iterations of a loop under symbolic control
	Merge     bool
	MapOrder  string
	Preempt   int
	Delays    int
	Race      bool
	MaxViol   int
	Draws     int
	AllocLim  int64
	Stubs     map[string]string
	Verbose   bool
}

func (x *Exec) addPC(st *State, t *Term, implied bool) {
	if t.IsTrue() {
		return
	}
	n := 0
	if st.pc != nil {
		n = st.pc.n
	}
	st.pc = &pcNode{t, implied, st.pc, n + 1}
	if t.op == OpAnd {
		for _, a := range t.args {
			st.pc = &pcNode{a, true, st.pc, st.pc.n + 1}
		}
	}
}

func (st *State) knows(t *Term) bool {
	for p := st.pc; p != nil; p = p.prev {
		if p.t == t {
			return true
		}
	}
	return false
}

func (st *State) pcTerms() []*Term {
	var l []*Term
	for p := st.pc; p != nil; p = p.prev {
		if !p.implied {
			l = append(l, p.t)
		}
	}
	return l
}

// slice selects the path constraints that share symbols (transitively) with ts.
func (x *Exec) slice(st *State, ts ...*Term) []*Term {
	set := map[int]bool{}
	for _, t := range ts {
		for _, s := range x.c.symbols(t) {
			set[s] = true
		}
	}
	all := st.pcTerms()
	used := make([]bool, len(all))
	var r []*Term
	for ch := true; ch; {
		ch = false
		for i, t := range all {
			if used[i] {
				continue
			}
			sy := x.c.symbols(t)
			hit := false
			for _, s := range sy {
				if set[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				r = append(r, t)
				for _, s := range sy {
					set[s] = true
				}
			}
		}
	}
	return r
}

func (x *Exec) mergeModel(old *Model, n *Model) *Model {
	m := NewModel()
	for k, v := range old.v {
		m.v[k] = v
	}
	names := map[string]bool{}
	for k := range n.uf {
		names[k.name] = true
	}
	for k, v := range old.uf {
		if !names[k.name] {
			m.uf[k] = v
		}
	}
	for k, v := range n.v {
		m.v[k] = v
	}
	for k, v := range n.uf {
		m.uf[k] = v
	}
	return m
}

// sat decides pc ∧ extra; on Sat returns an evaluator for a full model.
func (x *Exec) sat(st *State, extra *Term) (Result, *evaluator) {
	if extra.IsFalse() {
		return Unsat, nil
	}
	cs := append(x.slice(st, extra), extra)
	tq := time.Now()
	x.sol.base = st.ev.m
	r, m := x.sol.Check(cs, true)
	if dbgQ != "" && time.Since(tq) > 300*time.Millisecond {
		dbgN++
		if dbgN%20 == 1 {
			vs, as := x.c.leaves(cs)
			fmt.Println("QUERY", r, time.Since(tq), len(cs), "vars", len(vs), "apps", len(as), "extra", extra.str(6))
			for _, c := range cs {
				fmt.Println("    ", c.str(5))
			}
		}
	}
	if x.sol.err != nil {
		unsup("solver: %v", x.sol.err)
	}
	if r == Sat {
		return Sat, x.c.evaluator(x.mergeModel(st.ev.m, m))
	}
	return r, nil
}

// split makes cond concrete in st; the other feasible side is spawned and
// re-executes the current instruction.
func (x *Exec) split(st *State, cond *Term) bool {
	if cond.IsConst() {
		return cond.k == 1
	}
	nc := x.c.Not(cond)
	if st.knows(cond) {
		return true
	}
	if st.knows(nc) {
		return false
	}
	mv := st.ev.U(cond) == 1
	mine, other := cond, nc
	if !mv {
		mine, other = nc, cond
	}
	r, ev := x.sat(st, other)
	switch r {
	case Sat:
		o := st.clone()
		x.addPC(o, other, false)
		o.ev = ev
		x.forks++
		x.spawn(o)
		x.addPC(st, mine, false)
	case Unsat:
		x.addPC(st, mine, true)
	default:
		x.unknown++
		x.addPC(st, mine, false)
	}
	return mv
}

func (x *Exec) spawn(o *State) {
	*x.work = append(*x.work, o)
}

func (x *Exec) assume(st *State, cond *Term) {
	if cond.IsTrue() || st.knows(cond) {
		return
	}
	if st.ev.U(cond) == 1 {
		x.addPC(st, cond, false)
		return
	}
	r, ev := x.sat(st, cond)
	switch r {
	case Sat:
		x.addPC(st, cond, false)
		st.ev = ev
	case Unsat:
		x.finish(st, "assume")
	default:
		x.unknown++
		x.finish(st, "unknown")
	}
}

func (x *Exec) finish(st *State, how string) {
	if st.done {
		return
	}
	st.done = true
	st.end = how
}

// concretize fixes t to a single value in this state.
func (x *Exec) concretize(st *State, t *Term) uint64 {
	if t.IsConst() {
		return t.k
	}
	v := st.ev.U(t)
	x.split(st, x.c.Eq(t, x.c.Const(t.w, v)))
	return v
}

func (x *Exec) choose(st *State, n int) int {
	if n <= 1 {
		return 0
	}
	if st.chPos < len(st.choices) {
		st.chPos++
		return st.choices[st.chPos-1]
	}
	base := append([]int(nil), st.choices...)
	for i := n - 1; i >= 1; i-- {
		o := st.clone()
		o.choices = append(append([]int(nil), base...), i)
		o.chPos = 0
		x.forks++
		x.spawn(o)
	}
	st.choices = append(base, 0)
	st.chPos = len(st.choices)
	return 0
}

func (x *Exec) nondet(st *State, name string, w int) *Term {
	k := st.names[name]
	st.names[name] = k + 1
	vn := name
	if k > 0 {
		vn = fmt.Sprintf("%s#%d", name, k)
	}
	t := x.c.Var(vn, w)
	st.nd = &ndNode{name, k, []*Term{t}, st.nd}
	return t
}

// values renders the nondeterministic inputs of a state under ev.
func (x *Exec) values(st *State, ev *evaluator) map[string][]string {
	r := map[string][]string{}
	var l []*ndNode
	for n := st.nd; n != nil; n = n.prev {
		l = append(l, n)
	}
	sort.SliceStable(l, func(i, j int) bool {
		if l[i].name != l[j].name {
			return l[i].name < l[j].name
		}
		return l[i].idx < l[j].idx
	})
	for _, n := range l {
		for _, t := range n.ts {
			r[n.name] = append(r[n.name], ev.Big(t).Text(10))
		}
	}
	return r
}

func (x *Exec) ufTable(st *State, ev *evaluator, extra *Term) []UFEntry {
	var r []UFEntry
	ts := st.pcTerms()
	if extra != nil {
		ts = append(ts, extra)
	}
	_, apps := x.c.leaves(ts)
	seen := map[string]bool{}
	for _, a := range apps {
		var as []string
		for _, y := range a.args {
			as = append(as, fmt.Sprintf("%d:%s", y.w, ev.Big(y).Text(16)))
		}
		k := a.name + strings.Join(as, ",")
		if seen[k] {
			continue
		}
		seen[k] = true
		r = append(r, UFEntry{a.name, as, ev.Big(a).Text(16)})
	}
	return r
}

func (x *Exec) stack(st *State) string {
	var sb strings.Builder
	g := st.g()
	for i := len(g.frames) - 1; i >= 0 && i > len(g.frames)-12; i-- {
		f := g.frames[i]
		pos := ""
		if f.block != nil && f.ip < len(f.block.Instrs) {
			pos = x.pos(f.block.Instrs[f.ip])
		}
		fmt.Fprintf(&sb, "%s (%s)\n", f.info.name, pos)
	}
	return sb.String()
}

func (x *Exec) pos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		// nearest instruction with a position
		b := i.Block()
		k := -1
		for j, o := range b.Instrs {
			if o == i {
				k = j
			}
		}
		for j := k; j >= 0; j-- {
			if b.Instrs[j].Pos().IsValid() {
				p = b.Instrs[j].Pos()
				break
			}
		}
	}
	q := x.eng.prog.Fset.Position(p)
	s := q.Filename
	if k := strings.LastIndex(s, "/"); k >= 0 {
		if j := strings.LastIndex(s[:k], "/"); j >= 0 {
			s = s[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", s, q.Line)
}

// violate records a violation in st under the extra condition.
func (x *Exec) violate(st *State, kind, msg string, ev *evaluator, extra *Term, known string) {
	key := kind + "|" + msg
	v := &Violation{Kind: kind, Msg: msg, Values: x.values(st, ev), UF: x.ufTable(st, ev, extra), Trace: x.stack(st), Known: known}
	v.Sched, v.Events = st.sched.list(), st.evs.list()
	if known != "" {
		if x.known[known] == nil {
			x.known[known] = v
		}
		return
	}
	if x.violKeys[key] {
		return
	}
	x.violKeys[key] = true
	x.viol = append(x.viol, v)
	if d := time.Now().Add(30 * time.Second); d.Before(x.deadline) {
		x.deadline = d // a little more, then report
	}
	if len(x.viol) >= x.opt.MaxViol {
		x.stopAll = true
	}
}

func (x *Exec) assert(st *State, cond *Term, msg string, known string) {
	o := x.oblig[msg]
	if o == nil {
		o = &obl{Msg: msg}
		x.oblig[msg] = o
	}
	o.Checked++
	if cond.IsTrue() || st.knows(cond) {
		return
	}
	nc := x.c.Not(cond)
	o.Solver++
	if st.ev.U(cond) == 0 {
		x.violate(st, "assert", msg, st.ev, nc, known)
		x.sol.noSlow = true
		r, ev := x.sat(st, cond)
		x.sol.noSlow = false
		if r != Sat {
			x.finish(st, "violation")
			return
		}
		st.ev = ev
		x.addPC(st, cond, false)
		return
	}
	r, ev := x.sat(st, nc)
	switch r {
	case Sat:
		x.violate(st, "assert", msg, ev, nc, known)
		x.addPC(st, cond, false)
	case Unsat:
		x.addPC(st, cond, true)
	default:
		x.unknown++
		x.addPC(st, cond, false)
	}
}

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	i := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fnName(fn)}
	for _, p := range fn.Params {
		i.idx[p] = i.n
		i.n++
	}
	for _, p := range fn.FreeVars {
		i.idx[p] = i.n
		i.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				i.idx[v] = i.n
				i.n++
			}
		}
	}
	i.intr = x.findIntrinsic(i.name, fn)
	if r := x.eng.redirect(i.name); r != nil && r != fn {
		i.redir = r
	}
	x.infos[fn] = i
	return i
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// uniqueMake is unique.Make of a value without symbolic parts.
func uniqueMake(x *Exec, st *State, args []Value, at ssa.Instruction) Value {
	s, ok := at.(ssa.Value).Type().Underlying().(*types.Struct)
	if !ok {
		unsup("unique.Make")
	}
	t := s.Field(0).Type().Underlying().(*types.Pointer).Elem()
	v, ok := args[0].(Agg)
	if !ok {
		v = Agg{args[0]}
	}
	k := t.String()
	for _, l := range v {
		switch l := l.(type) {
		case *Term:
			if !l.IsConst() {
				unsup("unique.Make of a symbolic value")
			}
			k += fmt.Sprint("|", l.w, ":", l.k)
		case Str:
			if l.b != nil {
				unsup("unique.Make of a symbolic value")
			}
			k += fmt.Sprintf("|%q", l.s)
		default:
			unsup("unique.Make of %T", l)
		}
	}
	id, ok := x.uniq[k]
	if !ok {
		x.nextObj++
		id = x.nextObj
		x.uniq[k] = id
	}
	if st.heap.get(id) == nil {
		o := &Obj{tok: st.heap.tok, id: id, ty: t, n: x.size(t)}
		for i, l := range v {
			x.setCell(o, i, l)
		}
		st.heap.put(o)
	}
	return Agg{Ptr{id, 0}}
}

func (x *Exec) global(st *State, g *ssa.Global) Value {
	id, ok := x.globals[g]
	if !ok {
		x.nextObj++
		id = x.nextObj
		x.globals[g] = id
	}
	if st.heap.get(id) == nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		o := &Obj{tok: st.heap.tok, id: id, ty: t, n: x.size(t), tag: g.String()}
		if g.Pkg != nil && x.eng.skipInit(g.Pkg.Pkg.Path()) {
			for i := 0; i < o.n; i++ {
				x.setCell(o, i, Poison{"uninitialised global " + g.String()})
			}
		}
		st.heap.put(o)
	}
	return Ptr{id, 0}
}

func bigOf(s string) *big.Int { b, _ := new(big.Int).SetString(s, 10); return b }

var dbgQ = os.Getenv("GOSYM_DBGQ")
var dbgN int
