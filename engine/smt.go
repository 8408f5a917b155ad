package main

// SMT-LIB printing and solver processes.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os/exec"
	"sort"
	"strings"
	"syscall"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constText(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		s := t.Big().Text(16)
		return "#x" + strings.Repeat("0", t.w/4-len(s)) + s
	}
	s := t.Big().Text(2)
	return "#b" + strings.Repeat("0", t.w-len(s)) + s
}

// smtWriter emits declarations and definitions once.
type smtWriter struct {
	c    *TermCtx
	w    *bytes.Buffer
	done map[int]bool
	ufs  map[string]bool
}

func (s *smtWriter) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return constText(t)
	case OpVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpConcat: "concat", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBand: "bvand", OpBor: "bvor", OpBxor: "bvxor", OpBnot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle"}

func ufName(n string) string { return "|uf_" + strings.ReplaceAll(n, "|", "_") + "|" }

func (s *smtWriter) define(t *Term) {
	if t.op == OpConst || s.done[t.id] {
		return
	}
	// iterative post-order
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OpConst || s.done[x.id] {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.args {
			if a.op != OpConst && !s.done[a.id] {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		s.done[x.id] = true
		switch x.op {
		case OpVar:
			fmt.Fprintf(s.w, "(declare-const v%d %s)\n", x.id, sortName(x.w))
			continue
		case OpUF:
			if !s.ufs[x.name] {
				s.ufs[x.name] = true
				fmt.Fprintf(s.w, "(declare-fun %s (", ufName(x.name))
				for _, a := range x.args {
					s.w.WriteString(sortName(a.w) + " ")
				}
				fmt.Fprintf(s.w, ") %s)\n", sortName(x.w))
			}
		}
		fmt.Fprintf(s.w, "(define-fun t%d () %s ", x.id, sortName(x.w))
		switch x.op {
		case OpUF:
			s.w.WriteString("(" + ufName(x.name))
		case OpExtract:
			fmt.Fprintf(s.w, "((_ extract %d %d)", int(x.k)+x.w-1, x.k)
		case OpSext:
			fmt.Fprintf(s.w, "((_ sign_extend %d)", x.w-x.args[0].w)
		default:
			s.w.WriteString("(" + opNames[x.op])
		}
		for _, a := range x.args {
			s.w.WriteByte(' ')
			s.w.WriteString(s.ref(a))
		}
		s.w.WriteString("))\n")
	}
}

// Solver is an incremental z3 process plus a one-shot fallback.
type Solver struct {
	c       *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	w       *smtWriter
	sent    int
	Queries int
	SatN    int
	UnsatN  int
	UnkN    int
	Fallbk  int
	Time    time.Duration
	Max     time.Duration
	cache   map[string]Result
	models  map[string]*Model
	CacheN  int
	// per-query limits
	quickMS int
	slowS   int
	noSlow  bool   // leave hard queries undecided
	base    *Model // a model of the path condition, where guess starts
	rnd     *rand.Rand
	err     error
}

func NewSolver(c *TermCtx) *Solver {
	return &Solver{c: c, cache: map[string]Result{}, models: map[string]*Model{}, quickMS: 3000, slowS: 120}
}

func procAttr() *syscall.SysProcAttr { return &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL} }

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-memory:%d", 3000))
	s.cmd.SysProcAttr = procAttr()
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.w = &smtWriter{c: s.c, w: &bytes.Buffer{}, done: map[int]bool{}, ufs: map[string]bool{}}
	fmt.Fprintf(s.w.w, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.quickMS)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) flush() error {
	_, err := s.in.Write(s.w.w.Bytes())
	s.w.w.Reset()
	return err
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if l != "" || err != nil {
			return l, err
		}
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) { return readSexp(s.out) }

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth, started, bar := 0, false, false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		switch {
		case b == '|':
			bar = !bar
		case bar:
		case b == '(':
			depth++
			started = true
		case b == ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// closure returns variable terms and UF application terms below ts.
func (c *TermCtx) leaves(ts []*Term) (vars, apps []*Term) {
	seen := map[int]bool{}
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x.id] || x.op == OpConst {
			continue
		}
		seen[x.id] = true
		if x.op == OpVar {
			vars = append(vars, x)
		}
		if x.op == OpUF {
			apps = append(apps, x)
		}
		stack = append(stack, x.args...)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
	return
}

func (s *Solver) Check(cs []*Term, wantModel bool) (Result, *Model) {
	// dedupe and cache
	ids := make([]int, 0, len(cs))
	for _, t := range cs {
		if t.IsFalse() {
			return Unsat, nil
		}
		if !t.IsTrue() {
			ids = append(ids, t.id)
		}
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if r, ok := s.cache[key]; ok && (r == Unsat || !wantModel) {
		s.CacheN++
		return r, nil
	}
	if m, ok := s.models[key]; ok {
		s.CacheN++
		return Sat, m
	}
	t0 := time.Now()
	s.Queries++
	r, m := s.incremental(cs, wantModel)
	if r == Unknown {
		if m = s.guess(cs); m != nil {
			r = Sat
		} else if !s.noSlow {
			s.Fallbk++
			r, m = s.oneShot(cs, wantModel)
		}
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.Max {
		s.Max = d
	}
	switch r {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnkN++
	}
	if r != Unknown {
		s.cache[key] = r
	}
	if m != nil && len(s.models) < 200000 {
		s.models[key] = m
	}
	if m != nil {
		// sanity: the model must satisfy the constraints under our own evaluator
		ev := s.c.evaluator(m)
		for _, t := range cs {
			if ev.U(t) != 1 {
				s.err = fmt.Errorf("model does not satisfy constraint under the evaluator: %s", t.str(4))
			}
		}
	}
	return r, m
}

// guess looks for a model of a hard query by changing variables of the path's
// model; it can only ever find counterexamples, never discharge anything.
func (s *Solver) guess(cs []*Term) *Model {
	vars, apps := s.c.leaves(cs)
	if s.base == nil || len(apps) > 0 || len(vars) == 0 {
		return nil
	}
	if s.rnd == nil {
		s.rnd = rand.New(rand.NewSource(1))
	}
	t0 := time.Now()
	for i := 0; i < 400 && time.Since(t0) < 5*time.Second; i++ {
		m := NewModel()
		for _, v := range vars {
			x := new(big.Int)
			if o, ok := s.base.v[v.id]; ok {
				x.Set(o)
			}
			if i%4 == 3 || s.rnd.Intn(2) == 0 {
				w := v.w
				if s.rnd.Intn(3) == 0 {
					w = 1 + s.rnd.Intn(v.w+1)
				}
				if w == 0 || w > v.w {
					w = max(v.w, 1)
				}
				x.Rand(s.rnd, new(big.Int).Lsh(big.NewInt(1), uint(w)))
			}
			m.v[v.id] = x
		}
		ev := s.c.evaluator(m)
		ok := true
		for j := len(cs) - 1; j >= 0 && ok; j-- {
			ok = ev.U(cs[j]) == 1
		}
		if ok {
			return m
		}
	}
	return nil
}

func (s *Solver) incremental(cs []*Term, wantModel bool) (Result, *Model) {
	if s.cmd != nil && len(s.w.done) > 20000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.err = err
			return Unknown, nil
		}
	}
	for _, t := range cs {
		s.w.define(t)
	}
	vars, apps := s.c.leaves(cs)
	for _, a := range apps {
		s.w.define(a)
	}
	s.w.w.WriteString("(push 1)\n")
	for _, t := range cs {
		fmt.Fprintf(s.w.w, "(assert %s)\n", s.w.ref(t))
	}
	s.w.w.WriteString("(check-sat)\n")
	if err := s.flush(); err != nil {
		s.Close()
		return Unknown, nil
	}
	l, err := s.line()
	if err != nil || strings.HasPrefix(l, "(error") {
		s.Close()
		if !strings.Contains(l, "memory") && !strings.Contains(l, "canceled") {
			s.err = fmt.Errorf("solver: %s %v", l, err)
		}
		return Unknown, nil
	}
	var m *Model
	r := Unknown
	switch l {
	case "unsat":
		r = Unsat
	case "sat":
		r = Sat
		if wantModel {
			m, err = s.model(vars, apps)
			if err != nil {
				s.err = err
				s.Close()
				return Unknown, nil
			}
		}
	}
	s.w.w.WriteString("(pop 1)\n")
	return r, m
}

func (s *Solver) model(vars, apps []*Term) (*Model, error) {
	all := append(append([]*Term{}, vars...), apps...)
	m := NewModel()
	if len(all) == 0 {
		return m, nil
	}
	s.w.w.WriteString("(get-value (")
	for _, v := range all {
		s.w.w.WriteString(s.w.ref(v) + " ")
	}
	s.w.w.WriteString("))\n")
	if err := s.flush(); err != nil {
		return nil, err
	}
	txt, err := s.readSexp()
	if err != nil {
		return nil, err
	}
	return s.c.parseModel(txt, vars, apps)
}

func (c *TermCtx) parseModel(txt string, vars, apps []*Term) (*Model, error) {
	m := NewModel()
	vals := map[string]*big.Int{}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	// ( ( name val ) ( name val ) ... ) ; val is #x.. #b.. true false
	for i := 0; i+3 < len(toks); i++ {
		if toks[i] == "(" && (strings.HasPrefix(toks[i+1], "v") || strings.HasPrefix(toks[i+1], "t")) && toks[i+3] == ")" {
			v := new(big.Int)
			switch x := toks[i+2]; {
			case x == "true":
				v.SetInt64(1)
			case x == "false":
			case strings.HasPrefix(x, "#x"):
				v.SetString(x[2:], 16)
			case strings.HasPrefix(x, "#b"):
				v.SetString(x[2:], 2)
			default:
				return nil, fmt.Errorf("cannot parse value %q", x)
			}
			vals[toks[i+1]] = v
		}
	}
	for _, v := range vars {
		x, ok := vals[fmt.Sprintf("v%d", v.id)]
		if !ok {
			return nil, fmt.Errorf("no value for %s", v.name)
		}
		m.v[v.id] = x
	}
	// arguments of UF applications may contain UF applications: inner first (ids grow outwards)
	for _, a := range apps {
		x, ok := vals[fmt.Sprintf("t%d", a.id)]
		if !ok {
			return nil, fmt.Errorf("no value for application of %s", a.name)
		}
		ev := c.evaluator(m)
		m.uf[ufKey{a.name, ev.ufArgs(a)}] = x
	}
	return m, nil
}

// oneShot runs z3-new and cvc5 on a standalone file, first decisive answer wins.
func (s *Solver) oneShot(cs []*Term, wantModel bool) (Result, *Model) {
	w := &smtWriter{c: s.c, w: &bytes.Buffer{}, done: map[int]bool{}, ufs: map[string]bool{}}
	w.w.WriteString("(set-logic QF_UFBV)\n(set-option :produce-models true)\n")
	for _, t := range cs {
		w.define(t)
	}
	vars, apps := s.c.leaves(cs)
	for _, t := range cs {
		fmt.Fprintf(w.w, "(assert %s)\n", w.ref(t))
	}
	w.w.WriteString("(check-sat)\n")
	if wantModel && len(vars)+len(apps) > 0 {
		w.w.WriteString("(get-value (")
		for _, v := range append(append([]*Term{}, vars...), apps...) {
			w.w.WriteString(w.ref(v) + " ")
		}
		w.w.WriteString("))\n")
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.slowS)*time.Second)
	defer cancel()
	type ans struct {
		r   Result
		txt string
	}
	ch := make(chan ans, 3)
	run := func(args ...string) {
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		cmd.SysProcAttr = procAttr()
		cmd.Stdin = bytes.NewReader(w.w.Bytes())
		out, _ := cmd.Output()
		t := string(out)
		switch {
		case strings.HasPrefix(t, "unsat"):
			ch <- ans{Unsat, ""}
		case strings.HasPrefix(t, "sat"):
			ch <- ans{Sat, t[3:]}
		default:
			ch <- ans{Unknown, t}
		}
	}
	n := 2
	go run("z3-new", "-in", "-smt2", "-memory:3000")
	go run("cvc5", "--lang=smt2", "--bv-solver=bitblast")
	for i := 0; i < n; i++ {
		a := <-ch
		if a.r == Unsat {
			return Unsat, nil
		}
		if a.r == Sat {
			if !wantModel {
				return Sat, nil
			}
			m, err := s.c.parseModel(a.txt, vars, apps)
			if err == nil {
				return Sat, m
			}
		}
	}
	return Unknown, nil
}
