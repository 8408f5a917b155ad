package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Result1 struct {
	H                   *Harness
	Paths, Forks        int
	Steps, Merges       int
	MergeFail           int
	Ended               map[string]int
	Viol                []*Violation
	Known               map[string]*Violation
	Unsup               map[string]int
	Incompl             map[string]int
	Unknown             int
	Covers              map[string]int
	Missing             []string
	Oblig               map[string]*obl
	Fns                 []string
	Samples             []map[string][]string
	SampleUF            [][]UFEntry
	Queries, Sat, Unsat int
	Unk, Cached         int
	SolverTime, MaxQ    time.Duration
	Wall                time.Duration
	Err                 string
	MaxTerm             int
}

func (r *Result1) complete() bool {
	return len(r.Unsup) == 0 && len(r.Incompl) == 0 && r.Unknown == 0 && r.Err == ""
}

func (x *Exec) endPath(s *State) {
	x.paths++
	x.ended[s.end]++
}

func optInt(o map[string]string, k string, d int) int {
	if v, ok := o[k]; ok {
		if n, err := strconv.Atoi(v); err == nil {
			return n
		}
	}
	return d
}

func (e *Engine) newExec(h *Harness) *Exec {
	c := NewTermCtx()
	x := &Exec{eng: e, c: c, sol: NewSolver(c), h: h}
	x.lay = layoutCache{map[types.Type]int{}, map[*types.Struct][]int{}}
	x.nilSlice = Slice{0, 0, x.k64(0), x.k64(0)}
	x.globals = map[*ssa.Global]int{}
	x.uniq = map[string]int{}
	x.infos = map[*ssa.Function]*FnInfo{}
	x.consts = map[*ssa.Const]Value{}
	x.ended = map[string]int{}
	x.fnSeen = map[*ssa.Function]bool{}
	x.violKeys = map[string]bool{}
	x.known = map[string]*Violation{}
	x.unsup = map[string]int{}
	x.incompl = map[string]int{}
	x.covers = map[string]*cover{}
	x.oblig = map[string]*obl{}
	o := h.opt
	x.opt = Options{
		MaxStates: optInt(o, "states", 200000),
		MaxSteps:  optInt(o, "steps", 4000000),
		Timeout:   time.Duration(optInt(o, "timeout", 240)) * time.Second,
		Loop:      optInt(o, "loop", 0),
		Merge:     o["merge"] == "on",
		MapOrder:  o["maporder"],
		Preempt:   optInt(o, "preempt", 0),
		Delays:    optInt(o, "delays", -1),
		Race:      o["race"] == "on",
		Draws:     optInt(o, "draws", 0),
		MaxViol:   optInt(o, "maxviol", 4),
		Verbose:   e.verbose,
	}
	if s := optInt(o, "slow", 0); s > 0 {
		x.sol.slowS = s
	}
	return x
}

// explore runs the harness to completion or to its limits.
func (e *Engine) explore(h *Harness) (res *Result1) {
	t0 := time.Now()
	x := e.newExec(h)
	defer x.sol.Close()
	x.t0, x.deadline = t0, t0.Add(x.opt.Timeout)
	errs := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				errs = fmt.Sprint("engine: ", r)
				if e.verbose {
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
				}
			}
		}()
		st := &State{heap: Heap{tok: &tok{}}, names: map[string]int{}, inited: map[*ssa.Package]bool{}}
		st.ev = x.c.evaluator(NewModel())
		g := &Gor{name: "main"}
		st.gs = []*Gor{g}
		info := x.info(h.fn)
		g.frames = []*Frame{{fn: h.fn, info: info, regs: make([]Value, info.n), ret: -1, block: h.fn.Blocks[0]}}
		work := []*State{st}
		x.work = &work
		for len(work) > 0 && !x.stopAll {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			x.run(s, nil)
			x.races(s)
			x.endPath(s)
			if len(work) > x.statesMax {
				x.statesMax = len(work)
			}
			if x.paths >= x.opt.MaxStates {
				x.incompl["path limit"]++
				break
			}
		}
	}()
	r := &Result1{H: h, Paths: x.paths, Forks: x.forks, Steps: x.steps, Merges: x.merges, MergeFail: x.mergeFail, Ended: x.ended, Viol: x.viol,
		Known: x.known, Unsup: x.unsup, Incompl: x.incompl, Unknown: x.unknown, Oblig: x.oblig, Samples: x.samples, SampleUF: x.sampleUF, Err: errs,
		Queries: x.sol.Queries, Sat: x.sol.SatN, Unsat: x.sol.UnsatN, Unk: x.sol.UnkN, Cached: x.sol.CacheN, SolverTime: x.sol.Time, MaxQ: x.sol.Max,
		Covers: map[string]int{}, Wall: time.Since(t0)}
	for n, c := range x.covers {
		r.Covers[n] = c.Hits
	}
	for _, n := range h.covers {
		if x.covers[n] == nil {
			r.Missing = append(r.Missing, n)
		}
	}
	for f := range x.fnSeen {
		pos := e.fset.Position(f.Pos()).Filename
		if strings.Contains(pos, "zz_verif_") || f.Synthetic != "" {
			continue
		}
		r.Fns = append(r.Fns, strings.ReplaceAll(fnName(f), modPath+"/", ""))
	}
	sort.Strings(r.Fns)
	for _, v := range append(append([]*Violation{}, x.viol...), knownList(x.known)...) {
		v.Harness, v.Property, v.Pkg = h.Name, h.Property, h.PkgDir
	}
	return r
}

func knownList(m map[string]*Violation) []*Violation {
	var l []*Violation
	for _, v := range m {
		l = append(l, v)
	}
	return l
}
