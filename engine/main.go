package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	os.Exit(2)
}

func cmdCheck(args []string) int {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("harness", "", "")
	verbose := fs.Bool("v", false, "")
	par := fs.Int("j", 8, "")
	noReplay := fs.Bool("noreplay", false, "")
	prof := fs.String("cpuprofile", "", "")
	fs.Parse(args)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	e := &Engine{repo: *repo, verif: *verif, tier: *tier, verbose: *verbose}
	e.loadKnown(*prop)
	if err := e.load(*prop); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	for _, d := range e.dropped {
		fmt.Println("NOTE harness file dropped, it does not compile against this tree:", d)
	}
	fmt.Printf("loaded in %.1fs, %d harnesses\n", time.Since(t0).Seconds(), len(e.harnesses))
	var hs []*Harness
	for _, h := range e.harnesses {
		if *only == "" || strings.Contains(h.Name, *only) {
			hs = append(hs, h)
		}
	}
	// longest first
	sort.SliceStable(hs, func(i, j int) bool { return optInt(hs[i].opt, "cost", 1) > optInt(hs[j].opt, "cost", 1) })
	results := make([]*Result1, len(hs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, *par)
	var mu sync.Mutex
	for i, h := range hs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, h *Harness) {
			defer wg.Done()
			defer func() { <-sem }()
			r := e.explore(h)
			mu.Lock()
			results[i] = r
			printResult(r, *verbose)
			mu.Unlock()
		}(i, h)
	}
	wg.Wait()
	return e.report(*prop, results, !*noReplay, *only != "", t0)
}

func printResult(r *Result1, verbose bool) {
	fmt.Printf("%-34s paths=%d forks=%d steps=%d merges=%d/%d queries=%d solver=%.1fs max=%.1fs wall=%.1fs viol=%d\n", r.H.id(), r.Paths, r.Forks, r.Steps, r.Merges, r.MergeFail,
		r.Queries, r.SolverTime.Seconds(), r.MaxQ.Seconds(), r.Wall.Seconds(), len(r.Viol))
	if verbose {
		fmt.Println("   ended:", r.Ended, "covers:", r.Covers)
	}
	for k, n := range r.Unsup {
		fmt.Printf("   unsupported x%d: %s\n", n, k)
	}
	for k, n := range r.Incompl {
		fmt.Printf("   incomplete x%d: %s\n", n, k)
	}
	if r.Unknown > 0 {
		fmt.Printf("   unknown solver answers: %d\n", r.Unknown)
	}
	if r.Err != "" {
		fmt.Println("   error:", r.Err)
	}
	for _, c := range r.Missing {
		fmt.Println("   cover not reached:", c)
	}
	for _, v := range r.Viol {
		fmt.Printf("   violation %s: %s\n", v.Kind, v.Msg)
		if verbose {
			fmt.Println("      values:", v.Values)
			for _, u := range v.UF {
				fmt.Println("      uf:", u.Name, u.Args, u.Val)
			}
			for _, s := range v.Sched {
				fmt.Println("      sched:", s)
			}
			fmt.Println("      " + strings.ReplaceAll(v.Trace, "\n", "\n      "))
		}
	}
}
