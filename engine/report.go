package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// reached tells whether a cover point was reached, or not decided, in some shard of a harness.
func reached(rs []*Result1, name, cover string) bool {
	for _, r := range rs {
		if r.H.Name != name {
			continue
		}
		if !r.complete() || len(r.Viol) > 0 {
			return true
		}
		found := true
		for _, c := range r.Missing {
			found = found && c != cover
		}
		if found {
			return true
		}
	}
	return false
}

// loadKnown reads the known-findings file; only ids of this property count.
func (e *Engine) loadKnown(prop string) {
	e.knownIDs = map[string]bool{}
	b, err := os.ReadFile(filepath.Join(e.verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p, id := "", ""
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "property=") {
				p = w[9:]
			}
			if strings.HasPrefix(w, "id=") {
				id = w[3:]
			}
		}
		if p == prop && id != "" {
			e.knownIDs[id] = true
			if i := strings.Index(l, "id="+id); i >= 0 {
				e.knownText(id, strings.TrimSpace(l[i+3+len(id):]))
			}
		}
	}
}

var knownTexts = map[string]string{}

func (e *Engine) knownText(id, s string) { knownTexts[id] = s }

func (e *Engine) report(prop string, rs []*Result1, replay, partial bool, t0 time.Time) int {
	code := 0
	confirmed, unconfirmed := 0, 0
	repDir := filepath.Join(e.verif, "replays")
	os.MkdirAll(repDir, 0755)
	var rep *Replayer
	var err error
	if replay {
		if rep, err = newReplayer(e); err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
		defer rep.close()
	}
	n := 0
	write := func(v *Violation, tag string) string {
		n++
		f := filepath.Join(repDir, fmt.Sprintf("%s-%s%d.json", prop, tag, n))
		j, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, j, 0644)
		return f
	}
	var notes []string
	knownSeen := map[string]bool{}
	for _, r := range rs {
		for id, v := range r.Known {
			if knownSeen[id] {
				continue
			}
			f := write(v, "known-")
			if rep != nil {
				if ok, s := rep.confirm(v, f); !ok {
					notes = append(notes, fmt.Sprintf("known finding %s not reproduced: %s", id, s))
					continue
				}
			}
			knownSeen[id] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, knownTexts[id])
		}
		for _, v := range r.Viol {
			if confirmed >= 4 {
				break
			}
			f := write(v, "")
			if rep == nil {
				fmt.Printf("VIOLATION property=%s replay=%s (not replayed)\n", prop, f)
				code = 1
				continue
			}
			ok, s := rep.confirm(v, f)
			v.Replayed = s
			j, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, j, 0644)
			if ok {
				confirmed++
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
				fmt.Printf("  %s in %s: %s\n  %s\n", v.Kind, v.Harness, v.Msg, s)
				code = 1
			} else {
				unconfirmed++
				notes = append(notes, fmt.Sprintf("counterexample of %s (%s: %s) was not reproduced on the real code: %s", v.Harness, v.Kind, firstLines(v.Msg, 1), s))
				fmt.Printf("NOTE unconfirmed counterexample in %s (%s: %s): %s\n", v.Harness, v.Kind, v.Msg, s)
			}
		}
	}
	// validate reachable samples natively
	validated, mism := 0, 0
	if rep != nil {
		budget := 40
		for _, r := range rs {
			for i, s := range r.Samples {
				if budget == 0 {
					break
				}
				budget--
				v := &Violation{Kind: "sample", Events: s["@events"], Values: s, UF: r.SampleUF[i], Harness: r.H.Name, Property: prop, Pkg: r.H.PkgDir}
				f := filepath.Join(rep.dir, "sample.json")
				j, _ := json.Marshal(v)
				os.WriteFile(f, j, 0644)
				o, err := rep.run(v.Pkg, v.Harness, f, false, true, s["@cover"][0])
				if err != nil {
					notes = append(notes, "sample replay: "+tail(err.Error(), 500))
					fmt.Println("NOTE sample replay:", tail(err.Error(), 800))
					budget = 0
					break
				}
				want := s["@cover"][0]
				if o.covers[want] {
					validated++
				} else {
					mism++
					notes = append(notes, fmt.Sprintf("sample for %q of %s took another path natively: %s", want, r.H.Name, tail(o.text, 200)))
					fmt.Printf("NOTE sample %q of %s took another path natively: %s\n", want, r.H.Name, tail(o.text, 200))
				}
			}
		}
	}
	// evidence
	var paths, forks, steps, queries, sat, unsat, unk, cached, obl, oblSolver int
	var st time.Duration
	fns := map[string]bool{}
	var bounds, incomplete []string
	var samples []interface{}
	missing := 0
	complete := 0
	var per []map[string]interface{}
	for _, r := range rs {
		paths += r.Paths
		forks += r.Forks
		steps += r.Steps
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unk
		cached += r.Cached
		st += r.SolverTime
		for _, o := range r.Oblig {
			obl += o.Checked
			oblSolver += o.Solver
		}
		for _, f := range r.Fns {
			fns[f] = true
		}
		if r.H.Bound != "" {
			b := r.H.Name + ": " + r.H.Bound
			dup := false
			for _, o := range bounds {
				dup = dup || o == b
			}
			if !dup {
				bounds = append(bounds, b)
			}
		}
		if r.complete() {
			complete++
			if len(r.Viol) == 0 {
				for _, c := range r.Missing {
					if !reached(rs, r.H.Name, c) {
						missing++
						fmt.Printf("NOTE %s is vacuous: cover point %s was not reached\n", r.H.id(), c)
					}
				}
			}
		} else {
			for k := range r.Unsup {
				incomplete = append(incomplete, r.H.id()+": not encoded: "+k)
			}
			for k := range r.Incompl {
				incomplete = append(incomplete, r.H.id()+": "+k)
			}
			if r.Unknown > 0 {
				incomplete = append(incomplete, fmt.Sprintf("%s: %d solver timeouts", r.H.id(), r.Unknown))
			}
			if r.Err != "" {
				incomplete = append(incomplete, r.H.id()+": "+r.Err)
			}
		}
		for _, s := range r.Samples {
			if len(samples) < 8 {
				samples = append(samples, map[string]interface{}{"harness": r.H.Name, "input": clip(s)})
			}
		}
		per = append(per, map[string]interface{}{"harness": r.H.id(), "paths": r.Paths, "queries": r.Queries, "solver_s": round(r.SolverTime.Seconds()),
			"wall_s": round(r.Wall.Seconds()), "complete": r.complete(), "max_query_s": round(r.MaxQ.Seconds())})
	}
	for _, d := range e.dropped {
		incomplete = append(incomplete, "harness file not compiled against this tree: "+d)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := map[string]interface{}{
		"property": prop, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        paths,
			"transitions":                   steps,
			"traces_validated_against_impl": validated,
			"trace_mismatches":              mism,
			"samples":                       samples,
			"harnesses":                     per,
			"functions_encoded":             fl,
			"bounds":                        bounds,
			"obligations_checked":           obl,
			"obligations_sent_to_solver":    oblSolver,
			"solver":                        "z3-new (z3 4.16 or the version installed), QF_UFBV",
			"queries":                       queries,
			"queries_sat":                   sat,
			"queries_unsat":                 unsat,
			"queries_unknown":               unk,
			"queries_cached":                cached,
			"solver_s":                      round(st.Seconds()),
			"symbolic_branches":             forks,
			"outside_the_bounds":            incomplete,
			"exhaustive":                    complete == len(rs) && len(e.dropped) == 0,
			"unconfirmed_counterexamples":   unconfirmed,
			"notes":                         notes,
			"explanation":                   "states = symbolic paths (each a set of concrete inputs described by its path condition), transitions = SSA instructions executed symbolically",
		},
		"assumptions": assumptions,
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  confirmed,
	}
	if !partial {
		os.MkdirAll(filepath.Join(e.verif, "evidence"), 0755)
		j, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), append(j, '\n'), 0644); err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
	}
	fmt.Printf("%s %s: paths=%d instructions=%d queries=%d (unsat %d, sat %d, unknown %d) solver=%.1fs replayed samples=%d wall=%.1fs exhaustive=%v\n", prop, e.tier, paths, steps, queries, unsat, sat, unk,
		st.Seconds(), validated, time.Since(t0).Seconds(), complete == len(rs))
	if code == 0 {
		if len(rs) == 0 {
			fmt.Println("ERROR nothing was explored")
			return 2
		}
		if missing > 0 {
			fmt.Println("ERROR vacuous harness")
			return 2
		}
		fmt.Printf("OK property=%s held on everything explored\n", prop)
	}
	return code
}

var assumptions = []string{
	"the SSA interpreter, the term simplifier and z3 are correct; samples of every run are replayed on the compiled code",
	"goroutines switch only at synchronisation operations (where a harness says so, data races are looked for by happens-before), with the stated bounds on preemptions and delays",
	"hash functions (BLAKE2b, SHA-256) and elliptic-curve operations are uninterpreted functions on symbolic inputs; counterexamples are replayed with the assignment the solver chose for them",
	"logrus output is ignored; logrus.Fatal ends the process; outgoing connections are answered by the harness or fail; memory allocation succeeds up to the stated limit",
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func clip(s map[string][]string) map[string]string {
	r := map[string]string{}
	for k, l := range s {
		t := strings.Join(l, ",")
		if len(t) > 200 {
			t = t[:200] + "..."
		}
		r[k] = t
	}
	return r
}
