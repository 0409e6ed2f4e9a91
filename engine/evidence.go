package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type evidence struct {
	prop string
	doc  map[string]interface{}
}

func newEvidence(prop string) *evidence {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &evidence{prop: prop, doc: map[string]interface{}{
		"property": prop, "tier": *flagTier, "seed": seed, "level": "model_checking", "violations": 0,
	}}
}

func (e *evidence) write() {
	dir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	js, _ := json.MarshalIndent(e.doc, "", " ")
	if err := os.WriteFile(filepath.Join(dir, e.prop+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

// finishEmpty records a run that could not encode the code: nothing is claimed and nothing is alarmed.
func (e *evidence) finishEmpty(t0 time.Time, why string) int {
	fmt.Printf("INCONCLUSIVE property=%s %s\n", e.prop, why)
	e.doc["coverage"] = map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "incomplete": []string{why}, "exhaustive": false}
	e.doc["assumptions"] = []string{"nothing was decided on this run: " + why}
	e.doc["wall_s"] = time.Since(t0).Seconds()
	e.write()
	return 0
}

func (e *evidence) finish(s *session, results []*harnessResult, sel []*harnessFn, t0 time.Time) int {
	var states, trans, queries, sat, unsat, unk, asserts, aconst int64
	var solver float64
	exhaustive := len(results) == len(sel)
	funcs := map[string]bool{}
	incomplete := map[string]int{}
	reached := map[string]int{}
	var perH []interface{}
	var bounds, never []string
	for _, r := range results {
		st := &r.st
		states += int64(st.Paths)
		trans += st.Branches + st.Forks
		queries += int64(st.Queries)
		sat += int64(st.SatN)
		unsat += int64(st.UnsatN)
		unk += int64(st.UnkN)
		asserts += st.Asserts
		aconst += st.AssertConst
		solver += st.SolverTime.Seconds()
		for f := range st.Funcs {
			funcs[f] = true
		}
		for k, v := range st.Incomplete {
			incomplete[r.h.name+": "+k] += v
		}
		if !st.Exhausted || len(st.Incomplete) > 0 || r.why != "" {
			exhaustive = false
		}
		if r.why != "" {
			incomplete[r.h.name+": "+r.why]++
		}
		for _, l := range r.h.reach {
			reached[r.h.name+"/"+l] = st.Reached[l]
			if st.Reached[l] == 0 {
				never = append(never, r.h.name+"/"+l)
			}
		}
		bounds = append(bounds, prefixAll(r.h.name+": ", r.h.bounds)...)
		perH = append(perH, map[string]interface{}{"harness": r.h.name, "paths": st.Paths, "infeasible": st.Infeasible, "branches": st.Branches,
			"forks": st.Forks, "assertions": st.Asserts, "assertions_folded_to_constants": st.AssertConst, "queries": st.Queries, "unsat": st.UnsatN, "sat": st.SatN, "unknown": st.UnkN,
			"solver_s": round3(st.SolverTime.Seconds()), "steps": st.Steps, "symbolic_variables_max": st.MaxVars, "all_paths_explored": st.Exhausted, "wall_s": round3(r.wall)})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	sort.Strings(never)
	var inc []string
	for k, v := range incomplete {
		inc = append(inc, fmt.Sprintf("%s (%d)", k, v))
	}
	sort.Strings(inc)
	if len(s.smpDone) == 0 {
		s.smpDone = []interface{}{"no path was replayed natively on this run"}
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": s.valid, "samples": s.smpDone,
		"exhaustive": exhaustive, "functions_encoded": fl, "bounds": bounds, "queries_discharged": queries, "queries_sat": sat, "queries_unsat": unsat,
		"queries_unknown": unk, "solver_s": round3(solver), "solver": "z3", "assertions_checked": asserts, "assertions_decided_by_folding": aconst,
		"incomplete": inc, "harnesses": perH, "reach": reached, "never_reached": never, "native_divergences": s.diverged,
		"candidates_not_reproduced": s.unrepro, "native_errors": s.natErr,
		"explanation": "states = symbolic paths completed; transitions = branch decisions and forks; each path stands for every concrete input that satisfies its path condition",
	}
	e.doc["coverage"] = cov
	e.doc["assumptions"] = []string{
		"claims hold for all values within the bounds listed in coverage.bounds; inputs beyond them are not covered",
		"stand-ins replace the environment (see DESIGN.md): key-value backend faults, crypto, tokens, clock, files, bleve, viper, protobuf encoding",
	}
	e.doc["wall_s"] = round3(time.Since(t0).Seconds())
	e.doc["violations"] = len(s.viol)
	e.write()
	var keys []string
	for k := range s.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := s.findings[k]
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop, f.What)
	}
	for _, n := range never {
		fmt.Printf("note: never reached: %s\n", n)
	}
	for _, n := range inc {
		fmt.Printf("note: incomplete: %s\n", n)
	}
	for _, n := range s.diverged {
		fmt.Printf("note: native run differs: %s\n", n)
	}
	for _, n := range s.unrepro {
		fmt.Printf("note: candidate not reproduced natively: %s\n", n)
	}
	for _, n := range s.natErr {
		fmt.Printf("note: native: %s\n", strings.ReplaceAll(n, "\n", " | "))
	}
	fmt.Printf("property=%s paths=%d queries=%d unsat=%d solver=%.1fs validated=%d exhaustive=%v wall=%.1fs\n", e.prop, states, queries, unsat, solver, s.valid, exhaustive, time.Since(t0).Seconds())
	if len(s.viol) > 0 {
		for _, v := range s.viol {
			fmt.Printf("violated: %s: %s %s\n", v.c.Harness, v.c.Label, v.detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, s.viol[0].path)
		return 1
	}
	return 0
}

func prefixAll(p string, xs []string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, p+x)
	}
	return out
}

func round3(f float64) float64 { return float64(int(f*1000)) / 1000 }
