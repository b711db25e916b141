package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var globalAssumptions = []string{
	"float64/float32 values are exact reals (rounding, overflow and subnormals are outside the claim); Inf and NaN are modelled as concrete values",
	"the Go memory model: interleavings are at synchronisation points, data races are reported by vector clocks on every access",
	"exp, log, tanh, pow with symbolic arguments are uninterpreted functions with sign, monotonicity and bound axioms",
	"gonum BLAS kernels: tests of a multiplier against zero that only skip work are taken as non-zero (same result over the reals)",
	"sync.Pool always misses; time.Now is constant; fmt/log output is not modelled",
	"sizes, loop counts and choices outside the bounds stated by the harness are outside the claim",
}

func writeBroken(prop, verif, why string, t0 time.Time) int {
	ev := map[string]any{"property": prop, "tier": tier, "seed": 1, "level": "model_checking",
		"coverage":    map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []any{}, "inconclusive": why},
		"assumptions": globalAssumptions, "wall_s": time.Since(t0).Seconds(), "violations": 0}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
	fmt.Println("INCONCLUSIVE", prop, why)
	return 0
}

func (ex *Explorer) report(verif, only string, t0 time.Time) int {
	code := 0
	var paths, trans, validated, sampled, proved, steps int64
	fns := map[string]bool{}
	var hout []any
	var samples []any
	var viol int
	var incon []string
	for _, h := range ex.hs {
		paths += h.Paths
		trans += h.Decisions
		steps += h.Steps
		validated += h.Validated
		sampled += h.Sampled
		for _, v := range h.Asserts {
			proved += v
		}
		for f := range h.Fns {
			fns[f] = true
		}
		for _, s := range h.SampleOut {
			if len(samples) < 12 {
				samples = append(samples, s)
			}
		}
		complete := !h.dl && h.left == 0
		bad := []string{}
		for k := range h.Ends {
			switch k {
			case "ok", "assume", "infeasible", "ok-noassert", "violated":
			default:
				complete = false
				bad = append(bad, k)
			}
		}
		if h.Asserts["unknown"] > 0 {
			complete = false
			bad = append(bad, fmt.Sprintf("%d undecided assertions", h.Asserts["unknown"]))
		}
		if h.left > 0 {
			bad = append(bad, fmt.Sprintf("%d unexplored prefixes at the deadline", h.left))
		}
		if h.Ends["ok"] == 0 && len(h.Viol) == 0 && len(h.Known) == 0 {
			complete = false
			bad = append(bad, "vacuous: no path completed with an assertion")
		}
		if !complete && len(h.Viol) == 0 {
			sort.Strings(bad)
			incon = append(incon, h.Name+": "+strings.Join(bad, ", "))
		}
		ho := map[string]any{"harness": h.Name, "paths": h.Paths, "path_ends": h.Ends, "assertions": h.Asserts, "decisions": h.Decisions, "ssa_steps": h.Steps, "max_steps_on_a_path": h.MaxSteps,
			"reached": sortedKeys(h.Reach), "complete_within_bounds": complete, "forks": h.Forks, "unknown_branches": h.UnkBr, "wall_s": h.wall.Seconds()}
		if h.MaxGor > 0 {
			ho["goroutines_max"] = h.MaxGor
			ho["schedule_points"] = h.Sched
		}
		if len(h.Notes) > 0 {
			ho["notes"] = h.Notes
		}
		if len(h.EndMsgs) > 0 {
			ho["aborts"] = h.EndMsgs
		}
		if len(h.Unconf) > 0 {
			ho["unconfirmed_candidates"] = h.Unconf
		}
		if len(h.Mismatch) > 0 {
			ho["native_mismatches"] = h.Mismatch
		}
		hout = append(hout, ho)
		for k := range h.Known {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ex.prop, k)
		}
		for i, v := range h.Viol {
			viol++
			code = 1
			v.File = filepath.Join(verif, "evidence", fmt.Sprintf("cex-%s-%s-%d.json", ex.prop, h.Name, i))
			os.MkdirAll(filepath.Dir(v.File), 0o755)
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(v.File, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", ex.prop, v.File)
			fmt.Printf("  harness %s, %s\n  inputs %v\n  native: %s\n", h.Name, v.Msg, v.Inputs, firstLines(v.Native, 4))
		}
	}
	wall := time.Since(t0).Seconds()
	cov := map[string]any{
		"states": paths, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"what_states_are":       "symbolic paths of the real SSA executed to their end; transitions are the solver-decided branches and choices along them",
		"assertions_discharged": proved, "ssa_instructions_executed": steps, "native_samples_run": sampled,
		"functions_encoded": sortedKeys(fns), "harnesses": hout,
		"solver":     map[string]any{"queries": stats.Queries, "sat": stats.Sat, "unsat": stats.Unsat, "unknown": stats.Unknown, "portfolio": stats.Portfolio, "errors": stats.Errors, "solver_s": float64(stats.Nanos) / 1e9, "binaries": "z3-new 5.3.2, cvc5 1.1.2, z3 4.8.12"},
		"incomplete": incon,
		"exhaustive": len(incon) == 0 && viol == 0,
	}
	ev := map[string]any{"property": ex.prop, "tier": tier, "seed": ex.seed, "level": "model_checking", "coverage": cov, "assumptions": globalAssumptions, "wall_s": wall, "violations": viol}
	if len(samples) == 0 {
		cov["samples"] = []any{map[string]any{"note": "no native sample in this run"}}
	}
	if only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		os.WriteFile(filepath.Join(verif, "evidence", ex.prop+".json"), b, 0o644)
	}
	mism := 0
	for _, h := range ex.hs {
		mism += len(h.Mismatch)
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d/%d native samples agree, wall %.1fs\n", ex.prop, tier, paths, proved, stats.Queries, float64(stats.Nanos)/1e9, validated, sampled, wall)
	for _, h := range ex.hs {
		fmt.Printf("  %-28s paths %-6d ends %v asserts %v left %d %.1fs\n", h.Name, h.Paths, h.Ends, h.Asserts, h.left, h.wall.Seconds())
		if debug || only != "" {
			for _, k := range sortedKeys(h.EndMsgs) {
				fmt.Printf("      end %d× %s\n", h.EndMsgs[k], k)
			}
			for _, k := range sortedKeys(h.Notes) {
				fmt.Printf("      note %d× %s\n", h.Notes[k], k)
			}
			for _, k := range sortedKeys(h.Unconf) {
				fmt.Printf("      unconfirmed %d× %s\n", h.Unconf[k], k)
			}
		}
		for _, k := range h.Mismatch {
			fmt.Printf("      MISMATCH %s\n", k)
		}
	}
	for _, s := range incon {
		fmt.Println("  incomplete:", s)
	}
	return code
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n    ")
}
