package main

import (
	"fmt"
	"sort"
	"time"

	"verif/engine/interp"
)

func evidence(prop, tier string, seed int64, reps []*interp.Report, t0 time.Time, loadT time.Duration, notes []string,
	replayed, unconfirmed, validated, mismatched, nativeFailed int, vlist []string, kf []known) map[string]any {
	states, queries, sat, unsat, unk := 0, 0, 0, 0, 0
	var steps int64
	var solT time.Duration
	funcs, exts, assumed := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var hs []any
	var samples []any
	complete := true
	asserts, proved, undecided, trivial, paths := 0, 0, 0, 0, 0
	for _, r := range reps {
		states += r.Paths + r.Decisions
		paths += r.Paths
		steps += r.Steps
		queries += r.Queries
		unsat += r.Res[0]
		sat += r.Res[1]
		unk += r.Res[2]
		solT += r.SolverT
		asserts += r.Asserts
		proved += r.Proved
		trivial += r.Trivial
		undecided += sum(r.Unknown)
		complete = complete && r.Complete
		for _, f := range r.FuncsIn("gopf") {
			funcs[f] = true
		}
		for f := range r.Exts {
			exts[f] = true
		}
		for a := range r.Assumed {
			assumed[a] = true
		}
		labels := keys(r.Labels)
		h := map[string]any{"harness": r.Harness, "paths": r.Paths, "path_ends": r.Ends, "assertions_checked": r.Asserts, "assertions_proved": r.Proved,
			"decided_by_normalisation_alone": r.Trivial, "undecided": r.Unknown, "counterexample_candidates": len(r.Viols), "complete_within_bounds": r.Complete,
			"paths_left": r.Left, "bounds": r.Bounds, "queries": r.Queries, "solver_s": round(r.SolverT.Seconds()), "wall_s": round(r.Wall.Seconds()), "assertions": labels}
		if len(r.EndMsgs) > 0 {
			m := map[string]int{}
			for k, v := range r.EndMsgs {
				m[clip(k, 300)] = v
			}
			h["path_end_messages"] = m
		}
		hs = append(hs, h)
		if len(r.Witnesses) > 0 && len(samples) < 6 {
			w := r.Witnesses[len(r.Witnesses)/2]
			samples = append(samples, map[string]any{"harness": w.Harness, "witness": first(w.Vals, 24), "ends": w.End})
		}
	}
	if samples == nil {
		samples = []any{"no path was completed on this run"}
	}
	cov := map[string]any{
		"states": states, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"meaning":   "states: nodes of the symbolic path tree (branch decisions plus path ends); transitions: SSA instructions executed symbolically; traces_validated_against_impl: path witnesses run on the compiled code with all assertions holding and all observed values equal",
		"paths":     paths,
		"harnesses": hs, "functions_encoded": keys(funcs), "modelled_functions": keys(exts),
		"smt_queries":            map[string]any{"total": queries, "unsat": unsat, "sat": sat, "unknown": unk, "solver_s": round(solT.Seconds()), "solver": "z3-new (QF_NRA/QF_LRA/QF_BV, one process per worker)"},
		"assertions":             map[string]any{"checked": asserts, "proved_for_all_inputs_of_their_path": proved, "undecided": undecided, "of_the_proved_closed_by_the_normaliser": trivial},
		"complete_within_bounds": complete && undecided == 0,
		"candidates_replayed":    replayed, "candidates_not_reproduced": unconfirmed, "witnesses_differing": mismatched, "witnesses_failing": nativeFailed,
		"load_s": round(loadT.Seconds()),
	}
	if len(notes) > 0 {
		if len(notes) > 12 {
			notes = append(notes[:12], fmt.Sprintf("... %d more", len(notes)-12))
		}
		cov["notes"] = notes
	}
	if len(vlist) > 0 {
		cov["violations"] = vlist
	}
	ass := keys(assumed)
	ass = append(ass,
		"float64 arithmetic on symbolic values is modelled by exact real arithmetic; equalities are asserted up to the stated tolerances; overflow, NaN and rounding of symbolic values are outside the model (replay on the compiled code covers the witnesses only)",
		"sources outside the repository listed under modelled_functions are replaced by models; the models are cross-checked by running path witnesses on the compiled code")
	return map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": ass, "wall_s": round(time.Since(t0).Seconds()), "violations": len(vlist)}
}

func keys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func first(m map[string]any, n int) map[string]any {
	out := map[string]any{}
	for _, k := range keys(m) {
		if len(out) >= n {
			break
		}
		out[k] = m[k]
	}
	return out
}

func round(x float64) float64 { return float64(int64(x*100+0.5)) / 100 }
