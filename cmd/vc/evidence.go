package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func round(x float64) float64 { return math.Round(x*100) / 100 }

func writeEvidence(pr *Prop, tier string, seed int, rs []*jobResult, validated int, mism, unconf, known []string, nviol int, wall time.Duration, cross bool) {
	var states, trans, asserts, unkBr, unkAs int64
	var q, sat, unsat, unk, pq, pu, ch, cc, cd int64
	var st time.Duration
	fset := map[string]bool{}
	var samples []any
	var harn []any
	complete := true
	for _, r := range rs {
		rep := r.rep
		paths := int64(0)
		for _, n := range rep.Paths {
			paths += n
		}
		states += paths
		trans += rep.Forks
		asserts += rep.Asserts
		unkBr += rep.UnknownBr
		unkAs += rep.AssertUnk
		s := &rep.Solver
		q += s.Queries
		sat += s.Sat
		unsat += s.Unsat
		unk += s.Unknown
		pq += s.Asserts
		pu += s.AssertUnsat
		ch += s.CacheHits
		cc += s.CrossChecked
		cd += s.CrossDisagree
		st += s.Time
		for _, f := range r.funcs {
			fset[f] = true
		}
		for i, x := range rep.Samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": x.Harness, "params": r.params, "path_inputs": x.Inputs, "observed": x.Obs})
			}
		}
		ok := rep.Pending == 0 && !rep.TimedOut && rep.Paths["bound"] == 0 && rep.Paths["unsupported"] == 0 && rep.UnknownBr == 0 && rep.AssertUnk == 0
		complete = complete && ok
		var missing []string
		for _, t := range r.job.Reach {
			if rep.Reached[t] == 0 {
				missing = append(missing, t)
			}
		}
		harn = append(harn, map[string]any{
			"harness": rep.Harness, "bounds": r.job.Scope, "params": r.params, "paths": rep.Paths, "forks": rep.Forks,
			"paths_not_explored": rep.Pending, "stopped_early": rep.TimedOut, "complete_within_bounds": ok,
			"assertion_checks": rep.Asserts, "reachability_witnesses": rep.Reached, "unreached_witnesses": missing,
			"symbolic_inputs_max": rep.MaxInputs, "instructions": rep.Steps, "incomplete_reasons": rep.TopNotes(3),
			"solver_queries": s.Queries, "solver_s": round(s.Time.Seconds()), "wall_s": round(rep.Wall.Seconds()),
		})
	}
	var fs []string
	for f := range fset {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no completed path sampled"})
	}
	crossS := "not run in this tier"
	if cross {
		crossS = fmt.Sprintf("cvc5 re-decided %d assertion queries, %d disagreements", cc, cd)
	}
	ev := map[string]any{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"state_means":       "one feasible execution path of the harness over the real code (inputs symbolic); transitions are solver-decided path forks",
			"exhaustive":        complete,
			"functions_encoded": fs, "functions_encoded_count": len(fs),
			"harnesses":          harn,
			"assertions_decided": asserts,
			"solver": map[string]any{"queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "assertion_queries": pq, "assertion_unsat": pu,
				"assertions_folded_by_simplifier": asserts - pq, "cache_hits": ch, "solver_s": round(st.Seconds()), "unknown_branches": unkBr, "unknown_assertions": unkAs, "cross_check": crossS},
			"translator_mismatches": mism, "unconfirmed_candidates": unconf, "known_findings_seen": known,
		},
		"assumptions": append([]string{
			"bounds are those listed per harness; nothing is claimed outside them",
			"amd64 layout and Go semantics as implemented by /verif/engine over go/ssa of /repo's current tree; validated by replaying sampled path witnesses natively",
			"runtime allocation never fails; sync.Pool reuses the most recently returned object; error texts are opaque",
		}, pr.Assumptions...),
		"wall_s":     round(wall.Seconds()),
		"violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", pr.ID+".json"), append(b, '\n'), 0o644)
}
