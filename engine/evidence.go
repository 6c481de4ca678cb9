package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

func (c *checker) evidence(prop string, seed int64, e *Engine, sums []*hsum, violations int, wall, loadT time.Duration) {
	var paths, decisions, asserts, trivial, queries, unknown, steps, validated int64
	var solver time.Duration
	var hs []map[string]interface{}
	var samples []interface{}
	assume := map[string]bool{
		"sequentially consistent memory; Go integer widths of amd64": true,
		"the SSA translation (golang.org/x/tools/go/ssa), the interpreter in /verif/engine and z3 are trusted, cross-checked by replaying explored paths against the compiled code": true,
	}
	exhaustive := true
	for _, s := range sums {
		x := s.x
		paths += x.paths
		decisions += x.decisions
		asserts += x.asserts
		trivial += x.trivial
		queries += x.stats.Queries
		unknown += x.stats.Unknown
		steps += x.steps
		validated += int64(s.validated)
		solver += x.stats.Time
		if x.leftover > 0 || x.kinds[stopUnsupported]+x.kinds[stopLimit] > 0 || x.stats.Unknown > 0 || len(s.unconfirmed) > 0 || x.halted {
			exhaustive = false
		}
		m := map[string]interface{}{
			"harness": x.h.Name, "what": x.h.Doc, "bounds": x.h.Bounds,
			"paths": x.paths, "ended": map[string]int64{"done": x.kinds[stopDone], "infeasible": x.kinds[stopAssume], "unsupported": x.kinds[stopUnsupported], "limit": x.kinds[stopLimit], "violation": x.kinds[stopViolation]},
			"prefixes_left": x.leftover, "queries": x.stats.Queries, "sat": x.stats.Sat, "unsat": x.stats.Unsat, "unknown": x.stats.Unknown,
			"solver_s": round2(x.stats.Time.Seconds()), "slowest_query_s": round2(x.stats.MaxTime.Seconds()),
			"assertions_evaluated": x.asserts, "assertions_settled_by_facts_alone": x.trivial, "longest_path_decisions": x.maxDepth,
			"reached": sortedKeys(x.reach), "assertions": x.byLabel, "wall_s": round2(x.wall.Seconds()),
			"paths_replayed_on_compiled_code": s.validated,
		}
		if len(x.problems) > 0 {
			m["outside_the_encoding"] = topN(x.problems, 4)
		}
		if len(x.notes) > 0 {
			m["approximations"] = sortedKeys(x.notes)
		}
		if len(s.unconfirmed) > 0 {
			m["unconfirmed_counterexamples"] = s.unconfirmed
		}
		hs = append(hs, m)
		for i, p := range x.samples {
			if i >= 2 {
				break
			}
			in := map[string]int64{}
			n := 0
			for _, k := range sortedKeys(p.Inputs) {
				if n++; n > 30 {
					break
				}
				in[k] = int64(p.Inputs[k])
			}
			samples = append(samples, map[string]interface{}{"harness": x.h.Name, "solver_inputs": in, "decisions": p.Depth, "observed": p.Obs})
		}
		if s.confirmed != nil {
			samples = append(samples, map[string]interface{}{"harness": x.h.Name, "violation": s.confirmed.Label, "inputs": s.confirmed.Vars})
		}
	}
	if len(samples) > 10 {
		samples = samples[:10]
	}
	type fh struct {
		n string
		h int64
	}
	var fns []fh
	other := 0
	e.fnCache.Range(func(_, v interface{}) bool {
		fi := v.(*fnInfo)
		if fi.hits == 0 {
			return true
		}
		if fi.repo {
			fns = append(fns, fh{fi.name, fi.hits})
		} else {
			other++
		}
		return true
	})
	sort.Slice(fns, func(i, j int) bool { return fns[i].n < fns[j].n })
	var names []string
	for _, f := range fns {
		names = append(names, fmt.Sprintf("%s x%d", f.n, f.h))
	}
	if samples == nil {
		samples = []interface{}{"none"}
	}
	ev := map[string]interface{}{
		"property": prop, "tier": c.tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths, "transitions": decisions, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":        exhaustive,
			"explanation":       "states = symbolic paths explored, each standing for every input that satisfies its path condition; transitions = branch, choice and scheduling decisions taken; traces validated = explored paths whose solver-made inputs were replayed on the compiled code with the same observations",
			"functions_encoded": names, "library_functions_encoded": other,
			"queries_discharged": queries, "queries_unknown": unknown, "solver_s": round2(solver.Seconds()), "solver": c.solver,
			"assertions_evaluated": asserts, "assertions_settled_by_facts_alone": trivial,
			"ssa_instructions_executed": steps, "load_and_encode_s": round2(loadT.Seconds()),
			"harnesses": hs,
		},
		"assumptions": sortedKeys(assume), "wall_s": round2(wall.Seconds()), "violations": violations,
	}
	dir := filepath.Join(c.ws.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		b, _ = json.Marshal(ev)
	}
	if c.debug {
		return
	}
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }
