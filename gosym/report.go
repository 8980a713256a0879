package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func isFailure(k string) bool {
	switch k {
	case "assert", "panic", "crash", "deadlock", "timeout", "race":
		return true
	}
	return false
}

func report(prop, tier string, seed int, results []*Result, nat *Native, dir string, t0 time.Time, verbose bool, dropped map[string]bool) int {
	findings := loadFindings()
	known := func(h, msg string) *Finding {
		for i := range findings {
			f := &findings[i]
			if f.Property == prop && f.Harness == h && f.Match == msg {
				return f
			}
		}
		return nil
	}
	type vioRec struct {
		Harness string `json:"harness"`
		What    string `json:"what"`
		Replay  string `json:"replay"`
	}
	var vios []vioRec
	knownSeen := map[string]bool{}
	var reduced []string
	for d := range dropped {
		if strings.HasPrefix(d, "ZZ_") {
			reduced = append(reduced, d+": does not fit the current tree")
		}
	}
	funcs := map[string]bool{}
	notes := map[string]bool{}
	var paths, forks, merges int
	var queries, sat, unsat, unk, trivial, oneshot, modelHits int64
	var steps int64
	var solverNS int64
	asserts, assertsTrivial := 0, 0
	validated, mismatched, skipped, notReproduced := 0, 0, 0, 0
	var hrecs []interface{}
	replayDir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(replayDir, 0o755)
	save := func(h *Harness, kind, msg, pos, stack string, vals []NDVal, sched []schedEv, res CaseResult) string {
		p := filepath.Join(replayDir, fmt.Sprintf("%s-%d.json", prop, len(vios)+1))
		j, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "pkg": h.Pkg, "harness": h.Name, "tier": tier, "kind": kind, "message": msg,
			"at": pos, "stack": stack, "values": vals, "sched": sched, "native": res, "how": "bash /verif/check.sh " + prop + " --replay " + p}, "", " ")
		os.WriteFile(p, j, 0o644)
		return p
	}
	nativeOK := true
	coverSum := map[string]int{}
	hitBefore := map[string]bool{}
	for _, r := range results {
		if r != nil {
			for c, n := range r.e.Covers {
				coverSum[r.h.Name+"/"+c] += n
			}
		}
	}
	for _, r := range results {
		if r == nil {
			continue
		}
		e, h := r.e, r.h
		for f := range e.Funcs {
			funcs[f] = true
		}
		for n := range e.Notes {
			notes[n] = true
		}
		paths += e.Paths
		forks += e.Forks
		merges += e.Merges
		steps += e.Steps
		s := e.s.Stats
		queries += s.Queries
		sat += s.Sat
		unsat += s.Unsat
		unk += s.Unknown
		trivial += s.Trivial
		oneshot += s.OneShot
		modelHits += s.ModelHits
		solverNS += s.TimeNS
		var alist []string
		for m, a := range e.Asserts {
			asserts += a.Checked
			assertsTrivial += a.Trivial
			alist = append(alist, fmt.Sprintf("%s: checked %d (structurally true %d, undecided %d, failed %d)", m, a.Checked, a.Trivial, a.Unknown, a.Failed))
		}
		sort.Strings(alist)
		for m, n := range e.Inconcl {
			reduced = append(reduced, fmt.Sprintf("%s: %s (x%d)", h.Name, m, n))
		}
		for _, c := range h.Covers {
			if coverSum[h.Name+"/"+c] == 0 {
				coverSum[h.Name+"/"+c] = -1
				reduced = append(reduced, fmt.Sprintf("%s: cover point %q not reached", h.Name, c))
			}
		}
		// native replay of candidates
		for _, v := range e.Violations {
			if hitBefore[h.Name+"/"+v.Msg] {
				continue // the same failure, found by another part of a split harness
			}
			secs := 60
			if v.Kind == "deadlock" {
				secs = 10
			}
			reps := 1
			if len(v.Sched) > 0 {
				reps = 3
			}
			var hit *CaseResult
			for k := 0; k < reps && hit == nil; k++ {
				rs, err := nat.run(h.Pkg, []Case{{Harness: h.Name, Values: v.Values, Sched: v.Sched, race: v.Kind == "race"}}, secs)
				if err != nil {
					nativeOK = false
					notes["native build failed: "+err.Error()] = true
					break
				}
				if isFailure(rs[0].Kind) {
					hit = &rs[0]
				} else if verbose {
					fmt.Fprintf(os.Stderr, "not reproduced: %s %s -> %s %s values=%v\n%s", h.Name, v.Msg, rs[0].Kind, rs[0].Msg, v.Values, v.stack)
				}
			}
			if hit == nil {
				notReproduced++
				reduced = append(reduced, fmt.Sprintf("%s: candidate not reproduced natively: %s", h.Name, v.Msg))
				continue
			}
			msg := v.Msg
			if hit.Kind == "assert" {
				msg = hit.Msg
			}
			if f := known(h.Name, msg); f != nil {
				if !knownSeen[f.What] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
					knownSeen[f.What] = true
				}
				continue
			}
			hitBefore[h.Name+"/"+v.Msg] = true
			p := save(h, v.Kind, msg, v.Pos, v.stack, v.Values, v.Sched, *hit)
			vios = append(vios, vioRec{h.Name, msg, p})
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("  %s: %s (%s) at %s\n  native: %s %s\n", h.Name, msg, v.Kind, v.Pos, hit.Kind, firstLines(hit.Msg, 6))
			for i, nd := range v.Values {
				if i < 60 {
					fmt.Printf("    %s (%s) = %s\n", nd.Name, nd.Kind, nd.Val)
				}
			}
		}
		// translation validation on completed paths
		if len(r.samples) > 0 && nativeOK {
			cs := make([]Case, len(r.samples))
			for i, s := range r.samples {
				cs[i] = Case{Harness: h.Name, Values: s.vals, Sched: s.sched}
			}
			rs, err := nat.run(h.Pkg, cs, 120)
			if err != nil {
				nativeOK = false
				notes["native build failed: "+err.Error()] = true
			} else {
				for i, cr := range rs {
					s := r.samples[i]
					if isFailure(cr.Kind) {
						if known(h.Name, cr.Msg) != nil {
							continue
						}
						// the real code fails where the executor saw none
						p := save(h, "native "+cr.Kind, cr.Msg, "", "", s.vals, s.sched, cr)
						vios = append(vios, vioRec{h.Name, cr.Msg, p})
						fmt.Printf("VIOLATION property=%s replay=%s\n  %s: real code fails on a solver-chosen input: %s %s\n", prop, p, h.Name, cr.Kind, firstLines(cr.Msg, 6))
						continue
					}
					if cr.Kind != "ok" {
						skipped++
						if verbose {
							fmt.Fprintf(os.Stderr, "sample not validated: %s: %s %s %v\n", h.Name, cr.Kind, cr.Msg, s.vals)
						}
						continue
					}
					bad := ""
					if len(cr.Out) != len(s.pred) {
						bad = fmt.Sprintf("observation count %d vs %d", len(cr.Out), len(s.pred))
					} else {
						for j := range s.pred {
							if strings.HasSuffix(s.pred[j], "=?") {
								continue
							}
							if s.pred[j] != cr.Out[j] {
								bad = fmt.Sprintf("predicted %s, real %s", s.pred[j], cr.Out[j])
								break
							}
						}
					}
					if bad != "" {
						mismatched++
						reduced = append(reduced, fmt.Sprintf("%s: executor and real code disagree: %s", h.Name, tail(bad, 300)))
						if verbose {
							fmt.Fprintf(os.Stderr, "MISMATCH %s: %s values=%v\n", h.Name, bad, s.vals)
						}
					} else {
						validated++
					}
				}
			}
		}
		hrecs = append(hrecs, map[string]interface{}{"harness": h.Name, "what": strings.TrimSpace(h.Desc), "options": h.Opts, "paths": e.Paths, "forks": e.Forks, "merges": e.Merges, "instructions": e.Steps,
			"queries": s.Queries, "solver_s": round(float64(s.TimeNS) / 1e9), "wall_s": round(r.secs), "assertions": alist, "covered": e.Covers})
	}
	sort.Strings(reduced)
	flist := keys(funcs)
	nlist := keys(notes)
	bounds := []string{}
	described := map[string]bool{}
	for _, r := range results {
		if r != nil && !described[r.h.Name] && strings.TrimSpace(r.h.Desc) != "" {
			described[r.h.Name] = true
			bounds = append(bounds, r.h.Name+": "+strings.TrimSpace(r.h.Desc))
		}
	}
	if reduced == nil {
		reduced = []string{}
	}
	vl := make([]interface{}, 0)
	for _, v := range vios {
		vl = append(vl, v)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": round(time.Since(t0).Seconds()),
		"coverage": map[string]interface{}{
			"states":                        int(steps),
			"transitions":                   forks + paths,
			"samples":                       validated + mismatched + skipped,
			"traces_validated_against_impl": validated,
			"explanation":                   "symbolic execution of the SSA of the current /repo tree; every path within the bounds below, assertions decided by z3/cvc5 for all values",
			"functions_encoded":             flist,
			"bounds":                        bounds,
			"paths":                         paths, "merges": merges,
			"assertions_decided": asserts, "assertions_structurally_true": assertsTrivial,
			"queries":         map[string]int64{"total": queries, "sat": sat, "unsat": unsat, "unknown": unk, "one_shot": oneshot, "decided_by_simplification": trivial, "decided_by_model_reuse": modelHits},
			"solver_s":        round(float64(solverNS) / 1e9),
			"harnesses":       hrecs,
			"reduced_bounds":  reduced,
			"mismatches":      mismatched,
			"not_reproduced":  notReproduced,
			"samples_skipped": skipped,
		},
		"assumptions": append([]string{
			"the Go SSA of golang.org/x/tools and this executor's model of it (checked on sampled paths against the real code)",
			"bounds as written in each harness description; anything outside them is outside the claim",
		}, nlist...),
		"violations": vl,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), j, 0o644)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1fs solver), %d traces validated, %d mismatches, %d violations, %.1fs\n",
		prop, tier, len(results), paths, asserts, queries, float64(solverNS)/1e9, validated, mismatched, len(vios), time.Since(t0).Seconds())
	for _, r := range reduced {
		fmt.Println("  reduced:", r)
	}
	if len(vios) > 0 {
		return 1
	}
	if !nativeOK {
		return 2
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n    ")
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
