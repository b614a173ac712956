package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"simrt"
)

func writeEvidence(p *Prop, tier string, seed uint64, all *Batch, distinct int, wall float64, replay, root, info string, total, raceRuns int) {
	// samples: the first non-trivial runs of this batch, executed again
	var samples []any
	violations := 0
	if replay != "" {
		// running the code in this process would not be safe
		violations = 1
		f := all.Found[0]
		samples = append(samples, map[string]any{"run": f.Index, "seed": fmt.Sprintf("%016x", f.Seed), "scenario": f.Replay.Scenario, "violation": f.Replay.Violation})
	} else {
		warmup()
	}
	for i := 0; i < 40 && len(samples) < 2 && violations == 0; i++ {
		sd := runSeed(seed, i)
		if all.Runs == 0 {
			break
		}
		r, _ := execSeed(p, sd)
		if !r.NonTriv {
			continue
		}
		var hist []string
		for _, s := range r.Sessions {
			hist = append(hist, fmt.Sprintf("session %s concurrent=%v resume=%q returned=%v", s.Spec.Label, s.Spec.Run, s.Spec.From, s.Err))
			hist = append(hist, s.log(12)...)
		}
		sc := append([]string{}, r.Desc...)
		for j := range sc {
			sc[j] = clip(sc[j], 500)
		}
		samples = append(samples, map[string]any{
			"run": i, "seed": fmt.Sprintf("%016x", sd), "schedule": r.Strat.String(), "steps": r.Steps, "simulated": dur(r.Time),
			"scenario": sc, "history": hist, "faults": r.Faults, "execution_hash": fmt.Sprintf("%016x", r.Hash),
		})
	}
	type kv struct {
		K string
		N int
	}
	var cov []kv
	for k, n := range all.Cover {
		cov = append(cov, kv{k, n})
	}
	sort.Slice(cov, func(i, j int) bool { return cov[i].N > cov[j].N || cov[i].N == cov[j].N && cov[i].K < cov[j].K })
	top := map[string]int{}
	for i, c := range cov {
		if i == 40 {
			break
		}
		top[c.K] = c.N
	}
	var buildInfo any
	if info != "" {
		_ = json.Unmarshal([]byte(info), &buildInfo)
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(all.Runs) / wall * 3600
	}
	if simrt.Race {
		raceRuns = all.Runs
	}
	assume := "plain memory accesses between these points are executed as one step"
	if raceRuns > 0 {
		assume += "; in the runs with the race detector two of them which nothing orders are a violation, as far as the detector still remembers the earlier one"
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":             all.Runs,
			"distinct_nontrivial":     distinct,
			"rule":                    "each run is one seed: the scenario, every scheduling decision, every delay and every fault are drawn from it. Distinct: different execution hash (all scheduling decisions and operations in order, with the scenario). Non-trivial: " + p.Rule + ".",
			"samples":                 samples,
			"nontrivial":              all.NonTriv,
			"planned_runs":            total,
			"runs_with_race_detector": raceRuns,
			"stopped_by_clock":        all.Capped,
			"runs_per_hour":           int64(perHour),
			"seeds_per_hour":          int64(perHour),
			"simulated_seconds":       float64(all.SimTime) / 1e9,
			"scheduling_steps":        all.Steps,
			"context_switches":        all.Switches,
			"preemptions":             all.Preempts,
			"schedule_strategies":     all.Strat,
			"faults_injected":         all.Faults,
			"operations_simulated":    all.Ops,
			"scenario_kinds":          len(all.Cover),
			"scenario_kinds_top":      top,
			"known_findings_matched":  all.Known,
			"real_code":               "agenor (all packages reached), pants worker pool, nefilim file systems: current source, instrumented at concurrency, clock, map iteration and os calls; unmodified: li18ngo, go-i18n, lo copies, encoding/json",
			"stubbed":                 "goroutine scheduler, channels, sync, sync/atomic, time, context, math/rand, runtime queries, os and path/filepath (in-memory disk)",
			"build":                   buildInfo,
		},
		"assumptions": []string{
			"interleavings happen at channel, lock, atomic, timer, context, file-system and goroutine-start points; " + assume,
			"the in-memory disk follows POSIX semantics for the operations used",
		},
		"wall_s":     wall,
		"violations": violations,
	}
	if replay != "" {
		ev["replay"] = replay
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	dir := filepath.Join(root, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
