package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"
)

var rules = map[string]string{}

const commonRule = "One case is one generated history (shared construction, then 2-4 callers deriving, observing and injecting) executed under one seeded schedule. " +
	"A case is non-trivial when the scheduler switched between callers inside a call of the package at least once, or at least one fault was injected. " +
	"Distinct: different (history, interleaving) pairs, by hash of the seed's program and of every scheduling decision taken."

func writeEvidence(b budget, bld *Build, st *Stats, explored float64, compared, differing, nviol, unconfirmed int) {
	distinct := map[uint64]bool{}
	files, _ := filepath.Glob(filepath.Join(work, "b*.hashes"))
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for i := 0; i+8 <= len(data); i += 8 {
			distinct[binary.LittleEndian.Uint64(data[i:])] = true
		}
	}
	reached := 0
	var missed []string
	for i, s := range bld.Sites {
		n := i + 2
		if n < len(st.Sites) && st.Sites[n] > 0 {
			reached++
		} else if len(missed) < 80 {
			missed = append(missed, fmt.Sprintf("%s:%d", s.File, s.Line))
		}
	}
	hours := explored / 3600
	perHour := 0.0
	if hours > 0 {
		perHour = float64(st.Runs) / hours
	}
	var ops []string
	for k := range st.Ops {
		ops = append(ops, k)
	}
	sort.Strings(ops)
	samples := []any{}
	for _, s := range st.Samples {
		samples = append(samples, s)
		if len(samples) >= 3 {
			break
		}
	}
	level := "exploration"
	switch prop {
	case "C04", "C05", "C09":
		level = "exploration"
	}
	stubs := []string{"scheduler (simulator decides every switch)", "clock and sleeping (simulated)", "map iteration order (simulated)"}
	real := []string{"package github.com/amarin/query, compiled from the working tree with yield points inserted before every statement"}
	if prop == "C08" || prop == "C09" || prop == "C18" {
		real = append(real, "database/sql")
		stubs = append(stubs, "database driver, network and server (simulated: latency, lost requests, lost acknowledgements, stalls, refused connections)")
	}
	if prop == "C06" {
		real = append(real, "ThreadSanitizer runtime of the Go race detector as the oracle; the simulator's own hand-offs are hidden from it")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"wall_s":     time.Since(start).Seconds(),
		"violations": nviol,
		"coverage": map[string]any{
			"evaluations": st.Runs, "distinct_nontrivial": len(distinct), "rule": commonRule, "samples": samples,
			"oracle_checks": st.Checks, "seeds_per_hour": int(perHour), "simulated_seconds": float64(st.SimTime) / 1e9,
			"faults_injected": st.Faults, "scheduling_strategies": st.Strats, "callbacks_into_user_code": st.Callbacks,
			"steps": st.Steps, "switches": st.Switches, "switches_inside_calls": st.Intra,
			"operation_kinds_used": len(ops), "operations": st.Ops,
			"yield_points": len(bld.Sites), "yield_points_reached": reached, "yield_points_not_reached_sample": missed,
			"instrumentation": bld.Variant, "cross_process_seeds_compared": compared, "cross_process_seeds_differing": differing,
			"first_seed": seed*10000000 + 1, "race_reports_not_repeated_in_process": st.Unrepeated, "failures_not_reproduced": unconfirmed, "schedule_record_overflows": st.Overflow,
			"real_components": real, "stubbed_components": stubs, "build_s": bld.Wall, "exploration_s": explored,
		},
		"assumptions": []string{
			"sequentially consistent execution of statements: switches happen between statements, not inside one (memory-model effects are the subject of C06 only)",
			"user code reaches the package only through driver.Valuer, ValueProvider and Condition",
		},
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	data, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(data, '\n'), 0o644)
	}
	if err != nil {
		fatal(2, "evidence: %v", err)
	}
}
