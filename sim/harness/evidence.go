package main

import (
	"fmt"
	"path/filepath"
	"time"
)

var realParts = []string{
	"flatjsonl and cmd/csvequals: the code of the working tree, with yield points between statements",
	"fastjson, progress, pgzip, xsync: real code with yield points",
	"encoding/csv, encoding/json, bufio, bytes, compress/gzip, klauspost zstd (synchronous), regexp, net/url, flag, yaml, json5: real code, atomic between yield points",
	"modernc SQLite engine and database/sql: real code on a scratch file, faults injected at its API",
}

var stubParts = []string{
	"goroutine scheduling, channels, sync, sync/atomic, sync.Pool, map iteration order: simulator",
	"time (clock, timers, sleep), runtime.ReadMemStats/GC/NumCPU: simulator",
	"os files, stdin/stdout/stderr, process exit and kill: simulated file system with fault injection",
}

// evidence writes what this run covered.
func evidence(p *property, tier string, seed uint64, st *stats, wall time.Duration, violations int, verif string, workers, known int, crashes []int) {
	h := wall.Hours()
	sites := len(st.Sites)
	total := 0

	for _, s := range siteNames {
		if s != "" {
			total++
		}
	}

	samples := st.Samples
	if len(samples) > 3 {
		samples = samples[:3]
	}

	var ss []any
	for _, s := range samples {
		ss = append(ss, s)
	}

	if ss == nil {
		ss = []any{}
	}

	cov := map[string]any{
		"evaluations":                st.Cases,
		"distinct_nontrivial":        len(st.Nontriv),
		"rule":                       p.rule + " Distinct: different case or different interleaving (hash over all scheduling decisions); non-trivial: at least one context switch was decided by the simulator or at least one fault fired.",
		"samples":                    ss,
		"simulated_runs":             st.Runs,
		"runs_per_hour":              int(float64(st.Runs) / h),
		"seeds_per_hour":             int(float64(st.Cases) / h),
		"simulated_seconds":          float64(st.SimNS) / 1e9,
		"scheduler_steps":            st.Steps,
		"context_switches":           st.Switches,
		"max_live_threads":           st.Threads,
		"input_lines":                st.Lines,
		"distinct_interleavings":     len(st.Inter),
		"interleaving_measure":       "hash of the sequence of (step, thread) scheduling decisions of a run",
		"faults_fired":               st.Fired,
		"run_ends":                   st.Ends,
		"strategies":                 st.Strat,
		"shapes":                     st.Shapes,
		"options":                    st.Opts,
		"probes":                     st.Probes,
		"yield_sites_visited":        sites,
		"yield_sites_total":          total,
		"determinism_reruns":         st.DetRuns,
		"determinism_mismatches":     st.NonDet,
		"cases_not_judged":           st.Failed,
		"real_components":            realParts,
		"simulated_components":       stubParts,
		"known_and_past_cases_rerun": known,
		"process_crashes_as_failure": len(crashes),
		"workers":                    workers,
		"seed_derivation":            "case seed = splitmix(VERIF_SEED, property, index); every choice of a run comes from it",
	}

	writeJSON(filepath.Join(verif, "evidence", p.id+".json"), map[string]any{
		"property": p.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"code between two yield points is atomic; weak memory effects are not simulated",
			"the simulated file system, clock and scheduler behave like an operating system that conforms to its documentation",
			fmt.Sprintf("runs are bounded by %d steps and %d s of simulated time", maxSteps, maxTime/1e9),
		},
		"wall_s":     wall.Seconds(),
		"violations": violations,
	})
}
