package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type knownFinding struct {
	prop, class, text string
	re                *regexp.Regexp
}

// known-findings.txt: "known: property=ID class=CLASS match=REGEXP :: text";
// lines that start with "fixed:" or "#" suppress nothing.
func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		die(2, "known findings: %v", err)
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		var k knownFinding
		k.text = text
		i := strings.Index(head, " match=")
		if i < 0 {
			die(2, "known findings: %q", l)
		}
		k.re = regexp.MustCompile(head[i+7:])
		if n, _ := fmt.Sscanf(head[:i], "property=%s class=%s", &k.prop, &k.class); n != 2 {
			die(2, "known findings: %q", l)
		}
		out = append(out, k)
	}
	return out
}

type tally struct {
	sync.Mutex
	runs, evals     int
	nontriv         int
	simNs           int64
	steps, syscalls int64
	fired, probes   map[string]int
	sched, states   map[string]bool
	events          map[string]bool
	scen            map[string]int
	known           map[string]int
	rechecks        int
	samples         []any
	faultRuns       int
	hit             *Result
	hitIdx          int
	hitV            Violation
	err             error
}

func check(bin, prop, tier string, t0 time.Time) int {
	known := loadKnown()
	seed := baseSeed()
	budget := 24 * time.Second
	if tier == "thorough" {
		budget = 600 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		d, err := time.ParseDuration(s)
		if err != nil {
			die(2, "VERIF_BUDGET: %v", err)
		}
		budget = d
	}
	isKnown := func(v Violation) bool { return matchKnown(known, v) != nil }
	t := &tally{fired: map[string]int{}, probes: map[string]int{}, sched: map[string]bool{}, states: map[string]bool{}, events: map[string]bool{},
		scen: map[string]int{}, known: map[string]int{}, hitIdx: -1}
	start := time.Now()
	end := start.Add(budget)
	var next atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() && time.Now().Before(end) {
				i := int(next.Add(1)) - 1
				r, err := runIdx(bin, prop, seed, i)
				if err == nil && i%97 == 0 {
					// The same seed again must be the same execution.
					r2, err2 := runIdx(bin, prop, seed, i)
					if err2 != nil {
						err = err2
					} else if r2.raw != r.raw {
						err = fmt.Errorf("run %d is not reproducible:\n%.1500s\n%.1500s", i, r.raw, r2.raw)
					}
					t.Lock()
					t.rechecks++
					t.Unlock()
				}
				t.Lock()
				if err != nil {
					if t.err == nil {
						t.err = fmt.Errorf("run %s seed %d index %d: %w", prop, seed, i, err)
					}
					stop.Store(true)
					t.Unlock()
					return
				}
				t.add(r, i)
				for _, v := range r.Violations {
					if k := matchKnown(known, v); k != nil {
						t.known[k.text]++
						continue
					}
					if t.hit == nil || i < t.hitIdx {
						t.hit, t.hitIdx, t.hitV = r, i, v
					}
					stop.Store(true)
					break
				}
				t.Unlock()
			}
		}()
	}
	wg.Wait()
	explore := time.Since(start)
	if t.err != nil {
		die(2, "HARNESS-ERROR %v", t.err)
	}
	if t.runs < 5 && t.hit == nil {
		die(2, "HARNESS-ERROR only %d runs in %v", t.runs, explore)
	}
	for _, k := range sorted(t.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	code := 0
	viol := 0
	if t.hit != nil {
		viol = 1
		code = 1
		path, err := report(bin, prop, seed, t, isKnown, tier)
		if err != nil {
			die(2, "HARNESS-ERROR %v", err)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	if err := writeEvidence(prop, tier, seed, t, explore, time.Since(t0), viol); err != nil {
		die(2, "evidence: %v", err)
	}
	if code == 0 {
		fmt.Printf("ok property=%s tier=%s runs=%d evaluations=%d faults=%d distinct-schedules=%d wall=%.1fs\n", prop, tier, t.runs, t.evals, sum(t.fired), len(t.sched), time.Since(t0).Seconds())
	}
	return code
}

func workers() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func matchKnown(ks []knownFinding, v Violation) *knownFinding {
	for i, k := range ks {
		if k.prop == v.Prop && k.class == v.Class && k.re.MatchString(v.Msg) {
			return &ks[i]
		}
	}
	return nil
}

func (t *tally) add(r *Result, idx int) {
	t.runs++
	t.evals += r.Evals
	t.simNs += r.SimNs
	t.steps += r.Steps
	t.syscalls += r.Syscalls
	for k, v := range r.Fired {
		t.fired[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	if len(r.Fired) > 0 {
		t.faultRuns++
	}
	if r.Evals > 0 && (len(r.Fired) > 0 || r.Decisions > 0 || r.Probes["nontrivial"] > 0) && !t.events[r.EventHash] {
		t.nontriv++
	}
	t.sched[r.SchedHash] = true
	t.states[r.StateHash] = true
	t.events[r.EventHash] = true
	if len(t.samples) < 3 && r.Evals > 0 {
		t.samples = append(t.samples, map[string]any{"index": idx, "fired": r.Fired, "probes": r.Probes, "sim_ms": r.SimNs / 1e6, "steps": r.Steps,
			"syscalls": r.Syscalls, "decisions": r.Decisions, "event_hash": r.EventHash})
	}
}

func report(bin, prop string, seed uint64, t *tally, isKnown func(Violation) bool, tier string) (string, error) {
	lim := 60 * time.Second
	if tier == "thorough" {
		lim = 150 * time.Second
	}
	v := t.hitV
	orig := t.hit.Plan
	if orig == nil {
		return "", fmt.Errorf("violation without a plan: %s", v.Msg)
	}
	has := func(r *Result) *Violation {
		for i, x := range r.Violations {
			if x.Class == v.Class && !isKnown(x) {
				return &r.Violations[i]
			}
		}
		return nil
	}
	s := &shrinker{bin: bin, class: v.Class, deadline: time.Now().Add(lim), best: orig, known: isKnown}
	r0, err := runPlan(bin, orig)
	if err != nil {
		return "", err
	}
	rp := Replay{Property: prop, Violation: v, BaseSeed: seed, Index: t.hitIdx, Plan: orig, EventHash: r0.EventHash}
	if has(r0) == nil {
		// The recorded schedule does not fail; the plan it was generated from may.
		out, err := runRaw(bin, "genplan", prop, fmt.Sprint(seed), fmt.Sprint(t.hitIdx))
		if err != nil {
			return "", err
		}
		gp := &Plan{}
		if err := json.Unmarshal([]byte(out), gp); err != nil {
			return "", err
		}
		r1, err := runPlan(bin, gp)
		if err != nil {
			return "", err
		}
		if has(r1) == nil {
			return "", fmt.Errorf("run %s seed %d index %d failed once (%s: %s) and not again", prop, seed, t.hitIdx, v.Class, v.Msg)
		}
		s.best, rp.Plan, rp.EventHash = gp, gp, r1.EventHash
	} else {
		s.run()
	}
	ra, err := runPlan(bin, s.best, "trace")
	if err != nil {
		return "", err
	}
	rb, err := runPlan(bin, s.best)
	if err != nil {
		return "", err
	}
	if x := has(ra); x != nil && has(rb) != nil && ra.EventHash == rb.EventHash {
		rp.Minimised, rp.Plan, rp.EventHash, rp.Violation = true, s.best, ra.EventHash, *x
		rp.Trace = ra.Trace
		if len(rp.Trace) > 3000 {
			rp.Trace = rp.Trace[len(rp.Trace)-3000:]
		}
	}
	dir := filepath.Join(verifDir, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, t.hitIdx))
	b, err := json.MarshalIndent(rp, "", " ")
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return "", err
	}
	fmt.Printf("%s: %s\n", rp.Violation.Class, rp.Violation.Msg)
	fmt.Printf("minimised in %d runs to %d operations, %d faults, %d schedule choices, %d preemptions\n", s.runs, len(rp.Plan.Ops), len(rp.Plan.Faults),
		len(rp.Plan.Sched.Picks)/2, len(rp.Plan.Sched.Preempts))
	for _, o := range rp.Plan.Ops {
		ob, _ := json.Marshal(o)
		fmt.Printf("  op    %s\n", ob)
	}
	for _, f := range rp.Plan.Faults {
		fb, _ := json.Marshal(f)
		fmt.Printf("  fault %s\n", fb)
	}
	return path, nil
}

func sum(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

func sorted[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func manifestLevel(prop string) string {
	b, err := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string } `json:"checks"`
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == prop {
					return c.Level
				}
			}
		}
	}
	return "exploration"
}

func writeEvidence(prop, tier string, seed uint64, t *tally, explore, wall time.Duration, viol int) error {
	perHour := 0.0
	if explore > 0 {
		perHour = float64(t.runs) / explore.Hours()
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": manifestLevel(prop), "wall_s": wall.Seconds(), "violations": viol,
		"coverage": map[string]any{
			"evaluations":         t.runs,
			"distinct_nontrivial": t.nontriv,
			"rule": "one evaluation is one simulated run: (base seed, index) generates a workload, fault rates and a scheduler, the run executes them, the oracles judge it. " +
				"A run counts as distinct and non-trivial if at least one oracle decided something, at least one fault fired or at least one scheduling decision had a choice, and its event log differs from that of every run before.",
			"samples":                t.samples,
			"oracle_decisions":       t.evals,
			"runs_per_hour":          int64(perHour),
			"seeds_per_hour":         int64(perHour),
			"simulated_seconds":      float64(t.simNs) / 1e9,
			"statements_executed":    t.steps,
			"simulated_system_calls": t.syscalls,
			"runs_with_faults":       t.faultRuns,
			"faults_fired":           t.fired,
			"probes":                 t.probes,
			"distinct_schedules":     len(t.sched),
			"distinct_event_logs":    len(t.events),
			"distinct_final_states":  len(t.states),
			"distinctness_measure":   "hash of every scheduling decision and preemption point / of every system call, request and fault in order / of the outcomes the oracles saw",
			"determinism_rechecks":   t.rechecks,
			"components_real":        []string{"every package of the module under test, instrumented with scheduling points", "archive/tar, compress, os, io/fs, net/http client types, crypto, context, sync, goroutines and timers of the Go runtime", "third-party dependencies"},
			"components_simulated":   []string{"kernel file system (in memory, at the system call boundary)", "network and HTTP servers (http.RoundTripper)", "clock and timers", "goroutine scheduling order", "random numbers", "processes (copies of the module) and their crashes"},
			"known_findings_met":     t.known,
		},
		"assumptions": []string{
			"a crash is the death of a process: what it wrote before is on disk (no power failure)",
			"one system call is atomic",
			"goroutines are preempted between statements and at system calls, network events and blocking operations, one processor at a time (sequentially consistent memory)",
		},
	}
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

// stats runs n simulations and summarises what they find, without stopping.
func stats(bin, prop string, n int, scen string) {
	var mu sync.Mutex
	var next atomic.Int64
	classes := map[string][]string{}
	t := &tally{fired: map[string]int{}, probes: map[string]int{}, sched: map[string]bool{}, states: map[string]bool{}, events: map[string]bool{}, scen: map[string]int{}}
	var wg sync.WaitGroup
	errs := 0
	seed := baseSeed()
	known := loadKnown()
	t0 := time.Now()
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				var ex []string
				if scen != "" {
					ex = append(ex, scen)
				}
				r, err := runIdx(bin, prop, seed, i, ex...)
				mu.Lock()
				if err != nil {
					errs++
					if errs <= 3 {
						fmt.Printf("idx %d: %v\n", i, err)
					}
				} else {
					t.add(r, i)
					seen := map[string]bool{}
					for _, v := range r.Violations {
						if !seen[v.Class] && matchKnown(known, v) == nil {
							classes[v.Class] = append(classes[v.Class], fmt.Sprintf("%d: %.700s", i, v.Msg))
						}
						seen[v.Class] = true
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	d := time.Since(t0)
	fmt.Printf("%s: %d runs in %v (%.0f/s), %d evals, %d errors, distinct: %d schedules %d events %d states, sim %.0fs\n", prop, t.runs, d.Round(time.Millisecond), float64(t.runs)/d.Seconds(), t.evals, errs, len(t.sched), len(t.events), len(t.states), float64(t.simNs)/1e9)
	fmt.Println(" fired:", t.fired)
	fmt.Println(" probes:", t.probes)
	for _, c := range sorted(classes) {
		fmt.Printf(" VIOLATIONS %s in %d runs\n", c, len(classes[c]))
		for i, m := range classes[c] {
			if i < 6 {
				fmt.Println("   ", m)
			}
		}
	}
}

// determinism runs n seeds of every property twice, at different levels of
// parallelism, and compares everything they report.
func determinism(bin string, n int) int {
	b, err := runRaw(bin, "props")
	if err != nil {
		die(2, "%v", err)
	}
	bad := 0
	for _, prop := range strings.Fields(b) {
		var first []string
		for pass, par := range []int{8, 3} {
			out := make([]string, n)
			sem := make(chan bool, par)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					r, err := runIdx(bin, prop, baseSeed(), i, "plan")
					if err != nil {
						out[i] = "error: " + err.Error()
					} else {
						out[i] = r.raw
					}
				}()
			}
			wg.Wait()
			if pass == 0 {
				first = out
				continue
			}
			k := 0
			for i := range out {
				if out[i] != first[i] {
					k++
					if k <= 2 {
						fmt.Printf("%s %d differs:\n %.600s\n %.600s\n", prop, i, first[i], out[i])
					}
				}
			}
			bad += k
			fmt.Printf("%s: %d seeds, %d differ\n", prop, n, k)
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
