package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type jobSpec struct {
	Fn     string                     `json:"fn"`
	Params map[string]json.RawMessage `json:"params"`
	Time   int                        `json:"time"`
	Race   bool                       `json:"race"`
}

type checkSpec struct {
	Quick       []jobSpec `json:"quick"`
	Thorough    []jobSpec `json:"thorough"`
	QuickS      int       `json:"quick_s"`
	ThoroughS   int       `json:"thorough_s"`
	Bounds      string    `json:"bounds"`
	Outside     string    `json:"outside"`
	Assumptions []string  `json:"assumptions"`
}

// expand makes one job per combination of the parameter values.
func expand(prop string, s jobSpec) []*Job {
	out := []*Job{{Prop: prop, Fn: s.Fn, Params: map[string]int64{}, Time: s.Time, Race: s.Race}}
	var names []string
	for k := range s.Params {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		var vals []int64
		if err := json.Unmarshal(s.Params[k], &vals); err != nil {
			var v int64
			if err := json.Unmarshal(s.Params[k], &v); err != nil {
				panic(err)
			}
			vals = []int64{v}
		}
		var nx []*Job
		for _, j := range out {
			for _, v := range vals {
				c := &Job{Prop: j.Prop, Fn: j.Fn, Time: j.Time, Race: j.Race, Narrow: j.Narrow, Params: map[string]int64{}}
				for a, b := range j.Params {
					c.Params[a] = b
				}
				c.Params[k] = v
				nx = append(nx, c)
			}
		}
		out = nx
	}
	return out
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	cleanup()
	os.Exit(2)
}

var cleanups []func()

func cleanup() {
	for _, f := range cleanups {
		f()
	}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: engine check|replay|run ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(12 << 30)
	root, _ := filepath.Abs(envOr("VERIF_ROOT", "/verif"))
	switch os.Args[1] {
	case "check":
		doCheck(root, os.Args[2], envOr("VERIF_TIER", "quick"))
	case "replay":
		doReplay(root, os.Args[2])
	case "run": // run FN k=v ...
		doRun(root, os.Args[2:])
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func prepare(root string, race bool) *Loader {
	workDir = filepath.Join(root, "out", fmt.Sprintf("work.%d", os.Getpid()))
	if err := os.MkdirAll(workDir, 0o755); err != nil {
		die("%v", err)
	}
	cleanups = append(cleanups, func() { os.RemoveAll(workDir) })
	hd := filepath.Join(root, "harness")
	var wg sync.WaitGroup
	var berr, rerr error
	var bout, rout []byte
	build := func(bin string, race bool) ([]byte, error) {
		args := []string{"build", "-o", bin}
		if race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "./cmd/replay")...)
		cmd.Dir = hd
		return cmd.CombinedOutput()
	}
	replayBin = filepath.Join(workDir, "replay")
	raceBin = filepath.Join(workDir, "replay-race")
	wg.Add(1)
	go func() { defer wg.Done(); bout, berr = build(replayBin, false) }()
	if race {
		wg.Add(1)
		go func() { defer wg.Done(); rout, rerr = build(raceBin, true) }()
	}
	ld, err := Load(hd, "./h")
	wg.Wait()
	if err != nil {
		die("%v", err)
	}
	if berr != nil {
		die("building the harness: %v\n%s", berr, bout)
	}
	if rerr != nil {
		die("building the race harness: %v\n%s", rerr, rout)
	}
	return ld
}

func doReplay(root, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		die("%v", err)
	}
	prepare(root, strings.Contains(v.Native, "race"))
	bin := replayBin
	if strings.Contains(v.Native, "race") {
		bin = raceBin
	}
	r := native(v.Model, bin, nativeTimeout)
	fmt.Print(r.out, r.err)
	cleanup()
	if x := r.violated(); x != "" {
		fmt.Println("reproduced:", x)
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}

func doRun(root string, args []string) {
	j := &Job{Fn: args[0], Params: map[string]int64{}}
	t := 60
	for _, a := range args[1:] {
		k, v, _ := strings.Cut(a, "=")
		n, _ := strconv.ParseInt(v, 10, 64)
		switch k {
		case "time":
			t = int(n)
		case "narrow":
			j.Narrow = n != 0
		case "race":
			j.Race = n != 0
		case "debugmerge":
			debugMerge = n != 0
		default:
			j.Params[k] = n
		}
	}
	ld := prepare(root, j.Race)
	r := runJob(ld, j, time.Now().Add(time.Duration(t)*time.Second))
	st := &r.Stats
	if os.Getenv("VERIF_BRIEF") != "" {
		fmt.Printf("%-60s paths %d/%d inc %d asserts %d (solver %d) q %d int %d/%d/%d unk %d spur %d mism %d solver %.1fs wall %.1fs fin %v %s\n", r.Job, st.Complete, st.Paths, st.Incomplete, st.Asserts, st.AssertsSolver, r.Queries, r.IntQ, r.IntFail, r.IntUnk, st.Unknown, st.Spurious, st.Mismatch, r.SolverSec, r.Sec, r.Finished, r.Fatal)
		for k, n := range st.Reasons {
			fmt.Println("  not decided:", k, n)
		}
		for _, x := range r.Violations {
			b, _ := json.Marshal(x)
			fmt.Println("  VIOLATION", string(b))
		}
		cleanup()
		return
	}
	fmt.Printf("%s: paths %d complete %d assumed %d incomplete %d forks %d merges %d aborts %d regions %d steps %d asserts %d (const %d solver %d) cf %d/%d unknown %d maxforks %d spurious %d validated %d mismatch %d\n  queries %d sat %d unsat %d unk %d int %d/%d/%d solver %.1fs wall %.1fs finished %v reach %v fatal %q\n", r.Job, st.Paths, st.Complete, st.AssumedOut, st.Incomplete, st.Forks, st.Merges, st.MergeAborts, st.Regions, st.Steps, st.Asserts, st.AssertsConst, st.AssertsSolver, st.CFSummaries, st.CFHits, st.Unknown, st.MaxForks, st.Spurious, st.Validated, st.Mismatch, r.Queries, r.Sat, r.Unsat, r.SolverUnk, r.IntQ, r.IntFail, r.IntUnk, r.SolverSec, r.Sec, r.Finished, st.Reach, r.Fatal)
	for k, n := range st.Reasons {
		fmt.Println("  not decided:", k, n)
	}
	for _, x := range r.Violations {
		b, _ := json.Marshal(x)
		fmt.Println("  VIOLATION", string(b))
	}
	for _, x := range st.Samples {
		b, _ := json.Marshal(x)
		fmt.Println("  sample", string(b))
	}
	if os.Getenv("VERIF_VERBOSE") == "" {
		cleanup()
		return
	}
	for _, k := range sortedKeys(r.Funcs) {
		fmt.Println("  fn", k, r.Funcs[k])
	}
	cleanup()
}

func knownFindings(root, prop string) []string {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "known: property="+prop+" "))
		}
	}
	return out
}

func doCheck(root, prop, tier string) {
	t0 := time.Now()
	b, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err != nil {
		die("%v", err)
	}
	var specs map[string]*checkSpec
	if err := json.Unmarshal(b, &specs); err != nil {
		die("checks.json: %v", err)
	}
	sp := specs[prop]
	if sp == nil {
		die("no check for %s", prop)
	}
	js := sp.Quick
	limit := sp.QuickS
	if limit == 0 {
		limit = 240
	}
	if tier == "thorough" {
		if len(sp.Thorough) > 0 {
			js = append(append([]jobSpec{}, js...), sp.Thorough...)
		}
		limit = sp.ThoroughS
		if limit == 0 {
			limit = 780
		}
	}
	var jobs []*Job
	race := false
	for _, s := range js {
		race = race || s.Race
		jobs = append(jobs, expand(prop, s)...)
	}
	ld := prepare(root, race)
	deadline := t0.Add(time.Duration(limit) * time.Second)
	results := runAll(ld, jobs, deadline, limit)
	code := report(root, prop, tier, sp, jobs, results, t0)
	cleanup()
	os.Exit(code)
}

// memBound is the heap from which on jobs are ended.
const memBound = 14 << 30

// runAll runs the jobs, so that one that takes long does not keep others from
// being looked at: a job that has had its share of the time gives way to those
// that wait, and is taken up again at the end. A job that is not explored to
// the end in its share of the time is also run with its numeric inputs
// narrowed to small ranges.
func runAll(ld *Loader, jobs []*Job, deadline time.Time, limit int) []*JobResult {
	nw := runtime.NumCPU()
	share := time.Duration(max(12, limit*nw/4/max(1, len(jobs)))) * time.Second
	type task struct {
		i      int
		narrow bool
	}
	var mu sync.Mutex
	ctl := &runCtl{}
	results := make([]*JobResult, len(jobs))
	extra := map[int]*JobResult{}
	var queue, again []task
	for i := range jobs {
		queue = append(queue, task{i: i})
	}
	ctl.pending.Store(int32(len(queue)))
	began := map[int]time.Time{} // running in full
	narrowed := map[int]bool{}
	running := 0
	live := map[*Job]time.Time{}
	over := make(chan bool)
	defer close(over)
	go func() {
		// when memory is short the job that has run longest ends
		for {
			select {
			case <-over:
				return
			case <-time.After(300 * time.Millisecond):
			}
			var ms runtime.MemStats
			if runtime.ReadMemStats(&ms); ms.HeapAlloc < memBound {
				continue
			}
			runtime.GC()
			if runtime.ReadMemStats(&ms); ms.HeapAlloc < memBound {
				continue
			}
			mu.Lock()
			var old *Job
			for j, s := range live {
				if !j.full.Load() && (old == nil || s.Before(live[old])) {
					old = j
				}
			}
			if old != nil {
				old.full.Store(true)
			}
			mu.Unlock()
			time.Sleep(2 * time.Second)
		}
	}()
	pick := func() (t task, ok bool) {
		if len(queue) > 0 {
			t, queue = queue[0], queue[1:]
			ctl.pending.Store(int32(len(queue)))
			return t, true
		}
		if len(again) > 0 {
			t, again = again[0], again[1:]
			return t, true
		}
		for i := range jobs {
			if s, ok := began[i]; ok && !narrowed[i] && time.Since(s) > share {
				narrowed[i] = true
				return task{i, true}, true
			}
		}
		return t, false
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if ctl.stop.Load() {
					mu.Unlock()
					return
				}
				t, ok := pick()
				if !ok {
					n := running
					mu.Unlock()
					if n == 0 {
						return
					}
					time.Sleep(50 * time.Millisecond)
					continue
				}
				if time.Now().After(deadline) {
					if results[t.i] == nil && !t.narrow {
						results[t.i] = &JobResult{Job: jobs[t.i].String(), Fatal: "not started: time bound of the check reached"}
					}
					mu.Unlock()
					continue
				}
				o := jobs[t.i]
				c := &Job{Prop: o.Prop, Fn: o.Fn, Params: o.Params, Time: o.Time, Race: o.Race, Narrow: t.narrow, ctl: ctl, soft: time.Now().Add(share)}
				live[c] = time.Now()
				if t.narrow {
					if k := int(share.Seconds()); c.Time == 0 || c.Time > k {
						c.Time = k
					}
				} else {
					began[t.i] = time.Now()
				}
				running++
				mu.Unlock()
				r := runJob(ld, c, deadline)
				mu.Lock()
				running--
				delete(live, c)
				if c.full.Load() {
					r.Stats.Reasons["memory bound reached"]++
					r.Soft = false
				}
				if os.Getenv("VERIF_VERBOSE") != "" {
					fmt.Printf("job %s paths=%d complete=%d incomplete=%d queries=%d %.1fs finished=%v %s %v\n", r.Job, r.Stats.Paths, r.Stats.Complete, r.Stats.Incomplete, r.Queries, r.Sec, r.Finished, r.Fatal, r.Stats.Reasons)
				}
				if t.narrow {
					extra[t.i] = r
				} else {
					delete(began, t.i)
					results[t.i] = r
				}
				if len(r.Violations) > 0 {
					ctl.stop.Store(true)
				} else if !t.narrow && r.Fatal == "" && (!r.Finished || r.Stats.Incomplete > 0) {
					if !narrowed[t.i] {
						narrowed[t.i] = true
						again = append(again, task{t.i, true})
					}
					if r.Soft {
						again = append(again, task{i: t.i})
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for i := range jobs {
		x, r := extra[i], results[i]
		if x == nil || r != nil && r.Finished && r.Stats.Incomplete == 0 && len(x.Violations) == 0 {
			continue // the full run says all that the narrowed one does
		}
		results = append(results, x)
	}
	return results
}

func report(root, prop, tier string, sp *checkSpec, jobs []*Job, results []*JobResult, t0 time.Time) int {
	known := knownFindings(root, prop)
	var viol []*Violation
	var knownHit []string
	tot := Stats{Reasons: map[string]int{}, Reach: map[string]int{}}
	var queries, sat, unsat, unk int
	var solverSec float64
	funcs := map[string]int{}
	finished, fatal := 0, 0
	var jr []map[string]any
	var samples []any
	for _, r := range results {
		if r == nil {
			continue
		}
		s := &r.Stats
		tot.Paths += s.Paths
		tot.Complete += s.Complete
		tot.AssumedOut += s.AssumedOut
		tot.Incomplete += s.Incomplete
		tot.Forks += s.Forks
		tot.Merges += s.Merges
		tot.Regions += s.Regions
		tot.Steps += s.Steps
		tot.Asserts += s.Asserts
		tot.AssertsConst += s.AssertsConst
		tot.AssertsSolver += s.AssertsSolver
		tot.CFSummaries += s.CFSummaries
		tot.Unknown += s.Unknown
		tot.Spurious += s.Spurious
		tot.Validated += s.Validated
		tot.Mismatch += s.Mismatch
		tot.RacePairs += s.RacePairs
		for k, v := range s.Reasons {
			tot.Reasons[k] += v
		}
		for k, v := range s.Reach {
			tot.Reach[k] += v
		}
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.SolverUnk
		solverSec += r.SolverSec
		for k, v := range r.Funcs {
			funcs[k] += v
		}
		if r.Finished && !r.Narrow {
			finished++
		}
		if r.Fatal != "" {
			fatal++
			tot.Reasons["job "+r.Job+": "+r.Fatal]++
		}
		for _, x := range r.Violations {
			sig := fmt.Sprintf("job=%s %s", x.Job, x.Native)
			isKnown := false
			for _, k := range known {
				if strings.HasPrefix(sig, k) {
					isKnown = true
					knownHit = append(knownHit, k)
				}
			}
			if !isKnown {
				viol = append(viol, x)
			}
		}
		jr = append(jr, map[string]any{"job": r.Job, "paths": s.Paths, "complete": s.Complete, "incomplete": s.Incomplete,
			"queries": r.Queries, "solver_s": round(r.SolverSec), "wall_s": round(r.Sec), "explored_to_the_end": r.Finished && s.Incomplete == 0})
		if len(samples) < 6 && len(s.Samples) > 0 {
			samples = append(samples, s.Samples[0])
		}
	}
	var fl []string
	for k := range funcs {
		if strings.Contains(k, repoPath) {
			fl = append(fl, strings.ReplaceAll(k, repoPath, "table"))
		}
	}
	sort.Strings(fl)
	exhaustive := finished == len(jobs) && tot.Incomplete == 0 && tot.Unknown == 0 && tot.Mismatch == 0 && tot.Spurious == 0 && len(viol) == 0
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	cov := map[string]any{
		"states":                        tot.Paths,
		"transitions":                   tot.Steps,
		"traces_validated_against_impl": tot.Validated,
		"samples":                       samples,
		"exhaustive":                    exhaustive,
		"method":                        "symbolic execution of the go/ssa form of /repo's current source; path conditions and assertions decided by z3 5 over bit-vectors; counterexamples replayed natively",
		"bounds":                        sp.Bounds,
		"outside_the_bounds":            sp.Outside,
		"functions_encoded":             fl,
		"jobs":                          len(jobs),
		"jobs_finished":                 finished,
		"paths_complete":                tot.Complete,
		"paths_excluded_by_assumption":  tot.AssumedOut,
		"paths_incomplete":              tot.Incomplete,
		"incomplete_reasons":            tot.Reasons,
		"assertions_evaluated":          tot.Asserts,
		"assertions_true_by_rewriting":  tot.AssertsConst,
		"assertions_refuted_negation":   tot.AssertsSolver,
		"solver_queries":                queries,
		"solver_sat":                    sat,
		"solver_unsat":                  unsat,
		"solver_unknown":                unk,
		"solver_s":                      round(solverSec),
		"branches_split":                tot.Forks,
		"calls_merged":                  tot.Merges,
		"summaries_over_one_variable":   tot.CFSummaries,
		"translator_mismatches":         tot.Mismatch,
		"unconfirmed_candidates":        tot.Spurious,
		"native_runs":                   nativeRuns,
		"reached":                       tot.Reach,
		"per_job":                       jr,
	}
	if tot.RacePairs > 0 {
		cov["conflicting_access_pairs"] = tot.RacePairs
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": sp.Assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": len(viol)}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(eb, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	fmt.Printf("%s %s: jobs %d/%d finished, paths %d (complete %d, incomplete %d), assertions %d (solver %d), queries %d (sat %d unsat %d unknown %d) %.1fs solver, validated %d, mismatches %d, unconfirmed %d, %.1fs\n",
		prop, tier, finished, len(jobs), tot.Paths, tot.Complete, tot.Incomplete, tot.Asserts, tot.AssertsSolver, queries, sat, unsat, unk, solverSec, tot.Validated, tot.Mismatch, tot.Spurious, time.Since(t0).Seconds())
	for _, k := range sortedKeys(tot.Reasons) {
		fmt.Printf("  not decided: %s (%d)\n", k, tot.Reasons[k])
	}
	if len(viol) > 0 {
		dir := filepath.Join(root, "out", "violations")
		os.MkdirAll(dir, 0o755)
		for i, x := range viol {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i+1))
			vb, _ := json.MarshalIndent(x, "", " ")
			os.WriteFile(p, append(vb, '\n'), 0o644)
			fmt.Printf("  counterexample: %s: %s [%s]\n", x.Job, x.Msg, x.Native)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		return 1
	}
	if tot.Complete == 0 {
		fmt.Println("nothing could be explored")
		return 2
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }
