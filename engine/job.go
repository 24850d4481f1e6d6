package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness function with fixed parameters; all of its inputs are
// symbolic.
type Job struct {
	Prop   string           `json:"property"`
	Fn     string           `json:"fn"`
	Params map[string]int64 `json:"params,omitempty"`
	Time   int              `json:"time,omitempty"` // seconds
	Race   bool             `json:"race,omitempty"`
	Narrow bool             `json:"narrow,omitempty"` // small numeric inputs only
	ctl    *runCtl
	soft   time.Time   // gives way to waiting jobs from then on
	full   atomic.Bool // memory is short: end
}

// runCtl is shared by the jobs of a check.
type runCtl struct {
	pending atomic.Int32 // jobs that wait
	stop    atomic.Bool
}

func (j *Job) String() string {
	s := j.Fn
	if len(j.Params) > 0 {
		var ps []string
		for _, k := range sortedKeys(j.Params) {
			ps = append(ps, fmt.Sprintf("%s=%d", k, j.Params[k]))
		}
		s += "(" + strings.Join(ps, ",") + ")"
	}
	if j.Narrow {
		s += " with numbers of -2..24 only"
	}
	return s
}

// Model is a concrete assignment of a harness' inputs.
type Model struct {
	Fn     string            `json:"fn"`
	Params map[string]int64  `json:"params"`
	Ints   map[string]int64  `json:"ints"`
	Strs   map[string]string `json:"strs"` // hex
	Note   string            `json:"note,omitempty"`
}

type Violation struct {
	Job    string `json:"job"`
	Msg    string `json:"msg"`
	Model  *Model `json:"model"`
	Native string `json:"native"`
}

type JobResult struct {
	Job        string           `json:"job"`
	Fn         string           `json:"fn"`
	Params     map[string]int64 `json:"params,omitempty"`
	Stats      Stats            `json:"stats"`
	Queries    int              `json:"queries"`
	Sat        int              `json:"sat"`
	Unsat      int              `json:"unsat"`
	SolverUnk  int              `json:"solver_unknown"`
	IntQ       int              `json:"int_queries"`
	IntFail    int              `json:"int_fallbacks"`
	IntUnk     int              `json:"int_unknown"`
	SolverSec  float64          `json:"solver_s"`
	Sec        float64          `json:"wall_s"`
	Finished   bool             `json:"finished"`
	Funcs      map[string]int   `json:"-"`
	Violations []*Violation     `json:"violations,omitempty"`
	Fatal      string           `json:"fatal,omitempty"`
	Soft       bool             `json:"-"` // gave way to others
	Narrow     bool             `json:"narrow,omitempty"`
}

func (s *Stats) reach(label string) {
	if s.Reach == nil {
		s.Reach = map[string]int{}
	}
	s.Reach[label]++
}

func (s *Stats) reason(r string) {
	if len(r) > 300 {
		r = r[:300]
	}
	s.Reasons[r]++
}

// ---- models and native replay ----

func (e *Engine) modelOf(m map[*Term]uint64) *Model {
	memo := map[*Term]uint64{}
	out := &Model{Fn: e.job.Fn, Params: e.job.Params, Ints: map[string]int64{}, Strs: map[string]string{}}
	for _, in := range e.inputs {
		if in.s != nil {
			out.Strs[in.name] = hex.EncodeToString([]byte(e.evalStr(in.s, m, memo)))
			continue
		}
		v := e.tc.Eval(in.t, m, memo)
		if in.t.w == 64 {
			out.Ints[in.name] = int64(v)
		} else if in.t.w == 32 {
			out.Ints[in.name] = int64(int32(v))
		} else {
			out.Ints[in.name] = int64(v)
		}
	}
	return out
}

type nativeResult struct {
	code  int // exit code; -1 timeout
	out   string
	err   string
	obs   []string
	fails string
	race  bool
}

var (
	workDir    string
	replayBin  string
	raceBin    string
	replaySeq  int64
	nativeRuns int64
)

// native runs the harness function natively on a model.
func native(m *Model, bin string, timeout time.Duration) *nativeResult {
	n := atomic.AddInt64(&replaySeq, 1)
	f := filepath.Join(workDir, fmt.Sprintf("m%d.json", n))
	b, _ := json.Marshal(m)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	return nativeFile(f, bin, timeout)
}

func nativeFile(f, bin string, timeout time.Duration) *nativeResult {
	atomic.AddInt64(&nativeRuns, 1)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, f)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "GOMEMLIMIT=2GiB", "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=66"}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limitBuf{b: &se, n: 1 << 20}
	err := cmd.Run()
	r := &nativeResult{out: so.String(), err: se.String()}
	if ctx.Err() != nil {
		r.code = -1
	} else if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			r.code = x.ExitCode()
		} else {
			r.code = 99
			r.err += err.Error()
		}
	}
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "OBS ") {
			r.obs = append(r.obs, l[4:])
		} else if strings.HasPrefix(l, "FAIL ") && r.fails == "" {
			r.fails = l[5:]
		}
	}
	r.race = strings.Contains(r.err, "WARNING: DATA RACE")
	return r
}

type limitBuf struct {
	b *bytes.Buffer
	n int
}

func (l *limitBuf) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p[:min(len(p), l.n-l.b.Len())])
	}
	return len(p), nil
}

// nativeSure runs a model; when it takes too long, once more with a longer
// limit, since the machine may just be busy.
func nativeSure(m *Model, bin string) *nativeResult {
	r := native(m, bin, nativeTimeout)
	if r.code == -1 {
		r = native(m, bin, 5*nativeTimeout)
	}
	return r
}

// violated interprets a native run: the property broke on the real code.
func (r *nativeResult) violated() string {
	switch {
	case r.code == 3:
		return "assertion failed: " + r.fails
	case r.code == 2:
		first := r.err
		if i := strings.IndexByte(first, '\n'); i >= 0 {
			first = first[:i]
		}
		return "panic: " + first
	case r.code == -1:
		return "does not terminate"
	case r.race:
		return "data race reported by the Go race detector"
	}
	return ""
}

// candidate replays a counterexample against the real code.
func (e *Engine) candidate(msg string, m map[*Term]uint64) bool {
	mod := e.modelOf(m)
	return e.candidateM(msg, mod)
}

func (e *Engine) candidateM(msg string, mod *Model) bool {
	bin := replayBin
	tries := 1
	if e.job.Race {
		bin, tries = raceBin, 5
	}
	for i := 0; i < tries; i++ {
		r := nativeSure(mod, bin)
		if v := r.violated(); v != "" {
			mod.Note = msg
			e.res.Violations = append(e.res.Violations, &Violation{Job: e.job.String(), Msg: msg, Model: mod, Native: v})
			e.stop = true
			return true
		}
		if r.code == 4 || r.code > 4 && r.code != 66 {
			e.stats.reason(fmt.Sprintf("native replay of a candidate ended with code %d", r.code))
		}
	}
	e.stats.Spurious++
	if os.Getenv("VERIF_DEBUG") != "" {
		b, _ := json.Marshal(mod)
		fmt.Fprintf(os.Stderr, "unconfirmed: %s %s\n", msg, b)
	}
	return false
}

var nativeTimeout = 6 * time.Second

func (e *Engine) doAssume(c *Term) {
	if v, ok := e.quick(c, 0); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if !e.unsure && e.evalM(c) != 0 {
		e.assume(c, true)
		return
	}
	r, m := e.check(c)
	switch r {
	case Unsat:
		panic(pathEnd{"assume", ""})
	case Sat:
		e.setModel(m)
		e.unsure = false
	default:
		e.unsure = true
		e.stats.Unknown++
	}
	e.assume(c, true)
}

func (e *Engine) doAssert(c *Term, msg string) {
	e.stats.Asserts++
	if c.isTrue() {
		e.stats.AssertsConst++
		return
	}
	q, qok := e.quick(c, 0)
	if qok && q && e.stats.AssertsSolver > 20000 {
		return // enough cross-checks of the interval reasoning
	}
	var r SatResult
	var m map[*Term]uint64
	if c.isFalse() && !e.unsure {
		r, m = Sat, e.model
	} else {
		r, m = e.check(e.tc.Not(c))
	}
	switch r {
	case Unsat:
		if c.isFalse() {
			panic(pathEnd{"assume", "infeasible"})
		}
		e.stats.AssertsSolver++
		e.learn(c, true)
		return
	case Sat:
		if qok && q {
			e.stats.reason("interval reasoning and solver disagree on an assertion")
		}
		if e.candidate(msg, m) {
			panic(pathEnd{"violation", msg})
		}
		e.stats.reason("counterexample not confirmed by the real code: " + msg)
		if c.isFalse() {
			panic(pathEnd{"incomplete", "unconfirmed: " + msg})
		}
		e.unsure = true
		e.assume(c, true)
		return
	}
	e.stats.Unknown++
	e.stats.reason("solver gave no verdict on: " + msg)
	e.unsure = true
	e.assume(c, true)
}

// pathModel returns a model of the current path condition.
func (e *Engine) pathModel() (map[*Term]uint64, bool) {
	if !e.unsure {
		return e.model, true
	}
	r, m := e.check(nil)
	if r != Sat {
		return nil, r == Unsat
	}
	e.setModel(m)
	e.unsure = false
	return m, true
}

func (e *Engine) endPath(p pathEnd) {
	e.stats.Paths++
	e.stats.MaxForks = max(e.stats.MaxForks, e.nforks)
	e.stats.Steps += e.steps
	switch p.kind {
	case "done":
		e.stats.Complete++
		e.validate()
	case "assume":
		e.stats.AssumedOut++
	case "violation":
	case "panic":
		if e.race != nil && e.race.thread != 0 {
			e.race.thread = 0
		}
		m, ok := e.pathModel()
		if m == nil {
			if ok {
				e.stats.AssumedOut++
				return
			}
			e.stats.Incomplete++
			e.stats.reason("panic on an undecided path: " + p.msg)
			return
		}
		if !e.candidate(p.msg, m) {
			e.stats.Incomplete++
			e.stats.reason("panic not confirmed by the real code: " + p.msg)
		}
	default:
		m, ok := e.pathModel()
		if m == nil && ok {
			e.stats.AssumedOut++
			return
		}
		e.stats.Incomplete++
		e.stats.reason(p.msg)
		if m != nil && e.incTried < 40 {
			e.incTried++
			mod := e.modelOf(m)
			r := nativeSure(mod, replayBin)
			if v := r.violated(); v != "" {
				mod.Note = v
				e.res.Violations = append(e.res.Violations, &Violation{Job: e.job.String(), Msg: v, Model: mod, Native: v})
				e.stop = true
			}
		}
	}
}

// validate compares a completed path's observations with the real code.
func (e *Engine) validate() {
	n := e.stats.Complete
	if e.stats.Validated >= 4 && (e.stats.Validated >= 12 || n&(n-1) != 0) {
		return
	}
	m, _ := e.pathModel()
	if m == nil {
		return
	}
	mod := e.modelOf(m)
	r := nativeSure(mod, replayBin)
	e.stats.Validated++
	if len(e.stats.Samples) < 2 {
		e.stats.Samples = append(e.stats.Samples, mod)
	}
	if v := r.violated(); v != "" {
		mod.Note = v
		e.res.Violations = append(e.res.Violations, &Violation{Job: e.job.String(), Msg: v, Model: mod, Native: v})
		e.stop = true
		return
	}
	if r.code != 0 {
		e.stats.Mismatch++
		e.stats.reason(fmt.Sprintf("validation run ended with code %d: %s", r.code, firstLine(r.err)))
		return
	}
	memo := map[*Term]uint64{}
	var want []string
	for _, o := range e.obs {
		switch v := o.v.(type) {
		case *Term:
			x := e.tc.Eval(v, m, memo)
			if v.w == 64 {
				want = append(want, fmt.Sprintf("%s %d", o.name, int64(x)))
			} else {
				want = append(want, fmt.Sprintf("%s %d", o.name, x))
			}
		case *Str:
			want = append(want, fmt.Sprintf("%s %x", o.name, e.evalStr(v, m, memo)))
		}
	}
	if e.mapOrd {
		return
	}
	ok := len(want) == len(r.obs)
	for i := 0; ok && i < len(want); i++ {
		ok = strings.TrimRight(want[i], " ") == strings.TrimRight(r.obs[i], " ")
	}
	if !ok {
		e.stats.Mismatch++
		b, _ := json.Marshal(mod)
		e.stats.reason("translator validation mismatch: " + string(b))
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "MISMATCH %s\n want %q\n got  %q\n", b, want, r.obs)
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---- start-up ----

// setup runs the package initialisers of the harness and the code under test.
func (e *Engine) setup() string {
	f := e.ld.harness.Func("init")
	return e.runConcrete(f)
}

// restart re-runs all package initialisers on the current path, as a new
// process would with the current environment.
func (e *Engine) restart() Value {
	for g, o := range e.globs {
		if g.Pkg == nil || !isOurs(g.Pkg.Pkg.Path()) || strings.HasPrefix(g.Pkg.Pkg.Path(), "verif/harness/v") {
			continue
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		z := e.zeroCells(t, nil)
		for i := range z {
			if !sameValue(o.cells[i], z[i]) {
				e.setCell(o, i, z[i])
			}
		}
	}
	return &tailCall{fn: e.ld.harness.Func("init")}
}

// runJob explores all paths of a job.
func runJob(ld *Loader, j *Job, deadline time.Time) (res *JobResult) {
	res = &JobResult{Job: j.String(), Fn: j.Fn, Params: j.Params, Narrow: j.Narrow}
	t0 := time.Now()
	e := NewEngine(ld, j)
	e.res = res
	e.params = j.Params
	e.entry = j.Fn
	e.start = t0
	e.dead = deadline
	if j.Time > 0 {
		if d := t0.Add(time.Duration(j.Time) * time.Second); d.Before(deadline) {
			e.dead = d
		}
	}
	defer e.sol.Close()
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VERIF_DEBUG") != "" {
				panic(r)
			}
			res.Fatal = fmt.Sprint(r)
		}
		res.Stats = e.stats
		res.Queries, res.Sat, res.Unsat, res.SolverUnk = e.sol.Queries, e.sol.NSat, e.sol.NUnsat, e.sol.NUnknown
		res.IntQ, res.IntFail, res.IntUnk = e.sol.IntQ, e.sol.IntFail, e.sol.IntUnknown
		res.SolverSec = e.sol.Time.Seconds()
		res.Sec = time.Since(t0).Seconds()
		res.Funcs = e.funcs
	}()
	if err := e.setup(); err != "" {
		res.Fatal = "package initialisation: " + err
		return
	}
	fn := ld.harness.Func(j.Fn)
	if fn == nil {
		res.Fatal = "no harness function " + j.Fn
		return
	}
	if j.Race {
		e.race = newRace()
	}
	fr := e.newFrame(fn, nil, nil)
	fr.base = true
	e.frames = []*Frame{fr}
	e.explore()
	res.Finished = !e.stop || len(res.Violations) > 0
	return
}

var _ = ssa.BuilderMode(0)
