package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- events raised (as Go panics) inside instruction execution ----

type forkReq struct {
	c     *Term
	first bool
	other map[*Term]uint64 // model of the other side, nil if unknown
}
type goPanicReq struct {
	v       Value
	runtime bool
	msg     string
}
type pathEnd struct {
	kind string // "assume", "violation", "incomplete", "exit"
	msg  string
}
type mergeAbort struct{ why string }
type unsup struct{ msg string }
type stopAll struct{}

func unsupported(msg string) unsup { return unsup{msg} }

type rgn struct{ lo, hi uint64 }

type Frame struct {
	fn        *CFn
	regs      []Value
	blk       int
	prev      int
	ip        int
	defers    []deferred
	panicking bool
	pval      Value
	pmsg      string
	recovered bool
	isDefer   bool // this frame runs a deferred call of the frame below
	dst       int  // register in the caller's frame (-1: drop)
	conv      func(e *Engine, v Value) Value
	base      bool // a return from this frame ends the current run
	forceRet  bool
	retV      Value
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Obs struct {
	name string
	v    Value
}

type Input struct {
	name string
	kind string // int, str, bool
	t    *Term
	s    *Str
	neg  bool // signed 64-bit
}

type Engine struct {
	ld     *Loader
	prog   *ssa.Program
	tc     *TermCtx
	sol    *Solver
	job    *Job
	sizes  map[types.Type]int
	cfns   map[*ssa.Function]*CFn
	globs  map[*ssa.Global]*Object
	inited map[*ssa.Package]bool

	nextObj  int64
	nextGlob int64
	initErr  map[string]string
	methods  map[mkey]*ssa.Function
	intr     map[*ssa.Function]intrFn
	intrX    map[*ssa.Function]bool
	lastHot  hotState
	cfFails  map[*ssa.Function]int
	readMark int64
	entry    string
	nchoice  int
	verCtr   int64
	trail    []trailEntry
	noTrail  int

	pc        []*Term
	known     map[*Term]bool
	doms      map[*Term][]rgn
	rngs      map[*Term][2]uint64
	entangled map[*Term]bool
	model     map[*Term]uint64
	evalMemo  map[*Term]uint64
	memoModel map[*Term]uint64

	frames    []*Frame
	instrMark int
	retVal    Value
	mergeMark int64
	mergeLvl  int
	cfMode    int
	cfVar     *Term
	cfLeaves  int
	noSolver  int
	reads     map[*Object]int64
	mreads    map[*MapObj]int64
	noMerge   map[*ssa.Function]int
	mergeOK   map[*ssa.Function]int
	noCF      map[*ssa.Function]bool
	cfCache   map[string]*cfEntry
	hot       map[string]int

	// path state
	inputs  []Input
	inNames map[string]int
	obs     []Obs
	env     map[string]*Str
	nforks  int
	steps   int64
	unsure  bool
	mapOrd  bool

	// totals
	stats  Stats
	funcs  map[string]int
	start  time.Time
	dead   time.Time
	stop   bool
	maxSt  int64
	maxFk  int
	params map[string]int64

	race     *raceState
	res      *JobResult
	incTried int
}

type Stats struct {
	Paths, Complete, AssumedOut, Incomplete int
	Forks, Merges, MergeAborts, Regions     int
	Steps                                   int64
	Asserts, AssertsSolver                  int
	CFSummaries, CFHits                     int
	Unknown                                 int
	MaxForks                                int
	Reasons                                 map[string]int
	AssertsConst, Spurious                  int
	Validated, Mismatch, RacePairs          int
	Reach                                   map[string]int
	Samples                                 []*Model
}

func NewEngine(ld *Loader, job *Job) *Engine {
	tc := NewTermCtx()
	e := &Engine{ld: ld, prog: ld.prog, tc: tc, job: job, sizes: map[types.Type]int{}, cfns: map[*ssa.Function]*CFn{},
		globs: map[*ssa.Global]*Object{}, inited: map[*ssa.Package]bool{},
		known: map[*Term]bool{}, doms: map[*Term][]rgn{}, rngs: map[*Term][2]uint64{}, entangled: map[*Term]bool{},
		noMerge: map[*ssa.Function]int{}, mergeOK: map[*ssa.Function]int{}, noCF: map[*ssa.Function]bool{}, cfCache: map[string]*cfEntry{},
		initErr: map[string]string{}, methods: map[mkey]*ssa.Function{}, intr: map[*ssa.Function]intrFn{}, intrX: map[*ssa.Function]bool{}, cfFails: map[*ssa.Function]int{},
		hot: map[string]int{}, inNames: map[string]int{}, env: map[string]*Str{}, funcs: map[string]int{}, model: map[*Term]uint64{}}
	e.stats.Reasons = map[string]int{}
	e.sol = NewSolver(tc, 20000)
	e.maxSt = 30_000_000
	if n := job.Params["msteps"]; n > 0 {
		e.maxSt = n * 1_000_000
	}
	e.maxFk = 400
	return e
}

// ---- path condition ----

func (e *Engine) evalM(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	if e.evalMemo == nil || len(e.evalMemo) > 200000 {
		e.evalMemo = map[*Term]uint64{}
	}
	return e.tc.Eval(t, e.model, e.evalMemo)
}

func (e *Engine) setModel(m map[*Term]uint64) {
	e.model = m
	e.evalMemo = nil
}

func (e *Engine) dom(x *Term) []rgn {
	if d, ok := e.doms[x]; ok {
		return d
	}
	return []rgn{{x.dlo, x.dhi}}
}

func (e *Engine) setDom(x *Term, d []rgn) {
	old, had := e.doms[x]
	e.doms[x] = d
	e.pushUndo(func() {
		if had {
			e.doms[x] = old
		} else {
			delete(e.doms, x)
		}
	})
}

// split returns which truth values a piecewise boolean takes on a domain.
func pwSides(t *Term, d []rgn) (has0, has1 bool) {
	p := t.pw
	i := 0
	for _, r := range d {
		if i >= len(p.hi) || (i > 0 && p.hi[i-1] >= r.lo) {
			i = 0
		}
		i += sort.Search(len(p.hi)-i, func(k int) bool { return p.hi[i+k] >= r.lo })
		for {
			if p.val[i] != 0 {
				has1 = true
			} else {
				has0 = true
			}
			if has0 && has1 {
				return
			}
			if p.hi[i] >= r.hi {
				break
			}
			i++
		}
	}
	return
}

func pwRestrict(t *Term, d []rgn, want uint64) []rgn {
	p := t.pw
	var out []rgn
	i := 0
	for _, r := range d {
		i = sort.Search(len(p.hi), func(k int) bool { return p.hi[k] >= r.lo })
		lo := r.lo
		for {
			h := min(p.hi[i], r.hi)
			if p.val[i] == want {
				if n := len(out); n > 0 && out[n-1].hi+1 == lo {
					out[n-1].hi = h
				} else {
					out = append(out, rgn{lo, h})
				}
			}
			if p.hi[i] >= r.hi {
				break
			}
			lo = h + 1
			i++
		}
	}
	return out
}

// rng is the unsigned range of a term on the current path.
func (e *Engine) rng(t *Term) (uint64, uint64) { return e.rngD(t, 0) }

func (e *Engine) rngD(t *Term, depth int) (uint64, uint64) {
	lo, hi := t.lo, t.hi
	if t.isConst() {
		return lo, hi
	}
	if r, ok := e.rngs[t]; ok {
		lo, hi = max(lo, r[0]), min(hi, r[1])
	}
	switch t.op {
	case OVar:
		if t.w == 0 {
			return lo, hi
		}
		if d, ok := e.doms[t]; ok && len(d) > 0 {
			lo, hi = max(lo, d[0].lo), min(hi, d[len(d)-1].hi)
		}
		return lo, hi
	case OPW:
		if d, ok := e.doms[t.a]; ok && len(d) > 0 {
			l, h := ^uint64(0), uint64(0)
			p := t.pw
			for _, r := range d {
				i := sort.Search(len(p.hi), func(k int) bool { return p.hi[k] >= r.lo })
				for {
					l, h = min(l, p.val[i]), max(h, p.val[i])
					if p.hi[i] >= r.hi {
						break
					}
					i++
				}
				if l <= lo && h >= hi {
					break
				}
			}
			lo, hi = max(lo, l), min(hi, h)
		}
		return lo, hi
	}
	if depth > 8 || lo == hi {
		return lo, hi
	}
	sub := func(x *Term) *Term {
		if x == nil || x.isConst() {
			return x
		}
		l, h := e.rngD(x, depth+1)
		return &Term{op: OVar, w: x.w, lo: l, hi: h}
	}
	switch t.op {
	case OZext, OSext, OExtract, OAdd, OMul, OUdiv, OUrem, OBand, OBor, OBxor, OShl, OLshr:
		l, h := rangeOf(t.op, t.w, sub(t.a), sub(t.b), nil)
		lo, hi = max(lo, l), min(hi, h)
	case OIte:
		if v, ok := e.quick(t.a, depth+1); ok {
			var l, h uint64
			if v {
				l, h = e.rngD(t.b, depth+1)
			} else {
				l, h = e.rngD(t.d, depth+1)
			}
			lo, hi = max(lo, l), min(hi, h)
		} else {
			l1, h1 := e.rngD(t.b, depth+1)
			l2, h2 := e.rngD(t.d, depth+1)
			lo, hi = max(lo, min(l1, l2)), min(hi, max(h1, h2))
		}
	}
	return lo, hi
}

// quick decides a condition without the solver.
func (e *Engine) quick(c *Term, depth int) (val, ok bool) {
	if c.isConst() {
		return c.c != 0, true
	}
	if v, ok := e.known[c]; ok {
		return v, true
	}
	if depth > 8 {
		return false, false
	}
	switch c.op {
	case ONot:
		v, ok := e.quick(c.a, depth+1)
		return !v, ok
	case OPW:
		h0, h1 := pwSides(c, e.dom(c.a))
		if h0 != h1 {
			return h1, true
		}
	case OAnd:
		v, ok := e.quick(c.a, depth+1)
		if ok && !v {
			return false, true
		}
		v2, ok2 := e.quick(c.b, depth+1)
		if ok2 && !v2 {
			return false, true
		}
		if ok && ok2 {
			return true, true
		}
	case OOr:
		v, ok := e.quick(c.a, depth+1)
		if ok && v {
			return true, true
		}
		v2, ok2 := e.quick(c.b, depth+1)
		if ok2 && v2 {
			return true, true
		}
		if ok && ok2 {
			return false, true
		}
	case OEq:
		if c.a.w == 0 {
			return false, false
		}
		l1, h1 := e.rngD(c.a, depth+1)
		l2, h2 := e.rngD(c.b, depth+1)
		if h1 < l2 || h2 < l1 {
			return false, true
		}
		if l1 == h1 && l2 == h2 && l1 == l2 {
			return true, true
		}
		if lo, hi, ok := e.linDiff(c.a, c.b, depth); ok {
			if lo > 0 || hi < 0 {
				return false, true
			}
			if lo == 0 && hi == 0 {
				return true, true
			}
		}
	case OUlt:
		l1, h1 := e.rngD(c.a, depth+1)
		l2, h2 := e.rngD(c.b, depth+1)
		if h1 < l2 {
			return true, true
		}
		if l1 >= h2 {
			return false, true
		}
		if lo, hi, ok := e.linDiff(c.a, c.b, depth); ok {
			if hi < 0 {
				return true, true
			}
			if lo >= 0 {
				return false, true
			}
		}
	case OSlt:
		l1, h1 := e.rngD(c.a, depth+1)
		l2, h2 := e.rngD(c.b, depth+1)
		half := uint64(1) << (c.a.w - 1)
		if h1 < half && h2 < half || l1 >= half && l2 >= half {
			if h1 < l2 {
				return true, true
			}
			if l1 >= h2 {
				return false, true
			}
		} else if l1 >= half && h2 < half {
			return true, true
		} else if h1 < half && l2 >= half {
			return false, true
		}
	case OIte:
		if c.w == 0 {
			if v, ok := e.quick(c.a, depth+1); ok {
				if v {
					return e.quick(c.b, depth+1)
				}
				return e.quick(c.d, depth+1)
			}
		}
	}
	return false, false
}

func (e *Engine) setKnown(c *Term, v bool) {
	if c.isConst() {
		return
	}
	if _, ok := e.known[c]; ok {
		return
	}
	e.known[c] = v
	e.pushUndo(func() { delete(e.known, c) })
}

func (e *Engine) tighten(t *Term, lo, hi uint64) {
	if t.isConst() {
		return
	}
	old, had := e.rngs[t]
	nl, nh := lo, hi
	if had {
		nl, nh = max(nl, old[0]), min(nh, old[1])
		if nl == old[0] && nh == old[1] {
			return
		}
	}
	e.rngs[t] = [2]uint64{nl, nh}
	e.pushUndo(func() {
		if had {
			e.rngs[t] = old
		} else {
			delete(e.rngs, t)
		}
	})
	// propagate through width changes
	if t.op == OZext {
		e.tighten(t.a, nl, min(nh, maskOf(t.a.w)))
	}
}

// learn records a condition known to hold (or not) on this path.
func (e *Engine) learn(c *Term, v bool) {
	if c.isConst() {
		return
	}
	e.setKnown(c, v)
	switch c.op {
	case ONot:
		e.learn(c.a, !v)
	case OAnd:
		if v {
			e.learn(c.a, true)
			e.learn(c.b, true)
		}
	case OOr:
		if !v {
			e.learn(c.a, false)
			e.learn(c.b, false)
		}
	case OPW:
		d := pwRestrict(c, e.dom(c.a), boolv(v))
		if len(d) > 0 {
			e.setDom(c.a, d)
		}
	case OEq:
		if v && c.a.w > 0 {
			l1, h1 := e.rng(c.a)
			l2, h2 := e.rng(c.b)
			e.tighten(c.a, l2, h2)
			e.tighten(c.b, l1, h1)
		} else if !v && c.a.w > 0 && c.b.isConst() {
			l, h := e.rng(c.a)
			if l == c.b.c {
				e.tighten(c.a, l+1, h)
			} else if h == c.b.c {
				e.tighten(c.a, l, h-1)
			}
		}
	case OUlt:
		l1, h1 := e.rng(c.a)
		l2, h2 := e.rng(c.b)
		if v { // a < b
			if h2 > 0 {
				e.tighten(c.a, l1, min(h1, h2-1))
			}
			if l1 != ^uint64(0) {
				e.tighten(c.b, max(l2, l1+1), h2)
			}
		} else { // b <= a
			e.tighten(c.a, max(l1, l2), h1)
			e.tighten(c.b, l2, min(h2, h1))
		}
	}
}

func (e *Engine) assume(c *Term, v bool) {
	t := c
	if !v {
		t = e.tc.Not(c)
	}
	if t.isConst() {
		return
	}
	e.pc = append(e.pc, t)
	n := len(e.pc) - 1
	e.pushUndo(func() { e.pc = e.pc[:n] })
	if t.uv == nil {
		for _, x := range e.sol.varsOf(t) {
			if !e.entangled[x] {
				x := x
				e.entangled[x] = true
				e.pushUndo(func() { delete(e.entangled, x) })
			}
		}
	} else if !e.isSet(t) {
		x := t.uv
		if !e.entangled[x] {
			e.entangled[x] = true
			e.pushUndo(func() { delete(e.entangled, x) })
		}
	}
	e.learn(c, v)
}

// isSet: the condition is fully captured by the interval domain of its variable.
func (e *Engine) isSet(t *Term) bool {
	switch t.op {
	case OPW:
		return true
	case ONot:
		return e.isSet(t.a)
	}
	return false
}

// truth decides a condition on the current path, requesting a fork when both
// outcomes are feasible.
func (e *Engine) truth(c *Term) bool {
	if v, ok := e.quick(c, 0); ok {
		return v
	}
	if c.op == ONot {
		return !e.truth(c.a)
	}
	if e.cfMode > 0 {
		if c.op == OPW && c.a == e.cfVar {
			panic(forkReq{c: c, first: true})
		}
		panic(mergeAbort{"condition not over one variable"})
	}
	if e.noSolver > 0 {
		panic(mergeAbort{"needs the solver"})
	}
	if c.op == OPW && !e.entangled[c.a] {
		x := c.a
		mv := e.evalM(c)
		d := pwRestrict(c, e.dom(x), 1-mv)
		m := make(map[*Term]uint64, len(e.model)+1)
		for k, v := range e.model {
			m[k] = v
		}
		m[x] = d[0].lo
		panic(forkReq{c: c, first: mv != 0, other: m})
	}
	if e.unsure {
		r, m := e.check(nil)
		if r == Sat {
			e.setModel(m)
			e.unsure = false
		} else if r == Unsat {
			panic(pathEnd{"assume", "infeasible"})
		} else {
			// undecided path: explore both sides
			e.stats.Unknown++
			panic(forkReq{c: c, first: true})
		}
	}
	mv := e.evalM(c) != 0
	t := c
	if mv {
		t = e.tc.Not(c)
	}
	r, m := e.check(t)
	switch r {
	case Unsat:
		e.learn(c, mv)
		return mv
	case Sat:
		panic(forkReq{c: c, first: mv, other: m})
	}
	e.stats.Unknown++
	panic(forkReq{c: c, first: mv})
}

// concretize picks (by forking) one concrete value for a term.
func (e *Engine) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.c
	}
	if lo, hi := e.rng(t); lo == hi {
		return lo
	}
	if e.cfMode > 0 {
		// over one variable: split on the first value in the domain
		if t.uv == e.cfVar {
			v := evalU(t, e.dom(e.cfVar)[0].lo)
			if e.truth(e.tc.Eq(t, e.tc.Const(t.w, v))) {
				return v
			}
		}
		panic(mergeAbort{"symbolic " + what})
	}
	if e.noSolver > 0 {
		panic(mergeAbort{"symbolic " + what})
	}
	for i := 0; ; i++ {
		if e.unsure {
			panic(unsupported("undecided path: " + what))
		}
		v := e.evalM(t)
		if e.truth(e.tc.Eq(t, e.tc.Const(t.w, v))) {
			return v
		}
		if i > 2 {
			panic(unsupported("cannot concretize " + what))
		}
		// the solver refuted the model's own value: impossible unless the
		// value was excluded by learned facts only
		r, m := e.check(nil)
		if r != Sat {
			panic(unsupported("cannot concretize " + what))
		}
		e.setModel(m)
	}
}

// ---- snapshots ----

func (e *Engine) snapshot() []*Frame {
	out := make([]*Frame, len(e.frames))
	for i, f := range e.frames {
		c := *f
		c.regs = append([]Value(nil), f.regs...)
		c.defers = append([]deferred(nil), f.defers...)
		out[i] = &c
	}
	return out
}

type event struct {
	kind string // fork, ret, end, abort
	fork forkReq
	end  pathEnd
	why  string
}

// run executes until the path ends, forks, or the base frame returns.
func (e *Engine) run() (ev event) {
	for {
		done, ev := e.runGuarded()
		if done {
			return ev
		}
	}
}

func (e *Engine) runGuarded() (done bool, ev event) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case forkReq:
			e.undoTo(e.instrMark)
			done, ev = true, event{kind: "fork", fork: x}
		case pathEnd:
			done, ev = true, event{kind: "end", end: x}
		case unsup:
			if e.mergeLvl > 0 {
				done, ev = true, event{kind: "abort", why: x.msg}
				return
			}
			done, ev = true, event{kind: "end", end: pathEnd{"incomplete", x.msg + " in " + e.where()}}
		case mergeAbort:
			if e.mergeLvl > 0 {
				done, ev = true, event{kind: "abort", why: x.why}
				return
			}
			done, ev = true, event{kind: "end", end: pathEnd{"incomplete", "abort outside merge: " + x.why}}
		case goPanicReq:
			e.undoTo(e.instrMark)
			if e.raise(x) {
				done, ev = false, event{}
			} else {
				if e.mergeLvl > 0 {
					done, ev = true, event{kind: "abort", why: "panic"}
					return
				}
				done, ev = true, event{kind: "end", end: pathEnd{"panic", x.msg + " in " + e.where()}}
			}
		default:
			panic(r)
		}
	}()
	return true, e.stepLoop()
}

// explore runs all paths from the current state, calling endPath for each.
func (e *Engine) explore() {
	for {
		ev := e.run()
		switch ev.kind {
		case "ret":
			e.endPath(pathEnd{"done", ""})
			return
		case "end":
			e.endPath(ev.end)
			return
		case "abort":
			e.endPath(pathEnd{"incomplete", ev.why})
			return
		case "fork":
			e.stats.Forks++
			e.nforks++
			if debugForks {
				fr := e.frames[len(e.frames)-1]
				fmt.Printf("fork %d %s %d/%d: %.300s\n", e.nforks, fr.fn.fn, fr.blk, fr.ip, ev.fork.c)
			}
			if e.nforks > e.maxFk {
				e.endPath(pathEnd{"incomplete", fmt.Sprintf("fork bound %d reached", e.maxFk)})
				return
			}
			snap := e.snapshot()
			mark := len(e.trail)
			nf, st, un, model := e.nforks, e.steps, e.unsure, e.model
			inN, obN, mo := len(e.inputs), len(e.obs), e.mapOrd
			e.assume(ev.fork.c, ev.fork.first)
			e.explore()
			e.undoTo(mark)
			if e.stop || e.expired() {
				e.stop = true
				return
			}
			e.frames = snap
			e.nforks, e.steps, e.unsure, e.mapOrd = nf, st, un, mo
			e.truncInputs(inN)
			e.obs = e.obs[:obN]
			if ev.fork.other != nil {
				e.setModel(ev.fork.other)
			} else {
				e.setModel(model)
				e.unsure = true
			}
			e.assume(ev.fork.c, !ev.fork.first)
		}
	}
}

func (e *Engine) truncInputs(n int) {
	for i := len(e.inputs) - 1; i >= n; i-- {
		nm := e.inputs[i].name
		k := nm
		for j := len(nm) - 1; j >= 0; j-- {
			if nm[j] == '#' {
				k = nm[:j]
				break
			}
		}
		e.inNames[k]--
	}
	e.inputs = e.inputs[:n]
}

func (e *Engine) expired() bool {
	now := time.Now()
	if now.After(e.dead) {
		return true
	}
	if e.job.full.Load() {
		return true
	}
	if c := e.job.ctl; c != nil {
		if c.stop.Load() {
			return true
		}
		if c.pending.Load() > 0 && now.After(e.job.soft) {
			e.res.Soft = true
			return true
		}
	}
	return false
}

// ---- merging of pure calls ----

type mres struct {
	v     Value
	alive *Term
}

// exploreMerge runs the current sub-run to all its ends and merges the results.
func (e *Engine) exploreMerge() mres {
	ev := e.run()
	switch ev.kind {
	case "ret":
		e.cfLeaves++
		if e.cfMode > 0 && e.cfLeaves > 30000 {
			panic(mergeAbort{"too many leaves"})
		}
		return mres{e.retVal, e.tc.T}
	case "end":
		if ev.end.kind == "assume" {
			return mres{nil, e.tc.F}
		}
		panic(mergeAbort{ev.end.kind})
	case "abort":
		panic(mergeAbort{ev.why})
	}
	// fork
	c := ev.fork.c
	e.stats.Forks++
	e.nforks++
	if e.nforks > e.maxFk || e.stop || e.expired() {
		panic(mergeAbort{"bound"})
	}
	snap := e.snapshot()
	mark := len(e.trail)
	nf, un, model := e.nforks, e.unsure, e.model
	e.assume(c, ev.fork.first)
	r1 := e.exploreMerge()
	e.undoTo(mark)
	e.frames = snap
	e.nforks = nf
	if ev.fork.other != nil {
		e.setModel(ev.fork.other)
		e.unsure = un
	} else if e.cfMode == 0 {
		e.unsure = true
	}
	e.assume(c, !ev.fork.first)
	r2 := e.exploreMerge()
	e.undoTo(mark)
	e.setModel(model)
	e.unsure = un
	e.nforks = nf - 1
	if !ev.fork.first {
		r1, r2 = r2, r1
	}
	switch {
	case r1.v == nil && r1.alive.isFalse():
		return mres{r2.v, e.tc.And(e.tc.Not(c), r2.alive)}
	case r2.v == nil && r2.alive.isFalse():
		return mres{r1.v, e.tc.And(c, r1.alive)}
	}
	v, ok := e.mergeValue(c, r1.v, r2.v)
	if !ok {
		panic(mergeAbort{"results do not merge"})
	}
	return mres{v, e.tc.Ite(c, r1.alive, r2.alive)}
}

// tryMerge executes fn(args) on all its paths and returns one merged result.
func (e *Engine) tryMerge(fn *ssa.Function, args []Value, free []Value) (res Value, ok bool) {
	saved := e.frames
	savedRet := e.retVal
	mark := len(e.trail)
	im := e.instrMark
	oldMM := e.mergeMark
	nf, un, model := e.nforks, e.unsure, e.model
	inN, obN := len(e.inputs), len(e.obs)
	restore := func() {
		e.undoTo(mark)
		e.frames = saved
		e.retVal = savedRet
		e.instrMark = im
		e.mergeMark = oldMM
		e.mergeLvl--
		e.nforks, e.unsure = nf, un
		e.setModel(model)
		e.truncInputs(inN)
		e.obs = e.obs[:obN]
	}
	defer func() {
		if r := recover(); r != nil {
			restore()
			if a, isA := r.(mergeAbort); isA {
				_ = a
				if debugMerge {
					fmt.Printf("merge abort %s: %s\n", fn, a.why)
				}
				e.stats.MergeAborts++
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	e.mergeLvl++
	e.mergeMark = e.nextObj
	e.frames = nil
	fr := e.newFrame(fn, args, free)
	fr.base = true
	e.frames = []*Frame{fr}
	r := e.exploreMerge()
	alive := r.alive
	v := r.v
	restore()
	if v == nil {
		if alive.isFalse() {
			panic(pathEnd{"assume", "no surviving path"})
		}
		v = Tuple{}
	}
	if !alive.isTrue() {
		e.assume(alive, true)
		if e.cfMode == 0 {
			e.unsure = true
		}
	}
	e.stats.Merges++
	return v, true
}

var debugMerge = false

var debugForks = os.Getenv("VERIF_FORKS") != ""

// check decides the path condition together with extra.
func (e *Engine) check(extra *Term) (SatResult, map[*Term]uint64) {
	if e.unsure {
		return e.sol.Check(e.pc, extra, nil)
	}
	base := e.model
	if base == nil {
		base = map[*Term]uint64{}
	}
	return e.sol.Check(e.pc, extra, base)
}
