package main

import (
	"bytes"
	"fmt"
	"os/exec"
	"strings"
	"time"
)

// Predictive data-race search: two calls run one after the other on one path
// while their memory accesses and synchronisation events are logged; a solver
// then looks for an interleaving of the two event sequences, respecting
// program order and mutual exclusion, in which two conflicting accesses are
// adjacent.

type raceEv struct {
	kind  string // r, w, lock, unlock, rlock, runlock, atomic
	loc   string
	where string
}

type raceState struct {
	thread int
	ev     [3][]raceEv
	seen   map[string]bool // dedup of accesses between synchronisation events
	epoch  int
}

func newRace() *raceState { return &raceState{seen: map[string]bool{}} }

func (e *Engine) raceAdd(ev raceEv) {
	r := e.race
	t := r.thread
	if ev.kind == "r" || ev.kind == "w" {
		k := fmt.Sprintf("%d|%d|%s|%s", t, r.epoch, ev.kind, ev.loc)
		if r.seen[k] {
			return
		}
		r.seen[k] = true
		e.pushUndo(func() { delete(r.seen, k) })
	} else {
		r.epoch++
		e.pushUndo(func() { r.epoch-- })
	}
	n := len(r.ev[t])
	r.ev[t] = append(r.ev[t], ev)
	e.pushUndo(func() { r.ev[t] = r.ev[t][:n] })
}

func (e *Engine) access(p Ptr, write bool) {
	if e.race == nil || e.race.thread == 0 || p.obj == nil {
		return
	}
	k := "r"
	if write {
		k = "w"
	}
	loc := fmt.Sprintf("o%d:%d", p.obj.id, p.off)
	w := p.obj.name
	if w == "" {
		w = "heap object"
	}
	e.raceAdd(raceEv{k, loc, w + " in " + e.where()})
}

func (e *Engine) accessMap(m *MapObj, write bool) {
	if e.race == nil || e.race.thread == 0 {
		return
	}
	k := "r"
	if write {
		k = "w"
	}
	e.raceAdd(raceEv{k, fmt.Sprintf("m%d", m.id), "map in " + e.where()})
}

func (e *Engine) lockEv(p Ptr, kind string) {
	if e.race == nil || e.race.thread == 0 {
		return
	}
	if p.obj == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	e.raceAdd(raceEv{kind, fmt.Sprintf("L%d:%d", p.obj.id, p.off), ""})
}

func (e *Engine) atomicEv(p Ptr) {
	if e.race == nil || e.race.thread == 0 {
		return
	}
	if p.obj == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	e.raceAdd(raceEv{"atomic", fmt.Sprintf("o%d:%d", p.obj.id, p.off), ""})
}

func (e *Engine) parThread(t int) {
	if e.race == nil {
		return
	}
	r := e.race
	old := r.thread
	r.thread = t
	e.pushUndo(func() { r.thread = old })
	if t == 0 {
		if msg := e.findRace(); msg != "" {
			m, _ := e.pathModel()
			if m != nil && e.candidate(msg, m) {
				panic(pathEnd{"violation", msg})
			}
			e.stats.reason("race not confirmed by the race detector: " + msg)
		}
		e.stats.reach("interleavings of the two calls decided")
	}
}

// findRace asks the solver for an interleaving with adjacent conflicting accesses.
func (e *Engine) findRace() string {
	r := e.race
	// candidate pairs by location
	type acc struct{ t, i int }
	by := map[string][2][]int{}
	for t := 1; t <= 2; t++ {
		for i, ev := range r.ev[t] {
			if ev.kind == "r" || ev.kind == "w" || ev.kind == "atomic" {
				x := by[ev.loc]
				x[t-1] = append(x[t-1], i)
				by[ev.loc] = x
			}
		}
	}
	// accesses between two synchronisation events of a thread share one slot
	var slot [3][]int
	var slots [3]int
	for t := 1; t <= 2; t++ {
		k := 0
		was := false // the current slot holds accesses
		for _, ev := range r.ev[t] {
			acc := ev.kind == "r" || ev.kind == "w"
			if !acc || !was {
				k++
			}
			was = acc
			slot[t] = append(slot[t], k)
		}
		slots[t] = k + 1
	}
	var sb strings.Builder
	sb.WriteString("(set-logic QF_IDL)\n")
	for t := 1; t <= 2; t++ {
		for i := 0; i < slots[t]; i++ {
			fmt.Fprintf(&sb, "(declare-const o%d_%d Int)\n", t, i)
			if i > 0 {
				fmt.Fprintf(&sb, "(assert (< o%d_%d o%d_%d))\n", t, i-1, t, i)
			}
		}
	}
	type sec struct {
		t, a, b int
		read    bool
	}
	secs := map[string][]sec{}
	for t := 1; t <= 2; t++ {
		open := map[string][]int{}
		for i, ev := range r.ev[t] {
			switch ev.kind {
			case "lock", "rlock":
				open[ev.loc+"|"+ev.kind] = append(open[ev.loc+"|"+ev.kind], i)
			case "unlock", "runlock":
				k := ev.loc + "|" + strings.TrimPrefix(ev.kind, "un")
				if ev.kind == "runlock" {
					k = ev.loc + "|rlock"
				}
				if st := open[k]; len(st) > 0 {
					secs[ev.loc] = append(secs[ev.loc], sec{t, st[len(st)-1], i, ev.kind == "runlock"})
					open[k] = st[:len(st)-1]
				}
			}
		}
		for k, st := range open {
			loc := k[:strings.IndexByte(k, '|')]
			for _, a := range st {
				secs[loc] = append(secs[loc], sec{t, a, len(r.ev[t]) - 1, strings.HasSuffix(k, "rlock")})
			}
		}
	}
	for _, ss := range secs {
		for _, a := range ss {
			for _, b := range ss {
				if a.t == 1 && b.t == 2 && !(a.read && b.read) {
					fmt.Fprintf(&sb, "(assert (or (< o%d_%d o%d_%d) (< o%d_%d o%d_%d)))\n", a.t, slot[a.t][a.b], b.t, slot[b.t][b.a], b.t, slot[b.t][b.b], a.t, slot[a.t][a.a])
				}
			}
		}
	}
	var ors []string
	pairs := map[[2]int]bool{}
	var desc string
	n := 0
	for loc, x := range by {
		for _, i := range x[0] {
			for _, j := range x[1] {
				k1, k2 := r.ev[1][i].kind, r.ev[2][j].kind
				if k1 == "atomic" && k2 == "atomic" || k1 != "w" && k2 != "w" && k1 != "atomic" && k2 != "atomic" {
					continue
				}
				if k1 == "atomic" && k2 == "r" || k1 == "r" && k2 == "atomic" {
					// a plain read against an atomic access may be an atomic
					// load: only writes count
					continue
				}
				n++
				pr := [2]int{slot[1][i], slot[2][j]}
				if !pairs[pr] {
					pairs[pr] = true
					ors = append(ors, fmt.Sprintf("(= (- o1_%d o2_%d) 1) (= (- o2_%d o1_%d) 1)", pr[0], pr[1], pr[1], pr[0]))
				}
				if desc == "" || k1 == "w" {
					desc = fmt.Sprintf("%s (%s) and %s (%s) at %s", r.ev[1][i].where, k1, r.ev[2][j].where, k2, loc)
				}
			}
		}
	}
	e.stats.RacePairs += n
	if n == 0 {
		e.stats.AssertsConst++
		return ""
	}
	fmt.Fprintf(&sb, "(assert (or %s))\n(check-sat)\n", strings.Join(ors, " "))
	t0 := time.Now()
	cmd := exec.Command(solverBin, "-in", "-T:20")
	cmd.Stdin = strings.NewReader(sb.String())
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	e.sol.Time += time.Since(t0)
	e.sol.Queries++
	e.stats.Asserts++
	switch strings.TrimSpace(out.String()) {
	case "sat":
		e.sol.NSat++
		return "conflicting accesses can be adjacent: " + desc
	case "unsat":
		e.sol.NUnsat++
		e.stats.AssertsSolver++
		return ""
	}
	e.sol.NUnknown++
	e.stats.reason("solver gave no verdict on the interleavings")
	return ""
}
