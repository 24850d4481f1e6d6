package main

import (
	"fmt"
	"go/token"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- merged and summarised calls ----

type cfEntry struct {
	v      Value
	reads  map[*Object]int64
	mreads map[*MapObj]int64
	fail   bool
}

// argInfo describes the symbolic content of call arguments.
type argInfo struct {
	sym   bool
	uv    *Term
	multi bool
	strs  bool // symbolic text among the arguments
}

func (a *argInfo) add(v Value) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return
		}
		a.sym = true
		if x.uv == nil {
			a.multi = true
		} else if a.uv == nil {
			a.uv = x.uv
		} else if a.uv != x.uv {
			a.multi = true
		}
	case *Str:
		if !x.isConc() {
			a.sym, a.strs = true, true
		}
	case *Agg:
		for _, y := range x.v {
			a.add(y)
		}
	case Slice:
		if x.rope != nil {
			a.sym, a.strs = true, true
		}
	case Iface:
		a.add(x.v)
	}
}

func argKey(sb *strings.Builder, v Value) bool {
	switch x := v.(type) {
	case *Term:
		sb.WriteByte('t')
		sb.WriteString(strconv.Itoa(int(x.id)))
	case *Str:
		if !x.isConc() {
			return false
		}
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(len(x.c)))
		sb.WriteByte(':')
		sb.WriteString(x.c)
	case Ptr:
		if x.sym != nil {
			return false
		}
		if x.obj == nil {
			sb.WriteString("p0")
		} else {
			fmt.Fprintf(sb, "p%d:%d", x.obj.id, x.off)
		}
	case Slice:
		if x.rope != nil {
			return false
		}
		if x.obj == nil {
			sb.WriteString("l0")
		} else {
			fmt.Fprintf(sb, "l%d:%d:%d", x.obj.id, x.off, x.len)
		}
	case *Agg:
		sb.WriteByte('(')
		for _, y := range x.v {
			if !argKey(sb, y) {
				return false
			}
		}
		sb.WriteByte(')')
	case *Closure:
		if x == nil {
			sb.WriteString("f0")
		} else if x.fn != nil && len(x.free) == 0 {
			fmt.Fprintf(sb, "f%p", x.fn)
		} else {
			return false
		}
	case *MapObj:
		if x == nil {
			sb.WriteString("m0")
		} else {
			fmt.Fprintf(sb, "m%d", x.id)
		}
	default:
		return false
	}
	sb.WriteByte(',')
	return true
}

func (e *Engine) cfValid(en *cfEntry) bool {
	for o, v := range en.reads {
		if o.ver != v {
			return false
		}
	}
	for m, v := range en.mreads {
		if m.ver != v {
			return false
		}
	}
	return true
}

// mergedCall tries to evaluate a call to one merged result value.
func (e *Engine) mergedCall(c *CFn, cl *Closure, args []Value) (Value, bool) {
	fn := c.fn
	if e.noMergeFn(c) {
		return nil, false
	}
	var ai argInfo
	for _, a := range args {
		ai.add(a)
	}
	if !ai.sym {
		return e.hotCall(c, cl, args)
	}
	if len(cl.free) == 0 && !ai.multi && !ai.strs && !e.noCF[fn] {
		if v, ok := e.cfCall(fn, args, ai.uv); ok {
			return v, true
		}
	}
	if e.noMerge[fn] >= 2 && e.noMerge[fn] > 2*e.mergeOK[fn] {
		return nil, false
	}
	if e.cfMode > 0 {
		return nil, false
	}
	v, ok := e.tryMerge(fn, args, cl.free)
	if ok {
		e.mergeOK[fn]++
		return v, true
	}
	e.noMerge[fn]++
	return nil, false
}

func (e *Engine) noMergeFn(c *CFn) bool {
	if !strings.HasPrefix(c.path, "verif/harness") {
		return false
	}
	// harness entry points are never merged
	return c.fn.Name() == e.entry
}

// cfCall evaluates fn over the whole declared range of one variable, independent
// of the current path, and caches the piecewise result.
func (e *Engine) cfCall(fn *ssa.Function, args []Value, x *Term) (Value, bool) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%p|", fn)
	for _, a := range args {
		if !argKey(&sb, a) {
			return nil, false
		}
	}
	k := sb.String()
	if en := e.cfCache[k]; en != nil && e.cfValid(en) {
		if en.fail {
			return nil, false
		}
		e.stats.CFHits++
		e.addReads(en)
		return en.v, true
	}
	en := e.cfRun(fn, args, x)
	e.cfCache[k] = en
	if en.fail {
		e.cfFails[fn]++
		if e.cfFails[fn] > 3 {
			e.noCF[fn] = true
		}
		return nil, false
	}
	e.stats.CFSummaries++
	e.addReads(en)
	return en.v, true
}

func (e *Engine) addReads(en *cfEntry) {
	if e.reads != nil {
		for o, v := range en.reads {
			if o.id <= e.readMark {
				e.reads[o] = v
			}
		}
		for m, v := range en.mreads {
			if m.id <= e.readMark {
				e.mreads[m] = v
			}
		}
	}
	if e.race != nil {
		for o := range en.reads {
			e.access(Ptr{obj: o}, false)
		}
		for m := range en.mreads {
			e.accessMap(m, false)
		}
	}
}

func (e *Engine) cfRun(fn *ssa.Function, args []Value, x *Term) *cfEntry {
	known, doms, rngs, ent, pc := e.known, e.doms, e.rngs, e.entangled, e.pc
	reads, mreads, cfv, lv, unsure, race, rm := e.reads, e.mreads, e.cfVar, e.cfLeaves, e.unsure, e.race, e.readMark
	steps := e.steps
	e.known, e.doms, e.rngs, e.entangled, e.pc = map[*Term]bool{}, map[*Term][]rgn{}, map[*Term][2]uint64{}, map[*Term]bool{}, nil
	e.reads, e.mreads, e.cfVar, e.cfLeaves, e.unsure, e.race = map[*Object]int64{}, map[*MapObj]int64{}, x, 0, false, nil
	e.readMark = e.nextObj
	nf := e.nforks
	e.nforks = 0
	mf := e.maxFk
	e.maxFk = 1 << 30
	e.cfMode++
	v, ok := e.tryMerge(fn, args, nil)
	e.cfMode--
	e.maxFk = mf
	e.nforks = nf
	en := &cfEntry{v: v, fail: !ok, reads: e.reads, mreads: e.mreads}
	e.known, e.doms, e.rngs, e.entangled, e.pc = known, doms, rngs, ent, pc
	e.reads, e.mreads, e.cfVar, e.cfLeaves, e.unsure, e.race, e.readMark = reads, mreads, cfv, lv, unsure, race, rm
	if e.steps-steps > 50_000_000 {
		e.steps = steps
	}
	return en
}

// hotCall serves frequently repeated calls that differ only in one integer
// argument from a summary over that argument.
func (e *Engine) hotCall(c *CFn, cl *Closure, args []Value) (Value, bool) {
	if c.calls < 2000 || len(cl.free) > 0 || e.noCF[c.fn] || e.cfMode > 0 {
		return nil, false
	}
	idx := -1
	for i, a := range args {
		if _, ok := a.(*Term); ok {
			if idx >= 0 {
				return nil, false
			}
			idx = i
		}
	}
	if idx < 0 {
		return nil, false
	}
	at := args[idx].(*Term)
	if at.w == 0 {
		return nil, false
	}
	h := &e.lastHot
	same := h.c == c && h.en != nil && h.n == len(args)
	if same {
		for i, a := range args {
			if i != idx && !sameValue(a, h.args[i]) {
				same = false
				break
			}
		}
		if same && !e.cfValid(h.en) {
			same = false
		}
	}
	if !same {
		x := e.tc.Var(fmt.Sprintf("cf!%d", at.w), at.w, 0, maskOf(at.w))
		na := append([]Value{}, args...)
		na[idx] = x
		v, ok := e.cfCall(c.fn, na, x)
		if !ok {
			c.calls = 0
			return nil, false
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "%p|", c.fn)
		for _, a := range na {
			argKey(&sb, a)
		}
		_ = v
		*h = hotState{c: c, en: e.cfCache[sb.String()], args: append([]Value{}, args...), n: len(args)}
	}
	r, ok := e.substU(h.en.v, at.c)
	if ok {
		e.addReads(h.en)
	}
	return r, ok
}

type hotState struct {
	c    *CFn
	en   *cfEntry
	args []Value
	n    int
}

// substU evaluates a summary at one value of its variable.
func (e *Engine) substU(v Value, x uint64) (Value, bool) {
	switch t := v.(type) {
	case *Term:
		if t.isConst() {
			return t, true
		}
		return e.tc.Const(t.w, evalU(t, x)), true
	case Tuple:
		out := make(Tuple, len(t))
		for i := range t {
			y, ok := e.substU(t[i], x)
			if !ok {
				return nil, false
			}
			out[i] = y
		}
		return out, true
	case *Agg:
		out := make([]Value, len(t.v))
		for i := range t.v {
			y, ok := e.substU(t.v[i], x)
			if !ok {
				return nil, false
			}
			out[i] = y
		}
		return &Agg{out}, true
	case *Str:
		if t.isConc() {
			return t, true
		}
	}
	return nil, false
}

// ---- if-conversion of pure regions ----

type region struct {
	mem   bool // reads or writes memory
	fails int
	join  int
	order []int // blocks of the region in topological order
}

func pureInstr(ci *CInstr) bool {
	switch ci.op {
	case iBinOp:
		if !ci.flag {
			return false
		}
		switch ci.tok {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		return true
	case iUnOp, iChangeType, iExtract, iField:
		return true
	case iConvert:
		_, _, a := scalarType(ci.t)
		_, _, b := scalarType(ci.t2)
		return a && b
	case iJump, iIf:
		return true
	}
	return false
}

// memInstr is a memory access whose effect can be made conditional.
func memInstr(ci *CInstr) bool {
	switch ci.op {
	case iLoad, iFieldAddr, iIndexAddr:
		return true
	case iStore:
		_, _, ok := scalarType(ci.t)
		return ok
	}
	return false
}

func (e *Engine) findRegion(c *CFn, b int) *region {
	blk := c.blks[b]
	if blk.regX {
		return blk.reg
	}
	blk.regX = true
	j := c.postdoms()[b]
	if j < 0 {
		return nil
	}
	// collect blocks reachable from b before j
	var order []int
	state := map[int]int{}
	ok := true
	n := 0
	mem := false
	var dfs func(x int)
	dfs = func(x int) {
		if x == j || !ok {
			return
		}
		switch state[x] {
		case 1:
			ok = false // cycle
			return
		case 2:
			return
		}
		state[x] = 1
		cb := c.blks[x]
		if x != b {
			for i := range cb.ins {
				n++
				if memInstr(&cb.ins[i]) {
					mem = true
				} else if !pureInstr(&cb.ins[i]) {
					ok = false
					return
				}
			}
		}
		for _, s := range cb.succ {
			if s >= 0 {
				if s == b {
					ok = false
					return
				}
				dfs(s)
			}
		}
		state[x] = 2
		order = append(order, x)
	}
	dfs(b)
	if !ok || n > 60 || len(order) > 24 {
		return nil
	}
	for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
		order[i], order[k] = order[k], order[i]
	}
	// join phis must be mergeable: checked on values
	blk.reg = &region{join: j, order: order, mem: mem}
	return blk.reg
}

// tryRegion executes both sides of a branch over pure code and joins them with
// conditional values.
func (e *Engine) tryRegion(f *Frame, blk *CBlk, c *Term) (ok bool) {
	rg := e.findRegion(f.fn, f.blk)
	if rg == nil {
		return false
	}
	if c.sz > 100000 || rg.mem && (e.race != nil || rg.fails > 3) {
		return false
	}
	type edge struct {
		from int
		cond *Term
	}
	save := append([]Value(nil), f.regs...)
	mark := len(e.trail)
	defer func() {
		if r := recover(); r != nil {
			copy(f.regs, save)
			e.undoTo(mark)
			rg.fails++
			switch r.(type) {
			case mergeAbort, forkReq, goPanicReq, unsup:
				ok = false
				return
			}
			panic(r)
		}
	}()
	in := map[int][]edge{}
	in[rg.order[0]] = []edge{{-1, e.tc.T}}
	fail := func() bool {
		copy(f.regs, save)
		e.undoTo(mark)
		rg.fails++
		return false
	}
	phiVals := func(b int, es []edge) ([]Value, bool) {
		cb := f.fn.blks[b]
		var out []Value
		for i := range cb.phis {
			var v Value
			for k := len(es) - 1; k >= 0; k-- {
				pi := -1
				for q, p := range cb.pred {
					if p == es[k].from {
						pi = q
						break
					}
				}
				x := f.get(&cb.phis[i].edges[pi])
				if v == nil {
					v = x
					continue
				}
				m, ok := e.mergeValue(es[k].cond, x, v)
				if !ok {
					return nil, false
				}
				v = m
			}
			out = append(out, v)
		}
		return out, true
	}
	e.noSolver++
	defer func() { e.noSolver-- }()
	for _, b := range rg.order {
		es := in[b]
		if len(es) == 0 {
			continue
		}
		cb := f.fn.blks[b]
		reach := e.tc.F
		for _, x := range es {
			reach = e.tc.Or(reach, x.cond)
		}
		if reach.isFalse() {
			continue
		}
		if b != rg.order[0] {
			pv, ok := phiVals(b, es)
			if !ok {
				return fail()
			}
			for i := range cb.phis {
				f.regs[cb.phis[i].dst] = pv[i]
			}
			for i := range cb.ins {
				ci := &cb.ins[i]
				switch ci.op {
				case iBinOp:
					f.regs[ci.dst] = e.binop(f, ci)
				case iUnOp:
					f.regs[ci.dst] = e.unop(f, ci)
				case iChangeType:
					f.regs[ci.dst] = f.get(&ci.a)
				case iExtract:
					f.regs[ci.dst] = f.get(&ci.a).(Tuple)[ci.n]
				case iField:
					a := f.get(&ci.a).(*Agg)
					if isAgg(ci.t) {
						f.regs[ci.dst] = &Agg{a.v[ci.n : ci.n+ci.m : ci.n+ci.m]}
					} else {
						f.regs[ci.dst] = a.v[ci.n]
					}
				case iConvert:
					f.regs[ci.dst] = e.convert(f.get(&ci.a), ci.t2, ci.t)
				case iLoad:
					p, ok := f.get(&ci.a).(Ptr)
					if !ok || p.obj == nil || p.sym != nil {
						return fail()
					}
					f.regs[ci.dst] = e.load(p, ci.t)
				case iFieldAddr:
					p, ok := f.get(&ci.a).(Ptr)
					if !ok || p.obj == nil || p.sym != nil {
						return fail()
					}
					p.off += ci.n
					f.regs[ci.dst] = p
				case iIndexAddr:
					f.regs[ci.dst] = e.indexAddr(f, ci)
				case iStore:
					p, ok := f.get(&ci.a).(Ptr)
					if !ok || p.obj == nil || p.sym != nil || p.obj.tags != nil {
						return fail()
					}
					old, ok1 := e.load(p, ci.t).(*Term)
					nv, ok2 := f.get(&ci.b).(*Term)
					if !ok1 || !ok2 || old.w != nv.w {
						return fail()
					}
					e.store(p, e.tc.Ite(reach, nv, old), ci.t)
				}
			}
		}
		last := &cb.ins[len(cb.ins)-1]
		push := func(to int, cond *Term) {
			if cond.isFalse() {
				return
			}
			in[to] = append(in[to], edge{b, cond})
		}
		if last.op == iJump {
			push(cb.succ[0], reach)
		} else if last.op == iIf {
			cc := f.term(&last.a)
			if v, ok := e.quick(cc, 0); ok {
				cc = e.tc.Bool(v)
			}
			push(cb.succ[0], e.tc.And(reach, cc))
			push(cb.succ[1], e.tc.And(reach, e.tc.Not(cc)))
		} else {
			return fail()
		}
	}
	es := in[rg.join]
	if len(es) == 0 {
		return fail()
	}
	pv, good := phiVals(rg.join, es)
	if !good {
		return fail()
	}
	// registers set only inside the region are dead after the join
	jb := f.fn.blks[rg.join]
	for i := range jb.phis {
		f.regs[jb.phis[i].dst] = pv[i]
	}
	f.prev, f.blk, f.ip = rg.order[len(rg.order)-1], rg.join, 0
	e.stats.Regions++
	return true
}
