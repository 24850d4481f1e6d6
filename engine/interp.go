package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) where() string {
	if len(e.frames) == 0 {
		return "?"
	}
	for i := len(e.frames) - 1; i >= 0; i-- {
		if e.frames[i].fn.ours {
			return e.frames[len(e.frames)-1].fn.name + " (under " + e.frames[i].fn.name + ")"
		}
	}
	return e.frames[len(e.frames)-1].fn.name
}

func (e *Engine) newFrame(fn *ssa.Function, args []Value, free []Value) *Frame {
	c := e.cfn(fn)
	c.calls++
	f := &Frame{fn: c, regs: make([]Value, c.nregs), prev: -1, dst: -1}
	if len(args) != len(c.params) {
		panic(unsupported(fmt.Sprintf("call of %s with %d arguments", fn, len(args))))
	}
	for i, p := range c.params {
		f.regs[p] = args[i]
	}
	for i, p := range c.free {
		f.regs[p] = free[i]
	}
	return f
}

func (f *Frame) get(o *opnd) Value {
	if o.r >= 0 {
		return f.regs[o.r]
	}
	return o.v
}

func (f *Frame) term(o *opnd) *Term {
	if o.r >= 0 {
		return f.regs[o.r].(*Term)
	}
	return o.v.(*Term)
}

func (e *Engine) rtPanic(msg string) goPanicReq {
	return goPanicReq{v: Iface{t: rtErrType, v: cs("runtime error: " + msg)}, runtime: true, msg: "runtime error: " + msg}
}

var rtErrType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil)

// raise starts unwinding with a Go panic; false when nothing is left to run.
func (e *Engine) raise(x goPanicReq) bool {
	if len(e.frames) == 0 {
		return false
	}
	f := e.frames[len(e.frames)-1]
	f.panicking, f.recovered = true, false
	f.pval, f.pmsg = x.v, x.msg
	return e.unwind()
}

func (e *Engine) unwind() bool {
	for {
		f := e.frames[len(e.frames)-1]
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			pushed := e.pushDeferred(f, d)
			f.defers = f.defers[:n-1]
			if pushed {
				return true
			}
			continue
		}
		if f.recovered {
			f.panicking, f.recovered = false, false
			e.toRecover(f)
			return true
		}
		if f.base {
			return false
		}
		e.frames = e.frames[:len(e.frames)-1]
		g := e.frames[len(e.frames)-1]
		// a panic in a deferred call replaces the caller's panic
		g.panicking, g.recovered = true, false
		g.pval, g.pmsg = f.pval, f.pmsg
	}
}

func (e *Engine) toRecover(f *Frame) {
	if f.fn.recov >= 0 {
		f.prev = f.blk
		f.blk, f.ip = f.fn.recov, 0
		return
	}
	// no named results: return zero values
	var v Value
	rs := f.fn.fn.Signature.Results()
	switch rs.Len() {
	case 0:
	case 1:
		v = e.zero(rs.At(0).Type())
	default:
		v = e.zero(rs)
	}
	f.forceRet = true
	f.retV = v
}

// pushDeferred starts a deferred call; false when it completed at once.
func (e *Engine) pushDeferred(f *Frame, d deferred) bool {
	cl, _ := d.fn.(*Closure)
	if cl == nil {
		panic(unsupported("deferred nil function"))
	}
	if cl.bi != nil {
		e.builtin(f, cl.bi, d.args, nil)
		return false
	}
	if in := e.intrinsic(cl.fn); in != nil {
		r := in(e, d.args)
		if tc, ok := r.(*tailCall); ok {
			nf := e.newFrame(tc.fn, tc.args, tc.free)
			nf.isDefer = true
			e.frames = append(e.frames, nf)
			return true
		}
		return false
	}
	nf := e.newFrame(cl.fn, d.args, cl.free)
	nf.isDefer = true
	e.frames = append(e.frames, nf)
	return true
}

// tailCall is returned by intrinsics that continue in interpreted code.
type tailCall struct {
	fn   *ssa.Function
	args []Value
	free []Value
	conv func(e *Engine, v Value) Value
}

// doReturn pops the top frame with result v. It reports whether the run ends.
func (e *Engine) doReturn(v Value) bool {
	n := len(e.frames) - 1
	f := e.frames[n]
	if f.base {
		e.retVal = v
		return true
	}
	e.frames = e.frames[:n]
	g := e.frames[n-1]
	if f.isDefer {
		if g.panicking {
			if !e.unwind() {
				panic(pathEnd{"panic", g.pmsg})
			}
		}
		return false
	}
	if f.conv != nil {
		v = f.conv(e, v)
	}
	if f.dst >= 0 {
		g.regs[f.dst] = v
	}
	return false
}

// stepLoop executes instructions until the base frame returns.
func (e *Engine) stepLoop() event {
	for {
		f := e.frames[len(e.frames)-1]
		if f.forceRet {
			f.forceRet = false
			if e.doReturn(f.retV) {
				return event{kind: "ret"}
			}
			continue
		}
		blk := f.fn.blks[f.blk]
		ci := &blk.ins[f.ip]
		e.steps++
		e.instrMark = len(e.trail)
		if e.steps&0xfff == 0 {
			if e.steps > e.maxSt {
				panic(pathEnd{"incomplete", "step bound reached in " + e.where()})
			}
			if e.expired() {
				e.stop = true
				panic(pathEnd{"incomplete", "time bound reached"})
			}
		}
		switch ci.op {
		case iBinOp:
			f.regs[ci.dst] = e.binop(f, ci)
		case iUnOp:
			f.regs[ci.dst] = e.unop(f, ci)
		case iLoad:
			p, ok := f.get(&ci.a).(Ptr)
			if !ok {
				panic(unsupported("load through a non-pointer"))
			}
			f.regs[ci.dst] = e.load(p, ci.t)
		case iStore:
			p, ok := f.get(&ci.a).(Ptr)
			if !ok {
				panic(unsupported("store through a non-pointer"))
			}
			e.store(p, f.get(&ci.b), ci.t)
		case iCall:
			if e.call(f, ci) {
				continue // pushed a frame; ip already advanced
			}
		case iDefer:
			fnv, args := e.callee(f, ci)
			f.defers = append(f.defers, deferred{fn: fnv, args: args})
		case iGo:
			panic(unsupported("go statement"))
		case iRet:
			var v Value
			switch len(ci.args) {
			case 0:
			case 1:
				v = f.get(&ci.args[0])
			default:
				tu := make(Tuple, len(ci.args))
				for i := range ci.args {
					tu[i] = f.get(&ci.args[i])
				}
				v = tu
			}
			if e.doReturn(v) {
				return event{kind: "ret"}
			}
			continue
		case iJump:
			e.jump(f, blk.succ[0])
			continue
		case iIf:
			c := f.term(&ci.a)
			if v, ok := e.quick(c, 0); ok {
				if v {
					e.jump(f, blk.succ[0])
				} else {
					e.jump(f, blk.succ[1])
				}
				continue
			}
			if e.cfMode == 0 && e.tryRegion(f, blk, c) {
				continue
			}
			if e.truth(c) {
				e.jump(f, blk.succ[0])
			} else {
				e.jump(f, blk.succ[1])
			}
			continue
		case iPanic:
			v := f.get(&ci.a)
			panic(goPanicReq{v: v, msg: "panic: " + e.describe(v)})
		case iRunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				e.pushDeferred(f, d)
				f.defers = f.defers[:n-1]
				continue
			}
		case iAlloc:
			o := e.alloc(e.zeroCells(ci.t, nil), "")
			f.regs[ci.dst] = Ptr{obj: o}
		case iFieldAddr:
			p := f.get(&ci.a).(Ptr)
			if p.obj == nil {
				panic(e.rtPanic("invalid memory address or nil pointer dereference"))
			}
			if p.sym != nil {
				s := *p.sym
				s.inner += ci.n
				p.sym = &s
			} else {
				p.off += ci.n
			}
			f.regs[ci.dst] = p
		case iField:
			a := f.get(&ci.a).(*Agg)
			if isAgg(ci.t) {
				f.regs[ci.dst] = &Agg{a.v[ci.n : ci.n+ci.m : ci.n+ci.m]}
			} else {
				f.regs[ci.dst] = a.v[ci.n]
			}
		case iIndexAddr:
			f.regs[ci.dst] = e.indexAddr(f, ci)
		case iIndex:
			f.regs[ci.dst] = e.index(f, ci)
		case iLookup:
			f.regs[ci.dst] = e.lookup(f, ci)
		case iMapUpdate:
			e.mapUpdate(f.get(&ci.a).(*MapObj), f.get(&ci.b), f.get(&ci.c))
		case iMakeSlice:
			f.regs[ci.dst] = e.makeSlice(f, ci)
		case iMakeMap:
			f.regs[ci.dst] = e.allocMap(ci.t, ci.t2)
		case iMakeChan:
			panic(unsupported("channels"))
		case iMakeClosure:
			fr := make([]Value, len(ci.args))
			for i := range ci.args {
				fr[i] = f.get(&ci.args[i])
			}
			f.regs[ci.dst] = &Closure{fn: ci.fn, free: fr}
		case iMakeIface:
			f.regs[ci.dst] = Iface{t: ci.t, v: f.get(&ci.a)}
		case iChangeIface, iChangeType:
			f.regs[ci.dst] = f.get(&ci.a)
		case iConvert:
			f.regs[ci.dst] = e.convert(f.get(&ci.a), ci.t2, ci.t)
		case iTypeAssert:
			f.regs[ci.dst] = e.typeAssert(f.get(&ci.a).(Iface), ci)
		case iExtract:
			f.regs[ci.dst] = f.get(&ci.a).(Tuple)[ci.n]
		case iSlice:
			f.regs[ci.dst] = e.sliceOp(f, ci)
		case iRange:
			f.regs[ci.dst] = e.rangeOver(f.get(&ci.a))
		case iNext:
			f.regs[ci.dst] = e.next(f, ci)
		case iSliceToArr:
			s := f.get(&ci.a).(Slice)
			if s.len < ci.n {
				panic(e.rtPanic("cannot convert slice to array pointer"))
			}
			f.regs[ci.dst] = Ptr{obj: s.obj, off: s.off}
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", ci.ins)))
		}
		f.ip++
	}
}

func (e *Engine) jump(f *Frame, to int) {
	from := f.blk
	nb := f.fn.blks[to]
	if len(nb.phis) > 0 {
		pi := -1
		for i, p := range nb.pred {
			if p == from {
				pi = i
				break
			}
		}
		if len(nb.phis) == 1 {
			f.regs[nb.phis[0].dst] = f.get(&nb.phis[0].edges[pi])
		} else {
			var tmp [16]Value
			t := tmp[:0]
			for i := range nb.phis {
				t = append(t, f.get(&nb.phis[i].edges[pi]))
			}
			for i := range nb.phis {
				f.regs[nb.phis[i].dst] = t[i]
			}
		}
	}
	f.prev, f.blk, f.ip = from, to, 0
}

func (e *Engine) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.v.(*Str); ok && s.isConc() {
			return s.c
		}
		if p, ok := x.v.(Ptr); ok && p.obj != nil && len(p.obj.cells) > p.off {
			if s, ok := p.obj.cells[p.off].(*Str); ok && s.isConc() {
				return s.c
			}
		}
		return x.t.String()
	case *Str:
		if x.isConc() {
			return x.c
		}
	}
	return fmt.Sprintf("%T", v)
}

// ---- operators ----

func (e *Engine) binop(f *Frame, ci *CInstr) Value {
	av, bv := f.get(&ci.a), f.get(&ci.b)
	switch a := av.(type) {
	case *Term:
		b, ok := bv.(*Term)
		if !ok {
			break
		}
		return e.intop(ci.tok, a, b, ci.sg, ci.t2)
	case *Str:
		b := bv.(*Str)
		switch ci.tok {
		case token.ADD:
			return e.concat(a, b)
		case token.EQL:
			return e.strEq(a, b)
		case token.NEQ:
			return e.tc.Not(e.strEq(a, b))
		case token.LSS:
			return e.strLess(a, b)
		case token.GTR:
			return e.strLess(b, a)
		case token.LEQ:
			return e.tc.Not(e.strLess(b, a))
		case token.GEQ:
			return e.tc.Not(e.strLess(a, b))
		}
	case float64:
		b, ok := bv.(float64)
		if !ok {
			break
		}
		switch ci.tok {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return e.tc.Bool(a < b)
		case token.LEQ:
			return e.tc.Bool(a <= b)
		case token.GTR:
			return e.tc.Bool(a > b)
		case token.GEQ:
			return e.tc.Bool(a >= b)
		}
	}
	switch ci.tok {
	case token.EQL:
		return e.eqValue(av, bv)
	case token.NEQ:
		return e.tc.Not(e.eqValue(av, bv))
	}
	panic(unsupported(fmt.Sprintf("operator %s on %T", ci.tok, av)))
}

func (e *Engine) intop(tok token.Token, a, b *Term, sg bool, shT types.Type) Value {
	c := e.tc
	switch tok {
	case token.EQL:
		return c.Eq(a, b)
	case token.NEQ:
		return c.Not(c.Eq(a, b))
	}
	if a.w == 0 {
		switch tok {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		case token.XOR:
			return c.Not(c.Eq(a, b))
		}
	}
	switch tok {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		if e.truth(c.Eq(b, c.Const(b.w, 0))) {
			panic(e.rtPanic("integer divide by zero"))
		}
		var op Op
		if tok == token.QUO {
			op = OUdiv
			if sg {
				op = OSdiv
			}
		} else {
			op = OUrem
			if sg {
				op = OSrem
			}
		}
		if sg {
			// path-sensitive signs let the simpler unsigned operators apply
			_, ah := e.rng(a)
			bl, bh := e.rng(b)
			half := uint64(1) << (a.w - 1)
			if ah < half && bh < half && bl > 0 {
				if op == OSdiv {
					op = OUdiv
				} else {
					op = OUrem
				}
			}
		}
		return c.Div(op, a, b)
	case token.AND:
		return c.Bit(OBand, a, b)
	case token.OR:
		return c.Bit(OBor, a, b)
	case token.XOR:
		return c.Bit(OBxor, a, b)
	case token.AND_NOT:
		return c.Bit(OBand, a, c.Bit(OBxor, b, c.Const(b.w, maskOf(b.w))))
	case token.SHL, token.SHR:
		_, bsg, _ := scalarType(shT)
		if bsg {
			if e.truth(c.Slt(b, c.Const(b.w, 0))) {
				panic(e.rtPanic("negative shift amount"))
			}
		}
		// bring the count to a's width, saturating
		var k *Term
		if b.w == a.w {
			k = b
		} else if b.w < a.w {
			k = c.Zext(b, a.w)
		} else {
			big := c.Ule(c.Const(b.w, uint64(a.w)), b)
			k = c.Ite(big, c.Const(a.w, maskOf(a.w)), c.Extract(b, a.w))
			if a.w == 8 && false {
				_ = k
			}
		}
		op := OShl
		if tok == token.SHR {
			op = OLshr
			if sg {
				op = OAshr
			}
		}
		return c.Shift(op, a, k)
	case token.LSS:
		if sg {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.GTR:
		if sg {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.LEQ:
		if sg {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GEQ:
		if sg {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	panic(unsupported("integer operator " + tok.String()))
}

func (e *Engine) strLess(a, b *Str) *Term {
	if a.isConc() && b.isConc() {
		return e.tc.Bool(a.c < b.c)
	}
	a, b = e.force(a), e.force(b)
	n := min(a.fixedLen(), b.fixedLen())
	r := e.tc.Bool(a.fixedLen() < b.fixedLen())
	for i := n - 1; i >= 0; i-- {
		x, y := e.byteAt(a, i).t, e.byteAt(b, i).t
		r = e.tc.Or(e.tc.Ult(x, y), e.tc.And(e.tc.Eq(x, y), r))
	}
	return r
}

func (e *Engine) unop(f *Frame, ci *CInstr) Value {
	v := f.get(&ci.a)
	switch ci.tok {
	case token.NOT:
		return e.tc.Not(v.(*Term))
	case token.SUB:
		if x, ok := v.(float64); ok {
			return -x
		}
		return e.tc.Neg(v.(*Term))
	case token.XOR:
		t := v.(*Term)
		return e.tc.Bit(OBxor, t, e.tc.Const(t.w, maskOf(t.w)))
	}
	panic(unsupported("unary " + ci.tok.String()))
}

// to64 widens an index or length to 64 bits by its signedness.
func (e *Engine) to64(t *Term, sg bool) *Term {
	if t.w == 64 {
		return t
	}
	if sg {
		return e.tc.Sext(t, 64)
	}
	return e.tc.Zext(t, 64)
}

// boundsCheck panics (in Go's sense) when idx is outside [0,n).
func (e *Engine) boundsCheck(idx *Term, n int) {
	if idx.isConst() {
		if idx.c >= uint64(n) {
			panic(e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.c), n)))
		}
		return
	}
	if !e.truth(e.tc.Ult(idx, e.tc.Const(64, uint64(n)))) {
		panic(e.rtPanic(fmt.Sprintf("index out of range with length %d", n)))
	}
}

func (e *Engine) indexAddr(f *Frame, ci *CInstr) Value {
	idx := e.to64(f.term(&ci.b), ci.sg)
	switch x := f.get(&ci.a).(type) {
	case Slice:
		if x.rope != nil {
			x = e.matSlice(x)
			if x.obj != nil {
				x.obj.frozen = true
			}
		}
		e.boundsCheck(idx, x.len)
		if v, ok := e.constOf(idx); ok {
			return Ptr{obj: x.obj, off: x.off + int(v)*ci.m}
		}
		return Ptr{obj: x.obj, off: x.off, sym: &SymIdx{idx: idx, n: x.len, stride: ci.m}}
	case Ptr:
		if x.obj == nil {
			panic(e.rtPanic("invalid memory address or nil pointer dereference"))
		}
		x = e.resolve(x)
		e.boundsCheck(idx, ci.n)
		if v, ok := e.constOf(idx); ok {
			return Ptr{obj: x.obj, off: x.off + int(v)*ci.m}
		}
		return Ptr{obj: x.obj, off: x.off, sym: &SymIdx{idx: idx, n: ci.n, stride: ci.m}}
	}
	panic(unsupported("IndexAddr"))
}

// constOf returns the value of a term that has only one on this path.
func (e *Engine) constOf(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.c, true
	}
	if lo, hi := e.rng(t); lo == hi {
		return lo, true
	}
	return 0, false
}

func (e *Engine) index(f *Frame, ci *CInstr) Value {
	idx := e.to64(f.term(&ci.b), ci.sg)
	switch x := f.get(&ci.a).(type) {
	case *Str:
		return e.strIndex(x, idx)
	case *Agg:
		e.boundsCheck(idx, ci.n)
		pick := func(i int) Value {
			if isAgg(ci.t) {
				return &Agg{x.v[i*ci.m : (i+1)*ci.m : (i+1)*ci.m]}
			}
			return x.v[i]
		}
		if v, ok := e.constOf(idx); ok {
			return pick(int(v))
		}
		if !isAgg(ci.t) {
			if v, ok := e.lookupVals(idx, x.v[:ci.n]); ok {
				return v
			}
		}
		return pick(int(e.concretize(idx, "index")))
	}
	panic(unsupported("Index"))
}

func (e *Engine) strIndex(x *Str, idx *Term) Value {
	if x.isRope() {
		// the first bytes of a rope are often fixed
		if v, ok := e.constOf(idx); ok {
			if len(x.parts) > 0 {
				p := x.parts[0]
				if p.cnt == nil && p.r == nil {
					b := e.partBytes(p)
					if int64(v) >= 0 && v < uint64(len(b)) {
						return b[v].t
					}
				}
			}
		}
		x = e.force(x)
	}
	n := x.fixedLen()
	e.boundsCheck(idx, n)
	if v, ok := e.constOf(idx); ok {
		return e.byteAt(x, int(v)).t
	}
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = e.byteAt(x, i).t
	}
	return e.tc.Lookup(idx, ts)
}

func (e *Engine) lookup(f *Frame, ci *CInstr) Value {
	switch x := f.get(&ci.a).(type) {
	case *Str:
		return e.strIndex(x, e.to64(f.term(&ci.b), ci.sg))
	case *MapObj:
		v, ok := e.mapLookup(x, f.get(&ci.b), ci.t)
		if ci.flag {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported("Lookup"))
}

const maxAlloc = 1 << 22

func (e *Engine) makeSlice(f *Frame, ci *CInstr) Value {
	l := e.to64(f.term(&ci.a), ci.sg)
	cp := f.term(&ci.b)
	if cp.w != 64 {
		cp = e.tc.Sext(cp, 64)
	}
	z := e.tc.Const(64, 0)
	if e.truth(e.tc.Slt(l, z)) {
		panic(e.rtPanic("makeslice: len out of range"))
	}
	if cp != l {
		if e.truth(e.tc.Slt(cp, l)) {
			panic(e.rtPanic("makeslice: cap out of range"))
		}
	}
	// an allocation beyond the address space panics; beyond the model's
	// memory it ends the path
	lim := e.tc.Const(64, uint64(math.MaxInt64/2)/uint64(max(ci.m, 1)*16))
	if e.truth(e.tc.Ult(lim, cp)) {
		panic(e.rtPanic("makeslice: cap out of range"))
	}
	n := int(e.concretize(l, "slice length"))
	c := n
	if v, ok := e.constOf(cp); ok && v <= 1<<16 {
		c = int(v)
	}
	if n > maxAlloc {
		panic(unsupported("very large allocation"))
	}
	return e.newSlice(ci.t, n, c)
}

func (e *Engine) newSlice(elem types.Type, n, c int) Slice {
	esz := e.flatSize(elem)
	one := e.zeroCells(elem, nil)
	cells := make([]Value, 0, c*esz)
	for i := 0; i < c; i++ {
		cells = append(cells, one...)
	}
	o := e.alloc(cells, "")
	o.elem = elem
	return Slice{obj: o, len: n, cap: c, esz: esz}
}

// matSlice turns a read-only byte view of a rope into a real slice.
func (e *Engine) matSlice(s Slice) Slice {
	return e.bytesOf(e.force(s.rope))
}

func (e *Engine) bytesOf(s *Str) Slice {
	if s.isRope() {
		return Slice{rope: s, esz: 1}
	}
	b := e.strBytes(s)
	cells := make([]Value, len(b))
	tags := false
	for i, x := range b {
		cells[i] = x.t
		if x.rt != nil {
			tags = true
		}
	}
	o := e.alloc(cells, "")
	if tags {
		o.tags = append([]SB{}, b...)
	}
	return Slice{obj: o, len: len(b), cap: len(b), esz: 1}
}

func (e *Engine) bytesToStr(s Slice) *Str {
	if s.rope != nil {
		return s.rope
	}
	if s.len == 0 {
		return emptyStr
	}
	e.noteRead(s.obj)
	e.access(Ptr{obj: s.obj, off: s.off}, false)
	out := make([]SB, s.len)
	for i := range out {
		t := s.obj.cells[s.off+i].(*Term)
		out[i] = SB{t: t}
		if s.obj.tags != nil && s.off+i < len(s.obj.tags) && s.obj.tags[s.off+i].t == t {
			out[i] = s.obj.tags[s.off+i]
		}
	}
	return e.mkBytes(out)
}

func (e *Engine) sliceLen(s Slice) *Term {
	if s.rope != nil {
		return e.strLen(s.rope)
	}
	return e.tc.Const(64, uint64(s.len))
}

func (e *Engine) sliceOp(f *Frame, ci *CInstr) Value {
	var lo, hi *Term
	c := e.tc
	if ci.flag {
		lo = e.to64s(f.term(&ci.b), ci.b, f)
	}
	if ci.n == 1 {
		hi = e.to64s(f.term(&ci.c), ci.c, f)
	}
	switch x := f.get(&ci.a).(type) {
	case *Str:
		if lo == nil {
			lo = c.Const(64, 0)
		}
		return e.strSlice(x, lo, hi)
	case Slice:
		if x.rope != nil {
			if ci.m == 0 {
				if lo == nil {
					lo = c.Const(64, 0)
				}
				s := e.strSlice(x.rope, lo, hi)
				return e.bytesOf(s)
			}
			x = e.matSlice(x)
		}
		l, h, m := 0, x.len, x.cap
		if ci.m == 1 {
			m = e.sliceBound(f.term(&ci.d), x.cap)
		}
		if hi != nil {
			h = e.sliceBound(hi, m)
		}
		if lo != nil {
			l = e.sliceBound(lo, h)
		} else if h < 0 {
			panic(e.rtPanic("slice bounds out of range"))
		}
		if x.obj == nil {
			return x
		}
		return Slice{obj: x.obj, off: x.off + l*x.esz, len: h - l, cap: m - l, esz: x.esz}
	case Ptr:
		if x.obj == nil {
			panic(e.rtPanic("invalid memory address or nil pointer dereference"))
		}
		x = e.resolve(x)
		arr := ci.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(arr.Len())
		l, h, m := 0, n, n
		if ci.m == 1 {
			m = e.sliceBound(f.term(&ci.d), n)
		}
		if hi != nil {
			h = e.sliceBound(hi, m)
		}
		if lo != nil {
			l = e.sliceBound(lo, h)
		}
		esz := e.flatSize(arr.Elem())
		return Slice{obj: x.obj, off: x.off + l*esz, len: h - l, cap: m - l, esz: esz}
	}
	panic(unsupported("slice operation"))
}

func (e *Engine) to64s(t *Term, o opnd, f *Frame) *Term {
	if t.w == 64 {
		return t
	}
	return e.tc.Sext(t, 64)
}

// sliceBound decides a slice bound within [0,max].
func (e *Engine) sliceBound(t *Term, mx int) int {
	if !t.isConst() {
		if e.truth(e.tc.Ult(e.tc.Const(64, uint64(mx)), t)) {
			panic(e.rtPanic("slice bounds out of range"))
		}
		return int(e.concretize(t, "slice bound"))
	}
	if t.c > uint64(mx) {
		panic(e.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", int64(t.c), mx)))
	}
	return int(t.c)
}

func (e *Engine) strSlice(x *Str, lo, hi *Term) *Str {
	if x.isRope() {
		if r, ok := e.ropeSlice(x, lo, hi); ok {
			return r
		}
		x = e.force(x)
	}
	h := x.fixedLen()
	if hi != nil {
		h = e.sliceBound(hi, h)
	}
	l := e.sliceBound(lo, h)
	return e.substr(x, l, h)
}

func (e *Engine) typeAssert(x Iface, ci *CInstr) Value {
	ok := false
	if x.t != nil {
		if it, isI := ci.t.Underlying().(*types.Interface); isI {
			ok = e.implements(x.t, it)
		} else {
			ok = types.Identical(x.t, ci.t)
		}
	}
	var v Value
	if ok {
		if _, isI := ci.t.Underlying().(*types.Interface); isI {
			v = x
		} else {
			v = x.v
		}
	}
	if ci.flag {
		if !ok {
			v = e.zero(ci.t)
		}
		return Tuple{v, e.tc.Bool(ok)}
	}
	if !ok {
		panic(e.rtPanic("interface conversion"))
	}
	return v
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if t == rtErrType {
		return it.NumMethods() <= 1 && (it.NumMethods() == 0 || it.Method(0).Name() == "Error")
	}
	return types.Implements(t, it)
}

// ---- ranges ----

func (e *Engine) rangeOver(v Value) Value {
	switch x := v.(type) {
	case *Str:
		return &StrIter{s: x}
	case *MapObj:
		it := &MapIter{m: x}
		if x != nil {
			e.mapRead(x)
			for _, en := range x.entries {
				if !en.dead {
					it.keys = append(it.keys, en)
				}
			}
		}
		return it
	}
	panic(unsupported(fmt.Sprintf("range over %T", v)))
}

func (e *Engine) next(f *Frame, ci *CInstr) Value {
	tt := ci.t.(*types.Tuple)
	switch it := f.get(&ci.a).(type) {
	case *StrIter:
		items := e.runeItems(it)
		if it.pos >= len(items) {
			return Tuple{e.tc.F, e.tc.Const(64, 0), e.tc.Const(32, 0)}
		}
		ri := items[it.pos]
		r := Tuple{e.tc.T, ri.off, ri.r}
		nx := *it
		nx.pos++
		f.regs[ci.a.r] = &nx
		return r
	case *MapIter:
		zk, zv := e.zeroOrNil(tt.At(1).Type()), e.zeroOrNil(tt.At(2).Type())
		// entries removed during the iteration are skipped
		var live []*mapEntry
		for _, k := range it.keys {
			if !k.dead {
				live = append(live, k)
			}
		}
		if len(live) == 0 {
			return Tuple{e.tc.F, zk, zv}
		}
		i := 0
		if len(live) > 1 && e.noTrail == 0 {
			// the order is unspecified: explore all orders of few entries
			if len(live) <= 4 {
				i = e.choose("maporder", len(live))
				e.mapOrd = true
			}
		}
		en := live[i]
		nx := &MapIter{m: it.m}
		for k, x := range live {
			if k != i {
				nx.keys = append(nx.keys, x)
			}
		}
		f.regs[ci.a.r] = nx
		return Tuple{e.tc.T, en.key, en.val}
	}
	panic(unsupported("next"))
}

func (e *Engine) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return e.zero(t)
}

// choose forks over 0..n-1 without a model-visible input.
func (e *Engine) choose(what string, n int) int {
	nm := fmt.Sprintf("%s!%d!%d", what, e.nchoice, n)
	e.nchoice++
	old := e.nchoice
	t := e.tc.Var(nm, 8, 0, uint64(n-1))
	_ = old
	defer func() {
		if r := recover(); r != nil {
			e.nchoice--
			panic(r)
		}
	}()
	v := int(e.concretize(t, what))
	e.pushUndo(func() { e.nchoice-- })
	return v
}

// ---- calls ----

func (e *Engine) callee(f *Frame, ci *CInstr) (Value, []Value) {
	if ci.call.IsInvoke() {
		x := f.get(&ci.a).(Iface)
		if x.t == nil {
			panic(e.rtPanic("invalid memory address or nil pointer dereference"))
		}
		fn := e.method(x.t, ci.call.Method)
		args := make([]Value, 0, len(ci.args)+1)
		args = append(args, x.v)
		for i := range ci.args {
			args = append(args, f.get(&ci.args[i]))
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, len(ci.args))
	for i := range ci.args {
		args[i] = f.get(&ci.args[i])
	}
	cl := f.get(&ci.a)
	c, ok := cl.(*Closure)
	if !ok || c == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	return c, args
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if fn := e.methods[k]; fn != nil {
		return fn
	}
	if t == rtErrType {
		panic(unsupported("method of a runtime error"))
	}
	e.ld.mu.Lock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.ld.mu.Unlock()
	if fn == nil {
		panic(unsupported("no method " + m.Name() + " on " + t.String()))
	}
	e.methods[k] = fn
	return fn
}

// call executes a call instruction; true if a frame was pushed.
func (e *Engine) call(f *Frame, ci *CInstr) bool {
	fv, args := e.callee(f, ci)
	cl := fv.(*Closure)
	if cl.bi != nil {
		v := e.builtin(f, cl.bi, args, ci)
		if ci.dst >= 0 {
			f.regs[ci.dst] = v
		}
		return false
	}
	return e.callFn(f, cl, args, ci.dst)
}

func (e *Engine) callFn(f *Frame, cl *Closure, args []Value, dst int) bool {
	fn := cl.fn
	if in := e.intrinsic(fn); in != nil {
		v := in(e, args)
		if tc, ok := v.(*tailCall); ok {
			nf := e.newFrame(tc.fn, tc.args, tc.free)
			nf.dst, nf.conv = dst, tc.conv
			f.ip++
			e.frames = append(e.frames, nf)
			return true
		}
		if dst >= 0 {
			f.regs[dst] = v
		}
		return false
	}
	c := e.cfn(fn)
	if len(e.frames) > 300 {
		panic(pathEnd{"incomplete", "call depth bound in " + e.where()})
	}
	if c.ours || c.path == "verif/harness/h" {
		e.funcs[c.name]++
	}
	if c.merge && e.noTrail == 0 {
		if v, ok := e.mergedCall(c, cl, args); ok {
			if dst >= 0 {
				f.regs[dst] = v
			}
			return false
		}
	}
	nf := e.newFrame(fn, args, cl.free)
	nf.dst = dst
	f.ip++
	e.frames = append(e.frames, nf)
	return true
}
