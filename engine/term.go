package main

// Symbolic terms: booleans (w == 0) and bit-vectors (w in 1..64), hash-consed.
//
// A term that depends on exactly one solver variable is, where possible, kept
// in "piecewise" form (OPW): a partition of that variable's range into
// intervals with one constant value each. Table lookups, character-class tests
// and comparisons against constants all stay in this form, so conditions over
// one code point or one byte are decided exactly by interval-set operations
// before a solver is asked.

import (
	"fmt"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low bits: extract(w-1..0)
	OPW
)

var opName = map[Op]string{OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

type PW struct {
	hi  []uint64 // inclusive upper ends, ascending, last = max of base width
	val []uint64
}

type Term struct {
	op      Op
	w       uint8
	mono    bool // nondecreasing (unsigned, no wrap) function of uv over uv's declared domain
	id      int32
	c       uint64 // constant value
	a, b, d *Term
	lo, hi  uint64 // static unsigned range
	uv      *Term  // the single variable this term depends on, nil if constant or several
	multi   bool   // depends on several variables
	pw      *PW
	name    string
	// OVar
	dlo, dhi uint64
	emitted  int32 // solver generation that has this term's definition
	sz       int32
}

type tkey struct {
	op      Op
	w       uint8
	a, b, d int32
	c       uint64
}

type TermCtx struct {
	tab    map[tkey]*Term
	consts [65]map[uint64]*Term
	small  [65][]*Term
	pws    map[[2]uint64][]*Term
	vars   map[string]*Term
	nextID int32
	T, F   *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}, pws: map[[2]uint64][]*Term{}, vars: map[string]*Term{}}
	c.F = &Term{op: OConst, w: 0, c: 0, id: c.nid()}
	c.T = &Term{op: OConst, w: 0, c: 1, lo: 1, hi: 1, id: c.nid()}
	return c
}

func (c *TermCtx) nid() int32 { c.nextID++; return c.nextID }

func maskOf(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return c.T
		}
		return c.F
	}
	v &= maskOf(w)
	if v < 1024 {
		s := c.small[w]
		if s == nil {
			s = make([]*Term, 1024)
			c.small[w] = s
		}
		if s[v] == nil {
			s[v] = &Term{op: OConst, w: w, c: v, lo: v, hi: v, id: c.nid(), sz: 1}
		}
		return s[v]
	}
	m := c.consts[w]
	if m == nil {
		m = map[uint64]*Term{}
		c.consts[w] = m
	}
	t := m[v]
	if t == nil {
		t = &Term{op: OConst, w: w, c: v, lo: v, hi: v, id: c.nid(), sz: 1}
		m[v] = t
	}
	return t
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.c == 1 && t.w == 0 }
func (t *Term) isFalse() bool { return t.op == OConst && t.c == 0 && t.w == 0 }
func (t *Term) nonneg() bool  { return t.hi < 1<<(t.w-1) }

// Var declares (or returns) a solver variable of width w with domain [lo,hi].
func (c *TermCtx) Var(name string, w uint8, lo, hi uint64) *Term {
	if v := c.vars[name]; v != nil {
		if v.w != w || v.dlo != lo || v.dhi != hi {
			panic(fmt.Sprintf("variable %s redeclared", name))
		}
		return v
	}
	t := &Term{op: OVar, w: w, lo: lo, hi: hi, dlo: lo, dhi: hi, name: name, id: c.nid(), mono: true, sz: 1}
	if w == 0 {
		t.lo, t.hi = 0, 1
		t.dlo, t.dhi = 0, 1
	}
	t.uv = t
	c.vars[name] = t
	return t
}

func bitsFor(v uint64) uint8 {
	n := uint8(bits.Len64(v))
	if n == 0 {
		n = 1
	}
	return n
}

// ---- evaluation ----

func boolv(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(op Op, w, aw uint8, a, b, d uint64) uint64 {
	m := maskOf(w)
	switch op {
	case ONot:
		return 1 - a
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OIte:
		if a != 0 {
			return b
		}
		return d
	case OEq:
		return boolv(a == b)
	case OUlt:
		return boolv(a < b)
	case OUle:
		return boolv(a <= b)
	case OSlt:
		return boolv(sext64(a, aw) < sext64(b, aw))
	case OSle:
		return boolv(sext64(a, aw) <= sext64(b, aw))
	case OAdd:
		return (a + b) & m
	case OMul:
		return (a * b) & m
	case OUdiv:
		if b == 0 {
			return m
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSrem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OZext:
		return a
	case OSext:
		return uint64(sext64(a, aw)) & m
	case OExtract:
		return a & m
	}
	panic("evalOp")
}

func (p *PW) at(x uint64) uint64 {
	i := sort.Search(len(p.hi), func(i int) bool { return p.hi[i] >= x })
	return p.val[i]
}

// evalU evaluates a term that depends on at most one variable at value x.
func evalU(t *Term, x uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return x
	case OPW:
		return t.pw.at(x)
	}
	var a, b, d uint64
	a = evalU(t.a, x)
	if t.op == OIte {
		if a != 0 {
			return evalU(t.b, x)
		}
		return evalU(t.d, x)
	}
	if t.b != nil {
		b = evalU(t.b, x)
	}
	if t.d != nil {
		d = evalU(t.d, x)
	}
	return evalOp(t.op, t.w, t.a.w, a, b, d)
}

// Eval evaluates a term under a model (missing variables take their lower bound).
func (c *TermCtx) Eval(t *Term, m map[*Term]uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		if v, ok := m[t]; ok {
			return v
		}
		return t.dlo
	case OPW:
		return t.pw.at(c.Eval(t.a, m, memo))
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	a := c.Eval(t.a, m, memo)
	switch t.op {
	case OIte:
		if a != 0 {
			r = c.Eval(t.b, m, memo)
		} else {
			r = c.Eval(t.d, m, memo)
		}
	case OAnd:
		if a == 0 {
			r = 0
		} else {
			r = c.Eval(t.b, m, memo)
		}
	case OOr:
		if a == 1 {
			r = 1
		} else {
			r = c.Eval(t.b, m, memo)
		}
	default:
		var b, d uint64
		if t.b != nil {
			b = c.Eval(t.b, m, memo)
		}
		if t.d != nil {
			d = c.Eval(t.d, m, memo)
		}
		r = evalOp(t.op, t.w, t.a.w, a, b, d)
	}
	memo[t] = r
	return r
}

// ---- piecewise ----

const maxParts = 40000

type pwb struct {
	hi, val []uint64
}

func (p *pwb) add(hi, val uint64) {
	n := len(p.hi)
	if n > 0 && p.val[n-1] == val {
		p.hi[n-1] = hi
		return
	}
	p.hi = append(p.hi, hi)
	p.val = append(p.val, val)
}

// mkPW builds the canonical term for a piecewise function of base.
func (c *TermCtx) mkPW(base *Term, w uint8, hi, val []uint64) *Term {
	// clip to the declared domain so that equal functions are equal terms
	var p pwb
	top := maskOf(base.w)
	for i := range hi {
		if hi[i] < base.dlo {
			continue
		}
		h := hi[i]
		if h >= base.dhi {
			p.add(top, val[i])
			break
		}
		p.add(h, val[i])
	}
	if len(p.hi) == 1 {
		return c.Const(w, p.val[0])
	}
	// hash
	h1, h2 := uint64(1469598103934665603), uint64(0x9E3779B97F4A7C15)
	mix := func(x uint64) {
		h1 = (h1 ^ x) * 1099511628211
		h2 = bits.RotateLeft64(h2^x, 23)*0xff51afd7ed558ccd + 0x2545F4914F6CDD1D
	}
	mix(uint64(base.id))
	mix(uint64(w))
	for i := range p.hi {
		mix(p.hi[i])
		mix(p.val[i])
	}
	k := [2]uint64{h1, h2}
outer:
	for _, t := range c.pws[k] {
		if t.a != base || t.w != w || len(t.pw.hi) != len(p.hi) {
			continue
		}
		for i := range p.hi {
			if t.pw.hi[i] != p.hi[i] || t.pw.val[i] != p.val[i] {
				continue outer
			}
		}
		return t
	}
	// identity on a bool variable
	t := &Term{op: OPW, w: w, a: base, uv: base, pw: &PW{p.hi, p.val}, id: c.nid(), sz: 1}
	if base.w == 0 && w == 0 && len(p.hi) == 2 && p.val[0] == 0 {
		return base
	}
	t.lo, t.hi = ^uint64(0), 0
	t.mono = true
	for i, v := range p.val {
		if v < t.lo {
			t.lo = v
		}
		if v > t.hi {
			t.hi = v
		}
		if i > 0 && p.val[i-1] > v {
			t.mono = false
		}
	}
	c.pws[k] = append(c.pws[k], t)
	return t
}

// isP reports whether t is a constant or piecewise over base.
func isP(t, base *Term) bool {
	return t.op == OConst || (t.op == OPW && t.a == base)
}

func (c *TermCtx) parts(t, base *Term) ([]uint64, []uint64) {
	if t.op == OConst {
		return []uint64{maskOf(base.w)}, []uint64{t.c}
	}
	return t.pw.hi, t.pw.val
}

// combine builds op over piecewise/constant arguments of one base variable.
func (c *TermCtx) combine(op Op, w uint8, base *Term, a, b, d *Term) *Term {
	aw := a.w
	ah, av := c.parts(a, base)
	if b == nil {
		var p pwb
		for i := range ah {
			p.add(ah[i], evalOp(op, w, aw, av[i], 0, 0))
		}
		return c.mkPW(base, w, p.hi, p.val)
	}
	bh, bv := c.parts(b, base)
	var dh, dv []uint64
	if d != nil {
		dh, dv = c.parts(d, base)
	} else {
		dh, dv = []uint64{maskOf(base.w)}, []uint64{0}
	}
	var p pwb
	i, j, k := 0, 0, 0
	top := maskOf(base.w)
	for {
		h := min(ah[i], bh[j], dh[k])
		p.add(h, evalOp(op, w, aw, av[i], bv[j], dv[k]))
		if len(p.hi) > maxParts {
			return nil
		}
		if h == top {
			break
		}
		if ah[i] == h {
			i++
		}
		if bh[j] == h {
			j++
		}
		if dh[k] == h {
			k++
		}
	}
	return c.mkPW(base, w, p.hi, p.val)
}

// cmpPW turns a comparison of a monotone term with a constant into a
// piecewise boolean. swap: constant on the left.
func (c *TermCtx) cmpPW(op Op, t *Term, k uint64, swap bool) *Term {
	x := t.uv
	if x == nil || !t.mono {
		return nil
	}
	ev := func(v uint64) uint64 {
		tv := evalU(t, v)
		if swap {
			return evalOp(op, 0, t.w, k, tv, 0)
		}
		return evalOp(op, 0, t.w, tv, k, 0)
	}
	type seg struct{ lo, hi uint64 }
	var segs []seg
	if op == OSlt || op == OSle {
		if t.hi < 1<<(t.w-1) {
			segs = []seg{{x.dlo, x.dhi}}
		} else if t == x {
			half := uint64(1) << (t.w - 1)
			if x.dlo < half {
				segs = append(segs, seg{x.dlo, min(x.dhi, half-1)})
			}
			if x.dhi >= half {
				segs = append(segs, seg{max(x.dlo, half), x.dhi})
			}
		} else {
			return nil
		}
	} else {
		segs = []seg{{x.dlo, x.dhi}}
	}
	var p pwb
	for _, s := range segs {
		if op == OEq {
			// first x with t(x) >= k, first x with t(x) > k
			n := s.hi - s.lo + 1
			if n == 0 {
				return nil
			}
			f := func(pred func(v uint64) bool) uint64 {
				i, j := uint64(0), n
				for i < j {
					m := i + (j-i)/2
					if !pred(s.lo + m) {
						i = m + 1
					} else {
						j = m
					}
				}
				return i
			}
			a := f(func(v uint64) bool { return evalU(t, v) >= k })
			b := f(func(v uint64) bool { return evalU(t, v) > k })
			if a > 0 {
				p.add(s.lo+a-1, 0)
			}
			if b > a {
				p.add(s.lo+b-1, 1)
			}
			if b < n {
				p.add(s.hi, 0)
			}
			continue
		}
		first, last := ev(s.lo), ev(s.hi)
		if first == last {
			p.add(s.hi, first)
			continue
		}
		i, j := s.lo, s.hi // ev(i)==first, ev(j)==last
		for j-i > 1 {
			m := i + (j-i)/2
			if ev(m) == first {
				i = m
			} else {
				j = m
			}
		}
		p.add(i, first)
		p.add(s.hi, last)
	}
	if x.dhi != maskOf(x.w) {
		p.hi[len(p.hi)-1] = maskOf(x.w)
	}
	return c.mkPW(x, 0, p.hi, p.val)
}

// tabulate turns a term over one variable of at most 8 bits into piecewise form.
func (c *TermCtx) tabulate(op Op, w uint8, a, b, d *Term, uv *Term) *Term {
	var p pwb
	for x := uv.dlo; x <= uv.dhi; x++ {
		var av, bv, dv uint64
		av = evalU(a, x)
		if b != nil {
			bv = evalU(b, x)
		}
		if d != nil {
			dv = evalU(d, x)
		}
		p.add(x, evalOp(op, w, a.w, av, bv, dv))
	}
	if w != 0 && len(p.hi) > 64 {
		return nil
	}
	p.hi[len(p.hi)-1] = maskOf(uv.w)
	return c.mkPW(uv, w, p.hi, p.val)
}

// ---- constructor ----

func (c *TermCtx) mk(op Op, w uint8, a, b, d *Term) *Term {
	// constant folding
	if a.op == OConst && (b == nil || b.op == OConst) && (d == nil || d.op == OConst) {
		var bv, dv uint64
		if b != nil {
			bv = b.c
		}
		if d != nil {
			dv = d.c
		}
		return c.Const(w, evalOp(op, w, a.w, a.c, bv, dv))
	}
	// single-variable normalisation
	var uv *Term
	multi := false
	for _, t := range [...]*Term{a, b, d} {
		if t == nil || t.op == OConst {
			continue
		}
		if t.uv == nil {
			multi = true
		} else if uv == nil {
			uv = t.uv
		} else if uv != t.uv {
			multi = true
		}
	}
	if multi {
		uv = nil
	}
	if uv != nil {
		if isP(a, uv) && (b == nil || isP(b, uv)) && (d == nil || isP(d, uv)) {
			if r := c.combine(op, w, uv, a, b, d); r != nil {
				return r
			}
		} else if op >= OEq && op <= OSle {
			if b.op == OConst {
				if r := c.cmpPW(op, a, b.c, false); r != nil {
					return r
				}
			} else if a.op == OConst {
				if r := c.cmpPW(op, b, a.c, true); r != nil {
					return r
				}
			}
		}
		if uv.w <= 8 && op != OZext {
			if r := c.tabulate(op, w, a, b, d, uv); r != nil {
				return r
			}
		}
	}
	k := tkey{op: op, w: w, a: a.id}
	if b != nil {
		k.b = b.id
	}
	if d != nil {
		k.d = d.id
	}
	if t := c.tab[k]; t != nil {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, d: d, id: c.nid(), uv: uv, multi: multi}
	t.sz = a.sz + 1
	if b != nil {
		t.sz += b.sz
	}
	if d != nil {
		t.sz += d.sz
	}
	if t.sz > 1<<28 {
		t.sz = 1 << 28
	}
	t.lo, t.hi = rangeOf(op, w, a, b, d)
	if uv != nil {
		switch op {
		case OZext:
			t.mono = a.mono
		case OSext:
			t.mono = a.mono && a.hi < 1<<(a.w-1)
		case OExtract:
			t.mono = a.mono && a.hi <= maskOf(w)
		case OAdd:
			// no wrap
			if b.op == OConst && a.hi <= maskOf(w)-b.c {
				t.mono = a.mono
			}
		case OLshr:
			t.mono = a.mono && b.op == OConst
		}
	}
	if t.w > 0 && t.lo == t.hi {
		return c.Const(w, t.lo)
	}
	c.tab[k] = t
	return t
}

func rangeOf(op Op, w uint8, a, b, d *Term) (uint64, uint64) {
	m := maskOf(w)
	switch op {
	case OZext:
		return a.lo, a.hi
	case OSext:
		if a.hi < 1<<(a.w-1) {
			return a.lo, a.hi
		}
		if a.lo >= 1<<(a.w-1) {
			return uint64(sext64(a.lo, a.w)) & m, uint64(sext64(a.hi, a.w)) & m
		}
	case OExtract:
		if a.hi <= m {
			return a.lo, a.hi
		}
	case OAdd:
		h, cy := bits.Add64(a.hi, b.hi, 0)
		if cy == 0 && h <= m {
			return a.lo + b.lo, h
		}
		l, cy2 := bits.Add64(a.lo, b.lo, 0)
		if w == 64 {
			if cy2 == 1 { // both ends wrap
				return l, h
			}
		} else if l > m && a.hi+b.hi <= 2*m+1 {
			return l & m, h & m
		}
	case OMul:
		hh, l := bits.Mul64(a.hi, b.hi)
		if hh == 0 && l <= m {
			return a.lo * b.lo, l
		}
	case OUdiv:
		if b.lo > 0 {
			return a.lo / b.hi, a.hi / b.lo
		}
	case OUrem:
		if b.lo > 0 {
			if a.hi < b.lo {
				return a.lo, a.hi
			}
			return 0, min(a.hi, b.hi-1)
		}
		return 0, a.hi
	case OBand:
		return 0, min(a.hi, b.hi)
	case OBor:
		n := bitsFor(max(a.hi, b.hi))
		return max(a.lo, b.lo), maskOf(n)
	case OBxor:
		n := bitsFor(max(a.hi, b.hi))
		return 0, maskOf(n)
	case OShl:
		if b.op == OConst && b.c < uint64(w) && a.hi <= m>>b.c {
			return a.lo << b.c, a.hi << b.c
		}
	case OLshr:
		if b.op == OConst {
			if b.c >= uint64(w) {
				return 0, 0
			}
			return a.lo >> b.c, a.hi >> b.c
		}
		return 0, a.hi
	case OIte:
		return min(b.lo, d.lo), max(b.hi, d.hi)
	}
	return 0, m
}

// ---- booleans ----

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.F
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.T
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil)
}

func (c *TermCtx) AndAll(ts ...*Term) *Term {
	r := c.T
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}

func (c *TermCtx) Ite(a, b, d *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() {
		return d
	}
	if b == d {
		return b
	}
	if a.op == ONot {
		return c.Ite(a.a, d, b)
	}
	if b.w == 0 {
		if b.isTrue() {
			return c.Or(a, d)
		}
		if b.isFalse() {
			return c.And(c.Not(a), d)
		}
		if d.isFalse() {
			return c.And(a, b)
		}
		if d.isTrue() {
			return c.Or(c.Not(a), b)
		}
	}
	if b.op == OIte && b.a == a {
		b = b.b
	}
	if d.op == OIte && d.a == a {
		d = d.d
	}
	if b == d {
		return b
	}
	return c.mk(OIte, b.w, a, b, d)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, a, b, nil)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.F
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.c-a.b.c))
			}
		case OZext:
			if b.c > maskOf(a.a.w) {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, b.c))
		case OSext:
			if v := c.Const(a.a.w, b.c); c.Sext(v, a.w) == b {
				return c.Eq(a.a, v)
			}
			return c.F
		case OIte:
			if a.b.isConst() || a.d.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.d, b))
			}
		}
	} else if a.op == OZext && b.op == OZext {
		w := max(a.a.w, b.a.w)
		return c.Eq(c.Zext(a.a, w), c.Zext(b.a, w))
	} else if a.op == OAdd && b.op == OAdd && a.b == b.b {
		return c.Eq(a.a, b.a)
	} else if k := bitsFor(max(a.hi, b.hi)); k <= 32 && a.w > roundW(k) {
		return c.Eq(c.Extract(a, roundW(k)), c.Extract(b, roundW(k)))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil)
}

func roundW(k uint8) uint8 {
	switch {
	case k <= 8:
		return 8
	case k <= 16:
		return 16
	case k <= 24:
		return 24
	case k <= 32:
		return 32
	}
	return 64
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b || a.lo >= b.hi {
		return c.F
	}
	if a.hi < b.lo {
		return c.T
	}
	if !a.isConst() && !b.isConst() {
		if k := bitsFor(max(a.hi, b.hi)); k <= 32 && a.w > roundW(k) {
			return c.Ult(c.Extract(a, roundW(k)), c.Extract(b, roundW(k)))
		}
	} else if a.isConst() && b.op == OZext {
		return c.Ult(c.Const(b.a.w, a.c), b.a) // a < b.hi holds here
	} else if b.isConst() && a.op == OZext && b.c <= maskOf(a.a.w) {
		return c.Ult(a.a, c.Const(a.a.w, b.c))
	}
	return c.mk(OUlt, 0, a, b, nil)
}

func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.nonneg() && b.nonneg() {
		return c.Ult(a, b)
	}
	half := uint64(1) << (a.w - 1)
	if a.lo >= half && b.lo >= half {
		return c.Ult(a, b)
	}
	if a.lo >= half && b.nonneg() {
		return c.T
	}
	if a.nonneg() && b.lo >= half {
		return c.F
	}
	return c.mk(OSlt, 0, a, b, nil)
}

func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- arithmetic ----

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if a.op == OAdd && a.b.isConst() {
			return c.Add(a.a, c.Const(a.w, a.b.c+b.c))
		}
		if a.op == OIte && a.b.isConst() && a.d.isConst() {
			return c.Ite(a.a, c.Add(a.b, b), c.Add(a.d, b))
		}
	} else {
		// keep constants outermost
		if a.op == OAdd && a.b.isConst() {
			return c.Add(c.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return c.Add(c.Add(a, b.a), b.b)
		}
		// x + (-1)*x
		if na := c.negArg(a); na == b {
			return c.Const(a.w, 0)
		}
		if nb := c.negArg(b); nb == a {
			return c.Const(a.w, 0)
		} else if nb != nil && a.op == OAdd {
			// (p + q) - q
			if a.a == nb {
				return a.b
			}
			if a.b == nb {
				return a.a
			}
		} else if na := c.negArg(a); na != nil && b.op == OAdd {
			if b.a == na {
				return b.b
			}
			if b.b == na {
				return b.a
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OAdd, a.w, a, b, nil)
}

func (c *TermCtx) negArg(a *Term) *Term {
	if a.op == OMul && a.b.isConst() && a.b.c == maskOf(a.w) {
		return a.a
	}
	return nil
}

func (c *TermCtx) Neg(a *Term) *Term { return c.Mul(a, c.Const(a.w, maskOf(a.w))) }

func (c *TermCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.Const(a.w, -b.c))
	}
	r := c.Add(a, c.Neg(b))
	// the range of a difference known not to wrap
	if r.op == OAdd && a.lo >= b.hi && (r.lo != a.lo-b.hi || r.hi != a.hi-b.lo) {
		r.lo = max(r.lo, a.lo-b.hi)
		r.hi = min(r.hi, a.hi-b.lo)
	}
	return r
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if b.c == 0 {
			return b
		}
		if b.c == 1 {
			return a
		}
		if a.op == OMul && a.b.isConst() {
			return c.Mul(a.a, c.Const(a.w, a.b.c*b.c))
		}
		if a.op == OAdd && a.b.isConst() {
			return c.Add(c.Mul(a.a, b), c.Const(a.w, a.b.c*b.c))
		}
		if b.c == maskOf(a.w) && a.op == OAdd {
			return c.Add(c.Neg(a.a), c.Neg(a.b))
		}
	} else {
		if k := bitsFor(a.hi) + bitsFor(b.hi); k <= 32 && a.w > roundW(k) {
			w := roundW(k)
			return c.Zext(c.Mul(c.Extract(a, w), c.Extract(b, w)), a.w)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OMul, a.w, a, b, nil)
}

func (c *TermCtx) Div(op Op, a, b *Term) *Term { // OUdiv,OSdiv,OUrem,OSrem
	if a.nonneg() && b.nonneg() {
		if op == OSdiv {
			op = OUdiv
		}
		if op == OSrem {
			op = OUrem
		}
	}
	if b.isConst() && b.c == 1 {
		if op == OUdiv || op == OSdiv {
			return a
		}
		return c.Const(a.w, 0)
	}
	if op == OUdiv && b.lo > a.hi {
		return c.Const(a.w, 0)
	}
	if op == OUrem && b.lo > a.hi {
		return a
	}
	if op == OUdiv || op == OUrem {
		if k := bitsFor(max(a.hi, b.hi)); k <= 32 && a.w > roundW(k) && b.lo > 0 {
			w := roundW(k)
			return c.Zext(c.Div(op, c.Extract(a, w), c.Extract(b, w)), a.w)
		}
	}
	return c.mk(op, a.w, a, b, nil)
}

func (c *TermCtx) Bit(op Op, a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	m := maskOf(a.w)
	if b.isConst() {
		switch op {
		case OBand:
			if b.c == 0 {
				return b
			}
			if b.c == m || (b.c&(b.c+1) == 0 && a.hi <= b.c) {
				return a
			}
			if b.c&(b.c+1) == 0 { // low mask
				k := uint8(bits.Len64(b.c))
				return c.Zext(c.Extract(a, k), a.w)
			}
		case OBor, OBxor:
			if b.c == 0 {
				return a
			}
			if op == OBor && b.c == m {
				return b
			}
		}
	} else {
		if a == b {
			if op == OBxor {
				return c.Const(a.w, 0)
			}
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, a.w, a, b, nil)
}

func (c *TermCtx) Shift(op Op, a, b *Term) *Term { // b has a's width
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		if op == OAshr && a.nonneg() {
			op = OLshr
		}
		if (op == OShl || op == OLshr) && b.c >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
	} else if op == OAshr && a.nonneg() {
		op = OLshr
	}
	return c.mk(op, a.w, a, b, nil)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext")
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	return c.mk(OZext, w, a, nil, nil)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.nonneg() {
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, a, nil, nil)
}

func (c *TermCtx) Extract(a *Term, w uint8) *Term { // low w bits
	if a.w == w {
		return a
	}
	if a.w < w {
		panic("extract")
	}
	switch a.op {
	case OZext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w < w {
			return c.Zext(a.a, w)
		}
		return c.Extract(a.a, w)
	case OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Extract(a.a, w)
		}
	case OExtract:
		return c.Extract(a.a, w)
	case OAdd:
		return c.Add(c.Extract(a.a, w), c.Extract(a.b, w))
	case OMul:
		return c.Mul(c.Extract(a.a, w), c.Extract(a.b, w))
	case OBand, OBor, OBxor:
		return c.Bit(a.op, c.Extract(a.a, w), c.Extract(a.b, w))
	case OIte:
		return c.Ite(a.a, c.Extract(a.b, w), c.Extract(a.d, w))
	}
	return c.mk(OExtract, w, a, nil, nil)
}

// Lookup builds vals[idx] (all vals of width w), idx assumed in range.
func (c *TermCtx) Lookup(idx *Term, vals []*Term) *Term {
	if idx.isConst() {
		return vals[idx.c]
	}
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(vals)) {
		hi = uint64(len(vals)) - 1
	}
	if lo > hi {
		return vals[hi]
	}
	w := vals[0].w
	allConst := true
	for i := lo; i <= hi; i++ {
		if !vals[i].isConst() {
			allConst = false
			break
		}
	}
	if allConst && idx.op == OPW {
		var p pwb
		for i := range idx.pw.hi {
			v := idx.pw.val[i]
			if v >= uint64(len(vals)) {
				v = uint64(len(vals)) - 1
			}
			p.add(idx.pw.hi[i], vals[v].c)
		}
		return c.mkPW(idx.a, w, p.hi, p.val)
	}
	if allConst && idx.uv != nil && idx.mono {
		x := idx.uv
		var p pwb
		// runs of equal values
		start := x.dlo
		for i := lo; i <= hi; {
			j := i
			for j < hi && vals[j+1] == vals[i] {
				j++
			}
			// last x with idx(x) <= j
			if j == hi {
				p.add(maskOf(x.w), vals[i].c)
				break
			}
			a, b := start, x.dhi
			// find last x in [a-?, b] with evalU<=j
			if evalU(idx, a) <= j {
				for a < b {
					m := a + (b-a+1)/2
					if evalU(idx, m) <= j {
						a = m
					} else {
						b = m - 1
					}
				}
				p.add(a, vals[i].c)
				start = a
				if a == x.dhi {
					p.hi[len(p.hi)-1] = maskOf(x.w)
					break
				}
				start = a + 1
			}
			i = j + 1
		}
		return c.mkPW(x, w, p.hi, p.val)
	}
	return c.lookupTree(idx, vals, lo, hi)
}

func (c *TermCtx) lookupTree(idx *Term, vals []*Term, lo, hi uint64) *Term {
	if lo == hi {
		return vals[lo]
	}
	same := true
	for i := lo + 1; i <= hi; i++ {
		if vals[i] != vals[lo] {
			same = false
			break
		}
	}
	if same {
		return vals[lo]
	}
	m := lo + (hi-lo)/2
	return c.Ite(c.Ule(idx, c.Const(idx.w, m)), c.lookupTree(idx, vals, lo, m), c.lookupTree(idx, vals, m+1, hi))
}

// String is for debugging.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		return fmt.Sprint(sext64(t.c, max(t.w, 1)))
	case OVar:
		return t.name
	case OPW:
		return fmt.Sprintf("pw%d(%s)", len(t.pw.hi), t.a.name)
	}
	if d > 8 {
		return "…"
	}
	n := opName[t.op]
	switch t.op {
	case ONot:
		n = "not"
	case OIte:
		n = "ite"
	case OZext:
		n = "zx"
	case OSext:
		n = "sx"
	case OExtract:
		n = "ex"
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.d} {
		if x != nil {
			s += " " + x.str(d+1)
		}
	}
	return s + ")"
}
