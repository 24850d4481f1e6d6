package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
)

// Integer encoding of queries that are about widths, counts and lengths: every
// bit-vector term is represented by a mathematical integer congruent to it
// modulo 2^w, kept as a linear form over atoms together with static bounds.
// Values are brought back into range where an operation looks at them
// (comparison, extension, division), so the encoding is exact; where it cannot
// be, the query goes to the bit-vector encoding instead. Comparisons of a
// quotient with a constant are turned into linear ones: a/b < m iff a < m*b.

const intLim = int64(1) << 62

type intFail struct{ why string }

type atomKind uint8

const (
	aVar atomKind = iota
	aIte
	aDiv  // truncated quotient of two forms
	aExpr // other expression over forms
)

type iatom struct {
	kind   atomKind
	lo, hi int64
	name   string // aVar; emitted name otherwise
	cond   string
	x, y   *iform
	uns    bool
	op     string
	alo    int64 // lower bound that the query's own conditions imply
	div    bool  // contains a quotient with a symbolic divisor
}

type iform struct {
	k      int64
	c      map[int]int64
	lo, hi int64
}

type intEnc struct {
	s     *Solver
	buf   bytes.Buffer
	atoms []*iatom
	vals  map[*Term]*iform
	conds map[*Term]string
	dom   map[*Term][]rgn
	vars  []*Term
	nn    int
	cost  int
	sums  []sumBound
	open  bool // some values are left open: unsat is exact, a model has to be checked
}

func chk(x int64) int64 {
	if x > intLim || x < -intLim {
		panic(intFail{"site 1"})
	}
	return x
}

func mulChk(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || a == -intLim*2 {
		panic(intFail{"site 2"})
	}
	return chk(r)
}

func iconst(k int64) *iform { return &iform{k: chk(k), lo: k, hi: k} }

func (en *intEnc) atomForm(a *iatom) *iform {
	en.atoms = append(en.atoms, a)
	if len(en.atoms) > 20000 {
		panic(intFail{"site 3"})
	}
	chk(a.lo)
	chk(a.hi)
	a.alo = a.lo
	return &iform{c: map[int]int64{len(en.atoms) - 1: 1}, lo: a.lo, hi: a.hi}
}

// comb is x + m*y with bounds from the atoms.
func (en *intEnc) comb(x *iform, m int64, y *iform) *iform {
	r := &iform{k: chk(x.k + mulChk(m, y.k))}
	if len(x.c)+len(y.c) > 0 {
		r.c = make(map[int]int64, len(x.c)+len(y.c))
		for a, c := range x.c {
			r.c[a] = c
		}
		for a, c := range y.c {
			n := chk(r.c[a] + mulChk(m, c))
			if n == 0 {
				delete(r.c, a)
			} else {
				r.c[a] = n
			}
		}
	}
	r.lo, r.hi = r.k, r.k
	for a, c := range r.c {
		at := en.atoms[a]
		if c > 0 {
			r.lo = chk(r.lo + mulChk(c, at.lo))
			r.hi = chk(r.hi + mulChk(c, at.hi))
		} else {
			r.lo = chk(r.lo + mulChk(c, at.hi))
			r.hi = chk(r.hi + mulChk(c, at.lo))
		}
	}
	return r
}

// alo is a lower bound of f under the conditions of the query.
func (en *intEnc) alo(f *iform) int64 {
	r := f.k
	for a, c := range f.c {
		at := en.atoms[a]
		if c > 0 {
			r = chk(r + mulChk(c, at.alo))
		} else {
			r = chk(r + mulChk(c, at.hi))
		}
	}
	r = max(r, f.lo)
	for _, s := range en.sums {
		if d, ok := sameForm(f, s.f); ok {
			r = max(r, s.lo+d)
		}
	}
	return r
}

// bounds notes lower bounds that whole conditions state. They are used only to
// know divisors positive; the conditions themselves stay in the query.
func (en *intEnc) bounds(c *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(intFail); !ok {
				panic(r)
			}
		}
	}()
	neg := false
	for c.op == ONot {
		neg = !neg
		c = c.a
	}
	if c.op == OAnd && !neg {
		en.bounds(c.a)
		en.bounds(c.b)
		return
	}
	if c.op == OOr && neg {
		en.bounds(en.s.ctx.Not(c.a))
		en.bounds(en.s.ctx.Not(c.b))
		return
	}
	var x *Term
	var lo int64
	switch {
	case c.op == OSlt && neg && c.b.isConst(): // x >= k
		x, lo = c.a, sext64(c.b.c, c.b.w)
	case c.op == OSlt && !neg && c.a.isConst(): // k < x
		x, lo = c.b, sext64(c.a.c, c.a.w)+1
	case c.op == OSle && !neg && c.a.isConst():
		x, lo = c.b, sext64(c.a.c, c.a.w)
	case c.op == OEq && neg && c.b.isConst() && c.b.c == 0 && c.a.w >= 8:
		x, lo = c.a, 1
	case c.op == OEq && neg && c.a.isConst() && c.a.c == 0 && c.b.w >= 8:
		x, lo = c.b, 1
	default:
		return
	}
	f := en.val(x)
	if c.op == OEq && f.lo < 0 {
		return
	}
	// x = m*a + rest: a bound on a single positive atom
	if len(f.c) == 1 {
		for a, m := range f.c {
			if m == 1 {
				en.atLeast(a, lo-f.k)
			}
		}
		return
	}
	// a sum of non-negative atoms that is positive: keep as a bound of the sum
	en.sums = append(en.sums, sumBound{f, lo})
}

// atLeast notes that atom a is at least lo; when a is a choice and one side
// cannot be that large, the other side is the one taken.
func (en *intEnc) atLeast(a int, lo int64) {
	at := en.atoms[a]
	at.alo = max(at.alo, lo)
	if at.kind != aIte {
		return
	}
	for i, f := range []*iform{at.x, at.y} {
		o := at.y
		if i == 1 {
			o = at.x
		}
		if o == nil || f == nil || o.hi >= lo || len(f.c) != 1 {
			continue
		}
		for b, m := range f.c {
			if m == 1 {
				en.atLeast(b, lo-f.k)
			}
		}
	}
}

type sumBound struct {
	f  *iform
	lo int64
}

func sameForm(f, g *iform) (int64, bool) {
	if len(f.c) != len(g.c) {
		return 0, false
	}
	for a, c := range f.c {
		if g.c[a] != c {
			return 0, false
		}
	}
	return f.k - g.k, true
}

func (f *iform) isConst() bool { return len(f.c) == 0 }

func istr(k int64) string {
	if k < 0 {
		return "(- " + strconv.FormatInt(-k, 10) + ")"
	}
	return strconv.FormatInt(k, 10)
}

func (en *intEnc) fresh() string {
	en.nn++
	return "i" + strconv.Itoa(en.nn)
}

// emit returns an SMT integer expression for a form.
func (en *intEnc) emit(f *iform) string {
	if len(f.c) == 0 {
		return istr(f.k)
	}
	var ids []int
	for a := range f.c {
		ids = append(ids, a)
	}
	sort.Ints(ids)
	var ps []string
	if f.k != 0 {
		ps = append(ps, istr(f.k))
	}
	for _, a := range ids {
		n := en.atomName(en.atoms[a])
		switch c := f.c[a]; c {
		case 1:
			ps = append(ps, n)
		default:
			ps = append(ps, "(* "+istr(c)+" "+n+")")
		}
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return "(+ " + strings.Join(ps, " ") + ")"
}

func (en *intEnc) atomName(a *iatom) string {
	if a.name != "" {
		return a.name
	}
	switch a.kind {
	case aIte:
		b := "(ite " + a.cond + " " + en.emit(a.x) + " " + en.emit(a.y) + ")"
		a.name = en.fresh()
		fmt.Fprintf(&en.buf, "(define-fun %s () Int %s)\n", a.name, b)
	case aExpr:
		x := en.emit(a.x)
		if a.op == "tdiv" { // truncated division by a positive constant
			c := en.emit(a.y)
			b := "(ite (>= " + x + " 0) (div " + x + " " + c + ") (- (div (- " + x + ") " + c + ")))"
			a.name = en.fresh()
			fmt.Fprintf(&en.buf, "(define-fun %s () Int %s)\n", a.name, b)
			break
		}
		b := "(" + a.op + " " + en.emit(a.x) + " " + en.emit(a.y) + ")"
		a.name = en.fresh()
		fmt.Fprintf(&en.buf, "(define-fun %s () Int %s)\n", a.name, b)
	case aDiv:
		// a fresh quotient; its defining constraint is not linear
		x, y := en.emit(a.x), en.emit(a.y)
		a.name = en.fresh()
		guard, end := "", ""
		if en.alo(a.y) < 1 {
			if a.uns {
				panic(intFail{"site 4"})
			}
			// by zero as bit-vectors define it; any value where the divisor is
			// negative, which is then not the side of the choice taken
			guard = "(ite (<= " + y + " 0) (= " + a.name + " (ite (< " + x + " 0) 1 (- 1))) "
			end = ")"
		}
		fmt.Fprintf(&en.buf, "(declare-const %s Int)\n(assert "+guard+"(ite (>= %s 0) (and (<= (* %s %s) %s) (< %s (+ (* %s %s) %s))) (and (>= (* %s %s) %s) (> %s (- (* %s %s) %s))))"+end+")\n", a.name, x, a.name, y, x, x, a.name, y, y, a.name, y, x, x, a.name, y, y)
		fmt.Fprintf(&en.buf, "(assert (<= %s %s %s))\n", istr(a.lo), a.name, istr(a.hi))
	}
	return a.name
}

func (en *intEnc) ite(cond string, x, y *iform) *iform {
	if cond == "true" {
		return x
	}
	if cond == "false" {
		return y
	}
	if x.isConst() && y.isConst() && x.k == y.k {
		return x
	}
	d := en.hasDiv(x) || en.hasDiv(y)
	return en.atomForm(&iatom{kind: aIte, lo: min(x.lo, y.lo), hi: max(x.hi, y.hi), cond: cond, x: x, y: y, div: d})
}

// smallDiv is the truncated quotient k/b for a small constant k >= 0 as a
// choice over the values of b.
func (en *intEnc) smallDiv(k int64, b *iform) *iform {
	below := func(m int64) string { return en.lt(en.comb(b, 1, iconst(-m))) } // b < m
	pos := iconst(0)
	for y := int64(k); y >= 1; y-- {
		if y < k && k/y == k/(y+1) {
			continue
		}
		pos = en.ite(below(y+1), iconst(k/y), pos)
	}
	if en.alo(b) >= 1 {
		return pos
	}
	neg := iconst(0)
	for y := int64(k); y >= 1; y-- {
		if y < k && k/y == k/(y+1) {
			continue
		}
		neg = en.ite(notB(below(-y)), iconst(-(k / y)), neg)
	}
	return en.ite(below(1), en.ite(below(0), neg, iconst(-1)), pos)
}

// smallRem is the remainder k%b for a small constant k >= 0.
func (en *intEnc) smallRem(k int64, b *iform) *iform {
	below := func(m int64) string { return en.lt(en.comb(b, 1, iconst(-m))) } // b < m
	side := func(is func(y int64) string) *iform {
		r := iconst(k)
		for y := k; y >= 1; y-- {
			r = en.ite(is(y), iconst(k%y), r)
		}
		return r
	}
	pos := side(func(y int64) string { return below(y + 1) })
	if en.alo(b) >= 1 {
		return pos
	}
	neg := side(func(y int64) string { return notB(below(-y)) })
	return en.ite(below(1), en.ite(below(0), neg, iconst(k)), pos)
}

// multiple finds m and k with a = m*b + k.
func (en *intEnc) multiple(a, b *iform) (int64, int64, bool) {
	if b.isConst() {
		return 0, 0, false
	}
	for id, cb := range b.c {
		ca := a.c[id]
		if ca == 0 || ca%cb != 0 {
			return 0, 0, false
		}
		m := ca / cb
		r := en.comb(a, -m, b)
		return m, r.k, r.isConst()
	}
	return 0, 0, false
}

// mulIte is f*g where f is a choice among constants.
func (en *intEnc) mulIte(f, g *iform, n *int) *iform {
	if *n++; *n > 64 {
		return nil
	}
	if f.isConst() {
		return en.comb(iconst(0), f.k, g)
	}
	if len(f.c) != 1 {
		return nil
	}
	for id, c := range f.c {
		at := en.atoms[id]
		if at.kind != aIte {
			return nil
		}
		x, y := en.mulIte(at.x, g, n), (*iform)(nil)
		if x != nil {
			y = en.mulIte(at.y, g, n)
		}
		if y == nil {
			return nil
		}
		return en.comb(en.comb(iconst(0), f.k, g), c, en.ite(at.cond, x, y))
	}
	return nil
}

func (en *intEnc) hasDiv(f *iform) bool {
	for a := range f.c {
		if en.atoms[a].div {
			return true
		}
	}
	return false
}

func iteB(c, x, y string) string {
	if c == "true" || x == y {
		return x
	}
	if c == "false" {
		return y
	}
	if x == "true" && y == "false" {
		return c
	}
	if x == "false" && y == "true" {
		return notB(c)
	}
	return "(ite " + c + " " + x + " " + y + ")"
}

func notB(c string) string {
	switch c {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	return "(not " + c + ")"
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// lt is the condition p < 0.
func (en *intEnc) lt(p *iform) string {
	en.cost++
	if en.cost > 50000 {
		panic(intFail{"site 5"})
	}
	if p.hi < 0 {
		return "true"
	}
	if p.lo >= 0 {
		return "false"
	}
	for _, a := range en.divAtoms(p) {
		at := en.atoms[a]
		c := p.c[a]
		rest := en.comb(p, -c, &iform{c: map[int]int64{a: 1}, lo: at.lo, hi: at.hi})
		if at.kind == aIte {
			return iteB(at.cond, en.lt(en.comb(rest, c, at.x)), en.lt(en.comb(rest, c, at.y)))
		}
		if at.kind == aDiv && rest.isConst() {
			if c > 0 {
				// c*x + k < 0  <=>  x < ceil(-k/c)
				return en.divLt(at, -floorDiv(rest.k, c))
			}
			return notB(en.divLt(at, floorDiv(rest.k, -c)+1))
		}
	}
	return "(< " + en.emit(p) + " 0)"
}

func (en *intEnc) divAtoms(p *iform) []int {
	var ids []int
	for a := range p.c {
		if en.atoms[a].div {
			ids = append(ids, a)
		}
	}
	sort.Ints(ids)
	return ids
}

// divLt is the condition x < m for a quotient x.
func (en *intEnc) divLt(x *iatom, m int64) string {
	if x.hi < m {
		return "true"
	}
	if x.lo >= m {
		return "false"
	}
	var body string
	if m >= 1 {
		body = en.lt(en.comb(x.x, -m, x.y))
	} else {
		body = en.lt(en.comb(en.comb(x.x, -(m-1), x.y), 1, iconst(-1)))
	}
	if en.alo(x.y) >= 1 {
		return body
	}
	// division by zero as bit-vectors define it
	zero := "false" // unsigned: all ones
	if !x.uns {
		neg := "false"
		if 1 < m {
			neg = "true"
		}
		pos := "false"
		if -1 < m {
			pos = "true"
		}
		zero = iteB(en.lt(x.x), neg, pos)
	}
	return iteB(en.eq0(x.y), zero, body)
}

func (en *intEnc) eq0(p *iform) string {
	if p.lo > 0 || p.hi < 0 {
		return "false"
	}
	if p.isConst() {
		return "true" // within [0,0]
	}
	if en.hasDiv(p) {
		a, b := en.lt(p), en.lt(en.comb(iconst(0), -1, p))
		if a == "true" || b == "true" {
			return "false"
		}
		return "(not (or " + a + " " + b + "))"
	}
	// move the constant to the other side
	q := *p
	q.k = 0
	return "(= " + en.emit(&q) + " " + istr(-p.k) + ")"
}

func pow2(w uint8) int64 { return int64(1) << w }

// canonU brings a form into [0, 2^w).
func (en *intEnc) canonU(f *iform, w uint8) *iform {
	if f.lo >= 0 && (w >= 62 || f.hi < pow2(w)) {
		return f
	}
	if w >= 62 {
		// values of 2^63 and more do not fit; leave them open, and look at
		// the model of a satisfiable query
		en.open = true
		n := "o" + strconv.Itoa(en.nn)
		en.nn++
		fmt.Fprintf(&en.buf, "(declare-const %s Int)\n(assert (<= 0 %s))\n", n, n)
		return en.ite(en.lt(f), en.atomForm(&iatom{kind: aVar, name: n, lo: 0, hi: intLim - 1}), f)
	}
	m := pow2(w)
	if f.lo >= -m && f.hi < m {
		return en.tight(en.ite(en.lt(f), en.comb(f, 1, iconst(m)), f), 0, m-1)
	}
	if f.lo >= 0 && f.hi < 2*m {
		return en.tight(en.ite(en.lt(en.comb(f, 1, iconst(-m))), f, en.comb(f, 1, iconst(-m))), 0, m-1)
	}
	if en.hasDiv(f) {
		panic(intFail{"site 7"})
	}
	return en.atomForm(&iatom{kind: aExpr, op: "mod", x: f, y: iconst(m), lo: 0, hi: m - 1})
}

// tight narrows the bounds of a fresh single-atom form.
func (en *intEnc) tight(f *iform, lo, hi int64) *iform {
	if len(f.c) == 1 && f.k == 0 {
		for a, c := range f.c {
			if c == 1 && a == len(en.atoms)-1 {
				en.atoms[a].lo, en.atoms[a].hi = max(en.atoms[a].lo, lo), min(en.atoms[a].hi, hi)
				return &iform{c: f.c, lo: en.atoms[a].lo, hi: en.atoms[a].hi}
			}
		}
	}
	return f
}

// canonS brings a form into [-2^(w-1), 2^(w-1)).
func (en *intEnc) canonS(f *iform, w uint8) *iform {
	if w >= 63 || f.lo >= -pow2(w-1) && f.hi < pow2(w-1) {
		return f
	}
	h := pow2(w - 1)
	u := en.canonU(f, w)
	return en.tight(en.ite(en.lt(en.comb(u, 1, iconst(-h))), u, en.comb(u, 1, iconst(-2*h))), -h, h-1)
}

func (en *intEnc) val(t *Term) *iform {
	if f := en.vals[t]; f != nil {
		return f
	}
	f := en.val1(t)
	en.vals[t] = f
	return f
}

// tooWide: functions of many pieces are left to the bit-vector encoding, unless
// they take few values, as display widths do.
func tooWide(hi, val []uint64) bool {
	if len(hi) <= 64 {
		return false
	}
	seen := map[uint64]bool{}
	for _, v := range val {
		seen[v] = true
	}
	return len(hi) > 400 || len(seen) > 4
}

// pieces lists the pieces of a piecewise-constant function that its argument
// can be in.
func (en *intEnc) pieces(t *Term) (hi, val []uint64) {
	d := en.dom[t.a]
	if t.a.op != OVar || len(d) == 0 {
		return t.pw.hi, t.pw.val
	}
	k := 0
	lo := uint64(0)
	for i, h := range t.pw.hi {
		for k < len(d) && d[k].hi < lo {
			k++
		}
		if k < len(d) && d[k].lo <= h {
			if n := len(val); n > 0 && val[n-1] == t.pw.val[i] {
				hi[n-1] = h
			} else {
				hi, val = append(hi, h), append(val, t.pw.val[i])
			}
		}
		lo = h + 1
	}
	return
}

func (en *intEnc) val1(t *Term) *iform {
	switch t.op {
	case OConst:
		return iconst(sext64(t.c, t.w))
	case OVar:
		d := en.dom[t]
		if len(d) == 0 || d[len(d)-1].hi > uint64(intLim) {
			panic(intFail{"site 8"})
		}
		n := "v" + strconv.Itoa(int(t.id))
		return en.atomForm(&iatom{kind: aVar, name: n, lo: int64(d[0].lo), hi: int64(d[len(d)-1].hi)})
	case OPW:
		if t.a.w == 0 {
			panic(intFail{"site 9"})
		}
		phi, pval := en.pieces(t)
		if tooWide(phi, pval) {
			panic(intFail{"site 9"})
		}
		x := en.val(t.a)
		n := len(phi)
		var rec func(i, j int) *iform
		rec = func(i, j int) *iform {
			if i == j {
				k := sext64(pval[i], t.w)
				if k > intLim || k < -intLim {
					panic(intFail{"site 11"})
				}
				return iconst(k)
			}
			m := (i + j) / 2
			if phi[m] > uint64(intLim) {
				panic(intFail{"site 12"})
			}
			return en.ite(en.lt(en.comb(x, 1, iconst(-int64(phi[m])-1))), rec(i, m), rec(m+1, j))
		}
		return rec(0, n-1)
	case OAdd:
		return en.comb(en.val(t.a), 1, en.val(t.b))
	case OMul:
		a, b := en.val(t.a), en.val(t.b)
		if a.isConst() {
			a, b = b, a
		}
		if !b.isConst() {
			n := 0
			if f := en.mulIte(a, b, &n); f != nil {
				return f
			}
			n = 0
			if f := en.mulIte(b, a, &n); f != nil {
				return f
			}
			panic(intFail{"site 13"})
		}
		return en.comb(iconst(0), b.k, a)
	case OShl:
		if !t.b.isConst() || t.b.c > 40 {
			panic(intFail{"site 14"})
		}
		return en.comb(iconst(0), int64(1)<<t.b.c, en.val(t.a))
	case OUdiv, OSdiv, OLshr:
		var a, b *iform
		if t.op == OLshr {
			if !t.b.isConst() || t.b.c > 40 {
				panic(intFail{"site 15"})
			}
			a, b = en.canonU(en.val(t.a), t.w), iconst(int64(1)<<t.b.c)
		} else if t.op == OUdiv {
			a, b = en.canonU(en.val(t.a), t.w), en.canonU(en.val(t.b), t.w)
		} else {
			a, b = en.canonS(en.val(t.a), t.w), en.canonS(en.val(t.b), t.w)
		}
		if a.isConst() && a.k >= 0 && a.k <= 24 && !b.isConst() && (t.op == OSdiv || b.lo >= 1) {
			return en.smallDiv(a.k, b)
		}
		if m, k, ok := en.multiple(a, b); ok && m >= 0 && m <= 64 && k <= 24 && -k <= min(m, 24) {
			// m*b + k over b, by the sign of b
			var pos *iform
			if k >= 0 {
				pos = en.comb(iconst(m), 1, en.smallDiv(k, b))
			} else {
				pos = en.comb(iconst(m-1), -1, en.smallDiv(-k-1, b))
			}
			if en.alo(b) >= 1 {
				return pos
			}
			if t.op == OSdiv {
				nb := en.comb(iconst(0), -1, b)
				var neg, zero *iform
				if k >= 0 {
					up := iconst(0) // k/nb rounded up
					if k > 0 {
						up = en.comb(iconst(1), 1, en.smallDiv(k-1, nb))
					}
					neg = en.ite(en.lt(en.comb(iconst(-k), m, nb)), en.comb(iconst(m), -1, en.smallDiv(k, nb)), en.comb(iconst(m), -1, up))
					zero = iconst(-1)
				} else {
					neg = en.comb(iconst(m), 1, en.smallDiv(-k, nb))
					zero = iconst(1)
				}
				return en.ite(en.lt(b), neg, en.ite(en.lt(en.comb(b, 1, iconst(-1))), zero, pos))
			}
		}
		if b.lo < 0 && en.alo(b) < 1 {
			if t.op != OSdiv {
				panic(intFail{"divisor may be negative: " + t.b.String()})
			}
			// either sign: negate both sides where the divisor is negative
			m := max(a.hi, -a.lo, 1)
			na, nb := en.comb(iconst(0), -1, a), en.comb(iconst(0), -1, b)
			return en.ite(en.lt(b),
				en.atomForm(&iatom{kind: aDiv, x: na, y: nb, lo: -m, hi: m, div: true}),
				en.atomForm(&iatom{kind: aDiv, x: a, y: b, lo: -m, hi: m, div: true}))
		}
		if b.isConst() && b.k > 0 && a.lo < 0 && !en.hasDiv(a) {
			return en.atomForm(&iatom{kind: aExpr, op: "tdiv", x: a, y: b, lo: a.lo / b.k, hi: max(a.hi, 0) / b.k})
		}
		if b.isConst() && b.k > 0 && a.lo >= 0 && !en.hasDiv(a) {
			return en.atomForm(&iatom{kind: aExpr, op: "div", x: a, y: b, lo: a.lo / b.k, hi: a.hi / b.k})
		}
		lo, hi := min(a.lo, 0), max(a.hi, 0)
		if b.lo <= 0 && en.alo(b) < 1 {
			if t.op == OUdiv {
				panic(intFail{"site 17"})
			}
			lo, hi = min(lo, -1), max(hi, 1)
		}
		return en.atomForm(&iatom{kind: aDiv, x: a, y: b, lo: lo, hi: hi, uns: t.op == OUdiv, div: true})
	case OUrem, OSrem:
		var a, b *iform
		if t.op == OUrem {
			a, b = en.canonU(en.val(t.a), t.w), en.canonU(en.val(t.b), t.w)
		} else {
			a, b = en.canonS(en.val(t.a), t.w), en.canonS(en.val(t.b), t.w)
		}
		if a.isConst() && a.k >= 0 && a.k <= 24 && !b.isConst() {
			return en.smallRem(a.k, b)
		}
		if !b.isConst() || b.k <= 0 || en.hasDiv(a) {
			panic(intFail{"site 18"})
		}
		pos := en.atomForm(&iatom{kind: aExpr, op: "mod", x: a, y: b, lo: 0, hi: b.k - 1})
		if a.lo >= 0 {
			return pos
		}
		neg := en.atomForm(&iatom{kind: aExpr, op: "mod", x: en.comb(iconst(0), -1, a), y: b, lo: 0, hi: b.k - 1})
		return en.ite(en.lt(a), en.comb(iconst(0), -1, neg), pos)
	case OAshr:
		if !t.b.isConst() || t.b.c > 40 {
			panic(intFail{"site 21"})
		}
		a := en.canonS(en.val(t.a), t.w)
		d := int64(1) << t.b.c
		if en.hasDiv(a) {
			panic(intFail{"site 22"})
		}
		return en.atomForm(&iatom{kind: aExpr, op: "div", x: a, y: iconst(d), lo: floorDiv(a.lo, d), hi: floorDiv(a.hi, d)})
	case OBand:
		a, b := t.a, t.b
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c&(b.c+1) == 0 && b.c < 1<<40 {
			f := en.val(a)
			w := bitsFor(b.c)
			return en.canonU(f, w)
		}
		panic(intFail{"site 19"})
	case OIte:
		c := en.cond(t.a)
		x, y := en.val(t.b), en.val(t.d)
		r := en.ite(c, x, y)
		// x if x is not below k, else something at least k
		if t.a.op == OSlt && t.a.b.isConst() && t.a.a == t.d {
			k := sext64(t.a.b.c, t.a.b.w)
			if x.lo >= k && t.w == 64 {
				return en.tight(r, k, intLim)
			}
		}
		if t.a.op == ONot && t.a.a.op == OSlt && t.a.a.b.isConst() && t.a.a.a == t.b {
			k := sext64(t.a.a.b.c, t.a.a.b.w)
			if y.lo >= k && t.w == 64 {
				return en.tight(r, k, intLim)
			}
		}
		return r
	case OZext:
		return en.canonU(en.val(t.a), t.a.w)
	case OSext:
		return en.canonS(en.val(t.a), t.a.w)
	case OExtract:
		return en.val(t.a)
	}
	panic(intFail{"site 20"})
}

func (en *intEnc) cond(t *Term) string {
	if s, ok := en.conds[t]; ok {
		return s
	}
	s := en.cond1(t)
	if len(s) > 40 {
		en.nn++
		n := "b" + strconv.Itoa(en.nn)
		fmt.Fprintf(&en.buf, "(define-fun %s () Bool %s)\n", n, s)
		s = n
	}
	en.conds[t] = s
	return s
}

func (en *intEnc) cond1(t *Term) string {
	switch t.op {
	case OConst:
		return cstr(0, t.c)
	case OVar:
		return "v" + strconv.Itoa(int(t.id))
	case OPW:
		if t.a.w == 0 {
			x := en.cond(t.a)
			return iteB(x, cstr(0, t.pw.at(1)), cstr(0, t.pw.at(0)))
		}
		phi, pval := en.pieces(t)
		if tooWide(phi, pval) {
			panic(intFail{"site 21"})
		}
		x := en.val(t.a)
		var rec func(i, j int) string
		rec = func(i, j int) string {
			if i == j {
				return cstr(0, pval[i])
			}
			m := (i + j) / 2
			if phi[m] > uint64(intLim) {
				panic(intFail{"site 22"})
			}
			return iteB(en.lt(en.comb(x, 1, iconst(-int64(phi[m])-1))), rec(i, m), rec(m+1, j))
		}
		return rec(0, len(phi)-1)
	case ONot:
		return notB(en.cond(t.a))
	case OAnd:
		a, b := en.cond(t.a), en.cond(t.b)
		if a == "false" || b == "false" {
			return "false"
		}
		return "(and " + a + " " + b + ")"
	case OOr:
		a, b := en.cond(t.a), en.cond(t.b)
		if a == "true" || b == "true" {
			return "true"
		}
		return "(or " + a + " " + b + ")"
	case OIte:
		return iteB(en.cond(t.a), en.cond(t.b), en.cond(t.d))
	case OEq:
		if t.a.w == 0 {
			return "(= " + en.cond(t.a) + " " + en.cond(t.b) + ")"
		}
		a, b := en.val(t.a), en.val(t.b)
		d := en.comb(a, -1, b)
		w := t.a.w
		if w < 62 && (d.lo <= -pow2(w) || d.hi >= pow2(w)) {
			d = en.comb(en.canonU(a, w), -1, en.canonU(b, w))
		}
		return en.eq0(d)
	case OUlt, OUle:
		a, b := t.a, t.b
		neg := false
		if t.op == OUle { // a <= b  <=>  not (b < a)
			a, b = b, a
			neg = true
		}
		r := en.ult(a, b)
		if neg {
			return notB(r)
		}
		return r
	case OSlt:
		return en.lt(en.comb(en.canonS(en.val(t.a), t.a.w), -1, en.canonS(en.val(t.b), t.a.w)))
	case OSle:
		return notB(en.lt(en.comb(en.canonS(en.val(t.b), t.a.w), -1, en.canonS(en.val(t.a), t.a.w))))
	}
	panic(intFail{"site 23"})
}

func (en *intEnc) ult(ta, tb *Term) string {
	w := ta.w
	a, b := en.val(ta), en.val(tb)
	if w >= 62 {
		if a.lo < 0 && b.lo < 0 {
			panic(intFail{"site 24"})
		}
		if a.lo < 0 { // negative values are huge
			return iteB(en.lt(a), "false", en.lt(en.comb(a, -1, b)))
		}
		if b.lo < 0 {
			return iteB(en.lt(b), "true", en.lt(en.comb(a, -1, b)))
		}
		return en.lt(en.comb(a, -1, b))
	}
	return en.lt(en.comb(en.canonU(a, w), -1, en.canonU(b, w)))
}

// arith reports whether a condition does arithmetic on wide values.
func arith(t *Term, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch t.op {
	case OAdd, OMul, OSdiv, OUdiv:
		if t.w >= 16 && (t.a.hi > 64 || t.b.hi > 64) {
			return true
		}
	case OPW, OConst, OVar:
		return false
	case OSlt, OUlt, OEq:
		if t.a.w >= 16 && t.multi {
			return true
		}
	}
	return arith(t.a, seen) || arith(t.b, seen) || arith(t.d, seen)
}

// intQuery tries the integer encoding.
func (s *Solver) intQuery(vars []*Term, dom map[*Term][]rgn, conds []*Term) (res *qres) {
	seen := map[*Term]bool{}
	use := false
	for _, c := range conds {
		if arith(c, seen) {
			use = true
			break
		}
	}
	if !use {
		return nil
	}
	en := &intEnc{s: s, vals: map[*Term]*iform{}, conds: map[*Term]string{}, dom: dom}
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(intFail); ok {
				if os.Getenv("VERIF_INT_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "int encoding:", f.why)
					for _, c := range conds {
						fmt.Fprintln(os.Stderr, "   ", c)
					}
				}
				s.IntFail++
				res = nil
				return
			}
			panic(r)
		}
	}()
	for _, v := range vars {
		if v.w == 0 {
			fmt.Fprintf(&en.buf, "(declare-const v%d Bool)\n", v.id)
			if d := dom[v]; len(d) == 1 && d[0].lo == d[0].hi {
				if d[0].lo == 1 {
					fmt.Fprintf(&en.buf, "(assert v%d)\n", v.id)
				} else {
					fmt.Fprintf(&en.buf, "(assert (not v%d))\n", v.id)
				}
			}
			continue
		}
		d := dom[v]
		if d[len(d)-1].hi > uint64(intLim) || len(d) > 64 {
			return nil
		}
		n := "v" + strconv.Itoa(int(v.id))
		fmt.Fprintf(&en.buf, "(declare-const %s Int)\n(assert (<= %d %s %d))\n", n, d[0].lo, n, d[len(d)-1].hi)
		for i := 1; i < len(d); i++ {
			fmt.Fprintf(&en.buf, "(assert (or (<= %s %d) (>= %s %d)))\n", n, d[i-1].hi, n, d[i].lo)
		}
	}
	for _, c := range conds {
		en.bounds(c)
	}
	for _, c := range conds {
		x := en.cond(c)
		fmt.Fprintf(&en.buf, "(assert %s)\n", x)
	}
	if en.open {
		// the static bounds of open values are only good for small constants
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if t.op == OConst && t.w > 0 {
				if k := sext64(t.c, t.w); k > 1<<20 || k < -1<<20 {
					panic(intFail{"open value and a large constant"})
				}
			}
			rec(t.a)
			rec(t.b)
			rec(t.d)
		}
		for _, c := range conds {
			rec(c)
		}
	}
	if s.lia == nil {
		s.lia = startZ3(s.bin)
	}
	p := s.lia
	fmt.Fprintf(&p.buf, "(push 1)\n(set-option :timeout %d)\n", 5000)
	p.buf.Write(en.buf.Bytes())
	p.buf.WriteString("(check-sat)\n")
	p.flush(s.log)
	s.IntQ++
	switch line := p.readLine(); line {
	case "sat":
		res = &qres{r: Sat, m: map[*Term]uint64{}}
		var names []string
		for _, v := range vars {
			names = append(names, "v"+strconv.Itoa(int(v.id)))
		}
		if len(names) > 0 {
			p.buf.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
			p.flush(s.log)
			vals := parseInts(p.readSexp())
			for _, v := range vars {
				res.m[v] = vals["v"+strconv.Itoa(int(v.id))]
			}
		}
		memo := map[*Term]uint64{}
		for _, c := range conds {
			if s.ctx.Eval(c, res.m, memo) == 0 {
				if !en.open && os.Getenv("VERIF_DEBUG") != "" {
					panic("the integer encoding's model does not satisfy " + c.String())
				}
				res = nil
				s.IntFail++
				break
			}
		}
	case "unsat":
		res = &qres{r: Unsat}
	default:
		if line != "unknown" && line != "timeout" {
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.errors++
		}
		p.close()
		s.lia = nil
		s.IntUnknown++
		return nil
	}
	p.buf.WriteString("(pop 1)\n")
	return res
}

func parseInts(s string) map[string]uint64 {
	m := map[string]uint64{}
	s = strings.NewReplacer("(", " ", ")", " ").Replace(s)
	f := strings.Fields(s)
	for i := 0; i+1 < len(f); i += 2 {
		switch f[i+1] {
		case "true":
			m[f[i]] = 1
		case "false":
			m[f[i]] = 0
		default:
			v, err := strconv.ParseUint(f[i+1], 10, 64)
			if err != nil {
				panic("model value " + s)
			}
			m[f[i]] = v
		}
	}
	return m
}

// ---- process ----

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	buf bytes.Buffer
}

func startZ3(bin string) *z3proc {
	p := &z3proc{cmd: exec.Command(bin, "-in", "-smt2")}
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.cmd.Stderr = os.Stderr
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(out, 1<<16)
	return p
}

func (p *z3proc) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *z3proc) flush(log *os.File) {
	if log != nil {
		log.Write(p.buf.Bytes())
	}
	p.in.Write(p.buf.Bytes())
	p.buf.Reset()
}

func (p *z3proc) readLine() string {
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			return "(error \"solver died\")"
		}
		if line = strings.TrimSpace(line); line != "" {
			return line
		}
	}
}

func (p *z3proc) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		b, err := p.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' {
			return sb.String()
		}
	}
}
