package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term            bool and integer scalars
//	float64          floats (concrete only)
//	*Str             strings
//	Slice            slices
//	Ptr              pointers
//	Iface            interface values
//	*MapObj          maps (nil pointer = nil map)
//	*Closure         funcs (nil pointer = nil func)
//	*Agg             struct and array values, flattened
//	Tuple            multi-value results
//	*Opaque          native objects (compiled regexps)
//	*MapIter, *StrIter
type Value interface{}

type Object struct {
	id     int64
	ver    int64
	cells  []Value
	elem   types.Type // element type for allocation of slices (debug)
	name   string
	glob   bool
	frozen bool // a copy made for reading: writing would be lost
	tags   []SB // rune structure of bytes copied from a string
}

type SymIdx struct {
	idx    *Term // element index
	n      int   // number of elements
	stride int   // cells per element
	inner  int   // offset within element
}

type Ptr struct {
	obj *Object
	off int
	sym *SymIdx // symbolic element; off is the base of the array
}

type Slice struct {
	obj  *Object
	off  int // cells
	len  int
	cap  int
	esz  int
	rope *Str // []byte view of a string of symbolic length (read-only)
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	nat  func(e *Engine, args []Value) Value
}

type Agg struct{ v []Value }

type Tuple []Value

type Opaque struct {
	kind string
	x    any
}

type mapEntry struct {
	key, val Value
	dead     bool
}

type MapObj struct {
	id      int64
	ver     int64
	entries []*mapEntry
	index   map[string]int
	symKeys int // entries with non-concrete keys
	live    int
	kt, vt  types.Type
}

type MapIter struct {
	m    *MapObj
	keys []*mapEntry
	pos  int
}

type StrIter struct {
	s     *Str
	pos   int
	items []runeItem
}

// ---- strings ----

type RuneTag struct {
	r *Term // 32 bits
	n int
}

type SB struct {
	t  *Term // 8 bits
	rt *RuneTag
	k  int
}

type StrPart struct {
	c   string // concrete text
	b   []SB   // symbolic bytes (exclusive with c and rep)
	rep string // repeated concrete unit
	cnt *Term  // 64-bit repetition count
	r   *Term  // one valid code point of undecided UTF-8 length
}

// Str is a string: concrete (parts == nil), fixed-length symbolic bytes, or a
// rope with parts of symbolic length.
type Str struct {
	c     string
	b     []SB // when non-nil: fixed-length with at least one symbolic byte
	parts []StrPart
}

var emptyStr = &Str{}

func cs(s string) *Str { return &Str{c: s} }

func (s *Str) isConc() bool { return s.b == nil && s.parts == nil }
func (s *Str) isRope() bool { return s.parts != nil }
func (s *Str) fixedLen() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.c)
}

func (e *Engine) byteAt(s *Str, i int) SB {
	if s.b != nil {
		return s.b[i]
	}
	return SB{t: e.tc.Const(8, uint64(s.c[i]))}
}

func (e *Engine) mkBytes(b []SB) *Str {
	for _, x := range b {
		if !x.t.isConst() {
			return &Str{b: b}
		}
	}
	buf := make([]byte, len(b))
	for i, x := range b {
		buf[i] = byte(x.t.c)
	}
	return &Str{c: string(buf)}
}

func (e *Engine) strBytes(s *Str) []SB {
	if s.b != nil {
		return s.b
	}
	out := make([]SB, len(s.c))
	for i := 0; i < len(s.c); i++ {
		out[i] = SB{t: e.tc.Const(8, uint64(s.c[i]))}
	}
	return out
}

func (e *Engine) substr(s *Str, i, j int) *Str {
	if s.b != nil {
		return e.mkBytes(s.b[i:j:j])
	}
	return cs(s.c[i:j])
}

func (s *Str) asParts() []StrPart {
	if s.parts != nil {
		return s.parts
	}
	if s.b != nil {
		return []StrPart{{b: s.b}}
	}
	if s.c == "" {
		return nil
	}
	return []StrPart{{c: s.c}}
}

func (e *Engine) concat(a, b *Str) *Str {
	if a.isConc() && b.isConc() {
		if a.c == "" {
			return b
		}
		if b.c == "" {
			return a
		}
		return cs(a.c + b.c)
	}
	if !a.isRope() && !b.isRope() {
		if a.fixedLen() == 0 {
			return b
		}
		if b.fixedLen() == 0 {
			return a
		}
		x, y := e.strBytes(a), e.strBytes(b)
		out := make([]SB, 0, len(x)+len(y))
		out = append(out, x...)
		out = append(out, y...)
		return e.mkBytes(out)
	}
	ps := append(append([]StrPart{}, a.asParts()...), b.asParts()...)
	return e.normRope(ps)
}

func (e *Engine) normRope(ps []StrPart) *Str {
	var out []StrPart
	for _, p := range ps {
		if p.cnt != nil && p.cnt.isConst() {
			p = StrPart{c: strings.Repeat(p.rep, int(p.cnt.c))}
		}
		if p.r != nil {
			if v, ok := e.constOf(e.runeLen(p.r)); ok {
				p = StrPart{b: e.encodeN(p.r, int(v))}
			} else {
				out = append(out, p)
				continue
			}
		}
		if p.cnt == nil && p.c == "" && len(p.b) == 0 {
			continue
		}
		if n := len(out); n > 0 && p.cnt != nil && out[n-1].cnt != nil && out[n-1].rep == p.rep {
			out[n-1].cnt = e.tc.Add(out[n-1].cnt, p.cnt)
			continue
		}
		// whole units next to a repetition belong to it
		if n := len(out); n > 0 && p.cnt == nil && p.b == nil && out[n-1].cnt != nil && strings.HasPrefix(p.c, out[n-1].rep) {
			u := out[n-1].rep
			k := uint64(0)
			for strings.HasPrefix(p.c, u) {
				p.c = p.c[len(u):]
				k++
			}
			out[n-1].cnt = e.tc.Add(out[n-1].cnt, e.tc.Const(64, k))
			if p.c == "" {
				continue
			}
		}
		if n := len(out); n > 0 && p.cnt != nil && out[n-1].cnt == nil && out[n-1].r == nil && out[n-1].b == nil && strings.HasSuffix(out[n-1].c, p.rep) {
			k := uint64(0)
			for strings.HasSuffix(out[n-1].c, p.rep) {
				out[n-1].c = strings.TrimSuffix(out[n-1].c, p.rep)
				k++
			}
			p.cnt = e.tc.Add(p.cnt, e.tc.Const(64, k))
			if out[n-1].c == "" {
				out = out[:n-1]
				if n > 1 && out[n-2].cnt != nil && out[n-2].rep == p.rep {
					out[n-2].cnt = e.tc.Add(out[n-2].cnt, p.cnt)
					continue
				}
			}
		}
		if n := len(out); n > 0 && p.cnt == nil && out[n-1].cnt == nil && out[n-1].r == nil {
			q := &out[n-1]
			if q.b == nil && p.b == nil {
				q.c += p.c
			} else {
				x := e.partBytes(*q)
				y := e.partBytes(p)
				nb := make([]SB, 0, len(x)+len(y))
				nb = append(append(nb, x...), y...)
				*q = StrPart{b: nb}
			}
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return emptyStr
	}
	if len(out) == 1 && out[0].cnt == nil && out[0].r == nil {
		if out[0].b != nil {
			return e.mkBytes(out[0].b)
		}
		return cs(out[0].c)
	}
	return &Str{parts: out}
}

func (e *Engine) partBytes(p StrPart) []SB {
	if p.b != nil {
		return p.b
	}
	return e.strBytes(cs(p.c))
}

func (e *Engine) strLen(s *Str) *Term {
	if !s.isRope() {
		return e.tc.Const(64, uint64(s.fixedLen()))
	}
	t := e.tc.Const(64, 0)
	for _, p := range s.parts {
		t = e.tc.Add(t, e.partLen(p))
	}
	return t
}

// force makes a rope's length concrete by deciding its repetition counts.
func (e *Engine) force(s *Str) *Str {
	if !s.isRope() {
		return s
	}
	s = e.forceCounts(s)
	if !s.isRope() {
		return s
	}
	ps := append([]StrPart{}, s.parts...)
	for i := range ps {
		if ps[i].r != nil {
			n := e.concretize(e.runeLen(ps[i].r), "length of a rune")
			ps[i] = StrPart{b: e.encodeN(ps[i].r, int(n))}
		}
	}
	return e.normRope(ps)
}

func (e *Engine) strEq(a, b *Str) *Term {
	if a.isConc() && b.isConc() {
		return e.tc.Bool(a.c == b.c)
	}
	if a.isRope() || b.isRope() {
		if a.isConc() && a.c == "" {
			return e.tc.Eq(e.strLen(b), e.tc.Const(64, 0))
		}
		if b.isConc() && b.c == "" {
			return e.tc.Eq(e.strLen(a), e.tc.Const(64, 0))
		}
		if ra, ok := e.runeSeq(a); ok {
			if rb, ok := e.runeSeq(b); ok {
				if len(ra) != len(rb) {
					return e.tc.F
				}
				r := e.tc.T
				for i := range ra {
					r = e.tc.And(r, e.tc.Eq(ra[i], rb[i]))
				}
				return r
			}
		}
		if r := e.ropeEq(a, b); r != nil {
			return r
		}
		// of another shape: decide which repetitions are empty, then the lengths
		a, b = e.settle(a), e.settle(b)
		if !a.isRope() && !b.isRope() {
			return e.strEq(a, b)
		}
		if r := e.ropeEq(a, b); r != nil {
			return r
		}
		if !e.truth(e.tc.Eq(e.strLen(a), e.strLen(b))) {
			return e.tc.F
		}
		if debugForks {
			fmt.Printf("ropes\n  %s\n  %s\n", e.showStr(a), e.showStr(b))
		}
		a, b = e.force(a), e.force(b)
		return e.strEq(a, b)
	}
	if a.fixedLen() != b.fixedLen() {
		return e.tc.F
	}
	r := e.tc.T
	n := a.fixedLen()
	for i := 0; i < n; i++ {
		x, y := e.byteAt(a, i), e.byteAt(b, i)
		if x.rt != nil && y.rt != nil && x.k == 0 && y.k == 0 && x.rt.n == y.rt.n {
			r = e.tc.And(r, e.tc.Eq(x.rt.r, y.rt.r))
			i += x.rt.n - 1
			continue
		}
		r = e.tc.And(r, e.tc.Eq(x.t, y.t))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func (e *Engine) showStr(s *Str) string {
	o := ""
	for _, p := range s.asParts() {
		switch {
		case p.cnt != nil:
			o += fmt.Sprintf("%q*{%v} ", p.rep, p.cnt)
		case p.r != nil:
			o += fmt.Sprintf("r{%v} ", p.r)
		case p.b != nil:
			o += fmt.Sprintf("b%d{%v} ", len(p.b), p.b[0].t)
		default:
			o += fmt.Sprintf("%q ", p.c)
		}
	}
	return o
}

// settle decides which repetitions of s are empty.
func (e *Engine) settle(s *Str) *Str {
	if !s.isRope() {
		return s
	}
	var out []StrPart
	for _, p := range s.asParts() {
		if p.cnt != nil && e.truth(e.tc.Eq(p.cnt, e.tc.Const(64, 0))) {
			continue
		}
		out = append(out, p)
	}
	return e.normRope(out)
}

// ropeEq compares ropes of the same shape part by part. Parts of equal fixed
// length and repetitions of the same unit in the same places make the ropes
// equal when all parts are; with a single repetition this is also necessary.
// For several repetitions it may be too strong, which can only produce a
// candidate counterexample that the native replay then discards.
func (e *Engine) ropeEq(a, b *Str) *Term {
	pa, pb := a.asParts(), b.asParts()
	// drop repetitions known to be empty on this path
	drop := func(ps []StrPart) []StrPart {
		var out []StrPart
		for _, p := range ps {
			if p.cnt != nil {
				if lo, hi := e.rng(p.cnt); lo == 0 && hi == 0 {
					continue
				}
			}
			out = append(out, p)
		}
		s := e.normRope(out)
		return s.asParts()
	}
	pa, pb = drop(pa), drop(pb)
	r, pa, pb := e.trimEq(pa, pb)
	if r.isFalse() {
		return r
	}
	if len(pa) == 0 || len(pb) == 0 {
		return e.tc.And(r, e.tc.Eq(e.strLen(&Str{parts: append(pa, pb...)}), e.tc.Const(64, 0)))
	}
	if len(pa) == 1 && len(pb) == 1 {
		x, y := pa[0], pb[0]
		if x.cnt == nil {
			x, y = y, x
		}
		if x.cnt != nil && y.cnt == nil && y.r == nil && y.b == nil && len(x.rep) > 0 {
			k := len(y.c) / len(x.rep)
			if y.c != strings.Repeat(x.rep, k) {
				return e.tc.F
			}
			return e.tc.And(r, e.tc.Eq(x.cnt, e.tc.Const(64, uint64(k))))
		}
	}
	if len(pa) != len(pb) {
		return nil
	}
	for i := range pa {
		x, y := pa[i], pb[i]
		if (x.cnt != nil) != (y.cnt != nil) || (x.r != nil) != (y.r != nil) {
			return nil
		}
		if x.r != nil {
			r = e.tc.And(r, e.tc.Eq(x.r, y.r))
			continue
		}
		if x.cnt != nil {
			if x.rep != y.rep {
				return nil
			}
			r = e.tc.And(r, e.tc.Eq(x.cnt, y.cnt))
			continue
		}
		sx, sy := e.mkBytes(e.partBytes(x)), e.mkBytes(e.partBytes(y))
		if sx.fixedLen() != sy.fixedLen() {
			return nil
		}
		r = e.tc.And(r, e.strEq(sx, sy))
	}
	return r
}

// mustEq: two terms are equal on this path.
func (e *Engine) mustEq(a, b *Term) bool {
	c := e.tc.Eq(a, b)
	if v, ok := e.quick(c, 0); ok {
		return v
	}
	if !e.unsure && e.evalM(c) == 0 {
		return false
	}
	r, _ := e.check(e.tc.Not(c))
	return r == Unsat
}

// trimEq takes off what the two sides have to agree on at both ends, whatever
// the parts between are: it returns that condition and what is left.
func (e *Engine) trimEq(pa, pb []StrPart) (*Term, []StrPart, []StrPart) {
	r := e.tc.T
	fixed := func(p StrPart) bool { return p.cnt == nil && p.r == nil }
	pa, pb = append([]StrPart{}, pa...), append([]StrPart{}, pb...)
	// one end: take returns the part there, cut removes n bytes of it
	for _, front := range []bool{true, false} {
		at := func(ps []StrPart) int {
			if front {
				return 0
			}
			return len(ps) - 1
		}
		pop := func(ps []StrPart) []StrPart {
			if front {
				return ps[1:]
			}
			return ps[:len(ps)-1]
		}
		for len(pa) > 0 && len(pb) > 0 && !r.isFalse() {
			i, j := at(pa), at(pb)
			x, y := pa[i], pb[j]
			if x.cnt != nil && y.cnt != nil && x.rep == y.rep && (e.sameLin(x.cnt, y.cnt) || e.mustEq(x.cnt, y.cnt)) || x.r != nil && x.r == y.r {
				pa, pb = pop(pa), pop(pb)
				continue
			}
			if x.r != nil && y.r != nil {
				// no encoding of a rune is the beginning or the end of another
				r = e.tc.And(r, e.tc.Eq(x.r, y.r))
				pa, pb = pop(pa), pop(pb)
				continue
			}
			if front && (fixed(x) && y.cnt != nil || fixed(y) && x.cnt != nil) {
				// a repetition of one byte that ends where another byte follows,
				// against text with that many of it
				pp, qq := &pa, &pb // pp has the repetition
				if fixed(x) {
					pp, qq = qq, pp
				}
				rep, txt := (*pp)[0], (*qq)[0]
				if len(rep.rep) == 1 && len(*pp) > 1 && fixed((*pp)[1]) && (*pp)[1].b == nil && (*pp)[1].c[0] != rep.rep[0] && txt.b == nil {
					rest := strings.TrimLeft(txt.c, rep.rep)
					if rest != "" {
						r = e.tc.And(r, e.tc.Eq(rep.cnt, e.tc.Const(64, uint64(len(txt.c)-len(rest)))))
						*pp = (*pp)[1:]
						(*qq)[0] = StrPart{c: rest}
						continue
					}
				}
			}
			if !fixed(x) || !fixed(y) {
				break
			}
			bx, by := e.partBytes(x), e.partBytes(y)
			n := min(len(bx), len(by))
			cut := func(b []SB, front bool) (end, rest []SB) {
				if front {
					return b[:n], b[n:]
				}
				return b[len(b)-n:], b[:len(b)-n]
			}
			ex, rx := cut(bx, front)
			ey, ry := cut(by, front)
			r = e.tc.And(r, e.strEq(e.mkBytes(ex), e.mkBytes(ey)))
			put := func(ps []StrPart, i int, rest []SB) []StrPart {
				if len(rest) == 0 {
					return pop(ps)
				}
				s := e.mkBytes(rest)
				if s.isConc() {
					ps[i] = StrPart{c: s.c}
				} else {
					ps[i] = StrPart{b: rest}
				}
				return ps
			}
			pa, pb = put(pa, i, rx), put(pb, j, ry)
		}
	}
	return r, pa, pb
}

// evalStr evaluates a string under a model.
func (e *Engine) evalStr(s *Str, m map[*Term]uint64, memo map[*Term]uint64) string {
	if s.isConc() {
		return s.c
	}
	var sb strings.Builder
	for _, p := range s.asParts() {
		switch {
		case p.r != nil:
			sb.WriteRune(rune(int32(e.tc.Eval(p.r, m, memo))))
		case p.cnt != nil:
			sb.WriteString(strings.Repeat(p.rep, int(e.tc.Eval(p.cnt, m, memo))))
		case p.b != nil:
			for _, x := range p.b {
				sb.WriteByte(byte(e.tc.Eval(x.t, m, memo)))
			}
		default:
			sb.WriteString(p.c)
		}
	}
	return sb.String()
}

// ---- types ----

func (e *Engine) flatSize(t types.Type) int {
	if n, ok := e.sizes[t]; ok {
		return n
	}
	var n int
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n += e.flatSize(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * e.flatSize(u.Elem())
	default:
		n = 1
	}
	e.sizes[t] = n
	return n
}

func (e *Engine) fieldOff(st *types.Struct, i int) int {
	o := 0
	for k := 0; k < i; k++ {
		o += e.flatSize(st.Field(k).Type())
	}
	return o
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func widthOfBasic(k types.BasicKind) (w uint8, signed bool) {
	switch k {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	case types.Bool, types.UntypedBool:
		return 0, false
	}
	return 255, false
}

// scalarType returns width and signedness if t is bool or integer.
func scalarType(t types.Type) (uint8, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	w, s := widthOfBasic(b.Kind())
	return w, s, w != 255
}

func (e *Engine) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = e.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		start := len(out)
		out = e.zeroCells(u.Elem(), out)
		one := len(out) - start
		for i := 1; i < n; i++ {
			out = append(out, out[start:start+one]...)
		}
		return out
	}
	return append(out, e.zeroScalar(t))
}

func (e *Engine) zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _ := widthOfBasic(u.Kind()); w != 255 {
			return e.tc.Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return Ptr{}
		}
		return &Opaque{kind: "zero:" + u.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{esz: e.flatSize(u.Elem())}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Opaque)(nil)
	case *types.Tuple:
		var tu Tuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, e.zero(u.At(i).Type()))
		}
		return tu
	}
	panic(unsupported("zero value of " + t.String()))
}

func (e *Engine) zero(t types.Type) Value {
	if isAgg(t) {
		return &Agg{e.zeroCells(t, nil)}
	}
	return e.zeroScalar(t)
}

// ---- heap ----

type trailEntry struct {
	obj    *Object
	off    int
	old    Value
	oldVer int64
	undo   func()
}

func (e *Engine) alloc(cells []Value, name string) *Object {
	e.nextObj++
	return &Object{id: e.nextObj, cells: cells, name: name}
}

func (e *Engine) allocMap(kt, vt types.Type) *MapObj {
	e.nextObj++
	return &MapObj{id: e.nextObj, index: map[string]int{}, kt: kt, vt: vt}
}

func (e *Engine) pushUndo(f func()) {
	if e.noTrail == 0 {
		e.trail = append(e.trail, trailEntry{undo: f})
	}
}

func (e *Engine) setCell(o *Object, off int, v Value) {
	if e.mergeLvl > 0 && o.id <= e.mergeMark {
		panic(mergeAbort{"writes shared state"})
	}
	if e.noTrail == 0 {
		e.trail = append(e.trail, trailEntry{obj: o, off: off, old: o.cells[off], oldVer: o.ver})
	}
	e.verCtr++
	o.ver = e.verCtr
	o.cells[off] = v
}

func (e *Engine) undoTo(n int) {
	for i := len(e.trail) - 1; i >= n; i-- {
		t := &e.trail[i]
		if t.undo != nil {
			t.undo()
		} else {
			t.obj.cells[t.off] = t.old
			t.obj.ver = t.oldVer
		}
		*t = trailEntry{}
	}
	e.trail = e.trail[:n]
}

func (e *Engine) noteRead(o *Object) {
	if e.reads != nil && o.id <= e.readMark {
		e.reads[o] = o.ver
	}
}

func (e *Engine) load(p Ptr, t types.Type) Value {
	if p.obj == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	e.noteRead(p.obj)
	e.access(p, false)
	if p.sym != nil {
		return e.loadSym(p, t)
	}
	if isAgg(t) {
		n := e.flatSize(t)
		v := make([]Value, n)
		copy(v, p.obj.cells[p.off:p.off+n])
		return &Agg{v}
	}
	return p.obj.cells[p.off]
}

func (e *Engine) loadSym(p Ptr, t types.Type) Value {
	s := p.sym
	n := e.flatSize(t)
	out := make([]Value, n)
	for k := 0; k < n; k++ {
		vals := make([]Value, s.n)
		for i := 0; i < s.n; i++ {
			vals[i] = p.obj.cells[p.off+i*s.stride+s.inner+k]
		}
		v, ok := e.lookupVals(s.idx, vals)
		if !ok {
			// not mergeable: decide the index
			iv := int(e.concretize(s.idx, "index"))
			return e.load(Ptr{obj: p.obj, off: p.off + iv*s.stride + s.inner}, t)
		}
		out[k] = v
	}
	if isAgg(t) {
		return &Agg{out}
	}
	return out[0]
}

// lookupVals selects vals[idx] as one merged value.
func (e *Engine) lookupVals(idx *Term, vals []Value) (Value, bool) {
	switch vals[0].(type) {
	case *Term:
		ts := make([]*Term, len(vals))
		for i, v := range vals {
			ts[i] = v.(*Term)
		}
		return e.tc.Lookup(idx, ts), true
	}
	same := true
	for _, v := range vals[1:] {
		if !sameValue(v, vals[0]) {
			same = false
			break
		}
	}
	if same {
		return vals[0], true
	}
	return nil, false
}

func (e *Engine) resolve(p Ptr) Ptr {
	if p.sym == nil {
		return p
	}
	iv := int(e.concretize(p.sym.idx, "index of a store"))
	return Ptr{obj: p.obj, off: p.off + iv*p.sym.stride + p.sym.inner}
}

func (e *Engine) store(p Ptr, v Value, t types.Type) {
	if p.obj == nil {
		panic(e.rtPanic("invalid memory address or nil pointer dereference"))
	}
	p = e.resolve(p)
	if p.obj.frozen {
		panic(unsupported("write into a byte slice of undecided length"))
	}
	e.access(p, true)
	if a, ok := v.(*Agg); ok {
		for i, x := range a.v {
			e.setCell(p.obj, p.off+i, x)
		}
		return
	}
	e.setCell(p.obj, p.off, v)
}

// sameValue reports identity of two values (no solver).
func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.isConc() && y.isConc() {
			return x.c == y.c
		}
		if x.b != nil && y.b != nil && len(x.b) == len(y.b) {
			for i := range x.b {
				if x.b[i].t != y.b[i].t {
					return false
				}
			}
			return true
		}
		return false
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && sameValue(x.v, y.v)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !sameValue(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x != nil && y != nil && x.fn != nil && x.fn == y.fn && len(x.free) == 0 && len(y.free) == 0
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case *MapObj:
		y, ok := b.(*MapObj)
		return ok && x == y
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case nil:
		return b == nil
	}
	return false
}

// mergeValue builds if c then a else b; ok is false when the values do not merge.
func (e *Engine) mergeValue(c *Term, a, b Value) (Value, bool) {
	if sameValue(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return e.tc.Ite(c, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		return e.mergeStr(c, x, y)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.v) != len(y.v) {
			return nil, false
		}
		out := make([]Value, len(x.v))
		for i := range out {
			v, ok := e.mergeValue(c, x.v[i], y.v[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return &Agg{out}, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range out {
			v, ok := e.mergeValue(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	}
	return nil, false
}

func (e *Engine) mergeStr(c *Term, x, y *Str) (Value, bool) {
	if x.isRope() || y.isRope() {
		// text vs text padded by a repetition: merge the counts
		px, py := x.asParts(), y.asParts()
		i, j := 0, 0
		var out []StrPart
		zero := e.tc.Const(64, 0)
		for i < len(px) || j < len(py) {
			if i < len(px) && j < len(py) {
				p, q := px[i], py[j]
				if p.cnt != nil && q.cnt != nil && p.rep == q.rep {
					out = append(out, StrPart{rep: p.rep, cnt: e.tc.Ite(c, p.cnt, q.cnt)})
					i++
					j++
					continue
				}
				if p.r != nil && q.r != nil {
					out = append(out, StrPart{r: e.tc.Ite(c, p.r, q.r)})
					i++
					j++
					continue
				}
				if p.r != nil || q.r != nil {
					return nil, false
				}
				if p.cnt == nil && q.cnt == nil {
					sx, sy := e.mkBytes(e.partBytes(p)), e.mkBytes(e.partBytes(q))
					if sx.fixedLen() != sy.fixedLen() {
						return nil, false
					}
					m, _ := e.mergeStr(c, sx, sy)
					out = append(out, m.(*Str).asParts()...)
					i++
					j++
					continue
				}
			}
			if i < len(px) && px[i].cnt != nil {
				out = append(out, StrPart{rep: px[i].rep, cnt: e.tc.Ite(c, px[i].cnt, zero)})
				i++
				continue
			}
			if j < len(py) && py[j].cnt != nil {
				out = append(out, StrPart{rep: py[j].rep, cnt: e.tc.Ite(c, zero, py[j].cnt)})
				j++
				continue
			}
			return nil, false
		}
		return e.normRope(out), true
	}
	if x.fixedLen() != y.fixedLen() {
		return nil, false
	}
	bx, by := e.strBytes(x), e.strBytes(y)
	out := make([]SB, len(bx))
	for i := range out {
		if bx[i].t == by[i].t {
			out[i] = bx[i]
		} else {
			out[i] = SB{t: e.tc.Ite(c, bx[i].t, by[i].t)}
		}
	}
	return e.mkBytes(out), true
}

// ---- equality ----

func (e *Engine) eqValue(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return e.tc.Eq(x, b.(*Term))
	case float64:
		return e.tc.Bool(x == b.(float64))
	case *Str:
		return e.strEq(x, b.(*Str))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return e.tc.F
		}
		if x.sym != nil || y.sym != nil {
			x, y = e.resolve(x), e.resolve(y)
		}
		return e.tc.Bool(x.obj == y.obj && x.off == y.off)
	case Slice: // only comparable with nil
		y := b.(Slice)
		return e.tc.Bool(x.obj == nil && x.rope == nil && y.obj == nil && y.rope == nil)
	case *MapObj:
		return e.tc.Bool(x == b.(*MapObj))
	case *Closure:
		return e.tc.Bool(x == b.(*Closure))
	case *Opaque:
		y, _ := b.(*Opaque)
		return e.tc.Bool(x == y)
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return e.tc.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.tc.F
		}
		if !types.Comparable(x.t) {
			panic(e.rtPanic("comparing uncomparable type " + x.t.String()))
		}
		return e.eqValue(x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		r := e.tc.T
		for i := range x.v {
			r = e.tc.And(r, e.eqValue(x.v[i], y.v[i]))
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}

// ---- maps ----

// concKey returns a canonical string for a concrete key.
func (e *Engine) concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return fmt.Sprintf("i%d:%d", x.w, x.c), true
		}
	case *Str:
		if x.isConc() {
			return "s" + x.c, true
		}
	case float64:
		return fmt.Sprintf("f%v", x), true
	case Ptr:
		if x.obj == nil {
			return "p0", true
		}
		return fmt.Sprintf("p%d:%d", x.obj.id, x.off), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		k, ok := e.concKey(x.v)
		return "I" + x.t.String() + "|" + k, ok
	case *Agg:
		var sb strings.Builder
		sb.WriteString("A")
		for _, y := range x.v {
			k, ok := e.concKey(y)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d;%s", len(k), k)
		}
		return sb.String(), true
	}
	return "", false
}

func (e *Engine) mapRead(m *MapObj) {
	if e.reads != nil && m.id <= e.readMark {
		e.mreads[m] = m.ver
	}
	e.accessMap(m, false)
}

// mapFind locates the entry for key, deciding symbolic key equalities.
func (e *Engine) mapFind(m *MapObj, key Value) *mapEntry {
	if m == nil {
		return nil
	}
	k, conc := e.concKey(key)
	if conc {
		if i, ok := m.index[k]; ok && !m.entries[i].dead {
			return m.entries[i]
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for i := len(m.entries) - 1; i >= 0; i-- {
		en := m.entries[i]
		if en.dead {
			continue
		}
		if conc {
			if _, c2 := e.concKey(en.key); c2 {
				continue
			}
		}
		if e.truth(e.eqValue(en.key, key)) {
			return en
		}
	}
	return nil
}

func (e *Engine) mapLookup(m *MapObj, key Value, vt types.Type) (Value, *Term) {
	zero := e.zero(vt)
	if m == nil {
		return zero, e.tc.F
	}
	e.mapRead(m)
	if _, conc := e.concKey(key); conc && m.symKeys == 0 {
		if en := e.mapFind(m, key); en != nil {
			return en.val, e.tc.T
		}
		return zero, e.tc.F
	}
	// merged lookup when the values merge
	val, found := zero, e.tc.F
	ok := true
	for _, en := range m.entries {
		if en.dead {
			continue
		}
		c := e.eqValue(en.key, key)
		if c.isFalse() {
			continue
		}
		var v Value
		v, ok = e.mergeValue(c, en.val, val)
		if !ok {
			break
		}
		val = v
		found = e.tc.Or(found, c)
	}
	if ok {
		return val, found
	}
	if en := e.mapFind(m, key); en != nil {
		return en.val, e.tc.T
	}
	return zero, e.tc.F
}

func (e *Engine) mapTouch(m *MapObj) {
	if e.mergeLvl > 0 && m.id <= e.mergeMark {
		panic(mergeAbort{"writes shared map"})
	}
	old := m.ver
	e.pushUndo(func() { m.ver = old })
	e.verCtr++
	m.ver = e.verCtr
	e.accessMap(m, true)
}

func (e *Engine) mapUpdate(m *MapObj, key, val Value) {
	if m == nil {
		panic(e.rtPanic("assignment to entry in nil map"))
	}
	en := e.mapFind(m, key)
	e.mapTouch(m)
	if en != nil {
		old := en.val
		e.pushUndo(func() { en.val = old })
		en.val = val
		return
	}
	en = &mapEntry{key: key, val: val}
	n := len(m.entries)
	m.entries = append(m.entries, en)
	m.live++
	k, conc := e.concKey(key)
	oldIdx, had := 0, false
	if conc {
		oldIdx, had = m.index[k]
		m.index[k] = n
	} else {
		m.symKeys++
	}
	e.pushUndo(func() {
		m.entries = m.entries[:n]
		m.live--
		if conc {
			if had {
				m.index[k] = oldIdx
			} else {
				delete(m.index, k)
			}
		} else {
			m.symKeys--
		}
	})
}

func (e *Engine) mapDelete(m *MapObj, key Value) {
	if m == nil {
		return
	}
	en := e.mapFind(m, key)
	if en == nil {
		return
	}
	e.mapTouch(m)
	en.dead = true
	m.live--
	_, conc := e.concKey(en.key)
	if !conc {
		m.symKeys--
	}
	e.pushUndo(func() {
		en.dead = false
		m.live++
		if !conc {
			m.symKeys++
		}
	})
}

func (e *Engine) mapClear(m *MapObj) {
	if m == nil {
		return
	}
	for _, en := range append([]*mapEntry{}, m.entries...) {
		if !en.dead {
			e.mapTouch(m)
			en := en
			en.dead = true
			m.live--
			_, conc := e.concKey(en.key)
			if !conc {
				m.symKeys--
			}
			e.pushUndo(func() {
				en.dead = false
				m.live++
				if !conc {
					m.symKeys++
				}
			})
		}
	}
}
