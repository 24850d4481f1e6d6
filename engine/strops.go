package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"
)

// ---- runes in strings ----

// runeLen is the UTF-8 length of a code point, as a 64-bit term.
func (e *Engine) runeLen(r *Term) *Term {
	c := e.tc
	k := func(v uint64) *Term { return c.Const(64, v) }
	lt := func(v uint64) *Term { return c.Ult(r, c.Const(r.w, v)) }
	return c.Ite(lt(0x80), k(1), c.Ite(lt(0x800), k(2), c.Ite(lt(0x10000), k(3), k(4))))
}

// encodeN gives the n UTF-8 bytes of a code point known to need n bytes.
func (e *Engine) encodeN(r *Term, n int) []SB {
	c := e.tc
	if r.isConst() {
		var out []SB
		for _, b := range []byte(string(rune(int32(r.c)))) {
			out = append(out, SB{t: c.Const(8, uint64(b))})
		}
		return out
	}
	tag := &RuneTag{r: r, n: n}
	six := func(sh uint64) *Term {
		x := c.Shift(OLshr, r, c.Const(r.w, sh))
		return c.Bit(OBor, c.Const(8, 0x80), c.Bit(OBand, c.Extract(x, 8), c.Const(8, 0x3f)))
	}
	head := func(sh uint64, base uint64) *Term {
		x := c.Shift(OLshr, r, c.Const(r.w, sh))
		return c.Bit(OBor, c.Const(8, base), c.Extract(x, 8))
	}
	var ts []*Term
	switch n {
	case 1:
		ts = []*Term{c.Extract(r, 8)}
	case 2:
		ts = []*Term{head(6, 0xC0), six(0)}
	case 3:
		ts = []*Term{head(12, 0xE0), six(6), six(0)}
	case 4:
		ts = []*Term{head(18, 0xF0), six(12), six(6), six(0)}
	}
	out := make([]SB, n)
	for i := range ts {
		out[i] = SB{t: ts[i], rt: tag, k: i}
	}
	return out
}

// runeStr is the one-rune string of a valid code point term.
func (e *Engine) runeStr(r *Term) *Str {
	if r.isConst() {
		return cs(string(rune(int32(r.c))))
	}
	l := e.runeLen(r)
	if v, ok := e.constOf(l); ok {
		return e.mkBytes(e.encodeN(r, int(v)))
	}
	return &Str{parts: []StrPart{{r: r}}}
}

// validRune reports (deciding if needed) that r is a Unicode scalar value.
func (e *Engine) validRune(r *Term) bool {
	c := e.tc
	bad := c.Or(c.Ult(c.Const(32, 0x10FFFF), r), c.And(c.Ule(c.Const(32, 0xD800), r), c.Ule(r, c.Const(32, 0xDFFF))))
	return !e.truth(bad)
}

type runeItem struct {
	r   *Term // 32-bit rune value (RuneError for invalid bytes)
	off *Term // byte offset (64 bits)
	n   *Term // byte length (64 bits)
}

// decodeAt decodes the rune at a byte position of a fixed-length string.
func (e *Engine) decodeAt(b []SB, i int) (*Term, int) {
	c := e.tc
	x := b[i]
	if x.rt != nil && x.k == 0 && i+x.rt.n <= len(b) {
		ok := true
		for k := 1; k < x.rt.n; k++ {
			if b[i+k].rt != x.rt || b[i+k].k != k {
				ok = false
			}
		}
		if ok {
			return x.rt.r, x.rt.n
		}
	}
	allc := true
	for k := i; k < len(b) && k < i+4; k++ {
		if !b[k].t.isConst() {
			allc = false
			break
		}
		if b[k].t.c < 0x80 || k == i+3 {
			break
		}
	}
	if allc {
		var buf []byte
		for k := i; k < len(b) && k < i+4 && b[k].t.isConst(); k++ {
			buf = append(buf, byte(b[k].t.c))
		}
		r, n := utf8.DecodeRune(buf)
		return c.Const(32, uint64(r)), n
	}
	bad := c.Const(32, utf8.RuneError)
	k8 := func(v uint64) *Term { return c.Const(8, v) }
	in := func(t *Term, lo, hi uint64) bool {
		return e.truth(c.And(c.Ule(k8(lo), t), c.Ule(t, k8(hi))))
	}
	t := x.t
	if in(t, 0, 0x7f) {
		return c.Zext(t, 32), 1
	}
	low := func(t *Term) *Term { return c.Zext(c.Bit(OBand, t, k8(0x3f)), 32) }
	sh := func(t *Term, n uint64) *Term { return c.Shift(OShl, t, c.Const(32, n)) }
	or := func(a, b *Term) *Term { return c.Bit(OBor, a, b) }
	have := func(n int) bool { return i+n <= len(b) }
	cont := func(k int, lo, hi uint64) bool { return i+k < len(b) && in(b[i+k].t, lo, hi) }
	if in(t, 0xC2, 0xDF) {
		if have(2) && cont(1, 0x80, 0xBF) {
			return or(sh(c.Zext(c.Bit(OBand, t, k8(0x1f)), 32), 6), low(b[i+1].t)), 2
		}
		return bad, 1
	}
	if in(t, 0xE0, 0xEF) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if e.truth(c.Eq(t, k8(0xE0))) {
			lo = 0xA0
		} else if e.truth(c.Eq(t, k8(0xED))) {
			hi = 0x9F
		}
		if have(3) && cont(1, lo, hi) && cont(2, 0x80, 0xBF) {
			return or(or(sh(c.Zext(c.Bit(OBand, t, k8(0x0f)), 32), 12), sh(low(b[i+1].t), 6)), low(b[i+2].t)), 3
		}
		return bad, 1
	}
	if in(t, 0xF0, 0xF4) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if e.truth(c.Eq(t, k8(0xF0))) {
			lo = 0x90
		} else if e.truth(c.Eq(t, k8(0xF4))) {
			hi = 0x8F
		}
		if have(4) && cont(1, lo, hi) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) {
			return or(or(sh(c.Zext(c.Bit(OBand, t, k8(0x07)), 32), 18), sh(low(b[i+1].t), 12)), or(sh(low(b[i+2].t), 6), low(b[i+3].t))), 4
		}
		return bad, 1
	}
	return bad, 1
}

// items decodes a whole string into runes with byte offsets.
func (e *Engine) items(s *Str) []runeItem {
	c := e.tc
	k := func(v int) *Term { return c.Const(64, uint64(v)) }
	if s.isConc() {
		var out []runeItem
		for i := 0; i < len(s.c); {
			r, n := utf8.DecodeRuneInString(s.c[i:])
			out = append(out, runeItem{c.Const(32, uint64(r)), k(i), k(n)})
			i += n
		}
		return out
	}
	// repetitions must have a decided count
	for _, p := range s.parts {
		if p.cnt != nil {
			s = e.forceCounts(s)
			break
		}
	}
	off := k(0)
	var out []runeItem
	for _, p := range s.asParts() {
		if p.r != nil {
			n := e.runeLen(p.r)
			out = append(out, runeItem{p.r, off, n})
			off = c.Add(off, n)
			continue
		}
		b := e.partBytes(p)
		for i := 0; i < len(b); {
			r, n := e.decodeAt(b, i)
			out = append(out, runeItem{r, off, k(n)})
			off = c.Add(off, k(n))
			i += n
		}
	}
	return out
}

// firstItem decodes only the first rune.
func (e *Engine) firstItem(s *Str) (runeItem, bool) {
	c := e.tc
	if s.isRope() {
		p := s.parts[0]
		if p.r != nil {
			return runeItem{p.r, c.Const(64, 0), e.runeLen(p.r)}, true
		}
		if p.cnt != nil {
			return e.firstItem(e.forceCounts(s))
		}
		b := e.partBytes(p)
		r, n := e.decodeAt(b, 0)
		return runeItem{r, c.Const(64, 0), c.Const(64, uint64(n))}, true
	}
	if s.fixedLen() == 0 {
		return runeItem{}, false
	}
	if s.isConc() {
		r, n := utf8.DecodeRuneInString(s.c)
		return runeItem{c.Const(32, uint64(r)), c.Const(64, 0), c.Const(64, uint64(n))}, true
	}
	r, n := e.decodeAt(s.b, 0)
	return runeItem{r, c.Const(64, 0), c.Const(64, uint64(n))}, true
}

func (e *Engine) runeItems(it *StrIter) []runeItem {
	if it.items == nil {
		// decoding can fork: facts are path-dependent, so no sharing across paths
		return e.items(it.s)
	}
	return it.items
}

func (e *Engine) forceCounts(s *Str) *Str {
	ps := append([]StrPart{}, s.parts...)
	for i := range ps {
		if ps[i].cnt != nil {
			v := e.concretize(ps[i].cnt, "length of a repeated text")
			if v > 1<<20 {
				panic(unsupported("very long text"))
			}
			ps[i].cnt = e.tc.Const(64, v)
		}
	}
	return e.normRope(ps)
}

// runeSeq returns the sequence of code points of a string made only of whole
// valid runes (without deciding anything), or false.
func (e *Engine) runeSeq(s *Str) ([]*Term, bool) {
	var out []*Term
	conc := func(x string) bool {
		if !utf8.ValidString(x) {
			return false
		}
		for _, r := range x {
			out = append(out, e.tc.Const(32, uint64(r)))
		}
		return true
	}
	if s.isConc() {
		return out, conc(s.c)
	}
	for _, p := range s.asParts() {
		switch {
		case p.cnt != nil:
			return nil, false
		case p.r != nil:
			out = append(out, p.r)
		case p.b == nil:
			if !conc(p.c) {
				return nil, false
			}
		default:
			b := p.b
			for i := 0; i < len(b); {
				if b[i].rt != nil && b[i].k == 0 && i+b[i].rt.n <= len(b) {
					for k := 1; k < b[i].rt.n; k++ {
						if b[i+k].rt != b[i].rt {
							return nil, false
						}
					}
					out = append(out, b[i].rt.r)
					i += b[i].rt.n
					continue
				}
				if !b[i].t.isConst() {
					return nil, false
				}
				var buf []byte
				for k := i; k < len(b) && b[k].t.isConst() && k < i+4; k++ {
					buf = append(buf, byte(b[k].t.c))
				}
				r, n := utf8.DecodeRune(buf)
				if r == utf8.RuneError && n == 1 {
					return nil, false
				}
				out = append(out, e.tc.Const(32, uint64(r)))
				i += n
			}
		}
	}
	return out, true
}

// ---- linear terms ----

type lin struct {
	m map[*Term]int64
	k int64
}

// linOf decomposes a sum that cannot wrap.
func linOf(t *Term, l *lin, sign int64, depth int) bool {
	if t.isConst() {
		if t.c > 1<<40 {
			return false
		}
		l.k += sign * int64(t.c)
		return true
	}
	if t.hi > 1<<40 || depth > 40 {
		return false
	}
	if t.op == OAdd {
		h := t.a.hi + t.b.hi
		if t.a.hi <= 1<<40 && t.b.hi <= 1<<40 && h <= maskOf(t.w) {
			return linOf(t.a, l, sign, depth+1) && linOf(t.b, l, sign, depth+1)
		}
	}
	if t.op == OZext {
		return linOf(t.a, l, sign, depth+1)
	}
	l.m[t] += sign
	return true
}

// linDiff bounds a-b as mathematical integers.
func (e *Engine) linDiff(a, b *Term, depth int) (lo, hi int64, ok bool) {
	if a.op != OAdd && b.op != OAdd {
		return 0, 0, false
	}
	l := lin{m: map[*Term]int64{}}
	if !linOf(a, &l, 1, 0) || !linOf(b, &l, -1, 0) {
		return 0, 0, false
	}
	lo, hi = l.k, l.k
	for t, c := range l.m {
		if c == 0 {
			continue
		}
		tl, th := e.rngD(t, depth+1)
		if c > 0 {
			lo += c * int64(tl)
			hi += c * int64(th)
		} else {
			lo += c * int64(th)
			hi += c * int64(tl)
		}
	}
	return lo, hi, true
}

// sameLin: two terms are syntactically the same sum.
func (e *Engine) sameLin(a, b *Term) bool {
	if a == b {
		return true
	}
	if v, ok := e.constOf(a); ok {
		if w, ok := e.constOf(b); ok {
			return v == w
		}
	}
	l := lin{m: map[*Term]int64{}}
	if !linOf(a, &l, 1, 0) || !linOf(b, &l, -1, 0) || l.k != 0 {
		return false
	}
	for _, c := range l.m {
		if c != 0 {
			return false
		}
	}
	return true
}

// ropeSlice slices a rope at offsets that are part boundaries (or inside fixed
// parts at a fixed distance from one).
func (e *Engine) ropeSlice(s *Str, lo, hi *Term) (*Str, bool) {
	c := e.tc
	type bnd struct {
		off *Term
		i   int
	}
	var bs []bnd
	off := c.Const(64, 0)
	for i, p := range s.parts {
		bs = append(bs, bnd{off, i})
		off = c.Add(off, e.partLen(p))
	}
	total := off
	// locate returns part index and byte offset inside it
	locate := func(t *Term) (int, int, bool) {
		if e.sameLin(t, total) {
			return len(s.parts), 0, true
		}
		for _, b := range bs {
			if e.sameLin(t, b.off) {
				return b.i, 0, true
			}
		}
		for _, b := range bs {
			p := s.parts[b.i]
			if p.cnt != nil || p.r != nil {
				continue
			}
			n := len(p.b)
			if p.b == nil {
				n = len(p.c)
			}
			for k := 1; k < n; k++ {
				if e.sameLin(t, c.Add(b.off, c.Const(64, uint64(k)))) {
					return b.i, k, true
				}
			}
		}
		return 0, 0, false
	}
	if hi == nil {
		hi = total
	}
	li, lk, ok1 := locate(lo)
	hi_, hk, ok2 := locate(hi)
	if !ok1 || !ok2 {
		return nil, false
	}
	if li > hi_ || (li == hi_ && lk > hk) {
		return nil, false
	}
	var out []StrPart
	cut := func(p StrPart, a, b int) StrPart {
		if p.b != nil {
			if b < 0 {
				b = len(p.b)
			}
			return StrPart{b: p.b[a:b:b]}
		}
		if b < 0 {
			b = len(p.c)
		}
		return StrPart{c: p.c[a:b]}
	}
	for i := li; i < len(s.parts) && i <= hi_; i++ {
		p := s.parts[i]
		a, b := 0, -1
		if i == li {
			a = lk
		}
		if i == hi_ {
			if hk == 0 {
				break
			}
			b = hk
		}
		if a > 0 || b >= 0 {
			p = cut(p, a, b)
		}
		out = append(out, p)
	}
	return e.normRope(out), true
}

func (e *Engine) partLen(p StrPart) *Term {
	switch {
	case p.r != nil:
		return e.runeLen(p.r)
	case p.cnt != nil:
		return e.tc.Mul(p.cnt, e.tc.Const(64, uint64(len(p.rep))))
	case p.b != nil:
		return e.tc.Const(64, uint64(len(p.b)))
	}
	return e.tc.Const(64, uint64(len(p.c)))
}

// ---- conversions ----

func (e *Engine) convert(v Value, from, to types.Type) Value {
	c := e.tc
	fw, fs, fok := scalarType(from)
	tw, _, tok := scalarType(to)
	if fok && tok {
		t := v.(*Term)
		if fw == tw {
			return t
		}
		if tw < fw {
			return c.Extract(t, tw)
		}
		if fs {
			return c.Sext(t, tw)
		}
		return c.Zext(t, tw)
	}
	tb, _ := to.Underlying().(*types.Basic)
	fb, _ := from.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fok {
			t := v.(*Term)
			if fs {
				t = c.Sext(t, 64)
			} else {
				t = c.Zext(t, 64)
			}
			if e.truth(c.Ult(c.Const(64, 0x10FFFF), t)) {
				return cs("\uFFFD")
			}
			r := c.Extract(t, 32)
			if !e.validRune(r) {
				return cs("\uFFFD")
			}
			return e.runeStr(r)
		}
		switch x := v.(type) {
		case *Str:
			return x
		case Slice:
			el := from.Underlying().(*types.Slice).Elem()
			if w, _, _ := scalarType(el); w == 8 {
				return e.bytesToStr(x)
			}
			s := emptyStr
			for i := 0; i < x.len; i++ {
				r := x.obj.cells[x.off+i].(*Term)
				if !e.validRune(r) {
					s = e.concat(s, cs("\uFFFD"))
				} else {
					s = e.concat(s, e.runeStr(r))
				}
			}
			return s
		}
	}
	if s, ok := v.(*Str); ok {
		if sl, isS := to.Underlying().(*types.Slice); isS {
			if w, _, _ := scalarType(sl.Elem()); w == 8 {
				return e.bytesOf(s)
			}
			its := e.items(s)
			cells := make([]Value, len(its))
			for i := range its {
				cells[i] = its[i].r
			}
			return Slice{obj: e.alloc(cells, ""), len: len(its), cap: len(its), esz: 1}
		}
		return s
	}
	if fok && tb != nil && tb.Info()&types.IsFloat != 0 {
		t := v.(*Term)
		if !t.isConst() {
			panic(unsupported("symbolic integer to float"))
		}
		if fs {
			return float64(sext64(t.c, t.w))
		}
		return float64(t.c)
	}
	if x, ok := v.(float64); ok {
		if tok {
			return c.Const(tw, uint64(int64(x)))
		}
		if tb != nil && tb.Kind() == types.Float32 {
			return float64(float32(x))
		}
		return x
	}
	if fb != nil && fb.Kind() == types.UnsafePointer || tb != nil && tb.Kind() == types.UnsafePointer {
		if p, ok := v.(Ptr); ok {
			return p
		}
	}
	switch v.(type) {
	case Slice, *MapObj, *Closure, Iface, Ptr, *Agg:
		return v
	}
	panic(unsupported(fmt.Sprintf("conversion %s to %s", from, to)))
}

// ---- byte-level string predicates over fixed-length or rope texts ----

// hasPrefix decides nothing for fixed-length texts: it builds the condition.
func (e *Engine) hasPrefix(s, p *Str) *Term {
	if r, ok := e.ropeEnd(s, p, true); ok {
		return r
	}
	if s.isRope() || p.isRope() {
		s, p = e.force(s), e.force(p)
	}
	if p.fixedLen() > s.fixedLen() {
		return e.tc.F
	}
	return e.strEq(e.substr(s, 0, p.fixedLen()), p)
}

// ropeEnd compares the fixed text p with an end of the rope s as far as fixed
// parts stand there.
func (e *Engine) ropeEnd(s, p *Str, front bool) (*Term, bool) {
	if !s.isRope() || p.isRope() {
		return nil, false
	}
	if p.fixedLen() == 0 {
		return e.tc.T, true
	}
	parts := s.asParts()
	pb := e.strBytes(p)
	end := func(b []SB, n int) ([]SB, []SB) {
		if front {
			return b[:n], b[n:]
		}
		return b[len(b)-n:], b[:len(b)-n]
	}
	r := e.tc.T
	for i := range parts {
		x := parts[i]
		if !front {
			x = parts[len(parts)-1-i]
		}
		if x.r != nil || x.cnt != nil {
			return nil, false
		}
		xb := e.partBytes(x)
		n := min(len(xb), len(pb))
		a, _ := end(xb, n)
		b, rest := end(pb, n)
		r = e.tc.And(r, e.strEq(e.mkBytes(a), e.mkBytes(b)))
		if pb = rest; len(pb) == 0 || r.isFalse() {
			return r, true
		}
	}
	return nil, false
}

func (e *Engine) hasSuffix(s, p *Str) *Term {
	if r, ok := e.ropeEnd(s, p, false); ok {
		return r
	}
	if s.isRope() || p.isRope() {
		s, p = e.force(s), e.force(p)
	}
	if p.fixedLen() > s.fixedLen() {
		return e.tc.F
	}
	return e.strEq(e.substr(s, s.fixedLen()-p.fixedLen(), s.fixedLen()), p)
}

// mapCase lower- or upper-cases a text. Symbolic parts must be ASCII.
func (e *Engine) mapCase(s *Str, upper bool) *Str {
	if s.isConc() {
		if upper {
			return cs(strings.ToUpper(s.c))
		}
		return cs(strings.ToLower(s.c))
	}
	s = e.force(s)
	b := e.strBytes(s)
	out := make([]SB, len(b))
	c := e.tc
	k := func(v uint64) *Term { return c.Const(8, v) }
	ascii := true
	for i, x := range b {
		if !e.truth(c.Ult(x.t, k(0x80))) {
			ascii = false
		}
		lo, hi := uint64('A'), uint64('Z')
		if upper {
			lo, hi = 'a', 'z'
		}
		in := c.And(c.Ule(k(lo), x.t), c.Ule(x.t, k(hi)))
		out[i] = SB{t: c.Ite(in, c.Bit(OBxor, x.t, k(0x20)), x.t)}
	}
	if !ascii {
		// outside ASCII the general mapping is needed: decide the text
		buf := make([]byte, len(b))
		for i, x := range b {
			buf[i] = byte(e.concretize(x.t, "non-ASCII letter case"))
		}
		return e.mapCase(cs(string(buf)), upper)
	}
	return e.mkBytes(out)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
