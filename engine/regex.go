package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
)

// Regular expressions: the pattern is compiled by the real regexp/syntax; the
// matcher runs over symbolic runes. M(pc,pos) is the condition that a match
// exists from an instruction at a position; the leftmost-first choice between
// alternatives is then decided by those conditions.

type rx struct {
	src  string
	prog *syntax.Prog
	ncap int
	re   *regexp.Regexp
}

func (e *Engine) rxCompile(pat string) (*rx, error) {
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	ncap := p.MaxCap()
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &rx{src: pat, prog: prog, ncap: ncap, re: re}, nil
}

func rxOf(v Value) *rx {
	p := v.(Ptr)
	if p.obj == nil {
		panic(unsupported("nil regexp"))
	}
	o, ok := p.obj.cells[0].(*Opaque)
	if !ok {
		panic(unsupported("regexp object"))
	}
	return o.x.(*rx)
}

// classCond: the rune is in the instruction's class.
func (e *Engine) classCond(i *syntax.Inst, r *Term) *Term {
	if r.isConst() {
		return e.tc.Bool(i.MatchRune(rune(int32(r.c))))
	}
	c := e.tc
	switch i.Op {
	case syntax.InstRuneAny:
		return c.T
	case syntax.InstRuneAnyNotNL:
		return c.Not(c.Eq(r, c.Const(32, '\n')))
	}
	eq := func(x rune) *Term { return c.Eq(r, c.Const(32, uint64(x))) }
	rs := i.Rune
	if len(rs) == 1 {
		k := eq(rs[0])
		if syntax.Flags(i.Arg)&syntax.FoldCase != 0 {
			for x := unicode.SimpleFold(rs[0]); x != rs[0]; x = unicode.SimpleFold(x) {
				k = c.Or(k, eq(x))
			}
		}
		return k
	}
	k := c.F
	for j := 0; j+1 < len(rs); j += 2 {
		lo, hi := rs[j], rs[j+1]
		if lo == hi {
			k = c.Or(k, eq(lo))
			continue
		}
		k = c.Or(k, c.And(c.Ule(c.Const(32, uint64(lo)), r), c.Ule(r, c.Const(32, uint64(hi)))))
	}
	return k
}

type rxRun struct {
	e    *Engine
	x    *rx
	its  []runeItem
	memo map[[2]int]*Term
	busy map[[2]int]bool
}

func (m *rxRun) emptyCond(op syntax.EmptyOp, pos int) *Term {
	c := m.e.tc
	n := len(m.its)
	k := c.T
	nl := func(i int) *Term { return c.Eq(m.its[i].r, c.Const(32, '\n')) }
	word := func(i int) *Term {
		if i < 0 || i >= n {
			return c.F
		}
		r := m.its[i].r
		in := func(lo, hi uint64) *Term { return c.And(c.Ule(c.Const(32, lo), r), c.Ule(r, c.Const(32, hi))) }
		return c.Or(c.Or(in('a', 'z'), in('A', 'Z')), c.Or(in('0', '9'), c.Eq(r, c.Const(32, '_'))))
	}
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		k = c.F
	}
	if op&syntax.EmptyEndText != 0 && pos != n {
		k = c.F
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 {
		k = c.And(k, nl(pos-1))
	}
	if op&syntax.EmptyEndLine != 0 && pos != n {
		k = c.And(k, nl(pos))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := c.Not(c.Eq(word(pos-1), word(pos)))
		if op&syntax.EmptyWordBoundary != 0 {
			k = c.And(k, b)
		} else {
			k = c.And(k, c.Not(b))
		}
	}
	return k
}

// m: a match exists from instruction pc at position pos.
func (m *rxRun) m(pc, pos int) *Term {
	c := m.e.tc
	k := [2]int{pc, pos}
	if t, ok := m.memo[k]; ok {
		return t
	}
	if m.busy[k] {
		return c.F // an empty loop adds nothing
	}
	m.busy[k] = true
	i := &m.x.prog.Inst[pc]
	var t *Term
	switch i.Op {
	case syntax.InstMatch:
		t = c.T
	case syntax.InstFail:
		t = c.F
	case syntax.InstAlt, syntax.InstAltMatch:
		t = c.Or(m.m(int(i.Out), pos), m.m(int(i.Arg), pos))
	case syntax.InstCapture, syntax.InstNop:
		t = m.m(int(i.Out), pos)
	case syntax.InstEmptyWidth:
		t = m.emptyCond(syntax.EmptyOp(i.Arg), pos)
		if !t.isFalse() {
			t = c.And(t, m.m(int(i.Out), pos))
		}
	default:
		if pos >= len(m.its) {
			t = c.F
		} else {
			t = m.e.classCond(i, m.its[pos].r)
			if v, ok := m.e.quick(t, 0); ok {
				t = c.Bool(v)
			}
			if !t.isFalse() {
				t = c.And(t, m.m(int(i.Out), pos+1))
			}
		}
	}
	delete(m.busy, k)
	m.memo[k] = t
	return t
}

// match finds the leftmost-first match starting the search at item from.
// It returns item positions of the captures (nil: no match).
func (m *rxRun) match(from int) []int {
	start := -1
	pc0 := m.x.prog.Start
	for s := from; s <= len(m.its); s++ {
		if m.e.truth(m.m(pc0, s)) {
			start = s
			break
		}
	}
	if start < 0 {
		return nil
	}
	caps := make([]int, 2*(m.x.ncap+1))
	for i := range caps {
		caps[i] = -1
	}
	caps[0] = start
	pos, pc := start, pc0
	seen := map[[2]int]bool{}
	for {
		i := &m.x.prog.Inst[pc]
		switch i.Op {
		case syntax.InstMatch:
			caps[1] = pos
			return caps
		case syntax.InstAlt, syntax.InstAltMatch:
			k := [2]int{pc, pos}
			if !seen[k] && m.e.truth(m.m(int(i.Out), pos)) {
				seen[k] = true
				pc = int(i.Out)
			} else {
				pc = int(i.Arg)
			}
		case syntax.InstCapture:
			if int(i.Arg) < len(caps) {
				caps[i.Arg] = pos
			}
			pc = int(i.Out)
		case syntax.InstNop, syntax.InstEmptyWidth:
			pc = int(i.Out)
		case syntax.InstFail:
			panic(unsupported("regexp walk"))
		default:
			pos++
			pc = int(i.Out)
		}
	}
}

func (e *Engine) rxNew(x *rx, s *Str) *rxRun {
	return &rxRun{e: e, x: x, its: e.items(s), memo: map[[2]int]*Term{}, busy: map[[2]int]bool{}}
}

func (m *rxRun) off(s *Str, i int) *Term {
	if i >= len(m.its) {
		return m.e.strLen(s)
	}
	return m.its[i].off
}

func (e *Engine) intSlice(ts []*Term) Slice {
	cells := make([]Value, len(ts))
	for i, t := range ts {
		cells[i] = t
	}
	o := e.alloc(cells, "")
	o.elem = types.Typ[types.Int]
	return Slice{obj: o, len: len(ts), cap: len(ts), esz: 1}
}

func (e *Engine) rxFind(x *rx, s *Str) []*Term {
	if s.isConc() {
		loc := x.re.FindStringSubmatchIndex(s.c)
		if loc == nil {
			return nil
		}
		out := make([]*Term, len(loc))
		for i, v := range loc {
			out[i] = e.tc.Const(64, uint64(int64(v)))
		}
		return out
	}
	m := e.rxNew(x, s)
	caps := m.match(0)
	if caps == nil {
		return nil
	}
	out := make([]*Term, len(caps))
	for i, p := range caps {
		if p < 0 {
			out[i] = e.tc.Const(64, ^uint64(0))
		} else {
			out[i] = m.off(s, p)
		}
	}
	return out
}

// rxAll returns all non-overlapping matches as item positions, like FindAll.
func (e *Engine) rxAll(x *rx, s *Str, n int) (*rxRun, [][]int) {
	m := e.rxNew(x, s)
	var out [][]int
	pos, prevEnd := 0, -1
	for pos <= len(m.its) && (n < 0 || len(out) < n) {
		caps := m.match(pos)
		if caps == nil {
			break
		}
		accept := true
		if caps[1] == pos {
			if caps[0] == prevEnd {
				accept = false
			}
			pos++
		} else {
			pos = caps[1]
		}
		prevEnd = caps[1]
		if accept {
			out = append(out, caps)
		}
	}
	return m, out
}

func (e *Engine) rxReplace(x *rx, s *Str, repl *Str, literal bool) *Str {
	if !literal {
		if !repl.isConc() || strings.Contains(repl.c, "$") {
			panic(unsupported("regexp replacement template"))
		}
	}
	m, all := e.rxAll(x, s, -1)
	r := emptyStr
	last := e.k64(0)
	for _, c := range all {
		r = e.concat(r, e.strSlice(s, last, m.off(s, c[0])))
		r = e.concat(r, repl)
		last = m.off(s, c[1])
	}
	return e.concat(r, e.strSlice(s, last, nil))
}

func (e *Engine) nilSlice() Slice { return Slice{esz: 1} }

func (e *Engine) strSliceVal(ss []*Str) Slice {
	cells := make([]Value, len(ss))
	for i, s := range ss {
		cells[i] = s
	}
	o := e.alloc(cells, "")
	o.elem = types.Typ[types.String]
	return Slice{obj: o, len: len(ss), cap: len(ss), esz: 1}
}

func regexpIntrinsics() {
	mk := func(e *Engine, a []Value) (Value, error) {
		x, err := e.rxCompile(e.cstrArg(a[0]))
		if err != nil {
			return nil, err
		}
		o := e.alloc([]Value{&Opaque{kind: "regexp", x: x}}, "regexp")
		return Ptr{obj: o}, nil
	}
	T := intrTable
	T["regexp.MustCompile"] = func(e *Engine, a []Value) Value {
		v, err := mk(e, a)
		if err != nil {
			panic(goPanicReq{v: Iface{t: types.Typ[types.String], v: cs(err.Error())}, msg: err.Error()})
		}
		return v
	}
	T["regexp.Compile"] = func(e *Engine, a []Value) Value {
		v, err := mk(e, a)
		if err != nil {
			return Tuple{Ptr{}, e.newError(cs(err.Error()))}
		}
		return Tuple{v, Iface{}}
	}
	find := func(e *Engine, x *rx, s *Str, sub bool) Value {
		loc := e.rxFind(x, s)
		if loc == nil {
			return e.nilSlice()
		}
		if !sub {
			loc = loc[:2]
		}
		return e.intSlice(loc)
	}
	T["(*regexp.Regexp).FindStringIndex"] = func(e *Engine, a []Value) Value { return find(e, rxOf(a[0]), a[1].(*Str), false) }
	T["(*regexp.Regexp).FindIndex"] = func(e *Engine, a []Value) Value {
		return find(e, rxOf(a[0]), e.bytesToStr(a[1].(Slice)), false)
	}
	T["(*regexp.Regexp).FindStringSubmatchIndex"] = func(e *Engine, a []Value) Value { return find(e, rxOf(a[0]), a[1].(*Str), true) }
	T["(*regexp.Regexp).FindString"] = func(e *Engine, a []Value) Value {
		loc := e.rxFind(rxOf(a[0]), a[1].(*Str))
		if loc == nil {
			return emptyStr
		}
		return e.strSlice(a[1].(*Str), loc[0], loc[1])
	}
	T["(*regexp.Regexp).FindStringSubmatch"] = func(e *Engine, a []Value) Value {
		s := a[1].(*Str)
		loc := e.rxFind(rxOf(a[0]), s)
		if loc == nil {
			return e.nilSlice()
		}
		var out []*Str
		for i := 0; i < len(loc); i += 2 {
			if loc[i].isConst() && int64(loc[i].c) < 0 {
				out = append(out, emptyStr)
			} else {
				out = append(out, e.strSlice(s, loc[i], loc[i+1]))
			}
		}
		return e.strSliceVal(out)
	}
	T["(*regexp.Regexp).MatchString"] = func(e *Engine, a []Value) Value {
		return e.tc.Bool(e.rxFind(rxOf(a[0]), a[1].(*Str)) != nil)
	}
	T["(*regexp.Regexp).Match"] = func(e *Engine, a []Value) Value {
		return e.tc.Bool(e.rxFind(rxOf(a[0]), e.bytesToStr(a[1].(Slice))) != nil)
	}
	T["regexp.MatchString"] = func(e *Engine, a []Value) Value {
		x, err := e.rxCompile(e.cstrArg(a[0]))
		if err != nil {
			return Tuple{e.tc.F, e.newError(cs(err.Error()))}
		}
		return Tuple{e.tc.Bool(e.rxFind(x, a[1].(*Str)) != nil), Iface{}}
	}
	T["(*regexp.Regexp).String"] = func(e *Engine, a []Value) Value { return cs(rxOf(a[0]).src) }
	T["(*regexp.Regexp).NumSubexp"] = func(e *Engine, a []Value) Value { return e.k64(rxOf(a[0]).ncap) }
	T["(*regexp.Regexp).Longest"] = func(e *Engine, a []Value) Value { panic(unsupported("regexp Longest")) }
	T["(*regexp.Regexp).ReplaceAllString"] = func(e *Engine, a []Value) Value {
		return e.rxReplace(rxOf(a[0]), a[1].(*Str), a[2].(*Str), false)
	}
	T["(*regexp.Regexp).ReplaceAllLiteralString"] = func(e *Engine, a []Value) Value {
		return e.rxReplace(rxOf(a[0]), a[1].(*Str), a[2].(*Str), true)
	}
	all := func(e *Engine, x *rx, s *Str, nv *Term, index, sub bool) Value {
		n := int(int64(e.concretize(nv, "match limit")))
		m, caps := e.rxAll(x, s, n)
		if len(caps) == 0 {
			return e.nilSlice()
		}
		cells := make([]Value, len(caps))
		for i, c := range caps {
			if !sub {
				c = c[:2]
			}
			if index {
				ts := make([]*Term, len(c))
				for k, p := range c {
					if p < 0 {
						ts[k] = e.tc.Const(64, ^uint64(0))
					} else {
						ts[k] = m.off(s, p)
					}
				}
				cells[i] = e.intSlice(ts)
			} else {
				cells[i] = e.strSlice(s, m.off(s, c[0]), m.off(s, c[1]))
			}
		}
		o := e.alloc(cells, "")
		return Slice{obj: o, len: len(cells), cap: len(cells), esz: 1}
	}
	T["(*regexp.Regexp).FindAllStringIndex"] = func(e *Engine, a []Value) Value {
		return all(e, rxOf(a[0]), a[1].(*Str), a[2].(*Term), true, false)
	}
	T["(*regexp.Regexp).FindAllIndex"] = func(e *Engine, a []Value) Value {
		return all(e, rxOf(a[0]), e.bytesToStr(a[1].(Slice)), a[2].(*Term), true, false)
	}
	T["(*regexp.Regexp).FindAllStringSubmatchIndex"] = func(e *Engine, a []Value) Value {
		return all(e, rxOf(a[0]), a[1].(*Str), a[2].(*Term), true, true)
	}
	T["(*regexp.Regexp).FindAllString"] = func(e *Engine, a []Value) Value {
		return all(e, rxOf(a[0]), a[1].(*Str), a[2].(*Term), false, false)
	}
	_ = fmt.Sprint
}
