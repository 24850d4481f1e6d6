package h

import (
	"errors"
	"io"
	"math"
	"os"
	"strings"
	"syscall"

	table "github.com/ilius/go-table"

	"verif/harness/v"
)

// rows is an item list.
type rows [][]string

func (r rows) Len() int           { return len(r) }
func (r rows) Get(i int) []string { return r[i] }

// recWriter keeps everything written. With fail > 0 it takes fail-1 lines and
// then no more: the write that goes on to the fail-th line is cut short there
// with an error, and so is every later one.
type recWriter struct {
	writes []string
	lines  int // newlines taken
	after  int // writes attempted after the failure
	fail   int // the line that fails
	part   int // how: at its first byte, after it, having taken all, at the newline
	err    error
	failed bool
}

func (w *recWriter) Write(p []byte) (int, error) {
	if w.fail > 0 {
		if w.failed {
			w.after++
			return 0, w.err
		}
		for i, b := range p {
			if w.lines >= w.fail-1 && (w.part != 3 || b == '\n') {
				w.failed = true
				w.writes = append(w.writes, string(p[:i]))
				switch w.part {
				case 1: // it took a byte of the line
					i++
				case 2: // it took all and fails nevertheless
					i = len(p)
				}
				return i, w.err
			}
			if b == '\n' {
				w.lines++
			}
		}
	}
	w.writes = append(w.writes, string(p))
	v.Assert(len(w.writes) < 2000, "the output does not end")
	return len(p), nil
}

func (w *recWriter) text() string { return strings.Join(w.writes, "") }

func merge(t *table.Table, out io.Writer, items table.FormattedItemList, vertical bool, maxWidth int, sep string, compact bool) {
	if vertical {
		t.MergeRowsVertical(out, items, maxWidth, sep, compact)
	} else {
		t.MergeRowsHorizontal(out, items, maxWidth, sep, compact)
	}
}

// setWidth tells the table one column's width.
func setWidth(t *table.Table, name string, w uint16) {
	t.UpdateWidth(map[string]uint16{name: w})
}

const anyInt = 1 << 40

var seps = []string{"", "|", " | ", "é", "═", "\n", "ab", "  ::  ::  ", strings.Repeat("-", 40)}

// tags are zero-width characters that mark the cells.
var tags = []string{}

func init() {
	for c := 1; c < 0x1b; c++ {
		if c != '\n' && c != '\r' && c != '\t' {
			tags = append(tags, string(rune(c)))
		}
	}
	for c := 0x80; c < 0x9b; c++ {
		if c != 0x85 {
			tags = append(tags, string(rune(c)))
		}
	}
}

// mark is what the marking alignment of a column makes of a cell: with blanks
// around, or nothing at all.
func mark(col int, s string) string {
	if v.Param("blank") == 1 && col == 0 {
		return ""
	}
	if col%2 == 0 {
		return " <" + s + "> "
	}
	return "\t{" + s + "}" + sp(v.Param("blank"))
}

// tails end the cells.
var tails = []string{"", " ", "\x1b[0m", "\r", "\t \x00"}

// earlier merges two other items on t, with a narrow first column, before.
func earlier(t *table.Table, cols int) {
	if v.Param("pre") == 0 || cols == 0 {
		return
	}
	setWidth(t, colNames[0], 1)
	row := make([]string, cols)
	for c := range row {
		row[c] = "\x7f" + sp(c)
	}
	for _, vert := range []bool{false, true} {
		for _, compact := range []bool{false, true} {
			merge(t, &recWriter{}, rows{row, row, row}, vert, 9, "|", compact)
		}
	}
}

// mergeSetup makes a table of marking alignments and n items with cells of any
// width up to kmax. An alignment checks that it gets the whole cell and returns
// the cell's tag in its column's brackets.
func mergeSetup(n, cols, kmax int) (*table.Table, rows) {
	items := make(rows, n)
	spec := table.NewTableSpec()
	for c := 0; c < cols; c++ {
		c := c
		spec.AddColumn(&table.Column{Name: colNames[c], Alignment: func(s string, w uint16) string {
			for i := range items {
				if tag := tags[i*cols+c]; len(s) >= len(tag) && s[:len(tag)] == tag {
					v.Assert(s == items[i][c], "the alignment gets the cell as it is")
					return mark(c, tags[i*cols+c])
				}
			}
			v.Assert(len(s) > 0 && s[:1] == "\x7f", "the alignment gets a cell of its column")
			return ""
		}})
	}
	t := table.NewTable(spec)
	earlier(t, cols)
	for c := 0; c < cols; c++ {
		w := uint16(fixedWidth(c))
		if v.Param("fix") == 0 {
			w = v.U16("w", 0, 65535)
		}
		setWidth(t, colNames[c], w)
	}
	for i := range items {
		items[i] = make([]string, cols)
		for c := range items[i] {
			k := fixedCell(i, c)
			if v.Param("fix") == 0 {
				k = v.Int("k", 0, kmax)
			}
			items[i][c] = tags[i*cols+c] + strings.Repeat("a", k) + tails[(i+c)%len(tails)]
		}
	}
	return t, items
}

// fixedCell and fixedWidth are the widths of the cells and columns of large
// tables, where only the maximum width is symbolic.
func fixedCell(i, c int) int {
	switch v.Param("fix") {
	case 1:
		return (i*7 + c*3) % 5
	case 2:
		return (i*i + c) % 11
	case 3:
		return 3
	case 4:
		if i == v.Param("n")-2 {
			return 30
		}
		return (i + c) % 2
	}
	return 0
}

func fixedWidth(c int) int {
	w := 0
	for i := 0; i < v.Param("n"); i++ {
		w = max(w, fixedCell(i, c))
	}
	return w
}

func maxWidth() int {
	switch v.Param("mw") {
	case 1:
		return math.MaxInt64
	case 2:
		return math.MinInt64
	}
	return v.Int("mw", -anyInt, anyInt)
}

func itemText(items rows, i int) string {
	s := ""
	for c := range items[i] {
		if c > 0 {
			s += " "
		}
		s += mark(c, tags[i*len(items[i])+c])
	}
	return s
}

// layout is the text of n items with l lines; per is the number of items from
// which on a line does not end in a separator.
func layoutH(items rows, g, per int, sep string) string {
	s := ""
	for i := 0; i < len(items); i += g {
		j := i
		for ; j < i+g && j < len(items); j++ {
			if j > i {
				s += sep
			}
			s += itemText(items, j)
		}
		if j-i < per {
			s += sep
		}
		s += "\n"
	}
	return s
}

func layoutV(items rows, l, per int, sep string) string {
	s := ""
	for i := 0; i < l; i++ {
		k := 0
		for j := i; j < len(items); j += l {
			if j > i {
				s += sep
			}
			s += itemText(items, j)
			k++
		}
		if k < per {
			s += sep
		}
		s += "\n"
	}
	return s
}

// MergeLayout: what is written is a layout of all items in order.
func MergeLayout() {
	n, cols := v.Param("n"), v.Param("cols")
	vert := v.Param("v") == 1
	sep := seps[v.Param("sep")]
	mw := maxWidth()
	t, items := mergeSetup(n, cols, v.Param("kmax"))
	out := &recWriter{}
	merge(t, out, items, vert, mw, sep, v.Param("c") == 1)
	got := out.text()
	v.ObsStr("got", got)
	if n == 0 {
		v.Assert(got == "", "an empty list writes nothing")
		return
	}
	ok := false
	for g := 1; g <= n; g++ {
		if vert {
			m := (n + g - 1) / g // items on the first line
			if got == layoutV(items, g, 0, sep) || got == layoutV(items, g, m, sep) || got == layoutV(items, g, m+1, sep) {
				ok = true
				break
			}
		} else if got == layoutH(items, g, 0, sep) || got == layoutH(items, g, g, sep) || g == n && got == layoutH(items, g, g+1, sep) {
			ok = true
			break
		}
	}
	v.Assert(ok, "every item is written once, in order, cells and items joined as stated")
}

// MergeNil: a missing alignment behaves as left alignment. The cells are short
// and their widths are those the table recorded or more.
func MergeNil() {
	n, cols := v.Param("n"), v.Param("cols")
	vert, c := v.Param("v") == 1, v.Param("c") == 1
	mw := maxWidth()
	items := make(rows, n)
	for i := range items {
		for c := 0; c < cols; c++ {
			items[i] = append(items[i], tags[i*cols+c]+strings.Repeat("a", v.Int("k", 0, v.Param("kmax"))))
		}
	}
	s1, s2 := table.NewTableSpec(), table.NewTableSpec()
	for c := 0; c < cols; c++ {
		s1.AddColumn(&table.Column{Name: colNames[c]})
		s2.AddColumn(&table.Column{Name: colNames[c], Alignment: table.AlignmentLeft})
	}
	t1, t2 := table.NewTable(s1), table.NewTable(s2)
	for c := 0; c < cols; c++ {
		w := v.U16("w", 0, 65535)
		setWidth(t1, colNames[c], w)
		setWidth(t2, colNames[c], w)
	}
	out, out2 := &recWriter{}, &recWriter{}
	merge(t1, out, items, vert, mw, "|", c)
	merge(t2, out2, items, vert, mw, "|", c)
	v.ObsStr("got", out.text())
	v.Assert(out.text() == out2.text(), "a missing alignment is left alignment")
}

// ---- geometry ----

// cellRec is one call of the recording alignment: cell width and width asked.
type cellRec struct {
	k, w int
	item int
	col  int
}

// geom merges items whose cells have symbolic widths; the recording alignment
// returns a token per call, so the lines written are concrete texts over tokens
// and separators, and only the widths are symbolic.
type geom struct {
	n, cols int
	t       *table.Table
	items   rows
	k       [][]int
	w       []int
	recs    []cellRec
	margin  int
	sep     string
	mw      int
	vert    bool
}

const tokBase = 0x2800 // Braille patterns: not used in separators

func newGeom(fits bool) *geom {
	g := &geom{n: v.Param("n"), cols: v.Param("cols"), vert: v.Param("v") == 1, sep: seps[v.Param("sep")]}
	g.margin = len(g.sep)
	g.mw = maxWidth()
	spec := table.NewTableSpec()
	for c := 0; c < g.cols; c++ {
		c := c
		spec.AddColumn(&table.Column{Name: colNames[c], Alignment: func(s string, w uint16) string {
			if s[:1] == "\x7f" {
				return s // of an earlier merge
			}
			item := -1
			for i := range g.items {
				if g.items[i][c][:1] == s[:1] {
					item = i
				}
			}
			v.Assert(item >= 0, "the alignment gets a cell")
			g.recs = append(g.recs, cellRec{k: g.k[item][c], w: int(w), item: item, col: c})
			return string(rune(tokBase + len(g.recs) - 1))
		}})
	}
	g.t = table.NewTable(spec)
	earlier(g.t, g.cols)
	for c := 0; c < g.cols; c++ {
		w := uint16(fixedWidth(c))
		if v.Param("fix") == 0 {
			w = v.U16("w", 0, 65535)
		}
		if c == 0 && v.Param("pre") == 1 && w == 0 {
			w = 1 // the earlier width
		}
		g.w = append(g.w, int(w))
		setWidth(g.t, colNames[c], w)
	}
	g.items = make(rows, g.n)
	g.k = make([][]int, g.n)
	for i := range g.items {
		g.items[i] = make([]string, g.cols)
		g.k[i] = make([]int, g.cols)
		for c := range g.items[i] {
			k := fixedCell(i, c)
			if v.Param("fix") == 0 {
				k = v.Int("k", 0, 65535)
			}
			if fits {
				v.Assume(k <= g.w[c])
			}
			g.k[i][c] = k
			g.items[i][c] = string(rune(1+i)) + strings.Repeat("a", k)
		}
	}
	return g
}

func (g *geom) lines(compact bool) []string {
	g.recs = nil
	out := &recWriter{}
	merge(g.t, out, g.items, g.vert, g.mw, g.sep, compact)
	s := out.text()
	if s == "" {
		return nil
	}
	v.Assert(s[len(s)-1] == '\n', "the output ends in a newline")
	return strings.Split(s[:len(s)-1], "\n")
}

// tokens calls f for every token of a line with the screen column it starts at
// and returns the line's width and its number of items.
func (g *geom) tokens(line string, f func(rec cellRec, at int)) (width, items int) {
	last := -1
	for _, r := range line {
		if r >= tokBase && r < tokBase+256 {
			rec := g.recs[r-tokBase]
			if f != nil {
				f(rec, width)
			}
			width += max(rec.k, rec.w)
			if rec.item != last {
				items++
				last = rec.item
			}
		} else {
			width++
		}
	}
	return
}

// MergeMaxWidth: no line of several items is wider than the maximum.
func MergeMaxWidth() {
	g := newGeom(true)
	for _, line := range g.lines(v.Param("c") == 1) {
		w, items := g.tokens(line, nil)
		v.ObsInt("w", w)
		if items > 1 {
			v.Assert(w <= g.mw, "a line of several items fits the maximum width")
		}
	}
}

// MergeLineUp: items and cells start at the same screen column on all lines.
func MergeLineUp() {
	g := newGeom(true)
	var first []int
	for i, line := range g.lines(v.Param("c") == 1) {
		n := 0
		g.tokens(line, func(rec cellRec, at int) {
			if i == 0 {
				first = append(first, at)
			} else if n < len(first) {
				v.Assert(at == first[n], "cells line up on all lines")
			}
			v.Assert(rec.k <= rec.w, "every cell fits its place")
			n++
		})
		v.ObsInt("n", n)
		v.Assert(n <= len(first), "no line holds more cells than the first")
	}
}

// fitting is the number of items per line that regular mode has to use, at most n.
func (g *geom) fitting() int {
	iw := 0
	for _, w := range g.w {
		iw += w
	}
	if g.cols > 1 {
		iw += g.cols - 1
	}
	mw := g.mw
	if mw > 65535 {
		mw = 65535
	}
	v.Assume(iw+g.margin > 0)
	best := 1
	for c := 2; c <= g.n; c++ {
		if c*iw+(c-1)*g.margin <= mw {
			best = c
		}
	}
	return best
}

// MergeFill: regular mode uses the largest count that fits, compact mode never
// more lines.
func MergeFill() {
	g := newGeom(v.Param("fits") == 1)
	best := g.fitting()
	lines := g.lines(false)
	v.ObsInt("lines", len(lines))
	v.Assert(len(lines)*best >= g.n, "all items fit on the lines")
	v.Assert((len(lines)-1)*best < g.n, "regular mode puts as many items on a line as fit")
	if !g.vert && g.cols > 0 && len(lines) > 0 {
		_, items := g.tokens(lines[0], nil)
		v.Assert(items == best || items == g.n, "the first line holds as many items as fit")
	}
	clines := g.lines(true)
	v.ObsInt("clines", len(clines))
	v.Assert(len(clines) <= len(lines), "compact mode uses no more lines than regular mode")
}

// MergeEnds: any widths, any maximum: merging ends.
func MergeEnds() {
	g := newGeom(false)
	lines := g.lines(v.Param("c") == 1)
	v.ObsInt("lines", len(lines))
	v.Assert(len(lines) <= g.n, "at most one line per item")
}

// ---- faults ----

// MergeFault: the fail-th write fails.
func MergeFault() {
	n, cols := v.Param("n"), v.Param("cols")
	vert, compact := v.Param("v") == 1, v.Param("c") == 1
	sep := seps[v.Param("sep")]
	mw := maxWidth()
	t, items := mergeSetup(n, cols, v.Param("kmax"))
	good := &recWriter{}
	merge(t, good, items, vert, mw, sep, compact)
	text := good.text()
	v.ObsInt("writes", len(good.writes))
	if n == 0 {
		v.Assert(text == "", "an empty list writes nothing")
		return
	}
	v.Assert(text[len(text)-1] == '\n', "each line reaches the writer with its newline")
	lines := strings.Split(text[:len(text)-1], "\n")
	v.Assert(len(lines) <= n, "each line ends in exactly one newline")
	k := v.Choose("fail", len(lines))
	bad := &recWriter{fail: 1 + k, err: faultOf(v.Param("err")), part: v.Param("part")}
	p := catch(func() { merge(t, bad, items, vert, mw, sep, compact) })
	e, isErr := p.(error)
	v.Assert(isErr && e == bad.err, "merging panics with the writer's error")
	v.Assert(bad.after == 0, "nothing is written after the failure")
	want := ""
	for _, l := range lines[:k] {
		want += l + "\n"
	}
	if bad.part == 3 {
		want += lines[k]
	}
	v.Assert(bad.text() == want, "the lines before the failure are those of a good run")
}

type faultErr struct{ op string }

func (e *faultErr) Error() string   { return e.op }
func (e *faultErr) Timeout() bool   { return true }
func (e *faultErr) Temporary() bool { return true }

type faultVal struct{ n int }

func (e faultVal) Error() string { return "" }

// faultOf is an error that a writer may return.
func faultOf(k int) error {
	switch k {
	case 1:
		return io.EOF
	case 2:
		return io.ErrShortWrite
	case 3:
		return io.ErrClosedPipe
	case 4:
		return syscall.EPIPE
	case 5:
		return &os.PathError{Op: "write", Path: "out", Err: syscall.EPIPE}
	case 6:
		return faultVal{6}
	case 7:
		return &faultErr{"again"}
	case 8:
		return syscall.EAGAIN
	case 9:
		return io.ErrUnexpectedEOF
	case 10:
		return &os.PathError{Op: "write", Path: "out", Err: syscall.ENOSPC}
	case 11:
		return io.ErrNoProgress
	case 12:
		return syscall.EINTR
	}
	return errors.New("no space")
}

func catch(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// ---- real alignments ----

var realCells = []string{"", "a", "bc", "世", "e\u0301", "\x1b[31mx\x1b[0m", "longer"}

// MergeReal: fixed small cells and the package's own alignments; the table's
// widths come from formatting the items.
func MergeReal() {
	n, cols := v.Param("n"), v.Param("cols")
	vert, compact := v.Param("v") == 1, v.Param("c") == 1
	sep := seps[v.Param("sep")]
	mw := v.Int("mw", -5, 60)
	spec := table.NewTableSpec()
	for c := 0; c < cols; c++ {
		col := &table.Column{Name: colNames[c], Getter: itemGetter(c)}
		if x := (v.Param("al") + c) % 4; x < 3 {
			col.Alignment = alignBy(x)
		}
		spec.AddColumn(col)
	}
	t := table.NewTable(spec)
	items := make(rows, n)
	for i := range items {
		var item []string
		for c := 0; c < cols; c++ {
			item = append(item, realCells[v.Choose("cell", v.Param("cells"))])
		}
		items[i], _ = t.FormatItem(item)
	}
	out := &recWriter{}
	merge(t, out, items, vert, mw, sep, compact)
	s := out.text()
	v.ObsStr("got", s)
	if n == 0 {
		v.Assert(s == "", "nothing written")
		return
	}
	iw := max(cols-1, 0)
	for c := 0; c < cols; c++ {
		iw += int(t.Width(colNames[c]))
	}
	lines := strings.Split(s[:len(s)-1], "\n")
	for _, l := range lines {
		if len(lines) < n {
			v.Assert(int(measure(l)) <= max(mw, iw+len(sep)), "a line fits the maximum width")
		}
	}
}
