package h

import (
	"errors"
	"strings"

	table "github.com/ilius/go-table"

	"verif/harness/v"
)

// bigName is the name of column i of a large table.
func bigName(i int) string {
	n := string(rune('0'+i/10%10)) + string(rune('0'+i%10))
	if i >= 100 {
		n = string(rune('0'+i/100)) + n
	}
	if v.Param("long") == 1 {
		return strings.Repeat("column-", 20) + n
	}
	return "col" + n
}

// bigCol is the name under which column i is added: with same two neighbours
// have one name, or one has the empty name.
func bigCol(i int) string {
	switch v.Param("same") {
	case 1:
		return bigName(i / 2)
	case 2:
		if i == 0 {
			return ""
		}
	}
	return bigName(i)
}

// BigFormat: C05 for many columns: any call may fail, one text is arbitrary.
func BigFormat() {
	cols, at := v.Param("cols"), v.Param("at")
	spec := table.NewTableSpec()
	text := make([]string, cols)
	failure := errors.New("failed")
	fail := -1
	if v.Param("long") == 1 {
		if k := v.Choose("fail", 4); k > 0 {
			fail = 3*at + k - 1
		}
	} else {
		fail = v.Choose("fail", 3*cols+1) - 1
	}
	calls, bad := 0, false
	for i := 0; i < cols; i++ {
		i := i
		text[i] = bigName(i) + strings.Repeat("x", i%7)
		if i == at {
			text[i] = v.Bytes("text", 2)
			if v.Param("long") == 1 {
				text[i] = strings.Repeat("y", 400) + text[i]
			}
		}
		if i%5 == 3 && i != at {
			text[i] = ""
		}
		get := func(k int) (string, error) {
			calls++
			if bad {
				v.Assert(false, "a getter is consulted after a failure")
			}
			if fail == 3*i+k {
				bad = true
				return "junk", failure
			}
			return text[i], nil
		}
		spec.AddColumn(&table.Column{Name: bigCol(i), Getter: bigGetter{get}})
	}
	t := table.NewTable(spec)
	got, err := t.FormatItem(1)
	if fail >= 0 && fail%3 != 2 {
		v.Assert(err == failure && len(got) == 0, "the getter's error is returned and no text")
		v.Assert(calls == fail/3*2+fail%3+1, "getters are consulted once, in order, up to the failure")
	} else {
		v.Assert(err == nil && len(got) == cols && calls == 2*cols, "one text per column")
		for i := range got {
			v.Assert(got[i] == text[i], "each text is what the column's getter formatted")
		}
	}
	calls, bad = 0, false
	sep := " : "
	if v.Param("long") == 1 {
		sep = seps[8]
	}
	s, err := t.FormatItemBasic(1, sep)
	if fail >= 0 && fail%3 == 2 {
		v.Assert(err == failure && s == "", "the getter's error is returned and no text")
		v.Assert(calls == fail/3+1, "getters are consulted once, in order, up to the failure")
	} else {
		v.ObsStr("s", s)
		v.Assert(err == nil && calls == cols && s == strings.Join(text, sep), "value strings in column order joined by the separator")
	}
}

type bigGetter struct {
	get func(k int) (string, error)
}

func (g bigGetter) Value(item any) (any, error)                          { return g.get(0) }
func (g bigGetter) Format(item any, value any) (string, error)           { return g.get(1) }
func (g bigGetter) ValueString(colName string, item any) (string, error) { return g.get(2) }

// BigRow: C06 and C07 for many columns: any widths, alignments of all kinds.
func BigRow() {
	cols := v.Param("cols")
	spec := table.NewTableSpec()
	w := map[string]uint16{}
	cells := make([]string, cols)
	want := make([]string, cols)
	for i := 0; i < cols; i++ {
		i := i
		c := &table.Column{Name: bigCol(i)}
		if w[c.Name] == 0 {
			w[c.Name] = v.U16("w", 1, 65535)
		}
		cells[i] = bigName(i) + strings.Repeat("x", i%7)
		want[i] = cells[i]
		if i%4 != 2 {
			c.Alignment = func(s string, width uint16) string {
				v.Assert(width == w[bigCol(i)], "alignment gets the column's width")
				return "<" + s + ">"
			}
			want[i] = "<" + cells[i] + ">"
		}
		spec.AddColumn(c)
	}
	t := table.NewTable(spec)
	t.UpdateWidth(w)
	n := v.Choose("n", 3)
	in := append([]string{}, cells...)
	switch n {
	case 1:
		in = in[:cols-1]
	case 2:
		in = append(in, "more")
	}
	got, err := t.AlignFormattedItem(in)
	if n != 0 {
		v.Assert(err != nil && len(got) == 0, "a row of another length is rejected")
		return
	}
	v.Assert(err == nil && len(got) == cols, "a row of the right length is accepted")
	for i := range got {
		v.Assert(got[i] == want[i], "the alignment is applied to the cell")
	}
}

// BigHeader: C07 for many columns.
func BigHeader() {
	cols, at := v.Param("cols"), v.Param("at")
	spec := table.NewTableSpec()
	w := map[string]uint16{}
	sep := seps[v.Param("sep")]
	want := ""
	for i := 0; i < cols; i++ {
		title, short := bigName(i)+strings.Repeat("x", i*3), bigName(i)
		cw := uint16(i % 12)
		if i == at {
			cw = v.U16("w", 0, 65535)
		}
		if v.Param("same") == 1 && i%2 == 1 {
			cw = w[bigCol(i)]
		}
		w[bigCol(i)] = cw
		spec.AddColumn(&table.Column{Name: bigCol(i), Title: title, ShortTitle: short})
		want += headerCell(title, short, cw) + sep
	}
	t := table.NewTable(spec)
	t.UpdateWidth(w)
	got := t.FormatHeader(sep)
	v.ObsStr("got", got)
	v.Assert(got == want+"\n", "header cells are as wide as their columns")
}

// BigSpec: C08 for many columns: the width's sum, the count and the lookup.
func BigSpec() {
	cols := v.Param("cols")
	spec := table.NewTableSpec()
	t := table.NewTable(spec)
	m := v.U16("m", 0, 65535)
	sum := 0
	w := map[string]uint16{}
	added := make([]*table.Column, cols)
	for i := 0; i < cols; i++ {
		x := uint16(1 + i%9)
		if cols < 50 || i%50 == 7 || i == cols-1 {
			x = v.U16("w", 1, 65535)
		}
		w[bigName(i)] = x
		if i > 0 {
			sum += int(m)
		}
		sum += int(x)
		added[i] = &table.Column{Name: bigName(i)}
		spec.AddColumn(added[i])
	}
	v.Assume(sum <= 65535)
	if cols < 50 {
		t.UpdateWidth(w)
	} else {
		for i := 0; i < cols; i++ {
			setWidth(t, bigName(i), w[bigName(i)])
		}
	}
	v.Assert(int(t.TableWidth(m)) == sum, "table width is the sum of the column widths and margins")
	v.Assert(t.ColumnCount() == cols && spec.ColumnCount() == cols, "column count")
	for i, c := range added {
		v.Assert(spec.Columns[i] == c && t.Columns[i] == c, "column order")
		v.Assert(spec.HasColumn(c.Name) && spec.ColumnByName[c.Name] == c, "lookup")
		v.Assert(t.Width(c.Name) == w[c.Name], "each column has its own width")
	}
	v.Assert(!spec.HasColumn(bigName(cols)) && !spec.HasColumn("col"), "a name never added is absent")
}

// BigNames: C08 for many columns of which several have one name.
func BigNames() {
	cols, names := v.Param("cols"), v.Param("names")
	spec := table.NewTableSpec()
	var added []*table.Column
	last := make([]*table.Column, names)
	x := v.Choose("name", names)
	for i := 0; i < cols; i++ {
		k := i * 7 % names
		if i == v.Param("at") || i == cols-1 {
			k = x
		}
		c := &table.Column{Name: bigName(k), Title: bigName(i)}
		spec.AddColumn(c)
		added = append(added, c)
		last[k] = c
		v.Assert(spec.ColumnCount() == i+1, "column count")
	}
	for i, c := range added {
		v.Assert(spec.Columns[i] == c && c.Title == bigName(i), "column order")
	}
	for k, c := range last {
		v.Assert(spec.HasColumn(bigName(k)) == (c != nil) && spec.ColumnByName[bigName(k)] == c, "lookup yields the last column of a name")
	}
}

// BigHistory: C04 for many columns and long histories.
func BigHistory() {
	cols, k, at := v.Param("cols"), v.Param("k"), v.Param("at")
	spec := table.NewTableSpec()
	for i := 0; i < cols; i++ {
		spec.AddColumn(&table.Column{Name: bigCol(i), Getter: itemGetter(i)})
	}
	t := table.NewTable(spec)
	want := make([]uint16, cols)
	for j := 0; j < k; j++ {
		if j%3 == 2 {
			for i := 0; i < cols; i++ {
				if (i+j)%2 == 0 {
					x := uint16((i*5 + j*11) % 40)
					if (j == at || j == at+1) && i/2 == 1 {
						x = v.U16("w", 0, 65535)
					}
					setWidth(t, bigCol(i), x)
					want[i] = max(want[i], x)
				}
			}
		} else {
			item := make([]string, cols)
			for i := range item {
				n := (i*3 + j*7) % 50
				if (j == at || j == at+1) && (i == 2 || i == cols-1) {
					n = v.Int("len", 0, 32767)
				}
				item[i] = strings.Repeat("a", n)
				want[i] = max(want[i], uint16(n))
			}
			t.FormatItem(item)
		}
		for i := 0; i < cols; i++ {
			v.Assert(t.Width(bigCol(i)) == want[i], "column width is the maximum so far")
			if v.Param("long") == 1 {
				n := bigName(i)
				v.Assert(t.Width(n[:32]) == 0 && t.Width(n[:64]) == 0 && t.Width(n[:len(n)-1]) == 0 && t.Width(n[len(n)-2:]) == 0, "other names have no width")
			}
		}
	}
}

// MergeExact: C09 and C10 with the package's alignments on large tables of
// fixed cells: with recorded widths the text written for any maximum width is
// the one the count of items that fit gives; the compact one has the same
// cells and separators in that order.
func MergeExact() {
	n, cols := v.Param("n"), v.Param("cols")
	vert, compact := v.Param("v") == 1, v.Param("c") == 1
	sep := seps[v.Param("sep")]
	spec := table.NewTableSpec()
	for c := 0; c < cols; c++ {
		col := &table.Column{Name: bigCol(c), Getter: itemGetter(c)}
		if x := (v.Param("al") + c) % 4; x < 3 {
			col.Alignment = alignBy(x)
		}
		spec.AddColumn(col)
	}
	t := table.NewTable(spec)
	items := make(rows, n)
	width := make([]int, cols)
	for i := range items {
		item := make([]string, cols)
		for c := range item {
			s, w := exactCell(i, c)
			item[c] = s
			width[c] = max(width[c], w)
		}
		items[i], _ = t.FormatItem(item)
	}
	for c := 1; c < cols; c++ {
		if bigCol(c) == bigCol(c-1) {
			width[c-1] = max(width[c-1], width[c])
			width[c] = width[c-1]
		}
	}
	iw := cols - 1
	for _, w := range width {
		iw += w
	}
	mw := v.Int("mw", -5, (iw+len(sep))*(n+2))
	out := &recWriter{}
	merge(t, out, items, vert, mw, sep, compact)
	got := out.text()
	v.ObsStr("got", got)
	if compact {
		bare := strings.ReplaceAll(got, " ", "")
		lines := 0
		for _, b := range []byte(bare) {
			if b == '\n' {
				lines++
			}
		}
		ok := false
		for g := 1; g <= n+1; g++ {
			if (n+g-1)/g == lines {
				for _, end := range []string{"", sep} {
					if strings.ReplaceAll(exactText(items, nil, g, vert, sep, end), " ", "") == bare {
						ok = true
					}
				}
			}
		}
		v.Assert(ok, "every cell once, in order, with the separators between")
		return
	}
	g := 1
	for g <= n && (g+1)*iw+g*len(sep) <= mw {
		g++
	}
	v.Assert(got == exactText(items, width, g, vert, sep, sep) || got == exactText(items, width, g, vert, sep, ""), "every cell once, in order, aligned, with the separators between")
}

// exactCell is a fixed cell and its width.
func exactCell(i, c int) (string, int) {
	tag := string(rune('A'+i%26)) + string(rune('a'+c%26))
	switch k := (i*5 + c*3) % 11; k {
	case 0, 1, 2:
		return tag + strings.Repeat("x", k*v.Param("wide")), 2 + k*v.Param("wide")
	case 3:
		return tag + "\u4e16\u754c", 6
	case 4:
		return "\x1b[31m" + tag + "\x1b[0m", 2
	case 5:
		return tag + "e\u0301", 3
	case 6:
		return "", 0
	case 7:
		return " " + tag + " ", 4
	case 8:
		return tag + strings.Repeat("-", c*3), 2 + c*3
	}
	return tag, 2
}

// exactText is the text of the items, g to a line, with cells aligned to
// width, or unaligned without; end follows the items of a short line.
func exactText(items rows, width []int, g int, vert bool, sep, end string) string {
	n := len(items)
	s := ""
	lines := (n + g - 1) / g
	for l := 0; l < lines; l++ {
		for j := 0; j < g; j++ {
			i := l*g + j
			if vert {
				i = j*lines + l
			}
			if i >= n {
				s += end
				break
			}
			if j > 0 {
				s += sep
			}
			for c, cell := range items[i] {
				if c > 0 {
					s += " "
				}
				if width == nil {
					s += cell
					continue
				}
				_, w := exactCell(i, c)
				al := (v.Param("al") + c) % 4 % 3
				s += padded(al, cell, uint16(w), uint16(width[c]))
			}
		}
		s += "\n"
	}
	return s
}
