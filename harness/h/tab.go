package h

import (
	"errors"
	"strings"

	table "github.com/ilius/go-table"

	"verif/harness/v"
)

// ColumnMax: a history of formatted items and width updates.
func ColumnMax() {
	cols, k := v.Param("cols"), v.Param("k")
	spec := table.NewTableSpec()
	names := make([]string, cols)
	for i := 0; i < cols; i++ {
		names[i] = colNames[i]
		if i > 0 && v.Param("dup") == 1 && i == cols-1 {
			names[i] = names[0]
		}
		col := &table.Column{Name: names[i], Getter: itemGetter(i), Title: "a long title", ShortTitle: "short"}
		if v.Param("nilval") == 1 {
			col.Getter = nilGetter(i)
		}
		if (v.Param("al")+i)%2 == 1 {
			col.Alignment = table.AlignmentRight
		}
		spec.AddColumn(col)
	}
	t := table.NewTable(spec)
	other := table.NewTable(spec)
	want := map[string]uint16{}
	check := func() {
		for _, n := range colNames[:cols+1] {
			v.Assert(t.Width(n) == want[n], "column width is the maximum so far")
			v.Assert(other.Width(n) == 0, "another table's width is untouched")
		}
	}
	check()
	for i := 0; i < k; i++ {
		switch v.Choose("op", 2+v.Param("use")) {
		case 2:
			// uses that say nothing about widths
			row := make([]string, cols)
			for c := range row {
				row[c] = "some cell of some width"
			}
			t.FormatItemBasic(row, ",")
			t.FormatHeader("|")
			t.TableWidth(1)
			t.MergeRowsHorizontal(&recWriter{}, rows{row, row}, 30, "|", true)
			t.MergeRowsVertical(&recWriter{}, rows{row, row}, 30, "|", false)
			t.AlignFormattedItem(row)
			t.AlignFormattedItem(nil)
		case 0:
			item := make([]string, cols)
			for c := range item {
				n := v.Int("len", 0, 65535/2)
				item[c] = strings.Repeat("a", n)
				w := uint16(n)
				if v.Param("wide") == 1 {
					item[c] = "世\x1b[1m" + item[c]
					w += 2
				}
				if w > want[names[c]] {
					want[names[c]] = w
				}
			}
			t.FormatItem(item)
		case 1:
			m := map[string]uint16{}
			for c := 0; c <= cols; c++ {
				if c == cols || v.Choose("has", 2) == 1 {
					w := v.U16("w", 0, 65535)
					m[colNames[c]] = w
					if w > want[colNames[c]] {
						want[colNames[c]] = w
					}
				}
			}
			t.UpdateWidth(m)
		}
		check()
	}
	v.ObsInt("w0", int(t.Width("c0")))
}

// ColumnMaxText: the same over arbitrary short texts.
func ColumnMaxText() {
	k, n := v.Param("k"), v.Param("n")
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "a", Getter: itemGetter(0)})
	spec.AddColumn(&table.Column{Name: "b", Getter: itemGetter(1)})
	t := table.NewTable(spec)
	var wa, wb uint16
	for i := 0; i < k; i++ {
		a, b := anyText("a", n), anyText("b", n)
		t.FormatItem([]string{a, b})
		wa, wb = max(wa, measure(a)), max(wb, measure(b))
		v.Assert(t.Width("a") == wa, "first column's width is the maximum display width")
		v.Assert(t.Width("b") == wb, "second column's width is the maximum display width")
	}
	v.ObsInt("wa", int(wa))
}

// ---- getters that log their calls and fail on demand ----

type callLog struct {
	calls string
	fail  string // the call that fails
	err   error
	val   []any
	text  []string
	item  any
}

type logGetter struct {
	l *callLog
	i int
}

func (g logGetter) call(kind string, item any) error {
	c := kind + string(rune('0'+g.i))
	g.l.calls += c + " "
	v.Assert(item == g.l.item, "getter gets the item")
	if c == g.l.fail {
		return g.l.err
	}
	return nil
}

func (g logGetter) Value(item any) (any, error) {
	if err := g.call("V", item); err != nil {
		return nil, err
	}
	return g.l.val[g.i], nil
}

func (g logGetter) ValueString(colName string, item any) (string, error) {
	v.Assert(colName == colNames[g.i], "getter gets its column's name")
	err := g.call("S", item)
	return g.l.text[g.i], err
}

func (g logGetter) Format(item any, value any) (string, error) {
	v.Assert(value == g.l.val[g.i], "getter formats the value it extracted")
	err := g.call("F", item)
	return g.l.text[g.i], err
}

func logTable(cols int) (*table.Table, *callLog) {
	l := &callLog{item: new(int), err: errors.New("failed")}
	spec := table.NewTableSpec()
	for i := 0; i < cols; i++ {
		var val any
		switch v.Choose("kind", 3) {
		case 0:
			val = i
		case 1:
			val = v.BytesIn("val", 1, "xyz")
		}
		l.val = append(l.val, val)
		l.text = append(l.text, v.Bytes("text", v.Choose("tlen", v.Param("maxlen")+1)))
		spec.AddColumn(&table.Column{Name: colNames[i], Title: "T", Getter: logGetter{l, i}})
	}
	return table.NewTable(spec), l
}

// FormatItem: every column's text in order, or the first error.
func FormatItem() {
	cols := v.Param("cols")
	t, l := logTable(cols)
	failAt := v.Choose("fail", 2*cols+1) - 1
	want := ""
	for i := 0; i < cols; i++ {
		want += "V" + string(rune('0'+i)) + " "
		if failAt == 2*i {
			l.fail = "V" + string(rune('0'+i))
			break
		}
		want += "F" + string(rune('0'+i)) + " "
		if failAt == 2*i+1 {
			l.fail = "F" + string(rune('0'+i))
			break
		}
	}
	var got []string
	var err error
	if again := v.Param("again"); again > 0 {
		// an item formatted before (and after)
		saved, fail := l.text, l.fail
		l.text, l.fail = []string{"first", "second", "third", "fourth"}, ""
		before, _ := t.FormatItem(l.item)
		l.text, l.fail, l.calls = saved, fail, ""
		got, err = t.FormatItem(l.item)
		for i := range before {
			v.Assert(before[i] == []string{"first", "second", "third", "fourth"}[i], "formatting another item leaves the texts of the one before")
		}
		if again > 1 {
			calls := l.calls
			l.text, l.fail = []string{"FIRST", "SECOND", "THIRD", "FOURTH"}, ""
			t.FormatItem(l.item)
			l.text, l.fail, l.calls = saved, fail, calls
		}
	} else {
		got, err = t.FormatItem(l.item)
	}
	v.ObsStr("calls", l.calls)
	v.Assert(l.calls == want, "getters are consulted once, in column order, and not after a failure")
	if failAt >= 0 {
		v.Assert(err == l.err, "the getter's error is returned")
		v.Assert(len(got) == 0, "no text is returned with an error")
		return
	}
	v.Assert(err == nil, "no error without a failure")
	v.Assert(len(got) == cols, "one text per column")
	for i := range got {
		v.ObsStr("got", got[i])
		v.Assert(got[i] == l.text[i], "each text is what the column's getter formatted")
	}
}

// FormatItemBasic: value strings joined by the separator, or the first error.
func FormatItemBasic() {
	cols := v.Param("cols")
	t, l := logTable(cols)
	sep := v.Bytes("sep", v.Choose("seplen", 3))
	failAt := v.Choose("fail", cols+1) - 1
	want, calls := "", ""
	for i := 0; i < cols; i++ {
		calls += "S" + string(rune('0'+i)) + " "
		if failAt == i {
			l.fail = "S" + string(rune('0'+i))
			break
		}
		if i > 0 {
			want += sep
		}
		want += l.text[i]
	}
	got, err := t.FormatItemBasic(l.item, sep)
	v.ObsStr("calls", l.calls)
	v.ObsStr("got", got)
	v.Assert(l.calls == calls, "getters are consulted once, in column order, and not after a failure")
	if failAt >= 0 {
		v.Assert(err == l.err, "the getter's error is returned")
		v.Assert(got == "", "no text is returned with an error")
		return
	}
	v.Assert(err == nil, "no error without a failure")
	v.Assert(got == want, "value strings in column order joined by the separator")
}

// AlignRow: every column's alignment at that column's width.
func AlignRow() {
	cols, n := v.Param("cols"), v.Param("n")
	spec := table.NewTableSpec()
	w := map[string]uint16{}
	has := make([]bool, cols)
	for i := 0; i < cols; i++ {
		i := i
		col := &table.Column{Name: colNames[i]}
		has[i] = v.Choose("has", 2) == 1
		if has[i] {
			col.Alignment = func(s string, width uint16) string {
				v.Assert(width == w[colNames[i]], "alignment gets the column's width")
				return "<" + string(rune('0'+i)) + s + ">"
			}
		}
		spec.AddColumn(col)
		w[colNames[i]] = v.U16("w", 0, 65535)
	}
	t := table.NewTable(spec)
	t.UpdateWidth(w)
	cells := make([]string, n)
	in := make([]string, n)
	for i := range cells {
		cells[i] = v.Bytes("cell", v.Choose("len", 3-v.Param("short")))
		in[i] = cells[i]
	}
	if v.Param("again") == 1 {
		// an earlier row, aligned at widths that have grown since
		final := w
		w = map[string]uint16{}
		for _, c := range colNames[:cols] {
			w[c] = v.U16("before", 0, 65535)
			v.Assume(w[c] <= final[c])
		}
		t = table.NewTable(spec)
		t.UpdateWidth(w)
		t.AlignFormattedItem(make([]string, cols))
		w = final
		t.UpdateWidth(w)
	}
	got, err := t.AlignFormattedItem(in)
	if n != cols {
		v.Assert(err != nil, "a row of another length is rejected")
		v.Assert(len(got) == 0, "no row with an error")
		return
	}
	v.Assert(err == nil, "a row of the right length is accepted")
	v.Assert(len(got) == cols, "the row keeps its length")
	for i := range got {
		v.ObsStr("got", got[i])
		if has[i] {
			v.Assert(got[i] == "<"+string(rune('0'+i))+cells[i]+">", "the alignment is applied to the cell")
		} else {
			v.Assert(got[i] == cells[i], "a cell without alignment is untouched")
		}
	}
}

// AlignRowReal: the same with the package's alignments and arbitrary cells.
func AlignRowReal() {
	spec := table.NewTableSpec()
	n := v.Param("n")
	var cells, want []string
	w := map[string]uint16{}
	for i := 0; i < 3; i++ {
		c := anyText("c", n)
		w[colNames[i]] = v.U16("w", 0, 65535)
		spec.AddColumn(&table.Column{Name: colNames[i], Alignment: alignBy((v.Param("al") + i) % 3)})
		cells = append(cells, c)
		want = append(want, padded((v.Param("al")+i)%3, c, measure(c), w[colNames[i]]))
	}
	t := table.NewTable(spec)
	t.UpdateWidth(w)
	got, err := t.AlignFormattedItem(cells)
	v.Assert(err == nil && len(got) == 3, "accepted")
	for i := range want {
		v.Assert(got[i] == want[i], "cell is padded to its column's width")
	}
}

func headerCell(title, short string, w uint16) string {
	if w == 0 {
		return title
	}
	if measure(title) > w {
		title = short
		if measure(title) > w {
			title = ""
		}
	}
	return padded(2, title, measure(title), w)
}

// Header: header cells of arbitrary titles at any width.
func Header() {
	cols, n := v.Param("cols"), v.Param("n")
	spec := table.NewTableSpec()
	sep := "|"
	if v.Param("bar") == 0 {
		sep = v.Bytes("sep", v.Choose("seplen", 3))
	}
	want := ""
	w := map[string]uint16{}
	for i := 0; i < cols; i++ {
		title, short := anyText("t", n), anyText("s", v.Param("m"))
		w[colNames[i]] = v.U16("w", 0, 65535)
		spec.AddColumn(&table.Column{Name: colNames[i], Title: title, ShortTitle: short, Alignment: alignBy(i)})
		want += headerCell(title, short, w[colNames[i]]) + sep
	}
	t := table.NewTable(spec)
	t.UpdateWidth(w)
	got := t.FormatHeader(sep)
	v.ObsStr("got", got)
	v.Assert(got == want+"\n", "header cells are as wide as their columns")
}

// HeaderLong: titles of any length.
func HeaderLong() {
	cols := v.Param("cols")
	spec := table.NewTableSpec()
	want := ""
	w := map[string]uint16{}
	for i := 0; i < cols; i++ {
		a, b := v.Int("t", 0, 65535), v.Int("s", 0, 65535)
		title, short := strings.Repeat("a", a), strings.Repeat("b", b)
		cw := v.U16("w", 0, 65535)
		w[colNames[i]] = cw
		spec.AddColumn(&table.Column{Name: colNames[i], Title: title, ShortTitle: short})
		text, k := title, a
		if cw > 0 && k > int(cw) {
			text, k = short, b
			if k > int(cw) {
				text, k = "", 0
			}
		}
		want += padded(2, text, uint16(k), cw) + "|"
	}
	t := table.NewTable(spec)
	if v.Param("again") > 0 {
		// an earlier header, made when the columns were narrower
		b := map[string]uint16{}
		for _, c := range colNames[:cols] {
			b[c] = uint16(v.Param("again"))
			v.Assume(b[c] <= w[c])
		}
		t.UpdateWidth(b)
		t.FormatHeader("|")
	}
	t.UpdateWidth(w)
	got := t.FormatHeader("|")
	v.ObsStr("got", got)
	v.Assert(got == want+"\n", "header cells of long titles are as wide as their columns")
}

func idx(l []string, s string) int {
	for i := range l {
		if l[i] == s {
			return i
		}
	}
	return -1
}

// SpecColumns: a history of column additions.
func SpecColumns() {
	k := v.Param("k")
	pool := []string{"", "a", "b", "ab"}
	spec := table.NewTableSpec()
	var added []*table.Column
	early := table.NewTable(spec)
	early.UpdateWidth(map[string]uint16{"": 1, "a": 2, "b": 4, "ab": 8})
	check := func() {
		v.Assert(early.ColumnCount() == len(added), "a table made before sees the columns added later")
		sum := 0
		for i, c := range added {
			sum += []int{1, 2, 4, 8}[idx(pool, c.Name)]
			if i > 0 {
				sum += 3
			}
		}
		v.Assert(int(early.TableWidth(3)) == sum, "the table width counts the columns added so far")
		v.Assert(spec.ColumnCount() == len(added), "column count")
		v.Assert(len(spec.Columns) == len(added), "column list length")
		for i, c := range added {
			v.Assert(spec.Columns[i] == c, "column order")
		}
		for _, n := range pool {
			var last *table.Column
			for _, c := range added {
				if c.Name == n {
					last = c
				}
			}
			v.Assert(spec.HasColumn(n) == (last != nil), "a name is present exactly when it was added")
			v.Assert(spec.ColumnByName[n] == last, "lookup yields the last column of that name")
		}
		v.Assert(!spec.HasColumn("zz"), "a name never added is absent")
	}
	check()
	for i := 0; i < k; i++ {
		c := &table.Column{Name: pool[v.Choose("name", len(pool))], Title: "t"}
		spec.AddColumn(c)
		added = append(added, c)
		check()
	}
	t := table.NewTable(spec)
	v.Assert(t.ColumnCount() == k, "the table has the columns of its specification")
	v.ObsInt("n", t.ColumnCount())
	e := table.NewTable(nil)
	v.Assert(e.ColumnCount() == 0 && !e.HasColumn("a"), "a table without specification has no columns")
	c := &table.Column{Name: "a"}
	e.AddColumn(c)
	v.Assert(e.ColumnCount() == 1 && e.HasColumn("a") && e.ColumnByName["a"] == c, "columns can be added to it")
	v.Assert(e.Width("a") == 0, "a new column has no width")
}

// TableWidthSum: sum of widths and margins.
func TableWidthSum() {
	cols := v.Param("cols")
	spec := table.NewTableSpec()
	w := map[string]uint16{}
	names := colNames
	if v.Param("dup") == 1 {
		names = []string{"x", "y", "x", "y", "x", "y", "x", "y"}
	}
	for i := 0; i < cols; i++ {
		w[names[i]] = v.U16("w", 0, 65535)
		spec.AddColumn(&table.Column{Name: names[i]})
	}
	sum := 0
	for i := 0; i < cols; i++ {
		sum += int(w[names[i]])
	}
	m := v.U16("m", 0, 65535)
	if cols > 1 {
		sum += (cols - 1) * int(m)
	}
	v.Assume(sum <= 65535)
	t := table.NewTable(spec)
	t.UpdateWidth(w)
	got := t.TableWidth(m)
	v.ObsInt("got", int(got))
	v.Assert(int(got) == sum, "table width is the sum of the column widths and margins")
}
