package h

import (
	"strings"

	table "github.com/ilius/go-table"

	"verif/harness/v"
)

// flatRows are n rows that lie one after the other in one array, so that
// writing past the end of a row lands in the next.
func flatRows(n, cols, kmax int) (items rows, copies [][]string) {
	flat := make([]string, 0, n*cols)
	for i := 0; i < n; i++ {
		var row []string
		for c := 0; c < cols; c++ {
			k := fixedCell(i, c)
			if v.Param("fix") == 0 {
				k = v.Int("k", 0, kmax)
			}
			s := tags[(i*cols+c)%len(tags)] + strings.Repeat("a", k)
			row = append(row, s)
			flat = append(flat, s)
		}
		copies = append(copies, row)
	}
	for i := 0; i < n; i++ {
		items = append(items, flat[i*cols:(i+1)*cols])
	}
	return
}

func sameRows(items rows, copies [][]string, what string) {
	v.Assert(len(items) == len(copies), what)
	for i := range items {
		v.Assert(len(items[i]) == len(copies[i]), what)
		for c := range items[i] {
			v.Assert(items[i][c] == copies[i][c], what)
		}
	}
}

// pureSpec makes cols columns; every other one has no alignment.
func pureSpec(cols int) (*table.TableSpec, []*table.Column, []table.Column) {
	spec := table.NewTableSpec()
	var ptrs []*table.Column
	var copies []table.Column
	for c := 0; c < cols; c++ {
		col := &table.Column{Name: colNames[c], Getter: itemGetter(c), Title: "title " + colNames[c], ShortTitle: "t" + colNames[c]}
		if (c+v.Param("al"))%2 == 1 {
			col.Alignment = table.AlignmentRight
		}
		spec.AddColumn(col)
		ptrs = append(ptrs, col)
		copies = append(copies, *col)
	}
	return spec, ptrs, copies
}

func sameSpec(t *table.Table, ptrs []*table.Column, copies []table.Column) {
	const what = "the columns are as they were"
	v.Assert(len(t.Columns) == len(ptrs) && t.ColumnCount() == len(ptrs), what)
	v.Assert(len(t.ColumnByName) == len(ptrs), what)
	for i, col := range ptrs {
		v.Assert(t.Columns[i] == col && t.ColumnByName[colNames[i]] == col, what)
		v.Assert(col.Name == copies[i].Name && col.Title == copies[i].Title && col.ShortTitle == copies[i].ShortTitle, what)
		v.Assert((col.Alignment == nil) == (copies[i].Alignment == nil), what)
		v.Assert(col.Getter == copies[i].Getter, what)
	}
}

// PureMerge: merging changes nothing, so merging again writes the same.
func PureMerge() {
	n, cols := v.Param("n"), v.Param("cols")
	vert, compact := v.Param("v") == 1, v.Param("c") == 1
	sep := seps[v.Param("sep")]
	mw := maxWidth()
	spec, ptrs, cp := pureSpec(cols)
	t := table.NewTable(spec)
	var w []uint16
	for c := 0; c < cols; c++ {
		cw := uint16(0) // of the last column of large tables
		if v.Param("fix") == 0 {
			cw = v.U16("w", 0, 65535)
		} else if c < cols-1 {
			cw = uint16(fixedWidth(c))
		}
		w = append(w, cw)
		setWidth(t, colNames[c], cw)
	}
	items, copies := flatRows(n, cols, v.Param("kmax"))
	first := &recWriter{}
	merge(t, first, items, vert, mw, sep, compact)
	sameRows(items, copies, "merging leaves the rows as they are")
	sameSpec(t, ptrs, cp)
	for c := 0; c < cols; c++ {
		v.Assert(t.Width(colNames[c]) == w[c], "merging leaves the column widths as they are")
	}
	if v.Param("other") == 1 {
		// the other ways to print, in between
		merge(t, &recWriter{}, items, !vert, 9, sep, compact)
		merge(t, &recWriter{}, items, vert, 5, sep, !compact)
		t.FormatHeader(sep)
	}
	again := &recWriter{}
	merge(t, again, items, vert, mw, sep, compact)
	v.ObsStr("got", again.text())
	v.Assert(again.text() == first.text(), "merging again writes the same")
	sameRows(items, copies, "merging leaves the rows as they are")
}

// PureRows: a formatted row is the caller's own.
func PureRows() {
	n, cols := v.Param("n"), v.Param("cols")
	spec, ptrs, cp := pureSpec(cols)
	t := table.NewTable(spec)
	_, texts := flatRows(n, cols, 65000)
	var got rows
	var in rows
	for i := range texts {
		item := append([]string{}, texts[i]...)
		in = append(in, item)
		row, err := t.FormatItem(item)
		v.Assert(err == nil, "no error")
		got = append(got, row)
		sameRows(got, texts[:i+1], "formatting an item leaves earlier rows as they are")
		sameRows(in, texts[:i+1], "formatting an item leaves the item as it is")
	}
	if n == 0 {
		return
	}
	other := table.NewTable(spec)
	other.FormatItem(make([]string, cols))
	t.FormatHeader("|")
	t.FormatItemBasic(in[0], "|")
	t.TableWidth(1)
	sameRows(got, texts, "other calls leave formatted rows as they are")
	sameRows(in, texts, "other calls leave the items as they are")
	// aligning or changing one row leaves the others
	k := v.Choose("row", n)
	t.AlignFormattedItem(got[k])
	for c := range got[k] {
		got[k][c] = "changed"
	}
	_ = append(got[k], "more")
	for i := range got {
		if i != k {
			sameRows(got[i:i+1], texts[i:i+1], "a row does not share its texts with another")
		}
	}
	row, err := t.FormatItem(in[k])
	v.Assert(err == nil, "no error")
	sameRows(rows{row}, texts[k:k+1], "changing a row does not change what is formatted next")
	sameRows(in, texts, "changing a formatted row leaves the item as it is")
	sameSpec(t, ptrs, cp)
	v.ObsInt("rows", len(got))
}

// PureWidths: the table keeps widths of its own.
func PureWidths() {
	cols := v.Param("cols")
	spec, ptrs, cp := pureSpec(cols)
	t, other := table.NewTable(spec), table.NewTable(spec)
	want := make([]uint16, cols)
	for k := 0; k < v.Param("k"); k++ {
		m := map[string]uint16{}
		given := make([]uint16, cols)
		has := make([]bool, cols)
		n := 0
		for c := 0; c < cols; c++ {
			if v.Choose("has", 2) == 1 {
				given[c] = v.U16("w", 0, 65535)
				m[colNames[c]] = given[c]
				has[c] = true
				n++
				if given[c] > want[c] {
					want[c] = given[c]
				}
			}
		}
		t.UpdateWidth(m)
		t.FormatHeader("|")
		t.TableWidth(2)
		t.HasColumn("none")
		t.Width("none")
		v.Assert(len(m) == n, "the given widths are as they were")
		for c := 0; c < cols; c++ {
			w, ok := m[colNames[c]]
			v.Assert(ok == has[c] && w == given[c], "the given widths are as they were")
		}
		// what the caller does with the map later is the caller's
		for c := 0; c < cols; c++ {
			m[colNames[c]] = 65535 - uint16(c)
		}
		if v.Param("item") == 1 {
			row := make([]string, cols)
			for c := range row {
				j := v.Int("len", 0, 65535)
				row[c] = strings.Repeat("b", j)
				if uint16(j) > want[c] {
					want[c] = uint16(j)
				}
			}
			t.FormatItem(row)
			for c := 0; c < cols; c++ {
				v.Assert(m[colNames[c]] == 65535-uint16(c), "the given widths stay the caller's")
			}
		}
		for c := 0; c < cols; c++ {
			v.Assert(t.Width(colNames[c]) == want[c], "widths are the table's own")
			v.Assert(other.Width(colNames[c]) == 0, "another table of the specification has widths of its own")
		}
	}
	sameSpec(t, ptrs, cp)
	v.Assert(!t.HasColumn("none"), "asking for a column does not make it")
	v.ObsInt("cols", cols)
}
