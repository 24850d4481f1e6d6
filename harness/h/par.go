package h

import (
	table "github.com/ilius/go-table"

	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verif/harness/v"
)

// parSpec is a table specification of two columns: with and without alignment,
// short title, title and distinct names.
func parSpec() *table.TableSpec {
	spec := table.NewTableSpec()
	c0 := &table.Column{Name: "c0", Title: "Title 0", ShortTitle: "T", Getter: itemGetter(0), Alignment: table.AlignmentCenter}
	c1 := &table.Column{Name: "c1", Title: "世界", ShortTitle: "x", Getter: itemGetter(1)}
	switch v.Param("sv") {
	case 1:
		c0.ShortTitle, c1.ShortTitle, c1.Title = "", "", ""
		c0.Alignment, c1.Alignment = nil, table.AlignmentLeft
	case 2:
		c1.Name = "c0"
		c1.Alignment = table.AlignmentRight
		c0.Title = ""
	}
	spec.AddColumn(c0)
	spec.AddColumn(c1)
	return spec
}

// parOp is one use of the package by a goroutine, with a text of its own.
func parOp(op int, spec *table.TableSpec, s string, w uint16) func() {
	use := func(f func(t *table.Table)) func() {
		return func() {
			sp := spec
			if sp == nil {
				sp = parSpec()
			}
			f(table.NewTable(sp))
		}
	}
	switch op {
	case 0:
		return func() {
			table.AlignmentLeft(s, w)
			table.AlignmentLeft("", 0)
			table.AlignmentLeft(s, 300)
		}
	case 1:
		return func() {
			table.AlignmentRight(s, w)
			table.AlignmentRight("", 0)
			table.AlignmentRight(s, 300)
		}
	case 2:
		return func() {
			table.AlignmentCenter(s, w)
			table.AlignmentCenter("", 0)
			table.AlignmentCenter(s, 300)
		}
	case 3:
		return use(func(t *table.Table) {
			f, err := t.FormatItem([]string{s, "b"})
			if err == nil {
				t.AlignFormattedItem(f)
			}
			t.FormatItemBasic([]string{s, "b"}, " ")
			t.AlignFormattedItem([]string{s})
			t.FormatItem([]string{"longer than before", s})
		})
	case 4:
		return use(func(t *table.Table) {
			t.FormatHeader(s)
			setWidth(t, "c0", 2)
			setWidth(t, "c1", 1)
			t.FormatHeader(s)
			setWidth(t, "c0", 9)
			setWidth(t, "c1", 40)
			t.FormatHeader(s)
			t.TableWidth(1)
			t.HasColumn("c0")
			t.ColumnCount()
		})
	case 5:
		return use(func(t *table.Table) {
			setWidth(t, "c0", 3)
			setWidth(t, "c1", 2)
			t.MergeRowsHorizontal(&recWriter{}, rows{{s, "b"}, {"c", "d"}, {"e", s}}, 14, "|", w&1 != 0)
		})
	case 6:
		return use(func(t *table.Table) {
			setWidth(t, "c0", 3)
			setWidth(t, "c1", 2)
			t.MergeRowsVertical(&recWriter{}, rows{{s, "b"}, {"c", "d"}, {"e", s}}, 14, "|", w&1 != 0)
		})
	case 8:
		return func() {
			runewidth.IsEastAsian()
			runewidth.DefaultCondition.RuneWidth('\u4e16')
			(&runewidth.Condition{EastAsianWidth: true}).StringWidth(s)
			for g := uniseg.NewGraphemes(s); g.Next(); {
				g.Runes()
			}
		}
	}
	return func() {
		runewidth.StringWidth(s)
		runewidth.NewCondition().StringWidth(s)
	}
}

// parText: the texts of the two goroutines: the same one, two different ones,
// or one that was measured before.
func parText(warm int) (string, string) {
	switch warm {
	case 0:
		return "a", "a"
	case 1:
		return "a", "世\x1b[1mb"
	case 2:
		table.AlignmentLeft("a", 3)
		return "a", "世\x1b[1mb"
	case 3:
		s := anyText("r", 1)
		return s, anyText("r", 1)
	case 4:
		table.AlignmentLeft("a", 3)
		table.AlignmentLeft("bb", 3)
		return "a", "bb"
	case 6:
		return sp(40) + "longer text 1", sp(300) + "世"
	case 7:
		return "\xff\u0600\xe4", "🇩🇪👨\u200d👩각e\u0301"
	}
	return "", "\x1b[1m"
}

// Race: C24, two goroutines with one use of the package each.
func Race() {
	s1, s2 := parText(v.Param("warm"))
	var spec *table.TableSpec
	if v.Param("shared") == 1 {
		spec = parSpec()
	}
	c := uint16(v.Param("compact"))
	f := parOp(v.Param("f"), spec, s1, 4+c)
	g := parOp(v.Param("g"), spec, s2, 6+c)
	v.Par(f, g)
}
