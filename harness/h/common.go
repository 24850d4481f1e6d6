package h

import (
	"strings"

	table "github.com/ilius/go-table"

	"verif/harness/v"
)

// constGetter formats every item as the same text.
type constGetter string

func (g constGetter) Value(item any) (any, error)                          { return string(g), nil }
func (g constGetter) ValueString(colName string, item any) (string, error) { return string(g), nil }
func (g constGetter) Format(item any, value any) (string, error)           { return string(g), nil }

// itemGetter formats an item of type []string as its i-th text.
type itemGetter int

func (g itemGetter) Value(item any) (any, error) { return item.([]string)[int(g)], nil }
func (g itemGetter) ValueString(colName string, item any) (string, error) {
	return item.([]string)[int(g)], nil
}
func (g itemGetter) Format(item any, value any) (string, error) { return value.(string), nil }

// nilGetter is the same with no value: it formats from the item alone.
type nilGetter int

func (g nilGetter) Value(item any) (any, error) { return nil, nil }
func (g nilGetter) ValueString(colName string, item any) (string, error) {
	return item.([]string)[int(g)], nil
}
func (g nilGetter) Format(item any, value any) (string, error) { return item.([]string)[int(g)], nil }

// measure is the display width the table code uses for s: the width a fresh
// one-column table reports after formatting s.
func measure(s string) uint16 {
	spec := table.NewTableSpec()
	spec.AddColumn(&table.Column{Name: "c", Getter: constGetter(s)})
	t := table.NewTable(spec)
	t.FormatItem(nil)
	return t.Width("c")
}

// anyText is a text of n arbitrary code points, control characters included.
func anyText(name string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		s += v.RuneStr(v.Rune(name, 0, 0x10ffff))
	}
	return s
}

var colNames = []string{"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12"}

func sp(n int) string { return strings.Repeat(" ", n) }

func alignBy(al int) table.Alignment {
	switch al {
	case 0:
		return table.AlignmentLeft
	case 1:
		return table.AlignmentRight
	}
	return table.AlignmentCenter
}

// padded is what alignment al has to return for s of display width sw.
func padded(al int, s string, sw, w uint16) string {
	if sw >= w {
		return s
	}
	pad := int(w) - int(sw)
	switch al {
	case 0:
		return s + sp(pad)
	case 1:
		return sp(pad) + s
	}
	after := pad / 2
	return sp(pad-after) + s + sp(after)
}
