package h

import (
	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verif/harness/v"
)

// CondIndep: C27, a condition answers by its own options, whatever is done to
// others and to the package's settings.
func CondIndep() {
	e := v.Param("e")
	a := cond(e&1 != 0, e&2 != 0)
	b := cond(e&4 != 0, e&8 != 0)
	if v.Param("lut")&1 != 0 {
		a.CreateLUT()
	}
	if v.Param("lut")&2 != 0 {
		b.CreateLUT()
	}
	d := runewidth.DefaultCondition
	east, strict := d.EastAsianWidth, d.StrictEmojiNeutral
	switch v.Param("op") {
	case 1: // the other one changes
		b.EastAsianWidth, b.StrictEmojiNeutral = !b.EastAsianWidth, !b.StrictEmojiNeutral
		b.CreateLUT()
	case 2: // the package-wide table
		runewidth.CreateLUT()
	case 3: // the package's settings
		runewidth.EastAsianWidth = !runewidth.EastAsianWidth
		runewidth.StrictEmojiNeutral = false
	case 4: // the default condition changes
		d.EastAsianWidth, d.StrictEmojiNeutral = !d.EastAsianWidth, false
		d.CreateLUT()
	case 6, 7: // the package's settings, then its table
		if v.Param("op") == 7 {
			runewidth.CreateLUT()
		}
		runewidth.EastAsianWidth = !runewidth.EastAsianWidth
		runewidth.StrictEmojiNeutral = false
		runewidth.CreateLUT()
	case 5: // measuring
		b.StringWidth("\u00a1\u4e16\u231a")
		runewidth.StringWidth("\u00a1\u4e16\u231a")
	}
	r := v.Rune("r", 0, 0x10ffff)
	wa, wb := a.RuneWidth(r), b.RuneWidth(r)
	v.ObsInt("wa", wa)
	v.Assert(a.EastAsianWidth == (e&1 != 0) && a.StrictEmojiNeutral == (e&2 != 0), "a condition's options change")
	v.Assert(wa == refRuneWidth(r, a.EastAsianWidth, a.StrictEmojiNeutral), "a condition does not answer by its own options")
	v.Assert(wb == refRuneWidth(r, b.EastAsianWidth, b.StrictEmojiNeutral), "a condition does not answer by its own options")
	n := runewidth.NewCondition()
	v.Assert(n.EastAsianWidth == runewidth.EastAsianWidth && n.StrictEmojiNeutral == runewidth.StrictEmojiNeutral, "a new condition does not have the package's settings")
	v.Assert(n.RuneWidth(r) == refRuneWidth(r, n.EastAsianWidth, n.StrictEmojiNeutral), "a new condition does not answer by its own options")
	v.Assert(n != a && n != b && n != d, "a new condition is shared")
	v.Assert(d.RuneWidth(r) == refRuneWidth(r, d.EastAsianWidth, d.StrictEmojiNeutral), "the default condition does not answer by its own options")
	if v.Param("op") != 4 {
		v.Assert(d == runewidth.DefaultCondition && d.EastAsianWidth == east && d.StrictEmojiNeutral == strict, "the package's settings change an existing condition")
	}
}

// IterIndep: C27, two iterators advanced in any order, each yields what it
// yields alone; the runes returned are the caller's.
func IterIndep() {
	n1, n2 := v.Param("n1"), v.Param("n2")
	a, b := anyText("a", n1), anyText("b", n2)
	if v.Param("same") == 1 {
		b = a
	}
	alone := func(s string) [][]rune {
		var out [][]rune
		for g := uniseg.NewGraphemes(s); g.Next(); {
			out = append(out, append([]rune{}, g.Runes()...))
		}
		return out
	}
	wants := [][][]rune{alone(a), alone(b)}
	gs := []*uniseg.Graphemes{uniseg.NewGraphemes(a), uniseg.NewGraphemes(b)}
	at := []int{0, 0}
	var kept, should [][]rune
	check := func(i int) {
		want := wants[i]
		rs := gs[i].Runes()
		if at[i] == 0 || at[i] > len(want) {
			v.Assert(len(rs) == 0, "runes are reported outside the text")
			return
		}
		w := want[at[i]-1]
		v.Assert(len(rs) == len(w), "an iterator is influenced by another")
		for k := range rs {
			v.Assert(rs[k] == w[k], "an iterator is influenced by another")
		}
		if v.Param("keep") == 1 {
			kept, should = append(kept, rs), append(should, w)
			return
		}
		for k := range rs {
			rs[k] = 'X'
		}
		for k, r := range gs[i].Runes() {
			v.Assert(r == w[k], "the runes returned are not the caller's own")
		}
	}
	for at[0] <= len(wants[0]) || at[1] <= len(wants[1]) {
		i := 0
		if at[0] > len(wants[0]) {
			i = 1
		} else if at[1] <= len(wants[1]) {
			i = v.Choose("next", 2)
		}
		at[i]++
		v.Assert(gs[i].Next() == (at[i] <= len(wants[i])), "an iterator ends early or late")
		if v.Param("width") == 1 {
			runewidth.StringWidth(a + "x")
			uniseg.StepString(b+"y", -1)
		}
		check(0)
		check(1)
		for i, rs := range kept {
			for k, r := range rs {
				v.Assert(r == should[i][k], "runes returned before change")
			}
		}
	}
}

// LocaleAgain: C22, the environment at the time of the call counts.
func LocaleAgain() {
	names := []string{"", "zh_CN.gbk", "ja_JP.UTF-8", "en_US.UTF-8", "C", "POSIX"}
	l := anyLocale("l", v.Param("n"))
	if v.Param("n") == 0 {
		l = names[v.Param("b")]
	}
	first := names[v.Param("a")]
	noEnv()
	v.Env([]string{"LC_ALL", "LC_CTYPE", "LANG"}[v.Param("var")], first)
	v.Assert(runewidth.IsEastAsian() == refEastAsian(first), "the locale is classified wrongly")
	noEnv()
	v.Env([]string{"LC_ALL", "LC_CTYPE", "LANG"}[v.Param("var2")], l)
	v.Assert(runewidth.IsEastAsian() == refEastAsian(l), "the locale is classified by an earlier environment")
	v.Assert(runewidth.IsEastAsian() == refEastAsian(l), "asking again gives another answer")
}
