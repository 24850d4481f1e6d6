package h

import (
	"github.com/ilius/go-table/runewidth"

	"verif/harness/v"
)

// refRuneWidth is the width of r under the given options by the character
// tables of the pinned release.
func refRuneWidth(r rune, east, strict bool) int {
	if r < 0 || r > 0x10ffff {
		return 0
	}
	if inPairs(rwNonprint, r) || inPairs(rwCombining, r) {
		return 0
	}
	if inPairs(rwNarrow, r) {
		return 1
	}
	if inPairs(rwDoublewidth, r) {
		return 2
	}
	if east && inPairs(rwAmbiguous, r) {
		return 2
	}
	if east && !strict && inPairs(rwEmoji, r) {
		return 2
	}
	return 1
}

func cond(east, strict bool) *runewidth.Condition {
	return &runewidth.Condition{EastAsianWidth: east, StrictEmojiNeutral: strict}
}

// RuneWidth: C16, every 32-bit value, every option combination, no table.
func RuneWidth() {
	east, strict := v.Bool("east"), v.Bool("strict")
	r := v.Rune("r", -1, -1)
	w := cond(east, strict).RuneWidth(r)
	v.ObsInt("w", w)
	v.Assert(w == refRuneWidth(r, east, strict), "the rune width does not follow the condition")
	v.Assert(w >= 0 && w <= 2, "the rune width is not 0, 1 or 2")
}

// RuneWidthLUT: C16, the lookup table built once or more, with option changes
// in between, gives the width of the options at the last build.
func RuneWidthLUT() {
	e := v.Param("e")
	steps := v.Param("steps")
	c := cond(e&1 != 0, e&2 != 0)
	c.CreateLUT()
	for i := 0; i < steps; i++ {
		e >>= 2
		c.EastAsianWidth, c.StrictEmojiNeutral = e&1 != 0, e&2 != 0
		c.CreateLUT()
	}
	r := v.Rune("r", -1, -1)
	w := c.RuneWidth(r)
	v.ObsInt("w", w)
	v.Assert(w == refRuneWidth(r, e&1 != 0, e&2 != 0), "the lookup table changes a rune's width")
	v.Assert(w == cond(e&1 != 0, e&2 != 0).RuneWidth(r), "the lookup table changes a rune's width")
}

// RuneWidthGlobal: C16, the package-wide table: building it leaves the default
// condition's widths as they were, also when it is built twice.
func RuneWidthGlobal() {
	c := runewidth.DefaultCondition
	east, strict := c.EastAsianWidth, c.StrictEmojiNeutral
	if v.Param("set") == 1 {
		runewidth.EastAsianWidth, runewidth.StrictEmojiNeutral = !east, !strict
	}
	runewidth.CreateLUT()
	if v.Param("twice") == 1 {
		runewidth.CreateLUT()
	}
	r := v.Rune("r", -1, -1)
	w := c.RuneWidth(r)
	v.ObsInt("w", w)
	v.Assert(w == refRuneWidth(r, east, strict), "the package-wide lookup table changes a rune's width")
	v.Assert(c.EastAsianWidth == east && c.StrictEmojiNeutral == strict, "building the table changes the options")
}
