package h

import (
	"strings"

	"github.com/ilius/go-table/runewidth"

	"verif/harness/v"
)

func checkAlign(s string, plain bool) {
	al := v.Param("al")
	w := v.U16("w", 0, 65535)
	got := alignBy(al)(s, w)
	sw := measure(s)
	v.ObsInt("sw", int(sw))
	v.ObsStr("got", got)
	if plain && !hasIntroducer(s) {
		v.Assert(int(sw) == min(runewidth.StringWidth(s), 65535), "the width used is not the text's display width")
	}
	v.Assert(got == padded(al, s, sw, w), "alignment adds exactly the missing spaces on the right side and keeps the text")
}

// AlignText: a text of n arbitrary units (code points or invalid bytes), any
// target width.
func AlignText() { checkAlign(textOf(v.Param("n")), true) }

// AlignRope: a text of any length up to the bound, optionally behind one
// arbitrary code point and in front of another.
func AlignRope() {
	k := v.Int("k", 0, v.Param("max"))
	s := strings.Repeat("a", k)
	checkAlign(s, false)
}

// AlignLong: a long text of fixed length and unit.
func AlignLong() {
	unit := []string{"a", "é", "世", "e\u0301", "\x1b[31m"}[v.Param("unit")]
	checkAlign(strings.Repeat(unit, v.Param("len")), false)
}

// AlignMixed: arbitrary code points among fixed texts that are wide,
// combining, joined or escape sequences.
func AlignMixed() {
	parts := []string{"", "a b", "世界", "e\u0301", "👩\u200d👩\u200d👧", "\x1b[1;31m", "🇩🇪", "\xff\xfe", "  "}
	s := parts[v.Param("a")] + anyText("r", 1) + parts[v.Param("b")] + anyText("r", 1)
	checkAlign(s, true)
}

// AlignIdempotent: aligning what was aligned already changes nothing, and the
// result measures as the target (plain printable ASCII and wide letters, where
// spaces cannot join a cluster).
func AlignIdempotent() {
	al := v.Param("al")
	s := ""
	for i := 0; i < v.Param("n"); i++ {
		s += v.RuneStr(v.Rune("r", 0x4e00, 0x9fff))
	}
	w := v.U16("w", 0, 40)
	got := alignBy(al)(s, w)
	sw := measure(s)
	want := w
	if sw > w {
		want = sw
	}
	v.Assert(measure(got) == want, "the aligned text has exactly the target width")
	v.Assert(alignBy(al)(got, w) == got, "aligning an aligned text keeps it")
}
