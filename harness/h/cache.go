package h

import (
	"strconv"
	"strings"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"

	"verif/harness/v"
)

func hasIntroducer(s string) bool {
	for _, r := range s {
		if r == 0x1b || r == 0x9b {
			return true
		}
	}
	return false
}

// WidthStable: three measurements of arbitrary texts, the first repeated.
func WidthStable() {
	a, b := anyText("a", v.Param("n1")), anyText("b", v.Param("n2"))
	w := measure(a)
	x := measure(b)
	v.ObsInt("w", int(w))
	v.ObsInt("x", int(x))
	if !hasIntroducer(a) {
		v.Assert(int(w) == runewidth.StringWidth(a), "first text measures as its string width")
	}
	if !hasIntroducer(b) {
		v.Assert(int(x) == runewidth.StringWidth(b), "second text measures as its string width")
	}
	v.Assert(measure(a) == w, "measuring the first text again gives the same width")
	v.Assert(measure(b) == x, "measuring the second text again gives the same width")
	v.Assert(table.AlignmentRight(a, w+1) == " "+a || w == 65535, "alignment uses the same width")
}

// WidthEquals: the width of an arbitrary text without escape sequences.
func WidthEquals() {
	a := plainText("a", v.Param("n"))
	w := measure(a)
	v.ObsInt("w", int(w))
	v.Assert(int(w) == runewidth.StringWidth(a), "display width is the string width")
	v.Assert(measure(a) == w, "measuring again gives the same width")
}

// WidthBytes: the same for texts that are not valid UTF-8.
func WidthBytes() {
	a := textOf(v.Param("n"))
	w := measure(a)
	v.ObsInt("w", int(w))
	if !hasIntroducer(a) {
		v.Assert(int(w) == runewidth.StringWidth(a), "display width is the string width")
	}
	v.Assert(measure(a) == w, "measuring again gives the same width")
}

// WidthLong: a history of n distinct texts, then all kinds of texts again.
func WidthLong() {
	n := v.Param("n")
	a := v.RuneStr(v.Rune("a", 0x80, 0x10ffff)) + "x"
	z := v.RuneStr(v.Rune("z", 0x300, 0x36f))
	wa, wz := measure(a), measure(z)
	for i := 0; i < n; i++ {
		measure(strconv.Itoa(i))
	}
	v.ObsInt("wa", int(wa))
	v.Assert(measure(a) == wa, "width after a long history")
	v.Assert(measure(z) == wz, "width of a zero-width text after a long history")
	for i := 0; i < n; i += 997 {
		s := strconv.Itoa(i)
		v.Assert(int(measure(s)) == len(s), "width of a number measured before")
	}
}

// WidthMany: k texts measured one after the other, then each again.
func WidthMany() {
	k := v.Param("k")
	s := make([]string, k)
	w := make([]uint16, k)
	for i := range s {
		s[i] = v.BytesIn("s", v.Param("n"), "ab\x01")
		w[i] = measure(s[i])
		v.Assert(int(w[i]) == runewidth.StringWidth(s[i]), "width of a new or repeated text")
	}
	for i := range s {
		v.Assert(measure(s[i]) == w[i], "width measured again")
	}
}

// WidthRepeat: a long text: a unit of known width repeated, with one arbitrary
// character behind it.
func WidthRepeat() {
	k := v.Param("unit")
	unit := []string{"a", "é", "世", "e\u0301", "\x1b[31mx", "🇩🇪", "\x01"}[k]
	each := []int{1, 1, 2, 1, 1, 1, 0}[k]
	s := ""
	for i := 0; i < v.Param("len"); i++ {
		s += unit
	}
	r := v.Rune("r", 0x21, 0x7e)
	s += v.RuneStr(r)
	w := measure(s)
	v.ObsInt("w", int(w))
	v.Assert(int(w) == min(each*v.Param("len")+1, 65535), "the width of a long text")
	v.Assert(measure(s) == w, "measuring a long text again gives the same width")
}

// WidthAlike: two long texts that differ in one arbitrary character or in
// length only, measured one after the other.
func WidthAlike() {
	n, d := v.Param("n"), v.Param("d")
	p := v.Param("pos") * n / 4
	text := func(name string, n int) string {
		r := v.Rune(name, 0x20, 0x10ffff)
		v.Assume(r != 0x9b)
		return strings.Repeat("a", p) + v.RuneStr(r) + strings.Repeat("a", n-p)
	}
	a, b := text("a", n), text("b", n+d)
	w, x := measure(a), measure(b)
	v.ObsInt("w", int(w))
	v.ObsInt("x", int(x))
	v.Assert(int(w) == runewidth.StringWidth(a), "first text measures as its string width")
	v.Assert(int(x) == runewidth.StringWidth(b), "a text much like the one before measures as its string width")
	v.Assert(measure(a) == w, "measuring the first text again gives the same width")
}
