package h

import (
	"github.com/ilius/go-table/runewidth"

	"verif/harness/v"
)

const escFinals = "ABCDEFGHIJKLMNORZcfghijklmnqry=><"

// escShapes are parameter lists; d stands for any digit.
var escShapes = []string{"", "d", "dd", "ddd", "dddd", "d;", "d;d", "dd;dd", "d;;d", "d;d;ddd", "dddd;dddd", "d;;;", "dd;d;dd;d;d", "d;d;d;d;d;d;d;d"}

// escSeq is an escape sequence of the given shape: introducer kind, number of
// intermediate characters, parameter shape.
func escSeq(intro, ni, shape int) string {
	s := "\x1b"
	if intro == 1 {
		s = "\u009b"
	}
	s += v.BytesIn("i", ni, "[()#;?")
	for _, c := range escShapes[shape] {
		if c == 'd' {
			s += v.BytesIn("d", 1, "0123456789")
		} else {
			s += string(c)
		}
	}
	return s + v.BytesIn("f", 1, escFinals)
}

// plainText is n arbitrary code points that introduce no escape sequence.
func plainText(name string, n int) string {
	s := ""
	for i := 0; i < n; i++ {
		r := v.Rune(name, 0, 0x10ffff)
		v.Assume(r != 0x1b)
		v.Assume(r != 0x9b)
		s += v.RuneStr(r)
	}
	return s
}

// cut reports whether a cluster of a+b ends after a, and b does not begin with
// a mark that would attach itself to whatever stands before it.
func cut(a, b string) bool {
	if b == "" {
		return true
	}
	for _, r := range b {
		if attaches(r) {
			return false
		}
		break
	}
	p := decode(a + b)
	cls := make([]int, len(p.runes))
	for i, r := range p.runes {
		cls[i] = ucdClass(r)
	}
	return refBreaks(cls)[len(decode(a).runes)]
}

// attaches reports whether r extends the preceding cluster whatever it is.
func attaches(r rune) bool {
	c := ucdClass(r)
	return c == gExtend || c == gZWJ || c == gSpacingMark
}

// EscapeOne: one escape sequence between two texts.
func EscapeOne() {
	a, b := plainText("a", v.Param("n1")), plainText("b", v.Param("n2"))
	pre, post := padOf(v.Param("pad"))
	a, b = pre+a, b+post
	if a != "" && b != "" {
		v.Assume(cut(a, b))
	} else {
		v.Assume(cut("", b))
	}
	e := escSeq(v.Param("intro"), v.Param("ni"), v.Param("shape"))
	with, without := measure(a+e+b), measure(a+b)
	v.ObsInt("with", int(with))
	v.ObsInt("without", int(without))
	v.Assert(with == without, "an escape sequence adds no width")
	v.Assert(int(without) == runewidth.StringWidth(a+b), "text without escape sequences has its string width")
}

// EscapeTwo: two sequences, adjacent or apart, around and between texts.
func EscapeTwo() {
	a, b, c := plainText("a", v.Param("n1")), plainText("b", v.Param("n2")), plainText("c", v.Param("n3"))
	v.Assume(cut(a, b+c))
	v.Assume(cut(a+b, c))
	e := escSeq(v.Param("intro"), v.Param("ni"), v.Param("shape"))
	f := escSeq(v.Param("intro2"), v.Param("ni2"), v.Param("shape2"))
	with, without := measure(a+e+b+f+c), measure(a+b+c)
	v.ObsInt("with", int(with))
	v.Assert(with == without, "two escape sequences add no width")
}

// EscapeMany: k sequences, each around one code point.
func EscapeMany() {
	k := v.Param("k")
	s, plain := "", ""
	for i := 0; i < k; i++ {
		t := []string{"x", "\u4e16", "e\u0301", " ", ""}[i%5]
		if k < 10 {
			r := v.Rune("r", 0x20, 0x2ff)
			v.Assume(r != 0x9b)
			t = v.RuneStr(r)
		}
		s += escSeq(i&1, 1, v.Param("shape")) + t
		plain += t
	}
	s += escSeq(0, 1, 0)
	v.Assert(measure(s) == measure(plain), "many escape sequences add no width")
}
