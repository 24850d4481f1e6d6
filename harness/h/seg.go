package h

import (
	"strings"
	"unicode/utf8"

	"github.com/ilius/go-table/runewidth"
	"github.com/ilius/go-table/runewidth/uniseg"

	"verif/harness/v"
)

// noBreak holds the pairs of neighbouring classes without a boundary between
// them (GB3, GB6 to GB9b), apart from GB11, GB12 and GB13.
func noBreak(a, b int) bool {
	if a == gCR && b == gLF { // GB3
		return true
	}
	if a == gCR || a == gLF || a == gControl || b == gCR || b == gLF || b == gControl { // GB4, GB5
		return false
	}
	switch { // GB6 to GB8
	case a == gL && (b == gL || b == gV || b == gLV || b == gLVT):
		return true
	case (a == gLV || a == gV) && (b == gV || b == gT):
		return true
	case (a == gLVT || a == gT) && b == gT:
		return true
	}
	if b == gExtend || b == gZWJ || b == gSpacingMark { // GB9, GB9a
		return true
	}
	return a == gPrepend // GB9b
}

// refBreaks tells for every i in 1..len-1 if there is a boundary between
// element i-1 and element i.
func refBreaks(cls []int) []bool {
	br := make([]bool, len(cls)+1)
	br[0], br[len(cls)] = true, true
	for i := 1; i < len(cls); i++ {
		a, b := cls[i-1], cls[i]
		keep := noBreak(a, b)
		if a == gZWJ && b == gExtendedPictographic { // GB11
			j := i - 2
			for j >= 0 && cls[j] == gExtend {
				j--
			}
			if j >= 0 && cls[j] == gExtendedPictographic {
				keep = true
			}
		}
		if a == gRegionalIndicator && b == gRegionalIndicator { // GB12, GB13
			n := 0
			for j := i - 1; j >= 0 && cls[j] == gRegionalIndicator; j-- {
				n++
			}
			if n%2 == 1 {
				keep = true
			}
		}
		br[i] = !keep
	}
	return br
}

// parts is a text as a list of decoded runes and their offsets.
type parts struct {
	runes []rune
	off   []int
}

func decode(s string) parts {
	var p parts
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		p.runes = append(p.runes, r)
		p.off = append(p.off, i)
		i += n
	}
	p.off = append(p.off, len(s))
	return p
}

// textOf is the input text of a harness: n arbitrary bytes (bytes=1), or n
// units that are each an arbitrary code point or, where bit i of bad is set,
// an arbitrary byte that does not begin a valid encoding. Every byte string is
// a sequence of such units.
func textOf(n int) string {
	pre, post := padOf(v.Param("pad"))
	return pre + coreOf(n) + post
}

// padOf is a pair of fixed texts to put around the arbitrary units, so that
// they stand in a long text.
func padOf(k int) (string, string) {
	rep := strings.Repeat
	mixed := "a b\t\u4e16e\u0301\U0001f469\u200d\U0001f467\U0001f1e9\U0001f1ea\r\n\u1100\u1161\u11a8\u00e9\x80"
	switch k {
	case 1:
		return rep("a", 17), ""
	case 2:
		return rep("a", 70), rep("b", 70)
	case 3:
		return rep("\u4e16", 40), ""
	case 4:
		return rep("e\u0301", 20), rep("\u0301", 20)
	case 5:
		return rep("\U0001f469\u200d\U0001f469\u200d\U0001f467", 10), "\u200d\U0001f467"
	case 6:
		return rep("\U0001f1e9\U0001f1ea", 10), "\U0001f1e9"
	case 7:
		return rep("\U0001f1e9", 21), "\U0001f1ea"
	case 8:
		return "", rep("\u0301", 40)
	case 9:
		return "\U0001f469" + rep("\u0308", 20), "\U0001f467"
	case 10:
		return rep("\u1100", 20), rep("\u11a8", 20)
	case 11:
		return rep(mixed, 8), rep(mixed, 2)
	case 12:
		return rep("a", 300), rep("\u00e9", 10)
	case 13:
		return rep("\xff", 20), rep("\x80", 5)
	case 14:
		return rep("\u0600", 15), rep("\u0600", 3)
	case 15:
		return "", rep("z", 40)
	case 16:
		return "", rep("\u4e16\u200d", 25)
	case 17:
		return rep("\u200b", 30), rep("\n", 12)
	case 18:
		return rep("a", 1100), ""
	case 19:
		return rep("\u200d", 12), "\u0903"
	case 20:
		return "a" + rep("\u0301", 200), rep("\u0301", 80)
	case 21:
		return rep("\U0001f469\u200d", 50), "\u200d\U0001f467"
	}
	return "", ""
}

func coreOf(n int) string {
	if v.Param("bytes") == 1 {
		return v.Bytes("s", n)
	}
	bad := v.Param("bad")
	if bad == 0 {
		return anyText("r", n)
	}
	s := ""
	var at []int
	for i := 0; i < n; i++ {
		if bad>>i&1 != 0 {
			at = append(at, len(s))
			s += v.Bytes("b", 1)
		} else {
			s += v.RuneStr(v.Rune("r", 0, 0x10ffff))
		}
	}
	for _, i := range at {
		r, k := utf8.DecodeRuneInString(s[i:])
		v.Assume(r == utf8.RuneError && k == 1)
	}
	return s
}

// Partition: C18.
func Partition() {
	s := textOf(v.Param("n"))
	g := uniseg.NewGraphemes(s)
	v.Assert(len(g.Runes()) == 0, "runes are reported before the first cluster")
	p := decode(s)
	i := 0
	for i < len(p.runes) {
		v.Assert(g.Next(), "the iteration ends early")
		rs := g.Runes()
		v.Assert(len(rs) > 0, "a cluster without runes")
		v.Assert(i+len(rs) <= len(p.runes), "more runes than the text has")
		for _, r := range rs {
			v.Assert(r == p.runes[i], "a cluster's runes are not those of the text")
			i++
		}
	}
	for j := 0; j < 3; j++ {
		v.Assert(!g.Next(), "the iteration goes on after the end")
		v.Assert(len(g.Runes()) == 0, "runes are reported after the end")
	}
}

// StepPartition: C18 for single steps, carrying the state.
func StepPartition() {
	s := textOf(v.Param("n"))
	p := decode(s)
	state := -1
	rest := s
	at := 0
	i := 0
	for len(rest) > 0 {
		var c string
		old := rest
		c, rest, _, state = uniseg.StepString(rest, state)
		v.Assert(len(c) > 0, "an empty cluster")
		v.Assert(c+rest == old, "cluster and rest do not make up the text")
		at += len(c)
		for i < len(p.runes) && p.off[i] < at {
			i++
		}
		v.Assert(p.off[i] == at, "a cluster ends inside a rune")
	}
	c, r, b, _ := uniseg.StepString("", state)
	v.Assert(c == "" && r == "" && b == 0, "a step on the empty text yields something")
}

// Boundaries: C19, code points or bytes.
func Boundaries() {
	s := textOf(v.Param("n"))
	p := decode(s)
	cls := make([]int, len(p.runes))
	for i, r := range p.runes {
		cls[i] = ucdClass(r)
	}
	br := refBreaks(cls)
	g := uniseg.NewGraphemes(s)
	i := 0
	for i < len(p.runes) && g.Next() {
		n := len(g.Runes())
		for j := i + 1; j < i+n && j < len(p.runes); j++ {
			v.Assert(!br[j], "no break where the rules want one")
		}
		i += n
		v.Assert(i <= len(p.runes) && br[i], "a break where the rules forbid one")
		v.Assert(n > 0, "an empty cluster")
	}
	v.Assert(i == len(p.runes), "the iteration ends early")
}

// StepBoundaries: C19 for single steps without carried state.
func StepBoundaries() {
	s := textOf(v.Param("n"))
	p := decode(s)
	cls := make([]int, len(p.runes))
	for i, r := range p.runes {
		cls[i] = ucdClass(r)
	}
	br := refBreaks(cls)
	c, rest, _, _ := uniseg.StepString(s, -1)
	end := len(p.runes)
	for j := len(p.runes) - 1; j >= 1; j-- {
		if br[j] {
			end = j
		}
	}
	v.Assert(len(c) == p.off[end] && len(c)+len(rest) == len(s), "the first cluster does not end where the rules say")
}

// refCellWidth is the documented width of a code point standing alone.
func refCellWidth(r rune) int {
	switch ucdClass(r) {
	case gControl, gCR, gLF, gExtend, gZWJ:
		return 0
	case gRegionalIndicator:
		return 2
	case gExtendedPictographic:
		if inPairs(ucdEmoji, r) {
			return 2
		}
		return 1
	}
	switch r {
	case 0x2e3a:
		return 3
	case 0x2e3b:
		return 4
	}
	if inPairs(ucdWide, r) {
		return 2
	}
	return 1
}

// CellWidth: C20 for one code point: alone, or followed by a text that begins
// a new cluster.
func CellWidth() {
	r := v.Rune("r", 0, 0x10ffff)
	s := v.RuneStr(r)
	cut := 1
	_, post := padOf(v.Param("pad"))
	if n := v.Param("more"); n > 0 || post != "" {
		tail := anyText("t", n) + post
		p := decode(s + tail)
		cls := make([]int, len(p.runes))
		for i, q := range p.runes {
			cls[i] = ucdClass(q)
		}
		v.Assume(refBreaks(cls)[cut])
		s += tail
	}
	_, _, b, _ := uniseg.StepString(s, -1)
	w := b >> uniseg.ShiftWidth
	v.ObsInt("w", w)
	v.Assert(w == refCellWidth(r), "the cell width does not follow the rule")
}

// CellWidthAfter: C20 for a code point reached with the carried state.
func CellWidthAfter() {
	pre, _ := padOf(v.Param("pad"))
	first := pre + anyText("f", v.Param("before"))
	r := v.Rune("r", 0, 0x10ffff)
	s := first + v.RuneStr(r)
	p := decode(s)
	cls := make([]int, len(p.runes))
	for i, q := range p.runes {
		cls[i] = ucdClass(q)
	}
	v.Assume(refBreaks(cls)[len(p.runes)-1])
	state := -1
	b := 0
	for len(s) > 0 {
		_, s, b, state = uniseg.StepString(s, state)
	}
	w := b >> uniseg.ShiftWidth
	v.Assert(w == refCellWidth(r), "the cell width after a boundary does not follow the rule")
}

// CellWidthVS: C20, a longer cluster that ends in an emoji variation selector.
func CellWidthVS() {
	n := v.Param("n")
	s := anyText("r", n) + strings.Repeat("\u0308", v.Param("ext")) + "\ufe0f"
	p := decode(s)
	n = len(p.runes) - 1
	cls := make([]int, len(p.runes))
	for i, q := range p.runes {
		cls[i] = ucdClass(q)
	}
	br := refBreaks(cls)
	for i := 1; i <= n; i++ {
		v.Assume(!br[i])
	}
	c, _, b, _ := uniseg.StepString(s, -1)
	v.Assert(len(c) == len(s), "the cluster is broken")
	v.Assert(b>>uniseg.ShiftWidth == 2, "a cluster ending in an emoji variation selector is not 2 wide")
}

// ClusterWidth: C26, the width of a cluster of several code points, at the end
// of the text or followed by another cluster.
func ClusterWidth() {
	n := v.Param("n")
	s := anyText("r", n)
	if k := v.Param("ext"); k > 0 {
		s += strings.Repeat([]string{"\u0308", "\u200d", "\u0903", "\U0001f3fb"}[v.Param("mark")], k)
	}
	p := decode(s)
	cls := make([]int, len(p.runes))
	for i, q := range p.runes {
		cls[i] = ucdClass(q)
	}
	br := refBreaks(cls)
	for i := 1; i < len(cls); i++ {
		v.Assume(!br[i])
	}
	text := s
	switch v.Param("more") {
	case 1:
		r := v.Rune("m", 0, 0x10ffff)
		text += v.RuneStr(r)
		v.Assume(refBreaks(append(cls, ucdClass(r)))[len(cls)])
	case 2:
		text += "\n" + s
	}
	c, _, b, _ := uniseg.StepString(text, -1)
	v.Assert(len(c) == len(s), "the cluster is broken")
	w := b >> uniseg.ShiftWidth
	v.ObsInt("w", w)
	last := p.runes[len(p.runes)-1]
	vs15, vs16 := false, false
	sum := 0
	for _, q := range p.runes {
		if q == 0xfe0e {
			vs15 = true
		}
		if q == 0xfe0f {
			vs16 = true
		}
		sum += refCellWidth(q)
	}
	switch {
	case last == 0xfe0f:
		v.Assert(w == 2, "a cluster ending in an emoji variation selector is not 2 wide")
	case cls[0] == gRegionalIndicator:
		v.Assert(w == 2, "a flag is not 2 wide")
	case cls[0] == gExtendedPictographic:
		if last == 0xfe0e {
			v.Assert(w == 1, "a pictograph with a text variation selector is not 1 wide")
		} else if !vs15 {
			v.Assert(w == 2, "an emoji sequence is not 2 wide")
		}
	case vs16: // left open
	case cls[0] == gL:
		v.Assert(w == refCellWidth(p.runes[0]), "a cluster is not as wide as its leading consonant")
	default:
		v.Assert(w == sum, "a cluster is not as wide as its code points together")
	}
}

// Carried: C21.
func Carried() {
	s := textOf(v.Param("n"))
	state := -1
	rest := s
	for len(rest) > 0 {
		c1, r1, b1, st := uniseg.StepString(rest, state)
		c2, r2, b2, _ := uniseg.StepString(rest, -1)
		v.Assert(c1 == c2, "the carried state gives another cluster")
		v.Assert(r1 == r2, "the carried state gives another rest")
		v.Assert(b1>>uniseg.ShiftWidth == b2>>uniseg.ShiftWidth, "the carried state gives another width")
		v.Assert(len(r1) < len(rest), "no progress")
		rest, state = r1, st
	}
}

// refWidth is the width of s by the reference segmentation, rune widths taken
// from cond.
func refWidth(s string, rw func(rune) int) int {
	p := decode(s)
	cls := make([]int, len(p.runes))
	for i, r := range p.runes {
		cls[i] = ucdClass(r)
	}
	br := refBreaks(cls)
	w := 0
	cur := 0
	for i, r := range p.runes {
		if br[i] {
			w += cur
			cur = 0
		}
		if cur == 0 {
			cur = rw(r)
		}
	}
	return w + cur
}

// StringWidthSum: C17.
func StringWidthSum() {
	s := textOf(v.Param("n"))
	e := v.Param("e")
	c := cond(e&1 != 0, e&2 != 0)
	plain := cond(e&1 != 0, e&2 != 0)
	if e&4 != 0 {
		c.CreateLUT()
	}
	w := c.StringWidth(s)
	v.ObsInt("w", w)
	v.Assert(w == refWidth(s, plain.RuneWidth), "the string width is not the sum over the clusters")
	v.Assert(w >= 0, "negative width")
	v.Assert(w <= 2*len(decode(s).runes), "more than two columns per rune")
}

// StringWidthSelf: C17 against the package's own clusters.
func StringWidthSelf() {
	s := textOf(v.Param("n"))
	e := v.Param("e")
	c := cond(e&1 != 0, e&2 != 0)
	w := 0
	g := uniseg.NewGraphemes(s)
	for g.Next() {
		for _, r := range g.Runes() {
			if x := c.RuneWidth(r); x != 0 {
				w += x
				break
			}
		}
	}
	v.Assert(c.StringWidth(s) == w, "the string width is not the sum over the package's clusters")
}

// StringWidthDefault: C17, the package-level function.
func StringWidthDefault() {
	s := textOf(v.Param("n"))
	if v.Param("lut") == 1 {
		runewidth.CreateLUT()
	}
	d := runewidth.DefaultCondition
	d.EastAsianWidth = v.Param("e")&1 != 0
	d.StrictEmojiNeutral = v.Param("e")&2 != 0
	if v.Param("lut") == 1 {
		d.CreateLUT()
	}
	w := runewidth.StringWidth(s)
	v.Assert(w == refWidth(s, cond(d.EastAsianWidth, d.StrictEmojiNeutral).RuneWidth), "the package's string width is not the default condition's")
	v.Assert(w == d.StringWidth(s), "the package's string width is not the default condition's")
	v.Assert(d.StringWidth("") == 0 && runewidth.StringWidth("") == 0, "the empty string has a width")
}

// StringWidthLong: C17, long texts: a unit repeated many times, a symbolic
// code point somewhere.
func StringWidthLong() {
	n := v.Param("n")
	e := v.Param("e")
	c := cond(e&1 != 0, e&2 != 0)
	a := v.RuneStr(v.Rune("a", 0x20, 0x7e))
	s := ""
	for i := 0; i < n; i++ {
		s += a
	}
	v.Assert(c.StringWidth(s) == n, "the width of a repeated ASCII character is not its count")
}
