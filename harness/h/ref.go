package h

// pairs looks r up in a sorted list of first, last pairs.
func inPairs(t []rune, r rune) bool {
	lo, hi := 0, len(t)/2
	for lo < hi {
		m := (lo + hi) / 2
		if t[2*m+1] < r {
			lo = m + 1
		} else {
			hi = m
		}
	}
	return lo < len(t)/2 && t[2*lo] <= r
}

// ucdClass is the Unicode 14 grapheme cluster break class of r.
func ucdClass(r rune) int {
	t := ucdGrapheme
	lo, hi := 0, len(t)/3
	for lo < hi {
		m := (lo + hi) / 2
		if t[3*m+1] < r {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(t)/3 && t[3*lo] <= r {
		return int(t[3*lo+2])
	}
	return gXX
}
