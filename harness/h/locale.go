package h

import (
	"github.com/ilius/go-table/runewidth"

	"verif/harness/v"
)

var charsets = []string{
	"utf-8", "utf8", "jis", "eucjp", "euckr", "euccn", "sjis", "cp932", "cp51932",
	"cp936", "cp949", "cp950", "big5", "gbk", "gb2312",
}

func lowerASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func isLower(c byte) bool { return c >= 'a' && c <= 'z' }
func isUpper(c byte) bool { return c >= 'A' && c <= 'Z' }

// refCharset is the part after the dot of language[_TERRITORY].charset, else
// the whole name.
func refCharset(l string) string {
	for n := 2; n <= 3; n++ {
		if len(l) <= n {
			break
		}
		ok := true
		for i := 0; i < n; i++ {
			if !isLower(l[i]) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		rest := l[n:]
		if len(rest) >= 3 && rest[0] == '_' && isUpper(rest[1]) && isUpper(rest[2]) {
			rest = rest[3:]
		}
		if len(rest) >= 2 && rest[0] == '.' {
			return rest[1:]
		}
	}
	return l
}

func hasSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }
func hasPrefix(s, t string) bool { return len(s) >= len(t) && s[:len(t)] == t }

// refEastAsian is the documented rule for a locale name.
func refEastAsian(l string) bool {
	if l == "C" || l == "POSIX" || hasPrefix(l, "C.") || hasPrefix(l, "C-") {
		return false
	}
	cs := lowerASCII(refCharset(l))
	if hasSuffix(cs, "@cjk_narrow") {
		return false
	}
	for i := 0; i < len(cs); i++ {
		if cs[i] == '@' {
			cs = cs[:i]
			break
		}
	}
	for i, k := range charsets {
		if cs == k {
			if i >= 2 {
				return true
			}
			return hasPrefix(l, "ja") || hasPrefix(l, "ko") || hasPrefix(l, "zh")
		}
	}
	return false
}

// anyLocale is n arbitrary ASCII characters other than NUL and line feed.
func anyLocale(name string, n int) string {
	s := v.Bytes(name, n)
	for i := 0; i < n; i++ {
		v.Assume(s[i] != 0 && s[i] != '\n' && s[i] < 0x80)
	}
	return s
}

func noEnv() {
	for _, k := range []string{"LC_ALL", "LC_CTYPE", "LANG", "RUNEWIDTH_EASTASIAN"} {
		if v.Param("unset") == 1 {
			v.Unset(k)
		} else {
			v.Env(k, "")
		}
	}
}

// Locale: C22, an arbitrary locale name of n characters in one variable.
func Locale() {
	l := anyLocale("l", v.Param("n"))
	noEnv()
	v.Env([]string{"LC_ALL", "LC_CTYPE", "LANG"}[v.Param("var")], l)
	v.Assert(runewidth.IsEastAsian() == refEastAsian(l), "the locale is classified wrongly")
}

// localeParts builds a locale name from a language of k letters, a territory,
// a charset of the list with one character replaced, and a modifier.
func localeParts() string {
	l := anyLocale("lang", v.Param("k"))
	switch v.Param("terr") {
	case 1:
		l += "_" + anyLocale("terr", 2)
	case 2:
		l += anyLocale("terr", 3)
	}
	switch v.Param("dot") {
	case 0:
		l += "."
	case 1:
		l += anyLocale("dot", 1)
	}
	cs := charsets[v.Param("cs")]
	switch v.Param("edit") {
	case 0: // one character replaced
		i := v.Choose("at", len(cs))
		cs = cs[:i] + anyLocale("c", 1) + cs[i+1:]
	case 1: // one character added
		i := v.Choose("at", len(cs)+1)
		cs = cs[:i] + anyLocale("c", 1) + cs[i:]
	case 2: // one character dropped
		i := v.Choose("at", len(cs))
		cs = cs[:i] + cs[i+1:]
	}
	l += cs
	switch v.Param("mod") {
	case 1:
		l += "@" + anyLocale("mod", v.Param("m"))
	case 2:
		l += "@cjk_narrow"
	case 3:
		l += "@cjk_narro" + anyLocale("mod", 1)
	case 4:
		l += anyLocale("mod", 1) + "cjk_narrow"
	case 5:
		l += "@cjk_narrow" + anyLocale("mod", 1)
	case 6:
		l += "@a@cjk_narrow"
	case 7:
		l += "@some.long.modifier_of_a_locale" + anyLocale("mod", 1) + "cjk_narrow"
	case 8:
		l += "@some.long.modifier_of_a_locale" + anyLocale("mod", 1) + "and more of it"
	case 9:
		l += anyLocale("mod", 1) + "and.a.charset.name.much.longer.than.any.known"
	}
	return l
}

// LocaleParts: C22, locale names of the usual shape.
func LocaleParts() {
	l := localeParts()
	noEnv()
	v.Env("LC_ALL", l)
	v.Assert(runewidth.IsEastAsian() == refEastAsian(l), "the locale is classified wrongly")
}

// LocaleOrder: C22, the first non-empty variable decides.
func LocaleOrder() {
	a, b, c := v.Param("a"), v.Param("b"), v.Param("c")
	names := []string{"", "zh_CN.gbk", "ja_JP.UTF-8", "en_US.UTF-8", "C", "POSIX", "C.gbk", "ko"}
	get := func(name string, k int) string {
		if k < len(names) {
			return names[k]
		}
		return anyLocale(name, k-len(names)+1)
	}
	la, lb, lc := get("a", a), get("b", b), get("c", c)
	noEnv()
	set := func(k, x string) {
		if x != "" || v.Param("unset") == 0 {
			v.Env(k, x)
		}
	}
	set("LC_ALL", la)
	set("LC_CTYPE", lb)
	set("LANG", lc)
	if v.Param("more") == 1 {
		// variables that do not count
		v.Env("LANGUAGE", "ja_JP.eucJP")
		v.Env("LC_MESSAGES", "ja_JP.eucJP")
		v.Env("LC_COLLATE", "ja_JP.eucJP")
		v.Env("RUNEWIDTH_EASTASIAN", "1")
	}
	l := la
	if l == "" {
		l = lb
	}
	if l == "" {
		l = lc
	}
	v.Assert(runewidth.IsEastAsian() == refEastAsian(l), "the first non-empty variable does not decide")
}

// checkStart states C23 for the environment set so far.
func checkStart(east bool) {
	v.Assert(runewidth.EastAsianWidth == east, "the package-wide flag does not follow the environment")
	v.Assert(runewidth.StrictEmojiNeutral, "strict emoji handling is off")
	d := runewidth.DefaultCondition
	v.Assert(d.EastAsianWidth == east && d.StrictEmojiNeutral, "the default condition does not follow the environment")
	c := runewidth.NewCondition()
	v.Assert(c.EastAsianWidth == east && c.StrictEmojiNeutral, "a new condition does not follow the environment")
	v.Assert(c != d && c != runewidth.NewCondition(), "a new condition is shared")
	s := anyText("r", v.Param("n"))
	ref := cond(east, true)
	v.Assert(runewidth.StringWidth(s) == ref.StringWidth(s), "the width after start-up is not that of the configuration")
	v.Assert(d.StringWidth(s) == ref.StringWidth(s), "the default condition's width is not that of the configuration")
	v.Assert(c.StringWidth(s) == ref.StringWidth(s), "a new condition's width is not that of the configuration")
}

// StartVar: C23, RUNEWIDTH_EASTASIAN of k characters with one of several
// locales.
func StartVar() {
	noEnv()
	l := []string{"", "zh_CN.gbk", "ja_JP.UTF-8", "en_US.UTF-8", "C"}[v.Param("loc")]
	if l != "" || v.Param("unset") == 0 {
		v.Env("LC_ALL", l)
	}
	x := anyLocale("x", v.Param("k"))
	if x != "" || v.Param("unset") == 0 {
		v.Env("RUNEWIDTH_EASTASIAN", x)
	}
	v.Start()
	east := x == "1"
	if x == "" {
		east = refEastAsian(l)
	}
	checkStart(east)
}

// StartLocale: C23, the locale decides.
func StartLocale() {
	l := localeParts()
	noEnv()
	v.Env([]string{"LC_ALL", "LC_CTYPE", "LANG"}[v.Param("var")], l)
	v.Start()
	checkStart(refEastAsian(l))
}
