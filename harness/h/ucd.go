// Code generated by tools/gen_ucd.py; DO NOT EDIT.

package h

// Grapheme cluster break classes.
const (
	gXX                   = 0
	gPrepend              = 1
	gCR                   = 2
	gLF                   = 3
	gControl              = 4
	gExtend               = 5
	gRegionalIndicator    = 6
	gSpacingMark          = 7
	gL                    = 8
	gV                    = 9
	gT                    = 10
	gLV                   = 11
	gLVT                  = 12
	gZWJ                  = 13
	gExtendedPictographic = 14
)

// first, last, class
var ucdGrapheme = []int32{
	0x0, 0x9, 4,
	0xa, 0xa, 3,
	0xb, 0xc, 4,
	0xd, 0xd, 2,
	0xe, 0x1f, 4,
	0x7f, 0x9f, 4,
	0xa9, 0xa9, 14,
	0xad, 0xad, 4,
	0xae, 0xae, 14,
	0x300, 0x36f, 5,
	0x483, 0x489, 5,
	0x591, 0x5bd, 5,
	0x5bf, 0x5bf, 5,
	0x5c1, 0x5c2, 5,
	0x5c4, 0x5c5, 5,
	0x5c7, 0x5c7, 5,
	0x600, 0x605, 1,
	0x610, 0x61a, 5,
	0x61c, 0x61c, 4,
	0x64b, 0x65f, 5,
	0x670, 0x670, 5,
	0x6d6, 0x6dc, 5,
	0x6dd, 0x6dd, 1,
	0x6df, 0x6e4, 5,
	0x6e7, 0x6e8, 5,
	0x6ea, 0x6ed, 5,
	0x70f, 0x70f, 1,
	0x711, 0x711, 5,
	0x730, 0x74a, 5,
	0x7a6, 0x7b0, 5,
	0x7eb, 0x7f3, 5,
	0x7fd, 0x7fd, 5,
	0x816, 0x819, 5,
	0x81b, 0x823, 5,
	0x825, 0x827, 5,
	0x829, 0x82d, 5,
	0x859, 0x85b, 5,
	0x890, 0x891, 1,
	0x898, 0x89f, 5,
	0x8ca, 0x8e1, 5,
	0x8e2, 0x8e2, 1,
	0x8e3, 0x902, 5,
	0x903, 0x903, 7,
	0x93a, 0x93a, 5,
	0x93b, 0x93b, 7,
	0x93c, 0x93c, 5,
	0x93e, 0x940, 7,
	0x941, 0x948, 5,
	0x949, 0x94c, 7,
	0x94d, 0x94d, 5,
	0x94e, 0x94f, 7,
	0x951, 0x957, 5,
	0x962, 0x963, 5,
	0x981, 0x981, 5,
	0x982, 0x983, 7,
	0x9bc, 0x9bc, 5,
	0x9be, 0x9be, 5,
	0x9bf, 0x9c0, 7,
	0x9c1, 0x9c4, 5,
	0x9c7, 0x9c8, 7,
	0x9cb, 0x9cc, 7,
	0x9cd, 0x9cd, 5,
	0x9d7, 0x9d7, 5,
	0x9e2, 0x9e3, 5,
	0x9fe, 0x9fe, 5,
	0xa01, 0xa02, 5,
	0xa03, 0xa03, 7,
	0xa3c, 0xa3c, 5,
	0xa3e, 0xa40, 7,
	0xa41, 0xa42, 5,
	0xa47, 0xa48, 5,
	0xa4b, 0xa4d, 5,
	0xa51, 0xa51, 5,
	0xa70, 0xa71, 5,
	0xa75, 0xa75, 5,
	0xa81, 0xa82, 5,
	0xa83, 0xa83, 7,
	0xabc, 0xabc, 5,
	0xabe, 0xac0, 7,
	0xac1, 0xac5, 5,
	0xac7, 0xac8, 5,
	0xac9, 0xac9, 7,
	0xacb, 0xacc, 7,
	0xacd, 0xacd, 5,
	0xae2, 0xae3, 5,
	0xafa, 0xaff, 5,
	0xb01, 0xb01, 5,
	0xb02, 0xb03, 7,
	0xb3c, 0xb3c, 5,
	0xb3e, 0xb3f, 5,
	0xb40, 0xb40, 7,
	0xb41, 0xb44, 5,
	0xb47, 0xb48, 7,
	0xb4b, 0xb4c, 7,
	0xb4d, 0xb4d, 5,
	0xb55, 0xb57, 5,
	0xb62, 0xb63, 5,
	0xb82, 0xb82, 5,
	0xbbe, 0xbbe, 5,
	0xbbf, 0xbbf, 7,
	0xbc0, 0xbc0, 5,
	0xbc1, 0xbc2, 7,
	0xbc6, 0xbc8, 7,
	0xbca, 0xbcc, 7,
	0xbcd, 0xbcd, 5,
	0xbd7, 0xbd7, 5,
	0xc00, 0xc00, 5,
	0xc01, 0xc03, 7,
	0xc04, 0xc04, 5,
	0xc3c, 0xc3c, 5,
	0xc3e, 0xc40, 5,
	0xc41, 0xc44, 7,
	0xc46, 0xc48, 5,
	0xc4a, 0xc4d, 5,
	0xc55, 0xc56, 5,
	0xc62, 0xc63, 5,
	0xc81, 0xc81, 5,
	0xc82, 0xc83, 7,
	0xcbc, 0xcbc, 5,
	0xcbe, 0xcbe, 7,
	0xcbf, 0xcbf, 5,
	0xcc0, 0xcc1, 7,
	0xcc2, 0xcc2, 5,
	0xcc3, 0xcc4, 7,
	0xcc6, 0xcc6, 5,
	0xcc7, 0xcc8, 7,
	0xcca, 0xccb, 7,
	0xccc, 0xccd, 5,
	0xcd5, 0xcd6, 5,
	0xce2, 0xce3, 5,
	0xd00, 0xd01, 5,
	0xd02, 0xd03, 7,
	0xd3b, 0xd3c, 5,
	0xd3e, 0xd3e, 5,
	0xd3f, 0xd40, 7,
	0xd41, 0xd44, 5,
	0xd46, 0xd48, 7,
	0xd4a, 0xd4c, 7,
	0xd4d, 0xd4d, 5,
	0xd4e, 0xd4e, 1,
	0xd57, 0xd57, 5,
	0xd62, 0xd63, 5,
	0xd81, 0xd81, 5,
	0xd82, 0xd83, 7,
	0xdca, 0xdca, 5,
	0xdcf, 0xdcf, 5,
	0xdd0, 0xdd1, 7,
	0xdd2, 0xdd4, 5,
	0xdd6, 0xdd6, 5,
	0xdd8, 0xdde, 7,
	0xddf, 0xddf, 5,
	0xdf2, 0xdf3, 7,
	0xe31, 0xe31, 5,
	0xe33, 0xe33, 7,
	0xe34, 0xe3a, 5,
	0xe47, 0xe4e, 5,
	0xeb1, 0xeb1, 5,
	0xeb3, 0xeb3, 7,
	0xeb4, 0xebc, 5,
	0xec8, 0xecd, 5,
	0xf18, 0xf19, 5,
	0xf35, 0xf35, 5,
	0xf37, 0xf37, 5,
	0xf39, 0xf39, 5,
	0xf3e, 0xf3f, 7,
	0xf71, 0xf7e, 5,
	0xf7f, 0xf7f, 7,
	0xf80, 0xf84, 5,
	0xf86, 0xf87, 5,
	0xf8d, 0xf97, 5,
	0xf99, 0xfbc, 5,
	0xfc6, 0xfc6, 5,
	0x102d, 0x1030, 5,
	0x1031, 0x1031, 7,
	0x1032, 0x1037, 5,
	0x1039, 0x103a, 5,
	0x103b, 0x103c, 7,
	0x103d, 0x103e, 5,
	0x1056, 0x1057, 7,
	0x1058, 0x1059, 5,
	0x105e, 0x1060, 5,
	0x1071, 0x1074, 5,
	0x1082, 0x1082, 5,
	0x1084, 0x1084, 7,
	0x1085, 0x1086, 5,
	0x108d, 0x108d, 5,
	0x109d, 0x109d, 5,
	0x1100, 0x115f, 8,
	0x1160, 0x11a7, 9,
	0x11a8, 0x11ff, 10,
	0x135d, 0x135f, 5,
	0x1712, 0x1714, 5,
	0x1715, 0x1715, 7,
	0x1732, 0x1733, 5,
	0x1734, 0x1734, 7,
	0x1752, 0x1753, 5,
	0x1772, 0x1773, 5,
	0x17b4, 0x17b5, 5,
	0x17b6, 0x17b6, 7,
	0x17b7, 0x17bd, 5,
	0x17be, 0x17c5, 7,
	0x17c6, 0x17c6, 5,
	0x17c7, 0x17c8, 7,
	0x17c9, 0x17d3, 5,
	0x17dd, 0x17dd, 5,
	0x180b, 0x180d, 5,
	0x180e, 0x180e, 4,
	0x180f, 0x180f, 5,
	0x1885, 0x1886, 5,
	0x18a9, 0x18a9, 5,
	0x1920, 0x1922, 5,
	0x1923, 0x1926, 7,
	0x1927, 0x1928, 5,
	0x1929, 0x192b, 7,
	0x1930, 0x1931, 7,
	0x1932, 0x1932, 5,
	0x1933, 0x1938, 7,
	0x1939, 0x193b, 5,
	0x1a17, 0x1a18, 5,
	0x1a19, 0x1a1a, 7,
	0x1a1b, 0x1a1b, 5,
	0x1a55, 0x1a55, 7,
	0x1a56, 0x1a56, 5,
	0x1a57, 0x1a57, 7,
	0x1a58, 0x1a5e, 5,
	0x1a60, 0x1a60, 5,
	0x1a62, 0x1a62, 5,
	0x1a65, 0x1a6c, 5,
	0x1a6d, 0x1a72, 7,
	0x1a73, 0x1a7c, 5,
	0x1a7f, 0x1a7f, 5,
	0x1ab0, 0x1ace, 5,
	0x1b00, 0x1b03, 5,
	0x1b04, 0x1b04, 7,
	0x1b34, 0x1b3a, 5,
	0x1b3b, 0x1b3b, 7,
	0x1b3c, 0x1b3c, 5,
	0x1b3d, 0x1b41, 7,
	0x1b42, 0x1b42, 5,
	0x1b43, 0x1b44, 7,
	0x1b6b, 0x1b73, 5,
	0x1b80, 0x1b81, 5,
	0x1b82, 0x1b82, 7,
	0x1ba1, 0x1ba1, 7,
	0x1ba2, 0x1ba5, 5,
	0x1ba6, 0x1ba7, 7,
	0x1ba8, 0x1ba9, 5,
	0x1baa, 0x1baa, 7,
	0x1bab, 0x1bad, 5,
	0x1be6, 0x1be6, 5,
	0x1be7, 0x1be7, 7,
	0x1be8, 0x1be9, 5,
	0x1bea, 0x1bec, 7,
	0x1bed, 0x1bed, 5,
	0x1bee, 0x1bee, 7,
	0x1bef, 0x1bf1, 5,
	0x1bf2, 0x1bf3, 7,
	0x1c24, 0x1c2b, 7,
	0x1c2c, 0x1c33, 5,
	0x1c34, 0x1c35, 7,
	0x1c36, 0x1c37, 5,
	0x1cd0, 0x1cd2, 5,
	0x1cd4, 0x1ce0, 5,
	0x1ce1, 0x1ce1, 7,
	0x1ce2, 0x1ce8, 5,
	0x1ced, 0x1ced, 5,
	0x1cf4, 0x1cf4, 5,
	0x1cf7, 0x1cf7, 7,
	0x1cf8, 0x1cf9, 5,
	0x1dc0, 0x1dff, 5,
	0x200b, 0x200b, 4,
	0x200c, 0x200c, 5,
	0x200d, 0x200d, 13,
	0x200e, 0x200f, 4,
	0x2028, 0x202e, 4,
	0x203c, 0x203c, 14,
	0x2049, 0x2049, 14,
	0x2060, 0x206f, 4,
	0x20d0, 0x20f0, 5,
	0x2122, 0x2122, 14,
	0x2139, 0x2139, 14,
	0x2194, 0x2199, 14,
	0x21a9, 0x21aa, 14,
	0x231a, 0x231b, 14,
	0x2328, 0x2328, 14,
	0x2388, 0x2388, 14,
	0x23cf, 0x23cf, 14,
	0x23e9, 0x23f3, 14,
	0x23f8, 0x23fa, 14,
	0x24c2, 0x24c2, 14,
	0x25aa, 0x25ab, 14,
	0x25b6, 0x25b6, 14,
	0x25c0, 0x25c0, 14,
	0x25fb, 0x25fe, 14,
	0x2600, 0x2605, 14,
	0x2607, 0x2612, 14,
	0x2614, 0x2685, 14,
	0x2690, 0x2705, 14,
	0x2708, 0x2712, 14,
	0x2714, 0x2714, 14,
	0x2716, 0x2716, 14,
	0x271d, 0x271d, 14,
	0x2721, 0x2721, 14,
	0x2728, 0x2728, 14,
	0x2733, 0x2734, 14,
	0x2744, 0x2744, 14,
	0x2747, 0x2747, 14,
	0x274c, 0x274c, 14,
	0x274e, 0x274e, 14,
	0x2753, 0x2755, 14,
	0x2757, 0x2757, 14,
	0x2763, 0x2767, 14,
	0x2795, 0x2797, 14,
	0x27a1, 0x27a1, 14,
	0x27b0, 0x27b0, 14,
	0x27bf, 0x27bf, 14,
	0x2934, 0x2935, 14,
	0x2b05, 0x2b07, 14,
	0x2b1b, 0x2b1c, 14,
	0x2b50, 0x2b50, 14,
	0x2b55, 0x2b55, 14,
	0x2cef, 0x2cf1, 5,
	0x2d7f, 0x2d7f, 5,
	0x2de0, 0x2dff, 5,
	0x302a, 0x302f, 5,
	0x3030, 0x3030, 14,
	0x303d, 0x303d, 14,
	0x3099, 0x309a, 5,
	0x3297, 0x3297, 14,
	0x3299, 0x3299, 14,
	0xa66f, 0xa672, 5,
	0xa674, 0xa67d, 5,
	0xa69e, 0xa69f, 5,
	0xa6f0, 0xa6f1, 5,
	0xa802, 0xa802, 5,
	0xa806, 0xa806, 5,
	0xa80b, 0xa80b, 5,
	0xa823, 0xa824, 7,
	0xa825, 0xa826, 5,
	0xa827, 0xa827, 7,
	0xa82c, 0xa82c, 5,
	0xa880, 0xa881, 7,
	0xa8b4, 0xa8c3, 7,
	0xa8c4, 0xa8c5, 5,
	0xa8e0, 0xa8f1, 5,
	0xa8ff, 0xa8ff, 5,
	0xa926, 0xa92d, 5,
	0xa947, 0xa951, 5,
	0xa952, 0xa953, 7,
	0xa960, 0xa97c, 8,
	0xa980, 0xa982, 5,
	0xa983, 0xa983, 7,
	0xa9b3, 0xa9b3, 5,
	0xa9b4, 0xa9b5, 7,
	0xa9b6, 0xa9b9, 5,
	0xa9ba, 0xa9bb, 7,
	0xa9bc, 0xa9bd, 5,
	0xa9be, 0xa9c0, 7,
	0xa9e5, 0xa9e5, 5,
	0xaa29, 0xaa2e, 5,
	0xaa2f, 0xaa30, 7,
	0xaa31, 0xaa32, 5,
	0xaa33, 0xaa34, 7,
	0xaa35, 0xaa36, 5,
	0xaa43, 0xaa43, 5,
	0xaa4c, 0xaa4c, 5,
	0xaa4d, 0xaa4d, 7,
	0xaa7c, 0xaa7c, 5,
	0xaab0, 0xaab0, 5,
	0xaab2, 0xaab4, 5,
	0xaab7, 0xaab8, 5,
	0xaabe, 0xaabf, 5,
	0xaac1, 0xaac1, 5,
	0xaaeb, 0xaaeb, 7,
	0xaaec, 0xaaed, 5,
	0xaaee, 0xaaef, 7,
	0xaaf5, 0xaaf5, 7,
	0xaaf6, 0xaaf6, 5,
	0xabe3, 0xabe4, 7,
	0xabe5, 0xabe5, 5,
	0xabe6, 0xabe7, 7,
	0xabe8, 0xabe8, 5,
	0xabe9, 0xabea, 7,
	0xabec, 0xabec, 7,
	0xabed, 0xabed, 5,
	0xac00, 0xac00, 11,
	0xac01, 0xac1b, 12,
	0xac1c, 0xac1c, 11,
	0xac1d, 0xac37, 12,
	0xac38, 0xac38, 11,
	0xac39, 0xac53, 12,
	0xac54, 0xac54, 11,
	0xac55, 0xac6f, 12,
	0xac70, 0xac70, 11,
	0xac71, 0xac8b, 12,
	0xac8c, 0xac8c, 11,
	0xac8d, 0xaca7, 12,
	0xaca8, 0xaca8, 11,
	0xaca9, 0xacc3, 12,
	0xacc4, 0xacc4, 11,
	0xacc5, 0xacdf, 12,
	0xace0, 0xace0, 11,
	0xace1, 0xacfb, 12,
	0xacfc, 0xacfc, 11,
	0xacfd, 0xad17, 12,
	0xad18, 0xad18, 11,
	0xad19, 0xad33, 12,
	0xad34, 0xad34, 11,
	0xad35, 0xad4f, 12,
	0xad50, 0xad50, 11,
	0xad51, 0xad6b, 12,
	0xad6c, 0xad6c, 11,
	0xad6d, 0xad87, 12,
	0xad88, 0xad88, 11,
	0xad89, 0xada3, 12,
	0xada4, 0xada4, 11,
	0xada5, 0xadbf, 12,
	0xadc0, 0xadc0, 11,
	0xadc1, 0xaddb, 12,
	0xaddc, 0xaddc, 11,
	0xaddd, 0xadf7, 12,
	0xadf8, 0xadf8, 11,
	0xadf9, 0xae13, 12,
	0xae14, 0xae14, 11,
	0xae15, 0xae2f, 12,
	0xae30, 0xae30, 11,
	0xae31, 0xae4b, 12,
	0xae4c, 0xae4c, 11,
	0xae4d, 0xae67, 12,
	0xae68, 0xae68, 11,
	0xae69, 0xae83, 12,
	0xae84, 0xae84, 11,
	0xae85, 0xae9f, 12,
	0xaea0, 0xaea0, 11,
	0xaea1, 0xaebb, 12,
	0xaebc, 0xaebc, 11,
	0xaebd, 0xaed7, 12,
	0xaed8, 0xaed8, 11,
	0xaed9, 0xaef3, 12,
	0xaef4, 0xaef4, 11,
	0xaef5, 0xaf0f, 12,
	0xaf10, 0xaf10, 11,
	0xaf11, 0xaf2b, 12,
	0xaf2c, 0xaf2c, 11,
	0xaf2d, 0xaf47, 12,
	0xaf48, 0xaf48, 11,
	0xaf49, 0xaf63, 12,
	0xaf64, 0xaf64, 11,
	0xaf65, 0xaf7f, 12,
	0xaf80, 0xaf80, 11,
	0xaf81, 0xaf9b, 12,
	0xaf9c, 0xaf9c, 11,
	0xaf9d, 0xafb7, 12,
	0xafb8, 0xafb8, 11,
	0xafb9, 0xafd3, 12,
	0xafd4, 0xafd4, 11,
	0xafd5, 0xafef, 12,
	0xaff0, 0xaff0, 11,
	0xaff1, 0xb00b, 12,
	0xb00c, 0xb00c, 11,
	0xb00d, 0xb027, 12,
	0xb028, 0xb028, 11,
	0xb029, 0xb043, 12,
	0xb044, 0xb044, 11,
	0xb045, 0xb05f, 12,
	0xb060, 0xb060, 11,
	0xb061, 0xb07b, 12,
	0xb07c, 0xb07c, 11,
	0xb07d, 0xb097, 12,
	0xb098, 0xb098, 11,
	0xb099, 0xb0b3, 12,
	0xb0b4, 0xb0b4, 11,
	0xb0b5, 0xb0cf, 12,
	0xb0d0, 0xb0d0, 11,
	0xb0d1, 0xb0eb, 12,
	0xb0ec, 0xb0ec, 11,
	0xb0ed, 0xb107, 12,
	0xb108, 0xb108, 11,
	0xb109, 0xb123, 12,
	0xb124, 0xb124, 11,
	0xb125, 0xb13f, 12,
	0xb140, 0xb140, 11,
	0xb141, 0xb15b, 12,
	0xb15c, 0xb15c, 11,
	0xb15d, 0xb177, 12,
	0xb178, 0xb178, 11,
	0xb179, 0xb193, 12,
	0xb194, 0xb194, 11,
	0xb195, 0xb1af, 12,
	0xb1b0, 0xb1b0, 11,
	0xb1b1, 0xb1cb, 12,
	0xb1cc, 0xb1cc, 11,
	0xb1cd, 0xb1e7, 12,
	0xb1e8, 0xb1e8, 11,
	0xb1e9, 0xb203, 12,
	0xb204, 0xb204, 11,
	0xb205, 0xb21f, 12,
	0xb220, 0xb220, 11,
	0xb221, 0xb23b, 12,
	0xb23c, 0xb23c, 11,
	0xb23d, 0xb257, 12,
	0xb258, 0xb258, 11,
	0xb259, 0xb273, 12,
	0xb274, 0xb274, 11,
	0xb275, 0xb28f, 12,
	0xb290, 0xb290, 11,
	0xb291, 0xb2ab, 12,
	0xb2ac, 0xb2ac, 11,
	0xb2ad, 0xb2c7, 12,
	0xb2c8, 0xb2c8, 11,
	0xb2c9, 0xb2e3, 12,
	0xb2e4, 0xb2e4, 11,
	0xb2e5, 0xb2ff, 12,
	0xb300, 0xb300, 11,
	0xb301, 0xb31b, 12,
	0xb31c, 0xb31c, 11,
	0xb31d, 0xb337, 12,
	0xb338, 0xb338, 11,
	0xb339, 0xb353, 12,
	0xb354, 0xb354, 11,
	0xb355, 0xb36f, 12,
	0xb370, 0xb370, 11,
	0xb371, 0xb38b, 12,
	0xb38c, 0xb38c, 11,
	0xb38d, 0xb3a7, 12,
	0xb3a8, 0xb3a8, 11,
	0xb3a9, 0xb3c3, 12,
	0xb3c4, 0xb3c4, 11,
	0xb3c5, 0xb3df, 12,
	0xb3e0, 0xb3e0, 11,
	0xb3e1, 0xb3fb, 12,
	0xb3fc, 0xb3fc, 11,
	0xb3fd, 0xb417, 12,
	0xb418, 0xb418, 11,
	0xb419, 0xb433, 12,
	0xb434, 0xb434, 11,
	0xb435, 0xb44f, 12,
	0xb450, 0xb450, 11,
	0xb451, 0xb46b, 12,
	0xb46c, 0xb46c, 11,
	0xb46d, 0xb487, 12,
	0xb488, 0xb488, 11,
	0xb489, 0xb4a3, 12,
	0xb4a4, 0xb4a4, 11,
	0xb4a5, 0xb4bf, 12,
	0xb4c0, 0xb4c0, 11,
	0xb4c1, 0xb4db, 12,
	0xb4dc, 0xb4dc, 11,
	0xb4dd, 0xb4f7, 12,
	0xb4f8, 0xb4f8, 11,
	0xb4f9, 0xb513, 12,
	0xb514, 0xb514, 11,
	0xb515, 0xb52f, 12,
	0xb530, 0xb530, 11,
	0xb531, 0xb54b, 12,
	0xb54c, 0xb54c, 11,
	0xb54d, 0xb567, 12,
	0xb568, 0xb568, 11,
	0xb569, 0xb583, 12,
	0xb584, 0xb584, 11,
	0xb585, 0xb59f, 12,
	0xb5a0, 0xb5a0, 11,
	0xb5a1, 0xb5bb, 12,
	0xb5bc, 0xb5bc, 11,
	0xb5bd, 0xb5d7, 12,
	0xb5d8, 0xb5d8, 11,
	0xb5d9, 0xb5f3, 12,
	0xb5f4, 0xb5f4, 11,
	0xb5f5, 0xb60f, 12,
	0xb610, 0xb610, 11,
	0xb611, 0xb62b, 12,
	0xb62c, 0xb62c, 11,
	0xb62d, 0xb647, 12,
	0xb648, 0xb648, 11,
	0xb649, 0xb663, 12,
	0xb664, 0xb664, 11,
	0xb665, 0xb67f, 12,
	0xb680, 0xb680, 11,
	0xb681, 0xb69b, 12,
	0xb69c, 0xb69c, 11,
	0xb69d, 0xb6b7, 12,
	0xb6b8, 0xb6b8, 11,
	0xb6b9, 0xb6d3, 12,
	0xb6d4, 0xb6d4, 11,
	0xb6d5, 0xb6ef, 12,
	0xb6f0, 0xb6f0, 11,
	0xb6f1, 0xb70b, 12,
	0xb70c, 0xb70c, 11,
	0xb70d, 0xb727, 12,
	0xb728, 0xb728, 11,
	0xb729, 0xb743, 12,
	0xb744, 0xb744, 11,
	0xb745, 0xb75f, 12,
	0xb760, 0xb760, 11,
	0xb761, 0xb77b, 12,
	0xb77c, 0xb77c, 11,
	0xb77d, 0xb797, 12,
	0xb798, 0xb798, 11,
	0xb799, 0xb7b3, 12,
	0xb7b4, 0xb7b4, 11,
	0xb7b5, 0xb7cf, 12,
	0xb7d0, 0xb7d0, 11,
	0xb7d1, 0xb7eb, 12,
	0xb7ec, 0xb7ec, 11,
	0xb7ed, 0xb807, 12,
	0xb808, 0xb808, 11,
	0xb809, 0xb823, 12,
	0xb824, 0xb824, 11,
	0xb825, 0xb83f, 12,
	0xb840, 0xb840, 11,
	0xb841, 0xb85b, 12,
	0xb85c, 0xb85c, 11,
	0xb85d, 0xb877, 12,
	0xb878, 0xb878, 11,
	0xb879, 0xb893, 12,
	0xb894, 0xb894, 11,
	0xb895, 0xb8af, 12,
	0xb8b0, 0xb8b0, 11,
	0xb8b1, 0xb8cb, 12,
	0xb8cc, 0xb8cc, 11,
	0xb8cd, 0xb8e7, 12,
	0xb8e8, 0xb8e8, 11,
	0xb8e9, 0xb903, 12,
	0xb904, 0xb904, 11,
	0xb905, 0xb91f, 12,
	0xb920, 0xb920, 11,
	0xb921, 0xb93b, 12,
	0xb93c, 0xb93c, 11,
	0xb93d, 0xb957, 12,
	0xb958, 0xb958, 11,
	0xb959, 0xb973, 12,
	0xb974, 0xb974, 11,
	0xb975, 0xb98f, 12,
	0xb990, 0xb990, 11,
	0xb991, 0xb9ab, 12,
	0xb9ac, 0xb9ac, 11,
	0xb9ad, 0xb9c7, 12,
	0xb9c8, 0xb9c8, 11,
	0xb9c9, 0xb9e3, 12,
	0xb9e4, 0xb9e4, 11,
	0xb9e5, 0xb9ff, 12,
	0xba00, 0xba00, 11,
	0xba01, 0xba1b, 12,
	0xba1c, 0xba1c, 11,
	0xba1d, 0xba37, 12,
	0xba38, 0xba38, 11,
	0xba39, 0xba53, 12,
	0xba54, 0xba54, 11,
	0xba55, 0xba6f, 12,
	0xba70, 0xba70, 11,
	0xba71, 0xba8b, 12,
	0xba8c, 0xba8c, 11,
	0xba8d, 0xbaa7, 12,
	0xbaa8, 0xbaa8, 11,
	0xbaa9, 0xbac3, 12,
	0xbac4, 0xbac4, 11,
	0xbac5, 0xbadf, 12,
	0xbae0, 0xbae0, 11,
	0xbae1, 0xbafb, 12,
	0xbafc, 0xbafc, 11,
	0xbafd, 0xbb17, 12,
	0xbb18, 0xbb18, 11,
	0xbb19, 0xbb33, 12,
	0xbb34, 0xbb34, 11,
	0xbb35, 0xbb4f, 12,
	0xbb50, 0xbb50, 11,
	0xbb51, 0xbb6b, 12,
	0xbb6c, 0xbb6c, 11,
	0xbb6d, 0xbb87, 12,
	0xbb88, 0xbb88, 11,
	0xbb89, 0xbba3, 12,
	0xbba4, 0xbba4, 11,
	0xbba5, 0xbbbf, 12,
	0xbbc0, 0xbbc0, 11,
	0xbbc1, 0xbbdb, 12,
	0xbbdc, 0xbbdc, 11,
	0xbbdd, 0xbbf7, 12,
	0xbbf8, 0xbbf8, 11,
	0xbbf9, 0xbc13, 12,
	0xbc14, 0xbc14, 11,
	0xbc15, 0xbc2f, 12,
	0xbc30, 0xbc30, 11,
	0xbc31, 0xbc4b, 12,
	0xbc4c, 0xbc4c, 11,
	0xbc4d, 0xbc67, 12,
	0xbc68, 0xbc68, 11,
	0xbc69, 0xbc83, 12,
	0xbc84, 0xbc84, 11,
	0xbc85, 0xbc9f, 12,
	0xbca0, 0xbca0, 11,
	0xbca1, 0xbcbb, 12,
	0xbcbc, 0xbcbc, 11,
	0xbcbd, 0xbcd7, 12,
	0xbcd8, 0xbcd8, 11,
	0xbcd9, 0xbcf3, 12,
	0xbcf4, 0xbcf4, 11,
	0xbcf5, 0xbd0f, 12,
	0xbd10, 0xbd10, 11,
	0xbd11, 0xbd2b, 12,
	0xbd2c, 0xbd2c, 11,
	0xbd2d, 0xbd47, 12,
	0xbd48, 0xbd48, 11,
	0xbd49, 0xbd63, 12,
	0xbd64, 0xbd64, 11,
	0xbd65, 0xbd7f, 12,
	0xbd80, 0xbd80, 11,
	0xbd81, 0xbd9b, 12,
	0xbd9c, 0xbd9c, 11,
	0xbd9d, 0xbdb7, 12,
	0xbdb8, 0xbdb8, 11,
	0xbdb9, 0xbdd3, 12,
	0xbdd4, 0xbdd4, 11,
	0xbdd5, 0xbdef, 12,
	0xbdf0, 0xbdf0, 11,
	0xbdf1, 0xbe0b, 12,
	0xbe0c, 0xbe0c, 11,
	0xbe0d, 0xbe27, 12,
	0xbe28, 0xbe28, 11,
	0xbe29, 0xbe43, 12,
	0xbe44, 0xbe44, 11,
	0xbe45, 0xbe5f, 12,
	0xbe60, 0xbe60, 11,
	0xbe61, 0xbe7b, 12,
	0xbe7c, 0xbe7c, 11,
	0xbe7d, 0xbe97, 12,
	0xbe98, 0xbe98, 11,
	0xbe99, 0xbeb3, 12,
	0xbeb4, 0xbeb4, 11,
	0xbeb5, 0xbecf, 12,
	0xbed0, 0xbed0, 11,
	0xbed1, 0xbeeb, 12,
	0xbeec, 0xbeec, 11,
	0xbeed, 0xbf07, 12,
	0xbf08, 0xbf08, 11,
	0xbf09, 0xbf23, 12,
	0xbf24, 0xbf24, 11,
	0xbf25, 0xbf3f, 12,
	0xbf40, 0xbf40, 11,
	0xbf41, 0xbf5b, 12,
	0xbf5c, 0xbf5c, 11,
	0xbf5d, 0xbf77, 12,
	0xbf78, 0xbf78, 11,
	0xbf79, 0xbf93, 12,
	0xbf94, 0xbf94, 11,
	0xbf95, 0xbfaf, 12,
	0xbfb0, 0xbfb0, 11,
	0xbfb1, 0xbfcb, 12,
	0xbfcc, 0xbfcc, 11,
	0xbfcd, 0xbfe7, 12,
	0xbfe8, 0xbfe8, 11,
	0xbfe9, 0xc003, 12,
	0xc004, 0xc004, 11,
	0xc005, 0xc01f, 12,
	0xc020, 0xc020, 11,
	0xc021, 0xc03b, 12,
	0xc03c, 0xc03c, 11,
	0xc03d, 0xc057, 12,
	0xc058, 0xc058, 11,
	0xc059, 0xc073, 12,
	0xc074, 0xc074, 11,
	0xc075, 0xc08f, 12,
	0xc090, 0xc090, 11,
	0xc091, 0xc0ab, 12,
	0xc0ac, 0xc0ac, 11,
	0xc0ad, 0xc0c7, 12,
	0xc0c8, 0xc0c8, 11,
	0xc0c9, 0xc0e3, 12,
	0xc0e4, 0xc0e4, 11,
	0xc0e5, 0xc0ff, 12,
	0xc100, 0xc100, 11,
	0xc101, 0xc11b, 12,
	0xc11c, 0xc11c, 11,
	0xc11d, 0xc137, 12,
	0xc138, 0xc138, 11,
	0xc139, 0xc153, 12,
	0xc154, 0xc154, 11,
	0xc155, 0xc16f, 12,
	0xc170, 0xc170, 11,
	0xc171, 0xc18b, 12,
	0xc18c, 0xc18c, 11,
	0xc18d, 0xc1a7, 12,
	0xc1a8, 0xc1a8, 11,
	0xc1a9, 0xc1c3, 12,
	0xc1c4, 0xc1c4, 11,
	0xc1c5, 0xc1df, 12,
	0xc1e0, 0xc1e0, 11,
	0xc1e1, 0xc1fb, 12,
	0xc1fc, 0xc1fc, 11,
	0xc1fd, 0xc217, 12,
	0xc218, 0xc218, 11,
	0xc219, 0xc233, 12,
	0xc234, 0xc234, 11,
	0xc235, 0xc24f, 12,
	0xc250, 0xc250, 11,
	0xc251, 0xc26b, 12,
	0xc26c, 0xc26c, 11,
	0xc26d, 0xc287, 12,
	0xc288, 0xc288, 11,
	0xc289, 0xc2a3, 12,
	0xc2a4, 0xc2a4, 11,
	0xc2a5, 0xc2bf, 12,
	0xc2c0, 0xc2c0, 11,
	0xc2c1, 0xc2db, 12,
	0xc2dc, 0xc2dc, 11,
	0xc2dd, 0xc2f7, 12,
	0xc2f8, 0xc2f8, 11,
	0xc2f9, 0xc313, 12,
	0xc314, 0xc314, 11,
	0xc315, 0xc32f, 12,
	0xc330, 0xc330, 11,
	0xc331, 0xc34b, 12,
	0xc34c, 0xc34c, 11,
	0xc34d, 0xc367, 12,
	0xc368, 0xc368, 11,
	0xc369, 0xc383, 12,
	0xc384, 0xc384, 11,
	0xc385, 0xc39f, 12,
	0xc3a0, 0xc3a0, 11,
	0xc3a1, 0xc3bb, 12,
	0xc3bc, 0xc3bc, 11,
	0xc3bd, 0xc3d7, 12,
	0xc3d8, 0xc3d8, 11,
	0xc3d9, 0xc3f3, 12,
	0xc3f4, 0xc3f4, 11,
	0xc3f5, 0xc40f, 12,
	0xc410, 0xc410, 11,
	0xc411, 0xc42b, 12,
	0xc42c, 0xc42c, 11,
	0xc42d, 0xc447, 12,
	0xc448, 0xc448, 11,
	0xc449, 0xc463, 12,
	0xc464, 0xc464, 11,
	0xc465, 0xc47f, 12,
	0xc480, 0xc480, 11,
	0xc481, 0xc49b, 12,
	0xc49c, 0xc49c, 11,
	0xc49d, 0xc4b7, 12,
	0xc4b8, 0xc4b8, 11,
	0xc4b9, 0xc4d3, 12,
	0xc4d4, 0xc4d4, 11,
	0xc4d5, 0xc4ef, 12,
	0xc4f0, 0xc4f0, 11,
	0xc4f1, 0xc50b, 12,
	0xc50c, 0xc50c, 11,
	0xc50d, 0xc527, 12,
	0xc528, 0xc528, 11,
	0xc529, 0xc543, 12,
	0xc544, 0xc544, 11,
	0xc545, 0xc55f, 12,
	0xc560, 0xc560, 11,
	0xc561, 0xc57b, 12,
	0xc57c, 0xc57c, 11,
	0xc57d, 0xc597, 12,
	0xc598, 0xc598, 11,
	0xc599, 0xc5b3, 12,
	0xc5b4, 0xc5b4, 11,
	0xc5b5, 0xc5cf, 12,
	0xc5d0, 0xc5d0, 11,
	0xc5d1, 0xc5eb, 12,
	0xc5ec, 0xc5ec, 11,
	0xc5ed, 0xc607, 12,
	0xc608, 0xc608, 11,
	0xc609, 0xc623, 12,
	0xc624, 0xc624, 11,
	0xc625, 0xc63f, 12,
	0xc640, 0xc640, 11,
	0xc641, 0xc65b, 12,
	0xc65c, 0xc65c, 11,
	0xc65d, 0xc677, 12,
	0xc678, 0xc678, 11,
	0xc679, 0xc693, 12,
	0xc694, 0xc694, 11,
	0xc695, 0xc6af, 12,
	0xc6b0, 0xc6b0, 11,
	0xc6b1, 0xc6cb, 12,
	0xc6cc, 0xc6cc, 11,
	0xc6cd, 0xc6e7, 12,
	0xc6e8, 0xc6e8, 11,
	0xc6e9, 0xc703, 12,
	0xc704, 0xc704, 11,
	0xc705, 0xc71f, 12,
	0xc720, 0xc720, 11,
	0xc721, 0xc73b, 12,
	0xc73c, 0xc73c, 11,
	0xc73d, 0xc757, 12,
	0xc758, 0xc758, 11,
	0xc759, 0xc773, 12,
	0xc774, 0xc774, 11,
	0xc775, 0xc78f, 12,
	0xc790, 0xc790, 11,
	0xc791, 0xc7ab, 12,
	0xc7ac, 0xc7ac, 11,
	0xc7ad, 0xc7c7, 12,
	0xc7c8, 0xc7c8, 11,
	0xc7c9, 0xc7e3, 12,
	0xc7e4, 0xc7e4, 11,
	0xc7e5, 0xc7ff, 12,
	0xc800, 0xc800, 11,
	0xc801, 0xc81b, 12,
	0xc81c, 0xc81c, 11,
	0xc81d, 0xc837, 12,
	0xc838, 0xc838, 11,
	0xc839, 0xc853, 12,
	0xc854, 0xc854, 11,
	0xc855, 0xc86f, 12,
	0xc870, 0xc870, 11,
	0xc871, 0xc88b, 12,
	0xc88c, 0xc88c, 11,
	0xc88d, 0xc8a7, 12,
	0xc8a8, 0xc8a8, 11,
	0xc8a9, 0xc8c3, 12,
	0xc8c4, 0xc8c4, 11,
	0xc8c5, 0xc8df, 12,
	0xc8e0, 0xc8e0, 11,
	0xc8e1, 0xc8fb, 12,
	0xc8fc, 0xc8fc, 11,
	0xc8fd, 0xc917, 12,
	0xc918, 0xc918, 11,
	0xc919, 0xc933, 12,
	0xc934, 0xc934, 11,
	0xc935, 0xc94f, 12,
	0xc950, 0xc950, 11,
	0xc951, 0xc96b, 12,
	0xc96c, 0xc96c, 11,
	0xc96d, 0xc987, 12,
	0xc988, 0xc988, 11,
	0xc989, 0xc9a3, 12,
	0xc9a4, 0xc9a4, 11,
	0xc9a5, 0xc9bf, 12,
	0xc9c0, 0xc9c0, 11,
	0xc9c1, 0xc9db, 12,
	0xc9dc, 0xc9dc, 11,
	0xc9dd, 0xc9f7, 12,
	0xc9f8, 0xc9f8, 11,
	0xc9f9, 0xca13, 12,
	0xca14, 0xca14, 11,
	0xca15, 0xca2f, 12,
	0xca30, 0xca30, 11,
	0xca31, 0xca4b, 12,
	0xca4c, 0xca4c, 11,
	0xca4d, 0xca67, 12,
	0xca68, 0xca68, 11,
	0xca69, 0xca83, 12,
	0xca84, 0xca84, 11,
	0xca85, 0xca9f, 12,
	0xcaa0, 0xcaa0, 11,
	0xcaa1, 0xcabb, 12,
	0xcabc, 0xcabc, 11,
	0xcabd, 0xcad7, 12,
	0xcad8, 0xcad8, 11,
	0xcad9, 0xcaf3, 12,
	0xcaf4, 0xcaf4, 11,
	0xcaf5, 0xcb0f, 12,
	0xcb10, 0xcb10, 11,
	0xcb11, 0xcb2b, 12,
	0xcb2c, 0xcb2c, 11,
	0xcb2d, 0xcb47, 12,
	0xcb48, 0xcb48, 11,
	0xcb49, 0xcb63, 12,
	0xcb64, 0xcb64, 11,
	0xcb65, 0xcb7f, 12,
	0xcb80, 0xcb80, 11,
	0xcb81, 0xcb9b, 12,
	0xcb9c, 0xcb9c, 11,
	0xcb9d, 0xcbb7, 12,
	0xcbb8, 0xcbb8, 11,
	0xcbb9, 0xcbd3, 12,
	0xcbd4, 0xcbd4, 11,
	0xcbd5, 0xcbef, 12,
	0xcbf0, 0xcbf0, 11,
	0xcbf1, 0xcc0b, 12,
	0xcc0c, 0xcc0c, 11,
	0xcc0d, 0xcc27, 12,
	0xcc28, 0xcc28, 11,
	0xcc29, 0xcc43, 12,
	0xcc44, 0xcc44, 11,
	0xcc45, 0xcc5f, 12,
	0xcc60, 0xcc60, 11,
	0xcc61, 0xcc7b, 12,
	0xcc7c, 0xcc7c, 11,
	0xcc7d, 0xcc97, 12,
	0xcc98, 0xcc98, 11,
	0xcc99, 0xccb3, 12,
	0xccb4, 0xccb4, 11,
	0xccb5, 0xcccf, 12,
	0xccd0, 0xccd0, 11,
	0xccd1, 0xcceb, 12,
	0xccec, 0xccec, 11,
	0xcced, 0xcd07, 12,
	0xcd08, 0xcd08, 11,
	0xcd09, 0xcd23, 12,
	0xcd24, 0xcd24, 11,
	0xcd25, 0xcd3f, 12,
	0xcd40, 0xcd40, 11,
	0xcd41, 0xcd5b, 12,
	0xcd5c, 0xcd5c, 11,
	0xcd5d, 0xcd77, 12,
	0xcd78, 0xcd78, 11,
	0xcd79, 0xcd93, 12,
	0xcd94, 0xcd94, 11,
	0xcd95, 0xcdaf, 12,
	0xcdb0, 0xcdb0, 11,
	0xcdb1, 0xcdcb, 12,
	0xcdcc, 0xcdcc, 11,
	0xcdcd, 0xcde7, 12,
	0xcde8, 0xcde8, 11,
	0xcde9, 0xce03, 12,
	0xce04, 0xce04, 11,
	0xce05, 0xce1f, 12,
	0xce20, 0xce20, 11,
	0xce21, 0xce3b, 12,
	0xce3c, 0xce3c, 11,
	0xce3d, 0xce57, 12,
	0xce58, 0xce58, 11,
	0xce59, 0xce73, 12,
	0xce74, 0xce74, 11,
	0xce75, 0xce8f, 12,
	0xce90, 0xce90, 11,
	0xce91, 0xceab, 12,
	0xceac, 0xceac, 11,
	0xcead, 0xcec7, 12,
	0xcec8, 0xcec8, 11,
	0xcec9, 0xcee3, 12,
	0xcee4, 0xcee4, 11,
	0xcee5, 0xceff, 12,
	0xcf00, 0xcf00, 11,
	0xcf01, 0xcf1b, 12,
	0xcf1c, 0xcf1c, 11,
	0xcf1d, 0xcf37, 12,
	0xcf38, 0xcf38, 11,
	0xcf39, 0xcf53, 12,
	0xcf54, 0xcf54, 11,
	0xcf55, 0xcf6f, 12,
	0xcf70, 0xcf70, 11,
	0xcf71, 0xcf8b, 12,
	0xcf8c, 0xcf8c, 11,
	0xcf8d, 0xcfa7, 12,
	0xcfa8, 0xcfa8, 11,
	0xcfa9, 0xcfc3, 12,
	0xcfc4, 0xcfc4, 11,
	0xcfc5, 0xcfdf, 12,
	0xcfe0, 0xcfe0, 11,
	0xcfe1, 0xcffb, 12,
	0xcffc, 0xcffc, 11,
	0xcffd, 0xd017, 12,
	0xd018, 0xd018, 11,
	0xd019, 0xd033, 12,
	0xd034, 0xd034, 11,
	0xd035, 0xd04f, 12,
	0xd050, 0xd050, 11,
	0xd051, 0xd06b, 12,
	0xd06c, 0xd06c, 11,
	0xd06d, 0xd087, 12,
	0xd088, 0xd088, 11,
	0xd089, 0xd0a3, 12,
	0xd0a4, 0xd0a4, 11,
	0xd0a5, 0xd0bf, 12,
	0xd0c0, 0xd0c0, 11,
	0xd0c1, 0xd0db, 12,
	0xd0dc, 0xd0dc, 11,
	0xd0dd, 0xd0f7, 12,
	0xd0f8, 0xd0f8, 11,
	0xd0f9, 0xd113, 12,
	0xd114, 0xd114, 11,
	0xd115, 0xd12f, 12,
	0xd130, 0xd130, 11,
	0xd131, 0xd14b, 12,
	0xd14c, 0xd14c, 11,
	0xd14d, 0xd167, 12,
	0xd168, 0xd168, 11,
	0xd169, 0xd183, 12,
	0xd184, 0xd184, 11,
	0xd185, 0xd19f, 12,
	0xd1a0, 0xd1a0, 11,
	0xd1a1, 0xd1bb, 12,
	0xd1bc, 0xd1bc, 11,
	0xd1bd, 0xd1d7, 12,
	0xd1d8, 0xd1d8, 11,
	0xd1d9, 0xd1f3, 12,
	0xd1f4, 0xd1f4, 11,
	0xd1f5, 0xd20f, 12,
	0xd210, 0xd210, 11,
	0xd211, 0xd22b, 12,
	0xd22c, 0xd22c, 11,
	0xd22d, 0xd247, 12,
	0xd248, 0xd248, 11,
	0xd249, 0xd263, 12,
	0xd264, 0xd264, 11,
	0xd265, 0xd27f, 12,
	0xd280, 0xd280, 11,
	0xd281, 0xd29b, 12,
	0xd29c, 0xd29c, 11,
	0xd29d, 0xd2b7, 12,
	0xd2b8, 0xd2b8, 11,
	0xd2b9, 0xd2d3, 12,
	0xd2d4, 0xd2d4, 11,
	0xd2d5, 0xd2ef, 12,
	0xd2f0, 0xd2f0, 11,
	0xd2f1, 0xd30b, 12,
	0xd30c, 0xd30c, 11,
	0xd30d, 0xd327, 12,
	0xd328, 0xd328, 11,
	0xd329, 0xd343, 12,
	0xd344, 0xd344, 11,
	0xd345, 0xd35f, 12,
	0xd360, 0xd360, 11,
	0xd361, 0xd37b, 12,
	0xd37c, 0xd37c, 11,
	0xd37d, 0xd397, 12,
	0xd398, 0xd398, 11,
	0xd399, 0xd3b3, 12,
	0xd3b4, 0xd3b4, 11,
	0xd3b5, 0xd3cf, 12,
	0xd3d0, 0xd3d0, 11,
	0xd3d1, 0xd3eb, 12,
	0xd3ec, 0xd3ec, 11,
	0xd3ed, 0xd407, 12,
	0xd408, 0xd408, 11,
	0xd409, 0xd423, 12,
	0xd424, 0xd424, 11,
	0xd425, 0xd43f, 12,
	0xd440, 0xd440, 11,
	0xd441, 0xd45b, 12,
	0xd45c, 0xd45c, 11,
	0xd45d, 0xd477, 12,
	0xd478, 0xd478, 11,
	0xd479, 0xd493, 12,
	0xd494, 0xd494, 11,
	0xd495, 0xd4af, 12,
	0xd4b0, 0xd4b0, 11,
	0xd4b1, 0xd4cb, 12,
	0xd4cc, 0xd4cc, 11,
	0xd4cd, 0xd4e7, 12,
	0xd4e8, 0xd4e8, 11,
	0xd4e9, 0xd503, 12,
	0xd504, 0xd504, 11,
	0xd505, 0xd51f, 12,
	0xd520, 0xd520, 11,
	0xd521, 0xd53b, 12,
	0xd53c, 0xd53c, 11,
	0xd53d, 0xd557, 12,
	0xd558, 0xd558, 11,
	0xd559, 0xd573, 12,
	0xd574, 0xd574, 11,
	0xd575, 0xd58f, 12,
	0xd590, 0xd590, 11,
	0xd591, 0xd5ab, 12,
	0xd5ac, 0xd5ac, 11,
	0xd5ad, 0xd5c7, 12,
	0xd5c8, 0xd5c8, 11,
	0xd5c9, 0xd5e3, 12,
	0xd5e4, 0xd5e4, 11,
	0xd5e5, 0xd5ff, 12,
	0xd600, 0xd600, 11,
	0xd601, 0xd61b, 12,
	0xd61c, 0xd61c, 11,
	0xd61d, 0xd637, 12,
	0xd638, 0xd638, 11,
	0xd639, 0xd653, 12,
	0xd654, 0xd654, 11,
	0xd655, 0xd66f, 12,
	0xd670, 0xd670, 11,
	0xd671, 0xd68b, 12,
	0xd68c, 0xd68c, 11,
	0xd68d, 0xd6a7, 12,
	0xd6a8, 0xd6a8, 11,
	0xd6a9, 0xd6c3, 12,
	0xd6c4, 0xd6c4, 11,
	0xd6c5, 0xd6df, 12,
	0xd6e0, 0xd6e0, 11,
	0xd6e1, 0xd6fb, 12,
	0xd6fc, 0xd6fc, 11,
	0xd6fd, 0xd717, 12,
	0xd718, 0xd718, 11,
	0xd719, 0xd733, 12,
	0xd734, 0xd734, 11,
	0xd735, 0xd74f, 12,
	0xd750, 0xd750, 11,
	0xd751, 0xd76b, 12,
	0xd76c, 0xd76c, 11,
	0xd76d, 0xd787, 12,
	0xd788, 0xd788, 11,
	0xd789, 0xd7a3, 12,
	0xd7b0, 0xd7c6, 9,
	0xd7cb, 0xd7fb, 10,
	0xfb1e, 0xfb1e, 5,
	0xfe00, 0xfe0f, 5,
	0xfe20, 0xfe2f, 5,
	0xfeff, 0xfeff, 4,
	0xff9e, 0xff9f, 5,
	0xfff0, 0xfffb, 4,
	0x101fd, 0x101fd, 5,
	0x102e0, 0x102e0, 5,
	0x10376, 0x1037a, 5,
	0x10a01, 0x10a03, 5,
	0x10a05, 0x10a06, 5,
	0x10a0c, 0x10a0f, 5,
	0x10a38, 0x10a3a, 5,
	0x10a3f, 0x10a3f, 5,
	0x10ae5, 0x10ae6, 5,
	0x10d24, 0x10d27, 5,
	0x10eab, 0x10eac, 5,
	0x10f46, 0x10f50, 5,
	0x10f82, 0x10f85, 5,
	0x11000, 0x11000, 7,
	0x11001, 0x11001, 5,
	0x11002, 0x11002, 7,
	0x11038, 0x11046, 5,
	0x11070, 0x11070, 5,
	0x11073, 0x11074, 5,
	0x1107f, 0x11081, 5,
	0x11082, 0x11082, 7,
	0x110b0, 0x110b2, 7,
	0x110b3, 0x110b6, 5,
	0x110b7, 0x110b8, 7,
	0x110b9, 0x110ba, 5,
	0x110bd, 0x110bd, 1,
	0x110c2, 0x110c2, 5,
	0x110cd, 0x110cd, 1,
	0x11100, 0x11102, 5,
	0x11127, 0x1112b, 5,
	0x1112c, 0x1112c, 7,
	0x1112d, 0x11134, 5,
	0x11145, 0x11146, 7,
	0x11173, 0x11173, 5,
	0x11180, 0x11181, 5,
	0x11182, 0x11182, 7,
	0x111b3, 0x111b5, 7,
	0x111b6, 0x111be, 5,
	0x111bf, 0x111c0, 7,
	0x111c2, 0x111c3, 1,
	0x111c9, 0x111cc, 5,
	0x111ce, 0x111ce, 7,
	0x111cf, 0x111cf, 5,
	0x1122c, 0x1122e, 7,
	0x1122f, 0x11231, 5,
	0x11232, 0x11233, 7,
	0x11234, 0x11234, 5,
	0x11235, 0x11235, 7,
	0x11236, 0x11237, 5,
	0x1123e, 0x1123e, 5,
	0x112df, 0x112df, 5,
	0x112e0, 0x112e2, 7,
	0x112e3, 0x112ea, 5,
	0x11300, 0x11301, 5,
	0x11302, 0x11303, 7,
	0x1133b, 0x1133c, 5,
	0x1133e, 0x1133e, 5,
	0x1133f, 0x1133f, 7,
	0x11340, 0x11340, 5,
	0x11341, 0x11344, 7,
	0x11347, 0x11348, 7,
	0x1134b, 0x1134d, 7,
	0x11357, 0x11357, 5,
	0x11362, 0x11363, 7,
	0x11366, 0x1136c, 5,
	0x11370, 0x11374, 5,
	0x11435, 0x11437, 7,
	0x11438, 0x1143f, 5,
	0x11440, 0x11441, 7,
	0x11442, 0x11444, 5,
	0x11445, 0x11445, 7,
	0x11446, 0x11446, 5,
	0x1145e, 0x1145e, 5,
	0x114b0, 0x114b0, 5,
	0x114b1, 0x114b2, 7,
	0x114b3, 0x114b8, 5,
	0x114b9, 0x114b9, 7,
	0x114ba, 0x114ba, 5,
	0x114bb, 0x114bc, 7,
	0x114bd, 0x114bd, 5,
	0x114be, 0x114be, 7,
	0x114bf, 0x114c0, 5,
	0x114c1, 0x114c1, 7,
	0x114c2, 0x114c3, 5,
	0x115af, 0x115af, 5,
	0x115b0, 0x115b1, 7,
	0x115b2, 0x115b5, 5,
	0x115b8, 0x115bb, 7,
	0x115bc, 0x115bd, 5,
	0x115be, 0x115be, 7,
	0x115bf, 0x115c0, 5,
	0x115dc, 0x115dd, 5,
	0x11630, 0x11632, 7,
	0x11633, 0x1163a, 5,
	0x1163b, 0x1163c, 7,
	0x1163d, 0x1163d, 5,
	0x1163e, 0x1163e, 7,
	0x1163f, 0x11640, 5,
	0x116ab, 0x116ab, 5,
	0x116ac, 0x116ac, 7,
	0x116ad, 0x116ad, 5,
	0x116ae, 0x116af, 7,
	0x116b0, 0x116b5, 5,
	0x116b6, 0x116b6, 7,
	0x116b7, 0x116b7, 5,
	0x1171d, 0x1171f, 5,
	0x11722, 0x11725, 5,
	0x11726, 0x11726, 7,
	0x11727, 0x1172b, 5,
	0x1182c, 0x1182e, 7,
	0x1182f, 0x11837, 5,
	0x11838, 0x11838, 7,
	0x11839, 0x1183a, 5,
	0x11930, 0x11930, 5,
	0x11931, 0x11935, 7,
	0x11937, 0x11938, 7,
	0x1193b, 0x1193c, 5,
	0x1193d, 0x1193d, 7,
	0x1193e, 0x1193e, 5,
	0x1193f, 0x1193f, 1,
	0x11940, 0x11940, 7,
	0x11941, 0x11941, 1,
	0x11942, 0x11942, 7,
	0x11943, 0x11943, 5,
	0x119d1, 0x119d3, 7,
	0x119d4, 0x119d7, 5,
	0x119da, 0x119db, 5,
	0x119dc, 0x119df, 7,
	0x119e0, 0x119e0, 5,
	0x119e4, 0x119e4, 7,
	0x11a01, 0x11a0a, 5,
	0x11a33, 0x11a38, 5,
	0x11a39, 0x11a39, 7,
	0x11a3a, 0x11a3a, 1,
	0x11a3b, 0x11a3e, 5,
	0x11a47, 0x11a47, 5,
	0x11a51, 0x11a56, 5,
	0x11a57, 0x11a58, 7,
	0x11a59, 0x11a5b, 5,
	0x11a84, 0x11a89, 1,
	0x11a8a, 0x11a96, 5,
	0x11a97, 0x11a97, 7,
	0x11a98, 0x11a99, 5,
	0x11c2f, 0x11c2f, 7,
	0x11c30, 0x11c36, 5,
	0x11c38, 0x11c3d, 5,
	0x11c3e, 0x11c3e, 7,
	0x11c3f, 0x11c3f, 5,
	0x11c92, 0x11ca7, 5,
	0x11ca9, 0x11ca9, 7,
	0x11caa, 0x11cb0, 5,
	0x11cb1, 0x11cb1, 7,
	0x11cb2, 0x11cb3, 5,
	0x11cb4, 0x11cb4, 7,
	0x11cb5, 0x11cb6, 5,
	0x11d31, 0x11d36, 5,
	0x11d3a, 0x11d3a, 5,
	0x11d3c, 0x11d3d, 5,
	0x11d3f, 0x11d45, 5,
	0x11d46, 0x11d46, 1,
	0x11d47, 0x11d47, 5,
	0x11d8a, 0x11d8e, 7,
	0x11d90, 0x11d91, 5,
	0x11d93, 0x11d94, 7,
	0x11d95, 0x11d95, 5,
	0x11d96, 0x11d96, 7,
	0x11d97, 0x11d97, 5,
	0x11ef3, 0x11ef4, 5,
	0x11ef5, 0x11ef6, 7,
	0x13430, 0x13438, 4,
	0x16af0, 0x16af4, 5,
	0x16b30, 0x16b36, 5,
	0x16f4f, 0x16f4f, 5,
	0x16f51, 0x16f87, 7,
	0x16f8f, 0x16f92, 5,
	0x16fe4, 0x16fe4, 5,
	0x16ff0, 0x16ff1, 7,
	0x1bc9d, 0x1bc9e, 5,
	0x1bca0, 0x1bca3, 4,
	0x1cf00, 0x1cf2d, 5,
	0x1cf30, 0x1cf46, 5,
	0x1d165, 0x1d165, 5,
	0x1d166, 0x1d166, 7,
	0x1d167, 0x1d169, 5,
	0x1d16d, 0x1d16d, 7,
	0x1d16e, 0x1d172, 5,
	0x1d173, 0x1d17a, 4,
	0x1d17b, 0x1d182, 5,
	0x1d185, 0x1d18b, 5,
	0x1d1aa, 0x1d1ad, 5,
	0x1d242, 0x1d244, 5,
	0x1da00, 0x1da36, 5,
	0x1da3b, 0x1da6c, 5,
	0x1da75, 0x1da75, 5,
	0x1da84, 0x1da84, 5,
	0x1da9b, 0x1da9f, 5,
	0x1daa1, 0x1daaf, 5,
	0x1e000, 0x1e006, 5,
	0x1e008, 0x1e018, 5,
	0x1e01b, 0x1e021, 5,
	0x1e023, 0x1e024, 5,
	0x1e026, 0x1e02a, 5,
	0x1e130, 0x1e136, 5,
	0x1e2ae, 0x1e2ae, 5,
	0x1e2ec, 0x1e2ef, 5,
	0x1e8d0, 0x1e8d6, 5,
	0x1e944, 0x1e94a, 5,
	0x1f000, 0x1f0ff, 14,
	0x1f10d, 0x1f10f, 14,
	0x1f12f, 0x1f12f, 14,
	0x1f16c, 0x1f171, 14,
	0x1f17e, 0x1f17f, 14,
	0x1f18e, 0x1f18e, 14,
	0x1f191, 0x1f19a, 14,
	0x1f1ad, 0x1f1e5, 14,
	0x1f1e6, 0x1f1ff, 6,
	0x1f201, 0x1f20f, 14,
	0x1f21a, 0x1f21a, 14,
	0x1f22f, 0x1f22f, 14,
	0x1f232, 0x1f23a, 14,
	0x1f23c, 0x1f23f, 14,
	0x1f249, 0x1f3fa, 14,
	0x1f3fb, 0x1f3ff, 5,
	0x1f400, 0x1f53d, 14,
	0x1f546, 0x1f64f, 14,
	0x1f680, 0x1f6ff, 14,
	0x1f774, 0x1f77f, 14,
	0x1f7d5, 0x1f7ff, 14,
	0x1f80c, 0x1f80f, 14,
	0x1f848, 0x1f84f, 14,
	0x1f85a, 0x1f85f, 14,
	0x1f888, 0x1f88f, 14,
	0x1f8ae, 0x1f8ff, 14,
	0x1f90c, 0x1f93a, 14,
	0x1f93c, 0x1f945, 14,
	0x1f947, 0x1faff, 14,
	0x1fc00, 0x1fffd, 14,
	0xe0000, 0xe001f, 4,
	0xe0020, 0xe007f, 5,
	0xe0080, 0xe00ff, 4,
	0xe0100, 0xe01ef, 5,
	0xe01f0, 0xe0fff, 4,
}

var rwAmbiguous = []int32{
	0xa1, 0xa1,
	0xa4, 0xa4,
	0xa7, 0xa8,
	0xaa, 0xaa,
	0xad, 0xae,
	0xb0, 0xb4,
	0xb6, 0xba,
	0xbc, 0xbf,
	0xc6, 0xc6,
	0xd0, 0xd0,
	0xd7, 0xd8,
	0xde, 0xe1,
	0xe6, 0xe6,
	0xe8, 0xea,
	0xec, 0xed,
	0xf0, 0xf0,
	0xf2, 0xf3,
	0xf7, 0xfa,
	0xfc, 0xfc,
	0xfe, 0xfe,
	0x101, 0x101,
	0x111, 0x111,
	0x113, 0x113,
	0x11b, 0x11b,
	0x126, 0x127,
	0x12b, 0x12b,
	0x131, 0x133,
	0x138, 0x138,
	0x13f, 0x142,
	0x144, 0x144,
	0x148, 0x14b,
	0x14d, 0x14d,
	0x152, 0x153,
	0x166, 0x167,
	0x16b, 0x16b,
	0x1ce, 0x1ce,
	0x1d0, 0x1d0,
	0x1d2, 0x1d2,
	0x1d4, 0x1d4,
	0x1d6, 0x1d6,
	0x1d8, 0x1d8,
	0x1da, 0x1da,
	0x1dc, 0x1dc,
	0x251, 0x251,
	0x261, 0x261,
	0x2c4, 0x2c4,
	0x2c7, 0x2c7,
	0x2c9, 0x2cb,
	0x2cd, 0x2cd,
	0x2d0, 0x2d0,
	0x2d8, 0x2db,
	0x2dd, 0x2dd,
	0x2df, 0x2df,
	0x300, 0x36f,
	0x391, 0x3a1,
	0x3a3, 0x3a9,
	0x3b1, 0x3c1,
	0x3c3, 0x3c9,
	0x401, 0x401,
	0x410, 0x44f,
	0x451, 0x451,
	0x2010, 0x2010,
	0x2013, 0x2016,
	0x2018, 0x2019,
	0x201c, 0x201d,
	0x2020, 0x2022,
	0x2024, 0x2027,
	0x2030, 0x2030,
	0x2032, 0x2033,
	0x2035, 0x2035,
	0x203b, 0x203b,
	0x203e, 0x203e,
	0x2074, 0x2074,
	0x207f, 0x207f,
	0x2081, 0x2084,
	0x20ac, 0x20ac,
	0x2103, 0x2103,
	0x2105, 0x2105,
	0x2109, 0x2109,
	0x2113, 0x2113,
	0x2116, 0x2116,
	0x2121, 0x2122,
	0x2126, 0x2126,
	0x212b, 0x212b,
	0x2153, 0x2154,
	0x215b, 0x215e,
	0x2160, 0x216b,
	0x2170, 0x2179,
	0x2189, 0x2189,
	0x2190, 0x2199,
	0x21b8, 0x21b9,
	0x21d2, 0x21d2,
	0x21d4, 0x21d4,
	0x21e7, 0x21e7,
	0x2200, 0x2200,
	0x2202, 0x2203,
	0x2207, 0x2208,
	0x220b, 0x220b,
	0x220f, 0x220f,
	0x2211, 0x2211,
	0x2215, 0x2215,
	0x221a, 0x221a,
	0x221d, 0x2220,
	0x2223, 0x2223,
	0x2225, 0x2225,
	0x2227, 0x222c,
	0x222e, 0x222e,
	0x2234, 0x2237,
	0x223c, 0x223d,
	0x2248, 0x2248,
	0x224c, 0x224c,
	0x2252, 0x2252,
	0x2260, 0x2261,
	0x2264, 0x2267,
	0x226a, 0x226b,
	0x226e, 0x226f,
	0x2282, 0x2283,
	0x2286, 0x2287,
	0x2295, 0x2295,
	0x2299, 0x2299,
	0x22a5, 0x22a5,
	0x22bf, 0x22bf,
	0x2312, 0x2312,
	0x2460, 0x24e9,
	0x24eb, 0x254b,
	0x2550, 0x2573,
	0x2580, 0x258f,
	0x2592, 0x2595,
	0x25a0, 0x25a1,
	0x25a3, 0x25a9,
	0x25b2, 0x25b3,
	0x25b6, 0x25b7,
	0x25bc, 0x25bd,
	0x25c0, 0x25c1,
	0x25c6, 0x25c8,
	0x25cb, 0x25cb,
	0x25ce, 0x25d1,
	0x25e2, 0x25e5,
	0x25ef, 0x25ef,
	0x2605, 0x2606,
	0x2609, 0x2609,
	0x260e, 0x260f,
	0x261c, 0x261c,
	0x261e, 0x261e,
	0x2640, 0x2640,
	0x2642, 0x2642,
	0x2660, 0x2661,
	0x2663, 0x2665,
	0x2667, 0x266a,
	0x266c, 0x266d,
	0x266f, 0x266f,
	0x269e, 0x269f,
	0x26bf, 0x26bf,
	0x26c6, 0x26cd,
	0x26cf, 0x26d3,
	0x26d5, 0x26e1,
	0x26e3, 0x26e3,
	0x26e8, 0x26e9,
	0x26eb, 0x26f1,
	0x26f4, 0x26f4,
	0x26f6, 0x26f9,
	0x26fb, 0x26fc,
	0x26fe, 0x26ff,
	0x273d, 0x273d,
	0x2776, 0x277f,
	0x2b56, 0x2b59,
	0x3248, 0x324f,
	0xe000, 0xf8ff,
	0xfe00, 0xfe0f,
	0xfffd, 0xfffd,
	0x1f100, 0x1f10a,
	0x1f110, 0x1f12d,
	0x1f130, 0x1f169,
	0x1f170, 0x1f18d,
	0x1f18f, 0x1f190,
	0x1f19b, 0x1f1ac,
	0xe0100, 0xe01ef,
	0xf0000, 0xffffd,
	0x100000, 0x10fffd,
}

var rwCombining = []int32{
	0x300, 0x36f,
	0x483, 0x489,
	0x7eb, 0x7f3,
	0xc00, 0xc00,
	0xc04, 0xc04,
	0xd00, 0xd01,
	0x135d, 0x135f,
	0x1a7f, 0x1a7f,
	0x1ab0, 0x1ac0,
	0x1b6b, 0x1b73,
	0x1dc0, 0x1df9,
	0x1dfb, 0x1dff,
	0x20d0, 0x20f0,
	0x2cef, 0x2cf1,
	0x2de0, 0x2dff,
	0x3099, 0x309a,
	0xa66f, 0xa672,
	0xa674, 0xa67d,
	0xa69e, 0xa69f,
	0xa6f0, 0xa6f1,
	0xa8e0, 0xa8f1,
	0xfe20, 0xfe2f,
	0x101fd, 0x101fd,
	0x10376, 0x1037a,
	0x10eab, 0x10eac,
	0x10f46, 0x10f50,
	0x11300, 0x11301,
	0x1133b, 0x1133c,
	0x11366, 0x1136c,
	0x11370, 0x11374,
	0x16af0, 0x16af4,
	0x1d165, 0x1d169,
	0x1d16d, 0x1d172,
	0x1d17b, 0x1d182,
	0x1d185, 0x1d18b,
	0x1d1aa, 0x1d1ad,
	0x1d242, 0x1d244,
	0x1e000, 0x1e006,
	0x1e008, 0x1e018,
	0x1e01b, 0x1e021,
	0x1e023, 0x1e024,
	0x1e026, 0x1e02a,
	0x1e8d0, 0x1e8d6,
}

var rwDoublewidth = []int32{
	0x1100, 0x115f,
	0x231a, 0x231b,
	0x2329, 0x232a,
	0x23e9, 0x23ec,
	0x23f0, 0x23f0,
	0x23f3, 0x23f3,
	0x25fd, 0x25fe,
	0x2614, 0x2615,
	0x2648, 0x2653,
	0x267f, 0x267f,
	0x2693, 0x2693,
	0x26a1, 0x26a1,
	0x26aa, 0x26ab,
	0x26bd, 0x26be,
	0x26c4, 0x26c5,
	0x26ce, 0x26ce,
	0x26d4, 0x26d4,
	0x26ea, 0x26ea,
	0x26f2, 0x26f3,
	0x26f5, 0x26f5,
	0x26fa, 0x26fa,
	0x26fd, 0x26fd,
	0x2705, 0x2705,
	0x270a, 0x270b,
	0x2728, 0x2728,
	0x274c, 0x274c,
	0x274e, 0x274e,
	0x2753, 0x2755,
	0x2757, 0x2757,
	0x2795, 0x2797,
	0x27b0, 0x27b0,
	0x27bf, 0x27bf,
	0x2b1b, 0x2b1c,
	0x2b50, 0x2b50,
	0x2b55, 0x2b55,
	0x2e80, 0x2e99,
	0x2e9b, 0x2ef3,
	0x2f00, 0x2fd5,
	0x2ff0, 0x2ffb,
	0x3000, 0x303e,
	0x3041, 0x3096,
	0x3099, 0x30ff,
	0x3105, 0x312f,
	0x3131, 0x318e,
	0x3190, 0x31e3,
	0x31f0, 0x321e,
	0x3220, 0x3247,
	0x3250, 0x4dbf,
	0x4e00, 0xa48c,
	0xa490, 0xa4c6,
	0xa960, 0xa97c,
	0xac00, 0xd7a3,
	0xf900, 0xfaff,
	0xfe10, 0xfe19,
	0xfe30, 0xfe52,
	0xfe54, 0xfe66,
	0xfe68, 0xfe6b,
	0xff01, 0xff60,
	0xffe0, 0xffe6,
	0x16fe0, 0x16fe4,
	0x16ff0, 0x16ff1,
	0x17000, 0x187f7,
	0x18800, 0x18cd5,
	0x18d00, 0x18d08,
	0x1b000, 0x1b11e,
	0x1b150, 0x1b152,
	0x1b164, 0x1b167,
	0x1b170, 0x1b2fb,
	0x1f004, 0x1f004,
	0x1f0cf, 0x1f0cf,
	0x1f18e, 0x1f18e,
	0x1f191, 0x1f19a,
	0x1f200, 0x1f202,
	0x1f210, 0x1f23b,
	0x1f240, 0x1f248,
	0x1f250, 0x1f251,
	0x1f260, 0x1f265,
	0x1f300, 0x1f320,
	0x1f32d, 0x1f335,
	0x1f337, 0x1f37c,
	0x1f37e, 0x1f393,
	0x1f3a0, 0x1f3ca,
	0x1f3cf, 0x1f3d3,
	0x1f3e0, 0x1f3f0,
	0x1f3f4, 0x1f3f4,
	0x1f3f8, 0x1f43e,
	0x1f440, 0x1f440,
	0x1f442, 0x1f4fc,
	0x1f4ff, 0x1f53d,
	0x1f54b, 0x1f54e,
	0x1f550, 0x1f567,
	0x1f57a, 0x1f57a,
	0x1f595, 0x1f596,
	0x1f5a4, 0x1f5a4,
	0x1f5fb, 0x1f64f,
	0x1f680, 0x1f6c5,
	0x1f6cc, 0x1f6cc,
	0x1f6d0, 0x1f6d2,
	0x1f6d5, 0x1f6d7,
	0x1f6eb, 0x1f6ec,
	0x1f6f4, 0x1f6fc,
	0x1f7e0, 0x1f7eb,
	0x1f90c, 0x1f93a,
	0x1f93c, 0x1f945,
	0x1f947, 0x1f978,
	0x1f97a, 0x1f9cb,
	0x1f9cd, 0x1f9ff,
	0x1fa70, 0x1fa74,
	0x1fa78, 0x1fa7a,
	0x1fa80, 0x1fa86,
	0x1fa90, 0x1faa8,
	0x1fab0, 0x1fab6,
	0x1fac0, 0x1fac2,
	0x1fad0, 0x1fad6,
	0x20000, 0x2fffd,
	0x30000, 0x3fffd,
}

var rwEmoji = []int32{
	0x203c, 0x203c,
	0x2049, 0x2049,
	0x2122, 0x2122,
	0x2139, 0x2139,
	0x2194, 0x2199,
	0x21a9, 0x21aa,
	0x231a, 0x231b,
	0x2328, 0x2328,
	0x2388, 0x2388,
	0x23cf, 0x23cf,
	0x23e9, 0x23f3,
	0x23f8, 0x23fa,
	0x24c2, 0x24c2,
	0x25aa, 0x25ab,
	0x25b6, 0x25b6,
	0x25c0, 0x25c0,
	0x25fb, 0x25fe,
	0x2600, 0x2605,
	0x2607, 0x2612,
	0x2614, 0x2685,
	0x2690, 0x2705,
	0x2708, 0x2712,
	0x2714, 0x2714,
	0x2716, 0x2716,
	0x271d, 0x271d,
	0x2721, 0x2721,
	0x2728, 0x2728,
	0x2733, 0x2734,
	0x2744, 0x2744,
	0x2747, 0x2747,
	0x274c, 0x274c,
	0x274e, 0x274e,
	0x2753, 0x2755,
	0x2757, 0x2757,
	0x2763, 0x2767,
	0x2795, 0x2797,
	0x27a1, 0x27a1,
	0x27b0, 0x27b0,
	0x27bf, 0x27bf,
	0x2934, 0x2935,
	0x2b05, 0x2b07,
	0x2b1b, 0x2b1c,
	0x2b50, 0x2b50,
	0x2b55, 0x2b55,
	0x3030, 0x3030,
	0x303d, 0x303d,
	0x3297, 0x3297,
	0x3299, 0x3299,
	0x1f000, 0x1f0ff,
	0x1f10d, 0x1f10f,
	0x1f12f, 0x1f12f,
	0x1f16c, 0x1f171,
	0x1f17e, 0x1f17f,
	0x1f18e, 0x1f18e,
	0x1f191, 0x1f19a,
	0x1f1ad, 0x1f1e5,
	0x1f201, 0x1f20f,
	0x1f21a, 0x1f21a,
	0x1f22f, 0x1f22f,
	0x1f232, 0x1f23a,
	0x1f23c, 0x1f23f,
	0x1f249, 0x1f3fa,
	0x1f400, 0x1f53d,
	0x1f546, 0x1f64f,
	0x1f680, 0x1f6ff,
	0x1f774, 0x1f77f,
	0x1f7d5, 0x1f7ff,
	0x1f80c, 0x1f80f,
	0x1f848, 0x1f84f,
	0x1f85a, 0x1f85f,
	0x1f888, 0x1f88f,
	0x1f8ae, 0x1f8ff,
	0x1f90c, 0x1f93a,
	0x1f93c, 0x1f945,
	0x1f947, 0x1faff,
	0x1fc00, 0x1fffd,
}

var rwNarrow = []int32{
	0x20, 0x7e,
	0xa2, 0xa3,
	0xa5, 0xa6,
	0xac, 0xac,
	0xaf, 0xaf,
	0x27e6, 0x27ed,
	0x2985, 0x2986,
}

var rwNonprint = []int32{
	0x0, 0x1f,
	0x7f, 0x9f,
	0xad, 0xad,
	0x70f, 0x70f,
	0x180b, 0x180e,
	0x200b, 0x200f,
	0x2028, 0x202e,
	0x206a, 0x206f,
	0xd800, 0xdfff,
	0xfeff, 0xfeff,
	0xfff9, 0xfffb,
	0xfffe, 0xffff,
}

var ucdEmoji = []int32{
	0x231a, 0x231b,
	0x23e9, 0x23ec,
	0x23f0, 0x23f0,
	0x23f3, 0x23f3,
	0x25fd, 0x25fe,
	0x2614, 0x2615,
	0x2648, 0x2653,
	0x267f, 0x267f,
	0x2693, 0x2693,
	0x26a1, 0x26a1,
	0x26aa, 0x26ab,
	0x26bd, 0x26be,
	0x26c4, 0x26c5,
	0x26ce, 0x26ce,
	0x26d4, 0x26d4,
	0x26ea, 0x26ea,
	0x26f2, 0x26f3,
	0x26f5, 0x26f5,
	0x26fa, 0x26fa,
	0x26fd, 0x26fd,
	0x2705, 0x2705,
	0x270a, 0x270b,
	0x2728, 0x2728,
	0x274c, 0x274c,
	0x274e, 0x274e,
	0x2753, 0x2755,
	0x2757, 0x2757,
	0x2795, 0x2797,
	0x27b0, 0x27b0,
	0x27bf, 0x27bf,
	0x2b1b, 0x2b1c,
	0x2b50, 0x2b50,
	0x2b55, 0x2b55,
	0x1f004, 0x1f004,
	0x1f0cf, 0x1f0cf,
	0x1f18e, 0x1f18e,
	0x1f191, 0x1f19a,
	0x1f1e6, 0x1f1ff,
	0x1f201, 0x1f201,
	0x1f21a, 0x1f21a,
	0x1f22f, 0x1f22f,
	0x1f232, 0x1f236,
	0x1f238, 0x1f23a,
	0x1f250, 0x1f251,
	0x1f300, 0x1f320,
	0x1f32d, 0x1f335,
	0x1f337, 0x1f37c,
	0x1f37e, 0x1f393,
	0x1f3a0, 0x1f3ca,
	0x1f3cf, 0x1f3d3,
	0x1f3e0, 0x1f3f0,
	0x1f3f4, 0x1f3f4,
	0x1f3f8, 0x1f43e,
	0x1f440, 0x1f440,
	0x1f442, 0x1f4fc,
	0x1f4ff, 0x1f53d,
	0x1f54b, 0x1f54e,
	0x1f550, 0x1f567,
	0x1f57a, 0x1f57a,
	0x1f595, 0x1f596,
	0x1f5a4, 0x1f5a4,
	0x1f5fb, 0x1f64f,
	0x1f680, 0x1f6c5,
	0x1f6cc, 0x1f6cc,
	0x1f6d0, 0x1f6d2,
	0x1f6d5, 0x1f6d7,
	0x1f6dd, 0x1f6df,
	0x1f6eb, 0x1f6ec,
	0x1f6f4, 0x1f6fc,
	0x1f7e0, 0x1f7eb,
	0x1f7f0, 0x1f7f0,
	0x1f90c, 0x1f93a,
	0x1f93c, 0x1f945,
	0x1f947, 0x1f9ff,
	0x1fa70, 0x1fa74,
	0x1fa78, 0x1fa7c,
	0x1fa80, 0x1fa86,
	0x1fa90, 0x1faac,
	0x1fab0, 0x1faba,
	0x1fac0, 0x1fac5,
	0x1fad0, 0x1fad9,
	0x1fae0, 0x1fae7,
	0x1faf0, 0x1faf6,
}

var ucdWide = []int32{
	0x1100, 0x115f,
	0x231a, 0x231b,
	0x2329, 0x232a,
	0x23e9, 0x23ec,
	0x23f0, 0x23f0,
	0x23f3, 0x23f3,
	0x25fd, 0x25fe,
	0x2614, 0x2615,
	0x2648, 0x2653,
	0x267f, 0x267f,
	0x2693, 0x2693,
	0x26a1, 0x26a1,
	0x26aa, 0x26ab,
	0x26bd, 0x26be,
	0x26c4, 0x26c5,
	0x26ce, 0x26ce,
	0x26d4, 0x26d4,
	0x26ea, 0x26ea,
	0x26f2, 0x26f3,
	0x26f5, 0x26f5,
	0x26fa, 0x26fa,
	0x26fd, 0x26fd,
	0x2705, 0x2705,
	0x270a, 0x270b,
	0x2728, 0x2728,
	0x274c, 0x274c,
	0x274e, 0x274e,
	0x2753, 0x2755,
	0x2757, 0x2757,
	0x2795, 0x2797,
	0x27b0, 0x27b0,
	0x27bf, 0x27bf,
	0x2b1b, 0x2b1c,
	0x2b50, 0x2b50,
	0x2b55, 0x2b55,
	0x2e80, 0x2e99,
	0x2e9b, 0x2ef3,
	0x2f00, 0x2fd5,
	0x2ff0, 0x2ffb,
	0x3000, 0x303e,
	0x3041, 0x3096,
	0x3099, 0x30ff,
	0x3105, 0x312f,
	0x3131, 0x318e,
	0x3190, 0x31e3,
	0x31f0, 0x321e,
	0x3220, 0x3247,
	0x3250, 0x4dbf,
	0x4e00, 0xa48c,
	0xa490, 0xa4c6,
	0xa960, 0xa97c,
	0xac00, 0xd7a3,
	0xf900, 0xfaff,
	0xfe10, 0xfe19,
	0xfe30, 0xfe52,
	0xfe54, 0xfe66,
	0xfe68, 0xfe6b,
	0xff01, 0xff60,
	0xffe0, 0xffe6,
	0x16fe0, 0x16fe4,
	0x16ff0, 0x16ff1,
	0x17000, 0x187f7,
	0x18800, 0x18cd5,
	0x18d00, 0x18d08,
	0x1aff0, 0x1aff3,
	0x1aff5, 0x1affb,
	0x1affd, 0x1affe,
	0x1b000, 0x1b122,
	0x1b150, 0x1b152,
	0x1b164, 0x1b167,
	0x1b170, 0x1b2fb,
	0x1f004, 0x1f004,
	0x1f0cf, 0x1f0cf,
	0x1f18e, 0x1f18e,
	0x1f191, 0x1f19a,
	0x1f200, 0x1f202,
	0x1f210, 0x1f23b,
	0x1f240, 0x1f248,
	0x1f250, 0x1f251,
	0x1f260, 0x1f265,
	0x1f300, 0x1f320,
	0x1f32d, 0x1f335,
	0x1f337, 0x1f37c,
	0x1f37e, 0x1f393,
	0x1f3a0, 0x1f3ca,
	0x1f3cf, 0x1f3d3,
	0x1f3e0, 0x1f3f0,
	0x1f3f4, 0x1f3f4,
	0x1f3f8, 0x1f43e,
	0x1f440, 0x1f440,
	0x1f442, 0x1f4fc,
	0x1f4ff, 0x1f53d,
	0x1f54b, 0x1f54e,
	0x1f550, 0x1f567,
	0x1f57a, 0x1f57a,
	0x1f595, 0x1f596,
	0x1f5a4, 0x1f5a4,
	0x1f5fb, 0x1f64f,
	0x1f680, 0x1f6c5,
	0x1f6cc, 0x1f6cc,
	0x1f6d0, 0x1f6d2,
	0x1f6d5, 0x1f6d7,
	0x1f6dd, 0x1f6df,
	0x1f6eb, 0x1f6ec,
	0x1f6f4, 0x1f6fc,
	0x1f7e0, 0x1f7eb,
	0x1f7f0, 0x1f7f0,
	0x1f90c, 0x1f93a,
	0x1f93c, 0x1f945,
	0x1f947, 0x1f9ff,
	0x1fa70, 0x1fa74,
	0x1fa78, 0x1fa7c,
	0x1fa80, 0x1fa86,
	0x1fa90, 0x1faac,
	0x1fab0, 0x1faba,
	0x1fac0, 0x1fac5,
	0x1fad0, 0x1fad9,
	0x1fae0, 0x1fae7,
	0x1faf0, 0x1faf6,
	0x20000, 0x2fffd,
	0x30000, 0x3fffd,
}
