package main

import "sort"

// Character sets as the server numbers their collations: how many bytes the
// characters take decides how CHAR columns and prefixes are stored. The values
// of character sets the tool does not convert are not compared (Col.opaque).

type charset struct {
	min, max int   // bytes of a character
	colls    []int // numbers of the collations, the default one first
}

func upTo(from, to int, first ...int) []int {
	for i := from; i <= to; i++ {
		first = append(first, i)
	}
	return first
}

var charsets = map[string]charset{
	"latin1": {1, 1, []int{8, 47, 48, 5, 15, 31, 49, 94, 11, 65, 9, 77, 51, 50, 14, 7, 74, 36, 41, 42, 57, 30, 16, 25, 3, 4, 6, 10, 18, 89, 26, 66, 32, 64, 92, 93, 22, 34, 39, 40, 68, 80, 81, 82,
		2, 20, 21, 23, 27, 29, 37, 38, 43, 44, 52, 53, 58, 59, 67, 69, 70, 71, 72, 73, 75, 78, 79}},
	"utf8":    {1, 3, upTo(192, 215, 33, 83, 76, 223)},
	"utf8mb4": {1, 4, upTo(224, 247, 45, 46, 255, 278, 305)},
	"big5":    {1, 2, []int{1, 84}},
	"ujis":    {1, 3, []int{12, 91}},
	"sjis":    {1, 2, []int{13, 88}},
	"euckr":   {1, 2, []int{19, 85}},
	"gb2312":  {1, 2, []int{24, 86}},
	"gbk":     {1, 2, []int{28, 87}},
	"cp932":   {1, 2, []int{95, 96}},
	"eucjpms": {1, 3, []int{97, 98}},
	"gb18030": {1, 4, []int{248, 249, 250}},
	"utf16":   {2, 4, upTo(101, 124, 54, 55)},
	"utf16le": {2, 4, []int{56, 62}},
	"ucs2":    {2, 2, upTo(128, 151, 35, 90, 159)},
	"utf32":   {4, 4, upTo(160, 183, 60, 61)},
}

// opaqueSets are the character sets the tool does not convert.
var opaqueSets = func() (l []string) {
	for k := range charsets {
		if k != "latin1" && k != "utf8" && k != "utf8mb4" {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}()

func opaqueSet(cs string) bool {
	return cs != "" && cs != "latin1" && cs != "utf8" && cs != "utf8mb4"
}

// mbChar appends one character of a character set the tool does not convert.
func mbChar(r *Rng, cs string, b []byte) []byte {
	// the second bytes of the Chinese and Japanese sets can be backslashes
	tail := func() byte { return "\x40\\\x80\xfe`|"[r.N(6)] }
	kanji := func() byte { return byte(0xa1 + r.N(0x5e)) }
	switch cs {
	case "utf32", "ucs2", "utf16", "utf16le":
		x := runes[r.N(len(runes))]
		if cs == "utf32" {
			return append(b, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
		}
		u := []uint16{uint16(x)}
		if x > 0xffff {
			u = []uint16{0x20ac}
			if cs != "ucs2" {
				u = []uint16{0xd83d, 0xde00}
			}
		}
		for _, c := range u {
			if cs == "utf16le" {
				c = c<<8 | c>>8
			}
			b = append(b, byte(c>>8), byte(c))
		}
		return b
	}
	if r.P(50) {
		return append(b, byte('a'+r.N(26)))
	}
	switch cs {
	case "ujis", "eucjpms":
		switch r.N(3) {
		case 0:
			return append(b, 0x8e, byte(0xa1+r.N(0x3f)))
		case 1:
			return append(b, 0x8f, kanji(), kanji())
		}
		return append(b, kanji(), kanji())
	case "euckr", "gb2312":
		return append(b, kanji(), kanji())
	case "sjis", "cp932":
		if r.P(30) {
			return append(b, byte(0xa1+r.N(0x3f)))
		}
		return append(b, byte(0x81+r.N(0x1f)), tail())
	case "gb18030":
		if r.P(40) {
			return append(b, byte(0x81+r.N(4)), byte(0x30+r.N(10)), byte(0x81+r.N(0x7e)), byte(0x30+r.N(10)))
		}
	}
	return append(b, byte(0x81+r.N(0x7e)), tail())
}

// mbLen is the length of the first character.
func mbLen(cs string, b []byte) int {
	n := 1
	switch cs {
	case "utf32":
		n = 4
	case "ucs2":
		n = 2
	case "utf16", "utf16le":
		n = 2
		hi := b[0]
		if cs == "utf16le" {
			hi = b[min(1, len(b)-1)]
		}
		if hi >= 0xd8 && hi < 0xdc {
			n = 4
		}
	case "ujis", "eucjpms":
		if b[0] == 0x8f {
			n = 3
		} else if b[0] >= 0x80 {
			n = 2
		}
	case "sjis", "cp932":
		if b[0] >= 0x81 && b[0] < 0xa0 || b[0] >= 0xe0 {
			n = 2
		}
	case "gb18030":
		if b[0] >= 0x81 {
			n = 2
			if len(b) > 1 && b[1] >= '0' && b[1] <= '9' {
				n = 4
			}
		}
	default:
		if b[0] >= 0x81 {
			n = 2
		}
	}
	return min(n, len(b))
}

// mbPad fills a CHAR value with spaces up to n characters of the least size.
func mbPad(cs string, b []byte, n int) []byte {
	m := charsets[cs].min
	for len(b) < n*m {
		if cs == "utf16le" {
			b = append(b, ' ', 0)
			continue
		}
		b = append(b, 0, 0, 0, ' ')
		b = append(b[:len(b)-4], b[len(b)-m:]...)
	}
	return b
}
