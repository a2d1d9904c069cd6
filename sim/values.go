package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

// Column types, how InnoDB stores their values, and what SQL literals denote.

type Col struct {
	Name     string `json:"name"`
	Kind     string `json:"kind"` // int bit float double date year time datetime timestamp char varchar binary varbinary text blob
	Len      int    `json:"len"`  // bytes for int, bits for bit, characters or bytes for strings, size class for text/blob
	Unsigned bool   `json:"unsigned,omitempty"`
	Null     bool   `json:"null,omitempty"`
	CS       string `json:"cs,omitempty"` // latin1, utf8, utf8mb4
	ID       uint64 `json:"id"`
	Pre      int    `json:"pre,omitempty"`    // characters of the column that secondary indexes take, 0: all
	Coll     int    `json:"coll,omitempty"`   // number of the collation, 0: the default one of the character set
	Hidden   bool   `json:"hidden,omitempty"` // InnoDB made the column for itself, SQL does not know it
}

// Val is a stored value: exactly the bytes in the record (for COMPACT), or NULL.
type Val struct {
	Null bool
	B    []byte
	Ext  bool // the rest of the value is on pages of its own
}

func (c *Col) mbmax() int {
	if cs, ok := charsets[c.CS]; ok {
		return cs.max
	}
	return 1
}

// dict gives the data dictionary's MTYPE, PRTYPE and LEN.
func (c *Col) dict() (mtype, prtype, length uint32) {
	cs := uint32(0)
	my := uint32(0)
	flags := uint32(0)
	cs = 63
	if set, ok := charsets[c.CS]; ok {
		cs = uint32(set.colls[0])
	}
	if c.Coll != 0 {
		cs = uint32(c.Coll)
	}
	switch c.Kind {
	case "int":
		mtype = 6
		my = map[int]uint32{1: 1, 2: 2, 3: 9, 4: 3, 8: 8}[c.Len]
		length = uint32(c.Len)
		flags |= 1024
		if c.Hidden {
			my, cs = 3, 0
		}
	case "bit":
		mtype, my, length = 3, 16, uint32((c.Len+7)/8)
		flags |= 1024
	case "float":
		mtype, my, length = 9, 4, 4
		flags |= 1024
	case "double":
		mtype, my, length = 10, 5, 8
		flags |= 1024
	case "date":
		mtype, my, length = 6, 10, 3
		flags |= 1024
	case "year":
		mtype, my, length = 6, 13, 1
		flags |= 1024 | 512
	case "time":
		mtype, my, length = 3, 11, 3
		flags |= 1024
	case "datetime":
		mtype, my, length = 3, 12, 5
		flags |= 1024
	case "timestamp":
		mtype, my, length = 3, 7, 4
		flags |= 1024
	case "odatetime":
		// the last three as servers before 5.6.4 stored them: numbers
		mtype, my, length = 6, 12, 8
		flags |= 1024
	case "otime":
		mtype, my, length = 6, 11, 3
		flags |= 1024
	case "otimestamp":
		mtype, my, length = 6, 7, 4
		flags |= 1024 | 512
	case "char":
		my = 254
		if c.CS == "latin1" && c.Coll == 0 {
			mtype, length = 2, uint32(c.Len)
		} else {
			mtype, length = 13, uint32(c.Len*c.mbmax())
		}
	case "varchar":
		my = 15
		length = uint32(c.Len * c.mbmax())
		if c.CS == "latin1" && c.Coll == 0 {
			mtype = 1
		} else {
			mtype = 12
		}
		if length > 255 {
			flags |= 4096
		}
	case "binary":
		mtype, my, length = 3, 254, uint32(c.Len)
		flags |= 1024
	case "varbinary":
		mtype, my, length = 4, 15, uint32(c.Len)
		flags |= 1024
		if c.Len > 255 {
			flags |= 4096
		}
	case "text", "lob":
		mtype, my, length = 5, 252, uint32(8+c.Len)
	case "blob":
		mtype, my, length = 5, 252, uint32(8+c.Len)
		flags |= 1024
	case "enum", "set":
		mtype, my, length = 6, 254, uint32(c.Len)
		flags |= 512
		cs = 8
	case "decimal":
		mtype, my, length = 3, 246, uint32(c.Len)
		flags |= 1024
	case "json":
		mtype, my, length = 5, 245, 12
		flags |= 1024
	case "geometry":
		mtype, my, length = 5, 255, 12
		if c.Len > 0 {
			mtype = 14 // as MySQL 5.7 creates it
		}
		flags |= 1024
	case "ftime":
		mtype, my, length = 3, 11, uint32(3+(c.Len+1)/2)
		flags |= 1024
	case "fdatetime":
		mtype, my, length = 3, 12, uint32(5+(c.Len+1)/2)
		flags |= 1024
	case "ftimestamp":
		mtype, my, length = 3, 7, uint32(4+(c.Len+1)/2)
		flags |= 1024
	}
	if c.Unsigned && c.Kind != "lob" {
		flags |= 512
	}
	if !c.Null {
		flags |= 256
	}
	return mtype, my | flags | cs<<16, length
}

// fixed reports whether COMPACT records store the column without a length,
// and the stored length.
func (c *Col) fixed() (int, bool) {
	switch c.Kind {
	case "char":
		if c.CS == "latin1" {
			return c.Len, true
		}
		if cs := charsets[c.CS]; cs.min == cs.max && cs.max*c.Len <= 768 {
			return cs.max * c.Len, true
		}
		return 0, false
	case "varchar", "varbinary", "text", "blob", "lob", "json", "geometry":
		return 0, false
	}
	_, _, l := c.dict()
	return int(l), true
}

// fixedOld is the fixed length in REDUNDANT records (0 if variable).
func (c *Col) fixedOld() int {
	if c.Kind == "char" {
		return c.Len * c.mbmax()
	}
	n, _ := c.fixed()
	return n
}

// oneByteLen: the length takes always one byte.
func (c *Col) oneByteLen() bool {
	_, _, l := c.dict()
	return c.Kind != "text" && c.Kind != "blob" && c.Kind != "lob" && c.Kind != "json" && c.Kind != "geometry" && l <= 255
}

// opaque: a type the tool does not claim to print. Its columns take part in
// everything except the comparison of values.
func (c *Col) opaque() bool {
	switch c.Kind {
	case "lob", "decimal", "json":
		return true
	}
	return opaqueSet(c.CS)
}

var nasty = []string{"", " ", "NULL", "null", "'", "\"", "\\", "\\'", "a'b", "x\\", "'),('", "');drop", "a\nb", "\r\n", "\x00", "a\x00b", "\x1a", "\t", "%_", "\\n", "''", "0001-01-01T00:00:00Z", "<nil>", "0", "-1", "a b", " lead", "`", ";", "--", "/*", "nil", "unhex('41')", "\b\x7f", "' and `c`='", "N", "\\N", "b'1'", "0x41"}

var runes = []rune{'a', 'Z', '0', '\'', '\\', 0xe9, 0xdf, 0x4e2d, 0x6587, 0x20ac, 0xfffd, ' ', '"', 0x1F600}

// charEnc appends a character sequence of n characters in the column's charset.
func (c *Col) randStr(r *Rng, n int) []byte {
	var b []byte
	mode := r.N(4)
	for i := 0; i < n; i++ {
		switch {
		case opaqueSet(c.CS):
			b = mbChar(r, c.CS, b)
		case c.CS == "latin1":
			switch mode {
			case 0:
				b = append(b, byte('a'+r.N(26)))
			case 1:
				b = append(b, byte(r.N(256)))
			case 2:
				b = append(b, byte(0x20+r.N(95)))
			default:
				b = append(b, "ab'\\ \n0"[r.N(7)])
			}
		default:
			x := rune('a' + r.N(26))
			if mode > 0 {
				x = runes[r.N(len(runes))]
			}
			if mode == 2 {
				x = rune(r.N(128))
			}
			if c.CS == "utf8" && x > 0xffff {
				x = 0x20ac
			}
			b = append(b, string(x)...)
		}
	}
	return b
}

func sortableInt(u uint64, n int, unsigned bool) []byte {
	if !unsigned {
		u ^= 1 << (8*uint(n) - 1)
	}
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, u)
	return b[8-n:]
}

func edge(r *Rng, bits uint) uint64 {
	m := ^uint64(0) >> (64 - bits)
	switch r.N(9) {
	case 0:
		return 0
	case 1:
		return m
	case 2:
		return m >> 1
	case 3:
		return m>>1 + 1
	case 4:
		return uint64(r.N(256)) & m
	case 5:
		return (uint64(1) << uint(r.N(int(bits)))) & m
	case 6:
		return (^(uint64(1) << uint(r.N(int(bits))))) & m
	case 7:
		return (m - uint64(r.N(5))) & m
	}
	return r.U64() & m
}

// gen draws a value; the same rng state gives the same value.
func (c *Col) gen(r *Rng) Val {
	if c.Null && r.P(22) {
		return Val{Null: true}
	}
	switch c.Kind {
	case "int":
		if c.Hidden {
			return Val{B: un(uint64(1+r.N(70000)), 8).B}
		}
		return Val{B: sortableInt(edge(r, uint(8*c.Len)), c.Len, c.Unsigned)}
	case "bit":
		u := edge(r, uint(c.Len))
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, u)
		return Val{B: b[8-(c.Len+7)/8:]}
	case "float":
		b := make([]byte, 4)
		for {
			var f float32
			switch r.N(6) {
			case 0:
				f = 0
			case 1:
				f = float32(r.N(1000)) / 8
			case 2:
				f = -float32(r.N(1 << 24))
			case 3:
				f = []float32{math.MaxFloat32, -math.MaxFloat32, 1.17549435e-38, 16777216, 0.1, 1e20, 1e21, 123456.79}[r.N(8)]
			default:
				f = math.Float32frombits(uint32(r.U64()))
			}
			if f != f || math.IsInf(float64(f), 0) {
				continue
			}
			binary.LittleEndian.PutUint32(b, math.Float32bits(f))
			return Val{B: b}
		}
	case "double":
		b := make([]byte, 8)
		for {
			var f float64
			switch r.N(6) {
			case 0:
				f = 0
			case 1:
				f = float64(r.N(1000)) / 8
			case 2:
				f = -float64(r.U64() >> 10)
			case 3:
				f = []float64{math.MaxFloat64, -math.MaxFloat64, 2.2250738585072014e-308, 0.1, 1e21, 9007199254740993, 1e-7}[r.N(7)]
			default:
				f = math.Float64frombits(r.U64())
			}
			if f != f || math.IsInf(f, 0) {
				continue
			}
			binary.LittleEndian.PutUint64(b, math.Float64bits(f))
			return Val{B: b}
		}
	case "date":
		y, m, d := randDate(r)
		u := uint64(y*512 + m*32 + d)
		return Val{B: sortableInt(u, 3, false)}
	case "year":
		switch r.N(4) {
		case 0:
			return Val{B: []byte{0}}
		case 1:
			return Val{B: []byte{byte([]int{1, 255, 69, 70, 99, 100, 101}[r.N(7)])}}
		}
		return Val{B: []byte{byte(1 + r.N(255))}}
	case "time":
		h, m, s := r.N(839), r.N(60), r.N(60)
		switch r.N(5) {
		case 0:
			h, m, s = 0, 0, 0
		case 1:
			h, m, s = 838, 59, 59
		case 2:
			h = r.N(24)
		}
		p := h<<12 | m<<6 | s
		if r.P(30) {
			p = -p
		}
		u := uint32(0x800000 + p)
		return Val{B: []byte{byte(u >> 16), byte(u >> 8), byte(u)}}
	case "datetime":
		y, m, d := randDate(r)
		h, mi, s := r.N(24), r.N(60), r.N(60)
		if y == 0 && m == 0 && d == 0 {
			h, mi, s = 0, 0, 0
		}
		p := uint64(y*13+m)<<22 | uint64(d)<<17 | uint64(h)<<12 | uint64(mi)<<6 | uint64(s)
		p += 0x8000000000
		return Val{B: []byte{byte(p >> 32), byte(p >> 24), byte(p >> 16), byte(p >> 8), byte(p)}}
	case "timestamp":
		u := uint32(r.U64()) & 0x7fffffff
		switch r.N(6) {
		case 0:
			u = 0
		case 1:
			u = 1
		case 2:
			u = 0x7fffffff
		}
		return Val{B: []byte{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}}
	case "odatetime":
		y, m, d := randDate(r)
		h, mi, s := r.N(24), r.N(60), r.N(60)
		if y == 0 && m == 0 && d == 0 {
			h, mi, s = 0, 0, 0
		}
		return Val{B: sortableInt(uint64(((((y*100+m)*100+d)*100+h)*100+mi)*100+s), 8, false)}
	case "otime":
		t := (r.N(839)*100+r.N(60))*100 + r.N(60)
		switch r.N(4) {
		case 0:
			t %= 10000
		case 1:
			t = -t
		}
		return Val{B: sortableInt(uint64(t), 3, false)}
	case "otimestamp":
		u := uint32(r.U64()) & 0x7fffffff
		if r.P(25) {
			u = []uint32{0, 1, 0x7fffffff}[r.N(3)]
		}
		return Val{B: sortableInt(uint64(u), 4, true)}
	case "enum", "set":
		u := edge(r, uint(8*c.Len))
		if c.Kind == "enum" && r.P(80) {
			u = uint64(r.N(6))
		}
		return Val{B: un(u, c.Len).B}
	case "decimal":
		n, _ := c.fixed()
		b := r.Bytes(n)
		b[0] |= 0x80
		return Val{B: b}
	case "ftime", "fdatetime", "ftimestamp":
		return c.randFrac(r)
	case "json":
		return Val{B: append([]byte{0, 1, 0}, r.Bytes(r.N(60))...)}
	case "geometry":
		// SRID and WKB
		g := append(r.Bytes(4), 1)
		if r.P(60) {
			copy(g, []byte{0, 0, 0, 0})
		}
		n := 2 // coordinates
		switch k := 1 + r.N(3); k {
		case 1:
			g = append(g, 1, 0, 0, 0)
		case 2:
			n = 2 * r.R(2, 40)
			g = append(g, 2, 0, 0, 0, byte(n/2), 0, 0, 0)
		default:
			n = 2 * r.R(4, 10)
			g = append(g, 3, 0, 0, 0, 1, 0, 0, 0, byte(n/2), 0, 0, 0)
		}
		for ; n > 0; n-- {
			b := make([]byte, 8)
			binary.LittleEndian.PutUint64(b, math.Float64bits(float64(r.R(-1800, 1800))/10))
			g = append(g, b...)
		}
		return Val{B: g}
	case "lob":
		if r.P(45) {
			return Val{B: c.randStr(r, r.N(400)/c.mbmax())}
		}
		// a prefix in the row, and where the rest is
		b := make([]byte, 768)
		for i := range b {
			b[i] = byte('a' + r.N(26))
		}
		p := make([]byte, 20)
		put4(p, uint32(r.N(100)))
		put4(p[4:], uint32(r.N(1000)))
		put4(p[8:], 38)
		put4(p[16:], uint32(r.N(1<<20)))
		if c.Unsigned { // DYNAMIC
			b = nil
		}
		return Val{B: append(b, p...), Ext: true}
	case "char", "varchar", "text":
		max := c.Len
		if c.Kind == "text" {
			max = []int{0, 255, 7000, 7000, 7000}[c.Len] / c.mbmax()
		}
		max = sizeClass(r, max)
		var b []byte
		if r.P(35) && !opaqueSet(c.CS) {
			b = []byte(nasty[r.N(len(nasty))])
			if r.P(30) {
				b = append(b, nasty[r.N(len(nasty))]...)
			}
			if len(b) > max {
				b = b[:max]
			}
		} else {
			n := r.N(max + 1)
			if r.P(15) {
				n = max
			}
			b = c.randStr(r, n)
		}
		if c.Kind == "char" {
			// MySQL strips trailing spaces of CHAR values; storage pads them.
			if opaqueSet(c.CS) {
				return Val{B: mbPad(c.CS, b, c.Len)}
			}
			b = []byte(strings.TrimRight(string(b), " "))
			return Val{B: padSpace(b, c.Len)}
		}
		return Val{B: b}
	case "binary":
		b := r.Bytes(c.Len)
		if r.P(30) {
			s := nasty[r.N(len(nasty))]
			b = make([]byte, c.Len)
			copy(b, s)
		}
		return Val{B: b}
	case "varbinary", "blob":
		max := c.Len
		if c.Kind == "blob" {
			max = []int{0, 255, 7000, 7000, 7000}[c.Len]
		}
		max = sizeClass(r, max)
		if r.P(30) {
			s := nasty[r.N(len(nasty))]
			if len(s) > max {
				s = s[:max]
			}
			return Val{B: []byte(s)}
		}
		return Val{B: r.Bytes(r.N(max + 1))}
	}
	panic("kind " + c.Kind)
}

// sizeClass keeps most values short.
func sizeClass(r *Rng, max int) int {
	if max <= 300 {
		return max
	}
	n := []int{40, 40, 130, 130, 300, 300, 900, 900, 1500, 7000}[r.N(10)]
	if n > max {
		n = max
	}
	return n
}

func padSpace(b []byte, n int) []byte {
	for len(b) < n {
		b = append(b, ' ')
	}
	return b
}

func randDate(r *Rng) (int, int, int) {
	switch r.N(8) {
	case 0:
		return 0, 0, 0
	case 1:
		return 9999, 12, 31
	case 2:
		return r.N(100), 1 + r.N(12), 1 + r.N(28)
	case 3:
		return 1000 + r.N(1000), r.N(13), 0
	case 4:
		return 1990 + r.N(110), 1 + r.N(12), 1 + r.N(31)
	}
	return r.N(10000), 1 + r.N(12), 1 + r.N(28)
}

// fracBase is the kind of the value without its fraction of a second.
func (c *Col) fracBase() (*Col, int) {
	b := *c
	switch c.Kind {
	case "ftime":
		b.Kind = "time"
		return &b, 3
	case "fdatetime":
		b.Kind = "datetime"
		return &b, 5
	case "ftimestamp":
		b.Kind = "timestamp"
		return &b, 4
	}
	return nil, 0
}

// randFrac draws a value with a fraction of c.Len digits, stored in a byte for
// every two.
func (c *Col) randFrac(r *Rng) Val {
	base, _ := c.fracBase()
	v := base.gen(r)
	for len(v.B) == 0 || v.Null {
		v = base.gen(r)
	}
	n := (c.Len + 1) / 2
	max := 1
	for i := 0; i < c.Len; i++ {
		max *= 10
	}
	f := r.N(max)
	switch r.N(5) {
	case 0:
		f = 0
	case 1:
		f = max - 1
	case 2:
		f = 1
	}
	if c.Len%2 != 0 {
		f *= 10
	}
	if c.Kind == "ftimestamp" && be(v.B) == 0 || c.Kind == "fdatetime" && be(v.B) == 0x8000000000 {
		f = 0
	}
	if c.Kind == "ftime" && f != 0 && r.P(40) {
		// a negative time: the packed number as a whole is negative
		u := uint64(0x800000)<<uint(8*n) - (uint64(r.N(3))<<12|uint64(r.N(60))<<6|uint64(r.N(60)))<<uint(8*n) - uint64(f)
		var b []byte
		for i := n + 2; i >= 0; i-- {
			b = append(b, byte(u>>uint(8*i)))
		}
		return Val{B: b}
	}
	if c.Kind == "ftime" && be(v.B) < 0x800000 {
		f = 0
	}
	if c.Kind == "ftime" && be(v.B) == 0x800000+838<<12+59<<6+59 {
		f = 0
	}
	b := append([]byte{}, v.B...)
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(f>>uint(8*i)))
	}
	return Val{B: b}
}

// phys gives the bytes stored in a record of the given format.
func (c *Col) phys(v Val, redundant bool) []byte {
	if v.Null {
		return nil
	}
	if redundant {
		if n := c.fixedOld(); n > len(v.B) {
			return padSpace(append([]byte{}, v.B...), n)
		}
	}
	return v.B
}

// ---- canonical meaning -------------------------------------------------------

// canon is the meaning of a stored value.
func (c *Col) canon(v Val) string {
	if v.Null {
		return "NULL"
	}
	if c.opaque() {
		return "*"
	}
	b := v.B
	switch c.Kind {
	case "int", "enum", "set":
		u := uint64(0)
		for _, x := range b {
			u = u<<8 | uint64(x)
		}
		if c.Unsigned || c.Kind != "int" {
			return strconv.FormatUint(u, 10)
		}
		u ^= 1 << (8*uint(c.Len) - 1)
		sh := 64 - 8*uint(c.Len)
		return strconv.FormatInt(int64(u<<sh)>>sh, 10)
	case "bit":
		u := uint64(0)
		for _, x := range b {
			u = u<<8 | uint64(x)
		}
		return strconv.FormatUint(u, 10)
	case "float":
		f := math.Float32frombits(binary.LittleEndian.Uint32(b))
		if f == 0 {
			f = 0
		}
		return "f" + strconv.FormatFloat(float64(f)+0, 'g', -1, 32)
	case "double":
		f := math.Float64frombits(binary.LittleEndian.Uint64(b))
		if f == 0 {
			f = 0
		}
		return "f" + strconv.FormatFloat(f+0, 'g', -1, 64)
	case "date":
		u := (uint64(b[0])<<16 | uint64(b[1])<<8 | uint64(b[2])) ^ 0x800000
		return fmt.Sprintf("%04d-%02d-%02d", u/512, u/32%16, u%32)
	case "year":
		if b[0] == 0 {
			return "0"
		}
		return strconv.Itoa(1900 + int(b[0]))
	case "ftime":
		n := len(b) - 3
		p := int64(be(b)) - 0x800000<<uint(8*n)
		sign := ""
		if p < 0 {
			sign, p = "-", -p
		}
		f := p & (1<<uint(8*n) - 1)
		p >>= uint(8 * n)
		return fmt.Sprintf("%s%02d:%02d:%02d", sign, p>>12, p>>6&63, p&63) + fraction(fmt.Sprintf("%0*d", 2*n, f))
	case "fdatetime", "ftimestamp":
		base, n := c.fracBase()
		return base.canon(Val{B: b[:n]}) + fraction(fmt.Sprintf("%0*d", 2*(len(b)-n), be(b[n:])))
	case "time":
		p := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		p -= 0x800000
		s := ""
		if p < 0 {
			s, p = "-", -p
		}
		return fmt.Sprintf("%s%02d:%02d:%02d", s, p>>12, p>>6&63, p&63)
	case "datetime":
		p := uint64(0)
		for _, x := range b {
			p = p<<8 | uint64(x)
		}
		p -= 0x8000000000
		ym := p >> 22
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", ym/13, ym%13, p>>17&31, p>>12&31, p>>6&63, p&63)
	case "odatetime":
		u := be(b) ^ 1<<63
		return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", u/1e10, u/1e8%100, u/1e6%100, u/1e4%100, u/100%100, u%100)
	case "otime":
		p := int(be(b)) - 1<<23
		s := ""
		if p < 0 {
			s, p = "-", -p
		}
		return fmt.Sprintf("%s%02d:%02d:%02d", s, p/10000, p/100%100, p%100)
	case "timestamp", "otimestamp":
		u := binary.BigEndian.Uint32(b)
		if u == 0 {
			return "0000-00-00 00:00:00"
		}
		return time.Unix(int64(u), 0).UTC().Format("2006-01-02 15:04:05")
	case "char":
		return "s" + strings.TrimRight(string(b), " ")
	case "binary":
		return "s" + strings.TrimRight(string(b), "\x00")
	}
	return "s" + string(b)
}

// Lit is one SQL literal.
type Lit struct {
	Kind byte // N null, s string, n number, x bytes (hex), b bit
	S    string
}

func (l Lit) String() string {
	switch l.Kind {
	case 'N':
		return "NULL"
	case 's':
		return fmt.Sprintf("%q", l.S)
	case 'x':
		return "x'" + hex.EncodeToString([]byte(l.S)) + "'"
	case 'b':
		return "b'" + l.S + "'"
	}
	return l.S
}

func trimZero(s string) string {
	neg := ""
	if strings.HasPrefix(s, "-") || strings.HasPrefix(s, "+") {
		if s[0] == '-' {
			neg = "-"
		}
		s = s[1:]
	}
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	return neg + s
}

func isDigits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// fraction is the canonical form of the digits behind the point.
func fraction(digits string) string {
	if d := strings.TrimRight(digits, "0"); d != "" {
		return "." + d
	}
	return ""
}

// canonLit is the meaning of a literal assigned to the column; "?..." if the
// literal does not denote a value of that type exactly.
func (c *Col) canonLit(l Lit) string {
	if l.Kind == 'N' {
		return "NULL"
	}
	if c.opaque() {
		return "*"
	}
	bad := "?" + l.String()
	text := l.S
	switch l.Kind {
	case 'b':
		u, err := strconv.ParseUint("0"+l.S, 2, 64)
		if err != nil || strings.Trim(l.S, "01") != "" {
			return bad
		}
		if c.Kind == "bit" || c.Kind == "int" {
			return strconv.FormatUint(u, 10)
		}
		return bad
	}
	if base, _ := c.fracBase(); base != nil {
		f := ""
		if i := strings.IndexByte(text, '.'); i >= 0 {
			if f = text[i+1:]; !isDigits(f) || len(f) > 6 || strings.Trim(f[min(c.Len, len(f)):], "0") != "" {
				return bad
			}
			l.S = text[:i]
		}
		t := base.canonLit(l)
		if c.Kind == "ftime" && strings.HasPrefix(text, "-") && t == "00:00:00" && fraction(f) != "" {
			t = "-" + t
		}
		if t[0] == '?' {
			return bad
		}
		return t + fraction(f)
	}
	switch c.Kind {
	case "int", "enum", "set":
		if l.Kind == 'x' {
			return bad
		}
		t := trimZero(text)
		if !isDigits(strings.TrimPrefix(t, "-")) {
			return bad
		}
		return t
	case "bit":
		if l.Kind == 'n' {
			if !isDigits(text) {
				return bad
			}
			return trimZero(text)
		}
		u := uint64(0)
		t := strings.TrimLeft(text, "\x00")
		if len(t) > 8 {
			return bad
		}
		for i := 0; i < len(t); i++ {
			u = u<<8 | uint64(t[i])
		}
		return strconv.FormatUint(u, 10)
	case "float", "double":
		if l.Kind == 'x' {
			return bad
		}
		f, err := strconv.ParseFloat(strings.TrimSpace(text), 64)
		if err != nil || strings.ContainsAny(text, "xXpPnN_") {
			return bad
		}
		if c.Kind == "float" {
			g := float32(f)
			if g == 0 {
				g = 0
			}
			return "f" + strconv.FormatFloat(float64(g)+0, 'g', -1, 32)
		}
		if f == 0 {
			f = 0
		}
		return "f" + strconv.FormatFloat(f+0, 'g', -1, 64)
	case "date":
		y, rest, ok := litDate(text)
		if !ok || rest != "" {
			return bad
		}
		return y
	case "year":
		t := text
		if !isDigits(t) {
			return bad
		}
		n, _ := strconv.Atoi(t)
		switch {
		case len(t) == 4 || n >= 100 || l.Kind == 'n' && n == 0:
			return strconv.Itoa(n)
		case n < 70:
			return strconv.Itoa(2000 + n)
		default:
			return strconv.Itoa(1900 + n)
		}
	case "time", "otime":
		s := ""
		t := text
		if strings.HasPrefix(t, "-") {
			s, t = "-", t[1:]
		}
		if isDigits(t) && len(t) <= 7 {
			n, _ := strconv.Atoi(t)
			t = fmt.Sprintf("%02d:%02d:%02d", n/10000, n/100%100, n%100)
		}
		p := strings.Split(t, ":")
		if len(p) != 3 || !isDigits(p[0]) || !isDigits(p[1]) || !isDigits(p[2]) {
			return bad
		}
		h, _ := strconv.Atoi(p[0])
		m, _ := strconv.Atoi(p[1])
		e, _ := strconv.Atoi(p[2])
		if m > 59 || e > 59 {
			return bad
		}
		if h == 0 && m == 0 && e == 0 {
			s = ""
		}
		return fmt.Sprintf("%s%02d:%02d:%02d", s, h, m, e)
	case "datetime", "timestamp", "odatetime", "otimestamp":
		if t := text; len(t) == 14 && isDigits(t) {
			text = t[:4] + "-" + t[4:6] + "-" + t[6:8] + " " + t[8:10] + ":" + t[10:12] + ":" + t[12:]
		}
		y, rest, ok := litDate(text)
		if !ok {
			return bad
		}
		if rest == "" {
			return y + " 00:00:00"
		}
		if rest[0] != ' ' && rest[0] != 'T' {
			return bad
		}
		p := strings.Split(rest[1:], ":")
		if len(p) != 3 {
			return bad
		}
		out := y
		for i, q := range p {
			if !isDigits(q) || len(q) > 2 {
				return bad
			}
			n, _ := strconv.Atoi(q)
			if i == 0 {
				out += fmt.Sprintf(" %02d", n)
			} else {
				out += fmt.Sprintf(":%02d", n)
			}
		}
		return out
	case "char":
		if l.Kind == 'n' {
			return bad
		}
		return "s" + strings.TrimRight(text, " ")
	case "binary":
		if l.Kind == 'n' {
			return bad
		}
		return "s" + strings.TrimRight(text, "\x00")
	}
	if l.Kind == 'n' {
		return bad
	}
	return "s" + text
}

func litDate(s string) (string, string, bool) {
	i := 0
	var n [3]int
	for k := 0; k < 3; k++ {
		j := i
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j == i || j-i > 4 {
			return "", "", false
		}
		n[k], _ = strconv.Atoi(s[i:j])
		if k == 0 && j-i <= 2 {
			if n[0] < 70 {
				n[0] += 2000
			} else {
				n[0] += 1900
			}
			// "00-00-00" is the zero date in two-digit form
			if strings.HasPrefix(s[i:], "00-00-00") {
				n[0] = 0
			}
		}
		i = j
		if k < 2 {
			if i >= len(s) || s[i] != '-' {
				return "", "", false
			}
			i++
		}
	}
	if n[1] > 12 || n[2] > 31 {
		return "", "", false
	}
	return fmt.Sprintf("%04d-%02d-%02d", n[0], n[1], n[2]), s[i:], true
}

// randCol draws a column definition.
func randCol(r *Rng, name string, id uint64) Col {
	c := Col{Name: name, ID: id, Null: r.P(55)}
	switch k := r.N(28); {
	case k < 6:
		c.Kind, c.Len, c.Unsigned = "int", []int{1, 2, 3, 4, 8}[r.N(5)], r.P(45)
	case k < 7:
		c.Kind, c.Len = "bit", r.R(1, 64)
	case k < 8:
		c.Kind = "float"
	case k < 9:
		c.Kind = "double"
	case k < 10:
		c.Kind = "date"
	case k < 11:
		c.Kind = "year"
	case k < 12:
		c.Kind = "time"
	case k < 14:
		c.Kind = "datetime"
	case k < 15:
		c.Kind = "timestamp"
	case k < 16 && r.P(50):
		c.Kind = []string{"odatetime", "otime", "otimestamp"}[r.N(3)]
	case k < 17:
		c.Kind, c.CS = "char", []string{"latin1", "utf8", "utf8mb4"}[r.N(3)]
		c.Len = []int{1, 3, 10, 60, 1, 3, 10, 64, 255}[r.N(9)]
	case k < 20:
		c.Kind, c.CS = "varchar", []string{"latin1", "utf8", "utf8mb4"}[r.N(3)]
		c.Len = []int{1, 10, 60, 85, 86, 127, 128, 255, 256, 300, 1000, 5000}[r.N(12)]
	case k < 21:
		c.Kind, c.Len = "binary", []int{1, 4, 16, 40}[r.N(4)]
	case k < 22:
		c.Kind, c.Len = "varbinary", []int{1, 8, 127, 128, 255, 256, 600, 5000}[r.N(8)]
	case k < 23:
		c.Kind, c.Len, c.CS = "text", r.R(1, 4), []string{"latin1", "utf8", "utf8mb4"}[r.N(3)]
	case k < 24:
		c.Kind, c.Len = "blob", r.R(1, 4)
	case k < 25:
		c.Kind, c.Len = "enum", r.R(1, 2)
	case k < 26:
		c.Kind, c.Len = "set", []int{1, 2, 3, 4, 8}[r.N(5)]
	case k < 27 && r.P(50):
		c.Kind, c.Len = "geometry", r.N(2)
	default:
		switch r.N(7) {
		case 6:
			c.Kind, c.Len = []string{"ftime", "fdatetime", "ftimestamp"}[r.N(3)], r.R(1, 6)
		case 0:
			c.Kind, c.Len = "decimal", r.R(1, 30)
		case 1:
			c.Kind, c.Len = "json", 4
		case 2:
			c.Kind, c.Len, c.CS, c.Unsigned = "lob", 4, []string{"latin1", "utf8", "utf8mb4"}[r.N(3)], r.P(40)
		case 3:
			c.Kind, c.Len = "ftime", r.R(1, 6)
		case 4:
			c.Kind, c.Len = "fdatetime", r.R(1, 6)
		case 5:
			c.Kind, c.Len = "ftimestamp", r.R(1, 6)
		}
	}
	if c.Kind == "varbinary" && r.P(10) || c.Kind == "binary" && r.P(5) {
		c.Kind, c.CS, c.Len = "char", "gbk", []int{1, 3, 10, 255}[r.N(4)]
	}
	if c.CS != "" && c.Kind != "lob" && (r.P(6) || c.CS == "gbk" || c.Kind == "char" && r.P(22)) {
		c.CS = opaqueSets[r.N(len(opaqueSets))]
		if c.Kind == "char" && r.P(45) {
			// about the greatest length of a fixed length
			if r.P(65) {
				c.CS = "utf32"
			}
			c.Len = 768/c.mbmax() - 1 + r.N(3)
			c.Len = min(c.Len, 255)
		}
	}
	if c.CS != "" && c.Kind != "lob" && r.P(45) {
		// another collation, or another character set of as many bytes
		l := charsets[c.CS].colls[1:]
		c.Coll = l[r.N(len(l))]
	}
	if r.P(30) && (c.Kind == "varchar" || c.Kind == "text" || c.Kind == "blob" || c.Kind == "varbinary") && c.Len > 1 {
		c.Pre = r.R(1, 20)
		if c.Pre > c.Len && c.Kind[0] == 'v' {
			c.Pre = c.Len - 1
		}
	}
	return c
}

// smallCol draws a column that takes little room.
func smallCol(r *Rng, name string, id uint64) Col {
	for {
		c := randCol(r, name, id)
		c.Pre = 0
		switch c.Kind {
		case "char", "varchar", "binary", "varbinary", "bit":
			if c.Len*c.mbmax() > 12 {
				c.Len = 3
			}
			return c
		case "text", "blob", "lob", "json", "decimal", "geometry":
		default:
			return c
		}
	}
}

// indexable reports whether a secondary index may take the column.
func (c *Col) indexable() bool { return c.Pre > 0 || c.keyable() }

// prefix cuts a stored value to its first characters (0: all).
func (c *Col) prefix(b []byte, chars int) []byte {
	if chars == 0 {
		return b
	}
	if opaqueSet(c.CS) {
		i := 0
		for n := 0; i < len(b) && n < chars; n++ {
			i += mbLen(c.CS, b[i:])
		}
		return b[:i]
	}
	if c.CS == "utf8" || c.CS == "utf8mb4" {
		n := 0
		for i := range string(b) {
			if n == chars {
				return b[:i]
			}
			n++
		}
		return b
	}
	if len(b) > chars {
		return b[:chars]
	}
	return b
}

// keyable reports whether the column can be part of a key here.
func (c *Col) keyable() bool {
	switch c.Kind {
	case "int", "date", "datetime", "timestamp", "time", "year", "binary", "enum", "set", "odatetime", "otime", "otimestamp", "ftime", "fdatetime", "ftimestamp":
		return true
	case "char", "varchar":
		return c.Len*c.mbmax() <= 300
	case "varbinary":
		return c.Len <= 300
	}
	return false
}
