package main

import "fmt"

import "strings"

// The redo log: the record stream that mini-transactions write, and its
// framing into blocks and files by the log writer.

// Upd is one update undo record, and what it must be turned into.
type Upd struct {
	Table uint64
	Key   map[int]Val // column position -> stored value
	RowID uint64
	Set   map[int]Val // column position -> value before
	Ext   bool        // a changed value was not wholly in the row
	Start int         // byte range of the log record in the stream
	End   int
}

// undoRec is the log record of an undo record: type, body and the places of
// the counts and lengths in it.
type undoRec struct {
	rec  []byte
	nums []int
}

type LogStream struct {
	w      *World
	data   []byte
	starts []int // starts of record groups (mini-transactions)
	upds   []*Upd
	undos  []undoRec // every undo record, wherever it is in the stream
	recs   []int     // start of every record
	kinds  map[byte]int
	marks  []int // positions at which the log writer flushed
	quiet  bool
	fill   int // bytes of data per block; 0 means all
}

func newLogStream(w *World) *LogStream { return &LogStream{w: w, kinds: map[byte]int{}} }

func compressed(b []byte, v uint64) []byte {
	switch {
	case v < 0x80:
		return append(b, byte(v))
	case v < 0x4000:
		return append(b, byte(v>>8)|0x80, byte(v))
	case v < 0x200000:
		return append(b, byte(v>>16)|0xC0, byte(v>>8), byte(v))
	case v < 0x10000000:
		return append(b, byte(v>>24)|0xE0, byte(v>>16), byte(v>>8), byte(v))
	}
	return append(b, 0xF0, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func u64compressed(b []byte, v uint64) []byte {
	b = compressed(b, v>>32)
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func muchCompressed(b []byte, v uint64) []byte {
	if v>>32 != 0 {
		b = compressed(append(b, 0xFF), v>>32)
	}
	return compressed(b, v&0xffffffff)
}

func a2(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func a4(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

type logRec struct {
	typ  byte
	body []byte // everything after the type byte
	upd  *Upd
	nums []int // offsets in body of counts and lengths (compressed numbers)
}

func (l *LogStream) mtr(rs ...logRec) {
	if len(rs) == 0 {
		return
	}
	l.starts = append(l.starts, len(l.data))
	for _, r := range rs {
		t := r.typ
		if len(rs) == 1 && t != 56 && t != 32 {
			t |= 0x80
		}
		s := len(l.data)
		l.recs = append(l.recs, s)
		l.data = append(l.data, t)
		l.data = append(l.data, r.body...)
		l.kinds[r.typ]++
		if len(r.nums) > 0 {
			u := undoRec{rec: append([]byte{t | 0x80}, r.body...)}
			for _, n := range r.nums {
				u.nums = append(u.nums, n+1)
			}
			l.undos = append(l.undos, u)
		}
		if r.upd != nil {
			r.upd.Start, r.upd.End = s, len(l.data)
			l.upds = append(l.upds, r.upd)
		}
	}
	if len(rs) > 1 {
		// a group of several records ends with MLOG_MULTI_REC_END
		l.recs = append(l.recs, len(l.data))
		l.data = append(l.data, 31)
		l.kinds[31]++
	}
}

// rnum draws numbers over all compressed sizes.
func rnum(r *Rng) uint64 {
	switch r.N(8) {
	case 0:
		return uint64(r.N(0x80))
	case 1:
		return uint64(0x80 + r.N(0x4000-0x80))
	case 2:
		return uint64(0x4000 + r.N(0x200000-0x4000))
	case 3:
		return uint64(0x200000 + r.N(0x10000000-0x200000))
	case 4:
		return uint64(0x10000000 + r.N(0xf0000000-1))
	case 5:
		return []uint64{0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0xffffffff}[r.N(9)]
	}
	return uint64(r.N(300))
}

func rnum64(r *Rng) uint64 {
	if r.P(40) {
		return rnum(r)<<32 | rnum(r)
	}
	return rnum(r)
}

func (l *LogStream) pageID(r *Rng, space uint32) []byte {
	if r.P(50) {
		return compressed(compressed(nil, uint64(space)), uint64(r.N(200)))
	}
	return compressed(compressed(nil, uint64(space)), rnum(r))
}

func rndSpace(r *Rng, l *LogStream) uint32 {
	if len(l.w.order) > 0 && r.P(60) {
		return l.w.order[r.N(len(l.w.order))].space
	}
	if r.P(30) {
		return uint32(rnum(r))
	}
	return 0
}

func rndIndex(b []byte, r *Rng) []byte {
	n := r.R(1, 12)
	if r.P(3) {
		n = r.R(200, 1020) // a wide table
	}
	b = a2(b, n)
	b = a2(b, r.R(1, n))
	for i := 0; i < n; i++ {
		b = a2(b, []int{0x8004, 0x7fff, 6, 0x8006, 0x8000, r.N(65536)}[r.N(6)])
	}
	return b
}

func rndBytes(r *Rng) []byte {
	n := []int{0, 1, r.N(20), r.N(200), r.N(900)}[r.N(5)]
	if r.P(2) {
		n = r.R(900, 8000)
	}
	b := r.Bytes(n)
	if r.P(30) {
		for i := range b {
			b[i] = []byte{20, 31, 0x94, 0, 0xff, 12, 28}[r.N(7)]
		}
	}
	return b
}

func insertBody(b []byte, r *Rng) []byte {
	d := rndBytes(r)
	if r.P(50) {
		b = compressed(b, uint64(len(d))<<1|1)
		b = append(b, byte(r.N(256)))
		b = compressed(b, uint64(r.N(400)))
		b = compressed(b, uint64(r.N(400)))
	} else {
		b = compressed(b, uint64(len(d))<<1)
	}
	return append(b, d...)
}

// body makes a valid body for a record of the type.
func (l *LogStream) body(typ byte, r *Rng, space uint32) []byte {
	b := []byte{}
	if typ != 56 && typ != 31 && typ != 32 {
		b = l.pageID(r, space)
	}
	switch typ {
	case 1, 2, 4:
		b = compressed(a2(b, r.N(16384)), rnum(r))
	case 8:
		b = u64compressed(a2(b, r.N(16384)), rnum64(r))
	case 9, 38:
		if typ == 38 {
			b = rndIndex(b, r)
		}
		b = insertBody(a2(b, r.N(16384)), r)
	case 10, 39:
		if typ == 39 {
			b = rndIndex(b, r)
		}
		b = append(b, byte(r.N(256)), byte(r.N(2)))
		b = compressed(b, uint64(r.N(5)))
		b = append(b, r.Bytes(7)...)
		b = u64compressed(b, rnum64(r))
		b = a2(b, r.N(16384))
	case 11:
		b = a2(append(b, byte(r.N(2))), r.N(16384))
	case 40:
		b = a2(append(rndIndex(b, r), byte(r.N(2))), r.N(16384))
	case 13, 41:
		if typ == 41 {
			b = rndIndex(b, r)
		}
		b = append(b, byte(r.N(256)))
		b = compressed(b, uint64(r.N(5)))
		b = append(b, r.Bytes(7)...)
		b = u64compressed(b, rnum64(r))
		b = a2(b, r.N(16384))
		b = append(b, byte(r.N(64)))
		n, null := r.N(5), 25
		if r.P(2) {
			n, null = r.R(100, 400), 98
		}
		b = compressed(b, uint64(n))
		for i := 0; i < n; i++ {
			b = compressed(b, uint64(r.N(200)))
			if r.P(null) {
				b = compressed(b, 0xffffffff)
				continue
			}
			d := rndBytes(r)
			b = append(compressed(b, uint64(len(d))), d...)
		}
	case 14, 42, 15, 16, 43, 44:
		if typ >= 42 {
			b = rndIndex(b, r)
		}
		b = a2(b, r.N(16384))
	case 17, 45:
		if typ == 45 {
			b = rndIndex(b, r)
		}
		var d []byte
		for i := r.N(6); i > 0; i-- {
			d = insertBody(d, r)
		}
		b = append(a4(b, uint32(len(d))), d...)
	case 18, 19, 21, 23, 27, 29, 37, 57, 58, 59:
	case 46:
		b = rndIndex(b, r)
	case 53, 52:
		b = append(rndIndex(b, r), byte(r.N(10)))
	case 20:
		d := append([]byte{11}, rndBytes(r)...) // an insert undo record
		b = append(a2(b, len(d)), d...)
	case 22:
		b = compressed(b, uint64(r.N(3)))
	case 24, 25:
		b = u64compressed(b, rnum64(r))
	case 26, 36:
		b = a2(b, r.N(16384))
	case 30:
		d := rndBytes(r)
		if r.P(4) { // part of a long column
			d = r.Bytes(r.R(900, 16300))
		}
		b = append(a2(a2(b, r.N(16384)), len(d)), d...)
	case 33, 35, 47, 55:
		if typ == 47 {
			b = a4(b, uint32(r.N(64)))
		}
		nm := "./app/noise" + strings.Repeat("x", r.N(r.N([]int{40, 40, 40, 500}[r.N(4)])+1)) + string(rune('a'+r.N(26))) + ".ibd\x00"
		b = append(a2(b, len(nm)), nm...)
	case 34, 54:
		for i := 0; i < 2; i++ {
			nm := "./app/tbl" + strings.Repeat("y", r.N(r.N(40)+1)) + string(rune('a'+r.N(26))) + ".ibd\x00"
			b = append(a2(b, len(nm)), nm...)
		}
	case 48:
		b = append(a2(a2(b, r.N(16384)), r.N(16384)), r.Bytes(4)...)
	case 49:
		b = append(b, r.Bytes(24)...)
	case 50:
		d := r.Bytes(r.N([]int{30, 30, 256}[r.N(3)]))
		b = append(append(b, byte(r.N(200)), byte(len(d))), d...)
	case 51:
		n, m := r.N(400), r.N(60)
		switch r.N(8) {
		case 0:
			n = r.N(8000)
		case 1:
			m = r.N(2000)
		}
		b = a2(a2(b, n), m)
		b = append(b, r.Bytes(8+n+m)...)
	case 56, 60, 61:
		b = append(b, r.Bytes(8)...)
	}
	return b
}

var noiseTypes = []byte{1, 2, 4, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 29, 30, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61}

func (l *LogStream) rec(typ byte, r *Rng, space uint32) logRec {
	return logRec{typ: typ, body: l.body(typ, r, space)}
}

// noise is one mini-transaction of unrelated records.
func (l *LogStream) noise(r *Rng) {
	if l.quiet {
		return
	}
	n := 1
	if r.P(50) {
		n = r.R(2, 6)
	}
	var rs []logRec
	if r.P(6) {
		// the server updates its own table of file names
		b := []byte{byte(12 | r.N(2)<<4)}
		b = muchCompressed(b, rnum64(r))
		b = muchCompressed(b, 14)
		b = append(b, 0)
		b = u64compressed(b, l.w.trx)
		b = u64compressed(b, uint64(r.N(1<<30)))
		b = append(b, 4, 0, 0, 0, byte(r.N(256)), 1, 3)
		path := fmt.Sprintf("./app/t%d.ibd", r.N(100))
		b = append(b, byte(len(path)))
		b = append(b, path...)
		if b[0] < 16 {
			b = append(b, 0, 2)
		}
		rs = append(rs, logRec{typ: 20, body: append(a2(l.pageID(r, 0), len(b)), b...)})
	}
	for i := 0; i < n; i++ {
		rs = append(rs, l.rec(noiseTypes[r.N(len(noiseTypes))], r, rndSpace(r, l)))
	}
	l.mtr(rs...)
}

// row logs what a row change does to the clustered index.
func (l *LogStream) row(t *Table, what string) {
	if l.quiet {
		return
	}
	r := NewRng(l.w.rng.U64())
	var rs []logRec
	comp := !t.spec.Old
	pick := func(o, c byte) byte {
		if comp {
			return c
		}
		return o
	}
	switch what {
	case "insert":
		rs = append(rs, l.rec(pick(9, 38), r, t.space))
	case "update":
		rs = append(rs, l.rec(pick(13, 41), r, t.space))
	case "delete":
		rs = append(rs, l.rec(pick(10, 39), r, t.space))
		if r.P(40) {
			rs = append(rs, l.rec(pick(11, 40), r, t.space))
		}
	case "purge":
		rs = append(rs, l.rec(pick(14, 42), r, t.space))
	}
	if r.P(25) {
		rs = append(rs, l.rec(pick(19, 37), r, t.space), l.rec(pick(17, 45), r, t.space), l.rec(pick(15, 43), r, t.space), l.rec(2, r, t.space), l.rec(4, r, t.space))
	}
	if r.P(20) {
		rs = append(rs, l.rec([]byte{1, 2, 4, 8, 30, 48}[r.N(6)], r, t.space))
	}
	l.mtr(rs...)
}

// undo logs an undo record. typ is TRX_UNDO_*.
func (l *LogStream) undo(t *Table, typ int, rec *Rec, after *RowVer, changed []int) {
	if l.quiet {
		return
	}
	w := l.w
	r := NewRng(w.rng.U64())
	w.undoNo++
	no := w.undoNo
	if r.P(10) {
		no = rnum64(r)
	}
	cmpl := 0
	if r.P(50) {
		cmpl = 1 // no ordering column changes
	}
	if r.P(15) {
		cmpl |= 2
	}
	b := []byte{byte(typ | cmpl<<4)}
	var nums []int
	if typ == 11 {
		b[0] = 11
	}
	b = muchCompressed(b, no)
	b = muchCompressed(b, t.id)
	if typ != 11 {
		b = append(b, byte(r.N(2)*0x20))
		b = u64compressed(b, w.trx)
		b = u64compressed(b, uint64(r.N(1<<30))|uint64(r.N(2))<<55)
	}
	var u *Upd
	if typ == 12 {
		u = &Upd{Table: t.id, Key: map[int]Val{}, Set: map[int]Val{}}
	}
	for k := 0; k < t.nKey; k++ {
		f := rec.fields[k]
		nums = append(nums, len(b))
		b = compressed(b, uint64(len(f.B)))
		b = append(b, f.B...)
		if u != nil {
			if t.phys[k] == -3 {
				u.RowID = be(f.B)
			} else if t.phys[k] >= 0 {
				u.Key[t.phys[k]] = rec.row.Vals[t.phys[k]]
			}
		}
	}
	if typ == 12 || typ == 13 {
		// the update vector in order of clustered index position
		n := 0
		ext := false
		var v []byte
		var at []int
		for k, p := range t.phys {
			if p < 0 {
				continue
			}
			in := false
			for _, c := range changed {
				if c == p {
					in = true
				}
			}
			if !in || t.isKey(p) && t.preOf[p] == 0 {
				continue
			}
			n++
			at = append(at, len(v))
			v = compressed(v, uint64(k))
			at = append(at, len(v))
			f := rec.fields[k]
			if f.Null {
				v = compressed(v, 0xffffffff)
			} else {
				v = append(compressed(v, undoLen(f)), f.B...)
				ext = ext || f.Ext
			}
			if u != nil {
				u.Set[p] = rec.row.Vals[p]
				u.Ext = u.Ext || f.Ext
			}
		}
		nums = append(nums, len(b))
		b = compressed(b, uint64(n))
		for _, x := range at {
			nums = append(nums, len(b)+x)
		}
		b = append(b, v...)
		if ext {
			b[0] |= 128 // TRX_UNDO_UPD_EXTERN
		}
	}
	if typ == 14 || (typ == 12 || typ == 13) && cmpl&1 == 0 {
		// the ordering fields
		var v []byte
		for k, p := range t.phys {
			if p >= 0 && (t.isKey(p) || r.P(20)) {
				f := rec.fields[k]
				v = compressed(v, uint64(k))
				if f.Null {
					v = compressed(v, 0xffffffff)
				} else {
					v = append(compressed(v, undoLen(f)), f.B...)
				}
			}
		}
		b = a2(b, len(v)+2)
		b = append(b, v...)
	}
	body := a2(l.pageID(r, 0), len(b))
	for i := range nums {
		nums[i] += len(body)
	}
	body = append(body, b...)
	lr := logRec{typ: 20, body: body, upd: u, nums: nums}
	if r.P(20) {
		l.mtr(l.rec(22, r, 0), l.rec(2, r, 0), lr, l.rec(2, r, 0))
	} else if r.P(20) {
		l.mtr(lr, l.rec(2, r, 0))
	} else {
		l.mtr(lr)
	}
}

// undoLen is the length of a value as undo records hold it.
func undoLen(f Val) uint64 {
	n := uint64(len(f.B))
	if f.Ext {
		n += 0xffffffff - 16384 // UNIV_EXTERN_STORAGE_FIELD
	}
	return n
}

// lie gives the undo record with one of its numbers replaced by a huge one.
func (u undoRec) lie(r *Rng) []byte {
	at := u.nums[r.N(len(u.nums))]
	big := []uint64{0xffffffff, 0xfffffffe, 0x7fffffff, 0x80000000, 0x10000000, 0x1000000, 0x100000, 40000, 1100, 256}[r.N(10)]
	old := 1
	switch c := u.rec[at]; {
	case c >= 0xf0:
		old = 5
	case c >= 0xe0:
		old = 4
	case c >= 0xc0:
		old = 3
	case c >= 0x80:
		old = 2
	}
	b := compressed(append([]byte{}, u.rec[:at]...), big)
	grown := len(b) - at - old
	b = append(b, u.rec[at+old:]...)
	// the length before the undo record goes with it
	p := 1
	for k := 0; k < 2; k++ {
		switch c := b[p]; {
		case c < 0x80:
			p++
		case c < 0xc0:
			p += 2
		case c < 0xe0:
			p += 3
		case c < 0xf0:
			p += 4
		default:
			p += 5
		}
	}
	put2(b[p:], int(b[p])<<8+int(b[p+1])+grown)
	return b
}

func (l *LogStream) flush(r *Rng) {
	l.marks = append(l.marks, len(l.data))
	l.w.stat("log_flushes")
}

// behind gives the stream as it is if the log starts with the last n bytes of
// a record group whose beginning is lost.
func (l *LogStream) behind(n int, r *Rng) *LogStream {
	c := *l
	lead := make([]byte, n)
	for i := range lead {
		lead[i] = byte(r.U64())
	}
	c.data = append(lead, l.data...)
	shift := func(a []int) (o []int) {
		for _, x := range a {
			o = append(o, x+n)
		}
		return
	}
	c.starts, c.recs, c.marks = shift(l.starts), shift(l.recs), shift(l.marks)
	c.upds = nil
	for _, u := range l.upds {
		v := *u
		v.Start, v.End = u.Start+n, u.End+n
		c.upds = append(c.upds, &v)
	}
	return &c
}

// ---- framing --------------------------------------------------------------------

type Framing struct {
	Seed    uint64 `json:"seed"`
	Files   int    `json:"files"`
	FirstNo uint32 `json:"firstno"`
	Spare   int    `json:"spare"`             // zero blocks at the end
	Partial bool   `json:"partial,omitempty"` // flushes leave gaps? (never: blocks are filled later)
	Creator string `json:"creator,omitempty"`
}

type logBlock struct {
	no    uint32
	data  []byte // up to 496 bytes
	from  int    // stream offset of data[0]
	first int    // offset in block of first record group, 0 if none
	raw   []byte
}

func blockNo(n uint32) uint32 { return (n-1)&0x3fffffff + 1 }

// blocks cuts the stream (from its offset base) into consecutive blocks.
func (l *LogStream) blocks(f *Framing, lead int) []*logBlock {
	r := NewRng(hashSeed(f.Seed, 5))
	var out []*logBlock
	no := f.FirstNo
	ck := uint32(r.N(1 << 20))
	gi := 0
	flush := map[int]bool{}
	for _, m := range l.marks {
		flush[m/496] = true
	}
	for p, e := 0, 0; p < len(l.data); p = e {
		e = p + 496
		if l.fill > 0 && r.P(60) {
			e = p + 1 + r.N(l.fill) // closed early
		}
		if e > len(l.data) {
			e = len(l.data)
		}
		b := &logBlock{no: blockNo(no), data: l.data[p:e], from: p}
		for gi < len(l.starts) && l.starts[gi] < p {
			gi++
		}
		if gi < len(l.starts) && l.starts[gi] < e {
			b.first = 12 + l.starts[gi] - p
		} else if e == len(l.data) && len(l.data[p:e]) < 496 && l.fill == 0 && r.P(70) {
			b.first = 12 + e - p // the next group will start there
		}
		raw := make([]byte, 512)
		hn := b.no
		if flush[len(out)] || r.P(15) {
			hn |= 0x80000000
		}
		put4(raw, hn)
		n := 12 + len(b.data)
		if len(b.data) == 496 {
			n = 512
		}
		put2(raw[4:], n)
		put2(raw[6:], b.first)
		put4(raw[8:], ck)
		if r.P(5) {
			ck++
		}
		copy(raw[12:], b.data)
		put4(raw[508:], crcBlock(raw))
		b.raw = raw
		out = append(out, b)
		no++
	}
	return out
}

func logHeader(r *Rng, creator string, lsn uint64) []byte {
	h := make([]byte, 2048)
	put4(h[0:], uint32(r.N(2)))
	put8(h[8:], lsn)
	copy(h[16:48], creator)
	put4(h[508:], crcBlock(h))
	for _, o := range []int{512, 1536} {
		put8(h[o:], uint64(r.N(1000)))
		put8(h[o+8:], lsn)
		put8(h[o+16:], uint64(r.N(1<<20)))
		put8(h[o+24:], 1<<21)
		put4(h[o+508:], crcBlock(h[o:]))
	}
	return h
}

// files lays blocks out over the log files, in order.
func frameFiles(f *Framing, blocks []*logBlock) [][]byte {
	r := NewRng(hashSeed(f.Seed, 6))
	n := f.Files
	if n < 1 {
		n = 1
	}
	per := (len(blocks) + f.Spare + n - 1) / n
	var out [][]byte
	k := 0
	creator := f.Creator
	if creator == "" {
		creator = "MySQL 5.7.19"
	}
	for i := 0; i < n; i++ {
		b := logHeader(r, creator, 8192+uint64(i)*uint64(per)*512)
		for j := 0; j < per; j++ {
			if k < len(blocks) {
				b = append(b, blocks[k].raw...)
			} else {
				b = append(b, make([]byte, 512)...)
			}
			k++
		}
		out = append(out, b)
	}
	return out
}
