package main

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
	"sort"
)

// InnoDB index pages as the storage engine writes them: record heap, free
// list, page directory, splits, reorganisation, purge.

const pageSize = 16384

func put2(b []byte, v int)    { binary.BigEndian.PutUint16(b, uint16(v)) }
func put4(b []byte, v uint32) { binary.BigEndian.PutUint32(b, v) }
func put8(b []byte, v uint64) { binary.BigEndian.PutUint64(b, v) }

// FieldDef says how an index stores one field.
type FieldDef struct {
	Nullable bool
	Fixed    int // COMPACT fixed length, 0 if variable
	IsFixed  bool
	OneByte  bool
	FixedOld int // REDUNDANT fixed length (for NULL), 0 if variable
}

type RowVer struct {
	Table uint64
	Vals  []Val // in definition order
	RowID uint64
}

type Rec struct {
	start  int // first byte of the header
	origin int
	size   int
	heapNo int
	fields []Val
	marked bool
	minrec bool
	node   bool
	child  uint32
	row    *RowVer
	dict   interface{}
}

type Page struct {
	no      uint32
	level   int
	tree    *Tree
	recs    []*Rec // key order
	free    []*Rec // free[len-1] is the head of the list
	heapTop int
	nHeap   int
	garbage int
	lastIns int
	buf     []byte
	maxTrx  uint64
	dirty   bool
	lsn     uint64
	prev    uint32
	next    uint32
}

// Snap is a page as it was flushed, with what it must yield.
type Snap struct {
	img    []byte
	leaf   bool // clustered-index leaf
	index  uint64
	live   []*RowVer
	marked []*RowVer
	free   []*RowVer
	drecs  []dictRow // dictionary rows on the page
}

type dictRow struct {
	key    string
	d      interface{}
	marked bool
}

type Space struct {
	id      uint32
	pages   []interface{} // *Page or []byte (non-index pages)
	disk    []*Snap
	scatter *Rng // allocation in no particular order
	spare   []uint32
	skipDW  bool
	far     int      // page numbers jump to this once some pages are in use
	past    [][]byte // older versions of flushed pages
}

func (s *Space) alloc() uint32 {
	if n := len(s.spare); n > 0 {
		k := s.scatter.N(n)
		p := s.spare[k]
		s.spare = append(s.spare[:k:k], s.spare[k+1:]...)
		return p
	}
	if s.skipDW && s.scatter != nil && len(s.pages) >= 24 && len(s.pages) < 64 || s.skipDW && len(s.pages) == 64 {
		for len(s.pages) < 192 {
			s.pages = append(s.pages, nil)
			s.disk = append(s.disk, nil)
		}
	}
	if len(s.pages) >= 16+s.far%7 {
		for len(s.pages) < s.far {
			s.pages = append(s.pages, nil)
			s.disk = append(s.disk, nil)
		}
	}
	s.pages = append(s.pages, nil)
	s.disk = append(s.disk, nil)
	n := uint32(len(s.pages) - 1)
	if s.scatter != nil {
		for i := uint32(1); i < 6; i++ {
			s.pages = append(s.pages, nil)
			s.disk = append(s.disk, nil)
			s.spare = append(s.spare, n+i)
		}
		s.spare = append(s.spare, n)
		return s.alloc()
	}
	return n
}

type Tree struct {
	sp     *Space
	id     uint64
	defs   []FieldDef
	nKey   int
	sec    bool
	red    bool
	cap    int
	root   *Page
	leaves []*Page
	w      *World
	splits int
}

func (w *World) newTree(sp *Space, id uint64, defs []FieldDef, nKey int, sec, red bool, cap int) *Tree {
	t := &Tree{sp: sp, id: id, defs: defs, nKey: nKey, sec: sec, red: red, cap: cap, w: w}
	t.root = t.newPage(0)
	t.leaves = []*Page{t.root}
	return t
}

func (t *Tree) newPage(level int) *Page {
	no := t.sp.alloc()
	p := &Page{no: no, tree: t, buf: make([]byte, pageSize), prev: 0xffffffff, next: 0xffffffff}
	t.sp.pages[no] = p
	p.empty(level)
	return p
}

// empty is page_create: headers are reset, heap bytes stay.
func (p *Page) empty(level int) {
	p.level = level
	p.recs, p.free = nil, nil
	p.garbage, p.nHeap, p.lastIns = 0, 2, 0
	p.heapTop = 120
	if p.tree.red {
		p.heapTop = 125
	}
	p.maxTrx = 0
	p.touch()
}

func (p *Page) touch() {
	p.dirty = true
	p.lsn = p.tree.w.lsn
	if p.tree.sec && p.level == 0 && len(p.recs)+len(p.free) > 0 {
		p.maxTrx = p.tree.w.trx
	}
}

func keyOf(fs []Val, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		if fs[i].Null {
			b = append(b, 0)
			continue
		}
		b = append(b, 1)
		for _, c := range fs[i].B {
			if c == 0 {
				b = append(b, 0, 1)
			} else {
				b = append(b, c)
			}
		}
		b = append(b, 0, 0)
	}
	return b
}

// build lays out a record: header bytes (without next pointer and n_owned) and data.
func (t *Tree) build(r *Rec) (raw []byte, originAt int) {
	defs := t.defs
	if r.node {
		defs = append(append([]FieldDef{}, t.defs[:t.nKey]...), FieldDef{Fixed: 4, IsFixed: true, FixedOld: 4})
	}
	if t.red {
		var data []byte
		type end struct {
			off       int
			null, ext bool
		}
		var ends []end
		short := true
		for i, f := range r.fields {
			if f.Null {
				data = append(data, make([]byte, defs[i].FixedOld)...)
			} else {
				data = append(data, f.B...)
			}
			ends = append(ends, end{len(data), f.Null, f.Ext})
			short = short && !f.Ext
		}
		short = short && len(data) <= 0x7f
		n := len(ends)
		w := 2
		if short {
			w = 1
		}
		raw = make([]byte, 6+n*w)
		originAt = len(raw)
		for i, e := range ends {
			if short {
				v := e.off
				if e.null {
					v |= 0x80
				}
				raw[originAt-6-i-1] = byte(v)
			} else {
				v := e.off
				if e.null {
					v |= 0x8000
				}
				if e.ext {
					v |= 0x4000
				}
				put2(raw[originAt-6-2*i-2:], v)
			}
		}
		raw[originAt-3] = byte((n & 0x7f) << 1)
		raw[originAt-4] = byte(n >> 7)
		if short {
			raw[originAt-3] |= 1
		}
		return append(raw, data...), originAt
	}
	nNull := 0
	for _, d := range defs {
		if d.Nullable {
			nNull++
		}
	}
	var lens []byte // in reading order (towards lower addresses)
	nulls := make([]byte, (nNull+7)/8)
	var data []byte
	ni := 0
	for i, f := range r.fields {
		d := defs[i]
		if d.Nullable {
			if f.Null {
				nulls[ni/8] |= 1 << uint(ni%8)
			}
			ni++
			if f.Null {
				continue
			}
		}
		if !d.IsFixed {
			l := len(f.B)
			if f.Ext {
				lens = append(lens, byte(0xc0|l>>8), byte(l))
			} else if d.OneByte || l < 128 {
				lens = append(lens, byte(l))
			} else {
				lens = append(lens, byte(0x80|l>>8), byte(l))
			}
		}
		data = append(data, f.B...)
	}
	originAt = 5 + len(nulls) + len(lens)
	raw = make([]byte, originAt)
	for i, b := range nulls {
		raw[originAt-6-i] = b
	}
	for i, b := range lens {
		raw[originAt-6-len(nulls)-i] = b
	}
	return append(raw, data...), originAt
}

// header writes the parts of the header that the build does not know.
func (p *Page) header(r *Rec, next int, owned int) {
	info := owned & 15
	if r.marked {
		info |= 0x20
	}
	if r.minrec {
		info |= 0x10
	}
	o := r.origin
	if p.tree.red {
		p.buf[o-6] = byte(info)
		p.buf[o-5] = byte(r.heapNo >> 5)
		p.buf[o-4] = p.buf[o-4]&7 | byte(r.heapNo&0x1f)<<3
		put2(p.buf[o-2:], next)
		return
	}
	st := 0
	if r.node {
		st = 1
	}
	p.buf[o-5] = byte(info)
	put2(p.buf[o-4:], r.heapNo<<3|st)
	if next == 0 {
		put2(p.buf[o-2:], 0)
	} else {
		put2(p.buf[o-2:], next-o)
	}
}

func (p *Page) room(size int) bool {
	slots := (len(p.recs)+1)/4 + 3
	return p.heapTop+size <= pageSize-8-2*slots
}

// place puts the record into the heap (reusing the head of the free list if
// it is big enough) and links it at position at.
func (p *Page) place(r *Rec, at int) bool {
	raw, oa := p.tree.build(r)
	if n := len(p.free); n > 0 && p.free[n-1].size >= len(raw) {
		h := p.free[n-1]
		p.free = p.free[:n-1]
		p.garbage -= len(raw)
		r.start, r.heapNo = h.start, h.heapNo
		p.tree.w.stat("free_space_reused")
	} else {
		if !p.room(len(raw)) {
			return false
		}
		r.start, r.heapNo = p.heapTop, p.nHeap
		p.heapTop += len(raw)
		p.nHeap++
	}
	r.size = len(raw)
	r.origin = r.start + oa
	copy(p.buf[r.start:], raw)
	p.header(r, 0, 0)
	p.recs = append(p.recs, nil)
	copy(p.recs[at+1:], p.recs[at:])
	p.recs[at] = r
	p.lastIns = r.origin
	p.touch()
	return true
}

// unlink removes the record and puts it at the head of the free list.
func (p *Page) unlink(i int) {
	r := p.recs[i]
	if len(p.recs) == 1 && p.tree.w.knobEmpty && p.level == 0 {
		// the last user record: the page is created anew
		p.empty(0)
		p.tree.w.stat("page_emptied")
		return
	}
	p.recs = append(p.recs[:i:i], p.recs[i+1:]...)
	p.free = append(p.free, r)
	p.garbage += r.size
	p.lastIns = 0
	p.header(r, 0, p.tree.w.rng.N(9)*p.tree.w.rng.N(2))
	p.touch()
}

func (t *Tree) leafFor(key []byte) *Page {
	i := sort.Search(len(t.leaves), func(i int) bool {
		p := t.leaves[i]
		return len(p.recs) > 0 && bytes.Compare(keyOf(p.recs[0].fields, t.nKey), key) > 0
	})
	if i > 0 {
		i--
	}
	return t.leaves[i]
}

func (t *Tree) find(key []byte) (*Page, int, bool) {
	p := t.leafFor(key)
	i := sort.Search(len(p.recs), func(i int) bool {
		return bytes.Compare(keyOf(p.recs[i].fields, t.nKey), key) >= 0
	})
	return p, i, i < len(p.recs) && bytes.Equal(keyOf(p.recs[i].fields, t.nKey), key)
}

func (t *Tree) insert(r *Rec) bool {
	key := keyOf(r.fields, t.nKey)
	for try := 0; try < 30; try++ {
		p, i, dup := t.find(key)
		if dup {
			return false
		}
		if len(p.recs) < t.cap && p.place(r, i) {
			return true
		}
		if len(p.free) > 0 && len(p.recs) < t.cap && (t.w.rng.P(50) || len(p.recs) < 2) {
			p.reorganize()
			continue
		}
		if !t.split(p) {
			return false
		}
	}
	return false
}

// reorganize rebuilds the page from its records; the free list vanishes.
func (p *Page) reorganize() {
	p.tree.w.stat("page_reorganized")
	recs := p.recs
	lvl := p.level
	p.empty(lvl)
	for _, r := range recs {
		n := *r
		if !p.place(&n, len(p.recs)) {
			panic("reorganize")
		}
	}
}

func (t *Tree) split(p *Page) bool {
	if len(p.recs) < 2 {
		return false
	}
	if p == t.root && p.level == 0 {
		// raise the root: its records move down to a new page
		n := t.newPage(0)
		for _, r := range p.recs {
			c := *r
			n.place(&c, len(n.recs))
		}
		p.empty(1)
		t.addChild(n, 0)
		t.leaves = []*Page{n}
		t.w.stat("root_raised")
		return true
	}
	// the root must have room for one more node pointer
	if !t.root.room(1200) {
		t.root.reorganize()
		if !t.root.room(1200) {
			return false
		}
	}
	at := -1
	for i, l := range t.leaves {
		if l == p {
			at = i
		}
	}
	n := t.newPage(0)
	mid := len(p.recs) / 2
	if t.w.rng.P(25) {
		mid = 1 + t.w.rng.N(len(p.recs)-1)
	}
	t.splits++
	if t.w.rng.P(75) {
		// upper part to a new right page; the originals go en bloc to the free list
		moved := p.recs[mid:]
		for _, r := range moved {
			c := *r
			n.place(&c, len(n.recs))
		}
		p.recs = p.recs[:mid:mid]
		for i := len(moved) - 1; i >= 0; i-- {
			p.free = append(p.free, moved[i])
			p.garbage += moved[i].size
			p.header(moved[i], 0, t.w.rng.N(9)*t.w.rng.N(2))
		}
		n.prev, n.next = p.no, p.next
		p.next = n.no
		if at+1 < len(t.leaves) {
			t.leaves[at+1].prev = n.no
			t.leaves[at+1].touch()
		}
		t.leaves = append(t.leaves, nil)
		copy(t.leaves[at+2:], t.leaves[at+1:])
		t.leaves[at+1] = n
		t.addChild(n, at+1)
	} else {
		// lower part to a new left page; the originals are deleted one by one
		moved := p.recs[:mid]
		for _, r := range moved {
			c := *r
			n.place(&c, len(n.recs))
		}
		p.recs = append([]*Rec{}, p.recs[mid:]...)
		for _, r := range moved {
			p.free = append(p.free, r)
			p.garbage += r.size
			p.header(r, 0, t.w.rng.N(9)*t.w.rng.N(2))
		}
		n.prev, n.next = p.prev, p.no
		p.prev = n.no
		if at > 0 {
			t.leaves[at-1].next = n.no
			t.leaves[at-1].touch()
		}
		t.leaves = append(t.leaves, nil)
		copy(t.leaves[at+1:], t.leaves[at:])
		t.leaves[at] = n
		t.addChild(n, at)
		// the separator of p changed: its node pointer is replaced
		t.dropChild(at + 1)
		t.addChild(p, at+1)
	}
	p.touch()
	t.w.stat("page_split")
	return true
}

func (t *Tree) addChild(p *Page, at int) {
	r := &Rec{node: true, child: p.no, minrec: at == 0}
	for i := 0; i < t.nKey; i++ {
		r.fields = append(r.fields, p.recs[0].fields[i])
	}
	b := make([]byte, 4)
	put4(b, p.no)
	r.fields = append(r.fields, Val{B: b})
	if at < len(t.root.recs) {
		t.root.recs[at].minrec = false
	}
	if !t.root.place(r, at) {
		t.root.reorganize()
		if !t.root.place(r, at) {
			panic("root page full")
		}
	}
	for i, q := range t.root.recs {
		q.minrec = i == 0
	}
}

func (t *Tree) dropChild(at int) {
	p := t.root
	r := p.recs[at]
	p.recs = append(p.recs[:at:at], p.recs[at+1:]...)
	p.free = append(p.free, r)
	p.garbage += r.size
	p.header(r, 0, 0)
	p.touch()
}

// image is the page as it would be written to disk now.
func (p *Page) image() []byte {
	t := p.tree
	type slot struct{ off int }
	inf, sup := 99, 112
	if t.red {
		inf, sup = 101, 116
	}
	// page directory: groups of 4 to 8 records
	owned := make([]int, len(p.recs))
	var slots []int
	i := 0
	g := 4 + int(p.no)%5
	for len(p.recs)-i > g {
		i += g
		owned[i-1] = g
		slots = append(slots, p.recs[i-1].origin)
	}
	supOwned := len(p.recs) - i + 1
	for i, r := range p.recs {
		nx := sup
		if i+1 < len(p.recs) {
			nx = p.recs[i+1].origin
		}
		p.header(r, nx, owned[i])
	}
	for i, r := range p.free {
		nx := 0
		if i > 0 {
			nx = p.free[i-1].origin
		}
		o := r.origin
		// keep stale info bits, set the chain
		if t.red {
			put2(p.buf[o-2:], nx)
		} else if nx == 0 {
			put2(p.buf[o-2:], 0)
		} else {
			put2(p.buf[o-2:], nx-o)
		}
	}
	first := sup
	if len(p.recs) > 0 {
		first = p.recs[0].origin
	}
	b := p.buf
	if t.red {
		copy(b[94:], []byte{8, 1, 0, 0, 3})
		put2(b[99:], first)
		copy(b[101:], "infimum\x00")
		copy(b[109:], []byte{9, byte(supOwned), 0, 8, 3})
		put2(b[114:], 0)
		copy(b[116:], "supremum\x00")
	} else {
		copy(b[94:], []byte{1, 0, 2})
		put2(b[97:], first-inf)
		copy(b[99:], "infimum\x00")
		copy(b[107:], []byte{byte(supOwned), 0, 11})
		put2(b[110:], 0)
		copy(b[112:], "supremum")
	}
	for i := pageSize - 8 - 2*(len(slots)+2); i < pageSize-8; i++ {
		b[i] = 0
	}
	all := append(append([]int{inf}, slots...), sup)
	for i, s := range all {
		put2(b[pageSize-8-2*(i+1):], s)
	}
	filHeader(b, p.no, t.sp.id, 17855, p.lsn, p.prev, p.next)
	h := b[38:]
	put2(h[0:], len(all))
	put2(h[2:], p.heapTop)
	nh := p.nHeap
	if !t.red {
		nh |= 0x8000
	}
	put2(h[4:], nh)
	fr := 0
	if n := len(p.free); n > 0 {
		fr = p.free[n-1].origin
	}
	put2(h[6:], fr)
	put2(h[8:], p.garbage)
	put2(h[10:], p.lastIns)
	put2(h[12:], 5)
	put2(h[14:], 0)
	put2(h[16:], len(p.recs))
	mt := p.maxTrx
	put8(h[18:], mt)
	put2(h[26:], p.level)
	put8(h[28:], t.id)
	for i := 36; i < 56; i++ {
		h[i] = 0
	}
	if p == t.root {
		put4(h[36:], t.sp.id)
		put4(h[40:], 2)
		put2(h[44:], 50+192)
		put4(h[46:], t.sp.id)
		put4(h[50:], 2)
		put2(h[54:], 50)
	}
	filTrailer(b, p.lsn)
	return append([]byte{}, b...)
}

func filHeader(b []byte, no, space uint32, typ int, lsn uint64, prev, next uint32) {
	put4(b[4:], no)
	put4(b[8:], prev)
	put4(b[12:], next)
	put8(b[16:], lsn)
	put2(b[24:], typ)
	put8(b[26:], 0)
	put4(b[34:], space)
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

// crcPage and crcBlock compute the checksums of InnoDB (innodb_checksum_algorithm
// = crc32, innodb_log_checksums).
func crcPage(b []byte) uint32 {
	return crc32.Checksum(b[4:26], castagnoli) ^ crc32.Checksum(b[38:pageSize-8], castagnoli)
}

func crcBlock(b []byte) uint32 { return crc32.Checksum(b[:508], castagnoli) }

func filTrailer(b []byte, lsn uint64) {
	put4(b[pageSize-4:], uint32(lsn))
	reseal(b)
}

// reseal makes the checksums of a page right again.
func reseal(b []byte) {
	c := crcPage(b)
	put4(b, c)
	put4(b[pageSize-8:], c)
}

// flush writes the page to its place on disk.
func (p *Page) flush() {
	if sp := p.tree.sp; p.tree.w.spec.DW && sp.disk[p.no] != nil {
		if len(sp.past) < 80 {
			sp.past = append(sp.past, sp.disk[p.no].img)
		} else {
			sp.past[int(p.tree.w.lsn%80)] = sp.disk[p.no].img
		}
	}
	p.tree.sp.disk[p.no] = p.snap()
	p.dirty = false
}

func (p *Page) snap() *Snap {
	s := &Snap{img: p.image(), index: p.tree.id, leaf: p.level == 0 && !p.tree.sec}
	if s.leaf {
		for _, r := range p.recs {
			if r.dict != nil {
				s.drecs = append(s.drecs, dictRow{string(keyOf(r.fields, p.tree.nKey)), r.dict, r.marked})
			} else if r.marked {
				s.marked = append(s.marked, r.row)
			} else {
				s.live = append(s.live, r.row)
			}
		}
		{
			for _, r := range p.free {
				if r.row != nil {
					s.free = append(s.free, r.row)
				}
			}
		}
	}
	return s
}
