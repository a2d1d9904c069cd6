package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The simulated storage engine: clients, purge, page cleaner, DDL and log
// writer take turns as the seeded schedule says; the capture is what is on
// disk at the end.

type TableSpec struct {
	Slot   int    `json:"slot"`
	DB     string `json:"db"`
	Name   string `json:"name"`
	Cols   []Col  `json:"cols"`
	PK     []int  `json:"pk,omitempty"`    // column ids of the clustered key
	PKPre  []int  `json:"pkpre,omitempty"` // characters of each key column that the key takes, 0: all
	PKName string `json:"pkname,omitempty"`
	Sec    []int  `json:"sec,omitempty"` // column ids with a secondary index
	Uniq   []int  `json:"uniq,omitempty"`
	Old    bool   `json:"redundant,omitempty"`
	Cap    int    `json:"cap"`
	Late   bool   `json:"late,omitempty"`  // created by an op, not initially
	Multi  bool   `json:"multi,omitempty"` // secondary indexes take two columns
	Sys    bool   `json:"sys,omitempty"`   // in the system tablespace
	Share  bool   `json:"share,omitempty"` // in a tablespace together with others
	IDAt   uint64 `json:"idat,omitempty"`  // table, index and space numbers jump to this
}

type Op struct {
	K string `json:"k"`
	T int    `json:"t"`
	S uint64 `json:"s"`
	A int    `json:"a,omitempty"`
}

type Spec struct {
	Seed      uint64      `json:"seed"`
	Tables    []TableSpec `json:"tables"`
	Noise     int         `json:"noise"`          // further tables that only live in the dictionary
	Tiny      bool        `json:"tiny,omitempty"` // these have one column each
	DictCap   int         `json:"dictcap"`
	DW        bool        `json:"dw,omitempty"`
	SysFar    bool        `json:"sysfar,omitempty"`   // tables in the system tablespace lie behind the doublewrite buffer
	Sum       int         `json:"sum,omitempty"`      // checksums: 0 crc32, 1 innodb, 2 none
	FlushLSN  int         `json:"flushlsn,omitempty"` // page 0 of the system tablespace: 0 none, 1 of the start, 2 of the end
	Far       int         `json:"far,omitempty"`      // page numbers of the system tablespace jump to this
	FarTab    int         `json:"fartab,omitempty"`   // and those of the tables
	Empty     bool        `json:"empty,omitempty"`    // emptying a page resets it
	Scatter   bool        `json:"scatter,omitempty"`
	V57       bool        `json:"v57,omitempty"`
	Junk      int         `json:"junk,omitempty"` // non-index pages with arbitrary content
	FlushAll  bool        `json:"flushall,omitempty"`
	FlushDict bool        `json:"flushdict,omitempty"`
	Wide      int         `json:"wide,omitempty"` // columns of a table that only lives in the dictionary
	WideKey   int         `json:"widekey,omitempty"`
	Ops       []Op        `json:"ops"`
}

type Table struct {
	spec    *TableSpec
	id      uint64
	space   uint32
	sp      *Space
	clust   *Tree
	secs    []*Tree
	secCols [][]int // positions in spec.Cols
	ftsID   uint64  // the full-text index
	rawName bool    // the name is as in the dictionary
	uniq    []bool
	phys    []int       // physical field -> column position, -1 trx, -2 roll, -3 row id, -10-p a prefix of p
	preOf   map[int]int // column position -> characters of it in the key
	nKey    int
	keyPos  []int // column positions of the key
	db, nm  string
	dropped bool
	live    int
	rowid   uint64
	ctr     uint64
	indexID []uint64
}

type undoable struct {
	t    *Table
	kind byte // i d u
	key  []byte
	old  *RowVer
	row  *RowVer
}

type World struct {
	spec      *Spec
	rng       *Rng
	lsn, trx  uint64
	undoNo    uint64
	knobEmpty bool
	stats     map[string]int
	sys       *Space
	shared    *Space   // a tablespace of several tables
	dt        [5]*Tree // tables, columns, indexes, fields, table ids
	tables    map[uint64]*Table
	slots     map[int]*Table
	order     []*Table
	nextTable uint64
	nextIndex uint64
	nextSpace uint32
	open      []undoable // not yet committed
	log       *LogStream
	simNs     int64
	junk      map[uint32]bool
}

func (w *World) stat(k string) { w.stats[k]++ }

func u4(v uint32) Val { b := make([]byte, 4); put4(b, v); return Val{B: b} }
func u8(v uint64) Val { b := make([]byte, 8); put8(b, v); return Val{B: b} }
func un(v uint64, n int) Val {
	b := make([]byte, 8)
	put8(b, v)
	return Val{B: b[8-n:]}
}
func fx(n int) FieldDef { return FieldDef{Fixed: n, IsFixed: true, FixedOld: n} }

var vr = FieldDef{}

func NewWorld(spec *Spec) *World {
	w := &World{spec: spec, rng: NewRng(hashSeed(spec.Seed, 1)), stats: map[string]int{}, tables: map[uint64]*Table{}, slots: map[int]*Table{}}
	w.knobEmpty = spec.Empty
	w.lsn = 8204 + uint64(w.rng.N(1<<30))
	w.trx = 1280 + uint64(w.rng.N(1<<20))
	if w.rng.P(20) {
		w.trx += 1 << 33
	}
	w.nextTable = uint64(20 + w.rng.N(200))
	w.nextIndex = uint64(20 + w.rng.N(300))
	w.nextSpace = uint32(2 + w.rng.N(100))
	w.log = newLogStream(w)
	w.sys = &Space{}
	w.junk = map[uint32]bool{}
	for i := 0; i < 8; i++ {
		w.sys.alloc()
	}
	for i, typ := range []int{8, 5, 3, 6, 17855, 7, 6, 6} {
		b := make([]byte, pageSize)
		if i != 7 {
			copy(b[38:], w.rng.Bytes(200))
		}
		if i == 4 { // insert buffer root
			for j := 38; j < pageSize; j++ {
				b[j] = 0
			}
			put2(b[38+4:], 2)
			put2(b[38+2:], 125)
			put8(b[38+28:], 0xffffffff00000000)
		}
		filHeader(b, uint32(i), 0, typ, w.lsn, 0xffffffff, 0xffffffff)
		if i == 0 && spec.FlushLSN > 0 {
			put8(b[26:], w.lsn)
		}
		filTrailer(b, w.lsn)
		w.sys.pages[i] = b
	}
	cap := spec.DictCap
	defs := [][]FieldDef{
		{vr, fx(6), fx(7), fx(8), fx(4), fx(4), fx(8), fx(4), vr, fx(4)},
		{vr, fx(8)}, // table ids, secondary
		{fx(8), fx(4), fx(6), fx(7), vr, fx(4), fx(4), fx(4), fx(4)},
		{fx(8), fx(8), fx(6), fx(7), vr, fx(4), fx(4), fx(4), fx(4)},
		{fx(8), fx(4), fx(6), fx(7), vr},
	}
	if spec.V57 {
		defs[3] = append(defs[3], fx(4))
	}
	ids := []uint64{1, 5, 2, 3, 4}
	keys := []int{1, 1, 2, 2, 2}
	var ts [5]*Tree
	for i := range defs {
		ts[i] = w.newTree(w.sys, ids[i], defs[i], keys[i], i == 1, true, cap)
	}
	w.dt = [5]*Tree{ts[0], ts[2], ts[3], ts[4], ts[1]}
	if ts[4].root.no != 12 {
		panic("dictionary roots")
	}
	if spec.Scatter {
		w.sys.scatter = NewRng(hashSeed(spec.Seed, 2))
	}
	w.sys.skipDW = spec.DW
	w.sys.far = spec.Far
	// InnoDB's own tables
	w.sysTable("SYS_FOREIGN", 11, []string{"ID", "FOR_NAME", "REF_NAME", "N_COLS"}, []sysIndex{{"ID_IND", 3, []string{"ID"}}, {"FOR_IND", 0, []string{"FOR_NAME"}}, {"REF_IND", 0, []string{"REF_NAME"}}})
	w.sysTable("SYS_FOREIGN_COLS", 12, []string{"ID", "POS", "FOR_COL_NAME", "REF_COL_NAME"}, []sysIndex{{"ID_IND", 3, []string{"ID", "POS"}}})
	w.sysTable("SYS_TABLESPACES", 13, []string{"SPACE", "NAME", "FLAGS"}, []sysIndex{{"SYS_TABLESPACES_SPACE", 3, []string{"SPACE"}}})
	w.sysTable("SYS_DATAFILES", 14, []string{"SPACE", "PATH"}, []sysIndex{{"SYS_DATAFILES_SPACE", 3, []string{"SPACE"}}})
	if spec.V57 {
		w.sysTable("SYS_VIRTUAL", 15, []string{"TABLE_ID", "POS", "BASE_POS"}, []sysIndex{{"BASE_IDX", 3, []string{"TABLE_ID", "POS", "BASE_POS"}}})
	}
	for i := 0; i < spec.Noise; i += 2 {
		w.noiseTable(i)
	}
	if spec.Wide > 0 {
		ns := &TableSpec{Slot: -1, DB: "app", Name: "wide", PKName: "PRIMARY"}
		for j := 0; j < spec.Wide; j++ {
			ns.Cols = append(ns.Cols, Col{Name: fmt.Sprintf("w%05d", j), Kind: "int", Len: 4, ID: uint64(j + 1)})
			if j == 0 || spec.WideKey == 1 && j < 16 || spec.WideKey == 2 && j >= spec.Wide/2 {
				ns.PK = append(ns.PK, j+1)
			}
		}
		w.dictInsert(w.makeTable(ns, false))
	}
	for i := range spec.Tables {
		if !spec.Tables[i].Late {
			w.create(&spec.Tables[i])
		}
	}
	for i := 1; i < spec.Noise; i += 2 {
		w.noiseTable(i)
	}
	w.flushAll()
	return w
}

// noiseTable enters a table that only lives in the dictionary. Some belong to
// the tables under test by their names: partitions, copies of an interrupted
// ALTER, full-text index tables, backups.
func (w *World) noiseTable(i int) {
	spec := w.spec
	r := NewRng(hashSeed(spec.Seed, 3, uint64(i)))
	ns := &TableSpec{Slot: -1, DB: []string{"app", "mysql", "zz", "a"}[r.N(4)], Name: fmt.Sprintf("noise%d", i), PKName: "PRIMARY"}
	cols := r.R(1, 6)
	if spec.Tiny {
		cols = 1
	}
	for j := 0; j < cols; j++ {
		ns.Cols = append(ns.Cols, randCol(r, fmt.Sprintf("n%d", j), uint64(j+1)))
	}
	ns.Cols[0].Kind, ns.Cols[0].Len, ns.Cols[0].Null, ns.Cols[0].CS, ns.Cols[0].Unsigned, ns.Cols[0].Coll = "int", 4, false, "", false, 0
	ns.PK = []int{1}
	if r.P(20) {
		ns.PK = nil
	}
	if r.P(45) && len(spec.Tables) > 0 {
		t := &spec.Tables[r.N(len(spec.Tables))]
		if spec.Noise > 60 && len(t.DB)+len(t.Name) > 50 {
			t = &TableSpec{DB: "app", Name: "t"} // one root page could not hold so many long names
		}
		ns.DB = t.DB
		ns.Name = fmt.Sprintf([]string{"%s#P#p%d", "%s#p#p%d#sp#s0", "%s_bak%d", "%s%d0", "#sql-ib%[2]d", "#sql2-%[1]s-%[2]d", "bak%[2]d_%[1]s", "FTS_%016[2]x_BEING_DELETED", "%s@002d%d", "%s@0020%d", "%s@002e%d"}[r.N(11)], fileName(t.Name), i+22)
		if other := caseVariant(r, t.Name); r.P(20) && other != "" {
			// a name that differs in letter case only
			ns.Name = fileName(other)
			for i := range spec.Tables {
				if spec.Tables[i].Name == other {
					ns.Name = fmt.Sprintf("noise%d", r.N(1<<30))
				}
			}
			w.stat("noise_case_variant")
		}
		w.stat("noise_related")
	}
	nt := w.makeTable(ns, false)
	nt.rawName = true
	w.dictInsert(nt)
}

// caseVariant gives the name with letters of the other case, "" if no other
// table must have it.
func caseVariant(r *Rng, name string) string {
	for _, v := range [][]string{{strings.ToUpper(name), strings.Title(name), strings.ToLower(name)}, {strings.Title(name), strings.ToUpper(name), strings.ToLower(name)}}[r.N(2)] {
		used := v == name
		for _, n := range tblNames {
			used = used || n == v
		}
		if !used {
			return v
		}
	}
	return ""
}

type sysIndex struct {
	name string
	typ  uint32
	cols []string
}

// sysTable enters one of the tables InnoDB creates for itself.
func (w *World) sysTable(name string, id uint64, cols []string, idx []sysIndex) {
	w.dt[0].insert(w.dictRec(0, []Val{{B: []byte(name)}, un(0, 6), un(0, 7), u8(id), u4(uint32(len(cols))), u4(1), u8(0), u4(0), {Null: true}, u4(0)}))
	for i, n := range cols {
		f := []Val{u8(id), u4(uint32(i)), un(0, 6), un(0, 7), {B: []byte(n)}, u4(1), u4(524292), u4(0), u4(0)}
		switch n {
		case "POS", "N_COLS", "SPACE", "FLAGS", "BASE_POS":
			f[5], f[6], f[7] = u4(6), u4(0), u4(4)
		case "TABLE_ID":
			f[5], f[6], f[7] = u4(6), u4(0), u4(8)
		}
		w.dt[1].insert(w.dictRec(1, f))
	}
	for i, x := range idx {
		xid := []uint64{11, 14, 15, 16, 17}[id-11] + uint64(i)
		f := []Val{u8(id), u8(xid), un(0, 6), un(0, 7), {B: []byte(x.name)}, u4(uint32(len(x.cols))), u4(x.typ), u4(0), u4(uint32(302 + i))}
		if w.spec.V57 {
			f = append(f, u4(50))
		}
		w.dt[2].insert(w.dictRec(2, f))
		for j, n := range x.cols {
			w.dt[3].insert(w.dictRec(3, []Val{u8(xid), u4(uint32(j)), un(0, 6), un(0, 7), {B: []byte(n)}}))
		}
	}
}

// dictKey identifies a dictionary row in snapshots.
type dictKey struct {
	tab   int
	name  string
	table uint64
	id    uint64
	pos   uint32
	sum   uint64
}

func (w *World) dictRec(tab int, f []Val) *Rec {
	k := dictKey{tab: tab}
	switch tab {
	case 0:
		k.name = string(f[0].B)
		k.table = be(f[3].B)
	case 1:
		k.table, k.pos = be(f[0].B), uint32(be(f[1].B))
	case 2:
		k.table, k.id = be(f[0].B), be(f[1].B)
	case 3:
		k.id, k.pos = be(f[0].B), uint32(be(f[1].B))
	}
	var h uint64
	for _, v := range f {
		h = mix(h ^ fnv(v.B))
	}
	k.sum = h
	return &Rec{fields: f, dict: k}
}

func be(b []byte) uint64 {
	u := uint64(0)
	for _, c := range b {
		u = u<<8 | uint64(c)
	}
	return u
}

func (t *Table) col(id int) int {
	for i := range t.spec.Cols {
		if t.spec.Cols[i].ID == uint64(id) {
			return i
		}
	}
	return -1
}

func (w *World) makeTable(ts *TableSpec, withFile bool) *Table {
	if ts.IDAt > w.nextTable {
		w.nextTable = ts.IDAt
	}
	if ts.IDAt > w.nextIndex {
		w.nextIndex = ts.IDAt
	}
	if s := uint32(ts.IDAt); uint64(s) == ts.IDAt && s > w.nextSpace && s < 0xfffffc00 {
		w.nextSpace = s
	}
	t := &Table{spec: ts, id: w.nextTable, space: w.nextSpace, db: ts.DB, nm: ts.Name}
	w.nextTable += uint64(1 + w.rng.N(3))
	w.nextSpace++
	t.rowid = 512 + uint64(w.rng.N(1000))
	t.preOf = map[int]int{}
	for i, id := range ts.PK {
		if p := t.col(id); p >= 0 {
			t.keyPos = append(t.keyPos, p)
			if i < len(ts.PKPre) && ts.PKPre[i] > 0 {
				t.preOf[p] = ts.PKPre[i]
			}
		}
	}
	inKey := map[int]bool{}
	for _, p := range t.keyPos {
		inKey[p] = true
	}
	if len(t.keyPos) == 0 {
		t.phys = []int{-3, -1, -2}
		t.nKey = 1
	} else {
		for _, p := range t.keyPos {
			if t.preOf[p] > 0 {
				p = -10 - p
			}
			t.phys = append(t.phys, p)
		}
		t.phys = append(t.phys, -1, -2)
		t.nKey = len(t.keyPos)
	}
	for i := range ts.Cols {
		if !inKey[i] || t.preOf[i] > 0 {
			t.phys = append(t.phys, i)
		}
	}
	nidx := 1
	for i, ids := range [][]int{ts.Sec, ts.Uniq} {
		for _, id := range ids {
			if p := t.col(id); p >= 0 && !inKey[p] && ts.Cols[p].indexable() {
				ps := []int{p}
				if q := (p + 1) % len(ts.Cols); ts.Multi && !strings.HasPrefix(ts.Cols[p].Name+ts.Cols[q].Name, "FTS_") && !ts.Cols[q].Hidden && q != p && !inKey[q] && ts.Cols[q].indexable() {
					ps = append(ps, q)
				}
				t.secCols = append(t.secCols, ps)
				t.uniq = append(t.uniq, i == 1)
				nidx++
			}
		}
	}
	if home := (map[bool]*Space{true: w.sys, false: w.shared})[ts.Sys]; withFile && (ts.Sys || ts.Share) && home != nil && w.rng.P(35) {
		// ids that differ from a neighbour's in their higher bytes only
		var low []uint64
		if ts.Sys {
			low = []uint64{1, 2, 3, 4}
		}
		for _, o := range w.tables {
			if o.sp == home {
				low = append(low, o.indexID[0])
			}
		}
		sort.Slice(low, func(i, j int) bool { return low[i] < low[j] })
		if len(low) > 0 {
			if id := low[w.rng.N(len(low))] + 1<<[]uint{8, 16, 24, 32, 40}[w.rng.N(5)]; id > w.nextIndex {
				w.nextIndex = id
				w.stat("index_ids_alike")
			}
		}
	}
	for i := 0; i < nidx; i++ {
		t.indexID = append(t.indexID, w.nextIndex)
		w.nextIndex += uint64(1 + w.rng.N(2))
	}
	if n := len(ts.Cols); n > 1 && ts.Cols[n-1].Name == "FTS_DOC_ID" {
		t.ftsID = w.nextIndex
		w.nextIndex++
	}
	if !withFile {
		return t
	}
	t.sp = &Space{id: t.space, far: w.spec.FarTab}
	if ts.Sys {
		for w.spec.SysFar && len(w.sys.pages) < 192 {
			w.sys.pages, w.sys.disk = append(w.sys.pages, nil), append(w.sys.disk, nil)
		}
		t.sp, t.space = w.sys, 0
	} else if ts.Share && w.shared != nil {
		t.sp, t.space = w.shared, w.shared.id
	} else if ts.Share {
		w.shared = t.sp
	}
	for i, typ := range []int{8, 5, 3} {
		if len(t.sp.pages) >= 3 {
			break
		}
		n := t.sp.alloc()
		b := make([]byte, pageSize)
		copy(b[38:], w.rng.Bytes(100))
		filHeader(b, n, t.space, typ, w.lsn, 0, 0)
		filTrailer(b, w.lsn)
		t.sp.pages[i] = b
	}
	var defs []FieldDef
	for _, p := range t.phys {
		defs = append(defs, t.def(p))
	}
	t.clust = w.newTree(t.sp, t.indexID[0], defs, t.nKey, false, ts.Old, ts.Cap)
	for i, ps := range t.secCols {
		var d []FieldDef
		for _, p := range ps {
			d = append(d, t.def(p))
		}
		if len(t.keyPos) == 0 {
			d = append(d, fx(6))
		}
		if len(t.keyPos) > 0 {
			for _, k := range t.phys[:t.nKey] {
				d = append(d, t.def(k))
			}
		}
		t.secs = append(t.secs, w.newTree(t.sp, t.indexID[i+1], d, len(d), true, ts.Old, ts.Cap))
	}
	if w.spec.Scatter && !ts.Sys && t.sp.scatter == nil {
		t.sp.scatter = NewRng(hashSeed(w.spec.Seed, 4, t.id))
	}
	return t
}

func (t *Table) def(p int) FieldDef {
	switch p {
	case -1, -3:
		return fx(6)
	case -2:
		return fx(7)
	}
	if p <= -10 {
		d := t.def(-10 - p)
		n := t.preOf[-10-p]
		n *= t.spec.Cols[-10-p].mbmax()
		if d.IsFixed && d.Fixed > n {
			d.Fixed = n
		}
		return d
	}
	c := &t.spec.Cols[p]
	n, f := c.fixed()
	return FieldDef{Nullable: c.Null, Fixed: n, IsFixed: f, OneByte: c.oneByteLen(), FixedOld: c.fixedOld()}
}

// plainName undoes fileName.
func plainName(s string) string {
	for i := 0; i+5 <= len(s); i++ {
		if s[i] == '@' {
			if u, err := strconv.ParseUint(s[i+1:i+5], 16, 16); err == nil {
				c := string(rune(u))
				s = s[:i] + c + s[i+5:]
				i += len(c) - 1
			}
		}
	}
	return s
}

func (w *World) create(ts *TableSpec) *Table {
	w.trx++
	t := w.makeTable(ts, true)
	w.tables[t.id] = t
	w.slots[ts.Slot] = t
	w.order = append(w.order, t)
	w.dictInsert(t)
	w.stat("tables_created")
	return t
}

func (t *Table) dictName() []byte {
	if t.rawName {
		return []byte(fileName(t.db) + "/" + t.nm)
	}
	return []byte(fileName(t.db) + "/" + fileName(t.nm))
}

// fileName is how the server writes a name for the file system, and so in
// InnoDB's dictionary: other characters than letters, digits and _ as @ and
// four hexadecimal digits. (Letters of some alphabets have a shorter form, they
// do not occur in names here.)
func fileName(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c < 128 && (c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z') {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, "@%04x", c)
		}
	}
	return b.String()
}

func (w *World) sysTablesRec(t *Table) *Rec {
	n := uint32(len(t.spec.Cols))
	if !t.spec.Old {
		n |= 0x80000000
	}
	typ := uint32(1)
	if !t.spec.Old {
		typ = []uint32{1, 33}[t.id%2]
	}
	if t.spec.Share {
		typ |= 128
	}
	return w.dictRec(0, []Val{{B: t.dictName()}, un(w.trx, 6), un(1<<55|uint64(w.rng.N(1<<20)), 7), u8(t.id), u4(n), u4(typ), u8(0), u4(80), {Null: true}, u4(t.space)})
}

// put inserts a dictionary row, reviving a delete-marked one with the same key.
func (w *World) dictPut(tab int, r *Rec) {
	tr := w.dt[tab]
	p, i, dup := tr.find(keyOf(r.fields, tr.nKey))
	if dup {
		if !p.recs[i].marked {
			return
		}
		old := p.recs[i]
		r.start, r.origin, r.size, r.heapNo = old.start, old.origin, old.size, old.heapNo
		raw, _ := tr.build(r)
		if len(raw) != r.size {
			panic("dictionary row changes size")
		}
		copy(p.buf[r.start:], raw)
		p.recs[i] = r
		p.touch()
		w.stat("dict_row_revived")
		return
	}
	if !tr.insert(r) {
		panic("dictionary insert failed")
	}
}

func (w *World) dictInsert(t *Table) {
	roll := un(1<<55|uint64(w.rng.N(1<<20)), 7)
	trx := un(w.trx, 6)
	w.dictPut(0, w.sysTablesRec(t))
	for i := range t.spec.Cols {
		c := &t.spec.Cols[i]
		m, p, l := c.dict()
		w.dictPut(1, w.dictRec(1, []Val{u8(t.id), u4(uint32(i)), trx, roll, {B: []byte(c.Name)}, u4(m), u4(p), u4(l), u4(0)}))
	}
	idx := func(n int, name string, cols []int, typ uint32, root uint32) {
		pre := false
		part := func(p int) int {
			if n == 0 {
				return t.preOf[p]
			}
			return t.spec.Cols[p].Pre
		}
		for _, p := range cols {
			pre = pre || part(p) > 0
		}
		f := []Val{u8(t.id), u8(t.indexID[n]), trx, roll, {B: []byte(name)}, u4(uint32(len(cols))), u4(typ), u4(t.space), u4(root)}
		if w.spec.V57 {
			f = append(f, u4(50))
		}
		w.dictPut(2, w.dictRec(2, f))
		for i, p := range cols {
			pos := uint32(i)
			if pre {
				pos = pos<<16 | uint32(part(p)*t.spec.Cols[p].mbmax())
			}
			w.dictPut(3, w.dictRec(3, []Val{u8(t.indexID[n]), u4(pos), trx, roll, {B: []byte(t.spec.Cols[p].Name)}}))
		}
	}
	root := func(n int) uint32 {
		if t.clust == nil {
			return uint32(3 + n)
		}
		if n == 0 {
			return t.clust.root.no
		}
		return t.secs[n-1].root.no
	}
	if len(t.keyPos) == 0 {
		idx(0, "GEN_CLUST_INDEX", nil, 1, root(0))
	} else {
		idx(0, t.spec.PKName, t.keyPos, 3, root(0))
	}
	for i, ps := range t.secCols {
		typ := uint32(0)
		if t.uniq[i] {
			typ = 2
		}
		name := "k_" + clip(t.spec.Cols[ps[0]].Name, 50)
		if len(t.secCols) > 6 {
			name += fmt.Sprintf("_%d", i)
		}
		if r := NewRng(hashSeed(w.spec.Seed, 14, t.id, uint64(i))); r.P(20) {
			// names like those InnoDB gives; one of an index still being built
			name = []string{" GEN_CLUST_INDEX", "GEN_CLUST_INDEX2", "PRIMARY2", " PRIMARY", "\xff" + name, "FTS_DOC_ID_INDEX2"}[r.N(6)]
			if i > 0 {
				name += fmt.Sprint(i)
			}
		}
		if t.spec.Cols[ps[0]].Name == "FTS_DOC_ID" {
			name = "FTS_DOC_ID_INDEX"
		}
		idx(i+1, name, ps, typ, root(i+1))
	}
	if t.ftsID > 0 {
		// the full-text index itself has no pages here
		f := []Val{u8(t.id), u8(t.ftsID), trx, roll, {B: []byte("ft_idx")}, u4(1), u4(32), u4(t.space), u4(0xffffffff)}
		if w.spec.V57 {
			f = append(f, u4(50))
		}
		w.dictPut(2, w.dictRec(2, f))
		w.dictPut(3, w.dictRec(3, []Val{u8(t.ftsID), u4(0), trx, roll, {B: []byte(t.spec.Cols[0].Name)}}))
	}
}

func (w *World) dictMark(tab int, match func(dictKey) bool) {
	for _, l := range w.dt[tab].leaves {
		for _, r := range l.recs {
			if match(r.dict.(dictKey)) && !r.marked {
				r.marked = true
				l.touch()
			}
		}
	}
}

func (w *World) drop(t *Table) {
	w.trx++
	ids := map[uint64]bool{t.ftsID: t.ftsID > 0}
	for _, i := range t.indexID {
		ids[i] = true
	}
	w.dictMark(3, func(k dictKey) bool { return ids[k.id] })
	w.dictMark(2, func(k dictKey) bool { return k.table == t.id })
	w.dictMark(1, func(k dictKey) bool { return k.table == t.id })
	w.dictMark(0, func(k dictKey) bool { return k.table == t.id })
	t.dropped = true
	delete(w.slots, t.spec.Slot)
	w.stat("tables_dropped")
}

func (w *World) taken(db, nm string) bool {
	for _, t := range w.order {
		if !t.dropped && t.db == db && t.nm == nm {
			return true
		}
	}
	return false
}

func (w *World) rename(t *Table, db, nm string) {
	if w.taken(db, nm) {
		return
	}
	w.trx++
	w.dictMark(0, func(k dictKey) bool { return k.table == t.id && k.name == string(t.dictName()) })
	t.db, t.nm = db, nm
	w.dictPut(0, w.sysTablesRec(t))
	w.stat("tables_renamed")
}

// purgeDict removes some delete-marked dictionary rows.
func (w *World) purgeDict(n int) {
	for ; n > 0; n-- {
		tr := w.dt[w.rng.N(4)]
		l := tr.leaves[w.rng.N(len(tr.leaves))]
		for i, r := range l.recs {
			if r.marked {
				if len(l.recs) > 1 {
					l.unlink(i)
					w.stat("dict_row_purged")
				}
				break
			}
		}
	}
}

// ---- rows ---------------------------------------------------------------------

func (t *Table) fieldsOf(row *RowVer, trx, roll uint64) []Val {
	var f []Val
	for _, p := range t.phys {
		switch p {
		case -1:
			f = append(f, un(trx, 6))
		case -2:
			f = append(f, un(roll, 7))
		case -3:
			f = append(f, un(row.RowID, 6))
		default:
			if p <= -10 {
				c := &t.spec.Cols[-10-p]
				f = append(f, Val{B: c.prefix(c.phys(row.Vals[-10-p], t.spec.Old), t.preOf[-10-p])})
				continue
			}
			v := row.Vals[p]
			if !v.Null {
				v = Val{B: t.spec.Cols[p].phys(v, t.spec.Old), Ext: v.Ext}
			}
			f = append(f, v)
		}
	}
	return f
}

func (t *Table) genRow(seed uint64) *RowVer {
	row := &RowVer{Table: t.id}
	total := 0
	for i := range t.spec.Cols {
		c := t.spec.Cols[i]
		row.Vals = append(row.Vals, c.gen(NewRng(hashSeed(seed, c.ID))))
	}
	if r := NewRng(hashSeed(seed, 1<<40)); len(row.Vals) > 60 && r.P(50) {
		// nearly nothing is known of it
		for i := range row.Vals {
			if t.spec.Cols[i].Null && !r.P(1) {
				row.Vals[i] = Val{Null: true}
			}
		}
	}
	size := func() int {
		total = 0
		for i := range row.Vals {
			total += len(t.spec.Cols[i].phys(row.Vals[i], t.spec.Old))
		}
		return total
	}
	for size() > 7500 {
		big := -1
		for i := range row.Vals {
			k := t.spec.Cols[i].Kind
			if (k == "varchar" || k == "varbinary" || k == "text" || k == "blob" || k == "lob" || k == "geometry") && (big < 0 || len(row.Vals[i].B) > len(row.Vals[big].B)) {
				big = i
			}
		}
		if big < 0 {
			break
		}
		row.Vals[big] = Val{B: []byte(strings.ToValidUTF8(string(row.Vals[big].B[:10]), "?"))}
	}
	return row
}

func (w *World) roll() uint64 {
	r := uint64(w.rng.N(1 << 30))
	if w.rng.P(50) {
		r |= 1 << 55
	}
	return r
}

func (w *World) locked(t *Table, key []byte) bool {
	for _, u := range w.open {
		if u.t == t && string(u.key) == string(key) {
			return true
		}
	}
	return false
}

func (t *Table) secFields(i int, f []Val, row *RowVer) []Val {
	var o []Val
	for _, p := range t.secCols[i] {
		v := row.Vals[p]
		if !v.Null {
			c := &t.spec.Cols[p]
			v = Val{B: c.prefix(c.phys(v, t.spec.Old), c.Pre)}
		}
		o = append(o, v)
	}
	return append(o, f[:t.nKey]...)
}

func (w *World) secInsert(t *Table, f []Val, row *RowVer) {
	for i, s := range t.secs {
		sf := t.secFields(i, f, row)
		p, j, dup := s.find(keyOf(sf, s.nKey))
		if dup {
			p.recs[j].marked = false
			p.touch()
			continue
		}
		s.insert(&Rec{fields: sf, row: row})
	}
}

func (w *World) secMark(t *Table, f []Val, row *RowVer, remove bool) {
	for i, s := range t.secs {
		sf := t.secFields(i, f, row)
		p, j, ok := s.find(keyOf(sf, s.nKey))
		if !ok {
			continue
		}
		if remove {
			if len(p.recs) > 1 || len(s.leaves) == 1 {
				p.unlink(j)
			}
		} else {
			p.recs[j].marked = true
			p.touch()
		}
	}
}

// most tells how many bytes of "a" the column can hold, 0 if its size is not
// free.
func (c *Col) most() int {
	if c.Hidden || opaqueSet(c.CS) || c.Pre > 0 {
		return 0
	}
	switch c.Kind {
	case "varchar", "varbinary":
		return c.Len
	case "text", "blob":
		return []int{255, 7000}[min(c.Len, 2)-1]
	}
	return 0
}

// fill inserts a row of such a size that its page is full to the last byte, or
// has room for just one more row like the smallest; that one is tried then,
// and sometimes leaves again at once.
func (w *World) fill(t *Table, seed uint64, r *Rng) {
	var cols []int
	indexed := map[int]bool{}
	for _, s := range t.secCols {
		for _, i := range s {
			indexed[i] = true
		}
	}
	for i := range t.spec.Cols {
		if t.spec.Cols[i].most() > 0 && !t.isKey(i) && !indexed[i] {
			cols = append(cols, i)
		}
	}
	if len(cols) == 0 {
		return
	}
	small := func(k uint64) *RowVer {
		row := t.genRow(hashSeed(seed, k))
		t.narrowKey(row, r)
		for i := range row.Vals {
			if c := &t.spec.Cols[i]; !t.isKey(i) {
				if c.Null {
					row.Vals[i] = Val{Null: true}
				} else if c.most() > 0 {
					row.Vals[i] = Val{}
				}
			}
		}
		return row
	}
	size := func(row *RowVer) (int, *Page) {
		f := t.fieldsOf(row, w.trx, 0)
		raw, _ := t.clust.build(&Rec{fields: f})
		p, _, dup := t.clust.find(keyOf(f, t.nKey))
		if dup || len(p.recs)+2 > t.clust.cap {
			p = nil
		}
		return len(raw), p
	}
	least, _ := size(small(0))
	leave := 0
	if r.P(70) {
		leave = least + r.N(3)
	}
	for k := 1; k < 12; k++ {
		row := small(uint64(k))
		_, p := size(row)
		if p == nil || p.level > 0 {
			return
		}
		// as many of the columns as it takes
		full := false
		for _, c := range cols {
			have, _ := size(row)
			slots := (len(p.recs)+1)/4 + 3
			if leave > 0 {
				slots = (len(p.recs)+2)/4 + 3
			}
			want := pageSize - 8 - 2*slots - p.heapTop - leave
			if want < have {
				return
			}
			n := min(want-have, min(t.spec.Cols[c].most(), 7000-have))
			for ; n > 0; n-- {
				row.Vals[c] = Val{B: []byte(strings.Repeat("a", n))}
				if got, _ := size(row); got <= want {
					full = got == want
					break
				}
			}
			if full {
				break
			}
		}
		if !w.insertRow(t, row, false) {
			return
		}
		if !full {
			continue
		}
		w.stat("page_filled_to_the_brim")
		if leave == 0 {
			return
		}
		row = small(100)
		if !w.insertRow(t, row, false) {
			return
		}
		f := t.fieldsOf(row, w.trx, 0)
		if p, j, ok := t.clust.find(keyOf(f, t.nKey)); ok && r.P(60) {
			w.deleteRow(t, p, j, false)
			if p, j, ok := t.clust.find(keyOf(f, t.nKey)); ok && r.P(60) && p.recs[j].marked {
				w.purgeRow(t, p, j)
			}
		}
		return
	}
}

func (w *World) insertRow(t *Table, row *RowVer, open bool) bool {
	w.trx++
	if len(t.keyPos) == 0 && row.RowID == 0 {
		t.rowid++
		row.RowID = t.rowid
	}
	roll := w.roll()
	f := t.fieldsOf(row, w.trx, roll)
	key := keyOf(f, t.nKey)
	if w.locked(t, key) {
		return false
	}
	p, i, dup := t.clust.find(key)
	if dup {
		old := p.recs[i]
		if !old.marked {
			return false
		}
		// the delete-marked record is taken over
		if len(p.recs) == 1 && len(t.clust.leaves) > 1 && !sameSizes(f, old.fields) {
			return false
		}
		w.log.undo(t, 13, old, row, t.changed(old.row, row))
		old2 := old.row
		if !w.rewrite(p, i, f, row) {
			p.unlink(i)
			if !t.clust.insert(&Rec{fields: f, row: row}) {
				return false
			}
		}
		w.stat("row_reinserted_over_mark")
		w.secInsert(t, f, row)
		w.log.row(t, "update")
		if open {
			w.open = append(w.open, undoable{t, 'd', key, old2, row})
		}
		return true
	}
	w.log.undo(t, 11, &Rec{fields: f, row: row}, nil, nil)
	if !t.clust.insert(&Rec{fields: f, row: row}) {
		return false
	}
	w.secInsert(t, f, row)
	w.log.row(t, "insert")
	w.stat("row_inserted")
	if open {
		w.open = append(w.open, undoable{t, 'i', key, nil, row})
	}
	return true
}

// rewrite updates a record in place if no field changes size.
func (w *World) rewrite(p *Page, i int, f []Val, row *RowVer) bool {
	r := p.recs[i]
	if !sameSizes(f, r.fields) {
		return false
	}
	n := &Rec{start: r.start, origin: r.origin, size: r.size, heapNo: r.heapNo, fields: f, row: row}
	raw, _ := p.tree.build(n)
	copy(p.buf[n.start:], raw)
	p.header(n, 0, 0)
	p.recs[i] = n
	p.touch()
	w.stat("row_updated_in_place")
	return true
}

func sameSizes(a, b []Val) bool {
	for k := range a {
		if a[k].Null != b[k].Null || a[k].Ext != b[k].Ext || len(a[k].B) != len(b[k].B) {
			return false
		}
	}
	return true
}

func (t *Table) changed(a, b *RowVer) []int {
	var c []int
	for i := range a.Vals {
		x, y := a.Vals[i], b.Vals[i]
		if x.Null != y.Null || x.Ext != y.Ext || string(x.B) != string(y.B) {
			c = append(c, i)
		}
	}
	return c
}

func (t *Table) isKey(p int) bool {
	for _, k := range t.keyPos {
		if k == p {
			return true
		}
	}
	return false
}

// vague: the table has no key that names a row by whole column values.
func (t *Table) vague() bool { return len(t.keyPos) == 0 || len(t.preOf) > 0 }

// keyChanged tells whether the change of a column is one of the key.
func (t *Table) keyChanged(p int, a, b *RowVer) bool {
	if !t.isKey(p) {
		return false
	}
	c, n := &t.spec.Cols[p], t.preOf[p]
	return n == 0 || string(c.prefix(c.phys(a.Vals[p], t.spec.Old), n)) != string(c.prefix(c.phys(b.Vals[p], t.spec.Old), n))
}

// pick chooses a record of the table.
func (t *Table) pick(r *Rng, marked bool) (*Page, int) {
	n := 0
	for _, l := range t.clust.leaves {
		for _, x := range l.recs {
			if x.marked == marked {
				n++
			}
		}
	}
	if n == 0 {
		return nil, 0
	}
	k := r.N(n)
	for _, l := range t.clust.leaves {
		for i, x := range l.recs {
			if x.marked == marked {
				if k == 0 {
					return l, i
				}
				k--
			}
		}
	}
	return nil, 0
}

func (w *World) deleteRow(t *Table, p *Page, i int, open bool) bool {
	r := p.recs[i]
	key := keyOf(r.fields, t.nKey)
	if w.locked(t, key) {
		return false
	}
	w.trx++
	w.log.undo(t, 14, r, nil, nil)
	n := *r
	n.marked = true
	n.fields = append([]Val{}, r.fields...)
	for k, ph := range t.phys {
		if ph == -1 {
			n.fields[k] = un(w.trx, 6)
		} else if ph == -2 {
			n.fields[k] = un(w.roll(), 7)
		}
	}
	raw, _ := p.tree.build(&n)
	copy(p.buf[n.start:], raw)
	p.header(&n, 0, 0)
	p.recs[i] = &n
	p.touch()
	w.secMark(t, r.fields, r.row, false)
	w.log.row(t, "delete")
	w.stat("row_delete_marked")
	if open {
		w.open = append(w.open, undoable{t, 'm', key, r.row, nil})
	}
	return true
}

func (w *World) purgeRow(t *Table, p *Page, i int) {
	r := p.recs[i]
	if w.locked(t, keyOf(r.fields, t.nKey)) {
		return
	}
	if len(p.recs) == 1 && len(t.clust.leaves) > 1 {
		return // the page would be freed
	}
	w.secMark(t, r.fields, r.row, true)
	p.unlink(i)
	w.log.row(t, "purge")
	w.stat("row_purged")
}

// updateRow changes a row; undo decides whether undo is written (rollbacks write none).
func (w *World) updateRow(t *Table, p *Page, i int, row *RowVer, open, undo bool) bool {
	r := p.recs[i]
	oldRow := r.row
	ch := t.changed(oldRow, row)
	key := keyOf(r.fields, t.nKey)
	if undo && (w.locked(t, key) || len(ch) == 0) {
		return false
	}
	w.trx++
	row.RowID = oldRow.RowID
	for _, c := range ch {
		if t.keyChanged(c, oldRow, row) {
			// key change: delete-mark the old record, insert the new one
			if !w.deleteRow(t, p, i, false) {
				return false
			}
			w.stat("row_key_changed")
			if !w.insertRow(t, row, false) {
				// duplicate key: the statement is rolled back
				if q, j, ok := t.clust.find(key); ok {
					q.recs[j].marked = false
					q.touch()
					w.secInsert(t, q.recs[j].fields, oldRow)
				}
			}
			return true
		}
	}
	f := t.fieldsOf(row, w.trx, w.roll())
	if len(p.recs) == 1 && len(t.clust.leaves) > 1 && !sameSizes(f, r.fields) {
		return false // the page would become empty on the way
	}
	if undo {
		w.log.undo(t, 12, r, row, ch)
	}
	w.secMark(t, r.fields, oldRow, false)
	if !w.rewrite(p, i, f, row) {
		p.unlink(i)
		if !t.clust.insert(&Rec{fields: f, row: row}) {
			w.stat("update_lost")
		}
		w.stat("row_updated_resize")
	}
	w.secInsert(t, f, row)
	w.log.row(t, "update")
	if open {
		w.open = append(w.open, undoable{t, 'u', key, oldRow, row})
	}
	return true
}

func (w *World) rollback(k int) {
	u := w.open[k]
	w.open = append(w.open[:k:k], w.open[k+1:]...)
	t := u.t
	if t.dropped {
		return
	}
	p, i, ok := t.clust.find(u.key)
	if !ok {
		return
	}
	r := p.recs[i]
	w.stat("rolled_back")
	switch u.kind {
	case 'i':
		if len(p.recs) == 1 && len(t.clust.leaves) > 1 {
			r.marked = true
			p.touch()
			return
		}
		w.secMark(t, r.fields, r.row, true)
		p.unlink(i)
		w.log.row(t, "purge")
	case 'm':
		n := *r
		n.marked = false
		p.recs[i] = &n
		p.touch()
		w.secInsert(t, r.fields, r.row)
		w.log.row(t, "delete")
	case 'd':
		n := *r
		n.marked = true
		p.recs[i] = &n
		p.touch()
		w.secMark(t, r.fields, r.row, false)
		w.log.row(t, "delete")
	case 'u':
		old := *u.old
		w.updateRow(t, p, i, &old, false, false)
	}
}

// ---- schedule -------------------------------------------------------------------

func (w *World) step(op Op) {
	w.rng = NewRng(hashSeed(op.S, 77))
	r := w.rng
	w.lsn += uint64(1 + r.N(3000))
	w.simNs += int64(1+r.N(2000)) * 1e6
	if r.P(4) {
		// transaction ids run up to a round number
		w.trx |= 1<<uint([]int{8, 12, 16, 24, 32}[r.N(5)]) - 1
		w.stat("trx_id_wrapped")
	}
	t := w.slots[op.T]
	if t == nil && strings.Contains("ins fil del upd pur flt rol", op.K) && op.K != "rol" {
		return
	}
	switch op.K {
	case "ins":
		giant := r.P(4)
		for i := 0; i <= op.A; i++ {
			row := t.genRow(hashSeed(op.S, uint64(i)))
			t.narrowKey(row, r)
			if giant {
				w.giant(t, row, r)
			}
			w.insertRow(t, row, r.P(15))
		}
	case "fil":
		w.fill(t, op.S, r)
	case "del":
		for i := 0; i <= op.A; i++ {
			if p, j := t.pick(r, false); p != nil {
				w.deleteRow(t, p, j, r.P(10))
			}
		}
	case "upd":
		most := 40
		if len(t.spec.Cols) <= 200 && NewRng(hashSeed(op.S, 9)).P(12) {
			most = 97
		}
		for i := 0; i <= op.A; i++ {
			p, j := t.pick(r, false)
			if p == nil {
				return
			}
			old := p.recs[j].row
			fresh := t.genRow(hashSeed(op.S, uint64(i)))
			row := &RowVer{Table: t.id, Vals: append([]Val{}, old.Vals...)}
			keyToo := r.P(10)
			for c := range row.Vals {
				if t.spec.Cols[c].Hidden {
					// a new document, if the text changed
					for q := range row.Vals {
						if q != c && !t.isKey(q) && (row.Vals[q].Null != old.Vals[q].Null || string(row.Vals[q].B) != string(old.Vals[q].B)) && NewRng(hashSeed(op.S, uint64(q), 7)).P(50) {
							row.Vals[c] = fresh.Vals[c]
						}
					}
					continue
				}
				if NewRng(hashSeed(op.S, t.spec.Cols[c].ID, 5)).P(most) && (keyToo || !t.isKey(c)) {
					row.Vals[c] = fresh.Vals[c]
				} else if n := t.preOf[c]; n > 0 && r.P(40) {
					// behind the prefix in the key
					b := t.spec.Cols[c].prefix(old.Vals[c].B, n)
					if len(b) > 0 && len(b) < len(old.Vals[c].B) {
						row.Vals[c] = Val{B: append(append([]byte{}, b...), "-x"[r.N(2)])}
						if k := t.spec.Cols[c].Kind; k == "char" || k == "binary" {
							row.Vals[c] = old.Vals[c]
						}
					}
				}
			}
			w.updateRow(t, p, j, row, r.P(15), true)
			if op.A > 20 && i%16 == 15 {
				w.open = nil // they all commit
			}
		}
	case "pur":
		for i := 0; i <= op.A; i++ {
			if p, j := t.pick(r, true); p != nil {
				w.purgeRow(t, p, j)
			}
		}
	case "com":
		if len(w.open) > 0 {
			k := r.N(len(w.open))
			w.open = append(w.open[:k:k], w.open[k+1:]...)
		}
		w.log.noise(r)
	case "rol":
		if len(w.open) > 0 {
			w.rollback(r.N(len(w.open)))
		}
	case "flt": // flush some pages of a table
		for i := 0; i <= op.A; i++ {
			w.flushOne(t.sp, r)
		}
	case "fls":
		for i := 0; i <= op.A; i++ {
			w.flushOne(w.sys, r)
		}
	case "all":
		w.flushAll()
	case "log":
		w.log.flush(r)
	case "noi":
		for i := 0; i <= op.A; i++ {
			w.log.noise(r)
		}
	case "cre":
		for i := range w.spec.Tables {
			ts := &w.spec.Tables[i]
			if ts.Slot == op.T && w.slots[op.T] == nil && !w.taken(ts.DB, ts.Name) {
				w.create(ts)
			}
		}
	case "dro":
		if t != nil {
			w.drop(t)
		}
	case "ren":
		if t != nil {
			w.rename(t, dbNames[r.N(len(dbNames))], tblNames[r.N(len(tblNames))])
		}
	case "pdi":
		w.purgeDict(op.A + 1)
	case "blo": // a page of another kind appears in the table's file
		if t != nil {
			w.junkPage(t.sp, r)
		} else {
			w.junkPage(w.sys, r)
		}
	}
}

// giant makes the row about as long as a row can be: two fill a page.
func (w *World) giant(t *Table, row *RowVer, r *Rng) {
	indexed := map[int]bool{}
	for _, cs := range t.secCols {
		for _, p := range cs {
			indexed[p] = true
		}
	}
	most := 8125
	if t.clust.red {
		most = 8122
	}
	for i, c := range t.spec.Cols {
		switch {
		case c.Kind == "text" && c.Len > 1 && !opaqueSet(c.CS), c.Kind == "blob" && c.Len > 1, c.Kind == "varbinary" && c.Len > 8200:
		default:
			continue
		}
		if t.isKey(i) || t.preOf[i] > 0 || indexed[i] {
			continue
		}
		was := row.Vals[i]
		long := func(n int) int {
			b := bytes.Repeat([]byte{'a'}, n)
			if n > 0 {
				b[n-1] = 'z'
			}
			row.Vals[i] = Val{B: b}
			raw, _ := t.clust.build(&Rec{fields: t.fieldsOf(row, w.trx, 0)})
			return len(raw)
		}
		if d := most - long(300); d > 0 {
			long(300 + d - r.N(30)*r.N(2))
			w.stat("giant_rows")
		} else {
			row.Vals[i] = was
		}
		return
	}
}

var dbNames = []string{"app", "app2", "shop", "ap", "my-app", "db#1", "ap@0070", "`app`", " app"}
var tblNames = []string{"t", "t1", "orders", "user_log", "T", "t_1", "user-log", "a.b c", "t`x", "表格", "x@002dy", "x-y", "a#1", "a/b", "2020", "it's", "#t", " t", "`t`", "t'"}

// narrowKey keeps keys in a small range, so that histories meet again.
func (t *Table) narrowKey(row *RowVer, r *Rng) {
	for k, p := range t.keyPos {
		c := &t.spec.Cols[p]
		if c.Kind == "int" { // not enum
			t.ctr++
			u := t.ctr
			if r.P(35) || k > 0 {
				u = uint64(r.N(60))
			}
			if c.Len == 1 {
				u %= 100
			}
			if r.P(5) && !c.Unsigned {
				u = -u
			}
			row.Vals[p] = Val{B: sortableInt(u&(^uint64(0)>>(64-8*uint(c.Len))), c.Len, c.Unsigned)}
		}
	}
}

func (w *World) junkPage(sp *Space, r *Rng) {
	n := sp.alloc()
	if r.P(30) {
		// an inner node of a deeper tree
		for _, x := range sp.pages {
			if p, ok := x.(*Page); ok && p.level > 0 && !p.tree.sec {
				b := p.image()
				put4(b[4:], n)
				put2(b[38+26:], r.R(1, 4))
				filTrailer(b, w.lsn)
				sp.pages[n] = b
				w.stat("inner_nodes")
				return
			}
		}
	}
	b := make([]byte, pageSize)
	copy(b, r.Bytes(pageSize))
	typ := []int{10, 2, 0, 4, 11, 12, 6}[r.N(7)]
	filHeader(b, n, sp.id, typ, w.lsn, 0xffffffff, 0xffffffff)
	// bytes that, on an index page, would be header fields
	h := b[38:]
	switch r.N(3) {
	case 0:
		put2(h[26:], 0)
		put8(h[18:], 0)
	case 1:
		put2(h[4:], 0x8000|r.N(200))
		put2(h[6:], 120+r.N(300))
		put2(h[8:], 1+r.N(300))
		put8(h[18:], 0)
		put2(h[26:], 0)
	}
	id := uint64(1 + r.N(4))
	for _, t := range w.order {
		if t.sp == sp {
			id = t.indexID[0]
		}
	}
	put8(h[28:], id)
	sp.pages[n] = b
	w.stat("other_page_kinds")
}

func (w *World) flushOne(sp *Space, r *Rng) {
	var d []*Page
	for _, x := range sp.pages {
		if p, ok := x.(*Page); ok && p.dirty {
			d = append(d, p)
		}
	}
	if len(d) > 0 {
		d[r.N(len(d))].flush()
		w.stat("page_flushed")
	}
}

func (sp *Space) flushAll() {
	for _, x := range sp.pages {
		if p, ok := x.(*Page); ok && p.dirty {
			p.flush()
		}
	}
}

func (w *World) flushAll() {
	w.sys.flushAll()
	for _, t := range w.order {
		t.sp.flushAll()
	}
}

// sysPage is the dictionary header page.
func (w *World) dictHeader() []byte {
	b := make([]byte, pageSize)
	put8(b[38:], 1000)
	put8(b[46:], w.nextTable)
	put8(b[54:], w.nextIndex)
	put4(b[62:], w.nextSpace)
	put4(b[66:], 80)
	for i, n := range []uint32{8, 9, 10, 11, 12} {
		put4(b[70+4*i:], n)
	}
	filHeader(b, 7, 0, 6, w.lsn, 0xffffffff, 0xffffffff)
	filTrailer(b, w.lsn)
	return b
}

// Capture is what the operator hands to the tool.
type Capture struct {
	w      *World
	Ibdata []byte
	Tables []*CapTable
	Stats  map[string]int
	Hash   uint64
}

type CapTable struct {
	T     *Table
	DB    string
	Name  string
	Data  []byte
	Pages []*Snap // by page number; nil for other pages
}

func (c *CapTable) expect(recovery bool) (must, may []*RowVer) {
	for _, s := range c.Pages {
		if s == nil || !s.leaf || s.index != c.T.indexID[0] {
			continue
		}
		if recovery {
			must = append(must, s.free...)
			may = append(may, s.marked...)
		} else {
			must = append(must, s.live...)
		}
	}
	return
}

// dictOK reports whether the dictionary on disk describes the table completely.
func (w *World) dictOK() bool {
	type st struct{ n map[dictKey]int }
	found := map[dictKey]int{}
	for _, s := range w.sys.disk {
		if s == nil || !s.leaf {
			continue
		}
		for _, d := range s.drecs {
			if !d.marked {
				found[d.d.(dictKey)]++
			}
		}
	}
	// every current row once, nothing else
	cur := map[dictKey]bool{}
	for i := 0; i < 4; i++ {
		for _, l := range w.dt[i].leaves {
			for _, r := range l.recs {
				if !r.marked {
					cur[r.dict.(dictKey)] = true
				}
			}
		}
	}
	own := map[uint64]bool{}
	idx := map[uint64]bool{}
	names := map[string]bool{}
	for _, t := range w.order {
		if !t.dropped {
			own[t.id] = true
			names[string(t.dictName())] = true
			for _, i := range t.indexID {
				idx[i] = true
			}
		}
	}
	mine := func(k dictKey) bool {
		switch k.tab {
		case 0:
			return own[k.table] || names[k.name]
		case 3:
			return idx[k.id]
		}
		return own[k.table]
	}
	for k := range cur {
		if mine(k) && found[k] != 1 {
			return false
		}
	}
	for k, n := range found {
		if mine(k) && (n != 1 || !cur[k]) {
			return false
		}
	}
	return true
}

func (sp *Space) file() []byte {
	out := make([]byte, 0, len(sp.pages)*pageSize)
	for i, x := range sp.pages {
		switch p := x.(type) {
		case []byte:
			out = append(out, p...)
		default:
			if sp.disk[i] != nil {
				out = append(out, sp.disk[i].img...)
			} else {
				out = append(out, make([]byte, pageSize)...)
			}
		}
	}
	return out
}

// sums gives the sound pages of a file the checksums of the server's setting.
func (w *World) sums(file []byte) {
	if w.spec.Sum == 0 {
		return
	}
	for ; len(file) >= pageSize; file = file[pageSize:] {
		b := file[:pageSize]
		if c := crcPage(b); uint32(be(b[:4])) != c || uint32(be(b[pageSize-8:pageSize-4])) != c {
			continue
		}
		if w.spec.Sum == 2 {
			put4(b, 0xdeadbeef)
			put4(b[pageSize-8:], 0xdeadbeef)
			continue
		}
		put4(b, foldBytes(b[4:26])+foldBytes(b[38:pageSize-8]))
		put4(b[pageSize-8:], foldBytes(b[:26]))
	}
	w.stat("checksums_not_crc32")
}

// foldBytes is ut_fold_binary.
func foldBytes(b []byte) uint32 {
	var f uint64
	for _, x := range b {
		n := uint64(x)
		f = ((f^n^1653893711)<<8 + f) ^ 1463735687 + n
	}
	return uint32(f)
}

func (w *World) capture() *Capture {
	if w.spec.FlushAll {
		w.flushAll()
	}
	if w.spec.FlushDict || !w.dictOK() {
		w.sys.flushAll()
		w.stat("dict_flushed_at_end")
	}
	c := &Capture{w: w, Stats: w.stats}
	w.sys.pages[7] = w.dictHeader()
	if w.spec.DW {
		w.fillDW()
	}
	if b := w.sys.pages[0].([]byte); w.spec.FlushLSN == 2 {
		put8(b[26:], w.lsn)
	}
	c.Ibdata = w.sys.file()
	w.sums(c.Ibdata)
	c.Hash = fnv(c.Ibdata)
	for _, t := range w.order {
		if t.dropped {
			continue
		}
		ct := &CapTable{T: t, DB: t.db, Name: t.nm, Data: t.sp.file(), Pages: t.sp.disk}
		w.sums(ct.Data)
		c.Tables = append(c.Tables, ct)
		c.Hash = mix(c.Hash ^ fnv(ct.Data))
	}
	sort.SliceStable(c.Tables, func(i, j int) bool { return c.Tables[i].T.spec.Slot < c.Tables[j].T.spec.Slot })
	return c
}

// fillDW writes doublewrite copies: current, older and torn versions of pages
// of every tablespace.
func (w *World) fillDW() {
	r := NewRng(hashSeed(w.spec.Seed, 9))
	var cands [][]byte
	add := func(sp *Space) {
		for i, x := range sp.pages {
			p, ok := x.(*Page)
			if !ok {
				continue
			}
			if sp.disk[i] != nil {
				cands = append(cands, sp.disk[i].img)
			}
			if len(p.recs) > 0 {
				cands = append(cands, p.image())
			}
		}
		cands = append(cands, sp.past...)
	}
	add(w.sys)
	for _, t := range w.order {
		add(t.sp)
	}
	cands = append(cands, w.sys.pages[7].([]byte))
	for len(w.sys.pages) < 64+32 {
		w.sys.pages = append(w.sys.pages, nil)
		w.sys.disk = append(w.sys.disk, nil)
	}
	for i := 64; i < 192 && i < len(w.sys.pages); i++ {
		if r.P(45) && len(cands) > 0 {
			b := append([]byte{}, cands[r.N(len(cands))]...)
			switch r.N(6) {
			case 0: // torn
				k := 512 * r.R(1, 31)
				copy(b[k:], make([]byte, pageSize-k))
			case 1: // an older version: fewer columns survive, other ids
				put8(b[16:], 1)
				for j := 0; j < 30; j++ {
					b[120+r.N(2000)] ^= byte(1 << uint(r.N(8)))
				}
			case 2: // a dictionary header of another age
				if r.P(40) {
					b = w.dictHeader()
					for k := 0; k < 5; k++ {
						put4(b[70+4*k:], uint32(13+r.N(30)))
					}
					reseal(b)
				}
			}
			if r.P(15) {
				// of another, larger file
				put4(b[4:], uint32(i)^1<<uint(r.R(8, 31)))
				reseal(b)
			} else if be(b[34:38]) != 0 && be(b[38+28:38+36]) > 4 && r.P(30) {
				put4(b[4:], uint32(i)) // the same number in another tablespace
				reseal(b)
				w.sys.pages[i] = b
				w.stat("doublewrite_same_number")
				continue
			}
			if be(b[4:8]) != uint64(i) {
				w.sys.pages[i] = b
				w.stat("doublewrite_copies")
			}
		}
	}
}

// stale puts copies of pages at places of a table file that are not theirs:
// space that was never written, the preallocated end, and (a misdirected
// write) the place of another page, which is lost by it.
func (c *Capture) stale(t *CapTable, r *Rng) (n, lost, torn int) {
	var cands [][]byte
	add := func(sp *Space) {
		for i, x := range sp.pages {
			if p, ok := x.(*Page); ok {
				if sp.disk[i] != nil {
					cands = append(cands, sp.disk[i].img)
				}
				if len(p.recs) > 0 {
					cands = append(cands, p.image())
				}
			}
		}
		cands = append(cands, sp.past...)
	}
	add(t.T.sp)
	for k := len(cands); k > 0; k-- {
		cands = append(cands, cands[r.N(k)]) // own pages more often
	}
	for _, x := range c.w.order {
		if x != t.T {
			add(x.sp)
		}
	}
	add(c.w.sys)
	data := append([]byte{}, t.Data...)
	for k := r.R(1, 8); k > 0; k-- {
		data = append(data, make([]byte, pageSize)...)
	}
	pages := append([]*Snap{}, t.Pages...)
	zero := make([]byte, pageSize)
	for i := 3; i*pageSize < len(data); i++ {
		d := data[i*pageSize : (i+1)*pageSize]
		free := string(d) == string(zero)
		if !(free && r.P(70) || i < len(pages) && r.P(4)) {
			continue
		}
		b := append([]byte{}, cands[r.N(len(cands))]...)
		if r.P(15) {
			put4(b[4:], uint32(i)^1<<uint(r.R(8, 31))) // of a larger file
			reseal(b)
		}
		if be(b[4:8]) == uint64(i) {
			continue
		}
		copy(d, b)
		n++
		if i < len(pages) && pages[i] != nil {
			pages[i] = nil
			lost++
		}
	}
	for i := 3; i < len(pages); i++ {
		if pages[i] != nil && r.P(30) && tear(data[i*pageSize:(i+1)*pageSize], r) {
			torn++
		}
	}
	t.Data, t.Pages = data, pages
	return
}

// tear gives an index page the last sector of another age, as a crash does
// that hits in the middle of its write. Only the page directory and the
// trailer lie in it, the records are what the page says.
func tear(b []byte, r *Rng) bool {
	if be(b[24:26]) != 17855 || be(b[40:42]) > pageSize-512 {
		return false
	}
	end := b[pageSize-512:]
	put4(end[504:], uint32(r.U64()))
	switch r.N(3) {
	case 0:
		copy(end, make([]byte, 512))
	case 1:
		put4(end[508:], uint32(be(b[20:24]))-uint32(r.R(1, 5000)))
	case 2:
		copy(end[512-8-2*r.R(1, 20):504], r.Bytes(2))
		put4(end[508:], 1)
	}
	return true
}

func simulate(spec *Spec) *World {
	w := NewWorld(spec)
	for _, op := range spec.Ops {
		w.step(op)
	}
	return w
}
