package main

import (
	"fmt"
	"strings"
)

// Random databases and schedules.

type GenOpts struct {
	Tables   int // maximum number of tables
	MaxCols  int
	Ops      int // maximum number of schedule steps
	DDL      int // percent of steps that are DDL
	Red      int // percent of tables in REDUNDANT format
	NoPK     int // percent of tables without any key
	Kinds    []string
	SameName bool // tables of the same name in several databases
	Small    bool
	Redo     bool
	Update   bool
}

var colNames = []string{"id", "name", "user_id", "a", "b", "c1", "C2", "order", "select", "null", "x y", "v", "created_at", "h\u00e9", "k", "DB_TRX", "val", "set", "w1", "zz", "x`y", "a.b"}

func genTable(r *Rng, o *GenOpts, slot int) TableSpec {
	t := TableSpec{Slot: slot, DB: dbNames[r.N(len(dbNames))], Name: tblNames[r.N(len(tblNames))], PKName: "PRIMARY"}
	t.Old = r.P(o.Red)
	n := 1 + r.N(o.MaxCols)
	if r.P(8) {
		n += 8 + r.N(12) // several null-bitmap bytes
	}
	if n > len(colNames) {
		n = len(colNames)
	}
	wide := 0
	if o.MaxCols >= 5 && r.P(4) {
		// positions and null bits beyond one byte
		wide = []int{r.R(40, 140), r.R(120, 140), r.R(250, 300)}[r.N(3)]
		if r.P(20) {
			wide = r.R(300, 900)
		}
		n = 1
	}
	long := r.P(8)
	if r.P(6) {
		// names of the greatest length, alike up to the last character
		t.Name = strings.Repeat("t", 63) + string(rune('a'+r.N(3)))
	}
	if r.P(4) {
		t.DB = strings.Repeat("d", 63) + string(rune('a'+r.N(3)))
	}
	if r.P(3) {
		// the longest names there can be in the dictionary
		t.DB, t.Name = strings.Repeat("库", 64), strings.Repeat("表", 63)+string(rune('a'+r.N(3)))
	}
	if r.P(10) {
		t.IDAt = []uint64{1 << 14, 1 << 16, 1 << 21, 1 << 24, 1 << 28, 1 << 31, 1 << 32, 1<<32 | 1<<31, 1 << 40}[r.N(9)] - uint64(r.N(4))
	}
	t.Multi = r.P(30)
	t.Sys = r.P(8)
	t.Share = !t.Sys && r.P(15)
	perm := make([]int, len(colNames))
	for i := range perm {
		perm[i] = i
	}
	for i := range perm {
		j := i + r.N(len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i := 0; i < n; i++ {
		var c Col
		for try := 0; ; try++ {
			c = randCol(r, colNames[perm[i]], uint64(i+1))
			if o.Kinds == nil || try > 300 {
				break
			}
			ok := false
			for _, k := range o.Kinds {
				ok = ok || k == c.Kind
			}
			if ok {
				break
			}
		}
		if r.P(15) {
			c.Null = true
		}
		if long {
			c.Name = strings.Repeat(c.Name, 1+64/len([]rune(c.Name)))
			c.Name = string([]rune(c.Name)[:63]) + string(rune('a'+i))
		}
		t.Cols = append(t.Cols, c)
	}
	sparse := r.P(50) // nearly every column can be NULL
	lean := sparse && r.P(50)
	for i := 1; i < wide; i++ {
		c := smallCol(r, fmt.Sprintf("c%03d", i), uint64(i+1))
		for lean && c.Kind != "varchar" && c.Kind != "varbinary" {
			c = smallCol(r, c.Name, c.ID)
		}
		if sparse && r.P(97) {
			c.Null = true
		}
		t.Cols = append(t.Cols, c)
	}
	room := 6000 // what every row needs has to fit in half a page
	for i := range t.Cols {
		c := &t.Cols[i]
		if c.Kind == "char" && c.Len*c.mbmax() > room {
			c.Len = 3
		}
		if c.Kind == "char" || c.Kind == "binary" {
			room -= c.Len * c.mbmax()
		}
	}
	if !r.P(o.NoPK) {
		// make sure that some column can carry a key
		var ks []int
		for i := range t.Cols {
			if t.Cols[i].keyable() {
				ks = append(ks, i)
			}
		}
		if len(ks) == 0 || r.P(50) {
			i := r.N(len(t.Cols))
			c := &t.Cols[i]
			*c = Col{Name: c.Name, ID: c.ID, Kind: "int", Len: []int{2, 3, 4, 8}[r.N(4)], Unsigned: r.P(50)}
			ks = append([]int{i}, ks...)
		}
		nk := 1
		if r.P(45) {
			nk = 1 + r.N(3)
		}
		if r.P(6) {
			nk = r.R(4, 16)
		}
		first := ks[0]
		for i := range ks {
			j := i + r.N(len(ks)-i)
			ks[i], ks[j] = ks[j], ks[i]
		}
		if r.P(60) {
			ks = append([]int{first}, ks...)
		}
		seen := map[int]bool{}
		for _, i := range ks {
			if len(t.PK) < nk && !seen[i] {
				seen[i] = true
				t.Cols[i].Null = false
				t.PK = append(t.PK, int(t.Cols[i].ID))
			}
		}
		// keys of prefixes
		for len(t.PKPre) < len(t.PK) {
			t.PKPre = append(t.PKPre, 0)
		}
		for i, id := range t.PK {
			c := &t.Cols[id-1]
			if k := c.Kind; r.P(10) && c.Len > 1 && (k == "varchar" || k == "char" || k == "binary" || k == "varbinary") {
				t.PKPre[i] = r.R(1, c.Len-1)
				if t.PKPre[i] > 60 {
					t.PKPre[i] = 60
				}
			}
		}
		if r.P(4) {
			for i := range t.Cols {
				c := &t.Cols[i]
				if k := c.Kind; !seen[i] && (k == "text" || k == "blob") {
					seen[i] = true
					c.Null = false
					t.PK = append(t.PK, int(c.ID))
					t.PKPre = append(t.PKPre, r.R(1, 40))
					break
				}
			}
		}
		if r.P(20) {
			// a long prefix of a longer column, longer than one byte tells
			for i := range t.Cols {
				c := &t.Cols[i]
				if k := c.Kind; !seen[i] && (k == "varchar" || k == "varbinary" || k == "char") && c.Len > 129 {
					n := []int{127, 128, 129, 200, 255, 256, 257, 400, c.Len - 1}[r.N(9)]
					if n = min(n, min(400/c.mbmax(), c.Len-1)); n < 64 {
						continue
					}
					seen[i] = true
					c.Null = false
					t.PK = append(t.PK, int(c.ID))
					t.PKPre = append(t.PKPre, n)
					break
				}
			}
		}
		if r.P(20) {
			t.PKName = []string{"uk_a", "zkey", "A_first", "uk_a", "zkey", " GEN_CLUST_INDEX", "GEN_CLUST_INDEX_"}[r.N(7)]
		}
	}
	for i := range t.Cols {
		if len(t.Sec)+len(t.Uniq) < 6 && r.P(18) && t.Cols[i].indexable() {
			if r.P(70) {
				t.Sec = append(t.Sec, int(t.Cols[i].ID))
			} else {
				t.Uniq = append(t.Uniq, int(t.Cols[i].ID))
			}
		}
	}
	if !o.Small && len(t.Sec) > 0 && r.P(3) {
		// as many indexes as there can be
		for n := r.R(10, 64); len(t.Sec)+len(t.Uniq) < n; {
			t.Sec = append(t.Sec, t.Sec[r.N(len(t.Sec))])
		}
		t.Cap = max(t.Cap, 40)
	}
	if wide == 0 && o.Kinds == nil && !long && r.P(5) {
		// the number that full-text indexes know a row by
		id := len(t.Cols) + 1
		t.Cols = append(t.Cols, Col{Name: "FTS_DOC_ID", ID: uint64(id), Kind: "int", Len: 8, Unsigned: true, Hidden: r.P(75)})
		t.Uniq = append(t.Uniq, id)
	}
	t.Cap = []int{3, 5, 8, 15, 40, 400}[r.N(6)]
	return t
}

func genSpec(r *Rng, o GenOpts) Spec {
	s := Spec{Seed: r.U64()}
	nt := 1 + r.N(o.Tables)
	used := map[string]bool{}
	for i := 0; i < nt; i++ {
		t := genTable(r, &o, i)
		if o.SameName && i > 0 && r.P(50) {
			t.Name = s.Tables[0].Name
		}
		if o.SameName && i > 0 && r.P(25) {
			// a name that contains the other
			near := func(n string) string {
				if len(n) > 40 {
					return n
				}
				return []string{"a" + n, n + "a", n + n, n + "_" + n, n + "1", "my " + n}[r.N(6)]
			}
			if r.P(60) {
				t.Name = near(s.Tables[0].Name)
			}
			if r.P(60) {
				t.DB = near(s.Tables[0].DB)
			} else {
				t.DB = s.Tables[0].DB
			}
		}
		for used[t.DB+"/"+t.Name] {
			t.DB, t.Name = dbNames[r.N(len(dbNames))], tblNames[r.N(len(tblNames))]
		}
		used[t.DB+"/"+t.Name] = true
		if i > 0 && o.DDL > 0 && r.P(30) {
			t.Late = true
		}
		s.Tables = append(s.Tables, t)
	}
	if !o.Small && !o.Redo && o.Kinds == nil && o.MaxCols >= 5 && r.P(4) {
		// pages full of the smallest rows, and many of them deleted
		t := &s.Tables[r.N(nt)]
		c := Col{Name: t.Cols[0].Name, ID: 1, Kind: "int", Len: 2, Unsigned: true}
		t.Cols = []Col{c}
		if r.P(30) {
			t.Cols = append(t.Cols, Col{Name: "flag", ID: 2, Kind: "int", Len: 1, Null: r.P(50)})
		}
		t.PK, t.PKPre, t.Sec, t.Uniq, t.Multi = []int{1}, []int{0}, nil, nil, false
		if r.P(10) {
			t.PK, t.PKPre = nil, nil
		}
		t.Cap = 2000
		for _, k := range []string{"ins", "del", "pur"}[:1+r.N(3)] {
			s.Ops = append(s.Ops, Op{K: k, T: t.Slot, A: r.R(200, []int{1200, 2500}[r.N(2)]), S: r.U64()})
		}
		if r.P(35) {
			// as many of them on one page as there can be
			s.Ops = nil
			for _, x := range []Op{{K: "ins", A: r.R(690, 790)}, {K: "del", A: 2500}, {K: "pur", A: 2500}, {K: "ins", A: r.N(3)}} {
				x.T, x.S = t.Slot, r.U64()
				s.Ops = append(s.Ops, x)
			}
			t.Cols = t.Cols[:1]
			t.PK, t.PKPre = []int{1}, []int{0}
		}
		t.Late = false
	}
	s.DictCap = []int{2, 3, 6, 15, 60, 400}[r.N(6)]
	for i := range s.Tables {
		if len(s.Tables[i].Cols) > 30 && s.DictCap < 60 {
			s.DictCap = 60
		}
	}
	s.Noise = []int{0, 0, 1, 3, 8, 25}[r.N(6)]
	if o.Small {
		s.Noise = r.N(2)
	} else if r.N(1000) < 12 {
		// a server with very many tables
		s.Noise = r.R(60, 1200)
		s.DictCap = max(s.DictCap, []int{30, 60}[r.N(2)])
	}
	if !o.Small && r.P(3) {
		// page numbers beyond one byte
		s.Far = r.R(200, 700)
	}
	if !o.Small && r.P(3) {
		s.FarTab = r.R(200, 1100)
		if r.P(12) {
			s.FarTab = r.R(1100, 2500)
		}
	}
	s.Sum = []int{0, 0, 0, 0, 0, 0, 0, 0, 1, 2}[r.N(10)]
	s.FlushLSN = r.N(3)
	s.DW = r.P(20)
	s.Empty = r.P(40)
	s.Scatter = r.P(35)
	s.V57 = r.P(50)
	s.FlushAll = r.P(35)
	s.FlushDict = r.P(60)
	// schedule: phases with different mixes
	n := 3 + r.N(o.Ops)
	type w struct {
		k string
		p int
	}
	var mix []w
	sum := 0
	phase := 0
	for len(s.Ops) < n {
		if phase == 0 {
			phase = 3 + r.N(12)
			mix = nil
			switch r.N(6) {
			case 0:
				mix = []w{{"ins", 70}, {"flt", 10}, {"upd", 10}, {"del", 10}, {"fil", 8}}
			case 1:
				mix = []w{{"del", 40}, {"pur", 30}, {"flt", 15}, {"ins", 15}}
			case 2:
				mix = []w{{"upd", 60}, {"flt", 15}, {"com", 10}, {"rol", 10}, {"pur", 5}}
			case 3:
				mix = []w{{"ins", 25}, {"upd", 20}, {"del", 20}, {"pur", 20}, {"flt", 5}, {"rol", 5}, {"com", 5}, {"fil", 4}}
			case 4:
				mix = []w{{"ins", 30}, {"del", 25}, {"pur", 25}, {"upd", 20}}
			case 5:
				mix = []w{{"flt", 30}, {"all", 10}, {"ins", 20}, {"fil", 5}, {"pur", 20}, {"del", 10}, {"blo", 10}}
			}
			if o.Update {
				mix = append(mix, w{"upd", 60})
			}
			if o.Redo {
				mix = append(mix, w{"noi", 15}, w{"log", 10}, w{"com", 10})
			}
			if o.DDL > 0 {
				d := o.DDL
				mix = append(mix, w{"cre", d}, w{"dro", d / 2}, w{"ren", d}, w{"pdi", d}, w{"fls", d * 2})
			}
			sum = 0
			for _, m := range mix {
				sum += m.p
			}
		}
		phase--
		k := r.N(sum)
		op := Op{T: r.N(nt), S: r.U64()}
		for _, m := range mix {
			if k < m.p {
				op.K = m.k
				break
			}
			k -= m.p
		}
		if len(s.Ops) == 0 {
			op.K = "ins"
		}
		switch op.K {
		case "ins":
			op.A = []int{0, 2, 6, 15, 40}[r.N(5)]
			if o.Small {
				op.A = r.N(5)
			}
		case "upd", "del", "pur", "noi":
			op.A = []int{0, 0, 1, 3, 8}[r.N(5)]
		case "flt", "fls", "pdi":
			op.A = r.N(4)
		}
		s.Ops = append(s.Ops, op)
	}
	return s
}

func (s *Spec) clone() Spec {
	c := *s
	c.Tables = append([]TableSpec{}, s.Tables...)
	for i := range c.Tables {
		t := &c.Tables[i]
		t.Cols = append([]Col{}, t.Cols...)
		t.PK = append([]int{}, t.PK...)
		t.PKPre = append([]int{}, t.PKPre...)
		t.Sec = append([]int{}, t.Sec...)
		t.Uniq = append([]int{}, t.Uniq...)
	}
	c.Ops = append([]Op{}, s.Ops...)
	return c
}

func (s *Spec) String() string {
	return fmt.Sprintf("%d tables, %d steps", len(s.Tables), len(s.Ops))
}
