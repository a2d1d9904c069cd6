package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
)

// Checks of hostile and broken inputs.

// ---- C18 ---------------------------------------------------------------------

func genC18(r *Rng, e *Env, i int) *Case {
	c := &Case{Level: []string{"error", "fatal", "warn", "info", "error", "DEBUG"}[r.N(6)]}
	c.Variant = []string{"pages", "pages", "dict", "log", "log", "tables", "wide", "stream", "updates", "many", "lies", "lies", "long"}[r.N(13)]
	o := GenOpts{Tables: 1, MaxCols: 6, Ops: 12, Red: 40, NoPK: 12, Small: true}
	switch c.Variant {
	case "pages":
		c.Mode = []string{"print", "recover"}[r.N(2)]
		c.Spec = genSpec(r, o)
		if r.P(40) {
			c.Spec.Tables[0].Cap = 400
		}
		for k := r.R(0, 3); k > 0; k-- {
			d := pageDamage(r)
			d.Off %= pageSize // of the page that is repeated
			c.Dmg = append(c.Dmg, d)
		}
		if r.P(70) { // a chain through the whole page
			c.N = []int64{int64(r.N(7)), int64(r.N(1 << 30)), int64(r.N(1 << 30))}
		}
	case "dict":
		c.Mode = []string{"print", "redo"}[r.N(2)]
		c.Spec = genSpec(r, o)
		for k := r.R(1, 4); k > 0; k-- {
			d := pageDamage(r)
			d.Off %= pageSize
			c.Dmg = append(c.Dmg, d)
		}
		c.N = []int64{int64(r.N(7)), int64(r.N(1 << 30)), int64(r.N(1 << 30))}
	case "tables", "many":
		c.Mode = []string{"print", "redo"}[r.N(2)]
		c.Spec = genSpec(r, o)
		c.Spec.DictCap = 400
	case "wide":
		c.Mode = []string{"print", "redo"}[r.N(2)]
		c.Spec = genSpec(r, o)
		c.Spec.DictCap = 400
		c.N = []int64{int64(r.N(3))}
	case "log", "stream", "updates", "lies", "long":
		o.Update = true
		c2 := genRedo(r, o)
		c2.Variant, c2.Level = c.Variant, c.Level
		c = c2
		c.Fr.Spare = 0
		c.N = []int64{int64(r.N(1 << 30)), int64(r.N(4))}
	}
	c.Slots = []int{0}
	return c
}

// hostilePage links the records of a page in a way only damage can.
func hostilePage(b []byte, c *Case) {
	if len(c.N) < 3 {
		return
	}
	r := NewRng(uint64(c.N[1]))
	compact := b[38+4]&0x80 != 0
	inf := 101
	if compact {
		inf = 99
	}
	link := func(from, to int) {
		if compact {
			put2(b[from-2:], (to-from)&0xffff)
		} else {
			put2(b[from-2:], to)
		}
	}
	first := func(to int) {
		link(inf, to)
		put2(b[38+6:], to)
		put2(b[38+8:], 1+r.N(2000))
	}
	put2(b[38+26:], 0)
	put8(b[38+18:], 0)
	switch c.N[0] {
	case 0: // a record that follows itself
		p := 130 + r.N(16000)
		link(p, p)
		first(p)
	case 1: // two
		p, q := 130+r.N(16000), 130+r.N(16000)
		link(p, q)
		link(q, p)
		first(p)
	case 2, 3: // as many as fit, upwards or downwards
		step := []int{2, 3, 5, 6, 7, 9, 16, 30}[r.N(8)]
		var at []int
		for p := 130 + r.N(8); p < 16370; p += step {
			at = append(at, p)
		}
		if c.N[0] == 3 {
			for i, j := 0, len(at)-1; i < j; i, j = i+1, j-1 {
				at[i], at[j] = at[j], at[i]
			}
		}
		for i := range at {
			if i+1 < len(at) {
				link(at[i], at[i+1])
			} else {
				link(at[i], at[r.N(len(at))])
			}
		}
		first(at[0])
	case 4: // everything the same byte
		v := byte(r.N(256))
		for i := 120; i < pageSize-8; i++ {
			b[i] = v
		}
		first(130 + r.N(16000))
	case 5: // noise
		copy(b[120:], r.Bytes(pageSize-128))
		first(130 + r.N(16000))
	case 6: // back to the first bytes
		p := 130 + r.N(16000)
		link(p, inf)
		first(p)
	}
}

// repeated appends n copies of a page to a file, each at home at its place.
func repeated(file, page []byte, n int) []byte {
	out := append([]byte{}, file...)
	for ; n > 0; n-- {
		p := append([]byte{}, page...)
		put4(p[4:], uint32(len(out)/pageSize))
		out = append(out, p...)
	}
	return out
}

// hostileRecords is a stream of log records whose fields lie.
func hostileRecords(r *Rng, n int) []byte {
	var b []byte
	for len(b) < n {
		typ := byte(r.N(64))
		switch r.N(4) {
		case 0:
			typ = []byte{20, 20, 20, 41, 45, 17, 16, 31, 38}[r.N(9)]
		case 1:
			typ |= 0x80
		}
		b = append(b, typ)
		b = append(b, []byte{byte(r.N(100)), byte(r.N(100))}...)
		for k := r.N(30); k > 0; k-- {
			switch r.N(6) {
			case 0:
				b = append(b, 0xf0, byte(r.U64()), byte(r.U64()), byte(r.U64()), byte(r.U64()))
			case 1:
				b = append(b, 0xff, 0xff, 0xff, 0xff)
			case 2:
				b = append(b, 0, 0)
			case 3:
				b = append(b, 0x7f)
			case 4:
				b = append(b, byte(0x80|r.N(128)), byte(r.N(256)))
			case 5:
				b = append(b, r.Bytes(1+r.N(12))...)
			}
		}
	}
	return b
}

// wide is the number of columns of the widest table at scale 1: as InnoDB
// allows, or beyond.
func (c *Case) wide() int { return []int{250, 1100}[c.Spec.Seed%2] }

// scaled builds the input of a C18 case at a scale.
func (e *Env) scaled(c *Case, k int) *Input {
	d := *c
	d.Spec.FlushDict = true
	switch c.Variant {
	case "tables":
		d.Spec.Noise = 80 * k
	case "many":
		d.Spec.Noise, d.Spec.Tiny = 1500*k, true
	case "wide":
		d.Spec.Wide = c.wide() * k
		if len(c.N) > 0 {
			d.Spec.WideKey = int(c.N[0])
		}
	}
	w := simulate(&d.Spec)
	if c.Variant == "stream" && len(c.N) > 1 {
		// one long stream of lies
		w.log.data = append(w.log.data, hostileRecords(NewRng(uint64(c.N[0])), 3000*k)...)
	}
	if c.Variant == "lies" && len(c.N) > 0 && len(w.log.undos) > 0 {
		// undo records of real tables with a count or length far too large
		r := NewRng(uint64(c.N[0]))
		var part [][]byte
		for i := r.R(1, 6); i > 0; i-- {
			part = append(part, w.log.undos[r.N(len(w.log.undos))].lie(r))
		}
		for i := 0; i < 40*k; i++ {
			w.log.starts = append(w.log.starts, len(w.log.data))
			w.log.data = append(w.log.data, part[i%len(part)]...)
		}
	}
	if c.Variant == "long" && len(c.N) > 0 {
		// a long log with nothing special in it: page writes, or many records of
		// a few kinds
		r := NewRng(uint64(c.N[0]))
		if len(c.N) < 2 || c.N[1] == 0 {
			for n := len(w.log.data) + 400000*k; len(w.log.data) < n; {
				w.log.mtr(logRec{typ: 30, body: append(a2(a2(w.log.pageID(r, 5), r.N(16000)), 4000), r.Bytes(4000)...)})
			}
		} else {
			kinds := []byte{noiseTypes[r.N(len(noiseTypes))], noiseTypes[r.N(len(noiseTypes))]}
			var rs []logRec
			for i := 0; i < 20; i++ {
				rs = append(rs, w.log.rec(kinds[i%2], r, rndSpace(r, w.log)))
			}
			for n, i := len(w.log.data)+40000*k, 0; len(w.log.data) < n; i++ {
				w.log.mtr(rs[i%len(rs)])
			}
		}
	}
	if n := len(w.log.data); (c.Variant == "log" || c.Variant == "updates") && len(c.N) > 1 && n > 0 {
		// the same stretch of log again and again, with lies in it
		r := NewRng(uint64(c.N[0]))
		part := append([]byte{}, w.log.data...)
		if len(part) > 6000 {
			part = part[:6000]
			for _, u := range w.log.upds {
				if u.Start > 3000 && u.End < n {
					part = append([]byte{}, w.log.data[:u.End]...)
					break
				}
			}
		}
		if len(part) < 1500 {
			part = append(part, bytes.Repeat(part, 1500/len(part))...)
		}
		if c.Variant == "log" {
			for i := int64(0); i < c.N[1]; i++ {
				p := r.N(len(part))
				switch r.N(3) {
				case 0:
					part[p] ^= byte(1 << uint(r.N(8)))
				case 1:
					part[p] = []byte{0, 0xff, 0xf0, 0x7f, 0x80}[r.N(5)]
				case 2:
					copy(part[p:], hostileRecords(r, 40))
				}
			}
		}
		var starts []int
		for i := 0; i < 4*k; i++ {
			starts = append(starts, len(w.log.data))
			w.log.data = append(w.log.data, part...)
		}
		w.log.starts = append(w.log.starts, starts...)
	}
	cap := w.capture()
	for _, t := range chosen(&d, cap) {
		in := &Input{Ib: cap.Ibdata, Tab: t.Data, Mode: c.Mode, DB: t.DB, Table: t.Name}
		if c.Mode == "redo" {
			in.DB, in.Table, in.Tab = "", "", nil
			in.Redo = frameFiles(&c.Fr, w.log.blocks(&c.Fr, 0))
		}
		switch c.Variant {
		case "pages":
			leaf := t.T.clust.leaves[0]
			for _, l := range t.T.clust.leaves {
				if len(l.recs)+len(l.free) > len(leaf.recs)+len(leaf.free) {
					leaf = l
				}
			}
			img := leaf.image()
			for _, x := range c.Dmg {
				img = x.apply(img)
			}
			hostilePage(img, c)
			in.Tab = repeated(in.Tab, img, 8*k)
		case "dict":
			r := NewRng(uint64(c.N[2%len(c.N)]))
			tr := w.dt[r.N(4)]
			img := tr.leaves[r.N(len(tr.leaves))].image()
			for _, x := range c.Dmg {
				img = x.apply(img)
			}
			if r.P(60) {
				hostilePage(img, c)
			}
			put8(img[38+28:], tr.id)
			in.Ib = repeated(in.Ib, img, 8*k)
		}
		return in
	}
	return nil
}

// Bounds of the work for one byte of input, far above what any input needs on
// the present code (see DESIGN.md for the measured maxima).
const (
	maxTicksPerByte = 400
	maxAllocPerByte = 6000
	workFloor       = 3000000
	allocFloor      = 1 << 28
)

func checkC18(e *Env, c *Case) *Viol {
	var ticks, alloc []float64
	for _, k := range []int{1, 2, 4} {
		in := e.scaled(c, k)
		if in == nil {
			return nil
		}
		n := uint64(in.size())
		limT, limA := workFloor+maxTicksPerByte*n, uint64(allocFloor)+maxAllocPerByte*n
		res := e.exec(c, in, func(r *Run) { r.Ticks, r.Loose = limT, true })
		if v := broken(res); v != nil {
			if v.Kind == "endless" {
				return viol("endless", "no end after %d steps (allowed: %d for %d bytes of input)", res.Ticks, limT, n)
			}
			return v
		}
		if res.Alloc > limA {
			return viol("memory", "%d bytes allocated for %d bytes of input", res.Alloc, n)
		}
		if os.Getenv("VSIM_RATIO") != "" {
			fmt.Printf("%s %s k=%d ticks/byte %d alloc/byte %d out %d\n", c.Variant, c.Mode, k, res.Ticks/n, res.Alloc/n, len(res.Stdout))
		}
		e.most("most steps per input byte", int(res.Ticks/n))
		e.most("most bytes allocated per input byte", int(res.Alloc/n))
		e.mark(mix(fnv(in.Tab) ^ fnv(in.Ib) ^ uint64(len(in.Redo))))
		e.probe("hostile input: " + c.Variant)
		ticks, alloc = append(ticks, float64(res.Ticks)), append(alloc, float64(res.Alloc))
	}
	if c.Variant == "wide" && c.wide() < 1000 {
		return nil // what one table takes is bounded by the most columns it can have
	}
	for i, x := range [][]float64{ticks, alloc} {
		what := []string{"steps", "allocation"}[i]
		floor := 300000.0
		if what == "allocation" {
			floor = 3e7
		}
		if x[2] > floor && x[1] > 2.9*x[0] && x[2] > 2.9*x[1] {
			return viol("superlinear", "doubling the input twice takes %s from %.0f to %.0f and %.0f", what, x[0], x[1], x[2])
		}
	}
	return nil
}

// ---- C19 ---------------------------------------------------------------------

func genC19(r *Rng, e *Env, i int) *Case {
	c := &Case{Mode: []string{"print", "recover"}[r.N(2)], Level: pickLevel(r)}
	o := GenOpts{Tables: 3, MaxCols: 6, Ops: 25, Red: 35, NoPK: 12, DDL: 12, Small: r.P(40)}
	c.Variant = []string{"absent", "absent", "gone", "gone", "lost pages", "lost pages", "other entries", "other entries", "other entries", "rot"}[r.N(10)]
	if (c.Variant == "gone" || c.Variant == "rot") && r.P(50) {
		o.Update, o.DDL = true, 0
		x := genRedo(r, o)
		x.Variant, x.Level = c.Variant, c.Level
		c = x
	} else {
		c.Spec = genSpec(r, o)
	}
	c.Spec.FlushDict = true
	if c.Spec.Noise == 0 && r.P(80) {
		c.Spec.Noise = []int{1, 3, 10, 30}[r.N(4)]
	}
	c.Slots = []int{r.N(len(c.Spec.Tables))}
	c.N = []int64{int64(r.N(1 << 30)), int64(r.N(20))}
	return c
}

// absentName makes up a name that is not in the dictionary.
func absentName(r *Rng, w *World, t *CapTable) (db, nm string) {
	taken := map[string]bool{}
	for _, rec := range w.dt[0].all() {
		if k, ok := rec.dict.(dictKey); ok && !rec.marked {
			taken[plainName(k.name)] = true
		}
	}
	for try := 0; ; try++ {
		db, nm = t.DB, t.Name
		x := w.order[r.N(len(w.order))]
		switch r.N(16) {
		case 0:
			nm = nm[:len(nm)-1]
		case 1:
			nm += "x"
		case 2:
			db += "x"
		case 3:
			db = db[:len(db)-1]
		case 4:
			db, nm = nm, db
		case 5:
			nm = strings.ToUpper(nm)
		case 6:
			db = strings.ToUpper(db)
		case 7:
			db, nm = x.db, t.Name
		case 8:
			db, nm = t.DB, x.nm
		case 9: // a table that was dropped, or had the name once
			for _, y := range w.order {
				if y.dropped && r.P(60) {
					db, nm = y.spec.DB, y.spec.Name
				}
			}
		case 10:
			db, nm = x.spec.DB, x.spec.Name
		case 11:
			db = ""
		case 12:
			nm = db + "/" + nm
			db = ""
		case 13:
			db, nm = db+"/"+nm, ""
		case 14:
			nm = " " + nm
		case 15:
			db, nm = "nosuchdb", "nosuchtable"
		}
		if try > 40 {
			db, nm = "nosuchdb", fmt.Sprintf("t%d", try)
		}
		if db != "" && nm != "" && taken[db+"/"+nm] || db == "" && taken[nm] || nm == "" && strings.Contains(db, "/") {
			continue
		}
		return
	}
}

func (t *Tree) all() (o []*Rec) {
	for _, l := range t.leaves {
		o = append(o, l.recs...)
	}
	return
}

// ruin makes the dictionary unusable.
func ruin(r *Rng, in *Input) string {
	ib := in.Ib
	wipe := func(no, kind int) {
		b := ib[no*pageSize : (no+1)*pageSize]
		switch kind {
		case 0:
			copy(b, make([]byte, pageSize))
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2:
			copy(b, r.Bytes(pageSize))
		case 3: // a header of another page
			copy(b[:38], ib[:38])
		case 4: // torn at the start
			copy(b[:512], r.Bytes(512))
		}
	}
	ib = append([]byte{}, ib...)
	what := ""
	switch k := r.N(9); k {
	case 0:
		ib, what = nil, "empty"
	case 1:
		n := r.N(13)
		ib, what = ib[:n*pageSize], fmt.Sprintf("cut after %d pages", n)
	case 2:
		n := r.N(12*pageSize + 1)
		ib, what = ib[:n], fmt.Sprintf("cut after %d bytes", n)
	case 3:
		ib, what = make([]byte, len(ib)), "zero"
	case 4:
		ib, what = r.Bytes(len(ib)), "noise"
	case 5:
		wipe(7, r.N(3))
		what = "dictionary header lost"
	case 6, 7:
		no := []int{8, 10, 11, 12}[r.N(4)]
		kind := r.N(5)
		if kind == 3 || kind == 4 {
			kind = 2
		}
		wipe(no, kind)
		what = fmt.Sprintf("root page %d lost", no)
	case 8:
		if len(in.Tab) > 0 && !bytes.Equal(in.Tab, in.Ib) {
			ib, what = append([]byte{}, in.Tab...), "a table's file"
		} else if len(in.Redo) > 0 {
			ib, what = append([]byte{}, in.Redo[0]...), "a log file"
		} else {
			ib, what = r.Bytes(len(ib)), "noise"
		}
	}
	in.Ib = ib
	return what
}

// otherEntries damages bytes of dictionary rows of other tables. It returns
// nothing if the damaged rows might pass for rows of this table.
func otherEntries(r *Rng, w *World, in *Input, t *Table, n int) int {
	mine := map[uint64]bool{}
	for _, id := range t.indexID {
		mine[id] = true
	}
	type place struct{ from, to int }
	var all []place
	for ti, tr := range w.dt[:4] {
		for _, l := range tr.leaves {
			for _, rec := range l.recs {
				k, ok := rec.dict.(dictKey)
				if !ok || rec.marked {
					continue
				}
				own := false
				switch ti {
				case 0, 1, 2:
					own = k.table == t.id
				case 3:
					own = mine[k.id]
				}
				if own {
					continue
				}
				all = append(all, place{int(l.no)*pageSize + rec.start, int(l.no)*pageSize + rec.start + rec.size})
				// (the origin splits it: the header has the link)
				all[len(all)-1].from = int(l.no)*pageSize + rec.start
				_ = tr
			}
		}
	}
	if len(all) == 0 {
		return 0
	}
	origins := map[int]int{}
	for _, tr := range w.dt[:4] {
		for _, l := range tr.leaves {
			for _, rec := range l.recs {
				origins[int(l.no)*pageSize+rec.start] = int(l.no)*pageSize + rec.origin
			}
		}
	}
	ib := append([]byte{}, in.Ib...)
	hit := 0
	for ; n > 0; n-- {
		p := all[r.N(len(all))]
		o := origins[p.from]
		before := append([]byte{}, ib[p.from:p.to]...)
		put := func(at int, v byte) {
			if at >= p.from && at < p.to && at != o-1 && at != o-2 {
				ib[at] = v
			}
		}
		switch r.N(7) {
		case 0:
			put(p.from+r.N(p.to-p.from), byte(r.U64()))
		case 6: // one bit, most often the one that makes a field NULL
			at := p.from + r.N(max(1, o-6-p.from))
			if r.P(20) {
				at = p.from + r.N(p.to-p.from)
			}
			put(at, ib[at]^1<<uint([]int{7, 7, 7, r.N(8)}[r.N(4)]))
		case 1: // the ends of its fields
			for k := r.R(1, 4); k > 0; k-- {
				put(p.from+r.N(max(1, o-6-p.from)), []byte{0, 0xff, 0x7f, 0x80, byte(r.U64())}[r.N(5)])
			}
		case 2: // heap number, field count, info bits
			put(o-6+r.N(4), []byte{0, 0xff, byte(r.U64())}[r.N(3)])
		case 3:
			v := []byte{0, 0xff, byte(r.U64())}[r.N(3)]
			for at := o; at < p.to; at++ {
				put(at, v)
			}
		case 4:
			for at := p.from; at < p.to; at++ {
				put(at, byte(r.U64()))
			}
		case 5:
			a := o + r.N(p.to-o)
			for at := a; at < a+r.R(1, 12); at++ {
				put(at, byte(r.U64()))
			}
		}
		// could it be taken for one of ours?
		bad := false
		b := ib[p.from:min(len(ib), p.to+600)]
		if bytes.Contains(b[:p.to-p.from], t.dictName()) {
			bad = true
		}
		for i := 0; i+8 <= p.to-p.from; i++ {
			v := be(b[i : i+8])
			if v == t.id || mine[v] {
				bad = true
			}
		}
		if bad {
			copy(ib[p.from:p.to], before)
			continue
		}
		if !bytes.Equal(before, ib[p.from:p.to]) {
			hit++
		}
	}
	in.Ib = ib
	return hit
}

func checkC19(e *Env, c *Case) *Viol {
	if len(c.N) < 2 {
		return nil
	}
	c.Spec.FlushDict = true
	w, cap := e.world(c)
	r := NewRng(uint64(c.N[0]))
	for _, t := range chosen(c, cap) {
		in := &Input{Ib: cap.Ibdata, Tab: t.Data, Mode: c.Mode, DB: t.DB, Table: t.Name}
		if c.Mode == "redo" {
			in.Tab, in.DB, in.Table = nil, "", ""
			in.Redo = frameFiles(&c.Fr, w.log.blocks(&c.Fr, 0))
		}
		what := c.Variant
		damaged := false
		switch c.Variant {
		case "absent":
			in.DB, in.Table = absentName(r, w, t)
			what = fmt.Sprintf("asked for %q.%q", in.DB, in.Table)
		case "gone":
			what = ruin(r, in)
		case "lost pages":
			ib := append([]byte{}, in.Ib...)
			what = "pages lost:"
			for k := 1 + r.N(3); k > 0; k-- {
				tr := w.dt[r.N(4)]
				l := tr.leaves[r.N(len(tr.leaves))]
				if r.P(10) {
					l = tr.root
				}
				b := ib[int(l.no)*pageSize : (int(l.no)+1)*pageSize]
				switch r.N(4) {
				case 0:
					copy(b, make([]byte, pageSize))
				case 1:
					copy(b, r.Bytes(pageSize))
				case 2: // what is there belongs elsewhere
					o := r.N(len(ib) / pageSize)
					if o != int(l.no) {
						copy(b, ib[o*pageSize:(o+1)*pageSize])
					}
				case 3:
					if l.no > 12 {
						ib = ib[:int(l.no)*pageSize]
					}
				}
				what += fmt.Sprint(" ", l.no)
				if int(l.no)*pageSize >= len(ib) {
					break
				}
			}
			in.Ib = ib
		case "other entries":
			n := otherEntries(r, w, in, t.T, 1+int(c.N[1])/2)
			if n == 0 {
				continue
			}
			damaged = true
			what = fmt.Sprintf("%d damaged rows of other tables", n)
		case "rot":
			ib := in.Ib
			for k := 1 + r.N(6); k > 0; k-- {
				tr := w.dt[r.N(4)]
				l := tr.leaves[r.N(len(tr.leaves))]
				d := pageDamage(r)
				d.Off = d.Off%pageSize + int64(l.no)*pageSize
				ib = d.apply(ib)
			}
			in.Ib = ib
		}
		res := e.exec(c, in, func(r *Run) { r.WantLog = true })
		if v := broken(res); v != nil {
			return viol(v.Kind, "%s: %s", what, v.Text)
		}
		if res.Flags&flFsOver != 0 {
			continue
		}
		e.probe("dictionary trouble: " + c.Variant + " " + c.Mode)
		e.mark(mix(fnv(in.Ib) ^ hashStr(in.DB+"/"+in.Table+c.Mode) ^ cap.Hash))
		if c.Variant == "rot" {
			continue
		}
		out := parseOutput(res.Stdout)
		said := res.Exit != 0 || len(res.Stderr) > 0 || warnings(res) > 0
		if c.Mode == "redo" {
			if !said {
				return viol("silent", "%s: the run ends like a complete one", what)
			}
			continue
		}
		must, may := t.expect(c.Mode == "recover")
		if c.Variant == "absent" {
			must, may = nil, nil
		}
		if damaged {
			if v := compareRows(out, t.DB, t.Name, t.T.spec.Cols, must, may); v != nil {
				return viol(v.Kind, "%s: %s", what, v.Text)
			}
			if len(must) > 0 {
				e.probe("rows recovered beside damaged entries")
			}
			continue
		}
		if len(res.Stdout) == 0 {
			if c.Variant != "lost pages" && !said {
				return viol("silent", "%s: the run ends like a complete one", what)
			}
			if !said && len(must) > 0 {
				return viol("silent", "%s: %d rows lost without a word", what, len(must))
			}
			continue
		}
		if c.Variant == "absent" {
			return viol("statement", "%s: prints %s", what, clip(string(res.Stdout), 300))
		}
		// what is left of the dictionary was enough: then it must be right
		if v := compareRows(out, t.DB, t.Name, t.T.spec.Cols, must, may); v != nil {
			return viol(v.Kind, "%s: %s", what, v.Text)
		}
		e.probe("enough left of the dictionary")
	}
	return nil
}

func init() {
	register(&Prop{ID: "C18", Gen: genC18, Check: checkC18,
		Rule:  "one evaluation: one hostile input (record chains that loop or visit every byte of a page, fields that lie, log records with absurd lengths, very many or very wide tables) at three sizes, steps of the program (function entries and loop iterations) and bytes allocated counted; distinct by input files",
		Probe: []string{"hostile input: pages", "hostile input: dict", "hostile input: log", "hostile input: stream", "hostile input: tables", "hostile input: wide", "hostile input: lies", "hostile input: long"}})
	register(&Prop{ID: "C19", Gen: genC19, Check: checkC19,
		Rule:  "one evaluation: recovery of a table under a name the dictionary does not hold, or with a dictionary that is missing, cut, wiped or has lost pages, or with damaged entries of other tables; distinct by input files and name",
		Probe: []string{"dictionary trouble: absent print", "dictionary trouble: gone print", "dictionary trouble: gone redo", "dictionary trouble: lost pages print", "dictionary trouble: other entries print", "rows recovered beside damaged entries", "enough left of the dictionary"}})
}
