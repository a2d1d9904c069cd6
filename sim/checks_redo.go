package main

import (
	"fmt"
	"sort"
	"strings"
)

// Checks of the redo mode.

func randFraming(r *Rng) Framing {
	f := Framing{Seed: r.U64(), Files: r.R(1, 3), Spare: []int{0, 1, 3, 9}[r.N(4)]}
	if r.P(5) {
		f.Files = r.R(4, 12)
	}
	f.FirstNo = uint32(r.R(1, 1<<20))
	switch r.N(6) {
	case 0:
		f.FirstNo = 1
	case 1:
		f.FirstNo = uint32(0x40000000 - r.N(12)) // the block number wraps
	}
	f.Creator = []string{"", "MySQL 5.7.30", "", "MEB 4.1.0", "ibbackup 12345678901234567890123"}[r.N(5)]
	return f
}

// genRedo makes a case for the redo mode.
func genRedo(r *Rng, o GenOpts) *Case {
	c := &Case{Mode: "redo", Level: pickLevel(r)}
	o.Redo = true
	c.Spec = genSpec(r, o)
	c.Spec.FlushDict = true // the dictionary on disk is the current one
	if r.N(1000) < 12 {
		// a busy server
		at := r.N(len(c.Spec.Ops)) + 1
		big := []Op{{K: "upd", T: r.N(len(c.Spec.Tables)), A: r.R(200, 3000), S: r.U64()}}
		if r.P(50) {
			big = append(big, Op{K: "noi", A: r.R(500, 8000), S: r.U64()}, Op{K: "upd", T: r.N(len(c.Spec.Tables)), A: r.R(1, 300), S: r.U64()})
		}
		c.Spec.Ops = append(append(append([]Op{}, c.Spec.Ops[:at]...), big...), c.Spec.Ops[at:]...)
	}
	if r.P(60) {
		// not interested in page flushes and splits
		for i := range c.Spec.Tables {
			if r.P(60) {
				c.Spec.Tables[i].Cap = 400
			}
		}
	}
	c.Fr = randFraming(r)
	return c
}

// redoWorld builds the database with its log; the minimiser may remove
// FlushDict's effect by nothing.
func (e *Env) redoWorld(c *Case) (*World, *Capture) {
	c.Spec.FlushDict = true
	w, cap := e.world(c)
	for k, n := range w.log.kinds {
		e.probeN(fmt.Sprintf("log record type %d", k), n)
	}
	if r := NewRng(hashSeed(c.Seed, 36)); r.P(40) && len(w.log.data) > 0 {
		w.log = w.log.behind(r.N(496), r)
		e.probe("log starts inside a record group")
	}
	e.probeN("updates logged", len(w.log.upds))
	e.probeN("log blocks", (len(w.log.data)+495)/496)
	return w, cap
}

func (e *Env) redoOut(c *Case, cap *Capture, files [][]byte, db, table string, mod func(*Run)) (*Result, *Output, *Viol) {
	in := &Input{Ib: cap.Ibdata, Redo: files, Mode: "redo", DB: db, Table: table, SelDB: db != "", SelT: table != ""}
	res := e.exec(c, in, mod)
	if v := broken(res); v != nil {
		return res, nil, v
	}
	out := parseOutput(res.Stdout)
	e.st.Stmts += len(out.Stmts)
	return res, out, nil
}

// boundary picks a place in the log stream, most often in or next to an update
// undo record.
func (l *LogStream) boundary(r *Rng) int {
	n := len(l.data)
	if n == 0 {
		return 0
	}
	p := r.N(n + 1)
	if len(l.upds) > 0 && r.P(75) {
		u := l.upds[r.N(len(l.upds))]
		switch r.N(5) {
		case 0:
			p = u.End - 1 - r.N(3)
		case 1:
			p = u.End + r.N(3)
		case 2:
			p = u.Start + r.N(4)
		default:
			p = u.Start + r.N(u.End-u.Start)
		}
	} else if len(l.recs) > 0 && r.P(30) {
		p = l.recs[r.N(len(l.recs))] + r.N(4)
	} else if r.P(30) {
		p = p / 496 * 496
	}
	if p < 0 {
		p = 0
	}
	if p > n {
		p = n
	}
	return p
}

func (l *LogStream) within(from, to int) (o []*Upd) {
	for _, u := range l.upds {
		if u.Start >= from && u.End <= to {
			o = append(o, u)
		}
	}
	return
}

// runOf gives the updates a run of consecutive blocks holds from its first
// whole record group on.
func (l *LogStream) runOf(from, to int) []*Upd {
	i := sort.SearchInts(l.starts, from)
	if i == len(l.starts) || l.starts[i] >= to {
		return nil
	}
	return l.within(l.starts[i], to)
}

func checkC05(e *Env, c *Case) *Viol {
	w, cap := e.redoWorld(c)
	files := frameFiles(&c.Fr, w.log.blocks(&c.Fr, 0))
	_, out, v := e.redoOut(c, cap, files, "", "", nil)
	if v != nil {
		return v
	}
	want := w.expectRedo(w.log.upds, "", "")
	if len(want) > 0 {
		e.mark(mix(cap.Hash ^ fnv(w.log.data)))
		e.probeN("updates expected", len(want))
	}
	return compareRedo(w, out, want, false)
}

// selection gives the database and table names of a C06 case.
func selection(c *Case, w *World) (db, tb string) {
	r := NewRng(hashSeed(c.Seed, 31))
	db, tb = dbNames[r.N(len(dbNames))], tblNames[r.N(len(tblNames))]
	if n := len(w.order); n > 0 {
		if r.P(80) {
			db = w.order[r.N(n)].db
		}
		if r.P(80) {
			tb = w.order[r.N(n)].nm
		}
	}
	return
}

func raws(o *Output, db, tb string) (l []string) {
	for _, s := range o.Stmts {
		if (db == "" || s.DB == db) && (tb == "" || s.Table == tb) {
			l = append(l, s.Raw)
		}
	}
	return
}

func firstDiff(a, b []string) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func at(a []string, i int) string {
	if i < len(a) {
		return clip(a[i], 300)
	}
	return "(nothing)"
}

func checkC06(e *Env, c *Case) *Viol {
	w, cap := e.redoWorld(c)
	files := frameFiles(&c.Fr, w.log.blocks(&c.Fr, 0))
	_, all, v := e.redoOut(c, cap, files, "", "", nil)
	if v != nil {
		return v
	}
	if v := compareRedo(w, all, w.expectRedo(w.log.upds, "", ""), false); v != nil {
		return viol("unfiltered: "+v.Kind, "%s", v.Text)
	}
	db, tb := selection(c, w)
	for i, s := range [][2]string{{db, tb}, {db, ""}, {"", tb}} {
		if len(c.N) > 0 && int64(i) != c.N[0] {
			continue
		}
		_, out, v := e.redoOut(c, cap, files, s[0], s[1], nil)
		if v != nil {
			return v
		}
		want := raws(all, s[0], s[1])
		got := raws(out, "", "")
		if len(want) > 0 && len(want) < len(all.Stmts) {
			e.mark(mix(cap.Hash ^ fnv(w.log.data) ^ uint64(i)))
			e.probe([]string{"real selection by database and table", "real selection by database", "real selection by table"}[i])
		}
		if d := firstDiff(want, got); d < len(want) || d < len(got) {
			return viol("selection", "selecting database %q and table %q: statement %d should be %s, is %s", s[0], s[1], d+1, at(want, d), at(got, d))
		}
		if len(out.Bad) > 0 || len(out.Junk) > 0 {
			return viol("not a statement", "%v %v", out.Bad, out.Junk)
		}
	}
	return nil
}

// cutLog gives the files with the log ending early, and the length of the
// stream that survives.
func cutLog(c *Case, w *World) ([][]byte, int) {
	r := NewRng(hashSeed(c.Seed, 32))
	l := w.log
	full := l.data
	switch c.Variant {
	case "stream": // the log writer got this far
		p := l.boundary(r)
		cut := *l
		cut.data = full[:p]
		cut.marks = nil
		return frameFiles(&c.Fr, cut.blocks(&c.Fr, 0)), p
	case "blocks": // whole blocks never reached the disk
		b := l.blocks(&c.Fr, 0)
		k := l.boundary(r) / 496
		for i := k; i < len(b); i++ {
			b[i].raw = make([]byte, 512)
		}
		p := k * 496
		if p > len(full) {
			p = len(full)
		}
		return frameFiles(&c.Fr, b), p
	}
	// a file shorter than it was: the last one
	b := l.blocks(&c.Fr, 0)
	f := c.Fr
	f.Spare = 0
	files := frameFiles(&f, b)
	p := l.boundary(r)
	k, o := p/496, p%496
	n := f.Files
	if n < 1 {
		n = 1
	}
	per := (len(b) + n - 1) / n
	if per == 0 {
		return files, 0
	}
	fi := k / per
	if fi >= n {
		fi = n - 1
	}
	off := 2048 + 512*(k-fi*per) + 12 + o
	switch {
	case r.P(10):
		off -= r.N(13) + o // in the block header
	case r.P(5):
		off = r.N(2049)
	case r.P(10):
		off = 2048 + 512*(k-fi*per) + 508 + r.N(4)
	}
	if off > len(files[fi]) {
		off = len(files[fi])
	}
	files[fi] = files[fi][:off]
	files = files[:fi+1]
	got := fi * per * 496
	if off > 2048 {
		q := (off - 2048) / 512
		rest := (off-2048)%512 - 12
		if rest < 0 {
			rest = 0
		}
		if rest > 496 {
			rest = 496
		}
		got += q*496 + rest
	}
	if got > len(full) {
		got = len(full)
	}
	return files, got
}

func checkC07(e *Env, c *Case) *Viol {
	w, cap := e.redoWorld(c)
	files, n := cutLog(c, w)
	_, out, v := e.redoOut(c, cap, files, "", "", nil)
	if v != nil {
		return v
	}
	want := w.expectRedo(w.log.within(0, n), "", "")
	e.probe("log cut: " + c.Variant)
	if n > 0 && n < len(w.log.data) {
		e.mark(mix(fnv(w.log.data) ^ uint64(n)<<20 ^ hashStr(c.Variant)))
		for _, u := range w.log.upds {
			if u.Start < n && n < u.End {
				e.probe("cut inside an update undo record")
			}
		}
	}
	if v := compareRedo(w, out, want, false); v != nil {
		return viol(v.Kind, "log of %d bytes cut after %d (%s): %s", len(w.log.data), n, c.Variant, v.Text)
	}
	return nil
}

// ring lays the blocks out as the circular log does, with blocks of the pass
// before behind the newest.
func ring(c *Case, l *LogStream) (_ *LogStream, files [][]byte, upds [][2]int) {
	r := NewRng(hashSeed(c.Seed, 33))
	b := l.blocks(&c.Fr, 0)
	n := c.Fr.Files
	if n < 1 {
		n = 1
	}
	size := r.R(1, len(b)+1)
	if r.P(60) && len(b) > 2 {
		size = r.R(len(b)/2, len(b))
	}
	if x := r.N(100); x < 40 && len(l.upds) > 0 {
		// what is left starts with the block of some record group, which lies at
		// some place of interest in it
		s := l.upds[r.N(len(l.upds))].Start
		if i := sort.SearchInts(l.starts, s+1); i > 0 {
			s = l.starts[i-1]
		}
		o := []int{495, 495, 494, 480, 0, 1, r.N(496)}[r.N(7)]
		l = l.behind((o-s%496+496)%496, r)
		s += (o - s%496 + 496) % 496
		b = l.blocks(&c.Fr, 0)
		n = 1
		size = len(b) - s/496
	} else if x < 60 && len(b) > 2 {
		// the newest block has just been started
		b = b[:r.R(1, len(b)-1)]
		last := b[len(b)-1]
		e := logBlock{no: blockNo(last.no + 1), from: last.from + len(last.data), raw: make([]byte, 512)}
		put4(e.raw, e.no)
		put2(e.raw[4:], 12)
		put2(e.raw[6:], 12*r.N(2))
		b = append(b, &e)
		size = r.R(1, len(b))
	}
	size = (size + n - 1) / n * n
	slot := make([]*logBlock, size)
	first := r.N(size)
	for i, x := range b {
		slot[(first+i)%size] = x
	}
	var rows []*logBlock
	for _, x := range slot {
		rows = append(rows, x)
	}
	if d := uint32(1) << []uint{8, 12, 15, 16, 20, 24, 29}[r.N(7)]; len(b) >= size && int(d) > size && r.P(25) {
		// a much larger log: behind the newest block lies one whose number is
		// the next but for one bit
		for i := (first+len(b)-1)%size + 1; i < size; i++ {
			x := *rows[i]
			x.no = blockNo(x.no - d + uint32(size) + 0x40000000)
			x.raw = append([]byte(nil), x.raw...)
			put4(x.raw, x.no|uint32(x.raw[0])>>7<<31)
			put4(x.raw[508:], crcBlock(x.raw))
			rows[i] = &x
			l.w.stat("ring_numbers_alike")
		}
	}
	per := size / n
	for f := 0; f < n; f++ {
		h := logHeader(r, "MySQL 5.7.19", 8192)
		for i := f * per; i < (f+1)*per; i++ {
			if rows[i] == nil {
				h = append(h, make([]byte, 512)...)
			} else {
				h = append(h, rows[i].raw...)
			}
		}
		files = append(files, h)
	}
	// runs of consecutive blocks in file order; a block never written ends its file
	i := 0
	for f := 0; f < n; f++ {
		for i < (f+1)*per && rows[i] != nil {
			x := rows[i]
			from, to := x.from, x.from+len(x.data)
			if k := len(upds); k > 0 && upds[k-1][1] == from && i > 0 {
				upds[k-1][1] = to
			} else {
				upds = append(upds, [2]int{from, to})
			}
			i++
		}
		i = (f + 1) * per
	}
	return l, files, upds
}

// breaks lays the blocks out in many short runs: files are missing or in
// another order, blocks lost or of another age.
func breaks(c *Case, l *LogStream) (_ *LogStream, files [][]byte, runs [][2]int) {
	r := NewRng(hashSeed(c.Seed, 36))
	lay := *l
	if r.P(50) {
		lay.fill = r.R(1, []int{40, 200, 496}[r.N(3)])
	}
	b := lay.blocks(&c.Fr, 0)
	most := []int{1, 2, 5, 20}[r.N(4)]
	lost := []int{0, 0, 20, 60}[r.N(4)]
	var pieces [][]*logBlock
	for i := 0; i < len(b); {
		n := min(r.R(1, most), len(b)-i)
		if !r.P(lost) {
			pieces = append(pieces, b[i:i+n])
		}
		i += n
	}
	if r.P(30) {
		for i := range pieces {
			j := i + r.N(len(pieces)-i)
			pieces[i], pieces[j] = pieces[j], pieces[i]
		}
	}
	var rows []*logBlock
	next := uint32(0)
	for _, x := range pieces {
		no := blockNo(uint32(r.N(1 << 30)))
		if r.P(50) && next > 0 {
			// one of a number close by, the same one again, or one bit off
			no = blockNo([]uint32{next + 1, next + 0x3fffffff - 1, next + 0x40000000 - 2, next ^ 1<<uint(r.N(30))}[r.N(4)])
		}
		if no == next {
			no = blockNo(no + 1)
		}
		runs = append(runs, [2]int{x[0].from, x[len(x)-1].from + len(x[len(x)-1].data)})
		for _, y := range x {
			z := *y
			z.raw = append([]byte(nil), y.raw...)
			z.no = no
			put4(z.raw, no|uint32(y.raw[0])>>7<<31)
			put4(z.raw[508:], crcBlock(z.raw))
			rows = append(rows, &z)
			no = blockNo(no + 1)
		}
		next = no
	}
	n := 1
	if r.P(60) && len(rows) > 0 {
		n = r.R(1, min(len(rows), 100))
	}
	for i := 0; i < n; i++ {
		h := logHeader(r, "MySQL 5.7.19", 8192)
		for _, x := range rows[i*len(rows)/n : (i+1)*len(rows)/n] {
			h = append(h, x.raw...)
		}
		files = append(files, h)
	}
	return l, files, runs
}

func checkC08(e *Env, c *Case) *Viol {
	w, cap := e.redoWorld(c)
	l := w.log
	if c.Variant == "ring" || c.Variant == "breaks" {
		if len(l.data) == 0 {
			return nil
		}
		lay := ring
		if c.Variant == "breaks" {
			lay = breaks
		}
		l, files, runs := lay(c, l)
		if len(runs) == 0 {
			return nil
		}
		var upds []*Upd
		for _, x := range runs {
			upds = append(upds, l.runOf(x[0], x[1])...)
		}
		_, out, v := e.redoOut(c, cap, files, "", "", nil)
		if v != nil {
			return v
		}
		if k := len(runs); k > 2 {
			e.probe("many runs of blocks")
		} else {
			e.probe(fmt.Sprintf("%d runs of blocks", k))
		}
		want := w.expectRedo(upds, "", "")
		if len(runs) > 1 && len(want) > 0 {
			e.mark(mix(fnv(l.data) ^ uint64(len(files[0])) ^ uint64(runs[0][0])<<32))
			if len(l.upds) > len(upds) {
				e.probe("updates overwritten by the circular log")
			}
		}
		if v := compareRedo(w, out, want, false); v != nil {
			return viol(v.Kind, "log of %d files, runs %v of the stream: %s", len(files), runs, v.Text)
		}
		return nil
	}
	var ref []string
	for i := 0; i < 3; i++ {
		r := NewRng(hashSeed(c.Seed, 34, uint64(i)))
		f := c.Fr
		if i > 0 {
			f = randFraming(r)
			f.Files = 1 + r.N(4)
		}
		lay := *l
		if i == 2 {
			// other flush points and blocks that were closed early
			lay.marks = nil
			for k := r.N(20); k > 0 && len(l.data) > 0; k-- {
				lay.marks = append(lay.marks, r.N(len(l.data)))
			}
			lay.fill = r.R(1, 496)
		}
		_, out, v := e.redoOut(c, cap, frameFiles(&f, lay.blocks(&f, 0)), "", "", nil)
		if v != nil {
			return v
		}
		if i == 0 {
			if v := compareRedo(w, out, w.expectRedo(l.upds, "", ""), false); v != nil {
				return viol("first layout: "+v.Kind, "%s", v.Text)
			}
			ref = raws(out, "", "")
			continue
		}
		got := raws(out, "", "")
		if len(ref) > 0 {
			e.mark(mix(fnv(l.data) ^ hashSeed(c.Seed, uint64(i))))
		}
		if d := firstDiff(ref, got); d < len(ref) || d < len(got) {
			return viol("layout", "the same records in another layout (%d files, first block %d): statement %d was %s, is %s", f.Files, f.FirstNo, d+1, at(ref, d), at(got, d))
		}
		if len(out.Bad)+len(out.Junk) > 0 {
			return viol("not a statement", "%v %v", out.Bad, out.Junk)
		}
	}
	return nil
}

// genLogDamage damages the log from some byte on.
func genLogDamage(r *Rng, c *Case) {
	w := simulate(&c.Spec)
	c.Fr.Spare = r.N(2)
	b := w.log.blocks(&c.Fr, 0)
	files := frameFiles(&c.Fr, b)
	total := len(b)
	if total == 0 {
		return
	}
	per := (total + c.Fr.Spare + len(files) - 1) / len(files)
	k := r.N(total)
	if len(w.log.upds) > 0 && r.P(70) {
		k = w.log.upds[r.N(len(w.log.upds))].Start / 496
	}
	c.N = []int64{int64(k)}
	if r.P(12) && len(w.log.recs) > 0 {
		// the log ends inside a record, and the last bytes of what is left lie
		q := w.log.recs[r.N(len(w.log.recs))] + r.N(r.N(40)+2)
		n := r.R(1, 5)
		q = min(q, len(w.log.data)-n)
		q = min(q, q/496*496+496-n)
		k := q / 496
		c.N[0] = int64(k)
		at := func(k, o int) (string, int64) {
			return fmt.Sprintf("redo%d", k/per), int64(2048 + 512*(k%per) + o)
		}
		f, off := at(k, 12+q%496)
		c.Dmg = append(c.Dmg, Damage{File: f, Kind: "set", Off: off, Len: int64(n), S: []uint64{0xffffffff, 0xf0f0f0f0, 0xf0f0f0f0, 0xe0e0e0e0, 0xc0c0c0c0, 0x80808080, r.U64()}[r.N(7)]})
		f, off = at(k, 4)
		c.Dmg = append(c.Dmg, Damage{File: f, Kind: "set", Off: off, Len: 2, S: uint64(12 + q%496 + n)})
		if k+1 < total {
			f, off = at(k+1, 0)
			c.Dmg = append(c.Dmg, Damage{File: f, Kind: "zero", Off: off, Len: 512})
		}
		return
	}
	n := 1 + r.N(4)
	for i := 0; i < n; i++ {
		kk := k
		if i > 0 || r.P(20) {
			kk = k + r.N(min(total-k, 6))
		}
		fi := kk / per
		off := 2048 + 512*(kk-fi*per)
		d := Damage{File: fmt.Sprintf("redo%d", fi), S: r.U64()}
		switch r.N(9) {
		case 0: // a block number or length that lies
			d.Kind, d.Off, d.Len = "set", int64(off+4), 2
			d.S = []uint64{0, 1, 11, 12, 13, 511, 512, 513, 0x7fff, 0xffff, uint64(r.N(65536))}[r.N(11)]
		case 1:
			d.Kind, d.Off, d.Len = "set", int64(off+6), 2
			d.S = []uint64{0, 12, 511, 512, 0xffff, uint64(r.N(600))}[r.N(6)]
		case 2: // bit rot
			d.Kind, d.Off = "flip", int64(off+r.N(512))
		case 3:
			d.Kind, d.Off, d.Len = "rand", int64(off+12+r.N(496)), int64(r.R(1, 40))
		case 4: // sector lost
			d.Kind, d.Off, d.Len = []string{"zero", "ones", "rand", "swap"}[r.N(4)], int64(off), 512
		case 5:
			d.Kind, d.Off, d.Len = "rand", int64(off+12), int64(512*r.R(1, 20)-12)
		case 6: // lengths of all ones
			d.Kind, d.Off, d.Len = []string{"ones", "zero"}[r.N(2)], int64(off+12+r.N(490)), int64(r.R(1, 9))
		case 7: // a field inside an update undo record
			d.Kind, d.Off, d.Len = "set", int64(off+12+r.N(490)), int64(r.R(1, 4))
			if len(w.log.upds) > 0 {
				for try := 0; try < 20; try++ {
					u := w.log.upds[r.N(len(w.log.upds))]
					p := u.Start + r.N(min(24, u.End-u.Start))
					if p/496 >= k {
						fi = p / 496 / per
						d.File = fmt.Sprintf("redo%d", fi)
						d.Off = int64(2048 + 512*(p/496-fi*per) + 12 + p%496)
						break
					}
				}
			}
			d.S = []uint64{0, 0xffffffff, 0xf0f0f0f0, 0x7f7f7f7f, 0x80808080, r.U64()}[r.N(6)]
		case 8: // record types and lengths out of order
			d.Kind, d.Off, d.Len = "set", int64(off+12+r.N(480)), 1
			d.S = []uint64{20, 31, 17, 45, 41, 13, 38, 52, 56, 0x94, 58, 255, 47, 51}[r.N(14)]
		}
		if d.Off < int64(off) && kk == k {
			d.Off = int64(off)
		}
		c.Dmg = append(c.Dmg, d)
	}
}

// applyDamage changes the files of an input.
func (in *Input) applyDamage(c *Case) {
	for _, d := range c.Dmg {
		switch {
		case d.File == "ibdata1":
			in.Ib = d.apply(in.Ib)
		case d.File == "table":
			in.Tab = d.apply(in.Tab)
		case strings.HasPrefix(d.File, "redo"):
			var i int
			fmt.Sscan(d.File[4:], &i)
			if i < len(in.Redo) {
				in.Redo[i] = d.apply(in.Redo[i])
			}
		}
	}
}

func checkC12(e *Env, c *Case) *Viol {
	w, cap := e.redoWorld(c)
	files := frameFiles(&c.Fr, w.log.blocks(&c.Fr, 0))
	// the first damaged block, from what really differs
	in := &Input{Redo: append([][]byte{}, files...)}
	in.applyDamage(c)
	bad := len(w.log.data)
	per := (len(w.log.data)+495)/496 + c.Fr.Spare
	n := len(files)
	per = (per + n - 1) / n
	for f := range files {
		for i := range files[f] {
			if i >= len(in.Redo[f]) || in.Redo[f][i] != files[f][i] {
				k := f * per
				if i > 2048 {
					k += (i - 2048) / 512
				}
				if k*496 < bad {
					bad = k * 496
				}
				break
			}
		}
	}
	res, out, v := e.redoOut(c, cap, in.Redo, "", "", nil)
	if v != nil {
		return v
	}
	_ = res
	want := w.expectRedo(w.log.within(0, bad), "", "")
	e.probe("damaged logs")
	if bad < len(w.log.data) {
		e.mark(mix(fnv(in.Redo[0]) ^ uint64(bad)))
		if len(want) > 0 {
			e.probe("damage behind updates")
		}
	}
	if v := compareRedo(w, out, want, true); v != nil {
		return viol(v.Kind, "log damaged from byte %d of its %d on: %s", bad, len(w.log.data), v.Text)
	}
	return nil
}

func init() {
	redoProbes := []string{"updates logged", "updates expected"}
	register(&Prop{
		ID: "C05",
		Gen: func(r *Rng, e *Env, i int) *Case {
			return genRedo(r, GenOpts{Tables: 3, MaxCols: 8, Ops: 50, Red: 30, NoPK: 6, Update: true, DDL: []int{0, 0, 0, 6}[r.N(4)]})
		},
		Check: checkC05,
		Rule:  "one evaluation: a seeded history of transactions over 1-3 random tables whose log records (all types of the 5.6/5.7 log, undo records of every kind, single and in groups) are framed into blocks and files, then redo recovery; non-trivial if the log holds at least one update of a table in the dictionary; distinct by hash of log stream and dictionary",
		Probe: append(redoProbes, "log record type 20", "log record type 34", "log record type 44", "log record type 8", "log record type 45"),
	})
	register(&Prop{
		ID: "C06",
		Gen: func(r *Rng, e *Env, i int) *Case {
			return genRedo(r, GenOpts{Tables: 5, MaxCols: 4, Ops: 40, Red: 20, NoPK: 4, Update: true, SameName: true, DDL: []int{0, 0, 6}[r.N(3)]})
		},
		Check: checkC06,
		Rule:  "one evaluation: a seeded history over up to 5 tables, several of the same name or the same database, then redo recovery with no selection, database, table, and both; non-trivial if a selection keeps some and drops some statements",
		Probe: []string{"real selection by database and table", "real selection by database", "real selection by table"},
	})
	register(&Prop{
		ID: "C07",
		Gen: func(r *Rng, e *Env, i int) *Case {
			c := genRedo(r, GenOpts{Tables: 2, MaxCols: 7, Ops: 30, Red: 30, NoPK: 4, Update: true})
			c.Variant = []string{"stream", "stream", "blocks", "file", "file"}[r.N(5)]
			return c
		},
		Check: checkC07,
		Rule:  "one evaluation: a seeded history, its log cut off at one byte: of the record stream as the log writer left it, at a block that never reached the disk, or of the file; non-trivial if the cut is inside the log; distinct by stream and cut",
		Probe: []string{"log cut: stream", "log cut: blocks", "log cut: file", "cut inside an update undo record"},
	})
	register(&Prop{
		ID: "C08",
		Gen: func(r *Rng, e *Env, i int) *Case {
			c := genRedo(r, GenOpts{Tables: 3, MaxCols: 6, Ops: 40, Red: 30, NoPK: 4, Update: true})
			c.Variant = []string{"ring", "ring", "layouts", "breaks"}[r.N(4)]
			return c
		},
		Check: checkC08,
		Rule:  "one evaluation: a seeded history whose log stream is framed three times differently (block numbers, flush points, fill, files), or laid out in a circular log that has overwritten its beginning, or in many short runs; non-trivial if updates survive behind a break or in a second layout",
		Probe: []string{"1 runs of blocks", "2 runs of blocks", "many runs of blocks", "updates overwritten by the circular log"},
	})
	register(&Prop{
		ID: "C12",
		Gen: func(r *Rng, e *Env, i int) *Case {
			c := genRedo(r, GenOpts{Tables: 2, MaxCols: 6, Ops: 30, Red: 30, NoPK: 4, Update: true})
			genLogDamage(r, c)
			return c
		},
		Check: checkC12,
		Rule:  "one evaluation: a seeded history whose log files are damaged from a random block on (bit flips, lost, torn or misdirected sectors, lying lengths and types); non-trivial if bytes of the log proper differ; distinct by damaged content",
		Probe: []string{"damaged logs", "damage behind updates"},
	})
}
