package main

import (
	"bytes"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"
)

// Checks that compare a disturbed run with an undisturbed one.

// genAny makes a small case in any of the three modes.
func genAny(r *Rng, levels []string) *Case {
	o := GenOpts{Tables: 3, MaxCols: 5, Ops: 25, Red: 35, NoPK: 8, Small: r.P(50)}
	var c *Case
	if r.P(40) {
		o.Update = true
		c = genRedo(r, o)
		c.Slots = []int{r.N(len(c.Spec.Tables))}
		if r.P(30) {
			c.Variant = []string{"db", "table", "both"}[r.N(3)]
		}
	} else {
		c = &Case{Mode: []string{"print", "recover"}[r.N(2)]}
		c.Spec = genSpec(r, o)
		c.Slots = []int{r.N(len(c.Spec.Tables))}
	}
	c.Level = pickLevel(r)
	if levels != nil {
		c.Level = levels[r.N(len(levels))]
	}
	if r.P(50) {
		c.LogPath = "/sim/log"
	}
	return c
}

// input builds the files of a case; nil if the table asked for is not there.
func (e *Env) input(c *Case) (*World, *Capture, *CapTable, *Input) {
	if c.Mode == "redo" {
		w, cap := e.redoWorld(c)
		in := &Input{Ib: cap.Ibdata, Redo: frameFiles(&c.Fr, w.log.blocks(&c.Fr, 0)), Mode: "redo"}
		for _, t := range chosen(c, cap) {
			in.DB, in.Table = t.DB, t.Name
			in.SelDB = c.Variant == "db" || c.Variant == "both"
			in.SelT = c.Variant == "table" || c.Variant == "both"
		}
		return w, cap, nil, in
	}
	w, cap := e.world(c)
	for _, t := range chosen(c, cap) {
		return w, cap, t, &Input{Ib: cap.Ibdata, Tab: t.Data, Mode: c.Mode, DB: t.DB, Table: t.Name}
	}
	return w, cap, nil, nil
}

// inputs gives the paths of the input files, with their sizes.
func (in *Input) inputs() (p []string, n []int) {
	p, n = append(p, ibPath), append(n, len(in.Ib))
	if in.Mode != "redo" {
		p, n = append(p, tabPath), append(n, len(in.Tab))
	}
	for i := range in.Redo {
		p, n = append(p, redoPath(i)), append(n, len(in.Redo[i]))
	}
	return
}

// pickInput chooses the path of an input file of the case without building it.
func pickInput(r *Rng, c *Case) string {
	if r.P(40) {
		return ibPath
	}
	if c.Mode == "redo" {
		n := c.Fr.Files
		if n < 1 {
			n = 1
		}
		return redoPath(r.N(n))
	}
	return tabPath
}

func lines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	return strings.SplitAfter(string(b), "\n")
}

func diffOut(a, b []byte) string {
	x, y := lines(a), lines(b)
	i := firstDiff(x, y)
	return fmt.Sprintf("line %d: %q instead of %q", i+1, at(y, i), at(x, i))
}

func fired(res *Result) bool {
	for _, n := range res.Fired {
		if n > 0 {
			return true
		}
	}
	return false
}

// stallFor is how long a slow device takes for one call: seconds, or so long
// that anything that waits for a while only has given up.
func stallFor(r *Rng) int64 {
	s := int64(1 + r.N(300))
	if r.P(40) {
		s *= []int64{12, 60, 600}[r.N(3)]
	}
	return s * 1e9
}

// ---- C09 ---------------------------------------------------------------------

func genC09(r *Rng, e *Env, i int) *Case {
	c := genAny(r, nil)
	if r.P(20) {
		genDamage(r, c, 2)
	}
	for k := r.R(1, 3); k > 0; k-- {
		f := Fault{Op: opRead, Path: pickInput(r, c), Nth: []int{0, 0, 1 + r.N(30)}[r.N(3)]}
		if r.P(30) {
			f.Path = "/sim/data/*"
		}
		switch r.N(8) {
		case 0, 1:
			f.Act, f.Arg = actChunk, int64([]int{1, 2, 7, 100}[r.N(4)])
			f.Count = 500
		case 2:
			f.Act, f.Arg = actChunk, int64([]int{511, 512, 513, 4096, 16383, 16384, 9000}[r.N(7)])
		case 3:
			f.Act, f.Arg, f.Count = actShort, int64(1+r.N(16384)), r.R(1, 300)
		case 4, 5:
			f.Act, f.Arg, f.Count = actErrno, int64(syscall.EINTR), r.R(1, 20)
		case 6:
			f.Act, f.Arg, f.Count = actStall, stallFor(r), r.R(1, 3)
		case 7:
			f.Op, f.Act, f.Arg, f.Count = opOpen, actErrno, int64(syscall.EINTR), r.R(1, 5)
			f.Nth = 0
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

func checkC09(e *Env, c *Case) *Viol {
	_, cap, _, in := e.input(c)
	if in == nil {
		return nil
	}
	in.applyDamage(c)
	base := e.exec(c, in, nil)
	res := e.exec(c, in, func(r *Run) { r.Faults = c.Faults })
	if v := broken(res); v != nil && broken(base) == nil {
		return v
	}
	if fired(res) && len(base.Stdout) > 0 {
		e.mark(mix(cap.Hash ^ res.Hash))
		e.probe("disturbed reads of an input with statements")
	}
	if !bytes.Equal(base.Stdout, res.Stdout) {
		return viol("different output", "with the bytes delivered differently: %s", diffOut(base.Stdout, res.Stdout))
	}
	if base.Exit != res.Exit {
		return viol("different exit", "exit status %d instead of %d: %s", res.Exit, base.Exit, clip(string(res.Stderr), 300))
	}
	return nil
}

// ---- C10 ---------------------------------------------------------------------

var readErrs = []syscall.Errno{syscall.EIO, syscall.EIO, syscall.EIO, syscall.ESTALE, syscall.ETIMEDOUT, syscall.ENOMEM, syscall.EACCES, syscall.ENXIO}
var openErrs = []syscall.Errno{syscall.ENOENT, syscall.EACCES, syscall.EIO, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.ELOOP, syscall.ENAMETOOLONG}

func genC10(r *Rng, e *Env, i int) *Case {
	c := genAny(r, []string{"error", "warn", "info", "debug", "", "trace", "error"})
	p := pickInput(r, c)
	f := Fault{Op: opRead, Act: actErrno, Path: p, Arg: int64(readErrs[r.N(len(readErrs))])}
	switch r.N(8) {
	case 0:
		f.Op, f.Arg = opOpen, int64(openErrs[r.N(len(openErrs))])
	case 1, 2:
		f.Nth, f.Count = 1+r.N(60), []int{0, 1, 2}[r.N(3)]
	case 3, 4: // a bad sector
		f.Act = actSector
		f.Lo = int64(r.N(80)) * 512
		if r.P(60) {
			f.Lo = int64(r.N(40)) * 16384
		}
		f.Lo += int64(r.N(32)) * 512
		if strings.Contains(p, "logfile") {
			f.Lo = int64(r.N(60)) * 512
			if r.P(50) { // what is readable of a remote file can end anywhere
				f.Lo += int64(r.N(512))
			}
		}
		f.Hi = f.Lo + 512
	case 5: // the file ends inside a page
		c.Variant += " cut"
	case 6: // a directory, or nothing, in its place
		c.Variant += " notfile"
	case 7: // the file shrinks while it is read
		f.Act, f.Nth = actTrunc, 1+r.N(20)
		f.Arg = int64(r.N(40))*16384 + int64(1+r.N(16383))
		f.Count = 1
		if strings.Contains(p, "logfile") {
			f.Act = actErrno
			f.Arg = int64(syscall.EIO)
		}
	}
	if strings.Contains(c.Variant, "cut") {
		c.N = []int64{int64(r.N(2)), int64(r.N(60)), int64(1 + r.N(16383))}
		return c
	}
	c.Faults = []Fault{f}
	return c
}

var glogLine = regexp.MustCompile(`(?m)^[WEF]\d{4} \d\d:\d\d:\d\d\.\d{6} `)

// warnings counts the warnings and errors in the log files.
func warnings(res *Result) int {
	n := 0
	for _, b := range logFiles(res) {
		n += len(glogLine.FindAll(b, -1))
	}
	return n
}

// logFiles rebuilds the files the run wrote.
func logFiles(res *Result) map[string][]byte {
	m := map[string][]byte{}
	for _, o := range res.Ops {
		switch o.Op {
		case 'c':
			m[o.Path] = []byte{}
		case 'w':
			b := m[o.Path]
			for int64(len(b)) < o.Off {
				b = append(b, 0)
			}
			m[o.Path] = append(b[:o.Off], o.Data...)
		}
	}
	return m
}

func subset(a, b []string) (string, bool) {
	n := count(b)
	for _, s := range a {
		if n[s] == 0 {
			return s, false
		}
		n[s]--
	}
	return "", true
}

// subsequence tells whether a is b with some elements left out.
func subsequence(a, b []string) (string, bool) {
	j := 0
	for _, s := range a {
		for j < len(b) && b[j] != s {
			j++
		}
		if j == len(b) {
			return s, false
		}
		j++
	}
	return "", true
}

func checkC10(e *Env, c *Case) *Viol {
	_, cap, _, in := e.input(c)
	if in == nil {
		return nil
	}
	base := e.exec(c, in, func(r *Run) { r.WantLog = true })
	bad := *in
	hit := false
	var mod func(r *Run)
	switch {
	case strings.Contains(c.Variant, "cut"):
		if len(c.N) < 3 {
			return nil
		}
		f := &bad.Ib
		if c.N[0] == 1 && in.Mode != "redo" {
			f = &bad.Tab
		}
		n := (int(c.N[1])%(len(*f)/pageSize))*pageSize + int(c.N[2])
		*f = (*f)[:n:n]
		hit = true
		e.st.Fired["input:ends-inside-page"]++
	case strings.Contains(c.Variant, "notfile"):
		if len(c.Faults) == 0 {
			return nil
		}
		p := c.Faults[0].Path
		mod = func(r *Run) {
			for i, f := range r.Files {
				if f.Name == p {
					if c.Seed%2 == 0 {
						r.Files[i] = SimFile{'d', 0755, p, nil}
					} else {
						r.Files = append(append([]SimFile{}, r.Files[:i]...), r.Files[i+1:]...)
					}
					hit = true
					return
				}
			}
		}
		e.st.Fired["input:not-a-file"]++
	default:
		mod = func(r *Run) { r.Faults = c.Faults }
	}
	res := e.exec(c, &bad, func(r *Run) {
		r.WantLog = true
		if mod != nil {
			mod(r)
		}
	})
	if v := broken(res); v != nil {
		return v
	}
	if (res.Flags|base.Flags)&flFsOver != 0 {
		e.probe("more log than can be recorded")
		return nil
	}
	hit = hit || fired(res)
	out, bout := parseOutput(res.Stdout), parseOutput(base.Stdout)
	if !hit {
		if !bytes.Equal(res.Stdout, base.Stdout) {
			return viol("different output", "without a fault: %s", diffOut(base.Stdout, res.Stdout))
		}
		return nil
	}
	if len(bout.Stmts) > 0 {
		e.mark(mix(cap.Hash ^ res.Hash))
		e.probe("failed input with statements to lose")
	}
	s, ok := subsequence(raws(out, "", ""), raws(bout, "", ""))
	if !ok {
		return viol("new statement", "the disturbed run prints what the undisturbed one does not: %s", clip(s, 400))
	}
	if len(out.Bad)+len(out.Junk) > 0 {
		return viol("not a statement", "%v %v", out.Bad, out.Junk)
	}
	said := res.Exit != 0 || len(res.Stderr) > len(base.Stderr) || warnings(res) > warnings(base)
	if !said && (c.Level != "error" && c.Level != "fatal" || !strings.Contains(c.Variant, "cut") && !truncates(c)) {
		return viol("silent", "the run ends like a complete one (exit 0, no message, no log entry; %d of %d statements printed)", len(out.Stmts), len(bout.Stmts))
	}
	if said {
		e.probe("failure reported")
	}
	return nil
}

func truncates(c *Case) bool {
	for _, f := range c.Faults {
		if f.Act == actTrunc {
			return true
		}
	}
	return false
}

// ---- damage to pages -----------------------------------------------------------

// genDamage adds n damaged ranges to the inputs of a case.
func genDamage(r *Rng, c *Case, n int) {
	if c.Mode == "redo" && r.P(70) {
		for ; n > 0; n-- {
			d := Damage{File: fmt.Sprintf("redo%d", r.N(3)), Kind: []string{"rand", "flip", "zero", "ones", "set", "swap"}[r.N(6)], S: r.U64()}
			d.Off = int64(2048 + r.N(16000))
			d.Len = int64([]int{1, 2, 4, 40, 512, 3000}[r.N(6)])
			if d.Kind == "set" {
				d.Len = int64(1 + r.N(4))
			}
			c.Dmg = append(c.Dmg, d)
		}
		return
	}
	for ; n > 0; n-- {
		d := pageDamage(r)
		d.File = "table"
		if c.Mode == "redo" || r.P(30) {
			d.File = "ibdata1"
			d.Off += int64(r.N(8)) * 16384
		}
		c.Dmg = append(c.Dmg, d)
	}
}

// pageDamage is one fault of the storage under a page: rot, torn, lost and
// misdirected writes, and fields that lie.
func pageDamage(r *Rng) Damage {
	d := Damage{S: r.U64()}
	page := int64(3 + r.N(12))
	if r.P(30) {
		page = int64(3 + r.N(2))
	}
	at := 0
	switch r.N(14) {
	case 0:
		d.Kind, at = "flip", r.N(pageSize)
	case 1, 2:
		d.Kind, at = "flip", 38+r.N(400)
	case 3: // torn: a tail of sectors old or lost
		k := 512 * r.R(1, 31)
		d.Kind, at, d.Len = []string{"zero", "rand", "swap", "ones"}[r.N(4)], k, int64(pageSize-k)
	case 4:
		d.Kind, at, d.Len = []string{"zero", "rand", "swap", "ones"}[r.N(4)], 512*r.N(32), 512
	case 5:
		d.Kind, at, d.Len = []string{"zero", "rand", "swap", "ones"}[r.N(4)], 0, pageSize
	case 6: // page header fields
		f := []int{38 + 2, 38 + 4, 38 + 6, 38 + 8, 38 + 10, 38 + 16, 38 + 26, 4 + 2, 24}[r.N(9)]
		d.Kind, at, d.Len = "set", f, 2
		d.S = []uint64{0, 1, 2, 5, 99, 112, 120, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xffff, 16383, 16376, 17855, uint64(r.N(16384))}[r.N(16)]
	case 7: // infimum and supremum
		d.Kind, at, d.Len = "set", 94+r.N(26), int64(1+r.N(2))
		d.S = []uint64{0, 0xffff, uint64(r.N(16384)), 99, 112, 8, 0x8000}[r.N(7)]
	case 8, 9, 10: // somewhere among the first records: next pointers, lengths, null bits
		d.Kind, at, d.Len = "set", 100+r.N(700), int64(1+r.N(2))
		d.S = []uint64{0, 0xffff, 0x7f, 0x80, 0xff, 0x8000, 0x3fff, 0xbfff, uint64(r.N(65536)), uint64(r.N(300))}[r.N(10)]
	case 11:
		d.Kind, at, d.Len = "rand", 38+r.N(1000), int64(r.R(1, 200))
	case 12:
		d.Kind, at, d.Len = []string{"zero", "ones"}[r.N(2)], 94+r.N(600), int64(r.R(1, 60))
	case 13: // behind the records, and the directory
		d.Kind, at, d.Len = "rand", 12000+r.N(4000), int64(r.R(1, 384))
	}
	d.Off = page*pageSize + int64(at)
	return d
}

func genC11(r *Rng, e *Env, i int) *Case {
	c := &Case{Mode: []string{"print", "recover"}[r.N(2)], Level: pickLevel(r)}
	c.Spec = genSpec(r, GenOpts{Tables: 1, MaxCols: 6, Ops: 30, Red: 40, NoPK: 12})
	if r.P(60) {
		c.Spec.Scatter = false
	}
	c.Slots = []int{0}
	for k := []int{1, 1, 1, 2, 4, 8}[r.N(6)]; k > 0; k-- {
		d := pageDamage(r)
		d.File = "table"
		c.Dmg = append(c.Dmg, d)
	}
	if r.P(15) {
		// much of the file is damaged, nearly every page in the same way or each in its own
		t := &c.Spec.Tables[0]
		t.Cap = min(t.Cap, 8)
		t.Late = false
		for k := r.R(1, 4); k > 0; k-- {
			c.Spec.Ops = append([]Op{{K: "ins", A: 40, S: r.U64()}}, c.Spec.Ops...)
		}
		c.Dmg = nil
		if t := simulate(&c.Spec).slots[0]; t != nil {
			one, same := pageDamage(r), r.P(50)
			if r.P(40) {
				one.Kind, one.Off, one.Len, one.S = "set", int64([]int{97, 97, 38 + 16, 38 + 6}[r.N(4)]), 2, []uint64{0x7fff, 16380, 0x3f00, 0xffff, uint64(r.N(65536))}[r.N(5)]
			}
			most := []int{50, 90, 100}[r.N(3)]
			astray := r.P(50)
			for _, l := range t.clust.leaves {
				d := one
				if all := append(append([]*Rec{}, l.recs...), l.free...); astray && len(all) > 0 {
					// a record is followed by one at the very start or end of the page
					x := all[r.N(len(all))]
					to := []int{0, 1, 2, 3, 5, 7, r.N(40), pageSize - 7 - r.N(20)}[r.N(8)]
					if !t.spec.Old {
						to = (to - x.origin) & 0xffff
					}
					if r.P(most) {
						c.Dmg = append(c.Dmg, Damage{File: "table", Kind: "set", Off: int64(l.no)*pageSize + int64(x.origin) - 2, Len: 2, S: uint64(to)})
					}
					continue
				}
				if !same {
					d = pageDamage(r)
				}
				d.File = "table"
				d.Off = d.Off%pageSize + int64(l.no)*pageSize
				if r.P(most) {
					c.Dmg = append(c.Dmg, d)
				}
			}
		}
	}
	if r.P(25) {
		// a loop or a jump at a record of the page that really exists
		w := simulate(&c.Spec)
		if t := w.slots[0]; t != nil {
			l := t.clust.leaves[r.N(len(t.clust.leaves))]
			all := append(append([]*Rec{}, l.recs...), l.free...)
			if len(all) > 0 {
				x := all[r.N(len(all))]
				y := all[r.N(len(all))]
				to := y.origin
				if !t.spec.Old {
					to = (y.origin - x.origin) & 0xffff
				}
				c.Dmg = append(c.Dmg, Damage{File: "table", Kind: "set", Off: int64(l.no)*pageSize + int64(x.origin) - 2, Len: 2, S: uint64(to)})
			}
		}
	}
	return c
}

func leafLike(b []byte, no int) bool {
	return be(b[4:8]) == uint64(no) && be(b[24:26]) == 17855 && be(b[38+26:38+28]) == 0 && be(b[38+18:38+26]) == 0
}

func checkC11(e *Env, c *Case) *Viol {
	_, cap := e.world(c)
	for _, t := range chosen(c, cap) {
		in := &Input{Ib: cap.Ibdata, Tab: t.Data, Mode: c.Mode, DB: t.DB, Table: t.Name}
		in.applyDamage(c)
		x := *t
		x.Pages = append([]*Snap{}, t.Pages...)
		loose, damaged := false, 0
		for i := 0; (i+1)*pageSize <= len(t.Data); i++ {
			a, b := t.Data[i*pageSize:(i+1)*pageSize], in.Tab[i*pageSize:(i+1)*pageSize]
			if bytes.Equal(a, b) {
				continue
			}
			damaged++
			if i < len(x.Pages) {
				x.Pages[i] = nil
			}
			loose = loose || leafLike(b, i)
		}
		res := e.exec(c, in, nil)
		if v := broken(res); v != nil {
			return v
		}
		out := parseOutput(res.Stdout)
		e.st.Stmts += len(out.Stmts)
		must, may := x.expect(c.Mode == "recover")
		e.probeN("damaged pages", damaged)
		if loose {
			e.probe("damaged page that still looks like a leaf")
		}
		if damaged > 0 {
			e.mark(mix(fnv(in.Tab) ^ hashStr(c.Mode)))
			if len(must) > 0 {
				e.probe("rows beside damage")
			}
		}
		if !loose {
			if v := compareRows(out, t.DB, t.Name, t.T.spec.Cols, must, may); v != nil {
				return v
			}
			if res.Exit != 0 {
				return viol("exit", "exit status %d: %s", res.Exit, clip(string(res.Stderr), 300))
			}
			continue
		}
		if len(out.Bad) > 0 {
			return viol("broken statement", "%s", out.Bad[0])
		}
		if len(out.Junk) > 0 {
			return viol("not a statement", "standard output holds %q", clip(out.Junk[0], 300))
		}
		need := map[string]int{}
		for _, r := range must {
			need[canonRow(r, t.T.spec.Cols)]++
		}
		for _, s := range out.Stmts {
			if s.DB != t.DB || s.Table != t.Name {
				return viol("wrong table", "%s", clip(s.Raw, 300))
			}
			if k, err := canonReplace(s, t.T.spec.Cols); err == nil && need[k] > 0 {
				need[k]--
			}
		}
		for _, k := range sortedKeys(need) {
			if need[k] > 0 {
				return viol("missing", "a row of an undamaged page is missing: %s", showRow(k))
			}
		}
	}
	return nil
}

// ---- C13 ---------------------------------------------------------------------

func checkC13(e *Env, c *Case) *Viol {
	_, cap, _, in := e.input(c)
	if in == nil {
		return nil
	}
	in.applyDamage(c)
	base := e.exec(c, in, nil)
	if base.endless() || base.crashed() {
		return nil // another property's business
	}
	if len(base.Stdout) > 0 {
		e.mark(mix(cap.Hash ^ fnv(base.Stdout)))
		e.probe("outputs compared")
		if len(c.Dmg) > 0 {
			e.probe("outputs of damaged inputs compared")
		}
	}
	for i := 1; i <= 3; i++ {
		d := c.clone()
		r := NewRng(hashSeed(c.Seed, 51, uint64(i)))
		d.Rt = r.U64()
		d.Epoch = 1600000000e9 + int64(r.N(1<<30))*1e9
		d.Pid = 2 + r.N(60000)
		if i > 1 {
			d.Level = []string{"error", "debug", "trace", "info", "WARN", "", "nonsense", "fatal"}[r.N(8)]
			d.LogPath = []string{"/sim/log", "", "/tmp", "/sim/none"}[r.N(4)]
		}
		var fs []Fault
		if r.P(30) {
			fs = []Fault{{Op: opAny, Act: actJump, Path: "/*", Nth: 1 + r.N(40), Count: 1 + r.N(3), Arg: int64(r.N(2000000)-1000000) * 1e9}}
		}
		res := e.exec(d, in, func(x *Run) { x.Faults = fs })
		if !bytes.Equal(base.Stdout, res.Stdout) {
			return viol("different output", "same files, other random seed, time, process id%s: %s", map[bool]string{true: ", log level and place"}[i > 1], diffOut(base.Stdout, res.Stdout))
		}
		if base.Exit != res.Exit {
			return viol("different exit", "exit status %d, then %d: %s", base.Exit, res.Exit, clip(string(res.Stderr), 300))
		}
	}
	return nil
}

// ---- C14 ---------------------------------------------------------------------

func genC14(r *Rng, e *Env, i int) *Case {
	c := genAny(r, nil)
	if r.P(25) && len(c.Slots) > 0 {
		// long statements
		t := &c.Spec.Tables[c.Slots[0]]
		for k := r.R(2, 6); k > 0; k-- {
			id := uint64(len(t.Cols) + 1)
			t.Cols = append(t.Cols, Col{Name: fmt.Sprintf("long%d", id), ID: id, Kind: "blob", Len: r.R(2, 3)})
		}
	}
	for k := 1 + r.N(2); k > 0; k-- {
		f := Fault{Op: opWrite, Path: "stdout", Nth: 1 + r.N(40)}
		if r.P(40) {
			f.Nth = 1 + r.N(4)
		}
		switch r.N(9) {
		case 0, 1:
			f.Act, f.Arg = actErrno, int64([]syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EBADF, syscall.EDQUOT, syscall.EFBIG, syscall.EINVAL}[r.N(6)])
			f.Count = []int{0, 1, 3}[r.N(3)]
		case 2:
			f.Act, f.Arg = actErrno, int64(syscall.EPIPE)
		case 3, 4:
			f.Act, f.Arg, f.Arg2, f.Nth = actCap, int64(r.N(3000)), int64([]syscall.Errno{syscall.ENOSPC, syscall.EFBIG, syscall.EDQUOT}[r.N(3)]), 0
			if r.P(50) {
				f.Arg = -1 - int64(r.N(3000)) // near the end of some line
			}
		case 5:
			f.Act, f.Arg, f.Count = actErrno, int64(syscall.EINTR), r.R(1, 10)
		case 6:
			f.Act, f.Arg = actShort, int64(1+r.N(60))
		case 7:
			f.Act, f.Arg = actChunk, int64(1+r.N(60))
		case 8:
			f.Act = []int{actKill, actStall}[r.N(2)]
			f.Arg, f.Count = int64(r.N(100))*1e9, 1
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

func checkC14(e *Env, c *Case) *Viol {
	_, cap, _, in := e.input(c)
	if in == nil {
		return nil
	}
	base := e.exec(c, in, nil)
	faults := append([]Fault{}, c.Faults...)
	for i := range faults {
		if f := &faults[i]; f.Act == actCap && f.Arg < 0 {
			f.Arg = nearLineEnd(base.Stdout, int(-1-f.Arg))
		}
	}
	res := e.exec(c, in, func(r *Run) { r.Faults = faults })
	failed, cut, killed := false, false, false
	for i, n := range res.Fired {
		if n == 0 {
			continue
		}
		f := c.Faults[i]
		switch {
		case f.Act == actErrno && f.Arg != int64(syscall.EINTR), f.Act == actCap:
			failed = true
			cut = cut || f.Act == actCap
		case f.Act == actShort || f.Act == actChunk:
			cut = true
		case f.Act == actKill:
			killed = true
		}
	}
	if !killed && res.Signal != int(syscall.SIGPIPE) {
		if v := broken(res); v != nil {
			return v
		}
	}
	if fired(res) {
		e.mark(mix(cap.Hash ^ res.Hash))
		e.probe("disturbed writes of statements")
		if failed {
			e.probe("failed writes of statements")
		}
	}
	if !bytes.HasPrefix(base.Stdout, res.Stdout) {
		return viol("not a prefix", "standard output is not a prefix of the undisturbed one: %s", diffOut(base.Stdout, res.Stdout))
	}
	if !failed && !killed {
		if len(res.Stdout) != len(base.Stdout) {
			return viol("lost output", "%d of %d bytes of output without a failing write", len(res.Stdout), len(base.Stdout))
		}
		if res.Exit != base.Exit {
			return viol("exit", "exit status %d instead of %d without a failing write", res.Exit, base.Exit)
		}
		return nil
	}
	if n := len(res.Stdout); !cut && n > 0 && res.Stdout[n-1] != '\n' {
		return viol("cut line", "the output ends inside a line: %q", clip(string(res.Stdout[max(0, n-200):]), 200))
	}
	if failed && !killed && res.Exit == 0 && res.Signal == 0 && len(res.Stderr) <= len(base.Stderr) {
		return viol("silent", "a write to standard output failed (%d of %d bytes written) and the run ends like a success", len(res.Stdout), len(base.Stdout))
	}
	return nil
}

// nearLineEnd picks a position that lies a byte or two before, at or behind
// the end of a line, the last one as often as any other.
func nearLineEnd(out []byte, x int) int64 {
	var ends []int
	for i, b := range out {
		if b == '\n' {
			ends = append(ends, i+1)
		}
	}
	if len(ends) == 0 {
		return 0
	}
	e := ends[len(ends)-1]
	if x%2 == 0 {
		e = ends[x/8%len(ends)]
	}
	return int64(max(0, e-2+x/2%4))
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ---- C15 ---------------------------------------------------------------------

func genC15(r *Rng, e *Env, i int) *Case {
	c := genAny(r, []string{"debug", "info", "trace", "", "warn", "error", "DEBUG"})
	c.LogPath = "/sim/log"
	if r.P(25) {
		genDamage(r, c, 1) // more to log
	}
	v := []string{"", "", "", "missing", "readonly", "file", "nowhere", "both"}[r.N(8)]
	c.Variant = strings.TrimSpace(c.Variant + " " + v)
	if v != "" && r.P(60) {
		return c
	}
	dir := []string{"/sim/log*", "/sim/log*", "/tmp*"}[r.N(3)]
	for k := 1 + r.N(2); k > 0; k-- {
		f := Fault{Op: opWrite, Path: dir, Nth: []int{0, 1 + r.N(5), 1 + r.N(60)}[r.N(3)], Count: []int{0, 1, 2}[r.N(3)]}
		bad := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EROFS, syscall.EDQUOT, syscall.EBADF}
		f.Act, f.Arg = actErrno, int64(bad[r.N(len(bad))])
		switch r.N(10) {
		case 0, 1:
		case 2:
			f.Act, f.Arg, f.Arg2, f.Nth, f.Count = actCap, int64(r.N(20000)), int64(syscall.ENOSPC), 0, 0
		case 3:
			f.Act, f.Arg = []int{actShort, actChunk}[r.N(2)], int64(1+r.N(4000))
			f.Nth = 0
		case 4:
			f.Arg, f.Count = int64(syscall.EINTR), r.R(1, 9)
		case 5:
			f.Act, f.Arg, f.Count = actStall, int64(1+r.N(200))*1e9, r.R(1, 4)
		case 6:
			f.Op, f.Arg = opOpen, int64([]syscall.Errno{syscall.EACCES, syscall.EMFILE, syscall.ENOSPC, syscall.EROFS, syscall.EIO}[r.N(5)])
		case 7:
			f.Op = opMeta // the links
		case 8:
			f.Op = []int{opSync, opClose}[r.N(2)]
		case 9:
			f.Op = opAny
		}
		if f.Act == actErrno && f.Op == opOpen {
			f.Nth = 0
		}
		c.Faults = append(c.Faults, f)
	}
	return c
}

// logPlace arranges the directories of a C15 case.
func logPlace(c *Case, r *Run) {
	set := func(name string, f *SimFile) {
		for i := range r.Files {
			if r.Files[i].Name == name {
				if f == nil {
					r.Files = append(append([]SimFile{}, r.Files[:i]...), r.Files[i+1:]...)
				} else {
					r.Files[i] = *f
				}
				return
			}
		}
	}
	v := c.Variant
	switch {
	case strings.Contains(v, "missing"):
		set("/sim/log", nil)
	case strings.Contains(v, "readonly"):
		set("/sim/log", &SimFile{'d', 0555, "/sim/log", nil})
	case strings.Contains(v, "file"):
		set("/sim/log", &SimFile{'f', 0644, "/sim/log", []byte("not a directory\n")})
	case strings.Contains(v, "nowhere"): // neither there nor in the default place
		set("/sim/log", nil)
		set("/tmp", nil)
	case strings.Contains(v, "both"):
		set("/sim/log", &SimFile{'d', 0555, "/sim/log", nil})
		set("/tmp", &SimFile{'d', 0555, "/tmp", nil})
	}
}

func checkC15(e *Env, c *Case) *Viol {
	_, cap, _, in := e.input(c)
	if in == nil {
		return nil
	}
	in.applyDamage(c)
	base := e.exec(c, in, nil)
	if base.endless() || base.crashed() {
		return nil
	}
	res := e.exec(c, in, func(r *Run) {
		r.Faults = c.Faults
		logPlace(c, r)
	})
	if res.endless() {
		return viol("endless", "the run did not end (%d steps)", res.Ticks)
	}
	if (fired(res) || c.Variant != "") && len(base.Stdout) > 0 {
		e.mark(mix(cap.Hash ^ res.Hash))
		e.probe("logging trouble with statements to lose")
	}
	if s, ok := subsequence(lines(res.Stdout), lines(base.Stdout)); !ok {
		return viol("wrong output", "standard output holds %q, which the undisturbed run does not print there", clip(s, 300))
	}
	if bytes.Equal(res.Stdout, base.Stdout) {
		e.probe("all statements in spite of it")
		return nil
	}
	if res.Exit == 0 && res.Signal == 0 || len(res.Stderr)+len(res.Crash) == 0 {
		return viol("silently shortened", "%d of %d bytes of output, exit status %d, %d bytes on standard error", len(res.Stdout), len(base.Stdout), res.Exit, len(res.Stderr))
	}
	e.probe("visibly failed")
	return nil
}

// ---- C16 ---------------------------------------------------------------------

var levelRank = map[string]int{"fatal": 0, "error": 1, "warn": 2, "info": 3, "debug": 4, "trace": 5}

func genC16(r *Rng, e *Env, i int) *Case {
	if r.P(12) {
		return genLogCalls(r)
	}
	c := genAny(r, []string{"debug", "DEBUG", "", "info", "Info", "warn", "WARN", "error", "Error", "fatal", "trace", "TrAcE", "nonsense", "warning", "4", " error", "error ", "warn\t", "fatal\n", "err", "errors", "fatal,info", "-error"})
	if c.Level == "trace" && r.P(50) {
		c.Level = "info"
	}
	c.LogPath = []string{"/sim/log", "/sim/log", "", "/tmp", "/sim/cwd", "/sim/data", "/sim/log/", "../log", "../data/../log/.", ".", "/sim//log"}[r.N(11)]
	switch r.N(6) {
	case 0:
		genDamage(r, c, 1+r.N(3))
	case 3: // an input ends inside a page, or inside a record
		c.Variant += " cut"
		c.N = []int64{int64(r.N(4)), int64(r.N(60)), int64(1 + r.N(16383))}
	case 1:
		p := pickInput(r, c)
		c.Faults = []Fault{{Op: opRead, Act: actErrno, Path: p, Arg: int64(syscall.EIO), Nth: 1 + r.N(30)}}
	case 2:
		c.Faults = []Fault{{Op: opWrite, Act: actErrno, Path: "stdout", Arg: int64(syscall.EIO), Nth: 1 + r.N(10)}}
	}
	if r.P(25) {
		// time passes: the log is also flushed now and then
		c.Faults = append(c.Faults, Fault{Op: opRead, Act: actStall, Path: "/sim/data/*", Arg: int64(20+r.N(60)) * 1e9, Nth: 1 + r.N(20), Count: r.R(1, 3)})
	}
	if r.P(20) {
		c.Faults = append(c.Faults, Fault{Op: opAny, Act: actJump, Path: "/*", Arg: int64(r.N(200000)-100000) * 1e9, Nth: 1 + r.N(40), Count: 1})
	}
	if r.P(15) {
		c.Variant += " missing-table"
	}
	return c
}

var logHead = regexp.MustCompile(`^([IWEF])\d{4} \d\d:\d\d:\d\d\.\d{6} +\d+ [^ \]]+:\d+\] `)

func checkC16(e *Env, c *Case) *Viol {
	if c.Variant == "calls" {
		return checkLogCalls(e, c)
	}
	_, cap, _, in := e.input(c)
	if in == nil {
		return nil
	}
	in.applyDamage(c)
	if strings.Contains(c.Variant, "cut") && len(c.N) > 2 {
		in.cut(c.N)
		e.st.Fired["input:ends-inside-page"]++
	}
	if strings.Contains(c.Variant, "missing-table") {
		in.DB = "nosuchdb"
	}
	res := e.exec(c, in, func(r *Run) {
		r.Faults = c.Faults
		r.WantLog, r.LogMsgs = true, true
	})
	if res.Flags&(flMsgOver|flFsOver|flOverrun) != 0 {
		e.probe("more log than can be recorded")
		return nil
	}
	if res.endless() || res.Signal != 0 || broken(res) != nil {
		return nil
	}
	lv := c.Level
	if lv == "" {
		lv = "debug" // the program's default
	}
	rank, ok := levelRank[strings.ToLower(lv)]
	if !ok {
		rank = levelRank["info"]
	}
	var want []LogMsg
	for _, m := range res.Msgs {
		if levelRank[strings.ToLower(m.Level)] <= rank {
			want = append(want, m)
		}
	}
	if len(want) > 0 {
		e.mark(mix(cap.Hash ^ res.Hash))
		e.probe("runs that log")
		for _, m := range want {
			if m.Level == "Warn" {
				e.probe("runs that log a warning")
				break
			}
		}
		if res.Exit != 0 {
			e.probe("failed runs that log")
		}
	}
	if len(want) < len(res.Msgs) {
		e.probe("messages below the level")
	}
	dir := c.LogPath
	if dir == "" {
		dir = "/tmp"
	}
	if !path.IsAbs(dir) {
		dir = path.Join("/sim/cwd", dir)
	}
	text, v := logText(res, dir)
	if v != nil {
		return v
	}
	for i, m := range want {
		h := logHead.FindStringSubmatch(text)
		t := m.Text
		if !strings.HasSuffix(t, "\n") {
			t += "\n"
		}
		if h == nil || !strings.HasPrefix(text[len(h[0]):], t) {
			return viol("missing message", "level %q: of %d messages logged, number %d (%s %q) is not in its place in the log in %s, which goes on with %q", c.Level, len(want), i+1, m.Level, clip(t, 150), dir, clip(text, 250))
		}
		text = text[len(h[0])+len(t):]
	}
	if h := logHead.FindString(text); h != "" {
		return viol("message below level", "level %q admits %d messages, but the log goes on: %s", c.Level, len(want), clip(text, 300))
	}
	if text != "" {
		return viol("log text", "the log goes on with %q", clip(text, 300))
	}
	return nil
}

// logText gives the text of the log file that holds all messages, without its
// head.
func logText(res *Result, dir string) (string, *Viol) {
	// every file holds the messages of its severity and above
	files := logFiles(res)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	got := map[byte]string{}
	for _, n := range names {
		if !strings.HasPrefix(path.Clean(n), strings.TrimSuffix(path.Clean(dir), "/")+"/") {
			return "", viol("wrong place", "log file %s is not in %s", n, dir)
		}
		for sev, word := range map[byte]string{'I': ".INFO.", 'W': ".WARNING.", 'E': ".ERROR.", 'F': ".FATAL."} {
			if strings.Contains(n, word) {
				got[sev] += string(files[n])
			}
		}
	}
	// the lowest severity's file has all of them
	low := byte(0)
	for _, s := range []byte("IWEF") {
		if _, ok := got[s]; ok && low == 0 {
			low = s
		}
	}
	text := got[low]
	for _, h := range []string{"Log file created at: ", "Running on machine: ", "Binary: ", "Log line format: "} {
		if strings.HasPrefix(text, h) {
			text = text[strings.IndexByte(text, '\n')+1:]
		}
	}
	return text, nil
}

// cut shortens one input as n says: to the middle of a page or log block, or
// of a record in it.
func (in *Input) cut(n []int64) {
	f, unit := &in.Ib, pageSize
	if in.Mode != "redo" {
		if n[0]%2 == 1 {
			f = &in.Tab
		}
	} else if k := len(in.Redo); n[0] > 0 && k > 0 {
		in.Redo = append([][]byte{}, in.Redo...)
		f, unit = &in.Redo[int(n[0])%k], 512
	}
	b := append([]byte{}, *f...)
	if len(b) < 2*unit {
		return
	}
	at := (int(n[1]) % (len(b) / unit)) * unit
	if unit == pageSize {
		*f = b[:at+int(n[2])]
		return
	}
	// the log written ends inside a block: a short one, and nothing after it
	if at < 2048 {
		at = 2048 + at%(len(b)-2048)/512*512
	}
	for i := at + 12 + int(n[2])%480; i < len(b); i++ {
		b[i] = 0
	}
	put2(b[at+4:], 12+int(n[2])%480)
	*f = b
}

// ---- C17 ---------------------------------------------------------------------

func genC17(r *Rng, e *Env, i int) *Case {
	var c *Case
	switch r.N(4) {
	case 0:
		c = genC10(r, e, i)
	case 1:
		c = genC15(r, e, i)
	case 2:
		c = genC14(r, e, i)
	case 3:
		if r.P(50) {
			c = genC11(r, e, i)
			break
		}
		c = genAny(r, nil)
		genDamage(r, c, 1+r.N(3))
	}
	if r.P(30) {
		c.Faults = append(c.Faults, Fault{Op: opAny, Act: actKill, Path: "*", Nth: 1 + r.N(150), Count: 1})
	}
	if r.P(15) {
		c.LogPath = "/sim/data" // beside the inputs
	}
	if r.P(40) {
		c.Variant += []string{" modes", " modes", " no-input", " link"}[r.N(4)]
	}
	return c
}

// oddInputs gives the input files unusual modes, takes one away, or has a link
// in its place.
func oddInputs(c *Case, r *Run) {
	x := NewRng(hashSeed(c.Seed, 31))
	var at []int
	for i, f := range r.Files {
		if f.Kind == 'f' && strings.HasPrefix(f.Name, "/sim/data/") {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return
	}
	k := at[x.N(len(at))]
	switch {
	case strings.Contains(c.Variant, "modes"):
		for _, i := range at {
			r.Files[i].Mode = []uint32{0644, 0600, 0400, 0440, 0444, 0, 0040, 0200, 0666, 0777}[x.N(10)]
		}
	case strings.Contains(c.Variant, "no-input"):
		r.Files = append(append([]SimFile{}, r.Files[:k]...), r.Files[k+1:]...)
	case strings.Contains(c.Variant, "link"):
		f := r.Files[k]
		to := "/sim/cwd/real-file"
		if x.P(30) {
			to = "/sim/cwd/no-such-file"
		}
		r.Files[k] = SimFile{'l', 0777, f.Name, []byte(to)}
		if to == "/sim/cwd/real-file" {
			r.Files = append(r.Files, SimFile{'f', f.Mode, to, f.Data})
		}
	}
}

// logName tells whether rest, behind the program's name, is that of a log file
// (host.user.log.INFO.date-time.pid) or of the link to the newest one (INFO).
func logName(rest string) bool {
	for _, l := range []string{"INFO", "WARNING", "ERROR", "FATAL"} {
		if rest == l || strings.Contains(rest, ".log."+l+".") && !strings.Contains(rest, "/") {
			return true
		}
	}
	return false
}

func checkC17(e *Env, c *Case) *Viol {
	_, cap, _, in := e.input(c)
	if in == nil {
		return nil
	}
	in.applyDamage(c)
	res := e.exec(c, in, func(r *Run) {
		r.Faults = c.Faults
		r.WantLog = true
		r.Files = append(r.Files, SimFile{'f', 0644, "/sim/log/other.txt", []byte("not ours\n")}, SimFile{'f', 0644, "/tmp/other.txt", []byte("not ours\n")},
			SimFile{'f', 0644, "/sim/log/db-recovery.simhost.root.log.INFO.20200101-000000.1", []byte("old log\n")}, SimFile{'f', 0644, "/sim/cwd/out.sql", []byte("-- mine\n")})
		logPlace(c, r)
		oddInputs(c, r)
	})
	if res.Flags&(flFsOver|flOverrun) != 0 {
		return nil
	}
	e.mark(mix(cap.Hash ^ res.Hash))
	if res.Refused > 0 {
		return viol("forbidden call", "the run made %d file-system or process calls that change more than its log", res.Refused)
	}
	dir := c.LogPath
	if dir == "" {
		dir = "/tmp"
	}
	for _, o := range res.Ops {
		switch o.Op {
		case 'k', 'a', 'f':
			continue
		}
		ours := false
		for _, d := range []string{dir, "/tmp"} {
			if strings.HasPrefix(o.Path, d+"/db-recovery.") && logName(o.Path[len(d)+13:]) {
				ours = true
			}
		}
		if o.Path == "/sim/log/db-recovery.simhost.root.log.INFO.20200101-000000.1" {
			ours = false
		}
		if !ours {
			return viol("modified", "operation %q on %s", string(rune(o.Op)), o.Path)
		}
		e.probe("log operations")
	}
	if res.Flags&flKilled != 0 {
		e.probe("killed runs")
	}
	return nil
}

func init() {
	register(&Prop{ID: "C09", Gen: genC09, Check: checkC09,
		Rule:  "one evaluation: one recovery command over a seeded database, run twice: with all reads served whole, and with reads of the input files cut into pieces, interrupted or delayed; non-trivial if a fault fired and there are statements to lose; distinct by captured files and system-call trace",
		Probe: []string{"disturbed reads of an input with statements"}})
	register(&Prop{ID: "C10", Gen: genC10, Check: checkC10,
		Rule:  "one evaluation: one recovery command over a seeded database, run undisturbed and with one input that cannot be opened, fails to be read at some point, or ends inside a page; non-trivial if the fault fired and there are statements to lose",
		Probe: []string{"failed input with statements to lose", "failure reported"}})
	register(&Prop{ID: "C11", Gen: genC11, Check: checkC11,
		Rule:  "one evaluation: a seeded history over one table, some pages of the captured file damaged (bit rot, torn, lost, misdirected writes, lying fields, looping record chains), then printing or recovery; non-trivial if bytes of a page differ; distinct by damaged file",
		Probe: []string{"damaged pages", "damaged page that still looks like a leaf", "rows beside damage"}})
	register(&Prop{ID: "C13", Gen: func(r *Rng, e *Env, i int) *Case {
		c := genAny(r, nil)
		if c.Mode != "redo" {
			c.Spec.Noise = []int{1, 8, 25}[r.N(3)]
		}
		if r.P(35) {
			genDamage(r, c, 1+r.N(4))
		}
		return c
	}, Check: checkC13,
		Rule:  "one evaluation: one recovery command over the same files (some of them damaged), run four times under different runtime random seeds (hash maps, select, scheduler), wall clocks and clock jumps, process ids, log levels and log places; non-trivial if there is output to compare",
		Probe: []string{"outputs compared", "outputs of damaged inputs compared"}})
	register(&Prop{ID: "C14", Gen: genC14, Check: checkC14,
		Rule:  "one evaluation: one recovery command over a seeded database, run undisturbed and with failing, short, interrupted or slow writes to standard output, a full device, a closed pipe or a kill; non-trivial if a fault fired",
		Probe: []string{"disturbed writes of statements", "failed writes of statements"}})
	register(&Prop{ID: "C15", Gen: genC15, Check: checkC15,
		Rule:  "one evaluation: one recovery command over a seeded database, run undisturbed and with a log directory that is missing, read-only or not a directory, or a log device that is full, fails, is short or slow; non-trivial if the trouble occurred and there are statements to lose",
		Probe: []string{"logging trouble with statements to lose", "all statements in spite of it", "visibly failed"}})
	register(&Prop{ID: "C16", Lib: true, CLI: true, Gen: genC16, Check: checkC16, Simpler: simplerC16,
		Rule:  "one evaluation: one recovery command over a seeded database, in success or failing, at a random log level; every message handed to the logging functions is recorded by a hook and compared with the log files; or a script of direct calls of the logging functions by one to three goroutines; non-trivial if the level admits a message",
		Probe: []string{"runs that log", "failed runs that log", "messages below the level", "the logging functions called directly"}})
	register(&Prop{ID: "C17", Gen: genC17, Check: checkC17,
		Rule:  "one evaluation: one recovery command under input, output or log faults, damage or a kill at a random system call, every file-system operation recorded; distinct by captured files and trace",
		Probe: []string{"log operations", "killed runs"}})
}
