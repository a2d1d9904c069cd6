package main

// Checks of the two data-file modes.

func pickLevel(r *Rng) string {
	return []string{"error", "error", "error", "error", "fatal", "info", "warn", "", "debug", "trace", "bogus"}[r.N(11)]
}

// world builds the capture of a case.
func (e *Env) world(c *Case) (*World, *Capture) {
	w := simulate(&c.Spec)
	cap := w.capture()
	e.st.States[cap.Hash] = true
	for k, n := range cap.Stats {
		e.probeN(k, n)
	}
	e.most("pages of the system tablespace", len(cap.Ibdata)/pageSize)
	e.most("bytes of log records", len(w.log.data))
	e.most("update undo records in the log", len(w.log.upds))
	for _, u := range w.log.upds {
		e.most("bytes of an update undo record", u.End-u.Start)
	}
	e.most("tables with files", len(cap.Tables))
	e.most("tables in the dictionary", len(w.order))
	for _, t := range cap.Tables {
		e.most("pages of a table's file", len(t.Data)/pageSize)
		e.most("columns of a table", len(t.T.spec.Cols))
		for _, s := range t.Pages {
			if s != nil && s.leaf {
				e.most("rows on a page", len(s.live))
				e.most("rows on a free list", len(s.free))
			}
		}
	}
	return w, cap
}

// chosen gives the captured tables the case asks for.
func chosen(c *Case, cap *Capture) []*CapTable {
	var o []*CapTable
	for _, s := range c.Slots {
		for _, t := range cap.Tables {
			if t.T.spec.Slot == s {
				o = append(o, t)
			}
		}
	}
	return o
}

func (e *Env) runTable(c *Case, cap *Capture, t *CapTable, mode string) *Viol {
	in := &Input{Ib: cap.Ibdata, Tab: t.Data, Mode: mode, DB: t.DB, Table: t.Name}
	if t.T.spec.Sys {
		// the system tablespace in two files
		if r := NewRng(hashSeed(c.Seed, 61)); r.P(45) || c.Spec.SysFar && r.P(70) {
			last := c.Seed%2 == 0
			if k, part := cap.split(t, r, last); part != nil {
				in.Ib, t, in.Tab = cap.Ibdata[:k*pageSize], part, part.Data
				e.probe(map[bool]string{true: "second", false: "first"}[last] + " file of the system tablespace read")
			}
		}
	}
	res := e.exec(c, in, nil)
	if v := broken(res); v != nil {
		return v
	}
	must, may := t.expect(mode == "recover")
	out := parseOutput(res.Stdout)
	e.st.Stmts += len(out.Stmts)
	if len(must) > 0 {
		e.mark(mix(cap.Hash ^ t.T.id ^ hashStr(mode)))
		e.probe("tables with rows to " + mode)
	}
	if t.T.spec.Old {
		e.probe("REDUNDANT table read")
	} else {
		e.probe("COMPACT table read")
	}
	if len(t.T.keyPos) == 0 {
		e.probe("table without key read")
	}
	if t.T.spec.Sys {
		e.probe("table in the system tablespace read")
	}
	if t.T.spec.Share {
		e.probe("table in a shared tablespace read")
	}
	if len(t.T.preOf) > 0 {
		e.probe("key of column prefixes read")
	}
	if len(t.T.keyPos) > 1 {
		e.probe("composite key read")
	}
	if t.T.spec.PKName != "PRIMARY" && len(t.T.keyPos) > 0 {
		e.probe("unique clustered key read")
	}
	if v := compareRows(out, t.DB, t.Name, t.T.spec.Cols, must, may); v != nil {
		return v
	}
	return nil
}

// split cuts the system tablespace into two files somewhere behind the pages
// of the dictionary and gives the table as it is in one of them.
func (cap *Capture) split(t *CapTable, r *Rng, second bool) (int, *CapTable) {
	n := len(t.Data) / pageSize
	k := 8
	for i := 8; i < n; i++ {
		if b := t.Data[i*pageSize:]; be(b[24:26]) == 17855 && be(b[66:74]) < 10 {
			k = i + 1
		}
	}
	if cap.w.spec.DW {
		k = max(k, 192) // the doublewrite buffer is in the first file
	}
	last := min(n-1, len(cap.Ibdata)/pageSize)
	if k > last {
		return 0, nil
	}
	k = r.R(k, last)
	if used, home := 0, 0; second {
		// which pages the file has can be told from most of them only
		for i := k; i < n; i++ {
			no, typ := be(t.Data[i*pageSize+4:i*pageSize+8]), be(t.Data[i*pageSize+24:i*pageSize+26])
			if no != 0 || typ != 0 {
				used++
			}
			if no == uint64(i) {
				home++
			}
		}
		if 2*home <= used {
			return 0, nil
		}
	}
	part := *t
	t = &CapTable{T: t.T, Data: t.Data, Pages: append([]*Snap{}, t.Pages...)}
	for len(t.Pages) < n {
		t.Pages = append(t.Pages, nil)
	}
	if second {
		part.Data, part.Pages = t.Data[k*pageSize:], t.Pages[k:]
		if r.P(30) {
			// the first file is a large one, of which only the start is left
			d := uint32(r.R(1<<16, 1<<22))
			part.Data = append([]byte(nil), part.Data...)
			for i := 0; i < n-k; i++ {
				b := part.Data[i*pageSize:]
				if be(b[4:8]) == 0 && be(b[24:26]) == 0 {
					continue
				}
				for _, at := range []int{4, 8, 12} {
					if x := uint32(be(b[at : at+4])); at == 4 || int(x) >= k && x != 0xffffffff {
						put4(b[at:], x+d)
					}
				}
			}
		}
		for i, used := 0, false; ; i++ {
			if used = used || i < len(part.Pages) && part.Pages[i] != nil; used {
				break
			}
			if i >= len(part.Pages) {
				return 0, nil
			}
		}
	} else {
		part.Data, part.Pages = t.Data[:k*pageSize], t.Pages[:k]
	}
	return k, &part
}

func allSlots(n int) (o []int) {
	for i := 0; i < n; i++ {
		o = append(o, i)
	}
	return
}

func dataCheck(modes ...string) func(e *Env, c *Case) *Viol {
	return func(e *Env, c *Case) *Viol {
		_, cap := e.world(c)
		for _, t := range chosen(c, cap) {
			for _, m := range modes {
				if c.Mode != "" && c.Mode != m {
					continue
				}
				if v := e.runTable(c, cap, t, m); v != nil {
					return v
				}
			}
		}
		return nil
	}
}

func init() {
	register(&Prop{
		ID: "C01",
		Gen: func(r *Rng, e *Env, i int) *Case {
			c := &Case{Mode: "recover", Level: pickLevel(r)}
			c.Spec = genSpec(r, GenOpts{Tables: 2, MaxCols: 8, Ops: 60, Red: 35, NoPK: 12})
			c.Slots = allSlots(len(c.Spec.Tables))
			return c
		},
		Check: dataCheck("recover"),
		Rule:  "one evaluation: a seeded history of inserts, updates, deletes, rollbacks, purges, page flushes and a crash over 1-2 random tables, then recovery of each table; non-trivial if the captured file holds at least one record on a free list; distinct by hash of the captured files",
		Probe: []string{"tables with rows to recover", "REDUNDANT table read", "COMPACT table read", "table without key read", "composite key read", "unique clustered key read", "row_purged", "rolled_back", "row_updated_resize"},
	})
	register(&Prop{
		ID: "C02",
		Gen: func(r *Rng, e *Env, i int) *Case {
			c := &Case{Mode: "print", Level: pickLevel(r)}
			c.Spec = genSpec(r, GenOpts{Tables: 2, MaxCols: 8, Ops: 60, Red: 35, NoPK: 12})
			c.Slots = allSlots(len(c.Spec.Tables))
			return c
		},
		Check: dataCheck("print"),
		Rule:  "one evaluation: a seeded history of inserts, updates, deletes, rollbacks, purges, page flushes and a crash over 1-2 random tables, then printing of each table; non-trivial if the captured file holds at least one live row; distinct by hash of the captured files",
		Probe: []string{"tables with rows to print", "REDUNDANT table read", "COMPACT table read", "table without key read", "composite key read", "row_delete_marked", "other_page_kinds"},
	})
}

// dataOrRedo checks the rows a case's tables yield, by the mode of the case.
func checkC03(e *Env, c *Case) *Viol {
	if c.Mode == "redo" {
		return checkC05(e, c)
	}
	return dataCheck("print", "recover")(e, c)
}

func checkC22(e *Env, c *Case) *Viol {
	_, cap := e.world(c)
	for _, t := range chosen(c, cap) {
		r := NewRng(hashSeed(c.Seed, 41, t.T.id))
		n, lost, torn := cap.stale(t, r)
		for i := 8; i*pageSize < len(cap.Ibdata); i++ {
			if b := cap.Ibdata[i*pageSize : (i+1)*pageSize]; be(b[4:8]) == uint64(i) && r.P(20) && tear(b, r) {
				torn++
			}
		}
		e.probeN("pages torn in their last sector", torn)
		e.probeN("stale copies in a table file", n)
		e.probeN("pages overwritten by a misdirected write", lost)
		for _, m := range []string{"print", "recover"} {
			if c.Mode != "" && c.Mode != m {
				continue
			}
			if v := e.runTable(c, cap, t, m); v != nil {
				return v
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C03",
		Gen: func(r *Rng, e *Env, i int) *Case {
			o := GenOpts{Tables: 6, MaxCols: []int{3, 10, 20}[r.N(3)], Ops: 40, Red: 35, NoPK: 12, DDL: []int{0, 10, 25}[r.N(3)], SameName: r.P(50)}
			if r.P(20) {
				o.NoPK, o.Update = 5, true
				return genRedo(r, o)
			}
			c := &Case{Mode: []string{"print", "recover"}[r.N(2)], Level: pickLevel(r)}
			c.Spec = genSpec(r, o)
			for n := r.R(1, 3); n > 0; n-- {
				c.Slots = append(c.Slots, r.N(len(c.Spec.Tables)))
			}
			return c
		},
		Check: checkC03,
		Rule:  "one evaluation: a seeded history of DDL (create, drop, rename, purge and partial flushing of dictionary rows, among up to 25 further tables) and row changes over up to 6 random tables with keys anywhere in the table, then printing, recovery or redo recovery; non-trivial if rows are to be decoded; distinct by hash of the captured files and table",
		Probe: []string{"tables with rows to print", "tables with rows to recover", "composite key read", "unique clustered key read", "table without key read", "tables_renamed", "tables_dropped", "dict_row_revived", "dict_row_purged"},
	})
	register(&Prop{
		ID: "C04",
		Gen: func(r *Rng, e *Env, i int) *Case {
			o := GenOpts{Tables: 1, MaxCols: 12, Ops: 25, Red: 40, NoPK: 8}
			if r.P(30) {
				o.NoPK, o.Update = 0, true
				return genRedo(r, o)
			}
			c := &Case{Mode: []string{"print", "recover"}[r.N(2)], Level: pickLevel(r)}
			c.Spec = genSpec(r, o)
			c.Spec.FlushAll = true
			c.Slots = allSlots(len(c.Spec.Tables))
			return c
		},
		Check: checkC03,
		Rule:  "one evaluation: a seeded history over one table with up to 12 columns (32 for some) of random types holding edge and random values, then printing, recovery or redo recovery, each literal converted back and compared with the stored value; non-trivial if rows are to be decoded; distinct by hash of the captured files",
		Probe: []string{"tables with rows to print", "tables with rows to recover", "updates expected", "REDUNDANT table read", "COMPACT table read"},
	})
	register(&Prop{
		ID: "C22",
		Gen: func(r *Rng, e *Env, i int) *Case {
			c := &Case{Mode: []string{"print", "recover"}[r.N(2)], Level: pickLevel(r)}
			c.Spec = genSpec(r, GenOpts{Tables: 3, MaxCols: 5, Ops: 40, Red: 35, NoPK: 12, DDL: []int{0, 10}[r.N(2)], SameName: r.P(30)})
			c.Spec.DW = true
			if r.P(20) {
				c.Spec.Tables[0].Sys, c.Spec.Tables[0].Share, c.Spec.SysFar = true, false, true
			}
			c.Slots = []int{r.N(len(c.Spec.Tables))}
			return c
		},
		Check: checkC22,
		Rule:  "one evaluation: a seeded history with partial flushing; then copies of pages - current, older and torn, of this and other tables, of the dictionary and its header - lie in the doublewrite buffer, in never-written space and in place of a page a misdirected write destroyed; non-trivial if rows are to be decoded; distinct by hash of the captured files",
		Probe: []string{"doublewrite_copies", "stale copies in a table file", "pages overwritten by a misdirected write", "pages torn in their last sector", "second file of the system tablespace read", "tables with rows to print", "tables with rows to recover"},
	})
}
