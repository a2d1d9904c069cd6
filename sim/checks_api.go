package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strings"
)

// Checks of the exported parser API: several parsers at once (C20) and many
// calls on one parser (C21).

type apiCall struct {
	K     string
	Paths []string
	DB, T string
}

type apiScript struct {
	Level, Log string
	Actors     [][]apiCall
}

type apiDB struct {
	cap   *Capture
	files map[string][]byte
	redo  int
}

// databases simulates all databases of a case.
func (e *Env) databases(c *Case) []*apiDB {
	var o []*apiDB
	for i := -1; i < len(c.More); i++ {
		sp := &c.Spec
		if i >= 0 {
			sp = &c.More[i]
		}
		sp.FlushDict = true
		w := simulate(sp)
		cap := w.capture()
		e.st.States[cap.Hash] = true
		d := &apiDB{cap: cap, files: map[string][]byte{"ibdata1": cap.Ibdata}}
		for _, t := range cap.Tables {
			d.files[fmt.Sprintf("t%d.ibd", t.T.spec.Slot)] = t.Data
		}
		fr := frameFiles(&c.Fr, w.log.blocks(&c.Fr, 0))
		d.redo = len(fr)
		for j, b := range fr {
			d.files[fmt.Sprintf("ib_logfile%d", j)] = b
		}
		for _, x := range c.Dmg {
			if x.W == i+1 {
				if b, ok := d.files[x.File]; ok {
					d.files[x.File] = x.apply(b)
				}
			}
		}
		o = append(o, d)
	}
	return o
}

func apiDir(w, alias int) string {
	if alias > 0 {
		return fmt.Sprintf("/sim/data/x%d", alias)
	}
	return fmt.Sprintf("/sim/data/w%d", w)
}

// apiFiles is the file system: every database's directory, and a directory
// per alias.
func apiFiles(c *Case, dbs []*apiDB) []SimFile {
	fs := dirs()
	add := func(dir string, d *apiDB) {
		fs = append(fs, SimFile{'d', 0755, dir, nil})
		for _, n := range sortedNames(d.files) {
			fs = append(fs, SimFile{'f', 0640, dir + "/" + n, d.files[n]})
		}
	}
	for i, d := range dbs {
		add(apiDir(i, 0), d)
	}
	seen := map[int]bool{}
	for _, x := range c.Calls {
		if x.Alias > 0 && !seen[x.Alias] && x.W < len(dbs) {
			seen[x.Alias] = true
			add(apiDir(0, x.Alias), dbs[x.W])
		}
	}
	return fs
}

func sortedNames(m map[string][]byte) []string {
	k := map[string]int{}
	for n := range m {
		k[n] = 1
	}
	return sortedKeys(k)
}

func (c *Case) apiCall(x Call, dbs []*apiDB) apiCall {
	w := x.W % len(dbs)
	d := dbs[w]
	dir := apiDir(w, x.Alias)
	a := apiCall{K: x.K, DB: "nosuch", T: "table"}
	name := "t0.ibd"
	for _, t := range d.cap.Tables {
		if t.T.spec.Slot == x.S {
			a.DB, a.T = t.DB, t.Name
			name = fmt.Sprintf("t%d.ibd", x.S)
		}
	}
	switch x.K {
	case "d", "D":
		a.Paths = []string{dir + "/ibdata1"}
	case "p", "r":
		a.Paths = []string{dir + "/" + name}
	case "L":
		for i := 0; i < d.redo; i++ {
			a.Paths = append(a.Paths, fmt.Sprintf("%s/ib_logfile%d", dir, i))
		}
	case "O":
		if x.S < 0 {
			a.DB, a.T = "", ""
		}
		if x.From&1 != 0 {
			a.DB = ""
		}
		if x.From&2 != 0 {
			a.T = ""
		}
	case "m":
		f := []string{"ibdata1", "ibdata1", name, "ib_logfile0"}[(x.S+4)%4]
		a.Paths = []string{apiDir(x.From%len(dbs), 0) + "/" + f, dir + "/" + f}
		if _, ok := dbs[x.From%len(dbs)].files[f]; !ok {
			a.Paths[0] = a.Paths[1]
		}
	}
	return a
}

// apiResult is what one call did.
type apiResult struct {
	out  string
	end  string // how it ended, with what it left known
	done bool
}

func (r *apiResult) eq(o *apiResult) bool { return *r == *o }

func (r *apiResult) String() string {
	return fmt.Sprintf("%d bytes of output, %s", len(r.out), clip(r.end, 60))
}

func apiDiff(a, b *apiResult) string {
	if a.done != b.done {
		return fmt.Sprintf("returned: %v instead of %v", b.done, a.done)
	}
	if a.out != b.out {
		return diffOut([]byte(a.out), []byte(b.out))
	}
	i := 0
	for i < len(a.end) && i < len(b.end) && a.end[i] == b.end[i] {
		i++
	}
	k := i - 60
	if k < 0 {
		k = 0
	}
	return fmt.Sprintf("result %q instead of %q", clip(b.end[k:], 160), clip(a.end[k:], 160))
}

// perform runs a script and gives the results of the calls of each actor.
func (e *Env) perform(c *Case, dbs []*apiDB, script [][]Call, mod func(*Run)) (*Result, [][]*apiResult) {
	s := apiScript{Level: c.Level, Log: "/sim/log"}
	size := 0
	for _, d := range dbs {
		for _, b := range d.files {
			size += len(b)
		}
	}
	n := 0
	for _, l := range script {
		var a []apiCall
		for _, x := range l {
			a = append(a, c.apiCall(x, dbs))
			n++
		}
		s.Actors = append(s.Actors, a)
	}
	j, _ := json.Marshal(s)
	r := &Run{Lib: true, Arg: string(j), Files: apiFiles(c, dbs), Faults: c.Faults, Rng: hashSeed(c.Seed, 21), RtRand: hashSeed(c.Seed, 22, c.Rt), WantLog: true}
	r.Ticks = 60000000 + 1500*uint64(size)*uint64(n+1)
	if mod != nil {
		mod(r)
	}
	res := e.execRun(r)
	out := make([][]*apiResult, len(script))
	for i := range script {
		for range script[i] {
			out[i] = append(out[i], &apiResult{})
		}
	}
	at := make([]int, len(script))
	for _, o := range res.Ops {
		a := int(o.Off)
		switch {
		case o.Op == 'k' && strings.HasPrefix(o.Path, "end ") && a >= 0 && a < len(out) && at[a] < len(out[a]):
			out[a][at[a]].end = o.Path[4:]
			out[a][at[a]].done = true
			at[a]++
		case o.Op == 'a' && a >= 0 && a < len(out) && at[a] < len(out[a]):
			out[a][at[a]].out += string(o.Data)
		}
	}
	return res, out
}

// relative makes a database whose tables have the names of another's, but not
// the columns.
func relative(r *Rng, s *Spec) Spec {
	n := s.clone()
	n.Seed = r.U64()
	for i := range n.Tables {
		t := &n.Tables[i]
		if r.P(30) {
			continue
		}
		o := GenOpts{MaxCols: 5, Red: 40, NoPK: 10}
		x := genTable(r, &o, t.Slot)
		x.DB, x.Name, x.Late = t.DB, t.Name, t.Late
		*t = x
		if len(t.Cols) > 30 {
			n.DictCap = max(n.DictCap, 60)
		}
	}
	return n
}

func genDBs(r *Rng, c *Case, n int) {
	o := GenOpts{Tables: 3, MaxCols: 5, Ops: 14, Red: 35, NoPK: 8, Small: true, Update: true, Redo: true, SameName: r.P(40), DDL: []int{0, 0, 8}[r.N(3)]}
	c.Spec = genSpec(r, o)
	for ; n > 0; n-- {
		if r.P(60) {
			c.More = append(c.More, relative(r, &c.Spec))
		} else {
			c.More = append(c.More, genSpec(r, o))
		}
	}
	if r.P(60) {
		for i := range c.Spec.Tables {
			c.Spec.Tables[i].Cap = 400
		}
		for j := range c.More {
			for i := range c.More[j].Tables {
				c.More[j].Tables[i].Cap = 400
			}
		}
	}
	c.Fr = randFraming(r)
}

// randCall makes a call of the given family.
func randCall(r *Rng, c *Case, family int) Call {
	w := r.N(1 + len(c.More))
	sp := &c.Spec
	if w > 0 {
		sp = &c.More[w-1]
	}
	x := Call{W: w, S: r.N(len(sp.Tables))}
	if r.P(6) {
		x.S = -1
	}
	if family == 0 {
		x.K = []string{"d", "p", "p", "r", "p", "r"}[r.N(6)]
	} else {
		x.K = []string{"D", "L", "L", "O"}[r.N(4)]
		if x.K == "O" {
			x.From = r.N(4)
			if r.P(40) {
				x.S = -1
			}
		}
	}
	return x
}

// apiFault disturbs the file of an alias.
func apiFault(r *Rng, k string, alias int) Fault {
	name := "ibdata1"
	switch k {
	case "p", "r":
		name = "*"
	case "L":
		name = fmt.Sprintf("ib_logfile%d", r.N(2))
	}
	f := Fault{Path: apiDir(0, alias) + "/" + name}
	switch r.N(8) {
	case 0:
		f.Op, f.Act, f.Arg = opOpen, actErrno, 2
	case 1:
		f.Op, f.Act, f.Arg = opOpen, actErrno, 13
	case 2, 3:
		f.Op, f.Act, f.Arg, f.Nth, f.Count = opRead, actErrno, 5, 1+r.N(12), 1
	case 4:
		f.Op, f.Act, f.Nth, f.Count = opRead, actEOF, 1+r.N(12), 1
	case 5:
		f.Op, f.Act, f.Arg = opRead, actChunk, int64(1000+r.N(20000))
	case 6:
		f.Op, f.Act, f.Arg, f.Nth, f.Count = opRead, actErrno, 4, 1+r.N(12), r.R(1, 3)
	case 7:
		f.Op, f.Act, f.Arg, f.Nth, f.Count = opRead, actStall, int64(1+r.N(100))*1e9, 1+r.N(12), r.R(1, 3)
	}
	return f
}

func apiDamage(r *Rng, c *Case) {
	d := pageDamage(r)
	d.W = r.N(1 + len(c.More))
	switch r.N(4) {
	case 0, 1:
		d.File = "ibdata1"
		if r.P(50) {
			d.Off = int64(8+r.N(6))*pageSize + d.Off%pageSize
		}
	case 2:
		d.File = fmt.Sprintf("t%d.ibd", r.N(3))
	case 3:
		d.File = fmt.Sprintf("ib_logfile%d", r.N(2))
		d.Off = int64(2048 + r.N(8000))
		if d.Len > 4000 {
			d.Len = int64(r.N(4000))
		}
	}
	c.Dmg = append(c.Dmg, d)
}

// ---- C20 ---------------------------------------------------------------------

func genC20(r *Rng, e *Env, i int) *Case {
	c := &Case{Level: []string{"error", "error", "info", "debug"}[r.N(4)]}
	genDBs(r, c, r.N(3))
	n := 2 + r.N(3)
	al := 1
	for a := 0; a < n; a++ {
		family := r.N(2)
		k := 1 + r.N(4)
		if r.P(90) {
			x := randCall(r, c, family)
			x.K = []string{"d", "D"}[family]
			x.A = a
			c.Calls = append(c.Calls, x)
		}
		for ; k > 0; k-- {
			x := randCall(r, c, family)
			x.A = a
			if last := len(c.Calls) - 1; last >= 0 && c.Calls[last].A == a && r.P(70) {
				x.W = c.Calls[last].W // of the dictionary loaded
			}
			if r.P(8) {
				x.Alias = al
				al++
				c.Faults = append(c.Faults, apiFault(r, x.K, x.Alias))
			}
			c.Calls = append(c.Calls, x)
		}
	}
	if r.P(25) {
		apiDamage(r, c)
	}
	mod := []int64{1, 2, 3, 5, 10, 30, 100, 1000, 5000}[r.N(9)]
	c.N = []int64{int64(r.U64() >> 1), mod, 0, 0}
	return c
}

// actors splits the calls.
func actors(c *Case) [][]Call {
	var o [][]Call
	at := map[int]int{}
	for _, x := range c.Calls {
		i, ok := at[x.A]
		if !ok {
			i = len(o)
			at[x.A] = i
			o = append(o, nil)
		}
		o[i] = append(o[i], x)
	}
	return o
}

func checkC20(e *Env, c *Case) *Viol {
	if len(c.N) < 4 {
		return nil
	}
	dbs := e.databases(c)
	as := actors(c)
	if len(as) < 2 {
		return nil
	}
	schedule := func(k int) func(*Run) {
		return func(r *Run) {
			r.YieldRng, r.YieldMod, r.YieldLo, r.YieldHi = hashSeed(uint64(c.N[0]), uint64(k)), uint64(c.N[1]), uint64(c.N[2]), uint64(c.N[3])
			r.Race = k == 1 // the second schedule with the race detector watching
		}
	}
	alone := make([][]*apiResult, len(as))
	crashed := false
	get := func(i int, rt uint64) []*apiResult {
		res, out := e.perform(c, dbs, [][]Call{as[i]}, func(r *Run) { r.RtRand = mix(r.RtRand + rt) })
		crashed = crashed || res.endless() || res.crashed() || res.Flags&(flFsOver|flOverrun) != 0
		return out[0]
	}
	for i := range as {
		alone[i] = get(i, 0)
	}
	if crashed {
		e.probe("calls that crash alone")
		return nil
	}
	for k := 0; k < 2; k++ {
		res, got := e.perform(c, dbs, as, schedule(k))
		if res.Flags&(flFsOver|flOverrun) != 0 && res.Flags&flTicks == 0 {
			return nil
		}
		if strings.Contains(res.Crash, "WARNING: DATA RACE") {
			if strings.Contains(raceText(res.Crash), "syscall.sim") {
				e.probe("race inside the simulated kernel") // ours, not the program's
				return nil
			}
			return viol("race", "two parsers use the same memory without any order between them: %s", raceText(res.Crash))
		}
		if k == 1 {
			e.probe("runs with the race detector")
		}
		e.most("switches in a run", int(res.Switch))
		if res.Switch > 0 {
			e.mark(mix(res.Hash))
			e.probe("interleaved runs")
			e.probeN("calls interleaved", len(c.Calls))
		}
		for i := range as {
			for j := range as[i] {
				if alone[i][j].eq(got[i][j]) {
					if len(got[i][j].out) > 0 {
						e.probe("equal results with statements")
					}
					continue
				}
				// is the call alone repeatable at all?
				for t := uint64(1); t < 4; t++ {
					for n, x := range get(i, t) {
						if !x.eq(alone[i][n]) {
							e.probe("calls not repeatable alone")
							return nil
						}
					}
				}
				if v := broken(res); v != nil {
					return v
				}
				return viol("influenced", "call %d (%s) of parser %d of %d, among %d calls with %d switches, gives other results than alone: %s", j+1, as[i][j].K, i+1, len(as), len(c.Calls), res.Switch, apiDiff(alone[i][j], got[i][j]))
			}
		}
	}
	return nil
}

// raceText names the accesses of a race report.
func raceText(s string) string {
	var o []string
	l := strings.Split(s, "\n")
	for i, x := range l {
		for _, w := range []string{"Read at", "Write at", "Previous read at", "Previous write at"} {
			if strings.HasPrefix(x, w) && i+2 < len(l) {
				f := strings.Fields(l[i+2])
				at := ""
				if len(f) > 0 {
					at = filepath.Base(f[0])
				}
				o = append(o, fmt.Sprintf("%s in %s (%s)", strings.TrimSuffix(w, " at"), strings.TrimSpace(l[i+1]), at))
			}
		}
	}
	return strings.Join(o, "; ")
}

func simplerC20(c *Case) (o []*Case) {
	if len(c.N) < 4 {
		return nil
	}
	add := func(i int, v int64) {
		d := c.clone()
		d.N[i] = v
		o = append(o, d)
	}
	if c.N[1] < 1<<20 {
		add(1, c.N[1]*8+3)
	}
	if c.N[3] == 0 {
		add(3, 1<<18)
	} else if c.N[3]-c.N[2] > 1 {
		h := (c.N[3] - c.N[2]) / 2
		add(2, c.N[2]+h)
		add(3, c.N[3]-h)
		if h > 4 {
			add(2, c.N[2]+h/4)
			add(3, c.N[3]-h/4)
		}
	}
	return
}

// ---- C21 ---------------------------------------------------------------------

func genC21(r *Rng, e *Env, i int) *Case {
	c := &Case{Level: []string{"error", "error", "info", "debug"}[r.N(4)]}
	genDBs(r, c, r.N(3))
	family := r.N(2)
	n := 3 + r.N(8)
	al := 1
	for k := 0; k < n; k++ {
		x := randCall(r, c, family)
		if k == 0 && r.P(92) {
			x.K = []string{"d", "D"}[family]
		}
		if k > 0 && x.K != "O" && r.P(60) {
			x.W = c.Calls[k-1].W
		}
		if k > 0 && r.P(15) { // the same call again
			x = c.Calls[k-1]
			x.Alias = 0 // the fault is over
		}
		if k > 0 && r.P(5) {
			x = Call{K: "m", W: x.W, S: r.N(3), From: r.N(1 + len(c.More))}
		} else if r.P(15) {
			x.Alias = al
			al++
			if x.K != "O" {
				c.Faults = append(c.Faults, apiFault(r, x.K, x.Alias))
			}
		}
		c.Calls = append(c.Calls, x)
	}
	for r.P(30) {
		apiDamage(r, c)
	}
	return c
}

func checkC21(e *Env, c *Case) *Viol {
	if len(c.Calls) == 0 {
		return nil
	}
	dbs := e.databases(c)
	bad := false
	run := func(l []Call, rt uint64) []*apiResult {
		res, out := e.perform(c, dbs, [][]Call{l}, func(r *Run) { r.RtRand = mix(r.RtRand + rt) })
		bad = bad || res.endless() || res.crashed() || res.Flags&(flFsOver|flOverrun) != 0
		return out[0]
	}
	got := run(c.Calls, 0)
	if bad {
		// is it a call that also breaks a fresh parser?
		bad = false
		k := 0
		for k < len(got) && got[k].done {
			k++
		}
		if k == len(got) {
			return nil
		}
		fresh(c, k, -1, func(l []Call) { run(l, 0) })
		if !bad {
			return viol("breaks", "call %d (%s) of %d does not return; on a fresh parser it does", k+1, c.Calls[k].K, len(c.Calls))
		}
		return nil
	}
	failed := 0
	for k := range got {
		if strings.HasPrefix(got[k].end, "failed") {
			failed++
			e.probe("failed calls")
		}
		x := c.Calls[k]
		if x.K == "m" || x.K == "O" {
			continue
		}
		if k == 0 {
			continue
		}
		// the dictionary: the last one loaded, or if that failed also the last
		// one that was loaded completely
		var want []*apiResult
		ok := false
		try := func(skip int) {
			fresh(c, k, skip, func(l []Call) {
				out := run(l, 0)
				w := out[len(out)-1]
				want = append(want, w)
				ok = ok || w.eq(got[k])
			})
		}
		try(-1)
		if x.K != "d" && x.K != "D" && !ok {
			for i := k - 1; i >= 0 && !ok; i-- {
				if y := c.Calls[i].K; y == "d" || y == "D" {
					if !strings.HasPrefix(got[i].end, "failed") {
						break
					}
					try(i)
				}
			}
		}
		if bad {
			return nil
		}
		e.mark(mix(fnv([]byte(got[k].out)) ^ hashStr(got[k].end) ^ uint64(k)))
		if len(got[k].out) > 0 {
			e.probe("later calls with statements")
			if failed > 0 {
				e.probe("calls with statements after a failed call")
			}
		}
		if x.K == "d" || x.K == "D" {
			e.probe("dictionaries loaded again")
		}
		if ok {
			continue
		}
		for t := uint64(1); t < 4; t++ {
			rep := true
			fresh(c, k, -1, func(l []Call) {
				out := run(l, t)
				rep = out[len(out)-1].eq(want[0])
			})
			if !rep {
				e.probe("calls not repeatable on a fresh parser")
				return nil
			}
		}
		return viol("depends on earlier calls", "call %d of %d (%s, after %s) gives other results than on a fresh parser: %s", k+1, len(c.Calls), x.K, callSketch(c.Calls[:k]), apiDiff(want[0], got[k]))
	}
	return nil
}

// fresh gives call k with only what matters to it before it: the files as they
// are by then, the last dictionary (at or before skip's predecessor, if the
// loading at skip is to be disregarded), the filter.
func fresh(c *Case, k, skip int, f func([]Call)) {
	var l []Call
	dict, filter := -1, -1
	for i := 0; i < k; i++ {
		switch c.Calls[i].K {
		case "d", "D":
			if skip < 0 || i < skip {
				dict = i
			}
		case "O":
			filter = i
		}
	}
	if y := c.Calls[k].K; y == "d" || y == "D" {
		dict = -1
	}
	for i := 0; i < k; i++ {
		if i == dict || i == filter || c.Calls[i].K == "m" {
			l = append(l, c.Calls[i])
		}
	}
	f(append(l, c.Calls[k]))
}

func callSketch(l []Call) string {
	var o []string
	for _, x := range l {
		s := fmt.Sprintf("%s%d.%d", x.K, x.W, x.S)
		if x.Alias > 0 {
			s += "!"
		}
		o = append(o, s)
	}
	return strings.Join(o, " ")
}

func init() {
	register(&Prop{ID: "C20", Lib: true, Race: true, Gen: genC20, Check: checkC20, Simpler: simplerC20,
		Rule:  "one evaluation: 2-4 goroutines, each with its own parsers, load dictionaries, print, recover and read logs of up to 3 seeded databases (some files failing, some damaged); each alone, then twice all together with a switch possible before every statement of the program; non-trivial if the scheduler switched; distinct by trace of system calls",
		Probe: []string{"interleaved runs", "equal results with statements"}})
	register(&Prop{ID: "C21", Lib: true, Gen: genC21, Check: checkC21,
		Rule:  "one evaluation: 3-10 calls on one parser - dictionaries of up to 3 seeded databases loaded, tables printed or recovered, logs read, some failing, files replaced meanwhile - each call then made on a fresh parser with only the dictionary loaded; non-trivial is each later call; distinct by results",
		Probe: []string{"failed calls", "later calls with statements", "calls with statements after a failed call", "dictionaries loaded again"}})
}
