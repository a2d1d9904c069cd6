package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Case is one complete scenario: everything a simulated run depends on.
type Case struct {
	Prop     string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Spec     Spec     `json:"spec"`
	Fr       Framing  `json:"framing"`
	Mode     string   `json:"mode,omitempty"`  // print, recover, redo
	Slots    []int    `json:"slots,omitempty"` // tables asked for
	SelDB    string   `json:"seldb,omitempty"`
	SelTable string   `json:"seltable,omitempty"`
	Level    string   `json:"loglevel,omitempty"`
	LogPath  string   `json:"logpath,omitempty"`
	Faults   []Fault  `json:"faults,omitempty"`
	Dmg      []Damage `json:"damage,omitempty"`
	Rt       uint64   `json:"rt,omitempty"`
	Epoch    int64    `json:"epoch,omitempty"`
	Pid      int      `json:"pid,omitempty"`
	N        []int64  `json:"n,omitempty"` // property-specific numbers
	Variant  string   `json:"variant,omitempty"`
	More     []Spec   `json:"more,omitempty"`  // further databases
	Calls    []Call   `json:"calls,omitempty"` // of the parser API
}

// Call is one call of the exported parser API.
type Call struct {
	A     int    `json:"actor,omitempty"`
	K     string `json:"call"`            // d p r: dictionary, print, recover; D L O: redo dictionary, logs, filter; m: file replaced
	W     int    `json:"db,omitempty"`    // which database's file
	S     int    `json:"slot,omitempty"`  // which table; -1: none
	From  int    `json:"from,omitempty"`  // m: the database whose file takes its place
	Alias int    `json:"alias,omitempty"` // a path of its own (faults)
}

func (c *Case) clone() *Case {
	d := *c
	d.Spec = c.Spec.clone()
	d.Faults = append([]Fault{}, c.Faults...)
	d.Dmg = append([]Damage{}, c.Dmg...)
	d.Slots = append([]int{}, c.Slots...)
	d.N = append([]int64{}, c.N...)
	d.More = nil
	for i := range c.More {
		d.More = append(d.More, c.More[i].clone())
	}
	d.Calls = append([]Call{}, c.Calls...)
	return &d
}

// Damage changes bytes of an input file.
type Damage struct {
	File string `json:"file"` // ibdata1, table, redo0, redo1 ...
	Kind string `json:"kind"` // flip, zero, rand, set, cut, old
	Off  int64  `json:"off"`
	Len  int64  `json:"len,omitempty"`
	S    uint64 `json:"s,omitempty"`
	W    int    `json:"db,omitempty"` // database, where there are several
}

func (d Damage) apply(b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	off := int(d.Off)
	if off < 0 || off > len(b) {
		off = len(b)
	}
	end := off + int(d.Len)
	if end > len(b) {
		end = len(b)
	}
	r := NewRng(d.S)
	out := append([]byte{}, b...)
	switch d.Kind {
	case "cut":
		return out[:off]
	case "zero":
		for i := off; i < end; i++ {
			out[i] = 0
		}
	case "ones":
		for i := off; i < end; i++ {
			out[i] = 0xff
		}
	case "rand":
		copy(out[off:end], r.Bytes(end-off))
	case "flip":
		if off < len(out) {
			out[off] ^= byte(1 << (d.S % 8))
		}
	case "set":
		for i := off; i < end; i++ {
			out[i] = byte(d.S >> (8 * uint(end-1-i)))
		}
	case "swap": // content from elsewhere in the file
		if n := len(b) - (end - off); n > 0 {
			k := r.N(n)
			copy(out[off:end], b[k:k+end-off])
		}
	}
	return out
}

// Viol is what a check found.
type Viol struct {
	Kind string `json:"kind"` // stable class
	Text string `json:"text"`
}

func viol(kind, f string, a ...interface{}) *Viol {
	return &Viol{Kind: kind, Text: fmt.Sprintf(f, a...)}
}

// Env is one worker's surroundings.
type Env struct {
	w    *Worker
	b    *Built
	tier string
	st   *Stats
	hash uint64 // of all observations of the current case
	show bool   // print what happens (replay)
}

type Stats struct {
	Runs    int
	Cases   int
	Panics  int
	SimNs   uint64
	Ticks   uint64
	Events  uint64
	ReadN   uint64
	Switch  uint64
	Stmts   int
	Fired   map[string]int
	Probes  map[string]int
	Traces  map[uint64]bool
	States  map[uint64]bool
	Nontriv map[uint64]bool
	Samples []map[string]interface{}
	Most    map[string]int
	Exits   map[string]int
}

func newStats() *Stats {
	return &Stats{Fired: map[string]int{}, Probes: map[string]int{}, Traces: map[uint64]bool{}, States: map[uint64]bool{}, Nontriv: map[uint64]bool{}, Exits: map[string]int{}, Most: map[string]int{}}
}

func (s *Stats) merge(o *Stats) {
	s.Runs += o.Runs
	s.Cases += o.Cases
	s.Panics += o.Panics
	s.SimNs += o.SimNs
	s.Ticks += o.Ticks
	s.Events += o.Events
	s.ReadN += o.ReadN
	s.Switch += o.Switch
	s.Stmts += o.Stmts
	for k, v := range o.Fired {
		s.Fired[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k, v := range o.Exits {
		s.Exits[k] += v
	}
	for k := range o.Traces {
		s.Traces[k] = true
	}
	for k := range o.States {
		s.States[k] = true
	}
	for k := range o.Nontriv {
		s.Nontriv[k] = true
	}
	s.Samples = append(s.Samples, o.Samples...)
	for k, v := range o.Most {
		if v > s.Most[k] {
			s.Most[k] = v
		}
	}
}

func (e *Env) probe(k string)         { e.st.Probes[k]++ }
func (e *Env) probeN(k string, n int) { e.st.Probes[k] += n }

// most records a maximum.
func (e *Env) most(k string, n int) {
	if n > e.st.Most[k] {
		e.st.Most[k] = n
	}
}

// mark records that the case exercised its property in a distinct way.
func (e *Env) mark(h uint64) { e.st.Nontriv[h] = true }

const (
	ibPath  = "/sim/data/ibdata1"
	tabPath = "/sim/data/table.ibd"
)

func redoPath(i int) string { return fmt.Sprintf("/sim/data/ib_logfile%d", i) }

func dirs() []SimFile {
	return []SimFile{{'d', 01777, "/tmp", nil}, {'d', 0755, "/sim/log", nil}}
}

// Input is the set of files given to one invocation.
type Input struct {
	Ib    []byte
	Tab   []byte
	Redo  [][]byte
	Mode  string
	DB    string
	Table string
	SelDB bool // redo: pass the options
	SelT  bool
}

func (in *Input) size() int {
	n := len(in.Ib) + len(in.Tab)
	for _, r := range in.Redo {
		n += len(r)
	}
	return n
}

func (in *Input) files() []SimFile {
	fs := append(dirs(), SimFile{'f', 0640, ibPath, in.Ib})
	if in.Mode != "redo" {
		fs = append(fs, SimFile{'f', 0640, tabPath, in.Tab})
	}
	for i, r := range in.Redo {
		fs = append(fs, SimFile{'f', 0640, redoPath(i), r})
	}
	return fs
}

func (in *Input) args(c *Case) []string {
	var a []string
	if in.Mode == "redo" {
		var p []string
		for i := range in.Redo {
			p = append(p, redoPath(i))
		}
		a = []string{"recovery", "FromRedoFile", "--SysDataFile", ibPath, "--RedoFile", strings.Join(p, ",")}
		if in.SelDB {
			a = append(a, "--DBName", in.DB)
		}
		if in.SelT {
			a = append(a, "--TableName", in.Table)
		}
	} else {
		a = []string{"recovery", "FromDataFile", "--SysDataFile", ibPath, "--TableDataFile", tabPath, "--DBName", in.DB, "--TableName", in.Table}
		if in.Mode == "recover" {
			a = append(a, "--OpType", "RecoveryData")
		} else if c.Seed%3 == 0 {
			a = append(a, "--OpType", "PrintData")
		}
	}
	if c.Level != "" {
		a = append(a, "--LogLevel", c.Level)
	}
	if c.LogPath != "" {
		a = append(a, "--LogPath", c.LogPath)
	}
	return a
}

// exec runs the program on the input.
func (e *Env) exec(c *Case, in *Input, mod func(*Run)) *Result {
	r := &Run{Args: in.args(c), Files: in.files(), Rng: hashSeed(c.Seed, 21), RtRand: hashSeed(c.Seed, 22, c.Rt), Epoch: c.Epoch, Pid: c.Pid}
	r.Ticks = 40000000 + 1500*uint64(in.size())
	r.YieldRng = hashSeed(c.Seed, 23, c.Rt)
	r.YieldMod = []uint64{0, 11, 97, 900, 6000}[r.YieldRng%5]
	if mod != nil {
		mod(r)
	}
	return e.execRun(r)
}

func (e *Env) execRun(r *Run) *Result {
	bin := e.b.CLI
	if r.Lib {
		bin = e.b.Lib
	}
	if r.Race {
		bin = e.b.Race
	}
	if e.show {
		r.Trace = true
	}
	if d := os.Getenv("VSIM_DUMP"); d != "" && e.show {
		r.dump(filepath.Join(d, fmt.Sprintf("run%d", e.st.Runs)))
	}
	res := e.w.Exec(bin, r)
	s := e.st
	s.Runs++
	s.SimNs += res.SimNs
	s.Ticks += res.Ticks
	s.Events += res.Events
	s.ReadN += res.ReadN
	s.Switch += res.Switch
	s.Traces[res.Hash] = true
	e.most("bytes written to standard output", len(res.Stdout))
	if n := bytes.Count(res.Stdout, []byte("\n")); n > 0 {
		e.most("lines written to standard output", n)
	}
	for i, n := range res.Fired {
		if n > 0 {
			s.Fired[r.Faults[i].kind()] += int(n)
		}
	}
	switch {
	case res.endless():
		s.Exits["endless"]++
	case res.crashed():
		s.Exits["crash"]++
	default:
		s.Exits[fmt.Sprintf("exit %d", res.Exit)]++
	}
	e.hash = mix(e.hash ^ res.Hash ^ mix(fnv(res.Stdout)) ^ mix(fnv(res.Stderr)+1) ^ uint64(res.Exit)<<8 ^ res.Flags)
	if res.Refused > 0 {
		s.Probes["refused system calls"] += int(res.Refused)
	}
	if e.show {
		fmt.Printf("--- run %v\n--- exit %d signal %d ticks %d simulated %dms\n--- stdout (%d bytes)\n%s\n--- stderr\n%s\n%s\n", r.Args, res.Exit, res.Signal, res.Ticks, res.SimNs/1e6, len(res.Stdout), clip(string(res.Stdout), 4000), clip(string(res.Stderr), 2000), clip(res.Crash, 3000))
		fmt.Printf("--- trace (%d events)\n%s\n", res.Events, clip(res.Text, 3000))
	}
	return res
}

// dump writes the input files and the command line of a run (replay with
// VSIM_DUMP=DIR).
func (r *Run) dump(dir string) {
	must(os.MkdirAll(dir, 0755))
	for _, f := range r.Files {
		if f.Kind == 'f' {
			p := filepath.Join(dir, strings.TrimPrefix(f.Name, "/sim/data/"))
			must(os.MkdirAll(filepath.Dir(p), 0755))
			must(os.WriteFile(p, f.Data, 0644))
		}
	}
	args := ""
	for _, a := range r.Args {
		args += strings.ReplaceAll(a, "/sim/data/", "") + "\n"
	}
	must(os.WriteFile(filepath.Join(dir, "args"), []byte(args), 0644))
	must(os.WriteFile(filepath.Join(dir, "script"), []byte(r.Arg), 0644))
}

// broken reports crashes and endless runs.
func broken(res *Result) *Viol {
	if res.endless() {
		return viol("endless", "the run did not end (%d steps)", res.Ticks)
	}
	if strings.Contains(res.Crash, "out of memory") {
		return viol("memory", "the program ran out of memory (exit %d): %s", res.Exit, clip(strings.SplitN(res.Crash, "(", 2)[0], 300))
	}
	if res.Signal != 0 || strings.Contains(res.Crash, "panic:") || strings.Contains(res.Crash, "fatal error:") || strings.Contains(res.Crash, "goroutine ") {
		return viol("crash", "the program crashed (exit %d, signal %d): %s", res.Exit, res.Signal, clip(res.Crash, 800))
	}
	return nil
}

// ---- oracles ------------------------------------------------------------------

func count(l []string) map[string]int {
	m := map[string]int{}
	for _, s := range l {
		m[s]++
	}
	return m
}

// compareRows checks data-file output against the model: must once each, may
// at most once each.
func compareRows(out *Output, db, table string, cols []Col, must, may []*RowVer) *Viol {
	if len(out.Bad) > 0 {
		return viol("broken statement", "%s", out.Bad[0])
	}
	if len(out.Junk) > 0 {
		return viol("not a statement", "standard output holds %q", clip(out.Junk[0], 300))
	}
	need, spare := map[string]int{}, map[string]int{}
	for _, r := range must {
		need[canonRow(r, cols)]++
	}
	for _, r := range may {
		spare[canonRow(r, cols)]++
	}
	var extra []string
	for _, s := range out.Stmts {
		if s.DB != db || s.Table != table {
			return viol("wrong table", "statement for `%s`.`%s` instead of `%s`.`%s`: %s", s.DB, s.Table, db, table, clip(s.Raw, 300))
		}
		k, err := canonReplace(s, cols)
		if err != nil {
			return viol("wrong shape", "%v", err)
		}
		switch {
		case need[k] > 0:
			need[k]--
		case spare[k] > 0:
			spare[k]--
		default:
			extra = append(extra, k)
		}
	}
	var miss []string
	for _, k := range sortedKeys(need) {
		for i := 0; i < need[k]; i++ {
			miss = append(miss, k)
		}
	}
	switch {
	case len(miss) == 0 && len(extra) == 0:
		return nil
	case len(miss) > 0 && len(extra) > 0:
		// show the closest pair
		best, bi, bj := -1, 0, 0
		for i, m := range miss {
			for j, x := range extra {
				if n := same(m, x); n > best {
					best, bi, bj = n, i, j
				}
			}
			if i > 50 {
				break
			}
		}
		return viol("wrong values", "%d rows missing and %d not stored, of %d: stored %s, printed %s; differing columns: %s", len(miss), len(extra), len(must), showRow(miss[bi]), showRow(extra[bj]), differ(miss[bi], extra[bj], cols))
	case len(miss) > 0:
		return viol("missing", "%d of %d rows missing, e.g. %s", len(miss), len(must), showRow(miss[0]))
	}
	return viol("extra", "%d statements beyond the %d expected, e.g. %s", len(extra), len(must), showRow(extra[0]))
}

func same(a, b string) int {
	x, y := strings.Split(a, "\x01"), strings.Split(b, "\x01")
	n := 0
	for i := range x {
		if i < len(y) && x[i] == y[i] {
			n++
		}
	}
	return n
}

func differ(a, b string, cols []Col) string {
	x, y := strings.Split(a, "\x01"), strings.Split(b, "\x01")
	var o []string
	for i := range x {
		if i < len(y) && i < len(cols) && x[i] != y[i] {
			c := cols[i]
			u := ""
			if c.Unsigned {
				u = " unsigned"
			}
			o = append(o, fmt.Sprintf("%s %s(%d)%s %s stored %q printed %q", c.Name, c.Kind, c.Len, u, c.CS, clip(x[i], 80), clip(y[i], 80)))
		}
	}
	return strings.Join(o, "; ")
}

// wantUpd is one expected UPDATE statement.
type wantUpd struct {
	db, table string
	key, set  map[string]string
	anyKey    bool // the table has no key of whole columns: statement unspecified
	loose     bool // a value before was off-page: the statement may be missing
	upd       *Upd
}

func (w *wantUpd) String() string {
	return fmt.Sprintf("update `%s`.`%s` set %s where %s", w.db, w.table, showMap(w.set), showMap(w.key))
}

func showMap(m map[string]string) string {
	var k []string
	for n := range m {
		k = append(k, n)
	}
	sort.Strings(k)
	for i, n := range k {
		k[i] = fmt.Sprintf("%s=%q", n, m[n])
	}
	return clip("{"+strings.Join(k, ", ")+"}", 500)
}

// expectRedo gives the statements the updates must be turned into, according
// to the dictionary in the capture.
func (w *World) expectRedo(upds []*Upd, db, table string) []*wantUpd {
	var out []*wantUpd
	for _, u := range upds {
		t := w.tables[u.Table]
		if t == nil || t.dropped || len(u.Set) == 0 {
			continue
		}
		if db != "" && t.db != db || table != "" && t.nm != table {
			continue
		}
		x := &wantUpd{db: t.db, table: t.nm, key: map[string]string{}, set: map[string]string{}, upd: u, anyKey: t.vague(), loose: u.Ext}
		for p, v := range u.Key {
			x.key[t.spec.Cols[p].Name] = t.spec.Cols[p].canon(v)
		}
		for p, v := range u.Set {
			if t.spec.Cols[p].Hidden {
				continue
			}
			x.set[t.spec.Cols[p].Name] = t.spec.Cols[p].canon(v)
		}
		out = append(out, x)
	}
	return out
}

func (w *World) byName(db, nm string) *Table {
	for _, t := range w.order {
		if !t.dropped && t.db == db && t.nm == nm {
			return t
		}
	}
	return nil
}

// keyless reports whether a statement's table has no clustered key.
func (w *World) keyless(s *Stmt) bool {
	t := w.byName(s.DB, s.Table)
	return t != nil && t.vague()
}

func canonUpd(w *World, s *Stmt) (*wantUpd, *Viol) {
	if s.Kind != 'U' {
		return nil, viol("wrong statement", "not an UPDATE: %s", clip(s.Raw, 200))
	}
	t := w.byName(s.DB, s.Table)
	if t == nil {
		return nil, viol("wrong table", "no such table: %s", clip(s.Raw, 300))
	}
	x := &wantUpd{db: s.DB, table: s.Table, key: map[string]string{}, set: map[string]string{}}
	conv := func(m map[string]Lit, o map[string]string) *Viol {
		for n, l := range m {
			ok := false
			for i := range t.spec.Cols {
				if t.spec.Cols[i].Name == n && !t.spec.Cols[i].Hidden {
					o[n] = t.spec.Cols[i].canonLit(l)
					ok = true
				}
			}
			if !ok {
				return viol("wrong column", "table has no column %q: %s", n, clip(s.Raw, 300))
			}
		}
		return nil
	}
	if v := conv(s.Set, x.set); v != nil {
		return nil, v
	}
	if v := conv(s.Where, x.key); v != nil {
		return nil, v
	}
	return x, nil
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// partOf tells whether a holds nothing that b does not.
func partOf(a, b map[string]string) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// compareRedo checks redo output: exactly the wanted statements in order; with
// prefix, the wanted statements first and anything well formed after them.
func compareRedo(w *World, out *Output, want []*wantUpd, prefix bool) *Viol {
	if !prefix {
		if len(out.Bad) > 0 {
			return viol("broken statement", "%s", out.Bad[0])
		}
		if len(out.Junk) > 0 {
			return viol("not a statement", "standard output holds %q", clip(out.Junk[0], 300))
		}
	}
	var exp []*wantUpd
	for _, x := range want {
		if !x.anyKey {
			exp = append(exp, x)
		}
	}
	i := 0
	skip := func() {
		for i < len(exp) && exp[i].loose {
			i++
		}
	}
	// how far the expected statements may have been seen; more than one
	// possibility where some may be missing
	at := []int{0}
	for _, s := range out.Stmts {
		if w.keyless(s) {
			continue
		}
		var to []int
		if x, v := canonUpd(w, s); v == nil {
			for _, k := range at {
				for j := k; j < len(exp); j++ {
					y := exp[j]
					if x.db == y.db && x.table == y.table && eqMap(x.key, y.key) && (eqMap(x.set, y.set) || y.loose && partOf(x.set, y.set)) {
						if n := len(to); n == 0 || to[n-1] < j+1 {
							to = append(to, j+1)
						}
					}
					if !y.loose {
						break
					}
				}
			}
		}
		if len(to) > 0 {
			at = to
			continue
		}
		i = at[len(at)-1]
		skip()
		if i >= len(exp) {
			if prefix {
				return nil
			}
			return viol("extra", "statement %d of %d expected: %s", i+1, len(exp), clip(s.Raw, 400))
		}
		x, v := canonUpd(w, s)
		if v != nil {
			return v
		}
		y := exp[i]
		if x.db != y.db || x.table != y.table || !eqMap(x.key, y.key) || !eqMap(x.set, y.set) {
			// is it a later one (then some are missing), or a wrong one?
			for j := i + 1; j < len(exp) && j < i+200; j++ {
				z := exp[j]
				if x.db == z.db && x.table == z.table && eqMap(x.key, z.key) && eqMap(x.set, z.set) {
					return viol("missing", "statement %d of %d is missing: %s (next printed: %s)", i+1, len(exp), y, clip(s.Raw, 300))
				}
			}
			return viol("wrong statement", "statement %d of %d: expected %s, got %s [%s]", i+1, len(exp), y, x, clip(s.Raw, 400))
		}
		return viol("wrong statement", "statement %d of %d: %s", i+1, len(exp), clip(s.Raw, 400))
	}
	i = at[len(at)-1]
	skip()
	if i < len(exp) {
		return viol("missing", "%d of %d statements missing, the first: %s", len(exp)-i, len(exp), exp[i])
	}
	return nil
}
