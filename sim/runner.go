package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property's check.
type Prop struct {
	ID    string
	Lib   bool
	CLI   bool // needs the program besides the library's driver
	Race  bool // needs the build with the race detector, too
	Gen   func(r *Rng, e *Env, i int) *Case
	Check func(e *Env, c *Case) *Viol
	Rule  string
	Stub  string
	Probe []string // events that must have been exercised

	// Simpler gives simpler variants of a case, for the minimiser.
	Simpler func(c *Case) []*Case
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

const realCode = "real: all of /repo's non-test code in the program (cmd, recovery/ibdata, recovery/redo, recovery/utils, recovery/logs), glog, cobra, pflag, the Go library above the system-call layer and the Go runtime; "
const stubCode = "stub: system calls (in-memory file system, devices, fault plan), the runtime's clock and random source, the database server that wrote the input files"

type Replay struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Detail   string `json:"detail"`
	Hash     string `json:"observation_hash"`
	Seed     uint64 `json:"verif_seed"`
	Index    int    `json:"run"`
	Steps    int    `json:"minimiser_steps"`
	From     string `json:"minimised_from"`
	Case     *Case  `json:"case"`
}

// evaluate runs one case and returns the violation and the observation hash.
func (p *Prop) evaluate(e *Env, c *Case) (v *Viol, h uint64) {
	e.hash = 0
	e.st.Cases++
	for _, d := range c.Dmg {
		e.st.Fired["storage:"+d.Kind+" "+strings.TrimRight(d.File, "0123456789")]++
	}
	defer func() {
		// an error of this machinery decides nothing about the scenario; runCheck
		// gives no answer when there are more than a few
		if x := recover(); x != nil {
			if e.st.Panics == 0 {
				fmt.Fprintf(os.Stderr, "scenario %016x not decided: %v\n%s\n", c.Seed, x, debug.Stack())
			}
			e.st.Panics++
			v, h = nil, 0
		}
	}()
	v = p.Check(e, c)
	if v != nil && v.Kind == "memory" {
		return v, hashStr(v.Kind) // where exactly memory ends depends on the system
	}
	return v, e.hash
}

type finding struct {
	index int
	c     *Case
	v     *Viol
}

type known struct {
	prop, sig string
	re        *regexp.Regexp
}

func loadKnown(verif string) (ks []known) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) != 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "match=") {
			fatalf("bad line in known-findings.txt: %s", l)
		}
		re, err := regexp.Compile(strings.TrimPrefix(f[1], "match="))
		must(err)
		ks = append(ks, known{strings.TrimPrefix(f[0], "property="), f[2], re})
	}
	return
}

func seconds(name string, def float64) time.Duration {
	if s := os.Getenv(name); s != "" {
		var f float64
		if _, err := fmt.Sscan(s, &f); err == nil {
			def = f
		}
	}
	return time.Duration(def * float64(time.Second))
}

func runCheck(id, verif, repo string) int {
	p := props[id]
	if p == nil {
		fatalf("unknown property %s", id)
	}
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &seed)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	search := seconds("VSIM_SECONDS", map[string]float64{"quick": 40, "thorough": 900}[tier])
	base := scratchBase()
	defer os.RemoveAll(base)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		os.RemoveAll(base)
		os.Exit(2)
	}()
	b := buildSUT(repo, filepath.Join(verif, "sim"), filepath.Join(base, "build"), p.Lib, p.Race, p.CLI)
	built := time.Since(start)

	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := os.Getenv("VSIM_WORKERS"); s != "" {
		fmt.Sscan(s, &nw)
	}
	limit := 1 << 30
	if s := os.Getenv("VSIM_CASES"); s != "" {
		fmt.Sscan(s, &limit)
	}
	from := 0
	if s := os.Getenv("VSIM_FROM"); s != "" {
		fmt.Sscan(s, &from)
		limit += from
	}
	envs := make([]*Env, nw)
	for i := range envs {
		envs[i] = &Env{w: NewWorker(base, i), b: &b, tier: tier, st: newStats()}
	}
	caseOf := func(e *Env, i int) *Case {
		s := hashSeed(seed, hashStr(id), uint64(i))
		c := p.Gen(NewRng(s), e, i)
		c.Prop, c.Seed = id, s
		return c
	}
	// determinism: the same seed on two workers, twice each
	searchStart := time.Now()
	ks := loadKnown(verif)
	dets := 0
	if os.Getenv("VSIM_NODET") == "" {
		for i := 0; i < 3; i++ {
			e0 := &Env{w: envs[0].w, b: &b, tier: tier, st: newStats()}
			e1 := &Env{w: envs[nw-1].w, b: &b, tier: tier, st: newStats()}
			_, h0 := p.evaluate(e0, caseOf(e0, i))
			_, h1 := p.evaluate(e1, caseOf(e1, i))
			if h0 != h1 {
				fatalf("run %d is not deterministic: %x %x", i, h0, h1)
			}
			dets++
		}
	}
	var next int64 = int64(from) - 1
	var stop int32
	var mu sync.Mutex
	var found []finding
	knownHits := map[string]int{}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(e *Env) {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 && time.Since(searchStart) < search {
				i := int(atomic.AddInt64(&next, 1))
				if i >= limit {
					return
				}
				c := caseOf(e, i)
				v, _ := p.evaluate(e, c)
				if v == nil {
					continue
				}
				mu.Lock()
				isKnown := false
				for _, k := range ks {
					if k.prop == id && k.re.MatchString(v.Kind+": "+v.Text) {
						knownHits[k.sig]++
						isKnown = true
						break
					}
				}
				if !isKnown {
					found = append(found, finding{i, c, v})
					if os.Getenv("VSIM_KEEPGOING") == "" {
						atomic.StoreInt32(&stop, 1)
					}
				}
				mu.Unlock()
			}
		}(envs[w])
	}
	wg.Wait()
	searched := time.Since(searchStart)
	st := newStats()
	for _, e := range envs {
		st.merge(e.st)
	}
	sort.Slice(found, func(i, j int) bool { return found[i].index < found[j].index })
	if os.Getenv("VSIM_KEEPGOING") != "" {
		kinds := map[string]int{}
		for _, f := range found {
			k := f.v.Kind
			if i := strings.Index(f.v.Text, "differing columns: "); i >= 0 {
				fs := strings.Fields(f.v.Text[i+19:])
				if len(fs) > 1 {
					k += " " + fs[1]
				}
			}
			kinds[k]++
			if kinds[k] <= 2 {
				fmt.Printf("run %d: %s: %s\n", f.index, f.v.Kind, f.v.Text)
			}
		}
		fmt.Println(kinds)
	}
	code := 0
	reported := 0
	var samples []interface{}
	if len(found) > 0 {
		f := found[0]
		e := &Env{w: envs[0].w, b: &b, tier: tier, st: newStats()}
		from := describe(f.c)
		c, v, steps := minimise(p, e, f.c, f.v, seconds("VSIM_MIN", map[string]float64{"quick": 30, "thorough": 120}[tier]))
		v2, h := p.evaluate(e, c)
		if v2 == nil {
			fatalf("the violation of run %d did not repeat: %s: %s", f.index, v.Kind, v.Text)
		}
		rp := &Replay{Property: id, Kind: v2.Kind, Detail: v2.Text, Hash: fmt.Sprintf("%016x", h), Seed: seed, Index: f.index, Steps: steps, From: from, Case: c}
		dir := filepath.Join(verif, "replays")
		must(os.MkdirAll(dir, 0755))
		name := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", id, seed, f.index))
		j, _ := json.MarshalIndent(rp, "", " ")
		must(os.WriteFile(name, j, 0644))
		// a fresh process must reproduce it exactly
		exe, err := os.Executable()
		must(err)
		cmd := exec.Command(exe, "replay", name)
		cmd.Env = append(os.Environ(), "VSIM_CLI="+b.CLI, "VSIM_LIB="+b.Lib, "VSIM_RACE="+b.Race, "VERIF_DIR="+verif)
		out, err := cmd.CombinedOutput()
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 {
			fatalf("replaying %s in a fresh process did not reproduce the violation: %v\n%s", name, err, out)
		}
		fmt.Printf("%s: %s\n", v2.Kind, v2.Text)
		fmt.Printf("scenario: %s (minimised from %s in %d steps)\n", describe(c), from, steps)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, name)
		code = 1
		reported = 1
	}
	for _, k := range ks {
		if k.prop == id && (knownHits[k.sig] > 0 || true) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.sig)
		}
	}
	for i := 0; i < 2; i++ {
		c := caseOf(envs[0], i)
		samples = append(samples, map[string]interface{}{"run": i, "seed": fmt.Sprintf("%016x", c.Seed), "scenario": describe(c), "tables": tableSketch(c), "schedule": opSketch(c), "faults": faultSketch(c)})
	}
	if st.Panics > 0 {
		st.Probes["scenarios the machinery could not decide"] = st.Panics
		fmt.Printf("%d of %d scenarios could not be decided\n", st.Panics, st.Cases)
		if code == 0 && st.Panics*200 > st.Cases {
			return 2
		}
	}
	if !writeEvidence(verif, p, tier, seed, st, searched, built, time.Since(start), nw, dets, reported, samples, knownHits) {
		return 2
	}
	var missing []string
	for _, pr := range p.Probe {
		if st.Probes[pr] == 0 {
			missing = append(missing, pr)
		}
	}
	if code == 0 && limit == 1<<30 && search > 10*time.Second && len(missing) > 0 {
		fmt.Printf("note: not exercised in this run: %s\n", strings.Join(missing, ", "))
	}
	fmt.Printf("%s %s: %d scenarios, %d simulated runs, %d distinct traces, %.1f s search, exit %d\n", id, tier, st.Cases, st.Runs, len(st.Traces), searched.Seconds(), code)
	return code
}

func describe(c *Case) string {
	cols := 0
	for _, t := range c.Spec.Tables {
		cols += len(t.Cols)
	}
	s := fmt.Sprintf("%s %d tables/%d columns, %d schedule steps, %d faults, %d damaged ranges", c.Mode, len(c.Spec.Tables), cols, len(c.Spec.Ops), len(c.Faults), len(c.Dmg))
	if c.Variant != "" {
		s += ", " + c.Variant
	}
	return s
}

func tableSketch(c *Case) (o []string) {
	for _, t := range c.Spec.Tables {
		s := t.DB + "." + t.Name + "("
		for i, x := range t.Cols {
			if i > 0 {
				s += ", "
			}
			s += fmt.Sprintf("%s %s(%d)", x.Name, x.Kind, x.Len)
		}
		o = append(o, fmt.Sprintf("%s) key %v redundant=%v", s, t.PK, t.Old))
	}
	return
}

func opSketch(c *Case) string {
	var o []string
	for i, x := range c.Spec.Ops {
		if i == 40 {
			o = append(o, "...")
			break
		}
		o = append(o, fmt.Sprintf("%s%d*%d", x.K, x.T, x.A+1))
	}
	return strings.Join(o, " ")
}

func faultSketch(c *Case) (o []string) {
	for _, f := range c.Faults {
		o = append(o, fmt.Sprintf("%s nth=%d count=%d", f.kind(), f.Nth, f.Count))
	}
	for _, d := range c.Dmg {
		o = append(o, fmt.Sprintf("%s %s at %d+%d", d.File, d.Kind, d.Off, d.Len))
	}
	return
}

func writeEvidence(verif string, p *Prop, tier string, seed uint64, st *Stats, searched, built, wall time.Duration, nw, dets, violations int, samples []interface{}, kh map[string]int) bool {
	per := func(n int) float64 { return float64(int(float64(n) / searched.Hours())) }
	cov := map[string]interface{}{
		"evaluations":          st.Cases,
		"distinct_nontrivial":  len(st.Nontriv),
		"rule":                 p.Rule,
		"samples":              samples,
		"simulated_runs":       st.Runs,
		"seeds_per_hour":       per(st.Cases),
		"simulated_runs_per_h": per(st.Runs),
		"simulated_seconds":    float64(st.SimNs) / 1e9,
		"program_steps":        st.Ticks,
		"system_calls":         st.Events,
		"input_bytes_read":     st.ReadN,
		"goroutine_switches":   st.Switch,
		"statements_compared":  st.Stmts,
		"faults_injected":      st.Fired,
		"distinct_interleavings_by_system_call_trace": len(st.Traces),
		"distinct_captured_states_by_file_hash":       len(st.States),
		"probes":                                      st.Probes,
		"endings":                                     st.Exits,
		"determinism_self_check_passed":               dets,
		"workers":                                     nw,
		"build_seconds":                               built.Seconds(),
		"search_seconds":                              searched.Seconds(),
		"real_and_stub":                               realCode + stubCode + "; " + p.Stub,
	}
	if len(st.Most) > 0 {
		cov["maxima"] = st.Most
	}
	if len(kh) > 0 {
		cov["known_findings_hit"] = kh
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{"the simulated server writes pages and log records as the InnoDB 5.6/5.7 sources describe", "the simulated kernel's outcomes are ones Linux can produce", "sampling: a clean batch is evidence, not proof"},
	}
	j, err := json.MarshalIndent(ev, "", " ")
	must(err)
	dir := filepath.Join(verif, "evidence")
	must(os.MkdirAll(dir, 0755))
	must(os.WriteFile(filepath.Join(dir, p.ID+".json"), append(j, '\n'), 0644))
	return true
}

func runReplay(file, verif, repo string) int {
	j, err := os.ReadFile(file)
	must(err)
	var rp Replay
	must(json.Unmarshal(j, &rp))
	p := props[rp.Property]
	if p == nil {
		fatalf("unknown property %q", rp.Property)
	}
	base := scratchBase()
	defer os.RemoveAll(base)
	b := Built{CLI: os.Getenv("VSIM_CLI"), Lib: os.Getenv("VSIM_LIB"), Race: os.Getenv("VSIM_RACE")}
	if b.CLI == "" {
		b = buildSUT(repo, filepath.Join(verif, "sim"), filepath.Join(base, "build"), p.Lib, p.Race, p.CLI)
	}
	e := &Env{w: NewWorker(base, 0), b: &b, tier: "quick", st: newStats(), show: os.Getenv("VSIM_CLI") == ""}
	v, h := p.evaluate(e, rp.Case)
	if v == nil {
		fmt.Printf("replay %s: the property holds\n", file)
		return 0
	}
	fmt.Printf("%s: %s\n", v.Kind, v.Text)
	if hs := fmt.Sprintf("%016x", h); hs != rp.Hash || v.Kind != rp.Kind {
		fmt.Printf("replay differs from the recorded run (%s %s, recorded %s %s): the program has changed since\n", v.Kind, hs, rp.Kind, rp.Hash)
		if os.Getenv("VSIM_CLI") != "" {
			return 3
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}

// ---- minimiser -------------------------------------------------------------------

func minimise(p *Prop, e *Env, c *Case, v *Viol, budget time.Duration) (*Case, *Viol, int) {
	end := time.Now().Add(budget)
	steps := 0
	cur, cv := c.clone(), v
	try := func(d *Case) bool {
		if time.Now().After(end) {
			return false
		}
		steps++
		w, _ := p.evaluate(e, d)
		if w != nil && w.Kind == cv.Kind {
			cur, cv = d, w
			return true
		}
		return false
	}
	// ddmin over a list: size, and a function that returns the case without [i,j)
	shrink := func(n func() int, cut func(c *Case, i, j int)) {
		for k := n() / 2; k >= 1; {
			progress := false
			for i := 0; i < n() && !time.Now().After(end); {
				d := cur.clone()
				j := i + k
				if j > n() {
					j = n()
				}
				cut(d, i, j)
				if try(d) {
					progress = true
				} else {
					i += k
				}
			}
			if time.Now().After(end) {
				return
			}
			if k > 1 {
				k /= 2
			} else if !progress {
				break
			}
		}
	}
	for round := 0; round < 3; round++ {
		before := steps
		if p.Simpler != nil {
			for again := true; again && !time.Now().After(end); {
				again = false
				for _, d := range p.Simpler(cur.clone()) {
					if try(d) {
						again = true
						break
					}
				}
			}
		}
		shrink(func() int { return len(cur.Calls) }, func(c *Case, i, j int) { c.Calls = append(c.Calls[:i:i], c.Calls[j:]...) })
		for m := range cur.More {
			m := m
			shrink(func() int { return len(cur.More[m].Ops) }, func(c *Case, i, j int) {
				c.More[m].Ops = append(c.More[m].Ops[:i:i], c.More[m].Ops[j:]...)
			})
		}
		size := len(cur.Spec.Ops) + len(cur.Faults) + len(cur.Dmg) + len(cur.Spec.Tables) + len(cur.Calls)
		shrink(func() int { return len(cur.Faults) }, func(c *Case, i, j int) { c.Faults = append(c.Faults[:i:i], c.Faults[j:]...) })
		shrink(func() int { return len(cur.Dmg) }, func(c *Case, i, j int) { c.Dmg = append(c.Dmg[:i:i], c.Dmg[j:]...) })
		shrink(func() int { return len(cur.Spec.Ops) }, func(c *Case, i, j int) { c.Spec.Ops = append(c.Spec.Ops[:i:i], c.Spec.Ops[j:]...) })
		shrink(func() int { return len(cur.Slots) }, func(c *Case, i, j int) { c.Slots = append(c.Slots[:i:i], c.Slots[j:]...) })
		if len(cur.Spec.Tables) > 1 {
			shrink(func() int { return len(cur.Spec.Tables) }, func(c *Case, i, j int) {
				c.Spec.Tables = append(c.Spec.Tables[:i:i], c.Spec.Tables[j:]...)
			})
		}
		for _, f := range []func(*Case){
			func(c *Case) { c.Spec.Noise = 0 },
			func(c *Case) { c.Spec.DW = false },
			func(c *Case) { c.Spec.Scatter = false },
			func(c *Case) { c.Spec.V57 = false },
			func(c *Case) { c.Spec.Empty = false },
			func(c *Case) { c.Spec.FlushAll = true },
			func(c *Case) { c.Spec.FlushDict = true },
			func(c *Case) { c.Spec.DictCap = 400 },
			func(c *Case) { c.Level = "error" },
			func(c *Case) { c.LogPath = "" },
			func(c *Case) { c.Fr.Files = 1 },
			func(c *Case) { c.Fr.FirstNo = 1 },
			func(c *Case) { c.Fr.Spare = 0 },
			func(c *Case) {
				for i := range c.Spec.Tables {
					c.Spec.Tables[i].Old = false
				}
			},
			func(c *Case) {
				for i := range c.Spec.Tables {
					c.Spec.Tables[i].Cap = 400
				}
			},
			func(c *Case) {
				for i := range c.Spec.Tables {
					c.Spec.Tables[i].Sec, c.Spec.Tables[i].Uniq = nil, nil
				}
			},
		} {
			d := cur.clone()
			f(d)
			a, _ := json.Marshal(d)
			b, _ := json.Marshal(cur)
			if string(a) != string(b) {
				try(d)
			}
		}
		for t := 0; t < len(cur.Spec.Tables); t++ {
			t := t
			shrink(func() int {
				if t >= len(cur.Spec.Tables) {
					return 0
				}
				return len(cur.Spec.Tables[t].Cols)
			}, func(c *Case, i, j int) {
				x := &c.Spec.Tables[t]
				if j-i >= len(x.Cols) {
					j = i + len(x.Cols) - 1
				}
				if n := append(x.Cols[:i:i], x.Cols[j:]...); len(visible(n)) > 0 {
					x.Cols = n
				}
			})
		}
		for i := 0; i < len(cur.Spec.Ops); i++ {
			for i < len(cur.Spec.Ops) && cur.Spec.Ops[i].A > 0 {
				d := cur.clone()
				d.Spec.Ops[i].A /= 2
				if !try(d) {
					break
				}
			}
		}
		for i := 0; i < len(cur.Faults); i++ {
			for _, f := range []func(*Fault){
				func(f *Fault) { f.Count = 1 },
				func(f *Fault) { f.Nth = 0 },
				func(f *Fault) { f.Nth /= 2 },
			} {
				d := cur.clone()
				f(&d.Faults[i])
				if d.Faults[i] != cur.Faults[i] {
					try(d)
				}
			}
		}
		for i := 0; i < len(cur.Dmg); i++ {
			for i < len(cur.Dmg) && cur.Dmg[i].Len > 1 {
				d := cur.clone()
				d.Dmg[i].Len /= 2
				if !try(d) {
					d = cur.clone()
					d.Dmg[i].Off += (d.Dmg[i].Len + 1) / 2
					d.Dmg[i].Len /= 2
					if !try(d) {
						break
					}
				}
			}
		}
		if steps == before || size == len(cur.Spec.Ops)+len(cur.Faults)+len(cur.Dmg)+len(cur.Spec.Tables)+len(cur.Calls) || time.Now().After(end) {
			break
		}
	}
	return cur, cv, steps
}
