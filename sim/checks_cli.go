package main

import (
	"bytes"
	"strings"
)

// Checks of the command line.

func genC23(r *Rng, e *Env, i int) *Case {
	c := genAny(r, nil)
	c.N = []int64{int64(r.U64() >> 1)}
	return c
}

// opt is an option of the command line.
type opt struct{ name, val string }

// options splits the arguments of a run into command words and options.
func options(args []string) (words []string, os []opt) {
	for i := 0; i < len(args); i++ {
		if strings.HasPrefix(args[i], "--") {
			os = append(os, opt{args[i], args[i+1]})
			i++
		} else {
			words = append(words, args[i])
		}
	}
	return
}

// general options can stand before the command words.
func (o opt) general() bool {
	return o.name == "--OpType" || o.name == "--LogPath" || o.name == "--LogLevel"
}

// arrange writes the options in another order, spelling and place.
func arrange(r *Rng, words []string, os []opt) []string {
	os = append([]opt{}, os...)
	for i := len(os) - 1; i > 0; i-- {
		j := r.N(i + 1)
		os[i], os[j] = os[j], os[i]
	}
	at := make([][]string, len(words)+1) // options behind so many words
	for _, o := range os {
		k := len(words)
		if o.general() && r.P(50) {
			k = r.N(len(words))
		}
		if r.P(50) {
			at[k] = append(at[k], o.name+"="+o.val)
		} else {
			at[k] = append(at[k], o.name, o.val)
		}
	}
	a := append([]string{}, at[0]...)
	for i, w := range words {
		a = append(append(a, w), at[i+1]...)
	}
	return a
}

// spoil makes a command line that asks for nothing sensible.
func spoil(r *Rng, words []string, os []opt) ([]string, string) {
	os = append([]opt{}, os...)
	switch r.N(8) {
	case 0:
		os = append(os, opt{[]string{"--Tablename", "--RedoFiles", "--Force", "--dbname"}[r.N(4)], "x"})
		return arrange(r, words, os), "an unknown option"
	case 1:
		a := arrange(r, words, os)
		return append(a, []string{"--DBName", "--TableName", "--SysDataFile"}[r.N(3)]), "an option without a value"
	case 2:
		if words[1] == "FromRedoFile" {
			os = append(os, opt{"--TableDataFile", tabPath})
		} else {
			os = append(os, opt{"--RedoFile", redoPath(0)})
		}
		return arrange(r, words, os), "an option of the other command"
	}
	var need []int
	for i, o := range os {
		switch o.name {
		case "--SysDataFile", "--TableDataFile", "--RedoFile":
			need = append(need, i)
		case "--DBName", "--TableName":
			if words[1] == "FromDataFile" {
				need = append(need, i)
			}
		}
	}
	k := need[r.N(len(need))]
	name := os[k].name
	os = append(os[:k], os[k+1:]...)
	return arrange(r, words, os), "no " + name
}

func checkC23(e *Env, c *Case) *Viol {
	_, cap, _, in := e.input(c)
	if in == nil || len(c.N) == 0 {
		return nil
	}
	base := e.exec(c, in, func(x *Run) { x.WantLog, x.LogMsgs = true, true })
	if base.Flags&(flMsgOver|flFsOver) != 0 || base.endless() || base.crashed() {
		return nil // another property's business
	}
	e.mark(mix(cap.Hash ^ fnv(base.Stdout) ^ uint64(c.N[0])))
	words, os := options(in.args(c))
	r := NewRng(hashSeed(uint64(c.N[0]), 71))
	for i := 0; i < 2; i++ {
		a := arrange(r, words, os)
		res := e.exec(c, in, func(x *Run) { x.Args, x.WantLog, x.LogMsgs = a, true, true })
		e.probe("command lines rearranged")
		if strings.HasPrefix(a[0], "--") || strings.HasPrefix(a[1], "--") {
			e.probe("options before the command")
		}
		if !bytes.Equal(base.Stdout, res.Stdout) || base.Exit != res.Exit {
			return viol("options", "the same options in another order, spelling or place (%q) end with status %d instead of %d and give other output: %s %s", a, res.Exit, base.Exit, diffOut(base.Stdout, res.Stdout), clip(string(res.Stderr), 300))
		}
		if m := messages(res.Msgs, base.Msgs); m != "" {
			return viol("log", "the same options in another order, spelling or place (%q) log other messages: %s", a, m)
		}
		if m := places(base, res); m != "" {
			return viol("log", "the same options in another order, spelling or place (%q) log to other places: %s", a, m)
		}
	}
	a, what := spoil(r, words, os)
	res := e.exec(c, in, func(x *Run) { x.Args = a })
	e.probe("wrong command lines")
	if res.endless() {
		return viol("endless", "with %s in the command line %q the run did not end", what, a)
	}
	if n := len(parseOutput(res.Stdout).Stmts); n > 0 {
		return viol("statements", "with %s in the command line %q the run prints %d statements", what, a, n)
	}
	if res.Exit == 0 && len(res.Stderr) == 0 {
		return viol("silent", "with %s in the command line %q the run ends like a success", what, a)
	}
	return nil
}

// messages compares the messages of two runs.
func messages(a, b []LogMsg) string {
	if len(a) != len(b) {
		return "their number differs"
	}
	return ""
}

// places compares the directories two runs have their logs in.
func places(a, b *Result) string {
	dir := func(res *Result) map[string]bool {
		m := map[string]bool{}
		for p := range logFiles(res) {
			m[p[:strings.LastIndexByte(p, '/')]] = true
		}
		return m
	}
	x, y := dir(a), dir(b)
	for p := range x {
		if !y[p] {
			return "nothing in " + p
		}
	}
	for p := range y {
		if !x[p] {
			return "files in " + p
		}
	}
	return ""
}

func init() {
	register(&Prop{
		ID:    "C23",
		Gen:   genC23,
		Check: checkC23,
		Rule:  "one evaluation: the captured files of a seeded history, read by one command with its options in the usual order, then twice with the same options in a seeded order, spelling and place, then once with a required option missing, an unknown one, one without its value or one of the other command; non-trivial always; distinct by hash of the files, the output and the arrangement",
		Probe: []string{"command lines rearranged", "options before the command", "wrong command lines"},
	})
}
