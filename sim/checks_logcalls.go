package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// The logging functions called directly, as a program that uses the packages
// does (C16).

var logFuncs = []string{"Trace", "Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf", "Fatal", "Fatalf"}

const logFatal = 9 // the first of them that ends the process

func genLogCalls(r *Rng) *Case {
	c := &Case{Seed: r.U64(), Rt: r.U64(), Variant: "calls"}
	levels := []string{"trace", "debug", "info", "warn", "error", "fatal", "TRACE", "Warn", "", "nonsense", " error", "error ", "fatal\n"}
	c.Level = levels[r.N(len(levels))]
	na := 1
	if r.P(40) {
		na = r.R(2, 3)
	}
	for n := r.R(1, 25); n > 0; n-- {
		if na == 1 && r.P(8) {
			c.N = append(c.N, -1-int64(r.N(len(levels)))) // the level changes
			continue
		}
		f := r.N(logFatal)
		if na == 1 && r.P(4) {
			f = logFatal + r.N(2)
		}
		c.N = append(c.N, int64(f)|int64(r.N(na))<<4|int64(r.N(1<<20))<<8)
	}
	return c
}

func simplerC16(c *Case) (o []*Case) {
	if c.Variant != "calls" {
		return nil
	}
	for i := range c.N {
		d := c.clone()
		d.N = append(d.N[:i], d.N[i+1:]...)
		o = append(o, d)
	}
	return o
}

// logCall gives the driver's call and the text of its message.
func logCall(i int, n int64) (name string, args []string, text string) {
	name = logFuncs[n&15]
	r := NewRng(uint64(n >> 8))
	id := fmt.Sprintf("m%d;", i)
	var a []interface{}
	if strings.HasSuffix(name, "f") {
		f := []string{"%s %d %q", "%s", "%s 100%%", "%s%v\n", "%s at %d\nand on", "%s %d", "%s %s %s", "%s%x"}[r.N(8)]
		args = append(args, f)
	}
	args = append(args, id)
	a = append(a, id)
	for k := r.N(4); k > 0; k-- {
		if r.P(40) {
			v := r.N(100000) - 1000
			args = append(args, "#"+strconv.Itoa(v))
			a = append(a, v)
		} else {
			s := []string{"", "x", " a b ", "%d", "two\nlines", "\n", "é'\\", "100%", strings.Repeat("long ", 2000), "I1120 02:00:00.000000", "nil"}[r.N(11)]
			args = append(args, s)
			a = append(a, s)
		}
	}
	if strings.HasSuffix(name, "f") {
		text = fmt.Sprintf(args[0], a...)
		if !strings.HasSuffix(text, "\n") {
			text += "\n"
		}
	} else {
		text = fmt.Sprintln(a...)
	}
	return name, args, text
}

func checkLogCalls(e *Env, c *Case) *Viol {
	levels := []string{"trace", "debug", "info", "warn", "error", "fatal", "TRACE", "Warn", "", "nonsense"}
	s := apiScript{Level: c.Level, Log: "/sim/log"}
	rankOf := func(l string) int {
		if n, ok := levelRank[strings.ToLower(l)]; ok {
			return n
		}
		return levelRank["info"]
	}
	rank := rankOf(c.Level)
	var want [3][]string
	total, calls, fatal := 0, 0, false
	s.Actors = make([][]apiCall, 3)
	for i, n := range c.N {
		if n < 0 {
			l := levels[int(-1-n)%len(levels)]
			s.Actors[0] = append(s.Actors[0], apiCall{K: "l", DB: l})
			if !fatal {
				rank = rankOf(l)
			}
			continue
		}
		name, args, text := logCall(i, n)
		a := int(n>>4&15) % 3
		s.Actors[a] = append(s.Actors[a], apiCall{K: "w", DB: name, Paths: args})
		if fatal {
			continue
		}
		calls++
		if levelRank[strings.ToLower(strings.TrimSuffix(name, "f"))] <= rank {
			want[a] = append(want[a], text)
			total++
		} else {
			e.probe("messages below the level")
		}
		fatal = int(n&15) >= logFatal
	}
	j, _ := json.Marshal(s)
	r := &Run{Lib: true, Arg: string(j), Files: dirs(), Rng: hashSeed(c.Seed, 21), RtRand: hashSeed(c.Seed, 22, c.Rt), WantLog: true}
	r.YieldRng = hashSeed(c.Seed, 23)
	r.Ticks = 60000000
	res := e.execRun(r)
	if res.Flags&(flFsOver|flOverrun) != 0 {
		return nil
	}
	if res.endless() || res.Signal != 0 {
		return viol("hang", "a script of %d calls of the logging functions does not end", calls)
	}
	if total > 0 {
		e.mark(mix(hashStr(string(j)) ^ c.Seed))
		e.probe("the logging functions called directly")
	}
	text, v := logText(res, s.Log)
	if v != nil {
		return v
	}
	got := 0
	for text != "" {
		h := logHead.FindString(text)
		t, a := text[len(h):], 0
		for a < 3 && (h == "" || len(want[a]) == 0 || !strings.HasPrefix(t, want[a][0])) {
			a++
		}
		if a == 3 {
			if fatal && got == total {
				return nil // what glog says of the goroutines at the end
			}
			return viol("wrong message", "level %q, after %d of %d messages the log goes on with %q, next are %q", c.Level, got, total, clip(text, 200), clip(fmt.Sprint(want), 200))
		}
		text = t[len(want[a][0]):]
		want[a] = want[a][1:]
		got++
	}
	if got < total {
		return viol("missing message", "level %q: the log ends after %d of %d messages, missing are %q", c.Level, got, total, clip(fmt.Sprint(want), 200))
	}
	return nil
}
