package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// One simulated run of the real program.

const (
	shmSize   = 96 << 20
	offTrace  = 1 << 16
	offOut    = offTrace + 24<<20
	offErr    = offOut + 24<<20
	offFs     = offErr + 4<<20
	offMsg    = offFs + 32<<20
	flOverrun = 1
	flTicks   = 2
	flKilled  = 4
	flMsgOver = 8
	flFsOver  = 16 // more written to files than can be recorded

	opOpen  = 1
	opRead  = 2
	opWrite = 3
	opClose = 4
	opSync  = 5
	opAny   = 6
	opStat  = 7
	opMeta  = 8
	opSeek  = 9

	actErrno  = 1
	actShort  = 2
	actChunk  = 3
	actStall  = 4
	actKill   = 5
	actEOF    = 6
	actJump   = 7
	actCap    = 8
	actTrunc  = 9
	actSector = 10
)

var opNames = map[int]string{1: "open", 2: "read", 3: "write", 4: "close", 5: "sync", 6: "any", 7: "stat", 8: "meta", 9: "seek"}
var actNames = map[int]string{1: "error", 2: "short", 3: "chunked", 4: "stall", 5: "kill", 6: "early-eof", 7: "clock-jump", 8: "device-full", 9: "shrink", 10: "bad-sector"}

// Fault is one entry of the fault plan.
type Fault struct {
	Op    int    `json:"op"`
	Act   int    `json:"act"`
	Path  string `json:"path"`
	Nth   int    `json:"nth,omitempty"`
	Count int    `json:"count,omitempty"`
	Lo    int64  `json:"lo,omitempty"`
	Hi    int64  `json:"hi,omitempty"`
	Arg   int64  `json:"arg,omitempty"`
	Arg2  int64  `json:"arg2,omitempty"`
}

func (f Fault) kind() string {
	k := opNames[f.Op] + "-" + actNames[f.Act]
	if f.Act == actErrno || f.Act == actSector {
		k += "-" + syscall.Errno(f.Arg).Error()
		k = strings.ReplaceAll(k, " ", "_")
	}
	where := "input"
	switch {
	case f.Path == "stdout" || f.Path == "stderr":
		where = f.Path
	case strings.HasPrefix(f.Path, "/sim/log") || strings.HasPrefix(f.Path, "/tmp"):
		where = "log"
	case f.Path == "*" || f.Path == "":
		where = "anything"
	}
	return where + ":" + k
}

type SimFile struct {
	Kind byte
	Mode uint32
	Name string
	Data []byte
}

type Run struct {
	Lib      bool
	Race     bool // with the race detector
	Args     []string
	Files    []SimFile
	Faults   []Fault
	Rng      uint64
	RtRand   uint64
	Ticks    uint64
	Epoch    int64
	Pid      int
	YieldRng uint64
	YieldMod uint64
	YieldLo  uint64
	YieldHi  uint64
	LogMsgs  bool
	Arg      string
	WantLog  bool // keep file-system operations
	Loose    bool // more output than can be recorded is no sign of an endless run
	Trace    bool // keep the trace text
}

type FsOp struct {
	Op    byte
	Path  string
	Path2 string
	Off   int64
	Data  []byte
}

type LogMsg struct {
	Level string
	Text  string
}

type Result struct {
	Exit    int
	Signal  int
	Stdout  []byte
	Stderr  []byte // bytes the program wrote to fd 2
	Crash   string // bytes the runtime itself printed (panics)
	Ops     []FsOp
	Msgs    []LogMsg
	Ticks   uint64
	Events  uint64
	Refused uint64
	Flags   uint64
	SimNs   uint64
	Switch  uint64
	Yields  uint64
	ReadN   uint64
	Alloc   uint64 // bytes asked of the allocator
	Fired   []uint64
	Hash    uint64 // of the event trace
	Text    string // trace text if asked for
	OpHash  uint64
}

func (r *Result) crashed() bool { return r.Signal != 0 || r.Crash != "" }
func (r *Result) endless() bool { return r.Flags&flTicks != 0 || r.Exit == 98 }

// Worker owns the shared memory and scratch files of one slot.
type Worker struct {
	dir string
	shm []byte
	fd  *os.File
	n   int
}

func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		t, err := os.MkdirTemp(d, "vsim")
		if err == nil {
			return t
		}
	}
	fatalf("no scratch directory")
	return ""
}

func NewWorker(base string, i int) *Worker {
	w := &Worker{dir: filepath.Join(base, fmt.Sprintf("w%d", i))}
	must(os.MkdirAll(w.dir, 0755))
	f, err := os.Create(filepath.Join(w.dir, "shm"))
	must(err)
	must(f.Truncate(shmSize))
	m, err := syscall.Mmap(int(f.Fd()), 0, shmSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	w.shm, w.fd = m, f
	return w
}

func (w *Worker) Close() {
	syscall.Munmap(w.shm)
	w.fd.Close()
}

func putU64(b *bytes.Buffer, v uint64) {
	var t [8]byte
	binary.LittleEndian.PutUint64(t[:], v)
	b.Write(t[:])
}
func putBlob(b *bytes.Buffer, d []byte) {
	putU64(b, uint64(len(d)))
	b.Write(d)
}

var baseFiles = []SimFile{
	{'d', 0755, "/", nil}, {'d', 0755, "/sim", nil}, {'d', 0755, "/sim/data", nil}, {'d', 0755, "/sim/cwd", nil},
	{'d', 0755, "/etc", nil}, {'d', 0755, "/dev", nil}, {'d', 0755, "/proc", nil}, {'d', 0755, "/root", nil},
	{'f', 0644, "/etc/passwd", []byte("root:x:0:0:root:/root:/bin/sh\n")},
	{'f', 0644, "/etc/group", []byte("root:x:0:\n")},
	{'f', 0644, "/proc/sys/kernel/hostname", []byte("simhost\n")},
}

func (s *Run) image() []byte {
	var b bytes.Buffer
	putU64(&b, 0x4d49534256)
	putU64(&b, s.Rng)
	putU64(&b, s.RtRand)
	putU64(&b, s.Ticks)
	putU64(&b, uint64(s.Epoch))
	putU64(&b, uint64(s.Pid))
	putU64(&b, s.YieldRng)
	putU64(&b, s.YieldMod)
	hi := s.YieldHi
	if hi == 0 {
		hi = 1 << 62
	}
	putU64(&b, s.YieldLo)
	putU64(&b, hi)
	o := uint64(0)
	if s.LogMsgs {
		o |= 1
	}
	if s.YieldMod > 0 && !s.Lib {
		o |= 2
	}
	putU64(&b, o)
	putBlob(&b, []byte(s.Arg))
	files := append(append([]SimFile{}, baseFiles...), s.Files...)
	putU64(&b, uint64(len(files)))
	for _, f := range files {
		putU64(&b, uint64(f.Kind))
		putU64(&b, uint64(f.Mode))
		putBlob(&b, []byte(f.Name))
		putBlob(&b, f.Data)
	}
	putU64(&b, uint64(len(s.Faults)))
	for _, f := range s.Faults {
		putU64(&b, uint64(f.Op))
		putU64(&b, uint64(f.Act))
		putBlob(&b, []byte(f.Path))
		putU64(&b, uint64(f.Nth))
		putU64(&b, uint64(f.Count))
		putU64(&b, uint64(f.Lo))
		putU64(&b, uint64(f.Hi))
		putU64(&b, uint64(f.Arg))
		putU64(&b, uint64(f.Arg2))
	}
	return b.Bytes()
}

const runWall = 120 * time.Second

func (w *Worker) Exec(bin string, s *Run) *Result {
	cnt := func(i int) uint64 { return binary.LittleEndian.Uint64(w.shm[8*i:]) }
	for i := 0; i < offTrace; i++ {
		w.shm[i] = 0
	}
	if s.Ticks == 0 {
		s.Ticks = 1 << 40
	}
	if s.Epoch == 0 {
		s.Epoch = 1700000000e9
	}
	if s.Pid == 0 {
		s.Pid = 4242
	}
	sc := filepath.Join(w.dir, "scenario")
	must(os.WriteFile(sc, s.image(), 0644))
	ef, err := os.Create(filepath.Join(w.dir, "stderr"))
	must(err)
	defer ef.Close()
	sf, err := os.Open(sc)
	must(err)
	defer sf.Close()
	null, err := os.Open("/dev/null")
	must(err)
	defer null.Close()
	// Nothing in arguments and environment depends on the place of the scratch
	// directory: their length moves what the program allocates.
	cmd := &exec.Cmd{
		Path:       bin,
		Args:       append([]string{"db-recovery"}, s.Args...),
		Env:        []string{"VSIM_SCENARIO=/proc/self/fd/5", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "GOMEMLIMIT=2200MiB", "TZ=UTC", "USER=root", "HOME=/root", "TMPDIR=/tmp", "GORACE=atexit_sleep_ms=0 halt_on_error=1 exitcode=66"},
		Dir:        "/",
		Stderr:     ef,
		ExtraFiles: []*os.File{null, w.fd, sf},
	}
	must(cmd.Start())
	timer := time.AfterFunc(runWall, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !timer.Stop() {
		fatalf("a simulated run did not end within %v of wall time", runWall)
	}
	r := &Result{}
	if cmd.ProcessState != nil {
		ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			r.Signal = int(ws.Signal())
		} else {
			r.Exit = ws.ExitStatus()
		}
	}
	if r.Exit == 96 {
		b, _ := os.ReadFile(filepath.Join(w.dir, "stderr"))
		fatalf("simulated kernel failed to start: %s", b)
	}
	w.n++
	cp := func(off int, n uint64) []byte { return append([]byte{}, w.shm[off:off+int(n)]...) }
	r.Ticks, r.Events, r.Refused, r.Flags = cnt(1), cnt(2), cnt(7), cnt(8)
	r.Yields, r.SimNs, r.Switch, r.ReadN, r.Alloc = cnt(9), cnt(10), cnt(12), cnt(13), cnt(14)
	r.Stdout = cp(offOut, cnt(4))
	r.Stderr = cp(offErr, cnt(5))
	for i := range s.Faults {
		r.Fired = append(r.Fired, cnt(64+i))
	}
	tr := w.shm[offTrace : offTrace+int(cnt(3))]
	r.Hash = fnv(tr)
	if s.Trace {
		r.Text = string(tr)
	}
	fs := w.shm[offFs : offFs+int(cnt(6))]
	r.OpHash = fnv(fs)
	if s.WantLog {
		fs = append([]byte{}, fs...)
		for len(fs) >= 33 {
			o := FsOp{Op: fs[0]}
			var v [4]uint64
			for i := range v {
				v[i] = binary.LittleEndian.Uint64(fs[1+8*i:])
			}
			fs = fs[33:]
			o.Path, fs = string(fs[:v[0]]), fs[v[0]:]
			o.Path2, fs = string(fs[:v[1]]), fs[v[1]:]
			o.Off = int64(v[2])
			o.Data, fs = fs[:v[3]], fs[v[3]:]
			r.Ops = append(r.Ops, o)
		}
	}
	if s.LogMsgs {
		m := cp(offMsg, cnt(11))
		for len(m) > 0 {
			i := bytes.IndexByte(m, 0)
			lv := string(m[:i])
			n := binary.LittleEndian.Uint64(m[i+1:])
			m = m[i+9:]
			r.Msgs = append(r.Msgs, LogMsg{lv, string(m[:n])})
			m = m[n:]
		}
	}
	ef.Seek(0, 0)
	b, _ := io.ReadAll(io.LimitReader(ef, 1<<16))
	r.Crash = string(b)
	if r.Flags&flOverrun != 0 && r.Flags&flTicks == 0 && r.Signal == 0 && !s.Loose {
		// recording capacity exceeded: only an endless run produces that much
		r.Flags |= flTicks
	}
	return r
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for len(b) >= 8 {
		h = mix(h ^ binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}
