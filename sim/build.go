package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

// Builds the system under test: /repo's working tree, unmodified on disk, with
// a build overlay that puts the program on the simulated kernel.

type Built struct {
	CLI string // the db-recovery program
	Lib string // a driver of the exported parser API, with yield points
	// the same, with the happens-before race detector
	Race string
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

// fatalf is an error of the check (never a verdict).
func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+f+"\n", a...)
	os.Exit(2)
}

type patch struct{ old, new string }

func patchFile(path string, ps []patch) string {
	b, err := os.ReadFile(path)
	must(err)
	s := string(b)
	for _, p := range ps {
		if strings.Count(s, p.old) < 1 {
			fatalf("toolchain file %s does not contain %q: wrong Go version?", path, p.old)
		}
		s = strings.Replace(s, p.old, p.new, 1)
	}
	return s
}

func goroot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	return strings.TrimSpace(string(out))
}

// wrapped system calls: real name in zsyscall -> simulated body.
var syscallWraps = []struct{ name, params, results, sim string }{
	{"openat", "dirfd int, path string, flags int, mode uint32", "(fd int, err error)", "return simOpenat(dirfd, path, flags, mode)"},
	{"read", "fd int, p []byte", "(n int, err error)", "return simRead(fd, p)"},
	{"write", "fd int, p []byte", "(n int, err error)", "return simWrite(fd, p)"},
	{"pread", "fd int, p []byte, offset int64", "(n int, err error)", "return simPread(fd, p, offset)"},
	{"pwrite", "fd int, p []byte, offset int64", "(n int, err error)", "return simPwrite(fd, p, offset)"},
	{"Close", "fd int", "(err error)", "return simClose(fd)"},
	{"Seek", "fd int, offset int64, whence int", "(off int64, err error)", "return simSeek(fd, offset, whence)"},
	{"Fstat", "fd int, stat *Stat_t", "(err error)", "return simFstat(fd, stat)"},
	{"fstatat", "fd int, path string, stat *Stat_t, flags int", "(err error)", "return simFstatat(fd, path, stat, flags)"},
	{"faccessat", "dirfd int, path string, mode uint32", "(err error)", "var st Stat_t; return simFstatat(dirfd, path, &st, 0)"},
	{"faccessat2", "dirfd int, path string, mode uint32, flags int", "(err error)", "var st Stat_t; return simFstatat(dirfd, path, &st, 0)"},
	{"Mkdirat", "dirfd int, path string, mode uint32", "(err error)", "return simMkdirat(dirfd, path, mode)"},
	{"unlinkat", "dirfd int, path string, flags int", "(err error)", "return simUnlinkat(dirfd, path, flags)"},
	{"Renameat", "olddirfd int, oldpath string, newdirfd int, newpath string", "(err error)", "return simRenameat(olddirfd, oldpath, newdirfd, newpath)"},
	{"symlinkat", "oldpath string, newdirfd int, newpath string", "(err error)", "return simSymlinkat(oldpath, newdirfd, newpath)"},
	{"linkat", "olddirfd int, oldpath string, newdirfd int, newpath string, flags int", "(err error)", "return simLinkat(olddirfd, oldpath, newdirfd, newpath, flags)"},
	{"readlinkat", "dirfd int, path string, buf []byte", "(n int, err error)", "return simReadlinkat(dirfd, path, buf)"},
	{"Ftruncate", "fd int, length int64", "(err error)", "f := simGet(fd); if f == nil || f.ino == nil { return EBADF }; return simTruncTo(f.path, f.ino, length)"},
	{"Truncate", "path string, length int64", "(err error)", "p := simFollow(simClean(-100, path)); return simTruncTo(p, simNode(p), length)"},
	{"Fsync", "fd int", "(err error)", "return simFsync(fd)"},
	{"Fdatasync", "fd int", "(err error)", "return simFsync(fd)"},
	{"Fchmod", "fd int, mode uint32", "(err error)", "f := simGet(fd); if f == nil { return EBADF }; return simChmodish(f.path, \"fchmod\")"},
	{"fchmodat", "dirfd int, path string, mode uint32", "(err error)", "return simChmodish(simClean(dirfd, path), \"chmod\")"},
	{"fchmodat2", "dirfd int, path string, mode uint32, flags int", "(err error)", "return simChmodish(simClean(dirfd, path), \"chmod\")"},
	{"Fchown", "fd int, uid int, gid int", "(err error)", "f := simGet(fd); if f == nil { return EBADF }; return simChmodish(f.path, \"fchown\")"},
	{"Fchownat", "dirfd int, path string, uid int, gid int, flags int", "(err error)", "return simChmodish(simClean(dirfd, path), \"chown\")"},
	{"utimensat", "dirfd int, path string, times *[2]Timespec, flag int", "(err error)", "return simChmodish(simClean(dirfd, path), \"utimes\")"},
	{"Getdents", "fd int, buf []byte", "(n int, err error)", "return simGetdents(fd, buf)"},
	{"Getcwd", "buf []byte", "(n int, err error)", "return copy(buf, \"/sim/cwd\\x00\"), nil"},
	{"Getpid", "", "(pid int)", "return simPid"},
	{"Getppid", "", "(ppid int)", "return 1"},
	{"Uname", "buf *Utsname", "(err error)", "*buf = Utsname{}; for i, c := range []byte(\"simhost\") { buf.Nodename[i] = int8(c) }; return nil"},
	{"fcntl", "fd int, cmd int, arg int", "(val int, err error)", "if simGet(fd) == nil { return -1, EBADF }; if cmd == 3 { return simGet(fd).flags, nil }; return 0, nil"},
	{"sendfile", "outfd int, infd int, offset *int64, count int", "(written int, err error)", "return -1, ENOSYS"},
	{"Splice", "rfd int, roff *int64, wfd int, woff *int64, len int, flags int", "(n int64, err error)", "return -1, ENOSYS"},
	{"Flock", "fd int, how int", "(err error)", "return nil"},
	{"mmap", "addr uintptr, length uintptr, prot int, flags int, fd int, offset int64", "(xaddr uintptr, err error)", "return simMmap(length, prot, flags, fd, offset)"},
}

func genToolchainOverlay(work, simDir string, repl map[string]string) {
	gr := goroot()
	put := func(rel, content string) {
		p := filepath.Join(work, "go_"+strings.ReplaceAll(rel, "/", "_"))
		must(os.WriteFile(p, []byte(content), 0644))
		repl[filepath.Join(gr, "src", rel)] = p
	}
	src := func(rel string) string { return filepath.Join(gr, "src", rel) }
	read := func(name string) string {
		b, err := os.ReadFile(filepath.Join(simDir, "overlay", name))
		must(err)
		return string(b)
	}
	put("runtime/proc.go", patchFile(src("runtime/proc.go"), []patch{
		{"if !iscgo && cgoHasExtraM", "if cgoHasExtraM"}, // simulated time passes with cgo, too
		{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
		{"\t\t\tfaketime = when\n", "\t\t\tfaketime = when\n\t\t\tsimJumps++\n\t\t\tif simJumps > simJumpLimit {\n\t\t\t\texit(98)\n\t\t\t}\n"},
	}))
	put("runtime/malloc.go", patchFile(src("runtime/malloc.go"), []patch{
		{"func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {", "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n\tSimAllocated += uint64(size)"},
	}))
	put("runtime/time_fake.go", read("time_fake.go.txt"))
	r := patchFile(src("runtime/rand.go"), []patch{
		{"func randinit() {", "func randinit() {\n\tstartupRand = nil"},
		{"if readRandom(seed[:]) != len(seed) || allZero(seed[:]) {", "for i := range seed { seed[i] = byte(i*7 + 3) }\n\t\tif false {"},
	})
	i := strings.Index(r, "\nfunc rand() uint64 {")
	j := strings.Index(r[i:], "\n}\n")
	r = r[:i] + "\nfunc rand() uint64 {\n\treturn simRand()\n}\n" + r[i+j+3:]
	put("runtime/rand.go", r)
	put("runtime/zsim.go", read("runtime_zsim.go.txt"))

	z := patchFile(src("syscall/zsyscall_linux_amd64.go"), nil)
	var w strings.Builder
	w.WriteString("package syscall\n\n")
	for _, c := range syscallWraps {
		old := "\nfunc " + c.name + "("
		if strings.Count(z, old) != 1 {
			fatalf("toolchain: no syscall function %s", c.name)
		}
		z = strings.Replace(z, old, "\nfunc simReal"+c.name+"(", 1)
		var args []string
		for _, p := range strings.Split(c.params, ", ") {
			if p != "" {
				args = append(args, strings.Fields(p)[0])
			}
		}
		fmt.Fprintf(&w, "func %s(%s) %s {\n\tif simOn {\n\t\t%s\n\t}\n\treturn simReal%s(%s)\n}\n\n",
			c.name, c.params, c.results, c.sim, c.name, strings.Join(args, ", "))
	}
	w.WriteString("func simFstatReal(fd int, st *Stat_t) error { return simRealFstat(fd, st) }\n")
	put("syscall/zsyscall_linux_amd64.go", z)
	put("syscall/zsimwrap.go", w.String())
	put("syscall/zsim.go", read("syscall_zsim.go.txt"))
	put("syscall/syscall_unix.go", patchFile(src("syscall/syscall_unix.go"), []patch{
		{"if faketime && (fd == 1 || fd == 2) {", "if false {"},
	}))
	put("syscall/syscall_linux.go", patchFile(src("syscall/syscall_linux.go"), []patch{
		{"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {", "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif simRefuse(trap) {\n\t\treturn ^uintptr(0), 0, ENOSYS\n\t}"},
		{"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif simRefuse(trap) {\n\t\treturn ^uintptr(0), 0, ENOSYS\n\t}"},
	}))
	put("syscall/exec_unix.go", patchFile(src("syscall/exec_unix.go"), []patch{
		{"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {", "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif simOn {\n\t\tsimBad(\"exec\", argv0)\n\t\treturn 0, EPERM\n\t}"},
		{"func Exec(argv0 string, argv []string, envv []string) (err error) {", "func Exec(argv0 string, argv []string, envv []string) (err error) {\n\tif simOn {\n\t\tsimBad(\"exec\", argv0)\n\t\treturn EPERM\n\t}"},
	}))
}

type insertion struct {
	at   int
	text string
}

// instrument adds the step counter (and yield points, and the log-message
// recorder) to one source file, keeping line numbers.
func instrument(src []byte, path string, yields bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	// //line directives would confuse Position
	tf := fset.File(f.Pos())
	off = func(p token.Pos) int { return tf.Offset(p) }
	var ins []insertion
	add := func(p token.Pos, t string) { ins = append(ins, insertion{off(p), t}) }
	needFmt := false
	body := func(b *ast.BlockStmt) {
		if b != nil {
			add(b.Lbrace+1, "simsys.SimTick();")
		}
	}
	nosplit := func(d *ast.FuncDecl) bool {
		if d.Doc == nil {
			return false
		}
		for _, c := range d.Doc.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:linkname") {
				return true
			}
		}
		return false
	}
	list := func(l []ast.Stmt) {
		if yields {
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					add(s.Pos(), "simsys.SimYield();")
				}
			}
		}
	}
	isLogs := f.Name.Name == "logs" && strings.HasSuffix(filepath.Dir(path), "/recovery/logs")
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			if nosplit(x) {
				return false
			}
			body(x.Body)
			if isLogs && x.Recv == nil && x.Body != nil {
				name := x.Name.Name
				base := strings.TrimSuffix(name, "f")
				switch base {
				case "Trace", "Debug", "Info", "Warn", "Error", "Fatal":
				default:
					return true
				}
				var names []string
				variadic := false
				for _, fl := range x.Type.Params.List {
					for _, nm := range fl.Names {
						names = append(names, nm.Name)
					}
					if _, ok := fl.Type.(*ast.Ellipsis); ok {
						variadic = true
					}
				}
				if !variadic {
					return true
				}
				fn := ""
				if base == name && len(names) == 1 {
					fn = "Sprintln"
				} else if base != name && len(names) == 2 {
					fn = "Sprintf"
				} else {
					return true
				}
				needFmt = true
				add(x.Body.Lbrace+1, fmt.Sprintf("defer simsys.SimLog(%q, func() string { return simfmt.%s(%s...) })();", base, fn, strings.Join(names, ", ")))
			}
		case *ast.FuncLit:
			body(x.Body)
		case *ast.ForStmt:
			body(x.Body)
		case *ast.RangeStmt:
			body(x.Body)
		case *ast.BranchStmt:
			if x.Tok == token.GOTO {
				add(x.Pos(), "simsys.SimTick();")
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.LabeledStmt:
			// the statement list already yields before the label
		}
		return true
	})
	imp := `;import simsys "syscall"`
	if needFmt {
		imp += `;import simfmt "fmt"`
	}
	add(f.Name.End(), imp)
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
	var out []byte
	last := 0
	for _, i := range ins {
		out = append(out, src[last:i.at]...)
		out = append(out, i.text...)
		last = i.at
	}
	out = append(out, src[last:]...)
	// keep the import used even when nothing was instrumented
	out = append(out, "\nvar _ = simsys.SimTick\n"...)
	return out, nil
}

func repoFiles(repo string) []string {
	var fs []string
	must(filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := filepath.Base(p)
			if p != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "vendor" || b == "testdata") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			fs = append(fs, p)
		}
		return nil
	}))
	return fs
}

func buildSUT(repo, simDir, work string, wantLib, wantRace, wantCLI bool) Built {
	must(os.MkdirAll(work, 0755))
	modfile := filepath.Join(work, "go.mod")
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		must(err)
		must(os.WriteFile(filepath.Join(work, n), b, 0644))
	}
	build := func(yields, race bool, pkg, out string, extra map[string]string) {
		repl := map[string]string{}
		d := filepath.Join(work, "ov_"+filepath.Base(out))
		must(os.MkdirAll(d, 0755))
		genToolchainOverlay(d, simDir, repl)
		if race {
			// the simulated kernel is not watched
			p := repl[filepath.Join(goroot(), "src", "syscall/zsim.go")]
			b, err := os.ReadFile(p)
			must(err)
			must(os.WriteFile(p, []byte(strings.ReplaceAll(string(b), "\nfunc Sim", "\n//go:noinline\nfunc Sim")), 0644))
		}
		for i, p := range repoFiles(repo) {
			b, err := os.ReadFile(p)
			must(err)
			o, err := instrument(b, p, yields)
			if err != nil {
				fatalf("instrumenting %s: %v", p, err)
			}
			q := filepath.Join(d, fmt.Sprintf("src%03d_%s", i, filepath.Base(p)))
			must(os.WriteFile(q, o, 0644))
			repl[p] = q
		}
		for k, v := range extra {
			repl[k] = v
		}
		ov := filepath.Join(d, "overlay.json")
		j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		must(os.WriteFile(ov, j, 0644))
		args := []string{"build", "-overlay", ov, "-tags", "faketime", "-ldflags=-checklinkname=0", "-modfile", modfile}
		cgo := "CGO_ENABLED=0"
		if race {
			args = append(args, "-race", "-gcflags=syscall=-race=false")
			cgo = "CGO_ENABLED=1"
		}
		cmd := exec.Command("go", append(args, "-o", out, pkg)...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), cgo, "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GOEXPERIMENT=norandomizedheapbase64")
		if b, err := cmd.CombinedOutput(); err != nil {
			fatalf("building the program under simulation failed: %v\n%s", err, b)
		}
	}
	b := Built{CLI: filepath.Join(work, "sut")}
	if wantLib {
		driver := map[string]string{
			filepath.Join(repo, "cmd/zzverifsimlib/main.go"): filepath.Join(simDir, "overlay", "libmain.go.txt"),
		}
		b.Lib = filepath.Join(work, "sutlib")
		build(true, false, "./cmd/zzverifsimlib", b.Lib, driver)
		if wantRace {
			b.Race = filepath.Join(work, "sutrace")
			build(true, true, "./cmd/zzverifsimlib", b.Race, driver)
		}
	}
	if !wantLib || wantCLI {
		build(false, false, "./cmd/db-recovery", b.CLI, nil)
	}
	_ = runtime.NumCPU
	return b
}
