package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// This file builds simnode: an overlaid standard library (the seams for files,
// process exit, randomness and the number of processors), an instrumented copy
// of /repo's working tree (a yield point before every statement), and the
// harness on top.

type patch struct{ file, old, new string }

var stdPatches = []patch{
	{"syscall/syscall_linux.go", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n\treturn openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n}",
		"func Open(path string, mode int, perm uint32) (fd int, err error) {\n\treturn simOpenat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)\n}"},
	{"syscall/syscall_linux.go", "func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n\treturn openat(", "func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n\treturn simOpenat("},
	{"syscall/syscall_linux.go", "func Mkdir(path string, mode uint32) (err error) {\n", "func Mkdir(path string, mode uint32) (err error) {\n\tif e := simPath(SimMkdir, path, \"\"); e != 0 {\n\t\treturn e\n\t}\n"},
	{"syscall/syscall_linux.go", "func Rename(oldpath string, newpath string) (err error) {\n", "func Rename(oldpath string, newpath string) (err error) {\n\tif e := simPath(SimRename, oldpath, newpath); e != 0 {\n\t\treturn e\n\t}\n"},
	{"syscall/syscall_linux.go", "func Unlink(path string) error {\n", "func Unlink(path string) error {\n\tif e := simPath(SimUnlink, path, \"\"); e != 0 {\n\t\treturn e\n\t}\n"},
	{"syscall/syscall_linux.go", "func ReadDirent(fd int, buf []byte) (n int, err error) {\n\treturn Getdents(fd, buf)\n}", "func ReadDirent(fd int, buf []byte) (n int, err error) {\n\tm, e := simIO(SimReadDirent, fd, len(buf), -1)\n\tif e != 0 {\n\t\treturn -1, e\n\t}\n\tn, err = Getdents(fd, buf[:m])\n\tsimIODone(SimReadDirent, fd, n, -1)\n\treturn\n}"},
	{"syscall/syscall_unix.go", "\tn, err = read(fd, p)\n", "\tm, e := simIO(SimRead, fd, len(p), -1)\n\tif e != 0 {\n\t\treturn -1, e\n\t}\n\tif m == 0 && len(p) > 0 {\n\t\treturn 0, nil\n\t}\n\tn, err = read(fd, p[:m])\n\tsimIODone(SimRead, fd, n, -1)\n"},
	{"syscall/syscall_unix.go", "\t\tn, err = write(fd, p)\n", "\t\tm, e := simIO(SimWrite, fd, len(p), -1)\n\t\tif e != 0 {\n\t\t\treturn -1, e\n\t\t}\n\t\tn, err = write(fd, p[:m])\n\t\tsimIODone(SimWrite, fd, n, -1)\n"},
	{"syscall/syscall_unix.go", "\tn, err = pread(fd, p, offset)\n", "\tm, e := simIO(SimRead, fd, len(p), offset)\n\tif e != 0 {\n\t\treturn -1, e\n\t}\n\tif m == 0 && len(p) > 0 {\n\t\treturn 0, nil\n\t}\n\tn, err = pread(fd, p[:m], offset)\n\tsimIODone(SimRead, fd, n, offset)\n"},
	{"syscall/syscall_unix.go", "\tn, err = pwrite(fd, p, offset)\n", "\tm, e := simIO(SimWrite, fd, len(p), offset)\n\tif e != 0 {\n\t\treturn -1, e\n\t}\n\tn, err = pwrite(fd, p[:m], offset)\n\tsimIODone(SimWrite, fd, n, offset)\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tse := simClosed(fd)\n\tdefer func() {\n\t\tif se != 0 {\n\t\t\terr = se\n\t\t}\n\t}()\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n\tif _, e := simIO(SimFsync, fd, 0, -1); e != 0 {\n\t\treturn e\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Fdatasync(fd int) (err error) {\n", "func Fdatasync(fd int) (err error) {\n\tif _, e := simIO(SimFsync, fd, 0, -1); e != 0 {\n\t\treturn e\n\t}\n"},
	{"syscall/zsyscall_linux_amd64.go", "func Ftruncate(fd int, length int64) (err error) {\n", "func Ftruncate(fd int, length int64) (err error) {\n\tif _, e := simIO(SimFtruncate, fd, 0, -1); e != 0 {\n\t\treturn e\n\t}\n"},

	{"os/proc.go", "func Exit(code int) {\n", "// SimExit replaces Exit in the simulator.\nvar SimExit func(code int)\n\nfunc Exit(code int) {\n\tif SimExit != nil {\n\t\tSimExit(code)\n\t}\n"},

	{"runtime/rand.go", "\tif len(startupRand) >= 16 &&", "\tif true {\n\t\tfor i := range seed {\n\t\t\tseed[i] = byte(i*37 + 11)\n\t\t}\n\t} else if len(startupRand) >= 16 &&"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn && getg().bubble != nil {\n\t\treturn simRand()\n\t}\n"},
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif simOn && gp.bubble != nil {\n\t\t\tj = uint32(simRand() % uint64(norder+1))\n\t\t}\n"},
	{"runtime/select.go", "gp.bubble != nil && allSynctest", "gp.bubble != nil && (allSynctest || simOn)"},
	{"runtime/chan.go", "\treason := waitReasonChanSend\n\tif c.bubble != nil {", "\treason := waitReasonChanSend\n\tif c.bubble != nil || simOn && getg().bubble != nil {"},
	{"runtime/chan.go", "\treason := waitReasonChanReceive\n\tif c.bubble != nil {", "\treason := waitReasonChanReceive\n\tif c.bubble != nil || simOn && getg().bubble != nil {"},
	{"runtime/debug.go", "func NumCPU() int {\n", "func NumCPU() int {\n\tif simOn && simNCPU > 0 {\n\t\treturn simNCPU\n\t}\n"},
	{"runtime/debug.go", "func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif simOn {\n\t\told := simProcs\n\t\tif n > 0 {\n\t\t\tsimProcs = n\n\t\t}\n\t\treturn old\n\t}\n"},
	{"runtime/mgc.go", "func GC() {\n", "func GC() {\n\tif simOn {\n\t\treturn\n\t}\n"},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif simOn {\n\t\treturn false\n\t}\n"},
	{"runtime/pprof/pprof.go", "func StartCPUProfile(w io.Writer) error {\n", "var simProfile io.Writer\n\nfunc StartCPUProfile(w io.Writer) error {\n\tif simProfile != nil {\n\t\treturn fmt.Errorf(\"cpu profiling already in use\")\n\t}\n\tif true {\n\t\tsimProfile = w\n\t\treturn nil\n\t}\n"},
	{"runtime/pprof/pprof.go", "func StopCPUProfile() {\n", "func StopCPUProfile() {\n\tif w := simProfile; w != nil {\n\t\tsimProfile = nil\n\t\tio.WriteString(w, \"simulated profile\\n\")\n\t\treturn\n\t}\n"},
	{"testing/synctest/synctest.go", "func Test(t *testing.T, f func(*testing.T)) {", "// SimRun runs f in a bubble of its own.\nfunc SimRun(f func()) { synctest.Run(f) }\n\nfunc Test(t *testing.T, f func(*testing.T)) {"},
}

var stdFiles = map[string]string{
	"runtime/sim_hook.go": `package runtime

var (
	simOn    bool
	simState uint64
	simNCPU  int
	simProcs int
)

// SimSetup switches the runtime to simulation mode.
func SimSetup(seed uint64, ncpu int) {
	simState = seed
	simNCPU = ncpu
	simProcs = ncpu
	if simProcs == 0 {
		simProcs = 1
	}
	simOn = true
}

// SimGoid returns the id of the calling goroutine.
func SimGoid() int64 { return int64(getg().goid) }

//go:nosplit
func simRand() uint64 {
	simState += 0x9E3779B97F4A7C15
	z := simState
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
`,
	"syscall/sim_hook.go": `package syscall

const (
	SimRead = iota
	SimWrite
	SimReadDirent
	SimFsync
	SimFtruncate
	SimMkdir
	SimRename
	SimUnlink
)

// Simulation hooks; nil outside a simulation.
var (
	SimOpen   func(path string, flags int) Errno
	SimOpened func(fd int, path string, flags int)
	SimClosed func(fd int) Errno
	SimIO     func(kind, fd, n int, off int64) (int, Errno)
	SimIODone func(kind, fd, n int, off int64)
	SimPath   func(kind int, path, path2 string) Errno
)

func simOpenat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if SimOpen != nil && dirfd == _AT_FDCWD {
		if e := SimOpen(path, flags); e != 0 {
			return -1, e
		}
	}
	fd, err = openat(dirfd, path, flags, mode)
	if SimOpened != nil && err == nil && dirfd == _AT_FDCWD {
		SimOpened(fd, path, flags)
	}
	return
}

func simIO(kind, fd, n int, off int64) (int, Errno) {
	if SimIO == nil {
		return n, 0
	}
	return SimIO(kind, fd, n, off)
}

func simIODone(kind, fd, n int, off int64) {
	if SimIODone != nil {
		SimIODone(kind, fd, n, off)
	}
}

func simClosed(fd int) Errno {
	if SimClosed == nil {
		return 0
	}
	return SimClosed(fd)
}

func simPath(kind int, p, p2 string) Errno {
	if SimPath == nil {
		return 0
	}
	return SimPath(kind, p, p2)
}
`,
}

func run(dir string, env []string, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return out.Bytes(), fmt.Errorf("%s %s: %v\n%s%s", name, strings.Join(args, " "), err, errb.String(), tail(out.String(), 4000))
	}
	return out.Bytes(), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// makeOverlay writes the patched standard library files and overlay.json.
func makeOverlay(dir string) (string, error) {
	out, err := run(dir, nil, "go", "env", "GOROOT")
	if err != nil {
		return "", err
	}
	root := filepath.Join(strings.TrimSpace(string(out)), "src")
	text := map[string]string{}
	for _, p := range stdPatches {
		s, ok := text[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(root, p.file))
			if err != nil {
				return "", err
			}
			s = string(b)
		}
		if n := strings.Count(s, p.old); n != 1 {
			return "", fmt.Errorf("overlay: %d matches in %s for %q", n, p.file, p.old)
		}
		text[p.file] = strings.Replace(s, p.old, p.new, 1)
	}
	for f, s := range stdFiles {
		text[f] = s
	}
	repl := map[string]string{}
	for f, s := range text {
		dst := filepath.Join(dir, "std", f)
		if err := os.MkdirAll(filepath.Dir(dst), 0777); err != nil {
			return "", err
		}
		if err := os.WriteFile(dst, []byte(s), 0666); err != nil {
			return "", err
		}
		repl[filepath.Join(root, f)] = dst
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ov := filepath.Join(dir, "overlay.json")
	return ov, os.WriteFile(ov, b, 0666)
}

func copyTree(src, dst string, keep func(rel string, dir bool) bool) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if rel != "." && !keep(rel, fi.IsDir()) {
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0777)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0666)
	})
}

const (
	modPath   = "github.com/phil-mansfield/gotetra"
	tablePath = "github.com/phil-mansfield/table"
)

// buildNode builds simnode from repo's working tree into dir and returns the
// path of the binary.
func buildNode(simDir, repo, dir string, nodeFiles func(name string) bool) (string, error) {
	overlay, err := makeOverlay(dir)
	if err != nil {
		return "", err
	}
	rc := filepath.Join(dir, "repo")
	// The halo package needs a module which is not available offline; a stub
	// takes its place, and only those who use the package build it.
	halo := nodeFiles == nil || nodeFiles("api_halo.go")
	err = copyTree(repo, rc, func(rel string, isDir bool) bool {
		base := filepath.Base(rel)
		if isDir {
			return base != ".git" && (rel != "render/halo" || halo) && rel != "render/scripts" && base != "testdata"
		}
		return strings.HasSuffix(rel, ".go") && !strings.HasSuffix(rel, "_test.go") || rel == "go.mod" || rel == "go.sum"
	})
	if err != nil {
		return "", err
	}
	mod, err := os.ReadFile(filepath.Join(rc, "go.mod"))
	if err != nil {
		return "", err
	}
	var lines []string
	var reqs []string
	for _, l := range strings.Split(string(mod), "\n") {
		if strings.Contains(l, tablePath+" ") {
			continue
		}
		if strings.HasPrefix(l, "go ") {
			// Generics are needed by the instrumentation; 1.21 keeps the
			// loop variable semantics of the original.
			l = "go 1.21"
		}
		f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
		if len(f) >= 2 && strings.HasPrefix(f[1], "v") && strings.Contains(f[0], ".") {
			reqs = append(reqs, f[0]+" "+f[1])
		}
		lines = append(lines, l)
	}
	stub := ""
	if halo {
		if err := copyTree(filepath.Join(simDir, "table"), filepath.Join(dir, "table"), func(string, bool) bool { return true }); err != nil {
			return "", err
		}
		stub = "\nrequire " + tablePath + " v0.0.0\n\nreplace " + tablePath + " => ../table\n"
		lines = append(lines, stub)
	}
	if err := os.WriteFile(filepath.Join(rc, "go.mod"), []byte(strings.Join(lines, "\n")), 0666); err != nil {
		return "", err
	}
	if err := instrument(rc); err != nil {
		return "", err
	}
	nd := filepath.Join(dir, "node")
	if err := copyTree(filepath.Join(simDir, "node"), nd, func(rel string, isDir bool) bool {
		return isDir || strings.HasSuffix(rel, ".go") && (nodeFiles == nil || nodeFiles(filepath.Base(rel)))
	}); err != nil {
		return "", err
	}
	gm := "module verifnode\n\ngo 1.26\n\nrequire " + modPath + " v0.0.0\n\nreplace " + modPath + " => ../repo\n" + stub
	for _, r := range reqs {
		gm += "\nrequire " + r + "\n"
	}
	if err := os.WriteFile(filepath.Join(nd, "go.mod"), []byte(gm), 0666); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(rc, "go.sum"))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(nd, "go.sum"), sum, 0666); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "simnode")
	_, err = run(nd, buildEnv, "go", "build", "-trimpath", "-ldflags=-s -w", "-overlay", overlay, "-o", bin, ".")
	return bin, err
}

var buildEnv = []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"}
