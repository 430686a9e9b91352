package simrt

import (
	"encoding/json"
	"path"
	"strings"
	"syscall"
	"unsafe"
)

// Fault is one injected fault. It applies to operations of kind Op on tracked
// files whose path matches Path, and fires at the Nth such operation (1-based)
// and the Count-1 following ones (Count < 0: for ever). With Prob > 0 it
// fires independently at every matching operation instead.
type Fault struct {
	Op    string  `json:"op"`
	Path  string  `json:"path"`
	Nth   int     `json:"nth,omitempty"`
	Count int     `json:"count,omitempty"`
	Prob  float64 `json:"prob,omitempty"`
	Kind  string  `json:"kind"`
	Arg   int64   `json:"arg,omitempty"`

	seen  int
	fired int
}

type IOConfig struct {
	Seed   uint64   `json:"seed"`
	Faults []*Fault `json:"faults,omitempty"`
	// Capacity > 0 bounds the bytes which may be written to tracked files
	// (a disk with that much room left).
	Capacity int64 `json:"capacity,omitempty"`
	// MaxFDs > 0 bounds the number of simultaneously open tracked files.
	MaxFDs int `json:"max_fds,omitempty"`
	// Stdout puts the standard output, as a file of the name "@stdout", under
	// the fault layer.
	Stdout bool `json:"stdout,omitempty"`
	// Stderr does the same to the standard error, "@stderr".
	Stderr bool `json:"stderr,omitempty"`
	// Gate makes the process ask, on descriptor 3, before file operations,
	// and wait, on descriptor 4, until it is told how many it may do. So
	// several processes share one disk under one scheduler.
	Gate bool `json:"gate,omitempty"`
	// Alias lists paths which stand for others, to which faults and the
	// history refer.
	Alias [][2]string `json:"alias,omitempty"`
}

// OpRec is one file operation, for placing faults and for history checks.
type OpRec struct {
	Op   string `json:"o"`
	Path string `json:"p"`
	N    int    `json:"n"`
	Err  string `json:"e,omitempty"`
}

type fileState struct {
	path   string
	real   string
	write  bool
	size   int64 // high-water mark of written bytes
	synced int64
}

type IOStats struct {
	Ops      []OpRec             `json:"ops,omitempty"`
	NOps     int                 `json:"nops"`
	Fired    map[string]int      `json:"fired"`
	MaxOpen  int                 `json:"max_open"`
	Unsynced map[string][2]int64 `json:"unsynced,omitempty"`
}

const maxOps = 20000

var (
	io     IOConfig
	ioRng  *PRNG
	ioSt   IOStats
	fds    = map[int]*fileState{}
	files  = map[string]*fileState{}
	used   int64
	ioOn   bool
	die    bool
	dieNow func()
	emit   func(kind string, v interface{})
)

func IOSnapshot() IOStats {
	ioSt.Unsynced = map[string][2]int64{}
	for p, f := range files {
		if f.size > f.synced {
			ioSt.Unsynced[p] = [2]int64{f.synced, f.size}
		}
	}
	return ioSt
}

func match(pat, p string) bool {
	if pat == "" || pat == "*" {
		return true
	}
	if strings.HasSuffix(pat, "/") {
		return strings.HasPrefix(p, pat)
	}
	if ok, _ := path.Match(pat, p); ok {
		return true
	}
	return pat == p
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR,
	"EMFILE": syscall.EMFILE, "ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES,
	"EDQUOT": syscall.EDQUOT, "ENFILE": syscall.ENFILE, "EROFS": syscall.EROFS,
	"ESTALE": syscall.ESTALE,
}

func record(op, p string, n int, err string) {
	ioSt.NOps++
	if len(ioSt.Ops) < maxOps {
		ioSt.Ops = append(ioSt.Ops, OpRec{op, p, n, err})
	}
	h := uint64(len(op))
	for i := 0; i < len(p); i++ {
		h = h*131 + uint64(p[i])
	}
	Mix(h<<20 + uint64(n))
}

func fired(f *Fault, op, p string, n int) {
	f.fired++
	ioSt.Fired[f.Op+":"+f.Kind]++
	if emit != nil && f.Prob == 0 {
		emit("fault", map[string]interface{}{
			"op": op, "path": p, "n": n, "kind": f.Kind, "arg": f.Arg, "seq": ioSt.NOps,
		})
	}
}

// consult returns the fault, if any, which applies to this operation.
func consult(op, p string) *Fault {
	var hit *Fault
	for _, f := range io.Faults {
		if f.Op != op || !match(f.Path, p) {
			continue
		}
		f.seen++
		if f.Prob > 0 {
			if ioRng.Float() < f.Prob && hit == nil {
				hit = f
			}
			continue
		}
		cnt := f.Count
		if cnt == 0 {
			cnt = 1
		}
		if f.seen >= f.Nth && (cnt < 0 || f.seen < f.Nth+cnt) && hit == nil {
			hit = f
		}
	}
	return hit
}

// AtExit applies what the kernel's implicit close of a still open file would
// lose, which nobody is told about.
func AtExit() {
	for fd := 0; fd < 1<<16 && len(fds) > 0; fd++ {
		st := fds[fd]
		if st == nil {
			continue
		}
		delete(fds, fd)
		if !st.write {
			continue
		}
		if f := consult("closew", st.path); f != nil && f.Kind == "lost" {
			fired(f, "exit", st.path, 0)
			truncTail(st, f.Arg)
		}
	}
}

func truncTail(st *fileState, n int64) {
	sz := st.size - n
	if sz < 0 {
		sz = 0
	}
	syscall.Truncate(st.real, sz)
}

var turns uint32

// gate waits until it is this process' turn.
func gate() {
	if !io.Gate {
		return
	}
	for turns == 0 {
		emit("gate", ioSt.NOps)
		var b [4]byte
		for n := 0; n < len(b); {
			m, _, e := syscall.RawSyscall(syscall.SYS_READ, 4, uintptr(unsafe.Pointer(&b[n])), uintptr(len(b)-n))
			if e == syscall.EINTR {
				continue
			}
			if e != 0 || m == 0 {
				syscall.Exit(97)
			}
			n += int(m)
		}
		turns = uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	turns--
}

func crash() {
	dieNow()
	panic("unreachable")
}

func tracked(p string) bool {
	return on && ioOn && p != "" && (p[0] != '/' || strings.HasPrefix(p, cwd+"/"))
}

// cwd names the working directory.
const cwd = "/proc/self/cwd"

// canon is the path by which faults and the history call a tracked file.
func canon(p string) string {
	p = path.Clean(p)
	if strings.HasPrefix(p, cwd+"/") {
		p = p[len(cwd)+1:]
	}
	for _, a := range io.Alias {
		if p == a[0] || strings.HasPrefix(p, a[0]+"/") {
			p = path.Clean(a[1] + p[len(a[0]):])
		}
	}
	return p
}

// InstallIO puts the fault layer under the os package.
func InstallIO(c IOConfig, em func(kind string, v interface{}), dn func()) {
	io = c
	ioRng = NewPRNG(c.Seed)
	ioSt.Fired = map[string]int{}
	emit = em
	dieNow = dn
	ioOn = true
	if c.Stderr {
		fds[2] = &fileState{path: "@stderr", real: "@stderr", write: true}
	}
	if c.Stdout {
		fds[1] = &fileState{path: "@stdout", real: "@stdout", write: true}
	}

	pathOp := func(op string) func(p string) syscall.Errno {
		return func(p string) syscall.Errno {
			if !tracked(p) {
				return 0
			}
			if op != "open" && op != "create" {
				gate()
			}
			p = canon(p)
			if f := consult(op, p); f != nil {
				fired(f, op, p, 0)
				if f.Kind == "crash" {
					crash()
				}
				record(op, p, 0, f.Kind)
				return errnos[f.Kind]
			}
			record(op, p, 0, "")
			return 0
		}
	}
	open := pathOp("open")
	create := pathOp("create")
	syscall.SimOpen = func(p string, flags int) syscall.Errno {
		if !tracked(p) {
			return 0
		}
		gate()
		if io.MaxFDs > 0 && len(fds) >= io.MaxFDs {
			ioSt.Fired["open:EMFILE"]++
			record("open", canon(p), 0, "EMFILE")
			return syscall.EMFILE
		}
		if flags&(syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_RDWR) != 0 {
			return create(p)
		}
		return open(p)
	}
	syscall.SimOpened = func(fd int, p string, flags int) {
		if !tracked(p) {
			return
		}
		real := p
		p = canon(p)
		w := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
		var st *fileState
		if w {
			st = files[p]
			if st == nil || flags&syscall.O_TRUNC != 0 {
				st = &fileState{path: p, real: real, write: true}
				files[p] = st
			}
		} else {
			st = &fileState{path: p}
		}
		fds[fd] = st
		if len(fds) > ioSt.MaxOpen {
			ioSt.MaxOpen = len(fds)
		}
	}
	syscall.SimClosed = func(fd int) syscall.Errno {
		st := fds[fd]
		if st == nil {
			return 0
		}
		gate()
		delete(fds, fd)
		op := "close"
		if st.write {
			op = "closew"
		}
		if f := consult(op, st.path); f != nil {
			fired(f, op, st.path, 0)
			if f.Kind == "crash" {
				crash()
			}
			if f.Kind == "lost" {
				// Delayed-allocation failure: the tail of the file never
				// reaches the disk and close reports it.
				truncTail(st, f.Arg)
				record(op, st.path, 0, "EIO")
				return syscall.EIO
			}
			record(op, st.path, 0, f.Kind)
			return errnos[f.Kind]
		}
		record(op, st.path, 0, "")
		return 0
	}
	syscall.SimIO = func(kind, fd, n int, off int64) (int, syscall.Errno) {
		if !on {
			return n, 0
		}
		st := fds[fd]
		if st == nil {
			return n, 0
		}
		gate()
		op := "read"
		switch kind {
		case syscall.SimWrite:
			op = "write"
		case syscall.SimReadDirent:
			op = "readdir"
		case syscall.SimFsync:
			op = "fsync"
		case syscall.SimFtruncate:
			op = "truncate"
		}
		if f := consult(op, st.path); f != nil {
			switch f.Kind {
			case "short":
				m := int(f.Arg)
				if f.Prob > 0 || m <= 0 {
					m = 1 + ioRng.Intn(n)
				}
				if (kind == syscall.SimRead || kind == syscall.SimWrite) && n > 1 && m < n {
					fired(f, op, st.path, m)
					n = m
				}
			case "crash":
				fired(f, op, st.path, n)
				if kind == syscall.SimWrite && n > 0 {
					// Torn write: part of the buffer reaches the file.
					m := int(f.Arg)
					if m > n {
						m = n
					}
					if m > 0 {
						die = true
						return m, 0
					}
				}
				crash()
			case "eof":
				// The file turns out shorter than expected.
				fired(f, op, st.path, 0)
				record(op, st.path, 0, "eof")
				return 0, 0
			default:
				if f.Kind == "EINTR" && f.Prob > 0 && f.fired > 2000 {
					break
				}
				fired(f, op, st.path, n)
				record(op, st.path, 0, f.Kind)
				return -1, errnos[f.Kind]
			}
		}
		if kind == syscall.SimWrite && io.Capacity > 0 {
			room := io.Capacity - used
			if room <= 0 {
				ioSt.Fired["write:diskfull"]++
				record(op, st.path, 0, "ENOSPC")
				return -1, syscall.ENOSPC
			}
			if int64(n) > room {
				ioSt.Fired["write:diskfull-short"]++
				n = int(room)
			}
		}
		if kind == syscall.SimFsync {
			st.synced = st.size
		}
		return n, 0
	}
	syscall.SimIODone = func(kind, fd, n int, off int64) {
		if !on {
			return
		}
		st := fds[fd]
		if st == nil {
			return
		}
		switch kind {
		case syscall.SimWrite:
			if n > 0 {
				used += int64(n)
				end := off + int64(n)
				if off < 0 {
					end, _ = syscall.Seek(fd, 0, 1)
				}
				if end > st.size {
					st.size = end
				}
			}
			record("write", st.path, n, "")
			if die {
				crash()
			}
		case syscall.SimRead:
			record("read", st.path, n, "")
		case syscall.SimReadDirent:
			record("readdir", st.path, n, "")
		}
	}
	po := map[int]func(string) syscall.Errno{
		syscall.SimMkdir: pathOp("mkdir"), syscall.SimRename: pathOp("rename"),
		syscall.SimUnlink: pathOp("unlink"),
	}
	syscall.SimPath = func(kind int, p, p2 string) syscall.Errno {
		e := po[kind](p)
		if e == 0 && kind == syscall.SimRename && tracked(p) {
			a, b := canon(p), canon(p2)
			if st := files[a]; st != nil {
				delete(files, a)
				st.path, st.real = b, p2
				files[b] = st
			}
		}
		return e
	}
}

// JSON is a helper for the event stream.
func JSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
