// Runs one simulated step: one or more overlapping invocations of the real ddlctl command inside one process, with every
// source of nondeterminism behind a seam. Injected into package main by an overlay; never part of /repo.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/kunitsucom/ddlctl/pkg/ddlctl"

	"verifsim/db"
	"verifsim/drv"
	"verifsim/step"
	"verifsim/world"
)

type fdInfo struct {
	path   string
	flags  int
	stdout bool
	eof    bool
}

var (
	fds     = map[int]*fdInfo{}
	hanging bool
)

func cur() *world.Proc {
	if outside {
		return nil
	}
	return (*world.Proc)(runtime.VerifLabel())
}

// swaps holds what happens to the outside world once a process has shown its plan.
var outside bool // what happens now is not done by the process

var swaps = map[*world.Proc]*step.Swap{}

func swap(w *world.World, p *world.Proc) {
	s := swaps[p]
	if s == nil {
		return
	}
	delete(swaps, p)
	w.Fired["swap"]++
	w.FiredAt = append(w.FiredAt, "the source or the database changes while the operator decides")
	outside = true
	defer func() { outside = false }()
	if s.File != "" {
		fd, err := syscall.Open(s.File, syscall.O_WRONLY|syscall.O_TRUNC|syscall.O_CREAT, 0o644)
		if err != nil {
			fatal("swap: %v", err)
		}
		b := []byte(s.Text)
		for len(b) > 0 {
			n, err := syscall.Write(fd, b)
			if err != nil {
				fatal("swap: %v", err)
			}
			b = b[n:]
		}
		_ = syscall.Close(fd)
	}
	if s.DSN != "" && drv.Instances[s.DSN] != nil && s.Cat != nil {
		drv.Instances[s.DSN].Cat = s.Cat
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	syscall.Exit(3)
}

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_STEP") == "" {
		fatal("VERIF_STEP is not set")
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	debug.SetMaxStack(256 << 20)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 256 << 20, Max: 256 << 20})
	in, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal("stdin: %v", err)
	}
	var s step.Step
	if err := json.Unmarshal(in, &s); err != nil {
		fatal("step: %v", err)
	}
	// touch what initialises lazily from the outside world before the simulation starts
	_ = time.Local.String()
	_ = time.Now().Local().String()
	synctest.VerifRun(func() { run(&s) })
	syscall.Exit(3)
}

func run(s *step.Step) {
	w := world.New(s.Seed)
	world.W = w
	w.Faults = s.Faults
	w.Scratch = filepath.Clean(s.Scratch)
	for _, d := range s.DBs {
		in := &drv.Instance{DSN: d.DSN, Dialect: d.Dialect, Cat: d.Cat}
		in.OnDDL = func(e *world.Exec, before, after *db.Catalog) {
			b, a := before.Identity(), after.Identity()
			for k, id := range b {
				if a[k] != id {
					e.Dropped = append(e.Dropped, k)
				}
			}
			sort.Strings(e.Dropped)
		}
		drv.Instances[d.DSN] = in
	}
	drv.CurProc = cur
	syscall.VerifHook, syscall.VerifPost = pre, post
	os.VerifExit = onExit
	os.VerifShuffle = func(dir string, n int, swap func(i, j int)) {
		p := cur()
		if p == nil {
			return
		}
		for i := n - 1; i > 0; i-- {
			swap(i, int(w.Hash(5, world.HashS(filepath.Base(dir)), uint64(i), uint64(n))%uint64(i+1)))
		}
	}
	os.Clearenv()
	for _, p := range s.Procs {
		for k, v := range p.Env {
			os.Setenv(k, v)
		}
	}
	//nolint:staticcheck
	rand.Seed(int64(w.Hash(11) >> 1))
	runtime.VerifSeed(w.Hash(12))
	for i := range s.Procs {
		sp := &s.Procs[i]
		p := w.NewProc(strings.Join(sp.Args, " "))
		p.Stdin = sp.Stdin
		p.Latency = sp.Slow
		if sp.Swap != nil {
			swaps[p] = sp.Swap
		}
		go body(w, p, sp)
	}
	// bounded simulated time: a run that has not ended by then is hanging
	limit := time.NewTimer(48 * time.Hour)
	for _, p := range w.Procs {
		select {
		case <-p.Done:
		case <-limit.C:
			hanging = true
		}
		if hanging {
			break
		}
	}
	res := step.Result{Fired: w.Fired, FiredAt: w.FiredAt, Execs: w.Execs, Blocked: w.Blocked, SimTime: w.Now()}
	for _, p := range w.Procs {
		r := step.ProcResult{
			Exit: p.Exit, Killed: p.Killed, Panic: p.Panic, Stdout: string(p.Stdout), Stderr: string(p.Stderr), Counts: p.Counts, Started: p.Started,
			Ended: p.Ended, CancelAt: p.CancelAt, Conns: p.EndConns, ConnsMax: p.ConnsMax, Rows: p.Rows, Writes: p.Writes, PromptAt: p.PromptAt,
			PromptOut: p.PromptOut, StdinRead: p.StdinRead(), Busy: p.Busy, Batches: p.Batches,
		}
		if !p.Dead {
			r.Hang = true
		}
		res.Procs = append(res.Procs, r)
	}
	for _, d := range s.DBs {
		in := drv.Instances[d.DSN]
		res.DBs = append(res.DBs, step.DB{DSN: d.DSN, Dialect: d.Dialect, Cat: in.Cat})
	}
	if s.Trace {
		res.Trace = w.Trace
	}
	h, o := uint64(14695981039346656037), uint64(14695981039346656037)
	for _, t := range w.Trace {
		h = (h ^ world.HashS(t)) * 1099511628211
		if len(t) > 13 {
			k := strings.IndexByte(t[13:], '#')
			if k > 0 {
				o = (o ^ world.HashS(t[13:13+k])) * 1099511628211
			} else if strings.Contains(t, "FAULT") {
				o = (o ^ world.HashS(t[13:])) * 1099511628211
			}
		}
	}
	res.Hash, res.Order = h, o
	syscall.VerifHook, syscall.VerifPost = nil, nil
	os.VerifExit = nil
	b, err := json.Marshal(&res)
	if err != nil {
		fatal("%v", err)
	}
	if _, err := os.NewFile(3, "result").Write(b); err != nil {
		fatal("%v", err)
	}
	syscall.Exit(0)
}

func body(w *world.World, p *world.Proc, sp *step.Proc) {
	runtime.VerifSetLabel(unsafe.Pointer(p))
	clean := false
	defer func() {
		if p.Dead {
			if e := recover(); e != nil {
				_ = e
			}
			return
		}
		if e := recover(); e != nil {
			p.Panic = fmt.Sprintf("%v\n%s", e, debug.Stack())
			w.Log(p, "PANIC %v", e)
			finish(w, p, 2)
			return
		}
		if !clean {
			// a Goexit of the main goroutine
			p.Panic = "main goroutine exited"
			finish(w, p, 2)
		}
	}()
	// Every wait is a multiple of 8 ns; each process runs at its own remainder, so that no two are ever ready at
	// the same simulated instant, which would leave the order to the Go scheduler.
	if at := sp.StartAt&^7 + time.Duration(p.ID&7); at > 0 {
		time.Sleep(at)
	}
	p.Started = w.Now()
	os.Args = append([]string{"ddlctl"}, sp.Args...)
	if sp.Ctx {
		ctx, cancel := context.WithCancel(context.Background())
		p.Cancel = cancel
		if sp.CancelAt > 0 {
			time.AfterFunc(sp.CancelAt|7, func() {
				if !p.Dead {
					w.Fired["ctx/cancel-at"]++
					w.DoCancel(p)
				}
			})
		}
		err := ddlctl.DDLCtl(ctx)
		if err != nil {
			p.Stderr = append(p.Stderr, fmt.Sprintf("ddlctl: %v\n", err)...)
			settle(p)
			clean = true
			finish(w, p, 1)
			return
		}
	} else {
		main()
	}
	settle(p)
	clean = true
	finish(w, p, 0)
}

// settle lets the process's other goroutines come to rest before what it left open is counted.
func settle(p *world.Proc) { time.Sleep(time.Microsecond) }

func finish(w *world.World, p *world.Proc, code int) {
	p.EndConns = p.Conns
	w.Log(p, "exit %d", code)
	w.End(p, code)
}

func onExit(code int) {
	p := cur()
	if p == nil {
		return
	}
	if !p.Dead {
		settle(p)
		finish(world.W, p, code)
	}
	runtime.Goexit()
}

func inScratch(w *world.World, path string) (string, bool) {
	if !filepath.IsAbs(path) {
		wd, err := syscallGetwd()
		if err != nil {
			return path, false
		}
		path = filepath.Join(wd, path)
	}
	path = filepath.Clean(path)
	return path, path == w.Scratch || strings.HasPrefix(path, w.Scratch+"/")
}

func syscallGetwd() (string, error) {
	var buf [4096]byte
	n, err := syscall.Getcwd(buf[:])
	if err != nil || n < 1 {
		return "", fmt.Errorf("getcwd: %v", err)
	}
	return string(buf[:n-1]), nil
}

func mutates(op string, flags int) bool {
	switch op {
	case "open":
		return flags&(syscall.O_CREAT|syscall.O_TRUNC|syscall.O_WRONLY|syscall.O_RDWR) != 0
	case "read", "readdir", "close", "fstat", "stat", "lstat", "fsync":
		return false
	}
	return true
}

func errnoOf(kind string) error {
	switch kind {
	case "eacces":
		return syscall.EACCES
	case "enoent":
		return syscall.ENOENT
	case "emfile":
		return syscall.EMFILE
	case "enospc":
		return syscall.ENOSPC
	case "erofs":
		return syscall.EROFS
	case "edquot":
		return syscall.EDQUOT
	case "estale":
		return syscall.ESTALE
	}
	return syscall.EIO
}

// pre is called before every system call the process makes through the standard library.
func pre(c *syscall.VerifCall) {
	p := cur()
	if p == nil {
		return
	}
	runtime.VerifYield()
	w := world.W
	if p.Dead {
		if c.Op == "close" {
			return
		}
		c.Done, c.Err, c.N = true, syscall.EIO, -1
		return
	}
	fail := func(e error) { c.Done, c.Err, c.N = true, e, -1 }
	common := func(f *world.Fault) bool {
		switch f.Kind {
		case "kill":
			w.Kill(p)
		case "cancel":
			w.DoCancel(p)
		case "slow":
			if c.FD <= 2 && c.Path == "" && len(w.Procs) > 1 {
				return true // the runs share these files, whose lock is not the simulator's
			}
			p.Busy += time.Duration(f.Arg+1) * time.Second
			time.Sleep(time.Duration(f.Arg+1) * time.Second)
			p.CheckDead()
		default:
			return false
		}
		return true
	}
	if c.FD == 0 && c.Op == "read" {
		swap(w, p)
		if p.PromptAt < 0 {
			p.PromptAt = len(w.Execs)
			p.PromptOut = len(p.Stdout)
		}
		if f := w.At(p, "io.stdin", ""); f != nil && !common(f) {
			switch f.Kind {
			case "eof":
				c.Done = true
			case "eintr":
				fail(syscall.EINTR)
			default:
				fail(errnoOf(f.Kind))
			}
			return
		}
		n, _ := w.ReadStdin(p, c.Buf)
		c.Done, c.N = true, n
		return
	}
	info := fds[c.FD]
	isStdout := c.FD == 1 && c.Op != "open" && c.Op != "stat" && c.Op != "lstat" && c.Path == "" || info != nil && info.stdout
	if isStdout || c.FD == 2 && c.Path == "" && (c.Op == "write" || c.Op == "close" || c.Op == "fsync") {
		switch c.Op {
		case "write":
			if !isStdout {
				p.Stderr = append(p.Stderr, c.Buf...)
				c.Done, c.N = true, len(c.Buf)
				return
			}
			n := len(c.Buf)
			if f := w.At(p, "io.stdout", fmt.Sprintf("%q", clip(c.Buf))); f != nil && !common(f) {
				switch f.Kind {
				case "short": // the rest is written by the next call
					if n > 1 {
						n = 1 + f.Arg%(n-1)
					}
				case "torn": // part, then an error
					n = f.Arg % (n + 1)
					p.Stdout = append(p.Stdout, c.Buf[:n]...)
					c.Done, c.N, c.Err = true, n, syscall.ENOSPC
					return
				case "kill-torn":
					p.Stdout = append(p.Stdout, c.Buf[:f.Arg%(n+1)]...)
					w.Kill(p)
				default:
					fail(errnoOf(f.Kind))
					return
				}
			}
			p.Stdout = append(p.Stdout, c.Buf[:n]...)
			c.Done, c.N = true, n
			if strings.Contains(string(p.Stdout), "-- >8 --") {
				swap(w, p)
			}
			return
		case "close":
			if f := w.At(p, "io.close", ""); f != nil && !common(f) {
				c.Done, c.Err = true, errnoOf(f.Kind)
			} else if c.FD <= 2 {
				c.Done = true
			}
			return
		case "fsync":
			c.Done, c.Err = true, syscall.EINVAL
			return
		case "ftruncate":
			c.Done, c.Err = true, syscall.EINVAL
			return
		}
	}
	if c.Path == "/dev/stdout" && c.Op == "open" {
		return // opened for real, aliased afterwards
	}
	path := ""
	inside := false
	switch {
	case c.Path != "":
		path, inside = inScratch(w, c.Path)
		if c.Op == "rename" {
			_, in2 := inScratch(w, c.Path2)
			inside = inside && in2
		}
		if mutates(c.Op, c.Flags) {
			p.Writes = append(p.Writes, c.Op+" "+path)
			if !inside {
				w.Blocked = append(w.Blocked, c.Op+" "+path)
				w.Log(p, "BLOCKED %s %s", c.Op, path)
				fail(syscall.EACCES)
				return
			}
		}
	case info != nil:
		path, inside = inScratch(w, info.path)
		if mutates(c.Op, 0) {
			p.Writes = append(p.Writes, c.Op+" "+path)
		}
	}
	if !inside {
		return
	}
	rel := strings.TrimPrefix(path, w.Scratch)
	seam := "fs." + c.Op
	if c.Op == "open" && mutates(c.Op, c.Flags) {
		seam = "fs.create"
	}
	if c.Op == "close" && info != nil && mutates("open", info.flags) {
		seam = "fs.wclose"
	}
	f := w.At(p, seam, rel)
	if f == nil || common(f) {
		return
	}
	switch c.Op {
	case "read":
		switch f.Kind {
		case "short":
			if len(c.Buf) > 1 {
				c.Buf = c.Buf[:1+f.Arg%(len(c.Buf)-1)]
			}
		case "eintr":
			fail(syscall.EINTR)
		default:
			fail(errnoOf(f.Kind))
		}
	case "write":
		n := len(c.Buf)
		switch f.Kind {
		case "short":
			if n > 1 {
				c.Buf = c.Buf[:1+f.Arg%(n-1)]
			}
		case "torn":
			n = f.Arg % (n + 1)
			rawWrite(c.FD, c.Buf[:n])
			c.Done, c.N, c.Err = true, n, syscall.ENOSPC
		case "kill-torn":
			rawWrite(c.FD, c.Buf[:f.Arg%(n+1)])
			w.Kill(p)
		default:
			fail(errnoOf(f.Kind))
		}
	case "close":
		// the descriptor is gone whatever close reports
		hook := syscall.VerifHook
		syscall.VerifHook = nil
		_ = syscall.Close(c.FD)
		syscall.VerifHook = hook
		c.Done, c.Err = true, errnoOf(f.Kind)
	default:
		fail(errnoOf(f.Kind))
	}
}

func rawWrite(fd int, b []byte) {
	hook := syscall.VerifHook
	syscall.VerifHook = nil
	for len(b) > 0 {
		n, err := syscall.Write(fd, b)
		if err != nil {
			break
		}
		b = b[n:]
	}
	syscall.VerifHook = hook
}

func post(c *syscall.VerifCall) {
	if cur() == nil || c.Op != "open" || c.Err != nil {
		return
	}
	fds[c.N] = &fdInfo{path: c.Path, flags: c.Flags, stdout: c.Path == "/dev/stdout"}
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

var _ fs.FileInfo
