package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/db"
	"verifsim/gen"
	"verifsim/step"
	"verifsim/world"
)

// Env is where one scenario runs.
type Env struct {
	Child   string
	Dir     string // scratch directory of the scenario
	Timeout time.Duration
	Trace   bool
	DBs     []step.DB
	Log     []string // traces of the steps
	Stats   *Stats
	Hash    uint64
	Last    *step.Result
	uid     int
}

// Stats accumulates what was covered.
type Stats struct {
	mu       sync.Mutex
	Steps    int
	SimTime  time.Duration
	Fired    map[string]int
	Orders   map[uint64]bool
	Kinds    map[string]int
	Blocked  []string
	Timeouts int
}

func newStats() *Stats {
	return &Stats{Fired: map[string]int{}, Orders: map[uint64]bool{}, Kinds: map[string]int{}}
}

// errInfra is a failure of the machinery, never of the code under test.
type errInfra struct{ error }

var unprivileged = 65534

// Run executes one step in a fresh process.
func (e *Env) Run(s step.Step) *step.Result {
	s.Scratch = e.Dir
	s.DBs = e.DBs
	s.Trace = e.Trace
	in, err := json.Marshal(&s)
	if err != nil {
		panic(errInfra{err})
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(errInfra{err})
	}
	cmd := exec.Command(e.Child)
	cmd.Dir = e.Dir
	cmd.Env = []string{"VERIF_STEP=1", "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=1500MiB", "GODEBUG=asyncpreemptoff=1,asynctimerchan=0", "TZ=UTC"}
	cmd.Stdin = bytes.NewReader(in)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.ExtraFiles = []*os.File{pw}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if e.uid > 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(e.uid), Gid: uint32(e.uid)}
	}
	if err := cmd.Start(); err != nil {
		panic(errInfra{err})
	}
	pw.Close()
	res := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(pr)
		pr.Close()
		res <- b
	}()
	timeout := e.Timeout
	if timeout == 0 {
		timeout = 10 * time.Second
	}
	t := time.AfterFunc(timeout, func() { _ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	fired := !t.Stop()
	b := <-res
	r := &step.Result{}
	if len(b) > 0 && json.Unmarshal(b, r) == nil && len(r.Procs) > 0 {
		e.DBs = r.DBs
	} else {
		r = &step.Result{DBs: e.DBs, Fired: map[string]int{}}
		for range s.Procs {
			r.Procs = append(r.Procs, step.ProcResult{Exit: 2, Hang: fired, Counts: map[string]int{}, CancelAt: -1, PromptAt: -1})
		}
		if fired {
			r.Timeout = true
		} else {
			o := out.String()
			if strings.HasPrefix(o, "harness:") {
				panic(errInfra{fmt.Errorf("%s", o)})
			}
			if len(o) > 3000 {
				o = o[:3000]
			}
			r.Crash = fmt.Sprintf("%v: %s", werr, o)
			if o == "" {
				panic(errInfra{fmt.Errorf("child failed without output: %v", werr)})
			}
		}
	}
	if e.Stats != nil {
		e.Stats.mu.Lock()
		e.Stats.Steps++
		e.Stats.SimTime += r.SimTime
		for k, n := range r.Fired {
			e.Stats.Fired[k] += n
		}
		e.Stats.Orders[r.Order] = true
		if r.Timeout {
			e.Stats.Timeouts++
		}
		e.Stats.Blocked = append(e.Stats.Blocked, r.Blocked...)
		e.Stats.mu.Unlock()
	}
	e.Hash = e.Hash*1099511628211 ^ r.Hash
	if e.Trace {
		for _, p := range s.Procs {
			e.Log = append(e.Log, fmt.Sprintf("=== ddlctl %q", p.Args))
		}
		e.Log = append(e.Log, r.Trace...)
		for i, p := range r.Procs {
			e.Log = append(e.Log, fmt.Sprintf("--- p%d exit=%d killed=%v hang=%v\n--- stdout:\n%s\n--- stderr:\n%s", i, p.Exit, p.Killed, p.Hang, p.Stdout, firstLine(p.Stderr, 1500)))
			if p.Panic != "" {
				e.Log = append(e.Log, "--- panic: "+p.Panic)
			}
		}
		if r.Crash != "" {
			e.Log = append(e.Log, "--- crash: "+r.Crash)
		}
	}
	e.Last = r
	return r
}

func firstLine(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Write puts a file into the scratch directory.
func (e *Env) Write(name string, data []byte) string {
	p := filepath.Join(e.Dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(errInfra{err})
	}
	if err := os.WriteFile(p, data, 0o644); err != nil {
		panic(errInfra{err})
	}
	if e.uid > 0 {
		for d := filepath.Dir(p); strings.HasPrefix(d, e.Dir); d = filepath.Dir(d) {
			_ = os.Chown(d, e.uid, e.uid)
		}
		_ = os.Chown(p, e.uid, e.uid)
	}
	return p
}

// Remove deletes a path below the scratch directory.
func (e *Env) Remove(name string) { _ = os.RemoveAll(filepath.Join(e.Dir, name)) }

// Snapshot reads every file below a directory of the scratch area.
func (e *Env) Snapshot() map[string]string {
	m := map[string]string{}
	_ = filepath.Walk(e.Dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			m[strings.TrimPrefix(p, e.Dir+"/")] = string(b)
		} else if err == nil {
			m[strings.TrimPrefix(p, e.Dir)+"/"] = ""
		}
		return nil
	})
	return m
}

const dsn = "db0"

func dsnFor(d string) string {
	switch d {
	case db.MySQL:
		return "root:pw@tcp(127.0.0.1:3306)/app?charset=utf8mb4"
	case db.Spanner:
		return "projects/p/instances/i/databases/d"
	case db.CRDB:
		return "postgres://root@127.0.0.1:26257/defaultdb?sslmode=disable"
	}
	return "postgres://postgres@127.0.0.1:5432/app?sslmode=disable"
}

// SetDB installs the database.
func (e *Env) SetDB(d string, cat *db.Catalog) {
	e.DBs = []step.DB{{DSN: dsnFor(d), Dialect: d, Cat: cat}}
}

// Cat is the current state of the database.
func (e *Env) Cat() *db.Catalog { return e.DBs[0].Cat }

func setup(s *gen.Schema) (*db.Catalog, error) {
	if s == nil {
		return nil, fmt.Errorf("no schema")
	}
	return s.Catalog()
}

var _ = world.Fault{}
