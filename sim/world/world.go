// Package world holds the state of one simulated execution: processes, the event trace, the fault plan and the
// simulated databases' registry. One scenario plus one build gives one exactly repeatable execution.
package world

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Fault is one injected fault: it strikes the N-th (from 0) event of the seam in the process.
type Fault struct {
	Proc int    `json:"proc"`
	Seam string `json:"seam"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int    `json:"arg,omitempty"`
}

func (f Fault) String() string {
	return fmt.Sprintf("p%d %s#%d %s(%d)", f.Proc, f.Seam, f.N, f.Kind, f.Arg)
}

// Proc is one simulated process: one invocation of ddlctl.
type Proc struct {
	ID        int
	Name      string
	ReadOnly  bool // the command must not write anything
	Dead      bool // exited or killed: no later effect reaches the world
	Killed    bool
	Done      chan struct{}
	Exit      int
	Panic     string
	Err       string
	Stdout    []byte
	Stderr    []byte
	Stdin     []byte
	stdinPos  int
	Counts    map[string]int
	Cancel    context.CancelFunc
	CancelAt  time.Duration // simulated time the context was cancelled, -1 if never
	Started   time.Duration
	Ended     time.Duration
	Conns     int // open database connections
	EndConns  int // when the process returned
	ConnsMax  int
	Rows      int // open result sets
	Latency   bool
	Writes    []string // file-changing operations outside or inside scratch
	DownTill  time.Duration
	PromptAt  int           // number of Exec records in the world when standard input was first read, -1 if never
	PromptOut int           // length of standard output then
	Busy      time.Duration // simulated time spent waiting for the database or in injected delays
	Batches   [][]string    // DDL batches run
}

// Exec records one statement that reached a database server.
type Exec struct {
	Proc      int           `json:"proc"`
	DSN       string        `json:"dsn"`
	Stmt      string        `json:"stmt"`
	At        time.Duration `json:"at"`
	Applied   bool          `json:"applied"`
	Changed   bool          `json:"changed"` // the catalog differs afterwards
	Err       string        `json:"err,omitempty"`
	Injected  bool          `json:"injected,omitempty"`
	Conn      int           `json:"conn"`
	Query     bool          `json:"query,omitempty"`
	Batch     int           `json:"batch,omitempty"` // number of the DDL batch, from 1
	StdoutLen int           `json:"stdout_len"`
	Dropped   []string      `json:"dropped,omitempty"` // tables and columns this statement destroyed
}

// World is the whole simulation.
type World struct {
	Seed    uint64
	Start   time.Time
	Procs   []*Proc
	Faults  []Fault
	Fired   map[string]int // kind -> times
	FiredAt []string
	Trace   []string
	Execs   []Exec
	Scratch string
	Blocked []string // operations outside the scratch directory that were refused
	nconn   int
}

// New returns an empty world.
func New(seed uint64) *World {
	return &World{Seed: seed, Start: time.Now(), Fired: map[string]int{}}
}

// W is the current world; the seams find it here.
var W *World

// Now is the simulated time since the start.
func (w *World) Now() time.Duration { return time.Since(w.Start) }

// Hash is a stateless pseudo-random function of the seed and the arguments.
func (w *World) Hash(xs ...uint64) uint64 {
	h := w.Seed*0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03
	for _, x := range xs {
		h ^= x + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h ^= h >> 30
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 27
		h *= 0x94D049BB133111EB
		h ^= h >> 31
	}
	return h
}

// HashS hashes a string.
func HashS(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// NewProc registers a process.
func (w *World) NewProc(name string) *Proc {
	p := &Proc{ID: len(w.Procs), Name: name, Exit: -1, Counts: map[string]int{}, Done: make(chan struct{}), CancelAt: -1, Started: w.Now(), PromptAt: -1}
	w.Procs = append(w.Procs, p)
	return p
}

// NextConn numbers connections.
func (w *World) NextConn() int { w.nconn++; return w.nconn }

// Log adds a line to the trace.
func (w *World) Log(p *Proc, format string, a ...any) {
	id := -1
	if p != nil {
		id = p.ID
	}
	s := fmt.Sprintf(format, a...)
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	w.Trace = append(w.Trace, fmt.Sprintf("%12d p%d %s", w.Now().Microseconds(), id, strings.ReplaceAll(s, "\n", "\\n")))
}

// At announces an event at a seam and returns the fault that strikes it, or nil.
func (w *World) At(p *Proc, seam, detail string) *Fault {
	n := p.Counts[seam]
	p.Counts[seam] = n + 1
	w.Log(p, "%s#%d %s", seam, n, detail)
	for i := range w.Faults {
		f := &w.Faults[i]
		if f.Proc == p.ID && f.Seam == seam && f.N == n {
			w.fire(p, f)
			return f
		}
	}
	return nil
}

func (w *World) fire(p *Proc, f *Fault) {
	w.Fired[f.Seam+"/"+f.Kind]++
	w.FiredAt = append(w.FiredAt, f.String())
	w.Log(p, "FAULT %s", f)
}

// CheckDead ends the calling goroutine when its process is gone.
func (p *Proc) CheckDead() {
	if p.Dead {
		runtime.Goexit()
	}
}

// Kill ends the process at once, as SIGKILL does.
func (w *World) Kill(p *Proc) {
	w.Log(p, "KILLED")
	p.Killed = true
	w.End(p, 137)
	runtime.Goexit()
}

// End marks the process as ended.
func (w *World) End(p *Proc, code int) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Exit = code
	p.Ended = w.Now()
	close(p.Done)
}

// DoCancel cancels the process's context.
func (w *World) DoCancel(p *Proc) {
	if p.Cancel != nil && p.CancelAt < 0 {
		p.CancelAt = w.Now()
		w.Log(p, "CONTEXT CANCELLED")
		p.Cancel()
	}
}

// ErrInjected is wrapped by injected failures.
var ErrInjected = errors.New("injected fault")

// StdinRead is how much of the input was delivered.
func (p *Proc) StdinRead() int { return p.stdinPos }

// ReadStdin serves the simulated standard input.
func (w *World) ReadStdin(p *Proc, b []byte) (int, bool) {
	if p.stdinPos >= len(p.Stdin) {
		return 0, true
	}
	n := len(p.Stdin) - p.stdinPos
	if n > len(b) {
		n = len(b)
	}
	if m := 1 + int(w.Hash(7, uint64(p.ID), uint64(p.stdinPos))%7); n > m {
		n = m // a terminal or pipe may deliver any part
	}
	copy(b, p.Stdin[p.stdinPos:p.stdinPos+n])
	p.stdinPos += n
	return n, false
}

// Seams lists the counted seams of a process.
func (p *Proc) Seams() []string {
	var s []string
	for k := range p.Counts {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
