// Package step defines what the driver asks one simulated step to do and what comes back.
package step

import (
	"time"

	"verifsim/db"
	"verifsim/world"
)

// DB is one simulated database.
type DB struct {
	DSN     string      `json:"dsn"`
	Dialect string      `json:"dialect"`
	Cat     *db.Catalog `json:"cat"`
}

// Proc is one invocation of ddlctl.
type Proc struct {
	Args     []string          `json:"args"`
	Env      map[string]string `json:"env,omitempty"`
	Stdin    []byte            `json:"stdin,omitempty"`
	StartAt  time.Duration     `json:"start_at,omitempty"`
	CancelAt time.Duration     `json:"cancel_at,omitempty"` // 0: never
	Ctx      bool              `json:"ctx,omitempty"`       // call DDLCtl with a cancellable context instead of main
	Slow     bool              `json:"slow,omitempty"`      // a slow or stalling node: latencies many times larger
	Swap     *Swap             `json:"swap,omitempty"`      // what others change while the operator looks at the plan
}

// Swap is a change of the outside world between the display of the plan and the approval.
type Swap struct {
	File string      `json:"file,omitempty"`
	Text string      `json:"text,omitempty"`
	DSN  string      `json:"dsn,omitempty"`
	Cat  *db.Catalog `json:"cat,omitempty"`
}

// Step is one or more overlapping invocations.
type Step struct {
	Seed    uint64        `json:"seed"`
	Procs   []Proc        `json:"procs"`
	Faults  []world.Fault `json:"faults,omitempty"`
	DBs     []DB          `json:"dbs,omitempty"`
	Scratch string        `json:"scratch"`
	Trace   bool          `json:"trace,omitempty"`
}

// ProcResult is how one invocation ended.
type ProcResult struct {
	Exit      int            `json:"exit"`
	Killed    bool           `json:"killed,omitempty"`
	Hang      bool           `json:"hang,omitempty"`
	Panic     string         `json:"panic,omitempty"`
	Stdout    string         `json:"stdout"`
	Stderr    string         `json:"stderr"`
	Counts    map[string]int `json:"counts"`
	Started   time.Duration  `json:"started"`
	Ended     time.Duration  `json:"ended"`
	CancelAt  time.Duration  `json:"cancel_at"`
	Conns     int            `json:"conns"`
	ConnsMax  int            `json:"conns_max"`
	Rows      int            `json:"rows"`
	Writes    []string       `json:"writes,omitempty"`
	PromptAt  int            `json:"prompt_at"`
	PromptOut int            `json:"prompt_out"`
	StdinRead int            `json:"stdin_read"`
	Busy      time.Duration  `json:"busy"`
	Batches   [][]string     `json:"batches,omitempty"`
}

// Result of a step.
type Result struct {
	Procs   []ProcResult   `json:"procs"`
	Execs   []world.Exec   `json:"execs"`
	DBs     []DB           `json:"dbs"`
	Fired   map[string]int `json:"fired"`
	FiredAt []string       `json:"fired_at,omitempty"`
	Blocked []string       `json:"blocked,omitempty"`
	Trace   []string       `json:"trace,omitempty"`
	Hash    uint64         `json:"hash"`  // of the whole trace
	Order   uint64         `json:"order"` // of the order of seam events alone
	SimTime time.Duration  `json:"sim_time"`
	Crash   string         `json:"crash,omitempty"` // filled by the driver: the child process died
	Timeout bool           `json:"timeout,omitempty"`
}
