package main

import (
	"fmt"
	"time"

	"verifsim/db"
	"verifsim/gen"
	"verifsim/world"
)

// Mut is one damage done to a text.
type Mut struct {
	Kind string `json:"kind"` // cut flip drop insert zero dup
	At   int    `json:"at"`
	Len  int    `json:"len,omitempty"`
	Text string `json:"text,omitempty"`
}

// Scenario is everything one simulated execution depends on.
type Scenario struct {
	Prop    string          `json:"prop"`
	Play    string          `json:"play"`
	Seed    uint64          `json:"seed,string"`
	Dialect string          `json:"dialect"`
	Cur     *gen.Schema     `json:"cur,omitempty"`  // what the database holds first
	Want    []*gen.Schema   `json:"want,omitempty"` // desired schemas, one after the other
	Mend    bool            `json:"mend,omitempty"` // statements known to be spoilt are executed as they were meant
	Style   gen.Style       `json:"style,omitempty"`
	Source  string          `json:"source,omitempty"` // sql go dir db
	Style2  *gen.Style      `json:"style2,omitempty"`
	Source2 string          `json:"source2,omitempty"` // for the left side of diff
	Go      gen.GoStyle     `json:"go,omitempty"`
	Manual  bool            `json:"manual,omitempty"` // no auto-approve
	Stdin   string          `json:"stdin,omitempty"`
	Cmd     string          `json:"cmd,omitempty"`
	Args    []string        `json:"args,omitempty"`
	Faults  []world.Fault   `json:"faults,omitempty"`
	Ctx     bool            `json:"ctx,omitempty"`
	Cancel  time.Duration   `json:"cancel,omitempty"`
	Slow    bool            `json:"slow,omitempty"`
	Procs   int             `json:"procs,omitempty"`
	Starts  []time.Duration `json:"starts,omitempty"`
	Muts    []Mut           `json:"muts,omitempty"`
	Old     string          `json:"old,omitempty"` // previous contents of the destination
	Dst     string          `json:"dst,omitempty"`
	Seeds   []uint64        `json:"seeds,omitempty"`
	Core    bool            `json:"core,omitempty"`  // inside the subset where success is required
	Rich    bool            `json:"rich,omitempty"`  // names and literals beyond what Go source holds
	Swap    string          `json:"swap,omitempty"`  // what others change while the operator decides: file, db
	Other   *gen.Schema     `json:"other,omitempty"` // to what
	Notes   []string        `json:"notes,omitempty"`
}

// Outcome of a scenario.
type Outcome struct {
	Invalid    bool
	Violation  string
	Class      string
	Nontrivial []string
	Timeout    bool
	Why        string
	Counts     []string
}

func (o *Outcome) count(k string) { o.Counts = append(o.Counts, k) }

func (o *Outcome) fail(class, format string, a ...any) *Outcome {
	if o.Violation == "" {
		o.Class = class
		o.Violation = fmt.Sprintf(format, a...)
	}
	return o
}

func (o *Outcome) nontrivial(format string, a ...any) {
	o.Nontrivial = append(o.Nontrivial, fmt.Sprintf(format, a...))
}

type player func(e *Env, sc *Scenario, o *Outcome)

var players = map[string]player{}

// Play runs a scenario and judges it.
func Play(e *Env, sc *Scenario) *Outcome {
	o := &Outcome{}
	p := players[sc.Play]
	if p == nil {
		o.Invalid = true
		return o
	}
	p(e, sc, o)
	if e.Last != nil && e.Last.Timeout {
		o.Timeout = true
	}
	return o
}

type generator struct {
	play   string
	weight int
	make   func(r *gen.Rand, sc *Scenario) bool
}

var generators = map[string][]generator{}

func reg(prop, play string, weight int, p player, g func(r *gen.Rand, sc *Scenario) bool) {
	if p != nil {
		players[play] = p
	}
	generators[prop] = append(generators[prop], generator{play, weight, g})
}

// Generate makes the i-th scenario of a property.
func Generate(prop string, seed uint64, i int, only string) *Scenario {
	gs := generators[prop]
	if len(gs) == 0 {
		return nil
	}
	r := gen.NewRand(seed*1000003 + uint64(i)*7919 + world.HashS(prop))
	total := 0
	for _, g := range gs {
		if only == "" || g.play == only {
			total += g.weight
		}
	}
	k := r.N(total)
	for _, g := range gs {
		if only != "" && g.play != only {
			continue
		}
		if k -= g.weight; k < 0 {
			sc := &Scenario{Prop: prop, Play: g.play, Seed: r.U64()}
			for try := 0; try < 20; try++ {
				if g.make(r, sc) {
					return sc
				}
				*sc = Scenario{Prop: prop, Play: g.play, Seed: r.U64()}
			}
			return nil
		}
	}
	return nil
}

var dialects = []string{db.MySQL, db.Postgres, db.CRDB, db.Spanner}
