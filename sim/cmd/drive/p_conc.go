package main

import (
	"fmt"
	"strings"
	"time"

	"verifsim/db"
	"verifsim/gen"
	"verifsim/step"
	"verifsim/world"
)

// playConcurrent decides C18: runs of apply with the same desired source overlap on one database.
func playConcurrent(e *Env, sc *Scenario, o *Outcome) {
	if !start(e, sc, o) {
		return
	}
	src, want := prepare(e, sc, 0, o)
	if want == nil {
		return
	}
	before := e.Cat().Clone()
	n := sc.Procs
	if n < 2 {
		n = 2
	}
	st := step.Step{Seed: sc.Seed, Faults: sc.Faults}
	for i := 0; i < n; i++ {
		p := step.Proc{Args: applyArgs(sc, dsnFor(sc.Dialect), src), Stdin: []byte("yes\n"), Slow: sc.Slow}
		if i < len(sc.Starts) {
			p.StartAt = sc.Starts[i]
		}
		st.Procs = append(st.Procs, p)
	}
	r := e.Run(st)
	if r.Crash != "" {
		o.fail("crash", "%s", r.Crash)
		return
	}
	exits := ""
	oks := 0
	overlap := false
	for i := range r.Procs {
		p := &r.Procs[i]
		exits += fmt.Sprint(p.Exit, " ")
		if p.Exit == 0 {
			oks++
		}
		for j := range r.Procs {
			q := &r.Procs[j]
			if i != j && p.Started < q.Ended && q.Started < p.Ended && len(ddlWrites(r, i)) > 0 && len(ddlWrites(r, j)) > 0 {
				overlap = true
			}
		}
	}
	o.count("exits " + exits)
	if overlap {
		order := ""
		for _, x := range r.Execs {
			order += fmt.Sprint(x.Proc)
		}
		o.nontrivial("%x", world.HashS(before.JSON()+order))
	}
	if oks > 0 && !undoneLater(r) {
		if d := compare(e.Cat(), want); d != "" {
			o.fail("success and wrong schema", "exits %s; a run ended with success and the schema is not the desired one: %s", exits, d)
			return
		}
	}
	if d := diffIdentity(before.Identity(), want.Identity(), sc.Dialect, before, want, r); d != "" {
		o.fail("data lost", "%s", d)
		return
	}
	// one more run, alone
	a := runApply(e, sc, src, want, sc.Seed+77, nil, "yes\n", false)
	if a.p.Exit != 0 {
		o.fail("no further run succeeds: "+errClass(a.p.Stderr), "exits %s; the next undisturbed run exits %d: %s", exits, a.p.Exit, firstLine(a.p.Stderr, 500))
		return
	}
	if d := diffIdentity(before.Identity(), want.Identity(), sc.Dialect, before, want, a.r); d != "" {
		o.fail("data lost", "in the undisturbed run: %s", d)
		return
	}
	if d := compare(e.Cat(), want); d != "" {
		o.fail("wrong schema after the undisturbed run", "exits %s; %s", exits, d)
	}
}

// undoneLater reports whether a run that did not succeed changed the schema after the last change
// of every run that did: a Spanner batch planned before the successful run's batch and executed
// after it drops what it means to recreate, fails on the rest and reports the failure.
func undoneLater(r *step.Result) bool {
	last, ok := -1, false
	for _, x := range r.Execs {
		if x.Changed && x.Applied && !x.Query {
			last, ok = x.Proc, true
		}
	}
	return ok && r.Procs[last].Exit != 0
}

// playOrder decides C09.
func playOrder(e *Env, sc *Scenario, o *Outcome) {
	if !start(e, sc, o) {
		return
	}
	want, err := refCatalog(sc.Want[0])
	if err != nil {
		o.Invalid = true
		return
	}
	src := putSource(e, sc, sc.Source, "want", sc.Want[0], "")
	a := runApply(e, sc, src, want, sc.Seed, sc.Faults, "", false)
	if a.p.Killed || a.badPlan != nil {
		o.Invalid = true
		return
	}
	n := len(a.stmts)
	if len(sc.Faults)+passes(a.before, a.stmts)-1 > n {
		o.Invalid = true
		return
	}
	o.count(outcomeOf(a))
	o.nontrivial("%x", world.HashS(a.before.JSON()+a.text+strings.Join(a.r.FiredAt, ";")))
	if a.p.Exit != 0 {
		o.fail("does not reach the schema: "+errClass(a.p.Stderr), "after %v, with %d statements in the plan, apply exits %d: %s\nplan: %s", a.r.FiredAt, n, a.p.Exit, firstLine(a.p.Stderr, 500), firstLine(a.text, 800))
		return
	}
	if d := compare(a.after, want); d != "" {
		o.fail("wrong schema", "after %v apply exits 0 and the schema is not the desired one: %s", a.r.FiredAt, d)
	}
}

// passes counts how often the plan is gone through until nothing fails for the order of references.
func passes(c *db.Catalog, stmts []string) int {
	n := c.Clone()
	for k := 1; ; k++ {
		var rest []string
		for _, q := range stmts {
			if err := n.Exec(q); err != nil && refError(err) {
				rest = append(rest, q)
			}
		}
		if len(rest) == 0 || len(rest) == len(stmts) {
			return k
		}
		stmts = rest
	}
}

// refCatalog executes a schema whose tables may refer to later ones.
func refCatalog(s *gen.Schema) (*db.Catalog, error) {
	c, _, err := execText(db.NewCatalog(s.Dialect), s.SQL(gen.Style{}), true)
	return c, err
}

func init() {
	reg("C18", "concurrent", 10, playConcurrent, func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		if !coreScenario(r, sc, d, gen.Core(d), gen.LiveEdits(d), 1) {
			return false
		}
		if sc.Source == "db" {
			sc.Source = "sql"
		}
		sc.Procs = 2
		if r.P(1, 5) {
			sc.Procs = 3
		}
		for i := 0; i < sc.Procs; i++ {
			sc.Starts = append(sc.Starts, time.Duration(r.N(30))*time.Millisecond)
			if r.P(1, 4) {
				sc.Starts[i] = time.Duration(r.N(900)) * time.Millisecond
			}
		}
		sc.Slow = r.P(1, 6)
		if r.P(1, 4) {
			sc.Faults = randFaults(r, sc, 1, true)
			for i := range sc.Faults {
				sc.Faults[i].Proc = r.N(sc.Procs)
			}
		} else if r.P(1, 4) { // statements of several runs fail: deadlocks, lock timeouts, lost connections
			for i := 0; i < sc.Procs; i++ {
				for n := r.N(3); n >= 0; n-- {
					sc.Faults = append(sc.Faults, world.Fault{Proc: i, Seam: "db.exec", N: n * r.N(3), Kind: r.Pick("error", "error", "error", "kill", "lost-before"), Arg: r.N(20)})
				}
			}
		}
		return true
	})
	reg("C09", "order", 10, playOrder, func(r *gen.Rand, sc *Scenario) bool {
		d := db.MySQL
		dom := gen.Core(d)
		dom.MaxTables = 6
		sc.Dialect = d
		sc.Cur = gen.RandSchema(r, d, dom)
		if r.P(1, 3) {
			sc.Cur.Tables = nil
		}
		w, notes := gen.EditSchema(r, sc.Cur, dom, gen.OrderEdits(), 1+r.N(8))
		if len(w.Tables) == 0 {
			return false
		}
		sc.Notes = notes
		gen.Shuffle(r, w)
		if r.P(1, 4) { // references that only resolve one by one
			sc.Cur.Tables = nil
			w = gen.Chain(r, d, dom, 2+r.N(9), r.P(4, 5))
			if r.P(1, 3) {
				gen.Shuffle(r, w)
			}
		}
		sc.Want = []*gen.Schema{w}
		sc.Source = r.Pick("sql", "sql", "go", "db")
		if sc.Source == "go" && !sc.goOK() || sc.Source == "db" {
			sc.Source = "sql"
		}
		sc.Style, sc.Go = randStyle(r), randGoStyle(r)
		sc.Style.SepIdx = false // CREATE INDEX cannot be repeated
		if r.P(2, 3) {
			used := map[int]bool{}
			for i := r.N(3 + r.N(8)); i > 0; i-- {
				f := world.Fault{Seam: "db.exec", N: r.N(8 + r.N(20)), Kind: r.Pick("error", "error", "badconn", "lost-before", "slow", "lost"), Arg: r.N(12)}
				if !used[f.N] {
					sc.Faults = append(sc.Faults, f)
				}
				used[f.N] = true
			}
		}
		return true
	})
}
