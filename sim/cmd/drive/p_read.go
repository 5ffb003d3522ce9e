package main

import (
	"fmt"
	"strings"
	"time"

	"verifsim/db"
	"verifsim/gen"
	"verifsim/step"
	"verifsim/world"
)

// sides prepares the database and the sources of a command, and returns its arguments.
func sides(e *Env, sc *Scenario, o *Outcome) (args []string, ok bool) {
	if !start(e, sc, o) {
		return nil, false
	}
	switch sc.Cmd {
	case "show":
		return []string{"show", "--dialect", sc.Dialect, dsnFor(sc.Dialect)}, true
	}
	src, want := prepare(e, sc, 0, o)
	if want == nil {
		return nil, false
	}
	switch sc.Cmd {
	case "apply":
		return applyArgs(sc, dsnFor(sc.Dialect), src), true
	case "diff": // a live database on the left
		return []string{"diff", "--dialect", sc.Dialect, dsnFor(sc.Dialect), src}, true
	case "diff-right": // a live database on the right
		return []string{"diff", "--dialect", sc.Dialect, src, dsnFor(sc.Dialect)}, true
	}
	panic(errInfra{fmt.Errorf("command %q", sc.Cmd)})
}

func (sc *Scenario) proc(args []string, faulty bool) step.Proc {
	p := step.Proc{Args: args, Stdin: []byte(sc.Stdin), Ctx: sc.Ctx, Slow: sc.Slow}
	if faulty {
		p.CancelAt = sc.Cancel
	}
	return p
}

// effects lists what a run changed: databases, files.
func effects(e *Env, before map[string]string, dbs []step.DB) string {
	for i := range dbs {
		if changed(dbs[i].Cat, e.DBs[i].Cat) {
			m, x := db.Compare(e.DBs[i].Cat, dbs[i].Cat)
			return fmt.Sprintf("the database %s was changed: missing %q, new %q", dbs[i].DSN, m, x)
		}
	}
	after := e.Snapshot()
	for k, v := range before {
		w, ok := after[k]
		if !ok {
			return "the file " + k + " was removed"
		}
		if v != w {
			return "the file " + k + " was changed"
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok {
			return "the file " + k + " was created"
		}
	}
	return ""
}

func cloneDBs(ds []step.DB) []step.DB {
	var out []step.DB
	for _, d := range ds {
		d.Cat = d.Cat.Clone()
		out = append(out, d)
	}
	return out
}

// playReadOnly decides C10.
func playReadOnly(e *Env, sc *Scenario, o *Outcome) {
	args, ok := sides(e, sc, o)
	if !ok {
		return
	}
	before, dbs := e.Snapshot(), cloneDBs(e.DBs)
	r := e.Run(step.Step{Seed: sc.Seed, Procs: []step.Proc{sc.proc(args, true)}, Faults: sc.Faults})
	p := &r.Procs[0]
	o.count(fmt.Sprintf("%s exit %d", sc.Cmd, p.Exit))
	if sc.Prop == "C08" {
		if ended(sc, r, o) {
			o.nontrivial("%x", world.HashS(sc.Cmd+e.Cat().JSON()+p.Stdout+strings.Join(r.FiredAt, ";")))
		}
		return
	}
	for _, x := range r.Execs {
		if x.Proc == 0 && !isQuery(x.Stmt) {
			o.fail("statement sent", "ddlctl %s sent %s", sc.Cmd, quote(x.Stmt))
			return
		}
	}
	if m := effects(e, before, dbs); m != "" {
		o.fail("something changed", "after ddlctl %s %s", sc.Cmd, m)
		return
	}
	for _, w := range p.Writes {
		o.fail("file operation", "ddlctl %s did a file-changing operation: %s", sc.Cmd, w)
		return
	}
	for _, b := range r.Blocked {
		o.fail("file operation", "ddlctl %s attempted a file-changing operation: %s", sc.Cmd, b)
		return
	}
	if p.Counts["db.query"]+p.Counts["fs.open"] > 0 {
		o.nontrivial("%x", world.HashS(sc.Cmd+e.Cat().JSON()+p.Stdout+strings.Join(r.FiredAt, ";")))
	}
}

// ended decides C08 for a run that does not apply anything.
func ended(sc *Scenario, r *step.Result, o *Outcome) bool {
	p := &r.Procs[0]
	if m := panicked(r, 0); m != "" {
		o.fail("panic", "%s", m)
		return false
	}
	if p.Hang {
		o.fail("hang", "the run does not end")
		return false
	}
	if p.Killed {
		return false
	}
	if p.Conns != 0 {
		o.fail("connection left open", "%d connections are open when the command returns", p.Conns)
		return false
	}
	if p.Rows != 0 {
		o.fail("result set left open", "%d result sets are open when the command returns", p.Rows)
		return false
	}
	if idle := p.Ended - p.Started - p.Busy; idle > 3*time.Second {
		o.fail("run too long", "the run took %v, %v of it waiting for the database and the file system", p.Ended-p.Started, p.Busy)
		return false
	}
	grace := 3 * time.Second
	for _, f := range sc.Faults {
		if f.Kind == "slow" && !strings.HasPrefix(f.Seam, "db.") {
			grace += time.Duration(f.Arg+1) * time.Second
		}
	}
	if p.CancelAt >= 0 && p.Ended-p.CancelAt > grace {
		o.fail("cancellation ignored", "the run ended %v after its context was cancelled", p.Ended-p.CancelAt)
		return false
	}
	return true
}

func isQuery(s string) bool {
	s = strings.ToUpper(strings.TrimSpace(s))
	for _, k := range []string{"SELECT", "SHOW", "WITH", "DESCRIBE", "EXPLAIN"} {
		if strings.HasPrefix(s, k) {
			return true
		}
	}
	return false
}

// playReadFault decides C11.
func playReadFault(e *Env, sc *Scenario, o *Outcome) {
	args, ok := sides(e, sc, o)
	if !ok {
		return
	}
	dbs := cloneDBs(e.DBs)
	ref := e.Run(step.Step{Seed: sc.Seed, Procs: []step.Proc{sc.proc(args, false)}})
	rp := &ref.Procs[0]
	if rp.Exit != 0 {
		o.Invalid = true
		o.Why = "fails without faults: " + errClass(rp.Stderr)
		return
	}
	e.DBs = cloneDBs(dbs)
	a := e.Run(step.Step{Seed: sc.Seed, Procs: []step.Proc{sc.proc(args, true)}, Faults: sc.Faults})
	p := &a.Procs[0]
	if p.Killed || p.Hang || a.Crash != "" || p.Panic != "" {
		o.count("no ending")
		return
	}
	o.count(fmt.Sprintf("%s exit %d", sc.Cmd, p.Exit))
	failed := "" // a read that failed for good
	struck := map[string]bool{}
	for _, f := range sc.Faults {
		k := fmt.Sprint(f.Proc, f.Seam, f.N)
		if struck[k] || p.Counts[f.Seam] <= f.N {
			continue
		}
		struck[k] = true
		switch f.Seam {
		case "db.query":
			switch f.Kind {
			case "error", "lost":
				failed = f.String()
			}
		case "db.row":
			switch f.Kind {
			case "error", "lost", "eof", "badconn", "down":
				failed = f.String()
			}
		}
	}
	writes := ddlWrites(a, 0)
	if failed != "" || p.CancelAt >= 0 {
		o.nontrivial("%x", world.HashS(sc.Cmd+dbs[0].Cat.JSON()+strings.Join(a.FiredAt, ";")+fmt.Sprint(p.Exit)))
	}
	if sc.Cmd == "apply" {
		text, shown := displayed(p.Stdout)
		rtext, _ := displayed(rp.Stdout)
		if failed != "" {
			if p.Exit == 0 {
				o.fail("failed read ignored", "%s and apply exits 0; stdout %q", failed, firstLine(p.Stdout, 300))
			} else if len(writes) > 0 {
				o.fail("executed after a failed read", "%s and apply sent %s", failed, quote(writes[0].Stmt))
			} else if strings.Contains(p.Stdout, "-- 8< --") {
				o.fail("planned after a failed read", "%s and apply displayed the plan %q", failed, firstLine(text, 300))
			}
			return
		}
		if shown && text != rtext {
			o.fail("plan from a partial catalogue", "after %v the plan is %q, without faults it is %q", a.FiredAt, firstLine(text, 300), firstLine(rtext, 300))
			return
		}
		if !shown && len(writes) > 0 {
			o.fail("executed after a failed read", "after %v apply sent %s", a.FiredAt, quote(writes[0].Stmt))
			return
		}
		if strings.HasPrefix(p.Stdout, "no difference") && !strings.HasPrefix(rp.Stdout, "no difference") {
			o.fail("no difference from a partial catalogue", "after %v apply reports no difference", a.FiredAt)
		}
		return
	}
	if failed != "" && p.Exit == 0 {
		o.fail("failed read ignored", "%s and ddlctl %s exits 0 with output %q, complete would be %q", failed, sc.Cmd, firstLine(p.Stdout, 300), firstLine(rp.Stdout, 300))
		return
	}
	if p.Exit != 0 && p.Stdout != "" {
		o.fail("partial output of a failed run", "after %v ddlctl %s exits %d and printed %q", a.FiredAt, sc.Cmd, p.Exit, firstLine(p.Stdout, 300))
		return
	}
	if p.Exit == 0 && p.Stdout != rp.Stdout {
		o.fail("partial output of a successful run", "after %v ddlctl %s exits 0 and printed %q, complete would be %q", a.FiredAt, sc.Cmd, firstLine(p.Stdout, 400), firstLine(rp.Stdout, 400))
	}
}

// playDump decides C12.
func playDump(e *Env, sc *Scenario, o *Outcome) {
	if !start(e, sc, o) {
		return
	}
	dump := ""
	for k, seed := range append([]uint64{sc.Seed}, sc.Seeds...) {
		r := e.Run(step.Step{Seed: seed, Procs: []step.Proc{sc.proc([]string{"show", "--dialect", sc.Dialect, dsnFor(sc.Dialect)}, false)}})
		p := &r.Procs[0]
		if p.Exit != 0 || p.Panic != "" || p.Hang || r.Crash != "" {
			o.fail("show fails: "+errClass(p.Stderr), "show exits %d: %s %s %s", p.Exit, firstLine(p.Stderr, 500), p.Panic, r.Crash)
			return
		}
		if k == 0 {
			dump = p.Stdout
		} else if p.Stdout != dump {
			o.fail("dump depends on row order", "two dumps of one database differ:\n%s\n----\n%s", firstLine(dump, 800), firstLine(p.Stdout, 800))
			return
		}
	}
	o.nontrivial("%x", world.HashS(e.Cat().JSON()))
	got, err := execDump(sc.Dialect, dump)
	if err != nil {
		o.fail("dump not executable: "+errClass(err.Error()), "the dump cannot be executed on an empty database: %v\n%s", err, firstLine(dump, 1500))
		return
	}
	if d := compare(got, e.Cat()); d != "" {
		o.fail("dump loses something", "the dump, executed on an empty database, gives another schema: %s\n%s", d, firstLine(dump, 1500))
	}
}

// execDump executes a script on an empty database; on MySQL and PostgreSQL, where ddlctl lists tables by name and not
// by reference, as often as reference order needs.
func execDump(d, text string) (*db.Catalog, error) {
	c := db.NewCatalog(d)
	ss, err := db.SplitStatements(d, text)
	if err != nil {
		return nil, err
	}
	if d != db.MySQL && d != db.Postgres {
		for _, s := range ss {
			if err := c.Exec(s); err != nil {
				return nil, err
			}
		}
		return c, nil
	}
	for len(ss) > 0 {
		var rest []string
		var last error
		for _, s := range ss {
			if err := c.Exec(s); err != nil {
				rest, last = append(rest, s), err
			}
		}
		if len(rest) == len(ss) {
			return nil, last
		}
		ss = rest
	}
	return c, nil
}

// readFaults strikes the reading of the live schema.
func readFaults(r *gen.Rand, sc *Scenario, n int) []world.Fault {
	var fs []world.Fault
	for i := 0; i < n; i++ {
		f := world.Fault{Arg: r.N(12)}
		switch k := r.N(20); {
		case k < 9:
			f.Seam, f.N, f.Kind = "db.row", r.N(4), r.Pick("error", "lost", "eof", "badconn", "slow", "kill", "down")
			if r.P(1, 2) {
				f.N = r.N(16)
			}
		case k < 15:
			f.Seam, f.N, f.Kind = "db.query", r.N(2), r.Pick("error", "lost", "badconn", "down", "slow", "stall")
			if r.P(1, 2) {
				f.N = r.N(8)
			}
		case k < 17:
			f.Seam, f.N, f.Kind = "db.connect", r.N(3), r.Pick("error", "lost", "down", "slow", "badconn")
		case k < 18:
			f.Seam, f.N, f.Kind = "db.ping", r.N(2), r.Pick("error", "lost", "slow", "badconn")
		case k < 19:
			f.Seam, f.N, f.Kind = "db.close", r.N(3), "error"
		default:
			f.Seam, f.N, f.Kind = "fs.read", r.N(4), r.Pick("short", "eintr", "eio")
		}
		if sc.Ctx && r.P(1, 3) && strings.HasPrefix(f.Seam, "db.") && f.Seam != "db.close" {
			f.Kind = "cancel"
		}
		fs = append(fs, f)
	}
	return fs
}

func init() {
	reading := func(cmds ...string) func(r *gen.Rand, sc *Scenario) bool {
		return func(r *gen.Rand, sc *Scenario) bool {
			d := dialectFor(r)
			sc.Cmd = cmds[r.N(len(cmds))]
			sc.Ctx = r.P(1, 3)
			sc.Stdin = "yes\n"
			return coreScenario(r, sc, d, gen.Core(d), gen.AllEdits(d), 1)
		}
	}
	readonly := func(r *gen.Rand, sc *Scenario) bool {
		if !reading("show", "diff", "diff", "diff-right")(r, sc) {
			return false
		}
		if r.P(3, 4) {
			sc.Faults = readFaults(r, sc, 1+r.N(3))
		}
		if r.P(1, 4) {
			sc.Faults = append(sc.Faults, world.Fault{Seam: "io.stdout", N: r.N(3), Kind: r.Pick("short", "torn", "kill-torn", "enospc", "eio", "kill"), Arg: r.N(200)})
		}
		if sc.Ctx && r.P(1, 3) {
			sc.Cancel = time.Duration(1+r.N(200)) * time.Millisecond
		}
		return true
	}
	reg("C10", "readonly", 10, playReadOnly, readonly)
	reg("C08", "readonly", 3, nil, readonly)
	reg("C11", "readfault", 10, playReadFault, func(r *gen.Rand, sc *Scenario) bool {
		if !reading("show", "diff", "diff-right", "apply", "apply")(r, sc) {
			return false
		}
		sc.Faults = readFaults(r, sc, 1+r.N(2))
		if sc.Ctx && r.P(1, 3) {
			sc.Cancel = time.Duration(1+r.N(200)) * time.Millisecond
		}
		return true
	})
	reg("C12", "dump", 10, playDump, func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		sc.Dialect = d
		sc.Cur = gen.RandSchema(r, d, gen.DumpDom(d))
		if r.P(1, 2) {
			sc.Cur, sc.Notes = gen.EditSchema(r, sc.Cur, gen.DumpDom(d), gen.AllEdits(d), 1+r.N(5))
		}
		for i := r.N(3); i > 0; i-- {
			sc.Seeds = append(sc.Seeds, r.U64())
		}
		return true
	})
}
