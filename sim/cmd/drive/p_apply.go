package main

import (
	"fmt"
	"strings"
	"time"

	"verifsim/db"
	"verifsim/gen"
	"verifsim/step"
	"verifsim/world"
)

// attempt is one run of `ddlctl apply` and what can be said about it.
type attempt struct {
	before, after, want *db.Catalog
	r                   *step.Result
	p                   *step.ProcResult
	text                string // the displayed plan
	shown               bool   // the plan was displayed to its end
	stmts               []string
	badPlan             error
	writes              []world.Exec // what reached the database, without reads and batch control
	input               []byte
	manual              bool
	faults              []world.Fault
	nodiff              bool
}

// runApply runs apply once.
func runApply(e *Env, sc *Scenario, src string, want *db.Catalog, seed uint64, faults []world.Fault, input string, manual bool) *attempt {
	a := &attempt{before: e.Cat().Clone(), want: want, input: []byte(input), manual: manual, faults: faults}
	sc2 := *sc
	sc2.Manual = manual
	p := step.Proc{Args: applyArgs(&sc2, dsnFor(sc.Dialect), src), Stdin: a.input, Ctx: sc.Ctx && faults != nil, Slow: sc.Slow && faults != nil}
	if faults != nil {
		p.CancelAt = sc.Cancel
		p.Swap = swapOf(e, sc, src)
	}
	a.r = e.Run(step.Step{Seed: seed, Procs: []step.Proc{p}, Faults: faults})
	a.p = &a.r.Procs[0]
	a.after = e.Cat()
	a.text, a.shown = displayed(a.p.Stdout)
	if a.shown {
		a.stmts, a.badPlan = plan(sc.Dialect, a.text)
	}
	a.writes = ddlWrites(a.r, 0)
	a.nodiff = strings.HasPrefix(a.p.Stdout, "no difference")
	return a
}

// swapOf is what changes in the outside world between the display of the plan and the approval.
func swapOf(e *Env, sc *Scenario, src string) *step.Swap {
	if sc.Swap == "" || sc.Other == nil {
		return nil
	}
	s := &step.Swap{}
	if strings.Contains(sc.Swap, "file") && sc.Source == "sql" {
		s.File, s.Text = src, sc.Other.SQL(sc.Style)
	}
	if strings.Contains(sc.Swap, "db") {
		c, err := setup(sc.Other)
		if err != nil {
			return nil
		}
		s.DSN, s.Cat = dsnFor(sc.Dialect), c
	}
	if s.File == "" && s.DSN == "" {
		return nil
	}
	return s
}

// ddlWrites are the statements sent to the database that are neither reads nor control of a DDL batch.
func ddlWrites(r *step.Result, proc int) []world.Exec {
	var out []world.Exec
	for _, x := range writesOf(r, proc) {
		if !batchControl(x.Stmt) {
			out = append(out, x)
		}
	}
	return out
}

func batchControl(s string) bool {
	s = strings.ToUpper(strings.Join(strings.Fields(strings.TrimRight(strings.TrimSpace(s), ";")), " "))
	return s == "START BATCH DDL" || s == "RUN BATCH" || s == "ABORT BATCH"
}

// prepare sets the database and the desired source of the i-th migration.
func prepare(e *Env, sc *Scenario, i int, o *Outcome) (src string, want *db.Catalog) {
	want = wantCatalog(sc, sc.Want[i])
	if want == nil {
		o.Invalid = true
		return "", nil
	}
	e.DBs = e.DBs[:1]
	return putSource(e, sc, sc.Source, "want"+string(rune('0'+i)), sc.Want[i], ""), want
}

func start(e *Env, sc *Scenario, o *Outcome) bool {
	cur, err := setup(sc.Cur)
	if err != nil {
		o.Invalid = true
		o.Why = "current schema rejected: " + err.Error()
		return false
	}
	e.SetDB(sc.Dialect, cur)
	return true
}

// dead reports a run that neither ended nor was killed, or that panicked.
func dead(a *attempt, o *Outcome, strict bool) bool {
	if m := panicked(a.r, 0); m != "" {
		if strict {
			o.fail("panic", "%s", m)
		}
		return true
	}
	if a.p.Hang {
		if strict {
			o.fail("hang", "the run does not end")
		}
		return true
	}
	return false
}

// playApply runs migrations without faults and judges C01 and C02.
func playApply(e *Env, sc *Scenario, o *Outcome) {
	if !start(e, sc, o) {
		return
	}
	for i := range sc.Want {
		src, want := prepare(e, sc, i, o)
		if want == nil {
			return
		}
		a := runApply(e, sc, src, want, sc.Seed+uint64(i), nil, "yes\n", sc.Manual)
		if dead(a, o, false) {
			o.Why = "apply panics or hangs"
			return
		}
		if a.p.Exit != 0 {
			if sc.Play == "apply-wild" {
				o.nontrivial("%x", world.HashS(a.before.JSON()+a.text))
			}
			o.Why = "apply failed: " + errClass(a.p.Stderr)
			o.count("apply failed")
			return
		}
		o.count("apply ok")
		o.nontrivial("%x", world.HashS(a.before.JSON()+a.text))
		if d := compare(e.Cat(), want); d != "" {
			if sc.Prop == "C01" {
				o.fail("wrong schema after success", "apply exits 0 and the database differs from the desired schema: %s", d)
			}
			return
		}
		if sc.Prop != "C02" {
			continue
		}
		b := runApply(e, sc, src, want, sc.Seed+100+uint64(i), nil, "no\n", !sc.Manual)
		if m := panicked(b.r, 0); m != "" {
			o.fail("second apply panics", "second apply: %s", m)
			return
		}
		if b.p.Exit != 0 || len(b.writes) > 0 || strings.Contains(b.p.Stdout, "-- 8< --") || !b.nodiff || b.p.PromptAt >= 0 || changed(b.before, e.Cat()) {
			o.fail("second apply finds a difference", "second apply: exit %d, plan %q, stderr %q, %d statements", b.p.Exit, firstLine(b.text, 600), firstLine(b.p.Stderr, 300), len(b.writes))
			return
		}
		r := e.Run(step.Step{Seed: sc.Seed + 200 + uint64(i), Procs: []step.Proc{{Args: []string{"diff", "--dialect", sc.Dialect, dsnFor(sc.Dialect), src}}}})
		p := r.Procs[0]
		if p.Exit != 0 || strings.TrimSpace(p.Stdout) != "" || len(writesOf(r, 0)) > 0 {
			o.fail("diff after apply finds a difference", "diff after apply: exit %d, output %q, stderr %q", p.Exit, firstLine(p.Stdout, 600), firstLine(p.Stderr, 300))
			return
		}
	}
}

// playFault runs one migration under faults and judges it for one of C03 to C08 and C19; C06 repeats it afterwards.
func playFault(e *Env, sc *Scenario, o *Outcome) {
	if !start(e, sc, o) {
		return
	}
	for i := range sc.Want {
		src, want := prepare(e, sc, i, o)
		if want == nil {
			return
		}
		first := e.Cat().Clone()
		rounds := 1
		if sc.Prop == "C06" && sc.Procs > 1 {
			rounds = sc.Procs // the interrupted run is itself interrupted again
		}
		var a *attempt
		for k := 0; k < rounds; k++ {
			fs := sc.Faults
			if k > 0 {
				fs = nil
				for j := range sc.Faults {
					f := sc.Faults[(j+k)%len(sc.Faults)]
					f.N = (f.N + k*int(sc.Seed%5)) % 9
					fs = append(fs, f)
				}
			}
			if fs == nil {
				fs = []world.Fault{}
			}
			a = runApply(e, sc, src, want, sc.Seed+uint64(i)+uint64(k)*17, fs, sc.Stdin, sc.Manual)
			o.count(outcomeOf(a))
			judgeAttempt(sc, a, o)
			if o.Violation != "" {
				return
			}
			if d := diffIdentity(first.Identity(), want.Identity(), sc.Dialect, first, want, a.r); d != "" && sc.Prop == "C19" {
				o.fail("data lost", "%s", d)
				return
			}
		}
		o.nontrivial("%x", world.HashS(a.before.JSON()+a.text+strings.Join(a.r.FiredAt, ";")))
		if sc.Prop == "C06" || sc.Prop == "C19" {
			for k := 0; k < 3; k++ {
				if sc.Prop == "C06" && k > 0 && a.p.Exit == 0 {
					break
				}
				a = runApply(e, sc, src, want, sc.Seed+500+uint64(k), nil, "yes\n", false)
				if d := diffIdentity(first.Identity(), want.Identity(), sc.Dialect, first, want, a.r); d != "" && sc.Prop == "C19" {
					o.fail("data lost", "rerun: %s", d)
					return
				}
				if sc.Prop == "C06" && dead(a, o, true) {
					return
				}
			}
			if sc.Prop == "C06" {
				if a.p.Exit != 0 {
					o.fail("does not converge: "+errClass(a.p.Stderr), "after the faults stopped three runs do not complete the migration; the last exits %d: %s", a.p.Exit, firstLine(a.p.Stderr, 700))
				} else if d := compare(a.after, want); d != "" {
					o.fail("converged to a wrong schema", "the repeated apply exits 0 and the schema is not the desired one: %s", d)
				}
			}
			if o.Violation != "" {
				return
			}
			if a.p.Exit != 0 {
				return
			}
			continue
		}
		if a.p.Exit != 0 || a.p.Killed {
			return
		}
	}
}

func outcomeOf(a *attempt) string {
	switch {
	case a.p.Killed:
		return "killed"
	case a.p.Hang:
		return "hang"
	case a.p.Exit == 0 && a.nodiff:
		return "no difference"
	case a.p.Exit == 0:
		return "success"
	case !a.shown:
		return "failed before the plan"
	case len(a.writes) == 0:
		return "failed before executing"
	}
	return "failed while executing"
}

func judgeAttempt(sc *Scenario, a *attempt, o *Outcome) {
	switch sc.Prop {
	case "C03":
		judgeApproval(sc, a, o)
	case "C04":
		judgeOrder(sc, a, o)
	case "C05":
		judgeSuccess(sc, a, o)
	case "C07":
		judgeBatch(sc, a, o)
	case "C08":
		judgeBounds(sc, a, o)
	}
}

// approvedBy reports whether the delivered input approves the plan, and whether that can be told.
func approvedBy(a *attempt) (yes, sure bool) {
	if !a.manual {
		return true, true
	}
	if a.p.PromptAt < 0 {
		return false, true
	}
	in := a.input
	if a.p.StdinRead < len(in) {
		in = in[:a.p.StdinRead]
	}
	line := string(in)
	ended := false
	if i := strings.IndexByte(line, '\n'); i >= 0 {
		line, ended = line[:i], true
	}
	switch line {
	case "yes":
		if ended {
			return true, true
		}
		// the input ended (or failed) before the end of the line
		struck := map[int]bool{}
		for _, f := range a.faults {
			if f.Seam != "io.stdin" || f.Proc != 0 || struck[f.N] || a.p.Counts["io.stdin"] <= f.N {
				continue
			}
			struck[f.N] = true // the first fault listed for a point is the one that strikes
			switch f.Kind {
			case "slow", "eintr", "eof", "cancel", "cancel-after", "kill", "stall":
			default:
				return false, true
			}
		}
		return false, false
	case "yes\r":
		return false, false
	}
	return false, true
}

// judgeApproval decides C03.
func judgeApproval(sc *Scenario, a *attempt, o *Outcome) {
	if a.p.Hang || a.r.Crash != "" {
		return
	}
	if len(a.writes) > 0 {
		upto := a.writes[0].StdoutLen
		if a.manual && a.p.PromptAt >= 0 && a.p.PromptOut < upto {
			upto = a.p.PromptOut
		}
		text, whole := "", false
		if upto <= len(a.p.Stdout) {
			text, whole = displayed(a.p.Stdout[:upto])
		}
		if !whole {
			o.fail("executed before the plan was displayed", "the statement %s was sent although the complete plan had not been displayed", quote(a.writes[0].Stmt))
			return
		}
		ss, err := plan(sc.Dialect, text)
		in := map[string]bool{}
		for _, s := range ss {
			in[s] = true
		}
		for _, x := range a.writes {
			if err == nil && !in[norm(sc.Dialect, x.Stmt)] {
				o.fail("executed a statement that was not displayed for approval", "the statement %s was sent but is not part of what was displayed before the approval", quote(x.Stmt))
				return
			}
		}
	}
	yes, sure := approvedBy(a)
	if yes || !sure {
		return
	}
	if len(a.writes) > 0 {
		o.fail("executed without approval", "the input %q does not approve and %s was sent", a.input, quote(a.writes[0].Stmt))
		return
	}
	if sc.Swap == "" && changed(a.before, a.after) {
		o.fail("changed without approval", "the input %q does not approve and the schema changed", a.input)
		return
	}
	if a.p.Exit == 0 && !a.nodiff && a.shown {
		o.fail("unapproved run exits 0", "the input %q does not approve the plan and the run exits 0", a.input)
	}
}

// judgeOrder decides C04.
func judgeOrder(sc *Scenario, a *attempt, o *Outcome) {
	if len(a.writes) == 0 {
		return
	}
	if !a.shown {
		o.fail("executed without a plan", "%s was sent without a displayed plan", quote(a.writes[0].Stmt))
		return
	}
	if a.badPlan != nil {
		return
	}
	d := sc.Dialect
	in := map[string]bool{}
	for _, s := range a.stmts {
		in[s] = true
	}
	gaps := false
	for _, f := range a.faults {
		if f.Seam == "db.connect" || f.Kind == "down" || f.Kind == "badconn" || f.Kind == "lost-after" || strings.HasPrefix(f.Kind, "lost") {
			gaps = true // a statement may fail before it reaches a server
		}
	}
	i := 0
	for k, x := range a.writes {
		s := norm(d, x.Stmt)
		if !in[s] {
			o.fail("sent a statement that was not displayed", "%s was sent but is not one of the displayed statements", quote(x.Stmt))
			return
		}
		if i == len(a.stmts) {
			i = 0
		}
		if a.stmts[i] == s {
			i++
			continue
		}
		if k > 0 && strings.Contains(a.writes[k-1].Err, "bad connection") && norm(d, a.writes[k-1].Stmt) == s {
			continue
		}
		if gaps {
			for j := 0; j < len(a.stmts); j++ {
				if a.stmts[(i+j)%len(a.stmts)] == s {
					i = (i+j)%len(a.stmts) + 1
					break
				}
			}
			continue
		}
		o.fail("sent out of order", "statement %d of the run is %s where the displayed plan has %s", k+1, quote(x.Stmt), firstLine(a.stmts[i], 300))
		return
	}
	if a.p.Exit == 0 && !gaps && i != len(a.stmts) {
		o.fail("statement skipped", "the run exits 0 and never sent %s", firstLine(a.stmts[i], 300))
	}
}

// judgeSuccess decides C05.
func judgeSuccess(sc *Scenario, a *attempt, o *Outcome) {
	if a.p.Killed || a.p.Hang || a.r.Crash != "" || a.p.Panic != "" {
		if !strings.HasSuffix(strings.TrimRight(a.p.Stdout, "\n"), "\ndone") {
			return
		}
	}
	d := compare(a.after, a.want)
	done := strings.HasSuffix(strings.TrimRight(a.p.Stdout, "\n"), "\ndone")
	if a.p.Exit == 0 && d != "" {
		o.fail("success although the schema is not in place", "exit 0 after %v and the schema is not the desired one: %s", a.r.FiredAt, d)
		return
	}
	if done && d != "" {
		o.fail("prints done although the schema is not in place", "`done` after %v and the schema is not the desired one: %s", a.r.FiredAt, d)
		return
	}
	if a.p.Exit == 0 && !a.nodiff && !done {
		o.fail("success although output was lost", "exit 0 after %v although the output is not complete: %q", a.r.FiredAt, tail(a.p.Stdout, 80))
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

// judgeBatch decides C07.
func judgeBatch(sc *Scenario, a *attempt, o *Outcome) {
	conn := map[int]bool{}
	for _, x := range a.writes {
		if x.Batch == 0 {
			if x.Applied || !x.Injected {
				o.fail("statement outside the batch", "%s was sent outside a DDL batch", quote(x.Stmt))
				return
			}
			continue
		}
		if x.Batch > 1 {
			o.fail("several batches", "the run submitted a second DDL batch with %s", quote(x.Stmt))
			return
		}
		conn[x.Conn] = true
	}
	if len(conn) > 1 {
		o.fail("batch over several connections", "the statements went over %d connections", len(conn))
		return
	}
	if len(a.p.Batches) > 1 {
		o.fail("several batches", "the run submitted %d DDL batches", len(a.p.Batches))
		return
	}
	if len(a.p.Batches) == 1 && a.shown && a.badPlan == nil {
		b := a.p.Batches[0]
		if len(b) != len(a.stmts) {
			o.fail("the batch is not the plan", "%d statements were displayed and the batch has %d", len(a.stmts), len(b))
			return
		}
		for i := range b {
			if norm(sc.Dialect, b[i]) != a.stmts[i] {
				o.fail("the batch is not the plan", "statement %d of the batch is %s, displayed was %s", i+1, quote(b[i]), firstLine(a.stmts[i], 300))
				return
			}
		}
	}
	if len(a.p.Batches) == 0 && changed(a.before, a.after) {
		o.fail("changed without a batch", "no batch ran and the schema changed")
		return
	}
	if a.p.Exit == 0 && !a.nodiff && len(a.p.Batches) == 0 && len(a.stmts) > 0 {
		o.fail("success without running the batch", "exit 0 and the batch was never run")
	}
}

// judgeBounds decides C08 for apply.
func judgeBounds(sc *Scenario, a *attempt, o *Outcome) {
	p := a.p
	if dead(a, o, true) {
		return
	}
	if p.Killed {
		return
	}
	if p.Conns != 0 {
		o.fail("connection left open", "%d connections are open when the command returns", p.Conns)
		return
	}
	if p.Rows != 0 {
		o.fail("result set left open", "%d result sets are open when the command returns", p.Rows)
		return
	}
	n := len(a.stmts)
	if a.shown && a.badPlan == nil && n > 0 {
		// group what was sent into passes
		var starts []time.Duration
		sent := map[string]int{}
		dup := map[string]int{}
		for _, s := range a.stmts {
			dup[s]++
		}
		max := 0
		for k, x := range a.writes {
			s := norm(sc.Dialect, x.Stmt)
			if k > 0 && strings.Contains(a.writes[k-1].Err, "bad connection") && norm(sc.Dialect, a.writes[k-1].Stmt) == s {
				continue
			}
			sent[s]++
			if dup[s] > 0 {
				if m := (sent[s] + dup[s] - 1) / dup[s]; m > max {
					max = m
					starts = append(starts, x.At)
				}
			}
		}
		if max > n+2 {
			o.fail("retried too often", "a plan of %d statements was executed %d times", n, max)
			return
		}
		for k := 1; k < len(starts); k++ {
			if starts[k]-starts[k-1] < 350*time.Millisecond {
				o.fail("retried without pause", "pass %d starts %v after the previous one", k+1, starts[k]-starts[k-1])
				return
			}
		}
		if p.CancelAt >= 0 {
			for _, x := range a.writes {
				if x.At > p.CancelAt+time.Second && x.Applied {
					o.fail("executes after cancellation", "%s was executed %v after the context was cancelled", quote(x.Stmt), x.At-p.CancelAt)
					return
				}
			}
		}
	}
	idle := p.Ended - p.Started - p.Busy
	if limit := time.Duration(n+3) * 700 * time.Millisecond; idle > limit {
		o.fail("run too long", "a plan of %d statements took %v, %v of it waiting for the database", n, p.Ended-p.Started, p.Busy)
		return
	}
	grace := 3 * time.Second
	for _, f := range a.faults {
		if f.Kind == "slow" && !strings.HasPrefix(f.Seam, "db.") {
			grace += time.Duration(f.Arg+1) * time.Second // a file or pipe operation in progress cannot be interrupted
		}
	}
	if p.CancelAt >= 0 && p.Ended-p.CancelAt > grace {
		o.fail("cancellation ignored", "the run ended %v after its context was cancelled", p.Ended-p.CancelAt)
	}
}

// diffIdentity reports a table or column that was there before, is wanted, and was destroyed at some point.
func diffIdentity(before, want map[string]int, d string, bc, wc *db.Catalog, r *step.Result) string {
	for _, x := range r.Execs {
		if !x.Applied {
			continue
		}
		for _, dk := range x.Dropped {
			_, b := before[dk]
			_, w := want[dk]
			if !b || !w {
				continue
			}
			if d == db.Spanner && recreated(bc, wc, dk) {
				continue
			}
			return "the statement " + quote(x.Stmt) + " destroyed " + dk + ", which exists before and is in the desired schema"
		}
	}
	return ""
}

func quote(s string) string { return "\"" + strings.ReplaceAll(firstLine(s, 300), "\n", "\\n") + "\"" }

// coreScenario makes a current schema and desired ones.
func coreScenario(r *gen.Rand, sc *Scenario, d string, dom gen.Dom, e gen.Edits, steps int) bool {
	sc.Dialect = d
	edits := 5
	if r.P(1, 8) {
		dom = dom.Big()
		edits = 25
	}
	sc.Rich = r.P(1, 3)
	if sc.Rich {
		dom = gen.Rich(d, dom)
	}
	sc.Cur = gen.RandSchema(r, d, dom)
	if r.P(1, 8) {
		sc.Cur.Tables = nil
	}
	prev := sc.Cur
	for i := 0; i < steps; i++ {
		var w *gen.Schema
		var notes []string
		w, notes = gen.EditSchema(r, prev, dom, e, 1+r.N(edits))
		if len(w.Tables) == 0 {
			return false
		}
		sc.Want = append(sc.Want, w)
		sc.Notes = append(sc.Notes, notes...)
		prev = w
	}
	sc.Core = true
	sc.Source = r.Pick("sql", "sql", "sql", "go", "db")
	if sc.Source == "go" && !sc.goOK() {
		sc.Source = "sql"
	}
	sc.Style = randStyle(r)
	sc.Go = randGoStyle(r)
	return true
}

// wildScenario makes a current schema and unrelated desired ones that share names of tables and columns: ddlctl may not
// be able to migrate, but it must say so and must not do damage.
func wildScenario(r *gen.Rand, sc *Scenario, d string, dom gen.Dom, steps int) bool {
	sc.Dialect = d
	sc.Rich = r.P(1, 4)
	if sc.Rich {
		dom = gen.Rich(d, dom)
	}
	sc.Cur = gen.RandSchema(r, d, dom)
	for i := 0; i < steps; i++ {
		w := gen.RandSchema(r, d, dom)
		if len(w.Tables) == 0 {
			return false
		}
		sc.Want = append(sc.Want, w)
	}
	sc.Notes = append(sc.Notes, "unrelated schemas")
	sc.Source = r.Pick("sql", "sql", "sql", "db")
	sc.Style = randStyle(r)
	sc.Go = randGoStyle(r)
	return true
}

// goOK reports whether the desired schemas can be written as annotated Go source.
func (sc *Scenario) goOK() bool {
	if sc.Rich {
		return false
	}
	for _, s := range sc.Want {
		for _, t := range s.Tables {
			if !t.GoPKOrdered() || sc.Dialect == db.CRDB {
				return false
			}
		}
	}
	return true
}

func randStyle(r *gen.Rand) gen.Style {
	st := gen.Style{}
	if r.P(1, 3) {
		st.Comments = true
	}
	if r.P(1, 5) {
		st.Compact = true
	}
	if r.P(1, 4) {
		st.Reverse = false
	}
	if r.P(1, 6) {
		st.NoEnd = true
	}
	st.Unqual, st.NoNN, st.ColPK, st.ColCons, st.ColChk = r.P(1, 4), r.P(1, 3), r.P(1, 3), r.P(1, 2), true
	st.Case = r.Pick("", "", "", "lower", "upper")
	st.Alias, st.NoCast, st.SepIdx, st.NoName, st.NoNull, st.IfNot, st.NoAct = r.P(1, 4), r.P(1, 4), r.P(1, 4), r.P(1, 4), r.P(1, 4), r.P(1, 6), r.P(1, 4)
	return st
}

func randGoStyle(r *gen.Rand) gen.GoStyle {
	st := gen.GoStyle{Files: 1 + r.N(3), FullStmt: r.P(1, 2), Block: r.P(1, 4), Extra: r.P(1, 2), Group: r.P(1, 4), Nested: r.P(1, 3), Interp: r.P(1, 4), Multi: r.P(1, 5), Local: r.P(1, 12), CRLF: r.P(1, 10), Build: r.P(1, 8),
		InBlock: r.P(1, 4), Others: r.P(1, 4), Spacing: r.P(1, 4), NoDB: r.P(1, 3), NoTable: r.P(1, 4)}
	if r.P(1, 5) {
		st.Header = 1 + r.N(100)
	}
	if r.P(1, 5) {
		st.Dir = 1 + r.N(100)
	}
	return st
}

var execKinds = []string{"error", "error", "lost-before", "lost-after", "badconn", "lost", "down", "slow", "kill", "kill-after", "stall"}

// randFaults makes a fault plan for one run.
func randFaults(r *gen.Rand, sc *Scenario, n int, kill bool) []world.Fault {
	var fs []world.Fault
	kinds := func(ks ...string) string {
		for {
			k := ks[r.N(len(ks))]
			if !kill && strings.HasPrefix(k, "kill") || !sc.Ctx && strings.HasPrefix(k, "cancel") {
				continue
			}
			return k
		}
	}
	for i := 0; i < n; i++ {
		f := world.Fault{Arg: r.N(12)}
		switch k := r.N(20); {
		case k < 11 && !(sc.Prop == "C07" && k > 6):
			f.Seam, f.N = "db.exec", r.N(3+r.N(8))
			if r.P(1, 8) {
				f.N = r.N(40)
			}
			ks := append(append([]string(nil), execKinds...), "cancel", "cancel-after")
			if sc.Dialect == db.Spanner {
				f.N = r.N(3)
				ks = append(ks, "batch-stop", "batch-stop", "batch-stop")
			}
			f.Kind = kinds(ks...)
			if f.Kind == "error" && r.P(1, 4) {
				for j := r.N(20); j > 0; j-- { // a burst
					fs = append(fs, world.Fault{Seam: f.Seam, N: f.N + j, Kind: f.Kind, Arg: f.Arg})
				}
			}
		case k < 12 && sc.Dialect == db.Spanner || sc.Prop == "C07" && k < 13:
			f.Seam, f.N, f.Kind = "db.buffer", r.N(6), kinds("error", "kill", "cancel", "lost", "badconn", "badconn", "slow")
		case k < 13:
			f.Seam, f.N, f.Kind = "db.connect", r.N(4), kinds("error", "lost", "down", "slow", "kill", "cancel", "badconn")
		case k < 14:
			f.Seam, f.N, f.Kind = "db.query", r.N(6), kinds("error", "lost", "badconn", "down", "slow", "kill", "cancel")
		case k < 15:
			f.Seam, f.N, f.Kind = "db.row", r.N(10), kinds("error", "lost", "eof", "slow", "kill", "cancel")
		case k < 16:
			f.Seam, f.N, f.Kind = "db.close", r.N(3), kinds("error", "kill")
		case k < 18:
			f.Seam, f.N, f.Kind = "io.stdout", r.N(5), kinds("short", "torn", "kill-torn", "enospc", "eio", "kill", "cancel", "slow")
		case k < 19:
			f.Seam, f.N, f.Kind = "fs."+r.Pick("read", "open", "stat"), r.N(4), kinds("short", "eintr", "eio", "kill", "slow")
			if f.Seam != "fs.read" && (f.Kind == "short" || f.Kind == "eintr") {
				f.Kind = "eacces"
			}
		default:
			f.Seam, f.N, f.Kind = "io.stdin", r.N(3), kinds("eof", "eio", "eintr", "kill", "slow", "cancel")
		}
		fs = append(fs, f)
	}
	return fs
}

func dialectFor(r *gen.Rand, ds ...string) string {
	if len(ds) == 0 {
		ds = dialects
	}
	return ds[r.N(len(ds))]
}

var inputs = []string{"yes\n", "yes\n", "yes\n", "yes", "no\n", "", "y\n", "Yes\n", "YES\n", " yes\n", "yes \n", "yes please\n", "yess\n", "ye\n", "\nyes\n", "no\nyes\n", "yes\nno\n", "yes\r\n", "\"yes\"\n", "yes\x00\n", "\n\n\n", "y\nyes\n", "true\n", "ok\n", "yes\tx\n", "yesyes\n"}

func init() {
	reg("C01", "apply", 10, playApply, func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		return coreScenario(r, sc, d, gen.Core(d), gen.AllEdits(d), 1+r.N(3))
	})
	reg("C02", "apply", 10, nil, func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		sc.Manual = r.P(1, 2)
		return coreScenario(r, sc, d, gen.Core(d).Spelled(), gen.AllEdits(d), 1+r.N(2))
	})
	reg("C03", "fault", 10, playFault, func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		sc.Manual = !r.P(1, 10)
		sc.Stdin = inputs[r.N(len(inputs))]
		sc.Ctx = r.P(1, 4)
		if !coreScenario(r, sc, d, gen.Core(d), gen.AllEdits(d), 1) {
			return false
		}
		n := r.N(3)
		for i := 0; i < n; i++ {
			f := world.Fault{Seam: "io.stdin", N: r.N(4), Kind: r.Pick("eof", "eio", "eintr", "kill", "slow", "eio"), Arg: r.N(5)}
			if r.P(1, 3) {
				f = world.Fault{Seam: "io.stdout", N: r.N(2), Kind: r.Pick("short", "torn", "kill-torn", "enospc", "eio"), Arg: r.N(1000)}
			}
			sc.Faults = append(sc.Faults, f)
		}
		if r.P(1, 4) {
			sc.Faults = append(sc.Faults, randFaults(r, sc, 1, true)...)
		}
		return true
	})
	faulty := func(ds ...string) func(r *gen.Rand, sc *Scenario) bool {
		return func(r *gen.Rand, sc *Scenario) bool {
			d := dialectFor(r, ds...)
			sc.Stdin = "yes\n"
			sc.Manual = r.P(1, 5)
			sc.Ctx = r.P(1, 3)
			sc.Slow = r.P(1, 8)
			if !coreScenario(r, sc, d, gen.Core(d), gen.LiveEdits(d), 1+r.N(2)) {
				return false
			}
			if r.P(9, 10) {
				sc.Faults = randFaults(r, sc, 1+r.N(3), true)
			}
			if sc.Ctx && r.P(1, 3) {
				sc.Cancel = time.Duration(1+r.N(3000)) * time.Millisecond
				if r.P(1, 2) {
					sc.Cancel /= 20
				}
			}
			if r.P(1, 3) {
				sc.Procs = 2
			}
			return true
		}
	}
	swapped := func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		sc.Stdin = "yes\n"
		sc.Manual = r.P(4, 5)
		if !coreScenario(r, sc, d, gen.Core(d), gen.LiveEdits(d), 2) {
			return false
		}
		sc.Other = sc.Want[1]
		sc.Want = sc.Want[:1]
		if r.P(1, 4) {
			sc.Other = sc.Want[0]
		}
		sc.Swap = r.Pick("file", "file", "db", "file db")
		if r.P(1, 3) {
			sc.Faults = randFaults(r, sc, 1, true)
		}
		return true
	}
	wild := func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		sc.Stdin = "yes\n"
		sc.Ctx = r.P(1, 3)
		if !wildScenario(r, sc, d, gen.Core(d), 1+r.N(2)) {
			return false
		}
		if r.P(1, 2) {
			sc.Faults = randFaults(r, sc, 1+r.N(2), true)
		}
		return true
	}
	reg("C01", "apply-wild", 2, playApply, wild)
	for _, p := range []string{"C04", "C05", "C08", "C19"} {
		reg(p, "wild", 2, playFault, wild)
	}
	reg("C03", "swapped", 2, playFault, swapped)
	reg("C04", "swapped", 3, playFault, swapped)
	reg("C04", "fault", 10, nil, faulty())
	reg("C05", "fault", 10, nil, faulty())
	reg("C06", "fault", 10, nil, faulty())
	reg("C07", "fault", 10, nil, faulty(db.Spanner))
	reg("C08", "fault", 10, nil, faulty())
	reg("C19", "fault", 10, nil, faulty())
}

var _ = fmt.Sprint
