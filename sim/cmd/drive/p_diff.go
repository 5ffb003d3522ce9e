package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"verifsim/db"
	"verifsim/gen"
	"verifsim/step"
	"verifsim/world"
)

// diffArgs writes both sides of a diff and returns its arguments.
func diffArgs(e *Env, sc *Scenario) []string {
	l := putSource(e, sc, sc.Source2, "left", sc.Cur, "")
	r := putSource(e, sc, sc.Source, "right", sc.Want[0], "")
	return []string{"diff", "--dialect", sc.Dialect, l, r}
}

// execPlan executes a plan, statement by statement, on a copy of a database: nothing may fail.
// With mend, the two statements that known findings spoil are carried out as they were meant.
func execPlan(c *db.Catalog, text string, mend bool) (*db.Catalog, string, error) {
	if !mend {
		return execText(c, text, false)
	}
	ss, err := db.SplitStatements(c.Dialect, text)
	if err != nil {
		return nil, "", err
	}
	n := c.Clone()
	for _, s := range ss {
		err := n.Exec(s)
		if m := mended(n, s); err != nil && m != "" {
			err = n.Exec(m)
		}
		if err != nil {
			return nil, s, err
		}
	}
	return n, "", nil
}

var (
	reDropIndex   = regexp.MustCompile("^(?i)DROP\\s+INDEX\\s+(`[^`]+`|\\w+)$")
	reDropOptions = regexp.MustCompile("^(?i)(ALTER\\s+TABLE\\s.*\\sALTER\\s+COLUMN\\s.*)\\sDROP\\s+OPTIONS$")
)

// mended adds the table MySQL wants to DROP INDEX, and writes Spanner's way to remove the options of a column.
func mended(c *db.Catalog, s string) string {
	s = strings.TrimSpace(s)
	switch c.Dialect {
	case db.MySQL:
		if m := reDropIndex.FindStringSubmatch(s); m != nil {
			if ts := c.TablesWithIndex(strings.Trim(m[1], "`")); len(ts) == 1 {
				return s + " ON `" + ts[0] + "`"
			}
		}
	case db.Spanner:
		if m := reDropOptions.FindStringSubmatch(s); m != nil {
			return m[1] + " SET OPTIONS (allow_commit_timestamp = null)"
		}
	}
	return ""
}

// execText executes a script on a copy of a database; with retry, MySQL statements that only reference order stops are
// repeated.
func execText(c *db.Catalog, text string, retry bool) (*db.Catalog, string, error) {
	ss, err := db.SplitStatements(c.Dialect, text)
	if err != nil {
		return nil, "", err
	}
	n := c.Clone()
	for pass := len(ss); len(ss) > 0; pass-- {
		var rest []string
		for _, s := range ss {
			if err := n.Exec(s); err != nil {
				// a later failure of the same pass may follow from one of reference order
				if !retry || c.Dialect != db.MySQL || pass == 0 || !refError(err) && len(rest) == 0 {
					return nil, s, err
				}
				rest = append(rest, s)
			}
		}
		ss = rest
	}
	return n, "", nil
}

func refError(err error) bool {
	s := err.Error()
	return strings.Contains(s, "Failed to open the referenced table") || strings.Contains(s, "referenced by a foreign key constraint") || strings.Contains(s, "Cannot add foreign key") || strings.Contains(s, "needed in a foreign key constraint")
}

func noTable(err error) bool {
	s := err.Error()
	return strings.HasPrefix(s, "relation ") && strings.Contains(s, " does not exist") || strings.Contains(s, "referenced by foreign key")
}

// playPlan decides C13.
func playPlan(e *Env, sc *Scenario, o *Outcome) {
	cur, err := setup(sc.Cur)
	want := wantCatalog(sc, sc.Want[0])
	if err != nil || want == nil {
		o.Invalid = true
		return
	}
	e.DBs = nil
	args := diffArgs(e, sc)
	r := e.Run(step.Step{Seed: sc.Seed, Procs: []step.Proc{sc.proc(args, true)}, Faults: sc.Faults})
	p := &r.Procs[0]
	if p.Killed {
		o.count("killed")
		return
	}
	lost := false
	hard := false
	struck := map[string]bool{}
	for _, f := range sc.Faults {
		k := fmt.Sprint(f.Seam, f.N)
		if struck[k] || p.Counts[f.Seam] <= f.N {
			continue
		}
		struck[k] = true
		switch {
		case f.Seam == "io.stdout" && f.Kind != "slow" && f.Kind != "eintr":
			lost = true
		case f.Kind != "short" && f.Kind != "eintr" && f.Kind != "slow":
			hard = true
		}
	}
	o.count(fmt.Sprintf("exit %d", p.Exit))
	if p.Exit != 0 {
		if len(r.FiredAt) == 0 {
			o.fail("diff fails: "+errClass(p.Stderr), "diff of two valid schemas exits %d: %s %s", p.Exit, firstLine(p.Stderr, 600), p.Panic)
		} else if !lost && p.Stdout != "" {
			o.fail("partial plan", "after %v diff exits %d and printed %q", r.FiredAt, p.Exit, firstLine(p.Stdout, 300))
		}
		return
	}
	_ = hard
	got, at, err := execPlan(cur, p.Stdout, sc.Mend)
	if err != nil {
		o.fail("plan not executable: "+errClass(err.Error()), "after %v the plan fails on the first schema at %s: %v\nplan: %s", r.FiredAt, quote(at), err, firstLine(p.Stdout, 900))
		return
	}
	o.nontrivial("%x", world.HashS(cur.JSON()+p.Stdout))
	if d := compare(got, want); d != "" {
		o.fail("plan gives another schema", "%s → %s, after %v: the plan executed on the first schema does not give the second: %s\nplan: %s", sc.Source2, sc.Source, r.FiredAt, d, firstLine(p.Stdout, 900))
		return
	}
	// the same two schemas from other kinds of source
	if len(sc.Faults) == 0 && len(sc.Args) == 2 {
		k1, k2 := sc.Source2, sc.Source
		sc2 := *sc
		sc2.Source2, sc2.Source = sc.Args[0], sc.Args[1]
		e.DBs = nil
		e.Remove("left")
		e.Remove("right")
		args := diffArgs(e, &sc2)
		r := e.Run(step.Step{Seed: sc.Seed + 1, Procs: []step.Proc{sc.proc(args, false)}})
		p := &r.Procs[0]
		if p.Exit != 0 {
			o.fail("diff fails: "+errClass(p.Stderr), "diff of two valid schemas (%s, %s) exits %d: %s", sc2.Source2, sc2.Source, p.Exit, firstLine(p.Stderr, 600))
			return
		}
		got, at, err := execPlan(cur, p.Stdout, sc.Mend)
		if err != nil {
			o.fail("plan not executable: "+errClass(err.Error()), "%s → %s: the plan fails at %s: %v", sc2.Source2, sc2.Source, quote(at), err)
			return
		}
		if d := compare(got, want); d != "" {
			o.fail("plan depends on the kind of source", "%s → %s gives the second schema, %s → %s does not: %s\nplan: %s", k1, k2, sc2.Source2, sc2.Source, d, firstLine(p.Stdout, 900))
		}
	}
}

// playRepro decides C14: the same command under other map orders, directory orders and row orders.
func playRepro(e *Env, sc *Scenario, o *Outcome) {
	if _, err := setup(sc.Want[0]); err != nil {
		o.Invalid = true
		return
	}
	e.DBs = nil
	var args []string
	dst := ""
	switch sc.Cmd {
	case "generate":
		src := putSource(e, sc, "go", "src", sc.Want[0], "")
		dst = e.Dir + "/out.sql"
		args = []string{"generate", "--dialect", sc.Dialect, src, dst}
	default:
		args = diffArgs(e, sc)
	}
	first := ""
	for k, seed := range append([]uint64{sc.Seed}, sc.Seeds...) {
		if dst != "" {
			e.Remove("out.sql")
		}
		r := e.Run(step.Step{Seed: seed, Procs: []step.Proc{sc.proc(args, false)}, Faults: sc.Faults})
		p := &r.Procs[0]
		if p.Exit != 0 {
			if k > 0 {
				o.fail("success depends on the run", "%s exits %d where another run succeeds: %s", sc.Cmd, p.Exit, firstLine(p.Stderr, 300))
			} else {
				o.Invalid = true
			}
			return
		}
		out := p.Stdout
		if dst != "" {
			out = stamp(e.Snapshot()["out.sql"])
		}
		if k == 0 {
			first = out
		} else if out != first {
			o.fail("output differs between runs", "two runs of %s differ at %s", sc.Cmd, firstDiff(first, out))
			return
		}
	}
	if first != "" {
		o.nontrivial("%x", world.HashS(sc.Cmd+first))
	}
	o.count(sc.Cmd)
}

// stamp keeps the text as it is: nothing in the output may depend on the time.
func stamp(s string) string { return s }

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			x := ""
			if i < len(lb) {
				x = lb[i]
			}
			return fmt.Sprintf("line %d: %q and %q", i+1, la[i], x)
		}
	}
	return fmt.Sprintf("line %d", len(la))
}

// mutate damages a text.
func mutate(s string, ms []Mut) string {
	for _, m := range ms {
		if len(s) == 0 {
			return s
		}
		at := m.At % (len(s) + 1)
		end := at + m.Len
		if end > len(s) {
			end = len(s)
		}
		switch m.Kind {
		case "cut": // everything after the point is lost
			s = s[:at]
		case "head": // everything before it is lost
			s = s[at:]
		case "drop":
			s = s[:at] + s[end:]
		case "zero":
			s = s[:at] + strings.Repeat("\x00", end-at) + s[end:]
		case "dup":
			s = s[:end] + s[at:end] + s[end:]
		case "insert":
			s = s[:at] + m.Text + s[at:]
		case "flip":
			if at < len(s) {
				s = s[:at] + m.Text + s[at+1:]
			}
		}
	}
	return s
}

func randMuts(r *gen.Rand, n int) []Mut {
	var ms []Mut
	for i := 0; i < n; i++ {
		m := Mut{At: r.N(1 << 20), Len: 1 + r.N(12)}
		switch r.N(10) {
		case 0, 1, 2, 3:
			m.Kind = "cut"
		case 4:
			m.Kind = "head"
		case 5:
			m.Kind = "drop"
			if r.P(1, 3) {
				m.Len = 1 + r.N(200)
			}
		case 6:
			m.Kind = "zero"
			if r.P(1, 3) {
				m.Len = 512
			}
		case 7:
			m.Kind = "dup"
			if r.P(1, 3) {
				m.Len = 1 + r.N(200)
			}
		case 8:
			m.Kind, m.Text = "insert", r.Pick("'", "\"", "`", "(", ")", ",", ";", "--", "/*", "*/", "\x00", "\xff", " ", "\n", "\r", "CREATE", "TABLE x", "NOT", "$", "#", ".", "é", "'';")
		default:
			m.Kind, m.Text = "flip", r.Pick("'", "\"", "`", "(", ")", ",", ";", "-", "/", "*", "\x00", "\xfe", " ", "\n", "x", "0", "_", "@")
		}
		ms = append(ms, m)
	}
	return ms
}

// playDamaged decides C17: the file as damaged is read by diff (from an empty schema) or by apply.
func playDamaged(e *Env, sc *Scenario, o *Outcome) {
	text := mutate(sc.Want[0].SQL(sc.Style), sc.Muts)
	if strings.Contains(text, "\\") {
		o.Invalid = true
		return
	}
	// what the file says
	says := db.NewCatalog(sc.Dialect)
	serr := says.ExecAll(text)
	if serr != nil && (refError(serr) || noTable(serr)) || wantCatalog(sc, sc.Want[0]) == nil || reContradict.MatchString(text) {
		o.Invalid = true // refers to a table it does not have, or says two things about one column
		return
	}
	e.SetDB(sc.Dialect, db.NewCatalog(sc.Dialect))
	if sc.Cmd == "apply" && sc.Cur != nil {
		c, err := setup(sc.Cur)
		if err != nil {
			o.Invalid = true
			return
		}
		e.SetDB(sc.Dialect, c)
	}
	before := e.Cat().Clone()
	file := e.Write("damaged.sql", []byte(text))
	args := []string{"diff", "--dialect", sc.Dialect, dsnFor(sc.Dialect), file}
	switch sc.Cmd {
	case "apply":
		args = []string{"apply", "--dialect", sc.Dialect, "--auto-approve", dsnFor(sc.Dialect), file}
	case "diff-left": // what the file says is to be removed
		args = []string{"diff", "--dialect", sc.Dialect, file, dsnFor(sc.Dialect)}
	}
	r := e.Run(step.Step{Seed: sc.Seed, Procs: []step.Proc{sc.proc(args, true)}, Faults: sc.Faults})
	p := &r.Procs[0]
	if p.Hang {
		o.fail("hang", "ddlctl %s does not end on the damaged file:\n%q", sc.Cmd, firstLine(text, 600))
		return
	}
	if m := panicked(r, 0); m != "" {
		o.fail("crash", "ddlctl %s crashes on the damaged file: %s\n%q", sc.Cmd, m, firstLine(text, 600))
		return
	}
	if sc.Prop == "C08" {
		if p.Conns != 0 || p.Rows != 0 {
			o.fail("connection left open", "%d connections and %d result sets are open when ddlctl %s returns", p.Conns, p.Rows, sc.Cmd)
			return
		}
		o.nontrivial("%x", world.HashS(text))
		return
	}
	o.count(fmt.Sprintf("%s exit %d, file valid: %v", sc.Cmd, p.Exit, serr == nil))
	o.nontrivial("%x", world.HashS(text+fmt.Sprint(p.Exit)))
	if !utf8.ValidString(text) {
		return // how such bytes are read or shown is not this property's matter (and the harness reports text)
	}
	if p.Exit != 0 {
		w := ddlWrites(r, 0)
		_, shown := displayed(p.Stdout)
		if len(w) > 0 && !shown {
			o.fail("executed from a rejected file", "apply exits %d and had sent %s", p.Exit, quote(w[0].Stmt))
		}
		return
	}
	if sc.Cmd == "diff-left" {
		judgeLeft(sc, text, p.Stdout, says, serr, o)
		return
	}
	if serr != nil {
		got := e.Cat()
		if sc.Cmd != "apply" {
			n, _, err := execText(before, p.Stdout, true)
			if err != nil {
				o.count("passed on to the database, which rejects it")
				return // what the file says reaches the database, which rejects it
			}
			got = n
		}
		if !truncated(sc.Muts) {
			survivors(sc, text, got, o)
			return
		}
		o.fail("truncated file accepted: "+errClass(serr.Error()), "a file that is not valid DDL (%v) was read as the schema %s\nfile: %q", serr, names(got), firstLine(text, 900))
		return
	}
	got := e.Cat()
	if sc.Cmd != "apply" {
		n, at, err := execText(before, p.Stdout, true)
		if err != nil {
			if _, _, ferr := execText(before, text, false); ferr != nil {
				return // so does the file itself, statement after statement
			}
			o.fail("plan not executable", "the plan fails at %s: %v\nfile: %q", quote(at), err, firstLine(text, 900))
			return
		}
		got = n
	}
	if d := compare(got, says); d != "" {
		o.fail("read as another schema", "the damaged file was read as another schema than it says: %s\nfile: %q", d, firstLine(text, 900))
	}
}

// judgeLeft judges a plan from the damaged file to an empty schema, which exited 0.
func judgeLeft(sc *Scenario, text, plan string, says *db.Catalog, serr error, o *Outcome) {
	if serr == nil {
		n, _, err := execPlan(says, plan, true)
		if err != nil {
			o.count("removal fails on what the file says") // the order of removals is C02's
		} else if d := compare(n, db.NewCatalog(sc.Dialect)); d != "" {
			o.fail("read as another schema", "the plan from the damaged file to an empty schema leaves something: %s\nfile: %q", d, firstLine(text, 900))
		}
		return
	}
	if truncated(sc.Muts) {
		if m := serr.Error(); !reSyntax.MatchString(m) || strings.Contains(m, "expected PRIMARY KEY") || strings.Contains(m, "expected engine") || strings.Count(text, "(") == strings.Count(text, ")") {
			return // well formed, but of names and words the database does not know, which removing does not mention
		}
		o.fail("truncated file accepted: "+errClass(serr.Error()), "a file that is not valid DDL (%v) was accepted: %s\nfile: %q", serr, firstLine(plan, 900), firstLine(text, 900))
		return
	}
	for _, m := range sc.Muts {
		if strings.ContainsAny(m.Text, "'\"`-/*#\xff\xfe") {
			return
		}
	}
	o.count("invalid file accepted")
	for _, s := range sc.Want[0].Statements(sc.Style) {
		i := strings.Index(text, s+";")
		if i < 0 || i > 0 && text[i-1] != '\n' {
			continue
		}
		one := db.NewCatalog(sc.Dialect)
		if one.ExecAll(s) != nil {
			continue
		}
		for _, n := range one.Names() {
			if n = n[strings.LastIndexByte(n, '.')+1:]; !strings.Contains(strings.ToLower(plan), strings.ToLower(n)) {
				o.fail("object lost", "the table %s, whose definition is whole in the damaged file, is missing from what was read: %s\nfile: %q", n, firstLine(plan, 900), firstLine(text, 900))
				return
			}
		}
	}
}

var reSyntax = regexp.MustCompile(`(?i)syntax`)

var reContradict = regexp.MustCompile(`(?i)NOT\s+NULL\s+NULL|\bNULL\s+NOT\s+NULL|DEFAULT\s+\S+\s+DEFAULT`)

func truncated(ms []Mut) bool {
	for _, m := range ms {
		if m.Kind != "cut" {
			return false
		}
	}
	return true
}

// survivors: a file that is no valid DDL was accepted all the same, which a lenient reader may do; the objects whose
// definition is whole in it must not be missing.
func survivors(sc *Scenario, text string, got *db.Catalog, o *Outcome) {
	for _, m := range sc.Muts {
		if strings.ContainsAny(m.Text, "'\"`-/*#\xff\xfe") {
			return // a quote or comment mark may swallow what follows
		}
	}
	o.count("invalid file accepted")
	for _, s := range sc.Want[0].Statements(sc.Style) {
		i := strings.Index(text, s+";")
		if i < 0 || i > 0 && text[i-1] != '\n' {
			continue
		}
		one := db.NewCatalog(sc.Dialect)
		if one.ExecAll(s) != nil {
			continue
		}
		for _, n := range one.Names() {
			t := got.Tables[n]
			if t == nil {
				o.fail("object lost", "the table %s, whose definition is whole in the damaged file, is missing from what was read: %s\nfile: %q", n, names(got), firstLine(text, 900))
				return
			}
			have := map[string]bool{}
			for _, c := range t.Cols {
				have[c.Name] = true
			}
			for _, c := range one.Tables[n].Cols {
				if !have[c.Name] {
					o.fail("object lost", "the column %s.%s, whose definition is whole in the damaged file, is missing from what was read: %s\nfile: %q", n, c.Name, names(got), firstLine(text, 900))
					return
				}
			}
		}
	}
}

func names(c *db.Catalog) string {
	var s []string
	for _, n := range c.Names() {
		t := c.Tables[n]
		var cs []string
		for _, x := range t.Cols {
			cs = append(cs, x.Name)
		}
		s = append(s, n+"("+strings.Join(cs, ",")+")")
	}
	return strings.Join(s, " ")
}

func init() {
	kind := func(r *gen.Rand, sc *Scenario) string {
		k := r.Pick("sql", "sql", "go", "db")
		if k == "go" && (!sc.goOK() || !goOKSchema(sc.Cur)) {
			k = "sql"
		}
		return k
	}
	reg("C13", "plan", 10, playPlan, func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		files := r.P(1, 2)
		dom := gen.Core(d)
		if files {
			dom = gen.FileDom(d)
		}
		sc.Mend = true
		if !coreScenario(r, sc, d, dom, gen.PlanEdits(d), 1) {
			return false
		}
		sc.Source, sc.Source2 = kind(r, sc), kind(r, sc)
		if files {
			sc.Source, sc.Source2 = "sql", "sql"
		}
		if r.P(1, 2) {
			st := randStyle(r)
			sc.Style2 = &st
		}
		if r.P(1, 3) {
			n := 1 + r.N(2)
			for i := 0; i < n; i++ {
				switch r.N(4) {
				case 0, 1:
					sc.Faults = append(sc.Faults, world.Fault{Seam: "io.stdout", N: r.N(2), Kind: r.Pick("short", "torn", "enospc", "eio", "short"), Arg: r.N(400)})
				case 2:
					sc.Faults = append(sc.Faults, world.Fault{Seam: "fs.read", N: r.N(6), Kind: r.Pick("short", "short", "eintr", "eio"), Arg: r.N(400)})
				default:
					sc.Faults = append(sc.Faults, world.Fault{Seam: "fs." + r.Pick("open", "stat", "readdir", "fstat"), N: r.N(6), Kind: r.Pick("eacces", "eio", "emfile", "enoent")})
				}
			}
		} else if !files {
			sc.Args = []string{kind(r, sc), kind(r, sc)}
		}
		return true
	})
	reg("C14", "repro", 10, playRepro, func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		if !coreScenario(r, sc, d, gen.Core(d), gen.AllEdits(d), 1) {
			return false
		}
		sc.Cmd = "diff"
		sc.Source, sc.Source2 = kind(r, sc), kind(r, sc)
		if sc.goOK() && r.P(1, 2) {
			sc.Cmd = "generate"
			sc.Go.Files = 1 + r.N(5)
		}
		for i := 1 + r.N(3); i > 0; i-- {
			sc.Seeds = append(sc.Seeds, r.U64())
		}
		return true
	})
	damaging := func(r *gen.Rand, sc *Scenario) bool {
		d := dialectFor(r)
		sc.Cmd = r.Pick("diff", "diff", "apply", "diff-left")
		if !coreScenario(r, sc, d, gen.Core(d), gen.LiveEdits(d), 1) {
			return false
		}
		sc.Source = ""
		sc.Style.ColCons, sc.Style.NoName = false, false // their names are ddlctl's choice
		if r.P(1, 2) {
			sc.Cur = nil
		}
		sc.Muts = randMuts(r, 1+r.N(2))
		if r.P(1, 10) {
			sc.Muts = nil
		}
		if r.P(1, 5) {
			sc.Faults = append(sc.Faults, world.Fault{Seam: "fs.read", N: r.N(3), Kind: r.Pick("short", "eintr", "eio"), Arg: r.N(300)})
		}
		return true
	}
	reg("C17", "damaged", 10, playDamaged, damaging)
	reg("C08", "damaged", 2, nil, damaging)
}

func goOKSchema(s *gen.Schema) bool {
	if s == nil || s.Dialect == db.CRDB {
		return false
	}
	for _, t := range s.Tables {
		if !t.GoPKOrdered() {
			return false
		}
	}
	return true
}
