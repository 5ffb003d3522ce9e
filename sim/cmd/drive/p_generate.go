package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"sort"
	"strings"

	"verifsim/db"
	"verifsim/gen"
	"verifsim/step"
	"verifsim/world"
)

// source writes the annotated Go files, damaged where the scenario says so, and reports whether every file is still
// syntactically valid Go.
func goSource(e *Env, sc *Scenario, dir string) (valid, damaged bool) {
	valid = true
	fs := sc.Want[0].Go(sc.Go)
	hit := -1
	if len(sc.Muts) > 0 {
		var ms []int
		for i, f := range fs {
			if strings.HasSuffix(f.Path, ".go") && f.Path != "plain.go" && f.Path != "model_test.go" {
				ms = append(ms, i)
			}
		}
		hit = ms[int(sc.Seed%uint64(len(ms)))]
	}
	for i, f := range fs {
		d := f.Data
		if i == hit {
			d = []byte(mutate(string(d), sc.Muts))
			damaged = true
			if _, err := parser.ParseFile(token.NewFileSet(), f.Path, d, parser.ParseComments); err != nil {
				valid = false
			}
		}
		e.Write(dir+"/"+f.Path, d)
	}
	return
}

// playGenerate decides C15 and C16.
func playGenerate(e *Env, sc *Scenario, o *Outcome) {
	want := wantCatalog(sc, sc.Want[0])
	if want == nil {
		o.Invalid = true
		return
	}
	e.DBs = nil
	valid, damaged := goSource(e, sc, "src")
	dst := e.Dir + "/out.sql"
	file := "out.sql"
	switch sc.Dst {
	case "dir": // an existing directory takes the default name
		dst, file = e.Dir+"/outdir", "outdir/ddlctl.gen.sql"
		e.Write("outdir/other.txt", []byte("keep"))
	case "missing": // in a directory that does not exist
		dst, file = e.Dir+"/nowhere/out.sql", "nowhere/out.sql"
	case "insrc":
		dst, file = e.Dir+"/src/schema.sql", "src/schema.sql"
	}
	if sc.Old != "" && sc.Dst != "missing" {
		e.Write(file, []byte(sc.Old))
	}
	src := e.Dir + "/src"
	if sc.Source == "file" {
		src += "/model0.go"
	}
	args := []string{"generate", "--dialect", sc.Dialect, src, dst}
	if ddl, col, pk := sc.Go.Keys(); sc.Go.Tags {
		args = append([]string{"generate", "--go-ddl-tag", ddl, "--go-column-tag", col, "--go-pk-tag=" + pk}, args[1:]...)
	}
	if len(sc.Args) > 0 {
		args = append([]string{"generate"}, sc.Args...)
		for i := range args {
			args[i] = strings.NewReplacer("@SRC", src, "@DST", dst, "@DIR", e.Dir).Replace(args[i])
		}
	}
	before := e.Snapshot()
	old, had := before[file]
	// what a run without faults writes
	ref, refExit := "", 0
	if len(sc.Faults) > 0 {
		r := e.Run(step.Step{Seed: sc.Seed, Procs: []step.Proc{sc.proc(args, false)}})
		refExit = r.Procs[0].Exit
		ref = e.Snapshot()[file]
		if had {
			e.Write(file, []byte(old))
		} else {
			e.Remove(file)
		}
	}
	r := e.Run(step.Step{Seed: sc.Seed, Procs: []step.Proc{sc.proc(args, true)}, Faults: sc.Faults})
	p := &r.Procs[0]
	after := e.Snapshot()
	got, has := after[file]
	o.count(fmt.Sprintf("exit %d", p.Exit))
	if p.Hang || p.Panic != "" || r.Crash != "" {
		o.count("no ending")
		if sc.Prop == "C16" || sc.Prop == "C08" {
			o.fail("crash", "generate hangs or crashes: %s", panicked(r, 0))
		}
		return
	}
	if sc.Prop == "C08" {
		if ended(sc, r, o) {
			o.nontrivial("%x", world.HashS(old+got+fmt.Sprint(p.Exit, r.FiredAt, sc.Muts)))
		}
		return
	}
	if sc.Prop == "C15" {
		o.nontrivial("%x", world.HashS(old+got+fmt.Sprint(p.Exit, r.FiredAt, sc.Muts)))
		touched := p.Counts["fs.create"] > 0
		for _, k := range sortedKeys(before) {
			if w, ok := after[k]; k != file && (!ok || w != before[k]) {
				o.fail("another file changed", "after %v generate changed or removed %s", r.FiredAt, k)
				return
			}
		}
		for _, k := range sortedKeys(after) {
			if _, ok := before[k]; !ok && k != file && p.Exit == 0 {
				o.fail("another file created", "after %v generate left %s behind", r.FiredAt, k)
				return
			}
		}
		if p.Killed {
			return
		}
		writing := false // a failure of the destination itself
		for _, f := range sc.Faults {
			if (f.Seam == "fs.create" || f.Seam == "fs.write" || f.Seam == "fs.wclose") && p.Counts[f.Seam] > f.N {
				writing = true
			}
		}
		if p.Exit != 0 {
			if !writing && (has != had || got != old) {
				o.fail("destination lost", "generate exits %d after %v (%s) and the destination, which held %q, holds %q", p.Exit, r.FiredAt, firstLine(p.Stderr, 200), firstLine(old, 60), firstLine(got, 60))
			}
			_ = touched
			return
		}
		if len(sc.Faults) > 0 && refExit == 0 && got != ref {
			o.fail("incomplete destination", "after %v generate exits 0 and the destination is not what it writes without faults, %d bytes instead of %d", r.FiredAt, len(got), len(ref))
			return
		}
		if len(sc.Faults) > 0 && refExit != 0 {
			o.fail("success only under faults", "after %v generate exits 0; without faults it fails", r.FiredAt)
			return
		}
		if len(sc.Args) == 0 && !damaged && sc.Source != "file" {
			c := db.NewCatalog(sc.Dialect)
			if err := c.ExecAll(got); err != nil {
				o.fail("incomplete destination", "generate exits 0 and the destination is not executable: %v", err)
			} else if d := compare(c, want); d != "" {
				o.fail("incomplete destination", "generate exits 0 and the destination is not complete: %s", d)
			}
		}
		return
	}
	// C16
	failed := ""
	struck := map[string]bool{}
	for _, f := range sc.Faults {
		k := fmt.Sprint(f.Seam, f.N)
		if struck[k] || p.Counts[f.Seam] <= f.N || p.Counts["fs.create"] > 0 && f.Seam == "fs.stat" {
			continue
		}
		struck[k] = true
		switch f.Kind {
		case "short", "eintr", "slow":
		default:
			switch f.Seam {
			case "fs.read", "fs.readdir":
				failed = f.String()
			}
		}
	}
	o.nontrivial("%x", world.HashS(sc.Want[0].SQL(gen.Style{})+fmt.Sprint(p.Exit, r.FiredAt, sc.Muts, sc.Go)))
	if p.Killed {
		return
	}
	if failed != "" && p.Exit == 0 {
		o.fail("unreadable source accepted", "%s and generate exits 0", failed)
		return
	}
	if !valid {
		if p.Exit == 0 {
			o.fail("invalid source accepted", "one of the source files is not valid Go and generate exits 0")
		}
		return
	}
	if damaged {
		return
	}
	if p.Exit != 0 {
		if len(r.FiredAt) == 0 {
			o.fail("generate fails: "+errClass(p.Stderr), "generate of valid annotated source exits %d: %s", p.Exit, firstLine(p.Stderr, 500))
		}
		return
	}
	c := db.NewCatalog(sc.Dialect)
	if err := c.ExecAll(got); err != nil {
		o.fail("generated DDL not executable: "+errClass(err.Error()), "after %v the generated DDL cannot be executed: %v\n%s", r.FiredAt, err, firstLine(got, 1200))
		return
	}
	if d := compare(c, want); d != "" {
		o.fail("generated schema differs", "after %v the generated DDL does not give the annotated schema: %s\n%s", r.FiredAt, d, firstLine(got, 1200))
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var goDialects = []string{db.MySQL, db.Postgres, db.Spanner}

func goScenario(r *gen.Rand, sc *Scenario) bool {
	d := goDialects[r.N(len(goDialects))]
	sc.Dialect = d
	dom := gen.GoDom(d)
	w := gen.RandSchema(r, d, dom)
	if r.P(1, 2) {
		w, sc.Notes = gen.EditSchema(r, w, dom, gen.AllEdits(d), 1+r.N(5))
	}
	if len(w.Tables) == 0 {
		return false
	}
	sc.Want = []*gen.Schema{w}
	if !sc.goOK() {
		return false
	}
	sc.Go = randGoStyle(r)
	sc.Go.Plain, sc.Go.Tags = r.P(1, 4), r.P(1, 6)
	return true
}

var badArgs = [][]string{
	{"--dialect", "nosuch", "@SRC", "@DST"},
	{"--dialect", "", "@SRC", "@DST"},
	{"@SRC", "@DST"},
	{"--dialect", "mysql", "--language", "cobol", "@SRC", "@DST"},
	{"--dialect", "mysql", "@DIR/no/such/source", "@DST"},
	{"--dialect", "mysql", "@SRC"},
	{"--dialect", "mysql"},
	{"--dialect", "mysql", "@SRC", "@DST", "extra"},
	{"--no-such-option", "--dialect", "mysql", "@SRC", "@DST"},
	{"--dialect", "sqlite3", "@SRC", "@DST"},
}

func init() {
	generating := func(r *gen.Rand, sc *Scenario) bool {
		if !goScenario(r, sc) {
			return false
		}
		sc.Old = r.Pick("", "-- the previous schema\nCREATE TABLE old (id INT);\n", strings.Repeat("-- a much longer file than before\n", 300))
		sc.Dst = r.Pick("", "", "", "dir", "missing", "insrc")
		if r.P(1, 8) {
			sc.Source = "file"
		}
		switch r.N(5) {
		case 0:
			sc.Args = badArgs[r.N(len(badArgs))]
		case 1:
			sc.Muts = randMuts(r, 1+r.N(2))
		}
		if r.P(3, 4) {
			for i := 1 + r.N(2); i > 0; i-- {
				f := world.Fault{Arg: r.N(3000)}
				switch r.N(8) {
				case 0, 1:
					f.Seam, f.N, f.Kind = "fs.write", r.N(3), r.Pick("short", "torn", "kill-torn", "enospc", "eio", "edquot", "eintr")
				case 2:
					f.Seam, f.N, f.Kind = "fs.wclose", 0, r.Pick("eio", "enospc", "edquot", "estale")
				case 3:
					f.Seam, f.N, f.Kind = "fs.create", 0, r.Pick("eacces", "enospc", "erofs", "emfile", "eio")
				case 4, 5:
					f.Seam, f.N, f.Kind = "fs.read", r.N(8), r.Pick("eio", "short", "eintr", "estale", "kill")
				default:
					f.Seam, f.N, f.Kind = "fs."+r.Pick("open", "stat", "lstat", "fstat", "readdir", "close"), r.N(8), r.Pick("eacces", "eio", "emfile", "enoent", "kill")
				}
				sc.Faults = append(sc.Faults, f)
			}
		}
		return true
	}
	reg("C15", "generate", 10, playGenerate, generating)
	reg("C08", "generate", 1, nil, generating)
	reg("C16", "generate", 10, nil, func(r *gen.Rand, sc *Scenario) bool {
		if !goScenario(r, sc) {
			return false
		}
		switch r.N(4) {
		case 0:
			sc.Muts = randMuts(r, 1)
			if r.P(1, 2) {
				sc.Muts[0].Kind = "cut"
			}
		case 1:
			for i := 1 + r.N(2); i > 0; i-- {
				f := world.Fault{Arg: r.N(3000), N: r.N(10)}
				switch r.N(4) {
				case 0, 1:
					f.Seam, f.Kind = "fs.read", r.Pick("eio", "short", "eintr", "estale", "short")
				case 2:
					f.Seam, f.Kind = "fs.readdir", r.Pick("eio", "estale")
					f.N = r.N(4)
				default:
					f.Seam, f.Kind = "fs."+r.Pick("open", "stat", "lstat", "fstat"), r.Pick("eacces", "eio", "emfile")
				}
				sc.Faults = append(sc.Faults, f)
			}
		}
		return true
	})
}
