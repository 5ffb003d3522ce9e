package main

import (
	"fmt"
	"regexp"
	"strings"

	"verifsim/db"
	"verifsim/drv"
	"verifsim/gen"
	"verifsim/step"
	"verifsim/world"
)

// displayed extracts the plan shown by apply.
func displayed(stdout string) (string, bool) {
	i := strings.Index(stdout, "-- 8< --")
	if i < 0 {
		return "", false
	}
	s := stdout[i+len("-- 8< --"):]
	j := strings.LastIndex(s, "-- >8 --")
	if j < 0 {
		return s, false
	}
	return s[:j], true
}

func norm(d, stmt string) string {
	t, err := db.NormalTokens(d, stmt)
	if err != nil {
		return "!" + stmt
	}
	return fmt.Sprint(t)
}

// plan splits a plan into normalised statements the way the dialect's own tools would.
func plan(d, text string) ([]string, error) {
	ss, err := db.SplitStatements(d, text)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, s := range ss {
		if n := norm(d, s); n != "" {
			out = append(out, n)
		}
	}
	return out, nil
}

// writesOf lists the statements of one process that are not reads.
func writesOf(r *step.Result, proc int) []world.Exec {
	var out []world.Exec
	for _, x := range r.Execs {
		if x.Proc == proc && !drv.IsRead(x.Stmt) {
			out = append(out, x)
		}
	}
	return out
}

func changed(a, b *db.Catalog) bool { return a.JSON() != b.JSON() }

// compare describes how the database differs from what is wanted.
func compare(got, want *db.Catalog) string {
	m, x := db.Compare(got, want)
	if len(m) == 0 && len(x) == 0 {
		return ""
	}
	clip := func(s []string) []string {
		if len(s) > 4 {
			s = s[:4]
		}
		return s
	}
	return fmt.Sprintf("missing %q; unexpected %q", clip(m), clip(x))
}

func applyArgs(sc *Scenario, target, source string) []string {
	a := []string{"apply", "--dialect", sc.Dialect}
	if !sc.Manual {
		a = append(a, "--auto-approve")
	}
	return append(a, target, source)
}

// putSource writes a schema as the given kind of source and returns the argument naming it.
func putSource(e *Env, sc *Scenario, kind, name string, s *gen.Schema, raw string) string {
	switch kind {
	case "go", "dir":
		fs := s.Go(sc.Go)
		for _, f := range fs {
			e.Write(name+"/"+f.Path, f.Data)
		}
		return e.Dir + "/" + name
	case "db":
		c, err := s.Catalog()
		if err != nil {
			return ""
		}
		d := step.DB{DSN: dsnFor(sc.Dialect) + "&src=" + name, Dialect: sc.Dialect, Cat: c}
		e.DBs = append(e.DBs, d)
		return d.DSN
	}
	t := raw
	if t == "" {
		st := sc.Style
		if name == "left" && sc.Style2 != nil {
			st = *sc.Style2
		}
		t = s.SQL(st)
	}
	return e.Write(name+".sql", []byte(t))
}

func panicked(r *step.Result, p int) string {
	if r.Crash != "" {
		return "the process died: " + r.Crash
	}
	if p < len(r.Procs) && r.Procs[p].Panic != "" {
		return "panic: " + firstLine(r.Procs[p].Panic, 600)
	}
	return ""
}

var (
	reQuoted = regexp.MustCompile("`[^`]*`|\"[^\"]*\"|'[^']*'")
	reTail   = regexp.MustCompile(`(?i)\b(table|column|index|constraint|key|relation|name|type|role|database|exist|exists)\b:? +[A-Za-z_][A-Za-z0-9_.]*`)
)

// errClass is the innermost message with names and numbers erased.
func errClass(stderr string) string {
	s := stderr
	if i := strings.Index(s, "ddlctl: "); i >= 0 {
		s = s[i:]
	}
	if i := strings.LastIndex(s, "q="); i >= 0 { // what follows the statement is the database's message
		if j := strings.LastIndex(s, ": Error "); j > i {
			s = s[j:]
		} else if j := strings.LastIndex(s, ": pq: "); j > i {
			s = s[j:]
		} else if j := strings.LastIndex(s, ": spanner: "); j > i {
			s = s[j:]
		}
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	s = reQuoted.ReplaceAllString(s, "_")
	s = reTail.ReplaceAllString(s, "$1 _")
	if len(s) > 140 {
		s = s[len(s)-140:]
	}
	var b strings.Builder
	for _, c := range s {
		if c >= '0' && c <= '9' {
			c = '9'
		}
		b.WriteRune(c)
	}
	return b.String()
}

// recreated: Spanner tables that cannot be altered into the desired form are dropped and created again.
func recreated(bc, wc *db.Catalog, key string) bool {
	return db.SpannerRecreates(bc, wc, key)
}

func wantCatalog(sc *Scenario, s *gen.Schema) *db.Catalog {
	c, err := setup(s)
	if err != nil {
		return nil
	}
	return c
}
