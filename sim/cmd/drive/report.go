package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"time"
)

func sample(sc *Scenario, o *Outcome) any {
	return map[string]any{"play": sc.Play, "dialect": sc.Dialect, "seed": sc.Seed, "faults": fmt.Sprint(sc.Faults), "edits": sc.Notes, "observed": o.Why, "distinct": first(o.Nontrivial)}
}

func first(s []string) string {
	if len(s) > 0 {
		return s[0]
	}
	return ""
}

// report minimises a violation, writes its replay file and returns its path.
func (s *Search) report(f *Found, n int) (string, string) {
	sc, out := s.shrink(f.Sc, f.Out)
	_, log, hash, _ := s.safePlay("final", sc, 40*time.Second, true, nil)
	rf := ReplayFile{Property: s.Prop, Violation: out.Violation, Class: out.Class, BaseSeed: s.Seed, Index: f.Index, TraceHash: fmt.Sprintf("%016x", hash), Scenario: sc, Trace: log}
	_ = os.MkdirAll(s.Replays, 0o755)
	p := filepath.Join(s.Replays, fmt.Sprintf("%s-%d-%d.json", s.Prop, s.Seed, f.Index))
	b, _ := json.MarshalIndent(&rf, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	return p, fmt.Sprintf("  class: %s\n  seed %d scenario %d, play %s, dialect %s\n  %s", out.Class, s.Seed, f.Index, sc.Play, sc.Dialect, out.Violation)
}

// shrink removes parts of the scenario while a violation of the same class remains.
func (s *Search) shrink(sc *Scenario, out *Outcome) (*Scenario, *Outcome) {
	deadline := time.Now().Add(s.Shrink)
	if out.Timeout {
		return sc, out
	}
	best, bestOut := sc, out
	try := func(c *Scenario) bool {
		if time.Now().After(deadline) {
			return false
		}
		o, _, _, ierr := s.safePlay("shrink", c, 20*time.Second, false, nil)
		if ierr == nil && !o.Invalid && o.Violation != "" && o.Class == out.Class {
			best, bestOut = c, o
			return true
		}
		return false
	}
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for _, path := range candidates(best) {
			c := apply(best, path)
			if c != nil && !reflect.DeepEqual(c, best) && try(c) {
				changed = true
				break
			}
		}
	}
	return best, bestOut
}

// A candidate is a path into the scenario's JSON to delete (arrays, optional members) or to simplify.
type candidate struct {
	path []any
	set  any
	del  bool
}

func toJSON(sc *Scenario) any {
	b, _ := json.Marshal(sc)
	var v any
	_ = json.Unmarshal(b, &v)
	return v
}

var keep = map[string]bool{"prop": true, "play": true, "dialect": true, "source": true, "source2": true, "cmd": true, "core": true}

func candidates(sc *Scenario) []candidate {
	var out []candidate
	var walk func(v any, path []any)
	cp := func(p []any, x any) []any { return append(append([]any(nil), p...), x) }
	walk = func(v any, path []any) {
		switch x := v.(type) {
		case map[string]any:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if len(path) == 0 && keep[k] || k == "dialect" || k == "name" || k == "type" || k == "parts" || k == "cols" && len(path) > 3 && path[len(path)-2] == "fks" {
					if k != "parts" {
						continue
					}
				}
				switch y := x[k].(type) {
				case bool, string, float64:
					if k == "seed" {
						out = append(out, candidate{path: cp(path, k), set: "1"})
					} else {
						out = append(out, candidate{path: cp(path, k), del: true})
					}
				case []any:
					if len(y) > 0 && len(path) == 0 && k != "want" || k == "idx" || k == "fks" || k == "checks" || k == "opts" {
						out = append(out, candidate{path: cp(path, k), del: true})
					}
				}
			}
			for _, k := range ks {
				walk(x[k], cp(path, k))
			}
		case []any:
			for i := len(x) - 1; i >= 0; i-- {
				if len(x) > 1 || len(path) == 1 && path[0] == "faults" {
					out = append(out, candidate{path: cp(path, i), del: true})
				}
			}
			for i := range x {
				walk(x[i], cp(path, i))
			}
		}
	}
	walk(toJSON(sc), nil)
	// whole tables first: same-named tables in every schema at once
	names := map[string]bool{}
	var front []candidate
	if sc.Cur != nil {
		for _, t := range sc.Cur.Tables {
			names[t.Name] = true
		}
	}
	for _, w := range sc.Want {
		for _, t := range w.Tables {
			names[t.Name] = true
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		front = append(front, candidate{path: []any{"#table", n}})
	}
	cols := map[string]bool{}
	collect := func(s []*tableRef) {
		for _, t := range s {
			for _, c := range t.cols {
				cols[t.name+"\x00"+c] = true
			}
		}
	}
	collect(tableRefs(sc))
	var cs []string
	for c := range cols {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		front = append(front, candidate{path: []any{"#col", c}})
	}
	return append(front, out...)
}

type tableRef struct {
	name string
	cols []string
}

func tableRefs(sc *Scenario) []*tableRef {
	var out []*tableRef
	add := func(ts any) {}
	_ = add
	if sc.Cur != nil {
		for _, t := range sc.Cur.Tables {
			r := &tableRef{name: t.Name}
			for _, c := range t.Cols {
				r.cols = append(r.cols, c.Name)
			}
			out = append(out, r)
		}
	}
	for _, w := range sc.Want {
		for _, t := range w.Tables {
			r := &tableRef{name: t.Name}
			for _, c := range t.Cols {
				r.cols = append(r.cols, c.Name)
			}
			out = append(out, r)
		}
	}
	return out
}

func apply(sc *Scenario, c candidate) *Scenario {
	root := toJSON(sc)
	if s, ok := c.path[0].(string); ok && (s == "#table" || s == "#col") {
		n := cloneScenario(sc)
		if n == nil {
			return nil
		}
		dropNamed(n, s, c.path[1].(string))
		return n
	}
	var parent any = root
	for _, k := range c.path[:len(c.path)-1] {
		switch kk := k.(type) {
		case string:
			parent = parent.(map[string]any)[kk]
		case int:
			parent = parent.([]any)[kk]
		}
	}
	last := c.path[len(c.path)-1]
	switch kk := last.(type) {
	case string:
		m := parent.(map[string]any)
		if c.del {
			delete(m, kk)
		} else {
			m[kk] = c.set
		}
	case int:
		arr := parent.([]any)
		na := append(append([]any(nil), arr[:kk]...), arr[kk+1:]...)
		// put the shorter array back
		var pp any = root
		for _, k := range c.path[:len(c.path)-2] {
			switch q := k.(type) {
			case string:
				pp = pp.(map[string]any)[q]
			case int:
				pp = pp.([]any)[q]
			}
		}
		switch q := c.path[len(c.path)-2].(type) {
		case string:
			pp.(map[string]any)[q] = na
		case int:
			pp.([]any)[q] = na
		}
	}
	b, err := json.Marshal(root)
	if err != nil {
		return nil
	}
	n := &Scenario{}
	if json.Unmarshal(b, n) != nil {
		return nil
	}
	n.Seed = sc.Seed
	if s, ok := c.path[0].(string); ok && s == "seed" {
		n.Seed = 1
	}
	n.Seeds = sc.Seeds
	return n
}

func cloneScenario(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	n := &Scenario{}
	if json.Unmarshal(b, n) != nil {
		return nil
	}
	return n
}

func dropNamed(sc *Scenario, kind, name string) {
	schemas := sc.Want
	if sc.Cur != nil {
		schemas = append(append(schemas[:0:0], schemas...), sc.Cur)
	}
	for _, s := range schemas {
		for i := 0; i < len(s.Tables); i++ {
			t := s.Tables[i]
			if kind == "#table" {
				if t.Name == name {
					s.Tables = append(s.Tables[:i], s.Tables[i+1:]...)
					i--
				}
				continue
			}
			for j := 0; j < len(t.Cols); j++ {
				if t.Name+"\x00"+t.Cols[j].Name == name {
					t.Cols = append(t.Cols[:j], t.Cols[j+1:]...)
					j--
				}
			}
		}
	}
}

func (s *Search) summary(elapsed time.Duration, lines []string) map[string]any {
	plays := s.plays
	fired := 0
	for _, n := range s.stats.Fired {
		fired += n
	}
	var bl []string
	seen := map[string]bool{}
	for _, b := range s.stats.Blocked {
		if !seen[b] && len(bl) < 10 {
			seen[b] = true
			bl = append(bl, b)
		}
	}
	return map[string]any{
		"scenarios": s.runs, "not_applicable_scenarios": s.invalid, "steps": s.stats.Steps, "distinct": len(s.nontriv), "distinct_event_orders": len(s.stats.Orders),
		"simulated_seconds": s.stats.SimTime.Seconds(), "faults_injected": s.stats.Fired, "faults_total": fired, "plays": plays, "wall_seconds": elapsed.Seconds(),
		"scenarios_per_hour": float64(s.runs) / elapsed.Hours(), "samples": s.samples, "violations": lines, "determinism_checked": s.checked,
		"determinism_failed": s.nondet, "outcomes": s.stats.Kinds, "infrastructure_errors": len(s.infra), "blocked_writes": bl, "base_seed": s.Seed, "timeouts": s.stats.Timeouts,
	}
}
