package db

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

type sqlErr string

func (e sqlErr) Error() string { return string(e) }

// KeyPart is one column of a key.
type KeyPart struct {
	Col  string
	Desc bool
}

// Column of a table.
type Column struct {
	ID       int
	Name     string
	Type     string
	NotNull  bool
	Def      *Expr
	DefRaw   string
	HasDef   bool // MySQL: a default exists, including DEFAULT NULL
	AutoInc  bool
	OnUpdate string
	Charset  string
	Collate  string
	Comment  string
	Opts     map[string]string
	Serial   string
	Hidden   bool
	Gen      string

	saysNull bool // MySQL: declared NULL or DEFAULT NULL by the statement being executed
}

// Constraint of a table.
type Constraint struct {
	Kind     string // pk unique fk check
	Name     string
	Auto     bool
	Parts    []KeyPart
	Ref      string
	RefCols  []string
	OnDelete string
	OnUpdate string
	Expr     *Expr
	Raw      string // the text of Expr
	NotValid bool
}

// Index of a table.
type Index struct {
	Name     string
	Unique   bool
	Parts    []KeyPart
	Using    string
	Implicit bool // created by the server for a foreign key
	NullFilt bool
	Buckets  string
}

// Table in the catalog.
type Table struct {
	ID     int
	Name   string // schema-qualified key
	Cols   []*Column
	Cons   []*Constraint
	Idx    []*Index
	Opts   map[string]string
	Parent string
	ParDel string // interleave on delete
	RowDel string
}

// Catalog is a whole schema.
type Catalog struct {
	Dialect string
	Tables  map[string]*Table
	NextID  int
	Views   []string `json:",omitempty"` // names of views, of one constant column each
}

// NewCatalog returns an empty catalog.
func NewCatalog(d string) *Catalog {
	return &Catalog{Dialect: d, Tables: map[string]*Table{}, NextID: 1}
}

// Clone copies deeply.
func (c *Catalog) Clone() *Catalog {
	n := &Catalog{Dialect: c.Dialect, Tables: map[string]*Table{}, NextID: c.NextID, Views: c.Views}
	for k, t := range c.Tables {
		n.Tables[k] = t.clone()
	}
	return n
}

func (t *Table) clone() *Table {
	n := *t
	n.Cols = nil
	for _, c := range t.Cols {
		x := *c
		x.Opts = cloneMap(c.Opts)
		n.Cols = append(n.Cols, &x)
	}
	n.Cons = nil
	for _, c := range t.Cons {
		x := *c
		x.Parts = append([]KeyPart(nil), c.Parts...)
		x.RefCols = append([]string(nil), c.RefCols...)
		n.Cons = append(n.Cons, &x)
	}
	n.Idx = nil
	for _, c := range t.Idx {
		x := *c
		x.Parts = append([]KeyPart(nil), c.Parts...)
		n.Idx = append(n.Idx, &x)
	}
	n.Opts = cloneMap(t.Opts)
	return &n
}

func cloneMap(m map[string]string) map[string]string {
	if m == nil {
		return nil
	}
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (c *Catalog) id() int { c.NextID++; return c.NextID - 1 }

// Names lists table names in order.
func (c *Catalog) Names() []string {
	var ns []string
	for k := range c.Tables {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	return ns
}

func (c *Catalog) eq(a, b string) bool {
	if c.Dialect == MySQL || c.Dialect == Spanner {
		return strings.EqualFold(a, b)
	}
	return a == b
}

func (c *Catalog) col(t *Table, name string) *Column {
	for _, x := range t.Cols {
		if c.eq(x.Name, name) {
			return x
		}
	}
	return nil
}

func (t *Table) con(kind string) *Constraint {
	for _, x := range t.Cons {
		if x.Kind == kind {
			return x
		}
	}
	return nil
}

func (t *Table) conNamed(name string) *Constraint {
	for _, x := range t.Cons {
		if x.Name == name {
			return x
		}
	}
	return nil
}

func (c *Catalog) idx(t *Table, name string) *Index {
	for _, x := range t.Idx {
		if c.eq(x.Name, name) {
			return x
		}
	}
	return nil
}

func partStr(ps []KeyPart) string {
	var s []string
	for _, p := range ps {
		if p.Desc {
			s = append(s, p.Col+" DESC")
		} else {
			s = append(s, p.Col)
		}
	}
	return strings.Join(s, ",")
}

func (c *Catalog) lc(s string) string {
	if c.Dialect == MySQL || c.Dialect == Spanner {
		return strings.ToLower(s)
	}
	return s
}

// Lines describes the catalog as canonical facts, one per line, column order and object identity left out. Facts whose
// name the server chose carry "*" for the name when autoNames is true.
func (c *Catalog) Lines(autoNames bool) []string {
	var out []string
	add := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	for _, n := range c.Names() {
		t := c.Tables[n]
		var opts []string
		for k, v := range t.Opts {
			if k == "AUTO_INCREMENT" {
				continue
			}
			opts = append(opts, k+"="+v)
		}
		sort.Strings(opts)
		add("table %s opts[%s] parent[%s %s] ttl[%s]", c.lc(n), strings.Join(opts, " "), c.lc(t.Parent), t.ParDel, t.RowDel)
		for _, x := range t.Cols {
			if x.Hidden {
				continue
			}
			def := ""
			if x.HasDef || x.Def != nil {
				def = x.Def.Canon(c.Dialect)
			}
			var co []string
			for k, v := range x.Opts {
				co = append(co, k+"="+v)
			}
			sort.Strings(co)
			add("column %s.%s %s notnull=%v default[%s] autoinc=%v onupdate[%s] cs[%s] coll[%s] comment[%s] opts[%s] serial=%v gen[%s]",
				c.lc(n), c.lc(x.Name), x.Type, x.NotNull, def, x.AutoInc, x.OnUpdate, x.Charset, x.Collate, x.Comment, strings.Join(co, ","), x.Serial != "", x.Gen)
		}
		for _, x := range t.Cons {
			nm := x.Name
			if (x.Auto && autoNames) || (x.Kind == "pk" && (c.Dialect == MySQL || c.Dialect == Spanner)) {
				nm = "*"
			}
			add("%s %s.%s (%s) ref[%s(%s) D:%s U:%s] expr[%s] notvalid=%v", x.Kind, c.lc(n), nm, c.lc(partStr(x.Parts)),
				c.lc(x.Ref), c.lc(strings.Join(x.RefCols, ",")), x.OnDelete, x.OnUpdate, x.Expr.Canon(c.Dialect), x.NotValid)
		}
		for _, x := range t.Idx {
			if x.Implicit {
				continue
			}
			add("index %s.%s unique=%v (%s) using[%s] nf=%v buckets[%s]", c.lc(n), c.lc(x.Name), x.Unique, c.lc(partStr(x.Parts)), x.Using, x.NullFilt, x.Buckets)
		}
	}
	sort.Strings(out)
	return out
}

// Compare returns the facts present in only one of the two catalogs: the want side's server-chosen names match any.
func Compare(got, want *Catalog) (missing, extra []string) {
	count := map[string]int{}
	w := want.Lines(false)
	wa := want.Lines(true)
	_ = wa
	for _, l := range got.Lines(false) {
		count[l]++
	}
	var rest []string
	for _, l := range w {
		if count[l] > 0 {
			count[l]--
		} else {
			rest = append(rest, l)
		}
	}
	var left []string
	for l, n := range count {
		for ; n > 0; n-- {
			left = append(left, l)
		}
	}
	sort.Strings(left)
	// try again for the unmatched with names of auto-named constraints erased
	auto := map[string]string{} // exact line -> erased line, for want's auto-named
	for _, n := range want.Names() {
		t := want.Tables[n]
		for _, x := range t.Cons {
			if !x.Auto {
				continue
			}
			one := &Catalog{Dialect: want.Dialect, Tables: map[string]*Table{n: {Name: n, Cons: []*Constraint{x}}}}
			auto[lastLine(one.Lines(false), x.Kind)] = lastLine(one.Lines(true), x.Kind)
		}
	}
	erase := func(l string) string {
		f := strings.SplitN(l, " ", 3)
		if len(f) != 3 {
			return l
		}
		i := strings.LastIndex(f[1], ".")
		if i < 0 {
			return l
		}
		return f[0] + " " + f[1][:i] + ".* " + f[2]
	}
	for _, l := range rest {
		if e, ok := auto[l]; ok {
			hit := -1
			for i, g := range left {
				if erase(g) == e {
					hit = i
					break
				}
			}
			if hit >= 0 {
				left = append(left[:hit], left[hit+1:]...)
				continue
			}
		}
		missing = append(missing, l)
	}
	return missing, left
}

func lastLine(ls []string, kind string) string {
	for _, l := range ls {
		if strings.HasPrefix(l, kind+" ") {
			return l
		}
	}
	return ""
}

// Identity maps every table and column to its identity: it changes when the object is dropped and recreated.
func (c *Catalog) Identity() map[string]int {
	m := map[string]int{}
	for n, t := range c.Tables {
		m[c.lc(n)] = t.ID
		for _, x := range t.Cols {
			if !x.Hidden {
				m[c.lc(n)+"#"+c.lc(x.Name)] = x.ID
			}
		}
	}
	return m
}

// JSON is for traces.
func (c *Catalog) JSON() string { b, _ := json.Marshal(c.Lines(false)); return string(b) }

// SpannerRecreates reports whether the table of an identity key has another primary key or interleaving in the second
// catalog: Spanner cannot alter those in place.
func SpannerRecreates(a, b *Catalog, key string) bool {
	name := key
	if i := strings.IndexByte(key, '#'); i >= 0 {
		name = key[:i]
	}
	find := func(c *Catalog) *Table {
		for n, t := range c.Tables {
			if c.lc(n) == name {
				return t
			}
		}
		return nil
	}
	for depth := 0; depth < 10; depth++ {
		x, y := find(a), find(b)
		if x == nil || y == nil {
			return depth > 0
		}
		if x.Parent != y.Parent || x.ParDel != y.ParDel || fmt.Sprint(x.pkParts()) != fmt.Sprint(y.pkParts()) {
			return true
		}
		if x.Parent == "" {
			return false
		}
		name = a.lc(x.Parent)
	}
	return false
}

func (t *Table) pkParts() []KeyPart {
	for _, c := range t.Cons {
		if c.Kind == "pk" {
			return c.Parts
		}
	}
	return nil
}

// TablesWithIndex lists the tables that have an index of that name.
func (c *Catalog) TablesWithIndex(name string) []string {
	var ts []string
	for n, t := range c.Tables {
		for _, x := range t.Idx {
			if strings.EqualFold(x.Name, name) {
				ts = append(ts, n)
			}
		}
	}
	sort.Strings(ts)
	return ts
}

func (c *Catalog) isView(n string) bool {
	for _, v := range c.Views {
		if v == n {
			return true
		}
	}
	return false
}
