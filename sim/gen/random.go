package gen

import (
	"fmt"
	"regexp"
	"strings"

	"verifsim/db"
)

// Dom restricts what is generated. The zero value is the plain core: constructs the dialect's own dump prints back as
// they were given.
type Dom struct {
	MaxTables int
	MaxCols   int
	FKs       bool // foreign keys
	Checks    bool // CHECK constraints
	SelfFK    bool
	Forward   bool // tables may refer to tables written later
	Desc      bool // descending key parts
	Strings   bool // string literals with separators, quotes, comment markers, newlines
	OddNames  bool // names that need quoting or look like keywords
	Indexes   bool
	Opts      bool // table options (MySQL)
	Inter     bool // interleaved tables and row deletion policies (Spanner)
	ColOpts   bool // column OPTIONS (Spanner), charset (MySQL)
	PKDesc    bool
	File      bool // only names which ddlctl reads back
	Canon     bool // literals only as the dump spells them
	Defaults  bool
	Wide      bool // long lines: many columns, very long literals
}

// Core is what every dialect's dump, parser and diff handle in both directions.
func Core(d string) Dom {
	m := Dom{MaxTables: 4, MaxCols: 5, Indexes: true, Defaults: true, ColOpts: true, Opts: true, FKs: true, Checks: true}
	switch d {
	case db.Spanner:
		m.PKDesc, m.Desc = true, true
	}
	return m
}

var tableNames = []string{"users", "orders", "items", "audit_log", "accounts", "events", "tags", "a", "t1", "user_items", "order_items", "t10", "b", "users_2", "payments", "zz", "logs"}
var colNames = []string{"id", "name", "email", "age", "created_at", "updated_at", "price", "status", "note", "flag", "code", "user_ref", "data", "x", "y2", "qty"}
var oddNames = []string{"order", "group", "index_", "primary_key", "check_no", "references_to", "default_value", "unique_code", "key_", "constraint_x", "table_", "on_update", "Mixed", "value", "options", "row"}

func typesOf(d string) []string {
	switch d {
	case db.MySQL:
		return []string{"bigint", "int", "smallint", "tinyint(1)", "decimal(10,2)", "double", "varchar(64)", "varchar(255)", "char(8)", "text", "json", "date", "datetime", "timestamp", "enum('a','b')", "datetime(6)", "longtext", "mediumtext", "time", "decimal(10,0)", "char(1)", "bit(1)", "bit(3)", "enum('x,y')"}
	case db.Postgres:
		return []string{"bigint", "integer", "smallint", "boolean", "numeric", "numeric(10,2)", "numeric(8,0)", "real", "double precision", "uuid", "jsonb", "text", "character varying(64)", "character varying(255)", "timestamp with time zone"}
	case db.CRDB:
		return []string{"INT8", "INT4", "INT2", "BOOL", "DECIMAL(10,2)", "FLOAT8", "FLOAT4", "UUID", "JSONB", "STRING", "VARCHAR(64)", "VARCHAR(255)", "TIMESTAMPTZ"}
	}
	return []string{"INT64", "BOOL", "FLOAT64", "NUMERIC", "STRING(64)", "STRING(MAX)", "TIMESTAMP", "JSON"}
}

func keyable(d, typ string) bool {
	switch d {
	case db.MySQL:
		return typ != "json" && !strings.HasSuffix(typ, "text") && typ != "double"
	case db.Postgres:
		return typ != "jsonb"
	case db.CRDB:
		return typ != "JSONB"
	}
	return typ != "JSON" && typ != "FLOAT64" && typ != "NUMERIC"
}

var plainStrings = []string{"a", "active", "x y", "N/A"}
var oddStrings = []string{"a;b", "it''s", "-- no", "x -- y", "a,b(c)", "/* c */", "#1", "a;\nb", "''", "done;\n-- x\ny", "(", "))", "`q`", "\"d\"", "tab\tx", "  lead", "ünï", "DEFAULT NULL", "a\n\nb", "see AUTO_INCREMENT=7 there", ") ENGINE=InnoDB", "50% %s %d", "$1 ?", ",\n  KEY `k` (`a`)"}

// literal returns a string literal in the dialect's spelling.
func literal(r *Rand, d string, dom Dom, max int) string {
	s := plainStrings[r.N(len(plainStrings))]
	if dom.Strings && r.P(2, 3) {
		s = oddStrings[r.N(len(oddStrings))]
		if d == db.MySQL && (dom.Canon || r.P(1, 2)) {
			s = strings.ReplaceAll(s, "\n", "\\n")
		}
		if d == db.Spanner {
			s = strings.ReplaceAll(strings.ReplaceAll(s, "''", `\'`), "\n", `\n`)
		}
		if r.P(1, 8) {
			if d == db.MySQL && dom.Canon {
				s = r.Pick(`c:\\`, `\\''`)
			} else if d == db.MySQL || d == db.Spanner {
				s = r.Pick(`c:\\`, `it\'s; x`, `\\\'`, `\';`)
			} else {
				s = r.Pick(`c:\`, `\''`, `\n`)
			}
		}
	}
	if dom.Wide && r.P(1, 6) {
		s = strings.Repeat("long ", 1+r.N(15000))
		max = 100000
	}
	if max > 0 && len(s) > max {
		s = "a"
	}
	return "'" + s + "'"
}

func intLit(r *Rand) string { return fmt.Sprint(r.N(200) - 20) }

func randDefault(r *Rand, d string, typ string, notNull bool, dom Dom) string {
	t := strings.ToLower(typ)
	switch d {
	case db.MySQL:
		switch {
		case t == "char(1)":
			return "'" + r.Pick("a", "N", ";") + "'"
		case t == "decimal(10,0)":
			return "'" + r.Pick("0", "7") + "'"
		case strings.HasPrefix(t, "varchar"), strings.HasPrefix(t, "char"):
			return literal(r, d, dom, 8)
		case t == "enum('x,y')":
			return "'x,y'"
		case strings.HasPrefix(t, "enum"):
			return "'a'"
		case t == "bigint", t == "int", t == "smallint":
			return "'" + intLit(r) + "'"
		case strings.HasPrefix(t, "tinyint"):
			return "'" + r.Pick("0", "1") + "'"
		case strings.HasPrefix(t, "decimal"):
			return "'" + r.Pick("0.00", "1.50", "-3.25") + "'"
		case t == "datetime", t == "timestamp":
			return "CURRENT_TIMESTAMP"
		case t == "datetime(6)":
			return "CURRENT_TIMESTAMP(6)"
		}
	case db.Postgres:
		switch {
		case strings.HasPrefix(t, "character varying"):
			return literal(r, d, dom, 64) + "::character varying"
		case t == "text":
			return literal(r, d, dom, 0) + "::text"
		case t == "bigint", t == "integer", t == "smallint":
			return r.Pick("0", "1", "42", "100")
		case t == "numeric", t == "numeric(10,2)":
			return r.Pick("0", "1.5")
		case t == "boolean":
			return r.Pick("true", "false")
		case t == "uuid":
			return "gen_random_uuid()"
		case t == "timestamp with time zone":
			return r.Pick("now()", "CURRENT_TIMESTAMP")
		case t == "jsonb":
			return "'{}'::jsonb"
		}
	case db.CRDB:
		switch {
		case strings.HasPrefix(t, "varchar"), t == "string":
			return literal(r, d, dom, 64) + ":::STRING"
		case t == "int8", t == "int4", t == "int2":
			return r.Pick("0", "1", "42") + ":::INT8"
		case t == "bool":
			return r.Pick("true", "false")
		case t == "uuid":
			return "gen_random_uuid()"
		case t == "timestamptz":
			return "now():::TIMESTAMPTZ"
		case t == "float8":
			return ""
		}
	case db.Spanner:
		switch {
		case strings.HasPrefix(t, "string"):
			return literal(r, d, dom, 64)
		case t == "int64":
			return intLit(r)
		case t == "bool":
			return r.Pick("true", "false")
		case t == "timestamp":
			return "CURRENT_TIMESTAMP()"
		}
	}
	return ""
}

func qualify(d, n string) string {
	if d == db.Postgres || d == db.CRDB {
		return "public." + n
	}
	return n
}

func randCol(r *Rand, d, name string, dom Dom) *Col {
	ts := typesOf(d)
	c := &Col{Name: name, Type: ts[r.N(len(ts))], NotNull: r.P(1, 2)}
	if dom.Defaults && r.P(1, 3) {
		c.Default = randDefault(r, d, c.Type, c.NotNull, dom)
		if c.Default != "" && d == db.MySQL && (c.Type == "datetime" || c.Type == "timestamp") && r.P(1, 3) {
			c.OnUpdate = "CURRENT_TIMESTAMP"
		}
	}
	if d == db.MySQL && dom.ColOpts {
		if (strings.HasPrefix(c.Type, "varchar") || c.Type == "text") && r.P(1, 6) {
			c.Charset, c.Collate = "utf8mb4", r.Pick("utf8mb4_bin", "utf8mb4_general_ci")
		}
		if r.P(1, 6) {
			l := literal(r, d, dom, 0)
			c.Comment = l[1 : len(l)-1]
		}
	}
	if d == db.Spanner && dom.ColOpts && c.Type == "TIMESTAMP" && c.Default == "" && r.P(1, 3) {
		c.Options = "allow_commit_timestamp = TRUE"
	}
	return c
}

func (t *Table) keyCols(d string) []string {
	var out []string
	for _, c := range t.Cols {
		if keyable(d, c.Type) {
			out = append(out, c.Name)
		}
	}
	return out
}

func (t *Table) pkHas(n string) bool {
	for _, p := range t.PK {
		if p.Col == n {
			return true
		}
	}
	return false
}

func pickName(r *Rand, dom Dom, pool []string, used func(string) bool) string {
	for i := 0; i < 50; i++ {
		n := pool[r.N(len(pool))]
		if dom.OddNames && r.P(1, 4) {
			n = oddNames[r.N(len(oddNames))]
			if dom.File && (n == "row" || n == "options") {
				continue // key words to the readers, even as names
			}
		}
		if !used(n) {
			return n
		}
	}
	return ""
}

// RandTable makes a table.
func RandTable(r *Rand, s *Schema, dom Dom) *Table {
	d := s.Dialect
	n := pickName(r, dom, tableNames, func(n string) bool { return s.hasTable(qualify(d, n)) })
	if n == "" {
		return nil
	}
	t := &Table{Name: qualify(d, n)}
	key := &Col{Name: "id", NotNull: true}
	switch d {
	case db.MySQL:
		key.Type = r.Pick("bigint", "bigint", "int", "varchar(36)")
		if key.Type != "varchar(36)" && r.P(1, 3) {
			key.AutoInc = true
		}
	case db.Postgres:
		key.Type = r.Pick("bigint", "uuid", "text", "character varying(36)")
	case db.CRDB:
		key.Type = r.Pick("INT8", "UUID", "STRING", "VARCHAR(36)")
		if key.Type == "UUID" && r.P(1, 2) {
			key.Default = "gen_random_uuid()"
		}
	default:
		key.Type = r.Pick("STRING(36)", "INT64")
	}
	t.Cols = append(t.Cols, key)
	t.PK = []Part{{Col: "id"}}
	nc := r.N(dom.MaxCols)
	if dom.Wide && r.P(1, 3) {
		nc += 20 + r.N(40)
	}
	for i := 0; i < nc; i++ {
		t.addCol(r, d, dom)
	}
	if d == db.Spanner && dom.PKDesc && r.P(1, 4) {
		t.PK[0].Desc = true
	}
	if ks := t.keyCols(d); len(ks) > 1 && r.P(1, 4) {
		k := ks[1+r.N(len(ks)-1)]
		t.PK = append(t.PK, Part{Col: k})
		t.Col(k).NotNull = true
		if t.Col(k).Default == "NULL" {
			t.Col(k).Default = ""
		}
	}
	if dom.Indexes {
		for i := r.N(3); i > 0; i-- {
			t.addIdx(r, s, dom)
		}
	}
	if dom.Checks && r.P(1, 3) {
		t.addCheck(r, d)
	}
	if dom.FKs && r.P(1, 2) {
		t.addFK(r, s, dom)
	}
	if d == db.MySQL && dom.Opts {
		t.Opts = []string{"ENGINE=InnoDB", "DEFAULT CHARSET=utf8mb4", "COLLATE=utf8mb4_0900_ai_ci"}
		if r.P(1, 3) {
			t.Opts = append(t.Opts, "COMMENT="+literal(r, d, dom, 0))
		}
	}
	if d == db.Spanner && dom.Inter && r.P(1, 4) && len(s.Tables) > 0 {
		p := s.Tables[r.N(len(s.Tables))]
		var cols []*Col
		for _, k := range p.PK {
			c := *p.Col(k.Col)
			c.Options = ""
			cols = append(cols, &c)
		}
		var rest []*Col
		for _, c := range t.Cols {
			dup := false
			for _, k := range cols {
				dup = dup || k.Name == c.Name
			}
			if !dup {
				rest = append(rest, c)
			}
		}
		child := &Col{Name: "child_no", Type: "INT64", NotNull: true}
		t.Cols = append(append(cols, child), rest...)
		t.PK = append(append([]Part(nil), p.PK...), Part{Col: "child_no"})
		t.Parent = p.Name
		t.ParDel = r.Pick("", "CASCADE", "NO ACTION")
	}
	if d == db.Spanner && dom.Inter && r.P(1, 5) {
		for _, c := range t.Cols {
			if c.Type == "TIMESTAMP" && !t.pkHas(c.Name) {
				t.RowDel, t.Days = c.Name, 1+r.N(90)
				break
			}
		}
	}
	return t
}

func (s *Schema) hasTable(n string) bool {
	for _, g := range s.Gone {
		if strings.EqualFold(g, n) {
			return true
		}
	}
	for _, t := range s.Tables {
		if strings.EqualFold(t.Name, n) {
			return true
		}
	}
	return false
}

func (t *Table) addCol(r *Rand, d string, dom Dom) *Col {
	n := pickName(r, dom, colNames, func(n string) bool { return t.hasColFold(n) })
	if n == "" {
		n = fmt.Sprintf("c%d", len(t.Cols))
		if t.hasColFold(n) {
			return nil
		}
	}
	c := randCol(r, d, n, dom)
	t.Cols = append(t.Cols, c)
	return c
}

func (t *Table) hasColFold(n string) bool {
	for _, g := range t.Gone {
		if strings.EqualFold(g, n) {
			return true
		}
	}
	for _, c := range t.Cols {
		if strings.EqualFold(c.Name, n) {
			return true
		}
	}
	return false
}

func (s *Schema) nameUsed(n string) bool {
	for _, t := range s.Tables {
		if t.hasName(n) || pgBase(t.Name) == n || PKName(t) == n {
			return true
		}
	}
	return false
}

func (t *Table) addIdx(r *Rand, s *Schema, dom Dom) *Idx {
	ks := t.keyCols(s.Dialect)
	if len(ks) == 0 {
		return nil
	}
	x := &Idx{Unique: r.P(1, 3)}
	if s.Dialect == db.Postgres && x.Unique {
		x.Con = r.P(1, 2)
	}
	seen := map[string]bool{}
	for i := 1 + r.N(2); i > 0; i-- {
		k := ks[r.N(len(ks))]
		if seen[k] {
			continue
		}
		seen[k] = true
		p := Part{Col: k}
		if dom.Desc && !x.Con && r.P(1, 4) {
			p.Desc = true
		}
		x.Parts = append(x.Parts, p)
	}
	base := "idx_" + pgBase(t.Name)
	if x.Unique {
		base = "uq_" + pgBase(t.Name)
	}
	for _, p := range x.Parts {
		base += "_" + strings.ToLower(p.Col)
	}
	x.Name = base
	if k := x.Parts[0]; s.Dialect != db.Spanner && x.Unique && len(x.Parts) == 1 && !k.Desc && plain(k.Col) && plain(pgBase(t.Name)) && r.P(1, 2) {
		x.Name, x.Con = pgBase(t.Name)+"_unique_"+k.Col, s.Dialect == db.Postgres // may be written with the column
	}
	for i := 2; s.nameUsed(x.Name) || t.hasName(x.Name); i++ {
		x.Name = fmt.Sprintf("%s%d", base, i)
	}
	t.Idx = append(t.Idx, x)
	return x
}

// idxReferenced: a foreign key refers to the column the index makes unique.
func (s *Schema) idxReferenced(t *Table, x *Idx) bool {
	for _, o := range s.Tables {
		for _, f := range o.FKs {
			if f.Ref == t.Name && len(f.RefCols) == 1 && x.Unique && len(x.Parts) == 1 && x.Parts[0].Col == f.RefCols[0] {
				return true
			}
		}
	}
	return false
}

// ofFK: MySQL's index of a foreign key.
func (x *Idx) ofFK() bool {
	return strings.HasPrefix(x.Name, "idx_fk_") || strings.HasPrefix(x.Name, "idx_") && strings.HasSuffix(x.Name, "_fkey")
}

func (t *Table) addCheck(r *Rand, d string) *Check {
	for _, c := range t.Cols {
		switch c.Type {
		case "bigint", "int", "smallint", "integer", "INT64", "INT8", "INT4", "INT2":
		default:
			continue
		}
		if c.AutoInc {
			continue
		}
		n, x := "chk_"+t.Name+"_"+strings.ToLower(c.Name), c.Name
		switch d {
		case db.MySQL:
			x = "`" + x + "`"
		case db.Postgres, db.CRDB: // read only where it is written with the column
			n = pgBase(t.Name) + "_" + c.Name + "_check"
			if !plain(c.Name) || !plain(pgBase(t.Name)) {
				continue
			}
		default:
			if !plain(c.Name) || !plain(t.Name) {
				continue
			}
		}
		if t.hasName(n) {
			continue
		}
		k := &Check{Name: n, Col: c.Name, Expr: fmt.Sprintf("%s %s %d", x, r.Pick(">", "<", ">=", "<>"), r.N(1000))}
		if d == db.MySQL {
			k.Expr = "(" + k.Expr + ")"
		}
		t.Checks = append(t.Checks, k)
		return k
	}
	return nil
}

var rePlain = regexp.MustCompile(`^[a-z][a-z0-9_]*$`)

// plain names need no quotes and are no key words.
func plain(n string) bool {
	for _, o := range oddNames {
		if n == o {
			return false
		}
	}
	return rePlain.MatchString(n)
}

func (t *Table) addFK(r *Rand, s *Schema, dom Dom) *FK {
	var refs []*Table
	for _, x := range s.Tables {
		if x != t && len(x.PK) == 1 && x.Parent == "" {
			refs = append(refs, x)
		}
	}
	if dom.SelfFK && len(t.PK) == 1 && r.P(1, 4) {
		refs = append(refs, t)
	}
	if len(refs) == 0 {
		return nil
	}
	ref := refs[r.N(len(refs))]
	pk := ref.Col(ref.PK[0].Col)
	cn := strings.ToLower(pgBase(ref.Name)) + "_id"
	fn := "fk_" + pgBase(t.Name) + "_" + pgBase(ref.Name)
	if plain(pgBase(t.Name)) && plain(cn) && r.P(1, 3) {
		fn = pgBase(t.Name) + "_" + cn + "_fkey"
	}
	if t.hasColFold(cn) || t.hasName(fn) || s.nameUsed(fn) {
		return nil
	}
	if s.Dialect != db.Spanner && ref != t && r.P(1, 3) {
		for _, x := range ref.Idx {
			if u := ref.Col(x.Parts[0].Col); x.Unique && len(x.Parts) == 1 && !x.Parts[0].Desc && u != nil && !strings.HasPrefix(u.Type, "enum") && !strings.HasPrefix(u.Type, "timestamp") {
				pk = u
			}
		}
	}
	c := &Col{Name: cn, Type: pk.Type, Charset: pk.Charset, Collate: pk.Collate, NotNull: r.P(1, 2)}
	t.Cols = append(t.Cols, c)
	f := &FK{Name: fn, Cols: []string{cn}, Ref: ref.Name, RefCols: []string{pk.Name}}
	if s.Dialect != db.Spanner || !dom.File {
		f.OnDelete = r.Pick("", "", "CASCADE")
	}
	if s.Dialect == db.MySQL {
		f.OnUpdate = r.Pick("", "", "CASCADE")
		x := &Idx{Name: "idx_" + fn, Parts: []Part{{Col: cn}}}
		t.Idx = append(t.Idx, x)
	}
	t.FKs = append(t.FKs, f)
	return f
}

// Big makes the schemas of the domain larger.
func (m Dom) Big() Dom {
	m.MaxTables, m.MaxCols = 14, 12
	return m
}

// Chain makes n tables each of which refers to the next one, the last of them first in the result if forward is false.
func Chain(r *Rand, d string, dom Dom, n int, forward bool) *Schema {
	s := &Schema{Dialect: d}
	d0 := dom
	d0.FKs = false
	for i := 0; i < n*3 && len(s.Tables) < n; i++ {
		t := RandTable(r, s, d0)
		if t == nil {
			continue
		}
		s.Tables = append(s.Tables, t)
		if len(s.Tables) > 1 {
			one := &Schema{Dialect: d, Tables: []*Table{s.Tables[len(s.Tables)-2], t}}
			for try := 0; try < 20 && t.addFK(r, one, dom) == nil; try++ {
			}
		}
	}
	if forward {
		for i, j := 0, len(s.Tables)-1; i < j; i, j = i+1, j-1 {
			s.Tables[i], s.Tables[j] = s.Tables[j], s.Tables[i]
		}
	}
	return s
}

// RandSchema makes a schema.
func RandSchema(r *Rand, d string, dom Dom) *Schema {
	s := &Schema{Dialect: d}
	for i := 1 + r.N(dom.MaxTables); i > 0; i-- {
		if t := RandTable(r, s, dom); t != nil {
			s.Tables = append(s.Tables, t)
		}
	}
	if dom.Forward && r.P(1, 2) {
		Shuffle(r, s)
	}
	if d != db.CRDB && r.P(1, 8) { // CockroachDB's SHOW CREATE ALL TABLES has the views, too, which ddlctl rejects
		s.Views = [][]string{{"a_view"}, {"zz_view"}, {"a_view", "m_view"}}[r.N(3)]
	}
	return s
}

// Edits names the kinds of change EditSchema may make.
type Edits struct {
	AddTable, DropTable, AddCol, DropCol, ModType, ModNull, ModDefault, AddIdx, DropIdx, ModIdx, AddFK, DropFK, ModFK, AddCheck, DropCheck, ModPK, ModOpt, ModComment, ModInter, ReorderCols, DropOpt bool
}

// AllEdits for a dialect's core.
func AllEdits(d string) Edits {
	e := Edits{AddTable: true, DropTable: true, AddCol: true, DropCol: true, ModType: true, ModNull: true, ModDefault: true, AddIdx: true, DropIdx: true, ModIdx: true, AddCheck: true, DropCheck: true, AddFK: true, DropFK: true}
	switch d {
	case db.MySQL:
		e.ModComment, e.ModPK, e.ModFK, e.ModOpt = true, true, true, true
	case db.Spanner:
		e.ModOpt, e.DropOpt = true, true
	case db.Postgres:
		e.ModPK = true
	}
	return e
}

// PlanEdits are those of plans between two schemas: also the ones that cost data.
func PlanEdits(d string) Edits {
	e := AllEdits(d)
	e.ModFK = true
	if d == db.Spanner {
		e.ModPK, e.ModInter = true, true // the table is dropped and created again
	}
	return e
}

// LiveEdits are the changes that can be carried out: without the dropped and changed MySQL indexes, for which ddlctl
// writes a DROP INDEX without the table (a known finding).
func LiveEdits(d string) Edits {
	e := AllEdits(d)
	if d == db.MySQL {
		e.DropIdx, e.ModIdx = false, false
	}
	if d == db.Spanner {
		e.DropOpt = false // written as DROP OPTIONS, which Spanner does not know (a known finding)
	}
	return e
}

func (s *Schema) referenced(t *Table) bool {
	for _, x := range s.Tables {
		if x.Parent == t.Name {
			return true
		}
		for _, f := range x.FKs {
			if f.Ref == t.Name && x != t {
				return true
			}
		}
	}
	return false
}

func (t *Table) selfReferring() bool {
	for _, f := range t.FKs {
		if f.Ref == t.Name {
			return true
		}
	}
	return false
}

// unrefer drops the foreign keys of other tables that refer to a table.
func (s *Schema) unrefer(t *Table) {
	for _, x := range s.Tables {
		if x == t {
			continue
		}
		var fs []*FK
		for _, f := range x.FKs {
			if f.Ref != t.Name {
				fs = append(fs, f)
			}
		}
		x.FKs = fs
	}
}

func (s *Schema) colUsed(t *Table, n string) bool {
	if t.pkHas(n) || t.RowDel == n {
		return true
	}
	for _, x := range t.Idx {
		for _, p := range x.Parts {
			if p.Col == n {
				return true
			}
		}
	}
	for _, f := range t.FKs {
		for _, c := range f.Cols {
			if c == n {
				return true
			}
		}
	}
	for _, k := range t.Checks {
		if k.Col == n {
			return true
		}
	}
	for _, x := range s.Tables {
		for _, f := range x.FKs {
			if f.Ref == t.Name {
				for _, c := range f.RefCols {
					if c == n {
						return true
					}
				}
			}
		}
	}
	return false
}

// widen lists type changes every dialect's engine accepts on existing data.
func widen(r *Rand, d, typ string) string {
	var m map[string][]string
	switch d {
	case db.MySQL:
		m = map[string][]string{"int": {"bigint"}, "smallint": {"int", "bigint"}, "varchar(64)": {"varchar(255)", "text"}, "varchar(255)": {"text"}, "text": {"longtext", "mediumtext"}, "char(8)": {"varchar(64)"},
			"datetime": {"datetime(6)"}, "enum('a','b')": {"enum('a','b','c')"}, "decimal(10,0)": {"decimal(12,2)", "decimal(12,0)"}, "char(1)": {"char(8)", "varchar(64)"}, "decimal(10,2)": {"decimal(12,2)"}, "bigint": {"decimal(20,0)"}, "double": {"decimal(30,10)"}}
	case db.Postgres:
		m = map[string][]string{"integer": {"bigint"}, "smallint": {"integer", "bigint"}, "character varying(64)": {"character varying(255)", "text"}, "character varying(255)": {"text"}, "real": {"double precision"}, "integer ": {"numeric"}, "bigint": {"numeric"}}
	case db.CRDB:
		m = map[string][]string{"INT4": {"INT8"}, "INT2": {"INT4", "INT8"}, "VARCHAR(64)": {"VARCHAR(255)", "STRING"}, "VARCHAR(255)": {"STRING"}, "FLOAT4": {"FLOAT8"}}
	default:
		m = map[string][]string{"STRING(64)": {"STRING(MAX)", "STRING(128)"}, "STRING(MAX)": {"STRING(64)"}}
	}
	x := m[typ]
	if len(x) == 0 {
		return ""
	}
	return x[r.N(len(x))]
}

// EditSchema returns a changed copy and the names of the changes.
func EditSchema(r *Rand, s *Schema, dom Dom, e Edits, n int) (*Schema, []string) {
	c := s.Clone()
	var done []string
	for i := 0; i < n; i++ {
		for try := 0; try < 20; try++ {
			if k := edit1(r, c, dom, e); k != "" {
				done = append(done, k)
				break
			}
		}
	}
	if s.Dialect == db.MySQL && (e.DropIdx || e.ModIdx) {
		s.keepKeyTypes(c)
	}
	return c, done
}

// keepKeyTypes takes back from c the change of a column in a key of s to a type no key may have: it would have to come
// after the change of the key, for which ddlctl writes a DROP INDEX without the table anyway (a known finding).
func (s *Schema) keepKeyTypes(c *Schema) {
	for _, t := range s.Tables {
		u := c.Table(t.Name)
		if u == nil {
			continue
		}
		for _, x := range t.Cols {
			if y := u.Col(x.Name); y != nil && y.Type == "text" && s.colUsed(t, x.Name) {
				*y = *x
			}
		}
	}
}

func edit1(r *Rand, s *Schema, dom Dom, e Edits) string {
	d := s.Dialect
	var t *Table
	if len(s.Tables) > 0 {
		t = s.Tables[r.N(len(s.Tables))]
	}
	k := r.N(20)
	if t == nil && k != 0 {
		return ""
	}
	switch k {
	case 0:
		if e.AddTable {
			if n := RandTable(r, s, dom); n != nil {
				s.Tables = append(s.Tables, n)
				return "add table"
			}
		}
	case 1:
		if e.DropTable && e.DropFK && len(s.Tables) > 1 && r.P(1, 3) { // with the foreign keys that refer to it
			s.unrefer(t)
		}
		if e.DropTable && len(s.Tables) > 1 && !s.referenced(t) {
			for i, x := range s.Tables {
				if x == t {
					s.Gone = append(s.Gone, t.Name)
					s.Tables = append(s.Tables[:i], s.Tables[i+1:]...)
					return "drop table"
				}
			}
		}
	case 2, 3, 16:
		if e.AddCol {
			if c := t.addCol(r, d, dom); c != nil {
				if d == db.Spanner && c.NotNull && c.Default == "" {
					c.NotNull = false
				}
				if r.P(1, 3) && len(t.Cols) > 2 { // anywhere in the table
					j := 1 + r.N(len(t.Cols)-1)
					x := t.Cols[len(t.Cols)-1]
					copy(t.Cols[j+1:], t.Cols[j:])
					t.Cols[j] = x
				}
				return "add column"
			}
		}
	case 4:
		if e.DropCol && len(t.Cols) > 1 {
			j := r.N(len(t.Cols))
			if !s.colUsed(t, t.Cols[j].Name) {
				t.Gone = append(t.Gone, t.Cols[j].Name)
				t.Cols = append(t.Cols[:j], t.Cols[j+1:]...)
				return "drop column"
			}
		}
	case 5, 17:
		if e.ModType {
			c := t.Cols[r.N(len(t.Cols))]
			if s.colUsed(t, c.Name) || (d == db.Spanner || d == db.CRDB) && c.Default != "" {
				return ""
			}
			if w := widen(r, d, c.Type); w != "" {
				c.Type = w
				if c.Default != "" {
					c.Default = randDefault(r, d, w, c.NotNull, dom)
				}
				if c.Default == "" || !strings.HasPrefix(c.Default, "CURRENT") {
					c.OnUpdate = ""
				}
				if d == db.MySQL && !strings.HasPrefix(w, "varchar") && w != "text" {
					c.Charset, c.Collate = "", ""
				}
				return "change type"
			}
		}
	case 6, 18:
		if e.ModNull {
			c := t.Cols[r.N(len(t.Cols))]
			if !t.pkHas(c.Name) && !c.AutoInc && !(d == db.Spanner && (c.Default != "" || s.colUsed(t, c.Name))) {
				c.NotNull = !c.NotNull
				return "change nullability"
			}
		}
	case 7, 19:
		if e.ModDefault {
			c := t.Cols[r.N(len(t.Cols))]
			if c.AutoInc || c.Options != "" {
				return ""
			}
			v := ""
			if c.Default == "" || r.P(1, 2) {
				v = randDefault(r, d, c.Type, c.NotNull, dom)
			}
			if v != c.Default && !(d == db.MySQL && c.OnUpdate != "") {
				c.Default = v
				return "change default"
			}
		}
	case 8, 9:
		if e.AddIdx && dom.Indexes && t.addIdx(r, s, dom) != nil {
			return "add index"
		}
	case 10:
		if e.DropIdx && len(t.Idx) > 0 {
			j := r.N(len(t.Idx))
			if t.Idx[j].ofFK() || s.idxReferenced(t, t.Idx[j]) {
				return ""
			}
			t.Idx = append(t.Idx[:j], t.Idx[j+1:]...)
			return "drop index"
		}
	case 11:
		if e.ModIdx && len(t.Idx) > 0 {
			x := t.Idx[r.N(len(t.Idx))]
			ks := t.keyCols(d)
			if x.ofFK() || s.idxReferenced(t, x) || len(ks) == 0 {
				return ""
			}
			switch n := len(x.Parts); {
			case n > 1 && r.P(1, 3):
				x.Parts[0], x.Parts[n-1] = x.Parts[n-1], x.Parts[0]
				return "reorder index"
			case n > 1 && r.P(1, 3):
				x.Parts = x.Parts[:n-1]
				return "shorten index"
			case !x.Con && r.P(1, 4):
				x.Unique = !x.Unique
				return "change index uniqueness"
			case !x.Con && dom.Desc && r.P(1, 4):
				x.Parts[n-1].Desc = !x.Parts[n-1].Desc
				return "change index direction"
			}
			k := ks[r.N(len(ks))]
			for _, p := range x.Parts {
				if p.Col == k {
					return ""
				}
			}
			x.Parts = append(x.Parts, Part{Col: k})
			return "change index"
		}
	case 12:
		if e.AddFK && dom.FKs && t.addFK(r, s, dom) != nil {
			return "add foreign key"
		}
		if e.AddCheck && dom.Checks && t.addCheck(r, d) != nil {
			return "add check"
		}
	case 13:
		if e.DropFK && len(t.FKs) > 0 && r.P(1, 2) {
			t.FKs = t.FKs[:len(t.FKs)-1]
			return "drop foreign key"
		}
		if e.DropCheck && len(t.Checks) > 0 && r.P(1, 2) {
			k := t.Checks[r.N(len(t.Checks))]
			x := strings.NewReplacer(">=", "<", "<>", ">=", "<", ">", ">", "<>").Replace(k.Expr)
			k.Expr = x
			return "change check"
		}
		if e.DropCheck && len(t.Checks) > 0 {
			t.Checks = t.Checks[:len(t.Checks)-1]
			return "drop check"
		}
	case 14:
		if e.ModPK && len(t.PK) > 0 {
			ks := t.keyCols(d)
			if s.referenced(t) || t.selfReferring() || len(ks) == 0 {
				return ""
			}
			for _, c := range t.Cols {
				if c.AutoInc {
					return "" // its column would be without a key in between
				}
			}
			if n := len(t.PK); n > 1 && r.P(1, 2) {
				if r.P(1, 2) {
					t.PK = t.PK[:n-1]
				} else {
					t.PK[0], t.PK[n-1] = t.PK[n-1], t.PK[0]
				}
				return "change primary key"
			}
			k := ks[r.N(len(ks))]
			if t.pkHas(k) {
				return ""
			}
			t.PK = append(t.PK, Part{Col: k})
			t.Col(k).NotNull = true
			return "change primary key"
		}
	case 15:
		if e.ModFK && len(t.FKs) > 0 && r.P(1, 2) {
			f := t.FKs[r.N(len(t.FKs))]
			if f.OnDelete == "" {
				f.OnDelete = "CASCADE"
			} else {
				f.OnDelete = ""
			}
			return "change foreign key"
		}
		switch d {
		case db.MySQL:
			if e.ModComment && r.P(1, 3) && len(t.Opts) > 0 {
				l := "COMMENT=" + literal(r, d, dom, 0)
				switch last := t.Opts[len(t.Opts)-1]; {
				case last == l || l == "COMMENT=''":
					return ""
				case strings.HasPrefix(last, "COMMENT="):
					t.Opts = append([]string{}, t.Opts[:len(t.Opts)-1]...)
					if r.P(2, 3) {
						t.Opts = append(t.Opts, l)
					}
				default:
					t.Opts = append(append([]string{}, t.Opts...), l)
				}
				return "change table comment"
			}
			if e.ModComment && r.P(1, 2) {
				c := t.Cols[r.N(len(t.Cols))]
				l := literal(r, d, dom, 0)
				if c.Comment == l[1:len(l)-1] {
					return ""
				}
				c.Comment = l[1 : len(l)-1]
				return "change comment"
			}
		case db.Spanner:
			if e.ModInter && r.P(1, 2) {
				switch {
				case t.RowDel != "" && r.P(1, 2):
					t.RowDel = ""
					return "drop row deletion policy"
				case t.RowDel != "":
					t.Days++
					return "change row deletion policy"
				}
				for _, c := range t.Cols {
					if c.Type == "TIMESTAMP" && !t.pkHas(c.Name) {
						t.RowDel, t.Days = c.Name, 1+r.N(90)
						return "add row deletion policy"
					}
				}
			}
			if e.ModOpt {
				for _, c := range t.Cols {
					if c.Type == "TIMESTAMP" && c.Default == "" && r.P(1, 2) {
						if c.Options != "" && !e.DropOpt {
							continue
						}
						if c.Options == "" {
							c.Options = "allow_commit_timestamp = TRUE"
						} else {
							c.Options = ""
						}
						return "change column options"
					}
				}
			}
		}
	}
	return ""
}

// DumpDom is what a live database may hold when it is dumped: more than ddlctl's own parsers read back.
func DumpDom(d string) Dom {
	m := Core(d)
	m.MaxTables = 6
	switch d {
	case db.MySQL:
		m.Strings, m.OddNames, m.Desc, m.SelfFK = true, true, true, true
	case db.Spanner:
		m.Inter, m.OddNames = true, true
	case db.Postgres:
		m.Strings, m.Desc, m.OddNames = true, true, true
	case db.CRDB:
		m.Strings, m.Desc, m.OddNames = true, true, true
	}
	return m
}

// Spelled keeps to the dump's spelling of literals.
func (m Dom) Spelled() Dom {
	m.Canon = true
	return m
}

// Rich is what a live database holds and ddlctl reads back, beyond the core.
func Rich(d string, m Dom) Dom {
	m.Strings, m.OddNames, m.File = true, true, true
	switch d {
	case db.MySQL:
		m.SelfFK, m.Desc = true, true
	case db.Spanner:
		m.Inter, m.Desc = true, true
	}
	return m
}

// FileDom is what a schema file may hold, where both sides are files.
func FileDom(d string) Dom {
	m := Core(d)
	m.FKs = true
	switch d {
	case db.Spanner:
		m.Inter = true
	}
	m.Strings, m.OddNames, m.SelfFK, m.File, m.Forward = true, true, true, true, true
	m.Checks = true
	m.Desc = d == db.Spanner || d == db.MySQL // the PostgreSQL and CockroachDB readers reject it
	return m
}

// GoDom is what annotated Go source can express.
func GoDom(d string) Dom {
	m := Core(d)
	m.Desc, m.PKDesc = d != db.Spanner, false
	if d == db.Spanner {
		m.Desc = true
	}
	m.OddNames = d == db.MySQL
	return m
}

// OrderEdits are the MySQL changes whose repetition is harmless: new tables, new and modified columns.
func OrderEdits() Edits {
	return Edits{AddTable: true, AddCol: true, ModType: true, ModNull: true, ModDefault: true, ModComment: true}
}

// Shuffle writes the tables in any order.
func Shuffle(r *Rand, s *Schema) {
	for i := len(s.Tables) - 1; i > 0; i-- {
		j := r.N(i + 1)
		s.Tables[i], s.Tables[j] = s.Tables[j], s.Tables[i]
	}
}
