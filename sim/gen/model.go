// Package gen generates schemas, edits them, and writes them as SQL or as annotated Go source.
package gen

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"verifsim/db"
)

// Rand is a small seeded generator.
type Rand struct{ s uint64 }

// NewRand seeds one.
func NewRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }

// U64 returns the next number.
func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// N returns a number below n.
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

// Pick returns one of the strings.
func (r *Rand) Pick(xs ...string) string { return xs[r.N(len(xs))] }

// Part of a key.
type Part struct {
	Col  string `json:"col"`
	Desc bool   `json:"desc,omitempty"`
}

// Col is a column.
type Col struct {
	Name     string `json:"name"`
	Type     string `json:"type"`
	NotNull  bool   `json:"not_null,omitempty"`
	Default  string `json:"default,omitempty"` // expression text
	AutoInc  bool   `json:"auto_inc,omitempty"`
	OnUpdate string `json:"on_update,omitempty"`
	Charset  string `json:"charset,omitempty"`
	Collate  string `json:"collate,omitempty"`
	Comment  string `json:"comment,omitempty"` // raw text of the string literal, without quotes
	Options  string `json:"options,omitempty"`

	bare bool // neither NOT NULL nor NULL is written
}

// FK is a foreign key.
type FK struct {
	Name     string   `json:"name"`
	Cols     []string `json:"cols"`
	Ref      string   `json:"ref"`
	RefCols  []string `json:"ref_cols"`
	OnDelete string   `json:"on_delete,omitempty"`
	OnUpdate string   `json:"on_update,omitempty"`
}

// Check constraint.
type Check struct {
	Name string `json:"name"`
	Expr string `json:"expr"`
	Col  string `json:"col,omitempty"`
}

// Idx is an index or a unique constraint.
type Idx struct {
	Name   string `json:"name"`
	Unique bool   `json:"unique,omitempty"`
	Con    bool   `json:"con,omitempty"` // a UNIQUE constraint (PostgreSQL)
	Parts  []Part `json:"parts"`
}

// Table is a table.
type Table struct {
	Name   string   `json:"name"` // as written, without quotes
	Cols   []*Col   `json:"cols"`
	PK     []Part   `json:"pk,omitempty"`
	Idx    []*Idx   `json:"idx,omitempty"`
	FKs    []*FK    `json:"fks,omitempty"`
	Checks []*Check `json:"checks,omitempty"`
	Opts   []string `json:"opts,omitempty"`
	Parent string   `json:"parent,omitempty"`
	ParDel string   `json:"par_del,omitempty"`
	RowDel string   `json:"row_del,omitempty"` // column; days in RowDays
	Days   int      `json:"days,omitempty"`
	Gone   []string `json:"gone,omitempty"` // names of dropped columns, not used again
}

// Schema is a set of tables in the order they are written.
type Schema struct {
	Dialect string   `json:"dialect"`
	Tables  []*Table `json:"tables"`
	Gone    []string `json:"gone,omitempty"`  // names of dropped tables, not used again
	Raw     string   `json:"raw,omitempty"`   // written by hand: the SQL text instead of the tables
	Views   []string `json:"views,omitempty"` // views in the database, which are no tables and stay as they are
}

// Clone copies deeply.
func (s *Schema) Clone() *Schema {
	b, _ := json.Marshal(s)
	n := &Schema{}
	_ = json.Unmarshal(b, n)
	return n
}

// Table finds a table.
func (s *Schema) Table(name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

// Col finds a column.
func (t *Table) Col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Table) hasName(n string) bool {
	for _, x := range t.Idx {
		if x.Name == n {
			return true
		}
	}
	for _, x := range t.FKs {
		if x.Name == n {
			return true
		}
	}
	for _, x := range t.Checks {
		if x.Name == n {
			return true
		}
	}
	return false
}

// Style decides the spelling of a rendering.
type Style struct {
	Comments bool `json:"comments,omitempty"` // comment lines between and inside the statements
	Compact  bool `json:"compact,omitempty"`  // one line per statement
	Quote    bool `json:"quote,omitempty"`    // quoted column names where the dialect's plain spelling has none
	IfNot    bool `json:"if_not,omitempty"`   // CREATE TABLE IF NOT EXISTS
	Reverse  bool `json:"reverse,omitempty"`  // tables in reverse order
	CRLF     bool `json:"crlf,omitempty"`
	NoEnd    bool `json:"no_end,omitempty"` // no newline after the last statement

	Unqual  bool `json:"unqual,omitempty"`   // names without the schema public (PostgreSQL, CockroachDB)
	NoNN    bool `json:"no_nn,omitempty"`    // key columns without NOT NULL, which the primary key implies
	ColPK   bool `json:"col_pk,omitempty"`   // a primary key of one column is written with the column
	ColCons bool `json:"col_cons,omitempty"` // constraints of one column are written with it where that gives them their name
	ColChk  bool `json:"col_chk,omitempty"`  // CHECK constraints likewise (PostgreSQL and CockroachDB files have no others)

	Case   string `json:"case,omitempty"`    // "lower" or "upper": everything outside quotes in that letter case
	Alias  bool   `json:"alias,omitempty"`   // synonyms of data types
	NoCast bool   `json:"no_cast,omitempty"` // defaults without the cast or annotation the database adds
	SepIdx bool   `json:"sep_idx,omitempty"` // CREATE INDEX instead of indexes within the table (MySQL, CockroachDB)
	NoName bool   `json:"no_name,omitempty"` // constraints without a name where ddlctl makes the same one
	NoAct  bool   `json:"no_act,omitempty"`  // ON UPDATE before ON DELETE, and NO ACTION where there is no action
	NoNull bool   `json:"no_null,omitempty"` // nullable columns without NULL or DEFAULT NULL
}

type writer struct {
	d  string
	st Style
}

func (w writer) q(n string) string {
	if w.st.Unqual && (w.d == db.Postgres || w.d == db.CRDB) {
		n = strings.TrimPrefix(n, "public.")
	}
	switch w.d {
	case db.MySQL:
		return "`" + n + "`"
	case db.Postgres, db.CRDB:
		if w.st.Quote && !strings.Contains(n, ".") {
			return `"` + n + `"`
		}
	case db.Spanner:
		if w.st.Quote {
			return "`" + n + "`"
		}
	}
	return db.QuoteName(w.d, n)
}

func (w writer) parts(ps []Part) string {
	var s []string
	for _, p := range ps {
		x := w.q(p.Col)
		switch {
		case p.Desc:
			x += " DESC"
		case w.d == db.CRDB:
			x += " ASC"
		}
		s = append(s, x)
	}
	return "(" + strings.Join(s, w.listSep()) + ")"
}

func (w writer) listSep() string {
	if w.d == db.MySQL {
		return ","
	}
	return ", "
}

func (w writer) names(ns []string) string {
	var s []string
	for _, n := range ns {
		s = append(s, w.q(n))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// colDecl is the type and attributes of a column.
func (w writer) colDecl(c *Col) string {
	s := w.typ(c.Type)
	if w.st.NoCast && (w.d == db.Postgres || w.d == db.CRDB) && strings.Contains(c.Default, "::") {
		x := *c
		x.Default = reCast.ReplaceAllString(c.Default, "")
		c = &x
	}
	if w.st.NoNull && !c.NotNull && !strings.HasPrefix(c.Type, "timestamp") {
		x := *c
		x.bare = true
		c = &x
	}
	switch w.d {
	case db.MySQL:
		if c.Charset != "" {
			s += " CHARACTER SET " + c.Charset
		}
		if c.Collate != "" {
			s += " COLLATE " + c.Collate
		}
		if c.bare {
		} else if c.NotNull {
			s += " NOT NULL"
		} else if strings.HasPrefix(c.Type, "timestamp") {
			s += " NULL"
		}
		if c.AutoInc {
			s += " AUTO_INCREMENT"
		}
		if c.Default != "" {
			s += " DEFAULT " + c.Default
		} else if !c.NotNull && !c.bare && !noDefaultNull(c.Type) {
			s += " DEFAULT NULL"
		}
		if c.OnUpdate != "" {
			s += " ON UPDATE " + c.OnUpdate
		}
		if c.Comment != "" {
			s += " COMMENT '" + c.Comment + "'"
		}
	case db.Spanner:
		if c.NotNull {
			s += " NOT NULL"
		}
		if c.Default != "" {
			s += " DEFAULT (" + c.Default + ")"
		}
		if c.Options != "" {
			s += " OPTIONS (" + c.Options + ")"
		}
	case db.CRDB:
		if c.bare {
		} else if c.NotNull {
			s += " NOT NULL"
		} else {
			s += " NULL"
		}
		if c.Default != "" {
			s += " DEFAULT " + c.Default
		}
	default:
		if c.Default != "" {
			s += " DEFAULT " + c.Default
		}
		if c.NotNull && !c.bare {
			s += " NOT NULL"
		}
	}
	return s
}

var reCast = regexp.MustCompile(`:::?[A-Za-z ]+$`)

var aliases = map[string]map[string]string{
	db.MySQL:    {"int": "INTEGER", "bigint": "BIGINT", "tinyint(1)": "BOOLEAN", "decimal(10,2)": "NUMERIC(10, 2)", "double": "DOUBLE PRECISION", "varchar(64)": "VARCHAR(64)", "json": "JSON", "datetime(6)": "DATETIME(6)", "enum('a','b')": "ENUM('a', 'b')", "decimal(10,0)": "NUMERIC(10)", "char(1)": "CHAR", "bit(1)": "BIT"},
	db.Postgres: {"integer": "int", "numeric(10,2)": "decimal(10, 2)", "numeric(8,0)": "numeric(8)", "numeric": "DECIMAL", "character varying(64)": "varchar(64)", "character varying(255)": "VARCHAR(255)", "timestamp with time zone": "timestamptz", "bigint": "BIGINT"},
	db.CRDB:     {"DECIMAL(10,2)": "NUMERIC(10, 2)", "INT8": "BIGINT", "STRING": "TEXT", "TIMESTAMPTZ": "TIMESTAMP WITH TIME ZONE", "INT2": "SMALLINT", "FLOAT8": "DOUBLE PRECISION", "FLOAT4": "REAL", "BOOL": "BOOLEAN"},
	db.Spanner:  {"STRING(MAX)": "STRING(max)", "INT64": "int64"},
}

func (w writer) typ(t string) string {
	if a := aliases[w.d][t]; w.st.Alias && a != "" {
		return a
	}
	return t
}

func noDefaultNull(typ string) bool {
	t := strings.ToLower(typ)
	return strings.HasSuffix(t, "text") || strings.HasSuffix(t, "blob") || t == "json"
}

func pgBase(name string) string {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		return name[i+1:]
	}
	return name
}

// PKName is the name of the primary key constraint.
func PKName(t *Table) string { return pgBase(t.Name) + "_pkey" }

func (w writer) fk(t *Table, f *FK) string {
	s := fmt.Sprintf("CONSTRAINT %s FOREIGN KEY %s REFERENCES %s %s", w.q(f.Name), w.names(f.Cols), w.q(f.Ref), w.names(f.RefCols))
	if w.st.NoName && colFK(w.d, t, f) {
		s = strings.TrimPrefix(s, "CONSTRAINT "+w.q(f.Name)+" ")
	}
	return s + w.actions(f)
}

func (w writer) actions(f *FK) string {
	s := ""
	if f.OnDelete != "" {
		s += " ON DELETE " + f.OnDelete
	} else if w.st.NoAct {
		s += " ON DELETE NO ACTION"
	}
	switch {
	case f.OnUpdate != "" && w.st.NoAct:
		s = " ON UPDATE " + f.OnUpdate + s
	case f.OnUpdate != "":
		s += " ON UPDATE " + f.OnUpdate
	case w.st.NoAct && w.d == db.MySQL:
		s += " ON UPDATE NO ACTION"
	}
	return s
}

// inline lists the constraints and inline keys of a table, without the primary key.
func (w writer) inline(t *Table) []string {
	var ls []string
	for _, x := range t.Idx {
		if w.st.ColCons && colUnique(w.d, t, x) || w.sepIdx(x) {
			continue
		}
		switch w.d {
		case db.MySQL:
			k := "KEY "
			if x.Unique {
				k = "UNIQUE KEY "
			}
			ls = append(ls, k+w.q(x.Name)+" "+w.parts(x.Parts))
		case db.CRDB:
			k := "INDEX "
			if x.Unique {
				k = "UNIQUE INDEX "
			}
			ls = append(ls, k+w.q(x.Name)+" "+w.parts(x.Parts))
		case db.Postgres:
			if x.Con {
				l := "CONSTRAINT " + w.q(x.Name) + " "
				if w.st.NoName && colUnique(w.d, t, x) {
					l = ""
				}
				ls = append(ls, l+"UNIQUE "+w.parts(x.Parts))
			}
		}
	}
	for _, f := range t.FKs {
		if w.st.ColCons && colFK(w.d, t, f) {
			continue
		}
		ls = append(ls, w.fk(t, f))
	}
	for _, c := range t.Checks {
		if w.st.ColChk && colCheck(t, c) {
			continue
		}
		ls = append(ls, "CONSTRAINT "+w.q(c.Name)+" CHECK ("+c.Expr+")")
	}
	return ls
}

// colUnique, colFK and colCheck: written with the column, the constraint gets the name it has.
func colUnique(d string, t *Table, x *Idx) bool {
	return d != db.Spanner && x.Unique && len(x.Parts) == 1 && !x.Parts[0].Desc && x.Name == pgBase(t.Name)+"_unique_"+x.Parts[0].Col
}

func colFK(d string, t *Table, f *FK) bool {
	return len(f.Cols) == 1 && f.Name == pgBase(t.Name)+"_"+f.Cols[0]+"_fkey" && (d != db.Spanner || f.OnDelete == "")
}

func colCheck(t *Table, k *Check) bool {
	return k.Name == pgBase(t.Name)+"_"+k.Col+"_check"
}

// colCons lists the constraints that are written with their column.
func (w writer) colCons(t *Table, c *Col) string {
	s := ""
	if w.st.ColPK && w.colPK(t) && t.PK[0].Col == c.Name {
		s += " PRIMARY KEY"
	}
	if w.st.ColCons {
		for _, x := range t.Idx {
			if colUnique(w.d, t, x) && x.Parts[0].Col == c.Name {
				s += " UNIQUE"
			}
		}
		for _, f := range t.FKs {
			if colFK(w.d, t, f) && f.Cols[0] == c.Name {
				s += " REFERENCES " + w.q(f.Ref) + " " + w.names(f.RefCols)
				s += w.actions(f)
			}
		}
	}
	if w.st.ColChk {
		for _, k := range t.Checks {
			if colCheck(t, k) && k.Col == c.Name {
				s += " CHECK (" + k.Expr + ")"
			}
		}
	}
	return s
}

func (w writer) colPK(t *Table) bool {
	return w.d != db.Spanner && len(t.PK) == 1 && !t.PK[0].Desc && plain(pgBase(t.Name))
}

func (w writer) pk(t *Table) string {
	if w.st.ColPK && w.colPK(t) {
		return ""
	}
	switch w.d {
	case db.MySQL:
		return "PRIMARY KEY " + w.parts(t.PK)
	case db.Spanner:
		return ""
	}
	if w.st.NoName && plain(pgBase(t.Name)) {
		return "PRIMARY KEY " + w.parts(t.PK)
	}
	return "CONSTRAINT " + w.q(PKName(t)) + " PRIMARY KEY " + w.parts(t.PK)
}

// sepIdx: the index is written as CREATE INDEX although the database shows it within the table.
func (w writer) sepIdx(x *Idx) bool {
	return w.st.SepIdx && (w.d == db.CRDB || w.d == db.MySQL) && !x.ofFK()
}

// tail is what follows the closing parenthesis.
func (w writer) tail(t *Table) []string {
	switch w.d {
	case db.MySQL:
		return t.Opts
	case db.Spanner:
		var s []string
		if t.Parent != "" {
			x := "INTERLEAVE IN PARENT " + w.q(t.Parent)
			if t.ParDel != "" {
				x += " ON DELETE " + t.ParDel
			}
			s = append(s, x)
		}
		if t.RowDel != "" {
			s = append(s, fmt.Sprintf("ROW DELETION POLICY (OLDER_THAN(%s, INTERVAL %d DAY))", t.RowDel, t.Days))
		}
		return s
	}
	return nil
}

// indexStmts lists the separate CREATE INDEX statements.
func (w writer) indexStmts(t *Table) []string {
	var ss []string
	for _, x := range t.Idx {
		u := ""
		if x.Unique {
			u = "UNIQUE "
		}
		switch w.d {
		case db.Postgres:
			if !x.Con {
				ss = append(ss, fmt.Sprintf("CREATE %sINDEX %s ON %s USING btree %s", u, w.q(x.Name), w.q(t.Name), w.parts(x.Parts)))
			}
		case db.Spanner:
			ss = append(ss, fmt.Sprintf("CREATE %sINDEX %s ON %s %s", u, w.q(x.Name), w.q(t.Name), w.parts(x.Parts)))
		default:
			if w.sepIdx(x) && !(w.st.ColCons && colUnique(w.d, t, x)) {
				ss = append(ss, fmt.Sprintf("CREATE %sINDEX %s ON %s %s", u, w.q(x.Name), w.q(t.Name), w.parts(x.Parts)))
			}
		}
	}
	return ss
}

// Create writes the CREATE TABLE statement.
func (w writer) create(t *Table) string {
	var ls []string
	for _, c := range t.Cols {
		x := *c
		x.bare = w.st.NoNN && w.d != db.Spanner && t.pkHas(c.Name)
		x.Comment = ""
		l := w.q(c.Name) + " " + w.colDecl(&x) + w.colCons(t, c)
		if c.Comment != "" && w.d == db.MySQL {
			l += " COMMENT '" + c.Comment + "'"
		}
		ls = append(ls, l)
	}
	if p := w.pk(t); p != "" && len(t.PK) > 0 {
		ls = append(ls, p)
	}
	ls = append(ls, w.inline(t)...)
	nl, ind := "\n", "    "
	if w.st.Compact {
		nl, ind = " ", ""
	}
	ex := ""
	if w.st.IfNot {
		ex = "IF NOT EXISTS "
	}
	name := w.q(t.Name)
	s := "CREATE TABLE " + ex + name + " (" + nl
	for i, l := range ls {
		if w.st.Comments && !w.st.Compact && i%2 == 1 {
			s += ind + "-- it's line " + fmt.Sprint(i) + "; not a statement\n"
		}
		s += ind + l
		if i < len(ls)-1 {
			s += ","
		}
		s += nl
	}
	s += ")"
	if w.d == db.Spanner {
		s += " PRIMARY KEY " + w.parts(t.PK)
	}
	tl := w.tail(t)
	switch w.d {
	case db.MySQL:
		for _, o := range tl {
			s += " " + o
		}
	case db.Spanner:
		for _, o := range tl {
			s += "," + nl + ind[:0] + o
		}
	}
	return s
}

// norm states what is implied: a primary key column is NOT NULL.
func (s *Schema) norm() {
	if s.Dialect == db.Spanner {
		return
	}
	for _, t := range s.Tables {
		for _, p := range t.PK {
			if c := t.Col(p.Col); c != nil {
				c.NotNull = true
			}
		}
	}
}

// Statements lists the statements of a schema in writing order.
func (s *Schema) Statements(st Style) []string {
	w := writer{s.Dialect, st}
	var ss []string
	s.norm()
	ts := s.Tables
	if st.Reverse {
		ts = nil
		for i := len(s.Tables) - 1; i >= 0; i-- {
			ts = append(ts, s.Tables[i])
		}
	}
	for _, t := range ts {
		ss = append(ss, w.create(t))
		ss = append(ss, w.indexStmts(t)...)
	}
	for i := range ss {
		ss[i] = w.letters(ss[i])
	}
	return ss
}

var reOutside = regexp.MustCompile("(?s)--[^\n]*|'(?:[^'\\\\]|''|\\\\.)*'|\"[^\"]*\"|`[^`]*`|[A-Za-z0-9_]+")

// letters puts what is outside quotes and comments into the wanted letter case. Spanner's names keep theirs.
func (w writer) letters(s string) string {
	f := strings.ToLower
	switch {
	case w.st.Case == "":
		return s
	case w.st.Case == "upper":
		f = strings.ToUpper
	}
	re := reOutside
	if w.d == db.Postgres || w.d == db.CRDB {
		re = reOutsidePG
	}
	return re.ReplaceAllStringFunc(s, func(m string) string {
		if strings.ContainsAny(m[:1], "-'\"`") || w.d == db.Spanner && m != strings.ToUpper(m) {
			return m
		}
		return f(m)
	})
}

var reOutsidePG = regexp.MustCompile("(?s)--[^\n]*|'(?:[^']|'')*'|\"[^\"]*\"|[A-Za-z0-9_]+")

// SQL writes a schema file.
func (s *Schema) SQL(st Style) string {
	if s.Raw != "" {
		return s.Raw
	}
	var b strings.Builder
	if st.Comments {
		b.WriteString("-- schema of the service; don't edit\n--\n\n")
	}
	for i, x := range s.Statements(st) {
		if st.Comments {
			fmt.Fprintf(&b, "-- statement %d: `it''s` \"here\";\n", i)
		}
		b.WriteString(x)
		b.WriteString(";\n")
		if !st.Compact {
			b.WriteString("\n")
		}
	}
	out := b.String()
	if st.NoEnd {
		out = strings.TrimRight(out, "\n")
	}
	if st.CRLF {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return out
}

// Catalog is the schema as a database would hold it.
func (s *Schema) Catalog() (*db.Catalog, error) {
	c := db.NewCatalog(s.Dialect)
	if err := c.ExecAll(s.SQL(Style{})); err != nil {
		return nil, err
	}
	c.Views = s.Views
	return c, nil
}
