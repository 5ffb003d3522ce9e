package db

import (
	"fmt"
	"sort"
	"strings"
)

func ferr(f string, a ...any) sqlErr { return sqlErr(fmt.Sprintf(f, a...)) }

type tableDef struct {
	name        string
	ifNotExists bool
	cols        []*Column
	cons        []*Constraint
	idx         []*Index
	opts        map[string]string
	parent      string
	parDel      string
	rowDel      string
}

// ParseDDL parses one statement and returns its effect.
func ParseDDL(d, stmt string) (op func(c *Catalog), kind string, err error) {
	toks, err := Lex(d, stmt)
	if err != nil {
		return nil, "", err
	}
	p := &parser{d: d, t: toks}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case synErr:
				err = e
			case sqlErr:
				err = e
			default:
				panic(r)
			}
		}
	}()
	op, kind = p.ddl()
	p.op(";")
	if p.cur().k != tEOF {
		p.fail("end of statement")
	}
	return op, kind, nil
}

// Exec runs one DDL statement atomically on the catalog.
func (c *Catalog) Exec(stmt string) (err error) {
	op, _, err := ParseDDL(c.Dialect, stmt)
	if err != nil {
		if c.Dialect == MySQL {
			return ferr("Error 1064 (42000): You have an error in your SQL syntax; %s", err)
		}
		return ferr("%s", err)
	}
	n := c.Clone()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(sqlErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	op(n)
	c.Tables, c.NextID = n.Tables, n.NextID
	return nil
}

// ExecAll runs a script on the catalog, stopping at the first error. Foreign keys to tables defined later are accepted
// by retrying statements that fail for a missing reference: the desired schema is a set, not a sequence.
func (c *Catalog) ExecAll(script string) error {
	stmts, err := SplitStatements(c.Dialect, script)
	if err != nil {
		return err
	}
	for pending := stmts; len(pending) > 0; {
		var next []string
		var first error
		for _, s := range pending {
			if err := c.Exec(s); err != nil {
				if first == nil {
					first = fmt.Errorf("%w: %s", err, s)
				}
				next = append(next, s)
			}
		}
		if len(next) == len(pending) {
			return first
		}
		pending = next
	}
	return nil
}

func (p *parser) qname() string {
	n := p.ident("name")
	if p.op(".") {
		m := p.ident("name")
		if p.d == MySQL && n == "app" {
			return m
		}
		return n + "." + m
	}
	if p.d == Postgres || p.d == CRDB {
		return "public." + n
	}
	return n
}

func base(n string) string {
	if i := strings.Index(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (p *parser) ddl() (func(c *Catalog), string) {
	switch {
	case p.kw("create"):
		uniq := p.kw("unique")
		nf := p.d == Spanner && p.kw("null_filtered")
		switch {
		case !uniq && !nf && p.kw("table"):
			td := p.createTable()
			return func(c *Catalog) { c.createTable(td) }, "CREATE TABLE"
		case p.kw("index"):
			return p.createIndex(uniq, nf), "CREATE INDEX"
		}
		p.fail("TABLE or INDEX")
	case p.kw("drop"):
		switch {
		case p.kw("table"):
			ie := p.kw("if", "exists")
			n := p.qname()
			return func(c *Catalog) { c.dropTable(n, ie) }, "DROP TABLE"
		case p.kw("index"):
			ie := p.d != MySQL && p.kw("if", "exists")
			n := p.qname()
			tn := ""
			if p.d == MySQL {
				p.mustKw("on")
				tn = p.qname()
			}
			if p.d == CRDB && p.op("@") {
				tn = n
				n = "public." + p.ident("index name")
			}
			return func(c *Catalog) { c.dropIndex(n, tn, ie) }, "DROP INDEX"
		}
		p.fail("TABLE or INDEX")
	case p.kw("alter", "table"):
		n := p.qname()
		op := p.alterTable(n)
		return func(c *Catalog) {
			t := c.mustTable(n)
			op(c, t)
		}, "ALTER TABLE"
	}
	p.fail("CREATE, DROP or ALTER")
	return nil, ""
}

func (p *parser) keyParts() []KeyPart {
	p.mustOp("(")
	var out []KeyPart
	for {
		k := KeyPart{Col: p.colIdent("column")}
		if p.d == MySQL && p.isOp("(") {
			p.fail("column without prefix length")
		}
		if p.kw("desc") {
			k.Desc = true
		} else {
			p.kw("asc")
		}
		out = append(out, k)
		if !p.op(",") {
			break
		}
	}
	p.mustOp(")")
	return out
}

func (p *parser) colList() []string {
	var out []string
	for _, k := range p.keyParts() {
		if k.Desc {
			p.fail("column list")
		}
		out = append(out, k.Col)
	}
	return out
}

func parts(cols []string) []KeyPart {
	var out []KeyPart
	for _, c := range cols {
		out = append(out, KeyPart{Col: c})
	}
	return out
}

func (p *parser) createIndex(uniq, nf bool) func(c *Catalog) {
	ine := p.d != MySQL && p.kw("if", "not", "exists")
	name := p.ident("index name")
	p.mustKw("on")
	tn := p.qname()
	ix := &Index{Name: name, Unique: uniq, NullFilt: nf}
	using := func() {
		if p.d != Spanner && p.kw("using") {
			if p.d == CRDB && p.kw("hash") {
				ix.Using = "hash"
				return
			}
			ix.Using = strings.ToLower(p.ident("method"))
			switch ix.Using {
			case "btree":
				ix.Using = ""
			case "hash", "gin", "gist", "brin", "spgist", "inverted":
			default:
				p.fail("access method")
			}
		}
	}
	using()
	ix.Parts = p.keyParts()
	using()
	return func(c *Catalog) {
		t := c.mustTable(tn)
		c.addIndex(t, ix, ine)
	}
}

func (p *parser) onActions(k *Constraint) {
	for p.kw("on") {
		del := false
		switch {
		case p.kw("delete"):
			del = true
		case p.kw("update"):
		default:
			p.fail("DELETE or UPDATE")
		}
		a := ""
		switch {
		case p.kw("cascade"):
			a = "CASCADE"
		case p.kw("no", "action"):
		case p.kw("restrict"):
			a = "RESTRICT"
		case p.kw("set", "null"):
			a = "SET NULL"
		case p.kw("set", "default"):
			a = "SET DEFAULT"
		default:
			p.fail("referential action")
		}
		if p.d == Spanner && !del {
			p.fail("ON DELETE")
		}
		if del {
			k.OnDelete = a
		} else {
			k.OnUpdate = a
		}
	}
}

func (p *parser) references(k *Constraint) {
	k.Ref = p.qname()
	if p.isOp("(") {
		k.RefCols = p.colList()
	}
	p.onActions(k)
}

// column parses a column definition and its inline constraints.
func (p *parser) column(td *tableDef) *Column {
	c := &Column{Name: p.colIdent("column name")}
	p.columnRest(c, td, true)
	return c
}

func (p *parser) columnRest(c *Column, td *tableDef, inline bool) {
	ty, e := p.parseType()
	if e != "" {
		p.fail(e)
	}
	if strings.HasSuffix(ty, "!serial") {
		ty = strings.TrimSuffix(ty, "!serial")
		c.Serial = "serial"
		c.NotNull = true
		if p.d == MySQL {
			c.AutoInc = true
		}
	}
	c.Type = ty
	null := false
	for {
		switch {
		case p.kw("not", "null"):
			c.NotNull = true
			if null {
				panic(ferr("conflicting NULL/NOT NULL declarations for column %q", c.Name))
			}
		case p.d == CRDB && p.kw("not", "visible"):
			c.Hidden = true
		case p.d != Spanner && p.kw("null"):
			null = true
		case p.kw("default"):
			c.HasDef = true
			if p.d == Spanner {
				p.mustOp("(")
				at := p.i
				c.Def = p.expr(0)
				c.DefRaw = p.raw(at, p.i)
				p.mustOp(")")
			} else {
				// b_expr: stop before NOT NULL and other column keywords
				paren := p.isOp("(")
				c.Def = p.expr(4)
				if p.d == MySQL && !paren {
					switch c.Def.Op {
					case "id", "bin", "call", "case":
						panic(synErr{"syntax error: invalid DEFAULT"})
					}
				}
			}
		case p.d == MySQL && p.kw("auto_increment"):
			c.AutoInc = true
			c.NotNull = true
		case p.d == MySQL && p.isKw("on", "update"):
			p.i += 2
			ok := false
			for _, w := range []string{"current_timestamp", "now", "localtimestamp"} {
				if p.isKw(w) {
					ok = true
				}
			}
			if !ok {
				p.fail("CURRENT_TIMESTAMP")
			}
			x := p.primary()
			c.OnUpdate = x.Canon(p.d)
		case p.d == MySQL && p.isKw("character", "set"), p.d == MySQL && p.isKw("charset"):
			if !p.kw("character", "set") {
				p.i++
			}
			c.Charset = strings.ToLower(p.ident("charset"))
		case p.d != Spanner && p.kw("collate"):
			c.Collate = p.ident("collation")
		case p.d == MySQL && p.kw("comment"):
			if p.cur().k != tStr {
				p.fail("string")
			}
			c.Comment = p.cur().s
			p.i++
		case p.d == Spanner && p.kw("options"):
			c.Opts = p.optList()
		case p.d == CRDB && p.kw("as"):
			p.mustOp("(")
			c.Gen = p.expr(0).Canon(p.d)
			p.mustOp(")")
			if p.kw("virtual") {
				c.Gen += " VIRTUAL"
			} else {
				p.mustKw("stored")
				c.Gen += " STORED"
			}
		case inline && td != nil && p.inlineConstraint(c, td):
		default:
			c.saysNull = p.d == MySQL && (null || c.Def != nil && c.Def.Op == "null")
			return
		}
	}
}

func (p *parser) optList() map[string]string {
	p.mustOp("(")
	m := map[string]string{}
	for {
		k := p.ident("option")
		p.mustOp("=")
		m[k] = p.expr(0).Canon(p.d)
		if k != "allow_commit_timestamp" {
			panic(ferr("unknown option: %s", k))
		}
		if v := m[k]; v != "true" && v != "false" && v != "null" {
			panic(ferr("unexpected value for option %s: %s", k, v))
		}
		if !p.op(",") {
			break
		}
	}
	p.mustOp(")")
	return m
}

func (p *parser) inlineConstraint(c *Column, td *tableDef) bool {
	k := &Constraint{Auto: true}
	save := p.i
	if p.kw("constraint") {
		k.Name, k.Auto = p.ident("constraint name"), false
	}
	switch {
	case p.d != Spanner && p.kw("primary", "key"):
		k.Kind, k.Parts = "pk", []KeyPart{{Col: c.Name}}
		td.cons = append(td.cons, k)
	case p.d == Spanner && p.kw("primary", "key"):
		k.Kind, k.Parts = "pk", []KeyPart{{Col: c.Name}}
		td.cons = append(td.cons, k)
	case p.d == MySQL && p.isKw("unique"):
		p.i++
		p.kw("key")
		td.idx = append(td.idx, &Index{Name: k.Name, Unique: true, Parts: []KeyPart{{Col: c.Name}}})
	case (p.d == Postgres || p.d == CRDB) && p.kw("unique"):
		k.Kind, k.Parts = "unique", []KeyPart{{Col: c.Name}}
		td.cons = append(td.cons, k)
	case p.d != Spanner && p.kw("references"):
		k.Kind, k.Parts = "fk", []KeyPart{{Col: c.Name}}
		p.references(k)
		if p.d == MySQL {
			return true // MySQL parses and ignores inline REFERENCES before 9.0
		}
		td.cons = append(td.cons, k)
	case p.kw("check"):
		if p.d == Spanner {
			p.i = save
			return false
		}
		k.Kind = "check"
		p.mustOp("(")
		at := p.i
		k.Expr = p.expr(0)
		k.Raw = p.raw(at, p.i)
		p.mustOp(")")
		td.cons = append(td.cons, k)
	default:
		p.i = save
		return false
	}
	return true
}

// tableItem parses one element of a CREATE TABLE list or the object of ALTER TABLE ADD.
func (p *parser) tableConstraint(td *tableDef) bool {
	k := &Constraint{Auto: true}
	save := p.i
	if p.kw("constraint") {
		k.Name, k.Auto = p.ident("constraint name"), false
	}
	switch {
	case p.kw("primary", "key"):
		k.Kind = "pk"
		k.Parts = p.keyParts()
		if p.d == CRDB && p.kw("using", "hash") {
			p.withBuckets()
		}
		td.cons = append(td.cons, k)
	case p.kw("foreign", "key"):
		k.Kind = "fk"
		k.Parts = parts(p.colList())
		p.mustKw("references")
		p.references(k)
		if len(k.RefCols) == 0 && p.d != Postgres && p.d != CRDB {
			p.fail("referenced columns")
		}
		td.cons = append(td.cons, k)
	case p.kw("check"):
		k.Kind = "check"
		p.mustOp("(")
		at := p.i
		k.Expr = p.expr(0)
		k.Raw = p.raw(at, p.i)
		p.mustOp(")")
		if p.d == MySQL {
			p.kw("enforced")
		}
		td.cons = append(td.cons, k)
	case p.d == MySQL && p.isKw("unique"):
		p.i++
		if !p.kw("key") {
			p.kw("index")
		}
		ix := &Index{Name: k.Name, Unique: true}
		if !p.isOp("(") {
			ix.Name = p.ident("index name")
		}
		ix.Parts = p.keyParts()
		td.idx = append(td.idx, ix)
	case k.Auto && p.d == MySQL && (p.isKw("key") || p.isKw("index")):
		p.i++
		ix := &Index{}
		if !p.isOp("(") {
			ix.Name = p.ident("index name")
		}
		ix.Parts = p.keyParts()
		td.idx = append(td.idx, ix)
	case k.Auto && p.d == CRDB && (p.isKw("index") || p.isKw("unique", "index")):
		ix := &Index{Unique: p.kw("unique")}
		p.mustKw("index")
		if !p.isOp("(") {
			ix.Name = p.ident("index name")
		}
		ix.Parts = p.keyParts()
		if p.kw("using", "hash") {
			ix.Using = "hash"
			ix.Buckets = p.withBuckets()
		}
		td.idx = append(td.idx, ix)
	case (p.d == Postgres || p.d == CRDB) && p.kw("unique"):
		k.Kind = "unique"
		k.Parts = p.keyParts()
		td.cons = append(td.cons, k)
	default:
		p.i = save
		return false
	}
	return true
}

func (p *parser) withBuckets() string {
	if p.kw("with") {
		p.mustOp("(")
		k := p.ident("option")
		if k != "bucket_count" {
			p.fail("bucket_count")
		}
		p.mustOp("=")
		v := p.cur().s
		p.i++
		p.mustOp(")")
		return v
	}
	return ""
}

func (p *parser) createTable() *tableDef {
	td := &tableDef{opts: map[string]string{}}
	td.ifNotExists = p.kw("if", "not", "exists")
	td.name = p.qname()
	p.mustOp("(")
	for {
		if p.isOp(")") && p.d == Spanner && len(td.cols) > 0 {
			break // a trailing comma is allowed
		}
		if !p.tableConstraint(td) {
			td.cols = append(td.cols, p.column(td))
		}
		if !p.op(",") {
			break
		}
	}
	p.mustOp(")")
	switch p.d {
	case MySQL:
		p.mysqlTableOptions(td.opts)
	case Spanner:
		p.spannerTail(td)
	case CRDB:
		if p.kw("with") {
			p.mustOp("(")
			for {
				k := p.ident("option")
				p.mustOp("=")
				td.opts[k] = p.expr(0).Canon(p.d)
				if !p.op(",") {
					break
				}
			}
			p.mustOp(")")
		}
	}
	return td
}

func (p *parser) mysqlTableOptions(m map[string]string) bool {
	n := 0
	for {
		if n > 0 {
			p.op(",")
		}
		eq := func() { p.op("=") }
		switch {
		case p.kw("engine"):
			eq()
			m["ENGINE"] = canonEngine(p.ident("engine"))
		case p.kw("auto_increment"):
			eq()
			if p.cur().k != tNum {
				p.fail("number")
			}
			m["AUTO_INCREMENT"] = p.cur().s
			p.i++
		case p.isKw("default", "charset"), p.isKw("charset"), p.isKw("default", "character", "set"), p.isKw("character", "set"):
			p.kw("default")
			if !p.kw("charset") {
				p.mustKw("character", "set")
			}
			eq()
			m["CHARSET"] = strings.ToLower(p.ident("charset"))
		case p.isKw("collate"), p.isKw("default", "collate"):
			p.kw("default")
			p.mustKw("collate")
			eq()
			m["COLLATE"] = strings.ToLower(p.ident("collation"))
		case p.kw("comment"):
			eq()
			if p.cur().k != tStr {
				p.fail("string")
			}
			m["COMMENT"] = p.cur().s
			p.i++
		case p.kw("row_format"):
			eq()
			m["ROW_FORMAT"] = strings.ToUpper(p.ident("format"))
		default:
			return n > 0
		}
		n++
	}
}

func canonEngine(s string) string {
	if strings.EqualFold(s, "innodb") {
		return "InnoDB"
	}
	return s
}

func (p *parser) rowDeletion() string {
	p.mustKw("row", "deletion", "policy")
	p.mustOp("(")
	p.mustKw("older_than")
	p.mustOp("(")
	col := p.colIdent("column")
	p.mustOp(",")
	p.mustKw("interval")
	if p.cur().k != tNum {
		p.fail("number")
	}
	n := p.cur().s
	p.i++
	p.mustKw("day")
	p.mustOp(")")
	p.mustOp(")")
	return col + " " + n
}

func (p *parser) spannerTail(td *tableDef) {
	if p.kw("primary", "key") {
		k := &Constraint{Kind: "pk", Auto: true}
		if p.op("(") {
			p.i--
			if p.peek(1).k == tOp && p.peek(1).s == ")" {
				p.i += 2
			} else {
				k.Parts = p.keyParts()
			}
		} else {
			p.fail("(")
		}
		td.cons = append(td.cons, k)
	}
	for p.isOp(",") {
		p.i++
		switch {
		case p.kw("interleave", "in", "parent"):
			td.parent = p.qname()
			td.parDel = "NO ACTION"
			if p.kw("on", "delete") {
				switch {
				case p.kw("cascade"):
					td.parDel = "CASCADE"
				case p.kw("no", "action"):
				default:
					p.fail("CASCADE or NO ACTION")
				}
			}
		case p.isKw("row"):
			td.rowDel = p.rowDeletion()
		default:
			p.fail("INTERLEAVE or ROW DELETION POLICY")
		}
	}
	if td.pk() == nil {
		p.fail("PRIMARY KEY")
	}
}

func (td *tableDef) pk() *Constraint {
	for _, k := range td.cons {
		if k.Kind == "pk" {
			return k
		}
	}
	return nil
}

func (p *parser) alterTable(n string) func(c *Catalog, t *Table) {
	type T = func(c *Catalog, t *Table)
	switch {
	case p.kw("rename", "to"):
		nn := p.qname()
		return func(c *Catalog, t *Table) {
			if c.Tables[nn] != nil {
				panic(ferr("relation %q already exists", nn))
			}
			delete(c.Tables, t.Name)
			old := t.Name
			t.Name = nn
			c.Tables[nn] = t
			for _, o := range c.Tables {
				for _, k := range o.Cons {
					if k.Kind == "fk" && k.Ref == old {
						k.Ref = nn
					}
				}
			}
		}
	case p.kw("rename", "column"):
		a := p.colIdent("column")
		p.mustKw("to")
		b := p.colIdent("column")
		return T(func(c *Catalog, t *Table) {
			x := c.mustCol(t, a)
			if c.col(t, b) != nil {
				panic(c.dupColumn(t, b))
			}
			x.Name = b
		})
	case p.isKw("add"):
		p.i++
		if p.isKw("row") && p.d == Spanner {
			rd := p.rowDeletion()
			return func(c *Catalog, t *Table) {
				if t.RowDel != "" {
					panic(ferr("Table %s already has a row deletion policy", t.Name))
				}
				c.setRowDel(t, rd)
			}
		}
		td := &tableDef{name: n}
		if p.tableConstraint(td) {
			nv := p.d != MySQL && p.d != Spanner && p.kw("not", "valid")
			return func(c *Catalog, t *Table) {
				for _, k := range td.cons {
					k := *k
					k.NotValid = nv
					c.addConstraint(t, &k)
				}
				for _, ix := range td.idx {
					x := *ix
					c.addIndex(t, &x, false)
				}
				c.check(t)
			}
		}
		p.kw("column")
		ine := p.d != MySQL && p.kw("if", "not", "exists")
		col := p.column(td)
		if p.d == MySQL {
			if p.kw("first") {
			} else if p.kw("after") {
				p.colIdent("column")
			}
		}
		return func(c *Catalog, t *Table) {
			if c.col(t, col.Name) != nil {
				if ine {
					return
				}
				panic(c.dupColumn(t, col.Name))
			}
			x := *col
			x.Opts = cloneMap(col.Opts)
			c.addColumn(t, &x)
			for _, k := range td.cons {
				k := *k
				c.addConstraint(t, &k)
			}
			for _, ix := range td.idx {
				y := *ix
				c.addIndex(t, &y, false)
			}
			c.check(t)
		}
	case p.kw("drop"):
		switch {
		case p.d == MySQL && p.kw("primary", "key"):
			return func(c *Catalog, t *Table) { c.dropPK(t) }
		case p.d == MySQL && (p.isKw("index") || p.isKw("key")):
			p.i++
			ixn := p.ident("index")
			return func(c *Catalog, t *Table) { c.dropIndex(ixn, t.Name, false) }
		case p.kw("constraint"), p.d == MySQL && p.kw("foreign", "key"), p.d == MySQL && p.kw("check"):
			ie := p.d != MySQL && p.kw("if", "exists")
			cn := p.ident("constraint name")
			return func(c *Catalog, t *Table) { c.dropConstraint(t, cn, ie) }
		case p.d == Spanner && p.kw("row", "deletion", "policy"):
			return func(c *Catalog, t *Table) {
				if t.RowDel == "" {
					panic(ferr("Table %s has no row deletion policy", t.Name))
				}
				t.RowDel = ""
			}
		}
		if !p.kw("column") && (p.d == Spanner) {
			p.fail("COLUMN")
		}
		ie := p.d != MySQL && p.kw("if", "exists")
		cn := p.colIdent("column")
		return func(c *Catalog, t *Table) { c.dropColumn(t, cn, ie) }
	case p.d == Spanner && p.kw("replace"):
		rd := p.rowDeletion()
		return func(c *Catalog, t *Table) {
			if t.RowDel == "" {
				panic(ferr("Table %s has no row deletion policy", t.Name))
			}
			c.setRowDel(t, rd)
		}
	case p.d == MySQL && p.kw("modify"):
		p.kw("column")
		td := &tableDef{name: n}
		col := p.column(td)
		return func(c *Catalog, t *Table) {
			x := c.mustCol(t, col.Name)
			y := *col
			y.ID, y.Name = x.ID, x.Name
			if y.Type != x.Type {
				c.fkTypeGuard(t, x)
			}
			*x = y
			c.fixColumn(t, x)
			if pk := t.con("pk"); pk != nil && hasPart(c, pk.Parts, x.Name) {
				if y.saysNull {
					panic(ferr("Error 1171 (42000): All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead"))
				}
				x.NotNull = true
			}
			for _, k := range t.Cons {
				if len(k.Parts) > 0 && hasPart(c, k.Parts, x.Name) {
					c.keyCols(t, k.Parts, "key")
				}
			}
			for _, k := range t.Idx {
				if hasPart(c, k.Parts, x.Name) {
					c.keyCols(t, k.Parts, "key")
				}
			}
			for _, ix := range td.idx {
				z := *ix
				c.addIndex(t, &z, false)
			}
			c.check(t)
		}
	case p.kw("alter"):
		if p.d != MySQL && p.kw("constraint") {
			p.fail("supported alteration")
		}
		if !p.kw("column") && (p.d == Spanner) {
			p.fail("COLUMN")
		}
		cn := p.colIdent("column")
		return p.alterColumn(cn)
	}
	if (p.d == Postgres || p.d == CRDB) && p.kw("validate", "constraint") {
		k := p.colIdent("constraint")
		return func(c *Catalog, t *Table) {
			for _, x := range t.Cons {
				if x.Name == k {
					x.NotValid = false
					return
				}
			}
			panic(ferr("constraint %q of relation %q does not exist", k, t.Name))
		}
	}
	if p.d == MySQL {
		m := map[string]string{}
		if p.mysqlTableOptions(m) {
			return func(c *Catalog, t *Table) {
				c.setMySQLOpts(t, m)
				c.check(t)
			}
		}
	}
	p.fail("alteration")
	return nil
}

func (p *parser) alterColumn(cn string) func(c *Catalog, t *Table) {
	switch {
	case p.kw("set", "default"):
		var e *Expr
		raw := ""
		if p.d == Spanner {
			p.mustOp("(")
			at := p.i
			e = p.expr(0)
			raw = p.raw(at, p.i)
			p.mustOp(")")
		} else {
			e = p.expr(0)
		}
		return func(c *Catalog, t *Table) {
			x := c.mustCol(t, cn)
			x.HasDef, x.Def, x.DefRaw = true, e, raw
			c.fixColumn(t, x)
		}
	case p.kw("drop", "default"):
		return func(c *Catalog, t *Table) {
			x := c.mustCol(t, cn)
			x.HasDef, x.Def, x.DefRaw, x.Serial = false, nil, "", ""
			if c.Dialect == MySQL && !x.NotNull { // MySQL's manual: if the column can be NULL, the new default is NULL
				x.HasDef, x.Def = true, &Expr{Op: "null"}
				c.fixColumn(t, x)
			}
		}
	case p.d != MySQL && p.d != Spanner && p.kw("set", "not", "null"):
		return func(c *Catalog, t *Table) { c.mustCol(t, cn).NotNull = true }
	case p.d != MySQL && p.d != Spanner && p.kw("drop", "not", "null"):
		return func(c *Catalog, t *Table) {
			x := c.mustCol(t, cn)
			if pk := t.con("pk"); pk != nil && hasPart(c, pk.Parts, x.Name) {
				panic(ferr("column %q is in a primary key", cn))
			}
			x.NotNull = false
		}
	case p.d == Spanner && p.kw("set", "options"):
		m := p.optList()
		return func(c *Catalog, t *Table) {
			x := c.mustCol(t, cn)
			if x.Opts == nil {
				x.Opts = map[string]string{}
			}
			for k, v := range m {
				if v == "null" {
					delete(x.Opts, k)
				} else {
					x.Opts[k] = v
				}
			}
			if len(x.Opts) == 0 {
				x.Opts = nil
			}
		}
	case p.d == Postgres && (p.isKw("set", "data", "type") || p.isKw("type")),
		p.d == CRDB && (p.isKw("set", "data", "type") || p.isKw("type")):
		if !p.kw("type") {
			p.mustKw("set", "data", "type")
		}
		ty := p.typeName()
		if strings.HasSuffix(ty, "!serial") {
			panic(ferr("type %q does not exist", "serial"))
		}
		return func(c *Catalog, t *Table) {
			x := c.mustCol(t, cn)
			if !castable(c.Dialect, x.Type, ty) {
				panic(ferr("column %q cannot be cast automatically to type %s", cn, ty))
			}
			x.Type = ty
		}
	case p.d == Spanner:
		col := &Column{Name: cn}
		p.columnRest(col, nil, false)
		return func(c *Catalog, t *Table) {
			x := c.mustCol(t, cn)
			if !castable(c.Dialect, x.Type, col.Type) {
				panic(ferr("Cannot change type of column `%s.%s` from `%s` to `%s`.", t.Name, cn, x.Type, col.Type))
			}
			if pk := t.con("pk"); pk != nil && hasPart(c, pk.Parts, x.Name) && x.NotNull != col.NotNull {
				panic(ferr("Cannot change nullability of key column `%s.%s`.", t.Name, cn))
			}
			x.Type, x.NotNull = col.Type, col.NotNull
			if col.HasDef {
				x.HasDef, x.Def, x.DefRaw = true, col.Def, col.DefRaw
			}
		}
	}
	p.fail("column alteration")
	return nil
}

func family(ty string) string {
	b := strings.ToLower(ty)
	if i := strings.IndexAny(b, "( "); i >= 0 && !strings.HasPrefix(b, "double") && !strings.HasPrefix(b, "character varying") && !strings.HasPrefix(b, "timestamp") {
		b = b[:i]
	}
	switch {
	case strings.HasPrefix(b, "character"), b == "text", b == "varchar", b == "char", b == "string":
		return "text"
	case b == "smallint", b == "integer", b == "bigint", b == "numeric", b == "real", b == "double precision", strings.HasPrefix(b, "int"), b == "decimal", strings.HasPrefix(b, "float"), b == "tinyint", b == "mediumint", b == "double":
		return "num"
	case strings.HasPrefix(b, "timestamp"), b == "date":
		return "time"
	case b == "json", b == "jsonb":
		return "json"
	}
	return b
}

func (p *parser) raw(i, j int) string {
	s := ""
	for n := i; n < j; n++ {
		if n > i && p.t[n].pos > p.t[n-1].end {
			s += " "
		}
		s += p.t[n].raw
	}
	return s
}

func castable(d, from, to string) bool {
	if from == to {
		return true
	}
	ff, ft := family(from), family(to)
	switch d {
	case Spanner:
		b := func(s string) string { return strings.SplitN(s, "(", 2)[0] }
		return b(from) == b(to) && (b(from) == "STRING" || b(from) == "BYTES")
	case Postgres:
		return ff == ft || ft == "text"
	case CRDB:
		if ff != ft {
			return false
		}
		if ff == "num" {
			w := map[string]int{"INT2": 2, "INT4": 4, "INT8": 8}
			if w[from] > 0 && w[to] > 0 {
				return true
			}
			if strings.HasPrefix(from, "FLOAT") && strings.HasPrefix(to, "FLOAT") {
				return true
			}
			return strings.HasPrefix(from, "DECIMAL") && strings.HasPrefix(to, "DECIMAL")
		}
		return true
	}
	return true
}

func hasPart(c *Catalog, ps []KeyPart, col string) bool {
	for _, p := range ps {
		if c.eq(p.Col, col) {
			return true
		}
	}
	return false
}

func sortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
