package db

import (
	"fmt"
	"hash/crc32"
	"strings"
)

func (c *Catalog) mustTable(n string) *Table {
	t := c.table(n)
	if t == nil {
		switch c.Dialect {
		case MySQL:
			panic(ferr("Error 1146 (42S02): Table 'app.%s' doesn't exist", n))
		case Spanner:
			panic(ferr("Table not found: %s", n))
		}
		panic(ferr("relation %q does not exist", base(n)))
	}
	return t
}

func (c *Catalog) table(n string) *Table {
	if t := c.Tables[n]; t != nil {
		return t
	}
	if c.Dialect == Spanner {
		for k, t := range c.Tables {
			if strings.EqualFold(k, n) {
				return t
			}
		}
	}
	return nil
}

func (c *Catalog) mustCol(t *Table, n string) *Column {
	x := c.col(t, n)
	if x == nil {
		switch c.Dialect {
		case MySQL:
			panic(ferr("Error 1054 (42S22): Unknown column '%s' in '%s'", n, t.Name))
		case Spanner:
			panic(ferr("Column not found in table %s: %s", t.Name, n))
		}
		panic(ferr("column %q of relation %q does not exist", n, base(t.Name)))
	}
	return x
}

func (c *Catalog) dupColumn(t *Table, n string) sqlErr {
	switch c.Dialect {
	case MySQL:
		return ferr("Error 1060 (42S21): Duplicate column name '%s'", n)
	case Spanner:
		return ferr("Duplicate column name %s.%s.", t.Name, n)
	}
	return ferr("column %q of relation %q already exists", n, base(t.Name))
}

// fixColumn canonicalises a column the way the server stores it.
func (c *Catalog) fixColumn(t *Table, x *Column) {
	if c.Dialect == MySQL {
		x.Collate, x.Charset = strings.ToLower(x.Collate), strings.ToLower(x.Charset)
		if x.Collate != "" {
			cs := x.Collate
			if i := strings.Index(cs, "_"); i > 0 {
				cs = cs[:i]
			}
			if x.Charset != "" && x.Charset != cs {
				panic(ferr("Error 1253 (42000): COLLATION '%s' is not valid for CHARACTER SET '%s'", x.Collate, x.Charset))
			}
			x.Charset = cs
		}
		if x.Charset != "" && x.Collate == "" {
			x.Collate = defaultCollation(x.Charset)
		}
		str := family(x.Type) == "text" || strings.HasSuffix(x.Type, "text") || strings.HasPrefix(x.Type, "enum") || strings.HasPrefix(x.Type, "set(")
		if x.Charset != "" && !str {
			panic(ferr("Error 1064 (42000): You have an error in your SQL syntax near 'CHARACTER SET'"))
		}
		if x.Charset != "" && knownCharset[x.Charset] == "" {
			panic(ferr("Error 1115 (42000): Unknown character set: '%s'", x.Charset))
		}
		blob := strings.HasSuffix(x.Type, "text") || strings.HasSuffix(x.Type, "blob") || x.Type == "json"
		if x.HasDef && x.Def != nil && x.Def.Op == "null" {
			if x.NotNull {
				panic(ferr("Error 1067 (42000): Invalid default value for '%s'", x.Name))
			}
			if blob {
				x.HasDef, x.Def = false, nil
			}
		}
		if blob && x.HasDef && (x.Def.Op == "str" || x.Def.Op == "num") {
			panic(ferr("Error 1101 (42000): BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value", x.Name))
		}
		isTime := strings.HasPrefix(x.Type, "timestamp") || strings.HasPrefix(x.Type, "datetime")
		if x.OnUpdate != "" && !isTime {
			panic(ferr("Error 1294 (HY000): Invalid ON UPDATE clause for '%s' column", x.Name))
		}
		if x.Def != nil && x.Def.Op == "kw" && !isTime {
			panic(ferr("Error 1067 (42000): Invalid default value for '%s'", x.Name))
		}
		if x.Def != nil && x.Def.Op == "str" && family(x.Type) == "num" || x.Def != nil && x.Def.Op == "num" {
			// MySQL prints numeric defaults quoted
			if x.Def.Op == "num" {
				x.Def = &Expr{Op: "str", S: x.Def.S}
			}
			if family(x.Type) == "num" && strings.Trim(x.Def.S, "-0123456789.") != "" {
				panic(ferr("Error 1067 (42000): Invalid default value for '%s'", x.Name))
			}
		}
		if x.Def != nil && (x.Def.Op == "true" || x.Def.Op == "false") {
			x.Def = &Expr{Op: "str", S: map[string]string{"true": "1", "false": "0"}[x.Def.Op]}
		}
		if x.Def != nil && x.Def.Op == "un" && x.Def.S == "-" && x.Def.Args[0].Op == "num" {
			x.Def = &Expr{Op: "str", S: "-" + x.Def.Args[0].S}
		}
		if strings.HasPrefix(x.Type, "enum") && x.Def != nil && x.Def.Op == "str" && !strings.Contains(x.Type, "'"+strings.ReplaceAll(x.Def.S, "'", "''")+"'") {
			panic(ferr("Error 1067 (42000): Invalid default value for '%s'", x.Name))
		}
		if x.AutoInc && (family(x.Type) != "num" && !strings.HasSuffix(x.Type, "int") || x.HasDef) {
			panic(ferr("Error 1063 (42000): Incorrect column specifier for column '%s'", x.Name))
		}
		if !x.HasDef && !x.NotNull && !blob && !x.AutoInc {
			x.HasDef, x.Def = true, &Expr{Op: "null"}
		}
		return
	}
	if c.Dialect == Spanner {
		return
	}
	if x.Serial != "" {
		x.HasDef = true
		x.Def = &Expr{Op: "call", S: "nextval", Args: []*Expr{{Op: "cast", S: "regclass", Args: []*Expr{{Op: "str", S: base(t.Name) + "_" + x.Name + "_seq"}}}}}
	}
	if x.HasDef && x.Def.Op == "null" {
		x.HasDef, x.Def = false, nil
	}
	if c.Dialect == CRDB && x.Def != nil {
		x.Def = stripCasts(x.Def)
	}
	if x.Def != nil {
		if len(x.Def.Idents()) > 0 {
			panic(ferr("cannot use column reference in DEFAULT expression"))
		}
		if c.Dialect == Postgres {
			// the server stores string constants with an explicit cast
			if x.Def.Op == "str" && family(x.Type) != "num" && x.Type != "boolean" {
				ty := x.Type
				if strings.HasPrefix(ty, "character varying") {
					ty = "character varying"
				}
				x.Def = &Expr{Op: "cast", S: ty, Args: []*Expr{x.Def}}
			}
			if x.Def.Op == "call" && x.Def.S == "now" {
				x.Def = &Expr{Op: "call", S: "now"}
			}
		}
	}
}

// stripCasts removes type annotations: the server adds its own when it prints the expression.
func stripCasts(e *Expr) *Expr {
	if e.Op == "cast" {
		return stripCasts(e.Args[0])
	}
	n := *e
	n.Args = nil
	for _, a := range e.Args {
		n.Args = append(n.Args, stripCasts(a))
	}
	return &n
}

var knownCharset = map[string]string{"utf8mb4": "utf8mb4_0900_ai_ci", "latin1": "latin1_swedish_ci", "ascii": "ascii_general_ci", "utf8mb3": "utf8mb3_general_ci", "binary": "binary"}

func defaultCollation(cs string) string { return knownCharset[cs] }

func (c *Catalog) setMySQLOpts(t *Table, m map[string]string) {
	for _, k := range sortedKeys(m) {
		v := m[k]
		if k == "CHARSET" || k == "COLLATE" {
			v = strings.ToLower(v)
		}
		switch k {
		case "ENGINE":
			if strings.EqualFold(v, "InnoDB") {
				v = "InnoDB"
			}
			t.Opts[k] = v
		case "CHARSET":
			if knownCharset[v] == "" {
				panic(ferr("Error 1115 (42000): Unknown character set: '%s'", v))
			}
			t.Opts["CHARSET"] = v
			if m["COLLATE"] == "" {
				t.Opts["COLLATE"] = defaultCollation(v)
			}
		case "COLLATE":
			cs := v
			if i := strings.Index(v, "_"); i > 0 {
				cs = v[:i]
			}
			if m["CHARSET"] != "" && !strings.EqualFold(m["CHARSET"], cs) {
				panic(ferr("Error 1253 (42000): COLLATION '%s' is not valid for CHARACTER SET '%s'", v, m["CHARSET"]))
			}
			if knownCharset[cs] == "" {
				panic(ferr("Error 1273 (HY000): Unknown collation: '%s'", v))
			}
			t.Opts["COLLATE"], t.Opts["CHARSET"] = v, cs
		case "COMMENT":
			if v == "" {
				delete(t.Opts, k)
			} else {
				t.Opts[k] = v
			}
		default:
			t.Opts[k] = v
		}
	}
}

func (c *Catalog) createTable(td *tableDef) {
	if c.table(td.name) != nil {
		if td.ifNotExists {
			return
		}
		switch c.Dialect {
		case MySQL:
			panic(ferr("Error 1050 (42S01): Table '%s' already exists", td.name))
		case Spanner:
			panic(ferr("Duplicate name in schema: %s.", td.name))
		}
		panic(ferr("relation %q already exists", base(td.name)))
	}
	c.relationFree(td.name)
	t := &Table{ID: c.id(), Name: td.name, Opts: map[string]string{}}
	c.Tables[td.name] = t
	if c.Dialect == MySQL {
		t.Opts["ENGINE"], t.Opts["CHARSET"], t.Opts["COLLATE"] = "InnoDB", "utf8mb4", "utf8mb4_0900_ai_ci"
		c.setMySQLOpts(t, td.opts)
	} else {
		t.Opts = cloneMap(td.opts)
	}
	if len(td.cols) == 0 {
		panic(ferr("a table must have at least 1 column"))
	}
	for _, x := range td.cols {
		if c.col(t, x.Name) != nil {
			panic(c.dupColumn(t, x.Name))
		}
		y := *x
		y.Opts = cloneMap(x.Opts)
		c.addColumn(t, &y)
	}
	if c.Dialect == CRDB && td.pk() == nil {
		c.addColumn(t, &Column{Name: "rowid", Type: "INT8", NotNull: true, Hidden: true, HasDef: true, Def: &Expr{Op: "call", S: "unique_rowid"}})
		td = &tableDef{cols: td.cols, cons: append([]*Constraint{{Kind: "pk", Auto: true, Parts: []KeyPart{{Col: "rowid"}}}}, td.cons...), idx: td.idx}
	}
	// keys before foreign keys
	for pass := 0; pass < 2; pass++ {
		for _, k := range td.cons {
			if (k.Kind == "fk") != (pass == 1) {
				continue
			}
			y := *k
			c.addConstraint(t, &y)
		}
		if pass == 0 {
			for _, ix := range td.idx {
				y := *ix
				c.addIndex(t, &y, false)
			}
		}
	}
	if td.parent != "" {
		pt := c.mustTable(td.parent)
		ppk, cpk := pt.con("pk"), t.con("pk")
		for i, kp := range ppk.Parts {
			if i >= len(cpk.Parts) || !c.eq(cpk.Parts[i].Col, kp.Col) || cpk.Parts[i].Desc != kp.Desc ||
				c.col(t, kp.Col).Type != c.col(pt, kp.Col).Type {
				panic(ferr("Interleaved table %s's primary key must extend the primary key of its parent %s", t.Name, pt.Name))
			}
		}
		t.Parent, t.ParDel = pt.Name, td.parDel
	}
	if td.rowDel != "" {
		c.setRowDel(t, td.rowDel)
	}
	c.check(t)
}

func (c *Catalog) setRowDel(t *Table, rd string) {
	x := c.mustCol(t, strings.SplitN(rd, " ", 2)[0])
	if x.Type != "TIMESTAMP" {
		panic(ferr("row deletion policy column %s must be TIMESTAMP", x.Name))
	}
	t.RowDel = rd
}

// relationFree rejects a relation name already used by a table or index of the same namespace.
func (c *Catalog) relationFree(n string) {
	switch c.Dialect {
	case Postgres:
		if c.Tables[n] != nil {
			panic(ferr("relation %q already exists", base(n)))
		}
		for _, t := range c.Tables {
			for _, ix := range t.Idx {
				if "public."+ix.Name == n {
					panic(ferr("relation %q already exists", base(n)))
				}
			}
			for _, k := range t.Cons {
				if (k.Kind == "pk" || k.Kind == "unique") && "public."+k.Name == n {
					panic(ferr("relation %q already exists", base(n)))
				}
			}
		}
	case Spanner:
		if c.table(n) != nil {
			panic(ferr("Duplicate name in schema: %s.", n))
		}
		for _, t := range c.Tables {
			if c.idx(t, n) != nil {
				panic(ferr("Duplicate name in schema: %s.", n))
			}
		}
	}
}

func (c *Catalog) addColumn(t *Table, x *Column) {
	if c.Dialect == MySQL && x.Name == "" {
		panic(ferr("Error 1166 (42000): Incorrect column name"))
	}
	x.ID = c.id()
	t.Cols = append(t.Cols, x)
	c.fixColumn(t, x)
}

func (c *Catalog) dropTable(n string, ifExists bool) {
	t := c.table(n)
	if t == nil {
		if ifExists {
			return
		}
		switch c.Dialect {
		case MySQL:
			panic(ferr("Error 1051 (42S02): Unknown table 'app.%s'", n))
		case Spanner:
			panic(ferr("Table not found: %s", n))
		}
		panic(ferr("table %q does not exist", base(n)))
	}
	for _, o := range c.Tables {
		if o == t {
			continue
		}
		if c.Dialect == Spanner && o.Parent == t.Name {
			panic(ferr("Cannot drop table %s with interleaved tables %s.", t.Name, o.Name))
		}
		for _, k := range o.Cons {
			if k.Kind == "fk" && k.Ref == t.Name {
				switch c.Dialect {
				case MySQL:
					panic(ferr("Error 3730 (HY000): Cannot drop table '%s' referenced by a foreign key constraint '%s' on table '%s'.", n, k.Name, o.Name))
				case Spanner:
					panic(ferr("Cannot drop table `%s`. It is referenced by one or more foreign keys: `%s`.", n, k.Name))
				}
				panic(ferr("cannot drop table %s because other objects depend on it", base(n)))
			}
		}
	}
	if c.Dialect == Spanner && len(t.Idx) > 0 {
		panic(ferr("Cannot drop table %s with indices: %s.", n, t.Idx[0].Name))
	}
	delete(c.Tables, t.Name)
}

func (c *Catalog) uniqueConName(t *Table, want string) string {
	used := func(s string) bool {
		if t.conNamed(s) != nil || c.idx(t, s) != nil {
			return true
		}
		if c.Dialect == Postgres {
			err := func() (e error) {
				defer func() {
					if r := recover(); r != nil {
						e = r.(sqlErr)
					}
				}()
				c.relationFree("public." + s)
				return nil
			}()
			return err != nil
		}
		return false
	}
	n := want
	for i := 1; used(n); i++ {
		n = fmt.Sprintf("%s%d", want, i)
	}
	return n
}

func colsOf(ps []KeyPart) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.Col)
	}
	return strings.Join(s, "_")
}

func (c *Catalog) keyCols(t *Table, ps []KeyPart, what string) {
	seen := map[string]bool{}
	for _, p := range ps {
		x := c.col(t, p.Col)
		if x == nil {
			switch c.Dialect {
			case MySQL:
				panic(ferr("Error 1072 (42000): Key column '%s' doesn't exist in table", p.Col))
			case Spanner:
				panic(ferr("%s references column %s which does not exist in table %s", what, p.Col, t.Name))
			}
			panic(ferr("column %q named in key does not exist", p.Col))
		}
		if seen[c.lc(p.Col)] {
			panic(ferr("column %q appears twice in %s", p.Col, what))
		}
		seen[c.lc(p.Col)] = true
		switch c.Dialect {
		case MySQL:
			if strings.HasSuffix(x.Type, "text") || strings.HasSuffix(x.Type, "blob") {
				panic(ferr("Error 1170 (42000): BLOB/TEXT column '%s' used in key specification without a key length", x.Name))
			}
			if x.Type == "json" {
				panic(ferr("Error 3152 (42000): JSON column '%s' supports indexing only via generated columns on a specified path.", x.Name))
			}
		case Spanner:
			if x.Type == "JSON" || strings.HasPrefix(x.Type, "ARRAY") {
				panic(ferr("Column %s of type %s cannot be part of a key", x.Name, x.Type))
			}
		default:
			if x.Type == "json" || (c.Dialect == CRDB && x.Type == "JSONB") {
				panic(ferr("column %s of type %s is not indexable", x.Name, x.Type))
			}
		}
	}
}

func (c *Catalog) addConstraint(t *Table, k *Constraint) {
	for i := range k.Parts {
		if x := c.col(t, k.Parts[i].Col); x != nil {
			k.Parts[i].Col = x.Name
		}
	}
	if k.Name != "" && !(c.Dialect == MySQL && k.Kind == "pk") {
		c.conNameFree(t, k)
	}
	switch k.Kind {
	case "pk":
		if t.con("pk") != nil {
			switch c.Dialect {
			case MySQL:
				panic(ferr("Error 1068 (42000): Multiple primary key defined"))
			}
			panic(ferr("multiple primary keys for table %q are not allowed", base(t.Name)))
		}
		c.keyCols(t, k.Parts, "primary key")
		for _, p := range k.Parts {
			x := c.mustCol(t, p.Col)
			if x.saysNull {
				panic(ferr("Error 1171 (42000): All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead"))
			}
			if c.Dialect != Spanner {
				x.NotNull = true
			}
			if c.Dialect == MySQL && x.HasDef && x.Def.Op == "null" {
				x.HasDef, x.Def = false, nil
			}
		}
		if k.Name == "" {
			k.Name = c.uniqueConName(t, base(t.Name)+"_pkey")
			if c.Dialect == MySQL || c.Dialect == Spanner {
				k.Name = "PRIMARY"
			}
		}
	case "unique":
		c.keyCols(t, k.Parts, "unique constraint")
		if k.Name == "" {
			k.Name = c.uniqueConName(t, base(t.Name)+"_"+colsOf(k.Parts)+"_key")
		}
		if c.Dialect == CRDB {
			// a unique constraint is a unique index
			if c.idx(t, k.Name) != nil {
				panic(ferr("index with name %q already exists", k.Name))
			}
			t.Idx = append(t.Idx, &Index{Name: k.Name, Unique: true, Parts: k.Parts})
			return
		}
	case "check":
		for _, id := range k.Expr.Idents() {
			if c.col(t, id) == nil {
				switch c.Dialect {
				case MySQL:
					panic(ferr("Error 3820 (HY000): Check constraint '%s' refers to non-existing column '%s'.", k.Name, id))
				}
				panic(ferr("column %q does not exist", id))
			}
		}
		if k.Name == "" {
			switch c.Dialect {
			case MySQL:
				for i := 1; ; i++ {
					k.Name = fmt.Sprintf("%s_chk_%d", t.Name, i)
					if c.checkNamed(k.Name) == nil {
						break
					}
				}
			case Spanner:
				k.Name = fmt.Sprintf("CK_%s_%08X", t.Name, crc32.ChecksumIEEE([]byte(k.Expr.Canon(c.Dialect))))
			case CRDB:
				k.Name = c.uniqueConName(t, "check_"+strings.Join(dedup(k.Expr.Idents()), "_"))
			default:
				ids := dedup(k.Expr.Idents())
				n := base(t.Name)
				if len(ids) == 1 {
					n += "_" + ids[0]
				}
				k.Name = c.uniqueConName(t, n+"_check")
			}
		}
	case "fk":
		c.keyCols(t, k.Parts, "foreign key")
		rt := c.table(k.Ref)
		if rt == nil {
			switch c.Dialect {
			case MySQL:
				panic(ferr("Error 1824 (HY000): Failed to open the referenced table '%s'", k.Ref))
			case Spanner:
				panic(ferr("Table %s referenced by foreign key %s not found", k.Ref, k.Name))
			}
			panic(ferr("relation %q does not exist", base(k.Ref)))
		}
		k.Ref = rt.Name
		if len(k.RefCols) == 0 {
			if pk := rt.con("pk"); pk != nil {
				for _, p := range pk.Parts {
					k.RefCols = append(k.RefCols, p.Col)
				}
			}
		}
		if len(k.RefCols) != len(k.Parts) {
			panic(ferr("number of referencing and referenced columns for foreign key disagree"))
		}
		for i, rc := range k.RefCols {
			rx := c.col(rt, rc)
			if rx == nil {
				if c.Dialect == MySQL {
					panic(ferr("Error 3734 (HY000): Failed to add the foreign key constraint. Missing column '%s' for constraint '%s' in the referenced table '%s'", rc, k.Name, rt.Name))
				}
				panic(ferr("column %q referenced in foreign key constraint does not exist", rc))
			}
			k.RefCols[i] = rx.Name
			lx := c.mustCol(t, k.Parts[i].Col)
			if !fkCompatible(c.Dialect, lx.Type, rx.Type) {
				if c.Dialect == MySQL {
					panic(ferr("Error 3780 (HY000): Referencing column '%s' and referenced column '%s' in foreign key constraint '%s' are incompatible.", lx.Name, rx.Name, k.Name))
				}
				panic(ferr("foreign key constraint %q cannot be implemented: incompatible types %s and %s", k.Name, lx.Type, rx.Type))
			}
		}
		if c.Dialect != Spanner && !c.uniqueOn(rt, k.RefCols, c.Dialect == MySQL) {
			if c.Dialect == MySQL {
				panic(ferr("Error 1822 (HY000): Failed to add the foreign key constraint. Missing index for constraint '%s' in the referenced table '%s'", k.Name, rt.Name))
			}
			panic(ferr("there is no unique constraint matching given keys for referenced table %q", base(k.Ref)))
		}
		if k.Name == "" {
			switch c.Dialect {
			case MySQL:
				for i := 1; ; i++ {
					k.Name = fmt.Sprintf("%s_ibfk_%d", t.Name, i)
					if c.fkNamed(k.Name) == nil {
						break
					}
				}
			case Spanner:
				k.Name = fmt.Sprintf("FK_%s_%s_%08X", t.Name, rt.Name, crc32.ChecksumIEEE([]byte(colsOf(k.Parts)+strings.Join(k.RefCols, ","))))
			default:
				k.Name = c.uniqueConName(t, base(t.Name)+"_"+colsOf(k.Parts)+"_fkey")
			}
		}
		if c.Dialect == MySQL && !c.indexedPrefix(t, k.Parts) {
			t.Idx = append(t.Idx, &Index{Name: k.Name, Parts: k.Parts, Implicit: true})
		}
	}
	t.Cons = append(t.Cons, k)
}

func dedup(s []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func fkCompatible(d, a, b string) bool {
	if a == b {
		return true
	}
	if d == MySQL {
		return family(a) == "text" && family(b) == "text"
	}
	return family(a) == family(b) && d != Spanner
}

func (c *Catalog) checkNamed(n string) *Table {
	for _, t := range c.Tables {
		for _, k := range t.Cons {
			if k.Kind == "check" && strings.EqualFold(k.Name, n) {
				return t
			}
		}
	}
	return nil
}

func (c *Catalog) fkNamed(n string) *Table {
	for _, t := range c.Tables {
		for _, k := range t.Cons {
			if k.Kind == "fk" && strings.EqualFold(k.Name, n) {
				return t
			}
		}
	}
	return nil
}

func (c *Catalog) conNameFree(t *Table, k *Constraint) {
	switch c.Dialect {
	case MySQL:
		switch k.Kind {
		case "fk":
			if c.fkNamed(k.Name) != nil {
				panic(ferr("Error 1826 (HY000): Duplicate foreign key constraint name '%s'", k.Name))
			}
		case "check":
			if c.checkNamed(k.Name) != nil {
				panic(ferr("Error 3822 (HY000): Duplicate check constraint name '%s'.", k.Name))
			}
		}
	case Spanner:
		for _, o := range c.Tables {
			if o.conNamed(k.Name) != nil {
				panic(ferr("Duplicate name in schema: %s.", k.Name))
			}
		}
		c.relationFree(k.Name)
	default:
		if t.conNamed(k.Name) != nil {
			panic(ferr("constraint %q for relation %q already exists", k.Name, base(t.Name)))
		}
		if k.Kind == "pk" || k.Kind == "unique" {
			c.relationFree("public." + k.Name)
		}
	}
}

func (c *Catalog) uniqueOn(t *Table, cols []string, prefixOK bool) bool {
	match := func(ps []KeyPart) bool {
		if prefixOK {
			if len(ps) < len(cols) {
				return false
			}
			for i := range cols {
				if !c.eq(ps[i].Col, cols[i]) {
					return false
				}
			}
			return true
		}
		if len(ps) != len(cols) {
			return false
		}
		for _, x := range cols {
			if !hasPart(c, ps, x) {
				return false
			}
		}
		return true
	}
	for _, k := range t.Cons {
		if (k.Kind == "pk" || k.Kind == "unique") && match(k.Parts) {
			return true
		}
	}
	for _, ix := range t.Idx {
		if (ix.Unique || prefixOK) && match(ix.Parts) {
			return true
		}
	}
	return false
}

func (c *Catalog) indexedPrefix(t *Table, ps []KeyPart) bool {
	var cols []string
	for _, p := range ps {
		cols = append(cols, p.Col)
	}
	return c.uniqueOn(t, cols, true)
}

func (c *Catalog) addIndex(t *Table, in *Index, ifNotExists bool) {
	cp := *in
	ix := &cp
	ix.Parts = append([]KeyPart(nil), in.Parts...)
	for i := range ix.Parts {
		if x := c.col(t, ix.Parts[i].Col); x != nil {
			ix.Parts[i].Col = x.Name
		}
	}
	if ix.Name == "" {
		switch c.Dialect {
		case MySQL:
			ix.Name = ix.Parts[0].Col
			for i := 2; c.idx(t, ix.Name) != nil; i++ {
				ix.Name = fmt.Sprintf("%s_%d", ix.Parts[0].Col, i)
			}
		default:
			suf := "_idx"
			if ix.Unique {
				suf = "_key"
			}
			ix.Name = c.uniqueConName(t, base(t.Name)+"_"+colsOf(ix.Parts)+suf)
		}
	}
	if o := c.idx(t, ix.Name); o != nil {
		if ifNotExists {
			return
		}
		switch c.Dialect {
		case MySQL:
			if o.Implicit {
				c.removeIdx(t, o)
				break
			}
			panic(ferr("Error 1061 (42000): Duplicate key name '%s'", ix.Name))
		case CRDB:
			panic(ferr("index with name %q already exists", ix.Name))
		case Spanner:
			panic(ferr("Duplicate name in schema: %s.", ix.Name))
		default:
			panic(ferr("relation %q already exists", ix.Name))
		}
	}
	switch c.Dialect {
	case Postgres:
		if ifNotExists {
			for _, o := range c.Tables {
				if c.idx(o, ix.Name) != nil {
					return
				}
			}
		}
		c.relationFree("public." + ix.Name)
	case Spanner:
		c.relationFree(ix.Name)
	case CRDB:
		if t.conNamed(ix.Name) != nil {
			panic(ferr("index with name %q already exists", ix.Name))
		}
	}
	c.keyCols(t, ix.Parts, "index "+ix.Name)
	t.Idx = append(t.Idx, ix)
	if c.Dialect == MySQL {
		// an implicit foreign key index made redundant by an explicit one disappears
		for _, o := range append([]*Index(nil), t.Idx...) {
			if o.Implicit && o != ix && len(ix.Parts) >= len(o.Parts) && partStr(ix.Parts[:len(o.Parts)]) == partStr(o.Parts) {
				c.removeIdx(t, o)
			}
		}
	}
}

func (c *Catalog) removeIdx(t *Table, ix *Index) {
	for i, x := range t.Idx {
		if x == ix {
			t.Idx = append(t.Idx[:i:i], t.Idx[i+1:]...)
			return
		}
	}
}

func (c *Catalog) removeCon(t *Table, k *Constraint) {
	for i, x := range t.Cons {
		if x == k {
			t.Cons = append(t.Cons[:i:i], t.Cons[i+1:]...)
			return
		}
	}
}

func (c *Catalog) dropIndex(n, tn string, ifExists bool) {
	var t *Table
	var ix *Index
	switch c.Dialect {
	case MySQL:
		t = c.mustTable(tn)
		ix = c.idx(t, n)
		if ix == nil {
			panic(ferr("Error 1091 (42000): Can't DROP '%s'; check that column/key exists", n))
		}
		// an index a foreign key needs cannot go
		rest := *t
		rest.Idx = nil
		for _, x := range t.Idx {
			if x != ix {
				rest.Idx = append(rest.Idx, x)
			}
		}
		for _, k := range t.Cons {
			if k.Kind == "fk" && !c.indexedPrefix(&rest, k.Parts) {
				panic(ferr("Error 1553 (HY000): Cannot drop index '%s': needed in a foreign key constraint", n))
			}
		}
		for _, o := range c.Tables {
			for _, k := range o.Cons {
				if k.Kind == "fk" && k.Ref == t.Name && !c.uniqueOn(&rest, k.RefCols, true) {
					panic(ferr("Error 1553 (HY000): Cannot drop index '%s': needed in a foreign key constraint", n))
				}
			}
		}
		c.removeIdx(t, ix)
		return
	default:
		short := base(n)
		if c.Dialect == Spanner {
			short = n
		}
		found := 0
		for _, k := range c.Names() {
			o := c.Tables[k]
			if tn != "" && k != tn {
				continue
			}
			if x := c.idx(o, short); x != nil {
				t, ix = o, x
				found++
			}
			for _, q := range o.Cons {
				if (q.Kind == "pk" || q.Kind == "unique") && q.Name == short && c.Dialect == Postgres {
					panic(ferr("cannot drop index %s because constraint %s on table %s requires it", short, short, base(o.Name)))
				}
			}
		}
		if found == 0 {
			if ifExists {
				return
			}
			if c.Dialect == Spanner {
				panic(ferr("Index not found: %s", n))
			}
			panic(ferr("index %q does not exist", short))
		}
		if found > 1 {
			panic(ferr("index name %q is ambiguous", short))
		}
		if ix.Unique && c.Dialect != Spanner {
			rest := *t
			rest.Idx = nil
			for _, x := range t.Idx {
				if x != ix {
					rest.Idx = append(rest.Idx, x)
				}
			}
			for _, o := range c.Tables {
				for _, k := range o.Cons {
					if k.Kind == "fk" && k.Ref == t.Name && !c.uniqueOn(&rest, k.RefCols, false) {
						panic(ferr("cannot drop index %s because constraint %s depends on it", short, k.Name))
					}
				}
			}
		}
		c.removeIdx(t, ix)
	}
}

func (c *Catalog) dropPK(t *Table) {
	k := t.con("pk")
	if k == nil {
		panic(ferr("Error 1091 (42000): Can't DROP 'PRIMARY'; check that column/key exists"))
	}
	c.removeCon(t, k)
	c.check(t)
	c.refGuard(t, k, func() {})
}

func (c *Catalog) refGuard(t *Table, k *Constraint, _ func()) {
	for _, o := range c.Tables {
		for _, f := range o.Cons {
			if f.Kind == "fk" && f.Ref == t.Name && !c.uniqueOn(t, f.RefCols, c.Dialect == MySQL) {
				switch c.Dialect {
				case MySQL:
					panic(ferr("Error 1553 (HY000): Cannot drop index '%s': needed in a foreign key constraint", k.Name))
				case Spanner:
					continue
				}
				panic(ferr("cannot drop constraint %s on table %s because other objects depend on it", k.Name, base(t.Name)))
			}
		}
	}
}

func (c *Catalog) dropConstraint(t *Table, n string, ifExists bool) {
	var k *Constraint
	for _, x := range t.Cons {
		if x.Kind == "pk" && (c.Dialect == MySQL || c.Dialect == Spanner) {
			continue
		}
		if c.eq(x.Name, n) {
			k = x
		}
	}
	if k == nil {
		if c.Dialect == MySQL {
			if ix := c.idx(t, n); ix != nil && ix.Unique {
				c.dropIndex(n, t.Name, false)
				return
			}
			panic(ferr("Error 3940 (HY000): Constraint '%s' does not exist.", n))
		}
		if ifExists {
			return
		}
		if c.Dialect == CRDB {
			if ix := c.idx(t, n); ix != nil && ix.Unique {
				panic(ferr("unimplemented: cannot drop UNIQUE constraint %q using ALTER TABLE DROP CONSTRAINT, use DROP INDEX CASCADE instead", n))
			}
		}
		panic(ferr("constraint %q of relation %q does not exist", n, base(t.Name)))
	}
	if c.Dialect == CRDB && k.Kind == "pk" {
		panic(ferr("unimplemented: primary key dropped without subsequent addition of new primary key in same transaction"))
	}
	c.removeCon(t, k)
	if k.Kind == "pk" || k.Kind == "unique" {
		c.refGuard(t, k, nil)
	}
	c.check(t)
}

func (c *Catalog) fkTypeGuard(t *Table, x *Column) {
	for _, k := range t.Cons {
		if k.Kind == "fk" && hasPart(c, k.Parts, x.Name) {
			panic(ferr("Error 3780 (HY000): Referencing column '%s' and referenced column in foreign key constraint '%s' are incompatible.", x.Name, k.Name))
		}
	}
	for _, o := range c.Tables {
		for _, k := range o.Cons {
			if k.Kind == "fk" && k.Ref == t.Name {
				for _, rc := range k.RefCols {
					if c.eq(rc, x.Name) {
						panic(ferr("Error 3780 (HY000): Referencing column and referenced column '%s' in foreign key constraint '%s' are incompatible.", x.Name, k.Name))
					}
				}
			}
		}
	}
}

func (c *Catalog) dropColumn(t *Table, n string, ifExists bool) {
	x := c.col(t, n)
	if x == nil {
		if ifExists {
			return
		}
		if c.Dialect == MySQL {
			panic(ferr("Error 1091 (42000): Can't DROP '%s'; check that column/key exists", n))
		}
		c.mustCol(t, n)
	}
	for _, o := range c.Tables {
		for _, k := range o.Cons {
			if k.Kind != "fk" || k.Ref != t.Name {
				continue
			}
			for _, rc := range k.RefCols {
				if c.eq(rc, x.Name) && o != t {
					if c.Dialect == MySQL {
						panic(ferr("Error 1829 (HY000): Cannot drop column '%s': needed in a foreign key constraint '%s' of table '%s'", n, k.Name, o.Name))
					}
					panic(ferr("cannot drop column %s of table %s because other objects depend on it", n, base(t.Name)))
				}
			}
		}
	}
	var cons []*Constraint
	for _, k := range t.Cons {
		used := hasPart(c, k.Parts, x.Name)
		for _, id := range k.Expr.Idents() {
			if c.eq(id, x.Name) {
				used = true
			}
		}
		if !used {
			cons = append(cons, k)
			continue
		}
		switch c.Dialect {
		case MySQL:
			switch k.Kind {
			case "fk":
				panic(ferr("Error 1828 (HY000): Cannot drop column '%s': needed in a foreign key constraint '%s'", n, k.Name))
			case "check":
				if len(dedup(k.Expr.Idents())) == 1 {
					continue // a single-column check goes with its column
				}
				panic(ferr("Error 3959 (HY000): Check constraint '%s' uses column '%s', hence column cannot be dropped or renamed.", k.Name, n))
			case "pk":
				cp := *k
				cp.Parts = without(c, k.Parts, x.Name)
				if len(cp.Parts) > 0 {
					cons = append(cons, &cp)
				}
				continue
			}
		case Spanner:
			panic(ferr("Cannot drop column %s from table %s because it is used by %s.", n, t.Name, k.Name))
		case CRDB:
			if k.Kind == "pk" {
				panic(ferr("column %q is referenced by the primary key", n))
			}
		}
		// PostgreSQL: constraints involving the column are dropped with it
	}
	t.Cons = cons
	var idx []*Index
	for _, ix := range t.Idx {
		if !hasPart(c, ix.Parts, x.Name) {
			idx = append(idx, ix)
			continue
		}
		switch c.Dialect {
		case MySQL:
			cp := *ix
			cp.Parts = without(c, ix.Parts, x.Name)
			if len(cp.Parts) > 0 {
				idx = append(idx, &cp)
			}
		case Spanner:
			panic(ferr("Cannot drop column %s from table %s because it is used by index %s.", n, t.Name, ix.Name))
		}
	}
	t.Idx = idx
	if strings.HasPrefix(t.RowDel, x.Name+" ") {
		panic(ferr("Cannot drop column %s from table %s because it is used by the row deletion policy.", n, t.Name))
	}
	for i, y := range t.Cols {
		if y == x {
			t.Cols = append(t.Cols[:i:i], t.Cols[i+1:]...)
			break
		}
	}
	if len(t.Cols) == 0 && c.Dialect == MySQL {
		panic(ferr("Error 1090 (42000): You can't delete all columns with ALTER TABLE; use DROP TABLE instead"))
	}
	c.check(t)
}

func without(c *Catalog, ps []KeyPart, col string) []KeyPart {
	var out []KeyPart
	for _, p := range ps {
		if !c.eq(p.Col, col) {
			out = append(out, p)
		}
	}
	return out
}

// check enforces table-wide rules after a change.
func (c *Catalog) check(t *Table) {
	if c.Dialect != MySQL {
		return
	}
	for _, x := range t.Cols {
		x.saysNull = false
	}
	n := 0
	for _, x := range t.Cols {
		if !x.AutoInc {
			continue
		}
		n++
		if !c.uniqueOn(t, []string{x.Name}, true) {
			n = 2
		}
	}
	if n > 1 {
		panic(ferr("Error 1075 (42000): Incorrect table definition; there can be only one auto column and it must be defined as a key"))
	}
}
