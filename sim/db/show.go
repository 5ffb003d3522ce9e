package db

import (
	"fmt"
	"hash/crc32"
	"sort"
	"strconv"
	"strings"
)

// Print renders an expression the way the server's own dump does.
func (e *Expr) Print(d string) string {
	if e == nil {
		return ""
	}
	as := make([]string, len(e.Args))
	for i, a := range e.Args {
		as[i] = a.Print(d)
	}
	switch e.Op {
	case "id":
		if d == MySQL {
			return "`" + strings.ReplaceAll(e.S, "`", "``") + "`"
		}
		return quoteIfNeeded(d, e.S)
	case "str":
		s := "'" + strings.ReplaceAll(e.S, "'", "''") + "'"
		if d == MySQL {
			s = mysqlStr(e.S)
		}
		if d == CRDB {
			s += ":::STRING"
		}
		return s
	case "num":
		if d == CRDB {
			if strings.Contains(e.S, ".") {
				return e.S + ":::DECIMAL"
			}
			return e.S + ":::INT8"
		}
		return e.S
	case "null", "true", "false":
		if d == Postgres || d == CRDB {
			return e.Op
		}
		return strings.ToUpper(e.Op)
	case "kw":
		s := strings.ToUpper(e.S)
		if len(as) > 0 {
			s += "(" + as[0] + ")"
		}
		if d == CRDB {
			return strings.ToLower(s) + "():::TIMESTAMPTZ"
		}
		return s
	case "call":
		s := e.S
		if d == Spanner {
			s = strings.ToUpper(s)
		}
		s += "(" + strings.Join(as, ", ") + ")"
		if d == CRDB && (e.S == "now" || e.S == "current_timestamp") {
			s += ":::TIMESTAMPTZ"
		}
		return s
	case "un":
		if e.S == "-" {
			return "-" + as[0]
		}
		return "(" + strings.ToUpper(e.S) + " " + as[0] + ")"
	case "bin":
		n, o := "", e.S
		if e.Neg {
			n = "NOT "
		}
		if o == "and" || o == "or" || o == "like" {
			o = strings.ToUpper(o)
			if d == MySQL {
				o = strings.ToLower(o)
			}
		}
		return "(" + as[0] + " " + n + o + " " + as[1] + ")"
	case "cast":
		return as[0] + "::" + e.S
	case "isnull":
		if e.Neg {
			return "(" + as[0] + " IS NOT NULL)"
		}
		return "(" + as[0] + " IS NULL)"
	case "in":
		n := ""
		if e.Neg {
			n = "NOT "
		}
		return "(" + as[0] + " " + n + "IN (" + strings.Join(as[1:], ", ") + "))"
	case "between":
		return "(" + as[0] + " BETWEEN " + as[1] + " AND " + as[2] + ")"
	}
	return e.Canon(d)
}

func mysqlStr(s string) string {
	return "'" + strings.NewReplacer("'", "''", "\\", "\\\\", "\n", "\\n").Replace(s) + "'"
}

// QuoteName quotes a possibly qualified name where the dialect needs it.
func QuoteName(d, n string) string { return quoteName(d, n) }

func quoteIfNeeded(d, s string) string {
	plain := s != ""
	for i, r := range s {
		switch {
		case r == '_' || (r >= 'a' && r <= 'z'):
		case r >= 'A' && r <= 'Z':
			if d == Postgres || d == CRDB {
				plain = false
			}
		case r >= '0' && r <= '9' && i > 0:
		default:
			plain = false
		}
	}
	if plain && !reservedWords[strings.ToLower(s)] {
		return s
	}
	if d == MySQL || d == Spanner {
		return "`" + s + "`"
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

var reservedWords = map[string]bool{"table": true, "select": true, "order": true, "group": true, "user": true, "index": true, "check": true, "primary": true, "references": true, "unique": true, "constraint": true, "from": true, "where": true, "desc": true, "default": true, "column": true, "create": true}

func schemaOf(n string) string {
	if i := strings.Index(n, "."); i >= 0 {
		return n[:i]
	}
	return ""
}

func yesNo(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

func noAction(s string) string {
	if s == "" {
		return "NO ACTION"
	}
	return s
}

// infoTable materialises a catalogue view.
func (c *Catalog) infoTable(name string) (cols []string, rows [][]any) {
	n := strings.ToLower(name)
	switch c.Dialect {
	case Spanner:
		return c.infoSpanner(n, name)
	case MySQL:
		return c.infoMySQL(n, name)
	}
	return c.infoPG(n, name)
}

func (c *Catalog) infoMySQL(n, name string) (cols []string, rows [][]any) {
	switch n {
	case "information_schema.tables":
		cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE", "ENGINE", "TABLE_COMMENT"}
		rows = append(rows, []any{"def", "mysql", "user", "BASE TABLE", "InnoDB", ""}, []any{"def", "information_schema", "TABLES", "SYSTEM VIEW", nil, ""},
			[]any{"def", "other", "legacy_log", "BASE TABLE", "InnoDB", ""})
		for _, k := range c.Names() {
			t := c.Tables[k]
			rows = append(rows, []any{"def", "app", t.Name, "BASE TABLE", t.Opts["ENGINE"], t.Opts["COMMENT"]})
		}
		for _, v := range c.Views {
			rows = append(rows, []any{"def", "app", v, "VIEW", nil, "VIEW"})
		}
		return
	case "information_schema.columns":
		cols = []string{"TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_TYPE", "IS_NULLABLE", "COLUMN_DEFAULT", "COLUMN_COMMENT"}
		for _, k := range c.Names() {
			t := c.Tables[k]
			for i, x := range t.Cols {
				var def any
				if x.Def != nil && x.Def.Op != "null" {
					def = x.Def.Print(MySQL)
				}
				rows = append(rows, []any{"app", t.Name, x.Name, int64(i + 1), x.Type, yesNo(!x.NotNull), def, x.Comment})
			}
		}
		for _, v := range c.Views {
			rows = append(rows, []any{"app", v, "one", int64(1), "int", "NO", "0", ""})
		}
		return
	case "information_schema.statistics":
		cols = []string{"TABLE_SCHEMA", "TABLE_NAME", "NON_UNIQUE", "INDEX_NAME", "SEQ_IN_INDEX", "COLUMN_NAME"}
		for _, k := range c.Names() {
			t := c.Tables[k]
			add := func(n string, uniq bool, ps []KeyPart) {
				nu := int64(1)
				if uniq {
					nu = 0
				}
				for i, p := range ps {
					rows = append(rows, []any{"app", t.Name, nu, n, int64(i + 1), p.Col})
				}
			}
			if pk := t.con("pk"); pk != nil {
				add("PRIMARY", true, pk.Parts)
			}
			for _, ix := range t.Idx {
				add(ix.Name, ix.Unique, ix.Parts)
			}
		}
		return
	}
	panic(ferr("Error 1146 (42S02): Table '%s' doesn't exist", name))
}

func pgDataType(ty string) (string, any) {
	base, arg := ty, ""
	if i := strings.Index(ty, "("); i >= 0 {
		j := strings.Index(ty, ")")
		base, arg = ty[:i]+ty[j+1:], ty[i+1:j]
	}
	if strings.HasPrefix(base, "character") && arg != "" {
		n, _ := strconv.ParseInt(arg, 10, 64)
		return base, n
	}
	if strings.HasSuffix(ty, "[]") {
		return "ARRAY", nil
	}
	return base, nil
}

func pgTableOID(t *Table) int64 { return int64(16384 + t.ID) }

func pgConstraintOID(t *Table, i int) int64 { return int64(10000000 + t.ID*1000 + i) }

// pgConstraintDef is pg_get_constraintdef.
func (c *Catalog) pgConstraintDef(oid int64) any {
	for _, k := range c.Names() {
		t := c.Tables[k]
		for i, x := range t.Cons {
			if pgConstraintOID(t, i) != oid {
				continue
			}
			var cs []string
			for _, p := range x.Parts {
				cs = append(cs, p.Col)
			}
			s := ""
			switch x.Kind {
			case "pk":
				s = "PRIMARY KEY (" + c.colsText(cs) + ")"
			case "unique":
				s = "UNIQUE (" + c.colsText(cs) + ")"
			case "check":
				s = "CHECK (" + x.Expr.Print(c.Dialect) + ")"
			case "fk":
				s = "FOREIGN KEY (" + c.colsText(cs) + ") REFERENCES " + quoteIfNeeded(Postgres, base(x.Ref)) + "(" + c.colsText(x.RefCols) + ")"
				if x.OnUpdate != "" && x.OnUpdate != "NO ACTION" {
					s += " ON UPDATE " + x.OnUpdate
				}
				if x.OnDelete != "" && x.OnDelete != "NO ACTION" {
					s += " ON DELETE " + x.OnDelete
				}
			}
			if x.NotValid {
				s += " NOT VALID"
			}
			return s
		}
	}
	return nil
}

func (c *Catalog) infoPG(n, name string) (cols []string, rows [][]any) {
	switch n {
	case "information_schema.tables":
		cols = []string{"table_catalog", "table_schema", "table_name", "table_type"}
		rows = append(rows, []any{"app", "pg_catalog", "pg_class", "BASE TABLE"})
		for _, k := range c.Names() {
			rows = append(rows, []any{"app", schemaOf(k), base(k), "BASE TABLE"})
		}
		for _, v := range c.Views {
			rows = append(rows, []any{"app", "public", v, "VIEW"})
		}
		return
	case "information_schema.columns":
		cols = []string{"table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type", "character_maximum_length", "numeric_precision", "numeric_scale", "udt_name"}
		rows = append(rows, []any{"app", "pg_catalog", "pg_class", "oid", int64(1), nil, "NO", "oid", nil, nil, nil, "oid"},
			[]any{"app", "pg_catalog", "pg_class", "relname", int64(2), nil, "NO", "name", nil, nil, nil, "name"})
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cols {
				if x.Hidden {
					continue
				}
				dt, ml := pgDataType(x.Type)
				var def, prec, scale any
				if x.Def != nil {
					def = x.Def.Print(c.Dialect)
				}
				if strings.HasPrefix(x.Type, "numeric(") {
					a := strings.Split(strings.TrimSuffix(x.Type[8:], ")"), ",")
					p, _ := strconv.ParseInt(a[0], 10, 64)
					prec, scale = p, int64(0)
					if len(a) > 1 {
						s, _ := strconv.ParseInt(a[1], 10, 64)
						scale = s
					}
				}
				// identities grow as columns are added, so they order columns as attnum does
				rows = append(rows, []any{"app", schemaOf(k), base(k), x.Name, int64(x.ID - c.Tables[k].ID), def, yesNo(!x.NotNull), dt, ml, prec, scale, dt})
			}
		}
		for _, v := range c.Views {
			rows = append(rows, []any{"app", "public", v, "one", int64(1), nil, "YES", "integer", nil, int64(32), int64(0), "int4"})
		}
		return
	case "information_schema.table_constraints":
		cols = []string{"constraint_schema", "constraint_name", "table_schema", "table_name", "constraint_type"}
		for _, k := range c.Names() {
			t := c.Tables[k]
			for _, x := range t.Cons {
				ty := map[string]string{"pk": "PRIMARY KEY", "unique": "UNIQUE", "fk": "FOREIGN KEY", "check": "CHECK"}[x.Kind]
				rows = append(rows, []any{schemaOf(k), x.Name, schemaOf(k), base(k), ty})
			}
			for i, x := range t.Cols {
				if x.NotNull {
					rows = append(rows, []any{schemaOf(k), fmt.Sprintf("2200_%d_%d_not_null", 16384+t.ID, i+1), schemaOf(k), base(k), "CHECK"})
				}
			}
		}
		return
	case "information_schema.key_column_usage":
		cols = []string{"constraint_schema", "constraint_name", "table_schema", "table_name", "column_name", "ordinal_position", "position_in_unique_constraint"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				if x.Kind == "check" {
					continue
				}
				for i, p := range x.Parts {
					rows = append(rows, []any{schemaOf(k), x.Name, schemaOf(k), base(k), p.Col, int64(i + 1), int64(i + 1)})
				}
			}
		}
		return
	case "information_schema.constraint_column_usage":
		cols = []string{"table_schema", "table_name", "column_name", "constraint_schema", "constraint_name"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				switch x.Kind {
				case "fk":
					for _, rc := range x.RefCols {
						rows = append(rows, []any{schemaOf(x.Ref), base(x.Ref), rc, schemaOf(k), x.Name})
					}
				case "check":
					for _, id := range dedup(x.Expr.Idents()) {
						rows = append(rows, []any{schemaOf(k), base(k), id, schemaOf(k), x.Name})
					}
				default:
					for _, p := range x.Parts {
						rows = append(rows, []any{schemaOf(k), base(k), p.Col, schemaOf(k), x.Name})
					}
				}
			}
		}
		return
	case "information_schema.check_constraints":
		cols = []string{"constraint_schema", "constraint_name", "check_clause"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				if x.Kind == "check" {
					rows = append(rows, []any{schemaOf(k), x.Name, x.Expr.Print(c.Dialect)})
				}
			}
		}
		return
	case "information_schema.referential_constraints":
		cols = []string{"constraint_schema", "constraint_name", "unique_constraint_schema", "unique_constraint_name", "update_rule", "delete_rule"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				if x.Kind == "fk" {
					rows = append(rows, []any{schemaOf(k), x.Name, schemaOf(x.Ref), base(x.Ref) + "_pkey", noAction(x.OnUpdate), noAction(x.OnDelete)})
				}
			}
		}
		return
	case "pg_class", "pg_catalog.pg_class":
		cols = []string{"oid", "relname", "relnamespace", "relkind"}
		rows = append(rows, []any{int64(1259), "pg_class", int64(11), "r"})
		for _, k := range c.Names() {
			rows = append(rows, []any{pgTableOID(c.Tables[k]), base(k), int64(2200), "r"})
		}
		for i, v := range c.Views {
			rows = append(rows, []any{int64(9000000 + i), v, int64(2200), "v"})
		}
		return
	case "pg_namespace", "pg_catalog.pg_namespace":
		cols = []string{"oid", "nspname"}
		rows = append(rows, []any{int64(11), "pg_catalog"}, []any{int64(2200), "public"})
		return
	case "pg_constraint", "pg_catalog.pg_constraint":
		cols = []string{"oid", "conname", "connamespace", "contype", "conrelid", "confrelid"}
		rows = append(rows, []any{int64(100), "pg_proc_oid_index", int64(11), "p", int64(1255), int64(0)})
		for _, k := range c.Names() {
			t := c.Tables[k]
			for i, x := range t.Cons {
				ref := int64(0)
				if r := c.Tables[x.Ref]; x.Kind == "fk" && r != nil {
					ref = pgTableOID(r)
				}
				rows = append(rows, []any{pgConstraintOID(t, i), x.Name, int64(2200), map[string]string{"pk": "p", "unique": "u", "fk": "f", "check": "c"}[x.Kind], pgTableOID(t), ref})
			}
			for i, x := range t.Cols {
				if x.NotNull { // PostgreSQL 18
					rows = append(rows, []any{pgConstraintOID(t, 500+i), base(k) + "_" + x.Name + "_not_null", int64(2200), "n", pgTableOID(t), int64(0)})
				}
			}
		}
		return
	case "pg_indexes", "pg_catalog.pg_indexes":
		cols = []string{"schemaname", "tablename", "indexname", "tablespace", "indexdef"}
		rows = append(rows, []any{"pg_catalog", "pg_class", "pg_class_oid_index", nil, "CREATE UNIQUE INDEX pg_class_oid_index ON pg_catalog.pg_class USING btree (oid)"})
		for _, k := range c.Names() {
			t := c.Tables[k]
			add := func(name string, uniq bool, using string, ps []KeyPart) {
				u := ""
				if uniq {
					u = "UNIQUE "
				}
				if using == "" {
					using = "btree"
				}
				var s []string
				for _, p := range ps {
					x := quoteIfNeeded(Postgres, p.Col)
					if p.Desc {
						x += " DESC"
					}
					s = append(s, x)
				}
				rows = append(rows, []any{schemaOf(k), base(k), name, nil,
					fmt.Sprintf("CREATE %sINDEX %s ON %s.%s USING %s (%s)", u, quoteIfNeeded(Postgres, name), schemaOf(k), quoteIfNeeded(Postgres, base(k)), using, strings.Join(s, ", "))})
			}
			for _, x := range t.Cons {
				if x.Kind == "pk" || x.Kind == "unique" {
					add(x.Name, true, "", x.Parts)
				}
			}
			for _, ix := range t.Idx {
				add(ix.Name, ix.Unique, ix.Using, ix.Parts)
			}
		}
		return
	}
	panic(ferr("relation %q does not exist", name))
}

func asc(d bool) string {
	if d {
		return "DESC"
	}
	return "ASC"
}

func (c *Catalog) infoSpanner(n, name string) (cols []string, rows [][]any) {
	switch n {
	case "information_schema.tables":
		cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE", "PARENT_TABLE_NAME", "ON_DELETE_ACTION", "ROW_DELETION_POLICY_EXPRESSION"}
		rows = append(rows, []any{"", "INFORMATION_SCHEMA", "TABLES", "VIEW", nil, nil, nil}, []any{"", "SPANNER_SYS", "QUERY_STATS_TOP_HOUR", "VIEW", nil, nil, nil})
		for _, k := range c.Names() {
			t := c.Tables[k]
			var par, del, ttl any
			if t.Parent != "" {
				par, del = t.Parent, noAction(t.ParDel)
			}
			if t.RowDel != "" {
				f := strings.Fields(t.RowDel)
				ttl = fmt.Sprintf("OLDER_THAN(%s, INTERVAL %s DAY)", f[0], f[1])
			}
			rows = append(rows, []any{"", "", t.Name, "BASE TABLE", par, del, ttl})
		}
		for _, v := range c.Views {
			rows = append(rows, []any{"", "", v, "VIEW", nil, nil, nil})
		}
		return
	case "information_schema.columns":
		cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_DEFAULT", "IS_NULLABLE", "SPANNER_TYPE", "IS_GENERATED", "GENERATION_EXPRESSION"}
		rows = append(rows, []any{"", "INFORMATION_SCHEMA", "TABLES", "TABLE_NAME", int64(1), nil, "NO", "STRING(MAX)", "NEVER", nil})
		for _, k := range c.Names() {
			t := c.Tables[k]
			for i, x := range t.Cols {
				var def any
				if x.HasDef {
					def = x.DefRaw
				}
				rows = append(rows, []any{"", "", t.Name, x.Name, int64(i + 1), def, yesNo(!x.NotNull), x.Type, "NEVER", nil})
			}
		}
		for _, v := range c.Views {
			rows = append(rows, []any{"", "", v, "one", int64(1), nil, "YES", "INT64", "NEVER", nil})
		}
		return
	case "information_schema.column_options":
		cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "OPTION_NAME", "OPTION_TYPE", "OPTION_VALUE"}
		for _, k := range c.Names() {
			t := c.Tables[k]
			for _, x := range t.Cols {
				for _, o := range sortedKeys(x.Opts) {
					rows = append(rows, []any{"", "", t.Name, x.Name, o, "BOOL", strings.ToUpper(x.Opts[o])})
				}
			}
		}
		return
	case "information_schema.indexes":
		cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "INDEX_NAME", "INDEX_TYPE", "PARENT_TABLE_NAME", "IS_UNIQUE", "IS_NULL_FILTERED", "INDEX_STATE", "SPANNER_IS_MANAGED"}
		for _, k := range c.Names() {
			t := c.Tables[k]
			rows = append(rows, []any{"", "", t.Name, "PRIMARY_KEY", "PRIMARY_KEY", "", true, false, nil, false})
			for _, ix := range t.Idx {
				rows = append(rows, []any{"", "", t.Name, ix.Name, "INDEX", "", ix.Unique, ix.NullFilt, "READ_WRITE", false})
			}
		}
		for _, m := range c.managedIndexes() {
			rows = append(rows, []any{"", "", m.table, m.name, "INDEX", "", m.unique, true, "READ_WRITE", true})
		}
		return
	case "information_schema.index_columns":
		cols = []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "INDEX_NAME", "INDEX_TYPE", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_ORDERING", "IS_NULLABLE", "SPANNER_TYPE"}
		for _, k := range c.Names() {
			t := c.Tables[k]
			add := func(n, ty string, ps []KeyPart) {
				for i, p := range ps {
					x := c.col(t, p.Col)
					rows = append(rows, []any{"", "", t.Name, n, ty, x.Name, int64(i + 1), asc(p.Desc), yesNo(!x.NotNull), x.Type})
				}
			}
			if pk := t.con("pk"); pk != nil {
				add("PRIMARY_KEY", "PRIMARY_KEY", pk.Parts)
			}
			for _, ix := range t.Idx {
				add(ix.Name, "INDEX", ix.Parts)
			}
			for _, m := range c.managedIndexes() {
				if m.table == t.Name {
					add(m.name, "INDEX", parts(m.cols))
				}
			}
		}
		return
	case "information_schema.table_constraints":
		cols = []string{"CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "TABLE_SCHEMA", "TABLE_NAME", "CONSTRAINT_TYPE"}
		for _, k := range c.Names() {
			t := c.Tables[k]
			for _, x := range t.Cons {
				ty := map[string]string{"pk": "PRIMARY KEY", "fk": "FOREIGN KEY", "check": "CHECK"}[x.Kind]
				nm := x.Name
				if x.Kind == "pk" {
					nm = "PK_" + t.Name
				}
				rows = append(rows, []any{"", nm, "", t.Name, ty})
			}
			for _, x := range t.Cols {
				if x.NotNull {
					rows = append(rows, []any{"", "CK_IS_NOT_NULL_" + t.Name + "_" + x.Name, "", t.Name, "CHECK"})
				}
			}
			for _, m := range c.managedIndexes() {
				if m.table == t.Name && m.unique {
					rows = append(rows, []any{"", m.name, "", t.Name, "UNIQUE"})
				}
			}
		}
		return
	case "information_schema.referential_constraints":
		cols = []string{"CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "UNIQUE_CONSTRAINT_SCHEMA", "UNIQUE_CONSTRAINT_NAME", "MATCH_OPTION", "UPDATE_RULE", "DELETE_RULE", "SPANNER_STATE"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				if x.Kind == "fk" {
					rows = append(rows, []any{"", x.Name, "", c.spannerRefKey(x), "SIMPLE", "NO ACTION", noAction(x.OnDelete), "COMMITTED"})
				}
			}
		}
		return
	case "information_schema.check_constraints":
		cols = []string{"CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "CHECK_CLAUSE", "SPANNER_STATE"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				if x.Kind == "check" {
					// the clause as it was written
					rows = append(rows, []any{"", x.Name, x.Raw, "COMMITTED"})
				}
			}
			for _, x := range c.Tables[k].Cols {
				if x.NotNull {
					rows = append(rows, []any{"", "CK_IS_NOT_NULL_" + c.Tables[k].Name + "_" + x.Name, quoteIfNeeded(Spanner, x.Name) + " IS NOT NULL", "COMMITTED"})
				}
			}
		}
		return
	case "information_schema.key_column_usage":
		cols = []string{"CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "POSITION_IN_UNIQUE_CONSTRAINT"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				if x.Kind == "check" {
					continue
				}
				nm := x.Name
				if x.Kind == "pk" {
					nm = "PK_" + k
				}
				for i, p := range x.Parts {
					var pos any
					if x.Kind == "fk" {
						pos = int64(c.spannerRefPos(x, i))
					}
					rows = append(rows, []any{"", nm, "", k, p.Col, int64(i + 1), pos})
				}
			}
		}
		for _, m := range c.managedIndexes() {
			if m.unique {
				for i, n := range m.cols {
					rows = append(rows, []any{"", m.name, "", m.table, n, int64(i + 1), nil})
				}
			}
		}
		return
	case "information_schema.constraint_column_usage":
		cols = []string{"TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "CONSTRAINT_SCHEMA", "CONSTRAINT_NAME"}
		for _, k := range c.Names() {
			for _, x := range c.Tables[k].Cons {
				if x.Kind == "fk" {
					for _, rc := range x.RefCols {
						rows = append(rows, []any{"", x.Ref, rc, "", x.Name})
					}
				}
			}
		}
		return
	}
	panic(ferr("Table not found: %s", name))
}

func (c *Catalog) show(p *parser) *Result {
	p.mustKw("show", "create")
	end := func() {
		p.op(";")
		if p.cur().k != tEOF {
			p.fail("end of statement")
		}
	}
	switch {
	case c.Dialect == MySQL && p.kw("table"):
		n := p.qname()
		end()
		if c.isView(n) {
			return &Result{[]string{"View", "Create View", "character_set_client", "collation_connection"}, [][]any{{n, "CREATE ALGORITHM=UNDEFINED DEFINER=`root`@`%` SQL SECURITY DEFINER VIEW `" + n + "` AS select 1 AS `one`", "utf8mb4", "utf8mb4_0900_ai_ci"}}}
		}
		t := c.mustTable(n)
		return &Result{[]string{"Table", "Create Table"}, [][]any{{t.Name, c.CreateTable(t)}}}
	case c.Dialect == CRDB && p.kw("all", "tables"):
		end()
		var rows [][]any
		var fks [][]any
		names := c.Names()
		// the server sorts the tables by id (order of creation) before putting dependencies first
		sort.Slice(names, func(i, j int) bool { return c.Tables[names[i]].ID < c.Tables[names[j]].ID })
		for _, n := range names {
			t := c.Tables[n]
			rows = append(rows, []any{c.CreateTable(t)})
			for _, k := range t.Cons {
				if k.Kind == "fk" {
					fks = append(fks, []any{"ALTER TABLE " + quoteName(CRDB, n) + " ADD " + c.constraintText(k) + ";"})
				}
			}
		}
		rows = append(rows, fks...)
		if len(fks) > 0 {
			rows = append(rows, []any{"-- Validate foreign key constraints. These can fail if there was unvalidated data during the SHOW CREATE ALL TABLES"})
			for _, n := range names {
				for _, k := range c.Tables[n].Cons {
					if k.Kind == "fk" {
						rows = append(rows, []any{"ALTER TABLE " + quoteName(CRDB, n) + " VALIDATE CONSTRAINT " + quoteIfNeeded(CRDB, k.Name) + ";"})
					}
				}
			}
		}
		return &Result{[]string{"create_statement"}, rows}
	case c.Dialect == CRDB && p.kw("table"):
		n := p.qname()
		end()
		t := c.mustTable(n)
		return &Result{[]string{"table_name", "create_statement"}, [][]any{{t.Name, c.CreateTable(t)}}}
	}
	p.fail("TABLE")
	return nil
}

func quoteName(d, n string) string {
	if s := schemaOf(n); s != "" {
		return quoteIfNeeded(d, s) + "." + quoteIfNeeded(d, base(n))
	}
	return quoteIfNeeded(d, n)
}

func (c *Catalog) q(s string) string {
	if c.Dialect == MySQL {
		return "`" + strings.ReplaceAll(s, "`", "``") + "`"
	}
	return quoteIfNeeded(c.Dialect, s)
}

func (c *Catalog) partsText(ps []KeyPart) string {
	var s []string
	for _, p := range ps {
		x := c.q(p.Col)
		switch {
		case p.Desc:
			x += " DESC"
		case c.Dialect == CRDB:
			x += " ASC"
		}
		s = append(s, x)
	}
	sep := ", "
	if c.Dialect == MySQL {
		sep = ","
	}
	return strings.Join(s, sep)
}

func (c *Catalog) colsText(cs []string) string {
	var s []string
	for _, x := range cs {
		s = append(s, c.q(x))
	}
	return strings.Join(s, ", ")
}

func (c *Catalog) constraintText(k *Constraint) string {
	s := "CONSTRAINT " + c.q(k.Name) + " "
	switch k.Kind {
	case "pk":
		if c.Dialect == MySQL {
			return "PRIMARY KEY (" + c.partsText(k.Parts) + ")"
		}
		return s + "PRIMARY KEY (" + c.partsText(k.Parts) + ")"
	case "unique":
		return s + "UNIQUE (" + c.partsText(k.Parts) + ")"
	case "check":
		if c.Dialect == MySQL {
			return s + "CHECK (" + k.Expr.Print(c.Dialect) + ")"
		}
		return s + "CHECK " + k.Expr.Print(c.Dialect)
	}
	var cs []string
	for _, p := range k.Parts {
		cs = append(cs, p.Col)
	}
	ref := c.q(base(k.Ref))
	if c.Dialect == CRDB {
		ref = quoteName(CRDB, k.Ref)
		s += "FOREIGN KEY (" + c.colsText(cs) + ") REFERENCES " + ref + "(" + c.colsText(k.RefCols) + ")"
	} else {
		s += "FOREIGN KEY (" + c.colsText(cs) + ") REFERENCES " + ref + " (" + c.colsText(k.RefCols) + ")"
	}
	if k.OnDelete != "" {
		s += " ON DELETE " + k.OnDelete
	}
	if k.OnUpdate != "" {
		s += " ON UPDATE " + k.OnUpdate
	}
	if k.NotValid {
		s += " NOT VALID"
	}
	return s
}

// CreateTable prints a table the way SHOW CREATE does (MySQL and CockroachDB).
func (c *Catalog) CreateTable(t *Table) string {
	var ls []string
	str := mysqlStr
	if c.Dialect == MySQL {
		for _, x := range t.Cols {
			s := c.q(x.Name) + " " + x.Type
			if x.Charset != "" && (x.Charset != t.Opts["CHARSET"] || x.Collate != t.Opts["COLLATE"] || true) {
				s += " CHARACTER SET " + x.Charset
				if x.Collate != "" {
					s += " COLLATE " + x.Collate
				}
			}
			if x.NotNull {
				s += " NOT NULL"
			} else if strings.HasPrefix(x.Type, "timestamp") {
				s += " NULL"
			}
			if x.HasDef && x.Def != nil {
				switch x.Def.Op {
				case "null", "str", "kw":
					if x.Def.Op == "str" && strings.HasPrefix(x.Type, "bit") {
						s += " DEFAULT b" + str(x.Def.S)
					} else {
						s += " DEFAULT " + x.Def.Print(MySQL)
					}
				default:
					d := x.Def.Print(MySQL)
					if !strings.HasPrefix(d, "(") {
						d = "(" + d + ")"
					}
					s += " DEFAULT " + d
				}
			}
			if x.OnUpdate != "" {
				s += " ON UPDATE " + strings.ToUpper(x.OnUpdate)
			}
			if x.AutoInc {
				s += " AUTO_INCREMENT"
			}
			if x.Comment != "" {
				s += " COMMENT " + str(x.Comment)
			}
			ls = append(ls, "  "+s)
		}
		if pk := t.con("pk"); pk != nil {
			ls = append(ls, "  "+c.constraintText(pk))
		}
		for _, uniq := range []bool{true, false} {
			for _, ix := range t.Idx {
				if ix.Unique != uniq {
					continue
				}
				s := "  KEY "
				if uniq {
					s = "  UNIQUE KEY "
				}
				ls = append(ls, s+c.q(ix.Name)+" ("+c.partsText(ix.Parts)+")")
			}
		}
		for _, kind := range []string{"fk", "check"} {
			var ks []*Constraint
			for _, k := range t.Cons {
				if k.Kind == kind {
					ks = append(ks, k)
				}
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].Name < ks[j].Name })
			for _, k := range ks {
				ls = append(ls, "  "+c.constraintText(k))
			}
		}
		s := "CREATE TABLE " + c.q(t.Name) + " (\n" + strings.Join(ls, ",\n") + "\n) ENGINE=" + t.Opts["ENGINE"]
		if t.Opts["AUTO_INCREMENT"] != "" {
			s += " AUTO_INCREMENT=" + t.Opts["AUTO_INCREMENT"]
		}
		s += " DEFAULT CHARSET=" + t.Opts["CHARSET"]
		if t.Opts["COLLATE"] != "" {
			s += " COLLATE=" + t.Opts["COLLATE"]
		}
		if t.Opts["ROW_FORMAT"] != "" {
			s += " ROW_FORMAT=" + t.Opts["ROW_FORMAT"]
		}
		if t.Opts["COMMENT"] != "" {
			s += " COMMENT=" + str(t.Opts["COMMENT"])
		}
		return s
	}
	// CockroachDB
	for _, x := range t.Cols {
		s := c.q(x.Name) + " " + x.Type
		if x.Hidden {
			s += " NOT VISIBLE"
		}
		if x.NotNull {
			s += " NOT NULL"
		} else {
			s += " NULL"
		}
		if x.HasDef && x.Def != nil {
			s += " DEFAULT " + x.Def.Print(CRDB)
		}
		if x.Gen != "" {
			i := strings.LastIndex(x.Gen, " ")
			s += " AS (" + x.Gen[:i] + ")" + x.Gen[i:]
		}
		ls = append(ls, "\t"+s)
	}
	if pk := t.con("pk"); pk != nil {
		ls = append(ls, "\t"+c.constraintText(pk))
	}
	for _, ix := range t.Idx {
		s := "\tINDEX "
		if ix.Unique {
			s = "\tUNIQUE INDEX "
		}
		s += c.q(ix.Name) + " (" + c.partsText(ix.Parts) + ")"
		if ix.Using == "hash" {
			s += " USING HASH"
			if ix.Buckets != "" {
				s += " WITH (bucket_count=" + ix.Buckets + ")"
			}
		}
		ls = append(ls, s)
	}
	for _, k := range t.Cons {
		if k.Kind == "check" || k.Kind == "unique" {
			ls = append(ls, "\t"+c.constraintText(k))
		}
	}
	s := "CREATE TABLE " + quoteName(CRDB, t.Name) + " (\n" + strings.Join(ls, ",\n") + "\n)"
	if len(t.Opts) > 0 {
		var os []string
		for _, k := range sortedKeys(t.Opts) {
			os = append(os, k+" = "+t.Opts[k])
		}
		s += " WITH (" + strings.Join(os, ", ") + ")"
	}
	return s + ";"
}

// Spanner backs foreign keys with indexes it manages itself: a unique one on
// the referenced columns where they are not the primary key, and one on the
// referencing columns. They are listed, but are not part of the schema.
type managed struct {
	table, name string
	cols        []string
	unique      bool
}

func (c *Catalog) spannerRefIsPK(k *Constraint) bool {
	pk := c.Tables[k.Ref].con("pk")
	if pk == nil || len(pk.Parts) != len(k.RefCols) {
		return false
	}
	for _, p := range pk.Parts {
		found := false
		for _, n := range k.RefCols {
			found = found || strings.EqualFold(n, p.Col)
		}
		if !found {
			return false
		}
	}
	return true
}

func (c *Catalog) spannerRefKey(k *Constraint) string {
	if c.spannerRefIsPK(k) {
		return "PK_" + k.Ref
	}
	return managedName(k.Ref, k.RefCols, "_U")
}

// spannerRefPos is the place, in the referenced key, of what column i refers to.
func (c *Catalog) spannerRefPos(k *Constraint, i int) int {
	if c.spannerRefIsPK(k) {
		for j, p := range c.Tables[k.Ref].con("pk").Parts {
			if strings.EqualFold(p.Col, k.RefCols[i]) {
				return j + 1
			}
		}
	}
	return i + 1
}

func managedName(t string, cols []string, u string) string {
	n := "IDX_" + t + "_" + strings.Join(cols, "_") + u
	return fmt.Sprintf("%s_%08X", n, crc32.ChecksumIEEE([]byte(n)))
}

func (c *Catalog) managedIndexes() (ms []managed) {
	seen := map[string]bool{}
	add := func(m managed) {
		if !seen[m.name] {
			seen[m.name] = true
			ms = append(ms, m)
		}
	}
	for _, n := range c.Names() {
		t := c.Tables[n]
		for _, k := range t.Cons {
			if k.Kind != "fk" || c.Tables[k.Ref] == nil {
				continue
			}
			if !c.spannerRefIsPK(k) {
				add(managed{k.Ref, managedName(k.Ref, k.RefCols, "_U"), k.RefCols, true})
			}
			var cols []string
			for _, p := range k.Parts {
				cols = append(cols, p.Col)
			}
			add(managed{t.Name, managedName(t.Name, cols, "_N"), cols, false})
		}
	}
	return ms
}
