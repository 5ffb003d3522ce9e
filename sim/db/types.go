package db

import (
	"strconv"
	"strings"
)

func (p *parser) args() (out []string, ok bool) {
	if !p.op("(") {
		return nil, false
	}
	for {
		t := p.cur()
		if t.k != tNum || strings.Contains(t.s, ".") {
			p.fail("number")
		}
		out = append(out, t.s)
		p.i++
		if !p.op(",") {
			break
		}
	}
	p.mustOp(")")
	return out, true
}

func (p *parser) len1() string {
	a, ok := p.args()
	if !ok {
		return ""
	}
	if len(a) != 1 {
		p.fail("one length")
	}
	return "(" + a[0] + ")"
}

func (p *parser) len1req() string {
	s := p.len1()
	if s == "" {
		p.fail("length")
	}
	return s
}

// parseType returns the canonical type as the dialect's own dump prints it; the second result names what was expected.
func (p *parser) parseType() (string, string) {
	t := p.cur()
	if t.k != tIdent {
		return "", "type"
	}
	w := strings.ToLower(t.s)
	switch p.d {
	case MySQL:
		return p.mysqlType(w)
	case Spanner:
		return p.spannerType(strings.ToUpper(t.s))
	}
	p.i++
	zone := func(base string) string {
		n := p.len1()
		switch {
		case p.kw("with", "time", "zone"):
			return base + n + " with time zone"
		case p.kw("without", "time", "zone"):
		}
		return base + n + " without time zone"
	}
	crdb := p.d == CRDB
	sel := func(pg, cr string) string {
		if crdb {
			return cr
		}
		return pg
	}
	dec := func() string {
		a, ok := p.args()
		switch {
		case !ok:
			return ""
		case len(a) == 1:
			if crdb {
				return "(" + a[0] + ")"
			}
			return "(" + a[0] + ",0)"
		case len(a) == 2:
			return "(" + a[0] + "," + a[1] + ")"
		}
		p.fail("precision")
		return ""
	}
	r := ""
	switch w {
	case "bool", "boolean":
		r = sel("boolean", "BOOL")
	case "smallint", "int2":
		r = sel("smallint", "INT2")
	case "int4":
		r = sel("integer", "INT4")
	case "int", "integer":
		r = sel("integer", "INT8")
	case "bigint", "int8":
		r = sel("bigint", "INT8")
	case "int64":
		if !crdb {
			p.i--
			return "", "type"
		}
		r = "INT8"
	case "numeric", "decimal", "dec":
		r = sel("numeric", "DECIMAL") + dec()
	case "real", "float4":
		r = sel("real", "FLOAT4")
	case "double":
		p.mustKw("precision")
		r = sel("double precision", "FLOAT8")
	case "float8", "float":
		r = sel("double precision", "FLOAT8")
	case "uuid":
		r = sel("uuid", "UUID")
	case "json":
		r = sel("json", "JSONB")
	case "jsonb":
		r = sel("jsonb", "JSONB")
	case "text":
		r = sel("text", "STRING")
	case "string":
		if !crdb {
			p.i--
			return "", "type"
		}
		r = "STRING" + p.len1()
	case "varchar":
		r = sel("character varying", "VARCHAR") + p.len1()
	case "character":
		if p.kw("varying") {
			r = sel("character varying", "VARCHAR") + p.len1()
		} else {
			n := p.len1()
			if n == "" {
				n = sel("(1)", "")
			}
			r = sel("character", "CHAR") + n
		}
	case "char":
		n := p.len1()
		if n == "" {
			n = sel("(1)", "")
		}
		r = sel("character", "CHAR") + n
	case "timestamptz":
		r = sel("timestamp"+p.len1()+" with time zone", "TIMESTAMPTZ"+p.len1())
	case "timestamp":
		z := zone("timestamp")
		r = z
		if crdb {
			r = "TIMESTAMP"
			if strings.HasSuffix(z, "with time zone") {
				r = "TIMESTAMPTZ"
			}
		}
	case "time":
		r = zone("time")
		if crdb {
			r = "TIME"
		}
	case "date":
		r = sel("date", "DATE")
	case "interval":
		r = sel("interval", "INTERVAL")
	case "bytea", "bytes":
		r = sel("bytea", "BYTES")
	case "serial", "serial4":
		r = sel("integer", "INT8") + "!serial"
	case "bigserial", "serial8":
		r = sel("bigint", "INT8") + "!serial"
	case "smallserial", "serial2":
		r = sel("smallint", "INT8") + "!serial"
	case "regclass":
		r = "regclass"
	default:
		p.i--
		return "", "type"
	}
	for p.isOp("[") {
		p.i++
		p.mustOp("]")
		r += "[]"
	}
	return r, ""
}

func (p *parser) mysqlType(w string) (string, string) {
	p.i++
	dec := func(name string) string {
		a, ok := p.args()
		if !ok {
			a = []string{"10", "0"}
		}
		if len(a) == 1 {
			a = append(a, "0")
		}
		if len(a) != 2 {
			p.fail("precision")
		}
		x, _ := strconv.Atoi(a[0])
		y, _ := strconv.Atoi(a[1])
		if x < y || x > 65 {
			panic(sqlErr("Error 1427 (42000): For float(M,D), double(M,D) or decimal(M,D), M must be >= D"))
		}
		return name + "(" + a[0] + "," + a[1] + ")"
	}
	uns := func(s string) string {
		if p.kw("unsigned") {
			return s + " unsigned"
		}
		p.kw("signed")
		return s
	}
	switch w {
	case "tinyint":
		n := p.len1()
		if n != "(1)" {
			n = ""
		}
		return uns("tinyint" + n), ""
	case "bool", "boolean":
		return "tinyint(1)", ""
	case "smallint", "mediumint", "bigint":
		p.len1()
		return uns(w), ""
	case "int", "integer":
		p.len1()
		return uns("int"), ""
	case "decimal", "numeric", "dec", "fixed":
		return uns(dec("decimal")), ""
	case "float":
		p.args()
		return uns("float"), ""
	case "double":
		p.kw("precision")
		if a, ok := p.args(); ok && len(a) == 2 {
			return uns("double(" + a[0] + "," + a[1] + ")"), ""
		}
		return uns("double"), ""
	case "real":
		return uns("double"), ""
	case "bit":
		n := p.len1()
		if n == "" {
			n = "(1)"
		}
		return "bit" + n, ""
	case "char", "character", "nchar":
		if w == "character" && p.kw("varying") {
			return "varchar" + p.len1req(), ""
		}
		n := p.len1()
		if n == "" {
			n = "(1)"
		}
		return "char" + n, ""
	case "varchar", "varbinary":
		return w + p.len1req(), ""
	case "binary":
		n := p.len1()
		if n == "" {
			n = "(1)"
		}
		return "binary" + n, ""
	case "text", "blob":
		p.len1()
		return w, ""
	case "tinytext", "mediumtext", "longtext", "tinyblob", "mediumblob", "longblob", "json", "date", "year":
		return w, ""
	case "time", "datetime", "timestamp":
		n := p.len1()
		if n == "(0)" {
			n = ""
		}
		return w + n, ""
	case "serial":
		return "bigint unsigned!serial", ""
	case "enum", "set":
		p.mustOp("(")
		var vs []string
		for {
			if p.cur().k != tStr {
				p.fail("string")
			}
			vs = append(vs, "'"+strings.ReplaceAll(p.cur().s, "'", "''")+"'")
			p.i++
			if !p.op(",") {
				break
			}
		}
		p.mustOp(")")
		return w + "(" + strings.Join(vs, ",") + ")", ""
	}
	p.i--
	return "", "type"
}

func (p *parser) spannerType(w string) (string, string) {
	p.i++
	switch w {
	case "BOOL", "INT64", "FLOAT64", "FLOAT32", "NUMERIC", "JSON", "DATE", "TIMESTAMP":
		return w, ""
	case "STRING", "BYTES":
		p.mustOp("(")
		t := p.cur()
		var n string
		switch {
		case t.k == tNum && !strings.Contains(t.s, "."):
			n = t.s
		case p.isKw("max"):
			n = "MAX"
		default:
			p.fail("length")
		}
		p.i++
		p.mustOp(")")
		return w + "(" + n + ")", ""
	case "ARRAY":
		p.mustOp("<")
		in, e := p.parseType()
		if e != "" {
			return in, e
		}
		p.mustOp(">")
		return "ARRAY<" + in + ">", ""
	}
	p.i--
	return "", "type"
}
