package gen

import (
	"fmt"
	"go/token"
	"strconv"
	"strings"

	"verifsim/db"
)

// GoStyle decides how annotated source is laid out.
type GoStyle struct {
	Files    int  `json:"files,omitempty"` // spread over this many files (and subdirectories)
	FullStmt bool `json:"full,omitempty"`  // annotations carry CREATE TABLE / CREATE INDEX
	Block    bool `json:"block,omitempty"` // annotations in a block comment
	Extra    bool `json:"extra,omitempty"` // untagged fields, ignored fields, unannotated structs, test files
	Group    bool `json:"group,omitempty"` // type ( ... ) groups
	Plain    bool `json:"plain,omitempty"` // fields without any tag, embedded fields
	Nested   bool `json:"nested,omitempty"`
	Interp   bool `json:"interp,omitempty"` // tags as interpreted string literals
	Multi    bool `json:"multi,omitempty"`  // all types of a file in one type ( ... ) group, each with its own comment
	Local    bool `json:"local,omitempty"`  // types declared inside a function
	CRLF     bool `json:"crlf,omitempty"`
	Build    bool `json:"build,omitempty"`    // a build constraint, a package comment, an odd directory name
	InBlock  bool `json:"in_block,omitempty"` // the annotations themselves in a block comment
	Others   bool `json:"others,omitempty"`   // annotations of other tags and sentences that look like annotations
	Spacing  bool `json:"spacing,omitempty"`  // other spacings and plurals of the annotation keys
	NoDB     bool `json:"no_db,omitempty"`    // column names from field names
	NoTable  bool `json:"no_table,omitempty"` // table names from type names
	Tags     bool `json:"tags,omitempty"`     // other tag names than the default ones
	Header   int  `json:"header,omitempty"`   // what the file begins with
	Dir      int  `json:"dir,omitempty"`      // where it lies
}

// Keys are the names of the annotations: DDL, column and primary key tag.
func (st GoStyle) Keys() (ddl, col, pk string) {
	if st.Tags {
		return "pgddl", "col", "key"
	}
	return "ddlctl", "db", "pk"
}

func goIdent(n string) bool {
	return token.IsIdentifier(n) && n != "_" && n[0] < 0x80
}

// plainName reports whether a name needs no quotation marks and keeps its letters without them.
func plainName(d, n string) bool {
	w := writer{d, Style{}}
	return d != db.MySQL && w.q(n) == n || d == db.MySQL && db.QuoteName(db.Postgres, n) == n
}

var (
	goHeaders = []string{"// Code generated by protoc-gen-model v1.2.3. DO NOT EDIT.\n\n", "//go:build ignore && !windows\n// +build ignore,!windows\n\n", "//nolint:all\n", "\n\n// Copyright ünï\n\n",
		"//go:generate ddlctl generate\n", "//lint:file-ignore U1000 deprecated\n// Deprecated: see there.\n"}
	goDirs = []string{"vendor/example.com/x/", "testdata/", "internal/", ".hidden/", "_old/", "node_modules/", "third_party/", "mock_", "x_test/", "x.go/", "deep/er/and/deep/er/", "windows_", "z_", "doc.", "generated/", "tmp/"}
)

// File is one source file.
type File struct {
	Path string `json:"path"`
	Data []byte `json:"data"`
}

func goName(n string) string {
	var b strings.Builder
	up := true
	for _, r := range n {
		if r == '_' || r == '.' || r == '$' || r == '-' || r == ' ' {
			up = true
			continue
		}
		if up {
			b.WriteString(strings.ToUpper(string(r)))
		} else {
			b.WriteRune(r)
		}
		up = false
	}
	s := b.String()
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		s = "T" + s
	}
	return s
}

// GoPKOrdered reports whether the annotated form can express the table's primary key: the columns in order, ascending.
func (t *Table) GoPKOrdered() bool {
	i := 0
	for _, c := range t.Cols {
		if i < len(t.PK) && t.PK[i].Col == c.Name {
			if t.PK[i].Desc {
				return false
			}
			i++
		}
	}
	return i == len(t.PK)
}

// Go writes the schema as annotated Go source files below a directory. The primary key constraint keeps the name the
// server gives it.
func (s *Schema) Go(st GoStyle) []File {
	tag, colTag, pkTag := st.Keys()
	n := st.Files
	if n < 1 {
		n = 1
	}
	s.norm()
	bodies := make([]strings.Builder, n)
	w := writer{s.Dialect, Style{Quote: true}}
	for ti, t := range s.Tables {
		b := &bodies[ti%n]
		var ann []string
		tn := t.Name
		if s.Dialect == db.MySQL || s.Dialect == db.Spanner {
			tn = "`" + tn + "`"
		}
		name := goName(t.Name)
		switch {
		case st.NoTable && goIdent(t.Name) && plainName(s.Dialect, t.Name):
			name = t.Name
			ann = append(ann, "")
		case st.FullStmt:
			ann = append(ann, "table: CREATE TABLE "+tn)
		default:
			ann = append(ann, "table: "+tn)
		}
		for _, l := range w.inline(t) {
			ann = append(ann, "constraint: "+l)
		}
		for _, o := range w.tail(t) {
			ann = append(ann, "option: "+o)
		}
		for _, x := range w.indexStmts(t) {
			if !st.FullStmt {
				x = strings.TrimPrefix(x, "CREATE ")
				x = strings.TrimPrefix(x, "INDEX ")
				if strings.HasPrefix(x, "UNIQUE ") {
					x = "CREATE " + x
				}
			}
			ann = append(ann, "index: "+x)
		}
		typeKw := "type "
		if st.Multi {
			typeKw = ""
		}
		if st.Extra {
			fmt.Fprintf(b, "// %sHelper is not annotated.\n%s%sHelper struct {\n\tX int `db:\"x\" json:\"x\"`\n}\n\n", name, typeKw, name)
		}
		var lines []string
		for i, a := range ann {
			l := tag + ":" + a
			if st.Spacing {
				k, v, ok := strings.Cut(a, ": ")
				if ok && i%3 == 1 {
					k = strings.Replace(k, "index", "indexe", 1) + "s"
				}
				if l = []string{tag + ":\t" + k, tag + " : " + k + " ", tag + ":  " + k}[i%3]; ok {
					l += ":" + strings.Repeat(" ", i%2) + v
				}
			}
			lines = append(lines, l)
			if st.Others {
				switch i % 4 {
				case 0:
					lines = append(lines, "otherddl:table: CREATE TABLE other_"+strings.ToLower(goName(t.Name)), "otherddl: constraint: CONSTRAINT other CHECK (nothing > 0)")
				case 1:
					lines = append(lines, "NOTE: table: see the documentation of "+name, "see:option: none")
				case 2:
					lines = append(lines, "otherddl:index: CREATE INDEX other_idx ON other (x)", "TODO: index it")
				}
			}
		}
		inBlock := st.InBlock
		for _, l := range lines {
			inBlock = inBlock && !strings.Contains(l, "*/")
		}
		if st.Block {
			fmt.Fprintf(b, "/*\n%s is a table.\n*/\n", name)
		} else if !inBlock {
			fmt.Fprintf(b, "// %s is a table.\n//\n", name)
		}
		switch {
		case inBlock:
			fmt.Fprintf(b, "/*\n%s is a table.\n\n", name)
			for i, l := range lines {
				fmt.Fprintf(b, "%s%s\n", []string{"", "\t", "  "}[i%3], l)
			}
			b.WriteString("*/\n")
		default:
			for i, l := range lines {
				sl := "//"
				if st.Spacing {
					sl = []string{"// ", "///", "//\t"}[i%3]
				}
				fmt.Fprintf(b, "%s%s\n", sl, l)
			}
		}
		if st.Multi {
			fmt.Fprintf(b, "%s struct {\n", name)
		} else if st.Group {
			fmt.Fprintf(b, "type (\n\t%s struct {\n", name)
		} else {
			fmt.Fprintf(b, "type %s struct {\n", name)
		}
		last := ""
		for ci, c := range t.Cols {
			if st.Extra && ci == 1 {
				fmt.Fprintf(b, "\tIgnored%d string `%s:\"-\" json:\"ignored\"`\n\tOther%d int `json:\"other\"`\n", ci, colTag, ci)
			}
			if st.Plain && ci == 1 {
				fmt.Fprintf(b, "\tUntagged%d int\n", ci)
			}
			pk := ""
			for _, p := range t.PK {
				if p.Col == c.Name {
					pk = ` ` + pkTag + `:"true"`
				}
			}
			if st.Extra && ci%2 == 0 {
				fmt.Fprintf(b, "\t// %s is documented; see `it`.\n", goName(c.Name))
			}
			if st.Extra && ci%3 == 2 {
				pk += ` json:"` + c.Name + `,omitempty"`
			}
			decl := strings.ReplaceAll(strings.ReplaceAll(w.colDecl(c), `\`, `\\`), `"`, `\"`)
			noDB := st.NoDB && goIdent(c.Name)
			ft := fmt.Sprintf("%s:\"%s\"%s", tag, decl, pk)
			if !noDB {
				ft = fmt.Sprintf("%s:%q ", colTag, c.Name) + ft
			}
			if st.Others && ci%2 == 1 {
				ft += ` otherddl:"NOTHING" ` + tag + `x:"-"`
			}
			if st.Interp && ci%3 != 1 {
				ft = strconv.Quote(ft)
			} else {
				ft = "`" + ft + "`"
			}
			field := goName(c.Name)
			if noDB {
				field = c.Name
				if rest, ok := strings.CutSuffix(b.String(), last); ok && last == " interface{} "+ft+"\n" { // a field with several names
					b.Reset()
					b.WriteString(rest + ", " + field + last)
					continue
				}
				last = " interface{} " + ft + "\n"
			}
			fmt.Fprintf(b, "\t%s interface{} %s\n", field, ft)
		}
		if st.Group && !st.Multi {
			b.WriteString("\t}\n)\n\n")
		} else {
			b.WriteString("}\n\n")
		}
	}
	var fs []File
	for i := range bodies {
		p := fmt.Sprintf("model%d.go", i)
		if st.Nested && i%2 == 1 {
			p = fmt.Sprintf("sub%d/model.go", i)
		}
		body := bodies[i].String()
		if st.Multi && body != "" {
			body = "type (\n" + body + ")\n"
		}
		if st.Local && body != "" {
			body = "func local() {\n" + body + "}\n"
		}
		head := "package model\n\n"
		if st.Build {
			head = "//go:build ignore\n\n/*\nPackage model is generated.\n*/\npackage model\n\n"
			p = "a b/.c-" + p
		}
		if st.Header > 0 {
			head = goHeaders[st.Header%len(goHeaders)] + "package model\n\n"
		}
		if st.Dir > 0 {
			p = goDirs[st.Dir%len(goDirs)] + p
		}
		body = head + body
		if st.CRLF {
			body = strings.ReplaceAll(body, "\n", "\r\n")
		}
		fs = append(fs, File{p, []byte(body)})
	}
	if st.Extra {
		fs = append(fs, File{"plain.go", []byte("package model\n\n// Plain has no annotation.\ntype Plain struct{ A int }\n")},
			File{"model_test.go", []byte("package model\n\n//" + tag + ":table: CREATE TABLE only_for_tests\ntype T struct {\n\tA int `" + colTag + ":\"a\" " + tag + ":\"INT\"`\n}\n")},
			File{"README.md", []byte("not go\n")})
	}
	return fs
}
