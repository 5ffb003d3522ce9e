// Package db is the simulated database server: a strict DDL front end and an in-memory catalog for MySQL,
// PostgreSQL, CockroachDB and Spanner, plus a small SELECT interpreter over the catalog tables.
package db

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Dialect names match ddlctl's --dialect values.
const (
	MySQL    = "mysql"
	Postgres = "postgres"
	CRDB     = "cockroachdb"
	Spanner  = "spanner"
)

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tQIdent
	tStr
	tNum
	tOp
)

type tok struct {
	k   tokKind
	s   string // identifier name, string value, number text or operator
	raw string
	pos int
	end int
}

func (t tok) String() string {
	if t.k == tEOF {
		return "end of input"
	}
	return t.raw
}

func isIdentStart(c rune) bool {
	return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c >= 0x80
}
func isIdentPart(c rune) bool { return isIdentStart(c) || (c >= '0' && c <= '9') || c == '$' }

// Lex splits src strictly; it returns an error for anything the dialect would not accept.
func Lex(dialect, src string) ([]tok, error) {
	var out []tok
	i := 0
	fail := func(p int, m string) ([]tok, error) {
		return nil, fmt.Errorf("syntax error: %s at offset %d", m, p)
	}
	my, span := dialect == MySQL, dialect == Spanner
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v':
			i++
		case strings.HasPrefix(src[i:], "--") && (!my || i+2 >= len(src) || src[i+2] <= ' '):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '#' && (my || span):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return fail(i, "unterminated comment")
			}
			i += 2 + j + 2
		case c == '`' && (my || span), c == '"' && !my && !span:
			j := i + 1
			var b strings.Builder
			for {
				if j >= len(src) {
					return fail(i, "unterminated quoted identifier")
				}
				if src[j] == c {
					if j+1 < len(src) && src[j+1] == c && !span {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(src[j])
				j++
			}
			if b.Len() == 0 {
				return fail(i, "zero-length identifier")
			}
			out = append(out, tok{tQIdent, b.String(), src[i : j+1], i, j + 1})
			i = j + 1
		case c == '\'' || (c == '"' && (my || span)):
			j := i + 1
			var b strings.Builder
			for {
				if j >= len(src) {
					return fail(i, "unterminated string")
				}
				if (my || span) && src[j] == '\\' {
					if j+1 >= len(src) {
						return fail(i, "unterminated string")
					}
					switch src[j+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j+1])
					}
					j += 2
					continue
				}
				if src[j] == c {
					if !span && j+1 < len(src) && src[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				if span && src[j] == '\n' {
					return fail(i, "newline in string")
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, tok{tStr, b.String(), src[i : j+1], i, j + 1})
			i = j + 1
		case (c == 'E' || c == 'e') && !my && !span && i+1 < len(src) && src[i+1] == '\'':
			j := i + 2
			var b strings.Builder
			for {
				if j >= len(src) {
					return fail(i, "unterminated string")
				}
				if src[j] == '\\' && j+1 < len(src) {
					switch src[j+1] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j+1])
					}
					j += 2
					continue
				}
				if src[j] == '\'' {
					break
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, tok{tStr, b.String(), src[i : j+1], i, j + 1})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			if j < len(src) {
				if r, _ := utf8.DecodeRuneInString(src[j:]); isIdentStart(r) {
					return fail(i, "trailing junk after number")
				}
			}
			out = append(out, tok{tNum, src[i:j], src[i:j], i, j})
			i = j
		default:
			r, n := utf8.DecodeRuneInString(src[i:])
			if r == utf8.RuneError && n <= 1 {
				return fail(i, "invalid byte")
			}
			if isIdentStart(r) {
				j := i
				for j < len(src) {
					r, n := utf8.DecodeRuneInString(src[j:])
					if !isIdentPart(r) || (r == '$' && dialect == Spanner) || (r == utf8.RuneError && n <= 1) {
						break
					}
					j += n
				}
				out = append(out, tok{tIdent, src[i:j], src[i:j], i, j})
				i = j
				continue
			}
			op := ""
			for _, o := range []string{":::", "::", "<=", ">=", "<>", "!=", "||", "->>", "->"} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				if strings.IndexByte("(),;.=<>+-*/%?[]@", c) < 0 {
					return fail(i, fmt.Sprintf("unexpected character %q", c))
				}
				op = string(c)
			}
			out = append(out, tok{tOp, op, op, i, i + len(op)})
			i += len(op)
		}
	}
	out = append(out, tok{tEOF, "", "", len(src), len(src)})
	return out, nil
}

// SplitStatements splits src at top-level semicolons the way a database client does, dropping comments-only pieces.
func SplitStatements(dialect, src string) ([]string, error) {
	toks, err := Lex(dialect, src)
	if err != nil {
		return nil, err
	}
	var out []string
	start := -1
	for _, t := range toks {
		switch {
		case t.k == tEOF || (t.k == tOp && t.s == ";"):
			if start >= 0 {
				out = append(out, strings.TrimRight(src[start:t.pos], " \t\r\n"))
			}
			start = -1
		default:
			if start < 0 {
				start = t.pos
			}
		}
	}
	return out, nil
}

// NormalTokens returns the statement as a canonical token string (comments and white space removed): two texts with
// the same result are the same statement to the server.
func NormalTokens(dialect, src string) (string, error) {
	toks, err := Lex(dialect, src)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	for _, t := range toks {
		if t.k == tEOF {
			break
		}
		if b.Len() > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(t.raw)
	}
	return strings.TrimRight(b.String(), " ;"), nil
}
