package db

import (
	"fmt"
	"strings"
)

// Expr is a scalar expression.
type Expr struct {
	Op   string // id str num null true false call kw bin un cast case in between isnull subq exists star agg
	S    string
	Args []*Expr
	Neg  bool
	Sub  *Select
	Ord  []OrderItem
}

type parser struct {
	d string
	t []tok
	i int
}

type synErr struct{ msg string }

func (e synErr) Error() string { return e.msg }

func (p *parser) cur() tok { return p.t[p.i] }
func (p *parser) peek(n int) tok {
	if p.i+n < len(p.t) {
		return p.t[p.i+n]
	}
	return p.t[len(p.t)-1]
}

func (p *parser) fail(what string) {
	panic(synErr{fmt.Sprintf("syntax error at or near %q: expected %s", p.cur().String(), what)})
}

// guard runs f, turning a syntax panic into an error.
func guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(synErr); ok {
				err = s
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (p *parser) isKw(words ...string) bool {
	for n, w := range words {
		t := p.peek(n)
		if t.k != tIdent || !strings.EqualFold(t.s, w) {
			return false
		}
	}
	return true
}

func (p *parser) kw(words ...string) bool {
	if p.isKw(words...) {
		p.i += len(words)
		return true
	}
	return false
}

func (p *parser) mustKw(words ...string) {
	if !p.kw(words...) {
		p.fail(strings.Join(words, " "))
	}
}

func (p *parser) isOp(o string) bool { return p.cur().k == tOp && p.cur().s == o }
func (p *parser) op(o string) bool {
	if p.isOp(o) {
		p.i++
		return true
	}
	return false
}

func (p *parser) mustOp(o string) {
	if !p.op(o) {
		p.fail(o)
	}
}

var reserved = map[string]bool{}

func init() {
	for _, w := range strings.Fields("select from where table create drop alter index unique primary foreign key references constraint check default not null and or in is like between case when then else end on as order by group union join left inner outer limit having into values set add column using asc desc true false grant to") {
		reserved[w] = true
	}
}

// nonReservedAsName lists words above that the dialects allow as plain names.
func (p *parser) reservedHere(s string) bool {
	return reserved[strings.ToLower(s)]
}

func (p *parser) ident(what string) string {
	t := p.cur()
	switch t.k {
	case tQIdent:
		p.i++
		return t.s
	case tIdent:
		if p.reservedHere(t.s) {
			p.fail(what)
		}
		p.i++
		return p.fold(t.s)
	}
	p.fail(what)
	return ""
}

// fold applies the dialect's case folding of unquoted identifiers.
func (p *parser) fold(s string) string {
	if p.d == Postgres || p.d == CRDB {
		return strings.ToLower(s)
	}
	return s
}

func (p *parser) colIdent(what string) string {
	s := p.ident(what)
	if p.d == MySQL || p.d == Spanner {
		return s
	}
	return s
}

var binPrec = map[string]int{
	"or": 1, "and": 2, "=": 4, "<>": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "like": 4, "in": 4, "is": 4, "between": 4,
	"||": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "->": 8, "->>": 8,
}

func (p *parser) expr(min int) *Expr {
	var l *Expr
	switch {
	case p.isKw("not"):
		p.i++
		l = &Expr{Op: "un", S: "not", Args: []*Expr{p.expr(3)}}
	case p.isOp("-"):
		p.i++
		l = &Expr{Op: "un", S: "-", Args: []*Expr{p.expr(8)}}
	case p.isOp("+"):
		p.i++
		l = p.expr(8)
	default:
		l = p.primary()
	}
	for {
		// postfix casts
		if p.d != MySQL && p.d != Spanner && p.isOp("::") {
			p.i++
			l = &Expr{Op: "cast", S: p.typeName(), Args: []*Expr{l}}
			continue
		}
		if p.d == CRDB && p.isOp(":::") {
			p.i++
			p.typeName() // states the type, changes nothing
			continue
		}
		t := p.cur()
		var o string
		neg := false
		switch {
		case t.k == tOp:
			o = t.s
		case t.k == tIdent:
			o = strings.ToLower(t.s)
			if o == "not" {
				n := p.peek(1)
				if n.k != tIdent {
					return l
				}
				switch no := strings.ToLower(n.s); no {
				case "in", "like", "between":
					o, neg = no, true
				default:
					return l
				}
			}
		default:
			return l
		}
		pr, ok := binPrec[o]
		if !ok || pr < min {
			return l
		}
		p.i++
		if neg {
			p.i++
		}
		switch o {
		case "is":
			n := p.kw("not")
			switch {
			case p.kw("null"):
				l = &Expr{Op: "isnull", Neg: n, Args: []*Expr{l}}
			case p.kw("true"):
				l = &Expr{Op: "bin", S: "=", Args: []*Expr{l, {Op: "true"}}}
			case p.kw("false"):
				l = &Expr{Op: "bin", S: "=", Args: []*Expr{l, {Op: "false"}}}
			default:
				p.fail("NULL")
			}
		case "in":
			e := &Expr{Op: "in", Neg: neg, Args: []*Expr{l}}
			p.mustOp("(")
			if p.isKw("select") {
				e.Sub = p.selectStmt()
			} else {
				for {
					e.Args = append(e.Args, p.expr(0))
					if !p.op(",") {
						break
					}
				}
			}
			p.mustOp(")")
			l = e
		case "between":
			a := p.expr(5)
			p.mustKw("and")
			b := p.expr(5)
			l = &Expr{Op: "between", Neg: neg, Args: []*Expr{l, a, b}}
		default:
			if o == "!=" {
				o = "<>"
			}
			r := p.expr(pr + 1)
			l = &Expr{Op: "bin", S: o, Neg: neg, Args: []*Expr{l, r}}
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch t.k {
	case tNum:
		p.i++
		return &Expr{Op: "num", S: t.s}
	case tStr:
		p.i++
		return &Expr{Op: "str", S: t.s}
	case tOp:
		if t.s == "(" {
			p.i++
			if p.isKw("select") {
				s := p.selectStmt()
				p.mustOp(")")
				return &Expr{Op: "subq", Sub: s}
			}
			e := p.expr(0)
			p.mustOp(")")
			return e
		}
		if t.s == "?" {
			p.i++
			return &Expr{Op: "param", S: "?"}
		}
		if t.s == "*" {
			p.i++
			return &Expr{Op: "star"}
		}
	case tIdent:
		switch strings.ToLower(t.s) {
		case "null", "true", "false":
			p.i++
			return &Expr{Op: strings.ToLower(t.s)}
		case "case":
			return p.caseExpr()
		case "array":
			p.i++
			p.mustOp("[")
			e := &Expr{Op: "call", S: "array"}
			for !p.isOp("]") {
				e.Args = append(e.Args, p.expr(0))
				if !p.op(",") {
					break
				}
			}
			p.mustOp("]")
			return e
		case "current_timestamp", "current_date", "current_time", "localtimestamp", "now":
			p.i++
			e := &Expr{Op: "kw", S: strings.ToLower(t.s)}
			if p.op("(") {
				if !p.isOp(")") {
					e.Args = append(e.Args, p.expr(0))
				}
				p.mustOp(")")
				if len(e.Args) == 0 {
					e.Op = "call"
				}
			}
			if e.S == "now" && p.d == MySQL {
				e.Op, e.S = "kw", "current_timestamp"
			}
			if e.S == "current_timestamp" && p.d == MySQL {
				e.Op = "kw"
			}
			return e
		}
		if p.reservedHere(t.s) {
			p.fail("expression")
		}
		fallthrough
	case tQIdent:
		name := p.colIdent("identifier")
		if t.k == tIdent && p.isOp("(") {
			p.i++
			e := &Expr{Op: "call", S: strings.ToLower(name)}
			p.kw("distinct")
			if !p.isOp(")") {
				for {
					e.Args = append(e.Args, p.expr(0))
					if !p.op(",") {
						break
					}
				}
				if p.kw("order", "by") {
					e.Ord = p.orderItems()
				}
			}
			p.mustOp(")")
			return e
		}
		for p.isOp(".") {
			p.i++
			if p.op("*") {
				return &Expr{Op: "star", S: name}
			}
			name += "." + p.colIdent("identifier")
		}
		return &Expr{Op: "id", S: name}
	}
	p.fail("expression")
	return nil
}

func (p *parser) caseExpr() *Expr {
	p.mustKw("case")
	e := &Expr{Op: "case"}
	if !p.isKw("when") {
		e.S = "simple"
		e.Args = append(e.Args, p.expr(0))
	}
	n := 0
	for p.kw("when") {
		c := p.expr(0)
		p.mustKw("then")
		v := p.expr(0)
		e.Args = append(e.Args, c, v)
		n++
	}
	if n == 0 {
		p.fail("WHEN")
	}
	if p.kw("else") {
		e.Neg = true // has else
		e.Args = append(e.Args, p.expr(0))
	}
	p.mustKw("end")
	return e
}

// typeName reads a type as used in casts.
func (p *parser) typeName() string {
	ty, err := p.parseType()
	if err != "" {
		p.fail(err)
	}
	return ty
}

// Canon prints the expression canonically (fully parenthesised, identifiers without quotes).
func (e *Expr) Canon(d string) string {
	if e == nil {
		return ""
	}
	as := make([]string, len(e.Args))
	for i, a := range e.Args {
		as[i] = a.Canon(d)
	}
	switch e.Op {
	case "id":
		if d == MySQL {
			return strings.ToLower(e.S)
		}
		return e.S
	case "str":
		return "'" + strings.ReplaceAll(e.S, "'", "''") + "'"
	case "num", "param":
		return e.S
	case "null", "true", "false":
		return e.Op
	case "kw":
		if len(as) > 0 {
			return e.S + "(" + as[0] + ")"
		}
		return e.S
	case "call":
		return e.S + "(" + strings.Join(as, ",") + ")"
	case "un":
		if e.S == "-" {
			return "-" + as[0]
		}
		return "(" + e.S + " " + as[0] + ")"
	case "bin":
		n := ""
		if e.Neg {
			n = "not "
		}
		return "(" + as[0] + " " + n + e.S + " " + as[1] + ")"
	case "cast":
		return as[0] + "::" + e.S
	case "isnull":
		if e.Neg {
			return "(" + as[0] + " is not null)"
		}
		return "(" + as[0] + " is null)"
	case "in":
		n := ""
		if e.Neg {
			n = "not "
		}
		return "(" + as[0] + " " + n + "in (" + strings.Join(as[1:], ",") + "))"
	case "between":
		return "(" + as[0] + " between " + as[1] + " and " + as[2] + ")"
	case "case":
		return "(case " + strings.Join(as, "|") + ")"
	}
	return "?" + e.Op
}

// Idents lists the column names the expression refers to.
func (e *Expr) Idents() []string {
	if e == nil {
		return nil
	}
	var out []string
	if e.Op == "id" {
		out = append(out, e.S)
	}
	for _, a := range e.Args {
		out = append(out, a.Idents()...)
	}
	return out
}
