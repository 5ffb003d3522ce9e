package db

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Select is a query over catalog tables.
type Select struct {
	Distinct bool
	Items    []SelItem
	From     *Source
	Where    *Expr
	Group    []*Expr
	Order    []OrderItem
	Limit    *Expr
}

// SelItem is one output column.
type SelItem struct {
	E     *Expr
	Alias string
}

// OrderItem is one sort key.
type OrderItem struct {
	E    *Expr
	Desc bool
}

// Source is a table, subquery or join.
type Source struct {
	Table string
	Sub   *Select
	Alias string
	Join  string // "", inner, left, cross
	L, R  *Source
	On    *Expr
}

func (p *parser) orderItems() []OrderItem {
	var out []OrderItem
	for {
		o := OrderItem{E: p.expr(0)}
		if p.kw("desc") {
			o.Desc = true
		} else {
			p.kw("asc")
		}
		out = append(out, o)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) selectStmt() *Select {
	p.mustKw("select")
	s := &Select{Distinct: p.kw("distinct")}
	for {
		it := SelItem{E: p.expr(0)}
		if p.kw("as") {
			it.Alias = p.aliasName()
		} else if k := p.cur().k; k == tQIdent || (k == tIdent && !p.reservedHere(p.cur().s)) {
			it.Alias = p.aliasName()
		}
		s.Items = append(s.Items, it)
		if !p.op(",") {
			break
		}
	}
	if p.kw("from") {
		s.From = p.source()
	}
	if p.kw("where") {
		s.Where = p.expr(0)
	}
	if p.kw("group", "by") {
		for {
			s.Group = append(s.Group, p.expr(0))
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("order", "by") {
		s.Order = p.orderItems()
	}
	if p.kw("limit") {
		s.Limit = p.expr(0)
	}
	return s
}

func (p *parser) aliasName() string {
	if p.cur().k == tStr && p.d == MySQL {
		s := p.cur().s
		p.i++
		return s
	}
	return p.ident("alias")
}

func (p *parser) source1() *Source {
	s := &Source{}
	if p.op("(") {
		s.Sub = p.selectStmt()
		p.mustOp(")")
	} else {
		s.Table = p.ident("table")
		s.Alias = s.Table
		for p.op(".") {
			n := p.ident("table")
			s.Table += "." + n
			s.Alias = n
		}
	}
	if p.kw("as") {
		s.Alias = p.ident("alias")
	} else if k := p.cur().k; k == tQIdent || (k == tIdent && !p.reservedHere(p.cur().s)) {
		s.Alias = p.ident("alias")
	}
	return s
}

func (p *parser) source() *Source {
	l := p.source1()
	for {
		j := ""
		switch {
		case p.kw("left", "outer", "join"), p.kw("left", "join"):
			j = "left"
		case p.kw("inner", "join"), p.kw("join"):
			j = "inner"
		case p.kw("cross", "join"), p.op(","):
			j = "cross"
		default:
			return l
		}
		r := p.source1()
		s := &Source{Join: j, L: l, R: r}
		if j != "cross" {
			if p.kw("using") {
				p.mustOp("(")
				for {
					c := p.ident("column")
					eq := &Expr{Op: "bin", S: "=", Args: []*Expr{{Op: "id", S: l.Alias + "." + c}, {Op: "id", S: r.Alias + "." + c}}}
					if s.On == nil {
						s.On = eq
					} else {
						s.On = &Expr{Op: "bin", S: "and", Args: []*Expr{s.On, eq}}
					}
					if !p.op(",") {
						break
					}
				}
				p.mustOp(")")
			} else {
				p.mustKw("on")
				s.On = p.expr(0)
			}
		}
		l = s
	}
}

// row binds lower-cased "alias.column" to values.
type row map[string]any

// Result of a query.
type Result struct {
	Cols []string
	Rows [][]any
}

type evaluator struct {
	c       *Catalog
	d       string
	params  []any
	np      int
	shuffle func(n int, swap func(i, j int))
}

// Query runs a SELECT or SHOW statement against the catalog.
func (c *Catalog) Query(q string, params []any, shuffle func(n int, swap func(i, j int))) (res *Result, err error) {
	toks, err := Lex(c.Dialect, q)
	if err != nil {
		return nil, ferr("%s", err)
	}
	p := &parser{d: c.Dialect, t: toks}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case synErr:
				err = e
			case sqlErr:
				err = e
			default:
				panic(r)
			}
		}
	}()
	if p.isKw("show") {
		return c.show(p), nil
	}
	s := p.selectStmt()
	p.op(";")
	if p.cur().k != tEOF {
		p.fail("end of query")
	}
	numberParams(s, new(int))
	ev := &evaluator{c: c, d: c.Dialect, params: params, shuffle: shuffle}
	cols, rows := ev.sel(s)
	return &Result{cols, rows}, nil
}

func numberParams(s *Select, n *int) {
	var ex func(e *Expr)
	ex = func(e *Expr) {
		if e == nil {
			return
		}
		if e.Op == "param" {
			e.S = strconv.Itoa(*n)
			*n++
		}
		for _, a := range e.Args {
			ex(a)
		}
		if e.Sub != nil {
			numberParams(e.Sub, n)
		}
		for _, o := range e.Ord {
			ex(o.E)
		}
	}
	var src func(x *Source)
	src = func(x *Source) {
		if x == nil {
			return
		}
		if x.Sub != nil {
			numberParams(x.Sub, n)
		}
		src(x.L)
		src(x.R)
		ex(x.On)
	}
	for _, it := range s.Items {
		ex(it.E)
	}
	src(s.From)
	ex(s.Where)
	for _, g := range s.Group {
		ex(g)
	}
	for _, o := range s.Order {
		ex(o.E)
	}
	ex(s.Limit)
}

func (ev *evaluator) rows(s *Source) []row {
	switch {
	case s == nil:
		return []row{{}}
	case s.Join != "":
		ls, rs := ev.rows(s.L), ev.rows(s.R)
		var out []row
		for _, l := range ls {
			hit := false
			for _, r := range rs {
				m := row{}
				for k, v := range l {
					m[k] = v
				}
				for k, v := range r {
					m[k] = v
				}
				if s.On == nil || truthy(ev.eval(s.On, m, nil)) {
					out = append(out, m)
					hit = true
				}
			}
			if !hit && s.Join == "left" {
				m := row{}
				for k, v := range l {
					m[k] = v
				}
				for _, k := range ev.cols(s.R) {
					m[k] = nil
				}
				out = append(out, m)
			}
		}
		return out
	case s.Sub != nil:
		cols, rs := ev.sel(s.Sub)
		var out []row
		for _, r := range rs {
			m := row{}
			for i, c := range cols {
				m[strings.ToLower(s.Alias+"."+c)] = r[i]
			}
			out = append(out, m)
		}
		return out
	}
	cols, rs := ev.c.infoTable(s.Table)
	ev.shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	var out []row
	for _, r := range rs {
		m := row{}
		for i, c := range cols {
			m[strings.ToLower(s.Alias+"."+c)] = r[i]
		}
		out = append(out, m)
	}
	return out
}

func (ev *evaluator) cols(s *Source) []string {
	var out []string
	switch {
	case s == nil:
	case s.Join != "":
		return append(ev.cols(s.L), ev.cols(s.R)...)
	case s.Sub != nil:
		for i, it := range s.Sub.Items {
			out = append(out, strings.ToLower(s.Alias+"."+itemName(it, i)))
		}
	default:
		cols, _ := ev.c.infoTable(s.Table)
		for _, c := range cols {
			out = append(out, strings.ToLower(s.Alias+"."+c))
		}
	}
	return out
}

func itemName(it SelItem, i int) string {
	if it.Alias != "" {
		return it.Alias
	}
	if it.E.Op == "id" {
		if j := strings.LastIndex(it.E.S, "."); j >= 0 {
			return it.E.S[j+1:]
		}
		return it.E.S
	}
	if it.E.Op == "call" {
		return it.E.S
	}
	return "_c" + strconv.Itoa(i)
}

var aggregates = map[string]bool{"string_agg": true, "group_concat": true, "count": true, "max": true, "min": true, "array_agg": true}

func hasAgg(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.Op == "call" && aggregates[e.S] {
		return true
	}
	for _, a := range e.Args {
		if hasAgg(a) {
			return true
		}
	}
	return false
}

func (ev *evaluator) sel(s *Select) (cols []string, out [][]any) {
	known := map[string]bool{}
	for _, c := range ev.cols(s.From) {
		known[c] = true
	}
	ev.validate(s, known)
	var rs []row
	for _, r := range ev.rows(s.From) {
		if s.Where == nil || truthy(ev.eval(s.Where, r, nil)) {
			rs = append(rs, r)
		}
	}
	items := s.Items
	if len(items) == 1 && items[0].E.Op == "star" && items[0].E.S == "" {
		items = nil
		for _, c := range ev.cols(s.From) {
			items = append(items, SelItem{E: &Expr{Op: "id", S: c}})
		}
	}
	for i, it := range items {
		cols = append(cols, itemName(it, i))
	}
	grouped := len(s.Group) > 0
	for _, it := range items {
		if hasAgg(it.E) {
			grouped = true
		}
	}
	type outRow struct {
		v    []any
		keys []any
	}
	var os []outRow
	emit := func(r row, group []row) {
		var o outRow
		for _, it := range items {
			o.v = append(o.v, ev.eval(it.E, r, group))
		}
		for _, k := range s.Order {
			v, ok := any(nil), false
			if k.E.Op == "id" {
				for i, it := range items {
					if strings.EqualFold(it.Alias, k.E.S) && it.Alias != "" {
						v, ok = o.v[i], true
					}
				}
			}
			if k.E.Op == "num" {
				n, _ := strconv.Atoi(k.E.S)
				if n >= 1 && n <= len(o.v) {
					v, ok = o.v[n-1], true
				}
			}
			if !ok {
				v = ev.eval(k.E, r, group)
			}
			o.keys = append(o.keys, v)
		}
		os = append(os, o)
	}
	if grouped {
		var order []string
		groups := map[string][]row{}
		for _, r := range rs {
			k := ""
			for _, g := range s.Group {
				k += fmt.Sprintf("%v\x00", ev.eval(g, r, nil))
			}
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], r)
		}
		if len(s.Group) == 0 && len(order) == 0 {
			emit(row{}, []row{})
		}
		for _, k := range order {
			emit(groups[k][0], groups[k])
		}
	} else {
		for _, r := range rs {
			emit(r, nil)
		}
	}
	if s.Distinct {
		seen := map[string]bool{}
		var u []outRow
		for _, o := range os {
			k := fmt.Sprintf("%v", o.v)
			if !seen[k] {
				seen[k] = true
				u = append(u, o)
			}
		}
		os = u
	}
	if len(s.Order) > 0 {
		sort.SliceStable(os, func(i, j int) bool {
			for n, k := range s.Order {
				c := cmp(os[i].keys[n], os[j].keys[n])
				if k.Desc {
					c = -c
				}
				if c != 0 {
					return c < 0
				}
			}
			return false
		})
	}
	lim := len(os)
	if s.Limit != nil {
		if n, ok := ev.eval(s.Limit, row{}, nil).(int64); ok && int(n) < lim {
			lim = int(n)
		}
	}
	for _, o := range os[:lim] {
		out = append(out, o.v)
	}
	return cols, out
}

func (ev *evaluator) validate(s *Select, known map[string]bool) {
	alias := map[string]bool{}
	for _, it := range s.Items {
		alias[strings.ToLower(it.Alias)] = true
	}
	var ex func(e *Expr, withAlias bool)
	ex = func(e *Expr, wa bool) {
		if e == nil {
			return
		}
		if e.Op == "id" {
			if wa && alias[strings.ToLower(e.S)] {
				return
			}
			if n := resolve(known, e.S); n != 1 {
				if n == 0 {
					panic(ferr("column %q does not exist", e.S))
				}
				panic(ferr("column reference %q is ambiguous", e.S))
			}
		}
		for _, a := range e.Args {
			ex(a, wa)
		}
	}
	for _, it := range s.Items {
		ex(it.E, false)
	}
	ex(s.Where, false)
	for _, g := range s.Group {
		ex(g, true)
	}
	for _, o := range s.Order {
		ex(o.E, true)
	}
}

func resolve(known map[string]bool, name string) int {
	l := strings.ToLower(name)
	if known[l] {
		return 1
	}
	n := 0
	if !strings.Contains(l, ".") {
		for k := range known {
			if strings.HasSuffix(k, "."+l) {
				n++
			}
		}
	}
	return n
}

func lookup(r row, name string) any {
	l := strings.ToLower(name)
	if v, ok := r[l]; ok {
		return v
	}
	for k, v := range r {
		if strings.HasSuffix(k, "."+l) {
			return v
		}
	}
	return nil
}

func truthy(v any) bool { b, ok := v.(bool); return ok && b }

func str(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		if x {
			return "true"
		}
		return "false"
	}
	return fmt.Sprint(v)
}

func cmp(a, b any) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return 1
		}
		return -1
	}
	if x, ok := a.(int64); ok {
		if y, ok := b.(int64); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	return strings.Compare(str(a), str(b))
}

func (ev *evaluator) eval(e *Expr, r row, group []row) any {
	switch e.Op {
	case "id":
		return lookup(r, e.S)
	case "str":
		return e.S
	case "num":
		n, _ := strconv.ParseInt(e.S, 10, 64)
		return n
	case "null":
		return nil
	case "true":
		return true
	case "false":
		return false
	case "param":
		i, _ := strconv.Atoi(e.S)
		if i >= len(ev.params) {
			panic(ferr("missing query parameter %d", i+1))
		}
		return ev.params[i]
	case "star":
		return nil
	case "cast":
		return ev.eval(e.Args[0], r, group)
	case "un":
		v := ev.eval(e.Args[0], r, group)
		if v == nil {
			return nil
		}
		if e.S == "not" {
			return !truthy(v)
		}
		if n, ok := v.(int64); ok {
			return -n
		}
		return v
	case "isnull":
		return (ev.eval(e.Args[0], r, group) == nil) != e.Neg
	case "case":
		a := e.Args
		var base any
		if e.S == "simple" {
			base = ev.eval(a[0], r, group)
			a = a[1:]
		}
		n := len(a)
		if e.Neg {
			n--
		}
		for i := 0; i+1 < n+1 && i < n; i += 2 {
			c := ev.eval(a[i], r, group)
			if (e.S == "simple" && c != nil && base != nil && cmp(base, c) == 0) || (e.S != "simple" && truthy(c)) {
				return ev.eval(a[i+1], r, group)
			}
		}
		if e.Neg {
			return ev.eval(a[len(a)-1], r, group)
		}
		return nil
	case "in":
		v := ev.eval(e.Args[0], r, group)
		if v == nil {
			return nil
		}
		hit, null := false, false
		if e.Sub != nil {
			_, rs := ev.sel(e.Sub)
			for _, x := range rs {
				if x[0] == nil {
					null = true
				} else if cmp(v, x[0]) == 0 {
					hit = true
				}
			}
		}
		for _, a := range e.Args[1:] {
			x := ev.eval(a, r, group)
			if x == nil {
				null = true
			} else if cmp(v, x) == 0 {
				hit = true
			}
		}
		if !hit && null {
			return nil
		}
		return hit != e.Neg
	case "between":
		v, a, b := ev.eval(e.Args[0], r, group), ev.eval(e.Args[1], r, group), ev.eval(e.Args[2], r, group)
		if v == nil || a == nil || b == nil {
			return nil
		}
		return (cmp(v, a) >= 0 && cmp(v, b) <= 0) != e.Neg
	case "subq":
		_, rs := ev.sel(e.Sub)
		if len(rs) == 0 {
			return nil
		}
		return rs[0][0]
	case "bin":
		a := ev.eval(e.Args[0], r, group)
		switch e.S {
		case "and":
			if a != nil && !truthy(a) {
				return false
			}
			b := ev.eval(e.Args[1], r, group)
			if b != nil && !truthy(b) {
				return false
			}
			if a == nil || b == nil {
				return nil
			}
			return true
		case "or":
			if truthy(a) {
				return true
			}
			b := ev.eval(e.Args[1], r, group)
			if truthy(b) {
				return true
			}
			if a == nil || b == nil {
				return nil
			}
			return false
		}
		b := ev.eval(e.Args[1], r, group)
		if a == nil || b == nil {
			return nil
		}
		switch e.S {
		case "||":
			return str(a) + str(b)
		case "=":
			return cmp(a, b) == 0
		case "<>":
			return cmp(a, b) != 0
		case "<":
			return cmp(a, b) < 0
		case ">":
			return cmp(a, b) > 0
		case "<=":
			return cmp(a, b) <= 0
		case ">=":
			return cmp(a, b) >= 0
		case "like":
			return like(str(a), str(b)) != e.Neg
		case "+", "-":
			x, ok1 := a.(int64)
			y, ok2 := b.(int64)
			if ok1 && ok2 {
				if e.S == "+" {
					return x + y
				}
				return x - y
			}
		}
		panic(ferr("operator %s is not supported here", e.S))
	case "call":
		if aggregates[e.S] {
			return ev.agg(e, group)
		}
		var as []any
		for _, a := range e.Args {
			as = append(as, ev.eval(a, r, group))
		}
		switch e.S {
		case "database", "schema":
			return "app"
		case "current_database":
			return "app"
		case "current_schema":
			return "public"
		case "concat":
			s := ""
			for _, a := range as {
				if a == nil {
					if ev.d == MySQL {
						return nil
					}
					continue
				}
				s += str(a)
			}
			return s
		case "coalesce", "ifnull":
			for _, a := range as {
				if a != nil {
					return a
				}
			}
			return nil
		case "upper", "lower", "quote_ident", "trim":
			if as[0] == nil {
				return nil
			}
			switch e.S {
			case "upper":
				return strings.ToUpper(str(as[0]))
			case "lower":
				return strings.ToLower(str(as[0]))
			case "trim":
				return strings.TrimSpace(str(as[0]))
			}
			return quoteIfNeeded(ev.d, str(as[0]))
		case "version":
			return "simulated"
		case "pg_get_constraintdef", "pg_catalog.pg_get_constraintdef":
			if as[0] == nil {
				return nil
			}
			return ev.c.pgConstraintDef(as[0].(int64))
		}
		panic(ferr("function %s does not exist", e.S))
	}
	panic(ferr("expression %s is not supported here", e.Op))
}

func (ev *evaluator) agg(e *Expr, group []row) any {
	if e.S == "count" {
		return int64(len(group))
	}
	type kv struct {
		v    any
		sep  string
		keys []any
	}
	var xs []kv
	for _, r := range group {
		x := kv{v: ev.eval(e.Args[0], r, nil), sep: ","}
		if len(e.Args) > 1 {
			x.sep = str(ev.eval(e.Args[1], r, nil))
		}
		for _, o := range e.Ord {
			x.keys = append(x.keys, ev.eval(o.E, r, nil))
		}
		if x.v != nil {
			xs = append(xs, x)
		}
	}
	if len(xs) == 0 {
		return nil
	}
	sort.SliceStable(xs, func(i, j int) bool {
		for n, o := range e.Ord {
			c := cmp(xs[i].keys[n], xs[j].keys[n])
			if o.Desc {
				c = -c
			}
			if c != 0 {
				return c < 0
			}
		}
		return false
	})
	switch e.S {
	case "max", "min":
		best := xs[0].v
		for _, x := range xs {
			if c := cmp(x.v, best); (e.S == "max") == (c > 0) && c != 0 {
				best = x.v
			}
		}
		return best
	}
	s := str(xs[0].v)
	for _, x := range xs[1:] {
		s += x.sep + str(x.v)
	}
	return s
}

func like(s, pat string) bool {
	if pat == "" {
		return s == ""
	}
	switch pat[0] {
	case '%':
		for i := 0; i <= len(s); i++ {
			if like(s[i:], pat[1:]) {
				return true
			}
		}
		return false
	case '_':
		return s != "" && like(s[1:], pat[1:])
	}
	return s != "" && s[0] == pat[0] && like(s[1:], pat[1:])
}
