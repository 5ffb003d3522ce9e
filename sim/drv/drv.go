// Package drv implements database/sql drivers backed by simulated databases.
package drv

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"
	"time"

	"verifsim/db"
	"verifsim/world"
)

// Instance is one simulated database.
type Instance struct {
	DSN     string
	Dialect string
	Cat     *db.Catalog
	OnDDL   func(e *world.Exec, before, after *db.Catalog)
	Rows    map[string]int
	applied int
	batch   int
}

// Instances by DSN.
var Instances = map[string]*Instance{}

// CurProc returns the process of the calling goroutine.
var CurProc func() *world.Proc

type drvr struct{ name string }

func init() {
	for _, n := range []string{"mysql", "postgres", "spanner"} {
		sql.Register(n, drvr{n})
	}
}

// Loaded makes the stub modules reference this package.
const Loaded = true

func (d drvr) Open(dsn string) (driver.Conn, error) {
	c, err := d.OpenConnector(dsn)
	if err != nil {
		return nil, err
	}
	return c.Connect(context.Background())
}

func (d drvr) OpenConnector(dsn string) (driver.Connector, error) {
	p := CurProc()
	if p == nil {
		return nil, errors.New("simulated driver used outside a simulated process")
	}
	p.CheckDead()
	return &connector{d: d, dsn: dsn, p: p}, nil
}

type connector struct {
	d   drvr
	dsn string
	p   *world.Proc
}

func (c *connector) Driver() driver.Driver { return c.d }

func driverOf(dialect string) string {
	if dialect == db.CRDB {
		return "postgres"
	}
	return dialect
}

// wait spends simulated time, ending early when ctx is done. It returns ctx's error.
func wait(ctx context.Context, p *world.Proc, d time.Duration) error {
	p.CheckDead()
	if d <= 0 {
		d = time.Microsecond
	}
	began := world.W.Now()
	defer func() { p.Busy += world.W.Now() - began }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
	case <-ctx.Done():
		p.CheckDead()
		return ctx.Err()
	}
	p.CheckDead()
	return nil
}

func latency(p *world.Proc, seam string) time.Duration {
	w := world.W
	h := w.Hash(1, uint64(p.ID), world.HashS(seam), uint64(p.Counts[seam]))
	d := time.Duration(50+h%2000)*time.Microsecond + time.Duration(h>>40)%997*time.Nanosecond
	if h>>20%16 == 0 {
		d *= 40
	}
	if p.Latency {
		d *= time.Duration(1 + h>>32%40)
	}
	return d &^ 7 // see StartAt: two processes never wake up at the same instant
}

var errReset = errors.New("read tcp 10.0.0.1:40000->10.0.0.2:5432: read: connection reset by peer")

// strike carries out the part of a fault common to every database seam. It returns an error when the operation must fail
// before having any effect.
func strike(ctx context.Context, p *world.Proc, f *world.Fault, instance *Instance) error {
	w := world.W
	if w.Now() < p.DownTill && (f == nil || f.Kind != "down") {
		w.Fired["db/unreachable"]++
		w.Log(p, "unreachable")
		if err := wait(ctx, p, 200*time.Millisecond); err != nil {
			return err
		}
		return errors.New("dial tcp 10.0.0.2:5432: connect: connection refused")
	}
	if f == nil {
		return nil
	}
	switch f.Kind {
	case "slow":
		return wait(ctx, p, time.Duration(f.Arg+1)*time.Second)
	case "stall":
		if err := wait(ctx, p, 15*time.Minute); err != nil {
			return err
		}
		return errors.New("read tcp 10.0.0.1:40000->10.0.0.2:5432: read: connection timed out")
	case "error":
		return serverError(instance, f.Arg)
	case "lost":
		return errReset
	case "badconn":
		return driver.ErrBadConn
	case "down":
		p.DownTill = w.Now() + time.Duration(f.Arg+1)*300*time.Millisecond
		return errReset
	case "kill":
		w.Kill(p)
	case "cancel":
		w.DoCancel(p)
		if err := ctx.Err(); err != nil {
			return err
		}
	}
	return nil
}

func serverError(in *Instance, arg int) error {
	d := ""
	if in != nil {
		d = in.Dialect
	}
	var es []string
	switch d {
	case db.MySQL:
		es = []string{"Error 1205 (HY000): Lock wait timeout exceeded; try restarting transaction", "Error 1213 (40001): Deadlock found when trying to get lock; try restarting transaction",
			"Error 1142 (42000): ALTER command denied to user 'app'@'10.0.0.1'", "Error 1215 (HY000): Cannot add foreign key constraint", "Error 1114 (HY000): The table is full"}
	case db.Spanner:
		es = []string{"spanner: code = \"Unavailable\", desc = \"transport is closing\"", "spanner: code = \"DeadlineExceeded\"", "spanner: code = \"PermissionDenied\""}
	default:
		es = []string{"pq: canceling statement due to lock timeout", "pq: permission denied for schema public", "pq: could not extend file: No space left on device", "pq: restart transaction: TransactionRetryError"}
	}
	return errors.New(es[arg%len(es)])
}

func (c *connector) Connect(ctx context.Context) (driver.Conn, error) {
	p, w := c.p, world.W
	p.CheckDead()
	f := w.At(p, "db.connect", c.dsn)
	if err := wait(ctx, p, latency(p, "db.connect")); err != nil {
		return nil, err
	}
	in := Instances[c.dsn]
	if err := strike(ctx, p, f, in); err != nil {
		return nil, err
	}
	if in == nil || driverOf(in.Dialect) != c.d.name {
		return nil, fmt.Errorf("%s: cannot parse or reach data source %q", c.d.name, c.dsn)
	}
	p.Conns++
	if p.Conns > p.ConnsMax {
		p.ConnsMax = p.Conns
	}
	return &conn{p: p, in: in, id: w.NextConn()}, nil
}

type conn struct {
	p      *world.Proc
	in     *Instance
	id     int
	closed bool
	broken bool
	batch  []string
	inB    bool
	snap   *db.Catalog
}

var (
	_ driver.ExecerContext      = (*conn)(nil)
	_ driver.QueryerContext     = (*conn)(nil)
	_ driver.Pinger             = (*conn)(nil)
	_ driver.SessionResetter    = (*conn)(nil)
	_ driver.Validator          = (*conn)(nil)
	_ driver.ConnBeginTx        = (*conn)(nil)
	_ driver.ConnPrepareContext = (*conn)(nil)
)

func (c *conn) Close() error {
	if c.closed {
		return nil
	}
	c.closed = true
	c.p.Conns--
	if c.p.Dead {
		return nil
	}
	f := world.W.At(c.p, "db.close", fmt.Sprint("conn ", c.id))
	if c.inB {
		world.W.Log(c.p, "batch of %d discarded", len(c.batch))
	}
	if f != nil {
		switch f.Kind {
		case "kill":
			world.W.Kill(c.p)
		case "error", "lost":
			return errReset
		}
	}
	return nil
}

func (c *conn) IsValid() bool                          { return !c.broken }
func (c *conn) ResetSession(ctx context.Context) error { return nil }

func (c *conn) Ping(ctx context.Context) error {
	c.p.CheckDead()
	f := world.W.At(c.p, "db.ping", "")
	if err := wait(ctx, c.p, latency(c.p, "db.ping")); err != nil {
		return err
	}
	if err := strike(ctx, c.p, f, c.in); err != nil {
		c.broken = true
		return err
	}
	return nil
}

func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }
func (c *conn) BeginTx(ctx context.Context, _ driver.TxOptions) (driver.Tx, error) {
	c.p.CheckDead()
	f := world.W.At(c.p, "db.begin", "")
	if err := strike(ctx, c.p, f, c.in); err != nil {
		return nil, err
	}
	c.snap = c.in.Cat.Clone()
	return tx{c}, nil
}

type tx struct{ c *conn }

func (t tx) Commit() error {
	t.c.p.CheckDead()
	f := world.W.At(t.c.p, "db.commit", "")
	if err := strike(context.Background(), t.c.p, f, t.c.in); err != nil {
		_ = t.Rollback()
		return err
	}
	t.c.snap = nil
	return nil
}

func (t tx) Rollback() error {
	if t.c.snap != nil && t.c.in.Dialect == db.Postgres {
		t.c.in.set(t.c.p, "ROLLBACK", t.c.snap)
	}
	t.c.snap = nil
	return nil
}

func (in *Instance) set(p *world.Proc, what string, c *db.Catalog) {
	in.Cat = c
	world.W.Log(p, "%s", what)
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c, q}, nil }
func (c *conn) PrepareContext(_ context.Context, q string) (driver.Stmt, error) {
	return &stmt{c, q}, nil
}

type stmt struct {
	c *conn
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.c.ExecContext(context.Background(), s.q, named(a))
}
func (s *stmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, named(a))
}
func named(a []driver.Value) []driver.NamedValue {
	var o []driver.NamedValue
	for i, v := range a {
		o = append(o, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return o
}

var (
	reBatch = regexp.MustCompile(`(?i)^\s*(START\s+BATCH\s+DDL|RUN\s+BATCH|ABORT\s+BATCH)\s*;?\s*$`)
	reRead  = regexp.MustCompile(`(?is)^\s*(--[^\n]*\n|/\*.*?\*/|\s)*(SELECT|SHOW|WITH|EXPLAIN)\b`)
)

// IsRead reports whether a statement only reads.
func IsRead(q string) bool { return reRead.MatchString(q) }

// run applies one request to the server, once.
func (in *Instance) run(p *world.Proc, connID int, q string, ack bool) error {
	w := world.W
	stmts, serr := db.SplitStatements(in.Dialect, q)
	before := in.Cat.Clone()
	e := world.Exec{Proc: p.ID, DSN: in.DSN, Stmt: q, At: w.Now(), Conn: connID, StdoutLen: len(p.Stdout), Batch: in.batch}
	var err error
	switch {
	case serr != nil:
		err = serr
	case len(stmts) == 0:
		// an empty query succeeds on PostgreSQL and is an error elsewhere
		if in.Dialect == db.MySQL || in.Dialect == db.Spanner {
			err = errors.New("Error 1065 (42000): Query was empty")
		}
	case len(stmts) > 1 && (in.Dialect == db.MySQL || in.Dialect == db.Spanner):
		err = errors.New("Error 1064 (42000): You have an error in your SQL syntax; one statement per request")
	default:
		n := in.Cat.Clone()
		for _, s := range stmts {
			if err = n.Exec(s); err != nil {
				break
			}
		}
		if err == nil {
			in.Cat = n
			e.Applied = true
		}
	}
	if err != nil {
		e.Err = err.Error()
		if in.Dialect == db.Postgres || in.Dialect == db.CRDB {
			err = errors.New("pq: " + e.Err)
			e.Err = err.Error()
		}
	}
	if e.Applied {
		e.Changed = before.JSON() != in.Cat.JSON()
		in.applied++
	}
	w.Execs = append(w.Execs, e)
	w.Log(p, "server: applied=%v err=%q: %s", e.Applied, e.Err, q)
	if in.OnDDL != nil {
		in.OnDDL(&w.Execs[len(w.Execs)-1], before, in.Cat)
	}
	return err
}

func (c *conn) note(q string, err error) {
	world.W.Execs = append(world.W.Execs, world.Exec{Proc: c.p.ID, DSN: c.in.DSN, Stmt: q, At: world.W.Now(), Err: fmt.Sprint(err), Injected: true, Conn: c.id, StdoutLen: len(c.p.Stdout)})
}

func (c *conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	p, w := c.p, world.W
	p.CheckDead()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	m := reBatch.FindString(q)
	if c.in.Dialect != db.Spanner {
		m = ""
	}
	if c.in.Dialect == db.Spanner && m == "" && c.inB {
		// the client library buffers the statement; nothing is sent
		w.Log(p, "buffered: %s", q)
		if f := w.At(p, "db.buffer", ""); f != nil {
			if err := strike(ctx, p, f, c.in); err != nil {
				if f.Kind != "error" {
					c.broken = true
				}
				return nil, err
			}
		}
		c.batch = append(c.batch, q)
		return driver.ResultNoRows, nil
	}
	f := w.At(p, "db.exec", q)
	if err := wait(ctx, p, latency(p, "db.exec")); err != nil {
		return nil, err
	}
	if f != nil && f.Kind != "lost-after" && f.Kind != "kill-after" && f.Kind != "cancel-after" && f.Kind != "lost-before" && f.Kind != "batch-stop" || w.Now() < p.DownTill {
		if err := strike(ctx, p, f, c.in); err != nil {
			c.note(q, err)
			if f == nil || f.Kind != "error" {
				c.broken = true
			}
			return nil, err
		}
	}
	if f != nil && f.Kind == "lost-before" {
		c.note(q, errReset)
		c.broken = true
		return nil, errReset
	}
	var err error
	u := strings.ToUpper(strings.Join(strings.Fields(strings.TrimRight(strings.TrimSpace(m), ";")), " "))
	switch u {
	case "START BATCH DDL":
		if c.inB {
			err = errors.New("spanner: code = \"FailedPrecondition\", desc = \"This connection already has an active batch.\"")
		} else {
			c.inB, c.batch = true, nil
			w.Log(p, "batch started on conn %d", c.id)
		}
	case "ABORT BATCH":
		if !c.inB {
			err = errors.New("spanner: code = \"FailedPrecondition\", desc = \"This connection does not have an active batch\"")
		}
		c.inB, c.batch = false, nil
	case "RUN BATCH":
		if !c.inB {
			err = errors.New("spanner: code = \"FailedPrecondition\", desc = \"This connection does not have an active batch\"")
			break
		}
		b := c.batch
		c.inB, c.batch = false, nil
		p.Batches = append(p.Batches, b)
		c.in.batch = len(p.Batches)
		// statements run in order; the first failure stops the operation, earlier ones stay
		for i, s := range b {
			if f != nil && f.Kind == "batch-stop" && i >= f.Arg%len(b) {
				err = errors.New("spanner: code = \"Internal\", desc = \"schema change operation failed\"")
				c.note(s, err)
				break
			}
			if strings.TrimSpace(s) == "" {
				err = errors.New("spanner: code = \"InvalidArgument\", desc = \"empty DDL statement\"")
				break
			}
			if err = c.in.run(p, c.id, s, true); err != nil {
				break
			}
		}
		c.in.batch = 0
	default:
		if IsRead(q) {
			_, err = c.in.Cat.Query(q, params(args), c.shuffle)
		} else {
			err = c.in.run(p, c.id, q, f == nil || f.Kind != "lost-after")
		}
	}
	if f != nil {
		switch f.Kind {
		case "lost-after":
			c.broken = true
			return nil, errReset
		case "kill-after":
			w.Kill(p)
		case "cancel-after":
			w.DoCancel(p)
			if e := ctx.Err(); e != nil {
				return nil, e
			}
		}
	}
	if e := wait(ctx, p, latency(p, "db.exec")/2); e != nil {
		return nil, e
	}
	if err != nil {
		return nil, err
	}
	return driver.ResultNoRows, nil
}

func params(args []driver.NamedValue) []any {
	var ps []any
	for _, a := range args {
		ps = append(ps, a.Value)
	}
	return ps
}

func (c *conn) shuffle(n int, swap func(i, j int)) {
	w := world.W
	k := uint64(c.p.Counts["db.query"])
	for i := n - 1; i > 0; i-- {
		swap(i, int(w.Hash(3, uint64(c.p.ID), k, uint64(i), uint64(n))%uint64(i+1)))
	}
}

func (c *conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	p, w := c.p, world.W
	p.CheckDead()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	f := w.At(p, "db.query", q)
	if err := wait(ctx, p, latency(p, "db.query")); err != nil {
		return nil, err
	}
	if err := strike(ctx, p, f, c.in); err != nil {
		if f == nil || f.Kind != "error" {
			c.broken = true
		}
		return nil, err
	}
	if !IsRead(q) {
		// a statement sent through the query path is executed all the same
		if err := c.in.run(p, c.id, q, true); err != nil {
			return nil, err
		}
		return &rows{c: c, ctx: ctx}, nil
	}
	if len(c.in.Cat.Dialect) == 0 {
		return nil, errReset
	}
	if c.in.Dialect == db.Spanner && c.inB {
		return nil, errors.New("spanner: code = \"FailedPrecondition\", desc = \"cannot execute query in a DDL batch\"")
	}
	res, err := c.in.Cat.Query(q, params(args), c.shuffle)
	if err != nil {
		w.Log(p, "server: query error %v", err)
		return nil, err
	}
	p.Rows++
	return &rows{c: c, ctx: ctx, res: res, open: true}, nil
}

type rows struct {
	c    *conn
	ctx  context.Context
	res  *db.Result
	i    int
	open bool
}

func (r *rows) Columns() []string {
	if r.res == nil {
		return nil
	}
	return r.res.Cols
}

func (r *rows) Close() error {
	if r.open {
		r.open = false
		r.c.p.Rows--
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) error {
	p := r.c.p
	p.CheckDead()
	if r.res == nil {
		return io.EOF
	}
	f := world.W.At(p, "db.row", fmt.Sprint(r.i))
	if f != nil {
		switch f.Kind {
		case "error", "lost", "badconn", "down":
			r.c.broken = true
			if f.Kind == "down" {
				p.DownTill = world.W.Now() + time.Duration(f.Arg+1)*300*time.Millisecond
			}
			if f.Kind == "badconn" {
				return driver.ErrBadConn
			}
			if f.Kind == "error" {
				return serverError(r.c.in, f.Arg)
			}
			return errReset
		case "eof":
			r.c.broken = true
			return io.ErrUnexpectedEOF
		case "slow":
			if err := wait(r.ctx, p, time.Duration(f.Arg+1)*time.Second); err != nil {
				return err
			}
		case "kill":
			world.W.Kill(p)
		case "cancel":
			world.W.DoCancel(p)
			if err := r.ctx.Err(); err != nil {
				return err
			}
		}
	}
	if err := r.ctx.Err(); err != nil {
		return err
	}
	if r.i >= len(r.res.Rows) {
		return io.EOF
	}
	for i := range dest {
		v := r.res.Rows[r.i][i]
		if s, ok := v.(string); ok && r.c.in.Dialect != db.Spanner {
			v = []byte(s) // the real drivers deliver text as bytes
		}
		dest[i] = v
	}
	r.i++
	return nil
}
