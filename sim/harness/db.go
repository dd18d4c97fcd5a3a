package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"sort"
	"strings"

	query "github.com/amarin/query"
	fmt "github.com/amarin/query/zz_verif/simfmt"
	"github.com/amarin/query/zz_verif/simrt"
)

// The simulated database: the real database/sql on top of a driver whose network and server are simulated.

const dbRows = 48

type simDB struct {
	w   *World
	sql *sql.DB
}

type tagKey struct{}

// delivery is the tag of one execution, carried by the context.
type delivery struct {
	c      *taskCtx
	s      *slot
	target *slot
	calls  int // deliveries and connection attempts
}

type execResult struct {
	acked    bool
	attempts int
	applied  int
}

func openDB(w *World) *simDB {
	d := &simDB{w: w}
	d.sql = sql.OpenDB(d)
	return d
}

// Connect implements driver.Connector.
func (d *simDB) Connect(ctx context.Context) (driver.Conn, error) {
	if t, ok := ctx.Value(tagKey{}).(*delivery); ok {
		simrt.Sleep(1000000)
		for _, f := range d.w.faults {
			if f.Op == t.s.op.ID && f.Kind == "connect" && f.Call == t.calls+1 {
				t.calls++
				t.c.fired("connect")
				return nil, errors.New("simulated: connection refused")
			}
		}
	}
	return &simConn{d: d}, nil
}

// Driver implements driver.Connector.
func (d *simDB) Driver() driver.Driver { return d }

// Open implements driver.Driver.
func (d *simDB) Open(string) (driver.Conn, error) { return &simConn{d: d}, nil }

type simConn struct {
	d   *simDB
	bad bool
}

func (c *simConn) Prepare(string) (driver.Stmt, error) { return nil, errors.New("not supported") }
func (c *simConn) Close() error                        { return nil }
func (c *simConn) Begin() (driver.Tx, error)           { return nil, errors.New("not supported") }
func (c *simConn) IsValid() bool                       { return !c.bad }

// CheckNamedValue passes every parameter on as it is.
func (c *simConn) CheckNamedValue(*driver.NamedValue) error { return nil }

var errReset = errors.New("simulated: connection reset by peer")

// deliver is one delivery over the simulated network.
func (c *simConn) deliver(ctx context.Context, sql string, args []driver.NamedValue) (rows []int, err error) {
	t, ok := ctx.Value(tagKey{}).(*delivery)
	if !ok {
		return nil, errors.New("no tag")
	}
	t.calls++
	simrt.Sleep(int64(1+(t.calls*7+t.s.op.ID*3)%11) * 1000000)
	lostAck := false
	for _, f := range c.d.w.faults {
		if f.Op != t.s.op.ID || f.Call != t.calls {
			continue
		}
		switch f.Kind {
		case "lostreq":
			t.c.fired("lostreq")
			c.bad = true
			return nil, driver.ErrBadConn
		case "lostack":
			t.c.fired("lostack")
			lostAck = true
		case "stall":
			t.c.fired("stall")
			simrt.Sleep(5000000000)
		}
	}
	var why string
	if c.d.w.prog.Prop == "C18" {
		rows, why = c.d.serve(t, sql, args)
	} else {
		rows, why = c.d.apply(t, sql, args)
	}
	if why != "" {
		c.d.w.violate(t.s, "%s\n  object: %s\n  delivered: %s %v", why, t.target.op, sql, args)
		return nil, errors.New(why)
	}
	simrt.Sleep(1000000)
	if lostAck {
		c.bad = true
		return nil, errReset
	}
	return rows, nil
}

// cell is the truth of a leaf condition on a row of the data set.
func (d *simDB) cell(col, op string, row int) int {
	switch row {
	case 0:
		return vT
	case 1:
		return vF
	}
	r := simrt.NewRng(d.w.prog.Seed+uint64(row)*1000003, col+op)
	k := r.Intn(20)
	switch {
	case k < 2 && op != "NULL":
		return vN
	case k < 11:
		return vT
	}
	return vF
}

// apply executes a statement on the server and compares the rows it affects with those its derivation denotes.
func (d *simDB) apply(t *delivery, text string, args []driver.NamedValue) (rows []int, why string) {
	t.s.exec.applied++
	t.c.checks++
	m := t.target.model
	st, err := parseStmt(text)
	if err != nil {
		return nil, "the server refuses the statement: " + err.Error()
	}
	params := make([]any, len(args))
	for i, a := range args {
		params[i] = a.Value
	}
	if d.w.prog.Prop == "C09" {
		if mw, ok := m.(MWrite); ok {
			if r := mw.refused(); r != "" {
				return nil, mw.Verb + " with " + r + " reached the database"
			}
			if mw.Verb != "INSERT" {
				if why := guarded(mw, text); why != "" {
					return nil, why
				}
			}
		}
		return nil, ""
	}
	want, _ := whereOfModel(m)
	wrong := ""
	byName := map[string][]*MLeaf{}
	for _, l := range want.leaves(false, nil) {
		k := l.L.F.Name + " " + l.L.Op
		byName[k] = append(byName[k], l.L)
	}
	for row := 0; row < dbRows; row++ {
		a := want.eval(func(l *MLeaf) int { return d.cell(l.F.Name, l.Op, row) })
		b := st.Where.eval(func(l *PLeaf) int {
			given := byName[bare(l.Field)+" "+l.Op]
			if len(given) == 0 {
				wrong = fmt.Sprintf("condition %s %s was never given", l.Field, l.Op)
				return vF
			}
			carried := false
			for _, ml := range given {
				ok := l.Op == "NULL" || len(l.Phs) == ml.Val.Count()
				for i, ph := range l.Phs {
					n := st.Phs[ph].n - 1
					ok = ok && n >= 0 && n < len(params) && ml.Val.matches(l.Op, i, params[n])
				}
				carried = carried || ok
			}
			if !carried {
				wrong = fmt.Sprintf("condition %s %s has another value than the one given", l.Field, l.Op)
			}
			return d.cell(bare(l.Field), l.Op, row)
		})
		if wrong != "" {
			return nil, wrong
		}
		if (a == vT) != (b == vT) {
			return nil, fmt.Sprintf("row %d is affected: %v, denoted: %v by %s", row, b == vT, a == vT, want)
		}
		if a == vT {
			rows = append(rows, row)
		}
	}
	if st.LimitN > 0 && len(rows) > st.LimitN {
		rows = rows[:st.LimitN]
	}
	return rows, ""
}

// serve executes a statement with nothing but its text and parameters: the rows found or affected, or their number.
func (d *simDB) serve(t *delivery, text string, args []driver.NamedValue) (rows []int, why string) {
	t.s.exec.applied++
	st, err := parseStmt(text)
	if err != nil {
		return nil, "the server refuses the statement: " + err.Error()
	}
	param := func(ph int) any {
		if n := st.Phs[ph].n - 1; n >= 0 && n < len(args) {
			return args[n].Value
		}
		why = "the server refuses the statement: a parameter is missing"
		return nil
	}
	table, _, _ := strings.Cut(st.Table, " AS ")
	data := simrt.NewRng(d.w.prog.Seed, table).U64()
	number := func(ph int) int {
		n, ok := param(ph).(uint)
		if !ok {
			why = "the server refuses the statement: OFFSET or LIMIT is no number"
		}
		return int(n)
	}
	from := make([]int, dbRows)
	for row := range from {
		from[row] = row + 1
	}
	for _, j := range st.Joins {
		var joined []int
		for _, row := range from {
			k := simrt.NewRng(data+uint64(row)*1000003, j).Intn(8)
			if k > 0 || strings.HasPrefix(j, "LEFT") || strings.HasPrefix(j, "FULL") {
				joined = append(joined, row*3)
			}
			if k > 6 { // a second row matches
				joined = append(joined, row*3+1)
			}
		}
		from = joined
	}
	for _, row := range from {
		if st.Where == nil || st.Where.eval(func(l *PLeaf) int {
			var ps []any
			for _, ph := range l.Phs {
				ps = append(ps, param(ph))
			}
			switch k := simrt.NewRng(data+uint64(row)*1000003, bare(l.Field)+l.Op+paramText(ps)).Intn(20); {
			case k < 2 && l.Op != "NULL":
				return vN
			case (k < 16) != l.Neg:
				return vT
			}
			return vF
		}) == vT {
			rows = append(rows, row)
		}
	}
	if len(st.Order) > 0 {
		rank := func(row int) (r []int) {
			for _, o := range st.Order {
				col, dir, _ := strings.Cut(o, " ")
				k := simrt.NewRng(data+uint64(row)*1000003, "order"+col).Intn(4)
				if dir == "DESC" {
					k = -k
				}
				r = append(r, k)
			}
			return r
		}
		sort.SliceStable(rows, func(i, j int) bool {
			a, b := rank(rows[i]), rank(rows[j])
			for k := range a {
				if a[k] != b[k] {
					return a[k] < b[k]
				}
			}
			return false
		})
	}
	most := st.LimitN
	if st.Limit >= 0 {
		most = number(st.Limit)
	}
	if st.Offset >= 0 {
		rows = rows[min(number(st.Offset), len(rows)):]
	}
	if most > 0 && len(rows) > most {
		rows = rows[:most]
	}
	if st.Verb == "COUNT" {
		n := 0
		for _, row := range rows {
			if st.Count == "*" || simrt.NewRng(data+uint64(row)*1000003, "null"+bare(st.Count)).Intn(6) > 0 {
				n++
			}
		}
		rows = []int{n}
	}
	return rows, why
}

type simResult int

func (r simResult) LastInsertId() (int64, error) { return 0, nil }
func (r simResult) RowsAffected() (int64, error) { return int64(r), nil }

func (c *simConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	rows, err := c.deliver(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return simResult(len(rows)), nil
}

type simRowsIt struct {
	rows []int
	i    int
}

func (r *simRowsIt) Columns() []string { return []string{"id"} }
func (r *simRowsIt) Close() error      { return nil }
func (r *simRowsIt) Next(dest []driver.Value) error {
	if r.i >= len(r.rows) {
		return io.EOF
	}
	dest[0] = int64(r.rows[r.i])
	r.i++
	return nil
}

func (c *simConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	rows, err := c.deliver(ctx, q, args)
	if err != nil {
		return nil, err
	}
	return &simRowsIt{rows: rows}, nil
}

const maxAttempts = 12

// exec executes the statement of an object, building it anew for every attempt.
func (c *taskCtx) exec(s, target *slot) {
	w := c.w
	s.exec = &execResult{}
	ctx := context.WithValue(context.Background(), tagKey{}, &delivery{c: c, s: s, target: target})
	write := target.kind == "ins" || target.kind == "upd" || target.kind == "del"
	for try := 0; try < maxAttempts; try++ {
		s.exec.attempts++
		text, params, err := target.obj.(builder).BuildQueryAndParams()
		if simrt.Dying() {
			return
		}
		if ref := refusal(target.model); ref != "" {
			c.checks++
			if err == nil && w.prog.Prop == "C09" {
				w.violate(s, "%s was built with %s: %s", target.op, ref, text)
				return
			}
			if err != nil && text != "" && w.prog.Prop == "C09" {
				w.violate(s, "%s with %s was refused, but a statement was handed out: %s", target.op, ref, text)
				return
			}
			if try == 1 {
				s.exec.acked = true
				return // refused again
			}
			simrt.Sleep(1000000)
			continue
		}
		if err != nil {
			if w.prog.Prop != "C09" {
				w.violate(s, "the statement of %s cannot be built: %v", target.op, err)
			}
			return
		}
		if write {
			_, err = w.db.sql.ExecContext(ctx, text, params...)
		} else {
			var rows *sql.Rows
			rows, err = w.db.sql.QueryContext(ctx, text, params...)
			if err == nil {
				for rows.Next() {
					var id int64
					if err = rows.Scan(&id); err != nil {
						break
					}
				}
				rows.Close()
			}
		}
		if simrt.Dying() || s.viol != nil {
			return
		}
		if err == nil {
			s.exec.acked = true
			return
		}
		simrt.Sleep(int64(10000000 << uint(try)))
	}
	w.violate(s, "the statement of %s was not acknowledged in %d attempts although connection failures had stopped", target.op, maxAttempts)
}

// fetch executes the statement of a builder until it is acknowledged, building it anew for every attempt.
// It returns what a query finds or counts, or the number of rows another statement affects.
func (c *taskCtx) fetch(ctx context.Context, s *slot, b builder, what string) (found []int, ok bool) {
	for try := 0; try < maxAttempts; try++ {
		s.exec.attempts++
		text, params, err := b.BuildQueryAndParams()
		if simrt.Dying() {
			return nil, false
		}
		if err != nil {
			c.w.violate(s, "%s cannot be built: %v", what, err)
			return nil, false
		}
		found = nil
		if strings.HasPrefix(text, "SELECT") {
			var rows *sql.Rows
			if rows, err = c.w.db.sql.QueryContext(ctx, text, params...); err == nil {
				for err == nil && rows.Next() {
					var id int
					err = rows.Scan(&id)
					found = append(found, id)
				}
				rows.Close()
			}
		} else {
			var res sql.Result
			if res, err = c.w.db.sql.ExecContext(ctx, text, params...); err == nil {
				n, _ := res.RowsAffected()
				found = []int{int(n)}
			}
		}
		if simrt.Dying() || s.viol != nil {
			return nil, false
		}
		if err == nil {
			return found, true
		}
		simrt.Sleep(int64(10000000 << uint(try)))
	}
	c.w.violate(s, "%s was not acknowledged in %d attempts although connection failures had stopped", what, maxAttempts)
	return nil, false
}

// browse reads what a select finds in several ways, which must agree: C18.
func (c *taskCtx) browse(s, target *slot) {
	s.exec = &execResult{}
	ctx := context.WithValue(context.Background(), tagKey{}, &delivery{c: c, s: s, target: target})
	var base query.BaseSelectBuilder
	var list query.SelectManyBuilder
	switch x := target.obj.(type) {
	case query.BaseSelectBuilder:
		base, list = x, x.Many()
	case query.SelectManyBuilder:
		base, list = x.BaseSelectBuilder, x
	case query.SelectSingleBuilder:
		base, list = x.BaseSelectBuilder, x.Many()
	}
	single, isSingle := target.obj.(query.SelectSingleBuilder)
	if !isSingle {
		single = base.Single()
	}
	way := 0
	if len(s.op.N) > 2 {
		way = s.op.N[2]
	}
	pick := func(bs ...builder) builder { // one of several that are to do the same
		b := bs[way%4%len(bs)]
		way /= 4
		return b
	}
	m := target.model.(MSelect)
	all, ok := c.fetch(ctx, s, list.Offset(0).Limit(-1), "the list")
	if !ok {
		return
	}
	compare := func(what string, b builder, want []int) bool {
		c.checks++
		got, ok := c.fetch(ctx, s, b, what)
		if !ok {
			return false
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.w.violate(s, "%s: expected %v, found %v; the whole list is %v\n  object: %s", what, want, got, all, target.op)
			return false
		}
		return true
	}
	part := func(offset uint, limit int) []int {
		r := all
		if offset >= uint(len(r)) {
			return nil
		}
		r = r[offset:]
		if limit > 0 && limit < len(r) {
			r = r[:limit]
		}
		return r
	}
	how := s.op.N[1]
	if how&1 != 0 && !compare("the count", pick(base.Count(), list.Count(), query.Count(base), single.Count()), []int{len(all)}) {
		return
	}
	if target.kind == "many" && !compare("the page", list, part(m.Offset, m.Limit)) {
		return
	}
	if how&2 != 0 {
		first, ok := c.fetch(ctx, s, pick(base.Many(), base, query.SelectManyFromBase(base), single.Many()), "the list without order")
		if !ok {
			return
		}
		if len(first) > 1 {
			first = first[:1]
		}
		if !compare("the single row", pick(base.Single(), single, query.SelectSingleFromBase(base), list.Single()), first) {
			return
		}
	}
	if how&4 != 0 {
		size := s.op.N[0]
		for page := 0; page*size <= len(all) && page < 8; page++ {
			var b builder = list.Offset(uint(page * size)).Limit(size)
			if page%2 == 1 {
				b = list.Limit(size).Offset(uint(page * size))
			}
			if !compare(fmt.Sprintf("page %d of %d rows each", page+1, size), b, part(uint(page*size), size)) {
				return
			}
		}
	}
	if how&24 == 0 || len(m.Joins) > 0 || m.Where.expr() == nil {
		return
	}
	set := query.FieldName("changed").Value(1)
	if l := m.Where.expr().leaves(false, nil); how&4 == 0 && len(l) > 0 {
		set = query.FieldName(l[0].L.F.Name).Value(1)
	}
	var b builder
	if how&8 == 0 || how&16 == 0 {
		b = pick(list.Update(set), base.Update(set), single.Update(set), single.Many().Update(set))
	} else {
		b = pick(list.Delete(), base.Delete(), single.Delete(), list.Single().Delete())
	}
	compare("the change made from it", b, []int{len(all)})
}

var _ query.FieldName
