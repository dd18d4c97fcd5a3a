package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	fmt "github.com/amarin/query/zz_verif/simfmt"
	"io"
	"io/fs"
	"math"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"

	query "github.com/amarin/query"
	"github.com/amarin/query/zz_verif/simrt"
	"github.com/amarin/query/zz_verif/simuser"
)

// statefulValues tells to use values that count how often they are asked.
var statefulValues bool

func init() { simuser.Ask = func(key string, id int) (any, error) { return callback(key, id, true) } }

// Val describes a value given to a condition or a column; every value is unique in its program.
type Val struct {
	K  string `json:"k"`
	ID int    `json:"id"`
	N  int    `json:"n,omitempty"`
}

func (v Val) String() string { return v.K + "#" + strconv.Itoa(v.ID) }

// Count is the number of parameters the value stands for.
func (v Val) Count() int {
	switch v.K {
	case "strs", "valuers", "provs", "cvals", "pvals", "ivals", "nvals", "npvals", "nprovs", "dups", "uvals":
		return v.N
	}
	return 1
}

// callback reports whether user code runs when the value is converted.
func (v Val) callback() bool {
	switch v.K {
	case "valuer", "pvaluer", "prov", "pprov", "pvnil", "pvint", "valuers", "provs", "cvals", "pvals", "ivals", "nvals", "npvals", "nprovs", "arr", "vnil", "vint", "uvals":
		return true
	}
	return false
}

// canFail reports whether converting can return an error.
func (v Val) canFail() bool {
	switch v.K {
	case "valuer", "pvaluer", "valuers", "cvals", "pvals", "ivals", "nvals", "npvals", "arr", "vnil", "vint":
		return true
	}
	return false
}

func (v Val) key(i int) string {
	switch v.K {
	case "bulk":
		return fmt.Sprintf("v%d-", v.ID) + strings.Repeat(strconv.Itoa(v.ID%10)+"ab", 23500) + "."
	case "valuers", "provs", "cvals", "strs", "pvals", "ivals", "nvals", "npvals", "nprovs", "dups", "uvals":
	default:
		return fmt.Sprintf("%sv%d%s", heads[v.ID/7%len(heads)], v.ID, tails[v.ID%len(tails)])
	}
	return fmt.Sprintf("v%d_%d%s", v.ID, i, tails[(v.ID+i)%len(tails)])
}

// tails of texts: whatever a text contains, it is a value. Their number divides the shift of otherNames.
var tails = []string{"", "", "", "", "", "%", " $1", " ?", "%_\\", " ", "'; --", "\"`", "\x00", "\xff", " NULL", "\n\t", "Éé", strings.Repeat(" long", 100), ",", ")"}

// heads of texts, likewise.
var heads = []string{"", "", "", "", "", "", "", "", "", "", "", "", "%", "%", "$2 ", " ", "'", "NULL ", "(", "\\%"}

// odd are values of types seldom used.
func (v Val) odd() (given, stored any) {
	n, text := v.ID, v.key(0)
	switch v.ID % 20 {
	case 0:
		given = uint64(1)<<63 + uint64(n)
	case 1:
		given = int8(n)
	case 2:
		given = uint16(n)
	case 3:
		given = float32(n) / 3
	case 4:
		given = math.Inf(n%3 - 1)
	case 5:
		return sql.NullString{String: text, Valid: true}, text
	case 6:
		return sql.NullInt64{Int64: int64(n)}, nil
	case 7:
		given = json.RawMessage(text)
	case 8:
		given = [4]byte{byte(n), byte(n >> 8)}
	case 9:
		given = map[string]int{text: n}
	case 10:
		given = struct{ A, B any }{n, text}
	case 11:
		given = []any{text, n}
	case 12:
		given = []bool{true, n%3 == 0}
	case 13:
		given = time.Duration(n) * time.Millisecond
	case 14:
		given = time.Unix(1700000000+int64(n), 123456789).In(time.FixedZone("east", 3*3600))
	case 15:
		given = &n
	case 16:
		given = [][]byte{[]byte(text)}
	case 17:
		given = errInjected
	case 18:
		return &sql.NullTime{Time: time.Unix(int64(n), 1).UTC(), Valid: true}, time.Unix(int64(n), 1).UTC()
	case 19:
		given = complex(float64(n), 1)
	}
	return given, given
}

// none tells whether the i-th element is nil.
func (v Val) none(i int) bool { return i == v.ID%3 }

// scalar is the database value of the i-th element.
func (v Val) scalar(i int) any {
	switch v.K {
	case "int":
		return 100000 + v.ID
	case "int64":
		return int64(200000 + v.ID)
	case "nil":
		return nil
	case "bytes":
		return []byte(v.key(0))
	case "ints":
		return []int{300000 + v.ID, 300001 + v.ID}
	case "bool":
		return v.ID%2 == 0
	case "float":
		return float64(v.ID) + 0.5
	case "time":
		return time.Unix(1700000000+int64(v.ID), 0).UTC()
	case "named":
		return names{v.key(0), "n"}
	case "odd":
		_, stored := v.odd()
		return stored
	case "zero":
		return []any{"", 0, int64(0), false, []byte{}, 0.0, time.Time{}, uint8(0), []byte(nil)}[v.ID%9]
	case "ptr":
		s := v.key(0)
		return &s
	case "vnil", "pnil", "pvnil":
		return nil
	case "selfnil":
		return int64(600000)
	case "vint", "pvint":
		n, forms := v.ID/3, 14
		if v.K == "pvint" { // FieldName.Value takes what it provides as the value
			forms = 8
		}
		return []any{int64(500000 + n), int64(500000 + n), int64(500000 + n), []byte(v.key(0)), time.Unix(int64(n), 0).UTC(), n%2 == 0, float64(n) / 4, "",
			[]string{v.key(0), "n"}, []string{}, []any{n, v.key(0)}, simValuer{v.key(0), v.ID}, (*simValuer)(nil), []driver.Valuer{simValuer{v.key(0), v.ID}}}[v.ID%forms]
	case "dups":
		if i%3 == 1 {
			return ""
		}
		return v.key(0)
	case "ivals", "nvals", "npvals", "nprovs":
		if v.none(i) {
			return nil
		}
	}
	return v.key(i)
}

// matches tells whether a parameter is the i-th parameter of this value.
func (v Val) matches(op string, i int, p any) bool {
	want := v.scalar(i)
	if op == "LIKE" || op == "ILIKE" {
		want = "%" + v.key(0) + "%"
	}
	if _, text := want.(string); v.callback() && text { // a provider may return a new value on each call: v12#3
		s, ok := p.(string)
		if !ok {
			return false
		}
		if j := strings.IndexByte(s, '#'); j >= 0 {
			s = s[:j]
		}
		return s == want
	}
	return reflect.DeepEqual(want, p)
}

// make builds the object the caller passes.
func (v Val) make() any {
	switch v.K {
	case "str", "bulk":
		return v.key(0)
	case "int", "int64", "nil", "bytes", "ints", "bool", "float", "time", "named", "zero", "ptr":
		return v.scalar(0)
	case "odd":
		given, _ := v.odd()
		return given
	case "vnil", "vint":
		return constValuer{v}
	case "pvnil", "pvint":
		return constProvider{v}
	case "pprov":
		return &simProvider{v.key(0), v.ID}
	case "pnil":
		return (*simValuer)(nil)
	case "selfnil":
		return (*nilValuer)(nil)
	case "nprovs":
		r := make([]query.ValueProvider, v.N)
		for i := range r {
			if !v.none(i) {
				r[i] = simProvider{v.key(i), v.ID}
			}
		}
		return r
	case "npvals":
		r := make([]*simValuer, v.N)
		for i := range r {
			if !v.none(i) {
				r[i] = &simValuer{v.key(i), v.ID}
			}
		}
		return r
	case "valuer":
		return simValuer{v.key(0), v.ID}
	case "pvaluer":
		if statefulValues && v.ID%2 == 0 {
			return &simuser.State{Key: v.key(0), ID: v.ID}
		}
		return &simValuer{v.key(0), v.ID}
	case "prov":
		return simProvider{v.key(0), v.ID}
	case "strs":
		r := make([]string, v.N)
		for i := range r {
			r[i] = v.key(i)
		}
		return r
	case "valuers":
		r := make([]driver.Valuer, v.N)
		for i := range r {
			r[i] = simValuer{v.key(i), v.ID}
		}
		return r
	case "provs":
		r := make([]query.ValueProvider, v.N)
		for i := range r {
			r[i] = simProvider{v.key(i), v.ID}
		}
		return r
	case "cvals":
		r := make([]simValuer, v.N)
		for i := range r {
			r[i] = simValuer{v.key(i), v.ID}
		}
		return r
	case "pvals":
		r := make([]*simValuer, v.N)
		for i := range r {
			r[i] = &simValuer{v.key(i), v.ID}
		}
		return r
	case "dups":
		r := make([]string, v.N)
		for i := range r {
			r[i], _ = v.scalar(i).(string)
		}
		return r
	case "nvals":
		r := make([]driver.Valuer, v.N)
		for i := range r {
			if !v.none(i) {
				r[i] = simValuer{v.key(i), v.ID}
			}
		}
		return r
	case "ivals":
		r := make([]namedValuer, v.N)
		for i := range r {
			if !v.none(i) {
				r[i] = simValuer{v.key(i), v.ID}
			}
		}
		return r
	case "arr":
		return simArray{v.key(0), strconv.Itoa(v.ID)}
	}
	panic("harness: unknown value kind " + v.K)
}

// names is a list that stands for one parameter.
type names []string

// simArray is a list that converts itself to one parameter.
type simArray []string

// Value implements driver.Valuer.
func (a simArray) Value() (driver.Value, error) {
	id, _ := strconv.Atoi(a[1])
	return callback(a[0], id, true)
}

type simValuer struct {
	key string
	id  int
}

// Value implements driver.Valuer: user code that may suspend, fail, panic, exit or return a new value each time.
func (v simValuer) Value() (driver.Value, error) { return callback(v.key, v.id, true) }

// constValuer always converts to the same value.
type constValuer struct{ v Val }

// Value implements driver.Valuer.
func (c constValuer) Value() (driver.Value, error) {
	if _, err := callback(c.v.key(0), c.v.ID, true); err != nil {
		return nil, err
	}
	return c.v.scalar(0), nil
}

// nilValuer converts itself even when nil.
type nilValuer struct{}

// Value implements driver.Valuer.
func (v *nilValuer) Value() (driver.Value, error) {
	if v != nil {
		return nil, errInjected
	}
	return int64(600000), nil
}

// constProvider always provides the same value.
type constProvider struct{ v Val }

// DatabaseValue implements query.ValueProvider.
func (c constProvider) DatabaseValue() interface{} {
	_, _ = callback(c.v.key(0), c.v.ID, false)
	return c.v.scalar(0)
}

type simProvider struct {
	key string
	id  int
}

// Name makes it a namedValuer.
func (v simValuer) Name() string { return v.key }

// namedValuer is an interface of the caller that includes driver.Valuer.
type namedValuer interface {
	driver.Valuer
	Name() string
}

// DatabaseValue implements query.ValueProvider.
func (v simProvider) DatabaseValue() interface{} {
	r, _ := callback(v.key, v.id, false)
	return r
}

// Fault is one injected fault: at the k-th callback of value (or user condition) Val made by operation Op.
type Fault struct {
	Op   int    `json:"op"`
	Val  int    `json:"val"`
	Call int    `json:"call"`           // 1.. ; 0: every call
	More int    `json:"more,omitempty"` // how often the caller tries it before the attempt that is judged
	Kind string `json:"kind"`           // err panic exit stall reenter ; conn: lostreq lostack stall connect
}

var errInjected = errors.New("injected conversion failure")

// slowError is a failure that calls itself temporary.
type slowError struct{}

func (*slowError) Error() string   { return "injected timeout" }
func (*slowError) Timeout() bool   { return true }
func (*slowError) Temporary() bool { return true }

// failures are the errors user code fails with: whatever it is, it is a failure.
var failures = []error{errInjected, errInjected, errInjected, errInjected, sql.ErrNoRows, driver.ErrSkip, driver.ErrBadConn, driver.ErrRemoveArgument,
	context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrUnexpectedEOF, errors.ErrUnsupported, fs.ErrNotExist, (*slowError)(nil), &slowError{},
	fmt.Errorf("%w: injected", query.Error), fmt.Errorf("injected: %w", sql.ErrNoRows), errors.Join(errInjected, context.Canceled), sql.ErrTxDone}

func failure(id int) error { return failures[id%len(failures)] }

// failure is what user code fails with now: most failures say which one they are.
func (c *taskCtx) failure(id int) error {
	err := failure(id)
	c.failures++
	if err == errInjected || (id+c.failures)%3 == 0 {
		return fmt.Errorf("%w (number %d of caller %d)", err, c.failures, c.t)
	}
	return err
}

var failureMark = regexp.MustCompile(`\(number (\d+) of caller (\d+)\)`)

// foreign tells whether an error reports a failure that did not happen in the call that returned it.
func (c *taskCtx) foreign(err string) string {
	for _, m := range failureMark.FindAllStringSubmatch(err, -1) {
		if n, _ := strconv.Atoi(m[1]); m[2] != strconv.Itoa(c.t) || n <= c.failures0 {
			return m[0]
		}
	}
	return ""
}

type injectedPanic struct{ op, val, call int }

func (p injectedPanic) Error() string { return fmt.Sprintf("injected panic in value %d", p.val) }

// panicOf is what user code panics with.
func panicOf(op, id, n int) any {
	switch id % 8 {
	case 0:
		return nilPanic
	case 1:
		return failure(id / 8)
	case 2:
		return "injected panic"
	}
	return injectedPanic{op, id, n}
}

// nilPanic is the panic of using a nil pointer.
var nilPanic = func() (r any) {
	defer func() { r = recover() }()
	var p *Val
	return p.ID
}()

const siteCallback = 1

// stalls are how long user code takes when it takes long.
var stalls = []int64{1e6, 3e6, 20e6, 150e6, 1e9, 7e9, 60e9, 1800e9, 3 * 3600e9}

// callback is where user code runs in the middle of a build.
func callback(key string, id int, mayErr bool) (any, error) {
	simrt.Y(siteCallback)
	c := curCtx()
	if c == nil || c.w == nil {
		return key, nil
	}
	w := c.w
	n := c.count(id)
	c.callbacks++
	if _, elsewhere := simrt.Cur().Data.(simrt.Inherited); elsewhere {
		c.elsewhere = id
	}
	if w.prog.Prop == "C19" && !c.quiet {
		c.asked = append(c.asked, id)
	}
	res := any(key)
	if w.cfg.Vary && !c.quiet {
		res = key + "#" + strconv.Itoa(c.uniq())
	}
	if c.quiet {
		return key, nil
	}
	if c.noFault {
		return res, nil
	}
	for i := range w.faults {
		f := &w.faults[i]
		if f.Op != c.opID || f.Val != id || (f.Call != 0 && f.Call != n) {
			continue
		}
		switch f.Kind {
		case "stall":
			c.fired("stall")
			simrt.Sleep(stalls[(id+n)%len(stalls)])
		case "reenter":
			c.fired("reenter")
			c.reenter()
		case "err":
			if mayErr {
				c.fired("err")
				c.errFired++
				return nil, c.failure(id)
			}
		case "errval": // an error together with a value
			if mayErr {
				c.fired("errval")
				c.errFired++
				return res, c.failure(id)
			}
		case "panic":
			c.fired("panic")
			c.panFired++
			c.thrown = panicOf(c.opID, id, n)
			panic(c.thrown)
		case "exit":
			if simrt.Active() && !c.noExit {
				c.fired("exit")
				c.exitFired++
				runtime.Goexit()
			}
		}
	}
	return res, nil
}

// reenter is user code that uses the package while the package waits for it: it looks at the object being observed.
func (c *taskCtx) reenter() {
	s := c.w.slot(c.opID)
	target := c.w.slot(s.op.In[0])
	c.noFault = true
	asked, uq0, failures0, from := c.asked, c.uq0, c.failures0, c.steps()
	defer func() {
		c.noFault, c.asked, c.uq0, c.failures0 = false, asked, uq0, failures0
		c.inner += c.steps() - from
	}()
	for _, a := range aspectsOf(target.kind) {
		st := 0
		if a == "render" {
			st = 2
		}
		c.asked = nil
		c.begin()
		o := observe(target.kind, a, st, target.obj)
		if simrt.Dying() || s.viol != nil {
			return
		}
		checkSeen(c, s, target, o, 0, 0)
	}
}

// userCond is a condition written by a user of the package.
type userCond struct {
	ext   query.JoinType
	neg   bool
	table string
	name  string
	val   Val
}

func (u userCond) spec() string {
	if u.table != "" {
		return u.table + "." + u.name
	}
	return u.name
}

func (u userCond) call() { _, _ = callback(u.val.key(0), u.val.ID, false) }

// list tells whether the condition takes any number of parameters.
func (u userCond) list() bool { return u.val.K == "uvals" }

func (u userCond) Values() []any {
	r := []any{}
	for i := 0; i < u.val.Count(); i++ {
		v, _ := callback(u.val.key(i), u.val.ID, false)
		r = append(r, v)
	}
	return r
}

func (u userCond) text(ph func(i int) string) string {
	u.call()
	s := u.spec() + " @@ "
	if u.list() {
		s += "("
	}
	for i := 0; i < u.val.Count(); i++ {
		if i > 0 {
			s += ","
		}
		s += ph(i)
	}
	if u.list() {
		s += ")"
	}
	if u.neg {
		s = "NOT " + s
	}
	return s
}

func (u userCond) Render(n int) string {
	return u.text(func(i int) string { return "$" + strconv.Itoa(n+i+1) })
}

func (u userCond) RenderSQL() string { return u.text(func(i int) string { return "?" }) }

func (u userCond) JoinType() query.JoinType { return u.ext }

func (u userCond) RenderJoin(isFirst bool) string {
	if isFirst {
		return ""
	}
	return string(u.ext)
}

func (u userCond) IsNegate() bool { return u.neg }

func (u userCond) Join(j query.JoinType) query.Condition { u.ext = j; return u }

func (u userCond) Negate(n bool) query.Condition { u.neg = n; return u }

func (u userCond) RenderNegate() string {
	if u.neg {
		return "NOT"
	}
	return ""
}

func (u userCond) And(cs ...query.Condition) query.Condition { return query.And(u, cs...) }
func (u userCond) Or(cs ...query.Condition) query.Condition  { return query.Or(u, cs...) }
func (u userCond) FieldName() query.FieldName                { return query.FieldName(u.name) }

func (u userCond) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	if string(f.FieldName()) == u.name {
		u.table = string(f.TableName())
	}
	return u
}

func (u userCond) ApplyFieldTable(t query.TableName) query.Condition { u.table = string(t); return u }

var _ query.Condition = userCond{}

// userList is one that cannot be compared with == or be the key of a map.
type userList struct {
	userCond
	notes []string
}

func (u userList) Join(j query.JoinType) query.Condition { u.ext = j; return u }

func (u userList) Negate(n bool) query.Condition { u.neg = n; return u }

func (u userList) And(cs ...query.Condition) query.Condition { return query.And(u, cs...) }

func (u userList) Or(cs ...query.Condition) query.Condition { return query.Or(u, cs...) }

func (u userList) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	u.userCond = u.userCond.ApplyFieldSpec(f).(userCond)
	return u
}

func (u userList) ApplyFieldTable(t query.TableName) query.Condition {
	u.table = string(t)
	return u
}

// userPtr is one passed by reference, never changed.
type userPtr struct{ userCond }

func (u *userPtr) Join(j query.JoinType) query.Condition {
	r := *u
	r.ext = j
	return &r
}

func (u *userPtr) Negate(n bool) query.Condition {
	r := *u
	r.neg = n
	return &r
}

func (u *userPtr) And(cs ...query.Condition) query.Condition { return query.And(u, cs...) }

func (u *userPtr) Or(cs ...query.Condition) query.Condition { return query.Or(u, cs...) }

func (u *userPtr) ApplyFieldSpec(f query.FieldDefinition) query.Condition {
	return &userPtr{u.userCond.ApplyFieldSpec(f).(userCond)}
}

func (u *userPtr) ApplyFieldTable(t query.TableName) query.Condition {
	r := *u
	r.table = string(t)
	return &r
}
