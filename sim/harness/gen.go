package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	query "github.com/amarin/query"
	"github.com/amarin/query/zz_verif/simrt"
)

// Profile decides what kind of histories a property's programs contain.
type Profile struct {
	Setup    [2]int // operations of the shared history
	Callers  [2]int
	Steps    bool   // what calls cost is judged
	Each     [2]int // operations per caller
	Obs      int    // percent of caller steps that observe
	Scribble int    // percent that overwrite slices
	Exec     int    // percent that execute a statement
	Buf      int    // percent of calls passing a reused buffer
	Dep      int    // percent of inputs taken from other callers
	Vary     bool   // value providers return a new value on each call
	Multi    int    // percent of column values with another count than one
	Empty    int    // percent of conditions that are empty groups
	NoTable  int    // percent of write builders without a table name
	Lists    int    // percent of list values in IN
	CmpList  int    // percent of comparisons with a list
	Call     int    // percent of values that are user code
	Anew     bool   // values are asked for anew
	Browse   bool   // executions read lists, pages, counts
	Tower    int    // percent of programs with deeply nested conditions
	Deep     int    // more percent of conditions made of others
	UserCond int    // percent of conditions written by the user
	FaultP   int    // percent of programs with conversion faults
	Faults   []string
	MaxFault int
	Boost    map[string]int // weight factors of operations
	Retry    bool           // repeat a faulted observation once the fault is gone
}

var selBoost = map[string]int{"ubase.On": 1}

func profileOf(prop string) Profile {
	p := Profile{Setup: [2]int{6, 22}, Callers: [2]int{2, 4}, Each: [2]int{4, 10}, Obs: 15, Dep: 8, Lists: 50, Call: 25, UserCond: 4, Tower: 3}
	switch prop {
	case "C01":
		p.Obs = 20
	case "C02":
		p.Obs = 8
	case "C03":
		p.Obs, p.Vary, p.Lists, p.Call, p.CmpList = 40, true, 60, 40, 2
		p.Boost = map[string]int{"leaf": 1, "field": 0, "table": 0}
	case "C04":
		p.Obs, p.Multi, p.Call, p.FaultP, p.Faults, p.MaxFault, p.Lists = 45, 5, 75, 85, []string{"err", "err", "errval", "panic", "stall"}, 3, 60
		p.Setup = [2]int{4, 14}
		p.Boost = map[string]int{"ins.Values": 2, "upd.Set": 2, "fv": 2}
	case "C05":
		p.Obs, p.Call, p.FaultP, p.Faults, p.MaxFault, p.Retry = 45, 60, 90, []string{"err", "errval", "panic", "panic", "exit", "stall"}, 4, true
		p.UserCond = 12
		p.Setup = [2]int{4, 16}
	case "C06":
		p.Obs, p.Dep, p.Each, p.Callers = 45, 0, [2]int{3, 8}, [2]int{2, 4}
		p.FaultP, p.Faults, p.MaxFault = 40, []string{"err", "err", "errval", "panic", "exit"}, 4
	case "C07":
		p.Obs, p.Scribble, p.Buf = 22, 30, 40
	case "C08":
		p.Exec, p.Obs, p.Setup, p.Lists = 45, 8, [2]int{4, 16}, 30
		p.Deep, p.Tower = 20, 8
		p.Boost = map[string]int{"Not": 2, "And": 2, "Or": 2, "cond.And": 2, "cond.Or": 2, "group.GroupOR": 2, "NewGroup": 2, "base.Fields": 0, "base.Join": 0, "many.Join": 0, "single.Join": 0}
	case "C09":
		p.Exec, p.Obs, p.Empty, p.NoTable = 25, 25, 22, 6
		p.Setup = [2]int{4, 14}
		p.Boost = map[string]int{"Update": 3, "Delete": 3, "upd.Where": 2, "del.Where": 2, "base.Update": 4, "many.Update": 4, "single.Update": 4, "base.Delete": 4, "many.Delete": 4, "single.Delete": 4, "upd.Set": 2, "InsertInto": 2}
	case "C10":
		p.Obs = 30
	case "C18":
		p.Exec, p.Obs, p.Browse = 30, 8, true
		p.Boost = map[string]int{"base.Many": 2, "many.OrderBy": 3, "many.Limit": 2, "many.Offset": 2, "many.Where": 2, "base.Where": 2, "base.Offset": 2, "base.Limit": 2, "base.OrderBy": 2, "InsertInto": 0, "ins.Values": 0}
	case "C14":
		p.Obs = 30
	case "C19":
		p.Obs, p.Vary, p.Call, p.Lists, p.Retry, p.Anew, p.UserCond = 40, true, 70, 50, true, true, 8
		p.FaultP, p.Faults, p.MaxFault = 60, []string{"err", "errval", "panic", "exit", "stall"}, 3
		p.Boost = map[string]int{"leaf": 1, "field": 0, "table": 0, "ins.Values": 2, "upd.Set": 2, "fv": 2}
	case "C17":
		p.Obs, p.Setup, p.Each, p.Callers = 40, [2]int{4, 12}, [2]int{3, 6}, [2]int{1, 3}
		p.FaultP, p.Faults, p.MaxFault = 30, []string{"err", "errval", "panic", "exit"}, 3
	case "C16":
		p.Obs, p.Tower, p.Deep, p.Callers, p.Steps = 40, 70, 10, [2]int{1, 3}, true
	}
	return p
}

// Program is one history to execute: everything but the schedule.
type Program struct {
	Prop   string  `json:"property"`
	Seed   uint64  `json:"seed"`
	Ops    []*Op   `json:"ops"`
	Faults []Fault `json:"faults,omitempty"`
	Vary   bool    `json:"vary,omitempty"`
	Retry  bool    `json:"retry,omitempty"`
}

func (p *Program) tasks() int {
	n := 0
	for _, o := range p.Ops {
		if o.T > n {
			n = o.T
		}
	}
	return n
}

// Gen generates one program.
type Gen struct {
	long    bool  // has a list of hundreds
	huge    int   // size of the list to make next
	big     bool  // conditions may be nested far deeper than usual
	same    []int // what many callers want
	plain   bool  // groups are passed as they are
	lastRow int
	walks   bool // some objects outlive the history
	twins   map[byte]string
	r       *simrt.Rng
	p       Profile
	ops     []*Op
	kindOf  []string
	models  []any
	seq     int
	vseq    int
	task    int
	hot     []int
	depth   int
	cols    []string
}

func (g *Gen) n(k int) int          { return g.r.Intn(k) }
func (g *Gen) pct(k int) bool       { return g.r.Intn(100) < k }
func (g *Gen) between(b [2]int) int { return b[0] + g.r.Intn(b[1]-b[0]+1) }
func (g *Gen) model(id int) any     { return g.models[id] }

// name makes a name that no other clause of the program has: mostly plain, some in other letter cases, longer,
// like keywords, quoted, or with letters that mean something elsewhere.
func (g *Gen) name(pre string) string {
	g.seq++
	n := strconv.Itoa(g.seq)
	if g.n(5) == 0 {
		pre = g.r.Pick(strings.ToUpper(pre), "_"+pre, "created_"+pre, "Order"+pre, strings.Repeat(pre+"_", 12), strings.Repeat(pre+"_", 40), strings.ToLower(pre)+"_",
			"and_"+pre, "or"+pre, "NOT"+pre, "in_"+pre, "as"+pre, "where_"+pre, "LIMIT"+pre, pre+"$", pre+"$1_", pre+"%d", pre+"%", "поле_"+pre, "`"+pre, "["+pre)
		switch pre[0] {
		case '`':
			n += "`"
		case '[':
			n += "]"
		}
	}
	name := pre + n
	if twin := g.twins[pre[0]]; twin != "" && g.n(30) == 0 { // the same but for upper and lower case
		delete(g.twins, pre[0])
		return twin
	}
	if twin := strings.ToUpper(name); g.n(8) == 0 && pre[0] < 128 {
		if twin == name {
			twin = strings.ToLower(name)
		}
		if twin != name {
			if g.twins == nil {
				g.twins = map[byte]string{}
			}
			g.twins[pre[0]] = twin
		}
	}
	return name
}

// again is a new name, the given one, or none.
func (g *Gen) again(pre, name string) string {
	switch g.n(8) {
	case 0:
		return name
	case 1:
		return ""
	}
	return g.name(pre)
}

// dotted is a table name, which may have a schema.
func (g *Gen) dotted() string {
	if g.n(8) == 0 {
		return g.r.Pick("public.", "s1.", "S1.") + g.tname()
	}
	return g.tname()
}

// tname is one of few table names, some of which differ in letter case only.
func (g *Gen) tname() string {
	t := "t" + strconv.Itoa(1+g.n(6))
	switch g.n(12) {
	case 0:
		t = strings.ToUpper(t)
	case 1:
		t += "_Log"
	case 2:
		t += "_log"
	case 3:
		if g.n(3) == 0 {
			t += strings.Repeat("_long", 14)
		}
	}
	return t
}

// column is the name of a compared column; some are compared more than once.
func (g *Gen) column() string {
	if len(g.cols) > 0 && g.n(8) == 0 {
		return g.cols[g.n(len(g.cols))]
	}
	c := g.name("c")
	g.cols = append(g.cols, c)
	return c
}

func (g *Gen) maybeTable() string {
	if g.n(4) == 0 {
		return g.tname() + "."
	}
	return ""
}

func (g *Gen) fieldSpec(pre string) string {
	n := g.name(pre)
	s := g.maybeTable() + n
	if g.n(4) == 0 {
		if g.n(8) > 0 {
			n = g.name("a")
		}
		s += g.r.Pick(" AS ", " AS ", " as ", " As ", "  AS\t") + n
	}
	return s
}

func (g *Gen) tableSpec() string {
	s := g.dotted()
	if g.n(4) == 0 {
		a, as := g.name("x"), g.r.Pick(" AS ", " AS ", " as ", " As ", "  AS\t", " ")
		if as != " " && g.n(10) == 0 {
			a = s
		}
		s += as + a
	}
	return s
}

func (g *Gen) writeTable() string {
	if g.pct(g.p.NoTable) {
		return ""
	}
	return g.dotted()
}

func (g *Gen) val(k string, n int) Val { g.vseq++; return Val{K: k, ID: g.vseq, N: n} }

func (g *Gen) single() Val {
	if g.pct(g.p.Call) {
		return g.val(g.r.Pick("valuer", "valuer", "pvaluer", "pvaluer", "prov", "pprov", "arr", "vnil", "vint", "pvnil", "pvint"), 0)
	}
	return g.val(g.r.Pick("str", "str", "str", "int", "int64", "nil", "bytes", "ints", "bool", "float", "time", "named", "zero", "ptr", "pnil", "selfnil", "odd", "odd"), 0)
}

// size of a list: mostly small.
func (g *Gen) size() int {
	if g.pct(4) {
		return 0
	}
	switch r := g.n(100); {
	case r < 90:
		return 1 + g.n(4)
	case r < 98:
		return 5 + g.n(14)
	}
	if g.n(6) == 0 && !g.long {
		g.long = true
		if g.n(8) == 0 {
			return 990 + g.n(300)
		}
		return 120 + g.n(400)
	}
	return 20 + g.n(60)
}

func (g *Gen) colVal() Val {
	if g.pct(g.p.Multi) {
		return g.val(g.r.Pick("strs", "valuers", "provs", "cvals", "pvals"), g.n(4))
	}
	return g.single()
}

func (g *Gen) leafOp() string {
	if g.huge > 0 {
		return "IN"
	}
	if g.pct(g.p.UserCond) {
		return "@@"
	}
	return g.r.Pick("=", "=", "=", "=", "<", "<=", ">", ">=", "LIKE", "ILIKE", "NULL", "IN", "IN", "IN")
}

func (g *Gen) leafVal(op string) Val {
	if g.huge > 0 {
		n := g.huge
		g.huge = 0
		return g.val("strs", n)
	}
	switch op {
	case "LIKE", "ILIKE", "NULL":
		return g.val("str", 0)
	case "@@":
		if g.n(2) == 0 {
			return g.val("uvals", g.n(4))
		}
		return g.val("prov", 0)
	case "IN":
		if g.pct(g.p.Lists) {
			k := g.r.Pick("strs", "strs", "strs", "dups")
			if g.pct(g.p.Call * 2) {
				k = g.r.Pick("valuers", "provs", "cvals", "pvals", "nvals", "ivals", "npvals", "nprovs")
			}
			return g.val(k, g.size())
		}
		return g.single()
	}
	if g.pct(g.p.CmpList) { // a comparison with a list
		return g.val(g.r.Pick("strs", "valuers", "provs", "cvals", "pvals"), g.n(4))
	}
	return g.single()
}

func (g *Gen) someCol(id int) string {
	c, ok := g.models[id].(MCond)
	if ok && g.n(5) > 0 {
		ls := c.expr().leaves(false, nil)
		if len(ls) > 0 {
			return ls[g.n(len(ls))].L.F.Name
		}
	}
	return g.name("c")
}

var makers = map[string][]string{
	"cond": {"leaf"}, "group": {"NewGroup"}, "where": {"NewWhere"}, "field": {"field"}, "table": {"table"}, "sort": {"sort"}, "fv": {"fv"},
	"lim": {"Limiter"}, "fields": {"NewFields"}, "jc": {"JoinFields"}, "tj": {"TableJoinType.By"},
	"base": {"SelectFrom"}, "many": {"SelectManyFrom"}, "single": {"SelectSingleFrom"},
	"ubase": {"base.Join", "table.Join", "TableName.Join"}, "umany": {"many.Join"}, "usingle": {"single.Join"}, "count": {"Count of base"},
	"ins": {"InsertInto"}, "upd": {"Update"}, "del": {"Delete"},
}

// compounds make conditions of other conditions.
var compounds = []string{"NewGroup", "NewGroup", "Not", "Not", "And", "Or", "cond.And", "cond.Or", "JoinType.Join", "cond.Join"}

// fits tells whether an object of one kind can be used as another: every group is a condition.
func fits(have, want string) bool { return have == want || have == "group" && want == "cond" }

// visible lists the operations whose results the current caller may use.
func (g *Gen) visible(kind string) []int {
	var r []int
	for i, o := range g.ops {
		if !fits(g.kindOf[i], kind) || g.models[i] == nil {
			continue
		}
		if o.T == 0 || o.T == g.task || (g.p.Dep > 0 && g.task > 0) {
			r = append(r, i)
		}
	}
	return r
}

// need returns an operation giving the kind, creating one if necessary.
func (g *Gen) need(kind string) int {
	reuse := 75
	switch kind {
	case "cond":
		if g.pct(g.p.Empty) {
			return g.emptyCond()
		}
		reuse = 45
	case "fv", "sort", "field":
		reuse = 30
	}
	if g.pct(reuse) {
		if id := g.pickFrom(kind); id >= 0 {
			return id
		}
	}
	if g.depth > 6 {
		if id := g.pickFrom(kind); id >= 0 {
			return id
		}
	}
	ms := makers[kind]
	if kind == "cond" && g.depth < 4 && g.pct(12+g.p.Deep) {
		ms = compounds
	}
	for try := 0; try < 5; try++ {
		if id := g.make(opDefs[ms[g.n(len(ms))]]); id >= 0 {
			return id
		}
	}
	return g.pickFrom(kind)
}

func (g *Gen) emptyCond() int {
	var in []int
	for i := g.n(3); i > 0 && g.n(2) == 0; i-- {
		in = append(in, g.emptyCond())
	}
	op := &Op{K: "NewGroup", In: in, N: []int{g.n(2)}}
	id := g.add(op, opDefs["NewGroup"])
	if id >= 0 {
		id = g.add(&Op{K: "group.asCond", In: []int{id}}, opDefs["group.asCond"])
	}
	return id
}

// pickFrom chooses among the visible results: hot parents and recent ones more often.
func (g *Gen) pickFrom(kind string) int {
	v := g.visible(kind)
	if len(v) == 0 {
		return -1
	}
	if g.pct(35) {
		for _, h := range g.hot {
			if fits(g.kindOf[h], kind) {
				return h
			}
		}
	}
	if g.pct(45) {
		k := len(v) - 1 - g.n(3)
		if k < 0 {
			k = 0
		}
		if o := g.ops[v[k]]; o.T == 0 || o.T == g.task || g.pct(g.p.Dep) {
			return v[k]
		}
	}
	for try := 0; try < 8; try++ {
		id := v[g.n(len(v))]
		if o := g.ops[id]; o.T == 0 || o.T == g.task || g.pct(g.p.Dep) {
			return id
		}
	}
	for i := len(v) - 1; i >= 0; i-- {
		if o := g.ops[v[i]]; o.T == 0 || o.T == g.task {
			return v[i]
		}
	}
	return -1
}

// make creates one operation.
func (g *Gen) make(d *OpDef) int {
	if d == nil {
		return -1
	}
	g.depth++
	defer func() { g.depth-- }()
	op := &Op{K: d.Name}
	for _, k := range d.In {
		n := 1
		if strings.HasSuffix(k, "*") {
			k = k[:len(k)-1]
			n = []int{0, 1, 1, 1, 2, 2, 3, 4}[g.n(8)]
			if g.pct(3) {
				n = 5 + g.n(8)
				if k != "cond" && g.n(5) == 0 {
					n += 5 + g.n(30)
				}
			}
		}
		for i := 0; i < n; i++ {
			id := g.need(k)
			if id < 0 {
				return -1
			}
			op.In = append(op.In, id)
		}
	}
	return g.add(op, d)
}

func (g *Gen) add(op *Op, d *OpDef) int {
	if d.Gen != nil && op.N == nil {
		d.Gen(g, op)
	}
	op.L = g.big
	m := d.Model(&MArgs{op: op, in: g.inputs(op)})
	if m == nil {
		return -1
	}
	return g.push(op, d.Out, m)
}

func (g *Gen) inputs(op *Op) []any {
	var in []any
	for _, i := range op.In {
		in = append(in, g.models[i])
	}
	return in
}

func (g *Gen) push(op *Op, kind string, m any) int {
	op.ID = len(g.ops)
	op.T = g.task
	if g.pct(g.p.Buf) {
		op.B = true
	}
	if len(op.In) > 0 && !g.plain && g.pct(8) {
		op.P = true
	}
	if d := opDefs[op.K]; d != nil && !g.plain && takesVoids(d) && g.pct(2+g.p.Empty/4) {
		op.E = 1 + g.n(40)
	}
	g.ops = append(g.ops, op)
	g.kindOf = append(g.kindOf, kind)
	g.models = append(g.models, m)
	return op.ID
}

var totalW int

func (g *Gen) randomDef() *OpDef {
	tot := 0
	w := func(d *OpDef) int {
		if f, ok := g.p.Boost[d.Name]; ok {
			return d.W * f
		}
		return d.W
	}
	for _, d := range opList {
		tot += w(d)
	}
	k := g.n(tot)
	for _, d := range opList {
		k -= w(d)
		if k < 0 {
			return d
		}
	}
	return opList[0]
}

// growers extend one builder step by step: spare capacity and shared ancestors are where copies can go wrong.
var growers = map[string][]string{
	"base":   {"base.Where", "base.Join+", "base.Fields", "base.Where"},
	"many":   {"many.OrderBy", "many.Where", "many.Join+", "many.OrderBy", "many.Fields", "many.Limit", "many.Offset"},
	"single": {"single.Where", "single.Join+", "single.Fields"},
	"ins":    {"ins.Values", "ins.Values(map)"},
	"upd":    {"upd.Set", "upd.Where", "upd.Set(map)"},
	"del":    {"del.Where"},
	"group":  {"group.GroupAND", "group.GroupOR", "group.GroupAND"},
	"where":  {"where.GroupAND", "where.GroupOR"},
	"cond":   {"cond.And", "cond.Or", "And", "Or"},
}

// grow extends the object of operation id n times.
func (g *Gen) grow(id, n int) int {
	kind := g.kindOf[id]
	ms := growers[kind]
	if ms == nil {
		return id
	}
	fav := ms[g.n(len(ms))]
	for i := 0; i < n; i++ {
		m := fav
		if g.n(4) == 0 {
			m = ms[g.n(len(ms))]
		}
		nid := -1
		if strings.HasSuffix(m, "+") {
			nid = g.with(id, opDefs[m[:len(m)-1]])
			if nid >= 0 {
				nid = g.with(nid, opDefs["u"+kind+".On"])
			}
		} else {
			nid = g.with(id, opDefs[m])
		}
		if nid >= 0 {
			id = nid
		}
	}
	return id
}

// takesVoids tells whether conditions without content may be added to the arguments of an operation.
func takesVoids(d *OpDef) bool {
	return len(d.In) > 0 && d.In[len(d.In)-1] == "cond*" && !strings.HasPrefix(d.Name, "JoinType.")
}

var convertersOf = map[string][]string{}

func init() {
	for _, n := range []string{"base", "many", "single"} {
		for _, m := range []string{".Count", ".Update", ".Delete", ".Many", ".Single", ".toBase", ".Offset"} {
			convertersOf[n] = append(convertersOf[n], n+m)
		}
		convertersOf[n] = append(convertersOf[n], n+".Update", "Many/Single of "+n, "SelectSingleFromBase "+n, "Count of "+n)
	}
}

// convert turns a select builder into something else, and that perhaps again.
func (g *Gen) convert(id int) int {
	for n := 1 + g.n(3); n > 0; n-- {
		names := convertersOf[g.kindOf[id]]
		if names == nil {
			break
		}
		d := opDefs[names[g.n(len(names))]]
		if d == nil {
			continue
		}
		if next := g.with(id, d); next >= 0 {
			id = next
		}
		if g.kindOf[id] == "upd" {
			if next := g.with(id, opDefs["upd.Set"]); next >= 0 {
				id = next
			}
		}
	}
	return id
}

// either makes a statement whose conditions are alternatives.
func (g *Gen) either() {
	kind := g.r.Pick("base", "many", "single", "upd", "del")
	id := g.make(opDefs[makers[kind][0]])
	a, b := g.need("cond"), g.need("cond")
	if id < 0 || a < 0 || b < 0 {
		return
	}
	if b = g.add(&Op{K: "cond.Join", In: []int{b}, N: []int{1, g.n(2)}}, opDefs["cond.Join"]); b < 0 {
		return
	}
	if id = g.add(&Op{K: kind + ".Where", In: []int{id, a, b}}, opDefs[kind+".Where"]); id < 0 {
		return
	}
	g.hot = append(g.hot, id)
	if g.n(2) == 0 {
		id = g.grow(id, 1)
	}
	if g.n(2) == 0 {
		id = g.convert(id)
	}
	if g.p.Exec > 0 && !g.p.Browse && executable(g.kindOf[id]) {
		g.push(&Op{K: "exec", In: []int{id}}, "exec", nil)
	} else if g.p.Obs > 0 && observable(g.kindOf[id]) {
		g.obsOf(id)
	}
}

// siblings derives two or three objects from the same one in the same way, before anything is done with either.
func (g *Gen) siblings() {
	id := g.target(func(k string) bool { return len(growers[k]) > 0 })
	if id < 0 {
		return
	}
	kind := g.kindOf[id]
	if g.n(2) == 0 {
		id = g.grow(id, 1+g.n(3))
	}
	ms := growers[kind]
	m := ms[g.n(len(ms))]
	join := strings.HasSuffix(m, "+")
	var made []int
	for n := 2 + g.n(2); n > 0; n-- {
		if x := g.with(id, opDefs[strings.TrimSuffix(m, "+")]); x >= 0 {
			made = append(made, x)
		}
	}
	for k := len(made) - 1; k > 0; k-- { // in any order
		j := g.n(k + 1)
		made[k], made[j] = made[j], made[k]
	}
	for k := range made {
		if join {
			made[k] = g.with(made[k], opDefs["u"+kind+".On"])
		}
		if made[k] >= 0 && g.n(3) == 0 {
			made[k] = g.grow(made[k], 1)
		}
	}
	for _, x := range made {
		if x >= 0 && g.p.Obs > 0 && observable(g.kindOf[x]) {
			g.obsOf(x)
		}
	}
}

// tower nests a condition n times and makes statements of it.
func (g *Gen) tower(n int) int {
	leaf := func() int { return g.make(opDefs["leaf"]) }
	top := leaf()
	fav, only := g.n(6), g.n(3) == 0
	for ; n > 0 && top >= 0; n-- {
		k := g.n(6)
		if only || g.n(2) == 0 {
			k = fav
		}
		name := []string{"cond.And", "cond.Or", "And", "Or", "NewGroup", "Not"}[k]
		in := []int{top}
		if k < 5 && (k < 4 || g.n(4) > 0) {
			in = append(in, leaf())
			if g.n(4) == 0 {
				in[0], in[1] = in[1], in[0]
			}
		}
		if id := g.add(&Op{K: name, In: in}, opDefs[name]); id >= 0 {
			top = id
		}
		if g.n(6) == 0 {
			if id := g.add(&Op{K: "cond.Negate", In: []int{top}, N: []int{g.n(2)}}, opDefs["cond.Negate"]); id >= 0 {
				top = id
			}
		}
	}
	for _, name := range []string{"SelectFrom", "Delete"} {
		if id := g.make(opDefs[name]); id >= 0 {
			w := map[string]string{"SelectFrom": "base.Where", "Delete": "del.Where"}[name]
			g.add(&Op{K: w, In: []int{id, top}}, opDefs[w])
		}
	}
	return top
}

// deep nests a condition far deeper than usual.
func (g *Gen) deep(n int) int {
	if g.n(4) == 0 {
		return g.tower(min(n, 100))
	}
	top := g.make(opDefs["leaf"])
	from := len(g.ops)
	defer func() {
		for i := from; i < len(g.ops); i++ {
			g.ops[i].M = i != top
		}
	}()
	names := [][]string{{"NewGroup"}, {"NewGroup"}, {"And", "Or"}, {"cond.And", "cond.Or"}, {"cond.Or", "NewGroup"}, {"NewGroup", "NewGroup", "Not"}}[g.n(6)]
	first, alone, swing := g.n(4) > 0, g.n(8) == 0, g.n(6) > 0
	g.plain = g.n(4) > 0
	defer func() { g.plain = false }()
	for i := 0; i < n && top >= 0; i++ {
		name := names[i%len(names)]
		in := []int{top}
		if name == "Not" {
			if id := g.add(&Op{K: name, In: in}, opDefs[name]); id >= 0 {
				top = id
			}
			continue
		}
		if !alone || name != "NewGroup" {
			leaf := g.add(&Op{K: "leaf", N: []int{g.n(2)}, S: []string{g.r.Pick("=", "=", "<", "NULL"), g.column()}, V: []Val{g.val("str", 0)}}, opDefs["leaf"])
			if in = append(in, leaf); !first {
				in[0], in[1] = in[1], in[0]
			}
		}
		op := &Op{K: name, In: in}
		if name == "NewGroup" && swing {
			op.N = []int{i % 2}
		}
		if id := g.add(op, opDefs[name]); id >= 0 {
			top = id
		}
	}
	return top
}

// wrap puts a condition into groups of its own.
func (g *Gen) wrap() int {
	id := g.need("cond")
	for n := 1 + g.n(6); n > 0 && id >= 0; n-- {
		name := g.r.Pick("NewGroup", "NewGroup", "NewGroup", "And")
		if next := g.add(&Op{K: name, In: []int{id}}, opDefs[name]); next >= 0 {
			id = next
		}
		if g.n(12) == 0 {
			if next := g.add(&Op{K: "Not", In: []int{id}}, opDefs["Not"]); next >= 0 {
				id = next
			}
		}
	}
	if id < 0 || g.n(4) == 0 {
		return id
	}
	in := []int{id}
	if other := g.need("cond"); other >= 0 {
		in = append(in, other)
		if g.n(2) == 0 {
			in[0], in[1] = in[1], in[0]
		}
	}
	name := g.r.Pick("And", "Or", "NewGroup", "cond.And", "cond.Or")
	return g.add(&Op{K: name, In: in}, opDefs[name])
}

// large makes a history with something far larger than usual in it: what is counted, numbered or kept in a buffer may be
// limited in ways that smaller statements do not show.
func (g *Gen) large() {
	n := 60 + g.n(240)
	if g.n(4) == 0 || g.p.Steps && g.n(2) == 0 {
		n = 260 + g.n(800)
	}
	wide := func(name, first, kind string, n int) int {
		op := &Op{K: name}
		if first != "" {
			id := -1
			for try := 0; try < 5 && id < 0; try++ {
				id = g.make(opDefs[first])
			}
			if id < 0 {
				return -1
			}
			op.In = append(op.In, id)
		}
		for ; n > 0; n-- {
			if id := g.make(opDefs[kind]); id >= 0 {
				op.In = append(op.In, id)
			}
		}
		return g.add(op, opDefs[name])
	}
	top := -1
	g.big = true
	most := 15
	if g.p.Steps {
		most = 13
	}
	k := g.n(most)
	if g.p.Exec > 0 {
		k = 8
	}
	switch k {
	case 0, 1, 2: // a list
		g.huge = []int{990, 990, 990, 2040, 4090, 4090, 9990, 9990, 9990, 32760, 990, 65530}[g.n(12)] + g.n(30)
		top = g.make(opDefs["leaf"])
		for k := g.n(4); k > 0 && top >= 0; k-- {
			if id := g.make(opDefs["leaf"]); id >= 0 {
				in := []int{top, id}
				if g.n(3) == 0 {
					in = []int{id, top}
				}
				name := g.r.Pick("And", "Or", "NewGroup")
				if id := g.add(&Op{K: name, In: in}, opDefs[name]); id >= 0 {
					top = id
				}
			}
		}
	case 3:
		top = wide("NewGroup", "", "leaf", n)
	case 4:
		top = wide("ins.Values", "InsertInto", "fv", n)
	case 5:
		top = wide("upd.Set", "Update", "fv", n)
	case 6:
		top = wide("base.Fields", "SelectFrom", "field", n)
	case 7:
		if g.n(2) == 0 {
			top = wide("many.OrderBy", "SelectManyFrom", "sort", n)
			break
		}
		name := g.r.Pick("base", "many", "single")
		top = g.make(opDefs[makers[name][0]])
		for k := min(n, 300); k > 0 && top >= 0; k-- {
			if k > 1 {
				g.ops[top].M = true
			}
			if id := g.with(top, opDefs[name+".Join"]); id >= 0 {
				g.ops[id].M = k > 1
				if id = g.with(id, opDefs["u"+name+".On"]); id >= 0 {
					top = id
				}
			}
		}
	case 8, 9, 10:
		top = g.deep(70 + g.n(100))
	case 11: // a text
		v := g.val("bulk", 0)
		if g.n(2) == 0 {
			top = g.add(&Op{K: "leaf", N: []int{g.n(2)}, S: []string{g.r.Pick("=", "<=", "IN", "LIKE", "ILIKE"), g.column()}, V: []Val{v}}, opDefs["leaf"])
			break
		}
		first := g.r.Pick("InsertInto", "Update")
		field, id := g.add(&Op{K: "fv", N: []int{g.n(3)}, S: []string{g.name("f")}, V: []Val{v}}, opDefs["fv"]), g.make(opDefs[first])
		if field >= 0 && id >= 0 {
			name := map[string]string{"InsertInto": "ins.Values", "Update": "upd.Set"}[first]
			top = g.add(&Op{K: name, In: []int{id, field}}, opDefs[name])
		}
	case 12, 13, 14: // many names
		use := func() {
			for n := 2 + g.n(4); n > 0; n-- {
				g.make(opDefs[g.r.Pick("SelectFrom", "leaf", "cond.ApplyFieldTable", "cond.ApplyFieldTable", "fv.ApplyFieldTable", "cond.ApplyFieldSpec", "field.Of", "table.Field", "sort", "ins.Values", "upd.Set")])
			}
		}
		use()
		defer use()
		n = []int{300, 1100, 4200, 16500, 33000, 66000, 264000, 66000}[g.n(8)]
		if g.p.Steps {
			n = min(n, 33000)
		}
		top = g.add(&Op{K: "flood", N: []int{n}, S: []string{g.name("m")}, V: []Val{g.val("str", 0)}}, opDefs["flood"])
	}
	if top < 0 {
		return
	}
	g.hot = append(g.hot, top)
	if fits(g.kindOf[top], "cond") {
		for _, s := range [][2]string{{"SelectFrom", "base.Where"}, {"Update", "upd.Where"}, {"Delete", "del.Where"}} {
			if g.n(2) == 0 {
				continue
			}
			if id := g.make(opDefs[s[0]]); id >= 0 {
				if id = g.add(&Op{K: s[1], In: []int{id, top}}, opDefs[s[1]]); id >= 0 {
					g.hot = append(g.hot, id)
				}
			}
		}
	}
}

// with applies an operation to a given first input.
func (g *Gen) with(id int, d *OpDef) int {
	op := &Op{K: d.Name, In: []int{id}}
	for _, k := range d.In[1:] {
		n := 1
		if strings.HasSuffix(k, "*") {
			k = k[:len(k)-1]
			n = []int{0, 1, 1, 1, 1, 2, 3}[g.n(7)]
		}
		for i := 0; i < n; i++ {
			x := g.need(k)
			if x < 0 {
				return -1
			}
			op.In = append(op.In, x)
		}
	}
	return g.add(op, d)
}

// observable tells whether an object offers observations.
func observable(kind string) bool { return len(aspectsOf(kind)) > 0 }

func executable(kind string) bool {
	switch kind {
	case "base", "many", "single", "count", "upd", "del", "ins":
		return true
	}
	return false
}

func (g *Gen) obs() {
	id := g.target(observable)
	if id < 0 {
		return
	}
	g.obsOf(id)
}

func (g *Gen) obsOf(id int) int {
	as := aspectsOf(g.kindOf[id])
	a := as[g.n(len(as))]
	if as[0] == "build" && g.n(2) == 0 {
		a = "build"
	}
	st := 0
	if a == "render" && g.n(2) == 0 {
		st = g.n(12)
	}
	return g.push(&Op{K: "obs", In: []int{id}, S: []string{a}, N: []int{st}}, "obs", nil)
}

func (g *Gen) target(ok func(string) bool) int {
	var v []int
	for i, o := range g.ops {
		if g.models[i] == nil || g.kindOf[i] == "words" || !ok(g.kindOf[i]) || g.kindOf[i] == "field" || g.kindOf[i] == "table" {
			continue
		}
		if o.T != 0 && o.T != g.task && !g.pct(g.p.Dep) {
			continue
		}
		w := 1
		switch g.kindOf[i] {
		case "base", "many", "single", "count", "ins", "upd", "del":
			w = 4
		case "group", "where":
			w = 2
		}
		for ; w > 0; w-- {
			v = append(v, i)
		}
	}
	if len(v) == 0 {
		return -1
	}
	if g.pct(40) {
		if k := len(v) - 1 - g.n(12); k >= 0 {
			return v[k]
		}
	}
	return v[g.n(len(v))]
}

func (g *Gen) scribble() {
	var v []int
	for i, o := range g.ops {
		if (o.T == 0 || o.T == g.task) && o.K != "scribble" && o.K != "exec" && o.K != "browse" {
			v = append(v, i)
		}
	}
	if len(v) == 0 {
		return
	}
	g.push(&Op{K: "scribble", In: []int{v[g.n(len(v))]}, N: []int{g.n(2), g.n(3)}}, "scribble", nil)
}

// rowNumber is an offset or limit: within the data set where it is read, unlike any other parameter elsewhere.
func (g *Gen) rowNumber(base int) int {
	if g.p.Browse {
		return g.n(3) * g.n(20)
	}
	switch g.n(12) {
	case 0, 1, 2: // offset and limit alike
		if g.lastRow > 0 {
			return g.lastRow
		}
	case 3: // numbers that need all their bits
		g.lastRow = []int{1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1 << 62}[g.n(6)] + g.n(9)
		return g.lastRow
	}
	n := g.n(4) * (base + g.n(99))
	if n > 0 && g.n(5) == 0 { // as small as pages usually are
		n = []int{1, 2, 3, 5, 10, 10, 20, 25, 50, 100, 64, 128}[g.n(12)]
	}
	if n > 0 {
		g.lastRow = n
	}
	return n
}

func (g *Gen) exec() {
	if g.p.Browse {
		id := g.target(func(k string) bool { return k == "base" || k == "many" || k == "single" })
		if id >= 0 {
			g.push(&Op{K: "browse", In: []int{id}, N: []int{1 + g.n(12), g.n(32), g.n(1 << 12)}}, "browse", nil)
		}
		return
	}
	id := g.target(executable)
	if id < 0 {
		return
	}
	g.push(&Op{K: "exec", In: []int{id}}, "exec", nil)
}

// page asks for a page of a list, and builds it.
func (g *Gen) page() {
	id := g.target(func(k string) bool { return k == "base" || k == "many" })
	if id < 0 {
		return
	}
	k := g.kindOf[id]
	for _, name := range [][]string{{"Offset", "Limit"}, {"Limit", "Offset"}}[g.n(2)] {
		d := opDefs[k+"."+name]
		if d == nil || d.W == 0 {
			return
		}
		next := g.with(id, d)
		if next < 0 {
			return
		}
		id, k = next, g.kindOf[next]
	}
	for n := g.n(3); n > 0; n-- {
		g.obsOf(id)
	}
}

// limit takes the parameters of a page from a limiter, of its own or shared.
func (g *Gen) limit() {
	id := g.target(func(k string) bool { return k == "lim" })
	if id < 0 || g.n(3) == 0 {
		id = g.make(opDefs["Limiter"])
	}
	for n := g.n(3); n > 0 && id >= 0; n-- {
		id = g.with(id, opDefs[g.r.Pick("lim.Limit", "lim.Limit", "lim.Offset")])
	}
	for n := 1 + g.n(3); n > 0 && id >= 0; n-- {
		at := g.obsOf(id)
		if at >= 0 && g.n(100) < 3*g.p.Scribble {
			g.push(&Op{K: "scribble", In: []int{at}, N: []int{1, g.n(3)}}, "scribble", nil)
		}
	}
}

// step adds one step of the current caller.
func (g *Gen) step() {
	if len(g.same) > 0 && g.n(3) > 0 {
		g.obsOf(g.same[0])
		return
	}
	if g.p.Obs > 0 && g.n(25) == 0 {
		g.page()
		return
	}
	if g.p.Obs > 0 && (g.n(100) == 0 || g.p.Scribble > 0 && g.n(40) == 0) {
		g.limit()
		return
	}
	k := g.n(100)
	switch {
	case k < g.p.Exec:
		g.exec()
		return
	case k < g.p.Exec+g.p.Obs:
		g.obs()
		return
	case k < g.p.Exec+g.p.Obs+g.p.Scribble:
		g.scribble()
		return
	}
	if g.n(40) == 0 {
		g.wrap()
		return
	}
	if g.n(40) == 0 {
		g.siblings()
		return
	}
	if g.n(60) == 0 {
		g.either()
		return
	}
	if g.n(60) == 0 {
		if id := g.target(func(k string) bool { return convertersOf[k] != nil }); id >= 0 {
			if id = g.convert(id); g.p.Obs > 0 && observable(g.kindOf[id]) {
				g.obsOf(id)
			}
		}
		return
	}
	if g.walks && g.n(8) == 0 {
		id := g.target(func(k string) bool { return opDefs["walk."+k] != nil })
		if id < 0 || g.n(6) == 0 {
			k := g.r.Pick("field", "table", "lim", "fields", "tj", "sort", "fv")
			id = g.make(opDefs[makers[k][0]])
		}
		if id >= 0 {
			op := &Op{K: "walk." + g.kindOf[id], In: []int{id}, S: []string{g.name("w")}}
			for n := 2 + g.n(8); n > 0; n-- {
				op.N = append(op.N, 1+g.n(120))
			}
			g.add(op, opDefs[op.K])
		}
		return
	}
	if len(g.hot) > 0 && g.n(3) == 0 {
		g.grow(g.hot[g.n(len(g.hot))], 1)
		return
	}
	for try := 0; try < 4; try++ {
		if g.make(g.randomDef()) >= 0 {
			return
		}
	}
}

// generate makes the program of a seed.
func generate(prop string, seed uint64) *Program {
	g := &Gen{r: simrt.NewRng(seed, "gen"+prop), p: profileOf(prop)}
	p := g.p
	if (p.Exec == 0 && prop != "C17" || prop == "C08") && g.n(120) == 0 {
		g.large()
		g.p.Callers, g.p.Setup, g.p.Each = [2]int{1, 2}, [2]int{0, 2}, [2]int{1, 4}
		p = g.p
	}
	g.walks = prop == "C17" && g.n(2) == 0
	// the shared history
	kinds := []string{"base", "many", "single", "ins", "upd", "del", "group", "where", "cond"}
	for n := 1 + g.n(3); n > 0; n-- {
		k := kinds[g.n(len(kinds))]
		ms := makers[k]
		id := g.make(opDefs[ms[g.n(len(ms))]])
		if id < 0 {
			continue
		}
		id = g.grow(id, g.n(p.Setup[1]/2+2))
		g.hot = append(g.hot, id)
		if g.n(3) == 0 { // an ancestor in the middle of the chain is shared as well
			for _, j := range g.ops[id].In {
				if g.kindOf[j] == k {
					g.hot = append(g.hot, j)
				}
			}
		}
	}
	if g.pct(p.Tower) {
		if id := g.tower(6 + g.n(p.Tower/2+12)); id >= 0 {
			g.hot = append(g.hot, id)
		}
	}
	for g.n(8) == 0 {
		if id := g.wrap(); id >= 0 && g.n(3) == 0 {
			g.hot = append(g.hot, id)
		}
	}
	for n := g.between(p.Setup) / 2; n > 0; n-- {
		if g.make(g.randomDef()) >= 0 && g.n(12) == 0 {
			g.hot = append(g.hot, len(g.ops)-1)
		}
	}
	// callers, interleaved so that a caller can depend on what another did before
	nc := g.between(p.Callers)
	crowd := 60
	if prop == "C06" {
		crowd = 16
	}
	if p.Exec == 0 && prop != "C17" && g.n(crowd) == 0 { // many callers, who may all want the same
		nc = 8 + g.n(9)
		p.Each = [2]int{1, 4}
		if g.n(3) > 0 {
			if id := g.target(observable); id >= 0 {
				g.same = []int{id}
			}
		}
	}
	left := make([]int, nc+1)
	tot := 0
	for t := 1; t <= nc; t++ {
		left[t] = g.between(p.Each)
		tot += left[t]
	}
	for tot > 0 {
		t := 1 + g.n(nc)
		if left[t] == 0 {
			continue
		}
		g.task = t
		g.step()
		left[t]--
		tot--
	}
	if (prop == "C01" || prop == "C05") && g.n(4) == 0 {
		for _, o := range g.ops {
			if d := opDefs[o.K]; d != nil && !o.M && !o.B && len(aspectsOf(d.Out)) > 0 && o.K != "flood" && d.Out != "words" {
				o.W = g.n(5) < 2
			}
		}
	}
	prog := &Program{Prop: prop, Seed: seed, Ops: g.ops, Vary: p.Vary, Retry: p.Retry}
	g.planFaults(prog)
	return prog
}

func (g *Gen) planFaults(prog *Program) {
	if g.p.Exec > 0 {
		for _, o := range g.ops {
			if o.K != "exec" && o.K != "browse" || g.n(3) == 0 {
				continue
			}
			most := 1 + g.n(4)
			if o.K == "browse" {
				most = 2 + g.n(8)
			}
			for c := 1; c <= most; c++ {
				if g.n(2) == 0 {
					prog.Faults = append(prog.Faults, Fault{Op: o.ID, Val: -1, Call: c, Kind: g.r.Pick("lostreq", "lostack", "stall", "connect", "lostack")})
				}
			}
		}
	}
	fails, reenters := g.pct(g.p.FaultP), g.pct(20)
	if !fails && !reenters {
		return
	}
	var cand []*Op
	for _, o := range g.ops {
		if o.K != "obs" || o.S[0] == "acc" && g.n(2) == 0 {
			continue
		}
		if len(g.faultable(o)) > 0 {
			cand = append(cand, o)
		}
	}
	calls := []int{0, 0, 1, 1, 2, 2, 3, 4, 5, 6}
	for n := 1 + g.n(3); n > 0 && len(cand) > 0 && reenters; n-- { // user code that calls back
		o := cand[g.n(len(cand))]
		v := g.faultable(o)
		prog.Faults = append(prog.Faults, Fault{Op: o.ID, Val: v[g.n(len(v))].ID, Call: calls[2+g.n(8)], Kind: "reenter"})
	}
	if !fails {
		return
	}
	if g.n(12) == 0 { // whatever is asked for fails
		for _, o := range cand {
			v := g.faultable(o)
			if k := g.r.Pick(g.p.Faults...); g.n(4) > 0 && k != "stall" {
				prog.Faults = append(prog.Faults, Fault{Op: o.ID, Val: v[g.n(len(v))].ID, Call: calls[g.n(5)], Kind: k})
			}
		}
		return
	}
	for n := 1 + g.n(g.p.MaxFault); n > 0 && len(cand) > 0; n-- {
		o := cand[g.n(len(cand))]
		v := g.faultable(o)
		f := Fault{Op: o.ID, Val: v[g.n(len(v))].ID, Call: calls[g.n(10)], Kind: g.r.Pick(g.p.Faults...)}
		if g.n(16) == 0 {
			f.More = 4 + g.n(40)
		}
		prog.Faults = append(prog.Faults, f)
	}
}

func (g *Gen) faultable(o *Op) []Val {
	var r []Val
	for _, v := range valsOf(g.models[o.In[0]]) {
		if v.Val.callback() {
			r = append(r, v.Val)
		}
	}
	return r
}

// modelsOf recomputes the models of a program (nil: not a valid use).
func modelsOf(ops []*Op) (models []any, kinds []string) {
	models, kinds = make([]any, len(ops)), make([]string, len(ops))
	byID := map[int]int{}
	for i, o := range ops {
		byID[o.ID] = i
	}
	for i, o := range ops {
		d := opDefs[o.K]
		if d == nil {
			kinds[i] = o.K
			continue
		}
		kinds[i] = d.Out
		in := make([]any, 0, len(o.In))
		ok := true
		for _, j := range o.In {
			k, found := byID[j]
			if !found || k >= i || models[k] == nil {
				ok = false
				break
			}
			in = append(in, models[k])
		}
		if ok {
			models[i] = d.Model(&MArgs{op: o, in: in})
		}
	}
	return models, kinds
}

func sortFV(v []MFV) []MFV {
	r := append([]MFV{}, v...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].F.Name < r[j].F.Name })
	return r
}

func sortQFV(v []query.FieldValue) {
	sort.SliceStable(v, func(i, j int) bool { return v[i].FieldName() < v[j].FieldName() })
}

var _ = fmt.Sprint
var _ = totalW
