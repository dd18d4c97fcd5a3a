package main

import (
	fmt "github.com/amarin/query/zz_verif/simfmt"
	"slices"
	"strconv"
	"strings"

	query "github.com/amarin/query"
	"github.com/amarin/query/zz_verif/simcall"
	"github.com/amarin/query/zz_verif/simrt"
)

// Op is one call of a program.
type Op struct {
	ID int      `json:"id"`
	K  string   `json:"k"`
	In []int    `json:"in,omitempty"` // operations whose results are used
	N  []int    `json:"n,omitempty"`
	S  []string `json:"s,omitempty"`
	V  []Val    `json:"v,omitempty"`
	T  int      `json:"t"`               // 0: shared history before the callers start; 1..: caller
	B  bool     `json:"buf,omitempty"`   // arguments are passed in the caller's reused buffer
	P  bool     `json:"ptr,omitempty"`   // groups are passed as pointers
	L  bool     `json:"large,omitempty"` // conditions may be nested far deeper than usual
	E  int      `json:"void,omitempty"`  // a condition without any content is among the arguments: which, and where
	W  bool     `json:"wait,omitempty"`  // not looked at when obtained: what another one obtained alike shows is what it has to show
	M  bool     `json:"mid,omitempty"`   // a step on the way to something large: not looked at by itself
}

func (o *Op) String() string {
	s := fmt.Sprintf("#%d", o.ID)
	if o.T > 0 {
		s += fmt.Sprintf("@%d", o.T)
	}
	s += " " + o.K + "("
	for i, x := range o.In {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("#%d", x)
	}
	if len(o.N) > 0 {
		s += fmt.Sprint(" n=", o.N)
	}
	if len(o.S) > 0 {
		s += " '" + strings.Join(o.S, "','") + "'"
	}
	if len(o.V) > 0 {
		s += fmt.Sprint(" v=", o.V)
	}
	if o.E > 0 {
		s += fmt.Sprint(" void=", o.E)
	}
	return s + ")"
}

// OpDef defines an operation: what it takes, what it denotes, what it calls.
type OpDef struct {
	Name  string
	In    []string // input kinds; a trailing "kind*" takes any number
	Out   string
	W     int
	Gen   func(g *Gen, op *Op)
	Model func(m *MArgs) any // nil: not a valid use
	Exec  func(x *X) any
	Multi bool // model returns a list
}

// MArgs are the models of the inputs.
type MArgs struct {
	op *Op
	in []any
}

func (m *MArgs) conds(from int) []MCond {
	var r []MCond
	for _, x := range m.in[from:] {
		r = append(r, x.(MCond))
	}
	return r
}

func (m *MArgs) cond(i int) MCond   { return m.in[i].(MCond) }
func (m *MArgs) sel(i int) MSelect  { return m.in[i].(MSelect) }
func (m *MArgs) write(i int) MWrite { return m.in[i].(MWrite) }
func (m *MArgs) fvs(from int) []MFV {
	var r []MFV
	for _, x := range m.in[from:] {
		r = append(r, x.(MFV))
	}
	return r
}

func joinOp(n int) string {
	if n == 1 {
		return "OR"
	}
	return "AND"
}

func jt(n int) query.JoinType { return query.JoinType(joinOp(n)) }

// multiOK tells whether a call with several conditions has an unambiguous meaning.
func multiOK(op string, recv MCond, cs []MCond) bool {
	var live []MCond
	for _, c := range cs {
		if c.Core != nil {
			live = append(live, c)
		}
	}
	if len(live) < 2 {
		return true
	}
	if recv.Core == nil {
		if len(live) == 2 && op == "AND" && live[1].Ext == "OR" {
			return true
		}
		live = live[1:]
	}
	for _, c := range live {
		if c.Ext != "AND" {
			return false
		}
	}
	return true
}

// tooLarge tells whether an expression is larger than histories need it.
func (m *MArgs) tooLarge(c MCond) bool {
	most := 60
	if m.op.L {
		most = 700
	}
	return c.Core != nil && c.Core.size() > most
}

func combined(m *MArgs, op string, recv MCond, cs []MCond) any {
	if !multiOK(op, recv, cs) {
		return nil
	}
	if recv.Neg && (recv.Core == nil || len(cs) > 0 && len(exprsOf(cs)) == 0) {
		return nil // what the negation flag of the result is would be a matter of taste
	}
	r := combine(op, recv, cs)
	if m.tooLarge(r) {
		return nil
	}
	return r
}

// X gives an operation access to its inputs.
type X struct {
	w  *World
	op *Op
	c  *taskCtx
	in []any
}

func spare(n int) int { return n + 3 }

// condition is a condition as the caller passes it.
func (x *X) condition(o any) query.Condition {
	if g, ok := o.(query.Group); ok && x.op.P {
		return &g
	}
	return o.(query.Condition)
}

func (x *X) conds(from int) []query.Condition {
	n := len(x.in) - from
	var r []query.Condition
	if x.op.B {
		if cap(x.c.condBuf) < n {
			x.c.condBuf = make([]query.Condition, 0, 16)
		}
		r = x.c.condBuf[:0]
	} else {
		r = make([]query.Condition, 0, spare(n))
	}
	at := -1
	if x.op.E > 0 && (n > 0 || x.builder(from)) {
		at = x.op.E / 4 % (n + 1)
	}
	for i, o := range x.in[from:] {
		if i == at {
			r = append(r, void(x.op.E))
		}
		r = append(r, x.condition(o))
	}
	if at == n {
		r = append(r, void(x.op.E))
	}
	x.noteArg(r)
	return r
}

// builder tells whether the conditions are given to a builder, not to a condition.
func (x *X) builder(from int) bool {
	if from == 0 {
		return true
	}
	switch x.in[0].(type) {
	case query.Condition, query.WhereClause:
		return false
	}
	return true
}

// void is a condition without content.
func void(kind int) query.Condition {
	g := query.NewGroup(query.LogicalAND)
	switch kind % 4 {
	case 0:
		return g
	case 1:
		return query.Not(g)
	case 2:
		return &g
	}
	return query.NewGroup(query.LogicalOR, g, query.Not(g)).Negate(true)
}

func (x *X) fvs(from int) []query.FieldValue {
	n := len(x.in) - from
	var r []query.FieldValue
	if x.op.B {
		if cap(x.c.fvBuf) < n {
			x.c.fvBuf = make([]query.FieldValue, 0, 16)
		}
		r = x.c.fvBuf[:0]
	} else {
		r = make([]query.FieldValue, 0, spare(n))
	}
	for _, o := range x.in[from:] {
		r = append(r, o.(query.FieldValue))
	}
	x.noteArg(r)
	return r
}

func (x *X) sorts(from int) []query.FieldSorting {
	n := len(x.in) - from
	var r []query.FieldSorting
	if x.op.B {
		if cap(x.c.sortBuf) < n {
			x.c.sortBuf = make([]query.FieldSorting, 0, 16)
		}
		r = x.c.sortBuf[:0]
	} else {
		r = make([]query.FieldSorting, 0, spare(n))
	}
	for _, o := range x.in[from:] {
		r = append(r, o.(query.FieldSorting))
	}
	x.noteArg(r)
	return r
}

func (x *X) fields(from int) []query.FieldDefinition {
	n := len(x.in) - from
	var r []query.FieldDefinition
	if x.op.B {
		if cap(x.c.fieldBuf) < n {
			x.c.fieldBuf = make([]query.FieldDefinition, 0, 16)
		}
		r = x.c.fieldBuf[:0]
	} else {
		r = make([]query.FieldDefinition, 0, spare(n))
	}
	for _, o := range x.in[from:] {
		r = append(r, o.(query.FieldDefinition))
	}
	x.noteArg(r)
	return r
}

// mkField builds a field definition in one of the ways the package offers.
func mkField(form int, spec string) query.FieldDefinition {
	f := parseField(spec)
	switch form % 6 {
	case 1:
		return query.FieldName(spec).Field()
	case 2:
		if f.Table != "" && f.Alias == "" {
			return query.TableName(f.Table).Field(query.FieldName(f.Name))
		}
	case 3:
		if f.Table != "" && f.Alias == "" {
			return simcall.Table(f.Table).Field(query.FieldName(f.Name))
		}
	case 4:
		d := simcall.Field(f.Name)
		if f.Table != "" {
			d = d.Of(query.TableName(f.Table))
		}
		if f.Alias != "" {
			d = d.As(query.FieldName(f.Alias))
		}
		return d
	case 5:
		d, err := simcall.FieldOrError(query.FieldName(spec))
		if err != nil {
			panic(err)
		}
		return simcall.Field(*d)
	}
	return simcall.Field(spec)
}

func mkTable(form int, spec string) query.TableIdent {
	t := parseTable(spec)
	switch form % 4 {
	case 1:
		return query.TableName(spec).Ident()
	case 2:
		r := simcall.Table(query.TableName(t.Name))
		if t.Alias != "" {
			r = r.As(query.TableName(t.Alias))
		}
		return r
	case 3:
		p, err := simcall.TableOrError(spec)
		if err != nil {
			panic(err)
		}
		return simcall.Table(*p)
	}
	return simcall.Table(spec)
}

var joinTypes = []query.TableJoinType{query.InnerJoin, query.LeftJoin, query.RightJoin, query.FullJoin}
var joinNames = []string{"INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN"}

var leafOps = []string{"=", "<", "<=", ">", ">=", "LIKE", "ILIKE", "NULL", "IN", "@@"}

func mkLeaf(x *X) any {
	op, form, col, v := x.op.S[0], x.op.N[0], x.op.S[1], x.op.V[0]
	fn := query.FieldName(col)
	switch op {
	case "=":
		if form%2 == 1 {
			return fn.EqualTo(v.make())
		}
		return query.EqualTo(fn, v.make())
	case "<":
		return query.Less(fn, v.make())
	case "<=":
		return query.LessOrEqual(fn, v.make())
	case ">":
		return query.GreaterThan(fn, v.make())
	case ">=":
		return query.GreaterOrEqual(fn, v.make())
	case "LIKE":
		if form%2 == 1 {
			return fn.Contains(v.key(0))
		}
		return query.Contains(fn, v.key(0))
	case "ILIKE":
		if form%2 == 1 {
			return fn.IContains(v.key(0))
		}
		return query.IContains(fn, v.key(0))
	case "NULL":
		if form%2 == 1 {
			return fn.IsNull()
		}
		return query.IsNull(fn)
	case "IN":
		if form%2 == 1 {
			return fn.In(v.make())
		}
		return query.In(fn, v.make())
	case "@@":
		f := parseField(col)
		u := userCond{ext: query.LogicalAND, table: f.Table, name: f.Name, val: v}
		switch v.ID % 3 {
		case 1:
			return query.Condition(userList{userCond: u, notes: []string{col}})
		case 2:
			return query.Condition(&userPtr{u})
		}
		return query.Condition(u)
	}
	panic("harness: leaf " + op)
}

func leafModel(op, col string, v Val) MCond {
	return MCond{Ext: "AND", Core: &MExpr{Op: "leaf", L: &MLeaf{F: parseField(col), Op: op, Val: v}}}
}

type builder interface {
	BuildQueryAndParams() (string, []interface{}, error)
}

var opDefs = map[string]*OpDef{}
var opList []*OpDef

func def(d *OpDef) {
	if opDefs[d.Name] != nil {
		panic("duplicate op " + d.Name)
	}
	opDefs[d.Name] = d
	opList = append(opList, d)
}

func kinds(s string) []string { return strings.Fields(s) }

func appendWhere(m *MArgs, s MSelect, cs []MCond) any {
	r := combined(m, "AND", s.Where, cs)
	if r == nil {
		return nil
	}
	s.Where = r.(MCond)
	s.Where.Ext = "AND"
	return s
}

func whereOf(m *MArgs, cs []MCond) (MCond, bool) {
	r := combined(m, "AND", MCond{Ext: "AND"}, cs)
	if r == nil {
		return MCond{}, false
	}
	return r.(MCond), true
}

func newSelect(m *MArgs, t MTable, cs []MCond) any {
	w, ok := whereOf(m, cs)
	if !ok {
		return nil
	}
	return MSelect{Tab: t, Where: w, Limit: -1}
}

func init() {
	// fields, tables, sortings, values
	def(&OpDef{Name: "field", Out: "field", W: 6, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(6)}; op.S = []string{g.fieldSpec("f")} },
		Model: func(m *MArgs) any { return parseField(m.op.S[0]) },
		Exec:  func(x *X) any { return mkField(x.op.N[0], x.op.S[0]) }})
	def(&OpDef{Name: "field.As", In: kinds("field"), Out: "field", W: 2, Gen: func(g *Gen, op *Op) { op.S = []string{g.again("a", g.model(op.In[0]).(MField).Name)} },
		Model: func(m *MArgs) any { f := m.in[0].(MField); f.Alias = m.op.S[0]; return f },
		Exec:  func(x *X) any { return x.in[0].(query.FieldDefinition).As(query.FieldName(x.op.S[0])) }})
	def(&OpDef{Name: "field.Of", In: kinds("field"), Out: "field", W: 2, Gen: func(g *Gen, op *Op) { op.S = []string{g.dotted()} },
		Model: func(m *MArgs) any { f := m.in[0].(MField); f.Table = m.op.S[0]; return f },
		Exec:  func(x *X) any { return x.in[0].(query.FieldDefinition).Of(query.TableName(x.op.S[0])) }})
	def(&OpDef{Name: "table.Field", In: kinds("table"), Out: "field", W: 2, Gen: func(g *Gen, op *Op) { op.S = []string{g.name("f")} },
		Model: func(m *MArgs) any { return MField{Table: m.in[0].(MTable).ref(), Name: m.op.S[0]} },
		Exec:  func(x *X) any { return x.in[0].(query.TableIdent).Field(query.FieldName(x.op.S[0])) }})
	def(&OpDef{Name: "table", Out: "table", W: 3, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(4)}; op.S = []string{g.tableSpec()} },
		Model: func(m *MArgs) any { return parseTable(m.op.S[0]) },
		Exec:  func(x *X) any { return mkTable(x.op.N[0], x.op.S[0]) }})
	def(&OpDef{Name: "table.As", In: kinds("table"), Out: "table", W: 1, Gen: func(g *Gen, op *Op) { op.S = []string{g.again("ta", g.model(op.In[0]).(MTable).Name)} },
		Model: func(m *MArgs) any {
			t := m.in[0].(MTable)
			t.Alias = m.op.S[0]
			if t.Alias == t.Name {
				t.Alias = ""
			}
			return t
		},
		Exec: func(x *X) any { return x.in[0].(query.TableIdent).As(query.TableName(x.op.S[0])) }})
	def(&OpDef{Name: "sort", Out: "sort", W: 6, Gen: func(g *Gen, op *Op) {
		op.N = []int{g.n(5)}
		op.S = []string{g.maybeTable() + g.name("o")}
	},
		Model: func(m *MArgs) any {
			d := "ASC"
			if m.op.N[0] == 1 || m.op.N[0] == 3 {
				d = "DESC"
			}
			return MSort{parseField(m.op.S[0]), d}
		},
		Exec: func(x *X) any {
			f := query.FieldName(x.op.S[0])
			switch x.op.N[0] {
			case 0:
				return query.ASC(f)
			case 1:
				return query.DESC(f)
			case 2:
				return query.OrderBy(f)
			case 3:
				return query.OrderBy(f, query.Descending)
			}
			return query.OrderBy(f, query.Ascending)
		}})
	def(&OpDef{Name: "sort.ApplyFieldSpec", In: kinds("sort"), Out: "sort", W: 1, Gen: func(g *Gen, op *Op) {
		f := g.model(op.In[0]).(MSort).F
		n := f.Name
		if g.n(4) == 0 {
			n = g.name("o")
		}
		op.S = []string{g.tname() + "." + n}
		if g.n(2) == 0 {
			op.S[0] += " AS " + g.name("a")
		}
	},
		Model: func(m *MArgs) any {
			s := m.in[0].(MSort)
			if f := parseField(m.op.S[0]); f.Name == s.F.Name {
				s.F = f
			}
			return s
		},
		Exec: func(x *X) any { return x.in[0].(query.FieldSorting).ApplyFieldSpec(simcall.Field(x.op.S[0])) }})
	def(&OpDef{Name: "fv", Out: "fv", W: 8, Gen: func(g *Gen, op *Op) {
		op.N = []int{g.n(5)}
		op.S = []string{g.maybeTable() + g.name("c")}
		op.V = []Val{g.colVal()}
		if strings.HasPrefix(op.V[0].K, "p") && op.V[0].callback() && g.p.Anew { // FieldName.Value asks at once, as documented
			op.N[0] = 2 + g.n(3)
		}
	},
		Model: func(m *MArgs) any { return MFV{parseField(m.op.S[0]), m.op.V[0]} },
		Exec: func(x *X) any {
			s, v := x.op.S[0], x.op.V[0].make()
			switch x.op.N[0] {
			case 1:
				return query.FieldName(s).Value(v)
			case 2:
				return simcall.Field(s).Value(v)
			case 3:
				f := parseField(s)
				r := *query.NewFieldValue(query.FieldName(f.Name), v)
				if f.Table != "" {
					r = r.ApplyFieldTable(query.TableName(f.Table))
				}
				return r
			case 4:
				f := parseField(s)
				return query.NewFieldValue(query.FieldName(f.Name), v).ApplyFieldSpec(simcall.Field(s))
			}
			return *query.NewFieldValue(query.FieldName(s), v)
		}})
	def(&OpDef{Name: "fv.ApplyFieldTable", In: kinds("fv"), Out: "fv", W: 1, Gen: func(g *Gen, op *Op) { op.S = []string{g.dotted()} },
		Model: func(m *MArgs) any { f := m.in[0].(MFV); f.F.Table = m.op.S[0]; return f },
		Exec:  func(x *X) any { return x.in[0].(query.FieldValue).ApplyFieldTable(query.TableName(x.op.S[0])) }})
	// conditions
	def(&OpDef{Name: "leaf", Out: "cond", W: 26, Gen: func(g *Gen, op *Op) {
		op.N = []int{g.n(2)}
		op.S = []string{g.leafOp(), g.maybeTable() + g.column()}
		if g.n(8) == 0 { // the same comparison with another value
			if id := g.pickFrom("cond"); id >= 0 && g.ops[id].K == "leaf" {
				op.S = append([]string(nil), g.ops[id].S...)
			}
		}
		op.V = []Val{g.leafVal(op.S[0])}
	},
		Model: func(m *MArgs) any { return leafModel(m.op.S[0], m.op.S[1], m.op.V[0]) },
		Exec:  mkLeaf})
	def(&OpDef{Name: "flood", Out: "cond", // uses many names before giving one
		Model: func(m *MArgs) any { return leafModel("=", m.op.S[0], m.op.V[0]) },
		Exec: func(x *X) any {
			var first [4]string
			for i := 0; i < x.op.N[0]; i++ {
				from := x.c.steps()
				n := x.op.S[0] + "_" + strconv.Itoa(i) + "_"
				c := query.EqualTo(query.FieldName(n+"c"), n).ApplyFieldTable(query.TableName(n + "t"))
				var b builder
				switch i % 4 {
				case 0:
					f := simcall.Field(query.FieldName(n + "f")).Of(query.TableName(n + "u")).As(query.FieldName(n + "a"))
					b = simcall.SelectFrom(query.TableName(n + "s")).Where(c).Fields(f).OrderBy(query.OrderBy(query.FieldName(n + "o")))
				case 1:
					b = simcall.Update(query.TableName(n + "w")).Set(query.FieldName(n + "f").Value(n)).Where(c)
				case 2:
					b = simcall.Delete(query.TableName(n + "d")).Where(c)
				case 3:
					b = simcall.InsertInto(query.TableName(n + "i")).Values(query.FieldName(n + "f").Value(n))
				}
				sql, args, err := b.BuildQueryAndParams()
				if i < 4 {
					first[i] = strings.ReplaceAll(sql, n, "\x00")
				}
				if want := strings.ReplaceAll(first[i%4], "\x00", n); sql != want || err != nil || len(args) == 0 || args[0] != n {
					x.w.violate(x.w.slot(x.op.ID), "after %d other names: %q %v %v instead of %q", i, sql, args, err, want)
					break
				}
				if steps := x.c.steps() - from; steps > 20000 && x.w.prog.Prop == "C16" {
					x.w.violate(x.w.slot(x.op.ID), "after %d other names a small statement took %d steps", i, steps)
					break
				}
				simrt.Mark()
			}
			return query.EqualTo(query.FieldName(x.op.S[0]), x.op.V[0].make())
		}})
	def(&OpDef{Name: "Not", In: kinds("cond"), Out: "cond", W: 5,
		Model: func(m *MArgs) any {
			c := m.cond(0)
			if c.Neg || c.Core == nil {
				return nil
			}
			c.Neg = true
			return c
		},
		Exec: func(x *X) any { return query.Not(x.condition(x.in[0])) }})
	def(&OpDef{Name: "cond.Negate", In: kinds("cond"), Out: "cond", W: 2, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(2)} },
		Model: func(m *MArgs) any {
			c := m.cond(0)
			if c.Core == nil {
				return nil
			}
			c.Neg = m.op.N[0] == 1
			return c
		},
		Exec: func(x *X) any { return x.condition(x.in[0]).Negate(x.op.N[0] == 1) }})
	def(&OpDef{Name: "cond.Join", In: kinds("cond"), Out: "cond", W: 2, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(2), g.n(3)} },
		Model: func(m *MArgs) any { c := m.cond(0); c.Ext = joinOp(m.op.N[0]); return c },
		Exec: func(x *X) any {
			c := x.condition(x.in[0])
			switch {
			case x.op.N[1] == 1:
				return jt(x.op.N[0]).Join(c)
			case x.op.N[1] == 2 && x.op.N[0] == 0:
				return query.And(c)
			case x.op.N[1] == 2:
				return query.Or(c)
			}
			return c.Join(jt(x.op.N[0]))
		}})
	def(&OpDef{Name: "JoinType.Join", In: kinds("cond cond cond*"), Out: "cond", W: 2, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(2)} },
		Model: func(m *MArgs) any { c := newGroup(joinOp(m.op.N[0]), m.conds(0)); c.Ext = "?"; c.Grp = false; return c },
		Exec:  func(x *X) any { return jt(x.op.N[0]).Join(x.conds(0)...) }})
	def(&OpDef{Name: "JoinType.SetToAll", In: kinds("cond cond*"), Out: "cond", W: 1, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(2), g.n(8)} },
		Model: func(m *MArgs) any { c := m.cond(m.op.N[1] % len(m.in)); c.Ext = joinOp(m.op.N[0]); return c },
		Exec: func(x *X) any {
			r := jt(x.op.N[0]).SetToAll(x.conds(0)...)
			x.w.noteRes(x.op, r)
			return r[x.op.N[1]%len(x.in)]
		}})
	for _, k := range []int{0, 1} {
		k := k
		op := joinOp(k)
		def(&OpDef{Name: map[int]string{0: "And", 1: "Or"}[k], In: kinds("cond cond cond*"), Out: "cond", W: 5,
			Model: func(m *MArgs) any {
				r := combined(m, op, m.cond(0), m.conds(1))
				if c, ok := r.(MCond); ok && k == 1 {
					c.Ext = "?"
					return c
				}
				return r
			},
			Exec: func(x *X) any {
				c := x.condition(x.in[0])
				if k == 0 {
					return query.And(c, x.conds(1)...)
				}
				return query.Or(c, x.conds(1)...)
			}})
		def(&OpDef{Name: map[int]string{0: "cond.And", 1: "cond.Or"}[k], In: kinds("cond cond cond*"), Out: "cond", W: 8,
			Model: func(m *MArgs) any {
				r := combined(m, op, m.cond(0), m.conds(1))
				if c, ok := r.(MCond); ok && k == 1 {
					c.Ext = "?"
					return c
				}
				return r
			},
			Exec: func(x *X) any {
				c := x.condition(x.in[0])
				if k == 0 {
					return c.And(x.conds(1)...)
				}
				return c.Or(x.conds(1)...)
			}})
		def(&OpDef{Name: map[int]string{0: "group.GroupAND", 1: "group.GroupOR"}[k], In: kinds("group cond*"), Out: "group", W: 8,
			Model: func(m *MArgs) any { return combined(m, op, m.cond(0), m.conds(1)) },
			Exec: func(x *X) any {
				c := x.in[0].(query.Group)
				if k == 0 {
					return c.GroupAND(x.conds(1)...)
				}
				return c.GroupOR(x.conds(1)...)
			}})
		def(&OpDef{Name: map[int]string{0: "where.GroupAND", 1: "where.GroupOR"}[k], In: kinds("where cond*"), Out: "where", W: 4,
			Model: func(m *MArgs) any { return combined(m, op, m.cond(0), m.conds(1)) },
			Exec: func(x *X) any {
				c := x.in[0].(query.WhereClause)
				if k == 0 {
					return c.GroupAND(x.conds(1)...)
				}
				return c.GroupOR(x.conds(1)...)
			}})
	}
	def(&OpDef{Name: "NewGroup", In: kinds("cond*"), Out: "group", W: 8, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(2)} },
		Model: func(m *MArgs) any {
			c := newGroup(joinOp(m.op.N[0]), m.conds(0))
			if m.tooLarge(c) {
				return nil
			}
			return c
		},
		Exec: func(x *X) any { return query.NewGroup(jt(x.op.N[0]), x.conds(0)...) }})
	def(&OpDef{Name: "group.WithBrackets", In: kinds("group"), Out: "group", W: 2,
		Model: func(m *MArgs) any {
			if m.cond(0).Core == nil {
				return nil
			}
			return m.cond(0)
		},
		Exec: func(x *X) any { return x.in[0].(query.Group).WithBrackets() }})
	def(&OpDef{Name: "group.asCond", In: kinds("group"), Out: "cond", W: 3,
		Model: func(m *MArgs) any { return m.cond(0) },
		Exec:  func(x *X) any { return query.Condition(x.in[0].(query.Group)) }})
	def(&OpDef{Name: "cond.asGroup", In: kinds("cond"), Out: "group", W: 3,
		Model: func(m *MArgs) any {
			if !m.cond(0).Grp || m.cond(0).Neg {
				return nil
			}
			return m.cond(0)
		},
		Exec: func(x *X) any {
			if g, ok := x.in[0].(query.Group); ok {
				return g
			}
			return nil // not available
		}})
	def(&OpDef{Name: "cond.ApplyFieldTable", In: kinds("cond"), Out: "cond", W: 3, Gen: func(g *Gen, op *Op) { op.S = []string{g.dotted()} },
		Model: func(m *MArgs) any {
			c := m.cond(0)
			c.Core = c.Core.mapLeaves(func(l MLeaf) MLeaf { l.F.Table = m.op.S[0]; return l })
			return c
		},
		Exec: func(x *X) any { return x.in[0].(query.Condition).ApplyFieldTable(query.TableName(x.op.S[0])) }})
	specGen := func(g *Gen, op *Op) {
		op.S = []string{g.tname() + "." + g.someCol(op.In[0])}
	}
	specModel := func(c MCond, spec string) MCond {
		f := parseField(spec)
		c.Core = c.Core.mapLeaves(func(l MLeaf) MLeaf {
			if l.F.Name == f.Name {
				l.F = f
			}
			return l
		})
		return c
	}
	def(&OpDef{Name: "cond.ApplyFieldSpec", In: kinds("cond"), Out: "cond", W: 3, Gen: specGen,
		Model: func(m *MArgs) any { return specModel(m.cond(0), m.op.S[0]) },
		Exec:  func(x *X) any { return x.in[0].(query.Condition).ApplyFieldSpec(simcall.Field(x.op.S[0])) }})
	def(&OpDef{Name: "where.ApplyFieldSpec", In: kinds("where"), Out: "where", W: 1, Gen: specGen,
		Model: func(m *MArgs) any { return specModel(m.cond(0), m.op.S[0]) },
		Exec:  func(x *X) any { return x.in[0].(query.WhereClause).ApplyFieldSpec(simcall.Field(x.op.S[0])) }})
	def(&OpDef{Name: "NewWhere", Out: "where", W: 3,
		Model: func(m *MArgs) any { return MCond{Ext: "AND"} },
		Exec:  func(x *X) any { return query.NewWhere() }})
	// limiter, fields, joins
	def(&OpDef{Name: "Limiter", Out: "lim", W: 1,
		Model: func(m *MArgs) any { return MLim{} },
		Exec:  func(x *X) any { return query.Limiter{} }})
	def(&OpDef{Name: "lim.Limit", In: kinds("lim"), Out: "lim", W: 1, Gen: func(g *Gen, op *Op) { op.N = []int{g.rowNumber(500)} },
		Model: func(m *MArgs) any { l := m.in[0].(MLim); l.Limit = uint(m.op.N[0]); return l },
		Exec:  func(x *X) any { return x.in[0].(query.Limiter).Limit(uint(x.op.N[0])) }})
	def(&OpDef{Name: "lim.Offset", In: kinds("lim"), Out: "lim", W: 1, Gen: func(g *Gen, op *Op) { op.N = []int{g.rowNumber(700)} },
		Model: func(m *MArgs) any { l := m.in[0].(MLim); l.Offset = uint(m.op.N[0]); return l },
		Exec:  func(x *X) any { return x.in[0].(query.Limiter).Offset(uint(x.op.N[0])) }})
	def(&OpDef{Name: "NewFields", Out: "fields", W: 2, Gen: func(g *Gen, op *Op) {
		for i := g.n(5); i > 0; i-- {
			op.S = append(op.S, g.fieldSpec("f"))
			op.N = append(op.N, g.n(9))
		}
	},
		Model: func(m *MArgs) any { return fieldsModel(m.op.S) },
		Exec: func(x *X) any {
			args := make([]any, 0, spare(len(x.op.S)))
			for i, s := range x.op.S {
				switch x.op.N[i] % 3 {
				case 0:
					args = append(args, s)
				case 1:
					args = append(args, query.FieldName(s))
				case 2:
					args = append(args, mkField(x.op.N[i]/3, s))
				}
			}
			x.noteArg(args)
			return query.NewFields(args...)
		}})
	def(&OpDef{Name: "fields.Fields", In: kinds("fields field*"), Out: "fields", W: 2,
		Model: func(m *MArgs) any { return mfields(m.in[1:]) },
		Exec:  func(x *X) any { return x.in[0].(query.Fields).Fields(x.fields(1)...) }})
	joinSpecs := func(g *Gen, op *Op) {
		op.N = []int{g.n(4), g.n(8)}
		op.S = []string{g.tname() + "." + g.name("j"), g.tname() + "." + g.name("j")}
	}
	def(&OpDef{Name: "JoinFields", Out: "jc", W: 1, Gen: joinSpecs,
		Model: func(m *MArgs) any { return MJC{parseField(m.op.S[0]), parseField(m.op.S[1])} },
		Exec:  func(x *X) any { return query.JoinFields(simcall.Field(x.op.S[0]), simcall.Field(x.op.S[1])) }})
	def(&OpDef{Name: "jc.Using", In: kinds("jc"), Out: "tj", W: 1, Gen: joinSpecs,
		Model: func(m *MArgs) any {
			j := m.in[0].(MJC)
			return MJoin{joinNames[m.op.N[0]], MTable{Name: j.R.Table}, j.L, j.R}
		},
		Exec: func(x *X) any {
			j := x.in[0].(query.JoinCondition)
			if x.op.N[1]%2 == 0 {
				return j.Using(joinTypes[x.op.N[0]])
			}
			return []func() query.TableJoiner{j.InnerJoin, j.LeftJoin, j.RightJoin, j.FullJoin}[x.op.N[0]]()
		}})
	def(&OpDef{Name: "TableJoinType.By", Out: "tj", W: 1, Gen: joinSpecs,
		Model: func(m *MArgs) any {
			l, r := parseField(m.op.S[0]), parseField(m.op.S[1])
			return MJoin{joinNames[m.op.N[0]], MTable{Name: r.Table}, l, r}
		},
		Exec: func(x *X) any { return joinTypes[x.op.N[0]].By(simcall.Field(x.op.S[0]), simcall.Field(x.op.S[1])) }})
	def(&OpDef{Name: "NewTableJoiner", In: kinds("table jc"), Out: "tj", W: 1, Gen: joinSpecs,
		Model: func(m *MArgs) any {
			j := m.in[1].(MJC)
			return MJoin{joinNames[m.op.N[0]], m.in[0].(MTable), j.L, j.R}
		},
		Exec: func(x *X) any {
			return query.NewTableJoiner(x.in[0].(query.TableIdent), joinTypes[x.op.N[0]], x.in[1].(query.JoinCondition))
		}})
	def(&OpDef{Name: "tj.By", In: kinds("tj"), Out: "tj", W: 1, Gen: joinSpecs,
		Model: func(m *MArgs) any {
			j := m.in[0].(MJoin)
			j.L, j.R = parseField(m.op.S[0]), parseField(m.op.S[1])
			return j
		},
		Exec: func(x *X) any {
			return x.in[0].(query.TableJoiner).By(simcall.Field(x.op.S[0]), simcall.Field(x.op.S[1]))
		}})
	// select builders
	selForm := func(g *Gen, op *Op) { op.N = []int{g.n(6), g.n(4)}; op.S = []string{g.tableSpec()} }
	selModel := func(m *MArgs) any {
		t := parseTable(m.op.S[0])
		if m.op.N[0] < 3 && len(m.in) > 0 {
			return nil // these forms take no conditions
		}
		if m.op.N[0] == 5 {
			t.Alias = ""
		}
		return newSelect(m, t, m.conds(0))
	}
	def(&OpDef{Name: "SelectFrom", In: kinds("cond*"), Out: "base", W: 12, Gen: selForm, Model: selModel,
		Exec: func(x *X) any {
			s := x.op.S[0]
			switch x.op.N[0] {
			case 0:
				return simcall.SelectFrom(s)
			case 1:
				return simcall.SelectFrom(query.TableName(s))
			case 2:
				return simcall.SelectFrom(mkTable(x.op.N[1], s))
			case 3:
				return query.TableName(s).Select(x.conds(0)...)
			case 4:
				return mkTable(x.op.N[1], s).Select(x.conds(0)...)
			}
			return simcall.Table(parseTable(s).Name).Select(x.conds(0)...)
		}})
	def(&OpDef{Name: "SelectManyFrom", In: kinds("cond*"), Out: "many", W: 5, Gen: selForm, Model: selModel,
		Exec: func(x *X) any {
			s := x.op.S[0]
			switch x.op.N[0] {
			case 0:
				return simcall.SelectManyFrom(s)
			case 1:
				return simcall.SelectManyFrom(query.TableName(s))
			case 2:
				return simcall.SelectManyFrom(mkTable(x.op.N[1], s))
			case 3:
				return query.TableName(s).SelectMany(x.conds(0)...)
			case 4:
				return mkTable(x.op.N[1], s).SelectMany(x.conds(0)...)
			}
			return query.TableName(parseTable(s).Name).SelectMany(x.conds(0)...)
		}})
	def(&OpDef{Name: "SelectSingleFrom", In: kinds("cond*"), Out: "single", W: 4, Gen: selForm, Model: selModel,
		Exec: func(x *X) any {
			s := x.op.S[0]
			switch x.op.N[0] {
			case 0:
				return simcall.SelectSingleFrom(s)
			case 1:
				return simcall.SelectSingleFrom(query.TableName(s))
			case 2:
				return simcall.SelectSingleFrom(mkTable(x.op.N[1], s))
			case 3:
				return query.TableName(s).SelectOne(x.conds(0)...)
			case 4:
				return mkTable(x.op.N[1], s).SelectOne(x.conds(0)...)
			}
			return query.TableName(parseTable(s).Name).SelectOne(x.conds(0)...)
		}})
	def(&OpDef{Name: "table.Select", In: kinds("table cond*"), Out: "base", W: 3,
		Model: func(m *MArgs) any { return newSelect(m, m.in[0].(MTable), m.conds(1)) },
		Exec:  func(x *X) any { return x.in[0].(query.TableIdent).Select(x.conds(1)...) }})
	// unfinished joins
	pend := func(s MSelect, t MTable, typ int) MSelect {
		s.Joins = addJoin(s.Joins, MJoin{Type: joinNames[typ], Tab: t})
		return s
	}
	joinGen := func(g *Gen, op *Op) { op.N = []int{g.n(4), g.n(2), g.n(4)}; op.S = []string{g.tableSpec()} }
	def(&OpDef{Name: "base.Join", In: kinds("base"), Out: "ubase", W: 5, Gen: joinGen,
		Model: func(m *MArgs) any { return pend(m.sel(0), parseTable(m.op.S[0]), m.op.N[0]) },
		Exec: func(x *X) any {
			b, t := x.in[0].(query.BaseSelectBuilder), mkTable(x.op.N[2], x.op.S[0])
			if x.op.N[1] == 0 {
				return b.Join(t, joinTypes[x.op.N[0]])
			}
			return []func(query.TableIdent) query.IncompleteSelectJoin{b.InnerJoin, b.LeftJoin, b.RightJoin, b.FullJoin}[x.op.N[0]](t)
		}})
	def(&OpDef{Name: "many.Join", In: kinds("many"), Out: "umany", W: 4, Gen: joinGen,
		Model: func(m *MArgs) any { return pend(m.sel(0), parseTable(m.op.S[0]), m.op.N[0]) },
		Exec: func(x *X) any {
			b, t := x.in[0].(query.SelectManyBuilder), query.TableName(x.op.S[0])
			if x.op.N[1] == 0 {
				return b.Join(t, joinTypes[x.op.N[0]])
			}
			return []func(query.TableName) query.IncompleteSelectManyJoiner{b.InnerJoin, b.LeftJoin, b.RightJoin, b.FullJoin}[x.op.N[0]](t)
		}})
	def(&OpDef{Name: "single.Join", In: kinds("single"), Out: "usingle", W: 3, Gen: joinGen,
		Model: func(m *MArgs) any { return pend(m.sel(0), parseTable(m.op.S[0]), m.op.N[0]) },
		Exec: func(x *X) any {
			b, t := x.in[0].(query.SelectSingleBuilder), query.TableName(x.op.S[0])
			if x.op.N[1] == 0 {
				return b.Join(t, joinTypes[x.op.N[0]])
			}
			return []func(query.TableName) query.IncompleteSelectSingleJoiner{b.InnerJoin, b.LeftJoin, b.RightJoin, b.FullJoin}[x.op.N[0]](t)
		}})
	def(&OpDef{Name: "TableJoinType.Tables", In: kinds("table table"), Out: "ubase", W: 1, Gen: joinGen,
		Model: func(m *MArgs) any {
			return pend(newSelect(m, m.in[0].(MTable), nil).(MSelect), m.in[1].(MTable), m.op.N[0])
		},
		Exec: func(x *X) any {
			return joinTypes[x.op.N[0]].Tables(x.in[0].(query.TableIdent), x.in[1].(query.TableIdent))
		}})
	def(&OpDef{Name: "table.Join", In: kinds("table"), Out: "ubase", W: 1, Gen: joinGen,
		Model: func(m *MArgs) any {
			return pend(newSelect(m, m.in[0].(MTable), nil).(MSelect), parseTable(m.op.S[0]), m.op.N[0])
		},
		Exec: func(x *X) any {
			b, t := x.in[0].(query.TableIdent), mkTable(x.op.N[2], x.op.S[0])
			if x.op.N[1] == 0 {
				return b.Join(t, joinTypes[x.op.N[0]])
			}
			return []func(query.TableIdent) query.IncompleteSelectJoin{b.InnerJoin, b.LeftJoin, b.RightJoin, b.FullJoin}[x.op.N[0]](t)
		}})
	def(&OpDef{Name: "TableName.Join", Out: "ubase", W: 1, Gen: func(g *Gen, op *Op) {
		joinGen(g, op)
		op.S = append(op.S, g.tname())
	},
		Model: func(m *MArgs) any {
			return pend(newSelect(m, MTable{Name: m.op.S[1]}, nil).(MSelect), parseTable(m.op.S[0]), m.op.N[0])
		},
		Exec: tableNameJoin})
	onGen := func(g *Gen, op *Op) {
		op.S = []string{g.tname() + "." + g.name("j"), g.tname() + "." + g.name("j")}
	}
	on := func(m *MArgs) any {
		s := m.sel(0)
		j := addJoin(s.Joins)
		j[len(j)-1].L, j[len(j)-1].R = parseField(m.op.S[0]), parseField(m.op.S[1])
		s.Joins = j
		return s
	}
	def(&OpDef{Name: "ubase.On", In: kinds("ubase"), Out: "base", W: 8, Gen: onGen, Model: on, Exec: func(x *X) any {
		return x.in[0].(query.IncompleteSelectJoin).On(simcall.Field(x.op.S[0]), simcall.Field(x.op.S[1]))
	}})
	def(&OpDef{Name: "umany.On", In: kinds("umany"), Out: "many", W: 8, Gen: onGen, Model: on, Exec: func(x *X) any {
		return x.in[0].(query.IncompleteSelectManyJoiner).On(simcall.Field(x.op.S[0]), simcall.Field(x.op.S[1]))
	}})
	def(&OpDef{Name: "usingle.On", In: kinds("usingle"), Out: "single", W: 8, Gen: onGen, Model: on, Exec: func(x *X) any {
		return x.in[0].(query.IncompleteSelectSingleJoiner).On(simcall.Field(x.op.S[0]), simcall.Field(x.op.S[1]))
	}})
	// derivations of the three select builders
	type sel struct {
		kind   string
		fields func(o any, f []query.FieldDefinition) any
		where  func(o any, c []query.Condition) any
		upd    func(o any, v []query.FieldValue) any
		del    func(o any) any
		cnt    func(o any) any
		ins    func(o any, v []query.FieldValue) any
		many   func(o any) any
		single func(o any) any
		off    func(o any, n uint) any
		lim    func(o any, n int) any
		order  func(o any, s []query.FieldSorting) any
		base   func(o any) query.BaseSelectBuilder
	}
	for _, k := range []sel{
		{"base", func(o any, f []query.FieldDefinition) any { return o.(query.BaseSelectBuilder).Fields(f...) },
			func(o any, c []query.Condition) any { return o.(query.BaseSelectBuilder).Where(c...) },
			func(o any, v []query.FieldValue) any { return o.(query.BaseSelectBuilder).Update(v...) },
			func(o any) any { return o.(query.BaseSelectBuilder).Delete() },
			func(o any) any { return o.(query.BaseSelectBuilder).Count() },
			func(o any, v []query.FieldValue) any { return o.(query.BaseSelectBuilder).InsertInto(v...) },
			func(o any) any { return o.(query.BaseSelectBuilder).Many() },
			func(o any) any { return o.(query.BaseSelectBuilder).Single() },
			func(o any, n uint) any { return o.(query.BaseSelectBuilder).Offset(n) },
			func(o any, n int) any { return o.(query.BaseSelectBuilder).Limit(n) },
			func(o any, s []query.FieldSorting) any { return o.(query.BaseSelectBuilder).OrderBy(s...) },
			func(o any) query.BaseSelectBuilder { return o.(query.BaseSelectBuilder) }},
		{"many", func(o any, f []query.FieldDefinition) any { return o.(query.SelectManyBuilder).Fields(f...) },
			func(o any, c []query.Condition) any { return o.(query.SelectManyBuilder).Where(c...) },
			func(o any, v []query.FieldValue) any { return o.(query.SelectManyBuilder).Update(v...) },
			func(o any) any { return o.(query.SelectManyBuilder).Delete() },
			func(o any) any { return o.(query.SelectManyBuilder).Count() },
			func(o any, v []query.FieldValue) any { return o.(query.SelectManyBuilder).InsertInto(v...) },
			func(o any) any { return o.(query.SelectManyBuilder).Many() },
			func(o any) any { return o.(query.SelectManyBuilder).Single() },
			func(o any, n uint) any { return o.(query.SelectManyBuilder).Offset(n) },
			func(o any, n int) any { return o.(query.SelectManyBuilder).Limit(n) },
			func(o any, s []query.FieldSorting) any { return o.(query.SelectManyBuilder).OrderBy(s...) },
			func(o any) query.BaseSelectBuilder { return o.(query.SelectManyBuilder).BaseSelectBuilder }},
		{"single", func(o any, f []query.FieldDefinition) any { return o.(query.SelectSingleBuilder).Fields(f...) },
			func(o any, c []query.Condition) any { return o.(query.SelectSingleBuilder).Where(c...) },
			func(o any, v []query.FieldValue) any { return o.(query.SelectSingleBuilder).Update(v...) },
			func(o any) any { return o.(query.SelectSingleBuilder).Delete() },
			func(o any) any { return o.(query.SelectSingleBuilder).Count() },
			func(o any, v []query.FieldValue) any { return o.(query.SelectSingleBuilder).InsertInto(v...) },
			func(o any) any { return o.(query.SelectSingleBuilder).Many() },
			func(o any) any { return o.(query.SelectSingleBuilder).Single() },
			func(o any, n uint) any { return o.(query.SelectSingleBuilder).Offset(n) },
			func(o any, n int) any { return o.(query.SelectSingleBuilder).Limit(n) },
			func(o any, s []query.FieldSorting) any { return o.(query.SelectSingleBuilder).OrderBy(s...) },
			func(o any) query.BaseSelectBuilder { return o.(query.SelectSingleBuilder).BaseSelectBuilder }},
	} {
		k := k
		w := 1
		if k.kind != "single" {
			w = 2
		}
		n := k.kind
		manyOf := func(s MSelect) MSelect { // pagination and ordering start anew unless the builder is a many builder
			if n == "many" {
				return s
			}
			r := s.base()
			r.Limit = -1
			return r
		}
		def(&OpDef{Name: n + ".Fields", In: kinds(n + " field*"), Out: n, W: 2 * w,
			Model: func(m *MArgs) any { s := m.sel(0); s.Fields = mfields(m.in[1:]); return s },
			Exec:  func(x *X) any { return k.fields(x.in[0], x.fields(1)) }})
		def(&OpDef{Name: n + ".Where", In: kinds(n + " cond*"), Out: n, W: 8 * w,
			Model: func(m *MArgs) any { return appendWhere(m, m.sel(0), m.conds(1)) },
			Exec:  func(x *X) any { return k.where(x.in[0], x.conds(1)) }})
		def(&OpDef{Name: n + ".Update", In: kinds(n + " fv*"), Out: "upd", W: 2 * w,
			Model: func(m *MArgs) any {
				return MWrite{Verb: "UPDATE", Tab: m.sel(0).Tab.Name, Vals: m.fvs(1), Where: m.sel(0).Where}
			},
			Exec: func(x *X) any { return k.upd(x.in[0], x.fvs(1)) }})
		def(&OpDef{Name: n + ".Delete", In: kinds(n), Out: "del", W: 2 * w,
			Model: func(m *MArgs) any { return MWrite{Verb: "DELETE", Tab: m.sel(0).Tab.Name, Where: m.sel(0).Where} },
			Exec:  func(x *X) any { return k.del(x.in[0]) }})
		def(&OpDef{Name: n + ".Count", In: kinds(n), Out: "count", W: w,
			Model: func(m *MArgs) any { return MCount{m.sel(0).base(), "*"} },
			Exec:  func(x *X) any { return k.cnt(x.in[0]) }})
		def(&OpDef{Name: n + ".InsertInto", In: kinds(n + " fv*"), Out: "ins", W: w,
			Model: func(m *MArgs) any { return MWrite{Verb: "INSERT", Tab: m.sel(0).Tab.Name, Vals: m.fvs(1)} },
			Exec:  func(x *X) any { return k.ins(x.in[0], x.fvs(1)) }})
		def(&OpDef{Name: n + ".Many", In: kinds(n), Out: "many", W: w,
			Model: func(m *MArgs) any { s := m.sel(0).base(); s.Limit = -1; return s },
			Exec:  func(x *X) any { return k.many(x.in[0]) }})
		def(&OpDef{Name: n + ".Single", In: kinds(n), Out: "single", W: w,
			Model: func(m *MArgs) any { s := m.sel(0).base(); s.Limit = -1; return s },
			Exec:  func(x *X) any { return k.single(x.in[0]) }})
		def(&OpDef{Name: n + ".Offset", In: kinds(n), Out: "many", W: w, Gen: func(g *Gen, op *Op) { op.N = []int{g.rowNumber(400)} },
			Model: func(m *MArgs) any { s := manyOf(m.sel(0)); s.Offset = uint(m.op.N[0]); return s },
			Exec:  func(x *X) any { return k.off(x.in[0], uint(x.op.N[0])) }})
		def(&OpDef{Name: n + ".Limit", In: kinds(n), Out: "many", W: w, Gen: func(g *Gen, op *Op) { op.N = []int{g.rowNumber(600) - g.n(2)} },
			Model: func(m *MArgs) any { s := manyOf(m.sel(0)); s.Limit = m.op.N[0]; return s },
			Exec:  func(x *X) any { return k.lim(x.in[0], x.op.N[0]) }})
		def(&OpDef{Name: n + ".OrderBy", In: kinds(n + " sort sort*"), Out: "many", W: 4 * w,
			Model: func(m *MArgs) any {
				s := manyOf(m.sel(0))
				var o []MSort
				for _, x := range m.in[1:] {
					o = append(o, x.(MSort))
				}
				s.Order = addSort(s.Order, o...)
				return s
			},
			Exec: func(x *X) any { return k.order(x.in[0], x.sorts(1)) }})
		def(&OpDef{Name: n + ".toBase", In: kinds(n), Out: "base", W: 1, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(4)} },
			Model: func(m *MArgs) any { s := m.sel(0).base(); s.Limit = -1; return s },
			Exec:  func(x *X) any { return k.base(x.in[0]) }})
		def(&OpDef{Name: "Many/Single of " + n, In: kinds(n), Out: "many", W: 1, Gen: func(g *Gen, op *Op) { op.N = []int{g.n(4)} },
			Model: func(m *MArgs) any { s := m.sel(0).base(); s.Limit = -1; return s },
			Exec:  func(x *X) any { return query.SelectManyFromBase(k.base(x.in[0])) }})
		def(&OpDef{Name: "SelectSingleFromBase " + n, In: kinds(n), Out: "single", W: 1,
			Model: func(m *MArgs) any { s := m.sel(0).base(); s.Limit = -1; return s },
			Exec:  func(x *X) any { return query.SelectSingleFromBase(k.base(x.in[0])) }})
		def(&OpDef{Name: "Count of " + n, In: kinds(n), Out: "count", W: w, Gen: func(g *Gen, op *Op) {
			if g.n(3) > 0 {
				op.S = []string{g.maybeTable() + g.name("f")}
			}
		},
			Model: func(m *MArgs) any {
				c := MCount{m.sel(0).base(), "*"}
				if len(m.op.S) > 0 {
					c.Field = m.op.S[0]
				}
				return c
			},
			Exec: func(x *X) any {
				if len(x.op.S) > 0 {
					return query.Count(k.base(x.in[0]), query.FieldName(x.op.S[0]))
				}
				return query.Count(k.base(x.in[0]))
			}})
	}
	def(&OpDef{Name: "table.Count", In: kinds("table cond*"), Out: "count", W: 1,
		Model: func(m *MArgs) any {
			s := newSelect(m, m.in[0].(MTable), m.conds(1))
			if s == nil {
				return nil
			}
			return MCount{s.(MSelect), "*"}
		},
		Exec: func(x *X) any {
			t := x.in[0].(query.TableIdent)
			return t.Count(x.conds(1)...)
		}})
	// insert, update, delete
	wForm := func(g *Gen, op *Op) { op.N = []int{g.n(5)}; op.S = []string{g.writeTable()} }
	def(&OpDef{Name: "InsertInto", In: kinds("fv*"), Out: "ins", W: 5, Gen: wForm,
		Model: func(m *MArgs) any {
			if m.op.S[0] == "" && m.op.N[0] > 1 || m.op.N[0] < 3 && len(m.in) > 0 {
				return nil
			}
			return MWrite{Verb: "INSERT", Tab: m.op.S[0], Vals: m.fvs(0)}
		},
		Exec: func(x *X) any {
			s := x.op.S[0]
			switch x.op.N[0] {
			case 0:
				return simcall.InsertInto(s)
			case 1:
				return simcall.InsertInto(query.TableName(s))
			case 2:
				return simcall.InsertInto(simcall.Table(s))
			case 3:
				return query.TableName(s).InsertInto(x.fvs(0)...)
			}
			return simcall.Table(s).As("al").InsertInto(x.fvs(0)...)
		}})
	def(&OpDef{Name: "ins.Values", In: kinds("ins fv*"), Out: "ins", W: 10,
		Model: func(m *MArgs) any { w := m.write(0); w.Vals = addFV(w.Vals, m.fvs(1)...); return w },
		Exec:  func(x *X) any { return x.in[0].(query.InsertBuilder).Values(x.fvs(1)...) }})
	vmGen := func(g *Gen, op *Op) {
		var names []string
		for i := g.n(5); i > 0; i-- {
			name := g.name("c")
			if slices.Contains(names, name) {
				continue
			}
			names = append(names, name)
			op.S = append(op.S, g.maybeTable()+name)
			op.V = append(op.V, g.colVal())
			if twin := strings.ToUpper(name); !slices.Contains(names, twin) && g.n(12) == 0 {
				names = append(names, twin)
				op.S = append(op.S, twin)
				op.V = append(op.V, g.colVal())
			}
		}
	}
	vmModel := func(m *MArgs) any {
		w := m.write(0)
		var add []MFV
		for i, s := range m.op.S {
			add = append(add, MFV{parseField(s), m.op.V[i]})
		}
		w.Vals = addFV(w.Vals, sortFV(add)...)
		return w
	}
	vmVals := func(x *X) []query.FieldValue {
		vm := query.ValuesMap{}
		for i, s := range x.op.S {
			vm[s] = x.op.V[i].make()
		}
		x.noteArg(vm)
		r, err := vm.FieldValues()
		if err != nil {
			panic(err)
		}
		// the column order is the map's: fix it, so that everything downstream is determined
		sortQFV(r)
		return r
	}
	def(&OpDef{Name: "ins.Values(map)", In: kinds("ins"), Out: "ins", W: 2, Gen: vmGen, Model: vmModel,
		Exec: func(x *X) any { return x.in[0].(query.InsertBuilder).Values(vmVals(x)...) }})
	def(&OpDef{Name: "upd.Set(map)", In: kinds("upd"), Out: "upd", W: 2, Gen: vmGen, Model: vmModel,
		Exec: func(x *X) any { return x.in[0].(query.UpdateBuilder).Set(vmVals(x)...) }})
	def(&OpDef{Name: "Update", In: kinds("fv*"), Out: "upd", W: 5, Gen: wForm,
		Model: func(m *MArgs) any {
			if m.op.S[0] == "" && m.op.N[0] > 1 || m.op.N[0] < 3 && len(m.in) > 0 {
				return nil
			}
			return MWrite{Verb: "UPDATE", Tab: m.op.S[0], Vals: m.fvs(0), Where: MCond{Ext: "AND"}}
		},
		Exec: func(x *X) any {
			s := x.op.S[0]
			switch x.op.N[0] {
			case 0:
				return simcall.Update(s)
			case 1:
				return simcall.Update(query.TableName(s))
			case 2:
				return simcall.Update(simcall.Table(s).As("al"))
			case 3:
				return query.TableName(s).Update(x.fvs(0)...)
			}
			return simcall.Table(s).Update(x.fvs(0)...)
		}})
	def(&OpDef{Name: "upd.Set", In: kinds("upd fv*"), Out: "upd", W: 10,
		Model: func(m *MArgs) any { w := m.write(0); w.Vals = addFV(w.Vals, m.fvs(1)...); return w },
		Exec:  func(x *X) any { return x.in[0].(query.UpdateBuilder).Set(x.fvs(1)...) }})
	def(&OpDef{Name: "upd.Where", In: kinds("upd cond*"), Out: "upd", W: 9, Model: writeWhere,
		Exec: func(x *X) any { return x.in[0].(query.UpdateBuilder).Where(x.conds(1)...) }})
	def(&OpDef{Name: "Delete", In: kinds("cond*"), Out: "del", W: 5, Gen: wForm,
		Model: func(m *MArgs) any {
			if m.op.S[0] == "" && m.op.N[0] > 1 || m.op.N[0] < 3 && len(m.in) > 0 {
				return nil
			}
			w, ok := whereOf(m, m.conds(0))
			if !ok {
				return nil
			}
			return MWrite{Verb: "DELETE", Tab: m.op.S[0], Where: w}
		},
		Exec: func(x *X) any {
			s := x.op.S[0]
			switch x.op.N[0] {
			case 0:
				return simcall.Delete(s)
			case 1:
				return simcall.Delete(query.TableName(s))
			case 2:
				return simcall.Delete(simcall.Table(s).As("al"))
			case 3:
				return query.TableName(s).Delete(x.conds(0)...)
			}
			return simcall.Table(s).Delete(x.conds(0)...)
		}})
	def(&OpDef{Name: "del.Where", In: kinds("del cond*"), Out: "del", W: 9, Model: writeWhere,
		Exec: func(x *X) any { return x.in[0].(query.DeleteBuilder).Where(x.conds(1)...) }})
}

// badNames are no valid field, table or column names in one place or another.
var badNames = []string{"a b c d", "", "a.b.c", "a b", "a as", "a b c", "'q", "x.", "t.", " .", ".x", "a\"b", "f AS", "a AS b c"}

var refusals = []func(s string) any{
	func(s string) any { return simcall.Field(s).RenderSpec() },
	func(s string) any {
		f, err := simcall.FieldOrError(s)
		if err != nil {
			return err
		}
		return f.RenderSpec()
	},
	func(s string) any { return simcall.Table(s).RenderFrom() },
	func(s string) any {
		t, err := simcall.TableOrError(s)
		if err != nil {
			return err
		}
		return t.RenderFrom()
	},
	func(s string) any { return query.ASC(query.FieldName(s)).Render() },
	func(s string) any { return query.DESC(query.FieldName(s)).Render() },
	func(s string) any { return query.OrderBy(query.FieldName(s), query.Descending).Render() },
	func(s string) any { return query.OrderBy("o", query.SortDirection("UP"+s)).Render() },
	func(s string) any { return query.FieldName(s).Validate() },
	func(s string) any { return query.EqualTo(query.FieldName(s), 1).RenderSQL() },
	func(s string) any { return query.In(query.FieldName(s), []string{"1"}).RenderSQL() },
	func(s string) any { return query.IsNull(query.FieldName(s)).RenderSQL() },
	func(s string) any { return query.NewFieldValue(query.FieldName(s), 1).RenderSpec() },
	func(s string) any { return query.NewFields("f", s).String() },
	func(s string) any { return query.NewFields("f", len(s)).String() },
	func(s string) any {
		r, err := query.ValuesMap{"ok": 1, s: 2}.FieldValues()
		if err != nil {
			return err
		}
		sortQFV(r)
		return fvsText(r)
	},
	func(s string) any { return simcall.SelectFrom(s).RenderFrom() },
	func(s string) any { return query.Count(simcall.SelectFrom("t"), query.FieldName(s)).RenderFrom() },
}

// said makes a call that may be refused and tells what it gave.
func said(f func(string) any, s string) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = fmt.Sprint("panic: ", p)
		}
	}()
	return fmt.Sprint(f(s))
}

func init() {
	for _, k := range walkers {
		def(&OpDef{Name: "walk." + k, In: kinds(k), Out: "words",
			Model: func(m *MArgs) any { return "walk" },
			Exec:  func(x *X) any { return x.walk() }})
	}
	def(&OpDef{Name: "refused", Out: "words", W: 3, Gen: func(g *Gen, op *Op) {
		op.N = []int{g.n(len(refusals))}
		op.S = []string{badNames[g.n(len(badNames))]}
	},
		Model: func(m *MArgs) any { return words{} },
		Exec:  func(x *X) any { return &words{text: said(refusals[x.op.N[0]], x.op.S[0])} }})
	def(&OpDef{Name: "UniqFieldNames", Out: "words", W: 1, Gen: func(g *Gen, op *Op) {
		op.N = []int{g.n(3)}
		for i := g.n(5); i >= 0; i-- {
			if len(op.S) > 0 && g.n(3) == 0 && op.N[0] > 0 {
				op.S = append(op.S, op.S[g.n(len(op.S))])
			} else {
				op.S = append(op.S, g.name("u"))
			}
		}
	},
		Model: func(m *MArgs) any { return words{} },
		Exec: func(x *X) any {
			names := make([]query.FieldName, 0, spare(len(x.op.S)))
			for _, s := range x.op.S {
				names = append(names, query.FieldName(s))
			}
			x.noteArg(names)
			r := query.UniqFieldNames(names)
			x.w.noteRes(x.op, r)
			return &words{text: fmt.Sprint(r), names: r}
		}})
}

func writeWhere(m *MArgs) any {
	w := m.write(0)
	r := combined(m, "AND", w.Where, m.conds(1))
	if r == nil {
		return nil
	}
	w.Where = r.(MCond)
	w.Where.Ext = "AND"
	return w
}

func tableNameJoin(x *X) any {
	b, t := query.TableName(x.op.S[1]), mkTable(x.op.N[2], x.op.S[0])
	typ := x.op.N[0]
	if x.op.N[1] == 0 {
		return b.Join(t, joinTypes[typ])
	}
	switch typ {
	case 0:
		return b.InnerJoin(t)
	case 1:
		return b.LeftJoin(t)
	case 2:
		return b.RightJoin(t)
	}
	return b.FullJoin(t)
}

func fieldsModel(specs []string) []MField {
	var r []MField
	for _, s := range specs {
		r = append(r, parseField(s))
	}
	return r
}

func mfields(in []any) []MField {
	var r []MField
	for _, x := range in {
		r = append(r, x.(MField))
	}
	return r
}
