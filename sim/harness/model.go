package main

import (
	fmt "github.com/amarin/query/zz_verif/simfmt"
	"sort"
	"strings"
)

// The reference model: plain trees that never share mutable memory.

// MField is a field definition.
type MField struct{ Table, Name, Alias string }

func (f MField) spec() string {
	s := f.Name
	if f.Table != "" {
		s = f.Table + "." + f.Name
	}
	if f.Alias != "" && (f.Alias != f.Name || f.Table != "") {
		s += " AS " + f.Alias
	}
	return s
}

func (f MField) order() string {
	if f.Alias != "" && f.Alias != f.Name {
		return f.Alias
	}
	if f.Table != "" {
		return f.Table + "." + f.Name
	}
	return f.Name
}

func (f MField) full() string { return f.Table + "." + f.Name }

// parseField is the documented field specification grammar.
func parseField(spec string) MField {
	t := strings.Fields(spec)
	var f MField
	if len(t) == 3 {
		f.Alias = t[2]
	}
	if i := strings.Index(t[0], "."); i >= 0 {
		f.Table, f.Name = t[0][:i], t[0][i+1:]
	} else {
		f.Name = t[0]
	}
	return f
}

// MTable is a table ident.
type MTable struct{ Name, Alias string }

func (t MTable) from() string {
	if t.Alias != "" && t.Alias != t.Name {
		return t.Name + " AS " + t.Alias
	}
	return t.Name
}

func (t MTable) ref() string {
	if t.Alias != "" {
		return t.Alias
	}
	return t.Name
}

func parseTable(spec string) MTable {
	t := strings.Fields(spec)
	m := MTable{Name: t[0]}
	if len(t) > 1 && t[len(t)-1] != t[0] {
		m.Alias = t[len(t)-1]
	}
	return m
}

// MLeaf is a single condition.
type MLeaf struct {
	F   MField
	Op  string // = < <= > >= LIKE ILIKE NULL IN @@
	Val Val
}

// MExpr is a logical combination.
type MExpr struct {
	Op   string // leaf and or not
	L    *MLeaf
	Kids []*MExpr
}

// MCond is a condition object: its own join type, its negation flag and what it denotes without the flag.
type MCond struct {
	Ext  string
	Neg  bool
	Core *MExpr // nil: an empty group
	Grp  bool   // the object is a Group
}

func (c MCond) expr() *MExpr {
	if c.Core == nil {
		return nil
	}
	if c.Neg {
		return &MExpr{Op: "not", Kids: []*MExpr{c.Core}}
	}
	return c.Core
}

func joinExpr(op string, kids []*MExpr) *MExpr {
	var k []*MExpr
	for _, x := range kids {
		if x != nil {
			k = append(k, x)
		}
	}
	switch len(k) {
	case 0:
		return nil
	case 1:
		return k[0]
	}
	return &MExpr{Op: op, Kids: k}
}

func exprsOf(cs []MCond) []*MExpr {
	var r []*MExpr
	for _, c := range cs {
		if e := c.expr(); e != nil {
			r = append(r, e)
		}
	}
	return r
}

func lower(op string) string { return strings.ToLower(op) }

// newGroup denotes NewGroup(op, conds...).
func newGroup(op string, cs []MCond) MCond {
	return MCond{Ext: "AND", Core: joinExpr(lower(op), exprsOf(cs)), Grp: true}
}

// combine denotes recv.GroupAND(cs...) / recv.GroupOR(cs...).
func combine(op string, recv MCond, cs []MCond) MCond {
	var live []MCond
	for _, c := range cs {
		if c.Core != nil {
			live = append(live, c)
		}
	}
	if len(live) == 0 {
		r := recv
		if r.Ext == "OR" { // of a condition, not of the group with it alone
			r.Ext = "?"
		}
		return r
	}
	ext := "?"
	if op == "AND" && recv.Ext == "AND" {
		ext = "AND"
	}
	re := recv.expr()
	if re == nil {
		jop := "and"
		if len(live) > 1 && live[1].Ext == "OR" {
			jop = "or"
		}
		return MCond{Ext: ext, Core: joinExpr(jop, exprsOf(live)), Grp: true}
	}
	if op == "AND" {
		return MCond{Ext: ext, Core: joinExpr("and", append([]*MExpr{re}, exprsOf(live)...)), Grp: true}
	}
	return MCond{Ext: ext, Core: joinExpr("or", []*MExpr{re, joinExpr("and", exprsOf(live))}), Grp: true}
}

func (e *MExpr) mapLeaves(f func(MLeaf) MLeaf) *MExpr {
	if e == nil {
		return nil
	}
	n := &MExpr{Op: e.Op}
	if e.L != nil {
		l := f(*e.L)
		n.L = &l
	}
	for _, k := range e.Kids {
		n.Kids = append(n.Kids, k.mapLeaves(f))
	}
	return n
}

type polLeaf struct {
	L   *MLeaf
	Neg bool
}

// leaves in order, with the parity of negations above each.
func (e *MExpr) leaves(neg bool, out []polLeaf) []polLeaf {
	if e == nil {
		return out
	}
	switch e.Op {
	case "leaf":
		return append(out, polLeaf{e.L, neg})
	case "not":
		return e.Kids[0].leaves(!neg, out)
	}
	for _, k := range e.Kids {
		out = k.leaves(neg, out)
	}
	return out
}

// size counts the nodes of an expression, long lists as several.
func (e *MExpr) size() int {
	n := 1
	if e.Op == "leaf" {
		n += min(e.L.Val.Count()/20, 40)
	}
	sum := 0
	for _, k := range e.Kids {
		sum += k.size()
	}
	if len(e.Kids) > 16 { // wide, not deep
		sum /= 8
	}
	return n + sum
}

func (e *MExpr) String() string {
	if e == nil {
		return "<empty>"
	}
	switch e.Op {
	case "leaf":
		return e.L.F.spec() + " " + e.L.Op + " " + e.L.Val.String()
	case "not":
		return "not(" + e.Kids[0].String() + ")"
	}
	var s []string
	for _, k := range e.Kids {
		s = append(s, k.String())
	}
	return e.Op + "(" + strings.Join(s, ", ") + ")"
}

// MSort is an ordering item.
type MSort struct {
	F   MField
	Dir string
}

func (s MSort) String() string { return s.F.order() + " " + s.Dir }

// MFV is a field value.
type MFV struct {
	F   MField
	Val Val
}

// MJoin is a finished or pending table join.
type MJoin struct {
	Type string
	Tab  MTable
	L, R MField
}

func (j MJoin) String() string {
	return j.Type + " " + j.Tab.from() + " ON " + j.L.full() + "=" + j.R.full()
}

// MSelect is a select builder of any kind.
type MSelect struct {
	Tab    MTable
	Joins  []MJoin
	Fields []MField
	Where  MCond
	Order  []MSort
	Offset uint
	Limit  int
}

func (s MSelect) base() MSelect {
	s.Order, s.Offset, s.Limit = nil, 0, 0
	return s
}

func (s MSelect) fieldList() string {
	if len(s.Fields) == 0 {
		return "*"
	}
	return fieldList(s.Fields)
}

func fieldList(fs []MField) string {
	var r []string
	for _, f := range fs {
		r = append(r, f.spec())
	}
	return strings.Join(r, ", ")
}

func (s MSelect) from() string {
	r := s.Tab.from()
	for _, j := range s.Joins {
		r += " " + j.String()
	}
	return r
}

// MCount is a count builder.
type MCount struct {
	Sel   MSelect
	Field string
}

// MWrite is an insert, update or delete builder.
type MWrite struct {
	Verb  string
	Tab   string
	Vals  []MFV
	Where MCond
}

// MLim is a limiter.
type MLim struct{ Limit, Offset uint }

// MJC is a join condition, MTJ a table joiner.
type MJC struct{ L, R MField }

// slices are always copied.
func addSort(a []MSort, b ...MSort) []MSort { return append(append([]MSort{}, a...), b...) }
func addFV(a []MFV, b ...MFV) []MFV         { return append(append([]MFV{}, a...), b...) }
func addJoin(a []MJoin, b ...MJoin) []MJoin { return append(append([]MJoin{}, a...), b...) }

// effective tells whether the write builder may be built, and why not.
func (w MWrite) refused() string {
	switch {
	case w.Tab == "":
		return "empty table name"
	case w.Verb != "DELETE" && len(w.Vals) == 0:
		return "no columns"
	case w.Verb != "INSERT" && w.Where.Core == nil:
		return "no effective condition"
	}
	return ""
}

// badColumn returns the first column whose value does not give exactly one parameter.
func (w MWrite) badColumn() string {
	for _, v := range w.Vals {
		if v.Val.Count() != 1 {
			return v.F.Name
		}
	}
	return ""
}

// valsOf returns every value the object holds, with the column it belongs to.
func valsOf(m any) []MFV {
	var r []MFV
	add := func(e *MExpr) {
		for _, p := range e.leaves(false, nil) {
			if p.L.Op != "NULL" {
				r = append(r, MFV{p.L.F, p.L.Val})
			}
		}
	}
	switch x := m.(type) {
	case MCond:
		add(x.expr())
	case MSelect:
		add(x.Where.expr())
	case MCount:
		add(x.Sel.Where.expr())
	case MWrite:
		r = append(r, x.Vals...)
		add(x.Where.expr())
	case MFV:
		r = append(r, x)
	}
	return r
}

// badLeaf returns the first compared column whose value does not give exactly one parameter.
func badLeaf(m any) string {
	var e *MExpr
	switch x := m.(type) {
	case MCond:
		e = x.expr()
	case MSelect:
		e = x.Where.expr()
	case MCount:
		e = x.Sel.Where.expr()
	case MWrite:
		e = x.Where.expr()
	}
	for _, p := range e.leaves(false, nil) {
		if p.L.Op != "NULL" && p.L.Op != "IN" && p.L.Op != "@@" && p.L.Val.Count() != 1 {
			return p.L.F.Name
		}
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = fmt.Sprint
