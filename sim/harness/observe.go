package main

import (
	"errors"
	fmt "github.com/amarin/query/zz_verif/simfmt"
	"strings"

	query "github.com/amarin/query"
	"github.com/amarin/query/zz_verif/simcall"
	"github.com/amarin/query/zz_verif/simrt"
	"github.com/amarin/query/zz_verif/simtouch"
)

// Obs is what one observation of one object gave.
type Obs struct {
	Aspect string
	SQL    string
	Alt    string // the ? form
	HasAlt bool
	Params []any
	Start  int
	IsStmt bool // SQL is a whole statement
	Err    string
	Failed bool // the call returned an error
	QErr   bool // ... which is query.Error
	Panic  string
	Inj    bool // the panic is the injected one
	Acc    []KV
	slices []any
	conds  []string
}

// KV is one accessor result.
type KV struct{ K, V string }

func (o *Obs) ok() bool { return !o.Failed && o.Panic == "" }

// text is everything observed, comparable.
func (o *Obs) text() string {
	var b strings.Builder
	b.WriteString(o.Aspect)
	if o.Panic != "" {
		return o.Aspect + " panic: " + o.Panic
	}
	if o.Failed {
		return o.Aspect + " error: " + o.Err + " sql=" + o.SQL
	}
	if o.SQL != "" || o.Params != nil {
		b.WriteString(" sql=" + o.SQL + " params=" + paramText(o.Params))
	}
	if o.HasAlt {
		b.WriteString(" alt=" + o.Alt)
	}
	for _, k := range o.Acc {
		b.WriteString(" " + k.K + "=" + k.V)
	}
	return b.String()
}

func paramText(ps []any) string {
	var r []string
	for _, p := range ps {
		if s, ok := p.(*string); ok && s != nil {
			p = "*" + *s
		}
		if n, ok := p.(*int); ok && n != nil {
			p = "*" + fmt.Sprint(*n)
		}
		r = append(r, fmt.Sprintf("%T:%v", p, p))
	}
	return "[" + strings.Join(r, " ") + "]"
}

// aspectsOf lists the observations a kind of object offers.
func aspectsOf(kind string) []string {
	switch kind {
	case "base", "many", "single":
		return []string{"build", "render", "acc"}
	case "count":
		return []string{"build", "acc"}
	case "ubase", "umany", "usingle":
		return []string{"build"}
	case "ins", "upd", "del":
		return []string{"build", "acc"}
	case "cond", "group", "where":
		return []string{"render", "acc"}
	case "lim":
		return []string{"render"}
	case "field", "table", "sort", "fv", "fields", "jc", "tj":
		return []string{"acc"}
	}
	return nil
}

type renderer interface {
	Render(int) string
	RenderSQL() string
	Values() []any
}

// finishedBy are the fields an unfinished join is finished by to see what it holds.
var finishedBy = [2]string{"t1.fin1", "t2.fin2"}

func unfinished(kind string) bool { return kind == "ubase" || kind == "umany" || kind == "usingle" }

func finish(obj any) any {
	l, r := simcall.Field(finishedBy[0]), simcall.Field(finishedBy[1])
	switch u := obj.(type) {
	case query.IncompleteSelectJoin:
		return u.On(l, r)
	case query.IncompleteSelectManyJoiner:
		return u.On(l, r)
	case query.IncompleteSelectSingleJoiner:
		return u.On(l, r)
	}
	return obj
}

// observe performs one observation. The caller decides whether panics of injected faults are expected.
func observe(kind, aspect string, start int, obj any) (o *Obs) {
	simrt.Mark()
	o = &Obs{Aspect: aspect, Start: start}
	defer func() {
		if r := recover(); r != nil {
			o.Panic = fmt.Sprint(r)
			if c := curCtx(); c != nil {
				o.Inj = c.panFired > 0 && r == c.thrown
			}
		}
	}()
	switch aspect {
	case "build":
		if unfinished(kind) {
			obj = finish(obj)
		}
		sql, params, err := obj.(builder).BuildQueryAndParams()
		o.SQL, o.Params, o.IsStmt = sql, append([]any{}, params...), true
		o.slices = append(o.slices, params)
		if err != nil {
			o.Failed, o.Err, o.QErr = true, err.Error(), errors.Is(err, query.Error)
		}
	case "render":
		r := obj.(renderer)
		o.SQL = r.Render(start)
		o.Alt, o.HasAlt = r.RenderSQL(), true
		vs := r.Values()
		o.Params = append([]any{}, vs...)
		o.slices = append(o.slices, vs)
		o.IsStmt = kind == "base" || kind == "many" || kind == "single"
	case "acc":
		o.access(kind, obj)
	}
	if simrt.RaceEnabled {
		for _, v := range o.slices {
			simtouch.Slice(v)
		}
	}
	return o
}

func (o *Obs) add(k string, v any) { o.Acc = append(o.Acc, KV{k, fmt.Sprint(v)}) }

func specList(fs []query.FieldDefinition) string {
	var r []string
	for _, f := range fs {
		r = append(r, f.RenderSpec())
	}
	return strings.Join(r, ", ")
}

func fvText(f query.FieldValue) string {
	return f.RenderSpec() + "=" + paramText(f.Values())
}

func fvsText(fs []query.FieldValue) string {
	var r []string
	for _, f := range fs {
		r = append(r, fvText(f))
	}
	return strings.Join(r, ", ")
}

func (o *Obs) access(kind string, obj any) {
	switch x := obj.(type) {
	case query.BaseSelectBuilder:
		o.add("from", x.RenderFrom())
		o.add("table", x.TableName())
		fs := x.FieldDefinitions()
		o.slices = append(o.slices, fs)
		o.add("fields", specList(fs))
		o.add("string", x.String())
		o.add("op", x.Operation())
	case query.SelectManyBuilder:
		o.add("from", x.RenderFrom())
		o.add("table", x.TableName())
		fs := x.FieldDefinitions()
		o.slices = append(o.slices, fs)
		o.add("fields", specList(fs))
		o.add("fieldlist", x.FieldList())
		o.add("string", x.String())
		o.add("op", x.Operation())
	case query.SelectSingleBuilder:
		o.add("from", x.RenderFrom())
		o.add("table", x.TableName())
		fs := x.FieldDefinitions()
		o.slices = append(o.slices, fs)
		o.add("fields", specList(fs))
		o.add("fieldlist", x.FieldList())
		o.add("string", x.String())
		o.add("op", x.Operation())
	case query.CountBuilder:
		o.add("from", x.RenderFrom())
	case query.InsertBuilder:
		o.add("from", x.RenderFrom())
		o.add("table", x.TableName())
		vs := x.SetValues()
		o.slices = append(o.slices, vs)
		o.add("setvalues", fvsText(vs))
		o.add("op", x.Operation())
	case query.UpdateBuilder:
		o.add("from", x.RenderFrom())
		o.add("table", x.TableName())
		vs := x.SetValues()
		o.slices = append(o.slices, vs)
		o.add("setvalues", fvsText(vs))
		o.add("op", x.Operation())
	case query.DeleteBuilder:
		o.add("from", x.RenderFrom())
		o.add("table", x.TableName())
		o.add("op", x.Operation())
	case query.WhereClause:
		cs := x.Conditions()
		o.slices = append(o.slices, cs)
		var r []string
		for _, c := range cs {
			r = append(r, c.RenderJoin(false)+" "+c.RenderSQL())
			o.conds = append(o.conds, c.RenderSQL())
		}
		o.add("conditions", strings.Join(r, "; "))
		o.add("string", x.String())
	case query.Fields:
		fs := x.FieldDefinitions()
		o.slices = append(o.slices, fs)
		o.add("fields", specList(fs))
		o.add("fieldlist", x.FieldList())
		o.add("len", x.Len())
		o.add("string", x.String())
	case query.FieldDefinition:
		o.add("spec", x.RenderSpec())
		o.add("field", x.RenderField())
		o.add("full", x.RenderTableSpec())
		o.add("tfn", x.TableFieldName())
		o.add("name", x.FieldName())
		o.add("table", x.TableName())
		o.add("alias", x.Alias())
	case query.TableIdent:
		o.add("from", x.RenderFrom())
		o.add("table", x.TableName())
		o.add("alias", x.Alias())
	case query.FieldSorting:
		o.add("render", x.Render())
		o.add("dir", x.Direction())
		o.add("spec", x.RenderSpec())
		o.add("name", x.FieldName())
		o.add("table", x.TableName())
		o.add("alias", x.Alias())
	case query.FieldValue:
		vs := x.Values()
		o.slices = append(o.slices, vs)
		o.add("name", x.FieldName())
		o.add("table", x.TableName())
		o.add("alias", x.Alias())
		o.add("spec", x.RenderSpec())
		o.add("values", paramText(vs))
	case query.JoinCondition:
		o.add("render", x.Render())
	case query.TableJoiner:
		o.add("from", x.RenderFrom())
		o.add("on", x.JoinCondition().Render())
		o.add("type", x.JoinType())
	case query.Condition:
		o.add("join", x.JoinType())
		o.add("renderjoin", x.RenderJoin(false))
		o.add("firstjoin", x.RenderJoin(true))
		o.add("rendernot", x.RenderNegate())
		o.add("neg", x.IsNegate())
		o.add("name", x.FieldName())
	default:
		panic(fmt.Sprintf("harness: no accessors for %T", obj))
	}
}

// handed is something a call handed out, and what it was then.
type handed struct {
	raw  any
	was  string
	mine bool // the caller may overwrite it
	arg  bool // it was passed in
}

// now is what it is at present.
func (h handed) now(c *taskCtx) string {
	q := c.quiet
	c.quiet = true
	defer func() { c.quiet = q }()
	switch v := h.raw.(type) {
	case string:
		return v
	case []any:
		return paramText(v)
	case []query.FieldDefinition:
		return specList(v)
	case []query.FieldValue:
		return fvsText(v)
	case []query.Condition:
		var r []string
		for _, x := range v {
			if x == nil {
				r = append(r, "nil")
				continue
			}
			r = append(r, x.RenderJoin(false)+" "+x.RenderSQL())
		}
		return strings.Join(r, "; ")
	case []query.FieldSorting:
		var r []string
		for _, x := range v {
			r = append(r, x.Render())
		}
		return strings.Join(r, ", ")
	case query.ValuesMap:
		var r []string
		for _, k := range sortedKeys(v) {
			r = append(r, k+"="+paramText([]any{v[k]}))
		}
		return strings.Join(r, ", ")
	}
	return fmt.Sprint(h.raw)
}

// whole is an argument with the spare capacity of its array.
func whole(v any) any {
	switch x := v.(type) {
	case []any:
		return x[:cap(x)]
	case []query.Condition:
		return x[:cap(x)]
	case []query.FieldValue:
		return x[:cap(x)]
	case []query.FieldSorting:
		return x[:cap(x)]
	case []query.FieldDefinition:
		return x[:cap(x)]
	}
	return v
}

// words is what a call that makes no object gave.
type words struct {
	text  string
	names []query.FieldName
}

// handed adds what the observation was handed out.
func (o *Obs) handed(c *taskCtx, list []handed, mine bool) []handed {
	if o.Panic != "" || o.Failed || c.w.cfg.NoFP || !sameAsBefore(c.w.prog.Prop) {
		return list
	}
	for _, s := range []string{o.SQL, o.Alt} {
		if s != "" {
			list = append(list, handed{raw: s, was: strings.Clone(s)})
		}
	}
	simrt.NoPreempt(func() {
		for _, v := range o.slices {
			h := handed{raw: v, mine: mine}
			h.was = strings.Clone(h.now(c))
			list = append(list, h)
		}
	})
	return list
}

// fingerprint is every observation of an object, value providers being quiet.
func fingerprint(c *taskCtx, kind string, obj any, out *[]handed) (map[string]string, []string) {
	q := c.quiet
	c.quiet = true
	defer func() { c.quiet = q }()
	fp := map[string]string{}
	var panics []string
	for _, a := range aspectsOf(kind) {
		starts := []int{0}
		if a == "render" {
			starts = []int{0, 3}
		}
		for _, st := range starts {
			o := observe(kind, a, st, obj)
			fp[fmt.Sprintf("%s/%d", a, st)] = o.text()
			if o.Panic != "" {
				panics = append(panics, a+": "+o.Panic)
			}
			if out != nil {
				*out = o.handed(c, *out, false)
			}
		}
	}
	return fp, panics
}
