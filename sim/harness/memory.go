package main

import (
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"strings"

	query "github.com/amarin/query"
	"github.com/amarin/query/zz_verif/simcall"
	"github.com/amarin/query/zz_verif/simrt"
)

// C17: a history is executed again and again, every time with other names and values, and everything it made is dropped.

const (
	memWarm   = 12
	memWindow = 24
	memTimes  = 10 // windows that must all grow: the runtime itself keeps a little more now and then
)

var identifier = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

// otherNames is the program with other names and values.
func otherNames(p *Program, rep int) *Program {
	n := *p
	n.Ops, n.Faults = nil, append([]Fault(nil), p.Faults...)
	shift := rep * 2520 // keeps what a value depends on
	suffix := "_r" + strconv.Itoa(10000+rep)
	if p.Seed%3 == 0 {
		suffix = "_" + strings.Repeat("long", 16) + suffix
	}
	for _, o := range p.Ops {
		x := *o
		x.S, x.V = nil, nil
		for _, s := range o.S {
			x.S = append(x.S, identifier.ReplaceAllStringFunc(s, func(id string) string {
				if !strings.ContainsAny(id, "0123456789") {
					return id
				}
				return id + suffix
			}))
		}
		for _, v := range o.V {
			v.ID += shift
			x.V = append(x.V, v)
		}
		n.Ops = append(n.Ops, &x)
	}
	for i := range n.Faults {
		n.Faults[i].Val += shift
	}
	return &n
}

// retained is the number of bytes in use after everything dropped is collected.
func retained() int64 {
	runtime.GC()
	runtime.GC()
	metrics.Read(heap)
	return int64(heap[0].Value.Uint64())
}

func executeMemory(cs *Case) *outcome {
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	o := &outcome{}
	rep, behind := 0, 0
	var pending []*simrt.Alarm // the runtime keeps what is still to happen
	stats := RunStats{Faults: map[string]int{}}
	survivors := map[int]any{}
	once := func() *Violation {
		var replay []simrt.Decision
		if cs.Strategy.Kind == "replay" {
			replay = cs.Schedule
		}
		w := newWorld(otherNames(&cs.Program, rep))
		w.cfg.NoFP = true
		w.survivors = survivors
		w.run(cs.SchedSeed+uint64(rep), cs.Strategy, replay)
		if rep == 0 {
			o.world, o.schedule = w, w.schedule
		}
		if rep >= memWarm && w.left > 0 {
			behind++
		}
		pending = append(pending, w.held...)
		rep++
		stats.add(&w.stats)
		return w.viol
	}
	var at [memTimes + 1]int64
	for t := range at {
		n := memWindow
		if t == 0 {
			n = memWarm
		}
		for i := 0; i < n; i++ {
			if v := once(); v != nil {
				o.viol, o.stats = v, stats
				return o
			}
		}
		if t == 1 && behind >= memWindow/2 {
			o.viol = &Violation{Prop: cs.Prop, Op: -1, Text: "goroutines accumulate: repeating this history with other names and values leaves goroutines behind" +
				" that nothing will ever wake, and what they hold on to"}
			break
		}
		at[t] = retained()
		runtime.KeepAlive(pending)
		if t > 0 && at[t]-at[t-1] < memWindow*16 {
			break
		}
		if t == memTimes {
			o.viol = &Violation{Prop: cs.Prop, Op: -1, Text: "memory accumulates: what this history allocates is not released when everything it made is dropped;" +
				" every repetition with other names and values leaves some behind"}
		}
	}
	stats.Checks++
	o.stats = stats
	return o
}

// walkers are the kinds of objects to walk with.
var walkers = []string{"many", "single", "base", "upd", "ins", "del", "group", "where", "cond", "fv", "sort", "field", "table", "lim", "fields", "tj"}

// walk replaces what an object holds again and again: every step derives a new object from the last one, which is dropped.
// The object survives the history: the next repetition goes on with it.
func (x *X) walk() any {
	obj := x.w.survivors[x.op.ID]
	if obj == nil {
		obj = x.in[0]
	}
	n := 0
	name := func(kind string) string {
		n++
		return kind + strconv.Itoa(n) + "_" + x.op.S[0]
	}
	fields := func() (r []query.FieldDefinition) {
		for k := 0; k < 1+n%3; k++ {
			r = append(r, simcall.Field(query.FieldName(name("f"))))
		}
		return r
	}
	spec := func(f query.FieldName) query.FieldDefinition {
		return simcall.Field(f).Of(query.TableName(name("t")))
	}
	quiet := true
	for _, v := range valsOf(x.w.slot(x.op.In[0]).model) {
		quiet = quiet && !v.Val.callback()
	}
	for _, code := range x.op.N {
		switch o := obj.(type) {
		case query.SelectManyBuilder:
			switch code % 5 {
			case 0:
				obj = o.Offset(uint(code))
			case 1:
				obj = o.Limit(code)
			case 2:
				obj = o.Fields(fields()...)
			case 3:
				obj = o.Where()
			case 4:
				obj = o.OrderBy()
			}
		case query.SelectSingleBuilder:
			if obj = o.Fields(fields()...); code%2 == 0 {
				obj = o.Where()
			}
		case query.BaseSelectBuilder:
			if obj = o.Fields(fields()...); code%2 == 0 {
				obj = o.Where()
			}
		case query.UpdateBuilder:
			if obj = o.Set(); code%2 == 0 {
				obj = o.Where()
			}
		case query.InsertBuilder:
			obj = o.Values()
		case query.DeleteBuilder:
			obj = o.Where()
		case query.Group:
			switch code % 7 {
			case 0:
				obj = o.GroupAND()
			case 1:
				obj = o.GroupOR()
			case 2:
				obj = o.Negate(code%2 == 0)
			case 3:
				obj = o.Join(jt(code / 7 % 2))
			case 4:
				obj = o.ApplyFieldTable(query.TableName(name("t")))
			case 5:
				obj = o.ApplyFieldSpec(spec(query.FieldName(name("f"))))
			case 6:
				obj = o.WithBrackets()
			}
		case query.WhereClause:
			switch code % 3 {
			case 0:
				obj = o.GroupAND()
			case 1:
				obj = o.GroupOR()
			case 2:
				obj = o.ApplyFieldSpec(spec(query.FieldName(name("f"))))
			}
		case query.Condition:
			switch code % 4 {
			case 0:
				obj = o.Negate(code%8 == 0)
			case 1:
				obj = o.Join(jt(code / 4 % 2))
			case 2:
				obj = o.ApplyFieldTable(query.TableName(name("t")))
			case 3:
				obj = o.ApplyFieldSpec(spec(o.FieldName()))
			}
		case query.FieldValue:
			if obj = o.ApplyFieldTable(query.TableName(name("t"))); code%2 == 0 {
				obj = o.ApplyFieldSpec(spec(o.FieldName()))
			}
		case query.FieldSorting:
			obj = o.ApplyFieldSpec(spec(o.FieldName()))
		case query.FieldDefinition:
			if obj = o.As(query.FieldName(name("a"))); code%2 == 0 {
				obj = o.Of(query.TableName(name("t")))
			}
		case query.TableIdent:
			obj = o.As(query.TableName(name("t")))
		case query.Limiter:
			if obj = o.Limit(uint(code)); code%2 == 0 {
				obj = o.Offset(uint(code))
			}
		case query.Fields:
			obj = o.Fields(fields()...)
		case query.TableJoiner:
			obj = o.By(spec(query.FieldName(name("f"))), spec(query.FieldName(name("f"))))
		}
		if code%3 == 0 && quiet {
			switch o := obj.(type) {
			case builder:
				o.BuildQueryAndParams()
			case renderer:
				o.Render(0)
			}
		}
	}
	if x.w.survivors != nil && quiet {
		x.w.survivors[x.op.ID] = obj
	}
	return &words{}
}

func (s *RunStats) add(t *RunStats) {
	s.Steps += t.Steps
	s.Switches += t.Switches
	s.Intra += t.Intra
	s.SimTime += t.SimTime
	s.Hash = s.Hash*1099511628211 ^ t.Hash
	for k, n := range t.Faults {
		s.Faults[k] += n
	}
	s.Obs += t.Obs
	s.Derive += t.Derive
	s.Execs += t.Execs
	s.Callback += t.Callback
	s.Checks += t.Checks
}
