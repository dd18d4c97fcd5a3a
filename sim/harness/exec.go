package main

import (
	"hash/fnv"
	"strings"

	fmt "github.com/amarin/query/zz_verif/simfmt"
	"github.com/amarin/query/zz_verif/simrt"
)

// Case is one execution: a program and how it is scheduled. It is what a replay file holds.
type Case struct {
	Program
	SchedSeed uint64           `json:"sched_seed"`
	Strategy  simrt.Strategy   `json:"strategy"`
	Schedule  []simrt.Decision `json:"schedule,omitempty"`
}

// outcome of executing a case.
type outcome struct {
	viol     *Violation
	stats    RunStats
	schedule []simrt.Decision
	digest   string
	world    *World
}

// strategyOf draws the scheduling strategy of a seed.
func strategyOf(prop string, seed uint64) simrt.Strategy {
	r := simrt.NewRng(seed, "strategy"+prop)
	switch r.Intn(10) {
	case 0:
		return simrt.Strategy{Kind: "seq"}
	case 1:
		return simrt.Strategy{Kind: "op", P: 0.5}
	case 2, 3:
		return simrt.Strategy{Kind: "pct", D: 1 + r.Intn(4), Len: []int{300, 1000, 3000}[r.Intn(3)]}
	case 4:
		return simrt.Strategy{Kind: "site", P: 0.05}
	case 5, 6:
		return simrt.Strategy{Kind: "park", P: []float64{0.05, 0.3, 0.8}[r.Intn(3)]}
	}
	return simrt.Strategy{Kind: "rand", P: []float64{0.003, 0.01, 0.03, 0.1, 0.3}[r.Intn(5)]}
}

func caseOf(prop string, seed uint64) *Case {
	p := generate(prop, seed)
	return &Case{Program: *p, SchedSeed: seed, Strategy: strategyOf(prop, seed)}
}

// execute runs a case and judges it.
func execute(cs *Case) *outcome {
	if cs.Prop == "C17" {
		return executeMemory(cs)
	}
	statefulValues = cs.Prop == "C06"
	w := newWorld(&cs.Program)
	w.cfg.NoFP = cs.Prop == "C06" || cs.Prop == "C16"
	if needsDB(cs.Prop) {
		w.db = openDB(w)
		defer w.db.sql.Close()
	}
	var replay []simrt.Decision
	if cs.Strategy.Kind == "replay" {
		replay = cs.Schedule
	}
	w.run(cs.SchedSeed, cs.Strategy, replay)
	if r := newRace(); r != "" && w.viol == nil {
		w.viol = &Violation{Prop: cs.Prop, Op: -1, Text: "data race\n" + r}
	}
	o := &outcome{viol: w.viol, stats: w.stats, world: w}
	if w.sched != nil {
		o.schedule = w.schedule
	}
	if cs.Prop == "C10" && o.viol == nil {
		o.digest = w.digest()
		w2 := newWorld(&cs.Program)
		w2.run(cs.SchedSeed^0x5bd1e995, simrt.Strategy{Kind: "seq"}, nil)
		if w2.viol != nil {
			o.viol = w2.viol
			return o
		}
		o.stats.Checks += len(w.slots)
		o.viol = w.compare(w2)
	}
	return o
}

func needsDB(prop string) bool { return prop == "C08" || prop == "C09" || prop == "C18" }

// texts is everything observed of a slot.
func (s *slot) texts() []string {
	var r []string
	for _, k := range sortedKeys(s.fp) {
		r = append(r, "when obtained: "+s.fp[k])
	}
	if s.obs != nil {
		r = append(r, "observed: "+s.obs.text())
	}
	for _, k := range sortedKeys(s.fpEnd) {
		r = append(r, "at the end: "+s.fpEnd[k])
	}
	return r
}

func (w *World) digest() string {
	h := fnv.New64a()
	for _, s := range w.slots {
		for _, t := range s.texts() {
			_, _ = h.Write([]byte(t))
			_, _ = h.Write([]byte{0})
		}
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

// compare: C10, the same derivation under another schedule.
func (w *World) compare(o *World) *Violation {
	for i, s := range w.slots {
		a, b := s.texts(), o.slots[i].texts()
		for j := 0; j < len(a) || j < len(b); j++ {
			x, y := "nothing", "nothing"
			if j < len(a) {
				x = a[j]
			}
			if j < len(b) {
				y = b[j]
			}
			if x != y {
				return &Violation{Prop: w.prog.Prop, Op: s.op.ID, Text: fmt.Sprintf(
					"the same derivation gives another statement: %s\n  under one schedule: %s\n  under another:      %s", s.op, inShort(x), inShort(y))}
			}
		}
	}
	return nil
}

// trace is the readable form of a case.
func trace(cs *Case) []string {
	var r []string
	models, _ := modelsOf(cs.Ops)
	for i, o := range cs.Ops {
		if o.T == 0 {
			r = append(r, "shared history: "+describe(o, models[i]))
		}
	}
	for i, o := range cs.Ops {
		if o.T > 0 {
			r = append(r, fmt.Sprintf("caller %d: %s", o.T, describe(o, models[i])))
		}
	}
	for _, f := range cs.Faults {
		l := fmt.Sprintf("fault: %s in operation #%d, value %d, call %d", f.Kind, f.Op, f.Val, f.Call)
		if f.More > 0 {
			l += fmt.Sprintf(", tried %d times before the attempt that is judged", f.More)
		}
		r = append(r, l)
	}
	for _, d := range cs.Schedule {
		if len(r) > 400 {
			r = append(r, "...")
			break
		}
		from := fmt.Sprintf("caller %d at step %d", d.Task+1, d.Step)
		if d.Task >= 60 {
			from = "start"
		}
		r = append(r, fmt.Sprintf("schedule: %s -> caller %d", from, d.Next+1))
	}
	return r
}

func describe(o *Op, m any) string {
	s := o.String()
	switch x := m.(type) {
	case MCond:
		s += "  denotes " + x.expr().String()
	case MSelect:
		if x.Where.Core != nil {
			s += "  where " + x.Where.expr().String()
		}
	case MWrite:
		if x.Where.Core != nil {
			s += "  where " + x.Where.expr().String()
		}
	}
	return s
}

var _ = strings.Join
