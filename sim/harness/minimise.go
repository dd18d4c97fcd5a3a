package main

import (
	"context"
	"encoding/json"
	"os"
	"os/exec"
	"time"

	"github.com/amarin/query/zz_verif/simrt"
)

// minimiser shrinks a failing case: fewer calls, callers, faults and switches.
type minimiser struct {
	best  *Case
	viol  *Violation
	until time.Time
	runs  int
	fresh string // file for cases executed in processes of their own; empty: all in this one
}

// exec executes a candidate.
func (m *minimiser) exec(c *Case) (*Violation, []simrt.Decision) {
	m.runs++
	if m.fresh == "" {
		o := execute(c)
		return o.viol, o.schedule
	}
	writeJSON(m.fresh, &Replay{Case: *c})
	defer os.Remove(m.fresh)
	defer os.Remove(m.fresh + ".out")
	self, err := os.Executable()
	if err != nil {
		return nil, nil
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	if exec.CommandContext(ctx, self, "replay", "-file", m.fresh, "-out", m.fresh+".out").Run() != nil {
		return nil, nil
	}
	b, err := os.ReadFile(m.fresh + ".out")
	if err != nil {
		return nil, nil
	}
	var res struct {
		Violation string
		Schedule  []simrt.Decision
	}
	if json.Unmarshal(b, &res) != nil || res.Violation == "" {
		return nil, nil
	}
	return &Violation{Prop: c.Prop, Text: res.Violation}, res.Schedule
}

func cloneCase(c *Case) *Case {
	n := *c
	n.Ops = nil
	for _, o := range c.Ops {
		x := *o
		x.In = append([]int(nil), o.In...)
		x.S = append([]string(nil), o.S...)
		x.N = append([]int(nil), o.N...)
		x.V = append([]Val(nil), o.V...)
		n.Ops = append(n.Ops, &x)
	}
	n.Faults = append([]Fault(nil), c.Faults...)
	n.Schedule = append([]simrt.Decision(nil), c.Schedule...)
	return &n
}

// try executes a candidate under the recorded schedule and a few others.
func (m *minimiser) try(c *Case, extra int) bool {
	if time.Now().After(m.until) || !c.ordered() {
		return false
	}
	cands := []*Case{}
	r := cloneCase(c)
	r.Strategy = simrt.Strategy{Kind: "seq"}
	cands = append(cands, r)
	r = cloneCase(c)
	r.Strategy = simrt.Strategy{Kind: "replay"}
	cands = append(cands, r)
	for i := 0; i < extra; i++ {
		r = cloneCase(c)
		r.Strategy = []simrt.Strategy{{Kind: "rand", P: 0.3}, {Kind: "rand", P: 0.1}, {Kind: "rand", P: 0.03}, {Kind: "op", P: 0.5}, {Kind: "pct", D: 2, Len: 200}}[i%5]
		r.SchedSeed = uint64(1000 + i)
		cands = append(cands, r)
	}
	for _, r := range cands {
		viol, schedule := m.exec(r)
		if viol != nil {
			r.Schedule = schedule
			if r.Strategy.Kind != "seq" {
				r.Strategy = simrt.Strategy{Kind: "replay"}
			} else {
				r.Schedule = nil
			}
			m.best, m.viol = r, viol
			return true
		}
	}
	return false
}

// ordered tells whether the shared history does not depend on what callers do after it.
func (c *Case) ordered() bool {
	of := map[int]int{}
	for _, o := range c.Ops {
		of[o.ID] = o.T
	}
	for _, o := range c.Ops {
		for _, j := range o.In {
			if o.T == 0 && of[j] != 0 {
				return false
			}
		}
	}
	return true
}

func without(c *Case, drop map[int]bool) *Case {
	n := cloneCase(c)
	n.Ops = nil
	gone := map[int]bool{}
	for _, o := range cloneCase(c).Ops {
		bad := drop[o.ID]
		for _, j := range o.In {
			if gone[j] {
				bad = true
			}
		}
		if bad {
			gone[o.ID] = true
			continue
		}
		n.Ops = append(n.Ops, o)
	}
	var fs []Fault
	for _, f := range n.Faults {
		if !gone[f.Op] {
			fs = append(fs, f)
		}
	}
	n.Faults = fs
	return n
}

func (m *minimiser) minimise() {
	for round := 0; round < 6; round++ {
		before := m.runs
		size := len(m.best.Ops)*1000 + len(m.best.Faults)*10 + len(m.best.Schedule)
		m.ops()
		m.inputs()
		m.faults()
		m.callers()
		if len(m.best.Ops)*1000+len(m.best.Faults)*10+len(m.best.Schedule) == size || m.runs == before {
			break
		}
	}
	m.schedule()
}

// ops drops calls, together with what depends on them.
func (m *minimiser) ops() {
	for chunk := len(m.best.Ops) / 2; chunk >= 1; chunk /= 2 {
		for at := len(m.best.Ops); at > 0; {
			lo := at - chunk
			if lo < 0 {
				lo = 0
			}
			drop := map[int]bool{}
			for i := lo; i < at && i < len(m.best.Ops); i++ {
				drop[m.best.Ops[i].ID] = true
			}
			n := without(m.best, drop)
			if len(n.Ops) < len(m.best.Ops) && m.try(n, 6) {
				if at > len(m.best.Ops) {
					at = len(m.best.Ops)
				}
				continue
			}
			at = lo
		}
	}
}

// inputs drops arguments and short-cuts chains.
func (m *minimiser) inputs() {
	for i := len(m.best.Ops) - 1; i >= 0; i-- {
		if i >= len(m.best.Ops) {
			continue
		}
		d := opDefs[m.best.Ops[i].K]
		if d == nil {
			continue
		}
		for k := len(m.best.Ops[i].In) - 1; k >= len(d.In)-1 && k >= 0; k-- {
			if k >= len(m.best.Ops[i].In) || len(d.In) == 0 || d.In[len(d.In)-1][len(d.In[len(d.In)-1])-1] != '*' {
				break
			}
			n := cloneCase(m.best)
			o := n.Ops[i]
			o.In = append(o.In[:k], o.In[k+1:]...)
			m.try(n, 3)
		}
	}
	_, kinds := modelsOf(m.best.Ops)
	for i := len(m.best.Ops) - 1; i >= 0; i-- {
		if i >= len(m.best.Ops) || len(kinds) != len(m.best.Ops) {
			break
		}
		o := m.best.Ops[i]
		if len(o.In) == 0 || opDefs[o.K] == nil {
			continue
		}
		for k, p := range m.best.Ops {
			if p.ID == o.In[0] && kinds[k] == kinds[i] {
				n := cloneCase(m.best)
				for _, u := range n.Ops {
					for q, x := range u.In {
						if x == o.ID {
							u.In[q] = p.ID
						}
					}
				}
				n = without(n, map[int]bool{o.ID: true})
				if m.try(n, 4) {
					_, kinds = modelsOf(m.best.Ops)
				}
				break
			}
		}
	}
}

func (m *minimiser) faults() {
	for i := len(m.best.Faults) - 1; i >= 0; i-- {
		if i >= len(m.best.Faults) {
			continue
		}
		n := cloneCase(m.best)
		n.Faults = append(n.Faults[:i], n.Faults[i+1:]...)
		m.try(n, 3)
	}
	for i := range m.best.Faults {
		for more := m.best.Faults[i].More; more > 0; {
			n := cloneCase(m.best)
			n.Faults[i].More = more / 2
			if !m.try(n, 2) {
				n = cloneCase(m.best)
				n.Faults[i].More = more - 1
				if !m.try(n, 2) {
					break
				}
			}
			more = min(more-1, m.best.Faults[i].More)
		}
	}
	for i := range m.best.Ops {
		if m.best.Ops[i].B {
			n := cloneCase(m.best)
			n.Ops[i].B = false
			m.try(n, 2)
		}
		if m.best.Ops[i].E > 0 {
			n := cloneCase(m.best)
			n.Ops[i].E = 0
			m.try(n, 2)
		}
		if m.best.Ops[i].P {
			n := cloneCase(m.best)
			n.Ops[i].P = false
			m.try(n, 2)
		}
	}
}

// callers moves calls into the shared history.
func (m *minimiser) callers() {
	for t := m.best.tasks(); t >= 1; t-- {
		n := cloneCase(m.best)
		for _, o := range n.Ops {
			switch {
			case o.T == t:
				o.T = 0
			case o.T > t:
				o.T--
			}
		}
		m.try(n, 4)
	}
	for i := range m.best.Ops {
		o := m.best.Ops[i]
		if o.T == 0 {
			continue
		}
		ok := true
		for _, p := range m.best.Ops {
			for _, j := range o.In {
				if p.ID == j && p.T != 0 {
					ok = false
				}
			}
		}
		if ok && o.K != "obs" && o.K != "exec" && o.K != "browse" {
			n := cloneCase(m.best)
			n.Ops[i].T = 0
			m.try(n, 4)
		}
	}
}

// schedule drops switches.
func (m *minimiser) schedule() {
	if len(m.best.Schedule) == 0 {
		return
	}
	for chunk := len(m.best.Schedule) / 2; chunk >= 1; chunk /= 2 {
		for at := len(m.best.Schedule); at > 0; {
			lo := at - chunk
			if lo < 0 {
				lo = 0
			}
			if at > len(m.best.Schedule) {
				at = len(m.best.Schedule)
				continue
			}
			n := cloneCase(m.best)
			n.Schedule = append(append([]simrt.Decision{}, n.Schedule[:lo]...), n.Schedule[at:]...)
			old := len(m.best.Schedule)
			keep := m.best
			if m.try(n, 0) {
				if len(m.best.Schedule) >= old { // the run needed as many switches all the same
					if len(m.best.Schedule) > old {
						m.best = keep
					}
					at = lo
				} else if at > len(m.best.Schedule) {
					at = len(m.best.Schedule)
				}
				continue
			}
			at = lo
		}
	}
}
