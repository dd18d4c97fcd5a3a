package main

import (
	"strconv"
	"strings"
	"unsafe"

	query "github.com/amarin/query"
	fmt "github.com/amarin/query/zz_verif/simfmt"
	"github.com/amarin/query/zz_verif/simrt"
	"github.com/amarin/query/zz_verif/simtouch"
)

// Violation is a broken property.
type Violation struct {
	Prop string `json:"property"`
	Op   int    `json:"op"`
	Text string `json:"text"`
}

// slot holds the result of one operation.
type slot struct {
	op     *Op
	model  any
	kind   string
	obj    any
	fp     map[string]string
	fpEnd  map[string]string
	obs    *Obs // what an observation gave
	retry  *Obs
	err    int // conversion errors injected
	pan    int
	exited bool
	args   []any
	res    []any
	exec   *execResult
	done   uint32
	failed bool
	viol   *Violation
	cb     int // callbacks made

	handed    []handed // slices and texts handed out
	size      int      // how much went into it
	scribbled [2]bool  // the caller overwrote slices this call was given, returned
}

type config struct {
	Vary  bool
	NoFP  bool // race mode: no fingerprints while callers run
	Retry bool
}

// World is one execution of one program.
type World struct {
	prog     *Program
	cfg      config
	faults   []Fault
	slots    []*slot
	byID     map[int]int
	viol     *Violation
	phase    int
	left     int // goroutines the package left behind blocked
	held     []*simrt.Alarm
	db       *simDB
	stats    RunStats
	sched    *simrt.Sched
	ctxs     []*taskCtx
	schedule []simrt.Decision

	survivors map[int]any // objects that outlive the repetitions of a history: C17
}

// RunStats is what a run covered.
type RunStats struct {
	Steps    int
	Switches int
	Intra    int
	SimTime  int64
	Hash     uint64
	Faults   map[string]int
	Obs      int
	Derive   int
	Execs    int
	Callback int
	Checks   int
}

// taskCtx is the state of one caller.
type taskCtx struct {
	w         *World
	t         int
	list      []int
	pos       int
	opID      int
	counts    map[int]int
	uq        int
	uq0       int   // uq when the call began
	asked     []int // values asked for by it
	elsewhere int   // value asked for on another goroutine
	quiet     bool
	noExit    bool
	noFault   bool
	callbacks int
	failures  int // of user code in calls of this caller
	failures0 int // before the call
	inner     int // statements executed by user code
	errFired  int
	panFired  int
	thrown    any // what user code panicked with last
	exitFired int
	faults    map[string]int
	condBuf   []query.Condition
	fvBuf     []query.FieldValue
	sortBuf   []query.FieldSorting
	fieldBuf  []query.FieldDefinition
	checks    int
	restart   bool
	insisted  int   // attempts of the call made so far
	pending   *slot // an observation cut short by the end of its goroutine, to be repeated
}

func (c *taskCtx) count(id int) int { c.counts[id]++; return c.counts[id] }
func (c *taskCtx) uniq() int        { c.uq++; return c.t*100000 + c.uq }
func (c *taskCtx) fired(k string)   { c.faults[k]++ }

// Continue restarts a caller whose goroutine was ended by user code with the call after.
func (c *taskCtx) Continue(t *simrt.Task) func(*simrt.Task) {
	if !c.restart {
		return nil
	}
	c.restart = false
	return func(t *simrt.Task) { c.run() }
}

func curCtx() *taskCtx {
	if t := simrt.Cur(); t != nil {
		if in, ok := t.Data.(simrt.Inherited); ok {
			c, _ := in.Of.(*taskCtx)
			return c
		}
		c, _ := t.Data.(*taskCtx)
		return c
	}
	return nil
}

func newWorld(p *Program) *World {
	w := &World{prog: p, cfg: config{Vary: p.Vary, Retry: p.Retry}, faults: p.Faults, byID: map[int]int{}}
	w.stats.Faults = map[string]int{}
	models, kinds := modelsOf(p.Ops)
	for i, o := range p.Ops {
		w.byID[o.ID] = i
		s := &slot{op: o, model: models[i], kind: kinds[i]}
		w.slots = append(w.slots, s)
	}
	return w
}

func (w *World) slot(id int) *slot {
	if i, ok := w.byID[id]; ok {
		return w.slots[i]
	}
	return nil
}

// noteArg records an argument before it is passed.
func (x *X) noteArg(v any) {
	s := x.w.slot(x.op.ID)
	s.args = append(s.args, v)
	if !x.op.B && !x.w.cfg.NoFP && sameAsBefore(x.w.prog.Prop) {
		h := handed{raw: whole(v), mine: true, arg: true}
		simrt.NoPreempt(func() { h.was = strings.Clone(h.now(x.c)) })
		s.handed = append(s.handed, h)
	}
}

func (w *World) noteRes(op *Op, v any) { s := w.slot(op.ID); s.res = append(s.res, v) }

// violate records a violation of the slot's operation and ends the run.
func (w *World) violate(s *slot, format string, a ...any) {
	if simrt.Dying() {
		return
	}
	if s.viol == nil {
		s.viol = &Violation{Prop: w.prog.Prop, Op: s.op.ID, Text: inShort(fmt.Sprintf(format, a...))}
	}
	simrt.Stop()
}

// inShort leaves out the middle of very long texts.
func inShort(s string) string {
	if len(s) < 8000 {
		return s
	}
	return s[:5000] + " (...) " + s[len(s)-2500:]
}

// phases of an execution
const (
	phSetup = iota
	phCallers
	phFinal
)

func (w *World) schedFor(ph int, seed uint64, strat simrt.Strategy, replay []simrt.Decision) *simrt.Sched {
	if ph != phCallers {
		strat, replay = simrt.Strategy{Kind: "seq"}, nil
	}
	s := simrt.New(seed+uint64(ph)*7919, strat, replay)
	s.MapSeed = seed + uint64(ph)
	s.SetClock(simrt.NewRng(seed, "clock").U64())
	return s
}

// run executes the program under a schedule.
func (w *World) run(seed uint64, strat simrt.Strategy, replay []simrt.Decision) {
	w.phase = phSetup
	s := w.schedFor(phSetup, seed, strat, nil)
	w.spawn(s, 0)
	s.Run()
	w.collect(s, false)
	if w.viol != nil {
		return
	}
	w.phase = phCallers
	s = w.schedFor(phCallers, seed, strat, replay)
	for t := 1; t <= w.prog.tasks(); t++ {
		w.spawn(s, t)
	}
	w.sched = s
	s.Run()
	w.schedule = s.Schedule()
	w.collect(s, true)
	if w.viol != nil {
		return
	}
	w.phase = phFinal
	s = w.schedFor(phFinal, seed, strat, nil)
	c := w.ctx(-1)
	s.Go("final", func(*simrt.Task) { w.final(c) }).Data = c
	s.Run()
	w.collect(s, false)
	w.stats.Checks += c.checks
}

func (w *World) ctx(t int) *taskCtx {
	return &taskCtx{w: w, t: t, counts: map[int]int{}, faults: map[string]int{}}
}

func (w *World) spawn(s *simrt.Sched, t int) {
	c := w.ctx(t)
	for i, o := range w.prog.Ops {
		if o.T == t {
			c.list = append(c.list, i)
		}
	}
	if len(c.list) == 0 {
		return
	}
	task := s.Go("caller"+strconv.Itoa(t), func(*simrt.Task) { c.run() })
	task.Data = c
	w.ctxs = append(w.ctxs, c)
}

func (w *World) collect(s *simrt.Sched, main bool) {
	w.stats.Steps += s.Steps()
	w.stats.SimTime += s.SimTime()
	w.left += s.Left
	w.held = append(w.held, s.Held()...)
	if s.Jumps > 0 {
		w.stats.Faults["clock jump"] += s.Jumps
	}
	if main {
		w.stats.Switches, w.stats.Intra, w.stats.Hash = s.Switch, s.IntraSw, s.Hash()
	}
	for _, c := range w.ctxs {
		for k, n := range c.faults {
			w.stats.Faults[k] += n
		}
		w.stats.Callback += c.callbacks
		w.stats.Checks += c.checks
	}
	w.ctxs = nil
	for _, sl := range w.slots {
		if sl.viol != nil && w.viol == nil {
			w.viol = sl.viol
		}
	}
	if w.viol == nil && s.Fault != "" {
		at := -1
		w.viol = &Violation{Prop: w.prog.Prop, Op: at, Text: "a call does not finish: " + map[string]string{
			"deadlock": "every caller is blocked for ever", "steps": "a call exceeded its bound of steps", "panic": "a goroutine started by it panics and ends the process"}[s.Fault]}
	}
}

// run executes the caller's operations.
func (c *taskCtx) run() {
	if s := c.pending; s != nil {
		c.pending = nil
		c.again(s)
	}
	for c.pos < len(c.list) {
		s := c.w.slots[c.list[c.pos]]
		if c.pos > 0 || c.t > 0 {
			simrt.Point()
		}
		c.pos++
		c.step(s)
	}
	c.touch()
}

// touch reads everything handed out to the caller once more.
func (c *taskCtx) touch() {
	if !simrt.RaceEnabled || c.t == 0 {
		return
	}
	for _, i := range c.list[:c.pos] {
		for _, v := range c.w.slots[i].res {
			simtouch.Slice(v)
		}
	}
}

// step executes one operation.
func (c *taskCtx) step(s *slot) {
	w := c.w
	op := s.op
	c.opID = op.ID
	clear(c.counts)
	c.begin()
	c.errFired, c.panFired, c.exitFired = 0, 0, 0
	defer func() {
		// reached also when the goroutine is being ended
		if r := recover(); r != nil {
			w.violate(s, "%s panicked: %v", op, r)
		}
		if c.exitFired > 0 && c.insisted > 0 && c.insisted <= w.more(op.ID) && !simrt.Dying() { // tried again
			c.restart = true
			c.pos--
			return
		}
		c.insisted = 0
		s.pan, s.err, s.exited = s.pan+c.panFired, s.err+c.errFired, s.exited || c.exitFired > 0
		if s.exited && c.exitFired > 0 && !simrt.Dying() {
			c.restart = true
			s.failed = true
			if w.cfg.Retry && op.K == "obs" {
				c.pending = s
			}
		}
		simrt.Release(unsafe.Pointer(&s.done))
		setDone(&s.done)
	}()
	var in []any
	var ins []*slot
	for _, j := range op.In {
		d := w.slot(j)
		if d == nil {
			s.failed = true
			return
		}
		if d.op.T > 0 && d.op.T != op.T {
			simrt.WaitNonZero(&d.done)
			if simrt.Dying() {
				return
			}
		}
		simrt.Acquire(unsafe.Pointer(&d.done))
		if d.failed && op.K != "scribble" || d.obj == nil && opDefs[d.op.K] != nil {
			s.failed = true
			return
		}
		in = append(in, d.obj)
		ins = append(ins, d)
	}
	switch op.K {
	case "obs":
		c.observe(s, ins[0])
	case "scribble":
		c.scribble(s, ins[0])
	case "exec":
		c.exec(s, ins[0])
	case "browse":
		c.browse(s, ins[0])
	default:
		if s.model == nil {
			s.failed = true
			return
		}
		d := opDefs[op.K]
		s.size = sizeOf(op, ins)
		from := c.steps()
		obj := d.Exec(&X{w: w, op: op, c: c, in: in})
		if simrt.Dying() {
			return
		}
		if op.K != "flood" {
			c.effort(s, s.size, from)
		}
		c.unasked(s)
		if obj == nil {
			s.failed = true
			return
		}
		s.obj = obj
		if x, ok := obj.(*words); ok {
			s.fp = map[string]string{"words": x.text}
			if x.names != nil {
				s.handed = append(s.handed, handed{raw: x.names, was: fmt.Sprint(x.names), mine: true})
			}
		}
		if !w.cfg.NoFP && !op.M && len(aspectsOf(s.kind)) > 0 {
			simrt.NoPreempt(func() {
				var ps []string
				if op.W {
					alike := d.Exec(&X{w: w, op: op, c: c, in: in})
					s.fp, ps = fingerprint(c, s.kind, alike, nil)
				} else {
					s.fp, ps = fingerprint(c, s.kind, obj, &s.handed)
				}
				if len(ps) > 0 && badLeaf(s.model) == "" {
					w.violate(s, "rendering the result of %s panicked: %s", op, strings.Join(ps, "; "))
				}
			})
		}
	}
}

// more tells how often the caller tries the call before the attempt that counts.
func (w *World) more(op int) (n int) {
	for i := range w.faults {
		if f := &w.faults[i]; f.Op == op {
			n = max(n, f.More)
		}
	}
	return n
}

// again repeats an observation once the fault is gone.
func (c *taskCtx) again(s *slot) {
	defer func() {
		if r := recover(); r != nil {
			c.w.violate(s, "%s panicked when repeated: %v", s.op, r)
		}
	}()
	target := c.w.slot(s.op.In[0])
	c.noFault = true
	c.begin()
	s.retry = observe(target.kind, s.op.S[0], s.op.N[0], target.obj)
	c.noFault = false
	if !simrt.Dying() {
		checkRetry(c, s, target)
	}
}

//go:norace
func setDone(p *uint32) { *p = 1 }

// observe performs an observation operation and its immediate checks.
func (c *taskCtx) observe(s, target *slot) {
	w, op := c.w, s.op
	aspect, start := op.S[0], op.N[0]
	for c.insisted < w.more(op.ID) { // a caller who does not give up
		c.insisted++
		c.fired("tried again")
		observe(target.kind, aspect, start, target.obj)
		if simrt.Dying() {
			return
		}
		clear(c.counts)
		c.begin()
		c.errFired, c.panFired = 0, 0
	}
	c.insisted++
	from := c.steps()
	s.obs = observe(target.kind, aspect, start, target.obj)
	if simrt.Dying() {
		return
	}
	c.effort(s, target.size, from)
	s.res = append(s.res, s.obs.slices...)
	s.handed = s.obs.handed(c, s.handed, true)
	s.err, s.pan = s.err+c.errFired, s.pan+c.panFired
	checkObs(c, s, target)
	c.errFired, c.panFired = 0, 0
	if w.cfg.Retry && s.viol == nil {
		c.again(s)
	}
}

// fpKey names a part of a fingerprint.
func fpKey(aspect string, start int) string { return aspect + "/" + strconv.Itoa(start) }

// final checks every object once more after everything is over.
func (w *World) final(c *taskCtx) {
	for _, s := range w.slots {
		if checkHanded(c, s); s.viol != nil {
			return
		}
		if s.obj == nil || s.failed || s.op.M || len(aspectsOf(s.kind)) == 0 {
			continue
		}
		c.opID = -1
		fp, panics := fingerprint(c, s.kind, s.obj, nil)
		if simrt.Dying() {
			return
		}
		if len(panics) > 0 && badLeaf(s.model) == "" {
			w.violate(s, "rendering the result of %s panicked at the end: %s", s.op, strings.Join(panics, "; "))
			return
		}
		checkFinal(c, s, fp)
		if s.viol != nil {
			return
		}
	}
}
