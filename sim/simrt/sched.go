// Package simrt is the simulator: a cooperative scheduler in which exactly one caller runs at any time and a seeded
// generator decides at every yield point who continues.
package simrt

import (
	"runtime"
	"unsafe"
)

const (
	maxTasks  = 1024
	maxRecord = 1 << 16
	hitsLen   = 1 << 16
)

// Strategy of one run.
type Strategy struct {
	Kind string  // seq, rand, pct, op, site, park, replay
	P    float64 // switching probability
	D    int     // pct: number of priority changes
	Len  int     // pct: estimated length
}

// Decision is one recorded switch: the task, its local step at that moment and who continued.
type Decision struct {
	Task int
	Step int
	Next int
}

type waitKind uint8

const (
	ready waitKind = iota
	onNonZero
	onZero
	onTime
	onChan
	finished
)

// Task is one simulated caller.
type Task struct {
	ID     int
	Name   string
	gate   chan struct{}
	steps  int
	np     int
	wait   waitKind
	flag   *uint32
	wakeAt int64
	prio   int
	dying  bool
	hid    int
	Data   any // harness data, owned by the task
	opStep int
	seen   uint64 // channel operations when the task began to wait for one
	back   int    // held back until that many steps have been made
	own    bool   // started by the code under test
}

// Steps returns the number of yield points passed by the task.
//
//go:norace
//go:noinline
func (t *Task) Steps() int { return t.steps }

// Sched is one simulated execution.
type Sched struct {
	tasks   [maxTasks]*Task
	ntasks  int
	cur     *Task
	rng     *Rng
	strat   Strategy
	now     int64
	total   int
	Cap     int // total step cap of the run
	OpCap   int // step cap of one operation
	opStart int
	Fault   string // deadlock, steps: progress violations
	FaultAt int
	dead    bool
	done    chan struct{}
	fin     uint64
	nrec    int
	rec     []Decision
	replay  []Decision
	rpos    []int // next replay entry per task
	rper    [][]Decision
	hash    uint64
	Switch  int // switches at yield points
	IntraSw int // switches inside an operation of the package
	pctAt   []int
	siteKey uint64
	MapSeed uint64
	mapN    uint64
	anon    int
	cand    [maxTasks]*Task
	timers  []*Alarm
	chanOps uint64
	chans   map[unsafe.Pointer]*rendezvous
	clock   uint64
	skew    int64
	random  uint64
	Jumps   int // of the clock
	Left    int // goroutines of the code under test that nothing will ever wake
}

var active *Sched

// recBuf is reused: one run at a time.
var recBuf [maxRecord]Decision

// Hits counts yield-point executions per site (per process).
var Hits [hitsLen]uint32

// New prepares an execution.
func New(seed uint64, strat Strategy, replay []Decision) *Sched {
	s := &Sched{rng: NewRng(seed, "sched"), strat: strat, done: make(chan struct{}), Cap: 400000000, OpCap: 40000000}
	s.rec = recBuf[:]
	s.hash = 14695981039346656037
	s.siteKey = s.rng.U64()
	s.MapSeed = seed
	if strat.Kind == "pct" {
		n := strat.Len
		if n < 10 {
			n = 10
		}
		for i := 0; i < strat.D; i++ {
			s.pctAt = append(s.pctAt, 1+s.rng.Intn(n))
		}
	}
	if strat.Kind == "replay" {
		s.rper = make([][]Decision, maxTasks)
		s.rpos = make([]int, maxTasks)
		for _, d := range replay {
			if d.Task >= 0 && d.Task < maxTasks {
				s.rper[d.Task] = append(s.rper[d.Task], d)
			}
		}
	}
	return s
}

// Go adds a caller; before Run, or from a running task.
func (s *Sched) Go(name string, body func(*Task)) *Task {
	t := s.newTask(name, body)
	return t
}

//go:norace
//go:noinline
func (s *Sched) newTask(name string, body func(*Task)) *Task {
	if s.ntasks >= maxTasks {
		panic("simrt: too many tasks")
	}
	t := &Task{ID: s.ntasks, Name: name, gate: make(chan struct{}, 1)}
	t.prio = 1000 + s.rng.Intn(1000)
	s.tasks[s.ntasks] = t
	s.ntasks++
	go s.main(t, body)
	return t
}

// ownTask starts a goroutine of the code under test, in the place of a finished one if there are many.
//
//go:norace
//go:noinline
func (s *Sched) ownTask(body func(*Task)) bool {
	t := &Task{ID: s.ntasks, Name: "spawned", gate: make(chan struct{}, 1), own: true}
	if s.ntasks >= 32 {
		for i := 0; i < s.ntasks; i++ {
			if old := s.tasks[i]; old.own && old.wait == finished {
				t.ID, t.steps = i, old.steps+1
				break
			}
		}
	}
	if t.ID >= maxTasks {
		return false
	}
	t.prio = 1000 + s.rng.Intn(1000)
	if s.cur != nil {
		t.Data = Inherited{s.cur.Data}
		if in, ok := s.cur.Data.(Inherited); ok {
			t.Data = in
		}
	}
	s.tasks[t.ID] = t
	if t.ID == s.ntasks {
		s.ntasks++
	}
	go s.main(t, body)
	return true
}

// Alarm calls a function in a goroutine of its own once simulated time has come.
type Alarm struct {
	at   int64
	f    func()
	held bool // nothing but its time coming or its cancellation releases it
}

// Hold marks what the runtime keeps until its time comes.
func (a *Alarm) Hold() *Alarm {
	if a != nil {
		a.held = true
	}
	return a
}

// Held are the alarms that are still to come and keep what they refer to.
func (s *Sched) Held() (r []*Alarm) {
	for _, a := range s.timers {
		if a.held {
			r = append(r, a)
		}
	}
	return r
}

// SetAlarm arranges the call of f.
//
//go:norace
//go:noinline
func SetAlarm(d int64, f func()) *Alarm {
	s := active
	if s == nil || s.cur == nil {
		return nil // time stands still
	}
	a := &Alarm{at: s.now + d, f: f}
	s.timers = append(s.timers, a)
	return a
}

// Cancel tells whether the function will not be called because of this.
//
//go:norace
//go:noinline
func (a *Alarm) Cancel() bool {
	s := active
	if s == nil || a == nil {
		return false
	}
	for i, x := range s.timers {
		if x == a {
			s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

//go:norace
//go:noinline
func (s *Sched) ring() {
	var later []*Alarm
	for _, a := range s.timers {
		if a.at > s.now {
			later = append(later, a)
			continue
		}
		f := a.f
		s.ownTask(func(*Task) { f() })
	}
	s.timers = later
}

// Inherited is the data of a goroutine of the code under test: that of the caller who started it.
type Inherited struct{ Of any }

// main is the goroutine of a task.
//
//go:norace
//go:noinline
func (s *Sched) main(t *Task, body func(*Task)) {
	park(t)
	defer s.exit(t)
	if s.dead {
		return
	}
	if t.own {
		defer s.crash()
	}
	body(t)
}

// crash ends the run when a goroutine of the code under test panics: the process would end.
//
//go:norace
//go:noinline
func (s *Sched) crash() {
	if x := recover(); x != nil {
		s.abort("panic")
	}
}

//go:norace
//go:noinline
func park(t *Task) {
	hide()
	<-t.gate
	unhide()
}

//go:norace
//go:noinline
func wake(t *Task) {
	hide()
	t.gate <- struct{}{}
	unhide()
}

// Respawn continues the task in a fresh goroutine: the current one is ending (runtime.Goexit) and still holds the turn.
func (s *Sched) Respawn(t *Task, body func(*Task)) {
	t.np = 0
	go s.mainNow(t, body)
}

//go:norace
//go:noinline
func (s *Sched) mainNow(t *Task, body func(*Task)) {
	defer s.exit(t)
	body(t)
}

// Handover tells exit that the task goes on in another goroutine.
type Handover struct{}

// exit ends a task and passes the turn on.
//
//go:norace
//go:noinline
func (s *Sched) exit(t *Task) {
	if t.wait == finished {
		return
	}
	if h, ok := t.Data.(interface{ Continue(*Task) func(*Task) }); ok && !s.dead {
		if next := h.Continue(t); next != nil {
			s.Respawn(t, next)
			return
		}
	}
	Release(unsafe.Pointer(&s.fin))
	t.wait = finished
	t.steps++
	s.pass(t)
}

// pass gives the turn of a task that cannot go on to someone else, and never returns the turn by itself.
//
//go:norace
//go:noinline
func (s *Sched) pass(t *Task) {
	n := s.choose(t)
	if n == nil {
		active = nil
		hide()
		close(s.done)
		unhide()
		return
	}
	s.record(t, n)
	s.cur = n
	wake(n)
}

//go:norace
//go:noinline
func (s *Sched) runnable(t *Task) bool {
	if s.dead {
		return t.wait != finished
	}
	switch t.wait {
	case ready:
		return true
	case onNonZero:
		return *t.flag != 0
	case onZero:
		return *t.flag == 0
	case onTime:
		return t.wakeAt <= s.now
	case onChan:
		return t.seen != s.chanOps
	}
	return false
}

// choose picks who runs when the current task cannot (blocked or finished). nil: everybody has finished.
//
//go:norace
//go:noinline
func (s *Sched) choose(t *Task) *Task {
	for {
		cand := &s.cand
		n := 0
		left, callers := 0, 0
		var minWake int64 = -1
		for i := 0; i < s.ntasks; i++ {
			x := s.tasks[i]
			if x.wait == finished {
				continue
			}
			left++
			if !x.own {
				callers++
			}
			if s.runnable(x) {
				cand[n] = x
				n++
			}
			if x.wait == onTime && (minWake < 0 || x.wakeAt < minWake) {
				minWake = x.wakeAt
			}
		}
		if left == 0 {
			return nil
		}
		if n == 0 {
			if callers == 0 { // goroutines of the code under test left behind
				if minWake < 0 && len(s.timers) == 0 && !s.dead {
					s.Left = left
				}
				s.dead = true
				continue
			}
			for _, a := range s.timers {
				if minWake < 0 || a.at < minWake {
					minWake = a.at
				}
			}
			if minWake >= 0 {
				if minWake > s.now {
					s.now = minWake // nothing can run: jump the clock
				}
				s.ring()
				continue
			}
			s.abort("deadlock")
			continue
		}
		switch s.strat.Kind {
		case "seq":
			return cand[0]
		case "pct":
			best := cand[0]
			for i := 1; i < n; i++ {
				if cand[i].prio > best.prio {
					best = cand[i]
				}
			}
			return best
		case "replay":
			if d := s.replayAt(t); d != nil {
				for i := 0; i < n; i++ {
					if cand[i].ID == d.Next {
						return cand[i]
					}
				}
			}
			return cand[0]
		}
		return cand[s.pick(n)]
	}
}

// pick draws one of the first n candidates, of those not held back if there are any.
//
//go:norace
//go:noinline
func (s *Sched) pick(n int) int {
	if s.strat.Kind == "park" {
		free := 0
		for i := 0; i < n; i++ {
			if s.cand[i].back <= s.total {
				s.cand[free], s.cand[i] = s.cand[i], s.cand[free]
				free++
			}
		}
		if free > 0 {
			n = free
		}
	}
	return s.rng.Intn(n)
}

//go:norace
//go:noinline
func (s *Sched) replayAt(t *Task) *Decision {
	if t.ID >= len(s.rper) {
		return nil
	}
	l := s.rper[t.ID]
	p := s.rpos[t.ID]
	for p < len(l) && l[p].Step < t.steps {
		p++
	}
	s.rpos[t.ID] = p
	if p < len(l) && l[p].Step == t.steps {
		s.rpos[t.ID] = p + 1
		return &l[p]
	}
	return nil
}

//go:norace
//go:noinline
func (s *Sched) record(t, n *Task) {
	s.hash = (s.hash ^ uint64(t.ID*1000003+t.steps*64+n.ID)) * 1099511628211
	if s.nrec < len(s.rec) {
		s.rec[s.nrec] = Decision{t.ID, t.steps, n.ID}
		s.nrec++
	}
}

// die ends the goroutine of the task, once.
//
//go:norace
//go:noinline
func (t *Task) die() {
	if t.dying {
		return
	}
	t.dying = true
	runtime.Goexit()
}

// abort ends the run: a progress violation was found.
//
//go:norace
//go:noinline
func (s *Sched) abort(why string) {
	if !s.dead {
		s.dead = true
		s.Fault = why
		if s.cur != nil {
			s.FaultAt = s.cur.ID
		}
	}
}

// Stop ends the run early (a violation has been recorded).
//
//go:norace
//go:noinline
func Stop() {
	if s := active; s != nil {
		s.dead = true
	}
}

// Y is a yield point. Site is the number the instrumentation gave it.
//
//go:norace
//go:noinline
func Y(site uint32) {
	if site < hitsLen {
		Hits[site]++
	}
	s := active
	if s == nil {
		return
	}
	t := s.cur
	if t == nil {
		return
	}
	if s.dead {
		t.die()
		return
	}
	t.steps++
	s.total++
	if s.total > s.Cap || t.steps-t.opStep > s.OpCap {
		s.abort("steps")
		t.die()
		return
	}
	if t.np > 0 {
		return
	}
	s.maybeSwitch(t, site, true)
}

// Mark starts a new operation of the current task, as far as the bound of steps is concerned.
//
//go:norace
//go:noinline
func Mark() {
	if s := active; s != nil && s.cur != nil {
		s.cur.opStep = s.cur.steps
	}
}

// Point is a yield point of the harness between operations.
//
//go:norace
//go:noinline
func Point() {
	s := active
	if s == nil || s.cur == nil {
		return
	}
	t := s.cur
	if s.dead {
		t.die()
		return
	}
	t.steps++
	s.total++
	t.opStep = t.steps
	s.maybeSwitch(t, 0xFFFFFFFF, false)
}

//go:norace
//go:noinline
func (s *Sched) maybeSwitch(t *Task, site uint32, inside bool) {
	var n *Task
	switch s.strat.Kind {
	case "seq":
		return
	case "rand":
		if s.rng.Chance(s.strat.P) {
			n = s.other(t)
		}
	case "op":
		if !inside && s.rng.Chance(s.strat.P) {
			n = s.other(t)
		}
	case "site":
		p := s.strat.P / 20
		if (uint64(site)*0x9E3779B97F4A7C15^s.siteKey)>>60 == 0 {
			p = 0.5
		}
		if s.rng.Chance(p) {
			n = s.other(t)
		}
	case "park": // callers stay long where they are: in a few places, and where they synchronise
		p := 0.005
		if site == 0 {
			p = 0.15
		} else if (uint64(site)*0x9E3779B97F4A7C15^s.siteKey)>>59 == 0 {
			p = s.strat.P
		}
		if s.rng.Chance(p) {
			if n = s.other(t); n != nil && p > 0.005 {
				t.back = s.total + 100<<s.rng.Intn(8)
			}
		}
	case "pct":
		for i := range s.pctAt {
			if s.pctAt[i] == s.total {
				t.prio = i - len(s.pctAt)
			}
		}
		best := t
		for i := 0; i < s.ntasks; i++ {
			x := s.tasks[i]
			if s.runnable(x) && x.prio > best.prio {
				best = x
			}
		}
		if best != t {
			n = best
		}
	case "replay":
		if d := s.replayAt(t); d != nil && d.Next != t.ID && d.Next < s.ntasks && s.runnable(s.tasks[d.Next]) {
			n = s.tasks[d.Next]
		}
	}
	if n == nil || n == t {
		return
	}
	s.Switch++
	if inside {
		s.IntraSw++
	}
	s.record(t, n)
	s.cur = n
	wake(n)
	park(t)
	if s.dead {
		t.die()
		return
	}
}

//go:norace
//go:noinline
func (s *Sched) other(t *Task) *Task {
	cand := &s.cand
	n := 0
	for i := 0; i < s.ntasks; i++ {
		x := s.tasks[i]
		if x != t && s.runnable(x) {
			cand[n] = x
			n++
		}
	}
	if n == 0 {
		return nil
	}
	return cand[s.pick(n)]
}

//go:norace
//go:noinline
func (s *Sched) block(t *Task, k waitKind) {
	if t.dying {
		return
	}
	t.steps++
	t.wait = k
	n := s.choose(t)
	if n == t {
		t.wait = ready
		if s.dead {
			t.die()
		}
		return
	}
	s.record(t, n)
	s.cur = n
	wake(n)
	park(t)
	t.wait = ready
	if s.dead {
		t.die()
		return
	}
}

// WaitNonZero parks the current task until *p is not zero. Outside a run it reports whether that is so already.
//
//go:norace
//go:noinline
func WaitNonZero(p *uint32) bool {
	s := active
	if s == nil || s.cur == nil {
		return *p != 0
	}
	for *p == 0 && !s.cur.dying {
		s.cur.flag = p
		s.block(s.cur, onNonZero)
	}
	return true
}

// WaitZero parks the current task until *p is zero.
//
//go:norace
//go:noinline
func WaitZero(p *uint32) bool {
	s := active
	if s == nil || s.cur == nil {
		return *p == 0
	}
	for *p != 0 && !s.cur.dying {
		s.cur.flag = p
		s.block(s.cur, onZero)
	}
	return true
}

// Sleep lets simulated time pass.
//
//go:norace
//go:noinline
func Sleep(d int64) {
	s := active
	if s == nil || s.cur == nil {
		Base += d
		return
	}
	if d < 0 {
		d = 0
	}
	t := s.cur
	t.wakeAt = s.now + d
	s.block(t, onTime)
}

// Base is the simulated time at which runs start.
var Base int64 = 1700000000_000000000

// Now returns the simulated time.
//
//go:norace
//go:noinline
func Now() int64 {
	s := active
	if s == nil {
		return Base
	}
	if s.clock&7 == 7 && Random()%16 == 0 { // the clock is set forward now and then
		s.skew += int64(Random() % (48 * 3600_000000000))
		s.Jumps++
	}
	return Base + s.now + s.skew
}

// SetClock tells what time it is when the run starts: runs take place in different years and at different times of the day.
func (s *Sched) SetClock(seed uint64) {
	s.clock = seed
	s.random = seed
	if seed%4 > 0 {
		s.skew = int64(seed>>3%(10*365*24*3600)) * 1000000000
	}
}

// randomness of the code under test outside of runs.
var elsewhere uint64

// Random is the randomness given to the code under test.
//
//go:norace
//go:noinline
func Random() uint64 {
	p := &elsewhere
	if s := active; s != nil {
		p = &s.random
	}
	*p += 0x9e3779b97f4a7c15
	z := *p
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Cur returns the current task, or nil outside a run.
//
//go:norace
//go:noinline
func Cur() *Task {
	if s := active; s != nil {
		return s.cur
	}
	return nil
}

// NoPreempt runs f without switching (observations that must see one instant).
func NoPreempt(f func()) {
	npAdd(1)
	defer npAdd(-1)
	f()
}

//go:norace
//go:noinline
func npAdd(d int) {
	if s := active; s != nil && s.cur != nil {
		s.cur.np += d
		if s.cur.np < 0 {
			s.cur.np = 0
		}
	}
}

// Spawn starts a goroutine of the code under test as one more task.
func Spawn(f func()) {
	s := active
	if s == nil {
		f() // outside a run: at once, deterministically
		return
	}
	if !s.ownTask(func(*Task) { f() }) {
		f()
	}
	Y(0)
}

// Run executes all tasks to the end.
//
//go:norace
//go:noinline
func (s *Sched) Run() {
	if s.ntasks == 0 {
		return
	}
	active = s
	dummy := &Task{ID: maxTasks - 1}
	n := s.choose(dummy)
	if n == nil {
		active = nil
		return
	}
	s.cur = n
	s.record(dummy, n)
	wake(n)
	hide()
	<-s.done
	unhide()
	active = nil
	Acquire(unsafe.Pointer(&s.fin))
}

// Steps returns the number of yield points executed.
func (s *Sched) Steps() int { return s.total }

// SimTime returns the simulated time that passed.
func (s *Sched) SimTime() int64 { return s.now }

// Hash identifies the interleaving.
func (s *Sched) Hash() uint64 { return s.hash }

// Schedule returns the recorded decisions.
func (s *Sched) Schedule() []Decision { return append([]Decision(nil), s.rec[:s.nrec]...) }

// Overflow tells whether more switches happened than can be recorded.
func (s *Sched) Overflow() bool { return s.nrec >= len(s.rec) }

// Active tells whether a run is in progress.
//
//go:norace
//go:noinline
func Active() bool { return active != nil }

// OpOnly runs are those in which the code under test could not be instrumented.
var OpOnly bool

// mapRand returns the order seed of the next map iteration.
//
//go:norace
//go:noinline
func mapRand() uint64 {
	if s := active; s != nil {
		s.mapN++
		return s.MapSeed*31 + s.mapN
	}
	outN++
	return OutSeed + outN
}

// OutSeed and outN decide map orders outside runs.
var OutSeed, outN uint64

// Dying tells whether the current task is being ended because the run was aborted.
//
//go:norace
//go:noinline
func Dying() bool {
	s := active
	return s != nil && s.cur != nil && s.cur.dying
}
