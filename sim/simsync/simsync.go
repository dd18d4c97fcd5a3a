// Package simsync stands in for package sync inside the simulated code: same interface, blocking and waking decided
// by the simulator, and the same happens-before edges for the race detector.
package simsync

import (
	"fmt"
	"sort"
	"sync"
	"unsafe"

	"github.com/amarin/query/zz_verif/simrt"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex stands in for sync.Mutex.
type Mutex struct {
	locked uint32
	_      uint32
	hb     uint64
}

//go:norace
func (m *Mutex) Lock() {
	simrt.Y(0)
	for !simrt.WaitZero(&m.locked) {
		panic("simsync: lock of a locked mutex outside a run (deadlock)")
	}
	m.locked = 1
	simrt.Acquire(unsafe.Pointer(&m.hb))
	simrt.Y(0)
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.Y(0)
	if m.locked != 0 {
		return false
	}
	m.locked = 1
	simrt.Acquire(unsafe.Pointer(&m.hb))
	simrt.Y(0)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if m.locked == 0 {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(unsafe.Pointer(&m.hb))
	m.locked = 0
	simrt.Y(0)
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	writer  uint32
	readers uint32
	hbW     uint64
	hbR     uint64
}

//go:norace
func (m *RWMutex) Lock() {
	simrt.Y(0)
	for m.writer != 0 || m.readers != 0 {
		if !simrt.WaitZero(&m.writer) || !simrt.WaitZero(&m.readers) {
			panic("simsync: lock of a locked rwmutex outside a run (deadlock)")
		}
		if d := simrt.Dying(); d {
			return
		}
	}
	m.writer = 1
	simrt.Acquire(unsafe.Pointer(&m.hbW))
	simrt.Acquire(unsafe.Pointer(&m.hbR))
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.writer != 0 || m.readers != 0 {
		return false
	}
	m.Lock()
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if m.writer == 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.hbW))
	m.writer = 0
	simrt.Y(0)
}

//go:norace
func (m *RWMutex) RLock() {
	simrt.Y(0)
	if !simrt.WaitZero(&m.writer) {
		panic("simsync: rlock of a locked rwmutex outside a run (deadlock)")
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.hbW))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.writer != 0 {
		return false
	}
	m.RLock()
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.hbR))
	m.readers--
	simrt.Y(0)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker of the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done uint32
	_    uint32
	hb   uint64
}

//go:norace
func (o *Once) isDone() bool {
	if o.done == 1 {
		simrt.Acquire(unsafe.Pointer(&o.hb))
		return true
	}
	return false
}

//go:norace
func (o *Once) set() {
	simrt.Release(unsafe.Pointer(&o.hb))
	o.done = 1
}

func (o *Once) Do(f func()) {
	simrt.Y(0)
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.set()
		f()
	}
}

// OnceFunc stands in for sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue stands in for sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var (
		o Once
		r T
	)
	return func() T { o.Do(func() { r = f() }); return r }
}

// OnceValues stands in for sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		o  Once
		r1 T1
		r2 T2
	)
	return func() (T1, T2) { o.Do(func() { r1, r2 = f() }); return r1, r2 }
}

// Pool stands in for sync.Pool: always reuses the item put last.
type Pool struct {
	New   func() any
	m     Mutex
	items []any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map stands in for sync.Map.
type Map struct {
	m    Mutex
	data map[any]any
}

func (m *Map) Load(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.data[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.data == nil {
		m.data = map[any]any{}
	}
	old, ok := m.data[k]
	m.data[k] = v
	return old, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if m.data == nil {
		m.data = map[any]any{}
	}
	if old, ok := m.data[k]; ok {
		return old, true
	}
	m.data[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.data[k]
	delete(m.data, k)
	return v, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, v any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.data[k]; ok && x == old {
		m.data[k] = v
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if x, ok := m.data[k]; ok && x == old {
		delete(m.data, k)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.data = nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	keys := make([]any, 0, len(m.data))
	for k := range m.data {
		keys = append(keys, k)
	}
	m.m.Unlock()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprintf("%#v", keys[i]) < fmt.Sprintf("%#v", keys[j]) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	n  uint32
	_  uint32
	hb uint64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.Release(unsafe.Pointer(&w.hb))
	if int(w.n)+d < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.n = uint32(int(w.n) + d)
}

func (w *WaitGroup) Done() { w.Add(-1); simrt.Y(0) }

//go:norace
func (w *WaitGroup) Wait() {
	if !simrt.WaitZero(&w.n) {
		panic("simsync: Wait outside a run (deadlock)")
	}
	simrt.Acquire(unsafe.Pointer(&w.hb))
}

// Go runs f as one more task.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Spawn(func() { defer w.Done(); f() })
}

// Cond stands in for sync.Cond.
type Cond struct {
	L       Locker
	waiters []*uint32
	hb      uint64
}

// NewCond stands in for sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	f := new(uint32)
	c.waiters = append(c.waiters, f)
	c.L.Unlock()
	if !simrt.WaitNonZero(f) {
		panic("simsync: Cond.Wait outside a run (deadlock)")
	}
	simrt.Acquire(unsafe.Pointer(&c.hb))
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	simrt.Release(unsafe.Pointer(&c.hb))
	if len(c.waiters) > 0 {
		*c.waiters[0] = 1
		c.waiters = c.waiters[1:]
	}
	simrt.Y(0)
}

//go:norace
func (c *Cond) Broadcast() {
	simrt.Release(unsafe.Pointer(&c.hb))
	for _, f := range c.waiters {
		*f = 1
	}
	c.waiters = nil
	simrt.Y(0)
}
