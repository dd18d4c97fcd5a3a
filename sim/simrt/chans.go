package simrt

import "unsafe"

// Unbuffered is the capacity that stands for channels without a buffer: the simulator makes both sides meet.
const Unbuffered = 977

type rendezvous struct {
	sent, taken uint64
	hb          uint64
}

// Cap translates the requested capacity of a channel.
func Cap[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n N) int {
	if n == 0 {
		return Unbuffered
	}
	return int(n)
}

//go:norace
//go:noinline
func meet(p unsafe.Pointer) *rendezvous {
	s := active
	if s == nil {
		return &rendezvous{}
	}
	if s.chans == nil {
		s.chans = map[unsafe.Pointer]*rendezvous{}
	}
	r := s.chans[p]
	if r == nil {
		r = &rendezvous{}
		s.chans[p] = r
	}
	return r
}

//go:norace
//go:noinline
func chanOp() {
	if s := active; s != nil {
		s.chanOps++
	}
}

// ChanWait parks the current task until somebody has operated on a channel.
//
//go:norace
//go:noinline
func ChanWait() {
	s := active
	if s == nil || s.cur == nil {
		panic("simrt: channel operation blocks outside a run (deadlock)")
	}
	if s.cur.dying {
		return
	}
	s.cur.seen = s.chanOps
	s.block(s.cur, onChan)
}

//go:norace
func isDying() bool { s := active; return s != nil && s.cur != nil && s.cur.dying }

// ChanDid notes that an operation of a select statement was done.
func ChanDid() { chanOp() }

// ChanTook notes that a select statement has received from the channel.
func ChanTook[T any](c <-chan T) {
	if cap(c) == Unbuffered {
		took(*(*unsafe.Pointer)(unsafe.Pointer(&c)))
	}
	chanOp()
}

//go:norace
//go:noinline
func took(p unsafe.Pointer) {
	r := meet(p)
	Release(unsafe.Pointer(&r.hb))
	r.taken++
}

//go:norace
//go:noinline
func put(p unsafe.Pointer) uint64 {
	r := meet(p)
	r.sent++
	return r.sent
}

//go:norace
//go:noinline
func taken(p unsafe.Pointer, n uint64) bool {
	r := meet(p)
	if r.taken >= n {
		Acquire(unsafe.Pointer(&r.hb))
		return true
	}
	return false
}

// Send sends to a channel.
func Send[T any](c chan<- T) func(T) {
	return func(v T) {
		Y(0)
		for {
			if cap(c) == Unbuffered && len(c) > 0 && !isDying() {
				ChanWait()
				continue
			}
			select {
			case c <- v:
				chanOp()
				if cap(c) == Unbuffered && Active() {
					p := *(*unsafe.Pointer)(unsafe.Pointer(&c))
					for n := put(p); !taken(p, n) && !isDying(); {
						ChanWait()
					}
				}
				return
			default:
			}
			if isDying() {
				return
			}
			ChanWait()
		}
	}
}

// Recv receives from a channel.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 receives from a channel and tells whether it is open.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	Y(0)
	for {
		select {
		case v, ok = <-c:
			if ok {
				ChanTook(c)
			}
			return v, ok
		default:
		}
		if isDying() {
			return v, false
		}
		ChanWait()
	}
}

// Close closes a channel.
func Close[T any](c chan<- T) {
	close(c)
	chanOp()
	Y(0)
}
