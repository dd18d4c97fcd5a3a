// Package simtime stands in for package time inside the simulated code: the simulator's clock.
package simtime

import (
	"time"

	"github.com/amarin/query/zz_verif/simrt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	RFC822      = time.RFC822
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	ANSIC       = time.ANSIC
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
)

var (
	UTC   = time.UTC
	Local = time.UTC
)

func Now() Time                                { return time.Unix(0, simrt.Now()).UTC() }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Sleep(d Duration)                         { simrt.Sleep(int64(d)) }
func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func UnixMilli(n int64) Time                   { return time.UnixMilli(n) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }
func Parse(l, v string) (Time, error)          { return time.Parse(l, v) }
func LoadLocation(n string) (*Location, error) { return time.LoadLocation(n) }
func Date(y int, m Month, d, h, mi, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, mi, s, n, l)
}

// Timer stands in for time.Timer.
type Timer struct {
	C <-chan Time
	c chan Time
	f func()
	a *simrt.Alarm
}

func newTimer(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	if f == nil {
		t.c = make(chan Time, 1)
		t.C = t.c
		t.f = func() {
			select {
			case t.c <- Now():
			default:
			}
			simrt.ChanDid()
		}
	}
	t.set(d)
	return t
}

func (t *Timer) set(d Duration) {
	t.a = simrt.SetAlarm(int64(d), t.f)
	if t.c == nil {
		t.a.Hold()
	}
}

func NewTimer(d Duration) *Timer            { return newTimer(d, nil) }
func AfterFunc(d Duration, f func()) *Timer { return newTimer(d, f) }
func After(d Duration) <-chan Time          { return newTimer(d, nil).C }

// Stop prevents the timer from firing.
func (t *Timer) Stop() bool { return t.a.Cancel() }

// Reset changes the timer to expire after d.
func (t *Timer) Reset(d Duration) bool {
	running := t.Stop()
	t.set(d)
	return running
}
