// Package vtime is the clock the instrumented library reads.
package vtime

import "time"

// Clock is the simulated clock; nil means the real one.
type Clock interface {
	Now() time.Time
	Sleep(time.Duration)
}

var C Clock

func Now() time.Time {
	if C != nil {
		return C.Now()
	}
	return time.Now()
}
func Sleep(d time.Duration) {
	if C != nil {
		C.Sleep(d)
		return
	}
	time.Sleep(d)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// With a simulated clock nothing but the caller makes time pass, so a timer
// lets its time pass at once and has its channel filled when it is returned.

type Timer struct {
	C <-chan time.Time
	c chan time.Time
	r *time.Timer
}

func NewTimer(d time.Duration) *Timer {
	if C == nil {
		r := time.NewTimer(d)
		return &Timer{C: r.C, r: r}
	}
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.Reset(d)
	return t
}
func (t *Timer) Stop() bool {
	if t.r != nil {
		return t.r.Stop()
	}
	select {
	case <-t.c:
		return true
	default:
		return false
	}
}
func (t *Timer) Reset(d time.Duration) bool {
	if t.r != nil {
		return t.r.Reset(d)
	}
	was := t.Stop()
	C.Sleep(d)
	t.c <- C.Now()
	return was
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
