// Package vsync stands in for sync in the instrumented copy of the library.
// Locks are the real ones (so the race detector sees exactly the ordering the
// library asked for), but waiting for one is a scheduling decision instead of
// parking a thread.
package vsync

import (
	"sync"

	"verifsim/vsched"
)

type Locker = sync.Locker

type Mutex struct{ m sync.Mutex }

func (x *Mutex) Lock() {
	for !x.m.TryLock() {
		vsched.Blocked()
	}
}
func (x *Mutex) TryLock() bool { return x.m.TryLock() }
func (x *Mutex) Unlock() {
	x.m.Unlock()
	vsched.Released()
}

type RWMutex struct{ m sync.RWMutex }

func (x *RWMutex) Lock() {
	for !x.m.TryLock() {
		vsched.Blocked()
	}
}
func (x *RWMutex) TryLock() bool { return x.m.TryLock() }
func (x *RWMutex) Unlock() {
	x.m.Unlock()
	vsched.Released()
}
func (x *RWMutex) RLock() {
	for !x.m.TryRLock() {
		vsched.Blocked()
	}
}
func (x *RWMutex) TryRLock() bool { return x.m.TryRLock() }
func (x *RWMutex) RUnlock() {
	x.m.RUnlock()
	vsched.Released()
}

type rlocker struct{ x *RWMutex }

func (r rlocker) Lock()   { r.x.RLock() }
func (r rlocker) Unlock() { r.x.RUnlock() }

func (x *RWMutex) RLocker() Locker { return rlocker{x} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

type WaitGroup struct {
	m sync.Mutex
	n int
}

func (w *WaitGroup) Add(d int) {
	w.m.Lock()
	w.n += d
	w.m.Unlock()
	vsched.Released()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for {
		w.m.Lock()
		n := w.n
		w.m.Unlock()
		if n <= 0 {
			return
		}
		vsched.Blocked()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsched.Go(func() {
		defer w.Done()
		f()
	})
}

// Pool always hands out the most recently returned item, the legal behaviour
// that most readily exposes an item used after it was put back.
type Pool struct {
	m     sync.Mutex
	items []interface{}
	New   func() interface{}
}

func (p *Pool) Get() interface{} {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

type Map = sync.Map

type Cond struct {
	L   Locker
	gen int
	m   sync.Mutex
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.m.Lock()
	g := c.gen
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		n := c.gen
		c.m.Unlock()
		if n != g {
			break
		}
		vsched.Blocked()
	}
	c.L.Lock()
}
func (c *Cond) Signal() { c.Broadcast() }
func (c *Cond) Broadcast() {
	c.m.Lock()
	c.gen++
	c.m.Unlock()
	vsched.Released()
}
