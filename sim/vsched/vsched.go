// Package vsched is the run-time half of the instrumentation that the check
// driver puts into a scratch copy of gosips (see cmd/check/instr.go): every
// statement of the library calls Y first.  Y is a no-op unless a simulation is
// running.  In counting mode it bounds the work a call may do (an endless loop
// becomes a deterministic "step limit" stop); in scheduling mode it is the
// point at which the seeded scheduler may take the processor away from the
// caller task and give it to another one.
//
// All hand-over state is accessed only from functions marked go:norace, through
// plain memory, so the race detector sees none of the scheduler's own ordering:
// with -race, two accesses that the *library* does not order are reported as a
// race although the simulator runs the tasks strictly one at a time.
package vsched

import (
	"runtime"
	"sync"
)

// StepLimit is panicked out of the library when a call exceeds its step bound.
type StepLimit struct{}

// Deadlock is panicked when every task (or the only one) waits for a lock.
type Deadlock struct{}

// Abort unwinds the remaining tasks after a deadlock.
type Abort struct{}

const (
	Off   = 0
	Count = 1
	Sched = 2
)

const MaxSites = 1 << 17

var (
	mode     int
	steps    int64
	limit    int64
	limitHit bool
	cov      [MaxSites]uint8
	ncov     int
	stepsAll int64

	cur     int = -1
	quantum int64
	ntasks  int
	started int
	done    [64]bool
	blocked [64]bool
	tsteps  [64]int64
	abort   bool
	site0   uint32
	pend    [64]func()
	tpanic  [64]interface{}
	tstack  [64]string
	npend   int
	wg      sync.WaitGroup

	OnPanic func(interface{}) string
)

// Y is called before every statement of the instrumented library.
//
//go:norace
//go:noinline
func Y(site uint32) {
	if mode == Off {
		return
	}
	steps++
	s := site & (MaxSites - 1)
	if cov[s] == 0 {
		cov[s] = 1
		ncov++
	}
	if steps > limit {
		limitHit = true
		panic(StepLimit{})
	}
	if mode == Sched {
		quantum--
		if quantum < 0 {
			site0 = site
			switchOut()
		}
	}
}

//go:norace
//go:noinline
func switchOut() {
	me := cur
	if me < 0 {
		return
	}
	cur = -1
	for cur != me {
		runtime.Gosched()
	}
	if abort {
		panic(Abort{})
	}
}

// Mode reports the current mode.
//
//go:norace
//go:noinline
func Mode() int { return mode }

// Begin enters counting mode with a step bound.
//
//go:norace
//go:noinline
func Begin(lim int64) {
	mode, steps, limit, limitHit = Count, 0, lim, false
}

// End leaves counting mode and returns the steps used and whether the bound was hit.
//
//go:norace
//go:noinline
func End() (int64, bool) {
	mode = Off
	stepsAll += steps
	return steps, limitHit
}

// Coverage returns how many distinct instrumented statements ran so far.
//
//go:norace
//go:noinline
func Coverage() int { return ncov }

// CoverageBits returns the set of reached sites.
//
//go:norace
//go:noinline
func CoverageBits() []uint8 { return cov[:] }

// AddCoverage adds what another process reached.
//
//go:norace
//go:noinline
func AddCoverage(b []uint8) {
	for i, x := range b {
		if x != 0 && i < len(cov) && cov[i] == 0 {
			cov[i] = 1
			ncov++
		}
	}
}

//go:norace
//go:noinline
func TotalSteps() int64 { return stepsAll }

// Blocked is called by a lock shim whose lock is taken.
//
//go:norace
//go:noinline
func Blocked() {
	if mode == Off {
		runtime.Gosched()
		return
	}
	if mode == Count || cur < 0 {
		panic(Deadlock{})
	}
	blocked[cur] = true
	switchOut()
}

// Released is called by a lock shim after it released a lock.
//
//go:norace
//go:noinline
func Released() {
	if mode != Sched {
		return
	}
	for i := 0; i < ntasks; i++ {
		blocked[i] = false
	}
}

// Try waits until a channel operation succeeds.
func Try(op func() bool) {
	for !op() {
		Blocked()
	}
	Released()
}

// Preempt is an explicit yield point for harness code running inside a task.
//
//go:norace
//go:noinline
func Preempt(site uint32) { Y(site) }

// Go runs f as a new task of the simulation (or a goroutine outside one).
//
//go:norace
//go:noinline
func Go(f func()) {
	if mode != Sched || ntasks >= len(done) {
		go f()
		return
	}
	id := ntasks
	ntasks++
	done[id], blocked[id], tsteps[id], tpanic[id], tstack[id] = false, false, 0, nil, ""
	spawn(id, f)
}

func spawn(id int, f func()) {
	wg.Add(1)
	go body(id, f)
}

//go:norace
//go:noinline
func waitTurn(id int) {
	for cur != id {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func finish(id int) {
	done[id] = true
	for i := 0; i < ntasks; i++ {
		blocked[i] = false
	}
	cur = -1
}

func body(id int, f func()) {
	waitTurn(id)
	defer finish(id)
	defer wg.Done()
	defer func() {
		if r := recover(); r != nil {
			setPanic(id, r)
		}
	}()
	if aborted() {
		return
	}
	f()
}

//go:norace
//go:noinline
func aborted() bool { return abort }

//go:norace
//go:noinline
func setPanic(id int, r interface{}) {
	tpanic[id] = r
	if OnPanic != nil {
		tstack[id] = OnPanic(r)
	}
}

// TaskResult is what became of one task.
type TaskResult struct {
	Panic interface{}
	Stack string
}

// Switch describes one scheduling decision, for traces.
type Switch struct {
	Task    int
	Quantum int64
	Site    uint32
}

// Run executes the tasks one at a time.  choose is called with the ids of the
// runnable tasks and must return an index into that list and how many
// statements the task may run before the next decision.
//
//go:norace
//go:noinline
func Run(tasks []func(), lim int64, choose func(runnable []int) (int, int64), onSwitch func(Switch)) (res []TaskResult, total int64, hit bool, deadlock bool) {
	mode, steps, limit, limitHit = Sched, 0, lim, false
	site0 = 0
	abort = false
	cur = -1
	ntasks = len(tasks)
	for i := range tasks {
		done[i], blocked[i], tsteps[i], tpanic[i], tstack[i] = false, false, 0, nil, ""
	}
	for i, f := range tasks {
		spawn(i, f)
	}
	buf := make([]int, 0, len(done))
	for {
		buf = buf[:0]
		alive := 0
		for i := 0; i < ntasks; i++ {
			if !done[i] {
				alive++
				if !blocked[i] || abort {
					buf = append(buf, i)
				}
			}
		}
		if alive == 0 {
			break
		}
		if len(buf) == 0 {
			deadlock = true
			abort = true
			continue
		}
		k, q := choose(buf)
		id := buf[k]
		quantum = q
		if onSwitch != nil {
			onSwitch(Switch{id, q, site0})
		}
		cur = id
		for cur != -1 {
			runtime.Gosched()
		}
	}
	mode = Off
	wg.Wait()
	for i := 0; i < ntasks; i++ {
		res = append(res, TaskResult{tpanic[i], tstack[i]})
	}
	stepsAll += steps
	return res, steps, limitHit, deadlock
}

// Cur is the running task, or -1.
//
//go:norace
//go:noinline
func Cur() int { return cur }

// Steps is the number of statements run since the simulation step counter was reset.
//
//go:norace
//go:noinline
func Steps() int64 { return steps }
