// Package props holds the simulated scenarios: one file per area, one Prop per
// property.  A scenario is a pure function of its tape.
package props

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"verifsim/tape"
	"verifsim/vos"
	"verifsim/vsched"
	"verifsim/vtime"
)

// Violation is one broken property, with a stable class used for minimising
// and for matching known findings.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Prop is one property's scenario.
type Prop struct {
	ID       string
	Title    string
	Race     bool // built and run under the race detector
	Fresh    int  // restart the worker process after so many runs (0: never)
	Quick    int  // runs in the quick tier
	Thorough int
	Rule     string // what a run is, and what makes it non-trivial
	Real     []string
	Stub     []string
	Assume   []string
	Run      func(c *Ctx)
}

var All []*Prop

func Register(p *Prop) { All = append(All, p) }

func Find(id string) *Prop {
	for _, p := range All {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Ctx is the state of one simulated run.
type Ctx struct {
	T        *tape.T
	P        *Prop
	now      time.Duration
	slept    time.Duration
	skew     time.Duration
	base     time.Time
	baseSet  bool
	hash     uint64
	Trace    []string
	KeepLog  bool
	Counters map[string]int64
	Nontriv  bool
	Steps    int64
	Sample   string
	intask   bool
}

type stop struct{ v Violation }

// Harness panics with this when the harness itself is wrong: an error exit.
type HarnessError struct{ Msg string }

func Harness(format string, a ...interface{}) { panic(HarnessError{fmt.Sprintf(format, a...)}) }

func newCtx(p *Prop, t *tape.T) *Ctx {
	return &Ctx{T: t, P: p, Counters: map[string]int64{}, hash: 14695981039346656037}
}

func (c *Ctx) mixs(s string) {
	for i := 0; i < len(s); i++ {
		c.hash = (c.hash ^ uint64(s[i])) * 1099511628211
	}
	c.hash = (c.hash ^ 0xff) * 1099511628211
}

// Log records one event of the run.  It never draws a choice.
func (c *Ctx) Log(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.mixs(s)
	if c.KeepLog && len(c.Trace) < 4000 {
		c.Trace = append(c.Trace, s)
	}
}

// LogB records an event with bulk data (hashed, abbreviated in the trace).
func (c *Ctx) LogB(b []byte, format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.mixs(s)
	c.mixs(string(b))
	if c.KeepLog && len(c.Trace) < 4000 {
		x := fmt.Sprintf("%q", b)
		if len(x) > 1200 {
			x = x[:1200] + "..."
		}
		c.Trace = append(c.Trace, s+" "+x)
	}
}

// Count records that something (a fault, a probe) actually happened.
func (c *Ctx) Count(what string) { c.Counters[what]++ }
func (c *Ctx) Fault(kind string) { c.Counters["fault:"+kind]++; c.Nontriv = true }
func (c *Ctx) Probe(what string) { c.Counters["probe:"+what]++ }

// Fail ends the run with a violation.
func (c *Ctx) Fail(class, format string, a ...interface{}) {
	panic(stop{Violation{class, fmt.Sprintf(format, a...)}})
}

// PanicSite names the innermost library function on the panicking stack.
func PanicSite() string {
	pcs := make([]uintptr, 120)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	seen := false
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "runtime.gopanic") || strings.Contains(f.Function, "runtime.sigpanic") || strings.HasPrefix(f.Function, "runtime.panic") || strings.HasPrefix(f.Function, "runtime.goPanic") {
			seen = true
		}
		if seen && strings.HasPrefix(f.Function, "github.com/use-go/gosips/") {
			return strings.TrimPrefix(f.Function, "github.com/use-go/gosips/")
		}
		if !more {
			return ""
		}
	}
}

// userSite names the scenario function that could not use a result.
func userSite() string {
	pcs := make([]uintptr, 120)
	fr := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs)])
	seen := false
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "runtime.gopanic") || strings.HasPrefix(f.Function, "runtime.panic") || strings.HasPrefix(f.Function, "runtime.goPanic") {
			seen = true
		}
		if seen && strings.HasPrefix(f.Function, "verifsim/props.") {
			return fmt.Sprintf("%s:%d", strings.TrimPrefix(f.Function, "verifsim/props."), f.Line)
		}
		if !more {
			return ""
		}
	}
}

// Lib calls into the library with a bound on the work it may do.  A panic or
// an overrun is a violation.
func (c *Ctx) Lib(what string, bound int64, f func()) {
	if v := c.Try(what, bound, f); v != nil {
		panic(stop{*v})
	}
}

// Try is Lib, but hands the violation back.
func (c *Ctx) Try(what string, bound int64, f func()) (v *Violation) {
	if bound <= 0 {
		bound = 30000000
	}
	vsched.Begin(bound)
	defer func() {
		r := recover()
		n, hit := vsched.End()
		c.Steps += n
		if hit {
			site := ""
			if r != nil {
				site = PanicSite()
			}
			_ = site
			v = &Violation{"hang:" + what, fmt.Sprintf("%s did not finish within %d statements (endless or super-linear work, last in %s)", what, bound, site)}
			return
		}
		if r == nil {
			return
		}
		if s, ok := r.(stop); ok {
			panic(s)
		}
		if h, ok := r.(HarnessError); ok {
			panic(h)
		}
		if h, ok := r.(tape.TooMany); ok {
			panic(h)
		}
		if _, ok := r.(vsched.Deadlock); ok {
			v = &Violation{"deadlock:" + what, what + " waits for a lock nobody will release"}
			return
		}
		site := PanicSite()
		if site == "" {
			panic(r)
		}
		v = &Violation{"panic:" + site, fmt.Sprintf("%s panicked in %s: %v", what, site, r)}
	}()
	f()
	return nil
}

// Bound is the work bound for handling n bytes of input.
func Bound(n int) int64 { return 200000 + 3000*int64(n) }

// Many draws how many there are of something: from lo to hi, and now and then
// up to big.
func (c *Ctx) Many(lo, hi, big int) int {
	if c.T.Chance(4) {
		c.Probe("many")
		return c.T.Range(hi, big)
	}
	return c.T.Range(lo, hi)
}

// ---- simulated clock

func (c *Ctx) Now() time.Time {
	if c.baseSet {
		return c.base.Add(c.now + c.skew)
	}
	return time.Unix(1000000000, 0).Add(c.now + c.skew)
}
func (c *Ctx) Sleep(d time.Duration) {
	if d > 0 {
		c.now += d
		c.slept += d
	}
}
func (c *Ctx) Advance(d time.Duration) { c.now += d }
func (c *Ctx) SimTime() time.Duration  { return c.now }

// ---- scheduled tasks

// RunTasks runs the tasks under the seeded scheduler and returns their
// results; a panic or deadlock in a task is a violation.
func (c *Ctx) RunTasks(bound int64, tasks []func()) {
	t := c.T
	style := t.Pick(1, 4, 4, 3)
	switches := int64(0)
	prev := -1
	choose := func(run []int) (int, int64) {
		k := t.Intn(len(run))
		var q int64
		switch style {
		case 0: // one task after the other
			return 0, 1 << 40
		case 1: // few preemptions, long stretches of log-uniform length
			q = int64(t.Log(13))
		case 2: // mostly fine-grained
			q = int64(t.Log(5))
		case 3: // ping-pong: a burst from one, a long run of another
			if t.Bool() {
				q = int64(t.Log(3))
			} else {
				q = int64(t.Log(16))
			}
		}
		if switches > 4000 { // a task that may never end: let the step bound decide
			q = 1 << 20
		}
		return k, q
	}
	res, n, hit, dead := vsched.Run(tasks, bound, choose, func(s vsched.Switch) {
		switches++
		if s.Task != prev {
			if prev >= 0 {
				c.Counters["fault:preemption"]++
			}
			c.hash = (c.hash ^ uint64(s.Task)<<32 ^ uint64(s.Site)) * 1099511628211
			prev = s.Task
			if c.KeepLog && len(c.Trace) < 4000 {
				c.Trace = append(c.Trace, fmt.Sprintf("run task %d (previous one stopped before statement %s)", s.Task, SiteName(s.Site)))
			}
		}
	})
	c.Steps += n
	if switches > int64(len(tasks)) {
		c.Nontriv = true
	}
	if dead {
		c.Fail("deadlock", "every task waits for a lock")
	}
	for i, r := range res {
		if r.Panic == nil {
			continue
		}
		switch p := r.Panic.(type) {
		case vsched.Abort:
			continue
		case vsched.Deadlock:
			c.Fail("deadlock", "task %d waits for a lock nobody will release", i)
		case vsched.StepLimit:
			c.Fail("hang:task", "task %d did not finish within the step bound", i)
		case stop:
			panic(p)
		case HarnessError:
			panic(p)
		default:
			if _, ok := p.(runtime.Error); r.Stack == "" && !ok {
				Harness("task %d panicked outside the library: %v", i, r.Panic)
			}
			c.Fail("panic:"+r.Stack, "task %d panicked in %s: %v", i, r.Stack, r.Panic)
		}
	}
	if hit {
		c.Fail("hang:task", "a task did not finish within the step bound")
	}
}

// Sites names the instrumented statements (loaded from the driver's table).
var Sites []string

func SiteName(id uint32) string {
	if int(id) < len(Sites) {
		return Sites[id]
	}
	return fmt.Sprint(id)
}

func stepsNow() int64 { return vsched.Steps() }

// Outcome is what one run produced.
type Outcome struct {
	V        *Violation
	Hash     uint64
	Nontriv  bool
	Counters map[string]int64
	Data     []uint64
	Trace    []string
	SimTime  time.Duration
	Steps    int64
	Sample   string
	Harness  string
}

// RaceErrors is set in race builds.
var RaceErrors func() int

// RaceText returns the text of race reports since the last call.
var RaceText func() string

// Execute runs the scenario on a tape.
func Execute(p *Prop, t *tape.T, keep bool) (o Outcome) {
	c := newCtx(p, t)
	c.KeepLog = keep
	vtime.C = c
	vos.Pid = 4242
	vos.Disk = nil
	vsched.OnPanic = func(interface{}) string { return PanicSite() }
	r0 := 0
	if RaceErrors != nil {
		r0 = RaceErrors()
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case stop:
				v := x.v
				o.V = &v
			case HarnessError:
				o.Harness = x.Msg
			case tape.TooMany:
			default:
				buf := make([]byte, 16384)
				n := runtime.Stack(buf, false)
				if _, ok := r.(runtime.Error); ok {
					// The scenario reads what the library returned as the
					// library documents it (no nil, the right length, the right type).
					o.V = &Violation{"surprise", fmt.Sprintf("the library returned something a user cannot use: %v (in %s)", r, userSite())}
				} else {
					o.Harness = fmt.Sprintf("unexpected panic in the harness: %v\n%s", r, buf[:n])
				}
			}
		}()
		p.Run(c)
	}()
	if RaceErrors != nil && RaceErrors() > r0 {
		txt := RaceText()
		if o.V == nil {
			o.V = &Violation{"race:" + raceClass(txt), "data race in the library:\n" + txt}
		}
	}
	if o.V != nil {
		c.Log("VIOLATION %s", o.V.Class)
	}
	vtime.C = nil
	vos.Disk = nil
	vos.Pid = 0
	o.Hash, o.Nontriv, o.Counters, o.Data, o.Trace = c.hash, c.Nontriv, c.Counters, t.Data, c.Trace
	o.SimTime, o.Steps, o.Sample = c.now, c.Steps, c.Sample
	if t.Over && o.V == nil {
		o.Harness = "run drew too many choices"
	}
	return o
}

// raceClass names the library functions of the first report.
func raceClass(txt string) string {
	set := map[string]bool{}
	n := 0
	section := false
	for _, l := range strings.Split(txt, "\n") {
		if strings.Contains(l, " by goroutine") || strings.Contains(l, " by main goroutine") {
			section = true
			continue
		}
		l = strings.TrimSpace(l)
		if strings.Contains(l, "created at:") {
			section = false
		}
		if section && strings.HasPrefix(l, "github.com/use-go/gosips/") {
			f := strings.TrimPrefix(l, "github.com/use-go/gosips/")
			if i := strings.LastIndex(f, "("); i > 0 {
				f = f[:i]
			}
			set[f] = true
			section = false
			n++
			if n == 2 {
				break
			}
		}
	}
	var s []string
	for k := range set {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

func init() {
	_ = os.Stderr
}
