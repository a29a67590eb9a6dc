package props

import (
	"bytes"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/use-go/gosips/core"
	"verifsim/vos"
	"verifsim/vsched"
)

func init() {
	Register(&Prop{
		ID: "C19", Title: "Logged messages reach their file whole, once, in order, whatever the disk does",
		Race: true, Fresh: 200, Quick: 100000, Thorough: 5000000,
		Rule:   "one run lets 1-4 tasks log 1-8 messages each to 1-2 files of a simulated disk that refuses opens, fills up, cuts writes short and fails, under the seeded statement-level scheduler; non-trivial when a fault struck or the scheduler preempted a task",
		Real:   []string{"core/LogWriter.go"},
		Stub:   []string{"disk (simulated)", "goroutine scheduling (simulated)"},
		Assume: []string{"a write to a file opened for appending is atomic, as POSIX says; races are those the Go race detector sees in the simulated schedules"},
		Run:    runLog,
	})
}

const logSep = " ---------------------------------------------- "

const (
	maxFile  = 12 << 20
	maxOpen  = 512
	nlogFile = 2
)

// disk is a simulated disk.  Its state is plain fixed-size memory touched only
// by norace functions, so that it orders nothing for the race detector.
type disk struct {
	name    [nlogFile]string
	data    [nlogFile][]byte // preallocated
	size    [nlogFile]int
	old     [nlogFile]int // how much was there before
	exists  [nlogFile]bool
	open    int
	opened  int
	handles [maxOpen]handle
	// fault plan, predrawn: one decision per disk operation
	plan  []byte
	arg   []uint16
	op    int
	limit int // bytes the disk holds
	used  int
	// what struck whom
	faultOp [64]int // faults that struck the operations of a task, so far
	lost    [64]int
	foreign int
	fopen, fwrite, fshort, ffull, fclose,
	fmany int
	maxh int
}

type handle struct {
	d      *disk
	f      int
	pos    int
	app    bool
	wr, rd bool
	closed bool
	gone   bool // its file was removed
}

var errIO = syscall.EIO

//go:norace
//go:noinline
func (d *disk) next() (byte, uint16) {
	if d.op >= len(d.plan) {
		return 0, 0
	}
	k, a := d.plan[d.op], d.arg[d.op]
	d.op++
	return k, a
}

//go:norace
//go:noinline
func (d *disk) struck() {
	if t := vsched.Cur(); t >= 0 {
		d.faultOp[t]++
	}
}

//go:norace
//go:noinline
func (d *disk) doOpen(name string, flag int) (*handle, error) {
	f := -1
	for i := range d.name {
		if d.name[i] == name {
			f = i
		}
	}
	if f < 0 {
		d.foreign++
		return nil, syscall.ENOENT
	}
	k, _ := d.next()
	if k == 1 {
		d.fopen++
		d.struck()
		return nil, syscall.EACCES
	}
	if d.open >= d.maxh || d.opened >= maxOpen {
		d.fmany++
		d.struck()
		return nil, syscall.EMFILE
	}
	if !d.exists[f] {
		if flag&os.O_CREATE == 0 {
			return nil, syscall.ENOENT
		}
		d.exists[f] = true
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, syscall.EEXIST
	}
	if flag&os.O_TRUNC != 0 {
		d.used -= d.size[f]
		d.size[f] = 0
	}
	h := &d.handles[d.opened]
	d.opened++
	d.open++
	m := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	h.d, h.f, h.pos, h.app, h.closed, h.gone = d, f, 0, flag&os.O_APPEND != 0, false, false
	h.wr, h.rd = m != os.O_RDONLY, m != os.O_WRONLY
	return h, nil
}

// Remove takes the file off the disk; whoever has it open writes into nothing.
//
//go:norace
//go:noinline
func (d *disk) Remove(name string) error {
	for f := range d.name {
		if d.name[f] == name && d.exists[f] {
			d.exists[f] = false
			d.used -= d.size[f]
			d.size[f] = 0
			for i := 0; i < d.opened; i++ {
				if d.handles[i].f == f {
					d.handles[i].gone = true
				}
			}
			return nil
		}
	}
	return syscall.ENOENT
}

// errors are made outside norace code
func (d *disk) OpenFile(name string, flag int, perm os.FileMode) (vos.Handle, error) {
	h, err := d.doOpen(name, flag)
	if err != nil {
		return nil, err
	}
	return h, nil
}

//go:norace
//go:noinline
func (h *handle) Write(b []byte) (int, error) {
	d := h.d
	if h.closed {
		return 0, os.ErrClosed
	}
	if !h.wr {
		return 0, syscall.EBADF
	}
	k, a := d.next()
	n := len(b)
	if h.gone {
		return n, nil
	}
	var err error
	switch k {
	case 2:
		d.fwrite++
		d.struck()
		return 0, errIO
	case 3:
		if n > 0 {
			d.fshort++
			d.struck()
			n, err = int(a)%n, errIO
		}
	}
	at := h.pos
	if h.app {
		at = d.size[h.f]
	}
	grow := at + n - d.size[h.f]
	if grow < 0 {
		grow = 0
	}
	if free := d.limit - d.used; grow > free {
		d.ffull++
		d.struck()
		n -= grow - free
		grow = free
		err = syscall.ENOSPC
		if n < 0 {
			n = 0
		}
	}
	if at+n > maxFile {
		Harness("log file too large")
	}
	for i := 0; i < n; i++ {
		d.data[h.f][at+i] = b[i]
	}
	h.pos = at + n
	if h.pos > d.size[h.f] {
		d.used += h.pos - d.size[h.f]
		d.size[h.f] = h.pos
	}
	return n, err
}

//go:norace
//go:noinline
func (h *handle) Read(b []byte) (int, error) {
	if h.closed {
		return 0, os.ErrClosed
	}
	n := 0
	for !h.gone && n < len(b) && h.pos < h.d.size[h.f] {
		b[n] = h.d.data[h.f][h.pos]
		h.pos++
		n++
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

//go:norace
//go:noinline
func (h *handle) Close() error {
	if h.closed {
		return os.ErrClosed
	}
	h.closed = true
	h.d.open--
	if k, _ := h.d.next(); k == 4 {
		h.d.fclose++
		return errIO
	}
	return nil
}

func (h *handle) Sync() error { return nil }

//go:norace
//go:noinline
func (h *handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = h.d.size[h.f] + int(off)
	}
	if h.pos < 0 {
		h.pos = 0
		return 0, syscall.EINVAL
	}
	return int64(h.pos), nil
}

//go:norace
//go:noinline
func (h *handle) Truncate(n int64) error {
	if !h.gone && int(n) < h.d.size[h.f] {
		h.d.used -= h.d.size[h.f] - int(n)
		h.d.size[h.f] = int(n)
	}
	return nil
}

// has tells whether file f holds s now (a kill -9 at this point keeps it).
//
//go:norace
//go:noinline
func (d *disk) has(f int, s string) bool {
	n := d.size[f]
	for i := d.old[f]; i+len(s) <= n; i++ {
		k := 0
		for k < len(s) && d.data[f][i+k] == s[k] {
			k++
		}
		if k == len(s) {
			return true
		}
	}
	return false
}

type logRec struct {
	file     int
	msg      string
	inv, ret int64
	faults   int  // faults that struck this call
	there    bool // was in the file when the call returned
	done     bool
}

//go:norace
//go:noinline
func (d *disk) faultsOf(t int) int { return d.faultOp[t] }

var oldLog = strings.Repeat("an old line of the log\n", 500000)

var logArena [nlogFile][maxFile]byte

func runLog(c *Ctx) {
	t := c.T
	d := &disk{name: [nlogFile]string{"calls.log", "other.log"}, maxh: 1024, limit: 1 << 20}
	for i := range d.data {
		d.data[i] = logArena[i][:]
	}
	var before [nlogFile]string
	for i := range before {
		if t.Bool() {
			before[i] = t.Of("old line\n", logSep+"kept", "x", "")
			if t.Chance(2) { // a log that was kept for a while
				before[i] = oldLog[:t.Of1(4<<10, 40<<10, 70<<10, 140<<10, 1100<<10, 11000<<10)]
			}
			d.exists[i] = true
			d.size[i] = copy(d.data[i], before[i])
			d.old[i] = d.size[i]
			d.used += d.size[i]
		}
	}
	nfile := t.Range(1, nlogFile)
	ntask := t.Range(1, 4)
	shared := &core.LogWriter{}
	if t.Bool() {
		shared = &core.LogWrite // the package's own
	}
	own := t.Bool() // several writers on one file: separate log writers, or processes
	recs := make([][]logRec, ntask)
	nop := 0
	for i := range recs {
		for k := t.Range(1, t.Of1(2, 8)); k > 0; k-- {
			m := "<" + istr(i) + "." + istr(k) + ">" + t.Of("", "INVITE sip:a@b SIP/2.0\r\nVia: SIP/2.0/UDP h\r\n\r\n", "line\n", logSep, strings.Repeat("long ", 200), "\x00\xff", "\n")
			if t.Chance(20) {
				m += string(t.Bytes(t.Intn(40)))
			}
			if t.Chance(2) { // some write in pieces of a few KB
				m += strings.Repeat("<sip:long@example.org>", t.Of1(t.Range(50, 300), t.Range(2800, 3200)))
			}
			m += "</" + istr(i) + "." + istr(k) + ">"
			recs[i] = append(recs[i], logRec{file: t.Intn(nfile), msg: m})
			nop += 3
		}
	}
	d.limit += d.used
	if t.Chance(60) {
		d.plan, d.arg = make([]byte, nop), make([]uint16, nop)
		pct := t.Of1(5, 15, 50)
		for i := range d.plan {
			if t.Chance(pct) {
				d.plan[i] = byte(1 + t.Intn(4))
				d.arg[i] = t.U16()
			}
		}
	}
	if t.Chance(15) {
		d.limit = d.used + int(t.Log(11))
	}
	if t.Chance(20) {
		d.maxh = t.Range(ntask, ntask+2)
	}
	vos.Disk = d
	var tasks []func()
	for i := range recs {
		i := i
		w := shared
		if own {
			w = &core.LogWriter{}
		}
		tasks = append(tasks, func() {
			for k := range recs[i] {
				r := &recs[i][k]
				f0 := d.faultsOf(i)
				r.inv = stepsNow()
				w.LogMessageToFile(r.msg, d.name[r.file])
				r.ret = stepsNow()
				r.faults = d.faultsOf(i) - f0
				r.there = d.has(r.file, logSep+r.msg)
				r.done = true
			}
		})
	}
	c.RunTasks(4000000, tasks)
	vos.Disk = nil
	for _, f := range []struct {
		k string
		n int
	}{{"open refused", d.fopen}, {"write error", d.fwrite}, {"short write", d.fshort}, {"disk full", d.ffull}, {"close error", d.fclose}, {"too many open files", d.fmany}} {
		for i := 0; i < f.n; i++ {
			c.Fault(f.k)
		}
	}
	for i := range recs {
		for k := range recs[i] {
			r := &recs[i][k]
			c.LogB([]byte(r.msg), "task %d logged to %s [%d,%d] faults %d there %v", i, d.name[r.file], r.inv, r.ret, r.faults, r.there)
		}
	}
	if d.foreign > 0 {
		c.Fail("other-file", "a file that was not named was opened")
	}
	if d.open != 0 {
		c.Fail("leak", "%d file handles are left open after every call returned", d.open)
	}
	for i := range recs {
		for k := range recs[i] {
			r := &recs[i][k]
			if r.faults == 0 && !r.there {
				c.Fail("not-there", "LogMessageToFile returned, no fault struck it, and the file does not hold its message %q", r.msg)
			}
			if r.faults > 0 {
				c.Probe("call struck by a fault")
			} else {
				c.Probe("message logged")
			}
		}
	}
	for f := range d.name {
		checkLogFile(c, d, f, before[f], recs)
	}
}

// checkLogFile: the file is what it held before, then whole records, each of
// an unstruck call exactly once, in an order that respects who returned before
// whom was called, and pieces of the records of struck calls.
func checkLogFile(c *Ctx, d *disk, f int, before string, recs [][]logRec) {
	got := append([]byte(nil), d.data[f][:d.size[f]]...)
	if !bytes.HasPrefix(got, []byte(before)) {
		c.Fail("old-content", "%s held %q and now %q", d.name[f], short(before), short(string(got)))
	}
	c.LogB(got[len(before):], "%s holds %d old bytes and", d.name[f], len(before))
	rest := got[len(before):]
	var all []*logRec
	for i := range recs {
		for k := range recs[i] {
			if recs[i][k].file == f {
				all = append(all, &recs[i][k])
			}
		}
	}
	used := make([]bool, len(all))
	var order []*logRec
	tries, far := 0, 0
	var read func(at int) bool
	read = func(at int) bool {
		if at > far {
			far = at
		}
		if at == len(rest) {
			return true
		}
		if tries++; tries > 200000 {
			return true // undecided: too many ways to read it
		}
		b := rest[at:]
		for i, r := range all { // a whole record
			if full := logSep + r.msg; !used[i] && bytes.HasPrefix(b, []byte(full)) {
				used[i] = true
				order = append(order, r)
				if read(at + len(full)) {
					return true
				}
				used[i] = false
				order = order[:len(order)-1]
			}
		}
		for _, r := range all { // a piece of one that was struck
			if r.faults == 0 {
				continue
			}
			full := logSep + r.msg
			k := 0
			for k < len(full) && k < len(b) && full[k] == b[k] {
				k++
			}
			for ; k > 0; k-- {
				if at+k == len(rest) || rest[at+k] == logSep[0] {
					if read(at + k) {
						return true
					}
				}
			}
		}
		return false
	}
	if !read(0) {
		c.Fail("torn", "%s holds %q, which is no message that was logged and not accounted for by a disk fault\n file %q", d.name[f], short(string(rest[far:])), short(string(got)))
	}
	if tries > 200000 {
		c.Probe("too many ways to read the file")
		return
	}
	for i, r := range all {
		if !used[i] && r.faults == 0 {
			c.Fail("lost", "%q was logged to %s, no fault struck it, and it is not there: %q", r.msg, d.name[f], short(string(got)))
		}
	}
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if order[j].ret < order[i].inv {
				c.Fail("order", "%q was logged before %q was, but stands after it", order[j].msg, order[i].msg)
			}
		}
	}
	if len(order) > 1 {
		c.Probe("order checked")
	}
}
