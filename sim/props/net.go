package props

import (
	"container/heap"
	"fmt"
	"time"
)

// Sim is the event loop and the simulated network of one run.

type event struct {
	at  time.Duration
	seq int
	fn  func()
}
type evq []*event

func (q evq) Len() int { return len(q) }
func (q evq) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q evq) Swap(i, j int)       { q[i], q[j] = q[j], q[i] }
func (q *evq) Push(x interface{}) { *q = append(*q, x.(*event)) }
func (q *evq) Pop() interface{} {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

type Dgram struct {
	Data     []byte
	From, To string
	ID       int
	Damaged  string // "" or the kind of damage
	Copy     int
	Meta     interface{}
}

type Sim struct {
	c    *Ctx
	q    evq
	seq  int
	recv map[string]func(*Dgram)
	cut  map[string]bool
	nid  int

	Loss, Dup, Corrupt, Trunc, Reorder int // percent
	MaxDelay                           time.Duration
	Events, MaxEvents                  int
	last                               map[string]time.Duration
	recent                             []byte
	Damage                             func(b []byte) ([]byte, string)
}

// NewSim draws the fault mix of a run: each kind is on in some runs only.
func NewSim(c *Ctx) *Sim {
	s := &Sim{c: c, recv: map[string]func(*Dgram){}, cut: map[string]bool{}, last: map[string]time.Duration{}, MaxEvents: 4000}
	t := c.T
	rate := func() int {
		switch t.Pick(5, 3, 2) {
		case 1:
			return t.Range(1, 15)
		case 2:
			return t.Range(15, 50)
		}
		return 0
	}
	s.Loss, s.Dup, s.Reorder = rate(), rate(), rate()
	s.MaxDelay = time.Duration(1+t.Log(10)) * time.Millisecond
	s.Damage = func(b []byte) ([]byte, string) { return DamageBytes(c, b, s.recent) }
	return s
}

func (s *Sim) At(d time.Duration, fn func()) {
	s.seq++
	heap.Push(&s.q, &event{s.c.now + d, s.seq, fn})
}

func (s *Sim) Listen(addr string, f func(*Dgram)) { s.recv[addr] = f }

// Partition cuts or heals the pair of addresses, both ways.
func (s *Sim) Partition(a, b string, on bool) {
	if on {
		s.c.Fault("partition")
	} else {
		s.c.Fault("heal")
	}
	s.cut[a+"|"+b] = on
	s.cut[b+"|"+a] = on
}

// Heal ends every fault.
func (s *Sim) Heal() {
	s.Loss, s.Dup, s.Corrupt, s.Trunc, s.Reorder = 0, 0, 0, 0, 0
	for k := range s.cut {
		s.cut[k] = false
	}
}

// Send hands a datagram to the network, which copies it.
func (s *Sim) Send(from, to string, data []byte, meta interface{}) {
	t := s.c.T
	s.nid++
	id := s.nid
	s.c.LogB(data, "%v send #%d %s>%s", s.c.now, id, from, to)
	if s.cut[from+"|"+to] {
		s.c.Fault("partition drop")
		s.c.Log("#%d cut off", id)
		return
	}
	copies := 1
	if t.Chance(s.Dup) {
		copies = 2
		s.c.Fault("duplicate")
	}
	for k := 0; k < copies; k++ {
		if t.Chance(s.Loss) {
			s.c.Fault("loss")
			s.c.Log("#%d lost", id)
			continue
		}
		d := &Dgram{Data: append([]byte(nil), data...), From: from, To: to, ID: id, Copy: k, Meta: meta}
		if t.Chance(s.Corrupt) {
			d.Data, d.Damaged = s.Damage(d.Data)
			if d.Damaged != "" {
				s.c.Fault("damage: " + d.Damaged)
			}
		} else if t.Chance(s.Trunc) {
			d.Data = d.Data[:t.Intn(len(d.Data))]
			d.Damaged = "cut"
			s.c.Fault("damage: cut")
		}
		delay := time.Duration(t.Draw(uint64(s.MaxDelay)/1000+1)) * time.Microsecond
		key := from + "|" + to
		at := s.c.now + delay
		if t.Chance(s.Reorder) {
			at += s.MaxDelay
		} else if at < s.last[key] {
			at = s.last[key] // in order unless reordering strikes
		}
		if at < s.last[key] {
			s.c.Fault("reorder")
		} else {
			s.last[key] = at
		}
		if len(data) > 0 {
			s.recent = data
		}
		s.seq++
		heap.Push(&s.q, &event{at, s.seq, func() {
			if s.cut[key] {
				s.c.Fault("partition drop")
				return
			}
			f := s.recv[to]
			if f == nil {
				s.c.Fault("no listener")
				return
			}
			s.c.LogB(d.Data, "%v deliver #%d.%d %s>%s %s", s.c.now, d.ID, d.Copy, from, to, d.Damaged)
			f(d)
		}})
	}
}

// Run processes events until there are none left or the budget is used up.
func (s *Sim) Run() {
	for len(s.q) > 0 && s.Events < s.MaxEvents {
		e := heap.Pop(&s.q).(*event)
		s.Events++
		if e.at > s.c.now {
			s.c.now = e.at
		}
		e.fn()
	}
}

// DamageBytes damages a datagram the way a broken peer, path or disk does.
func DamageBytes(c *Ctx, b, other []byte) ([]byte, string) {
	t := c.T
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b, ""
	}
	orig := string(b)
	kind := ""
	switch t.Intn(8) {
	case 0:
		kind = "cut"
		b = b[:t.Intn(len(b))]
	case 1:
		kind = "bit flips"
		for k := t.Range(1, 4); k > 0; k-- {
			b[t.Intn(len(b))] ^= 1 << t.Intn(8)
		}
	case 2:
		kind = "bytes overwritten"
		for k := t.Range(1, 3); k > 0; k-- {
			b[t.Intn(len(b))] = interesting(c)
		}
	case 3:
		kind = "bytes lost"
		i := t.Intn(len(b))
		n := t.Range(1, 8)
		if i+n > len(b) {
			n = len(b) - i
		}
		b = append(b[:i], b[i+n:]...)
	case 4:
		kind = "bytes inserted"
		i := t.Intn(len(b) + 1)
		var ins []byte
		for k := t.Range(1, 6); k > 0; k-- {
			ins = append(ins, interesting(c))
		}
		b = append(b[:i], append(ins, b[i:]...)...)
	case 5:
		kind = "zeroed tail"
		for i := t.Intn(len(b)); i < len(b); i++ {
			b[i] = 0
		}
	case 6:
		kind = "stretch repeated"
		i := t.Intn(len(b))
		n := t.Range(1, 40)
		if i+n > len(b) {
			n = len(b) - i
		}
		seg := string(b[i : i+n])
		b = append(b[:i], append([]byte(seg), b[i:]...)...)
	case 7:
		kind = "spliced"
		if len(other) == 0 {
			other = b
		}
		i := t.Intn(len(b))
		j := t.Intn(len(other))
		b = append(append([]byte(nil), b[:i]...), other[j:]...)
	}
	if len(b) > 65507 { // no datagram is longer
		b = b[:65507]
	}
	if string(b) == orig {
		return b, ""
	}
	return b, kind
}

const interestingChars = "\r\n \t\"\\<>;:,@=?&%()[]/*'!.-_~+$0129azAZ\x00\x7f\x80\xff"

func interesting(c *Ctx) byte {
	if c.T.Chance(20) {
		return c.T.U8()
	}
	return interestingChars[c.T.Intn(len(interestingChars))]
}

func hexs(b []byte) string { return fmt.Sprintf("%x", b) }
