package props

import (
	"container/list"
	"net"
	"strconv"

	"verifsim/vsched"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/rtp"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	real := []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core", "rtp"}
	Register(&Prop{
		ID: "C01", Title: "Independent concurrent callers never interfere",
		Race: true, Fresh: 25, Quick: 16000, Thorough: 400000,
		Rule:   "one run lets 2-4 tasks, each with parsers, messages and packets of its own, parse, read, edit, derive, encode and receive under the seeded statement-level scheduler, in a process that is restarted every 25 runs, and compares what each got with what it gets alone; non-trivial when the scheduler preempted a task",
		Real:   real,
		Stub:   []string{"goroutine scheduling (simulated)", "clock and pid (simulated)"},
		Assume: []string{"races are those the Go race detector sees in the simulated schedules"},
		Run:    runIndependent,
	})
	Register(&Prop{
		ID: "C02", Title: "A received message can be read by many goroutines at once",
		Race: true, Fresh: 25, Quick: 16000, Thorough: 400000,
		Rule:   "one run receives a message or packet and lets 2-4 tasks read, encode, clone and derive from it, and edit what they derived, under the seeded statement-level scheduler; every result is compared with what a lone reader gets; non-trivial when the scheduler preempted a task",
		Real:   real,
		Stub:   []string{"goroutine scheduling (simulated)", "clock (simulated)"},
		Assume: []string{"races are those the Go race detector sees in the simulated schedules"},
		Run:    runShared,
	})
}

func bstr(b bool) string {
	if b {
		return "true"
	}
	return "false"
}
func istr(n int) string     { return strconv.Itoa(n) }
func fstr(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// walkObj reads an object and what its accessors yield, depth first.
func walkObj(o interface{}, depth int, arg string, seen map[interface{}]bool, out func(string)) {
	if o == nil || seen[o] || len(seen) > 150 {
		return
	}
	seen[o] = true
	readFlat(o, arg, func(n, v string) { out(n + "=" + v) })
	if l, ok := o.(interface{ Front() *list.Element }); ok {
		n := 0
		for e := l.Front(); e != nil && n < 8; e = e.Next() {
			if s, ok := e.Value.(string); ok {
				out(s)
			} else if depth > 0 {
				walkObj(e.Value, depth-1, arg, seen, out)
			}
			n++
		}
	}
	if depth > 0 {
		readKids(o, func(n string, v interface{}) {
			switch v.(type) {
			case *message.SIPRequest, *message.SIPResponse:
				return
			}
			walkObj(v, depth-1, arg, seen, out)
		})
	}
}

// mop is one predrawn operation of a task.
type mop struct {
	kind int
	data []byte
	s, u string
	n    int
	v    []uint32
	b    bool
}

// user is what one task owns.
type user struct {
	msg  message.Message
	old  []message.Message
	rnd  *rtp.RandomRand48
	coll *rtp.CollisionList
	out  []string
}

func (u *user) say(s string) { u.out = append(u.out, s) }

func (u *user) sayErr(what string, err error) bool {
	if err != nil {
		u.say(what + " error " + err.Error())
		return true
	}
	return false
}

// deriveFrom makes another message out of m.
func deriveFrom(m message.Message, o *mop) message.Message {
	switch x := m.(type) {
	case *message.SIPRequest:
		switch o.n % 7 {
		case 0:
			return x.CreateResponse(100 + o.n%600)
		case 1:
			return x.CreateResponse2(100+o.n%600, o.s)
		case 2:
			return x.CreateCancelRequest()
		case 3:
			to := header.NewTo()
			to.SetAddress(address.NewAddressImpl())
			to.SetTag(o.s)
			return x.CreateAckRequest(to)
		case 4:
			return x.CreateACKRequest()
		case 5:
			return x.CreateBYERequest(o.b)
		default:
			uri := address.NewSipURIImpl()
			uri.SetHostString("next.example")
			return x.CreateSIPRequest(header.NewRequestLineFromString(uri, "OPTIONS"), o.b)
		}
	case *message.SIPResponse:
		uri := address.NewSipURIImpl()
		uri.SetHostString("next.example")
		via := header.NewVia()
		pr := header.NewProtocol()
		pr.SetTransport("UDP")
		via.SetSentProtocol(pr)
		via.SetHostFromString("client.example")
		via.SetBranch("z9hG4bK" + o.s)
		return x.CreateRequest(uri, via, header.NewCSeq(1+o.n%50, []string{"ACK", "BYE", "CANCEL", "INVITE"}[o.n%4]))
	}
	return nil
}

func cloneMsg(m message.Message) message.Message {
	if x, ok := m.(interface{ Clone() interface{} }); ok {
		c, _ := x.Clone().(message.Message)
		return c
	}
	return nil
}

// editMsg changes a message the task owns.
func editMsg(m message.Message, o *mop) {
	s := sipm(m)
	switch o.n % 12 {
	case 0:
		if v := s.GetTopmostVia(); v != nil {
			v.SetBranch("z9hG4bK" + o.s)
			v.SetParameter("received", "192.0.2.9")
		}
	case 1:
		if s.GetFrom() != nil {
			s.SetFromTag(o.s)
		}
	case 2:
		if s.GetTo() != nil {
			s.SetToTag(o.s)
		}
	case 3:
		s.SetMessageContentFromString("text", "plain", o.s)
	case 4:
		s.RemoveContent()
	case 5:
		s.RemoveHeader(o.u)
	case 6:
		if cs, ok := s.GetCSeq().(*header.CSeq); ok && cs != nil {
			cs.SetSequenceNumber(o.n % 1000)
		}
	case 7:
		if r, ok := m.(*message.SIPRequest); ok {
			if u, ok := r.GetRequestURI().(*address.SipURIImpl); ok {
				u.SetHostString("changed.example")
				u.SetParameter("x", o.s)
			}
		}
	case 8:
		if f, ok := s.GetFrom().(*header.From); ok && f != nil {
			if a, ok := f.GetAddress().(*address.AddressImpl); ok && a != nil {
				a.SetDisplayName(o.s)
			}
		}
	case 9:
		if l := s.GetContactHeaders(); l != nil {
			for e := l.Front(); e != nil; e = e.Next() {
				if c, ok := e.Value.(*header.Contact); ok {
					c.SetParameter("expires", "7")
				}
			}
		}
	case 10:
		sub := header.NewSubject()
		sub.SetSubject(o.s)
		s.AddHeader(sub)
	case 11:
		if c := s.GetCallId(); c != nil {
			c.SetCallId(o.s)
		}
	}
}

// parseBit hands a text to one of the parsers for single things.
func (u *user) parseBit(o *mop) {
	p := parser.NewStringMsgParser()
	var r interface{}
	var err error
	switch o.n % 9 {
	case 0:
		r, err = p.ParseAddress(o.s)
	case 1:
		r, err = p.ParseHostPort(o.s)
	case 2:
		r, err = p.ParseHost(o.s)
	case 3:
		r, err = p.ParSetelephoneNumber(o.s)
	case 4:
		r, err = p.ParseSIPUrl(o.s)
	case 5:
		r, err = p.ParseUrl(o.s)
	case 6:
		r, err = p.ParseSIPHeader(o.s)
	case 7:
		r, err = p.ParseSIPRequestLine(o.s)
	case 8:
		r, err = p.ParseSIPStatusLine(o.s)
	}
	if u.sayErr("part", err) {
		return
	}
	walkObj(r, 2, "tag", map[interface{}]bool{}, u.say)
}

func (u *user) packet(o *mop) {
	p := rtp.NewPacket(uint8(o.n&127), o.data, uint16(o.v[0]), o.v[1], o.v[2], o.b, uint8(len(o.v)-3), o.v[3:], o.n&128 != 0, uint16(o.v[0]>>3), uint16(len(o.v)), append([]uint32(nil), o.v...))
	if p == nil {
		u.say("packet refused")
		return
	}
	u.say(string(p.GetPacket()))
	raw := append([]byte(nil), p.GetPacket()...)
	q, err := rtp.NewRTPPacketFromRawPacket(rtp.NewRawPacket(raw, rtp.NewIPAddress(net.IPv4(10, 0, 0, 1), 5004), rtp.CurrentRTPTime(), true))
	if u.sayErr("packet read", err) {
		return
	}
	readPacket(q, u.say)
}

func readPacket(q *rtp.RTPPacket, say func(string)) {
	say(bstr(q.HasExtension()) + bstr(q.HasMarker()) + istr(int(q.GetPayloadType())) + " " + istr(int(q.GetSequenceNumber())) + " " + istr(int(q.GetTimestamp())) + " " + istr(int(q.GetSSRC())))
	say(string(q.GetPayload()))
	say(string(q.GetPacket()))
	for i := 0; i < int(q.GetCSRCCount()); i++ {
		say(istr(int(q.GetCSRC(uint8(i)))))
	}
	if q.HasExtension() {
		say(istr(int(q.GetExtensionID())) + " " + istr(int(q.GetExtensionLength())))
		for _, x := range q.GetExtensionData() {
			say(istr(int(x)))
		}
	}
	if t := q.GetReceiveTime(); t != nil {
		c := t.Clone()
		c.Add(t)
		say(bstr(c.GT(t)) + fstr(float64(c.GetNTPTime().GetMSW())))
	}
}

func (u *user) control(o *mop) {
	var d interface{}
	if o.b {
		b := rtp.NewRTCPBYEPacket(o.data, len(o.data))
		d = b
		for i := 0; i < b.GetSSRCCount(); i++ {
			u.say(istr(int(b.GetSSRC(i))))
		}
	} else {
		d = rtp.NewRTCPAPPPacket(o.data, len(o.data))
	}
	readFlat(d, "", func(n, v string) { u.say(n + "=" + v) })
}

// guard runs f and says how it panicked, if it did; the scheduler's own panics pass.
func (u *user) guard(f func()) {
	defer func() {
		switch r := recover(); r.(type) {
		case nil:
		case vsched.Abort, vsched.Deadlock, vsched.StepLimit:
			panic(r)
		default:
			u.say("panic")
		}
	}()
	f()
}

// descend goes from x down to x itself or something that x offers, or that
// offers, n saying which.
func descend(x interface{}, n int) interface{} {
	h := uint32(n) * 2654435761
	for d := 0; d < 5 && h>>28 != 0; d++ {
		var kids []interface{}
		if l, ok := x.(interface{ Front() *list.Element }); ok {
			for e := l.Front(); e != nil && len(kids) < 20; e = e.Next() {
				if _, ok := e.Value.(string); !ok {
					kids = append(kids, e.Value)
				}
			}
		}
		readKids(x, func(_ string, v interface{}) {
			switch v.(type) {
			case *message.SIPRequest, *message.SIPResponse:
			default:
				kids = append(kids, v)
			}
		})
		if len(kids) == 0 {
			break
		}
		x = kids[int(h>>4&0xffff)%len(kids)]
		h = h*1664525 + 1013904223
	}
	return x
}

// edit changes x, or what it leads to, through up to four of the methods that
// has for it.
func (u *user) edit(x interface{}, o *mop) {
	n := o.n
	top := x
	u.guard(func() { x = descend(top, n) })
	for i := 0; i <= o.n>>7&3; i++ {
		u.guard(func() {
			if fs := editsOf(x, o.s, o.n>>10); len(fs) > 0 {
				fs[n%len(fs)]()
			}
		})
		n = n>>3 ^ n<<5 + 11*i
		if n < 0 {
			n = -n
		}
	}
	u.guard(func() { walkObj(top, 3, o.s, map[interface{}]bool{}, u.say) })
}

// things arguments of editors are made of
func freshURI(s string) address.URI {
	uri := address.NewSipURIImpl()
	uri.SetUser(s)
	uri.SetHostString("fresh.example")
	return uri
}
func freshAddr(s string) address.Address {
	a := address.NewAddressImpl()
	a.SetDisplayName(s)
	a.SetURI(freshURI(s))
	return a
}
func freshParams(s string) *core.NameValueList {
	l := core.NewNameValueList(s)
	l.AddNameAndValue(s, s)
	return l
}
func freshHostPort() *core.HostPort {
	h := core.NewHostPort()
	h.SetHost(core.NewHost("fresh.example"))
	h.SetPort(5062)
	return h
}

// addrs uses the addresses, collisions and times of the media side.
func (u *user) addrs(o *mop) {
	ip := net.IPv4(10, 0, byte(o.n>>4&1), byte(o.n&3))
	if o.n&8 != 0 {
		ip = ip.To4()
	}
	var as = []rtp.Address{rtp.NewIPAddress(ip, 5004), rtp.NewIPAddress(net.IPv4(10, 0, 0, 1), uint16(5004+o.n>>5&1)), rtp.NewHostAddress(o.s, 5004), rtp.NewHostAddress("lr", uint16(5004+o.n>>6&1))}
	if u.coll == nil {
		u.coll = rtp.NewCollisionList()
	}
	for i, a := range as {
		b := as[(i+o.n>>7)&3].Clone()
		u.say(bstr(a.IsSameAddress(b)) + bstr(a.IsFromSameHost(b)) + istr(int(a.GetAddressType())))
		if o.n>>9&7 == 0 {
			u.say(a.String())
		}
		at := rtp.NewRTPTimeFromFloat64(float64(o.n>>10&15) + float64(i))
		is, err := u.coll.UpdateAddress(a, *at)
		u.sayErr("collision", err)
		u.say(bstr(is))
	}
	if o.b {
		u.coll.Timeout(rtp.NewRTPTimeFromFloat64(12), rtp.NewRTPTimeFromFloat64(float64(o.n>>14&15)))
	} else if o.n>>14&7 == 0 {
		u.coll.Clear()
	}
	for _, a := range as {
		u.say(bstr(u.coll.HasAddress(a)))
	}
	x := rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(2208988800+uint32(o.n>>3), uint32(o.n)<<12))
	y := rtp.NewRTPTimeFromFloat64(float64(o.n >> 3))
	u.say(bstr(x.ELT(y)) + bstr(x.EGT(y)) + bstr(x.GT(y)) + istr(int(x.GetNTPTime().GetMSW())))
}

func (u *user) do(o *mop) {
	switch o.kind {
	case 0: // receive
		m, err := parser.NewStringMsgParser().ParseSIPMessageFromByte(append([]byte(nil), o.data...))
		if u.sayErr("message", err) || m == nil {
			return
		}
		u.msg = m
		u.old = append(u.old, m)
	case 1:
		if u.msg != nil {
			u.say(string(bytesOf(u.msg)))
		}
	case 2:
		if u.msg != nil {
			walkObj(u.msg, 1, o.s, map[interface{}]bool{}, u.say)
		}
	case 3:
		if u.msg != nil {
			if h := u.msg.GetHeader(o.u); h != nil {
				walkObj(h, 3, o.s, map[interface{}]bool{}, u.say)
			}
		}
	case 4:
		if u.msg != nil {
			if m := deriveFrom(u.msg, o); m != nil {
				u.say(string(bytesOf(m)))
				u.msg = m
				u.old = append(u.old, m)
			}
		}
	case 5:
		if u.msg != nil {
			editMsg(u.msg, o)
		}
	case 6:
		if u.msg != nil {
			if m := cloneMsg(u.msg); m != nil {
				u.say(string(bytesOf(m)))
				u.msg = m
				u.old = append(u.old, m)
			}
		}
	case 7:
		if u.msg != nil {
			u.say(sipm(u.msg).GetTransactionId())
			switch x := u.msg.(type) {
			case *message.SIPRequest:
				u.say(x.GetDialogId(o.b))
			case *message.SIPResponse:
				u.say(x.GetDialogId(o.b))
			}
		}
	case 8:
		u.parseBit(o)
	case 9:
		u.packet(o)
	case 10:
		u.control(o)
	case 11:
		if u.rnd == nil || o.b {
			u.rnd = rtp.NewRandomRand48FromSeed(uint32(o.n))
		}
		u.say(istr(int(u.rnd.GetRandom32())) + " " + istr(int(u.rnd.GetRandom16())) + " " + istr(int(u.rnd.GetRandom8())) + " " + fstr(u.rnd.GetRandomDouble()))
	case 12:
		if u.coll == nil {
			u.coll = rtp.NewCollisionList()
		}
		a := rtp.NewIPAddress(net.IPv4(10, 0, 0, byte(o.n%5)), 5004)
		now := rtp.CurrentRTPTime()
		is, err := u.coll.UpdateAddress(a, *now)
		u.sayErr("collision", err)
		u.say(bstr(is) + bstr(u.coll.HasAddress(rtp.NewHostAddress("h", 1))) + bstr(u.coll.HasAddress(a)))
	case 13:
		rtp.CheckEndian()
		x := rtp.NewRTPTimeFromFloat64(float64(o.n) / 7)
		y := rtp.CurrentRTPTime()
		y.Sub(x)
		u.say(bstr(x.LT(y)) + istr(int(y.GetNTPTime().GetLSW())))
	case 15: // make or take something and change it
		var x interface{}
		if u.msg != nil && o.b {
			if h := u.msg.GetHeader(o.u); h != nil {
				x = h
			}
		}
		if x == nil {
			x = makers[o.n%len(makers)]()
		}
		u.edit(x, o)
	case 16:
		u.addrs(o)
	case 14:
		for i, m := range u.old { // what was kept is as it was
			u.say(istr(i) + string(bytesOf(m)))
		}
	}
}

func drawOp(c *Ctx, g *G, kinds []int, text func() []byte) mop {
	t := c.T
	o := mop{kind: kinds[t.Intn(len(kinds))], n: t.Intn(1 << 20), b: t.Bool()}
	o.s = t.Of("tag", "branch", "x", "expires", "lr")
	switch o.kind {
	case 0:
		o.data = text()
	case 15:
		o.s = t.Of("tag", "branch", "x", "expires", "lr", "5060", "q", "0.5", "text/html", "sip", "", "MD5", "a b")
		o.u = t.Of("Via", "From", "To", "CSeq", "Contact", "Call-ID", "Max-Forwards", "Content-Type", otherKinds[t.Intn(len(otherKinds))])
	case 1, 2, 3, 4, 5:
		o.u = t.Of("Via", "From", "To", "CSeq", "Contact", "Call-ID", "Route", "Record-Route", "Max-Forwards", "Content-Type", "Allow", "Supported", "Subject", "WWW-Authenticate", "Authorization")
		if t.Chance(30) {
			o.u = otherKinds[t.Intn(len(otherKinds))]
		}
	case 8:
		switch o.n % 9 {
		case 0:
			o.s = canon(g.addr(t.Bool()).tmpl)
		case 1, 2:
			o.s = hostport(g.hostname(), g.port())
		case 3:
			o.s = t.Of("+1-972-555-2222;phone-context=x", "5551212", "+358(9)123")
		case 4:
			o.s = g.sipuri(true, true).text
		case 5:
			o.s = g.uri(true, true).text
		case 6:
			m := g.request(g.method())
			ls := m.lines()
			h := ls[t.Intn(len(ls))]
			o.s = h.name + ": " + canon(h.tmpl) + "\r\n"
		case 7:
			o.s = g.request(g.method()).startLine() + "\r\n"
		case 8:
			o.s = g.response().startLine() + "\r\n"
		}
	case 9:
		o.data = t.Bytes(t.Intn(20))
		for i := t.Range(3, 7); i > 0; i-- {
			o.v = append(o.v, t.U32())
		}
	case 10:
		o.data = rtcpBytes(c, o.b)
	}
	return o
}

// rtcpBytes is a BYE or APP packet, sometimes cut.
func rtcpBytes(c *Ctx, bye bool) []byte {
	t := c.T
	var b []byte
	if bye {
		n := t.Intn(4)
		b = []byte{0x80 | byte(n), 203, 0, 0}
		for i := 0; i < n; i++ {
			b = be32(b, t.U32())
		}
		if n > 0 && t.Bool() {
			b = append(b, 3, 'b', 'y', 'e')
		}
	} else {
		b = be32([]byte{0x80 | byte(t.Intn(32)), 204, 0, 0}, t.U32())
		b = append(b, "TEST"...)
		for i := t.Intn(4); i > 0; i-- {
			b = be32(b, t.U32())
		}
	}
	b[3] = byte(len(b)/4 - 1)
	if t.Chance(15) {
		b = b[:t.Intn(len(b))]
	}
	return b
}

func drawMsg(c *Ctx, g *G) *amsg {
	if c.T.Chance(35) {
		return g.response()
	}
	return g.request(g.method())
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// firstDiff says where two transcripts part.
func firstDiff(a, b []string) (int, string, string) {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return i, x, y
		}
	}
	return -1, "", ""
}

func runIndependent(c *Ctx) {
	t := c.T
	g := NewG(c)
	ntask := t.Range(2, 4)
	kinds := []int{0, 0, 0, 1, 1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 8, 8, 9, 9, 10, 11, 12, 13, 14, 15, 15, 15, 16}
	switch t.Pick(3, 2, 1) {
	case 1:
		kinds = []int{0, 0, 1, 3, 4, 5, 6, 7, 14, 15, 15}
	case 2:
		kinds = []int{9, 9, 10, 11, 12, 13, 16}
	}
	var pool [][]byte
	text := func() []byte {
		if len(pool) > 0 && t.Chance(30) { // two tasks receive the same bytes
			return pool[t.Intn(len(pool))]
		}
		b := drawMsg(c, g).encode(g.style())
		if t.Chance(15) {
			b, _ = damageSIP(c, b, b)
		}
		pool = append(pool, b)
		return b
	}
	progs := make([][]mop, ntask)
	size := 0
	for i := range progs {
		for k := t.Range(1, 6); k > 0; k-- {
			progs[i] = append(progs[i], drawOp(c, g, kinds, text))
		}
		if progs[i][0].kind < 8 && progs[i][0].kind > 0 {
			progs[i][0] = mop{kind: 0, data: text()}
		}
	}
	for i := range progs {
		for k := range progs[i] {
			o := &progs[i][k]
			size += len(o.data) + 2000
			c.LogB(o.data, "task %d op %d: kind %d %q %q %d %v", i, k, o.kind, o.s, o.u, o.n, o.b)
		}
	}
	users := make([]*user, ntask)
	var tasks []func()
	for i := range progs {
		u, prog := &user{}, progs[i]
		users[i] = u
		tasks = append(tasks, func() {
			for k := range prog {
				u.do(&prog[k])
			}
		})
	}
	c.RunTasks(20*Bound(size), tasks)
	for i, prog := range progs {
		u := &user{}
		if v := c.Try("the same alone", 20*Bound(size), func() {
			for k := range prog {
				u.do(&prog[k])
			}
		}); v != nil {
			c.Fail("only-alone:"+v.Class, "task %d: %s, though not when it ran with others", i, v.Msg)
		}
		if k, a, b := firstDiff(users[i].out, u.out); k >= 0 {
			c.Fail("interference", "task %d got, besides others, at %d\n %q\nand alone\n %q", i, k, short(a), short(b))
		}
		c.Probe("compared with a lone run")
	}
}

// ---- C02 a shared message

func runShared(c *Ctx) {
	t := c.T
	g := NewG(c)
	if t.Chance(15) {
		runSharedPacket(c)
		return
	}
	m := drawMsg(c, g)
	data := m.encode(g.style())
	if t.Chance(10) {
		data, _ = damageSIP(c, data, data)
	}
	c.LogB(data, "received")
	var shared message.Message
	var err error
	shared, err = parseMsg(c, parser.NewStringMsgParser(), append([]byte(nil), data...))
	if err != nil || shared == nil {
		c.Probe("rejected")
		return
	}
	var names []string
	for _, h := range m.lines() {
		names = append(names, h.name)
	}
	ntask := t.Range(2, 4)
	progs := make([][]mop, ntask)
	for i := range progs {
		for k := t.Range(1, 5); k > 0; k-- {
			o := mop{kind: t.Intn(9), n: t.Intn(1 << 20), b: t.Bool(), s: t.Of("tag", "branch", "received", "x", "lr"), u: names[t.Intn(len(names))]}
			progs[i] = append(progs[i], o)
			c.Log("task %d op %d: kind %d %q %q %d %v", i, k, o.kind, o.s, o.u, o.n, o.b)
		}
	}
	read := func(u *user, m message.Message, prog []mop) {
		var mine message.Message
		for k := range prog {
			o := &prog[k]
			switch o.kind {
			case 0:
				u.say(string(bytesOf(m)))
			case 1:
				walkObj(m, 1, o.s, map[interface{}]bool{}, u.say)
			case 2, 3:
				h := m.GetHeader(o.u)
				if o.b {
					h = nil
					if l := m.GetHeaders(o.u); l != nil {
						walkObj(l, 3, o.s, map[interface{}]bool{}, u.say)
					}
				}
				if h != nil {
					walkObj(h, 4, o.s, map[interface{}]bool{}, u.say)
				}
			case 4:
				mine = deriveFrom(m, o)
				u.say(string(bytesOf(mine)))
			case 5:
				mine = cloneMsg(m)
				if mine != nil {
					u.say(string(bytesOf(mine)))
				}
			case 6:
				if mine == nil {
					mine = deriveFrom(m, o)
				}
				editMsg(mine, o)
				u.say(string(bytesOf(mine)))
			case 8: // copy a header and change the copy
				if h, ok := m.GetHeader(o.u).(interface{ Clone() interface{} }); ok {
					u.edit(h.Clone(), o)
				}
			case 7:
				u.say(sipm(m).GetTransactionId())
				switch x := m.(type) {
				case *message.SIPRequest:
					u.say(x.GetDialogId(o.b))
					u.say(x.GetDialogId2(o.b, "t"))
					walkObj(x.GetRequestURI(), 3, o.s, map[interface{}]bool{}, u.say)
				case *message.SIPResponse:
					u.say(x.GetDialogId(o.b))
					u.say(x.GetDialogId2(o.b, "t"))
				}
			}
		}
	}
	users := make([]*user, ntask)
	var tasks []func()
	for i := range progs {
		u, prog := &user{}, progs[i]
		users[i] = u
		tasks = append(tasks, func() { read(u, shared, prog) })
	}
	bound := 100 * Bound(len(data)+1000)
	c.RunTasks(bound, tasks)
	for i, prog := range progs {
		u := &user{}
		lone, err := parseMsg(c, parser.NewStringMsgParser(), append([]byte(nil), data...))
		if err != nil || lone == nil {
			c.Fail("other-outcome", "the same bytes parsed once and not again (%v): %q", err, data)
		}
		if v := c.Try("the same alone", bound, func() { read(u, lone, prog) }); v != nil {
			c.Fail("only-alone:"+v.Class, "task %d: %s, though not when it ran with others", i, v.Msg)
		}
		if k, a, b := firstDiff(users[i].out, u.out); k >= 0 {
			c.Fail("interference", "task %d read, besides others, at %d\n %q\nand alone\n %q", i, k, short(a), short(b))
		}
		c.Probe("compared with a lone reader")
	}
	fresh, _ := parseMsg(c, parser.NewStringMsgParser(), append([]byte(nil), data...))
	if a, b := string(encodeMsg(c, shared)), string(encodeMsg(c, fresh)); a != b {
		c.Fail("changed", "after being read the message is %q, was %q", a, b)
	}
}

func runSharedPacket(c *Ctx) {
	t := c.T
	kind := t.Intn(3)
	var pk *rtp.RTPPacket
	var bye *rtp.RTCPBYEPacket
	var app *rtp.RTCPAPPPacket
	var data []byte
	mk := func() {
		pk, bye, app = nil, nil, nil
		switch kind {
		case 0:
			pk, _ = recv(c, append([]byte(nil), data...), true, rtp.NewRTPTimeFromFloat64(1000))
		case 1:
			c.Lib("RTCP", 0, func() { bye = rtp.NewRTCPBYEPacket(append([]byte(nil), data...), len(data)) })
		case 2:
			c.Lib("RTCP", 0, func() { app = rtp.NewRTCPAPPPacket(append([]byte(nil), data...), len(data)) })
		}
	}
	if kind == 0 {
		data = genRTP(c, t.U16(), t.U32(), t.U32()).encode()
	} else {
		data = rtcpBytes(c, kind == 1)
	}
	c.LogB(data, "received packet kind %d", kind)
	mk()
	ntask := t.Range(2, 4)
	read := func(u *user, pk *rtp.RTPPacket, bye *rtp.RTCPBYEPacket, app *rtp.RTCPAPPPacket) {
		if pk != nil {
			readPacket(pk, u.say)
		}
		if bye != nil {
			readFlat(bye, "", func(n, v string) { u.say(n + "=" + v) })
			for i := 0; i < bye.GetSSRCCount(); i++ {
				u.say(istr(int(bye.GetSSRC(i))))
			}
		}
		if app != nil {
			readFlat(app, "", func(n, v string) { u.say(n + "=" + v) })
		}
	}
	users := make([]*user, ntask)
	var tasks []func()
	for i := 0; i < ntask; i++ {
		u := &user{}
		users[i] = u
		pk, bye, app := pk, bye, app
		tasks = append(tasks, func() { read(u, pk, bye, app) })
	}
	c.RunTasks(2000000, tasks)
	mk()
	ref := &user{}
	c.Lib("the same alone", 0, func() { read(ref, pk, bye, app) })
	for i := range users {
		if k, a, b := firstDiff(users[i].out, ref.out); k >= 0 {
			c.Fail("interference", "task %d read, besides others, at %d %q and alone %q", i, k, short(a), short(b))
		}
	}
	c.Probe("shared packet compared")
}
