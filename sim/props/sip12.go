package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	Register(&Prop{
		ID: "C23", Title: "Subscribers and notifiers agree on every subscription and its state",
		Quick: 10000, Thorough: 500000,
		Rule:   "one run has 1-3 subscribers keep up to three subscriptions each, some of them in one dialog, with a notifier that refuses, lowers, ends and forgets, restarts from what it stored, and notifies of versions, over a lossy, reordering, duplicating network; non-trivial when a notification arrived or a fault struck",
		Real:   []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub:   []string{"network and clock (simulated)", "subscriber, notifier and storage logic (harness)"},
		Assume: []string{"the harness follows RFC 3265 in which notification or refresh belongs to which subscription"},
		Run:    runSubscribe,
	})
}

// evRange is an element of Accept.
type evRange struct {
	typ, sub string
	q        string
}

// evSays is what a message of the event framework means.
type evSays struct {
	code    int // of a response
	pkg, id string
	extra   string // generic parameter of Event or Subscription-State
	expires int    // Expires header, -1: none
	min     int
	accept  []evRange
	allow   []string
	state   string
	reason  string
	retry   int
	left    int // expires parameter
	ctype   string
	body    string
	seq     int
}

func newSays() *evSays { return &evSays{expires: -1, min: -1, retry: -1, left: -1} }

func (s *evSays) String() string { return fmt.Sprintf("%+v", *s) }

// evDialog is a dialog as it is, known to the simulator only, but for the keys.
type evDialog struct {
	ag         *evAgent
	callid     string
	ltag, rtag string // the subscriber's and the notifier's
	lseq       int    // last SUBSCRIBE
	rseq       int    // last NOTIFY that the subscriber took
	nseq       int    // last NOTIFY sent
	key        string // as the library names it at the subscriber
	subs       []*evSub
	from, to   aaddr
	contact    aaddr
}

type evSub struct {
	want    *evWant
	d       *evDialog
	state   string // trying, on, off
	tx      int    // of the SUBSCRIBE that waits for an answer
	version int
	ev      *header.Event
	exp     int
	last    *message.SIPRequest
}

type evWant struct {
	ag      *evAgent
	pkg, id string
	expires int
	accept  []evRange
	dead    bool // refused for good
	banned  bool // by the end of a subscription
	sub     *evSub
}

type evAgent struct {
	name  string
	api   bool
	wants []*evWant
	done  map[string][]byte // NOTIFYs answered, by the library's transaction id
	known map[int]*evMeta   // the same, by the simulator's, with the answers
	tag   int
}

// evEntry is a subscription at the notifier.
type evEntry struct {
	sub   *evSub // the simulator's
	key   string // dialog
	ev    *header.Event
	from  *header.From // as in its NOTIFYs
	to    *header.To
	uri   address.URI
	call  string
	seq   int // last SUBSCRIBE
	until time.Duration
	typ   evRange
	state string
	last  *message.SIPRequest
	disk  [6]string
	dead  bool
}

type evMeta struct {
	sub  *evSub
	tx   int
	says *evSays
	more bool // the SUBSCRIBE has a To tag
}

// pick chooses the body type.
func pickType(have []evRange, want []evRange) (r *evRange) {
	if len(want) == 0 {
		return &have[0]
	}
	best := float32(0)
	for i := range have {
		q, spec := float32(0), -1
		for _, w := range want {
			s := -1
			switch {
			case w.typ == "*" && w.sub == "*":
				s = 0
			case strings.EqualFold(w.typ, have[i].typ) && w.sub == "*":
				s = 1
			case strings.EqualFold(w.typ, have[i].typ) && strings.EqualFold(w.sub, have[i].sub):
				s = 2
			}
			if s > spec {
				spec, q = s, 1
				if w.q != "" {
					q = qOf(w.q)
				}
			}
		}
		if q > best {
			best, r = q, &have[i]
		}
	}
	return
}

// evTx is a NOTIFY that waits for its answer.
type evTx struct {
	e    *evEntry
	meta *evMeta
	id   string
	done bool
}

// own parses what a node sends, for its own use.
func (a *app) own(b []byte) message.Message {
	m, err := parseMsg(a.c, parser.NewStringMsgParser(), append([]byte(nil), b...))
	if err != nil || m == nil {
		a.c.Fail("rejected", "a valid message is rejected (%v): %q", err, b)
	}
	return m
}

func runSubscribe(c *Ctx) {
	t := c.T
	a := newApp(c)
	g, net := a.g, a.net
	const nhost = "notifier.example.com"
	packages := []string{"presence", "presence.winfo", "dialog", "message-summary"}
	have := packages[:t.Range(1, 4)]
	types := []evRange{{"application", "pidf+xml", ""}, {"text", "plain", ""}, {"application", "xml", ""}}[:t.Range(1, 3)]
	minExp := t.Of1(60, 60, 300)
	maxExp := t.Of1(600, 3600)
	version := map[string]int{}
	for _, p := range packages {
		version[p] = 1
	}
	foreign := t.Chance(40) // the notifier writes its NOTIFYs itself
	const heal = 420 * time.Second
	net.MaxEvents = 20000
	stop := false
	ntx := 0

	// ---- reading
	var read func(m message.Message, keep []byte) *evSays
	read = func(m message.Message, keep []byte) (s *evSays) {
		s = newSays()
		c.Lib("reading", 0, func() {
			sm := sipm(m)
			if r, ok := m.(*message.SIPResponse); ok {
				s.code = r.GetStatusCode()
			}
			s.seq = sm.GetCSeqNumber()
			if h, ok := sm.GetHeader(core.SIPHeaderNames_EVENT).(*header.Event); ok {
				s.pkg, s.id, s.extra = h.GetEventType(), h.GetEventId(), h.GetParameter("x-n")
			}
			if h := sm.GetExpires(); h != nil {
				s.expires = h.GetExpires()
			}
			if h, ok := sm.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires); ok {
				s.min = h.GetExpires()
			}
			if l := sm.GetHeaders(core.SIPHeaderNames_ACCEPT); l != nil && sm.HasHeader(core.SIPHeaderNames_ACCEPT) {
				for e := l.Front(); e != nil; e = e.Next() {
					h := e.Value.(*header.Accept)
					r := evRange{typ: h.GetContentType(), sub: h.GetContentSubType()}
					if h.HasQValue() {
						r.q = fmt.Sprint(h.GetQValue())
					}
					if h.AllowsAllContentTypes() != (r.typ == "*") || h.AllowsAllContentSubTypes() != (r.sub == "*") {
						c.Fail("accept:all", "what %+v allows is told wrongly: %q", r, keep)
					}
					s.accept = append(s.accept, r)
				}
			}
			if l := sm.GetHeaders(core.SIPHeaderNames_ALLOW_EVENTS); l != nil && sm.HasHeader(core.SIPHeaderNames_ALLOW_EVENTS) {
				for e := l.Front(); e != nil; e = e.Next() {
					s.allow = append(s.allow, e.Value.(*header.AllowEvents).GetEventType())
				}
			}
			if h, ok := sm.GetHeader(core.SIPHeaderNames_SUBSCRIPTION_STATE).(*header.SubscriptionState); ok {
				s.state, s.reason, s.retry, s.left = h.GetState(), h.GetReasonCode(), h.GetRetryAfter(), h.GetExpires()
				s.extra += "/" + h.GetParameter("x-n")
			}
			if h := sm.GetContentTypeHeader(); h != nil {
				s.ctype = h.GetContentType() + "/" + h.GetContentSubType()
			}
			s.body = sm.GetContent()
		})
		return
	}
	check := func(who string, got, want *evSays, keep []byte) {
		w := *want
		w.accept = nil
		for _, r := range want.accept {
			if r.q != "" {
				r.q = fmt.Sprint(qOf(r.q))
			}
			w.accept = append(w.accept, r)
		}
		if got.String() != w.String() {
			c.Fail("read:"+who, "%s reads %v, meant was %v: %q", who, got, &w, keep)
		}
	}

	// ---- the notifier
	var entries []*evEntry
	libDone, done := map[string][]byte{}, map[int]*evMeta{}
	var waiting []*evTx
	graves, dead := map[string]bool{}, map[*evDialog]bool{}
	live := func() (l []*evEntry) {
		for _, e := range entries {
			if !e.dead {
				l = append(l, e)
			}
		}
		return
	}
	bury := func(e *evEntry) {
		e.dead = true
		entries = live()
	}
	store := func(e *evEntry) {
		c.Lib("storing", 0, func() {
			e.disk = [6]string{e.ev.String(), e.from.String(), e.to.String(), e.uri.String(), e.call, e.key}
			for i := 0; i < 3; i++ {
				e.disk[i] = strings.TrimSpace(e.disk[i]) + "\n"
			}
		})
	}
	restart := func() {
		c.Fault("notifier restart")
		a.node["not"] = nil
		libDone, done, waiting = map[string][]byte{}, map[int]*evMeta{}, nil
		for _, e := range entries {
			c.Lib("reading what was stored", 0, func() {
				e.last = nil
				h, err := parser.NewEventParser(e.disk[0]).Parse()
				a.must("stored Event", err)
				e.ev = h.(*header.Event)
				h, err = parser.NewFromParser(e.disk[1]).Parse()
				a.must("stored From", err)
				e.from = h.(*header.From)
				h, err = parser.NewToParser(e.disk[2]).Parse()
				a.must("stored To", err)
				e.to = h.(*header.To)
				e.uri = mkURI(c, e.disk[3])
				e.call, e.key = e.disk[4], e.disk[5]
			})
		}
	}
	notify := func(e *evEntry, reason string, retry int) {
		s := newSays()
		s.pkg, s.id = e.sub.want.pkg, e.sub.want.id
		s.state, s.reason, s.retry = e.state, reason, retry
		if left := int((e.until - c.now + time.Second - 1) / time.Second); e.state != "terminated" && t.Chance(80) {
			s.left = left
		}
		nx := t.Of("", "", "5", "a.b")
		s.extra = "/" + nx
		e.sub.d.nseq++
		s.seq = e.sub.d.nseq
		if e.state == "active" {
			s.ctype = e.typ.typ + "/" + e.typ.sub
			s.body = fmt.Sprintf("v=%d\r\n%s", version[s.pkg], t.Of("", "\r\n", "<é>\r\n\r\n", "x"))
		}
		ntx++
		meta := &evMeta{sub: e.sub, tx: ntx, says: s}
		branch := cookie + g.uniq("n")
		var b []byte
		d := e.sub.d
		if foreign {
			m := a.slim("NOTIFY", auri{text: d.contact.uri.text}, nhost, d.callid, s.seq, d.to, d.from)
			m.from.tag, m.from.tmpl = d.rtag, d.to.tmpl+"\x01;\x01tag\x01=\x01"+d.rtag
			m.vias[0].branch = branch
			ev := s.pkg
			if s.id != "" {
				ev += "\x01;\x01id\x01=\x01" + s.id
			}
			ss := s.state
			var ps []string
			if s.reason != "" {
				ps = append(ps, "reason\x01=\x01"+s.reason)
			}
			if s.left >= 0 {
				ps = append(ps, "expires\x01=\x01"+strconv.Itoa(s.left))
			}
			if s.retry >= 0 {
				ps = append(ps, "retry-after\x01=\x01"+strconv.Itoa(s.retry))
			}
			if nx != "" {
				ps = append(ps, "x-n\x01=\x01"+nx)
			}
			if t.Bool() {
				for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
					ps[i], ps[j] = ps[j], ps[i]
				}
			}
			for _, p := range ps {
				ss += "\x01;\x01" + p
			}
			m.hdrs = []ahdr{{"Event", ev}, {"Subscription-State", ss}}
			if s.body != "" {
				m.ctype, m.body = strings.Replace(s.ctype, "/", "\x01/\x01", 1), []byte(s.body)
			}
			b = m.encode(g.style())
		} else {
			c.Lib("building a NOTIFY", 0, func() {
				r := e.last
				if r != nil && t.Bool() {
					c.Probe("NOTIFY edited in place")
					a.must("CSeq", r.GetCSeq().SetSequenceNumber(s.seq))
					a.must("branch", r.GetTopmostVia().SetBranch(branch))
				} else {
					r = message.NewSIPRequest()
					r.SetMethod("NOTIFY")
					r.SetRequestURI(e.uri.Clone().(address.URI))
					r.AddHeader(mkVia(c, avia{transport: "UDP", host: nhost, branch: branch}))
					r.SetFrom(e.from.Clone().(*header.From))
					r.SetTo(e.to.Clone().(*header.To))
					id, err := header.NewCallID(e.call)
					a.must("Call-ID", err)
					r.SetCallId(id)
					r.SetCSeq(header.NewCSeq(s.seq, "NOTIFY"))
					r.SetHeader(e.ev.Clone().(*header.Event))
					mf := header.NewMaxForwards()
					a.must("Max-Forwards", mf.SetMaxForwards(70))
					r.SetMaxForwards(mf)
				}
				e.last = r
				ss := header.NewSubscriptionState()
				if h, ok := r.GetHeader(core.SIPHeaderNames_SUBSCRIPTION_STATE).(*header.SubscriptionState); ok && h.GetReasonCode() == "" && (h.GetExpires() < 0 || s.left >= 0) && h.GetParameter("x-n") == "" && t.Bool() {
					ss = h
					c.Probe("state edited in place")
				} else {
					r.SetHeader(ss)
				}
				a.must("state", ss.SetState(s.state))
				if s.reason != "" {
					a.must("reason", ss.SetReasonCode(s.reason))
				}
				if s.retry >= 0 {
					a.must("retry-after", ss.SetRetryAfter(s.retry))
				}
				if s.left >= 0 {
					a.must("expires", ss.SetExpires(s.left))
				}
				if nx != "" {
					a.must("x-n", ss.SetParameter("x-n", nx))
				}
				if s.body != "" {
					ct := header.NewContentType()
					ct.SetContentType(e.typ.typ)
					ct.SetContentSubType(e.typ.sub)
					if t.Bool() {
						r.SetContent(s.body, ct)
					} else {
						r.SetContent([]byte(s.body), ct)
					}
				} else {
					r.RemoveContent()
				}
			})
			b = encodeMsg(c, e.last)
		}
		tx := &evTx{e: e, meta: meta}
		tx.id = txid(c, a.own(b))
		waiting = append(waiting, tx)
		var again func(n int, wait time.Duration)
		again = func(n int, wait time.Duration) {
			if tx.done {
				return
			}
			gone := true
			for _, x := range waiting {
				gone = gone && x != tx
			}
			if gone { // forgotten in a restart
				return
			}
			a.send("not", e.sub.d.ag.name, b, meta)
			if n > 0 {
				net.At(wait, func() { again(n-1, 2*wait) })
			} else {
				net.At(4*time.Second, func() {
					if !tx.done && !e.dead {
						c.Probe("notification unanswered")
						bury(e)
					}
				})
			}
		}
		again(4, 500*time.Millisecond)
	}
	end := func(e *evEntry, reason string, retry int) {
		e.state = "terminated"
		notify(e, reason, retry)
		graves[e.call+"|"+e.to.GetTag()], dead[e.sub.d] = true, true
		bury(e)
	}
	expire := func() {
		for _, e := range live() {
			if e.until <= c.now {
				c.Probe("subscription timed out")
				end(e, "timeout", -1)
			}
		}
	}
	answer := func(req *message.SIPRequest, from string, meta *evMeta, s *evSays, tag string) {
		var resp *message.SIPResponse
		s.seq = meta.says.seq
		id := txid(c, req)
		c.Lib("answering", 0, func() {
			resp = req.CreateResponse(s.code)
			if tag != "" && !meta.more {
				resp.SetToTag(tag)
			}
			if s.expires >= 0 {
				x := header.NewExpires()
				a.must("Expires", x.SetExpires(s.expires))
				resp.SetExpires(x)
			}
			if s.min >= 0 {
				x := header.NewMinExpires()
				a.must("Min-Expires", x.SetExpires(s.min))
				resp.AddHeader(x)
			}
			for _, p := range s.allow {
				x := header.NewAllowEvents()
				a.must("Allow-Events", x.SetEventType(p))
				resp.AddHeader(x)
			}
			for _, r := range s.accept {
				x := header.NewAccept()
				x.SetContentType(r.typ)
				x.SetContentSubType(r.sub)
				resp.AddHeader(x)
			}
			if s.code/100 == 2 {
				x := header.NewContact()
				x.SetAddress(mkAddr(c, "sip:"+nhost))
				resp.AddHeader(x)
			}
		})
		b := encodeMsg(c, resp)
		m := &evMeta{sub: meta.sub, tx: meta.tx, says: s}
		libDone[id], done[meta.tx] = b, m
		a.send("not", from, b, m)
	}
	subscribe := func(d *Dgram, meta *evMeta) {
		req, keep := a.readRequest("not", d.Data)
		id := txid(c, req)
		b, ok := libDone[id]
		if m := done[meta.tx]; ok != (m != nil) {
			c.Fail("retransmission", "a SUBSCRIBE that is known (%v) is taken for one that is not, or the other way round: %q", m != nil, keep)
		} else if ok {
			c.Probe("retransmission recognised")
			a.send("not", d.From, b, m)
			return
		}
		s := read(req, keep)
		check("notifier", s, meta.says, keep)
		var key, half, tag string
		var ev *header.Event
		c.Lib("GetTag", 0, func() {
			tag = req.GetTo().GetTag()
			half = req.GetCallIdentifier() + "|" + req.GetFrom().GetTag()
			ev = req.GetHeader(core.SIPHeaderNames_EVENT).(*header.Event)
		})
		if (tag != "") != meta.more {
			c.Fail("to tag", "To has a tag %v, want %v: %q", tag != "", meta.more, keep)
		}
		// which subscription
		var e, truth *evEntry
		var mates, mateTruth bool
		if meta.more {
			key = dialogID(c, req, true)
		}
		c.Lib("Match", 0, func() {
			for _, x := range entries {
				mine := x.key == key
				if key == "" {
					mine = x.call+"|"+x.to.GetTag() == half
				}
				mates = mates || mine
				mateTruth = mateTruth || x.sub.d == meta.sub.d
				if mine && x.ev.Match(ev) {
					e = x
				}
				if x.sub.d == meta.sub.d && x.sub.want == meta.sub.want {
					truth = x
				}
			}
		})
		if e != truth || mates != mateTruth {
			c.Fail("match:SUBSCRIBE", "a SUBSCRIBE for %s id=%q belongs to a subscription %v in a dialog %v, found %v and %v: %q", meta.sub.want.pkg, meta.sub.want.id, truth != nil, mateTruth, e != nil, mates, keep)
		}
		if e != nil {
			e.sub = meta.sub
		}
		r := newSays()
		switch {
		case e != nil && s.seq == e.seq: // known from before a restart
			r.code, r.expires = 200, int((e.until-c.now+time.Second-1)/time.Second)
			answer(req, d.From, meta, r, e.from.GetTag())
			return
		case !meta.more && graves[half] != dead[meta.sub.d]:
			c.Fail("match:half", "a subscription is over (%v), but taken for one that is not, or the other way round: %q", dead[meta.sub.d], keep)
		case meta.more && !mates, graves[half] && !meta.more:
			r.code = 481
			answer(req, d.From, meta, r, "x")
			return
		case !meta.more && mates:
			r.code = 500
			answer(req, d.From, meta, r, "x")
			return
		}
		for _, x := range entries {
			if x.sub.d == meta.sub.d && s.seq <= x.seq {
				r.code = 500
				answer(req, d.From, meta, r, "x")
				return
			}
		}
		known := false
		for _, p := range have {
			known = known || p == s.pkg
		}
		typ := pickType(types, s.accept)
		exp := s.expires
		if exp < 0 {
			exp = 3600
		}
		if exp > maxExp {
			exp = maxExp
		}
		switch {
		case !known:
			r.code, r.allow = 489, append([]string(nil), have...)
		case typ == nil:
			r.code = 406
			for _, x := range types {
				r.accept = append(r.accept, x)
			}
		case exp > 0 && exp < minExp:
			r.code, r.min = 423, minExp
		default:
			r.code, r.expires = 200, exp
		}
		if r.code != 200 {
			answer(req, d.From, meta, r, "x")
			return
		}
		if e == nil {
			e = &evEntry{sub: meta.sub, state: "active"}
			if c.now < heal && t.Chance(30) {
				e.state = "pending"
			}
			if meta.sub.d.rtag == "" {
				meta.sub.d.rtag = g.uniq("nt")
			}
			c.Lib("a new subscription", 0, func() {
				e.ev = ev.Clone().(*header.Event)
				e.ev.RemoveParameter("x-n")
				e.call = req.GetCallIdentifier()
				e.from, e.to = header.NewFrom(), header.NewTo()
				e.from.CloneTo(req.GetTo().(*header.To))
				e.to.CloneFrom(req.GetFrom().(*header.From))
				if !meta.more {
					a.must("From tag", e.from.SetTag(meta.sub.d.rtag))
				}
				e.key = dialogID2(c, req, true, meta.sub.d.rtag)
				if meta.more && e.key != key {
					c.Fail("dialog id", "GetDialogId is %q, GetDialogId2 %q: %q", key, e.key, keep)
				}
			})
			entries = append(entries, e)
		}
		for _, x := range entries { // one dialog, one order of requests, one target
			if x.sub.d == meta.sub.d {
				x.seq = s.seq
			}
		}
		c.Lib("target refresh", 0, func() {
			l := req.GetContactHeaders()
			if l == nil || l.Len() != 1 {
				c.Fail("contact", "the Contact of a SUBSCRIBE is lost: %q", keep)
			}
			e.uri = l.Front().Value.(*header.Contact).GetAddress().GetURI()
		})
		if u := nuri(e.uri.String()); u != nuri(meta.sub.d.contact.uri.text) {
			c.Fail("contact", "the Contact is %q, want %q: %q", u, meta.sub.d.contact.uri.text, keep)
		}
		e.typ, e.until = *typ, c.now+time.Duration(exp)*time.Second
		store(e)
		c.Nontriv = true
		c.Count("subscriptions")
		answer(req, d.From, meta, r, e.from.GetTag())
		if exp == 0 {
			end(e, "timeout", -1)
			return
		}
		notify(e, "", -1)
	}
	net.Listen("not", func(d *Dgram) {
		if !stop && t.Chance(3) {
			restart()
		}
		expire()
		meta := d.Meta.(*evMeta)
		if meta.says.code == 0 {
			subscribe(d, meta)
			return
		}
		resp, keep := a.readResponse("not", d.Data)
		id := txid(c, resp)
		var tx, truth *evTx
		for _, x := range waiting {
			if x.id == id {
				tx = x
			}
			if x.meta.tx == meta.tx {
				truth = x
			}
		}
		if tx != truth {
			c.Fail("match:response", "the answer to a NOTIFY finds the NOTIFY %v, want %v: %q", tx != nil, truth != nil, keep)
		}
		if tx == nil || tx.done {
			return
		}
		tx.done = true
		s := read(resp, keep)
		check("notifier", s, meta.says, keep)
		if s.code == 481 && !tx.e.dead {
			c.Probe("notified one who left")
			bury(tx.e)
		}
	})

	// ---- subscribers
	var transmit func(s *evSub, exp int)
	var begin func(w *evWant)
	leave := func(s *evSub) {
		s.state = "off"
		if s.want.sub == s {
			s.want.sub = nil
		}
	}
	later := func(w *evWant, d time.Duration) {
		net.At(d, func() {
			if !stop && !w.dead && w.sub == nil {
				begin(w)
			}
		})
	}
	transmit = func(s *evSub, exp int) {
		d, w := s.d, s.want
		d.lseq++
		ntx++
		s.tx, s.exp = ntx, exp
		says := newSays()
		says.seq, says.pkg, says.id, says.expires, says.accept = d.lseq, w.pkg, w.id, exp, w.accept
		says.extra = t.Of("", "", "7", "x.y")
		meta := &evMeta{sub: s, tx: s.tx, says: says, more: d.key != ""}
		branch := cookie + g.uniq("s")
		var b []byte
		if w.ag.api {
			c.Lib("building a SUBSCRIBE", 0, func() {
				m := a.slim("SUBSCRIBE", auri{text: "sip:" + nhost}, w.ag.name+".example.net", d.callid, d.lseq, d.from, d.to)
				m.vias[0].branch = branch
				if meta.more {
					m.to.tag = d.rtag
				}
				r := s.last
				if r == nil || t.Bool() {
					r = a.build(m)
					x := header.NewContact()
					x.SetAddress(mkAddr(c, d.contact.uri.text))
					r.AddHeader(x)
				} else {
					c.Probe("SUBSCRIBE edited in place")
					a.must("CSeq", r.GetCSeq().SetSequenceNumber(d.lseq))
					a.must("branch", r.GetTopmostVia().SetBranch(branch))
					if meta.more {
						a.must("To tag", r.GetTo().SetTag(d.rtag))
					}
				}
				s.last = r
				if h, ok := r.GetHeader(core.SIPHeaderNames_EVENT).(*header.Event); ok && t.Bool() {
					h.RemoveParameter("x-n")
					if says.extra != "" {
						a.must("x-n", h.SetParameter("x-n", says.extra))
					}
				} else {
					h = s.ev.Clone().(*header.Event)
					if says.extra != "" {
						a.must("x-n", h.SetParameter("x-n", says.extra))
					}
					r.SetHeader(h)
				}
				r.RemoveHeader(core.SIPHeaderNames_EXPIRES)
				if exp >= 0 {
					x := header.NewExpires()
					a.must("Expires", x.SetExpires(exp))
					r.SetExpires(x)
				}
				if !r.HasHeader(core.SIPHeaderNames_ACCEPT) {
					for _, y := range w.accept {
						x := header.NewAccept()
						x.SetContentType(y.typ)
						x.SetContentSubType(y.sub)
						if y.q != "" {
							a.must("q", x.SetQValue(qOf(y.q)))
						}
						r.AddHeader(x)
					}
				}
			})
			b = encodeMsg(c, s.last)
		} else {
			m := a.slim("SUBSCRIBE", auri{text: "sip:" + nhost}, w.ag.name+".example.net", d.callid, d.lseq, d.from, d.to)
			m.vias[0].branch = branch
			if meta.more {
				m.to.tag, m.to.tmpl = d.rtag, m.to.tmpl+"\x01;\x01tag\x01=\x01"+d.rtag
			}
			m.contacts = []aaddr{d.contact}
			ev := w.pkg
			ps := []string{}
			if w.id != "" {
				ps = append(ps, "id\x01=\x01"+w.id)
			}
			if says.extra != "" {
				ps = append(ps, "x-n\x01=\x01"+says.extra)
			}
			if len(ps) == 2 && t.Bool() {
				ps[0], ps[1] = ps[1], ps[0]
			}
			for _, p := range ps {
				ev += "\x01;\x01" + p
			}
			m.hdrs = append(m.hdrs, ahdr{"Event", ev})
			if exp >= 0 {
				m.hdrs = append(m.hdrs, ahdr{"Expires", "\x03" + strconv.Itoa(exp)})
			}
			var l []string
			for _, y := range w.accept {
				x := y.typ + "\x01/\x01" + y.sub
				if y.q != "" {
					x += "\x01;\x01q\x01=\x01" + y.q
				}
				if len(l) > 0 && t.Bool() {
					l[len(l)-1] += "\x01,\x01" + x
				} else {
					l = append(l, x)
				}
			}
			for _, x := range l {
				m.hdrs = append(m.hdrs, ahdr{"Accept", x})
			}
			b = m.encode(g.style())
		}
		tx := s.tx
		var again func(n int, wait time.Duration)
		again = func(n int, wait time.Duration) {
			if s.tx != tx {
				return
			}
			a.send(w.ag.name, "not", b, meta)
			if n > 0 {
				net.At(wait, func() { again(n-1, 2*wait) })
			} else {
				net.At(4*time.Second, func() {
					if s.tx == tx {
						c.Probe("SUBSCRIBE unanswered")
						s.tx = 0
						leave(s)
						later(w, time.Second)
					}
				})
			}
		}
		again(4, 500*time.Millisecond)
	}
	begin = func(w *evWant) {
		ag := w.ag
		s := &evSub{want: w, state: "trying"}
		w.sub = s
		c.Lib("an Event", 0, func() {
			s.ev = header.NewEvent()
			a.must("event type", s.ev.SetEventType(w.pkg))
			if w.id != "" {
				a.must("event id", s.ev.SetEventId(w.id))
			}
		})
		// in a dialog that is there, or in one of its own
		for _, o := range ag.wants {
			if o != w && o.sub != nil && o.sub.state == "on" && o.sub.d.key != "" && t.Bool() {
				s.d = o.sub.d
				c.Probe("two subscriptions in a dialog")
			}
		}
		if s.d == nil {
			ag.tag++
			tag := fmt.Sprintf("%s-%d", ag.name, ag.tag)
			s.d = &evDialog{ag: ag, callid: g.callid(), ltag: tag, lseq: t.Intn(1000)}
			if t.Chance(40) { // one Call-ID for everything
				s.d.callid = "common-" + ag.name
			}
			s.d.from, s.d.to = a.party(ag.name, "example.net", tag), a.party("resource", nhost, "")
			s.d.contact = a.party(ag.name, ag.name+".example.net", "")
			s.d.contact.uri.text += t.Of("", ";transport=tcp", ";a=b")
			s.d.contact.tmpl = "<" + s.d.contact.uri.text + ">"
		}
		s.d.subs = append(s.d.subs, s)
		transmit(s, w.expires)
	}
	refresh := func(w *evWant, exp int) {
		if s := w.sub; s != nil && s.state == "on" && s.tx == 0 {
			transmit(s, exp)
		}
	}
	var agents []*evAgent
	for i := t.Range(1, 3); i > 0; i-- {
		ag := &evAgent{name: fmt.Sprintf("ua%d", i), api: t.Bool(), done: map[string][]byte{}, known: map[int]*evMeta{}}
		for n := t.Range(1, 3); n > 0; n-- {
			w := &evWant{ag: ag, pkg: packages[t.Intn(4)], expires: t.Of1(-1, 30, 60, 300, 900, 7200)}
			if len(ag.wants) > 0 && t.Chance(60) {
				w.pkg = ag.wants[0].pkg
			}
			if t.Chance(50) {
				w.id = t.Of("1", "2", "11", "a;b", "x.y")
				if w.id == "a;b" {
					w.id = "ab"
				}
			}
			twin := false
			for _, o := range ag.wants {
				twin = twin || o.pkg == w.pkg && o.id == w.id
			}
			if twin {
				continue
			}
			all := []evRange{{"application", "pidf+xml", ""}, {"text", "plain", ""}, {"application", "xml", ""}, {"text", "*", ""}, {"*", "*", ""}, {"image", "png", ""}, {"TEXT", "Plain", ""}, {"application", "xml-dtd", ""}}
			for n := t.Intn(4); n > 0; n-- {
				r := all[t.Intn(len(all))]
				r.q = t.Of("", "", "0", "1", "0.5", "0.9", "0.001")
				again := false
				for _, o := range w.accept {
					again = again || strings.EqualFold(o.typ, r.typ) && strings.EqualFold(o.sub, r.sub)
				}
				if !again {
					w.accept = append(w.accept, r)
				}
			}
			ag.wants = append(ag.wants, w)
		}
		agents = append(agents, ag)
	}
	taken := func(ag *evAgent, d *Dgram, meta *evMeta) { // a NOTIFY
		req, keep := a.readRequest(ag.name, d.Data)
		id := txid(c, req)
		b, ok := ag.done[id]
		if m := ag.known[meta.tx]; ok != (m != nil) {
			c.Fail("retransmission", "a NOTIFY that is known (%v) is taken for one that is not, or the other way round: %q", m != nil, keep)
		} else if ok {
			c.Probe("retransmission recognised")
			a.send(ag.name, "not", b, m)
			return
		}
		s := read(req, keep)
		check("subscriber", s, meta.says, keep)
		var u string
		c.Lib("GetRequestURI", 0, func() { u = nuri(req.GetRequestURI().String()) })
		if w := nuri(meta.sub.d.contact.uri.text); u != w {
			c.Fail("target", "a NOTIFY is sent to %q, want %q: %q", u, w, keep)
		}
		key := dialogID(c, req, true)
		var call, ltag string
		var ev *header.Event
		c.Lib("Call-ID and tag", 0, func() {
			call, ltag = req.GetCallIdentifier(), req.GetTo().GetTag()
			ev = req.GetHeader(core.SIPHeaderNames_EVENT).(*header.Event)
		})
		var found *evSub
		for _, w := range ag.wants {
			x := w.sub
			if x == nil {
				continue
			}
			mine := x.d.key == key
			if x.d.key == "" {
				mine = x.d.callid == call && x.d.ltag == ltag
			}
			var m bool
			c.Lib("Match", 0, func() { m = x.ev.Match(ev) && ev.Match(x.ev) })
			if mine && m {
				found = x
			}
		}
		truth := meta.sub
		if truth.state == "off" {
			truth = truth.want.sub // subscribed anew in the same dialog?
			if truth != nil && truth.d != meta.sub.d {
				truth = nil
			}
		}
		if found != truth {
			c.Fail("match:NOTIFY", "a NOTIFY for %s id=%q belongs to a subscription %v, found %v: %q", meta.sub.want.pkg, meta.sub.want.id, truth != nil, found != nil, keep)
		}
		code := 200
		switch {
		case found == nil:
			code = 481
			c.Probe("NOTIFY for nobody")
		case s.seq <= found.d.rseq:
			code = 500
			c.Probe("NOTIFY overtaken")
		default:
			found.d.rseq = s.seq
			found.d.key = key
			if found.state == "trying" {
				c.Probe("NOTIFY before the answer")
			}
			found.state = "on"
			c.Nontriv = true
			c.Count("notifications")
		}
		var resp *message.SIPResponse
		c.Lib("answering a NOTIFY", 0, func() { resp = req.CreateResponse(code) })
		b = encodeMsg(c, resp)
		r := newSays()
		r.code, r.seq = code, meta.says.seq
		m := &evMeta{sub: meta.sub, tx: meta.tx, says: r}
		ag.done[id], ag.known[meta.tx] = b, m
		a.send(ag.name, "not", b, m)
		if code != 200 {
			return
		}
		w := found.want
		if s.body != "" {
			v, err := strconv.Atoi(strings.TrimPrefix(strings.SplitN(s.body, "\r\n", 2)[0], "v="))
			if err != nil {
				Harness("body %q", s.body)
			}
			if v < found.version {
				c.Fail("version", "version %d after %d", v, found.version)
			}
			found.version = v
		}
		if s.state == "terminated" {
			c.Probe("terminated: " + s.reason)
			found.tx = 0
			leave(found)
			switch s.reason {
			case "rejected", "noresource":
				w.dead, w.banned = true, true
			case "probation", "giveup":
				n := s.retry
				if n < 0 {
					n = 0
				}
				later(w, time.Duration(n)*time.Second)
			default:
				later(w, 0)
			}
		}
	}
	for _, ag := range agents {
		ag := ag
		net.Listen(ag.name, func(d *Dgram) {
			meta := d.Meta.(*evMeta)
			if meta.says.code == 0 {
				taken(ag, d, meta)
				return
			}
			resp, keep := a.readResponse(ag.name, d.Data)
			s := read(resp, keep)
			check("subscriber", s, meta.says, keep)
			x := meta.sub
			if x.tx != meta.tx || x.state == "off" {
				return // late
			}
			x.tx = 0
			w := x.want
			c.Probe("answer " + strconv.Itoa(s.code))
			switch s.code {
			case 200:
				key := dialogID(c, resp, false)
				if x.d.key != "" && x.d.key != key {
					c.Fail("dialog id", "the answer is of dialog %q, want %q: %q", key, x.d.key, keep)
				}
				x.d.key, x.state = key, "on"
				next := s.expires/2 + 1
				if s.expires > 0 {
					net.At(time.Duration(next)*time.Second, func() {
						if !stop && x.state == "on" && w.sub == x && x.tx == 0 {
							transmit(x, w.expires)
						}
					})
				}
			case 423:
				if x.exp >= s.min || s.min <= 0 {
					c.Fail("brief", "%d is called too brief with %d", x.exp, s.min)
				}
				w.expires = s.min
				transmit(x, s.min)
			case 489, 406:
				w.dead = true
				leave(x)
			default: // 481, 500
				if s.code == 500 && x.state == "on" {
					net.At(time.Second, func() {
						if x.state == "on" && w.sub == x && x.tx == 0 && !stop {
							transmit(x, w.expires)
						}
					})
					return
				}
				leave(x)
				later(w, time.Second)
			}
		})
		at := time.Duration(0)
		for _, w := range ag.wants {
			w := w
			at += time.Duration(t.Of1(0, 0, 1, 5, 60)) * time.Second
			net.At(at, func() { begin(w) })
		}
		for n := t.Intn(4); n > 0; n-- {
			w := ag.wants[t.Intn(len(ag.wants))]
			bye := t.Chance(30)
			net.At(time.Duration(t.Range(1, 400))*time.Second, func() {
				if bye {
					c.Probe("unsubscribe")
					refresh(w, 0)
				} else {
					refresh(w, w.expires)
				}
			})
		}
	}
	// what happens at the notifier
	for n := t.Intn(6); n > 0; n-- {
		net.At(time.Duration(t.Range(0, 400000))*time.Millisecond, func() {
			expire()
			p := packages[t.Intn(4)]
			version[p]++
			for _, e := range live() {
				if e.sub.want.pkg == p && e.state == "active" {
					notify(e, "", -1)
				}
			}
		})
	}
	for n := t.Intn(4); n > 0; n-- {
		net.At(time.Duration(t.Range(0, 400000))*time.Millisecond, func() {
			expire()
			l := live()
			if len(l) == 0 {
				return
			}
			e := l[t.Intn(len(l))]
			if e.state == "pending" && t.Chance(70) {
				e.state = "active"
				notify(e, "", -1)
				return
			}
			reason, retry := t.Of("deactivated", "probation", "giveup", "rejected", "noresource", "timeout", "x-new", ""), -1
			if reason == "probation" || reason == "giveup" {
				retry = t.Of1(-1, 0, 5, 30)
			}
			end(e, reason, retry)
		})
	}
	// once the network works again everyone learns the last version
	net.At(heal, func() {
		net.Heal()
		expire()
		for _, e := range live() {
			if e.state == "pending" {
				e.state = "active"
				notify(e, "", -1)
			}
		}
	})
	for _, ag := range agents {
		for i, w := range ag.wants {
			w := w
			net.At(heal+time.Duration(20+5*i)*time.Second, func() { refresh(w, w.expires) })
			net.At(heal+110*time.Second, func() {
				switch {
				case w.dead:
				case w.sub == nil || w.sub.state != "on":
					c.Fail("progress", "%s does not get its subscription to %s although the network works again", w.ag.name, w.pkg)
				case w.sub.version != version[w.pkg]:
					c.Fail("progress", "%s knows version %d of %s, which is at %d", w.ag.name, w.sub.version, w.pkg, version[w.pkg])
				}
				if ok := strings.Contains(","+strings.Join(have, ",")+",", ","+w.pkg+",") && pickType(types, w.accept) != nil; w.dead && !w.banned && ok {
					c.Fail("refused", "%s was refused %s", w.ag.name, w.pkg)
				}
			})
		}
	}
	net.At(heal+100*time.Second, func() { stop = true })
	net.Run()
	if net.Events >= net.MaxEvents {
		Harness("too many events")
	}
}
