package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

func init() {
	Register(&Prop{
		ID: "C24", Title: "Both ends of a call agree on its progress, outcome and end",
		Quick: 30000, Thorough: 1500000,
		Rule:   "one run has two or three user agents call each other up to five times, with plain and reliable provisional responses, CANCEL, refusals, unsupported extensions, BYE from either end, over a lossy, reordering, duplicating network with partitions; non-trivial when a call was answered or refused or a fault struck",
		Real:   []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub:   []string{"network and clock (simulated)", "transaction and call logic of the user agents (harness)"},
		Assume: []string{"the harness follows RFC 3261, 3262 and 3326 in who sends what when"},
		Run:    runCalls,
	})
}

type clReason struct {
	proto string
	cause int
	text  string
}

// clSays is what a message of a call means.
type clSays struct {
	code        int
	method      string
	seq         int
	cmethod     string // CSeq method
	require     []string
	supported   []string
	unsupported []string
	allow       []string
	rseq        int
	rack        [2]int
	rackm       string
	stamp       float32 // -1: none
	delay       float32 // -1: none
	retry       int     // -1: none
	why         string  // comment of Retry-After
	reasons     []clReason
	warn        string
	subject     string
	body        string
	target      string
}

func (s *clSays) String() string { return fmt.Sprintf("%+v", *s) }

type clCall struct {
	n            int
	from, to     string // nodes
	callid       string
	ltag, rtag   string
	mode         string // of reliability: "", supported, require
	extra        string // extension that is required but unknown
	stamp        float32
	body         string
	c, s         *clEnd // caller and called
	ruri         string
	ccont, scont string // contacts
	plan         []int  // codes of the provisional responses
	final        int

	steps int // reliable responses sent
	acked int
	seen  int // reliable responses that the caller took
}

// clEnd is a call as one end sees it.
type clEnd struct {
	call   *clCall
	caller bool
	state  string // calling, early, up, over; "" when unknown
	code   int    // outcome
	key    string // dialog id
	seq    int    // last request sent
	inv    *message.SIPRequest
	resp   *message.SIPResponse // last response to INVITE
	target address.URI
	remote *header.To // the other end
	local  *header.From
	lastR  int
	want   bool // CANCEL wanted
	sentC  bool
	ack    []byte
	ackM   *clMeta
	tx     *clClient
	srv    *clServer
	pend   *clStep
	next   int // of the plan
	due    bool
	rseq   int
	bye    bool
}

type clStep struct {
	n, rseq int
	done    bool
}

type clClient struct { // client transaction
	key  string // library
	tx   int
	end  *clEnd
	meth string
	req  *message.SIPRequest
	done bool
	prov bool
	on   func(resp *message.SIPResponse, s *clSays, meta *clMeta, keep []byte)
}

type clServer struct { // server transaction
	tx   int
	key  string
	end  *clEnd
	req  *message.SIPRequest
	last []byte
	meta *clMeta
	acks bool // ACK arrived
}

type clMeta struct {
	call *clCall
	tx   int
	back bool // sent by the called end
	says *clSays
	step int
}

type clNode struct {
	name string
	api  bool
	srv  []*clServer
	cli  []*clClient
	ends []*clEnd
}

var clKnown = []string{"100rel", "timer", "replaces"}

func runCalls(c *Ctx) {
	t := c.T
	a := newApp(c)
	g, net := a.g, a.net
	net.MaxEvents = 20000
	const heal = 300 * time.Second
	ntx := 0
	nodes := map[string]*clNode{}
	var names []string
	for i := t.Range(2, 3); i > 0; i-- {
		n := &clNode{name: fmt.Sprintf("ua%d", i), api: t.Bool()}
		nodes[n.name] = n
		names = append(names, n.name)
	}
	host := func(n string) string { return n + ".example.net" }

	// ---- reading
	texts := func(sm *message.SIPMessage, name string, get func(h header.Header) string) (l []string) {
		if !sm.HasHeader(name) {
			return nil
		}
		for e := sm.GetHeaders(name).Front(); e != nil; e = e.Next() {
			l = append(l, get(e.Value.(header.Header)))
		}
		return
	}
	read := func(m message.Message) (s *clSays) {
		s = &clSays{stamp: -1, delay: -1, retry: -1}
		c.Lib("reading", 0, func() {
			sm := sipm(m)
			switch r := m.(type) {
			case *message.SIPResponse:
				s.code = r.GetStatusCode()
			case *message.SIPRequest:
				s.method = r.GetMethod()
				s.target = nuri(r.GetRequestURI().String())
			}
			s.seq, s.cmethod = sm.GetCSeqNumber(), sm.GetCSeq().GetMethod()
			s.require = texts(sm, core.SIPHeaderNames_REQUIRE, func(h header.Header) string { return h.(*header.Require).GetOptionTag() })
			s.supported = texts(sm, core.SIPHeaderNames_SUPPORTED, func(h header.Header) string { return h.(*header.Supported).GetOptionTag() })
			s.unsupported = texts(sm, core.SIPHeaderNames_UNSUPPORTED, func(h header.Header) string { return h.(*header.Unsupported).GetOptionTag() })
			s.allow = texts(sm, core.SIPHeaderNames_ALLOW, func(h header.Header) string { return h.(*header.Allow).GetMethod() })
			if h, ok := sm.GetHeader(core.SIPHeaderNames_RSEQ).(*header.RSeq); ok {
				s.rseq = h.GetSequenceNumber()
			}
			if h, ok := sm.GetHeader(core.SIPHeaderNames_RACK).(*header.RAck); ok {
				s.rack, s.rackm = [2]int{h.GetRSeqNumber(), h.GetCSeqNumber()}, h.GetMethod()
			}
			if h, ok := sm.GetHeader(core.SIPHeaderNames_TIMESTAMP).(*header.TimeStamp); ok {
				s.stamp = h.GetTimeStamp()
				if h.HasDelay() {
					s.delay = h.GetDelay()
				}
			}
			if h, ok := sm.GetHeader(core.SIPHeaderNames_RETRY_AFTER).(*header.RetryAfter); ok {
				s.retry, s.why = h.GetRetryAfter(), h.GetComment()
			}
			if sm.HasHeader(core.SIPHeaderNames_REASON) {
				for e := sm.GetHeaders(core.SIPHeaderNames_REASON).Front(); e != nil; e = e.Next() {
					h := e.Value.(*header.Reason)
					s.reasons = append(s.reasons, clReason{h.GetProtocol(), h.GetCause(), h.GetText()})
				}
			}
			if sm.HasHeader(core.SIPHeaderNames_WARNING) {
				for e := sm.GetHeaders(core.SIPHeaderNames_WARNING).Front(); e != nil; e = e.Next() {
					h := e.Value.(*header.Warning)
					s.warn += fmt.Sprintf("%d %s %q;", h.GetCode(), h.GetAgent(), h.GetText())
				}
			}
			if h, ok := sm.GetHeader(core.SIPHeaderNames_SUBJECT).(*header.Subject); ok {
				s.subject = h.GetSubject()
			}
			s.body = sm.GetContent()
		})
		return
	}
	says := func(code int, method string, seq int) *clSays {
		return &clSays{code: code, method: method, seq: seq, cmethod: method, stamp: -1, delay: -1, retry: -1}
	}

	// retry sends until told to stop.
	retry := func(n int, wait time.Duration, send func(), stop func() bool, lost func()) {
		var again func(n int, wait time.Duration)
		again = func(n int, wait time.Duration) {
			if stop() {
				return
			}
			if n == 0 {
				if lost != nil {
					lost()
				}
				return
			}
			send()
			net.At(wait, func() { again(n-1, 2*wait) })
		}
		again(n, wait)
	}

	reasonsOf := func() (l []clReason) {
		for n := t.Of1(0, 1, 2); n > 0; n-- {
			l = append(l, clReason{t.Of("SIP", "Q.850", "preemption"), t.Of1(200, 16, 480, 1), t.Of("Call completed elsewhere", "bye", "a;b, c=d")})
			if len(l) == 2 && strings.EqualFold(l[0].proto, l[1].proto) {
				l = l[:1]
			}
		}
		return
	}
	putReasons := func(r *message.SIPRequest, l []clReason) {
		for _, x := range l {
			h := header.NewReason()
			a.must("protocol", h.SetProtocol(x.proto))
			a.must("cause", h.SetCause(x.cause))
			a.must("text", h.SetText(x.text))
			r.AddHeader(h)
		}
	}

	// ---- client transactions
	client := func(n *clNode, e *clEnd, r *message.SIPRequest, b []byte, s *clSays, step int, on func(*message.SIPResponse, *clSays, *clMeta, []byte), lost func()) *clClient {
		ntx++
		peer := e.call.to
		if !e.caller {
			peer = e.call.from
		}
		tx := &clClient{tx: ntx, end: e, meth: s.method, req: r, on: on}
		sent := a.own(b)
		tx.key = txid(c, sent) + " " + s.method
		n.cli = append(n.cli, tx)
		meta := &clMeta{call: e.call, tx: ntx, back: !e.caller, says: s, step: step}
		retry(7, 500*time.Millisecond, func() { a.send(n.name, peer, b, meta) },
			func() bool { return tx.done || tx.prov && s.method == "INVITE" },
			func() {
				if !tx.done {
					c.Probe("no answer: " + s.method)
					if lost != nil {
						lost()
					}
				}
			})
		return tx
	}
	via := func(n *clNode) *header.Via {
		return mkVia(c, avia{transport: "UDP", host: host(n.name), branch: cookie + g.uniq("c")})
	}
	// inDialog makes a request within the dialog of an end.
	inDialog := func(n *clNode, e *clEnd, method string, s *clSays) *message.SIPRequest {
		var r *message.SIPRequest
		s.target = nuri(e.call.scont)
		if !e.caller {
			s.target = nuri(e.call.ccont)
		}
		c.Lib("making "+method, 0, func() {
			uri := e.target.Clone().(address.URI)
			cseq := header.NewCSeq(s.seq, method)
			strip := func() {
				for _, x := range []string{core.SIPHeaderNames_REQUIRE, core.SIPHeaderNames_SUPPORTED, core.SIPHeaderNames_RSEQ, core.SIPHeaderNames_CONTACT, core.SIPHeaderNames_TIMESTAMP, core.SIPHeaderNames_ALLOW, core.SIPHeaderNames_SUBJECT} {
					r.RemoveHeader(x)
				}
			}
			switch k := t.Intn(3); {
			case k == 0 && e.caller && e.resp != nil:
				c.Probe("made from the response")
				r = e.resp.CreateRequest(uri, via(n), cseq)
				strip()
			case k == 1 && e.inv != nil:
				c.Probe("made from the INVITE")
				rl := header.NewRequestLine()
				rl.SetMethod(method)
				rl.SetUri(uri)
				if method == "BYE" && t.Bool() {
					r = e.inv.CreateBYERequest(!e.caller)
					r.SetRequestURI(uri)
				} else {
					r = e.inv.CreateSIPRequest(rl, !e.caller)
				}
				a.must("CSeq", r.GetCSeq().SetSequenceNumber(s.seq))
				r.SetHeader(via(n))
				r.SetFromTag(e.local.GetTag())
				r.SetToTag(e.remote.GetTag())
			default:
				r = message.NewSIPRequest()
				r.SetMethod(method)
				r.SetRequestURI(uri)
				r.AddHeader(via(n))
				r.SetFrom(e.local.Clone().(*header.From))
				r.SetTo(e.remote.Clone().(*header.To))
				id, err := header.NewCallID(e.call.callid)
				a.must("Call-ID", err)
				r.SetCallId(id)
				r.SetCSeq(cseq)
				mf := header.NewMaxForwards()
				a.must("Max-Forwards", mf.SetMaxForwards(70))
				r.SetMaxForwards(mf)
			}
			if len(s.rackm) > 0 {
				h := header.NewRAck()
				a.must("RAck", h.SetRSeqNumber(s.rack[0]))
				a.must("RAck", h.SetCSeqNumber(s.rack[1]))
				a.must("RAck", h.SetMethod(s.rackm))
				r.AddHeader(h)
			}
			putReasons(r, s.reasons)
		})
		return r
	}
	contactURI := func(m message.Message, keep []byte) (u address.URI) {
		c.Lib("Contact", 0, func() {
			l := sipm(m).GetContactHeaders()
			if l == nil || l.Len() != 1 {
				c.Fail("contact", "a Contact is lost: %q", keep)
			}
			u = l.Front().Value.(*header.Contact).GetAddress().GetURI()
		})
		return
	}
	setOver := func(e *clEnd, code int) {
		if e.state != "over" {
			e.state = "over"
			if e.code == 0 {
				e.code = code
			}
		}
	}
	bye := func(n *clNode, e *clEnd) {
		if e.bye {
			return
		}
		e.bye = true
		e.seq++
		s := says(0, "BYE", e.seq)
		s.reasons = reasonsOf()
		r := inDialog(n, e, "BYE", s)
		setOver(e, 0)
		c.Probe("BYE")
		client(n, e, r, encodeMsg(c, r), s, 0, func(*message.SIPResponse, *clSays, *clMeta, []byte) {}, nil)
	}
	probe := func(n *clNode, e *clEnd) { // is the other end still there?
		e.seq++
		s := says(0, "OPTIONS", e.seq)
		r := inDialog(n, e, "OPTIONS", s)
		client(n, e, r, encodeMsg(c, r), s, 0, func(_ *message.SIPResponse, s *clSays, _ *clMeta, _ []byte) {
			if s.code == 481 && e.state == "up" {
				c.Probe("the other end is gone")
				setOver(e, 0)
			}
		}, nil)
	}
	cancel := func(n *clNode, e *clEnd) {
		if !e.want || e.sentC || e.state != "early" {
			return
		}
		e.sentC = true
		c.Probe("CANCEL")
		s := says(0, "CANCEL", e.tx.req.GetCSeqNumber())
		s.target = nuri(e.call.ruri)
		s.reasons = reasonsOf()
		var r *message.SIPRequest
		c.Lib("making CANCEL", 0, func() {
			r = e.inv.CreateCancelRequest()
			for _, x := range []string{core.SIPHeaderNames_SUPPORTED, core.SIPHeaderNames_CONTACT, core.SIPHeaderNames_TIMESTAMP, core.SIPHeaderNames_ALLOW, core.SIPHeaderNames_SUBJECT} {
				r.RemoveHeader(x)
			}
			putReasons(r, s.reasons)
		})
		client(n, e, r, encodeMsg(c, r), s, 0, func(*message.SIPResponse, *clSays, *clMeta, []byte) {}, nil)
	}
	// onInvite takes a response to INVITE.
	onInvite := func(n *clNode, e *clEnd, resp *message.SIPResponse, s *clSays, meta *clMeta, keep []byte) {
		call := e.call
		if s.code == 100 {
			if e.state == "calling" {
				e.state = "early"
			}
			cancel(n, e)
			return
		}
		key := dialogID(c, resp, false)
		learn := func() {
			e.key = key
			e.target = contactURI(resp, keep)
			e.resp = resp
			c.Lib("To", 0, func() { e.remote = resp.GetTo().(*header.To).Clone().(*header.To) })
		}
		if e.key != "" && s.code < 300 && key != e.key {
			c.Fail("dialog id", "a response is of dialog %q, want %q: %q", key, e.key, keep)
		}
		switch {
		case s.code < 200:
			if e.state != "calling" && e.state != "early" {
				return
			}
			e.state = "early"
			reliable := len(s.require) > 0 && s.require[0] == "100rel"
			if reliable != (meta.step > 0) {
				c.Fail("100rel", "reliable %v, want %v: %q", reliable, meta.step > 0, keep)
			}
			if !reliable {
				if e.key == "" {
					learn()
				}
				cancel(n, e)
				return
			}
			if e.lastR != 0 && s.rseq != e.lastR+1 {
				if meta.step == call.seen+1 {
					c.Fail("100rel:order", "the next response is not the next: RSeq %d after %d: %q", s.rseq, e.lastR, keep)
				}
				c.Probe("response again or too early")
				return
			}
			if meta.step != call.seen+1 {
				if e.lastR == 0 {
					Harness("first")
				}
				c.Fail("100rel:order", "response %d is taken after %d: %q", meta.step, call.seen, keep)
			}
			call.seen++
			e.lastR = s.rseq
			learn()
			c.Count("reliable responses")
			e.seq++
			p := says(0, "PRACK", e.seq)
			p.rack, p.rackm = [2]int{s.rseq, s.seq}, s.cmethod
			r := inDialog(n, e, "PRACK", p)
			client(n, e, r, encodeMsg(c, r), p, meta.step, func(*message.SIPResponse, *clSays, *clMeta, []byte) {}, nil)
			cancel(n, e)
		case s.code < 300:
			if e.ack != nil {
				a.send(n.name, call.to, e.ack, e.ackM)
				return
			}
			if call.seen != call.steps {
				c.Fail("100rel:missing", "the call is answered after %d reliable responses, of %d: %q", call.seen, call.steps, keep)
			}
			late := e.state == "over"
			e.tx.done = true
			learn()
			ak := says(0, "ACK", s.seq)
			ak.cmethod = "ACK"
			r := inDialog(n, e, "ACK", ak)
			ntx++
			e.ack, e.ackM = encodeMsg(c, r), &clMeta{call: call, tx: ntx, says: ak}
			a.send(n.name, call.to, e.ack, e.ackM)
			e.state, e.code = "up", s.code
			c.Nontriv = true
			c.Count("answered")
			if late || e.sentC || e.want {
				c.Probe("answered after all")
				bye(n, e)
			}
		default:
			if e.state == "up" || e.ack != nil && e.code/100 == 2 {
				c.Fail("final", "two final responses: %q", keep)
			}
			if e.ack == nil {
				ak := says(0, "ACK", s.seq)
				ak.target = nuri(call.ruri)
				var r *message.SIPRequest
				c.Lib("making ACK", 0, func() {
					r = e.inv.CreateAckRequest(resp.GetTo().(*header.To))
					for _, x := range []string{core.SIPHeaderNames_REQUIRE, core.SIPHeaderNames_SUPPORTED, core.SIPHeaderNames_CONTACT, core.SIPHeaderNames_TIMESTAMP, core.SIPHeaderNames_ALLOW, core.SIPHeaderNames_SUBJECT} {
						r.RemoveHeader(x)
					}
				})
				e.ack, e.ackM = encodeMsg(c, r), &clMeta{call: call, tx: meta.tx, says: ak}
			}
			a.send(n.name, call.to, e.ack, e.ackM)
			e.tx.done = true
			setOver(e, s.code)
			c.Nontriv = true
			c.Probe("refused " + strconv.Itoa(s.code))
		}
	}

	// ---- server transactions
	reply := func(n *clNode, sv *clServer, from string, code int, edit func(r *message.SIPResponse, s *clSays)) *clSays {
		s := says(code, "", sv.req.GetCSeqNumber())
		s.cmethod = sv.req.GetMethod()
		var resp *message.SIPResponse
		call := sv.end
		c.Lib("answering", 0, func() {
			if t.Bool() {
				resp = sv.req.CreateResponse(code)
			} else {
				resp = sv.req.CreateResponse2(code, t.Of("Reason", "Because, of; this"))
			}
			if h, ok := resp.GetHeader(core.SIPHeaderNames_TIMESTAMP).(*header.TimeStamp); ok {
				s.stamp = call.call.stamp
				if code == 100 {
					s.delay = t2f(t.Intn(8))
					a.must("delay", h.SetDelay(s.delay))
				} else if h.HasDelay() {
					c.Fail("timestamp", "the delay of another response is in this one")
				}
			}
			if edit != nil {
				edit(resp, s)
			}
		})
		sv.last = encodeMsg(c, resp)
		sv.meta = &clMeta{call: metaCall(sv), tx: sv.tx, says: s}
		a.send(n.name, from, sv.last, sv.meta)
		return s
	}
	var advance func(n *clNode, e *clEnd)
	final := func(n *clNode, e *clEnd, code int) {
		if e.code != 0 || e.state == "over" {
			return
		}
		e.code = code
		sv, peer := e.srv, e.call.from
		reply(n, sv, peer, code, func(r *message.SIPResponse, s *clSays) {
			r.SetToTag(e.call.rtag)
			switch {
			case code == 200:
				x := header.NewContact()
				x.SetAddress(mkAddr(c, e.call.scont))
				r.AddHeader(x)
				for _, y := range []string{"INVITE", "ACK", "BYE", "PRACK"} {
					h := header.NewAllow()
					a.must("Allow", h.SetMethod(y))
					r.AddHeader(h)
					s.allow = append(s.allow, y)
				}
			case code == 503 || code == 486:
				h := header.NewRetryAfter()
				s.retry = t.Of1(0, 5, 120)
				a.must("Retry-After", h.SetRetryAfter(s.retry))
				if t.Bool() {
					s.why = t.Of("in a meeting", "x")
					a.must("comment", h.SetComment(s.why))
				}
				r.AddHeader(h)
			case code == 488:
				for i := 0; i < 2; i++ {
					h := header.NewWarning()
					a.must("warn-code", h.SetCode(304+i))
					a.must("warn-agent", h.SetAgent(host(n.name)))
					a.must("warn-text", h.SetText(t.Of("busy", "no, no; <no>")))
					r.AddHeader(h)
					s.warn += fmt.Sprintf("%d %s %q;", h.GetCode(), h.GetAgent(), h.GetText())
				}
			case code == 420:
				h := header.NewUnsupported()
				a.must("Unsupported", h.SetOptionTag(e.call.extra))
				r.AddHeader(h)
				s.unsupported = []string{e.call.extra}
			}
		})
		b, m := sv.last, sv.meta
		if code != 200 {
			setOver(e, code)
		}
		net.At(500*time.Millisecond, func() {
			retry(7, time.Second, func() { a.send(n.name, peer, b, m) }, func() bool { return sv.acks }, func() {
				if code == 200 && e.state == "answered" {
					c.Probe("no ACK")
					bye(n, e)
				}
			})
		})
		if code == 200 {
			e.state = "answered"
		}
	}
	advance = func(n *clNode, e *clEnd) {
		call := e.call
		if e.code != 0 || e.state == "over" || !e.due || e.pend != nil && !e.pend.done {
			return
		}
		if e.next == len(call.plan) {
			final(n, e, call.final)
			return
		}
		code := call.plan[e.next]
		e.next++
		e.due = false
		body := ""
		if t.Chance(40) {
			body = fmt.Sprintf("early %d\r\n", e.next)
		}
		rel := call.mode == "require" || call.mode == "supported" && t.Chance(80)
		var st *clStep
		if rel {
			call.steps++
			e.rseq++
			st = &clStep{n: call.steps, rseq: e.rseq}
			e.pend = st
		}
		sv := e.srv
		reply(n, sv, call.from, code, func(r *message.SIPResponse, s *clSays) {
			r.SetToTag(call.rtag)
			x := header.NewContact()
			x.SetAddress(mkAddr(c, call.scont))
			r.AddHeader(x)
			if body != "" {
				ct := header.NewContentType()
				ct.SetContentType("text")
				ct.SetContentSubType("plain")
				r.SetContent([]byte(body), ct)
				s.body = body
			}
			if rel {
				h := header.NewRequire()
				a.must("Require", h.SetOptionTag("100rel"))
				r.AddHeader(h)
				q := header.NewRSeq()
				a.must("RSeq", q.SetSequenceNumber(e.rseq))
				r.AddHeader(q)
				s.require, s.rseq = []string{"100rel"}, e.rseq
			}
		})
		b, m := sv.last, sv.meta
		if rel {
			m.step = st.n
			net.At(500*time.Millisecond, func() {
				retry(6, time.Second, func() { a.send(n.name, call.from, b, m) }, func() bool { return st.done || e.state == "over" || e.code != 0 }, func() {
					if !st.done {
						c.Probe("no PRACK")
						final(n, e, 504)
					}
				})
			})
		}
		net.At(time.Duration(t.Of1(0, 200, 1000, 5000, 20000))*time.Millisecond, func() {
			e.due = true
			advance(n, e)
		})
	}
	request := func(n *clNode, d *Dgram, meta *clMeta) {
		req, keep := a.readRequest(n.name, d.Data)
		id := txid(c, req)
		s := read(req)
		if s.String() != meta.says.String() {
			c.Fail("read:request", "a request is read as %v, meant was %v: %q", s, meta.says, keep)
		}
		if s.method == "ACK" {
			var sv, truth *clServer
			var key string
			ok2 := meta.call.s.code == 200
			if ok2 {
				key = dialogID(c, req, true)
			}
			for _, x := range n.srv {
				if x.req.GetMethod() != "INVITE" || x.end == nil {
					continue
				}
				if ok2 && x.end.key == key && x.req.GetCSeqNumber() == s.seq || !ok2 && x.key == id+" INVITE" {
					sv = x
				}
				if x.end.call == meta.call {
					truth = x
				}
			}
			if sv != truth {
				c.Fail("match:ACK", "an ACK finds its INVITE %v, want %v: %q", sv != nil, truth != nil, keep)
			}
			if sv != nil {
				sv.acks = true
				if e := sv.end; e.state == "answered" {
					e.state = "up"
				}
			}
			return
		}
		var sv, truth *clServer
		for _, x := range n.srv {
			if x.key == id+" "+s.method {
				sv = x
			}
			if x.tx == meta.tx {
				truth = x
			}
		}
		if sv != truth {
			c.Fail("match:retransmission", "%s is known %v, want %v: %q", s.method, sv != nil, truth != nil, keep)
		}
		if sv != nil {
			c.Probe("retransmission recognised")
			if sv.last != nil {
				a.send(n.name, d.From, sv.last, sv.meta)
			}
			return
		}
		sv = &clServer{tx: meta.tx, key: id + " " + s.method, req: req}
		n.srv = append(n.srv, sv)
		call := meta.call
		switch s.method {
		case "INVITE":
			e := call.s
			sv.end, e.srv, e.inv, e.state, e.due = e, sv, req, "early", true
			n.ends = append(n.ends, e)
			e.target = contactURI(req, keep)
			if u := nuri(e.target.String()); u != nuri(call.ccont) {
				c.Fail("contact", "the Contact is %q, want %q: %q", u, call.ccont, keep)
			}
			e.rseq = t.Of1(0, 0, 988788, 1<<31-10)
			c.Lib("both ends", 0, func() {
				e.local, e.remote = header.NewFrom(), header.NewTo()
				e.local.CloneTo(req.GetTo().(*header.To))
				e.remote.CloneFrom(req.GetFrom().(*header.From))
				a.must("tag", e.local.SetTag(call.rtag))
			})
			e.key = dialogID2(c, req, true, call.rtag)
			reply(n, sv, d.From, 100, nil)
			bad := ""
			for _, x := range s.require {
				ok := false
				for _, y := range clKnown {
					ok = ok || strings.EqualFold(x, y)
				}
				if !ok {
					bad = x
				}
			}
			if bad != call.extra {
				c.Fail("require", "the extension %q is missed, want %q: %q", bad, call.extra, keep)
			}
			if bad != "" {
				final(n, e, 420)
				return
			}
			net.At(time.Duration(t.Of1(0, 100, 3000))*time.Millisecond, func() { advance(n, e) })
		case "CANCEL":
			var inv, mine *clServer
			for _, x := range n.srv {
				if x.key == id+" INVITE" {
					inv = x
				}
				if x.end != nil && x.end.call == call && x.req.GetMethod() == "INVITE" {
					mine = x
				}
			}
			if inv != mine {
				c.Fail("match:CANCEL", "a CANCEL finds its INVITE %v, want %v: %q", inv != nil, mine != nil, keep)
			}
			if inv == nil {
				reply(n, sv, d.From, 481, nil)
				return
			}
			reply(n, sv, d.From, 200, func(r *message.SIPResponse, _ *clSays) { r.SetToTag(call.rtag) })
			final(n, inv.end, 487)
		default:
			key := dialogID(c, req, true)
			var e *clEnd
			for _, x := range n.ends {
				if x.key == key {
					e = x
				}
			}
			tr := call.s
			if meta.back {
				tr = call.c
			}
			if tr.key == "" {
				tr = nil
			}
			if e != tr {
				c.Fail("match:dialog", "%s is taken to be of another call: %q", s.method, keep)
			}
			switch {
			case e == nil:
				reply(n, sv, d.From, 481, nil)
			case s.method == "PRACK":
				st := e.pend
				ok := st != nil && !st.done && s.rack == [2]int{st.rseq, e.srv.req.GetCSeqNumber()} && s.rackm == "INVITE"
				if want := st != nil && !st.done && st.n == meta.step; ok != want {
					c.Fail("100rel:prack", "a PRACK matches %v, want %v: %q", ok, want, keep)
				}
				if !ok {
					c.Probe("PRACK for nothing")
					reply(n, sv, d.From, 481, nil)
					return
				}
				st.done = true
				call.acked++
				reply(n, sv, d.From, 200, nil)
				advance(n, e)
			case e.state != "up" && e.state != "answered" && e.state != "early" || s.method == "OPTIONS" && e.state != "up" && e.state != "answered":
				reply(n, sv, d.From, 481, nil)
			case s.method == "BYE":
				reply(n, sv, d.From, 200, nil)
				if !e.caller && e.code == 0 {
					final(n, e, 487)
				}
				if e.srv != nil {
					e.srv.acks = true
				}
				setOver(e, 0)
			default:
				reply(n, sv, d.From, 200, nil)
			}
		}
	}
	for _, name := range names {
		n := nodes[name]
		net.Listen(name, func(d *Dgram) {
			meta := d.Meta.(*clMeta)
			if meta.says.code == 0 {
				request(n, d, meta)
				return
			}
			resp, keep := a.readResponse(name, d.Data)
			s := read(resp)
			if s.String() != meta.says.String() {
				c.Fail("read:response", "a response is read as %v, meant was %v: %q", s, meta.says, keep)
			}
			key := txid(c, resp) + " " + s.cmethod
			var tx, truth *clClient
			for _, x := range n.cli {
				if x.key == key {
					tx = x
				}
				if x.tx == meta.tx {
					truth = x
				}
			}
			if tx != truth || tx == nil {
				c.Fail("match:response", "a response finds its request %v: %q", tx != nil, keep)
			}
			tx.prov = true
			if tx.meth == "INVITE" {
				onInvite(n, tx.end, resp, s, meta, keep)
				return
			}
			if !tx.done {
				tx.done = true
				tx.on(resp, s, meta, keep)
			}
		})
	}

	// ---- calls
	var calls []*clCall
	start := func(call *clCall) {
		n := nodes[call.from]
		e := call.c
		n.ends = append(n.ends, e)
		e.state = "calling"
		s := says(0, "INVITE", e.seq)
		s.target = nuri(call.ruri)
		s.stamp, s.body = call.stamp, call.body
		switch call.mode {
		case "require":
			s.require = append(s.require, "100rel")
		case "supported":
			s.supported = append(s.supported, "100rel")
		}
		if call.extra != "" {
			s.require = append(s.require, call.extra)
		}
		for k := t.Intn(3); k > 0; k-- {
			s.supported = append(s.supported, []string{"timer", "replaces"}[k-1])
		}
		s.subject = t.Of("", "", "Lunch, today; or not?", "x")
		m := a.slim("INVITE", auri{text: call.ruri}, host(n.name), call.callid, e.seq, a.party(call.from, "example.net", call.ltag), a.party(call.to, "example.net", ""))
		var b []byte
		if n.api {
			r := a.build(m)
			c.Lib("INVITE", 0, func() {
				for _, x := range s.require {
					h := header.NewRequire()
					a.must("Require", h.SetOptionTag(x))
					r.AddHeader(h)
				}
				for _, x := range s.supported {
					h := header.NewSupported()
					a.must("Supported", h.SetOptionTag(x))
					r.AddHeader(h)
				}
				if s.stamp >= 0 {
					h := header.NewTimeStamp()
					a.must("Timestamp", h.SetTimeStamp(s.stamp))
					r.AddHeader(h)
				}
				if s.subject != "" {
					h := header.NewSubject()
					h.SetSubject(s.subject)
					r.AddHeader(h)
				}
				x := header.NewContact()
				x.SetAddress(mkAddr(c, call.ccont))
				r.AddHeader(x)
				if s.body != "" {
					ct := header.NewContentType()
					ct.SetContentType("application")
					ct.SetContentSubType("sdp")
					r.SetContent([]byte(s.body), ct)
				}
			})
			e.inv = r
			b = encodeMsg(c, r)
		} else {
			opts := func(name string, l []string) {
				var out []string
				for _, x := range l {
					if len(out) > 0 && t.Bool() {
						out[len(out)-1] += "\x01,\x01" + x
					} else {
						out = append(out, x)
					}
				}
				for _, x := range out {
					m.hdrs = append(m.hdrs, ahdr{name, x})
				}
			}
			opts("Require", s.require)
			opts("Supported", s.supported)
			if s.stamp >= 0 {
				m.hdrs = append(m.hdrs, ahdr{"Timestamp", strconv.FormatFloat(float64(s.stamp), 'f', -1, 32)})
			}
			if s.subject != "" {
				m.hdrs = append(m.hdrs, ahdr{"Subject", s.subject})
			}
			m.contacts = []aaddr{{uri: auri{text: call.ccont}, tmpl: "<" + call.ccont + ">"}}
			if s.body != "" {
				m.ctype, m.body = "application/sdp", []byte(s.body)
			}
			b = m.encode(g.style())
			e.inv = a.own(b).(*message.SIPRequest)
		}
		c.Lib("From", 0, func() { e.local = e.inv.GetFrom().(*header.From).Clone().(*header.From) })
		e.tx = client(n, e, e.inv, b, s, 0, nil, func() { setOver(e, 408) })
		net.At(150*time.Second, func() {
			if e.state == "calling" || e.state == "early" {
				c.Probe("given up")
				setOver(e, 408)
			}
		})
		if t.Chance(25) {
			net.At(time.Duration(t.Of1(0, 100, 700, 3000, 15000))*time.Millisecond, func() {
				e.want = true
				cancel(n, e)
			})
		}
		for _, x := range []*clEnd{call.c, call.s} {
			x := x
			if t.Chance(40) {
				net.At(time.Duration(t.Range(1, 120))*time.Second, func() {
					if x.state == "up" {
						y := n
						if !x.caller {
							y = nodes[call.to]
						}
						bye(y, x)
					}
				})
			}
		}
	}
	for i := t.Range(1, 5); i > 0; i-- {
		k := t.Intn(len(names))
		call := &clCall{n: i, from: names[k], to: names[(k+1+t.Intn(len(names)-1))%len(names)], callid: g.callid(), ltag: g.uniq("c"), rtag: g.uniq("s"), stamp: -1}
		if t.Chance(20) {
			call.callid = "same-" + call.from // the tags tell the calls apart
		}
		call.ruri = "sip:" + call.to + "@example.net"
		call.ccont = "sip:" + call.from + "@" + host(call.from) + t.Of("", ";transport=tcp", ":5070")
		call.scont = "sip:" + call.to + "@" + host(call.to) + t.Of("", ";x=y", ":5080")
		call.mode = t.Of("", "supported", "supported", "require")
		if t.Chance(10) {
			call.extra = t.Of("precondition", "100relx", "x")
		}
		if t.Chance(40) {
			call.stamp = t2f(t.Intn(4000))
		}
		if t.Bool() {
			call.body = t.Of("v=0\r\n", "v=0\r\no=- 1 1 IN IP4 h\r\ns= \r\n", "x")
		}
		for k := t.Intn(4); k > 0; k-- {
			call.plan = append(call.plan, t.Of1(180, 181, 182, 183))
		}
		call.final = t.Of1(200, 200, 200, 486, 488, 503, 603)
		call.c = &clEnd{call: call, caller: true, seq: t.Of1(1, 101, 1<<31-100)}
		call.s = &clEnd{call: call, seq: t.Of1(1, 77)}
		calls = append(calls, call)
		net.At(time.Duration(t.Of1(0, 0, 100, 5000, 40000))*time.Millisecond, func() { start(call) })
	}
	if t.Chance(25) {
		x, y := names[0], names[1]
		at := t.Range(0, 60)
		net.At(time.Duration(at)*time.Second, func() { net.Partition(x, y, true) })
		net.At(time.Duration(at+t.Of1(2, 10, 60))*time.Second, func() { net.Partition(x, y, false) })
	}
	net.At(heal, net.Heal)
	net.At(heal+time.Second, func() {
		for _, call := range calls {
			for _, e := range []*clEnd{call.c, call.s} {
				if e.state == "up" || e.state == "answered" {
					n := call.from
					if !e.caller {
						n = call.to
					}
					probe(nodes[n], e)
				}
			}
		}
	})
	net.At(heal+130*time.Second, func() {
		for _, call := range calls {
			x, y := call.c, call.s
			settled := func(e *clEnd) bool { return e.state == "up" || e.state == "over" || e.state == "" }
			if !settled(x) || !settled(y) {
				c.Fail("progress", "call %d is %q at the caller and %q at the other end although the network works again", call.n, x.state, y.state)
			}
			if (x.state == "up") != (y.state == "up") {
				c.Fail("agreement", "call %d is %q at the caller and %q at the other end", call.n, x.state, y.state)
			}
			if call.acked > call.seen || call.seen > call.steps {
				c.Fail("agreement", "%d reliable responses were sent, %d taken, %d acknowledged", call.steps, call.seen, call.acked)
			}
			if x.code >= 200 && y.code >= 200 && x.code != 408 && x.code != y.code {
				c.Fail("agreement", "call %d ended with %d at the caller and %d at the other end", call.n, x.code, y.code)
			}
		}
	})
	net.Run()
	if net.Events >= net.MaxEvents {
		Harness("too many events")
	}
}

func t2f(n int) float32 { return float32(n) / 4 }

func metaCall(sv *clServer) *clCall {
	if sv.end != nil {
		return sv.end.call
	}
	return nil
}
