package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	Register(&Prop{
		ID: "C08", Title: "Responses retrace the request's path; later requests follow the recorded route",
		Quick: 20000, Thorough: 1000000,
		Rule: "one run has a caller, 0-4 stateless proxies - some behind address translators, some recording their route - and a callee exchange requests, responses and requests within the dialog over a lossy, reordering, duplicating, partitioning network; non-trivial when a response came back over at least one proxy or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)", "name service (simulated)", "forwarding decisions (harness, from what the library's accessors report)"},
		Run:  runRouting,
	})
}

// hop is one node on the path.
type hop struct {
	name, ip  string
	port      int    // where it listens and sends from
	sentHost  string // what it puts into its Via
	sentPort  int    // 0: omitted
	rport     bool
	maddr     string
	transport string
	rr        bool
	rrURI     string // its URI in Record-Route
	branch    map[string]string
	p         *parser.StringMsgParser
}

func (h *hop) addr() string { return fmt.Sprintf("%s:%d", h.ip, h.port) }

type world struct {
	c   *Ctx
	g   *G
	net *Sim
	dns map[string]string // host name to ip
	hs  []*hop            // caller, proxies, callee
}

func (w *world) resolve(host string, port int, transport string) string {
	if ip, ok := w.dns[strings.ToLower(host)]; ok {
		host = ip
	}
	if port <= 0 {
		port = 5060
		if strings.EqualFold(transport, "tls") {
			port = 5061
		}
	}
	return fmt.Sprintf("%s:%d", host, port)
}

// at is where a message is and what it has been through.
type at struct {
	i      int   // node it is sent to
	m      *amsg // what the sender meant
	kind   string
	path   []int // nodes a request of a dialog is to visit, the rest
	callID string
}

type callState struct {
	inv      *amsg
	answered bool
	bye      int
	visited  []int
}

// viaOf makes the node's Via and what is to be expected of it.
func (w *world) viaOf(h *hop, key string) avia {
	if h.branch[key] == "" {
		h.branch[key] = cookie + h.name + strconv.Itoa(len(h.branch))
	}
	v := avia{transport: h.transport, host: h.sentHost, port: h.sentPort, branch: h.branch[key]}
	if h.maddr != "" {
		v.params += "\x01;\x01maddr\x01=\x01" + h.maddr
	}
	if h.rport {
		v.params += "\x01;\x01rport"
	}
	return v
}

func (w *world) libVia(v avia, h *hop) *header.Via {
	var x *header.Via
	w.c.Lib("making a Via", 0, func() {
		x = mkVia(w.c, v)
		if h.maddr != "" {
			if err := x.SetMAddr(h.maddr); err != nil {
				w.c.Fail("via maddr", "maddr %q refused: %v", h.maddr, err)
			}
		}
		if h.rport {
			x.SetParameter("rport", "")
		}
	})
	return x
}

// received marks the top Via with where the request really came from, and says
// what the model's Via becomes.
func (w *world) received(msg message.Message, m *amsg, from *hop, keep []byte) *amsg {
	n := m.clone()
	w.c.Lib("marking the top Via", 0, func() {
		top := sipm(msg).GetTopmostVia()
		if top == nil {
			w.c.Fail("no via", "the request has no Via: %q", keep)
		}
		v := n.vias[0]
		if top.GetHost() != from.ip || top.HasParameter("rport") {
			if err := top.SetReceived(from.ip); err != nil {
				w.c.Fail("received", "received %q refused: %v", from.ip, err)
			}
		}
		if v.host != from.ip || from.rport {
			v.params += "\x01;\x01received\x01=\x01" + from.ip
		}
		if top.HasParameter("rport") {
			top.SetParameter("rport", strconv.Itoa(from.port))
		}
		if from.rport {
			v.params = strings.Replace(v.params, "\x01;\x01rport", "\x01;\x01rport\x01=\x01"+strconv.Itoa(from.port), 1)
		}
		n.vias[0] = v
	})
	return n
}

// backTo reads from the top Via where a response goes (RFC 3261 18.2.2, RFC 3581).
func (w *world) backTo(msg message.Message) (to string) {
	w.c.Lib("reading the top Via", 0, func() {
		v := sipm(msg).GetTopmostVia()
		if v == nil {
			to = "nowhere"
			return
		}
		port := -1
		if v.HasPort() {
			port = v.GetPort()
		}
		host := v.GetHost()
		if v.GetMAddr() != "" {
			host = v.GetMAddr()
		} else if v.GetReceived() != "" {
			host = v.GetReceived()
			if n, err := strconv.Atoi(v.GetParameter("rport")); err == nil {
				port = n
			}
		}
		to = w.resolve(host, port, v.GetTransport())
	})
	return
}

// home is where the model says responses for node h arrive.
func (w *world) home(h *hop) string {
	if h.maddr != "" {
		return fmt.Sprintf("%s:%d", h.maddr, h.port)
	}
	return h.addr()
}

func uriTo(w *world, u address.URI) (host string, port int, to string, ok bool) {
	w.c.Lib("reading a URI", 0, func() {
		s, is := u.(*address.SipURIImpl)
		if !is {
			return
		}
		ok = true
		host, port = s.GetHost(), s.GetPort()
		t := s.GetTransportParam()
		if m := s.GetMAddrParam(); m != "" {
			host = m
		}
		to = w.resolve(host, port, t)
	})
	return
}

func runRouting(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	if net.Loss > 30 {
		net.Loss = 30
	}
	w := &world{c: c, g: g, net: net, dns: map[string]string{}}
	nrel := t.Pick(1, 3, 3, 2, 1)
	if t.Chance(3) {
		nrel = t.Range(5, 20)
		net.MaxEvents = 20000
		net.Loss, net.Dup = min(net.Loss, 3), min(net.Dup, 3)
	}
	for i := 0; i < nrel+2; i++ {
		h := &hop{name: fmt.Sprintf("n%d", i), ip: fmt.Sprintf("10.%d.0.%d", t.Range(0, 3), i+1), branch: map[string]string{}, transport: t.Of("UDP", "UDP", "TCP", "TLS")}
		def := 5060
		if h.transport == "TLS" {
			def = 5061
		}
		h.port = def
		if t.Chance(40) {
			h.port = t.Range(1024, 65535)
		}
		h.sentHost, h.sentPort = h.ip, h.port
		if h.port == def && t.Bool() {
			h.sentPort = 0
		}
		switch t.Pick(4, 2, 2, 1) {
		case 1: // a name
			h.sentHost = h.name + "." + t.Of("example.com", "Example.ORG", "a-b.net")
			c.Probe("Via with a host name")
		case 2: // behind a translator that the node knows to be there
			h.sentHost, h.sentPort, h.rport = fmt.Sprintf("192.168.%d.5", i), t.Of1(0, 5060, 9999), true
			c.Probe("behind an address translator")
		case 3:
			if i <= nrel {
				h.maddr = fmt.Sprintf("224.2.0.%d", i+1)
				c.Probe("Via with maddr")
			}
		}
		if !h.rport && t.Chance(15) && h.maddr == "" {
			h.rport = true
		}
		if i > 0 && i <= nrel {
			h.rr = t.Chance(60)
		}
		w.dns[strings.ToLower(h.name+".example.com")] = h.ip
		w.dns[strings.ToLower(h.name+".Example.ORG")] = h.ip
		w.dns[strings.ToLower(h.name+".a-b.net")] = h.ip
		switch t.Pick(3, 2, 1) {
		case 0:
			h.rrURI = "sip:" + h.ip + portText(h.port) + ";lr"
		case 1:
			h.rrURI = "sip:" + h.name + ".example.com" + portText(h.port) + ";transport=tcp;lr"
		case 2:
			h.rrURI = "sip:x" + h.name + "@p" + h.name + ".example.com" + portText(h.port) + ";lr;maddr=" + h.ip
		}
		h.p = parser.NewStringMsgParser()
		w.hs = append(w.hs, h)
	}
	last := len(w.hs) - 1
	caller, callee := w.hs[0], w.hs[last]
	contact := func(h *hop) string {
		return "sip:" + h.name + "@" + h.ip + portText(h.port)
	}
	calls := map[string]*callState{}

	parse := func(h *hop, d *Dgram) (message.Message, []byte) {
		if t.Chance(5) {
			c.Fault("node restart")
			h.p = parser.NewStringMsgParser()
		}
		keep := append([]byte(nil), d.Data...)
		msg, err := parseMsg(c, h.p, d.Data)
		if err != nil || msg == nil {
			c.Fail("rejected", "a valid message is rejected (%v): %q", err, keep)
		}
		return msg, keep
	}
	// the node at the other end of a hop, as seen by the network
	index := map[string]int{}
	for i, h := range w.hs {
		index[h.addr()] = i
		if h.maddr != "" {
			index[w.home(h)] = i
		}
	}
	sendBack := func(me int, msg message.Message, m *amsg, to int, a *at, keep []byte) {
		dst := w.backTo(msg)
		if want := w.home(w.hs[to]); dst != want {
			c.Fail("misrouted response", "%s sends the response to %s, want %s (%s)\n from %q", w.hs[me].name, dst, want, w.hs[to].name, keep)
		}
		n := *a
		n.m, n.i = m, to
		net.Send(w.hs[me].addr(), dst, encodeMsg(c, msg), &n)
	}
	// makeDialogRequest builds a request within the dialog from the routes
	// and the contact in a message received by me.
	dialogRequest := func(me *hop, m message.Message, st *callState, callerSide bool) {
		inv := st.inv
		method := t.Of("BYE", "INFO", "UPDATE")
		q := message.NewSIPRequest()
		var routes []string
		var target string
		c.Lib("building a request within the dialog", 0, func() {
			s := sipm(m)
			cl := s.GetContactHeaders()
			if cl == nil || cl.Len() != 1 {
				c.Fail("contact", "the message has no single Contact: %q", bytesOf(m))
			}
			u := cl.Front().Value.(*header.Contact).GetAddress().GetURI()
			target = u.String()
			q.SetMethod(method)
			q.SetRequestURI(u.Clone().(address.URI))
			from, to := header.NewFrom(), header.NewTo()
			if callerSide {
				from = s.GetFrom().(*header.From).Clone().(*header.From)
				to = s.GetTo().(*header.To).Clone().(*header.To)
			} else {
				from.CloneTo(s.GetTo().(*header.To))
				if from.GetTag() == "" {
					from.SetTag("callee")
				}
				to.CloneFrom(s.GetFrom().(*header.From))
			}
			q.SetHeader(from)
			q.SetHeader(to)
			q.SetHeader(s.GetCallId().(*header.CallID).Clone().(*header.CallID))
			q.SetHeader(header.NewCSeq(100+st.bye, method))
			mf := header.NewMaxForwards()
			mf.SetMaxForwards(70)
			q.SetHeader(mf)
			rl := header.NewRouteList()
			if rr := s.GetRecordRouteHeaders(); rr != nil {
				for e := rr.Front(); e != nil; e = e.Next() {
					a := e.Value.(*header.RecordRoute).GetAddress().(*address.AddressImpl).Clone().(*address.AddressImpl)
					r := header.NewRouteFromAddress(a)
					if callerSide {
						rl.PushFront(r)
					} else {
						rl.PushBack(r)
					}
					routes = append(routes, a.GetURI().String())
				}
			}
			if rl.Len() > 0 {
				q.SetHeader(rl)
			}
		})
		st.bye++
		// what the model says
		var want []int
		for i := 1; i < last; i++ {
			if w.hs[i].rr {
				want = append(want, i)
			}
		}
		from, to := caller, callee
		if callerSide {
			want = append(want, last)
		} else {
			from, to = callee, caller
			for a, b := 0, len(want)-1; a < b; a, b = a+1, b-1 {
				want[a], want[b] = want[b], want[a]
			}
			want = append(want, 0)
		}
		n := 0
		for i := 1; i < last; i++ {
			if w.hs[i].rr {
				n++
			}
		}
		if len(routes) != n {
			c.Fail("recorded route", "%s finds %d recorded routes %q, want %d\n in %q", me.name, len(routes), routes, n, bytesOf(m))
		}
		if target != contact(to) {
			c.Fail("remote target", "%s finds the remote target %q, want %q\n in %q", me.name, target, contact(to), bytesOf(m))
		}
		v := w.viaOf(from, method+inv.callid+strconv.Itoa(st.bye))
		c.Lib("SetHeader(Via)", 0, func() { q.AddHeader(w.libVia(v, from)) })
		a := &at{kind: "dialog", path: want, callID: inv.callid, m: &amsg{vias: []avia{v}}}
		sendOn(w, from, q, a, index, nil)
	}

	for i := range w.hs {
		i := i
		h := w.hs[i]
		recv := func(d *Dgram) {
			a := d.Meta.(*at)
			src := w.hs[index[d.From]]
			msg, keep := parse(h, d)
			req, isReq := msg.(*message.SIPRequest)
			if !isReq {
				if a.i != i {
					c.Fail("misrouted response", "%s receives a response meant for %s: %q", h.name, w.hs[a.i].name, keep)
				}
				c.Nontriv = c.Nontriv || nrel > 0
				// the top Via must be our own
				var b string
				var nv int
				c.Lib("reading the Vias", 0, func() {
					if v := sipm(msg).GetTopmostVia(); v != nil {
						b = v.GetBranch()
						nv = sipm(msg).GetViaHeaders().Len()
					}
				})
				if b != a.m.vias[0].branch || nv != len(a.m.vias) {
					c.Fail("foreign via", "%s receives a response with %d Vias, the top one of branch %q, want %d and %q: %q", h.name, nv, b, len(a.m.vias), a.m.vias[0].branch, keep)
				}
				compareVias(c, h.name, a.m, msg, keep)
				if len(a.m.vias) == 1 {
					// this is the one who asked
					st := calls[a.callID]
					if a.kind == "invite" {
						if i != 0 {
							c.Fail("misrouted response", "the response ends at %s: %q", h.name, keep)
						}
						st.answered = true
						c.Count("calls answered")
						if st.bye < 2 && t.Chance(60) {
							dialogRequest(h, msg, st, true)
						}
					} else {
						c.Count("requests within a dialog answered")
					}
					return
				}
				n := a.m.clone()
				n.vias = n.vias[1:]
				c.Lib("RemoveHeader2", 0, func() { sipm(msg).RemoveHeader2("Via", true) })
				// the model knows who that is
				next := -1
				for k, x := range w.hs {
					for _, br := range x.branch {
						if br == n.vias[0].branch {
							next = k
						}
					}
				}
				sendBack(i, msg, n, next, a, keep)
				return
			}
			m := w.received(msg, a.m, src, keep)
			if a.kind == "dialog" {
				if len(a.path) == 0 || a.path[0] != i {
					c.Fail("misrouted request", "%s receives a request that should go to %v next: %q", h.name, a.path, keep)
				}
				c.Nontriv = true
				if len(a.path) == 1 {
					var resp *message.SIPResponse
					c.Lib("CreateResponse", 0, func() { resp = req.CreateResponse(200) })
					c.Count("requests within a dialog arrived")
					sendBack(i, resp, m, index[d.From], a, keep)
					return
				}
				// take our own route off
				var own bool
				c.Lib("popping the Route", 0, func() {
					if rl := req.GetRouteHeaders(); rl != nil && rl.Len() > 0 {
						u := rl.Front().Value.(*header.Route).GetAddress().GetURI()
						own = u.String() == h.rrURI || sameURI(u, h.rrURI)
						req.RemoveHeader2("Route", true)
					}
				})
				if !own {
					c.Fail("foreign route", "%s finds another's address on top of the Route: %q", h.name, keep)
				}
				n := *a
				n.path = a.path[1:]
				v := w.viaOf(h, "d"+m.vias[0].branch)
				n.m = m.clone()
				n.m.vias = append([]avia{v}, n.m.vias...)
				c.Lib("AddHeader(Via)", 0, func() { req.AddHeader(w.libVia(v, h)) })
				sendOn(w, h, req, &n, index, keep)
				return
			}
			// the INVITE on its way
			if i == last {
				c.Probe("calls arrived")
				var resp *message.SIPResponse
				code := 200
				c.Lib("CreateResponse", 0, func() {
					resp = req.CreateResponse(code)
					if resp.GetToTag() == "" {
						resp.SetToTag("callee")
					}
					ct := header.NewContact()
					ct.SetAddress(mkAddr(c, contact(callee)))
					resp.SetHeader(ct)
				})
				st := calls[a.callID]
				sendBack(i, resp, m, index[d.From], a, keep)
				if st.bye < 2 && t.Chance(40) {
					dialogRequest(h, msg, st, false)
				}
				return
			}
			v := w.viaOf(h, "i"+m.vias[0].branch)
			n := *a
			n.m = m.clone()
			n.m.vias = append([]avia{v}, n.m.vias...)
			c.Lib("forwarding", 0, func() {
				req.AddHeader(w.libVia(v, h))
				if h.rr {
					req.AttachHeader3(header.NewRecordRouteFromAddress(mkAddr(c, h.rrURI)), false, true)
				}
			})
			net.Send(h.addr(), w.hs[i+1].addr(), encodeMsg(c, msg), &n)
		}
		net.Listen(h.addr(), recv)
		if h.maddr != "" {
			net.Listen(w.home(h), recv)
		}
	}

	n := t.Range(1, 3)
	for k := 0; k < n; k++ {
		m := g.request("INVITE")
		m.callid = "call" + strconv.Itoa(k) + "@" + caller.name
		m.routes, m.rroutes, m.star = nil, nil, false
		v := w.viaOf(caller, "invite"+strconv.Itoa(k))
		m.vias = []avia{v}
		m.contacts = []aaddr{{uri: auri{text: contact(caller)}, tmpl: "<" + contact(caller) + ">"}}
		if len(m.body) > 60 {
			m.body = m.body[:60]
		}
		st := &callState{inv: m}
		calls[m.callid] = st
		b := m.encode(g.style())
		var try func(r int)
		try = func(r int) {
			if st.answered || r > 6 {
				return
			}
			if r > 0 {
				c.Probe("retransmission")
			}
			net.Send(caller.addr(), w.hs[1].addr(), b, &at{kind: "invite", m: m, callID: m.callid})
			net.At(time.Second, func() { try(r + 1) })
		}
		net.At(time.Duration(k*10)*time.Millisecond, func() { try(0) })
	}
	if t.Chance(30) && nrel > 0 {
		x, y := w.hs[0], w.hs[1]
		k := t.Intn(nrel + 1)
		x, y = w.hs[k], w.hs[k+1]
		net.At(time.Duration(t.Intn(50))*time.Millisecond, func() { net.Partition(x.addr(), y.addr(), true) })
		net.At(time.Duration(t.Range(100, 4000))*time.Millisecond, func() { net.Partition(x.addr(), y.addr(), false) })
	}
	net.At(5500*time.Millisecond, net.Heal)
	net.Run()
	for k := 0; k < n; k++ {
		st := calls["call"+strconv.Itoa(k)+"@"+caller.name]
		if !st.answered {
			c.Fail("no answer", "the call %s was never answered although the network works again", st.inv.callid)
		}
	}
}

func portText(p int) string {
	if p == 5060 {
		return ""
	}
	return ":" + strconv.Itoa(p)
}

func sameURI(u address.URI, text string) bool { return nuri(u.String()) == nuri(text) }

// sendOn sends a request where its Route, or else its target, says.
func sendOn(w *world, h *hop, req *message.SIPRequest, a *at, index map[string]int, keep []byte) {
	var u address.URI
	w.c.Lib("reading the Route", 0, func() {
		u = req.GetRequestURI()
		if rl := req.GetRouteHeaders(); rl != nil && rl.Len() > 0 {
			r := rl.Front().Value.(*header.Route)
			u = r.GetAddress().GetURI()
			if s, ok := u.(*address.SipURIImpl); !ok || !s.HasLrParam() {
				w.c.Fail("lost lr", "%s finds a strict route %q in %q", h.name, u.String(), req.String())
			}
		}
	})
	_, _, dst, ok := uriTo(w, u)
	want := w.hs[a.path[0]].addr()
	if !ok || dst != want {
		w.c.Fail("misrouted request", "%s sends the request to %s, want %s (%s)\n %q\n from %q", h.name, dst, want, w.hs[a.path[0]].name, bytesOf(req), keep)
	}
	w.net.Send(h.addr(), dst, encodeMsg(w.c, req), a)
}

// compareVias checks the whole Via stack of a response.
func compareVias(c *Ctx, who string, m *amsg, msg message.Message, keep []byte) {
	var got []string
	c.Lib("reading the Vias", 0, func() {
		for e := sipm(msg).GetViaHeaders().Front(); e != nil; e = e.Next() {
			got = append(got, nvia(strings.TrimSpace(strings.TrimPrefix(e.Value.(*header.Via).String(), "Via:"))))
		}
	})
	for i, v := range m.vias {
		if want := nvia(canon(v.tmpl())); i >= len(got) || got[i] != want {
			c.Fail("via changed", "%s: Via %d is %q, want %q\n in %q", who, i, got, want, keep)
		}
	}
}
