package props

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

func init() {
	Register(&Prop{
		ID: "C25", Title: "Forking proxies reach every target once and return the one best answer",
		Quick: 20000, Thorough: 1000000,
		Rule:   "one run has a caller send up to three requests through one to four stateful proxies, loose and strict routers, that fork them to phones and to each other's users, loops included, with refusals, challenges, redirections, CANCEL, phones that never answer and calls hung up from either end, over a lossy, reordering, duplicating network with partitions; non-trivial when a request was forked or forwarded twice or a fault struck",
		Real:   []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub:   []string{"network and clock (simulated)", "proxy, phone and caller logic (harness)"},
		Assume: []string{"the harness follows RFC 3261, section 16, in what a proxy does"},
		Run:    runForks,
	})
}

// fkView is what a message means to proxies and ends.
type fkView struct {
	code        int
	method      string
	seq         int
	cmethod     string
	target      string
	maxfwd      int // -1: none
	vias        []string
	routes, rr  []string
	callid      string
	ftag, ttag  string
	preq, unsup []string
	chal        []string
	contacts    []string
	body        string
}

func (v *fkView) clone() *fkView { // slices are never changed in place
	n := *v
	return &n
}

// String leaves out what is nobody's business.
func (v *fkView) String() string {
	n := *v
	if n.code > 0 {
		n.maxfwd = -1
	}
	if n.method == "ACK" || n.method == "CANCEL" {
		n.rr, n.contacts, n.maxfwd, n.body = nil, nil, -1, ""
	}
	if n.method == "ACK" {
		n.preq = nil
	}
	return fmt.Sprintf("%+v", n)
}

func fkRead(c *Ctx, m message.Message) (v *fkView) {
	v = &fkView{maxfwd: -1}
	c.Lib("reading", 0, func() {
		s := sipm(m)
		switch r := m.(type) {
		case *message.SIPResponse:
			v.code = r.GetStatusCode()
		case *message.SIPRequest:
			v.method = r.GetMethod()
			v.target = nuri(r.GetRequestURI().String())
		}
		v.seq, v.cmethod = s.GetCSeqNumber(), s.GetCSeq().GetMethod()
		if s.HasHeader("Max-Forwards") {
			v.maxfwd = s.GetMaxForwards().GetMaxForwards()
			if z := s.GetMaxForwards().(*header.MaxForwards).HasReachedZero(); z != (v.maxfwd == 0) {
				c.Fail("max-forwards", "HasReachedZero is %v at %d", z, v.maxfwd)
			}
		}
		for e := s.GetViaHeaders().Front(); e != nil; e = e.Next() {
			x := e.Value.(*header.Via)
			v.vias = append(v.vias, strings.ToLower(x.GetHost())+" "+x.GetBranch())
		}
		if l := s.GetRouteHeaders(); l != nil {
			for e := l.Front(); e != nil; e = e.Next() {
				v.routes = append(v.routes, nuri(e.Value.(*header.Route).GetAddress().GetURI().String()))
			}
		}
		if l := s.GetRecordRouteHeaders(); l != nil {
			for e := l.Front(); e != nil; e = e.Next() {
				v.rr = append(v.rr, nuri(e.Value.(*header.RecordRoute).GetAddress().GetURI().String()))
			}
		}
		v.callid, v.ftag, v.ttag = s.GetCallId().GetCallId(), s.GetFromTag(), s.GetToTag()
		each := func(name string, f func(h header.Header)) {
			if s.HasHeader(name) {
				for e := s.GetHeaders(name).Front(); e != nil; e = e.Next() {
					f(e.Value.(header.Header))
				}
			}
		}
		each(core.SIPHeaderNames_PROXY_REQUIRE, func(h header.Header) { v.preq = append(v.preq, h.(*header.ProxyRequire).GetOptionTag()) })
		each(core.SIPHeaderNames_UNSUPPORTED, func(h header.Header) { v.unsup = append(v.unsup, h.(*header.Unsupported).GetOptionTag()) })
		each(core.SIPHeaderNames_WWW_AUTHENTICATE, func(h header.Header) {
			x := h.(*header.WWWAuthenticate)
			v.chal = append(v.chal, "W "+x.GetRealm()+" "+x.GetNonce())
		})
		each(core.SIPHeaderNames_PROXY_AUTHENTICATE, func(h header.Header) {
			x := h.(*header.ProxyAuthenticate)
			v.chal = append(v.chal, "P "+x.GetRealm()+" "+x.GetNonce())
		})
		sort.Strings(v.chal)
		if l := s.GetContactHeaders(); l != nil {
			for e := l.Front(); e != nil; e = e.Next() {
				v.contacts = append(v.contacts, nuri(e.Value.(*header.Contact).GetAddress().GetURI().String()))
			}
		}
		v.body = s.GetContent()
	})
	return
}

type fkMeta struct {
	call *fkCall
	tx   int // of the client transaction that it belongs to
	inv  int // CANCEL: the one of the INVITE
	v    *fkView
	end  bool   // ACK of 2xx
	dlg  *fkDlg // request within a dialog: the end it is for
}

type fkCall struct {
	callid, ftag string
	method       string
	v            *fkView
	legs         []*fkDlg // of phones
	dlgs         []*fkDlg // of the caller
	final        int
	chal         []string
	plan         map[string]int // by phone
	wait         map[string]time.Duration
	cancelled    bool
	messy        bool // somebody gave up
	inv          *message.SIPRequest
	cl           *fkClient
	want, sentC  bool
	ruri         string
	forks        map[string]int // first requests by phone
}

// fkDlg is a dialog as one end sees it.
type fkDlg struct {
	call   *fkCall
	node   *fkNode
	caller bool
	tag    string // of the phone
	state  string // ringing, answered, up, over
	key    string
	seq    int
	target address.URI
	tv     string // target, as meant
	routes []address.URI
	rv     []string // routes, as meant
	local  *header.From
	remote *header.To
	sv     *fkServer
	ack    []byte
	ackM   *fkMeta
	ackTo  string
	peer   *fkDlg
	bye    bool
}

type fkServer struct {
	tx    int
	key   string
	from  string
	req   *message.SIPRequest
	v     *fkView
	last  []byte
	lastM *fkMeta
	code  int // final response that was sent
	acked bool
	meta  *fkMeta
	leg   *fkDlg
	ctx   *fkCtx
}

type fkClient struct {
	tx   int
	key  string
	req  *message.SIPRequest
	v    *fkView
	to   string
	prov bool
	done bool
	on   func(m *message.SIPResponse, meta *fkMeta)
	ack  []byte
	ackM *fkMeta
}

// fkCtx is the response context of a proxy.
type fkCtx struct {
	sv   *fkServer
	brs  []*fkBranch
	sent bool // a final response went back
}

type fkBranch struct {
	cl    *fkClient
	code  int // final
	resp  *message.SIPResponse
	v     *fkView
	want  bool // to be cancelled
	sentC bool
}

type fkNode struct {
	name        string
	uri         string // what a proxy records
	proxy       bool
	strict, rec bool
	srv         []*fkServer
	cli         []*fkClient
	users       map[string][]string // location service
}

func fkRank(code int) int {
	switch {
	case code/100 == 2:
		return 0
	case code/100 == 6:
		return 1
	case code/100 == 3:
		return 2
	case code == 401 || code == 407:
		return 3
	case code/100 == 4:
		return 4
	}
	return 5
}

func fkHash(v *fkView) string {
	h := fnv.New32a()
	fmt.Fprint(h, v.target, v.routes, v.callid, v.ftag, v.ttag, v.seq, v.cmethod, v.preq)
	return fmt.Sprintf("%08x", h.Sum32())
}

func runForks(c *Ctx) {
	t := c.T
	a := newApp(c)
	g, net := a.g, a.net
	net.MaxEvents = 30000
	if net.Loss > 35 {
		net.Loss = 35
	}
	const heal = 100 * time.Second
	ntx := 0
	nodes := map[string]*fkNode{}
	var proxies, phones []*fkNode
	add := func(name string) *fkNode {
		n := &fkNode{name: name, users: map[string][]string{}}
		nodes[name] = n
		return n
	}
	const dom = ".example.net"
	caller := add("ua")
	nodeOf := func(uri string) string { // where a URI leads
		s := uri[strings.IndexByte(uri, ':')+1:]
		if k := strings.IndexByte(s, '@'); k >= 0 {
			s = s[k+1:]
		}
		return s[:strings.IndexByte(s, '.')]
	}
	users := []string{"bob", "carol"}
	for i := t.Range(1, 4); i > 0; i-- {
		p := add(fmt.Sprintf("px%d", i))
		p.proxy = true
		p.strict, p.rec = t.Chance(20), t.Chance(70)
		p.uri = "sip:" + p.name + dom + ";lr"
		if p.strict {
			p.uri = "sip:" + p.name + dom + t.Of("", ";transport=udp")
		}
		proxies = append(proxies, p)
	}
	for i := t.Range(1, 4); i > 0; i-- {
		phones = append(phones, add(fmt.Sprintf("ph%d", i)))
	}
	contact := func(n *fkNode) string { return "sip:" + n.name + "@" + n.name + dom + ";transport=udp" }
	for _, p := range proxies {
		for _, u := range users {
			n := t.Pick(1, 4, 4, 2)
			for k := 0; k < n; k++ {
				x := contact(phones[t.Intn(len(phones))])
				if k == 0 && t.Chance(50) {
					x = "sip:" + users[t.Intn(2)] + "@" + proxies[t.Intn(len(proxies))].name + dom
				}
				dup := false
				for _, y := range p.users[u] {
					dup = dup || y == x
				}
				if !dup {
					p.users[u] = append(p.users[u], x)
				}
			}
		}
	}

	retry := func(n int, wait time.Duration, send func(), stop func() bool, lost func()) {
		var again func(n int, wait time.Duration)
		again = func(n int, wait time.Duration) {
			if stop() {
				return
			}
			if n == 0 {
				if lost != nil {
					lost()
				}
				return
			}
			send()
			next := 2 * wait
			if next > 4*time.Second {
				next = 4 * time.Second
			}
			net.At(wait, func() { again(n-1, next) })
		}
		again(n, wait)
	}
	branch := func(v *fkView) string {
		b := cookie + g.uniq("f")
		if v != nil {
			b += "." + fkHash(v)
		}
		return b
	}

	// ---- changes, made to a message and to what it means
	pushVia := func(n *fkNode, m message.Message, v *fkView, br string) {
		x := mkVia(c, avia{transport: "UDP", host: n.name + dom, branch: br})
		c.Lib("putting a Via on top", 0, func() {
			s := sipm(m)
			switch {
			case !s.HasHeader("Via") || t.Bool():
				s.AddHeader(x)
			case t.Bool():
				s.GetViaHeaders().PushFront(x)
			default:
				a.must("AttachHeader3", s.AttachHeader3(x, false, true))
			}
		})
		v.vias = append([]string{n.name + dom + " " + br}, v.vias...)
	}
	popVia := func(m message.Message, v *fkView) {
		c.Lib("taking the top Via off", 0, func() {
			if l := sipm(m).GetViaHeaders(); l.Len() > 1 && t.Bool() {
				l.Remove(l.Front())
			} else {
				sipm(m).RemoveHeader2("Via", true)
			}
		})
		v.vias = v.vias[1:]
	}
	setTarget := func(r *message.SIPRequest, v *fkView, uri string) {
		c.Lib("SetRequestURI", 0, func() { r.SetRequestURI(mkURI(c, uri)) })
		v.target = nuri(uri)
	}
	popRoute := func(r *message.SIPRequest, v *fkView, top bool) (uri string) {
		c.Lib("taking a Route off", 0, func() {
			l := r.GetRouteHeaders()
			e := l.Front()
			if !top {
				e = l.Back()
			}
			uri = e.Value.(*header.Route).GetAddress().GetURI().String()
			if l.Len() > 1 && t.Bool() {
				l.Remove(e)
			} else {
				r.RemoveHeader2("Route", top)
			}
		})
		if top {
			v.routes = v.routes[1:]
		} else {
			v.routes = v.routes[:len(v.routes)-1]
		}
		if len(v.routes) == 0 {
			v.routes = nil
		}
		return
	}
	addRoute := func(r *message.SIPRequest, v *fkView, uri string) {
		x := header.NewRouteFromAddress(mkAddr(c, uri))
		c.Lib("adding a Route", 0, func() {
			if t.Bool() {
				r.AddHeader(x)
			} else {
				a.must("AttachHeader3", r.AttachHeader3(x, false, false))
			}
		})
		v.routes = append(append([]string(nil), v.routes...), nuri(uri))
	}
	lr := func(r *message.SIPRequest, uri string) (b bool) {
		c.Lib("HasLrParam", 0, func() {
			b = r.GetRouteHeaders().Front().Value.(*header.Route).GetAddress().GetURI().(*address.SipURIImpl).HasLrParam()
		})
		if b != strings.Contains(uri, ";lr") {
			c.Fail("lr", "HasLrParam of %q is %v", uri, b)
		}
		return
	}
	// route says where a request goes next, changing it for a strict router.
	route := func(r *message.SIPRequest, v *fkView) string {
		if len(v.routes) == 0 {
			return nodeOf(v.target)
		}
		if !lr(r, v.routes[0]) {
			c.Probe("to a strict router")
			var uri string
			c.Lib("GetRequestURI", 0, func() { uri = r.GetRequestURI().String() })
			addRoute(r, v, uri)
			setTarget(r, v, popRoute(r, v, true))
			return nodeOf(v.target)
		}
		return nodeOf(v.routes[0])
	}

	// ---- transactions
	client := func(n *fkNode, to string, r *message.SIPRequest, v *fkView, meta *fkMeta, on func(*message.SIPResponse, *fkMeta), lost func()) *fkClient {
		ntx++
		b := encodeMsg(c, r)
		cl := &fkClient{tx: ntx, key: txid(c, r) + " " + v.method, req: r, v: v, to: to, on: on}
		n.cli = append(n.cli, cl)
		m := *meta
		m.tx, m.v = ntx, v
		num := 16
		if v.method == "BYE" {
			num = 200
		}
		retry(num, 500*time.Millisecond, func() { a.send(n.name, to, b, &m) },
			func() bool { return cl.done || cl.prov && v.method == "INVITE" },
			func() {
				c.Probe("no answer: " + v.method)
				m.call.messy = true
				if lost != nil {
					cl.done = true
					lost()
				}
			})
		return cl
	}
	// respond sends a response within a server transaction.
	respond := func(n *fkNode, sv *fkServer, resp *message.SIPResponse, v *fkView) {
		sv.last = encodeMsg(c, resp)
		sv.lastM = &fkMeta{call: sv.meta.call, tx: sv.tx, v: v, dlg: sv.meta.dlg}
		b, m := sv.last, sv.lastM
		a.send(n.name, sv.from, b, m)
		if v.code < 200 {
			return
		}
		sv.code = v.code
		if sv.v.method != "INVITE" || v.code < 300 {
			return
		}
		net.At(500*time.Millisecond, func() {
			retry(16, time.Second, func() { a.send(n.name, sv.from, b, m) }, func() bool { return sv.acked }, func() {
				c.Probe("no ACK for a refusal")
				m.call.messy = true
			})
		})
	}
	answer := func(n *fkNode, sv *fkServer, code int, tag string, edit func(r *message.SIPResponse, v *fkView)) {
		v := &fkView{code: code, seq: sv.v.seq, cmethod: sv.v.method, maxfwd: -1, vias: sv.v.vias, rr: sv.v.rr, callid: sv.v.callid, ftag: sv.v.ftag, ttag: sv.v.ttag}
		var resp *message.SIPResponse
		c.Lib("answering", 0, func() {
			resp = sv.req.CreateResponse(code)
			if tag != "" && v.ttag == "" {
				resp.SetToTag(tag)
				v.ttag = tag
			}
			if edit != nil {
				edit(resp, v)
			}
		})
		respond(n, sv, resp, v)
	}
	put := func(m message.Message, h header.Header) { c.Lib("AddHeader", 0, func() { sipm(m).AddHeader(h) }) }
	option := func(m message.Message, tags []string) {
		for _, x := range tags {
			h := header.NewUnsupported()
			a.must("Unsupported", h.SetOptionTag(x))
			put(m, h)
		}
	}

	// ---- dialogs
	within := func(d *fkDlg, method string, seq int) (r *message.SIPRequest, v *fkView, to string) {
		c.Lib("making "+method, 0, func() {
			r = message.NewSIPRequest()
			r.SetMethod(method)
			r.SetRequestURI(d.target.Clone().(address.URI))
			r.SetFrom(d.local.Clone().(*header.From))
			r.SetTo(d.remote.Clone().(*header.To))
			id, err := header.NewCallID(d.call.callid)
			a.must("Call-ID", err)
			r.SetCallId(id)
			r.SetCSeq(header.NewCSeq(seq, method))
			mf := header.NewMaxForwards()
			a.must("Max-Forwards", mf.SetMaxForwards(70))
			r.SetMaxForwards(mf)
			l := header.NewRouteList()
			for _, u := range d.routes {
				ad := address.NewAddressImpl()
				ad.SetURI(u.Clone().(address.URI))
				l.PushBack(header.NewRouteFromAddress(ad))
			}
			if l.Len() > 0 {
				r.SetHeader(l)
			}
		})
		v = &fkView{method: method, seq: seq, cmethod: method, target: d.tv, maxfwd: 70, routes: d.rv, callid: d.call.callid}
		v.ftag, v.ttag = d.call.ftag, d.tag
		if !d.caller {
			v.ftag, v.ttag = v.ttag, v.ftag
		}
		to = route(r, v)
		pushVia(d.node, r, v, branch(nil))
		return
	}
	over := func(d *fkDlg) { d.state = "over" }
	bye := func(d *fkDlg) {
		if d.bye {
			return
		}
		d.bye = true
		over(d)
		c.Probe("BYE")
		d.seq++
		r, v, to := within(d, "BYE", d.seq)
		client(d.node, to, r, v, &fkMeta{call: d.call, dlg: d.peer}, func(*message.SIPResponse, *fkMeta) {}, nil)
	}
	info := func(d *fkDlg) {
		d.seq++
		r, v, to := within(d, "INFO", d.seq)
		c.Probe("INFO")
		client(d.node, to, r, v, &fkMeta{call: d.call, dlg: d.peer}, func(*message.SIPResponse, *fkMeta) {}, nil)
	}
	// learn fills in the other end and the way to it.
	learn := func(d *fkDlg, m message.Message, v *fkView) {
		if len(v.contacts) != 1 {
			c.Fail("contact", "the Contact is lost: %q", bytesOf(m))
		}
		c.Lib("learning a dialog", 0, func() {
			s := sipm(m)
			d.target = s.GetContactHeaders().Front().Value.(*header.Contact).GetAddress().GetURI()
			d.tv = v.contacts[0]
			d.routes, d.rv = nil, nil
			if l := s.GetRecordRouteHeaders(); l != nil {
				for e := l.Front(); e != nil; e = e.Next() {
					u := e.Value.(*header.RecordRoute).GetAddress().GetURI()
					if d.caller {
						d.routes = append([]address.URI{u}, d.routes...)
					} else {
						d.routes = append(d.routes, u)
					}
				}
			}
			for _, x := range v.rr {
				if d.caller {
					d.rv = append([]string{x}, d.rv...)
				} else {
					d.rv = append(d.rv, x)
				}
			}
			if d.caller {
				d.local = s.GetFrom().(*header.From).Clone().(*header.From)
				d.remote = s.GetTo().(*header.To).Clone().(*header.To)
			} else {
				d.local, d.remote = header.NewFrom(), header.NewTo()
				d.local.CloneTo(s.GetTo().(*header.To))
				d.remote.CloneFrom(s.GetFrom().(*header.From))
				a.must("tag", d.local.SetTag(d.tag))
			}
		})
	}
	sendAck := func(n *fkNode, cl *fkClient, resp *message.SIPResponse, meta *fkMeta) { // of a refusal
		if cl.ack == nil {
			v := cl.v.clone()
			v.method, v.cmethod, v.routes, v.vias, v.ttag = "ACK", "ACK", nil, cl.v.vias[:1], meta.v.ttag
			var r *message.SIPRequest
			c.Lib("CreateAckRequest", 0, func() {
				r = cl.req.CreateAckRequest(resp.GetTo().(*header.To))
				r.RemoveHeader("Route")
			})
			cl.ack, cl.ackM = encodeMsg(c, r), &fkMeta{call: meta.call, tx: cl.tx, v: v}
		}
		a.send(n.name, cl.to, cl.ack, cl.ackM)
	}
	sendCancel := func(n *fkNode, cl *fkClient, call *fkCall) {
		c.Probe("CANCEL")
		v := cl.v.clone()
		v.method, v.cmethod, v.vias, v.preq = "CANCEL", "CANCEL", cl.v.vias[:1], nil
		var r *message.SIPRequest
		c.Lib("CreateCancelRequest", 0, func() { r = cl.req.CreateCancelRequest() })
		client(n, cl.to, r, v, &fkMeta{call: call, inv: cl.tx}, func(*message.SIPResponse, *fkMeta) {}, nil)
	}

	// ---- proxies
	var decide func(n *fkNode, x *fkCtx)
	cancelBranch := func(n *fkNode, x *fkCtx, b *fkBranch) {
		if b.code != 0 || b.cl.v.method != "INVITE" {
			return
		}
		b.want = true
		if b.cl.prov && !b.sentC {
			b.sentC = true
			sendCancel(n, b.cl, x.sv.meta.call)
			net.At(80*time.Second, func() { // no answer even to that
				if b.code == 0 {
					c.Probe("given up after CANCEL")
					x.sv.meta.call.messy = true
					b.code = 408
					decide(n, x)
				}
			})
		}
	}
	decide = func(n *fkNode, x *fkCtx) {
		var best *fkBranch
		for _, b := range x.brs {
			if b.code == 0 {
				return
			}
			if b.code >= 300 && (best == nil || fkRank(b.code) < fkRank(best.code)) {
				best = b
			}
		}
		if x.sent || best == nil {
			return
		}
		x.sent = true
		if best.resp == nil {
			answer(n, x.sv, best.code, g.uniq("t"), nil)
			return
		}
		resp, v := best.resp, best.v.clone()
		if best.code == 401 || best.code == 407 {
			for _, b := range x.brs {
				if b == best || b.resp == nil || b.code != 401 && b.code != 407 {
					continue
				}
				c.Probe("challenges gathered")
				c.Lib("gathering challenges", 0, func() {
					from := sipm(b.resp)
					for _, name := range []string{core.SIPHeaderNames_WWW_AUTHENTICATE, core.SIPHeaderNames_PROXY_AUTHENTICATE} {
						if !from.HasHeader(name) {
							continue
						}
						if t.Bool() {
							for e := from.GetHeaders(name).Front(); e != nil; e = e.Next() {
								resp.AddHeader(e.Value.(header.Header))
							}
						} else {
							a.must("AttachHeader3", resp.AttachHeader3(from.GetSIPHeaderList(name).Clone().(header.Header), false, t.Bool()))
						}
					}
				})
				v.chal = append(append([]string(nil), v.chal...), b.v.chal...)
			}
			sort.Strings(v.chal)
		}
		respond(n, x.sv, resp, v)
	}
	onBranch := func(n *fkNode, x *fkCtx, b *fkBranch, resp *message.SIPResponse, meta *fkMeta) {
		v := meta.v
		code := v.code
		if code < 200 && b.want && !b.sentC {
			cancelBranch(n, x, b)
		}
		if code == 100 {
			return
		}
		if code >= 300 && b.cl.v.method == "INVITE" {
			sendAck(n, b.cl, resp, meta)
		}
		if b.code != 0 && !(code/100 == 2 && b.cl.v.method == "INVITE") {
			return // again
		}
		up := v.clone()
		popVia(resp, up)
		switch {
		case code < 200:
			if x.sv.code == 0 && !x.sent {
				respond(n, x.sv, resp, up)
			}
		case code < 300:
			first := b.code == 0
			b.code = code
			if b.cl.v.method == "INVITE" || !x.sent {
				x.sent = true
				c.Probe("2xx passed on")
				respond(n, x.sv, resp, up)
			}
			if first {
				for _, y := range x.brs {
					if y != b {
						cancelBranch(n, x, y)
					}
				}
			}
		default:
			b.code, b.resp, b.v = code, resp, up
			if code/100 == 6 {
				for _, y := range x.brs {
					if y != b {
						cancelBranch(n, x, y)
					}
				}
			}
			decide(n, x)
		}
	}
	// preprocess is RFC 3261, 16.4, or what a strict router does.
	preprocess := func(n *fkNode, r *message.SIPRequest, v *fkView) {
		if n.strict {
			if len(v.routes) > 0 {
				c.Probe("routed strictly")
				setTarget(r, v, popRoute(r, v, true))
			}
			return
		}
		if len(v.routes) > 0 && v.target == nuri(n.uri) {
			c.Probe("from a strict router")
			setTarget(r, v, popRoute(r, v, false))
		}
		if len(v.routes) > 0 && v.routes[0] == nuri(n.uri) {
			popRoute(r, v, true)
		}
	}
	next := func(n *fkNode, r *message.SIPRequest, v *fkView) string {
		if n.strict {
			return nodeOf(v.target)
		}
		return route(r, v)
	}
	dup := func(r *message.SIPRequest) *message.SIPRequest {
		if t.Bool() {
			return copyMsg(c, r).(*message.SIPRequest)
		}
		return a.own(encodeMsg(c, r)).(*message.SIPRequest)
	}
	hopLess := func(r *message.SIPRequest, v *fkView) {
		c.Lib("Max-Forwards", 0, func() {
			switch mf, _ := r.GetHeader("Max-Forwards").(*header.MaxForwards); {
			case mf == nil:
				mf = header.NewMaxForwards()
				a.must("Max-Forwards", mf.SetMaxForwards(70))
				r.SetMaxForwards(mf)
				v.maxfwd = 71
			case t.Bool():
				a.must("DecrementMaxForwards", mf.DecrementMaxForwards())
			default:
				a.must("SetMaxForwards", mf.SetMaxForwards(mf.GetMaxForwards()-1))
			}
		})
		v.maxfwd--
	}
	forward := func(n *fkNode, sv *fkServer) {
		x := &fkCtx{sv: sv}
		sv.ctx = x
		v := sv.v.clone()
		call := sv.meta.call
		var bad []string
		for _, y := range v.preq {
			if !strings.EqualFold(y, "known") {
				bad = append(bad, y)
			}
		}
		loop := false
		for _, y := range v.vias {
			loop = loop || strings.HasPrefix(y, n.name+dom+" ") && strings.HasSuffix(y, "."+fkHash(v))
		}
		refuse := func(code int) {
			x.sent = true
			c.Probe(fmt.Sprintf("refused by a proxy: %d", code))
			answer(n, sv, code, g.uniq("t"), func(r *message.SIPResponse, v *fkView) {
				if code == 420 {
					v.unsup = bad
					option(r, bad)
				}
			})
		}
		switch {
		case v.maxfwd == 0:
			refuse(483)
			return
		case loop:
			refuse(482)
			return
		case bad != nil:
			refuse(420)
			return
		}
		base := dup(sv.req)
		preprocess(n, base, v)
		var targets []string
		if len(v.routes) == 0 && nodeOf(v.target) == n.name && v.ttag == "" {
			user := v.target[len("sip:"):]
			if k := strings.IndexByte(user, '@'); k >= 0 {
				user = user[:k]
			}
			targets = n.users[user]
		} else {
			targets = []string{""}
		}
		if len(targets) == 0 {
			refuse(480)
			return
		}
		if len(targets) > 1 {
			c.Probe("forked")
		}
		c.Nontriv = true
		if v.method == "INVITE" {
			answer(n, sv, 100, "", nil)
		}
		for i, uri := range targets {
			r, w := base, v.clone()
			if i < len(targets)-1 {
				r = dup(base)
			}
			if uri != "" {
				setTarget(r, w, uri)
			}
			hopLess(r, w)
			if n.rec && w.method == "INVITE" {
				h := header.NewRecordRouteFromAddress(mkAddr(c, n.uri))
				c.Lib("recording the route", 0, func() {
					if l := r.GetRecordRouteHeaders(); l != nil && t.Bool() {
						l.PushFront(h)
					} else {
						a.must("AttachHeader3", r.AttachHeader3(h, false, true))
					}
				})
				w.rr = append([]string{nuri(n.uri)}, w.rr...)
			}
			to := next(n, r, w)
			pushVia(n, r, w, branch(sv.v))
			b := &fkBranch{}
			x.brs = append(x.brs, b)
			b.cl = client(n, to, r, w, sv.meta, func(resp *message.SIPResponse, meta *fkMeta) { onBranch(n, x, b, resp, meta) }, func() {
				if b.code == 0 {
					b.code = 408
					decide(n, x)
				}
			})
			if w.method == "INVITE" {
				net.At(40*time.Second, func() { // timer C
					if b.code == 0 {
						c.Probe("timer C")
						call.messy = true
						cancelBranch(n, x, b)
					}
				})
			}
		}
	}

	// ---- phones
	ring := func(n *fkNode, sv *fkServer) {
		call := sv.meta.call
		for _, y := range call.legs {
			if y.node == n {
				c.Probe("merged request")
				answer(n, sv, 482, g.uniq("m"), nil)
				return
			}
		}
		call.forks[n.name]++
		d := &fkDlg{call: call, node: n, tag: g.uniq("p"), sv: sv, state: "ringing", seq: 7}
		sv.leg = d
		call.legs = append(call.legs, d)
		plan := call.plan[n.name]
		realm := t.Of("gate of "+n.name, "example.net")
		finish := func() {
			if d.state != "ringing" {
				return
			}
			answer(n, sv, plan, d.tag, func(r *message.SIPResponse, v *fkView) {
				switch plan {
				case 200:
					if call.method == "INVITE" {
						x := header.NewContact()
						x.SetAddress(mkAddr(c, contact(n)))
						r.AddHeader(x)
						v.contacts = []string{nuri(contact(n))}
					}
				case 302:
					for k := 0; k < 2; k++ {
						u := fmt.Sprintf("sip:else%d@elsewhere.example.org;x=%s", k, n.name)
						x := header.NewContact()
						x.SetAddress(mkAddr(c, u))
						r.AddHeader(x)
						v.contacts = append(v.contacts, nuri(u))
					}
				case 401:
					h := header.NewWWWAuthenticate()
					h.SetScheme("Digest")
					a.must("realm", h.SetRealm(realm))
					a.must("nonce", h.SetNonce(d.tag))
					r.AddHeader(h)
					v.chal = []string{"W " + realm + " " + d.tag}
				case 407:
					h := header.NewProxyAuthenticate()
					h.SetScheme("Digest")
					a.must("realm", h.SetRealm(realm))
					a.must("nonce", h.SetNonce(d.tag))
					r.AddHeader(h)
					v.chal = []string{"P " + realm + " " + d.tag}
				}
				if plan == 401 || plan == 407 {
					call.chal = append(call.chal, v.chal...)
				}
			})
			if call.method != "INVITE" || plan != 200 {
				over(d)
				return
			}
			d.state = "answered"
			learn(d, sv.req, sv.v)
			d.key = dialogID2(c, sv.req, true, d.tag)
			b, m := sv.last, sv.lastM
			net.At(500*time.Millisecond, func() {
				retry(16, time.Second, func() { a.send(n.name, sv.from, b, m) }, func() bool { return sv.acked }, func() {
					c.Probe("no ACK for an answer")
					call.messy = true
					if d.state == "answered" {
						bye(d)
					}
				})
			})
		}
		if call.method != "INVITE" {
			if plan == 0 {
				plan = 200
			}
			finish()
			return
		}
		if t.Chance(70) {
			answer(n, sv, 180, d.tag, func(r *message.SIPResponse, v *fkView) {
				x := header.NewContact()
				x.SetAddress(mkAddr(c, contact(n)))
				r.AddHeader(x)
				v.contacts = []string{nuri(contact(n))}
			})
		} else {
			answer(n, sv, 100, "", nil)
		}
		wait := call.wait[n.name]
		if plan == 0 {
			plan, wait = 480, 180*time.Second
		}
		net.At(wait, finish)
	}

	// ---- receiving
	request := func(n *fkNode, d *Dgram, meta *fkMeta) {
		req, keep := a.readRequest(n.name, d.Data)
		v := fkRead(c, req)
		if v.String() != meta.v.String() {
			c.Fail("read:request", "a request is read as %v, meant was %v: %q", v, meta.v, keep)
		}
		id := txid(c, req)
		find := func(key string, tx int, what string) *fkServer {
			var sv, truth *fkServer
			for _, x := range n.srv {
				if x.key == key {
					sv = x
				}
				if x.tx == tx {
					truth = x
				}
			}
			if sv != truth {
				c.Fail("match:"+what, "%s finds its transaction %v, want %v: %q", what, sv != nil, truth != nil, keep)
			}
			return sv
		}
		if v.method == "ACK" && !meta.end {
			if sv := find(id+" INVITE", meta.tx, "ACK"); sv != nil {
				sv.acked = true
			}
			return
		}
		sv := find(id+" "+v.method, meta.tx, v.method)
		if sv != nil {
			if sv.last != nil && v.method != "ACK" {
				c.Probe("retransmission recognised")
				a.send(n.name, sv.from, sv.last, sv.lastM)
			}
			return
		}
		sv = &fkServer{tx: meta.tx, key: id + " " + v.method, from: d.From, req: req, v: meta.v, meta: meta}
		if v.method != "ACK" {
			n.srv = append(n.srv, sv)
		}
		switch {
		case v.method == "CANCEL":
			inv := find(id+" INVITE", meta.inv, "CANCEL")
			if inv == nil {
				answer(n, sv, 481, g.uniq("t"), nil)
				return
			}
			answer(n, sv, 200, g.uniq("t"), nil)
			if x := inv.ctx; x != nil {
				for _, b := range x.brs {
					cancelBranch(n, x, b)
				}
			} else if l := inv.leg; l != nil && l.state == "ringing" {
				over(l)
				answer(n, inv, 487, l.tag, nil)
			}
		case n.proxy && v.method == "ACK": // forwarded without state
			w := meta.v.clone()
			preprocess(n, req, w)
			hopLess(req, w)
			to := next(n, req, w)
			pushVia(n, req, w, branch(meta.v))
			ntx++
			a.send(n.name, to, encodeMsg(c, req), &fkMeta{call: meta.call, tx: ntx, v: w, end: true, dlg: meta.dlg})
		case n.proxy:
			forward(n, sv)
		case v.ttag == "":
			if n == caller {
				c.Fail("misrouted", "the caller receives %q", keep)
			}
			ring(n, sv)
		default:
			key := dialogID(c, req, true)
			var e *fkDlg
			l := meta.call.legs
			if n == caller {
				l = meta.call.dlgs
			}
			for _, x := range l {
				if x.node == n && x.key == key && x.key != "" {
					e = x
				}
			}
			want := meta.dlg
			if want == nil && v.method != "ACK" && n != caller {
				Harness("no dialog")
			}
			if n == caller && want == nil { // one that it does not know
				for _, x := range meta.call.dlgs {
					if x.tag == v.ftag {
						want = x
					}
				}
			}
			if e != want || e != nil && e.node != n {
				c.Fail("match:dialog", "%s finds dialog %v, want %v: %q", v.method, e != nil, want != nil, keep)
			}
			if e != nil && v.target != nuri(contact(n)) || len(v.routes) > 0 {
				c.Fail("route", "%s arrives for %q with routes %q: %q", v.method, v.target, v.routes, keep)
			}
			switch {
			case v.method == "ACK":
				if e.state == "answered" {
					e.state = "up"
				}
				e.sv.acked = true
			case e == nil || e.state == "over":
				answer(n, sv, 481, "", nil)
			case v.method == "BYE":
				answer(n, sv, 200, "", nil)
				if e.sv != nil {
					e.sv.acked = true
				}
				over(e)
			default:
				answer(n, sv, 200, "", nil)
			}
		}
	}
	names := []string{"ua"}
	for _, p := range append(append([]*fkNode(nil), proxies...), phones...) {
		names = append(names, p.name)
	}
	for _, name := range names {
		n := nodes[name]
		net.Listen(name, func(d *Dgram) {
			meta := d.Meta.(*fkMeta)
			if meta.v.code == 0 {
				request(n, d, meta)
				return
			}
			resp, keep := a.readResponse(n.name, d.Data)
			v := fkRead(c, resp)
			if v.String() != meta.v.String() {
				c.Fail("read:response", "a response is read as %v, meant was %v: %q", v, meta.v, keep)
			}
			key := txid(c, resp) + " " + v.cmethod
			var cl, truth *fkClient
			for _, x := range n.cli {
				if x.key == key {
					cl = x
				}
				if x.tx == meta.tx {
					truth = x
				}
			}
			if cl != truth || cl == nil {
				c.Fail("match:response", "a response finds its branch %v, want %v: %q", cl != nil, truth != nil, keep)
			}
			cl.prov = true
			if cl.v.method != "INVITE" && v.code >= 200 {
				if cl.done {
					return
				}
				cl.done = true
			}
			if v.code >= 200 {
				cl.done = true
			}
			cl.on(resp, meta)
		})
	}

	// ---- the caller
	finish := func(call *fkCall, code int, chal []string) {
		if call.final != 0 {
			return
		}
		call.final = code
		c.Probe(fmt.Sprintf("outcome %d", code))
		// what the proxies are to make of it
		if call.messy || call.cancelled {
			return
		}
		codes := map[int]bool{}
		seen := map[string]bool{}
		never := false
		var walk func(p *fkNode, target string, mf int, path string)
		walk = func(p *fkNode, target string, mf int, path string) {
			key := p.name + " " + target
			switch {
			case mf == 0:
				codes[483] = true
				return
			case strings.Contains(path, "|"+key+"|"):
				codes[482] = true
				return
			case len(call.v.preq) > 0 && call.v.preq[len(call.v.preq)-1] != "known":
				codes[420] = true
				return
			}
			if mf < 0 {
				mf = 71
			}
			var l []string
			if nodeOf(target) == p.name {
				l = p.users[target[4:strings.IndexByte(target, '@')]]
			} else {
				l = []string{target}
			}
			if len(l) == 0 {
				codes[480] = true
			}
			for _, y := range l {
				if q := nodes[nodeOf(y)]; q.proxy {
					walk(q, y, mf-1, path+"|"+key+"|")
				} else if seen[q.name] {
					codes[482] = true
				} else {
					seen[q.name] = true
					k := call.plan[q.name]
					if k == 0 && call.method != "INVITE" {
						k = 200
					}
					never = never || k == 0
					codes[k] = true
				}
			}
		}
		if len(call.v.routes) > 0 || nodes[nodeOf(call.v.target)] == nil || nodeOf(call.ruri) != nodeOf(call.v.target) {
			return // more than one proxy before the first fork
		}
		walk(nodes[nodeOf(call.ruri)], call.ruri, call.v.maxfwd, "")
		if codes[200] && codes[603] {
			return // whichever is first
		}
		best := 99
		for k := range codes {
			if k != 0 && fkRank(k) < best {
				best = fkRank(k)
			}
		}
		if never && best > 1 {
			return
		}
		if fkRank(code) != best {
			c.Fail("best", "the caller gets %d, of %v", code, codes)
		}
		if code == 401 || code == 407 {
			w := append([]string(nil), call.chal...)
			sort.Strings(w)
			if fmt.Sprint(w) != fmt.Sprint(chal) {
				c.Fail("challenges", "the caller gets the challenges %q of %q", chal, w)
			}
		}
		c.Probe("outcome foreseen")
	}
	cancel := func(call *fkCall) {
		if call.want && !call.sentC && call.cl.prov && call.final == 0 {
			call.sentC = true
			sendCancel(caller, call.cl, call)
		}
	}
	start := func(call *fkCall) {
		v := call.v
		m := a.slim(call.method, auri{text: call.ruri}, "ua"+dom, call.callid, v.seq, a.party("alice", "example.net", call.ftag), a.party("bob", "example.net", ""))
		m.vias[0].branch = cookie + g.uniq("u")
		m.maxfwd = v.maxfwd
		for _, x := range v.preq {
			m.hdrs = append(m.hdrs, ahdr{"Proxy-Require", x})
		}
		if call.method == "INVITE" {
			m.contacts = []aaddr{{uri: auri{text: contact(caller)}, tmpl: "<" + contact(caller) + ">"}}
			v.contacts = []string{nuri(contact(caller))}
		}
		if t.Chance(30) {
			v.body = "hello\r\n"
			m.ctype, m.body = "text/plain", []byte(v.body)
		}
		var r *message.SIPRequest
		if t.Bool() {
			mf := m.maxfwd
			if mf < 0 {
				m.maxfwd = 70
			}
			r = a.build(m)
			c.Lib("building", 0, func() {
				if mf < 0 {
					r.RemoveHeader("Max-Forwards")
				}
				for _, x := range v.preq {
					h := header.NewProxyRequire()
					a.must("Proxy-Require", h.SetOptionTag(x))
					r.AddHeader(h)
				}
				if call.method == "INVITE" {
					x := header.NewContact()
					x.SetAddress(mkAddr(c, contact(caller)))
					r.AddHeader(x)
				}
				if v.body != "" {
					ct := header.NewContentType()
					ct.SetContentType("text")
					ct.SetContentSubType("plain")
					r.SetContent([]byte(v.body), ct)
				}
			})
		} else {
			r = a.own(m.encode(g.style())).(*message.SIPRequest)
		}
		v.vias = []string{"ua" + dom + " " + m.vias[0].branch}
		v.target = nuri(call.ruri)
		for k := t.Pick(5, 2, 1); k > 0; k-- { // routes set beforehand
			addRoute(r, v, proxies[t.Intn(len(proxies))].uri)
		}
		to := route(r, v)
		call.inv = r
		call.cl = client(caller, to, r, v, &fkMeta{call: call}, func(resp *message.SIPResponse, meta *fkMeta) {
			s := meta.v
			switch {
			case call.method != "INVITE":
				if s.code >= 200 {
					finish(call, s.code, s.chal)
				}
			case s.code < 200:
				cancel(call)
			case s.code < 300:
				key := dialogID(c, resp, false)
				var e, want *fkDlg
				for _, x := range call.dlgs {
					if x.key == key {
						e = x
					}
					if x.tag == s.ttag {
						want = x
					}
				}
				if e != want {
					c.Fail("match:dialog", "an answer is of a known dialog %v, want %v: %q", e != nil, want != nil, bytesOf(resp))
				}
				if e != nil {
					a.send("ua", e.ackTo, e.ack, e.ackM)
					return
				}
				e = &fkDlg{call: call, node: caller, caller: true, tag: s.ttag, key: key, state: "up", seq: v.seq}
				for _, x := range call.legs {
					if x.tag == s.ttag {
						e.peer, x.peer = x, e
					}
				}
				if e.peer == nil {
					c.Fail("dialog", "nobody answered with tag %q", s.ttag)
				}
				call.dlgs = append(call.dlgs, e)
				learn(e, resp, s)
				ar, av, ato := within(e, "ACK", v.seq)
				ntx++
				e.ack, e.ackTo, e.ackM = encodeMsg(c, ar), ato, &fkMeta{call: call, tx: ntx, v: av, end: true, dlg: e.peer}
				a.send("ua", ato, e.ack, e.ackM)
				finish(call, s.code, nil)
				if len(call.dlgs) > 1 {
					c.Probe("a second phone answered")
					bye(e)
				} else {
					if t.Chance(30) {
						net.At(time.Second, func() {
							if e.state == "up" {
								info(e)
							}
						})
					}
					for _, x := range []*fkDlg{e, e.peer} {
						x := x
						if t.Chance(35) {
							net.At(time.Duration(t.Range(1, 60))*time.Second, func() {
								if x.state == "up" {
									bye(x)
								}
							})
						}
					}
				}
			default:
				sendAck(caller, call.cl, resp, meta)
				finish(call, s.code, s.chal)
			}
		}, func() { finish(call, 408, nil) })
		if call.method == "INVITE" && t.Chance(25) {
			net.At(time.Duration(t.Of1(0, 100, 1000, 6000))*time.Millisecond, func() {
				if call.final == 0 {
					call.cancelled, call.want = true, true
					cancel(call)
					net.At(90*time.Second, func() {
						if call.final == 0 {
							c.Probe("caller gives up")
							call.messy = true
							call.final = 408
						}
					})
				}
			})
		}
		net.At(230*time.Second, func() {
			if call.final == 0 {
				call.messy = true
				call.final = 408
			}
		})
	}
	var calls []*fkCall
	for i := t.Range(1, 3); i > 0; i-- {
		call := &fkCall{callid: g.callid(), ftag: g.uniq("c"), plan: map[string]int{}, wait: map[string]time.Duration{}, forks: map[string]int{}}
		call.method = t.Of("INVITE", "INVITE", "INVITE", "MESSAGE", "OPTIONS")
		call.ruri = "sip:" + users[t.Intn(2)] + "@" + proxies[t.Intn(len(proxies))].name + dom
		v := &fkView{method: call.method, cmethod: call.method, seq: t.Of1(1, 314159), maxfwd: t.Of1(70, 70, 70, 0, 1, 2, 255, -1), callid: call.callid, ftag: call.ftag}
		switch t.Pick(8, 1, 1) {
		case 1:
			v.preq = []string{"known"}
		case 2:
			v.preq = []string{"known", t.Of("unknown", "known2")}
			if t.Bool() {
				v.preq = append(v.preq, "x-"+g.uniq("o"))
			}
		}
		call.v = v
		for _, p := range phones {
			call.plan[p.name] = t.Of1(200, 486, 0, 401, 407, 404, 302, 500, 603, 200)
			call.wait[p.name] = time.Duration(t.Of1(0, 100, 2000, 10000)) * time.Millisecond
		}
		calls = append(calls, call)
		net.At(time.Duration(t.Of1(0, 0, 100, 5000))*time.Millisecond, func() { start(call) })
	}
	if t.Chance(25) {
		x, y := names[t.Intn(len(names))], names[t.Intn(len(names))]
		at := t.Range(0, 20)
		net.At(time.Duration(at)*time.Second, func() { net.Partition(x, y, true) })
		net.At(time.Duration(at+t.Of1(2, 10, 40))*time.Second, func() { net.Partition(x, y, false) })
	}
	net.At(heal, net.Heal)
	net.At(400*time.Second, func() {
		for _, call := range calls {
			if call.final == 0 {
				c.Fail("progress", "the caller still waits for %s although the network works again", call.callid)
			}
			for _, d := range call.legs {
				up := false
				for _, x := range call.dlgs {
					up = up || x.tag == d.tag && x.state == "up"
				}
				if d.state != "over" && d.state != "up" {
					c.Fail("progress", "%s is still %s although the network works again", d.node.name, d.state)
				}
				if (d.state == "up") != up {
					c.Fail("agreement", "%s is %s, at the caller the call is up: %v", d.node.name, d.state, up)
				}
			}
		}
	})
	net.Run()
	if net.Events >= net.MaxEvents {
		Harness("too many events")
	}
}
