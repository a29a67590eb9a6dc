package props

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"

	"verifsim/tape"
)

// Applications on top of the library, each with its reference model: what they
// make of the messages they read must be what the senders' intent prescribes.

func init() {
	Register(&Prop{
		ID: "C21", Title: "A registrar holds the bindings that the REGISTERs it got prescribe",
		Quick: 20000, Thorough: 1000000,
		Rule:   "one run has 1-3 user agents register, refresh, query and remove up to five contacts each with a registrar that is restarted now and then, and callers looking them up, over a lossy, reordering, duplicating network; non-trivial when a binding was stored or a fault struck",
		Real:   []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub:   []string{"network and clock (simulated)", "user agent, registrar and storage logic (harness)"},
		Assume: []string{"the model of the bindings states RFC 3261, section 10.3, correctly"},
		Run:    runRegistrar,
	})
}

// app is what the applications share.
type app struct {
	c    *Ctx
	t    *tape.T
	g    *G
	net  *Sim
	node map[string]*parser.StringMsgParser
}

func newApp(c *Ctx) *app {
	return &app{c: c, t: c.T, g: NewG(c), net: NewSim(c), node: map[string]*parser.StringMsgParser{}}
}

// read parses a datagram that is known to be sound.
func (a *app) read(me string, data []byte) (message.Message, []byte) {
	if a.node[me] == nil {
		a.node[me] = parser.NewStringMsgParser()
	}
	keep := append([]byte(nil), data...)
	m, err := parseMsg(a.c, a.node[me], data)
	if err != nil || m == nil {
		a.c.Fail("rejected", "a valid message is rejected (%v): %q", err, keep)
	}
	return m, keep
}

func (a *app) readRequest(me string, data []byte) (*message.SIPRequest, []byte) {
	m, keep := a.read(me, data)
	r, ok := m.(*message.SIPRequest)
	if !ok {
		a.c.Fail("kind", "a request was read as a response: %q", keep)
	}
	return r, keep
}

func (a *app) readResponse(me string, data []byte) (*message.SIPResponse, []byte) {
	m, keep := a.read(me, data)
	r, ok := m.(*message.SIPResponse)
	if !ok {
		a.c.Fail("kind", "a response was read as a request: %q", keep)
	}
	return r, keep
}

// must fails the run when a setter refuses a value that it documents as fine.
func (a *app) must(what string, err error) {
	if err != nil {
		a.c.Fail("refused", "%s is refused: %v", what, err)
	}
}

// slim makes a request that carries only what each must.
func (a *app) slim(method string, ruri auri, host, callid string, seq int, from, to aaddr) *amsg {
	m := &amsg{request: true, method: method, maxfwd: 70, seq: seq, ruri: ruri, from: from, to: to, callid: callid}
	m.vias = []avia{{transport: "UDP", host: host, branch: cookie + a.g.uniq("a")}}
	return m
}

// party makes an address of the plain kind.
func (a *app) party(user, host, tag string) aaddr {
	x := aaddr{uri: auri{scheme: "sip", user: user, host: host, text: "sip:" + user + "@" + host}, tag: tag}
	x.tmpl = "<" + x.uri.text + ">"
	if tag != "" {
		x.tmpl += "\x01;\x01tag\x01=\x01" + tag
	}
	return x
}

// build makes the request of a model through the library's setters. Contacts
// and other headers are left to the caller.
func (a *app) build(m *amsg) *message.SIPRequest {
	r := message.NewSIPRequest()
	a.c.Lib("building a request", 0, func() {
		r.SetMethod(m.method)
		r.SetRequestURI(mkURI(a.c, m.ruri.text))
		r.AddHeader(mkVia(a.c, m.vias[0]))
		from, to := header.NewFrom(), header.NewTo()
		from.SetAddress(mkAddr(a.c, m.from.uri.text))
		to.SetAddress(mkAddr(a.c, m.to.uri.text))
		if m.from.tag != "" {
			a.must("From tag", from.SetTag(m.from.tag))
		}
		if m.to.tag != "" {
			a.must("To tag", to.SetTag(m.to.tag))
		}
		r.SetFrom(from)
		r.SetTo(to)
		id, err := header.NewCallID(m.callid)
		a.must("Call-ID", err)
		r.SetCallId(id)
		r.SetCSeq(header.NewCSeq(m.seq, m.method))
		mf := header.NewMaxForwards()
		a.must("Max-Forwards", mf.SetMaxForwards(m.maxfwd))
		r.SetMaxForwards(mf)
	})
	return r
}

func (a *app) send(from, to string, b []byte, meta interface{}) { a.net.Send(from, to, b, meta) }

// aor names the user a URI stands for.
func (a *app) aor(u address.URI) string {
	s, ok := u.(*address.SipURIImpl)
	if !ok {
		a.c.Fail("kind", "the address %q is a %T", u.String(), u)
	}
	return s.GetUser() + "@" + strings.ToLower(s.GetHost())
}

// ---- C21 the registrar

type regContact struct {
	a   aaddr // without parameters
	q   string
	exp int // -1: no parameter
}

func (r regContact) tmpl() string {
	s := r.a.tmpl
	if r.q != "" {
		s += "\x01;\x01q\x01=\x01" + r.q
	}
	if r.exp >= 0 {
		s += "\x01;\x01expires\x01=\x01" + strconv.Itoa(r.exp)
	}
	return s
}

// regReq is what a user agent wants of the registrar.
type regReq struct {
	user     string
	callid   string
	seq      int
	branch   string
	contacts []regContact
	star     bool
	expires  int // Expires header, -1: none
}

type regBinding struct {
	uri    string
	callid string
	seq    int
	q      float32 // -1: none
	until  time.Duration
	stored string // Contact value on the registrar's disk
	c      *header.Contact
}

type regView struct {
	uri  string
	q    float32
	left int
}

type regAnswer struct {
	code int
	list []regView
	min  int
}

func (x regAnswer) String() string { return fmt.Sprintf("%d min %d %v", x.code, x.min, x.list) }

type regStore map[string][]*regBinding

const regDefault = 3600

// register is RFC 3261 section 10.3. It is run twice, on what the library read
// and on what the user agent meant.
func (st regStore) register(now time.Duration, min int, q *regReq, contacts []*regBinding, exps []int) (a regAnswer) {
	user := q.user
	live := st[user][:0:0]
	for _, b := range st[user] {
		if b.until > now {
			live = append(live, b)
		}
	}
	st[user] = live
	if q.star {
		if len(contacts) > 0 || q.expires != 0 {
			a.code = 400
			return
		}
		for _, b := range live {
			if b.callid == q.callid && q.seq <= b.seq {
				a.code = 500
				return
			}
		}
		st[user] = nil
		a.code = 200
		return
	}
	next := append([]*regBinding(nil), live...)
	for i, n := range contacts {
		exp := exps[i]
		if exp < 0 {
			exp = q.expires
		}
		if exp < 0 {
			exp = regDefault
		}
		if exp > 0 && exp < min {
			a.code, a.min = 423, min
			return
		}
		n.callid, n.seq, n.until = q.callid, q.seq, now+time.Duration(exp)*time.Second
		k := -1
		for j, b := range next {
			if b.uri == n.uri {
				k = j
			}
		}
		if k >= 0 && next[k].callid == q.callid && q.seq <= next[k].seq && live0(live, next[k]) {
			a.code = 500
			return
		}
		switch {
		case exp == 0 && k >= 0:
			next = append(next[:k:k], next[k+1:]...)
		case exp == 0:
		case k >= 0:
			next[k] = n
		default:
			next = append(next, n)
		}
	}
	st[user] = next
	a.code, a.list = 200, st.view(user, now)
	return
}

func live0(l []*regBinding, b *regBinding) bool {
	for _, x := range l {
		if x == b {
			return true
		}
	}
	return false
}

func (st regStore) view(user string, now time.Duration) (l []regView) {
	for _, b := range st[user] {
		if b.until > now {
			l = append(l, regView{b.uri, b.q, int((b.until - now + time.Second - 1) / time.Second)})
		}
	}
	return
}

// best is the live binding with the highest preference.
func (st regStore) best(user string, now time.Duration) (r *regBinding) {
	pref := func(b *regBinding) float32 {
		if b.q < 0 {
			return 1
		}
		return b.q
	}
	for _, b := range st[user] {
		if b.until > now && (r == nil || pref(b) > pref(r)) {
			r = b
		}
	}
	return
}

type regMeta struct {
	q   *regReq
	a   regAnswer
	uri auri // what a looked up request is for
}

func qOf(s string) float32 {
	if s == "" {
		return -1
	}
	f, _ := strconv.ParseFloat(s, 32)
	return float32(f)
}

func runRegistrar(c *Ctx) {
	t := c.T
	a := newApp(c)
	g, net := a.g, a.net
	const domain = "registrar.example.com"
	min := t.Of1(60, 60, 5, 600)
	lib, model := regStore{}, regStore{}
	libDone, modelDone := map[string][]byte{}, map[string]regAnswer{}
	users := []string{"alice", "bob", "Bob"}[:t.Range(1, 3)]

	// what the registrar reads from a Contact
	readContact := func(x *header.Contact, keep string) (b *regBinding, exp int) {
		u := x.GetAddress().GetURI()
		b = &regBinding{uri: nuri(u.String()), q: x.GetQValue(), c: x}
		if x.HasQValue() != (b.q >= 0) {
			c.Fail("contact:q", "HasQValue is %v but GetQValue %v in %q", x.HasQValue(), b.q, keep)
		}
		exp = -1
		if x.HasParameter("expires") {
			exp = x.GetExpires()
		}
		return
	}
	restart := func() { // only the disk survives
		c.Fault("registrar restart")
		a.node["reg"] = nil
		libDone, modelDone = map[string][]byte{}, map[string]regAnswer{}
		for _, u := range users {
			for _, b := range lib[u] {
				c.Lib("reading a stored Contact", 0, func() {
					h, err := parser.NewContactParser("Contact: " + b.stored + "\n").Parse()
					if err != nil || h == nil {
						c.Fail("store", "the stored contact %q is rejected: %v", b.stored, err)
					}
					l := h.(*header.ContactList)
					if l.Len() != 1 {
						c.Fail("store", "the stored contact %q is read as %d", b.stored, l.Len())
					}
					n, _ := readContact(l.Front().Value.(*header.Contact), b.stored)
					b.uri, b.q, b.c = n.uri, n.q, n.c
				})
			}
		}
	}
	same := func(where string, q *regReq, keep []byte, got, want regAnswer) {
		if got.String() != want.String() {
			c.Fail("registrar:"+where, "%s: %s, want %s\n of %q", where, got, want, keep)
		}
	}

	net.Listen("reg", func(d *Dgram) {
		meta := d.Meta.(*regMeta)
		if t.Chance(4) {
			restart()
		}
		req, keep := a.readRequest("reg", d.Data)
		now := c.now
		if meta.q == nil { // a call for one of the users
			var user string
			c.Lib("looking up", 0, func() { user = a.aor(req.GetRequestURI()) })
			user = strings.TrimSuffix(user, "@"+domain)
			lb, mb := lib.best(user, now), model.best(user, now)
			if (lb == nil) != (mb == nil) || lb != nil && lb.uri != mb.uri {
				c.Fail("registrar:lookup", "a call for %s is sent to %v, want %v", user, lb, mb)
			}
			if lb == nil {
				c.Probe("call for a user who is not there")
				return
			}
			c.Probe("call to the preferred contact")
			var b []byte
			c.Lib("retargeting", 0, func() {
				req.SetRequestURI(lb.c.GetAddress().GetURI().Clone().(address.URI))
				req.AddHeader(mkVia(c, avia{transport: "UDP", host: domain, branch: cookie + g.uniq("p")}))
			})
			b = encodeMsg(c, req)
			a.send("reg", "callee", b, &regMeta{uri: auri{text: mb.uri}})
			return
		}
		q := meta.q
		// the model's answer
		key := q.callid + " " + strconv.Itoa(q.seq) + " " + q.branch
		want, again := modelDone[key]
		if !again {
			var mc []*regBinding
			var me []int
			for _, x := range q.contacts {
				mc = append(mc, &regBinding{uri: nuri(x.a.uri.text), q: qOf(x.q)})
				me = append(me, x.exp)
			}
			want = model.register(now, min, q, mc, me)
			modelDone[key] = want
		} else {
			c.Probe("retransmission recognised")
		}
		// the registrar's
		id := txid(c, req)
		if b, ok := libDone[id]; ok != again {
			c.Fail("registrar:retransmission", "known %v, want %v: %q", ok, again, keep)
		} else if ok {
			a.send("reg", d.From, b, &regMeta{q: q, a: want})
			return
		}
		lq := &regReq{expires: -1}
		var lc []*regBinding
		var le []int
		c.Lib("reading a REGISTER", 0, func() {
			if req.GetMethod() != "REGISTER" {
				c.Fail("registrar:method", "method is %q: %q", req.GetMethod(), keep)
			}
			lq.user = strings.TrimSuffix(a.aor(req.GetTo().GetAddress().GetURI()), "@"+domain)
			lq.callid, lq.seq = req.GetCallIdentifier(), req.GetCSeqNumber()
			if e := req.GetExpires(); e != nil {
				lq.expires = e.GetExpires()
			}
			if l := req.GetContactHeaders(); l != nil {
				for e := l.Front(); e != nil; e = e.Next() {
					x := e.Value.(*header.Contact)
					if x.GetWildCardFlag() {
						lq.star = true
						continue
					}
					b, exp := readContact(x, string(keep))
					lc, le = append(lc, b), append(le, exp)
				}
			}
		})
		got := lib.register(now, min, lq, lc, le)
		same("REGISTER", q, keep, got, want)
		if len(got.list) > 0 {
			c.Nontriv = true
			c.Count("registrations")
		}
		var resp *message.SIPResponse
		c.Lib("answering", 0, func() {
			resp = req.CreateResponse(got.code)
			resp.SetToTag("reg" + strconv.Itoa(q.seq%7))
			switch got.code {
			case 423:
				me := header.NewMinExpires()
				a.must("Min-Expires", me.SetExpires(min))
				resp.SetMinExpiresHeader(me)
			case 200:
				for _, b := range lib[lq.user] {
					if b.stored == "" {
						b.c = b.c.Clone().(*header.Contact)
						b.stored = b.c.EncodeBody()
					}
					n := b.c.Clone().(*header.Contact)
					a.must("expires", n.SetExpires(int((b.until-now+time.Second-1)/time.Second)))
					resp.AddHeader(n)
				}
			}
		})
		b := encodeMsg(c, resp)
		libDone[id] = b
		a.send("reg", d.From, b, &regMeta{q: q, a: want})
	})
	net.Listen("callee", func(d *Dgram) {
		req, keep := a.readRequest("callee", d.Data)
		var got string
		c.Lib("GetRequestURI", 0, func() { got = nuri(req.GetRequestURI().String()) })
		if want := d.Meta.(*regMeta).uri.text; got != want {
			c.Fail("lookup:uri", "the call arrives for %q, want %q: %q", got, want, keep)
		}
	})

	// the user agents
	type agent struct {
		name, user, callid string
		seq                int
		pool               []regContact
		api                bool
		req                *message.SIPRequest // of an agent that edits one request all along
		last               *regReq
		done               int
	}
	var agents []*agent
	for i := t.Range(1, 3); i > 0; i-- {
		ag := &agent{name: fmt.Sprintf("ua%d", i), user: users[t.Intn(len(users))], callid: g.callid() + strconv.Itoa(i), seq: t.Intn(1000), api: t.Bool()}
		for k := c.Many(1, 5, 16); k > 0; k-- {
			x := regContact{exp: -1}
			x.a.uri = g.sipuri(true, false)
			if t.Chance(70) || len(ag.pool) > 0 || len(agents) > 0 && t.Chance(50) { // sometimes shared by chance
				x.a.uri = auri{scheme: "sip", user: g.uniq("u"), host: g.hostname(), port: g.port()}
				x.a.uri.text = "sip:" + x.a.uri.user + "@" + hostport(x.a.uri.host, x.a.uri.port) + t.Of("", "", ";transport=tcp", ";lr", ";x=y;ob")
			}
			d, dt := g.display()
			if !ag.api {
				x.a.disp = d
				x.a.tmpl = dt
			}
			x.a.tmpl += "<" + x.a.uri.text + ">"
			dup := false
			for _, y := range ag.pool {
				dup = dup || nuri(y.a.uri.text) == nuri(x.a.uri.text)
			}
			if !dup {
				ag.pool = append(ag.pool, x)
			}
		}
		agents = append(agents, ag)
	}
	// fill puts what the agent wants into the request it keeps.
	fill := func(ag *agent, m *amsg, q *regReq) []byte {
		if ag.req == nil || t.Chance(15) {
			ag.req = a.build(m)
		}
		r := ag.req
		c.Lib("editing a REGISTER", 0, func() {
			a.must("CSeq", r.GetCSeq().SetSequenceNumber(q.seq))
			a.must("branch", r.GetTopmostVia().SetBranch(q.branch))
			switch e := r.GetExpires(); {
			case q.expires < 0:
				r.RemoveHeader("Expires")
			case e != nil && t.Bool():
				a.must("Expires", e.SetExpires(q.expires))
			default:
				x := header.NewExpires()
				a.must("Expires", x.SetExpires(q.expires))
				r.SetExpires(x)
			}
			set := func(x *header.Contact, w regContact) {
				switch {
				case w.q != "":
					a.must("q", x.SetQValue(qOf(w.q)))
				case x.HasQValue():
					x.RemoveQValue()
				}
				if w.exp >= 0 {
					a.must("expires", x.SetExpires(w.exp))
				} else {
					x.RemoveParameter("expires")
				}
			}
			// contacts that are there already may be edited in place
			if l := r.GetContactHeaders(); l != nil && !q.star && l.Len() == len(q.contacts) && t.Bool() {
				c.Probe("contacts edited in place")
				i := 0
				for e := l.Front(); e != nil; e = e.Next() {
					x := e.Value.(*header.Contact)
					x.SetAddress(mkAddr(c, q.contacts[i].a.uri.text))
					set(x, q.contacts[i])
					i++
				}
				return
			}
			r.RemoveHeader("Contact")
			if q.star {
				x := header.NewContact()
				x.SetWildCardFlag(true)
				r.AddHeader(x)
			}
			for _, w := range q.contacts {
				x := header.NewContact()
				ad := mkAddr(c, w.a.uri.text)
				if t.Chance(30) {
					ad.SetDisplayName("A. Name")
				}
				x.SetAddress(ad)
				set(x, w)
				r.AddHeader(x)
			}
		})
		return encodeMsg(c, r)
	}
	launch := func(ag *agent, q *regReq) {
		ag.seq++
		q.user, q.callid, q.seq, q.branch = ag.user, ag.callid, ag.seq, cookie+g.uniq("b")
		if t.Chance(4) && ag.seq > 2 {
			q.seq -= 2 // an agent that lost count
			c.Probe("CSeq too low")
		}
		m := a.slim("REGISTER", auri{scheme: "sip", host: domain, text: "sip:" + domain}, ag.name+".example.net", q.callid, q.seq, a.party(ag.user, domain, g.uniq("t")), a.party(ag.user, domain, ""))
		m.vias[0].branch = q.branch
		var b []byte
		if ag.api {
			b = fill(ag, m, q)
		} else {
			m.star = q.star
			for _, x := range q.contacts {
				y := x.a
				y.tmpl = x.tmpl()
				if g.wild {
					y.tmpl += g.genericParams(1, "q", "expires")
				}
				m.contacts = append(m.contacts, y)
			}
			if q.expires >= 0 {
				m.hdrs = append(m.hdrs, ahdr{"Expires", "\x03" + strconv.Itoa(q.expires)})
			}
			b = m.encode(g.style())
			if m.star && len(m.contacts) > 0 {
				c.Probe("star with others")
			}
		}
		ag.last = q
		done := ag.done
		var again func(n int, wait time.Duration)
		again = func(n int, wait time.Duration) {
			if ag.done > done || ag.last != q {
				return
			}
			a.send(ag.name, "reg", b, &regMeta{q: q})
			if n > 0 {
				net.At(wait, func() { again(n-1, 2*wait) })
			}
		}
		again(t.Intn(4), 500*time.Millisecond)
	}
	random := func(ag *agent) *regReq {
		q := &regReq{expires: -1}
		if t.Chance(50) {
			q.expires = t.Of1(0, 30, 60, 61, 3600, t.Range(1, 100000))
		}
		switch t.Pick(12, 2, 1, 1) {
		case 1:
			q.star = true
			if t.Chance(80) {
				q.expires = 0
			}
			return q
		case 2:
			c.Probe("query")
			return q // asks for the bindings
		case 3:
			q.star, q.expires = true, 0
		}
		used := map[int]bool{}
		for n := c.Many(1, 3, 12); n > 0; n-- {
			k := t.Intn(len(ag.pool))
			if used[k] {
				continue
			}
			used[k] = true
			x := ag.pool[k]
			x.q, x.exp = "", -1
			if t.Chance(50) {
				x.q = t.Of("0", "1", "0.5", "0.25", "1.0", "0.7", "0.001", "0.999", "0.10")
			}
			if t.Chance(60) {
				x.exp = t.Of1(0, 30, 60, 61, 3600, 7200, t.Range(1, 100000))
			}
			q.contacts = append(q.contacts, x)
		}
		return q
	}
	for _, ag := range agents {
		ag := ag
		net.Listen(ag.name, func(d *Dgram) {
			meta := d.Meta.(*regMeta)
			resp, keep := a.readResponse(ag.name, d.Data)
			if meta.q != ag.last || ag.done == meta.q.seq {
				return // a late or second answer
			}
			ag.done = meta.q.seq
			var got regAnswer
			c.Lib("reading the answer", 0, func() {
				got.code = resp.GetStatusCode()
				if resp.GetCallIdentifier() != meta.q.callid || resp.GetCSeqNumber() != meta.q.seq {
					c.Fail("answer:match", "the answer is to %q %d, want %q %d: %q", resp.GetCallIdentifier(), resp.GetCSeqNumber(), meta.q.callid, meta.q.seq, keep)
				}
				if h := resp.GetMinExpires(); h != nil {
					got.min = h.GetExpires()
				}
				if l := resp.GetContactHeaders(); l != nil {
					for e := l.Front(); e != nil; e = e.Next() {
						b, exp := readContact(e.Value.(*header.Contact), string(keep))
						got.list = append(got.list, regView{b.uri, b.q, exp})
					}
				}
			})
			same("answer", meta.q, keep, got, meta.a)
			c.Count("answers")
			if got.code == 423 {
				c.Probe("too brief, tried again")
				q := *meta.q
				q.contacts = append([]regContact(nil), q.contacts...)
				for i := range q.contacts {
					if x := &q.contacts[i]; x.exp > 0 && x.exp < got.min {
						x.exp = got.min
					}
				}
				if q.expires > 0 && q.expires < got.min {
					q.expires = got.min
				}
				launch(ag, &q)
			}
		})
		at := time.Duration(0)
		for n := t.Range(1, 5); n > 0; n-- {
			at += time.Duration(t.Of1(1, 10, 29, 31, 60, 600, 4000)) * time.Second
			net.At(at, func() { launch(ag, random(ag)) })
		}
	}
	for n := t.Intn(5); n > 0; n-- {
		net.At(time.Duration(t.Range(1, 200))*time.Second, func() {
			u := users[t.Intn(len(users))]
			m := a.slim("INVITE", auri{scheme: "sip", user: u, host: domain, text: "sip:" + u + "@" + domain}, "caller.example.org", g.callid(), 1, a.party("carol", "h.example", "ct"), a.party(u, domain, ""))
			a.send("caller", "reg", m.encode(g.style()), &regMeta{})
		})
	}
	// once the network works again everyone gets through
	net.At(20000*time.Second, net.Heal)
	for _, ag := range agents {
		ag := ag
		net.At(20001*time.Second, func() {
			q := &regReq{expires: 7200, contacts: []regContact{ag.pool[0]}}
			ag.seq += 10
			launch(ag, q)
		})
		net.At(20010*time.Second, func() {
			if ag.done != ag.last.seq {
				c.Fail("registrar:progress", "%s has no answer although the network works again", ag.name)
			}
		})
	}
	net.Run()
	if net.Events >= net.MaxEvents {
		Harness("too many events")
	}
}
