package props

import (
	"crypto/md5"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

func init() {
	Register(&Prop{
		ID: "C22", Title: "Digest challenges and credentials let the right users in, and nobody else",
		Quick: 20000, Thorough: 1000000,
		Rule:   "one run has 1-3 users, some with a wrong password, send requests through a challenging proxy to a challenging server, with nonces that expire, restarts and an attacker who replays and alters what was sent, over a lossy, reordering, duplicating network; non-trivial when credentials were judged or a fault struck",
		Real:   []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub:   []string{"network and clock (simulated)", "client, proxy, server, attacker and digest calculation (harness)"},
		Assume: []string{"the harness computes digests as RFC 2617 says"},
		Run:    runDigest,
	})
}

func hexmd5(s ...string) string { return fmt.Sprintf("%x", md5.Sum([]byte(strings.Join(s, ":")))) }

// challenge and creds are what the headers say, whoever wrote or read them.
type challenge struct {
	scheme, realm, nonce, opaque, qop, alg, domain string
	stale                                          bool
}

type creds struct {
	scheme, user, realm, nonce, uri, resp, alg, cnonce, opaque, qop string
	nc                                                              int // -1: none
}

type authInfo struct {
	next, qop, rspauth, cnonce string
	nc                         int
}

func (x *creds) digest(pw, method string, body []byte) string {
	ha1 := hexmd5(x.user, x.realm, pw)
	ha2 := hexmd5(method, x.uri)
	if x.qop == "auth-int" {
		ha2 = hexmd5(method, x.uri, hexmd5(string(body)))
	}
	if x.qop == "" {
		return hexmd5(ha1, x.nonce, ha2)
	}
	return hexmd5(ha1, x.nonce, fmt.Sprintf("%08x", x.nc), x.cnonce, x.qop, ha2)
}

// authReq is one request as its sender means it.
type authReq struct {
	m       *amsg
	pc, sc  *creds // for the proxy, for the server
	attack  string
	journey string
}

type authAnswer struct {
	code  int
	chs   []challenge
	info  *authInfo
	proxy bool
}

type authMeta struct {
	q *authReq
	a *authAnswer
}

type nonceState struct {
	opaque string
	born   time.Duration
	nc     int
}

// guard is a server or proxy that asks for credentials.
type guard struct {
	name, realm, qop, alg string
	opaque                bool
	pw                    map[string]string
	nonces                map[string]*nonceState
	life                  time.Duration
	proxy                 bool
}

// judge decides about credentials without changing anything.
func (gd *guard) judge(now time.Duration, x *creds, method, ruri string, body []byte) (ok, stale bool, why string) {
	if x == nil {
		return false, false, "no credentials"
	}
	pw, known := gd.pw[x.user]
	switch {
	case !strings.EqualFold(x.scheme, "Digest") || x.realm != gd.realm:
		return false, false, "other realm"
	case x.alg != "" && x.alg != "MD5":
		return false, false, "algorithm"
	case nuri(x.uri) != nuri(ruri):
		return false, false, "other URI"
	case !known || x.resp != x.digest(pw, method, body):
		return false, false, "wrong response"
	}
	n := gd.nonces[x.nonce]
	switch {
	case n == nil || now-n.born > gd.life:
		return false, true, "stale"
	case x.opaque != n.opaque:
		return false, false, "other opaque"
	case x.qop == "" && gd.qop != "":
		return false, false, "no qop"
	case x.qop != "" && x.nc <= n.nc:
		return false, false, "replay"
	}
	return true, false, "in"
}

func setCreds(a *app, r *message.SIPRequest, x *creds, proxy bool) {
	c, t := a.c, a.t
	c.Lib("setting credentials", 0, func() {
		var h *header.Authentication
		var whole header.Header
		var have *header.Authentication
		if proxy {
			if p := r.GetProxyAuthorizationHeader(); p != nil {
				have = &p.Authentication
			}
			p := header.NewProxyAuthorization()
			h, whole = &p.Authentication, p
		} else {
			if p := r.GetAuthorization(); p != nil {
				have = &p.Authentication
			}
			p := header.NewAuthorization()
			h, whole = &p.Authentication, p
		}
		inPlace := have != nil && t.Bool()
		if inPlace {
			h = have
			c.Probe("credentials edited in place")
		}
		h.SetScheme(x.scheme)
		steps := []func(){
			func() { a.must("username", h.SetUsername(x.user)) },
			func() { a.must("realm", h.SetRealm(x.realm)) },
			func() { a.must("nonce", h.SetNonce(x.nonce)) },
			func() { a.must("uri", h.SetURI(mkURI(c, x.uri))) },
			func() { a.must("response", h.SetResponse(x.resp)) },
			func() {
				if x.opaque != "" {
					a.must("opaque", h.SetOpaque(x.opaque))
				} else {
					h.RemoveParameter("opaque")
				}
			},
			func() {
				if x.alg != "" {
					a.must("algorithm", h.SetAlgorithm(x.alg))
				} else {
					h.RemoveParameter("algorithm")
				}
			},
			func() {
				if x.qop == "" {
					h.RemoveParameter("qop")
					h.RemoveParameter("nc")
					h.RemoveParameter("cnonce")
					return
				}
				a.must("qop", h.SetQop(x.qop))
				a.must("nc", h.SetNonceCount(x.nc))
				a.must("cnonce", h.SetCNonce(x.cnonce))
			},
		}
		for len(steps) > 0 {
			k := t.Intn(len(steps))
			steps[k]()
			steps = append(steps[:k:k], steps[k+1:]...)
		}
		if !inPlace {
			if have != nil || t.Bool() {
				r.SetHeader(whole)
			} else {
				r.AddHeader(whole)
			}
		}
	})
}

// readCreds reads credentials through the getters.
func readCreds(c *Ctx, r *message.SIPRequest, proxy bool) (x *creds) {
	c.Lib("reading credentials", 0, func() {
		var h *header.Authentication
		if proxy {
			if p := r.GetProxyAuthorizationHeader(); p != nil {
				h = &p.Authentication
			}
		} else if p := r.GetAuthorization(); p != nil {
			h = &p.Authentication
		}
		if h == nil {
			return
		}
		x = &creds{scheme: h.GetScheme(), user: h.GetUsername(), realm: h.GetRealm(), nonce: h.GetNonce(), resp: h.GetResponse(), alg: h.GetAlgorithm(),
			cnonce: h.GetCNonce(), opaque: h.GetOpaque(), qop: h.GetQop(), nc: -1}
		if h.HasParameter("nc") {
			x.nc = h.GetNonceCount()
		}
		if h.HasParameter("uri") {
			x.uri = h.GetURI().String()
		}
	})
	return
}

// spell writes auth parameters the way another implementation might.
func (a *app) spell(scheme string, ps [][2]string) string {
	t := a.t
	for i := len(ps) - 1; i > 0; i-- {
		j := t.Intn(i + 1)
		ps[i], ps[j] = ps[j], ps[i]
	}
	var l []string
	for _, p := range ps {
		if p[1] == "" {
			continue
		}
		n := p[0]
		if a.g.wild && t.Chance(15) {
			n = strings.ToUpper(n)
		}
		l = append(l, n+"\x01=\x01"+p[1])
	}
	return scheme + "\x02" + strings.Join(l, "\x01,\x01")
}

func dq(s string) string {
	if s == "" {
		return ""
	}
	return `"` + s + `"`
}

func (x *creds) spelled(a *app) string {
	nc := ""
	if x.nc >= 0 {
		nc = fmt.Sprintf("%08x", x.nc)
	}
	return a.spell(x.scheme, [][2]string{{"username", dq(x.user)}, {"realm", dq(x.realm)}, {"nonce", dq(x.nonce)}, {"uri", dq(x.uri)}, {"response", dq(x.resp)},
		{"algorithm", x.alg}, {"cnonce", dq(x.cnonce)}, {"opaque", dq(x.opaque)}, {"qop", x.qop}, {"nc", nc}})
}

func (x *challenge) spelled(a *app) string {
	stale := ""
	if x.stale {
		stale = a.t.Of("true", "TRUE", "True")
	} else if a.t.Chance(30) {
		stale = a.t.Of("false", "FALSE")
	}
	return a.spell(x.scheme, [][2]string{{"realm", dq(x.realm)}, {"nonce", dq(x.nonce)}, {"opaque", dq(x.opaque)}, {"qop", dq(x.qop)}, {"algorithm", x.alg},
		{"domain", dq(x.domain)}, {"stale", stale}})
}

func runDigest(c *Ctx) {
	t := c.T
	a := newApp(c)
	g, net := a.g, a.net
	realms := []string{"biloxi.com", "atlanta.com, the big one", "a;b=c", "x", "sip:host <1>"}
	k := t.Intn(len(realms))
	pws := map[string]string{"bob": "zanzibar", "Alice Smith": "x:y", "carol@h.example": "\x7f7"}
	unames := []string{"bob", "Alice Smith", "carol@h.example"}
	mk := func(name, realm string, proxy bool) *guard {
		return &guard{name: name, realm: realm, proxy: proxy, qop: t.Of("auth", "", "auth,auth-int", "auth-int"), alg: t.Of("", "MD5"), opaque: t.Bool(), pw: pws,
			nonces: map[string]*nonceState{}, life: time.Duration(t.Of1(10, 60, 600)) * time.Second}
	}
	srv := mk("srv", realms[k], false)
	var px *guard
	first := "srv"
	if t.Bool() {
		px = mk("px", realms[(k+1)%len(realms)], true)
		first = "px"
	}
	issue := func(gd *guard, stale bool) []challenge {
		ch := challenge{scheme: "Digest", realm: gd.realm, nonce: g.uniq("n") + t.Of("", "==", "/+", ",;"), qop: gd.qop, alg: gd.alg, stale: stale}
		if gd.opaque {
			ch.opaque = t.Of("5ccc069c403ebaf9f0171e9517f40e41", "o,o", "=")
		}
		if t.Chance(20) {
			ch.domain = "sip:ss1.carrier.com sip:b.example"
		}
		gd.nonces[ch.nonce] = &nonceState{opaque: ch.opaque, born: c.now}
		l := []challenge{ch}
		if t.Chance(20) { // one that the client cannot use
			x := challenge{scheme: "Digest", realm: gd.realm, nonce: g.uniq("m"), alg: "SHA-256", qop: "auth"}
			if t.Bool() {
				l = []challenge{x, ch}
			} else {
				l = []challenge{ch, x}
			}
			c.Probe("two challenges")
		}
		return l
	}
	sameCreds := func(where string, got, want *creds, keep []byte) {
		if (got == nil) != (want == nil) {
			c.Fail("credentials:presence", "%s: credentials found %v, sent %v: %q", where, got != nil, want != nil, keep)
		}
		if got == nil {
			return
		}
		gs, ws := fmt.Sprintf("%q", *got), fmt.Sprintf("%q", *want)
		if gs != ws {
			c.Fail("credentials:read", "%s: credentials read %s, sent %s: %q", where, gs, ws, keep)
		}
	}
	// answer makes the response to a request, in the library's words or in others.
	answer := func(req *message.SIPRequest, q *authReq, an *authAnswer) []byte {
		if t.Bool() {
			r := q.m.clone()
			r.request, r.maxfwd, r.code, r.reason, r.contacts, r.hdrs, r.body, r.ctype = false, -1, an.code, "Reason", nil, nil, nil, ""
			for i := range an.chs {
				n := "WWW-Authenticate"
				if an.proxy {
					n = "Proxy-Authenticate"
				}
				r.hdrs = append(r.hdrs, ahdr{n, an.chs[i].spelled(a)})
			}
			if x := an.info; x != nil {
				nc := ""
				if x.nc >= 0 {
					nc = fmt.Sprintf("%08x", x.nc)
				}
				r.hdrs = append(r.hdrs, ahdr{"Authentication-Info", strings.TrimPrefix(a.spell("", [][2]string{{"nextnonce", dq(x.next)}, {"qop", x.qop}, {"rspauth", dq(x.rspauth)}, {"cnonce", dq(x.cnonce)}, {"nc", nc}}), "\x02")})
			}
			return r.encode(g.style())
		}
		var resp *message.SIPResponse
		c.Lib("answering", 0, func() {
			resp = req.CreateResponse(an.code)
			for _, ch := range an.chs {
				var h *header.Authentication
				var whole header.Header
				if an.proxy {
					x := header.NewProxyAuthenticate()
					h, whole = &x.Authentication, x
				} else {
					x := header.NewWWWAuthenticate()
					h, whole = &x.Authentication, x
				}
				h.SetScheme(ch.scheme)
				a.must("realm", h.SetRealm(ch.realm))
				a.must("nonce", h.SetNonce(ch.nonce))
				if ch.opaque != "" {
					a.must("opaque", h.SetOpaque(ch.opaque))
				}
				if ch.qop != "" {
					a.must("qop", h.SetQop(ch.qop))
				}
				if ch.alg != "" {
					a.must("algorithm", h.SetAlgorithm(ch.alg))
				}
				if ch.domain != "" {
					a.must("domain", h.SetDomain(ch.domain))
				}
				if ch.stale || t.Bool() {
					h.SetStale(ch.stale)
				}
				resp.AddHeader(whole)
			}
			if x := an.info; x != nil {
				h := header.NewAuthenticationInfo()
				if x.next != "" {
					a.must("nextnonce", h.SetNextNonce(x.next))
				}
				if x.qop != "" {
					a.must("qop", h.SetQop(x.qop))
					a.must("cnonce", h.SetCNonce(x.cnonce))
					a.must("nc", h.SetNonceCount(x.nc))
				}
				a.must("rspauth", h.SetResponse(x.rspauth))
				resp.AddHeader(h)
			}
		})
		return encodeMsg(c, resp)
	}
	done := map[string]map[string][]byte{"srv": {}, "px": {}}
	answers := map[string]*authAnswer{}
	restart := func(gd *guard) {
		c.Fault(gd.name + " restart")
		a.node[gd.name] = nil
		gd.nonces = map[string]*nonceState{}
		done[gd.name] = map[string][]byte{}
	}
	// check lets a request in, or answers it with a challenge.
	check := func(gd *guard, req *message.SIPRequest, q *authReq, keep []byte) (*creds, *authAnswer) {
		want := q.sc
		if gd.proxy {
			want = q.pc
		}
		got := readCreds(c, req, gd.proxy)
		sameCreds(gd.name, got, want, keep)
		var method, ruri string
		var body []byte
		c.Lib("reading the request", 0, func() { method, ruri, body = req.GetMethod(), req.GetRequestURI().String(), []byte(req.GetContent()) })
		ok, stale, why := gd.judge(c.now, got, method, ruri, body)
		ok2, stale2, why2 := gd.judge(c.now, want, q.m.method, q.m.ruri.text, q.m.body)
		if ok != ok2 || stale != stale2 || why != why2 {
			c.Fail("verdict", "%s: the request is judged %q, want %q: %q", gd.name, why, why2, keep)
		}
		c.Probe("verdict: " + why)
		if got != nil {
			c.Nontriv = true
		}
		if ok {
			if q.attack != "" && q.attack != "replay" {
				Harness("attack %s succeeds by the model", q.attack)
			}
			gd.nonces[want.nonce].nc = want.nc
			return want, nil
		}
		an := &authAnswer{code: 401, proxy: gd.proxy, chs: issue(gd, stale)}
		if gd.proxy {
			an.code = 407
		}
		return nil, an
	}
	key := func(node string, q *authReq) string { return node + " " + q.m.vias[0].branch }
	if px != nil {
		net.Listen("px", func(d *Dgram) {
			meta := d.Meta.(*authMeta)
			if t.Chance(3) {
				restart(px)
			}
			if meta.a != nil { // a response on its way back
				resp, _ := a.readResponse("px", d.Data)
				c.Lib("RemoveHeader2", 0, func() { resp.RemoveHeader2("Via", true) })
				a.send("px", meta.q.journey, encodeMsg(c, resp), meta)
				return
			}
			req, keep := a.readRequest("px", d.Data)
			id := txid(c, req)
			if b, ok := done["px"][id]; ok {
				if b != nil {
					a.send("px", d.From, b, &authMeta{meta.q, answers[key("px", meta.q)]})
				}
				return
			}
			if _, an := check(px, req, meta.q, keep); an != nil {
				b := answer(req, meta.q, an)
				done["px"][id], answers[key("px", meta.q)] = b, an
				a.send("px", d.From, b, &authMeta{meta.q, an})
				return
			}
			// on to the server; the client's retransmissions are passed on too
			n := *meta.q
			n.m = meta.q.m.clone()
			n.pc = nil
			v := avia{transport: "UDP", host: "px.example.com", branch: cookie + "px" + id[len(id)-1:] + n.m.vias[0].branch[len(cookie):]}
			n.m.vias = append([]avia{v}, n.m.vias...)
			c.Lib("forwarding", 0, func() {
				req.RemoveHeader("Proxy-Authorization")
				req.AddHeader(mkVia(c, v))
			})
			b := encodeMsg(c, req)
			again := 0
			var push func()
			push = func() {
				a.send("px", "srv", b, &authMeta{q: &n})
				if again++; again < 4 && net.Loss > 0 {
					net.At(time.Second, push)
				}
			}
			done["px"][id] = nil
			push()
		})
	}
	net.Listen("srv", func(d *Dgram) {
		meta := d.Meta.(*authMeta)
		if t.Chance(3) {
			restart(srv)
		}
		req, keep := a.readRequest("srv", d.Data)
		id := txid(c, req)
		if b, ok := done["srv"][id]; ok {
			a.send("srv", d.From, b, &authMeta{meta.q, answers[key("srv", meta.q)]})
			return
		}
		x, an := check(srv, req, meta.q, keep)
		if an == nil {
			an = &authAnswer{code: 200}
			if t.Chance(60) {
				y := *x
				in := &authInfo{nc: -1}
				ha2 := []string{"", y.uri}
				if y.qop != "" {
					in.qop, in.cnonce, in.nc = y.qop, y.cnonce, y.nc
					if y.qop == "auth-int" {
						ha2 = append(ha2, hexmd5(""))
					}
					in.rspauth = hexmd5(hexmd5(y.user, y.realm, pws[y.user]), y.nonce, fmt.Sprintf("%08x", y.nc), y.cnonce, y.qop, hexmd5(ha2...))
				} else {
					in.rspauth = hexmd5(hexmd5(y.user, y.realm, pws[y.user]), y.nonce, hexmd5(ha2...))
				}
				if t.Bool() {
					in.next = g.uniq("nn")
					srv.nonces[in.next] = &nonceState{opaque: y.opaque, born: c.now}
				}
				an.info = in
			}
		}
		b := answer(req, meta.q, an)
		done["srv"][id], answers[key("srv", meta.q)] = b, an
		a.send("srv", d.From, b, &authMeta{meta.q, an})
	})

	// the clients
	type client struct {
		name, user, pw string
		api            bool
		seq            int
		callid         string
		req            *message.SIPRequest
		use            map[bool]*creds // credentials at hand, for the proxy and for the server
		refused        map[bool]bool   // the fresh credentials were refused
		q              *authReq
		tries          int
		state          string
	}
	var sent []*authReq
	var clients []*client
	for i := t.Range(1, 3); i > 0; i-- {
		u := unames[t.Intn(len(unames))]
		cl := &client{name: fmt.Sprintf("ua%d", i), user: u, pw: pws[u], api: t.Bool(), seq: t.Intn(100), callid: g.callid() + strconv.Itoa(i), use: map[bool]*creds{}}
		if t.Chance(25) {
			cl.pw += "x"
			c.Probe("wrong password")
		}
		clients = append(clients, cl)
	}
	var transmit func(cl *client)
	transmit = func(cl *client) {
		q := cl.q
		cl.seq++
		m := q.m.clone()
		m.seq = cl.seq
		m.vias = []avia{{transport: "UDP", host: cl.name + ".example.net", branch: cookie + g.uniq("d")}}
		q = &authReq{m: m, journey: cl.name}
		for _, proxy := range []bool{true, false} {
			x := cl.use[proxy]
			if x == nil {
				continue
			}
			y := *x
			if y.qop != "" {
				y.nc++
				y.cnonce = t.Of("0a4f113b", "c,c", "x") + g.alnum(0, 3)
				x.nc++
			}
			y.uri = m.ruri.text
			y.resp = y.digest(cl.pw, m.method, m.body)
			if proxy {
				q.pc = &y
			} else {
				q.sc = &y
			}
		}
		cl.q = q
		sent = append(sent, q)
		var b []byte
		if cl.api {
			if cl.req == nil {
				cl.req = a.build(m)
				if m.body != nil {
					c.Lib("SetContent", 0, func() {
						ct := header.NewContentType()
						ct.SetContentType("text")
						ct.SetContentSubType("plain")
						cl.req.SetContent(append([]byte(nil), m.body...), ct)
					})
				}
			}
			c.Lib("editing", 0, func() {
				a.must("CSeq", cl.req.GetCSeq().SetSequenceNumber(m.seq))
				a.must("branch", cl.req.GetTopmostVia().SetBranch(m.vias[0].branch))
			})
			if q.pc != nil {
				setCreds(a, cl.req, q.pc, true)
			}
			if q.sc != nil {
				setCreds(a, cl.req, q.sc, false)
			}
			b = encodeMsg(c, cl.req)
		} else {
			if q.pc != nil {
				m.hdrs = append(m.hdrs, ahdr{"Proxy-Authorization", q.pc.spelled(a)})
			}
			if q.sc != nil {
				m.hdrs = append(m.hdrs, ahdr{"Authorization", q.sc.spelled(a)})
			}
			b = m.encode(g.style())
			m.hdrs = nil
		}
		var again func(n int, wait time.Duration)
		again = func(n int, wait time.Duration) {
			if cl.q != q || cl.state != "waiting" {
				return
			}
			a.send(cl.name, first, b, &authMeta{q: q})
			if n > 0 {
				net.At(wait, func() { again(n-1, 2*wait) })
			} else {
				net.At(8*time.Second, func() {
					if cl.q == q && cl.state == "waiting" {
						cl.state = "timeout"
					}
				})
			}
		}
		cl.state = "waiting"
		again(3, 500*time.Millisecond)
	}
	start := func(cl *client) {
		if cl.state == "waiting" {
			return
		}
		user := t.Of("bob", "service", "x")
		m := a.slim(t.Of("REGISTER", "INVITE", "OPTIONS", "MESSAGE"), auri{}, "", cl.callid, 0, a.party("u", "h.example", g.uniq("f")), a.party(user, "biloxi.com", ""))
		m.ruri = auri{scheme: "sip", user: user, host: "Biloxi.com", text: "sip:" + user + "@Biloxi.com" + t.Of("", ":5070", ";transport=tcp")}
		if m.body = g.body(); m.body != nil {
			m.ctype = "text/plain"
		}
		cl.q, cl.req, cl.tries = &authReq{m: m}, nil, 0
		cl.refused = map[bool]bool{}
		if t.Chance(20) {
			cl.use = map[bool]*creds{} // forgetful
		}
		transmit(cl)
	}
	for _, cl := range clients {
		cl := cl
		net.Listen(cl.name, func(d *Dgram) {
			meta := d.Meta.(*authMeta)
			resp, keep := a.readResponse(cl.name, d.Data)
			an := meta.a
			if cl.q == nil || cl.state != "waiting" || meta.q.m.seq != cl.q.m.seq {
				return
			}
			var code int
			var chs []challenge
			var info *authInfo
			c.Lib("reading the answer", 0, func() {
				code = resp.GetStatusCode()
				n := "WWW-Authenticate"
				if code == 407 {
					n = "Proxy-Authenticate"
				}
				if resp.HasHeader(n) {
					for e := resp.GetHeaders(n).Front(); e != nil; e = e.Next() {
						var h *header.Authentication
						switch x := e.Value.(type) {
						case *header.WWWAuthenticate:
							h = &x.Authentication
						case *header.ProxyAuthenticate:
							h = &x.Authentication
						default:
							c.Fail("challenge:kind", "%s is a %T", n, x)
						}
						chs = append(chs, challenge{scheme: h.GetScheme(), realm: h.GetRealm(), nonce: h.GetNonce(), opaque: h.GetOpaque(), qop: h.GetQop(), alg: h.GetAlgorithm(), domain: h.GetDomain(), stale: h.IsStale()})
					}
				}
				if h, ok := resp.GetHeader("Authentication-Info").(*header.AuthenticationInfo); ok {
					info = &authInfo{next: h.GetNextNonce(), qop: h.GetQop(), rspauth: h.GetResponse(), cnonce: h.GetCNonce(), nc: -1}
					if h.HasParameter("nc") {
						info.nc = h.GetNonceCount()
					}
				}
			})
			if code != an.code || fmt.Sprintf("%q", chs) != fmt.Sprintf("%q", an.chs) {
				c.Fail("challenge:read", "the answer is read as %d %q, want %d %q: %q", code, chs, an.code, an.chs, keep)
			}
			if (info == nil) != (an.info == nil) || info != nil && *info != *an.info {
				c.Fail("info:read", "Authentication-Info is read as %+v, want %+v: %q", info, an.info, keep)
			}
			if code == 200 {
				cl.state = "in"
				c.Count("let in")
				if cl.pw != pws[cl.user] {
					c.Fail("intruder", "%s is let in with a wrong password: %q", cl.user, keep)
				}
				if info != nil && info.next != "" && cl.use[false] != nil {
					cl.use[false].nonce, cl.use[false].nc = info.next, 0
					if cl.use[false].qop == "" {
						cl.use[false].nc = -1
					}
					c.Probe("next nonce used")
				}
				return
			}
			proxy := code == 407
			var ch *challenge
			for i := range chs {
				if strings.EqualFold(chs[i].scheme, "Digest") && (chs[i].alg == "" || chs[i].alg == "MD5") {
					ch = &chs[i]
					break
				}
			}
			if ch == nil {
				c.Fail("challenge:read", "no usable challenge in %q", keep)
			}
			if had := cl.use[proxy]; had != nil && !ch.stale && cl.refused[proxy] || cl.tries > 12 {
				cl.state = "refused"
				c.Count("refused")
				return
			}
			cl.refused[proxy] = !ch.stale
			cl.tries++
			x := &creds{scheme: "Digest", user: cl.user, realm: ch.realm, nonce: ch.nonce, alg: ch.alg, opaque: ch.opaque, nc: -1}
			if ch.qop != "" {
				l := strings.Split(ch.qop, ",")
				x.qop, x.nc = l[t.Intn(len(l))], t.Of1(0, 0, 0, 9, 0xfe, 0xffff, 0x7fffffff, 0xfffffff0)
			}
			cl.use[proxy] = x
			transmit(cl)
		})
		at := time.Duration(0)
		for n := t.Range(1, 4); n > 0; n-- {
			at += time.Duration(t.Of1(0, 5, 30, 61, 700)) * time.Second
			net.At(at, func() { start(cl) })
		}
	}
	// the attacker
	net.Listen("mallory", func(d *Dgram) {
		m := d.Meta.(*authMeta)
		resp, keep := a.readResponse("mallory", d.Data)
		if resp.GetStatusCode() == 200 && m.q.attack != "replay" {
			c.Fail("intruder", "the attack %q succeeds: %q", m.q.attack, keep)
		}
	})
	for n := t.Intn(4); n > 0; n-- {
		net.At(time.Duration(t.Range(0, 60000))*time.Millisecond, func() {
			if len(sent) == 0 {
				return
			}
			q := *sent[len(sent)-1-t.Intn(len(sent))]
			if q.pc == nil && q.sc == nil {
				return
			}
			q.m = q.m.clone()
			q.m.callid += "x"
			q.m.vias[0].branch = cookie + g.uniq("evil")
			q.journey = "mallory"
			dup := func(x *creds) *creds {
				if x == nil {
					return nil
				}
				y := *x
				return &y
			}
			q.pc, q.sc = dup(q.pc), dup(q.sc)
			each := func(f func(x *creds)) {
				if q.pc != nil {
					f(q.pc)
				}
				if q.sc != nil {
					f(q.sc)
				}
			}
			q.attack = t.Of("replay", "method", "response", "user", "count", "nonce")
			switch q.attack {
			case "method":
				q.m.method = "X" + q.m.method
			case "response":
				each(func(x *creds) {
					i := t.Intn(32)
					ch := "0123456789abcdef"[t.Intn(16)]
					if ch == x.resp[i] {
						ch = 'g'
					}
					x.resp = x.resp[:i] + string(ch) + x.resp[i+1:]
				})
			case "user":
				each(func(x *creds) { x.user += "x" })
			case "count":
				each(func(x *creds) {
					if x.qop != "" {
						x.nc++
					} else {
						x.user = "nobody"
					}
				})
			case "nonce":
				each(func(x *creds) { x.nonce += "x" })
			}
			c.Fault("attack: " + q.attack)
			m := q.m.clone()
			if q.pc != nil {
				m.hdrs = append(m.hdrs, ahdr{"Proxy-Authorization", q.pc.spelled(a)})
			}
			if q.sc != nil {
				m.hdrs = append(m.hdrs, ahdr{"Authorization", q.sc.spelled(a)})
			}
			a.send("mallory", first, m.encode(g.style()), &authMeta{q: &q})
		})
	}
	net.At(4000*time.Second, net.Heal)
	for _, cl := range clients {
		cl := cl
		net.At(4020*time.Second, func() {
			cl.state, cl.use = "", map[bool]*creds{}
			start(cl)
		})
		net.At(4200*time.Second, func() {
			want := "in"
			if cl.pw != pws[cl.user] {
				want = "refused"
			}
			if cl.state != want && cl.tries <= 12 {
				c.Fail("progress", "%s is %s, want %s, although the network works again", cl.user, cl.state, want)
			}
		})
	}
	net.Run()
	if net.Events >= net.MaxEvents {
		Harness("too many events")
	}
}
