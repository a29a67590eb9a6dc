package props

// The kinds of headers of C20 and their calls.

import (
	"container/list"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
)

// str is a call that sets a field to a text.
func (a *api) str(what, field, v string, f func(string) error) aop {
	return aop{what, func() { a.call(what+"("+v+")", func() error { return f(v) }, func() { a.m.f[field] = v }) }}
}

func noerr(f func(string)) func(string) error { return func(s string) error { f(s); return nil } }

// bads makes one call out of those which have to be refused.
func (a *api) bads(fs ...func() error) aop {
	return aop{"bad", func() {
		i := a.c.T.Intn(len(fs))
		a.bad(fmt.Sprintf("bad call %d", i), fs[i])
	}}
}

// num is a call that sets a field to a number.
func (a *api) num(what, field string, v int, f func(int) error) aop {
	return aop{what, func() {
		a.call(fmt.Sprintf("%s(%d)", what, v), func() error { return f(v) }, func() { a.m.f[field] = strconv.Itoa(v) })
	}}
}

// par is a call that sets a parameter to a text; the library quotes what
// needs quotes.
func (a *api) par(what, n, v string, f func(string) error) aop {
	return aop{what, func() {
		a.call(what+"("+v+")", func() error { return f(v) }, func() {
			w := v
			if v == "" || strings.Trim(v, tokChars) != "" {
				w = `"` + v + `"`
			}
			a.m.ps.set(n, w, false)
		})
	}}
}

func (a *api) parnum(what, n string, v int, f func(int) error) aop {
	return aop{what, func() {
		a.call(fmt.Sprintf("%s(%d)", what, v), func() error { return f(v) }, func() { a.m.ps.set(n, strconv.Itoa(v), false) })
	}}
}

func (a *api) field(what, field string, got interface{}) { a.eq(what, got, a.m.f[field]) }

// word draws text that stands without quotes.
func (a *api) word() string { return a.g.token() }

// phrase draws text that stands in quotes, without them.
func (a *api) phrase() string {
	v := unquote0(a.g.quoted())
	if v == "" {
		return "x y"
	}
	return v
}

func (a *api) bignum() int { return int(a.c.T.Log(31)) }

type qheader interface {
	SetQValue(q float32) error
	GetQValue() float32
	HasQValue() bool
	RemoveQValue()
}

func (a *api) qops() []aop {
	t := a.c.T
	h := a.h.(qheader)
	return []aop{{"SetQValue", func() {
		n := t.Intn(1001)
		if t.Bool() {
			n = t.Intn(11) * 100
		}
		q := float32(n) / 1000
		a.call(fmt.Sprintf("SetQValue(%v)", q), func() error { return h.SetQValue(q) }, func() {
			a.m.ps.set("q", strconv.FormatFloat(float64(n)/1000, 'f', -1, 64), false)
		})
	}}, {"RemoveQValue", func() {
		a.call("RemoveQValue", func() error { h.RemoveQValue(); return nil }, func() { a.m.ps.del("q") })
	}}, a.bads(func() error { return h.SetQValue(-0.1) }, func() error { return h.SetQValue(1.001) })}
}

func (a *api) seeq() {
	h := a.h.(qheader)
	v := a.m.ps.get("q")
	a.eq("HasQValue", h.HasQValue(), v != "")
	if v == "" {
		a.eq("GetQValue", h.GetQValue(), -1)
		return
	}
	f, _ := strconv.ParseFloat(v, 32)
	a.eq("GetQValue", h.GetQValue(), float32(f))
}

// one is a kind with one text and no parameters.
func oneText(name string, mk func() header.Header, vals func(a *api) string, set func(h header.Header) func(string) error, get func(h header.Header) string, refuses bool) *hkind {
	return &hkind{
		name: name,
		make: func(a *api) header.Header { return mk() },
		init: func(a *api) { a.str("Set", "v", vals(a), set(a.h)).run() },
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			ops := []aop{{"Set", func() { a.str("Set", "v", vals(a), set(a.h)).run() }}}
			if refuses {
				ops = append(ops, a.bads(func() error { return set(a.h)("") }))
			}
			return ops
		},
		see: func(a *api) { a.field("value", "v", get(a.h)) },
	}
}

func text(a *api) string {
	return a.c.T.Of("Lunch", "I know you're there", "a, b; c", "Boxes by Bob", "x=1", "<sip:a@b>", "100%", "(not a comment")
}

type optioned interface {
	SetOptionTag(string) error
	GetOptionTag() string
}

func optionKind(name string, mk func() header.Header) *hkind {
	return oneText(name, mk, (*api).word, func(h header.Header) func(string) error { return h.(optioned).SetOptionTag },
		func(h header.Header) string { return h.(optioned).GetOptionTag() }, true)
}

// oneNum is a kind with one number.
func oneNum(name string, mk func() header.Header, val func(a *api) int, set func(h header.Header) func(int) error, get func(h header.Header) int, bad ...int) *hkind {
	return &hkind{
		name: name,
		make: func(a *api) header.Header { return mk() },
		init: func(a *api) { a.num("Set", "v", val(a), set(a.h)).run() },
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			ops := []aop{{"Set", func() { a.num("Set", "v", val(a), set(a.h)).run() }}}
			for _, b := range bad {
				b := b
				ops = append(ops, a.bads(func() error { return set(a.h)(b) }))
			}
			return ops
		},
		see: func(a *api) { a.field("value", "v", get(a.h)) },
	}
}

// addrKind is a kind with an address and parameters.
func addrKind(name string, mk func() header.Header, more func(a *api) []aop, see func(a *api), typed string) *hkind {
	return &hkind{
		name: name, typed: typed,
		make: func(a *api) header.Header { return mk() },
		init: (*api).setAddr,
		head: addrHead,
		ops: func(a *api) []aop {
			ops := a.addrOps()
			if more != nil {
				ops = append(ops, more(a)...)
			}
			return ops
		},
		see: func(a *api) {
			a.seeAddr()
			if see != nil {
				see(a)
			}
		},
	}
}

type tagged interface {
	SetTag(string) error
	GetTag() string
	HasTag() bool
	RemoveTag()
}

func (a *api) tagOps() []aop {
	h := a.h.(tagged)
	v := a.word()
	return []aop{{"SetTag", func() {
		a.call("SetTag("+v+")", func() error { return h.SetTag(v) }, func() { a.m.ps.set("tag", v, false) })
	}}, {"RemoveTag", func() {
		a.call("RemoveTag", func() error { h.RemoveTag(); return nil }, func() { a.m.ps.del("tag") })
	}}, a.bads(func() error { return h.SetTag("") }, func() error { return h.SetTag(" ") })}
}

// seeEnd asks From and To.
func (a *api) seeEnd() {
	a.seeTag()
	h := a.h.(interface {
		GetDisplayName() string
		GetUserAtHostPort() string
		GetHostPort() (*core.HostPort, error)
	})
	a.eq("display name", unesc(h.GetDisplayName()), unesc(a.m.disp))
	u := a.m.uri
	hp, err := h.GetHostPort()
	if u.scheme != "sip" && u.scheme != "sips" {
		if err == nil {
			a.fail("hostport", "GetHostPort has no error and %v for %s", hp, u)
		}
		return
	}
	want := hostport(u.host, u.port)
	if err != nil || nhost(hp.String()) != nhost(want) {
		a.fail("hostport", "GetHostPort is %v, %v, want %s", hp, err, want)
	}
	a.eq("HasPort", hp.HasPort(), u.port != 0)
	if u.user != "" {
		want = u.user + "@" + want
	}
	a.eq("user at host", nhost(h.GetUserAtHostPort()), nhost(want))
}

func (a *api) seeTag() {
	h := a.h.(tagged)
	a.eq("tag", h.GetTag(), a.m.ps.get("tag"))
	a.eq("HasTag", h.HasTag(), a.m.ps.at("tag") >= 0)
}

// infoKind is a kind with a URI in brackets and parameters.
func infoKind(name string, mk func() header.Header, set func(h header.Header) func(address.URI), get func(h header.Header) address.URI, more func(a *api) []aop, see func(a *api), typed string) *hkind {
	setURI := func(a *api) {
		u, um := a.newURI()
		a.call("Set("+um.String()+")", func() error { set(a.h)(u); return nil }, func() { a.m.uri = um })
	}
	return &hkind{
		name: name, typed: typed,
		make: func(a *api) header.Header { return mk() },
		init: setURI,
		head: func(m *hm) string { return "<" + m.uri.String() + ">" },
		ops: func(a *api) []aop {
			ops := []aop{{"Set", func() { setURI(a) }}, {"URI", func() {
				if u, ok := get(a.h).(*address.SipURIImpl); ok {
					(&uriAPI{a, u, a.m.uri}).step()
				}
			}}}
			if more != nil {
				ops = append(ops, more(a)...)
			}
			return ops
		},
		see: func(a *api) {
			a.seeURI(get(a.h), a.m.uri)
			if see != nil {
				see(a)
			}
		},
	}
}

type authHeader interface {
	SetScheme(string)
	GetScheme() string
	SetRealm(string) error
	GetRealm() string
	SetNonce(string) error
	GetNonce() string
	SetURI(address.URI) error
	GetURI() address.URI
	SetAlgorithm(string) error
	GetAlgorithm() string
	SetQop(string) error
	GetQop() string
	SetOpaque(string) error
	GetOpaque() string
	SetDomain(string) error
	GetDomain() string
	SetStale(bool)
	IsStale() bool
	SetCNonce(string) error
	GetCNonce() string
	SetNonceCount(int) error
	GetNonceCount() int
	SetResponse(string) error
	GetResponse() string
	SetUsername(string) error
	GetUsername() string
}

func (a *api) hex32() string { return a.g.str("0123456789abcdef", 32, 32) }

func authKind(name string, mk func() header.Header) *hkind {
	return &hkind{
		name: name, auth: true, typed: "realm nonce uri algorithm qop opaque domain stale cnonce nc response username nextnonce rspauth",
		make: func(a *api) header.Header { return mk() },
		init: func(a *api) {
			h := a.h.(authHeader)
			a.str("SetScheme", "scheme", "Digest", noerr(h.SetScheme)).run()
			a.par("SetRealm", "realm", a.phrase(), h.SetRealm).run()
		},
		head: func(m *hm) string { return m.f["scheme"] },
		ops: func(a *api) []aop {
			h, t := a.h.(authHeader), a.c.T
			nc := int(t.Log(32))
			stale := t.Bool()
			return []aop{
				a.par("SetRealm", "realm", a.phrase(), h.SetRealm),
				a.par("SetNonce", "nonce", t.Of(a.hex32(), a.phrase()), h.SetNonce),
				a.par("SetAlgorithm", "algorithm", t.Of("MD5", "MD5-sess", "AKAv1-MD5"), h.SetAlgorithm),
				a.par("SetQop", "qop", t.Of("auth", "auth-int", "auth,auth-int"), h.SetQop),
				a.par("SetOpaque", "opaque", a.phrase(), h.SetOpaque),
				a.par("SetDomain", "domain", t.Of("sip:a.b", "sip:a.b sip:c.d"), h.SetDomain),
				a.par("SetCNonce", "cnonce", a.phrase(), h.SetCNonce),
				a.par("SetResponse", "response", a.hex32(), h.SetResponse),
				a.par("SetUsername", "username", a.phrase(), h.SetUsername),
				{"SetNonceCount", func() {
					a.call(fmt.Sprintf("SetNonceCount(%d)", nc), func() error { return h.SetNonceCount(nc) }, func() { a.m.ps.set("nc", fmt.Sprintf("%08x", nc), false) })
				}},
				{"SetStale", func() {
					a.call(fmt.Sprintf("SetStale(%v)", stale), func() error { h.SetStale(stale); return nil }, func() { a.m.ps.set("stale", fmt.Sprint(stale), false) })
				}},
				{"SetURI", func() {
					u, um := a.newURI()
					a.seeURI(u, um)
					text := u.String() // the digest is over the very text
					a.call("SetURI("+text+")", func() error { return h.SetURI(u) }, func() { a.m.ps.set("uri", `"`+text+`"`, false) })
				}},
				{"SetChallenge", func() {
					x, ok := h.(interface{ SetChallenge(header.Challenge) })
					if !ok {
						return
					}
					ch := header.NewChallenge()
					realm, tok := a.phrase(), a.g.uniq("c")
					ch.SetScheme("Digest")
					nv := core.NewNameValue("realm", realm)
					nv.SetQuotedValue()
					if t.Bool() {
						ch.SetParameter(core.NewNameValue("gone", "x"))
						if t.Bool() {
							ch.RemoveParameter("gone")
						} else {
							ch.RemoveParameters()
						}
					}
					ch.SetParameter(nv)
					ch.SetParameter(core.NewNameValue(tok, "v"))
					a.eq("challenge", ch, "Digest realm=\""+realm+"\","+tok+"=v")
					a.eq("realm of the challenge", ch.GetRealm(), realm)
					a.eq("parameter of the challenge", ch.GetParameter(tok), "v")
					a.eq("challenge has", ch.HasParameter(tok), true)
					a.eq("challenge has", ch.HasParameter("gone"), false)
					a.call(fmt.Sprintf("SetChallenge(%s)", ch), func() error { x.SetChallenge(*ch); return nil }, func() {
						a.m.f["scheme"] = "Digest"
						a.m.ps = pvs{{"realm", `"` + realm + `"`, false}, {tok, "v", false}}
					})
				}},
				a.bads(func() error { return h.SetRealm("") }, func() error { return h.SetNonce("") }, func() error { return h.SetURI(nil) },
					func() error { return h.SetAlgorithm("") }, func() error { return h.SetQop("") }, func() error { return h.SetOpaque("") },
					func() error { return h.SetDomain("") }, func() error { return h.SetNonceCount(-1) }, func() error { return h.SetResponse("") },
					func() error { return h.SetNonceCount(1 << 32) }),
			}
		},
		see: func(a *api) {
			h := a.h.(authHeader)
			a.field("scheme", "scheme", h.GetScheme())
			for _, x := range []struct{ n, got string }{{"realm", h.GetRealm()}, {"nonce", h.GetNonce()}, {"algorithm", h.GetAlgorithm()}, {"qop", h.GetQop()},
				{"opaque", h.GetOpaque()}, {"domain", h.GetDomain()}, {"cnonce", h.GetCNonce()}, {"response", h.GetResponse()}, {"username", h.GetUsername()}} {
				a.eq(x.n, x.got, a.m.ps.get(x.n))
			}
			a.eq("stale", h.IsStale(), a.m.ps.get("stale") == "true")
			if v := a.m.ps.get("nc"); v != "" {
				n, _ := strconv.ParseUint(v, 16, 64)
				a.eq("nonce count", h.GetNonceCount(), n)
			}
			if v := a.m.ps.get("uri"); v != "" {
				a.eq("uri", h.GetURI(), v)
			}
		},
	}
}

type productHeader interface {
	AddProductToken(string)
	GetProduct() *list.List
	SetProduct(*list.List) error
}

func productKind(name string, mk func() header.Header) *hkind {
	tok := func(a *api) string { return a.c.T.Of("GoSIP", "Softphone", "Beta1.5", "x-1", "2.b") }
	set := func(a *api) {
		h := a.h.(productHeader)
		l := list.New()
		var w []string
		for k := a.c.T.Range(1, 3); k > 0; k-- {
			v := tok(a)
			w = append(w, v)
			l.PushBack(v)
		}
		a.call(fmt.Sprintf("SetProduct(%q)", w), func() error { return h.SetProduct(l) }, func() { a.m.f["v"] = strings.Join(w, "/") })
	}
	return &hkind{
		name: name,
		make: func(a *api) header.Header { return mk() },
		init: set,
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(productHeader)
			return []aop{{"SetProduct", func() { set(a) }}, {"AddProductToken", func() {
				v := tok(a)
				if len(a.m.f["v"]) > 200 {
					return
				}
				a.call("AddProductToken("+v+")", func() error { h.AddProductToken(v); return nil }, func() { a.m.f["v"] += "/" + v })
			}}, a.bads(func() error { return h.SetProduct(nil) })}
		},
		see: func(a *api) {
			var w []string
			for e := a.h.(productHeader).GetProduct().Front(); e != nil; e = e.Next() {
				w = append(w, fmt.Sprint(e.Value))
			}
			a.field("product", "v", strings.Join(w, "/"))
		},
	}
}

var hkinds = []*hkind{
	addrKind("From", func() header.Header { return header.NewFrom() }, (*api).tagOps, (*api).seeEnd, "tag"),
	addrKind("To", func() header.Header { return header.NewTo() }, (*api).tagOps, (*api).seeEnd, "tag"),
	addrKind("Route", func() header.Header { return header.NewRoute() }, nil, nil, ""),
	addrKind("Record-Route", func() header.Header { return header.NewRecordRoute() }, nil, nil, ""),
	addrKind("Refer-To", func() header.Header { return header.NewReferTo() }, nil, nil, ""),
	addrKind("Reply-To", func() header.Header { return header.NewReplyTo() }, nil, nil, ""),
	addrKind("Contact", func() header.Header { return header.NewContact() }, func(a *api) []aop {
		h := a.h.(*header.Contact)
		return append(a.qops(), a.parnum("SetExpires", "expires", a.bignum(), h.SetExpires), a.bads(func() error { return h.SetExpires(-1) }))
	}, func(a *api) {
		a.seeq()
		if v := a.m.ps.get("expires"); v != "" {
			a.eq("expires", a.h.(*header.Contact).GetExpires(), v)
		}
	}, "q expires"),
	{
		name: "Via", typed: "branch received maddr ttl rport",
		make: func(a *api) header.Header { return header.NewVia() },
		init: func(a *api) {
			v := a.h.(*header.Via)
			h := a.g.hostname()
			a.str("SetHostFromString", "host", h, v.SetHostFromString).run()
			a.m.f["transport"] = "UDP"
			if tr := a.c.T.Of("UDP", "TCP", "TLS", "SCTP"); tr != "UDP" {
				a.str("SetTransport", "transport", tr, noerr(v.GetSentProtocol().SetTransport)).run()
			}
		},
		head: func(m *hm) string {
			s := "SIP/2.0/" + m.f["transport"] + " " + m.f["host"]
			if m.f["port"] != "" {
				s += ":" + m.f["port"]
			}
			return s
		},
		ops: func(a *api) []aop {
			v := a.h.(*header.Via)
			t := a.c.T
			ttl := t.Intn(256)
			return []aop{
				a.str("SetHostFromString", "host", a.g.hostname(), v.SetHostFromString),
				a.str("SetTransport", "transport", t.Of("UDP", "TCP", "TLS", "SCTP", "WS"), noerr(v.GetSentProtocol().SetTransport)),
				a.num("SetPort", "port", t.Range(1, 65535), func(p int) error { v.SetPort(p); return nil }),
				{"RemovePort", func() {
					a.call("RemovePort", func() error { v.RemovePort(); return nil }, func() { a.m.f["port"] = "" })
				}},
				a.par("SetBranch", "branch", "z9hG4bK"+a.g.token(), v.SetBranch),
				a.par("SetReceived", "received", t.Of("10.1.2.3", "192.0.2.7"), v.SetReceived),
				a.par("SetMAddr", "maddr", t.Of("224.2.0.1", "m.example.com"), v.SetMAddr),
				a.parnum("SetTTL", "ttl", ttl, v.SetTTL),
				{"SetTTL(-1)", func() { // the value of one that is not set
					a.call("SetTTL(-1)", func() error { return v.SetTTL(-1) }, func() { a.m.ps.del("ttl") })
				}},
				a.str("SetHost", "host", a.g.hostname(), func(s string) error { v.SetHost(core.NewHost(s)); return nil }),
				{"SetSentBy", func() {
					hp := core.NewHostPort()
					h, p := a.g.hostname(), t.Range(1, 65535)
					hp.SetHost(core.NewHost(h))
					hp.SetPort(p)
					a.call(fmt.Sprintf("SetSentBy(%s)", hp), func() error { v.SetSentBy(hp); return nil }, func() { a.m.f["host"], a.m.f["port"] = h, strconv.Itoa(p) })
				}},
				{"GetSentBy().GetHost().SetHostName", func() {
					h := strings.ToLower(a.g.hostname())
					a.call("GetSentBy().GetHost().SetHostName("+h+")", func() error { v.GetSentBy().GetHost().SetHostName(h); return nil }, func() { a.m.f["host"] = h })
				}},
				{"GetSentBy().SetPort", func() {
					p := t.Range(1, 65535)
					a.call(fmt.Sprintf("GetSentBy().SetPort(%d)", p), func() error { v.GetSentBy().SetPort(p); return nil }, func() { a.m.f["port"] = strconv.Itoa(p) })
				}},
				{"SetSentProtocol", func() {
					p := header.NewProtocol()
					p.SetTransport("TCP")
					a.call("SetSentProtocol(TCP)", func() error { v.SetSentProtocol(p); return nil }, func() { a.m.f["transport"] = "TCP" })
				}},
				a.bads(func() error { return v.SetBranch("") }, func() error { return v.SetReceived("") }, func() error { return v.SetMAddr("") },
					func() error { return v.SetTTL(-2) }, func() error { return v.SetTTL(256) }, func() error { return v.SetProtocol("") }),
			}
		},
		see: func(a *api) {
			v := a.h.(*header.Via)
			a.eq("host", nhost(v.GetHost()), nhost(a.m.f["host"]))
			p := a.m.f["port"]
			a.eq("HasPort", v.HasPort(), p != "")
			if p == "" {
				p = "-1"
			}
			a.eq("port", v.GetPort(), p)
			a.field("transport", "transport", v.GetTransport())
			a.eq("sent-by", nhost(v.GetSentBy().String()), nhost(hostport(a.m.f["host"], atoi(a.m.f["port"]))))
			if m := v.GetMAddr(); m != "" {
				a.eq("Host of maddr", v.GetMaddr(), m)
			}
			a.eq("protocol", v.GetProtocol(), "SIP")
			a.eq("protocol version", v.GetProtocolVersion(), "2.0")
			a.eq("branch", v.GetBranch(), a.m.ps.get("branch"))
			a.eq("received", v.GetReceived(), a.m.ps.get("received"))
			a.eq("maddr", v.GetMAddr(), a.m.ps.get("maddr"))
			ttl := a.m.ps.get("ttl")
			if ttl == "" {
				ttl = "-1"
			}
			a.eq("ttl", v.GetTTL(), ttl)
		},
	},
	{
		name: "CSeq",
		make: func(a *api) header.Header {
			a.m.f["n"], a.m.f["method"] = strconv.Itoa(a.bignum()), a.c.T.Of("INVITE", "OPTIONS", "X-M.1")
			n, _ := strconv.Atoi(a.m.f["n"])
			return header.NewCSeq(n, a.m.f["method"])
		},
		init: func(a *api) {},
		head: func(m *hm) string { return m.f["n"] + " " + m.f["method"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.CSeq)
			return []aop{
				a.num("SetSequenceNumber", "n", a.bignum(), h.SetSequenceNumber),
				a.str("SetMethod", "method", a.c.T.Of("INVITE", "BYE", "REGISTER", "X-M.1"), h.SetMethod),
				a.bads(func() error { return h.SetSequenceNumber(-1) }, func() error { return h.SetMethod("") }),
			}
		},
		see: func(a *api) {
			h := a.h.(*header.CSeq)
			a.field("number", "n", h.GetSequenceNumber())
			a.field("method", "method", h.GetMethod())
		},
	},
	{
		name: "Call-ID",
		make: func(a *api) header.Header {
			a.m.f["v"] = a.g.callid()
			h, err := header.NewCallID(a.m.f["v"])
			if err != nil {
				a.fail("refused", "NewCallID(%q): %v", a.m.f["v"], err)
			}
			return h
		},
		init: func(a *api) {},
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.CallID)
			return []aop{a.str("SetCallId", "v", a.g.callid(), h.SetCallId),
				a.str("CallIdentifier.SetCallID", "v", a.g.callid(), func(s string) error { return h.GetCallIdentifer().SetCallID(s) }),
				a.str("SetCallIdentifier", "v", a.g.callid(), func(s string) error {
					id, err := header.NewCallIdentifier(s)
					h.SetCallIdentifier(id)
					return err
				}),
				{"CallIdentifier.SetLocalId and SetHost", func() {
					l, o := a.g.uniq("l"), a.c.T.Of("", "h.example", "10.0.0.1")
					v := l
					if o != "" {
						v += "@" + o
					}
					a.call("CallIdentifier.SetLocalId("+l+"), SetHost("+o+")", func() error {
						id := h.GetCallIdentifer()
						id.SetLocalId(l)
						id.SetHost(o)
						return nil
					}, func() { a.m.f["v"] = v })
				}},
				a.bads(func() error { return h.SetCallId("") }, func() error { return h.SetCallId("@x") }, func() error { return h.SetCallId("x@") },
					func() error { return h.GetCallIdentifer().SetCallID("@x") }, func() error { return h.GetCallIdentifer().SetCallID("") })}
		},
		see: func(a *api) { a.field("value", "v", a.h.(*header.CallID).GetCallId()) },
	},
	{
		name: "In-Reply-To",
		make: func(a *api) header.Header { return header.NewInReplyTo() },
		init: func(a *api) { a.str("SetCallId", "v", a.g.callid(), a.h.(*header.InReplyTo).SetCallId).run() },
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.InReplyTo)
			return []aop{a.str("SetCallId", "v", a.g.callid(), h.SetCallId),
				a.bads(func() error { return h.SetCallId("") }, func() error { return h.SetCallId("@x") }, func() error { return h.SetCallId("x@") })}
		},
		see: func(a *api) { a.field("value", "v", a.h.(*header.InReplyTo).GetCallId()) },
	},
	oneNum("Max-Forwards", func() header.Header { return header.NewMaxForwards() }, func(a *api) int { return a.c.T.Intn(256) },
		func(h header.Header) func(int) error { return h.(*header.MaxForwards).SetMaxForwards },
		func(h header.Header) int { return h.(*header.MaxForwards).GetMaxForwards() }, -1, 256),
	oneNum("Expires", func() header.Header { return header.NewExpires() }, (*api).bignum,
		func(h header.Header) func(int) error { return h.(*header.Expires).SetExpires },
		func(h header.Header) int { return h.(*header.Expires).GetExpires() }, -1),
	oneNum("Min-Expires", func() header.Header { return header.NewMinExpires() }, (*api).bignum,
		func(h header.Header) func(int) error { return h.(*header.MinExpires).SetExpires },
		func(h header.Header) int { return h.(*header.MinExpires).GetExpires() }, -1),
	oneNum("RSeq", func() header.Header { return header.NewRSeq() }, func(a *api) int { return 1 + a.bignum() },
		func(h header.Header) func(int) error { return h.(*header.RSeq).SetSequenceNumber },
		func(h header.Header) int { return h.(*header.RSeq).GetSequenceNumber() }, -1),
	{
		name: "RAck",
		make: func(a *api) header.Header { return header.NewRAck() },
		init: func(a *api) {
			h := a.h.(*header.RAck)
			a.num("SetRSeqNumber", "r", 1+a.bignum(), h.SetRSeqNumber).run()
			a.num("SetCSeqNumber", "c", 1+a.bignum(), h.SetCSeqNumber).run()
			a.str("SetMethod", "m", "INVITE", h.SetMethod).run()
		},
		head: func(m *hm) string { return m.f["r"] + " " + m.f["c"] + " " + m.f["m"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.RAck)
			return []aop{a.num("SetRSeqNumber", "r", 1+a.bignum(), h.SetRSeqNumber), a.num("SetCSeqNumber", "c", 1+a.bignum(), h.SetCSeqNumber),
				a.str("SetMethod", "m", a.c.T.Of("INVITE", "UPDATE", "X-M.1"), h.SetMethod),
				a.bads(func() error { return h.SetRSeqNumber(-1) }, func() error { return h.SetCSeqNumber(-1) })}
		},
		see: func(a *api) {
			h := a.h.(*header.RAck)
			a.field("rseq", "r", h.GetRSeqNumber())
			a.field("cseq", "c", h.GetCSeqNumber())
			a.field("method", "m", h.GetMethod())
		},
	},
	{
		name: "MIME-Version",
		make: func(a *api) header.Header { return header.NewMimeVersion() },
		init: func(a *api) {
			h := a.h.(*header.MimeVersion)
			a.num("SetMajorVersion", "a", 1, h.SetMajorVersion).run()
			a.num("SetMinorVersion", "i", 0, h.SetMinorVersion).run()
		},
		head: func(m *hm) string { return m.f["a"] + "." + m.f["i"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.MimeVersion)
			return []aop{a.num("SetMajorVersion", "a", a.c.T.Intn(30), h.SetMajorVersion), a.num("SetMinorVersion", "i", a.c.T.Intn(30), h.SetMinorVersion),
				a.bads(func() error { return h.SetMajorVersion(-1) }, func() error { return h.SetMinorVersion(-1) })}
		},
		see: func(a *api) {
			h := a.h.(*header.MimeVersion)
			a.field("major", "a", h.GetMajorVersion())
			a.field("minor", "i", h.GetMinorVersion())
		},
	},
	{
		name: "Date",
		make: func(a *api) header.Header { return header.NewDate() },
		init: setDate,
		head: func(m *hm) string { return m.f["v"] },
		ops:  func(a *api) []aop { return []aop{{"SetDate", func() { setDate(a) }}} },
		see: func(a *api) {
			a.eq("date", a.h.(*header.Date).GetDate().UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT"), a.m.f["v"])
		},
	},
	{
		name: "Timestamp",
		make: func(a *api) header.Header { return header.NewTimeStamp() },
		init: func(a *api) { a.num("SetTimeStamp", "t", 54, setFloat(a.h.(*header.TimeStamp).SetTimeStamp, 1)).run() },
		head: func(m *hm) string { return strings.TrimSpace(m.f["t"] + " " + m.f["d"]) },
		ops: func(a *api) []aop {
			h := a.h.(*header.TimeStamp)
			quarter := func(what, field string, f func(float32) error) aop {
				return aop{what, func() {
					v := float32(a.c.T.Intn(40000)) / 4
					a.call(fmt.Sprintf("%s(%v)", what, v), func() error { return f(v) }, func() { a.m.f[field] = strconv.FormatFloat(float64(v), 'f', -1, 32) })
				}}
			}
			return []aop{quarter("SetTimeStamp", "t", h.SetTimeStamp), quarter("SetDelay", "d", h.SetDelay),
				a.str("SetTimeStampFromString", "t", a.g.decimal(), h.SetTimeStampFromString),
				a.str("SetDelayFromString", "d", a.g.decimal(), h.SetDelayFromString),
				{"RemoveDelay", func() {
					a.call("RemoveDelay", func() error { h.RemoveDelay(); return nil }, func() { a.m.f["d"] = "" })
				}},
				a.bads(func() error { return h.SetTimeStamp(-1) }, func() error { return h.SetDelay(-2) },
					func() error { return h.SetTimeStampFromString("x") }, func() error { return h.SetDelayFromString("-1") })}
		},
		see: func(a *api) {
			h := a.h.(*header.TimeStamp)
			f := func(s string) float32 { v, _ := strconv.ParseFloat(s, 32); return float32(v) }
			a.eq("timestamp", h.GetTimeStamp(), f(a.m.f["t"]))
			a.eq("HasDelay", h.HasDelay(), a.m.f["d"] != "")
			if a.m.f["d"] != "" {
				a.eq("delay", h.GetDelay(), f(a.m.f["d"]))
			}
		},
	},
	{
		name: "Retry-After", typed: "duration",
		make: func(a *api) header.Header { return header.NewRetryAfter() },
		init: func(a *api) { a.num("SetRetryAfter", "n", 18000, a.h.(*header.RetryAfter).SetRetryAfter).run() },
		head: func(m *hm) string {
			if m.f["c"] != "" {
				return m.f["n"] + " (" + m.f["c"] + ")"
			}
			return m.f["n"]
		},
		ops: func(a *api) []aop {
			h, t := a.h.(*header.RetryAfter), a.c.T
			return []aop{a.num("SetRetryAfter", "n", a.bignum(), h.SetRetryAfter),
				a.str("SetComment", "c", t.Of("I'm in a meeting", "x", "a; b, c"), h.SetComment),
				{"RemoveComment", func() {
					a.call("RemoveComment", func() error { h.RemoveComment(); return nil }, func() { a.m.f["c"] = "" })
				}},
				a.parnum("SetDuration", "duration", a.bignum(), h.SetDuration),
				{"RemoveDuration", func() {
					a.call("RemoveDuration", func() error { h.RemoveDuration(); return nil }, func() { a.m.ps.del("duration") })
				}},
				a.bads(func() error { return h.SetRetryAfter(-1) }, func() error { return h.SetDuration(-1) }, func() error { return h.SetComment("") })}
		},
		see: func(a *api) {
			h := a.h.(*header.RetryAfter)
			a.field("retry after", "n", h.GetRetryAfter())
			a.field("comment", "c", h.GetComment())
			a.eq("HasComment", h.HasComment(), a.m.f["c"] != "")
			if v := a.m.ps.get("duration"); v != "" {
				a.eq("duration", h.GetDuration(), v)
			}
		},
	},
	oneText("Subject", func() header.Header { return header.NewSubject() }, text,
		func(h header.Header) func(string) error { return h.(*header.Subject).SetSubject },
		func(h header.Header) string { return h.(*header.Subject).GetSubject() }, true),
	oneText("Organization", func() header.Header { return header.NewOrganization() }, text,
		func(h header.Header) func(string) error { return h.(*header.Organization).SetOrganization },
		func(h header.Header) string { return h.(*header.Organization).GetOrganization() }, true),
	oneText("Priority", func() header.Header { return header.NewPriority() }, func(a *api) string { return a.c.T.Of("urgent", "emergency", "normal", "x-y") },
		func(h header.Header) func(string) error { return h.(*header.Priority).SetPriority },
		func(h header.Header) string { return h.(*header.Priority).GetPriority() }, true),
	oneText("Allow", func() header.Header { return header.NewAllow() }, func(a *api) string { return a.c.T.Of("INVITE", "BYE", "X-M.1") },
		func(h header.Header) func(string) error { return h.(*header.Allow).SetMethod },
		func(h header.Header) string { return h.(*header.Allow).GetMethod() }, true),
	oneText("Allow-Events", func() header.Header { return header.NewAllowEvents() }, func(a *api) string { return a.c.T.Of("presence", "message-summary", "a.b.c") },
		func(h header.Header) func(string) error { return h.(*header.AllowEvents).SetEventType },
		func(h header.Header) string { return h.(*header.AllowEvents).GetEventType() }, true),
	optionKind("Require", func() header.Header { return header.NewRequire() }),
	optionKind("Proxy-Require", func() header.Header { return header.NewProxyRequire() }),
	optionKind("Supported", func() header.Header { return header.NewSupported() }),
	optionKind("Unsupported", func() header.Header { return header.NewUnsupported() }),
	oneText("Content-Encoding", func() header.Header { return header.NewContentEncoding() }, (*api).word,
		func(h header.Header) func(string) error { return h.(*header.ContentEncoding).SetEncoding },
		func(h header.Header) string { return h.(*header.ContentEncoding).GetEncoding() }, true),
	oneText("Content-Language", func() header.Header { return header.NewContentLanguage() }, func(a *api) string { return a.c.T.Of("fr", "en-us", "zh-Hant-TW") },
		func(h header.Header) func(string) error { return noerr(h.(*header.ContentLanguage).SetLanguageTag) },
		func(h header.Header) string { return h.(*header.ContentLanguage).GetLanguageTag() }, false),
	{
		name: "X-Custom",
		make: func(a *api) header.Header { return header.NewExtension("X-Custom") },
		init: func(a *api) { a.str("SetValue", "v", text(a), noerr(a.h.(*header.Extension).SetValue)).run() },
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			return []aop{a.str("SetValue", "v", text(a), noerr(a.h.(*header.Extension).SetValue))}
		},
		see: func(a *api) { a.eq("value", tight(a.h.(*header.Extension).GetValue()), tight(a.m.f["v"])) },
	},
	productKind("User-Agent", func() header.Header { return header.NewUserAgent() }),
	productKind("Server", func() header.Header { return header.NewServer() }),
	{
		name: "Accept", typed: "q",
		make: func(a *api) header.Header { return header.NewAccept() },
		init: func(a *api) {
			h := a.h.(*header.Accept)
			first, then := a.str("SetContentType", "t", "application", noerr(h.SetContentType)), a.str("SetContentSubType", "s", "sdp", noerr(h.SetContentSubType))
			if a.c.T.Bool() {
				first, then = then, first
			}
			first.run()
			then.run()
		},
		head: func(m *hm) string { return m.f["t"] + "/" + m.f["s"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.Accept)
			return append(a.qops(), a.str("SetContentType", "t", a.c.T.Of("text", "application", "*"), noerr(h.SetContentType)),
				a.str("SetContentSubType", "s", a.c.T.Of("html", "sdp", "x-y", "*"), noerr(h.SetContentSubType)))
		},
		see: func(a *api) {
			h := a.h.(*header.Accept)
			a.field("type", "t", h.GetContentType())
			a.field("subtype", "s", h.GetContentSubType())
			a.eq("AllowsAllContentTypes", h.AllowsAllContentTypes(), a.m.f["t"] == "*")
			a.eq("AllowsAllContentSubTypes", h.AllowsAllContentSubTypes(), a.m.f["s"] == "*")
			a.eq("media range", h.GetMediaRange(), a.m.f["t"]+"/"+a.m.f["s"])
			a.seeq()
		},
	},
	{
		name: "Accept-Encoding", typed: "q",
		make: func(a *api) header.Header { return header.NewAcceptEncoding() },
		init: func(a *api) { a.str("SetEncoding", "v", "gzip", a.h.(*header.AcceptEncoding).SetEncoding).run() },
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.AcceptEncoding)
			return append(a.qops(), a.str("SetEncoding", "v", a.c.T.Of("gzip", "identity", "*", "x-z"), h.SetEncoding), a.bads(func() error { return h.SetEncoding("") }))
		},
		see: func(a *api) {
			a.field("encoding", "v", a.h.(*header.AcceptEncoding).GetEncoding())
			a.seeq()
		},
	},
	{
		name: "Accept-Language", typed: "q",
		make: func(a *api) header.Header { return header.NewAcceptLanguage() },
		init: func(a *api) {
			a.str("SetLanguageRange", "v", "en", noerr(a.h.(*header.AcceptLanguage).SetLanguageRange)).run()
		},
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.AcceptLanguage)
			return append(a.qops(), a.str("SetLanguageRange", "v", a.c.T.Of("en", "da", "en-gb", "*"), noerr(h.SetLanguageRange)))
		},
		see: func(a *api) {
			a.field("language", "v", a.h.(*header.AcceptLanguage).GetLanguageRange())
			a.seeq()
		},
	},
	{
		name: "Content-Type",
		make: func(a *api) header.Header { return header.NewContentType() },
		init: func(a *api) {
			h := a.h.(*header.ContentType)
			first, then := a.str("SetContentType", "t", "application", h.SetContentType), a.str("SetContentSubType", "s", "sdp", h.SetContentSubType)
			if a.c.T.Bool() {
				first, then = then, first
			}
			first.run()
			then.run()
		},
		head: func(m *hm) string { return m.f["t"] + "/" + m.f["s"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.ContentType)
			return []aop{a.str("SetContentType", "t", a.c.T.Of("text", "application", "multipart"), h.SetContentType),
				a.str("SetContentSubType", "s", a.c.T.Of("html", "sdp", "mixed", "x-y"), h.SetContentSubType),
				a.bads(func() error { return h.SetContentType("") }, func() error { return h.SetContentSubType("") })}
		},
		see: func(a *api) {
			h := a.h.(*header.ContentType)
			a.field("type", "t", h.GetContentType())
			a.field("subtype", "s", h.GetContentSubType())
			a.eq("media range", h.GetMediaRange(), a.m.f["t"]+"/"+a.m.f["s"])
			a.eq("CompareMediaRange with itself", h.CompareMediaRange(a.m.f["t"]+"/"+strings.ToUpper(a.m.f["s"])), true)
			a.eq("CompareMediaRange with another", h.CompareMediaRange(a.m.f["t"]+"/other"), false)
			a.eq("CompareMediaRange with another", h.CompareMediaRange("other/"+a.m.f["s"]), false)
		},
	},
	{
		name: "Content-Disposition", typed: "handling",
		make: func(a *api) header.Header { return header.NewContentDisposition() },
		init: func(a *api) {
			a.str("SetDispositionType", "v", "session", a.h.(*header.ContentDisposition).SetDispositionType).run()
		},
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.ContentDisposition)
			return []aop{a.str("SetDispositionType", "v", a.c.T.Of("render", "icon", "alert", "x1"), h.SetDispositionType),
				a.par("SetHandling", "handling", a.c.T.Of("optional", "required"), h.SetHandling),
				a.bads(func() error { return h.SetDispositionType("") }, func() error { return h.SetHandling("") })}
		},
		see: func(a *api) {
			h := a.h.(*header.ContentDisposition)
			a.field("type", "v", h.GetDispositionType())
			a.eq("handling", h.GetHandling(), a.m.ps.get("handling"))
		},
	},
	{
		name: "Event", typed: "id",
		make: func(a *api) header.Header { return header.NewEvent() },
		init: func(a *api) { a.str("SetEventType", "v", "presence", a.h.(*header.Event).SetEventType).run() },
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.Event)
			return []aop{a.str("SetEventType", "v", a.c.T.Of("presence", "refer", "a.b"), h.SetEventType), a.par("SetEventId", "id", a.word(), h.SetEventId),
				a.bads(func() error { return h.SetEventType("") }, func() error { return h.SetEventId("") })}
		},
		see: func(a *api) {
			h := a.h.(*header.Event)
			a.field("type", "v", h.GetEventType())
			a.eq("id", h.GetEventId(), a.m.ps.get("id"))
			o := header.NewEvent()
			o.SetEventType(strings.ToUpper(a.m.f["v"]))
			id := a.m.ps.get("id")
			if id != "" {
				a.eq("Match without the id", h.Match(o), false)
				a.eq("Match without the id", o.Match(h), false)
				o.SetEventId(id)
			}
			a.eq("Match", h.Match(o), true)
			a.eq("Match", o.Match(h), true)
			o.SetEventId(id + "x")
			a.eq("Match with another id", h.Match(o), false)
			o.SetEventId(id + "y")
			o.SetEventType(a.m.f["v"] + ".winfo")
			a.eq("Match with another type", h.Match(o), false)
			a.eq("Match with none", h.Match(nil), false)
		},
	},
	{
		name: "Subscription-State", typed: "reason expires retry-after",
		make: func(a *api) header.Header { return header.NewSubscriptionState() },
		init: func(a *api) { a.str("SetState", "v", "active", a.h.(*header.SubscriptionState).SetState).run() },
		head: func(m *hm) string {
			s := m.f["v"]
			for _, n := range []string{"reason", "retry-after", "expires"} {
				if m.f[n] != "" {
					s += ";" + n + "=" + m.f[n]
				}
			}
			return s
		},
		ops: func(a *api) []aop {
			h := a.h.(*header.SubscriptionState)
			return []aop{a.str("SetState", "v", a.c.T.Of("active", "pending", "terminated", "x-y"), h.SetState),
				a.str("SetReasonCode", "reason", a.c.T.Of("deactivated", "probation", "noresource", "x-y"), h.SetReasonCode),
				a.num("SetExpires", "expires", a.bignum(), h.SetExpires), a.num("SetRetryAfter", "retry-after", a.bignum(), h.SetRetryAfter),
				a.bads(func() error { return h.SetState("") }, func() error { return h.SetReasonCode("") }, func() error { return h.SetExpires(-1) }, func() error { return h.SetRetryAfter(-1) })}
		},
		see: func(a *api) {
			h := a.h.(*header.SubscriptionState)
			a.field("state", "v", h.GetState())
			a.field("reason", "reason", h.GetReasonCode())
			if a.m.f["expires"] != "" {
				a.field("expires", "expires", h.GetExpires())
			}
			if a.m.f["retry-after"] != "" {
				a.field("retry after", "retry-after", h.GetRetryAfter())
			}
		},
	},
	{
		name: "Reason", typed: "cause text",
		make: func(a *api) header.Header { return header.NewReason() },
		init: func(a *api) { a.str("SetProtocol", "v", "SIP", a.h.(*header.Reason).SetProtocol).run() },
		head: func(m *hm) string { return m.f["v"] },
		ops: func(a *api) []aop {
			h := a.h.(*header.Reason)
			return []aop{a.str("SetProtocol", "v", a.c.T.Of("SIP", "Q.850"), h.SetProtocol), a.parnum("SetCause", "cause", a.c.T.Range(1, 699), h.SetCause),
				a.par("SetText", "text", a.phrase(), h.SetText),
				a.bads(func() error { return h.SetCause(-1) })}
		},
		see: func(a *api) {
			h := a.h.(*header.Reason)
			a.field("protocol", "v", h.GetProtocol())
			if v := a.m.ps.get("cause"); v != "" {
				a.eq("cause", h.GetCause(), v)
			}
			a.eq("text", h.GetText(), a.m.ps.get("text"))
		},
	},
	{
		name: "Warning",
		make: func(a *api) header.Header { return header.NewWarning() },
		init: func(a *api) {
			h := a.h.(*header.Warning)
			a.num("SetCode", "c", 370, h.SetCode).run()
			a.str("SetAgent", "a", a.g.hostname(), h.SetAgent).run()
			a.str("SetText", "t", a.phrase(), h.SetText).run()
		},
		head: func(m *hm) string { return m.f["c"] + " " + m.f["a"] + ` "` + m.f["t"] + `"` },
		ops: func(a *api) []aop {
			h := a.h.(*header.Warning)
			return []aop{a.num("SetCode", "c", a.c.T.Range(300, 399), h.SetCode), a.str("SetText", "t", a.phrase(), h.SetText),
				a.str("SetAgent", "a", a.c.T.Of(a.g.hostname(), "isi.edu:5060"), h.SetAgent),
				a.bads(func() error { return h.SetCode(-1) }, func() error { return h.SetCode(400) }, func() error { return h.SetAgent("") }, func() error { return h.SetText("") })}
		},
		see: func(a *api) {
			h := a.h.(*header.Warning)
			a.field("code", "c", h.GetCode())
			a.eq("agent", strings.ToLower(h.GetAgent()), strings.ToLower(a.m.f["a"]))
			a.field("text", "t", h.GetText())
		},
	},
	infoKind("Alert-Info", func() header.Header { return header.NewAlertInfo() }, func(h header.Header) func(address.URI) { return h.(*header.AlertInfo).SetAlertInfo },
		func(h header.Header) address.URI { return h.(*header.AlertInfo).GetAlertInfo() }, nil, nil, ""),
	infoKind("Call-Info", func() header.Header { return header.NewCallInfo() }, func(h header.Header) func(address.URI) { return h.(*header.CallInfo).SetInfo },
		func(h header.Header) address.URI { return h.(*header.CallInfo).GetInfo() }, func(a *api) []aop {
			h := a.h.(*header.CallInfo)
			return []aop{a.par("SetPurpose", "purpose", a.c.T.Of("icon", "info", "card", "x-y"), h.SetPurpose), a.bads(func() error { return h.SetPurpose("") })}
		}, func(a *api) { a.eq("purpose", a.h.(*header.CallInfo).GetPurpose(), a.m.ps.get("purpose")) }, "purpose"),
	infoKind("Error-Info", func() header.Header { return header.NewErrorInfo() }, func(h header.Header) func(address.URI) { return h.(*header.ErrorInfo).SetErrorInfo },
		func(h header.Header) address.URI { return h.(*header.ErrorInfo).GetErrorInfo() }, func(a *api) []aop {
			h := a.h.(*header.ErrorInfo)
			return []aop{a.par("SetErrorMessage", "message", a.phrase(), h.SetErrorMessage), a.bads(func() error { return h.SetErrorMessage("") })}
		}, func(a *api) { a.eq("message", a.h.(*header.ErrorInfo).GetErrorMessage(), a.m.ps.get("message")) }, "message"),
	authKind("Authorization", func() header.Header { return header.NewAuthorization() }),
	authKind("Proxy-Authorization", func() header.Header { return header.NewProxyAuthorization() }),
	authKind("WWW-Authenticate", func() header.Header { return header.NewWWWAuthenticate() }),
	authKind("Proxy-Authenticate", func() header.Header { return header.NewProxyAuthenticate() }),
	{
		name: "Authentication-Info", auth: true, typed: "nextnonce qop rspauth cnonce nc realm nonce opaque username domain algorithm uri response stale",
		make: func(a *api) header.Header { return header.NewAuthenticationInfo() },
		init: func(a *api) {
			a.par("SetNextNonce", "nextnonce", a.hex32(), a.h.(*header.AuthenticationInfo).SetNextNonce).run()
		},
		head: func(m *hm) string { return "" },
		ops: func(a *api) []aop {
			h, t := a.h.(*header.AuthenticationInfo), a.c.T
			nc := int(t.Log(32))
			return []aop{a.par("SetNextNonce", "nextnonce", t.Of(a.hex32(), a.phrase()), h.SetNextNonce), a.par("SetQop", "qop", t.Of("auth", "auth-int"), h.SetQop),
				a.par("SetResponse", "rspauth", a.hex32(), h.SetResponse), a.par("SetCNonce", "cnonce", a.phrase(), h.SetCNonce),
				{"SetNonceCount", func() {
					a.call(fmt.Sprintf("SetNonceCount(%d)", nc), func() error { return h.SetNonceCount(nc) }, func() { a.m.ps.set("nc", fmt.Sprintf("%08x", nc), false) })
				}},
				a.bads(func() error { return h.SetNonceCount(-1) }, func() error { return h.SetNonceCount(1 << 32) })}
		},
		see: func(a *api) {
			h := a.h.(*header.AuthenticationInfo)
			a.eq("nextnonce", h.GetNextNonce(), a.m.ps.get("nextnonce"))
			a.eq("qop", h.GetQop(), a.m.ps.get("qop"))
			a.eq("rspauth", h.GetResponse(), a.m.ps.get("rspauth"))
			a.eq("cnonce", h.GetCNonce(), a.m.ps.get("cnonce"))
			if v := a.m.ps.get("nc"); v != "" {
				n, _ := strconv.ParseUint(v, 16, 64)
				a.eq("nonce count", h.GetNonceCount(), n)
			}
		},
	},
}

func setFloat(f func(float32) error, div float32) func(int) error {
	return func(n int) error { return f(float32(n) / div) }
}

func setDate(a *api) {
	t := a.c.T
	zones := []*time.Location{time.UTC, time.FixedZone("CET", 3600), time.FixedZone("", -5*3600-1800), time.FixedZone("GMT", 0)}
	z := t.Intn(len(zones))
	d := time.Unix(int64(t.Log(33)), 0).In(zones[z])
	a.call(fmt.Sprintf("SetDate(%v)", d), func() error { a.h.(*header.Date).SetDate(&d); return nil },
		func() { a.m.f["v"] = d.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT") })
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// ctors are other ways to make a header whole.
var ctors = map[string]func(a *api) header.Header{
	"Require":          func(a *api) header.Header { return header.NewRequireFromString(a.setv(a.word())) },
	"Proxy-Require":    func(a *api) header.Header { return header.NewProxyRequireFromString(a.setv(a.word())) },
	"Supported":        func(a *api) header.Header { return header.NewSupportedFromString(a.setv(a.word())) },
	"Unsupported":      func(a *api) header.Header { return header.NewUnsupportedFromString(a.setv(a.word())) },
	"Allow":            func(a *api) header.Header { return header.NewAllowFromString(a.setv("INVITE")) },
	"Allow-Events":     func(a *api) header.Header { return header.NewAllowEventsFromString(a.setv("presence.winfo")) },
	"Content-Encoding": func(a *api) header.Header { return header.NewContentEncodingFromString(a.setv("gzip")) },
	"Content-Language": func(a *api) header.Header { return header.NewContentLanguageFromString(a.setv("en-us")) },
	"Content-Type": func(a *api) header.Header {
		a.m.f["t"], a.m.f["s"] = "text", a.g.uniq("x")
		return header.NewContentTypeFromString(a.m.f["t"], a.m.f["s"])
	},
	"In-Reply-To": func(a *api) header.Header {
		cid, err := header.NewCallIdentifier(a.setv("70710@saturn.bell-tel.com"))
		if err != nil {
			a.fail("refused", "NewCallIdentifier: %v", err)
		}
		return header.NewInReplyToFromCallIdentifier(cid)
	},
	"Error-Info": func(a *api) header.Header {
		u, um := a.newURI()
		a.m.uri = um
		return header.NewErrorInfoFromURI(u)
	},
	"Reply-To":     func(a *api) header.Header { return header.NewReplyToFromAddress(a.newAddr()) },
	"Route":        func(a *api) header.Header { return header.NewRouteFromAddress(a.newAddr()) },
	"Record-Route": func(a *api) header.Header { return header.NewRecordRouteFromAddress(a.newAddr()) },
}

func (a *api) setv(v string) string { a.m.f["v"] = v; return v }

func (a *api) newAddr() address.Address {
	u, um := a.newURI()
	ad := address.NewAddressImpl()
	ad.SetURI(u)
	if a.c.T.Bool() {
		ad.SetDisplayName("Bob")
		a.m.disp = "Bob"
	}
	a.m.uri = um
	return ad
}

// methodLists checks the lists that take all their values at once.
func methodLists(c *Ctx, g *G) {
	t := c.T
	l := list.New()
	var want []string
	for k := t.Range(1, 5); k > 0; k-- {
		v := t.Of("INVITE", "ACK", "BYE", "X-M.1", "presence", "a.b")
		want = append(want, v)
		l.PushBack(v)
	}
	bad := list.New()
	if t.Bool() {
		bad.PushBack("")
	} else {
		bad.PushBack(7)
	}
	var h interface {
		header.Header
		GetMethods() *list.List
		SetMethods(*list.List) error
	}
	c.Lib("SetMethods", 0, func() {
		if t.Bool() {
			h = header.NewAllowList()
		} else {
			h = header.NewAllowEventsList()
		}
		if err := h.SetMethods(bad); err == nil {
			c.Fail("api:methods:accepted", "SetMethods takes %v", bad.Front().Value)
		}
		if err := h.SetMethods(l); err != nil {
			c.Fail("api:methods:refused", "SetMethods(%v): %v", want, err)
		}
	})
	msg := carrier(c)
	c.Lib("AddHeader", 0, func() { sipm(msg).AddHeader(h) })
	got, err := readMsg(encodeMsg(c, msg))
	if err != nil {
		c.Fail("api:methods:wire", "unreadable message: %v", err)
	}
	if v := got.hdr[strings.ToLower(h.GetName())]; strings.Join(v, ",") != strings.Join(want, ",") {
		c.Fail("api:methods:wire", "SetMethods(%v) is sent as %v", want, v)
	}
	var seen []string
	c.Lib("GetMethods", 0, func() {
		for e := h.GetMethods().Front(); e != nil; e = e.Next() {
			seen = append(seen, fmt.Sprint(e.Value))
		}
	})
	if strings.Join(seen, ",") != strings.Join(want, ",") {
		c.Fail("api:methods:getter", "SetMethods(%v) is got as %v", want, seen)
	}
	c.Probe("list of methods")
}
