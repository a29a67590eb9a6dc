package props

// C20: headers, addresses and URIs put together and changed through their
// setters.  A history of calls, good and refused ones, runs on a header while
// a model keeps what it should say; every so often the header is put into a
// message and sent, over a network that loses, doubles and delays, to the next
// agent, who reads it, asks the getters and goes on with a history of its own.

import (
	"container/list"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// pv is a parameter.
type pv struct {
	n, v string
	flag bool
}

// pvs is an ordered list of parameters with different names.
type pvs []pv

func (p pvs) at(n string) int {
	for i := range p {
		if strings.EqualFold(p[i].n, n) {
			return i
		}
	}
	return -1
}

func (p *pvs) set(n, v string, flag bool) {
	if i := p.at(n); i >= 0 {
		(*p)[i].v, (*p)[i].flag = v, flag
		return
	}
	*p = append(*p, pv{n, v, flag})
}

func (p *pvs) del(n string) {
	if i := p.at(n); i >= 0 {
		*p = append((*p)[:i:i], (*p)[i+1:]...)
	}
}

func (p pvs) text(sep string) string {
	var out []string
	for _, x := range p {
		if x.flag {
			out = append(out, x.n)
		} else {
			out = append(out, x.n+"="+x.v)
		}
	}
	return strings.Join(out, sep)
}

func (p pvs) get(n string) string {
	if i := p.at(n); i >= 0 && !p[i].flag {
		return unquote0(p[i].v)
	}
	return ""
}

// unquote0 takes the quotes away and leaves escapes.
func unquote0(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return s[1 : len(s)-1]
	}
	return s
}

// urim is what a URI should say.
type urim struct {
	scheme, user, pw, host string
	port                   int
	ps, hs                 pvs
	text                   string // of another URI
}

func (u *urim) String() string {
	if u.scheme == "" {
		return u.text
	}
	s := u.scheme + ":"
	if u.scheme == "tel" {
		s += u.user
	} else {
		if u.user != "" {
			s += u.user
			if u.pw != "" {
				s += ":" + u.pw
			}
			s += "@"
		}
		s += hostport(u.host, u.port)
	}
	if len(u.ps) > 0 {
		s += ";" + u.ps.text(";")
	}
	if len(u.hs) > 0 {
		s += "?" + u.hs.text("&")
	}
	return s
}

func (u *urim) clone() *urim {
	if u == nil {
		return nil
	}
	n := *u
	n.ps = append(pvs(nil), u.ps...)
	n.hs = append(pvs(nil), u.hs...)
	return &n
}

// hm is what a header should say.
type hm struct {
	kind *hkind
	f    map[string]string // its fields
	ps   pvs
	uri  *urim
	disp string
}

func (m *hm) clone() *hm {
	n := &hm{kind: m.kind, f: map[string]string{}, ps: append(pvs(nil), m.ps...), uri: m.uri.clone(), disp: m.disp}
	for k, v := range m.f {
		n.f[k] = v
	}
	return n
}

func (m *hm) addr() string {
	d := ""
	if m.disp != "" {
		d = `"` + m.disp + `" `
	}
	return d + "<" + m.uri.String() + ">"
}

func (m *hm) value() string {
	s := m.kind.head(m)
	if len(m.ps) > 0 {
		switch {
		case !m.kind.auth:
			s += ";" + m.ps.text(";")
		case s != "":
			s += " " + m.ps.text(",")
		default:
			s = m.ps.text(",")
		}
	}
	return s
}

// api is a header and its model.
type api struct {
	c   *Ctx
	g   *G
	who string
	h   header.Header
	m   *hm
	log []string
}

// hkind is a kind of header and what can be done to it.
type hkind struct {
	name  string
	auth  bool // parameters are parted by commas
	make  func(a *api) header.Header
	init  func(a *api)       // the least that makes it whole
	head  func(m *hm) string // the value without parameters
	ops   func(a *api) []aop // the calls
	see   func(a *api)       // the getters
	typed string             // names of parameters with setters of their own
}

type aop struct {
	name string
	run  func()
}

func (a *api) note(what string) {
	a.c.Log("%s: %s", a.who, what)
	a.log = append(a.log, what)
	if len(a.log) > 8 {
		a.log = a.log[1:]
	}
}

func (a *api) fail(class, format string, x ...interface{}) {
	a.c.Fail("api:"+strings.ToLower(a.m.kind.name)+":"+class, "%s %s: %s\n calls: %s", a.who, a.m.kind.name, fmt.Sprintf(format, x...), strings.Join(a.log, "; "))
}

// call makes a call that has to succeed, and to do that to the model.
func (a *api) call(what string, f func() error, then func()) {
	a.note(what)
	var err error
	a.c.Lib(a.m.kind.name+"."+what, 0, func() { err = f() })
	if err != nil {
		a.fail("refused", "%s is refused: %v", what, err)
	}
	then()
}

// bad makes a call that has to be refused and to change nothing.
func (a *api) bad(what string, f func() error) {
	a.note(what + " (bad)")
	a.c.Fault("bad argument")
	var err error
	a.c.Lib(a.m.kind.name+"."+what, 0, func() { err = f() })
	if err == nil {
		a.fail("accepted", "%s is accepted", what)
	}
}

func (a *api) eq(what string, got, want interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		a.fail("getter "+what, "%s is %q, want %q", what, fmt.Sprint(got), fmt.Sprint(want))
	}
}

var quotedToken = regexp.MustCompile(`="([-a-zA-Z0-9.!%*_+` + "`" + `'~]+)"`)

// unq takes needless quotes away.
func unq(s []string) string {
	return quotedToken.ReplaceAllString(fmt.Sprintf("%s", strings.Join(s, "\x00")), "=$1")
}

func (a *api) want() []string {
	_, vals := valuesOf(a.m.kind.name + ": " + a.m.value() + "\r\n")
	if len(vals) == 0 {
		Harness("own header unreadable: %s: %q", a.m.kind.name, a.m.value())
	}
	return vals
}

// check compares the header with its model.
func (a *api) check() {
	var text string
	a.c.Lib("String", 0, func() { text = a.h.String() })
	if !strings.HasSuffix(text, "\r\n") || strings.Count(text, "\r\n") != 1 {
		a.fail("line", "String is %q", text)
	}
	n, got := valuesOf(text)
	want := a.want()
	if n != strings.ToLower(a.m.kind.name) || unq(got) != unq(want) {
		a.fail("text", "String is %q, want \"%s: %s\"", text, a.m.kind.name, a.m.value())
	}
	a.c.Lib("getters", 0, func() {
		a.eq("name", strings.ToLower(a.h.GetName()), strings.ToLower(a.m.kind.name))
		if a.m.kind.see != nil {
			a.m.kind.see(a)
		}
		if p, ok := a.h.(paramer); ok {
			for _, x := range a.m.ps {
				if got := p.GetParameter(x.n); !(x.flag && got == "") && unesc(got) != unquote(x.v) && got != unquote0(x.v) {
					a.fail("parameter", "parameter %s is %q, want %q", x.n, got, x.v)
				}
				if got := p.GetParameter(strings.ToUpper(x.n)); !(x.flag && got == "") && got != unquote0(x.v) {
					a.fail("parameter", "parameter %s is %q, want %q", strings.ToUpper(x.n), got, x.v)
				}
			}
			var names, wn []string
			for e := p.GetParameterNames().Front(); e != nil; e = e.Next() {
				names = append(names, strings.ToLower(e.Value.(string)))
			}
			for _, x := range a.m.ps {
				wn = append(wn, strings.ToLower(x.n))
			}
			sort.Strings(names)
			sort.Strings(wn)
			a.eq("GetParameterNames", strings.Join(names, ","), strings.Join(wn, ","))
			if h, ok := a.h.(interface{ HasParameters() bool }); ok {
				a.eq("HasParameters", h.HasParameters(), len(wn) > 0)
			}
			if h, ok := a.h.(interface{ HasParameter(string) bool }); ok {
				for _, x := range a.m.ps {
					a.eq("HasParameter", h.HasParameter(x.n), true)
				}
				a.eq("HasParameter", h.HasParameter("never-set"), false)
			}
		}
	})
}

type paramer interface {
	GetParameter(name string) string
	GetParameterNames() *list.List
	RemoveParameter(name string)
}

// pname draws the name of a parameter without setters of its own: one that is
// there or a new one.
func (a *api) pname() string {
	t := a.c.T
	typed := " " + a.m.kind.typed + " "
	if t.Chance(50) {
		var have []string
		for _, x := range a.m.ps {
			if !strings.Contains(typed, " "+strings.ToLower(x.n)+" ") {
				have = append(have, x.n)
			}
		}
		if len(have) > 0 {
			n := have[t.Intn(len(have))]
			if t.Chance(30) {
				n = strings.ToUpper(n)
			}
			return n
		}
	}
	n := a.g.token()
	for strings.Contains(typed, " "+strings.ToLower(n)+" ") {
		n = a.g.uniq("p")
	}
	return n
}

// paramOps are the calls on generic parameters.
func (a *api) paramOps() []aop {
	t := a.c.T
	var ops []aop
	p, ok := a.h.(paramer)
	if !ok {
		return nil
	}
	if s, ok := a.h.(interface {
		SetParameter(name, value string) error
	}); ok {
		ops = append(ops, aop{"SetParameter", func() {
			n, v := a.pname(), a.g.token()
			if !a.m.kind.auth && t.Chance(20) {
				a.call("SetParameter("+n+",)", func() error { return s.SetParameter(n, "") }, func() { a.m.ps.set(n, "", true) })
				return
			}
			a.call("SetParameter("+n+","+v+")", func() error { return s.SetParameter(n, v) }, func() { a.m.ps.set(n, v, false) })
		}})
	}
	if s, ok := a.h.(interface {
		SetQuotedParameter(name, value string)
	}); ok && !a.m.kind.auth {
		ops = append(ops, aop{"SetQuotedParameter", func() {
			n, v := a.pname(), a.g.quoted()
			for v == `""` {
				v = `"x y"`
			}
			a.call("SetQuotedParameter("+n+","+v+")", func() error { s.SetQuotedParameter(n, unquote0(v)); return nil }, func() { a.m.ps.set(n, v, false) })
		}})
	}
	ops = append(ops, aop{"RemoveParameter", func() {
		n := a.pname()
		a.call("RemoveParameter("+n+")", func() error { p.RemoveParameter(n); return nil }, func() { a.m.ps.del(n) })
	}})
	return ops
}

// uriObj makes the object of a URI, by setters.
func (a *api) newURI() (address.URI, *urim) {
	c, t := a.c, a.c.T
	switch t.Pick(10, 2, 2) {
	case 1:
		n := t.Of("911", "5551212", "1*2", "7042")
		u := address.NewTelURLImpl()
		um := &urim{scheme: "tel", user: n}
		glob := n != "1*2" && t.Bool()
		c.Lib("tel setters", 0, func() {
			tn := address.NewTelephoneNumber()
			if t.Bool() {
				u.SetTelephoneNumber(tn)
			}
			u.SetPhoneNumber(n)
			u.SetGlobal(glob)
		})
		if glob {
			um.user = "+" + n
		}
		return u, um
	case 2:
		s := t.Of("http://www.example.com/a/b.html", "im:x@y.org", "mailto:a@b.c", "urn:service:sos.fire", "cid:x@y.example")
		var u address.URI
		c.Lib("NewURIImpl", 0, func() { u = address.NewURIImpl(s) })
		return u, &urim{text: s}
	}
	u := address.NewSipURIImpl()
	um := &urim{scheme: "sip", host: a.g.hostname()}
	c.Lib("SetHostString", 0, func() { u.SetHostString(um.host) })
	sub := &uriAPI{a, u, um}
	for k := t.Intn(4); k > 0; k-- {
		sub.step()
	}
	return u, um
}

// uriAPI is a SIP URI that changes.
type uriAPI struct {
	a *api
	u *address.SipURIImpl
	m *urim
}

func (x *uriAPI) call(what string, f func() error, then func()) { x.a.call("URI."+what, f, then) }

func (x *uriAPI) pname() string {
	t := x.a.c.T
	if len(x.m.ps) > 0 && t.Bool() {
		n := x.m.ps[t.Intn(len(x.m.ps))].n
		switch strings.ToLower(n) {
		case "transport", "ttl", "maddr", "user", "lr", "method":
		default:
			return n
		}
	}
	return x.a.g.uniq("u")
}

func (x *uriAPI) step() {
	a, u, m, t := x.a, x.u, x.m, x.a.c.T
	str := func(what, v string, f func(string), then func()) {
		x.call(what+"("+v+")", func() error { f(v); return nil }, then)
	}
	none := func(what string, f func(), then func()) {
		x.call(what, func() error { f(); return nil }, then)
	}
	switch t.Intn(26) {
	case 25: // parts made elsewhere
		switch t.Intn(2) {
		case 0:
			v, p, user, pw := a.g.hostname(), t.Of1(0, 0, 5060, 65535), "", ""
			if t.Chance(70) {
				user, pw = a.g.user(), t.Of("", "secret")
			}
			x.call(fmt.Sprintf("SetAuthority(%s:%s@%s:%d)", user, pw, v, p), func() error {
				au := address.NewAuthority()
				hp := core.NewHostPort()
				hp.SetHost(core.NewHost(v))
				if p > 0 {
					hp.SetPort(p)
				}
				au.SetHostPort(hp)
				if user != "" {
					ui := address.NewUserInfo()
					ui.SetUser(user)
					if pw != "" {
						ui.SetPassword(pw)
					}
					au.SetUserInfo(ui)
				}
				u.SetAuthority(au)
				return nil
			}, func() { m.host, m.port, m.user, m.pw = v, p, user, pw })
		case 1:
			n1, n2 := a.g.uniq("h"), a.g.uniq("h")
			x.call("SetQheaders("+n1+"=1&"+n2+"=2)", func() error {
				l := core.NewNameValueList("qheaders")
				l.SetSeparator("&")
				l.AddNameAndValue(n1, "1")
				l.AddNameValue(core.NewNameValue(n2, "2"))
				u.SetQheaders(l)
				return nil
			}, func() {
				m.hs = nil
				m.hs.set(n1, "1", false)
				m.hs.set(n2, "2", false)
			})
		}
	case 22: // all of a kind at once
		switch t.Intn(4) {
		case 0:
			none("ClearUriParms", u.ClearUriParms, func() { m.ps = nil })
			for k := t.Pick(2, 1, 4, 1); k > 0; k-- {
				n, v := a.g.uniq("u"), t.Of("1", "b:c", "%20")
				x.call("SetParameter("+n+","+v+")", func() error { u.SetParameter(n, v); return nil }, func() { m.ps.set(n, v, false) })
			}
		case 1:
			none("ClearQheaders", u.ClearQheaders, func() { m.hs = nil })
			for k := t.Pick(2, 1, 4, 1); k > 0; k-- { // filled anew
				n, v := a.g.uniq("h"), t.Of("1", "b:c", "%20")
				x.call("SetHeader("+n+","+v+")", func() error { u.SetHeader(n, v); return nil }, func() { m.hs.set(n, v, false) })
			}
		case 2:
			none("ClearPassword", u.ClearPassword, func() { m.pw = "" })
		case 3:
			n1, n2 := a.g.uniq("u"), a.g.uniq("u")
			x.call("SetUriParms("+n1+"=1;"+n2+"=2)", func() error {
				l := core.NewNameValueList("uriparms")
				l.AddNameAndValue(n1, "1")
				l.AddNameValue(core.NewNameValue(n2, "2"))
				u.SetUriParms(l)
				return nil
			}, func() {
				m.ps = nil
				m.ps.set(n1, "1", false)
				m.ps.set(n2, "2", false)
			})
		}
	case 23: // one more of a kind
		switch t.Intn(4) {
		case 0:
			n, v := a.g.uniq("u"), t.Of("1", "b:c", "%20")
			x.call("SetUriParm("+n+","+v+")", func() error { u.SetUriParm(n, v); return nil }, func() { m.ps.set(n, v, false) })
		case 1:
			n, v := a.g.uniq("u"), t.Of("1", "b:c", "%20")
			x.call("SetUriParameter("+n+","+v+")", func() error { u.SetUriParameter(core.NewNameValue(n, v)); return nil }, func() { m.ps.set(n, v, false) })
		case 2:
			n, v := a.g.uniq("h"), t.Of("1", "b:c", "%20")
			x.call("SetQHeader("+n+","+v+")", func() error { u.SetQHeader(core.NewNameValue(n, v)); return nil }, func() { m.hs.set(n, v, false) })
		case 3:
			n, v := x.pname(), t.Of("1", "b:c", "%20")
			have := false
			for _, p := range m.ps {
				have = have || strings.EqualFold(p.n, n)
			}
			x.call("SetDefaultParm("+n+","+v+")", func() error { u.SetDefaultParm(n, v); return nil }, func() {
				if !have {
					m.ps.set(n, v, false)
				}
			})
		}
	case 24:
		switch t.Intn(7) {
		case 4: // what it holds, where it stands
			v := strings.ToLower(a.g.hostname())
			str("GetAuthority().GetHost().SetHostName", v, func(s string) { u.GetAuthority().GetHost().SetHostName(s) }, func() { m.host = v })
		case 5:
			v := a.g.hostname()
			str("GetHostPort().GetHost().SetAddress", v, func(s string) { u.GetHostPort().GetHost().SetAddress(s) }, func() { m.host = v })
		case 6:
			p := t.Range(1, 65535)
			none(fmt.Sprintf("GetAuthority().SetPort(%d)", p), func() { u.GetAuthority().SetPort(p) }, func() { m.port = p })
		case 0:
			v := a.g.hostname()
			x.call("SetHost("+v+")", func() error { u.SetHost(core.NewHost(v)); return nil }, func() { m.host = v })
		case 1:
			v, p := a.g.hostname(), t.Range(1, 65535)
			x.call(fmt.Sprintf("SetHostPort(%s:%d)", v, p), func() error {
				hp := core.NewHostPort()
				hp.SetHost(core.NewHost(v))
				hp.SetPort(p)
				u.SetHostPort(hp)
				return nil
			}, func() { m.host, m.port = v, p })
		case 2:
			v := t.Of("239.255.255.1", "m.example.com")
			str("SetMAddr", v, u.SetMAddr, func() { m.ps.set("maddr", v, false) })
		case 3:
			v := t.Of("INVITE", "BYE", "X-M.1")
			str("SetMethod", v, u.SetMethod, func() { m.ps.set("method", v, false) })
		}
	case 0, 1:
		v := a.g.user()
		str("SetUser", v, u.SetUser, func() { m.user = v })
	case 2:
		v := a.g.hostname()
		str("SetHostString", v, u.SetHostString, func() { m.host = v })
	case 3:
		p := t.Range(1, 65535)
		x.call(fmt.Sprintf("SetPort(%d)", p), func() error { u.SetPort(p); return nil }, func() { m.port = p })
	case 4:
		none("RemovePort", u.RemovePort, func() { m.port = 0 })
	case 5:
		if m.user == "" {
			return
		}
		v := t.Of("secret", "x", "a&b=c+d$e,f")
		str("SetUserPassword", v, u.SetUserPassword, func() { m.pw = v })
	case 6:
		if m.user == "" {
			return
		}
		none("RemoveUser", u.RemoveUser, func() { m.user, m.pw = "", "" })
	case 7:
		v := t.Of("udp", "tcp", "tls", "sctp", "UDP", "ws")
		x.call("SetTransportParam("+v+")", func() error { return u.SetTransportParam(v) }, func() { m.ps.set("transport", strings.ToLower(v), false) })
	case 8:
		v := t.Range(1, 255)
		x.call(fmt.Sprintf("SetTTLParam(%d)", v), func() error { return u.SetTTLParam(v) }, func() { m.ps.set("ttl", strconv.Itoa(v), false) })
	case 9:
		v := t.Of("239.255.255.1", "m.example.com", "[ff02::1]")
		x.call("SetMAddrParam("+v+")", func() error { return u.SetMAddrParam(v) }, func() { m.ps.set("maddr", v, false) })
	case 10:
		v := t.Of("INVITE", "BYE", "X-M.1")
		str("SetMethodParam", v, u.SetMethodParam, func() { m.ps.set("method", v, false) })
	case 11:
		v := t.Of("phone", "ip", "dialstring")
		str("SetUserParam", v, u.SetUserParam, func() { m.ps.set("user", v, false) })
	case 12:
		none("SetLrParam", u.SetLrParam, func() { m.ps.set("lr", "", true) })
	case 13, 14:
		n, v := x.pname(), t.Of("a", "b:c", "%20x", "[1]", "a/b", "y+z$&")
		x.call("SetParameter("+n+","+v+")", func() error { u.SetParameter(n, v); return nil }, func() { m.ps.set(n, v, false) })
	case 15:
		n := x.pname()
		x.call("SetParameter("+n+",)", func() error { u.SetParameter(n, ""); return nil }, func() { m.ps.set(n, "", true) })
	case 16:
		n := x.pname()
		if len(m.ps) > 0 && t.Bool() {
			n = m.ps[t.Intn(len(m.ps))].n
		}
		str("RemoveParameter", n, u.RemoveParameter, func() { m.ps.del(n) })
	case 17:
		n, v := t.Of("subject", "Subject", "priority", "a", "to"), t.Of("project%20x", "urgent", "b", "alice%40atlanta.com")
		x.call("SetHeader("+n+","+v+")", func() error { u.SetHeader(n, v); return nil }, func() { m.hs.set(n, v, false) })
	case 18:
		if t.Bool() {
			none("RemoveHeaders", u.RemoveHeaders, func() { m.hs = nil })
		} else if len(m.hs) > 0 {
			n := m.hs[0].n
			str("RemoveHeader", n, u.RemoveHeader, func() { m.hs.del(n) })
		}
	case 19:
		s := t.Bool()
		x.call(fmt.Sprintf("SetSecure(%v)", s), func() error { u.SetSecure(s); return nil }, func() {
			m.scheme = "sip"
			if s {
				m.scheme = "sips"
			}
		})
	case 20:
		switch t.Intn(6) {
		case 0:
			none("RemoveTransport", u.RemoveTransport, func() { m.ps.del("transport") })
		case 1:
			none("RemoveTTL", u.RemoveTTL, func() { m.ps.del("ttl") })
		case 2:
			none("RemoveMAddr", u.RemoveMAddr, func() { m.ps.del("maddr") })
		case 3:
			none("RemoveMethod", u.RemoveMethod, func() { m.ps.del("method") })
		case 4:
			none("RemoveUserType", u.RemoveUserType, func() { m.ps.del("user") })
		case 5:
			none("RemoveUriParms", u.RemoveUriParms, func() { m.ps = nil })
		}
	case 21:
		switch t.Intn(4) {
		case 0:
			a.bad("URI.SetTTLParam(0)", func() error { return u.SetTTLParam(0) })
		case 1:
			a.bad("URI.SetTransportParam()", func() error { return u.SetTransportParam("") })
		case 2:
			a.bad("URI.SetMAddrParam()", func() error { return u.SetMAddrParam("") })
		case 3:
			a.bad("URI.SetScheme(tel)", func() error { return u.SetScheme("tel") })
		}
	}
}

func (a *api) seeURI(u address.URI, m *urim) {
	if u == nil {
		a.fail("uri", "there is no URI, want %s", m)
	}
	if nuri(u.String()) != nuri(m.String()) {
		a.fail("uri", "the URI is %s, want %s", u, m)
	}
	if m.scheme != "sip" && m.scheme != "sips" {
		if m.scheme == "tel" {
			if x, ok := u.(*address.TelURLImpl); ok {
				a.eq("phone number", x.GetPhoneNumber(), strings.TrimPrefix(m.user, "+"))
				a.eq("global", x.IsGlobal(), strings.HasPrefix(m.user, "+"))
			} else {
				a.fail("uri", "%s is a %T", u, u)
			}
		}
		return
	}
	x, ok := u.(*address.SipURIImpl)
	if !ok {
		a.fail("uri", "%s is a %T", u, u)
	}
	a.eq("URI user", x.GetUser(), m.user)
	a.eq("URI password", x.GetUserPassword(), m.pw)
	a.eq("URI host", nhost(x.GetHost()), nhost(m.host))
	port := m.port
	if port == 0 {
		port = -1
	}
	a.eq("URI port", x.GetPort(), port)
	a.eq("URI scheme", x.GetScheme(), m.scheme)
	a.eq("URI secure", x.IsSecure(), m.scheme == "sips")
	a.eq("URI transport", x.GetTransportParam(), m.ps.get("transport"))
	a.eq("URI has transport", x.HasTransport(), m.ps.at("transport") >= 0)
	a.eq("URI maddr", x.GetMAddrParam(), m.ps.get("maddr"))
	a.eq("URI method", x.GetMethodParam(), m.ps.get("method"))
	a.eq("URI user type", x.GetUserParam(), m.ps.get("user"))
	a.eq("URI lr", x.HasLrParam(), m.ps.at("lr") >= 0)
	a.eq("URI method ", x.GetMethod(), m.ps.get("method"))
	a.eq("URI user type ", x.GetUserType(), m.ps.get("user"))
	a.eq("URI is a telephone subscriber", x.IsUserTelephoneSubscriber(), m.ps.get("user") == "phone")
	uh, uhp := x.GetUserAtHost(), x.GetUserAtHostPort()
	hp := nhost(m.host)
	if m.user != "" {
		if !strings.HasPrefix(uh, m.user+"@") || !strings.HasPrefix(uhp, m.user+"@") {
			a.fail("getter URI user at host", "%q and %q are not at %q", uh, uhp, m.user)
		}
		a.eq("URI user at host", nhost(uh[len(m.user)+1:]), hp)
		uhp = uhp[len(m.user)+1:]
	}
	if m.port != 0 {
		hp += fmt.Sprintf(":%d", m.port)
	}
	a.eq("URI user at host and port", nhost(uhp), hp)
	ttl := -1
	if v := m.ps.get("ttl"); v != "" {
		ttl, _ = strconv.Atoi(v)
	}
	a.eq("URI ttl", x.GetTTLParam(), ttl)
	for _, p := range m.ps {
		a.eq("URI parameter", x.GetParameter(p.n), p.v)
	}
	a.eq("URI parameters", x.GetParameterNames().Len(), len(m.ps))
	for _, p := range m.hs {
		a.eq("URI header", x.GetHeader(p.n), p.v)
	}
	a.eq("URI headers", x.GetHeaderNames().Len(), len(m.hs))
}

// addressed is a header with an address.
type addressed interface {
	GetAddress() address.Address
	SetAddress(address.Address)
}

func (a *api) addrOps() []aop {
	t := a.c.T
	x := a.h.(addressed)
	return []aop{{"SetAddress", func() {
		u, um := a.newURI()
		ad := address.NewAddressImpl()
		d := ""
		if t.Bool() {
			if d = unquote0(a.g.quoted()); squeeze(d) != d {
				d = "Bob"
			}
		}
		spec := t.Chance(20)
		a.call(fmt.Sprintf("SetAddress(%q <%s>, spec %v)", d, um, spec), func() error {
			if spec {
				ad.SetAddressType(address.ADDRESS_SPEC)
			}
			ad.SetURI(u)
			if d != "" {
				ad.SetDisplayName(d)
			}
			x.SetAddress(ad)
			return nil
		}, func() { a.m.uri, a.m.disp = um, d })
	}}, {"SetDisplayName", func() {
		d := unquote0(a.g.quoted())
		if squeeze(d) != d || d == "" {
			d = "Carol"
		}
		if t.Chance(30) {
			ad := x.GetAddress().(*address.AddressImpl)
			a.call("RemoveDisplayName", func() error { ad.RemoveDisplayName(); return nil }, func() { a.m.disp = "" })
			return
		}
		a.call("SetDisplayName("+d+")", func() error { x.GetAddress().SetDisplayName(d); return nil }, func() { a.m.disp = d })
	}}, {"SetURI", func() {
		u, um := a.newURI()
		a.call("Address.SetURI("+um.String()+")", func() error { x.GetAddress().SetURI(u); return nil }, func() { a.m.uri = um })
	}}, {"URI", a.uriStep}, {"URI", a.uriStep}, {"URI", a.uriStep}}
}

func (a *api) uriStep() {
	if a.m.uri.scheme != "sip" && a.m.uri.scheme != "sips" {
		return
	}
	u, ok := a.h.(addressed).GetAddress().GetURI().(*address.SipURIImpl)
	if !ok {
		a.fail("uri", "the URI %s is no SIP URI", a.m.uri)
	}
	(&uriAPI{a, u, a.m.uri}).step()
}

func (a *api) seeAddr() {
	ad := a.h.(addressed).GetAddress()
	if ad == nil {
		a.fail("address", "there is no address")
	}
	a.eq("display name", unesc(ad.GetDisplayName()), unesc(a.m.disp))
	a.eq("has display name", ad.(*address.AddressImpl).HasDisplayName(), a.m.disp != "")
	a.seeURI(ad.GetURI(), a.m.uri)
}

// setAddr is the init of headers with an address.
func (a *api) setAddr() { a.addrOps()[0].run() }

func addrHead(m *hm) string { return m.addr() }

func runAPI(c *Ctx) {
	t := c.T
	g := NewG(c)
	g.tokens = true
	net := NewSim(c)
	total := 0
	type kept struct {
		a *api
	}
	var shelf []*api // clones put aside
	work := func(a *api, n int) {
		for ; n > 0; n-- {
			if t.Chance(5) {
				var h header.Header
				c.Lib("Clone", 0, func() {
					if x, ok := a.h.(interface{ Clone() interface{} }); ok {
						h, _ = x.Clone().(header.Header)
					}
				})
				if h != nil {
					o := &api{c: c, g: g, who: a.who + "'s original", h: a.h, m: a.m.clone(), log: append([]string(nil), a.log...)}
					if t.Bool() {
						o.h, a.h = a.h, h
					} else {
						o.h = h
					}
					shelf = append(shelf, o)
					a.note("Clone")
					c.Probe("clone put aside")
				}
			}
			ops := append(a.m.kind.ops(a), a.paramOps()...)
			op := ops[t.Intn(len(ops))]
			op.run()
			total++
			if total >= 3 {
				c.Nontriv = true
			}
			a.check()
		}
	}
	send := func(a *api, from string, hop int) {
		if hop > 3 {
			return
		}
		to := []string{"app", "proxy", "peer", "app"}[hop]
		k := a.m.kind
		msg := carrier(c)
		s := sipm(msg)
		c.Lib("SetHeader", 0, func() {
			s.RemoveHeader(k.name)
			s.AddHeader(a.h)
		})
		if k.name == "CSeq" {
			c.Lib("SetMethod", 0, func() { msg.SetMethod(a.m.f["method"]) })
		}
		b := encodeMsg(c, msg)
		m := a.m.clone()
		c.Probe("sent")
		net.Send(from, to, b, []interface{}{m, hop})
	}
	recv := func(who string) {
		net.Listen(who, func(d *Dgram) {
			x := d.Meta.([]interface{})
			m, hop := x[0].(*hm).clone(), x[1].(int)
			a := &api{c: c, g: g, who: who, m: m, log: []string{"(received)"}}
			got, err := readMsg(d.Data)
			if err != nil {
				a.fail("wire", "unreadable message: %v", err)
			}
			if v := got.hdr[strings.ToLower(m.kind.name)]; unq(v) != unq(a.want()) {
				a.fail("wire", "the message says %q, want %q in %q", v, a.want(), d.Data)
			}
			msg, err := parseMsg(c, parser.NewStringMsgParser(), d.Data)
			if err != nil || msg == nil {
				a.fail("unreadable", "the next agent refuses (%v) %q", err, d.Data)
			}
			c.Lib("GetHeader", 0, func() { a.h = sipm(msg).GetHeader(m.kind.name) })
			if a.h == nil {
				a.fail("lost", "the header is not found in %q", d.Data)
			}
			a.check()
			c.Probe("arrived")
			work(a, t.Range(0, 4))
			send(a, who, hop+1)
		})
	}
	if t.Chance(5) {
		methodLists(c, g)
	}
	recv("app")
	recv("proxy")
	recv("peer")
	for k := t.Range(1, 3); k > 0; k-- {
		kind := hkinds[t.Intn(len(hkinds))]
		a := &api{c: c, g: g, who: "app", m: &hm{kind: kind, f: map[string]string{}}}
		c.Count("kind:" + kind.name)
		if f := ctors[kind.name]; f != nil && t.Chance(30) {
			a.note("made by a constructor")
			a.h = f(a)
		} else {
			c.Lib("New "+kind.name, 0, func() { a.h = kind.make(a) })
			kind.init(a)
		}
		a.check()
		work(a, c.Many(1, 10, 80))
		net.At(time.Duration(k)*time.Millisecond, func() { send(a, "app", 1) })
	}
	net.Run()
	for _, o := range shelf { // nothing done elsewhere shows in these
		o.note("(kept aside)")
		o.check()
	}
}

// carrier makes a message to carry a header.
func carrier(c *Ctx) *message.SIPRequest {
	const text = "OPTIONS sip:bob@b.example SIP/2.0\r\nVia: SIP/2.0/UDP a.example:5060;branch=z9hG4bKx\r\nFrom: <sip:alice@a.example>;tag=f\r\nTo: <sip:bob@b.example>\r\nCall-ID: c@a.example\r\nCSeq: 1 OPTIONS\r\nMax-Forwards: 70\r\nContent-Length: 0\r\n\r\n"
	m, err := parseMsg(c, parser.NewStringMsgParser(), []byte(text))
	if err != nil {
		c.Fail("rejected", "a valid message is rejected: %v", err)
	}
	return m.(*message.SIPRequest)
}

func init() {
	Register(&Prop{
		ID: "C20", Title: "Headers built and changed through setters arrive as built",
		Quick: 80000, Thorough: 2000000,
		Rule: "one run has an application make headers of any kind and change them through their setters, good and refused calls, keep clones aside, and send them over a losing, doubling, reordering network to agents who read them, ask every getter, go on changing them and send them on; non-trivial when at least three setters were called",
		Real: []string{"sip/header", "sip/address", "sip/parser", "sip/message", "core"},
		Stub: []string{"network (simulated)"},
		Run:  runAPI,
	})
}
