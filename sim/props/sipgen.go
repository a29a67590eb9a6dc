package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---- abstract SIP messages
//
// Header values are templates: the byte 1 marks a place where the grammar
// allows optional white space, the byte 2 one where it requires some, and the
// byte 3 one where a number may have zeros in front.

type ahdr struct {
	name string // full name, as the RFCs write it
	tmpl string
}

type avia struct {
	transport, host string
	port            int // 0: none
	branch          string
	params          string // further parameters, template
}

type auri struct {
	scheme, user, pw, host string
	port                   int
	text                   string // canonical text
	params                 [][2]string
}

type aaddr struct {
	disp string
	quot bool // display name needs quotes
	uri  auri
	tag  string
	tmpl string
}

type amsg struct {
	request bool
	method  string
	ruri    auri
	code    int
	reason  string

	vias     []avia
	from, to aaddr
	callid   string
	seq      int
	maxfwd   int // -1: none
	routes   []aaddr
	rroutes  []aaddr
	contacts []aaddr
	star     bool   // Contact: *
	hdrs     []ahdr // everything else
	ctype    string // Content-Type template, "" for none
	body     []byte
	nocl     bool // no Content-Length header
}

const tokChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-.!%*_+`'~"
const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

// G generates messages from a run's tape.
type G struct {
	c    *Ctx
	n    int
	wild bool // unusual but legal spellings

	tokens bool // values of parameters are tokens and quoted strings only
	big    bool // now and then many or long ones
}

func NewG(c *Ctx) *G { return &G{c: c, wild: c.T.Chance(50), big: c.T.Chance(5)} }

// many is how many there are of something.
func (g *G) many(lo, hi int) int {
	if g.big && g.c.T.Chance(20) {
		g.c.Probe("many")
		return g.c.T.Range(hi, 15*hi)
	}
	return g.c.T.Range(lo, hi)
}

func (g *G) str(chars string, lo, hi int) string {
	n := g.c.T.Range(lo, hi)
	if g.big && lo != hi && len(chars) > 20 && g.c.T.Chance(15) {
		g.c.Probe("long")
		n = g.c.T.Range(hi, 63)
		if len(chars) > len(alnum) {
			n *= g.c.T.Range(1, 5)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[g.c.T.Intn(len(chars))]
	}
	return string(b)
}

func (g *G) alnum(lo, hi int) string { return g.str(alnum, lo, hi) }

func (g *G) token() string {
	if g.wild && g.c.T.Chance(30) {
		return g.str(tokChars, 1, 8)
	}
	return g.c.T.Of("abc", "foo", "x1", "en", "A", "timer", "z9-x", "h.261", "100rel") // common shapes
}

func (g *G) uniq(p string) string {
	g.n++
	s := strconv.Itoa(g.n)
	if x := g.alnum(0, 4); x != "" {
		s += "x" + x // the number must end where it ends
	}
	return p + s
}

// quoted makes a quoted string, quotes included.
func (g *G) quoted() string {
	t := g.c.T
	if !g.wild || t.Chance(40) {
		return `"` + t.Of("Alice", "A. G. Bell", "", "x y", "to=be", "Mr. Watson", "tag=1") + `"`
	}
	b := []byte{'"'}
	for k := g.many(0, 7); k > 0; k-- {
		switch t.Intn(6) {
		case 0:
			b = append(b, '\\', `\"a,;<`[t.Intn(6)])
		case 1:
			b = append(b, ";,<>@:=?()/[]'"[t.Intn(14)])
		case 2:
			b = append(b, ' ')
		case 3:
			b = append(b, "é"...)
		default:
			b = append(b, alnum[t.Intn(len(alnum))])
		}
	}
	return string(append(b, '"'))
}

func (g *G) hostname() string {
	t := g.c.T
	switch t.Pick(6, 3, 1, 2) {
	case 1:
		return fmt.Sprintf("%d.%d.%d.%d", t.Range(1, 223), t.Intn(256), t.Intn(256), t.Range(1, 254))
	case 2:
		return t.Of("[::1]", "[2001:db8::9:1]", "[5f05:2000:80ad:5800:58:800:2023:1d71]", "[FE80::a:B]")
	case 3:
		if g.wild {
			return g.alnum(1, 5) + t.Of("", "-x", "-1b", "--q") + "." + g.alnum(1, 8) + "." + t.Of("com", "org", "Example")
		}
	}
	return t.Of("atlanta.com", "biloxi.com", "pc33.atlanta.com", "a", "bigbox3.site3.atlanta.com", "host-1.example.org")
}

func (g *G) port() int {
	t := g.c.T
	switch t.Pick(5, 2, 1, 1) {
	case 1:
		return 5060
	case 2:
		return 5061
	case 3:
		return t.Range(1, 65535)
	}
	return 0
}

func hostport(h string, p int) string {
	if p == 0 {
		return h
	}
	return h + ":" + strconv.Itoa(p)
}

func (g *G) user() string {
	t := g.c.T
	if g.wild && t.Chance(40) {
		s := ""
		for k := g.many(1, 6); k > 0; k-- {
			switch t.Intn(6) {
			case 0:
				s += fmt.Sprintf("%%%02x", t.U8())
			case 1:
				s += string("-_.!~*'()"[t.Intn(9)])
			case 2:
				s += string("&=+$,;?/"[t.Intn(8)])
			default:
				s += string(alnum[t.Intn(len(alnum))])
			}
		}
		return s
	}
	return t.Of("alice", "bob", "carol", "watson", "+12125551212", "j_doe", "5551234")
}

// sipuri makes a SIP URI.  inaddr: it may carry parameters and headers, which
// outside angle brackets would belong to the header.
func (g *G) sipuri(params, headers bool) auri {
	t := g.c.T
	u := auri{scheme: "sip", host: g.hostname(), port: g.port()}
	if t.Chance(8) {
		u.scheme = "sips"
	}
	if t.Chance(80) {
		u.user = g.user()
		if g.wild && t.Chance(12) {
			u.pw = t.Of("secret", "p%41ss", "a&b=c+d$e,f", "x")
		}
	}
	s := u.scheme + ":"
	if u.user != "" {
		s += u.user
		if u.pw != "" {
			s += ":" + u.pw
		}
		s += "@"
	}
	s += hostport(u.host, u.port)
	if params && t.Chance(35) {
		seen := map[string]bool{}
		for k := g.many(1, 3); k > 0; k-- {
			var p [2]string
			switch t.Intn(8) {
			case 0:
				p = [2]string{"transport", t.Of("udp", "tcp", "tls", "sctp", "ws", "tls-x")}
			case 1:
				p = [2]string{"lr", ""}
			case 2:
				p = [2]string{"user", t.Of("phone", "ip")}
			case 3:
				p = [2]string{"maddr", t.Of("239.255.255.1", "224.2.0.1", "m.example.com", "[ff02::1]")}
			case 4:
				p = [2]string{"ttl", strconv.Itoa(t.Range(1, 255))}
			case 5:
				p = [2]string{"method", t.Of("INVITE", "REGISTER", "BYE", "X-M.1")}
			case 6:
				p = [2]string{g.alnum(1, 6), ""}
			case 7:
				p = [2]string{"x-" + g.alnum(1, 4), t.Of("a", "b:c", "%20x", "[1]", "a/b", "y+z$&")}
			}
			if seen[strings.ToLower(p[0])] {
				continue
			}
			seen[strings.ToLower(p[0])] = true
			u.params = append(u.params, p)
			s += ";" + p[0]
			if p[1] != "" {
				s += "=" + p[1]
			}
		}
	}
	if headers && t.Chance(10) {
		s += t.Of("?subject=project%20x", "?to=alice%40atlanta.com&priority=urgent", "?a=b")
	}
	u.text = s
	return u
}

func (g *G) uri(params, headers bool) auri {
	t := g.c.T
	switch t.Pick(14, 2, 2, 1) {
	case 1:
		n := t.Of("+1-212-555-1212", "+358-555-1234567", "911", "555(1).2", "+1(201)5550123", "1*2", "+0")
		s := "tel:" + n
		if params && t.Chance(40) {
			s += ";" + t.Of("phone-context=example.com", "isub=1411", "postd=pp22", "x=y;z=w", "phone-context=+1", "x=%41", "flag")
		}
		return auri{scheme: "tel", user: n, text: s}
	case 2:
		s := t.Of("http://www.example.com/a/b.html", "http://h/", "im:x@y.org", "mailto:a@b.c", "http://www.example.com:8080/alice?x=1&y=2")
		return auri{scheme: s[:strings.IndexByte(s, ':')], text: s}
	case 3:
		s := t.Of("urn:service:sos.fire", "cid:x%20y@z.example", "pres:a@b", "news:comp.infosystems.www.servers.unix", "urn:uuid:f81d4fae-7dec-11d0-a765-00a0c91e6bf6")
		return auri{scheme: s[:strings.IndexByte(s, ':')], text: s}
	}
	return g.sipuri(params, headers)
}

func (g *G) genericParam(used map[string]bool) string {
	t := g.c.T
	n := g.token()
	for used[strings.ToLower(n)] {
		n = g.uniq("p")
	}
	used[strings.ToLower(n)] = true
	switch t.Intn(4) {
	case 0:
		return "\x01;\x01" + n
	case 1:
		return "\x01;\x01" + n + "\x01=\x01" + g.quoted()
	case 2:
		if g.wild && !g.tokens && t.Chance(25) {
			return "\x01;\x01" + n + "\x01=\x01" + t.Of("[::1]", "[2001:db8::9:1]", "[::ffff:192.0.2.1]")
		}
		return "\x01;\x01" + n + "\x01=\x01" + t.Of("host.example.com", "10.0.0.1", g.token())
	}
	return "\x01;\x01" + n + "\x01=\x01" + g.token()
}

func (g *G) genericParams(max int, used ...string) string {
	t := g.c.T
	s := ""
	u := map[string]bool{}
	for _, x := range used {
		u[x] = true
	}
	if t.Chance(40) {
		for k := g.many(1, max); k > 0; k-- {
			s += g.genericParam(u)
		}
	}
	return s
}

func (g *G) display() (string, string) { // meaning, template
	t := g.c.T
	switch t.Intn(3) {
	case 0:
		return "", ""
	case 1:
		q := g.quoted()
		return unquote(q), q + "\x01"
	}
	n := g.many(1, 3)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, t.Of("Alice", "Bob", "A", "of", "x-1", "Mr.", "Watson", "100%", "C!*_+`'~-."))
	}
	return strings.Join(w, " "), strings.Join(w, "\x02") + "\x02"
}

// addr makes a name-addr or addr-spec with header parameters.
// Outside From and To the library takes the parameters after an addr-spec as
// the URI's (a test of its own wants that), so those get brackets.
func (g *G) addr(brackets bool) aaddr {
	t := g.c.T
	var a aaddr
	if !brackets && t.Chance(30) {
		a.uri = g.uri(false, false)
		if !strings.ContainsAny(a.uri.text, ",;?") { // those need brackets
			a.tmpl = a.uri.text
			return a
		}
	} else {
		a.uri = g.uri(true, true)
	}
	d, dt := g.display()
	a.disp = d
	a.tmpl = dt + "<" + a.uri.text + ">"
	return a
}

// addrp makes an address with header parameters.
func (g *G) addrp(params func() string) aaddr {
	p := params()
	a := g.addr(p != "")
	a.tmpl += p
	return a
}

func (g *G) party(tag bool) aaddr {
	a := g.addr(false)
	u := []string{"tag"}
	p1, p2 := "", ""
	if g.wild {
		p1 = g.genericParams(2, u...)
	}
	a.tmpl += p1
	if tag {
		a.tag = g.uniq("t")
		if g.wild && g.c.T.Chance(20) {
			a.tag = g.str(tokChars, 1, 9)
		}
		a.tmpl += "\x01;\x01tag\x01=\x01" + a.tag
	}
	a.tmpl += p2
	return a
}

func (g *G) via() avia {
	t := g.c.T
	v := avia{transport: t.Of("UDP", "TCP", "TLS", "SCTP"), host: g.hostname(), port: g.port()}
	if g.wild && t.Chance(15) {
		v.transport = t.Of("udp", "TLS-SCTP", "ws", "x.1")
	}
	if t.Chance(90) {
		v.branch = "z9hG4bK" + g.uniq("")
		if g.wild && t.Chance(20) {
			v.branch = "z9hG4bK" + g.str(tokChars, 1, 9)
		}
	}
	if t.Chance(35) {
		seen := map[string]bool{}
		for k := g.many(1, 3); k > 0; k-- {
			var p, n string
			switch t.Intn(6) {
			case 0:
				n, p = "received", "\x01=\x01"+t.Of("192.0.2.1", "10.1.2.3", "2001:db8::9:1", "::1")
			case 1:
				n, p = "ttl", "\x01=\x01"+strconv.Itoa(t.Range(1, 255))
			case 2:
				n, p = "maddr", "\x01=\x01"+t.Of("224.2.0.1", "239.1.1.1", "m.example.com", "[ff02::1]")
			case 3:
				n, p = "rport", ""
			case 4:
				n, p = "hidden", ""
			case 5:
				n, p = "x"+g.alnum(1, 4), "\x01=\x01"+g.token()
				if g.wild && t.Bool() {
					p = "\x01=\x01" + g.quoted()
				}
			}
			if seen[strings.ToLower(n)] {
				continue
			}
			seen[strings.ToLower(n)] = true
			v.params += "\x01;\x01" + n + p
		}
	}
	return v
}

func (v avia) tmpl() string {
	s := "SIP\x01/\x012.0\x01/\x01" + v.transport + "\x02" + v.host
	if v.port != 0 {
		s += "\x01:\x01" + strconv.Itoa(v.port)
	}
	if v.branch != "" {
		s += "\x01;\x01branch\x01=\x01" + v.branch
	}
	return s + v.params
}

var stdMethods = []string{"INVITE", "ACK", "OPTIONS", "BYE", "CANCEL", "REGISTER", "SUBSCRIBE", "NOTIFY", "REFER", "MESSAGE", "INFO", "PRACK", "UPDATE"}

func (g *G) method() string {
	if g.wild && g.c.T.Chance(8) {
		return g.c.T.Of("PUBLISH", "NEWMETHOD", "X-M.1", "!M0_*+`.%'~", "RE%47IST%45R", "-")
	}
	return stdMethods[g.c.T.Intn(len(stdMethods))]
}

func (g *G) list(n int, f func() string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "\x01,\x01"
		}
		s += f()
	}
	return s
}

func (g *G) qparam() string {
	return "\x01;\x01q\x01=\x01" + g.c.T.Of("0.5", "1.0", "0.7", "0", "1", "0.25", "0.001")
}

func (g *G) num(bits int) string { return strconv.FormatUint(g.c.T.Log(bits), 10) }

// otherHeader makes one further header.  kind indexes otherKinds.
var otherKinds = []string{"Subject", "User-Agent", "Server", "Organization", "Priority", "Date", "Timestamp", "MIME-Version",
	"Retry-After", "Require", "Proxy-Require", "Supported", "Unsupported", "Allow", "Allow-Events", "Accept", "Accept-Encoding",
	"Accept-Language", "Alert-Info", "Call-Info", "Error-Info", "Authorization", "Proxy-Authorization", "WWW-Authenticate",
	"Proxy-Authenticate", "Authentication-Info", "Event", "In-Reply-To", "RAck", "RSeq", "Reason", "Refer-To", "Reply-To",
	"Subscription-State", "Warning", "Expires", "Min-Expires", "Content-Disposition", "Content-Encoding", "Content-Language", "X"}

var extNames = []string{"P-Asserted-Identity", "X-Foo", "Session-Expires", "History-Info", "P-Charging-Vector", "Path"}

func (g *G) other(kind string) ahdr {
	t := g.c.T
	text := func() string {
		if g.wild && t.Chance(40) {
			n := g.many(1, 4)
			var w []string
			for i := 0; i < n; i++ {
				w = append(w, t.Of("I", "know;", "\"you're\"", "there,", "<pick>", "up:", "the=phone", "café", "x@y", "(c)"))
			}
			return strings.Join(w, "\x02")
		}
		return t.Of("lunch", "Tech\x02Support", "Need\x02more\x02boxes", "Boxes\x02by\x02Bob")
	}
	params := func(max int, used ...string) string { return g.genericParams(max, used...) }
	h := ahdr{name: kind}
	switch kind {
	case "Subject", "Organization":
		h.tmpl = text()
	case "User-Agent", "Server":
		h.tmpl = g.list2(g.many(1, 3), func() string { return t.Of("Softphone/Beta1.5", "HomeServer", "v2", "GoSIP/1.0") })
	case "Priority":
		h.tmpl = t.Of("emergency", "urgent", "normal", "non-urgent")
	case "Date":
		h.tmpl = g.date()
	case "Timestamp":
		h.tmpl = t.Of("54", "0.5", "12.25", "1000", g.decimal())
		if t.Bool() {
			h.tmpl += "\x02" + t.Of("0.25", "1", "0.5", "0", g.decimal())
		}
	case "MIME-Version":
		h.tmpl = t.Of("1.0", "2.1", "12.34")
	case "Retry-After":
		h.tmpl = "\x03" + g.num(20)
		if t.Bool() {
			h.tmpl += "\x01(" + t.Of("I'm in a meeting", "busy", "a (b (c)) d", "x \\) y", "\\\\", "a, b; c=d", "\"") + ")"
		}
		if t.Bool() {
			h.tmpl += "\x01;\x01duration\x01=\x01" + strconv.Itoa(t.Range(1, 100000))
		}
		h.tmpl += params(1, "duration")
	case "Require", "Proxy-Require", "Supported", "Unsupported":
		h.tmpl = g.list(g.many(1, 3), func() string { return g.token() })
	case "Allow":
		h.tmpl = g.list(g.many(1, 4), g.method)
	case "Allow-Events":
		h.tmpl = g.list(g.many(1, 3), func() string { return t.Of("presence", "refer", "presence.winfo", "dialog", "a.b-c!d.x") })
	case "Accept":
		h.tmpl = g.list(g.many(1, 3), func() string {
			s := t.Of("application\x01/\x01sdp", "text\x01/\x01*", "*\x01/\x01*", "text\x01/\x01html", "application\x01/\x01vnd.3gpp.x+xml")
			if t.Chance(30) {
				s += "\x01;\x01level\x01=\x011"
			}
			if t.Chance(40) {
				s += g.qparam()
			}
			if g.wild {
				s += params(2, "level", "q")
			}
			return s
		})
	case "Accept-Encoding":
		h.tmpl = g.list(g.many(1, 3), func() string {
			s := t.Of("gzip", "identity", "*", "compress")
			if t.Chance(40) {
				s += g.qparam()
			}
			if g.wild {
				s += params(2, "q")
			}
			return s
		})
	case "Accept-Language":
		h.tmpl = g.list(g.many(1, 3), func() string {
			s := t.Of("da", "en-gb", "en", "*", "x-y")
			if t.Chance(40) {
				s += g.qparam()
			}
			if g.wild {
				s += params(2, "q")
			}
			return s
		})
	case "Alert-Info", "Error-Info":
		h.tmpl = g.list(g.many(1, 2), func() string { return "<" + g.infouri() + ">" + params(2) })
	case "Call-Info":
		h.tmpl = g.list(g.many(1, 2), func() string {
			s := "<" + g.infouri() + ">"
			if t.Bool() {
				s += "\x01;\x01purpose\x01=\x01" + t.Of("icon", "info", "card", "x")
			}
			return s + params(1, "purpose")
		})
	case "Authorization", "Proxy-Authorization":
		h.tmpl = "Digest\x02" + g.authparams("username", "realm", "nonce", "uri", "response", "algorithm", "cnonce", "opaque", "qop", "nc", "x")
		if t.Chance(10) {
			h.tmpl = t.Of("Basic\x02realm\x01=\x01\"x\"", "Bearer\x02a\x01=\x01b\x01,\x01c\x01=\x01\"d e\"")
		}
	case "WWW-Authenticate", "Proxy-Authenticate":
		h.tmpl = "Digest\x02" + g.authparams("realm", "domain", "nonce", "opaque", "stale", "algorithm", "qopq", "x")
	case "Authentication-Info":
		h.tmpl = g.authparams("nextnonce", "qop", "rspauth", "cnonce", "nc")
	case "Event":
		h.tmpl = t.Of("presence", "refer", "presence.winfo", "a-b!c")
		if t.Chance(40) {
			h.tmpl += "\x01;\x01id\x01=\x01" + t.Of(g.alnum(1, 5), g.token())
		}
		h.tmpl += params(1, "id")
	case "In-Reply-To":
		h.tmpl = g.list(g.many(1, 2), g.callid)
	case "RAck":
		h.tmpl = "\x03" + g.num(31) + "\x02\x03" + g.num(31) + "\x02" + g.method()
	case "RSeq":
		h.tmpl = "\x03" + g.num(31)
	case "Reason":
		h.tmpl = g.list(g.many(1, 2), func() string {
			s := t.Of("SIP", "Q.850", "preemption")
			if t.Bool() {
				s += "\x01;\x01cause\x01=\x01" + strconv.Itoa(t.Range(1, 699))
			}
			if t.Bool() {
				s += "\x01;\x01text\x01=\x01" + g.quoted()
			}
			if g.wild {
				s += params(1, "cause", "text")
			}
			return s
		})
	case "Refer-To", "Reply-To":
		h.tmpl = g.addrp(func() string { return params(2) }).tmpl
	case "Subscription-State":
		h.tmpl = t.Of("active", "pending", "terminated", "x-state")
		if t.Bool() {
			h.tmpl += "\x01;\x01reason\x01=\x01" + t.Of("deactivated", "probation", "timeout", "x.y")
		}
		if t.Bool() {
			h.tmpl += "\x01;\x01expires\x01=\x01" + strconv.Itoa(t.Range(1, 100000))
		}
		if t.Chance(30) {
			h.tmpl += "\x01;\x01retry-after\x01=\x01" + strconv.Itoa(t.Range(1, 100000))
		}
		h.tmpl += params(1, "reason", "expires", "retry-after")
	case "Warning":
		h.tmpl = g.list(g.many(1, 2), func() string {
			return strconv.Itoa(t.Range(300, 399)) + "\x02" + t.Of("isi.edu", "192.0.2.3", "agent1", "isi.edu:5060", "[::1]", "[2001:db8::9]:5061", "a.b-c!x") + "\x02" + g.quoted()
		})
	case "Expires", "Min-Expires":
		h.tmpl = "\x03" + g.num(32)
	case "Content-Disposition":
		h.tmpl = t.Of("session", "render", "icon", "x1")
		if t.Bool() {
			h.tmpl += "\x01;\x01handling\x01=\x01" + t.Of("optional", "required", "x-y")
		}
		h.tmpl += params(1, "handling")
	case "Content-Encoding":
		h.tmpl = g.list(g.many(1, 2), func() string { return t.Of("gzip", "tar", "x-z", "a!b") })
	case "Content-Language":
		h.tmpl = g.list(g.many(1, 2), func() string { return t.Of("fr", "en-us", "da", "i-klingon", "zh-Hant-TW") })
	case "X":
		h.name = extNames[t.Intn(len(extNames))]
		switch t.Intn(3) {
		case 0:
			h.tmpl = text()
		case 1:
			h.tmpl = "<" + g.sipuri(true, true).text + ">" + params(2)
		case 2:
			h.tmpl = g.token() + params(2)
		}
	default:
		Harness("no header kind %s", kind)
	}
	switch h.name {
	case "Supported", "Accept", "Accept-Encoding", "Accept-Language", "Allow", "Subject", "Organization", "X-Foo":
		if g.wild && t.Chance(8) {
			h.tmpl = "" // which says "none", or nothing
		}
	}
	return h
}

func (g *G) list2(n int, f func() string) string {
	s := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "\x02"
		}
		s += f()
	}
	return s
}

// decimal makes 1*DIGIT "." *DIGIT with digits that a careless reader loses.
func (g *G) decimal() string {
	return g.c.T.Of("1700000000.123456", "0.001", "54.", "16777217", "3.05", strconv.Itoa(g.c.T.Intn(1000))+"."+g.str("0123456789", 1, 7))
}

func (g *G) infouri() string {
	return g.c.T.Of("cid:x@y.example", "http://a.b/c,d;e?f=(g)", "http://www.example.com/sounds/moo.wav", "sip:not-in-service-recording@atlanta.com", "http://h/alice/photo.jpg", "sip:a.b")
}

func (g *G) date() string {
	t := g.c.T
	m := []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
	y, mo, d := t.Range(1990, 2090), t.Range(1, 12), t.Range(1, 28)
	if t.Chance(10) {
		y, mo, d = t.Of1(2000, 2024, 2096), 2, 29
	}
	// Zeller
	yy, mm := y, mo
	if mm < 3 {
		mm += 12
		yy--
	}
	w := (d + 13*(mm+1)/5 + yy + yy/4 - yy/100 + yy/400) % 7
	wk := []string{"Sat", "Sun", "Mon", "Tue", "Wed", "Thu", "Fri"}[w]
	return fmt.Sprintf("%s, %02d %s %d %02d:%02d:%02d GMT", wk, d, m[mo-1], y, t.Intn(24), t.Intn(60), t.Intn(60))
}

func (g *G) authparams(names ...string) string {
	t := g.c.T
	var ps []string
	for i, n := range names {
		if i > 1 && t.Chance(45) {
			continue
		}
		v := ""
		switch n {
		case "username", "realm", "nonce", "cnonce", "opaque", "domain", "nextnonce":
			v = t.Of(`"bob"`, `"biloxi.com"`, `"84a4cc6f3082121f32b42a2187831a9e"`, `"sip:ss1.carrier.com"`, g.quoted())
		case "uri":
			v = t.Of(`"sip:bob@biloxi.com"`, `"sip:a.b;transport=tcp"`, `"sip:biloxi.com:5070"`)
		case "response", "rspauth":
			v = `"` + g.str("0123456789abcdef", 32, 32) + `"`
		case "algorithm":
			v = t.Of("MD5", "MD5-sess", "AKAv1-MD5")
		case "qop":
			v = t.Of("auth", "auth-int")
		case "qopq":
			n = "qop"
			v = t.Of(`"auth"`, `"auth,auth-int"`)
		case "nc":
			v = fmt.Sprintf("%08x", t.U32())
		case "stale":
			v = t.Of("TRUE", "FALSE", "false")
		case "x":
			n = "x-" + g.alnum(1, 4)
			v = t.Of("a", `"b,c"`, "d.e")
		}
		ps = append(ps, n+"\x01=\x01"+v)
	}
	return strings.Join(ps, "\x01,\x01")
}

func (g *G) callid() string {
	t := g.c.T
	switch t.Intn(3) {
	case 0:
		return g.uniq("f81d4fae-7dec") + "@" + t.Of("foo.bar.com", "10.0.0.1", "h")
	case 1:
		if g.wild {
			return g.str(alnum+"-.!%*_+`'~()<>:\\/[]?{}\"", 1, 12)
		}
	}
	return g.uniq("a84b4c76e66710")
}

func (g *G) body() []byte {
	t := g.c.T
	switch t.Pick(4, 2, 2, 1) {
	case 1:
		return []byte(t.Of("v=0\r\no=alice 2890844526 2890844526 IN IP4 h\r\ns=-\r\n", "Hello", "a\r\n\r\nb", "\r\n\r\nx", "INVITE sip:a@b SIP/2.0\r\nVia: x\r\n\r\n"))
	case 2:
		return t.Bytes(t.Range(1, 40))
	case 3:
		if g.big {
			b := t.Bytes(t.Range(1, 97))
			for n := t.Range(1, 30000); len(b) < n; {
				b = append(b, b...)
			}
			return append(b, t.Bytes(7)...)
		}
		return t.Bytes(t.Range(100, 1500))
	}
	return nil
}

// request makes a complete, valid request.
func (g *G) request(method string) *amsg {
	t := g.c.T
	m := &amsg{request: true, method: method, maxfwd: 70, seq: int(t.Log(31))}
	if method == "" {
		m.method = g.method()
	}
	m.ruri = g.uri(true, false)
	if t.Chance(30) {
		m.maxfwd = t.Intn(256)
	}
	for k := g.many(1, 3); k > 0; k-- {
		m.vias = append(m.vias, g.via())
	}
	m.from = g.party(!t.Chance(5))
	m.to = g.party(t.Chance(40))
	m.callid = g.callid()
	g.common(m)
	if t.Chance(25) {
		for k := g.many(1, 3); k > 0; k-- {
			m.routes = append(m.routes, g.route())
		}
	}
	return m
}

func (g *G) route() aaddr {
	a := g.addr(true)
	a.uri = g.sipuri(true, false)
	d, dt := g.display()
	a.disp = d
	a.tmpl = dt + "<" + a.uri.text + ">" + g.genericParams(1)
	return a
}

func (g *G) common(m *amsg) {
	t := g.c.T
	if t.Chance(25) {
		for k := g.many(1, 3); k > 0; k-- {
			m.rroutes = append(m.rroutes, g.route())
		}
	}
	if t.Chance(60) {
		if m.request && m.method == "REGISTER" && t.Chance(20) {
			m.star = true
		} else {
			k := t.Pick(0, 6, 2, 1)
			if g.big && t.Chance(20) {
				k = t.Range(3, 40)
			}
			for ; k > 0; k-- {
				m.contacts = append(m.contacts, g.addrp(func() (p string) {
					if t.Chance(25) {
						p += g.qparam()
					}
					if t.Chance(25) {
						p += "\x01;\x01expires\x01=\x01" + strconv.Itoa(t.Range(0, 100000))
					}
					if g.wild {
						p += g.genericParams(1, "q", "expires")
					}
					return
				}))
			}
		}
	}
	seen := map[string]bool{}
	k := t.Pick(4, 3, 2, 2, 1)
	if g.big && t.Chance(20) {
		k = t.Range(5, 60)
	}
	for ; k > 0; k-- {
		h := g.other(otherKinds[t.Intn(len(otherKinds))])
		if seen[h.name] {
			continue
		}
		seen[h.name] = true
		m.hdrs = append(m.hdrs, h)
	}
	m.body = g.body()
	if m.body != nil {
		m.ctype = t.Of("application\x01/\x01sdp", "text\x01/\x01plain", "application\x01/\x01octet-stream", "multipart\x01/\x01mixed")
		if t.Chance(30) {
			g.tokens = true
			m.ctype += g.genericParams(2)
			g.tokens = false
		}
	}
}

// response makes a valid response that answers nothing in particular.
func (g *G) response() *amsg {
	t := g.c.T
	m := g.request("")
	m.request = false
	m.code = []int{100, 180, 183, 200, 202, 301, 302, 400, 401, 404, 407, 480, 486, 487, 500, 503, 600, 603, 699}[t.Intn(19)]
	m.reason = t.Of("OK", "Ringing", "Not Found", "Busy Here", "Call/Transaction Does Not Exist", "", "Ça va", "a  b", "Who knows? (x=\"y\")")
	m.maxfwd = -1
	m.routes = nil
	m.star = false
	if m.to.tag == "" && t.Chance(80) {
		m.to.tag = g.uniq("r")
		m.to.tmpl += "\x01;\x01tag\x01=\x01" + m.to.tag
	}
	return m
}

// ---- rendering

type style struct {
	g          *G
	ws, fold   int // percent
	compact    int
	namecase   int
	combine    int // several elements on one line rather than one line each
	shuffle    bool
	lwsAtColon int
	zeros      int
	version    int // SIP version in small letters
}

func (g *G) style() *style {
	t := g.c.T
	s := &style{g: g, combine: 50}
	if !g.wild || t.Chance(30) {
		return s
	}
	s.ws = t.Of1(0, 20, 60)
	s.fold = t.Of1(0, 0, 30)
	s.compact = t.Of1(0, 30, 100)
	s.namecase = t.Of1(0, 0, 40)
	s.shuffle = t.Bool()
	s.lwsAtColon = t.Of1(0, 0, 30)
	s.zeros = t.Of1(0, 0, 40)
	s.version = t.Of1(0, 0, 40)
	return s
}

func (s *style) render(tmpl string) string {
	t := s.g.c.T
	var b []byte
	for i := 0; i < len(tmpl); i++ {
		switch tmpl[i] {
		case 1:
			if t.Chance(s.ws) {
				b = append(b, s.lws()...)
			}
		case 2:
			if t.Chance(s.ws) {
				b = append(b, s.lws1()...)
			} else {
				b = append(b, ' ')
			}
		case 3:
			if t.Chance(s.zeros) {
				b = append(b, t.Of("0", "00", "000")...)
			}
		default:
			b = append(b, tmpl[i])
		}
	}
	return string(b)
}

func (s *style) lws() string {
	t := s.g.c.T
	if t.Chance(s.fold) {
		return t.Of("\r\n ", " \r\n ", "\r\n\t", "\r\n   ", "\r\n\t\t", "\r\n \t", "\r\n\t ", "\t\r\n ", "\t \r\n\t  ")
	}
	return t.Of(" ", "  ", "\t", " \t", "     ")
}

// lws1 is white space that separates two words. A fold of a single white
// space is read as none (a test of the repository pins it): see lwsPinned.
func (s *style) lws1() string {
	if w := s.lws(); w != "\r\n " && w != "\r\n\t" {
		return w
	}
	return s.g.c.T.Of(" \r\n ", "\r\n\t ")
}

func canon(tmpl string) string {
	tmpl = strings.Replace(tmpl, "\x01", "", -1)
	tmpl = strings.Replace(tmpl, "\x03", "", -1)
	return strings.Replace(tmpl, "\x02", " ", -1)
}

var compactOf = map[string]string{"To": "t", "From": "f", "Via": "v", "Contact": "m", "Content-Type": "c", "Content-Length": "l",
	"Call-ID": "i", "Supported": "k", "Subject": "s", "Event": "o", "Content-Encoding": "e", "Allow-Events": "u", "Refer-To": "r"}

var fullOf = map[string]string{}

func init() {
	for k, v := range compactOf {
		fullOf[v] = strings.ToLower(k)
	}
}

// lines lists the header lines as templates, in a natural order.
func (m *amsg) lines() []ahdr {
	var l []ahdr
	add := func(n, t string) { l = append(l, ahdr{n, t}) }
	for _, v := range m.vias {
		add("Via", v.tmpl())
	}
	for _, r := range m.routes {
		add("Route", r.tmpl)
	}
	if m.maxfwd >= 0 {
		add("Max-Forwards", "\x03"+strconv.Itoa(m.maxfwd))
	}
	add("From", m.from.tmpl)
	add("To", m.to.tmpl)
	add("Call-ID", m.callid)
	add("CSeq", "\x03"+strconv.Itoa(m.seq)+"\x02"+m.method)
	for _, r := range m.rroutes {
		add("Record-Route", r.tmpl)
	}
	if m.star {
		add("Contact", "*")
	}
	for _, r := range m.contacts {
		add("Contact", r.tmpl)
	}
	l = append(l, m.hdrs...)
	if m.ctype != "" {
		add("Content-Type", m.ctype)
	}
	if !m.nocl {
		add("Content-Length", "\x03"+strconv.Itoa(len(m.body)))
	}
	return l
}

func (m *amsg) startLine() string {
	if m.request {
		return m.method + " " + m.ruri.text + " SIP/2.0"
	}
	return "SIP/2.0 " + strconv.Itoa(m.code) + " " + m.reason
}

// combinable headers may share a line, separated by commas.
var combinable = map[string]bool{"Via": true, "Route": true, "Record-Route": true, "Contact": true}

// encode writes the message in some legal spelling.
func (m *amsg) encode(s *style) []byte {
	t := s.g.c.T
	var b strings.Builder
	start := m.startLine()
	if t.Chance(s.version) {
		start = strings.Replace(start, "SIP/2.0", t.Of("sip/2.0", "Sip/2.0"), 1)
	}
	b.WriteString(start + "\r\n")
	ls := m.lines()
	if s.shuffle { // different names may come in any order
		for i := len(ls) - 1; i > 0; i-- {
			j := t.Intn(i + 1)
			ok := true
			for k := j; k <= i; k++ {
				for q := j; q <= i; q++ {
					if k != q && ls[k].name == ls[q].name {
						ok = false
					}
				}
			}
			if ok {
				ls[i], ls[j] = ls[j], ls[i]
			}
		}
	}
	for i := 0; i < len(ls); i++ {
		n, v := ls[i].name, s.render(ls[i].tmpl)
		for combinable[n] && i+1 < len(ls) && ls[i+1].name == n && t.Chance(s.combine) {
			v += s.render("\x01,\x01") + s.render(ls[i+1].tmpl)
			i++
		}
		if c := compactOf[n]; c != "" && t.Chance(s.compact) {
			n = c
			s.g.c.Probe("compact form")
		}
		switch {
		case t.Chance(s.namecase):
			n = strings.ToUpper(n)
		case t.Chance(s.namecase):
			n = strings.ToLower(n)
		}
		b.WriteString(n)
		if t.Chance(s.lwsAtColon) {
			b.WriteString(t.Of(" ", "\t"))
		}
		b.WriteString(":")
		if t.Chance(s.lwsAtColon) {
			b.WriteString(s.lws())
		} else {
			b.WriteString(" ")
		}
		b.WriteString(v + "\r\n")
	}
	b.WriteString("\r\n")
	b.Write(m.body)
	return []byte(b.String())
}

// canonText is the plain spelling, from which the model's meaning is read.
func (m *amsg) canonText() []byte {
	var b strings.Builder
	b.WriteString(m.startLine() + "\r\n")
	for _, l := range m.lines() {
		b.WriteString(l.name + ": " + canon(l.tmpl) + "\r\n")
	}
	b.WriteString("\r\n")
	b.Write(m.body)
	return []byte(b.String())
}

// ---- independent reading of SIP text

// Msg is the meaning of a message: per header name (lower case) its elements.
type nmsg struct {
	start string
	hdr   map[string][]string
	body  string
}

// split cuts s at sep outside quotes, angle brackets and comments.
func split(s string, sep byte) []string {
	var out []string
	q, a, p := false, false, 0
	st := 0
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if q {
			if ch == '\\' {
				i++
			} else if ch == '"' {
				q = false
			}
			continue
		}
		switch {
		case ch == '"' && p == 0:
			q = true
		case a:
			if ch == '>' {
				a = false
			}
		case ch == '<':
			a = true
		case ch == '(':
			p++
		case p > 0 && ch == '\\':
			i++
		case ch == ')':
			if p > 0 {
				p--
			}
		case ch == sep && p == 0:
			out = append(out, s[st:i])
			st = i + 1
		}
	}
	return append(out, s[st:])
}

func unquote(s string) string {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return s
	}
	s = s[1 : len(s)-1]
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) {
			i++
		}
		b = append(b, s[i])
	}
	return string(b)
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

// squeezeq collapses white space outside quotes.
func squeezeq(s string) string {
	var b []byte
	q := false
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if q {
			b = append(b, ch)
			if ch == '\\' && i+1 < len(s) {
				i++
				b = append(b, s[i])
			} else if ch == '"' {
				q = false
			}
			continue
		}
		if ch == '"' {
			q = true
		}
		if ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n' {
			if len(b) > 0 && b[len(b)-1] != ' ' {
				b = append(b, ' ')
			}
			continue
		}
		b = append(b, ch)
	}
	return strings.TrimSpace(string(b))
}

func trim(s string) string { return strings.Trim(s, " \t\r\n") }

func nparam(p string) string {
	p = trim(p)
	i := strings.IndexByte(p, '=')
	if i < 0 {
		return strings.ToLower(p)
	}
	n, v := strings.ToLower(trim(p[:i])), trim(p[i+1:])
	if v == "" {
		return n // the library writes valueless parameters as "name="
	}
	if n == "q" || n == "expires" || n == "duration" || n == "retry-after" || n == "cause" || n == "ttl" {
		v = nnum(v)
	}
	return n + "=" + v
}

func nnum(v string) string {
	if f, err := strconv.ParseFloat(v, 64); err == nil {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return v
}

// nparams reads ";a=b;c", in any order.
func nparams(s string, sep byte) string {
	s = trim(s)
	if s == "" {
		return ""
	}
	var out []string
	for _, p := range split(s, sep) {
		if trim(p) != "" {
			out = append(out, nparam(p))
		}
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

// nauth reads authentication parameters; whether a token is quoted does not
// matter.
func nauth(s string) string {
	var out []string
	for _, p := range split(s, ',') {
		p = nparam(p)
		if i := strings.IndexByte(p, '='); i >= 0 {
			p = p[:i+1] + unquote(p[i+1:])
		}
		out = append(out, p)
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

func nuri(u string) string {
	u = trim(u)
	i := strings.IndexByte(u, ':')
	if i < 0 {
		return u
	}
	sch := strings.ToLower(u[:i])
	rest := u[i+1:]
	switch sch {
	case "sip", "sips":
		user := ""
		hasu := false
		if k := strings.IndexByte(rest, '@'); k >= 0 && !(strings.IndexByte(rest, '[') >= 0 && strings.IndexByte(rest, '[') < 0) {
			user, rest, hasu = rest[:k], rest[k+1:], true
		}
		hdrs := ""
		if k := strings.IndexByte(rest, '?'); k >= 0 {
			rest, hdrs = rest[:k], rest[k+1:]
		}
		params := ""
		if k := strings.IndexByte(rest, ';'); k >= 0 {
			rest, params = rest[:k], rest[k+1:]
		}
		hs := strings.Split(hdrs, "&")
		sort.Strings(hs)
		s := sch + ":"
		if hasu {
			s += user + "@"
		}
		return s + nhost(rest) + ";" + nparams(params, ';') + "?" + strings.Join(hs, "&")
	case "tel":
		params := ""
		if k := strings.IndexByte(rest, ';'); k >= 0 {
			rest, params = rest[:k], rest[k+1:]
		}
		return "tel:" + rest + ";" + nparams(params, ';')
	}
	return sch + ":" + rest
}

func nhost(h string) string {
	return strings.ToLower(strings.Replace(strings.Replace(trim(h), " ", "", -1), "\t", "", -1))
}

func naddr(s string) string {
	s = trim(s)
	if s == "*" || s == "<*>" {
		return "*"
	}
	disp, uri, params := "", "", ""
	// the first < outside quotes
	q := false
	lt := -1
	for i := 0; i < len(s); i++ {
		if q {
			if s[i] == '\\' {
				i++
			} else if s[i] == '"' {
				q = false
			}
		} else if s[i] == '"' {
			q = true
		} else if s[i] == '<' {
			lt = i
			break
		} else if s[i] == ';' {
			break
		}
	}
	if lt >= 0 {
		disp = trim(s[:lt])
		if strings.HasPrefix(disp, `"`) {
			disp = unquote(disp)
		}
		// Words may be any white space apart, and are written in quotes then.
		disp = squeeze(disp)
		gt := strings.IndexByte(s[lt:], '>')
		if gt < 0 {
			return "?" + s
		}
		uri = s[lt+1 : lt+gt]
		params = s[lt+gt+1:]
	} else {
		k := strings.IndexByte(s, ';')
		if k >= 0 {
			uri, params = s[:k], s[k+1:]
		} else {
			uri = s
		}
	}
	return "[" + disp + "]<" + nuri(uri) + ">" + nparams(params, ';')
}

func nvia(s string) string {
	parts := split(s, ';')
	h := trim(parts[0])
	for _, x := range []string{"/", ":"} {
		for _, w := range []string{" ", "\t"} {
			for strings.Contains(h, w+x) {
				h = strings.Replace(h, w+x, x, -1)
			}
			for strings.Contains(h, x+w) {
				h = strings.Replace(h, x+w, x, -1)
			}
		}
	}
	h = squeeze(h)
	i := strings.IndexByte(h, ' ')
	if i < 0 {
		return "?" + s
	}
	return strings.ToUpper(h[:i]) + " " + nhost(h[i+1:]) + ";" + nparams(strings.Join(parts[1:], ";"), ';')
}

// tight drops the white space around separators outside quotes.
func tight(s string) string {
	s = squeezeq(s)
	var b []byte
	q := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case q && c == '\\' && i+1 < len(s):
			b = append(b, c, s[i+1])
			i++
			continue
		case c == '"':
			q = !q
		case !q && c == ' ' && (len(b) > 0 && strings.IndexByte(";=,<>", b[len(b)-1]) >= 0 ||
			i+1 < len(s) && strings.IndexByte(";=,<>", s[i+1]) >= 0):
			continue
		}
		b = append(b, c)
	}
	return string(b)
}

// nvalue reads one header line into its elements.
func nvalue(name, v string) []string {
	v = trim(v)
	var out []string
	each := func(f func(string) string) []string {
		for _, e := range split(v, ',') {
			if trim(e) != "" {
				out = append(out, f(e))
			}
		}
		if out == nil {
			out = []string{""}
		}
		return out
	}
	pv := func(s string) string { // value;params
		p := split(s, ';')
		return squeezeq(p[0]) + ";" + nparams(strings.Join(p[1:], ";"), ';')
	}
	switch name {
	case "via":
		return each(nvia)
	case "from", "to", "refer-to", "reply-to":
		return []string{naddr(v)}
	case "contact", "route", "record-route":
		return each(naddr)
	case "alert-info", "call-info", "error-info":
		return each(naddr)
	case "require", "proxy-require", "supported", "unsupported", "allow", "allow-events", "content-encoding", "content-language":
		return each(squeeze)
	case "in-reply-to":
		for _, e := range strings.Split(v, ",") {
			out = append(out, trim(e))
		}
		return out
	case "accept", "content-type":
		f := func(s string) string {
			p := split(s, ';')
			m := strings.Replace(squeeze(p[0]), " ", "", -1)
			return m + ";" + nparams(strings.Join(p[1:], ";"), ';')
		}
		if name == "content-type" {
			return []string{f(v)}
		}
		return each(f)
	case "accept-encoding", "accept-language", "reason":
		return each(pv)
	case "event", "subscription-state", "content-disposition":
		return []string{pv(v)}
	case "retry-after":
		p := split(v, ';')
		h := squeeze(p[0])
		c := ""
		if i := strings.IndexByte(h, '('); i >= 0 {
			h, c = trim(h[:i]), h[i:]
		}
		return []string{h + c + ";" + nparams(strings.Join(p[1:], ";"), ';')}
	case "authorization", "proxy-authorization", "www-authenticate", "proxy-authenticate":
		i := strings.IndexAny(v, " \t")
		if i < 0 {
			return []string{v}
		}
		return []string{strings.ToLower(v[:i]) + " " + nauth(v[i:])}
	case "authentication-info":
		return []string{nauth(v)}
	case "warning":
		return each(squeezeq)
	case "timestamp":
		f := strings.Fields(v)
		for i := range f {
			f[i] = nnum(f[i])
		}
		return []string{strings.Join(f, " ")}
	case "max-forwards", "expires", "min-expires", "rseq", "content-length":
		return []string{nnum(v)}
	case "cseq", "rack":
		f := strings.Fields(v)
		for i := range f {
			if i < len(f)-1 {
				f[i] = nnum(f[i])
			}
		}
		return []string{strings.Join(f, " ")}
	case "call-id", "date", "mime-version":
		return []string{v}
	case "subject", "user-agent", "server", "organization", "priority":
		return []string{squeeze(v)}
	}
	return []string{tight(v)} // unknown headers are text
}

// readMsg reads SIP text on its own.  It is given only well-formed text.
func readMsg(b []byte) (*nmsg, error) {
	s := string(b)
	i := strings.Index(s, "\r\n\r\n")
	if i < 0 {
		return nil, fmt.Errorf("the header section does not end")
	}
	m := &nmsg{hdr: map[string][]string{}, body: s[i+4:]}
	head := s[:i]
	head = strings.Replace(head, "\r\n ", " ", -1)
	head = strings.Replace(head, "\r\n\t", " ", -1)
	ls := strings.Split(head, "\r\n")
	m.start = ls[0]
	for _, l := range ls[1:] {
		k := strings.IndexByte(l, ':')
		if k < 1 {
			return nil, fmt.Errorf("line %q is no header", l)
		}
		n := strings.ToLower(trim(l[:k]))
		if f := fullOf[n]; f != "" {
			n = f
		}
		m.hdr[n] = append(m.hdr[n], nvalue(n, l[k+1:])...)
	}
	// start line
	f := strings.SplitN(m.start, " ", 3)
	if len(f) == 3 && f[2] == "SIP/2.0" {
		m.start = f[0] + " " + nuri(f[1]) + " " + f[2]
	}
	return m, nil
}

// sameMeaning compares two messages and says how they differ.
func (a *nmsg) diff(b *nmsg) (string, string) {
	if a.start != b.start {
		return "start line", fmt.Sprintf("start line %q, want %q", a.start, b.start)
	}
	names := map[string]bool{}
	for n := range a.hdr {
		names[n] = true
	}
	for n := range b.hdr {
		names[n] = true
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		x, y := a.hdr[n], b.hdr[n]
		if len(x) != len(y) {
			return n, fmt.Sprintf("%s has %d values %q, want %d: %q", n, len(x), x, len(y), y)
		}
		for i := range x {
			if x[i] != y[i] {
				return n, fmt.Sprintf("%s[%d] is %q, want %q", n, i, x[i], y[i])
			}
		}
	}
	if a.body != b.body {
		return "body", fmt.Sprintf("body %q, want %q", a.body, b.body)
	}
	return "", ""
}
