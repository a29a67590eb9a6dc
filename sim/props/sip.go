package props

import (
	"container/list"
	"fmt"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// parseMsg hands a datagram to the library.
func parseMsg(c *Ctx, p *parser.StringMsgParser, data []byte) (m message.Message, err error) {
	c.Lib("ParseSIPMessageFromByte", Bound(len(data)), func() { m, err = p.ParseSIPMessageFromByte(data) })
	return
}

func bytesOf(m message.Message) []byte {
	switch x := m.(type) {
	case *message.SIPRequest:
		return x.EncodeAsBytes()
	case *message.SIPResponse:
		return x.EncodeAsBytes()
	}
	return nil
}

func encodeMsg(c *Ctx, m message.Message) (b []byte) {
	c.Lib("EncodeAsBytes", 0, func() { b = bytesOf(m) })
	return
}

func sipm(m message.Message) *message.SIPMessage {
	switch x := m.(type) {
	case *message.SIPRequest:
		return &x.SIPMessage
	case *message.SIPResponse:
		return &x.SIPMessage
	}
	return nil
}

// compareMsg checks that the library's encoding means what the model means.
func compareMsg(c *Ctx, class string, m *amsg, enc []byte, input []byte) {
	want, err := readMsg(m.canonText())
	if err != nil {
		Harness("own text unreadable: %v", err)
	}
	compareN(c, class, want, enc, input)
}

func compareN(c *Ctx, class string, want *nmsg, enc []byte, input []byte) {
	got, err := readMsg(enc)
	if err != nil {
		c.Fail(class+":unreadable", "encoding is not a SIP message (%v): %q (parsed from %q)", err, enc, input)
	}
	if where, what := got.diff(want); where != "" {
		c.Fail(class+":"+where, "%s\n encoded %q\n from    %q", what, enc, input)
	}
}

// checkGetters compares what the accessors report with the model.
func checkGetters(c *Ctx, m *amsg, msg message.Message, input []byte) {
	bad := func(what string, got, want interface{}) {
		c.Fail("getter:"+what, "%s is %q, want %q\n of %q", what, fmt.Sprint(got), fmt.Sprint(want), input)
	}
	eq := func(what string, got, want interface{}) {
		if got != want {
			bad(what, got, want)
		}
	}
	s := sipm(msg)
	c.Lib("accessors", 0, func() {
		if s.GetTopmostVia() == nil {
			c.Fail("getter:Via", "Via is not found in the message, although it was there\n of %q", input)
		}
		if m.request {
			r, ok := msg.(*message.SIPRequest)
			if !ok {
				c.Fail("getter:kind", "a request was read as a response: %q", input)
			}
			eq("method", r.GetMethod(), m.method)
			eq("SIP version", r.GetSIPVersion(), "SIP/2.0")
			checkURI(c, "request URI", r.GetRequestURI(), m.ruri)
			eq("GetViaHost", strings.ToLower(r.GetViaHost()), strings.ToLower(m.vias[0].host))
			p := m.vias[0].port
			if p == 0 {
				p = 5060
			}
			eq("GetViaPort", r.GetViaPort(), p)
		} else {
			r, ok := msg.(*message.SIPResponse)
			if !ok {
				c.Fail("getter:kind", "a response was read as a request: %q", input)
			}
			eq("status code", r.GetStatusCode(), m.code)
			eq("reason phrase", r.GetReasonPhrase(), m.reason)
			eq("SIP version", r.GetSIPVersion(), "SIP/2.0")
			eq("final response", r.IsFinalResponse(), m.code >= 200)
		}
		for _, n := range []struct {
			name string
			has  bool
		}{{"Call-ID", s.GetCallId() != nil}, {"CSeq", s.GetCSeq() != nil}, {"From", s.GetFrom() != nil}, {"To", s.GetTo() != nil},
			{"Content-Length", m.nocl || s.GetContentLength() != nil}, {"Via", s.GetViaHeaders() != nil && s.GetTopmostVia() != nil},
			{"Max-Forwards", m.maxfwd < 0 || s.GetMaxForwards() != nil}, {"Content-Type", m.ctype == "" || s.GetContentTypeHeader() != nil}} {
			if !n.has {
				c.Fail("getter:"+n.name, "%s is not found in the message, although it was there\n of %q", n.name, input)
			}
		}
		eq("Call-ID", s.GetCallId().GetCallId(), m.callid)
		eq("Call-ID identifier", s.GetCallIdentifier(), m.callid)
		eq("CSeq number", s.GetCSeq().GetSequenceNumber(), m.seq)
		eq("CSeq number", s.GetCSeqNumber(), m.seq)
		eq("CSeq method", s.GetCSeq().GetMethod(), m.method)
		eq("From tag", s.GetFrom().GetTag(), m.from.tag)
		eq("To tag", s.GetTo().GetTag(), m.to.tag)
		eq("From tag", s.GetFromTag(), m.from.tag)
		eq("To tag", s.GetToTag(), m.to.tag)
		eq("HasFromTag", s.HasFromTag(), m.from.tag != "")
		eq("HasToTag", s.HasToTag(), m.to.tag != "")
		checkAddr(c, "From", s.GetFrom().GetAddress(), m.from)
		checkAddr(c, "To", s.GetTo().GetAddress(), m.to)
		if m.maxfwd >= 0 {
			eq("Max-Forwards", s.GetMaxForwards().GetMaxForwards(), m.maxfwd)
		}
		eq("Content-Length", s.GetContentLength().GetContentLength(), len(m.body))
		eq("content", s.GetContent(), string(m.body))
		vs := s.GetViaHeaders()
		eq("number of Via", vs.Len(), len(m.vias))
		i := 0
		for e := vs.Front(); e != nil; e = e.Next() {
			v := e.Value.(*header.Via)
			w := m.vias[i]
			eq("Via host", strings.ToLower(v.GetHost()), strings.ToLower(w.host))
			port := w.port
			if port == 0 {
				port = -1
			}
			eq("Via port", v.GetPort(), port)
			eq("Via transport", strings.ToUpper(v.GetTransport()), strings.ToUpper(w.transport))
			eq("Via protocol", v.GetProtocol(), "SIP")
			eq("Via version", v.GetProtocolVersion(), "2.0")
			eq("Via branch", v.GetBranch(), w.branch)
			wp := nparams(canon(w.params), ';')
			for _, p := range split(wp, ';') {
				switch {
				case strings.HasPrefix(p, "received="):
					eq("Via received", v.GetReceived(), p[9:])
				case strings.HasPrefix(p, "maddr="):
					eq("Via maddr", v.GetMAddr(), p[6:])
				case strings.HasPrefix(p, "ttl="):
					eq("Via ttl", fmt.Sprint(v.GetTTL()), p[4:])
				case p != "":
					k := strings.IndexByte(p, '=')
					if k < 0 {
						eq("Via parameter present", v.HasParameter(findName(v.GetParameterNames(), p)), true)
					}
				}
			}
			i++
		}
		eq("topmost Via", s.GetTopmostVia() == vs.Front().Value.(*header.Via), true)
		checkList(c, "Route", s.HasHeader("Route"), s.GetHeaders("Route"), m.routes)
		checkList(c, "Record-Route", s.HasHeader("Record-Route"), s.GetHeaders("Record-Route"), m.rroutes)
		if !m.star {
			checkList(c, "Contact", s.HasHeader("Contact"), s.GetHeaders("Contact"), m.contacts)
		}
		if m.ctype != "" {
			w := strings.SplitN(strings.SplitN(canon(m.ctype), ";", 2)[0], "/", 2)
			ct := s.GetContentTypeHeader()
			eq("content type", ct.GetContentType(), w[0])
			eq("content subtype", ct.GetContentSubType(), w[1])
		}
		for _, h := range m.hdrs {
			if !s.HasHeader(h.name) || s.GetHeader(h.name) == nil {
				c.Fail("getter:has "+strings.ToLower(h.name), "%s is not found in the message, although it was there\n of %q", h.name, input)
			}
		}
	})
}

func findName(l *list.List, low string) string {
	for e := l.Front(); e != nil; e = e.Next() {
		if strings.ToLower(e.Value.(string)) == low {
			return e.Value.(string)
		}
	}
	return low
}

func checkList(c *Ctx, what string, has bool, l header.Lister, want []aaddr) {
	if has != (len(want) > 0) || l.Len() != len(want) {
		c.Fail("getter:"+what, "%d %s headers found, want %d", l.Len(), what, len(want))
	}
	i := 0
	for e := l.Front(); e != nil; e = e.Next() {
		var a address.Address
		switch h := e.Value.(type) {
		case *header.Route:
			a = h.GetAddress()
		case *header.RecordRoute:
			a = h.GetAddress()
		case *header.Contact:
			a = h.GetAddress()
		default:
			c.Fail("getter:"+what, "%s header is a %T", what, h)
		}
		checkAddr(c, what, a, want[i])
		i++
	}
}

func checkAddr(c *Ctx, what string, a address.Address, w aaddr) {
	if a == nil {
		c.Fail("getter:"+what, "%s has no address, want %q", what, canon(w.tmpl))
	}
	if d := unesc(a.GetDisplayName()); squeeze(d) != squeeze(w.disp) {
		c.Fail("getter:"+what+" display name", "%s display name is %q, want %q (%q)", what, a.GetDisplayName(), w.disp, canon(w.tmpl))
	}
	checkURI(c, what+" URI", a.GetURI(), w.uri)
}

func unesc(s string) string { return unquote(`"` + s + `"`) }

func checkURI(c *Ctx, what string, u address.URI, w auri) {
	if u == nil {
		c.Fail("getter:"+what, "%s is nil, want %s", what, w.text)
	}
	if got := nuri(u.String()); got != nuri(w.text) {
		c.Fail("getter:"+what, "%s reads %q, want %q", what, got, nuri(w.text))
	}
	if strings.ToLower(u.GetScheme()) != w.scheme {
		c.Fail("getter:"+what+" scheme", "%s scheme is %q, want %q", what, u.GetScheme(), w.scheme)
	}
	if w.scheme != "sip" && w.scheme != "sips" {
		return
	}
	s, ok := u.(*address.SipURIImpl)
	if !ok {
		c.Fail("getter:"+what, "%s %s is no SIP URI but a %T", what, w.text, u)
	}
	if s.IsSecure() != (w.scheme == "sips") {
		c.Fail("getter:"+what+" scheme", "%s: IsSecure is %v for %s", what, s.IsSecure(), w.text)
	}
	if s.GetUser() != w.user || s.GetUserPassword() != w.pw {
		c.Fail("getter:"+what+" user", "%s user %q password %q, want %q %q (%s)", what, s.GetUser(), s.GetUserPassword(), w.user, w.pw, w.text)
	}
	port := w.port
	if port == 0 {
		port = -1
	}
	if nhost(s.GetHost()) != nhost(w.host) || s.GetPort() != port {
		c.Fail("getter:"+what+" host", "%s host %q port %d, want %q %d (%s)", what, s.GetHost(), s.GetPort(), w.host, port, w.text)
	}
	for _, p := range w.params {
		if p[1] == "" {
			if p[0] == "lr" && !s.HasLrParam() {
				c.Fail("getter:"+what+" lr", "%s: lr parameter not found in %s", what, w.text)
			}
			if !s.HasParameter(p[0]) {
				c.Fail("getter:"+what+" parameter", "%s: parameter %s not found in %s", what, p[0], w.text)
			}
			continue
		}
		if g := s.GetParameter(p[0]); g != p[1] {
			c.Fail("getter:"+what+" parameter", "%s: parameter %s is %q in %s", what, p[0], g, w.text)
		}
	}
}

// ---- C06 relaying

func init() {
	Register(&Prop{
		ID: "C06", Title: "A relayed message keeps its meaning over every hop",
		Quick: 60000, Thorough: 3000000,
		Rule: "one run sends 1-4 generated messages through 0-4 relays that parse, change and re-encode them over a lossy, reordering, duplicating network; non-trivial when a datagram crossed at least one relay or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)", "relay logic (harness)"},
		Run:  runRelay,
	})
}

type relayMeta struct {
	m    *amsg
	path []string
	i    int
}

func (m *amsg) clone() *amsg {
	n := *m
	n.vias = append([]avia(nil), m.vias...)
	n.routes = append([]aaddr(nil), m.routes...)
	n.rroutes = append([]aaddr(nil), m.rroutes...)
	n.contacts = append([]aaddr(nil), m.contacts...)
	n.hdrs = append([]ahdr(nil), m.hdrs...)
	return &n
}

func runRelay(c *Ctx) {
	t := c.T
	if t.Chance(2) {
		runPinned(c)
		return
	}
	g := NewG(c)
	net := NewSim(c)
	nrel := t.Pick(2, 4, 3, 2, 1)
	addrs := []string{"uac"}
	for i := 0; i < nrel; i++ {
		addrs = append(addrs, fmt.Sprintf("p%d", i))
	}
	addrs = append(addrs, "uas")
	parsers := map[string]*parser.StringMsgParser{}
	for _, a := range addrs {
		parsers[a] = parser.NewStringMsgParser()
	}
	arrived := 0
	for i := 1; i < len(addrs); i++ {
		i := i
		me := addrs[i]
		net.Listen(me, func(d *Dgram) {
			rm := d.Meta.(*relayMeta)
			if t.Chance(5) { // the node crashed and came back: nothing of it survives
				c.Fault("node restart")
				parsers[me] = parser.NewStringMsgParser()
			}
			keep := append([]byte(nil), d.Data...)
			msg, err := parseMsg(c, parsers[me], d.Data)
			if err != nil || msg == nil {
				where := "message"
				if err != nil {
					where = blame(rm.m, keep)
				}
				c.Fail("rejected:"+where, "a valid message is rejected (%v): %q", err, keep)
			}
			checkGetters(c, rm.m, msg, keep)
			enc := encodeMsg(c, msg)
			compareMsg(c, "differs", rm.m, enc, keep)
			if string(d.Data) != string(keep) {
				c.Fail("input changed", "parsing changed the received datagram %q to %q", keep, d.Data)
			}
			if me == "uas" {
				if t.Chance(15) {
					lexed(c, keep)
				}
				arrived++
				return
			}
			c.Nontriv = true
			nm := rm.m.clone()
			if t.Chance(20) { // one of several branches is sent a copy
				msg = copyMsg(c, msg)
				compareMsg(c, "copied", nm, encodeMsg(c, msg), keep)
			}
			relayEdit(c, g, nm, msg)
			enc = encodeMsg(c, msg)
			compareMsg(c, "relayed", nm, enc, keep)
			net.Send(me, addrs[i+1], enc, &relayMeta{m: nm})
		})
	}
	n := t.Range(1, 4)
	for k := 0; k < n; k++ {
		var m *amsg
		if t.Chance(35) {
			m = g.response()
		} else {
			m = g.request("")
		}
		for _, h := range m.hdrs {
			c.Probe("header " + h.name)
		}
		b := m.encode(g.style())
		if len(b) > 20000 {
			continue
		}
		net.At(time.Duration(k)*10*time.Millisecond, func() { net.Send("uac", addrs[1], b, &relayMeta{m: m}) })
	}
	net.Run()
	c.Count("messages arrived")
	_ = arrived
}

// pinned lists what the repository's own tests expect although it changes the
// meaning of the message.  The generator stays clear of these; here each is
// tried by itself, so that it is known and nothing else hides behind it.
var pinned = []struct{ class, hdr, want, got string }{
	{"pinned:flag-parameter", "Event: presence;flag", "Event: presence;flag", "Event: presence;flag="},
	{"pinned:contact-addr-spec", "Contact: sip:a@b.example;expires=5", "Contact: <sip:a@b.example>;expires=5", "Contact: <sip:a@b.example;expires=5>"},
	{"pinned:fold", "X-Text: one\r\n two", "X-Text: one two", "X-Text: onetwo"},
	{"pinned:algorithm-quotes", "Authorization: Digest algorithm=MD5", "Authorization: Digest algorithm=MD5", "Authorization: Digest algorithm=\"MD5\""},
	{"pinned:star", "Contact: *", "Contact: *", "Contact: <*>"},
	{"pinned:cseq-case", "CSeq: 1 Options", "CSeq: 1 Options", "CSeq: 1 OPTIONS"},
}

func runPinned(c *Ctx) {
	x := pinned[c.T.Intn(len(pinned))]
	method := "OPTIONS"
	if strings.HasPrefix(x.hdr, "CSeq: 1 ") {
		method = x.hdr[len("CSeq: 1 "):]
	}
	in := method + " sip:a@b.example SIP/2.0\r\n" + x.hdr + "\r\n\r\n"
	m, err := parseMsg(c, parser.NewStringMsgParser(), []byte(in))
	if err != nil || m == nil {
		c.Fail("rejected:"+x.class, "a valid message is rejected (%v): %q", err, in)
	}
	enc := string(encodeMsg(c, m))
	ls := strings.Split(enc, "\r\n")
	switch {
	case len(ls) > 1 && ls[1] == x.want:
	case len(ls) > 1 && ls[1] == x.got:
		c.Fail(x.class, "%q is written %q, want %q", x.hdr, x.got, x.want)
	default:
		c.Fail("differs:"+x.class, "%q is written %q, want %q", x.hdr, enc, x.want)
	}
}

// blame finds the header a valid message is rejected for, by leaving others out.
func blame(m *amsg, data []byte) string {
	s := string(data)
	i := strings.Index(s, "\r\n\r\n")
	head := strings.Replace(strings.Replace(s[:i], "\r\n ", " ", -1), "\r\n\t", " ", -1)
	ls := strings.Split(head, "\r\n")
	bad := func(lines []string) bool {
		r := false
		func() {
			defer func() {
				if recover() != nil {
					r = true
				}
			}()
			_, err := parser.NewStringMsgParser().ParseSIPMessageFromByte([]byte(strings.Join(lines, "\r\n") + "\r\n\r\n"))
			r = err != nil
		}()
		return r
	}
	if bad(ls[:1]) {
		return "start line"
	}
	for _, l := range ls[1:] {
		if bad([]string{ls[0], l}) {
			k := strings.IndexByte(l, ':')
			n := strings.ToLower(trim(l[:k]))
			if f := fullOf[n]; f != "" {
				n = f
			}
			return n
		}
	}
	return "whole message"
}

// relayEdit does what relays do, to the message and to the model.
func relayEdit(c *Ctx, g *G, m *amsg, msg message.Message) {
	t := c.T
	s := sipm(msg)
	if !m.request {
		if len(m.vias) > 1 {
			m.vias = m.vias[1:]
			c.Lib("RemoveHeader2", 0, func() { s.RemoveHeader2("Via", true) })
		}
		return
	}
	if m.maxfwd > 0 {
		m.maxfwd--
		c.Lib("DecrementMaxForwards", 0, func() {
			if err := s.GetMaxForwards().DecrementMaxForwards(); err != nil {
				c.Fail("decrement", "Max-Forwards %d cannot be decremented: %v", m.maxfwd+1, err)
			}
		})
	}
	v := avia{transport: t.Of("UDP", "TCP"), host: g.hostname(), port: g.port(), branch: "z9hG4bK" + g.uniq("p")}
	m.vias = append([]avia{v}, m.vias...)
	c.Lib("AddHeader(Via)", 0, func() { s.AddHeader(mkVia(c, v)) })
	if len(m.routes) > 0 && t.Chance(60) {
		m.routes = m.routes[1:]
		c.Lib("RemoveHeader2", 0, func() { s.RemoveHeader2("Route", true) })
	}
	if t.Chance(40) {
		a := aaddr{uri: g.sipuri(true, false)}
		a.tmpl = "<" + a.uri.text + ">"
		m.rroutes = append(m.rroutes, a)
		c.Lib("AddHeader(Record-Route)", 0, func() {
			s.AddHeader(header.NewRecordRouteFromAddress(mkAddr(c, a.uri.text)))
		})
	}
}

// copyMsg makes a message of copies of what another is made of.
func copyMsg(c *Ctx, msg message.Message) (to message.Message) {
	c.Probe("sent on as a copy")
	c.Lib("copying a message", 0, func() {
		switch m := msg.(type) {
		case *message.SIPRequest:
			n := message.NewSIPRequest()
			n.SetRequestLine(m.GetRequestLine().Clone().(*header.RequestLine))
			to = n
		case *message.SIPResponse:
			n := message.NewSIPResponse()
			sl := header.NewStatusLine()
			sl.SetSipVersion(m.GetStatusLine().GetSipVersion())
			sl.SetStatusCode(m.GetStatusLine().GetStatusCode())
			sl.SetReasonPhrase(m.GetStatusLine().GetReasonPhrase())
			n.SetStatusLine(sl)
			to = n
		}
		from, s := sipm(msg), sipm(to)
		seen := map[string]bool{}
		for e := from.GetHeaderNames().Front(); e != nil; e = e.Next() {
			n := e.Value.(string)
			if seen[strings.ToLower(n)] || strings.EqualFold(n, "Content-Length") {
				continue
			}
			seen[strings.ToLower(n)] = true
			if l := from.GetSIPHeaderList(n); l != nil {
				s.SetHeader(l.Clone().(header.Header))
			} else {
				s.SetHeader(from.GetHeader(n).Clone().(header.Header))
			}
		}
		if b := from.GetMessageContent(); b != "" {
			s.SetMessageContentFromByte([]byte(b))
		}
	})
	return to
}

func mkVia(c *Ctx, v avia) *header.Via {
	w := header.NewVia()
	p := header.NewProtocol()
	p.SetTransport(v.transport)
	w.SetSentProtocol(p)
	if err := w.SetHostFromString(v.host); err != nil {
		c.Fail("via host", "host %q refused: %v", v.host, err)
	}
	if v.port != 0 {
		w.SetPort(v.port)
	}
	if v.branch != "" {
		if err := w.SetBranch(v.branch); err != nil {
			c.Fail("via branch", "branch %q refused: %v", v.branch, err)
		}
	}
	return w
}

func mkURI(c *Ctx, text string) address.URI {
	u, err := parser.NewURLParser(text).Parse()
	if err != nil || u == nil {
		c.Fail("uri rejected", "URI %q is rejected: %v", text, err)
	}
	return u
}

func mkAddr(c *Ctx, uri string) *address.AddressImpl {
	a := address.NewAddressImpl()
	a.SetURI(mkURI(c, uri))
	return a
}
