package props

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"container/list"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	Register(&Prop{
		ID: "C13", Title: "A message's headers are an ordered multimap, whatever was done to it",
		Quick: 16000, Thorough: 1000000,
		Rule: "one run has an application add, replace, remove and read headers and bodies of a message, journal it, crash and restore it from the last journalled bytes, and send it over a lossy, reordering network to peers that go on editing; non-trivial when at least three edits were made or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)", "journal (in memory, survives crashes)"},
		Run:  runStore,
	})
}

// store is the reference model of a message's headers.
type store struct {
	start string
	names []string            // in order, lower case
	vals  map[string][]string // normal form
	body  string
	unp   []string
	undec map[string]bool // names added unparsed: nothing
}

func (s *store) clone() *store {
	n := &store{start: s.start, names: append([]string(nil), s.names...), vals: map[string][]string{}, body: s.body}
	for k, v := range s.vals { // order does not matter
		n.vals[k] = append([]string(nil), v...)
	}
	return n
}

// wire is what a reader gets.
func (s *store) wire() *store {
	n := s.clone()
	for k, v := range n.vals {
		n.vals[k] = noempty(k, v)
	}
	return n
}

func (s *store) has(n string) bool { return len(s.vals[n]) > 0 }

func (s *store) add(n string, vals []string, top bool) {
	if !s.has(n) {
		s.names = append(s.names, n)
		s.vals[n] = append([]string(nil), vals...)
		return
	}
	if top {
		s.vals[n] = append(append([]string(nil), vals...), s.vals[n]...)
	} else {
		s.vals[n] = append(append([]string(nil), s.vals[n]...), vals...)
	}
}

func (s *store) remove(n string) {
	delete(s.vals, n)
	for i, x := range s.names {
		if x == n {
			s.names = append(s.names[:i:i], s.names[i+1:]...)
			return
		}
	}
}

// singles cannot stand twice in a message.
var singles = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Subject User-Agent Server Organization Priority Date Timestamp MIME-Version Retry-After Event RAck RSeq Refer-To Reply-To Subscription-State Expires Min-Expires Content-Disposition Authentication-Info From To Call-ID CSeq Max-Forwards Content-Type Content-Length") {
		singles[strings.ToLower(n)] = true
	}
}

// valuesOf reads header text on its own.
func valuesOf(text string) (string, []string) {
	m, err := readMsg([]byte("X\r\n" + text + "\r\n"))
	if err != nil {
		return "", nil
	}
	name := ""
	var vals []string
	for n, v := range m.hdr { // there is one
		name, vals = n, v
	}
	if len(m.hdr) != 1 {
		return "", nil
	}
	return name, vals
}

// noempty leaves out empty elements, which say nothing next to others.
func noempty(n string, v []string) []string {
	switch n {
	case "supported", "accept", "accept-encoding", "accept-language", "allow":
	default:
		return v
	}
	var out []string
	for _, x := range v {
		if x != "" {
			out = append(out, x)
		}
	}
	if out == nil {
		return v[:1]
	}
	return out
}

type storeAgent struct {
	c    *Ctx
	g    *G
	who  string
	msg  message.Message
	s    *message.SIPMessage
	m    *store
	last string // what was done last
	p    *parser.StringMsgParser
}

func (a *storeAgent) lib(what string, f func()) { a.c.Lib(what, 0, f) }

// one makes a header object, its name and its values in normal form.
func (a *storeAgent) one() (header.Header, string, []string) {
	g, t := a.g, a.c.T
	var l ahdr
	switch t.Pick(12, 3, 2, 2, 2, 1, 1, 1, 1, 1, 1) {
	case 0:
		l = g.other(otherKinds[t.Intn(len(otherKinds))])
		for strings.HasPrefix(l.name, "Content-") && t.Bool() {
			l = g.other("Subject")
		}
	case 1:
		v := g.via()
		l = ahdr{"Via", v.tmpl()}
	case 2:
		l = ahdr{"Route", g.route().tmpl}
	case 3:
		l = ahdr{"Record-Route", g.route().tmpl}
	case 4:
		l = ahdr{"Contact", g.addrp(func() string { return g.genericParams(1, "q", "expires") }).tmpl}
	case 5:
		l = ahdr{"From", g.party(true).tmpl}
	case 6:
		l = ahdr{"To", g.party(t.Bool()).tmpl}
	case 7:
		l = ahdr{"Call-ID", g.callid()}
	case 8:
		l = ahdr{"CSeq", g.num(31) + "\x02" + a.method()}
	case 9:
		l = ahdr{"Max-Forwards", fmt.Sprint(t.Intn(256))}
	case 10:
		l = ahdr{"Content-Type", t.Of("application/sdp", "text/plain")}
	}
	text := l.name + ": " + canon(l.tmpl) + "\r\n"
	h := a.parse(text)
	n, vals := valuesOf(text)
	if n == "" {
		Harness("own header unreadable: %q", text)
	}
	return h, n, vals
}

func (a *storeAgent) method() string {
	if x, ok := a.msg.(*message.SIPRequest); ok {
		return x.GetMethod()
	}
	return "INVITE"
}

func (a *storeAgent) parse(text string) header.Header {
	var h header.Header
	var err error
	a.lib("ParseSIPHeader", func() { h, err = a.p.ParseSIPHeader(strings.TrimSpace(text)) })
	if err != nil || h == nil {
		a.c.Fail("rejected", "a valid header is rejected (%v): %q", err, text)
	}
	return h
}

// split takes the elements out of a list object.
func elements(h header.Header) []header.Header {
	l, ok := h.(header.SIPHeaderLister)
	if !ok {
		return []header.Header{h}
	}
	var out []header.Header
	for e := l.Front(); e != nil; e = e.Next() {
		out = append(out, e.Value.(header.Header))
	}
	return out
}

func randcase(c *Ctx, n string) string {
	switch c.T.Intn(3) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	}
	return n
}

// step edits the message and the model.
func (a *storeAgent) step() {
	c, t, s, m := a.c, a.c.T, a.s, a.m
	known := func() string { // a name, mostly a present one
		if len(m.names) > 0 && t.Chance(85) {
			return m.names[t.Intn(len(m.names))]
		}
		return strings.ToLower(t.Of("Route", "Via", "Subject", "Contact", "Warning", "X-None", "Record-Route", "Expires"))
	}
	removable := func(n string) bool { return n != "content-length" }
	switch t.Pick(8, 6, 4, 5, 2, 2, 2, 2, 2, 1, 4) {
	case 10: // through what it holds
		if !a.within() {
			return
		}
	case 0: // AddHeader
		h, n, vals := a.one()
		if singles[n] && m.has(n) {
			return // documented as a misuse
		}
		els := elements(h)
		switch {
		case n == "via" || t.Bool(): // one by one
			a.last = "AddHeader(" + n + ")"
			for i, e := range els {
				e := e
				a.lib("AddHeader", func() { s.AddHeader(e) })
				if len(els) == len(vals) {
					m.add(n, vals[i:i+1], n == "via")
				} else if i == 0 {
					m.add(n, vals, false)
				}
			}
		default:
			a.last = "AddHeader(list of " + n + ")"
			a.lib("AddHeader", func() { s.AddHeader(h) })
			m.add(n, vals, false)
		}
	case 1: // SetHeader
		h, n, vals := a.one()
		a.last = "SetHeader(" + n + ")"
		if els := elements(h); len(els) == 1 && t.Bool() {
			h = els[0]
		}
		var err error
		a.lib("SetHeader", func() { err = s.SetHeader(h) })
		if err != nil {
			c.Fail("set refused", "SetHeader of %q is refused: %v", h, err)
		}
		a.replaced(n, vals)
	case 2: // RemoveHeader
		n := known()
		if !removable(n) {
			return
		}
		a.last = "RemoveHeader(" + n + ")"
		a.lib("RemoveHeader", func() { s.RemoveHeader(randcase(c, full(n))) })
		m.remove(n)
	case 3: // RemoveHeader2
		n := known()
		if !removable(n) {
			return
		}
		top := t.Bool()
		a.last = fmt.Sprintf("RemoveHeader2(%s, %v)", n, top)
		a.lib("RemoveHeader2", func() { s.RemoveHeader2(randcase(c, full(n)), top) })
		switch v := m.vals[n]; {
		case len(v) <= 1 || singles[n]:
			m.remove(n)
		case top:
			m.vals[n] = v[1:]
		default:
			m.vals[n] = v[:len(v)-1]
		}
	case 4: // AttachHeader3
		h, n, vals := a.one()
		replace, top := t.Bool(), t.Bool()
		if singles[n] && m.has(n) && !replace {
			return
		}
		if els := elements(h); len(els) == 1 && t.Bool() {
			h = els[0]
		}
		a.last = fmt.Sprintf("AttachHeader3(%s, %v, %v)", n, replace, top)
		a.lib("AttachHeader3", func() { s.AttachHeader3(h, replace, top) })
		if replace {
			a.replaced(n, vals)
		} else {
			m.add(n, vals, top)
		}
	case 5: // SetHeaders: attaches each
		l := list.New()
		a.last = "SetHeaders("
		for k := t.Range(1, 3); k > 0; k-- {
			h, n, vals := a.one()
			if singles[n] && m.has(n) {
				continue
			}
			l.PushBack(h)
			m.add(n, vals, false)
			a.last += n + " "
		}
		a.lib("SetHeaders", func() { s.SetHeaders(l) })
	case 6: // body
		body := string(a.g.body())
		switch t.Pick(3, 3, 2) {
		case 0:
			a.last = "SetMessageContentFromByte"
			a.lib(a.last, func() { s.SetMessageContentFromByte([]byte(body)) })
			m.body = body
		case 1:
			a.last = "SetContent"
			a.lib(a.last, func() { s.SetContent(body, header.NewContentTypeFromString("text", "x-new")) })
			m.body = body
			a.replaced("content-type", []string{"text/x-new;"})
		case 2:
			a.last = "RemoveContent"
			a.lib(a.last, func() { s.RemoveContent() })
			m.body = ""
			for _, n := range []string{"content-type", "content-encoding", "content-language", "content-disposition"} {
				m.remove(n)
			}
		}
		if !m.has("content-length") {
			m.names = append(m.names, "content-length")
		}
		m.vals["content-length"] = []string{fmt.Sprint(len(m.body))}
	case 7: // typed setters
		g := a.g
		var hs []header.Header
		var n, text string
		mk := func(name, v string) header.Header {
			text = name + ": " + canon(v) + "\r\n"
			n = strings.ToLower(name)
			hs = elements(a.parse(text))
			return hs[0]
		}
		a.last = t.Of("SetFrom", "SetTo", "SetCSeq", "SetCallId", "SetCallIdFromString", "SetMaxForwards", "SetExpires", "SetVia", "SetMinExpiresHeader", "SetContentDisposition", "SetContentEncoding", "SetContentLanguage")
		switch a.last {
		case "SetFrom":
			h := mk("From", g.party(true).tmpl).(header.FromHeader)
			a.lib(a.last, func() { s.SetFrom(h) })
		case "SetTo":
			h := mk("To", g.party(t.Bool()).tmpl).(header.ToHeader)
			a.lib(a.last, func() { s.SetTo(h) })
		case "SetCSeq":
			h := mk("CSeq", g.num(31)+"\x02"+a.method()).(header.CSeqHeader)
			a.lib(a.last, func() { s.SetCSeq(h) })
		case "SetCallId":
			h := mk("Call-ID", g.callid()).(header.CallIdHeader)
			a.lib(a.last, func() { s.SetCallId(h) })
		case "SetCallIdFromString":
			id := g.callid()
			n, text = "call-id", "Call-ID: "+id+"\r\n"
			there := m.has("call-id")
			a.lib(a.last, func() { s.SetCallIdFromString(id) })
			if there { // the header stays where it is
				_, m.vals[n] = valuesOf(text)
				return
			}
		case "SetMaxForwards":
			h := mk("Max-Forwards", fmt.Sprint(t.Intn(256))).(header.MaxForwardsHeader)
			a.lib(a.last, func() { s.SetMaxForwards(h) })
		case "SetExpires":
			h := mk("Expires", g.num(31)).(header.ExpiresHeader)
			a.lib(a.last, func() { s.SetExpires(h) })
		case "SetVia":
			l := header.NewViaList()
			n = "via"
			for k := t.Range(1, 3); k > 0; k-- {
				v := g.via()
				one := "Via: " + canon(v.tmpl()) + "\r\n"
				text += one
				l.PushBack(elements(a.parse(one))[0])
			}
			if t.Chance(30) {
				a.last = "SetHeaderFromSIPHeaderList"
				a.lib(a.last, func() { s.SetHeaderFromSIPHeaderList(l) })
			} else {
				a.lib(a.last, func() { s.SetVia(l) })
			}
		case "SetMinExpiresHeader":
			h := mk("Min-Expires", g.num(31)).(header.MinExpiresHeader)
			a.lib(a.last, func() { s.SetMinExpiresHeader(h) })
		case "SetContentDisposition":
			h := mk("Content-Disposition", g.other("Content-Disposition").tmpl).(header.ContentDispositionHeader)
			a.lib(a.last, func() { s.SetContentDisposition(h) })
		case "SetContentEncoding":
			h := mk("Content-Encoding", t.Of("gzip", "tar")).(header.ContentEncodingHeader)
			a.lib(a.last, func() { s.SetContentEncoding(h) })
		case "SetContentLanguage":
			h := mk("Content-Language", t.Of("en", "fr")).(header.ContentLanguageHeader)
			a.lib(a.last, func() { s.SetContentLanguage(h) })
		}
		_, vals := valuesOf(text)
		a.replaced(n, vals)
	case 8: // tags
		tag := a.g.uniq("s")
		which, n := "From", "from"
		if t.Bool() {
			which, n = "To", "to"
		}
		a.last = "Set" + which + "Tag"
		a.lib(a.last, func() {
			if n == "from" {
				s.SetFromTag(tag)
			} else {
				s.SetToTag(tag)
			}
		})
		if v := m.vals[n]; len(v) == 1 {
			m.vals[n] = []string{settag(v[0], tag)}
		}
	case 9:
		u := a.g.uniq("unparsed: ")
		a.last = "AddUnparsed"
		a.lib(a.last, func() { s.AddUnparsed(u) })
		m.unp = append(m.unp, u)
	}
	c.Log("%s: %s", a.who, a.last)
	c.Probe(strings.SplitN(a.last, "(", 2)[0])
}

// within changes a header or list of headers where it stands in the message.
func (a *storeAgent) within() bool {
	c, t, s, m, g := a.c, a.c.T, a.s, a.m, a.g
	a.last = t.Of("GetFrom().SetTag", "GetTo().SetTag", "GetCallId().SetCallId", "GetCSeq().SetSequenceNumber", "GetMaxForwards().SetMaxForwards", "DecrementMaxForwards", "GetExpires().SetExpires", "GetViaHeaders().PushFront", "GetViaHeaders().Remove", "GetRouteHeaders().PushBack", "GetContactHeaders().PushFront", "GetTopmostVia().SetBranch")
	refused := func(err error) {
		if err != nil {
			c.Fail("set refused", "%s is refused: %v", a.last, err)
		}
	}
	var err error
	one := func(name, v string) (header.Header, []string) {
		text := name + ": " + canon(v) + "\r\n"
		_, vals := valuesOf(text)
		return elements(a.parse(text))[0], vals
	}
	switch a.last {
	case "GetFrom().SetTag", "GetTo().SetTag":
		n := strings.ToLower(a.last[3:strings.IndexByte(a.last, '(')])
		if !m.has(n) {
			return false
		}
		tag := g.uniq("w")
		a.lib(a.last, func() {
			if n == "from" {
				err = s.GetFrom().SetTag(tag)
			} else {
				err = s.GetTo().SetTag(tag)
			}
		})
		refused(err)
		m.vals[n] = []string{settag(m.vals[n][0], tag)}
	case "GetCallId().SetCallId":
		if !m.has("call-id") {
			return false
		}
		id := g.callid()
		a.lib(a.last, func() { err = s.GetCallId().SetCallId(id) })
		refused(err)
		m.vals["call-id"] = []string{id}
	case "GetCSeq().SetSequenceNumber":
		if !m.has("cseq") {
			return false
		}
		n := t.Intn(1 << 31)
		a.lib(a.last, func() { err = s.GetCSeq().SetSequenceNumber(n) })
		refused(err)
		v := m.vals["cseq"][0]
		m.vals["cseq"] = []string{fmt.Sprint(n) + v[strings.IndexByte(v, ' '):]}
	case "GetMaxForwards().SetMaxForwards":
		if !m.has("max-forwards") {
			return false
		}
		n := t.Intn(256)
		a.lib(a.last, func() { err = s.GetMaxForwards().SetMaxForwards(n) })
		refused(err)
		m.vals["max-forwards"] = []string{fmt.Sprint(n)}
	case "DecrementMaxForwards":
		if !m.has("max-forwards") || m.vals["max-forwards"][0] == "0" {
			return false
		}
		n := 0
		a.lib(a.last, func() {
			n = s.GetMaxForwards().GetMaxForwards()
			err = s.GetMaxForwards().DecrementMaxForwards()
		})
		refused(err)
		m.vals["max-forwards"] = []string{fmt.Sprint(n - 1)}
	case "GetExpires().SetExpires":
		if !m.has("expires") {
			return false
		}
		n := t.Intn(1 << 31)
		a.lib(a.last, func() { err = s.GetExpires().SetExpires(n) })
		refused(err)
		m.vals["expires"] = []string{fmt.Sprint(n)}
	case "GetViaHeaders().PushFront":
		if !m.has("via") {
			return false
		}
		v := g.via()
		h, vals := one("Via", v.tmpl())
		a.lib(a.last, func() { s.GetViaHeaders().PushFront(h) })
		m.add("via", vals, true)
	case "GetViaHeaders().Remove":
		if len(m.vals["via"]) < 2 {
			return false
		}
		a.lib(a.last, func() {
			l := s.GetViaHeaders()
			l.Remove(l.Front())
		})
		m.vals["via"] = append([]string(nil), m.vals["via"][1:]...)
	case "GetRouteHeaders().PushBack":
		if !m.has("route") {
			return false
		}
		h, vals := one("Route", g.route().tmpl)
		a.lib(a.last, func() { s.GetRouteHeaders().PushBack(h) })
		m.add("route", vals, false)
	case "GetContactHeaders().PushFront":
		if !m.has("contact") || m.vals["contact"][0] == "*" {
			return false
		}
		h, vals := one("Contact", g.addrp(func() string { return g.genericParams(1, "q", "expires") }).tmpl)
		a.lib(a.last, func() { s.GetContactHeaders().PushFront(h) })
		m.add("contact", vals, true)
	case "GetTopmostVia().SetBranch":
		if !m.has("via") {
			return false
		}
		b := cookie + g.uniq("w")
		text := ""
		a.lib(a.last, func() {
			v := s.GetTopmostVia()
			text = v.String()
			err = v.SetBranch(b)
		})
		refused(err)
		// the rest of it is as it was
		_, was := valuesOf(text)
		if len(was) != 1 || was[0] != m.vals["via"][0] {
			return true // check says so
		}
		m.vals["via"] = append([]string{setbranch(was[0], b)}, m.vals["via"][1:]...)
	}
	return true
}

// setbranch sets the branch of a Via in normal form.
func setbranch(v, branch string) string {
	parts := split(v, ';')
	out := []string{"branch=" + branch}
	for _, p := range parts[1:] {
		if p != "" && !strings.HasPrefix(p, "branch=") {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return parts[0] + ";" + strings.Join(out, ";")
}

// replaced: the header takes the place of the first of its kind or, as here,
// stands last; the interface allows for both.
func (a *storeAgent) replaced(n string, vals []string) {
	m := a.m
	if !m.has(n) {
		m.add(n, vals, false)
		return
	}
	m.vals[n] = append([]string(nil), vals...)
	l := clLast(a.libNames())
	if k := len(l) - 1; k > 0 && l[k] == "content-length" {
		l = l[:k]
	}
	if len(l) > 0 && l[len(l)-1] == n {
		m.remove(n)
		m.add(n, vals, false)
	}
}

func (a *storeAgent) libNames() []string {
	var out []string
	a.lib("GetHeaderNames", func() {
		for e := a.s.GetHeaderNames().Front(); e != nil; e = e.Next() {
			out = append(out, strings.ToLower(fmt.Sprint(e.Value)))
		}
	})
	return out
}

// clLast puts Content-Length, whose place does not matter, last.
func clLast(l []string) (out []string) {
	cl := 0
	for _, n := range l {
		if n == "content-length" {
			cl++
		} else {
			out = append(out, n)
		}
	}
	for ; cl > 0; cl-- {
		out = append(out, "content-length")
	}
	return
}

var uriInNormal = regexp.MustCompile("\\]<(sips?|tel|http|im|mailto|urn|cid|pres|news):")

// settag sets the tag of an address in normal form "[..]<..>params".
func settag(v, tag string) string {
	// the parameters follow the URI, which is in brackets
	end := -1
	if k := uriInNormal.FindStringIndex(v); k != nil {
		end = k[1] + strings.IndexByte(v[k[1]:], '>')
	}
	var out []string
	for _, p := range split(v[end+1:], ';') {
		if p != "" && !strings.HasPrefix(p, "tag=") {
			out = append(out, p)
		}
	}
	out = append(out, "tag="+tag)
	sort.Strings(out)
	return v[:end+1] + strings.Join(out, ";")
}

func full(n string) string {
	for _, k := range otherKinds {
		if strings.ToLower(k) == n {
			return k
		}
	}
	return n
}

// check compares every way of reading the message with the model.
func (a *storeAgent) check() {
	c, s, m := a.c, a.s, a.m
	fail := func(class, format string, args ...interface{}) {
		c.Fail("store:"+class, "%s, after %s: %s\n message %q", a.who, a.last, fmt.Sprintf(format, args...), encodeMsg(c, a.msg))
	}
	l := clLast(a.libNames())
	m.names = clLast(m.names)
	if fmt.Sprint(l) != fmt.Sprint(m.names) {
		fail("names", "GetHeaderNames says %v, want %v", l, m.names)
	}
	names := append([]string(nil), m.names...)
	for _, n := range []string{"via", "route", "contact", "subject", "warning", "from", "x-none", "expires", "record-route"} {
		if !m.has(n) {
			names = append(names, n)
		}
	}
	for _, n := range names {
		want := m.vals[n]
		q := randcase(c, full(n))
		if n == "content-length" {
			want = nil
		}
		var has, isnil bool
		var first, all string
		var count, clen int
		a.lib("reading headers", func() {
			has = s.HasHeader(q)
			h := s.GetHeader(q)
			isnil = h == nil || reflect.ValueOf(h).IsNil()
			if !isnil {
				first = h.String()
			}
			ls := s.GetHeaders(q)
			if ls == nil {
				count = -1
				return
			}
			for e := ls.Front(); e != nil; e = e.Next() {
				all += e.Value.(header.Header).String()
				count++
			}
			if gl := s.GetHeaderList(q); gl == nil {
				clen = 0
			} else {
				clen = gl.Len()
			}
		})
		if count < 0 {
			fail("nil list", "GetHeaders(%s) is nil", q)
		}
		if has != m.has(n) || isnil == m.has(n) || (count > 0) != m.has(n) || clen != count {
			fail("presence", "%s: HasHeader %v, GetHeader nil %v, GetHeaders has %d, GetHeaderList %d; want %d values %q", q, has, isnil, count, clen, len(m.vals[n]), m.vals[n])
		}
		if want == nil {
			continue
		}
		_, got := valuesOf(all)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			fail("values:"+n, "GetHeaders(%s) holds %q, want %q", q, got, want)
		}
		_, got = valuesOf(first)
		if len(got) == 0 || got[0] != want[0] {
			fail("first:"+n, "GetHeader(%s) is %q, want %q", q, got, want[0])
		}
	}
	// the typed accessors
	a.lib("typed accessors", func() {
		see := func(what, n string, isnil bool, h interface{}) {
			if isnil != !m.has(n) {
				fail("typed:"+n, "%s nil: %v, want %q", what, isnil, m.vals[n])
			}
			if isnil {
				return
			}
			_, got := valuesOf(fmt.Sprint(h))
			if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", m.vals[n]) {
				fail("typed:"+n, "%s is %q, want %q", what, got, m.vals[n])
			}
		}
		nilp := func(h interface{}) bool { return h == nil || reflect.ValueOf(h).IsNil() }
		f := s.GetFrom()
		see("GetFrom", "from", nilp(f), f)
		to := s.GetTo()
		see("GetTo", "to", nilp(to), to)
		cs := s.GetCSeq()
		see("GetCSeq", "cseq", nilp(cs), cs)
		ci := s.GetCallId()
		see("GetCallId", "call-id", nilp(ci), ci)
		mf := s.GetMaxForwards()
		see("GetMaxForwards", "max-forwards", nilp(mf), mf)
		ex := s.GetExpires()
		see("GetExpires", "expires", nilp(ex), ex)
		vl := s.GetViaHeaders()
		see("GetViaHeaders", "via", nilp(vl), vl)
		rl := s.GetRouteHeaders()
		see("GetRouteHeaders", "route", nilp(rl), rl)
		rr := s.GetRecordRouteHeaders()
		see("GetRecordRouteHeaders", "record-route", nilp(rr), rr)
		cl := s.GetContactHeaders()
		see("GetContactHeaders", "contact", nilp(cl), cl)
		el := s.GetErrorInfoHeaders()
		see("GetErrorInfoHeaders", "error-info", nilp(el), el)
		me := s.GetMinExpires()
		see("GetMinExpires", "min-expires", nilp(me), me)
		or := s.GetOrganizationHeader()
		see("GetOrganizationHeader", "organization", nilp(or), or)
		pr := s.GetPriorityHeader()
		see("GetPriorityHeader", "priority", nilp(pr), pr)
		ct := s.GetContentTypeHeader()
		see("GetContentTypeHeader", "content-type", nilp(ct), ct)
		cd := s.GetContentDisposition()
		see("GetContentDisposition", "content-disposition", nilp(cd), cd)
		if v := s.GetTopmostVia(); (v == nil) != !m.has("via") {
			fail("typed:via", "GetTopmostVia nil: %v", v == nil)
		} else if v != nil {
			if _, got := valuesOf(v.String()); len(got) != 1 || got[0] != m.vals["via"][0] {
				fail("typed:via", "GetTopmostVia is %q, want %q", got, m.vals["via"][0])
			}
		}
		if len(m.vals["call-id"]) > 0 && s.GetCallIdentifier() != m.vals["call-id"][0] {
			fail("typed:call-id", "GetCallIdentifier is %q", s.GetCallIdentifier())
		}
		if s.GetContent() != m.body {
			fail("body", "GetContent is %q, want %q", s.GetContent(), m.body)
		}
		if s.HasContent() != (m.body != "") {
			fail("body", "HasContent is %v with the body %q", s.HasContent(), m.body)
		}
		var un []string
		for e := s.GetUnrecognizedHeaders().Front(); e != nil; e = e.Next() {
			un = append(un, fmt.Sprint(e.Value))
		}
		if fmt.Sprintf("%q", un) != fmt.Sprintf("%q", m.unp) {
			fail("unparsed", "GetUnrecognizedHeaders is %q, want %q", un, m.unp)
		}
	})
	// the wire
	enc := encodeMsg(c, a.msg)
	got, err := readMsg(enc)
	if err != nil {
		fail("wire", "unreadable: %v", err)
	}
	want := &nmsg{start: got.start, hdr: map[string][]string{}, body: m.body}
	for n, v := range m.vals {
		want.hdr[n] = noempty(n, v)
	}
	if m.has("content-length") {
		want.hdr["content-length"] = []string{fmt.Sprint(len(m.body))}
	}
	if where, what := got.diff(want); where != "" {
		fail("wire:"+where, "%s", what)
	}
	if m.complete() && len(enc)%2 == 0 { // it is known as what it is
		read, err := parseMsg(c, parser.NewStringMsgParser(), append([]byte(nil), enc...))
		if err != nil || read == nil {
			fail("wire", "rejected: %v", err)
		}
		if x, y := txid(c, a.msg), txid(c, read); x != y {
			fail("id", "GetTransactionId is %q, and %q once it was read", x, y)
		}
		for _, server := range []bool{false, true} {
			if x, y := dialogID(c, a.msg, server), dialogID(c, read, server); x != y {
				fail("id", "GetDialogId(%v) is %q, and %q once it was read", server, x, y)
			}
		}
	}
	// the encoding in pieces
	var lines []string
	a.lib("GetMessageAsEncodedStrings", func() {
		var ls *list.List
		switch x := a.msg.(type) {
		case *message.SIPRequest:
			ls = x.GetMessageAsEncodedStrings()
		case *message.SIPResponse:
			ls = x.GetMessageAsEncodedStrings()
		}
		for e := ls.Front(); e != nil; e = e.Next() {
			lines = append(lines, strings.TrimRight(fmt.Sprint(e.Value), "\r\n"))
		}
	})
	got, err = readMsg([]byte(strings.Join(lines, "\r\n") + "\r\n\r\n"))
	if err != nil {
		fail("pieces", "GetMessageAsEncodedStrings unreadable (%v): %q", err, lines)
	}
	want.body = ""
	want.start = got.start
	for n, v := range got.hdr {
		got.hdr[n] = noempty(n, v)
	}
	if m.has("content-length") {
		want.hdr["content-length"] = got.hdr["content-length"]
	}
	if where, what := got.diff(want); where != "" {
		fail("pieces:"+where, "GetMessageAsEncodedStrings: %s", what)
	}
}

func (m *store) complete() bool {
	for _, n := range []string{"from", "to", "call-id", "cseq", "via", "content-length"} {
		if !m.has(n) {
			return false
		}
	}
	return true
}

func runStore(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	edits := 0
	// open reads a message from bytes, which mean m.
	open := func(who string, b []byte, m *store) *storeAgent {
		a := &storeAgent{c: c, g: g, who: who, p: parser.NewStringMsgParser(), last: "reading it"}
		msg, err := parseMsg(c, parser.NewStringMsgParser(), b)
		if err != nil || msg == nil {
			c.Fail("rejected", "%s: a valid message is rejected (%v): %q", who, err, b)
		}
		a.msg, a.s, a.m = msg, sipm(msg), m
		// the order of the headers is the reader's
		m.names = orderOf(b)
		m.unp = nil
		a.check()
		return a
	}
	work := func(a *storeAgent, n int) *storeAgent {
		jb, jm := encodeMsg(c, a.msg), a.m.wire()
		valid := a.m.complete()
		for ; n > 0; n-- {
			if valid && t.Chance(6) {
				c.Fault("crash")
				a = open(a.who, jb, jm.clone())
				continue
			}
			a.step()
			edits++
			if edits >= 3 {
				c.Nontriv = true
			}
			a.check()
			if t.Chance(30) && a.m.complete() {
				jb, jm, valid = encodeMsg(c, a.msg), a.m.wire(), true
				c.Probe("journalled")
			}
		}
		return a
	}
	net.Listen("peer", func(d *Dgram) {
		a := open("peer", d.Data, d.Meta.(*store).clone())
		c.Probe("arrived")
		work(a, t.Range(0, 4))
	})
	var m0 *amsg
	if t.Chance(60) {
		m0 = g.request("")
	} else {
		m0 = g.response()
	}
	var a *storeAgent
	if t.Chance(70) {
		b := m0.encode(g.style())
		n := norm(m0)
		m := &store{vals: n.hdr, body: n.body}
		a = open("app", b, m)
	} else { // from nothing
		a = &storeAgent{c: c, g: g, who: "app", p: parser.NewStringMsgParser(), last: "making it"}
		a.m = &store{vals: map[string][]string{"content-length": {"0"}}, names: []string{"content-length"}}
		if m0.request {
			r := message.NewSIPRequest()
			r.SetRequestLine(header.NewRequestLineFromString(mkURI(c, m0.ruri.text), m0.method))
			a.msg = r
		} else {
			r := message.NewSIPResponse()
			r.SetStatusCode(m0.code)
			r.SetReasonPhrase("Reason")
			a.msg = r
		}
		a.s = sipm(a.msg)
		a.check()
		for _, l := range m0.lines() {
			if l.name == "Content-Length" {
				continue
			}
			text := l.name + ": " + canon(l.tmpl) + "\r\n"
			n, vals := valuesOf(text)
			h := a.parse(text)
			a.last = "SetHeader(" + n + ")"
			if n == "via" { // put on top, so these come out in reverse
				for _, e := range elements(h) {
					e := e
					a.lib("AddHeader", func() { a.s.AddHeader(e) })
				}
				a.m.add(n, vals, true)
			} else {
				a.lib("AddHeader", func() { a.s.AddHeader(h) })
				a.m.add(n, vals, false)
			}
		}
		if len(m0.body) > 0 {
			a.lib("SetMessageContentFromByte", func() { a.s.SetMessageContentFromByte(append([]byte(nil), m0.body...)) })
			a.m.body = string(m0.body)
			a.m.vals["content-length"] = []string{fmt.Sprint(len(m0.body))}
		}
		a.check()
		c.Probe("built from nothing")
	}
	for k := t.Range(1, 3); k > 0; k-- {
		a = work(a, c.Many(1, 8, 80))
		if a.m.complete() {
			b := encodeMsg(c, a.msg)
			m := a.m.wire()
			net.At(time.Duration(k)*20*time.Millisecond, func() { net.Send("app", "peer", b, m) })
		}
	}
	net.Run()
}

// orderOf lists the header names of a text in order of appearance.
func orderOf(b []byte) []string {
	var out []string
	seen := map[string]bool{}
	head := strings.SplitN(string(b), "\r\n\r\n", 2)[0]
	for i, l := range strings.Split(head, "\r\n") {
		if i == 0 || l == "" || l[0] == ' ' || l[0] == '\t' {
			continue
		}
		k := strings.IndexByte(l, ':')
		if k < 0 {
			continue
		}
		n := strings.ToLower(trim(l[:k]))
		if f := fullOf[n]; f != "" {
			n = f
		}
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	return out
}
