package props

import (
	"bytes"
	"container/list"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	Register(&Prop{
		ID: "C10", Title: "Nothing derived from a message changes the message",
		Quick: 9000, Thorough: 1000000,
		Rule: "one run has a client and a server keep the messages they sent and received, derive responses, ACK, CANCEL, BYE and other requests and header clones from them, edit those in every way the API offers and retransmit the kept ones over a lossy, duplicating, reordering network; non-trivial when a derived object was edited or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)", "transaction timers (harness)"},
		Run:  runStored,
	})
	Register(&Prop{
		ID: "C11", Title: "Responses, ACK, CANCEL and BYE made from a message carry what the RFC asks for",
		Quick: 20000, Thorough: 1000000,
		Rule: "one run has a client send 1-3 requests to a server that answers with messages made from what it received; the client makes ACK, CANCEL, BYE and further requests from its own requests and from the responses, over a lossy, duplicating, reordering network; non-trivial when a derived message arrived or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)", "user agents (harness)"},
		Run:  runDerived,
	})
}

// ---- C10

type held struct {
	label  string
	obj    interface{}
	last   string
	edited bool
}

type shelf struct {
	c     *Ctx
	items []*held
}

// snap is everything observable about a kept object.
func (s *shelf) snap(o interface{}) (out string, v *Violation) {
	v = s.c.Try("reading a kept object", 0, func() {
		switch x := o.(type) {
		case message.Message:
			_ = x.String() // fills in an empty method
			out = string(bytesOf(x)) + "\x00" + sipm(x).GetTransactionId() + "\x00" + sipm(x).GetContent()
			for e := sipm(x).GetHeaderNames().Front(); e != nil; e = e.Next() {
				out += fmt.Sprint("\x00", e.Value)
			}
		case header.Header:
			out = x.String()
		case fmt.Stringer:
			out = x.String()
		}
	})
	return
}

func (s *shelf) put(label string, o interface{}, edited bool) *held {
	h := &held{label: label, obj: o, edited: edited}
	out, v := s.snap(o)
	if v != nil {
		if edited {
			return h
		}
		panic(stop{*v})
	}
	h.last = out
	if len(s.items) < 14 {
		s.items = append(s.items, h)
	} else {
		s.items[s.c.T.Intn(len(s.items))] = h
	}
	return h
}

// check looks at every kept object but the one just edited.
func (s *shelf) check(after string, edited *held) {
	for i := 0; i < len(s.items); i++ {
		h := s.items[i]
		out, v := s.snap(h.obj)
		if h == edited {
			if v != nil { // edited beyond use
				s.items = append(s.items[:i], s.items[i+1:]...)
				i--
				continue
			}
			h.last = out
			h.edited = true
			continue
		}
		if v != nil {
			s.c.Fail("kept:broken", "after %s, reading the untouched %s fails: %s", after, h.label, v.Msg)
		}
		if out != h.last {
			s.c.Fail("kept:changed", "%s changed the untouched %s\n from %q\n to   %q", after, h.label, h.last, out)
		}
	}
}

// reach lists the library's objects that the accessors of o lead to.
func reach(o interface{}, depth int, seen map[interface{}]bool, out *[]interface{}) {
	if o == nil || len(*out) > 60 {
		return
	}
	rv := reflect.ValueOf(o)
	if rv.Kind() != reflect.Ptr || rv.IsNil() || seen[o] {
		return
	}
	seen[o] = true
	if l, ok := o.(header.Lister); ok {
		for e := l.Front(); e != nil; e = e.Next() {
			reach(e.Value, depth, seen, out)
		}
	}
	if !strings.Contains(rv.Type().Elem().PkgPath(), "gosips") {
		return
	}
	*out = append(*out, o)
	if depth == 0 {
		return
	}
	rt := rv.Type()
	for i := 0; i < rt.NumMethod(); i++ {
		m := rt.Method(i)
		if !strings.HasPrefix(m.Name, "Get") || m.Type.NumIn() != 1 {
			continue
		}
		for _, r := range rv.Method(i).Call(nil) {
			if r.CanInterface() && (r.Kind() == reflect.Ptr || r.Kind() == reflect.Interface) {
				reach(r.Interface(), depth-1, seen, out)
			}
		}
	}
}

var editPrefixes = []string{"Set", "Remove", "Add", "Attach", "Decrement", "Push", "Clear", "Delete", "Concatenate", "Put"}

// mutate calls 1-3 editing methods somewhere within o.
func mutate(c *Ctx, g *G, o interface{}) (what string) {
	t := c.T
	var objs []interface{}
	c.Try("reaching", 0, func() {
		reach(o, 3, map[interface{}]bool{}, &objs)
		if s, ok := o.(message.Message); ok { // what the plain getters do not reach
			l := sipm(s).GetHeaderNames()
			for e := l.Front(); e != nil; e = e.Next() {
				seen := map[interface{}]bool{}
				for _, x := range objs {
					seen[x] = true
				}
				n := fmt.Sprint(e.Value)
				reach(sipm(s).GetHeader(n), 2, seen, &objs)
				reach(sipm(s).GetHeaders(n), 2, seen, &objs)
			}
		}
	})
	if len(objs) == 0 {
		return ""
	}
	for k := t.Range(1, 3); k > 0; k-- {
		x := objs[t.Intn(len(objs))]
		rv := reflect.ValueOf(x)
		rt := rv.Type()
		var ms []int
		for i := 0; i < rt.NumMethod(); i++ {
			for _, p := range editPrefixes {
				if strings.HasPrefix(rt.Method(i).Name, p) {
					ms = append(ms, i)
					break
				}
			}
		}
		if len(ms) == 0 {
			continue
		}
		i := ms[t.Intn(len(ms))]
		m := rt.Method(i)
		var args []reflect.Value
		for a := 1; a < m.Type.NumIn(); a++ {
			v := freshArg(c, g, x, m.Type.In(a))
			if !v.IsValid() {
				break
			}
			args = append(args, v)
		}
		if len(args) != m.Type.NumIn()-1 || m.Type.IsVariadic() {
			continue
		}
		if v := c.Try("editing", 400000, func() { rv.Method(i).Call(args) }); v != nil {
			c.Probe("edit refused by a panic")
		}
		what += fmt.Sprintf(" %v.%s", rt, m.Name)
	}
	return
}

// freshArg makes an argument nobody else holds.
func freshArg(c *Ctx, g *G, x interface{}, ty reflect.Type) reflect.Value {
	t := c.T
	switch ty.Kind() {
	case reflect.String:
		s := t.Of("tag", "branch", "ttl", "Via", "Route", "Contact", "x", "h.example", "", "4.5.6.7", "sip", "UDP")
		if t.Bool() {
			s = g.uniq("e")
		}
		return reflect.ValueOf(s).Convert(ty)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint16:
		return reflect.ValueOf(int(t.Log(16))).Convert(ty)
	case reflect.Float32, reflect.Float64:
		return reflect.ValueOf(float64(t.Intn(100)) / 100).Convert(ty)
	case reflect.Bool:
		return reflect.ValueOf(t.Bool())
	case reflect.Slice:
		if ty.Elem().Kind() == reflect.Uint8 {
			return reflect.ValueOf(t.Bytes(t.Intn(20)))
		}
	case reflect.Ptr, reflect.Interface:
		if ty == reflect.TypeOf((*list.Element)(nil)) {
			if l, ok := x.(header.Lister); ok && l.Front() != nil {
				return reflect.ValueOf(l.Front())
			}
			return reflect.Value{}
		}
		cands := []func() interface{}{
			func() interface{} {
				return mkVia(c, avia{transport: "UDP", host: "e.example", port: 7, branch: g.uniq("e")})
			},
			func() interface{} { return header.NewCSeq(9, "EDIT") },
			func() interface{} { return header.NewContentLengthFromInt(3) },
			func() interface{} { return mkAddr(c, "sip:"+g.uniq("e")+"@e.example") },
			func() interface{} { return mkURI(c, "sip:"+g.uniq("e")+"@e.example;p=q") },
			func() interface{} { return header.NewContentTypeFromString("edit", "ed") },
			func() interface{} { return header.NewRouteFromAddress(mkAddr(c, "sip:e.example;lr")) },
			func() interface{} { return header.NewRecordRouteFromAddress(mkAddr(c, "sip:e.example;lr")) },
			func() interface{} { return header.NewRequestLineFromString(mkURI(c, "sip:e.example"), "EDIT") },
		}
		for _, f := range cands {
			if v := reflect.ValueOf(f()); v.Type().AssignableTo(ty) && ty.NumMethod() > 0 || v.Type() == ty {
				return v
			}
		}
	}
	return reflect.Value{}
}

// derive makes something from a kept message.
func derive(c *Ctx, g *G, h *held, code int) (string, message.Message) {
	t := c.T
	lib := c.Lib
	if h.edited { // edits may leave nothing sensible
		lib = func(what string, bound int64, f func()) { c.Try(what, bound, f) }
	}
	var out message.Message
	what := ""
	switch x := h.obj.(type) {
	case *message.SIPRequest:
		k := t.Pick(4, 2, 2, 3, 1, 2, 1)
		what = []string{"CreateResponse", "CreateResponse2", "CreateCancelRequest", "CreateAckRequest", "CreateACKRequest", "CreateBYERequest", "CreateSIPRequest"}[k]
		var to *header.To
		if k == 3 && t.Bool() {
			c.Lib("making a To", 0, func() {
				to = header.NewTo()
				to.SetAddress(mkAddr(c, "sip:callee@example.com"))
				to.SetTag(g.uniq("at"))
			})
		}
		sw := t.Bool()
		lib(what, 0, func() {
			switch k {
			case 0:
				out = x.CreateResponse(code)
			case 1:
				out = x.CreateResponse2(code, "Reason")
			case 2:
				out = x.CreateCancelRequest()
			case 3:
				out = x.CreateAckRequest(to)
			case 4:
				out = x.CreateACKRequest()
			case 5:
				out = x.CreateBYERequest(sw)
			case 6:
				out = x.CreateSIPRequest(header.NewRequestLineFromString(mkURI(c, "sip:next@example.net"), "OPTIONS"), sw)
			}
		})
	case *message.SIPResponse:
		what = "CreateRequest"
		me := t.Of("ACK", "BYE", "CANCEL", "INVITE", "PRACK")
		via := mkVia(c, avia{transport: "UDP", host: "client.example", branch: cookie + g.uniq("d")})
		lib(what, 0, func() {
			out = x.CreateRequest(mkURI(c, "sip:target@example.net"), via, header.NewCSeq(1+t.Intn(50), me))
		})
	}
	return what, out
}

func runStored(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	s := &shelf{c: c}
	sent := map[*held][]byte{} // what first went over the wire
	var retrans func(h *held, from, to string)
	retrans = func(h *held, from, to string) {
		b := encodeMsg(c, h.obj.(message.Message))
		if first, ok := sent[h]; ok && !bytes.Equal(first, b) {
			c.Fail("retransmission differs", "the %s went out as\n      %q\n first, then as %q", h.label, first, b)
		}
		sent[h] = append([]byte(nil), b...)
		net.Send(from, to, b, nil)
		for i := range b { // the transport may do what it likes with its buffer
			b[i] = 0xa5
		}
		s.check("sending the "+h.label, nil)
	}
	busy := func(who string) { // the application goes on working
		for k := t.Range(1, 4); k > 0; k-- {
			if len(s.items) == 0 {
				return
			}
			h := s.items[t.Intn(len(s.items))]
			switch t.Pick(4, 5, 3, 1) {
			case 0:
				what, m := derive(c, g, h, t.Of1(100, 180, 200, 302, 404, 500, 603))
				if m == nil {
					continue
				}
				s.check(what+" on the "+h.label, nil)
				n := s.put(what+" of "+h.label, m, h.edited)
				if len(n.label) > 200 {
					n.label = n.label[:200]
				}
				c.Probe("derived")
			case 1:
				if _, ok := sent[h]; ok && t.Chance(80) {
					continue // kept for retransmission
				}
				delete(sent, h)
				what := mutate(c, g, h.obj)
				if what == "" {
					continue
				}
				c.Nontriv = true
				c.Probe("edited")
				c.Log("%s edits %s:%s", who, h.label, what)
				s.check("editing the "+h.label+" ("+strings.TrimSpace(what)+")", h)
			case 2: // a header of its own
				m, ok := h.obj.(message.Message)
				if !ok {
					continue
				}
				var names []string
				c.Lib("GetHeaderNames", 0, func() {
					for e := sipm(m).GetHeaderNames().Front(); e != nil; e = e.Next() {
						names = append(names, fmt.Sprint(e.Value))
					}
				})
				if len(names) == 0 {
					continue
				}
				n := names[t.Intn(len(names))]
				var cl interface{}
				whole := t.Bool()
				v := c.Try("Clone", 0, func() {
					var x header.Header
					if l, ok := sipm(m).GetHeaders(n).(header.Header); ok && whole {
						x = l
					} else {
						x = sipm(m).GetHeader(n)
					}
					if x != nil {
						cl = x.Clone()
					}
				})
				if v != nil && sent[h] != nil {
					panic(stop{*v})
				}
				if v != nil || cl == nil {
					continue
				}
				s.check("cloning the "+n+" of the "+h.label, nil)
				hh := s.put("clone of the "+n+" of the "+h.label, cl, h.edited)
				c.Probe("header cloned")
				if x, ok := m.(message.Message); ok && t.Chance(30) {
					var hd header.Header
					c.Try("GetHeader", 0, func() { hd = sipm(x).GetHeader(n) })
					if hd != nil && !whole && hd.String() != cl.(header.Header).String() {
						c.Fail("clone differs", "the clone of %q is %q", hd, hh.last)
					}
				}
			case 3: // put a clone to use in another message
				m, ok := h.obj.(message.Message)
				if !ok || sent[h] != nil {
					continue
				}
				var pick *held
				for i, x := range s.items {
					if _, ok := x.obj.(header.Header); ok && (pick == nil || t.Bool()) {
						if _, isHeader := x.obj.(*header.RequestLine); isHeader {
							continue
						}
						pick = s.items[i]
					}
				}
				if pick == nil {
					continue
				}
				for i, x := range s.items {
					if x == pick {
						s.items = append(s.items[:i:i], s.items[i+1:]...)
						break
					}
				}
				set := t.Bool()
				c.Try("SetHeader", 0, func() {
					if set {
						sipm(m).SetHeader(pick.obj.(header.Header))
					} else {
						sipm(m).AddHeader(pick.obj.(header.Header))
					}
				})
				c.Probe("clone used elsewhere")
				s.check("putting a "+pick.label+" into the "+h.label, h)
			}
		}
	}
	servers := map[string]*parser.StringMsgParser{}
	parse := func(me string, d *Dgram) message.Message {
		if servers[me] == nil {
			servers[me] = parser.NewStringMsgParser()
		}
		keep := append([]byte(nil), d.Data...)
		m, err := parseMsg(c, servers[me], d.Data)
		if err != nil || m == nil {
			c.Probe("rejected")
			return nil
		}
		s.check(me+" parsing "+fmt.Sprintf("%.60q", keep), nil)
		for i := range d.Data {
			d.Data[i] = 0x5a
		}
		s.check(me+" reusing its receive buffer", nil)
		return m
	}
	answers := map[string]*held{} // the server's transactions
	net.Listen("uas", func(d *Dgram) {
		key := string(d.Data)
		if r := answers[key]; r != nil { // a retransmission of the request
			c.Probe("request retransmitted, response replayed")
			retrans(r, "uas", "uac")
			busy("uas")
			return
		}
		m := parse("uas", d)
		req, ok := m.(*message.SIPRequest)
		if !ok {
			return
		}
		h := s.put("request at the server", req, false)
		busy("uas")
		var resp *message.SIPResponse
		tag := g.uniq("st")
		c.Lib("CreateResponse", 0, func() {
			resp = req.CreateResponse(t.Of1(180, 200, 404))
		})
		s.check("CreateResponse on the "+h.label, nil)
		r := s.put("response", resp, false)
		c.Lib("SetToTag", 0, func() { resp.SetToTag(tag) })
		s.check("setting the To tag of the response", r)
		answers[key] = r
		retrans(r, "uas", "uac")
		busy("uas")
	})
	got := 0
	net.Listen("uac", func(d *Dgram) {
		m := parse("uac", d)
		resp, ok := m.(*message.SIPResponse)
		if !ok {
			return
		}
		got++
		s.put("response at the client", resp, false)
		busy("uac")
	})
	for k := t.Range(1, 2); k > 0; k-- {
		m := g.request("")
		b := m.encode(g.style())
		own, err := parseMsg(c, parser.NewStringMsgParser(), b)
		if err != nil || own == nil {
			continue // C06
		}
		h := s.put("request", own, false)
		retrans(h, "uac", "uas")
		for i, at := t.Range(1, 3), 500*time.Millisecond; i > 0; i, at = i-1, 2*at {
			net.At(at, func() {
				busy("uac")
				if sent[h] != nil {
					c.Probe("request retransmitted")
					retrans(h, "uac", "uas")
				}
			})
		}
	}
	busy("uac")
	net.Run()
	s.check("the end of the run", nil)
}

// ---- C11

type derivedMeta struct {
	want    *nmsg // what the message means
	decided []string
	absent  []string
	what    string
	m       *amsg // of requests that start a transaction
	own     *message.SIPRequest
	r       *amsg // of responses
}

var identity = []string{"from", "to", "call-id", "cseq", "via"}
var responseOnly = []string{"error-info", "proxy-authenticate", "server", "unsupported", "retry-after", "warning", "www-authenticate"}

// compareDerived checks the decided part of a derived message.
func compareDerived(c *Ctx, d *derivedMeta, where string, enc, origin []byte) {
	got, err := readMsg(enc)
	if err != nil {
		c.Fail("derived:unreadable", "%s: the %s is not a SIP message (%v): %q (made from %q)", where, d.what, err, enc, origin)
	}
	if got.start != d.want.start {
		c.Fail("derived:"+d.what+":start line", "%s: the %s starts %q, want %q\n encoded %q\n made from %q", where, d.what, got.start, d.want.start, enc, origin)
	}
	for _, n := range d.decided {
		if fmt.Sprintf("%q", got.hdr[n]) != fmt.Sprintf("%q", d.want.hdr[n]) {
			c.Fail("derived:"+d.what+":"+n, "%s: the %s has %s %q, want %q\n encoded %q\n made from %q", where, d.what, n, got.hdr[n], d.want.hdr[n], enc, origin)
		}
	}
	for _, n := range d.absent {
		if len(got.hdr[n]) != 0 {
			c.Fail("derived:"+d.what+":"+n, "%s: the %s has %s %q\n encoded %q\n made from %q", where, d.what, n, got.hdr[n], enc, origin)
		}
	}
	if cl := got.hdr["content-length"]; got.body != "" || len(cl) > 1 || len(cl) == 1 && cl[0] != "0" {
		c.Fail("derived:"+d.what+":body", "%s: the %s has the body %q and Content-Length %q, want none\n encoded %q\n made from %q", where, d.what, got.body, cl, enc, origin)
	}
}

func (a *nmsg) copy() *nmsg {
	n := &nmsg{start: a.start, hdr: map[string][]string{}}
	for k, v := range a.hdr { // order does not matter here
		n.hdr[k] = append([]string(nil), v...)
	}
	return n
}

// dropParam removes a parameter from a Via in normal form.
func dropParam(v, name string) string {
	j := strings.IndexByte(v, ';') + 1
	var out []string
	for _, p := range split(v[j:], ';') {
		if p != name && !strings.HasPrefix(p, name+"=") && p != "" {
			out = append(out, p)
		}
	}
	return v[:j] + strings.Join(out, ";")
}

// addParam sets one.
func addParam(v, name, val string) string {
	v = dropParam(v, name)
	j := strings.IndexByte(v, ';') + 1
	return v[:j] + nparams(v[j:]+";"+name+"="+val, ';')
}

// retag is the address with another tag, or none.
func retag(a aaddr, tag string) string {
	s := a.tmpl
	if a.tag != "" {
		k := strings.TrimSuffix(s, "\x01;\x01tag\x01=\x01"+a.tag)
		if k == s {
			Harness("no tag at the end of %q", s)
		}
		s = k
	}
	if tag != "" {
		s += ";tag=" + tag
	}
	return naddr(canon(s))
}

func norm(m *amsg) *nmsg {
	n, err := readMsg(m.canonText())
	if err != nil {
		Harness("own text unreadable: %v", err)
	}
	return n
}

func runDerived(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	node := map[string]*parser.StringMsgParser{}
	receive := func(me string, d *Dgram) (message.Message, []byte) {
		if t.Chance(5) {
			c.Fault("node restart")
			node[me] = nil
		}
		if node[me] == nil {
			node[me] = parser.NewStringMsgParser()
		}
		keep := append([]byte(nil), d.Data...)
		msg, err := parseMsg(c, node[me], d.Data)
		if err != nil || msg == nil {
			c.Fail("rejected", "%s rejects a %s (%v): %q", me, d.Meta.(*derivedMeta).what, err, keep)
		}
		return msg, keep
	}
	// send checks a derived message as it leaves; the receiver checks it again.
	send := func(from, to string, msg message.Message, d *derivedMeta, origin []byte) {
		enc := encodeMsg(c, msg)
		compareDerived(c, d, from+" sends", enc, origin)
		net.Send(from, to, enc, d)
	}
	arrived := func(me string, d *Dgram) (*derivedMeta, message.Message, []byte) {
		dm := d.Meta.(*derivedMeta)
		msg, keep := receive(me, d)
		if dm.want != nil {
			c.Nontriv = true
			c.Probe(dm.what + " arrived")
			compareDerived(c, dm, me+" receives", encodeMsg(c, msg), keep)
		}
		return dm, msg, keep
	}

	// bye makes a request for the dialog from a request of it.
	bye := func(me, peer string, req *message.SIPRequest, m *amsg, r *amsg, keep []byte) {
		what := t.Of("BYE", "CreateSIPRequest", "CreateACKRequest")
		swap := (me == "uas") != t.Chance(20)
		method := "BYE"
		var out *message.SIPRequest
		want := norm(m)
		want.start = "BYE " + nuri(m.ruri.text) + " SIP/2.0"
		switch what {
		case "BYE":
			c.Lib("CreateBYERequest", 0, func() { out = req.CreateBYERequest(swap) })
		case "CreateSIPRequest":
			method = t.Of("INFO", "UPDATE", "BYE", "REFER")
			u := g.sipuri(true, false)
			want.start = method + " " + nuri(u.text) + " SIP/2.0"
			rl := header.NewRequestLineFromString(mkURI(c, u.text), method)
			c.Lib("CreateSIPRequest", 0, func() { out = req.CreateSIPRequest(rl, swap) })
		case "CreateACKRequest":
			swap, method = false, "ACK"
			want.start = "ACK " + nuri(m.ruri.text) + " SIP/2.0"
			c.Lib("CreateACKRequest", 0, func() { out = req.CreateACKRequest() })
		}
		from, to := m.from, m.to
		if swap {
			from, to = to, from
		}
		want.hdr["from"], want.hdr["to"] = []string{retag(from, "")}, []string{retag(to, "")}
		want.hdr["via"] = []string{dropParam(want.hdr["via"][0], "branch")}
		want.hdr["cseq"] = []string{fmt.Sprintf("%d %s", m.seq, method)}
		d := &derivedMeta{want: want, what: what, decided: append([]string{"max-forwards"}, identity...),
			absent: append([]string{"contact", "record-route", "content-type"}, responseOnly...)}
		compareDerived(c, d, me+" makes", encodeMsg(c, out), keep)
		if r == nil {
			return
		}
		// what the dialog adds
		ltag, rtag := m.from.tag, r.to.tag
		if swap {
			ltag, rtag = rtag, ltag
		}
		branch := cookie + g.uniq("n")
		seq := 1 + t.Intn(1000000)
		w2 := want.copy()
		c.Lib("setting tags", 0, func() {
			if ltag != "" {
				out.SetFromTag(ltag)
				w2.hdr["from"] = []string{retag(from, ltag)}
			}
			if rtag != "" {
				out.SetToTag(rtag)
				w2.hdr["to"] = []string{retag(to, rtag)}
			}
			if err := out.GetTopmostVia().SetBranch(branch); err != nil {
				c.Fail("branch", "branch %q refused: %v", branch, err)
			}
			out.GetCSeq().SetSequenceNumber(seq)
		})
		w2.hdr["via"] = []string{addParam(want.hdr["via"][0], "branch", branch)}
		w2.hdr["cseq"] = []string{fmt.Sprintf("%d %s", seq, method)}
		d2 := *d
		d2.want = w2
		send(me, peer, out, &d2, keep)
	}

	net.Listen("uas", func(d *Dgram) {
		dm, msg, keep := arrived("uas", d)
		if dm.m == nil {
			return // a follow-up
		}
		m := dm.m
		req, ok := msg.(*message.SIPRequest)
		if !ok {
			c.Fail("rejected", "a request is not read as one: %q", keep)
		}
		for k := t.Range(1, 2); k > 0; k-- {
			code := t.Of1(100, 180, 183, 200, 202, 301, 302, 400, 401, 404, 407, 420, 481, 486, 487, 500, 503, 600, 603)
			reason := t.Of("Reason", "Who knows? (x=\"y\")", "OK")
			var resp *message.SIPResponse
			def := t.Chance(30)
			c.Lib("CreateResponse", 0, func() {
				if def {
					resp = req.CreateResponse(code)
				} else {
					resp = req.CreateResponse2(code, reason)
				}
			})
			want := norm(m)
			if def { // the phrase is the library's choice
				c.Lib("GetReasonPhrase", 0, func() { reason = resp.GetReasonPhrase() })
				if reason == "" {
					c.Fail("derived:reason", "the default response %d has no reason phrase", code)
				}
			}
			want.start = fmt.Sprintf("SIP/2.0 %d %s", code, reason)
			da := &derivedMeta{want: want, what: "response", decided: append([]string{"record-route", "timestamp"}, identity...),
				absent: []string{"route", "contact", "content-type", "authorization", "proxy-authorization", "proxy-require", "require", "subject", "priority", "alert-info", "in-reply-to", "expires"}}
			if len(m.rroutes) > 0 {
				c.Probe("response with Record-Route")
			}
			enc := encodeMsg(c, resp)
			compareDerived(c, da, "uas makes", enc, keep)
			r := m.clone()
			r.request, r.routes, r.maxfwd, r.star = false, nil, -1, false
			r.code, r.reason = code, reason
			r.contacts, r.hdrs, r.body, r.ctype = nil, nil, nil, ""
			if r.to.tag == "" && t.Chance(80) {
				tag := g.uniq("st")
				r.to.tag = tag
				r.to.tmpl += "\x01;\x01tag\x01=\x01" + tag
				c.Lib("SetToTag", 0, func() { resp.SetToTag(tag) })
			}
			dr := &derivedMeta{what: "response", r: r, m: m, own: dm.own}
			if t.Bool() {
				dr.want, dr.decided = norm(r), da.decided
				dr.want.hdr["timestamp"] = want.hdr["timestamp"]
				dr.want.start = want.start
				send("uas", "uac", resp, dr, keep)
			} else { // another implementation's response, with all it may hold
				seen := map[string]bool{}
				for k := t.Range(0, 3); k > 0; k-- {
					h := g.other(t.Of("Error-Info", "Proxy-Authenticate", "Server", "Unsupported", "Retry-After", "Warning", "WWW-Authenticate", "Supported", "Date"))
					if !seen[h.name] {
						seen[h.name] = true
						r.hdrs = append(r.hdrs, h)
					}
				}
				if t.Chance(40) {
					r.body, r.ctype = []byte("v=0\r\n"), "application\x01/\x01sdp"
				}
				net.Send("uas", "uac", r.encode(g.style()), dr)
			}
			if t.Chance(40) {
				bye("uas", "uac", req, m, r, keep)
			}
		}
	})

	net.Listen("uac", func(d *Dgram) {
		dm, msg, keep := arrived("uac", d)
		resp, ok := msg.(*message.SIPResponse)
		if !ok || dm.r == nil {
			return
		}
		m, r, own := dm.m, dm.r, dm.own
		for k := t.Range(1, 3); k > 0; k-- {
			switch t.Pick(3, 2, 2, 4) {
			case 0: // ACK
				var to *header.To
				rto := norm(r).hdr["to"]
				if t.Chance(75) {
					to, _ = resp.GetTo().(*header.To)
				} else {
					rto = norm(m).hdr["to"]
				}
				var ack *message.SIPRequest
				c.Lib("CreateAckRequest", 0, func() { ack = own.CreateAckRequest(to) })
				want := norm(m)
				want.start = "ACK " + nuri(m.ruri.text) + " SIP/2.0"
				want.hdr["via"] = want.hdr["via"][:1]
				want.hdr["to"] = rto
				want.hdr["cseq"] = []string{fmt.Sprintf("%d ACK", m.seq)}
				send("uac", "uas", ack, &derivedMeta{want: want, what: "ACK", decided: append([]string{"max-forwards"}, identity...), absent: []string{"content-type"}}, keep)
			case 1: // CANCEL
				var can *message.SIPRequest
				c.Lib("CreateCancelRequest", 0, func() { can = own.CreateCancelRequest() })
				want := norm(m)
				want.start = "CANCEL " + nuri(m.ruri.text) + " SIP/2.0"
				want.hdr["via"] = want.hdr["via"][:1]
				want.hdr["cseq"] = []string{fmt.Sprintf("%d CANCEL", m.seq)}
				send("uac", "uas", can, &derivedMeta{want: want, what: "CANCEL", decided: append([]string{"max-forwards", "route"}, identity...), absent: []string{"content-type", "require", "proxy-require"}}, keep)
			case 2:
				bye("uac", "uas", own, m, r, keep)
			case 3: // from the response
				method := t.Of("ACK", "BYE", "CANCEL", "PRACK", "UPDATE")
				v := g.via()
				v.params = ""
				v.branch = cookie + g.uniq("q")
				u := g.uri(true, false)
				seq := t.Intn(1 << 30)
				want := norm(r)
				want.start = method + " " + nuri(u.text) + " SIP/2.0"
				via := mkVia(c, v)
				vt := nvia(canon(v.tmpl()))
				if (method == "ACK" || method == "CANCEL") && r.vias[0].branch != "" {
					vt = addParam(vt, "branch", r.vias[0].branch)
				}
				want.hdr["via"] = []string{vt}
				want.hdr["cseq"] = []string{fmt.Sprintf("%d %s", seq, method)}
				var out *message.SIPRequest
				c.Lib("CreateRequest", 0, func() { out = resp.CreateRequest(mkURI(c, u.text), via, header.NewCSeq(seq, method)) })
				send("uac", "uas", out, &derivedMeta{want: want, what: "CreateRequest", decided: identity,
					absent: append([]string{"record-route", "content-type"}, responseOnly...)}, keep)
			}
		}
	})

	for k := t.Range(1, 3); k > 0; k-- {
		m := g.request(t.Of("INVITE", "INVITE", "", "SUBSCRIBE"))
		b := m.encode(g.style())
		msg, err := parseMsg(c, parser.NewStringMsgParser(), m.encode(g.style()))
		own, ok := msg.(*message.SIPRequest)
		if err != nil || !ok {
			c.Fail("rejected", "a valid request is rejected (%v): %q", err, b)
		}
		d := &derivedMeta{m: m, own: own, what: "request"}
		for i := t.Range(0, 1); i >= 0; i-- {
			net.At(time.Duration(k*20+i*500)*time.Millisecond, func() { net.Send("uac", "uas", b, d) })
		}
	}
	net.Run()
}
