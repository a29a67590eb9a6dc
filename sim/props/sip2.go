package props

import (
	"bytes"
	"container/list"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// damageSIP changes a datagram the way broken or hostile senders and links do.
func damageSIP(c *Ctx, b, other []byte) ([]byte, string) {
	t := c.T
	if t.Chance(40) {
		return DamageBytes(c, b, other)
	}
	orig := string(b)
	s := orig
	kind := ""
	pos := func(f func(byte) bool) int { // a random place where f holds
		n := 0
		for i := 0; i < len(s); i++ {
			if f(s[i]) {
				n++
			}
		}
		if n == 0 {
			return -1
		}
		k := t.Intn(n)
		for i := 0; i < len(s); i++ {
			if f(s[i]) {
				if k == 0 {
					return i
				}
				k--
			}
		}
		return -1
	}
	lines := func() ([]string, string) {
		i := strings.Index(s, "\r\n\r\n")
		if i < 0 {
			return strings.Split(s, "\r\n"), ""
		}
		return strings.Split(s[:i], "\r\n"), s[i:]
	}
	switch t.Intn(9) {
	case 0:
		kind = "line lost"
		l, rest := lines()
		i := t.Intn(len(l))
		s = strings.Join(append(append([]string(nil), l[:i]...), l[i+1:]...), "\r\n") + rest
	case 1:
		kind = "line repeated"
		l, rest := lines()
		i, j := t.Intn(len(l)), t.Intn(len(l)+1)
		x := append([]string(nil), l[:j]...)
		x = append(x, l[i])
		s = strings.Join(append(x, l[j:]...), "\r\n") + rest
	case 2:
		kind = "number replaced"
		i := pos(func(ch byte) bool { return ch >= '0' && ch <= '9' })
		if i >= 0 {
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			s = s[:i] + t.Of("", "-1", "0", "00000000000000000000001", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "1e9", "0x10", ".5") + s[j:]
		}
	case 3:
		kind = "value emptied"
		l, rest := lines()
		i := t.Intn(len(l))
		if k := strings.IndexByte(l[i], ':'); k >= 0 {
			l[i] = l[i][:k+1] + t.Of("", " ", " ,", " ;", "  \t", " \"", " <", " <>", " *", "=", " (")
		}
		s = strings.Join(l, "\r\n") + rest
	case 4:
		kind = "delimiter lost"
		if i := pos(func(ch byte) bool { return strings.IndexByte("\"<>;,:@=()[]/", ch) >= 0 }); i >= 0 {
			s = s[:i] + s[i+1:]
		}
	case 5:
		kind = "delimiter doubled"
		if i := pos(func(ch byte) bool { return strings.IndexByte("\"<>;,:@=()[]/\r\n ", ch) >= 0 }); i >= 0 {
			s = s[:i] + s[i:i+1] + s[i:]
		}
	case 6:
		kind = "delimiter swapped"
		if i := pos(func(ch byte) bool { return strings.IndexByte("\"<>;,:@=()[]/", ch) >= 0 }); i >= 0 {
			s = s[:i] + t.Of("\"", "<", ">", ";", ",", ":", "@", "=", "(", ")", "[", "]", "/", "\\", "\r\n", "\x00", "%", "?", "&", "*") + s[i+1:]
		}
	case 7:
		kind = "value cut"
		l, rest := lines()
		i := t.Intn(len(l))
		if n := len(l[i]); n > 0 {
			l[i] = l[i][:t.Intn(n)]
		}
		s = strings.Join(l, "\r\n") + rest
	case 8:
		kind = "header renamed"
		l, rest := lines()
		i := t.Intn(len(l))
		if k := strings.IndexByte(l[i], ':'); k >= 0 {
			l[i] = t.Of("Via", "From", "To", "CSeq", "Call-ID", "Contact", "Content-Length", "Content-Type", "Max-Forwards", "Route", "Record-Route", "Authorization", "WWW-Authenticate", "Warning", "Date", "Timestamp", "RAck", "Retry-After",
				"Accept", "Accept-Language", "Accept-Encoding", "Event", "Subscription-State", "Refer-To", "Call-Info", "Subject", "Server", "Allow", "Supported", "Reason", "MIME-Version", "In-Reply-To", "Authentication-Info", "Content-Disposition", "Error-Info", "v", "l", "m", "x-y") + l[i][k:]
		}
		s = strings.Join(l, "\r\n") + rest
	}
	if s == orig {
		return b, ""
	}
	return []byte(s), kind
}

func damageMany(c *Ctx, b, other []byte) ([]byte, string) {
	kind := ""
	for n := c.T.Pick(5, 3, 2); n >= 0; n-- {
		var k string
		if b, k = damageSIP(c, b, other); k != "" {
			kind = k
		}
	}
	return b, kind
}

// inspect calls every accessor a user has, as deep as they lead.
func inspect(c *Ctx, v interface{}, depth int, seen map[interface{}]bool) {
	if v == nil {
		return
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
		if rv.IsNil() {
			return
		}
	}
	if rv.Kind() != reflect.Ptr {
		return
	}
	if seen[v] {
		return
	}
	seen[v] = true
	if e, ok := v.(*list.Element); ok {
		inspect(c, e.Value, depth, seen)
		return
	}
	if l, ok := v.(header.Lister); ok {
		n := 0
		for e := l.Front(); e != nil && n < 6; e = e.Next() {
			inspect(c, e.Value, depth, seen)
			n++
		}
	}
	if depth == 0 || rv.Elem().Kind() != reflect.Struct {
		return
	}
	rt := rv.Type()
	if !strings.Contains(rt.Elem().PkgPath(), "gosips") {
		return
	}
	for i := 0; i < rt.NumMethod(); i++ {
		m := rt.Method(i)
		ok := false
		for _, p := range []string{"Get", "Has", "Is", "String", "Encode", "Check", "Clone"} {
			if strings.HasPrefix(m.Name, p) {
				ok = true
			}
		}
		if !ok {
			continue
		}
		var args []reflect.Value
		switch m.Type.NumIn() {
		case 1:
		case 2:
			switch m.Type.In(1).Kind() {
			case reflect.String:
				args = append(args, reflect.ValueOf(c.T.Of("tag", "branch", "Via", "x", "")))
			case reflect.Bool:
				args = append(args, reflect.ValueOf(i%2 == 0))
			default:
				continue
			}
		default:
			continue
		}
		for _, r := range rv.Method(i).Call(args) {
			if r.CanInterface() {
				inspect(c, r.Interface(), depth-1, seen)
			}
		}
	}
}

// inspectMsg inspects a whole message.
func inspectMsg(c *Ctx, m message.Message, input []byte) {
	c.Lib("accessors", 40*Bound(len(input)), func() {
		seen := map[interface{}]bool{}
		inspect(c, m, 3, seen)
		done := map[string]bool{}
		for _, l := range strings.Split(string(input), "\n") {
			k := strings.IndexByte(l, ':')
			if k < 1 || k > 40 {
				continue
			}
			n := trim(l[:k])
			if f := fullOf[strings.ToLower(n)]; f != "" {
				n = f
			}
			if done[n] {
				continue
			}
			done[n] = true
			if h := m.GetHeader(n); h != nil {
				inspect(c, h, 3, seen)
			}
			inspect(c, m.GetHeaders(n), 3, seen)
		}
	})
}

func onlyEOL(b []byte) bool {
	for _, x := range b {
		if x != '\r' && x != '\n' {
			return false
		}
	}
	return true
}

// ---- C03 damaged datagrams

func init() {
	Register(&Prop{
		ID: "C03", Title: "No datagram can crash or stall the receiver",
		Quick: 60000, Thorough: 3000000,
		Rule: "one run sends 1-6 generated messages over a network that damages, cuts, splices, duplicates and reorders datagrams to a node that parses, inspects, answers and relays what it accepts, or measures what a message with one thing repeated costs against one with four times as many; non-trivial when a fault struck or the cost was measured",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)"},
		Run:  runDamage,
	})
	Register(&Prop{
		ID: "C04", Title: "A parser carries nothing over from one datagram to the next",
		Fresh: 50, Quick: 40000, Thorough: 2000000,
		Rule: "one run delivers 2-8 datagrams, sound and damaged, some of them twice, to a node with one long-lived parser and a receive buffer it reuses, which changes messages it got earlier, and compares every outcome with that of a fresh parser, then and before anything had arrived; non-trivial when at least two datagrams arrived",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)"},
		Run:  runReuse,
	})
	Register(&Prop{
		ID: "C05", Title: "Bodies are framed by Content-Length, byte for byte",
		Quick: 60000, Thorough: 3000000,
		Rule: "one run sends 1-4 messages with bodies through nodes that replace, remove and set bodies, over a network that cuts, pads, loses, duplicates and reorders datagrams; non-trivial when a body was changed on the way or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "core"},
		Stub: []string{"network (simulated)"},
		Run:  runFraming,
	})
	Register(&Prop{
		ID: "C12", Title: "The parse listener sees each bad header once and decides its fate",
		Quick: 40000, Thorough: 2000000,
		Rule: "one run sends 1-4 messages, each with up to 4 corrupted header lines, to a node whose listener aborts, ignores, keeps or repairs them; non-trivial when a header was corrupted",
		Real: []string{"sip/parser", "sip/message", "sip/header", "core"},
		Stub: []string{"network (simulated)", "listener (harness)"},
		Run:  runListener,
	})
}

func runDamage(c *Ctx) {
	t := c.T
	if t.Chance(3) {
		runGrowth(c)
		return
	}
	g := NewG(c)
	net := NewSim(c)
	net.Corrupt = t.Of1(30, 60, 100)
	net.Damage = func(b []byte) ([]byte, string) { return damageMany(c, b, net.recent) }
	// In some runs the application forgives every line that cannot be read, so
	// that messages without their start line or most vital headers get in.
	lenient := &listener{act: func(cb *callback) error { return nil }}
	forgiving := t.Chance(30)
	newParser := func() *parser.StringMsgParser {
		p := parser.NewStringMsgParser()
		if forgiving {
			p.SetParseExceptionListener(lenient)
		}
		return p
	}
	p := newParser()
	net.Listen("node", func(d *Dgram) {
		if t.Chance(3) {
			c.Fault("node restart")
			p = newParser()
		}
		keep := append([]byte(nil), d.Data...)
		m, err := parseMsg(c, p, d.Data)
		if !bytes.Equal(keep, d.Data) {
			c.Fail("input changed", "parsing changed the datagram %q", keep)
		}
		isnil := m == nil || reflect.ValueOf(m).IsNil()
		switch {
		case err != nil && !isnil:
			c.Fail("error and message", "both an error (%v) and a message for %q", err, keep)
		case err == nil && isnil && !onlyEOL(keep):
			c.Fail("neither", "neither error nor message for %q", keep)
		case err != nil && onlyEOL(keep):
			c.Fail("keepalive", "a keep-alive of line ends only is an error (%v): %q", err, keep)
		}
		if isnil {
			c.Probe("rejected")
			return
		}
		c.Probe("accepted")
		if len(lenient.calls) > 0 {
			c.Probe("accepted with lines forgiven")
			lenient.calls = nil
		}
		enc := encodeMsg(c, m)
		inspectMsg(c, m, keep)
		if again := encodeMsg(c, m); !bytes.Equal(enc, again) {
			c.Fail("inspection changes", "the accessors changed the message from %q to %q", enc, again)
		}
		// What it passes on must not bring down the next node either.
		m2, err := parseMsg(c, parser.NewStringMsgParser(), enc)
		if err == nil && m2 != nil {
			encodeMsg(c, m2)
		} else {
			c.Probe("passed on, then rejected")
		}
		deriveAll(c, m)
		if again := encodeMsg(c, m); !bytes.Equal(enc, again) {
			c.Fail("deriving changes", "making messages from it changed the message from %q to %q", enc, again)
		}
		if t.Chance(40) {
			parseParts(c, p, string(keep))
		}
	})
	n := t.Range(1, 6)
	for k := 0; k < n; k++ {
		var b []byte
		switch t.Pick(6, 4, 1) {
		case 0:
			b = g.request("").encode(g.style())
		case 1:
			b = g.response().encode(g.style())
		case 2: // not SIP at all
			for j := t.Log(10); j > 0; j-- {
				b = append(b, interesting(c))
			}
			if t.Chance(20) {
				b = []byte(t.Of("", "\r\n", "\r\n\r\n", "\n", "\r", "\n\n\n\n"))
			}
		}
		if len(b) > 20000 {
			continue
		}
		net.At(time.Duration(k)*10*time.Millisecond, func() { net.Send("peer", "node", b, nil) })
	}
	net.Run()
}

// deriveAll makes and encodes everything that can be made from a message.
func deriveAll(c *Ctx, m message.Message) {
	t := c.T
	switch x := m.(type) {
	case *message.SIPRequest:
		code := t.Of1(100, 180, 200, 302, 400, 404, 487, 500, 603, 999)
		var out []message.Message
		c.Lib("deriving from a request", 0, func() {
			out = append(out, x.CreateResponse(code), x.CreateResponse2(code, "Reason"))
			out = append(out, x.CreateCancelRequest(), x.CreateAckRequest(nil), x.CreateACKRequest(), x.CreateBYERequest(t.Bool()))
			if to, ok := x.GetTo().(*header.To); ok {
				out = append(out, x.CreateAckRequest(to))
			}
		})
		for _, o := range out {
			encodeMsg(c, o)
			c.Lib("ids of a derived message", 0, func() {
				sipm(o).GetTransactionId()
			})
		}
	case *message.SIPResponse:
		var r *message.SIPRequest
		c.Lib("deriving from a response", 0, func() {
			r = x.CreateRequest(nil, header.NewVia(), header.NewCSeq(1, t.Of("ACK", "BYE", "CANCEL", "INVITE")))
			r.RemoveHeader("Via")
		})
		encodeMsg(c, r)
	}
}

// parseParts hands pieces of a text to the parsers for single things.
func parseParts(c *Ctx, p *parser.StringMsgParser, text string) {
	t := c.T
	lines := strings.Split(text, "\n")
	part := lines[t.Intn(len(lines))]
	part = strings.TrimRight(part, "\r")
	if k := strings.IndexByte(part, ':'); k >= 0 && t.Bool() {
		part = part[k+1:]
	}
	if t.Bool() {
		part = trim(part)
	}
	if t.Chance(30) && len(part) > 0 {
		part = part[t.Intn(len(part)):]
	}
	if k := strings.IndexByte(part, '<'); k >= 0 && t.Bool() {
		part = part[k+1:]
		if k = strings.IndexByte(part, '>'); k >= 0 {
			part = part[:k]
		}
	}
	c.Lib("parsing a part", Bound(len(part)), func() {
		var err error
		var what string
		switch t.Intn(9) {
		case 0:
			what = "ParseAddress"
			a, e := p.ParseAddress(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 1:
			what = "ParseHostPort"
			a, e := p.ParseHostPort(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 2:
			what = "ParseHost"
			a, e := p.ParseHost(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 3:
			what = "ParSetelephoneNumber"
			a, e := p.ParSetelephoneNumber(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 4:
			what = "ParseSIPUrl"
			a, e := p.ParseSIPUrl(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 5:
			what = "ParseUrl"
			a, e := p.ParseUrl(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 6:
			what = "ParseSIPHeader"
			a, e := p.ParseSIPHeader(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 7:
			what = "ParseSIPRequestLine"
			a, e := p.ParseSIPRequestLine(part)
			if err = e; e == nil {
				_ = a.String()
			}
		case 8:
			what = "ParseSIPStatusLine"
			a, e := p.ParseSIPStatusLine(part)
			if err = e; e == nil {
				_ = a.String()
			}
		}
		if err == nil {
			c.Probe(what + " accepted")
		} else {
			c.Probe(what + " rejected")
		}
	})
}

// ---- C04 parser reuse

type outcome struct {
	err  string
	null bool
	enc  []byte
	of   string // what it was made of
}

// change changes something in a message. It says whether the message can be
// used still: what comes of odd arguments is for other checks to say.
func change(c *Ctx, m message.Message) bool {
	n, s := c.T.Intn(1<<20), c.T.Of("x", "changed.example", "5070", "tag", "sips")
	var names []string
	v := c.Try("change", 0, func() {
		for e := sipm(m).GetHeaderNames().Front(); e != nil; e = e.Next() {
			names = append(names, fmt.Sprint(e.Value))
		}
		if len(names) == 0 {
			return
		}
		var x interface{} = m.GetHeader(names[n%len(names)])
		if r, ok := m.(*message.SIPRequest); ok && n>>18 == 0 {
			x = r.GetRequestURI()
		}
		x = descend(x, n)
		if fs := editsOf(x, s, n>>7); len(fs) > 0 {
			fs[n>>3%len(fs)]()
			c.Probe("kept message changed")
		}
	})
	return v == nil && c.Try("encode", 0, func() { bytesOf(m) }) == nil
}

func outcomeOf(c *Ctx, m message.Message, err error) (o outcome) {
	if err != nil {
		o.err = err.Error()
	}
	if m == nil || reflect.ValueOf(m).IsNil() {
		o.null = true
		return
	}
	o.enc = encodeMsg(c, m)
	return
}

func runReuse(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	if t.Bool() {
		net.Corrupt = t.Of1(10, 40)
		net.Damage = func(b []byte) ([]byte, string) { return damageMany(c, b, net.recent) }
	}
	p := parser.NewStringMsgParser()
	buf := make([]byte, 70000)
	type held struct {
		m   message.Message
		enc []byte
	}
	var kept []held
	arrived := 0
	net.Listen("node", func(d *Dgram) {
		if arrived++; arrived >= 2 {
			c.Nontriv = true
		}
		n := copy(buf, d.Data) // the node has one receive buffer
		var m message.Message
		var err error
		asString := t.Chance(30)
		v1 := c.Try("parse", Bound(n), func() {
			if asString {
				m, err = p.ParseSIPMessage(string(buf[:n]))
			} else {
				m, err = p.ParseSIPMessageFromByte(buf[:n])
			}
		})
		var fm message.Message
		var ferr error
		v2 := c.Try("parse", Bound(n), func() {
			fm, ferr = parser.NewStringMsgParser().ParseSIPMessageFromByte(append([]byte(nil), d.Data...))
		})
		if v1 != nil || v2 != nil { // C03 decides these
			if (v1 == nil) != (v2 == nil) {
				c.Fail("reuse crash", "a used and a fresh parser differ on %q: %v and %v", d.Data, v1, v2)
			}
			return
		}
		a, b := outcomeOf(c, m, err), outcomeOf(c, fm, ferr)
		if first, ok := d.Meta.(outcome); ok && first.of == string(d.Data) {
			if a.err != first.err || a.null != first.null || !bytes.Equal(a.enc, first.enc) {
				c.Fail("reuse differs:later", "a parser makes %q (error %q) of %q, but made %q (error %q) before other datagrams had arrived", a.enc, a.err, d.Data, first.enc, first.err)
			}
		}
		if a.err != b.err || a.null != b.null || !bytes.Equal(a.enc, b.enc) {
			c.Fail("reuse differs", "a used parser makes %q (error %q) of %q, a fresh one %q (error %q)", a.enc, a.err, d.Data, b.enc, b.err)
		}
		if !a.null {
			kept = append(kept, held{m, a.enc})
		}
		if t.Chance(40) {
			for i := range buf[:n] {
				buf[i] = 'X'
			}
		}
		if len(kept) > 0 && t.Chance(40) { // the node changes a message it has
			i := t.Intn(len(kept))
			if change(c, kept[i].m) {
				kept[i].enc = encodeMsg(c, kept[i].m)
			} else {
				kept = append(kept[:i:i], kept[i+1:]...)
			}
		}
		for i, h := range kept {
			if e := encodeMsg(c, h.m); !bytes.Equal(e, h.enc) {
				c.Fail("held message changed", "message %d changed from %q to %q while later datagrams arrived", i, h.enc, e)
			}
		}
	})
	n := c.Many(2, 8, 40)
	var sent [][]byte
	for k := 0; k < n; k++ {
		var b []byte
		switch t.Pick(5, 4, 1, len(sent)) {
		case 3: // again
			b = sent[t.Intn(len(sent))]
		case 0:
			b = g.request("").encode(g.style())
		case 1:
			b = g.response().encode(g.style())
		case 2:
			b = []byte(t.Of("\r\n\r\n", "\r\n", "hello", "INVITE sip:a@b SIP/2.0\r\n", "SIP/2.0 200 OK\r\nContent-Length: 5\r\n\r\nab"))
		}
		if len(b) > 20000 {
			continue
		}
		sent = append(sent, b)
		var m message.Message
		var err error
		if v := c.Try("parse", Bound(len(b)), func() {
			m, err = parser.NewStringMsgParser().ParseSIPMessageFromByte(append([]byte(nil), b...))
		}); v != nil {
			continue
		}
		first := outcomeOf(c, m, err)
		first.of = string(b)
		net.At(time.Duration(k)*10*time.Millisecond, func() { net.Send("peer", "node", b, first) })
	}
	net.Run()
}

// ---- C05 framing

type frameMeta struct {
	head int // length of the header section with its blank line
	cl   int // Content-Length as written
	body []byte
	m    *amsg
	hop  int
}

func runFraming(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	net.Corrupt, net.Trunc = 0, 0
	cutPct, padPct := t.Of1(0, 15, 40), t.Of1(0, 15, 40)
	send := func(from, to string, enc []byte, m *amsg, cl int, hop int) {
		i := bytes.Index(enc, []byte("\r\n\r\n"))
		head := i + 4
		if j := bytes.Index(enc, []byte("\n\n")); j >= 0 && (i < 0 || j < i) {
			head = j + 2
		}
		data := append([]byte(nil), enc...)
		if t.Chance(cutPct) {
			c.Fault("datagram cut")
			data = data[:t.Intn(len(data))]
		} else if t.Chance(padPct) {
			c.Fault("bytes after the end")
			for k := t.Range(1, 30); k > 0; k-- {
				data = append(data, interesting(c))
			}
		}
		net.Send(from, to, data, &frameMeta{head: head, cl: cl, body: data, m: m, hop: hop})
	}
	hops := t.Range(0, 2)
	recv := func(d *Dgram) {
		fm := d.Meta.(*frameMeta)
		p := parser.NewStringMsgParser()
		keep := append([]byte(nil), d.Data...)
		m, err := parseMsg(c, p, d.Data)
		if onlyEOL(keep) {
			return
		}
		if len(keep) < fm.head || len(keep)-fm.head < fm.cl {
			if err == nil {
				c.Fail("cut accepted", "a datagram of %d bytes with %d header bytes and Content-Length %d is accepted: %q", len(keep), fm.head, fm.cl, keep)
			}
			if m != nil && !reflect.ValueOf(m).IsNil() {
				c.Fail("cut message", "a message is returned along with the error %v for %q", err, keep)
			}
			return
		}
		if err != nil || m == nil {
			c.Fail("whole rejected", "a complete message is rejected (%v): %q", err, keep)
		}
		want := string(keep[fm.head : fm.head+fm.cl])
		if bytes.Contains(keep[fm.head:], []byte("\r\n\r\n")) {
			c.Probe("blank line in the body")
		}
		for i := range d.Data { // the receive buffer is reused
			d.Data[i] = 'X'
		}
		checkBody(c, m, want, keep)
		if fm.hop >= hops {
			return
		}
		// The relay replaces bodies on the way.
		s := sipm(m)
		nm := fm.m.clone()
		nm.body = []byte(want)
		for k := t.Intn(4); k > 0; k-- {
			c.Nontriv = true
			contentOp(c, g, s, nm)
			checkBody(c, m, string(nm.body), keep)
		}
		enc := encodeMsg(c, m)
		compareMsg(c, "content", nm, enc, keep)
		send(d.To, fmt.Sprintf("n%d", fm.hop+1), enc, nm, len(nm.body), fm.hop+1)
	}
	for i := 0; i <= hops; i++ {
		net.Listen(fmt.Sprintf("n%d", i), recv)
	}
	for k := t.Range(1, 4); k > 0; k-- {
		var m *amsg
		if t.Bool() {
			m = g.request("")
		} else {
			m = g.response()
		}
		m.nocl = false
		if t.Chance(60) && len(m.body) == 0 {
			m.body = g.body()
			if len(m.body) > 0 && m.ctype == "" {
				m.ctype = "application/sdp"
			}
		}
		if t.Chance(15) {
			m.body = append(m.body, []byte(t.Of("\r\n\r\n", "\n\n", "\r\n\r\nContent-Length: 3\r\n\r\nabc", "\x00"))...)
		}
		b := m.encode(g.style())
		cl := len(m.body)
		switch {
		case len(b) > 20000:
			continue
		case t.Chance(15) && cl > 0: // the sender counted wrong: too few
			n := t.Intn(cl)
			b = recount(b, cl, n)
			if b == nil {
				continue
			}
			c.Fault("Content-Length too small")
			cl = n
		case t.Chance(15):
			n := cl + t.Range(1, 9)
			switch t.Intn(8) {
			case 0:
				n = 1<<31 - 1
			case 1:
				n = 1<<63 - 1
			case 2:
				n = 1 << 40
			}
			b = recount(b, cl, n)
			if b == nil {
				continue
			}
			c.Fault("Content-Length too large")
			cl = n
		}
		if t.Chance(8) { // lines that end with LF only
			i := bytes.Index(b, []byte("\r\n\r\n")) + 4
			b = append(bytes.ReplaceAll(b[:i], []byte("\r\n"), []byte("\n")), b[i:]...)
			c.Probe("LF only")
		}
		net.At(time.Duration(k)*10*time.Millisecond, func() { send("src", "n0", b, m, cl, 0) })
	}
	net.Run()
}

// recount changes the Content-Length in an encoded message.
func recount(b []byte, old, new int) []byte {
	s := string(b)
	i := strings.Index(s, "\r\n\r\n")
	lines := unfoldLines(s[:i+2])
	for k, l := range lines {
		low := strings.ToLower(l)
		if j := strings.IndexByte(low, ':'); j > 0 {
			if n := trim(low[:j]); n == "content-length" || n == "l" {
				lines[k] = "Content-Length: " + strconv.Itoa(new) + "\r\n"
				return []byte(strings.Join(lines, "") + s[i+2:])
			}
		}
	}
	return nil
}

func checkBody(c *Ctx, m message.Message, want string, input []byte) {
	s := sipm(m)
	var content, mc string
	var has bool
	n := -1
	c.Lib("content accessors", 0, func() {
		content, has = s.GetContent(), s.HasContent()
		if cl := s.GetContentLength(); cl != nil {
			n = cl.GetContentLength()
		}
		mc = s.GetMessageContent()
	})
	if content != want || mc != want {
		c.Fail("body", "the body is %q and %q, want %q\n of %q", content, mc, want, input)
	}
	if has != (want != "") {
		c.Fail("has content", "HasContent is %v for the body %q\n of %q", has, want, input)
	}
	if n != len(want) {
		c.Fail("content length", "Content-Length is %d for a body of %d bytes\n of %q", n, len(want), input)
	}
	enc := encodeMsg(c, m)
	if !strings.HasSuffix(string(enc), "\r\n\r\n"+want) {
		c.Fail("encoded body", "the encoding %q does not end with the body %q", enc, want)
	}
}

// contentOp changes the body through one of the library's ways, in message and model.
func contentOp(c *Ctx, g *G, s *message.SIPMessage, m *amsg) {
	t := c.T
	body := g.body()
	if len(body) == 0 {
		body = []byte("x")
	}
	ty, sub := t.Of("text", "application"), t.Of("plain", "sdp", "x-data")
	what := t.Of("SetContent(string)", "SetContent(bytes)", "SetMessageContent", "SetMessageContentFromByte", "SetMessageContent3", "SetMessageContentFromString", "RemoveContent")
	c.Log("%s %q", what, body)
	c.Probe(what)
	setType := true
	c.Lib(what, 0, func() {
		switch what {
		case "SetContent(string)":
			s.SetContent(string(body), header.NewContentTypeFromString(ty, sub))
		case "SetContent(bytes)":
			s.SetContent(append([]byte(nil), body...), header.NewContentTypeFromString(ty, sub))
		case "SetMessageContent":
			s.SetMessageContent(string(body))
			setType = false
		case "SetMessageContentFromByte":
			s.SetMessageContentFromByte(append([]byte(nil), body...))
			setType = false
		case "SetMessageContent3":
			s.SetMessageContent3(ty, sub, append([]byte(nil), body...))
		case "SetMessageContentFromString":
			s.SetMessageContentFromString(ty, sub, string(body))
		case "RemoveContent":
			s.RemoveContent()
		}
	})
	if what == "RemoveContent" {
		m.body = nil
		m.ctype = ""
		var h []ahdr
		for _, x := range m.hdrs {
			switch x.name {
			case "Content-Encoding", "Content-Language", "Content-Disposition":
			default:
				h = append(h, x)
			}
		}
		m.hdrs = h
		return
	}
	m.body = body
	if setType {
		m.ctype = ty + "/" + sub
	}
}

// ---- C12 listener

// badLines cannot be read as the header they name.
var badLines = []string{
	"CSeq: one INVITE", "CSeq: INVITE", "Via: SIP/2.0/UDP", "Via: ;branch=z9hG4bKx", "Max-Forwards: many", "Max-Forwards: ",
	"Content-Length: five", "From: <sip:a@b", "To: \"x", "To: <sip:", "Contact: <sip:a@b", "Route: <sip:a@b", "Record-Route: <",
	"Content-Type: text", "Content-Type: /plain", "Expires: soon", "Accept: text", "Retry-After: later", "RAck: 1 x INVITE", "RSeq: x",
	"Timestamp: now", "Min-Expires: x", "Warning: x y z", "Date: yesterday", "no colon here", "Refer-To: <sip:a@b",
	"Call-Info: http://x", "Authorization: Digest realm=\"x", "MIME-Version: one", "Accept-Encoding: ;x=1", "Reply-To: ",
	// numbers that no number can be
	"CSeq: 99999999999999999999 BYE", "Content-Length: 99999999999999999999", "Max-Forwards: 99999999999999999999", "Max-Forwards: 256",
	"Expires: 99999999999999999999", "Min-Expires: 99999999999999999999", "RSeq: 99999999999999999999", "RAck: 99999999999999999999 1 INVITE",
	"RAck: 1 99999999999999999999 INVITE", "Via: SIP/2.0/UDP h:99999999999999999999", "From: <sip:a@h:99999999999999999999>",
	"Contact: <sip:a@h>;expires=99999999999999999999", "Subscription-State: active;expires=99999999999999999999",
	"Subscription-State: active;retry-after=99999999999999999999", "Retry-After: 99999999999999999999", "Retry-After: 5;duration=99999999999999999999",
	"Warning: 99999999999999999999 h \"x\"", "Warning: 399 h:99999999999999999999 \"x\"", "MIME-Version: 99999999999999999999.0",
	"Accept-Encoding: gzip;q=2", "Accept-Language: en;q=1.5", "Warning: 299 h \"x\"", "Warning: 1399 h \"x\"",
	"Expires: -1", "Expires: +5", "Max-Forwards: -1", "Content-Length: -5", "Min-Expires: -1", "Contact: <sip:a@h>;expires=-1", "Contact: <sip:a@h>, <sip:b@h>;expires=-60",
	"Subscription-State: active;expires=-1", "Retry-After: -5", "Retry-After: 5;duration=-1", "CSeq: -1 BYE", "RSeq: -1",
	// sound as far as they go, then something that does not belong there
	"Alert-Info: <http://x/y> junk", "Call-Info: <http://x/y>;purpose=info junk", "Error-Info: <http://x/y> junk", "Allow: INVITE BYE",
	"Allow-Events: a b", "Accept: text/plain junk",
	"Accept-Encoding: gzip junk", "Accept-Language: en junk",
	"Content-Type: text/plain junk", "Content-Disposition: session junk", "Event: a b", "Max-Forwards: 5 5", "CSeq: 1 INVITE junk",
	"Expires: 5 5", "Min-Expires: 5 5", "Contact: <sip:a@b> junk", "Contact: <sip:a@b>;q=0.1 junk", "Contact: <sip:a@b> <sip:c@d>", "Via: SIP/2.0/UDP h junk",
	"Via: SIP/2.0/UDP h;ttl=1 junk", "From: <sip:a@b> junk", "To: <sip:a@b>;tag=1 junk", "Route: <sip:a@b> junk", "Record-Route: <sip:a@b>;x=1 junk",
	"Content-Length: 5 5", "RSeq: 1 1", "RAck: 1 1 INVITE junk", "Retry-After: 5 junk", "Subscription-State: active junk",
	"Timestamp: 1 1 1", "Warning: 399 h \"x\" junk", "WWW-Authenticate: Digest a=b c=d", "Proxy-Authenticate: Digest a=b, c=d e=f",
	"Authorization: Digest a=b c=d", "Proxy-Authorization: Digest a=\"b\" c", "Refer-To: <sip:a@b> junk", "MIME-Version: 1.0 1",
	"Priority: a b", "In-Reply-To: a b", "Authentication-Info: a=b c=d", "Reply-To: <sip:a@b> junk",
}

// paramLines take parameters; paramJunk is what none of them may carry.
var paramLines = []string{
	"Accept: text/plain", "Content-Type: text/plain", "Content-Disposition: session", "Contact: <sip:a@b>", "From: <sip:a@b>", "To: <sip:a@b>;tag=1",
	"Route: <sip:a@b>", "Record-Route: <sip:a@b;lr>", "Refer-To: <sip:a@b>", "Reply-To: <sip:a@b>", "Via: SIP/2.0/UDP h", "Via: SIP/2.0/TCP h:5060;branch=z9hG4bK1",
	"Event: a", "Subscription-State: active", "Alert-Info: <http://x/y>", "Call-Info: <http://x/y>;purpose=info", "Error-Info: <http://x/y>", "Retry-After: 5",
}
var paramJunk = []string{";=x", ";a=\"x", ";a=b=c", ",", ";", ";a=b;", ",,", ";a=b c", "(", ";a=\"x\"y"}

type callback struct {
	cur  string
	line int
	err  error
	hdr  string
	msg  message.Message
	text string
	enc  []byte
}

type listener struct {
	calls []callback
	act   func(cb *callback) error
}

func (l *listener) HandleException(err error, m message.Message, h, text string) error {
	l.calls = append(l.calls, callback{err: err, hdr: strings.TrimRight(h, "\r\n"), msg: m, text: text})
	return l.act(&l.calls[len(l.calls)-1])
}

type listenMeta struct {
	m   *amsg
	bad []string
	at  []int // where each bad line stands among the lines, the start line being 0
}

func runListener(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	net.Corrupt, net.Trunc = 0, 0
	p := parser.NewStringMsgParser()
	lis := &listener{}
	withListener := !t.Chance(10)
	if withListener {
		p.SetParseExceptionListener(lis)
	}
	mine := errors.New("the listener gives up")
	net.Listen("node", func(d *Dgram) {
		lm := d.Meta.(*listenMeta)
		if t.Chance(5) {
			c.Fault("node restart")
			p = parser.NewStringMsgParser()
			if withListener {
				p.SetParseExceptionListener(lis)
			}
		}
		lis.calls = nil
		abortAt := -1
		if t.Chance(25) && len(lm.bad) > 0 {
			abortAt = t.Intn(len(lm.bad))
		}
		nm := lm.m.clone()
		var repaired, unparsed []string
		lis.act = func(cb *callback) error {
			i := len(lis.calls) - 1
			cb.cur, cb.line = p.GetCurrentHeader(), p.GetCurrentLineNumber()
			if i == abortAt {
				return mine
			}
			switch t.Intn(3) {
			case 0:
				unparsed = append(unparsed, cb.hdr)
				sipm(cb.msg).AddUnparsed(cb.hdr)
				c.Probe("kept as text")
			case 1:
				v := "v" + strconv.Itoa(i)
				x := header.NewExtension("X-Repaired")
				x.SetValue(v)
				sipm(cb.msg).AddHeader(x)
				repaired = append(repaired, v)
				c.Probe("repaired")
			default:
				c.Probe("ignored")
			}
			return nil
		}
		keep := append([]byte(nil), d.Data...)
		m, err := parseMsg(c, p, d.Data)
		isnil := m == nil || reflect.ValueOf(m).IsNil()
		if !withListener {
			if len(lm.bad) > 0 && (err == nil || !isnil) {
				c.Fail("bad accepted", "a message with the bad header %q is accepted: %q", lm.bad[0], keep)
			}
			if len(lm.bad) == 0 && err != nil {
				c.Fail("good rejected", "a good message is rejected (%v): %q", err, keep)
			}
			return
		}
		want := lm.bad
		if abortAt >= 0 {
			want = want[:abortAt+1]
		}
		var got []string
		for _, cb := range lis.calls {
			got = append(got, cb.hdr)
		}
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("listener calls", "the listener was told of %q, want %q, in %q", got, want, keep)
		}
		for i, cb := range lis.calls {
			if cb.err == nil {
				c.Fail("listener error", "the listener is told of %q without an error", cb.hdr)
			}
			if cb.msg == nil {
				c.Fail("listener message", "the listener is told of %q without the message", cb.hdr)
			}
			if !strings.Contains(cb.text, cb.hdr) {
				c.Fail("listener text", "the message text %q does not have the header %q", cb.text, cb.hdr)
			}
			if trim(cb.cur) != trim(cb.hdr) {
				c.Fail("listener current", "while the listener is told of %q, the parser's current header is %q", cb.hdr, cb.cur)
			}
			if i > 0 && cb.line-lis.calls[0].line != lm.at[i]-lm.at[0] {
				c.Fail("listener line", "the bad lines %q, %d lines apart, are numbered %d and %d", want[:i+1], lm.at[i]-lm.at[0], lis.calls[0].line, cb.line)
			}
		}
		if abortAt >= 0 {
			if err != mine {
				c.Fail("abort", "the listener gave up on %q, but the parser returns %v", lm.bad[abortAt], err)
			}
			if !isnil {
				c.Fail("abort message", "the listener gave up on %q, but there is a message", lm.bad[abortAt])
			}
			return
		}
		if err != nil || isnil {
			c.Fail("handled rejected", "the listener handled %q, but the message is rejected (%v): %q", lm.bad, err, keep)
		}
		for _, v := range repaired {
			nm.hdrs = append(nm.hdrs, ahdr{"X-Repaired", v})
		}
		compareMsg(c, "handled", nm, encodeMsg(c, m), keep)
		var un []string
		for e := sipm(m).GetUnrecognizedHeaders().Front(); e != nil; e = e.Next() {
			un = append(un, e.Value.(string))
		}
		if strings.Join(un, "\n") != strings.Join(unparsed, "\n") {
			c.Fail("unparsed", "GetUnrecognizedHeaders is %q, want %q", un, unparsed)
		}
		checkBody(c, m, string(nm.body), keep)
	})
	for k := t.Range(1, 4); k > 0; k-- {
		var m *amsg
		if t.Bool() {
			m = g.request("")
		} else {
			m = g.response()
		}
		m.nocl = false
		lm := &listenMeta{m: m}
		b := string(m.encode(g.style()))
		if len(b) > 20000 {
			continue
		}
		i := strings.Index(b, "\r\n\r\n") + 2
		head, rest := b[:i], b[i:]
		lines := unfoldLines(head)
		at := map[int][]string{}
		for n := t.Pick(2, 4, 3, 1, 1); n > 0; n-- {
			c.Fault("header corrupted")
			k := t.Range(1, len(lines))
			if t.Chance(30) {
				at[k] = append(at[k], paramLines[t.Intn(len(paramLines))]+paramJunk[t.Intn(len(paramJunk))])
				continue
			}
			at[k] = append(at[k], badLines[t.Intn(len(badLines))])
		}
		head = ""
		line := 0
		for j := 0; j <= len(lines); j++ {
			for _, x := range at[j] {
				head += x + "\r\n"
				lm.bad = append(lm.bad, x)
				lm.at = append(lm.at, line)
				line++
			}
			if j < len(lines) {
				head += lines[j]
				line++
			}
		}
		data := []byte(head + rest)
		net.At(time.Duration(k)*10*time.Millisecond, func() { net.Send("peer", "node", data, lm) })
	}
	net.Run()
}

// unfoldLines splits a header section into header lines, folds included.
func unfoldLines(head string) []string {
	var out []string
	for _, l := range strings.SplitAfter(head, "\r\n") {
		if l == "" {
			continue
		}
		if (l[0] == ' ' || l[0] == '\t') && len(out) > 0 {
			out[len(out)-1] += l
		} else {
			out = append(out, l)
		}
	}
	return out
}
