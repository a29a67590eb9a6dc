package props

import (
	"runtime"
	"strconv"
	"strings"

	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

// Work in proportion to the input (part of C03): the same message with one
// thing repeated, and again with four times as many of it. What a datagram
// costs must grow with its size, not with the square of it.

// grower is a line (or lines) that can be made as long as one likes.
type grower struct {
	name     string
	pre, mid string // mid is repeated; # in it stands for the number
	post     string
	line     bool // mid is a line of its own
	request  bool // pre+mid+post is the Request-URI
	body     bool
}

var growers = []grower{
	{name: "Via elements", pre: "Via: SIP/2.0/UDP a.example;branch=z9hG4bKx", mid: ",SIP/2.0/UDP h#.example;branch=z9hG4bK#"},
	{name: "Via lines", mid: "Via: SIP/2.0/UDP h#.example;branch=z9hG4bK#\r\n", line: true},
	{name: "Via params", pre: "Via: SIP/2.0/UDP h.example", mid: ";p#=v#"},
	{name: "Route elements", pre: "Route: <sip:a;lr>", mid: ",<sip:h#.example;lr>"},
	{name: "Route lines", mid: "Route: <sip:h#.example;lr>\r\n", line: true},
	{name: "Record-Route lines", mid: "Record-Route: <sip:h#.example;lr>\r\n", line: true},
	{name: "Contact elements", pre: "Contact: <sip:a@b>", mid: ",\"N #\" <sip:u#@h.example>;q=0.5"},
	{name: "Contact lines", mid: "Contact: <sip:u#@h.example>\r\n", line: true},
	{name: "unknown header, one name", mid: "X-Y: v#\r\n", line: true},
	{name: "unknown headers", mid: "X-#: v\r\n", line: true},
	{name: "unknown header value", pre: "X-Y: ", mid: "value # "},
	{name: "Allow elements", pre: "Allow: INVITE", mid: ",M#"},
	{name: "Allow lines", mid: "Allow: M#\r\n", line: true},
	{name: "Supported elements", pre: "Supported: a", mid: ",t#"},
	{name: "Require lines", mid: "Require: t#\r\n", line: true},
	{name: "Warning elements", pre: "Warning: 301 a \"t\"", mid: ",302 h \"text #\""},
	{name: "Accept elements", pre: "Accept: a/b", mid: ",c/d#;q=0.3"},
	{name: "Accept-Language elements", pre: "Accept-Language: a", mid: ",b#;q=0.3"},
	{name: "challenges", mid: "WWW-Authenticate: Digest realm=\"r#\",nonce=\"n#\"\r\n", line: true},
	{name: "challenge params", pre: "WWW-Authenticate: Digest realm=\"r\"", mid: ",p#=\"v#\""},
	{name: "Authorization params", pre: "Authorization: Digest username=\"r\"", mid: ",p#=v#"},
	{name: "In-Reply-To", pre: "In-Reply-To: a@b", mid: ",c#@d"},
	{name: "Call-Info", pre: "Call-Info: <http://a>", mid: ",<http://h/#>;purpose=info"},
	{name: "Subject", pre: "Subject: a", mid: " word#"},
	{name: "User-Agent products", pre: "User-Agent: a", mid: " p#/1"},
	{name: "folds", pre: "Subject: a", mid: "\r\n b#"},
	{name: "spaces", pre: "Subject: a", mid: "    ", post: "b"},
	{name: "tabs in To", pre: "Reply-To: <sip:a@b> ", mid: "\t \t", post: ";a=b"},
	{name: "quoted text", pre: "Reply-To: \"", mid: "na me # ", post: "\" <sip:a@b>"},
	{name: "escapes", pre: "Reply-To: \"", mid: "\\\"\\\\", post: "\" <sip:a@b>"},
	{name: "unclosed quote", pre: "Reply-To: \"", mid: "na me ", post: ""},
	{name: "From params", pre: "Reply-To: <sip:a@b>", mid: ";p#=v"},
	{name: "quoted params", pre: "Reply-To: <sip:a@b>", mid: ";p#=\"v;,\""},
	{name: "one param twice and more", pre: "Reply-To: <sip:a@b>", mid: ";p=v"},
	{name: "host labels", pre: "Reply-To: <sip:a@b", mid: ".label#", post: ">"},
	{name: "user part", pre: "Reply-To: <sip:a", mid: "bc#", post: "@b>"},
	{name: "escaped user part", pre: "Reply-To: <sip:a", mid: "%20%41", post: "@b>"},
	{name: "URI params", pre: "Reply-To: <sip:a@b", mid: ";p#=v", post: ">"},
	{name: "URI headers", pre: "Reply-To: <sip:a@b?x=y", mid: "&h#=v", post: ">"},
	{name: "other URI", pre: "Reply-To: <http://a/", mid: "path#/", post: ">"},
	{name: "telephone digits", pre: "Reply-To: <tel:+1", mid: "23-4", post: ">"},
	{name: "telephone params", pre: "Reply-To: <tel:+1", mid: ";p#=v", post: ">"},
	{name: "comment", pre: "Via: SIP/2.0/UDP h;branch=z9hG4bKx (", mid: "a b ", post: ")"},
	{name: "nested comment", pre: "User-Agent: a (", mid: "(b) ", post: ")"},
	{name: "deep comment", pre: "Server: a ", mid: "(", post: "x"},
	{name: "opening angles", pre: "Reply-To: ", mid: "<", post: ""},
	{name: "commas", pre: "Contact: <sip:a@b>", mid: ",", post: ""},
	{name: "empty params", pre: "Reply-To: <sip:a@b>", mid: ";", post: ""},
	{name: "digits", pre: "Expires: 1", mid: "0"},
	{name: "long token", pre: "Event: a", mid: "bc"},
	{name: "Call-ID", pre: "X-Call: a@", mid: "bc", post: "\r\nReason: SIP;cause=200"},
	{name: "brackets", pre: "Reply-To: <sip:a@[", mid: "2001:", post: "1]>"},
	{name: "equals", pre: "Reply-To: <sip:a@b>;a", mid: "=", post: ""},
	{name: "bare name", pre: "", mid: "Name", post: ": value"},
	{name: "no colon", pre: "", mid: "name ", post: ""},
	{name: "Request-URI params", pre: "sip:a@b", mid: ";p#=v", request: true},
	{name: "Request-URI headers", pre: "sip:a@b?x=y", mid: "&h#=v", request: true},
	{name: "Request-URI user", pre: "sip:a", mid: "b", post: "@c", request: true},
	{name: "Request-URI other", pre: "urn:a", mid: ":b#", request: true},
	{name: "body lines", mid: "a=line #\r\n", body: true},
	{name: "body", mid: "x", body: true},
	{name: "empty lines in front", mid: "\r\n", line: true},
}

func (g *grower) make(size int) (text string, units int) {
	var b strings.Builder
	b.WriteString(g.pre)
	for b.Len() < size {
		b.WriteString(strings.Replace(g.mid, "#", strconv.Itoa(units), -1))
		units++
	}
	b.WriteString(g.post)
	return b.String(), units
}

func (g *grower) message(size int, resp, atEnd bool) ([]byte, int) {
	text, n := g.make(size)
	first := "INVITE sip:bob@biloxi.example SIP/2.0\r\n"
	if resp {
		first = "SIP/2.0 200 OK\r\n"
	}
	base := "From: <sip:a@b>;tag=1\r\nTo: <sip:c@d>\r\nCall-ID: i@h\r\nCSeq: 1 INVITE\r\n"
	via := "Via: SIP/2.0/UDP top.example;branch=z9hG4bK1\r\n"
	body := ""
	switch {
	case g.request:
		first = "INVITE " + text + " SIP/2.0\r\n"
		text = ""
	case g.body:
		body = text
		text = "Content-Type: text/plain\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n"
	case g.name == "empty lines in front":
		first, text = text+first, ""
	case !g.line:
		text += "\r\n"
	}
	if atEnd {
		return []byte(first + via + base + text + "\r\n" + body), n
	}
	return []byte(first + via + text + base + "\r\n" + body), n
}

// cost is what one thing done to a message took.
type cost struct {
	what         string
	steps, bytes int64
}

func growthCosts(c *Ctx, data []byte, which int) (cs []cost) {
	var m0, m1 runtime.MemStats
	do := func(what string, f func()) {
		s := c.Steps
		runtime.ReadMemStats(&m0)
		c.Lib(what, 100*Bound(len(data)), f)
		runtime.ReadMemStats(&m1)
		cs = append(cs, cost{what, c.Steps - s, int64(m1.TotalAlloc - m0.TotalAlloc)})
	}
	var m message.Message
	p := parser.NewStringMsgParser()
	if which&1 != 0 {
		p.SetParseExceptionListener(&listener{act: func(cb *callback) error { return nil }})
	}
	do("parsing", func() { m, _ = p.ParseSIPMessageFromByte(data) })
	if m == nil {
		return
	}
	do("encoding", func() { bytesOf(m) })
	do("ids", func() { sipm(m).GetTransactionId() })
	do("copying", func() { cloneMsg(m) })
	do("answering", func() {
		if r, ok := m.(*message.SIPRequest); ok {
			r.CreateResponse(200)
			r.CreateCancelRequest()
			r.CreateBYERequest(true)
		}
	})
	do("reading", func() { walkObj(m, 2, "p1", map[interface{}]bool{}, func(string) {}) })
	return
}

// Parameters are set by name, and each name is looked for among all before it.
var distinctParams = map[string]bool{"From params": true, "quoted params": true, "challenge params": true, "Authorization params": true}

func runGrowth(c *Ctx) {
	t := c.T
	g := &growers[t.Intn(len(growers))]
	floor := int64(0) // statements per byte that are always all right
	if t.Chance(50) { // any line of any message, or any bit of it, over and over
		gen := NewG(c)
		ls := drawMsg(c, gen).lines()
		h := ls[t.Intn(len(ls))]
		line := h.name + ": " + canon(h.tmpl)
		if len(line) < 400 && !strings.ContainsAny(line, "#") {
			if t.Chance(30) {
				g = &grower{name: "lines " + strconv.Quote(line), mid: line + "\r\n", line: true}
			} else {
				i := t.Intn(len(line))
				j := i + 1 + t.Intn(1<<uint(t.Intn(6)))
				if j > len(line) {
					j = len(line)
				}
				g = &grower{name: "bits " + strconv.Quote(line[i:j]) + " in " + strconv.Quote(line), pre: line[:i], mid: line[i:j], post: line[j:]}
			}
			floor = 200
		}
	}
	resp, atEnd, which := t.Chance(30) && !g.request, t.Bool(), t.Intn(2)
	size := t.Range(2000, 4000)
	a, na := g.message(size, resp, atEnd)
	b, nb := g.message(4*size, resp, atEnd)
	c.Log("growth: %d and %d of %s (%d and %d bytes)", na, nb, g.name, len(a), len(b))
	growthCosts(c, a[:len(a)/2], which) // whatever is set up once
	ca, cb := growthCosts(c, a, which), growthCosts(c, b, which)
	for i := range ca {
		if i >= len(cb) {
			break
		}
		what, x, y := ca[i].what, ca[i], cb[i]
		if y.steps > 8*x.steps+20000 && y.steps > floor*int64(len(b)) {
			class := "growth:" + what
			if what == "parsing" && distinctParams[g.name] && y.steps < 17*x.steps {
				class = "growth:distinct-parameters" // known: quadratic, and no worse
			}
			c.Fail(class, "%s a message of %d bytes with %d %s takes %d statements, and one of %d bytes with %d takes %d", what, len(a), na, g.name, x.steps, len(b), nb, y.steps)
		}
		if y.bytes > 8*x.bytes+400000 && y.bytes > floor*int64(len(b)) {
			c.Fail("memory growth:"+what, "%s a message of %d bytes with %d %s allocates more than eight times as much memory when there are %d", what, len(a), na, g.name, nb)
		}
	}
	c.Probe("growth measured")
	c.Nontriv = true
}
