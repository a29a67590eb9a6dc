package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	Register(&Prop{
		ID: "C07", Title: "A transaction id marks a request, its resends and responses, and nothing else",
		Quick: 20000, Thorough: 1000000,
		Rule: "one run has a client send 1-5 related requests, with retransmissions, through 0-3 relays to a server that answers each over a lossy, reordering, duplicating network; non-trivial when a response crossed the network or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)", "relay and transaction logic (harness)"},
		Run:  runTransactions,
	})
	Register(&Prop{
		ID: "C09", Title: "Both ends of a dialog name it alike, and no two dialogs share a name",
		Quick: 20000, Thorough: 1000000,
		Rule: "one run has 1-4 calls, some forked to two or three servers, set up and used in both directions over a lossy, reordering, duplicating network; non-trivial when a request came back within a dialog or a fault struck",
		Real: []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub: []string{"network (simulated)", "dialog logic (harness)"},
		Run:  runDialogs,
	})
}

// ---- C07 transaction identity

const cookie = "z9hG4bK"

func urikey(a aaddr) string {
	u := a.uri
	if u.scheme != "sip" && u.scheme != "sips" {
		return u.text
	}
	s := ""
	if u.user != "" {
		s = u.user + "@"
	}
	return s + hostport(u.host, u.port)
}

// txkey says which transaction a message belongs to.
func txkey(m *amsg) string {
	v := m.vias[0]
	if strings.HasPrefix(strings.ToLower(v.branch), strings.ToLower(cookie)) {
		return "branch " + strings.ToLower(v.branch)
	}
	p := v.port
	if p == 0 {
		p = 5060
	}
	return strings.ToLower(fmt.Sprintf("%q %q %q %q %d %q %q", urikey(m.from), m.from.tag, urikey(m.to), m.callid, m.seq, m.method, hostport(v.host, p)))
}

// ids keeps the ids of a run: one key, one id.
type ids struct {
	c        *Ctx
	class    string
	key2id   map[string]string
	id2key   map[string]string
	from     map[string]string
	describe func(msg message.Message) string
}

func newIds(c *Ctx, class string) *ids {
	return &ids{c: c, class: class, key2id: map[string]string{}, id2key: map[string]string{}, from: map[string]string{}}
}

func (x *ids) see(where, key, id string, text []byte) {
	c := x.c
	c.Log("%s %s: %q is %q", where, x.class, key, id)
	if id == "" {
		c.Fail(x.class+":empty", "%s: the id is empty\n of %q", where, text)
	}
	if have, ok := x.key2id[key]; ok && have != id {
		c.Fail(x.class+":differs", "%s: the id is %q, but was %q %s\n of %q", where, id, have, x.from[key], text)
	}
	if have, ok := x.id2key[id]; ok && have != key {
		c.Fail(x.class+":shared", "%s: the id %q of [%s] is also that of [%s] %s\n of %q", where, id, key, have, x.from[have], text)
	}
	if _, ok := x.key2id[key]; !ok {
		x.key2id[key], x.id2key[id] = id, key
		x.from[key] = where
		x.c.Count("identities")
	}
}

func txid(c *Ctx, m message.Message) (id string) {
	c.Lib("GetTransactionId", 0, func() { id = sipm(m).GetTransactionId() })
	return
}

// sibling makes a request that differs from m in one part of its identity.
func (g *G) sibling(m *amsg) *amsg {
	t := g.c.T
	n := m.clone()
	n.vias = append([]avia(nil), m.vias...)
	v := &n.vias[0]
	if strings.HasPrefix(strings.ToLower(v.branch), strings.ToLower(cookie)) {
		v.branch = v.branch + t.Of("0", "a", "-", "x1")
		g.c.Probe("sibling by branch")
		return n
	}
	k := t.Intn(6)
	g.c.Probe("sibling by " + []string{"Call-ID", "CSeq number", "method", "From tag", "To", "sent-by"}[k])
	switch k {
	case 0:
		n.callid = g.callid() + strconv.Itoa(t.Intn(100))
	case 1:
		if n.seq++; n.seq < 0 || n.seq > 1<<31-2 {
			n.seq = 1
		}
	case 2:
		n.method = stdMethods[t.Intn(len(stdMethods))]
		if n.method == m.method {
			n.method = "X" + n.method
		}
		n.star = false
	case 3:
		n.from = g.party(true)
		n.from.uri, n.from.disp = m.from.uri, ""
		n.from.tmpl = "<" + m.from.uri.text + ">;tag=" + n.from.tag
	case 4:
		n.to = g.party(false)
		if urikey(n.to) == urikey(m.to) {
			n.to.uri = auri{scheme: "sip", user: g.uniq("u"), host: "h.example"}
			n.to.uri.text = "sip:" + n.to.uri.user + "@h.example"
			n.to.disp, n.to.tmpl = "", "<"+n.to.uri.text+">"
		}
	case 5:
		if v.port == 0 || t.Bool() {
			v.port = t.Range(1024, 5059)
		} else {
			v.host = "h" + strconv.Itoa(t.Intn(1000)) + ".example.net"
		}
	}
	return n
}

type txMeta struct {
	m    *amsg // the message as it is on this hop
	hops int
}

func runTransactions(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	x := newIds(c, "transaction id")
	nrel := t.Pick(3, 3, 2, 1)
	addrs := []string{"uac"}
	for i := 0; i < nrel; i++ {
		addrs = append(addrs, fmt.Sprintf("p%d", i))
	}
	addrs = append(addrs, "uas")
	old := t.Chance(40) // RFC 2543 peers about
	node := map[string]*parser.StringMsgParser{}
	relayBranch := map[string]string{}
	receive := func(me string, d *Dgram) (message.Message, *amsg, []byte) {
		if t.Chance(5) {
			c.Fault("node restart")
			node[me] = nil
		}
		if node[me] == nil {
			node[me] = parser.NewStringMsgParser()
		}
		keep := append([]byte(nil), d.Data...)
		msg, err := parseMsg(c, node[me], d.Data)
		if err != nil || msg == nil {
			c.Fail("rejected", "a valid message is rejected (%v): %q", err, keep)
		}
		m := d.Meta.(*txMeta).m
		x.see(me+" receives", txkey(m), txid(c, msg), keep)
		return msg, m, keep
	}
	pending := map[string]*amsg{}
	answered := map[string]int{}

	// towards the server
	for i := 1; i < len(addrs); i++ {
		i, me := i, addrs[i]
		net.Listen(me, func(d *Dgram) {
			msg, m, keep := receive(me, d)
			if !m.request { // a response on its way back
				c.Nontriv = true
				n := m.clone()
				n.vias = n.vias[1:]
				c.Lib("RemoveHeader2", 0, func() { sipm(msg).RemoveHeader2("Via", true) })
				x.see(me+" sends back", txkey(n), txid(c, msg), keep)
				net.Send(me, addrs[i-1], encodeMsg(c, msg), &txMeta{m: n})
				return
			}
			if me != "uas" {
				n := m.clone()
				k := me + txkey(m)
				if _, ok := relayBranch[k]; !ok {
					b := cookie + g.uniq("r")
					if old && t.Chance(50) {
						b = t.Of("", "1", "abc.1")
					}
					relayBranch[k] = b
				}
				v := avia{transport: "UDP", host: me + ".example.com", branch: relayBranch[k]}
				if len(relayBranch)%2 == 0 {
					v.port = 5060
				}
				n.vias = append([]avia{v}, n.vias...)
				c.Lib("AddHeader(Via)", 0, func() { sipm(msg).AddHeader(mkVia(c, v)) })
				x.see(me+" forwards", txkey(n), txid(c, msg), keep)
				net.Send(me, addrs[i+1], encodeMsg(c, msg), &txMeta{m: n})
				return
			}
			// the server answers
			r := m.clone()
			r.request, r.routes, r.maxfwd, r.star = false, nil, -1, false
			r.code, r.reason = t.Of1(100, 180, 200, 302, 404, 486, 500, 603), "Reason"
			r.contacts, r.hdrs, r.body, r.ctype, r.rroutes = nil, nil, nil, "", nil
			tag := ""
			if r.to.tag == "" && t.Chance(70) {
				tag = g.uniq("st")
				r.to.tag = tag
				r.to.tmpl += "\x01;\x01tag\x01=\x01" + tag
			}
			var b []byte
			if t.Bool() {
				var resp *message.SIPResponse
				c.Lib("CreateResponse", 0, func() {
					resp = msg.(*message.SIPRequest).CreateResponse2(r.code, r.reason)
					if tag != "" {
						resp.SetToTag(tag)
					}
				})
				x.see("uas answers", txkey(r), txid(c, resp), keep)
				b = encodeMsg(c, resp)
			} else { // another implementation answers, in its own spelling
				b = r.encode(g.style())
			}
			net.Send(me, addrs[i-1], b, &txMeta{m: r})
		})
	}
	net.Listen("uac", func(d *Dgram) {
		msg, m, keep := receive("uac", d)
		id := txid(c, msg)
		var hits []*amsg
		for _, k := range sortedKeys(pending) {
			if k == id {
				hits = append(hits, pending[k])
			}
		}
		if len(hits) != 1 {
			c.Fail("transaction id:unmatched", "response %q has id %q, which is that of %d pending requests", keep, id, len(hits))
		}
		if h := hits[0]; h.callid != m.callid || h.seq != m.seq || h.method != m.method {
			c.Fail("transaction id:mismatched", "response %q is matched with the request %s %d of call %q", keep, h.method, h.seq, h.callid)
		}
		answered[id]++
		c.Count("responses matched")
	})

	n := t.Range(1, 5)
	var made []*amsg
	seen := map[string]bool{}
	for k := 0; k < n; k++ {
		var m *amsg
		if len(made) > 0 && t.Chance(60) {
			m = g.sibling(made[t.Intn(len(made))])
		} else {
			m = g.request("")
			m.vias = m.vias[:1]
			v := &m.vias[0]
			switch {
			case old && t.Chance(60):
				v.branch = t.Of("", "", "1", "z9hG4b", "abc"+g.alnum(0, 3), "x"+cookie)
			case g.wild && t.Chance(30):
				v.branch = t.Of("Z9HG4BK", "z9hg4bk", "Z9hG4bK") + g.uniq("c")
			case v.branch == "" || !strings.HasPrefix(v.branch, cookie):
				v.branch = cookie + g.uniq("")
			}
		}
		if m.body != nil && len(m.body) > 60 {
			m.body = m.body[:60]
		}
		if seen[txkey(m)] {
			continue // the same transaction by chance
		}
		seen[txkey(m)] = true
		made = append(made, m)
		b := m.encode(g.style())
		// the client's own view, before anything is sent
		own, err := parseMsg(c, parser.NewStringMsgParser(), m.canonText())
		if err != nil || own == nil {
			c.Fail("rejected", "a valid message is rejected (%v): %q", err, m.canonText())
		}
		if t.Bool() && len(canon(m.vias[0].params)) == 0 { // the Via made through the API
			c.Lib("SetHeader(Via)", 0, func() { sipm(own).SetHeader(mkVia(c, m.vias[0])) })
		}
		id := txid(c, own)
		x.see("uac", txkey(m), id, m.canonText())
		pending[id] = m
		for r := t.Pick(4, 3, 2); r >= 0; r-- { // with retransmissions
			at := time.Duration(k*10+r*35) * time.Millisecond
			if r > 0 {
				c.Probe("retransmission")
			}
			net.At(at, func() { net.Send("uac", addrs[1], b, &txMeta{m: m}) })
		}
	}
	net.At(5*time.Second, net.Heal)
	for _, m := range made {
		m := m
		b := m.encode(g.style())
		net.At(6*time.Second, func() { net.Send("uac", addrs[1], b, &txMeta{m: m}) })
	}
	net.Run()
	for _, k := range sortedKeys(pending) {
		if answered[k] == 0 {
			c.Fail("transaction id:no answer", "no response was matched with %s %d of call %q although the network works again", pending[k].method, pending[k].seq, pending[k].callid)
		}
	}
}

func sortedKeys(m map[string]*amsg) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- C09 dialog identity

func dialogID(c *Ctx, m message.Message, server bool) (id string) {
	c.Lib("GetDialogId", 0, func() {
		switch x := m.(type) {
		case *message.SIPRequest:
			id = x.GetDialogId(server)
		case *message.SIPResponse:
			id = x.GetDialogId(server)
		}
	})
	return
}

func dialogID2(c *Ctx, m message.Message, server bool, tag string) (id string) {
	c.Lib("GetDialogId2", 0, func() {
		switch x := m.(type) {
		case *message.SIPRequest:
			id = x.GetDialogId2(server, tag)
		case *message.SIPResponse:
			id = x.GetDialogId2(server, tag)
		}
	})
	return
}

// dkey names a dialog as one side sees it.
func dkey(m *amsg, local, remote aaddr) string {
	return strings.ToLower(fmt.Sprintf("%q local %q %q remote %q %q", m.callid, urikey(local), local.tag, urikey(remote), remote.tag))
}

// view is the dialog of message m for the side that received its request
// (server) or sent it.
func view(m *amsg, server bool) string {
	if server {
		return dkey(m, m.to, m.from)
	}
	return dkey(m, m.from, m.to)
}

type dlgMeta struct {
	m *amsg
}

func runDialogs(c *Ctx) {
	t := c.T
	g := NewG(c)
	net := NewSim(c)
	x := newIds(c, "dialog id")
	nuas := t.Pick(0, 4, 2, 1)
	node := map[string]*parser.StringMsgParser{}
	receive := func(me string, d *Dgram) (message.Message, *amsg, []byte) {
		if node[me] == nil || t.Chance(5) {
			if node[me] != nil {
				c.Fault("node restart")
			}
			node[me] = parser.NewStringMsgParser()
		}
		keep := append([]byte(nil), d.Data...)
		msg, err := parseMsg(c, node[me], d.Data)
		if err != nil || msg == nil {
			c.Fail("rejected", "a valid message is rejected (%v): %q", err, keep)
		}
		return msg, d.Meta.(*dlgMeta).m, keep
	}
	// plain message of a dialog
	slim := func(m *amsg) *amsg {
		n := m.clone()
		n.routes, n.rroutes, n.contacts, n.star, n.body, n.ctype = nil, nil, nil, false, nil, ""
		if len(n.hdrs) > 1 {
			n.hdrs = n.hdrs[:1]
		}
		return n
	}
	withTag := func(a aaddr, tag string) aaddr {
		a.tag = tag
		a.tmpl += "\x01;\x01tag\x01=\x01" + tag
		return a
	}
	answer := func(m *amsg, to aaddr, code int) *amsg {
		r := slim(m)
		r.request, r.maxfwd, r.code, r.reason, r.hdrs = false, -1, code, "Reason", nil
		r.to = to
		return r
	}
	localTag := map[string]string{} // at the servers: tag given to a call
	inDialog := map[string]int{}    // per end and dialog: mid-dialog requests seen

	// a side of a dialog gets a message
	for i := 0; i < nuas; i++ {
		me := fmt.Sprintf("uas%d", i)
		net.Listen(me, func(d *Dgram) {
			msg, m, keep := receive(me, d)
			if !m.request { // answers our own request within the dialog
				x.see(me+" gets an answer", view(m, false), dialogID(c, msg, false), keep)
				x.see(me+" gets an answer, tag given", view(m, false), dialogID2(c, msg, false, m.to.tag), keep)
				return
			}
			if m.to.tag != "" { // within a dialog
				c.Nontriv = true
				c.Probe("request within a dialog, caller to callee")
				k := view(m, true)
				x.see(me+" within the dialog", k, dialogID(c, msg, true), keep)
				if t.Chance(70) {
					r := answer(m, m.to, 200)
					resp := createOrSpell(c, g, msg, r, "")
					net.Send(me, "uac", resp, &dlgMeta{r})
				}
				return
			}
			// a new call
			ck := me + m.callid
			tag, ok := localTag[ck]
			if !ok {
				tag = g.uniq("ut")
				if g.wild && t.Chance(30) {
					tag = g.str(tokChars, 2, 9) + me[3:] // another server's differs
				}
				localTag[ck] = tag
			}
			to := withTag(m.to, tag)
			full := slim(m)
			full.to = to
			k := view(full, true)
			x.see(me+" gets the call", k, dialogID2(c, msg, true, tag), keep)
			for _, code := range []int{t.Of1(180, 183), 200} {
				r := answer(m, to, code)
				b := createOrSpell(c, g, msg, r, tag)
				rm, err := parseMsg(c, parser.NewStringMsgParser(), b)
				if err != nil || rm == nil {
					c.Fail("rejected", "a valid message is rejected (%v): %q", err, b)
				}
				x.see(me+" answers", k, dialogID(c, rm, true), b)
				x.see(me+" answers, tag given", k, dialogID2(c, rm, true, tag), b)
				net.Send(me, "uac", b, &dlgMeta{r})
			}
			// later the callee calls back within the dialog
			if t.Chance(60) {
				q := slim(m)
				q.method = t.Of("BYE", "INFO", "INVITE", "UPDATE")
				q.seq = int(t.Log(20))
				q.from, q.to = to, m.from
				b := q.encode(g.style())
				qm, err := parseMsg(c, parser.NewStringMsgParser(), b)
				if err != nil || qm == nil {
					c.Fail("rejected", "a valid message is rejected (%v): %q", err, b)
				}
				x.see(me+" makes a request", k, dialogID(c, qm, false), b)
				net.At(40*time.Millisecond, func() { net.Send(me, "uac", b, &dlgMeta{q}) })
			}
		})
	}
	calls := map[string]*amsg{}
	net.Listen("uac", func(d *Dgram) {
		msg, m, keep := receive("uac", d)
		if !m.request {
			k := view(m, false)
			x.see("uac gets an answer", k, dialogID(c, msg, false), keep)
			inv := calls[m.callid]
			if inv != nil && m.method == inv.method {
				// the id the caller computes from its own request and the tag
				own, err := parseMsg(c, parser.NewStringMsgParser(), inv.canonText())
				if err != nil || own == nil {
					c.Fail("rejected", "a valid message is rejected (%v): %q", err, inv.canonText())
				}
				x.see("uac from its request", k, dialogID2(c, own, false, m.to.tag), keep)
				if inv.to.tag == "" {
					early := dialogID(c, own, false)
					if have, ok := x.id2key[early]; ok {
						c.Fail("dialog id:early", "the id %q of the request without a To tag is that of dialog [%s]", early, have)
					}
					if t.Bool() { // the same object becomes a request within the dialog
						c.Lib("SetTag", 0, func() {
							if t.Bool() {
								sipm(own).SetToTag(m.to.tag)
							} else {
								sipm(own).GetTo().SetTag(m.to.tag)
							}
						})
						x.see("uac from its request, made one of the dialog", k, dialogID(c, own, false), keep)
					}
				}
			}
			if m.code == 200 && inDialog[k] < 2 && inv != nil && m.method == inv.method {
				inDialog[k]++
				q := slim(m)
				q.request = true
				q.ruri = inv.ruri
				q.method = t.Of("BYE", "INFO", "INVITE", "UPDATE", "ACK")
				q.seq = int(t.Log(20))
				q.maxfwd = 70
				b := q.encode(g.style())
				qm, err := parseMsg(c, parser.NewStringMsgParser(), b)
				if err != nil || qm == nil {
					c.Fail("rejected", "a valid message is rejected (%v): %q", err, b)
				}
				x.see("uac makes a request", k, dialogID(c, qm, false), b)
				net.Send("uac", d.From, b, &dlgMeta{q})
			}
			return
		}
		c.Nontriv = true
		c.Probe("request within a dialog, callee to caller")
		k := view(m, true)
		x.see("uac within the dialog", k, dialogID(c, msg, true), keep)
		r := answer(m, m.to, 200)
		net.Send("uac", d.From, createOrSpell(c, g, msg, r, ""), &dlgMeta{r})
	})

	n := t.Range(1, 4)
	var made []*amsg
	used := map[string]bool{}
	for k := 0; k < n; k++ {
		m := slim(g.request("INVITE"))
		m.to = g.party(false)
		if len(made) > 0 && t.Chance(60) { // alike but for one part
			o := made[t.Intn(len(made))]
			p := o.clone()
			switch t.Intn(4) {
			case 0:
				p.callid = m.callid + "x"
				c.Probe("dialogs differ by Call-ID")
			case 1:
				p.from.tag = g.uniq("ft")
				p.from.disp = ""
				p.from.tmpl = "<" + o.from.uri.text + ">;tag=" + p.from.tag
				p.callid = o.callid + strconv.Itoa(k) // calls are told apart at the servers by it
				c.Probe("dialogs differ by From tag")
			case 2:
				p.to = m.to
				p.callid = o.callid + strconv.Itoa(k)
				c.Probe("dialogs differ by To")
			case 3: // the parties swapped
				p.from = withTag(o.to, g.uniq("sw"))
				p.to = aaddr{uri: o.from.uri, tmpl: "<" + o.from.uri.text + ">"}
				p.callid = o.callid + strconv.Itoa(k)
				c.Probe("dialogs between the same parties, swapped")
			}
			m = p
		}
		if used[strings.ToLower(m.callid)] {
			continue
		}
		used[strings.ToLower(m.callid)] = true
		made = append(made, m)
		calls[m.callid] = m
		b := m.encode(g.style())
		for i := 0; i < nuas; i++ { // forked
			me := fmt.Sprintf("uas%d", i)
			for r := t.Pick(4, 2); r >= 0; r-- {
				net.At(time.Duration(k*20+r*50)*time.Millisecond, func() { net.Send("uac", me, b, &dlgMeta{m}) })
			}
		}
	}
	net.At(5*time.Second, net.Heal)
	net.Run()
}

// createOrSpell encodes a response made by the library or by somebody else.
func createOrSpell(c *Ctx, g *G, req message.Message, r *amsg, tag string) (b []byte) {
	if c.T.Bool() {
		return r.encode(g.style())
	}
	var resp *message.SIPResponse
	c.Lib("CreateResponse", 0, func() {
		resp = req.(*message.SIPRequest).CreateResponse2(r.code, r.reason)
	})
	before := ""
	if tag != "" && c.T.Bool() { // known by its early id, then by its own
		before = dialogID(c, resp, true)
	}
	if tag != "" {
		c.Lib("SetToTag", 0, func() {
			if len(before)%2 == 0 {
				resp.SetToTag(tag)
			} else {
				resp.GetTo().SetTag(tag)
			}
		})
	}
	b = encodeMsg(c, resp)
	rm, err := parseMsg(c, parser.NewStringMsgParser(), append([]byte(nil), b...))
	if err != nil || rm == nil {
		c.Fail("rejected", "a valid message is rejected (%v): %q", err, b)
	}
	if own, read := dialogID(c, resp, true), dialogID(c, rm, true); own != read {
		c.Fail("dialog id:own", "the response has id %q at its maker and %q when read: %q", own, read, b)
	}
	return b
}

var _ = header.NewVia
