package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
	"github.com/use-go/gosips/sip/parser"
)

func init() {
	Register(&Prop{
		ID: "C26", Title: "Capabilities, redirections and transfers are negotiated to the outcome both sides' abilities allow",
		Quick: 20000, Thorough: 1000000,
		Rule:   "one run has up to four jobs (a message or query to be delivered, or a transfer by REFER) find their way through one to three servers that refuse methods, options, media types, encodings and languages, redirect, and are busy for a while, through a relay that parses and encodes everything, over a lossy, reordering, duplicating network with partitions; non-trivial when a job took more than one request or a fault struck",
		Real:   []string{"sip/parser", "sip/message", "sip/header", "sip/address", "core"},
		Stub:   []string{"network and clock (simulated)", "client, server and relay logic (harness)"},
		Assume: []string{"the harness follows RFC 3261, sections 8.1.3, 8.2, 19.1.5 and 20, and RFC 3515 in what clients and servers do"},
		Run:    runNegotiate,
	})
}

// ngKind is a header field that takes part: how it is spelled, set and read.
type ngKind struct {
	name string
	list bool
	tmpl func(a *app, v []string) string
	mk   func(a *app, v []string) header.Header
	rd   func(h header.Header) []string
	uri  int // index of a URI among the values, or -1
}

func (k *ngKind) norm(v []string) []string {
	if k.uri < 0 {
		return v
	}
	w := append([]string(nil), v...)
	w[k.uri] = nuri(w[k.uri])
	return w
}

func ngTok(name string, list bool, mk func(a *app, v string) header.Header, rd func(h header.Header) string) *ngKind {
	return &ngKind{name, list, func(a *app, v []string) string { return strings.Replace(v[0], " ", "\x02", -1) },
		func(a *app, v []string) header.Header { return mk(a, v[0]) },
		func(h header.Header) []string { return []string{rd(h)} }, -1}
}

func ngQ(has bool, q float32) string {
	if !has {
		return ""
	}
	return fmt.Sprint(q)
}

func (a *app) qtmpl(q string) string {
	if q == "" {
		return ""
	}
	if q == "1" || q == "0" {
		q = a.t.Of(q, q+".0", q+".000")
	} else if len(q) < 5 {
		q += a.t.Of("", "0")
	}
	return "\x01;\x01q\x01=\x01" + q
}

type ngQer interface {
	HasQValue() bool
	GetQValue() float32
	SetQValue(q float32) error
}

func (a *app) setq(h ngQer, q string) {
	if q != "" {
		a.must("q", h.SetQValue(qOf(q)))
	}
}

var ngKinds = []*ngKind{
	ngTok("Allow", true, func(a *app, v string) header.Header {
		h := header.NewAllow()
		a.must("Allow", h.SetMethod(v))
		return h
	},
		func(h header.Header) string { return h.(*header.Allow).GetMethod() }),
	ngTok("Require", true, func(a *app, v string) header.Header {
		h := header.NewRequire()
		a.must("Require", h.SetOptionTag(v))
		return h
	}, func(h header.Header) string { return h.(*header.Require).GetOptionTag() }),
	ngTok("Supported", true, func(a *app, v string) header.Header {
		h := header.NewSupported()
		a.must("Supported", h.SetOptionTag(v))
		return h
	}, func(h header.Header) string { return h.(*header.Supported).GetOptionTag() }),
	ngTok("Unsupported", true, func(a *app, v string) header.Header {
		h := header.NewUnsupported()
		a.must("Unsupported", h.SetOptionTag(v))
		return h
	}, func(h header.Header) string { return h.(*header.Unsupported).GetOptionTag() }),
	{"Accept", true, func(a *app, v []string) string { return v[0] + "\x01/\x01" + v[1] + a.qtmpl(v[2]) },
		func(a *app, v []string) header.Header {
			h := header.NewAccept()
			if a.t.Bool() {
				h.SetContentType(v[0])
				h.SetContentSubType(v[1])
			} else {
				m := header.NewMediaRange()
				m.SetType(v[0])
				m.SetSubtype(v[1])
				h.SetMediaRange(m)
			}
			a.setq(h, v[2])
			return h
		},
		func(h header.Header) []string {
			x := h.(*header.Accept)
			v := []string{x.GetContentType(), x.GetContentSubType(), ngQ(x.HasQValue(), x.GetQValue())}
			if x.AllowsAllContentTypes() != (v[0] == "*") || x.AllowsAllContentSubTypes() != (v[1] == "*") {
				v[0] = "what it allows is told wrongly: " + v[0]
			}
			return v
		}, -1},
	{"Accept-Encoding", true, func(a *app, v []string) string { return v[0] + a.qtmpl(v[1]) },
		func(a *app, v []string) header.Header {
			h := header.NewAcceptEncoding()
			a.must("Accept-Encoding", h.SetEncoding(v[0]))
			a.setq(h, v[1])
			return h
		},
		func(h header.Header) []string {
			x := h.(*header.AcceptEncoding)
			return []string{x.GetEncoding(), ngQ(x.HasQValue(), x.GetQValue())}
		}, -1},
	{"Accept-Language", true, func(a *app, v []string) string { return v[0] + a.qtmpl(v[1]) },
		func(a *app, v []string) header.Header {
			h := header.NewAcceptLanguage()
			if a.t.Bool() {
				h.SetLanguageRange(v[0])
			} else {
				h.SetAcceptLanguage(v[0])
			}
			a.setq(h, v[1])
			return h
		},
		func(h header.Header) []string {
			x := h.(*header.AcceptLanguage)
			if x.GetAcceptLanguage() != x.GetLanguageRange() {
				return []string{x.GetAcceptLanguage() + " or " + x.GetLanguageRange()}
			}
			return []string{x.GetLanguageRange(), ngQ(x.HasQValue(), x.GetQValue())}
		}, -1},
	ngTok("Content-Encoding", true, func(a *app, v string) header.Header {
		h := header.NewContentEncoding()
		a.must("Content-Encoding", h.SetEncoding(v))
		return h
	}, func(h header.Header) string { return h.(*header.ContentEncoding).GetEncoding() }),
	ngTok("Content-Language", true, func(a *app, v string) header.Header {
		h := header.NewContentLanguage()
		h.SetLanguageTag(v)
		return h
	}, func(h header.Header) string { return h.(*header.ContentLanguage).GetLanguageTag() }),
	{"Content-Disposition", false, func(a *app, v []string) string {
		s := v[0]
		if v[1] != "" {
			s += "\x01;\x01handling\x01=\x01" + v[1]
		}
		return s
	}, func(a *app, v []string) header.Header {
		h := header.NewContentDisposition()
		a.must("disposition", h.SetDispositionType(v[0]))
		if v[1] != "" {
			a.must("handling", h.SetHandling(v[1]))
		}
		return h
	}, func(h header.Header) []string {
		x := h.(*header.ContentDisposition)
		return []string{x.GetDispositionType(), x.GetHandling()}
	}, -1},
	{"Contact", true, func(a *app, v []string) string { return "<" + v[0] + ">" + a.qtmpl(v[1]) },
		func(a *app, v []string) header.Header {
			h := header.NewContact()
			h.SetAddress(mkAddr(a.c, v[0]))
			a.setq(h, v[1])
			return h
		},
		func(h header.Header) []string {
			x := h.(*header.Contact)
			return []string{x.GetAddress().GetURI().String(), ngQ(x.HasQValue(), x.GetQValue())}
		}, 0},
	{"Retry-After", false, func(a *app, v []string) string {
		s := "\x03" + v[0]
		if v[2] != "" {
			s += "\x01(" + v[2] + ")"
		}
		if v[1] != "0" {
			s += "\x01;\x01duration\x01=\x01" + v[1]
		}
		return s
	}, func(a *app, v []string) header.Header {
		h := header.NewRetryAfter()
		a.must("Retry-After", h.SetRetryAfter(atoi(v[0])))
		if v[1] != "0" {
			a.must("duration", h.SetDuration(atoi(v[1])))
		}
		if v[2] != "" {
			a.must("comment", h.SetComment(v[2]))
		}
		return h
	}, func(h header.Header) []string {
		x := h.(*header.RetryAfter)
		v := []string{strconv.Itoa(x.GetRetryAfter()), "0", x.GetComment()}
		if x.HasParameter("duration") {
			v[1] = strconv.Itoa(x.GetDuration())
		}
		if x.HasComment() != (v[2] != "") {
			v[2] = "HasComment is wrong about " + v[2]
		}
		return v
	}, -1},
	{"Warning", true, func(a *app, v []string) string { return v[0] + "\x02" + v[1] + "\x02\"" + v[2] + "\"" },
		func(a *app, v []string) header.Header {
			h := header.NewWarning()
			a.must("warn code", h.SetCode(atoi(v[0])))
			a.must("warn agent", h.SetAgent(v[1]))
			a.must("warn text", h.SetText(v[2]))
			return h
		},
		func(h header.Header) []string {
			x := h.(*header.Warning)
			return []string{strconv.Itoa(x.GetCode()), x.GetAgent(), x.GetText()}
		}, -1},
	{"Error-Info", true, func(a *app, v []string) string {
		s := "<" + v[0] + ">"
		if v[1] != "" {
			s += "\x01;\x01x-why\x01=\x01" + v[1]
		}
		return s
	}, func(a *app, v []string) header.Header {
		h := header.NewErrorInfo()
		if a.t.Bool() {
			h = header.NewErrorInfoFromURI(mkURI(a.c, v[0]))
		} else {
			h.SetErrorInfo(mkURI(a.c, v[0]))
		}
		if v[1] != "" {
			a.must("Error-Info parameter", h.SetParameter("x-why", v[1]))
		}
		return h
	}, func(h header.Header) []string {
		x := h.(*header.ErrorInfo)
		return []string{x.GetErrorInfo().String(), x.GetParameter("x-why")}
	}, 0},
	ngTok("In-Reply-To", true, func(a *app, v string) header.Header {
		h := header.NewInReplyTo()
		a.must("In-Reply-To", h.SetCallId(v))
		return h
	}, func(h header.Header) string { return h.(*header.InReplyTo).GetCallId() }),
	{"Reply-To", false, func(a *app, v []string) string {
		s := "<" + v[1] + ">"
		if v[0] != "" {
			s = "\"" + v[0] + "\"\x01" + s
		}
		return s
	}, func(a *app, v []string) header.Header {
		ad := mkAddr(a.c, v[1])
		if v[0] != "" {
			ad.SetDisplayName(v[0])
		}
		if a.t.Bool() {
			return header.NewReplyToFromAddress(ad)
		}
		h := header.NewReplyTo()
		h.SetAddress(ad)
		return h
	}, func(h header.Header) []string {
		x := h.(*header.ReplyTo)
		return []string{x.GetDisplayName(), x.GetAddress().GetURI().String()}
	}, 1},
	{"Refer-To", false, func(a *app, v []string) string { return "<" + v[0] + ">" },
		func(a *app, v []string) header.Header {
			h := header.NewReferTo()
			ad := address.NewAddressImpl()
			ad.SetURI(a.mkTarget(v[0]))
			h.SetAddress(ad)
			return h
		},
		func(h header.Header) []string { return []string{h.(*header.ReferTo).GetAddress().GetURI().String()} }, 0},
	{"Referred-By", false, func(a *app, v []string) string { return "<" + v[0] + ">" },
		func(a *app, v []string) header.Header {
			h := header.NewExtension("Referred-By")
			h.SetValue("<" + v[0] + ">")
			return h
		},
		func(h header.Header) []string {
			return []string{strings.Trim(h.(*header.Extension).GetValue(), "<> \t\r\n")}
		}, -1},
	{"Date", false, func(a *app, v []string) string {
		return time.Unix(int64(atoi(v[0])), 0).UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
	}, func(a *app, v []string) header.Header {
		h := header.NewDate()
		d := time.Unix(int64(atoi(v[0])), 0).UTC()
		h.SetDate(&d)
		return h
	}, func(h header.Header) []string {
		return []string{strconv.FormatInt(h.(*header.Date).GetDate().Unix(), 10)}
	}, -1},
	ngTok("Subject", false, func(a *app, v string) header.Header {
		h := header.NewSubject()
		a.must("Subject", h.SetSubject(v))
		return h
	}, func(h header.Header) string { return squeeze(h.(*header.Subject).GetSubject()) }),
	ngTok("Priority", false, func(a *app, v string) header.Header {
		h := header.NewPriority()
		a.must("Priority", h.SetPriority(v))
		return h
	}, func(h header.Header) string { return h.(*header.Priority).GetPriority() }),
	ngTok("Organization", false, func(a *app, v string) header.Header {
		h := header.NewOrganization()
		a.must("Organization", h.SetOrganization(v))
		return h
	}, func(h header.Header) string { return squeeze(h.(*header.Organization).GetOrganization()) }),
	{"Content-Type", false, func(a *app, v []string) string {
		s := v[0] + "\x01/\x01" + v[1]
		if v[2] != "" {
			p := strings.SplitN(v[2], "=", 2)
			s += "\x01;\x01" + p[0] + "\x01=\x01" + p[1]
		}
		return s
	}, func(a *app, v []string) header.Header {
		h := header.NewContentType()
		a.must("Content-Type", h.SetContentType(v[0]))
		a.must("Content-Type", h.SetContentSubType(v[1]))
		if v[2] != "" {
			p := strings.SplitN(v[2], "=", 2)
			a.must("Content-Type parameter", h.SetParameter(p[0], p[1]))
		}
		return h
	}, func(h header.Header) []string {
		x := h.(*header.ContentType)
		v := []string{x.GetMediaType(), x.GetMediaSubType(), ""}
		if !x.CompareMediaRange(strings.ToUpper(v[0])+"/"+v[1]) || x.CompareMediaRange(v[0]+"/"+v[1]+"x") {
			v[0] = "CompareMediaRange is wrong about " + v[0]
		}
		for _, n := range []string{"charset", "version"} {
			if x.HasParameter(n) {
				v[2] += n + "=" + x.GetParameter(n)
			}
		}
		if p := x.GetCharSet(); p != "" && v[2] != "charset="+p {
			v[2] += " but charset " + p
		}
		return v
	}, -1},
}

// ngSays is what a message means.
type ngSays struct {
	code           int
	method, target string
	body           string
	h              map[string][][]string
}

func newNg() *ngSays { return &ngSays{h: map[string][][]string{}} }

func (s *ngSays) add(name string, v ...string) { s.h[name] = append(s.h[name], v) }

func (s *ngSays) String() string {
	m := fmt.Sprintf("%d %s %s", s.code, s.method, nuri(s.target))
	if s.code > 0 {
		m = fmt.Sprint(s.code)
	}
	for _, k := range ngKinds {
		for _, v := range s.h[k.name] {
			m += fmt.Sprintf(" %s%q", k.name, k.norm(v))
		}
	}
	return m + fmt.Sprintf(" body %q", s.body)
}

func same2(a, b [][]string) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// ngTgt is where a request is to go, and what else its URI asks for.
type ngTgt struct {
	uri    string
	method string
	hdrs   [][2]string
	q      float32
	lib    address.URI // as the library has it
}

func (x *ngTgt) String() string { return fmt.Sprint(nuri(x.uri), " ", x.method, " ", x.hdrs) }

func unescape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if n, err := strconv.ParseUint(s[i+1:i+3], 16, 8); err == nil {
				b = append(b, byte(n))
				i += 2
				continue
			}
		}
		b = append(b, s[i])
	}
	return string(b)
}

func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(alnum+"-.!*'()/:[]", s[i]) >= 0 {
			b.WriteByte(s[i])
		} else {
			fmt.Fprintf(&b, "%%%02X", s[i])
		}
	}
	return b.String()
}

// ngCut reads a target from the text of the URI.
func ngCut(text, q string) *ngTgt {
	x := &ngTgt{uri: text, q: 1}
	if q != "" {
		x.q = qOf(q)
	}
	if i := strings.IndexByte(x.uri, '?'); i >= 0 {
		for _, p := range strings.Split(x.uri[i+1:], "&") {
			nv := strings.SplitN(p, "=", 2)
			x.hdrs = append(x.hdrs, [2]string{nv[0], unescape(nv[1])})
		}
		x.uri = x.uri[:i]
	}
	if i := strings.Index(x.uri, ";method="); i >= 0 {
		r := x.uri[i+8:]
		rest := ""
		if j := strings.IndexByte(r, ';'); j >= 0 {
			r, rest = r[:j], r[j:]
		}
		x.method, x.uri = r, x.uri[:i]+rest
	}
	return x
}

// mkTarget makes the URI through setters, or from the text.
func (a *app) mkTarget(text string) address.URI {
	x := ngCut(text, "")
	if a.t.Bool() {
		return mkURI(a.c, text)
	}
	u := mkURI(a.c, x.uri).(*address.SipURIImpl)
	if x.method != "" {
		u.SetMethod(x.method)
	}
	for _, h := range x.hdrs {
		u.SetHeader(h[0], escape(h[1]))
	}
	return u
}

// ngLib reads a target from what the library has of it.
func ngLib(c *Ctx, u address.URI, q string, keep []byte) (x *ngTgt) {
	c.Lib("reading a target", 0, func() {
		text := u.String()
		v := u.Clone().(*address.SipURIImpl)
		x = &ngTgt{q: 1}
		if q != "" {
			x.q = qOf(q)
		}
		for e := v.GetHeaderNames().Front(); e != nil; e = e.Next() {
			n := e.Value.(string)
			x.hdrs = append(x.hdrs, [2]string{n, unescape(v.GetHeader(n))})
		}
		x.method = v.GetMethod()
		if len(x.hdrs) > 0 && c.T.Bool() {
			for _, h := range x.hdrs {
				v.RemoveHeader(h[0])
			}
		} else {
			v.RemoveHeaders()
		}
		v.RemoveMethod()
		x.uri, x.lib = v.String(), v
		if u.String() != text {
			c.Fail("target:changed", "taking a copy apart changed %q to %q", text, u.String())
		}
		sort.Slice(x.hdrs, func(i, j int) bool { return x.hdrs[i][0] < x.hdrs[j][0] })
		w := ngCut(text, "")
		sort.Slice(w.hdrs, func(i, j int) bool { return w.hdrs[i][0] < w.hdrs[j][0] })
		if x.String() != w.String() {
			c.Fail("target", "%q is taken apart as %v, which should be %v: %q", text, x, w, keep)
		}
	})
	return
}

// ---- what both sides do, on what messages mean

func ngIn(l []string, v string) bool {
	for _, x := range l {
		if strings.EqualFold(x, v) {
			return true
		}
	}
	return false
}

func ngTypeRank(prefs [][]string, v string) float32 {
	if len(prefs) == 0 {
		return 1
	}
	r, spec := float32(0), -1
	for _, p := range prefs {
		s := -1
		switch {
		case p[0] == "*":
			s = 0
		case p[1] == "*" && strings.EqualFold(p[0], strings.SplitN(v, "/", 2)[0]):
			s = 1
		case strings.EqualFold(p[0]+"/"+p[1], v):
			s = 2
		}
		if s > spec {
			spec, r = s, 1
			if p[2] != "" {
				r = qOf(p[2])
			}
		}
	}
	return r
}

func ngWordRank(prefs [][]string, v string, lang bool) float32 {
	if len(prefs) == 0 {
		return 1
	}
	if v == "" && lang {
		return 1
	}
	r, spec := float32(0), -1
	if v == "" {
		v, r = "identity", 0.0005
	}
	for _, p := range prefs {
		s := -1
		switch {
		case p[0] == "*":
			s = 0
			if v == "identity" {
				s = -1
			}
		case strings.EqualFold(p[0], v):
			s = 100
		case lang && len(v) > len(p[0]) && strings.EqualFold(v[:len(p[0])+1], p[0]+"-"):
			s = len(p[0])
		}
		if s > spec {
			spec, r = s, 1
			if p[1] != "" {
				r = qOf(p[1])
			}
		}
	}
	return r
}

func ngBest(have []string, rank func(string) float32) (v string, ok bool) {
	best := float32(0)
	for _, x := range have {
		if r := rank(x); r > best {
			v, ok, best = x, true, r
		}
	}
	return
}

func ngBestOf(s *ngSays, types, encs, langs []string) (tp, enc, lang string, ok bool) {
	tp, ok1 := ngBest(types, func(v string) float32 { return ngTypeRank(s.h["Accept"], v) })
	enc, ok2 := ngBest(encs, func(v string) float32 { return ngWordRank(s.h["Accept-Encoding"], v, false) })
	lang, ok3 := ngBest(langs, func(v string) float32 { return ngWordRank(s.h["Accept-Language"], v, true) })
	return tp, enc, lang, ok1 && ok2 && ok3
}

type ngUser struct {
	kind     string // here, moved, gone, busy
	code     int
	contacts [][]string
	retry    []string
	warn     [][]string
	einfo    [][]string
}

type ngServer struct {
	host                string
	methods             []string
	options             []string
	accept, aenc, alang [][]string
	types, encs, langs  []string // of its answers
	users               map[string]*ngUser
	org                 string
	api                 bool
}

func ngUserOf(target string) string {
	u := strings.TrimPrefix(target, "sip:")
	return u[:strings.IndexByte(u, '@')]
}

func ngHostOf(target string) string {
	u := target[strings.IndexByte(target, '@')+1:]
	if i := strings.IndexAny(u, ";?"); i >= 0 {
		u = u[:i]
	}
	return strings.ToLower(u)
}

// decide is what the server answers. busy tells for how long the user is.
func (sv *ngServer) decide(s *ngSays, user string, busy func(u *ngUser) int) *ngSays {
	r := newNg()
	if s.method == "NOTIFY" {
		r.code = 200
		return r
	}
	if !ngIn(sv.methods, s.method) {
		r.code = 405
		for _, m := range sv.methods {
			r.add("Allow", m)
		}
		return r
	}
	for _, o := range s.h["Require"] {
		if !ngIn(sv.options, o[0]) {
			r.code = 420
			r.add("Unsupported", o[0])
		}
	}
	if r.code != 0 {
		return r
	}
	u := sv.users[user]
	if u == nil {
		r.code = 404
		return r
	}
	switch u.kind {
	case "gone":
		r.code = u.code
		r.h["Warning"], r.h["Error-Info"] = u.warn, u.einfo
		return r
	case "moved":
		r.code = u.code
		r.h["Contact"] = u.contacts
		return r
	case "busy":
		if n := busy(u); n > 0 {
			r.code = u.code
			r.add("Retry-After", strconv.Itoa(n), u.retry[1], u.retry[2])
			return r
		}
	}
	if s.method == "REFER" {
		r.code = 202
		return r
	}
	optional := len(s.h["Content-Disposition"]) > 0 && s.h["Content-Disposition"][0][1] == "optional"
	seen := s.body
	if s.body != "" {
		ct := s.h["Content-Type"][0]
		enc, lang := "", ""
		if l := s.h["Content-Encoding"]; len(l) > 0 {
			enc = l[0][0]
		}
		if l := s.h["Content-Language"]; len(l) > 0 {
			lang = l[0][0]
		}
		x := newNg()
		if ngTypeRank(sv.accept, ct[0]+"/"+ct[1]) == 0 {
			x.h["Accept"] = sv.accept
		}
		if ngWordRank(sv.aenc, enc, false) == 0 {
			x.h["Accept-Encoding"] = sv.aenc
		}
		if ngWordRank(sv.alang, lang, true) == 0 {
			x.h["Accept-Language"] = sv.alang
		}
		if len(x.h) > 0 {
			if !optional {
				x.code = 415
				return x
			}
			seen = "(not understood)"
		}
	}
	tp, enc, lang, ok := ngBestOf(s, sv.types, sv.encs, sv.langs)
	if !ok {
		r.code = 406
		r.add("Warning", "399", sv.host, "nothing you accept")
		return r
	}
	r.code = 200
	f := strings.SplitN(tp, "/", 2)
	r.add("Content-Type", f[0], f[1], "charset=utf-8")
	if enc != "" {
		r.add("Content-Encoding", enc)
	}
	if lang != "" {
		r.add("Content-Language", lang)
	}
	for _, o := range sv.options {
		r.add("Supported", o)
	}
	if sv.org != "" {
		r.add("Organization", sv.org)
	}
	r.body = fmt.Sprintf("%s at %s got %s %v%v%v%v from %v: %s", user, sv.host, s.method, s.h["Subject"], s.h["Priority"], s.h["In-Reply-To"], s.h["Date"], s.h["Reply-To"], seen)
	return r
}

// ngJob is what a client wants done.
type ngJob struct {
	node                string
	api                 bool
	methods             []string
	types, encs, langs  []string
	optional            bool
	require             []string
	essential           bool
	accept, aenc, alang [][]string
	more                [][]string // Subject and so on: name, values
	refer               string
	first               *ngTgt
	n                   int
	// of a transfer
	parent *ngJob
	// the work
	st    *ngState
	trail []string
	over  bool
	last  *message.SIPRequest
	lastS *ngSays
	seq   int
	id    string
	key   string
	told  string // what NOTIFY said
	tag   string
}

// ngState is how far a job has got.
type ngState struct {
	cur      *ngTgt
	queue    []*ngTgt
	tried    []string
	mi       int
	tp       string
	enc      string
	lang     string
	optional bool
	require  []string
	any      bool
	n        int
}

func (j *ngJob) start() *ngState {
	s := &ngState{cur: j.first, tried: []string{nuri(j.first.uri)}, tp: j.types[0], enc: j.encs[0], lang: j.langs[0], require: j.require}
	if j.first.method != "" {
		s.mi = -1
	}
	return s
}

func (j *ngJob) method(s *ngState) string {
	if s.mi < 0 {
		return j.first.method
	}
	return j.methods[s.mi]
}

// compose makes the next request.
func (j *ngJob) compose(s *ngState) *ngSays {
	r := newNg()
	r.method, r.target = j.method(s), s.cur.uri
	for _, o := range s.require {
		r.add("Require", o)
	}
	for _, m := range j.more {
		r.add(m[0], m[1:]...)
	}
	body := fmt.Sprintf("job %d as %s %s %s", j.n, s.tp, s.enc, s.lang)
	for _, h := range s.cur.hdrs {
		if h[0] == "body" {
			body = h[1]
		} else {
			r.h[h[0]] = [][]string{{h[1]}}
		}
	}
	if j.refer != "" {
		r.add("Refer-To", j.refer)
		r.add("Referred-By", "sip:"+j.node)
		return r
	}
	if !s.any {
		r.h["Accept"], r.h["Accept-Encoding"], r.h["Accept-Language"] = j.accept, j.aenc, j.alang
	}
	if r.method != "OPTIONS" {
		r.body = body
		f := strings.SplitN(s.tp, "/", 2)
		r.add("Content-Type", f[0], f[1], "")
		if s.enc != "" {
			r.add("Content-Encoding", s.enc)
		}
		if s.lang != "" {
			r.add("Content-Language", s.lang)
		}
		if s.optional {
			r.add("Content-Disposition", "render", "optional")
		} else if j.optional {
			r.add("Content-Disposition", "render", "required")
		}
	}
	return r
}

// next says whether there is more to do after an answer, and when.
func (j *ngJob) next(s *ngState, r *ngSays, targets []*ngTgt) (again bool, wait int) {
	s.n++
	if s.n >= 25 || r.code/100 == 2 {
		return false, 0
	}
	switch {
	case r.code == 405:
		var allow []string
		for _, m := range r.h["Allow"] {
			allow = append(allow, m[0])
		}
		for i := s.mi + 1; i < len(j.methods); i++ {
			if ngIn(allow, j.methods[i]) {
				s.mi = i
				return true, 0
			}
		}
	case r.code == 420:
		var left []string
		for _, o := range s.require {
			bad := false
			for _, x := range r.h["Unsupported"] {
				bad = bad || strings.EqualFold(x[0], o)
			}
			if !bad {
				left = append(left, o)
			}
		}
		if !j.essential && len(left) < len(s.require) {
			s.require = left
			return true, 0
		}
	case r.code == 415:
		tp, enc, lang := s.tp, s.enc, s.lang
		ok := true
		if l := r.h["Accept"]; len(l) > 0 {
			tp, ok = ngBest(j.types, func(v string) float32 { return ngTypeRank(l, v) })
		}
		if l := r.h["Accept-Encoding"]; ok && len(l) > 0 {
			enc, ok = ngBest(j.encs, func(v string) float32 { return ngWordRank(l, v, false) })
		}
		if l := r.h["Accept-Language"]; ok && len(l) > 0 {
			lang, ok = ngBest(j.langs, func(v string) float32 { return ngWordRank(l, v, true) })
		}
		if ok && (tp != s.tp || enc != s.enc || lang != s.lang) {
			s.tp, s.enc, s.lang = tp, enc, lang
			return true, 0
		}
		if j.optional && !s.optional {
			s.optional = true
			return true, 0
		}
	case r.code == 406 && !s.any:
		s.any = true
		return true, 0
	case r.code/100 == 3:
		for _, x := range targets {
			if x.q > 0 {
				s.queue = append(s.queue, x)
			}
		}
		sort.SliceStable(s.queue, func(i, j int) bool { return s.queue[i].q > s.queue[j].q })
	case len(r.h["Retry-After"]) > 0:
		return true, atoi(r.h["Retry-After"][0][0])
	}
	if r.code >= 600 {
		return false, 0
	}
	for len(s.queue) > 0 {
		x := s.queue[0]
		s.queue = s.queue[1:]
		seen := false
		for _, y := range s.tried {
			seen = seen || y == nuri(x.uri)
		}
		if !seen {
			s.cur, s.tried = x, append(s.tried, nuri(x.uri))
			return true, 0
		}
	}
	return false, 0
}

// transfer is the job that a REFER asks for.
func (j *ngJob) transfer(host string, tgt *ngTgt) *ngJob {
	k := &ngJob{node: host, methods: []string{"MESSAGE", "OPTIONS"}, types: []string{"text/plain"}, encs: []string{""}, langs: []string{""}, first: tgt, n: j.n, parent: j}
	k.more = [][]string{{"Referred-By", "sip:" + j.node}}
	if tgt.method == "" {
		k.first = &ngTgt{uri: tgt.uri, hdrs: tgt.hdrs, lib: tgt.lib}
	}
	return k
}

// walk is the outcome without any messages.
func (j *ngJob) walk(servers map[string]*ngServer) (trail []string) {
	s := j.start()
	was := map[*ngUser]bool{}
	for {
		q := j.compose(s)
		host := ngHostOf(q.target)
		r := servers[host].decide(q, ngUserOf(q.target), func(u *ngUser) int {
			if was[u] {
				return 0
			}
			was[u] = true
			return atoi(u.retry[0])
		})
		trail = append(trail, fmt.Sprintf("%s %s: %d %s", q.method, nuri(q.target), r.code, r.body))
		if r.code == 202 {
			t := ngCut(j.refer, "")
			k := j.transfer(host, t)
			trail = append(trail, "told "+strings.Join(k.walk(servers), "; "))
		}
		var ts []*ngTgt
		for _, x := range r.h["Contact"] {
			ts = append(ts, ngCut(x[0], x[1]))
		}
		if again, _ := j.next(s, r, ts); !again {
			return
		}
	}
}

type ngMeta struct {
	tx   int
	s    *ngSays
	from string
	to   string
	m    *amsg // of a request
}

type ngTx struct {
	tx   int
	id   string
	done func(r *message.SIPResponse, s *ngSays, keep []byte)
	over bool
}

func runNegotiate(c *Ctx) {
	t := c.T
	a := newApp(c)
	g, net := a.g, a.net
	net.MaxEvents = 20000
	const heal = 150 * time.Second
	relay := t.Bool()

	// ---- the world
	allTypes := []string{"text/plain", "text/html", "Application/XML", "application/pidf+xml", "message/cpim", "Text/Enriched", "application/PKCS7-mime"}
	allEncs := []string{"gzip", "x-z", "tar"}
	allLangs := []string{"en", "en-US", "fr", "de-CH-1996", "zh-Hant"}
	allMethods := []string{"MESSAGE", "OPTIONS", "INFO", "PUBLISH", "REFER"}
	allOptions := []string{"100rel", "timer", "path", "x-foo.bar"}
	some := func(l []string, min int) (r []string) {
		for _, x := range l {
			if t.Bool() {
				r = append(r, x)
			}
		}
		for i := 0; len(r) < min; i++ {
			r = append(r, l[i%len(l)])
		}
		for i := len(r) - 1; i > 0; i-- {
			k := t.Intn(i + 1)
			r[i], r[k] = r[k], r[i]
		}
		return
	}
	q := func() string { return t.Of("", "", "0.5", "0.25", "1", "0.7", "0", "0.001") }
	typePrefs := func() (l [][]string) {
		for n := t.Intn(4); n > 0; n-- {
			f := strings.SplitN(allTypes[t.Intn(len(allTypes))], "/", 2)
			switch t.Intn(6) {
			case 0:
				f[1] = "*"
			case 1:
				f[0], f[1] = "*", "*"
			}
			l = append(l, []string{f[0], f[1], q()})
		}
		return
	}
	wordPrefs := func(all []string, star string) (l [][]string) {
		for n := t.Intn(4); n > 0; n-- {
			v := all[t.Intn(len(all))]
			if t.Chance(20) {
				v = star
			}
			l = append(l, []string{v, q()})
		}
		return
	}
	users := []string{"alice", "bob", "carol", "dave"}
	hosts := []string{"a.example.com", "b.example.com", "192.0.2.7"}[:t.Range(1, 3)]
	header1 := func() string {
		return t.Of("Subject=lunch", "Subject=a%20b%3Bc", "Priority=urgent", "In-Reply-To=4711%40h", "body=hello%20there", "body=a%26b%3Dc%3F", "Subject=%22x%22%2C%20y&Priority=normal", "Priority=non-urgent&body=x&Subject=s")
	}
	target := func() string {
		u := "sip:" + users[t.Intn(4)] + "@" + hosts[t.Intn(len(hosts))]
		switch t.Intn(4) {
		case 0:
			u += "?" + header1()
		case 1:
			u += t.Of(";transport=tcp", ";x=y;lr", ";method=INFO", ";method=PUBLISH;transport=udp")
			if t.Bool() {
				u += "?" + header1()
			}
		}
		return u
	}
	text := func() string { return t.Of("try later", "no such user", "x", "a, b; c=d", "it's <x>") }
	servers := map[string]*ngServer{}
	var list []*ngServer
	for _, h := range hosts {
		sv := &ngServer{host: h, users: map[string]*ngUser{}, api: t.Bool()}
		sv.methods, sv.options = some(allMethods, 1), some(allOptions, 0)
		if t.Chance(60) {
			sv.methods = allMethods
		}
		sv.accept, sv.aenc, sv.alang = typePrefs(), wordPrefs(append(allEncs, "identity"), "*"), wordPrefs(allLangs, "*")
		sv.types, sv.encs, sv.langs = some(allTypes, 1), append(some(allEncs, 0), ""), append(some(allLangs, 0), "")
		sv.org = t.Of("", "Boxes by Bob", "Example")
		for _, n := range users {
			u := &ngUser{}
			switch t.Pick(8, 3, 2, 2, 2) {
			case 0:
				u.kind = "here"
			case 1:
				u.kind, u.code = "moved", t.Of1(300, 301, 302)
				for k := c.Many(1, 4, 30); k > 0; k-- {
					u.contacts = append(u.contacts, []string{target(), q()})
				}
			case 2:
				u.kind, u.code = "gone", t.Of1(404, 410, 480, 604)
				for k := t.Intn(3); k > 0; k-- {
					u.warn = append(u.warn, []string{strconv.Itoa(t.Range(300, 399)), t.Of("isi.edu", "192.0.2.3", "isi.edu:5060", "agent1"), text()})
				}
				for k := t.Intn(3); k > 0; k-- {
					u.einfo = append(u.einfo, []string{t.Of("sip:gone@h", "http://www.example.com/x", "sip:rec@a.b;play=1"), t.Of("", "a", "b.c")})
				}
			case 3:
				u.kind, u.code = "busy", t.Of1(480, 486, 503, 600)
				u.retry = []string{strconv.Itoa(t.Range(1, 20)), t.Of("0", "60", "3600"), t.Of("", "in a meeting", "busy (very)")}
			case 4:
				continue
			}
			sv.users[n] = u
		}
		servers[h] = sv
		list = append(list, sv)
	}

	// ---- messages
	ntx := 0
	pending := map[string]*ngTx{}
	send := func(from, to string, b []byte, m *ngMeta) {
		if relay {
			to = "relay"
		}
		a.send(from, to, b, m)
	}
	read := func(msg message.Message, keep []byte, want *ngSays, who string) (s *ngSays) {
		s = newNg()
		c.Lib("reading", 0, func() {
			sm := sipm(msg)
			switch r := msg.(type) {
			case *message.SIPResponse:
				s.code = r.GetStatusCode()
			case *message.SIPRequest:
				s.method = r.GetMethod()
				s.target = r.GetRequestURI().String()
			}
			for _, k := range ngKinds {
				if !sm.HasHeader(k.name) {
					continue
				}
				for e := sm.GetHeaders(k.name).Front(); e != nil; e = e.Next() {
					s.h[k.name] = append(s.h[k.name], k.rd(e.Value.(header.Header)))
				}
			}
			s.body = sm.GetContent()
		})
		if s.String() != want.String() {
			c.Fail("read:"+who, "%s reads %v, meant was %v: %q", who, s, want, keep)
		}
		return
	}
	spell := func(m *amsg, s *ngSays) {
		for _, k := range ngKinds {
			vs := s.h[k.name]
			if k.name == "Content-Type" {
				if len(vs) > 0 {
					m.ctype = k.tmpl(a, vs[0])
				}
				continue
			}
			for i, v := range vs {
				x := k.tmpl(a, v)
				if i > 0 && k.list && t.Bool() {
					m.hdrs[len(m.hdrs)-1].tmpl += "\x01,\x01" + x
				} else {
					m.hdrs = append(m.hdrs, ahdr{k.name, x})
				}
			}
		}
		m.body = []byte(s.body)
	}
	// dress gives a message its headers and body. was: what it has of them.
	dress := func(sm *message.SIPMessage, was, s *ngSays) {
		if was != nil && was.body != "" && s.body == "" {
			sm.RemoveContent() // and what describes it
			w := *was
			w.h = map[string][][]string{}
			for n, v := range was.h {
				if !strings.HasPrefix(n, "Content-") {
					w.h[n] = v
				}
			}
			w.body = ""
			was = &w
		}
		for _, k := range ngKinds {
			vs := s.h[k.name]
			if k.name == "Content-Type" {
				continue
			}
			if was != nil {
				if same2(was.h[k.name], vs) {
					continue
				}
				if len(was.h[k.name]) > 0 {
					sm.RemoveHeader(k.name)
				}
			}
			for _, v := range vs {
				sm.AddHeader(k.mk(a, v))
			}
		}
		if s.body == "" {
			return
		}
		for _, k := range ngKinds {
			if k.name == "Content-Type" {
				h := k.mk(a, s.h[k.name][0]).(*header.ContentType)
				if t.Bool() {
					sm.SetContent(s.body, h)
				} else {
					sm.SetContent([]byte(s.body), h)
				}
			}
		}
	}
	// request sends one reliably.
	request := func(j *ngJob, s *ngSays, to string, lib address.URI, done func(r *message.SIPResponse, s *ngSays, keep []byte)) {
		ntx++
		j.seq++
		m := a.slim(s.method, auri{text: s.target}, j.node, j.id, j.seq, a.party("me", j.node, j.tag), aaddr{uri: auri{text: s.target}, tmpl: "<" + s.target + ">"})
		meta := &ngMeta{tx: ntx, s: s, from: j.node, to: to, m: m}
		var b []byte
		if j.api {
			c.Lib("building a request", 0, func() {
				r, was := j.last, j.lastS
				if r != nil && t.Bool() {
					c.Probe("request edited in place")
					r.SetMethod(s.method)
					if lib == nil {
						lib = mkURI(c, s.target)
					}
					r.SetRequestURI(lib)
					a.must("CSeq", r.GetCSeq().SetSequenceNumber(j.seq))
					a.must("CSeq", r.GetCSeq().SetMethod(s.method))
					a.must("branch", r.GetTopmostVia().SetBranch(m.vias[0].branch))
					r.GetTo().SetAddress(mkAddr(c, s.target))
				} else {
					was = nil
					r = a.build(m)
					if lib != nil && t.Bool() {
						r.SetRequestURI(lib)
					}
				}
				dress(&r.SIPMessage, was, s)
				j.last, j.lastS = r, s
			})
			b = encodeMsg(c, j.last)
		} else {
			spell(m, s)
			b = m.encode(g.style())
		}
		x := &ngTx{tx: ntx, done: done}
		x.id = j.node + " " + txid(c, a.own(b))
		if pending[x.id] != nil {
			c.Fail("transaction", "two requests have the transaction id %q: %q", x.id, b)
		}
		pending[x.id] = x
		var again func(wait time.Duration)
		again = func(wait time.Duration) {
			if x.over {
				return
			}
			send(j.node, to, b, meta)
			if wait *= 2; wait > 4*time.Second {
				wait = 4 * time.Second
			}
			net.At(wait, func() { again(wait) })
		}
		again(250 * time.Millisecond)
	}

	var open int
	var begin func(j *ngJob)
	var step func(j *ngJob)
	finish := func(j *ngJob, r *ngSays) {
		j.over = true
		open--
		if j.parent == nil {
			return
		}
		// tell who asked for it
		p := j.parent
		n := newNg()
		n.method, n.target = "NOTIFY", "sip:me@"+p.node
		n.add("Content-Type", "message", "sipfrag", "version=2.0")
		reason := t.Of("OK", "", "Not Here", "Ça va", "a  b")
		n.body = "SIP/2.0 " + strconv.Itoa(r.code) + " " + reason + "\r\n"
		n.add("Subject", strconv.Itoa(p.n))
		k := &ngJob{node: j.node, api: j.api, n: j.n, id: g.uniq("n"), tag: g.uniq("t")}
		open++
		request(k, n, p.node, nil, func(*message.SIPResponse, *ngSays, []byte) { open-- })
	}
	step = func(j *ngJob) {
		s := j.compose(j.st)
		host := ngHostOf(s.target)
		request(j, s, host, j.st.cur.lib, func(resp *message.SIPResponse, r *ngSays, keep []byte) {
			j.trail = append(j.trail, fmt.Sprintf("%s %s: %d %s", s.method, nuri(s.target), r.code, r.body))
			var ts []*ngTgt
			c.Lib("reading Contact", 0, func() {
				if l := resp.GetContactHeaders(); l != nil {
					for e := l.Front(); e != nil; e = e.Next() {
						x := e.Value.(*header.Contact)
						ts = append(ts, ngLib(c, x.GetAddress().GetURI(), ngQ(x.HasQValue(), x.GetQValue()), keep))
					}
				}
			})
			again, wait := j.next(j.st, r, ts)
			c.Probe(fmt.Sprintf("answer %d", r.code))
			if again {
				c.Nontriv = true
				net.At(time.Duration(wait)*time.Second, func() { step(j) })
				return
			}
			finish(j, r)
		})
	}
	begin = func(j *ngJob) {
		j.st = j.start()
		j.id, j.tag = g.uniq("c"), g.uniq("t")
		open++
		step(j)
	}

	// ---- nodes
	jobs := []*ngJob{}
	done := map[string]*ngMeta{}
	cache := map[string][]byte{}
	known := map[int]bool{}
	until := map[string]time.Duration{}
	serve := func(me string, d *Dgram, msg *message.SIPRequest, keep []byte) {
		meta := d.Meta.(*ngMeta)
		id := me + " " + txid(c, msg)
		if m := done[id]; (m != nil) != known[meta.tx] {
			c.Fail("retransmission", "a request that is known (%v) is taken for one that is not, or the other way round: %q", known[meta.tx], keep)
		} else if m != nil {
			c.Probe("retransmission recognised")
			send(me, m.to, cache[id], m)
			return
		}
		s := read(msg, keep, meta.s, "server")
		user := ""
		sv := servers[me]
		if sv == nil { // a client that is told
			sv = &ngServer{host: me}
		} else {
			c.Lib("GetUser", 0, func() { user = msg.GetRequestURI().(*address.SipURIImpl).GetUser() })
		}
		var callid string
		c.Lib("GetCallId", 0, func() { callid = msg.GetCallIdentifier() })
		r := sv.decide(s, user, func(u *ngUser) int {
			k := callid + "|" + me + "|" + user
			if _, ok := until[k]; !ok {
				until[k] = c.now + time.Duration(atoi(u.retry[0]))*time.Second
				return atoi(u.retry[0])
			}
			return int((until[k] - c.now + time.Second - 1) / time.Second)
		})
		var b []byte
		tag := g.uniq("s")
		if sv.api {
			c.Lib("answering", 0, func() {
				resp := msg.CreateResponse(r.code)
				resp.SetToTag(tag)
				dress(&resp.SIPMessage, nil, r)
				b = bytesOf(resp)
			})
		} else {
			m := *meta.m
			m.request, m.code, m.reason, m.maxfwd = false, r.code, t.Of("OK", "", "Who knows?"), -1
			m.hdrs, m.ctype, m.body = nil, "", nil
			m.to.tmpl += "\x01;\x01tag\x01=\x01" + tag
			spell(&m, r)
			b = m.encode(g.style())
		}
		ans := &ngMeta{tx: meta.tx, s: r, from: me, to: meta.from}
		done[id], cache[id], known[meta.tx] = ans, b, true
		send(me, ans.to, b, ans)
		switch {
		case r.code == 202:
			var u address.URI
			c.Lib("Refer-To", 0, func() { u = msg.GetHeader("Refer-To").(*header.ReferTo).GetAddress().GetURI() })
			var p *ngJob
			for _, j := range jobs {
				if j.id == callid {
					p = j
				}
			}
			if p == nil {
				c.Fail("call-id", "the Call-ID of a REFER is read as %q: %q", callid, keep)
			}
			k := p.transfer(me, ngLib(c, u, "", keep))
			k.api = t.Bool()
			jobs = append(jobs, k)
			c.Probe("transfer")
			begin(k)
		case s.method == "NOTIFY":
			var x *header.StatusLine
			var err error
			c.Lib("ParseSIPStatusLine", 0, func() {
				x, err = parser.NewStringMsgParser().ParseSIPStatusLine(strings.TrimSuffix(sipm(msg).GetContent(), "\r\n") + "\n")
			})
			if err != nil {
				c.Fail("sipfrag", "the status line of %q is refused: %v", keep, err)
			}
			c.Lib("reading a status line", 0, func() {
				f := strings.SplitN(strings.TrimSuffix(meta.s.body, "\r\n"), " ", 3)
				if strconv.Itoa(x.GetStatusCode()) != f[1] || trim(x.GetReasonPhrase()) != trim(f[2]) || x.GetSipVersion() != f[0] {
					c.Fail("sipfrag", "the status line of %q is read as %s %d %q", keep, x.GetSipVersion(), x.GetStatusCode(), x.GetReasonPhrase())
				}
			})
			n := atoi(s.h["Subject"][0][0])
			for _, j := range jobs {
				if j.n == n && j.parent == nil {
					for _, k := range jobs {
						if k.parent == j {
							j.told = "told " + strings.Join(k.trail, "; ")
						}
					}
				}
			}
		}
	}
	hear := func(me string) {
		net.Listen(me, func(d *Dgram) {
			meta := d.Meta.(*ngMeta)
			if meta.m != nil {
				r, keep := a.readRequest(me, d.Data)
				serve(me, d, r, keep)
				return
			}
			r, keep := a.readResponse(me, d.Data)
			id := me + " " + txid(c, r)
			x := pending[id]
			if x == nil || x.tx != meta.tx {
				c.Fail("match", "a response does not find its request (id %q): %q", id, keep)
			}
			if x.over {
				return
			}
			x.over = true
			x.done(r, read(r, keep, meta.s, "client"), keep)
		})
	}
	net.Listen("relay", func(d *Dgram) {
		meta := d.Meta.(*ngMeta)
		m, _ := a.read("relay", d.Data)
		if t.Chance(20) {
			m = copyMsg(c, m)
		}
		a.send("relay", meta.to, encodeMsg(c, m), meta)
	})
	for _, h := range hosts {
		hear(h)
	}
	clients := []string{"c1.example.org", "c2.example.org"}
	for _, h := range clients {
		hear(h)
	}

	// ---- the jobs
	for n := t.Range(1, 4); n > 0; n-- {
		j := &ngJob{node: clients[t.Intn(2)], api: t.Bool(), n: n, optional: t.Bool(), essential: t.Chance(30)}
		j.methods = [][]string{{"MESSAGE", "INFO", "OPTIONS"}, {"OPTIONS"}, {"PUBLISH", "MESSAGE"}, {"INFO"}}[t.Intn(4)]
		j.types, j.encs, j.langs = some(allTypes, 1), append(some(allEncs, 0), ""), append(some(allLangs, 0), "")
		if t.Bool() {
			j.require = some(allOptions, 0)
		}
		j.accept, j.aenc, j.alang = typePrefs(), wordPrefs(append(allEncs, "identity"), "*"), wordPrefs(allLangs, "*")
		if t.Bool() {
			j.more = append(j.more, []string{"Subject", t.Of("lunch", "Need more boxes", "re: x; y=z")})
		}
		if t.Bool() {
			j.more = append(j.more, []string{"Priority", t.Of("urgent", "normal")})
		}
		if t.Chance(30) {
			j.more = append(j.more, []string{"Reply-To", t.Of("", "Bob B.", "x, y; z"), t.Of("sip:bob@h", "sip:b@[::1]:5070;transport=tcp")})
		}
		if t.Chance(30) {
			for k := c.Many(1, 3, 20); k > 0; k-- {
				j.more = append(j.more, []string{"In-Reply-To", g.uniq("irt") + "@h"})
			}
		}
		if t.Chance(30) {
			j.more = append(j.more, []string{"Date", strconv.FormatUint(t.Log(32), 10)})
		}
		j.first = &ngTgt{uri: "sip:" + users[t.Intn(4)] + "@" + hosts[t.Intn(len(hosts))], q: 1}
		if t.Chance(25) {
			j.refer = target()
			j.methods = []string{"REFER"}
		}
		jobs = append(jobs, j)
		net.At(time.Duration(t.Range(0, 60000))*time.Millisecond, func() { begin(j) })
	}
	own := append([]*ngJob(nil), jobs...)
	if t.Chance(30) {
		x, y := clients[t.Intn(2)], hosts[t.Intn(len(hosts))]
		if relay && t.Bool() {
			y = "relay"
		}
		net.At(time.Duration(t.Range(0, 60))*time.Second, func() { net.Partition(x, y, true) })
		net.At(time.Duration(t.Range(60, 120))*time.Second, func() { net.Partition(x, y, false) })
	}
	net.At(heal, func() { net.Heal() })
	net.Run()
	if net.Events >= net.MaxEvents {
		Harness("too many events")
	}
	if c.now > heal {
		c.Nontriv = true
	}
	for _, j := range own {
		want := j.walk(servers)
		got := j.trail
		if j.told != "" {
			got = append(got[:len(got):len(got)], j.told)
		}
		if !j.over || strings.Join(got, "\n") != strings.Join(want, "\n") {
			c.Fail("outcome", "job %d of %s went (over: %v)\n %s\nand should have gone\n %s", j.n, j.node, j.over, strings.Join(got, "\n "), strings.Join(want, "\n "))
		}
	}
	if open != 0 {
		c.Fail("progress", "%d transactions are left over although the network works", open)
	}
}
