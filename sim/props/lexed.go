package props

// C06: header parsers made from a lexer that somebody else made.

import (
	"strings"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/parser"
)

var fromLexer = map[string]func(core.Lexer) parser.Parser{
	strings.ToLower(core.SIPHeaderNames_ACCEPT_ENCODING):     func(l core.Lexer) parser.Parser { return parser.NewAcceptEncodingParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ACCEPT_LANGUAGE):     func(l core.Lexer) parser.Parser { return parser.NewAcceptLanguageParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ACCEPT):              func(l core.Lexer) parser.Parser { return parser.NewAcceptParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ALERT_INFO):          func(l core.Lexer) parser.Parser { return parser.NewAlertInfoParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ALLOW_EVENTS):        func(l core.Lexer) parser.Parser { return parser.NewAllowEventsParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ALLOW):               func(l core.Lexer) parser.Parser { return parser.NewAllowParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_AUTHENTICATION_INFO): func(l core.Lexer) parser.Parser { return parser.NewAuthenticationInfoParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_AUTHORIZATION):       func(l core.Lexer) parser.Parser { return parser.NewAuthorizationParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CSEQ):                func(l core.Lexer) parser.Parser { return parser.NewCSeqParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CALL_ID):             func(l core.Lexer) parser.Parser { return parser.NewCallIDParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CALL_INFO):           func(l core.Lexer) parser.Parser { return parser.NewCallInfoParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CONTACT):             func(l core.Lexer) parser.Parser { return parser.NewContactParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CONTENT_DISPOSITION): func(l core.Lexer) parser.Parser { return parser.NewContentDispositionParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CONTENT_ENCODING):    func(l core.Lexer) parser.Parser { return parser.NewContentEncodingParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CONTENT_LANGUAGE):    func(l core.Lexer) parser.Parser { return parser.NewContentLanguageParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CONTENT_LENGTH):      func(l core.Lexer) parser.Parser { return parser.NewContentLengthParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_CONTENT_TYPE):        func(l core.Lexer) parser.Parser { return parser.NewContentTypeParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_DATE):                func(l core.Lexer) parser.Parser { return parser.NewDateParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ERROR_INFO):          func(l core.Lexer) parser.Parser { return parser.NewErrorInfoParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_EVENT):               func(l core.Lexer) parser.Parser { return parser.NewEventParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_EXPIRES):             func(l core.Lexer) parser.Parser { return parser.NewExpiresParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_FROM):                func(l core.Lexer) parser.Parser { return parser.NewFromParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_IN_REPLY_TO):         func(l core.Lexer) parser.Parser { return parser.NewInReplyToParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_MAX_FORWARDS):        func(l core.Lexer) parser.Parser { return parser.NewMaxForwardsParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_MIME_VERSION):        func(l core.Lexer) parser.Parser { return parser.NewMimeVersionParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_MIN_EXPIRES):         func(l core.Lexer) parser.Parser { return parser.NewMinExpiresParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ORGANIZATION):        func(l core.Lexer) parser.Parser { return parser.NewOrganizationParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_PRIORITY):            func(l core.Lexer) parser.Parser { return parser.NewPriorityParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_PROXY_AUTHENTICATE):  func(l core.Lexer) parser.Parser { return parser.NewProxyAuthenticateParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_PROXY_AUTHORIZATION): func(l core.Lexer) parser.Parser { return parser.NewProxyAuthorizationParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_PROXY_REQUIRE):       func(l core.Lexer) parser.Parser { return parser.NewProxyRequireParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_RACK):                func(l core.Lexer) parser.Parser { return parser.NewRAckParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_RSEQ):                func(l core.Lexer) parser.Parser { return parser.NewRSeqParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_REASON):              func(l core.Lexer) parser.Parser { return parser.NewReasonParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_RECORD_ROUTE):        func(l core.Lexer) parser.Parser { return parser.NewRecordRouteParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_REFER_TO):            func(l core.Lexer) parser.Parser { return parser.NewReferToParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_REPLY_TO):            func(l core.Lexer) parser.Parser { return parser.NewReplyToParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_REQUIRE):             func(l core.Lexer) parser.Parser { return parser.NewRequireParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_RETRY_AFTER):         func(l core.Lexer) parser.Parser { return parser.NewRetryAfterParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_ROUTE):               func(l core.Lexer) parser.Parser { return parser.NewRouteParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_SERVER):              func(l core.Lexer) parser.Parser { return parser.NewServerParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_SUBJECT):             func(l core.Lexer) parser.Parser { return parser.NewSubjectParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_SUBSCRIPTION_STATE):  func(l core.Lexer) parser.Parser { return parser.NewSubscriptionStateParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_SUPPORTED):           func(l core.Lexer) parser.Parser { return parser.NewSupportedParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_TIMESTAMP):           func(l core.Lexer) parser.Parser { return parser.NewTimeStampParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_TO):                  func(l core.Lexer) parser.Parser { return parser.NewToParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_UNSUPPORTED):         func(l core.Lexer) parser.Parser { return parser.NewUnsupportedParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_USER_AGENT):          func(l core.Lexer) parser.Parser { return parser.NewUserAgentParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_VIA):                 func(l core.Lexer) parser.Parser { return parser.NewViaParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_WWW_AUTHENTICATE):    func(l core.Lexer) parser.Parser { return parser.NewWWWAuthenticateParserFromLexer(l) },
	strings.ToLower(core.SIPHeaderNames_WARNING):             func(l core.Lexer) parser.Parser { return parser.NewWarningParserFromLexer(l) },
}

// lexed reads a line of a message by itself, once as text and once from a
// lexer, and wants the same.
func lexed(c *Ctx, data []byte) {
	t := c.T
	s := string(data)
	i := strings.Index(s, "\r\n\r\n")
	if i < 0 {
		return
	}
	ls := unfoldLines(s[:i+2])
	if len(ls) < 2 {
		return
	}
	l := ls[t.Range(1, len(ls)-1)]
	if strings.Contains(l, "\r\n ") || strings.Contains(l, "\r\n\t") {
		return
	}
	l = trim(l)
	k := strings.IndexByte(l, ':')
	if k < 0 {
		return
	}
	n := strings.ToLower(trim(l[:k]))
	if f := fullOf[n]; f != "" {
		n = strings.ToLower(f)
	}
	mk := fromLexer[n]
	if mk == nil {
		mk = func(l core.Lexer) parser.Parser { return parser.NewHeaderParserFromLexer(l) }
	}
	lexer := t.Of("command_keywordLexer", "charLexer", "sip_urlLexer", "status_lineLexer")
	var a, b header.Header
	var e1, e2 error
	c.Lib("reading a header", 0, func() {
		var p parser.Parser
		if p, e1 = parser.CreateParser(l + "\n"); e1 == nil {
			a, e1 = p.Parse()
		}
		b, e2 = mk(parser.NewSIPLexer(lexer, l+"\n")).Parse()
	})
	c.Probe("read from a lexer")
	if e1 != nil {
		c.Fail("line rejected:"+n, "%q is rejected: %v", l, e1)
	}
	if e2 != nil {
		c.Fail("lexed rejected:"+n, "%q is rejected from a %s: %v", l, lexer, e2)
	}
	if x, y := a.String(), b.String(); x != y {
		c.Fail("lexed differs:"+n, "%q is %q as text and %q from a %s", l, x, y, lexer)
	}
}
