From a3699e6f39d11628c7530819e1311c50e5098ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 001/108] fix: read all four bits of the RTP CSRC count

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..2df6a7f 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -128,7 +128,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
-- 
2.43.0


From 0f77ef657549b535558704056312a2e4626fc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 002/108] fix: write every byte of an RTP CSRC identifier

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 2df6a7f..95bead3 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -191,9 +191,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
-- 
2.43.0


From 4f315f8da3cd6ecb13bfcf1aa9deff3049020f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 003/108] fix: parse RTP extension data instead of panicking,
 and size long extensions in ints

---
 rtp/rtp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 95bead3..50a6a17 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -231,7 +231,8 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
-	for i := uint16(0); i < this.length; i++ {
+	this.data = make([]uint32, this.length)
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
@@ -243,14 +244,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
-- 
2.43.0


From 9cfebfab018b6d3151dfd543142cbeb041da889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 004/108] fix: give a received RTP packet its payload

---
 rtp/rtppacket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..d7fe7a6 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -87,6 +87,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 	if payloadlength < 0 {
 		return errors.New("invalid payload length.")
 	}
+	rp.payload = rp.packet[payloadoffset : payloadoffset+payloadlength]
 
 	return nil
 }
-- 
2.43.0


From 7d072621b2e30fbf707eba4e6bb8ad3b19b762b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 005/108] fix: clone an IPAddress without sharing the IP bytes

---
 rtp/ipaddress.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 7af517d..94ef77f 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -69,7 +69,7 @@ func (this *IPAddress) IsFromSameHost(addr Address) bool {
 }
 
 func (this *IPAddress) Clone() Address {
-	return &IPAddress{ip: this.ip, port: this.port}
+	return &IPAddress{ip: append(net.IP(nil), this.ip...), port: this.port}
 }
 
 func (this *IPAddress) String() string {
-- 
2.43.0


From 6db9010a4f0dd136ad49140c53808a6274115d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 006/108] fix: do not time out every collision while the clock
 is below the delay

---
 rtp/collisionlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtp/collisionlist.go b/rtp/collisionlist.go
index cf24396..2d72cf7 100644
--- a/rtp/collisionlist.go
+++ b/rtp/collisionlist.go
@@ -66,6 +66,9 @@ func (this *CollisionList) HasAddress(addr Address) bool {
  */
 
 func (this *CollisionList) Timeout(currenttime *RTPTime, timeoutdelay *RTPTime) {
+	if currenttime.LT(timeoutdelay) {
+		return // nothing can be that old yet
+	}
 	checktime := currenttime.Clone()
 	checktime.Sub(timeoutdelay)
 
-- 
2.43.0


From 8f64d94992df14d3345cd6e3d6c3b103f07a4d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 007/108] fix: lock RandomRand48 while it is reseeded

---
 rtp/random.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/random.go b/rtp/random.go
index 543f9a0..af48a99 100644
--- a/rtp/random.go
+++ b/rtp/random.go
@@ -54,7 +54,9 @@ func (this *RandomRand48) PickSeed() uint32 {
 }
 
 func (this *RandomRand48) SetSeed(seed uint32) {
+	this.mutex.Lock()
 	this.state = (uint64(seed) << 16) | uint64(0x330E)
+	this.mutex.Unlock()
 }
 
 func (this *RandomRand48) GetRandom8() uint8 {
-- 
2.43.0


From 37832d8e9fc37a007622af01f2e49dea63806c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 008/108] fix: do not panic on RTCP packets shorter than their
 header

---
 rtp/rtcpapppacket.go | 3 +++
 rtp/rtcpbyepacket.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..505a1f4 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..7ec2ac2 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -22,6 +22,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 	this.knownformat = false
 
 	this.reasonoffset = 0
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	byelen := datalen
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
-- 
2.43.0


From 4f193a0464b5b3cd0a66ed4d5272aa7810372554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:54 +0000
Subject: [PATCH 009/108] fix: end RTCP reason, name and application data where
 the packet says

---
 rtp/rtcpapppacket.go | 4 ++--
 rtp/rtcpbyepacket.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 505a1f4..5fe47db 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -77,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -88,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index 7ec2ac2..de54308 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -112,11 +112,11 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if this.reasonoffset == 0 {
 		return nil
 	}
-	reasonlen := this.data[this.reasonoffset]
+	reasonlen := int(this.data[this.reasonoffset])
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+reasonlen]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From fb0f6791485bfd46e391fd5854525ede513a65c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 010/108] fix: report the end of input from the lexer instead
 of handing out nil tokens

---
 core/CoreLexer.go       | 11 +++++++----
 core/CoreParser.go      |  4 +++-
 sip/parser/URLParser.go | 16 +++++++++++-----
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..8385194 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -175,9 +175,10 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 				tok.tokenType = CORELEXER_ID
 			}
 		} else {
-			nextChar, err := coreLexer.GetNextChar()
-			if err != nil {
-				break
+			var nextChar byte
+			if nextChar, err = coreLexer.GetNextChar(); err != nil {
+				coreLexer.ptr = old
+				return nil, err
 			}
 			tok.tokenValue += string(nextChar)
 			if coreLexer.IsAlpha(nextChar) {
@@ -374,7 +375,9 @@ func (coreLexer *CoreLexer) QuotedString() (s string, err error) {
 			// 	return "", errors.New("ParseException: unexpected EOL")
 		} else if next == '\\' {
 			retval.WriteByte(next)
-			next, _ = coreLexer.GetNextChar()
+			if next, err = coreLexer.GetNextChar(); err != nil {
+				break
+			}
 			retval.WriteByte(next)
 		} else {
 			retval.WriteByte(next)
diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..bd771a9 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,7 +53,9 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
 		} else {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..9795ff0 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -229,7 +229,10 @@ func (this *URLParser) UricString() string {
  */
 func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	var retval address.URI
-	vect, _ := this.GetLexer().PeekNextTokenK(2)
+	vect, err := this.GetLexer().PeekNextTokenK(2)
+	if err != nil {
+		return nil, this.CreateParseException("unexpected end of URI")
+	}
 	t1 := vect[0]
 	t2 := vect[1]
 
@@ -348,7 +351,10 @@ func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseE
 	b, _ := this.Local_number()
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
-		tok, _ := this.GetLexer().PeekNextToken()
+		tok, err := this.GetLexer().PeekNextToken()
+		if err != nil {
+			return nil, err
+		}
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
 			this.GetLexer().ConsumeK(1)
@@ -469,9 +475,9 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 }
 
 func (this *URLParser) PeekScheme() (s string, ParseException error) {
-	tokens, _ := this.GetLexer().PeekNextTokenK(1)
-	if len(tokens) == 0 {
-		return "", nil
+	tokens, err := this.GetLexer().PeekNextTokenK(1)
+	if err != nil {
+		return "", err
 	}
 	scheme := tokens[0].GetTokenValue()
 	return scheme, nil
-- 
2.43.0


From baa53582d903957492f1c0273d801594189d5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 011/108] fix: consume what was read in URI passwords, header
 values and tel parameters (endless loops)

---
 sip/parser/URLParser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 9795ff0..51a7156 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -196,7 +196,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
@@ -376,6 +376,7 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
+			this.GetLexer().ConsumeK(1)
 			continue
 		} else {
 			break
@@ -507,7 +508,10 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == '%' {
-			str, _ := this.Escaped()
+			str, err := this.Escaped()
+			if err != nil {
+				return "", err
+			}
 			retval.WriteString(str)
 		} else {
 			break
@@ -532,7 +536,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
@@ -568,6 +572,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
-- 
2.43.0


From 198d929b3a4af181a7cf5f32a494bc8cf2ae6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:59 +0000
Subject: [PATCH 012/108] fix: report errors found inside URIs

---
 sip/parser/URLParser.go | 69 ++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 51a7156..2092f2d 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -105,6 +105,9 @@ func (this *URLParser) UriParam() (nv *core.NameValue, ParseException error) {
 	if pname, ParseException = this.ParamNameOrValue(); ParseException != nil {
 		return nil, ParseException
 	}
+	if pname == "" {
+		return nil, this.CreateParseException("expecting a parameter name")
+	}
 	next, _ := this.GetLexer().LookAheadK(0)
 	if next == '=' {
 		this.GetLexer().ConsumeK(1)
@@ -254,7 +257,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("Expecting a URI")
+		}
+		retval = uri
 	}
 
 	return retval, nil
@@ -315,11 +322,15 @@ func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, Pars
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
+		if tn, ParseException = this.Global_phone_number(); ParseException != nil {
+			return nil, ParseException
+		}
 	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
+		if tn, ParseException = this.Local_phone_number(); ParseException != nil {
+			return nil, ParseException
+		}
 	} else {
 		return nil, this.CreateParseException("unexpected char " + string(c))
 	}
@@ -332,13 +343,19 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn.SetGlobal(true)
 
 	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	b, err := this.Base_phone_number()
+	if err != nil {
+		return nil, err
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			nv, err := this.Tel_parameters()
+			if err != nil {
+				return nil, err
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -348,7 +365,10 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	b, err := this.Local_number()
+	if err != nil {
+		return nil, err
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, err := this.GetLexer().PeekNextToken()
@@ -358,7 +378,10 @@ func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseE
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			nv, err := this.Tel_parameters()
+			if err != nil {
+				return nil, err
+			}
 			tn.SetParameters(nv)
 		default:
 		}
@@ -418,7 +441,10 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if n := strings.Index(buffer, "@"); n == -1 {
 		// hostPort
 		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
+		hp, err := hnp.GetHostPort()
+		if err != nil {
+			return nil, err
+		}
 		retval.SetHostPort(hp)
 	} else {
 		var hp *core.HostPort
@@ -463,13 +489,15 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
 		this.GetLexer().ConsumeK(1)
 		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+			parms, err := this.Qheader()
+			if err != nil {
+				return nil, err
+			}
 			retval.SetQHeader(parms)
-			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
+			if la, _ = this.GetLexer().LookAheadK(0); la != '&' {
 				break
-			} else {
-				this.GetLexer().ConsumeK(1)
 			}
+			this.GetLexer().ConsumeK(1)
 		}
 	}
 	return retval, nil
@@ -488,9 +516,20 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
-	this.GetLexer().ConsumeK(1)
-	value, _ := this.Hvalue()
+	name, err := this.Hvalue()
+	if err != nil {
+		return nil, err
+	}
+	if name == "" {
+		return nil, this.CreateParseException("expecting a header name")
+	}
+	if _, ParseException = this.GetLexer().Match('='); ParseException != nil {
+		return nil, ParseException
+	}
+	value, err := this.Hvalue()
+	if err != nil {
+		return nil, err
+	}
 	return core.NewNameValue(name, value), nil
 
 }
-- 
2.43.0


From c428c3258b4ea2f2a02ccc45094e4634d5c0e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 013/108] fix: read parameters with an empty value, which is
 how valueless parameters are written

---
 core/CoreParser.go           | 2 ++
 sip/header/ParametersImpl.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index bd771a9..dcc241a 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -57,6 +57,8 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 				return nil, ParseException
 			}
 			quoted = true
+		} else if err != nil || la == ';' || la == ',' || la == '\n' {
+			// an empty value, as NameValue.String writes it
 		} else {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
 				return nil, ParseException
diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..39002d7 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,7 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	return this.parameters.GetParameter(name)
 }
 
 /**
-- 
2.43.0


From a4e560f24148f2eb78febf26a68685d54cde7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 014/108] fix: clone and concatenate parameter lists, and find
 parameters whatever the case of their names

---
 core/NameValueList.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..958f16c 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"container/list"
+	"strings"
 )
 
 /**
@@ -49,14 +50,18 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 	if !topFlag {
 		//nameValueList.PushBackList(nvl)
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
+		    nameValueList.PushBack(e.Value)
 		}
 	} else {
 		//nameValueList.PushFrontList(nvl)
 		// add given items to the end of the list.
 		first := nameValueList.Front()
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
+		    if first == nil {
+				nameValueList.PushBack(e.Value)
+			} else {
+				nameValueList.InsertBefore(e.Value, first)
+			}
 		}
 	}
 }
@@ -202,7 +207,7 @@ func (nameValueList *NameValueList) GetValue(name string) interface{} {
 func (nameValueList *NameValueList) GetNameValue(name string) *NameValue {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			return nv
 		}
 	}
@@ -226,7 +231,7 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 func (nameValueList *NameValueList) Delete(name string) bool {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			nameValueList.Remove(e)
 			return true
 		}
@@ -255,11 +260,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From 8958836533f866c29ce7feba0ba90892755825ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 015/108] fix: do not panic on SIP URI and tel parameters that
 are absent or set by the caller

---
 sip/address/SipURIImpl.go     | 38 +++++++++++++++++++----------------
 sip/address/TelphoneNumber.go |  4 ++--
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..faf9d8c 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -174,7 +175,7 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
+	user := this.GetUser()
 	host := this.authority.GetHost().String()
 	return user + core.SIPSeparatorNames_AT + host
 }
@@ -219,7 +220,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.uriParms.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +252,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.uriParms.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -348,7 +349,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.uriParms.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -395,6 +396,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
  */
 func (this *SipURIImpl) RemoveHeaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -508,9 +510,9 @@ func (this *SipURIImpl) SetMAddr(mAddr string) {
 	host := &core.Host{}
 	host.SetAddress(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(host.String())
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host.String())
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
@@ -566,7 +568,7 @@ func (this *SipURIImpl) SetPort(p int) {
  * @return a boolean indicating whether the parameter exists.
  */
 func (this *SipURIImpl) HasParameter(name string) bool {
-	return this.uriParms.GetValue(name) != nil
+	return this.uriParms.HasNameValue(name)
 }
 
 /** Set the query header when provided as a name-value pair.
@@ -677,11 +679,7 @@ func (this *SipURIImpl) GetLrParam() string {
  * @return the value of the <code>maddr</code> parameter
  */
 func (this *SipURIImpl) GetMAddrParam() string {
-	maddr := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	if maddr == nil {
-		return ""
-	}
-	return maddr.GetValue().(string)
+	return this.uriParms.GetParameter(core.SIPTransportNames_MADDR)
 }
 
 /** Returns the value of the <code>method</code> parameter, or null if this
@@ -736,7 +734,9 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
 func (this *SipURIImpl) GetTTLParam() int {
 	ttl := this.uriParms.GetValue("ttl")
 	if ttl != nil {
-		return ttl.(int)
+		if n, err := strconv.Atoi(ttl.(string)); err == nil {
+			return n
+		}
 	}
 	return -1
 }
@@ -748,7 +748,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  */
 func (this *SipURIImpl) GetTransportParam() string {
 	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
+		return this.uriParms.GetParameter(core.SIPTransportNames_TRANSPORT)
 	}
 	return ""
 }
@@ -816,7 +816,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.uriParms.HasNameValue("lr") {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
@@ -873,7 +873,11 @@ func (this *SipURIImpl) SetParameter(name, value string) {
 			return
 		}
 	}
-	nv := core.NewNameValue(name, value)
+	nv := core.NewNameValue(name, nil)
+	if value != "" {
+		// a zero-length value indicates a flag parameter
+		nv.SetValue(value)
+	}
 	this.uriParms.Delete(name)
 	this.uriParms.AddNameValue(nv)
 }
@@ -903,7 +907,7 @@ func (this *SipURIImpl) SetTTLParam(ttl int) error {
 	}
 	if this.uriParms != nil {
 		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
+		nv := core.NewNameValue("ttl", strconv.Itoa(ttl))
 		this.uriParms.AddNameValue(nv)
 	}
 
diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..65b4bf5 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.parms.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,7 +57,7 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.parms.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
-- 
2.43.0


From 3fecf4d0b151e6c60f59afb0b6c47dcec5a37adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 016/108] fix: end a URI outside angle brackets where its
 header's parameters begin, and look for user info only inside the URI

---
 sip/parser/AddressParametersParser.go |  6 +++
 sip/parser/AddressParser.go           |  6 +++
 sip/parser/FromParser.go              |  1 +
 sip/parser/ParametersParser.go        | 15 +++++-
 sip/parser/ToParser.go                |  1 +
 sip/parser/URLParser.go               | 78 +++++++++++++++++----------
 6 files changed, 77 insertions(+), 30 deletions(-)

diff --git a/sip/parser/AddressParametersParser.go b/sip/parser/AddressParametersParser.go
index 624ec6e..95eca80 100644
--- a/sip/parser/AddressParametersParser.go
+++ b/sip/parser/AddressParametersParser.go
@@ -10,6 +10,10 @@ import (
  */
 type AddressParametersParser struct {
 	ParametersParser
+
+	// headerParams is set when parameters after a URI that is not enclosed
+	// in angle brackets are those of the header.
+	headerParams bool
 }
 
 func NewAddressParametersParserFromLexer(lexer core.Lexer) *AddressParametersParser {
@@ -34,11 +38,13 @@ func (this *AddressParametersParser) superFromLexer(lexer core.Lexer) {
 
 func (this *AddressParametersParser) Parse(addressParametersHeader header.AddressParametersHeader) (ParseException error) {
 	addressParser := NewAddressParserFromLexer(this.GetLexer())
+	addressParser.headerParams = this.headerParams
 	var addr *address.AddressImpl
 	if addr, ParseException = addressParser.Address(); ParseException != nil {
 		return ParseException
 	}
 	addressParametersHeader.SetAddress(addr)
+	this.ParametersParser.flags = addr.GetAddressType() == address.ADDRESS_SPEC
 	ParseException = this.ParametersParser.Parse(addressParametersHeader)
 	return ParseException
 }
diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index ee6cfc6..0bd2215 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -10,6 +10,10 @@ import (
  */
 type AddressParser struct {
 	SIPParser
+
+	// headerParams is set when parameters after a URI that is not enclosed
+	// in angle brackets are those of the header.
+	headerParams bool
 }
 
 func NewAddressParser(addr string) *AddressParser {
@@ -115,6 +119,8 @@ func (this *AddressParser) Address() (retval *address.AddressImpl, ParseExceptio
 		ch == '/' {
 		retval = address.NewAddressImpl()
 		uriParser := NewURLParserFromLexer(lexer)
+		uriParser.addrSpec = true
+		uriParser.headerParams = this.headerParams
 
 		var uri address.URI
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index c7aa786..d7b03d5 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -32,6 +32,7 @@ func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	from := header.NewFrom()
 	this.HeaderName(TokenTypes_FROM)
 
+	this.headerParams = true
 	if ParseException = this.AddressParametersParser.Parse(from); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index e14e7ae..df1edd1 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -9,6 +9,9 @@ import (
  */
 type ParametersParser struct {
 	HeaderParser
+
+	// flags is set to store parameters without a value as flags
+	flags bool
 }
 
 func NewParametersParserFromLexer(lexer core.Lexer) *ParametersParser {
@@ -51,7 +54,10 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 			return ParseException
 		}
 
-		if nv.IsValueQuoted() {
+		if p, ok := parametersHeader.(flagHeader); ok && this.flags && nv.GetValue() == "" && !nv.IsValueQuoted() {
+			p.RemoveParameter(nv.GetName())
+			p.SetParameterFromNameValue(core.NewNameValue(nv.GetName(), nil))
+		} else if nv.IsValueQuoted() {
 			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
 		} else {
 			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
@@ -66,3 +72,10 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 	}
 	return nil
 }
+
+/** A header that can hold parameters without a value.
+ */
+type flagHeader interface {
+	RemoveParameter(name string)
+	SetParameterFromNameValue(nameValue *core.NameValue)
+}
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 92d7c93..73246f4 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -30,6 +30,7 @@ func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	to := header.NewTo()
 	this.HeaderName(TokenTypes_TO)
 
+	this.headerParams = true
 	if ParseException = this.AddressParametersParser.Parse(to); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 2092f2d..1623b16 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -11,6 +11,15 @@ import (
  */
 type URLParser struct {
 	SIPParser
+
+	// addrSpec is set while reading a URL that is not enclosed in angle
+	// brackets: commas, semicolons and question marks then end the URL
+	// and belong to the header it is in (RFC 3261 section 20).
+	addrSpec bool
+
+	// headerParams is set when parameters after a SIP URL that is not
+	// enclosed in angle brackets are those of the header.
+	headerParams bool
 }
 
 func NewURLParser(url string) *URLParser {
@@ -216,6 +225,9 @@ func (this *URLParser) UricNoSlash() string {
 func (this *URLParser) UricString() string {
 	var retval bytes.Buffer
 	for {
+		if la, _ := this.GetLexer().LookAheadK(0); this.addrSpec && (la == ';' || la == ',' || la == '?') {
+			break
+		}
 		next := this.Uric()
 		if next == "" {
 			break
@@ -350,7 +362,7 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
-		if tok == ';' {
+		if tok == ';' && !this.addrSpec {
 			this.GetLexer().ConsumeK(1)
 			nv, err := this.Tel_parameters()
 			if err != nil {
@@ -377,6 +389,9 @@ func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseE
 		}
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
+			if this.addrSpec {
+				break
+			}
 			this.GetLexer().ConsumeK(1)
 			nv, err := this.Tel_parameters()
 			if err != nil {
@@ -425,6 +440,19 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 
 }
 
+/** Whether the SIP URL at the read position has a user part: there is an
+ * '@' before anything that cannot be part of the URL.
+ */
+func (this *URLParser) hasUserInfo() bool {
+	end := " \t\r\n<>\"@"
+	if this.addrSpec {
+		end += ",;?"
+	}
+	rest := this.GetLexer().GetRest()
+	n := strings.IndexAny(rest, end)
+	return n >= 0 && rest[n] == '@'
+}
+
 /** Parse and return a structure for a SIP URL.
  *@return a URL structure for a SIP url.
  *@throws ParsException if there was a problem parsing.
@@ -437,43 +465,35 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	this.GetLexer().Match(':')
 	retval.SetScheme(core.SIPTransportNames_SIP)
 
-	buffer := this.GetLexer().GetRest()
-	if n := strings.Index(buffer, "@"); n == -1 {
-		// hostPort
-		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, err := hnp.GetHostPort()
+	if this.hasUserInfo() {
+		user, err := this.User()
 		if err != nil {
 			return nil, err
 		}
-		retval.SetHostPort(hp)
-	} else {
-		var hp *core.HostPort
-		if n = strings.Index(buffer, ":"); n == -1 {
-			// name@hostPort
-			user, _ := this.User()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetHostPort(hp)
-		} else {
-			user, _ := this.User()
+		retval.SetUser(user)
+		if la, _ := this.GetLexer().LookAheadK(0); la == ':' {
 			// name:password@hostPort
-			this.GetLexer().Match(':')
-			password, _ := this.Password()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
+			this.GetLexer().ConsumeK(1)
+			password, err := this.Password()
+			if err != nil {
+				return nil, err
 			}
-			retval.SetUser(user)
 			retval.SetUserPassword(password)
-			retval.SetHostPort(hp)
 		}
+		if _, ParseException = this.GetLexer().Match('@'); ParseException != nil {
+			return nil, ParseException
+		}
+	}
+	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
+	hp, err := hnp.GetHostPort()
+	if err != nil {
+		return nil, err
 	}
+	retval.SetHostPort(hp)
 	this.GetLexer().SelectLexer("charLexer")
+	if this.addrSpec && this.headerParams {
+		return retval, nil
+	}
 	for this.GetLexer().HasMoreChars() {
 		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
 			break
-- 
2.43.0


From cdd0b50a675b813e9ea2280f871bb2496cee1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 017/108] fix: report what is missing from a header instead of
 ignoring failed matches

---
 sip/parser/AcceptEncodingParser.go     | 24 ++++++++++----
 sip/parser/AcceptLanguageParser.go     | 24 ++++++++++----
 sip/parser/AcceptParser.go             | 28 ++++++++++++----
 sip/parser/AddressParser.go            | 16 ++++++---
 sip/parser/AlertInfoParser.go          | 20 ++++++++---
 sip/parser/AllowEventsParser.go        | 17 +++++++---
 sip/parser/AllowParser.go              | 17 +++++++---
 sip/parser/AuthenticationInfoParser.go |  9 +++--
 sip/parser/CSeqParser.go               |  9 +++--
 sip/parser/CallIdParser.go             |  4 ++-
 sip/parser/CallInfoParser.go           | 20 ++++++++---
 sip/parser/ChallengeParser.go          |  8 +++--
 sip/parser/ContactParser.go            |  8 +++--
 sip/parser/ContentDispositionParser.go |  9 +++--
 sip/parser/ContentEncodingParser.go    | 12 +++++--
 sip/parser/ContentLanguageParser.go    | 12 +++++--
 sip/parser/ContentLengthParser.go      |  5 ++-
 sip/parser/ContentTypeParser.go        | 17 +++++++---
 sip/parser/ErrorInfoParser.go          | 20 ++++++++---
 sip/parser/EventParser.go              |  9 +++--
 sip/parser/ExpiresParser.go            |  9 +++--
 sip/parser/FromParser.go               |  5 ++-
 sip/parser/InReplyToParser.go          | 28 ++++++++++++----
 sip/parser/MaxForwardsParser.go        |  5 ++-
 sip/parser/MimeVersionParser.go        |  9 +++--
 sip/parser/MinExpiresParser.go         |  5 ++-
 sip/parser/PriorityParser.go           |  9 +++--
 sip/parser/ProxyRequireParser.go       | 12 +++++--
 sip/parser/RAckParser.go               |  9 +++--
 sip/parser/RSeqParser.go               |  5 ++-
 sip/parser/ReasonParser.go             |  8 +++--
 sip/parser/RecordRouteParser.go        |  8 +++--
 sip/parser/ReferToParser.go            |  5 ++-
 sip/parser/RequestLineParser.go        |  5 ++-
 sip/parser/RequireParser.go            | 12 +++++--
 sip/parser/RetryAfterParser.go         | 20 ++++++++---
 sip/parser/RouteParser.go              |  8 +++--
 sip/parser/SIPParser.go                |  4 ++-
 sip/parser/SubscriptionStateParser.go  | 44 ++++++++++++++++++------
 sip/parser/SupportedParser.go          | 12 +++++--
 sip/parser/TimeStampParser.go          |  8 +++--
 sip/parser/ToParser.go                 |  5 ++-
 sip/parser/URLParser.go                | 20 ++++++++---
 sip/parser/UnsupportedParser.go        | 12 +++++--
 sip/parser/ViaParser.go                | 46 +++++++++++++++++++-------
 sip/parser/WarningParser.go            | 20 ++++++++---
 46 files changed, 470 insertions(+), 151 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..b6c2815 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -72,19 +72,29 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, err := lexer.Match(TokenTypes_ID); err != nil {
+					return nil, err
+				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				lexer.Match(';')
+				if _, err := lexer.Match(';'); err != nil {
+					return nil, err
+				}
 				lexer.SPorHT()
-				lexer.Match('q')
+				if _, err := lexer.Match('q'); err != nil {
+					return nil, err
+				}
 				lexer.SPorHT()
-				lexer.Match('=')
+				if _, err := lexer.Match('='); err != nil {
+					return nil, err
+				}
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, err := lexer.Match(TokenTypes_ID); err != nil {
+					return nil, err
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
@@ -99,7 +109,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 			acceptEncodingList.PushBack(acceptEncoding)
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				lexer.Match(',')
+				if _, err := lexer.Match(','); err != nil {
+					return nil, err
+				}
 				lexer.SPorHT()
 			}
 
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..cb33236 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -62,19 +62,29 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(';')
+			if _, err := lexer.Match(';'); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match('q')
+			if _, err := lexer.Match('q'); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, err := lexer.Match('='); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
@@ -91,7 +101,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 		acceptLanguageList.PushBack(acceptLanguage)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..8dbc627 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -53,11 +53,17 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match('/'); err != nil {
+		return nil, err
+	}
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
@@ -66,16 +72,24 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, err := lexer.Match(','); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
-		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match('/'); err != nil {
+			return nil, err
+		}
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index 0bd2215..23fcaae 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -51,7 +51,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 	lexer := this.GetLexer()
 
 	if ch, _ = lexer.LookAheadK(0); ch == '<' {
-		lexer.Match('<')
+		if _, err := lexer.Match('<'); err != nil {
+			return nil, err
+		}
 		lexer.SelectLexer("sip_urlLexer")
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
@@ -62,7 +64,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, err := lexer.Match('>'); err != nil {
+			return nil, err
+		}
 		return addr, nil
 	} else {
 		addr = address.NewAddressImpl()
@@ -79,7 +83,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			}
 		}
 		addr.SetDisplayName(strings.TrimSpace(name))
-		lexer.Match('<')
+		if _, err := lexer.Match('<'); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
@@ -88,7 +94,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, err := lexer.Match('>'); err != nil {
+			return nil, err
+		}
 		return addr, nil
 	}
 }
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 59550d3..3db7f83 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -57,13 +57,17 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, err := lexer.Match('<'); err != nil {
+			return nil, err
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		alertInfo.SetAlertInfo(uri)
-		lexer.Match('>')
+		if _, err := lexer.Match('>'); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
@@ -72,17 +76,23 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfoList.PushBack(alertInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 			alertInfo = header.NewAlertInfo()
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, err := lexer.Match('<'); err != nil {
+				return nil, err
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			alertInfo.SetAlertInfo(uri)
-			lexer.Match('>')
+			if _, err := lexer.Match('>'); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..326ddfb 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -46,7 +46,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token := lexer.GetNextToken()
 	allowEvents.SetEventType(token.GetTokenValue())
 
@@ -54,11 +56,15 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, err := lexer.Match(','); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token = lexer.GetNextToken()
 		allowEvents.SetEventType(token.GetTokenValue())
 
@@ -66,7 +72,10 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return allowEventsList, nil
 }
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..9a5fde6 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -46,18 +46,24 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token := lexer.GetNextToken()
 	allow.SetMethod(token.GetTokenValue())
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, err := lexer.Match(','); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token = lexer.GetNextToken()
 		allow.SetMethod(token.GetTokenValue())
 
@@ -65,7 +71,10 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return allowList, nil
 }
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 3959051..17062c7 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -53,7 +53,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, err := lexer.Match(','); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
@@ -64,7 +66,10 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return authenticationInfo, nil
 }
diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 8f3c5fa..e6d16fe 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -31,7 +31,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_CSEQ)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, err := lexer.Match(':'); err != nil {
+		return nil, err
+	}
 	lexer.SPorHT()
 
 	var number int
@@ -45,7 +47,10 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	}
 	//c.SetMethod(m);
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	c := header.NewCSeq(number, method)
 
diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index afc7375..bdd2e27 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -46,7 +46,9 @@ func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_CALL_ID)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, err := lexer.Match(':'); err != nil {
+		return nil, err
+	}
 	lexer.SPorHT()
 	rest := strings.TrimSpace(lexer.GetRest())
 
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index a798f87..416358d 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -49,32 +49,42 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, err := lexer.Match('<'); err != nil {
+			return nil, err
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		callInfo.SetInfo(uri)
-		lexer.Match('>')
+		if _, err := lexer.Match('>'); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 
 		this.ParametersParser.Parse(callInfo)
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			callInfo = header.NewCallInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, err := lexer.Match('<'); err != nil {
+				return nil, err
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			callInfo.SetInfo(uri)
-			lexer.Match('>')
+			if _, err := lexer.Match('>'); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			this.ParametersParser.Parse(callInfo)
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..f384b14 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return err
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
@@ -73,7 +75,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
 			break
 		}
-		lexer.Match(',')
+		if _, err := lexer.Match(','); err != nil {
+			return err
+		}
 		lexer.SPorHT()
 	}
 	return nil
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index b7bb1e8..18c94b3 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -35,7 +35,9 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	for {
 		contact := header.NewContact()
 		if la, _ = lexer.LookAheadK(0); la == '*' {
-			lexer.Match('*')
+			if _, err := lexer.Match('*'); err != nil {
+				return nil, err
+			}
 			contact.SetWildCardFlag(true)
 		} else {
 			if ParseException = this.AddressParametersParser.Parse(contact); ParseException != nil {
@@ -51,7 +53,9 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 		retval.AddContact(contact)
 		lexer.SPorHT()
 		if la, _ = lexer.LookAheadK(0); la == ',' {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 		} else if la, _ = lexer.LookAheadK(0); la == '\n' {
 			break
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..2b28b4f 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -42,7 +42,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 
 	token := lexer.GetNextToken()
 	cd.SetDispositionType(token.GetTokenValue())
@@ -52,7 +54,10 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return cd, nil
 }
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..8b04c28 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -46,7 +46,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetEncoding(token.GetTokenValue())
@@ -56,9 +58,13 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentEncoding()
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetEncoding(token.GetTokenValue())
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..c06ce7d 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -46,7 +46,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -56,9 +58,13 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentLanguage()
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentLengthParser.go b/sip/parser/ContentLengthParser.go
index eb1ffbf..701b8bd 100644
--- a/sip/parser/ContentLengthParser.go
+++ b/sip/parser/ContentLengthParser.go
@@ -35,6 +35,9 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 	return contentLength, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..11bc415 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -30,21 +30,30 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	this.HeaderName(TokenTypes_CONTENT_TYPE)
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentType(t.GetTokenValue())
 
 	// The sub-type:
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match('/'); err != nil {
+		return nil, err
+	}
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentSubType(subType.GetTokenValue())
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return contentType, nil
 }
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 12350e0..ff5ab15 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -51,13 +51,17 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, err := lexer.Match('<'); err != nil {
+			return nil, err
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		errorInfo.SetErrorInfo(uri)
-		lexer.Match('>')
+		if _, err := lexer.Match('>'); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
@@ -66,19 +70,25 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfoList.PushBack(errorInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			errorInfo = header.NewErrorInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, err := lexer.Match('<'); err != nil {
+				return nil, err
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			errorInfo.SetErrorInfo(uri)
-			lexer.Match('>')
+			if _, err := lexer.Match('>'); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..de7cd18 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -40,7 +40,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
@@ -50,7 +52,10 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return event, nil
 }
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index a2b8443..9c0f3bc 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -39,10 +39,15 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_EXPIRES)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, err := lexer.Match(':'); err != nil {
+		return nil, err
+	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 	var delta int64
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index d7b03d5..6575a49 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -37,7 +37,10 @@ func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	this.GetLexer().SPorHT()
+	if _, err := this.GetLexer().Match('\n'); err != nil {
+		return nil, err
+	}
 	addr := from.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..344f187 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -44,11 +44,17 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match('@'); err != nil {
+				return nil, err
+			}
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			secToken := lexer.GetNextToken()
 			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 				secToken.GetTokenValue())
@@ -61,16 +67,24 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyToList.PushBack(inReplyTo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, err := lexer.Match('@'); err != nil {
+					return nil, err
+				}
+				if _, err := lexer.Match(TokenTypes_ID); err != nil {
+					return nil, err
+				}
 				secToken := lexer.GetNextToken()
 				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 					secToken.GetTokenValue())
diff --git a/sip/parser/MaxForwardsParser.go b/sip/parser/MaxForwardsParser.go
index ed4bd0b..0209f47 100644
--- a/sip/parser/MaxForwardsParser.go
+++ b/sip/parser/MaxForwardsParser.go
@@ -39,7 +39,10 @@ func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return contentLength, nil
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 6b74bfb..cb08d00 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -46,7 +46,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	mimeVersion.SetMajorVersion(majorVersion)
-	lexer.Match('.')
+	if _, err := lexer.Match('.'); err != nil {
+		return nil, err
+	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -54,7 +56,10 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return mimeVersion, nil
 }
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 05c5f54..6002176 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -50,7 +50,10 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return minExpires, nil
 }
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..b204c78 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -42,13 +42,18 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token := lexer.GetNextToken()
 
 	priority.SetPriority(token.GetTokenValue())
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return priority, nil
 }
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..b9d74dd 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -45,7 +45,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +55,17 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		proxyRequireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..2b3c4e9 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -52,12 +52,17 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	}
 	rack.SetCSeqNumber(number)
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token := lexer.GetNextToken()
 	rack.SetMethod(token.GetTokenValue())
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return rack, nil
 }
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index ae7f2aa..ad15ff2 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -48,7 +48,10 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq.SetSequenceNumber(number)
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return rseq, nil
 }
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..b9433da 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -42,7 +42,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
@@ -52,7 +54,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		}
 		reasonList.PushBack(reason)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..6c1fd13 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -37,7 +37,9 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_RECORD_ROUTE)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, err := lexer.Match(':'); err != nil {
+		return nil, err
+	}
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
@@ -45,7 +47,9 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 7985945..8023e70 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -33,6 +33,9 @@ func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 	return referTo, nil
 }
diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index ce3b8bd..5f10536 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -52,7 +52,10 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	}
 	retval.SetSipVersion(v)
 	lexer.SPorHT()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return retval, nil
 }
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..39ed775 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -45,7 +45,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +55,17 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		requireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..7c11674 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -55,13 +55,19 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, err := lexer.Match(';'); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if value == "duration" {
-			lexer.Match('=')
+			if _, err := lexer.Match('='); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			var duration int
@@ -71,9 +77,13 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			retryAfter.SetDuration(duration)
 		} else {
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, err := lexer.Match('='); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			retryAfter.SetParameter(value, secondValue)
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..e40f23b 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -38,7 +38,9 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_ROUTE)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, err := lexer.Match(':'); err != nil {
+		return nil, err
+	}
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
@@ -46,7 +48,9 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 145ab94..3672a43 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -152,7 +152,9 @@ func (this *SIPParser) SipVersion() (s string, ParseException error) {
 	if tok.GetTokenValue() != "SIP" {
 		return "", this.CreateParseException("Expecting SIP")
 	}
-	this.GetLexer().Match('/')
+	if _, err := this.GetLexer().Match('/'); err != nil {
+		return "", err
+	}
 	if tok, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
 		return "", this.CreateParseException("Expecting SIP/2.0")
 	}
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..2bb599b 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -45,27 +45,41 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, err := lexer.Match(';'); err != nil {
+			return nil, err
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
-			lexer.Match('=')
+			if _, err := lexer.Match('='); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 			subscriptionState.SetReasonCode(value)
 		} else if strings.ToLower(value) == "expires" {
-			lexer.Match('=')
+			if _, err := lexer.Match('='); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -75,9 +89,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetExpires(expires)
 		} else if strings.ToLower(value) == "retry-after" {
-			lexer.Match('=')
+			if _, err := lexer.Match('='); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -87,9 +105,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetRetryAfter(retryAfter)
 		} else {
-			lexer.Match('=')
+			if _, err := lexer.Match('='); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			subscriptionState.SetParameter(value, secondValue)
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..3ecb787 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -46,7 +46,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 		supported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +56,17 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supportedList.PushBack(supported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			supported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index d0a505c..692f464 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -52,7 +52,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 
 	var ts float64
 	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		lexer.Match('.')
+		if _, err := lexer.Match('.'); err != nil {
+			return nil, err
+		}
 
 		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 			return nil, ParseException
@@ -73,7 +75,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		}
 
 		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			lexer.Match('.')
+			if _, err := lexer.Match('.'); err != nil {
+				return nil, err
+			}
 			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 73246f4..4683139 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -35,7 +35,10 @@ func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	this.GetLexer().SPorHT()
+	if _, err := this.GetLexer().Match('\n'); err != nil {
+		return nil, err
+	}
 	addr := to.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 1623b16..dcdd586 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -354,7 +354,9 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(true)
 
-	this.GetLexer().Match(core.CORELEXER_PLUS)
+	if _, err := this.GetLexer().Match(core.CORELEXER_PLUS); err != nil {
+		return nil, err
+	}
 	b, err := this.Base_phone_number()
 	if err != nil {
 		return nil, err
@@ -427,8 +429,12 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
  *@return a parsed tel url structure.
  */
 func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException error) {
-	this.GetLexer().Match(TokenTypes_TEL)
-	this.GetLexer().Match(':')
+	if _, err := this.GetLexer().Match(TokenTypes_TEL); err != nil {
+		return nil, err
+	}
+	if _, err := this.GetLexer().Match(':'); err != nil {
+		return nil, err
+	}
 
 	var tn *address.TelephoneNumber
 	if tn, ParseException = this.ParseTelephoneNumber(); ParseException != nil {
@@ -461,8 +467,12 @@ func (this *URLParser) hasUserInfo() bool {
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	this.GetLexer().Match(TokenTypes_SIP)
-	this.GetLexer().Match(':')
+	if _, err := this.GetLexer().Match(TokenTypes_SIP); err != nil {
+		return nil, err
+	}
+	if _, err := this.GetLexer().Match(':'); err != nil {
+		return nil, err
+	}
 	retval.SetScheme(core.SIPTransportNames_SIP)
 
 	if this.hasUserInfo() {
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..f14d9cf 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -46,7 +46,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 		unsupported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +56,17 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupportedList.PushBack(unsupported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			token = lexer.GetNextToken()
 			unsupported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..720f584 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -32,7 +32,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return err
+	}
 
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
@@ -40,9 +42,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	lexer.SPorHT()
 	// consume the "/"
-	lexer.Match('/')
+	if _, err := lexer.Match('/'); err != nil {
+		return err
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return err
+	}
 	lexer.SPorHT()
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
@@ -51,9 +57,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	// We consume the "/"
-	lexer.Match('/')
+	if _, err := lexer.Match('/'); err != nil {
+		return err
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return err
+	}
 	lexer.SPorHT()
 
 	transport := lexer.GetNextToken()
@@ -79,7 +89,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var la byte
 	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, err := lexer.Match(';'); err != nil {
+			return err
+		}
 		lexer.SPorHT()
 
 		var nameValue *core.NameValue
@@ -130,7 +142,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, err := lexer.Match(core.CORELEXER_ID); err != nil {
+		return nil, err
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -154,7 +168,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, err := lexer.Match(core.CORELEXER_ID); err != nil {
+					return nil, err
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
@@ -176,9 +192,12 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 
 	// The first via header.
 	lexer.Match(TokenTypes_VIA)
-	lexer.SPorHT()   // ignore blanks
-	lexer.Match(':') // expect a colon.
-	lexer.SPorHT()   // ingore blanks.
+	lexer.SPorHT() // ignore blanks
+	// expect a colon.
+	if _, err := lexer.Match(':'); err != nil {
+		return nil, err
+	}
+	lexer.SPorHT() // ingore blanks.
 
 	for {
 		v := header.NewVia()
@@ -195,7 +214,10 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 			break
 		}
 	}
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return viaList, nil
 }
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..f1218c7 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -46,7 +46,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,7 +62,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
 		token = lexer.GetNextToken()
 		warning.SetAgent(token.GetTokenValue())
 		lexer.SPorHT()
@@ -76,13 +80,17 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		warningList.PushBack(warning)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, err := lexer.Match(','); err != nil {
+				return nil, err
+			}
 			lexer.SPorHT()
 
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
@@ -93,7 +101,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
 			tok = lexer.GetNextToken()
 			warning.SetAgent(tok.GetTokenValue())
 			lexer.SPorHT()
-- 
2.43.0


From 9abae780ee7f05b66eb1183f1edfba942111b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 018/108] fix: '=' may appear in any URI

---
 sip/parser/URLParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index dcdd586..3a3e82b 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -58,6 +58,7 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
@@ -136,6 +137,7 @@ func (this *URLParser) IsReserved(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
-- 
2.43.0


From 4bd4b0b5d85f304160196c6f841e2082f420041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 019/108] fix: accept SIP and tel URIs in Call-Info and
 Alert-Info

---
 sip/header/AlertInfoImpl.go  | 4 ++--
 sip/header/CallInfoImpl.go   | 4 ++--
 sip/parser/CallInfoParser.go | 8 ++++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..dbf11c9 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -53,7 +53,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..15f65fc 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -80,5 +80,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index 416358d..0d76d92 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -62,7 +62,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 		}
 		lexer.SPorHT()
 
-		this.ParametersParser.Parse(callInfo)
+		if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+			return nil, ParseException
+		}
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -87,7 +89,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			lexer.SPorHT()
 
-			this.ParametersParser.Parse(callInfo)
+			if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+				return nil, ParseException
+			}
 			callInfoList.PushBack(callInfo)
 		}
 	}
-- 
2.43.0


From c6dcf6fc0b514f7ddf22139dea4b0d06f0a8a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:43 +0000
Subject: [PATCH 020/108] fix: keep the parameters of Subscription-State after
 white space, and those that are zero, quoted or without a value

---
 sip/header/SubscriptionStateImpl.go   |  8 +--
 sip/parser/SubscriptionStateParser.go | 78 +++++++++------------------
 2 files changed, 30 insertions(+), 56 deletions(-)

diff --git a/sip/header/SubscriptionStateImpl.go b/sip/header/SubscriptionStateImpl.go
index 5a379f6..768b4c7 100644
--- a/sip/header/SubscriptionStateImpl.go
+++ b/sip/header/SubscriptionStateImpl.go
@@ -36,8 +36,8 @@ func NewSubscriptionState() *SubscriptionState {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetExpires(expires int) (InvalidArgumentException error) {
-	if expires <= 0 {
-		return errors.New("InvalidArgumentException: the expires parameter is <=0")
+	if expires < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is < 0")
 	}
 	this.expires = expires
 	return nil
@@ -61,8 +61,8 @@ func (this *SubscriptionState) GetExpires() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetRetryAfter(retryAfter int) (InvalidArgumentException error) {
-	if retryAfter <= 0 {
-		return errors.New("InvalidArgumentException: the retryAfter parameter is <=0")
+	if retryAfter < 0 {
+		return errors.New("InvalidArgumentException: the retryAfter parameter is < 0")
 	}
 	this.retryAfter = retryAfter
 	return nil
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 2bb599b..03910fb 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -51,74 +51,48 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
 
+	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		if _, err := lexer.Match(';'); err != nil {
-			return nil, err
-		}
+		lexer.ConsumeK(1)
 		lexer.SPorHT()
-		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		nv, err := this.NameValue('=')
+		if err != nil {
 			return nil, err
 		}
-		token = lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if strings.ToLower(value) == "reason" {
-			if _, err := lexer.Match('='); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-			subscriptionState.SetReasonCode(value)
-		} else if strings.ToLower(value) == "expires" {
-			if _, err := lexer.Match('='); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		value, _ := nv.GetValue().(string)
+		switch strings.ToLower(nv.GetName()) {
+		case "reason":
+			if err = subscriptionState.SetReasonCode(value); err != nil {
 				return nil, err
 			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
-			var expires int
-			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
-				return nil, ParseException
-			}
-			subscriptionState.SetExpires(expires)
-		} else if strings.ToLower(value) == "retry-after" {
-			if _, err := lexer.Match('='); err != nil {
-				return nil, err
+		case "expires":
+			expires, err := strconv.Atoi(value)
+			if err == nil {
+				err = subscriptionState.SetExpires(expires)
 			}
-			lexer.SPorHT()
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			if err != nil {
 				return nil, err
 			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
-			var retryAfter int
-			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
-				return nil, ParseException
+		case "retry-after":
+			retryAfter, err := strconv.Atoi(value)
+			if err == nil {
+				err = subscriptionState.SetRetryAfter(retryAfter)
 			}
-			subscriptionState.SetRetryAfter(retryAfter)
-		} else {
-			if _, err := lexer.Match('='); err != nil {
+			if err != nil {
 				return nil, err
 			}
-			lexer.SPorHT()
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
+		default:
+			if nv.IsValueQuoted() {
+				subscriptionState.SetQuotedParameter(nv.GetName(), value)
+			} else {
+				subscriptionState.SetParameter(nv.GetName(), value)
 			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			subscriptionState.SetParameter(value, secondValue)
 		}
-
 		lexer.SPorHT()
 	}
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
 
 	return subscriptionState, nil
 }
-- 
2.43.0


From 197a519d5bee3c3f81551da2c6b21041ff2bb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 021/108] fix: accept any Call-ID in In-Reply-To, and white
 space before commas

---
 sip/parser/InReplyToParser.go | 80 +++++++++++++----------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index 344f187..c55ea2a 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -40,61 +40,41 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_IN_REPLY_TO)
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	for {
+		lexer.SPorHT()
+		callId := this.callId()
+		if callId == "" {
+			return nil, this.CreateParseException("Expecting a Call-ID")
+		}
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
-
-		if _, err := lexer.Match(TokenTypes_ID); err != nil {
-			return nil, err
+		if ParseException = inReplyTo.SetCallId(callId); ParseException != nil {
+			return nil, ParseException
 		}
-		token := lexer.GetNextToken()
-		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			if _, err := lexer.Match('@'); err != nil {
-				return nil, err
-			}
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
-			}
-			secToken := lexer.GetNextToken()
-			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-				secToken.GetTokenValue())
-		} else {
-			inReplyTo.SetCallId(token.GetTokenValue())
-		}
-
-		lexer.SPorHT()
-
 		inReplyToList.PushBack(inReplyTo)
-
-		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			if _, err := lexer.Match(','); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-
-			inReplyTo = header.NewInReplyTo()
-
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
-			}
-			token = lexer.GetNextToken()
-			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				if _, err := lexer.Match('@'); err != nil {
-					return nil, err
-				}
-				if _, err := lexer.Match(TokenTypes_ID); err != nil {
-					return nil, err
-				}
-				secToken := lexer.GetNextToken()
-				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-					secToken.GetTokenValue())
-			} else {
-				inReplyTo.SetCallId(token.GetTokenValue())
-			}
-
-			inReplyToList.PushBack(inReplyTo)
+		lexer.SPorHT()
+		if ch, _ = lexer.LookAheadK(0); ch != ',' {
+			break
 		}
+		lexer.ConsumeK(1)
+	}
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
 	}
-
 	return inReplyToList, nil
 }
+
+/** Reads one Call-ID, which can hold more than token characters.
+ */
+func (this *InReplyToParser) callId() string {
+	var callId []byte
+	lexer := this.GetLexer()
+	for {
+		ch, err := lexer.LookAheadK(0)
+		if err != nil || ch == ',' || ch == ' ' || ch == '\t' || ch == '\n' {
+			return string(callId)
+		}
+		callId = append(callId, ch)
+		lexer.ConsumeK(1)
+	}
+}
-- 
2.43.0


From a87ad8801d3e01341e2e1e5c49fe81ae27e4141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 022/108] fix: keep the order of headers put on top of a list

---
 sip/header/SIPHeaderList.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..d578cd7 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -77,14 +77,20 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 		return
 	}
 
+	// The list given may be this one, so look at what it holds first.
+	headers := make([]Header, 0, shl.Len())
+	for e := shl.Front(); e != nil; e = e.Next() {
+		headers = append(headers, e.Value.(Header))
+	}
+
 	if !topFlag {
-		for e := shl.Front(); e != nil; e = e.Next() {
-			this.PushBack(e.Value.(Header))
+		for _, h := range headers {
+			this.PushBack(h)
 		}
 	} else {
-		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
-			this.PushFront(e.Value.(Header))
+		// add given items to the top end of the list, in their order
+		for i := len(headers) - 1; i >= 0; i-- {
+			this.PushFront(headers[i])
 		}
 	}
 }
-- 
2.43.0


From 88d9d24b941bbfffd810a481877285968b73aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 023/108] fix: keep every header added to a message, remove all
 of a name, and do not panic on the absent ones

---
 sip/header/SIPHeaderList.go |  63 ++++++++++
 sip/message/SIPMessage.go   | 223 +++++++++++++++++++-----------------
 sip/message/SIPRequest.go   |  12 +-
 3 files changed, 185 insertions(+), 113 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index d578cd7..f7749aa 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -167,3 +167,66 @@ func (this *SIPHeaderList) GetHeadersAsEncodedStrings() *list.List {
 	}
 	return retval
 }
+
+/** Returns a new list of the type that holds several headers like the given
+ * one in a message, with that header in it, or nil if there is no such type.
+ */
+func NewListOf(h Header) SIPHeaderLister {
+	var shl SIPHeaderLister
+	switch h.(type) {
+	case *Accept:
+		shl = NewAcceptList()
+	case *AcceptEncoding:
+		shl = NewAcceptEncodingList()
+	case *AcceptLanguage:
+		shl = NewAcceptLanguageList()
+	case *AlertInfo:
+		shl = NewAlertInfoList()
+	case *Allow:
+		shl = NewAllowList()
+	case *AllowEvents:
+		shl = NewAllowEventsList()
+	case *CallInfo:
+		shl = NewCallInfoList()
+	case *Contact:
+		shl = NewContactList()
+	case *ContentEncoding:
+		shl = NewContentEncodingList()
+	case *ContentLanguage:
+		shl = NewContentLanguageList()
+	case *ErrorInfo:
+		shl = NewErrorInfoList()
+	case *InReplyTo:
+		shl = NewInReplyToList()
+	case *ProxyRequire:
+		shl = NewProxyRequireList()
+	case *Reason:
+		shl = NewReasonList()
+	case *RecordRoute:
+		shl = NewRecordRouteList()
+	case *Require:
+		shl = NewRequireList()
+	case *Route:
+		shl = NewRouteList()
+	case *Supported:
+		shl = NewSupportedList()
+	case *Unsupported:
+		shl = NewUnsupportedList()
+	case *Via:
+		shl = NewViaList()
+	case *Warning:
+		shl = NewWarningList()
+	case *WWWAuthenticate:
+		shl = NewWWWAuthenticateList()
+	case *ProxyAuthenticate:
+		shl = NewProxyAuthenticateList()
+	case *Authorization, *ProxyAuthorization:
+		shl = &SIPHeaderList{SIPHeader: SIPHeader{headerName: h.GetName()}}
+	case *Extension:
+		shl = NewExtensionHeaderList(h.GetName())
+	default:
+		return nil
+	}
+	shl.PushBack(h)
+	return shl
+}
diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..4d67ac2 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -358,7 +358,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
+	if this.contentLengthHeader != nil {
+		encoding.WriteString(this.contentLengthHeader.String())
+	}
+	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
 	if this.messageContentObject != nil {
 		mbody := this.GetContent()
@@ -599,47 +602,41 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		return errors.New("NullPointerException: nil header")
 	}
 
-	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
-	} else {
-		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
-			if _, ok := h.(header.SIPHeaderLister); !ok {
-				if cl, ok := h.(*header.ContentLength); ok {
-					this.contentLengthHeader.SetContentLength(cl.GetContentLength())
-				}
-				// Just ignore duplicate header.
-				return nil
-			}
+	name := strings.ToLower(h.GetName())
+	shl, isList := h.(header.SIPHeaderLister)
+	if !isList {
+		// Several headers of this type are kept in a list.
+		if shl = header.NewListOf(h); shl != nil {
+			isList = true
 		}
 	}
+	if isList && shl.Len() == 0 {
+		return nil
+	}
 
-	originalHeader := this.GetHeader(h.GetName())
+	if replaceFlag {
+		this.RemoveHeader(name)
+	}
 
-	// Delete the original sh from our list structure.
-	if originalHeader != nil {
-		for li := this.headers.Front(); li != nil; li = li.Next() {
-			next := li.Value.(header.Header)
-			if next == originalHeader {
-				this.headers.Remove(li)
-			}
+	if present, ok := this.nameTable[name]; ok {
+		if cl, ok := h.(*header.ContentLength); ok {
+			this.setContentLength(cl.GetContentLength())
+			return nil
 		}
+		hdrlist, ok := present.(header.SIPHeaderLister)
+		if !ok || !isList {
+			// Just ignore duplicate header.
+			return nil
+		}
+		hdrlist.Concatenate(shl, top)
+		return nil
 	}
 
-	if this.GetHeader(h.GetName()) == nil {
-		this.nameTable[strings.ToLower(h.GetName())] = h
-		this.headers.PushBack(h)
-	} else {
-		if hs, ok := h.(header.SIPHeaderLister); ok {
-			hdrlist := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
-			if hdrlist != nil {
-				hdrlist.Concatenate(hs, top)
-			} else {
-				this.nameTable[strings.ToLower(h.GetName())] = h
-			}
-		} else {
-			this.nameTable[strings.ToLower(h.GetName())] = h
-		}
+	if isList {
+		h = shl
 	}
+	this.nameTable[name] = h
+	this.headers.PushBack(h)
 
 	// Direct accessor fields for frequently accessed headers.
 	if sh, ok := h.(*header.From); ok {
@@ -667,55 +664,17 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
  *@param top -- flag that indicates which end of header list to process.
  */
 func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
-	toRemove := this.nameTable[strings.ToLower(headerName)]
-
-	// nothing to do then we are done.
-	if toRemove == nil {
+	hdrList, ok := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	if !ok || hdrList.Len() <= 1 {
+		this.RemoveHeader(headerName)
 		return
 	}
 
-	if hdrList, ok := toRemove.(header.SIPHeaderLister); ok {
-		if top {
-			first := hdrList.Front()
-			hdrList.Remove(first)
-		} else {
-			last := hdrList.Back()
-			hdrList.Remove(last)
-		}
-		// Clean up empty list
-		if hdrList.Len() == 0 {
-			for li := this.headers.Front(); li != nil; li = li.Next() {
-				sipHeader := li.Value.(header.Header)
-				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-					this.headers.Remove(li)
-				}
-			}
-		}
+	if top {
+		hdrList.Remove(hdrList.Front())
 	} else {
-		delete(this.nameTable, strings.ToLower(headerName))
-		var ok bool
-		if _, ok = toRemove.(*header.From); ok {
-			this.fromHeader = nil
-		} else if _, ok = toRemove.(*header.To); ok {
-			this.toHeader = nil
-		} else if _, ok = toRemove.(*header.CSeq); ok {
-			this.cSeqHeader = nil
-		} else if _, ok = toRemove.(*header.CallID); ok {
-			this.callIdHeader = nil
-		} else if _, ok = toRemove.(*header.MaxForwards); ok {
-			this.maxForwardsHeader = nil
-		} else if _, ok = toRemove.(*header.ContentLength); ok {
-			this.contentLengthHeader = nil
-		}
-
-		for li := this.headers.Front(); li != nil; li = li.Next() {
-			sipHeader := li.Value.(header.Header)
-			if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-				this.headers.Remove(li)
-			}
-		}
+		hdrList.Remove(hdrList.Back())
 	}
-
 }
 
 /** Remove all headers given its name.
@@ -745,11 +704,13 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
 		this.contentLengthHeader = nil
 	}
 
-	for li := this.headers.Front(); li != nil; li = li.Next() {
+	for li := this.headers.Front(); li != nil; {
+		next := li.Next()
 		sipHeader := li.Value.(header.Header)
 		if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
 			this.headers.Remove(li)
 		}
+		li = next
 	}
 }
 
@@ -775,10 +736,7 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  *	the same computed transaction identifier).
  */
 func (this *SIPMessage) GetTransactionId() string {
-	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
-		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	topVia := this.GetTopmostVia()
 	// Have specified a branch Identifier so we can use it to identify
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
@@ -844,6 +802,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
@@ -855,13 +816,17 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	return h
 }
 
 /** Get the from header.
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -870,7 +835,8 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	return h
 }
 
 /**
@@ -878,7 +844,8 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	return h
 }
 
 /**
@@ -886,7 +853,8 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	return h
 }
 
 /** Get an iterator to the list of vial headers.
@@ -921,10 +889,11 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
+	vias := this.GetViaHeaders()
+	if vias == nil || vias.Len() == 0 {
 		return nil
 	} else {
-		return this.GetViaHeaders().Front().Value.(*header.Via)
+		return vias.Front().Value.(*header.Via)
 	}
 }
 
@@ -933,6 +902,9 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
@@ -948,7 +920,8 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	return h
 }
 
 /**
@@ -956,6 +929,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -971,7 +947,8 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	h, _ := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	return h
 }
 
 /** Set the min expires header.
@@ -987,7 +964,8 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	return h
 }
 
 /**
@@ -995,7 +973,8 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	return h
 }
 
 /**
@@ -1003,7 +982,8 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	return h
 }
 
 /**
@@ -1011,7 +991,8 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	return h
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1019,6 +1000,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1060,7 +1044,8 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	return h
 }
 
 /**
@@ -1068,6 +1053,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1085,6 +1073,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
@@ -1190,7 +1181,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1227,7 +1218,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.setContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1260,7 +1251,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1272,7 +1263,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
@@ -1285,7 +1276,7 @@ func (this *SIPMessage) SetMessageContent(content string) {
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1301,7 +1292,7 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.setContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1330,7 +1321,8 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	shl, _ := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	return shl
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1539,7 +1531,8 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	return h
 }
 
 /** Get the content encoding header.
@@ -1547,7 +1540,8 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	return h
 }
 
 /** Get the contentLanguage header.
@@ -1555,7 +1549,8 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	return h
 }
 
 /** Get the exipres header.
@@ -1563,7 +1558,8 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	return h
 }
 
 /** Set the expiresHeader
@@ -1596,7 +1592,7 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.setContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
@@ -1614,3 +1610,14 @@ func (this *SIPMessage) SetCSeq(cseqHeader header.CSeqHeader) {
 //    //public abstract String GetSIPVersion();
 
 //    //public abstract String toString();
+
+/** Sets the value of the Content-Length header, and adds the header if
+ * there is none.
+ */
+func (this *SIPMessage) setContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLengthFromInt(length), false)
+		return
+	}
+	this.contentLengthHeader.SetContentLength(length)
+}
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..55c3344 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -175,8 +175,7 @@ func (this *SIPRequest) SetDefaults() {
 func (this *SIPRequest) SetRequestLineDefaults() {
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
-		if cseq != nil {
+		if cseq := this.GetCSeq(); cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
 		}
@@ -838,7 +837,10 @@ func (this *SIPRequest) CreateACKRequest() *SIPRequest {
 * header.
  */
 func (this *SIPRequest) GetViaHost() string {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
+	via := this.GetTopmostVia()
+	if via == nil {
+		return ""
+	}
 	return via.GetHost()
 }
 
@@ -849,8 +851,8 @@ func (this *SIPRequest) GetViaHost() string {
 *  no port indicated).
  */
 func (this *SIPRequest) GetViaPort() int {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
-	if via.HasPort() {
+	via := this.GetTopmostVia()
+	if via != nil && via.HasPort() {
 		return via.GetPort()
 	} else {
 		return 5060
-- 
2.43.0


From ddcad9a2e746b7de1801c4e3483a0ce5c6620bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 024/108] fix: read Via comments where they are written, and
 stop at the end of input inside one

---
 sip/parser/ViaParser.go | 65 ++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 720f584..1f4a97d 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -78,16 +77,35 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// sent-By
 	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
 
-	var hostPort *core.HostPort
-	if hostPort, ParseException = hnp.GetHostPort(); ParseException != nil {
+	var host *core.Host
+	if host, ParseException = hnp.GetHost(); ParseException != nil {
 		return ParseException
 	}
+	hostPort := core.NewHostPort()
+	hostPort.SetHost(host)
 	v.SetSentBy(hostPort)
 
 	// Ignore blanks
 	lexer.SPorHT()
 
 	var la byte
+	if la, _ = lexer.LookAheadK(0); la == ':' {
+		lexer.ConsumeK(1)
+		lexer.SPorHT()
+		var port int
+		if port, ParseException = lexer.Number(); ParseException != nil {
+			return ParseException
+		}
+		hostPort.SetPort(port)
+		lexer.SPorHT()
+	}
+
+	// Via headers are written with the comment before the parameters.
+	if ParseException = this.comment(v); ParseException != nil {
+		return ParseException
+	}
+	lexer.SPorHT()
+
 	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
 		if _, err := lexer.Match(';'); err != nil {
 			return err
@@ -105,36 +123,23 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 		lexer.SPorHT()
 	}
 
-	if la, _ = lexer.LookAheadK(0); la == '(' {
-		lexer.SelectLexer("charLexer")
-		lexer.ConsumeK(1)
+	return this.comment(v)
+}
 
-		var comment bytes.Buffer
-		for {
-			ch, _ := lexer.LookAheadK(0)
-			if ch == ')' {
-				lexer.ConsumeK(1)
-				break
-			} else if ch == '\\' {
-				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-			} else if ch == '\n' {
-				break
-			} else {
-				comment.WriteByte(ch)
-				lexer.ConsumeK(1)
-			}
-		}
-		v.SetComment(comment.String())
+/** Reads the comment of a Via header, if there is one.
+ */
+func (this *ViaParser) comment(v *header.Via) (ParseException error) {
+	lexer := this.GetLexer()
+	if la, _ := lexer.LookAheadK(0); la != '(' {
+		return nil
 	}
-
+	lexer.SelectLexer("charLexer")
+	var comment string
+	if comment, ParseException = lexer.Comment(); ParseException != nil {
+		return ParseException
+	}
+	v.SetComment(comment)
 	return nil
-
 }
 
 /** Overrides the superclass nameValue parser because
-- 
2.43.0


From 53b0504348cd7f3bf7655e67b48d9dccba4a05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 025/108] fix: end the received parameter of a Via at white
 space or a comma

---
 sip/parser/ViaParser.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1f4a97d..02ac6dc 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -165,7 +165,7 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
 			// Allow for IPV6 Addresses.
 			// these could have : in them!
-			str = lexer.ByteStringNoSemicolon()
+			str = this.received()
 		} else {
 			if la, _ = lexer.LookAheadK(0); la == '"' {
 				if str, ParseException = lexer.QuotedString(); ParseException != nil {
@@ -226,3 +226,19 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 
 	return viaList, nil
 }
+
+/** Reads the address in a received parameter, which may be an IPv6 address
+ * without brackets.
+ */
+func (this *ViaParser) received() string {
+	var received []byte
+	lexer := this.GetLexer()
+	for {
+		ch, err := lexer.LookAheadK(0)
+		if err != nil || ch == ';' || ch == ',' || ch == '(' || ch == ' ' || ch == '\t' || ch == '\n' {
+			return string(received)
+		}
+		received = append(received, ch)
+		lexer.ConsumeK(1)
+	}
+}
-- 
2.43.0


From 53dd1272377ebaf3fca1f7882e16af98a1c43649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 026/108] fix: require a comma between Vias, and a Via after a
 comma

---
 sip/parser/ViaParser.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 02ac6dc..c53dee4 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -211,13 +211,11 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 		}
 		viaList.PushBack(v)
 		lexer.SPorHT() // eat whitespace.
-		if la, _ := lexer.LookAheadK(0); la == ',' {
-			lexer.ConsumeK(1) // Consume the comma
-			lexer.SPorHT()    // Ignore space after.
-		}
-		if la, _ := lexer.LookAheadK(0); la == '\n' {
+		if la, _ := lexer.LookAheadK(0); la != ',' {
 			break
 		}
+		lexer.ConsumeK(1) // Consume the comma
+		lexer.SPorHT()    // Ignore space after.
 	}
 	lexer.SPorHT()
 	if _, err := lexer.Match('\n'); err != nil {
-- 
2.43.0


From 7c8c4a38a3982003098cf305d4031e71ccfe4a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 027/108] fix: reject Route and Record-Route headers whose
 address cannot be read

---
 sip/parser/RecordRouteParser.go | 4 +++-
 sip/parser/RouteParser.go       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index 6c1fd13..0c60ceb 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -43,7 +43,9 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index e40f23b..a775fc7 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -44,7 +44,9 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-- 
2.43.0


From 183343932afb56de55ed5e2b42dbe34fee48cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 028/108] fix: read the wildcard Contact in the form it is
 written

---
 sip/parser/ContactParser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index 18c94b3..64c15f4 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -39,6 +39,8 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 				return nil, err
 			}
 			contact.SetWildCardFlag(true)
+		} else if this.wildCard() {
+			contact.SetWildCardFlag(true)
 		} else {
 			if ParseException = this.AddressParametersParser.Parse(contact); ParseException != nil {
 				return nil, ParseException
@@ -65,3 +67,16 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	}
 	return retval, nil
 }
+
+/** Reads <*>, which is how the wildcard is written.
+ */
+func (this *ContactParser) wildCard() bool {
+	lexer := this.GetLexer()
+	for k, want := range []byte("<*>") {
+		if ch, err := lexer.LookAheadK(k); err != nil || ch != want {
+			return false
+		}
+	}
+	lexer.ConsumeK(3)
+	return true
+}
-- 
2.43.0


From db57c9390a938c66914dbd9fe6768ff3da3fc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 029/108] fix: reject messages whose headers are not
 terminated, and end them at their first blank line

---
 sip/parser/StringMsgParser.go | 36 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..cf4a90e 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -181,32 +181,22 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 		return nil, nil
 	}
 
-	// Find the end of the SIP message.
-	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
-		if msgBuffer[f] == '\r' &&
-			msgBuffer[f+1] == '\n' &&
-			msgBuffer[f+2] == '\r' &&
-			msgBuffer[f+3] == '\n' {
-			break
-		}
-	}
-	if f < len(msgBuffer) {
-		f += 4
-	} else {
-		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
-			if msgBuffer[f] == '\n' &&
-				msgBuffer[f+1] == '\n' {
-				break
-			}
+	// Find the blank line that ends the headers. Lines end with CRLF,
+	// or with LF only.
+	f := -1
+	for k := s; k < len(msgBuffer) && f == -1; k++ {
+		if msgBuffer[k] != '\n' {
+			continue
 		}
-		if f < len(msgBuffer) {
-			f += 2
-		} else {
-			return nil, errors.New("ParseException: Message not terminated")
+		if bytes.HasPrefix(msgBuffer[k+1:], []byte("\r\n")) {
+			f = k + 3
+		} else if bytes.HasPrefix(msgBuffer[k+1:], []byte("\n")) {
+			f = k + 2
 		}
 	}
+	if f == -1 {
+		return nil, errors.New("ParseException: Message not terminated")
+	}
 
 	// Encode the body as a UTF-8 string.
 	var messageString string
-- 
2.43.0


From 8a679be3132b5c593db9f9daca2b1afaf95bd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 030/108] fix: keep the headers after a line of white space

---
 sip/parser/StringMsgParser.go | 62 ++++++-----------------------------
 1 file changed, 10 insertions(+), 52 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index cf4a90e..d4b981f 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -199,69 +199,27 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	}
 
 	// Encode the body as a UTF-8 string.
-	var messageString string
-	messageString = string(msgBuffer[s:f]) //, "UTF-8");
+	messageString := string(msgBuffer[s:f]) //, "UTF-8");
 
 	this.bufferPointer = f
-	message := []byte(messageString)
-	length := len(message)
 	// Get rid of CR to make it uniform for the parser.
-	for k := 0; k < length; k++ {
-		if message[k] == '\r' {
-			copy(message[k:length-1], message[k+1:length])
-			length--
-		}
-	}
-
-	// The following can be written more efficiently in a single pass
-	// but it is somewhat tricky.
-	tokenizer := core.NewStringTokenizer(string(message[:length]))
-	var cooked_message bytes.Buffer
-
-	for tokenizer.HasMoreChars() {
-		nexttok := tokenizer.NextToken()
-		// Ignore blank lines with leading spaces or tabs.
-		if strings.TrimSpace(nexttok) == "" {
-			cooked_message.WriteString("\n")
-		} else {
-			cooked_message.WriteString(nexttok)
-		}
-	}
-
-	message1 := cooked_message.String()
-	length = strings.Index(message1, "\n\n") + 2
+	messageString = strings.Replace(messageString, "\r", "", -1)
 
 	// Handle continuations - look for a space or a tab at the start
-	// of the line and append it to the previous line.
-	var cooked_message1 bytes.Buffer
-	for k := 0; k < length-1; {
-		if message1[k] == '\n' {
-			if message1[k+1] == '\t' || message1[k+1] == ' ' {
-				k++
-				k++
-				if k == length {
-					break
-				} else {
-					continue
-				}
-			} else {
-				cooked_message1.WriteByte(message1[k])
-			}
-
-			if message1[k+1] == '\n' {
-				cooked_message1.WriteByte('\n')
-			}
+	// of the line and append what follows it to the previous line.
+	var cooked_message bytes.Buffer
+	for k := 0; k < len(messageString); k++ {
+		if messageString[k] == '\n' && k+1 < len(messageString) &&
+			(messageString[k+1] == ' ' || messageString[k+1] == '\t') {
+			k++
 		} else {
-			cooked_message1.WriteByte(message1[k])
+			cooked_message.WriteByte(messageString[k])
 		}
-		k++
 	}
-	cooked_message1.WriteString("\n\n")
-	cooked_message1.WriteString(message1[length:])
 
 	// Separate the string out into substrings for
 	// error reporting.
-	this.currentMessage = cooked_message1.String()
+	this.currentMessage = cooked_message.String()
 
 	sipmsg, err := this.ParseMessage(this.currentMessage)
 	if err != nil {
-- 
2.43.0


From 027dd8bc511d027d285feb5eb6f70b22bc0a1524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 031/108] fix: reject a Content-Length too large to add up

---
 sip/parser/StringMsgParser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index d4b981f..3964bf2 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -229,9 +229,8 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
 		this.contentLength = sipmsg.GetContentLength().GetContentLength()
 
-		endIndex := this.bufferPointer + this.contentLength
 		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
+		if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
 			return nil, errors.New("Content Length Larger Than Message")
 		}
 
-- 
2.43.0


From 3934261aeac5e4f00f5e6ac52b492a65b6cfe6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 032/108] fix: go on with the next header when the
 ParseExceptionListener has handled a parse error

---
 sip/parser/StringMsgParser.go | 60 ++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 3964bf2..6998b3c 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -298,28 +298,22 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 		sipmsg = message.NewSIPRequest()
 		var rl *header.RequestLine
 		if rl, err = NewRequestLineParser(firstLine + "\n").Parse(); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, firstLine, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
+			if err = this.handleException(err, sipmsg, firstLine, currentMessage); err != nil {
 				return nil, err
 			}
+		} else {
+			sipmsg.(*message.SIPRequest).SetRequestLine(rl)
 		}
-		sipmsg.(*message.SIPRequest).SetRequestLine(rl)
 	} else {
 		sipmsg = message.NewSIPResponse()
 		var sl *header.StatusLine
 		if sl, err = NewStatusLineParser(firstLine + "\n").Parse(); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, firstLine, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
+			if err = this.handleException(err, sipmsg, firstLine, currentMessage); err != nil {
 				return nil, err
 			}
+		} else {
+			sipmsg.(*message.SIPResponse).SetStatusLine(sl)
 		}
-		sipmsg.(*message.SIPResponse).SetStatusLine(sl)
 	}
 
 	for i := 1; i < len(this.messageHeaders); i++ {
@@ -327,36 +321,29 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 		if hdrstring == "" || strings.TrimSpace(hdrstring) == "" {
 			continue
 		}
+		this.currentLine = i
+		this.currentHeader = hdrstring
 
+		var sipHeader header.Header
 		var hdrParser Parser
-		if hdrParser, err = CreateParser(hdrstring + "\n"); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
-				return nil, err
-			}
+		if hdrParser, err = CreateParser(hdrstring + "\n"); err == nil {
+			sipHeader, err = hdrParser.Parse()
 		}
-
-		var sipHeader header.Header
-		if sipHeader, err = hdrParser.Parse(); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
+		if err != nil {
+			if err = this.handleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 				return nil, err
 			}
+			// What becomes of this header is up to the listener.
+			continue
 		}
 
-		if _, ok := sipmsg.(*message.SIPRequest); ok {
-			if cseq, present := sipHeader.(*header.CSeq); present {
-				if cseq.GetMethod() != sipmsg.(*message.SIPRequest).GetMethod() {
+		if request, ok := sipmsg.(*message.SIPRequest); ok {
+			if cseq, present := sipHeader.(*header.CSeq); present && request.GetRequestLine() != nil {
+				if cseq.GetMethod() != request.GetMethod() {
 					return nil, errors.New("Start Line and CSeq Method Mismatch")
 				}
 			}
-			sipmsg.(*message.SIPRequest).AttachHeader2(sipHeader, false)
+			request.AttachHeader2(sipHeader, false)
 		} else {
 			sipmsg.(*message.SIPResponse).AttachHeader2(sipHeader, false)
 		}
@@ -364,6 +351,15 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 	return sipmsg, nil
 }
 
+/** Lets the listener handle a parse error. Returns nil if it has done so.
+ */
+func (this *StringMsgParser) handleException(err error, sipmsg message.Message, headerText string, messageText string) error {
+	if this.parseExceptionListener == nil {
+		return err
+	}
+	return this.parseExceptionListener.HandleException(err, sipmsg, headerText, messageText)
+}
+
 /**
  * Parse an address (nameaddr or address spec)  and return and address
  * structure.
-- 
2.43.0


From 6c5a16bfd0c47afdce40abdb0aab2415302f2596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 033/108] fix: put an added Via on top

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 4d67ac2..f35aa9c 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1431,7 +1431,7 @@ func (this *SIPMessage) AddHeader(sipHeader header.Header) {
 	// Content length is never stored. Just computed.
 	sh := sipHeader.(header.Header)
 	//try {
-	if _, ok := sipHeader.(header.ViaHeader); ok {
+	if _, ok := sipHeader.(*header.Via); ok {
 		this.AttachHeader3(sh, false, true)
 	} else {
 		this.AttachHeader3(sh, false, false)
-- 
2.43.0


From d3c086105cee66f5d631ef07c52c76a60069e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:06 +0000
Subject: [PATCH 034/108] fix: keep the spaces inside a quoted display name

---
 sip/parser/AddressParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index 23fcaae..704cabe 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -76,13 +76,14 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			if name, ParseException = lexer.QuotedString(); ParseException != nil {
 				return nil, ParseException
 			}
+			addr.SetDisplayName(name)
 			lexer.SPorHT()
 		} else {
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
 			}
+			addr.SetDisplayName(strings.TrimSpace(name))
 		}
-		addr.SetDisplayName(strings.TrimSpace(name))
 		if _, err := lexer.Match('<'); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 4fe9ac3b5b08c555dfe9d3de488dc357df35fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 035/108] fix: recognise SIP addresses

---
 sip/address/AddressImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..d15f8b2 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -241,7 +241,7 @@ func (this *AddressImpl) RemoveDisplayName() {
  *
  */
 func (this *AddressImpl) IsSIPAddress() bool {
-	_, ok := this.address.(SipURI)
+	_, ok := this.address.(*SipURIImpl)
 	return ok
 }
 
-- 
2.43.0


From ae267150e822d10ecf2590bf6f9969c48128695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 036/108] fix: write Server and User-Agent as they were read,
 without a line break

---
 sip/parser/ServerParser.go    | 48 ++++++++++++++++++++++-------------
 sip/parser/UserAgentParser.go | 20 ++-------------
 2 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..19431a5 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -46,25 +46,37 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			server.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				server.AddProductToken(tok)
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				server.AddProductToken(tok)
-			}
-		}
+	for _, tok := range productTokens(strings.TrimSpace(lexer.GetRest())) {
+		server.AddProductToken(tok)
 	}
 
 	return server, nil
 }
+
+/** Splits the value of a Server or User-Agent header at each slash that is
+ * not inside a comment.
+ */
+func productTokens(value string) []string {
+	var tokens []string
+	start, depth := 0, 0
+	for i := 0; i < len(value); i++ {
+		switch value[i] {
+		case '\\':
+			if depth > 0 {
+				i++
+			}
+		case '(':
+			depth++
+		case ')':
+			if depth > 0 {
+				depth--
+			}
+		case '/':
+			if depth == 0 {
+				tokens = append(tokens, value[start:i])
+				start = i + 1
+			}
+		}
+	}
+	return append(tokens, value[start:])
+}
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..790ef08 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -47,24 +47,8 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			userAgent.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				userAgent.AddProductToken(strings.TrimSpace(tok))
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				userAgent.AddProductToken(tok)
-			}
-		}
+	for _, tok := range productTokens(strings.TrimSpace(lexer.GetRest())) {
+		userAgent.AddProductToken(tok)
 	}
 
 	return userAgent, nil
-- 
2.43.0


From 27facff778f773ac098d791c6c189d5187392333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 037/108] fix: allow white space around the slash of a media
 type, and report errors in Accept

---
 sip/parser/AcceptParser.go      | 75 ++++++++++++++-------------------
 sip/parser/ContentTypeParser.go |  1 +
 2 files changed, 33 insertions(+), 43 deletions(-)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 8dbc627..642ea75 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -49,53 +49,42 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_ACCEPT)
 
-	accept := header.NewAccept()
-	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
-
 	lexer.SPorHT()
-	if _, err := lexer.Match(TokenTypes_ID); err != nil {
-		return nil, err
-	}
-	token := lexer.GetNextToken()
-	accept.SetContentType(token.GetTokenValue())
-	if _, err := lexer.Match('/'); err != nil {
-		return nil, err
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+		for {
+			accept := header.NewAccept()
+			accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
+			token := lexer.GetNextToken()
+			accept.SetContentType(token.GetTokenValue())
+			lexer.SPorHT()
+			if _, err := lexer.Match('/'); err != nil {
+				return nil, err
+			}
+			lexer.SPorHT()
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
+			}
+			token = lexer.GetNextToken()
+			accept.SetContentSubType(token.GetTokenValue())
+			lexer.SPorHT()
+			if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+				return nil, ParseException
+			}
+			acceptList.PushBack(accept)
+			lexer.SPorHT()
+			if ch, _ = lexer.LookAheadK(0); ch != ',' {
+				break
+			}
+			lexer.ConsumeK(1)
+			lexer.SPorHT()
+		}
 	}
-	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+	if _, err := lexer.Match('\n'); err != nil {
 		return nil, err
 	}
-	token = lexer.GetNextToken()
-	accept.SetContentSubType(token.GetTokenValue())
-	lexer.SPorHT()
 
-	this.ParametersParser.Parse(accept)
-	acceptList.PushBack(accept)
-
-	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		if _, err := lexer.Match(','); err != nil {
-			return nil, err
-		}
-		lexer.SPorHT()
-
-		accept = header.NewAccept()
-
-		if _, err := lexer.Match(TokenTypes_ID); err != nil {
-			return nil, err
-		}
-		token = lexer.GetNextToken()
-		accept.SetContentType(token.GetTokenValue())
-		if _, err := lexer.Match('/'); err != nil {
-			return nil, err
-		}
-		if _, err := lexer.Match(TokenTypes_ID); err != nil {
-			return nil, err
-		}
-		token = lexer.GetNextToken()
-		accept.SetContentSubType(token.GetTokenValue())
-		lexer.SPorHT()
-		this.ParametersParser.Parse(accept)
-		acceptList.PushBack(accept)
-
-	}
 	return acceptList, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index 11bc415..2a1528c 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -41,6 +41,7 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	if _, err := lexer.Match('/'); err != nil {
 		return nil, err
 	}
+	lexer.SPorHT()
 	if _, err := lexer.Match(TokenTypes_ID); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From daa46c0e5cf541cec9c6b8b12ec5464f9ccc60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 038/108] fix: allow white space around the parameters of
 Accept-Encoding and Accept-Language

---
 sip/parser/AcceptEncodingParser.go | 10 +++++++---
 sip/parser/AcceptLanguageParser.go | 10 ++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index b6c2815..519cbe0 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -63,6 +63,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 	var ch byte
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_ACCEPT_ENCODING)
+	lexer.SPorHT()
 
 	// empty body is fine for this header.
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
@@ -77,6 +78,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
+				lexer.SPorHT()
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
@@ -109,10 +111,12 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 			acceptEncodingList.PushBack(acceptEncoding)
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				if _, err := lexer.Match(','); err != nil {
-					return nil, err
-				}
+				lexer.ConsumeK(1)
 				lexer.SPorHT()
+			} else if _, err := lexer.Match('\n'); err != nil {
+				return nil, err
+			} else {
+				break
 			}
 
 		}
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cb33236..4b2c94c 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -57,6 +57,7 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 	var ch byte
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_ACCEPT_LANGUAGE)
+	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
@@ -67,6 +68,7 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
+			lexer.SPorHT()
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
@@ -101,12 +103,12 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 		acceptLanguageList.PushBack(acceptLanguage)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			if _, err := lexer.Match(','); err != nil {
-				return nil, err
-			}
+			lexer.ConsumeK(1)
 			lexer.SPorHT()
+		} else if _, err := lexer.Match('\n'); err != nil {
+			return nil, err
 		} else {
-			lexer.SPorHT()
+			break
 		}
 	}
 
-- 
2.43.0


From e61a620becf6dd49d0a45c762635d5a95e2af04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:40 +0000
Subject: [PATCH 039/108] fix: read white space in, and write a zero,
 Retry-After

---
 sip/header/RetryAfterImpl.go   |  4 +--
 sip/parser/RetryAfterParser.go | 56 +++++++++++-----------------------
 2 files changed, 19 insertions(+), 41 deletions(-)

diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 7c11674..fd6092b 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -3,12 +3,13 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strconv"
 )
 
 /** SIPParser for RetryAfter header.
  */
 type RetryAfterParser struct {
-	HeaderParser
+	ParametersParser
 }
 
 /** Creates a new instance of RetryAfterParser
@@ -16,7 +17,7 @@ type RetryAfterParser struct {
  */
 func NewRetryAfterParser(retryAfter string) *RetryAfterParser {
 	this := &RetryAfterParser{}
-	this.HeaderParser.super(retryAfter)
+	this.ParametersParser.super(retryAfter)
 	return this
 }
 
@@ -25,7 +26,7 @@ func NewRetryAfterParser(retryAfter string) *RetryAfterParser {
  */
 func NewRetryAfterParserFromLexer(lexer core.Lexer) *RetryAfterParser {
 	this := &RetryAfterParser{}
-	this.HeaderParser.superFromLexer(lexer)
+	this.ParametersParser.superFromLexer(lexer)
 	return this
 }
 
@@ -49,46 +50,25 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
-		comment, _ := lexer.Comment()
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
+			return nil, ParseException
+		}
 		retryAfter.SetComment(comment)
 	}
 	lexer.SPorHT()
 
-	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		if _, err := lexer.Match(';'); err != nil {
-			return nil, err
-		}
-		lexer.SPorHT()
-		if _, err := lexer.Match(TokenTypes_ID); err != nil {
-			return nil, err
-		}
-		token := lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if value == "duration" {
-			if _, err := lexer.Match('='); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-
-			var duration int
-			if duration, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-			retryAfter.SetDuration(duration)
-		} else {
-			lexer.SPorHT()
-			if _, err := lexer.Match('='); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
-			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			retryAfter.SetParameter(value, secondValue)
+	if ParseException = this.ParametersParser.Parse(retryAfter); ParseException != nil {
+		return nil, ParseException
+	}
+	if retryAfter.HasParameter(header.ParameterNames_DURATION) {
+		if _, ParseException = strconv.Atoi(retryAfter.GetParameter(header.ParameterNames_DURATION)); ParseException != nil {
+			return nil, ParseException
 		}
-		lexer.SPorHT()
+	}
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
 	}
 
 	return retryAfter, nil
-- 
2.43.0


From fc63b805040be43768ec7d4041d95ec9e7ce53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 040/108] fix: write the text of a Warning even if it is empty

---
 sip/header/WarningImpl.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sip/header/WarningImpl.go b/sip/header/WarningImpl.go
index 3e70275..97173e0 100644
--- a/sip/header/WarningImpl.go
+++ b/sip/header/WarningImpl.go
@@ -47,12 +47,8 @@ func (this *Warning) String() string {
  *@return the string encoding of the header value.
  */
 func (this *Warning) EncodeBody() string {
-	if this.text != "" {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
-			core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
-	} else {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent
-	}
+	return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
+		core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
 }
 
 /**
-- 
2.43.0


From 43fffe197548a8e060e057413a20e6681d4ccd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 041/108] fix: keep the quotes of an authentication parameter
 that is not a token

---
 sip/header/AuthenticationImpl.go     | 20 ++++++++++++++++++++
 sip/header/AuthenticationInfoImpl.go |  5 +++++
 2 files changed, 25 insertions(+)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..3eb9ec5 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -64,10 +64,15 @@ func (this *Authentication) SetParameter(name, value string) error {
 				return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
 			}
 			nv.SetQuotedValue()
+		} else if needsQuotes(value) {
+			nv.SetQuotedValue()
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
 		nv.SetValue(value)
+		if needsQuotes(value) {
+			nv.SetQuotedValue()
+		}
 	}
 
 	return nil
@@ -447,3 +452,18 @@ func (this *Authentication) GetUsername() string {
 func (this *Authentication) SetUsername(username string) (ParseException error) {
 	return this.SetParameter(ParameterNames_USERNAME, username)
 }
+
+/** Tells whether a parameter value can only be written between quotes: it is
+ * not a token, and not in quotes already.
+ */
+func needsQuotes(value string) bool {
+	if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+		return false
+	}
+	for _, c := range []byte(value) {
+		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') && strings.IndexByte("-.!%*_+`'~", c) == -1 {
+			return true
+		}
+	}
+	return value == ""
+}
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..177e9d7 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -211,10 +211,15 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 					value + " : Unexpected DOUBLE_QUOTE")
 			}
 			nv.SetQuotedValue()
+		} else if needsQuotes(value) {
+			nv.SetQuotedValue()
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
 		nv.SetValue(value)
+		if needsQuotes(value) {
+			nv.SetQuotedValue()
+		}
 	}
 
 	return nil
-- 
2.43.0


From 6b4e664e0375868e24c95942705c46e5872d7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 042/108] fix: find an extension header that has white space
 before its colon

---
 sip/parser/HeaderParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index e10bf88..7645356 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -63,7 +63,7 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	body := strings.TrimSpace(lexer.GetLine())
 
 	// we dont set any fields because the header is ok
-	retval := header.NewExtension(name)
+	retval := header.NewExtension(strings.TrimSpace(name))
 	retval.SetValue(body)
 	return retval, nil
 }
-- 
2.43.0


From ab8e67345d3c9debab8fe6e634ba6ea4167aaf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 043/108] fix: clone every header whole, with its address and
 parameters

---
 sip/address/AddressImpl.go    |  10 +
 sip/header/Clone.go           | 563 ++++++++++++++++++++++++++++++++++
 sip/header/ContactListImpl.go |  13 -
 sip/header/FromImpl.go        |   4 +-
 sip/header/SIPHeaderList.go   |   3 +-
 sip/header/ToImpl.go          |   4 +-
 sip/header/ViaList.go         |  17 -
 7 files changed, 578 insertions(+), 36 deletions(-)
 create mode 100644 sip/header/Clone.go

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index d15f8b2..95871ba 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -32,6 +32,16 @@ func NewAddressImpl() *AddressImpl {
 	return &AddressImpl{}
 }
 
+/** Make a deep copy of this address.
+ */
+func (this *AddressImpl) Clone() interface{} {
+	retval := *this
+	if this.address != nil {
+		retval.address, _ = this.address.Clone().(URI)
+	}
+	return &retval
+}
+
 /** Match on the address only.
  * Dont care about the display name.
  */
diff --git a/sip/header/Clone.go b/sip/header/Clone.go
new file mode 100644
index 0000000..1c73c77
--- /dev/null
+++ b/sip/header/Clone.go
@@ -0,0 +1,563 @@
+package header
+
+import (
+	"container/list"
+
+	"github.com/use-go/gosips/core"
+	"github.com/use-go/gosips/sip/address"
+)
+
+// Deep copies of the headers: what is done to a copy does not show in the
+// original.
+
+func cloneAddress(addr address.Address) address.Address {
+	if a, ok := addr.(*address.AddressImpl); ok && a != nil {
+		return a.Clone().(*address.AddressImpl)
+	}
+	return addr
+}
+
+func cloneURI(uri address.URI) address.URI {
+	if uri == nil {
+		return nil
+	}
+	retval, _ := uri.Clone().(address.URI)
+	return retval
+}
+
+func cloneTokens(tokens *list.List) *list.List {
+	if tokens == nil {
+		return nil
+	}
+	retval := list.New()
+	retval.PushBackList(tokens)
+	return retval
+}
+
+func (this *SIPHeaderList) cloneInto(retval SIPHeaderLister) {
+	for e := this.Front(); e != nil; e = e.Next() {
+		if h, ok := e.Value.(Header); ok {
+			retval.PushBack(h.Clone())
+		} else {
+			retval.PushBack(e.Value)
+		}
+	}
+}
+
+func (this *Parameters) cloneParameters() *core.NameValueList {
+	if this.parameters == nil {
+		return nil
+	}
+	return this.parameters.Clone().(*core.NameValueList)
+}
+
+func (this *Accept) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.mediaRange != nil {
+		c := *this.mediaRange
+		retval.mediaRange = &c
+	}
+	return &retval
+}
+
+func (this *AcceptEncoding) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *AcceptEncodingList) Clone() interface{} {
+	retval := &AcceptEncodingList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *AcceptLanguage) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *AcceptLanguageList) Clone() interface{} {
+	retval := &AcceptLanguageList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *AcceptList) Clone() interface{} {
+	retval := &AcceptList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *AddressParameters) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *AlertInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.uri = cloneURI(this.uri)
+	return &retval
+}
+
+func (this *AlertInfoList) Clone() interface{} {
+	retval := &AlertInfoList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *Allow) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *AllowEvents) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *AllowEventsList) Clone() interface{} {
+	retval := &AllowEventsList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *AllowList) Clone() interface{} {
+	retval := &AllowList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *Authentication) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *AuthenticationInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *Authorization) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *CSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *CallID) Clone() interface{} {
+	retval := *this
+	if this.callIdentifier != nil {
+		c := *this.callIdentifier
+		retval.callIdentifier = &c
+	}
+	return &retval
+}
+
+func (this *CallInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.info = cloneURI(this.info)
+	return &retval
+}
+
+func (this *CallInfoList) Clone() interface{} {
+	retval := &CallInfoList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *Contact) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *ContactList) Clone() interface{} {
+	retval := &ContactList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *ContentDisposition) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *ContentEncoding) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentEncodingList) Clone() interface{} {
+	retval := &ContentEncodingList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *ContentLanguage) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentLanguageList) Clone() interface{} {
+	retval := &ContentLanguageList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *ContentLength) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentType) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.mediaRange != nil {
+		c := *this.mediaRange
+		retval.mediaRange = &c
+	}
+	return &retval
+}
+
+func (this *Date) Clone() interface{} {
+	retval := *this
+	if this.date != nil {
+		c := *this.date
+		retval.date = &c
+	}
+	return &retval
+}
+
+func (this *ErrorInfo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.errorInfo = cloneURI(this.errorInfo)
+	return &retval
+}
+
+func (this *ErrorInfoList) Clone() interface{} {
+	retval := &ErrorInfoList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *Event) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *Expires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Extension) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ExtensionHeaderList) Clone() interface{} {
+	retval := &ExtensionHeaderList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *From) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *InReplyTo) Clone() interface{} {
+	retval := *this
+	if this.callId != nil {
+		c := *this.callId
+		retval.callId = &c
+	}
+	return &retval
+}
+
+func (this *InReplyToList) Clone() interface{} {
+	retval := &InReplyToList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *MaxForwards) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *MimeVersion) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *MinExpires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Organization) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Parameters) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *Priority) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ProxyAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *ProxyAuthenticateList) Clone() interface{} {
+	retval := &ProxyAuthenticateList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *ProxyAuthorization) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *ProxyRequire) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ProxyRequireList) Clone() interface{} {
+	retval := &ProxyRequireList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *RAck) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *RSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Reason) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *ReasonList) Clone() interface{} {
+	retval := &ReasonList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *RecordRoute) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *RecordRouteList) Clone() interface{} {
+	retval := &RecordRouteList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *ReferTo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *ReplyTo) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *Require) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *RequireList) Clone() interface{} {
+	retval := &RequireList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *RetryAfter) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *Route) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *RouteList) Clone() interface{} {
+	retval := &RouteList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *Server) Clone() interface{} {
+	retval := *this
+	retval.productTokens = cloneTokens(this.productTokens)
+	return &retval
+}
+
+func (this *Subject) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *SubscriptionState) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *Supported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *SupportedList) Clone() interface{} {
+	retval := &SupportedList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *TimeStamp) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *To) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	retval.addr = cloneAddress(this.addr)
+	return &retval
+}
+
+func (this *Unsupported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *UnsupportedList) Clone() interface{} {
+	retval := &UnsupportedList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *UserAgent) Clone() interface{} {
+	retval := *this
+	retval.productTokens = cloneTokens(this.productTokens)
+	return &retval
+}
+
+func (this *Via) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	if this.sentProtocol != nil {
+		c := *this.sentProtocol
+		retval.sentProtocol = &c
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	return &retval
+}
+
+func (this *ViaList) Clone() interface{} {
+	retval := &ViaList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *WWWAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.parameters = this.cloneParameters()
+	return &retval
+}
+
+func (this *WWWAuthenticateList) Clone() interface{} {
+	retval := &WWWAuthenticateList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
+
+func (this *Warning) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *WarningList) Clone() interface{} {
+	retval := &WarningList{}
+	retval.headerName = this.headerName
+	this.cloneInto(retval)
+	return retval
+}
diff --git a/sip/header/ContactListImpl.go b/sip/header/ContactListImpl.go
index 759774c..8fe0586 100644
--- a/sip/header/ContactListImpl.go
+++ b/sip/header/ContactListImpl.go
@@ -35,19 +35,6 @@ func (this *ContactList) AddContact(contact ContactHeader) (IllegalArgumentExcep
 	return nil
 }
 
-/**
- * make a clone of this contact list.
- * @return Object cloned list.
- */
-func (this *ContactList) Clone() interface{} {
-	retval := NewContactList()
-	for c := this.Front(); c != nil; c = c.Next() {
-		newc := c.Value.(ContactHeader).Clone().(*Contact)
-		retval.PushBack(newc)
-	}
-	return retval
-}
-
 /**
          * Get an array of contact addresses.
   	 *
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..1ae9001 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -31,8 +31,8 @@ func (this *From) super(name string) {
  */
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
-	this.addr = to.addr
-	this.parameters = to.parameters
+	this.addr = cloneAddress(to.addr)
+	this.parameters = to.cloneParameters()
 }
 
 /**
diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index f7749aa..3143b5b 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -66,9 +66,8 @@ func (this *SIPHeaderList) super(hname string) {
  */
 func (this *SIPHeaderList) Clone() interface{} {
 	retval := &SIPHeaderList{}
-
 	retval.headerName = this.headerName
-
+	this.cloneInto(retval)
 	return retval
 }
 
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..5d041a2 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -31,8 +31,8 @@ func (this *To) super(name string) {
  */
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
-	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.addr = cloneAddress(from.addr)
+	this.parameters = from.cloneParameters()
 }
 
 /**
diff --git a/sip/header/ViaList.go b/sip/header/ViaList.go
index 44ade5e..54773f3 100644
--- a/sip/header/ViaList.go
+++ b/sip/header/ViaList.go
@@ -25,20 +25,3 @@ func NewViaList() *ViaList {
 func (this *ViaList) super(name string) {
 	this.SIPHeaderList.super(name)
 }
-
-/**
-         * make a clone of this header list. This supercedes the parent
-         * function of the same signature - here for speed. Cloning based
-	 * on introspection is slower.
-	  *
-         * @return clone of this Header list.
-*/
-func (this *ViaList) Clone() interface{} {
-	vlist := NewViaList()
-	//ListIterator it = this.listIterator();
-	for e := this.Front(); e != nil; e = e.Next() {
-		v := e.Value.(*Via).Clone().(*Via)
-		vlist.PushBack(v)
-	}
-	return vlist
-}
-- 
2.43.0


From f40c5319dfd481ab47a578e95411ec4bd61328cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 044/108] fix: SetContent replaces the body in whatever form it
 was held

---
 sip/message/SIPMessage.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index f35aa9c..c15b4e5 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1198,9 +1198,13 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	length := -1
 	if s, ok := content.(string); ok {
 		this.messageContent = s
+		this.messageContentBytes = nil
+		this.messageContentObject = nil
 		length = len(s)
 	} else if b, ok := content.([]byte); ok {
+		this.messageContent = ""
 		this.messageContentBytes = b
+		this.messageContentObject = nil
 		length = len(b)
 	} else {
 		panic("Don't support GenericObject")
-- 
2.43.0


From c5eefd6e599b219f865489f3c31b6a3b089a9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 045/108] fix: RemoveContent removes the headers that describe
 the body too

---
 sip/message/SIPMessage.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index c15b4e5..8656b44 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1295,9 +1295,11 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContent = ""
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
-	//try {
+	this.RemoveHeader(core.SIPHeaderNames_CONTENT_TYPE)
+	this.RemoveHeader(core.SIPHeaderNames_CONTENT_ENCODING)
+	this.RemoveHeader(core.SIPHeaderNames_CONTENT_LANGUAGE)
+	this.RemoveHeader(core.SIPHeaderNames_CONTENT_DISPOSITION)
 	this.setContentLength(0)
-	//} catch (InvalidArgumentException ex) {}
 }
 
 /** Get a SIP header or Header list given its name.
-- 
2.43.0


From e83d054ecd18794a94b1fd8e8d2a32a3210aa149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:32 +0000
Subject: [PATCH 046/108] fix: no accessor of a message crashes where a header
 is missing

---
 sip/message/SIPMessage.go  | 36 +++++++++-----
 sip/message/SIPRequest.go  | 42 ++++++++++-------
 sip/message/SIPResponse.go | 96 ++++++++++++++++++++++----------------
 3 files changed, 103 insertions(+), 71 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 8656b44..a4c3254 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -751,19 +751,25 @@ func (this *SIPMessage) GetTransactionId() string {
 		// Old style client so construct the transaction identifier
 		// from various fields of the request.
 		var retval bytes.Buffer
-		from := this.GetFrom().(*header.From)
-		to := this.GetTo().(*header.To)
-		hpFrom := from.GetUserAtHostPort()
-		retval.WriteString(hpFrom + ":")
-		if from.HasTag() {
-			retval.WriteString(from.GetTag() + ":")
+		if from := this.fromHeader; from != nil {
+			hpFrom := from.GetUserAtHostPort()
+			retval.WriteString(hpFrom + ":")
+			if from.HasTag() {
+				retval.WriteString(from.GetTag() + ":")
+			}
+		}
+		if to := this.toHeader; to != nil {
+			hpTo := to.GetUserAtHostPort()
+			retval.WriteString(hpTo + ":")
+		}
+		if this.callIdHeader != nil {
+			cid := this.callIdHeader.GetCallId()
+			retval.WriteString(cid + ":")
+		}
+		if this.cSeqHeader != nil {
+			retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
+			retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		}
-		hpTo := to.GetUserAtHostPort()
-		retval.WriteString(hpTo + ":")
-		cid := this.callIdHeader.GetCallId()
-		retval.WriteString(cid + ":")
-		retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
-		retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		if topVia != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
@@ -912,6 +918,9 @@ func (this *SIPMessage) GetCSeq() header.CSeqHeader {
  * @return the sequence number.
  */
 func (this *SIPMessage) GetCSeqNumber() int {
+	if this.cSeqHeader == nil {
+		return -1
+	}
 	return this.cSeqHeader.GetSequenceNumber()
 }
 
@@ -1035,6 +1044,9 @@ func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.
  *
  */
 func (this *SIPMessage) GetCallIdentifier() string {
+	if this.callIdHeader == nil {
+		return ""
+	}
 	return this.callIdHeader.GetCallId()
 }
 
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 55c3344..6f3b923 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -194,16 +194,16 @@ func (this *SIPRequest) GetRequestURI() address.URI {
 	}
 }
 
-//        /** Sets the RequestURI of Request. The Request-URI is a SIP or
-//         * SIPS URI or a general URI. It indicates the user or service to which
-//         * this request  is being addressed. SIP elements MAY support
-//         * Request-URIs with schemes  other than "sip" and "sips", for
-//         * example the "tel" URI scheme. SIP  elements MAY translate
-//         * non-SIP URIs using any mechanism at their disposal,  resulting
-//         * in SIP URI, SIPS URI, or some other scheme.
-//         *
-//         * @param requestURI - the new Request URI of this request message
-//         */
+// /** Sets the RequestURI of Request. The Request-URI is a SIP or
+//   - SIPS URI or a general URI. It indicates the user or service to which
+//   - this request  is being addressed. SIP elements MAY support
+//   - Request-URIs with schemes  other than "sip" and "sips", for
+//   - example the "tel" URI scheme. SIP  elements MAY translate
+//   - non-SIP URIs using any mechanism at their disposal,  resulting
+//   - in SIP URI, SIPS URI, or some other scheme.
+//     *
+//   - @param requestURI - the new Request URI of this request message
+//     */
 func (this *SIPRequest) SetRequestURI(uri address.URI) {
 	if this.requestLine == nil {
 		this.requestLine = header.NewRequestLine()
@@ -333,15 +333,17 @@ func (this *SIPRequest) GetMessageAsEncodedStrings() *list.List {
 // }
 
 // /** Get a dialog identifier.
-// * Generates a string that can be used as a dialog identifier.
-//        *
+//   - Generates a string that can be used as a dialog identifier.
+//     *
+//
 // *@param isServer is Set to true if this is the UAS
 // *	and Set to false if this is the UAC
 // */
 func (this *SIPRequest) GetDialogId(isServer bool) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	cid, from, to := this.callIdHeader, this.fromHeader, this.toHeader
+	if cid == nil || from == nil || to == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	retval.WriteString(cid.GetCallId())
 	if !isServer {
@@ -378,9 +380,10 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 // /** Get a dialog id given the remote tag.
 // */
 func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	cid, from, to := this.callIdHeader, this.fromHeader, this.toHeader
+	if cid == nil || from == nil || to == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	retval.WriteString(cid.GetCallId())
 	if !isServer {
@@ -889,6 +892,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 *@return the SIP version from the request line.
  */
 func (this *SIPRequest) GetSIPVersion() string {
+	if this.requestLine == nil {
+		return ""
+	}
 	return this.requestLine.GetSipVersion()
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..b6b8fb7 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -195,10 +195,11 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 
 }
 
-//    /** Set the status code.
-//     *@param statusCode is the status code to Set.
-//     *@throws IlegalArgumentException if invalid status code.
-//     */
+// /** Set the status code.
+//
+//	*@param statusCode is the status code to Set.
+//	*@throws IlegalArgumentException if invalid status code.
+//	*/
 func (this *SIPResponse) SetStatusCode(statusCode int) { //throws ParseException {
 	// if (statusCode < 100 || statusCode > 800)
 	//     throw new ParseException("bad status code",0);
@@ -208,25 +209,30 @@ func (this *SIPResponse) SetStatusCode(statusCode int) { //throws ParseException
 	this.statusLine.SetStatusCode(statusCode)
 }
 
-//    /**
-//     * Get the status line of the response.
+// /**
+//   - Get the status line of the response.
 //     *@return StatusLine
 //     */
 func (this *SIPResponse) GetStatusLine() *header.StatusLine {
 	return this.statusLine
 }
 
-//    /** Get the staus code (conveniance function).
-//     *@return the status code of the status line.
-//     */
+// /** Get the staus code (conveniance function).
+//
+//	*@return the status code of the status line.
+//	*/
 func (this *SIPResponse) GetStatusCode() int {
+	if this.statusLine == nil {
+		return 0
+	}
 	return this.statusLine.GetStatusCode()
 }
 
-//    /** Set the reason phrase.
-//     *@param reasonPhrase the reason phrase.
-//     *@throws IllegalArgumentException if nil string
-//     */
+// /** Set the reason phrase.
+//
+//	*@param reasonPhrase the reason phrase.
+//	*@throws IllegalArgumentException if nil string
+//	*/
 func (this *SIPResponse) SetReasonPhrase(reasonPhrase string) {
 	//if this.reasonPhrase == nil)
 	//    throw new IllegalArgumentException("Bad reason phrase");
@@ -236,9 +242,10 @@ func (this *SIPResponse) SetReasonPhrase(reasonPhrase string) {
 	this.statusLine.SetReasonPhrase(reasonPhrase)
 }
 
-//    /** Get the reason phrase.
-//     *@return the reason phrase.
-//     */
+// /** Get the reason phrase.
+//
+//	*@return the reason phrase.
+//	*/
 func (this *SIPResponse) GetReasonPhrase() string {
 	if this.statusLine == nil || this.statusLine.GetReasonPhrase() == "" {
 		return ""
@@ -247,23 +254,25 @@ func (this *SIPResponse) GetReasonPhrase() string {
 	}
 }
 
-//    /** Return true if the response is a final response.
-//     *@param rc is the return code.
-//     *@return true if the parameter is between the range 200 and 700.
-//     */
+// /** Return true if the response is a final response.
+//
+//	*@param rc is the return code.
+//	*@return true if the parameter is between the range 200 and 700.
+//	*/
 func (this *SIPResponse) IsFinalResponseFromInt(rc int) bool {
 	return rc >= 200 && rc < 700
 }
 
-//    /** Is this a final response?
-//     *@return true if this is a final response.
-//     */
+// /** Is this a final response?
+//
+//	*@return true if this is a final response.
+//	*/
 func (this *SIPResponse) IsFinalResponse() bool {
-	return this.IsFinalResponseFromInt(this.statusLine.GetStatusCode())
+	return this.IsFinalResponseFromInt(this.GetStatusCode())
 }
 
-//    /**
-//     * Set the status line field.
+// /**
+//   - Set the status line field.
 //     *@param sl Status line to Set.
 //     */
 func (this *SIPResponse) SetStatusLine(sl *header.StatusLine) {
@@ -291,9 +300,9 @@ func (this *SIPResponse) SetStatusLine(sl *header.StatusLine) {
 //        return stringRepresentation;
 //    }
 
-//    /**
-//     * Check the response structure. Must have from, to CSEQ and VIA
-//     * headers.
+// /**
+//   - Check the response structure. Must have from, to CSEQ and VIA
+//   - headers.
 //     */
 func (this *SIPResponse) CheckHeaders() (ParseException error) {
 	if this.GetCSeq() == nil {
@@ -470,16 +479,17 @@ func (this *SIPResponse) EncodeAsBytes() []byte {
   }
 */
 
-//    /** Get a dialog identifier.
-//     * Generates a string that can be used as a dialog identifier.
+// /** Get a dialog identifier.
+//   - Generates a string that can be used as a dialog identifier.
 //     *
-//     * @param isServer is Set to true if this is the UAS
-//     * and Set to false if this is the UAC
+//   - @param isServer is Set to true if this is the UAS
+//   - and Set to false if this is the UAC
 //     */
 func (this *SIPResponse) GetDialogId(isServer bool) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	cid, from, to := this.callIdHeader, this.fromHeader, this.toHeader
+	if cid == nil || from == nil || to == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	retval.WriteString(cid.GetCallId())
 	if !isServer {
@@ -513,9 +523,10 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 }
 
 func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	cid, from, to := this.callIdHeader, this.fromHeader, this.toHeader
+	if cid == nil || from == nil || to == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	retval.WriteString(cid.GetCallId())
 	if !isServer {
@@ -607,8 +618,8 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 	return newRequest
 }
 
-//    /**
-//     * Get the encoded first line.
+// /**
+//   - Get the encoded first line.
 //     *
 //     *@return the status line encoded.
 //     *
@@ -626,5 +637,8 @@ func (this *SIPResponse) SetSIPVersion(sipVersion string) {
 }
 
 func (this *SIPResponse) GetSIPVersion() string {
+	if this.statusLine == nil {
+		return ""
+	}
 	return this.statusLine.GetSipVersion()
 }
-- 
2.43.0


From 804b240b6b27a14e7911cf4e6b263ae47cca1350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 047/108] fix: tell transactions of RFC 2543 clients apart by
 the whole identifier

---
 sip/message/SIPMessage.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index a4c3254..c061a09 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"container/list"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/use-go/gosips/core"
@@ -767,22 +768,18 @@ func (this *SIPMessage) GetTransactionId() string {
 			retval.WriteString(cid + ":")
 		}
 		if this.cSeqHeader != nil {
-			retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
+			retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
 			retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		}
 		if topVia != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":")
-				retval.WriteRune(5060)
+				retval.WriteString("5060")
 			}
 		}
 		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-		if len(hc) < 32 {
-			return hc
-		} else {
-			return hc[len(hc)-32 : len(hc)]
-		}
+		return hc
 	}
 	// Convert to lower case -- bug fix as a result of a bug report
 	// from Chris Mills of Nortel Networks.
-- 
2.43.0


From 08154f1e077f82c7185c64ab8c6dd9816e6f9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:39 +0000
Subject: [PATCH 048/108] fix: only a branch that begins with the magic cookie
 identifies a transaction

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index c061a09..466dd94 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -742,7 +742,7 @@ func (this *SIPMessage) GetTransactionId() string {
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
 	if topVia != nil && topVia.GetBranch() != "" &&
-		strings.Contains(strings.ToUpper(topVia.GetBranch()),
+		strings.HasPrefix(strings.ToUpper(topVia.GetBranch()),
 			strings.ToUpper(header.SIPConstants_BRANCH_MAGIC_COOKIE)) {
 		// Bis 09 compatible branch assignment algorithm.
 		// implies that the branch id can be used as a transaction
-- 
2.43.0


From 49494196c4692adf077b5ccd7529d565b36d7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 049/108] fix: GetUserAtHostPort of an address gives user, host
 and port

---
 sip/address/AddressImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 95871ba..30a689b 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -102,7 +102,10 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
+	}
+	if this.address == nil {
+		return ""
 	}
 	return this.address.String()
 }
-- 
2.43.0


From 64a3137e947dbcc4c1a3f6deaf826da84010bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 050/108] fix: a response as a string does not end with an
 extra line

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index b6b8fb7..dc56da9 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -332,7 +332,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
-- 
2.43.0


From 7dd55b7e8274db3368f4d619e3ad268f5fb284c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 051/108] fix: the encoded Content-Length is the length of the
 body

---
 sip/message/SIPMessage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 466dd94..61a2941 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -360,7 +360,8 @@ func (this *SIPMessage) String() string {
 	//}
 
 	if this.contentLengthHeader != nil {
-		encoding.WriteString(this.contentLengthHeader.String())
+		// The length of the content overrides any other value.
+		encoding.WriteString(header.NewContentLengthFromInt(len(this.GetContent())).String())
 	}
 	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
-- 
2.43.0


From 45e6044a44421927c00425826dd15c7de2e871ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 052/108] fix: GetHeaderNames returns the names, not the list
 of headers itself

---
 sip/message/SIPMessage.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 61a2941..06fbb36 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1501,15 +1501,11 @@ func (this *SIPMessage) GetUnrecognizedHeaders() *list.List {
  * in the same order as are present in the message.
  */
 func (this *SIPMessage) GetHeaderNames() *list.List {
-	return this.headers
-	// ListIterator li = this.headers.listIterator();
-	// LinkedList retval  = new LinkedList();
-	// while (li.hasNext()) {
-	//     SIPHeader sipHeader = (SIPHeader) li.next();
-	//     String name = sipHeader.GetName();
-	//     retval.add(name);
-	// }
-	// return retval.listIterator();
+	retval := list.New()
+	for e := this.headers.Front(); e != nil; e = e.Next() {
+		retval.PushBack(e.Value.(header.Header).GetName())
+	}
+	return retval
 }
 
 /** Compare for equality.
-- 
2.43.0


From 8cbd02c42bc646019ba2a56b72d9743aa265bcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 053/108] fix: reading the body or an extension header does not
 write to it

---
 sip/header/ExtensionImpl.go | 3 +--
 sip/message/SIPMessage.go   | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/sip/header/ExtensionImpl.go b/sip/header/ExtensionImpl.go
index b4284a1..13ee182 100644
--- a/sip/header/ExtensionImpl.go
+++ b/sip/header/ExtensionImpl.go
@@ -59,8 +59,7 @@ func (this *Extension) GetHeaderValue() string {
 			buffer = buffer[1:]
 		}
 		buffer = buffer[1:]
-		this.value = strings.TrimSpace(string(buffer))
-		return this.value
+		return strings.TrimSpace(string(buffer))
 	}
 }
 
diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 06fbb36..3e1c5fe 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1117,7 +1117,7 @@ func (this *SIPMessage) GetMessageContent() string {
 		// }
 		// } else this.messageContent =
 		// new String(messageContentBytes,header.SIPConstants_DEFAULT_ENCODING);
-		this.messageContent = string(this.messageContentBytes)
+		return string(this.messageContentBytes)
 	}
 	return this.messageContent
 }
-- 
2.43.0


From f272ee22398e3e46ed3d496be818d85fc67dff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 054/108] fix: an empty body is no content

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 3e1c5fe..d79cc9c 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -789,7 +789,7 @@ func (this *SIPMessage) GetTransactionId() string {
 /** Return true if this message has a body.
  */
 func (this *SIPMessage) HasContent() bool {
-	return this.messageContent != "" || this.messageContentBytes != nil
+	return this.messageContent != "" || len(this.messageContentBytes) != 0
 }
 
 /**Return an iterator for the list of headers in this message.
-- 
2.43.0


From 35cc30acc6e679a4b6bc7edfdf99b15a07fa2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 055/108] fix: read maddr and ttl of a Via, and keep its host
 when the port is removed

---
 sip/header/ViaImpl.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..8c7550c 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,7 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	return core.NewHost(this.GetMAddr())
 }
 
 /** port of the Via Header.
@@ -135,7 +135,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
@@ -354,7 +356,10 @@ func (this *Via) SetProtocol(protocol string) (ParseException error) {
  * @return the integer value of the <code>ttl</code> parameter
  */
 func (this *Via) GetTTL() int {
-	ttl, _ := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	ttl, err := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	if err != nil {
+		return -1
+	}
 	return ttl
 }
 
-- 
2.43.0


From e5b06baa6353058982af53cc0c33b8b4c50af09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 056/108] fix: HashCode of a Route gives a hash code

---
 sip/header/RouteImpl.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 343413d..71e31a4 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -4,6 +4,8 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"hash/fnv"
+	"strings"
 )
 
 /**
@@ -53,11 +55,10 @@ func NewRouteFromAddress(addr address.Address) *Route {
  *
  *@return the hashcode of the encoded address.
  */
-func (this *Route) HashCode() int { //TODO by LY
-	//hp, _ := this.addr.GetHostPort()
-	//strcon.Atoi(hp.String() //.toLowerCase().hashCode();
-	panic("Route.HashCode() Not implement yet")
-	return 0
+func (this *Route) HashCode() int {
+	h := fnv.New32a()
+	h.Write([]byte(strings.ToLower(this.EncodeBody())))
+	return int(h.Sum32())
 }
 
 func (this *Route) String() string {
-- 
2.43.0


From 127803360f46229d1a8044efbf63b1694c80afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 057/108] fix: the accessors of a Challenge do not crash where
 a parameter is missing

---
 sip/header/Challenge.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 806c057..b8d67f1 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -50,70 +50,70 @@ func (this *Challenge) GetAuthParams() *core.NameValueList {
  * @return String
  */
 func (this *Challenge) GetDomain() string {
-	return this.authParams.GetValue(ParameterNames_DOMAIN).(string)
+	return this.authParams.GetParameter(ParameterNames_DOMAIN)
 }
 
 /** Get the URI field
  * @return String
  */
 func (this *Challenge) GetURI() string {
-	return this.authParams.GetValue(ParameterNames_URI).(string)
+	return this.authParams.GetParameter(ParameterNames_URI)
 }
 
 /** Get the Opaque field
  * @return String
  */
 func (this *Challenge) GetOpaque() string {
-	return this.authParams.GetValue(ParameterNames_OPAQUE).(string)
+	return this.authParams.GetParameter(ParameterNames_OPAQUE)
 }
 
 /** Get QOP value
  * @return String
  */
 func (this *Challenge) GetQOP() string {
-	return this.authParams.GetValue(ParameterNames_QOP).(string)
+	return this.authParams.GetParameter(ParameterNames_QOP)
 }
 
 /** Get the Algorithm value.
  * @return String
  */
 func (this *Challenge) GetAlgorithm() string {
-	return this.authParams.GetValue(ParameterNames_ALGORITHM).(string)
+	return this.authParams.GetParameter(ParameterNames_ALGORITHM)
 }
 
 /** Get the State value.
  * @return String
  */
 func (this *Challenge) GetStale() string {
-	return this.authParams.GetValue(ParameterNames_STALE).(string)
+	return this.authParams.GetParameter(ParameterNames_STALE)
 }
 
 /** Get the Signature value.
  * @return String
  */
 func (this *Challenge) GetSignature() string {
-	return this.authParams.GetValue(ParameterNames_SIGNATURE).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNATURE)
 }
 
 /** Get the signedBy value.
  * @return String
  */
 func (this *Challenge) GetSignedBy() string {
-	return this.authParams.GetValue(ParameterNames_SIGNED_BY).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNED_BY)
 }
 
 /** Get the Response value.
  * @return String
  */
 func (this *Challenge) GetResponse() string {
-	return this.authParams.GetValue(ParameterNames_RESPONSE).(string)
+	return this.authParams.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Get the realm value.
  * @return String.
  */
 func (this *Challenge) GetRealm() string {
-	return this.authParams.GetValue(ParameterNames_REALM).(string)
+	return this.authParams.GetParameter(ParameterNames_REALM)
 }
 
 /** Get the specified parameter
@@ -121,7 +121,7 @@ func (this *Challenge) GetRealm() string {
  * @return String to Set
  */
 func (this *Challenge) GetParameter(name string) string {
-	return this.authParams.GetValue(name).(string)
+	return this.authParams.GetParameter(name)
 }
 
 /** boolean function
-- 
2.43.0


From 3cd18a681a274ce7e9062d4daa25d47100c6192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 058/108] fix: read the nonce count as the hexadecimal number
 that is written

---
 sip/header/AuthenticationImpl.go     | 7 +++++--
 sip/header/AuthenticationInfoImpl.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 3eb9ec5..e5d9ebd 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -378,7 +378,10 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseUint(s, 16, 32)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -387,7 +390,7 @@ func (this *Authentication) GetNonceCount() int {
  */
 
 func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || nonceCount > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 177e9d7..f035176 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -87,7 +87,10 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseUint(s, 16, 32)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -145,7 +148,7 @@ func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException e
  *
  */
 func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || nonceCount > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
-- 
2.43.0


From 29d2e136258ce7ad4b7ae36734f5734811b28112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 059/108] fix: SetResponse of Authentication-Info sets rspauth

---
 sip/header/AuthenticationInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index f035176..2d1b021 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -183,7 +183,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
+	this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 	return nil
 }
 
-- 
2.43.0


From 5a1cccd9617dc23db32625bdf46e5ae12b5a0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:37 +0000
Subject: [PATCH 060/108] fix: GetURI of an authentication header without uri
 returns nil

---
 sip/header/AuthenticationImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index e5d9ebd..1619d07 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -211,7 +211,10 @@ func (this *Authentication) SetURI(uri address.URI) error {
  */
 func (this *Authentication) GetURI() address.URI {
 	url := this.GetParameter(ParameterNames_URI)
-	return address.NewURIImpl(url)
+	if uri := address.NewURIImpl(url); uri != nil {
+		return uri
+	}
+	return nil
 }
 
 /**
-- 
2.43.0


From 6fd38a269d98305c3a6633e297cf6ad021d8367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 061/108] fix: SetExpires of a Contact replaces its expires
 parameter

---
 sip/header/ContactImpl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..326c061 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -113,8 +113,10 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
-	return nil
+	if expiryDeltaSeconds < 0 {
+		return errors.New("InvalidArgumentException: expires is less than zero")
+	}
+	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
 /** set the Contact List
-- 
2.43.0


From 3f70f8ae83cd446a415c4f64540fe3add813ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 062/108] fix: Max-Forwards is not counted down below zero

---
 sip/header/MaxForwardsImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index ba69b48..e1e8600 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -72,8 +72,9 @@ func (this *MaxForwards) HasReachedZero() bool {
 /** decrement MaxForwards field one by one.
  */
 func (this *MaxForwards) DecrementMaxForwards() error {
-	if this.maxForwards >= 0 {
-		this.maxForwards--
+	if this.maxForwards <= 0 {
+		return errors.New("TooManyHopsException: has already reached 0")
 	}
+	this.maxForwards--
 	return nil
 }
-- 
2.43.0


From b3c89c2f25616b4edb185fc0f8f73daba34ac33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 063/108] fix: SetMethod of a SIP URI replaces its method
 parameter

---
 sip/address/SipURIImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index faf9d8c..6eb9819 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -532,7 +532,7 @@ func (this *SipURIImpl) SetUserParam(usertype string) {
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
-- 
2.43.0


From b16a328ecdb3260bf9e7dc3b464819f9a86eb131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 064/108] fix: write a host made from an IPv6 address in
 brackets

---
 core/Host.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..2c97c14 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -39,8 +39,9 @@ func NewHost(hname string) *Host {
 	host.hostname = hname
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
+	} else {
+		host.addressType = IPV4ADDRESS
 	}
-	host.addressType = IPV4ADDRESS
 
 	return host
 }
-- 
2.43.0


From 61883a85178e2e29ac4731efbfeb703e578adad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:15 +0000
Subject: [PATCH 065/108] fix: a response does not share its headers with the
 request

---
 sip/header/RequestLine.go |  8 ++++++++
 sip/message/SIPMessage.go |  7 +++++++
 sip/message/SIPRequest.go | 16 ++++++++--------
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/sip/header/RequestLine.go b/sip/header/RequestLine.go
index d05c040..f6d1991 100644
--- a/sip/header/RequestLine.go
+++ b/sip/header/RequestLine.go
@@ -42,6 +42,14 @@ func NewRequestLineFromString(requestURI address.URI, method string) *RequestLin
 	return this
 }
 
+/** Make a deep copy of this request line.
+ */
+func (this *RequestLine) Clone() interface{} {
+	retval := *this
+	retval.uri = cloneURI(this.uri)
+	return &retval
+}
+
 /** Set the SIP version.
 *@param sipVersion -- the SIP version to Set.
  */
diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index d79cc9c..c2c08ef 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -400,6 +400,13 @@ func (this *SIPMessage) EncodeAsBytes() []byte {
 	return []byte(this.String())
 }
 
+// attachCopy attaches a deep copy of a header.
+func (this *SIPMessage) attachCopy(h header.Header) {
+	if c, ok := h.Clone().(header.Header); ok {
+		this.AttachHeader2(c, false)
+	}
+}
+
 /**
  * clone this message (create a new deep physical copy).
  * All headers in the message are cloned.
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 6f3b923..687e117 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -515,25 +515,25 @@ func (this *SIPRequest) CreateResponse2(statusCode int, reasonPhrase string) *SI
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		if _, ok := nextHeader.(*header.From); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 		}
 		if _, ok := nextHeader.(*header.To); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 		}
 		if _, ok := nextHeader.(*header.ViaList); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 		}
 		if _, ok := nextHeader.(*header.CallID); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 		}
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 		}
 		if _, ok := nextHeader.(*header.CSeq); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 		}
 		if _, ok := nextHeader.(*header.MaxForwards); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 		}
 		// nextHeader instanceof ExtensionHeader 	||
 		if _, ok := nextHeader.(*header.TimeStamp); ok {
@@ -550,7 +550,7 @@ func (this *SIPRequest) CreateResponse2(statusCode int, reasonPhrase string) *SI
 			 }
 			 **/
 			//try {
-			newResponse.AttachHeader2(nextHeader, false)
+			newResponse.attachCopy(nextHeader)
 			// } catch(SIPDuplicateHeaderException e){
 			// e.printStackTrace();
 			// }
-- 
2.43.0


From b04b6056813eedc301dc8b91d1297aab5aa0d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 066/108] fix: making a CANCEL does not change the request, and
 takes its top Via only

---
 sip/message/SIPRequest.go | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 687e117..df44cf3 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -570,12 +570,8 @@ func (this *SIPRequest) CreateResponse2(statusCode int, reasonPhrase string) *SI
 // */
 
 func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
-	//SIPRequest	newRequest;
-	//Iterator	headerIterator;
-	//SIPHeader	nextHeader;
-
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	newRequest.SetRequestLine(this.cloneRequestLine())
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
@@ -588,32 +584,25 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 			continue
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
-		} else if _, ok := nextHeader.(*header.ViaList); ok {
-			/**
-			   SIPHeader sipHeader =
-				(SIPHeader)
-			       ((ViaList) nextHeader).GetFirst().clone() ;
-			   nextHeader = new ViaList();
-			   ((ViaList)nextHeader).add(sipHeader);
-			 **/
-			//nextHeader = (ViaList) ((ViaList) nextHeader).clone();
+		} else if vl, ok := nextHeader.(*header.ViaList); ok {
+			// A CANCEL has the top Via of the request it cancels only.
+			nextHeader = vl.Front().Value.(header.Header)
 		} else if cseq, ok := nextHeader.(*header.CSeq); ok { // CSeq method for a cancel request must be cancel.
-			//CSeq cseq = (CSeq) nextHeader.clone();
-			//try{
-			cseq.SetMethod(CANCEL)
-			//}
-			//catch(ParseException e){}
-			nextHeader = cseq
+			nextHeader = header.NewCSeq(cseq.GetSequenceNumber(), CANCEL)
 		}
-		//try {
-		newRequest.AttachHeader2(nextHeader, false)
-		// } catch(SIPDuplicateHeaderException e){
-		// 	e.printStackTrace();
-		// }
+		newRequest.attachCopy(nextHeader)
 	}
 	return newRequest
 }
 
+// cloneRequestLine copies the request line.
+func (this *SIPRequest) cloneRequestLine() *header.RequestLine {
+	if this.requestLine == nil {
+		return nil
+	}
+	return this.requestLine.Clone().(*header.RequestLine)
+}
+
 // /** Creates a default ACK SIPRequest message for this original request.
 // * Note that the defaultACK SIPRequest does not include the
 // * content of the original SIPRequest. If responSetoHeader
-- 
2.43.0


From 6621e4d9994b0a644d930412f221d4730185544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 067/108] fix: making an ACK does not change the request

---
 sip/message/SIPRequest.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index df44cf3..99ebe1d 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -620,7 +620,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	newRequest.SetRequestLine(this.cloneRequestLine())
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
@@ -633,12 +633,11 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// Remove proxy auth header.
 			// Assigned by the Dialog if necessary.
 			continue
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
 			// Adding content is responsibility of user.
 			//nextHeader = nextHeader.(*header.ContentLength)
 			//try{
-			cl.SetContentLength(0)
-			nextHeader = cl
+			nextHeader = header.NewContentLengthFromInt(0)
 			//}
 			//catch(InvalidArgumentException e){}
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
@@ -654,8 +653,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// MUST be equal to "ACK".
 			//nextHeader = nextHeader.(*header.CSeq)
 			//try{
-			cseq.SetMethod(ACK)
-			nextHeader = cseq
+			nextHeader = header.NewCSeq(cseq.GetSequenceNumber(), ACK)
 			//catch(ParseException e){}
 			// = cseq;
 		} else if _, ok := nextHeader.(*header.To); ok {
@@ -677,7 +675,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 		}
 
 		//try {
-		newRequest.AttachHeader2(nextHeader, false)
+		newRequest.attachCopy(nextHeader)
 		// } catch(SIPDuplicateHeaderException e){
 		// 	e.printStackTrace();
 		// }
-- 
2.43.0


From 3727ab3d579bac359990b2fea65d6110caaa0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:25 +0000
Subject: [PATCH 068/108] fix: a request made from another has the request line
 asked for and leaves the other alone

---
 sip/message/SIPRequest.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 99ebe1d..58f3ecf 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -725,20 +725,19 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
 		if newCseq, ok := nextHeader.(*header.CSeq); ok {
 			// CSeq newCseq = (CSeq) nextHeader.clone();
-			nextHeader = newCseq
 			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
+			nextHeader = header.NewCSeq(newCseq.GetSequenceNumber(), requestLine.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-			via := vl.Front().Value.(*header.Via)
+			via := vl.Front().Value.(*header.Via).Clone().(*header.Via)
 			via.RemoveParameter("branch")
 			nextHeader = via
 			// Cancel and ACK preserve the branch ID.
@@ -749,9 +748,9 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				from.RemoveTag()
 				nextHeader = from
 			} else {
-				//to2 := to.Clone().(*To)
-				to.RemoveTag()
-				nextHeader = to
+				to2 := to.Clone().(*header.To)
+				to2.RemoveTag()
+				nextHeader = to2
 			}
 		} else if from, ok := nextHeader.(*header.From); ok {
 			if switchHeaders {
@@ -760,18 +759,17 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				to.RemoveTag()
 				nextHeader = to
 			} else {
-				//from2 := from.Clone().(*From)
-				from.RemoveTag()
-				nextHeader = from
+				from2 := from.Clone().(*header.From)
+				from2.RemoveTag()
+				nextHeader = from2
 			}
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
 			//ContentLength cl  =
 			//	(ContentLength) nextHeader.clone();
 			//try{
-			cl.SetContentLength(0)
+			nextHeader = header.NewContentLengthFromInt(0)
 			//}
 			//catch(InvalidArgumentException e){}
-			nextHeader = cl
 		} else {
 			_, ok1 := nextHeader.(*header.CallID)
 			_, ok2 := nextHeader.(*header.MaxForwards)
@@ -785,7 +783,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 			}
 		}
 		//try {
-		newRequest.AttachHeader2(nextHeader, false)
+		newRequest.attachCopy(nextHeader)
 		//} catch(SIPDuplicateHeaderException e){
 		//	e.printStackTrace();
 		//}
@@ -803,7 +801,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.cloneRequestLine()
 	requestLine.SetMethod("BYE")
 	return this.CreateSIPRequest(requestLine, switchHeaders)
 }
@@ -815,7 +813,7 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.cloneRequestLine()
 	requestLine.SetMethod(ACK)
 	return this.CreateSIPRequest(requestLine, false)
 }
-- 
2.43.0


From d8e575b0c32767be81c6d8e831e07c63259bcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 069/108] fix: a request made from a response has copies of its
 headers and no body length

---
 sip/message/SIPResponse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index dc56da9..daf89cb 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -598,6 +598,9 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		if _, ok := nextHeader.(*header.CSeq); ok {
 			continue
 		}
+		if _, ok := nextHeader.(*header.ContentLength); ok {
+			continue
+		}
 		if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
 		}
@@ -610,7 +613,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		// else if (nextHeader instanceof From)
 		//     nextHeader = (SIPHeader)nextHeader.clone();
 		// try {
-		newRequest.AttachHeader2(nextHeader, false)
+		newRequest.attachCopy(nextHeader)
 		// } catch(SIPDuplicateHeaderException e){
 		//     e.printStackTrace();
 		// }
-- 
2.43.0


From 315435ca461be1ff0bfb4ab7974acab7ef6c9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 070/108] fix: know the headers of requests and responses in
 lists too

---
 sip/message/SIPMessage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index c2c08ef..93496fd 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -72,6 +72,9 @@ func (this *SIPMessage) super() {
  *@param sipHeader is the header to test.
  */
 func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
+	if l, isList := sipHeader.(header.SIPHeaderLister); isList && l.Len() > 0 {
+		sipHeader, _ = l.Front().Value.(header.Header)
+	}
 	var ok bool
 	if _, ok = sipHeader.(*header.AlertInfo); ok {
 		return true
@@ -115,6 +118,9 @@ func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
  *@param sipHeader is the header to test.
  */
 func (this *SIPMessage) IsResponseHeader(sipHeader header.Header) bool {
+	if l, isList := sipHeader.(header.SIPHeaderLister); isList && l.Len() > 0 {
+		sipHeader, _ = l.Front().Value.(header.Header)
+	}
 	var ok bool
 	if _, ok = sipHeader.(*header.ErrorInfo); ok {
 		return true
-- 
2.43.0


From 38f0aeab06846beef52b4657945b6d30fe1b195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 071/108] fix: LogMessageToFile writes to the file, whoever
 else logs

---
 core/LogWriter.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/LogWriter.go b/core/LogWriter.go
index 06ef7ad..5d18056 100644
--- a/core/LogWriter.go
+++ b/core/LogWriter.go
@@ -56,16 +56,17 @@ func (logWriter *LogWriter) SetLogFileName(name string) {
 }
 
 func (logWriter *LogWriter) LogMessageToFile(message, logFileName string) {
-	var err error
-	logWriter.printWriter, err = os.OpenFile(logFileName, os.O_APPEND, 0)
+	printWriter, err := os.OpenFile(logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in LogMessageToFile")
 		return
 	}
-	defer logWriter.printWriter.Close()
+	defer printWriter.Close()
 
-	logWriter.printWriter.WriteString(" ---------------------------------------------- ")
-	logWriter.printWriter.WriteString(message)
+	// One write, so that messages of others do not come in between.
+	if _, err = printWriter.WriteString(" ---------------------------------------------- " + message); err != nil {
+		println("Can't write file in LogMessageToFile")
+	}
 }
 
 func (logWriter *LogWriter) checkLogFile() {
-- 
2.43.0


From f7f01bc3e09cb4bb81a5c6d780e6b60918f8c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:10 +0000
Subject: [PATCH 072/108] fix: open the log file for writing

---
 core/LogWriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/LogWriter.go b/core/LogWriter.go
index 5d18056..a7d0f40 100644
--- a/core/LogWriter.go
+++ b/core/LogWriter.go
@@ -78,7 +78,7 @@ func (logWriter *LogWriter) checkLogFile() {
 	}
 
 	var err error
-	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND, 0)
+	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in checkLogFile")
 		return
-- 
2.43.0


From a8d3a78a174cb3d4a7ab36b9700c84435ace69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 073/108] fix: ParseUrl and ParseSIPUrl return an error for
 what they cannot return

---
 sip/parser/StringMsgParser.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6998b3c..a24a59b 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -413,8 +413,15 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
-	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	sipuri, ok := uri.(*address.SipURIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: " + url + " Not a SIP URL ")
+	}
+	return sipuri, nil
 }
 
 /**
@@ -425,7 +432,13 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  */
 func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
 	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+	if err != nil {
+		return nil, err
+	}
+	if uri, ok := guri.(*address.URIImpl); ok {
+		return uri, nil
+	}
+	return address.NewURIImpl(guri.String()), nil
 }
 
 /**
-- 
2.43.0


From 61b01cb3e916d7104dda73b35b3816d2ebe5ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 074/108] fix: ParseSIPHeader returns the header it reads

---
 sip/parser/StringMsgParser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index a24a59b..f2efbfc 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -447,7 +447,7 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
 	h += "\n\n"
@@ -456,7 +456,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
+	for i < len(h) && (h[i] == '\n' || h[i] == '\t' || h[i] == ' ') {
 		i++
 	}
 	for ; i < len(h); i++ {
@@ -464,7 +464,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 			nmessage += " "
 			i++
 		} else {
-			nmessage += string(h[i])
+			nmessage += h[i : i+1]
 		}
 	}
 
@@ -475,8 +475,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 		return nil, err
 	}
 
-	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return hp.Parse()
 }
 
 /**
-- 
2.43.0


From 2ac24749f928c46be69f63fd54f5136de1d6b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 075/108] fix: CreateRequest from a response without a Via

---
 sip/message/SIPResponse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index daf89cb..18e38ed 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -577,10 +577,11 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
 	newRequest.SetRequestURI(requestURI)
-	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia().GetBranch() != "" {
+	topVia := this.GetTopmostVia()
+	if (method == "ACK" || method == "CANCEL") && topVia != nil && topVia.GetBranch() != "" {
 		// Use the branch id from the OK.
 		//try {
-		via.SetBranch(this.GetTopmostVia().GetBranch())
+		via.SetBranch(topVia.GetBranch())
 		//} catch (ParseException ex) {}
 	}
 	newRequest.SetHeader(via)
-- 
2.43.0


From 7b0e5ccc56920e4565687d67eceebf1bc52b8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 076/108] fix: SipURIImpl.GetHeaderNames returns the names, as
 the SipURI interface says

---
 sip/address/SipURIImpl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 6eb9819..6921822 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -657,8 +657,8 @@ func (this *SipURIImpl) GetHeader(name string) string {
  *
  * @return an Iterator over all the header names
  */
-func (this *SipURIImpl) GetHeaderNames() *core.NameValueList {
-	return this.qheaders
+func (this *SipURIImpl) GetHeaderNames() *list.List {
+	return this.qheaders.GetNames()
 }
 
 /** Returns the value of the <code>lr</code> parameter, or null if this
-- 
2.43.0


From 2121184b073d353b643a37a00e74e12fe7cdc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 077/108] fix: SIPResponse.CreateRequest takes any request URI
 (SipURIImpl is no SipURI)

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 18e38ed..3928d83 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -572,7 +572,7 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 //     * request.
 //     */
 
-func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Via, cseq *header.CSeq) *SIPRequest {
+func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via, cseq *header.CSeq) *SIPRequest {
 	newRequest := NewSIPRequest()
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
-- 
2.43.0


From 3253aca4546c2b687d8c004e324d157cbe7896b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:19 +0000
Subject: [PATCH 078/108] fix: SetParameter with a zero-length value sets a
 flag parameter, as documented

---
 sip/header/ParametersImpl.go   | 9 ++++++---
 sip/parser/ParametersParser.go | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index 39002d7..b33a4b0 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -169,11 +169,14 @@ func (this *Parameters) RemoveParameter(name string) {
  */
 func (this *Parameters) SetParameter(name, value string) (ParseException error) {
 	nv := this.parameters.GetNameValue(name)
-	if nv != nil {
+	if nv == nil {
+		nv = core.NewNameValue(name, nil)
+		this.parameters.AddNameValue(nv)
+	}
+	if value != "" {
 		nv.SetValue(value)
 	} else {
-		nv = core.NewNameValue(name, value)
-		this.parameters.AddNameValue(nv)
+		nv.SetValue(nil)
 	}
 	return nil
 }
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index df1edd1..46128b8 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -60,7 +60,11 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		} else if nv.IsValueQuoted() {
 			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
 		} else {
-			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
+			value := nv.GetValue().(string)
+			parametersHeader.SetParameter(nv.GetName(), value)
+			if set := parametersHeader.GetNameValue(nv.GetName()); set != nil {
+				set.SetValue(value) // a missing value is read as an empty one
+			}
 		}
 
 		// eat white space
-- 
2.43.0


From 1b72972244f97a2a3bf65b4e56399bcba2070993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 079/108] fix: SipURIImpl.GetTelephoneSubscriber does not write
 to the URI it reads

---
 sip/address/SipURIImpl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 6921822..b260464 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -285,7 +285,8 @@ func (this *SipURIImpl) SetUserPassword(password string) {
  */
 func (this *SipURIImpl) GetTelephoneSubscriber() *TelephoneNumber {
 	if this.telephoneSubscriber == nil {
-		this.telephoneSubscriber = NewTelephoneNumber()
+		// Reading must not change the URI: it may be shared.
+		return NewTelephoneNumber()
 	}
 	return this.telephoneSubscriber
 }
-- 
2.43.0


From 63686c65caf0de717660719f13dfbd9e8d9e5a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 080/108] fix: reading a Host's IP address does not write to
 the Host

---
 core/Host.go | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index 2c97c14..7716c51 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -23,8 +23,6 @@ type Host struct {
 	/** address field
 	 */
 	addressType int
-
-	inetAddress net.IP
 }
 
 /** Constructor given host name or IP address.
@@ -111,10 +109,7 @@ func (host *Host) GetIpAddress() string {
 
 	if host.addressType == HOSTNAME {
 		//try {
-		if host.inetAddress == nil {
-			host.inetAddress = net.ParseIP(host.hostname)
-		}
-		rawIpAddress = host.inetAddress.String() //getHostAddress();
+		rawIpAddress = net.ParseIP(host.hostname).String() //getHostAddress();
 		//} catch (UnknownHostException ex) {
 		//    dbgPrint("Could not resolve hostname " + ex);
 		//}
@@ -129,7 +124,6 @@ func (host *Host) GetIpAddress() string {
  * @param h String to set
  */
 func (host *Host) SetHostName(hname string) {
-	host.inetAddress = nil
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
 	} else {
@@ -145,7 +139,6 @@ func (host *Host) SetHostName(hname string) {
  *@param address is the address string to set.
  */
 func (host *Host) SetHostAddress(address string) {
-	host.inetAddress = nil
 	if host.isIPv6Address(address) {
 		host.addressType = IPV6ADDRESS
 	} else {
@@ -181,8 +174,7 @@ func (host *Host) IsIPAddress() bool {
 }
 
 /** Get the inet address from host host.
- * Caches the inet address returned from dns lookup to avoid
- * lookup delays.
+ * Nothing is cached: reading must not change the host, which may be shared.
  *
  *@throws UnkownHostexception when the host name cannot be resolved.
  */
@@ -190,12 +182,7 @@ func (host *Host) GetInetAddress() net.IP {
 	if host.hostname == "" {
 		return nil
 	}
-	if host.inetAddress != nil {
-		return host.inetAddress
-	}
-	host.inetAddress = net.ParseIP(host.hostname)
-	return host.inetAddress
-
+	return net.ParseIP(host.hostname)
 }
 
 //----- IPv6
-- 
2.43.0


From 0c8cb412db6e2538001a07144daa808afbc57659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:06 +0000
Subject: [PATCH 081/108] fix: RTP byte order is set before use, not by the
 first of several goroutines

---
 rtp/rtp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 50a6a17..b39152c 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -87,6 +87,11 @@ var (
 	bigEndian = int(-1)
 )
 
+// Set before any packet is handled, so that goroutines only read it.
+func init() {
+	CheckEndian()
+}
+
 func CheckEndian() {
 	if bigEndian == -1 {
 		var i int = 0x1
-- 
2.43.0


From f8039fe813479b7b80d76d36f4dcfbb38ce8a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 082/108] fix: a Timestamp keeps every digit of its values

---
 sip/header/TimeStampImpl.go   | 57 +++++++++++++++++++++++++++++++++--
 sip/parser/TimeStampParser.go | 47 +++++------------------------
 2 files changed, 61 insertions(+), 43 deletions(-)

diff --git a/sip/header/TimeStampImpl.go b/sip/header/TimeStampImpl.go
index 2ccee9b..401538b 100644
--- a/sip/header/TimeStampImpl.go
+++ b/sip/header/TimeStampImpl.go
@@ -20,6 +20,10 @@ type TimeStamp struct {
 	/** delay field
 	 */
 	delay float32
+
+	/** the two values as they stood in a message: a float32 has no room for all the digits
+	 */
+	timeStampText, delayText string
 }
 
 /** Default Constructor
@@ -41,11 +45,18 @@ func (this *TimeStamp) String() string {
  * @return String
  */
 func (this *TimeStamp) EncodeBody() string {
+	encoding := this.timeStampText
+	if encoding == "" {
+		encoding = strconv.FormatFloat(float64(this.timeStamp), 'f', -1, 32)
+	}
 	if this.delay != -1 {
-		return strconv.FormatFloat(float64(this.timeStamp), 'f', -1, 32) + core.SIPSeparatorNames_SP + strconv.FormatFloat(float64(this.delay), 'f', -1, 32)
-	} else {
-		return strconv.FormatFloat(float64(this.timeStamp), 'f', -1, 32)
+		delay := this.delayText
+		if delay == "" {
+			delay = strconv.FormatFloat(float64(this.delay), 'f', -1, 32)
+		}
+		encoding += core.SIPSeparatorNames_SP + delay
 	}
+	return encoding
 }
 
 /** return true if delay exists
@@ -74,9 +85,48 @@ func (this *TimeStamp) SetTimeStamp(timeStamp float32) (InvalidArgumentException
 		return errors.New("InvalidArgumentException: the timeStamp parameter is <0")
 	}
 	this.timeStamp = timeStamp
+	this.timeStampText = ""
 	return nil
 }
 
+/** Sets the timestamp to a value written in decimal digits, which are kept as they are.
+ * @throws ParseException if it is not a number
+ */
+func (this *TimeStamp) SetTimeStampFromString(timeStamp string) (ParseException error) {
+	value, ParseException := parseSeconds(timeStamp)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.timeStamp = value
+	this.timeStampText = timeStamp
+	return nil
+}
+
+/** Sets the delay to a value written in decimal digits, which are kept as they are.
+ * @throws ParseException if it is not a number
+ */
+func (this *TimeStamp) SetDelayFromString(delay string) (ParseException error) {
+	value, ParseException := parseSeconds(delay)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.delay = value
+	this.delayText = delay
+	return nil
+}
+
+/** the value of *(DIGIT) [ "." *(DIGIT) ]
+ */
+func parseSeconds(text string) (seconds float32, ParseException error) {
+	for i := 0; i < len(text); i++ {
+		if text[i] != '.' && (text[i] < '0' || text[i] > '9') {
+			return 0, errors.New("ParseException: not a number of seconds: " + text)
+		}
+	}
+	value, ParseException := strconv.ParseFloat(text, 32)
+	return float32(value), ParseException
+}
+
 /**
  * Gets the timestamp value of this TimeStampHeader.
  *
@@ -110,5 +160,6 @@ func (this *TimeStamp) SetDelay(delay float32) (InvalidArgumentException error)
 		return errors.New("InvalidArgumentException: the delay parameter is <0")
 	}
 	this.delay = delay
+	this.delayText = ""
 	return nil
 }
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 692f464..5bc1855 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
 )
 
 /** SIPParser for TimeStamp header.
@@ -37,58 +36,26 @@ func NewTimeStampParserFromLexer(lexer core.Lexer) *TimeStampParser {
 func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp := header.NewTimeStamp()
 
-	var ch byte
-	var firstNumber, secondNumber int
-
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_TIMESTAMP)
 
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
-	if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	if ParseException = timeStamp.SetTimeStampFromString(lexer.GetNextId()); ParseException != nil {
 		return nil, ParseException
 	}
 
-	var ts float64
-	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		if _, err := lexer.Match('.'); err != nil {
-			return nil, err
-		}
-
-		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-			return nil, ParseException
-		}
-
-		s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-		ts, _ = strconv.ParseFloat(s, 32)
-	} else {
-		ts = float64(firstNumber)
-	}
-
-	timeStamp.SetTimeStamp(float32(ts))
-
 	lexer.SPorHT()
-	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
-		if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	if ch, _ := lexer.LookAheadK(0); ch != '\n' {
+		if ParseException = timeStamp.SetDelayFromString(lexer.GetNextId()); ParseException != nil {
 			return nil, ParseException
 		}
+		lexer.SPorHT()
+	}
 
-		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			if _, err := lexer.Match('.'); err != nil {
-				return nil, err
-			}
-			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-
-			s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-			ts, _ = strconv.ParseFloat(s, 32)
-		} else {
-			ts = float64(firstNumber)
-		}
-
-		timeStamp.SetDelay(float32(ts))
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
 	}
 
 	return timeStamp, nil
-- 
2.43.0


From 75a95e6e07efcc2532fe29cbad9fdfd4e0f7b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 083/108] fix: the SIP version is read without regard to case

---
 sip/parser/SIPParser.go       | 3 ++-
 sip/parser/StringMsgParser.go | 2 +-
 sip/parser/ViaParser.go       | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 3672a43..7d4dc3b 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"errors"
 	"github.com/use-go/gosips/core"
+	"strings"
 )
 
 const TokenTypes_START = core.CORELEXER_START
@@ -149,7 +150,7 @@ func (this *SIPParser) SipVersion() (s string, ParseException error) {
 	if tok, ParseException = this.GetLexer().Match(TokenTypes_SIP); ParseException != nil {
 		return "", this.CreateParseException("Expecting SIP")
 	}
-	if tok.GetTokenValue() != "SIP" {
+	if !strings.EqualFold(tok.GetTokenValue(), "SIP") {
 		return "", this.CreateParseException("Expecting SIP")
 	}
 	if _, err := this.GetLexer().Match('/'); err != nil {
diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index f2efbfc..4546ff7 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -294,7 +294,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 	this.currentLine = 0
 	this.currentHeader = this.messageHeaders[this.currentLine]
 	firstLine := this.currentHeader
-	if !strings.HasPrefix(firstLine, header.SIPConstants_SIP_VERSION_STRING) {
+	if !strings.HasPrefix(strings.ToUpper(firstLine), header.SIPConstants_SIP_VERSION_STRING) {
 		sipmsg = message.NewSIPRequest()
 		var rl *header.RequestLine
 		if rl, err = NewRequestLineParser(firstLine + "\n").Parse(); err != nil {
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index c53dee4..3dfb4d5 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -35,7 +35,7 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 		return err
 	}
 
-	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
+	if protocolName = lexer.GetNextToken(); !strings.EqualFold(protocolName.GetTokenValue(), "SIP") {
 		return this.CreateParseException("Protcoal Not Supported error")
 	}
 
-- 
2.43.0


From b21eaafda661f13f2785f68b1e06a0b7930fefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 084/108] fix: an Expires header may have any value up to
 2**32-1

---
 sip/parser/ExpiresParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index 9c0f3bc..64a435b 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -49,7 +49,7 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, err
 	}
 	var delta int64
-	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
+	if delta, ParseException = strconv.ParseInt(nextId, 10, 64); ParseException != nil {
 		return nil, ParseException
 	}
 	expires.SetExpires(int(delta))
-- 
2.43.0


From acec8ffe7018542f9ae693be6a9c61dfadaf867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 085/108] fix: a comment may have comments in it

---
 core/CoreLexer.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 8385194..9997311 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -395,15 +395,22 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 		return "", err
 	}
 	coreLexer.ConsumeK(1)
+	depth := 1 // a comment may have comments in it
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
 			break
 		}
-		if next == ')' {
-			break
-			// } else if next == 0 { //'\0' {
-			// 	return "", errors.New("ParseException: unexpected EOL")
-		} else if next == '\\' {
+		if next == '(' {
+			depth++
+		} else if next == ')' {
+			if depth--; depth == 0 {
+				break
+			}
+		}
+		// if next == 0 { //'\0' {
+		// 	return "", errors.New("ParseException: unexpected EOL")
+		// }
+		if next == '\\' {
 			retval.WriteByte(next)
 			if next, err = coreLexer.GetNextChar(); err != nil {
 				break
-- 
2.43.0


From 51949bef5cf397a228af12d8a34feeeb99d23015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 086/108] fix: the agent of a Warning and the value of a
 parameter may be any host

---
 core/CoreParser.go          |   6 ++
 sip/parser/ViaParser.go     |   4 ++
 sip/parser/WarningParser.go | 120 +++++++++++++++++-------------------
 3 files changed, 67 insertions(+), 63 deletions(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index dcc241a..4ad4475 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -59,6 +59,12 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 			quoted = true
 		} else if err != nil || la == ';' || la == ',' || la == '\n' {
 			// an empty value, as NameValue.String writes it
+		} else if la == '[' {
+			host := &HostNameParser{}
+			host.SetLexer(coreParser.lexer)
+			if str, ParseException = host.Ipv6Reference(); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
 				return nil, ParseException
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 3dfb4d5..d163e4e 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -172,6 +172,10 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 					return nil, ParseException
 				}
 				quoted = true
+			} else if la == '[' {
+				if str, ParseException = core.NewHostNameParserFromLexer(lexer).Ipv6Reference(); ParseException != nil {
+					return nil, ParseException
+				}
 			} else {
 				if _, err := lexer.Match(core.CORELEXER_ID); err != nil {
 					return nil, err
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index f1218c7..43f8dc8 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -38,87 +38,81 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 	warningList := header.NewWarningList()
 
 	var ch byte
+
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_WARNING)
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
-		warning := header.NewWarning()
-		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
-
-		// Parsing the 3digits code
-		if _, err := lexer.Match(TokenTypes_ID); err != nil {
-			return nil, err
-		}
-		token := lexer.GetNextToken()
-
-		var code int
-		if code, ParseException = strconv.Atoi(token.GetTokenValue()); ParseException != nil {
-			return nil, ParseException
-		}
-		if ParseException = warning.SetCode(code); ParseException != nil {
-			return nil, ParseException
-		}
-
-		lexer.SPorHT()
-
-		// Parsing the agent
-		if _, err := lexer.Match(TokenTypes_ID); err != nil {
-			return nil, err
-		}
-		token = lexer.GetNextToken()
-		warning.SetAgent(token.GetTokenValue())
-		lexer.SPorHT()
-
-		// Parsing the text
-		var text string
-		if text, ParseException = lexer.QuotedString(); ParseException != nil {
+		var warning *header.Warning
+		if warning, ParseException = this.warning(); ParseException != nil {
 			return nil, ParseException
 		}
-		warning.SetText(text)
-		lexer.SPorHT()
-
 		warningList.PushBack(warning)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			if _, err := lexer.Match(','); err != nil {
-				return nil, err
-			}
+			lexer.ConsumeK(1)
 			lexer.SPorHT()
-
-			warning = header.NewWarning()
-
-			// Parsing the 3digits code
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
-			}
-			tok := lexer.GetNextToken()
-
-			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
+			if warning, ParseException = this.warning(); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetCode(code)
+			warningList.PushBack(warning)
+		}
+	}
 
-			lexer.SPorHT()
+	return warningList, nil
+}
 
-			// Parsing the agent
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
-			}
-			tok = lexer.GetNextToken()
-			warning.SetAgent(tok.GetTokenValue())
-			lexer.SPorHT()
+/** one warning and the white space that follows it
+ */
+func (this *WarningParser) warning() (warning *header.Warning, ParseException error) {
+	lexer := this.GetLexer()
+	warning = header.NewWarning()
+	warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
-			// Parsing the text
-			if text, ParseException = lexer.QuotedString(); ParseException != nil {
-				return nil, ParseException
-			}
-			warning.SetText(text)
-			lexer.SPorHT()
+	// Parsing the code
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, err
+	}
+	token := lexer.GetNextToken()
+	var code int
+	if code, ParseException = strconv.Atoi(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
+	if ParseException = warning.SetCode(code); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT()
 
-			warningList.PushBack(warning)
+	// Parsing the agent: a pseudonym, or a host which may have a port
+	var agent string
+	if la, _ := lexer.LookAheadK(0); la == '[' {
+		if agent, ParseException = core.NewHostNameParserFromLexer(lexer).Ipv6Reference(); ParseException != nil {
+			return nil, ParseException
+		}
+	} else {
+		if _, err := lexer.Match(TokenTypes_ID); err != nil {
+			return nil, err
+		}
+		agent = lexer.GetNextToken().GetTokenValue()
+	}
+	if la, _ := lexer.LookAheadK(0); la == ':' {
+		lexer.ConsumeK(1)
+		var port int
+		if port, ParseException = lexer.Number(); ParseException != nil {
+			return nil, ParseException
 		}
+		agent += core.SIPSeparatorNames_COLON + strconv.Itoa(port)
+	}
+	warning.SetAgent(agent)
+	lexer.SPorHT()
 
+	// Parsing the text
+	var text string
+	if text, ParseException = lexer.QuotedString(); ParseException != nil {
+		return nil, ParseException
 	}
+	warning.SetText(text)
+	lexer.SPorHT()
 
-	return warningList, nil
+	return warning, nil
 }
-- 
2.43.0


From 41ac18f5868d7177e466204ffc8e562c5953b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 087/108] fix: Accept-Encoding and Accept-Language may have
 parameters other than q

---
 sip/parser/AcceptEncodingParser.go | 24 +----------------
 sip/parser/AcceptLanguageParser.go | 26 +------------------
 sip/parser/ParametersParser.go     | 41 ++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 48 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 519cbe0..bc1b2d9 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
 )
 
 /**
@@ -82,28 +81,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				if _, err := lexer.Match(';'); err != nil {
-					return nil, err
-				}
-				lexer.SPorHT()
-				if _, err := lexer.Match('q'); err != nil {
-					return nil, err
-				}
-				lexer.SPorHT()
-				if _, err := lexer.Match('='); err != nil {
-					return nil, err
-				}
-				lexer.SPorHT()
-				if _, err := lexer.Match(TokenTypes_ID); err != nil {
-					return nil, err
-				}
-				value := lexer.GetNextToken()
-
-				var qv float64
-				if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
-					return nil, ParseException
-				}
-				if ParseException = acceptEncoding.SetQValue(float32(qv)); ParseException != nil {
+				if ParseException = this.parameter(acceptEncoding); ParseException != nil {
 					return nil, ParseException
 				}
 				lexer.SPorHT()
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 4b2c94c..0ab12a9 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
 )
 
 /**
@@ -72,32 +71,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			if _, err := lexer.Match(';'); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-			if _, err := lexer.Match('q'); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-			if _, err := lexer.Match('='); err != nil {
-				return nil, err
-			}
-			lexer.SPorHT()
-			if _, err := lexer.Match(TokenTypes_ID); err != nil {
-				return nil, err
-			}
-			value := lexer.GetNextToken()
-
-			var qv float64
-			if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
+			if ParseException = this.parameter(acceptLanguage); ParseException != nil {
 				return nil, ParseException
 			}
-
-			if ParseException = acceptLanguage.SetQValue(float32(qv)); ParseException != nil {
-				return nil, ParseException
-			}
-
 			lexer.SPorHT()
 		}
 
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index 46128b8..bafb8d3 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -3,6 +3,8 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strconv"
+	"strings"
 )
 
 /** parameters parser header.
@@ -83,3 +85,42 @@ type flagHeader interface {
 	RemoveParameter(name string)
 	SetParameterFromNameValue(nameValue *core.NameValue)
 }
+
+/** a header whose parameters include a q value
+ */
+type qValueHeader interface {
+	header.ParametersHeader
+	flagHeader
+	SetQValue(q float32) (InvalidArgumentException error)
+}
+
+/** Parses a semicolon and the parameter that follows it, of a header which may have a q value.
+ */
+func (this *HeaderParser) parameter(h qValueHeader) (ParseException error) {
+	lexer := this.GetLexer()
+	if _, err := lexer.Match(';'); err != nil {
+		return err
+	}
+	lexer.SPorHT()
+
+	var nv *core.NameValue
+	if nv, ParseException = this.NameValue('='); ParseException != nil {
+		return ParseException
+	}
+	value := nv.GetValue().(string)
+	if strings.EqualFold(nv.GetName(), header.ParameterNames_Q) {
+		var qv float64
+		if qv, ParseException = strconv.ParseFloat(value, 32); ParseException != nil {
+			return ParseException
+		}
+		return h.SetQValue(float32(qv))
+	}
+	if nv.IsValueQuoted() {
+		h.SetParameter(nv.GetName(), "\""+value+"\"")
+	} else if value == "" {
+		h.SetParameterFromNameValue(core.NewNameValue(nv.GetName(), nil))
+	} else {
+		h.SetParameter(nv.GetName(), value)
+	}
+	return nil
+}
-- 
2.43.0


From 9f353a9014c53cd2fb9d6eed69164e9ff5525ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 088/108] fix: a header whose empty value means "none" is not
 left out

---
 sip/header/SIPHeaderList.go        | 9 ++++++---
 sip/parser/AcceptLanguageParser.go | 6 ++++++
 sip/parser/AcceptParser.go         | 3 +++
 sip/parser/AllowParser.go          | 5 +++++
 sip/parser/SupportedParser.go      | 5 +++++
 5 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index 3143b5b..1d25b64 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -137,14 +137,17 @@ func (this *SIPHeaderList) String() string {
 func (this *SIPHeaderList) EncodeBody() string {
 	var encoding bytes.Buffer
 	for e := this.Front(); e != nil; e = e.Next() {
+		var body string
 		if sh, ok := e.Value.(Header); ok {
-			encoding.WriteString(sh.EncodeBody())
+			body = sh.EncodeBody()
 		} else {
-			encoding.WriteString(e.Value.(string))
+			body = e.Value.(string)
 		}
-		if e.Next() != nil {
+		// A header with an empty value adds nothing to the others.
+		if body != "" && encoding.Len() > 0 {
 			encoding.WriteString(core.SIPSeparatorNames_COMMA)
 		}
+		encoding.WriteString(body)
 	}
 
 	return encoding.String()
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 0ab12a9..61540a2 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -58,6 +58,12 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 	this.HeaderName(TokenTypes_ACCEPT_LANGUAGE)
 	lexer.SPorHT()
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		// An empty value says that no language is acceptable.
+		acceptLanguageList.PushBack(header.NewAcceptLanguage())
+		return acceptLanguageList, nil
+	}
+
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 642ea75..c33b98c 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -81,6 +81,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 			lexer.ConsumeK(1)
 			lexer.SPorHT()
 		}
+	} else {
+		// An empty value says that nothing is acceptable.
+		acceptList.PushBack(header.NewAccept())
 	}
 	if _, err := lexer.Match('\n'); err != nil {
 		return nil, err
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 9a5fde6..cba0673 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -46,6 +46,11 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		// An empty value says that no method is allowed.
+		allowList.PushBack(allow)
+		return allowList, nil
+	}
 	if _, err := lexer.Match(TokenTypes_ID); err != nil {
 		return nil, err
 	}
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 3ecb787..0d437b6 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -40,6 +40,11 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	this.HeaderName(TokenTypes_SUPPORTED)
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		// An empty value says that nothing is supported.
+		supportedList.PushBack(header.NewSupported())
+		return supportedList, nil
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
 		supported := header.NewSupported()
-- 
2.43.0


From f3938e3535cc2f16218cec67000dc2ce5254a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 089/108] fix: a sips URI is read as a SipURI

---
 sip/parser/SIPLexer.go  | 1 +
 sip/parser/URLParser.go | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1cf7eea..718c051 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -139,6 +139,7 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 		} else if lexerName == "sip_urlLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_TEL), TokenTypes_TEL)
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
+			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIPS), TokenTypes_SIP)
 		}
 	} /*else{
 		println("this.CurrentLexer() != nil");
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 3a3e82b..18faedb 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -469,13 +469,14 @@ func (this *URLParser) hasUserInfo() bool {
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	if _, err := this.GetLexer().Match(TokenTypes_SIP); err != nil {
+	scheme, err := this.GetLexer().Match(TokenTypes_SIP)
+	if err != nil {
 		return nil, err
 	}
+	retval.SetScheme(scheme.GetTokenValue()) // sip or sips
 	if _, err := this.GetLexer().Match(':'); err != nil {
 		return nil, err
 	}
-	retval.SetScheme(core.SIPTransportNames_SIP)
 
 	if this.hasUserInfo() {
 		user, err := this.User()
-- 
2.43.0


From 911b2e7efde1fdce4595aa9c40c19693395d5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 090/108] fix: r is the compact form of Refer-To

---
 sip/parser/ParserFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..b941ffd 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -145,6 +145,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAlertInfoParser(line)
 	case strings.ToLower(core.SIPHeaderNames_ACCEPT):
 		parser = NewAcceptParser(line)
+	case "r":
+		parser = NewReferToParser(line)
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
 	default:
-- 
2.43.0


From 55c2d0c8b052d50b1c7415a6d811bbc1694550f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 091/108] fix: a parameter of a tel URL without a value is
 written without '='

---
 sip/parser/URLParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 18faedb..098c0e0 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -415,6 +415,9 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
+		if nv.GetValue() == "" && !nv.IsValueQuoted() {
+			nv.SetValue(nil) // no value: written without "="
+		}
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
-- 
2.43.0


From a544ae192da04eec4a5cc6bebfbd943010369e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 092/108] fix: parameters without a content coding are no
 Accept-Encoding

---
 sip/parser/AcceptEncodingParser.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index bc1b2d9..09316a1 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -71,14 +71,13 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 	} else {
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
-			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				if _, err := lexer.Match(TokenTypes_ID); err != nil {
-					return nil, err
-				}
-				value := lexer.GetNextToken()
-				acceptEncoding.SetEncoding(value.GetTokenValue())
-				lexer.SPorHT()
+			// Content-Coding:
+			if _, err := lexer.Match(TokenTypes_ID); err != nil {
+				return nil, err
 			}
+			value := lexer.GetNextToken()
+			acceptEncoding.SetEncoding(value.GetTokenValue())
+			lexer.SPorHT()
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 				if ParseException = this.parameter(acceptEncoding); ParseException != nil {
-- 
2.43.0


From dcc8a759ad495bf7214c5e05dd46f124e7e6f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 093/108] fix: give a new tel URL a number to set

---
 sip/address/TelURLImpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/address/TelURLImpl.go b/sip/address/TelURLImpl.go
index 0e88a76..cff99d7 100644
--- a/sip/address/TelURLImpl.go
+++ b/sip/address/TelURLImpl.go
@@ -19,6 +19,7 @@ func NewTelURLImpl() *TelURLImpl {
 	this := &TelURLImpl{}
 
 	this.scheme = "tel"
+	this.telephoneNumber = NewTelephoneNumber()
 
 	return this
 }
-- 
2.43.0


From 5dd3fda61ca9332a032f9e107779e2089b5bc916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 094/108] fix: replace a parameter of a telephone number that
 is set again

---
 sip/address/TelphoneNumber.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 65b4bf5..ffadf43 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -124,7 +124,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
 	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /** set the specified parameter
@@ -133,7 +133,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /**
@@ -214,5 +214,5 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
-- 
2.43.0


From f68d88cf0f668b38a5acd4569a3971296a460882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 095/108] fix: write a Date in GMT whatever the zone of the
 time

---
 sip/header/DateImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 5c55b2d..4c270a1 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -33,7 +33,7 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
-	return this.date.Format(time.RFC1123)
+	return this.date.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
 }
 
 /**
-- 
2.43.0


From 409dd46ff451ba752c3ff15db428b7f724e154a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 096/108] fix: keep the Call-ID when a new one is refused

---
 sip/header/CallIdImpl.go     | 8 ++++++--
 sip/header/CallIdentifier.go | 6 +++---
 sip/header/InReplyToImpl.go  | 8 ++++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..1323e3c 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -97,8 +97,12 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
-	return ParseException
+	callIdentifier, ParseException := NewCallIdentifier(cid)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callIdentifier = callIdentifier
+	return nil
 }
 
 /**
diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..a540284 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,11 +118,11 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		if index == 0 || index == len(cid)-1 {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = cid[0:index]
+		this.host = cid[index+1 : len(cid)]
 	}
 
 	return nil
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..7468eab 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -38,8 +38,12 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
-	return ParseException
+	callIdentifier, ParseException := NewCallIdentifier(callId)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callId = callIdentifier
+	return nil
 }
 
 /**
-- 
2.43.0


From 84df0920e222b7359d11cab029f231248f87a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 097/108] fix: quote the texts of Reason and Error-Info and set
 them once

---
 sip/header/ErrorInfoImpl.go | 2 +-
 sip/header/ReasonImpl.go    | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index d966bad..7eb9fd9 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -91,7 +91,7 @@ func (this *ErrorInfo) SetErrorMessage(message string) (ParseException error) {
 	if message == "" {
 		return errors.New("NullPointerException: the message parameter is null")
 	}
-	this.SetParameter("message", message)
+	this.SetQuotedParameter("message", message)
 	return nil
 }
 
diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..be70da6 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -2,6 +2,7 @@ package header
 
 import (
 	"bytes"
+	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
 )
@@ -36,7 +37,10 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: the cause is less than zero")
+	}
+	this.parameters.SetNameAndValue("cause", strconv.Itoa(cause))
 	return nil
 }
 
@@ -63,7 +67,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
+	this.SetQuotedParameter("text", text)
 	return nil
 }
 
-- 
2.43.0


From 4ff7fc5a9030426aa32b2d6d5677a83bcebe9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 098/108] fix: take any transport in a SIP URI, as documented

---
 sip/address/SipURIImpl.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index b260464..c1e2243 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -929,15 +929,10 @@ func (this *SipURIImpl) SetTransportParam(transport string) error {
 	if transport == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	if strings.ToUpper(transport) == "UDP" ||
-		strings.ToUpper(transport) == "TCP" {
-		nv := core.NewNameValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
-		this.uriParms.Delete(core.SIPTransportNames_TRANSPORT)
-		this.uriParms.AddNameValue(nv)
-		return nil
-	} else {
-		return errors.New("ParseException: bad transport " + transport)
-	}
+	nv := core.NewNameValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
+	this.uriParms.Delete(core.SIPTransportNames_TRANSPORT)
+	this.uriParms.AddNameValue(nv)
+	return nil
 }
 
 /** Returns the user part of this SipURI, or null if it is not Set.
-- 
2.43.0


From 2a36ba3051397edfae2911f03019f1648618bb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 099/108] fix: keep to the documented range of the ttl of a Via

---
 sip/header/ViaImpl.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 8c7550c..4045f72 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -372,8 +372,12 @@ func (this *Via) GetTTL() int {
  * greater than 255, excluding -1 the default not set value.
  */
 func (this *Via) SetTTL(ttl int) (InvalidArgumentException error) {
-	if ttl < 0 && ttl != -1 {
-		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0")
+	if ttl < -1 || ttl > 255 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0 or > 255")
+	}
+	if ttl == -1 {
+		this.RemoveParameter(ParameterNames_TTL)
+		return nil
 	}
 	this.SetParameter(ParameterNames_TTL, strconv.Itoa(ttl))
 	return nil
-- 
2.43.0


From f660d6da6aa23fcf8bc810621277dcd65109035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 100/108] fix: read stale without regard to case and part new
 challenge parameters by commas

---
 sip/header/AuthenticationImpl.go | 6 +-----
 sip/header/Challenge.go          | 1 +
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 1619d07..6146ab4 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -354,11 +354,7 @@ func (this *Authentication) SetStale(stale bool) {
  */
 func (this *Authentication) IsStale() bool {
 	stale := this.GetParameter(ParameterNames_STALE)
-	if stale == "true" {
-		return true
-	} else {
-		return false
-	}
+	return strings.EqualFold(stale, "true")
 }
 
 /** Set the CNonce.
diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index b8d67f1..ecb526a 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -152,6 +152,7 @@ func (this *Challenge) RemoveParameter(name string) bool {
  */
 func (this *Challenge) RemoveParameters() {
 	this.authParams = core.NewNameValueList("authParams")
+	this.authParams.SetSeparator(core.SIPSeparatorNames_COMMA)
 }
 
 /** Set the specified parameter
-- 
2.43.0


From 1bc641ccbcdfc30cd314cc93ed06c49630de64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 101/108] fix: read the value of a quoted parameter without its
 quotes

---
 sip/parser/ParametersParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index bafb8d3..ccb1a31 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -60,7 +60,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 			p.RemoveParameter(nv.GetName())
 			p.SetParameterFromNameValue(core.NewNameValue(nv.GetName(), nil))
 		} else if nv.IsValueQuoted() {
-			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
+			parametersHeader.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
 		} else {
 			value := nv.GetValue().(string)
 			parametersHeader.SetParameter(nv.GetName(), value)
@@ -116,7 +116,7 @@ func (this *HeaderParser) parameter(h qValueHeader) (ParseException error) {
 		return h.SetQValue(float32(qv))
 	}
 	if nv.IsValueQuoted() {
-		h.SetParameter(nv.GetName(), "\""+value+"\"")
+		h.SetQuotedParameter(nv.GetName(), value)
 	} else if value == "" {
 		h.SetParameterFromNameValue(core.NewNameValue(nv.GetName(), nil))
 	} else {
-- 
2.43.0


From eb171127867836af5968f04d6f43a5684969da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 102/108] fix: write the URI of a Route in brackets where there
 are parameters

---
 sip/header/RouteImpl.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 71e31a4..1a5b8c8 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -75,7 +75,12 @@ func (this *Route) String() string {
  */
 func (this *Route) EncodeBody() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(this.addr.String())
+	encoded := this.addr.String()
+	addr, _ := this.addr.(*address.AddressImpl)
+	if addr.GetAddressType() == address.ADDRESS_SPEC && (strings.ContainsAny(encoded, ",;?") || this.HasParameters()) {
+		encoded = core.SIPSeparatorNames_LESS_THAN + encoded + core.SIPSeparatorNames_GREATER_THAN
+	}
+	encoding.WriteString(encoded)
 	if this.parameters != nil && this.parameters.Len() > 0 {
 		encoding.WriteString(core.SIPSeparatorNames_SEMICOLON)
 		encoding.WriteString(this.parameters.String())
-- 
2.43.0


From 33c1a9e0ff28bbb39d28da11e16c0055ffcef27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 103/108] fix: make requests from one whose request line could
 not be read

---
 sip/message/SIPRequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 58f3ecf..c9fd7a3 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -598,7 +598,7 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 // cloneRequestLine copies the request line.
 func (this *SIPRequest) cloneRequestLine() *header.RequestLine {
 	if this.requestLine == nil {
-		return nil
+		return header.NewRequestLine()
 	}
 	return this.requestLine.Clone().(*header.RequestLine)
 }
-- 
2.43.0


From f220f926fa289475dcb1bd53708bdec21b64efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 104/108] fix: report what follows the address in Reply-To

---
 sip/parser/ReplyToParser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index b6e0a60..5c063a5 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -41,7 +41,13 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
-	ParseException = this.AddressParametersParser.Parse(replyTo)
-
-	return replyTo, ParseException
+	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer := this.GetLexer()
+	lexer.SPorHT()
+	if _, err := lexer.Match('\n'); err != nil {
+		return nil, err
+	}
+	return replyTo, nil
 }
-- 
2.43.0


From e2ff578eae0a18f4eeb04bd2d2127eac403dfb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 105/108] fix: tell that a Contact is the wildcard

---
 sip/header/ContactImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 326c061..7caf6ae 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -78,11 +78,12 @@ func (this *Contact) GetContactList() *ContactList {
 	return this.contactList
 }
 
-/** get the WildCardFlag field
+/** Tells whether this is the wildcard, which is kept as an address.
  * @return boolean
  */
 func (this *Contact) GetWildCardFlag() bool {
-	return this.wildCardFlag
+	addr, _ := this.addr.(*address.AddressImpl)
+	return this.wildCardFlag || addr != nil && addr.IsWildcard()
 }
 
 /** get the address field.
-- 
2.43.0


From 1069c820b8491cc8d47f4a09a2c8659653e62e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 106/108] fix: report expiry times that are negative or signed
 as bad headers

---
 sip/parser/ContactParser.go    |  2 +-
 sip/parser/ExpiresParser.go    | 12 +++++-------
 sip/parser/RetryAfterParser.go |  2 +-
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index 64c15f4..69b6347 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -47,7 +47,7 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 			}
 
 			if contact.HasParameter(header.ParameterNames_EXPIRES) {
-				if _, ParseException = strconv.Atoi(contact.GetParameter(header.ParameterNames_EXPIRES)); ParseException != nil {
+				if _, ParseException = strconv.ParseUint(contact.GetParameter(header.ParameterNames_EXPIRES), 10, 32); ParseException != nil {
 					return nil, ParseException
 				}
 			}
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index 64a435b..4ae45de 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
 )
 
 /** SIPParser for SIP Expires SIPParser. Converts from SIP Date to the
@@ -43,15 +42,14 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, err
 	}
 	lexer.SPorHT()
-	nextId := lexer.GetNextId()
+	var delta int
+	if delta, ParseException = lexer.Number(); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if _, err := lexer.Match('\n'); err != nil {
 		return nil, err
 	}
-	var delta int64
-	if delta, ParseException = strconv.ParseInt(nextId, 10, 64); ParseException != nil {
-		return nil, ParseException
-	}
-	expires.SetExpires(int(delta))
+	expires.SetExpires(delta)
 	return expires, ParseException
 }
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index fd6092b..353c118 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -62,7 +62,7 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	if retryAfter.HasParameter(header.ParameterNames_DURATION) {
-		if _, ParseException = strconv.Atoi(retryAfter.GetParameter(header.ParameterNames_DURATION)); ParseException != nil {
+		if _, ParseException = strconv.ParseUint(retryAfter.GetParameter(header.ParameterNames_DURATION), 10, 32); ParseException != nil {
 			return nil, ParseException
 		}
 	}
-- 
2.43.0


From 9d2dc5254dc2e621a28c75cb536804ae95fd98ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 107/108] fix: SetDefaultParm does not repeat a parameter
 without a value

---
 sip/address/SipURIImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index c1e2243..404109d 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -454,7 +454,7 @@ func (this *SipURIImpl) RemoveUser() {
  * @param value value of the parameter to set.
  */
 func (this *SipURIImpl) SetDefaultParm(name string, value interface{}) {
-	if this.uriParms.GetValue(name) == nil {
+	if !this.uriParms.HasNameValue(name) {
 		nv := core.NewNameValue(name, value)
 		this.uriParms.AddNameValue(nv)
 	}
-- 
2.43.0


From f7b53156859881955b0c0a01f576d6a20eda22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 108/108] fix: a copy of a Contact shares no contact list with
 the original

---
 sip/header/Clone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/header/Clone.go b/sip/header/Clone.go
index 1c73c77..5dc7ae5 100644
--- a/sip/header/Clone.go
+++ b/sip/header/Clone.go
@@ -187,6 +187,8 @@ func (this *CallInfoList) Clone() interface{} {
 
 func (this *Contact) Clone() interface{} {
 	retval := *this
+	// The copy stands in no list of contacts yet.
+	retval.contactList = NewContactList()
 	retval.parameters = this.cloneParameters()
 	retval.addr = cloneAddress(this.addr)
 	return &retval
-- 
2.43.0

