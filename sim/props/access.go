package props

import (
	"net"

	"github.com/use-go/gosips/core"
	"github.com/use-go/gosips/sip/address"
	"github.com/use-go/gosips/sip/header"
	"github.com/use-go/gosips/sip/message"
)

// Written by tools/gen_access.py.

// readFlat reports the value of every accessor of o that yields a plain value.
func readFlat(o interface{}, arg string, out func(name, val string)) {
	if x, ok := o.(interface{ Encode() []byte }); ok {
		out("Encode", string(x.Encode()))
	}
	if x, ok := o.(interface{ EncodeAsBytes() []byte }); ok {
		out("EncodeAsBytes", string(x.EncodeAsBytes()))
	}
	if x, ok := o.(interface{ GetAPPData() []byte }); ok {
		out("GetAPPData", string(x.GetAPPData()))
	}
	if x, ok := o.(interface{ GetData() []byte }); ok {
		out("GetData", string(x.GetData()))
	}
	if x, ok := o.(interface{ GetName() []byte }); ok {
		out("GetName", string(x.GetName()))
	}
	if x, ok := o.(interface{ GetPacket() []byte }); ok {
		out("GetPacket", string(x.GetPacket()))
	}
	if x, ok := o.(interface{ GetPacketData() []byte }); ok {
		out("GetPacketData", string(x.GetPacketData()))
	}
	if x, ok := o.(interface{ GetPayload() []byte }); ok {
		out("GetPayload", string(x.GetPayload()))
	}
	if x, ok := o.(interface{ GetReasonData() []byte }); ok {
		out("GetReasonData", string(x.GetReasonData()))
	}
	if x, ok := o.(interface{ GetWildCardFlag() bool }); ok {
		out("GetWildCardFlag", bstr(x.GetWildCardFlag()))
	}
	if x, ok := o.(interface{ HasComment() bool }); ok {
		out("HasComment", bstr(x.HasComment()))
	}
	if x, ok := o.(interface{ HasContent() bool }); ok {
		out("HasContent", bstr(x.HasContent()))
	}
	if x, ok := o.(interface{ HasDelay() bool }); ok {
		out("HasDelay", bstr(x.HasDelay()))
	}
	if x, ok := o.(interface{ HasDisplayName() bool }); ok {
		out("HasDisplayName", bstr(x.HasDisplayName()))
	}
	if x, ok := o.(interface{ HasExtension() bool }); ok {
		out("HasExtension", bstr(x.HasExtension()))
	}
	if x, ok := o.(interface{ HasFromTag() bool }); ok {
		out("HasFromTag", bstr(x.HasFromTag()))
	}
	if x, ok := o.(interface{ HasIsdnSubaddress() bool }); ok {
		out("HasIsdnSubaddress", bstr(x.HasIsdnSubaddress()))
	}
	if x, ok := o.(interface{ HasLrParam() bool }); ok {
		out("HasLrParam", bstr(x.HasLrParam()))
	}
	if x, ok := o.(interface{ HasMarker() bool }); ok {
		out("HasMarker", bstr(x.HasMarker()))
	}
	if x, ok := o.(interface{ HasMoreChars() bool }); ok {
		out("HasMoreChars", bstr(x.HasMoreChars()))
	}
	if x, ok := o.(interface{ HasParameters() bool }); ok {
		out("HasParameters", bstr(x.HasParameters()))
	}
	if x, ok := o.(interface{ HasPort() bool }); ok {
		out("HasPort", bstr(x.HasPort()))
	}
	if x, ok := o.(interface{ HasPostDial() bool }); ok {
		out("HasPostDial", bstr(x.HasPostDial()))
	}
	if x, ok := o.(interface{ HasQValue() bool }); ok {
		out("HasQValue", bstr(x.HasQValue()))
	}
	if x, ok := o.(interface{ HasReachedZero() bool }); ok {
		out("HasReachedZero", bstr(x.HasReachedZero()))
	}
	if x, ok := o.(interface{ HasReasonForLeaving() bool }); ok {
		out("HasReasonForLeaving", bstr(x.HasReasonForLeaving()))
	}
	if x, ok := o.(interface{ HasTag() bool }); ok {
		out("HasTag", bstr(x.HasTag()))
	}
	if x, ok := o.(interface{ HasToTag() bool }); ok {
		out("HasToTag", bstr(x.HasToTag()))
	}
	if x, ok := o.(interface{ HasTransport() bool }); ok {
		out("HasTransport", bstr(x.HasTransport()))
	}
	if x, ok := o.(interface{ IsFinalResponse() bool }); ok {
		out("IsFinalResponse", bstr(x.IsFinalResponse()))
	}
	if x, ok := o.(interface{ IsGlobal() bool }); ok {
		out("IsGlobal", bstr(x.IsGlobal()))
	}
	if x, ok := o.(interface{ IsHeaderList() bool }); ok {
		out("IsHeaderList", bstr(x.IsHeaderList()))
	}
	if x, ok := o.(interface{ IsHostName() bool }); ok {
		out("IsHostName", bstr(x.IsHostName()))
	}
	if x, ok := o.(interface{ IsIPAddress() bool }); ok {
		out("IsIPAddress", bstr(x.IsIPAddress()))
	}
	if x, ok := o.(interface{ IsKnownFormat() bool }); ok {
		out("IsKnownFormat", bstr(x.IsKnownFormat()))
	}
	if x, ok := o.(interface{ IsRTP() bool }); ok {
		out("IsRTP", bstr(x.IsRTP()))
	}
	if x, ok := o.(interface{ IsSIPAddress() bool }); ok {
		out("IsSIPAddress", bstr(x.IsSIPAddress()))
	}
	if x, ok := o.(interface{ IsSecure() bool }); ok {
		out("IsSecure", bstr(x.IsSecure()))
	}
	if x, ok := o.(interface{ IsSipURI() bool }); ok {
		out("IsSipURI", bstr(x.IsSipURI()))
	}
	if x, ok := o.(interface{ IsStale() bool }); ok {
		out("IsStale", bstr(x.IsStale()))
	}
	if x, ok := o.(interface{ IsUserTelephoneSubscriber() bool }); ok {
		out("IsUserTelephoneSubscriber", bstr(x.IsUserTelephoneSubscriber()))
	}
	if x, ok := o.(interface{ IsValueQuoted() bool }); ok {
		out("IsValueQuoted", bstr(x.IsValueQuoted()))
	}
	if x, ok := o.(interface{ IsWildcard() bool }); ok {
		out("IsWildcard", bstr(x.IsWildcard()))
	}
	if x, ok := o.(interface{ GetDelay() float32 }); ok {
		out("GetDelay", fstr(float64(x.GetDelay())))
	}
	if x, ok := o.(interface{ GetQValue() float32 }); ok {
		out("GetQValue", fstr(float64(x.GetQValue())))
	}
	if x, ok := o.(interface{ GetTimeStamp() float32 }); ok {
		out("GetTimeStamp", fstr(float64(x.GetTimeStamp())))
	}
	if x, ok := o.(interface{ GetRandomDouble() float64 }); ok {
		out("GetRandomDouble", fstr(x.GetRandomDouble()))
	}
	if x, ok := o.(interface{ GetAPPDataLength() int }); ok {
		out("GetAPPDataLength", istr(x.GetAPPDataLength()))
	}
	if x, ok := o.(interface{ GetAddressType() int }); ok {
		out("GetAddressType", istr(x.GetAddressType()))
	}
	if x, ok := o.(interface{ GetCSeqNumber() int }); ok {
		out("GetCSeqNumber", istr(x.GetCSeqNumber()))
	}
	if x, ok := o.(interface{ GetCause() int }); ok {
		out("GetCause", istr(x.GetCause()))
	}
	if x, ok := o.(interface{ GetCode() int }); ok {
		out("GetCode", istr(x.GetCode()))
	}
	if x, ok := o.(interface{ GetContentLength() int }); ok {
		out("GetContentLength", istr(x.GetContentLength()))
	}
	if x, ok := o.(interface{ GetDataLength() int }); ok {
		out("GetDataLength", istr(x.GetDataLength()))
	}
	if x, ok := o.(interface{ GetDuration() int }); ok {
		out("GetDuration", istr(x.GetDuration()))
	}
	if x, ok := o.(interface{ GetExpires() int }); ok {
		out("GetExpires", istr(x.GetExpires()))
	}
	if x, ok := o.(interface{ GetMajorVersion() int }); ok {
		out("GetMajorVersion", istr(x.GetMajorVersion()))
	}
	if x, ok := o.(interface{ GetMaxForwards() int }); ok {
		out("GetMaxForwards", istr(x.GetMaxForwards()))
	}
	if x, ok := o.(interface{ GetMinorVersion() int }); ok {
		out("GetMinorVersion", istr(x.GetMinorVersion()))
	}
	if x, ok := o.(interface{ GetNonceCount() int }); ok {
		out("GetNonceCount", istr(x.GetNonceCount()))
	}
	if x, ok := o.(interface{ GetPacketLength() int }); ok {
		out("GetPacketLength", istr(x.GetPacketLength()))
	}
	if x, ok := o.(interface{ GetPort() int }); ok {
		out("GetPort", istr(x.GetPort()))
	}
	if x, ok := o.(interface{ GetPtr() int }); ok {
		out("GetPtr", istr(x.GetPtr()))
	}
	if x, ok := o.(interface{ GetRSeqNumber() int }); ok {
		out("GetRSeqNumber", istr(x.GetRSeqNumber()))
	}
	if x, ok := o.(interface{ GetRTCPReceiveBuffer() int }); ok {
		out("GetRTCPReceiveBuffer", istr(x.GetRTCPReceiveBuffer()))
	}
	if x, ok := o.(interface{ GetRTCPSendBuffer() int }); ok {
		out("GetRTCPSendBuffer", istr(x.GetRTCPSendBuffer()))
	}
	if x, ok := o.(interface{ GetRTCPSocket() int }); ok {
		out("GetRTCPSocket", istr(x.GetRTCPSocket()))
	}
	if x, ok := o.(interface{ GetRTPReceiveBuffer() int }); ok {
		out("GetRTPReceiveBuffer", istr(x.GetRTPReceiveBuffer()))
	}
	if x, ok := o.(interface{ GetRTPSendBuffer() int }); ok {
		out("GetRTPSendBuffer", istr(x.GetRTPSendBuffer()))
	}
	if x, ok := o.(interface{ GetRTPSocket() int }); ok {
		out("GetRTPSocket", istr(x.GetRTPSocket()))
	}
	if x, ok := o.(interface{ GetReasonLength() int }); ok {
		out("GetReasonLength", istr(x.GetReasonLength()))
	}
	if x, ok := o.(interface{ GetRetryAfter() int }); ok {
		out("GetRetryAfter", istr(x.GetRetryAfter()))
	}
	if x, ok := o.(interface{ GetSSRCCount() int }); ok {
		out("GetSSRCCount", istr(x.GetSSRCCount()))
	}
	if x, ok := o.(interface{ GetSequenceNumber() int }); ok {
		out("GetSequenceNumber", istr(x.GetSequenceNumber()))
	}
	if x, ok := o.(interface{ GetStatusCode() int }); ok {
		out("GetStatusCode", istr(x.GetStatusCode()))
	}
	if x, ok := o.(interface{ GetTTL() int }); ok {
		out("GetTTL", istr(x.GetTTL()))
	}
	if x, ok := o.(interface{ GetTTLParam() int }); ok {
		out("GetTTLParam", istr(x.GetTTLParam()))
	}
	if x, ok := o.(interface{ GetTokenType() int }); ok {
		out("GetTokenType", istr(x.GetTokenType()))
	}
	if x, ok := o.(interface{ GetTraceLevel() int }); ok {
		out("GetTraceLevel", istr(x.GetTraceLevel()))
	}
	if x, ok := o.(interface{ GetUserType() int }); ok {
		out("GetUserType", istr(x.GetUserType()))
	}
	if x, ok := o.(interface{ GetViaPort() int }); ok {
		out("GetViaPort", istr(x.GetViaPort()))
	}
	if x, ok := o.(interface{ HashCode() int }); ok {
		out("HashCode", istr(x.HashCode()))
	}
	if x, ok := o.(interface{ GetBindIP() net.IP }); ok {
		out("GetBindIP", string(x.GetBindIP()))
	}
	if x, ok := o.(interface{ GetIP() net.IP }); ok {
		out("GetIP", string(x.GetIP()))
	}
	if x, ok := o.(interface{ GetInetAddress() net.IP }); ok {
		out("GetInetAddress", string(x.GetInetAddress()))
	}
	if x, ok := o.(interface{ EncodeBody() string }); ok {
		out("EncodeBody", x.EncodeBody())
	}
	if x, ok := o.(interface{ EncodeProduct() string }); ok {
		out("EncodeProduct", x.EncodeProduct())
	}
	if x, ok := o.(interface{ GetAcceptLanguage() string }); ok {
		out("GetAcceptLanguage", x.GetAcceptLanguage())
	}
	if x, ok := o.(interface{ GetAddress() string }); ok {
		out("GetAddress", x.GetAddress())
	}
	if x, ok := o.(interface{ GetAgent() string }); ok {
		out("GetAgent", x.GetAgent())
	}
	if x, ok := o.(interface{ GetAlgorithm() string }); ok {
		out("GetAlgorithm", x.GetAlgorithm())
	}
	if x, ok := o.(interface{ GetAuthenticationInfo() string }); ok {
		out("GetAuthenticationInfo", x.GetAuthenticationInfo())
	}
	if x, ok := o.(interface{ GetBranch() string }); ok {
		out("GetBranch", x.GetBranch())
	}
	if x, ok := o.(interface{ GetBuffer() string }); ok {
		out("GetBuffer", x.GetBuffer())
	}
	if x, ok := o.(interface{ GetCNonce() string }); ok {
		out("GetCNonce", x.GetCNonce())
	}
	if x, ok := o.(interface{ GetCallId() string }); ok {
		out("GetCallId", x.GetCallId())
	}
	if x, ok := o.(interface{ GetCallIdentifier() string }); ok {
		out("GetCallIdentifier", x.GetCallIdentifier())
	}
	if x, ok := o.(interface{ GetCharSet() string }); ok {
		out("GetCharSet", x.GetCharSet())
	}
	if x, ok := o.(interface{ GetComment() string }); ok {
		out("GetComment", x.GetComment())
	}
	if x, ok := o.(interface{ GetContent() string }); ok {
		out("GetContent", x.GetContent())
	}
	if x, ok := o.(interface{ GetContentDisposition() string }); ok {
		out("GetContentDisposition", x.GetContentDisposition())
	}
	if x, ok := o.(interface{ GetContentLanguage() string }); ok {
		out("GetContentLanguage", x.GetContentLanguage())
	}
	if x, ok := o.(interface{ GetContentSubType() string }); ok {
		out("GetContentSubType", x.GetContentSubType())
	}
	if x, ok := o.(interface{ GetContentType() string }); ok {
		out("GetContentType", x.GetContentType())
	}
	if x, ok := o.(interface{ GetDisplayName() string }); ok {
		out("GetDisplayName", x.GetDisplayName())
	}
	if x, ok := o.(interface{ GetDispositionType() string }); ok {
		out("GetDispositionType", x.GetDispositionType())
	}
	if x, ok := o.(interface{ GetDomain() string }); ok {
		out("GetDomain", x.GetDomain())
	}
	if x, ok := o.(interface{ GetEncoding() string }); ok {
		out("GetEncoding", x.GetEncoding())
	}
	if x, ok := o.(interface{ GetErrorMessage() string }); ok {
		out("GetErrorMessage", x.GetErrorMessage())
	}
	if x, ok := o.(interface{ GetEventId() string }); ok {
		out("GetEventId", x.GetEventId())
	}
	if x, ok := o.(interface{ GetEventType() string }); ok {
		out("GetEventType", x.GetEventType())
	}
	if x, ok := o.(interface{ GetFirstLine() string }); ok {
		out("GetFirstLine", x.GetFirstLine())
	}
	if x, ok := o.(interface{ GetFromTag() string }); ok {
		out("GetFromTag", x.GetFromTag())
	}
	if x, ok := o.(interface{ GetHandling() string }); ok {
		out("GetHandling", x.GetHandling())
	}
	if x, ok := o.(interface{ GetHeaderName() string }); ok {
		out("GetHeaderName", x.GetHeaderName())
	}
	if x, ok := o.(interface{ GetHeaderValue() string }); ok {
		out("GetHeaderValue", x.GetHeaderValue())
	}
	if x, ok := o.(interface{ GetHost() string }); ok {
		out("GetHost", x.GetHost())
	}
	if x, ok := o.(interface{ GetHostName() string }); ok {
		out("GetHostName", x.GetHostName())
	}
	if x, ok := o.(interface{ GetIndentation() string }); ok {
		out("GetIndentation", x.GetIndentation())
	}
	if x, ok := o.(interface{ GetIpAddress() string }); ok {
		out("GetIpAddress", x.GetIpAddress())
	}
	if x, ok := o.(interface{ GetIsdnSubAddress() string }); ok {
		out("GetIsdnSubAddress", x.GetIsdnSubAddress())
	}
	if x, ok := o.(interface{ GetIsdnSubaddress() string }); ok {
		out("GetIsdnSubaddress", x.GetIsdnSubaddress())
	}
	if x, ok := o.(interface{ GetLanguageRange() string }); ok {
		out("GetLanguageRange", x.GetLanguageRange())
	}
	if x, ok := o.(interface{ GetLanguageTag() string }); ok {
		out("GetLanguageTag", x.GetLanguageTag())
	}
	if x, ok := o.(interface{ GetLexerName() string }); ok {
		out("GetLexerName", x.GetLexerName())
	}
	if x, ok := o.(interface{ GetLine() string }); ok {
		out("GetLine", x.GetLine())
	}
	if x, ok := o.(interface{ GetLocalId() string }); ok {
		out("GetLocalId", x.GetLocalId())
	}
	if x, ok := o.(interface{ GetLrParam() string }); ok {
		out("GetLrParam", x.GetLrParam())
	}
	if x, ok := o.(interface{ GetMAddr() string }); ok {
		out("GetMAddr", x.GetMAddr())
	}
	if x, ok := o.(interface{ GetMAddrParam() string }); ok {
		out("GetMAddrParam", x.GetMAddrParam())
	}
	if x, ok := o.(interface{ GetMediaSubType() string }); ok {
		out("GetMediaSubType", x.GetMediaSubType())
	}
	if x, ok := o.(interface{ GetMediaType() string }); ok {
		out("GetMediaType", x.GetMediaType())
	}
	if x, ok := o.(interface{ GetMessageContent() string }); ok {
		out("GetMessageContent", x.GetMessageContent())
	}
	if x, ok := o.(interface{ GetMethod() string }); ok {
		out("GetMethod", x.GetMethod())
	}
	if x, ok := o.(interface{ GetMethodParam() string }); ok {
		out("GetMethodParam", x.GetMethodParam())
	}
	if x, ok := o.(interface{ GetName() string }); ok {
		out("GetName", x.GetName())
	}
	if x, ok := o.(interface{ GetNextId() string }); ok {
		out("GetNextId", x.GetNextId())
	}
	if x, ok := o.(interface{ GetNextNonce() string }); ok {
		out("GetNextNonce", x.GetNextNonce())
	}
	if x, ok := o.(interface{ GetNonce() string }); ok {
		out("GetNonce", x.GetNonce())
	}
	if x, ok := o.(interface{ GetOpaque() string }); ok {
		out("GetOpaque", x.GetOpaque())
	}
	if x, ok := o.(interface{ GetOptionTag() string }); ok {
		out("GetOptionTag", x.GetOptionTag())
	}
	if x, ok := o.(interface{ GetOrganization() string }); ok {
		out("GetOrganization", x.GetOrganization())
	}
	if x, ok := o.(interface{ GetPassword() string }); ok {
		out("GetPassword", x.GetPassword())
	}
	if x, ok := o.(interface{ GetPhoneNumber() string }); ok {
		out("GetPhoneNumber", x.GetPhoneNumber())
	}
	if x, ok := o.(interface{ GetPostDial() string }); ok {
		out("GetPostDial", x.GetPostDial())
	}
	if x, ok := o.(interface{ GetPriority() string }); ok {
		out("GetPriority", x.GetPriority())
	}
	if x, ok := o.(interface{ GetProtocol() string }); ok {
		out("GetProtocol", x.GetProtocol())
	}
	if x, ok := o.(interface{ GetProtocolName() string }); ok {
		out("GetProtocolName", x.GetProtocolName())
	}
	if x, ok := o.(interface{ GetProtocolVersion() string }); ok {
		out("GetProtocolVersion", x.GetProtocolVersion())
	}
	if x, ok := o.(interface{ GetPurpose() string }); ok {
		out("GetPurpose", x.GetPurpose())
	}
	if x, ok := o.(interface{ GetQOP() string }); ok {
		out("GetQOP", x.GetQOP())
	}
	if x, ok := o.(interface{ GetQop() string }); ok {
		out("GetQop", x.GetQop())
	}
	if x, ok := o.(interface{ GetRealm() string }); ok {
		out("GetRealm", x.GetRealm())
	}
	if x, ok := o.(interface{ GetReasonCode() string }); ok {
		out("GetReasonCode", x.GetReasonCode())
	}
	if x, ok := o.(interface{ GetReasonPhrase() string }); ok {
		out("GetReasonPhrase", x.GetReasonPhrase())
	}
	if x, ok := o.(interface{ GetReceived() string }); ok {
		out("GetReceived", x.GetReceived())
	}
	if x, ok := o.(interface{ GetResponse() string }); ok {
		out("GetResponse", x.GetResponse())
	}
	if x, ok := o.(interface{ GetRest() string }); ok {
		out("GetRest", x.GetRest())
	}
	if x, ok := o.(interface{ GetSIPVersion() string }); ok {
		out("GetSIPVersion", x.GetSIPVersion())
	}
	if x, ok := o.(interface{ GetScheme() string }); ok {
		out("GetScheme", x.GetScheme())
	}
	if x, ok := o.(interface{ GetSignature() string }); ok {
		out("GetSignature", x.GetSignature())
	}
	if x, ok := o.(interface{ GetSignedBy() string }); ok {
		out("GetSignedBy", x.GetSignedBy())
	}
	if x, ok := o.(interface{ GetSipVersion() string }); ok {
		out("GetSipVersion", x.GetSipVersion())
	}
	if x, ok := o.(interface{ GetStale() string }); ok {
		out("GetStale", x.GetStale())
	}
	if x, ok := o.(interface{ GetState() string }); ok {
		out("GetState", x.GetState())
	}
	if x, ok := o.(interface{ GetSubject() string }); ok {
		out("GetSubject", x.GetSubject())
	}
	if x, ok := o.(interface{ GetSubtype() string }); ok {
		out("GetSubtype", x.GetSubtype())
	}
	if x, ok := o.(interface{ GetTag() string }); ok {
		out("GetTag", x.GetTag())
	}
	if x, ok := o.(interface{ GetText() string }); ok {
		out("GetText", x.GetText())
	}
	if x, ok := o.(interface{ GetToTag() string }); ok {
		out("GetToTag", x.GetToTag())
	}
	if x, ok := o.(interface{ GetTokenValue() string }); ok {
		out("GetTokenValue", x.GetTokenValue())
	}
	if x, ok := o.(interface{ GetTransactionId() string }); ok {
		out("GetTransactionId", x.GetTransactionId())
	}
	if x, ok := o.(interface{ GetTransport() string }); ok {
		out("GetTransport", x.GetTransport())
	}
	if x, ok := o.(interface{ GetTransportParam() string }); ok {
		out("GetTransportParam", x.GetTransportParam())
	}
	if x, ok := o.(interface{ GetType() string }); ok {
		out("GetType", x.GetType())
	}
	if x, ok := o.(interface{ GetURI() string }); ok {
		out("GetURI", x.GetURI())
	}
	if x, ok := o.(interface{ GetUser() string }); ok {
		out("GetUser", x.GetUser())
	}
	if x, ok := o.(interface{ GetUserAtHost() string }); ok {
		out("GetUserAtHost", x.GetUserAtHost())
	}
	if x, ok := o.(interface{ GetUserAtHostPort() string }); ok {
		out("GetUserAtHostPort", x.GetUserAtHostPort())
	}
	if x, ok := o.(interface{ GetUserParam() string }); ok {
		out("GetUserParam", x.GetUserParam())
	}
	if x, ok := o.(interface{ GetUserPassword() string }); ok {
		out("GetUserPassword", x.GetUserPassword())
	}
	if x, ok := o.(interface{ GetUserType() string }); ok {
		out("GetUserType", x.GetUserType())
	}
	if x, ok := o.(interface{ GetUsername() string }); ok {
		out("GetUsername", x.GetUsername())
	}
	if x, ok := o.(interface{ GetValue() string }); ok {
		out("GetValue", x.GetValue())
	}
	if x, ok := o.(interface{ GetVersionMajor() string }); ok {
		out("GetVersionMajor", x.GetVersionMajor())
	}
	if x, ok := o.(interface{ GetVersionMinor() string }); ok {
		out("GetVersionMinor", x.GetVersionMinor())
	}
	if x, ok := o.(interface{ GetViaHost() string }); ok {
		out("GetViaHost", x.GetViaHost())
	}
	if x, ok := o.(interface{ String() string }); ok {
		out("String", x.String())
	}
	if x, ok := o.(interface{ GetExtensionID() uint16 }); ok {
		out("GetExtensionID", istr(int(x.GetExtensionID())))
	}
	if x, ok := o.(interface{ GetExtensionLength() uint16 }); ok {
		out("GetExtensionLength", istr(int(x.GetExtensionLength())))
	}
	if x, ok := o.(interface{ GetPort() uint16 }); ok {
		out("GetPort", istr(int(x.GetPort())))
	}
	if x, ok := o.(interface{ GetPortbase() uint16 }); ok {
		out("GetPortbase", istr(int(x.GetPortbase())))
	}
	if x, ok := o.(interface{ GetRandom16() uint16 }); ok {
		out("GetRandom16", istr(int(x.GetRandom16())))
	}
	if x, ok := o.(interface{ GetSequenceNumber() uint16 }); ok {
		out("GetSequenceNumber", istr(int(x.GetSequenceNumber())))
	}
	if x, ok := o.(interface{ GetLSW() uint32 }); ok {
		out("GetLSW", istr(int(x.GetLSW())))
	}
	if x, ok := o.(interface{ GetMSW() uint32 }); ok {
		out("GetMSW", istr(int(x.GetMSW())))
	}
	if x, ok := o.(interface{ GetMulticastInterfaceIndex() uint32 }); ok {
		out("GetMulticastInterfaceIndex", istr(int(x.GetMulticastInterfaceIndex())))
	}
	if x, ok := o.(interface{ GetRandom32() uint32 }); ok {
		out("GetRandom32", istr(int(x.GetRandom32())))
	}
	if x, ok := o.(interface{ GetSSRC() uint32 }); ok {
		out("GetSSRC", istr(int(x.GetSSRC())))
	}
	if x, ok := o.(interface{ GetTimestamp() uint32 }); ok {
		out("GetTimestamp", istr(int(x.GetTimestamp())))
	}
	if x, ok := o.(interface{ GetCSRCCount() uint8 }); ok {
		out("GetCSRCCount", istr(int(x.GetCSRCCount())))
	}
	if x, ok := o.(interface{ GetMulticastTTL() uint8 }); ok {
		out("GetMulticastTTL", istr(int(x.GetMulticastTTL())))
	}
	if x, ok := o.(interface{ GetPayloadType() uint8 }); ok {
		out("GetPayloadType", istr(int(x.GetPayloadType())))
	}
	if x, ok := o.(interface{ GetRandom8() uint8 }); ok {
		out("GetRandom8", istr(int(x.GetRandom8())))
	}
	if x, ok := o.(interface{ GetSubType() uint8 }); ok {
		out("GetSubType", istr(int(x.GetSubType())))
	}
	if x, ok := o.(interface{ HasHeader(string) bool }); ok {
		out("HasHeader", bstr(x.HasHeader(arg)))
	}
	if x, ok := o.(interface{ HasNameValue(string) bool }); ok {
		out("HasNameValue", bstr(x.HasNameValue(arg)))
	}
	if x, ok := o.(interface{ HasParameter(string) bool }); ok {
		out("HasParameter", bstr(x.HasParameter(arg)))
	}
	if x, ok := o.(interface{ HasParm(string) bool }); ok {
		out("HasParm", bstr(x.HasParm(arg)))
	}
	if x, ok := o.(interface{ GetHeader(string) string }); ok {
		out("GetHeader", x.GetHeader(arg))
	}
	if x, ok := o.(interface{ GetParameter(string) string }); ok {
		out("GetParameter", x.GetParameter(arg))
	}
	if x, ok := o.(interface{ GetParameterValue(string) string }); ok {
		out("GetParameterValue", x.GetParameterValue(arg))
	}
	if x, ok := o.(interface{ GetSDPFieldName(string) string }); ok {
		out("GetSDPFieldName", x.GetSDPFieldName(arg))
	}
}

// readKids reports the objects the accessors of o yield.
func readKids(o interface{}, out func(name string, v interface{})) {
	if x, ok := o.(interface{ GetAddress() address.Address }); ok {
		if v := x.GetAddress(); v != nil {
			out("GetAddress", v)
		}
	}
	if x, ok := o.(interface{ GetAlertInfo() address.URI }); ok {
		if v := x.GetAlertInfo(); v != nil {
			out("GetAlertInfo", v)
		}
	}
	if x, ok := o.(interface{ GetAuthParams() *core.NameValueList }); ok {
		if v := x.GetAuthParams(); v != nil {
			out("GetAuthParams", v)
		}
	}
	if x, ok := o.(interface{ GetAuthority() *address.Authority }); ok {
		if v := x.GetAuthority(); v != nil {
			out("GetAuthority", v)
		}
	}
	if x, ok := o.(interface{ GetAuthorization() *header.Authorization }); ok {
		if v := x.GetAuthorization(); v != nil {
			out("GetAuthorization", v)
		}
	}
	if x, ok := o.(interface{ GetCSeq() header.CSeqHeader }); ok {
		if v := x.GetCSeq(); v != nil {
			out("GetCSeq", v)
		}
	}
	if x, ok := o.(interface{ GetCallId() header.CallIdHeader }); ok {
		if v := x.GetCallId(); v != nil {
			out("GetCallId", v)
		}
	}
	if x, ok := o.(interface{ GetCallIdentifer() *header.CallIdentifier }); ok {
		if v := x.GetCallIdentifer(); v != nil {
			out("GetCallIdentifer", v)
		}
	}
	if x, ok := o.(interface{ GetContactHeaders() *header.ContactList }); ok {
		if v := x.GetContactHeaders(); v != nil {
			out("GetContactHeaders", v)
		}
	}
	if x, ok := o.(interface{ GetContactList() *header.ContactList }); ok {
		if v := x.GetContactList(); v != nil {
			out("GetContactList", v)
		}
	}
	if x, ok := o.(interface{ GetContactParms() *core.NameValueList }); ok {
		if v := x.GetContactParms(); v != nil {
			out("GetContactParms", v)
		}
	}
	if x, ok := o.(interface {
		GetContentDisposition() header.ContentDispositionHeader
	}); ok {
		if v := x.GetContentDisposition(); v != nil {
			out("GetContentDisposition", v)
		}
	}
	if x, ok := o.(interface {
		GetContentEncoding() header.ContentEncodingHeader
	}); ok {
		if v := x.GetContentEncoding(); v != nil {
			out("GetContentEncoding", v)
		}
	}
	if x, ok := o.(interface {
		GetContentLanguage() header.ContentLanguageHeader
	}); ok {
		if v := x.GetContentLanguage(); v != nil {
			out("GetContentLanguage", v)
		}
	}
	if x, ok := o.(interface {
		GetContentLength() header.ContentLengthHeader
	}); ok {
		if v := x.GetContentLength(); v != nil {
			out("GetContentLength", v)
		}
	}
	if x, ok := o.(interface {
		GetContentTypeHeader() header.ContentTypeHeader
	}); ok {
		if v := x.GetContentTypeHeader(); v != nil {
			out("GetContentTypeHeader", v)
		}
	}
	if x, ok := o.(interface{ GetErrorInfo() address.URI }); ok {
		if v := x.GetErrorInfo(); v != nil {
			out("GetErrorInfo", v)
		}
	}
	if x, ok := o.(interface{ GetErrorInfoHeaders() *header.ErrorInfoList }); ok {
		if v := x.GetErrorInfoHeaders(); v != nil {
			out("GetErrorInfoHeaders", v)
		}
	}
	if x, ok := o.(interface{ GetExpires() header.ExpiresHeader }); ok {
		if v := x.GetExpires(); v != nil {
			out("GetExpires", v)
		}
	}
	if x, ok := o.(interface{ GetFirst() header.Header }); ok {
		if v := x.GetFirst(); v != nil {
			out("GetFirst", v)
		}
	}
	if x, ok := o.(interface{ GetFrom() header.FromHeader }); ok {
		if v := x.GetFrom(); v != nil {
			out("GetFrom", v)
		}
	}
	if x, ok := o.(interface{ GetHost() *core.Host }); ok {
		if v := x.GetHost(); v != nil {
			out("GetHost", v)
		}
	}
	if x, ok := o.(interface{ GetHostPort() *core.HostPort }); ok {
		if v := x.GetHostPort(); v != nil {
			out("GetHostPort", v)
		}
	}
	if x, ok := o.(interface{ GetInfo() address.URI }); ok {
		if v := x.GetInfo(); v != nil {
			out("GetInfo", v)
		}
	}
	if x, ok := o.(interface{ GetLast() header.Header }); ok {
		if v := x.GetLast(); v != nil {
			out("GetLast", v)
		}
	}
	if x, ok := o.(interface{ GetLexer() core.Lexer }); ok {
		if v := x.GetLexer(); v != nil {
			out("GetLexer", v)
		}
	}
	if x, ok := o.(interface{ GetMaddr() *core.Host }); ok {
		if v := x.GetMaddr(); v != nil {
			out("GetMaddr", v)
		}
	}
	if x, ok := o.(interface {
		GetMaxForwards() header.MaxForwardsHeader
	}); ok {
		if v := x.GetMaxForwards(); v != nil {
			out("GetMaxForwards", v)
		}
	}
	if x, ok := o.(interface{ GetMediaRange() *header.MediaRange }); ok {
		if v := x.GetMediaRange(); v != nil {
			out("GetMediaRange", v)
		}
	}
	if x, ok := o.(interface{ GetMinExpires() *header.MinExpires }); ok {
		if v := x.GetMinExpires(); v != nil {
			out("GetMinExpires", v)
		}
	}
	if x, ok := o.(interface{ GetNextToken() *core.Token }); ok {
		if v := x.GetNextToken(); v != nil {
			out("GetNextToken", v)
		}
	}
	if x, ok := o.(interface{ GetOrganizationHeader() *header.Organization }); ok {
		if v := x.GetOrganizationHeader(); v != nil {
			out("GetOrganizationHeader", v)
		}
	}
	if x, ok := o.(interface{ GetParameters() *core.NameValueList }); ok {
		if v := x.GetParameters(); v != nil {
			out("GetParameters", v)
		}
	}
	if x, ok := o.(interface{ GetPriorityHeader() *header.Priority }); ok {
		if v := x.GetPriorityHeader(); v != nil {
			out("GetPriorityHeader", v)
		}
	}
	if x, ok := o.(interface {
		GetProxyAuthorizationHeader() *header.ProxyAuthorization
	}); ok {
		if v := x.GetProxyAuthorizationHeader(); v != nil {
			out("GetProxyAuthorizationHeader", v)
		}
	}
	if x, ok := o.(interface{ GetQheaders() *core.NameValueList }); ok {
		if v := x.GetQheaders(); v != nil {
			out("GetQheaders", v)
		}
	}
	if x, ok := o.(interface {
		GetRecordRouteHeaders() *header.RecordRouteList
	}); ok {
		if v := x.GetRecordRouteHeaders(); v != nil {
			out("GetRecordRouteHeaders", v)
		}
	}
	if x, ok := o.(interface{ GetRequestLine() *header.RequestLine }); ok {
		if v := x.GetRequestLine(); v != nil {
			out("GetRequestLine", v)
		}
	}
	if x, ok := o.(interface{ GetRequestURI() address.URI }); ok {
		if v := x.GetRequestURI(); v != nil {
			out("GetRequestURI", v)
		}
	}
	if x, ok := o.(interface{ GetRouteHeaders() *header.RouteList }); ok {
		if v := x.GetRouteHeaders(); v != nil {
			out("GetRouteHeaders", v)
		}
	}
	if x, ok := o.(interface{ GetSentBy() *core.HostPort }); ok {
		if v := x.GetSentBy(); v != nil {
			out("GetSentBy", v)
		}
	}
	if x, ok := o.(interface{ GetSentProtocol() *header.Protocol }); ok {
		if v := x.GetSentProtocol(); v != nil {
			out("GetSentProtocol", v)
		}
	}
	if x, ok := o.(interface{ GetStatusLine() *header.StatusLine }); ok {
		if v := x.GetStatusLine(); v != nil {
			out("GetStatusLine", v)
		}
	}
	if x, ok := o.(interface {
		GetTelephoneSubscriber() *address.TelephoneNumber
	}); ok {
		if v := x.GetTelephoneSubscriber(); v != nil {
			out("GetTelephoneSubscriber", v)
		}
	}
	if x, ok := o.(interface{ GetTo() header.ToHeader }); ok {
		if v := x.GetTo(); v != nil {
			out("GetTo", v)
		}
	}
	if x, ok := o.(interface{ GetTopmostVia() *header.Via }); ok {
		if v := x.GetTopmostVia(); v != nil {
			out("GetTopmostVia", v)
		}
	}
	if x, ok := o.(interface{ GetURI() address.URI }); ok {
		if v := x.GetURI(); v != nil {
			out("GetURI", v)
		}
	}
	if x, ok := o.(interface{ GetUri() address.URI }); ok {
		if v := x.GetUri(); v != nil {
			out("GetUri", v)
		}
	}
	if x, ok := o.(interface{ GetUriParms() *core.NameValueList }); ok {
		if v := x.GetUriParms(); v != nil {
			out("GetUriParms", v)
		}
	}
	if x, ok := o.(interface{ GetUserInfo() *address.UserInfo }); ok {
		if v := x.GetUserInfo(); v != nil {
			out("GetUserInfo", v)
		}
	}
	if x, ok := o.(interface{ GetViaHeaders() *header.ViaList }); ok {
		if v := x.GetViaHeaders(); v != nil {
			out("GetViaHeaders", v)
		}
	}
	if x, ok := o.(interface{ GetViaParms() *core.NameValueList }); ok {
		if v := x.GetViaParms(); v != nil {
			out("GetViaParms", v)
		}
	}
}

// editsOf lists what changes o, by interface assertion.
func editsOf(o interface{}, s string, n int) (fs []func()) {
	if x, ok := o.(interface{ Add(*core.NameValue) }); ok {
		fs = append(fs, func() { x.Add(core.NewNameValue(s, s)) })
	}
	if x, ok := o.(interface{ AddKeyword(string, int) }); ok {
		fs = append(fs, func() { x.AddKeyword(s, n) })
	}
	if x, ok := o.(interface{ AddNameAndValue(string, interface{}) }); ok {
		fs = append(fs, func() { x.AddNameAndValue(s, s) })
	}
	if x, ok := o.(interface{ AddNameValue(*core.NameValue) }); ok {
		fs = append(fs, func() { x.AddNameValue(core.NewNameValue(s, s)) })
	}
	if x, ok := o.(interface{ AddProductToken(string) }); ok {
		fs = append(fs, func() { x.AddProductToken(s) })
	}
	if x, ok := o.(interface{ AddUnparsed(string) }); ok {
		fs = append(fs, func() { x.AddUnparsed(s) })
	}
	if x, ok := o.(interface{ ClearPassword() }); ok {
		fs = append(fs, func() { x.ClearPassword() })
	}
	if x, ok := o.(interface{ ClearQheaders() }); ok {
		fs = append(fs, func() { x.ClearQheaders() })
	}
	if x, ok := o.(interface{ ClearUriParms() }); ok {
		fs = append(fs, func() { x.ClearUriParms() })
	}
	if x, ok := o.(interface {
		Concatenate(*core.NameValueList, bool)
	}); ok {
		fs = append(fs, func() { x.Concatenate(freshParams(s), n&1 == 0) })
	}
	if x, ok := o.(interface{ DecrementMaxForwards() error }); ok {
		fs = append(fs, func() { x.DecrementMaxForwards() })
	}
	if x, ok := o.(interface{ Delete(string) bool }); ok {
		fs = append(fs, func() { x.Delete(s) })
	}
	if x, ok := o.(interface{ DeleteParm(string) }); ok {
		fs = append(fs, func() { x.DeleteParm(s) })
	}
	if x, ok := o.(interface{ RemoveComment() }); ok {
		fs = append(fs, func() { x.RemoveComment() })
	}
	if x, ok := o.(interface{ RemoveContent() }); ok {
		fs = append(fs, func() { x.RemoveContent() })
	}
	if x, ok := o.(interface{ RemoveDelay() }); ok {
		fs = append(fs, func() { x.RemoveDelay() })
	}
	if x, ok := o.(interface{ RemoveDisplayName() }); ok {
		fs = append(fs, func() { x.RemoveDisplayName() })
	}
	if x, ok := o.(interface{ RemoveDuration() }); ok {
		fs = append(fs, func() { x.RemoveDuration() })
	}
	if x, ok := o.(interface{ RemoveHeader(string) }); ok {
		fs = append(fs, func() { x.RemoveHeader(s) })
	}
	if x, ok := o.(interface{ RemoveHeader2(string, bool) }); ok {
		fs = append(fs, func() { x.RemoveHeader2(s, n&1 == 0) })
	}
	if x, ok := o.(interface{ RemoveHeaders() }); ok {
		fs = append(fs, func() { x.RemoveHeaders() })
	}
	if x, ok := o.(interface{ RemoveIsdnSubaddress() }); ok {
		fs = append(fs, func() { x.RemoveIsdnSubaddress() })
	}
	if x, ok := o.(interface{ RemoveMAddr() }); ok {
		fs = append(fs, func() { x.RemoveMAddr() })
	}
	if x, ok := o.(interface{ RemoveMethod() }); ok {
		fs = append(fs, func() { x.RemoveMethod() })
	}
	if x, ok := o.(interface{ RemoveParameter(string) }); ok {
		fs = append(fs, func() { x.RemoveParameter(s) })
	}
	if x, ok := o.(interface{ RemoveParameter(string) bool }); ok {
		fs = append(fs, func() { x.RemoveParameter(s) })
	}
	if x, ok := o.(interface{ RemoveParameter(string) error }); ok {
		fs = append(fs, func() { x.RemoveParameter(s) })
	}
	if x, ok := o.(interface{ RemoveParameters() }); ok {
		fs = append(fs, func() { x.RemoveParameters() })
	}
	if x, ok := o.(interface{ RemovePort() }); ok {
		fs = append(fs, func() { x.RemovePort() })
	}
	if x, ok := o.(interface{ RemovePostDial() }); ok {
		fs = append(fs, func() { x.RemovePostDial() })
	}
	if x, ok := o.(interface{ RemoveQValue() }); ok {
		fs = append(fs, func() { x.RemoveQValue() })
	}
	if x, ok := o.(interface{ RemoveTTL() }); ok {
		fs = append(fs, func() { x.RemoveTTL() })
	}
	if x, ok := o.(interface{ RemoveTag() }); ok {
		fs = append(fs, func() { x.RemoveTag() })
	}
	if x, ok := o.(interface{ RemoveTransport() }); ok {
		fs = append(fs, func() { x.RemoveTransport() })
	}
	if x, ok := o.(interface{ RemoveUriParms() }); ok {
		fs = append(fs, func() { x.RemoveUriParms() })
	}
	if x, ok := o.(interface{ RemoveUser() }); ok {
		fs = append(fs, func() { x.RemoveUser() })
	}
	if x, ok := o.(interface{ RemoveUserInfo() }); ok {
		fs = append(fs, func() { x.RemoveUserInfo() })
	}
	if x, ok := o.(interface{ RemoveUserType() }); ok {
		fs = append(fs, func() { x.RemoveUserType() })
	}
	if x, ok := o.(interface{ SetAcceptLanguage(string) }); ok {
		fs = append(fs, func() { x.SetAcceptLanguage(s) })
	}
	if x, ok := o.(interface{ SetAddess(address.URI) }); ok {
		fs = append(fs, func() { x.SetAddess(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetAddress(address.Address) }); ok {
		fs = append(fs, func() { x.SetAddress(freshAddr(s)) })
	}
	if x, ok := o.(interface{ SetAddress(string) }); ok {
		fs = append(fs, func() { x.SetAddress(s) })
	}
	if x, ok := o.(interface{ SetAddressType(int) }); ok {
		fs = append(fs, func() { x.SetAddressType(n) })
	}
	if x, ok := o.(interface{ SetAlertInfo(address.URI) }); ok {
		fs = append(fs, func() { x.SetAlertInfo(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetAuthParams(*core.NameValueList) }); ok {
		fs = append(fs, func() { x.SetAuthParams(freshParams(s)) })
	}
	if x, ok := o.(interface{ SetAuthority(*address.Authority) }); ok {
		fs = append(fs, func() { x.SetAuthority(address.NewAuthority()) })
	}
	if x, ok := o.(interface{ SetCallIdFromString(string) }); ok {
		fs = append(fs, func() { x.SetCallIdFromString(s) })
	}
	if x, ok := o.(interface{ SetComment(string) }); ok {
		fs = append(fs, func() { x.SetComment(s) })
	}
	if x, ok := o.(interface{ SetContentLanguage(string) }); ok {
		fs = append(fs, func() { x.SetContentLanguage(s) })
	}
	if x, ok := o.(interface{ SetContentLength(int) error }); ok {
		fs = append(fs, func() { x.SetContentLength(n) })
	}
	if x, ok := o.(interface{ SetContentSubType(string) }); ok {
		fs = append(fs, func() { x.SetContentSubType(s) })
	}
	if x, ok := o.(interface{ SetContentType(string) }); ok {
		fs = append(fs, func() { x.SetContentType(s) })
	}
	if x, ok := o.(interface{ SetContentTypeSubType(string, string) }); ok {
		fs = append(fs, func() { x.SetContentTypeSubType(s, s) })
	}
	if x, ok := o.(interface{ SetDefaultParm(string, interface{}) }); ok {
		fs = append(fs, func() { x.SetDefaultParm(s, s) })
	}
	if x, ok := o.(interface{ SetDefaults() }); ok {
		fs = append(fs, func() { x.SetDefaults() })
	}
	if x, ok := o.(interface{ SetDisplayName(string) }); ok {
		fs = append(fs, func() { x.SetDisplayName(s) })
	}
	if x, ok := o.(interface{ SetErrorInfo(address.URI) }); ok {
		fs = append(fs, func() { x.SetErrorInfo(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetFromTag(string) }); ok {
		fs = append(fs, func() { x.SetFromTag(s) })
	}
	if x, ok := o.(interface{ SetGlobal(bool) }); ok {
		fs = append(fs, func() { x.SetGlobal(n&1 == 0) })
	}
	if x, ok := o.(interface{ SetHeader(string, string) }); ok {
		fs = append(fs, func() { x.SetHeader(s, s) })
	}
	if x, ok := o.(interface{ SetHeaderName(string) }); ok {
		fs = append(fs, func() { x.SetHeaderName(s) })
	}
	if x, ok := o.(interface{ SetHost(*core.Host) }); ok {
		fs = append(fs, func() { x.SetHost(core.NewHost("h.example")) })
	}
	if x, ok := o.(interface{ SetHost(string) }); ok {
		fs = append(fs, func() { x.SetHost(s) })
	}
	if x, ok := o.(interface{ SetHostAddress(string) }); ok {
		fs = append(fs, func() { x.SetHostAddress(s) })
	}
	if x, ok := o.(interface{ SetHostName(string) }); ok {
		fs = append(fs, func() { x.SetHostName(s) })
	}
	if x, ok := o.(interface{ SetHostPort(*core.HostPort) }); ok {
		fs = append(fs, func() { x.SetHostPort(freshHostPort()) })
	}
	if x, ok := o.(interface{ SetHostString(string) }); ok {
		fs = append(fs, func() { x.SetHostString(s) })
	}
	if x, ok := o.(interface{ SetInfo(address.URI) }); ok {
		fs = append(fs, func() { x.SetInfo(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetIsdnSubAddress(string) }); ok {
		fs = append(fs, func() { x.SetIsdnSubAddress(s) })
	}
	if x, ok := o.(interface{ SetIsdnSubaddress(string) }); ok {
		fs = append(fs, func() { x.SetIsdnSubaddress(s) })
	}
	if x, ok := o.(interface{ SetLanguageRange(string) }); ok {
		fs = append(fs, func() { x.SetLanguageRange(s) })
	}
	if x, ok := o.(interface{ SetLanguageTag(string) }); ok {
		fs = append(fs, func() { x.SetLanguageTag(s) })
	}
	if x, ok := o.(interface{ SetLexerName(string) }); ok {
		fs = append(fs, func() { x.SetLexerName(s) })
	}
	if x, ok := o.(interface{ SetLocalId(string) }); ok {
		fs = append(fs, func() { x.SetLocalId(s) })
	}
	if x, ok := o.(interface{ SetLrParam() }); ok {
		fs = append(fs, func() { x.SetLrParam() })
	}
	if x, ok := o.(interface{ SetMAddr(string) }); ok {
		fs = append(fs, func() { x.SetMAddr(s) })
	}
	if x, ok := o.(interface{ SetMAddrParam(string) error }); ok {
		fs = append(fs, func() { x.SetMAddrParam(s) })
	}
	if x, ok := o.(interface{ SetMatchStatusClass(bool) }); ok {
		fs = append(fs, func() { x.SetMatchStatusClass(n&1 == 0) })
	}
	if x, ok := o.(interface{ SetMediaRange(*header.MediaRange) }); ok {
		fs = append(fs, func() { x.SetMediaRange(header.NewMediaRange()) })
	}
	if x, ok := o.(interface{ SetMessageContent(string) }); ok {
		fs = append(fs, func() { x.SetMessageContent(s) })
	}
	if x, ok := o.(interface{ SetMessageContent3(string, string, []byte) }); ok {
		fs = append(fs, func() { x.SetMessageContent3(s, s, []byte(s)) })
	}
	if x, ok := o.(interface{ SetMessageContentFromByte([]byte) }); ok {
		fs = append(fs, func() { x.SetMessageContentFromByte([]byte(s)) })
	}
	if x, ok := o.(interface{ SetMessageContentFromString(string, string, string) }); ok {
		fs = append(fs, func() { x.SetMessageContentFromString(s, s, s) })
	}
	if x, ok := o.(interface{ SetMethod(string) }); ok {
		fs = append(fs, func() { x.SetMethod(s) })
	}
	if x, ok := o.(interface{ SetMethodParam(string) }); ok {
		fs = append(fs, func() { x.SetMethodParam(s) })
	}
	if x, ok := o.(interface{ SetName(string) }); ok {
		fs = append(fs, func() { x.SetName(s) })
	}
	if x, ok := o.(interface{ SetNameAndValue(string, interface{}) }); ok {
		fs = append(fs, func() { x.SetNameAndValue(s, s) })
	}
	if x, ok := o.(interface{ SetNameValue(*core.NameValue) }); ok {
		fs = append(fs, func() { x.SetNameValue(core.NewNameValue(s, s)) })
	}
	if x, ok := o.(interface{ SetParameter(*core.NameValue) }); ok {
		fs = append(fs, func() { x.SetParameter(core.NewNameValue(s, s)) })
	}
	if x, ok := o.(interface{ SetParameter(string, string) }); ok {
		fs = append(fs, func() { x.SetParameter(s, s) })
	}
	if x, ok := o.(interface{ SetParameter(string, string) error }); ok {
		fs = append(fs, func() { x.SetParameter(s, s) })
	}
	if x, ok := o.(interface{ SetParameterFromNameValue(*core.NameValue) }); ok {
		fs = append(fs, func() { x.SetParameterFromNameValue(core.NewNameValue(s, s)) })
	}
	if x, ok := o.(interface{ SetParameters(*core.NameValueList) }); ok {
		fs = append(fs, func() { x.SetParameters(freshParams(s)) })
	}
	if x, ok := o.(interface{ SetParm(string, interface{}) }); ok {
		fs = append(fs, func() { x.SetParm(s, s) })
	}
	if x, ok := o.(interface{ SetPassword(string) }); ok {
		fs = append(fs, func() { x.SetPassword(s) })
	}
	if x, ok := o.(interface{ SetPhoneNumber(string) }); ok {
		fs = append(fs, func() { x.SetPhoneNumber(s) })
	}
	if x, ok := o.(interface{ SetPort(int) }); ok {
		fs = append(fs, func() { x.SetPort(n) })
	}
	if x, ok := o.(interface{ SetPostDial(string) }); ok {
		fs = append(fs, func() { x.SetPostDial(s) })
	}
	if x, ok := o.(interface{ SetProtocolName(string) }); ok {
		fs = append(fs, func() { x.SetProtocolName(s) })
	}
	if x, ok := o.(interface{ SetProtocolVersion(string) }); ok {
		fs = append(fs, func() { x.SetProtocolVersion(s) })
	}
	if x, ok := o.(interface{ SetPurpose(string) error }); ok {
		fs = append(fs, func() { x.SetPurpose(s) })
	}
	if x, ok := o.(interface{ SetQHeader(*core.NameValue) }); ok {
		fs = append(fs, func() { x.SetQHeader(core.NewNameValue(s, s)) })
	}
	if x, ok := o.(interface{ SetQheaders(*core.NameValueList) }); ok {
		fs = append(fs, func() { x.SetQheaders(freshParams(s)) })
	}
	if x, ok := o.(interface{ SetQuotedParameter(string, string) }); ok {
		fs = append(fs, func() { x.SetQuotedParameter(s, s) })
	}
	if x, ok := o.(interface{ SetQuotedValue() }); ok {
		fs = append(fs, func() { x.SetQuotedValue() })
	}
	if x, ok := o.(interface{ SetReasonPhrase(string) }); ok {
		fs = append(fs, func() { x.SetReasonPhrase(s) })
	}
	if x, ok := o.(interface{ SetRequestLineDefaults() }); ok {
		fs = append(fs, func() { x.SetRequestLineDefaults() })
	}
	if x, ok := o.(interface{ SetRequestURI(address.URI) }); ok {
		fs = append(fs, func() { x.SetRequestURI(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetSIPVersion(string) }); ok {
		fs = append(fs, func() { x.SetSIPVersion(s) })
	}
	if x, ok := o.(interface{ SetScheme(string) }); ok {
		fs = append(fs, func() { x.SetScheme(s) })
	}
	if x, ok := o.(interface{ SetScheme(string) error }); ok {
		fs = append(fs, func() { x.SetScheme(s) })
	}
	if x, ok := o.(interface{ SetSecure(bool) }); ok {
		fs = append(fs, func() { x.SetSecure(n&1 == 0) })
	}
	if x, ok := o.(interface{ SetSentBy(*core.HostPort) }); ok {
		fs = append(fs, func() { x.SetSentBy(freshHostPort()) })
	}
	if x, ok := o.(interface{ SetSentProtocol(*header.Protocol) }); ok {
		fs = append(fs, func() { x.SetSentProtocol(header.NewProtocol()) })
	}
	if x, ok := o.(interface{ SetSeparator(string) }); ok {
		fs = append(fs, func() { x.SetSeparator(s) })
	}
	if x, ok := o.(interface{ SetSipVersion(string) }); ok {
		fs = append(fs, func() { x.SetSipVersion(s) })
	}
	if x, ok := o.(interface{ SetStale(bool) }); ok {
		fs = append(fs, func() { x.SetStale(n&1 == 0) })
	}
	if x, ok := o.(interface{ SetStatusCode(int) }); ok {
		fs = append(fs, func() { x.SetStatusCode(n) })
	}
	if x, ok := o.(interface{ SetSubtype(string) }); ok {
		fs = append(fs, func() { x.SetSubtype(s) })
	}
	if x, ok := o.(interface{ SetTTLParam(int) error }); ok {
		fs = append(fs, func() { x.SetTTLParam(n) })
	}
	if x, ok := o.(interface {
		SetTelephoneNumber(*address.TelephoneNumber)
	}); ok {
		fs = append(fs, func() { x.SetTelephoneNumber(address.NewTelephoneNumber()) })
	}
	if x, ok := o.(interface {
		SetTelephoneSubscriber(*address.TelephoneNumber)
	}); ok {
		fs = append(fs, func() { x.SetTelephoneSubscriber(address.NewTelephoneNumber()) })
	}
	if x, ok := o.(interface{ SetToTag(string) }); ok {
		fs = append(fs, func() { x.SetToTag(s) })
	}
	if x, ok := o.(interface{ SetTokenType(int) }); ok {
		fs = append(fs, func() { x.SetTokenType(n) })
	}
	if x, ok := o.(interface{ SetTokenValue(string) }); ok {
		fs = append(fs, func() { x.SetTokenValue(s) })
	}
	if x, ok := o.(interface{ SetTransport(string) }); ok {
		fs = append(fs, func() { x.SetTransport(s) })
	}
	if x, ok := o.(interface{ SetTransportParam(string) error }); ok {
		fs = append(fs, func() { x.SetTransportParam(s) })
	}
	if x, ok := o.(interface{ SetType(string) }); ok {
		fs = append(fs, func() { x.SetType(s) })
	}
	if x, ok := o.(interface{ SetURI(address.URI) }); ok {
		fs = append(fs, func() { x.SetURI(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetURI(address.URI) error }); ok {
		fs = append(fs, func() { x.SetURI(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetUri(address.URI) }); ok {
		fs = append(fs, func() { x.SetUri(freshURI(s)) })
	}
	if x, ok := o.(interface{ SetUriParameter(*core.NameValue) }); ok {
		fs = append(fs, func() { x.SetUriParameter(core.NewNameValue(s, s)) })
	}
	if x, ok := o.(interface{ SetUriParm(string, interface{}) }); ok {
		fs = append(fs, func() { x.SetUriParm(s, s) })
	}
	if x, ok := o.(interface{ SetUriParms(*core.NameValueList) }); ok {
		fs = append(fs, func() { x.SetUriParms(freshParams(s)) })
	}
	if x, ok := o.(interface{ SetUser(string) }); ok {
		fs = append(fs, func() { x.SetUser(s) })
	}
	if x, ok := o.(interface{ SetUserInfo(*address.UserInfo) }); ok {
		fs = append(fs, func() { x.SetUserInfo(address.NewUserInfo()) })
	}
	if x, ok := o.(interface{ SetUserParam(string) }); ok {
		fs = append(fs, func() { x.SetUserParam(s) })
	}
	if x, ok := o.(interface{ SetUserPassword(string) }); ok {
		fs = append(fs, func() { x.SetUserPassword(s) })
	}
	if x, ok := o.(interface{ SetUserType(int) }); ok {
		fs = append(fs, func() { x.SetUserType(n) })
	}
	if x, ok := o.(interface{ SetValue(interface{}) }); ok {
		fs = append(fs, func() { x.SetValue(s) })
	}
	if x, ok := o.(interface{ SetValue(string) }); ok {
		fs = append(fs, func() { x.SetValue(s) })
	}
	if x, ok := o.(interface{ SetWildCardFlag() }); ok {
		fs = append(fs, func() { x.SetWildCardFlag() })
	}
	if x, ok := o.(interface{ SetWildCardFlag(bool) }); ok {
		fs = append(fs, func() { x.SetWildCardFlag(n&1 == 0) })
	}
	return
}

// makers make one object of each type.
var makers = []func() interface{}{
	func() interface{} { return core.NewHostPort() },
	func() interface{} { return address.NewAddressImpl() },
	func() interface{} { return address.NewAuthority() },
	func() interface{} { return address.NewSipURIImpl() },
	func() interface{} { return address.NewTelURLImpl() },
	func() interface{} { return address.NewTelephoneNumber() },
	func() interface{} { return address.NewUserInfo() },
	func() interface{} { return header.NewAcceptEncoding() },
	func() interface{} { return header.NewAcceptEncodingList() },
	func() interface{} { return header.NewAccept() },
	func() interface{} { return header.NewAcceptLanguage() },
	func() interface{} { return header.NewAcceptLanguageList() },
	func() interface{} { return header.NewAcceptList() },
	func() interface{} { return header.NewAlertInfo() },
	func() interface{} { return header.NewAlertInfoList() },
	func() interface{} { return header.NewAllowEvents() },
	func() interface{} { return header.NewAllowEventsList() },
	func() interface{} { return header.NewAllow() },
	func() interface{} { return header.NewAllowList() },
	func() interface{} { return header.NewAuthenticationInfo() },
	func() interface{} { return header.NewAuthorization() },
	func() interface{} { return header.NewCallInfo() },
	func() interface{} { return header.NewCallInfoList() },
	func() interface{} { return header.NewChallenge() },
	func() interface{} { return header.NewContact() },
	func() interface{} { return header.NewContactList() },
	func() interface{} { return header.NewContentDisposition() },
	func() interface{} { return header.NewContentEncoding() },
	func() interface{} { return header.NewContentEncodingList() },
	func() interface{} { return header.NewContentLanguage() },
	func() interface{} { return header.NewContentLanguageList() },
	func() interface{} { return header.NewContentLength() },
	func() interface{} { return header.NewContentType() },
	func() interface{} { return header.NewDate() },
	func() interface{} { return header.NewErrorInfo() },
	func() interface{} { return header.NewErrorInfoList() },
	func() interface{} { return header.NewEvent() },
	func() interface{} { return header.NewExpires() },
	func() interface{} { return header.NewFrom() },
	func() interface{} { return header.NewInReplyTo() },
	func() interface{} { return header.NewInReplyToList() },
	func() interface{} { return header.NewMaxForwards() },
	func() interface{} { return header.NewMediaRange() },
	func() interface{} { return header.NewMimeVersion() },
	func() interface{} { return header.NewMinExpires() },
	func() interface{} { return header.NewOrganization() },
	func() interface{} { return header.NewPriority() },
	func() interface{} { return header.NewProtocol() },
	func() interface{} { return header.NewProxyAuthenticate() },
	func() interface{} { return header.NewProxyAuthenticateList() },
	func() interface{} { return header.NewProxyAuthorization() },
	func() interface{} { return header.NewProxyRequire() },
	func() interface{} { return header.NewProxyRequireList() },
	func() interface{} { return header.NewRAck() },
	func() interface{} { return header.NewRSeq() },
	func() interface{} { return header.NewReason() },
	func() interface{} { return header.NewReasonList() },
	func() interface{} { return header.NewRecordRoute() },
	func() interface{} { return header.NewRecordRouteList() },
	func() interface{} { return header.NewReferTo() },
	func() interface{} { return header.NewReplyTo() },
	func() interface{} { return header.NewRequestLine() },
	func() interface{} { return header.NewRequire() },
	func() interface{} { return header.NewRequireList() },
	func() interface{} { return header.NewRetryAfter() },
	func() interface{} { return header.NewRoute() },
	func() interface{} { return header.NewRouteList() },
	func() interface{} { return header.NewServer() },
	func() interface{} { return header.NewStatusLine() },
	func() interface{} { return header.NewSubject() },
	func() interface{} { return header.NewSubscriptionState() },
	func() interface{} { return header.NewSupported() },
	func() interface{} { return header.NewSupportedList() },
	func() interface{} { return header.NewTimeStamp() },
	func() interface{} { return header.NewTo() },
	func() interface{} { return header.NewUnsupported() },
	func() interface{} { return header.NewUnsupportedList() },
	func() interface{} { return header.NewUserAgent() },
	func() interface{} { return header.NewVia() },
	func() interface{} { return header.NewViaList() },
	func() interface{} { return header.NewWWWAuthenticate() },
	func() interface{} { return header.NewWWWAuthenticateList() },
	func() interface{} { return header.NewWarning() },
	func() interface{} { return header.NewWarningList() },
	func() interface{} { return message.NewSIPMessage() },
	func() interface{} { return message.NewSIPRequest() },
	func() interface{} { return message.NewSIPResponse() },
}
