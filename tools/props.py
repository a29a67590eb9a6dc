SEEDED = ("Seeded search over the simulated runs, not exhaustive: a clean batch is evidence, not proof. "
          "Trusts the instrumenter, the scheduler and the reference model in sim/props. ")

PROPS = [
dict(id="C14", title="RTP packets mean the same to sender, wire and receiver",
  statement="A packet built from valid field values has exactly the bytes RFC 3550 prescribes, and a receiver that is handed those bytes reads back every field, CSRC, extension word and payload byte; invalid values (payload type above 127, 72 or 73; more than 15 CSRCs) are refused. A damaged, truncated or foreign datagram either is rejected with an error and no packet or is interpreted exactly as RFC 3550 reads those bytes, padding included, and never panics. A received packet, its sender, receive time and bytes stay as they were on arrival when the application reuses the buffers it sent from or received into.",
  over=["inputs", "fault_sequences", "histories"],
  quant="every field combination, every loss, duplication, reordering, truncation or damage of datagrams between up to three senders and a receiver, every reuse of buffers while packets are still held",
  why="The repository has no test of the rtp package at all; the property ranges over all packets, all damage and all buffer-reuse histories.",
  files=["rtp/rtppacket.go", "rtp/rtp.go", "rtp/rawpacket.go"],
  mech=[("RTPHeader and RTPExtension codecs", "rtp/rtp.go"), ("NewPacket, NewRTPPacketFromRawPacket, ParseRawPacket", "rtp/rtppacket.go")],
  obs=["GetPacket bytes against an independent encoder", "every getter against an independent decoder of the delivered bytes"],
  tech="senders and a receiver over a simulated lossy, damaging network, against an independent RFC 3550 codec",
  note=SEEDED + "Undamaged and damaged datagrams are both compared with an independent decoder; a padding count of zero is left undecided."),
dict(id="C15", title="RTCP BYE and APP packets are read exactly and never crash",
  statement="A BYE or APP packet taken from a compound datagram reports exactly the sources, reason for leaving, subtype, name and application data its sender put in, ending where the packet's own length and padding say. A truncated, damaged or too short packet is reported as of unknown format with no contents, and never makes the receiver panic, run on or read another packet's bytes. What was read stays the same afterwards.",
  over=["inputs", "fault_sequences", "histories"],
  quant="every BYE and APP packet, alone or within a compound datagram, and every truncation, damage, loss, duplication or reordering on the way",
  why="The repository has no test of the rtp package; the property ranges over all byte strings a network can deliver.",
  files=["rtp/rtcppacket.go", "rtp/rtcpbyepacket.go", "rtp/rtcpapppacket.go"],
  mech=[("length and padding checks on construction", "rtp/rtcpbyepacket.go, rtp/rtcpapppacket.go"), ("accessors", "rtp/rtcpbyepacket.go, rtp/rtcpapppacket.go")],
  obs=["IsKnownFormat, GetSSRCCount, GetSSRC, GetReasonData, GetName, GetAPPData against an independent decoder"],
  tech="participants send compound packets over a simulated lossy, damaging network, against an independent RFC 3550 decoder",
  note=SEEDED + "A padding count of zero is left undecided."),
dict(id="C16", title="Collision list knows exactly the recent colliding addresses",
  statement="After any history of recorded collisions, time-outs and clearing, an address is reported as colliding exactly when a collision with it was recorded and not older than the delay at any time-out since; recording says whether the address was new. Two addresses are the same exactly when host (or IP, in 4- or 16-byte form) and port agree, and from one host when the host does. Later changes to an address object that was recorded do not change what the list knows, and a clock that stands before or jumps below the delay times nothing out early.",
  over=["histories", "fault_sequences"],
  quant="every history of recordings, look-ups, time-outs, clearing, clock jumps and reuse of address objects",
  why="The repository has no test of the rtp package; the property ranges over histories and clock behaviour.",
  files=["rtp/collisionlist.go", "rtp/ipaddress.go", "rtp/hostaddress.go", "rtp/address.go", "rtp/rtptime.go"],
  mech=[("UpdateAddress, HasAddress, Timeout", "rtp/collisionlist.go"), ("IsSameAddress, IsFromSameHost, Clone", "rtp/ipaddress.go, rtp/hostaddress.go")],
  obs=["HasAddress for every peer after every step", "created flag of UpdateAddress"],
  tech="collision histories under a simulated jumping clock, against a map model",
  note=SEEDED + "Times lie between 0 and 2^32 s, the range of the type."),
dict(id="C17", title="RTP time keeps order, arithmetic and NTP form to the microsecond",
  statement="Time stamps taken from any clock compare, add and subtract exactly as their microsecond counts do, including across second boundaries, and operations change no other time stamp. A time sent in NTP form and read back is within one microsecond of what was sent, as is a time made from seconds. Waiting for a duration lasts exactly that duration.",
  over=["histories", "schedules", "fault_sequences"],
  quant="every history of clock readings on up to three nodes with independent, jumping clocks, every delivery order of their reports, every pair of stamps",
  why="The repository has no test of the rtp package; the property ranges over all clock values, jumps and operation sequences.",
  files=["rtp/rtptime.go", "rtp/ntptime.go"],
  mech=[("carry and borrow in Add and Sub, comparisons", "rtp/rtptime.go"), ("NTP conversion", "rtp/rtptime.go"), ("WaitRTPTime, CurrentRTPTime", "rtp/rtptime.go")],
  obs=["LT, GT, ELT, EGT, Add, Sub, GetNTPTime, WaitRTPTime"],
  tech="nodes with simulated, skewed and jumping clocks exchanging reports, against 64-bit microsecond arithmetic",
  note=SEEDED + "Times lie before the NTP era ends in 2036."),
dict(id="C18", title="A shared random generator hands out one rand48 sequence, atomically",
  statement="Whatever the interleaving of goroutines drawing 8-, 16-, 32-bit values or doubles from one generator and reseeding it, what they get is what some sequential order of their calls would draw from the standard rand48 sequence (multiplier 0x5DEECE66D, increment 11, seed in the upper 32 bits over 0x330E), the top bits of each step being used; no value is handed out twice or skipped. Doubles lie in [0,1). There is no data race.",
  over=["schedules", "inputs"],
  quant="every interleaving, at statement granularity, of up to four goroutines with up to six calls each, every seed",
  why="Nothing tests the generator, and a test samples one schedule chosen by the runtime.",
  files=["rtp/random.go"],
  mech=[("mutex around the state", "rtp/random.go"), ("rand48 recurrence", "rtp/random.go")],
  obs=["returned values with invocation and response times, checked for linearizability"],
  tech="seeded statement-level scheduling of concurrent callers, linearizability against rand48, under the race detector",
  note=SEEDED + "Data races are those the Go race detector sees in the simulated schedules."),
dict(id="C03", title="No datagram can crash or stall the receiver",
  statement="Whatever bytes arrive - truncated, spliced, damaged, hostile - the parser returns a message or an error in time proportional to the input, and never panics. What it accepts can be read through every accessor, compared, cloned, encoded, answered, cancelled, acknowledged and relayed without a panic or an endless loop; the same holds for the parsers of single headers, addresses and URIs. An error comes with no message.",
  over=["inputs", "fault_sequences", "histories"],
  quant="every datagram a lossy, damaging network or a hostile peer can deliver, and every accessor and derivation applied to what is accepted",
  why="The tests parse a few dozen fixed messages, all of them nearly well formed; the property ranges over all byte strings.",
  files=["sip/parser", "sip/header", "sip/address", "sip/message", "core"],
  mech=[("lexer end-of-input handling", "core/CoreLexer.go, core/StringTokenizer.go"), ("per-header parsers returning errors", "sip/parser/*.go"), ("message parser", "sip/parser/StringMsgParser.go"), ("nil-safe accessors", "sip/message, sip/header, sip/address")],
  obs=["return or panic of every call within a step budget", "error xor message"],
  tech="senders over a simulated network that damages, cuts, splices, duplicates and reorders datagrams, to a node that parses, inspects, answers and relays them under a step budget; and measured growth of the work with the size of the message",
  note=SEEDED + "Accessors are called by reflection with generated arguments; a mistaken argument type is not tried. Known finding: very many differently named parameters of one header cost quadratic time."),
dict(id="C04", title="A parser carries nothing over from one datagram to the next",
  statement="A parser object that is used again and again - after sound messages, after rejected ones, with its receive buffer overwritten in between - makes of each datagram exactly what a new parser makes of it, whatever the application did to the messages it got before, and a message it returned earlier never changes because of what arrived later or was done to another.",
  over=["histories", "fault_sequences", "inputs"],
  quant="every sequence of datagrams, sound or damaged, through one parser and one buffer",
  why="Each test uses a parser once; the property ranges over histories.",
  files=["sip/parser/StringMsgParser.go", "core/CoreLexer.go"],
  mech=[("per-message state of StringMsgParser", "sip/parser/StringMsgParser.go"), ("lexer tables and their selection", "core/CoreLexer.go, core/Lexer.go, sip/parser")],
  obs=["error or encoded message against that of a fresh parser", "encoding and body of earlier messages after every later datagram"],
  tech="histories of sound and damaged datagrams from a simulated network through one long-lived parser and reused buffer, against a fresh parser per datagram",
  note=SEEDED),
dict(id="C05", title="Bodies are framed by Content-Length, byte for byte",
  statement="A receiver gets exactly the body bytes the sender set, whatever they are (any byte value, blank lines, text that looks like headers): as many as Content-Length says, trailing bytes of the datagram being left out, and a datagram with fewer is refused. Whoever sets, replaces or removes a body makes Content-Length and Content-Type of the encoded message agree with it; the encoded Content-Length always is the number of body bytes that follow.",
  over=["inputs", "fault_sequences", "histories"],
  quant="every body and every sequence of body changes along a path of nodes, every truncation, padding, loss, duplication and reordering of datagrams",
  why="The tests have a handful of small text bodies and never change one.",
  files=["sip/parser/StringMsgParser.go", "sip/message/SIPMessage.go", "sip/header/ContentLengthImpl.go"],
  mech=[("ParseSIPMessage body extraction", "sip/parser/StringMsgParser.go"), ("SetMessageContent, SetContent, RemoveContent, EncodeAsBytes", "sip/message/SIPMessage.go")],
  obs=["GetRawContent, GetContentLength, encoded bytes against the model body at every node"],
  tech="messages with generated bodies through body-changing nodes over a simulated network that cuts, pads, loses and duplicates datagrams, against a model of header block and body",
  note=SEEDED + "A message without Content-Length is left undecided."),
dict(id="C06", title="A relayed message keeps its meaning over every hop",
  statement="A well-formed message, in any legal spelling (header order, compact names, letter case, folding, white space, comma lists or repeated headers), that is parsed, handled and encoded again by any number of relays means the same to the last receiver as to the sender: start line, every header and parameter, order of multi-valued headers, body; only what a relay changed differs. Encoding is stable: a parsed encoding encodes to itself.",
  over=["inputs", "histories", "fault_sequences"],
  quant="every well-formed message in every legal spelling, every path of up to four relays and the changes they make, every loss, duplication and reordering on the way",
  why="The tests parse fixed header lines and compare few of them with what was written; the property ranges over all messages and paths.",
  files=["sip/parser", "sip/header", "sip/address", "sip/message", "core"],
  mech=[("header parsers", "sip/parser/*.go"), ("String and Encode of headers", "sip/header/*.go"), ("URI and address codecs", "sip/address/*.go, sip/parser/URLParser.go, sip/parser/AddressParser.go")],
  obs=["independent reading of the bytes each hop sends against the model of the message", "getters of every hop's parsed message against the model"],
  tech="generated messages through parsing, editing and re-encoding relays over a simulated lossy, reordering network, against an abstract message model and an independent reader",
  note=SEEDED + "Five spellings pinned by the repository's own tests are known findings: their probes run in 2 % of the runs and the model follows the pinned form elsewhere."),
dict(id="C07", title="A transaction id marks a request, its resends and responses, and nothing else",
  statement="The transaction identifier of a message is the same for a request, for every retransmission of it and for every response to it, at both ends and however the message was spelled or re-encoded on the way; two distinct requests - another branch, or, where the top Via branch lacks the RFC 3261 cookie, another Call-ID, From URI or tag, To URI, CSeq number or method, or sent-by (5060 being the default port) - have distinct identifiers. With the cookie, nothing but the branch counts. (CANCEL and ACK that share the branch of the request they belong to, and values that differ in letter case only, are left open.)",
  over=["inputs", "histories", "fault_sequences", "schedules"],
  quant="every set of related requests, every spelling, every loss, duplication, retransmission and reordering between client, relays and server",
  why="No test computes a transaction id; the property ranges over all pairs of messages a server can hold at one time.",
  files=["sip/message/SIPMessage.go", "sip/header/ViaImpl.go", "sip/address"],
  mech=[("GetTransactionId", "sip/message/SIPMessage.go"), ("SIPRequest.CreateResponse and the parsers the id is computed from", "sip/message/SIPRequest.go, sip/parser")],
  obs=["GetTransactionId at client, relay and server, compared with the identity known to the simulator"],
  tech="clients, relays and servers matching transactions over a simulated lossy, duplicating, reordering network, against the simulator's own record of who sent what",
  note=SEEDED + "An RFC 2543 identifier's To tag and letter case are left undecided."),
dict(id="C08", title="Responses retrace the request's path; later requests follow the recorded route",
  statement="A server that adds received and rport values to the top Via, a proxy that puts its own Via on top and takes it off the response again, and a sender that picks the destination from the top Via (received over host, rport over port, maddr first, default port of the transport) bring each response back to where its request came from, hop by hop, with each hop's Via exactly as it was. The response carries the Record-Route set of the request in order; both ends build the route set from it and the Contact, and every later request within the dialog takes that route and reaches that contact.",
  over=["inputs", "histories", "fault_sequences"],
  quant="every chain of up to four proxies, address translators, Via spelling, record-routing choice, and every loss, duplication, reordering or partition on the way",
  why="No test sends a message anywhere; the property is about several parties and the headers each of them edits.",
  files=["sip/header/ViaImpl.go", "sip/header/RouteList.go", "sip/header/RecordRouteList.go", "sip/header/ContactImpl.go", "sip/message/SIPMessage.go", "sip/message/SIPRequest.go"],
  mech=[("Via accessors and editing", "sip/header/ViaImpl.go"), ("header store: top and bottom of lists", "sip/message/SIPMessage.go"), ("CreateResponse", "sip/message/SIPRequest.go")],
  obs=["where each message goes and what its Via, Route and Record-Route say at every node, against the simulated topology"],
  tech="caller, proxies, address translators and callee over a simulated network that loses, reorders, duplicates and partitions, against the known topology",
  note=SEEDED + "Forwarding decisions are the harness's, made from what the library's accessors report; loose routing only."),
dict(id="C09", title="Both ends of a dialog name it alike, and no two dialogs share a name",
  statement="Every request and response within a dialog, whoever sent it, yields one dialog identifier at the caller and at the callee, each computing it from its own side; dialogs that differ in Call-ID, caller's tag or callee's tag - the branches of a forked call among them - have different identifiers. Spelling, relaying, duplication and reordering do not matter.",
  over=["inputs", "histories", "fault_sequences"],
  quant="every set of up to four calls with up to three forks, requests in both directions, every loss, duplication and reordering",
  why="No test computes a dialog id; the property compares messages seen by two parties.",
  files=["sip/message/SIPRequest.go", "sip/message/SIPResponse.go", "sip/header/FromImpl.go", "sip/header/ToImpl.go"],
  mech=[("GetDialogId, GetDialogId2", "sip/message/SIPRequest.go, sip/message/SIPResponse.go"), ("tags of From and To", "sip/header/FromImpl.go, sip/header/ToImpl.go")],
  obs=["identifiers at both ends for every message that arrives, against the simulator's record of dialogs"],
  tech="callers and forked callees over a simulated lossy, duplicating, reordering network, against the simulator's record of dialogs",
  note=SEEDED + "Identifiers are compared for equality only; their form is free."),
dict(id="C10", title="Nothing derived from a message changes the message",
  statement="A message that is kept - for retransmission, for matching, for a log - keeps its bytes, its headers and its identifiers whatever is made from it and whatever is then done to that: responses, ACK, CANCEL, BYE and other requests created from it, clones of its headers, their further editing through any accessor, setter or list they offer, reuse of the buffer it was read from or encoded into. Every retransmission is byte for byte what was first sent.",
  over=["histories", "inputs", "fault_sequences"],
  quant="every history of deriving, cloning, editing and retransmitting at a client and a server, every editing method of every object reachable from what was derived",
  why="Tests derive nothing and look at one object at a time; the property is about all pairs of objects over all histories of edits.",
  files=["sip/message/SIPRequest.go", "sip/message/SIPResponse.go", "sip/header", "sip/address", "core"],
  mech=[("CreateResponse, CreateCancelRequest, CreateAckRequest, CreateSIPRequest, CreateRequest", "sip/message/SIPRequest.go, sip/message/SIPResponse.go"), ("Clone of headers, addresses, URIs, lists", "sip/header/*.go, sip/address/*.go, core/*.go")],
  obs=["encoded bytes, header names, content and transaction id of every kept object after every operation on any other"],
  tech="a client and a server that keep, derive, edit and retransmit messages over a simulated lossy, duplicating, reordering network, with snapshots of every kept object compared after every step",
  note=SEEDED + "Edits are drawn from every Set/Add/Remove/... method reachable by reflection, with fresh arguments. Objects the caller itself hands to two messages are not covered."),
dict(id="C11", title="Responses, ACK, CANCEL and BYE made from a message carry what the RFC asks for",
  statement="A response made from a request has the status asked for, all Via values in order, the From, To, Call-ID, CSeq, Record-Route and Timestamp of the request, no body and no request-only header; CANCEL has the request's Request-URI, Call-ID, From, To, Route, CSeq number and only its top Via, and no Require or Proxy-Require; ACK has its Request-URI, Call-ID, From, CSeq number and top Via, and the To asked for. Requests made within a dialog have From and To - exchanged where asked for - without their tags, the top Via without its branch, the Call-ID and CSeq number; a request made from a response has the method, URI, Via and CSeq given, the branch of the response where it is an ACK or CANCEL, its From, To and Call-ID, and no response-only header. None has a body, and the receiver reads them so.",
  over=["inputs", "histories", "fault_sequences"],
  quant="every request and response, every derivation, in every spelling, every loss, duplication and reordering between client and server",
  why="No test derives a message; the property ranges over all messages and combinations of headers.",
  files=["sip/message/SIPRequest.go", "sip/message/SIPResponse.go", "sip/message/SIPMessage.go"],
  mech=[("CreateResponse, CreateCancelRequest, CreateAckRequest, CreateSIPRequest, CreateBYERequest, CreateACKRequest", "sip/message/SIPRequest.go"), ("CreateRequest", "sip/message/SIPResponse.go"), ("IsResponseHeader", "sip/message/SIPMessage.go")],
  obs=["encoded derived message at its maker and at its receiver against the model of the message it was made from"],
  tech="client and server that answer, acknowledge, cancel and end calls over a simulated lossy, duplicating, reordering network, against an abstract model of each derived message",
  note=SEEDED + "Route and Proxy-Authorization of ACK, Max-Forwards of responses and headers the RFC leaves to the application are undecided."),
dict(id="C12", title="The parse listener sees each bad header once and decides its fate",
  statement="With a parse exception listener installed, each header line that cannot be read is handed to it exactly once, in order, with the text of that line and nothing else, the parser naming it as its current line; if the listener accepts the error the message is delivered with every other header and the body intact, and if it returns an error parsing stops and no message is delivered. Without a listener a bad header makes the whole message fail with an error. Headers that can be read are never reported.",
  over=["inputs", "histories", "fault_sequences"],
  quant="every message with up to four header lines corrupted on the way, every sequence of listener decisions, one parser used throughout",
  why="No test installs a listener that lets parsing go on; the property ranges over all mixtures of good and bad headers and decisions.",
  files=["sip/parser/StringMsgParser.go", "sip/parser/ParseExceptionListener.go"],
  mech=[("listener call in ParseSIPMessage and friends", "sip/parser/StringMsgParser.go")],
  obs=["sequence of listener calls and arguments", "headers and body of the delivered message against the model"],
  tech="messages with headers corrupted in transit to a node whose listener aborts, ignores or repairs them by seeded choice, against a model of which lines are bad",
  note=SEEDED + "A CSeq whose method contradicts the start line is left undecided."),
dict(id="C13", title="A message's headers are an ordered multimap, whatever was done to it",
  statement="After any history of adding, setting, attaching, removing and restoring, a message holds for each header name exactly the values that were put in and not removed, in order: AddHeader appends, but puts a Via on top; SetHeader leaves only the new value or values; RemoveHeader removes all of a name, RemoveHeader2 the first or the last. Every way of reading - GetHeader, GetHeaders, HasHeader, GetHeaderNames, the typed accessors, the encoding whole or in pieces - agrees, in any letter case of the name; Content-Length is always that of the body; and a message restored from its encoding after a crash, or read by a peer, behaves as the one that was encoded. The same holds where headers and lists are changed where they stand in the message, and its identifiers are those that a reader of its encoding computes.",
  over=["histories", "inputs", "fault_sequences"],
  quant="every history of header and body operations, with crashes at any point and restart from the last journalled bytes, at the application and at its peers",
  why="Tests parse and print; none edits a message. The property ranges over all operation sequences.",
  files=["sip/message/SIPMessage.go", "sip/header/SIPHeaderList.go", "sip/header"],
  mech=[("name table, header list and cached mandatory headers kept in step", "sip/message/SIPMessage.go"), ("list concatenation and encoding", "sip/header/SIPHeaderList.go")],
  obs=["every accessor and the encoding after every operation, against an ordered multimap"],
  tech="editing histories with crashes and restarts from journalled bytes and peers across a simulated lossy network, against an ordered-multimap reference model",
  note=SEEDED + "Adding a second singleton header, which the interface calls a misuse, and the place of a replaced header among other names are undecided."),
dict(id="C01", title="Independent concurrent callers never interfere",
  statement="Goroutines that each use parsers, messages, headers, packets and generators of their own - parsing, reading, editing, cloning, deriving, encoding, receiving - never affect one another: each gets, under every schedule and from the first call in the process on, exactly what it gets alone, without a data race, although tables of keywords, names and defaults are shared underneath.",
  over=["schedules", "inputs", "histories"],
  quant="every interleaving, at statement granularity, of up to four goroutines with operations on objects of their own, starting in a fresh or a used process",
  why="The tests are sequential; the property ranges over schedules and over who is first to fill a shared table.",
  files=["sip/parser", "sip/message", "sip/header", "sip/address", "core", "rtp"],
  mech=[("keyword and symbol tables", "core/CoreLexer.go, core/Lexer.go, sip/parser"), ("package-level tables and defaults", "sip/message, sip/header, sip/parser/ParserFactory.go, rtp/rtp.go"), ("branch, tag and Call-ID generation", "sip/message/Utils.go")],
  obs=["everything each task reads, against a solo run of the same operations", "race detector reports"],
  tech="seeded statement-level scheduling of independent callers in freshly started processes, compared with solo runs, under the race detector",
  note=SEEDED + "Data races are those the Go race detector sees in the simulated schedules; values random by design are compared by their rules only."),
dict(id="C02", title="A received message can be read by many goroutines at once",
  statement="A message or packet that has been received may be read through every accessor, compared, encoded, cloned, and used to derive responses and requests by any number of goroutines at once, each of which may edit what it cloned or derived. Each gets exactly what a lone reader gets, the message is afterwards what it was, and there is no data race.",
  over=["schedules", "inputs"],
  quant="every interleaving, at statement granularity, of up to four goroutines with read, clone, derive and encode operations on one received message, every message",
  why="The tests are sequential; a getter that writes is invisible to them.",
  files=["sip/message", "sip/header", "sip/address", "core", "rtp"],
  mech=[("getters, Encode, Clone and Create... do not write to what they read", "sip/message/*.go, sip/header/*.go, sip/address/*.go, core/*.go, rtp/rtppacket.go")],
  obs=["everything each task reads, against a lone reader", "the message's encoding afterwards", "race detector reports"],
  tech="seeded statement-level scheduling of readers of one received message, compared with a lone reader, under the race detector",
  note=SEEDED + "Data races are those the Go race detector sees in the simulated schedules."),
dict(id="C19", title="Logged messages reach their file whole, once, in order, whatever the disk does",
  statement="Every message logged to a file stands in it whole and exactly once, together with its separator, by the time the call returns - so that it survives a kill right after - and after every message whose logging had returned before its own began; what the file held before stays. This holds for any number of goroutines, log writers and processes appending to one file. A disk that refuses to open, fills up, cuts a write short or fails loses at most the record it struck; no later record, no handle and no caller is lost with it, and nothing panics.",
  over=["schedules", "histories", "fault_sequences", "crash_points"],
  quant="every interleaving of up to four goroutines logging up to eight messages each to up to two files, every sequence of disk faults, a kill after any return",
  why="Nothing tests the log writer, and the disk faults and interleavings in question do not happen in tests.",
  files=["core/LogWriter.go"],
  mech=[("open for append, one write per record, close", "core/LogWriter.go")],
  obs=["bytes of the files at every return and at the end", "open handles"],
  tech="concurrent log writers over a simulated faulty disk under a seeded statement-level scheduler, checked against the record history",
  note=SEEDED + "Trusts POSIX: a write to a file opened for appending is atomic."),
dict(id="C20", title="Headers built and changed through setters arrive as built",
  statement="A header, address or SIP or tel URI that an application makes and changes through constructors and setters says exactly what the last call on each part set and nothing that was removed: its getters, its text and - after it was sent, duplicated or reordered, and read, any number of times - the getters and the text of the next agent's header agree, values that need quotes being quoted once. A call whose argument is documented as refused is refused and changes nothing. A clone shows nothing of what is done to the original, and the other way round.",
  over=["histories", "inputs", "fault_sequences"],
  quant="every history of calls on a header of any kind, over several agents",
  why="Tests parse and print; they call no setter. The property ranges over all histories of calls, before and after transport.",
  files=["sip/header", "sip/address", "core/NameValueList.go", "core/NameValue.go", "sip/parser"],
  mech=[("parameter lists", "core/NameValueList.go, sip/header/ParametersImpl.go"), ("setters and encoders of each header", "sip/header/*Impl.go"), ("URIs", "sip/address/SipURIImpl.go, sip/address/TelphoneNumber.go")],
  obs=["every getter and the encoding after every call, at the maker and at each agent it reaches, against a model of the header"],
  tech="histories of setter calls, good and refused, on headers that travel between agents over a simulated lossy network, against a reference model of each header",
  note=SEEDED + "Which values the grammar allows is not decided here (C30): arguments are grammatical, or documented as refused."),
dict(id="C21", title="A registrar holds the bindings that the REGISTERs it got prescribe",
  statement="Contacts, their q and expires parameters, the Expires header, the wildcard, Call-ID and CSeq reach a registrar as the user agent set them, so that it holds at any time exactly the bindings that RFC 3261 prescribes for the requests that arrived, however they were spelled, repeated, reordered or lost, and across restarts from what it wrote down. Its answers tell each user agent exactly those bindings with the time that is left, and a request that is too brief is refused with the Min-Expires to use. Once faults stop, every user agent's registration is answered within a bounded number of attempts.",
  over=["histories", "schedules", "crash_points", "fault_sequences"],
  quant="every history of registrations, refreshes, removals, queries, restarts and losses",
  why="Tests parse a few Contact lines. The property joins a dozen headers over a history of requests, time and restarts.",
  files=["sip/header", "sip/parser", "sip/message", "sip/address"],
  mech=[("Contact and its parameters", "sip/header/ContactImpl.go, sip/parser/ContactParser.go"), ("contact lists", "sip/header/ContactListImpl.go, sip/message/SIPMessage.go"), ("expiry headers", "sip/header/ExpiresImpl.go, sip/header/MinExpiresImpl.go"), ("URI comparison material", "sip/address/SipURIImpl.go")],
  obs=["the registrar's bindings after every request against a model fed with what was meant", "bindings and times in each answer", "requests answered after the last fault"],
  tech="simulated user agents, a registrar with restarts from its stored Contacts, and callers over a lossy network with a simulated clock, against a reference model of the bindings",
  note=SEEDED + "The registrar's and user agents' logic is the harness's; what it decides from is read through gosips."),
dict(id="C22", title="Digest challenges and credentials let the right users in, nobody else",
  statement="What a challenge (realm, nonce, opaque, qop, algorithm, stale, domain), credentials (username, realm, nonce, uri, response, cnonce, nc, opaque, qop) and Authentication-Info say is read by the other side exactly as it was set or spelled, through proxies and servers that both challenge. So a user with the right password is let in within a bounded number of attempts once faults stop, whatever was lost, repeated or reordered and whichever nonces expired. A wrong password, a repeated count, or a method, user, nonce or response altered on the way never is.",
  over=["histories", "schedules", "fault_sequences", "inputs"],
  quant="every history of requests, challenges, restarts, attacks and losses",
  why="Tests print one challenge and one credential line. Whether both sides compute the same digest depends on every character of ten parameters on both ways.",
  files=["sip/header", "sip/parser", "sip/message"],
  mech=[("challenges and credentials", "sip/header/AuthenticationImpl.go, sip/header/WWWAuthenticateImpl.go, sip/header/AuthorizationImpl.go"), ("their parsers", "sip/parser/ChallengeParser.go, sip/parser/AuthorizationParser.go, sip/parser/WWWAuthenticateParser.go"), ("Authentication-Info", "sip/header/AuthenticationInfoImpl.go, sip/parser/AuthenticationInfoParser.go"), ("parameter lists", "core/NameValueList.go")],
  obs=["every parameter at the reader against what was set", "the verdict on each request against who sent it and what was done to it", "users let in after the last fault"],
  tech="simulated clients, a proxy and a server that challenge, restarts that forget nonces, replay and tampering attacks over a lossy network, against a model of who may come in",
  note=SEEDED + "MD5 and the digest rules are computed by the harness from what gosips' getters say."),
dict(id="C23", title="Subscribers and notifiers agree on every subscription and its state",
  statement="Event (type, id), Subscription-State (state, reason, retry-after, expires), Expires, Min-Expires, Accept, Allow-Events, tags and Call-ID reach the other side as they were set or spelled, so that each SUBSCRIBE and NOTIFY is matched to exactly the subscription it belongs to, whatever was lost, repeated, reordered, sent within one dialog, or forgotten in a notifier's restart from what it stored. A subscription is refused as unsupported, too brief or not acceptable exactly when it is. Once faults stop, every subscriber who was not refused for good learns the last version within bounded time.",
  over=["histories", "schedules", "crash_points", "fault_sequences"],
  quant="every history of subscriptions, refreshes, notifications, terminations, restarts and losses",
  why="Tests parse a few Event lines. Which subscription a NOTIFY belongs to and what it says of it depends on a dozen headers over a history of two parties, time and restarts.",
  files=["sip/header", "sip/parser", "sip/message", "sip/address"],
  mech=[("Event and its id", "sip/header/EventImpl.go, sip/parser/EventParser.go"), ("Subscription-State", "sip/header/SubscriptionStateImpl.go, sip/parser/SubscriptionStateParser.go"), ("dialog identifiers", "sip/message/SIPMessage.go, sip/message/SIPRequest.go"), ("what is acceptable", "sip/header/AcceptImpl.go, sip/header/AllowEventsImpl.go, sip/header/MinExpiresImpl.go")],
  obs=["the subscription each message is matched to against the one it was made for", "state, reason and times at the reader against the writer's", "last version known after the last fault"],
  tech="simulated subscribers and a notifier with restarts from what it stored over a lossy network with a simulated clock, against a model of every subscription",
  note=SEEDED + "The subscription logic of both sides is the harness's; what it decides from is read through gosips."),
dict(id="C24", title="Both ends of a call agree on its progress, outcome and end",
  statement="Every INVITE, provisional response, PRACK, CANCEL, ACK, final response and BYE is matched to exactly the transaction and dialog it was made for. Reliable provisional responses (RSeq, RAck, Require, Supported) are taken once and in order, an unknown required extension is refused with the Unsupported that names it, and Timestamp, Reason, Retry-After, Warning, Subject and body are read as meant. Once faults stop, both ends agree within bounded time whether the call is up or over, and with which outcome.",
  over=["histories", "schedules", "fault_sequences"],
  quant="every history of calls, cancellations, refusals, answers, hang-ups and losses",
  why="Tests parse single messages. Whether two ends agree depends on identifiers, numbers and tags copied from message to message by both, in whatever order the messages arrive.",
  files=["sip/message", "sip/header", "sip/parser", "sip/address"],
  mech=[("responses, ACK and CANCEL made from messages", "sip/message/SIPRequest.go, sip/message/SIPResponse.go"), ("reliable responses", "sip/header/RSeqImpl.go, sip/header/RAckImpl.go, sip/parser/RAckParser.go"), ("reasons and retries", "sip/header/ReasonImpl.go, sip/header/RetryAfterImpl.go, sip/header/WarningImpl.go"), ("Timestamp", "sip/header/TimeStampImpl.go, sip/parser/TimeStampParser.go")],
  obs=["the transaction and dialog each message is matched to against the one it was made for", "headers at the reader against the writer's", "state of both ends after the last fault"],
  tech="simulated callers and callees with retransmission timers over a lossy network with partitions, against a model of every call",
  note=SEEDED + "The transaction and call logic of the user agents is the harness's; what it decides from is read and made through gosips."),
dict(id="C25", title="Forking proxies reach every target once and return the one best answer",
  statement="Max-Forwards, Via and its branches, Route (loose and strict routers), Record-Route, Request-URI, Proxy-Require, Unsupported, challenges, tags and CSeq reach each proxy and each end as they were set or spelled, so that a forked request goes to exactly the targets prescribed, never round a loop or further than allowed, and each response is matched to exactly the branch it answers. A copy made of a message for one branch shares nothing with another's. CANCEL and ACK made from a request end exactly the branch they were made for. The caller gets the one best final answer, with the challenges of all branches, and one dialog for each phone that answered. Once faults stop, no phone rings on for a call that is over and both ends agree, within bounded time.",
  over=["histories", "schedules", "fault_sequences"],
  quant="every topology of proxies and phones, every history of forked, redirected, challenged, cancelled and lost messages among them",
  why="Tests parse single messages. What a chain of proxies does to a message, and what comes back of it, is a history of copies, insertions and removals at several parties, in whatever order the answers arrive.",
  files=["sip/message", "sip/header", "sip/address", "sip/parser"],
  mech=[("copies of messages", "sip/message/SIPMessage.go, sip/header/SIPHeaderList.go"), ("topmost headers", "sip/message/SIPMessage.go"), ("CANCEL and ACK", "sip/message/SIPRequest.go"), ("routes", "sip/header/RouteImpl.go, sip/header/RecordRouteImpl.go, sip/address/SipURIImpl.go"), ("Max-Forwards", "sip/header/MaxForwardsImpl.go"), ("branches", "sip/header/ViaImpl.go, sip/message/SIPMessage.go")],
  obs=["what each proxy and phone reads against what the last hop meant", "the branch and dialog each message is matched to against the one it was made for", "the caller's final answer against the one that the topology and the phones' plans prescribe", "state of all ends after the last fault"],
  tech="simulated forking proxies, phones and a caller with retransmission timers over a lossy network with partitions, against a model of every message and call",
  note=SEEDED + "The proxy and phone logic is the harness's; what it decides from is read, copied and changed through gosips."),
dict(id="C26", title="Capabilities, redirections and transfers are negotiated to the outcome both sides' abilities allow",
  statement="Allow, Require, Supported, Unsupported, Accept, Accept-Encoding, Accept-Language and their q values, Content-Type, -Encoding, -Language and -Disposition, Contact of redirections, Retry-After, Warning, Error-Info, Refer-To, In-Reply-To, Reply-To, Date, Subject and Priority reach the other side as they were set or spelled, through relays that parse and encode. The method and header fields that a Contact or Refer-To URI asks for can be read and taken off a copy of it, which leaves the original as it was. So a client that goes by the answers (405, 406, 415, 420, 3xx, Retry-After) makes exactly the requests that the servers' abilities prescribe and ends with the answer they allow, a transfer is done as it was asked for and its outcome, a status line, is told to who asked, retransmissions being recognised, and all within bounded time once faults stop.",
  over=["histories", "schedules", "fault_sequences"],
  quant="every set of abilities of clients and servers, every history of refused, redirected, delayed, transferred and lost requests among them",
  why="Tests parse single headers. Whether what one side says it can do leads the other to the right next request is a property of an exchange of many messages, each made from what the last one was read as.",
  files=["sip/message", "sip/header", "sip/address", "sip/parser"],
  mech=[("lists of abilities and preferences", "sip/header/AcceptImpl.go, sip/header/AcceptEncodingImpl.go, sip/header/AcceptLanguageImpl.go, sip/header/AllowImpl.go and their parsers"), ("targets", "sip/address/SipURIImpl.go, sip/header/ContactImpl.go, sip/header/ReferToImpl.go, sip/parser/URLParser.go"), ("delay and reason", "sip/header/RetryAfterImpl.go, sip/header/WarningImpl.go, sip/header/ErrorInfoImpl.go"), ("bodies and what describes them", "sip/message/SIPMessage.go, sip/header/ContentTypeImpl.go, sip/header/ContentDispositionImpl.go"), ("status line fragments", "sip/parser/StatusLineParser.go, sip/parser/StringMsgParser.go")],
  obs=["what each side reads against what the other meant", "every target taken apart against its text", "the sequence of requests, answers and reports of each job against the one that the abilities alone prescribe", "transactions left over after the last fault"],
  tech="simulated clients, servers and a relay with retransmission timers over a lossy network with partitions, against a model that walks through each negotiation",
  note=SEEDED + "What clients and servers decide is the harness's; what they decide from is read and made through gosips."),
]

NA = [
dict(id="C30", title="Header setters accept exactly the values their syntax allows",
  statement="Each header object's setters accept every value the SIP grammar allows for the field, store it so that the matching getter returns it, and refuse every other value without changing the header.",
  over=["inputs"], quant="every header type, every setter and every argument",
  why="The tests only parse and print a few header lines each.",
  files=["sip/header"], mech=[("range checks in setters", "sip/header/*.go")],
  reason="A pure function of one argument: no schedule, clock, I/O, fault or second party takes part, so a simulator has nothing to decide; it would be input generation in disguise. (What histories of setter calls do is C20.)"),
dict(id="C31", title="Host names and IP addresses are classified by their syntax",
  statement="A host given to the core host type is classified as host name, IPv4 or IPv6 address exactly by its syntax, and an IPv6 reference is printed in brackets.",
  over=["inputs"], quant="every host string",
  why="The host name test parses a handful of strings and does not look at the classification.",
  files=["core/Host.go"], mech=[("constructor", "core/Host.go")],
  reason="A pure function of one string: no schedule, clock, I/O, fault or history takes part."),
]
