package props

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"github.com/use-go/gosips/rtp"
)

const us = time.Microsecond

// ---------------------------------------------------------------- reference

type rtpRef struct {
	pt      uint8
	marker  bool
	seq     uint16
	ts      uint32
	ssrc    uint32
	csrc    []uint32
	ext     bool
	extID   uint16
	extData []uint32
	payload []byte
	pad     int // padding bytes on the wire (foreign senders only)
}

func be32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func be16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }

// encode is RFC 3550 section 5.1, written independently of the library.
func (r *rtpRef) encode() []byte {
	b0 := byte(0x80) | byte(len(r.csrc))
	if r.ext {
		b0 |= 0x10
	}
	if r.pad > 0 {
		b0 |= 0x20
	}
	b1 := r.pt
	if r.marker {
		b1 |= 0x80
	}
	b := []byte{b0, b1}
	b = be16(b, r.seq)
	b = be32(b, r.ts)
	b = be32(b, r.ssrc)
	for _, x := range r.csrc {
		b = be32(b, x)
	}
	if r.ext {
		b = be16(b, r.extID)
		b = be16(b, uint16(len(r.extData)))
		for _, x := range r.extData {
			b = be32(b, x)
		}
	}
	b = append(b, r.payload...)
	if r.pad > 0 {
		for i := 0; i < r.pad-1; i++ {
			b = append(b, 0)
		}
		b = append(b, byte(r.pad))
	}
	return b
}

func get32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// decodeRTP decides what a datagram means.  sure is false where RFC 3550
// leaves the verdict open (a padding count of zero).
func decodeRTP(b []byte) (r *rtpRef, ok, sure bool) {
	if len(b) < 12 || b[0]>>6 != 2 {
		return nil, false, true
	}
	r = &rtpRef{pt: b[1] & 0x7f, marker: b[1]&0x80 != 0, seq: uint16(b[2])<<8 | uint16(b[3]), ts: get32(b[4:]), ssrc: get32(b[8:])}
	if r.marker && (r.pt == 72 || r.pt == 73) {
		return nil, false, true
	}
	off := 12
	n := int(b[0] & 15)
	if len(b) < off+4*n {
		return nil, false, true
	}
	for i := 0; i < n; i++ {
		r.csrc = append(r.csrc, get32(b[off:]))
		off += 4
	}
	if b[0]&0x10 != 0 {
		if len(b) < off+4 {
			return nil, false, true
		}
		r.ext = true
		r.extID = uint16(b[off])<<8 | uint16(b[off+1])
		m := int(b[off+2])<<8 | int(b[off+3])
		off += 4
		if len(b) < off+4*m {
			return nil, false, true
		}
		for i := 0; i < m; i++ {
			r.extData = append(r.extData, get32(b[off:]))
			off += 4
		}
	}
	sure = true
	if b[0]&0x20 != 0 {
		r.pad = int(b[len(b)-1])
		if r.pad == 0 {
			sure = false
		}
		if r.pad > len(b)-off {
			return nil, false, true
		}
	}
	r.payload = b[off : len(b)-r.pad]
	return r, true, sure
}

func diffRTP(p *rtp.RTPPacket, r *rtpRef) string {
	if p.GetPayloadType() != r.pt {
		return fmt.Sprintf("payload type %d, sent %d", p.GetPayloadType(), r.pt)
	}
	if p.HasMarker() != r.marker {
		return fmt.Sprintf("marker %v, sent %v", p.HasMarker(), r.marker)
	}
	if p.GetSequenceNumber() != r.seq {
		return fmt.Sprintf("sequence number %d, sent %d", p.GetSequenceNumber(), r.seq)
	}
	if p.GetTimestamp() != r.ts {
		return fmt.Sprintf("timestamp %d, sent %d", p.GetTimestamp(), r.ts)
	}
	if p.GetSSRC() != r.ssrc {
		return fmt.Sprintf("SSRC %d, sent %d", p.GetSSRC(), r.ssrc)
	}
	if int(p.GetCSRCCount()) != len(r.csrc) {
		return fmt.Sprintf("%d CSRCs, sent %d", p.GetCSRCCount(), len(r.csrc))
	}
	for i, x := range r.csrc {
		if p.GetCSRC(uint8(i)) != x {
			return fmt.Sprintf("CSRC %d is %08x, sent %08x", i, p.GetCSRC(uint8(i)), x)
		}
	}
	if p.GetCSRC(uint8(len(r.csrc))) != 0 {
		return "a CSRC beyond the last one is not 0"
	}
	if p.HasExtension() != r.ext {
		return fmt.Sprintf("has extension %v, sent %v", p.HasExtension(), r.ext)
	}
	if r.ext {
		if p.GetExtensionID() != r.extID || int(p.GetExtensionLength()) != len(r.extData) {
			return fmt.Sprintf("extension %04x/%d, sent %04x/%d", p.GetExtensionID(), p.GetExtensionLength(), r.extID, len(r.extData))
		}
		d := p.GetExtensionData()
		if len(d) != len(r.extData) {
			return fmt.Sprintf("%d extension words, sent %d", len(d), len(r.extData))
		}
		for i := range d {
			if d[i] != r.extData[i] {
				return fmt.Sprintf("extension word %d is %08x, sent %08x", i, d[i], r.extData[i])
			}
		}
	}
	if !bytes.Equal(p.GetPayload(), r.payload) {
		return fmt.Sprintf("payload of %d bytes %.40x, sent %d bytes %.40x", len(p.GetPayload()), p.GetPayload(), len(r.payload), r.payload)
	}
	return ""
}

func genRTP(c *Ctx, seq uint16, ts, ssrc uint32) *rtpRef {
	t := c.T
	r := &rtpRef{seq: seq, ts: ts, ssrc: ssrc, marker: t.Bool()}
	r.pt = uint8(t.Intn(128))
	if r.pt == 72 || r.pt == 73 {
		r.pt = 0
	}
	for n := t.Pick(6, 2, 2, 1, 1) * t.Range(1, 4); n > 0 && len(r.csrc) < 15; n-- {
		r.csrc = append(r.csrc, t.U32())
	}
	if t.Chance(30) {
		r.ext = true
		r.extID = t.U16()
		n := t.Intn(6)
		if t.Chance(3) {
			n = t.Range(100, 16000)
			if t.Chance(10) {
				n = t.Range(16000, 65535)
			}
		}
		base := t.U32()
		for i := 0; i < n; i++ {
			if i < 6 {
				base = t.U32()
			}
			r.extData = append(r.extData, base^uint32(i)*0x01010101)
		}
	}
	n := t.Intn(24)
	if t.Chance(20) {
		n = int(t.Log(11))
	}
	r.payload = t.Bytes(n)
	return r
}

func recv(c *Ctx, data []byte, isRTP bool, at *rtp.RTPTime) (p *rtp.RTPPacket, err error) {
	addr := rtp.NewIPAddress(net.IPv4(10, 0, 0, 1), 5004)
	good := false
	c.Lib("receiving a datagram", Bound(len(data)), func() {
		raw := rtp.NewRawPacket(data, addr, at, isRTP)
		good = raw.GetDataLength() == len(data) && raw.IsRTP() == isRTP && raw.GetSenderAddress() != nil && raw.GetSenderAddress().IsSameAddress(addr)
		p, err = rtp.NewRTPPacketFromRawPacket(raw)
	})
	if !good {
		c.Fail("raw", "a raw packet of %d bytes does not say what arrived, of which kind, and from where", len(data))
	}
	return
}

func libTime(c *Ctx) (x *rtp.RTPTime) {
	c.Lib("reading the clock", 0, func() { x = rtp.CurrentRTPTime() })
	return
}

func runRTP(c *Ctx) {
	t := c.T
	s := NewSim(c)
	switch t.Pick(3, 3, 2) {
	case 1:
		s.Corrupt = t.Range(5, 40)
	case 2:
		s.Trunc = t.Range(5, 40)
	}
	type kept struct {
		p   *rtp.RTPPacket
		ref *rtpRef
		at  *rtp.RTPTime
		raw []byte
	}
	var jitter []kept
	var scratch *rtp.RTPPacket   // one packet object, filled again and again
	rxbuf := make([]byte, 70000) // one receive buffer for every datagram, as real receivers have
	s.Listen("rx", func(d *Dgram) {
		port := t.Chance(4)
		n := copy(rxbuf, d.Data)
		now := libTime(c)
		if port {
			p, err := recv(c, rxbuf[:n], false, now)
			c.Fault("wrong port")
			if err == nil || p != nil {
				c.Fail("rtcp-port-accepted", "a datagram from the RTCP port was accepted as RTP")
			}
			return
		}
		want, ok, sure := decodeRTP(append([]byte(nil), d.Data...))
		p, err := recv(c, rxbuf[:n], true, now)
		if (p == nil) == (err == nil) {
			c.Fail("result-and-error", "packet nil=%v together with error %v", p == nil, err)
		}
		if sure && t.Chance(40) {
			if scratch == nil {
				if scratch = p; p != nil {
					p, _ = recv(c, rxbuf[:n], true, now)
				}
			} else {
				c.Probe("packet object filled again")
				var e2 error
				c.Lib("ParseRawPacket", Bound(n), func() {
					e2 = scratch.ParseRawPacket(rtp.NewRawPacket(rxbuf[:n], rtp.NewHostAddress("tx", 5004), now, true))
				})
				if ok != (e2 == nil) {
					c.Fail("verdict again", "datagram %x: accepted=%v (%v) by a packet object that had held another, RFC 3550 says %v", d.Data[:min(len(d.Data), 64)], e2 == nil, e2, ok)
				}
				if ok {
					var df string
					c.Lib("reading a packet", 0, func() { df = diffRTP(scratch, want) })
					if df != "" {
						c.Fail("field again", "received by a packet object that had held another: %s", df)
					}
				}
			}
		}
		if !sure {
			c.Probe("undecided padding")
			if p == nil {
				return
			}
		} else if ok != (p != nil) {
			c.Fail("verdict", "datagram %x: accepted=%v (%v), RFC 3550 says %v", d.Data[:min(len(d.Data), 64)], p != nil, err, ok)
		}
		if p == nil {
			c.Probe("rejected")
			c.Log("rejected %v", err)
			return
		}
		if d.Damaged == "" && d.Meta != nil {
			want = d.Meta.(*rtpRef)
		} else if d.Damaged != "" {
			c.Probe("accepted damaged")
		}
		c.Probe("accepted")
		if want.pad > 0 {
			c.Probe("padded")
		}
		jitter = append(jitter, kept{p, want, now, append([]byte(nil), d.Data...)})
		var df string
		c.Lib("reading a packet", 0, func() { df = diffRTP(p, want) })
		if df != "" {
			c.Fail("field", "received %s", df)
		}
	})
	nsend := t.Range(1, 3)
	for k := 0; k < nsend; k++ {
		from := fmt.Sprintf("tx%d", k)
		seq, ts, ssrc := t.U16(), t.U32(), t.U32()
		if t.Chance(30) {
			seq = 65533
		}
		if t.Chance(30) {
			ts = 0xffffff00
		}
		foreign := t.Chance(40)
		n := t.Range(1, 8)
		var again *rtp.RTPPacket
		for i := 0; i < n; i++ {
			seq++
			ts += 160
			r := genRTP(c, seq, ts, ssrc)
			if foreign && t.Chance(50) {
				r.pad = t.Range(1, 255)
			}
			s.At(time.Duration(i)*20*time.Millisecond, func() {
				wire := r.encode()
				if len(wire) > 65507 {
					return
				}
				if !foreign {
					pay := append([]byte(nil), r.payload...)
					cs := append([]uint32(nil), r.csrc...)
					ex := append([]uint32(nil), r.extData...)
					var p *rtp.RTPPacket
					c.Lib("building a packet", Bound(len(wire)), func() {
						p = rtp.NewPacket(r.pt, pay, r.seq, r.ts, r.ssrc, r.marker, uint8(len(cs)), cs, r.ext, r.extID, uint16(len(ex)), ex)
					})
					if scratch != nil && t.Chance(20) { // one that was received
						again, scratch = scratch, nil
						c.Probe("received packet object built again")
					}
					if again != nil && p != nil && t.Bool() {
						var err error
						c.Lib("BuildPacket", Bound(len(wire)), func() {
							err = again.BuildPacket(r.pt, pay, r.seq, r.ts, r.ssrc, r.marker, uint8(len(cs)), cs, r.ext, r.extID, uint16(len(ex)), ex)
						})
						if err != nil {
							c.Fail("build-refused", "a valid packet was not built in a used object (%v): %+v", err, *r)
						}
						p = again
						c.Probe("packet object built again")
					}
					again = p
					if p == nil {
						c.Fail("build-refused", "a valid packet was not built: %+v", *r)
					}
					// the application reuses its buffers
					for i := range pay {
						pay[i] ^= 0xff
					}
					for i := range cs {
						cs[i] = ^cs[i]
					}
					for i := range ex {
						ex[i] = ^ex[i]
					}
					var df string
					var got []byte
					c.Lib("reading a built packet", 0, func() { df = diffRTP(p, r); got = p.GetPacket() })
					if df != "" {
						c.Fail("built-field", "built packet: %s", df)
					}
					if !bytes.Equal(got, wire) {
						i := 0
						for i < len(got) && i < len(wire) && got[i] == wire[i] {
							i++
						}
						c.Fail("wire", "bytes on the wire differ from RFC 3550 at offset %d (lengths %d, %d): %.60x, want %.60x", i, len(got), len(wire), got, wire)
					}
					wire = got
					if t.Chance(30) {
						checkHeaderCodec(c, r, got)
					}
				}
				s.Send(from, "rx", wire, r)
			})
		}
	}
	if t.Chance(25) {
		refusals(c)
	}
	s.Run()
	for i := range rxbuf {
		rxbuf[i] = 0xee
	}
	for _, k := range jitter {
		var df string
		var b []byte
		var same bool
		c.Lib("reading a stored packet", 0, func() {
			df = diffRTP(k.p, k.ref)
			b = k.p.GetPacket()
			rt := k.p.GetReceiveTime()
			same = rt != nil && rt.ELT(k.at) && rt.EGT(k.at)
		})
		if df != "" {
			c.Fail("stored-field", "stored packet changed after its receive buffer was reused: %s", df)
		}
		if !bytes.Equal(b, k.raw) {
			c.Fail("stored-bytes", "stored packet's bytes changed after its receive buffer was reused")
		}
		if !same {
			c.Fail("receive-time", "the receive time is not the time of arrival")
		}
	}
	if len(jitter) > 1 {
		c.Nontriv = true
	}
	c.Log("end: %d stored", len(jitter))
}

// checkHeaderCodec runs the header and extension codecs on their own.
func checkHeaderCodec(c *Ctx, r *rtpRef, wire []byte) {
	hl := 12 + 4*len(r.csrc)
	c.Lib("header codec", Bound(len(wire)), func() {
		h, err := rtp.NewRTPHeaderFromBytes(wire)
		if err != nil {
			c.Fail("header", "header not parsed: %v", err)
		}
		if b := h.Encode(); !bytes.Equal(b, wire[:hl]) {
			c.Fail("header", "header re-encodes as %x, was %x", b, wire[:hl])
		}
		if r.ext {
			e := rtp.NewRTPExtensionFromBytes(wire[hl:])
			if e == nil {
				c.Fail("extension", "extension not parsed")
			}
			n := 4 + 4*len(r.extData)
			if b := e.Encode(); !bytes.Equal(b, wire[hl:hl+n]) {
				c.Fail("extension", "extension re-encodes differently (%d bytes, was %d)", len(b), n)
			}
		}
	})
	c.Probe("header codec")
}

// refusals: what the application must not be able to send.
func refusals(c *Ctx) {
	t := c.T
	pt, n := uint8(0), uint8(0)
	switch t.Intn(4) {
	case 0:
		pt = uint8(t.Range(128, 255))
	case 1:
		pt = 72
	case 2:
		pt = 73
	case 3:
		n = uint8(t.Range(16, 255))
	}
	cs := make([]uint32, n)
	var p *rtp.RTPPacket
	c.Lib("building a packet", 0, func() {
		p = rtp.NewPacket(pt, []byte{1}, 1, 2, 3, false, n, cs, false, 0, 0, nil)
	})
	if p != nil {
		c.Fail("built-invalid", "a packet with payload type %d and %d CSRCs was built", pt, n)
	}
	c.Probe("refusal")
}

// ---------------------------------------------------------------- RTCP

type rtcpRef struct {
	app     bool
	sub     uint8
	ssrcs   []uint32
	reason  []byte
	hasR    bool
	name    []byte
	appdata []byte
	pad     int
}

func (r *rtcpRef) encode() []byte {
	b := []byte{0x80, 203, 0, 0}
	if r.app {
		b[1] = 204
		b[0] |= r.sub
		b = be32(b, r.ssrcs[0])
		b = append(b, r.name...)
		b = append(b, r.appdata...)
	} else {
		b[0] |= byte(len(r.ssrcs))
		for _, x := range r.ssrcs {
			b = be32(b, x)
		}
		if r.hasR {
			b = append(b, byte(len(r.reason)))
			b = append(b, r.reason...)
			for len(b)%4 != 0 {
				b = append(b, 0)
			}
		}
	}
	if r.pad > 0 {
		b[0] |= 0x20
		for i := 0; i < r.pad-1; i++ {
			b = append(b, 0)
		}
		b = append(b, byte(r.pad))
	}
	n := len(b)/4 - 1
	b[2], b[3] = byte(n>>8), byte(n)
	return b
}

// decodeRTCP says what one RTCP packet (already cut out of its compound) means.
func decodeRTCP(b []byte, app bool) (r *rtcpRef, ok, sure bool) {
	if len(b) < 4 {
		return nil, false, true
	}
	sure = true
	n := len(b)
	pad := 0
	if b[0]&0x20 != 0 {
		pad = int(b[n-1])
		if pad == 0 {
			sure = false
		}
		if pad%4 != 0 || pad > n-4 {
			return nil, false, true
		}
		n -= pad
	}
	r = &rtcpRef{app: app, pad: pad}
	if app {
		if n < 12 {
			return nil, false, sure
		}
		r.sub = b[0] & 31
		r.ssrcs = []uint32{get32(b[4:])}
		r.name = b[8:12]
		r.appdata = b[12:n]
		return r, true, sure
	}
	off := 4
	for i := 0; i < int(b[0]&31); i++ {
		if off+4 > n {
			return nil, false, sure
		}
		r.ssrcs = append(r.ssrcs, get32(b[off:]))
		off += 4
	}
	if off < n {
		l := int(b[off])
		if off+1+l > n {
			return nil, false, sure
		}
		r.hasR = true
		r.reason = b[off+1 : off+1+l]
	}
	return r, true, sure
}

func runRTCP(c *Ctx) {
	t := c.T
	s := NewSim(c)
	switch t.Pick(3, 3, 2) {
	case 1:
		s.Corrupt = t.Range(5, 50)
	case 2:
		s.Trunc = t.Range(5, 50)
	}
	type kept struct {
		b   *rtp.RTCPBYEPacket
		a   *rtp.RTCPAPPPacket
		ref *rtcpRef
		ok  bool
		raw []byte
	}
	var store []kept
	rxbuf := make([]byte, 70000)
	check := func(k kept, when string) {
		c.Lib("reading an RTCP packet", 0, func() {
			var pk *rtp.RTCPPacket
			if k.b != nil {
				pk = &k.b.RTCPPacket
			} else {
				pk = &k.a.RTCPPacket
			}
			if !bytes.Equal(pk.GetPacketData(), k.raw) || pk.GetPacketLength() != len(k.raw) {
				c.Fail("rtcp-bytes", "%s: packet data is not what was received", when)
			}
			if k.b != nil && pk.GetPacketType() != rtp.BYE || k.a != nil && pk.GetPacketType() != rtp.APP {
				c.Fail("rtcp-type", "%s: packet type %d", when, pk.GetPacketType())
			}
			if !k.ok {
				if k.b != nil && (k.b.GetSSRCCount() != 0 || k.b.HasReasonForLeaving() || k.b.GetReasonLength() != 0 || len(k.b.GetReasonData()) != 0) ||
					k.a != nil && (len(k.a.GetAPPData()) != 0 || k.a.GetAPPDataLength() != 0 || len(k.a.GetName()) != 0) {
					c.Fail("rtcp-unknown-content", "%s: a packet that could not be interpreted reports contents", when)
				}
				return
			}
			r := k.ref
			if k.b != nil {
				if k.b.GetSSRCCount() != len(r.ssrcs) {
					c.Fail("bye-sources", "%s: %d sources, sent %d", when, k.b.GetSSRCCount(), len(r.ssrcs))
				}
				for i, x := range r.ssrcs {
					if k.b.GetSSRC(i) != x {
						c.Fail("bye-sources", "%s: source %d is %08x, sent %08x", when, i, k.b.GetSSRC(i), x)
					}
				}
				if k.b.HasReasonForLeaving() != r.hasR || k.b.GetReasonLength() != len(r.reason) || !bytes.Equal(k.b.GetReasonData(), r.reason) {
					c.Fail("bye-reason", "%s: reason %v %d %q, sent %v %q", when, k.b.HasReasonForLeaving(), k.b.GetReasonLength(), k.b.GetReasonData(), r.hasR, r.reason)
				}
			} else {
				if k.a.GetSubType() != r.sub || k.a.GetSSRC() != r.ssrcs[0] {
					c.Fail("app-header", "%s: subtype %d ssrc %08x, sent %d %08x", when, k.a.GetSubType(), k.a.GetSSRC(), r.sub, r.ssrcs[0])
				}
				if !bytes.Equal(k.a.GetName(), r.name) {
					c.Fail("app-name", "%s: name %q, sent %q", when, k.a.GetName(), r.name)
				}
				if k.a.GetAPPDataLength() != len(r.appdata) || !bytes.Equal(k.a.GetAPPData(), r.appdata) {
					c.Fail("app-data", "%s: %d bytes %.40x, sent %d bytes %.40x", when, k.a.GetAPPDataLength(), k.a.GetAPPData(), len(r.appdata), r.appdata)
				}
			}
		})
	}
	one := func(data []byte, n int, app bool, what string) {
		ref, ok, sure := decodeRTCP(append([]byte(nil), data[:n]...), app)
		k := kept{raw: append([]byte(nil), data[:n]...), ok: ok, ref: ref}
		known := false
		c.Lib("receiving an RTCP packet", Bound(n), func() {
			if app {
				k.a = rtp.NewRTCPAPPPacket(data, n)
				known = k.a.IsKnownFormat()
			} else {
				k.b = rtp.NewRTCPBYEPacket(data, n)
				known = k.b.IsKnownFormat()
			}
		})
		if known != ok {
			if sure {
				c.Fail("rtcp-verdict", "%s of %d bytes %.60x: interpreted=%v, RFC 3550 says %v", what, n, data[:n], known, ok)
			}
			if !known {
				return
			}
		}
		if known {
			c.Probe("interpreted")
		} else {
			c.Probe("not interpreted")
		}
		c.Log("%s known=%v", what, known)
		check(k, "on arrival")
		store = append(store, k)
	}
	s.Listen("rx", func(d *Dgram) {
		n := copy(rxbuf, d.Data)
		// the application walks the compound packet by its length fields
		off := 0
		for off < n || n == 0 {
			l := n - off
			pt := byte(203)
			if l >= 4 {
				pt = rxbuf[off+1]
				if w := (int(rxbuf[off+2])<<8 | int(rxbuf[off+3]) + 0) * 4; w+4 <= l {
					l = w + 4
				}
			}
			app := pt == 204
			if pt != 203 && pt != 204 {
				app = t.Bool()
			}
			// hand over the rest of the datagram with the length of this packet
			one(rxbuf[off:], l, app, map[bool]string{true: "APP", false: "BYE"}[app])
			off += l
			if n == 0 {
				break
			}
		}
	})
	nsend := t.Range(1, 4)
	for k := 0; k < nsend; k++ {
		from := fmt.Sprintf("tx%d", k)
		for i := t.Range(1, 3); i > 0; i-- {
			var comp []byte
			for j := t.Range(1, 3); j > 0; j-- {
				r := &rtcpRef{}
				if t.Bool() {
					r.app = true
					r.sub = uint8(t.Intn(32))
					r.ssrcs = []uint32{t.U32()}
					r.name = t.Bytes(4)
					r.appdata = t.Bytes(4 * t.Intn(8))
				} else {
					for n := t.Intn(32) * t.Pick(1, 2) / 2; n > 0; n-- {
						r.ssrcs = append(r.ssrcs, t.U32())
					}
					r.hasR = t.Bool()
					if r.hasR {
						r.reason = t.Bytes(t.Pick(4, 2, 1) * t.Range(0, 100))
					}
				}
				if t.Chance(30) {
					r.pad = 4 * t.Range(1, 63)
				}
				comp = append(comp, r.encode()...)
			}
			s.At(time.Duration(t.Intn(5000))*time.Millisecond, func() { s.Send(from, "rx", comp, nil) })
		}
	}
	s.Run()
	for i := range rxbuf {
		rxbuf[i] = 0xee
	}
	for _, k := range store {
		check(k, "after the receive buffer was reused")
	}
	if len(store) > 1 {
		c.Nontriv = true
	}
	c.Log("end: %d", len(store))
}

// ---------------------------------------------------------------- clock

// setClock makes the simulated clock read sec.usec.
func setClock(c *Ctx, micros int64) {
	c.skew = 0
	c.base = time.Unix(micros/1000000, micros%1000000*1000).Add(-c.now)
	c.baseSet = true
}

func mkTime(c *Ctx, micros int64) *rtp.RTPTime {
	b, s := c.base, c.baseSet
	setClock(c, micros)
	x := libTime(c)
	c.base, c.baseSet = b, s
	return x
}

// same compares through the library's own ordering and through NTP.
func sameTime(a, b *rtp.RTPTime) bool {
	return a.ELT(b) && a.EGT(b) && !a.LT(b) && !a.GT(b) && a.GetNTPTime().GetMSW() == b.GetNTPTime().GetMSW() && a.GetNTPTime().GetLSW() == b.GetNTPTime().GetLSW()
}

const ntpEnd = int64(2085978496) * 1000000 // when the 32-bit NTP seconds wrap

func genMicros(c *Ctx, max int64) int64 {
	t := c.T
	switch t.Pick(4, 2, 2, 2) {
	case 0:
		return int64(1500000000)*1000000 + int64(t.Draw(1e13))
	case 1:
		return int64(t.Draw(20e6))
	case 2: // next to a second boundary
		return int64(t.Draw(uint64(max/1000000)))*1000000 + int64([]int{0, 1, 999999, 999998, 500000}[t.Intn(5)])
	}
	return int64(t.Draw(uint64(max)))
}

func runRTPTime(c *Ctx) {
	t := c.T
	// Nodes with their own clocks take time stamps, send reports carrying NTP
	// time through the network, wait, and compute with what they receive.
	s := NewSim(c)
	n := t.Range(1, 3)
	type stamp struct {
		x *rtp.RTPTime
		m int64 // microseconds
	}
	var stamps []stamp
	clock := make([]int64, n) // offset of each node's clock
	for i := range clock {
		clock[i] = genMicros(c, ntpEnd-1e9)
	}
	read := func(i int) int64 {
		v := clock[i] + int64(c.now/us)
		if v < 0 {
			v = 0
		}
		if v >= ntpEnd {
			v %= ntpEnd
		}
		return v
	}
	add := func(x *rtp.RTPTime, m int64) { stamps = append(stamps, stamp{x, m}) }
	take := func(i int) stamp {
		m := read(i)
		setClock(c, m)
		x := libTime(c)
		add(x, m)
		return stamp{x, m}
	}
	ok := func(what string, x *rtp.RTPTime, m int64) {
		w := mkTime(c, m)
		good := false
		c.Lib("comparing times", 0, func() { good = sameTime(x, w) })
		if !good {
			c.Fail(what, "%s gives a time that is not %d.%06d s", what, m/1000000, m%1000000)
		}
	}
	cmp := func(a, b stamp) {
		var lt, gt, le, ge bool
		c.Lib("comparing times", 0, func() { lt, gt, le, ge = a.x.LT(b.x), a.x.GT(b.x), a.x.ELT(b.x), a.x.EGT(b.x) })
		if lt != (a.m < b.m) || gt != (a.m > b.m) || le != (a.m <= b.m) || ge != (a.m >= b.m) {
			c.Fail("order", "%d us against %d us: < %v, > %v, <= %v, >= %v", a.m, b.m, lt, gt, le, ge)
		}
	}
	for i := 0; i < n; i++ {
		i := i
		s.Listen(fmt.Sprint(i), func(d *Dgram) {
			// a report: NTP stamp of the sender
			w := d.Meta.(int64)
			msw, lsw := get32(d.Data), get32(d.Data[4:])
			var back *rtp.RTPTime
			c.Lib("reading NTP time", 0, func() { back = rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(msw, lsw)) })
			// within a microsecond of what was sent
			lo, hi := mkTime(c, max(w-1, 0)), mkTime(c, w+1)
			good := false
			c.Lib("comparing times", 0, func() { good = back.EGT(lo) && back.ELT(hi) })
			if !good {
				c.Fail("ntp-roundtrip", "time %d us sent as NTP %08x.%08x comes back more than 1 us off", w, msw, lsw)
			}
			c.Probe("ntp round trip")
			if msw < 2208988800 {
				c.Fail("ntp", "NTP seconds %d lie before 1970", msw)
			}
		})
	}
	steps := t.Range(4, 14)
	for k := 0; k < steps; k++ {
		i := t.Intn(n)
		op := t.Intn(8)
		s.At(time.Duration(t.Log(22))*us, func() {
			switch op {
			case 0, 1:
				st := take(i)
				ok("reading the clock", st.x, st.m)
				c.Log("node %d reads %d", i, st.m)
				if len(stamps) > 1 {
					cmp(st, stamps[t.Intn(len(stamps))])
				}
			case 2: // clock jump
				d := int64(t.Log(40))
				if t.Bool() {
					d = -d
				}
				clock[i] += d
				c.Fault("clock jump")
				c.Log("clock of %d jumps by %d us", i, d)
			case 3: // report
				st := take(i)
				var msw, lsw uint32
				c.Lib("NTP time", 0, func() { x := st.x.GetNTPTime(); msw, lsw = x.GetMSW(), x.GetLSW() })
				wm := uint32(st.m/1000000 + 2208988800)
				wl := uint32((st.m % 1000000) << 32 / 1000000)
				if msw != wm || lsw-wl > 1 && wl-lsw > 1 {
					c.Fail("ntp", "time %d us is NTP %08x.%08x, want %08x.%08x", st.m, msw, lsw, wm, wl)
				}
				s.Send(fmt.Sprint(i), fmt.Sprint(t.Intn(n)), be32(be32(nil, msw), lsw), st.m)
			case 4, 5: // elapsed time, and back
				a, b := take(i), take(t.Intn(n))
				if len(stamps) > 0 && t.Bool() {
					b = stamps[t.Intn(len(stamps))]
				}
				if a.m < b.m {
					a, b = b, a
				}
				var x *rtp.RTPTime
				c.Lib("subtracting times", 0, func() { x = a.x.Clone(); x.Sub(b.x) })
				ok("subtraction", x, a.m-b.m)
				add(x, a.m-b.m)
				var y *rtp.RTPTime
				c.Lib("adding times", 0, func() { y = x.Clone(); y.Add(b.x) })
				ok("addition", y, a.m)
				c.Log("difference %d", a.m-b.m)
				c.Probe("arithmetic")
			case 6: // wait
				m := int64(t.Log(33))
				d := mkTime(c, m)
				before := c.slept
				c.Lib("waiting", 0, func() { rtp.WaitRTPTime(d) })
				if got := int64((c.slept - before) / us); got != m {
					c.Fail("wait", "waited %d us instead of %d us", got, m)
				}
				c.Log("waited %d", m)
				c.Probe("wait")
			case 7: // from seconds
				m := genMicros(c, ntpEnd)
				f := float64(m) / 1e6
				var x *rtp.RTPTime
				c.Lib("time from seconds", 0, func() { x = rtp.NewRTPTimeFromFloat64(f) })
				lo, hi := mkTime(c, max(m-1, 0)), mkTime(c, m+1)
				good := false
				c.Lib("comparing times", 0, func() { good = x.EGT(lo) && x.ELT(hi) })
				if !good {
					c.Fail("float", "%v s becomes a time more than 1 us off", f)
				}
				c.Log("from %v", f)
			}
		})
	}
	s.Run()
	// nothing that happened later changed a stored time stamp
	for _, st := range stamps {
		ok("a stored time stamp", st.x, st.m)
	}
	for i := 0; i+1 < len(stamps); i++ {
		cmp(stamps[i], stamps[i+1])
	}
	if len(stamps) > 2 {
		c.Nontriv = true
	}
	c.Log("end %d", len(stamps))
}

// ---------------------------------------------------------------- collisions

func runCollision(c *Ctx) {
	t := c.T
	type peer struct {
		host string
		ip   net.IP
		port uint16
		kind int
	}
	key := func(p peer) string {
		if p.kind == 2 {
			return fmt.Sprintf("h%q:%d", p.host, p.port)
		}
		return fmt.Sprintf("i%x:%d", []byte(p.ip.To16()), p.port)
	}
	mk := func(p peer) rtp.Address {
		switch p.kind {
		case 0:
			return rtp.NewIPAddress(append(net.IP(nil), p.ip.To4()...), p.port)
		case 1:
			return rtp.NewIPAddress(append(net.IP(nil), p.ip.To16()...), p.port)
		}
		return rtp.NewHostAddress(p.host, p.port)
	}
	var peers []peer
	npeer := c.Many(1, 5, 60)
	for i := npeer; i > 0; i-- {
		p := peer{kind: t.Intn(3), port: uint16(5000 + 2*t.Intn(3))}
		p.host = t.Of("a", "b", "10.0.0.1")
		if npeer > 5 && t.Bool() {
			p.host = fmt.Sprintf("host-%d.example", t.Intn(60))
		}
		p.ip = net.IPv4(10, 0, 0, byte(t.Intn(3)))
		if npeer > 5 && t.Bool() {
			p.ip = net.IPv4(10, 0, byte(t.Intn(2)), byte(t.Intn(256)))
		}
		if p.kind == 1 && t.Bool() {
			p.ip = net.ParseIP(fmt.Sprintf("2001:db8::%d", t.Intn(3)))
		}
		peers = append(peers, p)
	}
	var list *rtp.CollisionList
	c.Lib("new list", 0, func() { list = rtp.NewCollisionList() })
	model := map[string]int64{}
	now := genMicros(c, int64(1)<<32*1000000-1e12)
	type held struct {
		a rtp.Address
		p peer
	}
	var hs []held
	steps := c.Many(3, 30, 100) + npeer - 1
	for k := 0; k < steps; k++ {
		p := peers[t.Intn(len(peers))]
		switch t.Pick(5, 3, 4, 1, 2, 3, 2) {
		case 6: // two addresses, one of them a copy that outlives changes to the original
			q := peers[t.Intn(len(peers))]
			a, b := mk(p), mk(q)
			var same, sameHost, ok bool
			c.Lib("comparing addresses", 0, func() {
				cp := a.Clone()
				same, sameHost = cp.IsSameAddress(b), cp.IsFromSameHost(b)
				ok = b.IsSameAddress(cp) == same && b.IsFromSameHost(cp) == sameHost && cp.IsSameAddress(a) && a.IsFromSameHost(cp)
				switch x := a.(type) {
				case *rtp.IPAddress:
					ip := x.GetIP()
					for i := range ip {
						ip[i] ^= 0xff
					}
					x.SetPort(p.port ^ 0xffff)
					y, isIP := cp.(*rtp.IPAddress)
					want := rtp.IPv6AddressType
					if p.kind == 0 {
						want = rtp.IPv4AddressType
					}
					ok = ok && isIP && y.GetIP().Equal(p.ip) && y.GetPort() == p.port && (y.GetAddressType() == want || p.kind == 1 && p.ip.To4() != nil) && !cp.IsFromSameHost(x)
				case *rtp.HostAddress:
					x.SetHost(p.host + "x")
					x.SetPort(p.port ^ 0xffff)
					y, isHost := cp.(*rtp.HostAddress)
					ok = ok && isHost && y.GetHost() == p.host && y.GetPort() == p.port && y.GetAddressType() == rtp.HostAddressType && !cp.IsFromSameHost(x)
				}
			})
			wantHost := (p.kind == 2) == (q.kind == 2) && (p.kind == 2 && p.host == q.host || p.kind != 2 && p.ip.Equal(q.ip))
			if !ok || sameHost != wantHost || same != (wantHost && p.port == q.port) {
				c.Fail("compare", "%s and %s: same %v, same host %v, consistent %v", key(p), key(q), same, sameHost, ok)
			}
			c.Log("compared %s %s", key(p), key(q))
		case 0: // a collision is detected
			a := mk(p)
			var created bool
			var err error
			tm := mkTime(c, now)
			c.Lib("recording a collision", 0, func() { created, err = list.UpdateAddress(a, *tm) })
			_, had := model[key(p)]
			if err != nil || created == had {
				c.Fail("update", "recording %s: created=%v err=%v, already known=%v", key(p), created, err, had)
			}
			model[key(p)] = now
			hs = append(hs, held{a, p})
			c.Log("t=%d collision from %s", now, key(p))
		case 1: // the receive path reuses the address object
			if len(hs) > 0 {
				h := hs[t.Intn(len(hs))]
				q := peers[t.Intn(len(peers))]
				switch x := h.a.(type) {
				case *rtp.IPAddress:
					if t.Bool() {
						c.Lib("reusing an address", 0, func() { x.SetPort(9); x.SetIP(net.IPv4(192, 168, 9, 9)) })
					} else {
						ip := x.GetIP()
						copy(ip, q.ip.To16()[16-len(ip):])
					}
				case *rtp.HostAddress:
					c.Lib("reusing an address", 0, func() { x.SetHost("zz"); x.SetPort(9) })
				}
				c.Fault("address object reused")
				c.Log("address object reused")
			}
		case 2: // time passes, or the clock jumps
			d := int64(t.Log(36))
			if t.Chance(15) {
				d = -d
				c.Fault("clock jump back")
			} else if d > 1e9 {
				c.Fault("clock jump")
			}
			now += d
			if now < 0 {
				now = 0
			}
			if now > int64(1)<<32*1000000-2 {
				now = int64(1)<<32*1000000 - 2
			}
			c.Log("t=%d", now)
		case 3:
			c.Lib("clearing", 0, func() { list.Clear() })
			model = map[string]int64{}
			c.Log("clear")
		case 4: // time-out run
			delay := int64(t.Log(36))
			if t.Chance(20) {
				delay = now + int64(t.Intn(3)) - 1
			}
			if t.Chance(30) && len(model) > 0 {
				// exactly the age of some entry, or next to it
				for _, q := range peers {
					if v, ok := model[key(q)]; ok && now-v >= 1 {
						delay = now - v + int64(t.Intn(3)) - 1
						break
					}
				}
			}
			if delay < 0 {
				delay = 0
			}
			a, b := mkTime(c, now), mkTime(c, delay)
			c.Lib("timing out", 0, func() { list.Timeout(a, b) })
			good := false
			a2, b2 := mkTime(c, now), mkTime(c, delay)
			c.Lib("comparing times", 0, func() { good = sameTime(a, a2) && sameTime(b, b2) })
			if !good {
				c.Fail("timeout-args", "timing out changed the caller's times")
			}
			for k, v := range model {
				if v < now-delay {
					delete(model, k)
				}
			}
			c.Fault("timeout run")
			c.Log("t=%d timeout %d", now, delay)
		case 5:
			if t.Chance(5) {
				var err error
				tm := mkTime(c, now)
				c.Lib("recording no address", 0, func() { _, err = list.UpdateAddress(nil, *tm) })
				if err == nil {
					c.Fail("nil-address", "a nil address was recorded")
				}
			}
		}
		for _, q := range peers {
			var has bool
			a := mk(q)
			c.Lib("looking up", 0, func() { has = list.HasAddress(a) })
			_, want := model[key(q)]
			if has != want {
				c.Fail("membership", "after step %d at t=%d us: list has %s: %v, want %v", k, now, key(q), has, want)
			}
		}
	}
	c.Log("end %d", len(model))
}

// ---------------------------------------------------------------- random

type rop struct {
	kind     int
	val      uint64
	f        float64
	inv, ret int64
}

func rand48(s uint64) uint64 { return (0x5DEECE66D*s + 0xB) & 0xffffffffffff }

func runRandom(c *Ctx) {
	t := c.T
	seed := t.U32()
	if t.Chance(30) {
		seed = uint32(t.Intn(3))
	}
	var g *rtp.RandomRand48
	var byPid bool
	if t.Chance(15) {
		byPid = true
		setClock(c, int64(t.Draw(1e15)))
		c.Lib("new generator", 0, func() { g = rtp.NewRandomRand48() })
	} else {
		c.Lib("new generator", 0, func() { g = rtp.NewRandomRand48FromSeed(seed) })
	}
	reseed := t.Chance(20) && !byPid
	ntask := t.Range(1, 4)
	ops := make([][]rop, ntask)
	var tasks []func()
	seeds := []uint32{seed}
	for i := 0; i < ntask; i++ {
		n := t.Range(1, 6)
		if ntask <= 2 {
			n = c.Many(1, 6, 40)
		}
		ops[i] = make([]rop, n)
		for j := range ops[i] {
			ops[i][j].kind = t.Intn(4)
			if reseed && t.Chance(25) {
				ops[i][j].kind = 4
				ops[i][j].val = uint64(t.U32())
				seeds = append(seeds, uint32(ops[i][j].val))
			}
		}
		i := i
		tasks = append(tasks, func() {
			for j := range ops[i] {
				o := &ops[i][j]
				o.inv = stepsNow()
				switch o.kind {
				case 0:
					o.val = uint64(g.GetRandom32())
				case 1:
					o.val = uint64(g.GetRandom16())
				case 2:
					o.val = uint64(g.GetRandom8())
				case 3:
					o.f = g.GetRandomDouble()
				case 4:
					g.SetSeed(uint32(o.val))
				}
				o.ret = stepsNow()
			}
		})
	}
	c.RunTasks(2000000, tasks)
	for i := range ops {
		for _, o := range ops[i] {
			c.Log("task %d kind %d val %x %v [%d,%d]", i, o.kind, o.val, o.f, o.inv, o.ret)
			if o.kind == 3 && !(o.f >= 0 && o.f < 1) {
				c.Fail("double-range", "a random double is %v", o.f)
			}
		}
	}
	if byPid {
		c.Probe("seeded from pid and clock")
		return
	}
	// linearizability: some order of the operations, respecting real time and
	// program order, is a run of the sequential generator.
	pos := make([]int, ntask)
	tries := 0
	var dfs func(st uint64, left int) bool
	total := 0
	for i := range ops {
		total += len(ops[i])
	}
	dfs = func(st uint64, left int) bool {
		if left == 0 {
			return true
		}
		tries++
		if tries > 2000000 {
			Harness("linearizability search too large")
		}
		minRet := int64(1) << 62
		for i := range ops {
			if pos[i] < len(ops[i]) && ops[i][pos[i]].ret < minRet {
				minRet = ops[i][pos[i]].ret
			}
		}
		for i := range ops {
			if pos[i] >= len(ops[i]) {
				continue
			}
			o := ops[i][pos[i]]
			if o.inv > minRet {
				continue
			}
			ns := rand48(st)
			okk := false
			switch o.kind {
			case 0:
				okk = uint64(uint32(ns>>16)) == o.val
			case 1:
				okk = (ns>>32)&0xffff == o.val
			case 2:
				okk = (ns>>40)&0xff == o.val
			case 3:
				d := o.f - float64(ns)/(1<<48)
				okk = d < 1e-12 && d > -1e-12
			case 4:
				ns = uint64(uint32(o.val))<<16 | 0x330E
				okk = true
			}
			if okk {
				pos[i]++
				if dfs(ns, left-1) {
					return true
				}
				pos[i]--
			}
		}
		return false
	}
	if !dfs(uint64(seed)<<16|0x330E, total) {
		c.Fail("not-linearizable", "what %d tasks drew from one generator (seed %d) is not any interleaving of its sequence", ntask, seed)
	}
	c.Probe("linearizability check")
}

func init() {
	real := []string{"all of gosips/rtp that the scenario calls (compiled from /repo with yield points)"}
	Register(&Prop{ID: "C14", Title: "RTP packets", Quick: 400000, Thorough: 10000000, Run: runRTP,
		Rule: "one run: 1-3 senders (library or independent RFC 3550 encoder) stream packets to one receiver over a network that loses, duplicates, reorders, cuts and damages datagrams, one receive buffer being reused; non-trivial when a fault struck or more than one packet was stored",
		Real: real, Stub: []string{"UDP (simulated network)", "clock (simulated)", "foreign sender (independent encoder)"},
		Assume: []string{"the reference decoder states RFC 3550 correctly; a padding count of zero is left undecided"}})
	Register(&Prop{ID: "C15", Title: "RTCP BYE/APP", Quick: 500000, Thorough: 12500000, Run: runRTCP,
		Rule: "one run: participants send compound packets of BYE and APP over a faulty network; the receiver walks them from one reused buffer; non-trivial when a fault struck or more than one packet was interpreted",
		Real: real, Stub: []string{"UDP (simulated network)", "peer (independent encoder)"},
		Assume: []string{"the reference decoder states RFC 3550 correctly; a padding count of zero is left undecided"}})
	Register(&Prop{ID: "C16", Title: "Collision list", Quick: 1000000, Thorough: 25000000, Run: runCollision,
		Rule: "one run: a history of collisions, look-ups, time-outs, clock jumps and address-object reuse against a map model; non-trivial when a fault or a time-out run happened",
		Real: real, Stub: []string{"clock (simulated)"},
		Assume: []string{"times are between 0 and 2^32 s"}})
	Register(&Prop{ID: "C17", Title: "RTP time", Quick: 1000000, Thorough: 25000000, Run: runRTPTime,
		Rule: "one run: nodes with their own jumping clocks take, compare, add, subtract and send time stamps and wait; checked against 64-bit microsecond arithmetic; non-trivial when a fault struck or more than two time stamps exist",
		Real: real, Stub: []string{"clock and sleep (simulated)", "network (simulated)"},
		Assume: []string{"times lie before the NTP era ends in 2036"}})
	Register(&Prop{ID: "C18", Title: "Random generator", Race: true, Quick: 150000, Thorough: 4000000, Run: runRandom,
		Rule: "one run: 1-4 tasks draw from (and sometimes reseed) one shared generator under the seeded scheduler; the history must be linearizable to rand48; non-trivial when the scheduler preempted a task",
		Real: real, Stub: []string{"clock, pid (simulated)", "goroutine scheduling (simulated)"},
		Assume: []string{"races are those the Go race detector sees in the simulated schedules"}})
}
