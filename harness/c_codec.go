package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"

	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/gev/plugins/websocket/ws/util"
	"github.com/Allenxuxu/ringbuffer"
)

// The codec functions are called directly; every result is compared with an
// independent encoding written from RFC 6455.

func rfcHeader(h ws.Header) []byte {
	b := []byte{h.Rsv<<4 | byte(h.OpCode), 0}
	if h.Fin {
		b[0] |= 0x80
	}
	switch {
	case h.Length <= 125:
		b[1] = byte(h.Length)
	case h.Length <= math.MaxUint16:
		b[1] = 126
		b = binary.BigEndian.AppendUint16(b, uint16(h.Length))
	default:
		b[1] = 127
		b = binary.BigEndian.AppendUint64(b, uint64(h.Length))
	}
	if h.Masked {
		b[1] |= 0x80
		b = append(b, h.Mask[:]...)
	}
	return b
}

// ringWith builds a ring buffer holding data whose read position is off.
func ringWith(rng *rand.Rand, data []byte) *ringbuffer.RingBuffer {
	switch rng.Intn(4) {
	case 0:
		rb := ringbuffer.New(0)
		rb.WithData(append([]byte{}, data...))
		return rb
	case 1:
		rb := ringbuffer.New(0)
		_, _ = rb.Write(data)
		return rb
	}
	// wrapped: advance the positions first
	size := len(data) + rng.Intn(8)
	rb := ringbuffer.New(size)
	off := rng.Intn(size)
	if off > 0 {
		_, _ = rb.Write(make([]byte, off))
		_, _ = rb.Read(make([]byte, off))
	}
	_, _ = rb.Write(data)
	return rb
}

func scenarioHeaders(w *W) {
	rng := w.rng
	lengths := []int64{0, 1, 2, 3, 63, 64, 124, 125, 126, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 12345, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64}
	for l := int64(0); l < 300; l++ {
		lengths = append(lengths, l)
	}
	for i := 0; i < w.Scale(300, 5000); i++ {
		lengths = append(lengths, rng.Int63()>>uint(rng.Intn(63)))
	}
	for li, l := range lengths {
		for op := 0; op < 16; op++ {
			for rsv := 0; rsv < 8; rsv++ {
				for f := 0; f < 4; f++ {
					if li >= 30 && (op*8+rsv+f+li)%16 != 0 {
						continue // the full product only for the chosen lengths
					}
					h := ws.Header{Fin: f&1 != 0, Rsv: byte(rsv), OpCode: ws.OpCode(op), Masked: f&2 != 0, Length: l}
					if h.Masked {
						h.Mask = randMask(rng)
					}
					headerCase(w, rng, h)
				}
			}
		}
		if w.Violated() {
			return
		}
	}
}

func headerCase(w *W, rng *rand.Rand, h ws.Header) {
	in := h
	b, err := ws.WriteHeader(&h)
	if err != nil {
		w.V("C20", "WriteHeader(%+v): %v", in, err)
		return
	}
	if h != in {
		w.V("C20", "WriteHeader changed its argument from %+v to %+v", in, h)
	}
	want := rfcHeader(in)
	if !bytes.Equal(b, want) {
		w.V("C20", "WriteHeader(%+v) = %x, RFC 6455 prescribes %x", in, b, want)
		return
	}
	// reading it back, with payload bytes behind it
	tail := make([]byte, 6+rng.Intn(12))
	rng.Read(tail)
	if in.Length == 0 && in.Masked && rng.Intn(2) == 0 {
		tail = nil // nothing needs to follow an empty frame
	}
	rb := ringWith(rng, append(append([]byte{}, b...), tail...))
	scratch := make([]byte, rng.Intn(3), 12+rng.Intn(4))
	got, err := ws.VirtualReadHeader(scratch, rb)
	if err != nil {
		w.V("C20", "VirtualReadHeader(%x + %d bytes) = %v", b, len(tail), err)
		return
	}
	if got != in {
		w.V("C20", "header %+v written as %x is read back as %+v", in, b, got)
	}
	rb.VirtualFlush()
	rest := make([]byte, len(tail)+20)
	n, _ := rb.Read(rest)
	if !bytes.Equal(rest[:n], tail) {
		w.V("C20", "reading header %x consumed the wrong number of bytes: %d bytes follow it, %d are left (%x)", b, len(tail), n, head(string(rest[:n]), 20))
	}
	w.Ev("headers", 1)
	form := 2
	if in.Length > 125 {
		form = 4
	}
	if in.Length > 65535 {
		form = 10
	}
	w.Case(fmt.Sprintf("header fin=%v rsv=%d op=%d masked=%v form=%d", in.Fin, in.Rsv, in.OpCode, in.Masked, form))
	// an incomplete header is not an error of another kind and consumes nothing
	if in.Length == 0 {
		return
	}
	cut := rng.Intn(len(b))
	if cut == 0 {
		return
	}
	rb = ringWith(rng, b[:cut])
	if _, err := ws.VirtualReadHeader(make([]byte, 0, 12), rb); err != ws.ErrHeaderNotReady {
		w.V("C20", "VirtualReadHeader on %d of the %d bytes of header %x returned %v", cut, len(b), b, err)
	}
	rb.VirtualRevert()
	if rb.Length() != cut || !bytes.Equal(rb.Bytes(), b[:cut]) {
		w.V("C20", "VirtualReadHeader on an incomplete header consumed bytes of it")
	}
}

func scenarioCipher(w *W) {
	rng := w.rng
	maxLen := 140
	if w.Thorough() {
		maxLen = 400
	}
	one := func(n, align, offset int, mask [4]byte) {
		backing := make([]byte, n+align+24)
		rng.Read(backing)
		orig := append([]byte{}, backing...)
		p := backing[8+align : 8+align+n]
		ws.Cipher(p, mask, offset)
		for i := range backing {
			wantb := orig[i]
			if k := i - 8 - align; k >= 0 && k < n {
				wantb ^= mask[(offset+k)&3]
			}
			if backing[i] != wantb {
				w.V("C20", "Cipher(len %d, alignment %d, mask %x, offset %d): byte %d of the memory around the payload (payload starts at %d) is %02x, want %02x", n, align, mask, offset, i, 8+align, backing[i], wantb)
				return
			}
		}
		ws.Cipher(p, mask, offset)
		if !bytes.Equal(backing, orig) {
			w.V("C20", "Cipher(len %d, alignment %d, mask %x, offset %d) is not its own inverse", n, align, mask, offset)
		}
		w.Ev("ciphers", 1)
	}
	for n := 0; n <= maxLen && !w.Violated(); n++ {
		for align := 0; align < 8; align++ {
			for off := 0; off < 9; off++ {
				one(n, align, off, randMask(rng))
				w.Case(fmt.Sprintf("cipher len=%d align=%d offset=%d", n, align, off))
			}
		}
	}
	for i := 0; i < w.Scale(3000, 60000) && !w.Violated(); i++ {
		n := pickSize(rng, 70000)
		off := rng.Intn(1 << uint(1+rng.Intn(40)))
		one(n, rng.Intn(16), off, randMask(rng))
		w.Case(fmt.Sprintf("cipher len=%d offset=%d", n, off))
		// ciphering in chunks equals ciphering at once
		if n > 2 {
			p := make([]byte, n)
			rng.Read(p)
			q := append([]byte{}, p...)
			m := randMask(rng)
			ws.Cipher(p, m, off&0xffff)
			for at := 0; at < n; {
				k := 1 + rng.Intn(n-at)
				ws.Cipher(q[at:at+k], m, off&0xffff+at)
				at += k
			}
			if !bytes.Equal(p, q) {
				w.V("C20", "ciphering %d bytes in chunks differs from ciphering them at once (mask %x, offset %d)", n, m, off&0xffff)
			}
		}
	}
}

// oneFrame requires b to be exactly one final unmasked frame.
func oneFrame(w *W, what string, b []byte, err error, op byte, payload []byte) {
	if err != nil {
		w.V("C20", "%s: %v", what, err)
		return
	}
	want := append(rfcHeader(ws.Header{Fin: true, OpCode: ws.OpCode(op), Length: int64(len(payload))}), payload...)
	if !bytes.Equal(b, want) {
		w.V("C20", "%s produced %d bytes %x..., want the frame %x... of %d bytes", what, len(b), head(string(b), 24), head(string(want), 24), len(want))
	}
}

func scenarioPacking(w *W) {
	rng := w.rng
	n := w.Scale(6000, 100000)
	runes := []string{"a", "é", "✓", "\U0001F600", "\x00", "\xff"}
	for i := 0; i < n && !w.Violated(); i++ {
		// close bodies
		code := rng.Intn(65536)
		if i < 6000 {
			code = i % 5100
		}
		var reason string
		rl := rng.Intn(200)
		switch rng.Intn(4) {
		case 0:
			rl = []int{0, 1, 121, 122, 123, 124, 125, 126, 127, 1000}[rng.Intn(10)]
		}
		for len(reason) < rl {
			reason += runes[rng.Intn(len(runes))]
		}
		body := ws.NewCloseFrameBody(ws.StatusCode(code), reason)
		keep := len(reason)
		if keep > 123 {
			keep = 123
		}
		if len(body) > 125 || len(body) < 2 || int(binary.BigEndian.Uint16(body)) != code {
			w.V("C20", "NewCloseFrameBody(%d, %d bytes) = %x (%d bytes)", code, len(reason), head(string(body), 16), len(body))
		} else if got := string(body[2:]); len(reason) <= 123 && got != reason || len(reason) > 123 && got != reason[:len(got)] {
			w.V("C20", "NewCloseFrameBody(%d, %q) carries the reason %q", code, reason, got)
		} else if len(reason) > 123 && len(got) < 120 {
			w.V("C20", "NewCloseFrameBody(%d, %d bytes) keeps only %d bytes of the reason", code, len(reason), len(got))
		}
		c2, r2 := ws.ParseCloseFrameData(body)
		if int(c2) != code || r2 != string(body[2:]) {
			w.V("C20", "close body %x is read back as (%d, %q)", body, c2, r2)
		}
		if len(reason) <= 123 {
			p := bytes.Repeat([]byte{0xee}, 2+len(reason)+3)
			ws.PutCloseFrameBody(p, ws.StatusCode(code), reason)
			if !bytes.Equal(p[:2+len(reason)], body) || !bytes.Equal(p[2+len(reason):], []byte{0xee, 0xee, 0xee}) {
				w.V("C20", "PutCloseFrameBody(%d, %d bytes) wrote %x", code, len(reason), p)
			}
		}
		w.Case(fmt.Sprintf("close-body code=%d reason=%d", code, len(reason)))
		// packing helpers
		size := rng.Intn(300)
		switch rng.Intn(6) {
		case 0:
			size = pickSize(rng, 100000)
		case 1:
			size = []int{0, 125, 126, 127, 65535, 65536}[rng.Intn(6)]
		}
		data := pattern(size+4, uint64(i), 0)[:size]
		before := append([]byte{}, data[:cap(data)]...)
		for _, mt := range []ws.MessageType{ws.MessageText, ws.MessageBinary} {
			b, err := util.PackData(mt, data)
			oneFrame(w, fmt.Sprintf("PackData(type %d, %d bytes)", mt, size), b, err, byte(mt), data)
			// writing to the frame must not reach the caller's data
			for k := range b {
				b[k] ^= 0xff
			}
			if !bytes.Equal(before, data[:cap(data)]) {
				w.V("C20", "the frame made by PackData shares memory with the payload")
			}
		}
		ctl := data
		if len(ctl) > 125 {
			ctl = ctl[:125]
		}
		b, err := util.HandlePing(ctl)
		oneFrame(w, fmt.Sprintf("HandlePing(%d bytes)", len(ctl)), b, err, 10, ctl)
		b, err = util.PackCloseData(reason)
		if err == nil && len(b) >= 4 && len(b) <= 127 {
			oneFrame(w, fmt.Sprintf("PackCloseData(%d bytes)", len(reason)), b, err, 8, ws.NewCloseFrameBody(1000, reason))
		} else {
			w.V("C20", "PackCloseData(%d bytes) = %d bytes, %v", len(reason), len(b), err)
		}
		for _, mk := range []struct {
			name string
			f    *ws.Frame
			op   byte
			p    []byte
		}{
			{"NewTextFrame", ws.NewTextFrame(data), 1, data}, {"NewBinaryFrame", ws.NewBinaryFrame(data), 2, data},
			{"NewPingFrame", ws.NewPingFrame(ctl), 9, ctl}, {"NewPongFrame", ws.NewPongFrame(ctl), 10, ctl},
			{"NewCloseFrame", ws.NewCloseFrame(body), 8, body},
		} {
			b, err := ws.FrameToBytes(mk.f)
			oneFrame(w, mk.name, b, err, mk.op, mk.p)
		}
		fr := ws.NewFrame(ws.OpCode(i&15), i&16 != 0, data)
		b, err = ws.FrameToBytes(fr)
		want := append(rfcHeader(ws.Header{Fin: i&16 != 0, OpCode: ws.OpCode(i & 15), Length: int64(size)}), data...)
		if err != nil || !bytes.Equal(b, want) {
			w.V("C20", "FrameToBytes(NewFrame(%d, %v, %d bytes)) = %d bytes, %v", i&15, i&16 != 0, size, len(b), err)
		}
		w.Case(fmt.Sprintf("pack size=%d op=%d", size, i&15))
		w.Ev("packs", 9)
	}
}

func init() {
	scenarios["ws-headers"] = scenarioHeaders
	scenarios["ws-cipher"] = scenarioCipher
	scenarios["ws-packing"] = scenarioPacking
	register("C20", &Property{
		Rule:        "one case = one call of a codec function compared with an independent encoding: headers (full product of flags, opcodes and masked for 30 boundary lengths, sampled for others) read back from rings at random positions; ciphers for every length 0-140, alignment 0-7 and offset 0-8 with guard bytes, random beyond; close bodies and packing helpers; distinct by header shape, cipher geometry, code and size",
		Assumptions: []string{"the ring buffer dependency behaves as documented", "at least one payload byte follows the header of a non-empty frame when it is read"},
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "headers", Scenario: "ws-headers"},
				{Name: "cipher", Scenario: "ws-cipher"},
				{Name: "packing", Scenario: "ws-packing"},
				{Name: "cipher-race", Scenario: "ws-cipher", Race: true}, // checkptr instrumentation of unsafe accesses
			}
			return js
		}})
}
