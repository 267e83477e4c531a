package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/ringbuffer"
)

// C03: user-supplied framing. Four protocols with different buffer habits
// share one frame grammar on the wire: [len:3][flags:1][payload]. flags bit 0
// asks for a context value, bit 1 asks the handler for a reply.

type frameCtx struct {
	flags byte
	n     int
}

type protoConn struct {
	mu       sync.Mutex
	consumed int64
	seen     int64       // bytes the protocol has been shown so far (atomic)
	due      []extracted // frames returned whose callbacks are due
	hdr      [4]byte
	haveHdr  bool
	calls    int64
}

type extracted struct {
	ctx  interface{}
	data []byte
}

// frameProto is the observing base of all protocol variants.
type frameProto struct {
	w       *W
	variant int
	def     gev.DefaultProtocol
	conns   sync.Map // *gev.Connection -> *protoConn
	packs   int64
}

type outMsg struct {
	id     uint64
	body   []byte
	packed int32
}

func (p *frameProto) pc(c *gev.Connection) *protoConn {
	if v, ok := p.conns.Load(c); ok {
		return v.(*protoConn)
	}
	v, _ := p.conns.LoadOrStore(c, &protoConn{})
	return v.(*protoConn)
}

// UnPacket implements gev.Protocol.
func (p *frameProto) UnPacket(c *gev.Connection, buffer *ringbuffer.RingBuffer) (interface{}, []byte) {
	pc := p.pc(c)
	atomic.AddInt64(&pc.calls, 1)
	l0 := buffer.Length()
	ctx, data := p.decode(c, pc, buffer)
	pc.consumed += int64(l0 - buffer.Length())
	if ctx != nil || len(data) != 0 {
		pc.due = append(pc.due, extracted{ctx, data})
	} else {
		atomic.StoreInt64(&pc.seen, pc.consumed+int64(buffer.Length()))
	}
	return ctx, data
}

func (p *frameProto) decode(c *gev.Connection, pc *protoConn, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	mk := func(flags byte, n int, data []byte) (interface{}, []byte) {
		if flags&1 != 0 {
			return &frameCtx{flags, n}, data
		}
		return nil, data
	}
	switch p.variant {
	case 0: // peek the header, take everything at once
		if b.Length() < 4 {
			return nil, nil
		}
		h := b.PeekUint32()
		n := int(h >> 8)
		if b.Length() < 4+n {
			return nil, nil
		}
		b.Retrieve(4)
		data := make([]byte, n)
		if n > 0 {
			_, _ = b.Read(data)
		}
		return mk(byte(h), n, data)
	case 1, 4: // consume the header as soon as it is there, remember it
		if !pc.haveHdr {
			if b.Length() < 4 {
				return nil, nil
			}
			_, _ = b.Read(pc.hdr[:])
			pc.haveHdr = true
		}
		h := binary.BigEndian.Uint32(pc.hdr[:])
		n := int(h >> 8)
		if b.Length() < n {
			return nil, nil
		}
		pc.haveHdr = false
		if p.variant == 4 && n > 0 && b.Length() == n { // the rest is what the default protocol takes
			if _, e := b.PeekAll(); len(e) > 0 {
				p.w.Ev("default-protocol-on-wrapped-input", 1)
			}
			p.w.Ev("default-protocol-delegations", 1)
			_, data := p.def.UnPacket(c, b)
			return mk(byte(h), n, data)
		}
		data := make([]byte, n)
		if n > 0 {
			_, _ = b.Read(data)
		}
		return mk(byte(h), n, data)
	case 2: // hand out slices of the buffer itself when contiguous
		if b.Length() < 4 {
			return nil, nil
		}
		h := b.PeekUint32()
		n := int(h >> 8)
		if b.Length() < 4+n {
			return nil, nil
		}
		b.Retrieve(4)
		first, end := b.Peek(n)
		data := first
		if len(end) > 0 {
			data = append(append([]byte{}, first...), end...)
		}
		b.Retrieve(n)
		return mk(byte(h), n, data)
	default: // one byte at a time for the header, copies via Bytes
		all := b.Bytes()
		if len(all) < 4 {
			return nil, nil
		}
		h := binary.BigEndian.Uint32(all)
		n := int(h >> 8)
		if len(all) < 4+n {
			return nil, nil
		}
		for i := 0; i < 4; i++ {
			_, _ = b.ReadByte()
		}
		b.Retrieve(n)
		return mk(byte(h), n, append([]byte{}, all[4:4+n]...))
	}
}

// Packet implements gev.Protocol.
func (p *frameProto) Packet(c *gev.Connection, data interface{}) []byte {
	m, ok := data.(*outMsg)
	if !ok {
		p.w.V("C03", "Packet was given %T instead of the message that was sent", data)
		return nil
	}
	if n := atomic.AddInt32(&m.packed, 1); n != 1 {
		p.w.V("C03", "outgoing message %x was encoded %d times", m.id, n)
	}
	atomic.AddInt64(&p.packs, 1)
	b := make([]byte, 12+len(m.body))
	binary.BigEndian.PutUint32(b, uint32(len(m.body)))
	binary.BigEndian.PutUint64(b[4:], m.id)
	copy(b[12:], m.body)
	return b
}

type wireFrame struct {
	flags byte
	n     int
}

func (f wireFrame) encode(key uint64, idx int) []byte {
	b := make([]byte, 4+f.n)
	binary.BigEndian.PutUint32(b, uint32(f.n)<<8|uint32(f.flags))
	fill(b[4:], key^uint64(idx)*977, 0)
	return b
}

type frameState struct {
	key       uint64
	expect    []wireFrame
	emu       sync.Mutex
	delivered int64
	replySize func(i int) int
}

func (st *frameState) frame(i int) (wireFrame, bool) {
	st.emu.Lock()
	defer st.emu.Unlock()
	if i < len(st.expect) {
		return st.expect[i], true
	}
	return wireFrame{}, false
}

func frameServer(w *W, variant, loops int) (*Srv, *frameProto) {
	p := &frameProto{w: w, variant: variant}
	m := newMon(w)
	m.OnConn = func(cs *ConnS) {
		cs.u = &frameState{key: connKey(w, cs.peer)}
	}
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*frameState)
		pc := p.pc(cs.c)
		i := int(st.delivered)
		if len(pc.due) == 0 {
			w.V("C03", "connection %d: message callback without a frame extracted (frame %d)", cs.id, i)
		} else {
			d := pc.due[0]
			pc.due = pc.due[1:]
			if ctx != d.ctx {
				w.V("C03", "connection %d: callback got context %v, the protocol extracted %v", cs.id, ctx, d.ctx)
			}
			if !bytes.Equal(data, d.data) {
				w.V("C03", "connection %d: callback got %d bytes, the protocol extracted %d", cs.id, len(data), len(d.data))
			}
		}
		f, ok := st.frame(i)
		if !ok {
			w.V("C03", "connection %d: frame %d delivered but only %d were sent", cs.id, i, i)
			atomic.AddInt64(&st.delivered, 1)
			return nil
		}
		fc, _ := ctx.(*frameCtx)
		if (fc != nil) != (f.flags&1 != 0) || len(data) != f.n || mismatch(data, st.key^uint64(i)*977, 0) >= 0 {
			props := "C03"
			if p.variant == 4 && len(data) == f.n {
				props = "C03,C01" // bytes that went through the default protocol
			}
			w.V(props, "connection %d: frame %d delivered as %d bytes ctx=%v, sent %d bytes flags=%d (content mismatch at %d)", cs.id, i, len(data), fc != nil, f.n, f.flags, mismatch(data, st.key^uint64(i)*977, 0))
		}
		atomic.AddInt64(&st.delivered, 1)
		w.Ev("frames", 1)
		if f.flags&2 != 0 {
			n := (i * 37) % 97
			if i%11 == 3 {
				n = f.n * 3
			}
			return &outMsg{id: uint64(i), body: pattern(n, st.key^uint64(i)*31, 0)}
		}
		return nil
	}
	return w.startServer(SrvOpt{Loops: loops, Mon: m, Proto: p}), p
}

// frameReplies checks the reply stream of one connection.
type frameReplies struct {
	buf  []byte
	next []int // indexes of frames whose replies are due, in order
	mu   sync.Mutex
	got  int64
	err  error
}

func scenarioFrames(w *W) {
	variant := w.Param("variant", 0)
	srv, p := frameServer(w, variant, 1+variant%3)
	var wg sync.WaitGroup
	workers := w.Param("workers", 3)
	for g := 0; g < workers; g++ {
		wg.Add(1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		go func(g int) {
			defer wg.Done()
			frameClient(w, srv, p, rng, g)
		}(g)
	}
	wg.Wait()
	w.Ev("packet-calls", atomic.LoadInt64(&p.packs))
	srv.Stop()
}

func frameClient(w *W, srv *Srv, p *frameProto, rng *rand.Rand, g int) {
	conn, cs := srv.DialCS(0, 0)
	defer conn.Close()
	st := cs.u.(*frameState)
	pc := p.pc(cs.c)
	key := st.key
	var sent int64
	fr := &frameReplies{}
	// reply reader
	go func() {
		buf := make([]byte, 64<<10)
		asyncNext := uint64(0)
		for {
			n, err := conn.Read(buf)
			fr.mu.Lock()
			fr.buf = append(fr.buf, buf[:n]...)
			for len(fr.buf) >= 12 && fr.err == nil {
				l := int(binary.BigEndian.Uint32(fr.buf))
				id := binary.BigEndian.Uint64(fr.buf[4:])
				if len(fr.buf) < 12+l {
					if l > 64<<20 {
						fr.err = fmt.Errorf("reply header is garbage: length %d", l)
					}
					break
				}
				body := fr.buf[12 : 12+l]
				if id>>32 == 0 {
					if len(fr.next) == 0 || id != uint64(fr.next[0]) {
						fr.err = fmt.Errorf("reply to frame %d arrived out of order (due: %v)", id, head3(fr.next))
					} else if mismatch(body, key^id*31, 0) >= 0 {
						fr.err = fmt.Errorf("reply to frame %d is corrupt", id)
					} else {
						fr.next = fr.next[1:]
					}
				} else {
					if id&0xffffffff != asyncNext {
						fr.err = fmt.Errorf("asynchronous message %d arrived where %d was due", id&0xffffffff, asyncNext)
					}
					if mismatch(body, key^id*31, 0) >= 0 {
						fr.err = fmt.Errorf("asynchronous message %d is corrupt", id&0xffffffff)
					}
					asyncNext++
				}
				atomic.AddInt64(&fr.got, 1)
				fr.buf = fr.buf[12+l:]
				if fr.err != nil {
					w.V("C03", "connection %d: %v", cs.id, fr.err)
				}
			}
			fr.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()

	var asyncSent uint64
	// play sends the frames in the given pieces. In lock-step it waits after
	// every piece until the protocol has been shown all bytes and then requires
	// exactly the complete frames to have been delivered.
	play := func(frames []wireFrame, cuts []int, lock bool) bool {
		base := int(atomic.LoadInt64(&st.delivered))
		if !lock {
			base = -1
		}
		st.emu.Lock()
		start := len(st.expect)
		var wire []byte
		var ends []int
		fr.mu.Lock()
		for i, f := range frames {
			wire = append(wire, f.encode(key, start+i)...)
			ends = append(ends, len(wire))
			st.expect = append(st.expect, f)
			if f.flags&2 != 0 {
				fr.next = append(fr.next, start+i)
			}
		}
		fr.mu.Unlock()
		st.emu.Unlock()
		cuts = append(append([]int{}, cuts...), len(wire))
		from := 0
		for _, c := range cuts {
			if c <= from {
				continue
			}
			if _, err := conn.Write(wire[from:c]); err != nil {
				w.V("C03", "connection %d: server closed the connection: %v", cs.id, err)
				return false
			}
			sent += int64(c - from)
			from = c
			if lock {
				s := sent
				if !w.Await(fmt.Sprintf("connection %d: the protocol is shown all %d bytes received (cuts %v)", cs.id, s, head3(cuts)), func() int64 { return atomic.LoadInt64(&pc.calls) + atomic.LoadInt64(&fr.got) },
					func() bool { return atomic.LoadInt64(&pc.seen) >= s || cs.Closed() }) {
					return false
				}
				complete := 0
				for _, e := range ends {
					if e <= c {
						complete++
					}
				}
				if d := int(atomic.LoadInt64(&st.delivered)) - base; d != complete {
					w.V("C03", "connection %d: after %d of %d bytes %d frames are complete, %d were delivered (cuts %v)", cs.id, c, len(wire), complete, d, head3(cuts))
					return false
				}
			} else if rng.Intn(4) == 0 {
				time.Sleep(time.Duration(rng.Intn(60)) * time.Microsecond)
			}
		}
		if !lock {
			want := int64(start + len(frames))
			if !w.Await(fmt.Sprintf("connection %d: %d frames delivered", cs.id, want), func() int64 { return atomic.LoadInt64(&pc.calls) + atomic.LoadInt64(&fr.got) },
				func() bool { return atomic.LoadInt64(&st.delivered) >= want || cs.Closed() }) {
				return false
			}
		}
		return !w.Violated()
	}
	send := func() {
		id := 1<<32 | asyncSent
		n := pickSize(rng, 30000)
		if err := cs.c.Send(&outMsg{id: id, body: pattern(n, key^id*31, 0)}); err != nil {
			w.V("C03", "Send: %v", err)
		}
		asyncSent++
	}

	small := [][]wireFrame{
		{{1, 0}},
		{{2, 1}},
		{{3, 0}, {0, 1}},
		{{0, 3}, {1, 2}, {2, 1}},
		{{3, 5}, {1, 0}, {3, 0}, {2, 4}},
		{{1, 0}, {1, 0}, {1, 0}, {2, 2}},
	}
	// exhaustive two- and three-piece splits of the small sequences
	for si, fs := range small {
		total := 0
		for _, f := range fs {
			total += 4 + f.n
		}
		for a := 1; a <= total; a++ {
			for b := a; b <= total; b++ {
				if (a+b+si)%3 != g%3 && !w.Thorough() {
					continue // the clients share the enumeration between them
				}
				if !play(fs, []int{a, b}, true) {
					return
				}
				w.Case(fmt.Sprintf("exhaustive seq=%d cuts=%d,%d variant=%d", si, a, b, p.variant))
			}
		}
		all := make([]int, total)
		for i := range all {
			all[i] = i + 1
		}
		if !play(fs, all, true) {
			return
		}
		w.Case(fmt.Sprintf("exhaustive seq=%d bytewise variant=%d", si, p.variant))
	}
	// random sequences, larger frames, random splits
	n := w.Scale(w.Param("random", 600), 6000)
	for k := 0; k < n; k++ {
		nf := 1 + rng.Intn(8)
		if rng.Intn(6) == 0 {
			nf = 30 + rng.Intn(300)
		}
		var fs []wireFrame
		total := 0
		for i := 0; i < nf; i++ {
			f := wireFrame{flags: byte(rng.Intn(4)), n: rng.Intn(40)}
			switch rng.Intn(12) {
			case 0:
				f.n = pickSize(rng, 70000)
			case 1:
				f.n = 0
			case 2:
				if nf < 10 {
					f.n = 65536 - 8 + rng.Intn(16)
				}
			}
			if f.n == 0 {
				f.flags |= 1
			}
			total += 4 + f.n
			fs = append(fs, f)
		}
		np := 1 + rng.Intn(12)
		cuts := make([]int, 0, np)
		at := 0
		for i := 0; i < np && at < total; i++ {
			switch rng.Intn(3) {
			case 0:
				at += 1 + rng.Intn(6)
			case 1:
				at += 1 + rng.Intn(total)
			default:
				at += 1 + rng.Intn(1000)
			}
			if at < total {
				cuts = append(cuts, at)
			}
		}
		if rng.Intn(3) == 0 {
			send()
		}
		lock := rng.Intn(4) != 0
		if !play(fs, cuts, lock) {
			return
		}
		sig := ""
		if len(cuts) > 0 {
			sig = fmt.Sprintf("random frames=%d bytes=%d pieces=%d lockstep=%v variant=%d h=%x", nf, total, len(cuts)+1, lock, p.variant, splitmix(uint64(total)*31+uint64(at))&0xffff)
		}
		w.Case(sig)
		// let the output drain now and then
		if k%8 == 7 {
			want := asyncSent
			_ = want
			if !w.Await(fmt.Sprintf("connection %d: all replies and sends arrive", cs.id), func() int64 { return atomic.LoadInt64(&fr.got) }, func() bool {
				fr.mu.Lock()
				defer fr.mu.Unlock()
				return len(fr.next) == 0 || fr.err != nil
			}) {
				return
			}
		}
	}
	st.emu.Lock()
	replies := 0
	for _, f := range st.expect {
		if f.flags&2 != 0 {
			replies++
		}
	}
	st.emu.Unlock()
	w.Await(fmt.Sprintf("connection %d: all %d replies and %d sends arrive", cs.id, replies, asyncSent), func() int64 { return atomic.LoadInt64(&fr.got) }, func() bool {
		fr.mu.Lock()
		defer fr.mu.Unlock()
		return atomic.LoadInt64(&fr.got) >= int64(replies)+int64(asyncSent) || fr.err != nil
	})
}

func head3(v []int) []int {
	if len(v) > 6 {
		return v[:6]
	}
	return v
}

func init() {
	scenarios["frames"] = scenarioFrames
	register("C03", &Property{
		Rule:        "one case = one sequence of frames sent to a server with a user-supplied framing protocol under one segmentation; lock-step cases wait until the protocol has been shown each piece and require exactly the complete frames to have been delivered; all 2- and 3-piece splits and the byte-wise split of six small sequences are enumerated, larger ones are random; non-trivial when split or multi-frame; distinct by sequence, cuts and protocol variant",
		Assumptions: []string{"loopback TCP is faithful", "the five framing protocols used are correct and behave deterministically"},
		jobs: func(tier string) []Job {
			var js []Job
			for v := 0; v < 5; v++ {
				js = append(js, Job{Name: fmt.Sprintf("variant-%d", v), Scenario: "frames", P: map[string]int{"variant": v}})
			}
			js = append(js, Job{Name: "perturbed", Scenario: "frames", Perturb: 1, P: map[string]int{"variant": 2, "workers": 6}},
				Job{Name: "one-cpu", Scenario: "frames", Procs: 1, P: map[string]int{"variant": 0, "workers": 2}})
			if tier == "thorough" {
				for i := 0; i < 8; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "frames", Perturb: i % 3, P: map[string]int{"variant": i % 5, "workers": 8}})
				}
			}
			return js
		},
	})
}
