package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/gobwas/httphead"
)

// ------------------------------------------------------- hostile input (C22)

const (
	hpDefault = iota
	hpProtobuf
	hpWebsocket
	numHp
)

var hpNames = []string{"default", "protobuf", "websocket"}

// hostileServer echoes whatever its protocol delivers.
func hostileServer(w *W, kind, loops int) (*Srv, *seenProto) {
	m := newMon(w)
	var p *seenProto
	switch kind {
	case hpDefault:
		p = &seenProto{inner: &gev.DefaultProtocol{}}
		m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} { return append([]byte{}, data...) }
	case hpProtobuf:
		p = &seenProto{inner: protobuf.New()}
		m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
			typ, _ := ctx.(string)
			return protobuf.PackMessage(typ, data)
		}
	case hpWebsocket:
		u := &ws.Upgrader{
			Protocol:  func(b []byte) bool { return bytes.HasPrefix(b, []byte("p")) },
			Extension: func(o httphead.Option) bool { return len(o.Name)%2 == 0 },
			OnHeader: func(c *gev.Connection, k, v []byte) error {
				if len(k) == 13 {
					return ws.ErrMalformedRequest
				}
				return nil
			},
		}
		user := &wsUser{onMsg: func(c *gev.Connection, msg []byte) (ws.MessageType, []byte) { return ws.MessageBinary, msg }}
		p = &seenProto{inner: websocket.New(u)}
		h := websocket.NewHandlerWrap(u, user)
		m.OnConn = func(cs *ConnS) { h.OnConnect(cs.c) }
		m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} { return h.OnMessage(cs.c, ctx, data) }
		m.OnCls = func(cs *ConnS) { h.OnClose(cs.c) }
	}
	return w.startServer(SrvOpt{Loops: loops, Mon: m, Proto: p}), p
}

// validStream builds a stream a well-behaved peer could send.
func validStream(rng *rand.Rand, kind int) []byte {
	var b []byte
	switch kind {
	case hpDefault:
		return pattern(pickSize(rng, 100000), rng.Uint64(), 0)
	case hpProtobuf:
		for i := 1 + rng.Intn(6); i > 0; i-- {
			b = append(b, protobuf.PackMessage(string(pattern(rng.Intn(20), rng.Uint64(), 0)), pattern(rng.Intn(300), rng.Uint64(), 0))...)
		}
	case hpWebsocket:
		b = []byte(hsGen(rng, rng.Intn(numHs), rng.Intn(numFaults+4)-4-rng.Intn(2)*100, false).request)
		b = append(b, wsJunkFrames(rng)...)
	}
	return b
}

// wsJunkFrames builds frames, many of them against the rules.
func wsJunkFrames(rng *rand.Rand) (b []byte) {
	for i := 1 + rng.Intn(8); i > 0; i-- {
		op := byte(rng.Intn(16))
		f := wsEncode(rng.Intn(3) != 0, op, randMask(rng), pattern(rng.Intn(200), rng.Uint64(), 0))
		switch rng.Intn(10) {
		case 0:
			f[0] |= byte(rng.Intn(8)) << 4 // reserved bits
		case 1:
			f[1] &^= 0x80 // unmasked
		case 2: // big control frame
			f = wsEncode(true, 8+byte(rng.Intn(3)), randMask(rng), pattern(126+rng.Intn(70000), 1, 0))
		case 3: // announced and not sent
			h := []byte{0x80 | op, 0xff}
			h = binary.BigEndian.AppendUint64(h, rng.Uint64()>>uint(rng.Intn(64)))
			f = append(h, 1, 2, 3, 4, 5)
		case 4: // most significant bit set
			h := []byte{0x82, 0xff}
			h = binary.BigEndian.AppendUint64(h, 1<<63|rng.Uint64())
			f = append(h, make([]byte, rng.Intn(20))...)
		case 5: // close with odd bodies
			f = wsEncode(rng.Intn(2) == 0, 8, randMask(rng), pattern(rng.Intn(4), rng.Uint64(), 0))
		case 6: // non-minimal length
			f = []byte{0x82, 0xfe, 0, byte(rng.Intn(126)), 0, 0, 0, 0}
			f = append(f, make([]byte, rng.Intn(126))...)
		case 7:
			f = append([]byte{0x82, 0xff, 0, 0, 0, 0, 0, 0}, 0, byte(rng.Intn(126)), 0, 0, 0, 0)
			f = append(f, make([]byte, rng.Intn(126))...)
		}
		b = append(b, f...)
	}
	return
}

// mutate damages a stream.
func mutate(rng *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for i := rng.Intn(5); i >= 0 && len(b) > 0; i-- {
		p := rng.Intn(len(b))
		if rng.Intn(2) == 0 && len(b) > 16 {
			p = rng.Intn(16)
		}
		switch rng.Intn(8) {
		case 0:
			b[p] ^= 1 << uint(rng.Intn(8))
		case 1:
			b[p] = byte(rng.Intn(256))
		case 2:
			b[p] = []byte{0, 0xff, 0x7f, 0x80, '\r', '\n', ':', ' '}[rng.Intn(8)]
		case 3:
			b = b[:p]
		case 4:
			b = append(b[:p], b[p+1:]...)
		case 5:
			ins := make([]byte, 1+rng.Intn(10))
			rng.Read(ins)
			b = append(b[:p], append(ins, b[p:]...)...)
		case 6:
			q := p + rng.Intn(len(b)-p+1)
			b = append(b[:q], append(append([]byte{}, b[p:q]...), b[q:]...)...)
		case 7:
			if p+8 <= len(b) {
				binary.BigEndian.PutUint64(b[p:], rng.Uint64()>>uint(rng.Intn(64)))
			}
		}
		if len(b) > 1<<18 {
			b = b[:1<<18]
		}
	}
	return b
}

var hostileAttacks = []string{"random", "mutated", "announce", "raw-http", "after-upgrade", "valid-then-reset", "connect-reset", "half-close", "edge-length"}

// attackBytes makes the bytes of one attack.
func attackBytes(rng *rand.Rand, kind, attack int) []byte {
	switch hostileAttacks[attack] {
	case "random":
		b := make([]byte, pickSize(rng, 70000))
		rng.Read(b)
		if rng.Intn(3) == 0 {
			for i := range b {
				b[i] &= byte(rng.Intn(4))
			}
		}
		return b
	case "mutated":
		return mutate(rng, validStream(rng, kind))
	case "announce":
		if kind == hpProtobuf {
			b := binary.BigEndian.AppendUint32(nil, rng.Uint32()>>uint(rng.Intn(32)))
			return append(b, pattern(rng.Intn(3000), rng.Uint64(), 0)...)
		}
		b := []byte{0x82, 0xff}
		b = binary.BigEndian.AppendUint64(b, rng.Uint64()>>uint(rng.Intn(64)))
		return append(b, pattern(rng.Intn(3000), rng.Uint64(), 0)...)
	case "raw-http":
		parts := []string{"GET / HTTP/1.1", "\r\n", "\r\n\r\n", "\n\n", "Host", ":", " ", "\t", "Sec-WebSocket-Key: ", "Sec-WebSocket-Protocol: p,,\"", "Sec-WebSocket-Extensions: a;b=\"", "Connection: \x00,", "HTTP/", "1.1", "\x00", strings.Repeat("A", rng.Intn(5000)), "GET  HTTP/1.1\r\n\r\n", " HTTP/1.1\r\n\r\n", "GET / HTTP/99999999999999999999.1\r\n\r\n", "GET / HTTP/1.\r\n\r\n", "GET / HTTP/.1\r\n\r\n", "Sec-WebSocket-Extensions: ;;=;\r\n"}
		var b []byte
		if rng.Intn(2) == 0 {
			b = append(b, "GET / HTTP/1.1\r\n"...)
		}
		for i := rng.Intn(20); i >= 0; i-- {
			b = append(b, parts[rng.Intn(len(parts))]...)
		}
		if rng.Intn(2) == 0 {
			b = append(b, "\r\n\r\n"...)
		}
		return b
	case "after-upgrade":
		if kind != hpWebsocket {
			return mutate(rng, validStream(rng, kind))
		}
		b := []byte("GET / HTTP/1.1\r\nHost: a\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n")
		j := wsJunkFrames(rng)
		if rng.Intn(2) == 0 {
			j = mutate(rng, j)
		}
		return append(b, j...)
	case "edge-length":
		if kind == hpProtobuf {
			// every inconsistent combination of the two lengths near the edges
			l := []uint32{0, 1, 2, 3, 4, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffffc}[rng.Intn(10)]
			b := binary.BigEndian.AppendUint32(nil, l)
			b = binary.BigEndian.AppendUint16(b, []uint16{0, 1, 2, 3, 0x7fff, 0xffff}[rng.Intn(6)])
			return append(b, pattern(rng.Intn(200), rng.Uint64(), 0)...)
		}
		return wsJunkFrames(rng)
	}
	return validStream(rng, kind)
}

// bystander does request after request until told to stop.
func bystander(w *W, srv *Srv, kind int, rng *rand.Rand, quit chan struct{}, served *int64) {
	conn, cs := srv.DialCS(0, 0)
	defer conn.Close()
	s := newSink(conn)
	if kind == hpWebsocket {
		if _, ok := w.wsUpgrade("C22", srv, conn, cs, s, rng); !ok {
			return
		}
	}
	for i := 0; !w.Violated(); i++ {
		select {
		case <-quit:
			return
		default:
		}
		body := pattern(1+rng.Intn(600), rng.Uint64(), 0)
		var req, want []byte
		switch kind {
		case hpDefault:
			req, want = body, body
		case hpProtobuf:
			req = protobuf.PackMessage(fmt.Sprintf("t%d", i), body)
			want = req
		case hpWebsocket:
			req = wsEncode(true, 2, randMask(rng), body)
			want, _ = ws.FrameToBytes(ws.NewBinaryFrame(body))
		}
		cut := rng.Intn(len(req))
		if _, err := conn.Write(req[:cut]); err == nil {
			if rng.Intn(4) == 0 {
				time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
			}
			_, err = conn.Write(req[cut:])
			if err != nil {
				w.V("C22", "well-behaved connection %d was ended: %v", cs.id, err)
				return
			}
		} else {
			w.V("C22", "well-behaved connection %d was ended: %v", cs.id, err)
			return
		}
		if !w.Await(fmt.Sprintf("request %d of well-behaved connection %d is answered", i, cs.id), s.Got, func() bool { return s.Pending() >= len(want) || s.Ended() }) {
			return
		}
		if s.Pending() < len(want) {
			w.V("C22", "well-behaved connection %d was ended by the server (%v) before request %d was answered", cs.id, s.Err(), i)
			return
		}
		if got := s.Take(len(want)); !bytes.Equal(got, want) {
			w.V("C22", "well-behaved connection %d: request %d got a wrong answer", cs.id, i)
			return
		}
		atomic.AddInt64(served, 1)
	}
}

func scenarioHostile(w *W) {
	kind := w.Param("proto", 0)
	srv, _ := hostileServer(w, kind, w.Param("loops", 1))
	quit := make(chan struct{})
	var by, wg sync.WaitGroup
	var served int64
	for b := 0; b < 3; b++ {
		by.Add(1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		go func() { defer by.Done(); bystander(w, srv, kind, rng, quit, &served) }()
	}
	if !w.Await("the well-behaved connections are served", nil, func() bool { return atomic.LoadInt64(&served) > 5 || w.Violated() }) {
		return
	}
	n := w.Scale(w.Param("attacks", 900), 12000)
	for g := 0; g < 6; g++ {
		wg.Add(1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		go func() {
			defer wg.Done()
			for i := 0; i < n && !w.Violated(); i++ {
				hostileConn(w, srv, kind, rng, rng.Intn(len(hostileAttacks)))
			}
		}()
	}
	wg.Wait()
	s0 := atomic.LoadInt64(&served)
	w.Await("the well-behaved connections are still served after the attacks", nil, func() bool { return atomic.LoadInt64(&served) > s0+10 || w.Violated() })
	close(quit)
	by.Wait()
	// and a newcomer is served as well
	if !w.Violated() {
		q := make(chan struct{})
		var n int64
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		done := make(chan struct{})
		go func() { defer close(done); bystander(w, srv, kind, rng, q, &n) }()
		w.Await("a new connection is served after the attacks", nil, func() bool { return atomic.LoadInt64(&n) > 3 || w.Violated() })
		close(q)
		<-done
	}
	w.Ev("bystander-requests", atomic.LoadInt64(&served))
	if !w.Violated() {
		srv.Stop()
	}
}

func hostileConn(w *W, srv *Srv, kind int, rng *rand.Rand, attack int) {
	c := w.dial(srv.addr, 0, 0)
	name := hostileAttacks[attack]
	w.Ev("attack:"+name, 1)
	if name == "connect-reset" {
		rst(c)
		w.Case("")
		return
	}
	if name == "half-close" && rng.Intn(2) == 0 {
		_ = c.CloseWrite()
		w.Case("")
		_ = c.Close()
		return
	}
	b := attackBytes(rng, kind, attack)
	from := 0
	for _, cut := range append(randCuts(rng, len(b)), len(b)) {
		if cut <= from {
			continue
		}
		_ = c.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
		if _, err := c.Write(b[from:cut]); err != nil {
			break
		}
		from = cut
		switch rng.Intn(6) {
		case 0:
			time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
		case 1:
			runtime.Gosched()
		}
	}
	w.Case(fmt.Sprintf("%s %s len=%d h=%x", hpNames[kind], name, len(b), fnv(b)&0xffffff))
	end := rng.Intn(6)
	if name == "valid-then-reset" {
		end = 0
	}
	switch end {
	case 0:
		rst(c)
	case 1:
		_ = c.CloseWrite()
		_ = c.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		buf := make([]byte, 4096)
		for {
			if _, err := c.Read(buf); err != nil {
				break
			}
		}
		_ = c.Close()
	case 2:
		_ = c.SetReadDeadline(time.Now().Add(time.Millisecond))
		_, _ = c.Read(make([]byte, 100000))
		_ = c.Close()
	default:
		_ = c.Close()
	}
}

// scenarioAnnounce: lengths are only announced; memory must not follow.
func scenarioAnnounce(w *W) {
	for _, kind := range []int{hpProtobuf, hpWebsocket} {
		srv, p := hostileServer(w, kind, 1)
		var closers []func()
		lens := []uint64{100 << 20, 256 << 20, 1 << 30, 1<<31 - 1}
		if kind == hpWebsocket {
			lens = append(lens, 1<<32, 1<<40, 1<<62, 1<<63-1)
		}
		n := 40
		type pend struct {
			pc   *seenConn
			cs   *ConnS
			want int64
		}
		var ps []pend
		var streams [][]byte
		for i := 0; i < n; i++ {
			conn, cs := srv.DialCS(0, 0)
			closers = append(closers, func() { _ = conn.Close() })
			s := newSink(conn)
			sent := 0
			if kind == hpWebsocket {
				k, ok := w.wsUpgrade("C22", srv, conn, cs, s, w.rng)
				if !ok {
					return
				}
				sent = k
			}
			var b []byte
			l := lens[i%len(lens)]
			if kind == hpProtobuf {
				b = binary.BigEndian.AppendUint32(nil, uint32(l))
				b = binary.BigEndian.AppendUint16(b, uint16([]int{0, 10, 65535}[i%3]))
				b = append(b, "some bytes of it"...)
			} else {
				b = []byte{0x80 | []byte{1, 2, 0, 8, 9, 10}[i%6], 0xff}
				b = binary.BigEndian.AppendUint64(b, l)
				b = append(b, 1, 2, 3, 4, 'x', 'y', 'z')
			}
			ps = append(ps, pend{p.pc(cs.c), cs, int64(sent + len(b))})
			streams = append(streams, b)
			w.Case(fmt.Sprintf("announce %s length=%d", hpNames[kind], l))
			ps[i].cs.u = conn
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for i, q := range ps {
			c := q.cs.u.(interface{ Write([]byte) (int, error) })
			b := streams[i]
			for k := range b { // byte by byte: every stage of the header
				if _, err := c.Write(b[k : k+1]); err != nil {
					break
				}
			}
		}
		var total int64
		for _, q := range ps {
			w.Await(fmt.Sprintf("connection %d: the announcement is processed", q.cs.id), func() int64 { return atomic.LoadInt64(&q.pc.calls) }, func() bool {
				return atomic.LoadInt64(&q.pc.seen) >= q.want || q.cs.Closed()
			})
		}
		runtime.ReadMemStats(&m1)
		total = int64(m1.TotalAlloc - m0.TotalAlloc)
		w.Ev("announced-connections", int64(n))
		w.Ev("allocated-bytes", total)
		if total > 64<<20 {
			w.V("C22", "%s: announcing lengths of 100 MB and more on %d connections made the process allocate %d MB", hpNames[kind], n, total>>20)
		}
		for _, f := range closers {
			f()
		}
		if w.Violated() {
			return
		}
		srv.Stop()
	}
}

func init() {
	scenarios["hostile"] = scenarioHostile
	scenarios["announce"] = scenarioAnnounce
	register("C22", &Property{
		Rule:        "one case = one hostile connection: random, mutated, inconsistent or rule-breaking bytes for the server's protocol under a random segmentation, ended by reset, half-close or close at any point, while three well-behaved connections on the same loops do request after request and check every answer; a panic ends the worker and its innermost library frame convicts; announce cases open connections that only announce lengths of 100 MB to 2^63-1 and bound the bytes allocated; distinct by protocol, attack and bytes",
		Assumptions: []string{"loopback TCP is faithful", "the user's handlers do not panic"},
		jobs: func(tier string) []Job {
			var js []Job
			for k := 0; k < numHp; k++ {
				js = append(js, Job{Name: hpNames[k], Scenario: "hostile", P: map[string]int{"proto": k, "loops": 1}})
			}
			js = append(js, Job{Name: "websocket-2", Scenario: "hostile", P: map[string]int{"proto": hpWebsocket, "loops": 2}},
				Job{Name: "protobuf-2", Scenario: "hostile", P: map[string]int{"proto": hpProtobuf, "loops": 2}},
				Job{Name: "websocket-race", Scenario: "hostile", Race: true, P: map[string]int{"proto": hpWebsocket, "loops": 2}}, // checkptr
				Job{Name: "announce", Scenario: "announce", Solo: true})
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "hostile", Perturb: i % 3, P: map[string]int{"proto": i % numHp, "loops": 1 + i%2}})
				}
			}
			return js
		}})
}
