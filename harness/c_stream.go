package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/ringbuffer"
)

// The stream scenario drives the default protocol: every connection's input is
// a keyed pseudo-random stream that the server-side monitor checks byte for
// byte in the message callback (C01); every output is a sequence of
// self-describing records or an echo that the client checks (C02).

const (
	modeEcho   = iota // reply with the received slice itself
	modeRecord        // reply with records, plus asynchronous sends
	modeSink          // no reply
)

const recHdr = 24

// record builds a self-describing outbound record.
func record(kind byte, src uint16, seq uint32, n int, ckey uint64) []byte {
	b := make([]byte, recHdr+n)
	b[0] = 0xA5
	b[1] = kind
	binary.BigEndian.PutUint16(b[2:], src)
	binary.BigEndian.PutUint32(b[4:], seq)
	binary.BigEndian.PutUint32(b[8:], uint32(n))
	binary.BigEndian.PutUint32(b[12:], uint32(splitmix(uint64(kind)<<48|uint64(src)<<32|uint64(seq))))
	binary.BigEndian.PutUint64(b[16:], ckey)
	fill(b[recHdr:], recKey(kind, src, seq, ckey), 0)
	return b
}

func recKey(kind byte, src uint16, seq uint32, ckey uint64) uint64 {
	return splitmix(ckey ^ uint64(kind)<<56 ^ uint64(src)<<40 ^ uint64(seq))
}

// recParser checks a byte stream against the record grammar as it arrives.
type recParser struct {
	ckey   uint64
	hdr    [recHdr]byte
	hn     int
	left   int
	off    int64
	key    uint64
	kind   byte
	src    uint16
	seq    uint32
	total  int64
	onDone func(kind byte, src uint16, seq uint32) error
}

func (p *recParser) feed(b []byte) error {
	for len(b) > 0 {
		if p.hn < recHdr {
			k := copy(p.hdr[p.hn:], b)
			p.hn += k
			p.total += int64(k)
			b = b[k:]
			if p.hn < recHdr {
				return nil
			}
			h := p.hdr[:]
			p.kind, p.src, p.seq = h[1], binary.BigEndian.Uint16(h[2:]), binary.BigEndian.Uint32(h[4:])
			p.left = int(binary.BigEndian.Uint32(h[8:]))
			if h[0] != 0xA5 || binary.BigEndian.Uint32(h[12:]) != uint32(splitmix(uint64(p.kind)<<48|uint64(p.src)<<32|uint64(p.seq))) {
				return fmt.Errorf("at output offset %d: not a record boundary (% x)", p.total-recHdr, h[:16])
			}
			if k := binary.BigEndian.Uint64(h[16:]); k != p.ckey {
				return fmt.Errorf("at output offset %d: record of another connection (key %x, want %x)", p.total-recHdr, k, p.ckey)
			}
			p.key, p.off = recKey(p.kind, p.src, p.seq, p.ckey), 0
			if p.left == 0 {
				p.hn = 0
				if err := p.onDone(p.kind, p.src, p.seq); err != nil {
					return err
				}
			}
			continue
		}
		k := len(b)
		if k > p.left {
			k = p.left
		}
		if i := mismatch(b[:k], p.key, p.off); i >= 0 {
			return fmt.Errorf("at output offset %d: byte %d of record kind=%d src=%d seq=%d is wrong", p.total+int64(i), p.off+int64(i), p.kind, p.src, p.seq)
		}
		p.off += int64(k)
		p.left -= k
		p.total += int64(k)
		b = b[k:]
		if p.left == 0 {
			p.hn = 0
			if err := p.onDone(p.kind, p.src, p.seq); err != nil {
				return err
			}
		}
	}
	return nil
}

// pickSize draws sizes that straddle the library's buffer boundaries.
func pickSize(r *rand.Rand, max int) int {
	var n int
	switch r.Intn(10) {
	case 0:
		n = 1 + r.Intn(4)
	case 1, 2:
		n = 1 + r.Intn(64)
	case 3, 4:
		n = 1 + r.Intn(4096)
	case 5:
		n = 4090 + r.Intn(12)
	case 6:
		n = 1024 << uint(r.Intn(7))
		n += r.Intn(3) - 1
	case 7:
		n = 65530 + r.Intn(12)
	case 8:
		n = 1 + r.Intn(200000)
	default:
		n = 1 + r.Intn(1500)
	}
	if n > max {
		n = 1 + r.Intn(max)
	}
	return n
}

type streamState struct {
	key       uint64
	pos       int64
	mode      int
	rng       *rand.Rand
	replies   uint32 // replies returned
	replyMax  int
	bad       bool
	closeAt   int64 // server closes the connection when pos passes this
	asyncDone chan struct{}
	aliasData bool
}

func connKey(w *W, addr string) uint64 { return splitmix(fnv([]byte(addr)) ^ uint64(w.Seed)) }

func scenarioStream(w *W) {
	rounds := w.Scale(w.Param("rounds", 40), 10*w.Param("rounds", 40))
	for r := 0; r < rounds && !w.Violated(); r++ {
		streamRound(w, r)
	}
}

func streamRound(w *W, round int) {
	nconn := w.Param("conns", 12)
	volume := w.Param("volume", 400<<10)
	abrupt := w.Param("abrupt", 0) == 1
	loops := 1 + w.rng.Intn(3)
	planSeed := w.rng.Int63()
	planOf := func(addr string) *rand.Rand {
		return rand.New(rand.NewSource(planSeed ^ int64(connKey(w, addr))))
	}
	only := w.Param("mode", -1)
	setup := func(cs *ConnS) *streamState {
		pr := planOf(cs.peer)
		st := &streamState{key: connKey(w, cs.peer), rng: pr, closeAt: -1, asyncDone: make(chan struct{})}
		st.mode = pr.Intn(3)
		if only >= 0 {
			st.mode = only
		}
		st.replyMax = []int{0, 64, 5000, 70000, 300000}[pr.Intn(5)]
		if abrupt && pr.Intn(2) == 0 {
			st.closeAt = int64(pr.Intn(volume))
		}
		return st
	}
	var srv *Srv
	m := newMon(w)
	m.OnConn = func(cs *ConnS) {
		st := setup(cs)
		cs.mu.Lock()
		cs.u = st
		cs.mu.Unlock()
	}
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*streamState)
		if ctx != nil {
			w.V("C01", "default protocol produced a context %v", ctx)
		}
		if i := mismatch(data, st.key, st.pos); i >= 0 && !st.bad {
			st.bad = true
			other := ""
			m.conns.Range(func(_, v any) bool {
				o := v.(*ConnS)
				if o != cs && o.u != nil {
					ok := o.u.(*streamState).key
					for _, off := range []int64{st.pos + int64(i), 0} {
						if end := i + 16; end <= len(data) && mismatch(data[i:end], ok, off) < 0 {
							other = fmt.Sprintf(" (bytes of connection %d)", o.id)
						}
					}
				}
				return true
			})
			w.V("C01", "connection %d: callback of %d bytes at stream position %d differs at byte %d%s", cs.id, len(data), st.pos, i, other)
		}
		if !st.bad && st.rng.Intn(4) == 0 {
			// the slice must not change while the callback runs
			for i := st.rng.Intn(5); i >= 0; i-- {
				runtime.Gosched()
			}
			if st.rng.Intn(8) == 0 {
				time.Sleep(time.Duration(st.rng.Intn(200)) * time.Microsecond)
			}
			if i := mismatch(data, st.key, st.pos); i >= 0 {
				st.bad = true
				w.V("C01", "connection %d: data at stream position %d changed during the callback", cs.id, st.pos+int64(i))
			}
		}
		atomic.AddInt64(&st.pos, int64(len(data)))
		w.Ev("bytes-in", int64(len(data)))
		w.Ev("messages", 1)
		if st.closeAt >= 0 && st.pos >= st.closeAt {
			_ = cs.c.Close()
		}
		switch st.mode {
		case modeEcho:
			return data
		case modeRecord:
			n := 0
			if st.replyMax > 0 {
				n = st.rng.Intn(st.replyMax)
				if st.rng.Intn(3) > 0 {
					n = st.rng.Intn(200)
				}
			}
			rec := record(1, 0, st.replies, n, st.key)
			atomic.AddUint32(&st.replies, 1)
			return rec
		}
		return nil
	}
	sndb := 0
	if w.rng.Intn(3) > 0 {
		sndb = []int{4096, 16384, 65536}[w.rng.Intn(3)]
	}
	srv = w.startServer(SrvOpt{Loops: loops, Mon: m, SndB: sndb, Addr: ""})
	var wg sync.WaitGroup
	for i := 0; i < nconn; i++ {
		wg.Add(1)
		cseed := w.rng.Int63()
		go func(i int) {
			defer wg.Done()
			streamClient(w, srv, rand.New(rand.NewSource(cseed)), volume, abrupt, planOf, only)
		}(i)
		if w.rng.Intn(3) == 0 {
			time.Sleep(time.Duration(w.rng.Intn(1000)) * time.Microsecond)
		}
	}
	wg.Wait()
	srv.Stop()
}

func streamClient(w *W, srv *Srv, rng *rand.Rand, volume int, abrupt bool, planOf func(string) *rand.Rand, only int) {
	rcvbuf := 0
	if rng.Intn(2) == 0 {
		rcvbuf = []int{2048, 8192, 32768}[rng.Intn(3)]
	}
	conn, cs := srv.DialCS(rcvbuf, 0)
	defer conn.Close()
	addr := conn.LocalAddr().String()
	key := connKey(w, addr)
	st := cs.u.(*streamState)
	mode := st.mode
	total := 1 + rng.Intn(volume)
	if mode == modeEcho && rcvbuf > 0 && rcvbuf < 8000 && total > 100<<10 {
		total = 100 << 10 // tiny windows are slow
	}
	endRst := abrupt && rng.Intn(2) == 0
	// the end of the stream right behind the last byte
	endFin := !endRst && st.closeAt < 0 && rng.Intn(3) == 0
	if endFin && rng.Intn(3) == 0 {
		total = (total/65536 + 1) * 65536 // whole reads, then the end
	}
	slow := rng.Intn(3)
	readSeed := rng.Int63()

	// asynchronous senders
	var swg sync.WaitGroup
	nsend := 0
	if mode == modeRecord {
		nsend = rng.Intn(4)
	}
	sent := make([]uint32, nsend)
	for g := 0; g < nsend; g++ {
		swg.Add(1)
		sr := rand.New(rand.NewSource(rng.Int63()))
		go func(g int) {
			defer swg.Done()
			n := 5 + sr.Intn(40)
			for q := 0; q < n; q++ {
				rec := record(2, uint16(g), uint32(q), pickSize(sr, 20000), key)
				if err := cs.c.Send(rec); err != nil {
					if err != gev.ErrConnectionClosed {
						w.V("C02", "Send returned %v", err)
					}
					return
				}
				atomic.StoreUint32(&sent[g], uint32(q+1))
				if cs.c.WriteBufferLength() > 0 {
					w.Ev("pending-output-seen", 1)
				}
				if sr.Intn(3) == 0 {
					time.Sleep(time.Duration(sr.Intn(300)) * time.Microsecond)
				}
			}
		}(g)
	}

	// reader
	var got int64 // bytes read
	var gotReplies uint32
	gotSends := make([]uint32, nsend)
	var echoOff int64
	p := &recParser{ckey: key, onDone: func(kind byte, src uint16, seq uint32) error {
		switch kind {
		case 1:
			if seq != gotReplies {
				return fmt.Errorf("reply %d arrived where reply %d was due", seq, gotReplies)
			}
			atomic.AddUint32(&gotReplies, 1)
		case 2:
			if int(src) >= nsend || seq != gotSends[src] {
				return fmt.Errorf("asynchronous send %d of sender %d arrived where %v was due", seq, src, gotSends)
			}
			atomic.AddUint32(&gotSends[src], 1)
		}
		return nil
	}}
	rdone := make(chan struct{})
	var bad int32
	go func() {
		defer close(rdone)
		rr := rand.New(rand.NewSource(readSeed))
		buf := make([]byte, 64<<10)
		for {
			n := len(buf)
			if slow > 0 {
				n = 1 + rr.Intn(16<<10)
				if slow == 2 && rr.Intn(4) == 0 {
					time.Sleep(time.Duration(rr.Intn(2000)) * time.Microsecond)
				}
			}
			k, err := conn.Read(buf[:n])
			if k > 0 {
				atomic.AddInt64(&got, int64(k))
				w.Ev("bytes-out", int64(k))
				if atomic.LoadInt32(&bad) == 0 {
					var e error
					switch mode {
					case modeEcho:
						if i := mismatch(buf[:k], key, echoOff); i >= 0 {
							e = fmt.Errorf("echoed byte %d is wrong", echoOff+int64(i))
						}
						echoOff += int64(k)
					case modeRecord:
						e = p.feed(buf[:k])
					default:
						e = fmt.Errorf("%d unexpected bytes", k)
					}
					if e != nil {
						atomic.StoreInt32(&bad, 1)
						w.V("C02", "connection %s (mode %d): %v", addr, mode, e)
					}
				}
			}
			if err != nil {
				return
			}
		}
	}()

	// writer
	off := int64(0)
	var segs uint64
	nseg := 0
	wfailed := false
	for int(off) < total {
		n := pickSize(rng, total)
		if n > total-int(off) {
			n = total - int(off)
		}
		b := pattern(n, key, off)
		k, err := conn.Write(b)
		off += int64(k)
		segs = splitmix(segs ^ uint64(n))
		nseg++
		if err != nil {
			wfailed = true
			break
		}
		switch rng.Intn(6) {
		case 0:
			time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		case 1:
			runtime.Gosched()
		}
		if endRst && rng.Intn(20) == 0 {
			break
		}
	}
	if endRst {
		swg.Wait()
		rst(conn)
	}
	if endFin && !wfailed {
		_ = conn.CloseWrite()
		if mode == modeSink && rng.Intn(2) == 0 {
			_ = conn.Close() // nothing is due from the server: an orderly end
		}
		srvProg := func() int64 { return atomic.LoadInt64(&got) + srv.Progress() }
		if w.Await("connection "+addr+" closes after the end of its stream", srvProg, func() bool { return cs.Closed() && atomic.LoadInt32(&cs.in) == 0 }) {
			if p := atomic.LoadInt64(&st.pos); p != int64(total) {
				w.V("C01", "connection %s: %d bytes and the end of the stream sent, %d bytes delivered before the close", addr, total, p)
			}
		}
		swg.Wait()
		if mode == modeEcho && atomic.LoadInt32(&bad) == 0 {
			w.Await("connection "+addr+" sees the end of the stream", func() int64 { return atomic.LoadInt64(&got) }, func() bool { return isClosed(rdone) })
			if g := atomic.LoadInt64(&got); g != int64(total) {
				w.V("C02", "connection %s: %d bytes echoed before the end of the stream, %d sent", addr, g, total)
			}
		}
		_ = conn.Close()
		<-rdone
		w.Ev("ended-right-behind-data", 1)
		w.Case(fmt.Sprintf("mode=%d total=%d segments=%d:%x rcvbuf=%d slowReader=%d replyMax=%d senders=%d end=fin", mode, total, nseg, segs&0xffffff, rcvbuf, slow, st.replyMax, nsend))
		return
	}
	closedEarly := endRst || st.closeAt >= 0 || wfailed
	if !closedEarly {
		swg.Wait()
		srvProg := func() int64 { return atomic.LoadInt64(&got) + srv.Progress() }
		ok := w.Await(fmt.Sprintf("connection %s: all %d sent bytes reach the message callback", addr, total), srvProg,
			func() bool { return atomic.LoadInt64(&st.pos) >= int64(total) || cs.Closed() })
		if p := atomic.LoadInt64(&st.pos); ok && p != int64(total) {
			w.V("C01", "connection %s: %d bytes sent, %d delivered (closed=%v)", addr, total, p, cs.Closed())
		}
		ok = ok && w.Await(fmt.Sprintf("connection %s: every reply and send reaches the peer", addr), srvProg, func() bool {
			if atomic.LoadInt32(&bad) != 0 || cs.Closed() {
				return true
			}
			switch mode {
			case modeEcho:
				return atomic.LoadInt64(&got) >= int64(total)
			case modeRecord:
				if atomic.LoadUint32(&gotReplies) < atomic.LoadUint32(&st.replies) {
					return false
				}
				for g := range gotSends {
					if atomic.LoadUint32(&gotSends[g]) < atomic.LoadUint32(&sent[g]) {
						return false
					}
				}
			}
			return true
		})
		if ok && atomic.LoadInt32(&bad) == 0 {
			if cs.Closed() {
				w.V("C02,C04", "connection %s was closed although neither side closed it", addr)
			}
			// nothing may follow what was due
			time.Sleep(2 * time.Millisecond)
			if mode == modeEcho && atomic.LoadInt64(&got) != int64(total) {
				w.V("C02", "connection %s: %d bytes echoed, %d sent", addr, atomic.LoadInt64(&got), total)
			}
		}
	} else {
		if !endRst {
			// the server closes: the client sees the end of the stream
			_ = conn.CloseWrite()
		}
		swg.Wait()
		_ = w.Await("connection "+addr+" closes", srv.Progress, func() bool { return cs.Closed() })
		if p := atomic.LoadInt64(&st.pos); p > off {
			w.V("C01", "connection %s: %d bytes delivered, only %d sent", addr, p, off)
		}
	}
	_ = conn.Close()
	<-rdone
	sig := ""
	if nseg > 1 {
		sig = fmt.Sprintf("mode=%d total=%d segments=%d:%x rcvbuf=%d slowReader=%d replyMax=%d senders=%d abrupt=%v", mode, total, nseg, segs&0xffffff, rcvbuf, slow, st.replyMax, nsend, closedEarly)
	}
	w.Case(sig)
}

// scenarioUnpack hands the default protocol input that lies anywhere in the
// ring buffer: all positions and lengths in small rings, and around the size of
// the user buffer in larger ones.
func scenarioUnpack(w *W) {
	srv := w.startServer(SrvOpt{Loops: 1, Mon: newMon(w)})
	conn, cs := srv.DialCS(0, 0)
	defer conn.Close()
	p := &gev.DefaultProtocol{}
	one := func(size, at, n int) {
		r := ringbuffer.New(size)
		if at > 0 {
			_, _ = r.Write(make([]byte, at+1)[:min(at+1, size)])
			r.Retrieve(at)
			if at+1 > size {
				return
			}
		} else {
			_, _ = r.Write([]byte{0})
		}
		// one byte is left, so that the position is kept
		in := make([]byte, n)
		fill(in, uint64(size)<<40^uint64(at)<<20^uint64(n), 0)
		_, _ = r.Write(in)
		if r.Length() != n+1 {
			return
		}
		_, e := r.PeekAll()
		ctx, got := p.UnPacket(cs.c, r)
		if ctx != nil || len(got) != n+1 || got[0] != 0 || !bytes.Equal(got[1:], in) {
			w.V("C01,C03", "the default protocol made %d bytes (context %v) of %d bytes of which %d lay behind the end of the ring", len(got), ctx, n+1, len(e))
		}
		if r.Length() != 0 {
			w.V("C01,C03", "the default protocol left %d bytes in the buffer", r.Length())
		}
		if len(e) > 0 {
			w.Case(fmt.Sprintf("unpack ring=%d behind-the-end=%d", size, len(e)))
		} else {
			w.Case("")
		}
	}
	var done int32
	cs.loop.loop.QueueInLoop(func() {
		defer atomic.StoreInt32(&done, 1)
		largest := 200
		if w.Thorough() {
			largest = 600
		}
		for size := 2; size <= largest && !w.Violated(); size++ {
			for at := 0; at < size; at++ {
				for n := 1; n < size; n++ {
					one(size, at, n)
				}
			}
		}
		for k := 0; k < w.Scale(500, 50000); k++ {
			size := 1 << (7 + w.rng.Intn(10))
			n := size - 1 - w.rng.Intn(40)
			if w.rng.Intn(3) == 0 {
				n = 1 + w.rng.Intn(size-1)
			}
			one(size, w.rng.Intn(size), n)
		}
	})
	w.Await("the loop runs the task", func() int64 { return w.Evaluations() }, func() bool { return atomic.LoadInt32(&done) == 1 })
	srv.Stop()
}

func init() {
	scenarios["stream"] = scenarioStream
	scenarios["unpack"] = scenarioUnpack
	mk := func(modeC01 bool) func(string) []Job {
		return func(tier string) []Job {
			js := []Job{
				{Name: "mixed", Scenario: "stream"},
				{Name: "mixed-perturbed", Scenario: "stream", Perturb: 1},
				{Name: "one-cpu", Scenario: "stream", Procs: 1, P: map[string]int{"conns": 8}},
				{Name: "abrupt", Scenario: "stream", Perturb: 1, P: map[string]int{"abrupt": 1, "conns": 16, "rounds": 60}},
			}
			if modeC01 {
				js = append(js, Job{Name: "echo", Scenario: "stream", P: map[string]int{"mode": modeEcho, "conns": 16}},
					Job{Name: "bulk", Scenario: "stream", P: map[string]int{"mode": modeSink, "volume": 8 << 20, "conns": 4, "rounds": 12}},
					Job{Name: "unpack", Scenario: "unpack"},
					// the default protocol behind a protocol that lets input pile up
					Job{Name: "delegated", Scenario: "frames", P: map[string]int{"variant": 4, "workers": 4, "random": 150}})
			} else {
				js = append(js, Job{Name: "records", Scenario: "stream", P: map[string]int{"mode": modeRecord, "conns": 16}},
					Job{Name: "records-perturbed", Scenario: "stream", Perturb: 2, P: map[string]int{"mode": modeRecord}},
					Job{Name: "bulk", Scenario: "stream", P: map[string]int{"mode": modeEcho, "volume": 4 << 20, "conns": 4, "rounds": 12}})
				js = append(js, dripJobs()[:2]...)
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "stream", Perturb: i % 3, Procs: []int{0, 2, 4}[i%3], P: map[string]int{"conns": 8 + 8*i}})
				}
			}
			return js
		}
	}
	register("C01", &Property{
		Rule:        "one case = one client connection sending a keyed pseudo-random stream in random segments through the default protocol; non-trivial when it used more than one segment; distinct by mode, length, segmentation, buffer sizes, reader speed, reply sizes, senders and ending",
		Assumptions: []string{"loopback TCP and the kernel deliver bytes faithfully", "the keyed stream makes every wrong, missing, repeated or foreign byte visible with probability 1-2^-64 per 8 bytes"},
		jobs:        mk(true),
	})
	register("C02", &Property{
		Rule:        "one case = one client connection whose outbound stream (echo, or self-describing reply records interleaved with asynchronous sends) is parsed and checked byte for byte; non-trivial when more than one input segment was sent; distinct as for the stream parameters",
		Assumptions: []string{"loopback TCP and the kernel deliver bytes faithfully", "closing mid-stream is checked for prefix validity only"},
		jobs:        mk(false),
	})
	_ = net.JoinHostPort
}
