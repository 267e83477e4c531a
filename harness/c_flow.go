package main

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/anishathalye/porcupine"
	"golang.org/x/sys/unix"
)

// barrier waits until the loop of cs has finished everything it was doing.
func (w *W) barrier(cs *ConnS) bool {
	var done int32
	cs.loop.loop.QueueInLoop(func() { atomic.StoreInt32(&done, 1) })
	return w.Await("the loop executes a task", func() int64 { return atomic.LoadInt64(&cs.loop.beat) }, func() bool { return atomic.LoadInt32(&done) == 1 })
}

func sendQ(c *net.TCPConn) int {
	n := -1
	rc, err := c.SyscallConn()
	if err != nil {
		return -1
	}
	_ = rc.Control(func(fd uintptr) { n = ioctlInt(int(fd), siocoutq) })
	return n
}

// widen enlarges the socket buffers of a connection on both sides.
func widen(conn *net.TCPConn, cs *ConnS) {
	_ = conn.SetReadBuffer(1 << 20)
	if fd := serverFD(cs.peer); fd >= 0 {
		_ = unix.SetsockoptInt(fd, unix.SOL_SOCKET, unix.SO_SNDBUF, 1<<20)
	}
}

// ------------------------------------------------------------- backlog (C13)

func scenarioBacklog(w *W) {
	m := newMon(w)
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*backlogState)
		n := len(data) * st.mult
		if n == 0 {
			return nil
		}
		atomic.AddInt64(&st.accepted, int64(n))
		return make([]byte, n)
	}
	m.OnConn = func(cs *ConnS) {
		cs.u = &backlogState{mult: int(cs.id % 3)}
	}
	srv := w.startServer(SrvOpt{Loops: 2, Mon: m, SndB: w.Param("sndbuf", 0)})
	fsrv, fp := frameServer(w, w.Param("variant", 0), 2)
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(2)
		go func() {
			defer wg.Done()
			for k := 0; k < w.Scale(16, 160) && !w.Violated(); k++ {
				backlogWrite(w, srv, rng)
			}
		}()
		rng2 := rand.New(rand.NewSource(w.rng.Int63()))
		go func() {
			defer wg.Done()
			for k := 0; k < w.Scale(16, 160) && !w.Violated(); k++ {
				backlogRead(w, fsrv, fp, rng2)
			}
		}()
	}
	wg.Wait()
	srv.Stop()
	fsrv.Stop()
}

type backlogState struct {
	mult     int
	accepted int64
}

func backlogWrite(w *W, srv *Srv, rng *rand.Rand) {
	conn, cs := srv.DialCS([]int{0, 4096}[rng.Intn(2)], []int{0, 8192}[rng.Intn(2)])
	defer conn.Close()
	st := cs.u.(*backlogState)
	fd := serverFD(cs.peer)
	if fd < 0 {
		w.Fatal("no server descriptor for %s", cs.peer)
	}
	stop := make(chan struct{})
	var sampler sync.WaitGroup
	sampler.Add(1)
	var samples int64
	go func() {
		defer sampler.Done()
		for !isClosed(stop) {
			wb, rb := cs.c.WriteBufferLength(), cs.c.ReadBufferLength()
			if wb < 0 || rb < 0 {
				w.V("C13", "a backlog is negative: write %d read %d", wb, rb)
				return
			}
			samples++
			time.Sleep(100 * time.Microsecond)
		}
	}()
	defer sampler.Wait()
	defer close(stop)

	var read, sent int64
	buf := make([]byte, 1<<20)
	steps := 3 + rng.Intn(6)
	for s := 0; s < steps && !w.Violated(); s++ {
		op := rng.Intn(4)
		switch op {
		case 0, 1: // asynchronous sends
			for k := 0; k <= rng.Intn(4); k++ {
				n := pickSize(rng, 300000)
				if rng.Intn(3) == 0 {
					n = 1<<20 + rng.Intn(4<<20)
				}
				atomic.AddInt64(&st.accepted, int64(n))
				if err := cs.c.Send(make([]byte, n)); err != nil {
					w.V("C13", "Send on an open connection returned %v", err)
				}
			}
		case 2: // input, answered mult-fold unless output is pending
			n := pickSize(rng, 60000)
			_ = conn.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
			k, _ := conn.Write(make([]byte, n))
			sent += int64(k)
		case 3: // the peer reads some
			n := 1 + rng.Intn(1<<20)
			_ = conn.SetReadDeadline(time.Now().Add(3 * time.Millisecond))
			k, _ := conn.Read(buf[:n])
			read += int64(k)
		}
		if !w.barrier(cs) {
			return
		}
		var a, f, q, wb int64
		if !w.Await(fmt.Sprintf("connection %d: write backlog + kernel + received = accepted (step %d)", cs.id, s), m(srv), func() bool {
			wb = cs.c.WriteBufferLength()
			a, f, q = atomic.LoadInt64(&st.accepted), int64(unreadBytes(conn)), int64(ioctlInt(fd, siocoutq))
			return a == read+f+q+wb
		}) {
			w.V("C13", "connection %d: accepted %d bytes; peer has read %d, %d wait in the peer's kernel, %d in the server's, the library reports %d", cs.id, a, read, f, q, wb)
			return
		}
		if !w.Await(fmt.Sprintf("connection %d: read backlog + kernel + delivered = sent (step %d)", cs.id, s), m(srv), func() bool {
			rb := cs.c.ReadBufferLength()
			return sent == atomic.LoadInt64(&cs.bytes)+rb+int64(ioctlInt(fd, fionread))+int64(sendQ(conn))
		}) {
			w.V("C13", "connection %d: peer sent %d, delivered %d, in kernels %d+%d, the library reports a read backlog of %d", cs.id, sent, cs.bytes, ioctlInt(fd, fionread), sendQ(conn), cs.c.ReadBufferLength())
			return
		}
		if wb > 0 {
			w.Ev("backlog-nonzero", 1)
		}
		w.Case(fmt.Sprintf("write op=%d backlog=%d mult=%d", op, wb, st.mult))
	}
	// drain completely
	widen(conn, cs)
	_ = conn.SetReadDeadline(time.Time{})
	var rd int64 = read
	go func() {
		for {
			k, err := conn.Read(buf)
			atomic.AddInt64(&rd, int64(k))
			if err != nil {
				return
			}
		}
	}()
	if !w.Await(fmt.Sprintf("connection %d: everything accepted arrives", cs.id), func() int64 { return atomic.LoadInt64(&rd) }, func() bool {
		return atomic.LoadInt64(&cs.bytes) == sent && atomic.LoadInt64(&rd) == atomic.LoadInt64(&st.accepted)
	}) {
		return
	}
	if !w.barrier(cs) {
		return
	}
	w.Await(fmt.Sprintf("connection %d: both backlogs are zero once drained (write %d read %d)", cs.id, cs.c.WriteBufferLength(), cs.c.ReadBufferLength()), nil,
		func() bool { return cs.c.WriteBufferLength() == 0 && cs.c.ReadBufferLength() == 0 })
	w.Case(fmt.Sprintf("drained accepted=%d sent=%d", st.accepted, sent))
	w.Ev("samples", samples)
}

func m(s *Srv) func() int64 { return s.Progress }

func backlogRead(w *W, srv *Srv, p *frameProto, rng *rand.Rand) {
	conn, cs := srv.DialCS(0, 0)
	defer conn.Close()
	st := cs.u.(*frameState)
	pc := p.pc(cs.c)
	go func() {
		b := make([]byte, 65536)
		for {
			if _, err := conn.Read(b); err != nil {
				return
			}
		}
	}()
	var sent, consumed int64
	var wire []byte
	var ends []int64
	at := int64(0)
	for i := 0; i < 12; i++ {
		f := wireFrame{flags: byte(rng.Intn(4)), n: pickSize(rng, 20000)}
		if rng.Intn(5) == 0 {
			f.n = 1 + rng.Intn(200000)
		}
		st.emu.Lock()
		idx := len(st.expect)
		st.expect = append(st.expect, f)
		st.emu.Unlock()
		wire = append(wire, f.encode(st.key, idx)...)
		ends = append(ends, int64(len(wire)))
	}
	for at < int64(len(wire)) && !w.Violated() {
		n := int64(1 + rng.Intn(int(int64(len(wire))-at)))
		if rng.Intn(2) == 0 && n > 100 {
			n = 1 + n%100
		}
		if _, err := conn.Write(wire[at : at+n]); err != nil {
			w.V("C13", "server closed the connection: %v", err)
			return
		}
		at += n
		sent += n
		consumed = 0
		for _, e := range ends {
			if e <= at {
				consumed = e
			}
		}
		if !w.Await(fmt.Sprintf("connection %d: the protocol sees all %d bytes", cs.id, sent), func() int64 { return atomic.LoadInt64(&pc.calls) }, func() bool { return atomic.LoadInt64(&pc.seen) >= sent || cs.Closed() }) {
			return
		}
		if !w.barrier(cs) {
			return
		}
		want := sent - pc.consumed
		if pc.consumed < consumed {
			w.V("C13,C03", "connection %d: only %d bytes consumed of %d bytes of complete frames", cs.id, pc.consumed, consumed)
		}
		if got := cs.c.ReadBufferLength(); got != want {
			w.V("C13", "connection %d: %d bytes received, %d consumed by the protocol, reported read backlog is %d", cs.id, sent, pc.consumed, got)
			return
		}
		w.Case(fmt.Sprintf("read variant=%d backlog=%d", p.variant, want))
	}
	if got := cs.c.ReadBufferLength(); got != 0 && !w.Violated() {
		w.V("C13", "connection %d: read backlog %d after all frames were consumed", cs.id, got)
	}
}

// -------------------------------------------------------- backpressure (C14)

func scenarioPressure(w *W) {
	n := w.Scale(w.Param("rounds", 4), 10*w.Param("rounds", 4))
	for r := 0; r < n && !w.Violated(); r++ {
		pressureRound(w, r)
	}
}

func pressureRound(w *W, r int) {
	framed := (r+w.Param("framed", 0))%2 == 1
	mult := 1 + w.rng.Intn(4)
	var fp *frameProto
	var proto gev.Protocol
	if framed {
		fp = &frameProto{w: w, variant: w.rng.Intn(4)}
		proto = fp
	}
	type pst struct {
		key    uint64
		pos    int64
		maxOut int64
		bad    bool
	}
	mon := newMon(w)
	mon.OnConn = func(cs *ConnS) { cs.u = &pst{key: connKey(w, cs.peer)} }
	mon.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*pst)
		if framed {
			i := cs.msgs - 1
			if mismatch(data, st.key^uint64(i)*977, 0) >= 0 && !st.bad {
				st.bad = true
				w.V("C14", "connection %d: frame %d arrived corrupted", cs.id, i)
			}
			return &outMsg{id: uint64(i), body: pattern(len(data)*mult, st.key^uint64(i)*31, 0)}
		}
		if i := mismatch(data, st.key, st.pos); i >= 0 && !st.bad {
			st.bad = true
			w.V("C14", "connection %d: input byte %d arrived corrupted", cs.id, st.pos+int64(i))
		}
		out := pattern(len(data)*mult, st.key^0x5555, st.pos*int64(mult))
		st.pos += int64(len(data))
		return out
	}
	srv := w.startServer(SrvOpt{Loops: 1 + r%2, Mon: mon, Proto: proto, SndB: []int{0, 4096, 65536}[w.rng.Intn(3)]})
	nc := 3
	var wg sync.WaitGroup
	for i := 0; i < nc; i++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn, cs := srv.DialCS([]int{2048, 0, 16384}[rng.Intn(3)], []int{0, 8192}[rng.Intn(2)])
			defer conn.Close()
			st := cs.u.(*pst)
			total := int64(24<<20) + int64(rng.Intn(8<<20)) // more than all buffers on the way hold
			maxFrame := 3000
			var sent int64
			var frames int64
			werr := make(chan error, 1)
			go func() {
				b := make([]byte, 64<<10)
				for atomic.LoadInt64(&sent) < total {
					if framed {
						b = b[:0]
						for len(b) < 40000 {
							f := wireFrame{flags: 1, n: rng.Intn(maxFrame)}
							b = append(b, f.encode(st.key, int(frames))...)
							frames++
						}
					} else {
						fill(b, st.key, atomic.LoadInt64(&sent))
					}
					for off := 0; off < len(b); {
						k, err := conn.Write(b[off:min(len(b), off+8192)])
						off += k
						atomic.AddInt64(&sent, int64(k))
						if err != nil {
							if isTimeout(err) && !framed {
								err = nil // told to stop: no further input from here on
							}
							werr <- err
							return
						}
					}
				}
				werr <- nil
			}()
			// phase 1: not reading; the server must stop consuming
			bound := int64(eventloop.DefaultPacketSize) * int64(mult)
			if framed {
				// a read can complete a buffered frame; every frame adds a 12 byte header
				bound = int64(eventloop.DefaultPacketSize+maxFrame+4)*int64(mult) + 12*int64((eventloop.DefaultPacketSize+maxFrame+4)/4)
			}
			check := func() bool {
				wb := cs.c.WriteBufferLength()
				if wb > st.maxOut {
					st.maxOut = wb
				}
				if wb > bound {
					w.V("C14", "connection %d: pending output reached %d bytes, replies to one read are at most %d", cs.id, wb, bound)
					return true
				}
				return false
			}
			var last, lastSent int64 = -1, -1
			still := 0
			stuck := w.waitQuiet(func() int64 { return atomic.LoadInt64(&cs.bytes)<<20 ^ atomic.LoadInt64(&sent) }, func() bool {
				if check() {
					return true
				}
				b, s := atomic.LoadInt64(&cs.bytes), atomic.LoadInt64(&sent)
				if b == last && s == lastSent && s > 0 {
					still++
				} else {
					still, last, lastSent = 0, b, s
				}
				return still > 60 && cs.c.WriteBufferLength() > 0 || s >= total
			})
			if w.Violated() {
				return
			}
			if !stuck || atomic.LoadInt64(&sent) >= total {
				w.V("C14", "connection %d: the server consumed %d bytes from a peer that reads nothing (sent %d of %d, pending output %d)", cs.id, cs.bytes, sent, total, cs.c.WriteBufferLength())
				return
			}
			consumed := atomic.LoadInt64(&cs.bytes)
			quiet := !framed && rng.Intn(2) == 0
			if quiet {
				_ = conn.SetWriteDeadline(time.Now())
			}
			widen(conn, cs) // tiny windows would only make this slow
			w.Ev("throttled", 1)
			// phase 2: read again, in bursts with pauses; all of it must come
			var got int64
			rerr := make(chan error, 1)
			go func() {
				buf := make([]byte, 256<<10)
				var rd replyReader
				rd.w, rd.cs, rd.key, rd.mult, rd.framed = w, cs, st.key, mult, framed
				for {
					n, err := conn.Read(buf[:1+rng.Intn(len(buf))])
					rd.feed(buf[:n])
					atomic.AddInt64(&got, int64(n))
					if err != nil {
						rerr <- err
						return
					}
					if rng.Intn(64) == 0 {
						time.Sleep(time.Duration(rng.Intn(4)) * time.Millisecond)
					}
				}
			}()
			var we error
			wdone := false
			if !w.Await(fmt.Sprintf("connection %d: consumption resumes when the peer reads again (consumed %d)", cs.id, consumed), func() int64 { check(); return atomic.LoadInt64(&got) }, func() bool {
				select {
				case we = <-werr:
					wdone = true
				default:
				}
				return wdone
			}) {
				return
			}
			if we != nil {
				w.V("C14", "connection %d: the server ended the connection: %v", cs.id, we)
				return
			}
			want := func() int64 {
				if framed {
					return (atomic.LoadInt64(&sent)-4*frames)*int64(mult) + 12*frames
				}
				return atomic.LoadInt64(&sent) * int64(mult)
			}()
			w.Await(fmt.Sprintf("connection %d: all %d reply bytes arrive", cs.id, want), func() int64 { return atomic.LoadInt64(&got) }, func() bool { return atomic.LoadInt64(&got) >= want })
			if g := atomic.LoadInt64(&got); g > want {
				w.V("C14", "connection %d: %d reply bytes arrived, %d were due", cs.id, g, want)
			}
			w.Case(fmt.Sprintf("framed=%v mult=%d quiet=%v consumed-before-throttle=%d max-pending=%d", framed, mult, quiet, consumed>>12, st.maxOut>>10))
			w.Ev("max-pending-sum", st.maxOut)
		}()
	}
	wg.Wait()
	if !w.Violated() {
		srv.Stop()
	}
}

// waitQuiet polls cond every few milliseconds; unlike Await nothing is owed.
func (w *W) waitQuiet(prog func() int64, cond func() bool) bool {
	begin := time.Now()
	for !cond() {
		time.Sleep(2 * time.Millisecond)
		if time.Since(begin) > 60*time.Second {
			return false
		}
	}
	return true
}

// replyReader checks the reply stream of the pressure scenario.
type replyReader struct {
	w      *W
	cs     *ConnS
	key    uint64
	mult   int
	framed bool
	pos    int64
	buf    []byte
	idx    uint64
	bad    bool
}

func (r *replyReader) feed(b []byte) {
	if r.bad {
		return
	}
	if !r.framed {
		if i := mismatch(b, r.key^0x5555, r.pos); i >= 0 {
			r.bad = true
			r.w.V("C14", "connection %d: reply byte %d is wrong", r.cs.id, r.pos+int64(i))
		}
		r.pos += int64(len(b))
		return
	}
	r.buf = append(r.buf, b...)
	off := 0
	for len(r.buf)-off >= 12 {
		h := r.buf[off:]
		l := int(uint32(h[0])<<24 | uint32(h[1])<<16 | uint32(h[2])<<8 | uint32(h[3]))
		id := uint64(0)
		for _, c := range h[4:12] {
			id = id<<8 | uint64(c)
		}
		if id != r.idx || l > 1<<20 {
			r.bad = true
			r.w.V("C14", "connection %d: reply %d arrived where %d was due", r.cs.id, id, r.idx)
			return
		}
		if len(h) < 12+l {
			break
		}
		if mismatch(h[12:12+l], r.key^id*31, 0) >= 0 {
			r.bad = true
			r.w.V("C14", "connection %d: reply %d is corrupt", r.cs.id, id)
			return
		}
		r.idx++
		off += 12 + l
	}
	r.buf = append(r.buf[:0], r.buf[off:]...)
}

// ---------------------------------------------------- completion (C15)

func scenarioComplete(w *W) {
	n := w.Scale(w.Param("rounds", 150), 12*w.Param("rounds", 40))
	for r := 0; r < n && !w.Violated(); r++ {
		completeRound(w, r)
	}
}

type sendRec struct {
	buf   []byte
	runs  int32
	seq   int64
	kept  bool
	err   error
	acc   int32
	frame *outMsg
}

func completeRound(w *W, r int) {
	framed := r%3 == 2
	ending := r % 4 // 0,1: stays open; 2: closed by the server meanwhile; 3: reset by the peer
	var fp *frameProto
	var proto gev.Protocol
	if framed {
		fp = &frameProto{w: w, variant: 0}
		proto = fp
	}
	mon := newMon(w)
	srv := w.startServer(SrvOpt{Loops: 1 + r%2, Mon: mon, Proto: proto, SndB: []int{0, 4096}[r%2]})
	conn, cs := srv.DialCS([]int{0, 2048}[w.rng.Intn(2)], 0)
	defer conn.Close()
	key := connKey(w, cs.peer)
	senders := 1 + w.rng.Intn(4)
	per := 10 + w.rng.Intn(60)
	type recvState struct {
		mu   sync.Mutex
		next map[int]uint32
		n    int64
		err  error
	}
	rs := &recvState{next: map[int]uint32{}}
	// client side: records per sender in order, contents intact
	rdone := make(chan struct{})
	go func() {
		defer close(rdone)
		buf := make([]byte, 64<<10)
		p := &recParser{ckey: key, onDone: func(kind byte, src uint16, seq uint32) error {
			if rs.next[int(src)] != seq {
				return fmt.Errorf("send %d of sender %d arrived where %d was due", seq, src, rs.next[int(src)])
			}
			rs.next[int(src)]++
			atomic.AddInt64(&rs.n, 1)
			return nil
		}}
		var fb []byte
		rng := rand.New(rand.NewSource(int64(key)))
		for {
			n, err := conn.Read(buf[:1+rng.Intn(len(buf))])
			d := buf[:n]
			if framed { // strip the 12-byte headers
				fb = append(fb, d...)
				d = nil
				for len(fb) >= 12 {
					l := int(uint32(fb[0])<<24 | uint32(fb[1])<<16 | uint32(fb[2])<<8 | uint32(fb[3]))
					if len(fb) < 12+l {
						break
					}
					d = append(d, fb[12:12+l]...)
					fb = fb[12+l:]
				}
			}
			if e := p.feed(d); e != nil && rs.err == nil {
				rs.err = e
				w.V("C15,C02", "connection %d: %v (payload memory is overwritten in the completion callback)", cs.id, e)
			}
			if err != nil {
				return
			}
			if ending < 2 && rng.Intn(40) == 0 {
				time.Sleep(time.Duration(rng.Intn(2)) * time.Millisecond)
			}
		}
	}()
	recs := make([][]*sendRec, senders)
	lastDone := make([]int64, senders)
	var globalIn int32
	var wg sync.WaitGroup
	var completed, accepted int64
	for g := 0; g < senders; g++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		lastDone[g] = -1
		go func(g int) {
			defer wg.Done()
			for i := 0; i < per; i++ {
				n := pickSize(rng, 40000)
				rec := &sendRec{buf: record(0, uint16(g), uint32(i), n, key), seq: int64(i)}
				var v interface{} = rec.buf
				if framed {
					rec.frame = &outMsg{id: uint64(i), body: rec.buf}
					v = rec.frame
				}
				finish := func(got interface{}) {
					if atomic.AddInt32(&globalIn, 1) != 1 {
						w.V("C15", "two completion callbacks of one connection overlap")
					}
					if k := atomic.AddInt32(&rec.runs, 1); k != 1 {
						w.V("C15", "completion callback of send %d of sender %d ran %d times", i, g, k)
					}
					if gid := goid(); gid != atomic.LoadInt64(&cs.loop.gid) {
						w.V("C15", "completion callback ran on goroutine %d, the connection's loop is %d", gid, cs.loop.gid)
					}
					switch x := got.(type) {
					case []byte:
						if framed || len(x) != len(rec.buf) || len(x) > 0 && &x[0] != &rec.buf[0] {
							w.V("C15", "completion callback of send %d of sender %d got another value", i, g)
						}
					case *outMsg:
						if x != rec.frame {
							w.V("C15", "completion callback of send %d of sender %d got another value", i, g)
						}
					default:
						w.V("C15", "completion callback got a %T", got)
					}
					if lastDone[g] >= rec.seq {
						w.V("C15", "completion callback of send %d of sender %d ran after that of send %d", i, g, lastDone[g])
					}
					if ending < 2 && lastDone[g] != rec.seq-1 {
						w.V("C15", "completion callback of send %d of sender %d ran before that of send %d", i, g, lastDone[g]+1)
					}
					lastDone[g] = rec.seq
					// the memory is ours again
					for j := range rec.buf {
						rec.buf[j] = 0xEE
					}
					atomic.AddInt64(&completed, 1)
					atomic.AddInt32(&globalIn, -1)
				}
				err := cs.c.Send(v, gev.SendInLoop(finish))
				rec.err = err
				recs[g] = append(recs[g], rec)
				if err == nil {
					atomic.AddInt64(&accepted, 1)
					if ending < 2 && rng.Intn(10) == 0 {
						time.Sleep(time.Duration(rng.Intn(100)) * time.Microsecond)
					}
				} else if ending < 2 {
					w.V("C15", "Send on an open connection returned %v", err)
				}
			}
		}(g)
	}
	switch ending {
	case 2:
		time.Sleep(time.Duration(w.rng.Intn(800)) * time.Microsecond)
		_ = cs.c.Close()
	case 3:
		time.Sleep(time.Duration(w.rng.Intn(800)) * time.Microsecond)
		rst(conn)
	}
	wg.Wait()
	if ending < 2 {
		total := int64(senders * per)
		w.Await(fmt.Sprintf("connection %d: %d completion callbacks run and the data arrives", cs.id, total), func() int64 { return atomic.LoadInt64(&completed) + atomic.LoadInt64(&rs.n) },
			func() bool { return atomic.LoadInt64(&completed) >= total && atomic.LoadInt64(&rs.n) >= total })
	} else {
		w.Await(fmt.Sprintf("connection %d closes", cs.id), mon.Progress, func() bool { return cs.Closed() })
		w.barrier(cs)
	}
	for g := range recs {
		for _, rec := range recs[g] {
			n := atomic.LoadInt32(&rec.runs)
			if rec.err != nil && n != 0 {
				w.V("C15", "completion callback ran although Send returned %v", rec.err)
			}
			if ending < 2 && n != 1 && !w.Violated() {
				w.V("C15", "completion callback of send %d of sender %d ran %d times on an open connection", rec.seq, g, n)
			}
		}
	}
	w.Ev("accepted", accepted)
	w.Ev("completed", completed)
	w.Case(fmt.Sprintf("framed=%v ending=%d senders=%d per=%d completed=%d", framed, ending, senders, per, completed))
	_ = conn.Close()
	<-rdone
	srv.Stop()
}

// ------------------------------------------------------------- key/value (C16)

type kvIn struct {
	op  int // 0 set 1 get 2 delete
	key string
	val int
}
type kvOut struct {
	val int
	ok  bool
}

// kvNil stands for a nil value (values that are 3 modulo 7 are set as nil).
const kvNil = -7

var kvModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		var ks []string
		for _, o := range h {
			k := o.Input.(kvIn).key
			if by[k] == nil {
				ks = append(ks, k)
			}
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range ks {
			out = append(out, by[k])
		}
		return out
	},
	Init: func() interface{} { return 0 },
	Step: func(s, in, out interface{}) (bool, interface{}) {
		i, o := in.(kvIn), out.(kvOut)
		switch i.op {
		case 0:
			if i.val%7 == 3 {
				return true, kvNil
			}
			return true, i.val
		case 2:
			return true, 0
		}
		cur := s.(int)
		if cur == 0 {
			return !o.ok, s
		}
		return o.ok && o.val == cur, s
	},
	DescribeOperation: func(in, out interface{}) string {
		i, o := in.(kvIn), out.(kvOut)
		switch i.op {
		case 0:
			return fmt.Sprintf("set(%s,%d)", i.key, i.val)
		case 2:
			return fmt.Sprintf("delete(%s)", i.key)
		}
		return fmt.Sprintf("get(%s)=%d,%v", i.key, o.val, o.ok)
	},
}

func scenarioKV(w *W) {
	mon := newMon(w)
	srv := w.startServer(SrvOpt{Loops: 1, Mon: mon})
	hist := w.Scale(w.Param("histories", 12000), 150000)
	var conn *net.TCPConn
	var cs, other *ConnS
	var oconn *net.TCPConn
	oconn, other = srv.DialCS(0, 0)
	other.c.Set("a", "other")
	for h := 0; h < hist && !w.Violated(); h++ {
		if h%50 == 0 {
			if conn != nil {
				_ = conn.Close()
			}
			conn, cs = srv.DialCS(0, 0)
			// a new connection starts empty
			for _, k := range []string{"a", "b", "c"} {
				if v, ok := cs.c.Get(k); ok || v != nil {
					w.V("C16,C24", "a new connection already has %q = %v", k, v)
				}
			}
		}
		workers := 2 + w.rng.Intn(6)
		per := 3 + w.rng.Intn(12)
		keys := []string{"a", "b", "c"}[:1+w.rng.Intn(3)]
		// the history begins from a known state
		for _, k := range []string{"a", "b", "c"} {
			cs.c.Delete(k)
		}
		ops := make([][]porcupine.Operation, workers)
		var wg sync.WaitGroup
		start := make(chan struct{})
		target := cs.c
		closeMid := h%50 == 49 && h%100 != 99
		for g := 0; g < workers; g++ {
			rng := rand.New(rand.NewSource(w.rng.Int63()))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < per; i++ {
					in := kvIn{op: rng.Intn(3), key: keys[rng.Intn(len(keys))], val: 1 + g*1000 + i}
					if rng.Intn(3) == 0 {
						in.op = 1
					}
					var out kvOut
					call := monoNow()
					switch in.op {
					case 0:
						if in.val%7 == 3 {
							target.Set(in.key, nil)
						} else {
							target.Set(in.key, in.val)
						}
					case 1:
						v, ok := target.Get(in.key)
						out.ok = ok
						if x, isInt := v.(int); isInt {
							out.val = x
						} else if ok && v == nil {
							out.val = kvNil
						} else if ok || v != nil {
							out.val = -1
						}
					case 2:
						target.Delete(in.key)
					}
					ops[g] = append(ops[g], porcupine.Operation{ClientId: g, Input: in, Call: call, Output: out, Return: monoNow()})
				}
			}(g)
		}
		close(start)
		if closeMid {
			_ = target.Close() // operations go on across the close
		}
		wg.Wait()
		var all []porcupine.Operation
		for _, o := range ops {
			all = append(all, o...)
		}
		overlaps := 0
		for i := range all {
			for j := range all[:i] {
				if all[i].Call <= all[j].Return && all[j].Call <= all[i].Return && all[i].Input.(kvIn).key == all[j].Input.(kvIn).key {
					overlaps++
				}
			}
		}
		w.Ev("overlapping-pairs", int64(overlaps))
		res, _ := porcupine.CheckOperationsVerbose(kvModel, all, 20*time.Second)
		switch res {
		case porcupine.Illegal:
			text := ""
			for _, o := range all {
				text += fmt.Sprintf("[%d-%d] g%d %s; ", o.Call, o.Return, o.ClientId, kvModel.DescribeOperation(o.Input, o.Output))
			}
			w.V("C16", "history %d is not linearizable: %s", h, head(text, 1500))
		case porcupine.Unknown:
			w.Ev("undecided-histories", 1)
		}
		sig := ""
		if overlaps > 0 {
			hh := uint64(0)
			for _, o := range all {
				i, out := o.Input.(kvIn), o.Output.(kvOut)
				hh = splitmix(hh ^ uint64(i.op) ^ uint64(out.val)<<8 ^ uint64(i.val)<<24)
			}
			sig = fmt.Sprintf("workers=%d per=%d keys=%d overlaps=%d results=%x", workers, per, len(keys), overlaps, hh&0xffffff)
		}
		w.Case(sig)
		if v, ok := other.c.Get("a"); !ok || v != "other" {
			w.V("C16,C24", "another connection's value for the same key changed to %v", v)
		}
		if closeMid {
			w.Await("the connection closes", mon.Progress, cs.Closed)
		}
	}
	_ = oconn.Close()
	if conn != nil {
		_ = conn.Close()
	}
	srv.Stop()
}

func init() {
	scenarios["backlog"] = scenarioBacklog
	scenarios["pressure"] = scenarioPressure
	scenarios["complete"] = scenarioComplete
	scenarios["kv"] = scenarioKV
	register("C13", &Property{
		Rule:        "one case = one quiescent moment at which the library's reported backlog is compared with what conservation demands: bytes accepted minus what the peer has read and what both kernels hold (FIONREAD, SIOCOUTQ) for writing, bytes received minus complete frames consumed for reading; sends, replies, partial reads and frames of random sizes; distinct by operation and backlog value",
		Assumptions: []string{"FIONREAD and SIOCOUTQ are exact once TCP has settled", "loopback TCP is faithful"},
		jobs: func(tier string) []Job {
			var js []Job
			for v := 0; v < 4; v++ {
				js = append(js, Job{Name: fmt.Sprintf("backlog-%d", v), Scenario: "backlog", Perturb: v % 2, P: map[string]int{"variant": v, "sndbuf": []int{0, 4096, 0, 65536}[v]}})
			}
			js = append(js, Job{Name: "one-cpu", Scenario: "backlog", Procs: 1, P: map[string]int{"variant": 1}})
			js = append(js, dripJobs()[0])
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "backlog", Perturb: i % 3, P: map[string]int{"variant": i % 4, "sndbuf": []int{0, 4096, 20000}[i%3]}})
				}
			}
			return js
		}})
	register("C14", &Property{
		Rule:        "one case = one echo-style connection (replies of 1-4 times the input, default or framed protocol) whose peer floods 24-32 MB without reading until the server has stopped consuming, then reads in bursts; the maximal pending output is sampled throughout, every reply byte is checked; or one connection exchanging requests and replies of random sizes in turns over minimal socket buffers, so that remainders of every size wait for write events; distinct by protocol, multiplier, sizes and the amounts reached",
		Assumptions: []string{"one read of input is at most eventloop.DefaultPacketSize bytes", "the kernel's socket buffers on the path hold less than 24 MB"},
		Par:         4,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "pressure", Scenario: "pressure"},
				{Name: "perturbed", Scenario: "pressure", Perturb: 1, P: map[string]int{"framed": 1}},
				{Name: "two-cpu", Scenario: "pressure", Procs: 2, P: map[string]int{"rounds": 2}},
				{Name: "one-cpu", Scenario: "pressure", Procs: 1, P: map[string]int{"rounds": 2, "framed": 1}},
			}
			js = append(js, dripJobs()...)
			if tier == "thorough" {
				for i := 0; i < 4; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "pressure", Perturb: i % 3, P: map[string]int{"framed": i % 2}})
				}
			}
			return js
		}})
	register("C15", &Property{
		Rule:        "one case = one connection on which 1-4 goroutines send records with completion callbacks (default or framed protocol, fast or slow peer, staying open or being closed or reset meanwhile); every callback checks value identity, order, goroutine and count and then overwrites the payload's memory, the peer checks every byte; distinct by protocol, ending, senders and completions",
		Assumptions: []string{"loopback TCP is faithful"},
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "complete", Scenario: "complete"},
				{Name: "perturbed", Scenario: "complete", Perturb: 1},
				{Name: "heavy-perturbed", Scenario: "complete", Perturb: 2},
				{Name: "one-cpu", Scenario: "complete", Procs: 1},
				{Name: "race", Scenario: "complete", Race: true},
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "complete", Perturb: i % 3, Procs: []int{0, 2}[i%2]})
				}
			}
			return js
		}})
	register("C16", &Property{
		Rule:        "one case = one concurrent history of set, get and delete by 2-7 goroutines on 1-3 keys of one connection (some across its close), decided by the linearizability checker porcupine, plus the race detector on the same workload; non-trivial when operations on one key overlap; distinct by shape and results",
		Assumptions: []string{"the monotonic clock orders calls and returns", "porcupine is correct"},
		Races:       true,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "kv", Scenario: "kv"},
				{Name: "kv-two-cpu", Scenario: "kv", Procs: 2},
				{Name: "kv-one-cpu", Scenario: "kv", Procs: 1},
				{Name: "kv-race", Scenario: "kv", Race: true},
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "kv", Race: i%2 == 1, Procs: []int{0, 3, 2}[i%3]})
				}
			}
			return js
		}})
}
