package main

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
)

// ------------------------------------------------------- write-shutdown (C25)

const (
	shFromConnect = iota
	shFromMessage
	shExternal
	shTimer
	shAfterSend // from the goroutine that just sent
	numShut
)

var shNames = []string{"connect-callback", "message-callback", "goroutine", "delayed-task", "after-send"}

func scenarioShutdown(w *W) {
	n := w.Scale(w.Param("rounds", 40), 12*w.Param("rounds", 40))
	for r := 0; r < n && !w.Violated(); r++ {
		shutRound(w, r)
	}
}

type shutState struct {
	from     int
	key      uint64 // input stream
	pos      int64
	out      int64 // bytes accepted for sending before the shutdown
	outKey   uint64
	pending  int
	greet    int
	repeat   int
	called   int32
	accepted int64
}

func shutRound(w *W, r int) {
	mon := newMon(w)
	planSeed := w.rng.Int63()
	shut := func(cs *ConnS, st *shutState) {
		for i := 0; i <= st.repeat; i++ {
			if err := cs.c.ShutdownWrite(); err != nil {
				w.V("C25", "ShutdownWrite from %s on open connection %d returned %v", shNames[st.from], cs.id, err)
			}
		}
		atomic.StoreInt32(&st.called, 1)
	}
	send := func(cs *ConnS, st *shutState, n int) {
		if err := cs.c.Send(pattern(n, st.outKey, atomic.LoadInt64(&st.out))); err != nil {
			w.V("C25", "Send before the shutdown returned %v", err)
		}
		atomic.AddInt64(&st.out, int64(n))
	}
	var srv *Srv
	mon.OnConn = func(cs *ConnS) {
		pr := rand.New(rand.NewSource(planSeed ^ int64(fnv([]byte(cs.peer)))))
		st := &shutState{from: pr.Intn(numShut), key: connKey(w, cs.peer), repeat: pr.Intn(3)}
		st.outKey = st.key ^ 0x7777
		st.greet = []int{0, 1, 3000, 300000, 5 << 20}[pr.Intn(5)]
		cs.mu.Lock()
		cs.u = st
		cs.mu.Unlock()
		if st.from == shFromConnect {
			if st.greet > 0 {
				send(cs, st, st.greet)
			}
			shut(cs, st)
		}
	}
	mon.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*shutState)
		if i := mismatch(data, st.key, st.pos); i >= 0 {
			w.V("C25,C01", "connection %d: input byte %d is wrong", cs.id, st.pos+int64(i))
		}
		st.pos += int64(len(data))
		if st.from != shFromMessage && st.pos%7 == 0 {
			time.Sleep(time.Duration(st.pos%5) * 300 * time.Microsecond) // input piles up meanwhile
		}
		if st.from == shFromMessage && atomic.LoadInt32(&st.called) == 0 {
			if st.greet > 0 {
				send(cs, st, st.greet)
			}
			shut(cs, st)
		}
		return nil
	}
	srv = w.startServer(SrvOpt{Loops: 1 + r%3, Mon: mon, SndB: []int{0, 4096}[w.rng.Intn(2)]})
	var wg sync.WaitGroup
	for i := 0; i < 5; i++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			shutClient(w, srv, rng, send, shut)
		}()
	}
	wg.Wait()
	if !w.Violated() {
		srv.Stop()
	}
}

func shutClient(w *W, srv *Srv, rng *rand.Rand, send func(*ConnS, *shutState, int), shut func(*ConnS, *shutState)) {
	conn, cs := srv.DialCS([]int{0, 2048}[rng.Intn(2)], 0)
	defer conn.Close()
	st := cs.u.(*shutState)
	var sent int64
	write := func(n int) bool {
		if _, err := conn.Write(pattern(n, st.key, sent)); err != nil {
			w.V("C25", "connection %d (shutdown from %s): writing to the server failed: %v", cs.id, shNames[st.from], err)
			return false
		}
		sent += int64(n)
		return true
	}
	delay := time.Duration(0)
	slow := rng.Intn(3) == 0
	var got, bad int64
	eof := make(chan error, 1)
	startRead := make(chan struct{})
	go func() {
		<-startRead
		buf := make([]byte, 64<<10)
		for {
			n, err := conn.Read(buf)
			if i := mismatch(buf[:n], st.outKey, got); i >= 0 && bad == 0 {
				bad = 1
				w.V("C25", "connection %d: output byte %d is wrong", cs.id, got+int64(i))
			}
			atomic.AddInt64(&got, int64(n))
			if err != nil {
				eof <- err
				return
			}
		}
	}()
	switch st.from {
	case shFromMessage:
		if !write(1 + rng.Intn(100)) {
			return
		}
	case shExternal:
		if st.greet > 0 {
			send(cs, st, st.greet)
		}
		if rng.Intn(2) == 0 {
			// several goroutines at once
			var g sync.WaitGroup
			for k := 0; k < 3; k++ {
				g.Add(1)
				go func() { defer g.Done(); shut(cs, st) }()
			}
			g.Wait()
		} else {
			shut(cs, st)
		}
	case shTimer:
		if st.greet > 0 {
			send(cs, st, st.greet)
		}
		srv.s.RunAfter(time.Duration(rng.Intn(4))*time.Millisecond, func() { shut(cs, st) })
	case shAfterSend:
		for k := 0; k < 5; k++ {
			send(cs, st, 1+rng.Intn(200000))
		}
		shut(cs, st)
	}
	if !w.Await("the shutdown was requested", srv.Progress, func() bool { return atomic.LoadInt32(&st.called) == 1 }) {
		return
	}
	// data sent while output is pending and after the shutdown
	if rng.Intn(2) == 0 {
		if !write(pickSize(rng, 30000)) {
			return
		}
	}
	if slow {
		delay = time.Duration(rng.Intn(3)) * time.Millisecond
	}
	time.Sleep(delay)
	widen(conn, cs)
	close(startRead)
	var err error
	done := false
	if !w.Await(fmt.Sprintf("connection %d (shutdown from %s): the peer receives all %d bytes and then the end of the stream (got %d)", cs.id, shNames[st.from], st.out, atomic.LoadInt64(&got)), func() int64 { return atomic.LoadInt64(&got) }, func() bool {
		select {
		case err = <-eof:
			done = true
		default:
		}
		return done
	}) {
		return
	}
	if err.Error() != "EOF" {
		w.V("C25", "connection %d (shutdown from %s): the stream ended with %v instead of a clean end", cs.id, shNames[st.from], err)
	}
	if want := atomic.LoadInt64(&st.out); got != want {
		w.V("C25", "connection %d (shutdown from %s): the stream ended after %d of %d bytes", cs.id, shNames[st.from], got, want)
	}
	if cs.Closed() {
		w.V("C25", "connection %d (shutdown from %s) was closed before its peer finished", cs.id, shNames[st.from])
		return
	}
	// the other direction is still alive
	for k := 0; k < 1+rng.Intn(4); k++ {
		if !write(pickSize(rng, 50000)) {
			return
		}
		if rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
		}
	}
	if rng.Intn(2) == 0 {
		// the peer finishes right behind its last data, which the loop may not
		// have read yet
		if rng.Intn(2) == 0 {
			_ = conn.CloseWrite()
		} else {
			_ = conn.Close()
		}
		if !w.Await(fmt.Sprintf("connection %d (shutdown from %s) closes once its peer has finished", cs.id, shNames[st.from]), srv.Progress,
			func() bool { return cs.Closed() && atomic.LoadInt32(&cs.in) == 0 }) {
			return
		}
		if got := atomic.LoadInt64(&cs.bytes); got != sent {
			w.V("C25,C01", "connection %d (shutdown from %s): its peer sent %d bytes and finished, %d were delivered before the close", cs.id, shNames[st.from], sent, got)
		}
		w.Case(fmt.Sprintf("from=%s pending=%d repeat=%d after=%d finish-at-once", shNames[st.from], st.out>>10, st.repeat, sent>>8))
		return
	}
	if !w.Await(fmt.Sprintf("connection %d (shutdown from %s): data sent after the shutdown is delivered (%d of %d)", cs.id, shNames[st.from], atomic.LoadInt64(&cs.bytes), sent), func() int64 { return atomic.LoadInt64(&cs.bytes) },
		func() bool { return atomic.LoadInt64(&cs.bytes) == sent || cs.Closed() }) {
		return
	}
	if cs.Closed() {
		w.V("C25", "connection %d (shutdown from %s) was closed before its peer finished", cs.id, shNames[st.from])
		return
	}
	if !cs.c.Connected() {
		w.V("C25", "connection %d reports not connected after a write-shutdown", cs.id)
	}
	if rng.Intn(2) == 0 {
		_ = conn.CloseWrite()
	} else {
		_ = conn.Close()
	}
	w.Await(fmt.Sprintf("connection %d (shutdown from %s) closes once its peer has finished", cs.id, shNames[st.from]), srv.Progress, cs.Closed)
	if err := cs.c.ShutdownWrite(); err != gev.ErrConnectionClosed && cs.Closed() {
		w.V("C25,C07", "ShutdownWrite on a closed connection returned %v", err)
	}
	w.Case(fmt.Sprintf("from=%s pending=%d repeat=%d after=%d", shNames[st.from], st.out>>10, st.repeat, sent>>8))
}

// ----------------------------------------------------------- isolation (C26)

const (
	mbSilent = iota
	mbStuckOut
	mbStuckEcho
	mbPartial
	mbFlood
	mbSlowLoris
	mbResets
	mbHalfClosed
	mbShutPending
	mbPump
	mbClosed // many stalled connections that the server closes at the same time
	numMB
)

var mbNames = []string{"silent", "stuck-output", "stuck-echo", "mid-frame", "flood", "slow-loris", "resets", "half-closed", "shutdown-pending", "pump", "closed-while-stalled"}

func scenarioIsolation(w *W) {
	n := w.Scale(w.Param("rounds", 5), 8*w.Param("rounds", 5))
	for r := 0; r < n && !w.Violated(); r++ {
		isolationRound(w, r)
	}
}

func isolationRound(w *W, r int) {
	framed := r%2 == 1
	var fp *frameProto
	var proto gev.Protocol
	if framed {
		fp = &frameProto{w: w, variant: w.rng.Intn(4)}
		proto = fp
	}
	quit := make(chan struct{})
	third := make(chan struct{}) // a third of the first witness' requests have been answered
	pumping := false             // one pump per round, touched by the loop only
	var pumped int64
	mon := newMon(w)
	mon.OnConn = func(cs *ConnS) {
		// calls made from a callback must not wait for the peer
		if cs.id%3 == 0 {
			cs.c.Set("k", cs.id)
			_, _ = cs.c.Get("k")
			_ = cs.c.WriteBufferLength()
		}
	}
	mon.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		mb, _ := cs.c.Context().(int)
		if mb == mbPump+1 {
			// a stream whose pieces are sent one after the other, each when
			// the last one has completed
			if !pumping {
				pumping = true
				var next func(interface{})
				next = func(interface{}) {
					if isClosed(quit) || cs.c.WriteBufferLength() > 256<<10 || cs.c.Send(payload(fp, 1, 512), gev.SendInLoop(next)) != nil {
						pumping = false
						return
					}
					atomic.AddInt64(&pumped, 1)
				}
				next(nil)
			}
			return nil
		}
		if mb == mbFlood+1 {
			// a handler that takes its time: the flooders' sockets never run dry
			for t := time.Now(); time.Since(t) < 60*time.Microsecond; {
			}
			return nil
		}
		if framed {
			return &outMsg{body: append([]byte{}, data...)}
		}
		return append([]byte{}, data...)
	}
	srv := w.startServer(SrvOpt{Loops: 1, Mon: mon, Proto: proto, SndB: []int{0, 4096}[w.rng.Intn(2)]})
	var wg sync.WaitGroup
	kinds := map[string]bool{}
	setCtx := func(cs *ConnS, v int) {
		var done int32
		cs.loop.loop.QueueInLoop(func() { cs.c.SetContext(v); atomic.StoreInt32(&done, 1) })
		w.Await("a loop task runs", nil, func() bool { return atomic.LoadInt32(&done) == 1 })
	}
	frame := func(n int, k int) []byte {
		if framed {
			return wireFrame{flags: 1, n: n}.encode(7, k)
		}
		return pattern(n, 7, 0)
	}
	var conns []*net.TCPConn
	n := 6 + w.rng.Intn(8)
	for i := 0; i < n && !w.Violated(); i++ {
		kind := (i + r) % numMB
		if (kind == mbFlood || kind == mbPump || kind == mbClosed) && i >= numMB {
			kind = mbSilent
		}
		kinds[mbNames[kind]] = true
		w.Ev("misbehaving:"+mbNames[kind], 1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		if kind == mbResets {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !isClosed(quit) {
					c := w.dial(srv.addr, 0, 0)
					_, _ = c.Write(frame(10, 0))
					rst(c)
					time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
				}
			}()
			continue
		}
		c, cs := srv.DialCS(2048, 0)
		conns = append(conns, c)
		switch kind {
		case mbSilent:
		case mbStuckOut:
			_ = cs.c.Send(payload(fp, 1, 12<<20))
		case mbStuckEcho:
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !isClosed(quit) {
					_ = c.SetWriteDeadline(time.Now().Add(5 * time.Millisecond))
					if !framed {
						if _, err := c.Write(frame(20000, 0)); err != nil && !isTimeout(err) {
							return
						}
					} else {
						_ = c.SetWriteDeadline(time.Time{})
						b := frame(20000, 0)
						done := make(chan struct{})
						go func() { _, _ = c.Write(b); close(done) }()
						select {
						case <-done:
						case <-quit:
							return
						}
					}
				}
			}()
		case mbPartial:
			b := frame(5000, 0)
			_, _ = c.Write(b[:1+rng.Intn(4990)])
		case mbFlood:
			setCtx(cs, mbFlood+1)
			var mu sync.Mutex
			_ = c.SetWriteBuffer(4 << 20)
			for k := 0; k < 2; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var big []byte
					for len(big) < 256<<10 {
						big = append(big, frame(4000, 0)...)
					}
					for !isClosed(quit) {
						mu.Lock()
						_, err := c.Write(big)
						mu.Unlock()
						if err != nil {
							return
						}
						w.Ev("flooded-bytes", int64(len(big)))
					}
				}()
			}
		case mbSlowLoris:
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := frame(100000, 0)
				for k := 0; !isClosed(quit); k++ {
					if _, err := c.Write(b[k%len(b) : k%len(b)+1]); err != nil {
						return
					}
					time.Sleep(200 * time.Microsecond)
				}
			}()
		case mbClosed:
			all := []*ConnS{cs}
			for len(all) < 24 {
				c2, cs2 := srv.DialCS(2048, 0)
				conns = append(conns, c2)
				all = append(all, cs2)
			}
			for _, cs := range all {
				_ = cs.c.Send(payload(fp, 1, 5<<20))
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				select {
				case <-third:
				case <-quit:
				}
				for _, cs := range all {
					if cs.c.Close() == nil {
						w.Ev("stalled-connections-closed", 1)
					}
				}
			}()
		case mbPump:
			setCtx(cs, mbPump+1)
			_ = c.SetReadBuffer(1 << 20)
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := make([]byte, 1<<18)
				_, _ = c.Write(frame(5, 0))
				for {
					_ = c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
					_, err := c.Read(b)
					if isClosed(quit) {
						return
					}
					if err != nil {
						if !isTimeout(err) {
							return
						}
						_, _ = c.Write(frame(5, 0)) // the pump has stopped
					}
				}
			}()
		case mbHalfClosed:
			_ = cs.c.Send(payload(fp, 1, 8<<20))
			_ = c.CloseWrite()
		case mbShutPending:
			_ = cs.c.Send(payload(fp, 1, 8<<20))
			_ = cs.c.ShutdownWrite()
		}
	}
	// well-behaved connections on the same loop
	var bys sync.WaitGroup
	var served int64
	reqs := 150
	if w.Race {
		reqs = 60
	}
	for b := 0; b < 3 && !w.Violated(); b++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		bys.Add(1)
		go func(b int) {
			defer bys.Done()
			c, cs := srv.DialCS(0, 0)
			defer c.Close()
			for i := 0; i < reqs && !w.Violated(); i++ {
				if b == 0 && i == reqs/3 {
					close(third)
				}
				n := 1 + rng.Intn(500)
				req := frame(n, i)
				if _, err := c.Write(req); err != nil {
					w.V("C26", "well-behaved connection %d was ended: %v", cs.id, err)
					return
				}
				want := n
				if framed {
					want += 12
				}
				got := make([]byte, want)
				t := time.Now()
				if err := w.readN(fmt.Sprintf("request %d of a well-behaved connection is answered while others are %v", i, sortedKeys(kinds)), c, got); err != nil {
					w.V("C26", "well-behaved connection %d got no answer: %v", cs.id, err)
					return
				}
				w.Ev("answer-latency-us", int64(time.Since(t)/time.Microsecond))
				if framed {
					got, req = got[12:], req[4:]
				}
				if string(got) != string(req) {
					w.V("C26,C02", "well-behaved connection %d got a wrong answer", cs.id)
					return
				}
				atomic.AddInt64(&served, 1)
			}
		}(b)
	}
	bys.Wait()
	close(quit)
	for _, c := range conns {
		_ = c.SetLinger(0)
		_ = c.Close()
	}
	wg.Wait()
	w.Ev("served", served)
	w.Ev("pumped-pieces", atomic.LoadInt64(&pumped))
	w.Case(fmt.Sprintf("framed=%v misbehaving=%v served=%d", framed, sortedKeys(kinds), served))
	if !w.Violated() {
		srv.Stop()
	}
}

func init() {
	scenarios["shutdown"] = scenarioShutdown
	scenarios["isolation"] = scenarioIsolation
	register("C25", &Property{
		Rule:        "one case = one connection whose write side is shut down from the connect callback, the message callback, another goroutine (or several), a delayed task or right after sends, with 0 to 5 MB of output pending and a slow or fast peer that keeps sending before and after it sees the end of the stream; distinct by origin, pending output, repetitions and later input",
		Assumptions: []string{"loopback TCP is faithful", "the program sends nothing after asking for the shutdown"},
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "shutdown", Scenario: "shutdown"},
				{Name: "perturbed", Scenario: "shutdown", Perturb: 1},
				{Name: "heavy-perturbed", Scenario: "shutdown", Perturb: 2},
				{Name: "one-cpu", Scenario: "shutdown", Procs: 1},
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "shutdown", Perturb: i % 3, Procs: []int{0, 2}[i%2]})
				}
			}
			return js
		}})
	register("C26", &Property{
		Rule:        "one case = one single-loop server with 6-13 misbehaving connections (silent, stuck output, echo without reading, mid-frame, flooding into a slow handler, one byte at a time, resets, half-closed, shut down with pending output, streaming from completion callbacks) on which three well-behaved connections do request after request; an unanswered request is decided by the stall rule in which the misbehaving connections' own progress does not count; distinct by protocol and set of misbehaviours",
		Assumptions: []string{"the program's callbacks themselves return promptly"},
		Par:         4,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "isolation", Scenario: "isolation"},
				{Name: "perturbed", Scenario: "isolation", Perturb: 1},
				{Name: "two-cpu", Scenario: "isolation", Procs: 2},
			}
			if tier == "thorough" {
				for i := 0; i < 4; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "isolation", Perturb: i % 3, Procs: []int{0, 2, 3}[i%3]})
				}
			}
			return js
		}})
}
