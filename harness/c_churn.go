package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"golang.org/x/sys/unix"
)

// The churn scenario opens and ends many connections in every way the library
// knows, concurrently, and leaves the judging to the lifecycle monitor (C04),
// the confinement monitor (C05), the counters (C09), the assignments (C12),
// the integrity of what survivors and successors exchange (C07) and canaries
// on reused descriptor numbers (C07, C09).

const (
	endFIN = iota
	endRST
	endHalf
	endCloseInConnect
	endCloseInMessage
	endCloseExternal
	endSendVsRST
	endBigWriteRST
	endImmediate
	endImmediateRST
	endStop
	endShutdownWrite
	numEnds
)

var endNames = []string{"fin", "rst", "half-close", "close-in-connect", "close-in-message", "close-external", "send-vs-rst", "bigwrite-rst", "immediate-fin", "immediate-rst", "stop", "shutdown-write"}

type churnState struct {
	end    int
	key    uint64
	pos    int64
	closes int
	bad    bool
}

func (w *W) pickEnd(r *rand.Rand) int { return r.Intn(numEnds) }

func scenarioChurn(w *W) {
	rounds := w.Scale(w.Param("rounds", 12), 15*w.Param("rounds", 12))
	for r := 0; r < rounds && !w.Violated(); r++ {
		churnRound(w)
	}
}

func churnRound(w *W) {
	loops := 1 + w.rng.Intn(4)
	planSeed := w.rng.Int63()
	plan := func(addr string) *rand.Rand { return rand.New(rand.NewSource(planSeed ^ int64(fnv([]byte(addr))))) }
	fdBase := countFDs()

	var proto gev.Protocol
	var fp *frameProto
	if w.rng.Intn(2) == 0 {
		fp = &frameProto{w: w, variant: w.rng.Intn(4)}
	}
	m := newMon(w)
	var closers sync.WaitGroup
	closeMany := func(cs *ConnS, n int) {
		for i := 0; i < n; i++ {
			closers.Add(1)
			go func() {
				defer closers.Done()
				if err := cs.c.Close(); err != nil && err != gev.ErrConnectionClosed {
					w.V("C04,C07", "Close returned %v", err)
				}
			}()
		}
	}
	m.OnConn = func(cs *ConnS) {
		pr := plan(cs.peer)
		st := &churnState{end: pr.Intn(numEnds), key: connKey(w, cs.peer)}
		st.closes = 1 + pr.Intn(4)
		cs.mu.Lock()
		cs.u = st
		cs.mu.Unlock()
		if st.end == endCloseInConnect {
			for i := 0; i < st.closes; i++ {
				_ = cs.c.Close()
			}
			if pr.Intn(2) == 0 {
				closeMany(cs, 2)
			}
		}
	}
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*churnState)
		w.Ev("messages", 1)
		if fp == nil {
			if i := mismatch(data, st.key, st.pos); i >= 0 && !st.bad {
				st.bad = true
				w.V("C07", "connection %d (peer %s): message byte %d is not what this peer sent", cs.id, cs.peer, st.pos+int64(i))
			}
			st.pos += int64(len(data))
		} else {
			if mismatch(data, st.key^uint64(cs.msgs-1)*977, 0) >= 0 && !st.bad {
				st.bad = true
				w.V("C07", "connection %d (peer %s): frame %d is not what this peer sent", cs.id, cs.peer, cs.msgs-1)
			}
		}
		if st.end == endCloseInMessage {
			for i := 0; i < st.closes; i++ {
				_ = cs.c.Close()
			}
			closeMany(cs, st.closes-1)
		}
		if fp != nil {
			return &outMsg{id: uint64(cs.msgs), body: pattern(len(data), st.key, 0)}
		}
		return append([]byte{}, data...)
	}
	if fp != nil {
		proto = fp
	}
	srv := w.startServer(SrvOpt{Loops: loops, Mon: m, Proto: proto, SndB: []int{0, 0, 4096}[w.rng.Intn(3)]})
	fdRunning := countFDs()

	stopCanary := make(chan struct{})
	var canaries sync.WaitGroup
	if w.Param("canary", 1) == 1 {
		canaries.Add(1)
		go func() { defer canaries.Done(); canaryLoop(w, stopCanary) }()
	}

	nconn := w.Param("conns", 60)
	var wg sync.WaitGroup
	var dials, sure int64
	hold := make(chan struct{})
	sem := make(chan struct{}, 24)
	var held sync.WaitGroup
	for i := 0; i < nconn; i++ {
		seed := w.rng.Int63()
		wg.Add(1)
		held.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			churnClient(w, srv, fp, rand.New(rand.NewSource(seed)), plan, &dials, &sure, closeMany, hold, func() { held.Done(); <-sem })
		}()
	}
	held.Wait() // every client is done or waits for Stop
	closers.Wait()
	close(stopCanary)
	canaries.Wait()

	// quiescence: what remains open are the connections left for Stop
	settled := func() bool {
		if atomic.LoadInt64(&m.nConnect) < atomic.LoadInt64(&sure) {
			return false
		}
		open := int64(0)
		for _, cs := range m.All() {
			if cs.u == nil {
				return false
			}
			st := cs.u.(*churnState)
			if !cs.Closed() {
				if st.end != endStop {
					return false
				}
				open++
			}
		}
		return open == m.Open()
	}
	if w.Await("every ended connection is closed by the server", m.Progress, settled) {
		if w.Prop == "C09" {
			w.Await("the loops' connection counts equal the open connections", nil, func() bool { return countsMatch(srv) })
			if !countsMatch(srv) {
				per, _ := srv.Counts()
				w.Violate("connection counts %v do not match open connections %v", per, openPerLoop(srv))
			}
			open := int(m.Open())
			w.Await(fmt.Sprintf("descriptors return to baseline %d + %d open connections (now %d)", fdRunning, 2*open, countFDs()), nil, func() bool { return countFDs() == fdRunning+2*open })
		}
		for _, cs := range m.All() {
			if cs.Closed() && cs.c.Connected() {
				cs := cs
				w.Await(fmt.Sprintf("connection %d reports not connected after its close", cs.id), nil, func() bool { return !cs.c.Connected() })
			}
		}
		if w.Prop == "C07" {
			staleCalls(w, m)
		}
	}
	stopOK := srv.Stop()
	close(hold)
	wg.Wait()
	if stopOK {
		for _, cs := range m.All() {
			if st := atomic.LoadInt32(&cs.state); st != 2 {
				w.V("C04,C08", "connection %d (%s) still in state %d after Stop: no close callback", cs.id, endNames[cs.u.(*churnState).end], st)
			}
		}
		if n, c := atomic.LoadInt64(&m.nConnect), atomic.LoadInt64(&m.nClose); n != c {
			w.V("C04", "%d connect callbacks, %d close callbacks", n, c)
		}
		if n := atomic.LoadInt64(&m.nConnect); n > dials || n < sure {
			w.V("C04,C29", "%d connections dialled, at least %d established for good, %d announced", dials, sure, n)
		}
		checkAssignments(w, srv)
		if w.Prop == "C09" || w.Prop == "C08" {
			w.Await(fmt.Sprintf("descriptors return to %d after Stop (now %d)", fdBase, countFDs()), nil, func() bool { return countFDs() == fdBase })
		}
	}
	for _, cs := range m.All() {
		if st, ok := cs.u.(*churnState); ok {
			w.Case(fmt.Sprintf("end=%s msgs=%d bytes=%d loops=%d framed=%v closes=%d", endNames[st.end], cs.msgs, cs.bytes, loops, fp != nil, st.closes))
		}
	}
}

func countsMatch(srv *Srv) bool {
	srv.lmu.Lock()
	defer srv.lmu.Unlock()
	for _, l := range srv.order {
		if l.loop.ConnectionCount() != atomic.LoadInt64(&l.nOpen) {
			return false
		}
	}
	return true
}

func openPerLoop(srv *Srv) (out []int64) {
	srv.lmu.Lock()
	defer srv.lmu.Unlock()
	for _, l := range srv.order {
		out = append(out, atomic.LoadInt64(&l.nOpen))
	}
	return
}

// checkAssignments: every connection was served by the loop the strategy chose.
func checkAssignments(w *W, srv *Srv) {
	srv.lmu.Lock()
	defer srv.lmu.Unlock()
	var calls, total int64
	for _, l := range srv.order {
		calls += l.assigns
		total += atomic.LoadInt64(&l.total)
		if l.assigns != atomic.LoadInt64(&l.total) {
			w.V("C12", "loop %d was chosen %d times but serves %d connections", l.idx, l.assigns, l.total)
		}
	}
	for _, l := range srv.loops {
		if l.idx < 0 {
			w.V("C12,C05", "a connection is served by a loop that was never offered to the strategy")
		}
	}
	if calls != total {
		w.V("C12", "the strategy was invoked %d times for %d connections", calls, total)
	}
}

// staleCalls: on closed connections every operation returns the closed error.
func staleCalls(w *W, m *Mon) {
	for _, cs := range m.All() {
		if !cs.Closed() {
			continue
		}
		if err := cs.c.Send([]byte("stale")); err != gev.ErrConnectionClosed {
			w.V("C07", "Send on a closed connection returned %v", err)
		}
		if err := cs.c.Close(); err != gev.ErrConnectionClosed {
			w.V("C07", "Close on a closed connection returned %v", err)
		}
		if err := cs.c.ShutdownWrite(); err != gev.ErrConnectionClosed {
			w.V("C07", "ShutdownWrite on a closed connection returned %v", err)
		}
		w.Ev("stale-calls", 3)
	}
}

// canaryLoop keeps taking freed descriptor numbers with files of its own and
// verifies that nobody else closes, shuts or writes to them.
func canaryLoop(w *W, stop chan struct{}) {
	type canary struct {
		fds [2]int
		ino [2]uint64
	}
	var live []canary
	check := func(c canary, last bool) {
		for k := 0; k < 2; k++ {
			var st unix.Stat_t
			if err := unix.Fstat(c.fds[k], &st); err != nil || st.Ino != c.ino[k] {
				w.V("C07,C09", "descriptor %d, owned by this program, was closed or replaced by the library (%v)", c.fds[k], err)
				return
			}
		}
		var b [16]byte
		n, err := unix.Read(c.fds[0], b[:])
		if err != unix.EAGAIN {
			w.V("C07", "descriptor %d, owned by this program, was written to or shut down by the library: read %d %v %q", c.fds[1], n, err, b[:max(n, 0)])
			return
		}
		if n, err = unix.Read(c.fds[1], b[:]); err != unix.EAGAIN {
			w.V("C07", "descriptor %d, owned by this program, was written to or shut down by the library: read %d %v %q", c.fds[0], n, err, b[:max(n, 0)])
			return
		}
		w.Ev("canary-checks", 1)
		if last {
			_ = unix.Close(c.fds[0])
			_ = unix.Close(c.fds[1])
		}
	}
	for i := 0; ; i++ {
		select {
		case <-stop:
			for _, c := range live {
				check(c, true)
			}
			return
		default:
		}
		fds, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_NONBLOCK|unix.SOCK_CLOEXEC, 0)
		if err == nil {
			c := canary{fds: fds}
			for k := range fds {
				var st unix.Stat_t
				_ = unix.Fstat(fds[k], &st)
				c.ino[k] = st.Ino
			}
			live = append(live, c)
		}
		if len(live) > 6 {
			check(live[0], true)
			live = live[1:]
		}
		if i%3 == 0 {
			for _, c := range live {
				check(c, false)
			}
			time.Sleep(time.Duration(50+i%200) * time.Microsecond)
		}
	}
}

func churnClient(w *W, srv *Srv, fp *frameProto, rng *rand.Rand, plan func(string) *rand.Rand, dials, sure *int64, closeMany func(*ConnS, int), hold chan struct{}, done func()) {
	var once sync.Once
	defer once.Do(done)
	conn := w.dial(srv.addr, []int{0, 0, 2048}[rng.Intn(3)], 0)
	defer conn.Close()
	atomic.AddInt64(dials, 1)
	addr := conn.LocalAddr().String()
	end := plan(addr).Intn(numEnds)
	key := connKey(w, addr)
	w.Ev("end:"+endNames[end], 1)
	switch end {
	case endImmediate:
		atomic.AddInt64(sure, 1)
		return
	case endImmediateRST:
		rst(conn)
		return
	}
	atomic.AddInt64(sure, 1)
	var cs *ConnS
	t0 := time.Now()
	if !w.Await("connect callback for "+addr, srv.Progress, func() bool {
		cs = srv.ByPeer(addr)
		if cs == nil {
			return false
		}
		cs.mu.Lock()
		defer cs.mu.Unlock()
		return cs.u != nil
	}) {
		return
	}
	_ = t0
	// exchange some data; leave a partial frame behind for framed servers
	off := int64(0)
	nmsg := rng.Intn(5)
	wr := func(b []byte) bool { _, err := conn.Write(b); return err == nil }
	drain := make(chan struct{})
	var outBytes int64
	noRead := end == endBigWriteRST || end == endSendVsRST && rng.Intn(2) == 0
	go func() {
		defer close(drain)
		if noRead {
			return
		}
		buf := make([]byte, 8192)
		var eoff int64
		bad := false
		for {
			n, err := conn.Read(buf)
			atomic.AddInt64(&outBytes, int64(n))
			if fp == nil && end != endSendVsRST && end != endCloseExternal && end != endBigWriteRST && end != endShutdownWrite && !bad {
				if i := mismatch(buf[:n], key, eoff); i >= 0 {
					bad = true
					w.V("C07", "client %s: echoed byte %d is not its own", addr, eoff+int64(i))
				}
				eoff += int64(n)
			}
			if err != nil {
				return
			}
		}
	}()
	for i := 0; i < nmsg; i++ {
		if fp == nil {
			n := 1 + rng.Intn(3000)
			if !wr(pattern(n, key, off)) {
				break
			}
			off += int64(n)
		} else {
			f := wireFrame{flags: 1, n: rng.Intn(3000)}
			b := f.encode(key, i)
			k := rng.Intn(len(b) + 1)
			if !wr(b[:k]) {
				break
			}
			if rng.Intn(2) == 0 {
				time.Sleep(time.Duration(rng.Intn(200)) * time.Microsecond)
			}
			if !wr(b[k:]) {
				break
			}
		}
	}
	if fp != nil && rng.Intn(2) == 0 {
		// an unfinished frame that must die with this connection
		b := wireFrame{flags: 1, n: 5000}.encode(key, nmsg)
		wr(b[:1+rng.Intn(4900)])
	}
	sends := func(g, n, size int) *sync.WaitGroup {
		var swg sync.WaitGroup
		for i := 0; i < g; i++ {
			swg.Add(1)
			go func() {
				defer swg.Done()
				for k := 0; k < n; k++ {
					var v interface{} = pattern(size, key, 0)
					if fp != nil {
						v = &outMsg{id: uint64(k), body: pattern(size, key, 0)}
					}
					if cs.c.Send(v) != nil {
						return
					}
				}
			}()
		}
		return &swg
	}
	switch end {
	case endFIN:
		_ = conn.Close()
	case endRST:
		rst(conn)
	case endHalf:
		_ = conn.CloseWrite()
		<-drain
	case endCloseInConnect:
		<-drain
	case endCloseInMessage:
		if fp == nil {
			wr(pattern(1, key, off))
			<-drain
		} else {
			wr(wireFrame{flags: 1, n: 0}.encode(key, nmsg)) // completes nothing if an unfinished frame was left
			if rng.Intn(2) == 0 {
				time.Sleep(time.Millisecond)
			}
			_ = conn.Close()
		}
	case endCloseExternal:
		s := sends(rng.Intn(3), 4, 500)
		closeMany(cs, 1+rng.Intn(4))
		if rng.Intn(2) == 0 {
			_ = cs.c.Close()
		}
		s.Wait()
		<-drain
	case endSendVsRST:
		s := sends(2, 10, 2000)
		if rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
		}
		rst(conn)
		s.Wait()
	case endBigWriteRST:
		s := sends(1, 3, 3<<20)
		s.Wait()
		time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
		rst(conn)
	case endShutdownWrite:
		if err := cs.c.ShutdownWrite(); err != nil {
			w.V("C25", "ShutdownWrite on an open connection returned %v", err)
		}
		<-drain
		_ = conn.Close()
	case endStop:
		once.Do(done)
		<-hold
		// Stop must end the stream
		got := false
		w.Await("client "+addr+" sees the end of its stream after Stop", nil, func() bool {
			select {
			case <-drain:
				got = true
			default:
			}
			return got
		})
	}
}

// ------------------------------------------------------------ load balancing

func scenarioLB(w *W) {
	rounds := w.Scale(25, 300)
	for r := 0; r < rounds && !w.Violated(); r++ {
		kind := r % 3
		loops := 1 + w.rng.Intn(6)
		n := 1 + w.rng.Intn(5*loops)
		var seq []int
		var seqMu sync.Mutex
		var lb gev.LoadBalanceStrategy
		settledCheck := false
		switch kind {
		case 0:
			lb = gev.RoundRobin()
		case 1:
			lb = gev.LeastConnection()
			settledCheck = true
		case 2:
			pr := rand.New(rand.NewSource(w.rng.Int63()))
			lb = func(ls []*eventloop.EventLoop) *eventloop.EventLoop { return ls[pr.Intn(len(ls))] }
		}
		inner := lb
		var order []*eventloop.EventLoop
		rec := func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
			seqMu.Lock()
			defer seqMu.Unlock()
			if order == nil {
				order = append(order, ls...)
			} else {
				for i := range ls {
					if ls[i] != order[i] {
						w.V("C12", "the strategy was given the loops in another order or other loops")
					}
				}
			}
			var minBefore int64 = 1 << 60
			for _, l := range ls {
				if c := l.ConnectionCount(); c < minBefore {
					minBefore = c
				}
			}
			before := map[*eventloop.EventLoop]int64{}
			for _, l := range ls {
				before[l] = l.ConnectionCount()
			}
			l := inner(ls)
			for i := range ls {
				if ls[i] == l {
					seq = append(seq, i)
				}
			}
			if settledCheck && before[l] > minBefore {
				w.V("C12", "least-connection chose a loop with %d connections, minimum is %d", before[l], minBefore)
			}
			return l
		}
		srv := w.startServer(SrvOpt{Loops: loops, LB: rec})
		type cl struct {
			c  *net.TCPConn
			cs *ConnS
		}
		var open []cl
		for i := 0; i < n && !w.Violated(); i++ {
			if len(open) > 0 && w.rng.Intn(3) == 0 {
				k := w.rng.Intn(len(open))
				o := open[k]
				open = append(open[:k], open[k+1:]...)
				_ = o.c.Close()
				w.Await("closed connection leaves its loop", nil, func() bool { return o.cs.Closed() && countsMatch(srv) })
			}
			c, cs := srv.DialCS(0, 0)
			open = append(open, cl{c, cs})
			// settle so that the next choice is made in a quiescent state
			if !w.Await("connection counts settle after an accept", nil, func() bool { return countsMatch(srv) }) {
				break
			}
			seqMu.Lock()
			chosen := seq[len(seq)-1]
			if len(seq) != i+1 {
				w.V("C12", "%d accepts, strategy invoked %d times", i+1, len(seq))
			}
			seqMu.Unlock()
			if cs.loop.idx != chosen {
				w.V("C12", "strategy chose loop %d, connection is served by loop %d", chosen, cs.loop.idx)
			}
		}
		if kind == 0 {
			for i := 1; i < len(seq); i++ {
				if seq[i] != (seq[i-1]+1)%loops {
					w.V("C12", "round robin over %d loops assigned %v", loops, seq)
					break
				}
			}
		}
		w.Case(fmt.Sprintf("strategy=%s loops=%d accepts=%d seq=%v", []string{"round-robin", "least", "random"}[kind], loops, n, head3(seq)))
		w.Ev("accepts", int64(len(seq)))
		for _, o := range open {
			_ = o.c.Close()
		}
		srv.Stop()
		checkAssignments(w, srv)
	}
	// concurrent dialling: only the totals can be judged
	for r := 0; r < w.Scale(6, 60) && !w.Violated(); r++ {
		loops := 1 + w.rng.Intn(7)
		n := 20 + w.rng.Intn(150)
		srv := w.startServer(SrvOpt{Loops: loops})
		var wg sync.WaitGroup
		conns := make([]*net.TCPConn, n)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); conns[i] = srv.Dial() }(i)
		}
		wg.Wait()
		w.Await(fmt.Sprintf("%d concurrently dialled connections are announced", n), srv.Progress, func() bool { return atomic.LoadInt64(&srv.nConnect) >= int64(n) })
		checkAssignments(w, srv)
		lo, hi := int64(1<<60), int64(0)
		for _, l := range srv.order {
			lo, hi = min(lo, l.assigns), max(hi, l.assigns)
		}
		if hi-lo > 1 {
			w.V("C12", "round robin: per-loop assignments range from %d to %d after %d accepts", lo, hi, n)
		}
		w.Case(fmt.Sprintf("concurrent loops=%d conns=%d", loops, n))
		for _, c := range conns {
			_ = c.Close()
		}
		srv.Stop()
	}
	// many accepts: a narrow counter inside the strategy shows only after it wraps
	for _, loops := range []int{3, 5, 1 + w.rng.Intn(9)} {
		if w.Violated() {
			break
		}
		n := w.Scale(700, 6000)
		srv := w.startServer(SrvOpt{Loops: loops})
		for i := 0; i < n; i++ {
			rst(srv.Dial())
			if i%128 == 0 {
				w.Await("accepts proceed", nil, func() bool {
					srv.lmu.Lock()
					defer srv.lmu.Unlock()
					var sum int64
					for _, l := range srv.order {
						sum += l.assigns
					}
					return sum > int64(i)-100 // a reset connection may vanish before it is accepted
				})
			}
		}
		srv.Stop()
		lo, hi := int64(1<<60), int64(0)
		for _, l := range srv.order {
			lo, hi = min(lo, l.assigns), max(hi, l.assigns)
		}
		if hi-lo > 1 {
			w.V("C12", "round robin over %d loops: per-loop assignments range from %d to %d after about %d accepts", loops, lo, hi, n)
		}
		w.Case(fmt.Sprintf("long loops=%d accepts=%d", loops, n))
	}
	// the strategies themselves, over loops with arbitrary counts
	var pool []*eventloop.EventLoop
	for i := 0; i < 9; i++ {
		l, err := eventloop.New()
		w.Must(err)
		pool = append(pool, l)
	}
	for r := 0; r < w.Scale(2000, 50000); r++ {
		k := 1 + w.rng.Intn(len(pool))
		ls := pool[:k]
		var mn int64 = 1 << 62
		var counts []int64
		for _, l := range ls {
			c := int64(w.rng.Intn(4))
			if w.rng.Intn(10) == 0 {
				c = w.rng.Int63n(1 << 40)
			}
			l.ConnCunt.Swap(c)
			mn = min(mn, c)
			counts = append(counts, c)
		}
		l := gev.LeastConnection()(ls)
		if l == nil || l.ConnectionCount() != mn {
			w.V("C12", "least-connection over counts %v chose a loop with %d", counts, l.ConnectionCount())
			break
		}
		rr := gev.RoundRobin()
		hits := map[*eventloop.EventLoop]int{}
		steps := w.rng.Intn(40)
		var prev = -1
		for s := 0; s < steps; s++ {
			l := rr(ls)
			hits[l]++
			for i := range ls {
				if ls[i] == l {
					if prev >= 0 && i != (prev+1)%k {
						w.V("C12", "round robin over %d loops went from %d to %d", k, prev, i)
					}
					prev = i
				}
			}
		}
		w.Case(fmt.Sprintf("direct counts=%v", counts))
	}
	for k := 1; k <= len(pool) && !w.Violated(); k++ {
		ls := pool[:k]
		idx := map[*eventloop.EventLoop]int{}
		for i, l := range ls {
			idx[l] = i
		}
		rr := gev.RoundRobin()
		prev := -1
		for s := 0; s < w.Scale(140000, 1000000); s++ {
			i := idx[rr(ls)]
			if prev >= 0 && i != (prev+1)%k {
				w.V("C12", "round robin over %d loops went from %d to %d at pick %d", k, prev, i, s)
				break
			}
			prev = i
		}
		w.Case(fmt.Sprintf("direct round robin loops=%d long", k))
	}
	// strategies of several servers used in turn do not disturb each other
	for r := 0; r < w.Scale(300, 3000) && !w.Violated(); r++ {
		type inst struct {
			rr   gev.LoadBalanceStrategy
			ls   []*eventloop.EventLoop
			last int
		}
		var is []*inst
		for i := 0; i < 2+w.rng.Intn(3); i++ {
			k := 1 + w.rng.Intn(len(pool))
			off := w.rng.Intn(len(pool) - k + 1)
			is = append(is, &inst{rr: gev.RoundRobin(), ls: pool[off : off+k], last: -1})
		}
		for s := 0; s < 60; s++ {
			x := is[w.rng.Intn(len(is))]
			l := x.rr(x.ls)
			at := -1
			for i := range x.ls {
				if x.ls[i] == l {
					at = i
				}
			}
			if at < 0 || x.last >= 0 && at != (x.last+1)%len(x.ls) {
				w.V("C12", "round robin over %d loops went from %d to %d while %d other strategies were in use", len(x.ls), x.last, at, len(is)-1)
				break
			}
			x.last = at
		}
		w.Case(fmt.Sprintf("in turn strategies=%d", len(is)))
	}
	_ = io.EOF
}

func init() {
	scenarios["churn"] = scenarioChurn
	scenarios["lb"] = scenarioLB
	churnJobs := func(race bool) func(string) []Job {
		return func(tier string) []Job {
			js := []Job{
				{Name: "churn", Scenario: "churn"},
				{Name: "churn-perturbed", Scenario: "churn", Perturb: 1},
				{Name: "churn-heavy-perturbed", Scenario: "churn", Perturb: 2, P: map[string]int{"rounds": 8}},
				{Name: "churn-one-cpu", Scenario: "churn", Procs: 1, Perturb: 1, P: map[string]int{"rounds": 8}},
				{Name: "churn-two-cpu", Scenario: "churn", Procs: 2, P: map[string]int{"rounds": 10}},
				{Name: "brief", Scenario: "brief"},
				{Name: "brief-lingering", Scenario: "brief", Perturb: 3, P: map[string]int{"burners": 0}},
			}
			if race {
				js = append(js, Job{Name: "churn-race", Scenario: "churn", Race: true, P: map[string]int{"rounds": 16}},
					Job{Name: "churn-race-perturbed", Scenario: "churn", Race: true, Perturb: 1, P: map[string]int{"rounds": 16}})
			}
			if tier == "thorough" {
				for i := 0; i < 8; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "churn", Perturb: i % 3, Procs: []int{0, 2, 3, 1}[i%4], Race: race && i%2 == 1, P: map[string]int{"conns": 150}})
				}
			}
			return js
		}
	}
	rule := "one case = one connection ended in one of twelve ways (peer close, reset, half-close, close from the connect or message callback, from other goroutines, against concurrent sends, during a blocked write, before any data, by Stop, by write-shutdown) among many others; distinct by ending, messages and bytes exchanged, loops, protocol and number of concurrent closers"
	register("C04", &Property{Rule: rule,
		Assumptions: []string{"a connection that was reset by its peer before being accepted may or may not be announced"},
		jobs:        churnJobs(false)})
	register("C09", &Property{Rule: rule, Par: 5,
		Assumptions: []string{"the harness's own descriptors are accounted exactly"},
		jobs:        churnJobs(false)})
	register("C12", &Property{
		Rule:        "one case = one server accepting a generated sequence of connects and closes (quiescent between accepts) under round robin, least-connection or a random strategy, one concurrent dialling burst, or one direct strategy call over generated counts; distinct by loops, accepts and choices",
		Assumptions: []string{"least-connection is judged at quiescent moments only"},
		jobs: func(tier string) []Job {
			js := []Job{{Name: "lb", Scenario: "lb"}, {Name: "lb-perturbed", Scenario: "lb", Perturb: 1}, {Name: "churn", Scenario: "churn", Perturb: 1}}
			if tier == "thorough" {
				for i := 0; i < 4; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "lb", Perturb: i % 3})
				}
			}
			return js
		}})
}
