package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"errors"

	"github.com/Allenxuxu/gev"
	"golang.org/x/sys/unix"
)

// The stop scenario stops servers in every state and phase and inspects what
// is left: callbacks, peers, the address, descriptors, goroutines (C08).

// runnerFrames mark the goroutines a running server consists of. (A task that
// was being re-armed while the timing wheel stopped is not one of them.)
var runnerFrames = []string{"gev/poller.", "gev/eventloop.", "gev.(*Server)", "gev.(*listener)", "timingwheel.(*TimingWheel).Start"}

func scenarioStop(w *W) {
	rounds := w.Scale(w.Param("rounds", 60), 15*w.Param("rounds", 60))
	for r := 0; r < rounds && !w.Violated(); r++ {
		stopRound(w, r)
	}
}

// stopClient connects, exercises the connection and then waits for the end of
// its stream.
type stopClient struct {
	conn  net.Conn
	eof   int32 // stream ended
	n     int64
	noRd  int32 // does not read until told to
	addr  string
	ended chan struct{}
}

func (c *stopClient) reader() {
	defer close(c.ended)
	b := make([]byte, 32<<10)
	for {
		for atomic.LoadInt32(&c.noRd) != 0 {
			time.Sleep(200 * time.Microsecond)
		}
		n, err := c.conn.Read(b)
		atomic.AddInt64(&c.n, int64(n))
		if err != nil {
			if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
				atomic.StoreInt32(&c.eof, 1)
			}
			return
		}
	}
}

func stopRound(w *W, r int) {
	inv := takeInventory()
	if len(inv.fds) > 14 {
		w.Ev("rounds-starting-with-many-descriptors", 1)
	}
	gBase, _ := libGoroutineCount()
	loops := 1 + w.rng.Intn(4)
	phase := r % 6 // 0,1: right after Start; 2: a single idle server; 3..5: with connections
	nconn := 0
	if phase >= 3 {
		nconn = 1 + w.rng.Intn(20)
	}
	idle := time.Duration(0)
	if w.rng.Intn(3) == 0 {
		idle = time.Duration(1+w.rng.Intn(30)) * time.Millisecond
	}
	m := newMon(w)
	var extra int64
	m.OnConn = func(cs *ConnS) {
		switch cs.id % 5 {
		case 1:
			_ = cs.c.Send([]byte("hello"))
		case 2:
			_ = cs.c.Send(make([]byte, 6<<20))
		case 3:
			if r%3 == 0 {
				_ = cs.c.Close()
			}
		}
	}
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		return append([]byte{}, data...)
	}
	m.OnCls = func(cs *ConnS) {
		if cs.id%4 == 0 { // work left to the loop by a callback that Stop caused
			_ = cs.c.Send([]byte("x"))
		}
	}
	srv := w.newServer(SrvOpt{Loops: loops, Mon: m, Idle: idle})
	var other *Srv
	var oc *net.TCPConn
	if r%7 == 3 { // an unrelated server in the same process must not notice
		om := newMon(w)
		om.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} { return append([]byte{}, data...) }
		other = w.startServer(SrvOpt{Loops: 1, Mon: om})
		oc, _ = other.DialCS(0, 0)
	}
	srv.Go()
	var timersRan int64
	if phase != 0 && w.rng.Intn(2) == 0 {
		srv.s.RunEvery(time.Millisecond, func() { atomic.AddInt64(&timersRan, 1) })
		srv.s.RunAfter(time.Duration(w.rng.Intn(3))*time.Millisecond, func() { atomic.AddInt64(&timersRan, 1) })
	}
	var cmu sync.Mutex
	var clients []*stopClient
	add := func(conn net.Conn, noRead bool) *stopClient {
		c := &stopClient{conn: conn, addr: conn.LocalAddr().String(), ended: make(chan struct{})}
		if noRead {
			c.noRd = 1
		}
		cmu.Lock()
		clients = append(clients, c)
		cmu.Unlock()
		go c.reader()
		return c
	}
	for i := 0; i < nconn; i++ {
		noRead := w.rng.Intn(3) == 0
		conn, _ := srv.DialCS([]int{0, 2048}[w.rng.Intn(2)], 0)
		c := add(conn, noRead)
		if w.rng.Intn(2) == 0 {
			_, _ = c.conn.Write(make([]byte, 1+w.rng.Intn(9000)))
		}
	}
	// traffic and dialling that go on while the server stops
	quit := make(chan struct{})
	var bg sync.WaitGroup
	busy := phase >= 4
	var inFlight int64
	if busy {
		for _, c := range clients {
			if w.rng.Intn(2) == 0 {
				bg.Add(1)
				go func(c *stopClient) {
					defer bg.Done()
					for {
						select {
						case <-quit:
							return
						default:
						}
						_ = c.conn.SetWriteDeadline(time.Now().Add(time.Millisecond))
						if _, err := c.conn.Write(make([]byte, 700)); err != nil {
							if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
								return
							}
						}
					}
				}(c)
			}
		}
		for _, cs := range m.All() {
			if w.rng.Intn(2) == 0 {
				bg.Add(1)
				go func(cs *ConnS) {
					defer bg.Done()
					for {
						select {
						case <-quit:
							return
						default:
						}
						// not faster than the loop can send
						if atomic.LoadInt64(&inFlight) < 200 && cs.c.WriteBufferLength() < 1<<20 {
							if cs.c.Send(make([]byte, 100), gev.SendInLoop(func(interface{}) { atomic.AddInt64(&inFlight, -1) })) != nil {
								return
							}
							atomic.AddInt64(&inFlight, 1)
						}
						time.Sleep(20 * time.Microsecond)
					}
				}(cs)
			}
		}
	}
	dialling := phase == 5 || phase == 1
	var dialled, refused int64
	if dialling {
		for d := 0; d < 3; d++ {
			bg.Add(1)
			rng := rand.New(rand.NewSource(w.rng.Int63()))
			go func() {
				defer bg.Done()
				for i := 0; i < 40; i++ {
					conn, err := net.DialTimeout("tcp", srv.addr, 5*time.Second)
					if err != nil {
						atomic.AddInt64(&refused, 1)
						if errors.Is(err, syscall.ECONNREFUSED) {
							return
						}
						continue
					}
					atomic.AddInt64(&dialled, 1)
					add(conn, false)
					if rng.Intn(2) == 0 {
						_, _ = conn.Write([]byte("abc"))
					}
				}
			}()
		}
		if phase == 5 {
			time.Sleep(time.Duration(w.rng.Intn(1500)) * time.Microsecond)
		}
	}
	// stop
	stoppers := 1 + w.rng.Intn(4)
	var returned int64
	early := phase <= 1
	if !early {
		// make sure Start got as far as running before a single Stop call counts
		srv.s.RunAfter(0, func() { atomic.AddInt64(&extra, 1) })
		if !w.Await("a delayed task runs on a started server", nil, func() bool { return atomic.LoadInt64(&extra) > 0 }) {
			return
		}
		if nconn == 0 {
			c, _ := srv.DialCS(0, 0)
			add(c, false)
		}
	}
	for k := 0; k < stoppers; k++ {
		go func() {
			if early {
				// Start may not have begun: keep asking until it returns
				for !isClosed(srv.stopped) {
					srv.s.Stop()
					runtime.Gosched()
				}
			} else {
				srv.s.Stop()
				srv.s.Stop()
			}
			atomic.AddInt64(&returned, 1)
		}()
	}
	what := fmt.Sprintf("Stop (called by %d goroutines, phase %d, %d connections) and Start return", stoppers, phase, nconn)
	if !w.Await(what, m.Progress, func() bool { return atomic.LoadInt64(&returned) == int64(stoppers) && isClosed(srv.stopped) }) {
		_, dump := libGoroutineCount()
		w.Ev("stop-stalled", 1)
		if os.Getenv("VERIF_VERBOSE") != "" {
			buf := make([]byte, 8<<20)
			fmt.Fprintln(os.Stderr, string(buf[:runtime.Stack(buf, true)]))
		}
		_ = dump
		return
	}
	atomic.StoreInt32(&srv.finished, 1)
	// new dials are refused at once
	if c, err := net.DialTimeout("tcp", srv.addr, 5*time.Second); err == nil {
		_ = c.Close()
		w.V("C08", "a dial after Stop and Start returned was accepted")
	} else if !errors.Is(err, syscall.ECONNREFUSED) {
		w.Ev("dial-error-other", 1)
	}
	// the address can be bound again
	if ln, err := net.Listen("tcp", srv.addr); err != nil {
		w.V("C08", "the address cannot be bound again after Stop: %v", err)
	} else {
		_ = ln.Close()
	}
	close(quit)
	bg.Wait()
	for _, cs := range m.All() {
		if st := atomic.LoadInt32(&cs.state); st != 2 {
			w.V("C08", "connection %d of %d has no close callback after Stop (state %d)", cs.id, m.ids, st)
		}
		if cs.c.Connected() {
			w.V("C08,C04", "connection %d reports connected after Stop", cs.id)
		}
		if err := cs.c.Send([]byte("late")); err != gev.ErrConnectionClosed {
			w.V("C08,C07", "Send on connection %d after Stop returned %v", cs.id, err)
		}
	}
	// every peer sees the end of its stream
	for _, c := range clients {
		atomic.StoreInt32(&c.noRd, 0)
	}
	for _, c := range clients {
		c := c
		if !w.Await("client "+c.addr+" sees the end of its stream after Stop", func() int64 { return atomic.LoadInt64(&c.n) }, func() bool { return isClosed(c.ended) }) {
			break
		}
		_ = c.conn.Close()
		<-c.ended
	}
	if other != nil {
		got := make([]byte, 4)
		_, werr := oc.Write([]byte("ping"))
		if err := w.readN("another server of the process keeps serving", oc, got); err != nil || werr != nil || string(got) != "ping" {
			w.V("C08", "stopping one server disturbed another one of the process: %v %v", werr, err)
		}
		_ = oc.Close()
		other.Stop()
	}
	// late wake-ups of the loops must not reach descriptors that are someone else's now
	var can []int
	for i := 0; i < 12; i++ {
		fd, err := unix.Eventfd(0, unix.EFD_NONBLOCK|unix.EFD_CLOEXEC)
		if err == nil {
			can = append(can, fd)
		}
	}
	srv.lmu.Lock()
	order := srv.order
	srv.lmu.Unlock()
	for _, l := range order {
		for k := 0; k < 3; k++ {
			l.loop.QueueInLoop(func() { w.V("C08", "a loop executed a task after the server had stopped") })
		}
	}
	for _, fd := range can {
		var b [8]byte
		if n, err := unix.Read(fd, b[:]); err != unix.EAGAIN {
			w.V("C08,C07", "descriptor %d, owned by this program, was written to by a stopped loop (%d %v)", fd, n, err)
		}
		if err := unix.Close(fd); err != nil {
			w.V("C08,C07", "descriptor %d, owned by this program, was closed by a stopped server: %v", fd, err)
		}
	}
	if other == nil {
		ok := true
		if extra := fdsBeyond(w, inv); len(extra) > 0 {
			ok = false
			w.V("C08", "%d descriptors left after Stop (phase %d, %d connections): %v", len(extra), phase, nconn, extra)
		}
		if !ok {
			return
		}
		w.Await("the library's goroutines end after Stop", nil, func() bool { n, _ := libGoroutineCount(); return n <= gBase })
	}
	cbs := atomic.LoadInt64(&m.cbs)
	if r%4 == 0 {
		time.Sleep(3 * time.Millisecond) // leave room for late timers and callbacks
	}
	if n := atomic.LoadInt64(&m.cbs); n != cbs {
		w.V("C08", "%d callbacks ran after Stop", n-cbs)
	}
	w.Ev("connections", atomic.LoadInt64(&m.nConnect))
	w.Ev("dialled-during-stop", dialled)
	w.Ev("timer-runs", atomic.LoadInt64(&timersRan))
	w.Case(fmt.Sprintf("phase=%d loops=%d conns=%d stoppers=%d idle=%v busy=%v dialling=%v accepted=%d", phase, loops, nconn, stoppers, idle > 0, busy, dialling, m.nConnect))
}

// scenarioStopCrowd stops servers whose loops serve thousands of connections
// and have thousands of tasks queued.
func scenarioStopCrowd(w *W) {
	for r := 0; r < w.Scale(w.Param("rounds", 3), 20) && !w.Violated(); r++ {
		stopCrowdRound(w, r)
	}
}

func stopCrowdRound(w *W, r int) {
	inv := takeInventory()
	gBase, _ := libGoroutineCount()
	loops := []int{1, 2, 1}[r%3]
	nconn := w.Param("conns", 2200) + w.rng.Intn(1200)
	if r%3 == 0 {
		nconn = 2 * w.Param("conns", 2200) // all on one loop
	}
	var lim unix.Rlimit
	if unix.Getrlimit(unix.RLIMIT_NOFILE, &lim) == nil && uint64(nconn) > lim.Cur/3 {
		nconn = int(lim.Cur / 3)
		w.Ev("crowds-limited-by-descriptors", 1)
	}
	idle := []time.Duration{0, time.Hour}[w.rng.Intn(2)]
	m := newMon(w)
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		return append([]byte{}, data...)
	}
	var sent, finished int64
	srv := w.startServer(SrvOpt{Loops: loops, Mon: m, Idle: idle})
	conns := make([]*net.TCPConn, 0, nconn)
	for len(conns) < nconn && !w.Violated() {
		for i := 0; i < 100; i++ {
			conns = append(conns, srv.Dial())
		}
		if !w.AwaitFor("C08,C29", "connections are announced", m.Progress, func() bool { return atomic.LoadInt64(&m.nConnect) == int64(len(conns)) }) {
			return
		}
	}
	nconn = len(conns)
	if r%3 != 2 { // work queued right before the stop
		for i, cs := range m.All() {
			if i%3 == 0 && cs.c.Send([]byte("queued"), gev.SendInLoop(func(interface{}) { atomic.AddInt64(&finished, 1) })) == nil {
				sent++
			}
		}
	}
	srv.Stop()
	if w.Violated() {
		return
	}
	open := 0
	for _, cs := range m.All() {
		if atomic.LoadInt32(&cs.state) != 2 || cs.c.Connected() {
			open++
		}
	}
	if open > 0 {
		w.V("C08", "%d of %d connections on %d loops were not closed by Stop", open, nconn, loops)
		return
	}
	if f := atomic.LoadInt64(&finished); f != sent {
		// they were queued behind nothing that closes
		w.V("C08,C06", "%d of %d sends queued before Stop completed", f, sent)
	}
	ends := 0
	for i, c := range conns {
		b := make([]byte, 64)
		_ = c.SetReadDeadline(time.Now().Add(30 * time.Second))
		for {
			_, err := c.Read(b)
			if err == nil {
				continue
			}
			if !isTimeout(err) {
				ends++
			} else {
				w.V("C08", "peer %d of %d sees no end of its stream 30 s after Stop", i, nconn)
			}
			break
		}
		_ = c.Close()
		if w.Violated() {
			return
		}
	}
	if extra := fdsBeyond(w, inv); len(extra) > 0 {
		w.V("C08,C09", "%d descriptors left after a server with %d connections stopped: %v", len(extra), nconn, extra[:min(len(extra), 10)])
	}
	w.Await("the library's goroutines end after Stop", nil, func() bool { n, _ := libGoroutineCount(); return n <= gBase })
	w.Ev("connections", int64(nconn))
	w.Ev("ends-seen", int64(ends))
	w.Case(fmt.Sprintf("crowd loops=%d conns=%d queued=%d idle=%v", loops, nconn, sent, idle > 0))
}

// scenarioStopShort stops servers while the descriptor limit is reached and
// peers wait to be accepted.
func scenarioStopShort(w *W) {
	warmUp(w)
	for r := 0; r < w.Scale(w.Param("rounds", 80), 1600) && !w.Violated(); r++ {
		stopShortRound(w, r)
	}
}

func stopShortRound(w *W, r int) {
	inv := takeInventory()
	gBase, _ := libGoroutineCount()
	rng := rand.New(rand.NewSource(w.Seed + int64(r)*7919))
	srv := w.startServer(SrvOpt{Loops: 1 + rng.Intn(3), Mon: echoMon(w), Idle: []time.Duration{0, time.Hour}[rng.Intn(2)]})
	peers := make([]*rawPeer, 1+rng.Intn(30))
	for i := range peers {
		fd, err := unix.Socket(unix.AF_INET, unix.SOCK_STREAM|unix.SOCK_CLOEXEC, 0)
		w.Must(err)
		peers[i] = &rawPeer{fd: fd, key: splitmix(uint64(r*1000 + i))}
	}
	est := rng.Intn(len(peers))
	for _, p := range peers[:est] {
		p.la = rawDial(w, p.fd, srv.addr)
	}
	if !w.AwaitFor("C08,C29", "established connections are announced", srv.Progress, func() bool { return atomic.LoadInt64(&srv.nConnect) == int64(est) }) {
		return
	}
	left := rng.Intn(3)
	if est == 0 && left == 0 {
		left = 1 // the server is known to run once a connection was announced
	}
	restore, _ := limitFree(w, left)
	for _, p := range peers[est:] {
		p.la = rawDial(w, p.fd, srv.addr)
		if rng.Intn(2) == 0 {
			p.talk(1 + rng.Intn(300))
		}
	}
	if est == 0 && !w.AwaitFor("C08,C29", "a connection is announced", srv.Progress, func() bool { return atomic.LoadInt64(&srv.nConnect) > 0 }) {
		restore()
		return
	}
	time.Sleep(time.Duration(rng.Intn(4)) * time.Millisecond)
	ok := srv.Stop()
	waited := 0
	for _, p := range peers {
		if srv.ByPeer(p.la) == nil {
			waited++
		}
	}
	restore()
	if !ok {
		return
	}
	open := 0
	for _, cs := range srv.All() {
		if atomic.LoadInt32(&cs.state) != 2 {
			open++
		}
	}
	if open > 0 {
		w.V("C08", "%d connections have no close callback after a Stop at the descriptor limit", open)
	}
	for _, p := range peers {
		p := p
		if !w.AwaitFor("C08", "a peer of a server stopped at the descriptor limit sees the end of its stream", func() int64 { return int64(len(p.got)) }, func() bool { p.pump(); return p.done }) {
			return
		}
		_ = unix.Close(p.fd)
	}
	if ln, err := net.Listen("tcp", srv.addr); err != nil {
		w.V("C08", "the address cannot be bound again after a Stop at the descriptor limit: %v", err)
	} else {
		_ = ln.Close()
	}
	if extra := fdsBeyond(w, inv); len(extra) > 0 {
		w.V("C08,C29", "%d descriptors left after a Stop at the descriptor limit: %v", len(extra), extra)
	}
	w.Await("the library's goroutines end after Stop", nil, func() bool { n, _ := libGoroutineCount(); return n <= gBase })
	w.Ev("stops-at-descriptor-limit", 1)
	w.Ev("peers-waiting-at-stop", int64(waited))
	w.Case(fmt.Sprintf("short est=%d waiting=%d left=%d", est, waited, left))
}

func libGoroutineCount() (int, string) {
	n, dump := 0, ""
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range splitGoroutines(string(buf)) {
		if containsAny(g, runnerFrames...) && !isCaller(g) {
			n++
			if len(dump) < 4000 {
				dump += g + "\n\n"
			}
		}
	}
	return n, dump
}

// isCaller: goroutines of the harness that are inside a library call are not
// goroutines of the library.
func isCaller(g string) bool {
	return containsAny(g, "created by main.") && !containsAny(g, "main.(*Srv).Go")
}

func init() {
	_ = io.EOF
	scenarios["stop"] = scenarioStop
	scenarios["stop-crowd"] = scenarioStopCrowd
	scenarios["stop-short"] = scenarioStopShort
	register("C08", &Property{
		Rule:        "one case = one server stopped by 1-4 goroutines in one of six phases (immediately after Start, while being dialled, idle, with idle or stalled or busy connections, under concurrent dials, sends and timers), or holding thousands of connections, or at the descriptor limit with peers waiting, then inspected: callbacks, peers, dials, re-bind, stale wake-ups, descriptors, goroutines, other servers; distinct by phase, loops, connections and stoppers",
		Assumptions: []string{"Stop is not called from inside a callback of the same server", "a Stop that happens before Start has begun has no effect"},
		Par:         5,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "stop", Scenario: "stop"},
				{Name: "perturbed", Scenario: "stop", Perturb: 1},
				{Name: "heavy-perturbed", Scenario: "stop", Perturb: 2, P: map[string]int{"rounds": 36}},
				{Name: "one-cpu", Scenario: "stop", Procs: 1, Perturb: 1, P: map[string]int{"rounds": 36}},
				{Name: "two-cpu", Scenario: "stop", Procs: 2, P: map[string]int{"rounds": 48}},
				{Name: "race", Scenario: "stop", Race: true},
				{Name: "crowd", Scenario: "stop-crowd"},
				{Name: "short", Scenario: "stop-short"},
				{Name: "churn", Scenario: "churn", Perturb: 1, P: map[string]int{"rounds": 20}},
			}
			if tier == "thorough" {
				for i := 0; i < 8; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "stop", Perturb: i % 3, Procs: []int{0, 1, 2, 3}[i%4]})
				}
			}
			return js
		}})
}
