package main

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/RussellLuo/timingwheel"
	"golang.org/x/sys/unix"
)

// The api scenario calls every documented operation from many goroutines at
// once while connections carry traffic, open and close. The race detector and
// the confinement monitor judge (C05).

func scenarioAPI(w *W) {
	rounds := w.Scale(w.Param("rounds", 24), 10*w.Param("rounds", 24))
	for r := 0; r < rounds && !w.Violated(); r++ {
		apiRound(w)
	}
}

func apiRound(w *W) {
	loops := 1 + w.rng.Intn(3)
	idle := []time.Duration{0, 0, 40 * time.Millisecond, time.Second}[w.rng.Intn(4)]
	var fp *frameProto
	var proto gev.Protocol
	if w.rng.Intn(3) == 0 {
		fp = &frameProto{w: w, variant: w.rng.Intn(4)}
		proto = fp
	}
	m := newMon(w)
	var lmu sync.Mutex
	var live []*ConnS
	m.OnConn = func(cs *ConnS) {
		lmu.Lock()
		live = append(live, cs)
		lmu.Unlock()
		if cs.id%3 == 0 {
			runtime.Gosched()
			_ = cs.c.Send(payload(fp, 1, 20))
		}
		cs.c.Set("id", cs.id)
	}
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		if cs.msgs%7 == 0 {
			time.Sleep(20 * time.Microsecond)
		}
		_ = cs.c.ReadBufferLength()
		_ = cs.c.WriteBufferLength()
		if v, ok := cs.c.Get("id"); !ok || v.(int64) != cs.id {
			w.V("C16,C24", "connection %d reads %v from its own key/value context", cs.id, v)
		}
		if fp != nil {
			return &outMsg{body: data}
		}
		return append([]byte{}, data...)
	}
	m.OnCls = func(cs *ConnS) {
		runtime.Gosched()
		lmu.Lock()
		for i := range live {
			if live[i] == cs {
				live = append(live[:i], live[i+1:]...)
				break
			}
		}
		lmu.Unlock()
	}
	srv := w.startServer(SrvOpt{Loops: loops, Mon: m, Proto: proto, Idle: idle, LB: []gev.LoadBalanceStrategy{gev.RoundRobin(), gev.LeastConnection()}[w.rng.Intn(2)]})

	stop := make(chan struct{})
	var clients, apis sync.WaitGroup
	for i := 0; i < 6; i++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		clients.Add(1)
		go func() {
			defer clients.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				apiClient(srv, fp, rng, stop)
			}
		}()
	}
	stopping := int32(0)
	pick := func(rng *rand.Rand) *ConnS {
		lmu.Lock()
		defer lmu.Unlock()
		if len(live) == 0 {
			return nil
		}
		return live[rng.Intn(len(live))]
	}
	n := 1500
	if w.Race {
		n = 500
	}
	var ran, opsDone int64
	for g := 0; g < 8; g++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		apis.Add(1)
		go func(g int) {
			defer apis.Done()
			var timers []*timingwheel.Timer
			var stale []*ConnS
			for i := 0; i < n; i++ {
				atomic.AddInt64(&opsDone, 1)
				cs := pick(rng)
				if cs == nil && len(stale) > 0 {
					cs = stale[rng.Intn(len(stale))]
				}
				if cs == nil {
					time.Sleep(100 * time.Microsecond)
					continue
				}
				if rng.Intn(40) == 0 && len(stale) < 50 {
					stale = append(stale, cs)
				}
				if len(stale) > 0 && rng.Intn(20) == 0 {
					cs = stale[rng.Intn(len(stale))]
				}
				c := cs.c
				key := fmt.Sprint("k", rng.Intn(3))
				op := rng.Intn(16)
				switch op {
				case 0, 1, 2:
					_ = c.Send(payload(fp, g, 1+rng.Intn(2000)))
				case 3:
					_ = c.Send(payload(fp, g, 1+rng.Intn(200)), gev.SendInLoop(func(interface{}) { atomic.AddInt64(&ran, 1) }))
				case 4:
					if rng.Intn(8) == 0 {
						_ = c.Close()
					}
				case 5:
					_ = c.Connected()
					_ = c.PeerAddr()
				case 6:
					if c.ReadBufferLength() < 0 || c.WriteBufferLength() < 0 {
						w.V("C13", "a backlog length is negative")
					}
				case 7:
					c.Set(key, i)
				case 8:
					_, _ = c.Get(key)
				case 9:
					c.Delete(key)
				case 10:
					per, _ := srv.Counts()
					for _, k := range per {
						if k < 0 && atomic.LoadInt32(&stopping) == 0 {
							w.V("C09", "a connection count is negative: %v", per)
						}
					}
				case 11:
					if rng.Intn(6) == 0 {
						_ = c.ShutdownWrite()
					}
				case 12:
					if atomic.LoadInt32(&stopping) == 0 && rng.Intn(4) == 0 {
						d := time.Duration(rng.Intn(4000)) * time.Microsecond
						timers = append(timers, srv.s.RunAfter(d, func() { atomic.AddInt64(&ran, 1); _ = c.Send(payload(fp, g, 30)) }))
					}
				case 13:
					if atomic.LoadInt32(&stopping) == 0 && rng.Intn(8) == 0 {
						timers = append(timers, srv.s.RunEvery(time.Duration(1+rng.Intn(4))*time.Millisecond, func() { atomic.AddInt64(&ran, 1); _ = c.Connected() }))
					}
				case 14:
					if len(timers) > 0 {
						k := rng.Intn(len(timers))
						timers[k].Stop()
						timers = append(timers[:k], timers[k+1:]...)
					}
				case 15:
					_ = srv.s.Options()
					srv.lmu.Lock()
					var l *LoopS
					if len(srv.order) > 0 {
						l = srv.order[rng.Intn(len(srv.order))]
					}
					srv.lmu.Unlock()
					if l != nil {
						l.loop.QueueInLoop(func() { atomic.AddInt64(&ran, 1) })
					}
				}
				w.Case(fmt.Sprintf("op=%d open=%v idle=%v framed=%v loops=%d", op, !cs.Closed(), idle, fp != nil, loops))
				if rng.Intn(16) == 0 {
					runtime.Gosched()
				}
			}
			for _, t := range timers {
				t.Stop()
			}
		}(g)
	}
	mid := w.rng.Intn(2) == 0 // stop while the API is being used
	if mid {
		w.Await("half of the operations", func() int64 { return atomic.LoadInt64(&opsDone) }, func() bool { return atomic.LoadInt64(&opsDone) > int64(4*n) })
		atomic.StoreInt32(&stopping, 1)
		time.Sleep(time.Duration(w.rng.Intn(1000)) * time.Microsecond)
	} else {
		done := make(chan struct{})
		go func() { apis.Wait(); close(done) }()
		w.Await("API calls return", func() int64 { return atomic.LoadInt64(&opsDone) }, func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		})
	}
	go srv.s.Stop()
	ok := srv.Stop()
	close(stop)
	if ok {
		apis.Wait()
		clients.Wait()
	}
	w.Ev("tasks", atomic.LoadInt64(&ran))
	w.Ev("callbacks", atomic.LoadInt64(&m.cbs))
	w.Ev("connections", atomic.LoadInt64(&m.nConnect))
}

func payload(fp *frameProto, g, n int) interface{} {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g)
	}
	if fp != nil {
		return &outMsg{id: uint64(g), body: b}
	}
	return b
}

func apiClient(srv *Srv, fp *frameProto, rng *rand.Rand, stop chan struct{}) {
	conn, err := (&net.Dialer{Timeout: 5 * time.Second}).Dial("tcp", srv.addr)
	if err != nil {
		time.Sleep(time.Millisecond)
		return
	}
	defer conn.Close()
	go func() {
		b := make([]byte, 4096)
		for {
			if _, err := conn.Read(b); err != nil {
				return
			}
		}
	}()
	for i, n := 0, 5+rng.Intn(60); i < n; i++ {
		select {
		case <-stop:
			return
		default:
		}
		var b []byte
		if fp != nil {
			b = wireFrame{flags: 1, n: rng.Intn(400)}.encode(1, i)
			if rng.Intn(3) == 0 {
				k := rng.Intn(len(b))
				if _, err := conn.Write(b[:k]); err != nil {
					return
				}
				b = b[k:]
			}
		} else {
			b = make([]byte, 1+rng.Intn(2000))
		}
		if _, err := conn.Write(b); err != nil {
			return
		}
		if rng.Intn(3) == 0 {
			time.Sleep(time.Duration(rng.Intn(400)) * time.Microsecond)
		}
	}
	if rng.Intn(2) == 0 {
		rst(conn.(*net.TCPConn))
	}
}

// ------------------------------------------------------------ reuse (C07)

// The reuse scenario closes a connection that has state in the library - an
// unfinished frame, pending output, an armed idle timer - in a known way, lets
// the next connection or a file of this program take over its descriptor
// number, and keeps calling into the closed connection meanwhile. The
// successor must get exactly its own service.
func scenarioReuse(w *W) {
	rounds := w.Scale(w.Param("rounds", 12), 15*w.Param("rounds", 12))
	for r := 0; r < rounds && !w.Violated(); r++ {
		reuseRound(w, r)
	}
}

func reuseRound(w *W, r int) {
	framed := r%2 == 0
	idle := time.Duration(0)
	if r%4 >= 2 {
		idle = 60 * time.Millisecond
	}
	var fp *frameProto
	var proto gev.Protocol
	if framed {
		fp = &frameProto{w: w, variant: w.rng.Intn(4)}
		proto = fp
	}
	type st struct {
		key uint64
		pos int64
		bad bool
	}
	m := newMon(w)
	m.OnConn = func(cs *ConnS) { cs.u = &st{key: connKey(w, cs.peer)} }
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		s := cs.u.(*st)
		if fp != nil {
			if mismatch(data, s.key^uint64(cs.msgs-1)*977, 0) >= 0 && !s.bad {
				s.bad = true
				w.V("C07", "connection %d: frame %d is not what its peer sent", cs.id, cs.msgs-1)
			}
			return &outMsg{id: uint64(cs.msgs - 1), body: append([]byte{}, data...)}
		}
		if i := mismatch(data, s.key, s.pos); i >= 0 && !s.bad {
			s.bad = true
			w.V("C07", "connection %d: input byte %d is not what its peer sent", cs.id, s.pos+int64(i))
		}
		s.pos += int64(len(data))
		return append([]byte{}, data...)
	}
	srv := w.startServer(SrvOpt{Loops: 1 + r%2, Mon: m, Proto: proto, Idle: idle})
	var stopStale int32
	var stalers sync.WaitGroup
	var staleN int64
	pairs := 12
	var prev *net.TCPConn
	var prevCS *ConnS
	for i := 0; i < pairs && !w.Violated(); i++ {
		a, ca := srv.DialCS([]int{0, 2048}[w.rng.Intn(2)], 0)
		fdA := serverFD(a.LocalAddr().String())
		key := ca.u.(*st).key
		// state that must die with the connection
		if fp != nil {
			b := wireFrame{flags: 1, n: 3000}.encode(key, 0)
			_, _ = a.Write(b[:1+w.rng.Intn(3000)])
		}
		if w.rng.Intn(2) == 0 {
			_ = ca.c.Send(payload(fp, 0xAA, 4<<20)) // pending output
		}
		if fp != nil || w.rng.Intn(2) == 0 {
			w.Await("input arrives", m.Progress, func() bool {
				return fp == nil || ca.c.ReadBufferLength() > 0 || ca.c.WriteBufferLength() > 0 || ca.Closed()
			})
		}
		// calls racing with, and outliving, the close
		begun := make(chan struct{}, 3)
		for k := 0; k < 3; k++ {
			stalers.Add(1)
			go func(k int) {
				defer stalers.Done()
				begun <- struct{}{}
				for n := 0; n < 400 && atomic.LoadInt32(&stopStale) == 0; n++ {
					closed := ca.Closed()
					var err error
					switch k {
					case 0:
						err = ca.c.Send(payload(fp, 0xBB, 50))
					case 1:
						if n == 0 {
							time.Sleep(time.Duration(n*50) * time.Microsecond)
						}
						err = ca.c.Close()
					case 2:
						err = ca.c.ShutdownWrite()
					}
					if closed && err != gev.ErrConnectionClosed {
						w.V("C07", "operation %d on closed connection %d returned %v", k, ca.id, err)
					}
					if err != nil && err != gev.ErrConnectionClosed {
						w.V("C07", "operation %d on connection %d returned %v", k, ca.id, err)
					}
					atomic.AddInt64(&staleN, 1)
					if n > 30 {
						time.Sleep(30 * time.Microsecond)
					}
				}
			}(k)
		}
		<-begun
		switch w.rng.Intn(4) {
		case 0:
			_ = a.Close()
		case 1:
			rst(a)
		case 2:
			_ = ca.c.Close()
		case 3:
			if idle == 0 {
				_ = ca.c.Close()
			}
		}
		if !w.Await(fmt.Sprintf("connection %d closes", ca.id), m.Progress, func() bool { return ca.Closed() }) {
			break
		}
		// a successor connection or a file of ours takes the number
		w.Await("the descriptor is released", nil, func() bool { return serverFD(a.LocalAddr().String()) != fdA || fdA < 0 })
		_ = a.Close()
		b, cb := srv.DialCS(0, 0)
		fdB := serverFD(b.LocalAddr().String())
		var canary *os2
		if fdB != fdA && fdA > 0 {
			canary = newCanary()
		}
		kb := cb.u.(*st).key
		var off int64
		for e := 0; e < 25 && !w.Violated(); e++ {
			var got, want []byte
			if fp != nil {
				f := wireFrame{flags: 1, n: 1 + w.rng.Intn(500)}
				want = f.encode(kb, e)[4:]
				out := f.encode(kb, e)
				if _, err := b.Write(out); err != nil {
					w.V("C07", "successor connection %d was disturbed: %v", cb.id, err)
					break
				}
				got = make([]byte, 12+len(want))
			} else {
				want = pattern(1+w.rng.Intn(500), kb, off)
				off += int64(len(want))
				if _, err := b.Write(want); err != nil {
					w.V("C07", "successor connection %d was disturbed: %v", cb.id, err)
					break
				}
				got = make([]byte, len(want))
			}
			if err := w.readN(fmt.Sprintf("connection %d (descriptor %d, predecessor had %d) gets its reply", cb.id, fdB, fdA), b, got); err != nil {
				w.V("C07", "successor connection %d (descriptor %d, predecessor had %d) was disturbed: %v", cb.id, fdB, fdA, err)
				break
			}
			if fp != nil {
				got = got[12:]
			}
			if string(got) != string(want) {
				w.V("C07", "successor connection %d received bytes that are not its reply", cb.id)
				break
			}
			if canary != nil {
				canary.check(w)
			}
			if idle > 0 && e%5 == 0 {
				time.Sleep(time.Duration(w.rng.Intn(15)) * time.Millisecond) // let the predecessor's idle deadline pass
			}
		}
		if canary != nil {
			canary.close()
		}
		w.Case(fmt.Sprintf("framed=%v idle=%v samefd=%v bytesA=%d msgsB=%d", framed, idle > 0, fdA == fdB, ca.bytes, cb.msgs))
		if fdA == fdB {
			w.Ev("descriptor-reused-by-successor", 1)
		}
		// keep the successor open for a while; it becomes the next bystander
		if prev != nil {
			_ = prev.Close()
			_ = prevCS
		}
		prev, prevCS = b, cb
	}
	atomic.StoreInt32(&stopStale, 1)
	stalers.Wait()
	w.Ev("stale-calls", staleN)
	if prev != nil {
		_ = prev.Close()
	}
	srv.Stop()
}

// os2 is a connected socket pair owned by the harness.
type os2 struct{ fds [2]int }

func newCanary() *os2 {
	fds, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_NONBLOCK|unix.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil
	}
	return &os2{fds: fds}
}

func (o *os2) check(w *W) {
	var b [16]byte
	for k := range o.fds {
		if n, err := unix.Read(o.fds[k], b[:]); err != unix.EAGAIN {
			w.V("C07", "descriptor %d or %d, owned by this program, was closed, shut down or written to: read %d %v", o.fds[0], o.fds[1], n, err)
			return
		}
	}
	w.Ev("canary-checks", 1)
}

func (o *os2) close() { _ = unix.Close(o.fds[0]); _ = unix.Close(o.fds[1]) }

func init() {
	scenarios["api"] = scenarioAPI
	scenarios["reuse"] = scenarioReuse
	register("C05", &Property{
		Rule:        "one case = one API operation (send with and without completion callback, close, connected, peer address, backlog lengths, key/value set/get/delete, loop counters, write-shutdown, delayed and periodic tasks, timer stop, options, loop tasks, server stop) issued by one of eight goroutines against open and closed connections that carry traffic, under the race detector and the confinement monitor; distinct by operation, connection state, idle setting, protocol and loops; connections ended in twelve ways (churn) run under the same monitors",
		Assumptions: []string{"the Go race detector reports no false races", "only races whose two accesses are both inside the library (or its vendored dependencies) count", "SetContext/Context and the log configuration functions are not part of the concurrent API"},
		Races:       true,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "api-race", Scenario: "api", Race: true},
				{Name: "api-race-perturbed", Scenario: "api", Race: true, Perturb: 1},
				{Name: "api-race-two-cpu", Scenario: "api", Race: true, Procs: 2, P: map[string]int{"rounds": 12}},
				{Name: "api", Scenario: "api", Perturb: 1},
				{Name: "churn-race", Scenario: "churn", Race: true, P: map[string]int{"rounds": 32}},
				{Name: "churn-race-perturbed", Scenario: "churn", Race: true, Perturb: 1, P: map[string]int{"rounds": 32}},
				{Name: "churn-perturbed", Scenario: "churn", Perturb: 2, P: map[string]int{"rounds": 24}},
				{Name: "churn-one-cpu", Scenario: "churn", Procs: 1, P: map[string]int{"rounds": 16}},
			}
			if tier == "thorough" {
				for i := 0; i < 8; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: []string{"api", "churn"}[i%2], Race: i%4 < 3, Perturb: i % 3, Procs: []int{0, 2, 3, 0}[i%4]})
				}
			}
			return js
		}})
	register("C07", &Property{
		Rule:        "one case = one closed connection whose successor is watched: connections ended in twelve ways with stale calls and descriptor canaries (churn), and connections closed while holding an unfinished frame, pending output or an idle timer while three goroutines keep calling Send, Close and ShutdownWrite on them and a successor (usually on the same descriptor number) is checked exchange by exchange (reuse); distinct by ending, protocol, idle timer, descriptor reuse and traffic",
		Assumptions: []string{"descriptor numbers are reused lowest-first by the kernel"},
		Par:         5,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "reuse", Scenario: "reuse"},
				{Name: "reuse-perturbed", Scenario: "reuse", Perturb: 1},
				{Name: "reuse-heavy-perturbed", Scenario: "reuse", Perturb: 2},
				{Name: "reuse-one-cpu", Scenario: "reuse", Procs: 1, Perturb: 1, P: map[string]int{"rounds": 8}},
				{Name: "churn", Scenario: "churn", P: map[string]int{"rounds": 30}},
				{Name: "churn-perturbed", Scenario: "churn", Perturb: 2, P: map[string]int{"rounds": 16}},
				{Name: "churn-two-cpu", Scenario: "churn", Procs: 2, Perturb: 1, P: map[string]int{"rounds": 16}},
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: []string{"reuse", "churn"}[i%2], Perturb: i % 3, Procs: []int{0, 2, 3}[i%3]})
				}
			}
			return js
		}})
}
