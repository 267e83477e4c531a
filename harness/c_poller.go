package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev/poller"
	"golang.org/x/sys/unix"
)

// The poller scenarios drive a Poller directly. The wake notification is used
// as a gate: while it is held, polling stands still and the descriptors and
// their registrations are changed; poll(2) on every single descriptor then
// says, independently of epoll, which reports are due (C23).

func init() {
	scenarios["poller"] = scenarioPoller
	scenarios["pollwake"] = scenarioPollWake
	scenarios["pollclose"] = scenarioPollClose
	register("C23", &Property{
		Rule: "a case is one gated step: a random set of registered descriptors (socket pairs, TCP, pipes, eventfds; connected, hung up, reset, full, with urgent data) with random registration changes, whose reports are compared with poll(2) of each descriptor; or one wake-up / one close of a poller. Non-trivial: identified by the set of (kind, registration, condition) present, the number of ready descriptors, or the wake/close configuration",
		Assumptions: []string{
			"poll(2) of a single descriptor is the truth about its readiness",
			"a ready descriptor must be reported within a number of polling rounds proportional to the number of ready descriptors",
		},
		jobs: func(tier string) []Job {
			return []Job{
				{Name: "mixed", Scenario: "poller", P: map[string]int{"fds": 14}},
				{Name: "mixed-pert", Scenario: "poller", Seed: 1, Perturb: 1, P: map[string]int{"fds": 40}},
				{Name: "mixed-signals", Scenario: "poller", Seed: 2, P: map[string]int{"fds": 10, "signals": 1}},
				{Name: "mixed-procs1", Scenario: "poller", Seed: 3, Procs: 1, P: map[string]int{"fds": 25}},
				{Name: "many", Scenario: "poller", Seed: 4, P: map[string]int{"fds": 2600, "rounds": 12, "many": 1}},
				{Name: "wake", Scenario: "pollwake", Seed: 5},
				{Name: "wake-pert", Scenario: "pollwake", Seed: 6, Perturb: 2},
				{Name: "wake-procs2", Scenario: "pollwake", Seed: 7, Procs: 2},
				{Name: "wake-race", Scenario: "pollwake", Seed: 8, Race: true},
				{Name: "close", Scenario: "pollclose", Seed: 9},
				{Name: "close-pert", Scenario: "pollclose", Seed: 10, Perturb: 2},
				{Name: "close-race", Scenario: "pollclose", Seed: 11, Race: true},
			}
		},
		Races: true,
	})
}

type pollRep struct {
	fd int
	ev poller.Event
}

// pollGate runs a poller whose wake notifications block until released.
type pollGate struct {
	w       *W
	p       *poller.Poller
	mu      sync.Mutex
	reports []pollRep
	atGate  chan struct{}
	release chan struct{}
	free    int32 // gate open: notifications do not block
	ended   chan struct{}
	tid     int32
	onFd    func(fd int, ev poller.Event)
	nrep    int64
}

func newPollGate(w *W) *pollGate {
	p, err := poller.Create()
	w.Must(err)
	g := &pollGate{w: w, p: p, atGate: make(chan struct{}), release: make(chan struct{}), ended: make(chan struct{})}
	go func() {
		runtime.LockOSThread()
		atomic.StoreInt32(&g.tid, int32(unix.Gettid()))
		p.Poll(g.handle)
		close(g.ended)
	}()
	return g
}

func (g *pollGate) handle(fd int, ev poller.Event) {
	atomic.AddInt64(&g.nrep, 1)
	if fd == -1 {
		if atomic.LoadInt32(&g.free) == 0 {
			g.atGate <- struct{}{}
			<-g.release
		}
		return
	}
	g.mu.Lock()
	if len(g.reports) < 1<<20 {
		g.reports = append(g.reports, pollRep{fd, ev})
	}
	f := g.onFd
	g.mu.Unlock()
	if f != nil {
		f(fd, ev)
	}
}

// enter wakes the poller and waits until it stands still in its notification.
func (g *pollGate) enter(what string) bool {
	if err := g.p.Wake(); err != nil {
		g.w.Violate("Wake on a running poller failed: %v (%s)", err, what)
		return false
	}
	return g.wait(what)
}

func (g *pollGate) wait(what string) bool {
	at := false
	return g.w.Await("a wake-up leads to the wake notification: "+what, nil, func() bool {
		if !at {
			select {
			case <-g.atGate:
				at = true
			default:
			}
		}
		return at
	})
}

// round lets polling run once more up to the next notification and returns
// what was reported in between.
func (g *pollGate) round(what string) ([]pollRep, bool) {
	g.mu.Lock()
	g.reports = nil
	g.mu.Unlock()
	if err := g.p.Wake(); err != nil { // before the release: the next batch contains it
		g.w.Violate("Wake on a running poller failed: %v (%s)", err, what)
		return nil, false
	}
	g.release <- struct{}{}
	if !g.wait(what) {
		return nil, false
	}
	g.mu.Lock()
	r := g.reports
	g.mu.Unlock()
	return r, true
}

// pfd is one descriptor under test and the harness's end(s) of it.
type pfd struct {
	fd    int
	peer  int // -1 once closed
	kind  string
	reg   int // 0 none, 1 read, 2 write, 3 both
	shut  bool
	state string
}

var regNames = []string{"none", "read", "write", "readwrite"}

func newPfd(w *W, kind string) *pfd {
	f := &pfd{kind: kind, peer: -1}
	switch kind {
	case "unix":
		p, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_NONBLOCK, 0)
		w.Must(err)
		f.fd, f.peer = p[0], p[1]
	case "tcp":
		l, err := unix.Socket(unix.AF_INET, unix.SOCK_STREAM, 0)
		w.Must(err)
		w.Must(unix.Bind(l, &unix.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}))
		w.Must(unix.Listen(l, 1))
		sa, err := unix.Getsockname(l)
		w.Must(err)
		f.peer, err = unix.Socket(unix.AF_INET, unix.SOCK_STREAM, 0)
		w.Must(err)
		w.Must(unix.Connect(f.peer, sa))
		f.fd, _, err = unix.Accept(l)
		w.Must(err)
		w.Must(unix.Close(l))
		w.Must(unix.SetNonblock(f.fd, true))
		w.Must(unix.SetNonblock(f.peer, true))
	case "piper":
		var p [2]int
		w.Must(unix.Pipe2(p[:], unix.O_NONBLOCK))
		f.fd, f.peer = p[0], p[1]
	case "pipew":
		var p [2]int
		w.Must(unix.Pipe2(p[:], unix.O_NONBLOCK))
		f.fd, f.peer = p[1], p[0]
	case "eventfd":
		r, _, e := unix.Syscall(unix.SYS_EVENTFD2, 0, unix.O_NONBLOCK, 0)
		if e != 0 {
			w.Fatal("eventfd: %v", e)
		}
		f.fd = int(r)
	}
	return f
}

func (f *pfd) close() {
	if f.fd >= 0 {
		_ = unix.Close(f.fd)
		f.fd = -1
	}
	f.closePeer()
}

func (f *pfd) closePeer() {
	if f.peer >= 0 {
		_ = unix.Close(f.peer)
		f.peer = -1
	}
}

const pollAll = unix.POLLIN | unix.POLLPRI | unix.POLLOUT | unix.POLLHUP | unix.POLLERR

// conditions returns poll(2)'s view of the descriptors.
func conditions(w *W, fs []*pfd) []int16 {
	ps := make([]unix.PollFd, len(fs))
	for i, f := range fs {
		ps[i] = unix.PollFd{Fd: int32(f.fd), Events: unix.POLLIN | unix.POLLPRI | unix.POLLOUT}
	}
	for {
		_, err := unix.Poll(ps, 0)
		if err == unix.EINTR {
			continue
		}
		w.Must(err)
		break
	}
	out := make([]int16, len(fs))
	for i := range ps {
		out[i] = ps[i].Revents & pollAll
	}
	return out
}

// due returns the events that must be reported and those that may be.
func due(reg int, c int16) (must, may poller.Event) {
	if reg == 0 {
		return 0, 0
	}
	if reg&1 != 0 && c&(unix.POLLIN|unix.POLLPRI) != 0 {
		must |= poller.EventRead
	}
	if reg&2 != 0 && c&unix.POLLOUT != 0 {
		must |= poller.EventWrite
	}
	may = must
	if c&unix.POLLERR != 0 {
		may |= poller.EventWrite | poller.EventErr
	}
	if c&unix.POLLHUP != 0 {
		switch {
		case c&unix.POLLIN == 0:
			must |= poller.EventErr
			may |= poller.EventErr
		case reg&1 == 0:
			// hung up with unread input nobody asked for
			may |= poller.EventErr
		}
	}
	return
}

func condName(c int16) string {
	var s []string
	for _, x := range []struct {
		b int16
		n string
	}{{unix.POLLIN, "in"}, {unix.POLLPRI, "pri"}, {unix.POLLOUT, "out"}, {unix.POLLHUP, "hup"}, {unix.POLLERR, "err"}} {
		if c&x.b != 0 {
			s = append(s, x.n)
		}
	}
	return strings.Join(s, "+")
}

func scenarioPoller(w *W) {
	g := newPollGate(w)
	n := w.Param("fds", 14)
	rounds := w.Scale(w.Param("rounds", 1500), 20*w.Param("rounds", 1500))
	many := w.Param("many", 0) != 0
	if w.Param("signals", 0) != 0 {
		quit := make(chan struct{})
		defer close(quit)
		pid := unix.Getpid()
		go func() { // interrupt the polling thread again and again
			for {
				select {
				case <-quit:
					return
				case <-g.ended:
					return
				default:
				}
				if t := atomic.LoadInt32(&g.tid); t != 0 {
					_ = unix.Tgkill(pid, int(t), unix.SIGURG)
					w.Ev("signals-sent", 1)
				}
				time.Sleep(150 * time.Microsecond)
			}
		}()
	}
	if !w.Await("poller starts", nil, func() bool { return atomic.LoadInt32(&g.tid) != 0 }) {
		return
	}
	if !g.enter("start") {
		return
	}
	kinds := []string{"unix", "tcp", "piper", "pipew", "eventfd", "unix", "tcp"}
	var fs []*pfd
	defer func() {
		for _, f := range fs {
			f.close()
		}
	}()
	for r := 0; r < rounds && !w.Violated(); r++ {
		// change descriptors and registrations while polling stands still
		if many {
			manyStep(w, g, &fs, n, r)
		} else {
			for len(fs) < n && (len(fs) < 3 || w.rng.Intn(3) > 0) {
				fs = append(fs, newPfd(w, kinds[w.rng.Intn(len(kinds))]))
			}
			ops := 1 + w.rng.Intn(2*n)
			for i := 0; i < ops && len(fs) > 0; i++ {
				k := w.rng.Intn(len(fs))
				if gone := pollOp(w, g.p, fs[k]); gone {
					fs[k].close()
					fs[k] = fs[len(fs)-1]
					fs = fs[:len(fs)-1]
				}
			}
		}
		if w.Violated() {
			break
		}
		if !pollJudge(w, g, fs, r) {
			break
		}
	}
	if w.Violated() {
		return
	}
	pollQuiet(w, g, fs)
	atomic.StoreInt32(&g.free, 1)
	g.release <- struct{}{}
	closePoller(w, g)
}

// pollQuiet: with nothing ready and no wake-ups, nothing is reported.
func pollQuiet(w *W, g *pollGate, fs []*pfd) {
	for _, f := range fs {
		if f.reg != 0 {
			w.opErr(g.p.Del(f.fd), "Del", f)
			f.reg = 0
		}
	}
	if w.Violated() {
		return
	}
	idle := newPfd(w, "unix")
	defer idle.close()
	w.opErr(g.p.AddRead(idle.fd), "AddRead", idle)
	if _, ok := g.round("drain"); !ok {
		return
	}
	if _, ok := g.round("drain"); !ok {
		return
	}
	// let polling run free, then watch it do nothing
	atomic.StoreInt32(&g.free, 1)
	g.release <- struct{}{}
	time.Sleep(5 * time.Millisecond)
	a := atomic.LoadInt64(&g.nrep)
	time.Sleep(60 * time.Millisecond)
	if d := atomic.LoadInt64(&g.nrep) - a; d > 3 {
		w.Violate("%d reports in 60 ms with nothing ready and no wake-up issued", d)
	}
	w.Case("quiet")
	atomic.StoreInt32(&g.free, 0)
	g.enter("after quiet")
	w.opErr(g.p.Del(idle.fd), "Del", idle)
}

func (w *W) opErr(err error, op string, f *pfd) {
	if err != nil {
		w.Violate("%s of a valid descriptor (%s, registered for %s) failed: %v", op, f.kind, regNames[f.reg], err)
	}
}

// pollOp applies one random change; true when the descriptor is to be dropped.
func pollOp(w *W, p *poller.Poller, f *pfd) bool {
	switch x := w.rng.Intn(20); {
	case x < 4: // register
		if f.reg == 0 {
			if w.rng.Intn(3) > 0 {
				w.opErr(p.AddRead(f.fd), "AddRead", f)
				f.reg = 1
			} else {
				w.opErr(p.AddWrite(f.fd), "AddWrite", f)
				f.reg = 2
			}
		}
	case x < 9: // modify
		if f.reg != 0 {
			switch w.rng.Intn(3) {
			case 0:
				w.opErr(p.EnableRead(f.fd), "EnableRead", f)
				f.reg = 1
			case 1:
				w.opErr(p.EnableWrite(f.fd), "EnableWrite", f)
				f.reg = 2
			case 2:
				w.opErr(p.EnableReadWrite(f.fd), "EnableReadWrite", f)
				f.reg = 3
			}
			w.Ev("modify", 1)
		}
	case x < 10:
		if f.reg != 0 {
			w.opErr(p.Del(f.fd), "Del", f)
			f.reg = 0
			w.Ev("delete", 1)
		}
	case x < 11: // descriptor goes away
		if f.reg != 0 && w.rng.Intn(2) == 0 {
			w.opErr(p.Del(f.fd), "Del", f)
		}
		w.Ev("closed", 1)
		return true
	case x < 14: // input arrives
		if f.kind == "eventfd" {
			_, _ = unix.Write(f.fd, []byte{1, 0, 0, 0, 0, 0, 0, 0})
		} else if f.peer >= 0 && f.kind != "pipew" {
			if f.kind == "tcp" && w.rng.Intn(3) == 0 {
				_, _ = unix.SendmsgN(f.peer, []byte("!"), nil, nil, unix.MSG_OOB|unix.MSG_NOSIGNAL|unix.MSG_DONTWAIT)
			} else {
				_, _ = unix.SendmsgN(f.peer, make([]byte, 1+w.rng.Intn(5000)), nil, nil, unix.MSG_NOSIGNAL|unix.MSG_DONTWAIT)
				if f.kind == "piper" {
					_, _ = unix.Write(f.peer, make([]byte, 1+w.rng.Intn(5000)))
				}
			}
		}
	case x < 16: // input is consumed, partly or wholly
		if f.kind != "pipew" {
			b := make([]byte, []int{8, 1 << 20}[w.rng.Intn(2)])
			_, _ = unix.Read(f.fd, b)
		}
	case x < 17: // output fills up
		if f.kind == "eventfd" {
			_, _ = unix.Write(f.fd, []byte{0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
		} else if f.kind != "piper" && f.peer >= 0 {
			b := make([]byte, 1<<16)
			for {
				n, err := unix.Write(f.fd, b)
				if n <= 0 || err != nil {
					break
				}
			}
		}
	case x < 18: // output drains
		if f.peer >= 0 && f.kind != "piper" {
			b := make([]byte, 1<<20)
			for i := 0; i < 16; i++ {
				if n, err := unix.Read(f.peer, b); n <= 0 || err != nil {
					break
				}
			}
		}
	case x < 19: // the peer half-closes, closes, or resets
		if f.peer < 0 {
			return w.rng.Intn(2) == 0
		}
		switch w.rng.Intn(3) {
		case 0:
			if f.kind == "unix" || f.kind == "tcp" {
				_ = unix.Shutdown(f.peer, []int{unix.SHUT_WR, unix.SHUT_RD, unix.SHUT_RDWR}[w.rng.Intn(3)])
				break
			}
			f.closePeer()
		case 1:
			f.closePeer()
		case 2:
			if f.kind == "tcp" {
				_ = unix.SetsockoptLinger(f.peer, unix.SOL_SOCKET, unix.SO_LINGER, &unix.Linger{Onoff: 1})
			}
			f.closePeer()
		}
	case x < 20: // our side half-closes
		if (f.kind == "unix" || f.kind == "tcp") && w.rng.Intn(3) == 0 {
			_ = unix.Shutdown(f.fd, []int{unix.SHUT_WR, unix.SHUT_RD}[w.rng.Intn(2)])
		}
	}
	return false
}

// manyStep makes thousands of descriptors ready at once.
func manyStep(w *W, g *pollGate, fs *[]*pfd, n, r int) {
	for len(*fs) < n {
		f := newPfd(w, "eventfd")
		*fs = append(*fs, f)
	}
	want := []int{n, 1023, 1024, 1025, 2047, 2048, 2049, 1, 0}[r%9]
	if want > n {
		want = n
	}
	var b [8]byte
	for i, f := range *fs {
		if f.reg == 0 {
			w.opErr(g.p.AddRead(f.fd), "AddRead", f)
			f.reg = 1
		}
		_, _ = unix.Read(f.fd, b[:])
		if i < want {
			_, _ = unix.Write(f.fd, []byte{1, 0, 0, 0, 0, 0, 0, 0})
		}
	}
}

func pollJudge(w *W, g *pollGate, fs []*pfd, r int) bool {
	for try := 0; ; try++ {
		if try == 50 {
			w.Inconclusive("readiness never settled")
			return false
		}
		before := conditions(w, fs)
		type want struct {
			f         *pfd
			c         int16
			must, may poller.Event
			got       poller.Event
		}
		byFd := map[int]*want{}
		ready := 0
		for i, f := range fs {
			must, may := due(f.reg, before[i])
			byFd[f.fd] = &want{f: f, c: before[i], must: must, may: may}
			if must != 0 {
				ready++
			}
		}
		// reports collected before the changes may still come in the first round
		if _, ok := g.round("first round"); !ok {
			return false
		}
		var strange []string
		limit := 3 + ready/8
		rounds := 0
		missing := 0
		for rounds = 1; rounds <= limit; rounds++ {
			reps, ok := g.round("judged round")
			if !ok {
				return false
			}
			for _, x := range reps {
				k := byFd[x.fd]
				w.Ev("reports", 1)
				switch {
				case k == nil:
					strange = append(strange, fmt.Sprintf("descriptor %d was reported (%#x) but is not registered at all", x.fd, x.ev))
				case k.f.reg == 0:
					strange = append(strange, fmt.Sprintf("%s descriptor was reported (%#x) but is not registered", k.f.kind, x.ev))
				case x.ev&^k.may != 0 || x.ev == 0:
					strange = append(strange, fmt.Sprintf("%s descriptor registered for %s, whose condition is %q, was reported with %#x", k.f.kind, regNames[k.f.reg], condName(k.c), x.ev))
				default:
					k.got |= x.ev
				}
			}
			missing = 0
			for _, k := range byFd {
				if k.must&^k.got != 0 {
					missing++
				}
			}
			if missing == 0 && rounds >= 2 {
				break
			}
		}
		after := conditions(w, fs)
		same := true
		for i := range after {
			if after[i] != before[i] {
				same = false
			}
		}
		if !same { // the network was still moving: judge again
			w.Ev("unsettled", 1)
			time.Sleep(time.Duration(try) * 100 * time.Microsecond)
			continue
		}
		for i, s := range strange {
			if i < 3 {
				w.Violate("step %d: %s", r, s)
			}
		}
		sig := map[string]int{}
		for _, k := range byFd {
			if k.must&^k.got != 0 {
				w.Violate("step %d: %s descriptor registered for %s, whose condition is %q, was reported with %#x only in %d polling rounds (%d of %d ready descriptors incomplete)", r, k.f.kind, regNames[k.f.reg], condName(k.c), k.got, rounds, missing, ready)
			}
			if k.f.reg != 0 {
				w.Ev("cond:"+condName(k.c), 1)
				sig[k.f.kind+"/"+regNames[k.f.reg]+"/"+condName(k.c)]++
			} else {
				sig["unregistered"]++
			}
		}
		var ks []string
		for k := range sig {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if len(fs) > 500 {
			ks = append(ks, fmt.Sprint("ready=", ready))
		}
		if len(ks) > 0 {
			w.Case(strings.Join(ks, " "))
		}
		return true
	}
}

func closePoller(w *W, g *pollGate) {
	done := make(chan error, 1)
	go func() { done <- g.p.Close() }()
	var err error
	got := false
	if !w.Await("Close returns", nil, func() bool {
		select {
		case err = <-done:
			got = true
		default:
		}
		return got
	}) {
		return
	}
	if err != nil {
		w.Violate("closing a running poller failed: %v", err)
	}
	w.Await("Poll returns after Close", nil, func() bool { return isClosed(g.ended) })
}

// scenarioPollWake: wake-ups issued from several goroutines while descriptors
// keep the poller busy, or not.
func scenarioPollWake(w *W) {
	for r := 0; r < 6 && !w.Violated(); r++ {
		pollWakeRound(w, r)
	}
}

func pollWakeRound(w *W, r int) {
	p, err := poller.Create()
	w.Must(err)
	wakers := []int{1, 2, 4, 8, 3, 1}[r]
	busy := r%2 == 1
	per := w.Scale(4000, 60000) / wakers
	var issued, seen, notes int64
	ended := make(chan struct{})
	var tid int32
	var f *pfd
	go func() {
		atomic.StoreInt32(&tid, 1)
		p.Poll(func(fd int, ev poller.Event) {
			if fd != -1 {
				if busy {
					runtime.Gosched()
				}
				return
			}
			// everything issued before this point is covered by this notification
			n := atomic.LoadInt64(&issued)
			atomic.AddInt64(&notes, 1)
			for {
				o := atomic.LoadInt64(&seen)
				if n <= o || atomic.CompareAndSwapInt64(&seen, o, n) {
					break
				}
			}
		})
		close(ended)
	}()
	if busy {
		f = newPfd(w, "eventfd")
		defer f.close()
		_, _ = unix.Write(f.fd, []byte{1, 0, 0, 0, 0, 0, 0, 0})
		w.Must(p.AddRead(f.fd))
	}
	// Poll counts as running once a wake-up has been answered
	atomic.AddInt64(&issued, 1)
	w.Must(p.Wake())
	w.Await("the first wake-up is answered", nil, func() bool { return atomic.LoadInt64(&seen) >= 1 })
	var wg sync.WaitGroup
	for k := 0; k < wakers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < per && !w.Violated(); i++ {
				x := atomic.AddInt64(&issued, 1)
				if err := p.Wake(); err != nil {
					w.Violate("Wake on a running poller failed: %v", err)
					return
				}
				if (i+k)%3 != 0 || i == per-1 {
					w.Await(fmt.Sprintf("wake-up %d of waker %d leads to a notification", i, k), nil, func() bool { return atomic.LoadInt64(&seen) >= x })
				}
			}
		}(k)
	}
	wg.Wait()
	if w.Violated() {
		return
	}
	w.Ev("wakes", atomic.LoadInt64(&issued))
	w.Ev("notifications", atomic.LoadInt64(&notes))
	if n, i := atomic.LoadInt64(&notes), atomic.LoadInt64(&issued); n > i {
		w.Violate("%d notifications for %d wake-ups", n, i)
	}
	w.Case(fmt.Sprintf("wakers=%d busy=%v coalesced=%v", wakers, busy, atomic.LoadInt64(&notes) < atomic.LoadInt64(&issued)))
	w.Must(p.Close())
	<-ended
}

// scenarioPollClose: pollers closed from several goroutines in every state.
func scenarioPollClose(w *W) {
	n := w.Scale(1500, 20000)
	base := countFDs()
	for r := 0; r < n && !w.Violated(); r++ {
		pollCloseRound(w, r)
		if r%300 == 299 {
			if x := countFDs(); x != base {
				w.Violate("%d descriptors before, %d after creating and closing %d pollers", base, x, r+1)
			}
		}
	}
}

func pollCloseRound(w *W, r int) {
	p, err := poller.Create()
	w.Must(err)
	busy := w.rng.Intn(2) == 0
	closers := 1 + w.rng.Intn(4)
	wakers := w.rng.Intn(3)
	spin := w.rng.Intn(200)
	mode := r % 3 // 0: first wait for a notification, 1: for any sign of polling, 2: close again and again until it works
	var f *pfd
	if busy {
		f = newPfd(w, "eventfd")
		defer f.close()
		_, _ = unix.Write(f.fd, []byte{1, 0, 0, 0, 0, 0, 0, 0})
		w.Must(p.AddRead(f.fd))
	}
	var calls, inside, closed int64
	started, ended := make(chan struct{}), make(chan struct{})
	var once sync.Once
	go func() {
		if mode == 2 {
			once.Do(func() { close(started) })
		}
		p.Poll(func(fd int, ev poller.Event) {
			atomic.AddInt64(&inside, 1)
			atomic.AddInt64(&calls, 1)
			if atomic.LoadInt64(&closed) != 0 {
				w.Violate("handler called (descriptor %d) after Close returned", fd)
			}
			if fd == -1 || mode == 1 && busy {
				once.Do(func() { close(started) })
			}
			for i := 0; i < spin; i++ {
				if i&15 == 0 {
					runtime.Gosched()
				}
			}
			if atomic.LoadInt64(&closed) != 0 {
				w.Violate("Close returned while the handler was still running")
			}
			atomic.AddInt64(&inside, -1)
		})
		close(ended)
	}()
	if mode == 0 || mode == 1 && !busy {
		w.Must(p.Wake())
	}
	if !w.Await("a notification or report", nil, func() bool { return isClosed(started) }) {
		return
	}
	stop := make(chan struct{})
	var wg, cg sync.WaitGroup
	for i := 0; i < wakers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !isClosed(stop) {
				_ = p.Wake() // racing with Close: may fail, must not harm
				runtime.Gosched()
			}
		}()
	}
	var okN, errN int64
	for i := 0; i < closers; i++ {
		cg.Add(1)
		go func() {
			defer cg.Done()
			for {
				err := p.Close()
				if err == nil {
					atomic.AddInt64(&okN, 1)
					atomic.StoreInt64(&closed, 1)
					return
				}
				atomic.AddInt64(&errN, 1)
				if mode != 2 || atomic.LoadInt64(&okN) != 0 {
					return
				}
				runtime.Gosched() // polling may not have begun
			}
		}()
	}
	all := make(chan struct{})
	go func() { cg.Wait(); close(all) }()
	if !w.Await(fmt.Sprintf("all %d calls of Close return and Poll ends", closers), nil, func() bool { return isClosed(all) && isClosed(ended) }) {
		close(stop)
		return
	}
	close(stop)
	wg.Wait()
	if okN != 1 {
		w.Violate("%d of %d concurrent calls of Close on a running poller succeeded", okN, closers)
	}
	if err := p.Close(); err == nil {
		w.Violate("closing a closed poller succeeded")
	}
	_ = p.Wake() // must not reach anybody's descriptor
	w.Ev("closes", 1)
	w.Case(fmt.Sprintf("closers=%d wakers=%d busy=%v mode=%d", closers, wakers, busy, mode))
	if r%50 == 0 {
		q, err := poller.Create()
		w.Must(err)
		if q.Close() == nil {
			w.Violate("closing a poller that never ran succeeded")
		}
		// not running: release what it holds by running it to its end
		end := make(chan struct{})
		go func() { q.Poll(func(int, poller.Event) {}); close(end) }()
		w.Await("a poller that was closed too early can still be run and closed", nil, func() bool { return q.Close() == nil || isClosed(end) })
		w.Await("its Poll ends", nil, func() bool { return isClosed(end) })
	}
}
