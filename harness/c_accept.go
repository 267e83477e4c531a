package main

import (
	"fmt"
	"math/rand"
	"net"
	"sync/atomic"
	"time"

	"golang.org/x/sys/unix"
)

// The accept scenario lets the process run out of descriptors while peers are
// waiting, with established connections that must keep being served, and then
// makes descriptors available again (C29).

func init() {
	scenarios["accept"] = scenarioAccept
	register("C29", &Property{
		Rule: "a case is one episode: descriptors left when the limit is set (0..n), waiting peers (silent, talking, half-closing, resetting), how the shortage ends (limit raised at once or step by step, or established connections closing); checked: established connections are served during the shortage, every waiting peer is served exactly once afterwards, callbacks and descriptors balance. Non-trivial: identified by descriptors left, number and kinds of peers and the way the shortage ended",
		Assumptions: []string{
			"the descriptor limit of the process (RLIMIT_NOFILE) is how accepting is made to fail",
			"the kernel completes connections to a listening socket without the server accepting them",
		},
		Par: 5,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "basic", Scenario: "accept"},
				{Name: "steps", Scenario: "accept", Seed: 1, P: map[string]int{"steps": 1}},
				{Name: "closing", Scenario: "accept", Seed: 2, P: map[string]int{"closing": 1}},
				{Name: "aborts", Scenario: "accept", Seed: 3, P: map[string]int{"aborts": 1}},
				{Name: "mixed-pert", Scenario: "accept", Seed: 4, Perturb: 1, P: map[string]int{"mixed": 1}},
				{Name: "mixed-race", Scenario: "accept", Seed: 5, Race: true, P: map[string]int{"mixed": 1}},
				{Name: "mixed-procs2", Scenario: "accept", Seed: 6, Procs: 2, P: map[string]int{"mixed": 1}},
			}
			return js
		},
		Races: true,
	})
}

// rawPeer is a client on a descriptor created ahead of the shortage.
type rawPeer struct {
	fd     int
	la     string
	kind   int // 0 talks at once, 1 silent until served, 2 half-closes after talking, 3 resets, 4 talks then closes
	key    uint64
	sent   []byte
	got    []byte
	eof    bool
	err    error
	done   bool
	talked bool
}

func rawDial(w *W, fd int, addr string) string {
	ta, err := net.ResolveTCPAddr("tcp4", addr)
	w.Must(err)
	sa := &unix.SockaddrInet4{Port: ta.Port}
	copy(sa.Addr[:], ta.IP.To4())
	for {
		err = unix.Connect(fd, sa)
		if err != unix.EINTR {
			break
		}
	}
	w.Must(err)
	la, err := unix.Getsockname(fd)
	w.Must(err)
	w.Must(unix.SetNonblock(fd, true))
	return saString(la)
}

func (p *rawPeer) pump() {
	if p.done || p.fd < 0 {
		return
	}
	var b [4096]byte
	for {
		n, err := unix.Read(p.fd, b[:])
		if n > 0 {
			p.got = append(p.got, b[:n]...)
			continue
		}
		if err == unix.EAGAIN || err == unix.EINTR {
			return
		}
		p.done, p.eof, p.err = true, err == nil, err
		return
	}
}

func (p *rawPeer) talk(n int) {
	b := pattern(n, p.key, int64(len(p.sent)))
	if _, err := unix.SendmsgN(p.fd, b, nil, nil, unix.MSG_NOSIGNAL); err == nil {
		p.sent = append(p.sent, b...)
	}
	p.talked = true
}

func (p *rawPeer) ok() bool { return len(p.got) == len(p.sent) && mismatch(p.got, p.key, 0) < 0 }

func scenarioAccept(w *W) {
	warmUp(w)
	n := w.Scale(w.Param("episodes", 40), 20*w.Param("episodes", 40))
	for r := 0; r < n && !w.Violated(); r++ {
		acceptRound(w, r)
	}
}

func acceptRound(w *W, r int) {
	before := takeInventory()
	rng := rand.New(rand.NewSource(w.Seed + int64(r)*977))
	loops := 1 + rng.Intn(4)
	srv := w.startServer(SrvOpt{Loops: loops, Mon: echoMon(w)})
	// established connections
	est := make([]*rawPeer, 1+rng.Intn(8))
	sock := func() int {
		fd, err := unix.Socket(unix.AF_INET, unix.SOCK_STREAM|unix.SOCK_CLOEXEC, 0)
		w.Must(err)
		return fd
	}
	for i := range est {
		est[i] = &rawPeer{fd: sock(), key: splitmix(uint64(r*1000 + i))}
		est[i].la = rawDial(w, est[i].fd, srv.addr)
	}
	if !w.Await("established connections are announced", srv.Progress, func() bool { return atomic.LoadInt64(&srv.nConnect) == int64(len(est)) }) {
		return
	}
	served := func(p *rawPeer, what string) bool {
		p.talk(1 + rng.Intn(300))
		return w.Await(what, func() int64 { return int64(len(p.got)) }, func() bool {
			p.pump()
			return p.ok() || p.done
		}) && func() bool {
			if !p.ok() {
				w.V("C29", "%s: stream ended or differs (%d of %d bytes, eof=%v err=%v)", what, len(p.got), len(p.sent), p.eof, p.err)
				return false
			}
			return true
		}()
	}
	for _, p := range est {
		if !served(p, "established connection before the shortage") {
			return
		}
	}
	// peers, with their descriptors, ahead of the shortage
	waiting := make([]*rawPeer, 1+rng.Intn(40))
	kinds := [5]int{}
	for i := range waiting {
		kind := rng.Intn(3)
		if w.Param("aborts", 0) != 0 && rng.Intn(2) == 0 || w.Param("mixed", 0) != 0 && rng.Intn(4) == 0 {
			kind = 3 + rng.Intn(2)
		}
		kinds[kind]++
		waiting[i] = &rawPeer{fd: sock(), kind: kind, key: splitmix(uint64(r*1000+i) ^ 0xabcdef)}
	}
	left := rng.Intn(len(waiting) + 1)
	if rng.Intn(3) == 0 {
		left = 0
	}
	if rng.Intn(6) == 0 {
		left = len(waiting) - 1
	}
	restore, cur := limitFree(w, left)
	var full unix.Rlimit
	w.Must(unix.Getrlimit(unix.RLIMIT_NOFILE, &full))
	for _, p := range waiting {
		p.la = rawDial(w, p.fd, srv.addr)
		switch p.kind {
		case 0:
			p.talk(1 + rng.Intn(500))
		case 2:
			p.talk(1 + rng.Intn(500))
			_ = unix.Shutdown(p.fd, unix.SHUT_WR)
		case 3:
			if rng.Intn(2) == 0 {
				p.talk(1 + rng.Intn(500))
			}
			_ = unix.SetsockoptLinger(p.fd, unix.SOL_SOCKET, unix.SO_LINGER, &unix.Linger{Onoff: 1})
			_ = unix.Close(p.fd)
			p.fd = -1
		case 4:
			p.talk(1 + rng.Intn(500))
			_ = unix.Close(p.fd)
			p.fd = -1
		}
	}
	alive := int64(0)
	for _, p := range waiting {
		if p.fd >= 0 {
			alive++
		}
	}
	// the shortage: established connections are served all the same
	for k := 0; k < 3; k++ {
		for _, p := range est {
			if !served(p, "established connection during the shortage") {
				restore()
				return
			}
		}
		if k == 0 {
			time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
		}
	}
	stuck := 0
	for _, p := range waiting {
		if p.fd >= 0 && srv.ByPeer(p.la) == nil {
			stuck++
		}
	}
	w.Ev("peers-waiting-at-limit", int64(stuck))
	if stuck > 0 {
		w.Ev("episodes-at-limit", 1)
	}
	how := 0
	if w.Param("steps", 0) != 0 || w.Param("mixed", 0) != 0 && rng.Intn(3) == 0 {
		how = 1
	}
	if w.Param("closing", 0) != 0 || w.Param("mixed", 0) != 0 && rng.Intn(3) == 0 {
		how = 2
	}
	nServed := func() (n int) {
		for _, p := range waiting {
			if p.fd >= 0 && srv.ByPeer(p.la) != nil {
				n++
			}
		}
		return
	}
	switch how {
	case 1: // descriptors come back a few at a time
		for nServed() < int(alive) && cur < before0Limit(w) {
			cur += uint64(1 + rng.Intn(5))
			w.Must(unix.Setrlimit(unix.RLIMIT_NOFILE, &unix.Rlimit{Cur: cur, Max: full.Max}))
			n0 := nServed()
			t0 := time.Now()
			for nServed() == n0 && time.Since(t0) < 2*time.Millisecond {
				time.Sleep(100 * time.Microsecond)
			}
			for _, p := range est {
				if rng.Intn(3) == 0 && !served(p, "established connection while descriptors come back") {
					restore()
					return
				}
			}
		}
	case 2: // established connections go, which makes room
		for len(est) > 1 && stuck > 0 {
			p := est[len(est)-1]
			est = est[:len(est)-1]
			want := nServed() + 1
			if c := int(alive); want > c {
				want = c
			}
			cs := srv.ByPeer(p.la)
			_ = unix.Close(p.fd) // frees one descriptor here and one in the server
			if !w.Await("a waiting peer takes the place of a connection that ended", srv.Progress, func() bool {
				return (cs == nil || cs.Closed()) && (nServed() >= want || aborted(waiting) && srv.nAccepted() >= alive)
			}) {
				restore()
				return
			}
		}
	}
	restore()
	// everybody who is still waiting is served
	for _, p := range waiting {
		if p.fd < 0 {
			continue
		}
		p := p
		if !w.Await(fmt.Sprintf("a peer that waited during the shortage is accepted (kind %d; %d of %d were)", p.kind, nServed(), alive), srv.Progress, func() bool { return srv.ByPeer(p.la) != nil }) {
			return
		}
	}
	for _, p := range waiting {
		switch p.kind {
		case 0, 1:
			if !served(p, "peer that waited during the shortage") {
				return
			}
		case 2:
			if !w.Await("half-closed peer that waited gets its answer and the end of its stream", func() int64 { return int64(len(p.got)) }, func() bool { p.pump(); return p.done }) {
				return
			}
			if !p.eof || !p.ok() {
				w.V("C29", "half-closed peer that waited got %d of %d bytes, eof=%v err=%v", len(p.got), len(p.sent), p.eof, p.err)
			}
		}
	}
	for _, p := range est {
		if !served(p, "established connection after the shortage") {
			return
		}
	}
	// a fresh one too
	c, _ := srv.DialCS(0, 0)
	if !w.echoOnce(c, "new connection after the shortage", uint64(r+9)) {
		return
	}
	_ = c.Close()
	// once each
	seen := map[string]int{}
	for _, cs := range srv.All() {
		seen[cs.peer]++
	}
	for _, p := range waiting {
		if n := seen[p.la]; n > 1 || n == 0 && p.fd >= 0 {
			w.V("C29", "a peer that waited during the shortage had %d connect callbacks", n)
		}
	}
	for _, p := range append(append([]*rawPeer{}, est...), waiting...) {
		if p.fd >= 0 {
			_ = unix.Close(p.fd)
		}
	}
	if !w.Await("every connection is closed", srv.Progress, func() bool { return srv.Open() == 0 }) {
		return
	}
	if !w.Await("connection counts return to zero", nil, func() bool { _, sum := srv.Counts(); return sum == 0 }) {
		return
	}
	if !srv.Stop() {
		return
	}
	if extra := fdsBeyond(w, before); len(extra) > 0 {
		w.V("C29", "descriptors left after the shortage: %v", extra)
	}
	w.Case(fmt.Sprintf("loops=%d left=%d waiting=%d kinds=%v end=%d stuck=%d", loops, left, len(waiting), kinds, how, stuck))
}

func aborted(ps []*rawPeer) bool {
	for _, p := range ps {
		if p.fd < 0 {
			return true
		}
	}
	return false
}

func (s *Srv) nAccepted() int64 { return atomic.LoadInt64(&s.nConnect) }

func before0Limit(w *W) uint64 { return 15000 }

// fdsBeyond waits for the descriptor table to return to what it was.
func fdsBeyond(w *W, l leftovers) (extra []string) {
	_, _ = w.awaitFor(5*time.Second, func() bool {
		extra = extra[:0]
		for fd, x := range listFDs() {
			if l.fds[fd] != x {
				extra = append(extra, fmt.Sprintf("%d -> %s%s", fd, x, fdRole(fd)))
			}
		}
		return len(extra) == 0
	})
	return
}
