package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/ringbuffer"
	"golang.org/x/sys/unix"
)

// The construction scenarios create servers with every kind of option, on
// usable and unusable addresses and with any number of descriptors left, and
// inspect what they own, or what they left behind (C28).

func init() {
	scenarios["options"] = scenarioOptions
	scenarios["badbuild"] = scenarioBadBuild
	scenarios["fdsweep"] = scenarioFdSweep
	scenarios["reuseport"] = scenarioReusePort
	register("C28", &Property{
		Rule: "a case is one attempt to create a server: with random options (then served, inspected and stopped), with an unusable handler, network or address, on an address in use, with only k descriptors left, or sharing an address with port reuse. Non-trivial: identified by the option values, the kind of obstacle, the number of descriptors left and the outcome",
		Assumptions: []string{
			"the process's descriptor table and goroutine dump show what was left behind",
			"with port reuse the kernel decides which server gets a connection",
		},
		Par: 5,
		jobs: func(tier string) []Job {
			return []Job{
				{Name: "options", Scenario: "options"},
				{Name: "options-pert", Scenario: "options", Seed: 1, Perturb: 1},
				{Name: "failures", Scenario: "badbuild", Seed: 2},
				{Name: "descriptors", Scenario: "fdsweep", Seed: 3},
				{Name: "descriptors-pert", Scenario: "fdsweep", Seed: 4, Perturb: 1},
				{Name: "reuseport", Scenario: "reuseport", Seed: 5},
				{Name: "reuseport-pert", Scenario: "reuseport", Seed: 6, Perturb: 1},
				{Name: "options-race", Scenario: "options", Seed: 7, Race: true},
			}
		},
		Races: true,
	})
}

// tagProto is a protocol with an identity that counts its use.
type tagProto struct {
	gev.DefaultProtocol
	used int64
}

func (p *tagProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	atomic.AddInt64(&p.used, 1)
	return p.DefaultProtocol.UnPacket(c, b)
}

func (p *tagProto) Packet(c *gev.Connection, data interface{}) []byte {
	return p.DefaultProtocol.Packet(c, data)
}

// leftovers compares the process with what it was before.
type leftovers struct {
	fds    map[int]string
	g      int
	libG   int
	taken  time.Time
	points int64
}

func takeInventory() leftovers {
	l := leftovers{fds: listFDs(), g: runtime.NumGoroutine(), taken: time.Now()}
	l.libG, _ = libGoroutineCount()
	return l
}

// same waits until nothing more is there than before.
func (w *W) same(l leftovers, what string) bool {
	var extra []string
	g := 0
	ok, _ := w.awaitFor(5*time.Second, func() bool {
		extra = extra[:0]
		for fd, x := range listFDs() {
			if l.fds[fd] != x {
				extra = append(extra, fmt.Sprintf("%d -> %s%s", fd, x, fdRole(fd)))
			}
		}
		g = runtime.NumGoroutine()
		return len(extra) == 0 && g <= l.g
	})
	if ok {
		return true
	}
	sort.Strings(extra)
	if len(extra) > 0 {
		w.V("C28,C08", "%s: descriptors left behind: %v", what, extra)
	}
	if g > l.g {
		n, dump := libGoroutineCount()
		if n > l.libG {
			w.V("C28,C08", "%s: %d goroutines left behind:\n%s", what, n-l.libG, dump)
		} else {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			w.V("C28,C08", "%s: %d goroutines, %d before:\n%s", what, g, l.g, tail(string(buf), 2500))
		}
	}
	return false
}

func fdRole(fd int) string {
	if v, err := unix.GetsockoptInt(fd, unix.SOL_SOCKET, unix.SO_ACCEPTCONN); err == nil && v == 1 {
		sa, _ := unix.Getsockname(fd)
		return " (listening on " + saString(sa) + ")"
	}
	return ""
}

// awaitFor polls cond for at most d of wall time and 500 control round trips.
func (w *W) awaitFor(d time.Duration, cond func() bool) (bool, bool) {
	t0, trips := time.Now(), atomic.LoadInt64(&controlTrips)
	for i := 0; ; i++ {
		if cond() {
			return true, false
		}
		if time.Since(t0) > d && atomic.LoadInt64(&controlTrips)-trips > 500 {
			return cond(), true
		}
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
}

func freePort(host string) int {
	for i := 0; i < 200; i++ {
		p := nextPort()
		l, err := net.Listen("tcp", net.JoinHostPort(host, strconv.Itoa(p)))
		if err == nil {
			_ = l.Close()
			return p
		}
	}
	theW.Fatal("no free port")
	return 0
}

// echoOnce sends a message and expects it back.
func (w *W) echoOnce(c net.Conn, what string, key uint64) bool {
	b := pattern(1+int(key%700), key, 0)
	if _, err := c.Write(b); err != nil {
		w.Violate("%s: %v", what, err)
		return false
	}
	r := make([]byte, len(b))
	if err := w.readN(what, c, r); err != nil {
		w.Violate("%s: %v", what, err)
		return false
	}
	if mismatch(r, key, 0) >= 0 {
		w.Violate("%s: wrong bytes came back", what)
		return false
	}
	return true
}

func echoMon(w *W) *Mon {
	m := newMon(w)
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} { return append([]byte{}, data...) }
	return m
}

func scenarioOptions(w *W) {
	n := w.Scale(80, 1500)
	warmUp(w)
	for r := 0; r < n && !w.Violated(); r++ {
		optionsRound(w, r)
	}
}

// warmUp lets the runtime and the net package open what they keep open.
func warmUp(w *W) {
	s := w.startServer(SrvOpt{Loops: 1, Mon: echoMon(w)})
	c, _ := s.DialCS(0, 0)
	w.echoOnce(c, "warm-up", 3)
	_ = c.Close()
	s.Stop()
	time.Sleep(20 * time.Millisecond)
}

func optionsRound(w *W, r int) {
	before := takeInventory()
	host := workerIP()
	m := echoMon(w)
	var opts []gev.Option
	addr := net.JoinHostPort(host, strconv.Itoa(freePort(host)))
	mode := w.rng.Intn(12)
	switch mode {
	case 0:
		if l, err := net.Listen("tcp", "[::1]:0"); err == nil {
			addr = l.Addr().String()
			_ = l.Close()
		}
	case 1:
		p := freePort("")
		addr = ":" + strconv.Itoa(p)
	}
	opts = append(opts, gev.Address(addr))
	loops := []int{1, 2, 3, 5, 8, 17, 0, -1, -7}[w.rng.Intn(9)]
	setLoops := w.rng.Intn(5) > 0
	if setLoops {
		opts = append(opts, gev.NumLoops(loops))
	} else {
		loops = 0
	}
	want := loops
	if want <= 0 {
		want = runtime.NumCPU()
	}
	reuse := w.rng.Intn(2) == 0
	if reuse || w.rng.Intn(2) == 0 {
		opts = append(opts, gev.ReusePort(reuse))
	}
	idle := time.Duration(0)
	if w.rng.Intn(2) == 0 {
		idle = time.Duration(1+w.rng.Intn(1000)) * time.Hour
		opts = append(opts, gev.IdleTime(idle))
	}
	var proto gev.Protocol
	if w.rng.Intn(2) == 0 {
		proto = &tagProto{}
		opts = append(opts, gev.CustomProtocol(proto))
	}
	network := "tcp"
	if w.rng.Intn(3) == 0 {
		if mode > 1 && w.rng.Intn(2) == 0 {
			network = "tcp4"
		}
		opts = append(opts, gev.Network(network))
	}
	if w.rng.Intn(3) == 0 { // accepted, without effect on serving
		opts = append(opts, gev.MetricsServer("/metrics", "127.0.0.1:0"))
	}
	var smu sync.Mutex
	distinct := map[*eventloop.EventLoop]int{}
	var calls, badLen int64
	rr := 0
	strategy := func(ls []*eventloop.EventLoop) *eventloop.EventLoop {
		m.learn(ls)
		smu.Lock()
		defer smu.Unlock()
		calls++
		if len(ls) != want {
			badLen = int64(len(ls))
		}
		for _, l := range ls {
			distinct[l]++
		}
		l := ls[rr%len(ls)]
		rr++
		return l
	}
	custom := w.rng.Intn(4) > 0
	if custom {
		opts = append(opts, gev.LoadBalance(strategy))
	}
	rand.New(rand.NewSource(int64(r))).Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	s, err := gev.NewServer(m, opts...)
	if err != nil {
		w.V("C28", "creating a server with valid options on the free address %s failed: %v", addr, err)
		return
	}
	o := s.Options()
	if o.Address != addr || o.Network != network || o.NumLoops != want && o.NumLoops != loops || o.ReusePort != reuse || o.IdleTime != idle {
		w.V("C28", "given address=%s network=%s loops=%d reuse=%v idle=%v; Options() shows address=%s network=%s loops=%d reuse=%v idle=%v", addr, network, loops, reuse, idle, o.Address, o.Network, o.NumLoops, o.ReusePort, o.IdleTime)
	}
	if proto != nil && o.Protocol != proto {
		w.V("C28", "the given protocol is not the one Options() shows")
	}
	if o.Protocol == nil || o.Strategy == nil {
		w.V("C28", "no protocol or strategy in effect by default")
	}
	// the address is taken
	if l, err := net.Listen(network, addr); err == nil {
		_ = l.Close()
		w.V("C28", "after NewServer(%s) returned, another listener could be created there", addr)
	}
	_, ps, _ := net.SplitHostPort(addr)
	port, _ := strconv.Atoi(ps)
	srv := &Srv{Mon: m, s: s, addr: addr, port: port, stopped: make(chan struct{})}
	srv.Go()
	dial := addr
	if mode == 1 {
		dial = net.JoinHostPort(host, ps)
	}
	k := want + w.rng.Intn(3)
	if k > 12 {
		k = 12
	}
	var cs []net.Conn
	for i := 0; i < k; i++ {
		c := w.dial(dial, 0, 0)
		cs = append(cs, c)
		if !w.echoOnce(c, "echo on a new server", splitmix(uint64(r*100+i))) {
			return
		}
	}
	if got := atomic.LoadInt64(&m.nConnect); got != int64(k) {
		w.V("C28", "%d connections, %d connect callbacks", k, got)
	}
	if custom {
		smu.Lock()
		if badLen != 0 || len(distinct) != want || calls != int64(k) {
			w.V("C28", "%d loops configured; the strategy, called %d times for %d connections, saw %d different loops (length %d)", want, calls, k, len(distinct), badLen)
		}
		smu.Unlock()
		// each loop is a goroutine of its own
		gids := map[int64]bool{}
		used := 0
		m.lmu.Lock()
		for _, l := range m.order {
			if g := atomic.LoadInt64(&l.gid); g != 0 {
				used++
				gids[g] = true
			}
		}
		m.lmu.Unlock()
		exp := k
		if exp > want {
			exp = want
		}
		if used != exp || len(gids) != used {
			w.V("C28", "%d connections over %d loops were served by %d loops on %d goroutines", k, want, used, len(gids))
		}
	}
	if tp, ok := proto.(*tagProto); ok && atomic.LoadInt64(&tp.used) == 0 {
		w.V("C28", "the given protocol was never used")
	}
	for _, c := range cs {
		_ = c.Close()
	}
	if !srv.Stop() {
		return
	}
	w.same(before, "after stopping a server")
	w.Case(fmt.Sprintf("options loops=%d set=%v reuse=%v idle=%v proto=%v net=%s addr=%d custom=%v", loops, setLoops, reuse, idle > 0, proto != nil, network, mode*b2i(mode < 2), custom))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func scenarioBadBuild(w *W) {
	warmUp(w)
	dir, err := os.MkdirTemp("", "gevverif-sock-")
	w.Must(err)
	defer os.RemoveAll(dir)
	// a server that has to stay undisturbed
	host := workerIP()
	victim := w.startServer(SrvOpt{Loops: 2, Mon: echoMon(w)})
	vc, _ := victim.DialCS(0, 0)
	foreign, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	w.Must(err)
	sharedA := w.startServer(SrvOpt{Loops: 1, Mon: echoMon(w), Extra: []gev.Option{gev.ReusePort(true)}})
	// both have to have started completely before anything is counted
	w.echoOnce(vc, "first connection", 21)
	ac, _ := sharedA.DialCS(0, 0)
	w.echoOnce(ac, "first connection of the sharing server", 22)
	type bad struct {
		name string
		opts []gev.Option
		h    func() gev.Handler
	}
	h := func() gev.Handler { return echoMon(w) }
	cases := []bad{
		{"nil handler", nil, func() gev.Handler { return nil }},
		{"nil handler, address in use", []gev.Option{gev.Address(victim.addr)}, func() gev.Handler { return nil }},
		{"port out of range", []gev.Option{gev.Address(host + ":99999")}, h},
		{"negative port", []gev.Option{gev.Address(host + ":-1")}, h},
		{"no port", []gev.Option{gev.Address(host)}, h},
		{"garbage address", []gev.Option{gev.Address("::::")}, h},
		{"bad bracket", []gev.Option{gev.Address("[::1:80")}, h},
		{"foreign address", []gev.Option{gev.Address("192.0.2.77:22001")}, h},
		{"foreign v6 address", []gev.Option{gev.Address("[2001:db8::77]:22001")}, h},
		{"v4 address on tcp6", []gev.Option{gev.Network("tcp6"), gev.Address(host + ":22003")}, h},
		{"unknown network", []gev.Option{gev.Network("tcp9"), gev.Address(host + ":22002")}, h},
		{"udp", []gev.Option{gev.Network("udp"), gev.Address(host + ":22002")}, h},
		{"unix", []gev.Option{gev.Network("unix"), gev.Address(filepath.Join(dir, "s"))}, h},
		{"unix in a missing directory", []gev.Option{gev.Network("unix"), gev.Address(filepath.Join(dir, "none", "s"))}, h},
		{"unixpacket", []gev.Option{gev.Network("unixpacket"), gev.Address(filepath.Join(dir, "p"))}, h},
		{"in use by a server", []gev.Option{gev.Address(victim.addr)}, h},
		{"in use by a foreign listener", []gev.Option{gev.Address(foreign.Addr().String())}, h},
		{"in use by a sharing server, itself not sharing", []gev.Option{gev.Address(sharedA.addr)}, h},
		{"wildcard over an address in use", []gev.Option{gev.Network("tcp4"), gev.Address(":" + strconv.Itoa(victim.port))}, h},
	}
	reps := w.Scale(12, 120)
	for r := 0; r < reps && !w.Violated(); r++ {
		before := takeInventory()
		for _, b := range cases {
			for _, reuse := range []bool{false, true} {
				if reuse && b.name == "in use by a sharing server, itself not sharing" {
					continue // that is allowed
				}
				loops := 1 + w.rng.Intn(4)
				opts := append([]gev.Option{gev.NumLoops(loops), gev.ReusePort(reuse)}, b.opts...)
				s, err := gev.NewServer(b.h(), opts...)
				if err == nil {
					w.V("C28", "creating a server succeeded: %s (port reuse %v)", b.name, reuse)
					_ = s
				}
				if left, _ := filepath.Glob(filepath.Join(dir, "*")); len(left) > 0 {
					w.V("C28", "%s: left %v behind", b.name, left)
					for _, f := range left {
						_ = os.Remove(f)
					}
				}
				w.Case(fmt.Sprintf("refused: %s reuse=%v", b.name, reuse))
				if w.Violated() {
					return
				}
			}
			if !w.same(before, "after the refused construction ("+b.name+")") {
				return
			}
		}
		// whoever had the address before is undisturbed
		if !w.echoOnce(vc, "existing connection of the server whose address was asked for", uint64(r)*7+5) {
			return
		}
		c := victim.Dial()
		if !w.echoOnce(c, "new connection to the server whose address was asked for", uint64(r)*11+5) {
			return
		}
		_ = c.Close()
		// many at once for one free address: exactly one gets it
		p := freePort(host)
		addr := net.JoinHostPort(host, strconv.Itoa(p))
		var wg sync.WaitGroup
		var mu sync.Mutex
		var won []*gev.Server
		mons := make([]*Mon, 5)
		for i := range mons {
			wg.Add(1)
			mons[i] = echoMon(w)
			go func(i int) {
				defer wg.Done()
				s, err := gev.NewServer(mons[i], gev.Address(addr), gev.NumLoops(2))
				if err == nil {
					mu.Lock()
					won = append(won, s)
					mons[0] = mons[i]
					mu.Unlock()
				}
			}(i)
		}
		wg.Wait()
		if len(won) != 1 {
			w.V("C28", "%d of 5 concurrent constructions got the same address", len(won))
			return
		}
		srv := &Srv{Mon: mons[0], s: won[0], addr: addr, port: p, stopped: make(chan struct{})}
		srv.Go()
		c = srv.Dial()
		w.echoOnce(c, "winner of the address", 77)
		_ = c.Close()
		if !srv.Stop() {
			return
		}
		w.Case("contended address")
	}
	if l, err := net.Listen("tcp", ":1388"); err == nil && !w.Violated() {
		_ = l.Close()
		m := echoMon(w)
		s, err := gev.NewServer(m)
		if err != nil {
			w.V("C28", "creating a server with default options failed: %v", err)
			return
		}
		srv := &Srv{Mon: m, s: s, addr: "127.0.0.1:1388", port: 1388, stopped: make(chan struct{})}
		srv.Go()
		c := srv.Dial()
		w.echoOnce(c, "server with default options", 78)
		_ = c.Close()
		srv.Stop()
		w.Case("defaults")
	}
	_ = vc.Close()
	_ = ac.Close()
	victim.Stop()
	sharedA.Stop()
	_ = foreign.Close()
}

// limitFree sets the descriptor limit so that exactly k more can be opened.
func limitFree(w *W, k int) (restore func(), cur uint64) {
	var old unix.Rlimit
	w.Must(unix.Getrlimit(unix.RLIMIT_NOFILE, &old))
	used := listFDs()
	n := 0
	for k > 0 || used[n] != "" {
		if used[n] == "" {
			k--
		}
		n++
	}
	lim := unix.Rlimit{Cur: uint64(n), Max: old.Max}
	w.Must(unix.Setrlimit(unix.RLIMIT_NOFILE, &lim))
	return func() { w.Must(unix.Setrlimit(unix.RLIMIT_NOFILE, &old)) }, lim.Cur
}

func scenarioFdSweep(w *W) {
	warmUp(w)
	host := workerIP()
	reps := w.Scale(3, 40)
	for r := 0; r < reps && !w.Violated(); r++ {
		for loops := 1; loops <= 4 && !w.Violated(); loops++ {
			reuse := (r+loops)%2 == 0
			need := 4 + 2*loops + 4
			for k := 0; k <= need && !w.Violated(); k++ {
				port := freePort(host)
				addr := net.JoinHostPort(host, strconv.Itoa(port))
				m := echoMon(w)
				before := takeInventory()
				restore, _ := limitFree(w, k)
				s, err := gev.NewServer(m, gev.Address(addr), gev.NumLoops(loops), gev.ReusePort(reuse))
				restore()
				if err != nil {
					w.Ev("refused-for-descriptors", 1)
					if !w.same(before, fmt.Sprintf("construction with %d loops failed with %d descriptors left (%v)", loops, k, err)) {
						return
					}
					// with descriptors available the same construction works
					s, err = gev.NewServer(m, gev.Address(addr), gev.NumLoops(loops), gev.ReusePort(reuse))
					if err != nil {
						w.V("C28", "a second attempt at %s after one that failed for lack of descriptors (%d left): %v", addr, k, err)
						return
					}
				} else {
					w.Ev("created-with-few-descriptors", 1)
				}
				outcome := "created"
				if err != nil {
					outcome = "refused"
				}
				srv := &Srv{Mon: m, s: s, addr: addr, port: port, stopped: make(chan struct{})}
				srv.Go()
				c := srv.Dial()
				w.echoOnce(c, "server created after a shortage", uint64(k+3))
				_ = c.Close()
				if !srv.Stop() {
					return
				}
				w.same(before, fmt.Sprintf("after stopping a server created around a shortage (%d left)", k))
				w.Case(fmt.Sprintf("shortage loops=%d reuse=%v left=%d %s", loops, reuse, k, outcome))
			}
		}
	}
}

func scenarioReusePort(w *W) {
	warmUp(w)
	n := w.Scale(25, 400)
	for r := 0; r < n && !w.Violated(); r++ {
		sharedRound(w, r)
	}
}

func sharedRound(w *W, r int) {
	before := takeInventory()
	host := workerIP()
	addr := net.JoinHostPort(host, strconv.Itoa(freePort(host)))
	k := 2 + w.rng.Intn(3)
	var srvs []*Srv
	for i := 0; i < k; i++ {
		m := newMon(w)
		id := byte('A' + i)
		m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
			return append([]byte{id}, data...)
		}
		s, err := gev.NewServer(m, gev.Address(addr), gev.NumLoops(1+w.rng.Intn(3)), gev.ReusePort(true))
		if err != nil {
			w.V("C28", "server %d of %d sharing %s by port reuse: %v", i, k, addr, err)
			return
		}
		_, ps, _ := net.SplitHostPort(addr)
		port, _ := strconv.Atoi(ps)
		srvs = append(srvs, &Srv{Mon: m, s: s, addr: addr, port: port, stopped: make(chan struct{})})
	}
	for _, s := range srvs {
		s.Go()
	}
	live := srvs
	var all []net.Conn
	total := 0
	for phase := 0; phase < 2; phase++ {
		nc := 10 + w.rng.Intn(30)
		type client struct {
			c  net.Conn
			la string
		}
		cl := make([]client, nc)
		var wg sync.WaitGroup
		for i := range cl {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				c := w.dial(addr, 0, 0)
				cl[i] = client{c, c.LocalAddr().String()}
			}(i)
		}
		wg.Wait()
		for i := range cl {
			msg := pattern(5, uint64(i), 0)
			_, _ = cl[i].c.Write(msg)
			got := make([]byte, 6)
			if err := w.readN("answer from one of the sharing servers", cl[i].c, got); err != nil {
				w.V("C28", "connection to shared address %s: %v", addr, err)
				return
			}
			who := 0
			var holders []int
			for j, s := range srvs {
				if cs := s.ByPeer(cl[i].la); cs != nil && !cs.Closed() {
					holders = append(holders, j)
					who = j
				}
			}
			if len(holders) != 1 || got[0] != byte('A'+who) {
				w.V("C28", "connection from %s is served by servers %v, the answer came from %c", cl[i].la, holders, got[0])
			}
			w.Ev(fmt.Sprintf("served-by-%d", who), 1)
			all = append(all, cl[i].c)
		}
		total += nc
		var sum int64
		for _, s := range srvs {
			sum += atomic.LoadInt64(&s.nConnect)
		}
		if sum != int64(total) {
			w.V("C28", "%d connections to a shared address made %d connect callbacks", total, sum)
		}
		w.Case(fmt.Sprintf("shared servers=%d live=%d connections=%d", k, len(live), nc))
		if w.Violated() {
			return
		}
		if phase == 0 { // one of them leaves: the others take over
			x := w.rng.Intn(len(live))
			if !live[x].Stop() {
				return
			}
			live = append(append([]*Srv{}, live[:x]...), live[x+1:]...)
			keep := all[:0]
			for _, c := range all {
				_ = c.SetReadDeadline(time.Now().Add(time.Millisecond))
				if _, err := c.Read(make([]byte, 1)); err == io.EOF {
					_ = c.Close()
					continue
				}
				_ = c.SetReadDeadline(time.Time{})
				keep = append(keep, c)
			}
			all = keep
		}
	}
	for _, c := range all {
		_ = c.Close()
	}
	for _, s := range live {
		if !s.Stop() {
			return
		}
	}
	if w.same(before, "after stopping servers that shared an address") {
		if l, err := net.Listen("tcp", addr); err != nil {
			w.V("C28,C08", "the shared address is still taken after all servers stopped: %v", err)
		} else {
			_ = l.Close()
		}
	}
}
