package main

import (
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/eventloop"
	"golang.org/x/sys/unix"
)

// V records a violation found by an oracle that decides property prop; runs on
// behalf of another property leave it to that property's own check.
func (w *W) V(prop, format string, a ...any) {
	if strings.Contains(prop, w.Prop) {
		w.Violate(format, a...)
	} else {
		w.Ev("other-property-signal:"+prop, 1)
	}
}

// ------------------------------------------------------------------ addresses

var portCounter int32

// workerIP is a loopback address of this process's own.
func workerIP() string {
	p := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+(p>>16)&63, (p>>8)&255, 1+(p&255)%254)
}

func nextPort() int {
	return 21000 + int(atomic.AddInt32(&portCounter, 1))%9000
}

// --------------------------------------------------------------------- monitor

// LoopS is what the monitor knows of one event loop.
type LoopS struct {
	idx     int
	loop    *eventloop.EventLoop
	gid     int64
	in      int32
	nOpen   int64
	total   int64
	assigns int64
	beat    int64 // callbacks so far
}

// ConnS is the monitor's record of one connection.
type ConnS struct {
	c       *gev.Connection
	id      int64
	loop    *LoopS
	state   int32 // 0 new, 1 connected, 2 closed
	in      int32
	msgs    int64
	bytes   int64
	peer    string
	u       any // scenario data
	openT   time.Time
	closeT  time.Time
	lastAct int64 // unix nanos of the last callback
	mu      sync.Mutex
}

// Closed reports whether the close callback has begun.
func (cs *ConnS) Closed() bool { return atomic.LoadInt32(&cs.state) == 2 }

// Mon is the monitoring handler: it implements gev.Handler, checks lifecycle,
// confinement, identity and counters on every callback and then calls the
// scenario's own functions.
type Mon struct {
	w *W

	OnConn func(cs *ConnS)
	OnMsg  func(cs *ConnS, ctx interface{}, data []byte) interface{}
	OnCls  func(cs *ConnS)

	conns  sync.Map // *gev.Connection -> *ConnS
	byPeer sync.Map // peer address -> *ConnS (latest)
	ids    int64

	nConnect, nClose, nMsg, nBytes int64

	lmu   sync.Mutex
	loops map[*[]byte]*LoopS
	order []*LoopS

	finished int32 // Stop and Start have returned
	cbs      int64 // callbacks in total
}

func newMon(w *W) *Mon { return &Mon{w: w, loops: map[*[]byte]*LoopS{}} }

func (m *Mon) learn(loops []*eventloop.EventLoop) {
	m.lmu.Lock()
	if len(m.order) == 0 {
		for i, l := range loops {
			ls := &LoopS{idx: i, loop: l}
			m.loops[l.UserBuffer] = ls
			m.order = append(m.order, ls)
		}
	}
	m.lmu.Unlock()
}

func (m *Mon) loopOf(c *gev.Connection) *LoopS {
	m.lmu.Lock()
	defer m.lmu.Unlock()
	ls := m.loops[c.UserBuffer()]
	if ls == nil {
		ls = &LoopS{idx: -1 - len(m.loops)}
		m.loops[c.UserBuffer()] = ls
	}
	return ls
}

// CS returns the record of a connection.
func (m *Mon) CS(c *gev.Connection) *ConnS {
	if v, ok := m.conns.Load(c); ok {
		return v.(*ConnS)
	}
	return nil
}

// ByPeer returns the record of the connection whose remote end is addr.
func (m *Mon) ByPeer(addr string) *ConnS {
	if v, ok := m.byPeer.Load(addr); ok {
		return v.(*ConnS)
	}
	return nil
}

func (m *Mon) enter(cs *ConnS, what string) {
	atomic.AddInt64(&m.cbs, 1)
	w := m.w
	if atomic.LoadInt32(&m.finished) != 0 {
		w.V("C08", "%s callback of connection %d ran after Stop and Start returned", what, cs.id)
	}
	if n := atomic.AddInt32(&cs.in, 1); n != 1 {
		w.V("C05", "%s of connection %d overlaps another callback of the same connection", what, cs.id)
	}
	if n := atomic.AddInt32(&cs.loop.in, 1); n != 1 {
		w.V("C05", "%s of connection %d overlaps a callback of another connection on loop %d", what, cs.id, cs.loop.idx)
	}
	atomic.AddInt64(&cs.loop.beat, 1)
	g := goid()
	if !atomic.CompareAndSwapInt64(&cs.loop.gid, 0, g) && atomic.LoadInt64(&cs.loop.gid) != g {
		w.V("C05", "%s of connection %d ran on goroutine %d, loop %d runs on %d", what, cs.id, g, cs.loop.idx, atomic.LoadInt64(&cs.loop.gid))
	}
	if cs.loop != m.loopOf(cs.c) {
		w.V("C05,C12", "connection %d changed its loop", cs.id)
	}
	atomic.StoreInt64(&cs.lastAct, time.Now().UnixNano())
}

func (m *Mon) leave(cs *ConnS) {
	atomic.AddInt32(&cs.loop.in, -1)
	atomic.AddInt32(&cs.in, -1)
}

func (m *Mon) get(c *gev.Connection, what string) *ConnS {
	if v, ok := m.conns.Load(c); ok {
		return v.(*ConnS)
	}
	if what != "connect" {
		m.w.V("C04", "%s callback for a connection that never had its connect callback (%s)", what, c.PeerAddr())
	}
	cs := &ConnS{c: c, id: atomic.AddInt64(&m.ids, 1), loop: m.loopOf(c), peer: c.PeerAddr(), openT: time.Now()}
	if v, dup := m.conns.LoadOrStore(c, cs); dup {
		return v.(*ConnS)
	}
	m.byPeer.Store(cs.peer, cs)
	return cs
}

// OnConnect implements gev.Handler.
func (m *Mon) OnConnect(c *gev.Connection) {
	cs := m.get(c, "connect")
	m.enter(cs, "connect")
	defer m.leave(cs)
	if !atomic.CompareAndSwapInt32(&cs.state, 0, 1) {
		m.w.V("C04", "connect callback ran again for connection %d (state %d)", cs.id, atomic.LoadInt32(&cs.state))
	}
	if !c.Connected() {
		m.w.V("C04", "connection %d not connected during its connect callback", cs.id)
	}
	atomic.AddInt64(&m.nConnect, 1)
	atomic.AddInt64(&cs.loop.nOpen, 1)
	atomic.AddInt64(&cs.loop.total, 1)
	if m.OnConn != nil {
		m.OnConn(cs)
	}
}

// OnMessage implements gev.Handler.
func (m *Mon) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	cs := m.get(c, "message")
	m.enter(cs, "message")
	defer m.leave(cs)
	if st := atomic.LoadInt32(&cs.state); st != 1 {
		m.w.V("C04", "message callback for connection %d in state %d (1=connected, 2=closed)", cs.id, st)
	}
	if !c.Connected() {
		m.w.V("C04", "connection %d reports not connected during a message callback", cs.id)
	}
	if c.PeerAddr() != cs.peer {
		m.w.V("C24", "peer address of connection %d changed from %q to %q", cs.id, cs.peer, c.PeerAddr())
	}
	atomic.AddInt64(&cs.msgs, 1)
	atomic.AddInt64(&cs.bytes, int64(len(data)))
	atomic.AddInt64(&m.nMsg, 1)
	atomic.AddInt64(&m.nBytes, int64(len(data)))
	if m.OnMsg != nil {
		return m.OnMsg(cs, ctx, data)
	}
	return nil
}

// OnClose implements gev.Handler.
func (m *Mon) OnClose(c *gev.Connection) {
	cs := m.get(c, "close")
	m.enter(cs, "close")
	defer m.leave(cs)
	cs.closeT = time.Now()
	if !atomic.CompareAndSwapInt32(&cs.state, 1, 2) {
		m.w.V("C04", "close callback for connection %d in state %d (0=never connected, 2=already closed)", cs.id, atomic.LoadInt32(&cs.state))
	}
	if c.Connected() {
		m.w.V("C04", "connection %d reports connected during its close callback", cs.id)
	}
	if err := c.Send([]byte("late")); err != gev.ErrConnectionClosed {
		m.w.V("C07", "send from the close callback of connection %d returned %v", cs.id, err)
	}
	if c.PeerAddr() != cs.peer {
		m.w.V("C24", "peer address of connection %d changed from %q to %q at close", cs.id, cs.peer, c.PeerAddr())
	}
	if m.OnCls != nil {
		m.OnCls(cs)
	}
	atomic.AddInt64(&m.nClose, 1)
	atomic.AddInt64(&cs.loop.nOpen, -1)
}

// All returns the records of every connection seen.
func (m *Mon) All() (all []*ConnS) {
	m.conns.Range(func(_, v any) bool { all = append(all, v.(*ConnS)); return true })
	return
}

// Open returns connected minus closed.
func (m *Mon) Open() int64 { return atomic.LoadInt64(&m.nConnect) - atomic.LoadInt64(&m.nClose) }

// Progress is a monotone measure of callback activity.
func (m *Mon) Progress() int64 { return atomic.LoadInt64(&m.cbs) }

// ---------------------------------------------------------------------- server

// Srv is a running server with its monitor.
type Srv struct {
	*Mon
	s       *gev.Server
	addr    string
	port    int
	stopped chan struct{} // Start returned
	lb      *int64
}

// SrvOpt configures startServer.
type SrvOpt struct {
	Loops int
	Proto gev.Protocol
	Idle  time.Duration
	LB    gev.LoadBalanceStrategy
	Addr  string
	Wrap  func(m *Mon) gev.Handler // handler placed between gev and the monitor
	SndB  int                      // SO_SNDBUF of accepted connections
	RcvB  int
	Extra []gev.Option
	Mon   *Mon
}

func (w *W) startServer(o SrvOpt) *Srv {
	s := w.newServer(o)
	s.Go()
	return s
}

func (w *W) newServer(o SrvOpt) *Srv {
	m := o.Mon
	if m == nil {
		m = newMon(w)
	}
	if o.Loops == 0 {
		o.Loops = 2
	}
	inner := o.LB
	if inner == nil {
		inner = gev.RoundRobin()
	}
	strategy := func(loops []*eventloop.EventLoop) *eventloop.EventLoop {
		m.learn(loops)
		if len(loops) != o.Loops {
			w.V("C12,C28", "strategy was given %d loops, %d configured", len(loops), o.Loops)
		}
		l := inner(loops)
		m.lmu.Lock()
		if ls := m.loops[l.UserBuffer]; ls != nil {
			ls.assigns++
		}
		m.lmu.Unlock()
		return l
	}
	var h gev.Handler = m
	if o.Wrap != nil {
		h = o.Wrap(m)
	}
	for try := 0; ; try++ {
		addr := o.Addr
		port := 0
		if addr == "" {
			port = nextPort()
			addr = net.JoinHostPort(workerIP(), strconv.Itoa(port))
		} else if _, ps, err := net.SplitHostPort(addr); err == nil {
			port, _ = strconv.Atoi(ps)
		}
		opts := []gev.Option{gev.Address(addr), gev.NumLoops(o.Loops), gev.LoadBalance(strategy)}
		if o.Proto != nil {
			opts = append(opts, gev.CustomProtocol(o.Proto))
		}
		if o.Idle > 0 {
			opts = append(opts, gev.IdleTime(o.Idle))
		}
		opts = append(opts, o.Extra...)
		s, err := gev.NewServer(h, opts...)
		if err != nil {
			if o.Addr == "" && try < 50 {
				continue
			}
			w.Fatal("NewServer(%s): %v", addr, err)
		}
		srv := &Srv{Mon: m, s: s, addr: addr, port: port, stopped: make(chan struct{})}
		if o.SndB > 0 || o.RcvB > 0 {
			lfd := listenFD(port)
			if lfd < 0 {
				w.Fatal("cannot find the listening descriptor")
			}
			if o.SndB > 0 {
				w.Must(unix.SetsockoptInt(lfd, unix.SOL_SOCKET, unix.SO_SNDBUF, o.SndB))
			}
			if o.RcvB > 0 {
				w.Must(unix.SetsockoptInt(lfd, unix.SOL_SOCKET, unix.SO_RCVBUF, o.RcvB))
			}
		}
		return srv
	}
}

// Go runs Start in the background.
func (s *Srv) Go() {
	go func() {
		s.s.Start()
		close(s.stopped)
	}()
}

// Stop stops the server and waits until Start has returned. A stop that never
// completes is reported for property C08 and leaves other properties undecided.
func (s *Srv) Stop() bool {
	done := make(chan struct{})
	go func() {
		s.s.Stop()
		// without any connection Start may not even have begun: ask again
		for atomic.LoadInt64(&s.nConnect) == 0 && !isClosed(s.stopped) {
			time.Sleep(200 * time.Microsecond)
			s.s.Stop()
		}
		close(done)
	}()
	ok, stalled := s.w.await(s.Progress, func() bool {
		select {
		case <-done:
		default:
			return false
		}
		select {
		case <-s.stopped:
			return true
		default:
			return false
		}
	})
	if !ok {
		if stalled {
			s.w.V("C08", "Stop and Start did not both return")
			if os.Getenv("VERIF_VERBOSE") != "" {
				_, d := libGoroutineCount()
				fmt.Fprintln(os.Stderr, d)
				_, d = gevGoroutines("timingwheel")
				fmt.Fprintln(os.Stderr, d)
			}
			s.w.Ev("stop-stalled", 1)
		} else {
			s.w.Inconclusive("Stop did not return in time")
		}
		return false
	}
	atomic.StoreInt32(&s.finished, 1)
	return true
}

// Counts returns the connection counts the loops report.
func (s *Srv) Counts() (per []int64, sum int64) {
	s.lmu.Lock()
	defer s.lmu.Unlock()
	for _, l := range s.order {
		n := l.loop.ConnectionCount()
		per = append(per, n)
		sum += n
	}
	return
}

// ---------------------------------------------------------------------- client

func (w *W) dialer(rcvbuf, sndbuf int) *net.Dialer {
	d := &net.Dialer{Timeout: 30 * time.Second}
	if rcvbuf > 0 || sndbuf > 0 {
		d.Control = func(network, address string, rc syscall.RawConn) error {
			return rc.Control(func(fd uintptr) {
				if rcvbuf > 0 {
					_ = unix.SetsockoptInt(int(fd), unix.SOL_SOCKET, unix.SO_RCVBUF, rcvbuf)
				}
				if sndbuf > 0 {
					_ = unix.SetsockoptInt(int(fd), unix.SOL_SOCKET, unix.SO_SNDBUF, sndbuf)
				}
			})
		}
	}
	return d
}

func (w *W) dial(addr string, rcvbuf, sndbuf int) *net.TCPConn {
	var err error
	for i := 0; i < 20; i++ {
		var c net.Conn
		c, err = w.dialer(rcvbuf, sndbuf).Dial("tcp", addr)
		if err == nil {
			tc := c.(*net.TCPConn)
			_ = tc.SetNoDelay(true)
			return tc
		}
		time.Sleep(20 * time.Millisecond)
	}
	w.Fatal("dial %s: %v", addr, err)
	return nil
}

// Dial connects a client and returns it with its connect-callback record.
func (s *Srv) Dial() *net.TCPConn { return s.w.dial(s.addr, 0, 0) }

// DialCS also waits for the server's record of the connection.
func (s *Srv) DialCS(rcvbuf, sndbuf int) (*net.TCPConn, *ConnS) {
	t0 := time.Now()
	c := s.w.dial(s.addr, rcvbuf, sndbuf)
	var cs *ConnS
	la := c.LocalAddr().String()
	if !s.w.Await("connect callback of "+la, nil, func() bool {
		cs = s.ByPeer(la)
		if cs == nil || cs.openT.Before(t0) { // absent, or an earlier connection from the same port
			return false
		}
		st := atomic.LoadInt32(&cs.state)
		return st == 2 || st == 1 && atomic.LoadInt32(&cs.in) == 0
	}) {
		s.w.flush()
		if s.w.Violated() {
			s.w.finishNow()
		}
		s.w.Fatal("connection was never announced")
	}
	return c, cs
}

// finishNow ends the worker with what has been reported so far.
func (w *W) finishNow() {
	w.mu.Lock()
	w.rep.Done = true
	w.mu.Unlock()
	w.flush()
	os.Exit(0)
}

func rst(c *net.TCPConn) {
	_ = c.SetLinger(0)
	_ = c.Close()
}

// readFullDeadline reads len(b) bytes with an inactivity limit enforced by Await.
func (w *W) readN(what string, c net.Conn, b []byte) error {
	var n int64
	errc := make(chan error, 1)
	go func() {
		for int(atomic.LoadInt64(&n)) < len(b) {
			k, err := c.Read(b[atomic.LoadInt64(&n):])
			atomic.AddInt64(&n, int64(k))
			if err != nil {
				errc <- err
				return
			}
		}
		errc <- nil
	}()
	var res error
	got := false
	if !w.Await(what, func() int64 { return atomic.LoadInt64(&n) }, func() bool {
		select {
		case res = <-errc:
			got = true
		default:
		}
		return got
	}) {
		_ = c.SetReadDeadline(time.Now())
		return os.ErrDeadlineExceeded
	}
	return res
}

// ----------------------------------------------------------------- descriptors

func listFDs() map[int]string {
	m := map[int]string{}
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return m
	}
	self := int(d.Fd())
	names, _ := d.Readdirnames(-1)
	for _, n := range names {
		fd, err := strconv.Atoi(n)
		if err != nil || fd == self {
			continue
		}
		l, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil {
			continue
		}
		m[fd] = l
	}
	_ = d.Close()
	return m
}

func countFDs() int { return len(listFDs()) }

func saString(sa unix.Sockaddr) string {
	switch a := sa.(type) {
	case *unix.SockaddrInet4:
		return net.JoinHostPort(net.IP(a.Addr[:]).String(), strconv.Itoa(a.Port))
	case *unix.SockaddrInet6:
		return net.JoinHostPort(net.IP(a.Addr[:]).String(), strconv.Itoa(a.Port))
	}
	return ""
}

// listenFD finds a listening socket of this process bound to port.
func listenFD(port int) int {
	fds := listenFDs(port)
	if len(fds) == 0 {
		return -1
	}
	return fds[0]
}

func listenFDs(port int) (out []int) {
	for fd, l := range listFDs() {
		if !strings.HasPrefix(l, "socket:") {
			continue
		}
		v, err := unix.GetsockoptInt(fd, unix.SOL_SOCKET, unix.SO_ACCEPTCONN)
		if err != nil || v == 0 {
			continue
		}
		sa, err := unix.Getsockname(fd)
		if err != nil {
			continue
		}
		_, ps, _ := net.SplitHostPort(saString(sa))
		if ps == strconv.Itoa(port) {
			out = append(out, fd)
		}
	}
	return
}

// serverFD finds the server-side descriptor of the connection from peer.
func serverFD(peer string) int {
	for fd, l := range listFDs() {
		if !strings.HasPrefix(l, "socket:") {
			continue
		}
		sa, err := unix.Getpeername(fd)
		if err == nil && saString(sa) == peer {
			return fd
		}
	}
	return -1
}

func ioctlInt(fd int, req uintptr) int {
	var v int32
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(unsafe.Pointer(&v)))
	if e != 0 {
		return -1
	}
	return int(v)
}

const (
	fionread = 0x541b
	siocoutq = 0x5411
)

func unreadBytes(c *net.TCPConn) int {
	n := -1
	rc, err := c.SyscallConn()
	if err != nil {
		return -1
	}
	_ = rc.Control(func(fd uintptr) { n = ioctlInt(int(fd), fionread) })
	return n
}

// --------------------------------------------------------------------- content

// fill writes the bytes of stream key at offset off into b.
func fill(b []byte, key uint64, off int64) {
	var word [8]byte
	i := 0
	for i < len(b) {
		p := uint64(off) + uint64(i)
		if p&7 == 0 && len(b)-i >= 8 {
			binary.LittleEndian.PutUint64(b[i:], splitmix(key^(p>>3)*0x2545F4914F6CDD1D))
			i += 8
			continue
		}
		binary.LittleEndian.PutUint64(word[:], splitmix(key^(p>>3)*0x2545F4914F6CDD1D))
		b[i] = word[p&7]
		i++
	}
}

// mismatch returns the first index at which b differs from stream key at off, or -1.
func mismatch(b []byte, key uint64, off int64) int {
	var word [8]byte
	i := 0
	for i < len(b) {
		p := uint64(off) + uint64(i)
		v := splitmix(key ^ (p>>3)*0x2545F4914F6CDD1D)
		if p&7 == 0 && len(b)-i >= 8 {
			if binary.LittleEndian.Uint64(b[i:]) == v {
				i += 8
				continue
			}
		}
		binary.LittleEndian.PutUint64(word[:], v)
		if b[i] != word[p&7] {
			return i
		}
		i++
	}
	return -1
}

func pattern(n int, key uint64, off int64) []byte {
	b := make([]byte, n)
	fill(b, key, off)
	return b
}

func fnv(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for len(b) >= 8 {
		h = (h ^ binary.LittleEndian.Uint64(b)) * 1099511628211
		h ^= h >> 29
		b = b[8:]
	}
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return h
}

// gevGoroutines counts goroutines that are running event-loop, listener or
// timing-wheel code of the library.
func gevGoroutines(sub ...string) (n int, dump string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, s := range sub {
			if strings.Contains(g, s) {
				n++
				if len(dump) < 3000 {
					dump += g + "\n\n"
				}
				break
			}
		}
	}
	return
}

func splitGoroutines(s string) []string { return strings.Split(s, "\n\n") }

func containsAny(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}
