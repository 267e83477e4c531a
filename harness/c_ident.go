package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/Allenxuxu/gev"
	"golang.org/x/sys/unix"
)

// The identity scenario churns connections over few addresses and descriptors
// and compares what every connection says about itself with what its peer
// knows and with a model of what was attached to it (C24).

func init() {
	scenarios["ident"] = scenarioIdent
	scenarios["sockaddr"] = scenarioSockaddr
	register("C24", &Property{
		Rule: "a case is one connection (address family, source address and port reuse, way it ended, attached values changed while it lived) whose address, context and keys were compared with its peer's and with a model at connect, at every message, at close and after close; or one socket address of a connection built directly. Non-trivial: identified by family, reuse, end, number of exchanges and number of attached values",
		Assumptions: []string{
			"the address the peer's own socket reports is the actual remote address",
			"IPv6 cases are run on the addresses the machine has (loopback at least); link-local zones are not compared",
		},
		jobs: func(tier string) []Job {
			return []Job{
				{Name: "v4", Scenario: "ident", P: map[string]int{"fam": 4}},
				{Name: "v6", Scenario: "ident", Seed: 1, P: map[string]int{"fam": 6}},
				{Name: "dual", Scenario: "ident", Seed: 2, P: map[string]int{"fam": 46}},
				{Name: "dual-pert", Scenario: "ident", Seed: 3, Perturb: 1, P: map[string]int{"fam": 46, "loops": 4}},
				{Name: "dual-race", Scenario: "ident", Seed: 4, Race: true, P: map[string]int{"fam": 46, "loops": 3}},
				{Name: "v4-few-ports", Scenario: "ident", Seed: 5, P: map[string]int{"fam": 4, "ports": 6, "loops": 1}},
				{Name: "sockaddr", Scenario: "sockaddr", Seed: 6},
			}
		},
		Races: true,
	})
}

// identModel is what has been attached to one connection.
type identModel struct {
	ctx  any
	kv   map[string]any
	buf  []byte
	rng  *rand.Rand
	peer string
	n    int
}

const identKeys = 12

func (w *W) identCheck(c *gev.Connection, m *identModel, when string) {
	if got := c.PeerAddr(); m.peer != "" && got != m.peer {
		w.V("C24", "%s: the connection from %s reports peer address %q", when, m.peer, got)
	}
	if got := c.Context(); got != m.ctx {
		w.V("C24", "%s: connection from %s: context is %v, %v was set", when, m.peer, got, m.ctx)
	}
	for i := 0; i < identKeys; i++ {
		k := "k" + strconv.Itoa(i)
		want, has := m.kv[k]
		got, ok := c.Get(k)
		if ok != has || got != want {
			w.V("C24", "%s: connection from %s: key %s is (%v, %v), expected (%v, %v)", when, m.peer, k, got, ok, want, has)
		}
	}
}

type identTag struct {
	conn int64
	n    int
}

func (m *identModel) mutate(c *gev.Connection, id int64) {
	val := func() any {
		m.n++
		switch m.rng.Intn(6) {
		case 0:
			return nil
		case 1:
			return int(id)*1000 + m.n
		case 2:
			return fmt.Sprintf("%d/%d", id, m.n)
		}
		return &identTag{id, m.n}
	}
	if m.rng.Intn(2) == 0 {
		m.ctx = val()
		c.SetContext(m.ctx)
	}
	for i := 0; i < m.rng.Intn(4); i++ {
		k := "k" + strconv.Itoa(m.rng.Intn(identKeys))
		if m.rng.Intn(4) == 0 {
			delete(m.kv, k)
			c.Delete(k)
		} else {
			v := val()
			m.kv[k] = v
			c.Set(k, v)
		}
	}
}

func scenarioIdent(w *W) {
	fam := w.Param("fam", 4)
	rounds := w.Scale(2, 30)
	for r := 0; r < rounds && !w.Violated(); r++ {
		identRound(w, fam, r)
	}
}

func identRound(w *W, fam, round int) {
	m := newMon(w)
	var retained struct {
		sync.Mutex
		cs []*ConnS
	}
	// closed connections are looked at again while others that may have got
	// their resources are being served
	recall := func(rng *rand.Rand) {
		retained.Lock()
		defer retained.Unlock()
		for k := 0; k < 3 && len(retained.cs) > 0; k++ {
			at := len(retained.cs) - 1 - min(rng.Intn(len(retained.cs)), rng.Intn(40))
			old := retained.cs[at]
			w.identCheck(old.c, old.u.(*identModel), "after close, while another connection is served")
			w.Ev("checked-after-close-among-others", 1)
		}
	}
	m.OnConn = func(cs *ConnS) {
		im := &identModel{kv: map[string]any{}, rng: rand.New(rand.NewSource(w.Seed ^ cs.id<<20 ^ int64(round)))}
		cs.u = im
		w.identCheck(cs.c, im, "in the connect callback")
		im.peer = cs.c.PeerAddr()
		im.mutate(cs.c, cs.id)
		w.identCheck(cs.c, im, "in the connect callback after attaching values")
		recall(im.rng)
	}
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		im := cs.u.(*identModel)
		if im.rng.Intn(4) == 0 {
			recall(im.rng)
		}
		im.buf = append(im.buf, data...)
		var out []byte
		for {
			i := bytes.IndexByte(im.buf, '\n')
			if i < 0 {
				break
			}
			line := string(im.buf[:i])
			im.buf = append([]byte{}, im.buf[i+1:]...)
			f := strings.Fields(line)
			if len(f) != 2 {
				w.V("C01", "garbled line %q", line)
				continue
			}
			if f[0] != cs.c.PeerAddr() {
				w.V("C24", "in a message callback: the connection whose peer is %s reports %q", f[0], cs.c.PeerAddr())
			}
			w.identCheck(cs.c, im, "in a message callback")
			im.mutate(cs.c, cs.id)
			if f[1] == "bye" {
				_ = cs.c.Close()
			}
			out = append(out, (cs.c.PeerAddr() + "\n")...)
		}
		if len(out) == 0 {
			return nil
		}
		return out
	}
	m.OnCls = func(cs *ConnS) {
		im := cs.u.(*identModel)
		w.identCheck(cs.c, im, "in the close callback")
		if im.rng.Intn(3) == 0 {
			im.mutate(cs.c, cs.id) // data attached at the very end is kept too
		}
		w.identCheck(cs.c, im, "at the end of the close callback")
		if cs.id%4 == 0 {
			retained.Lock()
			retained.cs = append(retained.cs, cs)
			retained.Unlock()
		}
	}
	var srv *Srv
	opt := SrvOpt{Loops: w.Param("loops", 2), Mon: m}
	port := nextPort()
	switch fam {
	case 6, 46:
		l, err := net.Listen("tcp6", "[::1]:0")
		if err != nil {
			w.Ev("no-ipv6", 1)
			if fam == 6 {
				w.Case("no IPv6 on this machine (a)")
				w.Case("no IPv6 on this machine (b)")
				return
			}
		} else {
			_ = l.Close()
			opt.Addr = fmt.Sprintf("[::1]:%d", port)
			if fam == 46 {
				opt.Addr = fmt.Sprintf(":%d", port)
			}
		}
	}
	if opt.Addr != "" { // another process may be using the port
		for i := 0; ; i++ {
			l, err := net.Listen("tcp", opt.Addr)
			if err == nil {
				_ = l.Close()
				break
			}
			if i == 50 {
				w.Fatal("no port: %v", err)
			}
			p := nextPort()
			opt.Addr = strings.TrimSuffix(opt.Addr, strconv.Itoa(port)) + strconv.Itoa(p)
			port = p
		}
	}
	srv = w.startServer(opt)
	ports := w.Param("ports", 64)
	clients := 8
	per := 150
	if w.Race {
		per = 60
	}
	firstPort := 31000 + (int(w.Seed)&0xff)*4
	var inUse sync.Map
	var wg sync.WaitGroup
	var dials int64
	for k := 0; k < clients; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(w.Seed*31 + int64(k) + int64(round)*1000))
			for i := 0; i < per && !w.Violated(); i++ {
				identClient(w, srv, fam, rng, firstPort, ports, &inUse, &dials, i)
			}
		}(k)
	}
	wg.Wait()
	if w.Violated() {
		return
	}
	if !w.Await("every connection is announced and closed", srv.Progress, func() bool {
		return atomic.LoadInt64(&m.nConnect) >= atomic.LoadInt64(&dials) && m.Open() == 0
	}) {
		return
	}
	// long after their end, connections still know what they were
	retained.Lock()
	for _, cs := range retained.cs {
		w.identCheck(cs.c, cs.u.(*identModel), "after close")
		w.Ev("checked-after-close", 1)
	}
	retained.Unlock()
	if srv.Stop() {
		for _, cs := range m.All() {
			w.identCheck(cs.c, cs.u.(*identModel), "after the server stopped")
		}
	}
}

func identClient(w *W, srv *Srv, fam int, rng *rand.Rand, firstPort, ports int, inUse *sync.Map, dials *int64, i int) {
	addr := net.JoinHostPort(workerIP(), strconv.Itoa(srv.port))
	if host, _, err := net.SplitHostPort(srv.addr); err == nil && host != "" {
		addr = srv.addr
	}
	v6 := false
	if strings.HasPrefix(srv.addr, "[") || strings.HasPrefix(srv.addr, ":") {
		switch {
		case fam == 6 || rng.Intn(2) == 0:
			addr, v6 = fmt.Sprintf("[::1]:%d", srv.port), true
		}
	}
	var la net.TCPAddr
	reuse := rng.Intn(3) > 0
	if v6 {
		la.IP = net.IPv6loopback
	} else {
		base := net.ParseIP(workerIP()).To4()
		la.IP = net.IPv4(127, base[1], base[2], byte(1+rng.Intn(3)))
		if rng.Intn(4) == 0 {
			la.IP = net.IPv4(127, byte(rng.Intn(256)), byte(rng.Intn(256)), byte(1+rng.Intn(254)))
		}
	}
	if reuse {
		la.Port = firstPort + rng.Intn(ports)
		key := la.String()
		if _, busy := inUse.LoadOrStore(key, true); busy {
			la.Port, reuse = 0, false
		} else {
			defer inUse.Delete(key)
		}
	}
	d := net.Dialer{LocalAddr: &la, Control: func(network, address string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) {
			_ = unix.SetsockoptInt(int(fd), unix.SOL_SOCKET, unix.SO_REUSEADDR, 1)
		})
	}}
	nc, err := d.Dial("tcp", addr)
	if err != nil && la.Port != 0 {
		la.Port, reuse = 0, false
		nc, err = d.Dial("tcp", addr)
	}
	if err != nil {
		if errors.Is(err, unix.EADDRNOTAVAIL) || errors.Is(err, unix.EADDRINUSE) {
			return
		}
		w.Fatal("dial %s from %s: %v", addr, la.String(), err)
	}
	atomic.AddInt64(dials, 1)
	conn := nc.(*net.TCPConn)
	me := conn.LocalAddr().String()
	n := rng.Intn(4)
	br := bufio.NewReader(conn)
	end := rng.Intn(3)
	for j := 0; j <= n; j++ {
		verb := "hello"
		if j == n && end == 2 {
			verb = "bye"
		}
		if _, err := fmt.Fprintf(conn, "%s %s\n", me, verb); err != nil {
			w.Violate("connection from %s broke: %v", me, err)
			_ = conn.Close()
			return
		}
		line := make([]byte, len(me)+1)
		if err := w.readN("answer to "+me, &bufConn{conn, br}, line); err != nil {
			w.Violate("connection from %s: no answer: %v (%q)", me, err, line)
			_ = conn.Close()
			return
		}
		if string(line) != me+"\n" {
			w.V("C24", "the server says the peer address of %s is %q", me, line)
		}
	}
	if end != 0 {
		if end == 2 {
			_ = w.readN("end of "+me, &bufConn{conn, br}, make([]byte, 1))
		}
		_ = conn.SetLinger(0) // no TIME_WAIT: the address can be reused at once
	}
	_ = conn.Close()
	famName := "v4"
	if v6 {
		famName = "v6"
	}
	w.Case(fmt.Sprintf("%s fixed-port=%v end=%d exchanges=%d", famName, reuse, end, n+1))
	w.Ev("family:"+famName, 1)
}

type bufConn struct {
	net.Conn
	r *bufio.Reader
}

func (b *bufConn) Read(p []byte) (int, error) { return b.r.Read(p) }

// scenarioSockaddr builds connections for arbitrary socket addresses.
func scenarioSockaddr(w *W) {
	l := w.startServer(SrvOpt{Loops: 1})
	defer l.Stop()
	_, cs := l.DialCS(0, 0)
	loop := cs.loop.loop
	n := w.Scale(20000, 400000)
	for i := 0; i < n && !w.Violated(); i++ {
		port := w.rng.Intn(65536)
		switch w.rng.Intn(8) {
		case 0:
			port = 0
		case 1:
			port = 65535
		}
		var sa unix.Sockaddr
		var want string
		kind := ""
		if w.rng.Intn(2) == 0 {
			a := &unix.SockaddrInet4{Port: port}
			w.rng.Read(a.Addr[:])
			sa, want, kind = a, (&net.TCPAddr{IP: net.IP(append([]byte{}, a.Addr[:]...)), Port: port}).String(), "v4"
		} else {
			a := &unix.SockaddrInet6{Port: port}
			w.rng.Read(a.Addr[:])
			switch w.rng.Intn(5) { // runs of zeros and mapped addresses are written specially
			case 0:
				copy(a.Addr[:], make([]byte, 10))
				a.Addr[10], a.Addr[11] = 0xff, 0xff
				kind = "v6-mapped"
			case 1:
				s := w.rng.Intn(14)
				for j := s; j < 16 && j < s+2+w.rng.Intn(12); j++ {
					a.Addr[j] = 0
				}
				kind = "v6-zeros"
			default:
				kind = "v6"
			}
			sa, want = a, (&net.TCPAddr{IP: net.IP(append([]byte{}, a.Addr[:]...)), Port: port}).String()
		}
		c := gev.NewConnection(-1, loop, sa, &gev.DefaultProtocol{}, nil, 0, nil)
		if got := c.PeerAddr(); got != want {
			w.V("C24", "a connection from %s reports %q", want, got)
		}
		if c.Context() != nil {
			w.V("C24", "a new connection has a context")
		}
		w.Case(fmt.Sprintf("sockaddr %s len=%d", kind, len(want)))
	}
}
