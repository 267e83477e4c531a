package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
)

// wsItem is one frame a client sends and what must come of it.
type wsItem struct {
	op    byte
	fin   bool
	n     int
	mask  [4]byte
	reply int // 0 none, 1 text, 2 binary, 3 the message itself as binary, 4 itself as text
	rn    int // reply length
}

// wsPeer is the server-side expectation of one websocket connection.
type wsPeer struct {
	mu        sync.Mutex
	key       uint64
	data      []wsItem // data frames in order
	delivered int64
	total     int64 // frames dealt with: data delivered (control frames are counted by the protocol)
	msgBytes  int64
}

func wsPayload(key uint64, i, n int) []byte { return pattern(n, key^uint64(i)*977, 0) }

func wsReplyBody(key uint64, i, n int) []byte { return pattern(n, key^uint64(i)*31^0x55, 0) }

// wsMsgServer checks every message against the connection's expectation.
func wsMsgServer(w *W, prop string, o SrvOpt) (*Srv, *seenProto, *sync.Map) {
	var peers sync.Map
	user := &wsUser{}
	user.onConn = func(c *gev.Connection) {
		peers.Store(c, &wsPeer{key: connKey(w, c.PeerAddr())})
	}
	user.onMsg = func(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
		v, ok := peers.Load(c)
		if !ok {
			w.V(prop, "message on a connection never announced")
			return ws.MessageBinary, nil
		}
		st := v.(*wsPeer)
		i := int(atomic.LoadInt64(&st.delivered))
		st.mu.Lock()
		var it wsItem
		known := i < len(st.data)
		if known {
			it = st.data[i]
		}
		st.mu.Unlock()
		atomic.AddInt64(&st.msgBytes, int64(len(msg)))
		w.Ev("ws-messages", 1)
		if !known {
			w.V(prop, "%s: message %d (%d bytes) delivered but only %d data frames were sent", c.PeerAddr(), i, len(msg), i)
			atomic.AddInt64(&st.delivered, 1)
			return ws.MessageBinary, nil
		}
		if len(msg) != it.n || mismatch(msg, st.key^uint64(i)*977, 0) >= 0 {
			w.V(prop, "%s: data frame %d of %d bytes (mask %x) delivered as %d bytes, content mismatch at %d", c.PeerAddr(), i, it.n, it.mask, len(msg), mismatch(msg, st.key^uint64(i)*977, 0))
		}
		defer atomic.AddInt64(&st.delivered, 1)
		switch it.reply {
		case 1:
			return ws.MessageText, wsReplyBody(st.key, i, it.rn)
		case 2:
			return ws.MessageBinary, wsReplyBody(st.key, i, it.rn)
		case 3:
			return ws.MessageBinary, msg
		case 4:
			return ws.MessageText, msg
		}
		return ws.MessageText, nil
	}
	srv, p := w.wsServer(&ws.Upgrader{}, user, o)
	return srv, p, &peers
}

// wsDriver drives one websocket connection and checks the server's frames.
type wsDriver struct {
	w     *W
	prop  string
	srv   *Srv
	conn  *net.TCPConn
	cs    *ConnS
	s     *sink
	st    *wsPeer
	feed  *wireFeed
	rng   *rand.Rand
	ctl   int64 // control frames sent
	outs0 int64
	want  []srvFrame // frames due, in order
}

func newWsDriver(w *W, prop string, srv *Srv, p *seenProto, peers *sync.Map, rng *rand.Rand, rcvbuf int) *wsDriver {
	conn, cs := srv.DialCS(rcvbuf, 0)
	d := &wsDriver{w: w, prop: prop, srv: srv, conn: conn, cs: cs, s: newSink(conn), rng: rng}
	n, ok := w.wsUpgrade(prop, srv, conn, cs, d.s, rng)
	if !ok {
		return nil
	}
	v, _ := peers.Load(cs.c)
	d.st = v.(*wsPeer)
	pc := p.pc(cs.c)
	d.outs0 = 1 // the handshake
	d.feed = &wireFeed{w: w, prop: prop, conn: conn, cs: cs, pc: pc, sent: int64(n), rng: rng,
		progress: d.s.Got,
		delivered: func() int64 {
			// every frame, control frames included, is one extraction
			return atomic.LoadInt64(&pc.outs) - d.outs0
		}}
	return d
}

func (d *wsDriver) encode(items []wsItem, pings func(i int) []byte) (wire []byte, ends []int) {
	d.st.mu.Lock()
	defer d.st.mu.Unlock()
	for k, it := range items {
		var body []byte
		switch it.op {
		case 9:
			body = pings(k)
			d.want = append(d.want, srvFrame{10, body})
		case 10:
			body = pings(k)
		default:
			i := len(d.st.data)
			body = wsPayload(d.st.key, i, it.n)
			d.st.data = append(d.st.data, it)
			switch it.reply {
			case 1, 2:
				if it.rn > 0 {
					d.want = append(d.want, srvFrame{byte(it.reply), wsReplyBody(d.st.key, i, it.rn)})
				}
			case 3, 4:
				if it.n > 0 {
					d.want = append(d.want, srvFrame{byte(5 - it.reply), body})
				}
			}
		}
		wire = append(wire, wsEncode(it.fin, it.op, it.mask, body)...)
		ends = append(ends, len(wire))
	}
	return
}

// collect checks the frames due so far.
func (d *wsDriver) collect() bool {
	for len(d.want) > 0 {
		f, ok := d.w.wsNext(d.prop, d.cs, d.s, fmt.Sprintf("frame with opcode %d and %d bytes is due from the server (%d frames due)", d.want[0].op, len(d.want[0].payload), len(d.want)))
		if !ok {
			return false
		}
		if f.op == 9 { // the library answers a pong with a ping
			d.w.Ev("unsolicited-pings", 1)
			continue
		}
		e := d.want[0]
		if f.op != e.op || !bytes.Equal(f.payload, e.payload) {
			d.w.V(d.prop, "connection %d: got a frame with opcode %d and %d bytes where opcode %d and %d bytes was due (content equal: %v)", d.cs.id, f.op, len(f.payload), e.op, len(e.payload), bytes.Equal(f.payload, e.payload))
			return false
		}
		d.want = d.want[1:]
		d.w.Ev("ws-server-frames", 1)
	}
	return true
}

// checkDelivered requires that exactly the data frames sent reached the handler.
func (d *wsDriver) checkDelivered() bool {
	d.st.mu.Lock()
	n := int64(len(d.st.data))
	d.st.mu.Unlock()
	if !d.w.Await(fmt.Sprintf("connection %d: %d data frames reach the handler", d.cs.id, n), func() int64 { return atomic.LoadInt64(&d.st.delivered) }, func() bool {
		return atomic.LoadInt64(&d.st.delivered) >= n || d.cs.Closed()
	}) {
		return false
	}
	if got := atomic.LoadInt64(&d.st.delivered); got != n {
		d.w.V(d.prop, "connection %d: %d data frames sent, %d messages delivered", d.cs.id, n, got)
		return false
	}
	return true
}

func randMask(rng *rand.Rand) (m [4]byte) {
	switch rng.Intn(6) {
	case 0:
	case 1:
		m = [4]byte{0xff, 0xff, 0xff, 0xff}
	case 2:
		m[rng.Intn(4)] = byte(1 + rng.Intn(255))
	default:
		rng.Read(m[:])
	}
	return
}

func randData(rng *rand.Rand, n int) wsItem {
	it := wsItem{op: 1 + byte(rng.Intn(2)), fin: true, n: n, mask: randMask(rng), reply: rng.Intn(5)}
	if it.reply == 1 || it.reply == 2 {
		it.rn = pickSize(rng, 70000)
		switch rng.Intn(5) {
		case 0:
			it.rn = 0
		case 1:
			it.rn = []int{1, 125, 126, 127, 65535, 65536, 65537}[rng.Intn(7)]
		case 2:
			it.rn = 1 + rng.Intn(300)
		}
	}
	return it
}

func scenarioWsMessages(w *W) {
	srv, p, peers := wsMsgServer(w, "C18", SrvOpt{Loops: 2})
	var wg sync.WaitGroup
	workers := w.Param("workers", 4)
	n := w.Scale(w.Param("random", 250), 5000)
	for g := 0; g < workers; g++ {
		wg.Add(1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		go func(g int) {
			defer wg.Done()
			wsMsgClient(w, srv, p, peers, rng, g, workers, n)
		}(g)
	}
	wg.Wait()
	if !w.Violated() {
		srv.Stop()
	}
}

func wsMsgClient(w *W, srv *Srv, p *seenProto, peers *sync.Map, rng *rand.Rand, g, workers, n int) {
	d := newWsDriver(w, "C18", srv, p, peers, rng, 0)
	if d == nil {
		return
	}
	defer func() { d.conn.Close() }()
	noPing := func(int) []byte { return nil }
	play := func(items []wsItem, cuts []int, lock bool, what string) bool {
		wire, ends := d.encode(items, noPing)
		return d.feed.play(wire, ends, cuts, lock, what) && d.collect()
	}
	// every split of short frames of each header form, alone and with a neighbour
	k := 0
	for _, len1 := range []int{0, 1, 2, 7, 125, 126, 130} {
		for _, tail := range []bool{false, true} {
			items := []wsItem{{op: 2, fin: true, n: len1, mask: [4]byte{9, 8, 7, 6}, reply: 3}}
			if tail {
				items = append(items, wsItem{op: 1, fin: true, n: 3, mask: [4]byte{1, 0, 0, 0}, reply: 1, rn: 2})
			}
			wire := len1 + 6
			if len1 > 125 {
				wire += 2
			}
			limit := wire
			if tail {
				limit += 9
			}
			for cut := 1; cut < limit; cut++ {
				if k++; k%workers != g {
					continue
				}
				cuts := []int{cut}
				if cut > 2 && k%3 == 0 {
					cuts = []int{1 + rng.Intn(cut-1), cut}
				}
				if !play(items, cuts, true, fmt.Sprintf("frame of %d bytes", len1)) {
					return
				}
				w.Case(fmt.Sprintf("split len=%d tail=%v cuts=%v", len1, tail, cuts))
			}
		}
	}
	// 64-bit lengths: every split inside the header
	for cut := 1; cut <= 16; cut++ {
		if !play([]wsItem{{op: 2, fin: true, n: 65536 + cut, mask: randMask(rng), reply: 0}}, []int{cut}, true, "64-bit length") {
			return
		}
		w.Case(fmt.Sprintf("split len=%d cut=%d", 65536+cut, cut))
	}
	// every small length, merged
	for from := 0; from < 300; from += 30 {
		var items []wsItem
		for l := from; l < from+30; l++ {
			items = append(items, wsItem{op: 1 + byte(l&1), fin: true, n: l, mask: randMask(rng), reply: 3 + l&1})
		}
		if !play(items, nil, false, "merged lengths") {
			return
		}
		w.Case(fmt.Sprintf("merged lengths %d.. g=%d", from, g))
	}
	for i := 0; i < n && !w.Violated(); i++ {
		nf := 1 + rng.Intn(6)
		if rng.Intn(8) == 0 {
			nf = 20 + rng.Intn(150)
		}
		var items []wsItem
		total := 0
		for j := 0; j < nf; j++ {
			l := rng.Intn(200)
			switch rng.Intn(8) {
			case 0:
				l = pickSize(rng, 200000)
			case 1:
				l = []int{0, 1, 124, 125, 126, 127, 128, 65534, 65535, 65536, 65537}[rng.Intn(11)]
			}
			if nf > 20 && l > 2000 {
				l %= 2000
			}
			it := randData(rng, l)
			if rng.Intn(10) == 0 { // a fragmented message: each frame is delivered by itself
				it.fin = false
				items = append(items, it)
				it = randData(rng, rng.Intn(50))
				it.op = 0
				total += it.n + 8
			}
			total += l + 8
			items = append(items, it)
		}
		cuts := randCuts(rng, total)
		lock := rng.Intn(3) != 0
		if !play(items, cuts, lock, fmt.Sprintf("%d frames", len(items))) {
			return
		}
		w.Case(fmt.Sprintf("random frames=%d bytes=%d cuts=%d/%x lock=%v", len(items), total, len(cuts), cutsHash(cuts), lock))
		if i%60 == 59 {
			if !d.checkDelivered() {
				return
			}
			if d.s.Pending() != 0 {
				w.V("C18", "connection %d: %d bytes from the server that no message asked for", d.cs.id, d.s.Pending())
			}
			_ = d.conn.Close()
			if d = newWsDriver(w, "C18", srv, p, peers, rng, 0); d == nil {
				return
			}
		}
	}
	d.checkDelivered()
	if d.s.Pending() != 0 {
		w.V("C18", "connection %d: %d bytes from the server that no message asked for", d.cs.id, d.s.Pending())
	}
}

// -------------------------------------------------------- control frames (C19)

type closeCase struct {
	label  string
	body   []byte
	echo   bool // the reply carries the same body
	status int  // otherwise the reply's status code (0 = empty body)
}

func closeBody(code int, reason string) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(code))
	return append(b, reason...)
}

func genClose(rng *rand.Rand, i int) closeCase {
	reasons := []string{"", "bye", "déjà vu ✓", strings.Repeat("x", 123), strings.Repeat("é", 61), "\U0001F600 gone", "\x00\x01"}
	reason := reasons[rng.Intn(len(reasons))]
	switch i % 8 {
	case 0:
		return closeCase{label: "empty", body: nil, status: 0}
	case 1:
		codes := []int{1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011}
		return closeCase{label: "standard", body: closeBody(codes[rng.Intn(len(codes))], reason), echo: true}
	case 2:
		return closeCase{label: "application", body: closeBody(3000+rng.Intn(2000), reason), echo: true}
	case 3:
		return closeCase{label: "unused", body: closeBody(rng.Intn(1000), reason), status: 1002}
	case 4:
		codes := []int{1004, 1005, 1006, 1015}
		return closeCase{label: "reserved", body: closeBody(codes[rng.Intn(4)], reason), status: 1002}
	case 5:
		return closeCase{label: "undefined", body: closeBody(1016+rng.Intn(2999-1016), reason), status: 1002}
	case 6:
		bad := []string{"\xff", "abc\xc3", "\xed\xa0\x80", "ok\xf8\x88\x80\x80\x80", "\xc0\xaf"}
		return closeCase{label: "bad-utf8", body: closeBody(1000+rng.Intn(2), bad[rng.Intn(len(bad))]), status: 1002}
	}
	codes := []int{3000, 3999, 4000, 4999, 1000, 1011}
	return closeCase{label: "edge", body: closeBody(codes[rng.Intn(len(codes))], reason), echo: true}
}

func scenarioWsControl(w *W) {
	n := w.Scale(w.Param("rounds", 8), 12*w.Param("rounds", 8))
	for r := 0; r < n && !w.Violated(); r++ {
		srv, p, peers := wsMsgServer(w, "C19", SrvOpt{Loops: 1 + r%2, SndB: []int{0, 4096}[r&1]})
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			rng := rand.New(rand.NewSource(w.rng.Int63()))
			go func(g int) {
				defer wg.Done()
				for i := 0; i < 16 && !w.Violated(); i++ {
					wsControlClient(w, srv, p, peers, rng, i+16*g+64*r)
				}
			}(g)
		}
		wg.Wait()
		if !w.Violated() {
			srv.Stop()
		}
	}
}

func wsControlClient(w *W, srv *Srv, p *seenProto, peers *sync.Map, rng *rand.Rand, idx int) {
	slow := rng.Intn(6) == 0
	rcv := 0
	if slow {
		rcv = 2048
	}
	d := newWsDriver(w, "C19", srv, p, peers, rng, rcv)
	if d == nil {
		return
	}
	defer d.conn.Close()
	pings := 0
	pingBody := func(k int) []byte {
		pings++
		n := (idx*7 + pings*13) % 126
		if rng.Intn(5) == 0 {
			n = []int{0, 1, 124, 125}[rng.Intn(4)]
		}
		return pattern(n, d.st.key^uint64(pings)*131, 0)
	}
	for b := 0; b < 1+rng.Intn(5); b++ {
		var items []wsItem
		total := 0
		for j := 0; j < 1+rng.Intn(12); j++ {
			switch rng.Intn(4) {
			case 0:
				l := rng.Intn(300)
				items = append(items, randData(rng, l))
				total += l
			case 3:
				if rng.Intn(3) == 0 {
					items = append(items, wsItem{op: 10, fin: true, mask: randMask(rng)})
				}
				fallthrough
			default:
				items = append(items, wsItem{op: 9, fin: true, mask: randMask(rng)})
			}
			total += 20
		}
		wire, ends := d.encode(items, pingBody)
		if !d.feed.play(wire, ends, randCuts(rng, len(wire)), rng.Intn(2) == 0, fmt.Sprintf("%d frames with pings", len(items))) || !d.collect() {
			return
		}
		w.Case(fmt.Sprintf("pings items=%d bytes=%d", len(items), total))
	}
	if !d.checkDelivered() {
		return
	}
	// the closing handshake, possibly with a big reply still pending
	c := genClose(rng, idx)
	var items []wsItem
	if slow || rng.Intn(4) == 0 {
		it := wsItem{op: 2, fin: true, n: 5, reply: 2, rn: 300000 + rng.Intn(1<<20)}
		items = append(items, it)
	}
	if rng.Intn(3) == 0 {
		items = append(items, wsItem{op: 9, fin: true, mask: randMask(rng)})
	}
	wire, ends := d.encode(items, pingBody)
	wire = append(wire, wsEncode(true, 8, randMask(rng), c.body)...)
	ends = append(ends, len(wire))
	what := fmt.Sprintf("%s close frame %x", c.label, head(string(c.body), 20))
	if !d.feed.play(wire, ends, randCuts(rng, len(wire)), rng.Intn(2) == 0, what) || !d.collect() {
		return
	}
	f, ok := w.wsNext("C19", d.cs, d.s, "the "+what+" is answered")
	for ok && f.op == 9 {
		f, ok = w.wsNext("C19", d.cs, d.s, "the "+what+" is answered")
	}
	if !ok {
		return
	}
	switch {
	case f.op != 8:
		w.V("C19", "connection %d: %s answered with opcode %d", d.cs.id, what, f.op)
		return
	case c.echo && !bytes.Equal(f.payload, c.body):
		w.V("C19", "connection %d: %s answered with body %x instead of the same one", d.cs.id, what, f.payload)
	case !c.echo && c.status == 0 && len(f.payload) != 0:
		w.V("C19", "connection %d: empty close frame answered with body %x", d.cs.id, f.payload)
	case !c.echo && c.status != 0:
		if len(f.payload) < 2 || int(binary.BigEndian.Uint16(f.payload)) != c.status || !utf8.Valid(f.payload[2:]) {
			w.V("C19", "connection %d: %s answered with body %x, want status %d", d.cs.id, what, f.payload, c.status)
		}
	}
	if !w.Await(fmt.Sprintf("connection %d: the server ends the stream after answering the %s", d.cs.id, what), d.s.Got, d.s.Ended) {
		return
	}
	if err := d.s.Err(); err.Error() != "EOF" {
		w.V("C19", "connection %d: after the %s the stream ended with %v", d.cs.id, what, err)
	}
	if n := d.s.Pending(); n != 0 {
		w.V("C19", "connection %d: %d bytes after the close frame: %x", d.cs.id, n, head(string(d.s.Peek()), 40))
	}
	if rng.Intn(2) == 0 {
		time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
	}
	_ = d.conn.Close()
	w.Await(fmt.Sprintf("connection %d: the close callback runs once the client is gone (%s)", d.cs.id, what), srv.Progress, d.cs.Closed)
	d.checkDelivered()
	w.Case(fmt.Sprintf("close %s %x pending=%v", c.label, c.body, slow))
}

func init() {
	scenarios["ws-messages"] = scenarioWsMessages
	scenarios["ws-control"] = scenarioWsControl
	register("C18", &Property{
		Rule:        "one case = one sequence of masked data frames under one segmentation on an upgraded connection: every split of short frames of each header form and of 64-bit headers, all lengths 0-299 merged, random sequences with boundary lengths, fragments and merged frames; lock-step cases require exactly the complete frames delivered after each piece; every reply is parsed by an independent client; distinct by lengths and cuts",
		Assumptions: []string{"loopback TCP is faithful", "frames use the minimal length encoding and are masked, as RFC 6455 requires of clients"},
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "messages", Scenario: "ws-messages"},
				{Name: "messages-2", Scenario: "ws-messages"},
				{Name: "perturbed", Scenario: "ws-messages", Perturb: 1},
				{Name: "one-cpu", Scenario: "ws-messages", Procs: 1},
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "ws-messages", Perturb: i % 3, P: map[string]int{"workers": 6}})
				}
			}
			return js
		}})
	register("C19", &Property{
		Rule:        "one case = one batch of pings (payload 0-125 bytes) interleaved with data messages and pongs under a random segmentation, or one closing handshake (empty, standard, application, unused, reserved, undefined codes, invalid UTF-8, reasons up to 123 bytes), possibly with a large reply still pending; the client requires the exact frames in order, then the end of the stream, then the close callback; distinct by body or batch",
		Assumptions: []string{"loopback TCP is faithful", "the client sends nothing after its close frame", "codes 1012-1014 and above 4999 are not judged"},
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "control", Scenario: "ws-control"},
				{Name: "control-2", Scenario: "ws-control"},
				{Name: "perturbed", Scenario: "ws-control", Perturb: 1},
				{Name: "one-cpu", Scenario: "ws-control", Procs: 1},
			}
			if tier == "thorough" {
				for i := 0; i < 4; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "ws-control", Perturb: i % 3})
				}
			}
			return js
		}})
}
