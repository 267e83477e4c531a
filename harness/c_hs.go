package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/gobwas/httphead"
)

// ---------------------------------------------------- websocket test client

// wsEcho is a websocket handler under the monitor: the HandlerWrap of the
// library is placed between gev's callbacks and user functions.
type wsUser struct {
	mon    *Mon
	onConn func(c *gev.Connection)
	onMsg  func(c *gev.Connection, msg []byte) (ws.MessageType, []byte)
	onCls  func(c *gev.Connection)
}

func (u *wsUser) OnConnect(c *gev.Connection) {
	if u.onConn != nil {
		u.onConn(c)
	}
}
func (u *wsUser) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	if u.onMsg != nil {
		return u.onMsg(c, msg)
	}
	return ws.MessageBinary, nil
}
func (u *wsUser) OnClose(c *gev.Connection) {
	if u.onCls != nil {
		u.onCls(c)
	}
}

// wsServer starts a websocket server; the monitor sees gev's own callbacks
// and hands them to the library's HandlerWrap.
func (w *W) wsServer(u *ws.Upgrader, user *wsUser, o SrvOpt) (*Srv, *seenProto) {
	p := &seenProto{inner: websocket.New(u)}
	h := websocket.NewHandlerWrap(u, user)
	m := newMon(w)
	user.mon = m
	m.OnConn = func(cs *ConnS) { h.OnConnect(cs.c) }
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} { return h.OnMessage(cs.c, ctx, data) }
	m.OnCls = func(cs *ConnS) { h.OnClose(cs.c) }
	o.Mon = m
	o.Proto = p
	return w.startServer(o), p
}

func wsAccept(key string) string {
	s := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(s[:])
}

func wsKey(rng *rand.Rand) string {
	b := make([]byte, 16)
	rng.Read(b)
	return base64.StdEncoding.EncodeToString(b)
}

// wsEncode builds a client frame.
func wsEncode(fin bool, op byte, mask [4]byte, payload []byte) []byte {
	b := []byte{op, 0x80}
	if fin {
		b[0] |= 0x80
	}
	switch n := len(payload); {
	case n <= 125:
		b[1] |= byte(n)
	case n <= 65535:
		b[1] |= 126
		b = binary.BigEndian.AppendUint16(b, uint16(n))
	default:
		b[1] |= 127
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	b = append(b, mask[:]...)
	at := len(b)
	b = append(b, payload...)
	for i := range payload {
		b[at+i] ^= mask[i&3]
	}
	return b
}

type srvFrame struct {
	op      byte
	payload []byte
}

// parseSrvFrame reads one unmasked, minimally encoded, unfragmented frame.
// n == 0 means incomplete.
func parseSrvFrame(b []byte) (f srvFrame, n int, err error) {
	if len(b) < 2 {
		return
	}
	if b[0]&0x80 == 0 {
		return f, 0, fmt.Errorf("frame header %x: FIN is not set", b[:2])
	}
	if b[0]&0x70 != 0 {
		return f, 0, fmt.Errorf("frame header %x: reserved bits are set", b[:2])
	}
	f.op = b[0] & 15
	if b[1]&0x80 != 0 {
		return f, 0, fmt.Errorf("frame header %x: the server's frame is masked", b[:2])
	}
	l, h := int(b[1]&0x7f), 2
	switch l {
	case 126:
		if len(b) < 4 {
			return
		}
		l, h = int(binary.BigEndian.Uint16(b[2:])), 4
		if l < 126 {
			return f, 0, fmt.Errorf("frame header %x: length %d is not minimally encoded", b[:4], l)
		}
	case 127:
		if len(b) < 10 {
			return
		}
		v := binary.BigEndian.Uint64(b[2:])
		if v < 65536 || v > 1<<30 {
			return f, 0, fmt.Errorf("frame header %x: length %d is wrong or not minimally encoded", b[:10], v)
		}
		l, h = int(v), 10
	}
	if f.op >= 8 && l > 125 {
		return f, 0, fmt.Errorf("control frame with %d bytes of payload", l)
	}
	if len(b) < h+l {
		return
	}
	f.payload = append([]byte{}, b[h:h+l]...)
	return f, h + l, nil
}

// wsNext takes the next server frame from the sink.
func (w *W) wsNext(prop string, cs *ConnS, s *sink, what string) (f srvFrame, ok bool) {
	var perr error
	n := 0
	if !w.Await(fmt.Sprintf("connection %d: %s", cs.id, what), s.Got, func() bool {
		s.mu.Lock()
		f, n, perr = parseSrvFrame(s.buf)
		s.mu.Unlock()
		return n > 0 || perr != nil || s.Ended()
	}) {
		return
	}
	if perr != nil {
		w.V(prop, "connection %d: %s: %v", cs.id, what, perr)
		return
	}
	if n == 0 {
		// the stream may have ended after the last look at the buffer
		s.mu.Lock()
		f, n, perr = parseSrvFrame(s.buf)
		s.mu.Unlock()
		if n == 0 || perr != nil {
			w.V(prop, "connection %d: %s: the stream ended (%v) with %d unparsed bytes", cs.id, what, s.Err(), s.Pending())
			return
		}
	}
	s.Take(n)
	return f, true
}

// httpResponse takes one HTTP response from the sink.
func (w *W) httpResponse(prop string, cs *ConnS, s *sink, what string) (*http.Response, string, bool) {
	var resp *http.Response
	var body string
	n := 0
	var perr error
	parse := func() {
		b := s.Peek()
		i := bytes.Index(b, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		rd := bytes.NewReader(b)
		br := bufio.NewReader(rd)
		r, err := http.ReadResponse(br, &http.Request{Method: "GET"})
		if err != nil {
			perr = err
			return
		}
		if r.StatusCode == 101 {
			resp, n = r, i+4
			return
		}
		if r.ContentLength < 0 {
			perr = fmt.Errorf("response without Content-Length: %q", b[:i+4])
			return
		}
		if int64(len(b)) < int64(i+4)+r.ContentLength {
			return
		}
		body = string(b[i+4 : i+4+int(r.ContentLength)])
		resp, n = r, i+4+int(r.ContentLength)
	}
	if !w.Await(fmt.Sprintf("connection %d: %s", cs.id, what), s.Got, func() bool {
		parse()
		return n > 0 || perr != nil || s.Ended()
	}) {
		return nil, "", false
	}
	if n == 0 && perr == nil {
		parse()
	}
	if perr != nil || n == 0 {
		w.V(prop, "connection %d: %s: no well-formed HTTP response (%v, stream error %v): %q", cs.id, what, perr, s.Err(), head(string(s.Peek()), 300))
		return nil, "", false
	}
	s.Take(n)
	return resp, body, true
}

// upgrade performs a plain handshake and fails the property prop when refused.
func (w *W) wsUpgrade(prop string, srv *Srv, conn io.Writer, cs *ConnS, s *sink, rng *rand.Rand) (int, bool) {
	key := wsKey(rng)
	req := "GET /chat HTTP/1.1\r\nHost: example.org\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key + "\r\nSec-WebSocket-Version: 13\r\n\r\n"
	if _, err := conn.Write([]byte(req)); err != nil {
		w.V(prop, "connection %d: the server ended the connection before the handshake: %v", cs.id, err)
		return 0, false
	}
	resp, _, ok := w.httpResponse(prop, cs, s, "the handshake is answered")
	if !ok {
		return 0, false
	}
	if resp.StatusCode != 101 || resp.Header.Get("Sec-WebSocket-Accept") != wsAccept(key) {
		w.V(prop, "connection %d: a valid handshake was answered with status %d", cs.id, resp.StatusCode)
		return 0, false
	}
	return len(req), true
}

// ------------------------------------------------------------ handshake (C17)

// hsCase is one upgrade request and what must come back.
type hsCase struct {
	label   string
	request string
	status  map[int]bool
	key     string
	proto   string   // expected Sec-WebSocket-Protocol
	ext     []string // expected extension names, in order
	hdr     map[string]string
	body    string // expected body of a veto ("" = any)
	fault   bool
}

const (
	hsPlain = iota
	hsSelect
	hsHooks
	hsCustom
	numHs
)

var vetoErrs = []struct {
	name   string
	err    error
	status int
	body   string
	hdr    string
}{
	{"plain", errors.New("application says no"), 500, "application says no", ""},
	{"status", ws.RejectConnectionError(ws.RejectionStatus(403), ws.RejectionReason("not for you")), 403, "not for you", ""},
	{"header", ws.RejectConnectionError(ws.RejectionStatus(401), ws.RejectionReason("log in first"), ws.RejectionHeader(ws.HandshakeHeaderString("X-Why: token\r\n"))), 401, "log in first", "token"},
	{"nostatus", ws.RejectConnectionError(ws.RejectionReason("no status given")), 500, "no status given", ""},
	{"teapot", ws.RejectConnectionError(ws.RejectionStatus(418), ws.RejectionReason(strings.Repeat("long reason ", 40))), 418, strings.Repeat("long reason ", 40), ""},
	{"badreq", ws.RejectConnectionError(ws.RejectionStatus(400), ws.RejectionReason("bad for me")), 400, "bad for me", ""},
}

func vetoNamed(s string) error {
	for _, v := range vetoErrs {
		if v.name == s {
			return v.err
		}
	}
	return nil
}

func hsUpgrader(kind int) *ws.Upgrader {
	u := &ws.Upgrader{}
	switch kind {
	case hsSelect:
		u.Protocol = func(p []byte) bool { return string(p) == "chat.v2" || string(p) == "chat.v1" }
		u.Extension = func(o httphead.Option) bool { return strings.HasPrefix(string(o.Name), "x-good") }
		u.Header = ws.HandshakeHeaderString("X-Server: gev\r\n")
	case hsHooks:
		u.Header = ws.HandshakeHeaderHTTP(http.Header{"X-Server": []string{"gev"}})
		u.OnRequest = func(c *gev.Connection, uri []byte) error {
			s := string(uri)
			if k := strings.Index(s, "before="); k >= 0 {
				c.Set("before", s[k+7:])
			}
			if k := strings.Index(s, "request="); k >= 0 {
				return vetoNamed(s[k+8:])
			}
			return nil
		}
		u.OnHost = func(c *gev.Connection, host []byte) error {
			if k := strings.Index(string(host), "veto-"); k == 0 {
				return vetoNamed(string(host)[5:])
			}
			return nil
		}
		u.OnHeader = func(c *gev.Connection, key, value []byte) error {
			if strings.EqualFold(string(key), "X-Veto") {
				return vetoNamed(string(value))
			}
			return nil
		}
		u.OnBeforeUpgrade = func(c *gev.Connection) (ws.HandshakeHeader, error) {
			if v, ok := c.Get("before"); ok {
				if err := vetoNamed(v.(string)); err != nil {
					return nil, err
				}
			}
			return ws.HandshakeHeaderString("X-Before: yes\r\n"), nil
		}
	case hsCustom:
		u.ProtocolCustom = func(c *gev.Connection, v []byte) (string, bool) {
			if bytes.Contains(v, []byte("malformed")) {
				return "", false
			}
			if bytes.Contains(v, []byte("graphql")) {
				return "graphql", true
			}
			return "", true
		}
		u.ExtensionCustom = func(c *gev.Connection, v []byte, sel []httphead.Option) ([]httphead.Option, bool) {
			if bytes.Contains(v, []byte("malformed")) {
				return nil, false
			}
			if bytes.Contains(v, []byte("zip")) {
				sel = append(sel, httphead.NewOption("zip", map[string]string{"level": "9"}))
			}
			return sel, true
		}
		u.OnBeforeUpgrade = func(c *gev.Connection) (ws.HandshakeHeader, error) {
			return ws.HandshakeHeaderString("X-Before: yes\r\n"), nil
		}
	}
	return u
}

func randCase(rng *rand.Rand, s string) string {
	switch rng.Intn(4) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if rng.Intn(2) == 0 {
				b[i] = strings.ToLower(string(b[i]))[0]
			} else {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func only(codes ...int) map[int]bool {
	m := map[int]bool{}
	for _, c := range codes {
		m[c] = true
	}
	return m
}

// hsGen builds a request for one kind of upgrader; fault < 0 means valid.
func hsGen(rng *rand.Rand, kind, fault int, big bool) hsCase {
	c := hsCase{status: only(101), key: wsKey(rng), hdr: map[string]string{}, label: "valid", fault: fault >= 0}
	method, uri, ver := "GET", "/", "HTTP/1.1"
	switch rng.Intn(4) {
	case 0:
		uri = "/chat?room=1&x=a%20b"
	case 1:
		uri = "http://example.org/abs/path"
	case 2:
		uri = "/" + strings.Repeat("deep/", rng.Intn(20))
	}
	type kv struct{ k, v string }
	conns := []string{"Upgrade", "upgrade", "UPGRADE", "keep-alive, Upgrade", "Upgrade, keep-alive", "keep-alive,upgrade", "Keep-Alive , Upgrade, foo"}
	host := kv{"Host", []string{"example.org", "localhost:8080", "[::1]:80", "10.0.0.1"}[rng.Intn(4)]}
	up := kv{"Upgrade", []string{"websocket", "WebSocket", "WEBSOCKET", "websocket, h2c", "h2c,WebSocket"}[rng.Intn(5)]}
	cn := kv{"Connection", conns[rng.Intn(len(conns))]}
	sv := kv{"Sec-WebSocket-Version", "13"}
	sk := kv{"Sec-WebSocket-Key", c.key}
	var extra []kv
	for i := rng.Intn(5); i > 0; i-- {
		extra = append(extra, []kv{
			{"User-Agent", "test/1.0 (x; y:z)"}, {"Origin", "http://example.org"}, {"Cookie", "a=b; c=\"d:e\""},
			{"Accept-Encoding", "gzip, deflate"}, {"X-Empty", ""}, {"Pragma", "no-cache"}}[rng.Intn(6)])
	}
	if big {
		extra = append(extra, kv{"X-Big", strings.Repeat("v", 1+rng.Intn(60000))})
	}
	accept := func(status int) { c.status = only(status) }
	switch kind {
	case hsSelect:
		c.hdr["X-Server"] = "gev"
		if rng.Intn(2) == 0 {
			v := []string{"chat.v1", "chat.v2, chat.v1", "other, chat.v1", "other,chat.v2,chat.v1", "other", "a, b, c"}[rng.Intn(6)]
			extra = append(extra, kv{"Sec-WebSocket-Protocol", v})
			for _, t := range strings.Split(v, ",") {
				if t = strings.TrimSpace(t); t == "chat.v1" || t == "chat.v2" {
					c.proto = t
					break
				}
			}
		}
		if rng.Intn(2) == 0 {
			v := []string{"x-good", "x-bad, x-good", "x-good; a=1, x-bad", "x-bad", "x-good1; p, x-good2; q=\"r\""}[rng.Intn(5)]
			extra = append(extra, kv{"Sec-WebSocket-Extensions", v})
			for _, t := range strings.Split(v, ",") {
				t = strings.TrimSpace(strings.SplitN(t, ";", 2)[0])
				if strings.HasPrefix(t, "x-good") {
					c.ext = append(c.ext, t)
				}
			}
		}
	case hsCustom:
		c.hdr["X-Before"] = "yes"
		switch rng.Intn(4) {
		case 0:
			extra = append(extra, kv{"Sec-WebSocket-Protocol", "rest, graphql"})
			c.proto = "graphql"
		case 1:
			extra = append(extra, kv{"Sec-WebSocket-Protocol", "rest"})
		case 2:
			extra = append(extra, kv{"Sec-WebSocket-Extensions", "tar, zip"})
			c.ext = []string{"zip"}
		}
	case hsHooks:
		c.hdr["X-Server"] = "gev"
		c.hdr["X-Before"] = "yes"
	}
	hs := []kv{host, up, cn, sv, sk}
	drop := func(i int) { hs = append(append([]kv{}, hs[:i]...), hs[i+1:]...) }
	rawLine := ""
	if fault >= 0 {
		c.proto, c.ext = "", nil
		delete(c.hdr, "X-Before")
		switch fault % numFaults {
		case 0:
			method, c.label = []string{"POST", "HEAD", "PUT", "OPTIONS", "get"}[rng.Intn(5)], "method"
			accept(405)
		case 1:
			ver, c.label = []string{"HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/3.1"}[rng.Intn(4)], "http-version"
			accept(505)
		case 2:
			ver, c.label = []string{"", "HTTP", "HTTX/1.1", "HTTP/a.b", "HTTP/11", "HTTP/1.:", "HTTP/1.1?", "HTTP/1.", "HTTP/.1", "HTTP/1.1.1", "HTTP/<.1"}[rng.Intn(11)], "request-line"
			accept(400)
		case 3:
			drop(0)
			c.label = "no-host"
			accept(400)
		case 4:
			drop(1)
			c.label = "no-upgrade"
			accept(400)
		case 5:
			drop(2)
			c.label = "no-connection"
			accept(400)
		case 6:
			drop(3)
			c.label = "no-version"
			accept(400)
		case 7:
			drop(4)
			c.label = "no-key"
			accept(400)
		case 8:
			hs[1].v, c.label = []string{"h2c", "web socket", "websockets", ""}[rng.Intn(4)], "upgrade-value"
			accept(400)
		case 9:
			hs[2].v, c.label = []string{"keep-alive", "close", "upgraded", "keep-alive, foo"}[rng.Intn(4)], "connection-value"
			accept(400)
		case 10:
			hs[3].v, c.label = []string{"8", "12", "14", "0", "130", "1"}[rng.Intn(6)], "version-value"
			accept(426)
			c.hdr["Sec-Websocket-Version"] = "13"
		case 11:
			hs[4].v, c.label = []string{"", "short", c.key + "x", c.key[:23]}[rng.Intn(4)], "key-value"
			accept(400)
		case 12:
			rawLine, c.label = []string{"no colon here", "X-Header value", "=="}[rng.Intn(3)], "header-line"
			accept(400)
		case 13: // two faults: either status is appropriate
			drop(0)
			method, c.label = "POST", "method+host"
			c.status = only(405, 400)
		case 14:
			hs[3].v, c.label = "8", "version+upgrade"
			hs[1].v = "h2c"
			c.status = only(426, 400)
			delete(c.hdr, "Sec-Websocket-Version")
		}
		if kind == hsHooks && fault >= numFaults {
			// a user hook vetoes an otherwise valid request
			hs = []kv{host, up, cn, sv, sk}
			method, ver, rawLine = "GET", "HTTP/1.1", ""
			delete(c.hdr, "Sec-Websocket-Version")
			v := vetoErrs[rng.Intn(len(vetoErrs))]
			c.body = v.body
			accept(v.status)
			if v.hdr != "" {
				c.hdr["X-Why"] = v.hdr
			}
			switch (fault - numFaults) % 4 {
			case 0:
				uri, c.label = "/?request="+v.name, "veto-request-"+v.name
			case 1:
				hs[0].v, c.label = "veto-"+v.name, "veto-host-"+v.name
			case 2:
				extra, c.label = append(extra, kv{"X-Veto", v.name}), "veto-header-"+v.name
			case 3:
				uri, c.label = "/?before="+v.name, "veto-before-"+v.name
			}
		}
		if kind == hsCustom && fault >= numFaults {
			hs = []kv{host, up, cn, sv, sk}
			method, ver, rawLine = "GET", "HTTP/1.1", ""
			delete(c.hdr, "Sec-Websocket-Version")
			extra = []kv{{[]string{"Sec-WebSocket-Protocol", "Sec-WebSocket-Extensions"}[fault&1], "malformed"}}
			c.label = "veto-custom"
			accept(400)
		}
	}
	hs = append(hs, extra...)
	if kind == hsSelect || rng.Intn(4) != 0 {
		rng.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	}
	var b strings.Builder
	if ver == "" {
		b.WriteString(method + " " + uri + "\r\n")
	} else {
		b.WriteString(method + " " + uri + " " + ver + "\r\n")
	}
	at := rng.Intn(len(hs) + 1)
	for i, h := range hs {
		if i == at && rawLine != "" {
			b.WriteString(rawLine + "\r\n")
		}
		ws := []string{" ", "", "  ", "\t", " \t "}[rng.Intn(5)]
		tail := []string{"", "", " ", "\t"}[rng.Intn(4)]
		b.WriteString(randCase(rng, h.k) + ":" + ws + h.v + tail + "\r\n")
	}
	if at == len(hs) && rawLine != "" {
		b.WriteString(rawLine + "\r\n")
	}
	b.WriteString("\r\n")
	c.request = b.String()
	return c
}

const numFaults = 15

func scenarioHandshake(w *W) {
	kind := w.Param("kind", 0)
	var seenMsgs sync.Map // *gev.Connection -> *int64
	user := &wsUser{}
	user.onConn = func(c *gev.Connection) { seenMsgs.Store(c, new(int64)) }
	user.onMsg = func(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
		if v, ok := seenMsgs.Load(c); ok {
			atomic.AddInt64(v.(*int64), 1)
		}
		return ws.MessageBinary, append([]byte("re:"), msg...)
	}
	srv, p := w.wsServer(hsUpgrader(kind), user, SrvOpt{Loops: 1 + kind%3})
	msgs := func(cs *ConnS) int64 {
		if v, ok := seenMsgs.Load(cs.c); ok {
			return atomic.LoadInt64(v.(*int64))
		}
		return 0
	}
	var wg sync.WaitGroup
	workers := 4
	random := w.Scale(w.Param("random", 250), 4000)
	for g := 0; g < workers; g++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			// every two-piece split of one valid and one invalid request
			for _, fault := range []int{-1, (kind*4 + g) % (numFaults + 4)} {
				c := hsGen(rng, kind, fault, false)
				step := 1
				if w.Race {
					step = 7
				}
				for cut := 1; cut < len(c.request) && !w.Violated(); cut += step {
					hsRun(w, srv, p, rng, kind, c, []int{cut}, msgs)
				}
			}
			all := hsGen(rng, kind, -1, false)
			var cuts []int
			for i := 1; i < len(all.request); i++ {
				cuts = append(cuts, i)
			}
			hsRun(w, srv, p, rng, kind, all, cuts, msgs)
			for i := 0; i < random && !w.Violated(); i++ {
				fault := -1
				if i%2 == 1 {
					fault = rng.Intn(numFaults + 4)
					if kind == hsHooks && rng.Intn(2) == 0 {
						fault = numFaults + rng.Intn(8)
					}
				}
				c := hsGen(rng, kind, fault, rng.Intn(12) == 0)
				hsRun(w, srv, p, rng, kind, c, randCuts(rng, len(c.request)), msgs)
			}
		}(g)
	}
	wg.Wait()
	if !w.Violated() {
		srv.Stop()
	}
}

func hsRun(w *W, srv *Srv, p *seenProto, rng *rand.Rand, kind int, c hsCase, cuts []int, msgs func(*ConnS) int64) {
	conn, cs := srv.DialCS(0, 0)
	defer conn.Close()
	s := newSink(conn)
	pc := p.pc(cs.c)
	what := fmt.Sprintf("%s upgrade request in %d pieces", c.label, len(cuts)+1)
	lock := len(cuts) < 30 || rng.Intn(2) == 0
	var sent int64
	from := 0
	shown := func(n int64) bool {
		return w.Await(fmt.Sprintf("connection %d: the protocol is shown %d bytes (%s)", cs.id, n, what), func() int64 { return atomic.LoadInt64(&pc.calls) },
			func() bool { return atomic.LoadInt64(&pc.seen) >= n || cs.Closed() })
	}
	for _, cut := range append(append([]int{}, cuts...), len(c.request)) {
		if cut <= from {
			continue
		}
		if _, err := conn.Write([]byte(c.request[from:cut])); err != nil {
			w.V("C17", "connection %d: the server ended the connection during the request (%s): %v", cs.id, what, err)
			return
		}
		sent += int64(cut - from)
		from = cut
		if lock && cut < len(c.request) {
			if !shown(sent) {
				return
			}
			if n := atomic.LoadInt64(&pc.outs); n != 0 || s.Got() != 0 || cs.Closed() {
				w.V("C17", "connection %d: answered after %d of %d bytes of the request (%s): %q", cs.id, cut, len(c.request), what, head(string(s.Peek()), 100))
				return
			}
		}
	}
	resp, body, ok := w.httpResponse("C17", cs, s, "the "+what+" is answered")
	if !ok {
		w.V("C17", "request was: %q", head(c.request, 400))
		return
	}
	if !c.status[resp.StatusCode] {
		w.V("C17", "connection %d: %s answered with status %d, want %v; request %q", cs.id, what, resp.StatusCode, c.status, head(c.request, 600))
		return
	}
	for k, v := range c.hdr {
		if got := resp.Header.Get(k); got != v {
			w.V("C17", "connection %d: %s: response header %s is %q, want %q", cs.id, what, k, got, v)
		}
	}
	payload := make([]byte, 1+rng.Intn(100))
	for i := range payload {
		payload[i] = 'a' + byte(i%26)
	}
	frame := wsEncode(true, 2, [4]byte{1, 2, 3, 4}, payload)
	if resp.StatusCode == 101 {
		if v := resp.Header.Get("Sec-WebSocket-Accept"); v != wsAccept(c.key) || len(resp.Header.Values("Sec-WebSocket-Accept")) != 1 {
			w.V("C17", "connection %d: %s: accept key %q, want %q", cs.id, what, v, wsAccept(c.key))
		}
		if !strings.EqualFold(resp.Header.Get("Upgrade"), "websocket") || !strings.EqualFold(resp.Header.Get("Connection"), "upgrade") {
			w.V("C17", "connection %d: %s: 101 response with Upgrade %q and Connection %q", cs.id, what, resp.Header.Get("Upgrade"), resp.Header.Get("Connection"))
		}
		if v := resp.Header.Get("Sec-WebSocket-Protocol"); v != c.proto {
			w.V("C17", "connection %d: %s: negotiated subprotocol %q, want %q", cs.id, what, v, c.proto)
		}
		var names []string
		if v := resp.Header.Get("Sec-WebSocket-Extensions"); v != "" {
			for _, t := range strings.Split(v, ",") {
				names = append(names, strings.TrimSpace(strings.SplitN(t, ";", 2)[0]))
			}
		}
		if strings.Join(names, ",") != strings.Join(c.ext, ",") {
			w.V("C17", "connection %d: %s: negotiated extensions %v, want %v", cs.id, what, names, c.ext)
		}
		// the connection speaks WebSocket now, and nothing but the 101 came
		if _, err := conn.Write(frame); err != nil {
			w.V("C17", "connection %d: closed after the upgrade: %v", cs.id, err)
			return
		}
		f, ok := w.wsNext("C17", cs, s, "a message sent after the upgrade is answered ("+what+")")
		if !ok {
			return
		}
		if f.op != 2 || string(f.payload) != "re:"+string(payload) {
			w.V("C17", "connection %d: after the upgrade a message was answered with opcode %d, %d bytes", cs.id, f.op, len(f.payload))
		}
		if msgs(cs) != 1 {
			w.V("C17", "connection %d: %d messages reached the handler after one was sent", cs.id, msgs(cs))
		}
	} else {
		if c.body != "" && body != c.body {
			w.V("C17", "connection %d: %s: rejected with body %q, want %q", cs.id, what, body, c.body)
		}
		// it is not upgraded: a frame sent now is not a message
		_, _ = conn.Write(frame)
		_ = conn.CloseWrite()
		if !w.Await(fmt.Sprintf("connection %d: the stream ends once the rejected client has finished (%s)", cs.id, what), srv.Progress, func() bool { return cs.Closed() && s.Ended() }) {
			return
		}
		if s.Pending() != 0 {
			w.V("C17", "connection %d: %s: %d extra bytes after the error response: %q", cs.id, what, s.Pending(), head(string(s.Peek()), 200))
		}
		if msgs(cs) != 0 {
			w.V("C17", "connection %d: a message reached the handler after the request was rejected (%s)", cs.id, what)
		}
	}
	w.Ev(fmt.Sprintf("status-%d", resp.StatusCode), 1)
	w.Case(fmt.Sprintf("kind=%d %s status=%d len=%d cuts=%d/%x", kind, c.label, resp.StatusCode, len(c.request), len(cuts), cutsHash(cuts)))
}

func init() {
	scenarios["handshake"] = scenarioHandshake
	register("C17", &Property{
		Rule:        "one case = one connection sending one upgrade request under one segmentation (all two-piece splits of sample requests, byte-wise, random), valid with random header order, name case, whitespace and standard values, or with one fault or veto; lock-step cases require that nothing is answered before the last byte; accepted cases then exchange a message, rejected ones send a frame and must see exactly one error response and the end of the stream; distinct by configuration, kind of request, length and cuts",
		Assumptions: []string{"loopback TCP is faithful", "the user hooks themselves return promptly", "a header is not repeated"},
		jobs: func(tier string) []Job {
			var js []Job
			for k := 0; k < numHs; k++ {
				js = append(js, Job{Name: fmt.Sprintf("kind-%d", k), Scenario: "handshake", P: map[string]int{"kind": k}})
			}
			js = append(js, Job{Name: "perturbed", Scenario: "handshake", Perturb: 1, P: map[string]int{"kind": hsHooks}})
			if tier == "thorough" {
				for i := 0; i < 8; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "handshake", Perturb: i % 3, P: map[string]int{"kind": i % numHs}})
				}
			}
			return js
		}})
}
