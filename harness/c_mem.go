package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"
)

// The retention scenario decides C30: what is over leaves nothing behind.
// Everything the program attaches to connections, sends, timers and tasks
// carries a tag with a finalizer; after a history the collector must be able to
// reclaim (nearly) all of them although the server is still running, and all of
// them once it has been stopped and dropped.

func init() {
	scenarios["retain"] = scenarioRetain
	register("C30", &Property{
		Rule: "one case = one connection (ended by its peer's close or reset, by the server from a callback or another goroutine, by write-shutdown, by idle timeout; plain, framed with an unfinished frame, with unread output, websocket), one send with completion callback, one fired or stopped timer or one loop task, carrying values whose reclamation by the collector is observed while the server keeps running, or one server observed after Stop; plus the growth of the live heap over tens of thousands of messages; distinct by kind, server variant and round",
		Assumptions: []string{
			"the Go collector finalizes unreachable objects within the collections forced (control objects must have been finalized)",
			"up to a few dozen finished functions may stay in the reused task queues of each loop",
		},
		Par: 4,
		jobs: func(tier string) []Job {
			return []Job{
				{Name: "plain", Scenario: "retain", P: map[string]int{"variant": 0}},
				{Name: "long-idle", Scenario: "retain", Seed: 1, P: map[string]int{"variant": 1}},
				{Name: "short-idle", Scenario: "retain", Seed: 2, P: map[string]int{"variant": 2}},
				{Name: "websocket", Scenario: "retain", Seed: 3, P: map[string]int{"variant": 3}},
				{Name: "long-idle-pert", Scenario: "retain", Seed: 4, Perturb: 1, P: map[string]int{"variant": 1}},
				{Name: "plain-procs2", Scenario: "retain", Seed: 5, Procs: 2, P: map[string]int{"variant": 0}},
			}
		},
	})
}

const (
	mkFin = iota
	mkRst
	mkCallbackClose
	mkGoroutineClose
	mkShutdown
	mkIdle
	mkUnfinished
	mkUnread
	mkCloseFrame
	mkSend
	mkTimerFired
	mkTimerStopped
	mkPeriodic
	mkKeyDeleted
	mkBurstSend
	mkServer
	mkControl
	mkKinds
)

var mkNames = [mkKinds]string{"closed by its peer", "reset by its peer", "closed from a callback", "closed from a goroutine",
	"write-shutdown", "idle timeout", "closed with an unfinished frame", "closed with unread output", "websocket close frame",
	"completion callback of a finished send", "delayed task that ran", "delayed task that was stopped", "periodic task that was stopped",
	"deleted or replaced key", "completion callback of a send in a burst", "stopped server", "control"}

type memTag struct {
	kind int
	pad  [40]uint64
}

type memRun struct {
	w           *W
	made, freed [mkKinds]int64
	connects    int64
	closes      int64
	finished    int64
	beat        int64
	held        chan heldLoop
}

type heldLoop struct {
	c       *gev.Connection
	release chan struct{}
}

func (r *memRun) tag(kind int) *memTag {
	t := &memTag{kind: kind}
	atomic.AddInt64(&r.made[kind], 1)
	freed := &r.freed[kind]
	runtime.SetFinalizer(t, func(*memTag) { atomic.AddInt64(freed, 1) })
	return t
}

// memH is a handler that keeps no reference to connections.
type memH struct {
	r   *memRun
	own *memTag
}

func (h *memH) OnConnect(c *gev.Connection) { atomic.AddInt64(&h.r.connects, 1) }
func (h *memH) OnClose(c *gev.Connection)   { atomic.AddInt64(&h.r.closes, 1) }

// message is the payload of the first message of a connection: its kind.
func (h *memH) message(c *gev.Connection, data []byte) []byte {
	r := h.r
	atomic.AddInt64(&r.beat, 1)
	if len(data) == 0 {
		return nil
	}
	kind := int(data[0])
	if kind == 255 { // hold the loop until a burst of sends is queued
		release := make(chan struct{})
		r.held <- heldLoop{c, release}
		<-release
		return data[:1]
	}
	if kind >= mkKinds { // bulk traffic
		return data[:1]
	}
	c.SetContext(r.tag(kind))
	c.Set("tag", r.tag(kind))
	for i := 0; i < 3; i++ {
		c.Set("gone", r.tag(mkKeyDeleted))
	}
	c.Delete("gone")
	t := r.tag(mkSend)
	_ = c.Send([]byte{'s'}, gev.SendInLoop(func(interface{}) {
		t.pad[0]++
		atomic.AddInt64(&r.finished, 1)
	}))
	switch kind {
	case mkCallbackClose:
		_ = c.Close()
	case mkGoroutineClose:
		go func() { _ = c.Close() }()
	case mkShutdown:
		_ = c.ShutdownWrite()
	case mkUnread:
		return make([]byte, 4<<20)
	}
	return []byte{'r'}
}

func (h *memH) OnMessage(c *gev.Connection, ctx interface{}, data []byte) interface{} {
	out := h.message(c, data)
	if out == nil {
		return nil
	}
	return out
}

type memWS struct{ h *memH }

func (m *memWS) OnConnect(c *gev.Connection) { m.h.OnConnect(c) }
func (m *memWS) OnClose(c *gev.Connection)   { m.h.OnClose(c) }
func (m *memWS) OnMessage(c *gev.Connection, msg []byte) (ws.MessageType, []byte) {
	return ws.MessageBinary, m.h.message(c, msg)
}

// memProto frames by a 4-byte length.
type memProto struct{}

func (memProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	if b.VirtualLength() < 4 {
		return nil, nil
	}
	n := int(b.PeekUint32())
	if b.Length() < 4+n {
		return nil, nil
	}
	b.Retrieve(4)
	out := make([]byte, n)
	_, _ = b.Read(out)
	return nil, out
}

func (memProto) Packet(c *gev.Connection, data interface{}) []byte { return data.([]byte) }

func (r *memRun) server(variant int) (*gev.Server, string, chan struct{}) {
	w := r.w
	h := &memH{r: r, own: r.tag(mkServer)}
	var handler gev.Handler = h
	var opts []gev.Option
	switch variant {
	case 0:
		opts = append(opts, gev.CustomProtocol(memProto{}))
	case 1:
		opts = append(opts, gev.CustomProtocol(memProto{}), gev.IdleTime(time.Hour))
	case 2:
		opts = append(opts, gev.CustomProtocol(memProto{}), gev.IdleTime(40*time.Millisecond))
	case 3:
		u := &ws.Upgrader{}
		handler = websocket.NewHandlerWrap(u, &memWS{h})
		opts = append(opts, gev.CustomProtocol(websocket.New(u)), gev.IdleTime(time.Hour))
	}
	for try := 0; ; try++ {
		addr := fmt.Sprintf("%s:%d", workerIP(), nextPort())
		s, err := gev.NewServer(handler, append(opts, gev.Address(addr), gev.NumLoops(2))...)
		if err != nil {
			if try < 50 {
				continue
			}
			w.Fatal("NewServer: %v", err)
		}
		stopped := make(chan struct{})
		go func() {
			s.Start()
			close(stopped)
		}()
		return s, addr, stopped
	}
}

func memFrame(b []byte) []byte {
	out := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(out, uint32(len(b)))
	copy(out[4:], b)
	return out
}

// client does one connection of a kind and returns when its end has been seen.
func (r *memRun) client(addr string, variant, kind int, rng *rand.Rand) {
	w := r.w
	c := w.dial(addr, 0, 0)
	_ = c.SetDeadline(time.Now().Add(120 * time.Second))
	defer c.Close()
	buf := make([]byte, 4096)
	if variant == 3 {
		fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: %s\r\n\r\n", wsKey(rng))
		if n, err := c.Read(buf); err != nil || n < 12 {
			w.Inconclusive("handshake: %d bytes, %v", n, err)
			return
		}
		_, _ = c.Write(wsEncode(true, 2, randMask(rng), []byte{byte(kind)}))
	} else {
		_, _ = c.Write(memFrame([]byte{byte(kind)}))
	}
	switch kind {
	case mkFin, mkRst, mkUnfinished, mkUnread, mkCloseFrame:
		if _, err := c.Read(buf[:1]); err != nil {
			w.Inconclusive("no reply: %v", err)
			return
		}
		switch kind {
		case mkFin:
			_ = c.CloseWrite()
		case mkRst, mkUnread:
			rst(c)
			return
		case mkUnfinished:
			big := make([]byte, 70000)
			binary.BigEndian.PutUint32(big, 1<<20)
			if variant == 3 {
				big = wsEncode(true, 2, randMask(rng), make([]byte, 200000))[:150000]
			}
			_, _ = c.Write(big)
			if rng.Intn(2) == 0 {
				rst(c)
				return
			}
			_ = c.CloseWrite()
		case mkCloseFrame:
			_, _ = c.Write(wsEncode(true, 8, randMask(rng), closeBody(1000, "bye")))
		}
	}
	for {
		if _, err := c.Read(buf); err != nil {
			if ne, ok := err.(net.Error); ok && ne.Timeout() && err != io.EOF {
				w.Inconclusive("connection not ended: %v", err)
			}
			break
		}
	}
}

// settle waits until at most allowed tags of each kind are still reachable.
func (r *memRun) settle(what string, allowed func(kind int) int64, kinds ...int) bool {
	w := r.w
	var left []string
	for round := 0; round < 60; round++ {
		r.tag(mkControl)
		runtime.GC()
		time.Sleep(time.Duration(5+round) * time.Millisecond)
		left = nil
		for _, k := range kinds {
			if n := atomic.LoadInt64(&r.made[k]) - atomic.LoadInt64(&r.freed[k]); n > allowed(k) {
				left = append(left, fmt.Sprintf("%d of %d (%s, %d allowed)", n, atomic.LoadInt64(&r.made[k]), mkNames[k], allowed(k)))
			}
		}
		if len(left) == 0 {
			return true
		}
		if round > 40 && atomic.LoadInt64(&r.freed[mkControl]) < int64(round)-6 {
			w.Inconclusive("control objects are not finalized either")
			return false
		}
	}
	w.V("C30", "%s: values still referenced: %v", what, left)
	return false
}

func liveHeap() int64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

func scenarioRetain(w *W) {
	debug.SetGCPercent(400)
	variant := w.Param("variant", 0)
	for round := 0; round < w.Scale(1, 12) && !w.Violated(); round++ {
		retainRound(w, variant, round)
	}
}

func retainRound(w *W, variant, round int) {
	r := &memRun{w: w, held: make(chan heldLoop, 1)}
	srv, addr, stopped := r.server(variant)
	per := 400
	kinds := []int{mkFin, mkRst, mkCallbackClose, mkGoroutineClose, mkShutdown, mkUnfinished, mkUnread}
	switch variant {
	case 2:
		kinds = []int{mkFin, mkIdle, mkRst, mkCallbackClose}
		per = 250
	case 3:
		kinds = []int{mkFin, mkRst, mkCloseFrame, mkGoroutineClose, mkUnfinished}
	}
	const parallel = 6
	base := liveHeap()
	for _, kind := range append(kinds, -1) {
		if kind < 0 && kinds[len(kinds)-1] == mkUnread {
			break // a few of those connections may stay in the task queues, with their buffers
		}
		if kind < 0 || kind == mkUnread { // unfinished frames do not stay in memory
			if grown := liveHeap() - base; grown > 24<<20 {
				w.V("C30", "the live heap grew by %d bytes over %d closed connections", grown, atomic.LoadInt64(&r.connects))
				return
			}
			if kind < 0 {
				break
			}
			per /= 4
		}
		var wg sync.WaitGroup
		for g := 0; g < parallel; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(w.Seed + int64(g*1000+kind+round*77)))
				for i := g; i < per && !w.Violated(); i += parallel {
					r.client(addr, variant, kind, rng)
				}
			}(g)
		}
		wg.Wait()
		if !w.Await("every connection is closed", func() int64 { return atomic.LoadInt64(&r.closes) }, func() bool {
			return atomic.LoadInt64(&r.closes) == atomic.LoadInt64(&r.connects)
		}) {
			return
		}
	}
	// timers
	tasks := 300
	var ran int64
	for i := 0; i < tasks; i++ {
		t := r.tag(mkTimerFired)
		srv.RunAfter(time.Duration(i%20)*time.Millisecond, func() { t.pad[0]++; atomic.AddInt64(&ran, 1) })
		t2 := r.tag(mkTimerStopped)
		srv.RunAfter(time.Hour, func() { t2.pad[0]++ }).Stop()
		if i%10 == 0 {
			t3 := r.tag(mkPeriodic)
			tm := srv.RunEvery(time.Millisecond, func() { t3.pad[0]++ })
			time.Sleep(3 * time.Millisecond)
			if !w.AwaitFor("C11", "a periodic task can be stopped", nil, tm.Stop) {
				return
			}
		}
	}
	if !w.AwaitFor("C11", "every delayed task runs", func() int64 { return atomic.LoadInt64(&ran) }, func() bool { return atomic.LoadInt64(&ran) == int64(tasks) }) {
		return
	}
	slack := func(kind int) int64 {
		switch kind {
		case mkTimerFired, mkTimerStopped, mkPeriodic:
			return 3
		case mkSend, mkKeyDeleted:
			return 100
		}
		return 100
	}
	r.settle("server running, connections closed, tasks finished", slack, append(kinds, mkSend, mkKeyDeleted, mkTimerFired, mkTimerStopped, mkPeriodic)...)
	if w.Violated() {
		return
	}
	if variant < 2 {
		if !r.burst(addr) {
			return
		}
	}
	// one connection, many messages
	if variant != 2 {
		if !r.bulk(addr, variant) {
			return
		}
	}
	for _, k := range append(kinds, mkSend, mkBurstSend, mkTimerFired, mkTimerStopped, mkPeriodic, mkKeyDeleted) {
		n := atomic.LoadInt64(&r.made[k])
		w.Ev("reclaimed:"+mkNames[k], atomic.LoadInt64(&r.freed[k]))
		for i := int64(0); i < n; i++ {
			sig := ""
			if i == 0 {
				sig = fmt.Sprintf("%s variant=%d round=%d", mkNames[k], variant, round)
			}
			w.Case(sig)
		}
	}
	srv.Stop()
	if !w.AwaitFor("C08", "Start returns", nil, func() bool { return isClosed(stopped) }) {
		return
	}
	srv = nil
	all := append(kinds, mkSend, mkBurstSend, mkKeyDeleted, mkTimerFired, mkTimerStopped, mkPeriodic, mkServer)
	if r.settle("server stopped and dropped", func(int) int64 { return 0 }, all...) {
		w.Ev("reclaimed:servers", 1)
		w.Case(fmt.Sprintf("server variant=%d round=%d", variant, round))
	}
}

// bulk exchanges many messages on one connection and bounds the growth of the
// live heap.
func (r *memRun) bulk(addr string, variant int) bool {
	w := r.w
	c := w.dial(addr, 0, 0)
	defer c.Close()
	rng := rand.New(rand.NewSource(w.Seed + 5))
	if variant == 3 {
		fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: %s\r\n\r\n", wsKey(rng))
		if _, err := c.Read(make([]byte, 4096)); err != nil {
			w.Inconclusive("handshake: %v", err)
			return false
		}
	}
	one := func(n int) bool {
		buf := make([]byte, 4096)
		var wire []byte
		reply := 1
		p := pattern(n, 7, 0)
		p[0] = mkKinds + 1
		if variant == 3 {
			wire, reply = wsEncode(true, 2, randMask(rng), p), 3
		} else {
			wire = memFrame(p)
		}
		if _, err := c.Write(wire); err != nil {
			w.Inconclusive("bulk write: %v", err)
			return false
		}
		_ = c.SetReadDeadline(time.Now().Add(60 * time.Second))
		if _, err := io.ReadFull(c, buf[:reply]); err != nil {
			w.Inconclusive("bulk reply: %v", err)
			return false
		}
		return true
	}
	for i := 0; i < 200; i++ {
		if !one(1 + rng.Intn(3000)) {
			return false
		}
	}
	before := liveHeap()
	n := 12000
	if w.Perturb > 0 {
		n = 3000
	}
	for i := 0; i < n; i++ {
		if !one(1 + rng.Intn(3000)) {
			return false
		}
	}
	grown := liveHeap() - before
	w.Ev("bulk-messages", int64(n))
	w.Ev("bulk-heap-growth", max(grown, 0))
	w.Case(fmt.Sprintf("bulk variant=%d", variant))
	if grown > int64(n)*48+512<<10 {
		w.V("C30", "the live heap grew by %d bytes over %d messages on one connection", grown, n)
		return false
	}
	return true
}

// burst queues thousands of sends while their loop is held in a callback. Once
// they are done and the connection idles, nothing of them may stay.
func (r *memRun) burst(addr string) bool {
	w := r.w
	c := w.dial(addr, 0, 0)
	defer c.Close()
	_ = c.SetDeadline(time.Now().Add(120 * time.Second))
	if _, err := c.Write(memFrame([]byte{255})); err != nil {
		w.Inconclusive("burst: %v", err)
		return false
	}
	var h heldLoop
	select {
	case h = <-r.held:
	case <-time.After(60 * time.Second):
		w.Inconclusive("burst: not delivered")
		return false
	}
	// many different keys come and go
	keys := 150000
	before := liveHeap()
	for i := 0; i < keys; i++ {
		k := fmt.Sprintf("key %d", i)
		h.c.Set(k, i)
		h.c.Delete(k)
	}
	grown := liveHeap() - before
	w.Ev("keys-set-and-deleted", int64(keys))
	w.Case(fmt.Sprintf("%d keys", keys))
	if grown > 4<<20 {
		close(h.release)
		w.V("C30", "the live heap grew by %d bytes over %d keys set and deleted on one connection", grown, keys)
		return false
	}
	n := w.Scale(6000, 9000)
	for i := 0; i < n; i++ {
		t := r.tag(mkBurstSend)
		_ = h.c.Send(make([]byte, 64), gev.SendInLoop(func(interface{}) { t.pad[0]++ }))
	}
	h.c = nil
	close(h.release)
	if _, err := io.CopyN(io.Discard, c, int64(n)*64+1); err != nil {
		w.Inconclusive("burst: %v", err)
		return false
	}
	w.Ev("burst-sends", int64(n))
	w.Case(fmt.Sprintf("burst of %d", n))
	return r.settle("all of a burst of sends done, connection idle", func(int) int64 { return 100 }, mkBurstSend)
}
