package main

import (
	"fmt"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/ringbuffer"
)

// seenProto wraps a protocol of the library and records how much of each
// connection's input the protocol has been shown, so that a driver can feed a
// stream piece by piece and know when a piece has been dealt with.
type seenProto struct {
	inner gev.Protocol
	conns sync.Map
}

type seenConn struct {
	consumed int64
	seen     int64 // atomic: bytes shown so far
	calls    int64
	outs     int64 // UnPacket calls that produced something
}

func (p *seenProto) pc(c *gev.Connection) *seenConn {
	if v, ok := p.conns.Load(c); ok {
		return v.(*seenConn)
	}
	v, _ := p.conns.LoadOrStore(c, &seenConn{})
	return v.(*seenConn)
}

// UnPacket implements gev.Protocol.
func (p *seenProto) UnPacket(c *gev.Connection, b *ringbuffer.RingBuffer) (interface{}, []byte) {
	pc := p.pc(c)
	atomic.AddInt64(&pc.calls, 1)
	l0 := b.Length()
	ctx, out := p.inner.UnPacket(c, b)
	pc.consumed += int64(l0 - b.Length())
	if ctx != nil || len(out) != 0 {
		atomic.AddInt64(&pc.outs, 1)
	} else {
		atomic.StoreInt64(&pc.seen, pc.consumed+int64(b.Length()))
	}
	return ctx, out
}

// Packet implements gev.Protocol.
func (p *seenProto) Packet(c *gev.Connection, data interface{}) []byte {
	return p.inner.Packet(c, data)
}

// sink collects what a client receives.
type sink struct {
	mu   sync.Mutex
	buf  []byte
	got  int64
	err  error
	done int32
}

func newSink(c net.Conn) *sink {
	s := &sink{}
	go func() {
		b := make([]byte, 64<<10)
		for {
			n, err := c.Read(b)
			s.mu.Lock()
			s.buf = append(s.buf, b[:n]...)
			s.err = err
			s.mu.Unlock()
			atomic.AddInt64(&s.got, int64(n))
			if err != nil {
				atomic.StoreInt32(&s.done, 1)
				return
			}
		}
	}()
	return s
}

func (s *sink) Got() int64 { return atomic.LoadInt64(&s.got) }

// Peek returns a copy of what has not been taken yet.
func (s *sink) Peek() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte{}, s.buf...)
}

// Pending returns the number of bytes not taken yet.
func (s *sink) Pending() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.buf)
}

// Take removes n bytes.
func (s *sink) Take(n int) []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	b := append([]byte{}, s.buf[:n]...)
	s.buf = s.buf[n:]
	return b
}

// Ended reports whether the stream is over.
func (s *sink) Ended() bool { return atomic.LoadInt32(&s.done) == 1 }

// Err is the error that ended the stream.
func (s *sink) Err() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err
}

// wireFeed drives one connection's input piece by piece.
type wireFeed struct {
	w         *W
	prop      string
	conn      *net.TCPConn
	cs        *ConnS
	pc        *seenConn
	sent      int64
	delivered func() int64
	progress  func() int64
	rng       *rand.Rand
}

// play sends wire, whose messages end at ends, cut at cuts. In lock-step it
// waits after each piece until the protocol has been shown everything and then
// requires exactly the complete messages to have been delivered.
func (f *wireFeed) play(wire []byte, ends, cuts []int, lock bool, what string) bool {
	w, cs := f.w, f.cs
	base := f.delivered()
	cuts = append(append([]int{}, cuts...), len(wire))
	from := 0
	for _, c := range cuts {
		if c <= from || c > len(wire) {
			continue
		}
		if _, err := f.conn.Write(wire[from:c]); err != nil {
			w.V(f.prop, "connection %d: the server ended the connection (%s): %v", cs.id, what, err)
			return false
		}
		f.sent += int64(c - from)
		from = c
		if lock {
			s := f.sent
			if !w.Await(fmt.Sprintf("connection %d: the protocol is shown all %d bytes received (%s, cuts %v)", cs.id, s, what, head3(cuts)),
				func() int64 { return atomic.LoadInt64(&f.pc.calls) + f.progress() },
				func() bool { return atomic.LoadInt64(&f.pc.seen) >= s || cs.Closed() }) {
				return false
			}
			complete := int64(0)
			for _, e := range ends {
				if e <= c {
					complete++
				}
			}
			if d := f.delivered() - base; d != complete {
				w.V(f.prop, "connection %d: after %d of %d bytes %d messages are complete, %d were delivered (%s, cuts %v)", cs.id, c, len(wire), complete, d, what, head3(cuts))
				return false
			}
		} else if f.rng.Intn(4) == 0 {
			time.Sleep(time.Duration(f.rng.Intn(60)) * time.Microsecond)
		}
	}
	if !lock {
		want := base + int64(len(ends))
		if !w.Await(fmt.Sprintf("connection %d: %d messages delivered (%s)", cs.id, want, what),
			func() int64 { return atomic.LoadInt64(&f.pc.calls) + f.progress() },
			func() bool { return f.delivered() >= want || cs.Closed() }) {
			return false
		}
		if d := f.delivered(); d != want {
			w.V(f.prop, "connection %d: %d messages sent, %d delivered (%s)", cs.id, want, d, what)
			return false
		}
	}
	return !w.Violated()
}

// randCuts makes a random segmentation of total bytes.
func randCuts(rng *rand.Rand, total int) (cuts []int) {
	np := rng.Intn(12)
	at := 0
	for i := 0; i < np && at < total; i++ {
		switch rng.Intn(3) {
		case 0:
			at += 1 + rng.Intn(6)
		case 1:
			at += 1 + rng.Intn(total)
		default:
			at += 1 + rng.Intn(1000)
		}
		if at < total {
			cuts = append(cuts, at)
		}
	}
	return
}

func cutsHash(cuts []int) uint64 {
	h := uint64(len(cuts))
	for _, c := range cuts {
		h = splitmix(h ^ uint64(c))
	}
	return h & 0xffffff
}
