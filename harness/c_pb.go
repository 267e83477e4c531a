package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/protobuf"
)

// ------------------------------------------------------ protobuf plugin (C21)

type pbMsg struct {
	tl, bl int
	reply  bool
}

// kept is a delivered message retained by the handler.
type kept struct {
	typ  string
	data []byte
	i    int
}

type pbPeer struct {
	mu        sync.Mutex
	key       uint64
	want      []pbMsg
	delivered int64
	kept      []kept
	keptBytes int
}

func pbType(key uint64, i, n int) []byte {
	return pattern(n, key^uint64(i)*1009^0x1111, 0)
}
func pbBody(key uint64, i, n int) []byte {
	return pattern(n, key^uint64(i)*2003^0x2222, 0)
}

// pbParse takes one packed message from the wire format.
func pbParse(b []byte) (typ, body []byte, n int) {
	if len(b) < 6 {
		return
	}
	l := int(binary.BigEndian.Uint32(b))
	tl := int(binary.BigEndian.Uint16(b[4:]))
	if len(b) < 4+l || l < 2+tl {
		return
	}
	return b[6 : 6+tl], b[6+tl : 4+l], 4 + l
}

func pbServer(w *W, prop string, o SrvOpt) (*Srv, *seenProto) {
	p := &seenProto{inner: protobuf.New()}
	m := newMon(w)
	m.OnConn = func(cs *ConnS) {
		cs.mu.Lock()
		cs.u = &pbPeer{key: connKey(w, cs.peer)}
		cs.mu.Unlock()
	}
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*pbPeer)
		i := int(atomic.LoadInt64(&st.delivered))
		defer atomic.AddInt64(&st.delivered, 1)
		typ, ok := ctx.(string)
		if !ok {
			w.V(prop, "connection %d: message %d delivered with a context of type %T", cs.id, i, ctx)
			return nil
		}
		st.mu.Lock()
		defer st.mu.Unlock()
		if i >= len(st.want) {
			w.V(prop, "connection %d: message %d delivered, %d were sent", cs.id, i, len(st.want))
			return nil
		}
		e := st.want[i]
		if typ != string(pbType(st.key, i, e.tl)) || !bytes.Equal(data, pbBody(st.key, i, e.bl)) {
			w.V(prop, "connection %d: message %d (type of %d bytes, body of %d bytes) delivered with a type of %d bytes (equal: %v) and a body of %d bytes (equal: %v)", cs.id, i, e.tl, e.bl,
				len(typ), typ == string(pbType(st.key, i, e.tl)), len(data), bytes.Equal(data, pbBody(st.key, i, e.bl)))
		}
		w.Ev("pb-messages", 1)
		if st.keptBytes < 16<<20 {
			st.kept = append(st.kept, kept{typ, data, i})
			st.keptBytes += len(typ) + len(data)
		}
		if e.reply {
			return protobuf.PackMessage(typ, data)
		}
		return nil
	}
	o.Mon, o.Proto = m, p
	return w.startServer(o), p
}

func scenarioProtobuf(w *W) {
	srv, p := pbServer(w, "C21", SrvOpt{Loops: 2})
	var wg sync.WaitGroup
	workers := w.Param("workers", 4)
	for g := 0; g < workers; g++ {
		wg.Add(1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		go func(g int) {
			defer wg.Done()
			pbClient(w, srv, p, rng, g, workers)
		}(g)
	}
	wg.Wait()
	if !w.Violated() {
		srv.Stop()
	}
}

func pbClient(w *W, srv *Srv, p *seenProto, rng *rand.Rand, g, workers int) {
	conn, cs := srv.DialCS(0, 0)
	defer conn.Close()
	s := newSink(conn)
	st := cs.u.(*pbPeer)
	feed := &wireFeed{w: w, prop: "C21", conn: conn, cs: cs, pc: p.pc(cs.c), rng: rng, progress: s.Got,
		delivered: func() int64 { return atomic.LoadInt64(&st.delivered) }}
	nextReply := 0
	play := func(msgs []pbMsg, cuts []int, lock bool, what string) bool {
		st.mu.Lock()
		start := len(st.want)
		st.want = append(st.want, msgs...)
		st.mu.Unlock()
		var wire []byte
		var ends []int
		for k, m := range msgs {
			t := pbType(st.key, start+k, m.tl)
			b := pbBody(st.key, start+k, m.bl)
			before := append([]byte{}, b...)
			f := protobuf.PackMessage(string(t), b)
			if pt, pb, n := pbParse(f); n != len(f) || !bytes.Equal(pt, t) || !bytes.Equal(pb, b) {
				w.V("C21", "PackMessage(type of %d bytes, body of %d bytes) does not carry them (%d bytes packed, %d parsed)", m.tl, m.bl, len(f), n)
				return false
			}
			wire = append(wire, f...)
			for i := range f {
				f[i] = 0xAA
			}
			if !bytes.Equal(before, b) {
				w.V("C21", "a packed message shares memory with its body")
			}
			ends = append(ends, len(wire))
		}
		if !feed.play(wire, ends, cuts, lock, what) {
			return false
		}
		// replies come back packed, in order
		for k, m := range msgs {
			if !m.reply {
				continue
			}
			var typ, body []byte
			n := 0
			if !w.Await(fmt.Sprintf("connection %d: reply to message %d arrives", cs.id, start+k), s.Got, func() bool {
				s.mu.Lock()
				typ, body, n = pbParse(s.buf)
				s.mu.Unlock()
				return n > 0 || s.Ended()
			}) {
				return false
			}
			if n == 0 {
				w.V("C21", "connection %d: the stream ended (%v) before the reply to message %d", cs.id, s.Err(), start+k)
				return false
			}
			if !bytes.Equal(typ, pbType(st.key, start+k, m.tl)) || !bytes.Equal(body, pbBody(st.key, start+k, m.bl)) {
				w.V("C21", "connection %d: reply to message %d is not that message", cs.id, start+k)
				return false
			}
			s.Take(n)
			nextReply++
		}
		return true
	}
	// every split of short messages
	k := 0
	for _, m := range []pbMsg{{0, 0, true}, {0, 1, true}, {1, 0, true}, {3, 5, true}, {0, 300, false}, {260, 2, true}} {
		for _, tail := range []bool{false, true} {
			msgs := []pbMsg{m}
			limit := 6 + m.tl + m.bl
			if tail {
				msgs = append(msgs, pbMsg{2, 2, true}, pbMsg{0, 0, false})
				limit += 16
			}
			for cut := 1; cut < limit; cut++ {
				if k++; k%workers != g {
					continue
				}
				cuts := []int{cut}
				if cut > 2 && k%3 == 0 {
					cuts = []int{1 + rng.Intn(cut-1), cut}
				}
				if !play(msgs, cuts, true, fmt.Sprintf("type %d body %d", m.tl, m.bl)) {
					return
				}
				w.Case(fmt.Sprintf("split type=%d body=%d tail=%v cuts=%v", m.tl, m.bl, tail, cuts))
			}
		}
	}
	n := w.Scale(w.Param("random", 300), 6000)
	for i := 0; i < n && !w.Violated(); i++ {
		nf := 1 + rng.Intn(8)
		if rng.Intn(6) == 0 {
			nf = 20 + rng.Intn(200)
		}
		var msgs []pbMsg
		total := 0
		for j := 0; j < nf; j++ {
			m := pbMsg{tl: rng.Intn(30), bl: rng.Intn(100), reply: rng.Intn(3) == 0}
			if nf < 20 {
				switch rng.Intn(8) {
				case 0:
					m.bl = pickSize(rng, 200000)
				case 1:
					m.bl = 0
				case 2:
					m.tl = []int{0, 1, 255, 256, 257, 32767, 32768, 65534, 65535}[rng.Intn(9)]
				case 3:
					m.tl, m.bl = 0, 0
				}
			} else if rng.Intn(5) == 0 {
				m.tl, m.bl = rng.Intn(3), rng.Intn(3)
			}
			total += 6 + m.tl + m.bl
			msgs = append(msgs, m)
		}
		cuts := randCuts(rng, total)
		lock := rng.Intn(3) != 0
		if !play(msgs, cuts, lock, fmt.Sprintf("%d messages", nf)) {
			return
		}
		w.Case(fmt.Sprintf("random messages=%d bytes=%d cuts=%d/%x lock=%v", nf, total, len(cuts), cutsHash(cuts), lock))
		if i%40 == 39 {
			pbCheckKept(w, cs, st)
		}
	}
	time.Sleep(2 * time.Millisecond)
	pbCheckKept(w, cs, st)
	st.mu.Lock()
	want := int64(len(st.want))
	st.mu.Unlock()
	if d := feed.delivered(); d != want {
		w.V("C21", "connection %d: %d messages sent, %d delivered", cs.id, want, d)
	}
	if s.Pending() != 0 {
		w.V("C21", "connection %d: %d unexpected bytes from the server", cs.id, s.Pending())
	}
}

// pbCheckKept: what was delivered is still intact.
func pbCheckKept(w *W, cs *ConnS, st *pbPeer) {
	st.mu.Lock()
	defer st.mu.Unlock()
	for _, k := range st.kept {
		e := st.want[k.i]
		if k.typ != string(pbType(st.key, k.i, e.tl)) {
			w.V("C21", "connection %d: the type of message %d changed after later messages were received", cs.id, k.i)
			return
		}
		if !bytes.Equal(k.data, pbBody(st.key, k.i, e.bl)) {
			w.V("C21", "connection %d: the body of message %d changed after later messages were received", cs.id, k.i)
			return
		}
		// the handler owns what it was given: writing to one message must not reach another
		w.Ev("retained-checked", 1)
	}
	// scribble over the retained bodies' full capacity neighbourhoods: aliasing
	// between messages shows as a later mismatch
	if len(st.kept) > 1 {
		for n := 0; n+1 < len(st.kept); n += 2 {
			for i := range st.kept[n].data {
				st.kept[n].data[i] ^= 0x5a
			}
		}
		for n := 1; n < len(st.kept); n += 2 {
			k := st.kept[n]
			if !bytes.Equal(k.data, pbBody(st.key, k.i, st.want[k.i].bl)) {
				w.V("C21", "connection %d: the body of message %d shares memory with another message", cs.id, k.i)
				return
			}
		}
	}
	st.kept, st.keptBytes = nil, 0
}

var _ gev.Protocol = (*seenProto)(nil)

func init() {
	scenarios["protobuf"] = scenarioProtobuf
	register("C21", &Property{
		Rule:        "one case = one sequence of packed messages under one segmentation: every split of short messages (empty type and body included) and random sequences with types up to 65535 bytes; lock-step cases require exactly the complete messages delivered after each piece; the handler retains types and bodies, which are compared and scribbled on later; distinct by lengths and cuts",
		Assumptions: []string{"loopback TCP is faithful"},
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "protobuf", Scenario: "protobuf"},
				{Name: "protobuf-2", Scenario: "protobuf"},
				{Name: "perturbed", Scenario: "protobuf", Perturb: 1},
				{Name: "one-cpu", Scenario: "protobuf", Procs: 1},
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "protobuf", Perturb: i % 3, P: map[string]int{"workers": 6}})
				}
			}
			return js
		}})
}
