package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

// The drip scenario: request and reply in strict turns (or a few requests
// ahead) over sockets whose buffers are as small as the kernel allows, so that
// nearly every reply leaves a remainder of arbitrary size, often of a few
// bytes, that only write events can drain. Nothing else happens on the
// connection meanwhile: a remainder that is forgotten, or input whose reading
// is not resumed, stalls the exchange. Decides C02 (content), C14 (progress)
// and C13 (no backlog reported once everything arrived).

const dripReq = 8

type dripState struct {
	acc []byte
	key uint64
	seq uint32
	rng *rand.Rand
}

func scenarioDrip(w *W) {
	rounds := w.Scale(w.Param("rounds", 2), 5*w.Param("rounds", 2))
	for r := 0; r < rounds && !w.Violated(); r++ {
		dripRound(w)
	}
}

func dripRound(w *W) {
	m := newMon(w)
	planSeed := w.rng.Int63()
	m.OnConn = func(cs *ConnS) {
		k := connKey(w, cs.peer)
		cs.mu.Lock()
		cs.u = &dripState{key: k, rng: rand.New(rand.NewSource(planSeed ^ int64(k)))}
		cs.mu.Unlock()
	}
	// a request is the size of the payload it wants and how it wants it
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		st := cs.u.(*dripState)
		st.acc = append(st.acc, data...)
		var out []byte
		for len(st.acc) >= dripReq {
			n := int(binary.BigEndian.Uint32(st.acc))
			how := st.acc[4]
			st.acc = st.acc[dripReq:]
			rec := record(1, 0, st.seq, n, st.key)
			st.seq++
			if how == 1 { // through Send: a task of the loop, after this callback
				if err := cs.c.Send(rec); err != nil {
					w.V("C02", "Send returned %v", err)
				}
			} else {
				out = append(out, rec...)
			}
		}
		if out == nil {
			return nil
		}
		return out
	}
	srv := w.startServer(SrvOpt{Loops: 1 + w.rng.Intn(4), Mon: m, SndB: []int{1, 4096, 9000, 20000}[w.rng.Intn(4)]})
	nconn := 8
	var wg sync.WaitGroup
	for i := 0; i < nconn; i++ {
		wg.Add(1)
		seed := w.rng.Int63()
		go func() { defer wg.Done(); dripClient(w, srv, rand.New(rand.NewSource(seed))) }()
	}
	wg.Wait()
	srv.Stop()
}

func dripClient(w *W, srv *Srv, rng *rand.Rand) {
	rcv := []int{1, 3000, 8000, 0}[rng.Intn(4)]
	conn, cs := srv.DialCS(rcv, 0)
	defer conn.Close()
	addr := conn.LocalAddr().String()
	key := connKey(w, addr)
	cycles := w.Scale(w.Param("cycles", 150), 3*w.Param("cycles", 150))
	maxReply := []int{3000, 20000, 90000}[rng.Intn(3)]
	if rcv == 1 {
		maxReply = 12000
	}
	ahead := 1
	if rng.Intn(3) == 0 {
		ahead = 2 + rng.Intn(4)
	}
	mixed := rng.Intn(2) == 0
	pause := rng.Intn(2) == 0
	var got int64
	var replies uint32
	p := &recParser{ckey: key, onDone: func(kind byte, src uint16, seq uint32) error {
		if kind != 1 || seq != atomic.LoadUint32(&replies) {
			return fmt.Errorf("reply %d arrived where reply %d was due", seq, atomic.LoadUint32(&replies))
		}
		atomic.AddUint32(&replies, 1)
		return nil
	}}
	var bad int32
	readSeed := rng.Int63()
	rdone := make(chan struct{})
	go func() {
		defer close(rdone)
		rr := rand.New(rand.NewSource(readSeed))
		buf := make([]byte, 128<<10)
		for {
			n := len(buf)
			if pause {
				n = 1 + rr.Intn(4000)
				if rr.Intn(8) == 0 {
					time.Sleep(time.Duration(rr.Intn(400)) * time.Microsecond)
				}
			}
			k, err := conn.Read(buf[:n])
			atomic.AddInt64(&got, int64(k))
			w.Ev("bytes-out", int64(k))
			if k > 0 && atomic.LoadInt32(&bad) == 0 {
				if e := p.feed(buf[:k]); e != nil {
					atomic.StoreInt32(&bad, 1)
					w.V("C02", "connection %s: %v", addr, e)
				}
			}
			if err != nil {
				return
			}
		}
	}()
	prog := func() int64 { return atomic.LoadInt64(&got) }
	sent := uint32(0)
	var backlog int64
	// tiny windows can make TCP itself slow (probe timers): bound the time, not
	// the work
	limit := 5 * time.Second
	if w.Thorough() {
		limit = 15 * time.Second
	}
	end := time.Now().Add(limit)
	for sent < uint32(cycles) && !w.Violated() && time.Now().Before(end) {
		for sent < uint32(cycles) && int(sent-atomic.LoadUint32(&replies)) < ahead {
			var req [dripReq]byte
			n := rng.Intn(maxReply)
			binary.BigEndian.PutUint32(req[:], uint32(n))
			if mixed && ahead == 1 {
				req[4] = byte(rng.Intn(2))
			}
			if _, err := conn.Write(req[:]); err != nil {
				w.V("C02,C14", "connection %s: %v", addr, err)
				return
			}
			sent++
		}
		want := sent - uint32(ahead) + 1
		ok := true
		for i := 0; i < 20 && atomic.LoadUint32(&replies) < want; i++ {
			time.Sleep(50 * time.Microsecond)
			if b := cs.c.WriteBufferLength(); b > 0 {
				backlog++
				if b < 1024 {
					w.Ev("remainders-below-1k-seen", 1)
				}
			}
		}
		if atomic.LoadUint32(&replies) < want {
			ok = w.AwaitFor("C02,C14", fmt.Sprintf("connection %s: reply %d of %d arrives (%d bytes of output reported pending)", addr, want, cycles, cs.c.WriteBufferLength()), prog,
				func() bool {
					return atomic.LoadUint32(&replies) >= want || atomic.LoadInt32(&bad) != 0 || cs.Closed()
				})
		}
		if !ok || atomic.LoadInt32(&bad) != 0 {
			break
		}
		if cs.Closed() {
			w.V("C02,C04,C14", "connection %s was closed although neither side closed it", addr)
			break
		}
		if ahead == 1 && rng.Intn(10) == 0 && !w.AwaitFor("C13", "connection "+addr+": no pending output is reported once the peer has all of it", prog,
			func() bool { return cs.c.WriteBufferLength() == 0 }) {
			break
		}
		w.Ev("request-reply-turns", 1)
	}
	w.Ev("pending-output-seen", backlog)
	_ = conn.Close()
	<-rdone
	w.Ev(fmt.Sprintf("turns-rcv%d", rcv), int64(sent))
	w.Case(fmt.Sprintf("drip rcvbuf=%d maxReply=%d ahead=%d mixed=%v pause=%v turns=%d bytes=%d", rcv, maxReply, ahead, mixed, pause, sent, got))
}

func init() { scenarios["drip"] = scenarioDrip }

func dripJobs() []Job {
	return []Job{
		{Name: "drip", Scenario: "drip"},
		{Name: "drip-perturbed", Scenario: "drip", Perturb: 1},
		{Name: "drip-two-cpu", Scenario: "drip", Procs: 2, P: map[string]int{"rounds": 1}},
	}
}
