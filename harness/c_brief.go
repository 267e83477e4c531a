package main

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// The brief scenario gives connections an idle time about as short as the
// moments between being accepted and being announced, on a machine that is
// kept busy, so that idleness is noticed at every moment of a connection's
// life (C04, C09, C10).

func init() { scenarios["brief"] = scenarioBrief }

func scenarioBrief(w *W) {
	rounds := w.Scale(1, 60)
	quit := make(chan struct{})
	var sink int64
	for i := 0; i < w.Param("burners", 2*runtime.GOMAXPROCS(0)); i++ { // keeps everybody waiting for a processor
		go func() {
			x := uint64(i)
			for !isClosed(quit) {
				for k := 0; k < 20000; k++ {
					x = splitmix(x)
				}
				atomic.AddInt64(&sink, int64(x&1))
			}
		}()
	}
	defer close(quit)
	for r := 0; r < rounds && !w.Violated(); r++ {
		briefRound(w, r)
	}
}

func briefRound(w *W, r int) {
	inv := takeInventory()
	idle := []time.Duration{time.Millisecond, time.Millisecond, 2 * time.Millisecond, 3 * time.Millisecond, time.Nanosecond, 500 * time.Microsecond}[r%6]
	m := echoMon(w)
	m.OnConn = func(cs *ConnS) {
		if cs.id%3 == 0 {
			_ = cs.c.Send([]byte("hello"))
		}
	}
	srv := w.startServer(SrvOpt{Loops: 1 + r%3, Mon: m, Idle: idle})
	var wg sync.WaitGroup
	per, dialers := 25, 6
	var dialled int64
	for d := 0; d < dialers; d++ {
		wg.Add(1)
		go func(d int) {
			defer wg.Done()
			b := make([]byte, 64)
			for i := 0; i < per && !w.Violated(); i++ {
				c, err := net.DialTimeout("tcp", srv.addr, 20*time.Second)
				if err != nil {
					w.Inconclusive("dial: %v", err)
					return
				}
				atomic.AddInt64(&dialled, 1)
				if i%2 == 0 {
					_, _ = c.Write([]byte("x"))
				}
				if i%4 != 3 { // wait for the server to end it
					ended := false
					done := make(chan struct{})
					go func() {
						for {
							if _, err := c.Read(b); err != nil {
								break
							}
						}
						close(done)
					}()
					w.Await("the peer of an idle connection sees its end", m.Progress, func() bool { ended = isClosed(done); return ended })
				}
				_ = c.Close()
			}
		}(d)
	}
	wg.Wait()
	if w.Violated() {
		return
	}
	if !w.Await("every connection is announced and closed", m.Progress, func() bool {
		return atomic.LoadInt64(&m.nConnect) == dialled && m.Open() == 0
	}) {
		return
	}
	_, sum := srv.Counts()
	if !w.Await("connection counts return to zero", nil, func() bool { _, sum = srv.Counts(); return sum == 0 }) {
		return
	}
	for _, cs := range m.All() {
		d := cs.closeT.Sub(cs.openT)
		_ = d
		w.Case(fmt.Sprintf("idle=%v loops=%d messages=%d lived=%dms", idle, 1+r%3, cs.msgs, d.Milliseconds()))
	}
	if !srv.Stop() {
		return
	}
	if extra := fdsBeyond(w, inv); len(extra) > 0 {
		w.V("C09", "descriptors left: %v", extra)
	}
}
