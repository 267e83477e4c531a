package main

import (
	"fmt"
	"math/rand"
	"net"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/RussellLuo/timingwheel"
)

// ---------------------------------------------------------------- idle (C10)

// The idle scenario keeps connections of many kinds on servers with an idle
// time. Never early is judged against the moment the client began its last
// write (the server's last activity can only be later); not at all is judged
// by the stall rule; wrongly closed is judged only from gaps between message
// callbacks that the server itself observed.
func scenarioIdle(w *W) {
	rounds := w.Scale(w.Param("rounds", 4), 8*w.Param("rounds", 4))
	idles := []time.Duration{50 * time.Millisecond, 120 * time.Millisecond, 250 * time.Millisecond, 700 * time.Millisecond, 1300 * time.Millisecond, 20 * time.Millisecond, 333 * time.Millisecond, 999 * time.Millisecond}
	for r := 0; r < rounds && !w.Violated(); r++ {
		idleRound(w, r, idles[(r+w.Param("off", 0))%len(idles)])
	}
}

type idleConn struct {
	kind   int
	conn   *net.TCPConn
	cs     *ConnS
	begin  int64   // before the connection was dialled
	writes []int64 // the beginning of each client write, of one byte each
	eof    chan struct{}
	noRead bool
	done   int32
}

const (
	idSilent   = iota
	idBurst    // a few writes, then silence
	idActive   // writes every idle/4 for several idle times, then silence
	idPushed   // the server sends periodically, the client stays silent: no obligation while pushed
	idStuck    // pending output that the client does not read, then silence
	idPartial  // framed: half a frame, then silence (default protocol: one byte)
	idPeerDone // the client leaves on its own
	idHalf     // client half-closes after a write
	idDrain    // the client stays silent while it downloads pending output for several idle times
	numIdle
)

var idNames = []string{"silent", "burst", "active", "pushed", "stuck-output", "one-byte", "peer-leaves", "half-close", "download"}

var t0mono = time.Now()

func monoNow() int64 { return int64(time.Since(t0mono)) }

func idleRound(w *W, r int, idle time.Duration) {
	m := newMon(w)
	var gmu sync.Mutex
	arrivals := map[*ConnS][]int64{} // when each byte was handled
	m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
		now := monoNow()
		gmu.Lock()
		for range data {
			arrivals[cs] = append(arrivals[cs], now)
		}
		gmu.Unlock()
		if data[0] == 'e' {
			return []byte("e")
		}
		return nil
	}
	srv := w.startServer(SrvOpt{Loops: 1 + r%3, Mon: m, Idle: idle})
	ctrl := w.startServer(SrvOpt{Loops: 1, Mon: newMon(w)}) // no idle time: must keep silent connections
	var ctrlConns []*net.TCPConn
	for i := 0; i < 3; i++ {
		c, _ := ctrl.DialCS(0, 0)
		ctrlConns = append(ctrlConns, c)
	}
	var wg sync.WaitGroup
	n := w.Param("conns", 24)
	for i := 0; i < n; i++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ic := &idleConn{kind: i % numIdle, eof: make(chan struct{})}
			ic.begin = monoNow()
			rb := 0
			if ic.kind == idStuck {
				rb, ic.noRead = 2048, true
			}
			if ic.kind == idDrain {
				rb, ic.noRead = 256<<10, true
			}
			ic.conn, ic.cs = srv.DialCS(rb, 0)
			defer ic.conn.Close()
			idleClient(w, srv, ic, rng, idle, func() []int64 {
				gmu.Lock()
				defer gmu.Unlock()
				return arrivals[ic.cs]
			})
		}(i)
	}
	wg.Wait()
	// connections without an idle time are still there
	if n := atomic.LoadInt64(&ctrl.nClose); n != 0 {
		w.V("C10", "a server without an idle time closed %d silent connections", n)
	}
	for i, c := range ctrlConns {
		if err := c.SetReadDeadline(time.Now().Add(5 * time.Millisecond)); err == nil {
			if _, err := c.Read(make([]byte, 1)); err == nil || !isTimeout(err) {
				w.V("C10", "silent connection %d of a server without an idle time ended: %v", i, err)
			}
		}
		_ = c.Close()
	}
	if !w.Violated() {
		srv.Stop()
		ctrl.Stop()
	}
}

func isTimeout(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}

func idleClient(w *W, srv *Srv, ic *idleConn, rng *rand.Rand, idle time.Duration, arrivals func() []int64) {
	go func() {
		defer close(ic.eof)
		b := make([]byte, 4096)
		for {
			if ic.noRead && atomic.LoadInt32(&ic.done) == 0 {
				time.Sleep(time.Millisecond)
				continue
			}
			if _, err := ic.conn.Read(b); err != nil {
				return
			}
		}
	}()
	send := func(s string) bool {
		ic.writes = append(ic.writes, monoNow())
		_, err := ic.conn.Write([]byte(s))
		return err == nil
	}
	// The connection's activity is what the server handles. A byte is handled
	// after its write began and before its callback, so an idle time can have
	// passed only if it fits between the beginning of the write of a handled
	// byte (or of the dial) and the next callback, or the close.
	longest := func(closed int64) (gap, tail time.Duration) {
		last := ic.begin
		for i, at := range arrivals() {
			gap = max(gap, time.Duration(at-last))
			last = ic.writes[i]
		}
		return gap, time.Duration(closed - last)
	}
	name := fmt.Sprintf("%s connection %d (idle time %v)", idNames[ic.kind], ic.cs.id, idle)
	notEarly := func() {
		gap, tail := longest(int64(ic.cs.closeT.Sub(t0mono)))
		switch {
		case max(gap, tail) < idle-time.Millisecond:
			w.V("C10", "%s was closed only %v after its peer began its last write, and never more than %v passed between two messages", name, tail, gap)
		case tail < idle-time.Millisecond:
			w.Ev("closed-while-next-message-was-on-its-way", 1)
		}
		w.Ev("idle-close-after-ms", int64(tail/time.Millisecond))
		w.Ev("idle-closes", 1)
	}
	begin := monoNow()
	switch ic.kind {
	case idDrain:
		drainIdle(w, ic, name, idle)
		if w.Violated() {
			return
		}
	case idBurst:
		for k := 0; k < 1+rng.Intn(3); k++ {
			if !send([]string{"x", "e"}[k%2]) {
				break
			}
			time.Sleep(time.Duration(rng.Int63n(int64(idle) / 2)))
		}
	case idActive:
		span := 3 * idle
		if span < 300*time.Millisecond {
			span = 300 * time.Millisecond
		}
		for monoNow()-begin < int64(span) {
			if !send([]string{"x", "e"}[rng.Intn(2)]) {
				break
			}
			if ic.cs.Closed() {
				break
			}
			time.Sleep(idle / 4)
		}
		if ic.cs.Closed() {
			// closed while active: wrong only if no long gap can have occurred
			notEarly()
			return
		}
		w.Ev("active-survived", 1)
	case idPushed:
		k := 2 + rng.Intn(4)
		for j := 0; j < k; j++ {
			_ = ic.cs.c.Send([]byte("p"))
			time.Sleep(idle / 5)
		}
	case idStuck:
		_ = ic.cs.c.Send(make([]byte, 5<<20))
	case idPartial:
		send("x")
	case idPeerDone:
		time.Sleep(time.Duration(rng.Int63n(int64(idle))))
		atomic.StoreInt32(&ic.done, 1)
		_ = ic.conn.Close()
	case idHalf:
		send("x")
		_ = ic.conn.CloseWrite()
	}
	if !w.Await(name+" is closed", nil, func() bool { return ic.cs.Closed() }) {
		return
	}
	if ic.kind != idPeerDone && ic.kind != idHalf && ic.kind != idDrain {
		notEarly()
	}
	atomic.StoreInt32(&ic.done, 1)
	w.Await(name+": its peer sees the end of the stream", nil, func() bool { return isClosed(ic.eof) })
	w.Case(fmt.Sprintf("kind=%s idle=%v sends=%d", idNames[ic.kind], idle, len(ic.writes)))
}

// drainIdle downloads a large pending output for several idle times. Every
// decrease of the write backlog is output that the server delivered meanwhile;
// it happened after the sample before the last one. A close is wrong if no two
// deliveries were even half an idle time apart.
func drainIdle(w *W, ic *idleConn, name string, idle time.Duration) {
	const total = 32 << 20
	begin := monoNow()
	if ic.cs.c.Send(make([]byte, total)) != nil {
		return
	}
	quit := make(chan struct{})
	sampled := make(chan struct{})
	var maxGap, delivered int64
	last := ic.begin // no delivery since then is known
	var closed int64
	go func() {
		defer close(sampled)
		var was int64
		before, now := ic.begin, monoNow()
		for {
			older := before
			before, now = now, monoNow()
			n := ic.cs.c.WriteBufferLength()
			if ic.cs.Closed() {
				return
			}
			if n < was {
				maxGap = max(maxGap, monoNow()-last)
				last = older
				delivered++
			}
			was = n
			if isClosed(quit) {
				return
			}
			time.Sleep(min(idle/60, 5*time.Millisecond))
		}
	}()
	got := 0
	b := make([]byte, 64<<10)
	for monoNow()-begin < int64(4*idle) && !ic.cs.Closed() {
		want := int(float64(total) * float64(monoNow()-begin) / float64(4*idle))
		for got < want {
			_ = ic.conn.SetReadDeadline(time.Now().Add(idle / 20))
			n, err := ic.conn.Read(b)
			got += n
			if err != nil {
				break
			}
		}
		time.Sleep(idle / 60)
	}
	_ = ic.conn.SetReadDeadline(time.Time{})
	close(quit)
	<-sampled
	w.Ev("deliveries-during-downloads", delivered)
	if ic.cs.Closed() {
		closed = int64(ic.cs.closeT.Sub(t0mono))
		if gap := max(maxGap, closed-last); gap < int64(idle)/2 {
			w.V("C10", "%s was closed as idle although output was delivered to its peer at least every %v (%d deliveries, %d of %d bytes)", name, time.Duration(gap), delivered, got, total)
		}
		w.Ev("downloads-closed-after-a-pause", 1)
		return
	}
	w.Ev("downloads-survived", 1)
}

// scenarioIdleLate: connections that are active early in a long idle time are
// closed when that has passed since their last activity, not another idle time
// later. Late counts only while hundreds of control round trips succeed.
func scenarioIdleLate(w *W) {
	for r := 0; r < w.Scale(1, 3) && !w.Violated(); r++ {
		idle := time.Duration(5500+w.rng.Intn(1000)) * time.Millisecond
		m := newMon(w)
		m.OnMsg = func(cs *ConnS, ctx interface{}, data []byte) interface{} {
			if data[0] == 'e' {
				return []byte("e")
			}
			return nil
		}
		srv := w.startServer(SrvOpt{Loops: 1 + w.rng.Intn(3), Mon: m, Idle: idle})
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			rng := rand.New(rand.NewSource(w.rng.Int63()))
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				conn, cs := srv.DialCS(0, 0)
				defer conn.Close()
				active := time.Duration(rng.Intn(700)) * time.Millisecond
				if i%4 == 0 {
					active = 0
				}
				begin := monoNow()
				writes := 0
				for last := false; !last && active > 0; {
					time.Sleep(time.Duration(20+rng.Intn(100)) * time.Millisecond)
					last = time.Duration(monoNow()-begin) > active
					if _, err := conn.Write([]byte([]string{"x", "e"}[rng.Intn(2)])); err != nil {
						break
					}
					writes++
				}
				if !w.Await("the last message is handled", nil, func() bool { return atomic.LoadInt64(&cs.msgs) > 0 || writes == 0 }) {
					return
				}
				time.Sleep(50 * time.Millisecond)
				last := time.Unix(0, atomic.LoadInt64(&cs.lastAct)) // connect or message callback
				due := last.Add(idle)
				if d := time.Until(due); d > 0 {
					time.Sleep(d)
				}
				const grace = 1500 * time.Millisecond
				for mark, trips := time.Now(), atomic.LoadInt64(&controlTrips); !cs.Closed(); {
					if time.Since(mark) > grace && time.Since(due) > grace && atomic.LoadInt64(&controlTrips)-trips > 150 {
						w.V("C10", "connection %d (idle time %v, %d writes early on) is still open %v after its last activity", cs.id, idle, writes, time.Since(last))
						return
					}
					time.Sleep(5 * time.Millisecond)
				}
				w.Ev("closed-in-time", 1)
				w.Case(fmt.Sprintf("late idle=%v active=%v writes=%d", idle, active, writes))
			}(i)
		}
		wg.Wait()
		srv.Stop()
	}
}

// -------------------------------------------------------------- timers (C11)

const wheelSlack = 2 * time.Millisecond // the wheel counts whole milliseconds

func scenarioTimers(w *W) {
	rounds := w.Scale(w.Param("rounds", 3), 10*w.Param("rounds", 3))
	for r := 0; r < rounds && !w.Violated(); r++ {
		timersRound(w, r)
	}
}

type oneShot struct {
	d       time.Duration
	armed   int64
	runs    int64
	ranAt   int64
	t       *timingwheel.Timer
	stopAt  int64 // when Stop was called, 0 never
	stopped bool
	before  bool // armed before Start
}

type periodic struct {
	d     time.Duration
	armed int64
	mu    sync.Mutex
	runs  []int64
	t     *timingwheel.Timer
	stop  int64
}

func timersRound(w *W, r int) {
	srv := w.newServer(SrvOpt{Loops: 1, Mon: newMon(w)})
	var mu sync.Mutex
	var ones []*oneShot
	arm := func(d time.Duration, before bool) *oneShot {
		o := &oneShot{d: d, armed: monoNow(), before: before}
		o.t = srv.s.RunAfter(d, func() {
			at := monoNow()
			n := atomic.AddInt64(&o.runs, 1)
			atomic.StoreInt64(&o.ranAt, at)
			if n > 1 {
				w.V("C11", "a task delayed by %v ran %d times", d, n)
			}
			if at-o.armed < int64(d-wheelSlack) {
				w.V("C11", "a task delayed by %v ran after %v", d, time.Duration(at-o.armed))
			}
		})
		mu.Lock()
		ones = append(ones, o)
		mu.Unlock()
		return o
	}
	for i := 0; i < 5; i++ {
		arm(time.Duration(w.rng.Intn(40))*time.Millisecond, true)
	}
	srv.Go()
	// periodic tasks
	var pers []*periodic
	for _, d := range []time.Duration{3 * time.Millisecond, 10 * time.Millisecond, 1500 * time.Microsecond, 700 * time.Microsecond, time.Duration(3000+w.rng.Intn(9000)) * time.Microsecond, time.Duration(1+w.rng.Intn(70)) * time.Millisecond, time.Duration(1100+w.rng.Intn(300)) * time.Millisecond} {
		p := &periodic{d: d, armed: monoNow()}
		p.t = srv.s.RunEvery(d, func() {
			at := monoNow()
			p.mu.Lock()
			p.runs = append(p.runs, at)
			p.mu.Unlock()
		})
		pers = append(pers, p)
	}
	// delayed tasks from several goroutines, some stopped in time
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				var d time.Duration
				switch rng.Intn(6) {
				case 0:
					d = time.Duration(rng.Intn(2000)) * time.Microsecond
				case 1:
					d = time.Duration(900+rng.Intn(600)) * time.Millisecond
				case 2:
					d = time.Duration(1990+rng.Intn(30)) * time.Millisecond
					if i%4 != 0 {
						d = time.Duration(rng.Intn(30)) * time.Millisecond
					}
				default:
					d = time.Duration(rng.Intn(400)) * time.Millisecond
				}
				o := arm(d, false)
				if rng.Intn(3) == 0 {
					pause := time.Duration(rng.Int63n(int64(d)/2 + 1))
					if pause > 20*time.Millisecond {
						pause = 20 * time.Millisecond
					}
					time.Sleep(pause)
					s := o.t.Stop()
					now := monoNow()
					mu.Lock()
					o.stopAt, o.stopped = now, s
					mu.Unlock()
				} else {
					time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
				}
			}
		}()
	}
	wg.Wait()
	// wait for all that is due
	due := func() (missing int, what string) {
		mu.Lock()
		defer mu.Unlock()
		for _, o := range ones {
			if o.stopAt == 0 && atomic.LoadInt64(&o.runs) == 0 {
				missing++
				what = fmt.Sprintf("task delayed by %v, armed before Start: %v", o.d, o.before)
			}
		}
		return
	}
	var ran int64
	prog := func() int64 {
		n, _ := due()
		return int64(-n) + ran
	}
	if !w.Await("every delayed task runs", prog, func() bool { n, _ := due(); return n == 0 }) {
		_, what := due()
		w.V("C11", "a delayed task never ran: %s", what)
		return
	}
	// periodic tasks keep coming; stop some of them
	for i, p := range pers {
		need := 1 + int(600*time.Millisecond/p.d)
		if p.d > time.Second {
			need = 1
		}
		p := p
		count := func() int64 { p.mu.Lock(); defer p.mu.Unlock(); return int64(len(p.runs)) }
		if !w.Await(fmt.Sprintf("a task repeated every %v keeps running", p.d), count, func() bool { return count() >= int64(need) }) {
			return
		}
		if i%2 == 1 {
			if p.t.Stop() { // false: a run was being started (see scenarioUnschedule)
				p.stop = monoNow()
			}
		}
	}
	time.Sleep(30 * time.Millisecond)
	if !srv.Stop() {
		return
	}
	end := monoNow()
	late := []*oneShot{}
	_ = late
	time.Sleep(40 * time.Millisecond)
	mu.Lock()
	for _, o := range ones {
		if o.stopped && atomic.LoadInt64(&o.runs) > 0 {
			w.V("C11", "a task delayed by %v ran although its timer's Stop reported success", o.d)
		}
		if o.stopAt != 0 && o.stopAt < o.armed+int64(o.d)-int64(100*time.Millisecond) && o.d < 900*time.Millisecond {
			if atomic.LoadInt64(&o.runs) > 0 {
				w.V("C11", "a task delayed by %v ran although its timer was stopped after %v", o.d, time.Duration(o.stopAt-o.armed))
			}
			w.Ev("stopped-early", 1)
		}
		w.Case(fmt.Sprintf("after=%v stopped=%v before-start=%v", o.d.Round(time.Millisecond), o.stopAt != 0, o.before))
	}
	mu.Unlock()
	for _, p := range pers {
		p.mu.Lock()
		sort.Slice(p.runs, func(i, j int) bool { return p.runs[i] < p.runs[j] })
		for k, at := range p.runs {
			sched := p.armed + int64(k+1)*int64(p.d)
			if at < sched-int64(wheelSlack) {
				w.V("C11", "run %d of a task repeated every %v began %v after it was armed", k+1, p.d, time.Duration(at-p.armed))
				break
			}
			// the k-th run is scheduled no earlier than sched: if that is after
			// the timer or the server had stopped, it must not have happened
			if p.stop != 0 && sched > p.stop+int64(wheelSlack) {
				w.V("C11", "run %d of a task repeated every %v happened although its timer had been stopped", k+1, p.d)
				break
			}
			if sched > end+int64(p.d)+int64(wheelSlack) {
				w.V("C11", "run %d of a task repeated every %v happened after the server had stopped", k+1, p.d)
				break
			}
		}
		w.Case(fmt.Sprintf("every=%v runs=%d", p.d, len(p.runs)))
		w.Ev("periodic-runs", int64(len(p.runs)))
		p.mu.Unlock()
	}
}

// scenarioTimersStop: tasks due after the server stopped never run.
func scenarioTimersStop(w *W) {
	rounds := w.Scale(w.Param("rounds", 25), 300)
	type shot struct {
		due  int64
		runs int64
	}
	var all []*shot
	var ends []int64
	var owner []int
	for r := 0; r < rounds && !w.Violated(); r++ {
		srv := w.startServer(SrvOpt{Loops: 1, Mon: newMon(w)})
		for i := 0; i < 30; i++ {
			d := time.Duration(w.rng.Intn(60)) * time.Millisecond
			s := &shot{}
			s.due = monoNow() + int64(d)
			srv.s.RunAfter(d, func() { atomic.AddInt64(&s.runs, 1) })
			all = append(all, s)
			owner = append(owner, r)
		}
		var per int64
		d := time.Duration(1+w.rng.Intn(5)) * time.Millisecond
		armed := monoNow()
		srv.s.RunEvery(d, func() { atomic.AddInt64(&per, 1) })
		time.Sleep(time.Duration(w.rng.Intn(25)) * time.Millisecond)
		if !srv.Stop() {
			return
		}
		end := monoNow()
		ends = append(ends, end)
		time.Sleep(10 * time.Millisecond)
		if n := atomic.LoadInt64(&per); armed+n*int64(d) > end+int64(d)+int64(wheelSlack) {
			w.V("C11", "a task repeated every %v ran %d times within %v: after the server had stopped", d, n, time.Duration(end-armed))
		}
		w.Case(fmt.Sprintf("stop with 30 delayed tasks, every=%v runs=%d", d, per))
	}
	time.Sleep(80 * time.Millisecond)
	var afterStop, before int64
	for i, s := range all {
		if owner[i] >= len(ends) {
			continue
		}
		if n := atomic.LoadInt64(&s.runs); n > 1 {
			w.V("C11", "a delayed task ran %d times", n)
		} else if n == 1 && s.due > ends[owner[i]]+int64(wheelSlack) {
			w.V("C11", "a task that was due %v after the server had stopped ran", time.Duration(s.due-ends[owner[i]]))
		}
		if s.due > ends[owner[i]]+int64(wheelSlack) {
			afterStop++
		} else {
			before++
		}
	}
	w.Ev("due-after-stop", afterStop)
	w.Ev("due-before-stop", before)
}

// scenarioUnschedule stops periodic tasks at random moments of their schedule
// and delayed ones while the wheel moves them between its levels.
func scenarioUnschedule(w *W) {
	srv := w.startServer(SrvOpt{Loops: 1, Mon: newMon(w)})
	quit := make(chan struct{})
	defer close(quit)
	var sink int64
	for i := 0; i < w.Param("burners", 0); i++ {
		go func() {
			x := uint64(i)
			for !isClosed(quit) {
				for k := 0; k < 3000; k++ {
					x = splitmix(x)
				}
				atomic.AddInt64(&sink, int64(x&1))
			}
		}()
	}
	var beats int64
	ctl := srv.s.RunEvery(time.Millisecond, func() { atomic.AddInt64(&beats, 1) })
	if ctl == nil {
		w.V("C11", "RunEvery returned no timer")
		return
	}

	// delayed tasks, stopped around the moment the wheel's levels are cascaded
	type shot struct {
		armed, stopAt int64
		d             time.Duration
		ret           bool
		runs          int64
	}
	var shots []*shot
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		n := w.Scale(w.Param("shots", 4000), 20000)
		own := make([]*shot, n)
		for i := range own {
			own[i] = &shot{d: time.Duration(1300+rng.Intn(600)) * time.Millisecond}
		}
		shots = append(shots, own...)
		go func() {
			defer wg.Done()
			ts := make([]*timingwheel.Timer, n)
			for i, s := range own {
				s.armed = monoNow()
				ts[i] = srv.s.RunAfter(s.d, func() { atomic.AddInt64(&s.runs, 1) })
			}
			begin := monoNow()
			for i, s := range own { // spread over 1.1 s
				for monoNow()-begin < int64(i)*int64(1100*time.Millisecond)/int64(n) {
					time.Sleep(100 * time.Microsecond)
				}
				s.ret = ts[i].Stop()
				s.stopAt = monoNow()
			}
		}()
	}

	// periodic tasks
	tries := w.Scale(w.Param("tries", 150), 1500)
	var pmu sync.Mutex
	missed := 0
	for g := 0; g < 4; g++ {
		wg.Add(1)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		go func() {
			defer wg.Done()
			for i := 0; i < tries && !w.Violated(); i++ {
				d := time.Duration(800+rng.Intn(2200)) * time.Microsecond
				var runs int64
				armed := monoNow()
				t := srv.s.RunEvery(d, func() { atomic.AddInt64(&runs, 1) })
				time.Sleep(time.Duration(rng.Intn(6000)) * time.Microsecond)
				ret := t.Stop()
				stopAt := monoNow()
				b0 := atomic.LoadInt64(&beats)
				if !w.AwaitFor("C11", "the control task keeps running", func() int64 { return atomic.LoadInt64(&beats) }, func() bool { return atomic.LoadInt64(&beats) > b0+15 }) {
					return
				}
				over := func() bool {
					return armed+atomic.LoadInt64(&runs)*int64(d) > stopAt+int64(wheelSlack)
				}
				w.Case(fmt.Sprintf("stop every=%v ret=%v", d.Round(100*time.Microsecond), ret))
				if ret {
					if over() {
						w.V("C11", "a task repeated every %v had run %d times %v after it was armed although Stop had returned true after %v", d, atomic.LoadInt64(&runs), time.Duration(monoNow()-armed), time.Duration(stopAt-armed))
					}
					continue
				}
				pmu.Lock()
				missed++
				pmu.Unlock()
				if over() {
					w.V("C11", "a periodic task kept running after Stop had returned false (called while a run was being started): every %v, %d runs, stopped after %v", d, atomic.LoadInt64(&runs), time.Duration(stopAt-armed))
				}
				// a timer that is waiting for its next run can be stopped
				if !w.AwaitFor("C11", "stopping a periodic task succeeds between two of its runs", nil, func() bool { return t.Stop() }) {
					return
				}
				stopAt = monoNow()
				b0 = atomic.LoadInt64(&beats)
				if !w.AwaitFor("C11", "the control task keeps running", func() int64 { return atomic.LoadInt64(&beats) }, func() bool { return atomic.LoadInt64(&beats) > b0+15 }) {
					return
				}
				if over() {
					w.V("C11", "a task repeated every %v had run %d times although a repeated Stop had returned true after %v", d, atomic.LoadInt64(&runs), time.Duration(stopAt-armed))
				}
			}
		}()
	}
	wg.Wait()
	if w.Violated() {
		return
	}
	w.Ev("periodic-stops-that-missed", int64(missed))
	time.Sleep(time.Duration(2100)*time.Millisecond - time.Duration(monoNow()-shots[len(shots)-1].armed))
	b0 := atomic.LoadInt64(&beats)
	w.AwaitFor("C11", "the control task keeps running", func() int64 { return atomic.LoadInt64(&beats) }, func() bool { return atomic.LoadInt64(&beats) > b0+50 })
	var early, moved int64
	for _, s := range shots {
		n := atomic.LoadInt64(&s.runs)
		switch {
		case n > 1:
			w.V("C11", "a task delayed by %v ran %d times", s.d, n)
		case s.ret && n > 0:
			w.V("C11", "a task delayed by %v ran although its timer's Stop reported success", s.d)
		case !s.ret && s.stopAt < s.armed+int64(s.d)-int64(100*time.Millisecond):
			moved++
			if n > 0 {
				w.V("C11", "a delayed task ran after Stop had returned false (called while the wheel was moving the timer between its levels): delayed by %v, stopped after %v", s.d, time.Duration(s.stopAt-s.armed))
			}
		}
		if s.stopAt < s.armed+int64(s.d)-int64(100*time.Millisecond) {
			early++
		}
		w.Case(fmt.Sprintf("stop after=%v ret=%v", s.d.Round(10*time.Millisecond), s.ret))
	}
	w.Ev("stopped-early", early)
	w.Ev("delayed-stops-that-missed", moved)
	if !ctl.Stop() {
		w.Await("control task stops", nil, ctl.Stop)
	}
	srv.Stop()
}

// scenarioDrift: a periodic schedule does not slip. A measurement counts as
// drifting only when even the best of the last runs is late; three
// measurements in a row must drift.
func scenarioDrift(w *W) {
	srv := w.startServer(SrvOpt{Loops: 1, Mon: newMon(w)})
	for m := 0; m < w.Scale(3, 8); m++ {
		d := []time.Duration{2 * time.Millisecond, 3400 * time.Microsecond, 7 * time.Millisecond, 1250 * time.Microsecond}[m%4]
		n := int(1200 * time.Millisecond / d)
		drifting := 0
		var worst time.Duration
		for try := 0; try < 3; try++ {
			var mu sync.Mutex
			var runs []int64
			armed := monoNow()
			t := srv.s.RunEvery(d, func() {
				at := monoNow()
				mu.Lock()
				runs = append(runs, at)
				mu.Unlock()
			})
			count := func() int64 { mu.Lock(); defer mu.Unlock(); return int64(len(runs)) }
			ok := w.Await(fmt.Sprintf("a task repeated every %v keeps running", d), count, func() bool { return count() >= int64(n) })
			t.Stop()
			if !ok {
				return
			}
			mu.Lock()
			sort.Slice(runs, func(i, j int) bool { return runs[i] < runs[j] })
			best := int64(1 << 60)
			for k := n - 30; k < n; k++ {
				if l := runs[k] - (armed + int64(k+1)*int64(d)); l < best {
					best = l
				}
			}
			mu.Unlock()
			w.Ev("best-late-lateness-us", best/1000)
			if best < int64(30*time.Millisecond) {
				drifting = 0
				break
			}
			drifting++
			worst = time.Duration(best)
		}
		if drifting == 3 {
			w.V("C11", "a task repeated every %v had slipped by at least %v after %d runs, in three measurements", d, worst, n)
		}
		w.Case(fmt.Sprintf("drift every=%v runs=%d", d, n))
	}
	srv.Stop()
}

func init() {
	scenarios["idle"] = scenarioIdle
	scenarios["idle-late"] = scenarioIdleLate
	scenarios["timers"] = scenarioTimers
	scenarios["timers-stop"] = scenarioTimersStop
	scenarios["drift"] = scenarioDrift
	scenarios["unschedule"] = scenarioUnschedule
	register("C10", &Property{
		Rule:        "one case = one connection of one of eight kinds (silent, burst then silent, active then silent, pushed to, stuck with unread output, one byte, leaving, half-closed) on a server with an idle time between 20 ms and 1.3 s; never-early is judged against the beginning of the client's last write, wrongly-closed against the gaps the server's callbacks observed, not-closed by the stall rule, and for connections active early in an idle time of 6 s by a grace of 1.5 s; distinct by kind, idle time and writes",
		Assumptions: []string{"the system clock is not stepped during the run", "bounded time means 1.5 s after a long idle time (while 150 control round trips succeed), for short ones before the stall rule fires (10 s without progress while the control connection works)"},
		Par:         6,
		jobs: func(tier string) []Job {
			var js []Job
			for i := 0; i < 4; i++ {
				js = append(js, Job{Name: fmt.Sprintf("idle-%d", i), Scenario: "idle", Perturb: i % 2, P: map[string]int{"off": 2 * i, "rounds": 2}})
			}
			js = append(js, Job{Name: "late", Scenario: "idle-late"})
			js = append(js, Job{Name: "idle-race", Scenario: "idle", Race: true, P: map[string]int{"off": 1, "rounds": 8, "conns": 16}})
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "idle", Perturb: i % 3, Procs: []int{0, 2}[i%2], P: map[string]int{"off": i, "rounds": 4, "conns": 80}})
				}
			}
			return js
		}})
	register("C11", &Property{
		Rule:        "one case = one delayed or periodic task: delays from 0 to 2 s (crossing the wheel's first level), armed before and after Start from several goroutines, some stopped, periodic tasks with intervals from 1 ms to 1.4 s whose sorted run times are compared with the schedule, tasks due after Stop, periodic tasks stopped at random moments, delayed ones stopped while the wheel moves them between its levels, and drift measured over 1.2 s; distinct by delay or interval, stopping and runs",
		Assumptions: []string{"the timer granularity is one millisecond: 2 ms of earliness are tolerated", "drift must show in three consecutive measurements"},
		Par:         6,
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "timers", Scenario: "timers"},
				{Name: "timers-two-cpu", Scenario: "timers", Procs: 2},
				{Name: "timers-race", Scenario: "timers", Race: true, P: map[string]int{"rounds": 6}},
				{Name: "stop", Scenario: "timers-stop"},
				{Name: "stop-perturbed", Scenario: "timers-stop", Perturb: 2},
				{Name: "drift", Scenario: "drift"},
				{Name: "unschedule", Scenario: "unschedule"},
				{Name: "unschedule-busy", Scenario: "unschedule", Procs: 2, P: map[string]int{"burners": 4}},
			}
			if tier == "thorough" {
				for i := 0; i < 6; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: []string{"timers", "timers-stop", "drift", "unschedule"}[i%4], Perturb: i % 2})
				}
			}
			return js
		}})
}
