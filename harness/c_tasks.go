package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Allenxuxu/gev/eventloop"
	"github.com/Allenxuxu/gev/poller"
	"golang.org/x/sys/unix"
)

// The tasks scenario drives event loops directly and records every execution
// of every queued function (C06).

type taskLog struct {
	w    *W
	gid  int64 // the loop's goroutine
	last []int64
	ran  int64
	in   int32
}

func (t *taskLog) run(p int, seq int64) {
	w := t.w
	if n := atomic.AddInt32(&t.in, 1); n != 1 {
		w.V("C06", "two tasks run at the same time")
	}
	g := goid()
	if !atomic.CompareAndSwapInt64(&t.gid, 0, g) && atomic.LoadInt64(&t.gid) != g {
		w.V("C06", "task ran on goroutine %d, the loop is goroutine %d", g, t.gid)
	}
	if l := atomic.LoadInt64(&t.last[p]); seq != l+1 {
		if seq <= l {
			w.V("C06", "task %d of producer %d ran again or after task %d", seq, p, l)
		} else {
			w.V("C06", "task %d of producer %d ran before task %d", seq, p, l+1)
		}
	}
	atomic.StoreInt64(&t.last[p], seq)
	if p < len(t.last)-1 { // the last producer is I/O, which nobody waits for
		atomic.AddInt64(&t.ran, 1)
	}
	atomic.AddInt32(&t.in, -1)
}

func newTaskLog(w *W, producers int) *taskLog {
	return &taskLog{w: w, last: make([]int64, producers)}
}

type sockFn struct {
	f func(fd int, ev poller.Event)
}

func (s *sockFn) HandleEvent(fd int, ev poller.Event) { s.f(fd, ev) }
func (s *sockFn) Close() error                        { return nil }

func scenarioTasks(w *W) {
	rounds := w.Scale(w.Param("rounds", 30), 20*w.Param("rounds", 30))
	for r := 0; r < rounds && !w.Violated(); r++ {
		tasksRound(w, r)
	}
	wakeups(w)
}

// wakeups: single tasks (and small simultaneous groups) handed to an idle loop
// with nothing else happening.
func wakeups(w *W) {
	l, err := eventloop.New()
	w.Must(err)
	done := make(chan struct{})
	go func() { l.Run(); close(done) }()
	n := w.Scale(w.Param("wakeups", 4000), 60000)
	var ran int64
	gate := make([]chan int64, 4)
	var left int64
	for g := range gate {
		gate[g] = make(chan int64)
		go func(g int) {
			for range gate[g] {
				l.QueueInLoop(func() { atomic.AddInt64(&ran, 1) })
				atomic.AddInt64(&left, -1)
			}
		}(g)
	}
	total := int64(0)
	for i := 0; i < n && !w.Violated(); i++ {
		k := 1 + i%len(gate)
		atomic.StoreInt64(&left, int64(k))
		for g := 0; g < k; g++ {
			gate[g] <- 1
		}
		total += int64(k)
		w.Await(fmt.Sprintf("round %d: %d tasks given to an idle loop run (%d of %d ran)", i, k, atomic.LoadInt64(&ran), total), nil, func() bool { return atomic.LoadInt64(&ran) >= total && atomic.LoadInt64(&left) == 0 })
		if x := atomic.LoadInt64(&ran); x > total {
			w.V("C06", "%d tasks queued, %d executions", total, x)
		}
		w.Case(fmt.Sprintf("wakeup group=%d pause=%d", k, i%5))
		for d := 0; d < i%5; d++ {
			runtime.Gosched() // vary how far the loop has gone back to sleep
		}
	}
	for g := range gate {
		close(gate[g])
	}
	w.Ev("wakeup-rounds", int64(n))
	if w.Violated() {
		return
	}
	wakeupPairs(w, l)
	if w.Violated() {
		return
	}
	stopped := make(chan struct{})
	go func() { _ = l.Stop(); <-done; close(stopped) }()
	w.Await("an idle loop stops", nil, func() bool { return isClosed(stopped) })
}

// wakeupPairs hands an idle loop one task and, a varying number of nanoseconds
// later, from a spinning goroutine, a second one, so that it meets the loop at
// every point of its way through waking up, taking its queue and going back to
// sleep. Nothing else happens that could rescue a lost one.
func wakeupPairs(w *W, l *eventloop.EventLoop) {
	var ran, turn int64
	f := func() { atomic.AddInt64(&ran, 1) }
	second := make(chan struct{})
	go func() {
		defer close(second)
		rng := rand.New(rand.NewSource(w.Seed))
		x, center := 0, 3000
		for n := int64(1); ; n++ {
			for spins := 0; ; spins++ {
				t := atomic.LoadInt64(&turn)
				if t < 0 {
					return
				}
				if t >= n {
					break
				}
				if spins > 200 {
					runtime.Gosched()
				}
			}
			spin := center + rng.Intn(center/4+40) - center/8
			if n&7 == 0 {
				spin = rng.Intn(40000)
			}
			for k := spin; k > 0; k-- {
				x ^= k << (k & 7)
			}
			late := atomic.LoadInt64(&ran) > 2*(n-1)
			l.QueueInLoop(f)
			if n&7 == 0 {
				continue
			}
			// close in on the moment the loop takes its queue
			if late {
				center = max(center-center/64-1, 0)
				w.Ev("second-task-after-the-first-ran", 1)
			} else {
				center += center/64 + 1
				w.Ev("second-task-before-the-first-ran", 1)
			}
		}
	}()
	defer func() {
		atomic.StoreInt64(&turn, -1)
		<-second
	}()
	pairs := w.Scale(w.Param("pairs", 6000), 40*w.Param("pairs", 6000))
	begin, limit := time.Now(), 6*time.Second
	if w.Thorough() {
		limit = time.Minute
	}
	for n := int64(1); n <= int64(pairs); n++ {
		atomic.StoreInt64(&turn, n)
		l.QueueInLoop(f)
		for k := 0; k < 20000 && atomic.LoadInt64(&ran) < 2*n; k++ {
			if k&63 == 63 {
				runtime.Gosched()
			}
		}
		if atomic.LoadInt64(&ran) < 2*n && !w.Await(fmt.Sprintf("both tasks of a pair given to an idle loop run (%d of %d ran)", atomic.LoadInt64(&ran), 2*n), nil, func() bool { return atomic.LoadInt64(&ran) == 2*n }) {
			return
		}
		if n%50 == 0 {
			w.Case(fmt.Sprintf("pairs=%d", n%500))
			w.Ev("wakeup-pairs", 50)
			if time.Since(begin) > limit {
				break
			}
		}
	}
}

func isClosed(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func tasksRound(w *W, r int) {
	l, err := eventloop.New()
	w.Must(err)
	producers := 1 + w.rng.Intn(8)
	per := 20 + w.rng.Intn(200)
	burst := w.rng.Intn(4) == 0
	if burst {
		per = 1500 + w.rng.Intn(3000)
	}
	before := w.rng.Intn(3) == 0 // queue before the loop runs
	nest := w.rng.Intn(3)
	io := w.rng.Intn(2) == 0
	stopAtOnce := w.rng.Intn(2) == 0 // stop right after the last task has been queued
	// producers 0..P-1, the loop itself (nested tasks) is producer P, I/O events P+1
	t := newTaskLog(w, producers+2)
	var nested, nestedSeq, ioSeq int64
	var expected int64
	queue := func(p int, seq int64) {
		l.QueueInLoop(func() {
			t.run(p, seq)
			if nest > 0 && int(seq)%(7-2*nest) == 0 {
				// from inside a task: runs later, in order, not immediately
				atomic.AddInt64(&nested, 1)
				nestedSeq++
				s := nestedSeq
				inside := true
				l.QueueInLoop(func() {
					if inside {
						w.V("C06", "a task queued from inside a task ran before that task finished")
					}
					t.run(producers, s)
				})
				inside = false
			}
		})
	}
	done := make(chan struct{})
	start := func() { go func() { l.Run(); close(done) }() }
	if !before {
		start()
	}
	stopIO := make(chan struct{})
	var ioWG sync.WaitGroup
	var fds [2]int
	if io {
		fds, err = unix.Socketpair(unix.AF_UNIX, unix.SOCK_STREAM|unix.SOCK_NONBLOCK|unix.SOCK_CLOEXEC, 0)
		w.Must(err)
		defer unix.Close(fds[0])
		defer unix.Close(fds[1])
		buf := make([]byte, 512)
		s := &sockFn{func(fd int, ev poller.Event) {
			if n, _ := unix.Read(fd, buf); n > 0 {
				ioSeq++
				s := ioSeq
				l.QueueInLoop(func() { t.run(producers+1, s) })
			}
		}}
		l.QueueInLoop(func() { w.Must(l.AddSocketAndEnableRead(fds[0], s)) })
		ioWG.Add(1)
		go func() {
			defer ioWG.Done()
			for {
				select {
				case <-stopIO:
					return
				default:
				}
				_, _ = unix.Write(fds[1], []byte("x"))
				time.Sleep(20 * time.Microsecond)
			}
		}()
	}
	var wg sync.WaitGroup
	for p := 0; p < producers; p++ {
		wg.Add(1)
		expected += int64(per)
		rng := rand.New(rand.NewSource(w.rng.Int63()))
		go func(p int) {
			defer wg.Done()
			for s := 1; s <= per; s++ {
				queue(p, int64(s))
				switch rng.Intn(24) {
				case 0:
					runtime.Gosched()
				case 1:
					if !burst {
						time.Sleep(time.Duration(rng.Intn(60)) * time.Microsecond)
					}
				}
			}
		}(p)
	}
	if before {
		if w.rng.Intn(2) == 0 {
			wg.Wait()
		}
		start()
	}
	wg.Wait()
	close(stopIO)
	ioWG.Wait()
	if !stopAtOnce {
		// nothing else happens from here on
		w.Await(fmt.Sprintf("%d tasks of %d producers run (before=%v burst=%v io=%v)", expected, producers, before, burst, io), func() int64 { return atomic.LoadInt64(&t.ran) },
			func() bool { return atomic.LoadInt64(&t.ran) >= expected+atomic.LoadInt64(&nested) })
	}
	if w.Violated() {
		return
	}
	stopped := make(chan struct{})
	go func() {
		// a loop can only be stopped once it is polling
		for l.Stop() != nil {
			time.Sleep(50 * time.Microsecond)
		}
		<-done
		close(stopped)
	}()
	if !w.Await("the loop stops", func() int64 { return atomic.LoadInt64(&t.ran) }, func() bool { return isClosed(stopped) }) {
		return
	}
	for p := 0; p < producers; p++ {
		if t.last[p] != int64(per) {
			w.V("C06", "producer %d queued %d tasks before Stop, the last executed is %d", p, per, t.last[p])
		}
	}
	w.Ev("tasks", t.ran)
	w.Ev("nested", nested)
	w.Ev("io-tasks", ioSeq)
	w.Case(fmt.Sprintf("producers=%d per=%d before=%v nested=%v io=%v stop-at-once=%v", producers, per, before, nested > 0, io, stopAtOnce))
}

func init() {
	scenarios["tasks"] = scenarioTasks
	scenarios["pairs"] = func(w *W) {
		l, err := eventloop.New()
		w.Must(err)
		done := make(chan struct{})
		go func() { l.Run(); close(done) }()
		wakeupPairs(w, l)
		if !w.Violated() {
			_ = l.Stop()
			<-done
		}
	}
	register("C06", &Property{
		Rule:        "one case = one event loop given numbered tasks by 1-8 producers, from inside tasks and from I/O events, before or after it starts running, in trickles or bursts of thousands, and then stopped, or one round of 1-4 goroutines handing single tasks to a sleeping loop with no other activity; every execution is recorded and checked for exactly-once, per-producer order, goroutine and completion before Stop; distinct by producers, counts and mode",
		Assumptions: []string{"tasks queued by a task that is itself still pending when Stop is called are not required to run"},
		jobs: func(tier string) []Job {
			js := []Job{
				{Name: "tasks", Scenario: "tasks"},
				{Name: "pairs", Scenario: "pairs", P: map[string]int{"pairs": 30000}},
				{Name: "pairs-2", Scenario: "pairs", Seed: 1, P: map[string]int{"pairs": 30000}},
				{Name: "perturbed", Scenario: "tasks", Perturb: 1},
				{Name: "heavy-perturbed", Scenario: "tasks", Perturb: 2, P: map[string]int{"rounds": 12, "wakeups": 3000}},
				{Name: "one-cpu", Scenario: "tasks", Procs: 1},
				{Name: "two-cpu", Scenario: "tasks", Procs: 2, Perturb: 1},
				{Name: "race", Scenario: "tasks", Race: true},
			}
			if tier == "thorough" {
				for i := 0; i < 8; i++ {
					js = append(js, Job{Name: fmt.Sprintf("deep-%d", i), Scenario: "tasks", Perturb: i % 3, Procs: []int{0, 1, 2, 3}[i%4]})
				}
			}
			return js
		}})
}
