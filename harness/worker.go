package main

import (
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	gevlog "github.com/Allenxuxu/gev/log"
	"github.com/Allenxuxu/gev/vhook"
)

// Job is one scenario execution in its own process.
type Job struct {
	Name     string         `json:"name"` // unique within the property
	Prop     string         `json:"prop"`
	Scenario string         `json:"scenario"`
	Seed     int64          `json:"seed"`
	Tier     string         `json:"tier"`
	Race     bool           `json:"race"`
	Procs    int            `json:"procs"`   // GOMAXPROCS, 0 = default
	Perturb  int            `json:"perturb"` // 0 off, 1 light, 2 heavy
	P        map[string]int `json:"params,omitempty"`
	Solo     bool           `json:"solo"`    // run without other workers in parallel
	LimitS   int            `json:"limit_s"` // worker time limit
	Mult     int            `json:"mult"`    // quick counts are multiplied by this
}

// Report is what a worker observed.
type Report struct {
	Done         bool             `json:"done"`
	Evaluations  int64            `json:"evaluations"`
	Distinct     map[string]int   `json:"distinct"`
	Samples      []string         `json:"samples"`
	Violations   []string         `json:"violations"`
	Known        []string         `json:"known,omitempty"` // violations that are listed findings
	Inconclusive []string         `json:"inconclusive"`
	Events       map[string]int64 `json:"events"`
}

// W is the context of a running scenario.
type W struct {
	Job
	rng *rand.Rand

	mu    sync.Mutex
	rep   Report
	path  string
	start time.Time

	maxSamples int
	hookHits   [vhook.NumPoints]int64
	events     sync.Map // name -> *int64
}

var theW *W

func workerMain(jobPath, reportPath string) int {
	b, err := os.ReadFile(jobPath)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	w := &W{path: reportPath, start: time.Now(), maxSamples: 3}
	if err := json.Unmarshal(b, &w.Job); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	theW = w
	w.rng = rand.New(rand.NewSource(w.Seed))
	w.rep.Distinct = map[string]int{}
	w.rep.Events = map[string]int64{}
	if w.Procs > 0 {
		runtime.GOMAXPROCS(w.Procs)
	}
	debug.SetTraceback("all")
	stdlog.SetOutput(io.Discard)
	gevlog.SetLogger(&countLogger{})
	w.installPerturbation()
	startControl()
	f, ok := scenarios[w.Scenario]
	if !ok {
		fmt.Fprintln(os.Stderr, "HARNESS: no scenario", w.Scenario)
		return 3
	}
	f(w)
	w.mu.Lock()
	w.rep.Done = true
	w.mu.Unlock()
	w.flush()
	return 0
}

type countLogger struct{ n int64 }

func (l *countLogger) Log(v ...interface{})            { l.emit(fmt.Sprint(v...)) }
func (l *countLogger) Logf(f string, v ...interface{}) { l.emit(fmt.Sprintf(f, v...)) }
func (l *countLogger) emit(s string) {
	atomic.AddInt64(&l.n, 1)
	if os.Getenv("GEVVERIF_LOG") != "" {
		fmt.Fprintln(os.Stderr, "GEV:", s)
	}
}

func (w *W) flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events.Range(func(k, v any) bool {
		w.rep.Events[k.(string)] = atomic.LoadInt64(v.(*int64))
		return true
	})
	for i := range w.hookHits {
		if n := atomic.LoadInt64(&w.hookHits[i]); n > 0 {
			w.rep.Events["hook:"+hookNames[i]] = n
		}
	}
	b, _ := json.Marshal(&w.rep)
	tmp := w.path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		_ = os.Rename(tmp, w.path)
	}
}

var hookNames = [vhook.NumPoints]string{
	vhook.QueueAppended: "QueueAppended", vhook.LoopWoken: "LoopWoken", vhook.LoopTaken: "LoopTaken",
	vhook.SendChecked: "SendChecked", vhook.CloseChecked: "CloseChecked", vhook.ShutChecked: "ShutChecked",
	vhook.ClosingFd: "ClosingFd", vhook.Accepted: "Accepted", vhook.StopBegun: "StopBegun",
	vhook.StopListener: "StopListener", vhook.PollClosing: "PollClosing", vhook.PollWoken: "PollWoken",
	vhook.IdleFired: "IdleFired", vhook.ConnCreated: "ConnCreated",
}

// Param returns a job parameter or its default.
func (w *W) Param(name string, def int) int {
	if v, ok := w.P[name]; ok {
		return v
	}
	return def
}

// Thorough reports whether this is a deep run.
func (w *W) Thorough() bool { return w.Tier == "thorough" }

// Scale picks an iteration count by tier, reduced under the race detector.
func (w *W) Scale(quick, thorough int) int {
	n := quick
	if w.Mult > 1 {
		n *= w.Mult
	}
	if w.Thorough() && thorough > n {
		n = thorough
	}
	if w.Race && n > 4 {
		n = (n + 3) / 4
	}
	return n
}

// Evaluations is the number of cases so far.
func (w *W) Evaluations() int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return int64(w.rep.Evaluations)
}

// Case counts one evaluated case; sig identifies it up to triviality ("" = trivial).
func (w *W) Case(sig string) {
	w.mu.Lock()
	w.rep.Evaluations++
	if sig != "" {
		if len(w.rep.Distinct) < 200000 {
			w.rep.Distinct[sig]++
		}
		if len(w.rep.Samples) < w.maxSamples && w.rep.Distinct[sig] == 1 {
			w.rep.Samples = append(w.rep.Samples, sig)
		}
	}
	w.mu.Unlock()
}

// Ev counts an observed event kind.
func (w *W) Ev(name string, n int64) {
	p, ok := w.events.Load(name)
	if !ok {
		p, _ = w.events.LoadOrStore(name, new(int64))
	}
	atomic.AddInt64(p.(*int64), n)
}

// EvCount reads an event counter.
func (w *W) EvCount(name string) int64 {
	if p, ok := w.events.Load(name); ok {
		return atomic.LoadInt64(p.(*int64))
	}
	return 0
}

// Violate records a property violation.
func (w *W) Violate(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	w.mu.Lock()
	if knownFor(w.Prop, msg) != nil {
		if len(w.rep.Known) < 5 {
			w.rep.Known = append(w.rep.Known, msg)
		}
		w.mu.Unlock()
		w.Ev("known-finding-observed", 1)
		return
	}
	n := len(w.rep.Violations)
	if n < 25 {
		w.rep.Violations = append(w.rep.Violations, msg)
	}
	w.mu.Unlock()
	if n < 25 {
		w.flush()
	}
	if n == 0 {
		// the verdict is known: collect what else shows for a while, then end
		time.AfterFunc(convictedGrace, w.finishNow)
	}
}

// Violated reports whether a violation has been recorded.
func (w *W) Violated() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.rep.Violations) > 0
}

// Inconclusive records that something could not be decided.
func (w *W) Inconclusive(format string, a ...any) {
	w.mu.Lock()
	if len(w.rep.Inconclusive) < 25 {
		w.rep.Inconclusive = append(w.rep.Inconclusive, fmt.Sprintf(format, a...))
	}
	w.mu.Unlock()
}

// Fatal ends the worker with a harness error (never a verdict).
func (w *W) Fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	w.flush()
	os.Exit(3)
}

// Must fails the harness on err.
func (w *W) Must(err error) {
	if err != nil {
		_, file, line, _ := runtime.Caller(1)
		w.Fatal("%s:%d: %v", file, line, err)
	}
}

// ---------------------------------------------------------------- progress

var controlTrips int64

// startControl keeps a byte travelling through a loopback TCP pair: its
// round trips prove that this process and the kernel's network were running
// while something else made no progress.
func startControl() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		theW.Fatal("control: %v", err)
	}
	cc := make(chan net.Conn, 1)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			theW.Fatal("control: %v", err)
		}
		cc <- c
	}()
	a, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		theW.Fatal("control: %v", err)
	}
	b := <-cc
	_ = ln.Close()
	go func() {
		buf := make([]byte, 1)
		for {
			if _, err := b.Read(buf); err != nil {
				return
			}
			if _, err := b.Write(buf); err != nil {
				return
			}
		}
	}()
	go func() {
		buf := []byte{1}
		for {
			if _, err := a.Write(buf); err != nil {
				return
			}
			if _, err := a.Read(buf); err != nil {
				return
			}
			atomic.AddInt64(&controlTrips, 1)
			time.Sleep(time.Millisecond)
		}
	}()
}

const (
	stallWall  = 10 * time.Second
	stallTrips = 1000
)

// Await waits until cond holds. When neither cond nor prog (which may be nil)
// moves for stallWall while the control connection kept making round trips,
// the awaited obligation counts as violated. Returns whether cond held.
func (w *W) Await(what string, prog func() int64, cond func() bool) bool {
	if ok, stalled := w.await(prog, cond); ok {
		return true
	} else if stalled {
		w.Violate("no progress for %v while %d control round trips succeeded: %s", stallWall, stallTrips, what)
	} else {
		w.Inconclusive("gave up waiting (machine too slow to judge): %s", what)
	}
	return false
}

// AwaitFor is Await for an obligation that belongs to the named properties only.
func (w *W) AwaitFor(props, what string, prog func() int64, cond func() bool) bool {
	ok, stalled := w.await(prog, cond)
	if ok {
		return true
	}
	if stalled {
		w.V(props, "no progress for %v while %d control round trips succeeded: %s", stallWall, stallTrips, what)
	} else {
		w.Inconclusive("gave up waiting (machine too slow to judge): %s", what)
	}
	return false
}

func (w *W) await(prog func() int64, cond func() bool) (ok, stalled bool) {
	for i := 0; i < 200; i++ {
		if cond() {
			return true, false
		}
		runtime.Gosched()
	}
	var last int64
	if prog != nil {
		last = prog()
	}
	begin := time.Now()
	mark, trips := begin, atomic.LoadInt64(&controlTrips)
	for d := 50 * time.Microsecond; ; {
		if cond() {
			return true, false
		}
		time.Sleep(d)
		if d < 2*time.Millisecond {
			d += d / 2
		}
		if prog != nil {
			if p := prog(); p != last {
				last = p
				mark, trips = time.Now(), atomic.LoadInt64(&controlTrips)
				continue
			}
		}
		if time.Since(mark) > stallWall && atomic.LoadInt64(&controlTrips)-trips >= stallTrips {
			return cond(), true
		}
		if time.Since(begin) > 240*time.Second {
			return cond(), false
		}
	}
}

// ------------------------------------------------------------ perturbation

type pert struct{ state uint64 }

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (w *W) installPerturbation() {
	var n uint64
	seed := uint64(w.Seed) * 0x9e3779b97f4a7c15
	level := w.Perturb
	vhook.Set(func(id int) {
		atomic.AddInt64(&w.hookHits[id], 1)
		if level == 0 {
			return
		}
		r := splitmix(seed + atomic.AddUint64(&n, 1)*31 + uint64(id))
		if level == 3 && id == vhook.ConnCreated && r&3 == 0 { // linger before a new connection is used
			time.Sleep(time.Duration(500+(r>>8)%3500) * time.Microsecond)
			return
		}
		var sleepIn64, yieldIn64 uint64 = 3, 16
		if level >= 2 {
			sleepIn64, yieldIn64 = 16, 32
		}
		switch v := r & 63; {
		case v < sleepIn64:
			us := (r >> 8) % 100
			if (r>>32)&31 == 0 {
				us = 500 + (r>>8)%2000
			}
			time.Sleep(time.Duration(us) * time.Microsecond)
		case v < sleepIn64+yieldIn64:
			for i := uint64(0); i <= (r>>8)&3; i++ {
				runtime.Gosched()
			}
		}
	})
}

// -------------------------------------------------------------- small tools

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// goid returns the id of the calling goroutine.
func goid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id int64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}
