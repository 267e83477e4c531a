package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	stdlog "log"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	gevlog "github.com/Allenxuxu/gev/log"
)

// The log scenarios compare what reaches the logger with the definition of
// the call (C27): a capturing logger in this process, the default logger and
// the terminating calls in processes of their own.

func init() {
	scenarios["log"] = scenarioLog
	scenarios["logpar"] = scenarioLogPar
	scenarios["logproc"] = scenarioLogProc
	register("C27", &Property{
		Rule: "a case is one log call (function, configured level, prefix, format, arguments) whose effect on the configured logger was compared with the definition; or one process that logs, and possibly ends, through the default logger. Non-trivial: identified by function, level, prefix class, number and kinds of arguments",
		Assumptions: []string{
			"fmt.Sprint and fmt.Sprintf of the caller's arguments define the message",
			"severities are ordered fatal, info, error, debug, as the package declares them",
			"configuration (logger, level, prefix) is not changed while other goroutines log",
		},
		jobs: func(tier string) []Job {
			return []Job{
				{Name: "calls", Scenario: "log"},
				{Name: "calls-2", Scenario: "log", Seed: 1},
				{Name: "parallel", Scenario: "logpar", Seed: 2},
				{Name: "parallel-race", Scenario: "logpar", Seed: 3, Race: true},
				{Name: "processes", Scenario: "logproc", Seed: 4},
			}
		},
		Races: true,
	})
}

type captureLogger struct {
	mu  sync.Mutex
	got []string
	via []string
}

func (l *captureLogger) Log(v ...interface{}) {
	l.mu.Lock()
	l.got, l.via = append(l.got, fmt.Sprint(v...)), append(l.via, "Log")
	l.mu.Unlock()
}

func (l *captureLogger) Logf(f string, v ...interface{}) {
	l.mu.Lock()
	l.got, l.via = append(l.got, fmt.Sprintf(f, v...)), append(l.via, "Logf")
	l.mu.Unlock()
}

type logFn struct {
	name string
	lvl  gevlog.Level // 0: always
	f    func(v ...interface{})
	ff   func(format string, v ...interface{})
}

var logFns = []logFn{
	{"Log", 0, gevlog.Log, nil}, {"Logf", 0, nil, gevlog.Logf},
	{"Debug", gevlog.LevelDebug, gevlog.Debug, nil}, {"Debugf", gevlog.LevelDebug, nil, gevlog.Debugf},
	{"Info", gevlog.LevelInfo, gevlog.Info, nil}, {"Infof", gevlog.LevelInfo, nil, gevlog.Infof},
	{"Error", gevlog.LevelError, gevlog.Error, nil}, {"Errorf", gevlog.LevelError, nil, gevlog.Errorf},
}

var logPrefixes = []string{"", "[Gev]", " ", "[100%]", "%d", "%", "[%!s(x)]", "[服务]", "a b%%c", "%[1]s ", "\n", "x%"}

func logArg(r *rand.Rand) interface{} {
	switch r.Intn(12) {
	case 0:
		return nil
	case 1:
		return r.Intn(1000) - 500
	case 2:
		return r.NormFloat64()
	case 3:
		return ""
	case 4:
		return "100% of %d %s"
	case 5:
		return errors.New("failed: %v")
	case 6:
		return []byte("bytes")
	case 7:
		return struct{ A, B int }{1, r.Intn(9)}
	case 8:
		return []interface{}{1, "x", nil}
	case 9:
		return &struct{ S string }{"p"}
	case 10:
		return r.Intn(2) == 0
	}
	return fmt.Sprintf("text %d\n", r.Intn(100))
}

func logFormat(r *rand.Rand) string {
	parts := []string{"%v", "%d", "%s", "%+v", "%q", "%%", "plain ", "é", "%[1]v", "%5.2f", "%", "%!", "%x", " ", "\n", "%T", "%*d", "100%", "%[9]d"}
	var b strings.Builder
	for i := r.Intn(6); i > 0; i-- {
		b.WriteString(parts[r.Intn(len(parts))])
	}
	return b.String()
}

func sameArg(a, b interface{}) bool {
	return fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b)
}

func scenarioLog(w *W) {
	old := gevlog.GetLogger()
	defer gevlog.SetLogger(old)
	cl := &captureLogger{}
	gevlog.SetLogger(cl)
	if gevlog.GetLogger() != gevlog.Logger(cl) {
		w.V("C27", "GetLogger does not return the logger that was set")
	}
	other := &captureLogger{}
	n := w.Scale(60000, 3000000)
	for i := 0; i < n && !w.Violated(); i++ {
		r := w.rng
		lvl := gevlog.Level(r.Intn(7) - 1)
		gevlog.SetLevel(lvl)
		if gevlog.GetLevel() != lvl {
			w.V("C27", "GetLevel is %d after SetLevel(%d)", gevlog.GetLevel(), lvl)
		}
		prefix := logPrefixes[r.Intn(len(logPrefixes))]
		shown := prefix
		if r.Intn(3) == 0 {
			gevlog.Name(prefix)
			shown = "[" + prefix + "]"
		} else {
			gevlog.SetPrefix(prefix)
		}
		target := cl
		if r.Intn(5) == 0 {
			target = other
		}
		gevlog.SetLogger(target)
		// arguments live in the middle of a larger array, which must stay as it is
		back := make([]interface{}, 12)
		for j := range back {
			back[j] = logArg(r)
		}
		keep := append([]interface{}{}, back...)
		k := r.Intn(6)
		args := back[3 : 3+k]
		fn := logFns[r.Intn(len(logFns))]
		name := fn.name
		enabled := fn.lvl == 0 || fn.lvl <= lvl
		format := ""
		isF := fn.ff != nil
		if r.Intn(4) == 0 {
			l := gevlog.Level(r.Intn(8) - 1)
			enabled = l <= lvl
			isF = r.Intn(2) == 0
			name = fmt.Sprintf("WithLevel(%d)", l)
			if isF {
				name = fmt.Sprintf("WithLevelf(%d)", l)
				fn.ff = func(format string, v ...interface{}) { gevlog.WithLevelf(l, format, v...) }
			} else {
				fn.f = func(v ...interface{}) { gevlog.WithLevel(l, v...) }
			}
		}
		want := ""
		if isF {
			format = logFormat(r)
			want = fmt.Sprintf(format, args...)
			fn.ff(format, args...)
		} else {
			want = fmt.Sprint(args...)
			fn.f(args...)
		}
		if shown != "" {
			want = shown + " " + want
		}
		for j := range back {
			if !sameArg(back[j], keep[j]) {
				w.V("C27", "%s changed the caller's argument array at %d (arguments are 3..%d): %v became %v", name, j, 3+k, keep[j], back[j])
			}
		}
		wrong := cl
		if target == cl {
			wrong = other
		}
		if len(wrong.got) != 0 {
			w.V("C27", "%s reached a logger that is not configured", name)
		}
		switch {
		case !enabled && len(target.got) != 0:
			w.V("C27", "%s at configured level %d emitted %q", name, lvl, target.got)
		case enabled && len(target.got) != 1:
			w.V("C27", "%s at configured level %d emitted %d messages: %q", name, lvl, len(target.got), target.got)
		case enabled && target.got[0] != want:
			w.V("C27", "%s(%q, %v) with prefix %q emitted %q instead of %q", name, format, args, shown, target.got[0], want)
		}
		cl.got, cl.via, other.got, other.via = nil, nil, nil, nil
		kinds := make([]string, 0, k)
		for _, a := range args {
			kinds = append(kinds, fmt.Sprintf("%T", a))
		}
		sort.Strings(kinds)
		if i%8 == 0 {
			w.Case(fmt.Sprintf("%s level=%d prefix=%q %v", name, lvl, shown, kinds))
		} else {
			w.Case("")
		}
	}
	w.Ev("log-calls", int64(n))
}

// scenarioLogPar: many goroutines log through the default logger.
func scenarioLogPar(w *W) {
	var buf lockedBuf
	child := gevlog.Logger(nil)
	_ = child
	stdlog.SetOutput(&buf)
	stdlog.SetFlags(0)
	gevlog.SetLogger(defaultGevLogger)
	gevlog.SetLevel(gevlog.LevelError)
	gevlog.SetPrefix("[P%d]")
	const g = 8
	per := w.Scale(4000, 60000)
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			args := make([]interface{}, 2, 8)
			for i := 0; i < per; i++ {
				args[0], args[1] = k, i
				switch i % 4 {
				case 0:
					gevlog.Info("a ", k, " ", i, " e")
				case 1:
					gevlog.Errorf("a %d %d e", k, i)
				case 2:
					gevlog.Debug("hidden")
				case 3:
					gevlog.Infof("a %d %d e", args...)
				}
			}
		}(k)
	}
	wg.Wait()
	seen := map[string]int{}
	for _, l := range strings.Split(strings.TrimSuffix(buf.String(), "\n"), "\n") {
		seen[l]++
	}
	want := 0
	for k := 0; k < g; k++ {
		for i := 0; i < per; i++ {
			if i%4 == 2 {
				continue
			}
			want++
			if n := seen[fmt.Sprintf("[P%%d] a %d %d e", k, i)]; n != 1 {
				w.V("C27", "message %d of goroutine %d appeared %d times", i, k, n)
				if w.Violated() {
					return
				}
			}
			w.Case("")
		}
	}
	if len(seen) != want {
		w.V("C27", "%d different lines appeared, %d expected", len(seen), want)
	}
	w.Case(fmt.Sprintf("parallel goroutines=%d", g))
	w.Case(fmt.Sprintf("parallel lines=%d", want))
	w.Ev("parallel-lines", int64(want))
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

var defaultGevLogger = gevlog.GetLogger()

// logChildSpec tells a child process what to log.
type logChildSpec struct {
	SetLevel  int // -100: leave
	SetPrefix *string
	Calls     []logChildCall
}

type logChildCall struct {
	Fn     string
	Format string
	Args   []string
}

// logChild runs in a process of its own.
func logChild(spec string) int {
	var s logChildSpec
	if err := json.Unmarshal([]byte(spec), &s); err != nil {
		return 99
	}
	stdlog.SetFlags(0)
	if s.SetLevel != -100 {
		gevlog.SetLevel(gevlog.Level(s.SetLevel))
	}
	if s.SetPrefix != nil {
		gevlog.SetPrefix(*s.SetPrefix)
	}
	for _, c := range s.Calls {
		args := make([]interface{}, len(c.Args), len(c.Args)+4)
		for i, a := range c.Args {
			args[i] = a
		}
		switch c.Fn {
		case "Fatal":
			gevlog.Fatal(args...)
			os.Exit(77)
		case "Fatalf":
			gevlog.Fatalf(c.Format, args...)
			os.Exit(77)
		}
		for _, f := range logFns {
			if f.name == c.Fn {
				if f.f != nil {
					f.f(args...)
				} else {
					f.ff(c.Format, args...)
				}
			}
		}
	}
	return 0
}

func scenarioLogProc(w *W) {
	n := w.Scale(120, 2000)
	self, err := os.Executable()
	w.Must(err)
	envs := []string{"", "debug", "info", "error", "fatal", "nonsense"}
	envLevel := map[string]int{"": 2, "debug": 4, "info": 2, "error": 3, "fatal": 1, "nonsense": 2}
	fnLevel := map[string]int{"Log": 0, "Logf": 0, "Debug": 4, "Debugf": 4, "Info": 2, "Infof": 2, "Error": 3, "Errorf": 3, "Fatal": 1, "Fatalf": 1}
	for i := 0; i < n && !w.Violated(); i++ {
		env := envs[w.rng.Intn(len(envs))]
		spec := logChildSpec{SetLevel: -100}
		level := envLevel[env]
		if w.rng.Intn(3) == 0 {
			spec.SetLevel = w.rng.Intn(6)
			level = spec.SetLevel
		}
		prefix := "[Gev]"
		if w.rng.Intn(2) == 0 {
			prefix = []string{"", "[svc]", "50%"}[w.rng.Intn(3)]
			spec.SetPrefix = &prefix
		}
		k := 1 + w.rng.Intn(8)
		for j := 0; j < k; j++ {
			c := logChildCall{Fn: logFns[w.rng.Intn(len(logFns))].name}
			spec.Calls = append(spec.Calls, c)
		}
		end := ""
		if w.rng.Intn(3) > 0 {
			end = []string{"Fatal", "Fatalf"}[w.rng.Intn(2)]
			at := w.rng.Intn(k)
			spec.Calls[at].Fn = end
		}
		var want strings.Builder
		status := 0
		for j := range spec.Calls {
			c := &spec.Calls[j]
			msg := ""
			if strings.HasSuffix(c.Fn, "f") {
				c.Format = []string{"n %s of %s", "%s%s", "%[2]s %[1]s 100%%"}[w.rng.Intn(3)]
				c.Args = []string{fmt.Sprint(j), "x%y"}
				msg = fmt.Sprintf(c.Format, c.Args[0], c.Args[1])
			} else {
				for a := w.rng.Intn(4); a >= 0; a-- {
					c.Args = append(c.Args, fmt.Sprintf("arg%d%%d ", a))
				}
				msg = strings.Join(c.Args, "")
			}
			if status == 0 && (fnLevel[c.Fn] == 0 || fnLevel[c.Fn] <= level) {
				if prefix != "" {
					msg = prefix + " " + msg
				}
				want.WriteString(msg + "\n")
			}
			if strings.HasPrefix(c.Fn, "Fatal") {
				status = 1
			}
		}
		b, _ := json.Marshal(&spec)
		cmd := exec.Command(self, "logchild", string(b))
		var envv []string
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "GEV_LOG_LEVEL=") {
				envv = append(envv, e)
			}
		}
		if env != "" || w.rng.Intn(2) == 0 {
			envv = append(envv, "GEV_LOG_LEVEL="+env)
		}
		cmd.Env = envv
		var se bytes.Buffer
		cmd.Stderr = &se
		err := cmd.Run()
		code := 0
		if err != nil {
			var ee *exec.ExitError
			if !errors.As(err, &ee) {
				w.Fatal("child: %v", err)
			}
			code = ee.ExitCode()
		}
		if code != status {
			w.V("C27", "process with calls %s ended with status %d, expected %d", b, code, status)
		}
		if se.String() != want.String() {
			w.V("C27", "process with GEV_LOG_LEVEL=%q and %s logged %q, expected %q", env, b, se.String(), want.String())
		}
		w.Case(fmt.Sprintf("process env=%q level=%d prefix=%q end=%q", env, level, prefix, end))
		w.Ev("processes", 1)
	}
}
