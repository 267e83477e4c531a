package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Property binds a property id to its scenarios.
type Property struct {
	Rule        string   // how cases are made and what makes one non-trivial
	Assumptions []string // what the verdict trusts
	Races       bool     // data race reports inside gev violate this property
	Par         int      // workers in parallel (default 6)
	jobs        func(tier string) []Job
}

var properties = map[string]*Property{}
var scenarios = map[string]func(w *W){}

func propertyIDs() []string { return sortedKeys(properties) }

func register(id string, p *Property) { properties[id] = p }

type outcome struct {
	job      Job
	rep      Report
	verdict  string // held, violated, inconclusive
	messages []string
	known    []string // observed violations that are listed findings
	attempts int
	wall     float64
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// quickMult scales the quick counts to some tens of seconds per property.
var quickMult = map[string]int{
	"C01": 5, "C02": 3, "C03": 5, "C04": 10, "C05": 3, "C06": 3, "C07": 3, "C08": 2, "C09": 10, "C10": 3,
	"C11": 2, "C12": 10, "C13": 4, "C14": 3, "C15": 4, "C16": 4, "C17": 8, "C18": 8, "C19": 4, "C20": 8,
	"C21": 8, "C22": 8, "C23": 6, "C24": 10, "C25": 12, "C26": 8, "C27": 6, "C28": 6, "C29": 12, "C30": 3,
}

func runProperty(id string) int {
	p, ok := properties[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	start := time.Now()
	jobs := p.jobs(tier)
	if f := os.Getenv("VERIF_JOB"); f != "" { // development aid: only matching jobs
		var js []Job
		for _, j := range jobs {
			if strings.Contains(j.Name, f) {
				js = append(js, j)
			}
		}
		jobs = js
	}
	for i := range jobs {
		jobs[i].Prop = id
		jobs[i].Tier = tier
		jobs[i].Mult = quickMult[id]
		jobs[i].Seed = seed*100003 + int64(i)*7919 + jobs[i].Seed
		if jobs[i].LimitS == 0 {
			jobs[i].LimitS = 300
			if tier == "thorough" {
				jobs[i].LimitS = 1500
			}
		}
	}
	work, err := os.MkdirTemp("", "gevverif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)

	par := p.Par
	if par == 0 {
		par = 6
	}
	outs := make([]outcome, len(jobs))
	if tier == "quick" {
		deadline = start.Add(780 * time.Second)
	}
	runSet := func(solo bool) {
		sem := make(chan struct{}, par)
		if solo {
			sem = make(chan struct{}, 1)
		}
		var wg sync.WaitGroup
		for i := range jobs {
			if jobs[i].Solo != solo {
				continue
			}
			wg.Add(1)
			sem <- struct{}{}
			go func(i int) {
				defer wg.Done()
				defer func() { <-sem }()
				outs[i] = runJob(p, jobs[i], work, i)
				if outs[i].verdict == "violated" {
					convictedOnce.Do(func() { close(convicted) })
				}
			}(i)
		}
		wg.Wait()
	}
	runSet(false)
	runSet(true)
	return conclude(id, p, tier, seed, outs, start)
}

// Once a job has convicted the property the others get a little more time and
// are then cut short: the verdict is known, and a check must end within its time.
var (
	convicted     = make(chan struct{})
	convictedOnce sync.Once
	deadline      time.Time // no worker may run past it (zero: no limit)
)

const convictedGrace = 15 * time.Second

// knownFor returns the listed, unrepaired finding that message m of property
// id belongs to.
func knownFor(id, m string) *finding {
	knownOnce.Do(func() { known = knownFindings() })
	for i := range known {
		if known[i].Property == id && known[i].Match != "" {
			if re, err := regexp.Compile(known[i].Match); err == nil && re.MatchString(m) {
				return &known[i]
			}
		}
	}
	return nil
}

var (
	known     []finding
	knownOnce sync.Once
)

func runJob(p *Property, job Job, work string, idx int) outcome {
	var o outcome
	t0 := time.Now()
	for attempt := 1; attempt <= 3; attempt++ {
		select {
		case <-convicted:
			if o.verdict == "" {
				o = outcome{job: job, verdict: "cut-short"}
			}
			return o
		default:
		}
		if !deadline.IsZero() && time.Until(deadline) < 30*time.Second {
			if o.verdict == "" {
				o = outcome{job: job, verdict: "inconclusive", messages: []string{"no time left for this job"}}
			}
			return o
		}
		o = runOnce(p, job, work, idx, attempt)
		o.attempts = attempt
		if o.verdict != "inconclusive" {
			break
		}
	}
	o.wall = time.Since(t0).Seconds()
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("  job %-28s %-12s %.1fs ev=%d distinct=%d %v\n", job.Name, o.verdict, o.wall, o.rep.Evaluations, len(o.rep.Distinct), firstLines(o.messages, 3))
	}
	return o
}

func firstLines(m []string, n int) []string {
	var out []string
	for i, s := range m {
		if i == n {
			break
		}
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		out = append(out, s)
	}
	return out
}

func runOnce(p *Property, job Job, work string, idx, attempt int) (o outcome) {
	o.job = job
	dir := filepath.Join(work, fmt.Sprintf("j%d-%d", idx, attempt))
	_ = os.MkdirAll(dir, 0o777)
	_ = os.Chmod(dir, 0o777)
	jobPath := filepath.Join(dir, "job.json")
	repPath := filepath.Join(dir, "report.json")
	b, _ := json.Marshal(&job)
	_ = os.WriteFile(jobPath, b, 0o644)

	bin := os.Getenv("GEVVERIF_BIN")
	if job.Race {
		bin = os.Getenv("GEVVERIF_RACE_BIN")
	}
	if bin == "" {
		bin, _ = os.Executable()
	}
	cmd := exec.Command(bin, "worker", jobPath, repPath)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 atexit_sleep_ms=0 exitcode=0 history_size=3 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all", "GEV_LOG_LEVEL=")
	errPath := filepath.Join(dir, "stderr")
	ef, _ := os.Create(errPath)
	cmd.Stderr = ef
	cmd.Stdout = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		o.verdict = "inconclusive"
		o.messages = []string{"cannot start worker: " + err.Error()}
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	timedOut, cut := false, false
	limit := time.Duration(job.LimitS) * time.Second
	if !deadline.IsZero() {
		limit = min(limit, time.Until(deadline))
	}
	timer := time.NewTimer(limit)
	defer timer.Stop()
	stop := convicted
wait:
	select {
	case werr = <-done:
	case <-stop:
		stop, cut = nil, true
		timer.Reset(convictedGrace)
		goto wait
	case <-timer.C:
		timedOut = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case werr = <-done:
		case <-time.After(5 * time.Second):
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
		}
	}
	_ = ef.Close()
	if rb, err := os.ReadFile(repPath); err == nil {
		_ = json.Unmarshal(rb, &o.rep)
	}
	se, _ := os.ReadFile(errPath)
	stderr := string(se)

	var viol []string
	viol = append(viol, o.rep.Violations...)
	o.known = o.rep.Known
	add := func(m string) {
		if knownFor(job.Prop, m) != nil {
			o.known = append(o.known, m)
		} else {
			viol = append(viol, m)
		}
	}
	if !timedOut && (werr != nil || !o.rep.Done) {
		if crash := classifyCrash(stderr); crash != "" {
			add("process crashed inside the library: " + crash)
		}
	}
	if job.Race {
		races := raceReports(dir)
		o.rep.Events = addEvent(o.rep.Events, "race_reports_total", int64(len(races.all)))
		if p.Races {
			for _, r := range races.gev {
				add("data race inside the library: " + r)
			}
		}
		if len(races.harness) > 0 && os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Println("  note: race report without library frames:\n", races.harness[0])
		}
	}
	switch {
	case len(viol) > 0:
		o.verdict = "violated"
		o.messages = viol
	case timedOut && cut:
		o.verdict = "cut-short"
	case timedOut:
		o.verdict = "inconclusive"
		o.messages = []string{"worker exceeded its time limit", tail(stderr, 6000)}
	case werr != nil || !o.rep.Done:
		o.verdict = "inconclusive"
		o.messages = []string{fmt.Sprintf("worker failed: %v", werr), head(stderr, 6000)}
	case len(o.rep.Inconclusive) > 0:
		o.verdict = "inconclusive"
		o.messages = o.rep.Inconclusive
	default:
		o.verdict = "held"
	}
	return
}

func addEvent(m map[string]int64, k string, n int64) map[string]int64 {
	if m == nil {
		m = map[string]int64{}
	}
	m[k] += n
	return m
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var libFrame = regexp.MustCompile(`github\.com/(Allenxuxu|RussellLuo|gobwas)/`)

// classifyCrash returns a description when the process died of a Go panic or
// fatal error whose innermost non-runtime frame belongs to the library (or a
// package it drives), and "" when the harness itself is to blame.
func classifyCrash(stderr string) string {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "SIGSEGV", "unexpected fault address"} {
		if k := strings.Index(stderr, m); k >= 0 && (i < 0 || k < i) {
			i = k
		}
	}
	if i < 0 || strings.Contains(head(stderr[i:], 200), "HARNESS") {
		return ""
	}
	text := stderr[i:]
	title := strings.SplitN(text, "\n", 2)[0]
	// innermost frames of the first goroutine printed
	k := strings.Index(text, "\ngoroutine ")
	if k < 0 {
		return ""
	}
	lines := strings.Split(text[k+1:], "\n")
	for _, l := range lines[1:] {
		if l == "" {
			break
		}
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "runtime/") || strings.HasPrefix(l, "created by") || strings.HasPrefix(l, "[signal") {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			return ""
		}
		if libFrame.MatchString(l) {
			return title + "\n" + head(strings.Join(lines, "\n"), 2500)
		}
		// standard library frame: look further out
	}
	return ""
}

type raceSet struct{ all, gev, harness []string }

var lineNo = regexp.MustCompile(`:\d+( \+0x[0-9a-f]+)?`)

// raceReports reads the race detector's log files, deduplicated by stacks.
func raceReports(dir string) (rs raceSet) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			key := lineNo.ReplaceAllString(blk, "")
			key = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+`).ReplaceAllString(key, "")
			if seen[key] {
				continue
			}
			seen[key] = true
			rs.all = append(rs.all, blk)
			if raceInLibrary(blk) {
				rs.gev = append(rs.gev, strings.TrimSpace(head(blk, 3500)))
			} else {
				rs.harness = append(rs.harness, blk)
			}
		}
	}
	return
}

// raceInLibrary: both accesses are made by library code, that is, the
// innermost frame that is not runtime or standard library is a gev frame. An
// access made by harness code (for example to its own variables, or to a
// buffer it owns) is not the library's.
func raceInLibrary(blk string) bool {
	stacks := regexp.MustCompile(`(?m)^(Read at|Write at|Previous read at|Previous write at|Atomic.*at|Previous atomic.*at) .*$`).FindAllStringIndex(blk, -1)
	n, lib := 0, 0
	for i, s := range stacks {
		end := len(blk)
		if i+1 < len(stacks) {
			end = stacks[i+1][0]
		}
		body := blk[s[1]:end]
		if k := strings.Index(body, "\nGoroutine "); k >= 0 {
			body = body[:k]
		}
		n++
		for _, l := range strings.Split(body, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "main.") {
				break
			}
			if libFrame.MatchString(l) {
				lib++
				break
			}
		}
	}
	return n > 0 && lib == n
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Match    string `json:"match"`  // regexp over the violation message (open only)
	What     string `json:"what"`
}

func knownFindings() (fs []finding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		var f finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Status == "open" {
			fs = append(fs, f)
		}
	}
	return
}

func conclude(id string, p *Property, tier string, seed int64, outs []outcome, start time.Time) int {
	var evaluations int64
	distinct := map[string]bool{}
	events := map[string]int64{}
	var samples []any
	var violMsgs []string
	var violOut *outcome
	inconclusive := 0
	var incMsg []string
	knownHit := map[string]bool{}
	perScenario := map[string]int64{}
	for i := range outs {
		o := &outs[i]
		evaluations += o.rep.Evaluations
		perScenario[o.job.Name] += o.rep.Evaluations
		for k := range o.rep.Distinct {
			distinct[o.job.Scenario+"|"+k] = true
		}
		for k, v := range o.rep.Events {
			events[k] += v
		}
		for _, s := range o.rep.Samples {
			if len(samples) < 12 {
				samples = append(samples, o.job.Name+": "+s)
			}
		}
		for _, m := range o.known {
			if f := knownFor(id, m); f != nil && !knownHit[f.What] {
				knownHit[f.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
			}
		}
		switch o.verdict {
		case "violated":
			violMsgs = append(violMsgs, o.messages...)
			if violOut == nil {
				violOut = o
			}
		case "inconclusive":
			inconclusive++
			incMsg = append(incMsg, o.job.Name+": "+strings.Join(firstLines(o.messages, 3), " | "))
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evaluations, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": samples, "events": events, "workers": len(outs), "evaluations_by_job": perScenario,
			"inconclusive_workers": inconclusive, "known_findings_seen": len(knownHit),
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violMsgs),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	edir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(edir, 0o755)
	if err := os.WriteFile(filepath.Join(edir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: %d workers, %d cases evaluated, %d distinct non-trivial, %.1fs\n", id, tier, len(outs), evaluations, len(distinct), time.Since(start).Seconds())
	if violOut != nil {
		rdir := filepath.Join(verifDir(), "replays")
		_ = os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", id, violOut.job.Name))
		rb, _ := json.MarshalIndent(map[string]any{"job": violOut.job, "violations": violOut.messages}, "", " ")
		_ = os.WriteFile(rp, rb, 0o644)
		sort.SliceStable(violMsgs, func(i, j int) bool { return false })
		for _, m := range firstLines(violMsgs, 5) {
			fmt.Println("  " + strings.ReplaceAll(m, "\n", "\n    "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if inconclusive > 0 {
		for _, m := range firstLines(incMsg, 5) {
			fmt.Println("  inconclusive:", m)
		}
		return 2
	}
	if evaluations == 0 || len(distinct) < 2 {
		fmt.Println("  the monitors observed nothing")
		return 2
	}
	return 0
}

// replay runs the job recorded in a replay file again.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Job Job `json:"job"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	p := properties[r.Job.Prop]
	if p == nil {
		fmt.Println("unknown property", r.Job.Prop)
		return 2
	}
	work, _ := os.MkdirTemp("", "gevverif-replay-")
	defer os.RemoveAll(work)
	o := runOnce(p, r.Job, work, 0, 1)
	fmt.Println(o.verdict)
	for _, m := range firstLines(o.messages, 10) {
		fmt.Println("  " + m)
	}
	switch o.verdict {
	case "violated":
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Job.Prop, path)
		return 1
	case "held":
		return 0
	}
	return 2
}
