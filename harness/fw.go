package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------------------
// Exploration framework.
//
// A check is a function that enumerates cases, always in the same order. The
// master process starts worker processes; worker k of n executes the cases
// whose index is k modulo n. Everything a worker reports is a count measured
// during its own run.

// Check decides one property.
type Check struct {
	ID     string
	Run    func(c *Ctx)
	Rule   string   // how the space is made
	Assume []string // assumptions
	Level  string
	Single bool // needs a single worker
	Shards int  // number of workers (0: number of CPUs)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Failure of a case.
type Failure struct {
	Index  int64  `json:"index"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Key    string `json:"key,omitempty"` // identifies known findings
}

// Ctx is the state of one worker.
type Ctx struct {
	ID, Tier string
	Thorough bool
	shard, n int64
	only     int64
	idx      int64 // index of the next case

	States, Transitions, Traces, Cases int64
	Extra                              map[string]int64
	Max                                map[string]int64
	Outcomes                           map[uint64]struct{}
	Samples                            []string
	Failures                           []Failure
	KnownHits                          map[string]Failure
	known                              map[string]bool
	deadline                           time.Time
	Capped                             bool
	Notes                              []string

	statusFD int
	cur      atomic.Int64 // current case
	started  atomic.Int64 // start time of the current case (unix nano)
	curDesc  atomic.Value
}

// T is passed to a case.
type T struct {
	c      *Ctx
	failed bool
	idx    int64
	Order  int // map iteration order used for this case
}

type failPanic struct {
	msg, key string
}

type stopPanic struct{}

// Failf reports a violation and ends the case.
func (t *T) Failf(format string, args ...any) { panic(failPanic{fmt.Sprintf(format, args...), ""}) }

// FailKey reports a violation that may be listed as known finding under key.
// The case goes on if it is.
func (t *T) FailKey(key, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if t.c.known[key] {
		if _, ok := t.c.KnownHits[key]; !ok {
			t.c.KnownHits[key] = Failure{Index: t.idx, Detail: msg, Key: key}
		}
		return
	}
	panic(failPanic{msg, key})
}

// Outcome records an observed outcome, to show that the exploration is not vacuous.
func (t *T) Outcome(h uint64) {
	if len(t.c.Outcomes) < 200000 {
		t.c.Outcomes[h] = struct{}{}
	}
}

func (c *Ctx) Count(name string, n int64) { c.Extra[name] += n }
func (c *Ctx) MaxOf(name string, n int64) {
	if n > c.Max[name] {
		c.Max[name] = n
	}
}

func (c *Ctx) mine() bool {
	i := c.idx
	c.idx++
	if c.only >= 0 {
		if i > c.only {
			panic(stopPanic{})
		}
		return i == c.only
	}
	return i%c.n == c.shard
}

// Case runs one case, if it belongs to this worker. desc is only called for reports.
func (c *Ctx) Case(desc func() string, f func(t *T)) {
	if !c.mine() {
		return
	}
	i := c.idx - 1
	if i&15 == 0 && time.Now().After(c.deadline) {
		c.Capped = true
		panic(stopPanic{})
	}
	c.Cases++
	if c.statusFD >= 0 {
		var b [20]byte
		s := strconv.AppendInt(b[:0], i, 10)
		s = append(s, '\n')
		_, _ = syscall.Pwrite(c.statusFD, s, 0)
	}
	c.cur.Store(i)
	c.started.Store(time.Now().UnixNano())
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintln(os.Stderr, i, trunc(desc(), 300))
	}
	if len(c.Samples) < 2 {
		c.Samples = append(c.Samples, trunc(desc(), 900))
	}
	t := &T{c: c, idx: i}
	begin := time.Now()
	fail := c.protect(t, f)
	c.started.Store(0)
	if tf := os.Getenv("VERIF_TIMES"); tf != "" && time.Since(begin) > 20*time.Millisecond {
		if w, err := os.OpenFile(tf, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
			fmt.Fprintf(w, "%.3f %d %s\n", time.Since(begin).Seconds(), i, trunc(desc(), 200))
			w.Close()
		}
	}
	if fail != nil {
		fail.Index = i
		fail.Case = desc()
		c.Failures = append(c.Failures, *fail)
		panic(stopPanic{})
	}
}

func (c *Ctx) protect(t *T, f func(t *T)) (fail *Failure) {
	defer func() {
		setOrder(0)
		r := recover()
		if r == nil {
			return
		}
		switch v := r.(type) {
		case failPanic:
			fail = &Failure{Detail: v.msg, Key: v.key}
		case stopPanic:
			panic(r)
		default:
			fail = &Failure{Detail: fmt.Sprintf("panic: %v\n%s", r, shortStack())}
		}
	}()
	t.Order = int((t.idx >> 3) & 1)
	setOrder(t.Order)
	f(t)
	return nil
}

func shortStack() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return strings.ToValidUTF8(s, "?")
}

// caught runs f and returns the text of a panic, if any.
func caught(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failPanic); ok {
				panic(r)
			}
			if _, ok := r.(stopPanic); ok {
				panic(r)
			}
			msg = fmt.Sprintf("%v\n%s", r, shortStack())
			panicked = true
		}
	}()
	f()
	return
}

type workerResult struct {
	States, Transitions, Traces, Cases, Enumerated int64
	Extra, Max                                     map[string]int64
	Outcomes                                       int
	Samples                                        []string
	Failures                                       []Failure
	KnownHits                                      map[string]Failure
	Capped                                         bool
	Notes                                          []string
}

func knownFindings(id string) (map[string]bool, map[string]string) {
	keys, texts := map[string]bool{}, map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return keys, texts
	}
	var kf struct {
		Known []struct{ Property, Key, What string }
	}
	if json.Unmarshal(b, &kf) == nil {
		for _, k := range kf.Known {
			if k.Property == id {
				keys[k.Key] = true
				texts[k.Key] = k.What
			}
		}
	}
	return keys, texts
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func hangLimit() time.Duration {
	return 150 * time.Second
}

func worker(id, tier string, shard, n, only int64, budget time.Duration, status string) {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(3)
	}
	keys, _ := knownFindings(id)
	c := &Ctx{ID: id, Tier: tier, Thorough: tier == "thorough", shard: shard, n: n, only: only,
		Extra: map[string]int64{}, Max: map[string]int64{}, Outcomes: map[uint64]struct{}{}, KnownHits: map[string]Failure{},
		known: keys, deadline: time.Now().Add(budget), statusFD: -1}
	if status != "" {
		if fd, err := syscall.Open(status, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, 0644); err == nil {
			c.statusFD = fd
		}
	}
	out := bufio.NewWriter(os.Stdout)
	var once sync.Once
	finish := func() {
		once.Do(func() {
			r := workerResult{c.States, c.Transitions, c.Traces, c.Cases, c.idx, c.Extra, c.Max, len(c.Outcomes), c.Samples, c.Failures, c.KnownHits, c.Capped, c.Notes}
			b, _ := json.Marshal(r)
			out.WriteString("RESULT ")
			out.Write(b)
			out.WriteString("\n")
			out.Flush()
		})
	}
	parent := os.Getppid()
	go func() { // watchdog
		for {
			time.Sleep(2 * time.Second)
			if os.Getppid() != parent {
				os.Exit(6) // the master is gone
			}
			s := c.started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hangLimit() {
				fmt.Printf("HANG %d\n", c.cur.Load())
				os.Exit(4)
			}
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopPanic); ok {
					return
				}
				st := shortStack()
				if st != "" { // the implementation, while a case was prepared
					c.Failures = append(c.Failures, Failure{Index: c.idx, Case: "preparation of the case", Detail: fmt.Sprintf("panic: %v\n%s", r, st)})
					return
				}
				fmt.Printf("HARNESS %v\n", r)
				debug.PrintStack()
				os.Exit(5)
			}
		}()
		ck.Run(c)
	}()
	finish()
	os.Exit(0)
}

type workerOut struct {
	res  *workerResult
	err  string
	hang int64
	at   int64
}

func runWorker(self, id, tier string, shard, n, only int64, budget time.Duration, kill <-chan struct{}) workerOut {
	status := ""
	dir, err := os.MkdirTemp("", "verif-w")
	if err == nil {
		status = filepath.Join(dir, "status")
		defer os.RemoveAll(dir)
	}
	cmd := exec.Command(self, "worker", id, tier, fmt.Sprint(shard), fmt.Sprint(n), fmt.Sprint(only), fmt.Sprint(int64(budget)), status)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=300", "VERIF_TMP="+dir, "TMPDIR="+dir)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &limitedWriter{w: &se, n: 64 << 10}
	if err := cmd.Start(); err != nil {
		return workerOut{err: err.Error(), hang: -1, at: -1}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	limit := time.After(budget + hangLimit() + 120*time.Second)
	select {
	case werr = <-done:
	case <-kill:
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return workerOut{hang: -1, at: -1}
	case <-limit:
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		werr = fmt.Errorf("worker timeout")
	}
	_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // anything left behind
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var r workerResult
			if err := json.Unmarshal([]byte(l[7:]), &r); err == nil {
				return workerOut{res: &r, hang: -1, at: -1}
			}
		}
		if strings.HasPrefix(l, "HANG ") {
			h, _ := strconv.ParseInt(strings.TrimSpace(l[5:]), 10, 64)
			return workerOut{hang: h, at: h, err: "no progress"}
		}
	}
	if strings.Contains(so.String(), "HARNESS ") {
		return workerOut{err: "error in the harness: " + trunc(so.String()+se.String(), 3000), hang: -1, at: -1}
	}
	at := int64(-1)
	if b, err := os.ReadFile(status); err == nil {
		if v, err := strconv.ParseInt(strings.TrimSpace(strings.Split(string(b), "\n")[0]), 10, 64); err == nil {
			at = v
		}
	}
	return workerOut{err: fmt.Sprintf("worker died: %v\n%s", werr, trunc(se.String(), 3000)), hang: -1, at: at}
}

type limitedWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func master(id, tier string) int {
	rc := masterRun(id, tier, true)
	if rc == again {
		// something failed once and not again: everything once more, and to the end
		rc = masterRun(id, tier, false)
	}
	return rc
}

const again = -1

func masterRun(id, tier string, first bool) int {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Println("unknown check", id)
		return 3
	}
	self, _ := os.Executable()
	n := int64(runtime.NumCPU())
	if n > 8 {
		n = 8
	}
	if ck.Shards > 0 {
		n = int64(ck.Shards)
	}
	if ck.Single {
		n = 1
	}
	budget := 300 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	if b := os.Getenv("VERIF_BUDGET"); b != "" {
		if d, err := time.ParseDuration(b); err == nil {
			budget = d
		}
	}
	kill := make(chan struct{})
	outs := make([]workerOut, n)
	var wg sync.WaitGroup
	var killOnce sync.Once
	for k := int64(0); k < n; k++ {
		wg.Add(1)
		go func(k int64) {
			defer wg.Done()
			o := runWorker(self, id, tier, k, n, -1, budget, kill)
			outs[k] = o
			if first && (o.err != "" || (o.res != nil && len(o.res.Failures) > 0)) {
				time.AfterFunc(8*time.Second, func() { killOnce.Do(func() { close(kill) }) })
			}
		}(k)
	}
	wg.Wait()

	tot := workerResult{Extra: map[string]int64{}, Max: map[string]int64{}, KnownHits: map[string]Failure{}}
	var fails []Failure
	broken := ""
	for _, o := range outs {
		if o.res == nil {
			if o.err != "" {
				if o.at >= 0 {
					what := "implementation crashed the process: "
					if o.hang >= 0 {
						what = fmt.Sprintf("no answer within %s: ", hangLimit())
					}
					fails = append(fails, Failure{Index: o.at, Case: "(see replay)", Detail: what + o.err})
				} else {
					broken = o.err
				}
			}
			continue
		}
		r := o.res
		tot.States += r.States
		tot.Transitions += r.Transitions
		tot.Traces += r.Traces
		tot.Cases += r.Cases
		if r.Enumerated > tot.Enumerated {
			tot.Enumerated = r.Enumerated
		}
		for k, v := range r.Extra {
			tot.Extra[k] += v
		}
		for k, v := range r.Max {
			if v > tot.Max[k] {
				tot.Max[k] = v
			}
		}
		if r.Outcomes > tot.Outcomes {
			tot.Outcomes = r.Outcomes
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		tot.Capped = tot.Capped || r.Capped
		for _, nt := range r.Notes {
			dup := false
			for _, x := range tot.Notes {
				dup = dup || x == nt
			}
			if !dup {
				tot.Notes = append(tot.Notes, nt)
			}
		}
		for k, v := range r.KnownHits {
			tot.KnownHits[k] = v
		}
		fails = append(fails, r.Failures...)
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Index < fails[j].Index })

	var confirmed *Failure
	flaky := 0
	for fi := range fails {
		f := fails[fi]
		repeated, tries := 0, 5
		if strings.HasPrefix(f.Detail, "no answer") {
			tries = 1
		}
		for i := 0; i < tries; i++ {
			o := runWorker(self, id, tier, 0, n, f.Index, budget, nil)
			if o.err != "" || (o.res != nil && len(o.res.Failures) > 0) {
				repeated++
				if o.res != nil && len(o.res.Failures) > 0 && f.Case == "(see replay)" {
					f.Case = o.res.Failures[0].Case
				}
			}
		}
		f.Detail += fmt.Sprintf("\n(reproduced %d of %d times)", repeated, tries)
		if repeated > 0 {
			confirmed = &f
			break
		}
		flaky++
		if !first && confirmed == nil && !strings.HasPrefix(f.Detail, "no answer") && f.Case != "(see replay)" {
			confirmed = &f // seen twice, though not when repeated alone
		}
	}
	if first && confirmed == nil && broken == "" && flaky > 0 {
		fmt.Printf("%s %s: %d failures that do not occur again when the case is repeated; starting again\n", id, tier, flaky)
		for _, f := range fails {
			fmt.Printf("case %d: %s\n%s\n", f.Index, trunc(f.Case, 500), trunc(f.Detail, 1500))
		}
		return again
	}
	if confirmed == nil && broken == "" {
		for _, o := range outs {
			if o.res == nil {
				broken = "a part of the exploration gave no answer: " + o.err
			}
		}
	}

	wall := time.Since(start).Seconds()
	cov := map[string]any{
		"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Traces,
		"cases": tot.Cases, "distinct_outcomes_per_worker": tot.Outcomes,
		"samples": tot.Samples, "exhaustive": !tot.Capped && confirmed == nil && broken == "",
		"rule": ck.Rule, "workers": n,
	}
	for k, v := range tot.Extra {
		cov[k] = v
	}
	for k, v := range tot.Max {
		cov["max_"+k] = v
	}
	if len(tot.Notes) > 0 {
		cov["notes"] = tot.Notes
	}
	cov["map_order_instrumented"] = instrumented()
	if flaky > 0 {
		cov["unreproduced_failures"] = flaky
	}
	viol := 0
	if confirmed != nil {
		viol = 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	level := ck.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": ck.Assume, "wall_s": wall, "violations": viol}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evdir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evdir, 0755)
	_ = os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0644)

	_, texts := knownFindings(id)
	ks := []string{}
	for k := range tot.KnownHits {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, texts[k])
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d outcomes=%d exhaustive=%v wall=%.1fs\n", id, tier, tot.Cases, tot.States, tot.Transitions, tot.Traces, tot.Outcomes, cov["exhaustive"], wall)
	if confirmed != nil {
		rp := filepath.Join(evdir, id+".replay.json")
		rb, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "index": confirmed.Index, "case": confirmed.Case, "detail": confirmed.Detail,
			"replay": fmt.Sprintf("bash /verif/run.sh %s %s --case %d", id, tier, confirmed.Index)}, "", " ")
		_ = os.WriteFile(rp, append(rb, '\n'), 0644)
		fmt.Printf("case: %s\n%s\n", trunc(confirmed.Case, 3000), trunc(confirmed.Detail, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if broken != "" {
		fmt.Println("ERROR:", broken)
		return 2
	}
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness check ID TIER | worker ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		tier := os.Args[3]
		if len(os.Args) > 5 && os.Args[4] == "--case" {
			i, _ := strconv.ParseInt(os.Args[5], 10, 64)
			self, _ := os.Executable()
			o := runWorker(self, os.Args[2], tier, 0, 8, i, time.Hour, nil)
			if o.res != nil {
				for _, f := range o.res.Failures {
					fmt.Printf("case %d: %s\n%s\n", f.Index, f.Case, f.Detail)
					fmt.Printf("VIOLATION property=%s replay=%d\n", os.Args[2], i)
				}
				fmt.Printf("cases=%d\n", o.res.Cases)
				for _, s := range o.res.Samples {
					fmt.Println(s)
				}
				os.Exit(len(o.res.Failures))
			}
			fmt.Println(o.err)
			os.Exit(1)
		}
		os.Exit(master(os.Args[2], tier))
	case "worker":
		p := func(i int) int64 { v, _ := strconv.ParseInt(os.Args[i], 10, 64); return v }
		worker(os.Args[2], os.Args[3], p(4), p(5), p(6), time.Duration(p(7)), os.Args[8])
	default:
		if f, ok := subcommands[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		os.Exit(3)
	}
}

var subcommands = map[string]func(args []string){}
