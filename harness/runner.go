// Command harness decides the properties listed in ../properties.jsonl by
// generated-input search. See ../DESIGN.md.
//
//	harness check  <id> <tier>          run a check (spawns workers), exit 0/1/2
//	harness worker <id> <tier> <shard>  one shard of a check (internal)
//	harness replay <file>               re-run one saved case, bypassing rapid
//	harness list                        list the properties
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs collects what a case exercised.
type Obs struct {
	nontrivial bool
	labels     []string
	key        string
}

// NonTrivial marks the case as non-trivial.
func (o *Obs) NonTrivial() { o.nontrivial = true }

// Label classifies the case.
func (o *Obs) Label(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	o.labels = append(o.labels, format)
}

// errDiscard says that a case is outside the domain of the property.
var errDiscard = errors.New("discard")

// prop is one executable check of a property. Several may belong to one property.
type prop struct {
	id       string // property
	part     string // part of the property that this check decides
	rule     string // what a case is, and what makes it non-trivial
	quick    int    // cases per tier
	thorough int
	shards   int // at most this many processes (0: all)
	gen      func(t *rapid.T) any
	check    func(c any, o *Obs) error
	decode   func(data []byte) (any, error)
	hangCPU  time.Duration // CPU time after which a case is considered to hang
	setup    func() error
	needRace bool
}

func (p *prop) name() string {
	if p.part == "" {
		return p.id
	}
	return p.id + "." + p.part
}

var props []*prop

type opts struct {
	part            string
	quick, thorough int
	shards          int
	hangCPU         time.Duration
	setup           func() error
	needRace        bool
}

func register[C any](id, rule string, o opts, gen func(t *rapid.T) C, check func(c C, o *Obs) error) {
	props = append(props, &prop{
		id: id, part: o.part, rule: rule, quick: o.quick, thorough: o.thorough, shards: o.shards,
		hangCPU: o.hangCPU, setup: o.setup, needRace: o.needRace,
		gen:   func(t *rapid.T) any { return gen(t) },
		check: func(c any, o *Obs) error { return check(c.(C), o) },
		decode: func(data []byte) (any, error) {
			var c C
			err := json.Unmarshal(data, &c)
			return c, err
		},
	})
}

// guarded runs the check and turns panics into failures.
func (p *prop) guarded(c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, firstFrames(debug.Stack()))
		}
	}()
	return p.check(c, o)
}

// firstFrames keeps the function names of a stack trace, which do not depend on
// addresses.
func firstFrames(stack []byte) string {
	var out []string
	for _, line := range strings.Split(string(stack), "\n") {
		if i := strings.Index(line, "("); i > 0 && !strings.HasPrefix(line, "\t") &&
			(strings.HasPrefix(line, "github.com/arr-ai") || strings.HasPrefix(line, "regexp")) {
			out = append(out, "  "+line[:strings.LastIndex(line, "(")])
		}
		if len(out) == 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type savedCase struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error,omitempty"`
}

type shardStats struct {
	Check       string         `json:"check"`
	Evaluations int            `json:"evaluations"`
	Discarded   int            `json:"discarded"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Hashes      []uint64       `json:"-"`
}

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 2
	exitHang      = 4
	exitDiscard   = 5
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// scratchDir is a per-run directory that the supervisor removes.
func scratchDir() string { return os.Getenv("VERIF_SCRATCH") }

func findProps(id string) []*prop {
	var out []*prop
	for _, p := range props {
		if p.id == id || p.name() == id {
			out = append(out, p)
		}
	}
	return out
}

// --- worker ------------------------------------------------------------------

type fakeTB struct {
	name   string
	failed bool
	log    strings.Builder
}

type tbStop struct{}

func (t *fakeTB) Helper()                           {}
func (t *fakeTB) Name() string                      { return t.name }
func (t *fakeTB) Logf(format string, args ...any)   { fmt.Fprintf(&t.log, format+"\n", args...) }
func (t *fakeTB) Log(args ...any)                   { fmt.Fprintln(&t.log, args...) }
func (t *fakeTB) Skipf(format string, args ...any)  { panic(tbStop{}) }
func (t *fakeTB) Skip(args ...any)                  { panic(tbStop{}) }
func (t *fakeTB) SkipNow()                          { panic(tbStop{}) }
func (t *fakeTB) Errorf(format string, args ...any) { t.Logf(format, args...); t.failed = true }
func (t *fakeTB) Error(args ...any)                 { t.Log(args...); t.failed = true }
func (t *fakeTB) Fatalf(format string, args ...any) { t.Errorf(format, args...); panic(tbStop{}) }
func (t *fakeTB) Fatal(args ...any)                 { t.Error(args...); panic(tbStop{}) }
func (t *fakeTB) FailNow()                          { t.failed = true; panic(tbStop{}) }
func (t *fakeTB) Fail()                             { t.failed = true }
func (t *fakeTB) Failed() bool                      { return t.failed }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func runWorker(p *prop, tier string, shard, shards int, seed uint64, outDir string) int {
	debug.SetMaxStack(256 << 20)
	if p.setup != nil {
		if err := p.setup(); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return exitError
		}
	}
	checks := p.quick
	if tier == "thorough" {
		checks = p.thorough
	}
	checks = (checks + shards - 1) / shards
	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", envOr("VERIF_SHRINK", "20s"))

	base := filepath.Join(outDir, fmt.Sprintf("%s-%d", p.name(), shard))
	cur, err := os.Create(base + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var caseNo, caseStart int64 // caseStart is in CPU nanoseconds; 0 means that no case is running
	hang := p.hangCPU
	if hang == 0 {
		hang = 20 * time.Second
	}
	go func() {
		for {
			time.Sleep(time.Second)
			n, start := atomic.LoadInt64(&caseNo), atomic.LoadInt64(&caseStart)
			if start != 0 && cpuTime()-time.Duration(start) > hang && atomic.LoadInt64(&caseNo) == n {
				os.Exit(exitHang)
			}
		}
	}()

	st := shardStats{Check: p.name(), Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var lastFail *savedCase
	failing := false
	tb := &fakeTB{name: p.name()}
	body := func(t *rapid.T) {
		c := p.gen(t)
		data, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		_ = cur.Truncate(0)
		_, _ = cur.WriteAt(data, 0)
		atomic.AddInt64(&caseNo, 1)
		atomic.StoreInt64(&caseStart, int64(cpuTime())+1)
		o := &Obs{}
		err = p.guarded(c, o)
		atomic.StoreInt64(&caseStart, 0)
		if err == errDiscard {
			st.Discarded++
			t.Skip("discarded")
		}
		if err != nil {
			failing = true
			lastFail = &savedCase{Property: p.id, Check: p.name(), Case: data, Error: err.Error()}
			t.Fatalf("%s", strings.SplitN(err.Error(), "\n", 2)[0])
		}
		if failing {
			return // shrinking
		}
		st.Evaluations++
		for _, l := range o.labels {
			st.Labels[l]++
		}
		if o.nontrivial {
			st.Nontrivial++
			h := fnv.New64a()
			if o.key != "" {
				h.Write([]byte(o.key))
			} else {
				h.Write(data)
			}
			if s := h.Sum64(); !seen[s] {
				seen[s] = true
				st.Hashes = append(st.Hashes, s)
				if n := len(st.Hashes); len(st.Samples) < 3 && (n == 1 || n == 17 || n == 101) {
					st.Samples = append(st.Samples, c)
				}
			}
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, body)
	}()
	if lastFail != nil {
		data, _ := json.MarshalIndent(lastFail, "", " ")
		if err := os.WriteFile(base+".fail", data, 0o644); err != nil {
			return exitError
		}
		return exitViolation
	}
	if tb.failed {
		fmt.Fprintf(os.Stderr, "%s: rapid: %s\n", p.name(), tb.log.String())
		return exitError
	}
	data, _ := json.Marshal(st)
	hs := make([]byte, 8*len(st.Hashes))
	for i, h := range st.Hashes {
		binary.LittleEndian.PutUint64(hs[8*i:], h)
	}
	if os.WriteFile(base+".stats", data, 0o644) != nil || os.WriteFile(base+".hashes", hs, 0o644) != nil {
		return exitError
	}
	return exitOK
}

func envOr(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// --- replay ------------------------------------------------------------------

func runReplay(file string) int {
	debug.SetMaxStack(256 << 20)
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	var sc savedCase
	if err := json.Unmarshal(data, &sc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	for _, p := range props {
		if p.name() != sc.Check {
			continue
		}
		if p.setup != nil {
			if err := p.setup(); err != nil {
				fmt.Fprintln(os.Stderr, "setup:", err)
				return exitError
			}
		}
		c, err := p.decode(sc.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return exitError
		}
		o := &Obs{}
		switch err := p.guarded(c, o); err {
		case nil:
			fmt.Printf("held: %s nontrivial=%v labels=%v\n", p.name(), o.nontrivial, o.labels)
			return exitOK
		case errDiscard:
			fmt.Println("discarded: outside the property's domain")
			return exitDiscard
		default:
			fmt.Printf("failed: %s: %v\n", p.name(), err)
			return exitViolation
		}
	}
	fmt.Fprintln(os.Stderr, "unknown check", sc.Check)
	return exitError
}

// --- supervisor --------------------------------------------------------------

type shardResult struct {
	p     *prop
	shard int
	code  int
	out   string
}

// limited returns a command that runs this program with resource limits.
func limited(cpuSeconds int, args ...string) *exec.Cmd {
	script := fmt.Sprintf("ulimit -c 0; ulimit -t %d; exec \"$@\"", cpuSeconds)
	if os.Getenv("VERIF_RACE") == "" {
		script = "ulimit -v 16000000; " + script
	}
	exe := os.Args[0]
	if e, err := os.Executable(); err == nil {
		exe = e
	}
	cmd := exec.Command("bash", append([]string{"-c", script, "sh", exe}, args...)...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS="+envOr("VERIF_PROCS", "2"))
	return cmd
}

func runLimited(wall time.Duration, cpuSeconds int, args ...string) (code int, output string, timedOut bool) {
	cmd := limited(cpuSeconds, args...)
	var out strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return exitError, err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(wall):
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return exitError, out.String(), true
	}
	if err == nil {
		return 0, out.String(), false
	}
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			return 128 + int(ws.Signal()), out.String(), false
		}
		return ws.ExitStatus(), out.String(), false
	}
	return exitError, out.String(), false
}

// confirm re-runs a case in isolation and says whether it fails, and how.
func confirm(file string) (failed bool, how string) {
	code, out, timedOut := runLimited(300*time.Second, 60, "replay", file)
	switch {
	case timedOut:
		return false, "inconclusive: the replay exceeded its wall-clock limit"
	case code == exitOK || code == exitDiscard:
		return false, "the case held when replayed: " + lastLines(out, 2)
	case code == exitViolation:
		return true, out
	case code == 128+int(syscall.SIGXCPU) || code == 128+int(syscall.SIGKILL) || code == 128+9:
		return true, "the case did not end within 60 s of CPU time"
	case strings.Contains(out, "stack exceeds") || strings.Contains(out, "stack overflow"):
		return true, "the case overflowed the stack"
	case strings.Contains(out, "fatal error:"):
		i := strings.Index(out, "fatal error:")
		return true, strings.SplitN(out[i:], "\n", 2)[0]
	case strings.Contains(out, "panic:"):
		i := strings.Index(out, "panic:")
		return true, strings.SplitN(out[i:], "\n", 2)[0]
	}
	return false, fmt.Sprintf("inconclusive: the replay exited with %d: %s", code, lastLines(out, 5))
}

func clip(s string, n int) string {
	if len(s) > n {
		s = s[:n] + "..."
	}
	return s
}

func lastLines(s string, n int) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) > n {
		lines = lines[len(lines)-n:]
	}
	return strings.Join(lines, "\n")
}

func baseSeed() uint64 {
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 32)
	if err != nil {
		seed = 1
	}
	return seed
}

func runCheck(id, tier string) int {
	start := time.Now()
	ps := findProps(id)
	if len(ps) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return exitError
	}
	id = ps[0].id
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	defer os.RemoveAll(scratch)
	os.Setenv("VERIF_SCRATCH", scratch)

	findings, err := loadFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	replays := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(replays, 0o755)

	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	type job struct {
		p             *prop
		shard, shards int
	}
	var jobs []job
	for _, p := range ps {
		shards := ncpu
		if p.shards > 0 && shards > p.shards {
			shards = p.shards
		}
		// The number of shards does not depend on the machine, so that runs are reproducible.
		if p.shards > 0 {
			shards = p.shards
		} else {
			shards = 8
		}
		for s := 0; s < shards; s++ {
			jobs = append(jobs, job{p, s, shards})
		}
	}
	wall := 800 * time.Second
	if tier == "thorough" {
		wall = 6 * time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_WALL")); err == nil {
		wall = time.Duration(v) * time.Second
	}
	cpuLimit := int(wall.Seconds()) * 4
	results := make(chan shardResult)
	sem := make(chan struct{}, ncpu)
	var stop atomic.Bool
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			if stop.Load() {
				results <- shardResult{j.p, j.shard, -1, ""}
				return
			}
			// Each (property part, shard) explores its own stream. Rapid adds small numbers
			// to the seed, so that they should be far apart.
			h := fnv.New64a()
			fmt.Fprintf(h, "%s/%d/%d", j.p.name(), j.shard, baseSeed())
			seed := h.Sum64()>>1 | 1
			left := wall - time.Since(start)
			code, out, timedOut := runLimited(left, cpuLimit, "worker", j.p.name(), tier,
				strconv.Itoa(j.shard), strconv.Itoa(j.shards), strconv.FormatUint(seed, 10), scratch)
			if timedOut {
				out += "\nthe worker exceeded its wall-clock limit"
			}
			if code != exitOK {
				stop.Store(true)
			}
			results <- shardResult{j.p, j.shard, code, out}
		}(j)
	}
	go func() { wg.Wait(); close(results) }()

	exit := exitOK
	violations := 0
	var errs []string
	total := shardStats{Labels: map[string]int{}}
	distinct := map[string]map[uint64]bool{}
	perCheck := map[string]map[string]any{}
	report := func(p *prop, file, how string) {
		name := filepath.Join(replays, fmt.Sprintf("%s-%s.json", p.name(), hashFile(file)))
		data, _ := os.ReadFile(file)
		_ = os.WriteFile(name, data, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, name)
		fmt.Printf("  check %s: %s\n", p.name(), strings.ReplaceAll(strings.TrimSpace(how), "\n", "\n  "))
		violations++
		exit = exitViolation
	}
	var sampleSets [][]any
	for r := range results {
		base := filepath.Join(scratch, fmt.Sprintf("%s-%d", r.p.name(), r.shard))
		switch {
		case r.code == -1:
		case r.code == exitOK:
			var st shardStats
			data, err := os.ReadFile(base + ".stats")
			if err == nil {
				err = json.Unmarshal(data, &st)
			}
			if err != nil {
				errs = append(errs, err.Error())
				continue
			}
			total.Evaluations += st.Evaluations
			total.Discarded += st.Discarded
			total.Nontrivial += st.Nontrivial
			pc := perCheck[st.Check]
			if pc == nil {
				pc = map[string]any{"evaluations": 0, "discarded": 0, "nontrivial": 0, "labels": map[string]int{}}
				perCheck[st.Check] = pc
			}
			pc["evaluations"] = pc["evaluations"].(int) + st.Evaluations
			pc["discarded"] = pc["discarded"].(int) + st.Discarded
			pc["nontrivial"] = pc["nontrivial"].(int) + st.Nontrivial
			for l, n := range st.Labels {
				pc["labels"].(map[string]int)[l] += n
			}
			if len(st.Samples) > 0 && r.shard < 2 {
				sampleSets = append(sampleSets, st.Samples)
			}
			hs, _ := os.ReadFile(base + ".hashes")
			if distinct[st.Check] == nil {
				distinct[st.Check] = map[uint64]bool{}
			}
			for i := 0; i+8 <= len(hs); i += 8 {
				distinct[st.Check][binary.LittleEndian.Uint64(hs[i:])] = true
			}
		case r.code == exitViolation:
			failed, how := confirm(base + ".fail")
			if !failed {
				errs = append(errs, fmt.Sprintf("%s: a failure was not reproduced: %s\n%s", r.p.name(), how, mustRead(base+".fail")))
				continue
			}
			report(r.p, base+".fail", how)
		default:
			// The worker died. The case it was working on may be why.
			if violations >= 2 {
				continue // Confirming takes long, and adds nothing.
			}
			data, err := os.ReadFile(base + ".cur")
			if err == nil && len(data) > 0 && json.Valid(data) {
				sc, _ := json.MarshalIndent(savedCase{Property: id, Check: r.p.name(), Case: data, Error: "the process died or hung"}, "", " ")
				if os.WriteFile(base+".fail", sc, 0o644) == nil {
					if failed, how := confirm(base + ".fail"); failed {
						report(r.p, base+".fail", how)
						continue
					}
				}
			}
			errs = append(errs, fmt.Sprintf("%s: worker %d exited with %d: %s", r.p.name(), r.shard, r.code, clip(r.out, 1500)))
		}
	}

	// Replay the known findings of this property.
	for _, f := range findings {
		if f.Property != id || f.Status != "known" {
			continue
		}
		line, err := f.replay(scratch)
		if err != nil {
			errs = append(errs, fmt.Sprintf("known finding %s: %v", f.ID, err))
		} else if line != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, line)
		} else {
			fmt.Printf("note: known finding %s no longer reproduces\n", f.ID)
		}
	}

	nd := 0
	for check, d := range distinct {
		nd += len(d)
		perCheck[check]["distinct_nontrivial"] = len(d)
	}
	var rules []string
	for _, p := range ps {
		rules = append(rules, p.name()+": "+p.rule)
	}
	var samples []any
	for i := 0; len(samples) < 8; i++ {
		added := false
		for _, s := range sampleSets {
			if i < len(s) && len(samples) < 8 {
				samples = append(samples, s[i])
				added = true
			}
		}
		if !added {
			break
		}
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": baseSeed(), "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": nd,
			"discarded":           total.Discarded,
			"rule":                strings.Join(rules, " || "),
			"samples":             samples,
			"checks":              perCheck,
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(data, '\n'), 0o644); err != nil {
		errs = append(errs, err.Error())
	}
	names := make([]string, 0, len(perCheck))
	for n := range perCheck {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		pc := perCheck[n]
		fmt.Printf("%s: %v cases, %v non-trivial (%v distinct), %v discarded %s\n", n,
			pc["evaluations"], pc["nontrivial"], pc["distinct_nontrivial"], pc["discarded"], formatLabels(pc["labels"].(map[string]int)))
	}
	for _, e := range errs {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	if exit == exitOK && len(errs) > 0 {
		exit = exitError
	}
	if exit == exitOK {
		fmt.Printf("%s held on everything explored (%.1f s)\n", id, time.Since(start).Seconds())
	}
	return exit
}

func formatLabels(labels map[string]int) string {
	var keys []string
	for l := range labels {
		keys = append(keys, l)
	}
	sort.Strings(keys)
	var out []string
	for _, l := range keys {
		out = append(out, fmt.Sprintf("%s=%d", l, labels[l]))
	}
	return strings.Join(out, " ")
}

func mustRead(file string) string {
	data, _ := os.ReadFile(file)
	return string(data)
}

func hashFile(file string) string {
	h := fnv.New32a()
	h.Write([]byte(mustRead(file)))
	return fmt.Sprintf("%08x", h.Sum32())
}

func main() {
	testing.Init()
	flag.Parse()
	args := flag.Args()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: harness check|worker|replay|list ...")
		os.Exit(exitError)
	}
	switch args[0] {
	case "check":
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		}
		os.Exit(runCheck(args[1], tier))
	case "worker":
		shard, _ := strconv.Atoi(args[3])
		shards, _ := strconv.Atoi(args[4])
		seed, _ := strconv.ParseUint(args[5], 10, 64)
		ps := findProps(args[1])
		for _, p := range ps {
			if p.name() == args[1] {
				os.Exit(runWorker(p, args[2], shard, shards, seed, args[6]))
			}
		}
		os.Exit(exitError)
	case "replay":
		os.Exit(runReplay(args[1]))
	case "probe":
		debug.SetMaxStack(64 << 20)
		os.Exit(runProbe(args[1]))
	case "list":
		for _, p := range props {
			fmt.Println(p.name(), p.quick, p.thorough)
		}
	default:
		os.Exit(exitError)
	}
}
