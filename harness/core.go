// Property-based checks of github.com/giulianopz/go-readability.
//
// One binary supervises itself: "run ID TIER" starts a fixed number of shard
// processes ("child"), each of which draws cases from rapid with a seed that
// depends on VERIF_SEED, the property and the shard only, evaluates the
// property's predicate on them and records what it saw.  A failing case is
// shrunk by rapid and written to a replay file; "replay FILE" evaluates the
// predicate on such a file alone, without rapid.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case is anything that survives a round-trip through JSON.
type Case any

// Prop is one property: a generator of cases and a predicate over them.
type Prop struct {
	ID       string
	Gen      func(t *rapid.T) Case
	New      func() Case                    // an empty case to unmarshal a replay file into
	Check    func(c Case, o *Obs) error     // nil: the property holds on this case
	Quick    int                            // number of cases over all the shards
	Thorough int                            //
	Rule     string                         // how cases are made, what makes one non-trivial
	Assume   []string                       // what the check relies on
	Setup    func(verif, work string) error // once per process, before any case
	Shards   int
	Shrink   func(c Case) []func() Case // smaller variants of a case, all of them in the domain
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Obs collects what a case exercised.
type Obs struct {
	nontrivial bool
	classes    []string
}

func (o *Obs) NonTrivial()       { o.nontrivial = true }
func (o *Obs) Class(name string) { o.classes = append(o.classes, name) }
func (o *Obs) ClassIf(b bool, n string) {
	if b {
		o.Class(n)
	}
}

type report struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  []uint64       `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Corpus      int            `json:"corpus"`
}

type failure struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Seed     int             `json:"seed"`
	Tier     string          `json:"tier"`
	Case     json.RawMessage `json:"case"`
}

const (
	exitViolation = 10
	exitHang      = 97
	exitMemory    = 96
	exitHarness   = 95
)

func main() {
	slog.SetDefault(slog.New(quiet{}))
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness run ID TIER | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(run(os.Args[2], os.Args[3]))
	case "child":
		os.Exit(child(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "helper":
		os.Exit(helper(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

// ---------------------------------------------------------------- logging

// quiet drops the log of the code under test.
type quiet struct{}

func (quiet) Enabled(ctxT, slog.Level) bool        { return false }
func (quiet) Handle(ctxT, slog.Record) error       { return nil }
func (q quiet) WithAttrs([]slog.Attr) slog.Handler { return q }
func (q quiet) WithGroup(string) slog.Handler      { return q }

// ---------------------------------------------------------------- parent

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func seedOf() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil || n < 0 {
		return 1
	}
	return n
}

func run(id, tier string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	start := time.Now()
	work, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	shards := 8
	if p.Shards > 0 {
		shards = p.Shards
	}
	type outcome struct {
		rc     int
		stderr string
		err    error
	}
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rc, se, err := spawn(work, fmt.Sprintf("stderr-%d", i), "child", id, tier, strconv.Itoa(i), strconv.Itoa(shards), work)
			outs[i] = outcome{rc, se, err}
		}()
	}
	wg.Wait()

	total := report{Classes: map[string]int{}}
	distinct := map[uint64]bool{}
	var fail *failure
	trouble := ""
	for i, o := range outs {
		switch {
		case o.err != nil:
			trouble = o.err.Error()
		case o.rc == 0 || o.rc == exitViolation:
			var r report
			if err := readJSON(filepath.Join(work, fmt.Sprintf("report-%d.json", i)), &r); err != nil {
				trouble = err.Error()
				continue
			}
			total.Evaluations += r.Evaluations
			total.Corpus += r.Corpus
			for _, h := range r.NonTrivial {
				distinct[h] = true
			}
			for k, v := range r.Classes {
				total.Classes[k] += v
			}
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			if o.rc == exitViolation && fail == nil {
				var f failure
				if err := readJSON(filepath.Join(work, fmt.Sprintf("fail-%d.json", i)), &f); err != nil {
					trouble = err.Error()
					continue
				}
				fail = &f
			}
		case o.rc == exitHarness:
			trouble = "shard failed: " + tail(o.stderr, 2000)
		default:
			// The process died, or was stopped, while it evaluated a case: find out
			// whether that case alone does it again.
			f, why := confirmDeath(p, work, i, o.rc, o.stderr)
			if f != nil {
				if fail == nil {
					fail = f
				}
			} else {
				trouble = why
			}
		}
	}

	verdict := 0
	if fail != nil {
		verdict = 1
		fail.Seed, fail.Tier = seedOf(), tier
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, tier, fail.Seed))
		writeJSON(path, fail)
		fmt.Printf("%s: %s\n", id, clip(fail.Message, 4000))
		fmt.Printf("case: %s\n", clip(string(fail.Case), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else if trouble != "" {
		verdict = 2
		fmt.Fprintln(os.Stderr, "error of the check:", trouble)
	}
	if verdict == 2 {
		return 2
	}
	keys := make([]string, 0, len(total.Classes))
	for k := range total.Classes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	samples := []any{}
	for _, s := range total.Samples {
		if len(samples) == 4 {
			break
		}
		samples = append(samples, clip(s, 3000))
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seedOf(), "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             total.Classes,
			"regression_cases":    total.Corpus,
			"shards":              shards,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  b2i(fail != nil),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := writeJSON(filepath.Join(verifDir(), "evidence", id+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if verdict == 0 {
		fmt.Printf("%s %s: held on %d cases (%d distinct non-trivial, %d regression cases) in %.1fs\n",
			id, tier, total.Evaluations, len(distinct), total.Corpus, time.Since(start).Seconds())
		for _, k := range keys {
			fmt.Printf("  %-40s %d\n", k, total.Classes[k])
		}
	}
	return verdict
}

func confirmDeath(p *Prop, work string, shard, rc int, stderr string) (*failure, string) {
	in := filepath.Join(work, fmt.Sprintf("inflight-%d.json", shard))
	raw, err := os.ReadFile(in)
	if err != nil || len(raw) == 0 {
		return nil, fmt.Sprintf("shard %d ended with status %d outside of any case: %s", shard, rc, tail(stderr, 2000))
	}
	var f failure
	if err := json.Unmarshal(raw, &f); err != nil {
		return nil, fmt.Sprintf("shard %d ended with status %d: %v", shard, rc, err)
	}
	dies := func(f *failure) (string, bool) {
		path := filepath.Join(work, "confirm.json")
		writeJSON(path, f)
		rc2, se, err := spawn(work, "stderr-confirm", "replay", path)
		switch {
		case err != nil:
			return err.Error(), false
		case rc2 == 0:
			return "", false
		case rc2 == exitViolation:
			return "the property fails: " + tail(se, 1000), true
		case rc2 == exitHang:
			return "does not finish (processor time and wall time both beyond the limit)", true
		case rc2 == exitMemory:
			return "memory grows beyond the limit", true
		case rc2 == exitHarness:
			return "harness error " + tail(se, 1000), false
		case rc2 == -9:
			return "killed", false
		default:
			return fmt.Sprintf("the process dies (status %d): %s", rc2, head(se, 1500)), true
		}
	}
	why, yes := dies(&f)
	if !yes {
		return nil, fmt.Sprintf("shard %d ended with status %d, its case alone does not (%s): %s", shard, rc, why, tail(stderr, 1500))
	}
	f.Message = why
	if rc != exitHang && rc != exitMemory {
		shrinkDeadly(p, &f, func(g *failure) bool { _, y := dies(g); return y })
	}
	return &f, ""
}

// shrinkDeadly removes chunks of the markup of a case that kills its process.
func shrinkDeadly(p *Prop, f *failure, dies func(*failure) bool) {
	deadline := time.Now().Add(40 * time.Second)
	var m map[string]any
	if json.Unmarshal(f.Case, &m) != nil {
		return
	}
	for _, key := range []string{"HTML"} {
		s, ok := m[key].(string)
		if !ok {
			continue
		}
		for n := len(s) / 2; n > 0 && time.Now().Before(deadline); n /= 2 {
			for i := 0; i+n <= len(s) && time.Now().Before(deadline); {
				m[key] = s[:i] + s[i+n:]
				raw, _ := json.Marshal(m)
				g := *f
				g.Case = raw
				if dies(&g) {
					s = m[key].(string)
					f.Case = raw
				} else {
					i += n
				}
			}
		}
		m[key] = s
	}
}

// spawn runs this program again with other arguments.
func spawn(work, name string, args ...string) (int, string, error) {
	self, err := os.Executable()
	if err != nil {
		return 0, "", err
	}
	ef, err := os.Create(filepath.Join(work, name))
	if err != nil {
		return 0, "", err
	}
	defer ef.Close()
	cmd := exec.Command(self, args...)
	cmd.Stderr = ef
	cmd.Stdout = io.Discard
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "VERIF_WORK="+work)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	err = cmd.Run()
	b, _ := os.ReadFile(ef.Name())
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return -int(ws.Signal()), string(b), nil
		}
		return ee.ExitCode(), string(b), nil
	}
	if err != nil {
		return 0, "", err
	}
	return 0, string(b), nil
}

// ---------------------------------------------------------------- child

type childState struct {
	p        *Prop
	tier     string
	shard    int
	work     string
	rep      report
	distinct map[uint64]bool
	inflight *os.File
	last     *failure
}

func child(args []string) int {
	id, tier := args[0], args[1]
	shard, _ := strconv.Atoi(args[2])
	shards, _ := strconv.Atoi(args[3])
	work := args[4]
	p := props[id]
	cs := &childState{p: p, tier: tier, shard: shard, work: work, distinct: map[uint64]bool{}}
	cs.rep.Classes = map[string]int{}
	var err error
	cs.inflight, err = os.Create(filepath.Join(work, fmt.Sprintf("inflight-%d.json", shard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	limits()
	if p.Setup != nil {
		if err := p.Setup(verifDir(), work); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return exitHarness
		}
	}

	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	mine := n / shards
	if shard < n%shards {
		mine++
	}

	// Saved cases first: every defect found so far is one.
	files, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", id, "*.json"))
	sort.Strings(files)
	for i, f := range files {
		if i%shards != shard {
			continue
		}
		var saved failure
		if err := readJSON(f, &saved); err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return exitHarness
		}
		c := p.New()
		if err := json.Unmarshal(saved.Case, c); err != nil {
			fmt.Fprintln(os.Stderr, f, err)
			return exitHarness
		}
		cs.rep.Corpus++
		if msg := cs.eval(c); msg != "" {
			cs.last.Message = filepath.Base(f) + ": " + msg
			return cs.finish(true)
		}
	}

	if mine > 0 {
		testing.Init()
		flag.CommandLine.Parse(nil)
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%d/%d/%s", id, seedOf(), shard, tier)
		seed := h.Sum64()
		if seed == 0 {
			seed = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
		flag.Set("rapid.checks", strconv.Itoa(mine))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "10s")
		if os.Getenv("VERIF_SHRINK") == "0" {
			flag.Set("rapid.shrinktime", "1ns")
		}
		tb := &rtb{name: id}
		func() {
			defer func() {
				if r := recover(); r != nil && r != errFailNow {
					panic(r)
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := p.Gen(t)
				if msg := cs.eval(c); msg != "" {
					t.Fatalf("%s", msg)
				}
			})
		}()
		if tb.failed {
			if cs.last == nil {
				fmt.Fprintln(os.Stderr, "rapid:", tb.log.String())
				return exitHarness
			}
			// The last evaluated failing case is the smallest one rapid found.
			cs.shrink()
			return cs.finish(true)
		}
	}
	return cs.finish(false)
}

// eval evaluates the predicate on a case; the result is empty if it holds.
func (cs *childState) eval(c Case) string {
	raw, err := json.Marshal(c)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(exitHarness)
	}
	f := &failure{Property: cs.p.ID, Tier: cs.tier, Seed: seedOf(), Case: raw}
	buf, _ := json.Marshal(f)
	cs.inflight.Truncate(0)
	cs.inflight.WriteAt(buf, 0)
	o := &Obs{}
	msg := evaluate(cs.p, c, o)
	cs.inflight.Truncate(0)
	cs.rep.Evaluations++
	if o.nontrivial {
		h := fnv.New64a()
		h.Write(raw)
		k := h.Sum64()
		if !cs.distinct[k] {
			cs.distinct[k] = true
			if len(cs.rep.Samples) < 2 && len(cs.distinct)%17 == 3 {
				cs.rep.Samples = append(cs.rep.Samples, string(raw))
			}
		}
	}
	for _, k := range o.classes {
		cs.rep.Classes[k]++
	}
	if msg != "" {
		f.Message = msg
		cs.last = f
	}
	return msg
}

var caseStart atomic.Int64 // wall clock in ns, 0 when no case is being evaluated

func evaluate(p *Prop, c Case, o *Obs) (msg string) {
	caseCPU.Store(int64(cpuTime()))
	caseStart.Store(time.Now().UnixNano())
	defer caseStart.Store(0)
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				fmt.Fprintln(os.Stderr, "harness:", string(h), string(debug.Stack()))
				os.Exit(exitHarness)
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, clip(trimStack(string(debug.Stack())), 2500))
		}
	}()
	if err := p.Check(c, o); err != nil {
		return err.Error()
	}
	return ""
}

// harnessError is panicked for mistakes of the check itself.
type harnessError string

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		return s[i:]
	}
	return s
}

// shrink goes on where rapid stopped, with the knowledge of what a case is made of.
func (cs *childState) shrink() {
	if cs.p.Shrink == nil || os.Getenv("VERIF_SHRINK") == "0" {
		return
	}
	deadline := time.Now().Add(15 * time.Second)
	c := cs.p.New()
	if json.Unmarshal(cs.last.Case, c) != nil {
		return
	}
	best := cs.last
	for again := true; again; {
		again = false
		for _, f := range cs.p.Shrink(c) {
			if time.Now().After(deadline) {
				cs.last = best
				return
			}
			d := f()
			raw, err := json.Marshal(d)
			if err != nil || len(raw) >= len(best.Case) {
				continue
			}
			if cs.eval(d) != "" {
				best = cs.last
				c = cs.p.New()
				json.Unmarshal(best.Case, c)
				again = true
				break
			}
		}
	}
	cs.last = best
}

func (cs *childState) finish(failed bool) int {
	cs.inflight.Truncate(0)
	for k := range cs.distinct {
		cs.rep.NonTrivial = append(cs.rep.NonTrivial, k)
	}
	if err := writeJSON(filepath.Join(cs.work, fmt.Sprintf("report-%d.json", cs.shard)), cs.rep); err != nil {
		return exitHarness
	}
	if failed {
		if err := writeJSON(filepath.Join(cs.work, fmt.Sprintf("fail-%d.json", cs.shard)), cs.last); err != nil {
			return exitHarness
		}
		return exitViolation
	}
	return 0
}

func replay(path string) int {
	var f failure
	if err := readJSON(path, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	p := props[f.Property]
	if p == nil {
		return exitHarness
	}
	limits()
	if p.Setup != nil {
		work := os.Getenv("VERIF_WORK")
		if work == "" {
			w, err := os.MkdirTemp("", "verif-replay-")
			if err != nil {
				return exitHarness
			}
			defer os.RemoveAll(w)
			work = w
		}
		if err := p.Setup(verifDir(), work); err != nil {
			fmt.Fprintln(os.Stderr, "setup:", err)
			return exitHarness
		}
	}
	c := p.New()
	if err := json.Unmarshal(f.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitHarness
	}
	if msg := evaluate(p, c, &Obs{}); msg != "" {
		fmt.Fprintln(os.Stderr, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return exitViolation
	}
	fmt.Printf("%s holds on %s\n", f.Property, path)
	return 0
}

// ---------------------------------------------------------------- limits

var caseCPU atomic.Int64

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	hangWall = 45 * time.Second
	hangCPU  = 30 * time.Second
	memLimit = 3 << 30
)

// limits stops the process when a single case takes absurdly long (the cases take
// milliseconds) or absurdly much memory.
func limits() {
	debug.SetMaxStack(256 << 20)
	go func() {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(200 * time.Millisecond)
			st := caseStart.Load()
			if st == 0 {
				continue
			}
			metrics.Read(s)
			if s[0].Value.Uint64() > memLimit && caseStart.Load() == st {
				fmt.Fprintln(os.Stderr, "memory limit")
				os.Exit(exitMemory)
			}
			if time.Since(time.Unix(0, st)) > hangWall && cpuTime()-time.Duration(caseCPU.Load()) > hangCPU && caseStart.Load() == st {
				fmt.Fprintln(os.Stderr, "time limit")
				os.Exit(exitHang)
			}
		}
	}()
}

// ---------------------------------------------------------------- rapid.TB

var errFailNow = errors.New("FailNow")

type rtb struct {
	name   string
	failed bool
	log    bytes.Buffer
}

func (r *rtb) Helper()      {}
func (r *rtb) Name() string { return r.name }
func (r *rtb) Logf(f string, a ...any) {
	if r.log.Len() < 1<<16 {
		fmt.Fprintf(&r.log, f+"\n", a...)
	}
}
func (r *rtb) Log(a ...any)              { r.Logf("%s", fmt.Sprint(a...)) }
func (r *rtb) Skipf(f string, a ...any)  { panic(harnessError("skip")) }
func (r *rtb) Skip(a ...any)             { panic(harnessError("skip")) }
func (r *rtb) SkipNow()                  { panic(harnessError("skip")) }
func (r *rtb) Errorf(f string, a ...any) { r.Logf(f, a...); r.failed = true }
func (r *rtb) Error(a ...any)            { r.Log(a...); r.failed = true }
func (r *rtb) Fatalf(f string, a ...any) { r.Logf(f, a...); r.FailNow() }
func (r *rtb) Fatal(a ...any)            { r.Log(a...); r.FailNow() }
func (r *rtb) FailNow()                  { r.failed = true; panic(errFailNow) }
func (r *rtb) Fail()                     { r.failed = true }
func (r *rtb) Failed() bool              { return r.failed }

// ---------------------------------------------------------------- small things

func readJSON(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, v)
}

func writeJSON(path string, v any) error {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	if _, ok := v.(map[string]any); ok {
		e.SetIndent("", " ")
	}
	if err := e.Encode(v); err != nil {
		return err
	}
	return os.WriteFile(path, buf.Bytes(), 0o644)
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return strings.ToValidUTF8(s[:n], "") + "…"
}
func head(s string, n int) string { return clip(s, n) }
func tail(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return "…" + strings.ToValidUTF8(s[len(s)-n:], "")
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
