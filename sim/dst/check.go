package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/simrt"
)

type options struct {
	base    uint64
	tier    string
	raceExe string
	out     string
	runs    int
	scratch string
}

// budget of a check: how many runs, in epochs of how many. One epoch is one fresh process.
type budget struct {
	plain, race int
	size        int // runs of an epoch
	wall        time.Duration
}

var quickRuns = map[string]budget{
	"C01": {plain: 160000, race: 24000},
	"C02": {plain: 240000},
	"C03": {plain: 240000},
	"C04": {plain: 200000},
	"C05": {plain: 160000, race: 24000},
	"C06": {plain: 200000},
	"C07": {plain: 240000},
	"C08": {plain: 200000},
	"C09": {plain: 200000},
	"C10": {plain: 160000, race: 20000},
	"C11": {plain: 240000, race: 12000},
	"C12": {plain: 320000},
	"C13": {plain: 200000},
	"C14": {plain: 320000, race: 20000},
	"C15": {plain: 160000},
	"C16": {plain: 160000, race: 20000},
	"C17": {plain: 200000},
	"C23": {plain: 160000, race: 16000},
	"C24": {plain: 160000},
	"C25": {plain: 12000, size: 50},
}

const raceBase = 1 << 30 // indices of runs under the race detector

type proc struct {
	out, err []byte
	failed   error
	timeout  bool
}

func spawn(exe string, scratch string, limit time.Duration, stdin []byte, args ...string) proc {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, exe, args...)
	c.Env = append(os.Environ(), "GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 history_size=3 atexit_sleep_ms=0", "GOTRACEBACK=all", "GOGC=400")
	c.Stdin = bytes.NewReader(stdin)
	var o, e bytes.Buffer
	c.Stdout = &o
	c.Stderr = &capped{b: &e, max: 1 << 20}
	err := c.Run()
	return proc{o.Bytes(), e.Bytes(), err, ctx.Err() != nil}
}

type capped struct {
	b   *bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if n := c.max - c.b.Len(); n > 0 {
		if len(p) < n {
			n = len(p)
		}
		c.b.Write(p[:n])
	} else { // keep the end: crashes are reported last
		keep := c.b.Bytes()
		c.b.Reset()
		c.b.Write(append([]byte(nil), keep[len(keep)/2:]...))
		c.b.Write(p)
	}
	return len(p), nil
}

type epoch struct {
	from, to int
	race     bool
	rep      *report
	crash    *proc
	skipped  bool
}

type runner struct {
	p    *propSpec
	o    *options
	self string
}

func (rn *runner) exe(race bool) string {
	if race {
		return rn.o.raceExe
	}
	return rn.self
}

func (rn *runner) epoch(e *epoch) {
	pr := spawn(rn.exe(e.race), rn.o.scratch, 120*time.Second, nil, "-mode", "worker", "-prop", rn.p.id, "-seed", strconv.FormatUint(rn.o.base, 10),
		"-from", strconv.Itoa(e.from), "-to", strconv.Itoa(e.to))
	if pr.failed != nil {
		e.crash = &pr
		return
	}
	rep := &report{}
	if err := json.Unmarshal(pr.out, rep); err != nil {
		pr.failed = err
		e.crash = &pr
		return
	}
	e.rep = rep
}

func check(p *propSpec, o *options) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Println("harness:", err)
		return 3
	}
	rn := &runner{p, o, self}
	b := quickRuns[p.id]
	b.wall = 150 * time.Second
	if o.tier == "thorough" {
		b.plain *= 20
		b.race *= 20
		b.wall = 700 * time.Second
	}
	if o.runs > 0 {
		b.race = b.race * o.runs / b.plain
		b.plain = o.runs
	}
	if o.raceExe == "" {
		b.race = 0
	}
	var epochs []*epoch
	cut := func(n, off, size int, race bool) (es []*epoch) {
		for i := 0; i < n; i += size {
			k := size
			if i+k > n {
				k = n - i
			}
			es = append(es, &epoch{from: off + i, to: off + i + k, race: race})
		}
		return
	}
	size := 500
	if b.size > 0 {
		size = b.size
	}
	pe, re := cut(b.plain, 0, size, false), cut(b.race, raceBase, 100, true)
	for i := 0; i < len(pe) || i < len(re); i++ { // mixed, so that a bug of either kind shows early
		if i < len(re) {
			epochs = append(epochs, re[i])
		}
		if i < len(pe) {
			epochs = append(epochs, pe[i])
		}
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	var mu sync.Mutex
	next := 0
	stop, crashes := false, 0
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(epochs) || time.Since(start) > b.wall {
					mu.Unlock()
					return
				}
				e := epochs[next]
				next++
				mu.Unlock()
				rn.epoch(e)
				mu.Lock()
				if e.crash != nil {
					crashes++
				}
				if e.crash == nil && e.rep.Found >= 0 || crashes >= 2*workers || crashes > 0 && time.Since(start) > b.wall/2 {
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(start)
	done := epochs[:next]
	// the earliest epoch with a violation
	var bad *epoch
	for _, e := range done {
		if e.rep != nil && e.rep.Found >= 0 {
			bad = e
			break
		}
	}
	if bad == nil { // one that died says less
		for _, e := range done {
			if e.crash != nil && (bad == nil || bad.crash.timeout && !e.crash.timeout) {
				bad = e
			}
		}
	}
	// determinism: some epochs once more, in fresh processes
	again, differ := 0, 0
	if bad == nil {
		var re []*epoch
		for i := 0; i < len(done); i += 1 + len(done)/8 {
			re = append(re, &epoch{from: done[i].from, to: done[i].to, race: done[i].race, rep: done[i].rep})
		}
		var wg sync.WaitGroup
		for _, e := range re {
			wg.Add(1)
			go func(e *epoch) {
				defer wg.Done()
				old := e.rep
				e.rep = nil
				rn.epoch(e)
				mu.Lock()
				defer mu.Unlock()
				if e.rep == nil {
					differ++
					return
				}
				again += len(e.rep.Fingers)
				for k := range old.Fingers {
					if k >= len(e.rep.Fingers) && !rn.p.long || k < len(e.rep.Fingers) && old.Fingers[k] != e.rep.Fingers[k] {
						differ++
					}
				}
			}(e)
		}
		wg.Wait()
	}
	code := 0
	nviol := 0
	if bad != nil {
		code, nviol = rn.report(bad)
	}
	if err := rn.evidence(done, start, searchWall, again, differ, nviol, b); err != nil {
		fmt.Println("harness: evidence:", err)
		if code == 0 {
			return 3
		}
	}
	if code == 0 {
		n := 0
		for _, e := range done {
			n += e.rep.Runs
		}
		fmt.Printf("ok property=%s runs=%d wall=%.1fs (re-executed %d, differing %d)\n", p.id, n, time.Since(start).Seconds(), again, differ)
	}
	return code
}

// try executes a replay file in a fresh process.
func (rn *runner) try(rf *replayFile) (*replayResult, *proc) {
	in, err := json.Marshal(rf)
	if err != nil {
		return nil, &proc{failed: err}
	}
	pr := spawn(rn.exe(rf.Race), rn.o.scratch, 60*time.Second, in, "-mode", "replay", "-prop", rf.Property)
	if pr.failed != nil {
		return nil, &pr
	}
	res := &replayResult{}
	if err := json.Unmarshal(pr.out, res); err != nil {
		pr.failed = err
		return nil, &pr
	}
	return res, &pr
}

// crashClass says what a process that died says about the library: "" if it says nothing.
func crashClass(pr *proc) (class, msg string) {
	s := string(pr.err)
	i := strings.LastIndex(s, "fatal error: ")
	j := strings.LastIndex(s, "panic: ")
	at := i
	if j > i {
		at = j
	}
	if at < 0 || strings.Contains(s[at:], "panic: harness") {
		return "", ""
	}
	line := s[at:]
	if k := strings.IndexByte(line, '\n'); k > 0 {
		line = line[:k]
	}
	inLib := strings.Contains(s[at:], "go-andiamo/aitch")
	switch {
	case strings.Contains(line, "all goroutines are asleep"):
		if inLib {
			return "deadlock", line
		}
	case strings.Contains(line, "stack overflow") || strings.Contains(s, "goroutine stack exceeds"):
		if inLib {
			return "runaway", line
		}
	default:
		// the innermost frame outside the runtime must be the library's
		k := strings.Index(s[at:], "[running]:")
		if k < 0 {
			return "", ""
		}
		for _, l := range strings.Split(s[at+k:], "\n")[1:] {
			if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "internal/") {
				continue
			}
			if strings.Contains(l, "go-andiamo/aitch") {
				return "panic", line
			}
			return "", ""
		}
	}
	return "", ""
}

// report reproduces, minimises and reports what an epoch found.
func (rn *runner) report(e *epoch) (code, nviol int) {
	p, o := rn.p, rn.o
	if e.crash != nil {
		if e.crash.timeout {
			fmt.Printf("harness: the worker for runs %d..%d did not finish\n", e.from, e.to)
			return 3, 0
		}
		pr := spawn(rn.exe(e.race), o.scratch, 240*time.Second, nil, "-mode", "worker", "-trace", "-prop", p.id, "-seed", strconv.FormatUint(o.base, 10),
			"-from", strconv.Itoa(e.from), "-to", strconv.Itoa(e.to))
		idx := -1
		for _, l := range strings.Split(string(pr.err), "\n") {
			if strings.HasPrefix(l, "RUN ") {
				idx, _ = strconv.Atoi(l[4:])
			}
		}
		class, msg := crashClass(&pr)
		if pr.failed == nil || idx < 0 || class == "" || !p.relevant(class) {
			fmt.Printf("harness: the worker for runs %d..%d died: %v\n%s\n", e.from, e.to, e.crash.failed, tail(e.crash.err, 4000))
			return 3, 0
		}
		rf := &replayFile{Property: p.id, Class: class, Violation: []violation{{Class: class, Msg: "the process died: " + msg}}, Seed: o.base, Run: idx, Race: e.race,
			Scenario: scenario(p, seedOf(o.base, idx))}
		if r, pr := rn.try(rf); r != nil || crashed(pr) == "" {
			for i := e.from; i < idx; i++ {
				rf.Prelude = append(rf.Prelude, scenario(p, seedOf(o.base, i)))
			}
		}
		return rn.finish(rf)
	}
	idx := e.rep.Found
	v := e.rep.Viols[0]
	rf := &replayFile{Property: p.id, Class: v.Class, Violation: e.rep.Viols, Seed: o.base, Run: idx, Race: e.race, Scenario: scenario(p, seedOf(o.base, idx))}
	m := &minimizer{rn: rn, class: v.Class, end: time.Now().Add(60 * time.Second)}
	ok := false
	for k := 0; k < 3 && !ok; k++ {
		ok = m.fails(rf)
	}
	if !ok {
		for i := e.from; i < idx; i++ {
			rf.Prelude = append(rf.Prelude, scenario(p, seedOf(o.base, i)))
		}
		for k := 0; k < 10 && !ok; k++ {
			ok = m.fails(rf)
		}
		if ok {
			rf.Note = "needs the history of earlier runs in the same process"
		}
	}
	if !ok {
		rf.Prelude = nil
		rf.Note = "seen once; the execution depends on something outside the simulator and did not repeat"
		return rn.finish(rf)
	}
	rf = m.minimise(rf)
	return rn.finish(rf)
}

func crashed(pr *proc) string {
	if pr == nil || pr.failed == nil {
		return ""
	}
	c, _ := crashClass(pr)
	return c
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func (rn *runner) finish(rf *replayFile) (int, int) {
	dir := filepath.Join(rn.o.out, "replays")
	os.MkdirAll(dir, 0o755)
	if r, pr := rn.try(rf); r != nil {
		rf.Finger = r.Finger
		if len(r.Viols) > 0 {
			rf.Violation = r.Viols
		}
		if rf.Race {
			rf.RaceText = raceText(pr.err)
		}
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", rf.Property, rf.Seed, rf.Run))
	b, err := json.MarshalIndent(rf, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("harness:", err)
		return 3, 0
	}
	for _, v := range rf.Violation {
		fmt.Printf("%s: %s: %s\n", v.Class, v.Op, v.Msg)
	}
	if rf.RaceText != "" {
		fmt.Println(rf.RaceText)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1, len(rf.Violation)
}

func raceText(b []byte) string {
	s := string(b)
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if k := strings.Index(s, "\n=================="); k > 0 {
		s = s[:k]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// showReplay executes a replay file twice, in fresh processes, and tells what happened.
func showReplay(file, raceExe, scratch string) int {
	b, err := os.ReadFile(file)
	var rf replayFile
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil || propByID(rf.Property) == nil || rf.Scenario == nil {
		fmt.Println("harness: replay file:", err)
		return 3
	}
	self, _ := os.Executable()
	rn := &runner{propByID(rf.Property), &options{raceExe: raceExe, scratch: scratch}, self}
	if rf.Race && raceExe == "" {
		fmt.Println("harness: needs the race build")
		return 3
	}
	var fingers []uint64
	bad := false
	for i := 0; i < 2; i++ {
		r, pr := rn.try(&rf)
		if r == nil {
			if c := crashed(pr); c != "" {
				fmt.Printf("%s: the process died\n%s\n", c, tail(pr.err, 2000))
				bad = true
				continue
			}
			fmt.Printf("harness: %v\n%s\n", pr.failed, tail(pr.err, 2000))
			return 3
		}
		fingers = append(fingers, r.Finger)
		if len(r.Viols) > 0 {
			bad = true
		}
		if i == 0 {
			for _, v := range r.Viols {
				fmt.Printf("%s: %s: %s\n", v.Class, v.Op, v.Msg)
			}
			if t := raceText(pr.err); t != "" {
				fmt.Println(t)
			}
			same := "differs from"
			if r.Finger == rf.Finger {
				same = "is"
			}
			fmt.Printf("fingerprint %x %s the recorded one; %d steps, %d switches\n", r.Finger, same, r.Steps, len(r.Switches))
		} else if len(fingers) > 1 && fingers[0] != fingers[1] {
			fmt.Println("note: two replays differ")
		}
	}
	if bad {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Println("the replay shows no violation")
	return 0
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func (rn *runner) evidence(done []*epoch, start time.Time, search time.Duration, again, differ, nviol int, b budget) error {
	t := &report{Fired: map[string]int{}, Strats: map[string]int{}, Other: map[string]int{}, Kinds: map[string]int{}}
	fingers, scheds, nontriv := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	raceRuns := 0
	for _, e := range done {
		r := e.rep
		if r == nil {
			continue
		}
		t.Runs += r.Runs
		if e.race {
			raceRuns += r.Runs
		}
		t.Steps += r.Steps
		t.Points += r.Points
		t.Switches += r.Switches
		t.SimNs += r.SimNs
		t.Ops += r.Ops
		t.Failed += r.Failed
		t.Exact += r.Exact
		t.Events += r.Events
		t.Conds += r.Conds
		t.MapRanges += r.MapRanges
		t.Interl += r.Interl
		t.Overflow += r.Overflow
		t.Rounds += r.Rounds
		t.Races += r.Races
		if r.MaxRatio > t.MaxRatio {
			t.MaxRatio = r.MaxRatio
		}
		t.addFired(r.Fired)
		for k, n := range r.Strats {
			t.Strats[k] += n
		}
		for k, n := range r.Other {
			t.Other[k] += n
		}
		for k, n := range r.Kinds {
			t.Kinds[k] += n
		}
		for _, x := range r.Fingers {
			fingers[x] = true
		}
		for _, x := range r.Scheds {
			scheds[x] = true
		}
		for _, x := range r.Nontriv {
			nontriv[x] = true
		}
	}
	samples := []any{}
	for i := 0; i < 2 && i < t.Runs; i++ {
		sc := scenario(rn.p, seedOf(rn.o.base, i))
		samples = append(samples, sampleOf(sc))
	}
	h := search.Hours()
	if h <= 0 {
		h = 1e-9
	}
	cov := map[string]any{
		"evaluations":                         t.Runs,
		"distinct_nontrivial":                 len(nontriv),
		"rule":                                "one evaluation is one simulated execution of a scenario generated from (property, seed, run number); non-trivial: at least one preemption inside the library or a callback, or at least one injected fault that struck, or at least three operations; distinct: different fingerprint of all output bytes, errors, callback counts and the schedule",
		"samples":                             samples,
		"runs_per_hour":                       int64(float64(t.Runs) / h),
		"seeds_per_hour":                      int64(float64(t.Runs) / h),
		"simulated_time_s":                    float64(t.SimNs) / 1e9,
		"simulated_steps":                     t.Steps,
		"io_and_callback_points":              t.Points,
		"context_switches":                    t.Switches,
		"runs_with_preemption":                t.Interl,
		"distinct_schedules":                  len(scheds),
		"distinct_executions":                 len(fingers),
		"faults_struck":                       t.Fired,
		"strategies":                          t.Strats,
		"operations":                          t.Kinds,
		"operations_judged":                   t.Ops,
		"operations_exact":                    t.Exact,
		"operations_failed_by_fault":          t.Failed,
		"callback_events_judged":              t.Events,
		"conditions_evaluated":                t.Conds,
		"map_iterations_controlled":           t.MapRanges,
		"runs_under_race_detector":            raceRuns,
		"max_steps_per_unit_of_work":          t.MaxRatio,
		"determinism_reexecuted":              again,
		"determinism_differing":               differ,
		"violations_of_other_properties_seen": t.Other,
		"real_components":                     []string{"github.com/go-andiamo/aitch and its packages context, html, svg, css, htmx (compiled from /repo's working tree with a scheduling call before every statement)", "html/template", "golang.org/x/net/html", "bytes.Buffer, strings.Builder, reflect, regexp, strconv"},
		"stub_components":                     []string{"io.Writer and io.Reader devices", "callers (goroutines) and their scheduling", "clock", "order of map iteration in the library", "sync primitives, should the library use them"},
	}
	if rn.p.long {
		cov["further_rounds"] = t.Rounds
	}
	ev := evidence{rn.p.id, rn.o.tier, int64(rn.o.base), "exploration", cov, []string{
		"the order in which operations of different callers take effect is decided at statement boundaries of the library; effects of weaker memory orders are covered only as races found by the race detector",
		"user callbacks and custom nodes respect the documented contract: they record an error on the context only if it carries none",
	}, time.Since(start).Seconds(), nviol}
	bts, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(rn.o.out, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, rn.p.id+".json"), append(bts, '\n'), 0o644)
}

func sampleOf(sc *Scenario) any {
	b, _ := json.Marshal(sc)
	if len(b) > 6000 {
		return map[string]any{"seed": sc.Seed, "prop": sc.Prop, "tasks": len(sc.Tasks), "trees": len(sc.Trees), "json_bytes": len(b), "cfg": sc.Cfg}
	}
	var v any
	json.Unmarshal(b, &v)
	return v
}

var _ = sort.Strings
var _ simrt.Config
