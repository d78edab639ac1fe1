package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verifsim/simrt"
)

// runResult is what one simulated execution gave.
type runResult struct {
	Viols  []violation `json:"viols,omitempty"`
	Finger uint64      `json:"finger"` // of everything observable, and the schedule
	Sched  uint64      `json:"sched"`
	stats  simrt.Stats
	world  *world
	judge  *judge
}

// runOne executes a scenario and judges it.
func runOne(sc *Scenario) *runResult {
	if sc.Long {
		return runLong(sc)
	}
	r0 := simrt.RaceErrors()
	w := execute(sc)
	j := &judge{w: w, races: simrt.RaceErrors() - r0}
	res := &runResult{world: w, judge: j, stats: w.stats}
	res.Viols = j.check()
	res.Finger, res.Sched = w.finger(), w.stats.Hash
	return res
}

// finger is a fingerprint of everything observable, and the schedule.
func (w *world) finger() uint64 {
	h := fnv.New64a()
	for _, r := range w.runs {
		if r.st != nil {
			b := r.st.bytes()
			if r.end >= r.start && r.end <= len(b) {
				h.Write(b[r.start:r.end])
			}
		}
		fmt.Fprint(h, "|", len(r.evs)-r.backs, r.paniced, r.err, r.conds)
		if r.get != nil {
			fmt.Fprint(h, r.get.ok)
		}
	}
	fmt.Fprint(h, w.stats.Hash, w.stats.Steps, w.stats.Now)
	return h.Sum64()
}

// keep only the violations that break the property.
func relevant(p *propSpec, vs []violation) (r []violation, other map[string]int) {
	for _, v := range vs {
		if p.relevant(v.Class) {
			r = append(r, v)
		} else {
			if other == nil {
				other = map[string]int{}
			}
			other[v.Class]++
		}
	}
	return
}

// report of a worker about one epoch: a number of executions in one fresh process.
type report struct {
	From, To  int
	Runs      int
	Found     int // index of the run with a violation, -1 none
	Viols     []violation
	Fingers   []uint64
	Scheds    []uint64
	Nontriv   []uint64
	Steps     int64
	Points    int64
	Switches  int64
	SimNs     int64
	Ops       int64
	Failed    int64
	Exact     int64
	Events    int64
	Conds     int64
	Fired     map[string]int
	Strats    map[string]int
	Other     map[string]int
	MapRanges int64
	Interl    int64 // executions with at least one preemption
	Overflow  int64
	Rounds    int64
	MaxRatio  float64
	Races     int
	Kinds     map[string]int
}

func (r *report) addFired(m map[string]int) {
	for k, v := range m {
		r.Fired[k] += v
	}
}

// seedOf is the seed of run i of a check.
func seedOf(base uint64, i int) uint64 { return mix(base, uint64(i)+1) }

func worker(p *propSpec, base uint64, from, to int, trace bool) *report {
	rep := &report{From: from, To: to, Found: -1, Fired: map[string]int{}, Strats: map[string]int{}, Other: map[string]int{}, Kinds: map[string]int{}}
	start := time.Now()
	for i := from; i < to; i++ {
		if p.long && time.Since(start) > 60*time.Second {
			break // something fills up
		}
		if trace {
			fmt.Fprintf(os.Stderr, "\nRUN %d\n", i)
		}
		sc := scenario(p, seedOf(base, i))
		res := runOne(sc)
		rep.Runs++
		w, j := res.world, res.judge
		rep.Fingers = append(rep.Fingers, res.Finger)
		rep.Scheds = append(rep.Scheds, res.Sched)
		rep.Steps += w.stats.Steps + w.pstat.Steps
		rep.Points += w.stats.Points + w.pstat.Points
		rep.Switches += int64(len(w.stats.Switches))
		rep.SimNs += w.stats.Now + w.pstat.Now
		rep.MapRanges += w.stats.MapRange
		rep.Ops += j.ops
		rep.Failed += j.failedOps
		rep.Exact += j.exactOps
		rep.Events += j.events
		rep.Races += j.races
		rep.Rounds += int64(w.rounds)
		rep.Strats[sc.Cfg.Strat.Kind]++
		if w.stats.Overflow {
			rep.Overflow++
		}
		if j.maxRatio > rep.MaxRatio {
			rep.MaxRatio = j.maxRatio
		}
		pre := len(w.stats.Switches)-1-w.stats.Forced > 0
		if pre {
			rep.Interl++
		}
		nf := 0
		for _, ts := range append(append([]*taskState(nil), w.tasks...), w.post) {
			if ts != nil {
				rep.addFired(ts.fired)
				for _, n := range ts.fired {
					nf += n
				}
			}
		}
		for _, r := range w.runs {
			rep.Conds += int64(r.conds)
			rep.Kinds[r.op.K]++
		}
		if pre || nf > 0 || len(w.runs) > 2 {
			rep.Nontriv = append(rep.Nontriv, res.Finger)
		}
		vs, other := relevant(p, res.Viols)
		for k, n := range other {
			rep.Other[k] += n
		}
		if len(vs) > 0 {
			rep.Found = i
			rep.Viols = vs
			return rep
		}
	}
	return rep
}

// replayFile is what a violation is reported with.
type replayFile struct {
	Property  string      `json:"property"`
	Class     string      `json:"class"`
	Violation []violation `json:"violation"`
	Seed      uint64      `json:"verif_seed"`
	Run       int         `json:"run"`
	Race      bool        `json:"race_build"`
	Note      string      `json:"note,omitempty"`
	Finger    uint64      `json:"fingerprint"`
	Prelude   []*Scenario `json:"prelude,omitempty"` // executed first, in the same process
	Scenario  *Scenario   `json:"scenario"`
	RaceText  string      `json:"race_report,omitempty"`
}

type replayResult struct {
	Viols    []violation
	All      []violation
	Finger   uint64
	Switches []simrt.Switch
	Steps    int64
}

// replay executes the prelude and the scenario of a file.
func replay(rf *replayFile) *replayResult {
	for _, sc := range rf.Prelude {
		runOne(sc)
	}
	res := runOne(rf.Scenario)
	vs, _ := relevant(propByID(rf.Property), res.Viols)
	return &replayResult{Viols: vs, All: res.Viols, Finger: res.Finger, Switches: res.stats.Switches, Steps: res.stats.Steps}
}

func main() {
	prop := flag.String("prop", "", "property")
	mode := flag.String("mode", "check", "check | worker | replay | one | dump")
	base := flag.Uint64("seed", 1, "seed")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 0, "")
	trace := flag.Bool("trace", false, "")
	file := flag.String("file", "", "replay file")
	raceExe := flag.String("race", "", "race build of this program")
	tier := flag.String("tier", "quick", "")
	out := flag.String("out", "", "directory of evidence and replays")
	runs := flag.Int("runs", 0, "number of runs instead of the tier's")
	scratch := flag.String("scratch", "", "scratch directory")
	flag.Parse()
	p := propByID(*prop)
	if *mode != "check" {
		runtime.GOMAXPROCS(1)
		debug.SetMaxStack(256 << 20)
	}
	switch *mode {
	case "worker":
		rep := worker(p, *base, *from, *to, *trace)
		json.NewEncoder(os.Stdout).Encode(rep)
	case "replay": // file on standard input, result on standard output
		var rf replayFile
		b, err := io.ReadAll(os.Stdin)
		if err == nil {
			err = json.Unmarshal(b, &rf)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(3)
		}
		json.NewEncoder(os.Stdout).Encode(replay(&rf))
	case "dump": // the scenario of run -from
		sc := scenario(p, seedOf(*base, *from))
		e := json.NewEncoder(os.Stdout)
		e.SetIndent("", " ")
		e.Encode(sc)
	case "survey": // all violations, relevant or not, of a number of runs
		counts := map[string]int{}
		ex := map[string]string{}
		for i := *from; i < *to; i++ {
			res := runOne(scenario(p, seedOf(*base, i)))
			seen := map[string]bool{}
			for _, v := range res.Viols {
				k := v.Class
				if !seen[k] {
					counts[k]++
				}
				seen[k] = true
				if _, ok := ex[k]; !ok {
					ex[k] = fmt.Sprintf("run %d: %s: %s", i, v.Op, v.Msg)
				}
			}
		}
		var ks []string
		for k := range counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			mark := " "
			if p.relevant(k) {
				mark = "*"
			}
			fmt.Printf("%s%-10s %6d  %s\n", mark, k, counts[k], ex[k])
		}
	case "show": // replay a file for a reader
		os.Exit(showReplay(*file, *raceExe, *scratch))
	case "check":
		os.Exit(check(p, &options{base: *base, tier: *tier, raceExe: *raceExe, out: *out, runs: *runs, scratch: *scratch}))
	default:
		fmt.Fprintln(os.Stderr, "harness: unknown mode", strings.TrimSpace(*mode))
		os.Exit(3)
	}
}
