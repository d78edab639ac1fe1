// Package simrt is the run-time half of the simulator: a scheduler that runs caller tasks one at a
// time, decides at every instrumented statement of the library which task proceeds, and owns the
// simulated clock. Everything it decides is a pure function of the Config of the run.
//
// All functions that run inside tasks are go:norace and touch only preallocated memory: the race
// detector (in race builds) sees the library's and the callers' accesses, never the simulator's.
package simrt

import (
	"sync"
	"time"
	"unsafe"
)

const (
	maxTasks  = 1024
	starve    = 30000 // steps after which a task that never waits is preempted, so that one that spins cannot stop the others
	maxSwitch = 1 << 16
)

// Switch records that at step Step the processor was given to task To.
type Switch struct {
	Step int64 `json:"s"`
	To   int   `json:"t"`
}

// Strategy names how preemption points are drawn.
type Strategy struct {
	Kind string `json:"kind"`          // serial | uniform | pct | io | mixed | rr | script
	Gap  int64  `json:"gap,omitempty"` // mean (uniform, mixed) or exact (rr) number of steps between preemptions
	D    int    `json:"d,omitempty"`   // pct: number of priority change points
	Len  int64  `json:"len,omitempty"` // pct: estimated length of the run in steps
	P    int    `json:"p,omitempty"`   // io, mixed: preemption probability at an I/O or callback point, percent
}

// Config is everything that determines a schedule.
type Config struct {
	Seed     uint64   `json:"seed"`
	Strat    Strategy `json:"strat"`
	MapMode  int      `json:"mapMode"` // 0 sorted, 1 reversed, 2 shuffled anew at every range
	PoolMode int      `json:"poolMode"`
	Script   []Switch `json:"script,omitempty"` // Strat.Kind == "script": the switches, nothing else is drawn
	Budget   int64    `json:"budget"`           // steps after which the run is declared runaway
}

// Stats of a run.
type Stats struct {
	Steps    int64
	Points   int64
	Switches []Switch
	Forced   int // switches because a task ended or blocked
	Now      int64
	Runaway  bool
	Deadlock bool
	Overflow bool
	Crashed  bool // a goroutine of the library panicked: a real process would have died
	Crash    any
	Spawned  int
	Left     int // goroutines of the library that were still there when everybody else was done
	MapRange int64
	Hash     uint64 // fingerprint of the schedule (sequence of switch sites)
}

type task struct {
	id      int
	ch      chan struct{}
	done    bool
	blocked unsafe.Pointer
	wake    int64
	prio    int64
	steps   int64
	local   any
	mapN    uint64
	lib     bool // started by the library, not a caller
}

// Alarm is a pending timer: f runs, on whichever task moves the clock there, and must not wait.
type Alarm struct {
	at   int64
	live bool
	f    func()
}

type state struct {
	alarms   []*Alarm
	alarmMin int64
	active   bool
	cfg      Config
	tasks    [maxTasks]*task
	n        int
	cur      *task
	steps    int64
	next     int64
	points   int64
	now      int64
	rng      uint64
	mapRng   uint64
	rec      []Switch
	forced   int
	scriptI  int
	abort    int // 0, 1 runaway, 2 deadlock
	runaway  bool
	deadlock bool
	overflow bool
	mapRange int64
	hash     uint64
	lastSw   int64
	callers  int // live callers
	nCall    int // callers
	crash    any // panic that left a goroutine of the library
	crashed  bool
	ending   bool
	left     int
	changes  [16]int64
	nchanges int
	lowPrio  int64
	done     chan struct{}
	wg       sync.WaitGroup
	seq      int64
}

var s state

func init() {
	s.rec = make([]Switch, 0, maxSwitch)
}

// Abort is what a task panics with when the run has been declared dead.
type Abort struct{ Why string }

func (a Abort) Error() string { return "simulation aborted: " + a.Why }

//go:norace
func rnd() uint64 {
	s.rng += 0x9E3779B97F4A7C15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Y is inserted before every statement of the instrumented library.
//
//go:norace
func Y() {
	if !s.active {
		return
	}
	s.steps++
	s.cur.steps++
	if s.steps >= s.next {
		slow()
	}
}

// Point marks an I/O operation or a user callback: a place where real programs lose the processor.
//
//go:norace
func Point() {
	if !s.active {
		return
	}
	s.steps++
	s.cur.steps++
	s.points++
	if s.steps >= s.next {
		slow()
		return
	}
	if k := s.cfg.Strat.Kind; k == "io" || k == "mixed" {
		if int(rnd()%100) < s.cfg.Strat.P {
			preempt()
		}
	}
}

//go:norace
func gap() int64 {
	g := s.cfg.Strat.Gap
	if g <= 1 {
		return 1
	}
	// roughly geometric with mean g
	n := int64(1)
	for rnd()%uint64(g) != 0 && n < 16*g {
		n++
	}
	return n
}

//go:norace
func schedNext() {
	limit := s.cfg.Budget
	n := limit
	switch s.cfg.Strat.Kind {
	case "uniform", "mixed":
		n = s.steps + gap()
	case "rr":
		n = s.steps + s.cfg.Strat.Gap
	case "pct":
		for i := 0; i < s.nchanges; i++ {
			if c := s.changes[i]; c > s.steps && c < n {
				n = c
			}
		}
	case "script":
		if s.scriptI < len(s.cfg.Script) {
			n = s.cfg.Script[s.scriptI].Step
			if n <= s.steps {
				n = s.steps + 1
			}
		}
	}
	if s.cfg.Strat.Kind != "script" && n > s.lastSw+starve {
		n = s.lastSw + starve
		if n <= s.steps {
			n = s.steps + starve
		}
	}
	if n > limit {
		n = limit
	}
	s.next = n
}

//go:norace
func slow() {
	if s.abort != 0 {
		abortNow()
	}
	if s.steps >= s.cfg.Budget {
		s.runaway = true
		s.abort = 1
		s.next = 0
		abortNow()
	}
	preempt()
}

//go:norace
func abortNow() {
	s.next = 0
	if s.abort == 1 {
		panic(Abort{"step budget exceeded"})
	}
	if s.abort == 3 {
		panic(Abort{"end of the run"})
	}
	panic(Abort{"deadlock"})
}

//go:norace
func runnable(t *task) bool {
	return !t.done && t.blocked == nil && t.wake <= s.now
}

// nextAlarm is when the next timer is due, -1 if there is none.
//
//go:norace
func nextAlarm() int64 {
	best := int64(-1)
	for _, a := range s.alarms {
		if a.live && (best < 0 || a.at < best) {
			best = a.at
		}
	}
	return best
}

// ring lets the timers that are due go off.
//
//go:norace
func ring() {
	if len(s.alarms) == 0 || s.now < s.alarmMin {
		return
	}
	s.alarmMin = 1 << 62
	k := 0
	var due []*Alarm
	for _, a := range s.alarms {
		if !a.live {
			continue
		}
		if a.at <= s.now {
			due = append(due, a)
			continue
		}
		s.alarmMin = min(s.alarmMin, a.at)
		s.alarms[k] = a
		k++
	}
	s.alarms = s.alarms[:k]
	for i := range due { // oldest first
		for j := i; j > 0 && due[j].at < due[j-1].at; j-- {
			due[j], due[j-1] = due[j-1], due[j]
		}
	}
	for _, a := range due {
		s.steps++
		if a.live {
			a.live = false
			a.f()
		}
	}
}

// SetAlarm arranges for f to run d nanoseconds from now.
//
//go:norace
func SetAlarm(d int64, f func()) *Alarm {
	a := &Alarm{at: s.now + max(d, 1), live: true, f: f}
	if s.active {
		s.alarms = append(s.alarms, a)
		s.alarmMin = min(s.alarmMin, a.at)
	}
	return a
}

// Cancel says whether the alarm had not gone off yet.
//
//go:norace
func (a *Alarm) Cancel() bool {
	was := a.live
	a.live = false
	return was
}

// pick chooses the next task; nil if none can run even after the clock jumps.
//
//go:norace
func pick(forced bool) *task {
	for {
		ring()
		cnt := 0
		for i := 0; i < s.n; i++ {
			if runnable(s.tasks[i]) {
				cnt++
			}
		}
		if cnt > 0 {
			break
		}
		// nothing runnable: jump to the next wake-up
		best := int64(-1)
		for i := 0; i < s.n; i++ {
			t := s.tasks[i]
			if !t.done && t.blocked == nil && (best < 0 || t.wake < best) {
				best = t.wake
			}
		}
		if a := nextAlarm(); a >= 0 && (best < 0 || a < best) {
			best = a
		}
		if best < 0 || s.steps >= s.cfg.Budget {
			return nil
		}
		s.now = max(s.now, best)
	}
	switch s.cfg.Strat.Kind {
	case "script":
		for s.scriptI < len(s.cfg.Script) && s.cfg.Script[s.scriptI].Step <= s.steps {
			w := s.cfg.Script[s.scriptI]
			s.scriptI++
			if w.To < s.n && runnable(s.tasks[w.To]) {
				return s.tasks[w.To]
			}
		}
		if !forced && runnable(s.cur) {
			return s.cur
		}
		return firstRunnable()
	case "pct":
		var b *task
		for i := 0; i < s.n; i++ {
			if t := s.tasks[i]; runnable(t) && (b == nil || t.prio > b.prio) {
				b = t
			}
		}
		return b
	case "rr":
		for i := 1; i <= s.n; i++ {
			if t := s.tasks[(s.cur.id+i)%s.n]; runnable(t) {
				return t
			}
		}
		return nil
	case "serial":
		if !forced && runnable(s.cur) {
			return s.cur
		}
		return firstRunnable()
	default:
		cnt := 0
		for i := 0; i < s.n; i++ {
			if t := s.tasks[i]; runnable(t) && (forced || t != s.cur || s.n == 1) {
				cnt++
			}
		}
		if cnt == 0 {
			return s.cur
		}
		k := int(rnd() % uint64(cnt))
		for i := 0; i < s.n; i++ {
			if t := s.tasks[i]; runnable(t) && (forced || t != s.cur || s.n == 1) {
				if k == 0 {
					return t
				}
				k--
			}
		}
		return nil
	}
}

//go:norace
func firstRunnable() *task {
	for i := 0; i < s.n; i++ {
		if runnable(s.tasks[i]) {
			return s.tasks[i]
		}
	}
	return nil
}

//go:norace
func record(to int) {
	s.lastSw = s.steps
	s.hash = (s.hash ^ uint64(s.steps)) * 0x100000001b3
	s.hash = (s.hash ^ uint64(to+1)) * 0x100000001b3
	if len(s.rec) < maxSwitch {
		s.rec = append(s.rec, Switch{s.steps, to})
	} else {
		s.overflow = true
	}
}

// preempt offers the processor to another task at a point where the current one could go on.
//
//go:norace
func preempt() {
	if s.cfg.Strat.Kind == "pct" {
		for i := 0; i < s.nchanges; i++ {
			if s.changes[i] == s.steps {
				s.lowPrio--
				s.cur.prio = s.lowPrio
			}
		}
	}
	me := s.cur
	if s.steps-s.lastSw >= starve && s.cfg.Strat.Kind != "script" {
		starved()
		return
	}
	t := pick(false)
	schedNext()
	if t == nil || t == me {
		return
	}
	handOver(me, t)
}

//go:norace
func handOver(me, t *task) {
	record(t.id)
	s.cur = t
	hide()
	t.ch <- struct{}{}
	<-me.ch
	unhide()
	if s.abort != 0 {
		abortNow()
	}
}

// starved lets another task run, whatever the strategy says; if the others all sleep, time passes.
//
//go:norace
func starved() {
	me := s.cur
	s.lowPrio--
	me.prio = s.lowPrio
	s.lastSw = s.steps
	any := false
	var sleeper *task
	for i := 1; i < s.n; i++ {
		t := s.tasks[(me.id+i)%s.n]
		if runnable(t) {
			any = true
		} else if !t.done && t.blocked == nil && (sleeper == nil || t.wake < sleeper.wake) {
			sleeper = t
		}
	}
	if !any {
		at := nextAlarm()
		if sleeper != nil && (at < 0 || sleeper.wake < at) {
			at = sleeper.wake
		}
		s.now = max(s.now, at)
		ring()
	}
	for i := 1; i < s.n; i++ {
		if t := s.tasks[(me.id+i)%s.n]; runnable(t) {
			schedNext()
			handOver(me, t)
			return
		}
	}
	schedNext()
}

// Yield is runtime.Gosched.
//
//go:norace
func Yield() {
	if !s.active {
		return
	}
	s.steps++
	s.cur.steps++
	if s.steps >= s.cfg.Budget || s.abort != 0 {
		slow()
		return
	}
	starved()
}

// Poll waits a little for something that may come from outside the simulation; n is how often it has
// been waited for already.
//
//go:norace
func Poll(n int) {
	if !s.active {
		time.Sleep(time.Millisecond)
		return
	}
	if n > 200 {
		time.Sleep(20 * time.Microsecond)
	}
	Sleep(1000)
}

// Choose is a choice of the library's runtime among n.
//
//go:norace
func Choose(n int) int {
	s.mapRng = s.mapRng*6364136223846793005 + 1442695040888963407
	return int((s.mapRng >> 33) % uint64(n))
}

// yieldBlocked gives the processor away because the current task cannot go on.
//
//go:norace
func yieldBlocked() {
	me := s.cur
	t := pick(true)
	if t == nil {
		// every live task waits for a lock held by one that will never release it
		if s.callers > 0 {
			s.deadlock = true
			s.abort = 2
		} else {
			s.abort = 3 // idle goroutines of the library
		}
		me.blocked = nil
		s.next = 0
		abortNow()
	}
	s.forced++
	schedNext()
	if t == me {
		return
	}
	record(t.id)
	s.cur = t
	hide()
	t.ch <- struct{}{}
	<-me.ch
	unhide()
	if s.abort != 0 {
		abortNow()
	}
}

// Sleep suspends the current task for d simulated nanoseconds.
//
//go:norace
func Sleep(d int64) {
	if !s.active || d <= 0 {
		return
	}
	s.steps++
	if s.steps >= s.cfg.Budget || s.abort != 0 {
		slow()
	}
	s.cur.wake = s.now + d
	yieldBlocked()
}

// Now is the simulated clock.
//
//go:norace
func Now() int64 { return s.now }

// Clock is the time of day as the library sees it: the simulated clock and 100 ns for every statement.
//
//go:norace
func Clock() int64 { return epoch + s.now + s.steps*100 }

var epoch int64 // runs follow each other in time

// Ending says that only what the library has started is still running.
//
//go:norace
func Ending() bool { return s.active && s.callers == 0 }

// Advance moves the simulated clock on (work that takes time without giving the processor away).
//
//go:norace
func Advance(d int64) {
	if s.active {
		s.now += d
	}
}

// Seq is a global event sequence number.
//
//go:norace
func Seq() int64 { s.seq++; return s.seq }

// Steps is the number of library statements and I/O points the current task has executed.
//
//go:norace
func Steps() int64 {
	if s.cur == nil {
		return 0
	}
	return s.cur.steps
}

// Local is the harness's value attached to the current task.
//
//go:norace
func Local() any {
	if s.cur == nil {
		return nil
	}
	return s.cur.local
}

// SetLocal attaches a value to the current task.
//
//go:norace
func SetLocal(v any) {
	if s.cur != nil {
		s.cur.local = v
	}
}

// CurID is the id of the running task, -1 outside a run.
//
//go:norace
func CurID() int {
	if s.cur == nil || !s.active {
		return -1
	}
	return s.cur.id
}

// Aborting says whether the run has been declared dead.
//
//go:norace
func Aborting() bool { return s.abort != 0 }

// Active says whether a simulation is running.
//
//go:norace
func Active() bool { return s.active }

// BlockOn suspends the current task until WakeAll(key).
//
//go:norace
func BlockOn(key unsafe.Pointer) {
	if !s.active {
		panic(Abort{"lock held for ever outside a run"})
	}
	s.steps++
	s.cur.steps++
	if s.steps >= s.cfg.Budget || s.abort != 0 {
		slow()
	}
	s.cur.blocked = key
	yieldBlocked()
}

// WakeAll makes the tasks waiting for key runnable again.
//
//go:norace
func WakeAll(key unsafe.Pointer) {
	for i := 0; i < s.n; i++ {
		if s.tasks[i].blocked == key {
			s.tasks[i].blocked = nil
		}
	}
}

// PoolChoice is the seam for sync.Pool: true means "behave as if the pool were empty".
//
//go:norace
func PoolChoice() bool {
	switch s.cfg.PoolMode {
	case 1:
		return true
	case 2:
		s.mapRng = s.mapRng*6364136223846793005 + 1442695040888963407
		return (s.mapRng>>33)%3 == 0
	}
	return false
}

//go:norace
func mapSeed() uint64 {
	s.mapRange++
	if s.cur == nil {
		s.mapRng = s.mapRng*6364136223846793005 + 1442695040888963407
		return s.mapRng
	}
	s.cur.mapN++
	z := s.cfg.Seed ^ (uint64(s.cur.id+1) * 0x9E3779B97F4A7C15) ^ (s.cur.mapN * 0xBF58476D1CE4E5B9)
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func mapMode() int { return s.cfg.MapMode }

//go:norace
func anyRunnable() *task {
	for i := 0; i < s.n; i++ {
		if runnable(s.tasks[i]) {
			return s.tasks[i]
		}
	}
	return nil
}

//go:norace
func finish(t *task) {
	t.done = true
	if !t.lib {
		s.callers--
	}
	if s.abort == 0 && s.callers == 0 {
		// the callers are gone: what the library has started itself goes on as long as it can
		if n := anyRunnable(); n != nil {
			s.forced++
			schedNext()
			record(n.id)
			s.cur = n
			hide()
			n.ch <- struct{}{}
			unhide()
			return
		}
		for i := 0; i < s.n; i++ {
			if !s.tasks[i].done {
				s.left++
			}
		}
		s.abort = 3
		s.next = 0
	}
	if s.abort != 0 {
		// drain: resume any other unfinished task so that it can unwind
		for i := 0; i < s.n; i++ {
			if u := s.tasks[i]; !u.done {
				u.blocked = nil
				u.wake = 0
				s.cur = u
				hide()
				u.ch <- struct{}{}
				unhide()
				return
			}
		}
		s.active = false
		hide()
		s.done <- struct{}{}
		unhide()
		return
	}
	left := false
	for i := 0; i < s.n; i++ {
		if !s.tasks[i].done {
			left = true
		}
	}
	if !left {
		s.active = false
		hide()
		s.done <- struct{}{}
		unhide()
		return
	}
	n := pick(true)
	if n == nil {
		s.deadlock = true
		s.abort = 2
		s.next = 0
		for i := 0; i < s.n; i++ {
			if u := s.tasks[i]; !u.done {
				n = u
				break
			}
		}
		n.blocked = nil
	} else {
		s.forced++
		schedNext()
		record(n.id)
	}
	s.cur = n
	hide()
	n.ch <- struct{}{}
	unhide()
}

func start(t *task, f func()) {
	s.wg.Add(1)
	go runTask(t, f)
}

//go:norace
func runTask(t *task, f func()) {
	defer s.wg.Done()
	hide()
	<-t.ch
	unhide()
	if s.abort == 0 {
		if t.lib {
			callLib(f)
		} else {
			call(f)
		}
	}
	finish(t)
}

// callLib runs a goroutine of the library. A panic that leaves it would end a real process.
func callLib(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Abort); !ok {
				crash(r)
			}
		}
	}()
	f()
}

//go:norace
func crash(v any) {
	if !s.crashed {
		s.crashed, s.crash = true, v
	}
}

// call runs f; an Abort that reaches the top of a task ends that task quietly, any other panic is
// the harness's own fault and is left to kill the process.
func call(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Abort); ok {
				return
			}
			if e, ok := r.(error); ok {
				var a Abort
				if asAbort(e, &a) {
					return
				}
			}
			panic(r)
		}
	}()
	f()
}

func asAbort(e error, a *Abort) bool {
	for e != nil {
		if v, ok := e.(Abort); ok {
			*a = v
			return true
		}
		u, ok := e.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		e = u.Unwrap()
	}
	return false
}

// Go is what a go statement of the library becomes: a further task of the run.
//
//go:norace
func Go(f func()) {
	if !s.active {
		go f()
		return
	}
	Spawn(f)
	Point()
}

// Spawn is Go without a chance for the new task to run at once.
//
//go:norace
func Spawn(f func()) {
	spawned++
	i := s.n
	for k := s.nCall; k < s.n; k++ {
		if s.tasks[k].done {
			i = k
			break
		}
	}
	if i == maxTasks {
		panic(Abort{"too many goroutines"})
	}
	t := &task{id: i, ch: make(chan struct{}, 1), local: s.cur.local, prio: int64(1 + rnd()>>8), lib: true}
	s.tasks[i] = t
	if i == s.n {
		s.n++
	}
	start(t, f)
}

var spawned int

// Run executes the tasks under cfg and returns when all have ended.
func Run(cfg Config, fns []func()) Stats {
	s.cfg = cfg
	s.n = 0
	epoch += s.now + s.steps*100 + int64(time.Minute)
	s.steps, s.points, s.now, s.seq = 0, 0, 0, 0
	s.rng = cfg.Seed*0x9E3779B97F4A7C15 + 0x1234567
	s.mapRng = cfg.Seed ^ 0xABCDEF
	s.rec = s.rec[:0]
	s.alarms, s.alarmMin = nil, 1<<62
	s.forced, s.scriptI, s.abort = 0, 0, 0
	s.runaway, s.deadlock, s.overflow = false, false, false
	s.mapRange = 0
	s.hash = 14695981039346656037
	s.lowPrio = 0
	s.done = make(chan struct{}, 1)
	if s.cfg.Budget <= 0 {
		s.cfg.Budget = 1 << 40
	}
	s.nchanges = 0
	if cfg.Strat.Kind == "pct" {
		l := cfg.Strat.Len
		if l < 2 {
			l = 2
		}
		for i := 0; i < cfg.Strat.D && i < len(s.changes); i++ {
			s.changes[i] = 1 + int64(rnd()%uint64(l))
			s.nchanges++
		}
	}
	for i, f := range fns {
		t := &task{id: i, ch: make(chan struct{}, 1), prio: int64(1 + rnd()>>8)}
		s.tasks[i] = t
		s.n++
		start(t, f)
	}
	s.callers, s.nCall = len(fns), len(fns)
	s.crashed, s.crash, spawned, s.lastSw, s.left = false, nil, 0, 0, 0
	s.active = true
	s.cur = s.tasks[0]
	var first *task
	switch cfg.Strat.Kind {
	case "script":
		first = pick(true)
	default:
		first = pick(true)
	}
	schedNext()
	record(first.id)
	s.cur = first
	first.ch <- struct{}{}
	<-s.done
	s.wg.Wait()
	s.active = false
	s.cur = nil
	st := Stats{Steps: s.steps, Points: s.points, Forced: s.forced, Now: s.now + s.steps*100,
		Runaway: s.runaway, Deadlock: s.deadlock, Overflow: s.overflow, MapRange: s.mapRange, Hash: s.hash}
	st.Crashed, st.Crash, st.Spawned, st.Left = s.crashed, s.crash, spawned, s.left
	st.Switches = append([]Switch(nil), s.rec...)
	return st
}

var resets []func()

// OnReset registers a function that forgets simulated state kept across runs (pools).
func OnReset(f func()) { resets = append(resets, f) }

var poolResets = make([]func(), 0, 1<<14) // never grown in a run: the race detector watches that

// OnNextReset registers a function that is called once.
//
//go:norace
func OnNextReset(f func()) { poolResets = append(poolResets, f) }

// Reset forgets such state; called before every run.
func Reset() {
	for _, f := range resets {
		f()
	}
	for _, f := range poolResets {
		f()
	}
	clear(poolResets)
	poolResets = poolResets[:0]
}

// Forget lets go of everything that belongs to past runs.
func Forget() {
	Reset()
	forgetChans()
	s.cfg = Config{}
	s.tasks = [maxTasks]*task{}
	s.n, s.cur, s.alarms, s.crash, s.done = 0, nil, nil, nil, nil
}
