// Package simrt is the simulator: it owns the schedule, the clock, random
// numbers and faults of the code under test. Tasks are goroutines of which
// exactly one runs at a time; who runs, and for how many scheduling points, is
// decided here from a plan that is a pure function of a seed or a replay file.
package simrt

import (
	"context"
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

// Decision is one scheduling step: task T ran and was preempted after N
// scheduling points (N < 0: it ran until it blocked, slept or finished).
type Decision struct {
	T int   `json:"t"`
	N int64 `json:"n"`
}

// SchedPlan says how the next task and its slice are chosen.
type SchedPlan struct {
	Policy  string     `json:"policy"`            // seq, random, pct, site, replay
	Mean    int        `json:"mean,omitempty"`    // mean slice of the random policy
	Seed    uint64     `json:"seed,omitempty"`    // stream of the policy
	Depth   int        `json:"depth,omitempty"`   // pct: number of priority changes
	Horizon int        `json:"horizon,omitempty"` // pct: expected length
	Sites   []int32    `json:"sites,omitempty"`   // site: preempt/stall at these statements
	Stall   int        `json:"stall,omitempty"`   // site: slices the task stays parked
	Trace   []Decision `json:"trace,omitempty"`   // replay
}

// ClockPlan is the simulated wall clock.
type ClockPlan struct {
	Start int64   `json:"start"`           // unix seconds at the beginning
	Nanos int64   `json:"nanos,omitempty"` // plus nanoseconds
	Tick  int64   `json:"tick,omitempty"`  // nanoseconds added per reading
	Jumps []Jump  `json:"jumps,omitempty"` // steps applied at the nth reading
	Zone  string  `json:"zone,omitempty"`  // POSIX TZ rule of the process
	Step  []int64 `json:"step,omitempty"`  // per-scheduling-slice advance (ns), cycled
}

type Jump struct {
	At    int   `json:"at"`
	Delta int64 `json:"delta"` // nanoseconds
}

type state int

const (
	ready state = iota
	blocked
	sleeping
	done
)

// Proc is a simulated process: a crash domain with its own arguments,
// environment, standard streams and exit status.
type Proc struct {
	Name   string
	Args   []string
	Env    map[string]string
	Dir    string
	Dead   bool
	Code   int    // exit status
	How    string // "return", "exit", "killed", "panic"
	KillAt int64  // kill after this many scheduling points of the process (0: never)
	Steps  int64
	Ext    interface{} // simos state
	Log    interface{} // its standard logger
}

type Task struct {
	ID       int
	Name     string
	Proc     *Proc
	sim      *Sim
	wake     chan struct{}
	st       state
	key      unsafe.Pointer // what it is blocked on
	budget   int64
	ran      int64 // points in the current slice
	steps    int64
	until    int64 // sleeping
	stalled  int
	prio     int
	Panic    interface{}
	Stack    string
	body     func()
	lastSite int32
	caller   bool // spawned by the harness, not by a go statement
	polls    bool // may have to look again, see blockPoll
	idle     bool // looked again in vain
	running  bool // its goroutine exists
}

type timer struct {
	at   int64
	seq  int
	fire func()
	dead bool
}

// Sim is one simulated run.
type Sim struct {
	Plan   SchedPlan
	Clock  ClockPlan
	rng    *Rand // schedule stream
	Aux    *Rand // stream for buggify decisions (map order, pools)
	tasks  []*Task
	live   []*Task // those not known to be done
	back   chan int
	now    int64 // simulated monotonic ns
	skew   int64
	reads  int
	log    [][2]int64 // clock readings: seconds, nanoseconds
	slices int
	timers []*timer
	tseq   int
	chans  []*simChan

	Trace     []Decision
	Hash      uint64 // digest of the interleaving (task, site) sequence
	Yields    int64
	Preempts  int64
	Stalls    int64
	Limit     int64
	Stuck     string // deadlock / step-limit description
	after     int
	polled    bool
	locked    bool
	replayPos int
	Visited   []bool
	siteHits  []int32
	counters  []counter
	Blobs     func(key, lit string) string
	changes   map[int64]bool
	started   bool
	MaxPar    int
	Pairs     map[uint64]bool // (statement a caller was preempted at, statement the next one continued from)
	Notes     []string
}

// Sites is the number of scheduling-point sites of the instrumented packages
// (the harness sets it at start).
var Sites int

var (
	cur *Task // the running task; nil outside simulated code
	act *Sim  // the active simulation
)

func NewSim(plan SchedPlan, clock ClockPlan, auxSeed uint64) *Sim {
	s := &Sim{Plan: plan, Clock: clock, rng: NewRand(plan.Seed), Aux: NewRand(auxSeed), back: make(chan int), Limit: 100_000_000,
		Visited: make([]bool, Sites+1)}
	if plan.Policy == "pct" {
		s.changes = map[int64]bool{}
		for i := 0; i < plan.Depth; i++ {
			s.changes[int64(s.rng.Intn(plan.Horizon+1))] = true
		}
	}
	return s
}

// Active returns the simulation in progress, or nil.
//
//go:norace
func Active() *Sim { return act }

//go:norace
func setAct(s *Sim) { act = s }

//go:norace
func setCur(t *Task) { cur = t }

//go:norace
func Cur() *Task { return cur }

// CurProc is the process of the running task.
//
//go:norace
func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.Proc
}

// Spawn adds a task; call before Run.
func (s *Sim) Spawn(name string, p *Proc, body func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Proc: p, sim: s, wake: make(chan struct{}), body: body}
	if s.Plan.Policy == "pct" {
		t.prio = 1000 + s.rng.Intn(1000)
	}
	t.caller = true
	s.tasks = append(s.tasks, t)
	s.live = append(s.live, t)
	if s.started {
		t.goMain()
	}
	return t
}

func (t *Task) main() {
	t.park0()
	defer t.finish()
	defer func() {
		if r := recover(); r != nil {
			t.notePanic(r, string(debug.Stack()))
		}
	}()
	t.body()
}

//go:norace
func (t *Task) notePanic(r interface{}, stack string) {
	if t.Proc != nil && t.Proc.Dead {
		return // deferred calls of a task that no longer exists
	}
	t.Panic, t.Stack = r, stack
	if t.Proc != nil {
		t.Proc.Dead, t.Proc.How, t.Proc.Code = true, "panic", 2
	}
}

//go:norace
func (t *Task) park0() {
	raceDisable()
	<-t.wake
	raceEnable()
}

//go:norace
func (t *Task) finish() {
	t.st = done
	t.ran = -1
	RaceReleaseMerge(unsafe.Pointer(t))
	raceDisable()
	t.sim.back <- 1
	raceEnable()
}

// yield hands control back to the scheduler and waits to be chosen again.
//
//go:norace
func (t *Task) yield() {
	RaceReleaseMerge(unsafe.Pointer(t)) // acquired by whoever joins the task
	raceDisable()
	t.sim.back <- 1
	<-t.wake
	raceEnable()
	if t.Proc != nil && t.Proc.Dead {
		runtime.Goexit()
	}
}

// Y is the scheduling point the instrumenter puts before every statement.
//
//go:norace
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	t.ran++
	t.lastSite = site
	s := t.sim
	if p := t.Proc; p != nil {
		p.Steps++
		if p.KillAt > 0 && p.Steps == p.KillAt {
			p.Dead, p.How, p.Code = true, "killed", 137
		}
		if p.Dead {
			runtime.Goexit()
		}
	}
	if int(site) < len(s.Visited) {
		s.Visited[site] = true
	}
	t.budget--
	if t.budget > 0 {
		if s.Plan.Sites == nil || s.Preempts > manySwitch {
			return
		}
		for _, x := range s.Plan.Sites {
			if x == site {
				t.stalled = s.Plan.Stall
				goto out
			}
		}
		return
	}
out:
	t.st = ready
	t.yield()
}

// blockPoll parks a task that waits for channels, which code outside the
// simulator may also serve: pick lets it look again before time advances.
//
//go:norace
func blockPoll(key unsafe.Pointer, idle bool) {
	t := cur
	if t == nil {
		panic("simrt: blocking operation outside a simulation can never return")
	}
	t.polls, t.idle = true, idle
	Block(key)
	t.polls, t.idle = false, false
}

// Block parks the running task until Wake(key).
//
//go:norace
func Block(key unsafe.Pointer) {
	t := cur
	if t == nil {
		panic("simrt: blocking operation outside a simulation can never return")
	}
	t.st, t.key = blocked, key
	t.ran = -1
	t.yield()
}

//go:norace
func Wake(key unsafe.Pointer) {
	s := act
	if s == nil {
		return
	}
	for i := 0; i < len(s.live); i++ {
		t := s.live[i]
		if t.st == blocked && t.key == key {
			t.st, t.key = ready, nil
		}
	}
}

// Go is the go statement of instrumented code.
func Go(f func()) {
	if Active() == nil {
		return // initialisers at the start of the harness; every simulated process repeats them
	}
	goIn(CurProc(), f)
}

func goIn(p *Proc, f func()) {
	s := Active()
	s.count("goroutine")
	t := &Task{Name: "go", Proc: p, sim: s, wake: make(chan struct{}), body: f}
	s.adopt(t)
	t.goMain()
}

//go:norace
func (s *Sim) adopt(t *Task) {
	t.ID = len(s.tasks)
	if s.Plan.Policy == "pct" {
		t.prio = 1000 + s.rng.Intn(1000)
	}
	s.tasks = Push(s.tasks, t)
	s.live = Push(s.live, t)
}

type counter struct {
	name string
	n    int64
}

// count uses no map: the run-time reports map accesses to the race detector
// even for functions that are not instrumented.
//
//go:norace
func (s *Sim) count(k string) {
	for i := range s.counters {
		if s.counters[i].name == k {
			s.counters[i].n++
			return
		}
	}
	s.counters = Push(s.counters, counter{k, 1})
}

// Counts lists the faults and rare conditions of the run.
func (s *Sim) Counts() map[string]int64 {
	m := map[string]int64{}
	for _, c := range s.counters {
		m[c.name] = c.n
	}
	return m
}

// Push is append without the race detector noticing.
//
//go:norace
func Push[T any](a []T, v T) []T {
	n := len(a)
	if n == cap(a) {
		b := make([]T, n, 2*n+4)
		for i := 0; i < n; i++ {
			b[i] = a[i]
		}
		a = b
	}
	a = a[:n+1]
	a[n] = v
	return a
}

// Count records that a fault or rare condition occurred.
func Count(k string) {
	if s := Active(); s != nil {
		s.count(k)
	}
}

const (
	maxSlice   = 400_000
	afterlife  = 3000 // slices background goroutines get when the callers are done
	manySwitch = 3000 // involuntary switches after which a run coarsens its slices
)

// Run schedules until every task is done.
//
//go:norace
func (s *Sim) Run() {
	s.started = true
	setAct(s)
	for i := 0; i < len(s.tasks); i++ {
		s.tasks[i].goMain()
	}
	raceDisable()
	s.Pairs = map[uint64]bool{}
	var spent *Task
	var prev *Task // preempted in the last slice
	for {
		t := s.pick()
		if t == nil {
			break
		}
		s.slices++
		if prev != nil && prev != t {
			s.Pairs[uint64(uint32(prev.lastSite))<<32|uint64(uint32(t.lastSite))] = true
		}
		prev = nil
		if n := len(s.Clock.Step); n > 0 {
			s.now += s.Clock.Step[s.slices%n]
		}
		s.setSlice(t)
		b := t.budget
		t.ran = 0
		setCur(t)
		t.wake <- struct{}{}
		<-s.back
		setCur(nil)
		if t.st != blocked || !t.idle {
			s.polled = false
		}
		n := t.ran
		if n > 0 {
			s.Yields += n
		} else {
			s.Yields += b - t.budget
		}
		if t.st == ready && n >= 0 {
			s.Preempts++
			prev = t
			if t.stalled > 0 {
				s.Stalls++
			}
			if s.Plan.Policy == "pct" {
				t.prio = -s.slices // a task that used up its slice drops below the others
			}
		} else {
			n = -1
		}
		s.Trace = append(s.Trace, Decision{t.ID, n})
		s.Hash = Mix(s.Hash, uint64(t.ID), uint64(uint32(t.lastSite)), uint64(t.st))
		if s.Yields > s.Limit {
			spent = t
			break
		}
	}
	raceEnable()
	setAct(nil)
	// joining the finished tasks orders their writes before ours
	for i := 0; i < len(s.tasks); i++ {
		s.tasks[i].join()
	}
	switch {
	case s.locked:
		s.Stuck = s.describeBlocked()
	case spent != nil:
		s.Stuck = fmt.Sprintf("no progress: more than %d steps; last task %d (%s) at site %d", s.Limit, spent.ID, spent.Name, spent.lastSite)
	}
}

//go:norace
func (t *Task) goMain() {
	if !t.running {
		t.running = true
		go t.main()
	}
}

// Inherit takes over what outlives the callers of an earlier simulation of the
// same process: its background goroutines, its timers and what is in its
// channels. p is the process they belong to from now on.
//
//go:norace
func (s *Sim) Inherit(o *Sim, p *Proc) {
	if o == nil {
		return
	}
	for _, c := range o.chans {
		s.chans = Push(s.chans, c)
	}
	for _, tm := range o.timers {
		if !tm.dead {
			tm.at -= o.now
			s.tseq++
			tm.seq = s.tseq
			s.timers = Push(s.timers, tm)
		}
	}
	for _, t := range o.tasks {
		if t.st == done || t.caller || t.Proc != nil && t.Proc.Dead {
			continue
		}
		t.sim, t.Proc = s, p
		t.until -= o.now
		s.adopt(t)
	}
	o.chans, o.timers, o.tasks = nil, nil, o.tasks[:0:0]
}

// Reap ends the goroutines that are left of a process.
//
//go:norace
func (s *Sim) Reap() {
	dead := &Proc{Dead: true, How: "killed"}
	setAct(s)
	raceDisable()
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		t.Proc = dead
		for k := 0; t.running && t.st != done && k < 100; k++ {
			t.st, t.budget = ready, 0
			setCur(t)
			t.wake <- struct{}{}
			<-s.back
			setCur(nil)
		}
	}
	raceEnable()
	setAct(nil)
}

// join gives the race detector the edge from a finished task to the caller.
func (t *Task) join() { RaceAcquire(unsafe.Pointer(t)) }

// pick chooses the next task; nil means the run is over.
//
//go:norace
func (s *Sim) pick() *Task {
	for {
		var rd [64]*Task
		n, callers := 0, 0
		var nextAt int64 = -1
		k := 0
		for i := 0; i < len(s.live); i++ {
			if s.live[i].st != done {
				s.live[k] = s.live[i]
				k++
			}
		}
		s.live = s.live[:k]
		for i := 0; i < len(s.live); i++ {
			t := s.live[i]
			if t.caller && t.st != done {
				callers++
			}
			switch t.st {
			case ready:
				if n < len(rd) {
					rd[n] = t
					n++
				}
			case blocked:
				if t.Proc != nil && t.Proc.Dead && n < len(rd) {
					t.st = ready
					rd[n] = t
					n++
				}
			case sleeping:
				if t.Proc != nil && t.Proc.Dead && n < len(rd) {
					t.st = ready
					rd[n] = t
					n++
				} else if nextAt < 0 || t.until < nextAt {
					nextAt = t.until
				}
			}
		}
		if n > s.MaxPar {
			s.MaxPar = n
		}
		if callers == 0 {
			// background goroutines go on for a while: the callers are done
			if s.after++; s.after > afterlife || n == 0 {
				return nil
			}
		}
		if n > 0 {
			return s.choose(rd[:n])
		}
		if !s.polled {
			s.polled = true
			for i := 0; i < len(s.live); i++ {
				if t := s.live[i]; t.st == blocked && t.polls {
					t.st, t.key = ready, nil
				}
			}
			continue
		}
		for _, tm := range s.timers {
			if !tm.dead && (nextAt < 0 || tm.at < nextAt) {
				nextAt = tm.at
			}
		}
		if nextAt < 0 {
			s.locked = true
			return nil
		}
		if nextAt > s.now {
			s.now = nextAt
		}
		s.fireTimers()
		for i := 0; i < len(s.live); i++ {
			if t := s.live[i]; t.st == sleeping && t.until <= s.now {
				t.st = ready
			}
		}
	}
}

//go:norace
func (s *Sim) describeBlocked() string {
	d := "deadlock: every unfinished caller is blocked:"
	for _, t := range s.tasks {
		if t.st == blocked {
			id, site := t.ID, t.lastSite
			d += fmt.Sprintf(" task %d (%s) at site %d;", id, t.Name, site)
		}
	}
	return d
}

//go:norace
func (s *Sim) choose(rd []*Task) *Task {
	switch s.Plan.Policy {
	case "replay":
		for s.replayPos < len(s.Plan.Trace) {
			d := s.Plan.Trace[s.replayPos]
			for _, t := range rd {
				if t.ID == d.T {
					return t
				}
			}
			s.replayPos++ // that task cannot run now: drop the decision
		}
		// past the recorded trace: lowest task first, rotating on slice end
		return rd[s.slices%len(rd)]
	case "random", "site":
		free := 0
		for _, t := range rd {
			if t.stalled == 0 {
				free++
			} else if len(rd) > 1 {
				t.stalled--
			}
		}
		if free == 0 {
			return rd[s.rng.Intn(len(rd))]
		}
		k := s.rng.Intn(free)
		for _, t := range rd {
			if t.stalled == 0 {
				if k == 0 {
					return t
				}
				k--
			}
		}
		return rd[0]
	case "pct":
		best := rd[0]
		for _, t := range rd {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	return rd[0]
}

//go:norace
func (s *Sim) setSlice(t *Task) {
	t.budget = maxSlice
	switch s.Plan.Policy {
	case "random":
		if s.Plan.Mean > 0 {
			t.budget = int64(1 + s.rng.Intn(2*s.Plan.Mean))
			if s.Preempts > manySwitch {
				t.budget += int64(s.rng.Intn(40_000))
			}
		}
	case "site":
		if s.Plan.Mean > 0 {
			t.budget = int64(1 + s.rng.Intn(2*s.Plan.Mean))
			if s.Preempts > manySwitch {
				t.budget += int64(s.rng.Intn(40_000))
			}
		}
	case "pct":
		// run to the next priority change point
		b := int64(maxSlice)
		for at := range s.changes {
			if d := at - s.Yields; d > 0 && d < b {
				b = d
			}
		}
		t.budget = b
	case "replay":
		if s.replayPos < len(s.Plan.Trace) {
			d := s.Plan.Trace[s.replayPos]
			s.replayPos++
			if d.N > 0 {
				t.budget = d.N
			}
		}
	}
}

// ---- clock ----

//go:norace
func (s *Sim) readClock() (int64, int64) {
	s.reads++
	s.skew += s.Clock.Tick
	for _, j := range s.Clock.Jumps {
		if j.At == s.reads {
			s.skew += j.Delta
			s.count("clock-jump")
		}
	}
	s.log = Push(s.log, [2]int64{s.Clock.Start, s.Clock.Nanos + s.now + s.skew})
	return s.Clock.Start, s.Clock.Nanos + s.now + s.skew
}

// Reads is how often the code under test read the clock.
//
//go:norace
func (s *Sim) Reads() int { return s.reads }

// Readings lists the clock readings from the ith on.
//
//go:norace
func (s *Sim) Readings(i int) (out []time.Time) {
	for ; i < len(s.log); i++ {
		out = append(out, time.Unix(s.log[i][0], s.log[i][1]))
	}
	return
}

// ClockAt is what the clock shows, without counting as a reading.
//
//go:norace
func (s *Sim) ClockAt() time.Time {
	return time.Unix(s.Clock.Start, s.Clock.Nanos+s.now+s.skew)
}

// Elapsed is the simulated time that passed, steps of the wall clock apart.
//
//go:norace
func (s *Sim) Elapsed() time.Duration {
	return time.Duration(s.now + int64(s.reads)*s.Clock.Tick)
}

func TimeNow() time.Time {
	s := Active()
	if s == nil {
		return time.Unix(1_000_000_000, 0)
	}
	sec, ns := s.readClock()
	s.count("clock-read")
	return time.Unix(sec+ns/1e9, ns%1e9)
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

//go:norace
func TimeSleep(d time.Duration) {
	t := cur
	if t == nil {
		return
	}
	t.st, t.until = sleeping, t.sim.now+int64(d)
	t.ran = -1
	t.yield()
}

type TimeTimer struct {
	C  <-chan time.Time
	tm *timer
}

func (t *TimeTimer) Stop() bool { was := !t.tm.dead; t.tm.dead = true; return was }
func (t *TimeTimer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.tm = Active().addTimer(d, t.tm.fire)
	return was
}

// TimeTicker stands for time.Ticker.
type TimeTicker struct {
	C  <-chan time.Time
	c  chan time.Time
	tm *timer
}

func (t *TimeTicker) start(d time.Duration) {
	t.tm = Active().addTimer(d, func() {
		t.start(d)
		if ChanLen(t.C) == 0 {
			Send(t.c)(fireTime())
		}
	})
}
func (t *TimeTicker) Stop()                 { t.tm.dead = true }
func (t *TimeTicker) Reset(d time.Duration) { t.Stop(); t.start(d) }

func TimeNewTicker(d time.Duration) *TimeTicker {
	c := make(chan time.Time, 1)
	t := &TimeTicker{C: c, c: c}
	t.start(d)
	return t
}
func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

//go:norace
func (s *Sim) addTimer(d time.Duration, f func()) *timer {
	if s.tseq++; s.tseq%64 == 0 {
		k := 0
		for i := 0; i < len(s.timers); i++ {
			if !s.timers[i].dead {
				s.timers[k] = s.timers[i]
				k++
			}
		}
		s.timers = s.timers[:k]
	}
	tm := &timer{at: s.now + int64(d), seq: s.tseq, fire: f}
	s.timers = Push(s.timers, tm)
	return tm
}

func (s *Sim) fireTimers() {
	for {
		var best *timer
		for _, tm := range s.timers {
			if !tm.dead && tm.at <= s.now && (best == nil || tm.at < best.at || tm.at == best.at && tm.seq < best.seq) {
				best = tm
			}
		}
		if best == nil {
			return
		}
		best.dead = true
		best.fire()
	}
}

//go:norace
func fireTime() time.Time { return time.Unix(act.Clock.Start, act.now) }

func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

func TimeNewTimer(d time.Duration) *TimeTimer {
	c := make(chan time.Time, 1)
	return &TimeTimer{C: c, tm: Active().addTimer(d, func() { Send(c)(fireTime()) })}
}

func TimeAfterFunc(d time.Duration, f func()) *TimeTimer {
	p := CurProc()
	return &TimeTimer{tm: Active().addTimer(d, func() {
		if p == nil || !p.Dead {
			goIn(p, f)
		}
	})}
}

type simCtx struct {
	context.Context
	at  time.Time
	out bool
}

func (c *simCtx) Deadline() (time.Time, bool) { return c.at, true }

//go:norace
func (c *simCtx) Err() error {
	if err := c.Context.Err(); err != nil && c.out {
		return context.DeadlineExceeded
	} else {
		return err
	}
}

// CtxWithTimeout is context.WithTimeout on the simulated clock.
func CtxWithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if at, ok := parent.Deadline(); ok && !at.After(fireTime().Add(d)) {
		return context.WithCancel(parent)
	}
	ctx, cancel := context.WithCancelCause(parent)
	c := &simCtx{Context: ctx, at: fireTime().Add(d)}
	tm := Active().addTimer(d, func() { c.expire(); cancel(context.DeadlineExceeded) })
	return c, func() { tm.dead = true; cancel(context.Canceled) }
}

//go:norace
func (c *simCtx) expire() { c.out = c.Context.Err() == nil }

func CtxWithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	return CtxWithTimeout(parent, TimeUntil(at))
}

// ---- misc runtime ----

//go:norace
func Gosched() {
	if t := cur; t != nil {
		t.budget = 1
		Y(0)
	}
}

func NumCPU() int {
	if s := Active(); s != nil {
		return 1 + int(s.Plan.Seed%8)
	}
	return 4
}

func GOMAXPROCS(int) int { return NumCPU() }

// Tasks lists the tasks after Run.
func (s *Sim) Tasks() []*Task { return s.tasks }

func (t *Task) LastSite() int32 { return t.lastSite }

// Buggify flips a coin (1 in n) of the auxiliary stream.
//
//go:norace
func Buggify(name string, n int) bool {
	s := act
	if s == nil || s.Aux.Intn(n) != 0 {
		return false
	}
	s.count(name)
	return true
}

// AuxUint64 feeds random numbers the code under test asks for.
//
//go:norace
func AuxUint64() uint64 {
	if s := act; s != nil {
		return s.Aux.Uint64()
	}
	return 0x9e3779b97f4a7c15
}
