package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"fmt"
	"os"
	"strings"
	"time"

	"verifsim/simos"
	"verifsim/simrt"
)

// Driver runs and judges the workload of one property.
type Driver interface {
	Begin(e *Env)                                     // a run starts
	Restarted(e *Env)                                 // the process was restarted: volatile state is gone
	Do(e *Env, task int, op Op) string                // inside the simulation; touches only the task's own state
	Check(e *Env, task int, op Op, got string) string // after the phase; "" or what is wrong
	EndPhase(e *Env) string
	End(e *Env) string
}

// Base is a Driver that does nothing.
type Base struct{}

func (Base) Begin(*Env)                         {}
func (Base) Restarted(*Env)                     {}
func (Base) Do(*Env, int, Op) string            { return "" }
func (Base) Check(*Env, int, Op, string) string { return "" }
func (Base) EndPhase(*Env) string               { return "" }
func (Base) End(*Env) string                    { return "" }

// ProcMaker gives tasks a simulated process.
type ProcMaker interface {
	Proc(e *Env, task int) *simrt.Proc
}

type Prop struct {
	ID  string
	Gen func(r *simrt.Rand, c *Case)
	New func() Driver
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type result struct {
	op   Op
	got  string
	done bool
}

// Env is one simulated run in progress.
type Env struct {
	C      *Case
	Phase  int
	Ph     *Phase
	Sim    *simrt.Sim
	World  *simos.World
	Res    [][]result // of the phase
	SetRes []result
	Procs  []*simrt.Proc
	drv    Driver
	fired  map[string]bool // damaged keys that were handed out

	// totals
	Hash, CaseHash   uint64
	Yields, Preempts int64
	Ops              int64
	SimTime          time.Duration
	Counts           map[string]int64
	Visited          []bool
	Pairs            map[uint64]bool
	MaxPar           int
	Kills            int64
	prev             *simrt.Sim         // the last simulation of the running process
	Ends             []string           // how each process ended
	Traces           [][]simrt.Decision // of the main run of each phase
	Log              []string
}

// runCase executes a case; the verdict is a pure function of the case and the code.
func runCase(c *Case, keepLog bool) (*Env, *Violation) {
	p := props[c.Prop]
	e := &Env{C: c, drv: p.New(), Counts: map[string]int64{}, fired: map[string]bool{}, Pairs: map[uint64]bool{}}
	if simrt.Sites > 0 {
		e.Visited = make([]bool, simrt.Sites+1)
	}
	defer e.endProcess()
	w := simos.NewWorld()
	for _, f := range c.Faults {
		g := *f
		w.Faults = append(w.Faults, &g)
	}
	w.MaxChunk, w.KillOp, w.Torn = c.MaxChunk, c.KillOp, c.Torn
	simos.W, e.World = w, w
	simos.HostEnv = map[string]string{}
	for k, v := range c.Env {
		simos.HostEnv[k] = v
	}
	for i, ph := range c.Phases {
		e.Phase, e.Ph = i, ph
		if i == 0 || ph.Restart {
			if v := e.newProcess(); v != nil {
				return e, v
			}
			if i == 0 {
				e.drv.Begin(e)
			} else {
				e.drv.Restarted(e)
			}
		}
		if v := e.runPhase(ph); v != nil {
			if len(c.Phases) > 1 {
				v.Detail = fmt.Sprintf("phase %d: %s", i, v.Detail)
			}
			return e, v
		}
	}
	if d := e.drv.End(e); d != "" {
		return e, &Violation{classOf(&d, "mismatch"), d}
	}
	return e, nil
}

// newProcess gives the code under test the state of a process just started.
func (e *Env) newProcess() *Violation {
	simrt.BlobFunc = nil
	if len(e.C.Damage) > 0 {
		simrt.BlobFunc = func(key, lit string) string {
			for _, d := range e.C.Damage {
				if d.Key == key {
					e.fired[key] = true
					lit = damage(lit, d)
				}
			}
			return lit
		}
	}
	e.endProcess()
	s := e.simFor(e.Ph, simrt.SchedPlan{Policy: "seq"}, 3)
	s.Spawn("init", nil, resetPackages)
	v := e.finish(s, nil)
	simrt.BlobFunc = nil
	return v
}

func (e *Env) simFor(ph *Phase, plan simrt.SchedPlan, salt uint64) *simrt.Sim {
	time.Local = zone(ph.Clock.Zone)
	s := simrt.NewSim(plan, ph.Clock, simrt.Mix(ph.Aux, salt))
	e.Sim = s
	return s
}

func (e *Env) runPhase(ph *Phase) *Violation {
	if len(ph.Set) > 0 {
		e.SetRes = make([]result, 0, len(ph.Set))
		s := e.simFor(ph, simrt.SchedPlan{Policy: "seq"}, 1)
		s.Spawn("set", nil, func() {
			for _, o := range ph.Set {
				e.SetRes = append(e.SetRes, result{op: o})
				r := &e.SetRes[len(e.SetRes)-1]
				r.got = e.drv.Do(e, -1, o)
				r.done = true
			}
		})
		if v := e.finish(s, nil); v != nil {
			return v
		}
		for _, r := range e.SetRes {
			if d := e.drv.Check(e, -1, r.op, r.got); d != "" {
				return &Violation{classOf(&d, "mismatch"), d}
			}
		}
	}
	n := len(ph.Tasks)
	e.Res = make([][]result, n)
	e.Procs = make([]*simrt.Proc, n)
	s := e.simFor(ph, ph.Plan, 2)
	// callers of the library share one process, and a kill ends them all:
	// what they left in its memory, locks included, ends with it
	var lib *simrt.Proc
	pm, cli := e.drv.(ProcMaker)
	if !cli && len(ph.Kills) > 0 {
		lib = &simrt.Proc{Name: "library"}
		for _, k := range ph.Kills {
			if k.At > 0 && (lib.KillAt == 0 || k.At < lib.KillAt) {
				lib.KillAt = k.At
			}
		}
	}
	for i := range ph.Tasks {
		i := i
		ops := ph.Tasks[i]
		if cli {
			e.Procs[i] = pm.Proc(e, i)
			for _, k := range ph.Kills {
				if k.Task == i && k.At > 0 && e.Procs[i] != nil {
					e.Procs[i].KillAt = k.At
				}
			}
		} else {
			e.Procs[i] = lib
		}
		res := make([]result, len(ops))
		for j, o := range ops {
			res[j].op = o
		}
		e.Res[i] = res
		s.Spawn(fmt.Sprintf("caller%d", i), e.Procs[i], func() {
			for j := range ops {
				got := e.drv.Do(e, i, ops[j])
				res[j].got = got
				res[j].done = true
				simrt.Y(0)
			}
			if p := simrt.CurProc(); p != nil && p != lib && !p.Dead {
				p.How = "return"
				if len(p.Args) > 0 {
					p.Dead = true // its other goroutines end with it
				}
			}
		})
	}
	own := lib
	if cli && n > 0 {
		own = e.Procs[0]
	}
	v := e.finish(s, own)
	for len(e.Traces) <= e.Phase {
		e.Traces = append(e.Traces, nil)
	}
	e.Traces[e.Phase] = s.Trace
	for i, p := range e.Procs {
		if p == nil || p == lib && i > 0 {
			continue
		}
		end := fmt.Sprintf("%s %d", p.How, p.Code)
		if p.How == "killed" {
			e.Kills++
			end += fmt.Sprintf(" at %d", s.Tasks()[i].LastSite())
		}
		e.Ends = append(e.Ends, end)
	}
	if v != nil {
		return v
	}
	for i, rs := range e.Res {
		for _, r := range rs {
			if !r.done {
				continue
			}
			e.Ops++
			if d := e.drv.Check(e, i, r.op, r.got); d != "" {
				cl := classOf(&d, "mismatch")
				return &Violation{cl, fmt.Sprintf("caller %d: %s: %s", i, opStr(r.op), d)}
			}
		}
	}
	if d := e.drv.EndPhase(e); d != "" {
		return &Violation{classOf(&d, "mismatch"), d}
	}
	return nil
}

// history is a digest of the disk operations, the faults that hit them and
// the ends of the processes; 0 if there were none.
func (e *Env) history() uint64 {
	if e.World == nil || len(e.World.Log)+len(e.Ends) == 0 {
		return 0
	}
	return simrt.HashString(strings.Join(e.World.Log, "\n") + "\n" + strings.Join(e.Ends, "\n"))
}

// classOf splits a "class! text" detail.
func classOf(d *string, def string) string {
	if i := strings.Index(*d, "! "); i > 0 && i < 16 && !strings.ContainsAny((*d)[:i], " :") {
		c := (*d)[:i]
		*d = (*d)[i+2:]
		return c
	}
	return def
}

// endProcess ends what is left of the process of the last simulation.
func (e *Env) endProcess() {
	if e.prev != nil {
		e.prev.Reap()
		e.prev = nil
	}
}

// finish runs the simulation and judges how it ended.
func (e *Env) finish(s *simrt.Sim, own *simrt.Proc) *Violation {
	races := simrt.RaceErrors()
	s.Inherit(e.prev, own)
	e.prev = s
	s.Run()
	e.Hash = simrt.Mix(e.Hash, s.Hash)
	e.Yields += s.Yields
	e.Preempts += s.Preempts
	for k := range s.Pairs {
		e.Pairs[k] = true
	}
	e.SimTime += s.Elapsed()
	for k, n := range s.Counts() {
		e.Counts[k] += n
	}
	if s.Stalls > 0 {
		e.Counts["stall"] += s.Stalls
	}
	for i, b := range s.Visited {
		if b && i < len(e.Visited) {
			e.Visited[i] = true
		}
	}
	if s.MaxPar > e.MaxPar {
		e.MaxPar = s.MaxPar
	}
	if os.Getenv("SIM_LOG") != "" {
		for _, d := range s.Trace {
			e.Log = append(e.Log, fmt.Sprintf("phase %d task %d ran %d", e.Phase, d.T, d.N))
		}
	}
	for _, t := range s.Tasks() {
		if t.Panic != nil && t.Proc != nil && len(t.Proc.Args) > 0 {
			// a process of its own: the runtime prints the trace and exits
			if !t.Proc.Dead {
				t.Proc.Dead, t.Proc.How, t.Proc.Code = true, "panic", 2
			}
			continue
		}
		if t.Panic != nil {
			return &Violation{"panic", fmt.Sprintf("%s panicked: %v\n%s", t.Name, t.Panic, trimStack(t.Stack))}
		}
	}
	if n := simrt.RaceErrors(); n > races {
		return &Violation{"race", "the race detector reported a data race between concurrent callers\n" + lastRace()}
	}
	if s.Stuck != "" {
		cl := "stuck"
		if strings.HasPrefix(s.Stuck, "deadlock") {
			cl = "deadlock"
		}
		return &Violation{cl, s.Stuck}
	}
	return nil
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "suriya") && !strings.Contains(l, "verifsim") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// damage alters a base64 literal.
func damage(lit string, d Damage) string {
	if d.Kind == "sub" {
		return packed(spoilt(d))
	}
	b := []byte(lit)
	var idx []int // positions of payload characters
	for i, c := range b {
		if c != '\n' && c != '\r' && c != ' ' {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return lit
	}
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	k := int(d.Pos) % len(idx)
	n := int(d.Len)
	if n < 1 {
		n = 1
	}
	if k+n > len(idx) {
		n = len(idx) - k
	}
	switch d.Kind {
	case "flip": // one bit of one stored character
		v := strings.IndexByte(al, b[idx[k]])
		if v < 0 {
			v = 0
		}
		b[idx[k]] = al[v^(1<<uint(d.Val%6))]
	case "noise": // a run of characters replaced
		r := simrt.NewRand(uint64(d.Val))
		for i := k; i < k+n; i++ {
			b[idx[i]] = al[r.Intn(64)]
		}
	case "junk": // a character outside the alphabet
		b[idx[k]] = "!*-_\x00\xff"[d.Val%6]
	case "cut": // the tail is lost
		b = b[:idx[k]]
	case "drop": // a span is lost
		b = append(b[:idx[k]:idx[k]], b[idx[k+n-1]+1:]...)
	case "dup": // a span is doubled
		sp := append([]byte(nil), b[idx[k]:idx[k+n-1]+1]...)
		b = append(append(append([]byte(nil), b[:idx[k+n-1]+1]...), sp...), b[idx[k+n-1]+1:]...)
	case "zero": // a span of zero bits
		for i := k; i < k+n; i++ {
			b[idx[i]] = 'A'
		}
	case "empty":
		b = nil
	}
	return string(b)
}

// ---- zones ----

var zones = []string{
	"", "UTC0", "<+07>-7", "<+0530>-5:30", "<-12>12", "<+14>-14", "<+0545>-5:45",
	"EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "AEST-10AEDT,M10.1.0,M4.1.0/3",
	"NZST-12NZDT,M9.5.0,M4.1.0/3", "<-03>3<-02>,M10.3.0/0,M2.3.0/0", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
	"IST-1GMT0,M10.5.0,M3.5.0/1", "<-0930>9:30", "PST8PDT,M3.2.0,M11.1.0",
}

const midnightZone = 11 // its clocks change at midnight

var zoneCache = map[string]*time.Location{}

// zone builds a time zone from a POSIX rule.
func zone(rule string) *time.Location {
	if rule == "" || rule == "UTC0" {
		return time.UTC
	}
	if z := zoneCache[rule]; z != nil {
		return z
	}
	hdr := "TZif2" + string(make([]byte, 15))
	// six counts: isut, isstd, leap, time, type, char
	v1 := hdr + "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x04" + "\x00\x00\x00\x00\x00\x00" + "LMT\x00"
	z, err := time.LoadLocationFromTZData("Sim/"+strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, rule), []byte(v1+v1+"\n"+rule+"\n"))
	if err != nil {
		panic("zone " + rule + ": " + err.Error())
	}
	return z
}

// tasks only read the cache: a lock would order them for the race detector
func init() {
	for _, r := range zones {
		if r != "" && r != "UTC0" {
			zoneCache[r] = zone(r)
		}
	}
}

// ---- generators shared by properties ----

func genPlan(r *simrt.Rand, tasks int) simrt.SchedPlan {
	p := simrt.SchedPlan{Seed: r.Uint64()}
	switch k := r.Intn(20); {
	case tasks < 2 || k == 0:
		p.Policy = "seq"
	case k < 10:
		p.Policy = "random"
		p.Mean = []int{1, 1, 2, 3, 5, 10, 30, 100, 400, 2000}[r.Intn(10)]
	case k < 15:
		p.Policy = "pct"
		p.Depth = 1 + r.Intn(5)
		p.Horizon = []int{30, 100, 300, 1000, 4000, 20000}[r.Intn(6)]
	default:
		p.Policy = "site"
		n := 1 + r.Intn(4)
		for i := 0; i < n && simrt.Sites > 1; i++ {
			p.Sites = append(p.Sites, int32(1+r.Intn(simrt.Sites-1)))
		}
		p.Stall = 1 + r.Intn(12)
		if r.Intn(2) == 0 {
			p.Mean = []int{5, 50, 500}[r.Intn(3)]
		}
	}
	return p
}

func genClock(r *simrt.Rand) simrt.ClockPlan {
	c := simrt.ClockPlan{}
	switch r.Intn(6) {
	case 0:
		c.Start = int64(r.Intn(4_000_000_000))
	case 1: // around a new year
		y := 1970 + r.Intn(130)
		c.Start = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(r.Range(-50000, 50000))
	case 2: // ancient or far future
		c.Start = int64(r.Range(-60_000_000_000, 60_000_000_000))
	case 3:
		c.Start = int64([]int{-1, 0, 1 << 31, 1<<31 - 1, -1 << 31, 951782400, 1709164800}[r.Intn(7)])
	default:
		c.Start = 1_400_000_000 + int64(r.Intn(600_000_000))
	}
	c.Nanos = int64(r.Intn(1_000_000_000))
	if r.Intn(2) == 0 {
		c.Tick = int64([]int{1, 1000, 1_000_000, 1_000_000_000, 3600_000_000_000}[r.Intn(5)])
	}
	for i := r.Intn(3); i > 0; i-- {
		c.Jumps = append(c.Jumps, simrt.Jump{At: 1 + r.Intn(6), Delta: int64(r.Range(-200, 200)) * int64([]int{1_000_000, 1_000_000_000, 3600_000_000_000, 86400_000_000_000}[r.Intn(4)])})
	}
	c.Zone = zones[r.Intn(len(zones))]
	for i := r.Intn(4); i > 0; i-- {
		c.Step = append(c.Step, int64(r.Intn(2_000_000)))
	}
	return c
}

func pick[T any](r *simrt.Rand, a []T) T { return a[r.Intn(len(a))] }

// packed is content in its embedded form.
func packed(b []byte) string {
	var w bytes.Buffer
	z := gzip.NewWriter(&w)
	z.Write(b)
	z.Close()
	return base64.StdEncoding.EncodeToString(w.Bytes())
}

// spoilt is what a file can hold after a bad download: well stored, useless.
func spoilt(d Damage) []byte {
	f := dataByKey[d.Key]
	if f == nil {
		return nil
	}
	mark := func(head string) []byte {
		i := bytes.Index(f.Data, []byte(`"response"`))
		if i < 0 {
			return []byte("null")
		}
		return append([]byte(head), f.Data[i:]...)
	}
	var b []byte
	switch d.Val % 8 {
	case 0, 1: // cut off
		b = append(b, f.Data[:int(d.Pos)%len(bytes.TrimSpace(f.Data))]...)
	case 2:
		b = mark(`{"success":false,"error":{"code":"maxhits_daily","description":"Maximum number of daily accesses reached."},`)
	case 3:
		b = mark(`{"success":true,"error":{"code":"warn_no_data","description":"Valid request. No results available."},`)
	case 4:
		b = mark(`{"success":false,"error":null,`)
	case 5:
		b = []byte("<html><head><title>502 Bad Gateway</title></head><body>502</body></html>\n")
	case 6:
		b = []byte(`{"success":false,"error":{"code":"invalid_client","description":"The client provided is invalid."},"response":[]}`)
	case 7:
		b = []byte(pick(simrt.NewRand(uint64(d.Pos)), []string{"null", "{}", "[]", "0", `{"success":true`, "\x00\x00\x00\x00", `{"success":"yes","response":[{"code":0}]}`}))
	}
	if n := len(f.Data) - len(b); n > 0 { // of the length recorded for it
		b = append(b, bytes.Repeat([]byte(" "), n)...)
	}
	return b
}
