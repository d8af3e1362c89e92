package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"verifsim/simrt"
)

// The minimiser runs every attempt in a fresh process of this binary.

type minInput struct {
	Case   *Case  `json:"case"`
	Class  string `json:"class"`
	Budget float64
}

type minOutput struct {
	Reproduced bool       `json:"reproduced"`
	Case       *Case      `json:"case"`
	Violation  *Violation `json:"violation"`
	Attempts   int        `json:"attempts"`
	Before     caseSize   `json:"before"`
	After      caseSize   `json:"after"`
}

type caseSize struct {
	Phases, Callers, Ops, Faults, Kills, Damage, Decisions int
}

func sizeOf(c *Case) (s caseSize) {
	s.Phases, s.Faults, s.Damage = len(c.Phases), len(c.Faults), len(c.Damage)
	for _, p := range c.Phases {
		for _, t := range p.Tasks {
			if len(t) > 0 {
				s.Callers++
			}
		}
		s.Kills += len(p.Kills)
		s.Ops += len(p.Set)
		s.Decisions += len(p.Plan.Trace)
		for _, t := range p.Tasks {
			s.Ops += len(t)
		}
	}
	if c.KillOp > 0 {
		s.Kills++
	}
	return
}

type minimiser struct {
	dir      string
	class    string
	deadline time.Time
	attempts int
	best     *Case
	bestOut  *Outcome
}

func clone(c *Case) *Case {
	b, _ := json.Marshal(c)
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		fatal(err)
	}
	return &d
}

// attempt runs a case in a fresh process.
func (m *minimiser) attempt(c *Case, slot int) *Outcome {
	p := filepath.Join(m.dir, fmt.Sprintf("try%d.json", slot))
	b, _ := json.Marshal(c)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal(err)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, "-repo", *repoDir, "-sites", fmt.Sprint(*sites), "-run", p)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return &Outcome{Violation: &Violation{"hang", "the run did not end"}}
	}
	var out Outcome
	if json.Unmarshal(o.Bytes(), &out) != nil {
		t := e.String()
		if len(t) > 1500 {
			t = t[:1500]
		}
		return &Outcome{Violation: &Violation{"crash", "the process died: " + t}}
	}
	return &out
}

// try keeps the first candidate that still fails the same way.
func (m *minimiser) try(cands []*Case) bool {
	n := runtime.NumCPU()
	for len(cands) > 0 && time.Now().Before(m.deadline) {
		k := n
		if k > len(cands) {
			k = len(cands)
		}
		outs := make([]*Outcome, k)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				outs[i] = m.attempt(cands[i], i)
			}(i)
		}
		wg.Wait()
		m.attempts += k
		for i, o := range outs {
			if o.Violation != nil && o.Violation.Class == m.class {
				m.best, m.bestOut = cands[i], o
				return true
			}
		}
		cands = cands[k:]
	}
	return false
}

// list minimises a list of n elements; del returns the case without [i, j).
func (m *minimiser) list(n func(*Case) int, del func(c *Case, i, j int)) bool {
	any := false
	for size := n(m.best); size >= 1; {
		if size > n(m.best) {
			size = n(m.best)
			if size == 0 {
				break
			}
		}
		var cands []*Case
		total := n(m.best)
		for i := 0; i < total; i += size {
			j := i + size
			if j > total {
				j = total
			}
			c := clone(m.best)
			del(c, i, j)
			if caseHash(c) == caseHash(m.best) {
				continue
			}
			cands = append(cands, m.variants(c)...)
		}
		if m.try(cands) {
			any = true
			continue
		}
		if time.Now().After(m.deadline) {
			break
		}
		size /= 2
	}
	return any
}

// variants adds a few other schedules when the schedule matters.
func (m *minimiser) variants(c *Case) []*Case {
	out := []*Case{c}
	inter := false
	for _, p := range c.Phases {
		if p.Plan.Policy != "seq" && p.Plan.Policy != "replay" && len(p.Tasks) > 1 {
			inter = true
		}
	}
	if !inter {
		return out
	}
	for k := uint64(1); k <= 2; k++ {
		d := clone(c)
		for i, p := range d.Phases {
			if p.Plan.Policy == "seq" || p.Plan.Policy == "replay" {
				continue
			}
			p.Plan = simrt.SchedPlan{Policy: "random", Mean: int(1 + 2*(k-1)), Seed: simrt.Mix(p.Plan.Seed, k, uint64(i))}
		}
		out = append(out, d)
	}
	return out
}

func cut[T any](a []T, i, j int) []T { return append(append([]T{}, a[:i]...), a[j:]...) }

func (m *minimiser) edit(f func(c *Case) bool) bool {
	c := clone(m.best)
	if !f(c) {
		return false
	}
	return m.try(m.variants(c))
}

func (m *minimiser) pass() bool {
	prog := false
	np := func(c *Case) int { return len(c.Phases) }
	if len(m.best.Phases) > 1 {
		prog = m.list(np, func(c *Case, i, j int) {
			c.Phases = cut(c.Phases, i, j)
			if len(c.Phases) == 0 {
				c.Phases = []*Phase{{}}
			}
		}) || prog
	}
	for p := 0; p < len(m.best.Phases); p++ {
		p := p
		// whole schedule first: a sequential failure is the simplest
		prog = m.edit(func(c *Case) bool {
			if c.Phases[p].Plan.Policy == "seq" {
				return false
			}
			c.Phases[p].Plan = simrt.SchedPlan{Policy: "seq"}
			return true
		}) || prog
		if n := len(m.best.Phases[p].Tasks); n > 1 {
			prog = m.list(func(c *Case) int { return len(c.Phases[p].Tasks) }, func(c *Case, i, j int) {
				ph := c.Phases[p]
				for t := i; t < j; t++ { // keep the numbering: empty callers
					ph.Tasks[t] = nil
				}
				for len(ph.Tasks) > 0 && len(ph.Tasks[len(ph.Tasks)-1]) == 0 {
					ph.Tasks = ph.Tasks[:len(ph.Tasks)-1]
				}
			}) || prog
		}
		for t := 0; t < len(m.best.Phases[p].Tasks); t++ {
			t := t
			prog = m.list(func(c *Case) int {
				if t >= len(c.Phases[p].Tasks) {
					return 0
				}
				return len(c.Phases[p].Tasks[t])
			}, func(c *Case, i, j int) { c.Phases[p].Tasks[t] = cut(c.Phases[p].Tasks[t], i, j) }) || prog
		}
		if len(m.best.Phases[p].Set) > 0 {
			prog = m.list(func(c *Case) int { return len(c.Phases[p].Set) }, func(c *Case, i, j int) { c.Phases[p].Set = cut(c.Phases[p].Set, i, j) }) || prog
		}
		if len(m.best.Phases[p].Kills) > 0 {
			prog = m.list(func(c *Case) int { return len(c.Phases[p].Kills) }, func(c *Case, i, j int) { c.Phases[p].Kills = cut(c.Phases[p].Kills, i, j) }) || prog
		}
		for _, f := range []func(ph *Phase) bool{
			func(ph *Phase) bool { b := ph.Clock.Zone != ""; ph.Clock.Zone = ""; return b },
			func(ph *Phase) bool { b := ph.Clock.Jumps != nil; ph.Clock.Jumps = nil; return b },
			func(ph *Phase) bool { b := ph.Clock.Step != nil; ph.Clock.Step = nil; return b },
			func(ph *Phase) bool { b := ph.Clock.Tick != 0; ph.Clock.Tick = 0; return b },
			func(ph *Phase) bool { b := ph.Clock.Nanos != 0; ph.Clock.Nanos = 0; return b },
			func(ph *Phase) bool { b := ph.Restart; ph.Restart = false; return b },
		} {
			f := f
			prog = m.edit(func(c *Case) bool { return f(c.Phases[p]) }) || prog
		}
	}
	if len(m.best.Faults) > 0 {
		prog = m.list(func(c *Case) int { return len(c.Faults) }, func(c *Case, i, j int) { c.Faults = cut(c.Faults, i, j) }) || prog
	}
	if len(m.best.Damage) > 0 {
		prog = m.list(func(c *Case) int { return len(c.Damage) }, func(c *Case, i, j int) { c.Damage = cut(c.Damage, i, j) }) || prog
	}
	for _, f := range []func(c *Case) bool{
		func(c *Case) bool { b := c.KillOp != 0; c.KillOp, c.Torn = 0, 0; return b },
		func(c *Case) bool { b := c.MaxChunk != 0; c.MaxChunk = 0; return b },
		func(c *Case) bool { b := c.Env != nil; c.Env = nil; return b },
	} {
		prog = m.edit(f) || prog
	}
	return prog
}

// schedule turns the seeded plans into explicit decisions and shrinks those.
func (m *minimiser) schedule() {
	for p := range m.best.Phases {
		p := p
		if m.best.Phases[p].Plan.Policy == "seq" || p >= len(m.bestOut.Traces) {
			continue
		}
		tr := m.bestOut.Traces[p]
		if len(tr) > 200_000 {
			continue
		}
		c := clone(m.best)
		c.Phases[p].Plan = simrt.SchedPlan{Policy: "replay", Trace: tr}
		if !m.try([]*Case{c}) {
			continue
		}
		m.list(func(c *Case) int { return len(c.Phases[p].Plan.Trace) }, func(c *Case, i, j int) {
			c.Phases[p].Plan.Trace = cut(c.Phases[p].Plan.Trace, i, j)
		})
	}
}

func minimiseMain(in, out string) {
	b, err := os.ReadFile(in)
	if err != nil {
		fatal(err)
	}
	var mi minInput
	if err := json.Unmarshal(b, &mi); err != nil {
		fatal(err)
	}
	dir, err := os.MkdirTemp(filepath.Dir(out), "min")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	m := &minimiser{dir: dir, class: mi.Class, deadline: time.Now().Add(time.Duration(mi.Budget * 1e9)), best: mi.Case}
	mo := &minOutput{Before: sizeOf(mi.Case)}
	m.bestOut = m.attempt(mi.Case, 0)
	m.attempts++
	if v := m.bestOut.Violation; v != nil && (v.Class == mi.Class || mi.Class == "crash") {
		mo.Reproduced = true
		m.class = v.Class
		for i := 0; i < 4 && m.pass() && time.Now().Before(m.deadline); i++ {
		}
		m.deadline = m.deadline.Add(20 * time.Second)
		m.schedule()
		// the reported case has to fail again, alone in its process
		if o := m.attempt(m.best, 0); o.Violation != nil {
			m.bestOut = o
		} else {
			m.best, m.bestOut = mi.Case, m.attempt(mi.Case, 0)
		}
	}
	mo.Case, mo.Violation, mo.Attempts, mo.After = m.best, m.bestOut.Violation, m.attempts, sizeOf(m.best)
	j, _ := json.Marshal(mo)
	if err := os.WriteFile(out, j, 0o644); err != nil {
		fatal(err)
	}
}
