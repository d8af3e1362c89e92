package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verifsim/simrt"
)

var (
	repoDir = flag.String("repo", "/repo", "repository (for its data files)")
	propID  = flag.String("prop", "", "property")
	seed    = flag.Uint64("seed", 1, "seed of the batch")
	from    = flag.Int("from", 0, "first run")
	to      = flag.Int("to", 0, "end of the runs")
	stride  = flag.Int("stride", 1, "step between runs")
	capSec  = flag.Float64("cap", 600, "stop after this many seconds")
	out     = flag.String("out", "", "statistics file")
	sites   = flag.Int("sites", 0, "number of scheduling sites")
	runFile = flag.String("run", "", "run one case")
	minFile = flag.String("minimise", "", "minimise a failing case")
	digest  = flag.Bool("digest", false, "print a digest of every run")
	genOnly = flag.Bool("gen", false, "print the case of run -from")
	tier    = flag.String("tier", "quick", "quick or thorough")
)

// Stats is what a worker reports.
type Stats struct {
	Runs, Ops, Yields, Preempts, Kills int64
	SimNS                              int64
	Counts                             map[string]int64
	Nontrivial                         int64
	Keys                               []uint64 // distinct nontrivial runs
	Scheds                             []uint64 // distinct interleavings
	Pairs                              []uint64 // distinct context switches
	Hists                              []uint64 // distinct histories of disk operations, faults and process ends
	Visited                            []int
	MaxPar                             int
	Samples                            []*Case
	Violation                          *Violation
	Case                               *Case
	Traces                             [][]simrt.Decision
	Wall                               float64
	Capped                             bool
	Digests                            []string `json:",omitempty"`
}

// Outcome is the result of one case.
type Outcome struct {
	Violation *Violation         `json:"violation"`
	Hash      uint64             `json:"hash"`
	Traces    [][]simrt.Decision `json:"traces"`
	Counts    map[string]int64   `json:"counts,omitempty"`
	Log       []string           `json:"log,omitempty"`
}

func genCase(p *Prop, seed uint64, i int) *Case {
	r := simrt.NewRand(simrt.Mix(seed, simrt.HashString(p.ID), uint64(i)))
	r.Uint64()
	c := &Case{Prop: p.ID, Index: i}
	time.Local = time.UTC
	p.Gen(r, c)
	return c
}

func caseHash(c *Case) uint64 {
	i := c.Index
	c.Index = 0
	b, _ := json.Marshal(c)
	c.Index = i
	return simrt.HashString(string(b))
}

func main() {
	flag.Parse()
	debug.SetMaxStack(128 << 20)
	simrt.Sites = *sites
	loadData(*repoDir)
	if *runFile != "" {
		b, err := os.ReadFile(*runFile)
		if err != nil {
			fatal(err)
		}
		var c Case
		if err := json.Unmarshal(b, &c); err != nil {
			fatal(err)
		}
		if props[c.Prop] == nil {
			fatal(fmt.Errorf("unknown property %q in this build", c.Prop))
		}
		e, v := runCase(&c, true)
		o := Outcome{v, e.Hash, e.Traces, e.Counts, e.Log}
		j, _ := json.Marshal(o)
		os.Stdout.Write(append(j, '\n'))
		return
	}
	if *minFile != "" {
		minimiseMain(*minFile, *out)
		return
	}
	p := props[*propID]
	if p == nil {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fatal(fmt.Errorf("unknown property %q (have %s)", *propID, strings.Join(ids, " ")))
	}
	if *genOnly {
		j, _ := json.Marshal(genCase(p, *seed, *from))
		os.Stdout.Write(append(j, '\n'))
		return
	}
	prog, err := os.Create(*out + ".at")
	if err != nil {
		fatal(err)
	}
	st := &Stats{Counts: map[string]int64{}}
	keys, scheds, pairs, hists := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	visited := make([]bool, *sites+1)
	start := time.Now()
	for i := *from; i < *to; i += *stride {
		if time.Since(start).Seconds() > *capSec {
			st.Capped = true
			break
		}
		prog.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		c := genCase(p, *seed, i)
		ch := caseHash(c)
		e, v := runCase(c, false)
		st.Runs++
		st.Ops += e.Ops
		st.Yields += e.Yields
		st.Preempts += e.Preempts
		st.Kills += e.Kills
		st.SimNS += int64(e.SimTime)
		if e.MaxPar > st.MaxPar {
			st.MaxPar = e.MaxPar
		}
		for k, n := range e.Counts {
			st.Counts[k] += n
		}
		for range e.fired {
			st.Counts["damaged-record"]++
		}
		for k := range e.Pairs {
			pairs[k] = true
		}
		for i, b := range e.Visited {
			if b {
				visited[i] = true
			}
		}
		if nontrivial(e) {
			st.Nontrivial++
			if len(keys) < 400_000 {
				keys[simrt.Mix(ch, e.Hash)] = true
			}
			if len(st.Samples) < 1 && i > *from+20**stride {
				st.Samples = append(st.Samples, c)
			}
		}
		if h := e.history(); h != 0 && len(hists) < 400_000 {
			hists[h] = true
		}
		if e.Preempts > 0 && len(scheds) < 400_000 {
			scheds[e.Hash] = true
		}
		if *digest {
			d := fmt.Sprintf("%d %016x %016x %d %d", i, ch, e.Hash, e.Yields, e.Ops)
			if v != nil {
				d += " " + v.Class
			}
			st.Digests = append(st.Digests, d)
		}
		if v != nil {
			st.Violation, st.Case, st.Traces = v, c, e.Traces
			break
		}
	}
	for k := range keys {
		st.Keys = append(st.Keys, k)
	}
	for k := range pairs {
		st.Pairs = append(st.Pairs, k)
	}
	for k := range hists {
		st.Hists = append(st.Hists, k)
	}
	for k := range scheds {
		st.Scheds = append(st.Scheds, k)
	}
	for i, b := range visited {
		if b {
			st.Visited = append(st.Visited, i)
		}
	}
	st.Wall = time.Since(start).Seconds()
	j, err := json.Marshal(st)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(*out, j, 0o644); err != nil {
		fatal(err)
	}
}

// nontrivial: callers were interleaved, or something was injected and happened.
func nontrivial(e *Env) bool {
	if e.Preempts > 0 && e.MaxPar > 1 || e.Kills > 0 || len(e.fired) > 0 {
		return true
	}
	for k := range e.Counts {
		switch {
		case strings.HasPrefix(k, "disk:"), k == "clock-jump", k == "kill-in-io", k == "stall", k == "goroutine",
			k == "map-order", strings.HasPrefix(k, "inject:"):
			return true
		}
	}
	for i, ph := range e.C.Phases {
		if ph.Restart && i > 0 || ph.Clock.Zone != "" {
			return true
		}
	}
	return false
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

// lastRace returns the end of the race detector's log of this process.
func lastRace() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if f, ok := strings.CutPrefix(kv, "log_path="); ok {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", f, os.Getpid()))
			s := string(b)
			if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
				s = s[i:]
			}
			if i := strings.Index(s, "=================="); i >= 0 {
				s = s[:i]
			}
			if len(s) > 4000 {
				s = s[:4000]
			}
			return s
		}
	}
	return ""
}
