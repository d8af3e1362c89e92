package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// stats is what a worker reports.
type stats struct {
	Runs, Ops, Yields, Preempts, Kills int64
	SimNS                              int64
	Counts                             map[string]int64
	Nontrivial                         int64
	Keys, Scheds, Pairs, Hists         []uint64
	Visited                            []int
	MaxPar                             int
	Samples                            []json.RawMessage
	Violation                          *violation
	Case                               json.RawMessage
	Traces                             json.RawMessage
	Wall                               float64
	Capped                             bool
	Digests                            []string
}

// found is a violation with where it came from.
type found struct {
	v     *violation
	c     json.RawMessage
	batch map[string]int64
}

// replayFile is what a violation is reported with.
type replayFile struct {
	Property   string           `json:"property"`
	Violation  *violation       `json:"violation"`
	Variant    string           `json:"variant"`
	Race       bool             `json:"race"`
	Seed       int64            `json:"seed"`
	Command    string           `json:"command"`
	Case       json.RawMessage  `json:"case,omitempty"`  // minimised
	Batch      map[string]int64 `json:"batch,omitempty"` // only if the case alone does not fail
	Original   json.RawMessage  `json:"original,omitempty"`
	Before     json.RawMessage  `json:"size_before,omitempty"`
	After      json.RawMessage  `json:"size_after,omitempty"`
	Attempts   int              `json:"minimiser_attempts,omitempty"`
	Reproduced bool             `json:"reproduced"`
	Script     json.RawMessage  `json:"script_log,omitempty"`
}

func siteNames(variant string) []string {
	var t siteTable
	b, err := ioutil.ReadFile(filepath.Join(scratch, "sites-"+variant+".json"))
	if err == nil {
		json.Unmarshal(b, &t)
	}
	return t.Sites
}

func harnessCmd(bin string, nsites int, logTo string, args ...string) *exec.Cmd {
	a := append([]string{"-repo", repo, "-sites", fmt.Sprint(nsites)}, args...)
	cmd := exec.Command(bin, a...)
	var env []string
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); k == "GORACE" || k == "GOMAXPROCS" || k == "GOGC" || k == "GODEBUG" || k == "GOTRACEBACK" || k == "SIM_LOG" {
			continue
		}
		env = append(env, e)
	}
	cmd.Env = append(env, "GORACE=log_path="+logTo+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOMAXPROCS=2")
	return cmd
}

// explore runs the property's cases over all processors.
func explore(bin string, cfg *propCfg, seed int64, runs, workers int, capSec float64, extra ...string) (*stats, *found, error) {
	nsites := len(siteNames(cfg.variant))
	type res struct {
		st  *stats
		err error
		f   *found
	}
	out := make([]res, workers)
	var mu sync.Mutex
	stop := false
	var live []*exec.Cmd
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			of := filepath.Join(scratch, fmt.Sprintf("w%d.json", w))
			args := append([]string{"-prop", cfg.id, "-seed", fmt.Sprint(uint64(seed)), "-from", fmt.Sprint(w), "-to", fmt.Sprint(runs), "-stride", fmt.Sprint(workers), "-cap", fmt.Sprint(capSec), "-out", of}, extra...)
			cmd := harnessCmd(bin, nsites, filepath.Join(scratch, fmt.Sprintf("race%d", w)), args...)
			var eb bytes.Buffer
			cmd.Stderr = &eb
			mu.Lock()
			if stop {
				mu.Unlock()
				return
			}
			if err := cmd.Start(); err != nil {
				mu.Unlock()
				out[w].err = err
				return
			}
			live = append(live, cmd)
			mu.Unlock()
			killer := time.AfterFunc(time.Duration((capSec+90)*1e9), func() { cmd.Process.Kill() })
			err := cmd.Wait()
			killer.Stop()
			if err != nil {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					return
				}
				// the process died: the run it was in is the failing one
				at, _ := ioutil.ReadFile(of + ".at")
				t := eb.String()
				if strings.HasPrefix(t, "harness:") || len(bytes.TrimSpace(at)) == 0 {
					out[w].err = fmt.Errorf("worker: %v: %s", err, t)
					return
				}
				idx := strings.TrimSpace(string(at))
				g, gerr := harnessCmd(bin, nsites, filepath.Join(scratch, "raceg"), "-prop", cfg.id, "-seed", fmt.Sprint(uint64(seed)), "-from", idx, "-gen").Output()
				if gerr != nil {
					out[w].err = fmt.Errorf("worker: %v: %s", err, t)
					return
				}
				if len(t) > 1500 {
					t = t[:1500]
				}
				out[w].f = &found{v: &violation{"crash", "the process died: " + t}, c: g}
				out[w].st = &stats{}
			} else {
				b, err := ioutil.ReadFile(of)
				st := &stats{}
				if err == nil {
					err = json.Unmarshal(b, st)
				}
				out[w].st, out[w].err = st, err
				if st.Violation != nil {
					out[w].f = &found{v: st.Violation, c: st.Case}
				}
			}
			if f := out[w].f; f != nil {
				f.batch = map[string]int64{"from": int64(w), "stride": int64(workers), "to": int64(runs)}
				mu.Lock()
				stop = true
				for _, c := range live {
					if c != cmd {
						c.Process.Kill()
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	tot := &stats{Counts: map[string]int64{}}
	keys, scheds, pairs, hists, vis := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	var f *found
	for _, r := range out {
		if r.f != nil && f == nil {
			f = r.f
		}
	}
	for _, r := range out {
		if r.err != nil && f == nil {
			return nil, nil, r.err
		}
		if r.st == nil {
			continue
		}
		st := r.st
		tot.Runs += st.Runs
		tot.Ops += st.Ops
		tot.Yields += st.Yields
		tot.Preempts += st.Preempts
		tot.Kills += st.Kills
		tot.SimNS += st.SimNS
		tot.Nontrivial += st.Nontrivial
		tot.Capped = tot.Capped || st.Capped
		if st.MaxPar > tot.MaxPar {
			tot.MaxPar = st.MaxPar
		}
		for k, n := range st.Counts {
			tot.Counts[k] += n
		}
		for _, k := range st.Keys {
			keys[k] = true
		}
		for _, k := range st.Scheds {
			scheds[k] = true
		}
		for _, k := range st.Pairs {
			pairs[k] = true
		}
		for _, k := range st.Hists {
			hists[k] = true
		}
		for _, k := range st.Visited {
			vis[k] = true
		}
		if len(tot.Samples) < 2 {
			tot.Samples = append(tot.Samples, st.Samples...)
		}
		tot.Digests = append(tot.Digests, st.Digests...)
	}
	for k := range keys {
		tot.Keys = append(tot.Keys, k)
	}
	for k := range scheds {
		tot.Scheds = append(tot.Scheds, k)
	}
	for k := range pairs {
		tot.Pairs = append(tot.Pairs, k)
	}
	for k := range hists {
		tot.Hists = append(tot.Hists, k)
	}
	for k := range vis {
		tot.Visited = append(tot.Visited, k)
	}
	sort.Ints(tot.Visited)
	return tot, f, nil
}

func knownFindings(id string) (out []string) {
	b, err := ioutil.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if s := strings.TrimPrefix(l, "finding: property="+id+" "); s != l {
			out = append(out, s)
		}
	}
	return
}

func check(id string) int {
	start := time.Now()
	cfg := findCfg(id)
	if cfg == nil {
		return trouble(fmt.Errorf("no check for %q", id))
	}
	seed, tier := seedEnv(), tierEnv()
	fmt.Printf("%s seed=%d tier=%s\n", id, seed, tier)
	if cfg.variant == "script" {
		return checkScript(cfg, seed, tier, start)
	}
	bin, err := buildWorkspace(repo, verif, scratch, cfg.variant, cfg.race)
	if err != nil {
		return trouble(err)
	}
	built := time.Since(start).Seconds()
	runs, capSec := cfg.quick, 150.0
	if tier == "thorough" {
		runs, capSec = cfg.thorough, 720
	}
	t0 := time.Now()
	st, f, err := explore(bin, cfg, seed, runs, workers(), capSec)
	if err != nil {
		return trouble(err)
	}
	wall := time.Since(t0).Seconds()
	viol := 0
	if f != nil {
		viol = 1
	}
	if err := writeEvidence(cfg, seed, tier, st, wall, built, time.Since(start).Seconds(), viol); err != nil {
		return trouble(err)
	}
	for _, k := range knownFindings(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct), %d distinct interleavings, %d distinct fault histories, %.0f s after a %.0f s build\n", id, st.Runs, st.Nontrivial, len(st.Keys), len(st.Scheds), len(st.Hists), wall, built)
	if f == nil {
		return 0
	}
	return report(bin, cfg, seed, tier, f)
}

func workers() int {
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	return n
}

// report minimises a violation, writes its replay file and prints it.
func report(bin string, cfg *propCfg, seed int64, tier string, f *found) int {
	fmt.Printf("%s violated (%s): %s\n", cfg.id, f.v.Class, firstLines(f.v.Detail, 12))
	rf := &replayFile{Property: cfg.id, Violation: f.v, Variant: cfg.variant, Race: cfg.race, Seed: seed, Original: f.c}
	in, out := filepath.Join(scratch, "min-in.json"), filepath.Join(scratch, "min-out.json")
	b, _ := json.Marshal(map[string]interface{}{"case": f.c, "class": f.v.Class, "Budget": 60})
	ioutil.WriteFile(in, b, 0o644)
	nsites := len(siteNames(cfg.variant))
	cmd := harnessCmd(bin, nsites, filepath.Join(scratch, "racem"), "-minimise", in, "-out", out)
	cmd.Stderr = os.Stderr
	var mo struct {
		Reproduced bool            `json:"reproduced"`
		Case       json.RawMessage `json:"case"`
		Violation  *violation      `json:"violation"`
		Attempts   int             `json:"attempts"`
		Before     json.RawMessage `json:"before"`
		After      json.RawMessage `json:"after"`
	}
	if err := cmd.Run(); err == nil {
		if b, err := ioutil.ReadFile(out); err == nil {
			json.Unmarshal(b, &mo)
		}
	}
	if mo.Reproduced && mo.Violation != nil {
		rf.Case, rf.Violation, rf.Before, rf.After, rf.Attempts, rf.Reproduced = mo.Case, mo.Violation, mo.Before, mo.After, mo.Attempts, true
	} else {
		// the run alone does not fail: replay the whole batch of its process
		rf.Batch = f.batch
		st, g, err := batch(bin, cfg, seed, f.batch)
		rf.Reproduced = err == nil && g != nil && g.v.Class == f.v.Class
		_ = st
	}
	path, err := saveReplay(rf)
	if err != nil {
		return trouble(err)
	}
	if rf.Reproduced {
		fmt.Printf("minimised: %s\n", firstLines(rf.Violation.Detail, 40))
		if rf.After != nil {
			fmt.Printf("size before %s, after %s\n", rf.Before, rf.After)
		}
	} else {
		fmt.Println("the failure did not repeat when run again; the replay file holds the whole batch")
	}
	fmt.Printf("replay with: %s\n", rf.Command)
	fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.id, path)
	return 1
}

func saveReplay(rf *replayFile) (string, error) {
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d.json", rf.Property, rf.Seed))
	rf.Command = fmt.Sprintf("./check.sh replay %s", path)
	b, err := json.MarshalIndent(rf, "", " ")
	if err != nil {
		return "", err
	}
	return path, ioutil.WriteFile(path, b, 0o644)
}

func batch(bin string, cfg *propCfg, seed int64, b map[string]int64) (*stats, *found, error) {
	nsites := len(siteNames(cfg.variant))
	of := filepath.Join(scratch, "batch.json")
	cmd := harnessCmd(bin, nsites, filepath.Join(scratch, "raceb"), "-prop", cfg.id, "-seed", fmt.Sprint(uint64(seed)), "-from", fmt.Sprint(b["from"]), "-to", fmt.Sprint(b["to"]), "-stride", fmt.Sprint(b["stride"]), "-cap", "200", "-out", of)
	if err := cmd.Run(); err != nil {
		return nil, &found{v: &violation{"crash", err.Error()}}, nil
	}
	d, err := ioutil.ReadFile(of)
	if err != nil {
		return nil, nil, err
	}
	st := &stats{}
	if err := json.Unmarshal(d, st); err != nil {
		return nil, nil, err
	}
	if st.Violation != nil {
		return st, &found{v: st.Violation, c: st.Case}, nil
	}
	return st, nil, nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func replay(path string) int {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return trouble(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		return trouble(err)
	}
	cfg := findCfg(rf.Property)
	if cfg == nil {
		return trouble(fmt.Errorf("no check for %q", rf.Property))
	}
	if cfg.variant == "script" {
		return replayScript(cfg, &rf, path)
	}
	bin, err := buildWorkspace(repo, verif, scratch, rf.Variant, rf.Race)
	if err != nil {
		return trouble(err)
	}
	var v *violation
	if rf.Case != nil {
		cf := filepath.Join(scratch, "case.json")
		ioutil.WriteFile(cf, rf.Case, 0o644)
		cmd := harnessCmd(bin, len(siteNames(rf.Variant)), filepath.Join(scratch, "racer"), "-run", cf)
		cmd.Stderr = os.Stderr
		o, err := cmd.Output()
		var out struct {
			Violation *violation
			Hash      uint64
			Counts    map[string]int64
		}
		if jerr := json.Unmarshal(o, &out); jerr != nil {
			v = &violation{"crash", fmt.Sprint(err)}
		} else {
			v = out.Violation
			fmt.Printf("run digest %016x, injected and observed: %v\n", out.Hash, out.Counts)
		}
	} else {
		_, f, err := batch(bin, cfg, rf.Seed, rf.Batch)
		if err != nil {
			return trouble(err)
		}
		if f != nil {
			v = f.v
		}
	}
	if v == nil {
		fmt.Println("the property held in this replay")
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func writeEvidence(cfg *propCfg, seed int64, tier string, st *stats, wall, built, total float64, viol int) error {
	sites := siteNames(cfg.variant)
	level := "exploration"
	faults := map[string]int64{}
	other := map[string]int64{}
	for k, n := range st.Counts {
		if strings.HasPrefix(k, "disk:") || k == "kill-in-io" || k == "clock-jump" || k == "stall" || k == "damaged-record" || k == "map-order" || strings.HasPrefix(k, "inject:") {
			faults[k] = n
		} else {
			other[k] = n
		}
	}
	faults["process-kill"] = st.Kills
	faults["preemption"] = st.Preempts
	byFile := map[string][2]int{}
	vis := map[int]bool{}
	for _, i := range st.Visited {
		vis[i] = true
	}
	for i, s := range sites {
		f := s
		if k := strings.IndexByte(s, ':'); k > 0 {
			f = s[:k]
		}
		c := byFile[f]
		c[1]++
		if vis[i] {
			c[0]++
		}
		byFile[f] = c
	}
	cov := map[string]string{}
	for f, c := range byFile {
		cov[f] = fmt.Sprintf("%d of %d", c[0], c[1])
	}
	perHour := 0.0
	if wall > 0 {
		perHour = math.Round(float64(st.Runs) / wall * 3600)
	}
	samples := st.Samples
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]interface{}{
		"property": cfg.id, "tier": tier, "seed": seed, "level": level, "wall_s": math.Round(total*100) / 100, "violations": viol,
		"assumptions": cfg.assume,
		"coverage": map[string]interface{}{
			"evaluations":               st.Runs,
			"distinct_nontrivial":       len(st.Keys),
			"rule":                      cfg.rule,
			"samples":                   samples,
			"nontrivial_runs":           st.Nontrivial,
			"simulated_runs_per_hour":   perHour,
			"seeds":                     map[string]interface{}{"batch_seed": seed, "derivation": "hash(batch seed, property, run index)"},
			"simulated_time_s":          math.Round(float64(st.SimNS)/1e6) / 1000,
			"faults_injected":           faults,
			"observed":                  other,
			"operations_judged":         st.Ops,
			"scheduling_points":         st.Yields,
			"distinct_interleavings":    len(st.Scheds),
			"interleaving_measure":      "hash of the executed (caller, statement) sequence of runs with at least one preemption; capped at 400000 per worker",
			"distinct_context_switches": len(st.Pairs),
			"context_switch_measure":    "distinct ordered pairs (statement a caller was preempted at, statement the next caller continued from)",
			"distinct_fault_histories":  len(st.Hists),
			"fault_history_measure":     "hash of a run's sequence of disk operations, the faults that hit them, and the end of each process (status, statement it was killed at); runs with neither are not counted; capped at 400000 per worker",
			"max_runnable_callers":      st.MaxPar,
			"statements_reached":        cov,
			"components_real":           cfg.real,
			"components_simulated":      cfg.stub,
			"stopped_by_wall_cap":       st.Capped,
			"build_s":                   math.Round(built*100) / 100,
			"race_detector":             cfg.race,
			"workers":                   workers(),
			"exploration_wall_s":        math.Round(wall*100) / 100,
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return ioutil.WriteFile(filepath.Join(dir, cfg.id+".json"), append(b, '\n'), 0o644)
}

// selftest runs many seeds twice each at different worker counts and compares
// the digests of every run.
func selftest(ids []string) int {
	if len(ids) == 0 {
		for _, c := range cfgs {
			ids = append(ids, c.id)
		}
	}
	bad := 0
	for _, id := range ids {
		cfg := findCfg(id)
		if cfg == nil {
			return trouble(fmt.Errorf("no check for %q", id))
		}
		if cfg.variant == "script" {
			n, err := selftestScript(240)
			if err != nil {
				return trouble(err)
			}
			bad += n
			continue
		}
		bin, err := buildWorkspace(repo, verif, scratch, cfg.variant, cfg.race)
		if err != nil {
			return trouble(err)
		}
		diff, n := 0, 0
		for seed := int64(1); seed <= 6; seed++ {
			var ref map[string]bool
			for _, w := range []int{1, 3, 8, 8} {
				st, f, err := explore(bin, cfg, seed, 240, w, 300, "-digest")
				if err != nil || f != nil {
					return trouble(fmt.Errorf("%s: %v %v", id, err, f))
				}
				if ref == nil {
					ref = map[string]bool{}
					for _, d := range st.Digests {
						ref[d] = true
					}
					continue
				}
				for _, d := range st.Digests {
					n++
					if !ref[d] {
						diff++
						fmt.Println(id, "seed", seed, "differs:", d)
					}
				}
			}
		}
		fmt.Printf("%s: %d runs repeated at 1, 3 and 8 workers, %d differ\n", id, n, diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}

func warm() int {
	for _, v := range []struct {
		variant string
		race    bool
	}{{"core", true}, {"core", false}, {"full", true}, {"full", false}} {
		if _, err := buildWorkspace(repo, verif, scratch, v.variant, v.race); err != nil {
			return trouble(err)
		}
	}
	fmt.Println("simulator builds")
	return 0
}
