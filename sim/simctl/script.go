package main

// The download script: real bash and coreutils run the script from the
// repository's working tree. A preloaded library gives the process tree a
// simulated clock and injects faults, torn writes and kills at its file
// operations; curl is a stand-in that answers from the run's plan. Everything
// runs as an unprivileged user in a directory of its own, and the library
// refuses to write, rename or remove anything outside it.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const nobody = 65534

type scFile struct {
	Name string
	Size int
}

type scYear struct {
	Kind string // ok refused nohost http cut timeout crash
	Lat  int64  // ms
	Size int
	Cut  int
}

type scFault struct {
	Op    string // open write rename unlink
	Nth   int64
	Err   string
	Bytes int64
}

type scRun struct {
	From, To int
	Years    []scYear
	StartNS  int64
	ExecMS   int64
	LateMS   int64
	Faults   []scFault `json:",omitempty"`
	KillAt   int64     `json:",omitempty"`
	Torn     int64     `json:",omitempty"`
}

type scCase struct {
	Seed  int64
	Files []scFile `json:",omitempty"`
	Runs  []scRun
}

type scResult struct {
	v       *violation
	log     []string
	simNS   int64
	counts  map[string]int64
	hist    uint64
	faulted bool
	hang    bool
}

// simState mirrors struct sim in sim/script/shim.h.
type simState struct {
	Now, Ops, KillAt, Torn, Limit, ExecNS, LateNS, Pgid   int64
	Killed, Stuck, Escaped, Sleeps, Execs, Reads, NFaults int64
	Fault                                                 [8]struct{ Op, Nth, Err, Bytes, Fired int64 }
	Count                                                 [8]int64
}

var scOps = map[string]int64{"open": 1, "write": 2, "rename": 4, "unlink": 5}
var scErrs = map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "EMFILE": syscall.EMFILE, "EBUSY": syscall.EBUSY}

// body is the answer of the server for a year in a run.
func scBody(seed int64, run, year, n int) []byte {
	r := rand.New(rand.NewSource(seed ^ int64(run)<<40 ^ int64(year)<<8))
	b := make([]byte, n)
	r.Read(b)
	for i := range b {
		switch {
		case b[i] < 12:
			b[i] = '\n'
		case b[i] < 18:
			b[i] = ' '
		case b[i] < 20:
			b[i] = 0
		case b[i] < 24:
			b[i] = '\\'
		}
	}
	return b
}

func scGen(seed int64) *scCase {
	r := rand.New(rand.NewSource(seed))
	c := &scCase{Seed: seed}
	from := []int{1900, 1950, 1999, 2000, 2010, 2095, 1995}[r.Intn(7)] + r.Intn(7)
	if r.Intn(40) == 0 {
		from = []int{1, 98, 999, 9995}[r.Intn(4)]
	}
	size := func() int { return []int{0, 1, 60, 300, 300, 900, 5000, 20000, 50000}[r.Intn(9)] }
	for n := 1 + r.Intn(3); n > 0; n-- {
		run := scRun{From: from + r.Intn(4), StartNS: 1400000000e9 + r.Int63n(300000000e9), ExecMS: 2 + r.Int63n(30)}
		if r.Intn(3) == 0 {
			run.ExecMS = 30 + r.Int63n(250)
		}
		if r.Intn(3) == 0 {
			run.LateMS = r.Int63n(2500)
		}
		years := r.Intn(8)
		switch k := r.Intn(10); {
		case k < 3:
			years = 8 + r.Intn(6)
		case k < 5:
			years = 10 + r.Intn(26)
		}
		style := r.Intn(4) // latency
		bad := r.Intn(5)
		allBad := "" // the service is down for the whole run
		if r.Intn(25) == 0 {
			allBad = []string{"refused", "http", "timeout"}[r.Intn(3)]
			years = []int{8, 10, 16, 20, 32}[r.Intn(5)]
			if style > 1 && r.Intn(2) == 0 { // as many failures as an exit status cannot count
				years, style = 256, 4
			}
		}
		run.To = run.From + years - 1
		for i := 0; i < years; i++ {
			y := scYear{Kind: "ok", Size: size()}
			switch style {
			case 0:
				y.Lat = r.Int63n(50)
			case 1:
				y.Lat = r.Int63n(2000)
			case 2:
				y.Lat = r.Int63n(14000)
			case 4:
				y.Lat = 6300 + r.Int63n(300)
			default:
				y.Lat = []int64{0, 100, 5900, 6000, 6200, 59000, 60000, 61000, 300000}[r.Intn(9)]
			}
			if bad > 1 && r.Intn(bad*3) == 0 {
				y.Kind = []string{"refused", "nohost", "http", "cut", "timeout", "crash"}[r.Intn(6)]
				y.Cut = r.Intn(y.Size + 1)
				if r.Intn(4) == 0 {
					y.Cut = y.Size
				}
			}
			if allBad != "" {
				y.Kind, y.Size = allBad, 60
			}
			run.Years = append(run.Years, y)
		}
		if r.Intn(3) == 0 {
			for k := 1 + r.Intn(2); k > 0; k-- {
				f := scFault{Op: []string{"open", "write", "write", "rename", "rename", "unlink"}[r.Intn(6)], Nth: 1 + r.Int63n(int64(years)+2)}
				switch f.Op {
				case "open":
					f.Err = []string{"ENOSPC", "EACCES", "EROFS", "EMFILE", "EDQUOT"}[r.Intn(5)]
				case "write":
					f.Err = []string{"ENOSPC", "EIO", "EDQUOT"}[r.Intn(3)]
					if r.Intn(3) > 0 {
						f.Bytes = r.Int63n(400)
					}
				default:
					f.Err = []string{"EIO", "EACCES", "EROFS", "EBUSY"}[r.Intn(4)]
					if f.Op == "unlink" {
						f.Nth = 1 + r.Int63n(3)
					}
				}
				run.Faults = append(run.Faults, f)
			}
		}
		if r.Intn(3) == 0 {
			run.KillAt = 3 + r.Int63n(90)
			if r.Intn(4) == 0 {
				run.KillAt = int64(math.Exp(r.Float64() * 7.3))
			}
			run.Torn = r.Int63n(600)
		}
		c.Runs = append(c.Runs, run)
	}
	f := c.Runs[0]
	for y := f.From - 1; y <= f.To+1 && y < f.From+12; y++ {
		if r.Intn(3) == 0 {
			c.Files = append(c.Files, scFile{fmt.Sprintf("astro-%d.json", y), size()})
		}
		if r.Intn(8) == 0 {
			c.Files = append(c.Files, scFile{fmt.Sprintf("astro-%d.json.part", y), size()})
		}
	}
	if r.Intn(2) == 0 {
		c.Files = append(c.Files, scFile{"notes.txt", size()}, scFile{"astro-0.json", size()})
	}
	return c
}

type scWorld struct{ shim, bin, root string }

func scBuild() (*scWorld, error) {
	if err := os.Chmod(scratch, 0o711); err != nil {
		return nil, err
	}
	w := &scWorld{shim: filepath.Join(scratch, "shim.so"), bin: filepath.Join(scratch, "stubbin"), root: filepath.Join(scratch, "runs")}
	for _, d := range []string{w.bin, w.root} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return nil, err
		}
		os.Chmod(d, 0o755)
	}
	src := filepath.Join(verif, "sim", "script")
	for _, a := range [][]string{{"-shared", "-fPIC", "-o", w.shim, filepath.Join(src, "shim.c"), "-ldl"}, {"-o", filepath.Join(w.bin, "curl"), filepath.Join(src, "curl.c")}} {
		if o, err := exec.Command("gcc", append([]string{"-O1", "-w"}, a...)...).CombinedOutput(); err != nil {
			return nil, fmt.Errorf("gcc: %v\n%s", err, o)
		}
	}
	os.Chmod(w.shim, 0o755)
	os.Chmod(filepath.Join(w.bin, "curl"), 0o755)
	b, err := ioutil.ReadFile(filepath.Join(repo, "utils", "get-astromoons.sh"))
	if err != nil {
		return nil, err
	}
	if err := ioutil.WriteFile(filepath.Join(w.bin, "get-astromoons.sh"), b, 0o755); err != nil {
		return nil, err
	}
	os.Chmod(filepath.Join(w.bin, "get-astromoons.sh"), 0o755)
	return w, nil
}

var scDir int64
var scLine = regexp.MustCompile(`(-?\d+) \.\.\.`)
var scLimit = regexp.MustCompile(`[?&]limit=(\d+)(&|$)`)

func snapshot(dir string) (map[string]string, error) {
	m := map[string]string{}
	es, err := ioutil.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		if e.Mode().IsRegular() {
			b, err := ioutil.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				return nil, err
			}
			m[e.Name()] = string(b)
		}
	}
	return m, nil
}

// scExec runs a case and judges it.
func (w *scWorld) scExec(c *scCase) (res *scResult, err error) {
	res = &scResult{counts: map[string]int64{}}
	base := filepath.Join(w.root, fmt.Sprint(atomic.AddInt64(&scDir, 1)))
	cwd, ctl, tmp := filepath.Join(base, "data"), filepath.Join(base, "ctl"), filepath.Join(base, "tmp")
	defer os.RemoveAll(base)
	for _, d := range []string{base, cwd, ctl, tmp} {
		if err := os.Mkdir(d, 0o755); err != nil {
			return nil, err
		}
		os.Chmod(d, 0o755)
		if err := os.Chown(d, nobody, nobody); err != nil {
			return nil, err
		}
	}
	put := func(p string, b []byte) error {
		if err := ioutil.WriteFile(p, b, 0o644); err != nil {
			return err
		}
		return os.Chown(p, nobody, nobody)
	}
	for _, f := range c.Files {
		if err := put(filepath.Join(cwd, f.Name), scBody(c.Seed, 99, len(f.Name)*31+int(f.Name[len(f.Name)/2]), f.Size)); err != nil {
			return nil, err
		}
	}
	h := fnv.New64a()
	for ri := range c.Runs {
		run := &c.Runs[ri]
		old, err := snapshot(cwd)
		if err != nil {
			return nil, err
		}
		if err := w.scOne(c, ri, run, base, cwd, ctl, tmp, put, res, h, old); err != nil {
			return nil, err
		}
		if res.v != nil {
			res.v.Detail = fmt.Sprintf("script run %d of %d, years %d to %d: %s", ri+1, len(c.Runs), run.From, run.To, res.v.Detail)
			break
		}
	}
	res.hist = h.Sum64()
	return res, nil
}

type scReq struct {
	at   int64
	year string
	url  string
}

func (w *scWorld) scOne(c *scCase, ri int, run *scRun, base, cwd, ctl, tmp string, put func(string, []byte) error, res *scResult, h interface{ Write([]byte) (int, error) }, old map[string]string) error {
	var plan bytes.Buffer
	bodies := map[int]string{}
	for i, y := range run.Years {
		year := run.From + i
		fmt.Fprintf(&plan, "%d %s %d %d %d\n", year, y.Kind, y.Lat, y.Size, y.Cut)
		bodies[year] = string(scBody(c.Seed, ri, year, y.Size))
		if err := put(filepath.Join(ctl, fmt.Sprintf("body-%d", year)), []byte(bodies[year])); err != nil {
			return err
		}
	}
	if err := put(filepath.Join(ctl, "plan"), plan.Bytes()); err != nil {
		return err
	}
	if err := put(filepath.Join(ctl, "requests"), nil); err != nil {
		return err
	}
	st := simState{Now: run.StartNS, KillAt: run.KillAt, Torn: run.Torn, Limit: 60000, ExecNS: run.ExecMS * 1e6, LateNS: run.LateMS * 1e6, NFaults: int64(len(run.Faults))}
	for i, f := range run.Faults {
		st.Fault[i].Op, st.Fault[i].Nth, st.Fault[i].Err, st.Fault[i].Bytes = scOps[f.Op], f.Nth, int64(scErrs[f.Err]), f.Bytes
	}
	var sb bytes.Buffer
	if err := binary.Write(&sb, binary.LittleEndian, &st); err != nil {
		return err
	}
	state := filepath.Join(ctl, "state")
	if err := put(state, sb.Bytes()); err != nil {
		return err
	}
	cmd := exec.Command("/bin/bash", filepath.Join(w.bin, "get-astromoons.sh"), strconv.Itoa(run.From), strconv.Itoa(run.To))
	cmd.Dir = cwd
	cmd.Env = []string{"PATH=" + w.bin + ":/usr/bin:/bin", "CLIENT_ID=id", "CLIENT_SECRET=key", "LC_ALL=C", "HOME=" + tmp, "TMPDIR=" + tmp,
		"LD_PRELOAD=" + w.shim, "SIM_STATE=" + state, "SIM_DIR=" + base, "SIM_CTL=" + ctl}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: os.Getuid() != 0}}
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		return err
	}
	var hung int32
	t := time.AfterFunc(100*time.Second, func() { atomic.StoreInt32(&hung, 1); syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	werr := cmd.Wait()
	t.Stop()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if werr != nil {
		if _, ok := werr.(*exec.ExitError); !ok {
			return werr
		}
	}
	exit := cmd.ProcessState.ExitCode()
	b, err := ioutil.ReadFile(state)
	if err != nil {
		return err
	}
	if err := binary.Read(bytes.NewReader(b), binary.LittleEndian, &st); err != nil {
		return err
	}
	res.simNS += st.Now - run.StartNS
	now, err := snapshot(cwd)
	if err != nil {
		return err
	}
	var reqs []scReq
	b, err = ioutil.ReadFile(filepath.Join(ctl, "requests"))
	if err != nil {
		return err
	}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		p := strings.SplitN(l, " ", 3)
		if len(p) == 3 {
			n, _ := strconv.ParseInt(p[0], 10, 64)
			reqs = append(reqs, scReq{n, p[1], p[2]})
		}
	}
	// what happened
	logf := func(f string, a ...interface{}) {
		s := fmt.Sprintf(f, a...)
		res.log = append(res.log, s)
	}
	hist := fmt.Sprintf("run %d-%d exit %d killed %d;", run.From, run.To, exit, st.Killed)
	logf("run %d: years %d to %d, exit %d, killed %d, %d operations, %.3f s simulated, %d sleeps, %d processes", ri+1, run.From, run.To, exit, st.Killed, st.Ops, float64(st.Now-run.StartNS)/1e9, st.Sleeps, st.Execs)
	for _, q := range reqs {
		logf("  +%.3f s request %s", float64(q.at-run.StartNS)/1e9, q.url)
		if y, err := strconv.Atoi(q.year); err == nil && y >= run.From && y <= run.To {
			k := run.Years[y-run.From].Kind
			hist += k + ","
			if k != "ok" {
				res.counts["inject:download-"+k]++
				res.faulted = true
			}
		}
	}
	fired := int64(0)
	openFired := int64(0)
	for i, f := range run.Faults {
		if n := st.Fault[i].Fired; n > 0 {
			fired += n
			if f.Op == "open" {
				openFired += n
			}
			res.counts["inject:"+f.Op+"-"+f.Err] += n
			hist += fmt.Sprintf("fault %s %d %s %d;", f.Op, f.Nth, f.Err, f.Bytes)
			logf("  fault: %s %d failed with %s after %d bytes", f.Op, f.Nth, f.Err, f.Bytes)
			res.faulted = true
		}
	}
	if st.Killed != 0 {
		res.counts["inject:kill"]++
		res.faulted = true
		hist += fmt.Sprintf("kill at %d torn %d;", run.KillAt, run.Torn)
	}
	res.counts["script-runs"]++
	res.counts["requests"] += int64(len(reqs))
	res.counts["sleeps"] += st.Sleeps
	res.counts["processes"] += st.Execs
	res.counts["operations"] += st.Ops
	h.Write([]byte(hist))
	var names []string
	for n := range now {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		logf("  %s %d bytes %x", n, len(now[n]), sha256.Sum256([]byte(now[n])))
	}
	logf("  output %q", out.String())

	fail := func(class, f string, a ...interface{}) {
		if res.v == nil {
			res.v = &violation{class, fmt.Sprintf(f, a...) + "\n" + strings.Join(res.log, "\n")}
		}
	}
	if hung != 0 {
		res.hang = true
		fail("no-progress", "the script made no progress")
		return nil
	}
	if st.Stuck != 0 {
		fail("no-progress", "the script did not finish within %d operations", st.Limit)
		return nil
	}
	if st.Escaped != 0 {
		fail("outside", "the script tried to change files outside its directory")
		return nil
	}
	killed := st.Killed != 0
	// requests: every year once, in order
	next := run.From
	missing := int64(0)
	seen := map[int]bool{}
	for i, q := range reqs {
		y, err := strconv.Atoi(q.year)
		if err != nil || y < run.From || y > run.To {
			fail("request", "request %d is for year %q, not one of the range", i+1, q.year)
			return nil
		}
		if seen[y] {
			fail("request", "year %d was requested again", y)
			return nil
		}
		if y < next {
			fail("request", "year %d was requested after year %d", y, next-1)
			return nil
		}
		seen[y] = true
		missing += int64(y - next)
		next = y + 1
		if !strings.Contains(q.url, fmt.Sprintf("from=%d/01/01", y)) || !strings.Contains(q.url, fmt.Sprintf("to=%d/12/31", y)) {
			fail("request", "the request for year %d does not ask for the whole year: %s", y, q.url)
			return nil
		}
		if m := scLimit.FindStringSubmatch(q.url); m == nil {
			fail("request", "the request for year %d has no record limit: %s", y, q.url)
			return nil
		} else if n, _ := strconv.Atoi(m[1]); n < 208 || n > 250 {
			fail("request", "the request for year %d asks for %d records; a year has 208 and the service allows 250", y, n)
			return nil
		}
	}
	if !killed && run.To >= next {
		missing += int64(run.To + 1 - next)
	}
	// a file that cannot be opened may end the script early, if it says so
	if missing > openFired && (openFired == 0 || exit == 0) {
		fail("request", "%d years of the range were not requested", missing)
		return nil
	}
	// the rate: some split into batches of at most ten must have its starts a minute apart
	if n := len(reqs); n > 0 {
		ok := make([]bool, n)
		fine := false
		for i := 0; i < n; i++ {
			ok[i] = i == 0
			for j := i - 1; j >= 0 && i-j <= 10 && !ok[i]; j-- {
				ok[i] = ok[j] && reqs[i].at-reqs[j].at >= 60e9
			}
			if ok[i] && n-i <= 10 {
				fine = true
			}
		}
		if !fine {
			fail("rate", "more than ten requests in a batch, or batches less than a minute apart")
			return nil
		}
	}
	// files
	said := map[int]string{}
	for _, l := range strings.Split(out.String(), "\n") {
		if m := scLine.FindStringSubmatchIndex(l); m != nil {
			y, _ := strconv.Atoi(l[m[2]:m[3]])
			said[y] += l[m[1]:]
		}
	}
	notNew := int64(0)
	bad := false
	for i, y := range run.Years {
		year := run.From + i
		name := fmt.Sprintf("astro-%d.json", year)
		was, had := old[name]
		is, has := now[name]
		same := has == had && was == is
		fresh := has && is == bodies[year]
		reportedOK := strings.Contains(said[year], "OK")
		switch {
		case y.Kind != "ok":
			bad = bad || seen[year]
			if !same {
				fail("data", "the download of year %d failed (%s) and %s changed: %s before, %s after", year, y.Kind, name, size(was, had), size(is, has))
				return nil
			}
			if reportedOK {
				fail("report", "the download of year %d failed (%s) and was reported OK", year, y.Kind)
				return nil
			}
		case killed:
			if !same && !fresh {
				fail("data", "after the kill %s is neither the earlier file nor the complete download: %s before, %s after, download %d bytes", name, size(was, had), size(is, has), len(bodies[year]))
				return nil
			}
			if reportedOK && !fresh {
				fail("report", "year %d was reported OK and %s is not the download", year, name)
				return nil
			}
		case fresh:
		default:
			if !same || fired == 0 {
				fail("data", "%s does not hold the downloaded bytes: %s before, %s after, download %d bytes", name, size(was, had), size(is, has), len(bodies[year]))
				return nil
			}
			if seen[year] {
				notNew++
			}
			bad = true
			if reportedOK {
				fail("report", "year %d was reported OK and %s is not the download", year, name)
				return nil
			}
		}
	}
	if notNew > fired {
		fail("data", "%d years were not saved after %d file faults", notNew, fired)
		return nil
	}
	if !killed {
		if bad && exit == 0 {
			fail("exit", "a download failed and the script exited with status 0")
		}
		if !bad && fired == 0 && exit != 0 {
			fail("exit", "every download succeeded and the script exited with status %d: %s", exit, eb.String())
		}
	}
	for n, b := range old {
		if strings.HasSuffix(n, ".part") {
			continue
		}
		if m := regexp.MustCompile(`^astro-(\d+)\.json$`).FindStringSubmatch(n); m != nil {
			if y, _ := strconv.Atoi(m[1]); y >= run.From && y <= run.To {
				continue
			}
		}
		if nb, ok := now[n]; !ok || nb != b {
			fail("data", "%s, which is not part of the range, changed", n)
			return nil
		}
	}
	return nil
}

func size(s string, have bool) string {
	if !have {
		return "no file"
	}
	return fmt.Sprintf("%d bytes", len(s))
}

func scSeed(seed int64, i int) int64 {
	x := uint64(seed)*0x9e3779b97f4a7c15 + uint64(i)*0xbf58476d1ce4e5b9 + 0x94d049bb133111eb
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return int64(x >> 1)
}

func checkScript(cfg *propCfg, seed int64, tier string, start time.Time) int {
	w, err := scBuild()
	if err != nil {
		return trouble(err)
	}
	built := time.Since(start).Seconds()
	runs, capSec := cfg.quick, 150.0
	if tier == "thorough" {
		runs, capSec = cfg.thorough, 720
	}
	t0 := time.Now()
	st := &stats{Counts: map[string]int64{}}
	keys, hists := map[uint64]bool{}, map[uint64]bool{}
	var mu sync.Mutex
	var firstErr error
	var bad *scCase
	var badV *violation
	badAt := runs
	next := int64(-1)
	var wg sync.WaitGroup
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				mu.Lock()
				stop := firstErr != nil || bad != nil
				mu.Unlock()
				if i >= runs || stop {
					return
				}
				if time.Since(t0).Seconds() > capSec {
					mu.Lock()
					st.Capped = true
					mu.Unlock()
					return
				}
				c := scGen(scSeed(seed, i))
				res, err := w.scExec(c)
				mu.Lock()
				if err != nil {
					firstErr = err
					mu.Unlock()
					return
				}
				st.Runs++
				st.SimNS += res.simNS
				st.Ops += res.counts["requests"] + res.counts["script-runs"]
				for n, v := range res.counts {
					st.Counts[n] += v
				}
				st.Kills += res.counts["inject:kill"]
				if res.faulted || len(c.Runs) > 1 {
					st.Nontrivial++
					b, _ := json.Marshal(c)
					h := fnv.New64a()
					h.Write(b)
					keys[h.Sum64()] = true
					if len(st.Samples) < 2 && i > 2 {
						st.Samples = append(st.Samples, b)
					}
				}
				if res.faulted {
					hists[res.hist] = true
				}
				if res.v != nil && i < badAt {
					bad, badV, badAt = c, res.v, i
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if firstErr != nil && bad == nil {
		return trouble(firstErr)
	}
	for k := range keys {
		st.Keys = append(st.Keys, k)
	}
	for k := range hists {
		st.Hists = append(st.Hists, k)
	}
	wall := time.Since(t0).Seconds()
	viol := 0
	if bad != nil {
		viol = 1
	}
	if err := writeEvidence(cfg, seed, tier, st, wall, built, time.Since(start).Seconds(), viol); err != nil {
		return trouble(err)
	}
	for _, k := range knownFindings(cfg.id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.id, k)
	}
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct), %d distinct fault histories, %.0f s simulated, %.0f s after a %.0f s build\n", cfg.id, st.Runs, st.Nontrivial, len(st.Keys), len(st.Hists), float64(st.SimNS)/1e9, wall, built)
	if bad == nil {
		return 0
	}
	// minimise
	fmt.Printf("%s violated (%s): %s\n", cfg.id, badV.Class, firstLines(badV.Detail, 20))
	rf := &replayFile{Property: cfg.id, Violation: badV, Variant: cfg.variant, Seed: seed}
	rf.Original, _ = json.Marshal(bad)
	rf.Before, _ = json.Marshal(bad.measure())
	c, v, n := w.minimise(bad, badV)
	rf.Case, _ = json.Marshal(c)
	rf.After, _ = json.Marshal(c.measure())
	rf.Attempts = n
	if r, err := w.scExec(c); err == nil && r.v != nil && r.v.Class == badV.Class {
		rf.Reproduced, v = true, r.v
		rf.Script, _ = json.Marshal(r.log)
	}
	rf.Violation = v
	path, err := saveReplay(rf)
	if err != nil {
		return trouble(err)
	}
	fmt.Printf("minimised: %s\nsize before %s, after %s\nreplay with: %s\n", firstLines(v.Detail, 40), rf.Before, rf.After, rf.Command)
	fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.id, path)
	return 1
}

func (c *scCase) measure() map[string]int {
	m := map[string]int{"runs": len(c.Runs), "files": len(c.Files)}
	for _, r := range c.Runs {
		m["years"] += len(r.Years)
		m["faults"] += len(r.Faults)
		if r.KillAt != 0 {
			m["kills"]++
		}
		for _, y := range r.Years {
			if y.Kind != "ok" {
				m["failed_downloads"]++
			}
		}
	}
	return m
}

func (c *scCase) clone() *scCase {
	b, _ := json.Marshal(c)
	d := &scCase{}
	json.Unmarshal(b, d)
	return d
}

// smaller lists simpler variants, the most drastic first.
func (c *scCase) smaller() (out []*scCase) {
	with := func(f func(d *scCase)) {
		d := c.clone()
		f(d)
		a, _ := json.Marshal(c)
		b, _ := json.Marshal(d)
		if !bytes.Equal(a, b) {
			out = append(out, d)
		}
	}
	if len(c.Runs) > 1 {
		for i := range c.Runs {
			i := i
			with(func(d *scCase) { d.Runs = append(d.Runs[:i:i], d.Runs[i+1:]...) })
		}
	}
	with(func(d *scCase) { d.Files = nil })
	for i := range c.Runs {
		i := i
		n := len(c.Runs[i].Years)
		for k := n / 2; k > 0; k /= 2 {
			k := k
			with(func(d *scCase) { r := &d.Runs[i]; r.Years = r.Years[:n-k]; r.To -= k })
			with(func(d *scCase) { r := &d.Runs[i]; r.Years = r.Years[k:]; r.From += k })
		}
		with(func(d *scCase) { d.Runs[i].Faults = nil })
		with(func(d *scCase) { d.Runs[i].KillAt, d.Runs[i].Torn = 0, 0 })
		with(func(d *scCase) {
			for j := range d.Runs[i].Years {
				d.Runs[i].Years[j] = scYear{Kind: "ok", Lat: 100, Size: 60}
			}
		})
		with(func(d *scCase) {
			for j := range d.Runs[i].Years {
				y := &d.Runs[i].Years[j]
				y.Size, y.Lat = 60, 100
				if y.Cut > 60 {
					y.Cut = 60
				}
			}
		})
		for j := range c.Runs[i].Years {
			j := j
			with(func(d *scCase) { y := &d.Runs[i].Years[j]; y.Kind, y.Cut = "ok", 0 })
		}
		for j := range c.Runs[i].Faults {
			j := j
			with(func(d *scCase) { r := &d.Runs[i]; r.Faults = append(r.Faults[:j:j], r.Faults[j+1:]...) })
		}
		with(func(d *scCase) { d.Runs[i].LateMS = 0 })
		with(func(d *scCase) { d.Runs[i].ExecMS = 100 })
		with(func(d *scCase) { d.Runs[i].StartNS = 1500000000e9 })
	}
	for i := range c.Files {
		i := i
		with(func(d *scCase) { d.Files = append(d.Files[:i:i], d.Files[i+1:]...) })
	}
	return
}

// minimise keeps the first simpler variant that fails the same way, until
// there is none or the time is up.
func (w *scWorld) minimise(c *scCase, v *violation) (*scCase, *violation, int) {
	end := time.Now().Add(90 * time.Second)
	tried := 0
	if v.Class == "no-progress" {
		return c, v, 0
	}
	for time.Now().Before(end) {
		cand := c.smaller()
		var got *scCase
		var gotV *violation
		for at := 0; at < len(cand) && got == nil && time.Now().Before(end); at += workers() {
			n := len(cand) - at
			if n > workers() {
				n = workers()
			}
			vs := make([]*violation, n)
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					if r, err := w.scExec(cand[at+k]); err == nil {
						vs[k] = r.v
					}
				}(k)
			}
			wg.Wait()
			tried += n
			for k := range vs {
				if vs[k] != nil && vs[k].Class == v.Class {
					got, gotV = cand[at+k], vs[k]
					break
				}
			}
		}
		if got == nil {
			break
		}
		c, v = got, gotV
	}
	return c, v, tried
}

func replayScript(cfg *propCfg, rf *replayFile, path string) int {
	w, err := scBuild()
	if err != nil {
		return trouble(err)
	}
	c := &scCase{}
	if err := json.Unmarshal(rf.Case, c); err != nil {
		return trouble(err)
	}
	r, err := w.scExec(c)
	if err != nil {
		return trouble(err)
	}
	if r.v == nil {
		fmt.Println(strings.Join(r.log, "\n"))
		fmt.Println("the property held in this replay")
		return 0
	}
	if rf.Script != nil {
		if b, _ := json.Marshal(r.log); bytes.Equal(b, compact(rf.Script)) {
			fmt.Println("the replay took exactly the recorded course")
		} else {
			fmt.Println("the replay took a different course than recorded")
		}
	}
	fmt.Printf("%s: %s\n", r.v.Class, r.v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
	return 1
}

func compact(m json.RawMessage) []byte {
	var l []string
	json.Unmarshal(m, &l)
	b, _ := json.Marshal(l)
	return b
}

// selftestScript runs cases again and compares their logs.
func selftestScript(n int) (int, error) {
	w, err := scBuild()
	if err != nil {
		return 0, err
	}
	diff := int64(0)
	var wg sync.WaitGroup
	next := int64(-1)
	for k := 0; k < workers(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				var ref string
				for j := 0; j < 3; j++ {
					r, e := w.scExec(scGen(scSeed(7, i)))
					if e != nil || r.v != nil {
						fmt.Println("C20 run", i, e, r)
						atomic.AddInt64(&diff, 1)
						break
					}
					l := strings.Join(r.log, "\n")
					if j > 0 && l != ref {
						fmt.Printf("C20 run %d differs:\n%s\n--\n%s\n", i, ref, l)
						atomic.AddInt64(&diff, 1)
					}
					ref = l
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("C20: %d runs repeated three times, %d differ\n", n, diff)
	return int(diff), nil
}
