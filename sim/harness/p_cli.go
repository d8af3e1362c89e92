//go:build full

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/codegangsta/cli"
	"github.com/davecgh/go-spew/spew"
	suriya "github.com/splendidmoons/suriya-go"
	"github.com/splendidmoons/suriya-go/suriya"

	"verifsim/model"
	"verifsim/simos"
	"verifsim/simrt"
)

// The command line tool runs as a simulated process, one per phase.

type cliDrv struct {
	Base
	from, to time.Time // what the clock showed when the process started and ended
	before   []byte    // the output file when the process started
	had      bool
	fired    []int // fault counts before the phase
}

// cliRun is a command line, as it is meant.
type cliRun struct {
	cmd          string // caldays, ical, or "" for the default action
	from, to     string // as given
	output       string
	hasFrom, bad bool
	hasTo        bool
}

func parseRun(args []string) (r cliRun) {
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		r.cmd, args = args[0], args[1:]
	}
	for _, a := range args {
		k, v, _ := strings.Cut(strings.TrimLeft(a, "-"), "=")
		switch k {
		case "from":
			r.from, r.hasFrom = v, v != ""
		case "to":
			r.to, r.hasTo = v, v != ""
		case "output":
			r.output = v
		}
	}
	for _, s := range []string{r.from, r.to} {
		if s != "" {
			if _, ok := civilDate(s); !ok {
				r.bad = true
			}
		}
	}
	return
}

// civilDate reads a YYYY-MM-DD date that exists.
func civilDate(s string) (model.DayNum, bool) {
	var y, m, d int
	if len(s) != 10 || s[4] != '-' || s[7] != '-' {
		return 0, false
	}
	for i, c := range s {
		if i != 4 && i != 7 && (c < '0' || c > '9') {
			return 0, false
		}
	}
	fmt.Sscanf(s, "%d-%d-%d", &y, &m, &d)
	if m < 1 || m > 12 || d < 1 || d > 31 {
		return 0, false
	}
	n := model.Civil(y, m, d)
	return n, n.String() == s
}

func runOp(ph *Phase) (Op, bool) {
	if len(ph.Tasks) == 1 && len(ph.Tasks[0]) > 0 && ph.Tasks[0][0].K == "run" {
		return ph.Tasks[0][0], true
	}
	return Op{}, false
}

func procName(e *Env) string { return fmt.Sprintf("run%d", e.Phase) }

func (d *cliDrv) Proc(e *Env, t int) *simrt.Proc {
	op, ok := runOp(e.Ph)
	if !ok {
		return nil
	}
	d.before, d.had = fileOf(e, parseRun(strings.Fields(op.S)).output)
	d.fired = d.fired[:0]
	for _, f := range e.World.Faults {
		d.fired = append(d.fired, f.Fired)
	}
	for _, n := range e.World.Files {
		n.Bad = false // of an earlier run
	}
	env := map[string]string{}
	for k, v := range e.C.Env {
		env[k] = v
	}
	return &simrt.Proc{Name: procName(e), Args: append([]string{"suriya"}, strings.Fields(op.S)...), Env: env, Dir: "/work"}
}

func fileOf(e *Env, name string) ([]byte, bool) {
	if name == "" {
		return nil, false
	}
	n := e.World.Files[inWork(name)]
	if n == nil {
		return nil, false
	}
	return append([]byte(nil), n.Data...), true
}

func (d *cliDrv) Do(e *Env, t int, op Op) string {
	switch op.K {
	case "run":
		d.from = e.Sim.ClockAt()
		suriyacli.VerifMain()
		return "returned"
	case "put": // an earlier file: kind, size
		e.World.Files[inWork(op.S)] = &simos.Node{Data: oldContent(op.arg(0), op.arg(1)), Mode: 0o644}
		return ""
	case "mangle": // a crash of the machine: what an earlier run wrote is partly lost
		if n := e.World.Files[inWork(op.S)]; n != nil && len(n.Data) > 0 {
			n.Data = mangle(n.Data, op.arg(0), op.arg(1), op.arg(2))
		}
		return ""
	}
	return "?"
}

func inWork(name string) string {
	if !path.IsAbs(name) {
		name = path.Join("/work", name)
	}
	return path.Clean(name)
}

func mangle(b []byte, kind, pos, n int) []byte {
	b = bytes.Clone(b)
	p := pos % len(b)
	end := min(p+n, len(b))
	switch kind % 6 {
	case 0:
		b[p] ^= 1
	case 1: // a lost block
		clear(b[p:end])
	case 2:
		b = b[:p]
	case 3: // whole blocks got through
		b = b[:p/512*512]
	case 4:
		b = append(b, b[p:end]...)
	case 5: // a block of something else
		for i := p; i < end; i++ {
			b[i] = 'x'
		}
	}
	return b
}

// oldContent is what a file held before.
func oldContent(kind, size int) []byte {
	switch kind % 6 {
	case 0:
		return []byte{}
	case 5: // whole blocks
		return bytes.Repeat([]byte("{\"201"), size/5+200)[:max(512, size/512*512)]
	case 1:
		return bytes.Repeat([]byte("old "), size/4+1)
	case 2: // a whole earlier output
		return []byte(`{"2015":[{"Date":"2015-01-05T00:00:00Z","HalfMoon":[{"Date":"2015-01-05T00:00:00Z","Phase":"waning"}]}]}`)
	case 3: // and one cut short
		return append([]byte(`{"2015":[{"Date":"2015-01-05T00:00:00Z","HalfMoon":[{"Date":"2015-01-05T00`), bytes.Repeat([]byte{0}, size%64)...)
	}
	return []byte("BEGIN:VCALENDAR\r\nVERSION:2.0\r\n" + strings.Repeat("BEGIN:VEVENT\r\nSUMMARY:old\r\nDTSTART;VALUE=DATE:20150105\r\nDTEND;VALUE=DATE:20150106\r\nEND:VEVENT\r\n", size/90+1) + "END:VCALENDAR\r\n")
}

// seasonNames are those of the printed calendar.
var seasonNames = []string{"", "Hemanta", "Gimha", "Vassāna"}

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// icalWant lists the entries of a range, one line each.
func icalWant(from, to model.DayNum) string {
	var l []string
	add := func(d model.DayNum, s string) {
		if d >= from && d <= to {
			l = append(l, fmt.Sprintf("%s to %s: %s", d, d+1, s))
		}
	}
	if from <= to {
		for y := from.Year() - 1; y <= to.Year()+1; y++ {
			for _, m := range model.Exceptions(nil).Moons(y) {
				add(m.Day, fmt.Sprintf("%s Moon - %d day %s %d/%d", title(m.Phase), m.UDays, seasonNames[m.Season], m.SNum, m.STotal))
				add(m.Day+8, map[string]string{"new": "Waxing Moon", "full": "Waning Moon"}[m.Phase])
				switch m.Event {
				case "magha":
					add(m.Day, "Māgha Pūjā")
				case "vesakha":
					add(m.Day, "Vesākha Pūjā")
				case "asalha":
					add(m.Day, "Āsāḷha Pūjā")
					add(m.Day+1, "First day of Vassa")
				case "pavarana":
					add(m.Day, "Pavāraṇā Day")
					add(m.Day, "Last day of Vassa")
				}
			}
		}
	}
	return sortedLines(l)
}

// icalText reads an iCalendar file strictly.
func icalText(b []byte) (string, string) {
	if !bytes.HasSuffix(b, []byte("\n")) {
		return "", "it does not end in a line end"
	}
	s := strings.ReplaceAll(string(b), "\r\n", "\n")
	s = strings.ReplaceAll(s, "\n ", "") // unfold
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if lines[0] != "BEGIN:VCALENDAR" || lines[len(lines)-1] != "END:VCALENDAR" {
		return "", fmt.Sprintf("it goes from %q to %q", clip(lines[0]), clip(lines[len(lines)-1]))
	}
	var l []string
	ids := map[string]bool{}
	in := false
	var ev map[string]string
	for i, x := range lines[1 : len(lines)-1] {
		k, v, ok := strings.Cut(x, ":")
		if !ok {
			return "", fmt.Sprintf("line %d is %q", i+2, clip(x))
		}
		k, _, _ = strings.Cut(k, ";")
		switch {
		case x == "BEGIN:VEVENT" && !in:
			in, ev = true, map[string]string{}
		case x == "END:VEVENT" && in:
			in = false
			if len(ev["DTSTAMP"]) == 0 || len(ev["UID"]) == 0 {
				return "", fmt.Sprintf("an entry ending at line %d has no UID or DTSTAMP", i+2)
			}
			if ids[ev["UID"]] {
				return "", "two entries share the unique id " + ev["UID"]
			}
			ids[ev["UID"]] = true
			l = append(l, fmt.Sprintf("%s to %s: %s", dashed(ev["DTSTART"]), dashed(ev["DTEND"]), ev["SUMMARY"]))
		case k == "BEGIN" || k == "END":
			return "", fmt.Sprintf("line %d is %q", i+2, clip(x))
		case in:
			if _, dup := ev[k]; dup {
				return "", fmt.Sprintf("line %d repeats %s", i+2, k)
			}
			ev[k] = v
		}
	}
	if in {
		return "", "the last entry is cut short"
	}
	return sortedLines(l), ""
}

func dashed(s string) string {
	if len(s) != 8 {
		return s
	}
	return s[:4] + "-" + s[4:6] + "-" + s[6:]
}

// jsonText reads a calendar file strictly: years holding their days in order.
func jsonText(b []byte) (string, string) {
	dec := json.NewDecoder(bytes.NewReader(b))
	var m map[string][]suriya.CalDay
	if err := dec.Decode(&m); err != nil {
		return "", "it is not complete JSON: " + err.Error()
	}
	if rest, _ := io.ReadAll(io.MultiReader(dec.Buffered())); len(bytes.TrimSpace(rest)) > 0 || dec.More() {
		return "", fmt.Sprintf("there is more after it: %q", clip(string(rest)))
	}
	var ys []string
	for y := range m {
		ys = append(ys, y)
	}
	sort.Slice(ys, func(i, j int) bool { // as numbers: 999 comes before 1000
		if len(ys[i]) != len(ys[j]) {
			return len(ys[i]) < len(ys[j])
		}
		return ys[i] < ys[j]
	})
	var all []suriya.CalDay
	for _, y := range ys {
		for _, d := range m[y] {
			if fmt.Sprint(d.Date.Year()) != y {
				return "", fmt.Sprintf("%s is listed under %s", dayOf(d.Date), y)
			}
		}
		all = append(all, m[y]...)
	}
	return calDaysText(all), ""
}

// wrongOutput tells what is wrong with an output for a range of days.
func wrongOutput(cmd string, b []byte, from, to model.DayNum) string {
	if cmd == "ical" {
		got, bad := icalText(b)
		if bad != "" {
			return bad
		}
		return firstDiff(got, icalWant(from, to))
	}
	got, bad := jsonText(b)
	if bad != "" {
		return bad
	}
	d := firstDiff(got, daysText(rangeDays(nil, from.Time(), to.Time())))
	if d != "" && from <= to { // the last day may stand for all of it
		if got == daysText(rangeDays(nil, from.Time(), to.Time().Add(24*time.Hour-1))) {
			return ""
		}
	}
	return d
}

var dumpDate = regexp.MustCompile(`\b(\d{4})-(\d{2})-(\d{2})\b`)

// wrongAnswer judges an output for each year the default could mean.
func (d *cliDrv) wrongAnswer(e *Env, r cliRun, out []byte) string {
	years := map[int]bool{0: true}
	if !r.hasFrom || !r.hasTo {
		years = map[int]bool{d.from.Year(): true, e.Sim.ClockAt().Year(): true}
		for _, t := range e.Sim.Readings(0) {
			years[t.Year()] = true
		}
	}
	var ys []int
	for y := range years {
		ys = append(ys, y)
	}
	sort.Ints(ys)
	first := ""
	for _, y := range ys {
		from, to := model.Civil(y, 1, 1), model.Civil(y, 12, 31)
		if r.hasFrom {
			from, _ = civilDate(r.from)
		}
		if r.hasTo {
			to, _ = civilDate(r.to)
		}
		w := ""
		if r.cmd == "" {
			seen := map[string]bool{}
			for _, x := range dumpDate.FindAllString(string(out), -1) {
				seen[x] = true
			}
			for _, x := range []string{from.String(), to.String()} {
				if !seen[x] {
					w = fmt.Sprintf("it does not name %s: %q", x, clip(string(out)))
				}
				delete(seen, x)
			}
			if w == "" && len(seen) > 0 {
				w = fmt.Sprintf("it names other dates than %s and %s: %q", from, to, clip(string(out)))
			}
		} else {
			w = wrongOutput(r.cmd, out, from, to)
		}
		if w == "" {
			return ""
		}
		if first == "" {
			first = fmt.Sprintf("range %s to %s: %s", from, to, w)
		}
	}
	if len(ys) > 1 {
		first += fmt.Sprintf(" (nor does it fit another of the years the clock showed: %v)", ys)
	}
	return first
}

func (d *cliDrv) EndPhase(e *Env) string {
	op, ok := runOp(e.Ph)
	if !ok || len(e.Procs) == 0 || e.Procs[0] == nil {
		return ""
	}
	p := e.Procs[0]
	r := parseRun(strings.Fields(op.S))
	line := "suriya " + op.S
	status := p.Code
	if p.How == "return" {
		status = 0
	}
	fault := ""
	for i, f := range e.World.Faults {
		if f.Fired > d.fired[i] {
			fault += fmt.Sprintf(" %s %s %s", f.Op, f.Path, f.Err)
		}
	}
	cond := ""
	if fault != "" {
		cond = " after the disk fault:" + fault
	}
	if status == 0 {
		e.Counts["runs-ok"]++
	} else {
		e.Counts["runs-failed"]++
	}
	after, has := fileOf(e, r.output)
	if r.bad {
		if p.How == "killed" {
			// may not have touched anything either
		} else if status == 0 {
			return fmt.Sprintf("%q exits with status 0, its date cannot be parsed", line)
		}
		if r.output != "" && (has != d.had || !bytes.Equal(after, d.before)) {
			return fmt.Sprintf("%q was rejected, but its output file went from %s to %s", line, contentOf(d.before, d.had), contentOf(after, has))
		}
		return ""
	}
	if p.How == "killed" {
		return ""
	}
	if status != 0 {
		if fault == "" {
			return fmt.Sprintf("%q exits with status %d (%s) though nothing went wrong; it wrote %q", line, status, p.How, clip(string(e.World.Stream(p.Name, "stderr"))))
		}
		return ""
	}
	out := after
	dest := e.World.Files[inWork(r.output)]
	if r.output == "" || r.cmd == "" {
		out = e.World.Stream(p.Name, "stdout")
		dest = e.World.Files["/proc/"+p.Name+"/stdout"]
	} else if !has {
		return fmt.Sprintf("%q exits with status 0%s, but there is no %s", line, cond, r.output)
	}
	if w := d.wrongAnswer(e, r, out); w != "" {
		return fmt.Sprintf("%q exits with status 0%s, but its output is wrong: %s", line, cond, w)
	}
	if dest != nil && dest.Bad {
		return fmt.Sprintf("%q exits with status 0%s", line, cond)
	}
	return ""
}

func contentOf(b []byte, has bool) string {
	if !has {
		return "absent"
	}
	return fmt.Sprintf("%d bytes %q", len(b), clip(string(b)))
}

// ---- generators ----

// cliClock is a clock in the years the calendar is asked about.
func cliClock(r *simrt.Rand) simrt.ClockPlan {
	c := genClock(r)
	c.Start = time.Date(r.Range(1950, 2100), 1, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(r.Intn(366*86400))
	return c
}

// newYearClock is a clock that turns the year, or is stepped across it, while the tool runs.
func newYearClock(r *simrt.Rand) simrt.ClockPlan {
	c := cliClock(r)
	loc := zone(c.Zone)
	if r.Intn(3) == 0 { // the year UTC has and the zone has not, or the other way round
		loc = time.UTC
	}
	ny := time.Date(r.Range(1951, 2099), 1, 1, 0, 0, 0, 0, loc)
	c.Tick = pick(r, []int64{0, 1, 1_000_000, 1_000_000_000, 60_000_000_000, 3600_000_000_000, 40 * 86400_000_000_000})
	c.Start = ny.Unix() - int64(pick(r, []int{0, 1, 1, 2, 60, 3600, 7200, 43200, r.Intn(86400)}))
	c.Nanos = int64(pick(r, []int{0, 1, 999_999_999, r.Intn(1_000_000_000)}))
	if c.Tick > 0 && oneIn(r, 2) { // the nth reading falls on the turn
		n := int64(1 + r.Intn(4))
		at := ny.Unix()*1_000_000_000 - n*c.Tick
		c.Start = int64(math.Floor(float64(at) / 1e9))
		c.Start = fdiv64(at, 1_000_000_000)
		c.Nanos = at - c.Start*1_000_000_000
	}
	c.Jumps = nil
	for i := r.Intn(3); i > 0; i-- {
		c.Jumps = append(c.Jumps, simrt.Jump{At: 1 + r.Intn(4), Delta: int64(r.Range(-400, 400)) * pick(r, []int64{1_000_000_000, 3600_000_000_000, 86400_000_000_000})})
	}
	return c
}

var badDates = []string{"2015-13-01", "2015-02-30", "2015-1-05", "20150105", "tomorrow", "2015-01-05T00:00:00Z", "05-01-2015", "2015-00-10", "2015-06-31", "1900-02-29", "2015-01-0x", "x"}

func cliDates(r *simrt.Rand, max int) (string, string) {
	y := r.Range(1985, 2055)
	if oneIn(r, 8) {
		y = r.Range(700, 3990)
		if max > 400 {
			max = 400
		}
	}
	from := model.Civil(y, 1, 1) + model.DayNum(r.Intn(366))
	if oneIn(r, 3) {
		from = model.Civil(y, 1, 1)
	}
	to := from + model.DayNum(r.Intn(max+1))
	switch r.Intn(8) {
	case 0:
		to = from
	case 1:
		to = from - model.DayNum(r.Intn(3))
	case 2:
		to = model.Civil(from.Year(), 12, 31)
	}
	return from.String(), to.String()
}

func cliCmd(r *simrt.Rand) string { return pick(r, []string{"caldays", "caldays", "ical"}) }

// genRun makes a valid command line.
func genRun(r *simrt.Rand, output string, max int, clock simrt.ClockPlan) string {
	from, to := cliDates(r, max)
	s := cliCmd(r)
	if oneIn(r, 10) {
		day := (model.Civil(time.Unix(clock.Start, 0).UTC().Year(), 1, 1) + model.DayNum(r.Intn(365))).String()
		if oneIn(r, 2) {
			s += " --from=" + day
		} else if oneIn(r, 2) {
			s += " --to=" + day
		}
	} else {
		s += " --from=" + from + " --to=" + to
	}
	if output != "" {
		s += " --output=" + output
	}
	return s
}

func cliPhase(r *simrt.Rand, run string, clock simrt.ClockPlan) *Phase {
	return &Phase{Restart: true, Clock: clock, Aux: r.Uint64(), Plan: simrt.SchedPlan{Policy: "seq"}, Tasks: [][]Op{{{K: "run", S: run}}}}
}

// jitter is the same clock a little later, elsewhere.
func jitter(r *simrt.Rand, c simrt.ClockPlan) simrt.ClockPlan {
	c.Start += int64(r.Intn(86400))
	c.Zone = zones[r.Intn(len(zones))]
	return c
}

func putOp(r *simrt.Rand, name string) Op {
	if oneIn(r, 4) {
		return Op{K: "mangle", S: name, A: []int64{int64(r.Intn(6)), int64(r.Intn(1 << 16)), int64(pick(r, []int{1, 16, 512, 4096}))}}
	}
	return Op{K: "put", S: name, A: []int64{int64(r.Intn(6)), int64(pick(r, []int{1, 100, 512, 1024, 4096, 5000, 8192, 200000}))}}
}

// outName is where the output goes.
func outName(r *simrt.Rand) string {
	if r.Intn(4) > 0 {
		return "out.json"
	}
	return pick(r, []string{"out", "cal.ics", "sub/out.json", "./out.json", "/work/out.json", "/srv/cal/out.json", "out.json.tmp", "-", "100%d.json", "../out.json"})
}

// shortLen is how much of a failing write goes through.
func shortLen(r *simrt.Rand) int {
	switch r.Intn(4) {
	case 0:
		return 0
	case 1:
		return 1 << 30
	}
	return int(math.Exp(float64(r.Intn(1100)) / 100))
}

func genDiskFault(r *simrt.Rand, name string) *simos.Fault {
	f := &simos.Fault{Path: name, Nth: pick(r, []int{1, 1, 1, 2, 3}), Short: shortLen(r)}
	switch r.Intn(8) {
	case 0, 1:
		f.Op, f.Err = "open", pick(r, []string{"EACCES", "EMFILE", "ENOSPC", "EIO", "EROFS", "ENOENT", "EPERM"})
	case 2, 3, 4:
		f.Op, f.Err = "write", pick(r, []string{"ENOSPC", "EIO", "EDQUOT"})
	case 5, 6:
		f.Op, f.Err = "close", pick(r, []string{"ENOSPC", "EIO", "EDQUOT"})
	default:
		f.Op, f.Err = pick(r, []string{"sync", "rename", "stat", "write"}), pick(r, []string{"EIO", "ENOSPC"})
	}
	if oneIn(r, 6) {
		f.Path = "" // whichever file comes
		if f.Op == "write" && oneIn(r, 2) {
			f.Err = "EPIPE"
		}
	}
	return f
}

func genC13(r *simrt.Rand, c *Case) {
	name := outName(r)
	for p := 1 + r.Intn(3); p > 0; p-- {
		o := name
		if oneIn(r, 4) {
			o = ""
		}
		clock := cliClock(r)
		ph := cliPhase(r, genRun(r, o, pick(r, []int{5, 10, 60, 60, 400, r.Intn(1200)}), clock), clock)
		if o != "" && oneIn(r, 3) {
			ph.Set = append(ph.Set, putOp(r, name))
		}
		c.Phases = append(c.Phases, ph)
		if o == "" && oneIn(r, 2) {
			c.Faults = append(c.Faults, &simos.Fault{Op: "write", Path: "stdout", Nth: pick(r, []int{1, 1, 2}), Err: pick(r, []string{"ENOSPC", "EIO", "EPIPE"}), Short: shortLen(r)})
		}
	}
	if r.Intn(4) > 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			c.Faults = append(c.Faults, genDiskFault(r, path.Base(name)))
		}
	}
}

func genC14(r *simrt.Rand, c *Case) {
	name := outName(r)
	max := pick(r, []int{5, 30, 200})
	clock := cliClock(r)
	same := genRun(r, name, max, clock)
	next := func() string {
		if oneIn(r, 2) {
			return same
		}
		return genRun(r, name, max, clock)
	}
	for p := 1 + r.Intn(3); p > 0; p-- {
		run := next()
		if oneIn(r, 4) { // rejected
			from, to := cliDates(r, max)
			switch r.Intn(3) {
			case 0:
				from = pick(r, badDates)
			case 1:
				to = pick(r, badDates)
			default:
				from, to = pick(r, badDates), pick(r, badDates)
			}
			run = cliCmd(r) + " --from=" + from
			if r.Intn(4) > 0 || !strings.Contains(strings.Join(badDates, " "), from) {
				run += " --to=" + to
			}
			run += " --output=" + name
		}
		ph := cliPhase(r, run, jitter(r, clock))
		if oneIn(r, 2) || p == 1 {
			ph.Set = append(ph.Set, putOp(r, name))
		}
		switch r.Intn(3) {
		case 0:
			at := int64(math.Exp(float64(r.Intn(1200)) / 100))
			ph.Kills = []Kill{{0, at}}
		case 1:
			if len(c.Phases) == 0 || oneIn(r, 2) {
				c.KillOp, c.Torn = 1+r.Intn(3+3*len(c.Phases)), shortLen(r)
			}
		}
		c.Phases = append(c.Phases, ph)
	}
	if oneIn(r, 4) {
		c.Faults = append(c.Faults, genDiskFault(r, path.Base(name)))
	}
	c.Phases = append(c.Phases, cliPhase(r, next(), jitter(r, clock)))
	c.Phases[len(c.Phases)-1].Set = nil
}

func genC15(r *simrt.Rand, c *Case) {
	for p := 1 + r.Intn(2); p > 0; p-- {
		run := pick(r, []string{"", "", "caldays", "ical"})
		from, to := "", ""
		clock := newYearClock(r)
		switch r.Intn(3) {
		case 0: // one date given
			y := time.Unix(clock.Start, 0).In(zone(clock.Zone)).Year()
			if oneIn(r, 2) {
				from = (model.Civil(y+r.Range(-1, 0), 1, 1) + model.DayNum(r.Intn(366))).String()
			} else {
				to = (model.Civil(y+r.Range(0, 1), 1, 1) + model.DayNum(r.Intn(366))).String()
			}
			if oneIn(r, 8) { // far from this year: mostly nothing in between
				day := (model.Civil(pick(r, []int{700, 1000, y - 100, y - 2, y + 2, y + 100, 2999, 3900})+r.Intn(50), 1, 1) + model.DayNum(r.Intn(366))).String()
				if from != "" && day > from {
					from = day
				} else if to != "" && day < to {
					to = day
				} else if oneIn(r, 10) { // and a long range
					day = (model.Civil(y+pick(r, []int{-1, 1})*(5+r.Intn(56)), 1, 1) + model.DayNum(r.Intn(366))).String()
					if from != "" && day < from {
						from = day
					} else if to != "" && day > to {
						to = day
					}
				}
			}
		}
		if run != "" { // the default action has no options
			if from != "" {
				run += " --from=" + from
			}
			if to != "" {
				run += " --to=" + to
			}
			if oneIn(r, 2) {
				run += " --output=out.txt"
			}
		}
		ph := cliPhase(r, strings.TrimSpace(run), clock)
		c.Phases = append(c.Phases, ph)
	}
}

func init() {
	cli.Stdout, spew.Stdout, cli.ErrWriter = simos.Stdout, simos.Stdout, simos.Stderr
	cli.OsExiter, cli.Getenv = simos.Exit, simos.Getenv
	register(&Prop{"C13", genC13, func() Driver { return &cliDrv{} }})
	register(&Prop{"C14", genC14, func() Driver { return &cliDrv{} }})
	register(&Prop{"C15", genC15, func() Driver { return &cliDrv{} }})
}
