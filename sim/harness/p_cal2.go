//go:build full

package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/satori/go.uuid"
	"github.com/soh335/ical"
	suriya "github.com/splendidmoons/suriya-go"

	"verifsim/model"
	"verifsim/simrt"
)

// ---- C17: days of the calendar ----

// slot is a day and whether its date and half moon were derived by the code.
type slot struct {
	d          suriya.CalDay
	derD, derH bool
}

const mergeSlots, maxSlots = 4, 16

var mergePhases = []string{"new", "full", "waxing", "waning", "", "odd"}
var mergeSummaries = []string{"", "Kathina", "Māgha Pūjā", "a \"quoted\" <note> & more", "two\nlines", "\u2028", "Pavāraṇā Day",
	" spaced  ", "mixed Case OF words", "50%d, semi;colon, back\\slash", strings.Repeat("Āsāḷha ", 60)}

// thing decodes what an add operation adds: slot, day, time of day, zone, variant.
func thing(op Op) suriya.CalendarEvent {
	v := op.arg(4)
	date := at(model.DayNum(op.arg(1)), op.arg(2), zone(zones[op.arg(3)%len(zones)]))
	ph := mergePhases[v%len(mergePhases)]
	su := mergeSummaries[v%len(mergeSummaries)]
	switch op.K[len(op.K)-1] {
	case 'U':
		return suriya.UposathaMoon{Date: date, Phase: ph, Event: su, Calendar: v % 4, Status: v % 3, S_Number: v % 11, S_Total: 8 + v%3, U_Days: 14 + v%2,
			M_Days: 29 + v%2, LunarMonth: 1 + v%13, LunarSeason: 1 + v%3, LunarYear: 2500 + v, HasAdhikavara: v%2 == 1, Source: su, Comments: ph}
	case 'H':
		return suriya.HalfMoon{Date: date, Phase: ph}
	case 'A':
		return suriya.AstroMoon{Date: date, Phase: ph}
	case 'M':
		return suriya.MajorEvent{Date: date, Calendar: v % 4, Summary: su + fmt.Sprint(v), Description: ph}
	}
	return suriya.Event{Date: date, Calendar: v % 4, Summary: su + fmt.Sprint(v), Description: ph}
}

// repeated lists the additions of an operation, which may be many.
func repeated(op Op) []Op {
	l := []Op{op}
	if len(op.A) > 5 {
		for i := int64(1); i <= op.A[5]%200; i++ {
			o := Op{K: op.K, A: append([]int64{}, op.A[:5]...)}
			o.A[4] += i
			l = append(l, o)
		}
	}
	return l
}

// thingText is everything a caller can see of a moon or event.
func thingText(e suriya.CalendarEvent) string {
	const f = "2006-01-02T15:04:05Z07:00"
	switch m := e.(type) {
	case suriya.UposathaMoon:
		return uposathaText(m) + m.Date.Format(f)
	case suriya.HalfMoon:
		return "H" + m.Date.Format(f) + m.Phase
	case suriya.AstroMoon:
		return "A" + m.Date.Format(f) + m.Phase
	case suriya.MajorEvent:
		return fmt.Sprintf("M%s cal%d %q %q", m.Date.Format(f), m.Calendar, m.Summary, m.Description)
	case suriya.Event:
		return fmt.Sprintf("E%s cal%d %q %q", m.Date.Format(f), m.Calendar, m.Summary, m.Description)
	}
	return "?"
}

// slotText is everything a caller can see of a day.
func slotText(s slot) string {
	var b strings.Builder
	f := "2006-01-02T15:04:05Z07:00"
	if s.derD {
		f = "2006-01-02"
	}
	b.WriteString(s.d.Date.Format(f) + "|")
	if len(s.d.UposathaMoon) > 1 || len(s.d.HalfMoon) > 1 || len(s.d.AstroMoon) > 1 {
		b.WriteString("more than one moon of a kind|")
	}
	for _, m := range s.d.UposathaMoon {
		b.WriteString(thingText(m) + "|")
	}
	for _, m := range s.d.HalfMoon {
		if s.derH {
			b.WriteString("H" + m.Date.Format("2006-01-02") + m.Phase + "|")
			continue
		}
		b.WriteString(thingText(m) + "|")
	}
	for _, m := range s.d.AstroMoon {
		b.WriteString(thingText(m) + "|")
	}
	for _, m := range s.d.MajorEvents {
		b.WriteString(thingText(m) + "|")
	}
	for _, m := range s.d.Events {
		b.WriteString(thingText(m) + "|")
	}
	// the accessors agree with the fields
	if u := s.d.GetUposathaMoon(); len(s.d.UposathaMoon) > 0 && u != s.d.UposathaMoon[0] || len(s.d.UposathaMoon) == 0 && u != (suriya.UposathaMoon{}) {
		b.WriteString("GetUposathaMoon gives " + thingText(u))
	}
	if u := s.d.GetHalfMoon(); len(s.d.HalfMoon) > 0 && u != s.d.HalfMoon[0] || len(s.d.HalfMoon) == 0 && u != (suriya.HalfMoon{}) {
		b.WriteString("GetHalfMoon gives " + thingText(u))
	}
	if u := s.d.GetAstroMoon(); len(s.d.AstroMoon) > 0 && u != s.d.AstroMoon[0] || len(s.d.AstroMoon) == 0 && u != (suriya.AstroMoon{}) {
		b.WriteString("GetAstroMoon gives " + thingText(u))
	}
	return b.String()
}

func slotsText(l []slot) string {
	var t []string
	for i, s := range l {
		t = append(t, fmt.Sprintf("day %d: %s", i, slotText(s)))
	}
	return strings.Join(t, "\n")
}

// mday is the model of a day.
type mday struct {
	date    string
	u, h, a string
	phase   string // of the uposatha
	day     model.DayNum
	m, e    []string
}

func (d mday) text() string {
	s := d.date + "|"
	for _, x := range []string{d.u, d.h, d.a} {
		if x != "" {
			s += x + "|"
		}
	}
	for _, x := range d.m {
		s += x + "|"
	}
	for _, x := range d.e {
		s += x + "|"
	}
	return s
}

func (d mday) copy() mday {
	d.m = append([]string(nil), d.m...)
	d.e = append([]string(nil), d.e...)
	return d
}

var emptyDay = mday{date: "0001-01-01T00:00:00Z", day: model.Civil(1, 1, 1)}

// saved is a day on disk; the flags are the harness's own notes.
type saved struct {
	b          []byte
	derD, derH bool
}

type mergeDrv struct {
	Base
	base  []slot
	mbase []mday
	live  [][]slot
	mlive [][]mday
	disk  [][]saved // per task and cell
	mdisk [][]mday
	keep  [][]slot // what a derive operation was given
	mkeep [][]mday
}

func (d *mergeDrv) Begin(e *Env) {
	n := maxTasks(e.C)
	d.disk, d.mdisk = make([][]saved, n), make([][]mday, n)
	for i := range d.disk {
		d.disk[i], d.mdisk[i] = make([]saved, 2), []mday{emptyDay, emptyDay}
	}
	d.Restarted(e)
}

func (d *mergeDrv) Restarted(e *Env) {
	n := len(d.disk)
	d.live, d.mlive, d.keep, d.mkeep = make([][]slot, n), make([][]mday, n), make([][]slot, n), make([][]mday, n)
	fresh := func() ([]slot, []mday) {
		s, m := make([]slot, mergeSlots), []mday{}
		for range s {
			m = append(m, emptyDay)
		}
		return s, m
	}
	for i := 0; i < n; i++ {
		d.live[i], d.mlive[i] = fresh()
	}
	d.base, d.mbase = fresh()
}

func (d *mergeDrv) Do(e *Env, t int, op Op) string {
	l := &d.base
	if t >= 0 {
		l = &d.live[t]
	}
	s := func(i int) *slot { return &(*l)[op.arg(i)%len(*l)] }
	show := func() string {
		out := slotsText(*l)
		if t >= 0 && d.keep[t] != nil {
			out += "\ngiven:\n" + slotsText(d.keep[t])
		}
		return out
	}
	switch op.K {
	case "addU", "addH", "addA", "addM", "addE":
		p := s(0)
		for _, o := range repeated(op) {
			thing(o).AddToDay(&p.d)
		}
		p.derD = false
		if op.K == "addH" {
			p.derH = false
		}
	case "setU", "setH", "setA": // the moon alone, the date stays
		p := s(0)
		switch m := thing(op).(type) {
		case suriya.UposathaMoon:
			p.d.SetUposathaMoon(m)
		case suriya.HalfMoon:
			p.d.SetHalfMoon(m)
		case suriya.AstroMoon:
			p.d.SetAstroMoon(m)
		}
		if op.K == "setH" {
			p.derH = false
		}
	case "cp":
		*s(1) = *s(0)
	case "base": // a copy of a day all callers share
		*s(1) = d.base[op.arg(0)%len(d.base)]
	case "save":
		b, err := json.Marshal(s(0).d)
		if err != nil {
			return err.Error()
		}
		simrt.Y(0)
		d.disk[t][op.arg(1)%2] = saved{b, s(0).derD, s(0).derH}
	case "load":
		b := d.disk[t][op.arg(1)%2]
		*s(0) = slot{derD: b.derD, derH: b.derH}
		if b.b != nil {
			if err := json.Unmarshal(b.b, &s(0).d); err != nil {
				return err.Error()
			}
		}
	case "half":
		n := op.arg(0) % (len(*l) + 1)
		rest := n // the days after the given ones that lie in the same array
		if op.arg(3) == 1 {
			rest = len(*l)
		}
		given := make([]suriya.CalDay, 0, rest+op.arg(1)) // with and without room to grow
		for _, x := range (*l)[:rest] {
			given = append(given, x.d)
		}
		got := suriya.AddHalfMoonDays(given[:n])
		if len(got) < n {
			return fmt.Sprintf("%d days came back for %d", len(got), n)
		}
		var out []slot
		for i, x := range got {
			s := slot{x, true, true}
			if i < n {
				s.derD, s.derH = (*l)[i].derD, (*l)[i].derH
			}
			out = append(out, s)
		}
		d.keep[t] = nil
		for i, x := range given {
			d.keep[t] = append(d.keep[t], slot{x, (*l)[i].derD, (*l)[i].derH})
		}
		r := slotsText(out)
		if op.arg(2) == 1 && len(out) > 0 && len(out) <= maxSlots { // go on with the result
			*l = out
		}
		return r + "\n" + show()
	}
	return show()
}

// madd is the model of an addition.
func (m *mday) madd(op Op, date bool) {
	th := thing(op)
	tx := thingText(th)
	switch op.K[len(op.K)-1] {
	case 'U':
		m.u, m.phase = tx, th.(suriya.UposathaMoon).Phase
	case 'H':
		m.h = tx
	case 'A':
		m.a = tx
	case 'M':
		m.m = append(m.m, tx)
	case 'E':
		m.e = append(m.e, tx)
	}
	if date {
		d := th.GetDate()
		m.date = d.Format("2006-01-02T15:04:05Z07:00")
		m.day = model.Civil(d.Year(), int(d.Month()), d.Day())
	}
}

func mtext(l []mday) string {
	var t []string
	for i, x := range l {
		t = append(t, fmt.Sprintf("day %d: %s", i, x.text()))
	}
	return strings.Join(t, "\n")
}

func (d *mergeDrv) Check(e *Env, t int, op Op, got string) string {
	l := &d.mbase
	if t >= 0 {
		l = &d.mlive[t]
	}
	s := func(i int) *mday { return &(*l)[op.arg(i)%len(*l)] }
	pre := ""
	switch op.K {
	case "addU", "addH", "addA", "addM", "addE":
		for _, o := range repeated(op) {
			s(0).madd(o, true)
		}
	case "setU", "setH", "setA":
		s(0).madd(op, false)
	case "cp":
		*s(1) = s(0).copy()
	case "base":
		*s(1) = d.mbase[op.arg(0)%len(d.mbase)].copy()
	case "save":
		d.mdisk[t][op.arg(1)%2] = s(0).copy()
	case "load":
		*s(0) = d.mdisk[t][op.arg(1)%2].copy()
	case "half":
		n := op.arg(0) % (len(*l) + 1)
		var out []mday
		for _, x := range (*l)[:n] {
			out = append(out, x.copy())
		}
		for _, x := range (*l)[:n] {
			ph := map[string]string{"new": "waxing", "full": "waning"}[x.phase]
			if x.u == "" || ph == "" {
				continue
			}
			day := x.day + 8
			out = append(out, mday{date: day.String(), h: "H" + day.String() + ph, day: day})
		}
		d.mkeep[t] = nil
		rest := n
		if op.arg(3) == 1 {
			rest = len(*l)
		}
		for _, x := range (*l)[:rest] {
			d.mkeep[t] = append(d.mkeep[t], x.copy())
		}
		pre = mtext(out) + "\n"
		if op.arg(2) == 1 && len(out) > 0 && len(out) <= maxSlots {
			*l = out
		}
	}
	want := pre + mtext(*l)
	if t >= 0 && d.mkeep[t] != nil {
		want += "\ngiven:\n" + mtext(d.mkeep[t])
	}
	return firstDiff(got, want)
}

// a kill can fall after a save reached the disk and before it was acknowledged
func (d *mergeDrv) EndPhase(e *Env) string {
	for t, rs := range e.Res {
		for _, r := range rs {
			if r.done {
				continue
			}
			if r.op.K == "save" {
				l := d.mlive[t]
				m := l[r.op.arg(0)%len(l)]
				cell := r.op.arg(1) % 2
				if b := d.disk[t][cell]; b.b != nil {
					s := slot{derD: b.derD, derH: b.derH}
					if err := json.Unmarshal(b.b, &s.d); err != nil {
						return "the saved day is unreadable: " + err.Error()
					}
					if slotText(s) == m.text() {
						d.mdisk[t][cell] = m.copy()
					}
				}
			}
			break
		}
	}
	return ""
}

func genC17(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(3)
	np := 1 + r.Intn(3)
	base := int64(model.Civil(r.Range(1990, 2040), 1, 1))
	var prev []Op
	add := func() Op {
		if len(prev) > 0 && oneIn(r, 6) { // the same again, at times for another day
			o := pick(r, prev)
			o.A = append([]int64{}, o.A...)
			if oneIn(r, 3) {
				o.A[0] = int64(r.Intn(maxSlots))
			}
			if oneIn(r, 4) {
				o.A[1] = base + int64(r.Intn(400))
			}
			return o
		}
		k := pick(r, []string{"addU", "addH", "addA", "addM", "addE", "addM", "addE", "setU", "setH", "setA"})
		o := Op{K: k, A: []int64{int64(r.Intn(maxSlots)), base + int64(r.Intn(400)), int64(pick(r, []int{0, 0, 43200, r.Intn(86400)})), int64(r.Intn(len(zones))), int64(r.Intn(60))}}
		if oneIn(r, 6) { // eight days before the clocks change
			if oneIn(r, 2) {
				o.A[3] = midnightZone
				o.K = "addU"
			}
			o.A[1] = changeDay(r.Range(1990, 2040), int(o.A[3]), r) - int64(8+r.Intn(2))
			o.A[2] = int64(pick(r, []int{0, 0, 1800, 3600, 7200, 84600}))
		}
		if oneIn(r, 40) { // a busy day
			o.A = append(o.A, int64(pick(r, []int{3, 7, 15, 31, 63, 100})))
			return o
		}
		prev = append(prev, Op{K: o.K, A: append([]int64{}, o.A...)})
		return o
	}
	for p := 0; p < np; p++ {
		ph := &Phase{Clock: genClock(r), Aux: r.Uint64(), Plan: genPlan(r, nt), Restart: p > 0 && oneIn(r, 2)}
		for i := r.Intn(8); i > 0; i-- {
			o := add()
			o.A[0] = int64(r.Intn(2))
			ph.Set = append(ph.Set, o)
		}
		for t := 0; t < nt; t++ {
			var l []Op
			if ph.Restart {
				l = append(l, Op{K: "load", A: []int64{int64(r.Intn(4)), int64(r.Intn(2))}})
			}
			if oneIn(r, 2) {
				l = append(l, Op{K: "base", A: []int64{int64(r.Intn(2)), int64(r.Intn(4))}})
			}
			// a few days get most of the changes
			hot := []int64{int64(r.Intn(4)), int64(r.Intn(4))}
			prev = nil
			for i := 2 + r.Intn(14); i > 0; i-- {
				switch r.Intn(12) {
				case 0, 1:
					l = append(l, Op{K: "cp", A: []int64{pick(r, hot), int64(r.Intn(maxSlots))}})
				case 2:
					l = append(l, Op{K: "base", A: []int64{int64(r.Intn(2)), pick(r, hot)}})
				case 3:
					l = append(l, Op{K: "save", A: []int64{pick(r, hot), int64(r.Intn(2))}})
				case 4:
					l = append(l, Op{K: "load", A: []int64{int64(r.Intn(4)), int64(r.Intn(2))}})
				case 5:
					l = append(l, Op{K: "half", A: []int64{int64(r.Intn(maxSlots)), int64(pick(r, []int{0, 1, 20})), int64(r.Intn(2)), int64(r.Intn(2))}})
				default:
					o := add()
					if r.Intn(4) > 0 && o.A[0] != hot[0] {
						o.A[0] = pick(r, hot)
					}
					l = append(l, o)
				}
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		if p+1 < np && oneIn(r, 3) {
			ph.Kills = append(ph.Kills, Kill{r.Intn(nt), int64(1 + r.Intn(200*nt))})
		}
		c.Phases = append(c.Phases, ph)
	}
	for i := 1; i < np; i++ {
		if len(c.Phases[i-1].Kills) > 0 {
			c.Phases[i].Restart = true
		}
	}
}

// ---- C18: export ----

type exportDrv struct {
	Base
	uids   [][]string // of each task, in the running phase
	seen   map[string]string
	shared []suriya.CalendarEvent // entries more than one caller exports
}

func (d *exportDrv) Begin(e *Env) {
	n := maxTasks(e.C)
	d.uids, d.seen = make([][]string, n), map[string]string{}
}

func export(ev suriya.CalendarEvent) ical.VEvent {
	switch m := ev.(type) {
	case suriya.UposathaMoon:
		return m.IcalEvent()
	case suriya.HalfMoon:
		return m.IcalEvent()
	case suriya.AstroMoon:
		return m.IcalEvent()
	case suriya.MajorEvent:
		return m.IcalEvent()
	}
	return ev.(suriya.Event).IcalEvent()
}

func (d *exportDrv) Do(e *Env, t int, op Op) string {
	ev := thing(op)
	first := e.Sim.Reads()
	var out string
	for i := op.arg(5); i >= 0; i-- {
		v := export(ev)
		out = fmt.Sprintf("all-day=%v start=%s end=%s summary=%q", v.AllDay, v.DTSTART.Format("2006-01-02"), v.DTEND.Format("2006-01-02"), v.SUMMARY)
		if v.UID == "" {
			return out + " without an id"
		}
		d.uids[t] = append(d.uids[t], v.UID)
		ok := false
		for _, at := range e.Sim.Readings(first) {
			if v.DTSTAMP.Unix() == at.Unix() {
				ok = true
			}
		}
		if !ok {
			return out + " stamped " + v.DTSTAMP.UTC().Format(time.RFC3339) + ", which the clock did not show"
		}
		first = e.Sim.Reads()
	}
	return out
}

func (d *exportDrv) Check(e *Env, t int, op Op, got string) string {
	ev := thing(op)
	a := model.Civil(ev.GetDate().Year(), int(ev.GetDate().Month()), ev.GetDate().Day())
	return differ(got, fmt.Sprintf("all-day=true start=%s end=%s summary=%q", a, a+1, ev.String()))
}

func (d *exportDrv) EndPhase(e *Env) string {
	for t, l := range d.uids {
		for i, u := range l {
			at := fmt.Sprintf("export %d of caller %d in phase %d", i, t, e.Phase)
			if o, dup := d.seen[u]; dup {
				return fmt.Sprintf("%s has the unique id of %s: %s", at, o, u)
			}
			d.seen[u] = at
		}
		d.uids[t] = nil
	}
	return ""
}

func genC18(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(4)
	var used []Op
	for p := 1 + r.Intn(3); p > 0; p-- {
		ph := &Phase{Clock: genClock(r), Aux: r.Uint64(), Plan: genPlan(r, nt), Restart: len(c.Phases) > 0 && oneIn(r, 2)}
		if oneIn(r, 3) {
			ph.Clock.Tick = 0
		}
		if len(c.Phases) > 0 && oneIn(r, 3) { // another process that starts while the clock shows the same
			ph.Clock, ph.Restart = c.Phases[len(c.Phases)-1].Clock, true
		}
		for t := 0; t < nt; t++ {
			var l []Op
			for i := 1 + r.Intn(6); i > 0; i-- {
				if len(used) > 0 && oneIn(r, 3) {
					l = append(l, pick(r, used))
					continue
				}
				y := r.Range(1900, 2100)
				day := int64(model.Civil(y, 1, 1)) + int64(r.Intn(366))
				z := r.Intn(len(zones))
				if oneIn(r, 2) { // near a change of the clocks
					day = changeDay(y, z, r) + int64(r.Range(-2, 2))
				}
				o := Op{K: "ical" + pick(r, []string{"U", "H", "A", "M", "E"}), A: []int64{0, day, int64(pick(r, []int{0, 0, 1800, 3600, 43200, 82800, 84600, 86399, r.Intn(86400)})), int64(z), int64(r.Intn(60)), int64(pick(r, []int{0, 0, 1, 3}))}}
				used = append(used, o)
				l = append(l, o)
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		c.Phases = append(c.Phases, ph)
	}
	if c.Index%3000 == 9 { // ids stay unique in a long export
		o := pick(r, used)
		a := append([]int64{}, o.A...)
		a[5] = 100000
		c.Phases = c.Phases[:1]
		c.Phases[0].Tasks, c.Phases[0].Kills = [][]Op{{{K: o.K, A: a}}}, nil
	}
}

// changeDay finds a day on which a zone changes its offset in a year.
func changeDay(y, z int, r *simrt.Rand) int64 {
	loc := zone(zones[z])
	var l []int64
	prev := 0
	for d := int64(model.Civil(y, 1, 1)); d <= int64(model.Civil(y, 12, 31)); d++ {
		_, off := time.Unix(d*86400, 0).In(loc).Zone()
		if off != prev && d > int64(model.Civil(y, 1, 1)) {
			l = append(l, d)
		}
		prev = off
	}
	if len(l) == 0 {
		return int64(model.Civil(y, 1, 1)) + int64(r.Intn(366))
	}
	return pick(r, l)
}

func init() {
	uuid.Source = func(b []byte) {
		for i := 0; i < len(b); i += 8 {
			v := simrt.AuxUint64()
			for j := i; j < i+8 && j < len(b); j++ {
				b[j] = byte(v >> (8 * uint(j-i)))
			}
		}
	}
	register(&Prop{"C17", genC17, func() Driver { return &mergeDrv{} }})
	register(&Prop{"C18", genC18, func() Driver { return &exportDrv{} }})
}
