//go:build full

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"

	"verifsim/model"
	"verifsim/simrt"
)

// ---- texts of moons and events ----

func dayOf(t time.Time) string { return t.Format("2006-01-02") }

func uposathaText(m suriya.UposathaMoon) string {
	return fmt.Sprintf("U %s %s ev=%s %d/%d u%d m%d month%d season%d year%d extra=%v status%d cal%d %s%s",
		dayOf(m.Date), m.Phase, m.Event, m.S_Number, m.S_Total, m.U_Days, m.M_Days, m.LunarMonth, m.LunarSeason, m.LunarYear, m.HasAdhikavara, m.Status, m.Calendar, m.Source, m.Comments)
}

func moonText(m model.Moon, status int) string {
	return fmt.Sprintf("U %s %s ev=%s %d/%d u%d m%d month%d season%d year%d extra=%v status%d cal%d %s%s",
		m.Day, m.Phase, m.Event, m.SNum, m.STotal, m.UDays, m.MDays, m.Month, m.Season, m.Year, m.Extra, status, 0, "", "")
}

func halfText(d, phase string) string { return "H " + d + " " + phase }

func majorText(d string, cal int, summary, desc string) string {
	return fmt.Sprintf("M %s cal%d %s (%s)", d, cal, summary, desc)
}

func astroText(t time.Time, phase string) string {
	return "A " + t.UTC().Format(time.RFC3339Nano) + " " + phase
}

func eventText(e suriya.CalendarEvent) string {
	switch m := e.(type) {
	case suriya.UposathaMoon:
		return uposathaText(m)
	case *suriya.UposathaMoon:
		return uposathaText(*m)
	case suriya.HalfMoon:
		return halfText(dayOf(m.Date), m.Phase)
	case suriya.MajorEvent:
		return majorText(dayOf(m.Date), m.Calendar, m.Summary, m.Description)
	case suriya.AstroMoon:
		return astroText(m.Date, m.Phase)
	case suriya.Event:
		return "E " + dayOf(m.Date) + " " + m.Summary
	}
	return fmt.Sprintf("? %T", e)
}

// utc tells whether a date is given in UTC at midnight, as generated dates are.
func utc(t time.Time) bool {
	_, off := t.Zone()
	return off == 0
}

func sortedLines(l []string) string {
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// ---- what a year and a range hold ----

type calItem struct {
	day  model.DayNum
	text string
}

// generated lists the uposathas, half moons and festivals of a civil year.
func generated(x model.Exceptions, year int) []calItem {
	var out []calItem
	add := func(d model.DayNum, s string) {
		if d.Year() == year {
			out = append(out, calItem{d, s})
		}
	}
	for y := year - 1; y <= year+1; y++ {
		for _, m := range x.Moons(y) {
			add(m.Day, moonText(m, 2))
			ph := "waxing"
			if m.Phase == "full" {
				ph = "waning"
			}
			add(m.Day+8, halfText((m.Day+8).String(), ph))
			maj := func(d model.DayNum, s string) { add(d, majorText(d.String(), 0, s, s)) }
			switch m.Event {
			case "magha":
				maj(m.Day, "Māgha Pūjā")
			case "vesakha":
				maj(m.Day, "Vesākha Pūjā")
			case "asalha":
				maj(m.Day, "Āsāḷha Pūjā")
				maj(m.Day+1, "First day of Vassa")
			case "pavarana":
				maj(m.Day, "Pavāraṇā Day")
				maj(m.Day, "Last day of Vassa")
			}
		}
	}
	return out
}

// astroIn lists the astronomical moons of an interval; years in lost may be missing.
func astroIn(from, to time.Time) (out []astro) {
	for y := from.UTC().Year(); y <= to.UTC().Year(); y++ {
		for _, a := range astroOf[y] {
			if !a.At.Before(from) && !a.At.After(to) {
				out = append(out, a)
			}
		}
	}
	return
}

// rangeDays lists what each day of a range holds. looseEnd: astronomical
// moons later on the last day may be there.
func rangeDays(x model.Exceptions, from, to time.Time) map[string][]string {
	days := map[string][]string{}
	for _, a := range astroIn(from, to) {
		d := dayOf(a.At)
		days[d] = append(days[d], astroText(a.At, a.Phase))
	}
	for y := from.UTC().Year(); y <= to.UTC().Year(); y++ {
		for _, it := range generated(x, y) {
			t := it.day.Time()
			if t.Before(from) || t.After(to) {
				continue
			}
			d := it.day.String()
			days[d] = append(days[d], it.text)
		}
	}
	return days
}

func daysText(days map[string][]string) string {
	var ks []string
	for k := range days {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k + ":\n" + sortedLines(days[k]) + "\n")
	}
	return b.String()
}

// calDaysText puts generated days in the same form, and checks their shape.
func calDaysText(cal []suriya.CalDay) string {
	days := map[string][]string{}
	bad := ""
	var last time.Time
	for i, c := range cal {
		if !utc(c.Date) {
			bad = fmt.Sprintf("day %d is not in UTC: %s", i, c.Date.Format(time.RFC3339))
		}
		d := dayOf(c.Date.UTC())
		if i > 0 && !c.Date.After(last) {
			bad = fmt.Sprintf("day %s is not after the one before it", c.Date.Format(time.RFC3339))
		}
		last = c.Date
		if _, dup := days[d]; dup {
			bad = "day " + d + " is listed twice"
		}
		days[d] = append(days[d], calDayLines(c)...)
		if len(days[d]) == 0 {
			bad = "day " + d + " is empty"
			days[d] = []string{}
		}
	}
	if bad != "" {
		return bad
	}
	return daysText(days)
}

func calDayLines(c suriya.CalDay) (out []string) {
	for _, m := range c.UposathaMoon {
		out = append(out, uposathaText(m))
	}
	for _, m := range c.HalfMoon {
		out = append(out, halfText(dayOf(m.Date), m.Phase))
	}
	for _, m := range c.AstroMoon {
		out = append(out, astroText(m.Date, m.Phase))
	}
	for _, m := range c.MajorEvents {
		out = append(out, majorText(dayOf(m.Date), m.Calendar, m.Summary, m.Description))
	}
	for _, m := range c.Events {
		out = append(out, "E "+dayOf(m.Date)+" "+m.Summary)
	}
	return
}

// firstDiff names the first line in which two texts differ.
func firstDiff(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; ; i++ {
		a, b := "(end)", "(end)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(w) {
			b = w[i]
		}
		if a != b {
			return fmt.Sprintf("line %d is %q, should be %q", i+1, a, b)
		}
	}
}

// ---- operations ----

// instant decodes a moment given as a day number, seconds and a zone number.
func instant(day, sec, z int64) time.Time {
	t := time.Unix(day*86400+sec, 0)
	return t.In(zone(zones[int(z)%len(zones)]))
}

var nanos = []int64{0, 1, 500_000_000, 999_999_999, 999_000_000}

// bounds decodes the ends of a range. The fifth argument holds the zone, what
// the ends have beyond whole seconds, and the zone of the second end if it is
// another one.
func bounds(op Op) (from, to time.Time) {
	z, v := op.A[4]%100, op.A[4]/100
	from = instant(op.A[0], op.A[1], z).Add(time.Duration(nanos[v%10%int64(len(nanos))]))
	if v/100 > 0 {
		z = v/100 - 1
	}
	to = instant(op.A[2], op.A[3], z).Add(time.Duration(nanos[v/10%10%int64(len(nanos))]))
	return from, to
}

// fineEnds makes the ends of a range uneven: parts of a second, two zones.
func fineEnds(r *simrt.Rand, a []int64) {
	if oneIn(r, 5) {
		a[4] += 100*int64(r.Intn(len(nanos))) + 1000*int64(r.Intn(len(nanos)))
	}
	if oneIn(r, 6) {
		a[4] += 10000 * int64(1+r.Intn(len(zones)))
	}
}

func askCal(op Op) string {
	switch op.K {
	case "gen":
		var l []string
		for _, e := range suriya.GenerateSolarYear(op.arg(0)) {
			if !utc(e.GetDate()) {
				return "not in UTC: " + e.GetDate().Format(time.RFC3339)
			}
			l = append(l, eventText(e))
		}
		return sortedLines(l)
	case "range":
		return calDaysText(suriya.GetCalDays(bounds(op)))
	case "astro":
		var l []string
		for _, m := range suriya.GetAstroMoons(bounds(op)) {
			if len(op.A) > 5 { // and as a day of the calendar
				var d suriya.CalDay
				m.AddToDay(&d)
				m = d.GetAstroMoon()
			}
			l = append(l, astroText(m.Date, m.Phase))
		}
		return strings.Join(l, "\n")
	case "addhalf": // half moons derived from a year's uposathas
		var days []suriya.CalDay
		for _, e := range suriya.GenerateSolarYear(op.arg(0)) {
			if u, ok := e.(suriya.UposathaMoon); ok {
				d := suriya.CalDay{Date: u.Date}
				u.AddToDay(&d)
				days = append(days, d)
			}
		}
		var l []string
		for _, d := range suriya.AddHalfMoonDays(days) {
			for _, s := range calDayLines(d) {
				l = append(l, dayOf(d.Date)+" "+s)
			}
		}
		return sortedLines(l)
	}
	return ask(op)
}

func wantCal(x model.Exceptions, op Op) string {
	switch op.K {
	case "gen", "gen!":
		var l []string
		for _, it := range generated(x, op.arg(0)) {
			l = append(l, it.text)
		}
		return sortedLines(l)
	case "range", "range!":
		from, to := bounds(op)
		return daysText(rangeDays(x, from, to))
	case "astro":
		var l []string
		for _, a := range astroIn(bounds(op)) {
			l = append(l, astroText(a.At, a.Phase))
		}
		return strings.Join(l, "\n")
	case "addhalf":
		var l []string
		y := op.arg(0)
		for _, ly := range []int{y, y + 1} {
			for _, m := range x.Moons(ly) {
				if m.Day.Year() != y {
					continue
				}
				ph := "waxing"
				if m.Phase == "full" {
					ph = "waning"
				}
				l = append(l, m.Day.String()+" "+moonText(m, 2), (m.Day+8).String()+" "+halfText((m.Day+8).String(), ph))
			}
		}
		return sortedLines(l)
	}
	return want(x, op)
}

func differCal(got, want string) string {
	if strings.Contains(got, "\n") || strings.Contains(want, "\n") {
		return firstDiff(got, want)
	}
	return differ(got, want)
}

// ---- C16 and C06 ----

type calDrv struct {
	Base
	solo bool
	x    model.Exceptions
	held []heldCal // per task: the last result, which the caller keeps
}

// heldCal is a result a caller keeps: it stays as it was given, whatever other
// callers ask and do with their own results.
type heldCal struct {
	op   Op
	text string
	look func() string
}

func (d *calDrv) Begin(e *Env) {
	d.held = make([]heldCal, maxTasks(e.C))
}

func (d *calDrv) Restarted(e *Env) { d.Begin(e) }

// lookAgain reads the result a caller kept.
func (d *calDrv) lookAgain(t int) string {
	if h := d.held[t]; h.look != nil {
		if now := h.look(); now != h.text {
			return fmt.Sprintf("the result of %s, kept by the caller, changed: %s", h.op, firstDiff(now, h.text))
		}
	}
	return ""
}

// asked gives a result that the caller keeps, and, on request, writes over.
func asked(op Op) (look func() string, spoil func()) {
	switch op.K {
	case "gen", "gen!":
		evs := suriya.GenerateSolarYear(op.arg(0))
		look = func() string {
			var l []string
			for _, e := range evs {
				if !utc(e.GetDate()) {
					return "not in UTC: " + e.GetDate().Format(time.RFC3339)
				}
				l = append(l, eventText(e))
			}
			return sortedLines(l)
		}
		spoil = func() {
			for i := range evs {
				if m, ok := evs[i].(*suriya.UposathaMoon); ok {
					m.Phase, m.Event = "spoilt", "spoilt"
				}
				evs[i] = suriya.Event{Summary: "spoilt"}
			}
			for i := 0; i < 120; i++ {
				evs = append(evs, suriya.Event{Summary: "spoilt"})
			}
		}
	case "range", "range!":
		cal := suriya.GetCalDays(bounds(op))
		look = func() string { return calDaysText(cal) }
		spoil = func() {
			for i := range cal {
				c := &cal[i]
				for j := range c.UposathaMoon {
					c.UposathaMoon[j].Event, c.UposathaMoon[j].Phase = "spoilt", "spoilt"
				}
				for j := range c.HalfMoon {
					c.HalfMoon[j].Phase = "spoilt"
				}
				for j := range c.AstroMoon {
					c.AstroMoon[j].Phase = "spoilt"
				}
				for j := range c.MajorEvents {
					c.MajorEvents[j].Summary = "spoilt"
				}
				c.Events = append(c.Events, suriya.Event{Summary: "spoilt"})
				c.MajorEvents = append(c.MajorEvents, suriya.MajorEvent{Summary: "spoilt"})
				c.UposathaMoon = append(c.UposathaMoon, suriya.UposathaMoon{Event: "spoilt"})
				c.Date = c.Date.AddDate(0, 0, 1)
			}
			for i := 0; i < 40; i++ {
				cal = append(cal, suriya.CalDay{Events: []suriya.Event{{Summary: "spoilt"}}})
			}
		}
	}
	return
}

func (d *calDrv) Do(e *Env, t int, op Op) string {
	bad := d.lookAgain(t)
	if bad != "" {
		return bad
	}
	look, spoil := asked(op)
	if look == nil {
		return askCal(op)
	}
	d.held[t] = heldCal{}
	got := look()
	if strings.HasSuffix(op.K, "!") {
		spoil()
		return got
	}
	d.held[t] = heldCal{op, got, look}
	simrt.Y(0)
	return got
}

func (d *calDrv) EndPhase(e *Env) string {
	for t := range d.held {
		if bad := d.lookAgain(t); bad != "" {
			return bad
		}
	}
	return ""
}

func (d *calDrv) Check(e *Env, t int, op Op, got string) string {
	return differCal(got, wantCal(d.x, op))
}

func (d *calDrv) End(e *Env) string {
	if !d.solo {
		return ""
	}
	a := &askDrv{solo: true}
	return a.End(e)
}

// genRange makes the arguments of a range: day, second, day, second, zone.
func genRange(r *simrt.Rand, lo, hi int, days int) []int64 {
	y := r.Range(lo, hi)
	from := int64(model.Civil(y, 1, 1)) + int64(r.Intn(366))
	switch r.Intn(5) {
	case 0:
		from = int64(model.Civil(y, 1, 1)) + int64(r.Range(-1, 1))
	case 1:
		from = int64(model.Civil(y, 12, 31)) + int64(r.Range(-1, 1))
	}
	to := from + int64(r.Intn(days+1))
	switch r.Intn(8) {
	case 0:
		to = from
	case 1:
		to = from - int64(r.Intn(3))
	case 2:
		to = int64(model.Civil(from2year(from), 12, 31)) + int64(r.Range(-1, 1))
	}
	sec := func() int64 {
		if oneIn(r, 2) {
			return 0
		}
		return int64(pick(r, []int{1, 86399, 43200, r.Intn(86400)}))
	}
	a := []int64{from, sec(), to, sec(), int64(r.Intn(len(zones)))}
	// exactly on a moon of the data: both ends are inclusive
	pin := func(i int) {
		y := from2year(a[i])
		if l := astroOf[y]; len(l) > 0 {
			u := pick(r, l).At.Unix() + int64(pick(r, []int{0, 0, 0, -1, 1}))
			a[i], a[i+1] = fdiv64(u, 86400), u-fdiv64(u, 86400)*86400
		}
	}
	if oneIn(r, 3) {
		pin(0)
	}
	if oneIn(r, 3) {
		pin(2)
	}
	if oneIn(r, 3) {
		a[4] = 0
	}
	if oneIn(r, 10) { // just past a moon at the turn of the UTC year, which is still the other year elsewhere
		if u := pick(r, edgeMoons()); u%86400 < 43200 {
			u += int64(pick(r, []int{0, 1, r.Intn(3600)}))
			a[2], a[3], a[4] = fdiv64(u, 86400), u-fdiv64(u, 86400)*86400, int64(pick(r, []int{4, 7, 11, 14, 15}))
			if a[0] > a[2] || a[0] < a[2]-int64(days)-400 {
				a[0] = a[2] - int64(r.Intn(days+1))
			}
		} else {
			u -= int64(pick(r, []int{0, 1, r.Intn(3600)}))
			a[0], a[1], a[4] = fdiv64(u, 86400), u-fdiv64(u, 86400)*86400, int64(pick(r, []int{2, 3, 5, 6, 8, 9, 10, 12}))
			if a[2] < a[0] || a[2] > a[0]+int64(days)+400 {
				a[2] = a[0] + int64(r.Intn(days+1))
			}
		}
	}
	fineEnds(r, a)
	return a
}

var edgeMoonsMemo []int64

// edgeMoons lists the moons within hours of the turn of a year.
func edgeMoons() []int64 {
	if edgeMoonsMemo == nil {
		for y := 1900; y <= 2060; y++ {
			turn := model.Civil(y, 1, 1).Time().Unix()
			for _, a := range append(append([]astro{}, astroOf[y]...), astroOf[y-1]...) {
				if d := a.At.Unix() - turn; d > -12*3600 && d < 12*3600 {
					edgeMoonsMemo = append(edgeMoonsMemo, a.At.Unix())
				}
			}
			for _, m := range append(append([]model.Moon{}, moonsOf(y)...), moonsOf(y+1)...) {
				if u := m.Day.Time().Unix(); u == turn || u+8*86400 == turn {
					edgeMoonsMemo = append(edgeMoonsMemo, turn)
				}
			}
		}
	}
	return edgeMoonsMemo
}

func fdiv64(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a < 0 {
		q--
	}
	return q
}

func from2year(d int64) int { return model.DayNum(d).Year() }

func genC16(r *simrt.Rand, c *Case) {
	nt := 2 + r.Intn(3)
	ph := &Phase{}
	var asked []Op // callers ask the same again, and write over what they were given
	for t := 0; t < nt; t++ {
		var l []Op
		for i := 1 + r.Intn(2); i > 0; i-- {
			var o Op
			switch r.Intn(8) {
			case 0, 1:
				o = Op{K: "gen", A: []int64{int64(relatedYears(r, 1800, 2300, 1)[0])}}
			case 2:
				o = Op{K: "addhalf", A: []int64{int64(r.Range(1950, 2100))}}
			default:
				o = Op{K: "range", A: genRange(r, 1985, 2060, pick(r, []int{3, 40, 400}))}
			}
			if len(asked) > 0 && oneIn(r, 3) {
				o = pick(r, asked)
			}
			asked = append(asked, Op{K: strings.TrimSuffix(o.K, "!"), A: o.A})
			if o.K != "addhalf" && oneIn(r, 3) {
				o.K += "!"
			}
			l = append(l, o)
		}
		ph.Tasks = append(ph.Tasks, l)
	}
	if oneIn(r, 10) { // one far year
		ph.Tasks[0] = []Op{{K: "gen", A: []int64{int64(r.Range(700, 4000))}}}
	} else if oneIn(r, 40) { // one range of many years
		ph.Tasks[0] = []Op{{K: "range", A: genRange(r, 1985, 2045, pick(r, []int{1500, 3000, 5000}))}}
	}
	sweep := 1700 + c.Index%600
	if c.Index%2 == 0 { // every year the rules define, in turn
		sweep = 652 + c.Index/2%3464
	}
	ph.Tasks[0] = append(ph.Tasks[0], Op{K: "gen", A: []int64{int64(sweep)}})
	ph.Plan, ph.Clock, ph.Aux = genPlan(r, nt), smallClock(r), r.Uint64()
	if oneIn(r, 2) {
		ph.Clock = genClock(r)
	}
	c.Phases = []*Phase{ph}
}

var envKeys = []string{"TZ", "LANG", "LC_ALL", "LC_TIME", "GODEBUG", "GOMAXPROCS", "ZONEINFO", "VERBOSE", "DEBUG", "HOME", "SURIYA_USE_EXCEPTIONS", "USE_EXCEPTIONS", "SURIYA", "verbose", "*", "*"} // *: any other

func genC06(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(3)
	c.Env = map[string]string{}
	for i := r.Intn(5); i > 0; i-- {
		c.Env[pick(r, envKeys)] = pick(r, []string{"", "1", "true", "Asia/Bangkok", "th_TH.UTF-8", "America/New_York", "C", "0", "debug", "/tmp"})
	}
	ys := relatedYears(r, 1800, 2300, 1+r.Intn(3))
	if oneIn(r, 6) {
		ys = relatedYears(r, 660, 3500, 1+r.Intn(3))
	}
	for p := 1 + r.Intn(2); p > 0; p-- {
		ph := &Phase{Plan: genPlan(r, nt), Clock: genClock(r), Aux: r.Uint64(), Restart: len(c.Phases) > 0}
		for t := 0; t < nt; t++ {
			var l []Op
			for i := 1 + r.Intn(3); i > 0; i-- {
				y := int64(pick(r, ys))
				switch r.Intn(10) {
				case 0:
					l = append(l, Op{K: "gen", A: []int64{y}})
				case 1:
					l = append(l, Op{K: "range", A: genRange(r, 1985, 2060, 40)})
				case 2:
					l = append(l, Op{K: "astro", A: genRange(r, 1985, 2060, 40)})
				case 3:
					l = append(l, Op{K: "day", A: []int64{y, int64(1 + r.Intn(354))}})
				case 4:
					l = append(l, Op{K: pick(r, []string{"h2d", "h2d+1"}), A: []int64{int64(r.Range(0, 600000))}})
				case 5:
					l = append(l, Op{K: "asalha", A: []int64{y}})
				case 6:
					l = append(l, Op{K: pick(r, []string{"kat", "kat+len"}), A: []int64{y}})
				default:
					l = append(l, Op{K: "all", A: []int64{y}})
				}
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		c.Phases = append(c.Phases, ph)
	}
}

// ---- C12: astronomical moons, with damaged years ----

type astroDrv struct{ calDrv }

func (d *astroDrv) Check(e *Env, t int, op Op, got string) string {
	if op.K != "astro" {
		return d.calDrv.Check(e, t, op, got)
	}
	if len(e.C.Damage) == 0 {
		return differCal(got, wantCal(nil, op))
	}
	// a damaged year gives all of its moons or none
	from, to := bounds(op)
	rest := got
	for y := from.UTC().Year(); y <= to.UTC().Year(); y++ {
		var l []string
		for _, a := range astroOf[y] {
			if !a.At.Before(from) && !a.At.After(to) {
				l = append(l, astroText(a.At, a.Phase)+"\n")
			}
		}
		s := strings.Join(l, "")
		hurt := false
		for _, dm := range e.C.Damage {
			if dm.Key == fmt.Sprintf("/data/astro/astro-%d.json", y) {
				hurt = true
				if dm.Kind == "sub" { // nothing in it can be used
					s = ""
				}
			}
		}
		if strings.HasPrefix(rest+"\n", s) && s != "" {
			rest = strings.TrimPrefix(rest+"\n", s)
			rest = strings.TrimSuffix(rest, "\n")
		} else if !hurt && s != "" {
			return firstDiff(rest, strings.TrimSuffix(s, "\n")) + fmt.Sprintf(" (year %d, which is not damaged)", y)
		}
	}
	if rest != "" {
		return fmt.Sprintf("has moons that are not in the data, starting with %q", strings.SplitN(rest, "\n", 2)[0])
	}
	return ""
}

func genC12(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(4)
	np := 1 + r.Intn(2)
	years := []int{1985 + c.Index%80}
	for p := 0; p < np; p++ {
		ph := &Phase{Plan: genPlan(r, nt), Clock: genClock(r), Aux: r.Uint64(), Restart: p > 0 && oneIn(r, 2)}
		for t := 0; t < nt; t++ {
			var l []Op
			for i := 1 + r.Intn(3); i > 0; i-- {
				y := pick(r, years)
				if oneIn(r, 3) {
					y = r.Range(1980, 2065)
				}
				a := genRange(r, y, y, pick(r, []int{2, 40, 400, 1500}))
				if oneIn(r, 20) { // a wide range over the edges of the data
					a = genRange(r, 1900, 2060, 30000)
				}
				if oneIn(r, 20) { // a range with a moon at its middle
					if l := astroOf[y]; len(l) > 0 {
						u, h := pick(r, l).At.Unix(), int64(r.Intn(pick(r, []int{1, 86400 * 40, 86400 * 5500}))+1)
						a = []int64{fdiv64(u-h, 86400), (u - h) - fdiv64(u-h, 86400)*86400, fdiv64(u+h, 86400), (u + h) - fdiv64(u+h, 86400)*86400, 0}
					}
				}
				if oneIn(r, 4) {
					a = append(a, 1)
				}
				years = append(years, from2year(a[0]), from2year(a[2]))
				l = append(l, Op{K: "astro", A: a})
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		c.Phases = append(c.Phases, ph)
	}
	if oneIn(r, 2) {
		for i := 1 + r.Intn(3); i > 0; i-- {
			y := pick(r, years) + pick(r, []int{0, 0, 0, 1, -1})
			if f := dataByKey[fmt.Sprintf("/data/astro/astro-%d.json", y)]; f != nil {
				d := genDamage(r, f)
				if oneIn(r, 2) {
					d.Kind = "sub"
				}
				c.Damage = append(c.Damage, d)
			}
		}
	}
}

// ---- C05: the exceptions switch ----

type switchDrv struct {
	Base
	on    bool
	table model.Exceptions
	held  []map[int]*suriya.SuriyaYear // per task: years a caller keeps across changes
}

func (d *switchDrv) reset() {
	d.on, d.table = false, model.Exceptions{1994: false, 1997: true}
	for t := range d.held {
		d.held[t] = map[int]*suriya.SuriyaYear{}
	}
}
func (d *switchDrv) Begin(e *Env) {
	n := 1
	for _, ph := range e.C.Phases {
		n = max(n, len(ph.Tasks))
	}
	d.held = make([]map[int]*suriya.SuriyaYear, n+1) // the last is the changes' own
	d.reset()
}
func (d *switchDrv) Restarted(e *Env) { d.reset() }

func (d *switchDrv) Do(e *Env, t int, op Op) string {
	switch op.K {
	case "use":
		suriya.UseExceptions = op.arg(0) == 1
	case "exc":
		suriya.AdhikavaraExceptions[op.arg(0)] = op.arg(1) == 1
	case "del":
		delete(suriya.AdhikavaraExceptions, op.arg(0))
	case "newmap":
		m := map[int]bool{}
		for i := 0; i+1 < len(op.A); i += 2 {
			m[op.arg(i)] = op.arg(i+1) == 1
		}
		suriya.AdhikavaraExceptions = m
	case "nilmap":
		suriya.AdhikavaraExceptions = nil
	case "held":
		if t < 0 || t >= len(d.held) {
			t = len(d.held) - 1
		}
		su := d.held[t][op.arg(0)]
		if su == nil {
			su = new(suriya.SuriyaYear)
			su.Init(op.arg(0))
			d.held[t][op.arg(0)] = su
		}
		return askYear(su, op.S)
	default:
		return askCal(op)
	}
	return "ok"
}

func (d *switchDrv) Check(e *Env, t int, op Op, got string) string {
	switch op.K {
	case "use":
		d.on = op.arg(0) == 1
		return ""
	case "exc":
		d.table[op.arg(0)] = op.arg(1) == 1
		return ""
	case "del":
		delete(d.table, op.arg(0))
		return ""
	case "newmap":
		d.table = model.Exceptions{}
		for i := 0; i+1 < len(op.A); i += 2 {
			d.table[op.arg(i)] = op.arg(i+1) == 1
		}
		return ""
	case "nilmap":
		d.table = nil
		return ""
	}
	var x model.Exceptions
	if d.on {
		x = d.table
	}
	if op.K == "held" {
		return differ(got, wantYear(x, op.arg(0), op.S))
	}
	return differCal(got, wantCal(x, op))
}

func genC05(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(3)
	base := r.Range(1960, 2060)
	odd := oneIn(r, 4)
	var ys []int
	for len(ys) < 6 {
		y := base + r.Range(-8, 8)
		if oneIn(r, 4) {
			y = pick(r, []int{1994, 1997, 1993, 1995, 1996, 1998})
		}
		// the rules have no calendar for an extra-month year with an extra day
		if odd || !model.Masa(y) {
			ys = append(ys, y)
		}
	}
	hasMap := true
	change := func() Op {
		switch r.Intn(9) {
		case 0, 1, 2:
			return Op{K: "use", A: []int64{int64(r.Intn(2))}}
		case 3:
			return Op{K: "use", A: []int64{1}}
		case 4:
			return Op{K: "del", A: []int64{int64(pick(r, ys))}}
		case 5:
			var a []int64
			for i := r.Intn(4); i > 0; i-- {
				a = append(a, int64(pick(r, ys)), int64(r.Intn(2)))
			}
			hasMap = true
			return Op{K: "newmap", A: a}
		case 6:
			if oneIn(r, 4) {
				hasMap = false
				return Op{K: "nilmap"}
			}
		}
		if !hasMap {
			return Op{K: "use", A: []int64{1}}
		}
		return Op{K: "exc", A: []int64{int64(pick(r, ys)), int64(r.Intn(2))}}
	}
	query := func() Op {
		y := int64(pick(r, ys)) + int64(pick(r, []int{0, 0, 0, 1, -1, 2, -2, 7, 30}))
		n := r.Intn(12)
		if odd && (n == 3 || n == 4) {
			n = 9
		}
		switch n {
		case 0:
			return Op{K: "asalha", A: []int64{y}}
		case 1:
			return Op{K: "kat", A: []int64{y}}
		case 2:
			return Op{K: "kat+len", A: []int64{y}}
		case 3:
			return Op{K: "gen", A: []int64{y}}
		case 4:
			a := genRange(r, int(y), int(y), 200)
			return Op{K: "range", A: a}
		case 5, 6:
			return Op{K: "dvara", A: []int64{y}}
		case 7, 8:
			return Op{K: "len", A: []int64{y}}
		case 9:
			return Op{K: "vara", A: []int64{y}}
		}
		return Op{K: "all", A: []int64{y}}
	}
	for p := 1 + r.Intn(4); p > 0; p-- {
		ph := &Phase{Plan: genPlan(r, nt), Clock: smallClock(r), Aux: r.Uint64()}
		if len(c.Phases) > 0 && oneIn(r, 5) {
			ph.Restart, hasMap = true, true
		}
		for i := r.Intn(4); i > 0; i-- {
			if len(ph.Set) > 0 && oneIn(r, 3) {
				ph.Set = append(ph.Set, query())
			}
			ph.Set = append(ph.Set, change())
		}
		for t := 0; t < nt; t++ {
			var l []Op
			for i := 1 + r.Intn(4); i > 0; i-- {
				l = append(l, query())
				if oneIn(r, 3) { // a year the caller has kept
					l = append(l, Op{K: "held", A: []int64{int64(pick(r, ys))}, S: pick(r, []string{"vara", "len", "dvara", "asalha", "vara", "len", "all"})})
				}
				if nt == 1 && oneIn(r, 2) { // a lone caller may change its mind
					l = append(l, change())
				}
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		c.Phases = append(c.Phases, ph)
	}
}

// ---- C07: the uposatha chain ----

type chainModel struct {
	year, k int // moon k of lunar year
	set     bool
}

type chainDrv struct {
	Base
	live   []suriya.UposathaMoon
	disk   [][]byte
	model  []chainModel
	mdisk  []chainModel
	starts map[string]suriya.UposathaMoon // made before the run: the tables behind them are not the code's
}

func (d *chainDrv) Begin(e *Env) {
	n := 0
	d.starts = map[string]suriya.UposathaMoon{}
	for _, ph := range e.C.Phases {
		for _, l := range ph.Tasks {
			for _, o := range l {
				if o.K == "start" {
					d.starts[opStr(o)] = startMoon(o.arg(0), o.arg(1), o.arg(2), o.arg(3))
				}
			}
		}
	}
	for _, ph := range e.C.Phases {
		if len(ph.Tasks) > n {
			n = len(ph.Tasks)
		}
	}
	d.disk, d.mdisk = make([][]byte, n), make([]chainModel, n)
	d.Restarted(e)
}

func (d *chainDrv) Restarted(e *Env) {
	d.live, d.model = make([]suriya.UposathaMoon, len(d.disk)), make([]chainModel, len(d.disk))
}

// startMoon is a chain link in a caller's zone at some time of day.
func startMoon(year, k, z, tod int) suriya.UposathaMoon {
	m := moonAt(year, k)
	loc := zone(zones[z%len(zones)])
	return suriya.UposathaMoon{Date: at(m.Day, tod, loc), Phase: m.Phase, Event: m.Event, S_Number: m.SNum, S_Total: m.STotal,
		U_Days: m.UDays, M_Days: m.MDays, LunarMonth: m.Month, LunarSeason: m.Season, LunarYear: m.Year, HasAdhikavara: m.Extra}
}

// at is a time on a day; where that time does not exist, an hour later.
func at(d model.DayNum, tod int, loc *time.Location) time.Time {
	t := d.Time()
	u := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, tod, 0, loc)
	if dayOf(u) != d.String() {
		u = u.Add(time.Hour)
	}
	return u
}

var moonMemo = map[int][]model.Moon{}

func moonsOf(year int) []model.Moon {
	if l, ok := moonMemo[year]; ok {
		return l
	}
	l := model.Exceptions(nil).Moons(year)
	moonMemo[year] = l
	return l
}

func moonAt(year, k int) model.Moon {
	l := moonsOf(year)
	for k >= len(l) {
		k -= len(l)
		year++
		l = moonsOf(year)
	}
	return l[k]
}

func (d *chainDrv) Do(e *Env, t int, op Op) string {
	m := &d.live[t]
	switch op.K {
	case "start":
		*m = d.starts[opStr(op)]
		return "ok"
	case "step":
		var l []string
		for i := op.arg(0); i > 0; i-- {
			*m = m.NextUposatha()
			l = append(l, uposathaText(*m))
			simrt.Y(0)
		}
		return strings.Join(l, "\n")
	case "peek": // asking for the next moon changes nothing
		a := m.NextUposatha()
		b := m.NextUposatha()
		if uposathaText(a) != uposathaText(b) {
			return "asked twice: " + uposathaText(a) + " and " + uposathaText(b)
		}
		return uposathaText(a)
	case "save":
		b, err := json.Marshal(*m)
		if err != nil {
			return err.Error()
		}
		simrt.Y(0)
		d.disk[t] = b
		return "ok"
	case "load":
		*m = suriya.UposathaMoon{}
		if d.disk[t] != nil {
			if err := json.Unmarshal(d.disk[t], m); err != nil {
				return err.Error()
			}
		}
		return "ok"
	}
	return "?"
}

func (d *chainDrv) Check(e *Env, t int, op Op, got string) string {
	m := &d.model[t]
	switch op.K {
	case "start":
		*m = chainModel{op.arg(0), op.arg(1), true}
		return ""
	case "step":
		if !m.set {
			return ""
		}
		var l []string
		for i := op.arg(0); i > 0; i-- {
			m.k++
			if m.k >= len(moonsOf(m.year)) {
				m.year, m.k = m.year+1, 0
			}
			l = append(l, moonText(moonAt(m.year, m.k), 0))
		}
		return firstDiff(got, strings.Join(l, "\n"))
	case "peek":
		if !m.set {
			return ""
		}
		return firstDiff(got, moonText(moonAt(m.year, m.k+1), 0))
	case "save":
		d.mdisk[t] = *m
	case "load":
		*m = d.mdisk[t]
	}
	return differ(got, "ok")
}

// a kill can fall after the save reached the disk and before it was acknowledged
func (d *chainDrv) EndPhase(e *Env) string {
	for t, rs := range e.Res {
		for _, r := range rs {
			if r.done {
				continue
			}
			if r.op.K == "save" && d.disk[t] != nil {
				var u suriya.UposathaMoon
				if err := json.Unmarshal(d.disk[t], &u); err != nil {
					return "the saved moon is unreadable: " + err.Error()
				}
				if m := d.model[t]; m.set && dayOf(u.Date) == moonAt(m.year, m.k).Day.String() {
					d.mdisk[t] = m
				}
			}
			break
		}
	}
	return ""
}

var yearEndMoons [][2]int

// yearEnds lists the new moons (lunar year and place in it) before a full moon
// on the last or first day of a civil year, and the moons on such a day.
func yearEnds() [][2]int {
	if yearEndMoons == nil {
		for y := 652; y <= 2600; y++ {
			for k, m := range moonsOf(y) {
				for _, d := range []model.DayNum{m.Day, m.Day + 15} {
					t := d.Time()
					if t.Month() == 12 && t.Day() == 31 || t.Month() == 1 && t.Day() == 1 {
						yearEndMoons = append(yearEndMoons, [2]int{y, k})
						break
					}
				}
			}
		}
	}
	return yearEndMoons
}

func genC07(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(3)
	np := 1 + r.Intn(4)
	for p := 0; p < np; p++ {
		ph := &Phase{Clock: genClock(r), Aux: r.Uint64(), Plan: genPlan(r, nt), Restart: p > 0 && r.Intn(3) > 0}
		for t := 0; t < nt; t++ {
			var l []Op
			if p == 0 || oneIn(r, 6) {
				y := r.Range(1850, 2150)
				if oneIn(r, 8) {
					y = r.Range(700, 4000)
				}
				k := r.Intn(24)
				if oneIn(r, 6) { // a moon near the turn of the civil year
					e := pick(r, yearEnds())
					y, k = e[0], e[1]
				}
				z := r.Intn(len(zones))
				tod := int64(pick(r, []int{0, 0, 3600 * 12, r.Intn(86400)}))
				l = append(l, Op{K: "start", A: []int64{int64(y), int64(k), int64(z), tod}})
			} else if ph.Restart {
				l = append(l, Op{K: "load"})
			}
			for i := 1 + r.Intn(6); i > 0; i-- {
				switch r.Intn(6) {
				case 0:
					l = append(l, Op{K: "save"})
				case 1:
					l = append(l, Op{K: "peek"})
				case 2:
					if p > 0 && oneIn(r, 2) {
						l = append(l, Op{K: "load"})
						continue
					}
					l = append(l, Op{K: "save"})
				default:
					l = append(l, Op{K: "step", A: []int64{int64(pick(r, []int{1, 2, 5, 12, 26, 60}))}})
				}
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		if p+1 < np && oneIn(r, 3) {
			ph.Kills = append(ph.Kills, Kill{r.Intn(nt), int64(1 + r.Intn(3000*nt))})
		}
		c.Phases = append(c.Phases, ph)
	}
	for i := 1; i < np; i++ {
		if len(c.Phases[i-1].Kills) > 0 {
			c.Phases[i].Restart = true
		}
	}
}

func init() {
	register(&Prop{"C05", genC05, func() Driver { return &switchDrv{} }})
	register(&Prop{"C06", genC06, func() Driver { return &calDrv{solo: true} }})
	register(&Prop{"C07", genC07, func() Driver { return &chainDrv{} }})
	register(&Prop{"C12", genC12, func() Driver { return &astroDrv{} }})
	register(&Prop{"C16", genC16, func() Driver { return &calDrv{} }})
}
