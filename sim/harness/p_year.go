package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	suriya "github.com/splendidmoons/suriya-go"

	"verifsim/model"
	"verifsim/simrt"
)

// ---- stateless questions ----

func ask(op Op) string {
	switch op.K {
	case "day":
		var d suriya.SuriyaDay
		d.Init(op.arg(0), op.arg(1))
		return dayText(&d)
	case "kat":
		return dateText(suriya.CalculatePreviousKattika(op.arg(0)))
	case "h2d":
		return dateText(suriya.HorakhunToDate(op.A[0]))
	case "kat+len": // consecutive Kattika dates are a year length apart
		y := op.arg(0)
		var su suriya.SuriyaYear
		su.Init(y)
		a, b := suriya.CalculatePreviousKattika(y), suriya.CalculatePreviousKattika(y+1)
		return fmt.Sprint(int(math.Round(b.Sub(a).Hours()/24)) - su.YearLength())
	case "h2d+1":
		a, b := suriya.HorakhunToDate(op.A[0]), suriya.HorakhunToDate(op.A[0]+1)
		return fmt.Sprint(b.Sub(a))
	}
	var su suriya.SuriyaYear
	su.Init(op.arg(0))
	return askYear(&su, op.K)
}

func askYear(su *suriya.SuriyaYear, k string) string {
	switch k {
	case "vals":
		return yearText(su)
	case "masa":
		return fmt.Sprint(su.Is_Adhikamasa())
	case "vara":
		return fmt.Sprint(su.Is_Adhikavara())
	case "carried":
		return fmt.Sprint(su.Has_Carried_Adhikavara())
	case "would":
		return fmt.Sprint(su.Would_Be_Adhikamasa(), " ", su.Would_Be_Adhikavara(), " ", su.Is_Suriya_Leap())
	case "cyc":
		return fmt.Sprint(su.AdhikavaraCyclePos(), " ", su.AdhikamasaCyclePos())
	case "dmasa":
		return fmt.Sprint(su.DeltaAdhikamasa())
	case "dvara":
		return fmt.Sprint(su.DeltaAdhikavara())
	case "len":
		return fmt.Sprint(su.YearLength())
	case "str":
		return su.String()
	case "vstr":
		return strings.Join(strings.Fields(su.SuriyaValuesString()), " ")
	case "asalha":
		return dateText(su.AsalhaPuja())
	case "all":
		var parts []string
		for _, q := range allYearOps {
			parts = append(parts, askYear(su, q))
		}
		return strings.Join(parts, " | ")
	}
	return "?" + k
}

var allYearOps = []string{"vals", "masa", "vara", "carried", "would", "cyc", "dmasa", "dvara", "len", "str", "vstr"}

func yearText(su *suriya.SuriyaYear) string {
	return fmt.Sprint(su.Year, " ", su.BE_Year, " ", su.CS_Year, " ", su.Horakhun, " ", su.Kammacubala, " ", su.Uccabala, " ", su.Avoman, " ", su.Masaken, " ", su.Tithi)
}

func fl(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func dayText(d *suriya.SuriyaDay) string {
	return fmt.Sprint(d.Year, " ", d.BE_Year, " ", d.CS_Year, " ", d.Day, " ", d.Horakhun, " ", d.Kammacubala, " ", d.Uccabala, " ", d.Avoman, " ", d.Masaken, " ", d.Tithi,
		" ", fl(d.MeanSun), " ", fl(d.TrueSun), " ", fl(d.MeanMoon), " ", fl(d.TrueMoon), " ", fl(d.Raek))
}

// dateText is the civil date, with the zone it is given in.
func dateText(t time.Time) string {
	_, off := t.Zone()
	return t.Format("2006-01-02") + " " + strconv.Itoa(off)
}

// ---- what the rules say ----

func want(x model.Exceptions, op Op) string {
	y := op.arg(0)
	switch op.K {
	case "day":
		yr := model.NewYear(y)
		p := model.NewDay(y, op.arg(1))
		a := func(v float64) string { return fmt.Sprintf("~360:%s:%s", fl(v), fl(0.001+p.Slack*2)) }
		return fmt.Sprint(y, " ", yr.BE, " ", yr.CS, " ", op.arg(1), " ", p.Horakhun, " ", p.Kammacubala, " ", p.Uccabala, " ", p.Avoman, " ", p.Masaken, " ", p.Tithi,
			" ", a(p.MeanSun), " ", a(p.TrueSun), " ", a(p.MeanMoon), " ", a(p.TrueMoon), " ", fmt.Sprintf("~27:%s:%s", fl(p.Raek), fl(0.0003+p.Slack/5)))
	case "kat":
		return x.Kattika(y).String() + " 0"
	case "h2d":
		return model.HorakhunDay(op.A[0]).String() + " 0"
	case "kat+len":
		return "0"
	case "h2d+1":
		return "24h0m0s"
	}
	return wantYear(x, y, op.K)
}

func wantYear(x model.Exceptions, y int, k string) string {
	yr := model.NewYear(y)
	switch k {
	case "vals":
		return fmt.Sprint(y, " ", yr.BE, " ", yr.CS, " ", yr.Horakhun, " ", yr.Kammacubala, " ", yr.Uccabala, " ", yr.Avoman, " ", yr.Masaken, " ", yr.Tithi)
	case "masa":
		return fmt.Sprint(model.Masa(y))
	case "vara":
		return fmt.Sprint(x.Vara(y))
	case "carried":
		return fmt.Sprint(model.Carried(y))
	case "would":
		return fmt.Sprint(model.WouldMasa(y), " ", model.WouldVara(y), " ", model.SuriyaLeap(y))
	case "cyc":
		return fmt.Sprint(model.CyclePos(y, 57), " ", model.CyclePos(y, 19))
	case "dmasa":
		return fmt.Sprint(model.DeltaMasa(y))
	case "dvara":
		return fmt.Sprint(x.DeltaVara(y))
	case "len":
		return fmt.Sprint(x.Length(y))
	case "str":
		return fmt.Sprint(y)
	case "vstr":
		return fmt.Sprintf("CE: %d BE: %d CS: %d Horakhun: %d Kammacubala: %d Uccabala: %d Avoman: %d Masaken: %d Tithi: %d",
			y, yr.BE, yr.CS, yr.Horakhun, yr.Kammacubala, yr.Uccabala, yr.Avoman, yr.Masaken, yr.Tithi)
	case "asalha":
		return x.Asalha(y).String() + " 0"
	case "all":
		var parts []string
		for _, q := range allYearOps {
			parts = append(parts, wantYear(x, y, q))
		}
		return strings.Join(parts, " | ")
	}
	return "?" + k
}

// match compares token by token; "~360:v:tol" accepts a number equal to v up
// to tol and whole turns.
func match(got, want string) bool {
	if got == want {
		return true
	}
	g, w := strings.Fields(got), strings.Fields(want)
	if len(g) != len(w) {
		return false
	}
	for i := range g {
		if g[i] == w[i] {
			continue
		}
		if !strings.HasPrefix(w[i], "~") {
			return false
		}
		p := strings.Split(w[i][1:], ":")
		m, _ := strconv.ParseFloat(p[0], 64)
		v, _ := strconv.ParseFloat(p[1], 64)
		tol, _ := strconv.ParseFloat(p[2], 64)
		f, err := strconv.ParseFloat(g[i], 64)
		if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
			return false
		}
		d := math.Mod(f-v, m)
		if d < 0 {
			d += m
		}
		if d > tol && m-d > tol {
			return false
		}
	}
	return true
}

func differ(got, want string) string {
	if match(got, want) {
		return ""
	}
	return fmt.Sprintf("got %q, the rules give %q", clip(got), clip(want))
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// ---- the driver of C01, C02, C03 ----

type askDrv struct {
	Base
	solo bool
	x    model.Exceptions
}

func (d *askDrv) Do(e *Env, task int, op Op) string { return ask(op) }

func (d *askDrv) Check(e *Env, task int, op Op, got string) string { return differ(got, want(d.x, op)) }

func (d *askDrv) End(e *Env) string {
	if !d.solo {
		return ""
	}
	// what a lone caller gets, exactly
	seen := map[string]bool{}
	for t, rs := range e.Res {
		for _, r := range rs {
			k := opStr(r.op)
			if !r.done || seen[k] {
				continue
			}
			seen[k] = true
			if len(seen) > 6 {
				return ""
			}
			if s, v := e.alone(r.op); v != nil || s != r.got {
				return fmt.Sprintf("caller %d: %s: got %q, a lone caller gets %q", t, k, clip(r.got), clip(s))
			}
		}
	}
	return ""
}

// alone performs one operation in a process of its own, in UTC.
func (e *Env) alone(op Op) (string, *Violation) {
	ph := e.Ph
	e.Ph = &Phase{Clock: simrt.ClockPlan{Start: 1_500_000_000}}
	defer func() { e.Ph = ph }()
	if v := e.newProcess(); v != nil {
		return "", v
	}
	s := e.simFor(e.Ph, simrt.SchedPlan{Policy: "seq"}, 5)
	var got string
	s.Spawn("alone", nil, func() { got = e.drv.Do(e, 0, op) })
	v := e.finish(s, nil)
	return got, v
}

// relatedYears gives years that are easily mixed up.
func relatedYears(r *simrt.Rand, lo, hi, n int) []int {
	var b int
	switch r.Intn(4) {
	case 0:
		b = r.Range(1900, 2100)
	case 1:
		b = r.Range(lo, hi)
	case 2:
		b = r.Range(lo, 2600)
	default:
		b = r.Range(1300, 2300)
	}
	offs := []int{0, 0, 1, -1, 2, -2, 3, 19, -19, 57, -57, 100, -100, 10, 64, -64, 128, 256, 800, 1000, -543, 543, -638, 638, 32, 16, 4, 8}
	var out []int
	for i := 0; i < n; i++ {
		y := b + offs[r.Intn(len(offs))]
		if r.Intn(6) == 0 {
			y = r.Range(lo, hi)
		}
		if y < lo {
			y = lo + r.Intn(50)
		}
		if y > hi {
			y = hi - r.Intn(50)
		}
		out = append(out, y)
	}
	return out
}

func farYear(r *simrt.Rand) int { return pick(r, []int{4000, 9990, 30000, 100000}) + r.Intn(6000) }

func oneIn(r *simrt.Rand, n int) bool { return r.Intn(n) == 0 }

const sweepLo, sweepHi = 652, 9999

func genC01(r *simrt.Rand, c *Case) {
	nt := 2 + r.Intn(4)
	ph := &Phase{}
	ops := []string{"vals", "masa", "vara", "carried", "would", "cyc", "dmasa", "dvara", "len", "str", "vstr", "all"}
	ys := relatedYears(r, sweepLo, sweepHi, 1+r.Intn(6))
	for t := 0; t < nt; t++ {
		var l []Op
		for i := 1 + r.Intn(5); i > 0; i-- {
			l = append(l, Op{K: pick(r, ops), A: []int64{int64(pick(r, ys))}})
		}
		ph.Tasks = append(ph.Tasks, l)
	}
	// a sweep over the whole domain rides along
	base := c.Index * 3
	for i := 0; i < 3; i++ {
		y := 639 + (base+i)%(sweepHi-639+1)
		k := "all"
		if y < sweepLo {
			k = pick(r, []string{"vals", "masa", "vara", "cyc", "len", "str"})
		}
		t := r.Intn(nt)
		ph.Tasks[t] = append(ph.Tasks[t], Op{K: k, A: []int64{int64(y)}})
	}
	if oneIn(r, 8) { // the rules have no last year
		t, y := r.Intn(nt), farYear(r)
		ph.Tasks[t] = append(ph.Tasks[t], Op{K: "all", A: []int64{int64(y)}})
		if oneIn(r, 2) { // and one with the same low digits
			t = r.Intn(nt)
			ph.Tasks[t] = append(ph.Tasks[t], Op{K: "all", A: []int64{int64(y + pick(r, []int{1 << 16, 1 << 15, 10000, 100000}))}})
		}
	}
	ph.Plan, ph.Clock, ph.Aux = genPlan(r, nt), smallClock(r), r.Uint64()
	c.Phases = []*Phase{ph}
}

// smallClock is an ordinary clock that advances with the schedule.
func smallClock(r *simrt.Rand) simrt.ClockPlan {
	return simrt.ClockPlan{Start: 1_400_000_000 + int64(r.Intn(600_000_000)), Tick: 1000, Step: []int64{int64(r.Intn(1_000_000)), int64(r.Intn(50_000))}}
}

func genC02(r *simrt.Rand, c *Case) {
	nt := 2 + r.Intn(4)
	ph := &Phase{}
	ys := relatedYears(r, 639, 4000, 1+r.Intn(4))
	var x model.Exceptions
	day := func(y int) int64 {
		if y < 640 {
			return int64(1 + r.Intn(354))
		}
		n := x.Length(y)
		switch r.Intn(4) {
		case 0:
			return int64(1 + r.Intn(33)) // around the solar new year
		case 1:
			return int64(n - r.Intn(30))
		}
		return int64(1 + r.Intn(n))
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for i := 1 + r.Intn(5); i > 0; i-- {
			y := pick(r, ys)
			l = append(l, Op{K: "day", A: []int64{int64(y), day(y)}})
		}
		ph.Tasks = append(ph.Tasks, l)
	}
	for i := 0; i < 4; i++ {
		k := c.Index*4 + i
		y := 639 + k%(4000-639+1)
		t := r.Intn(nt)
		ph.Tasks[t] = append(ph.Tasks[t], Op{K: "day", A: []int64{int64(y), day(y)}})
	}
	if oneIn(r, 8) {
		y := farYear(r)
		t, n := r.Intn(nt), day(y)
		ph.Tasks[t] = append(ph.Tasks[t], Op{K: "day", A: []int64{int64(y), n}})
		if oneIn(r, 2) { // and one with the same low digits
			y += pick(r, []int{1 << 16, 1 << 15, 10000, 100000})
			t = r.Intn(nt)
			ph.Tasks[t] = append(ph.Tasks[t], Op{K: "day", A: []int64{int64(y), n}})
		}
	}
	ph.Plan, ph.Clock, ph.Aux = genPlan(r, nt), smallClock(r), r.Uint64()
	c.Phases = []*Phase{ph}
}

const katLo, katHi = 652, 4115

func genC03(r *simrt.Rand, c *Case) {
	nt := 2 + r.Intn(3)
	ph := &Phase{}
	near := r.Intn(3) > 0 // stepping far is slow: most runs stay within some centuries
	lo, hi := katLo, katHi
	if near {
		lo, hi = 1700, 2350
	}
	ys := relatedYears(r, lo, hi, 1+r.Intn(4))
	num := func() int64 {
		switch r.Intn(6) {
		case 0:
			return int64(r.Range(-200000, 4000000))
		case 5: // the calendar has no last day
			if oneIn(r, 4) {
				return int64(r.Range(4000000, 40000000)) * int64(pick(r, []int{1, 1, 10}))
			}
		case 1:
			return 484049 + int64(r.Range(-6, 6))*290*356 + int64(r.Range(-2, 2)) // the stepping width
		case 2:
			return 484049 + int64(r.Range(-400, 400))
		}
		return int64(r.Range(0, 600000))
	}
	more := 3
	if oneIn(r, 3) { // many steps over a few neighbouring years
		b := r.Range(2000, 2030)
		ys, more = []int{b, b + 1, b + 2}, 6
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for i := 1 + r.Intn(more); i > 0; i-- {
			y := int64(pick(r, ys))
			switch r.Intn(5) {
			case 0:
				l = append(l, Op{K: "kat", A: []int64{y}})
			case 1, 2:
				l = append(l, Op{K: "asalha", A: []int64{y}})
			case 3:
				l = append(l, Op{K: pick(r, []string{"h2d", "h2d+1"}), A: []int64{num()}})
			default:
				l = append(l, Op{K: "kat+len", A: []int64{y}})
			}
		}
		ph.Tasks = append(ph.Tasks, l)
	}
	y := int64(katLo + (c.Index*7)%(katHi-katLo+1))
	ph.Tasks[0] = append(ph.Tasks[0], Op{K: pick(r, []string{"kat", "asalha"}), A: []int64{y}})
	ph.Plan, ph.Clock, ph.Aux = genPlan(r, nt), smallClock(r), r.Uint64()
	c.Phases = []*Phase{ph}
}

// ---- C04: histories on values that are reused, copied, saved and restored ----

type c04Slot struct {
	y    suriya.SuriyaYear
	d    suriya.SuriyaDay
	yset bool
	dset bool
}

type c04Drv struct {
	Base
	live  [][]c04Slot           // per task
	disk  [][]map[string][]byte // per task: saved values, durable
	model [][]c04Model
	mdisk [][]c04Model
}

type c04Model struct {
	year, dyear, day int // 0: never initialised
}

const c04Slots = 3

func (d *c04Drv) Begin(e *Env) {
	n := 1
	for _, ph := range e.C.Phases {
		if len(ph.Tasks) > n {
			n = len(ph.Tasks)
		}
	}
	for i := 0; i < n; i++ {
		var m []map[string][]byte
		for k := 0; k < c04Slots; k++ {
			m = append(m, map[string][]byte{})
		}
		d.disk = append(d.disk, m)
		d.mdisk = append(d.mdisk, make([]c04Model, c04Slots))
	}
	d.Restarted(e)
}

func (d *c04Drv) Restarted(e *Env) {
	d.live, d.model = nil, nil
	for range d.disk {
		d.live = append(d.live, make([]c04Slot, c04Slots))
		d.model = append(d.model, make([]c04Model, c04Slots))
	}
}

func (d *c04Drv) Do(e *Env, t int, op Op) string {
	s := &d.live[t][op.arg(0)]
	switch op.K {
	case "init":
		s.y.Init(op.arg(1))
		s.yset = true
		return yearText(&s.y)
	case "dinit":
		s.d.Init(op.arg(1), op.arg(2))
		s.dset = true
		return dayText(&s.d)
	case "fill": // the caller writes the fields itself, before it initialises the value
		r := simrt.NewRand(uint64(op.arg(4)))
		fill := func(v reflect.Value) {
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if !f.CanSet() || oneIn(r, 2) {
					continue
				}
				switch f.Kind() {
				case reflect.Int:
					f.SetInt(int64(pick(r, []int{0, 1, 2, -1, 7, 29, 354, 384, 2000})))
				case reflect.Float64:
					f.SetFloat(float64(pick(r, []int{0, 1, -1, 180, 359})))
				case reflect.Bool:
					f.SetBool(oneIn(r, 2))
				}
			}
		}
		if oneIn(r, 2) {
			*s = c04Slot{}
		}
		if oneIn(r, 2) {
			fill(reflect.ValueOf(&s.y).Elem())
			fill(reflect.ValueOf(&s.d).Elem())
		}
		s.y.Year, s.d.Year, s.d.Day = op.arg(1), op.arg(1), op.arg(2)
		if op.arg(3) == 1 {
			s.y.BE_Year, s.y.CS_Year = op.arg(1)+suriya.BEdiff, op.arg(1)-suriya.CSdiff
			s.d.BE_Year, s.d.CS_Year = op.arg(1)+suriya.BEdiff, op.arg(1)-suriya.CSdiff
		}
		return "ok"
	case "copy":
		*s = d.live[t][op.arg(1)]
		return "ok"
	case "save": // the record becomes durable only as a whole
		y, _ := json.Marshal(s.y)
		dd, _ := json.Marshal(s.d)
		simrt.Y(0)
		d.disk[t][op.arg(0)]["y"], d.disk[t][op.arg(0)]["d"] = y, dd
		return "ok"
	case "load":
		*s = c04Slot{}
		if b := d.disk[t][op.arg(0)]["y"]; b != nil {
			if err := json.Unmarshal(b, &s.y); err != nil {
				return "restore: " + err.Error()
			}
			if err := json.Unmarshal(d.disk[t][op.arg(0)]["d"], &s.d); err != nil {
				return "restore: " + err.Error()
			}
		}
		return "ok"
	case "dread":
		return dayText(&s.d)
	}
	before := s.y
	got := askYear(&s.y, op.K)
	if yearText(&before) != yearText(&s.y) {
		return "the question changed the value from " + yearText(&before) + " to " + yearText(&s.y)
	}
	return got
}

func (d *c04Drv) Check(e *Env, t int, op Op, got string) string {
	m := &d.model[t][op.arg(0)]
	switch op.K {
	case "init":
		m.year = op.arg(1)
		return differ(got, wantYear(nil, m.year, "vals"))
	case "dinit":
		m.dyear, m.day = op.arg(1), op.arg(2)
		return differ(got, want(nil, Op{K: "day", A: op.A[1:]}))
	case "fill":
		*m = c04Model{}
		return differ(got, "ok")
	case "copy":
		*m = d.model[t][op.arg(1)]
		return differ(got, "ok")
	case "save":
		d.mdisk[t][op.arg(0)] = *m
		return differ(got, "ok")
	case "load":
		*m = d.mdisk[t][op.arg(0)]
		return differ(got, "ok")
	case "dread":
		if m.dyear == 0 {
			return ""
		}
		return differ(got, want(nil, Op{K: "day", A: []int64{int64(m.dyear), int64(m.day)}}))
	}
	if m.year == 0 {
		return "" // never initialised: nothing is promised
	}
	return differ(got, wantYear(nil, m.year, op.K))
}

// a crash can fall between the save reaching the disk and its acknowledgement
func (d *c04Drv) EndPhase(e *Env) string {
	for t, rs := range e.Res {
		for _, r := range rs {
			if r.done {
				continue
			}
			if r.op.K == "save" {
				var y suriya.SuriyaYear
				var dd suriya.SuriyaDay
				k := r.op.arg(0)
				if b := d.disk[t][k]["y"]; b != nil {
					json.Unmarshal(b, &y)
					json.Unmarshal(d.disk[t][k]["d"], &dd)
					if m := d.model[t][k]; y.Year == m.year && dd.Year == m.dyear && dd.Day == m.day {
						d.mdisk[t][k] = m
					}
				}
			}
			break
		}
	}
	return ""
}

func genC04(r *simrt.Rand, c *Case) {
	nt := 1 + r.Intn(3)
	np := 1 + r.Intn(4)
	qs := []string{"vals", "masa", "vara", "carried", "would", "cyc", "dmasa", "dvara", "len", "str", "vstr", "asalha", "all"}
	ys := relatedYears(r, 1300, 2700, 2+r.Intn(4))
	if oneIn(r, 4) {
		ys = relatedYears(r, 652, 4000, 2+r.Intn(4))
	}
	clk := smallClock(r)
	for p := 0; p < np; p++ {
		ph := &Phase{Clock: clk, Aux: r.Uint64(), Plan: genPlan(r, nt), Restart: p > 0 && r.Intn(3) > 0}
		for t := 0; t < nt; t++ {
			var l []Op
			for i := 2 + r.Intn(9); i > 0; i-- {
				k := int64(r.Intn(c04Slots))
				y := int64(pick(r, ys))
				switch x := r.Intn(20); {
				case x < 4 || p == 0 && i > 8:
					l = append(l, Op{K: "init", A: []int64{k, y}})
				case x < 6:
					l = append(l, Op{K: "dinit", A: []int64{k, y, int64(1 + r.Intn(354))}})
				case x < 7 && oneIn(r, 3): // fields set by the caller, then the value initialised
					day := int64(1 + r.Intn(354))
					l = append(l, Op{K: "fill", A: []int64{k, y, day, int64(r.Intn(2)), int64(r.Intn(1 << 30))}})
					if !oneIn(r, 6) {
						l = append(l, Op{K: "init", A: []int64{k, y}})
					}
					if oneIn(r, 2) {
						l = append(l, Op{K: "dinit", A: []int64{k, y, day}})
					}
				case x < 7:
					l = append(l, Op{K: "copy", A: []int64{k, int64(r.Intn(c04Slots))}})
				case x < 9:
					l = append(l, Op{K: "save", A: []int64{k}})
				case x < 11:
					l = append(l, Op{K: "load", A: []int64{k}})
				case x < 12:
					l = append(l, Op{K: "dread", A: []int64{k}})
				default:
					l = append(l, Op{K: pick(r, qs), A: []int64{k}})
				}
			}
			ph.Tasks = append(ph.Tasks, l)
		}
		if p+1 < np && r.Intn(3) == 0 {
			ph.Kills = append(ph.Kills, Kill{r.Intn(nt), int64(1 + r.Intn(400*nt))})
		}
		c.Phases = append(c.Phases, ph)
	}
	for i := 1; i < np; i++ { // a killed process is followed by a restart
		if len(c.Phases[i-1].Kills) > 0 {
			c.Phases[i].Restart = true
		}
	}
}

func init() {
	register(&Prop{"C01", genC01, func() Driver { return &askDrv{solo: true} }})
	register(&Prop{"C02", genC02, func() Driver { return &askDrv{solo: true} }})
	register(&Prop{"C03", genC03, func() Driver { return &askDrv{solo: true} }})
	register(&Prop{"C04", genC04, func() Driver { return &c04Drv{} }})
}
