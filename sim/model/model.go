// Package model is the reference the simulated runs are judged against. It is
// written from the rules (Eade's procedures as the repository documents them,
// and the Thai lunar calendar), shares no code with the repository, and works
// with day numbers instead of times.
package model

import (
	"math"
	"time"
)

func fdiv(a, b int) int {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func fmod(a, b int) int { return a - b*fdiv(a, b) }

// Year holds the values of the astronomical new year of a CE year.
type Year struct{ CE, BE, CS, Horakhun, Kammacubala, Uccabala, Avoman, Masaken, Tithi int }

func NewYear(ce int) Year {
	y := Year{CE: ce, BE: ce + 543, CS: ce - 638}
	e := y.CS*292207 + 373 // 800ths of a day since the era
	y.Horakhun = fdiv(e, 800) + 1
	y.Kammacubala = 800 - fmod(e, 800)
	y.Uccabala = fmod(y.Horakhun+2611, 3232)
	a := y.Horakhun*11 + 650
	y.Avoman = fmod(a, 692)
	t := fdiv(a, 692) + y.Horakhun // tithis since the era
	y.Masaken = fdiv(t, 30)
	y.Tithi = fmod(t, 30)
	return y
}

// Exceptions are the years whose extra day the official calendar decided.
type Exceptions map[int]bool

func WouldMasa(ce int) bool { t := NewYear(ce).Tithi; return t >= 24 || t <= 5 }
func Masa(ce int) bool      { return WouldMasa(ce) && !WouldMasa(ce+1) }
func SuriyaLeap(ce int) bool {
	return NewYear(ce).Kammacubala <= 207
}

func WouldVara(ce int) bool {
	y := NewYear(ce)
	if y.Kammacubala <= 207 {
		return y.Avoman <= 126
	}
	return y.Avoman < 137
}

func Carried(ce int) bool { return Masa(ce-1) && WouldVara(ce-1) }

type leap struct{ masa, vara, known bool }

var memo [12000]leap

// leapOf gives the regular (exception-free) classification.
func leapOf(ce int) (bool, bool) {
	if ce < 0 || ce >= len(memo) {
		m := Masa(ce)
		return m, !m && (Carried(ce) || WouldVara(ce))
	}
	l := &memo[ce]
	if !l.known {
		m := Masa(ce)
		*l = leap{m, !m && (Carried(ce) || WouldVara(ce)), true}
	}
	return l.masa, l.vara
}

func (x Exceptions) Vara(ce int) bool {
	if v, ok := x[ce]; ok {
		return v
	}
	_, v := leapOf(ce)
	return v
}

func (x Exceptions) Length(ce int) int {
	if m, _ := leapOf(ce); m {
		return 384
	}
	if x.Vara(ce) {
		return 355
	}
	return 354
}

// CyclePos counts 1984 as the first year of a cycle of n years.
func CyclePos(ce, n int) int { return fmod(ce-1984, n) + 1 }

// DeltaMasa and DeltaVara are the years since the last leap year of the kind.
func DeltaMasa(ce int) int {
	for d := 1; d < 8; d++ {
		if m, _ := leapOf(ce - d); m {
			return d
		}
	}
	return -1
}

func (x Exceptions) DeltaVara(ce int) int {
	for d := 1; d < 14; d++ {
		if x.Vara(ce - d) {
			return d
		}
	}
	return -1
}

// DayNum is a civil day as the number of days since 1970-01-01.
type DayNum int

func Civil(y, m, d int) DayNum {
	return DayNum(time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC).Unix() / 86400)
}

func (d DayNum) Time() time.Time { return time.Unix(int64(d)*86400, 0).UTC() }
func (d DayNum) String() string  { return d.Time().Format("2006-01-02") }
func (d DayNum) Year() int       { return d.Time().Year() }

// Kattika is the full moon that ends the lunar year before that of ce.
func (x Exceptions) Kattika(ce int) DayNum {
	d := Civil(2015, 11, 25)
	for y := 2016; y < ce; y++ {
		d += DayNum(x.Length(y))
	}
	for y := 2015; y >= ce; y-- {
		d -= DayNum(x.Length(y))
	}
	return d
}

// Asalha is the date of Asalha Puja: the full moon of the 8th month, or of
// the second 8th month in an adhikamasa year.
func (x Exceptions) Asalha(ce int) DayNum {
	for _, m := range x.Months(ce) {
		if m.Event == "asalha" {
			return m.Full
		}
	}
	return 0
}

// HorakhunDay is the civil day of an elapsed-day number.
func HorakhunDay(h int64) DayNum { return Civil(1963, 7, 5) + DayNum(h-484049) }

// Month of a lunar year: its new moon uposatha opens the second half and its
// full moon closes it.
type Month struct {
	Num, Days int // number (13: second Asalha), length
	New, Full DayNum
	Event     string // of the full moon
	Season    int
	First     int // season number of its new moon
	Total     int // uposathas in the season
	ExtraDay  bool
}

// Months lists the months of the lunar year that ends in November of ce.
func (x Exceptions) Months(ce int) []Month {
	masa, _ := leapOf(ce)
	vara := !masa && x.Vara(ce)
	seq := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
	fest := map[int]string{3: "magha", 6: "vesakha", 8: "asalha", 11: "pavarana"}
	if masa {
		seq = []int{1, 2, 3, 4, 5, 6, 7, 8, 13, 9, 10, 11, 12}
		fest = map[int]string{4: "magha", 7: "vesakha", 13: "asalha", 11: "pavarana"}
	}
	season := func(m int) int {
		switch {
		case m <= 4:
			return 1
		case m <= 8 || m == 13:
			return 2
		}
		return 3
	}
	count := map[int]int{}
	for _, m := range seq {
		count[season(m)] += 2
	}
	var out []Month
	at := x.Kattika(ce)
	used := map[int]int{}
	for _, n := range seq {
		m := Month{Num: n, Days: 29 + n%2, Event: fest[n], Season: season(n)}
		if n == 8 && vara {
			m.Days, m.ExtraDay = 30, true
		}
		m.New = at + DayNum(m.Days-15)
		m.Full = at + DayNum(m.Days)
		at = m.Full
		m.First = used[m.Season] + 1
		used[m.Season] += 2
		m.Total = count[m.Season]
		out = append(out, m)
	}
	return out
}

// Moon is one uposatha.
type Moon struct {
	Day                               DayNum
	Phase, Event                      string
	SNum, STotal, UDays, MDays, Month int
	Season, Year                      int
	Extra                             bool
}

// Moons lists the uposathas of the lunar year that ends in November of ce.
func (x Exceptions) Moons(ce int) []Moon {
	var out []Moon
	for _, m := range x.Months(ce) {
		b := Moon{SNum: m.First, STotal: m.Total, MDays: m.Days, Month: m.Num, Season: m.Season, Year: ce + 543}
		n, f := b, b
		n.Day, n.Phase, n.UDays, n.Extra = m.New, "new", m.Days-15, m.ExtraDay
		f.Day, f.Phase, f.UDays, f.Event, f.SNum = m.Full, "full", 15, m.Event, b.SNum+1
		out = append(out, n, f)
	}
	return out
}

// Pos holds the day values.
type Pos struct {
	Horakhun, Kammacubala, Uccabala, Avoman, Masaken, Tithi int
	MeanSun, TrueSun, MeanMoon, TrueMoon, Raek              float64
	Slack                                                   float64 // extra tolerance where a rounding step sits on its edge
}

func sin(d float64) float64 { return math.Sin(d * math.Pi / 180) }

// NewDay follows the procedure for the nth day of the lunar year.
func NewDay(ce, day int) Pos {
	y := NewYear(ce)
	e := day - y.Tithi
	var p Pos
	p.Horakhun = y.Horakhun + e
	p.Kammacubala = y.Kammacubala + e*800
	p.Uccabala = fmod(p.Horakhun+2611, 3232)
	a := p.Horakhun*11 + 650
	p.Avoman = fmod(a, 692)
	t := fdiv(a, 692) + p.Horakhun
	p.Masaken = fdiv(t, 30)
	p.Tithi = fmod(t, 30)

	num := (e*800 + y.Kammacubala) * 21600 // arc minutes the mean sun moved, times 292207
	arcmin := fdiv(num, 292207) - 3
	if fmod(num, 292207) == 0 {
		p.Slack = 0.06
	}
	p.MeanSun = float64(arcmin) / 60
	c := 134 * sin(math.Abs(p.MeanSun-80))
	if math.Abs(c-math.Round(c)) < 0.001 { // the mean sun is kept to 4 decimals only
		p.Slack += 0.06
	}
	p.TrueSun = p.MeanSun + math.Floor(c)/60
	p.MeanMoon = p.TrueSun + float64(p.Avoman+p.Avoman/25)/60 + float64(p.Tithi)*12 - 40.0/60
	apogee := float64(y.Uccabala+e)*90/808 + 2.0/60
	p.TrueMoon = p.MeanMoon - 296*sin(p.MeanMoon-apogee)/60
	p.Raek = p.TrueMoon/(13+20.0/60) + 1
	return p
}
