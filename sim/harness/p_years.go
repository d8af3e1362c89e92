//go:build full

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/splendidmoons/suriya-go/utils"

	"verifsim/model"
	"verifsim/simos"
	"verifsim/simrt"
)

// ---- C19: the year table ----

// recorded is the festival date of printed calendars, its source and a comment.
var recorded = map[int][3]string{
	1970: {"1970-07-18", "myhora.com", ""},
	1971: {"1971-07-07", "myhora.com", ""},
	1972: {"1972-07-25", "myhora.com", ""},
	1973: {"1973-07-15", "myhora.com", ""},
	1974: {"1974-07-04", "myhora.com", ""},
	1975: {"1975-07-23", "myhora.com", ""},
	1976: {"1976-07-11", "myhora.com", ""},
	1977: {"1977-07-30", "myhora.com", ""},
	1978: {"1978-07-19", "myhora.com", "adhikavāra is missing from the calendar"},
	1979: {"1979-07-09", "myhora.com", ""},
	1980: {"1980-07-27", "myhora.com", ""},
	1981: {"1981-07-16", "myhora.com", ""},
	1982: {"1982-07-05", "myhora.com", ""},
	1983: {"1983-07-24", "myhora.com", ""},
	1984: {"1984-07-12", "myhora.com", "adhikavāra is missing from the calendar"},
	1985: {"1985-07-31", "myhora.com", ""},
	1986: {"1986-07-20", "myhora.com", ""},
	1987: {"1987-07-10", "thaiorc.com", ""},
	1988: {"1988-07-28", "thaiorc.com", ""},
	1989: {"1989-07-17", "thaiorc.com", ""},
	1990: {"1990-07-07", "thaiorc.com", ""},
	1991: {"1991-07-26", "thaiorc.com", ""},
	1992: {"1992-07-14", "thaiorc.com", ""},
	1993: {"1993-08-02", "thaiorc.com", ""},
	1994: {"1994-07-22", "thaiorc.com, myhora.com", "calendar is missing adhikavāra, passing with exception"},
	1995: {"1995-07-11", "thaiorc.com, myhora.com", ""},
	1996: {"1996-07-29", "thaiorc.com, myhora.com", ""},
	1997: {"1997-07-19", "thaiorc.com, myhora.com", "missing adhikavāra was added back here, passing with exception"},
	1998: {"1998-07-08", "thaiorc.com", ""},
	1999: {"1999-07-27", "thaiorc.com", ""},
	2000: {"2000-07-16", "thaiorc.com", ""},
	2001: {"2001-07-05", "fs-cal, thaiorc.com", ""},
	2002: {"2002-07-24", "thaiorc.com", ""},
	2003: {"2003-07-13", "thaiorc.com", ""},
	2004: {"2004-07-31", "fs-cal", ""},
	2005: {"2005-07-21", "fs-cal", ""},
	2006: {"2006-07-10", "fs-cal", ""},
	2007: {"2007-07-29", "fs-cal", ""},
	2008: {"2008-07-17", "fs-cal, bot.or.th", ""},
	2009: {"2009-07-07", "fs-cal, bot.or.th", ""},
	2010: {"2010-07-26", "fs-cal, bot.or.th", ""},
	2011: {"2011-07-15", "fs-cal, bot.or.th", ""},
	2012: {"2012-08-02", "fs-cal, bot.or.th", ""},
	2013: {"2013-07-22", "fs-cal, bot.or.th", ""},
	2014: {"2014-07-11", "fs-cal, bot.or.th", ""},
	2015: {"2015-07-30", "fs-cal, bot.or.th", ""},
	2016: {"2016-07-19", "fs-cal, bot.or.th, myhora.com", ""},
}

const tableHead = "CE year;BE year;K;A;T;nM;dM;nV;dV;Asalha by Calc.;Asalha in Calendar;test;source;comments\n"

func tableRow(y int) string {
	var x model.Exceptions
	v := model.NewYear(y)
	dM, dV, res := "", "", ""
	if model.Masa(y) {
		dM = fmt.Sprint(model.DeltaMasa(y))
	}
	if x.Vara(y) {
		dV = fmt.Sprint(x.DeltaVara(y))
	} else if model.WouldVara(y) {
		dV = "x"
	}
	as := x.Asalha(y).String()
	rec, ok := recorded[y]
	if ok {
		res = "FAIL"
		if rec[0] == as {
			res = "OK"
		}
	}
	var f []string
	for _, c := range []interface{}{y, v.BE, v.Kammacubala, v.Avoman, v.Tithi, model.CyclePos(y, 19), dM, model.CyclePos(y, 57), dV, as, rec[0], res, rec[1], rec[2]} {
		f = append(f, fmt.Sprint(c))
	}
	return strings.Join(f, ";") + "\n"
}

var tableText = func() string {
	s := tableHead
	for y := 1970; y <= 2041; y++ {
		s += tableRow(y)
	}
	return s
}()

type yearsDrv struct {
	Base
	fired []int
}

func (d *yearsDrv) Proc(e *Env, t int) *simrt.Proc {
	if _, ok := runOp(e.Ph); !ok {
		return nil
	}
	d.fired = d.fired[:0]
	for _, f := range e.World.Faults {
		d.fired = append(d.fired, f.Fired)
	}
	for _, n := range e.World.Files {
		n.Bad = false // of an earlier run
	}
	return &simrt.Proc{Name: procName(e), Args: []string{"years-csv"}, Env: e.C.Env, Dir: "/work"}
}

func (d *yearsDrv) Do(e *Env, t int, op Op) string {
	switch op.K {
	case "run":
		yearstool.VerifMain()
		return "returned"
	case "put":
		b := oldContent(op.arg(0), op.arg(1))
		switch op.arg(0) {
		case 5: // a whole earlier table, with another row
			b = []byte(tableText + tableRow(2042))
		case 6: // and one cut short
			b = []byte(tableText[:op.arg(1)%len(tableText)])
		}
		e.World.Files["/work/years.csv"] = &simos.Node{Data: b, Mode: 0o644}
		return ""
	}
	return "?"
}

func (d *yearsDrv) EndPhase(e *Env) string {
	if _, ok := runOp(e.Ph); !ok || len(e.Procs) == 0 || e.Procs[0] == nil {
		return ""
	}
	p := e.Procs[0]
	fault := ""
	for i, f := range e.World.Faults {
		if f.Fired > d.fired[i] {
			fault += fmt.Sprintf(" %s %s %s", f.Op, f.Path, f.Err)
		}
	}
	cond := ""
	if fault != "" {
		cond = " after the disk fault:" + fault
	}
	if p.How == "killed" {
		return ""
	}
	if p.How != "return" && p.Code != 0 {
		e.Counts["runs-failed"]++
		if fault == "" {
			return fmt.Sprintf("the tool exits with status %d (%s) though nothing went wrong; it wrote %q", p.Code, p.How, clip(string(e.World.Stream(p.Name, "stdout"))))
		}
		return ""
	}
	e.Counts["runs-ok"]++
	b, has := fileOf(e, "years.csv")
	if !has {
		return "the tool exits with status 0" + cond + ", but there is no years.csv"
	}
	if w := firstDiff(string(b), tableText); w != "" {
		return "the tool exits with status 0" + cond + ", but in years.csv " + w
	}
	if e.World.Files[inWork("years.csv")].Bad {
		return "the tool exits with status 0" + cond
	}
	return ""
}

func genC19(r *simrt.Rand, c *Case) {
	n := 1 + r.Intn(3)
	for p := 0; p < n; p++ {
		ph := &Phase{Restart: true, Clock: genClock(r), Aux: r.Uint64(), Plan: simrt.SchedPlan{Policy: "seq"}, Tasks: [][]Op{{{K: "run"}}}}
		if oneIn(r, 2) {
			ph.Set = []Op{{K: "put", A: []int64{int64(r.Intn(7)), int64(pick(r, []int{1, 100, 5000, 200000, r.Intn(6000)}))}}}
		}
		if p+1 < n || n == 1 {
			switch r.Intn(4) {
			case 0:
				ph.Kills = []Kill{{0, int64(math.Exp(float64(r.Intn(1200)) / 100))}}
			case 1:
				c.KillOp, c.Torn = 1+r.Intn(3+3*p), shortLen(r)
			}
		}
		c.Phases = append(c.Phases, ph)
	}
	if r.Intn(3) > 0 {
		for i := 1 + r.Intn(2); i > 0; i-- {
			c.Faults = append(c.Faults, genDiskFault(r, "years.csv"))
		}
	}
}

func init() { register(&Prop{"C19", genC19, func() Driver { return &yearsDrv{} }}) }
