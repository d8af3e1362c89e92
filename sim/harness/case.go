package main

import (
	"verifsim/simos"
	"verifsim/simrt"
)

// Op is one operation of a workload.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
}

// Kill crashes a task's process after its Nth scheduling point of the phase.
type Kill struct {
	Task int   `json:"task"`
	At   int64 `json:"at"`
}

// Phase is a set of tasks that run concurrently, after Set ran alone.
type Phase struct {
	Restart bool            `json:"restart,omitempty"` // a new process: all package state is lost
	Set     []Op            `json:"set,omitempty"`
	Tasks   [][]Op          `json:"tasks"`
	Kills   []Kill          `json:"kills,omitempty"`
	Plan    simrt.SchedPlan `json:"plan"`
	Clock   simrt.ClockPlan `json:"clock"`
	Aux     uint64          `json:"aux,omitempty"`
}

// Damage alters the stored form of an embedded file.
type Damage struct {
	Key  string `json:"key"`  // file name in the store
	Kind string `json:"kind"` // flip, cut, drop, dup, zero, swap
	Pos  int64  `json:"pos"`
	Len  int64  `json:"len,omitempty"`
	Val  int64  `json:"val,omitempty"`
}

// Case is one simulated run: everything that happens in it follows from here.
type Case struct {
	Prop     string            `json:"property"`
	Index    int               `json:"index"`
	Env      map[string]string `json:"env,omitempty"`
	Phases   []*Phase          `json:"phases"`
	Faults   []*simos.Fault    `json:"faults,omitempty"`
	Damage   []Damage          `json:"damage,omitempty"`
	MaxChunk int               `json:"max_chunk,omitempty"`
	KillOp   int               `json:"kill_op,omitempty"`
	Torn     int               `json:"torn,omitempty"`
}

// Violation is a property failure.
type Violation struct {
	Class  string `json:"class"` // mismatch, race, panic, deadlock, stuck, leak, ...
	Detail string `json:"detail"`
}

func opStr(o Op) string {
	s := o.K
	for _, a := range o.A {
		s += " " + itoa(a)
	}
	if o.S != "" {
		s += " " + o.S
	}
	return s
}

func itoa(a int64) string {
	if a < 0 {
		return "-" + itoa(-a)
	}
	if a < 10 {
		return string(rune('0' + a))
	}
	return itoa(a/10) + string(rune('0'+a%10))
}

func (o Op) arg(i int) int {
	if i < len(o.A) {
		return int(o.A[i])
	}
	return 0
}

// maxTasks is the largest number of callers of any phase.
func maxTasks(c *Case) int {
	n := 1
	for _, ph := range c.Phases {
		if len(ph.Tasks) > n {
			n = len(ph.Tasks)
		}
	}
	return n
}
