package main

// propCfg says how a property is explored.
type propCfg struct {
	id       string
	variant  string // core, full, years, script
	race     bool
	quick    int // runs
	thorough int
	faults   bool // fault injection decides it, not only schedules
	rule     string
	real     []string
	stub     []string
	assume   []string
}

const (
	ruleSched = "A case is a seeded workload (callers, their operations and arguments, phases, restarts) plus a seeded schedule plan (sequential, random slices, priority-change or statement-targeted preemption), clock plan and zone. Non-trivial: at least one preemption between two runnable callers, or an injected fault, kill, restart, clock jump, map-order permutation or non-UTC zone that took effect. Distinct: by the hash of the case and of the executed interleaving."
	ruleDisk  = "A case is a seeded workload plus a seeded fault plan for the simulated disk and process (which operation, which occurrence, which error, how many bytes still went through, kill point, torn length), clock plan and zone. Non-trivial: a fault, kill, restart, clock jump, map-order permutation, non-UTC zone or preemption between two runnable callers took effect. Distinct: by the hash of the case and of the executed interleaving."
)

var realCore = []string{"suriya_year.go, suriya_day.go, helpers.go, suriya.go, aeris_moon.go, data.go (all instrumented at check time, otherwise unchanged)"}
var stubCore = []string{"sync (simulated locks, once, pool, map, wait groups with the race detector's happens-before edges)", "goroutines, channels, select, timers (simulated scheduler)", "time.Now and friends (simulated clock)", "math/rand (seeded)", "os, log, fmt printing (simulated disk, streams, environment, exit)"}
var realFull = []string{"all root package files, including the seven the repository's own build leaves out here (instrumented at check time, otherwise unchanged)", "suriya/suriya.go, the command line tool (its main runs as a simulated process)", "utils/years-csv.go, the year-table tool (its main runs as a simulated process)"}
var stubFull = append(append([]string{}, stubCore...), "github.com/codegangsta/cli, github.com/satori/go.uuid, github.com/soh335/ical, github.com/davecgh/go-spew (not available offline; stand-ins with the behaviour the code relies on)")

var assumeModel = []string{"the reference model in sim/model restates the calendar rules independently; it was compared with the unchanged tree on every year of its range and is trusted where both agree", "one task runs at a time and switches happen at statements and synchronisation operations; memory-model effects below that are left to the race detector, which sees the same execution with the code's own synchronisation as its only happens-before edges"}
var assumeDisk = []string{"the simulated disk keeps what was written (no write-back cache model): writes, short writes, failing writes and closes and kills inside a write are modelled, loss of completed writes at a power cut is not"}

const ruleScript = "A case is one to three runs of the script over the same directory: year ranges, per-year outcome and latency, process start cost, late wakeups, file faults (which operation, which occurrence, which error, how many bytes still went through), a kill at an operation with a torn write, and earlier files. Non-trivial: a download or file operation failed, the script was killed, or it ran more than once. Distinct: by the hash of the case."

var realScript = []string{"utils/get-astromoons.sh (from the working tree, unchanged)", "bash and coreutils (date, expr, sleep, mv, rm)", "the file system, below the fault injection"}
var stubScript = []string{"curl and the web service (answers from the plan)", "time, sleeping and the file operations open, write, rename and unlink (preloaded library with a simulated clock, faults and kills)"}
var assumeScript = []string{"the clock does not jump while the script runs", "processes run one after another, as the script starts them", "files written completely before a kill survive it; loss of completed writes at a power cut is not modelled"}

var cfgs = []propCfg{
	{id: "C01", variant: "core", race: true, quick: 48000, thorough: 900000},
	{id: "C02", variant: "core", race: true, quick: 48000, thorough: 900000},
	{id: "C03", variant: "core", race: true, quick: 12000, thorough: 300000},
	{id: "C04", variant: "core", race: true, quick: 24000, thorough: 500000},
	{id: "C08", variant: "core", race: true, quick: 40000, thorough: 700000},
	{id: "C09", variant: "core", race: true, quick: 40000, thorough: 700000, faults: true},
	{id: "C10", variant: "core", quick: 60000, thorough: 2000000, faults: true},
	{id: "C11", variant: "core", race: true, quick: 40000, thorough: 700000},
	{id: "C05", variant: "full", race: true, quick: 16000, thorough: 400000},
	{id: "C06", variant: "full", race: true, quick: 12000, thorough: 400000},
	{id: "C07", variant: "full", race: true, quick: 20000, thorough: 450000},
	{id: "C12", variant: "full", race: true, quick: 9000, thorough: 180000, faults: true},
	{id: "C16", variant: "full", race: true, quick: 10000, thorough: 250000},
	{id: "C13", variant: "full", quick: 80000, thorough: 2000000, faults: true},
	{id: "C14", variant: "full", quick: 80000, thorough: 2000000, faults: true},
	{id: "C15", variant: "full", quick: 80000, thorough: 2000000, faults: true},
	{id: "C19", variant: "full", quick: 60000, thorough: 400000, faults: true},
	{id: "C20", variant: "script", quick: 1500, thorough: 40000, faults: true, real: realScript, stub: stubScript, assume: assumeScript, rule: ruleScript},
	{id: "C17", variant: "full", race: true, quick: 20000, thorough: 450000},
	{id: "C18", variant: "full", race: true, quick: 36000, thorough: 800000},
}

func findCfg(id string) *propCfg {
	for i := range cfgs {
		c := &cfgs[i]
		if c.id != id {
			continue
		}
		if c.rule == "" {
			c.rule = ruleSched
			if c.faults {
				c.rule = ruleDisk
			}
		}
		if c.real == nil {
			c.real, c.stub = realCore, stubCore
			if c.variant == "full" {
				c.real, c.stub = realFull, stubFull
			}
		}
		if c.assume == nil {
			c.assume = assumeModel
			if c.faults {
				c.assume = append(append([]string{}, assumeModel...), assumeDisk...)
			}
		}
		return c
	}
	return nil
}
