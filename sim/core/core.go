// Package core runs simulated executions: it generates cases from seeds,
// executes them, and minimises and records the ones that violate a property.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"strings"

	"simverif/model"
	"simverif/simrt"
)

// CBFault is a fault at a callback invocation of an operation.
type CBFault struct {
	At int    `json:"at"` // how many invocations go well before
	K  string `json:"k"`
}

// Op is one step of a history.
type Op struct {
	T  int           `json:"t,omitempty"` // task
	K  string        `json:"k"`
	S  uint64        `json:"s,omitempty"` // seed of what it works on
	N  int           `json:"n,omitempty"` // size
	A  []int         `json:"a,omitempty"`
	F  []model.Fault `json:"f,omitempty"`
	CB []CBFault     `json:"cb,omitempty"`
}

// Arg returns the i-th parameter.
func (o *Op) Arg(i int) int {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Sched is how a case is scheduled.
type Sched struct {
	Seed     uint64         `json:"seed"`
	Policy   simrt.Policy   `json:"policy"`
	MapMode  int            `json:"map_mode"`
	PoolNew  int            `json:"pool_new"`
	GC       int64          `json:"gc,omitempty"`
	Replays  bool           `json:"replays,omitempty"`
	Switches []simrt.Switch `json:"switches,omitempty"`
}

// Case is one simulated execution: everything that happens in it follows from
// the case and the code.
type Case struct {
	Prop    string `json:"property"`
	Scen    string `json:"scenario"`
	Master  uint64 `json:"master_seed"`
	Run     int    `json:"run"`
	Seed    uint64 `json:"seed"`
	Ops     []Op   `json:"ops"`
	P       []int  `json:"p,omitempty"` // parameters of the scenario
	Sched   Sched  `json:"sched"`
	Warm    int    `json:"warm,omitempty"`    // small calls the objects have served before
	Prelude []int  `json:"prelude,omitempty"` // runs executed before, in the same process
	Tries   int    `json:"-"`
}

// Param returns the i-th parameter of the scenario.
func (c *Case) Param(i int) int {
	if i < len(c.P) {
		return c.P[i]
	}
	return 0
}

// Outcome of a case.
type Outcome struct {
	Class      string         `json:"class,omitempty"` // violation, "" if none
	Detail     string         `json:"detail,omitempty"`
	Skip       bool           `json:"skip,omitempty"`
	Nontrivial bool           `json:"nontrivial,omitempty"`
	Hash       uint64         `json:"hash"` // of everything observed
	SchedHash  uint64         `json:"sched_hash"`
	Steps      int64          `json:"steps"`
	Preempts   int            `json:"preempts"`
	Runs       int            `json:"sim_runs"`
	Faults     map[string]int `json:"faults,omitempty"`
	Switches   []simrt.Switch `json:"switches,omitempty"`
	Race       string         `json:"race,omitempty"`
	SchedSeed  uint64         `json:"sched_seed,omitempty"`
}

// X is the context of an execution.
type X struct {
	C   *Case
	Out Outcome
}

// Fail records a violation (the first one counts).
func (x *X) Fail(class, format string, a ...interface{}) {
	if x.Out.Class == "" {
		x.Out.Class = class
		d := fmt.Sprintf(format, a...)
		if len(d) > 6000 {
			d = d[:6000] + "..."
		}
		x.Out.Detail = d
	}
}

func (x *X) Failed() bool { return x.Out.Class != "" }

// Count counts an injected fault.
func (x *X) Count(fault string, n int) {
	if n == 0 {
		return
	}
	if x.Out.Faults == nil {
		x.Out.Faults = map[string]int{}
	}
	x.Out.Faults[fault] += n
}

// CountFaults counts storage faults.
func (x *X) CountFaults(fs []model.Fault) {
	for _, f := range fs {
		x.Count("storage:"+f.K, 1)
	}
}

// Note adds an observation to the fingerprint of the execution.
func (x *X) Note(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	x.Out.Hash = simrt.Mix(x.Out.Hash, h.Sum64())
}

func (x *X) account(r simrt.Result) {
	x.Out.Steps += r.Steps
	x.Out.Runs++
	x.Out.Preempts += r.Preempts
	x.Out.SchedHash = simrt.Mix(x.Out.SchedHash, r.Digest)
	x.Count("sched:preemption", r.Preempts)
	x.Count("sched:lock wait", r.BlockedEvents)
	x.Count("sched:stalled task", r.Stalls)
	x.Count("clock:jump", simrt.Jumps)
	simrt.Jumps = 0
	x.Count("pool:emptied", r.PoolDrops)
	x.Count("map:iteration ordered", r.MapOrders)
}

// Main runs the tasks under the schedule of the case. Deadlocks and runs that
// exceed the step budget are violations of the given class prefix.
func (x *X) Main(budget int64, fns ...func()) simrt.Result {
	s := x.C.Sched
	r := simrt.Run(simrt.Config{Seed: s.Seed, Policy: s.Policy, Replay: s.Switches, Replays: s.Replays,
		Budget: budget, MapMode: s.MapMode, PoolNew: s.PoolNew, GC: s.GC}, fns...)
	x.account(r)
	x.Out.Switches = r.Switches
	if r.Deadlock {
		x.Fail("deadlock", "deadlock: no task could make progress")
	}
	if r.Overrun {
		x.Fail("hang", "no end after %d steps", r.Steps)
	}
	return r
}

// Solo runs one function alone, with nothing else going on.
func (x *X) Solo(budget int64, f func()) simrt.Result {
	r := simrt.Run(simrt.Config{Seed: x.C.Sched.Seed, Budget: budget}, f)
	x.account(r)
	if r.Deadlock {
		x.Fail("deadlock", "deadlock: no task could make progress (alone)")
	}
	if r.Overrun {
		x.Fail("hang", "no end after %d steps (alone)", r.Steps)
	}
	return r
}

// Scen is a family of simulated executions.
type Scen struct {
	Name   string
	Weight int
	Gen    func(r *model.R, c *Case)
	Exec   func(c *Case, x *X)
}

// Props holds the scenarios of each property.
var Props = map[string][]Scen{}

// Warm says for which properties the objects may have served some calls before
// a run.
var Warm = map[string]bool{"C01": true, "C02": true, "C03": true, "C10": true, "C15": true, "C16": true, "C17": true}

// Rules says per property how cases are made and what makes one non-trivial.
var Rules = map[string]string{}

// Generate makes the case of a run; it is a function of its arguments only.
func Generate(prop string, master uint64, run int) *Case {
	simrt.Start()
	h := fnv.New64a()
	h.Write([]byte(prop))
	seed := simrt.Mix(simrt.Mix(master, h.Sum64()), uint64(run))
	r := model.NewR(seed)
	c := &Case{Prop: prop, Master: master, Run: run, Seed: seed}
	list := Props[prop]
	var w []int
	for _, s := range list {
		w = append(w, s.Weight)
	}
	s := list[r.W(w...)]
	c.Scen = s.Name
	c.Sched.Seed = r.U64()
	s.Gen(r, c)
	if h := simrt.Mix(seed, 99); h%20 == 0 && Warm[prop] {
		c.Warm = 5 + int(h>>8%60)
	}
	return c
}

// Execute runs a case once.
func Execute(c *Case) Outcome {
	simrt.Start()
	simrt.ResetState()
	x := &X{C: c}
	races := simrt.RaceErrors()
	for _, s := range Props[c.Prop] {
		if s.Name == c.Scen {
			x.Out.Skip = false
			runScen(s, c, x)
		}
	}
	if simrt.RaceErrors() > races {
		x.Out.Class = "race"
		x.Out.Detail = "data race (see race)"
	}
	return x.Out
}

// HarnessPanic is a panic in the machinery itself.
type HarnessPanic struct{ Msg string }

func runScen(s Scen, c *Case, x *X) {
	s.Exec(c, x)
}

// Guard turns panics of harness code inside tasks into something that is not
// mistaken for a violation.
func Guard(f func()) func() {
	return func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 8<<10)
				buf = buf[:runtime.Stack(buf, false)]
				panic(HarnessPanic{fmt.Sprintf("%v\n%s", r, buf)})
			}
		}()
		f()
	}
}

// RandPolicy picks a way to generate schedules for a run of about steps steps.
func RandPolicy(r *model.R, steps int64, tasks int) simrt.Policy {
	if steps < 50 {
		steps = 50
	}
	p := simrt.Policy{}
	switch r.W(5, 35, 27, 18, 5, 10) {
	case 0:
		p.Kind = 0
	case 1:
		p.Kind = 1
		p.Gap = int64(r.Pick(1, 2, 5, 20, 100, 500))
	case 2:
		p.Kind = 2
		for i, n := 0, r.Range(1, 6); i < n; i++ {
			p.Points = append(p.Points, 1+int64(r.U64()%uint64(steps)))
		}
		for i := range p.Points {
			for j := i + 1; j < len(p.Points); j++ {
				if p.Points[j] < p.Points[i] {
					p.Points[i], p.Points[j] = p.Points[j], p.Points[i]
				}
			}
		}
	case 3:
		p.Kind = 3
		p.Site = uint32(r.Intn(Sites + 1))
		p.Skip = r.Pick(0, 0, 0, 1, 2, 5)
		p.Hold = int64(r.Pick(50, 500, 5000))
		p.Gap = int64(r.Pick(5, 50, 1000))
	case 4:
		p.Kind = 4
		p.Gap = int64(r.Pick(1, 3, 10))
	case 5:
		p = syncPolicy(r)
	}
	return p
}

func syncPolicy(r *model.R) simrt.Policy {
	return simrt.Policy{Kind: 5, Pct: r.Pick(5, 15, 30, 60), Gap: int64(r.Pick(300, 5000, 1<<40))}
}

// SyncSched makes the tasks of a case take turns at synchronisation.
func SyncSched(r *model.R, c *Case) { c.Sched.Policy = syncPolicy(r) }

// Sites is the number of yield sites in the instrumented code.
var Sites = 1400

// SitesFromEnv sets Sites (the environment hands it on to child processes, so
// that a run is the same in all of them).
func SitesFromEnv() {
	if n, err := strconv.Atoi(os.Getenv("SIM_SITES")); err == nil && n > 0 {
		Sites = n
	}
}

// DumpCase prints a case.
func DumpCase(c *Case) {
	b, _ := json.MarshalIndent(c, "", " ")
	fmt.Println(string(b))
}

// RandSched fills in the schedule of a case.
func RandSched(r *model.R, c *Case, steps int64, tasks int) {
	c.Sched.Policy = RandPolicy(r, steps, tasks)
	c.Sched.MapMode = r.Pick(0, 1, 1, 2, 3)
	c.Sched.PoolNew = r.Pick(0, 0, 20, 100)
	if r.P(5) {
		c.Sched.GC = 1 + int64(r.U64()%uint64(steps+1))
	}
}

// RelevantRace tells whether a race report concerns the code under test.
func RelevantRace(report string) bool {
	return strings.Contains(report, "/Go/sereal/")
}
