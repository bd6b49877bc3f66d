// Package simrt is the simulator's runtime: a seeded scheduler that decides
// which task runs at every yield point, plus the seams through which the code
// under test meets nondeterminism (map iteration order, pools, locks).
//
// Exactly one task goroutine runs at a time. The hand-over between tasks is
// hidden from the race detector, so it sees tasks as concurrent unless the
// code under test synchronises them.
package simrt

import (
	"runtime"
)

// Switch is one recorded scheduling decision: at step Step, task To was given
// the processor. Forced decisions were taken because the running task ended,
// blocked or stalled.
type Switch struct {
	Step   int64 `json:"s"`
	To     int   `json:"t"`
	Forced bool  `json:"f,omitempty"`
}

// Policy says how schedules are generated.
type Policy struct {
	Kind   int     // 0 sequential, 1 random walk, 2 priority change points, 3 pause at a site, 4 round robin, 5 at synchronisation
	Gap    int64   // mean steps between preemptions (random walk, round robin)
	Points []int64 // change points (priority)
	Site   uint32  // pause site
	Skip   int     // number of times the site is passed before the pause
	Hold   int64   // steps for which a paused task is held back
	Pct    int     // percentage of synchronisation operations at which another task goes on
}

// Config configures one simulated run.
type Config struct {
	Seed    uint64
	Policy  Policy
	Replay  []Switch // if Replaying
	Replays bool
	Budget  int64 // maximum number of steps, 0: default
	MapMode int   // 0 sorted, 1 shuffled, 2 reversed, 3 rotated
	PoolNew int   // percentage of Pool.Get that find the pool emptied
	GC      int64 // if not 0: a garbage collection at this step
}

// Result is what happened to the scheduling of one run.
type Result struct {
	Steps         int64
	Switches      []Switch
	Preempts      int
	Digest        uint64
	Deadlock      bool // no task could run
	Overrun       bool // step budget exhausted
	StallBlocked  bool // tasks were blocked while the only others were stalled
	Unfinished    int  // tasks that did not end by themselves
	BlockedEvents int  // times a task had to wait for a lock
	Stalls        int
	PoolDrops     int
	MapOrders     int
}

const (
	ready = iota
	blocked
	stalled
	done
)

const maxTasks = 600
const maxSwitches = 1 << 14

type task struct {
	id     int
	wake   chan struct{}
	state  int
	prio   int
	steps  int64
	last   int64
	held   int64 // not scheduled before this step (pause policy)
	rng    uint64
	mrng   uint64
	mmode  int
	iters  *iterTab // iterations over maps so far
	killed bool
	parent *task
	inSub  bool // waits for a task of its own (Sub)
	daemon bool // started by the code under test
	sub    bool // started by Sub
	plan   any
}

type sched struct {
	cfg      Config
	tasks    [maxTasks]*task
	n        int
	made     uint64 // tasks
	step     int64
	next     int64 // step of the next scheduling decision
	budget   int64
	rng      uint64
	pos      int // position in cfg.Replay / change points
	passed   int
	paused   bool
	since    int64 // steps since the last switch
	sw       *[maxSwitches]Switch
	nsw      int
	preempts int
	digest   uint64
	aborting bool
	live     int
	doneCh   chan struct{}
	res      Result
}

var (
	cur   *task
	sch   *sched
	epoch uint64
	// SiteHits counts how often each yield site was reached (reach probes).
	SiteHits [1 << 14]uint32
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix is the hash all seeds are derived with.
func Mix(a, b uint64) uint64 { return mix(a ^ mix(b)) }

//go:norace
func rnd(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Live counts the goroutines of the code under test that have not ended.
//
//go:norace
func Live() int {
	n := 0
	for i := 0; i < sch.n; i++ {
		if t := sch.tasks[i]; t.daemon && t.state != done {
			n++
		}
	}
	return n
}

// Epoch identifies the current simulated run.
//
//go:norace
func Epoch() uint64 { return epoch }

// Active reports whether a simulated task is running.
//
//go:norace
func Active() bool { return cur != nil && !sch.aborting }

// Y is the yield point the instrumenter puts before every statement.
//
//go:norace
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	s := sch
	if s.aborting {
		return
	}
	s.step++
	t.steps++
	SiteHits[site&(1<<14-1)]++
	if s.step == s.cfg.GC {
		runtime.GC()
	}
	if s.step >= s.next {
		s.decide(t, site)
	} else if s.cfg.Policy.Kind == 3 && site == s.cfg.Policy.Site && !s.paused && !s.cfg.Replays {
		s.pauseSite(t)
	} else if s.cfg.Policy.Kind == 5 && site >= firstSync && !s.cfg.Replays {
		s.atSync(t, site)
	}
}

// firstSync is the first of the sites that stand for locks, pools, atomic
// operations and the like.
const firstSync = 1<<14 - 2

//go:norace
func (s *sched) atSync(t *task, site uint32) {
	if int(rnd(&s.rng)%100) >= s.cfg.Policy.Pct {
		return
	}
	to := s.randomOther(t)
	if to != t {
		s.record(to, false)
		s.digest = mix(s.digest ^ uint64(t.id)<<40 ^ uint64(to.id)<<32 ^ uint64(site))
		s.preempts++
		s.plan()
		s.switchTo(t, to)
	}
}

const fairness = 200000

//go:norace
func (s *sched) decide(t *task, site uint32) {
	if s.step >= s.budget {
		s.res.Overrun = true
		s.abort(t)
		return
	}
	to := t
	if s.cfg.Replays {
		for s.pos < len(s.cfg.Replay) && s.cfg.Replay[s.pos].Step < s.step {
			s.pos++
		}
		if s.pos < len(s.cfg.Replay) && s.cfg.Replay[s.pos].Step == s.step && !s.cfg.Replay[s.pos].Forced {
			to = s.pick(s.cfg.Replay[s.pos].To, t)
			s.pos++
		}
	} else {
		switch s.cfg.Policy.Kind {
		case 1, 5:
			to = s.randomOther(t)
		case 2:
			// the running task's priority drops below all others
			if s.pos < len(s.cfg.Policy.Points) && s.cfg.Policy.Points[s.pos] <= s.step {
				s.pos++
				t.prio = -s.pos
				to = s.highest(t)
			}
		case 3:
			if s.paused {
				// the held-back task may come back at any time now
				to = s.randomOther(t)
			}
		case 4:
			to = s.roundRobin(t)
		}
	}
	if to == t && s.step-s.since >= fairness {
		to = s.roundRobin(t)
	}
	if to != t {
		s.record(to, false)
		s.digest = mix(s.digest ^ uint64(t.id)<<40 ^ uint64(to.id)<<32 ^ uint64(site))
		s.preempts++
		s.plan()
		s.switchTo(t, to)
		return
	}
	s.plan()
}

//go:norace
func (s *sched) pauseSite(t *task) {
	s.passed++
	if s.passed <= s.cfg.Policy.Skip {
		return
	}
	s.paused = true
	t.held = s.step + s.cfg.Policy.Hold
	to := s.randomOther(t)
	if to != t {
		s.record(to, false)
		s.digest = mix(s.digest ^ uint64(t.id)<<40 ^ uint64(to.id)<<32 ^ uint64(s.cfg.Policy.Site))
		s.preempts++
		s.plan()
		s.switchTo(t, to)
	}
}

// plan computes the step of the next decision.
//
//go:norace
func (s *sched) plan() {
	next := s.budget
	if f := s.step + fairness; f < next {
		next = f
	}
	if s.cfg.Replays {
		i := s.pos
		for i < len(s.cfg.Replay) && (s.cfg.Replay[i].Step <= s.step || s.cfg.Replay[i].Forced) {
			i++
		}
		if i < len(s.cfg.Replay) && s.cfg.Replay[i].Step < next {
			next = s.cfg.Replay[i].Step
		}
	} else if s.live > 1 {
		n := next
		switch s.cfg.Policy.Kind {
		case 1, 4, 5:
			g := s.cfg.Policy.Gap
			if g < 1 {
				g = 1
			}
			n = s.step + 1 + int64(rnd(&s.rng)%uint64(2*g))
		case 2:
			if s.pos < len(s.cfg.Policy.Points) {
				n = s.cfg.Policy.Points[s.pos]
				if n <= s.step {
					n = s.step + 1
				}
			}
		case 3:
			if s.paused {
				g := s.cfg.Policy.Gap
				if g < 1 {
					g = 1
				}
				n = s.step + 1 + int64(rnd(&s.rng)%uint64(2*g))
			}
		}
		if n < next {
			next = n
		}
	}
	s.next = next
}

//go:norace
func (s *sched) record(to *task, forced bool) {
	if s.nsw < maxSwitches {
		s.sw[s.nsw] = Switch{s.step, to.id, forced}
		s.nsw++
	}
	s.since = s.step
}

//go:norace
func (s *sched) pick(id int, t *task) *task {
	if id >= 0 && id < s.n && s.tasks[id].state == ready {
		return s.tasks[id]
	}
	return t
}

//go:norace
func (s *sched) eligible(x *task) bool { return x.state == ready && x.held <= s.step }

// randomOther picks a random ready task other than t, or t if there is none.
//
//go:norace
func (s *sched) randomOther(t *task) *task {
	c := 0
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x != t && s.eligible(x) {
			c++
		}
	}
	if c == 0 {
		return t
	}
	k := int(rnd(&s.rng) % uint64(c))
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x != t && s.eligible(x) {
			if k == 0 {
				return x
			}
			k--
		}
	}
	return t
}

//go:norace
func (s *sched) highest(t *task) *task {
	best := t
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x.state == ready && (best.state != ready || x.prio > best.prio) {
			best = x
		}
	}
	return best
}

//go:norace
func (s *sched) roundRobin(t *task) *task {
	for i := 1; i <= s.n; i++ {
		x := s.tasks[(t.id+i)%s.n]
		if x.state == ready {
			return x
		}
	}
	return t
}

// forced picks who runs when the running task cannot continue; nil: nobody.
//
//go:norace
func (s *sched) forced(t *task) *task {
	var def *task
	c := 0
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x != t && x.state == ready {
			if def == nil {
				def = x
			}
			c++
		}
	}
	if def == nil {
		return nil
	}
	if s.cfg.Replays {
		for s.pos < len(s.cfg.Replay) && s.cfg.Replay[s.pos].Step < s.step {
			s.pos++
		}
		if s.pos < len(s.cfg.Replay) && s.cfg.Replay[s.pos].Step == s.step && s.cfg.Replay[s.pos].Forced {
			id := s.cfg.Replay[s.pos].To
			s.pos++
			if id >= 0 && id < s.n && s.tasks[id] != t && s.tasks[id].state == ready {
				return s.tasks[id]
			}
		}
		return def
	}
	switch s.cfg.Policy.Kind {
	case 0:
		return def
	case 2:
		best := def
		for i := 0; i < s.n; i++ {
			if x := s.tasks[i]; x != t && x.state == ready && x.prio > best.prio {
				best = x
			}
		}
		return best
	}
	k := int(rnd(&s.rng) % uint64(c))
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x != t && x.state == ready {
			if k == 0 {
				return x
			}
			k--
		}
	}
	return def
}

//go:norace
func (s *sched) switchTo(from, to *task) {
	cur = to
	raceDisable()
	to.wake <- struct{}{}
	<-from.wake
	raceEnable()
	if s.aborting {
		s.kill(from)
	}
}

//go:norace
func (s *sched) kill(t *task) {
	t.killed = true
	runtime.Goexit()
}

// abort ends the run: every task leaves through runtime.Goexit.
//
//go:norace
func (s *sched) abort(t *task) {
	s.aborting = true
	s.kill(t)
}

// nextOrStuck finds a successor for a task that cannot continue. It releases
// stalled tasks when nothing else can run.
//
//go:norace
func (s *sched) nextOrStuck(t *task) *task {
	if to := s.forced(t); to != nil {
		return to
	}
	anyBlocked, anyStalled := false, false
	for i := 0; i < s.n; i++ {
		switch s.tasks[i].state {
		case blocked:
			// goroutines that wait for work that never comes do no harm
			if !s.tasks[i].inSub && !s.tasks[i].daemon {
				anyBlocked = true
			}
		case stalled:
			anyStalled = true
		}
	}
	if anyStalled {
		if anyBlocked {
			s.res.StallBlocked = true
		}
		for i := 0; i < s.n; i++ {
			if s.tasks[i].state == stalled {
				s.tasks[i].state = ready
			}
		}
		if t.state == ready {
			return t
		}
		return s.forced(t)
	}
	if anyBlocked {
		s.res.Deadlock = true
	}
	return nil
}

// Block parks the running task until Wake is called by another one.
//
//go:norace
func Block() {
	t := cur
	if t == nil {
		runtime.Gosched()
		return
	}
	s := sch
	if s.aborting {
		s.kill(t)
	}
	s.res.BlockedEvents++
	s.step++
	t.state = blocked
	s.park(t)
}

// Stall parks the running task until no other task can make progress.
//
//go:norace
func Stall() {
	t := cur
	if t == nil {
		return
	}
	s := sch
	if s.aborting {
		return
	}
	s.res.Stalls++
	s.step++
	t.state = stalled
	s.park(t)
}

//go:norace
func (s *sched) park(t *task) {
	to := s.nextOrStuck(t)
	if to == nil {
		s.abort(t)
	}
	if to == t {
		return
	}
	s.record(to, true)
	s.digest = mix(s.digest ^ uint64(t.id)<<40 ^ uint64(to.id)<<32 ^ 1<<63)
	s.plan()
	s.switchTo(t, to)
}

// Wake makes every blocked task ready (they re-check what they wait for).
//
//go:norace
func Wake() {
	if cur == nil {
		return
	}
	s := sch
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state == blocked {
			s.tasks[i].state = ready
		}
	}
}

// Yield gives up the processor voluntarily (runtime.Gosched in the code).
//
//go:norace
func Yield() {
	t := cur
	if t == nil {
		return
	}
	s := sch
	if s.aborting {
		return
	}
	s.step++
	to := s.roundRobin(t)
	if to == t {
		return
	}
	s.record(to, true)
	s.plan()
	s.switchTo(t, to)
}

// Aborting tells shims that the run is being torn down.
//
//go:norace
func Aborting() bool { return cur != nil && sch.aborting }

// TaskID returns the running task, or -1.
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// TaskSteps returns the number of steps the running task has made.
//
//go:norace
func TaskSteps() int64 {
	if cur == nil {
		return 0
	}
	return cur.steps
}

// SetMapOrder selects how the running task iterates maps from here on; the
// order is a function of seed and the sequence of its iterations only.
//
//go:norace
func SetMapOrder(mode int, seed uint64) {
	if cur != nil {
		cur.mmode, cur.mrng, cur.iters = mode, seed, nil
	}
}

// mapOrder decides on the order of one iteration over a map, given a hash of
// its keys: it depends on nothing but them and how often the running task has
// iterated over the same keys.
//
//go:norace
func mapOrder(h uint64) (int, uint64) {
	if cur == nil {
		return 0, 0
	}
	sch.res.MapOrders++
	if cur.iters == nil {
		cur.iters = &iterTab{}
	}
	return cur.mmode, mix(cur.mrng ^ mix(h^mix(cur.iters.next(h))))
}

// iterTab counts by key; a map would be visible to the race detector.
type iterTab struct {
	tab []iterCount
	n   int
}

type iterCount struct{ h, n uint64 }

//go:norace
func (t *iterTab) next(h uint64) uint64 {
	h |= 1
	if 2*t.n >= len(t.tab) {
		old := t.tab
		t.tab = make([]iterCount, 2*len(old)+16)
		for _, c := range old {
			if c.h != 0 {
				*t.slot(c.h) = c
			}
		}
	}
	c := t.slot(h)
	if c.h == 0 {
		c.h = h
		t.n++
	}
	c.n++
	return c.n
}

//go:norace
func (t *iterTab) slot(h uint64) *iterCount {
	for i := h >> 20; ; i++ {
		if c := &t.tab[i%uint64(len(t.tab))]; c.h == 0 || c.h == h {
			return c
		}
	}
}

// PoolChoice is the simulator's decision on a Pool.Get with n idle objects:
// the index to hand out, or -1 to behave as if the pool had been emptied.
//
//go:norace
func PoolChoice(n int) int {
	if n == 0 {
		return -1
	}
	if cur == nil {
		return n - 1
	}
	r := rnd(&sch.rng)
	if int(r%100) < sch.cfg.PoolNew {
		sch.res.PoolDrops++
		return -1
	}
	if (r>>8)%4 != 0 {
		return n - 1
	}
	return int((r >> 16) % uint64(n))
}

// Sub runs f as a task of its own while the running task waits for it. It
// reports whether f returned (and did not end its goroutine).
//
//go:norace
func Sub(f func()) bool {
	t := cur
	if t == nil || sch.aborting {
		return false
	}
	s := sch
	var fin, ok bool
	ch := make(chan struct{}, 1)
	n := s.newTask()
	n.mmode, n.mrng, n.iters = t.mmode, t.mrng, t.iters
	n.sub = true
	n.parent = t
	n.plan = t.plan
	go s.main(n, func() {
		defer subEnd(&fin, ch)
		f()
		subOK(&ok)
	})
	for !fin {
		s.res.BlockedEvents--
		t.inSub = true
		Block()
		t.inSub = false
	}
	<-ch
	t.iters = n.iters
	return ok
}

//go:norace
func subEnd(fin *bool, ch chan struct{}) {
	*fin = true
	ch <- struct{}{}
	Wake()
}

//go:norace
func subOK(ok *bool) { *ok = true }

// SetPlan attaches a value to the running task; Plan reads it.
//
//go:norace
func SetPlan(p any) {
	if cur != nil {
		cur.plan = p
	}
}

//go:norace
func Plan() any {
	if cur == nil {
		return nil
	}
	return cur.plan
}

// Go starts a goroutine of the code under test as a new task.
//
//go:norace
func Go(f func()) {
	if cur == nil {
		go f()
		return
	}
	s := sch
	for i := 0; i < 3 && s.live > maxTasks/2; i++ {
		Stall() // the ones started so far come first
	}
	t := s.newTask()
	t.daemon = true
	// it does part of what its starter was asked to do
	t.plan, t.mmode, t.mrng = cur.plan, cur.mmode, cur.mrng
	go s.main(t, f)
}

//go:norace
func (s *sched) newTask() *task {
	// tasks that are over make room, except for those of the harness
	id := 0
	for id < s.n && !(s.tasks[id].state == done && (s.tasks[id].daemon || s.tasks[id].sub)) {
		id++
	}
	if id == maxTasks {
		panic("simrt: too many tasks")
	}
	t := &task{id: id, wake: make(chan struct{}, 1)}
	t.prio = int(rnd(&s.rng)%1000) + 1
	t.mmode = s.cfg.MapMode
	t.mrng = Mix(s.cfg.Seed, uint64(1000+s.made))
	s.tasks[id] = t
	s.made++
	if id == s.n {
		s.n++
	}
	s.live++
	return t
}

//go:norace
func (s *sched) main(t *task, f func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	defer s.finish(t)
	if s.aborting {
		t.killed = true
		return
	}
	f()
}

//go:norace
func (s *sched) finish(t *task) {
	t.state = done
	s.live--
	if t.killed {
		s.res.Unfinished++
	}
	var to *task
	if s.aborting {
		for i := 0; i < s.n; i++ {
			if s.tasks[i].state != done {
				to = s.tasks[i]
				break
			}
		}
	} else {
		s.step++
		to = s.nextOrStuck(t)
		if to == nil && s.live > 0 { // deadlock
			s.aborting = true
			for i := 0; i < s.n; i++ {
				if s.tasks[i].state != done {
					to = s.tasks[i]
					break
				}
			}
		}
		if to != nil {
			s.record(to, true)
			s.plan()
		}
	}
	if to == nil {
		cur = nil
		s.doneCh <- struct{}{} // orders the run before what the harness does next
		return
	}
	cur = to
	// the end of a task is ordered before the end of the run only
	finRelease(s)
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

var finAddr uint64

var swBuf [maxSwitches]Switch

// Run executes the tasks under the configured schedule and returns when all of
// them have ended.
//
//go:norace
func Run(cfg Config, fns ...func()) Result {
	s := &sched{cfg: cfg, rng: Mix(cfg.Seed, 77), doneCh: make(chan struct{}, 1), sw: &swBuf}
	s.budget = cfg.Budget
	if s.budget == 0 {
		s.budget = 5e6
	}
	epoch++
	resetChans()
	clocks = 0
	for _, f := range fns {
		t := s.newTask()
		go s.main(t, f)
	}
	sch = s
	first := s.tasks[0]
	if cfg.Replays {
		if len(cfg.Replay) > 0 && cfg.Replay[0].Step == 0 {
			first = s.pick(cfg.Replay[0].To, first)
			s.pos = 1
		}
	} else {
		switch cfg.Policy.Kind {
		case 0:
		case 2:
			first = s.highest(first)
		default:
			first = s.tasks[rnd(&s.rng)%uint64(s.n)]
		}
	}
	s.record(first, true)
	s.plan()
	cur = first
	raceDisable()
	first.wake <- struct{}{}
	raceEnable()
	<-s.doneCh
	finAcquire(s)
	cur = nil
	r := s.res
	r.Steps = s.step
	r.Switches = append([]Switch(nil), s.sw[:s.nsw]...)
	r.Preempts = s.preempts
	r.Digest = s.digest
	sch = nil
	ResetState()
	return r
}
