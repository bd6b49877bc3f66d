package core

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"

	"simverif/model"
	"simverif/simrt"
)

// shrinker minimises a failing case in fresh processes.
type shrinker struct {
	dir      string
	class    string
	deadline time.Time
	procs    int
	best     *Case
	out      Outcome
	execs    int
	stopped  bool
}

func clone(c *Case) *Case {
	b, _ := json.Marshal(c)
	var d Case
	json.Unmarshal(b, &d)
	return &d
}

// try executes candidates in parallel and adopts the first that still fails
// the same way.
func (s *shrinker) try(cands []*Case, tries int) bool {
	for len(cands) > 0 && !s.over() {
		n := len(cands)
		if n > s.procs {
			n = s.procs
		}
		outs := make([]Outcome, n)
		errs := make([]error, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i], errs[i] = runCase(cands[i], tries, 30*time.Second, s.dir)
			}()
		}
		wg.Wait()
		s.execs += n
		for i := 0; i < n; i++ {
			if errs[i] != nil || outs[i].Class != s.class {
				continue
			}
			c := cands[i]
			if outs[i].SchedSeed != 0 && outs[i].SchedSeed != c.Sched.Seed {
				// found with another schedule: it must fail on its own, too
				c = clone(c)
				c.Sched.Seed = outs[i].SchedSeed
				o, err := runCase(c, 1, 30*time.Second, s.dir)
				s.execs++
				if err != nil || o.Class != s.class {
					continue
				}
				outs[i] = o
			}
			s.best, s.out = c, outs[i]
			return true
		}
		cands = cands[n:]
	}
	return false
}

func (s *shrinker) over() bool { return time.Now().After(s.deadline) }

// list minimises a list of n elements: without(from, to) makes the case that
// lacks these elements.
func (s *shrinker) list(size func(*Case) int, without func(c *Case, from, to int) *Case, tries int) bool {
	any := false
	chunk := (size(s.best) + 1) / 2
	for chunk > 0 && !s.over() {
		n := size(s.best)
		if n == 0 {
			break
		}
		if chunk > n {
			chunk = n
		}
		var cands []*Case
		for from := 0; from < n; from += chunk {
			to := from + chunk
			if to > n {
				to = n
			}
			if c := without(clone(s.best), from, to); c != nil {
				cands = append(cands, c)
			}
		}
		if s.try(cands, tries) {
			any = true
			continue
		}
		chunk /= 2
	}
	return any
}

func (s *shrinker) run() {
	tries := 1
	if s.best.Sched.Policy.Kind != 0 {
		tries = 12
	}
	s.list(func(c *Case) int { return len(c.Prelude) }, func(c *Case, a, b int) *Case {
		c.Prelude = append(c.Prelude[:a:a], c.Prelude[b:]...)
		return c
	}, 1)
	for s.best.Warm > 0 && !s.over() {
		var cands []*Case
		for _, w := range []int{0, s.best.Warm / 2, s.best.Warm * 7 / 8, s.best.Warm - 1} {
			c := clone(s.best)
			c.Warm = w
			cands = append(cands, c)
		}
		if !s.try(cands, tries) {
			break
		}
	}
	for round := 0; round < 3 && !s.over(); round++ {
		any := s.list(func(c *Case) int { return len(c.Ops) }, func(c *Case, a, b int) *Case {
			c.Ops = append(c.Ops[:a:a], c.Ops[b:]...)
			return c
		}, tries)
		if s.faults(tries) {
			any = true
		}
		if s.sizes(tries) {
			any = true
		}
		if !any {
			break
		}
	}
	s.schedule()
}

func (s *shrinker) faults(tries int) bool {
	any := false
	for i := 0; i < len(s.best.Ops) && !s.over(); i++ {
		i := i
		if i >= len(s.best.Ops) {
			break
		}
		if len(s.best.Ops[i].F) > 0 {
			if s.list(func(c *Case) int { return len(c.Ops[i].F) }, func(c *Case, a, b int) *Case {
				c.Ops[i].F = append(c.Ops[i].F[:a:a], c.Ops[i].F[b:]...)
				return c
			}, tries) {
				any = true
			}
		}
		if len(s.best.Ops[i].CB) > 0 {
			if s.list(func(c *Case) int { return len(c.Ops[i].CB) }, func(c *Case, a, b int) *Case {
				c.Ops[i].CB = append(c.Ops[i].CB[:a:a], c.Ops[i].CB[b:]...)
				return c
			}, tries) {
				any = true
			}
		}
	}
	return any
}

func (s *shrinker) sizes(tries int) bool {
	any := false
	for i := 0; i < len(s.best.Ops); i++ {
		for s.best.Ops[i].N > 1 && !s.over() {
			var cands []*Case
			n := s.best.Ops[i].N
			for _, m := range []int{1, n / 4, n / 2, n * 3 / 4, n - 1} {
				if m >= 1 && m < n {
					c := clone(s.best)
					c.Ops[i].N = m
					cands = append(cands, c)
				}
			}
			if !s.try(cands, tries) {
				break
			}
			any = true
		}
		// the same size with other contents may do with less
		_ = model.NewR
	}
	return any
}

// schedule makes the schedule explicit and drops the switches that do not
// matter.
func (s *shrinker) schedule() {
	c := clone(s.best)
	c.Sched.Policy = simrt.Policy{}
	c.Sched.MapMode, c.Sched.PoolNew, c.Sched.GC = 0, 0, 0
	if s.try([]*Case{c}, 1) {
		return
	}
	for _, f := range []func(*Sched){func(x *Sched) { x.GC = 0 }, func(x *Sched) { x.PoolNew = 0 }, func(x *Sched) { x.MapMode = 0 }} {
		c := clone(s.best)
		f(&c.Sched)
		s.try([]*Case{c}, 1)
	}
	if len(s.out.Switches) == 0 || len(s.out.Switches) > 3000 {
		return
	}
	c = clone(s.best)
	c.Sched.Replays = true
	c.Sched.Switches = s.out.Switches
	if !s.try([]*Case{c}, 1) {
		return
	}
	s.list(func(c *Case) int { return len(c.Sched.Switches) }, func(c *Case, a, b int) *Case {
		c.Sched.Switches = append(c.Sched.Switches[:a:a], c.Sched.Switches[b:]...)
		return c
	}, 1)
}

// Replay is a replay file.
type Replay struct {
	Property string  `json:"property"`
	Class    string  `json:"violation"`
	Detail   string  `json:"detail"`
	Race     string  `json:"race,omitempty"`
	Seed     uint64  `json:"verif_seed"`
	Run      int     `json:"run"`
	Exact    bool    `json:"reproduces_exactly"`
	Note     string  `json:"note,omitempty"`
	HowTo    string  `json:"how_to_replay"`
	Hash     uint64  `json:"hash"`
	SchedH   uint64  `json:"sched_hash"`
	Steps    int64   `json:"steps"`
	Case     *Case   `json:"case"`
	Found    *Case   `json:"case_as_found,omitempty"`
	Execs    int     `json:"minimisation_executions"`
	Took     float64 `json:"minimisation_s"`
}

// ReplayFile executes the case of a replay file in a fresh process and reports
// whether it fails as recorded.
func ReplayFile(path, dir string) (*Replay, Outcome, bool, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, Outcome{}, false, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, Outcome{}, false, err
	}
	if r.Case == nil {
		return nil, Outcome{}, false, fmt.Errorf("%s: no case", path)
	}
	o, err := runCase(r.Case, 1, 120*time.Second, dir)
	if err != nil {
		return &r, o, false, err
	}
	return &r, o, o.Class == r.Class && (o.Class == "crash" || o.Hash == r.Hash && o.SchedHash == r.SchedH && o.Steps == r.Steps), nil
}
