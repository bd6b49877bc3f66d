package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"simverif/simrt"
)

// Config of a check.
type Config struct {
	Prop       string
	Master     uint64
	Tier       string
	Secs       float64 // search
	ShrinkSecs float64
	Procs      int
	MaxRuns    int // per process
	Dir        string
	Evidence   string
	Replays    string
	Known      string
	Level      string
	InstrLevel int
	SitesFile  string
	Verif      string
	MaxIndex   int    // total runs, 0: until the time is up
	Alt        string // the same program without race detector, it is faster
}

// Exit statuses of a check.
const (
	Held    = 0
	Broken  = 1
	Trouble = 2
)

type procState struct {
	cmd   *exec.Cmd
	errs  *head
	dir   string
	first int
}

type search struct {
	cfg      Config
	mu       sync.Mutex
	stats    Stats
	distinct map[uint64]struct{}
	scheds   map[uint64]struct{}
	hashes   []RunHash
	samples  []Sample
	sites    []uint32
	scens    map[string]int
	found    []Found
	trouble  error
	stop     bool
	procsRun int
	unrepro  []Found
	known    map[string]int
}

// Check searches for a violation of a property and returns the exit status.
func Check(cfg Config) int {
	start := time.Now()
	if len(Props[cfg.Prop]) == 0 {
		fmt.Fprintf(os.Stderr, "no scenarios for property %s\n", cfg.Prop)
		return Trouble
	}
	s := &search{cfg: cfg, distinct: map[uint64]struct{}{}, scheds: map[uint64]struct{}{}, scens: map[string]int{}, known: map[string]int{}}
	s.stats.Faults = map[string]int{}
	fmt.Printf("property %s: VERIF_SEED=%d tier=%s race=%v processes=%d search=%.0fs\n", cfg.Prop, cfg.Master, cfg.Tier, simrt.RaceEnabled, cfg.Procs, cfg.Secs)
	deadline := start.Add(time.Duration(cfg.Secs * float64(time.Second)))
	var confirmed *Found
	var confOut Outcome
	next := make([]int, cfg.Procs)
	for i := range next {
		next[i] = i
	}
	for round := 0; ; round++ {
		left := time.Until(deadline).Seconds()
		if left < 0.5 && round > 0 || s.trouble != nil {
			break
		}
		s.searchUntil(deadline, next)
		if s.trouble != nil || len(s.found) == 0 {
			break
		}
		found := s.found
		s.found = nil
		s.stop = false
		sort.Slice(found, func(i, j int) bool { return found[i].Case.Run < found[j].Case.Run })
		for i := range found {
			f := &found[i]
			fmt.Printf("run %d (scenario %s): %s: %s\n", f.Case.Run, f.Case.Scen, f.Outcome.Class, clip(f.Outcome.Detail, 600))
			c, o, err := s.confirm(f)
			if err != nil {
				s.trouble = err
				break
			}
			if c != nil {
				confirmed = &Found{Case: c, Outcome: o}
				confOut = o
				break
			}
			fmt.Printf("run %d did not fail again\n", f.Case.Run)
			s.unrepro = append(s.unrepro, *f)
		}
		if confirmed != nil || s.trouble != nil {
			break
		}
		if len(s.unrepro) >= 3 {
			break
		}
	}
	searchWall := time.Since(start).Seconds()
	if s.trouble == nil && confirmed == nil && len(s.unrepro) >= 2 {
		// the code under test has nondeterminism outside the simulator's
		// control; what was seen was real all the same
		confirmed = &s.unrepro[0]
		confOut = confirmed.Outcome
		path := filepath.Join(cfg.Replays, fmt.Sprintf("%s-seed%d-run%d.json", cfg.Prop, cfg.Master, confirmed.Case.Run))
		os.MkdirAll(cfg.Replays, 0o755)
		writeJSONIndent(path, Replay{Property: cfg.Prop, Class: confOut.Class, Detail: confOut.Detail, Seed: cfg.Master, Run: confirmed.Case.Run,
			Note: "seen in several independent runs, but not repeatable in a fresh process", Case: confirmed.Case, HowTo: howTo(cfg, path)})
		s.evidence(searchWall, 1)
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, path)
		return Broken
	}
	if s.trouble != nil {
		fmt.Fprintf(os.Stderr, "trouble: %v\n", s.trouble)
		return Trouble
	}
	if confirmed == nil && len(s.unrepro) > 0 {
		fmt.Fprintf(os.Stderr, "trouble: run %d failed once and never again\n", s.unrepro[0].Case.Run)
		return Trouble
	}
	if confirmed != nil {
		path := s.minimise(confirmed, confOut)
		s.evidence(searchWall, 1)
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, path)
		return Broken
	}
	det, err := s.determinism()
	if err != nil {
		fmt.Fprintf(os.Stderr, "trouble: %v\n", err)
		return Trouble
	}
	s.stats.Wall = searchWall
	s.evidenceDet(searchWall, 0, det)
	fmt.Printf("property %s held: %d runs (%d simulated executions, %d steps, %d preemptions), %d distinct non-trivial\n",
		cfg.Prop, s.stats.Runs, s.stats.SimRuns, s.stats.Steps, s.stats.Preempts, len(s.distinct))
	return Held
}

func raceNote(cfg Config) interface{} {
	if simrt.RaceEnabled && cfg.Alt != "" {
		return fmt.Sprintf("in %d of %d processes", cfg.Procs-(cfg.Procs/8*3+min(3, cfg.Procs%8)), cfg.Procs)
	}
	return simrt.RaceEnabled
}

func howTo(cfg Config, path string) string {
	return fmt.Sprintf("cd %s && bin/check.sh %s --replay %s", cfg.Verif, cfg.Prop, path)
}

// searchUntil runs worker processes until time is up or one finds something.
func (s *search) searchUntil(deadline time.Time, next []int) {
	var wg sync.WaitGroup
	for i := 0; i < s.cfg.Procs; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				left := time.Until(deadline).Seconds()
				s.mu.Lock()
				stop := s.stop || s.trouble != nil
				s.mu.Unlock()
				if stop || left < 0.3 || s.cfg.MaxIndex > 0 && next[i] >= s.cfg.MaxIndex {
					return
				}
				next[i] = s.worker(i, next[i], left)
			}
		}()
	}
	wg.Wait()
}

func (s *search) fail(err error) {
	s.mu.Lock()
	if s.trouble == nil {
		s.trouble = err
	}
	s.mu.Unlock()
}

// worker runs one worker process and returns where its successor goes on.
func (s *search) worker(i, first int, secs float64) int {
	s.mu.Lock()
	s.procsRun++
	dir := filepath.Join(s.cfg.Dir, fmt.Sprintf("w%d_%d", i, s.procsRun))
	s.mu.Unlock()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		s.fail(err)
		return first
	}
	defer os.RemoveAll(dir)
	max := s.cfg.MaxRuns
	if s.cfg.MaxIndex > 0 {
		if n := (s.cfg.MaxIndex - first + s.cfg.Procs - 1) / s.cfg.Procs; n < max {
			max = n
		}
	}
	prog := os.Args[0]
	if s.cfg.Alt != "" && i%8 < 3 {
		prog = s.cfg.Alt
	}
	cmd := exec.Command(prog, "-worker", "-prop", s.cfg.Prop, "-seed", strconv.FormatUint(s.cfg.Master, 10), "-first", strconv.Itoa(first),
		"-stride", strconv.Itoa(s.cfg.Procs), "-max", strconv.Itoa(max), "-secs", fmt.Sprint(secs), "-dir", dir, "-sites", s.cfg.SitesFile)
	cmd.Env = childEnv()
	h := &head{max: 256 << 10}
	cmd.Stderr = h
	if err := cmd.Start(); err != nil {
		s.fail(err)
		return first
	}
	doneCh := make(chan error, 1)
	go func() { doneCh <- cmd.Wait() }()
	var err error
	lastRun, lastChange := uint64(0), time.Now()
	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	status := func() uint64 {
		b, e := os.ReadFile(filepath.Join(dir, "status"))
		if e != nil || len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(b)
	}
loop:
	for {
		select {
		case err = <-doneCh:
			break loop
		case <-tick.C:
			s.mu.Lock()
			stop := s.stop || s.trouble != nil
			s.mu.Unlock()
			if stop {
				cmd.Process.Kill()
				<-doneCh
				return first
			}
			if r := status(); r != lastRun {
				lastRun, lastChange = r, time.Now()
			} else if time.Since(lastChange) > 100*time.Second {
				cmd.Process.Kill()
				<-doneCh
				s.fail(harnessTrouble{fmt.Sprintf("run %d did not end within 100 s", int64(lastRun)-1)})
				return first
			}
		}
	}
	if err != nil {
		run := int(status()) - 1
		out, derr := death(h.b.String(), cmd.ProcessState)
		if derr != nil || run < 0 {
			if derr == nil {
				derr = harnessTrouble{out.Detail}
			}
			s.fail(derr)
			return first
		}
		var before []int
		for r := first; r < run; r += s.cfg.Procs {
			before = append(before, r)
		}
		s.mu.Lock()
		s.found = append(s.found, Found{Case: Generate(s.cfg.Prop, s.cfg.Master, run), Outcome: out, Before: before})
		s.stop = true
		s.mu.Unlock()
		return run + s.cfg.Procs
	}
	if b, e := os.ReadFile(filepath.Join(dir, "found.json")); e == nil {
		var f Found
		if e := json.Unmarshal(b, &f); e != nil {
			s.fail(e)
			return first
		}
		s.mu.Lock()
		s.found = append(s.found, f)
		s.stop = true
		s.mu.Unlock()
		return f.Case.Run + s.cfg.Procs
	}
	var st Stats
	b, e := os.ReadFile(filepath.Join(dir, "stats.json"))
	if e == nil {
		e = json.Unmarshal(b, &st)
	}
	if e != nil {
		s.fail(e)
		return first
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.stats.Runs += st.Runs
	s.stats.SimRuns += st.SimRuns
	s.stats.Nontrivial += st.Nontrivial
	s.stats.Skips += st.Skips
	s.stats.Steps += st.Steps
	s.stats.Preempts += st.Preempts
	for k, v := range st.Faults {
		s.stats.Faults[k] += v
	}
	for k, v := range st.Scens {
		s.scens[k] += v
	}
	for k, v := range st.Known {
		s.known[k] += v
	}
	readHashes(filepath.Join(dir, "distinct"), s.distinct)
	readHashes(filepath.Join(dir, "scheds"), s.scheds)
	if len(s.samples) < 4 {
		s.samples = append(s.samples, st.Samples...)
	}
	s.hashes = append(s.hashes, st.Hashes...)
	if s.sites == nil {
		s.sites = make([]uint32, len(st.SitesHit))
	}
	for i, n := range st.SitesHit {
		if s.sites[i] < 1<<30 {
			s.sites[i] += n & (1<<20 - 1)
			if n > 0 && s.sites[i] == 0 {
				s.sites[i] = 1
			}
		}
	}
	return first + st.Runs*s.cfg.Procs
}

func readHashes(path string, m map[uint64]struct{}) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for len(b) >= 8 {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
		b = b[8:]
	}
}

// confirm makes the violation happen again in a fresh process.
func (s *search) confirm(f *Found) (*Case, Outcome, error) {
	want := func(o Outcome) bool { return o.Class != "" }
	n := 2
	if f.Outcome.Class == "race" {
		n = 4
	}
	for i := 0; i < n; i++ {
		o, err := runCase(f.Case, 1, 120*time.Second, s.cfg.Dir)
		if err != nil {
			return nil, o, err
		}
		if want(o) {
			return f.Case, o, nil
		}
	}
	if len(f.Before) > 0 {
		c := clone(f.Case)
		c.Prelude = f.Before
		for i := 0; i < n; i++ {
			o, err := runCase(c, 1, 240*time.Second, s.cfg.Dir)
			if err != nil {
				return nil, o, err
			}
			if want(o) {
				return c, o, nil
			}
		}
	}
	return nil, Outcome{}, nil
}

func (s *search) minimise(f *Found, out Outcome) string {
	start := time.Now()
	sh := &shrinker{dir: s.cfg.Dir, class: out.Class, procs: s.cfg.Procs, best: f.Case, out: out,
		deadline: start.Add(time.Duration(s.cfg.ShrinkSecs * float64(time.Second)))}
	sh.run()
	path := filepath.Join(s.cfg.Replays, fmt.Sprintf("%s-seed%d-run%d.json", s.cfg.Prop, s.cfg.Master, f.Case.Run))
	os.MkdirAll(s.cfg.Replays, 0o755)
	best, o := sh.best, sh.out
	// the file must reproduce exactly
	exact := false
	for i := 0; i < 3 && !exact; i++ {
		a, err := runCase(best, 1, 240*time.Second, s.cfg.Dir)
		if err == nil && a.Class == o.Class {
			exact = a.Class == "crash" || a.Hash == o.Hash && a.SchedHash == o.SchedHash && a.Steps == o.Steps
			o = a
		}
	}
	fmt.Printf("minimised to %d operations, %d switches in %.1fs (%d executions), replays exactly: %v\n", len(best.Ops), len(best.Sched.Switches), time.Since(start).Seconds(), sh.execs, exact)
	fmt.Printf("%s: %s\n", o.Class, clip(o.Detail, 1500))
	writeJSONIndent(path, Replay{Property: s.cfg.Prop, Class: o.Class, Detail: o.Detail, Race: o.Race, Seed: s.cfg.Master, Run: f.Case.Run, Exact: exact,
		HowTo: howTo(s.cfg, path), Hash: o.Hash, SchedH: o.SchedHash, Steps: o.Steps, Case: best, Found: f.Case, Execs: sh.execs, Took: time.Since(start).Seconds()})
	return path
}

// determinism executes runs of the search once more, in other processes, and
// compares the fingerprints.
func (s *search) determinism() (map[string]interface{}, error) {
	h := s.hashes
	sort.Slice(h, func(i, j int) bool { return simrt.Mix(uint64(h[i].Run), 5) < simrt.Mix(uint64(h[j].Run), 5) })
	max := 24
	if s.cfg.Tier == "thorough" {
		max = 96
	}
	if len(h) > max {
		h = h[:max]
	}
	var bad []int
	var mu sync.Mutex
	var wg sync.WaitGroup
	var firstErr error
	sem := make(chan bool, s.cfg.Procs)
	for _, x := range h {
		x := x
		c := Generate(s.cfg.Prop, s.cfg.Master, x.Run)
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o, err := runCase(c, 1, 120*time.Second, s.cfg.Dir)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				firstErr = err
			} else if o.Hash != x.Hash || o.SchedHash != x.Sched || o.Steps != x.Steps {
				bad = append(bad, x.Run)
			}
		}()
	}
	wg.Wait()
	res := map[string]interface{}{"runs_repeated_in_fresh_processes": len(h), "diverged": len(bad)}
	if firstErr != nil {
		return res, firstErr
	}
	if len(bad) > 0 {
		sort.Ints(bad)
		res["diverged_runs"] = bad
		fmt.Printf("note: runs %v took another course when repeated in a fresh process\n", bad)
	}
	return res, nil
}

func writeJSONIndent(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

func (s *search) evidence(wall float64, violations int) { s.evidenceDet(wall, violations, nil) }

func (s *search) evidenceDet(wall float64, violations int, det map[string]interface{}) {
	hit, total := 0, 0
	var missed []string
	if b, err := os.ReadFile(s.cfg.SitesFile); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			id, where, ok := strings.Cut(l, " ")
			if !ok {
				continue
			}
			total++
			n, _ := strconv.Atoi(id)
			if n < len(s.sites) && s.sites[n] > 0 {
				hit++
			} else {
				missed = append(missed, where)
			}
		}
	}
	if len(missed) > 60 {
		missed = append(missed[:60:60], "...")
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(s.stats.Runs) / wall * 3600
	}
	samples := []interface{}{}
	for _, x := range s.samples {
		samples = append(samples, x)
	}
	if len(samples) == 0 {
		for i := 0; i < 2; i++ {
			samples = append(samples, Sample{Case: Generate(s.cfg.Prop, s.cfg.Master, i)})
		}
	}
	cov := map[string]interface{}{
		"evaluations":                    s.stats.Runs,
		"distinct_nontrivial":            len(s.distinct),
		"rule":                           Rules[s.cfg.Prop],
		"samples":                        samples,
		"simulated_executions":           s.stats.SimRuns,
		"simulated_executions_per_hour":  int(float64(s.stats.SimRuns) / wall * 3600),
		"seeds":                          s.stats.Runs,
		"seeds_per_hour":                 int(perHour),
		"simulated_time_steps":           s.stats.Steps,
		"simulated_time_note":            "the code under test has no clock or timer; simulated time is counted in scheduler steps (statements of the code under test and simulator events)",
		"faults_injected":                s.stats.Faults,
		"preemptions":                    s.stats.Preempts,
		"distinct_interleavings":         len(s.scheds),
		"distinct_interleavings_measure": "64-bit hashes of the sequence of (from task, to task, site) of all context switches of a run with at least one preemption",
		"runs_per_scenario":              s.scens,
		"skipped_runs":                   s.stats.Skips,
		"yield_sites_reached":            hit,
		"yield_sites":                    total,
		"yield_sites_not_reached":        missed,
		"worker_processes":               s.procsRun,
		"race_detector":                  raceNote(s.cfg),
		"instrumentation_level":          s.cfg.InstrLevel,
		"real_components":                []string{"all of /repo/Go/sereal (built from the working tree, yield points added through an overlay)", "compress/zlib, github.com/golang/snappy, github.com/DataDog/zstd (real, not instrumented: atomic to the scheduler)", "reflect, runtime, garbage collector"},
		"stubbed_components":             []string{"sync, sync/atomic (simulated, with real primitives inside for happens-before)", "map iteration order", "sync.Pool contents", "goroutine scheduling", "user callbacks (MarshalBinary, UnmarshalBinary)", "storage and transmission of documents"},
	}
	if det != nil {
		cov["determinism_recheck"] = det
	}
	if len(s.known) > 0 {
		cov["known_findings_seen"] = s.known
	}
	ev := map[string]interface{}{
		"property": s.cfg.Prop, "tier": s.cfg.Tier, "seed": s.cfg.Master, "level": s.cfg.Level,
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"code of the standard library and of the compression libraries is correct and runs atomically between two yield points",
			"interleavings finer than one Go statement are only covered by the race detector",
			"a clean search is evidence, not proof",
		},
	}
	if s.cfg.Evidence != "" {
		os.MkdirAll(filepath.Dir(s.cfg.Evidence), 0o755)
		writeJSONIndent(s.cfg.Evidence, ev)
	}
}
