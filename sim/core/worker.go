package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"time"

	"simverif/simrt"
)

// Stats of a worker.
type Stats struct {
	Runs       int            `json:"runs"`
	SimRuns    int            `json:"sim_runs"`
	Nontrivial int            `json:"nontrivial"`
	Skips      int            `json:"skips"`
	Steps      int64          `json:"steps"`
	Preempts   int            `json:"preempts"`
	Faults     map[string]int `json:"faults"`
	Scens      map[string]int `json:"scens"`
	Samples    []Sample       `json:"samples"`
	Hashes     []RunHash      `json:"hashes"`
	SitesHit   []uint32       `json:"sites_hit"`
	Known      map[string]int `json:"known,omitempty"`
	Wall       float64        `json:"wall"`
}

// RunHash is the fingerprint of one run, for the determinism check.
type RunHash struct {
	Run   int    `json:"run"`
	Hash  uint64 `json:"hash"`
	Sched uint64 `json:"sched"`
	Steps int64  `json:"steps"`
}

// Sample is an actual case of the run.
type Sample struct {
	Case    *Case   `json:"case"`
	Outcome Outcome `json:"outcome"`
}

// Found is what a worker leaves behind when it finds a violation.
type Found struct {
	Case    *Case   `json:"case"`
	Outcome Outcome `json:"outcome"`
	Before  []int   `json:"before"` // runs the process had made before
}

func writeJSON(path string, v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

// Worker executes runs first, first+stride, ... until the time is up.
func Worker(prop string, master uint64, first, stride, max int, secs float64, dir string) error {
	debug.SetMaxStack(512 << 20)
	start := time.Now()
	st := Stats{Faults: map[string]int{}, Scens: map[string]int{}}
	status, err := os.OpenFile(filepath.Join(dir, "status"), os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		return err
	}
	distinct := map[uint64]struct{}{}
	scheds := map[uint64]struct{}{}
	var before []int
	var buf [8]byte
	for run := first; ; run += stride {
		if st.Runs >= max || time.Since(start).Seconds() > secs {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(run)+1)
		status.WriteAt(buf[:], 0)
		c := Generate(prop, master, run)
		out := Execute(c)
		st.Runs++
		st.SimRuns += out.Runs
		st.Steps += out.Steps
		st.Preempts += out.Preempts
		st.Scens[c.Scen]++
		for k, v := range out.Faults {
			st.Faults[k] += v
		}
		if out.Skip {
			st.Skips++
		}
		if out.Class != "" {
			return writeJSON(filepath.Join(dir, "found.json"), Found{c, out, before})
		}
		before = append(before, run)
		if out.Nontrivial {
			st.Nontrivial++
			distinct[simrt.Mix(out.Hash, out.SchedHash)] = struct{}{}
			if len(st.Samples) < 2 && st.Runs%7 == 3 {
				out.Switches = nil
				st.Samples = append(st.Samples, Sample{c, out})
			}
		}
		if out.Preempts > 0 {
			scheds[out.SchedHash] = struct{}{}
		}
		if len(st.Hashes) < 6 && st.Runs%11 == 2 {
			st.Hashes = append(st.Hashes, RunHash{run, out.Hash, out.SchedHash, out.Steps})
		}
	}
	st.Wall = time.Since(start).Seconds()
	st.SitesHit = append([]uint32(nil), simrt.SiteHits[:]...)
	if err := writeHashes(filepath.Join(dir, "distinct"), distinct); err != nil {
		return err
	}
	if err := writeHashes(filepath.Join(dir, "scheds"), scheds); err != nil {
		return err
	}
	return writeJSON(filepath.Join(dir, "stats.json"), st)
}

func writeHashes(path string, m map[uint64]struct{}) error {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	return os.WriteFile(path, b, 0o644)
}

// ExecFile executes the case in a file (after its prelude) and writes the
// outcome next to it.
func ExecFile(path, outPath string, tries int) error {
	debug.SetMaxStack(512 << 20)
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		return err
	}
	if len(Props[c.Prop]) == 0 {
		return fmt.Errorf("no scenarios for property %q", c.Prop)
	}
	for _, run := range c.Prelude {
		Execute(Generate(c.Prop, c.Master, run))
	}
	var out Outcome
	for i := 0; ; i++ {
		out = Execute(&c)
		out.SchedSeed = c.Sched.Seed
		if out.Class != "" || i+1 >= tries || c.Sched.Replays {
			break
		}
		c.Sched.Seed = simrt.Mix(c.Sched.Seed, 3)
	}
	return writeJSON(outPath, out)
}
