// Command simrun runs simulated executions of the sereal package and checks
// their properties.
package main

import (
	"bufio"
	"flag"
	"fmt"
	"os"
	"strings"

	"simverif/core"
	_ "simverif/scen"
)

func main() {
	var cfg core.Config
	worker := flag.Bool("worker", false, "run simulated executions (internal)")
	execFile := flag.String("exec", "", "execute one case (internal)")
	out := flag.String("out", "", "where to write the outcome (internal)")
	tries := flag.Int("tries", 1, "schedules to try (internal)")
	first := flag.Int("first", 0, "first run (internal)")
	stride := flag.Int("stride", 1, "distance of runs (internal)")
	replay := flag.String("replay", "", "replay file")
	dump := flag.Int("dump", -1, "print the case of a run")
	flag.StringVar(&cfg.Prop, "prop", "", "property")
	flag.Uint64Var(&cfg.Master, "seed", 1, "seed")
	flag.StringVar(&cfg.Tier, "tier", "quick", "quick or thorough")
	flag.Float64Var(&cfg.Secs, "secs", 20, "time for the search")
	flag.Float64Var(&cfg.ShrinkSecs, "shrink", 45, "time for minimisation")
	flag.IntVar(&cfg.Procs, "procs", 8, "worker processes")
	flag.IntVar(&cfg.MaxRuns, "max", 400, "runs per worker process")
	flag.IntVar(&cfg.MaxIndex, "runs", 0, "total number of runs (0: until the time is up)")
	flag.StringVar(&cfg.Dir, "dir", "", "scratch directory")
	flag.StringVar(&cfg.Evidence, "evidence", "", "evidence file")
	flag.StringVar(&cfg.Replays, "replays", "/tmp/replays", "directory for replay files")
	flag.StringVar(&cfg.Level, "level", "exploration", "level for the evidence file")
	flag.IntVar(&cfg.InstrLevel, "instr", 2, "level of instrumentation, for the evidence file")
	flag.StringVar(&cfg.SitesFile, "sites", "", "list of yield sites")
	flag.StringVar(&cfg.Alt, "alt", "", "this program, built without race detector")
	flag.StringVar(&cfg.Verif, "verif", "/verif", "where the framework lives")
	flag.Parse()

	die := func(err error) {
		if err != nil {
			fmt.Fprintln(os.Stderr, "simrun:", err)
			os.Exit(core.Trouble)
		}
	}
	if cfg.SitesFile != "" {
		if f, err := os.Open(cfg.SitesFile); err == nil {
			n := 0
			for sc := bufio.NewScanner(f); sc.Scan(); {
				if strings.TrimSpace(sc.Text()) != "" {
					n++
				}
			}
			f.Close()
			os.Setenv("SIM_SITES", fmt.Sprint(n))
		}
	}
	core.SitesFromEnv()
	switch {
	case *worker:
		core.LimitMemory()
		die(core.Worker(cfg.Prop, cfg.Master, *first, *stride, cfg.MaxRuns, cfg.Secs, cfg.Dir))
	case *execFile != "":
		core.LimitMemory()
		die(core.ExecFile(*execFile, *out, *tries))
	case *dump >= 0:
		core.DumpCase(core.Generate(cfg.Prop, cfg.Master, *dump))
	case *replay != "":
		dir, err := os.MkdirTemp("", "simreplay")
		die(err)
		r, o, same, err := core.ReplayFile(*replay, dir)
		os.RemoveAll(dir)
		die(err)
		fmt.Printf("recorded: %s: %s\n", r.Class, r.Detail)
		fmt.Printf("now:      %s: %s\n", o.Class, o.Detail)
		if o.Race != "" {
			fmt.Println(o.Race)
		}
		if o.Class == "" {
			fmt.Println("the replay file does not fail")
			os.Exit(core.Held)
		}
		fmt.Printf("identical execution: %v\n", same)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *replay)
		os.Exit(core.Broken)
	default:
		if cfg.Dir == "" {
			d, err := os.MkdirTemp("", "simrun")
			die(err)
			cfg.Dir = d
		} else {
			die(os.MkdirAll(cfg.Dir, 0o755))
		}
		rc := core.Check(cfg)
		os.RemoveAll(cfg.Dir)
		os.Exit(rc)
	}
}
