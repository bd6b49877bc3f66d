package core

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"simverif/simrt"
)

// LimitMemory keeps a process of the simulator from taking the machine down
// when the code under test asks for too much. The race detector reserves more
// address space than a limit would allow.
func LimitMemory() {
	if simrt.RaceEnabled {
		return
	}
	lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

func childEnv() []string {
	env := []string{"GORACE=atexit_sleep_ms=0 exitcode=0 history_size=3", "GOMAXPROCS=2", "GOTRACEBACK=single"}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GOTRACEBACK=") && !strings.HasPrefix(e, "GOGC=") {
			env = append(env, e)
		}
	}
	return env
}

// tail keeps the first part of what is written to it.
type head struct {
	b   bytes.Buffer
	max int
}

func (h *head) Write(p []byte) (int, error) {
	if n := h.max - h.b.Len(); n > 0 {
		if len(p) < n {
			n = len(p)
		}
		h.b.Write(p[:n])
	}
	return len(p), nil
}

var tmpSeq atomic.Int64

// harnessTrouble is trouble of the machinery itself.
type harnessTrouble struct{ msg string }

func (h harnessTrouble) Error() string { return h.msg }

var crashLine = regexp.MustCompile(`(?m)^(panic:|fatal error:|runtime: out of memory|runtime: goroutine stack exceeds|SIG[A-Z]+:|unexpected fault).*$`)

// death classifies the end of a process that did not report by itself.
func death(stderr string, state *os.ProcessState) (Outcome, error) {
	if strings.Contains(stderr, "HarnessPanic") || strings.Contains(stderr, "simrt: ") {
		return Outcome{}, harnessTrouble{"harness panic:\n" + clip(stderr, 4000)}
	}
	line := crashLine.FindString(stderr)
	if ws, ok := state.Sys().(syscall.WaitStatus); ok && ws.Signaled() && line == "" {
		return Outcome{}, harnessTrouble{fmt.Sprintf("a process of the simulator was killed by signal %v", ws.Signal())}
	}
	if line == "" || !strings.Contains(stderr, "/Go/sereal/") {
		if strings.Contains(line, "out of memory") || strings.Contains(line, "cannot allocate") {
			return Outcome{Class: "crash", Detail: "the process ran out of memory (8 GB): " + line + "\n" + clip(stderr, 2500)}, nil
		}
		return Outcome{}, harnessTrouble{fmt.Sprintf("a process of the simulator ended (%v):\n%s", state, clip(stderr, 4000))}
	}
	return Outcome{Class: "crash", Detail: "the process died: " + line + "\n" + clip(stderr, 2500)}, nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// runCase executes a case in a fresh process.
func runCase(c *Case, tries int, timeout time.Duration, dir string) (Outcome, error) {
	n := tmpSeq.Add(1)
	in := filepath.Join(dir, fmt.Sprintf("case%d.json", n))
	out := filepath.Join(dir, fmt.Sprintf("out%d.json", n))
	defer os.Remove(in)
	defer os.Remove(out)
	if err := writeJSON(in, c); err != nil {
		return Outcome{}, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-exec", in, "-out", out, "-tries", strconv.Itoa(tries))
	cmd.Env = childEnv()
	h := &head{max: 64 << 10}
	cmd.Stderr = h
	err := cmd.Run()
	if ctx.Err() != nil {
		return Outcome{}, harnessTrouble{"a simulated run did not end within its time limit"}
	}
	if err != nil {
		if cmd.ProcessState == nil {
			return Outcome{}, err
		}
		return death(h.b.String(), cmd.ProcessState)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return Outcome{}, err
	}
	var o Outcome
	if err := json.Unmarshal(b, &o); err != nil {
		return Outcome{}, err
	}
	if o.Class == "race" {
		o.Race = raceReport(h.b.String())
		if !RelevantRace(o.Race) {
			return Outcome{}, harnessTrouble{"data race outside the code under test:\n" + clip(o.Race, 6000)}
		}
		o.Detail = "data race"
		if l := raceLines(o.Race); l != "" {
			o.Detail += ": " + l
		}
	}
	return o, nil
}

func raceReport(stderr string) string {
	const sep = "=================="
	i := strings.Index(stderr, sep)
	if i < 0 {
		return ""
	}
	rest := stderr[i+len(sep):]
	if j := strings.Index(rest, sep); j >= 0 {
		rest = rest[:j]
	}
	return strings.TrimSpace(rest)
}

var accessRe = regexp.MustCompile(`(?m)^(Write|Read|Previous write|Previous read|Atomic write|Previous atomic write|Atomic read|Previous atomic read) at .*\n\s+(\S+)\(`)

func raceLines(report string) string {
	var out []string
	for _, m := range accessRe.FindAllStringSubmatch(report, 2) {
		fn := m[2]
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		out = append(out, strings.ToLower(m[1])+" in "+fn)
	}
	return strings.Join(out, ", ")
}
