package simrt

import (
	"io"
	"sync"
	"sync/atomic"
	"time"
)

// Parts of the standard library that block or tell the time.

// After replaces time.After: time passes when nobody else can do anything, or
// while the others go on, as the seed decides.
func After(real func(time.Duration) <-chan time.Time, d time.Duration) <-chan time.Time {
	if cur == nil {
		return real(d)
	}
	ch := make(chan time.Time, 1)
	due(func() { tick(ch, d) })
	return ch
}

// clocks counts the timers that wait until nobody else can do anything.
var clocks int32

// elapsed is the time that has passed on the simulated clock; it goes on from
// run to run because what the code keeps may do so, too.
var elapsed int64

// TimeNow replaces time.Now. Most of the time little has happened since the
// last look at the clock, sometimes the program was idle, or suspended, for
// milliseconds to weeks.
//
//go:norace
func TimeNow(real func() time.Time) time.Time {
	if cur == nil {
		return real()
	}
	Yield()
	d := int64(1 + rnd(&sch.rng)%1000)
	if rnd(&sch.rng)%4 == 0 && elapsed < 1<<60 {
		d <<= rnd(&sch.rng) % 42
		if d > int64(time.Second) {
			Jumps++
		}
	}
	elapsed += d
	return time.Unix(1_700_000_000, 0).Add(time.Duration(elapsed))
}

// Jumps counts jumps of the clock.
var Jumps int

// TimeSince replaces time.Since.
func TimeSince(real func(time.Time) time.Duration, t time.Time) time.Duration {
	if cur == nil {
		return real(t)
	}
	return TimeNow(nil).Sub(t)
}

// TimeUntil replaces time.Until.
func TimeUntil(real func(time.Time) time.Duration, t time.Time) time.Duration {
	if cur == nil {
		return real(t)
	}
	return t.Sub(TimeNow(nil))
}

// due calls f when time has passed.
func due(f func()) {
	late := rnd(&sch.rng)%2 == 0 && atomic.LoadInt32(&clocks) < 8
	if late {
		atomic.AddInt32(&clocks, 1)
	}
	Go(func() {
		if late {
			defer atomic.AddInt32(&clocks, -1)
			Stall()
		} else {
			Yield()
		}
		if !Aborting() {
			f()
		}
	})
}

func tick(ch chan time.Time, d time.Duration) {
	select {
	case ch <- time.Unix(1700000000, 0).Add(d):
		Wake()
	default:
	}
}

const never = 1<<63 - 1

// A timer is a real one that never fires by itself. It fires in the simulation
// by being stopped, if nobody has stopped it before.

// AfterFunc replaces time.AfterFunc.
func AfterFunc(real func(time.Duration, func()) *time.Timer, d time.Duration, f func()) *time.Timer {
	if cur == nil {
		return real(d, f)
	}
	t := real(never, f)
	note(t, f)
	run(t, f)
	return t
}

// NewTimer replaces time.NewTimer.
func NewTimer(real func(time.Duration) *time.Timer, d time.Duration) *time.Timer {
	if cur == nil {
		return real(d)
	}
	t := real(never)
	ch := make(chan time.Time, 1)
	t.C = ch
	f := func() { tick(ch, d) }
	note(t, f)
	run(t, f)
	return t
}

func run(t *time.Timer, f func()) {
	due(func() {
		if t.Stop() {
			f()
		}
	})
}

// what timers do
var (
	timerMu sync.Mutex
	timers  = map[*time.Timer]func(){}
	recent  [64]*time.Timer // the ones in timers
	noted   int
)

func note(t *time.Timer, f func()) {
	timerMu.Lock()
	i := noted % len(recent)
	delete(timers, recent[i])
	recent[i] = t
	noted++
	timers[t] = f
	timerMu.Unlock()
}

// ResetTimer replaces (*time.Timer).Reset.
func ResetTimer(t *time.Timer, d time.Duration) bool {
	timerMu.Lock()
	f := timers[t]
	timerMu.Unlock()
	if cur == nil || f == nil {
		return t.Reset(d)
	}
	was := t.Reset(never)
	run(t, f)
	return was
}

// NewTicker replaces time.NewTicker; it ticks a few times.
func NewTicker(real func(time.Duration) *time.Ticker, d time.Duration) *time.Ticker {
	if cur == nil {
		return real(d)
	}
	t := real(never)
	t.C = ticks(d)
	return t
}

// Tick replaces time.Tick.
func Tick(real func(time.Duration) <-chan time.Time, d time.Duration) <-chan time.Time {
	if cur == nil {
		return real(d)
	}
	return ticks(d)
}

func ticks(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	for i := rnd(&sch.rng) % 4; i > 0; i-- {
		due(func() { tick(ch, d) })
	}
	return ch
}

// pipe stands in for the one of package io.
type pipe struct {
	wr   chan struct{} // held by the writer whose turn it is
	mu   sync.Mutex
	b    []byte
	full bool
	rerr error // set by the reader when it closes
	werr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

// Pipe replaces io.Pipe.
func Pipe(func() (*io.PipeReader, *io.PipeWriter)) (*PipeReader, *PipeWriter) {
	p := &pipe{wr: make(chan struct{}, 1)}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) step(f func() bool) {
	for !Aborting() {
		Y(chanSite)
		p.mu.Lock()
		done := f()
		p.mu.Unlock()
		if done {
			Wake()
			return
		}
		Block()
	}
}

func (r *PipeReader) Read(b []byte) (n int, err error) {
	p := r.p
	p.step(func() bool {
		switch {
		case p.rerr != nil:
			err = io.ErrClosedPipe
		case p.full:
			n = copy(b, p.b)
			if p.b = p.b[n:]; len(p.b) == 0 {
				p.full = false
			}
		case p.werr != nil:
			err = p.werr
		default:
			return false
		}
		return true
	})
	return
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.mu.Lock()
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.mu.Unlock()
	Wake()
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	mine := false
	p.step(func() bool { // one writer at a time
		if len(p.wr) == 0 {
			p.wr <- struct{}{}
			mine = true
		}
		return mine
	})
	put := false
	p.step(func() bool {
		if p.rerr != nil || p.werr != nil {
			if err = p.rerr; err == nil {
				err = io.ErrClosedPipe
			}
			if put {
				n = len(b) - len(p.b)
			}
			p.full = false
			return true
		}
		if !put {
			p.b, p.full, put = b, true, true
			Wake()
			return false
		}
		if !p.full {
			n = len(b)
			return true
		}
		return false
	})
	if mine {
		p.mu.Lock()
		<-p.wr
		p.mu.Unlock()
		Wake()
	}
	return
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.mu.Lock()
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.mu.Unlock()
	Wake()
	return nil
}
