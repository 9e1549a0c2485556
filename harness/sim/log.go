// Package sim is the controllable world the real arpc code is run in: an event log,
// an in-memory network whose every read, write, close and dial is under the scenario's
// control, and seeded virtual delays at the seams arpc's public API offers.
package sim

import (
	"math/rand"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// Ev is one observable event.
type Ev map[string]any

// World is one run.
type World struct {
	mu     sync.Mutex
	t0     time.Time
	events []Ev
	closed bool

	rmu    sync.Mutex
	rng    *rand.Rand
	jitMax int   // maximal virtual delay in ms at a seam, 0 = none
	jitPct int   // probability of a delay
	jits   int32 // goroutines currently inside a delay

	Conns []*Conn
}

// NewWorld makes a world with a seed.
func NewWorld(seed int64, jitMax, jitPct int) *World {
	return &World{t0: time.Now(), rng: rand.New(rand.NewSource(seed)), jitMax: jitMax, jitPct: jitPct}
}

// Now is virtual milliseconds since the start.
func (w *World) Now() int { return int(time.Since(w.t0) / time.Millisecond) }

// Log appends an event.
func (w *World) Log(e Ev) {
	w.mu.Lock()
	if !w.closed {
		e["t"] = w.Now()
		w.events = append(w.events, e)
	}
	w.mu.Unlock()
}

// Freeze ends the log: later events are dropped.
func (w *World) Freeze() {
	w.mu.Lock()
	w.closed = true
	w.mu.Unlock()
}

// Append adds an event even after Freeze.
func (w *World) Append(e Ev, t int) {
	w.mu.Lock()
	e["t"] = t
	w.events = append(w.events, e)
	w.mu.Unlock()
}

// Events returns the log.
func (w *World) Events() []Ev {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Ev(nil), w.events...)
}

// Intn is a seeded choice.
func (w *World) Intn(n int) int {
	w.rmu.Lock()
	defer w.rmu.Unlock()
	return w.rng.Intn(n)
}

// Jit is a seam: with some probability the calling goroutine is delayed in virtual time.
func (w *World) Jit() {
	if w.jitMax == 0 {
		return
	}
	w.rmu.Lock()
	hit := w.rng.Intn(100) < w.jitPct
	d := 1 + w.rng.Intn(w.jitMax)
	w.rmu.Unlock()
	if hit {
		atomic.AddInt32(&w.jits, 1)
		time.Sleep(time.Duration(d) * time.Millisecond)
		atomic.AddInt32(&w.jits, -1)
	}
}

// Settle waits until nothing can move without time passing or the scenario acting.
func (w *World) Settle() {
	for {
		synctest.Wait()
		if atomic.LoadInt32(&w.jits) == 0 {
			return
		}
		time.Sleep(time.Millisecond)
	}
}
