// Package vsync is what the instrumented copy of the repository uses instead of
// "sync", and what its statements call into (P) so that a generated schedule
// decides how goroutines interleave.
//
// The locks are built on channels, so that inside a testing/synctest bubble a
// goroutine waiting for one counts as durably blocked: a lost wake-up or a
// deadlock is then reported by the bubble instead of hanging the run.
package vsync

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type (
	Locker    = sync.Locker
	Cond      = sync.Cond
	WaitGroup = sync.WaitGroup
	Once      = sync.Once
	Map       = sync.Map
	Pool      = sync.Pool
)

func NewCond(l Locker) *Cond               { return sync.NewCond(l) }
func OnceFunc(f func()) func()             { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	return sync.OnceValues(f)
}

// Mutex behaves as sync.Mutex (barging: an unlock wakes one waiter, which
// competes again).
type Mutex struct {
	mu      sync.Mutex
	locked  bool
	waiters []chan struct{}
}

func (m *Mutex) Lock() {
	P()
	for {
		m.mu.Lock()
		if !m.locked {
			m.locked = true
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.waiters = append(m.waiters, ch)
		m.mu.Unlock()
		<-ch
	}
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if len(m.waiters) > 0 {
		close(m.waiters[0])
		m.waiters = m.waiters[1:]
	}
}

// RWMutex behaves as sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	mu      sync.Mutex
	writer  bool
	readers int
	wwait   []chan struct{}
	rwait   []chan struct{}
	pending int // writers waiting
}

func (m *RWMutex) Lock() {
	P()
	m.mu.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.wwait = append(m.wwait, ch)
	m.mu.Unlock()
	<-ch // handed over
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	// as in sync: readers that queued while the writer held the lock go first
	if len(m.rwait) > 0 {
		m.readers = len(m.rwait)
		for _, ch := range m.rwait {
			close(ch)
		}
		m.rwait = nil
		return
	}
	m.passToWriter()
}

func (m *RWMutex) passToWriter() {
	if len(m.wwait) > 0 && !m.writer && m.readers == 0 {
		m.writer = true
		close(m.wwait[0])
		m.wwait = m.wwait[1:]
	}
}

func (m *RWMutex) RLock() {
	P()
	m.mu.Lock()
	if !m.writer && len(m.wwait) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.rwait = append(m.rwait, ch)
	m.mu.Unlock()
	<-ch
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.wwait) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.passToWriter()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// ---------------------------------------------------------------- schedules

type schedule struct {
	mu    sync.Mutex
	rng   *rand.Rand
	used  map[int64]bool
	num   int // a point yields with probability num/16
	span  int64
	yield bool // real runtime.Gosched instead of a fake sleep
}

var current atomic.Pointer[schedule]

// Explore makes the schedule points inside f active. Every point sleeps for a
// pseudo-random, never repeated number of nanoseconds of the bubble's clock, so
// that at each instant one goroutine runs and seed decides which one is next.
// density (1..16) is how many of 16 points yield.
func Explore(seed uint64, density int, f func()) {
	s := &schedule{rng: rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15)), used: map[int64]bool{}, num: density, span: 997}
	current.Store(s)
	defer current.Store(nil)
	f()
}

// Stress makes the points call runtime.Gosched, for runs on the real clock.
func Stress(seed uint64, density int, f func()) {
	s := &schedule{rng: rand.New(rand.NewPCG(seed, 1)), num: density, yield: true}
	current.Store(s)
	defer current.Store(nil)
	f()
}

// P is a schedule point.
func P() {
	s := current.Load()
	if s == nil {
		return
	}
	s.mu.Lock()
	if s.rng.IntN(16) >= s.num {
		s.mu.Unlock()
		return
	}
	if s.yield {
		s.mu.Unlock()
		runtime.Gosched()
		return
	}
	now := time.Now().UnixNano()
	// one sleep in eight is long, so that a goroutine can be overtaken by a
	// whole operation of another one
	span := s.span
	if s.rng.IntN(8) == 0 {
		span *= 16
	}
	at := now + 1 + s.rng.Int64N(span)
	for s.used[at] {
		at++
	}
	s.used[at] = true
	s.mu.Unlock()
	time.Sleep(time.Duration(at - now))
}

// Active says whether schedule points are live.
func Active() bool { return current.Load() != nil }
