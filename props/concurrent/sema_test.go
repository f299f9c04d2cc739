package concurrent

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/concurrent"
	"pgregory.net/rapid"
)

const (
	opAcquire = "acquire"
	opTry     = "try"
	opRelease = "release"
)

func newSema(impl string, n int) concurrent.Semaphore {
	if impl == "chan" {
		return concurrent.NewChanSemaphore(int64(n))
	}
	return concurrent.NewLockSemaphore(int64(n))
}

// within runs a call that must not block, on its own goroutine.
func within(f func()) bool {
	var done atomic.Bool
	go func() { f(); done.Store(true) }()
	synctest.Wait()
	return done.Load()
}

// ------------------------------------------------------- one caller at a time

type history struct {
	Impl    string
	Permits int
	Ops     []string
}

func genHistory(t *rapid.T) history {
	return history{
		Impl:    rapid.SampledFrom([]string{"chan", "lock"}).Draw(t, "impl"),
		Permits: rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4, 5, 8, 17}).Draw(t, "permits"),
		Ops: rapid.SliceOfN(rapid.SampledFrom([]string{
			opAcquire, opAcquire, opTry, opTry, opRelease, opRelease}), 1, 60).Draw(t, "ops"),
	}
}

// runHistory issues the operations one after another, each once the previous
// one has returned or blocked, and compares with a counter after each.
func runHistory(h history) (o pbt.Outcome) {
	s := newSema(h.Impl, h.Permits)
	var completed atomic.Int64
	held, waiting, want := 0, 0, 0
	over, woken := 0, 0
	for i, op := range h.Ops {
		switch op {
		case opAcquire:
			if held < h.Permits {
				held++
				want++
			} else {
				waiting++
			}
			go func() { s.Acquire(); completed.Add(1) }()
			synctest.Wait()
		case opTry:
			var got bool
			if !within(func() { got = s.TryAcquire() }) {
				o.Fail("try-acquire blocked: op %d with %d of %d permits taken", i, held, h.Permits)
				return
			}
			if got != (held < h.Permits) {
				o.Fail("try-acquire answer: op %d got %v with %d of %d permits taken", i, got, held, h.Permits)
				return
			}
			if got {
				held++
			}
		case opRelease:
			if !within(s.Release) {
				o.Fail("release blocked: op %d", i)
				return
			}
			if held > 0 {
				held--
				if waiting > 0 {
					waiting--
					held++
					want++
					woken++
				}
			} else {
				over++
			}
		}
		if got := int(completed.Load()); got < want {
			o.Fail("acquirer left waiting: after op %d (%s) %d acquires returned, the permits allow %d (taken %d of %d, waiting %d)",
				i, op, got, want, held, h.Permits, waiting)
			return
		} else if got > want {
			o.Fail("too many let in: after op %d (%s) %d acquires returned, the permits allow exactly %d (taken %d of %d, waiting %d)",
				i, op, got, want, held, h.Permits, waiting)
			return
		}
	}
	o.LabelIf(over > 0, "over-release")
	o.LabelIf(woken > 0, "release with waiters")
	o.LabelIf(h.Permits == 0, "no permits")
	o.Label(h.Impl)
	o.Nontrivial = (over > 0 || woken > 0) && len(h.Ops) >= 4
	return
}

// ----------------------------------------------------- generated interleavings

type program struct {
	Impl    string
	Permits int
	Threads [][]string
	Seed    uint64
	Density int
}

func genProgram(t *rapid.T) program {
	p := program{
		Impl:    rapid.SampledFrom([]string{"chan", "lock"}).Draw(t, "impl"),
		Permits: rapid.IntRange(1, 3).Draw(t, "permits"),
		Seed:    rapid.Uint64Range(1, 1<<40).Draw(t, "seed"),
		Density: rapid.SampledFrom([]int{16, 16, 10, 6}).Draw(t, "density"),
	}
	n := rapid.IntRange(2, 5).Draw(t, "threads")
	kinds := rapid.SampledFrom([][]string{
		{opAcquire, opAcquire, opTry, opRelease, opRelease},
		{opAcquire, opAcquire, opTry, opRelease, opRelease},
		{opTry, opTry, opTry, opTry, opRelease},
		{opTry, opTry, opAcquire, opRelease, opRelease},
		{opTry, opAcquire},
		{opAcquire, opRelease}}).Draw(t, "kinds of calls")
	for i := 0; i < n; i++ {
		p.Threads = append(p.Threads, rapid.SliceOfN(rapid.SampledFrom(kinds), 1, 5).Draw(t, "ops"))
	}
	return p
}

type semState struct{ held int }

// runProgram interleaves the threads by a seeded schedule, records every call
// and return, and searches for a sequential order that explains the answers.
func runProgram(p program) (o pbt.Outcome) {
	s := newSema(p.Impl, p.Permits)
	var mu sync.Mutex
	var ops []pbt.Op
	var clk pbt.Clock
	var blocked atomic.Int64
	overlap := 0
	call := func(name string) {
		op := pbt.Op{Name: name, Call: clk.Tick()}
		mu.Lock()
		ops = append(ops, op)
		i := len(ops) - 1
		mu.Unlock()
		var out any
		switch name {
		case opAcquire:
			blocked.Add(1)
			s.Acquire()
			blocked.Add(-1)
		case opTry:
			out = s.TryAcquire()
		case opRelease:
			s.Release()
		}
		r := clk.Tick()
		mu.Lock()
		ops[i].Out, ops[i].Ret = out, r
		if r != op.Call+1 {
			overlap++
		}
		mu.Unlock()
	}
	var running atomic.Int64
	vsync.Explore(p.Seed, p.Density, func() {
		for _, th := range p.Threads {
			running.Add(1)
			go func() {
				for _, op := range th {
					vsync.P()
					call(op)
				}
				running.Add(-1)
			}()
		}
		// all schedule points sleep; an hour later everybody has finished or waits
		time.Sleep(time.Hour)
	})
	stuck := int(blocked.Load())
	if stuck != int(running.Load()) {
		o.Fail("try-acquire or release blocked: %d threads unfinished, %d of them in acquire", running.Load(), stuck)
		return
	}
	// look at what is left, one call at a time
	if stuck > 0 {
		var free bool
		if !within(func() { free = s.TryAcquire() }) {
			o.Fail("try-acquire blocked: with %d acquirers waiting", stuck)
			return
		}
		if free {
			o.Fail("acquirer left waiting: %d acquirers wait while a permit is free", stuck)
			return
		}
		// each release lets exactly one in, though it may go on to acquire again
		for i := 0; i < 40 && running.Load() > 0; i++ {
			before := len(snapshot(&mu, &ops))
			pend := pending(&mu, &ops)
			if !within(func() { call(opRelease) }) {
				o.Fail("release blocked: with %d acquirers waiting", stuck)
				return
			}
			time.Sleep(time.Hour)
			if running.Load() > 0 && pending(&mu, &ops) >= pend && len(snapshot(&mu, &ops)) == before+1 {
				o.Fail("acquirer left waiting: a release with %d acquirers waiting let none in", pend)
				return
			}
		}
	}
	for i := 0; i < p.Permits+1 && len(ops) < 55; i++ {
		if !within(func() { call(opTry) }) {
			o.Fail("try-acquire blocked: at rest")
			return
		}
	}
	o.Label(p.Impl)
	o.LabelIf(stuck > 0, "threads waiting at rest")
	o.LabelIf(overlap > 0, "overlapping calls")
	o.Nontrivial = overlap > 0
	if len(ops) > 55 {
		o.Label("history too long to check")
		o.Nontrivial = false
		return
	}
	ok := pbt.Linearizable(semState{}, snapshot(&mu, &ops), func(st semState, op pbt.Op) (semState, bool) {
		switch op.Name {
		case opAcquire:
			if st.held >= p.Permits {
				return st, false
			}
			st.held++
		case opTry:
			got, _ := op.Out.(bool)
			if op.Ret == 0 || got != (st.held < p.Permits) {
				return st, false
			}
			if got {
				st.held++
			}
		case opRelease:
			if st.held > 0 {
				st.held--
			}
		}
		return st, true
	})
	if !ok {
		o.Fail("answers match no order of the calls: %d permits, history %s", p.Permits, show(ops))
	}
	return
}

func snapshot(mu *sync.Mutex, ops *[]pbt.Op) []pbt.Op {
	mu.Lock()
	defer mu.Unlock()
	return append([]pbt.Op(nil), *ops...)
}

func pending(mu *sync.Mutex, ops *[]pbt.Op) int {
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for _, o := range *ops {
		if o.Ret == 0 {
			n++
		}
	}
	return n
}

func show(ops []pbt.Op) string {
	s := ""
	for _, o := range ops {
		s += fmt.Sprintf("[%d-%d %s", o.Call, o.Ret, o.Name)
		if o.Out != nil {
			s += fmt.Sprintf("=%v", o.Out)
		}
		s += "] "
	}
	return s
}

// ------------------------------------------------------------ holders, in bulk

type crowd struct {
	Impl    string
	Permits int
	Workers int
	Rounds  int
	Try     int // one in Try rounds uses try-acquire
	Seed    uint64
	Density int
}

func genCrowd(t *rapid.T) crowd {
	return crowd{
		Impl:    rapid.SampledFrom([]string{"chan", "lock"}).Draw(t, "impl"),
		Permits: rapid.IntRange(1, 5).Draw(t, "permits"),
		Workers: rapid.IntRange(2, 12).Draw(t, "workers"),
		Rounds:  rapid.IntRange(1, 12).Draw(t, "rounds"),
		Try:     rapid.IntRange(2, 5).Draw(t, "try"),
		Seed:    rapid.Uint64Range(1, 1<<40).Draw(t, "seed"),
		Density: rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density"),
	}
}

// runCrowd: workers hold a permit for a while and give it back. Never more than
// Permits of them hold one, all of them get through, and all permits are back
// at the end.
func runCrowd(c crowd) (o pbt.Outcome) {
	s := newSema(c.Impl, c.Permits)
	var holders, most, through atomic.Int64
	work := func(w int) {
		for r := 0; r < c.Rounds; r++ {
			if (w+r)%c.Try == 0 {
				if !s.TryAcquire() {
					continue
				}
			} else {
				s.Acquire()
			}
			h := holders.Add(1)
			for {
				m := most.Load()
				if h <= m || most.CompareAndSwap(m, h) {
					break
				}
			}
			vsync.P()
			holders.Add(-1)
			s.Release()
		}
		through.Add(1)
	}
	run := func() {
		for w := 0; w < c.Workers; w++ {
			go work(w)
		}
		time.Sleep(time.Hour)
	}
	if pbt.Mode() == "race" {
		vsync.Stress(c.Seed, c.Density, run)
	} else {
		vsync.Explore(c.Seed, c.Density, run)
	}
	if int(through.Load()) != c.Workers {
		o.Fail("acquirer left waiting: %d of %d workers got through although every holder released", through.Load(), c.Workers)
		return
	}
	if int(most.Load()) > c.Permits {
		o.Fail("too many holders: %d held %d permits at once", most.Load(), c.Permits)
		return
	}
	for i := 0; i < 3; i++ {
		s.Release() // over-release must not add permits
	}
	got := 0
	for i := 0; i < c.Permits+3; i++ {
		if s.TryAcquire() {
			got++
		}
	}
	if got != c.Permits {
		o.Fail("permits at rest: %d available, created with %d", got, c.Permits)
	}
	o.Label(c.Impl)
	o.LabelIf(int(most.Load()) == c.Permits, "all permits in use")
	o.Nontrivial = c.Workers > c.Permits && int(most.Load()) == c.Permits
	return
}

// ------------------------------------------------------------- many permits

type bulkOp struct {
	Op string
	N  int64
}

type bulkCase struct {
	Impl    string
	Permits int64
	Ops     []bulkOp
}

func genBulk(t *rapid.T) bulkCase {
	c := bulkCase{Impl: rapid.SampledFrom([]string{"chan", "lock"}).Draw(t, "impl")}
	sizes := []int64{100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 70001}
	if c.Impl == "lock" {
		sizes = append(sizes, 1<<31-1, 1<<31, 1<<32, 1<<32+2, 1<<33+5, 1<<62, 1<<63-1)
	}
	c.Permits = rapid.SampledFrom(sizes).Draw(t, "permits")
	if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
		c.Permits = rapid.Int64Range(20, 3000).Draw(t, "any")
	}
	n := rapid.IntRange(2, 8).Draw(t, "n")
	some := rapid.Custom(func(t *rapid.T) int64 {
		if c.Permits < 1<<20 && rapid.IntRange(0, 3).Draw(t, "kind") > 0 {
			return max(1, c.Permits+rapid.Int64Range(-2, 2).Draw(t, "around"))
		}
		return rapid.SampledFrom([]int64{1, 2, 100, 128, 256, 1000, 5000}).Draw(t, "count")
	})
	for i := 0; i < n; i++ {
		op := opTry
		if i > 0 {
			op = rapid.SampledFrom([]string{opTry, opRelease, opRelease, opAcquire}).Draw(t, "op")
		}
		k := some.Draw(t, "n")
		if op == opAcquire {
			k = rapid.SampledFrom([]int64{1, 3, 150, 300}).Draw(t, "waiters")
		}
		c.Ops = append(c.Ops, bulkOp{op, k})
	}
	return c
}

// runBulk: the same in bulk: many permits, many acquirers waiting.
func runBulk(c bulkCase) (o pbt.Outcome) {
	var s concurrent.Semaphore
	if c.Impl == "chan" {
		s = concurrent.NewChanSemaphore(c.Permits)
	} else {
		s = concurrent.NewLockSemaphore(c.Permits)
	}
	var held, waiting, returned int64
	var completed atomic.Int64
	over, full, crowd := false, false, false
	for i, op := range c.Ops {
		switch op.Op {
		case opAcquire:
			for k := int64(0); k < op.N; k++ {
				go func() { s.Acquire(); completed.Add(1) }()
			}
			in := min(op.N, c.Permits-held)
			held += in
			returned += in
			waiting += op.N - in
			synctest.Wait()
		case opTry:
			want := min(op.N, c.Permits-held)
			got := int64(0)
			if !within(func() {
				for k := int64(0); k < op.N; k++ {
					if s.TryAcquire() {
						got++
					}
				}
			}) {
				o.Fail("try-acquire blocked: op %d with %d of %d permits taken", i, held, c.Permits)
				return
			}
			if got != want {
				o.Fail("try-acquire answer: op %d, %d of %d calls got a permit with %d of %d permits taken, expected %d", i, got, op.N, held, c.Permits, want)
				return
			}
			held += got
			full = full || got < op.N
		case opRelease:
			// at rest after as many as are held: a release that finds nothing
			// held, because no acquirer let in has run yet, changes nothing
			for left := op.N; left > 0; {
				n := left
				if waiting > 0 {
					n = min(n, max(1, held))
				}
				left -= n
				if !within(func() {
					for k := int64(0); k < n; k++ {
						s.Release()
					}
				}) {
					o.Fail("release blocked: op %d", i)
					return
				}
				in := min(n, waiting, held)
				crowd = crowd || in > 100
				over = over || n > held
				waiting -= in
				returned += in
				held = max(0, held-n) + in
			}
		}
		if got := completed.Load(); got < returned {
			o.Fail("acquirer left waiting: after op %d (%s %d) %d acquires returned, the permits allow %d (taken %d of %d, waiting %d)",
				i, op.Op, op.N, got, returned, held, c.Permits, waiting)
			return
		} else if got > returned {
			o.Fail("too many let in: after op %d (%s %d) %d acquires returned, the permits allow exactly %d (taken %d of %d, waiting %d)",
				i, op.Op, op.N, got, returned, held, c.Permits, waiting)
			return
		}
	}
	o.Label(c.Impl)
	o.LabelIf(over, "over-release")
	o.LabelIf(crowd, "more than 100 let in by releases")
	o.LabelIf(c.Permits > 1<<30, "more permits than 32 bits hold")
	o.Nontrivial = full || over || c.Permits > 1<<30
	return
}

// A run breaks C01 (who may hold a permit) or C02 (who must get through).
func isProgress(err error) bool {
	for _, p := range []string{"acquirer left waiting", "try-acquire blocked", "try-acquire or release blocked", "release blocked", "stuck"} {
		if strings.HasPrefix(err.Error(), p) {
			return true
		}
	}
	return false
}

func only[C any](run func(C) pbt.Outcome, keep func(error) bool) func(C) pbt.Outcome {
	return func(c C) pbt.Outcome {
		o := run(c)
		if o.Err != nil && !strings.HasPrefix(o.Err.Error(), "panic") && !keep(o.Err) {
			o.Err = nil
			o.Label("broke the other property")
		}
		return o
	}
}

func accounting[C any](run func(C) pbt.Outcome) func(C) pbt.Outcome {
	return only(run, func(e error) bool { return !isProgress(e) })
}

func progress[C any](run func(C) pbt.Outcome) func(C) pbt.Outcome {
	return only(run, isProgress)
}

func TestC01(t *testing.T) {
	pbt.Run(t, "C01", pbt.Part[history]{
		Name: "sequential", Modes: "inst", Quick: 1500, Deep: 40000, Bubble: true, Leave: true,
		Rule: "up to 60 acquire/try/release calls on either implementation with 0..17 permits, each issued at rest and compared with a counter; non-trivial: an over-release or a release with waiters",
		Gen:  genHistory, Run: accounting(runHistory),
	})
	pbt.Run(t, "C01", pbt.Part[program]{
		Name: "linearizable", Modes: "inst", Quick: 10000, Deep: 100000, Bubble: true, Leave: true, Retry: 20,
		Rule: "2..5 threads of acquire/try/release under a seeded schedule at statement granularity, answers explained by a sequential order; non-trivial: at least two calls overlapped",
		Gen:  genProgram, Run: accounting(runProgram),
	})
	pbt.Run(t, "C01", pbt.Part[crowd]{
		Name: "holders", Modes: "inst race", Quick: 400, Deep: 6000, Bubble: true, Leave: true, Retry: 20,
		Rule: "2..12 workers take and return permits under a seeded schedule (and, race-built, on real threads); non-trivial: more workers than permits and all permits in use at once",
		Gen:  genCrowd, Run: accounting(runCrowd),
	})
	pbt.Run(t, "C01", pbt.Part[bulkCase]{
		Name: "bulk", Modes: "inst", Quick: 150, Deep: 4000, Bubble: true, Leave: true,
		Rule: "bulk tries, releases and acquires around 20..2^63-1 permits (channel: up to 70001) compared with a counter; non-trivial: all permits taken, an over-release, or more than 2^30 permits",
		Gen:  genBulk, Run: accounting(runBulk),
	})
}

func TestC02(t *testing.T) {
	pbt.Run(t, "C02", pbt.Part[history]{
		Name: "sequential", Modes: "inst", Quick: 1500, Deep: 40000, Bubble: true, Leave: true,
		Rule: "as C01 sequential; after each release at rest exactly the waiter it pays for has returned, and try and release return at once; non-trivial: an over-release or a release with waiters",
		Gen:  genHistory, Run: progress(runHistory),
	})
	pbt.Run(t, "C02", pbt.Part[program]{
		Name: "no-lost-wakeup", Modes: "inst", Quick: 10000, Deep: 100000, Bubble: true, Leave: true, Retry: 20,
		Rule: "threads under a seeded schedule run until nothing can move; no acquirer waits while a permit is free, and each later release lets one in; non-trivial: at least two calls overlapped",
		Gen:  genProgram, Run: progress(runProgram),
	})
	pbt.Run(t, "C02", pbt.Part[crowd]{
		Name: "everyone-through", Modes: "inst", Quick: 400, Deep: 6000, Bubble: true, Leave: true, Retry: 20,
		Rule: "workers that all give their permit back all get through; non-trivial: more workers than permits and all permits in use at once",
		Gen:  genCrowd, Run: progress(runCrowd),
	})
	pbt.Run(t, "C02", pbt.Part[bulkCase]{
		Name: "bulk", Modes: "inst", Quick: 150, Deep: 4000, Bubble: true, Leave: true,
		Rule: "bulk tries, releases and acquires around 20..2^63-1 permits (channel: up to 70001) compared with a counter; non-trivial: all permits taken, an over-release, or more than 2^30 permits",
		Gen:  genBulk, Run: progress(runBulk),
	})
}
