package circuitbreaker

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/circuitbreaker"
	"pgregory.net/rapid"
)

// --------------------------------------------------------------- timed calls

// call of a timeline: starts Gap after the previous start, runs for Dur.
type call struct {
	Gap  int64
	Dur  int64
	Fail bool
	Late int64 `json:",omitempty"` // time its error callback takes
	Rep  int   `json:",omitempty"` // so many more of the same
	Kind int   `json:",omitempty"` // of its error

	Panic bool `json:",omitempty"` // its task panics: not a success, and a failure or not
}

// ownErr is an error of the application.
type ownErr struct {
	text      string
	temporary bool
}

func (e *ownErr) Error() string {
	if e == nil {
		return ""
	}
	return e.text
}
func (e *ownErr) Temporary() bool { return e != nil && e.temporary }
func (e *ownErr) Timeout() bool   { return e != nil && e.temporary }

// errOf makes the error of a failing call; all kinds are failures.
func errOf(kind, i int) error {
	switch kind {
	case 1:
		return errors.New("")
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return fmt.Errorf("failure %d: %w", i, context.Canceled)
	case 5:
		return io.EOF
	case 6:
		return &ownErr{fmt.Sprint("failure ", i), true}
	case 7:
		return (*ownErr)(nil) // an error all the same
	case 8:
		return &net.OpError{Op: "dial", Err: &ownErr{"timeout", true}}
	case 9:
		return os.ErrNotExist
	case 10:
		return sql.ErrNoRows
	case 11:
		return errors.Join(io.EOF, &ownErr{"joined", false})
	}
	return fmt.Errorf("failure %d", i)
}

type timeline struct {
	Threshold int
	Reset     int64
	Calls     []call
	Never     bool
}

func genTimeline(t *rapid.T) timeline {
	c := timeline{
		Threshold: rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 7}).Draw(t, "threshold"),
		Reset:     rapid.SampledFrom([]int64{0, 1, 2, 1000, int64(time.Millisecond), int64(time.Second), int64(time.Hour)}).Draw(t, "reset"),
		Never:     rapid.IntRange(0, 11).Draw(t, "never") == 0,
	}
	if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
		c.Reset = rapid.Int64Range(0, int64(10*time.Second)).Draw(t, "resetAny")
	}
	gap := rapid.Custom(func(t *rapid.T) int64 {
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0, 1:
			return 0
		case 2:
			return c.Reset
		case 3:
			return c.Reset + 1
		case 4:
			return max(0, c.Reset-1)
		case 5:
			return c.Reset / 2
		}
		return rapid.Int64Range(0, 3*c.Reset+5).Draw(t, "any")
	})
	slow := rapid.IntRange(0, 2).Draw(t, "slow") == 0
	kinds := rapid.Bool().Draw(t, "kinds of errors")
	n := rapid.IntRange(1, 40).Draw(t, "n")
	for i := 0; i < n; i++ {
		k := call{Gap: gap.Draw(t, "gap"), Fail: rapid.IntRange(0, 3).Draw(t, "fail") > 0}
		if k.Fail && kinds {
			k.Kind = rapid.IntRange(0, 11).Draw(t, "kind")
		}
		if slow {
			k.Dur = gap.Draw(t, "dur")
		}
		k.Panic = rapid.IntRange(0, 24).Draw(t, "panic") == 0
		if !slow && k.Fail && rapid.IntRange(0, 9).Draw(t, "lateError") == 0 {
			k.Late = gap.Draw(t, "late")
		}
		c.Calls = append(c.Calls, k)
	}
	if !slow && rapid.IntRange(0, 14).Draw(t, "many") == 0 {
		c.Threshold = rapid.SampledFrom([]int{1, 2, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}).Draw(t, "threshold")
		c.Reset = min(c.Reset, int64(time.Second))
		for i := range c.Calls {
			k := &c.Calls[i]
			k.Gap = min(k.Gap, int64(4*time.Second))
			if rapid.IntRange(0, 3).Draw(t, "repeat") == 0 {
				k.Rep = rapid.SampledFrom([]int{63, 100, 126, 127, 128, 254, 255, 256, 299}).Draw(t, "more")
				k.Late, k.Panic = 0, false
				if k.Fail = rapid.IntRange(0, 9).Draw(t, "fail") > 0; rapid.Bool().Draw(t, "beyond") {
					k.Gap = c.Reset + 1
				}
			}
		}
	}
	if slow {
		for i := range c.Calls {
			c.Calls[i].Gap *= 64
			if c.Calls[i].Dur > 0 {
				c.Calls[i].Dur = c.Calls[i].Dur*64 + int64(i) + 1
			}
		}
		c.Reset = c.Reset*64 + int64(rapid.IntRange(0, 63).Draw(t, "fine"))
	}
	return c
}

type breaker interface {
	Do(task func() error, onError func(error), onOpen func())
}

// runTimeline issues the calls at their times on the fake clock; calls with a
// duration may overlap. The decision of a call is taken at its start, its
// effect at its end; no start coincides with an end and no two ends coincide
// (genTimeline), what would happen then is not specified.
func runTimeline(c timeline) (o pbt.Outcome) {
	var all []call
	for _, k := range c.Calls {
		for i := 0; i <= k.Rep; i++ {
			all = append(all, k)
		}
	}
	c.Calls = all
	var b breaker = circuitbreaker.NewSyncCircuitBreaker(c.Threshold, time.Duration(c.Reset))
	if c.Never {
		b = circuitbreaker.NeverOpen
	}
	type seen struct {
		ran, opened, errs int
		err, got          error
		start, end        int64
	}
	res := make([]seen, len(c.Calls))
	base := time.Now()
	var wg sync.WaitGroup
	slow := false
	var at int64
	for i, k := range c.Calls {
		slow = slow || k.Dur > 0
		time.Sleep(time.Duration(k.Gap))
		at = int64(time.Since(base))
		r := &res[i]
		r.err = errOf(k.Kind, i)
		r.start = at
		do := func() {
			defer func() {
				if p := recover(); p != nil && p != any(r) {
					panic(p)
				}
			}()
			b.Do(func() error {
				r.ran++
				if k.Dur > 0 {
					time.Sleep(time.Duration(k.Dur))
				}
				r.end = int64(time.Since(base))
				if k.Panic {
					panic(r)
				}
				if k.Fail {
					return r.err
				}
				return nil
			}, func(e error) {
				r.errs++
				r.got = e
				if k.Late > 0 {
					time.Sleep(time.Duration(k.Late))
				}
			}, func() { r.opened++ })
		}
		if k.Dur > 0 || k.Late > 0 {
			wg.Add(1)
			go func() { defer wg.Done(); do() }()
			synctest.Wait() // it has decided
		} else {
			do()
		}
	}
	wg.Wait()

	// reference: events in time order
	type event struct {
		at    int64
		i     int
		start bool
		ord   int
	}
	var evs []event
	for i, r := range res {
		evs = append(evs, event{r.start, i, true, 2 * i})
	}
	type state struct {
		failures int
		last     int64
	}
	states := []state{{}} // more than one while it does not matter whether a panic was a failure
	half, opened, panics := 0, 0, 0
	pend := []event{}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	settle := func(until int64, ord int) {
		sort.SliceStable(pend, func(a, b int) bool { return pend[a].at < pend[b].at })
		for len(pend) > 0 && (pend[0].at < until || pend[0].at == until && pend[0].ord < ord) {
			e := pend[0]
			pend = pend[1:]
			switch k := c.Calls[e.i]; {
			case k.Panic:
				for _, s := range states {
					if s = (state{s.failures + 1, e.at}); !slices.Contains(states, s) {
						states = append(states, s)
					}
				}
			case k.Fail:
				for i := range states {
					states[i] = state{states[i].failures + 1, e.at}
				}
			default:
				states = []state{{}}
			}
		}
	}
	for _, e := range evs {
		settle(e.at, e.ord)
		k, r := c.Calls[e.i], res[e.i]
		run := r.ran == 1
		var agree []state
		for _, s := range states {
			if run == (c.Never || s.failures < c.Threshold || e.at-s.last > c.Reset) && !slices.Contains(agree, s) {
				agree = append(agree, s)
			}
		}
		if len(agree) == 0 || r.ran > 1 {
			o.Fail("task executed or not: call %d at %d ran %d times, expected %v (failures %d of %d, last failure at %d, reset timeout %d)",
				e.i, e.at, r.ran, !run, states[0].failures, c.Threshold, states[0].last, c.Reset)
			return
		}
		states = agree
		if run && states[0].failures >= c.Threshold && !c.Never {
			half++
		}
		if !run {
			opened++
		}
		if want := b2i(!run); r.opened != want {
			o.Fail("open callback: call %d called it %d times, expected %d", e.i, r.opened, want)
			return
		}
		if want := b2i(run && k.Fail); r.errs != want && !(run && k.Panic) {
			o.Fail("error callback: call %d called it %d times, expected %d", e.i, r.errs, want)
			return
		}
		if r.errs == 1 && r.got != r.err {
			o.Fail("error callback: call %d got %v, its task returned %v", e.i, r.got, r.err)
			return
		}
		if run {
			panics += b2i(k.Panic)
			pend = append(pend, event{r.end, e.i, false, 2*e.i + 1})
		}
	}
	o.LabelIf(half > 0, "half-open reached")
	o.LabelIf(opened > 0, "open reached")
	o.LabelIf(slow, "overlapping tasks")
	o.LabelIf(panics > 0, "panics")
	o.LabelIf(len(c.Calls) > 100, "many calls")
	o.LabelIf(c.Never, "never-open")
	o.Nontrivial = half > 0 && opened > 0 || c.Never && len(c.Calls) > 3
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// --------------------------------------------------------- concurrent mixtures

type mixture struct {
	Threshold int
	AlwaysTry bool // reset timeout negative: an open breaker tries every call
	Threads   [][]bool
	Seed      uint64
	Density   int
}

func genMixture(t *rapid.T) mixture {
	m := mixture{
		Threshold: rapid.IntRange(1, 9).Draw(t, "threshold"),
		Seed:      rapid.Uint64Range(1, 1<<40).Draw(t, "seed"),
		Density:   rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density"),
	}
	rare := rapid.IntRange(0, 5).Draw(t, "successes")
	n := rapid.IntRange(2, 5).Draw(t, "threads")
	for i := 0; i < n; i++ {
		m.Threads = append(m.Threads, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) bool {
			return rapid.IntRange(0, 9).Draw(t, "fail") >= rare
		}), 1, 3).Draw(t, "calls"))
	}
	return m
}

// runMixture: concurrent calls; deciding and recording are each atomic, and the
// recorded failures are exactly those of some order.
func runMixture(m mixture) (o pbt.Outcome) {
	b := circuitbreaker.NewSyncCircuitBreaker(m.Threshold, 1000*time.Hour)
	var mu sync.Mutex
	var ops []pbt.Op
	var clk pbt.Clock
	begin := func(name string) int {
		mu.Lock()
		defer mu.Unlock()
		ops = append(ops, pbt.Op{Name: name, Call: clk.Tick()})
		return len(ops) - 1
	}
	end := func(i int, out any) {
		mu.Lock()
		defer mu.Unlock()
		ops[i].Out, ops[i].Ret = out, clk.Tick()
	}
	bad := ""
	do := func(fail bool) {
		ran, opened, errs := 0, 0, 0
		mine := errors.New("mine")
		i := begin("decide")
		rec := -1
		b.Do(func() error {
			ran++
			end(i, true)
			vsync.P()
			if fail {
				rec = begin("fail")
				return mine
			}
			rec = begin("success")
			return nil
		}, func(e error) {
			errs++
			if e != mine {
				bad = fmt.Sprintf("error callback: got %v instead of the task's own error", e)
			}
		}, func() { opened++; end(i, false) })
		if rec >= 0 {
			end(rec, nil)
		}
		if ran+opened != 1 || errs != b2i(ran == 1 && fail) {
			bad = fmt.Sprintf("callbacks: task ran %d times, open callback %d, error callback %d (failing: %v)", ran, opened, errs, fail)
		}
	}
	done := false
	run := func() {
		var wg sync.WaitGroup
		for _, th := range m.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, f := range th {
					vsync.P()
					do(f)
				}
			}()
		}
		wg.Wait()
		done = true
	}
	if pbt.Mode() == "race" {
		vsync.Stress(m.Seed, m.Density, run)
	} else {
		vsync.Explore(m.Seed, m.Density, run)
	}
	_ = done
	// then fail until it opens: how many that takes shows the count reached
	probes := 0
	for probes <= m.Threshold {
		n := len(ops)
		do(true)
		probes++
		if len(ops) == n+1 {
			break
		}
	}
	if bad != "" {
		o.Fail("%s", bad)
		return
	}
	if len(ops) > 60 {
		o.Label("too long")
		return
	}
	overlap := false
	var open int64
	for _, p := range ops {
		if p.Call < open {
			overlap = true
		}
		open = max(open, p.Ret)
	}
	ok := pbt.Linearizable(0, append([]pbt.Op(nil), ops...), func(f int, op pbt.Op) (int, bool) {
		switch op.Name {
		case "decide":
			return f, op.Out.(bool) == (f < m.Threshold)
		case "fail":
			return f + 1, true
		}
		return 0, true
	})
	if !ok {
		var s strings.Builder
		for _, p := range ops {
			fmt.Fprintf(&s, "[%d-%d %s %v] ", p.Call, p.Ret, p.Name, p.Out)
		}
		o.Fail("failures counted wrongly: no order explains it with threshold %d: %s", m.Threshold, s.String())
	}
	o.LabelIf(overlap, "overlapping")
	o.Nontrivial = overlap && len(ops) > 6
	return
}

func TestC03(t *testing.T) {
	pbt.Run(t, "C03", pbt.Part[timeline]{
		Name: "timeline", Modes: "inst", Quick: 4000, Deep: 150000, Bubble: true,
		Rule: "up to 40 calls (failing with errors of 12 kinds or not, possibly long and overlapping, or repeated up to 300 times, their error callback taking time or not) at gaps around the reset timeout on a fake clock, each decision and callback compared with a reference breaker; also the never-open one; non-trivial: the open and the half-open state were both reached",
		Gen:  genTimeline, Run: runTimeline,
	})
	pbt.Run(t, "C03", pbt.Part[mixture]{
		Name: "concurrent", Modes: "inst race", Quick: 1500, Deep: 40000, Bubble: true, Retry: 10,
		Rule: "2..5 threads of failing and succeeding calls under a seeded schedule (race-built: real threads), decisions and the final failure count explained by one order of atomic steps; non-trivial: calls overlapped",
		Gen:  genMixture, Run: runMixture,
	})
}
