package event

import (
	"fmt"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/event"
	"pgregory.net/rapid"
)

type call struct {
	Gap     time.Duration // idle time before it
	Drain   bool          `json:",omitempty"`
	Timeout time.Duration `json:",omitempty"`
}

type collecting struct {
	Block  bool // blocking receiver, small buffer
	Buf    int
	Sends  []time.Duration // since the start
	Calls  []call
	Close  time.Duration // since the start, 0: never
	How    string        // receiver, bus, replaced
	BusBuf int
	Odd    bool `json:",omitempty"` // events of all kinds
}

func genDur(t *rapid.T, name string) time.Duration {
	switch rapid.IntRange(0, 9).Draw(t, name+"-kind") {
	case 0, 1, 2, 3:
		return time.Duration(rapid.IntRange(0, 6).Draw(t, name)) * 10 * time.Millisecond
	case 4, 5:
		return time.Duration(rapid.IntRange(0, 6).Draw(t, name)) * time.Nanosecond
	case 6:
		return time.Duration(rapid.IntRange(0, 6).Draw(t, name))*10*time.Millisecond + time.Duration(rapid.IntRange(-1, 1).Draw(t, name+"-off"))
	case 7:
		return time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(t, name))
	default:
		return time.Duration(rapid.IntRange(0, 60).Draw(t, name)) * time.Millisecond
	}
}

func genCollecting(t *rapid.T) collecting {
	c := collecting{Block: rapid.IntRange(0, 3).Draw(t, "block") == 0, BusBuf: rapid.SampledFrom([]int{0, 1, 60}).Draw(t, "busbuf"), Odd: rapid.IntRange(0, 3).Draw(t, "odd-events") == 0}
	at := time.Duration(0)
	n := rapid.IntRange(0, 14).Draw(t, "sends")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		n = rapid.IntRange(15, 40).Draw(t, "sends")
	}
	crowd := rapid.IntRange(0, 39).Draw(t, "crowd") == 0
	if crowd {
		n = rapid.OneOf(rapid.IntRange(41, 1500), rapid.IntRange(41, 1500), rapid.SampledFrom([]int{4096, 4097, 8193})).Draw(t, "sends")
	}
	for i := 0; i < n; i++ {
		if (!crowd || i%97 == 3) && rapid.IntRange(0, 2).Draw(t, "burst") > 0 {
			at += max(0, genDur(t, "gap"))
		}
		c.Sends = append(c.Sends, at)
	}
	c.Buf = max(100, n)
	if c.Block {
		c.Buf = rapid.IntRange(0, 3).Draw(t, "buf")
		c.BusBuf = max(60, n)
	}
	for i := rapid.IntRange(1, 6).Draw(t, "calls"); i > 0; i-- {
		k := call{Gap: max(0, genDur(t, "idle"))}
		if !c.Block && rapid.IntRange(0, 2).Draw(t, "drain") == 0 {
			k.Drain = true
		} else {
			k.Timeout = genDur(t, "timeout")
			if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
				k.Timeout = rapid.SampledFrom([]time.Duration{0, -1, -time.Second, -1 << 63, time.Hour}).Draw(t, "oddtimeout")
			}
		}
		c.Calls = append(c.Calls, k)
	}
	if !c.Block && rapid.IntRange(0, 2).Draw(t, "close") > 0 {
		c.Close = at/2 + max(1, genDur(t, "closeat"))
		if rapid.Bool().Draw(t, "mid") && len(c.Calls) > 0 {
			c.Close = c.Calls[0].Gap + max(1, genDur(t, "closeat"))
		}
		c.How = rapid.SampledFrom([]string{"receiver", "bus", "replaced", "twice"}).Draw(t, "how")
		// the events end where the channel ends
		k := sort.Search(len(c.Sends), func(i int) bool { return c.Sends[i] >= c.Close })
		c.Sends = c.Sends[:k]
	}
	return c
}

func runCollecting(c collecting) (o pbt.Outcome) {
	bus := event.NewFanOutBus(c.BusBuf)
	bus.GoDispatch()
	st := event.Drop
	if c.Block {
		st = event.Block
	}
	r := bus.NewRecvStrategy("r", c.Buf, st)
	start := time.Now()
	type ret struct {
		data  []any
		at    time.Duration
		since time.Duration
	}
	rets := make([]ret, 0, len(c.Calls))
	go func() {
		for _, k := range c.Calls {
			time.Sleep(k.Gap)
			since := time.Since(start)
			var d []any
			if k.Drain {
				d = r.Drain()
			} else {
				d = r.CollectTimeout(k.Timeout)
			}
			rets = append(rets, ret{d, time.Since(start), since})
		}
	}()
	busClosed := false
	for i, at := range c.Sends {
		time.Sleep(at - time.Since(start))
		bus.C <- value(i, c.Odd)
	}
	if c.Close > 0 {
		time.Sleep(c.Close - time.Since(start))
		synctest.Wait() // the dispatcher is done with everything sent
		switch c.How {
		case "bus":
			bus.Close()
			busClosed = true
		case "replaced":
			bus.NewRecv("r", 1)
		case "twice":
			r.Close()
			r.Close()
		default:
			r.Close()
		}
	}
	time.Sleep(1000 * time.Hour)
	if len(rets) != len(c.Calls) {
		o.Fail("call did not return: %d of %d calls returned", len(rets), len(c.Calls))
		return
	}
	taken, during, tie := 0, 0, false
	for i, k := range c.Calls {
		g := rets[i]
		end := g.since // when the call has to return
		if !k.Drain && k.Timeout > 0 {
			end = g.since + k.Timeout
		}
		if c.Close > 0 && c.Close < end {
			end = max(c.Close, g.since)
		}
		if g.at != end {
			o.Fail("time of return: call %d %+v made at %v returned at %v, expected %v (closed at %v)", i, k, g.since, g.at, end, c.Close)
			return
		}
		low, high := taken, taken
		for _, at := range c.Sends[taken:] {
			if at < end && (k.Drain || k.Timeout > 0) {
				low++
			}
			if at <= end {
				high++
			}
			tie = tie || at == end
			if at > g.since && at < end {
				during++
			}
		}
		if n := len(g.data); taken+n < low || taken+n > high {
			o.Fail("events collected: call %d %+v from %v to %v got %v, expected events %d to %d (at most %d); sent at %v", i, k, g.since, end, g.data, taken, low-1, high-1, c.Sends)
			return
		}
		for j, v := range g.data {
			if !alike(v, value(taken+j, c.Odd)) {
				o.Fail("events collected: call %d %+v got %v, expected to start with event %d", i, k, g.data, taken)
				return
			}
		}
		taken += len(g.data)
	}
	o.LabelIf(during > 0, "arrived while collecting")
	o.LabelIf(tie, "arrived at the timeout")
	o.LabelIf(c.Close > 0, "closed: "+c.How)
	o.LabelIf(c.Block, "blocking")
	o.LabelIf(c.Odd && taken > 1, "nil and equal events")
	o.LabelIf(taken > 40, "more than 40 events")
	o.Nontrivial = len(c.Sends) > 1 && (during > 0 || tie || c.Close > 0) || len(c.Sends) > 2
	if !busClosed {
		// an abandoned blocking receiver would keep the dispatcher
		r.Close()
		bus.Close()
	}
	return
}

func TestC11(t *testing.T) {
	pbt.Run(t, "C11", pbt.Part[collecting]{
		Name: "arrivals", Modes: "plain", Quick: 8000, Deep: 400000, Bubble: true,
		Rule: "events sent at generated times (bursts, ties with the timeout), a sequence of drains and timed collections, the receiver closed meanwhile in one of four ways; contents and instant of return compared with the arrivals; non-trivial: events arriving while collecting, at the timeout, or a close, with at least 2 events (or at least 3 events waiting)",
		Gen:  genCollecting, Run: runCollecting,
	})
	pbt.Run(t, "C11", pbt.Part[readers]{
		Name: "several-readers", Modes: "inst race", Quick: 2000, Deep: 80000, Bubble: true, Leave: true, Retry: 10,
		Rule: "2 to 4 goroutines drain or collect from one receiver at the same time under a seeded schedule (race-built: real threads) while more events arrive: none waits beyond its call, no event is returned twice, out of order, invented or lost; non-trivial: at least two readers got something, or one came back empty-handed from a receiver that held events",
		Gen:  genReaders, Run: runReaders,
	})
}

// --------------------------------------------------- several readers at once

type readers struct {
	Block   bool
	Buf     int
	Waiting int       // events before the readers begin
	More    int       // events sent meanwhile
	Calls   [][]int64 // per reader: -1 drain, otherwise milliseconds of a timed collection
	Seed    uint64
	Density int
}

const slack = 8 * time.Millisecond // schedule points take their time

func genReaders(t *rapid.T) readers {
	c := readers{
		Block: rapid.Bool().Draw(t, "block"), Buf: rapid.SampledFrom([]int{0, 1, 3, 20}).Draw(t, "buf"),
		Waiting: rapid.IntRange(0, 8).Draw(t, "waiting"), More: rapid.SampledFrom([]int{0, 0, 2, 6}).Draw(t, "more"),
		Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed"), Density: rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density"),
	}
	for i := rapid.IntRange(2, 4).Draw(t, "readers"); i > 0; i-- {
		c.Calls = append(c.Calls, rapid.SliceOfN(rapid.SampledFrom([]int64{-1, -1, -1, 0, 10, 50}), 1, 3).Draw(t, "calls"))
	}
	return c
}

func runReaders(c readers) (o pbt.Outcome) {
	bus := event.NewFanOutBus(64)
	st := event.Drop
	if c.Block {
		st = event.Block
	}
	r := bus.NewRecvStrategy("r", c.Buf, st)
	bus.GoDispatch()
	for i := 0; i < c.Waiting; i++ {
		bus.C <- i
	}
	synctest.Wait()
	waiting := min(c.Waiting, c.Buf)
	if c.Block && c.Waiting > c.Buf {
		waiting++ // being handed over
	}
	got := make([][]any, len(c.Calls))
	late := make([]string, len(c.Calls))
	empty := false
	run := func() {
		var wg sync.WaitGroup
		for i, calls := range c.Calls {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, ms := range calls {
					at, took := time.Now(), time.Duration(0)
					vsync.P()
					if ms < 0 {
						got[i] = append(got[i], r.Drain()...)
					} else {
						took = time.Duration(ms) * time.Millisecond
						got[i] = append(got[i], r.CollectTimeout(took)...)
					}
					if d := time.Since(at); d > max(took, 0)+slack {
						late[i] = fmt.Sprintf("a call that takes %v took %v", took, d)
					}
				}
			}()
		}
		for i := 0; i < c.More; i++ {
			bus.C <- c.Waiting + i
			vsync.P()
		}
		wg.Wait()
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		if pbt.Mode() == "race" {
			vsync.Stress(c.Seed, c.Density, run)
		} else {
			vsync.Explore(c.Seed, c.Density, run)
		}
	}()
	select {
	case <-done:
	case <-time.After(time.Hour):
		o.Fail("call did not return: %+v", c)
		return
	}
	for _, l := range late {
		if l != "" {
			o.Fail("time of return: %s", l)
			return
		}
	}
	time.Sleep(time.Second) // schedule points sleep, too
	rest := []any{}
	for {
		d := r.Drain()
		rest = append(rest, d...)
		time.Sleep(time.Second)
		if len(d) == 0 {
			break
		}
	}
	seen := map[int]bool{}
	some := 0
	for i, l := range append(append([][]any{}, got...), rest) {
		last := -1
		for _, v := range l {
			n, ok := v.(int)
			if !ok || n < 0 || n >= c.Waiting+c.More {
				o.Fail("invented event: %v", v)
				return
			}
			if seen[n] {
				o.Fail("event returned twice: %d; %v, rest %v", n, got, rest)
				return
			}
			if n <= last {
				o.Fail("order of events: %v (reader %d)", l, i)
				return
			}
			seen[n], last = true, n
		}
		if i < len(got) && len(l) > 0 {
			some++
		}
		empty = empty || i < len(got) && len(l) == 0 && waiting > 0
	}
	must := min(c.Waiting, c.Buf) // a dropping receiver holds these
	if c.Block {
		must = c.Waiting + c.More
	}
	for n := 0; n < must; n++ {
		if !seen[n] {
			o.Fail("event lost: %d; %v, rest %v", n, got, rest)
			return
		}
	}
	o.LabelIf(some > 1, "shared among readers")
	o.LabelIf(empty, "somebody got nothing")
	o.LabelIf(c.Block && c.Waiting > c.Buf, "taken from a blocked dispatcher")
	o.Nontrivial = some > 1 || empty
	bus.Close()
	return
}

var _ = fmt.Sprint
