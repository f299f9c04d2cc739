package event

import (
	"fmt"
	"reflect"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/event"
	"pgregory.net/rapid"
)

// within runs a call that must not block.
func within(f func()) bool {
	var done atomic.Bool
	go func() { f(); done.Store(true) }()
	synctest.Wait()
	return done.Load()
}

// -------------------------------------------------- histories, step by step

type step struct {
	Op   string // send new close read wait drain dispatch closebus
	Recv int
	Name int           `json:",omitempty"`
	Buf  int           `json:",omitempty"`
	Blk  bool          `json:",omitempty"`
	N    int           `json:",omitempty"` // sends in a row, 0: one
	Pass time.Duration `json:",omitempty"` // idle time before it
}

type history struct {
	BusBuf int
	Odd    bool `json:",omitempty"` // events of all kinds, see value
	Steps  []step
}

// value is the event number n: itself, or among others also nil, equal and
// incomparable ones.
func value(n int, odd bool) any {
	if !odd {
		return n
	}
	switch n % 23 {
	case 1:
		return nil
	case 2:
		return (*int)(nil)
	case 3:
		return error(nil)
	case 4:
		return ""
	case 5:
		return 0
	case 6:
		return false
	case 7:
		return struct{}{}
	case 8:
		return [1]int{n}
	case 9:
		return fmt.Sprint("event ", n)
	case 10:
		return called
	case 11:
		return []any{n, "several"}
	case 12:
		return fmt.Errorf("event %d", n)
	case 13:
		return time.Duration(n)
	case 14:
		return map[string]any{"n": n}
	case 15:
		return signals
	case 16:
		return &event.Receiver{}
	case 17:
		return []byte(nil)
	}
	return n
}

func called() { panic("an event was called") }

var signals = make(chan any, 1)

// alike compares two events, also such as == cannot.
func alike(a, b any) bool {
	if f, ok := a.(func()); ok && f != nil {
		f, ok = b.(func())
		return ok && f != nil
	}
	return reflect.DeepEqual(a, b)
}

func values(ns []int, odd bool) []any {
	vs := make([]any, 0, len(ns))
	for _, n := range ns {
		vs = append(vs, value(n, odd))
	}
	return vs
}

func same(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !alike(a[i], b[i]) {
			return false
		}
	}
	return true
}

func genPass(t *rapid.T) time.Duration {
	if rapid.IntRange(0, 5).Draw(t, "passes") > 0 {
		return 0
	}
	return rapid.SampledFrom([]time.Duration{1, time.Millisecond, time.Second, time.Minute, 10 * time.Minute, 100 * time.Hour}).Draw(t, "pass")
}

func genHistory(lifecycle bool) func(t *rapid.T) history {
	return func(t *rapid.T) history {
		h := history{BusBuf: rapid.SampledFrom([]int{0, 0, 1, 2, 5}).Draw(t, "busbuf"), Odd: rapid.IntRange(0, 2).Draw(t, "odd") == 0}
		big := rapid.IntRange(0, 11).Draw(t, "big") == 0
		if big && rapid.Bool().Draw(t, "backlog") {
			h.BusBuf = rapid.SampledFrom([]int{10, 70, 150, 300, 1100}).Draw(t, "large busbuf")
		}
		newRecv := func() step {
			s := step{Op: "new", Buf: rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 8}).Draw(t, "buf"), Blk: rapid.IntRange(0, 2).Draw(t, "blk") == 0}
			if big && rapid.Bool().Draw(t, "large") {
				s.Buf = rapid.IntRange(10, 700).Draw(t, "largebuf")
			}
			if lifecycle {
				s.Name = rapid.IntRange(0, 3).Draw(t, "name")
			}
			return s
		}
		n := rapid.IntRange(0, 4).Draw(t, "receivers")
		if big && rapid.Bool().Draw(t, "crowd") {
			n = rapid.IntRange(5, 40).Draw(t, "crowd-size")
		}
		for ; n > 0; n-- {
			h.Steps = append(h.Steps, newRecv())
		}
		if rapid.IntRange(0, 5).Draw(t, "late") > 0 {
			h.Steps = append(h.Steps, step{Op: "dispatch"})
		}
		ops := []string{"send", "send", "send", "send", "read", "read", "wait", "wait", "drain", "dispatch", "new"}
		if lifecycle {
			ops = append(ops, "close", "close", "close", "new", "new")
		}
		n = rapid.IntRange(1, 50).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := rapid.SampledFrom(ops).Draw(t, "op")
			if op == "new" {
				h.Steps = append(h.Steps, newRecv())
				continue
			}
			s := step{Op: op, Recv: rapid.IntRange(0, 7).Draw(t, "recv"), Pass: genPass(t)}
			if big && op == "send" && rapid.IntRange(0, 3).Draw(t, "row") == 0 {
				s.N = rapid.IntRange(2, 300).Draw(t, "row-length")
			}
			h.Steps = append(h.Steps, s)
		}
		if lifecycle && rapid.Bool().Draw(t, "closebus") {
			h.Steps = append(h.Steps, step{Op: "closebus"})
			for i := rapid.IntRange(0, 6).Draw(t, "afterwards"); i > 0; i-- {
				h.Steps = append(h.Steps, step{Op: rapid.SampledFrom([]string{"close", "close", "read", "drain", "wait"}).Draw(t, "op"), Recv: rapid.IntRange(0, 7).Draw(t, "recv"), Pass: genPass(t)})
			}
		}
		return h
	}
}

// reader is a goroutine waiting on a receiver's channel, and what it should get.
type reader struct {
	done   atomic.Bool
	v      any
	ok     bool
	served bool
	want   int
	wantOk bool
}

// recvModel is a queue with a capacity.
type recvModel struct {
	r       *event.Receiver
	name    int
	buf     int
	blk     bool
	open    bool
	queue   []int
	waiting []*reader // oldest first
}

func (m *recvModel) full() bool { return len(m.waiting) == 0 && len(m.queue) >= m.buf }

func (m *recvModel) take(v int) {
	if len(m.waiting) > 0 {
		w := m.waiting[0]
		m.waiting = m.waiting[1:]
		w.served, w.want, w.wantOk = true, v, true
		return
	}
	m.queue = append(m.queue, v)
}

func (m *recvModel) end() {
	m.open = false
	for _, w := range m.waiting {
		w.served = true
	}
	m.waiting = nil
}

// busModel interprets the documentation, at rest.
type busModel struct {
	rs          []*recvModel
	dispatching bool
	closed      bool
	backlog     []int      // sent, not yet dispatched
	stuck       *recvModel // a full blocking receiver that stops the bus
	inFlight    int
	dropped     int
	stops       int
}

func (b *busModel) dispatch() {
	for b.dispatching && b.stuck == nil && len(b.backlog) > 0 {
		v := b.backlog[0]
		b.backlog = b.backlog[1:]
		for _, m := range b.rs {
			switch {
			case !m.open:
			case !m.full():
				m.take(v)
			case m.blk:
				b.stuck, b.inFlight = m, v
				b.stops++
			default:
				b.dropped++
			}
		}
	}
}

// runHistory issues one operation after another, each at rest, and compares
// what every receiver holds with the model. A full blocking receiver stops the
// bus (documented): while that is so it is read or closed, nothing else is done.
func runHistory(h history) (o pbt.Outcome) {
	bus := event.NewFanOutBus(h.BusBuf)
	b := &busModel{}
	var readers []*reader
	next, closedTwice, reused, sent, waited := 0, 0, 0, 0, 0

	check := func(i int, s step) bool {
		synctest.Wait()
		if b.stuck != nil { // others may get the event before or after
			return true
		}
		for _, w := range readers {
			switch done := w.done.Load(); {
			case w.served && !done:
				o.Fail("reader left waiting: after step %d %+v, it should have got %d (channel open: %v)", i, s, w.want, w.wantOk)
				return false
			case !w.served && done:
				o.Fail("undue event: after step %d %+v a waiting reader got %v (channel open: %v)", i, s, w.v, w.ok)
				return false
			case done && (w.ok != w.wantOk || w.ok && !alike(w.v, value(w.want, h.Odd))):
				o.Fail("wrong event: after step %d %+v a waiting reader got %v (channel open: %v), expected %v (%v)", i, s, w.v, w.ok, value(w.want, h.Odd), w.wantOk)
				return false
			}
		}
		for k, m := range b.rs {
			if n := len(m.r.C); n != len(m.queue) {
				o.Fail("events waiting: receiver %d holds %d events, expected %v, after step %d %+v", k, n, m.queue, i, s)
				return false
			}
		}
		return true
	}

	passed := false
	for i, s := range h.Steps {
		if s.Pass > 0 { // changes nothing
			time.Sleep(s.Pass)
			passed = true
			if !check(i, step{Op: "pass", Pass: s.Pass}) {
				return
			}
		}
		var m *recvModel
		if len(b.rs) > 0 {
			m = b.rs[s.Recv%len(b.rs)]
		}
		if b.stuck != nil {
			m = b.stuck
			if s.Op != "close" && (s.Op != "send" || len(b.backlog) >= h.BusBuf) {
				s.Op = "read"
			}
		}
		switch s.Op {
		case "dispatch":
			if !b.dispatching && !b.closed {
				b.dispatching = true
				bus.GoDispatch()
				b.dispatch()
			}
		case "send":
			if b.closed {
				continue
			}
			for k := max(1, s.N); k > 0 && (b.dispatching && b.stuck == nil || len(b.backlog) < h.BusBuf); k-- {
				next++
				sent++
				v := next
				if !within(func() { bus.C <- value(v, h.Odd) }) {
					o.Fail("stuck sending: event %d, step %d", v, i)
					return
				}
				b.backlog = append(b.backlog, v)
				waited = max(waited, len(b.backlog))
				b.dispatch()
			}
		case "new":
			if b.closed {
				continue
			}
			nm := &recvModel{name: s.Name, buf: s.Buf, blk: s.Blk, open: true}
			if nm.name == 0 {
				nm.name = 100 + len(b.rs)
			}
			for _, x := range b.rs {
				if x.open && x.blk && s.Blk {
					nm.buf = 20000 // only one may stop the bus
				}
			}
			if !within(func() {
				n := fmt.Sprint("r", nm.name)
				switch {
				case s.Blk:
					nm.r = bus.NewRecvStrategy(n, nm.buf, event.Block)
				case i%2 == 0:
					nm.r = bus.NewRecvStrategy(n, nm.buf, event.Drop)
				default:
					nm.r = bus.NewRecv(n, nm.buf)
				}
			}) {
				o.Fail("stuck registering: step %d %+v", i, s)
				return
			}
			for _, old := range b.rs {
				if old.open && old.name == nm.name {
					old.end()
					reused++
				}
			}
			b.rs = append(b.rs, nm)
		case "close":
			if m == nil {
				continue
			}
			if !m.open {
				closedTwice++
			}
			if !within(m.r.Close) {
				o.Fail("stuck closing: a receiver, step %d %+v, stopping the bus: %v", i, s, b.stuck == m)
				return
			}
			m.end()
			if b.stuck == m {
				b.stuck = nil
				b.dispatch()
			}
		case "closebus":
			if b.stuck != nil {
				continue
			}
			if !within(bus.Close) {
				o.Fail("stuck closing: the bus, step %d", i)
				return
			}
			b.closed = true
			for _, x := range b.rs {
				x.end()
			}
		case "read", "wait":
			if m == nil || len(m.waiting) > 0 {
				continue
			}
			w := &reader{}
			switch {
			case len(m.queue) > 0:
				w.served, w.want, w.wantOk = true, m.queue[0], true
				m.queue = m.queue[1:]
				if b.stuck == m {
					m.take(b.inFlight)
					b.stuck = nil
					b.dispatch()
				}
			case b.stuck == m: // no buffer
				w.served, w.want, w.wantOk = true, b.inFlight, true
				b.stuck = nil
				b.dispatch()
			case !m.open:
				w.served = true
			case s.Op == "read": // would wait
				select {
				case v, ok := <-m.r.C:
					o.Fail("undue event: step %d read %v (channel open: %v) from an empty receiver", i, v, ok)
					return
				default:
				}
				continue
			default:
				m.waiting = append(m.waiting, w)
			}
			readers = append(readers, w)
			go func() {
				w.v, w.ok = <-m.r.C
				w.done.Store(true)
			}()
		case "drain":
			if m == nil || len(m.waiting) > 0 {
				continue
			}
			var d []any
			if !within(func() { d = m.r.Drain() }) {
				o.Fail("stuck draining: step %d", i)
				return
			}
			if want := values(m.queue, h.Odd); !same(d, want) {
				o.Fail("wrong event: step %d drained %v, expected %v", i, d, want)
				return
			}
			m.queue = nil
		}
		if !check(i, s) {
			return
		}
	}
	o.LabelIf(h.Odd, "nil and equal events")
	o.LabelIf(passed, "idle time")
	o.LabelIf(sent > 60, "more than 60 events")
	o.LabelIf(waited > 64, "backlog of more than 64")
	o.LabelIf(b.dropped > 0, "events dropped")
	o.LabelIf(b.stops > 0, "blocking receiver stopped the bus")
	o.LabelIf(closedTwice > 0, "closed again")
	o.LabelIf(reused > 0, "name reused")
	o.LabelIf(b.closed, "bus closed")
	o.Nontrivial = sent > 2 && len(b.rs) > 1
	return
}

// ------------------------------------------------------- concurrent traffic

type thread struct {
	Op   string // send (N events), churn (open, close, reopen under a name)
	N    int
	Name int
}

type traffic struct {
	BusBuf  int
	Bufs    []int // lasting receivers
	Blk     []bool
	Slow    []int // readers pause every so many events
	Threads []thread
	Events  int
	Seed    uint64
	Density int
}

func genTraffic(churn bool) func(t *rapid.T) traffic {
	return func(t *rapid.T) traffic {
		c := traffic{
			BusBuf: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "busbuf"),
			Seed:   rapid.Uint64Range(1, 1<<40).Draw(t, "seed"), Density: rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density"),
		}
		for i := rapid.IntRange(1, 4).Draw(t, "receivers"); i > 0; i-- {
			c.Bufs = append(c.Bufs, rapid.SampledFrom([]int{0, 0, 1, 2, 5, 100}).Draw(t, "buf"))
			c.Blk = append(c.Blk, rapid.Bool().Draw(t, "blk"))
			c.Slow = append(c.Slow, rapid.IntRange(0, 3).Draw(t, "slow"))
		}
		for i := rapid.IntRange(1, 3).Draw(t, "senders"); i > 0; i-- {
			n := rapid.IntRange(1, 8).Draw(t, "n")
			c.Events += n
			c.Threads = append(c.Threads, thread{Op: "send", N: n})
		}
		if churn {
			for i := rapid.IntRange(1, 3).Draw(t, "churners"); i > 0; i-- {
				c.Threads = append(c.Threads, thread{
					Op: rapid.SampledFrom([]string{"churn", "churn-block", "churn-twice", "quit"}).Draw(t, "churn"),
					N:  rapid.IntRange(1, 4).Draw(t, "n"), Name: rapid.IntRange(0, 1).Draw(t, "name"),
				})
			}
		}
		return c
	}
}

type ev struct{ from, n int }

// runTraffic lets senders, the dispatcher, readers and threads that open and
// close receivers run under a schedule, then closes the bus.
func runTraffic(c traffic) (o pbt.Outcome) {
	bus := event.NewFanOutBus(c.BusBuf)
	got := make([][]ev, len(c.Bufs))
	var ended, alive, extra atomic.Int64
	finished := false
	read := func(r *event.Receiver, each func(ev)) {
		alive.Add(1)
		go func() {
			for v := range r.C {
				each(v.(ev))
			}
			ended.Add(1)
		}()
	}
	run := func() {
		var wg sync.WaitGroup
		for i := range c.Bufs {
			st := event.Drop
			if c.Blk[i] {
				st = event.Block
			}
			n := 0
			read(bus.NewRecvStrategy(fmt.Sprint("lasting", i), c.Bufs[i], st), func(e ev) {
				got[i] = append(got[i], e)
				// (race-built, a goroutine waiting for a real lock keeps the fake
				// clock from moving, so nobody may sleep)
				if n++; c.Slow[i] > 0 && n%c.Slow[i] == 0 && pbt.Mode() != "race" {
					time.Sleep(3 * time.Microsecond)
				}
			})
		}
		bus.GoDispatch()
		for k, th := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				name := fmt.Sprint("churn", th.Name)
				for j := 0; j < th.N; j++ {
					vsync.P()
					st := event.Drop
					if th.Op == "churn-block" || th.Op == "quit" {
						st = event.Block
					}
					if th.Op == "send" {
						bus.C <- ev{k, j}
						continue
					}
					r := bus.NewRecvStrategy(name, j%2, st)
					if th.Op == "quit" && th.Name == 1 {
						// read one event at most, then leave although more may come
						name = fmt.Sprint("quit", k, "-", j)
						r.Close()
						r = bus.NewRecvStrategy(name, j%2, st)
						select {
						case <-r.C:
						default:
						}
						vsync.P()
						r.Close()
						read(r, func(ev) {})
						continue
					}
					read(r, func(ev) { extra.Add(1) })
					vsync.P()
					r.Close()
					if th.Op == "churn-twice" {
						vsync.P()
						r.Close()
					}
				}
			}()
		}
		wg.Wait()
		time.Sleep(time.Second) // everything is dispatched
		bus.Close()
		time.Sleep(time.Second)
		finished = true
	}
	if pbt.Mode() == "race" {
		vsync.Stress(c.Seed, c.Density, run)
	} else {
		vsync.Explore(c.Seed, c.Density, run)
	}
	_ = finished
	if ended.Load() != alive.Load() {
		o.Fail("reader left waiting: %d of %d readers saw the end of their channel after the bus was closed", ended.Load(), alive.Load())
		return
	}
	var ref []ev
	for i, g := range got {
		last := map[int]int{}
		for _, e := range g {
			if l, ok := last[e.from]; e.n != l+1 && ok && e.n <= l {
				o.Fail("order of events: receiver %d got event %d of sender %d after its event %d", i, e.n, e.from, l)
				return
			}
			last[e.from] = e.n
		}
		if c.Blk[i] || c.Bufs[i] >= c.Events {
			if len(g) != c.Events {
				o.Fail("events received: receiver %d (blocking %v, buffer %d) got %d of %d", i, c.Blk[i], c.Bufs[i], len(g), c.Events)
				return
			}
			if ref != nil && fmt.Sprint(ref) != fmt.Sprint(g) {
				o.Fail("order of events: receivers saw %v and %v", ref, g)
				return
			}
			ref = g
		}
	}
	if ref != nil {
		for i, g := range got {
			k := 0
			for _, e := range g {
				for k < len(ref) && ref[k] != e {
					k++
				}
				if k == len(ref) {
					o.Fail("order of events: receiver %d saw %v, others %v", i, g, ref)
					return
				}
				k++
			}
		}
	}
	missed := false
	for _, g := range got {
		missed = missed || len(g) < c.Events
	}
	o.LabelIf(missed, "events dropped")
	o.LabelIf(len(c.Threads) > 1, "several threads")
	o.LabelIf(extra.Load() > 0, "short-lived receivers got events")
	o.Nontrivial = c.Events > 2 && len(c.Threads) > 1
	return
}

func TestC09(t *testing.T) {
	pbt.Run(t, "C09", pbt.Part[history]{
		Name: "at-rest", Modes: "inst", Quick: 10000, Deep: 100000, Bubble: true, Leave: true,
		Rule: "up to 50 sends, reads, waiting readers and drains over receivers of both kinds and any buffer, each at rest and compared with a queue model (who gets, who drops); non-trivial: at least 3 events and 2 receivers",
		Gen:  genHistory(false), Run: runHistory,
	})
	pbt.Run(t, "C09", pbt.Part[traffic]{
		Name: "concurrent", Modes: "inst race", Quick: 1000, Deep: 30000, Bubble: true, Leave: true, Retry: 10,
		Rule: "1..3 senders, 1..4 receivers with slow or quick readers under a seeded schedule (race-built: real threads); exactly once and one common order for all that may not drop, a subsequence of it for the others; non-trivial: at least 3 events and 2 threads",
		Gen:  genTraffic(false), Run: runTraffic,
	})
}

func TestC10(t *testing.T) {
	pbt.Run(t, "C10", pbt.Part[history]{
		Name: "at-rest", Modes: "inst", Quick: 10000, Deep: 100000, Bubble: true, Leave: true,
		Rule: "as C09, with receivers registered (also under used names) and closed at any time and again, and the bus closed; ends of channels and everybody else's deliveries compared with the model; non-trivial: at least 3 events and 2 receivers",
		Gen:  genHistory(true), Run: runHistory,
	})
	pbt.Run(t, "C10", pbt.Part[traffic]{
		Name: "racing", Modes: "inst race", Quick: 1000, Deep: 30000, Bubble: true, Leave: true, Retry: 10,
		Rule: "senders, readers and 1..3 threads that open, close, reopen and abandon receivers under a seeded schedule (race-built: real threads), then the bus is closed: no panic, every reader ends, lasting receivers miss nothing; non-trivial: at least 3 events and 2 threads",
		Gen:  genTraffic(true), Run: runTraffic,
	})
}
