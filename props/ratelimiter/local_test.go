package ratelimiter

import (
	"math"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/ratelimiter"
	"pgregory.net/rapid"
)

const sec = int64(time.Second)

// burst issues n requests at once under a seeded schedule (or, race-built, on
// real threads) and returns how many were admitted within 5 ms.
func burst(l ratelimiter.Interface, n int, seed uint64, density int) int {
	var ok, done atomic.Int64
	run := func() {
		for i := 0; i < n; i++ {
			go func() {
				vsync.P()
				if l.Acquire() {
					ok.Add(1)
				}
				done.Add(1)
			}()
		}
		synctest.Wait()
		for i := 0; done.Load() < int64(n) && i < 100; i++ {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if pbt.Mode() == "race" {
		vsync.Stress(seed, density, run)
	} else {
		vsync.Explore(seed, density, run)
	}
	if done.Load() < int64(n) {
		time.Sleep(time.Hour)
		if done.Load() < int64(n) {
			panic("requests of a burst never returned")
		}
		return -1 // spread over too long a time to judge
	}
	return int(ok.Load())
}

func density(t *rapid.T) int { return rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density") }
func seed(t *rapid.T) uint64 { return rapid.Uint64Range(1, 1<<40).Draw(t, "seed") }

// ------------------------------------------------------------- fixed window

type fixedCase struct {
	Capacity int
	Window   int64
	Steps    []int64 // gap before each request; -k: up to k ns after the next window boundary (k-1 ns before it: see run)
	Kinds    []int
	Bulk     []int `json:",omitempty"` // requests at once before each step
}

// bulks generates how many requests come at once around a large capacity.
func bulks(t *rapid.T, capacity, n int) (b []int) {
	left := 3*capacity + 3
	for i := 0; i < n; i++ {
		k := 0
		switch rapid.IntRange(0, 5).Draw(t, "bulk") {
		case 0, 1:
			k = capacity + rapid.IntRange(-2, 2).Draw(t, "around")
		case 2:
			k = rapid.IntRange(0, capacity).Draw(t, "some")
		}
		k = min(k, left)
		left -= k
		b = append(b, k)
	}
	return
}

var large = []int{100, 127, 128, 129, 255, 256, 257, 1000, 4097, 32767, 32768, 65535, 65536, 65537, 70001}

func genLarge(t *rapid.T) int {
	if rapid.Bool().Draw(t, "odd") {
		return rapid.IntRange(20, 2000).Draw(t, "capacity")
	}
	return rapid.SampledFrom(large).Draw(t, "capacity")
}

func genWindow(t *rapid.T) int64 {
	switch rapid.IntRange(0, 5).Draw(t, "wkind") {
	case 0:
		return rapid.SampledFrom([]int64{1, 2, 3, 7, 10, 1000}).Draw(t, "tiny")
	case 1:
		return rapid.SampledFrom([]int64{sec, 60 * sec, 3600 * sec, 86400 * sec, 7 * 86400 * sec, 365 * 86400 * sec}).Draw(t, "round")
	case 2:
		return rapid.Int64Range(1, 3*sec).Draw(t, "small")
	}
	return rapid.Int64Range(1, 1<<rapid.IntRange(4, 54).Draw(t, "bits")).Draw(t, "any")
}

func genFixed(t *rapid.T) fixedCase {
	c := fixedCase{
		Capacity: rapid.SampledFrom([]int{-1, 0, 1, 1, 2, 3, 5, 10}).Draw(t, "capacity"),
		Window:   genWindow(t),
	}
	n := rapid.IntRange(1, 60).Draw(t, "n")
	budget := int64(80*365) * 86400 * sec
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 5}).Draw(t, "kind")
		g := int64(0)
		switch k {
		case 1: // anywhere
			g = rapid.Int64Range(0, c.Window*2).Draw(t, "gap")
		case 4: // several windows
			g = c.Window * rapid.Int64Range(1, 5).Draw(t, "windows")
		}
		if g > budget {
			g = 0
		}
		budget -= g + c.Window
		if budget < 0 {
			break
		}
		c.Steps = append(c.Steps, g)
		c.Kinds = append(c.Kinds, k)
	}
	if rapid.IntRange(0, 24).Draw(t, "large") == 0 {
		c.Capacity = genLarge(t)
		c.Steps, c.Kinds = c.Steps[:min(6, len(c.Steps))], c.Kinds[:min(6, len(c.Kinds))]
		c.Bulk = bulks(t, c.Capacity, len(c.Steps))
	}
	return c
}

// windowOf numbers the windows (k*w, (k+1)*w] of the Unix clock.
func windowOf(now, w int64) int64 { return (now - 1) / w }

func runFixed(c fixedCase) (o pbt.Outcome) {
	l := ratelimiter.NewSyncFixedWindow(c.Capacity, time.Duration(c.Window))
	if l.Capacity() != c.Capacity || l.WindowSize() != time.Duration(c.Window) {
		o.Fail("reported configuration: capacity %d window %v", l.Capacity(), l.WindowSize())
		return
	}
	cur, n, full, windows, edge := int64(-1), 0, 0, 0, 0
	for i, g := range c.Steps {
		now := time.Now().UnixNano()
		end := (windowOf(now, c.Window) + 1) * c.Window
		switch c.Kinds[i] {
		case 2: // last instant of this window
			g = end - now
			edge++
		case 3: // first instant of the next one
			g = end - now + 1
			edge++
		case 5:
			g = max(0, end-now-1)
			edge++
		}
		time.Sleep(time.Duration(g))
		now = time.Now().UnixNano()
		if w := windowOf(now, c.Window); w != cur {
			cur, n = w, 0
			windows++
		}
		if c.Bulk != nil {
			want, got := min(c.Bulk[i], c.Capacity-n), 0
			for k := 0; k < c.Bulk[i]; k++ {
				if l.Acquire() {
					got++
				}
			}
			if got != want {
				o.Fail("admission: %d requests at %d admitted %d, expected %d (capacity %d, %d of it used before)", c.Bulk[i], now, got, want, c.Capacity, n)
				return
			}
			n += got
		}
		want := n < c.Capacity
		if want {
			n++
		} else {
			full++
		}
		if got := l.Acquire(); got != want {
			o.Fail("admission: request %d at %d (window %d of size %d, %d of %d admitted before) got %v, expected %v", i, now, cur, c.Window, n, c.Capacity, got, want)
			return
		}
	}
	o.LabelIf(full > 0, "capacity exhausted")
	o.LabelIf(windows > 1, "several windows")
	o.LabelIf(edge > 0, "boundary instants")
	o.LabelIf(c.Capacity <= 0, "no capacity")
	o.LabelIf(c.Bulk != nil, "large capacity")
	o.Nontrivial = full > 0 && windows > 1
	return
}

type burstCase struct {
	Capacity int
	Window   int64 // or rate
	Atomic   bool
	Bursts   []int
	Skips    []int64 // windows (or tenths of windows) between bursts
	Seed     uint64
	Density  int
}

func genFixedBurst(t *rapid.T) burstCase {
	c := burstCase{
		Capacity: rapid.IntRange(1, 8).Draw(t, "capacity"),
		Window:   rapid.Int64Range(100*int64(time.Millisecond), 100*sec).Draw(t, "window"),
		Seed:     seed(t), Density: density(t),
	}
	n := rapid.IntRange(1, 5).Draw(t, "bursts")
	for i := 0; i < n; i++ {
		c.Bursts = append(c.Bursts, rapid.IntRange(1, 8).Draw(t, "size"))
		c.Skips = append(c.Skips, rapid.Int64Range(0, 3).Draw(t, "skip"))
	}
	return c
}

func runFixedBurst(c burstCase) (o pbt.Outcome) {
	l := ratelimiter.NewSyncFixedWindow(c.Capacity, time.Duration(c.Window))
	cur, n, full := int64(-1), 0, false
	for i, b := range c.Bursts {
		// to the first third of the next but Skips window, or stay
		if s := c.Skips[i]; i == 0 || s > 0 {
			now := time.Now().UnixNano()
			time.Sleep(time.Duration((windowOf(now, c.Window)+max(1, s))*c.Window + c.Window/3 - now))
		}
		w := windowOf(time.Now().UnixNano(), c.Window)
		if w != cur {
			cur, n = w, 0
		}
		want := min(b, c.Capacity-n)
		n += want
		full = full || want < b
		if got := burst(l, b, c.Seed+uint64(i), c.Density); got < 0 || windowOf(time.Now().UnixNano(), c.Window) != w {
			return // spread over too long a time to judge
		} else if got != want {
			o.Fail("admissions of a burst: burst %d of %d requests admitted %d, expected %d (capacity %d, window %d)", i, b, got, want, c.Capacity, c.Window)
			return
		}
	}
	o.LabelIf(full, "capacity exhausted")
	o.Nontrivial = full
	return
}

// ----------------------------------------------------------- sliding window

type slideStep struct {
	Gap      int64
	Update   bool `json:",omitempty"`
	Capacity int  `json:",omitempty"`
	Window   int64
	Bulk     int `json:",omitempty"` // requests at once before this one
}

type slideCase struct {
	Capacity int
	Window   int64
	Steps    []slideStep
}

func genSlide(t *rapid.T) slideCase {
	c := slideCase{
		Capacity: rapid.SampledFrom([]int{-2, 0, 1, 1, 2, 2, 3, 4, 6, 9}).Draw(t, "capacity"),
		Window:   min(genWindow(t), int64(30*365)*86400*sec/8),
	}
	if rapid.IntRange(0, 9).Draw(t, "zero") == 0 {
		c.Window = 0
	}
	w := c.Window
	reconf := rapid.Bool().Draw(t, "reconfigure")
	n := rapid.IntRange(1, 60).Draw(t, "n")
	budget := int64(80*365) * 86400 * sec
	for i := 0; i < n; i++ {
		var s slideStep
		switch rapid.IntRange(0, 9).Draw(t, "gapkind") {
		case 0, 1, 2, 3:
		case 4:
			s.Gap = w
		case 5:
			s.Gap = w + 1
		case 6:
			s.Gap = max(0, w-1)
		case 7:
			s.Gap = w / 2
		case 8:
			s.Gap = w / int64(max(1, c.Capacity))
		default:
			s.Gap = rapid.Int64Range(0, w+w/2+2).Draw(t, "gap")
		}
		if reconf && rapid.IntRange(0, 5).Draw(t, "update") == 0 {
			s.Update = true
			s.Capacity = rapid.SampledFrom([]int{-1, 0, 1, 2, 2, 3, 4, 6, 9}).Draw(t, "newcap")
			s.Window = w
			switch rapid.IntRange(0, 12).Draw(t, "newwin") {
			case 12:
				s.Window = 0
			case 0, 1, 2:
				s.Window = min(w*2+1, int64(30*365)*86400*sec/8)
			case 3, 4, 5:
				s.Window = w/2 + 1
			}
			w = s.Window
		}
		if budget -= s.Gap; budget < 0 {
			break
		}
		c.Steps = append(c.Steps, s)
	}
	if rapid.IntRange(0, 24).Draw(t, "large") == 0 {
		c.Capacity = genLarge(t)
		c.Steps = c.Steps[:min(6, len(c.Steps))]
		for i, b := range bulks(t, c.Capacity, len(c.Steps)) {
			s := &c.Steps[i]
			s.Bulk = b
			if s.Update {
				s.Capacity = max(0, c.Capacity+rapid.IntRange(-30, 30).Draw(t, "newcap"))
			}
		}
	}
	return c
}

func runSlide(c slideCase) (o pbt.Outcome) {
	l := ratelimiter.NewSyncSlidingWindow(c.Capacity, time.Duration(c.Window))
	capa, win := max(0, c.Capacity), c.Window
	var admitted []int64 // times, newest last, at most capa
	full, slid, upd := 0, 0, 0
	var prev bool
	for i, s := range c.Steps {
		time.Sleep(time.Duration(s.Gap))
		if s.Update {
			l.UpdateConfig(s.Capacity, time.Duration(s.Window))
			capa, win = max(0, s.Capacity), s.Window
			if len(admitted) > capa {
				admitted = admitted[len(admitted)-capa:]
			}
			upd++
		}
		if l.Capacity() != capa || l.WindowSize() != time.Duration(win) {
			o.Fail("reported configuration: step %d capacity %d window %v, configured %d %v", i, l.Capacity(), l.WindowSize(), capa, time.Duration(win))
			return
		}
		now := time.Now().UnixNano()
		in := 0
		for k := 0; k < len(admitted); k++ { // in the order of time
			if now-admitted[len(admitted)-1-k] > win {
				break
			}
			in++
		}
		admit := func() bool {
			if capa == 0 {
				return true
			}
			if in >= capa {
				full++
				return false
			}
			if in++; len(admitted) == capa {
				slid++
				admitted = admitted[1:]
			}
			admitted = append(admitted, now)
			return true
		}
		for k := 0; k < s.Bulk; k++ {
			if want, got := admit(), l.Acquire(); got != want {
				o.Fail("admission: request %d of %d at %d got %v, expected %v (capacity %d, window %d)", k, s.Bulk, now, got, want, capa, win)
				return
			}
		}
		want := admit()
		if got := l.Acquire(); got != want {
			o.Fail("admission: request %d at %d got %v, expected %v (capacity %d, window %d, admissions %v, previous rejected %v)", i, now, got, want, capa, win, admitted[max(0, len(admitted)-20):], prev)
			return
		}
		prev = !want
	}
	o.LabelIf(full > 0, "rejections")
	o.LabelIf(slid > 0, "oldest left the window")
	o.LabelIf(upd > 0, "reconfigured")
	o.LabelIf(c.Capacity <= 0, "unlimited at first")
	o.Nontrivial = full > 0 && slid > 0
	return
}

func genSlideBurst(t *rapid.T) burstCase {
	c := burstCase{
		Capacity: rapid.IntRange(1, 8).Draw(t, "capacity"),
		Window:   rapid.Int64Range(20, 1000).Draw(t, "window") * int64(time.Millisecond) * 10,
		Seed:     seed(t), Density: density(t),
	}
	n := rapid.IntRange(1, 6).Draw(t, "bursts")
	for i := 0; i < n; i++ {
		c.Bursts = append(c.Bursts, rapid.IntRange(1, 8).Draw(t, "size"))
		c.Skips = append(c.Skips, rapid.Int64Range(0, 12).Draw(t, "tenths"))
	}
	return c
}

// runSlideBurst: bursts lie on a grid of tenths of the window plus half a
// tenth, so that no burst ends exactly one window after another.
func runSlideBurst(c burstCase) (o pbt.Outcome) {
	l := ratelimiter.NewSyncSlidingWindow(c.Capacity, time.Duration(c.Window)+time.Duration(c.Window/20))
	type adm struct {
		at int64
		n  int
	}
	var hist []adm
	t, base := int64(0), time.Now()
	full := false
	for i, b := range c.Bursts {
		t += c.Skips[i]
		if d := time.Duration(t*c.Window/10) - time.Since(base); d > 0 {
			time.Sleep(d)
		}
		in := 0
		for _, h := range hist {
			if t-h.at <= 10 {
				in += h.n
			}
		}
		want := min(b, c.Capacity-in)
		hist = append(hist, adm{t, want})
		full = full || want < b
		if got := burst(l, b, c.Seed+uint64(i), c.Density); got < 0 || time.Since(base) >= time.Duration(t*c.Window/10+c.Window/20) {
			return // spread over too long a time to judge
		} else if got != want {
			o.Fail("admissions of a burst: burst %d of %d requests admitted %d, expected %d (capacity %d, history %v tenths of the window)", i, b, got, want, c.Capacity, hist)
			return
		}
		// a reconfiguration to the same values changes nothing
		if i%2 == 1 {
			l.UpdateConfig(l.Capacity(), l.WindowSize())
		}
	}
	o.LabelIf(full, "capacity exhausted")
	o.Nontrivial = full
	return
}

// slideRace: requests and reconfigurations at the same time.
type slideRace struct {
	Capacity int
	Fill     int // requests more than a window ago
	Recent   int // requests just before
	Threads  [][]slideOp
	Seed     uint64
	Density  int
}

type slideOp struct {
	Op       string // acquire, update, capacity
	Capacity int    `json:",omitempty"`
}

func genSlideRace(t *rapid.T) slideRace {
	capa := func() int { return rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 6}).Draw(t, "capacity") }
	c := slideRace{Capacity: capa(), Fill: rapid.IntRange(0, 6).Draw(t, "fill"), Recent: rapid.IntRange(0, 3).Draw(t, "recent"), Seed: seed(t), Density: density(t)}
	for i := rapid.IntRange(2, 4).Draw(t, "threads"); i > 0; i-- {
		var th []slideOp
		for j := rapid.IntRange(1, 4).Draw(t, "calls"); j > 0; j-- {
			op := slideOp{Op: rapid.SampledFrom([]string{"acquire", "acquire", "acquire", "update", "update", "capacity"}).Draw(t, "op")}
			if op.Op == "update" {
				op.Capacity = capa()
			}
			th = append(th, op)
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

func runSlideRace(c slideRace) (o pbt.Outcome) {
	const window = time.Hour
	l := ratelimiter.NewSyncSlidingWindow(c.Capacity, window)
	for range c.Fill {
		l.Acquire()
	}
	time.Sleep(window + 1)
	for range c.Recent {
		l.Acquire()
	}
	type state struct{ capacity, old, recent int }
	init := state{capacity: c.Capacity}
	if c.Capacity > 0 {
		init.old = min(c.Fill, c.Capacity)
		init.recent = min(c.Recent, c.Capacity)
		init.old = min(init.old, c.Capacity-init.recent)
	}
	var clk pbt.Clock
	var mu sync.Mutex
	var ops []pbt.Op
	var done atomic.Int64
	began := time.Now()
	run := func() {
		for _, th := range c.Threads {
			go func() {
				for _, op := range th {
					vsync.P()
					x := pbt.Op{Name: op.Op, Arg: op.Capacity, Call: clk.Tick()}
					switch op.Op {
					case "acquire":
						x.Out = l.Acquire()
					case "update":
						l.UpdateConfig(op.Capacity, window)
					case "capacity":
						x.Out = l.Capacity()
					}
					x.Ret = clk.Tick()
					mu.Lock()
					ops = append(ops, x)
					mu.Unlock()
				}
				done.Add(1)
			}()
		}
		synctest.Wait()
		for i := 0; done.Load() < int64(len(c.Threads)) && i < 1000; i++ {
			time.Sleep(50 * time.Microsecond)
		}
	}
	if pbt.Mode() == "race" {
		vsync.Stress(c.Seed, c.Density, run)
	} else {
		vsync.Explore(c.Seed, c.Density, run)
	}
	if done.Load() < int64(len(c.Threads)) {
		panic("calls never returned")
	}
	if time.Since(began) > time.Minute {
		return
	}
	// what is left is taken out, one after the other
	for range 8 {
		ops = append(ops, pbt.Op{Name: "acquire", Arg: 0, Call: clk.Tick(), Out: l.Acquire(), Ret: clk.Tick()})
	}
	refused, updates := 0, 0
	for _, op := range ops {
		if op.Out == false {
			refused++
		}
		if op.Name == "update" {
			updates++
		}
	}
	if !pbt.Linearizable(init, append([]pbt.Op(nil), ops...), func(s state, op pbt.Op) (state, bool) {
		switch op.Name {
		case "update":
			s.capacity = op.Arg.(int)
			s.recent = min(s.recent, s.capacity)
			s.old = min(s.old, s.capacity-s.recent)
			return s, true
		case "capacity":
			return s, op.Out == s.capacity
		}
		switch {
		case s.capacity == 0:
			return s, op.Out == true
		case s.old+s.recent < s.capacity:
			s.recent++
			return s, op.Out == true
		case s.old > 0:
			s.old--
			s.recent++
			return s, op.Out == true
		}
		return s, op.Out == false
	}) {
		o.Fail("racing calls: no order of them explains the answers (first %+v): %+v", init, ops)
		return
	}
	o.LabelIf(refused > 0, "rejections")
	o.Nontrivial = refused > 0 && updates > 1
	return
}

// ------------------------------------------------------------- token bucket

type bucketCase struct {
	Atomic   bool
	Capacity int
	Rate     int
	Gaps     []int64
	At       int64 `json:",omitempty"` // when the bucket is made, ns into a second
	Bulk     []int `json:",omitempty"` // requests at once before each request
}

func newBucket(atomic bool, capacity, rate int) ratelimiter.TokenBucket {
	if atomic {
		return ratelimiter.NewAtomicTokenBucket(capacity, rate)
	}
	return ratelimiter.NewSyncTokenBucket(capacity, rate)
}

func genBucket(t *rapid.T) bucketCase {
	c := bucketCase{
		Atomic:   rapid.Bool().Draw(t, "atomic"),
		Capacity: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8, 20}).Draw(t, "capacity"),
		Rate:     rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3, 5, 1000000000}).Draw(t, "rate"),
	}
	switch rapid.IntRange(0, 9).Draw(t, "extreme") {
	case 0: // as good as no limit
		c.Rate = rapid.SampledFrom([]int{math.MaxInt64, math.MaxInt64 / 2, math.MaxInt64/2 + 2, 1 << 62, math.MaxInt32, 1 << 40}).Draw(t, "rate")
	case 1:
		c.Capacity = rapid.SampledFrom([]int{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt32}).Draw(t, "capacity")
	}
	if rapid.Bool().Draw(t, "made within a second") {
		c.At = rapid.OneOf(rapid.Int64Range(1, sec-1), rapid.SampledFrom([]int64{1, sec / 2, sec - 1})).Draw(t, "made at")
	}
	n := rapid.IntRange(1, 80).Draw(t, "n")
	for i := 0; i < n; i++ {
		g := int64(0)
		switch rapid.IntRange(0, 11).Draw(t, "gapkind") {
		case 0:
			g = sec
		case 1:
			g = sec - 1
		case 2:
			g = 1
		case 3:
			g = rapid.Int64Range(0, 2*sec).Draw(t, "gap")
		case 4:
			g = rapid.Int64Range(0, 20).Draw(t, "idle")*sec + rapid.Int64Range(0, sec-1).Draw(t, "frac")
		case 5:
			g = rapid.SampledFrom([]int64{3600 * sec, 86400 * sec, 300*86400*sec + 17}).Draw(t, "long")
			if i > 20 {
				g = sec
			}
		case 6, 7:
			g = sec / 4
		}
		c.Gaps = append(c.Gaps, g)
	}
	if rapid.IntRange(0, 24).Draw(t, "large") == 0 {
		c.Capacity = genLarge(t)
		if rapid.Bool().Draw(t, "largeRate") {
			c.Rate = genLarge(t)
		}
		c.Gaps = c.Gaps[:min(6, len(c.Gaps))]
		c.Bulk = bulks(t, c.Capacity, len(c.Gaps))
	}
	return c
}

func runBucket(c bucketCase) (o pbt.Outcome) {
	time.Sleep(time.Duration(c.At))
	base := time.Now()
	l := newBucket(c.Atomic, c.Capacity, c.Rate)
	if l.Capacity() != c.Capacity {
		o.Fail("reported capacity: %d, configured %d", l.Capacity(), c.Capacity)
		return
	}
	tokens, seen := int64(c.Capacity), int64(0)
	empty, refilled, idle := 0, 0, 0
	for i, g := range c.Gaps {
		time.Sleep(time.Duration(g))
		s := int64(time.Since(base)) / sec
		if s > seen {
			if tokens == int64(c.Capacity) {
				idle++
			}
			before := tokens
			if room := int64(c.Capacity) - tokens; c.Rate > 0 && s-seen > room/int64(c.Rate) {
				tokens += room
			} else {
				tokens += (s - seen) * int64(c.Rate)
			}
			seen = s
			if tokens > before {
				refilled++
			}
		}
		if c.Bulk != nil {
			want, got := min(int64(c.Bulk[i]), tokens), int64(0)
			for k := 0; k < c.Bulk[i]; k++ {
				if l.Acquire() {
					got++
				}
			}
			if got != want {
				o.Fail("admission: %d requests at %v after creation admitted %d, expected %d (capacity %d, rate %d, tokens left %d)", c.Bulk[i], time.Since(base), got, want, c.Capacity, c.Rate, tokens)
				return
			}
			tokens -= got
		}
		want := tokens > 0
		if want {
			tokens--
		} else {
			empty++
		}
		if got := l.Acquire(); got != want {
			o.Fail("admission: request %d at %v after creation got %v, expected %v (capacity %d, rate %d, tokens left %d)", i, time.Since(base), got, want, c.Capacity, c.Rate, tokens)
			return
		}
	}
	o.LabelIf(c.Atomic, "atomic")
	o.LabelIf(!c.Atomic, "locked")
	o.LabelIf(empty > 0, "bucket empty")
	o.LabelIf(refilled > 0, "refilled")
	o.LabelIf(idle > 0, "idle while full")
	o.LabelIf(c.Bulk != nil, "large capacity")
	o.Nontrivial = empty > 0 && refilled > 0
	return
}

type tokenBurst struct {
	Atomic   bool
	Capacity int
	Rate     int
	Bursts   []int
	Skips    []int64 // whole seconds before the burst
	Drain    []bool
	Seed     uint64
	Density  int
}

func genTokenBurst(t *rapid.T) tokenBurst {
	c := tokenBurst{
		Atomic:   rapid.IntRange(0, 2).Draw(t, "atomic") > 0,
		Capacity: rapid.IntRange(1, 8).Draw(t, "capacity"),
		Rate:     rapid.IntRange(1, 4).Draw(t, "rate"),
		Seed:     seed(t), Density: density(t),
	}
	n := rapid.IntRange(1, 6).Draw(t, "bursts")
	for i := 0; i < n; i++ {
		c.Bursts = append(c.Bursts, rapid.IntRange(1, 8).Draw(t, "size"))
		c.Skips = append(c.Skips, rapid.SampledFrom([]int64{0, 1, 1, 1, 2, 3, 10}).Draw(t, "skip"))
		c.Drain = append(c.Drain, rapid.IntRange(0, 2).Draw(t, "drain") > 0)
	}
	return c
}

// runTokenBurst keeps the interval of token counts that some order of refill
// and requests allows.
func runTokenBurst(c tokenBurst) (o pbt.Outcome) {
	base := time.Now()
	l := newBucket(c.Atomic, c.Capacity, c.Rate)
	lo, hi := c.Capacity, c.Capacity
	at := int64(0)
	full := false
	for i, n := range c.Bursts {
		at += c.Skips[i]
		if d := time.Duration(at*sec+sec/2) - time.Since(base); d > 0 {
			time.Sleep(d)
		}
		got := burst(l, n, c.Seed+uint64(i), c.Density)
		if got < 0 {
			return
		}
		add := int(c.Skips[i]) * c.Rate
		// requests may be served before or after the refill: n tokens taken
		// before it leave room for n more
		tlo := min(c.Capacity, lo+add)
		thi := min(hi+add, c.Capacity+n)
		if add == 0 {
			thi = hi
		}
		if !c.Atomic { // the lock orders the refill first
			thi = min(c.Capacity, hi+add)
			if w := min(n, tlo); tlo == thi && got != w {
				o.Fail("admissions of a burst: burst %d of %d admitted %d of %d tokens", i, n, got, tlo)
				return
			}
		}
		if got > min(n, thi) {
			o.Fail("admissions of a burst: burst %d of %d requests admitted %d, at most %d tokens were there (capacity %d, rate %d)", i, n, got, thi, c.Capacity, c.Rate)
			return
		}
		if got < min(n, lo) {
			o.Fail("admissions of a burst: burst %d of %d requests admitted %d, %d tokens were there all the time", i, n, got, lo)
			return
		}
		full = full || got < n
		lo, hi = max(0, tlo-got), min(c.Capacity, thi-got)
		if c.Drain[i] || i == len(c.Bursts)-1 {
			left := 0
			for l.Acquire() {
				if left++; left > 1000 {
					o.Fail("tokens at rest: more than 1000 left, at most %d expected", hi)
					return
				}
			}
			if left < lo || left > hi {
				o.Fail("tokens at rest: after burst %d %d left, expected %d..%d (capacity %d, rate %d, admitted %d)", i, left, lo, hi, c.Capacity, c.Rate, got)
				return
			}
			lo, hi = 0, 0
		}
	}
	o.LabelIf(c.Atomic, "atomic")
	o.LabelIf(!c.Atomic, "locked")
	o.LabelIf(full, "bucket emptied")
	o.Nontrivial = full && len(c.Bursts) > 1
	return
}

func TestC04(t *testing.T) {
	pbt.Run(t, "C04", pbt.Part[fixedCase]{
		Name: "history", Modes: "inst", Quick: 12000, Deep: 400000, Bubble: true,
		Rule: "up to 60 requests at generated times of the Unix clock, many at the last or first instant of a window, windows of 1 ns to a year; each answer compared with the window model; non-trivial: a window was exhausted and a later one was entered",
		Gen:  genFixed, Run: runFixed,
	})
	pbt.Run(t, "C04", pbt.Part[burstCase]{
		Name: "bursts", Modes: "inst race", Quick: 3000, Deep: 60000, Bubble: true, Retry: 10,
		Rule: "bursts of up to 8 concurrent requests inside windows under a seeded schedule (race-built: real threads), admissions counted exactly; non-trivial: capacity was exhausted",
		Gen:  genFixedBurst, Run: runFixedBurst,
	})
}

func TestC05(t *testing.T) {
	pbt.Run(t, "C05", pbt.Part[slideCase]{
		Name: "history", Modes: "inst", Quick: 12000, Deep: 400000, Bubble: true,
		Rule: "up to 60 requests at gaps around the window length, with run-time reconfiguration, each answer compared with the list of admission times; non-trivial: a request was rejected and one was admitted because the oldest had left the window",
		Gen:  genSlide, Run: runSlide,
	})
	pbt.Run(t, "C05", pbt.Part[burstCase]{
		Name: "bursts", Modes: "inst race", Quick: 3000, Deep: 60000, Bubble: true, Retry: 10,
		Rule: "bursts of concurrent requests under a seeded schedule (race-built: real threads), admissions counted exactly; non-trivial: capacity was exhausted",
		Gen:  genSlideBurst, Run: runSlideBurst,
	})
	pbt.Run(t, "C05", pbt.Part[slideRace]{
		Name: "racing", Modes: "inst race", Quick: 4000, Deep: 100000, Bubble: true, Retry: 10,
		Rule: "two to four threads with up to four calls each, requests, changes of the capacity (also to and from unlimited) and its getter, under a seeded schedule (race-built: real threads), with requests of an earlier window left; some order of the calls must explain all answers and what is left; non-trivial: a request was rejected and the capacity changed twice",
		Gen:  genSlideRace, Run: runSlideRace,
	})
}

func TestC06(t *testing.T) {
	pbt.Run(t, "C06", pbt.Part[bucketCase]{
		Name: "history", Modes: "inst", Quick: 12000, Deep: 400000, Bubble: true,
		Rule: "up to 80 requests at gaps of fractions and multiples of a second and long idle times on either bucket, each answer compared with the whole-second token model; non-trivial: the bucket was empty once and refilled once",
		Gen:  genBucket, Run: runBucket,
	})
	pbt.Run(t, "C06", pbt.Part[tokenBurst]{
		Name: "bursts", Modes: "inst race", Quick: 3000, Deep: 60000, Bubble: true, Retry: 10,
		Rule: "bursts of concurrent requests around refills under a seeded schedule (race-built: real threads); admissions and tokens left stay within what some order allows; non-trivial: the bucket was emptied in one of several bursts",
		Gen:  genTokenBurst, Run: runTokenBurst,
	})
}
