package confstore

import (
	"fmt"
	"strconv"
	"sync"
	"testing"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/confstore"
	"pgregory.net/rapid"
)

type readStep struct {
	Gap time.Duration
	Op  string
}

type loadPlan struct {
	Slow time.Duration `json:",omitempty"`
	Fail bool          `json:",omitempty"`
}

type reading struct {
	Policy  string        // simple, noop, interval
	Min     time.Duration // interval
	Threads [][]readStep
	Loads   []loadPlan // how the loads turn out, one after the other; then all succeed at once
	Seed    uint64
	Density int
}

var readOps = []string{"get", "get", "str", "must", "muststr", "batch", "batchstr", "direct"}

func genReading(threads bool) func(t *rapid.T) reading {
	return func(t *rapid.T) reading {
		r := reading{
			Policy:  rapid.SampledFrom([]string{"interval", "interval", "interval", "interval", "simple", "noop"}).Draw(t, "policy"),
			Seed:    rapid.Uint64Range(1, 1<<40).Draw(t, "seed"),
			Density: rapid.SampledFrom([]int{16, 8, 3}).Draw(t, "density"),
		}
		unit := rapid.SampledFrom([]time.Duration{1, time.Microsecond, time.Millisecond, time.Second, time.Hour}).Draw(t, "unit")
		if r.Policy == "interval" {
			r.Min = rapid.SampledFrom([]time.Duration{unit, 3 * unit, 3 * unit, 7*unit + 1, 0, -unit}).Draw(t, "min")
		}
		gap := func(name string) time.Duration {
			return rapid.SampledFrom([]time.Duration{0, 0, 1, unit / 2, unit, r.Min - 1, r.Min, r.Min + 1, r.Min / 2, 2 * r.Min, 5 * r.Min}).Draw(t, name)
		}
		n, most := 1, 14
		if threads {
			n, most = rapid.IntRange(2, 4).Draw(t, "threads"), 5
		}
		for i := 0; i < n; i++ {
			var th []readStep
			for j := rapid.IntRange(1, most).Draw(t, "reads"); j > 0; j-- {
				th = append(th, readStep{Gap: max(0, gap("gap")), Op: rapid.SampledFrom(readOps).Draw(t, "op")})
			}
			r.Threads = append(r.Threads, th)
		}
		for j := rapid.IntRange(0, 8).Draw(t, "loads"); j > 0; j-- {
			l := loadPlan{Fail: rapid.IntRange(0, 2).Draw(t, "fail") == 0}
			if rapid.Bool().Draw(t, "slow") {
				l.Slow = max(0, gap("slowness"))
			}
			r.Loads = append(r.Loads, l)
		}
		return r
	}
}

// event of a read or a load; ticks order what happens at the same instant.
type loadEv struct {
	start, end         int64
	startTime, endTime time.Duration
	fail               bool
	settled            time.Duration // the policy returned: it knows of the load
}

// watched is a policy that notes which loads it had made when it returned.
type watched struct {
	confstore.LoadPolicy
	p *tracker
}

type watchedLoad struct {
	*tracker
	mine []*loadEv
}

func (w *watchedLoad) Load(s confstore.Interface) error {
	ev, err := w.load(s)
	w.mine = append(w.mine, ev)
	return err
}

func (w watched) DoLoad(s confstore.Interface, _ confstore.Persister) error {
	p := &watchedLoad{tracker: w.p}
	err := w.LoadPolicy.DoLoad(s, p)
	for _, ev := range p.mine {
		ev.settled = w.p.now()
	}
	return err
}

type readEv struct {
	op        string
	call, ret int64
	callTime  time.Duration
	values    []string
	err       error
}

// tracker is a persistence layer whose n-th load brings the value n.
type tracker struct {
	memory
	mu    sync.Mutex
	clk   pbt.Clock
	begin time.Time
	plan  []loadPlan
	loads []*loadEv
}

func (p *tracker) now() time.Duration { return time.Since(p.begin) }

func (p *tracker) load(s confstore.Interface) (*loadEv, error) {
	p.mu.Lock()
	ev := &loadEv{start: p.clk.Tick(), startTime: p.now(), settled: 1 << 62}
	p.loads = append(p.loads, ev)
	n := len(p.loads)
	var plan loadPlan
	if n <= len(p.plan) {
		plan = p.plan[n-1]
	}
	p.mu.Unlock()
	vsync.P()
	if plan.Slow > 0 {
		time.Sleep(plan.Slow)
	}
	vsync.P()
	if !plan.Fail {
		s.UpdateNoPersist("a", strconv.Itoa(n))
		s.UpdateNoPersist("b", strconv.Itoa(n))
		vsync.P()
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	ev.end, ev.endTime, ev.fail = p.clk.Tick(), p.now(), plan.Fail
	if plan.Fail {
		return ev, errPersist
	}
	return ev, nil
}

func runReading(r reading) (o pbt.Outcome) {
	p := &tracker{plan: r.Loads, begin: time.Now()}
	var policy confstore.LoadPolicy
	switch r.Policy {
	case "noop":
		policy = confstore.NoopLoadPolicy
	case "simple":
		policy = confstore.SimpleLoadPolicy
		if r.Seed%2 == 0 {
			policy = confstore.NewSimpleLoadPolicy()
		}
	default:
		policy = confstore.NewLoadPolicy(r.Min)
	}
	policy = watched{policy, p}
	s := confstore.NewStore(p, policy)
	for _, k := range []string{"a", "b"} {
		if err := s.RegisterKey(k, "0", confstore.Int); err != nil {
			o.Fail("registering: %v", err)
			return
		}
	}
	var mu sync.Mutex
	var reads []readEv
	read := func(op string) {
		ev := readEv{op: op, call: p.clk.Tick(), callTime: p.now()}
		add := func(v any) { ev.values = append(ev.values, fmt.Sprint(v)) }
		switch op {
		case "get":
			v, _ := s.GetValue("a")
			add(v)
		case "str":
			v, _ := s.GetValueString("a")
			add(v)
		case "must":
			add(s.MustGetValue("a"))
		case "muststr":
			add(s.MustGetValueString("b"))
		case "batch":
			for _, kv := range s.BatchGetValues([]string{"b", "a"}) {
				add(kv.Value)
			}
		case "batchstr":
			for _, kv := range s.BatchGetValueString([]string{"a", "b"}) {
				add(kv.Value)
			}
		case "direct":
			ev.err = policy.DoLoad(s, p)
		}
		ev.ret = p.clk.Tick()
		mu.Lock()
		reads = append(reads, ev)
		mu.Unlock()
	}
	play := func(th []readStep) {
		for _, st := range th {
			time.Sleep(st.Gap)
			vsync.P()
			read(st.Op)
		}
	}
	if len(r.Threads) == 1 {
		play(r.Threads[0])
	} else {
		vsync.Explore(r.Seed, r.Density, func() {
			var wg sync.WaitGroup
			for _, th := range r.Threads {
				wg.Add(1)
				go func() { defer wg.Done(); play(th) }()
			}
			wg.Wait()
		})
	}

	if err := checkReading(r, p, reads); err != nil {
		o.Fail("%v", err)
	}
	ok, failed, skipped := 0, 0, 0
	for _, l := range p.loads {
		if l.fail {
			failed++
		} else {
			ok++
		}
	}
	for i := range reads {
		own := false
		for _, l := range p.loads {
			own = own || l.start > reads[i].call && l.start < reads[i].ret
		}
		if !own {
			skipped++
		}
	}
	o.LabelIf(failed > 0, "failed loads")
	o.LabelIf(skipped > 0, "reads without a load")
	o.Label(r.Policy)
	o.Nontrivial = r.Policy == "interval" && r.Min > 0 && ok > 1 && skipped > 0
	return
}

func checkReading(r reading, p *tracker, reads []readEv) error {
	always := r.Policy == "simple" || r.Policy == "interval" && r.Min <= 0
	for i, l := range p.loads {
		if l.end == 0 {
			return fmt.Errorf("load never ended")
		}
		if r.Policy == "noop" {
			return fmt.Errorf("loaded in spite of the policy: %+v", *l)
		}
		if always {
			continue
		}
		for _, e := range p.loads[:i] {
			if e.end > l.start {
				return fmt.Errorf("two reloads at the same time: %+v and %+v", *e, *l)
			}
			if !e.fail && l.startTime-e.endTime < r.Min {
				return fmt.Errorf("reloaded too early: min interval %v, loaded until %v, again at %v", r.Min, e.endTime, l.startTime)
			}
		}
	}
	for _, ev := range reads {
		// what it found when called, and what it may have found until its return
		due, before := true, 0
		var shared *loadEv // the first load that ended meanwhile
		sharedN, latest := 0, 0
		fresh := false
		for i, l := range p.loads {
			if l.end < ev.call && !l.fail {
				if ev.callTime-l.settled < r.Min {
					due = false
				}
				before = max(before, i+1)
			}
			if l.end > ev.call && l.end < ev.ret {
				if shared == nil || l.end < shared.end {
					shared, sharedN = l, i+1
				}
				fresh = fresh || l.start > ev.call
			}
			if l.start < ev.ret && !l.fail {
				latest = i + 1
			}
		}
		what := fmt.Sprintf("%s called at %v, min interval %v, loads %s", ev.op, ev.callTime, r.Min, show(p.loads))
		switch {
		case always && !fresh:
			return fmt.Errorf("no reload: %s", what)
		case r.Policy == "interval" && !always && due && shared == nil:
			return fmt.Errorf("no reload: %s", what)
		}
		if ev.op == "direct" {
			if len(r.Threads) == 1 {
				failed := shared != nil && shared.fail // it makes one load at most
				if failed != (ev.err != nil) {
					return fmt.Errorf("answer of a load: %v; %s", ev.err, what)
				}
			}
			continue
		}
		want := 1
		if ev.op == "batch" || ev.op == "batchstr" {
			want = 2
		}
		if len(ev.values) != want {
			return fmt.Errorf("values missing: %v; %s", ev.values, what)
		}
		low := before
		if (due || always) && shared != nil && !shared.fail {
			low = sharedN
		}
		if len(r.Threads) == 1 && want == 1 {
			low = latest // no schedule points: all loads precede taking the value
		}
		for _, v := range ev.values {
			n, err := strconv.Atoi(v)
			if err != nil || n < 0 || n > len(p.loads) {
				return fmt.Errorf("value unknown: %q; %s", v, what)
			}
			if n > 0 && p.loads[n-1].fail {
				return fmt.Errorf("value of a failed load: %q; %s", v, what)
			}
			if always && len(r.Threads) > 1 {
				continue // overlapping loads may end in any order
			}
			if n < low || n > latest {
				return fmt.Errorf("value not fresh: %d, expected %d to %d; %s", n, low, latest, what)
			}
		}
	}
	return nil
}

func show(ls []*loadEv) string {
	s := ""
	for _, l := range ls {
		s += fmt.Sprintf("[%v-%v failed:%v]", l.startTime, l.endTime, l.fail)
	}
	return s
}

func TestC21(t *testing.T) {
	pbt.Run(t, "C21", pbt.Part[reading]{
		Name: "timeline", Modes: "inst", Quick: 4000, Deep: 150000, Bubble: true,
		Rule: "up to 14 reads (every read call, or the policy itself) at gaps around the minimum interval on a fake clock, with loads that take time or fail; loads are counted and each brings its number as the value; non-trivial: interval policy, two successful loads and a read without one",
		Gen:  genReading(false), Run: runReading,
	})
	pbt.Run(t, "C21", pbt.Part[reading]{
		Name: "concurrent", Modes: "inst", Quick: 4000, Deep: 150000, Bubble: true,
		Rule: "as timeline, with 2-4 threads under seeded schedules; a read called when a reload is due must return after one ended, and loads never overlap or come early; non-trivial: as timeline",
		Gen:  genReading(true), Run: runReading,
	})
}
