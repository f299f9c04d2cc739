package schedule

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/schedule"
	"pgregory.net/rapid"
)

// recTask is a task that only records what is done to it.
type recTask struct {
	name             string
	failStart        bool // its start always fails
	failStop         bool // its stop reports an error
	mu               sync.Mutex
	starts, stops    int
	misused          int
	started, stopped bool
	live             *liveness // of its name
}

// liveness counts the running tasks of one name.
type liveness struct {
	mu        sync.Mutex
	now, most int
}

func (l *liveness) add(d int) {
	if l == nil {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	l.now += d
	l.most = max(l.most, l.now)
}

func (r *recTask) Name() string { return r.name }

func (r *recTask) Start() error {
	vsync.P()
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.failStart {
		return errors.New("cannot start")
	}
	if r.started {
		r.misused++
		return errors.New("started before")
	}
	r.started = true
	r.starts++
	r.live.add(1)
	return nil
}

func (r *recTask) Stop() error {
	vsync.P()
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.started || r.stopped {
		r.misused++
		return errors.New("not running")
	}
	r.stopped = true
	r.stops++
	r.live.add(-1)
	if r.failStop {
		return errors.New("stopped with an error")
	}
	return nil
}

func (r *recTask) MustStart() {
	if err := r.Start(); err != nil {
		panic(err)
	}
}

func (r *recTask) MustStop() {
	if err := r.Stop(); err != nil {
		panic(err)
	}
}

func (r *recTask) state() (running bool, starts, stops, misused int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.started && !r.stopped, r.starts, r.stops, r.misused
}

// register reports "ok", "taken" (refused with an error) or "panic".
func register(m schedule.TaskManager, t schedule.Task) (out string) {
	defer func() {
		if recover() != nil {
			out = "panic"
		}
	}()
	if m.Register(t) != nil {
		return "refused"
	}
	return "ok"
}

type mop struct {
	Op   string // register unregister all reregister
	Name int    `json:",omitempty"`
	Fail string `json:",omitempty"` // start, stop
	Old  int    `json:",omitempty"` // reregister: which task
}

func genMop(t *rapid.T) mop {
	m := mop{Op: rapid.SampledFrom([]string{"register", "register", "register", "unregister", "unregister", "all", "again"}).Draw(t, "op"), Name: rapid.IntRange(0, 3).Draw(t, "name")}
	switch m.Op {
	case "register":
		m.Fail = rapid.SampledFrom([]string{"", "", "", "start", "stop"}).Draw(t, "fail")
	case "again":
		m.Old = rapid.IntRange(0, 20).Draw(t, "old")
	}
	return m
}

type mhistory struct {
	Ops   []mop
	Names int `json:",omitempty"`
}

// taskNames are the names tasks have: plain ones, and ones that look alike.
var taskNames = [][4]string{{"task0", "task1", "task2", "task3"}, {"task", "task1", "task12", "ask"}, {"a", "A", "a ", " a"},
	{"-", "_", "x", "\x00"}, {"任务", "任", "任务2", "務"}, {"a/b", "a.b", "a/b/c", "b"}, {"nightly report", "nightly-report", "Nightly Report", "nightly"}}

func genMhistory(t *rapid.T) mhistory {
	return mhistory{rapid.SliceOfN(rapid.Custom(genMop), 1, 40).Draw(t, "ops"), rapid.IntRange(0, len(taskNames)-1).Draw(t, "names")}
}

func runMhistory(h mhistory) (o pbt.Outcome) {
	m := schedule.NewTaskManager()
	var tasks []*recTask
	model := map[string]*recTask{}
	want := map[*recTask][2]int{} // starts, stops
	refused, failed, freed := 0, 0, 0
	for i, op := range h.Ops {
		name := taskNames[h.Names][op.Name]
		switch op.Op {
		case "register", "again":
			t := &recTask{name: name, failStart: op.Fail == "start", failStop: op.Fail == "stop"}
			if op.Op == "again" {
				if len(tasks) == 0 {
					continue
				}
				t = tasks[op.Old%len(tasks)]
				name = t.name
			} else {
				tasks = append(tasks, t)
			}
			_, taken := model[name]
			ok := !taken && !t.failStart && want[t][0] == 0
			var out string
			if !within(func() { out = register(m, t) }) {
				o.Fail("stuck registering: step %d %+v", i, op)
				return
			}
			switch {
			case taken && out != "refused":
				o.Fail("taken name: step %d %+v: %s", i, op, out)
			case !taken && ok != (out == "ok"):
				o.Fail("registering: step %d %+v: %s", i, op, out)
			}
			if ok {
				model[name] = t
				want[t] = [2]int{1, 0}
			} else if taken {
				refused++
			} else {
				failed++
			}
		case "unregister":
			if !within(func() { m.Unregister(name) }) {
				o.Fail("stuck unregistering: step %d %+v", i, op)
				return
			}
			if t := model[name]; t != nil {
				want[t] = [2]int{1, 1}
				delete(model, name)
				freed++
			}
		case "all":
			if !within(m.UnregisterAll) {
				o.Fail("stuck unregistering all: step %d", i)
				return
			}
			for n, t := range model {
				want[t] = [2]int{1, 1}
				delete(model, n)
				freed++
			}
		}
		for k, t := range tasks {
			_, a, b, _ := t.state()
			if w := want[t]; a != w[0] || b != w[1] {
				o.Fail("starts and stops: after step %d %+v task #%d %q was started %d and stopped %d times, expected %d and %d", i, op, k, t.name, a, b, w[0], w[1])
			}
		}
		if o.Err != nil {
			return
		}
	}
	o.LabelIf(refused > 0, "taken names")
	o.LabelIf(failed > 0, "failing starts")
	o.LabelIf(freed > 0, "freed names")
	o.Nontrivial = freed > 0 && refused+failed > 0
	return
}

// ------------------------------------------------------------- concurrent

type mrace struct {
	Threads [][]mop
	Seed    uint64
	Density int
}

func genMrace(t *rapid.T) mrace {
	c := mrace{Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed"), Density: rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density")}
	for i := rapid.IntRange(2, 4).Draw(t, "threads"); i > 0; i-- {
		var th []mop
		for j := rapid.IntRange(1, 4).Draw(t, "calls"); j > 0; j-- {
			th = append(th, mop{Op: rapid.SampledFrom([]string{"register", "register", "register", "unregister", "all"}).Draw(t, "op"),
				Name: rapid.IntRange(0, 1).Draw(t, "name"), Fail: rapid.SampledFrom([]string{"", "", "", "start"}).Draw(t, "fail")})
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

// mstate is the registered task of each name (index+1), and how often each
// task was stopped.
type mstate struct {
	Reg   [2]int
	Stops string // sorted list of stopped tasks
}

func runMrace(c mrace) (o pbt.Outcome) {
	m := schedule.NewTaskManager()
	var clock pbt.Clock
	var mu sync.Mutex
	var ops []pbt.Op
	var tasks []*recTask
	type arg struct {
		task int // index+1
		name int
		fail bool
	}
	var panicked atomic.Value
	var live [2]liveness
	do := func(op mop, t *recTask, k int) {
		vsync.P()
		r := pbt.Op{Name: op.Op, Arg: arg{k, op.Name, op.Fail == "start"}, Call: clock.Tick()}
		switch op.Op {
		case "register":
			r.Out = register(m, t)
		case "unregister":
			m.Unregister(t.name)
		case "all":
			m.UnregisterAll()
		}
		r.Ret = clock.Tick()
		mu.Lock()
		ops = append(ops, r)
		mu.Unlock()
	}
	explore := func() {
		var wg sync.WaitGroup
		for _, th := range c.Threads {
			ts := make([]*recTask, len(th))
			ks := make([]int, len(th))
			for j, op := range th {
				ts[j] = &recTask{name: fmt.Sprint("task", op.Name), failStart: op.Fail == "start", live: &live[op.Name]}
				tasks = append(tasks, ts[j])
				ks[j] = len(tasks)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if v := recover(); v != nil {
						panicked.Store(fmt.Sprint(v))
					}
				}()
				for j, op := range th {
					do(op, ts[j], ks[j])
				}
			}()
		}
		wg.Wait()
	}
	if pbt.Mode() == "race" {
		vsync.Stress(c.Seed, c.Density, explore)
	} else {
		vsync.Explore(c.Seed, c.Density, explore)
	}
	if v := panicked.Load(); v != nil {
		o.Fail("panic: %v", v)
		return
	}
	for n := range live {
		if live[n].most > 1 {
			o.Fail("two running tasks: %d at once under the name task%d", live[n].most, n)
			return
		}
	}
	// what is registered now: the running task of each name; probes confirm
	var final mstate
	var stops []int
	for i, t := range tasks {
		running, a, b, mis := t.state()
		if a > 1 || b > a || mis > 0 {
			o.Fail("starts and stops: task #%d was started %d and stopped %d times, %d calls misused", i, a, b, mis)
			return
		}
		if b > 0 {
			stops = append(stops, i+1)
		}
		if running {
			n := int(t.name[4] - '0')
			if final.Reg[n] != 0 {
				o.Fail("two running tasks: %q has #%d and #%d", t.name, final.Reg[n]-1, i)
				return
			}
			final.Reg[n] = i + 1
		}
	}
	final.Stops = fmt.Sprint(stops)
	for n := range final.Reg {
		t := &recTask{name: fmt.Sprint("task", n)}
		if out := register(m, t); (out == "ok") != (final.Reg[n] == 0) {
			o.Fail("name and task disagree: registering %q now gives %s, its running task is #%d", t.name, out, final.Reg[n]-1)
			return
		}
	}
	now := clock.Tick()
	ops = append(ops, pbt.Op{Name: "final", Out: final, Call: now, Ret: clock.Tick()})
	type st struct {
		reg   [2]int
		stops string
		list  []int
	}
	stop := func(s st, k int) st {
		l := append(append([]int(nil), s.list...), k)
		sort.Ints(l)
		return st{s.reg, fmt.Sprint(l), l}
	}
	if !pbt.Linearizable(st{stops: "[]"}, ops, func(s st, op pbt.Op) (st, bool) {
		switch op.Name {
		case "final":
			return s, mstate{s.reg, s.stops} == op.Out.(mstate)
		case "register":
			a := op.Arg.(arg)
			switch {
			case s.reg[a.name] != 0:
				return s, op.Out == "refused"
			case a.fail:
				return s, op.Out != "ok"
			default:
				s.reg[a.name] = a.task
				return s, op.Out == "ok"
			}
		case "unregister":
			a := op.Arg.(arg)
			if k := s.reg[a.name]; k != 0 {
				s = stop(s, k)
				s.reg[a.name] = 0
			}
		case "all":
			for n, k := range s.reg {
				if k != 0 {
					s = stop(s, k)
					s.reg[n] = 0
				}
			}
		}
		return s, true
	}) {
		o.Fail("answers: no order of the calls explains them and the tasks now running: %+v", ops)
		return
	}
	o.LabelIf(len(stops) > 0, "stopped some")
	o.Nontrivial = len(ops) > 4
	return
}

// ------------------------------------------------------------- real tasks

type mreal struct {
	Steps []mstep
	Names int `json:",omitempty"`
}

type mstep struct {
	Gap  time.Duration
	Op   mop
	Rate bool          `json:",omitempty"`
	Dur  time.Duration `json:",omitempty"` // of a run, whatever it is told
	Self int           `json:",omitempty"` // the run that unregisters its own task
}

func genMreal(t *rapid.T) mreal {
	c := mreal{Names: rapid.IntRange(0, len(taskNames)-1).Draw(t, "names")}
	for i := rapid.IntRange(2, 14).Draw(t, "steps"); i > 0; i-- {
		op := genMop(t)
		op.Fail = ""
		c.Steps = append(c.Steps, mstep{
			Gap: time.Duration(rapid.IntRange(0, 5).Draw(t, "gap"))*10*time.Millisecond + time.Duration(rapid.IntRange(1, 5).Draw(t, "ms"))*time.Millisecond,
			Op:  op, Rate: rapid.Bool().Draw(t, "rate"),
			Dur:  time.Duration(rapid.SampledFrom([]int{0, 0, 0, 1, 7, 25, 200}).Draw(t, "dur")) * time.Millisecond,
			Self: max(0, rapid.IntRange(-4, 3).Draw(t, "self"))})
	}
	return c
}

// runMreal manages real tasks, which run instantly every 10 ms while (and only
// while) they are registered.
func runMreal(c mreal) (o pbt.Outcome) {
	m := schedule.NewTaskManager()
	begin := time.Now()
	type owned struct {
		task     schedule.Task
		name     string
		runs     []time.Duration
		from, to time.Duration
		period   time.Duration
	}
	var mu sync.Mutex
	var all []*owned
	model := map[string]*owned{}
	busy, left := 0, 0
	for i, s := range c.Steps {
		time.Sleep(s.Gap)
		mu.Lock()
		now := time.Since(begin)
		name := taskNames[c.Names][s.Op.Name]
		switch s.Op.Op {
		case "register", "again":
			w := &owned{name: name, from: -1, to: -1}
			if s.Op.Op == "again" {
				if len(all) == 0 {
					mu.Unlock()
					continue
				}
				w = all[s.Op.Old%len(all)]
				name = w.name
			} else {
				kind := "delay"
				w.period = 10*time.Millisecond + s.Dur
				if s.Rate {
					kind = "rate"
					w.period = 10 * time.Millisecond
				}
				w.task = newTask(kind, name, func(<-chan struct{}) error {
					mu.Lock()
					w.runs = append(w.runs, time.Since(begin))
					if len(w.runs) == s.Self && model[name] == w {
						m.Unregister(name)
						w.to = time.Since(begin)
						delete(model, name)
						left++
					}
					mu.Unlock()
					time.Sleep(s.Dur)
					return nil
				}, 10*time.Millisecond, time.Second)
				all = append(all, w)
			}
			ok := model[name] == nil && w.from < 0
			if out := register(m, w.task); ok != (out == "ok") {
				o.Fail("registering: step %d %+v: %s", i, s, out)
			}
			if ok {
				w.from = now
				model[name] = w
			} else {
				busy++
			}
		case "unregister":
			m.Unregister(name)
			if w := model[name]; w != nil {
				w.to = now
				delete(model, name)
			}
		case "all":
			m.UnregisterAll()
			for n, w := range model {
				w.to = now
				delete(model, n)
			}
		}
		if took := time.Since(begin) - now; took > time.Millisecond {
			o.Fail("time of a call: step %d %+v took %v, it waited for a run", i, s, took)
		}
		mu.Unlock()
		if o.Err != nil {
			return
		}
	}
	time.Sleep(35 * time.Millisecond)
	mu.Lock()
	end := time.Since(begin)
	m.UnregisterAll()
	clear(model)
	mu.Unlock()
	synctest.Wait()
	time.Sleep(time.Second)
	mu.Lock()
	defer mu.Unlock()
	for i, w := range all {
		to := w.to
		if to < 0 {
			to = end
		}
		n := 0
		for at := w.from; w.from >= 0 && at < to; at += w.period {
			n++
		}
		late := 0
		if w.from >= 0 && (to-w.from)%w.period == 0 {
			late = 1
		}
		if len(w.runs) < n || len(w.runs) > n+late {
			o.Fail("runs of a task: task #%d %q, registered from %v to %v, ran at %v, expected %d runs", i, w.name, w.from, w.to, w.runs, n)
			return
		}
	}
	o.LabelIf(busy > 0, "refused")
	o.LabelIf(left > 0, "unregistered by its own job")
	o.Nontrivial = len(all) > 1
	return
}

func within(f func()) bool {
	var done atomic.Bool
	go func() { f(); done.Store(true) }()
	synctest.Wait()
	return done.Load()
}

func TestC15(t *testing.T) {
	pbt.Run(t, "C15", pbt.Part[mhistory]{
		Name: "histories", Modes: "inst", Quick: 3000, Deep: 100000, Bubble: true, Leave: true,
		Rule: "up to 40 calls over four names with recording tasks, tasks whose start fails or whose stop reports an error, and tasks registered again; answers and every task's start and stop counts compared with a map; non-trivial: a name freed, and one refused or failing",
		Gen:  genMhistory, Run: runMhistory,
	})
	pbt.Run(t, "C15", pbt.Part[mreal]{
		Name: "real-tasks", Modes: "inst", Quick: 600, Deep: 20000, Bubble: true,
		Rule: "up to 14 calls at generated times with real tasks of both kinds; each must run exactly while it is registered; non-trivial: at least 2 tasks",
		Gen:  genMreal, Run: runMreal,
	})
	pbt.Run(t, "C15", pbt.Part[mrace]{
		Name: "racing", Modes: "inst race", Quick: 1500, Deep: 50000, Bubble: true, Leave: true, Retry: 10,
		Rule: "2..4 threads registering (also failing) and unregistering two names under a seeded schedule (race-built: real threads); answers, running tasks and freed names explained by some order; non-trivial: at least 4 calls",
		Gen:  genMrace, Run: runMrace,
	})
}
