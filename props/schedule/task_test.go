package schedule

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"regexp"
	"runtime"
	"slices"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/schedule"
	"pgregory.net/rapid"
)

// job says what one run does.
type job struct {
	Dur    time.Duration
	Cancel string        `json:",omitempty"` // when told to cancel: "" carry on, obey, late
	Late   time.Duration `json:",omitempty"`
	Fail   bool          `json:",omitempty"`
	Err    int           `json:",omitempty"` // which error, of jobErrors
	Stop   bool          `json:",omitempty"` // stops its own task at its end
}

var jobErrors = []error{errors.New("job failed"), context.Canceled, context.DeadlineExceeded, io.EOF, errors.New(""),
	fmt.Errorf("job: %w", context.Canceled), os.ErrDeadlineExceeded, net.ErrClosed, error((*nilError)(nil))}

type nilError struct{}

func (*nilError) Error() string { return "a nil pointer" }

type act struct {
	At time.Duration
	Op string // start stop muststart muststop
}

type timeline struct {
	Kind     string // delay, rate
	Interval time.Duration
	Timeout  time.Duration
	Jobs     []job
	Acts     []act
}

func newTask(kind, name string, f schedule.JobFunc, interval, timeout time.Duration) schedule.Task {
	if kind == "rate" {
		return schedule.NewFixedRateTask(name, f, interval, timeout)
	}
	return schedule.NewFixedDelayTask(name, f, interval, timeout)
}

// genSpan draws times that meet multiples of the interval and timeout often.
func genSpan(t *rapid.T, name string, unit, timeout time.Duration, most int) time.Duration {
	var d time.Duration
	switch rapid.IntRange(0, 9).Draw(t, name+"-kind") {
	case 0, 1:
		d = 0
	case 2, 3:
		d = unit * time.Duration(rapid.IntRange(0, most).Draw(t, name))
	case 4:
		d = timeout
	case 5:
		d = timeout + time.Duration(rapid.IntRange(-1, 1).Draw(t, name))
	case 6:
		d = unit*time.Duration(rapid.IntRange(0, most).Draw(t, name)) + time.Duration(rapid.IntRange(-1, 1).Draw(t, name+"-off"))
	default:
		d = time.Duration(rapid.Int64Range(0, int64(unit)*int64(most)).Draw(t, name))
	}
	return max(d, 0)
}

func genTimeline(kinds ...string) func(t *rapid.T) timeline {
	return func(t *rapid.T) timeline {
		iv := rapid.SampledFrom([]time.Duration{1, 3, 10, time.Microsecond, time.Millisecond, 7 * time.Millisecond,
			time.Second, time.Second + 1, time.Minute, 36 * time.Hour}).Draw(t, "interval")
		c := timeline{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Interval: iv}
		c.Timeout = max(1, genSpan(t, "timeout", iv, iv, 4))
		switch rapid.IntRange(0, 9).Draw(t, "longtimeout") {
		case 0:
			c.Timeout = 1000 * iv
		case 1:
			c.Timeout = max(1, iv/time.Duration(rapid.SampledFrom([]int{7, 40, 100, 1000}).Draw(t, "fraction")))
		}
		for i := rapid.IntRange(1, 6).Draw(t, "jobs"); i > 0; i-- {
			j := job{Dur: genSpan(t, "dur", iv, c.Timeout, 3), Fail: rapid.IntRange(0, 3).Draw(t, "fail") == 0,
				Cancel: rapid.SampledFrom([]string{"", "obey", "obey", "late"}).Draw(t, "cancel"),
				Stop:   rapid.IntRange(0, 40).Draw(t, "stopself") == 0}
			if j.Fail {
				j.Err = rapid.IntRange(0, len(jobErrors)-1).Draw(t, "error")
			}
			if j.Cancel == "late" {
				j.Late = genSpan(t, "late", iv, c.Timeout, 2)
			}
			c.Jobs = append(c.Jobs, j)
		}
		at := time.Duration(0)
		add := func(op string) { c.Acts = append(c.Acts, act{at, op}) }
		must := func(op string) string {
			if rapid.Bool().Draw(t, "must") {
				return "must" + op
			}
			return op
		}
		for i := rapid.IntRange(0, 2).Draw(t, "before"); i > 0; i-- {
			if rapid.IntRange(0, 2).Draw(t, "early") == 0 {
				add(must("stop"))
			}
		}
		at += genSpan(t, "startat", iv, iv, 3)
		add(must("start"))
		if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			at += genSpan(t, "againat", iv, iv, 5)
			add(must("start"))
		}
		at += iv*time.Duration(rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 8}).Draw(t, "least")) +
			genSpan(t, "stopat", iv, c.Timeout, rapid.SampledFrom([]int{3, 12, 30}).Draw(t, "beats"))
		add(must("stop"))
		for i := rapid.IntRange(0, 3).Draw(t, "after"); i > 0; i-- {
			at += genSpan(t, "afterat", iv, iv, 2)
			add(must(rapid.SampledFrom([]string{"start", "stop"}).Draw(t, "op")))
		}
		return c
	}
}

type run struct {
	Start, End time.Duration
	Cancel     time.Duration // when told to cancel, -1: never
	nilChan    bool
}

// leftBehind names a goroutine of this bubble that is executing the package's code.
func leftBehind() string {
	buf := make([]byte, 1<<16)
	for n := runtime.Stack(buf, true); n == len(buf); n = runtime.Stack(buf, true) {
		buf = make([]byte, 2*len(buf))
	}
	gs := strings.Split(strings.TrimRight(string(buf), "\x00"), "\n\n")
	bubble := regexp.MustCompile(`synctest bubble \d+`).FindString(gs[0])
	for _, g := range gs[1:] {
		head, _, _ := strings.Cut(g, "\n")
		if bubble == "" || !strings.Contains(head, bubble+"]") && !strings.Contains(head, bubble+",") {
			continue
		}
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "github.com/chanjarster/gears/schedule.") {
				f, _, _ := strings.Cut(strings.TrimPrefix(l, "github.com/chanjarster/gears/"), "({")
				return f
			}
		}
	}
	return ""
}

// runTimeline plays the calls and returns everything that was observed; what is
// judged depends on the property.
func runTimeline(id string) func(c timeline) pbt.Outcome {
	return func(c timeline) (o pbt.Outcome) {
		begin := time.Now()
		now := func() time.Duration { return time.Since(begin) }
		var mu sync.Mutex
		var runs []*run
		overlaps, active := 0, 0
		selfStop := time.Duration(-1)
		var selfErr []error
		var task schedule.Task
		ended := make(chan struct{}, 1)
		body := func(cancel <-chan struct{}) error {
			mu.Lock()
			n := len(runs)
			r := &run{Start: now(), End: -1, Cancel: -1, nilChan: cancel == nil}
			runs = append(runs, r)
			if active++; active > 1 {
				overlaps++
			}
			mu.Unlock()
			j := c.Jobs[n%len(c.Jobs)]
			if n > 400 {
				j = job{}
			}
			go func() { // sees the signal also when the job does not care
				if cancel != nil {
					<-cancel
					mu.Lock()
					r.Cancel = now()
					mu.Unlock()
				}
			}()
			begun := now()
			timer := time.NewTimer(j.Dur)
			if j.Cancel == "" {
				<-timer.C
			} else {
				select {
				case <-timer.C:
				case <-cancel:
					if j.Cancel == "late" && now() < begun+j.Dur {
						time.Sleep(j.Late)
					}
				}
			}
			timer.Stop()
			if j.Stop {
				err := task.Stop()
				mu.Lock()
				if selfErr = append(selfErr, err); selfStop < 0 {
					selfStop = now()
				}
				mu.Unlock()
			}
			mu.Lock()
			active--
			r.End = now()
			mu.Unlock()
			select {
			case ended <- struct{}{}:
			default:
			}
			if j.Fail {
				return jobErrors[j.Err]
			}
			return nil
		}
		task = newTask(c.Kind, "task", body, c.Interval, c.Timeout)
		if task.Name() != "task" {
			o.Fail("name: %q", task.Name())
		}
		started, stopped := time.Duration(-1), time.Duration(-1)
		misuse, bySelf := 0, false
		for i, a := range c.Acts {
			time.Sleep(a.At - now())
			synctest.Wait()
			mu.Lock()
			if selfStop >= 0 && stopped < 0 {
				stopped, bySelf = selfStop, true
			}
			mu.Unlock()
			at := now()
			var err error
			switch a.Op {
			case "start":
				err = task.Start()
			case "stop":
				err = task.Stop()
			case "muststart", "muststop":
				func() {
					defer func() {
						if v := recover(); v != nil {
							err = v.(error)
						}
					}()
					if a.Op == "muststart" {
						task.MustStart()
					} else {
						task.MustStop()
					}
				}()
			}
			if now() != at && id == "C14" {
				o.Fail("call waited: %s at %v returned at %v", a.Op, at, now())
				return
			}
			want := false // whether it may succeed
			if a.Op == "start" || a.Op == "muststart" {
				if want = started < 0; want {
					started = at
				}
			} else if want = started >= 0 && stopped < 0; want {
				stopped = at
			}
			if !want {
				misuse++
			}
			if want != (err == nil) && id == "C14" {
				o.Fail("answer of %s: call %d of %+v returned %v", a.Op, i, c.Acts, err)
				return
			}
			if want != (err == nil) {
				break
			}
		}
		if stopped < 0 || started < 0 { // cannot be, unless the above is broken
			task.Stop()
			o.Fail("status: the task was not started or not stopped by %+v", c.Acts)
			return
		}
		if id == "C14" {
			for {
				mu.Lock()
				n := active
				mu.Unlock()
				if n == 0 {
					break
				}
				<-ended
			}
			synctest.Wait()
			if left := leftBehind(); left != "" {
				o.Fail("left running after the stop at %v, at %v: %s", stopped, now(), left)
				return
			}
		}
		time.Sleep(100*c.Interval + 1000*c.Timeout)
		mu.Lock()
		defer mu.Unlock()
		show := func() string {
			s := fmt.Sprintf("started %v, stopped %v, runs", started, stopped)
			for i, r := range runs {
				if i > 12 {
					return s + " …"
				}
				s += fmt.Sprintf(" [%v,%v cancel %v]", r.Start, r.End, r.Cancel)
			}
			return s
		}
		cancels := 0
		switch id {
		case "C12":
			if overlaps > 0 {
				o.Fail("overlapping runs: %s", show())
				return
			}
			next := started
			for _, r := range runs {
				if r.Start != next {
					o.Fail("time of a run: began at %v, expected %v; %s", r.Start, next, show())
					return
				}
				next = r.End + c.Interval
			}
			if next < stopped {
				o.Fail("missing run: none at %v; %s", next, show())
				return
			}
		case "C13":
			next := started
			for _, r := range runs {
				if r.Start != next {
					o.Fail("time of a run: began at %v, expected %v; %s", r.Start, next, show())
					return
				}
				next += c.Interval
			}
			if next < stopped {
				o.Fail("missing run: none at %v; %s", next, show())
				return
			}
		case "C14":
			for _, r := range runs {
				due := min(r.Start+c.Timeout, max(stopped, r.Start))
				switch {
				case r.nilChan:
					o.Fail("no cancel signal: %s", show())
				case r.Start > stopped:
					o.Fail("run after stop: %s", show())
				case r.End > due && r.Cancel != due:
					o.Fail("time of cancel: the run at %v was told at %v, due at %v; %s", r.Start, r.Cancel, due, show())
				case r.Cancel < min(due, r.End):
					o.Fail("early cancel: the run at %v was told at %v, due at %v; %s", r.Start, r.Cancel, due, show())
				default:
					if r.End > due {
						cancels++
					}
					continue
				}
				return
			}
			ok := 0
			for _, err := range selfErr {
				if err == nil {
					ok++
				}
			}
			if (ok == 1) != bySelf || ok > 1 {
				o.Fail("answer of stop: called from inside the job it succeeded %d times of %d (due: %v); %s", ok, len(selfErr), bySelf, show())
				return
			}
		}
		o.Label(c.Kind)
		o.LabelIf(overlaps > 0, "runs overlap")
		o.LabelIf(cancels > 0, "cancelled runs")
		o.LabelIf(misuse > 0, "refused calls")
		o.LabelIf(selfStop >= 0, "stopped by its job")
		o.LabelIf(len(runs) > 10, "more than 10 runs")
		o.Nontrivial = len(runs) > 2
		if id == "C14" {
			o.Nontrivial = cancels > 0
		}
		return
	}
}

// ---------------------------------------------------------- construction

type construction struct {
	Kind     string
	Name     string
	Nil      bool
	Interval time.Duration
	Timeout  time.Duration
}

func genConstruction(t *rapid.T) construction {
	d := rapid.SampledFrom([]time.Duration{-1 << 63, -time.Second, -1, 0, 1, time.Second, 1<<63 - 1})
	return construction{
		Kind:     rapid.SampledFrom([]string{"delay", "rate"}).Draw(t, "kind"),
		Name:     rapid.SampledFrom([]string{"", " ", "\t\n ", "a", " a ", "\u3000", "名"}).Draw(t, "name"),
		Nil:      rapid.IntRange(0, 3).Draw(t, "nil") == 0,
		Interval: d.Draw(t, "interval"), Timeout: d.Draw(t, "timeout"),
	}
}

func runConstruction(c construction) (o pbt.Outcome) {
	f := func(<-chan struct{}) error { return nil }
	if c.Nil {
		f = nil
	}
	var task schedule.Task
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		task = newTask(c.Kind, c.Name, f, c.Interval, c.Timeout)
	}()
	blank := c.Name != "a" && c.Name != " a " && c.Name != "名"
	want := blank || c.Nil || c.Interval <= 0 || c.Timeout <= 0
	if want != refused {
		o.Fail("construction: refused %v, expected %v: %+v", refused, want, c)
		return
	}
	if !refused && (task == nil || task.Name() != c.Name) {
		o.Fail("construction: wrong task %v for %+v", task, c)
	}
	o.LabelIf(want, "refused")
	o.LabelIf(!want, "accepted")
	o.Nontrivial = true
	return
}

// ----------------------------------------------- racing starts and stops

type race struct {
	Kind     string
	Interval time.Duration
	Timeout  time.Duration
	Dur      time.Duration
	Obey     bool
	Threads  [][]act
	Seed     uint64
	Density  int
}

func genRace(kinds ...string) func(t *rapid.T) race {
	return func(t *rapid.T) race { return drawRace(t, kinds) }
}

func drawRace(t *rapid.T, kinds []string) race {
	c := race{
		Kind:     rapid.SampledFrom(kinds).Draw(t, "kind"),
		Interval: rapid.SampledFrom([]time.Duration{10, 50, 100}).Draw(t, "interval") * time.Millisecond,
		Timeout:  rapid.SampledFrom([]time.Duration{5, 30, 200}).Draw(t, "timeout") * time.Millisecond,
		Dur:      rapid.SampledFrom([]time.Duration{0, 0, 10, 25, 150}).Draw(t, "dur") * time.Millisecond,
		Obey:     rapid.IntRange(0, 3).Draw(t, "obey") > 0,
		Seed:     rapid.Uint64Range(1, 1<<40).Draw(t, "seed"), Density: rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density"),
	}
	for i := rapid.IntRange(2, 4).Draw(t, "threads"); i > 0; i-- {
		var th []act
		at := time.Duration(0)
		for j := rapid.IntRange(1, 3).Draw(t, "calls"); j > 0; j-- {
			// together, or right at a beat or the end of a run
			switch rapid.IntRange(0, 3).Draw(t, "when") {
			case 0:
			case 1:
				at += c.Interval
			case 2:
				at += c.Dur
			case 3:
				at += c.Interval + time.Duration(rapid.IntRange(0, 15000).Draw(t, "off"))
			}
			op := rapid.SampledFrom([]string{"start", "start", "stop"}).Draw(t, "op")
			if at > 0 && rapid.Bool().Draw(t, "stop") {
				op = "stop"
			}
			th = append(th, act{at, op})
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

// soon bounds, generously, what the schedule points add to a single step.
const soon = 2 * time.Millisecond

func runRace(id string) func(c race) pbt.Outcome {
	return func(c race) pbt.Outcome { return race1(id, c) }
}

func race1(id string, c race) (o pbt.Outcome) {
	begin := time.Now()
	now := func() time.Duration { return time.Since(begin) }
	var mu sync.Mutex
	var runs []*run
	active, overlaps := 0, 0
	body := func(cancel <-chan struct{}) error {
		mu.Lock()
		r := &run{Start: now(), End: -1, Cancel: -1}
		runs = append(runs, r)
		if active++; active > 1 {
			overlaps++
		}
		mu.Unlock()
		go func() {
			<-cancel
			mu.Lock()
			r.Cancel = now()
			mu.Unlock()
		}()
		if c.Obey {
			timer := time.NewTimer(c.Dur)
			select {
			case <-timer.C:
			case <-cancel:
			}
			timer.Stop()
		} else {
			time.Sleep(c.Dur)
		}
		mu.Lock()
		r.End = now()
		active--
		mu.Unlock()
		return nil
	}
	task := newTask(c.Kind, "task", body, c.Interval, c.Timeout)
	var clock pbt.Clock
	var ops []pbt.Op
	started, stopCall, stopped := time.Duration(-1), time.Duration(-1), time.Duration(-1)
	explore := func() {
		var wg sync.WaitGroup
		for _, th := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, a := range th {
					time.Sleep(a.At - now())
					vsync.P()
					at := now()
					call := clock.Tick()
					var err error
					if a.Op == "start" {
						err = task.Start()
					} else {
						err = task.Stop()
					}
					op := pbt.Op{Name: a.Op, Out: err == nil, Call: call, Ret: clock.Tick()}
					mu.Lock()
					ops = append(ops, op)
					if err == nil && a.Op == "start" {
						started = now()
					} else if err == nil {
						stopCall, stopped = at, now()
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		time.Sleep(3 * c.Interval)
		if stopped < 0 && started >= 0 {
			stopCall = now()
			if err := task.Stop(); err != nil && id == "C14" {
				o.Fail("answer of stop: the started task refused: %v", err)
			}
			stopped = now()
		}
		time.Sleep(time.Hour)
	}
	vsync.Explore(c.Seed, c.Density, explore)
	if o.Err != nil {
		return
	}
	if id == "C14" && !pbt.Linearizable("new", ops, func(s string, op pbt.Op) (string, bool) {
		if op.Name == "start" {
			if s == "new" {
				return "started", op.Out.(bool)
			}
			return s, !op.Out.(bool)
		}
		if s == "started" {
			return "stopped", op.Out.(bool)
		}
		return s, !op.Out.(bool)
	}) {
		o.Fail("answers of start and stop: no order of the calls explains them: %v", ops)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	show := func() string {
		s := fmt.Sprintf("started %v, stopped %v..%v, runs", started, stopCall, stopped)
		for i, r := range runs {
			if i > 12 {
				return s + " …"
			}
			s += fmt.Sprintf(" [%v,%v cancel %v]", r.Start, r.End, r.Cancel)
		}
		return s
	}
	if started < 0 {
		if len(runs) > 0 && id == "C14" {
			o.Fail("run before start: %s", show())
		}
		return
	}
	if id == "C12" && overlaps > 0 {
		o.Fail("overlapping runs: %s", show())
		return
	}
	after := 0
	for i, r := range runs {
		due := min(r.Start+c.Timeout, max(stopped, r.Start))
		switch {
		case id != "C14":
		case r.Start > stopped+soon:
			o.Fail("run after stop: %s", show())
		case r.Start > stopped:
			// it was being dispatched
			if after++; after > 1 {
				o.Fail("runs after stop: %s", show())
			} else if r.End > due+soon && r.Cancel > due+soon {
				o.Fail("late cancel: run %d; %s", i, show())
			}
		case r.End > due+soon && r.Cancel > due+soon:
			o.Fail("late cancel: run %d; %s", i, show())
		case r.Cancel < min(r.Start+c.Timeout-soon, stopCall, r.End):
			o.Fail("early cancel: run %d; %s", i, show())
		case r.End < 0:
			o.Fail("run did not end: run %d; %s", i, show())
		}
		if o.Err != nil {
			return
		}
		if i > 0 && id != "C14" {
			d := r.Start - runs[i-1].End
			if c.Kind == "rate" {
				d = r.Start - runs[i-1].Start
			}
			if d < c.Interval-soon || d > c.Interval+soon {
				o.Fail("time of a run: run %d began %v after the previous one; %s", i, d, show())
				return
			}
		}
	}
	if id != "C14" && len(runs) == 0 && stopCall > started+soon {
		o.Fail("missing run: %s", show())
		return
	}
	o.Label(c.Kind)
	o.LabelIf(after > 0, "dispatched at the stop")
	o.LabelIf(len(runs) > 1, "several runs")
	o.Nontrivial = len(ops) > 2 && len(runs) > 0
	return
}

// ---------------------------------------------------------------- long runs

// long is a fixed-rate task of many beats, whose steps take some time each.
type long struct {
	Interval time.Duration
	Beats    int
	Dur      []time.Duration // of the runs, in turn
	Fail     int             `json:",omitempty"` // every so many runs
	Seed     uint64
	Density  int
}

func genLong(t *rapid.T) long {
	c := long{Interval: rapid.SampledFrom([]time.Duration{5 * time.Millisecond, 10 * time.Millisecond, time.Second, 3 * time.Hour}).Draw(t, "interval"),
		Beats: rapid.IntRange(100, 1200).Draw(t, "beats"), Fail: rapid.IntRange(0, 3).Draw(t, "fail"),
		Seed: rapid.Uint64Range(1, 1<<40).Draw(t, "seed"), Density: rapid.SampledFrom([]int{16, 12, 6}).Draw(t, "density")}
	for i := rapid.IntRange(1, 3).Draw(t, "durations"); i > 0; i-- {
		c.Dur = append(c.Dur, c.Interval*time.Duration(rapid.IntRange(0, 25).Draw(t, "tenths"))/10)
	}
	return c
}

// runLong: the delays of single beats are not handed on to the later ones.
func runLong(c long) (o pbt.Outcome) {
	begin := time.Now()
	var mu sync.Mutex
	var runs []time.Duration
	task := newTask("rate", "task", func(<-chan struct{}) error {
		mu.Lock()
		runs = append(runs, time.Since(begin))
		n := len(runs)
		mu.Unlock()
		time.Sleep(c.Dur[n%len(c.Dur)])
		if c.Fail > 0 && n%c.Fail == 0 {
			return errors.New("job failed")
		}
		return nil
	}, c.Interval, 4*c.Interval)
	var started time.Duration
	vsync.Explore(c.Seed, c.Density, func() {
		task.MustStart()
		started = time.Since(begin)
		time.Sleep(c.Interval*time.Duration(c.Beats) - c.Interval/2)
		task.MustStop()
		time.Sleep(5 * c.Interval)
	})
	mu.Lock()
	defer mu.Unlock()
	if len(runs) != c.Beats {
		o.Fail("number of runs: %d in %d beats", len(runs), c.Beats)
		return
	}
	slices.Sort(runs)
	for i, at := range runs {
		if due := c.Interval * time.Duration(i); at < due || at > started+due+soon/2 {
			o.Fail("drift: run %d began at %v, started at 0..%v, interval %v", i, at, started, c.Interval)
			return
		}
	}
	o.Nontrivial = true
	return
}

func TestC12(t *testing.T) {
	pbt.Run(t, "C12", pbt.Part[timeline]{
		Name: "timeline", Modes: "plain", Quick: 5000, Deep: 200000, Bubble: true,
		Rule: "a fixed-delay task with generated job durations, results, reactions to cancellation, and times of start and stop; each run must begin exactly one interval after the end of the previous one, the first at once, none missing; non-trivial: at least 3 runs",
		Gen:  genTimeline("delay"), Run: runTimeline("C12"),
	})
	pbt.Run(t, "C12", pbt.Part[race]{
		Name: "racing", Modes: "inst", Quick: 800, Deep: 30000, Bubble: true,
		Rule: "2..4 threads calling start and stop at the same time or around beats under a seeded schedule: runs never overlap and keep the delay within 2 ms of fake time; non-trivial: at least 3 calls and one run",
		Gen:  genRace("delay"), Run: runRace("C12"),
	})
}

func TestC13(t *testing.T) {
	pbt.Run(t, "C13", pbt.Part[timeline]{
		Name: "timeline", Modes: "plain", Quick: 5000, Deep: 200000, Bubble: true,
		Rule: "a fixed-rate task with generated job durations (also longer than the interval), results, reactions to cancellation, and times of start and stop; runs must begin exactly at the multiples of the interval, none missing; non-trivial: at least 3 runs",
		Gen:  genTimeline("rate"), Run: runTimeline("C13"),
	})
	pbt.Run(t, "C13", pbt.Part[race]{
		Name: "racing", Modes: "inst", Quick: 800, Deep: 30000, Bubble: true,
		Rule: "2..4 threads calling start and stop at the same time or around beats under a seeded schedule: runs keep the beat within 2 ms of fake time; non-trivial: at least 3 calls and one run",
		Gen:  genRace("rate"), Run: runRace("C13"),
	})
	pbt.Run(t, "C13", pbt.Part[long]{
		Name: "long", Modes: "inst", Quick: 120, Deep: 5000, Bubble: true,
		Rule: "100..1200 beats whose steps are delayed by a seeded schedule: no beat missing, and none further than 1 ms of fake time from its multiple of the interval; every case is non-trivial",
		Gen:  genLong, Run: runLong,
	})
}

func TestC14(t *testing.T) {
	pbt.Run(t, "C14", pbt.Part[timeline]{
		Name: "timeline", Modes: "plain", Quick: 5000, Deep: 200000, Bubble: true,
		Rule: "both kinds of task, start and stop calls (also refused ones, also from inside the job) at generated times; answers, exact instants of cancellation, no run after stop, nothing left running; non-trivial: at least one run told to cancel",
		Gen:  genTimeline("delay", "rate"), Run: runTimeline("C14"),
	})
	pbt.Run(t, "C14", pbt.Part[construction]{
		Name: "construction", Modes: "plain", Quick: 600, Deep: 20000,
		Rule: "blank and other names, nil job, intervals and timeouts of any sign: refused exactly when blank, nil or not positive; every case is non-trivial",
		Gen:  genConstruction, Run: runConstruction,
	})
	pbt.Run(t, "C14", pbt.Part[race]{
		Name: "racing", Modes: "inst", Quick: 1500, Deep: 50000, Bubble: true,
		Rule: "2..4 threads calling start and stop at the same time or around beats under a seeded schedule: answers linearizable, one run at most after the stop and told at once, cancel times within 2 ms of fake time; non-trivial: at least 3 calls and one run",
		Gen:  genRace("delay", "rate"), Run: runRace("C14"),
	})
}
