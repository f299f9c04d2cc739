// Package pbt drives the properties: it draws cases with rapid, runs them,
// counts what was covered, shrinks failures to a replay file, and re-runs
// replay files without the library.
package pbt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/chanjarster/gears/simplelog"
	"pgregory.net/rapid"
)

// Outcome is what running one case told us.
type Outcome struct {
	Err        error    // the property is broken
	Finding    string   // key of the known finding this failure would be
	Nontrivial bool     // by the part's rule
	Labels     []string // classes of the case, for the distribution
}

// Fail makes a failed outcome.
func (o *Outcome) Fail(format string, a ...any) {
	if o.Err == nil {
		o.Err = fmt.Errorf(format, a...)
	}
}

func (o *Outcome) Label(l string) { o.Labels = append(o.Labels, l) }
func (o *Outcome) LabelIf(b bool, l string) {
	if b {
		o.Labels = append(o.Labels, l)
	}
}

// Part is one generated check of a property.
type Part[C any] struct {
	Name   string
	Rule   string // how cases are made and what makes one non-trivial
	Modes  string // build modes it runs in: any of "plain inst race"
	Quick  int    // cases per shard
	Deep   int    // cases per shard, thorough tier
	Bubble bool   // run inside a synctest bubble, on a fake clock
	Leave  bool   // goroutines still blocked when Run returns are expected
	Gen    func(t *rapid.T) C
	Run    func(c C) Outcome
	// Retry is how often a replay is repeated before it counts as passing, for
	// cases whose schedule is not a pure function of the case.
	Retry int
}

type Result struct {
	Part        string            `json:"part"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []any             `json:"samples"`
	Failure     *Failure          `json:"failure,omitempty"`
	Findings    map[string]string `json:"findings,omitempty"` // known finding key -> what failed
	Excluded    int               `json:"excluded,omitempty"`
	Error       string            `json:"error,omitempty"` // the check itself could not decide
	Replayed    bool              `json:"replayed,omitempty"`
	WallS       float64           `json:"wall_s"`
}

type Failure struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Mode     string          `json:"mode"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
}

var (
	outDir  = os.Getenv("PBT_OUT")
	mode    = envOr("PBT_MODE", "plain")
	tier    = envOr("PBT_TIER", "quick")
	replay  = os.Getenv("PBT_REPLAY")
	regress = os.Getenv("PBT_REGRESS")
	known   = map[string]bool{}
	memOnce sync.Once
)

// caseLimit bounds the real time of one case; cases take milliseconds.
const caseLimit = 90 * time.Second

// memLimit bounds the memory of the process; cases need megabytes.
const memLimit = 4 << 30

func die(format string, a ...any) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Printf("panic: "+format+"\n%s\n", append(a, buf)...)
	os.Exit(68)
}

// watchMemory ends the process when the code under test runs away.
func watchMemory() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		metrics.Read(sample)
		if n := sample[0].Value.Uint64(); n > memLimit {
			die("the case made the process use %d MB of memory", n>>20)
		}
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func Mode() string   { return mode }
func Thorough() bool { return tier == "thorough" }

func seed() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("PBT_SEED"), 10, 64)
	if n == 0 {
		n = 0x5eed
	}
	return n
}

func init() {
	for _, k := range strings.Split(os.Getenv("PBT_KNOWN"), "\n") {
		if k = strings.TrimSpace(k); k != "" {
			known[k] = true
		}
	}
	if os.Getenv("PBT_LOG") == "" {
		simplelog.StdLogger.SetOutput(io.Discard)
		simplelog.ErrLogger.SetOutput(io.Discard)
		log.SetOutput(io.Discard)
	}
}

func hashOf(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Run runs one part of property id.
func Run[C any](t *testing.T, id string, p Part[C]) {
	if p.Modes == "" {
		p.Modes = "plain"
	}
	if !strings.Contains(p.Modes, mode) {
		return
	}
	if only := os.Getenv("PBT_PART"); only != "" && only != p.Name {
		return
	}
	memOnce.Do(func() { go watchMemory() })
	start := time.Now()
	res := &Result{Part: p.Name, Rule: p.Rule, Labels: map[string]int{}, Findings: map[string]string{}}
	defer func() {
		res.WallS = time.Since(start).Seconds()
		writeResult(id, res)
	}()

	cur := ""
	if outDir != "" {
		cur = filepath.Join(outDir, fmt.Sprintf("current-%s-%s-%d.json", id, p.Name, os.Getpid()))
		defer os.Remove(cur)
	}
	var last *Failure
	seen := map[uint64]bool{}
	runCase := func(c C, count bool) Outcome {
		raw, err := json.Marshal(c)
		if err != nil {
			return Outcome{Err: fmt.Errorf("harness: case does not serialise: %v", err)}
		}
		if cur != "" {
			b, _ := json.Marshal(Failure{Property: id, Part: p.Name, Mode: mode, Case: raw})
			os.WriteFile(cur, b, 0o644)
		}
		dog := time.AfterFunc(caseLimit, func() {
			die("the case did not finish within %v of real time", caseLimit)
		})
		o := execute(t, p, c)
		dog.Stop()
		if count {
			res.Evaluations++
			if o.Nontrivial {
				h := hashOf(raw)
				if !seen[h] {
					seen[h] = true
					if len(res.Samples) < 3 && len(raw) < 6000 {
						res.Samples = append(res.Samples, json.RawMessage(raw))
					}
				}
			}
			for _, l := range o.Labels {
				res.Labels[l]++
			}
		}
		if o.Err != nil && o.Finding != "" && known[id+" "+o.Finding] {
			res.Findings[o.Finding] = o.Err.Error()
			if count {
				res.Excluded++
			}
			o.Err = nil
		}
		if o.Err != nil {
			last = &Failure{Property: id, Part: p.Name, Mode: mode, Case: raw, Error: o.Err.Error()}
		}
		return o
	}

	replayFile := func(f string) bool {
		b, err := os.ReadFile(f)
		if err != nil {
			res.Error = err.Error()
			return false
		}
		var fl Failure
		if err := json.Unmarshal(b, &fl); err != nil {
			res.Error = err.Error()
			return false
		}
		if fl.Property != id || fl.Part != p.Name {
			return false
		}
		var c C
		if err := json.Unmarshal(fl.Case, &c); err != nil {
			res.Error = fmt.Sprintf("%s: %v", f, err)
			return false
		}
		n := 1
		if p.Retry > n {
			n = p.Retry
		}
		for i := 0; i < n; i++ {
			if o := runCase(c, false); o.Err != nil {
				res.Failure = last
				break
			}
		}
		res.Replayed = true
		return true
	}

	if replay != "" {
		if replayFile(replay) && res.Failure != nil {
			fmt.Printf("replay fails: %s\n", res.Failure.Error)
		}
		return
	}
	if regress != "" {
		files, _ := filepath.Glob(filepath.Join(regress, id, "*.json"))
		sort.Strings(files)
		for _, f := range files {
			replayFile(f)
			if res.Failure != nil || res.Error != "" {
				return
			}
		}
	}

	n := p.Quick
	if tier == "thorough" && p.Deep > 0 {
		n = p.Deep
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed(), 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "8s")
	if tier == "thorough" {
		flag.Set("rapid.shrinktime", "30s")
	}

	var first *Failure
	var dup int
	t.Run(p.Name, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				res.Error = fmt.Sprintf("rapid: %v\n%s", r, debug.Stack())
			}
		}()
		shrinking := false
		rapid.Check(t, func(rt *rapid.T) {
			c := p.Gen(rt)
			o := runCase(c, !shrinking)
			if o.Err != nil {
				if first == nil {
					first = last
				}
				shrinking = true
				rt.Fatalf("%s", firstLine(o.Err.Error()))
			}
		})
	})
	_ = dup
	if last != nil {
		res.Failure = last
	} else if t.Failed() && res.Error == "" {
		res.Error = "the generator failed (see log)"
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
}

func firstLine(s string) string {
	// rapid tells failures apart by message: digits would split one defect
	// into many while shrinking
	if i := strings.IndexByte(s, ':'); i > 0 {
		s = s[:i]
	}
	return s
}

func execute[C any](t *testing.T, p Part[C], c C) (o Outcome) {
	body := func() (o Outcome) {
		defer func() {
			if r := recover(); r != nil {
				o.Err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		return p.Run(c)
	}
	if !p.Bubble {
		return body()
	}
	var inner Outcome
	done := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if done && p.Leave {
					return
				}
				if !done || inner.Err == nil {
					inner.Err = fmt.Errorf("stuck: %v\n%s", r, blocked())
				}
			}
		}()
		synctest.Test(t, func(*testing.T) {
			inner = body()
			done = true
		})
	}()
	return inner
}

// blocked lists the goroutines of the code under test that are stuck.
func blocked() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "chanjarster/gears/") && strings.Contains(g, "synctest bubble") {
			ls := strings.Split(g, "\n")
			if len(ls) > 9 {
				ls = ls[:9]
			}
			out = append(out, strings.Join(ls, "\n"))
		}
		if len(out) >= 4 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 30 {
		ls = ls[:30]
	}
	return strings.Join(ls, "\n")
}

var wmu sync.Mutex

func writeResult(id string, r *Result) {
	wmu.Lock()
	defer wmu.Unlock()
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	if outDir == "" {
		fmt.Printf("part %s: %d evaluations, %d non-trivial, labels %v, %.1fs\n", r.Part, r.Evaluations, len(r.Hashes), r.Labels, r.WallS)
		if r.Failure != nil {
			fmt.Printf("FAIL %s\n%s\n", r.Failure.Error, r.Failure.Case)
		}
		if r.Error != "" {
			fmt.Printf("ERROR %s\n", r.Error)
		}
		for k, v := range r.Findings {
			fmt.Printf("FINDING %s: %s\n", k, v)
		}
		return
	}
	f := filepath.Join(outDir, fmt.Sprintf("result-%s-%s-%s.json", id, r.Part, mode))
	if err := os.WriteFile(f, b, 0o644); err != nil {
		panic(err)
	}
}
