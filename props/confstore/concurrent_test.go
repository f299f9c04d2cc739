package confstore

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"gearsverif/pbt"
	"gearsverif/vsync"

	"github.com/chanjarster/gears/confstore"
	"pgregory.net/rapid"
)

// The values of the concurrent histories are numbers, each used once, so that
// every read tells which call it saw. The processors differ in which of them
// they take and in the type they convert to.
var cspecs = map[string]struct {
	vp   confstore.ValueProcessor
	ok   func(n int) bool
	conv func(n int) any
}{
	"int":    {confstore.Int, func(int) bool { return true }, func(n int) any { return n }},
	"string": {confstore.String, func(int) bool { return true }, func(n int) any { return strconv.Itoa(n) }},
	"low":    {confstore.IntProcessor(0, true, 50, false), func(n int) bool { return n < 50 }, func(n int) any { return n }},
	"one":    {confstore.StringProcessor(2, 9), func(n int) bool { return n > 9 }, func(n int) any { return strconv.Itoa(n) }},
	"own":    {thirds{}, func(n int) bool { return n%3 != 0 }, func(n int) any { return ownValue{strconv.Itoa(n)} }},
}

// thirds is a processor of the application, slow enough to be overtaken.
type thirds struct{}

func (thirds) Validate(v string) (bool, string) {
	vsync.P()
	if n, err := strconv.Atoi(v); err == nil && n%3 != 0 {
		return true, ""
	}
	return false, "divisible"
}
func (thirds) Convert(v string) any { vsync.P(); return ownValue{v} }

type ccall struct {
	Op   string // register deregister update nopersist batch reset get str must muststr bget bstr
	Key  int
	Proc string   `json:",omitempty"`
	N    int      `json:",omitempty"`
	KV   [][2]int `json:",omitempty"`
}

type churn struct {
	Policy  string // noop, simple, interval
	Persist bool
	Initial []ccall
	Threads [][]ccall
	Seed    uint64
	Density int
}

func genChurn(t *rapid.T) churn {
	c := churn{
		Policy:  rapid.SampledFrom([]string{"noop", "noop", "simple", "interval"}).Draw(t, "policy"),
		Persist: rapid.IntRange(0, 4).Draw(t, "persist") > 0,
		Seed:    rapid.Uint64Range(1, 1<<40).Draw(t, "seed"),
		Density: rapid.SampledFrom([]int{16, 12, 8, 4}).Draw(t, "density"),
	}
	ns := rapid.Permutation(seq(99)).Draw(t, "numbers")
	used := 0
	num := func() int { used++; return ns[(used-1)%len(ns)] + 1 }
	keys := rapid.IntRange(1, 2).Draw(t, "keys")
	procs := []string{"int", "string", "low", "one", "own"}
	draw := func(ops []string) ccall {
		k := ccall{Op: rapid.SampledFrom(ops).Draw(t, "op"), Key: rapid.IntRange(0, keys-1).Draw(t, "key")}
		switch k.Op {
		case "register":
			k.Proc = rapid.SampledFrom(procs).Draw(t, "proc")
			k.N = num()
		case "update", "nopersist":
			k.N = num()
		case "batch":
			for j := rapid.IntRange(1, 3).Draw(t, "entries"); j > 0; j-- {
				k.KV = append(k.KV, [2]int{rapid.IntRange(0, keys-1).Draw(t, "bkey"), num()})
			}
		}
		return k
	}
	c.Initial = append(c.Initial, draw([]string{"register"}))
	for j := rapid.IntRange(0, 3).Draw(t, "initial"); j > 0; j-- {
		c.Initial = append(c.Initial, draw([]string{"register", "update"}))
	}
	ops := []string{"register", "register", "deregister", "deregister", "update", "update", "update", "batch", "batch", "reset", "get", "str", "get", "str", "must", "muststr", "bget", "bstr"}
	if c.Policy == "noop" {
		ops = append(ops, "nopersist")
	}
	for i := rapid.IntRange(2, 4).Draw(t, "threads"); i > 0; i-- {
		var th []ccall
		for j := rapid.IntRange(1, 5).Draw(t, "calls"); j > 0; j-- {
			th = append(th, draw(ops))
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// kstate is what one key is by the model; 0 is no number.
type kstate struct {
	proc           string
	def, cur, disk int
}

func (s kstate) n() int {
	if s.cur != 0 {
		return s.cur
	}
	return s.def
}

func kstep(s kstate, op pbt.Op) (kstate, bool) {
	a := op.Arg.(ccall)
	switch op.Name {
	case "register":
		ok := s.proc == "" && cspecs[a.Proc].ok(a.N)
		if ok {
			s.proc, s.def = a.Proc, a.N
		}
		return s, op.Out == ok
	case "deregister":
		return kstate{}, true
	case "reset":
		s.cur, s.disk = 0, 0
		return s, true
	case "update", "nopersist":
		ok := s.proc != "" && cspecs[s.proc].ok(a.N)
		if ok {
			s.cur = a.N
			if op.Name == "update" {
				s.disk = a.N
			}
		}
		return s, op.Out == ok
	case "get":
		if s.proc == "" {
			return s, op.Out == nil
		}
		return s, reflect.DeepEqual(op.Out, cspecs[s.proc].conv(s.n()))
	case "str":
		if s.proc == "" {
			return s, op.Out == nil
		}
		return s, op.Out == strconv.Itoa(s.n())
	case "disk":
		return s, op.Out == s.disk
	}
	panic(op.Name)
}

func runChurn(c churn) (o pbt.Outcome) {
	var p confstore.Persister = confstore.NoopPersister
	mem := newMemory()
	if c.Persist {
		p = mem
	}
	policy := confstore.NoopLoadPolicy
	switch c.Policy {
	case "simple":
		policy = confstore.SimpleLoadPolicy
	case "interval":
		policy = confstore.NewLoadPolicy(20 * time.Microsecond)
	}
	s := confstore.NewStore(p, policy)

	var mu sync.Mutex
	var clk pbt.Clock
	bad := ""
	ops := make([][]pbt.Op, len(keyNames))
	do := func(a ccall) {
		k := key(a.Key)
		type result struct {
			key  int
			name string
			arg  ccall
			out  any
		}
		var rs []result
		call := clk.Tick()
		one := func(out any) { rs = append(rs, result{a.Key, a.Op, a, out}) }
		absent := func(v any, hit bool) any {
			if !hit {
				if v != nil && v != "" {
					bad = fmt.Sprintf("value of a missing key: %v", v)
				}
				return nil
			}
			return v
		}
		switch a.Op {
		case "register":
			one(s.RegisterKey(k, strconv.Itoa(a.N), cspecs[a.Proc].vp) == nil)
		case "deregister":
			s.DeregisterKey(k)
			one(nil)
		case "reset":
			s.ResetKey(k)
			one(nil)
		case "update":
			one(s.Update(k, strconv.Itoa(a.N)) == nil)
		case "nopersist":
			one(s.UpdateNoPersist(k, strconv.Itoa(a.N)) == nil)
		case "batch":
			var kvs []*confstore.KVStr
			for _, kv := range a.KV {
				kvs = append(kvs, &confstore.KVStr{Key: key(kv[0]), Value: strconv.Itoa(kv[1])})
			}
			failed := map[string]int{}
			for _, e := range s.BatchUpdate(kvs) {
				failed[e.Key+" "+e.Value]++
			}
			for _, kv := range a.KV {
				id := key(kv[0]) + " " + strconv.Itoa(kv[1])
				rs = append(rs, result{kv[0], "update", ccall{N: kv[1]}, failed[id] == 0})
				delete(failed, id)
			}
			for id := range failed {
				bad = "errors of a batch: unexpected or repeated for " + id
			}
		case "get":
			v, hit := s.GetValue(k)
			one(absent(v, hit))
		case "str":
			v, hit := s.GetValueString(k)
			one(absent(v, hit))
		case "must", "muststr":
			v, hit := must(func() any {
				if a.Op == "must" {
					return s.MustGetValue(k)
				}
				return s.MustGetValueString(k)
			})
			rs = append(rs, result{a.Key, map[string]string{"must": "get", "muststr": "str"}[a.Op], a, absent(v, hit)})
		case "bget":
			found := map[string]any{}
			for _, kv := range s.BatchGetValues([]string{key(1), key(0)}) {
				found[kv.Key] = kv.Value
			}
			for i := 0; i < 2; i++ {
				rs = append(rs, result{i, "get", ccall{}, found[key(i)]})
			}
		case "bstr":
			found := map[string]any{}
			for _, kv := range s.BatchGetValueString([]string{key(0), key(1)}) {
				found[kv.Key] = kv.Value
			}
			for i := 0; i < 2; i++ {
				rs = append(rs, result{i, "str", ccall{}, found[key(i)]})
			}
		}
		ret := clk.Tick()
		mu.Lock()
		for _, r := range rs {
			ops[r.key] = append(ops[r.key], pbt.Op{Name: r.name, Arg: r.arg, Out: r.out, Call: call, Ret: ret})
		}
		mu.Unlock()
	}
	for _, a := range c.Initial {
		do(a)
	}
	run := func() {
		var wg sync.WaitGroup
		for _, th := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, a := range th {
					vsync.P()
					do(a)
				}
			}()
		}
		wg.Wait()
	}
	if pbt.Mode() == "race" {
		vsync.Stress(c.Seed, c.Density, run)
	} else {
		vsync.Explore(c.Seed, c.Density, run)
	}
	for i := 0; i < 2; i++ {
		do(ccall{Op: "get", Key: i})
		do(ccall{Op: "str", Key: i})
		if c.Persist {
			n := 0
			if v, hit := mem.snapshot()[key(i)]; hit {
				if n, _ = strconv.Atoi(v); n == 0 {
					bad = fmt.Sprintf("persisted value unknown: %q", v)
				}
			}
			ops[i] = append(ops[i], pbt.Op{Name: "disk", Arg: ccall{}, Out: n, Call: clk.Tick(), Ret: clk.Tick()})
		}
	}
	if bad != "" {
		o.Fail("%s", bad)
		return
	}
	overlaps := 0
	for i := range ops {
		if len(ops[i]) > 60 {
			o.Label("too long")
			continue
		}
		var open int64
		for _, op := range ops[i] {
			if op.Call < open {
				overlaps++
			}
			open = max(open, op.Ret)
		}
		if !pbt.Linearizable(kstate{}, append([]pbt.Op(nil), ops[i]...), kstep) {
			var b strings.Builder
			for _, p := range ops[i] {
				a := p.Arg.(ccall)
				fmt.Fprintf(&b, "[%d-%d %s %s %d = %#v] ", p.Call, p.Ret, p.Name, a.Proc, a.N, p.Out)
			}
			o.Fail("history of a key: no order of its calls explains the answers and what is stored at the end: %s", b.String())
			return
		}
	}
	o.Label(c.Policy)
	o.Nontrivial = overlaps > 3
	return
}

func TestC24(t *testing.T) {
	pbt.Run(t, "C24", pbt.Part[churn]{
		Name: "churn", Modes: "inst race", Quick: 4000, Deep: 120000, Bubble: true, Retry: 20,
		Rule: "2-4 threads of up to 5 calls (register with five processors, deregister, update, batch, reset, every read) on one or two keys under seeded schedules, with no-load, immediate and interval policies; values are unique; the calls on each key, its final reads and its final persisted value must be explained by one order; non-trivial: more than three overlapping calls on a key",
		Gen:  genChurn, Run: runChurn,
	})
}
