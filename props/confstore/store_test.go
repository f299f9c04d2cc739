package confstore

import (
	"fmt"
	"reflect"
	"testing"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confstore"
	"pgregory.net/rapid"
)

type step struct {
	Op   string // register deregister update nopersist batch reset restart load fail
	Key  int
	Val  string      `json:",omitempty"`
	Proc string      `json:",omitempty"`
	KVs  [][2]string `json:",omitempty"` // batch
	Fail string      `json:",omitempty"` // persistence failing from here on: save, delete, load, ok
}

type history struct {
	Policy string // noop, simple
	Steps  []step
}

func genHistory(persist bool) func(t *rapid.T) history {
	return func(t *rapid.T) history {
		h := history{Policy: "noop"}
		ops := []string{"register", "register", "deregister", "update", "update", "update", "nopersist", "batch", "batch", "reset"}
		if persist {
			ops = append(ops, "fail", "restart", "load")
			h.Policy = rapid.SampledFrom([]string{"noop", "noop", "simple"}).Draw(t, "policy")
		}
		procs := map[int]procSpec{} // a guess, to draw suitable values
		n := rapid.IntRange(2, 40).Draw(t, "n")
		for i := 0; i < n; i++ {
			s := step{Op: rapid.SampledFrom(ops).Draw(t, "op"), Key: rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "key")}
			if i < 2 {
				s.Op = "register"
			}
			p, known := procs[s.Key]
			if !known {
				p = spec("string")
			}
			switch s.Op {
			case "register":
				s.Proc = rapid.SampledFrom(specs).Draw(t, "proc").name
				s.Val = value(t, spec(s.Proc))
				switch rapid.IntRange(0, 19).Draw(t, "odd") {
				case 0:
					s.Proc = "nil"
				case 1:
					s.Proc = "typednil"
				default:
					if _, taken := procs[s.Key]; !taken || rapid.IntRange(0, 1).Draw(t, "guess") == 0 {
						procs[s.Key] = spec(s.Proc)
					}
				}
			case "update", "nopersist":
				s.Val = value(t, p)
			case "batch":
				for j := rapid.IntRange(0, 6).Draw(t, "entries"); j > 0; j-- {
					k := rapid.IntRange(0, 5).Draw(t, "bkey")
					p, known := procs[k]
					if !known {
						p = spec("string")
					}
					name := "unknown"
					if k < len(keyNames) {
						name = key(k)
					}
					s.KVs = append(s.KVs, [2]string{name, value(t, p)})
				}
			case "deregister":
				if rapid.Bool().Draw(t, "forget") {
					delete(procs, s.Key)
				}
			case "fail":
				s.Fail = rapid.SampledFrom([]string{"save", "delete", "load", "all", "ok", "ok"}).Draw(t, "fail")
			}
			h.Steps = append(h.Steps, s)
		}
		return h
	}
}

func newStore(p confstore.Persister, policy string) confstore.Interface {
	switch policy {
	case "simple":
		return confstore.NewStore(p, confstore.SimpleLoadPolicy)
	}
	return confstore.NewStore(p, confstore.NoopLoadPolicy)
}

func checkKVError(e *confstore.KVError, k, v string) error {
	if e.Key != k || e.Value != v || e.Error == "" {
		return fmt.Errorf("error of an update: %+v for key %q value %q", *e, k, v)
	}
	return nil
}

// runHistory plays the calls and compares the store with the model (C19), and
// the persistence layer with its model (C20), after each.
func runHistory(id string) func(h history) pbt.Outcome {
	return func(h history) (o pbt.Outcome) {
		mem := newMemory()
		s := newStore(mem, h.Policy)
		m := model{}
		disk := map[string]string{} // what must be persisted
		rejected, accepted, restarts, failing, reregistered := 0, 0, 0, 0, 0
		fail := func(err error) bool {
			if err != nil {
				o.Fail("%s", err.Error())
				return true
			}
			return false
		}
		persist := func(kvs [][2]string) {
			if mem.failSave {
				failing++
				return
			}
			for _, kv := range kvs {
				disk[kv[0]] = kv[1]
			}
		}
		for i, st := range h.Steps {
			k := key(st.Key)
			mem.takeCalls()
			var batch [][2]string
			switch st.Op {
			case "register":
				var vp confstore.ValueProcessor
				ok := k != "" && m[k] == nil
				switch st.Proc {
				case "nil":
					ok = false
				case "typednil":
					vp = (*nilProc)(nil)
					ok = false
				default:
					vp = spec(st.Proc).vp
					ok = ok && spec(st.Proc).ok(st.Val)
				}
				err := s.RegisterKey(k, st.Val, vp)
				if ok != (err == nil) {
					o.Fail("registering: step %d %+v returned %v", i, st, err)
					return
				}
				if ok {
					m[k] = &entry{spec: spec(st.Proc), def: st.Val}
				} else {
					reregistered++
				}
			case "deregister":
				s.DeregisterKey(k)
				delete(m, k)
				if !mem.failDel {
					delete(disk, k)
				}
			case "reset":
				s.ResetKey(k)
				if e := m[k]; e != nil {
					e.cur = nil
				}
				if !mem.failDel {
					delete(disk, k)
				}
			case "update", "nopersist":
				var e *confstore.KVError
				if st.Op == "update" {
					e = s.Update(k, st.Val)
				} else {
					e = s.UpdateNoPersist(k, st.Val)
				}
				ok := m.update(k, st.Val)
				if ok {
					accepted++
					if st.Op == "update" {
						persist([][2]string{{k, st.Val}})
					}
				} else {
					rejected++
				}
				if k == "" { // nothing to say about it
					if e != nil && checkKVError(e, k, st.Val) != nil {
						o.Fail("error of an update: %v", e)
						return
					}
					break
				}
				if ok != (e == nil) {
					o.Fail("answer of an update: step %d %+v returned %v", i, st, e)
					return
				}
				if e != nil && fail(checkKVError(e, k, st.Val)) {
					return
				}
			case "batch":
				var kvs []*confstore.KVStr
				var errs [][2]string
				for _, kv := range st.KVs {
					kvs = append(kvs, &confstore.KVStr{Key: kv[0], Value: kv[1]})
					if m.update(kv[0], kv[1]) {
						accepted++
						batch = append(batch, kv)
					} else {
						rejected++
						if kv[0] != "" {
							errs = append(errs, kv)
						}
					}
				}
				got := s.BatchUpdate(kvs)
				var gotErrs [][2]string
				for _, e := range got {
					if e == nil {
						o.Fail("errors of a batch: nil entry; step %d %+v", i, st)
						return
					}
					if e.Key == "" {
						continue
					}
					gotErrs = append(gotErrs, [2]string{e.Key, e.Value})
					if e.Error == "" {
						o.Fail("errors of a batch: no reason; step %d %+v: %v", i, st, e)
						return
					}
				}
				if !reflect.DeepEqual(gotErrs, errs) {
					o.Fail("errors of a batch: step %d %+v reported %q, expected %q", i, st, gotErrs, errs)
					return
				}
				persist(batch)
			case "fail":
				all := st.Fail == "all"
				mem.failSave, mem.failDel, mem.failLoad = all || st.Fail == "save", all || st.Fail == "delete", all || st.Fail == "load"
				continue
			case "load":
				err := mem.Load(s)
				if !mem.failLoad {
					m.load(disk)
				}
				if mem.failLoad != (err != nil) {
					o.Fail("harness: load returned %v", err)
					return
				}
			case "restart":
				restarts++
				s = newStore(mem, h.Policy)
				for k, e := range m {
					if err := s.RegisterKey(k, e.def, e.spec.vp); err != nil {
						o.Fail("registering: anew %q: %v", k, err)
						return
					}
					e.cur = nil
				}
				if h.Policy == "noop" && !mem.failLoad {
					mem.Load(s)
					m.load(disk)
				}
			}
			calls := mem.takeCalls()
			if id == "C20" {
				if got := mem.snapshot(); !reflect.DeepEqual(got, disk) {
					o.Fail("persisted values: %v after step %d %+v, expected %v", got, i, st, disk)
					return
				}
				for _, c := range calls {
					switch {
					case st.Op == "batch" && (c.Op != "batch" || len(c.KV) != len(batch) || len(batch) > 0 && !reflect.DeepEqual(c.KV, batch)):
						o.Fail("persistence call: %+v in step %d %+v, expected the batch %q", c, i, st, batch)
						return
					case st.Op == "nopersist" || st.Op == "register":
						o.Fail("persistence call: %+v in step %d %+v", c, i, st)
						return
					}
				}
				if st.Op == "batch" && len(batch) > 0 && len(calls) != 1 {
					o.Fail("persistence call: %d calls for a batch, step %d %+v: %+v", len(calls), i, st, calls)
					return
				}
			}
			if h.Policy == "simple" && !mem.failLoad {
				m.load(disk)
			}
			if err := compare(s, m); err != nil {
				o.Fail("%v; after step %d %+v", err, i, st)
				return
			}
		}
		o.LabelIf(rejected > 0, "rejected updates")
		o.LabelIf(restarts > 0, "restarts")
		o.LabelIf(failing > 0, "failing saves")
		o.LabelIf(reregistered > 0, "refused registrations")
		o.Nontrivial = accepted > 1 && rejected > 0
		return
	}
}

func TestC19(t *testing.T) {
	pbt.Run(t, "C19", pbt.Part[history]{
		Name: "histories", Modes: "plain", Quick: 8000, Deep: 300000,
		Rule: "up to 40 calls (register with nine processors, deregister, update, batch, reset) over five keys, among them the empty one; every read call compared with a map model after each; non-trivial: two accepted updates and a rejected one",
		Gen:  genHistory(false), Run: runHistory("C19"),
	})
}

func TestC20(t *testing.T) {
	pbt.Run(t, "C20", pbt.Part[history]{
		Name: "persistence", Modes: "plain", Quick: 8000, Deep: 300000,
		Rule: "as C19, with saves, deletes and loads failing from some step on, loads, and restarts on the same persistence layer; after each call the persisted map, the calls made and all reads are compared; non-trivial: two accepted updates and a rejected one",
		Gen:  genHistory(true), Run: runHistory("C20"),
	})
}
