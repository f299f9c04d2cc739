package confstore

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"gearsverif/vsync"

	"github.com/chanjarster/gears/confstore"
	"pgregory.net/rapid"
)

// procSpec is a processor together with an independent reading of its format.
type procSpec struct {
	name  string
	vp    confstore.ValueProcessor
	valid []string
	bad   []string
	conv  func(string) any
}

func (p procSpec) ok(v string) bool {
	for _, s := range p.valid {
		if s == v {
			return true
		}
	}
	return false
}

func ident(s string) any { return s }

func atoi(s string) any { n, _ := strconv.Atoi(s); return n }

var durs = map[string]time.Duration{"1s": time.Second, "0": 0, "5": 5, "1h30m": 90 * time.Minute, "-2ms": -2 * time.Millisecond}

// Which of the values a processor takes is listed by hand.
var allValues = []string{"", "true", "false", "0", "5", "-3", "77", "1s", "1h30m", "-2ms", "abc", "abcdef", "#12abEF", "tRue", " 5", "red", "名",
	strings.Repeat("7", 65), strings.Repeat("Long value, ", 30), strings.Repeat("名", 500)}

var specs = []procSpec{
	{name: "bool", vp: confstore.Bool, valid: []string{"true", "false"}, conv: func(s string) any { return s == "true" }},
	{name: "int", vp: confstore.IntProcessor(-3, true, 77, false), valid: []string{"0", "5", "-3"}, conv: atoi},
	{name: "gt0", vp: confstore.IntGtZero, valid: []string{"5", "77"}, conv: atoi},
	{name: "duration", vp: confstore.Duration, valid: []string{"1s", "0", "1h30m", "-2ms"}, conv: func(s string) any { return durs[s] }},
	{name: "string", vp: confstore.String, valid: allValues, conv: ident},
	{name: "short", vp: confstore.StringProcessor(1, 3), valid: []string{"0", "5", "-3", "77", "1s", "abc", " 5", "red", "名"}, conv: ident},
	{name: "enum", vp: confstore.EnumProcessor([]string{"red", "abc", ""}), valid: []string{"red", "abc", ""}, conv: ident},
	{name: "css", vp: confstore.CssColorHex, valid: []string{"", "#12abEF"}, conv: ident},
	{name: "perhaps", vp: perhapsProc{}, valid: allValues, conv: perhapsProc{}.Convert},
	{name: "own", vp: ownProc{}, valid: []string{"5", "abc"}, conv: func(s string) any { return ownValue{s} }},
}

// ownProc is a processor of the application.
type ownProc struct{}
type ownValue struct{ s string }

func (ownProc) Validate(v string) (bool, string) {
	vsync.P()
	if v == "5" || v == "abc" {
		return true, ""
	}
	return false, "neither 5 nor abc"
}
func (ownProc) Convert(v string) any { vsync.P(); return ownValue{v} }

// perhapsProc makes nothing of some values.
type perhapsProc struct{}

func (perhapsProc) Validate(string) (bool, string) { return true, "" }
func (perhapsProc) Convert(v string) any {
	if len(v) < 2 {
		return nil
	}
	return v
}

// nilProc is a processor whose nil pointer is not nil as an interface.
type nilProc struct{}

func (*nilProc) Validate(string) (bool, string) { return true, "" }
func (*nilProc) Convert(v string) any           { return v }

func spec(name string) procSpec {
	for _, s := range specs {
		if s.name == name {
			return s
		}
	}
	panic(name)
}

// value draws a value that suits the processor more often than not.
func value(t *rapid.T, p procSpec) string {
	if rapid.IntRange(0, 2).Draw(t, "any") == 0 {
		return rapid.SampledFrom(allValues).Draw(t, "value")
	}
	return rapid.SampledFrom(p.valid).Draw(t, "value")
}

// ----------------------------------------------------------- persistence

type saved struct {
	Op string
	KV [][2]string
}

// memory is a persistence layer that keeps a map, records every call, and fails
// on request.
type memory struct {
	mu       sync.Mutex
	m        map[string]string
	calls    []saved
	failSave bool
	failDel  bool
	failLoad bool
	slow     time.Duration
	loads    []time.Duration // start of each load, since begin
	begin    time.Time
	onLoad   func(fail bool)
	inside   int
	overlap  int // changes that ran at the same time
}

var errPersist = errors.New("persistence failed")

func newMemory() *memory { return &memory{m: map[string]string{}, begin: time.Now()} }

func (p *memory) enter() {
	vsync.P()
	p.mu.Lock()
	p.inside++
	p.mu.Unlock()
}

func (p *memory) Save(k, v string) error {
	p.enter()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.calls = append(p.calls, saved{"save", [][2]string{{k, v}}})
	if p.failSave {
		return errPersist
	}
	p.m[k] = v
	return nil
}

func (p *memory) BatchSave(kvs []*confstore.KVStr) error {
	p.enter()
	p.mu.Lock()
	defer p.mu.Unlock()
	c := saved{Op: "batch"}
	for _, kv := range kvs {
		if kv == nil {
			c.KV = append(c.KV, [2]string{"nil entry", ""})
			continue
		}
		c.KV = append(c.KV, [2]string{kv.Key, kv.Value})
	}
	p.calls = append(p.calls, c)
	if p.failSave {
		return errPersist
	}
	for _, kv := range c.KV {
		p.m[kv[0]] = kv[1]
	}
	return nil
}

func (p *memory) Delete(k string) error {
	p.enter()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.calls = append(p.calls, saved{"delete", [][2]string{{k, ""}}})
	if p.failDel {
		return errPersist
	}
	delete(p.m, k)
	return nil
}

func (p *memory) Load(s confstore.Interface) error {
	vsync.P()
	p.mu.Lock()
	p.loads = append(p.loads, time.Since(p.begin))
	slow, fail := p.slow, p.failLoad
	p.mu.Unlock()
	if slow > 0 {
		time.Sleep(slow)
	}
	if fail {
		return errPersist
	}
	p.mu.Lock()
	m := map[string]string{}
	for k, v := range p.m {
		m[k] = v
	}
	p.mu.Unlock()
	for k, v := range m {
		s.UpdateNoPersist(k, v)
	}
	return nil
}

func (p *memory) snapshot() map[string]string {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := map[string]string{}
	for k, v := range p.m {
		m[k] = v
	}
	return m
}

func (p *memory) takeCalls() []saved {
	p.mu.Lock()
	defer p.mu.Unlock()
	c := p.calls
	p.calls = nil
	return c
}

// ----------------------------------------------------------- reference model

type entry struct {
	spec procSpec
	def  string
	cur  *string
}

func (e *entry) str() string {
	if e.cur != nil {
		return *e.cur
	}
	return e.def
}

type model map[string]*entry

func (m model) update(k, v string) bool {
	e := m[k]
	if e == nil || !e.spec.ok(v) {
		return false
	}
	e.cur = &v
	return true
}

func (m model) load(persisted map[string]string) {
	for k, v := range persisted {
		m.update(k, v)
	}
}

var keyNames = []string{"a", "b", "c.d", "名前", ""}

func key(i int) string { return keyNames[i%len(keyNames)] }

// compare reads everything through every read call.
func compare(s confstore.Interface, m model) error {
	var order []string
	for i := range keyNames {
		order = append(order, key(i))
	}
	order = append(order, "b", "unknown", "a", "")
	var wantKV []*confstore.KV
	var wantStr []*confstore.KVStr
	for _, k := range order {
		e := m[k]
		v, hit := s.GetValue(k)
		str, hitStr := s.GetValueString(k)
		mv, mhit := must(func() any { return s.MustGetValue(k) })
		ms, mshit := must(func() any { return s.MustGetValueString(k) })
		if e == nil {
			if hit || hitStr || v != nil || str != "" {
				return fmt.Errorf("value of a missing key: %q reads %v (%v), %q (%v)", k, v, hit, str, hitStr)
			}
			if mhit || mshit {
				return fmt.Errorf("value of a missing key: the must-forms did not panic for %q: %v %v", k, mv, ms)
			}
			continue
		}
		want, conv := e.str(), e.spec.conv(e.str())
		if !hit || !hitStr || str != want || !reflect.DeepEqual(v, conv) {
			return fmt.Errorf("value of a key: %q reads %#v (%v) and %q (%v), expected %#v and %q", k, v, hit, str, hitStr, conv, want)
		}
		if !mhit || !mshit || ms != want || !reflect.DeepEqual(mv, conv) {
			return fmt.Errorf("value of a key: the must-forms of %q give %#v (%v) and %#v (%v), expected %#v and %q", k, mv, mhit, ms, mshit, conv, want)
		}
		wantKV = append(wantKV, &confstore.KV{Key: k, Value: conv})
		wantStr = append(wantStr, &confstore.KVStr{Key: k, Value: want})
	}
	if got := s.BatchGetValues(order); !(len(got) == 0 && len(wantKV) == 0) && !reflect.DeepEqual(got, wantKV) {
		return fmt.Errorf("batch read: %v, expected %v", got, wantKV)
	}
	if got := s.BatchGetValueString(order); !(len(got) == 0 && len(wantStr) == 0) && !reflect.DeepEqual(got, wantStr) {
		return fmt.Errorf("batch read: %v, expected %v", got, wantStr)
	}
	return nil
}

func must(f func() any) (v any, ok bool) {
	defer func() {
		if recover() != nil {
			v, ok = nil, false
		}
	}()
	return f(), true
}
