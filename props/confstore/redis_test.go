package confstore

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"gearsverif/pbt"
	"gearsverif/redistub"

	"github.com/chanjarster/gears/confstore"
	"github.com/go-redis/redis/v7"
	"pgregory.net/rapid"
)

func redisClient(s *redistub.Server, db int) *redis.Client {
	return redis.NewClient(&redis.Options{
		Dialer: func(context.Context, string, string) (net.Conn, error) { return s.Dial() },
		DB:     db, IdleCheckFrequency: -1, MaxRetries: -1, PoolSize: 8,
	})
}

type blob []byte // shown as text where it is text

type pstep struct {
	Op    string // save batch delete load put
	Root  int
	KVs   [][2]blob      `json:",omitempty"`
	Big   int            `json:",omitempty"` // so many further entries
	Fault redistub.Fault `json:",omitempty"`
	Down  bool           `json:",omitempty"`
	After int            `json:",omitempty"` // so many commands before the fault
	Once  bool           `json:",omitempty"` // only one command fails
}

type pcase struct {
	DB    int
	Roots []blob
	Keys  []blob
	Typed []string // processor of each key, "" for not registered
	Steps []pstep
}

var oddBlobs = []string{"", "a", "b", "true", "5", "a b", "a\x00b", "\r\n", "名前", "\xff\xfe", "*1\r\n$4\r\nPING\r\n", "{a}", "%s", "a:b", strings.Repeat("long", 3000)}

func genBlob(t *rapid.T, name string) blob {
	if rapid.IntRange(0, 3).Draw(t, name+" how") == 0 {
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, name)
	}
	b := blob(rapid.SampledFrom(oddBlobs).Draw(t, name))
	if name == "v" && rapid.IntRange(0, 39).Draw(t, "long") == 0 {
		b = append(b, bytes.Repeat([]byte("0123456789abcdef"), rapid.SampledFrom([]int{16, 256, 4096, 8193}).Draw(t, "length"))...)
	}
	return b
}

func genPersister(t *rapid.T) pcase {
	c := pcase{DB: rapid.IntRange(0, 3).Draw(t, "db")}
	c.Roots = append(c.Roots, rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) blob { return genBlob(t, "root") }), 1, 3, func(b blob) string { return string(b) }).Draw(t, "roots")...)
	c.Keys = rapid.SliceOfNDistinct(rapid.Custom(func(t *rapid.T) blob { return genBlob(t, "key") }), 2, 5, func(b blob) string { return string(b) }).Draw(t, "keys")
	for range c.Keys {
		c.Typed = append(c.Typed, rapid.SampledFrom([]string{"string", "string", "string", "bool", "int", ""}).Draw(t, "typed"))
	}
	faults := rapid.Bool().Draw(t, "faults")
	for i := rapid.IntRange(1, 16).Draw(t, "n"); i > 0; i-- {
		s := pstep{Op: rapid.SampledFrom([]string{"save", "save", "save", "batch", "batch", "delete", "load", "load", "load", "put"}).Draw(t, "op"), Root: rapid.IntRange(0, len(c.Roots)-1).Draw(t, "r")}
		kv := func() { s.KVs = append(s.KVs, [2]blob{rapid.SampledFrom(c.Keys).Draw(t, "k"), genBlob(t, "v")}) }
		switch s.Op {
		case "save", "delete", "put":
			kv()
		case "batch":
			for j := rapid.IntRange(0, 5).Draw(t, "entries"); j > 0; j-- {
				kv()
			}
			if rapid.IntRange(0, 5).Draw(t, "isbig") == 0 {
				s.Big = rapid.IntRange(1, 700).Draw(t, "big")
				if rapid.IntRange(0, 4).Draw(t, "isbigger") == 0 {
					s.Big = rapid.IntRange(701, 2500).Draw(t, "bigger")
				}
			}
		}
		if faults && rapid.IntRange(0, 2).Draw(t, "f") == 0 {
			s.Fault = rapid.SampledFrom([]redistub.Fault{redistub.ErrorReply, redistub.DropBefore, redistub.DropAfter, redistub.GarbageReply, redistub.Stall}).Draw(t, "fault")
			s.Down = rapid.IntRange(0, 3).Draw(t, "down") == 0
			if !s.Down && rapid.IntRange(0, 3).Draw(t, "later") == 0 {
				s.After = rapid.IntRange(1, 2).Draw(t, "after")
			}
			s.Once = !s.Down && rapid.IntRange(0, 2).Draw(t, "once") == 0
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// trouble makes commands fail until undone.
func trouble(srv *redistub.Server, f redistub.Fault, down bool, cls ...*redis.Client) (undo func()) {
	if f == redistub.OK {
		return func() {}
	}
	srv.Fault = func([]string) redistub.Fault { return f }
	if down {
		srv.DialFault = func() error { return errors.New("connection refused") }
		srv.CloseAll()
	}
	return func() {
		srv.Fault, srv.DialFault = nil, nil
		for _, cl := range cls { // the client finds out about its dead connections
			for i := 0; i < 20 && cl.Ping().Err() != nil; i++ {
				time.Sleep(2 * time.Second) // it pauses after many failures
			}
		}
	}
}

// settle accepts for each key either what it was or what a failed write (nil: removal) would make of it.
func settle(disk, got map[string]string, writes map[string][]string) {
	for k, vs := range writes {
		v, hit := got[k]
		if !hit && vs == nil {
			delete(disk, k)
		}
		for _, w := range vs {
			if hit && v == w {
				disk[k] = v
			}
		}
	}
}

func runPersister(c pcase) (o pbt.Outcome) {
	srv := redistub.New()
	cl := redisClient(srv, c.DB)
	defer srv.CloseAll()
	defer cl.Close()
	cl.Ping()
	disks := make([]map[string]string, len(c.Roots))
	stores := make([]confstore.Interface, len(c.Roots))
	models := make([]model, len(c.Roots))
	persisters := make([]confstore.Persister, len(c.Roots))
	for i := range c.Roots {
		disks[i] = map[string]string{}
		persisters[i] = confstore.NewRedisPersister(cl, string(c.Roots[i]))
		stores[i] = confstore.NewStore(confstore.NoopPersister, confstore.NoopLoadPolicy)
		models[i] = model{}
		for j, k := range c.Keys {
			if c.Typed[j] == "" || len(k) == 0 {
				continue
			}
			sp := spec(c.Typed[j])
			def := sp.valid[0]
			if err := stores[i].RegisterKey(string(k), def, sp.vp); err != nil {
				o.Fail("registering: %v", err)
				return
			}
			models[i][string(k)] = &entry{spec: sp, def: def}
		}
	}
	valid := func(sp procSpec, v string) bool {
		switch sp.name {
		case "string":
			return true
		case "bool":
			return v == "true" || v == "false"
		}
		n, err := strconv.Atoi(v) // values are drawn from all bytes, "1" happens
		return err == nil && -3 <= n && n < 77
	}
	loads, faults, skipped := 0, 0, 0
	for i, s := range c.Steps {
		if s.Fault != redistub.OK {
			faults++
		}
		p, disk := persisters[s.Root], disks[s.Root]
		var kvs []*confstore.KVStr
		for _, kv := range s.KVs {
			kvs = append(kvs, &confstore.KVStr{Key: string(kv[0]), Value: string(kv[1])})
		}
		for j := 0; j < s.Big; j++ {
			kvs = append(kvs, &confstore.KVStr{Key: fmt.Sprintf("big%d", j), Value: fmt.Sprint(i)})
		}
		if s.Op == "put" { // by somebody else
			for _, kv := range kvs {
				disk[kv.Key] = kv.Value
			}
			srv.SetHash(c.DB, string(c.Roots[s.Root]), disk)
			continue
		}
		srv.ClearLog()
		undo := trouble(srv, s.Fault, s.Down, cl)
		var commands, struck atomic.Int64
		if s.Fault != redistub.OK && (s.After > 0 || s.Once) {
			srv.Fault = func([]string) redistub.Fault {
				if n := commands.Add(1); n > int64(s.After) && (!s.Once || n == int64(s.After)+1) {
					struck.Store(1)
					return s.Fault
				}
				return redistub.OK
			}
		}
		var err error
		switch s.Op {
		case "save":
			err = p.Save(kvs[0].Key, kvs[0].Value)
		case "batch":
			err = p.BatchSave(kvs)
		case "delete":
			err = p.Delete(kvs[0].Key)
		case "load":
			err = p.Load(stores[s.Root])
		}
		sent := srv.Log()
		undo()
		fails := s.Fault != redistub.OK && (s.After == 0 && !s.Once || struck.Load() > 0)
		if s.Op == "batch" && len(kvs) == 0 {
			fails = false
			for _, cmd := range sent {
				o.Fail("empty batch: sent %q", cmd.Args)
				return
			}
		}
		if s.Once && err == nil { // it may have tried again; then all of it must be there
			fails = false
		}
		if fails != (err != nil) {
			o.Fail("error of %s: step %d %+v returned %v", s.Op, i, s, err)
			return
		}
		writes := map[string][]string{}
		switch s.Op {
		case "save", "batch":
			for _, kv := range kvs {
				writes[kv.Key] = append(writes[kv.Key], kv.Value)
			}
		case "delete":
			writes[kvs[0].Key] = nil
		}
		if !fails {
			for k, vs := range writes {
				if vs == nil {
					delete(disk, k)
				} else {
					disk[k] = vs[len(vs)-1]
				}
			}
		} else {
			settle(disk, srv.Hash(c.DB, string(c.Roots[s.Root])), writes)
		}
		if s.Op == "load" && !fails {
			loads++
			for k, v := range disk {
				if e := models[s.Root][k]; e != nil && valid(e.spec, v) {
					e.cur = &v
				} else {
					skipped++
				}
			}
		}
		for r := range c.Roots {
			got := srv.Hash(c.DB, string(c.Roots[r]))
			if len(got) == 0 && len(disks[r]) == 0 {
				continue
			}
			if !reflect.DeepEqual(got, disks[r]) {
				o.Fail("saved values: root %q has %.400q, expected %.400q after step %d %s root %d fault %d", c.Roots[r], got, disks[r], i, s.Op, s.Root, s.Fault)
				return
			}
			for _, k := range c.Keys {
				v, hit := stores[r].GetValueString(string(k))
				if e := models[r][string(k)]; hit != (e != nil) || hit && v != e.str() {
					o.Fail("loaded values: key %.100q reads %.100q (%v) after step %d %s fault %d", k, v, hit, i, s.Op, s.Fault)
					return
				}
			}
		}
		for db := 0; db < 4; db++ {
			for _, k := range srv.Keys(db) {
				known := false
				for _, r := range c.Roots {
					known = known || db == c.DB && k == string(r)
				}
				if !known {
					o.Fail("saved values: unknown key %.100q in database %d", k, db)
					return
				}
			}
		}
	}
	o.LabelIf(faults > 0, "faults")
	o.LabelIf(skipped > 0, "skipped entries")
	o.Nontrivial = loads > 0 && len(c.Steps) > 3
	return
}

// ------------------------------------------------ stores sharing the service

type sstep struct {
	Store int
	step
	Fault redistub.Fault `json:",omitempty"`
	Down  bool           `json:",omitempty"`
}

type shared struct {
	Roots []int      // of each store
	Reg   [][]string // processor of each key in each store
	Steps []sstep
}

func genShared(t *rapid.T) shared {
	c := shared{}
	for i := rapid.IntRange(2, 3).Draw(t, "stores"); i > 0; i-- {
		c.Roots = append(c.Roots, rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "root"))
		var reg []string
		for j := 0; j < 4; j++ {
			reg = append(reg, rapid.SampledFrom([]string{"string", "string", "int", "short", "own", ""}).Draw(t, "reg"))
		}
		c.Reg = append(c.Reg, reg)
	}
	for i := rapid.IntRange(1, 15).Draw(t, "n"); i > 0; i-- {
		s := sstep{Store: rapid.IntRange(0, len(c.Roots)-1).Draw(t, "store")}
		s.Op = rapid.SampledFrom([]string{"update", "update", "update", "batch", "reset", "deregister", "restart"}).Draw(t, "op")
		s.Key = rapid.IntRange(0, 3).Draw(t, "key")
		val := func() string {
			return rapid.SampledFrom([]string{"5", "0", "abc", "-3", "77", "abcdef", "", "名"}).Draw(t, "v")
		}
		switch s.Op {
		case "update":
			s.Val = val()
		case "batch":
			for j := rapid.IntRange(0, 4).Draw(t, "entries"); j > 0; j-- {
				s.KVs = append(s.KVs, [2]string{key(rapid.IntRange(0, 4).Draw(t, "bkey")), val()})
			}
		}
		if rapid.IntRange(0, 4).Draw(t, "f") == 0 {
			s.Fault = rapid.SampledFrom([]redistub.Fault{redistub.ErrorReply, redistub.DropBefore, redistub.DropAfter, redistub.GarbageReply, redistub.Stall}).Draw(t, "fault")
			s.Down = rapid.IntRange(0, 3).Draw(t, "down") == 0
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runShared(c shared) (o pbt.Outcome) {
	srv := redistub.New()
	defer srv.CloseAll()
	var cls []*redis.Client
	defer func() {
		for _, cl := range cls {
			cl.Close()
		}
	}()
	disks := []map[string]string{{}, {}}
	stores := make([]confstore.Interface, len(c.Roots))
	models := make([]model, len(c.Roots))
	start := func(i int) error {
		if cls[i] != nil {
			cls[i].Close()
		}
		cls[i] = redisClient(srv, 0)
		stores[i] = confstore.NewStore(confstore.NewRedisPersister(cls[i], fmt.Sprint("root", c.Roots[i])), confstore.SimpleLoadPolicy)
		models[i] = model{}
		for j, name := range c.Reg[i] {
			if name == "" {
				continue
			}
			sp := spec(name)
			if err := stores[i].RegisterKey(key(j), sp.valid[0], sp.vp); err != nil {
				return err
			}
			models[i][key(j)] = &entry{spec: sp, def: sp.valid[0]}
		}
		return nil
	}
	for i := range c.Roots {
		cls = append(cls, nil)
		if err := start(i); err != nil {
			o.Fail("registering: %v", err)
			return
		}
	}
	cross, faults := 0, 0
	for i, s := range c.Steps {
		st, m, disk := stores[s.Store], models[s.Store], disks[c.Roots[s.Store]]
		k := key(s.Key)
		stored := s.Fault == redistub.OK
		writes := map[string][]string{}
		undo := trouble(srv, s.Fault, s.Down, cls...)
		switch s.Op {
		case "update":
			e := st.Update(k, s.Val)
			ok := m.update(k, s.Val)
			if ok != (e == nil) {
				o.Fail("answer of an update: step %d %+v gave %v", i, s, e)
			}
			if ok {
				writes[k] = []string{s.Val}
			}
		case "batch":
			var kvs []*confstore.KVStr
			bad := 0
			for _, kv := range s.KVs {
				kvs = append(kvs, &confstore.KVStr{Key: kv[0], Value: kv[1]})
				if m.update(kv[0], kv[1]) {
					writes[kv[0]] = append(writes[kv[0]], kv[1])
				} else if kv[0] != "" {
					bad++
				}
			}
			if errs := st.BatchUpdate(kvs); len(errs) != bad {
				o.Fail("errors of a batch: step %d %+v gave %v", i, s, errs)
			}
		case "reset", "deregister":
			if s.Op == "reset" {
				st.ResetKey(k)
				if e := m[k]; e != nil {
					e.cur = nil
				}
			} else {
				st.DeregisterKey(k)
				delete(m, k)
			}
			writes[k] = nil
		case "restart":
			if err := start(s.Store); err != nil {
				o.Fail("registering: %v", err)
			}
			st, m = stores[s.Store], models[s.Store]
		}
		if stored {
			for k, vs := range writes {
				if vs == nil {
					delete(disk, k)
				} else {
					disk[k] = vs[len(vs)-1]
				}
			}
		} else {
			settle(disk, srv.Hash(0, fmt.Sprint("root", c.Roots[s.Store])), writes)
		}
		if s.Fault != redistub.OK {
			faults++
			// what is read while the service fails is what was there
			if s.Fault != redistub.DropAfter {
				if err := compare(st, m); err != nil {
					o.Fail("%v; the service failing, after step %d %+v", err, i, s)
				}
			}
		}
		undo()
		if o.Err != nil {
			return
		}
		for j := range stores {
			models[j].load(disks[c.Roots[j]])
			if j != s.Store && c.Roots[j] == c.Roots[s.Store] && len(disks[c.Roots[j]]) > 0 {
				cross++
			}
			if err := compare(stores[j], models[j]); err != nil {
				o.Fail("%v; store %d after step %d %+v", err, j, i, s)
				return
			}
		}
		for r, d := range disks {
			got := srv.Hash(0, fmt.Sprint("root", r))
			if !(len(got) == 0 && len(d) == 0) && !reflect.DeepEqual(got, d) {
				o.Fail("saved values: root %d has %q, expected %q after step %d %+v", r, got, d, i, s)
				return
			}
		}
	}
	o.LabelIf(faults > 0, "faults")
	o.Nontrivial = cross > 2
	return
}

func TestC23(t *testing.T) {
	pbt.Run(t, "C23", pbt.Part[pcase]{
		Name: "persister", Quick: 4000, Deep: 150000, Bubble: true,
		Rule: "up to 16 saves, batches (up to 2500 entries), deletes and loads over one to three roots with any bytes, with commands failing in five ways and the service down; the service's hashes and the values of a store with typed keys compared with a model after each; non-trivial: more than three steps and a load",
		Gen:  genPersister, Run: runPersister,
	})
	pbt.Run(t, "C23", pbt.Part[shared]{
		Name: "stores", Quick: 600, Deep: 15000, Bubble: true,
		Rule: "two or three stores over one or two roots with the immediate policy, differing in registrations; updates, batches, resets, deregistrations and restarts, with failures; all reads of all stores and the service's hashes compared with a model; non-trivial: more than two steps seen by another store",
		Gen:  genShared, Run: runShared,
	})
}
