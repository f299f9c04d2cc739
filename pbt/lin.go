package pbt

import (
	"fmt"
	"sort"
	"sync/atomic"
)

// Op is one call of a concurrent history: Call and Ret are positions in a total
// order of events; Ret is 0 for a call that never returned.
type Op struct {
	Name string
	Arg  any
	Out  any
	Call int64
	Ret  int64
}

// Clock stamps calls and returns.
type Clock struct{ n atomic.Int64 }

func (c *Clock) Tick() int64 { return c.n.Add(1) }

// Linearizable searches for an order of the calls that respects their overlap
// and that step accepts. S must be comparable by its String-able %v form.
func Linearizable[S any](init S, ops []Op, step func(s S, op Op) (S, bool)) bool {
	n := len(ops)
	if n > 62 {
		panic("history too long")
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	type key struct {
		done uint64
		s    string
	}
	failed := map[key]bool{}
	var full uint64 // every call that returned
	for i, o := range ops {
		if o.Ret != 0 {
			full |= 1 << i
		}
	}
	var rec func(done uint64, s S) bool
	rec = func(done uint64, s S) bool {
		if done&full == full {
			return true
		}
		k := key{done, fmt.Sprintf("%v", s)}
		if failed[k] {
			return false
		}
		// an op may come next if no undone op returned before it was called
		minRet := int64(1) << 62
		for i, o := range ops {
			if done&(1<<i) == 0 && o.Ret != 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if done&(1<<i) != 0 || o.Call > minRet {
				continue
			}
			if s2, ok := step(s, o); ok && rec(done|1<<i, s2) {
				return true
			}
		}
		failed[k] = true
		return false
	}
	return rec(0, init)
}
