package ratelimiter

import (
	"context"
	"errors"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"gearsverif/pbt"
	"gearsverif/redistub"

	"github.com/chanjarster/gears/ratelimiter"
	"github.com/go-redis/redis/v7"
	"pgregory.net/rapid"
)

// params may change between requests.
type params struct{ capacity, window, timeout int }

func (p *params) GetWindowSizeSeconds() int { return p.window }
func (p *params) GetCapacity() int          { return p.capacity }
func (p *params) GetTimeoutSeconds() int    { return p.timeout }

func client(s *redistub.Server) *redis.Client {
	return redis.NewClient(&redis.Options{
		Dialer:             func(context.Context, string, string) (net.Conn, error) { return s.Dial() },
		IdleCheckFrequency: -1, MaxRetries: -1, PoolSize: 16,
	})
}

const (
	second = time.Second
	fuzzy  = 3 * time.Millisecond // expiry is kept in milliseconds
)

type block struct {
	until time.Time
	msg   string
}

// pass is a request that passed. When parameters change at run time, what was
// outside the window or beyond the capacity in between needs not be remembered.
type pass struct {
	at     time.Time
	window int // shortest in force since then
	gone   bool
}

// ttlModel is what the documentation promises, per key and block key.
type ttlModel struct {
	passes map[string][]pass
	blocks map[string]*block
}

func newTtlModel() *ttlModel {
	return &ttlModel{passes: map[string][]pass{}, blocks: map[string]*block{}}
}

// blocked: 0 no, 1 yes, 2 the very end of the block, either way.
func (m *ttlModel) blocked(bk string, now time.Time) int {
	b := m.blocks[bk]
	if b == nil {
		return 0
	}
	rem := b.until.Sub(now)
	switch {
	case rem > fuzzy:
		return 1
	case rem < -fuzzy:
		return 0
	}
	return 2
}

// full: 0 the request passes, 1 it exceeds, 2 depends on the second's rounding.
func (m *ttlModel) full(key string, capacity, window int, now time.Time) int {
	sure, maybe := 0, 0
	for _, p := range m.passes[key] {
		d := now.Sub(p.at)
		if !p.gone && d <= time.Duration(min(window, p.window))*second {
			sure++
		}
		if d < time.Duration(window+1)*second {
			maybe++
		}
	}
	switch {
	case sure >= capacity:
		return 1
	case maybe < capacity:
		return 0
	}
	return 2
}

func ttlOk(ttl int, rem time.Duration, timeout int) bool {
	lo := max(1, int((rem-fuzzy)/second))
	hi := max(1, int((rem+fuzzy+second-1)/second))
	return ttl >= lo && ttl <= min(hi, timeout)
}

func showRes(r *ratelimiter.Result) string {
	return fmt.Sprintf("{block %v triggered %v ttl %d msg %q}", r.Block, r.Triggered, r.Ttl, r.Msg)
}

// judge compares one answer with the model and moves the model on. The
// timeout is the one configured now; a running block keeps its own.
func (m *ttlModel) judge(p params, longest int, key, bk, msg string, now time.Time, r *ratelimiter.Result) error {
	zero := !r.Block && !r.Triggered && r.Ttl == 0 && r.Msg == ""
	if p.capacity <= 0 || p.window <= 0 || p.timeout <= 0 {
		if !zero {
			return fmt.Errorf("unset parameters: answer %s for %+v", showRes(r), p)
		}
		return nil
	}
	b := m.blocked(bk, now)
	if b == 2 {
		b = 0
		if r.Block && !r.Triggered {
			b = 1
		}
	}
	if b == 1 {
		bl := m.blocks[bk]
		if !r.Block || r.Triggered {
			return fmt.Errorf("request during a block: answer %s, blocked for another %v", showRes(r), bl.until.Sub(now))
		}
		if r.Msg != bl.msg {
			return fmt.Errorf("message during a block: %q, the block was triggered with %q", r.Msg, bl.msg)
		}
		if !ttlOk(r.Ttl, bl.until.Sub(now), longest) {
			return fmt.Errorf("remaining time: ttl %d, the block lasts %v more", r.Ttl, bl.until.Sub(now))
		}
		return nil
	}
	f := m.full(key, p.capacity, p.window, now)
	if f == 2 {
		f = 0
		if r.Block {
			f = 1
		}
	}
	if f == 0 {
		if !zero {
			return fmt.Errorf("request within capacity: answer %s, %d of %d passed within %d s: %s", showRes(r), len(m.passes[key]), p.capacity, p.window, m.ages(key, now))
		}
		m.passes[key] = append(m.passes[key], pass{at: now, window: p.window})
		m.settle(key, p)
		return nil
	}
	m.settle(key, p)
	if !r.Block || !r.Triggered {
		return fmt.Errorf("request beyond capacity: answer %s, capacity %d within %d s, passed %s ago", showRes(r), p.capacity, p.window, m.ages(key, now))
	}
	if r.Ttl != p.timeout || r.Msg != msg {
		return fmt.Errorf("triggering answer: %s, expected ttl %d and message %q", showRes(r), p.timeout, msg)
	}
	m.blocks[bk] = &block{now.Add(time.Duration(p.timeout) * second), msg}
	return nil
}

// settle notes what a request with these parameters may make Redis forget.
func (m *ttlModel) settle(key string, p params) {
	l := m.passes[key]
	for i := range l {
		l[i].window = min(l[i].window, p.window)
		l[i].gone = l[i].gone || i < len(l)-p.capacity
	}
}

func (m *ttlModel) ages(key string, now time.Time) string {
	var s []string
	for _, p := range m.passes[key] {
		s = append(s, now.Sub(p.at).String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

func (m *ttlModel) judgeQuery(longest int, bk string, now time.Time, r *ratelimiter.Result) error {
	zero := !r.Block && !r.Triggered && r.Ttl == 0 && r.Msg == ""
	b := m.blocked(bk, now)
	if b == 2 {
		b = 0
		if r.Block {
			b = 1
		}
	}
	if b == 0 {
		if !zero {
			return fmt.Errorf("query without a block: answer %s", showRes(r))
		}
		return nil
	}
	bl := m.blocks[bk]
	if !r.Block || r.Triggered || r.Msg != bl.msg || !ttlOk(r.Ttl, bl.until.Sub(now), longest) {
		return fmt.Errorf("query during a block: answer %s, blocked for another %v with message %q", showRes(r), bl.until.Sub(now), bl.msg)
	}
	return nil
}

// ----------------------------------------------------- one key, exact times

type ttlStep struct {
	Gap    int64
	Client int
	Msg    string
	Unset  int `json:",omitempty"` // 1..3: this parameter is unset for the request
	Factor int `json:",omitempty"` // timeout of this request, times
	Query  bool
	Burst  int `json:",omitempty"` // concurrent requests instead of one
	Cap    int `json:",omitempty"` // capacity from this request on
	Win    int `json:",omitempty"` // window from this request on
}

type ttlCase struct {
	Key      string
	Capacity int
	Window   int
	Timeout  int
	Fixed    bool
	Steps    []ttlStep
	Seed     uint64
}

var anyMsg = rapid.OneOf(
	rapid.SampledFrom([]string{"", "m", "blocked", "1", "0", "nil", "ü\x00\xff", "line\r\nfeed", "{1}"}),
	rapid.StringN(0, 12, 40),
	rapid.Custom(func(t *rapid.T) string {
		n := rapid.SampledFrom([]int{20, 64, 100, 127, 128, 200, 255, 256, 257, 1000, 5000, 70000}).Draw(t, "length")
		return strings.Repeat("long message ", n/13+1)[:n]
	}),
)

func genTtl(t *rapid.T) ttlCase {
	c := ttlCase{
		Key:      rapid.SampledFrom([]string{"k", "", "user:1", "a b", "ключ", "{t}", "x\x00y"}).Draw(t, "key"),
		Capacity: rapid.SampledFrom([]int{1, 1, 2, 2, 3, 5}).Draw(t, "capacity"),
		Window:   rapid.SampledFrom([]int{1, 2, 3, 5, 10, 60}).Draw(t, "window"),
		Timeout:  rapid.SampledFrom([]int{1, 2, 3, 5, 10, 60}).Draw(t, "timeout"),
		Fixed:    rapid.Bool().Draw(t, "fixed"),
		Seed:     seed(t),
	}
	if rapid.IntRange(0, 11).Draw(t, "unset") == 0 {
		*rapid.SampledFrom([]*int{&c.Capacity, &c.Window, &c.Timeout}).Draw(t, "which") = rapid.IntRange(-2, 0).Draw(t, "nonpositive")
	}
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		l := rapid.SampledFrom([]int{3599, 3600, 3601, 7200, 86400, 86401, 7 * 86400, 30 * 86400, 365 * 86400})
		switch rapid.IntRange(0, 2).Draw(t, "which long") {
		case 0:
			c.Window = l.Draw(t, "long window")
		case 1:
			c.Timeout = l.Draw(t, "long timeout")
		case 2:
			c.Window, c.Timeout = l.Draw(t, "long window"), l.Draw(t, "long timeout")
		}
	}
	bursts := rapid.IntRange(0, 3).Draw(t, "bursts") == 0
	changing := !c.Fixed && rapid.IntRange(0, 2).Draw(t, "changing") == 0
	n := rapid.IntRange(1, 40).Draw(t, "n")
	for i := 0; i < n; i++ {
		s := ttlStep{Client: rapid.IntRange(0, 2).Draw(t, "client"), Msg: anyMsg.Draw(t, "msg")}
		w, to := int64(max(1, c.Window))*sec, int64(max(1, c.Timeout))*sec
		switch rapid.IntRange(0, 10).Draw(t, "gapkind") {
		case 0, 1, 2, 3, 4:
		case 5:
			s.Gap = rapid.Int64Range(0, 2*sec).Draw(t, "gap")
		case 6:
			s.Gap = rapid.Int64Range(0, w+2*sec).Draw(t, "gapw")
		case 7:
			s.Gap = rapid.Int64Range(0, to+2*sec).Draw(t, "gapt")
		case 8:
			s.Gap = to - rapid.Int64Range(10, 999).Draw(t, "ms")*int64(time.Millisecond)
		case 9:
			s.Gap = w + rapid.SampledFrom([]int64{-1, 0, 1, sec}).Draw(t, "off")
		case 10:
			s.Gap = to + rapid.SampledFrom([]int64{-10, 10}).Draw(t, "off")*int64(time.Millisecond)
		}
		s.Gap = max(0, s.Gap)
		if bursts {
			s.Gap = (s.Gap + sec/2) / sec * sec
			if rapid.IntRange(0, 2).Draw(t, "burst") == 0 {
				s.Burst = rapid.IntRange(2, 6).Draw(t, "size")
			}
		} else if !c.Fixed {
			if rapid.IntRange(0, 7).Draw(t, "u") == 0 {
				s.Unset = rapid.IntRange(1, 3).Draw(t, "param")
			}
			if rapid.IntRange(0, 5).Draw(t, "f") == 0 {
				s.Factor = rapid.IntRange(2, 4).Draw(t, "factor")
			}
		}
		if changing {
			if rapid.IntRange(0, 4).Draw(t, "newcap") == 0 {
				s.Cap = rapid.IntRange(1, 5).Draw(t, "cap")
			}
			if rapid.IntRange(0, 9).Draw(t, "newwin") == 0 {
				s.Win = rapid.SampledFrom([]int{1, 2, 3, 5, 10, 60}).Draw(t, "win")
			}
		}
		s.Query = s.Burst == 0 && rapid.IntRange(0, 5).Draw(t, "query") == 0
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runTtl(c ttlCase) (o pbt.Outcome) {
	srv := redistub.New()
	p := &params{c.Capacity, c.Window, c.Timeout}
	var ls []ratelimiter.TtlRateLimiter
	for i := 0; i < 3; i++ {
		cl := client(srv)
		defer cl.Close()
		if i == 0 {
			ratelimiter.LoadScript(cl)
		}
		if c.Fixed {
			ls = append(ls, ratelimiter.NewRedisTtlRateLimiter(cl, ratelimiter.NewFixedTtlRateLimiterParams(c.Capacity, c.Window, c.Timeout)))
		} else {
			ls = append(ls, ratelimiter.NewRedisTtlRateLimiter(cl, p))
		}
	}
	if l := ls[0]; l.GetCapacity() != c.Capacity || l.GetWindowSizeSeconds() != c.Window || l.GetTimeoutSeconds() != c.Timeout {
		o.Fail("reported parameters: %d %d %d of %d %d %d", l.GetCapacity(), l.GetWindowSizeSeconds(), l.GetTimeoutSeconds(), c.Capacity, c.Window, c.Timeout)
		return
	}
	m := newTtlModel()
	longest := max(0, c.Timeout) * 4
	trig, during, after, bursts := 0, 0, 0, 0
	lat := c.Seed
	shrunk, rewin := false, false
	for i, s := range c.Steps {
		time.Sleep(time.Duration(s.Gap))
		now := time.Now()
		if s.Cap > 0 && c.Capacity > 0 {
			shrunk = shrunk || s.Cap < c.Capacity
			c.Capacity = s.Cap
		}
		if s.Win > 0 && c.Window > 0 {
			rewin = rewin || s.Win != c.Window
			c.Window = s.Win
		}
		*p = params{c.Capacity, c.Window, c.Timeout}
		if s.Factor > 0 {
			p.timeout *= s.Factor
		}
		switch s.Unset {
		case 1:
			p.capacity = 0
		case 2:
			p.window = 0
		case 3:
			p.timeout = -1
		}
		keysBefore := len(srv.Keys(0))
		if s.Query {
			if err := m.judgeQuery(longest, c.Key, now, ls[s.Client].IsBlocked(c.Key)); err != nil {
				o.Fail("%v (step %d)", err, i)
				return
			}
			continue
		}
		if s.Burst > 0 {
			// concurrent requests, served by Redis in some order
			bursts++
			var mu sync.Mutex
			srv.Latency = func() time.Duration {
				mu.Lock()
				defer mu.Unlock()
				lat = lat*6364136223846793005 + 1442695040888963407
				return time.Duration(lat>>40) % 997
			}
			type ans struct {
				r   *ratelimiter.Result
				msg string
			}
			ch := make(chan ans, s.Burst)
			for j := 0; j < s.Burst; j++ {
				msg := fmt.Sprintf("%s/%d/%d", s.Msg, i, j)
				l := ls[j%3]
				go func() { ch <- ans{l.ShouldBlock(c.Key, msg), msg} }()
			}
			var as []ans
			for j := 0; j < s.Burst; j++ {
				as = append(as, <-ch)
			}
			srv.Latency = nil
			// order the answers as the model wants them: passes, the trigger, the rest
			rank := func(r *ratelimiter.Result) int {
				switch {
				case !r.Block:
					return 0
				case r.Triggered:
					return 1
				}
				return 2
			}
			for k := 0; k < 3; k++ {
				for _, a := range as {
					if rank(a.r) == k {
						if k == 1 {
							trig++
						}
						if err := m.judge(*p, longest, c.Key, c.Key, a.msg, now, a.r); err != nil {
							o.Fail("%v (burst at step %d)", err, i)
							return
						}
					}
				}
			}
			// back to the grid
			time.Sleep(now.Add(100 * time.Millisecond).Sub(time.Now()))
			time.Sleep(900 * time.Millisecond)
			continue
		}
		was := m.blocked(c.Key, now)
		r := ls[s.Client].ShouldBlock(c.Key, s.Msg)
		if err := m.judge(*p, longest, c.Key, c.Key, s.Msg, now, r); err != nil {
			o.Fail("%v (step %d)", err, i)
			return
		}
		if (p.capacity <= 0 || p.window <= 0 || p.timeout <= 0) && len(srv.Keys(0)) > keysBefore {
			o.Fail("unset parameters: the request was recorded (step %d)", i)
			return
		}
		if r.Triggered {
			trig++
		}
		if was == 1 && r.Block {
			during++
		}
		if was == 0 && m.blocks[c.Key] != nil && !r.Block {
			after++
		}
	}
	o.LabelIf(trig > 0, "block triggered")
	o.LabelIf(during > 0, "request during block")
	o.LabelIf(after > 0, "passed again after block")
	o.LabelIf(bursts > 0, "concurrent clients")
	o.LabelIf(shrunk, "capacity lowered at run time")
	o.LabelIf(rewin, "window changed at run time")
	o.LabelIf(c.Window > c.Timeout, "window longer than timeout")
	o.Nontrivial = trig > 0 && (during > 0 && after > 0 || bursts > 0)
	return
}

// -------------------------------------------------- several keys and faults

type keyStep struct {
	Gap   int // whole seconds
	Key   int
	Query bool
	Ctx   bool
	NoMsg bool           `json:",omitempty"`
	Fault redistub.Fault `json:",omitempty"`
	Text  string         `json:",omitempty"` // of the error reply
	Down  bool           `json:",omitempty"` // nothing can connect
	End   int            `json:",omitempty"` // the context: 1 has ended, 2 ends after 1.5 s
}

type keysCase struct {
	Cluster  bool
	Tag      string
	Keys     []string
	Blocks   []string // block key of each key
	Capacity int
	Window   int
	Timeout  int
	Faults   bool
	Steps    []keyStep
}

var oddKey = rapid.OneOf(
	rapid.SampledFrom([]string{"", "a", "b", "A", "a:bl", ":bl", "a{x}", "a{y}", "{x}a", "a{}", "}{", "{", "a:b", "1", "ключ", "a b", "\x00"}),
	rapid.StringMatching(`[ab{}:_-]{0,6}`),
	rapid.StringN(0, 6, 12),
)

// what a Redis in trouble answers
var redisErrors = []string{
	"ERR injected failure", "NOSCRIPT No matching script. Please use EVAL.", "LOADING Redis is loading the dataset in memory",
	"READONLY You can't write against a read only replica.", "OOM command not allowed when used memory > 'maxmemory'.",
	"BUSY Redis is busy running a script. You can only call SCRIPT KILL or SHUTDOWN NOSAVE.", "NOAUTH Authentication required.",
	"WRONGTYPE Operation against a key holding the wrong kind of value", "CLUSTERDOWN The cluster is down",
	"MISCONF Redis is configured to save RDB snapshots", "ERR max number of clients reached", "TRYAGAIN Multiple keys request during rehashing of slot",
}

func genKeys(t *rapid.T) keysCase {
	c := keysCase{
		Cluster:  rapid.Bool().Draw(t, "cluster"),
		Capacity: rapid.IntRange(1, 3).Draw(t, "capacity"),
		Window:   rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(t, "window"),
		Timeout:  rapid.SampledFrom([]int{1, 2, 5, 20}).Draw(t, "timeout"),
		Faults:   rapid.Bool().Draw(t, "faults"),
	}
	c.Tag = rapid.OneOf(rapid.SampledFrom([]string{"t", "{t}", "tag", "a b", "тег"}), rapid.StringMatching(`[a-z{}]{0,3}[a-z][a-z{}]{0,2}`)).Draw(t, "tag")
	c.Keys = rapid.SliceOfNDistinct(oddKey, 2, 4, func(s string) string { return s }).Draw(t, "keys")
	own := rapid.Bool().Draw(t, "own")
	bks := rapid.SliceOfNDistinct(rapid.OneOf(oddKey, rapid.SampledFrom(c.Keys)).Filter(func(s string) bool { return !strings.HasPrefix(s, "_rl:") }),
		1, 3, func(s string) string { return s }).Draw(t, "blocks")
	for _, k := range c.Keys {
		if own && !strings.HasPrefix(k, "_rl:") {
			c.Blocks = append(c.Blocks, k)
		} else {
			c.Blocks = append(c.Blocks, rapid.SampledFrom(bks).Draw(t, "block"))
		}
	}
	n := rapid.IntRange(1, 40).Draw(t, "n")
	for i := 0; i < n; i++ {
		s := keyStep{
			Gap:   rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 1, 2, c.Window, c.Timeout, c.Timeout + 1, c.Window + 1}).Draw(t, "gap"),
			Key:   rapid.IntRange(0, len(c.Keys)-1).Draw(t, "k"),
			Query: rapid.IntRange(0, 2).Draw(t, "query") == 0,
			Ctx:   rapid.Bool().Draw(t, "ctx"),
			NoMsg: rapid.IntRange(0, 3).Draw(t, "nomsg") == 0,
		}
		if c.Faults && rapid.IntRange(0, 3).Draw(t, "f") == 0 {
			s.Fault = rapid.SampledFrom([]redistub.Fault{redistub.ErrorReply, redistub.DropBefore, redistub.DropAfter, redistub.GarbageReply, redistub.Stall}).Draw(t, "fault")
			s.Down = rapid.IntRange(0, 3).Draw(t, "down") == 0
			s.Text = rapid.SampledFrom(redisErrors).Draw(t, "text")
		}
		if c.Faults && rapid.IntRange(0, 3).Draw(t, "e") == 0 {
			s.Ctx, s.End = true, rapid.IntRange(1, 2).Draw(t, "end")
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

func runKeys(c keysCase) (o pbt.Outcome) {
	srv := redistub.New()
	srv.Cluster = c.Cluster
	cl := client(srv)
	defer func() { srv.DialFault = nil; cl.Close() }()
	ratelimiter.LoadScript(cl)
	p := &params{c.Capacity, c.Window, c.Timeout}
	var l ratelimiter.TtlRateLimiter
	if c.Cluster {
		l = ratelimiter.NewRedisTtlRateLimiterCluster(cl, p, c.Tag)
	} else {
		l = ratelimiter.NewRedisTtlRateLimiter(cl, p)
	}
	m := newTtlModel()
	trig, faults, shared, ended := 0, 0, 0, 0
	touched := map[string]bool{}
	for i, s := range c.Steps {
		time.Sleep(time.Duration(s.Gap) * second)
		k, bk := c.Keys[s.Key], c.Blocks[s.Key]
		msg := fmt.Sprintf("%s %d", k, i)
		if s.NoMsg {
			msg = ""
		}
		now := time.Now()
		fault := s.Fault != redistub.OK && m.blocked(bk, now) != 2
		if fault {
			faults++
			srv.Fault = func([]string) redistub.Fault { return s.Fault }
			if s.Text != "" {
				srv.FaultText = func([]string) string { return s.Text }
			}
			if s.Down {
				srv.DialFault = func() error { return errors.New("connection refused") }
				srv.CloseAll()
			}
		}
		var r *ratelimiter.Result
		ctx := context.Background()
		cancel := func() {}
		if s.Ctx && s.End == 1 && !fault && !s.Query && m.blocked(bk, now) != 1 {
			s.End = 0 // would leave open whether Redis got the request
		}
		if fault && s.Fault == redistub.DropAfter && !s.Down {
			s.End = 0
		}
		switch {
		case s.Ctx && s.End == 1:
			ctx, cancel = context.WithCancel(ctx)
			cancel()
			ended++
		case s.Ctx && s.End == 2:
			ctx, cancel = context.WithTimeout(ctx, 1500*time.Millisecond)
		}
		switch {
		case s.Query && s.Ctx:
			r = l.IsBlockedContext(ctx, bk)
		case s.Query:
			r = l.IsBlocked(bk)
		case s.Ctx && k == bk:
			r = l.ShouldBlockContext(ctx, k, msg)
		case s.Ctx:
			r = l.ShouldBlock2Context(ctx, k, bk, msg)
		case k == bk:
			r = l.ShouldBlock(k, msg)
		default:
			r = l.ShouldBlock2(k, bk, msg)
		}
		cancel()
		srv.Fault, srv.DialFault = nil, nil
		for j := 0; fault && j < 20 && cl.Ping().Err() != nil; j++ {
			// the client finds out about its dead connections
		}
		if r == nil {
			o.Fail("answer: nil (step %d)", i)
			return
		}
		if fault {
			if r.Block || r.Triggered || r.Ttl != 0 || r.Msg != "" {
				o.Fail("answer with Redis failing: %s (step %d, fault %d)", showRes(r), i, s.Fault)
				return
			}
			if s.Fault == redistub.DropAfter && !s.Down && !s.Query && m.blocked(bk, now) == 0 {
				// Redis did it, only the answer was lost
				if m.full(k, c.Capacity, c.Window, now) == 0 {
					m.passes[k] = append(m.passes[k], pass{at: now, window: c.Window})
				} else {
					m.blocks[bk] = &block{now.Add(time.Duration(c.Timeout) * second), msg}
				}
			}
			// a stalled call took whole seconds; stay on the grid in any case
			if d := time.Since(now) % second; d != 0 {
				time.Sleep(second - d)
			}
			continue
		}
		if s.Ctx && s.End == 1 && !r.Block && !r.Triggered && r.Ttl == 0 && r.Msg == "" {
			continue // could not ask
		}
		if s.Query {
			if err := m.judgeQuery(c.Timeout, bk, now, r); err != nil {
				o.Fail("%v (step %d, block key %q)", err, i, bk)
				return
			}
			continue
		}
		if m.blocked(bk, now) == 1 && len(m.passes[k]) < c.Capacity {
			shared++
		}
		touched[k] = true
		if err := m.judge(*p, c.Timeout, k, bk, msg, now, r); err != nil {
			o.Fail("%v (step %d, key %q, block key %q)", err, i, k, bk)
			return
		}
		if r.Triggered {
			trig++
		}
	}
	if c.Cluster && len(srv.Slots) > 1 {
		o.Fail("hash slots: the keys of one limiter lie in %d slots", len(srv.Slots))
		return
	}
	o.LabelIf(c.Cluster, "cluster")
	o.LabelIf(trig > 0, "block triggered")
	o.LabelIf(shared > 0, "blocked by another key's block")
	o.LabelIf(faults > 0, "faults")
	o.LabelIf(ended > 0, "call whose context has ended")
	o.Nontrivial = trig > 0 && len(touched) > 1
	return
}

func TestC07(t *testing.T) {
	pbt.Run(t, "C07", pbt.Part[ttlCase]{
		Name: "life-cycle", Modes: "plain", Quick: 5000, Deep: 120000, Bubble: true,
		Rule: "up to 40 requests and queries on one key by three clients at generated times (fractions of seconds, ends of windows and blocks), with parameters unset or changed in between, or bursts of concurrent requests; each answer compared with the documented life cycle; non-trivial: a block was triggered, met and outlived, or triggered by concurrent clients",
		Gen:  genTtl, Run: runTtl,
	})
}

func TestC08(t *testing.T) {
	pbt.Run(t, "C08", pbt.Part[keysCase]{
		Name: "keys", Modes: "plain", Quick: 5000, Deep: 120000, Bubble: true,
		Rule: "up to 40 requests and queries over 2..4 keys with own or shared block keys (odd characters, braces), with or without cluster hash slots, and failures of chosen calls; answers compared key by key; non-trivial: a block was triggered and several keys were used",
		Gen:  genKeys, Run: runKeys,
	})
}
