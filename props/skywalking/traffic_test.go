// Package skywalking checks tracing (C32-C34) by running generated traffic
// through an application twice, once as written and once with tracing, and
// comparing what happened and what was reported.
package skywalking

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"gearsverif/redistub"

	"github.com/SkyAPM/go2sky"
	"github.com/SkyAPM/go2sky/propagation"
	"github.com/chanjarster/gears/skywalking"
	swclient "github.com/chanjarster/gears/skywalking/fasthttp"
	swrouting "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	redishook "github.com/chanjarster/gears/skywalking/redis"
	rv7 "github.com/go-redis/redis/v7"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"pgregory.net/rapid"
)

// Markers are words no other part of the traffic contains.
func mark(n int) string { return "q" + strconv.Itoa(n) + "z" }

type tCase struct {
	Mode       string // on, nil (no tracer), noreporter, noop, never (sampled out), some (paths with "skip" are not sampled)
	Space      string
	Name       string
	Instance   string
	LogError   bool
	LogBody    bool
	CLogError  bool
	CLogBody   bool
	RLogError  bool
	RArgs      bool
	Addr       string // "": Redis spans cannot be created
	Db         int    // -1: not told
	TwoHooks   bool
	Latency    int // ms, of Redis
	DownTraced bool
	Reqs       []tReq
}

type tReq struct {
	At       int // ms
	Method   string
	Path     string
	Body     string
	Sw8      string // kind of tracing header: "", valid, valid0, or a malformed one verbatim
	Corr     string
	Local    bool // the application has a span of its own around the request
	Parallel bool // operations run concurrently
	Ops      []tOp
	How      string // body, error, httperror, wrapped (in another error), owntype (its own kind of HTTP error), panic
	Before   bool   `json:",omitempty"` // status and body are set before it fails
	Status   int
	Out      string // body of the answer
	ErrText  string
}

type tOp struct {
	Kind   string // sleep, get, set, incr, err, do, pipe, tx, http
	Ctx    string // request, background, nil
	Ms     int
	Text   string // an argument, or the request body
	Err    string // error text of a refused command, or of a failed request
	Cmds   []string
	Verb   []string `json:",omitempty"` // of a do, with its leading arguments
	Host   string
	Path   string
	Method string
	Status int
	Out    string
	Old    bool  // outgoing request already carries (stale) tracing headers
	Heads  []int `json:",omitempty"` // of extraHeads, in the outgoing request
	End    int   `json:",omitempty"` // ms until the deadline of its context; negative: until it is cancelled, -1 before
	Fault  int   `json:",omitempty"` // which of faults is the error of a failed request
	Many   int   `json:",omitempty"` // so many further arguments of a do, or of each many in a pipeline
}

// faults are errors a request may end with; 0: of the drawn text.
var faults = []error{nil, fasthttp.ErrTimeout, fasthttp.ErrDialTimeout, fasthttp.ErrNoFreeConns, fasthttp.ErrConnectionClosed, io.EOF, io.ErrUnexpectedEOF,
	context.Canceled, context.DeadlineExceeded, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("refused")}, &net.DNSError{Err: "no such host", Name: "n"},
	fmt.Errorf("call: %w", fasthttp.ErrTimeout), net.ErrClosed, os.ErrDeadlineExceeded, fasthttp.ErrBodyTooLarge}

// httpError is an application's own kind of HTTP error.
type httpError struct {
	status int
	text   string
}

func (e *httpError) Error() string   { return e.text }
func (e *httpError) StatusCode() int { return e.status }

var extraHeads = [][2]string{{"X-Forwarded-Host", "front.test"}, {"X-Forwarded-For", "192.0.2.7"}, {"X-Real-Ip", "192.0.2.8"}, {"Forwarded", "host=f.test"},
	{"User-Agent", "agent/1"}, {"Referer", "http://ref.test/x"}, {"Origin", "http://orig.test"}, {"Cookie", "a=b"}, {"X-Http-Method-Override", "PATCH"},
	{"X-Original-Url", "/orig"}, {"X-Request-Id", "77"}}

func genTraffic(t *rapid.T) (c tCase) {
	n := 0
	m := func(name string) string {
		n++
		return rapid.SampledFrom([]string{"", "", "密", "a b ", "\"'", "%s", "&=", "{}", "|", ": "}).Draw(t, name) + mark(n) +
			rapid.SampledFrom([]string{"", "", "é", " x", "\"", "%d%%", "<>", "|b", "\t1", "  ", ": ", "\n"}).Draw(t, name+" end")
	}
	c.Mode = rapid.SampledFrom([]string{"on", "on", "on", "on", "on", "on", "some", "never", "nil", "noreporter", "noop"}).Draw(t, "mode")
	c.Space = rapid.SampledFrom([]string{"ns", "", "a-b", "空间"}).Draw(t, "namespace")
	c.Name = rapid.SampledFrom([]string{"svc", "s.1", "服务"}).Draw(t, "service")
	c.Instance = rapid.SampledFrom([]string{"", "i-1", "i@10.0.0.1"}).Draw(t, "instance")
	c.LogError, c.LogBody = rapid.Bool().Draw(t, "log error"), rapid.Bool().Draw(t, "log body")
	c.CLogError, c.CLogBody = rapid.Bool().Draw(t, "client log error"), rapid.Bool().Draw(t, "client log body")
	c.RLogError, c.RArgs = rapid.Bool().Draw(t, "redis log error"), rapid.Bool().Draw(t, "redis args")
	c.Addr = rapid.SampledFrom([]string{"redis.test:6379", "Redis.Example:6379", "127.0.0.1:1", "r", "[::1]:6379", ""}).Draw(t, "addr")
	c.Db = rapid.SampledFrom([]int{-1, 0, 3, 15, 16, 1000}).Draw(t, "db")
	c.TwoHooks = rapid.IntRange(0, 5).Draw(t, "two hooks") == 0
	c.Latency = rapid.SampledFrom([]int{0, 0, 2, 30}).Draw(t, "latency")
	c.DownTraced = rapid.Bool().Draw(t, "traced downstream")
	body := func(name string) string {
		switch rapid.IntRange(0, 15).Draw(t, name+" size") {
		case 0, 1, 2, 3:
			return ""
		case 4:
			return m(name) + strings.Repeat("lore", rapid.SampledFrom([]int{60, 250, 260, 1100}).Draw(t, name+" long")) + m(name)
		}
		return m(name)
	}
	statuses := []int{200, 200, 200, 201, 204, 301, 304, 399, 400, 401, 404, 422, 499, 500, 503}
	if rapid.IntRange(0, 2).Draw(t, "rare statuses") == 0 {
		for range 4 {
			statuses = append(statuses, rapid.OneOf(rapid.IntRange(200, 799), rapid.IntRange(400, 431), rapid.IntRange(400, 431), rapid.SampledFrom([]int{
				202, 203, 205, 206, 207, 226, 300, 302, 303, 305, 307, 308, 451, 499, 501, 502, 504, 505, 507, 511, 520, 599, 600})).Draw(t, "rare"))
		}
	}
	many := func(t *rapid.T) int {
		if rapid.IntRange(0, 4).Draw(t, "many") != 0 {
			return 0
		}
		return rapid.SampledFrom([]int{1, 9, 31, 62, 63, 64, 65, 127, 128, 300}).Draw(t, "arguments")
	}
	op := func(t *rapid.T) (o tOp) {
		o.Kind = rapid.SampledFrom([]string{"sleep", "get", "set", "incr", "err", "do", "do", "pipe", "pipe", "tx", "http", "http", "http"}).Draw(t, "op")
		o.Ctx = rapid.SampledFrom([]string{"request", "request", "request", "background"}).Draw(t, "context")
		o.Ms = rapid.IntRange(0, 9).Draw(t, "ms")
		o.Text = m("text")
		o.Err = "E" + m("error text")
		if rapid.IntRange(0, 5).Draw(t, "code") == 0 {
			o.Err = rapid.SampledFrom([]string{"MOVED 3999 10.0.0.1:6381 ", "ASK 1 r:2 ", "READONLY ", "LOADING ", "CLUSTERDOWN ", "NOSCRIPT ", "BUSY ", "ERR ",
				"OOM ", "redis: nil ", "EOF ", "NOAUTH ", "redis: transaction failed "}).Draw(t, "which code") + o.Err
		}
		if rapid.IntRange(0, 9).Draw(t, "long error") == 0 {
			o.Err += strings.Repeat(" lore", rapid.SampledFrom([]int{50, 60, 205, 820, 3300}).Draw(t, "error length")) + m("error end")
		}
		if rapid.IntRange(0, 7).Draw(t, "ends") == 0 {
			o.End = rapid.SampledFrom([]int{1, 15, 3600000, -1, -2, -16}).Draw(t, "end")
		}
		if rapid.IntRange(0, 19).Draw(t, "no error text") == 0 {
			o.Err = ""
		}
		switch o.Kind {
		case "pipe", "tx":
			most := 4
			if rapid.IntRange(0, 5).Draw(t, "long pipeline") == 0 {
				most = 40
			}
			o.Cmds = rapid.SliceOfN(rapid.SampledFrom([]string{"get", "set", "incr", "err", "bad", "text", "many", "abort"}), most/4, most).Draw(t, "commands")
			o.Many = many(t)
		case "do":
			o.Verb = rapid.SampledFrom([][]string{{"NoSuch", "7"}, {"NoSuch", "7"}, {"eval", "return 1", "0"}, {"eval", "return KEYS[1]", "1"},
				{"evalsha", "abc", "0"}, {"auth"}, {"AUTH", "user"}, {"hset", "h"}, {"hmset", "h"}, {"del"}, {"MSET", "k"}, {"mget", "a", "b"}, {"publish", "c"},
				{"config", "set", "requirepass"}, {"script", "load"}, {"setex", "k", "9"}, {"lpush"}, {"zadd", "z", "1"}, {"expire"}, {"info"}, {"xadd", "s", "*"}}).Draw(t, "verb")
			o.Many = many(t)
		case "http":
			o.Host = rapid.SampledFrom([]string{"down.test", "down.test:8080", "10.0.0.7:80"}).Draw(t, "host")
			o.Path = rapid.SampledFrom([]string{"/d", "/d/e%20f", "/密"}).Draw(t, "path")
			if rapid.IntRange(0, 11).Draw(t, "long path") == 0 {
				o.Path += strings.Repeat("/long", rapid.SampledFrom([]int{13, 26, 52, 103, 205, 410, 820}).Draw(t, "path length"))
			}
			if rapid.IntRange(0, 3).Draw(t, "fault") == 0 {
				o.Fault = rapid.IntRange(1, len(faults)-1).Draw(t, "which fault")
			}
			o.Method = rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE", "GET", "POST", "PATCH", "OPTIONS", "HEAD"}).Draw(t, "method")
			o.Status = rapid.SampledFrom(append([]int{-1, -1}, statuses...)).Draw(t, "status")
			o.Out = body("answer")
			if rapid.IntRange(0, 9).Draw(t, "nil context") == 0 {
				o.Ctx = "nil"
			}
			o.Old = rapid.IntRange(0, 7).Draw(t, "stale headers") == 0
			if rapid.IntRange(0, 3).Draw(t, "more headers") == 0 {
				o.Heads = rapid.SliceOfNDistinct(rapid.IntRange(0, len(extraHeads)-1), 1, 4, rapid.ID[int]).Draw(t, "headers")
			}
		}
		return
	}
	for range rapid.IntRange(1, 4).Draw(t, "requests") {
		var r tReq
		r.At = rapid.IntRange(0, 12).Draw(t, "at")
		r.Method = rapid.SampledFrom([]string{"GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD"}).Draw(t, "method")
		r.Path = rapid.SampledFrom([]string{"/app/a", "/app/a/b", "/app/x%20y", "/app/skip", "/app/noname", "/nowhere", "/app/密"}).Draw(t, "path")
		if r.Path != "/nowhere" && rapid.IntRange(0, 11).Draw(t, "long path") == 0 {
			r.Path += strings.Repeat("/long", rapid.SampledFrom([]int{13, 26, 52, 103, 205, 410, 820}).Draw(t, "path length"))
		}
		r.Body = body("body")
		r.Sw8 = rapid.SampledFrom([]string{"", "", "", "valid", "valid", "validlong", "valid0", "x", "1-a-b", "1-!!-!!-x-!!-!!-!!-!!", "-------", "1-YQ==-YQ==-99999999999-YQ==-YQ==-YQ==-YQ==", "密"}).Draw(t, "sw8")
		r.Corr = rapid.SampledFrom([]string{"", "", "YQ==:Yg==", "YQ==:Yg==,Yw==:ZA==", "YQ==:Yg==,Yw==:ZA==", "::,", "!!:!!"}).Draw(t, "correlation")
		r.Local = rapid.IntRange(0, 4).Draw(t, "local span") == 0
		r.Parallel = rapid.IntRange(0, 2).Draw(t, "parallel") == 0
		r.Ops = rapid.SliceOfN(rapid.Custom(op), 0, 5).Draw(t, "ops")
		r.How = rapid.SampledFrom([]string{"body", "body", "body", "body", "body", "error", "error", "httperror", "httperror", "panic", "wrapped", "owntype"}).Draw(t, "how")
		r.Before = r.How != "body" && rapid.IntRange(0, 2).Draw(t, "status before") == 0
		r.Status = rapid.SampledFrom(statuses).Draw(t, "status")
		r.Out = body("out")
		r.ErrText = "H" + m("error")
		if rapid.IntRange(0, 9).Draw(t, "long error") == 0 {
			r.ErrText += strings.Repeat(" lore", rapid.SampledFrom([]int{50, 60, 205, 820, 3300}).Draw(t, "error length")) + m("error end")
		}
		c.Reqs = append(c.Reqs, r)
	}
	return
}

// reporter keeps the finished spans.
type reporter struct {
	mu                sync.Mutex
	service, instance string
	spans             []go2sky.ReportedSpan
}

func (r *reporter) Boot(service, instance string, _ []go2sky.AgentConfigChangeWatcher) {
	r.service, r.instance = service, instance
}
func (r *reporter) Close() {}
func (r *reporter) Send(spans []go2sky.ReportedSpan) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.spans = append(r.spans, spans...)
}

type sampler func(string) bool

func (s sampler) IsSampled(op string) bool { return s(op) }

// want is a span that should have been reported, and what has to be known to
// judge it.
type want struct {
	Kind       string // entry, local, http, redis
	Op, Peer   string
	Tags       map[string]string // Statement is separate
	Failed     bool
	Start, End int64  // ms
	Parent     string // key of the parent span, "" if it starts a trace, "ref:..." if it continues one
	Key        string // how others call it
	Must, May  []string
	Statement  []string // texts in db.statement, or its exact value if one and not RArgs
}

// what one run of the application gave
type world struct {
	c       *tCase
	traced  bool
	tracer  *go2sky.Tracer
	rep     *reporter
	stub    *redistub.Server
	client  *rv7.Client
	helper  *swclient.ClientSpanHelper
	down    *fasthttp.Server
	app     *fasthttp.Server
	mu      sync.Mutex
	results map[string]string // operation or request -> what the application saw
	runs    map[int]int       // request -> how often the handler ran
	wants   []want
	sw8     map[string]string // outgoing operation -> header it carried downstream
	corr    map[string]string // the same of the header of correlations
	t0      int64
	problem string
}

func (w *world) note(key, val string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if old, ok := w.results[key]; ok {
		val = old + " AND " + val
	}
	w.results[key] = val
}

func (w *world) expect(x want) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.wants = append(w.wants, x)
}

func ms() int64 { return time.Now().UnixMilli() }

// live says whether spans of operations with this context can be reported.
func (w *world) live() bool {
	switch w.c.Mode {
	case "on", "some", "never":
		return w.traced
	}
	return false
}

func newWorld(c *tCase, traced bool) *world {
	w := &world{c: c, traced: traced, results: map[string]string{}, runs: map[int]int{}, sw8: map[string]string{}, corr: map[string]string{}, t0: ms()}
	w.stub = redistub.New()
	errs := map[string]string{}
	for _, r := range c.Reqs {
		for _, o := range r.Ops {
			errs[o.Text+" err"] = o.Err
		}
	}
	w.stub.Fault = func(args []string) redistub.Fault {
		// not the stub's own latency: that would slow down new connections,
		// and who gets an idle one is nobody's promise
		time.Sleep(time.Duration(c.Latency) * time.Millisecond)
		if len(args) > 1 {
			if _, ok := errs[args[1]]; ok {
				return redistub.ErrorReply
			}
		}
		return redistub.OK
	}
	w.stub.Abort = func(args []string) bool { return len(args) > 1 && strings.HasSuffix(args[1], " abort") }
	w.stub.FaultText = func(args []string) string { return errs[args[1]] }
	db := max(c.Db, 0)
	w.client = rv7.NewClient(&rv7.Options{Addr: "r:1", DB: db, PoolSize: 64, MaxRetries: -1,
		Dialer: func(context.Context, string, string) (net.Conn, error) { return w.stub.Dial() }})

	var opts []swrouting.Option
	var copts []swclient.Option
	var ropts []redishook.Option
	if c.LogError {
		opts = append(opts, swrouting.WithLogError())
	}
	if c.LogBody {
		opts = append(opts, swrouting.WithLog4xxBody())
	}
	if c.CLogError {
		copts = append(copts, swclient.WithLogError())
	}
	if c.CLogBody {
		copts = append(copts, swclient.WithLog4xxBody())
	}
	if c.RLogError {
		ropts = append(ropts, redishook.WithLogError())
	}
	if c.RArgs {
		ropts = append(ropts, redishook.WithArgsReport())
	}
	if c.Addr != "" {
		ropts = append(ropts, redishook.WithAddr(c.Addr))
	}
	if c.Db >= 0 {
		ropts = append(ropts, redishook.WithDb(c.Db))
	}
	w.client.AddHook(&appHook{w, "outer"})
	if traced {
		var err error
		w.rep = &reporter{}
		conf := &skywalking.Conf{ServiceName: c.Name, ServiceNamespace: c.Space, ServiceInstance: c.Instance}
		switch c.Mode {
		case "on":
			w.tracer, err = skywalking.NewTracer(conf, w.rep)
		case "noop":
			var rep go2sky.Reporter
			if rep, err = skywalking.NewGrpcOrNoopReporter(conf); err == nil {
				w.tracer, err = skywalking.NewTracer(conf, rep)
			}
		case "noreporter":
			w.tracer, err = skywalking.NewTracer(conf, nil)
		case "never":
			w.tracer, err = go2sky.NewTracer("s", go2sky.WithReporter(w.rep), go2sky.WithCustomSampler(sampler(func(string) bool { return false })))
		case "some":
			w.tracer, err = go2sky.NewTracer(c.Space+"::"+c.Name, go2sky.WithReporter(w.rep), go2sky.WithInstance(c.Instance),
				go2sky.WithCustomSampler(sampler(func(op string) bool { return !strings.Contains(op, "skip") })))
		}
		if err != nil {
			w.problem = "no tracer: " + err.Error()
			return w
		}
		w.client.AddHook(redishook.NewHook(w.tracer, ropts...))
		if c.TwoHooks {
			w.client.AddHook(redishook.NewHook(w.tracer, append(ropts[:len(ropts):len(ropts)], redishook.WithAddr("second:1"))...))
		}
	}
	w.client.AddHook(&appHook{w, "inner"})
	w.helper = swclient.NewClientSpanHelper(w.tracer, copts...)
	mw := swrouting.NewMiddleware(w.tracer, opts...)

	down := routing.New()
	if traced && c.DownTraced {
		down.Use(mw)
	}
	down.To("GET,POST,PUT,DELETE,PATCH,OPTIONS,HEAD", "/<p:.*>", w.downstream)
	w.down = &fasthttp.Server{Handler: down.HandleRequest, Logger: quiet{}, ReadBufferSize: 1 << 16}

	app := routing.New()
	app.Use(func(rc *routing.Context) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered %v", r)
			}
		}()
		return rc.Next()
	})
	app.Use(w.outer)
	if traced {
		app.Use(mw)
	}
	app.To("GET,POST,PUT,DELETE,PATCH,OPTIONS,HEAD", "/app/<p:.*>", w.handle)
	w.app = &fasthttp.Server{Handler: app.HandleRequest, Logger: quiet{}, ReadBufferSize: 1 << 16}
	return w
}

type callKey struct{}

// appHook is a hook of the application's own: it sees the contexts of its calls.
type appHook struct {
	w    *world
	name string
}

func (h *appHook) see(ctx context.Context, what string, cmds ...rv7.Cmder) {
	key, _ := ctx.Value(callKey{}).(string)
	_, limited := ctx.Deadline()
	mine, _ := ctx.Value(h).(int)
	var names []string
	for _, cmd := range cmds {
		names = append(names, cmd.Name())
	}
	ended := ctx.Err()
	if what == "after" { // the moment of a deadline may be either side of it
		ended = nil
	}
	h.w.note(key+" hook "+h.name, fmt.Sprintf("%s %q limited %v, ended %v, remembered %d", what, names, limited, ended, mine))
}

func (h *appHook) BeforeProcess(ctx context.Context, cmd rv7.Cmder) (context.Context, error) {
	h.see(ctx, "before", cmd)
	return context.WithValue(ctx, h, 1), nil
}

func (h *appHook) AfterProcess(ctx context.Context, cmd rv7.Cmder) error {
	h.see(ctx, "after", cmd)
	return nil
}

func (h *appHook) BeforeProcessPipeline(ctx context.Context, cmds []rv7.Cmder) (context.Context, error) {
	h.see(ctx, "before", cmds...)
	return context.WithValue(ctx, h, 2), nil
}

func (h *appHook) AfterProcessPipeline(ctx context.Context, cmds []rv7.Cmder) error {
	h.see(ctx, "after", cmds...)
	return nil
}

func (w *world) id(rc *routing.Context) int {
	i, _ := strconv.Atoi(string(rc.Request.Header.Peek("X-Id")))
	return i
}

// outer is the application's own span around a request.
func (w *world) outer(rc *routing.Context) error {
	r := w.c.Reqs[w.id(rc)]
	next := func() error {
		err := rc.Next()
		w.note(fmt.Sprintf("request %d error", w.id(rc)), fmt.Sprintf("%T %v", err, err))
		return err
	}
	if !r.Local || w.tracer == nil {
		return next()
	}
	span, ctx, err := w.tracer.CreateLocalSpan(context.Background(), go2sky.WithOperationName(fmt.Sprintf("outer%d", w.id(rc))))
	if err != nil {
		w.problem = err.Error()
		return next()
	}
	if w.live() && w.c.Mode != "never" {
		key := fmt.Sprintf("outer%d", w.id(rc))
		start := ms()
		defer func() {
			w.expect(want{Kind: "local", Op: key, Key: key, Start: start, End: ms()})
		}()
	}
	swrouting.SetSwContext(rc, ctx)
	defer span.End()
	return next()
}

func (w *world) handle(rc *routing.Context) error {
	id := w.id(rc)
	r := w.c.Reqs[id]
	w.mu.Lock()
	w.runs[id]++
	w.mu.Unlock()
	w.note(fmt.Sprintf("request %d got", id), fmt.Sprintf("%s %s %q", rc.Method(), rc.RequestURI(), rc.PostBody()))
	ctx := swrouting.GetSwContext(rc)
	if r.Parallel {
		var wg sync.WaitGroup
		for i := range r.Ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						w.note(fmt.Sprintf("op %d.%d", id, i), fmt.Sprintf("panic %v", p))
					}
				}()
				w.op(ctx, id, i)
			}()
		}
		wg.Wait()
	} else {
		for i := range r.Ops {
			w.op(ctx, id, i)
		}
	}
	if r.Before {
		rc.SetStatusCode(r.Status)
		rc.SetBodyString(r.Out)
	}
	switch r.How {
	case "error":
		rc.SetStatusCode(r.Status)
		rc.SetBodyString(r.Out)
		return errors.New(r.ErrText)
	case "httperror":
		return routing.NewHTTPError(r.Status, r.ErrText)
	case "wrapped":
		return fmt.Errorf("in vain: %w", routing.NewHTTPError(r.Status, r.ErrText))
	case "owntype":
		return &httpError{r.Status, r.ErrText}
	case "panic":
		panic(r.ErrText)
	}
	rc.SetStatusCode(r.Status)
	rc.SetBodyString(r.Out)
	return nil
}

func validSw8(kind string) bool { return strings.HasPrefix(kind, "valid") }

// entryOf is the key of a request's entry span (or of the span around it, if
// it has none), and whether operations inside are not sampled.
func (w *world) entryOf(id int) (key string, silent bool) {
	r := w.c.Reqs[id]
	never := w.c.Mode == "never"
	if never && r.Local {
		return "", true // inside a span that is not sampled
	}
	if strings.Contains(r.Path, "noname") || r.Sw8 != "" && !validSw8(r.Sw8) {
		// no span for the request
		if r.Local {
			return fmt.Sprintf("outer%d", id), false
		}
		return "", never
	}
	if !validSw8(r.Sw8) && !r.Local && (never || w.c.Mode == "some" && strings.Contains(r.Path, "skip")) {
		return "", true
	}
	return fmt.Sprintf("entry%d", id), false
}

// within is the parent of operations with some context, and whether they are not sampled.
func (w *world) within(id int, ctx string) (parent string, silent bool) {
	if ctx == "request" {
		return w.entryOf(id)
	}
	return "", w.c.Mode == "never"
}

func (w *world) op(ctx context.Context, id, i int) {
	o := w.c.Reqs[id].Ops[i]
	key := fmt.Sprintf("op %d.%d", id, i)
	parent, silent := w.within(id, o.Ctx)
	switch o.Ctx {
	case "background":
		ctx = context.Background()
	case "nil":
		ctx = nil
	}
	if ctx != nil {
		ctx = context.WithValue(ctx, callKey{}, key)
		var cancel func()
		switch {
		case o.End > 0:
			ctx, cancel = context.WithTimeout(ctx, time.Duration(o.End)*time.Millisecond)
			defer cancel()
		case o.End < 0:
			ctx, cancel = context.WithCancel(ctx)
			defer cancel()
			if o.End == -1 {
				cancel()
			} else {
				defer time.AfterFunc(time.Duration(-o.End-1)*time.Millisecond, cancel).Stop()
			}
		}
	}
	start := ms()
	redis := func(name string, args []string, texts ...string) {
		failed := strings.Join(texts, "|")
		if !w.live() || silent {
			return
		}
		tags := map[string]string{"db.type": "Redis", "db.instance": ""}
		if w.c.Db >= 0 {
			tags["db.instance"] = strconv.Itoa(w.c.Db)
		}
		x := want{Kind: "redis", Op: name, Peer: w.c.Addr, Tags: tags, Failed: len(texts) > 0, Start: start, End: ms(), Parent: parent, Key: key}
		if w.c.RArgs {
			x.Statement, x.May = append(strings.Split(name, "|"), args...), args
		}
		if w.c.RLogError && len(texts) > 0 {
			x.Must, x.May = append(x.Must, texts...), append(x.May[:len(x.May):len(x.May)], failed)
		}
		first := w.c.Addr != ""
		if first {
			w.expect(x)
		}
		if w.c.TwoHooks {
			x.Peer = "second:1"
			if first {
				x.Parent = "R|" + name + "|" + w.c.Addr + "|" + parent
			}
			w.expect(x)
		}
	}
	run := func(cmd rv7.Cmder, args ...string) {
		err := w.client.ProcessContext(ctx, cmd)
		w.note(key, fmt.Sprintf("%v %v", cmd, err))
		if err != nil {
			redis(cmd.Name(), args, err.Error())
		} else {
			redis(cmd.Name(), args)
		}
	}
	switch o.Kind {
	case "sleep":
		time.Sleep(time.Duration(o.Ms) * time.Millisecond)
	case "get":
		run(rv7.NewStringCmd("get", o.Text), o.Text)
	case "set":
		run(rv7.NewStatusCmd("set", o.Text, o.Text+"v"), o.Text, o.Text+"v")
	case "incr":
		run(rv7.NewIntCmd("incr", o.Text), o.Text)
	case "err":
		run(rv7.NewStringCmd("get", o.Text+" err"), o.Text+" err")
	case "do":
		if len(o.Verb) == 0 {
			o.Verb = []string{"NoSuch", "7"}
		}
		var args []any
		words := append(o.Verb[:len(o.Verb):len(o.Verb)], o.Text)
		for i := 0; i < o.Many; i++ {
			words = append(words, fmt.Sprintf("%s+%03d", o.Text, i))
		}
		for _, a := range words {
			args = append(args, a)
		}
		run(rv7.NewCmd(args...), words[1:]...)
	case "pipe", "tx":
		client := w.client.WithContext(ctx)
		p := client.Pipeline()
		var names, args []string
		if o.Kind == "tx" {
			p = client.TxPipeline()
			names = append(names, "multi")
		}
		for j, what := range o.Cmds {
			k := fmt.Sprintf("%s-%d", o.Text, j)
			if what == "err" && o.Kind == "tx" {
				what = "bad"
			}
			switch what {
			case "bad":
				p.Do("nosuch", k)
				what = "nosuch"
			case "get":
				p.Get(k)
			case "set":
				p.Set(k, o.Text+"v", 0)
				args = append(args, k, o.Text+"v")
				names = append(names, "set")
				continue
			case "incr":
				p.Incr(k)
			case "abort":
				k = o.Text + " abort"
				p.Get(k)
				what = "get"
			case "err":
				k = o.Text + " err"
				p.Get(k)
				what = "get"
			case "many":
				words := []any{"rpush", k}
				for i := 0; i <= o.Many; i++ {
					words = append(words, fmt.Sprintf("%s+%03d", k, i))
					args = append(args, words[i+2].(string))
				}
				p.Do(words...)
				what = "rpush"
			case "text":
				p.Do("lpush", k, "x", "y")
				what = "lpush"
			}
			names = append(names, what)
			args = append(args, k)
		}
		if o.Kind == "tx" {
			names = append(names, "exec")
		}
		cmds, err := p.Exec()
		var texts []string
		for _, cmd := range cmds {
			w.note(key, fmt.Sprint(cmd))
			if e := cmd.Err(); e != nil {
				texts = append(texts, e.Error())
			}
		}
		w.note(key, fmt.Sprint(err))
		if err != nil && len(texts) == 0 {
			texts = append(texts, err.Error())
		}
		redis(strings.Join(names, "|"), args, texts...)
	case "http":
		w.call(ctx, parent, silent, key, o)
	}
}

// call makes an outgoing request the way the helper's documentation says.
func (w *world) call(ctx context.Context, parent string, silent bool, key string, o tOp) {
	req, res := fasthttp.AcquireRequest(), fasthttp.AcquireResponse()
	defer fasthttp.ReleaseRequest(req)
	defer fasthttp.ReleaseResponse(res)
	uri := "http://" + o.Host + o.Path + "?key=" + strings.ReplaceAll(key, " ", "")
	req.SetRequestURI(uri)
	req.Header.SetMethod(o.Method)
	req.Header.Set("X-Key", key)
	req.Header.Set("X-Other", "kept")
	for _, i := range o.Heads {
		req.Header.Set(extraHeads[i][0], extraHeads[i][1])
	}
	if o.Old {
		req.Header.Set(propagation.Header, "stale")
		req.Header.Set(propagation.HeaderCorrelation, "stale")
	}
	if o.Method != "GET" && o.Method != "DELETE" && o.Method != "HEAD" {
		req.SetBodyString(o.Text)
	}
	hc := &fasthttp.HostClient{Addr: o.Host, MaxIdleConnDuration: time.Millisecond, Dial: func(string) (net.Conn, error) {
		if o.Status < 0 {
			return nil, errors.New(o.Err) // what the application makes of it: see below
		}
		a, b := net.Pipe()
		go w.down.ServeConn(b)
		return a, nil
	}}
	defer hc.CloseIdleConnections()
	start := ms()
	span, err := w.helper.CreateSpan(ctx, req)
	if w.tracer == nil && (span != nil || err != nil) {
		w.problem = fmt.Sprintf("a client span without a tracer: %v %v", span, err)
	}
	time.Sleep(time.Duration(o.Ms) * time.Millisecond)
	path := string(req.URI().Path())
	url := req.URI().String()
	err = hc.Do(req, res)
	if err != nil && o.Fault > 0 {
		err = faults[o.Fault]
	}
	if err != nil {
		w.note(key, "error "+err.Error())
		w.helper.EndSpanError(span, err)
	} else {
		w.note(key, fmt.Sprintf("%d %q", res.StatusCode(), res.Body()))
		w.helper.EndSpan(span, res)
	}
	if !w.live() || silent || ctx == nil {
		return
	}
	tags := map[string]string{"http.method": o.Method, "url": url}
	x := want{Kind: "http", Op: o.Method + ":" + path, Peer: o.Host, Tags: tags, Start: start, End: ms(), Parent: parent, Key: key}
	if err != nil {
		x.Failed = true
		if w.c.CLogError {
			x.Must, x.May = []string{o.Err}, []string{o.Err}
			if o.Fault > 0 {
				x.Must, x.May = []string{err.Error()}, []string{err.Error()}
			}
		}
	} else {
		tags["status_code"] = strconv.Itoa(o.Status)
		x.Failed = o.Status >= 400
		if x.Failed && w.c.CLogBody && o.Method != "HEAD" {
			x.Must, x.May = []string{o.Out}, []string{o.Out}
		}
	}
	w.expect(x)
}

func (w *world) downstream(rc *routing.Context) error {
	key := string(rc.Request.Header.Peek("X-Key"))
	var id, i int
	fmt.Sscanf(key, "op %d.%d", &id, &i)
	o := w.c.Reqs[id].Ops[i]
	var hs []string
	count := map[string]int{}
	rc.Request.Header.VisitAll(func(k, v []byte) {
		count[string(k)]++
		switch string(k) {
		case "Sw8":
			w.mu.Lock()
			w.sw8[key] = string(v)
			w.mu.Unlock()
		case "Sw8-Correlation":
			w.mu.Lock()
			w.corr[key] = string(v)
			w.mu.Unlock()
		case "Sw8-X":
		default:
			hs = append(hs, fmt.Sprintf("%s=%s", k, v))
		}
	})
	sort.Strings(hs)
	w.note(key+" downstream", fmt.Sprintf("%s %s %q %q", rc.Method(), rc.RequestURI(), hs, rc.PostBody()))
	if count["Sw8"] > 1 {
		w.note(key+" downstream", "several sw8 headers")
	}
	start := ms()
	rc.SetStatusCode(o.Status)
	rc.SetBodyString(o.Out)
	if w.live() && w.c.DownTraced {
		_, silent := w.within(id, o.Ctx)
		unsent := o.Ctx == "nil" || silent // no context was injected
		if unsent && (o.Old || w.c.Mode == "never") {
			return nil // a malformed header was left in place, or not sampled
		}
		x := want{Kind: "entry", Op: string(rc.Method()) + ":" + string(rc.Path()), Start: start, End: start, Key: "down " + key,
			Tags:   map[string]string{"http.method": o.Method, "url": rc.URI().String(), "status_code": strconv.Itoa(o.Status)},
			Failed: o.Status >= 400, Parent: "sent:" + key}
		if unsent {
			x.Parent = ""
		}
		if x.Failed && w.c.LogBody {
			x.Must, x.May = []string{o.Out}, []string{o.Out}
		}
		w.expect(x)
	}
	return nil
}

const refTrace, refSegment = "trace-of-caller", "segment-of-caller"

func sw8Of(kind string) string {
	if !validSw8(kind) {
		return kind
	}
	sc := propagation.SpanContext{Sample: 1, TraceID: refTrace, ParentSegmentID: refSegment, ParentSpanID: 5, ParentService: "p", ParentServiceInstance: "pi", ParentEndpoint: "/pe", AddressUsedAtClient: "a:1"}
	if kind == "validlong" {
		sc.ParentService, sc.ParentEndpoint = strings.Repeat("service", 60), "/"+strings.Repeat("long/", 300)
	}
	if kind == "valid0" {
		sc.Sample = 0
	}
	return sc.EncodeSW8()
}

func (w *world) request(id int) {
	r := w.c.Reqs[id]
	time.Sleep(time.Duration(r.At) * time.Millisecond)
	var req fasthttp.Request
	var res fasthttp.Response
	req.SetRequestURI(fmt.Sprintf("http://app.test%s?id=%d", r.Path, id))
	req.Header.SetMethod(r.Method)
	req.Header.Set("X-Id", strconv.Itoa(id))
	if r.Sw8 != "" {
		req.Header.Set(propagation.Header, sw8Of(r.Sw8))
	}
	if r.Corr != "" {
		req.Header.Set(propagation.HeaderCorrelation, r.Corr)
	}
	res.SkipBody = r.Method == "HEAD"
	if r.Method != "GET" && r.Method != "DELETE" && r.Method != "HEAD" {
		req.SetBodyString(r.Body)
	}
	client, server := net.Pipe()
	defer client.Close()
	go w.app.ServeConn(server)
	start := ms()
	bw := bufio.NewWriter(client)
	if err := req.Write(bw); err != nil {
		w.problem = err.Error()
	}
	bw.Flush()
	key := fmt.Sprintf("answer %d", id)
	if err := res.Read(bufio.NewReader(client)); err != nil {
		w.note(key, err.Error())
		return
	}
	var hs []string
	res.Header.VisitAll(func(k, v []byte) {
		if string(k) != "Date" {
			hs = append(hs, fmt.Sprintf("%s=%s", k, v))
		}
	})
	sort.Strings(hs)
	w.note(key, fmt.Sprintf("%d %q %q after %dms", res.StatusCode(), res.Body(), hs, ms()-w.t0))
	entry, silent := w.entryOf(id)
	if !w.live() || silent || entry != fmt.Sprintf("entry%d", id) {
		return
	}
	x := want{Kind: "entry", Op: r.Method + ":" + string(req.URI().Path()), Start: start, End: ms(), Key: entry,
		Tags: map[string]string{"http.method": r.Method, "url": req.URI().String(), "status_code": strconv.Itoa(res.StatusCode())}}
	if r.Local {
		x.Parent = fmt.Sprintf("outer%d", id)
	}
	if validSw8(r.Sw8) {
		x.Parent += "ref"
	}
	x.Failed = res.StatusCode() >= 400 || (r.How == "httperror" || r.How == "owntype") && strings.HasPrefix(r.Path, "/app/")
	switch {
	case !strings.HasPrefix(r.Path, "/app/"): // no handler: 404
		if w.c.LogError || w.c.LogBody {
			x.May = []string{"Not Found"}
		}
	case r.How == "body":
		if x.Failed && w.c.LogBody {
			x.Must, x.May = []string{r.Out}, []string{r.Out}
		}
	case r.How == "panic":
		delete(x.Tags, "status_code")
		if w.c.LogError {
			x.May = []string{r.ErrText}
		}
		if w.c.LogBody {
			x.May = append(x.May, r.Out)
		}
	default:
		if w.c.LogError {
			x.Must, x.May = []string{r.ErrText}, []string{r.ErrText}
		}
		if w.c.LogBody {
			// the answer the router makes of the error is its text
			x.May = append(x.May, r.ErrText, r.Out)
		}
	}
	w.expect(x)
}

func (w *world) run() {
	var wg sync.WaitGroup
	for id := range w.c.Reqs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.request(id)
		}()
	}
	wg.Wait()
	w.client.Close()
	w.stub.CloseAll()
	synctest.Wait()
}

// texts lists all texts of a span.
func texts(s go2sky.ReportedSpan) (all []string, logs string) {
	var b bytes.Buffer
	for _, l := range s.Logs() {
		for _, kv := range l.Data {
			all = append(all, kv.Key, kv.Value)
			b.WriteString(kv.Key + "\n" + kv.Value + "\n")
		}
	}
	for _, kv := range s.Tags() {
		all = append(all, kv.Key, kv.Value)
	}
	all = append(all, s.OperationName(), s.Peer())
	return all, b.String()
}
