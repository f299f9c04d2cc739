package skywalking

import (
	"fmt"
	"io"
	"slices"
	"sort"
	"sync"
	"time"

	"gearsverif/pbt"

	"github.com/SkyAPM/go2sky"
	"github.com/chanjarster/gears/skywalking"
	swrouting "github.com/chanjarster/gears/skywalking/fasthttp-routing"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"google.golang.org/grpc"
	"pgregory.net/rapid"
	commonv3 "skywalking.apache.org/repo/goapi/collect/common/v3"
	agentv3 "skywalking.apache.org/repo/goapi/collect/language/agent/v3"
)

// collector is a SkyWalking server that keeps what it is sent.
type collector struct {
	agentv3.UnimplementedTraceSegmentReportServiceServer
	mu   sync.Mutex
	segs []*agentv3.SegmentObject
	addr string
	srv  *grpc.Server
}

func (c *collector) Collect(s agentv3.TraceSegmentReportService_CollectServer) error {
	for {
		seg, err := s.Recv()
		if err == io.EOF {
			return s.SendAndClose(&commonv3.Commands{})
		}
		if err != nil {
			return err
		}
		c.mu.Lock()
		c.segs = append(c.segs, seg)
		c.mu.Unlock()
	}
}

func (c *collector) lines() (all []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, seg := range c.segs {
		for _, s := range seg.Spans {
			all = append(all, fmt.Sprintf("%s of %s at %q failed=%v", s.OperationName, seg.Service, seg.ServiceInstance, s.IsError))
		}
	}
	sort.Strings(all)
	return
}

func newCollector() *collector {
	l := pbt.Listen()
	c := &collector{addr: l.Addr().String(), srv: grpc.NewServer()}
	agentv3.RegisterTraceSegmentReportServiceServer(c.srv, c)
	go c.srv.Serve(l)
	return c
}

type cCase struct {
	Apps []cApp
}

type cApp struct {
	Where                 string // collector, down (refuses connections), none, nil (no configuration)
	Space, Name, Instance string
	Reqs                  []int // statuses of its requests, -1: error
}

func genCollector(t *rapid.T) (c cCase) {
	app := func(t *rapid.T) cApp {
		return cApp{
			Where:    rapid.SampledFrom([]string{"collector", "collector", "collector", "down", "none", "nil"}).Draw(t, "where"),
			Space:    rapid.SampledFrom([]string{"ns", "NS", "", "a-b", "空间"}).Draw(t, "namespace"),
			Name:     rapid.SampledFrom([]string{"svc", "Svc", "s.1", "a b", "服务"}).Draw(t, "service"),
			Instance: rapid.SampledFrom([]string{"i-1", "I-1", "i@10.0.0.1", "Host.Example", " i 2", "实例"}).Draw(t, "instance"),
			Reqs:     rapid.SliceOfN(rapid.SampledFrom([]int{200, 204, 302, 404, 500, -1}), 0, 5).Draw(t, "requests"),
		}
	}
	c.Apps = rapid.SliceOfN(rapid.Custom(app), 1, 3).Draw(t, "applications")
	return
}

func runCollector(c cCase) (o pbt.Outcome) {
	col := newCollector()
	defer col.srv.Stop()
	dead := pbt.Refusing()
	defer dead.Close()
	var want []string
	for i, a := range c.Apps {
		conf := &skywalking.Conf{ServiceName: a.Name, ServiceInstance: a.Instance, ServiceNamespace: a.Space}
		switch a.Where {
		case "collector":
			conf.ServerAddr = col.addr
		case "down":
			conf.ServerAddr = dead.Addr().String()
		}
		var rep go2sky.Reporter
		var err error
		start := time.Now()
		if a.Where == "nil" {
			rep, err = skywalking.NewGrpcOrNoopReporter(nil)
		} else {
			rep, err = skywalking.NewGrpcOrNoopReporter(conf)
		}
		if err != nil || rep == nil {
			o.Fail("reporter: application %d: %v, %v", i, rep, err)
			return
		}
		defer rep.Close()
		tracer, err := skywalking.NewTracer(conf, rep)
		if err != nil {
			o.Fail("tracer: application %d: %v", i, err)
			return
		}
		r := routing.New()
		r.Use(swrouting.NewMiddleware(tracer))
		r.Get("/<p:.*>", func(rc *routing.Context) error {
			var j int
			fmt.Sscan(rc.Param("p"), &j)
			if a.Reqs[j] < 0 {
				return fmt.Errorf("failed")
			}
			rc.SetStatusCode(a.Reqs[j])
			return nil
		})
		for j, status := range a.Reqs {
			var req fasthttp.Request
			req.SetRequestURI(fmt.Sprintf("http://app.test/%d", j))
			var ctx fasthttp.RequestCtx
			ctx.Init(&req, nil, nil)
			r.HandleRequest(&ctx)
			got := ctx.Response.StatusCode()
			if status < 0 {
				status = 500
			}
			if got != status {
				o.Fail("answer: application %d request %d: status %d, want %d", i, j, got, status)
			}
			if a.Where == "collector" {
				want = append(want, fmt.Sprintf("GET:/%d of %s::%s at %q failed=%v", j, a.Space, a.Name, a.Instance, status >= 400))
			}
		}
		if d := time.Since(start); d > 20*time.Second {
			o.Fail("delay: application %d with collector %s took %v", i, a.Where, d)
		}
		o.Label(a.Where)
	}
	sort.Strings(want)
	for end := time.Now().Add(20 * time.Second); len(col.lines()) < len(want) && time.Now().Before(end); {
		time.Sleep(200 * time.Microsecond)
	}
	if got := col.lines(); !slices.Equal(got, want) {
		o.Fail("collector: got %q, want %q", got, want)
	}
	o.Nontrivial = len(want) > 1
	return
}
