package confs

import (
	"encoding/base64"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confs"
	"github.com/elastic/go-elasticsearch/v7"
	"pgregory.net/rapid"
)

type esCase struct {
	Prefix     []string // path of each address
	User, Pass []byte
	Conns      int
	Idle       int
	Trouble    int // 0 none, a status, -1 doesn't listen, -2 closes connections
	Custom     []string
	Requests   int // concurrent requests for each address
	Other      int // connection limit of another client made afterwards, if positive
}

func genES(t *rapid.T) (c esCase) {
	n := rapid.IntRange(1, 3).Draw(t, "addresses")
	for i := 0; i < n; i++ {
		c.Prefix = append(c.Prefix, rapid.SampledFrom([]string{"", "", "/", "/es", "/a/b"}).Draw(t, "prefix"))
	}
	if rapid.IntRange(0, 3).Draw(t, "credentials") > 0 {
		for len(c.User) == 0 {
			c.User = []byte(rapid.SampledFrom([]string{"elastic", "a b", "用户", "u@x", "%41"}).Draw(t, "user"))
		}
		for len(c.Pass) == 0 {
			c.Pass = genPass(t, "password")
		}
	}
	c.Conns = rapid.IntRange(0, 6).Draw(t, "conns")
	c.Idle = rapid.IntRange(0, 5).Draw(t, "idle")
	if rapid.IntRange(0, 5).Draw(t, "trouble?") == 0 {
		c.Trouble = rapid.SampledFrom([]int{-1, -1, -2, 400, 401, 403, 404, 429, 500, 502, 503, 504}).Draw(t, "trouble")
	}
	if rapid.IntRange(0, 2).Draw(t, "customize?") == 0 {
		c.Custom = rapid.SliceOfDistinct(rapid.SampledFrom([]string{"nothing", "credentials", "header", "limit"}), rapid.ID[string]).Draw(t, "customize")
	}
	c.Requests = rapid.IntRange(1, 8).Draw(t, "requests")
	if c.Trouble == 0 && rapid.IntRange(0, 2).Draw(t, "other?") == 0 {
		c.Other = rapid.IntRange(1, 9).Draw(t, "other")
	}
	return
}

type esServer struct {
	mu       sync.Mutex
	l        net.Listener
	addr     string
	auths    []string
	paths    []string
	headers  []string
	inflight int
	most     int
	open     map[net.Conn]http.ConnState
	gate     chan struct{}
	srv      *http.Server
}

func startES(trouble int) *esServer {
	s := &esServer{open: map[net.Conn]http.ConnState{}, gate: make(chan struct{})}
	if trouble == -1 {
		s.l = pbt.Refusing()
	} else {
		s.l = pbt.Listen()
	}
	s.addr = "http://" + s.l.Addr().String()
	s.srv = &http.Server{
		ErrorLog: log.New(io.Discard, "", 0),
		ConnState: func(c net.Conn, st http.ConnState) {
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.open[c] = st; st == http.StateClosed {
				delete(s.open, c)
			}
		},
		Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s.mu.Lock()
			s.auths = append(s.auths, r.Header.Get("Authorization"))
			s.headers = append(s.headers, r.Header.Get("X-Custom"))
			s.paths = append(s.paths, r.URL.Path)
			s.mu.Unlock()
			if trouble == -2 {
				panic(http.ErrAbortHandler)
			}
			if strings.HasSuffix(r.URL.Path, "/barrier/_count") {
				s.mu.Lock()
				s.inflight++
				if s.inflight > s.most {
					s.most = s.inflight
				}
				s.mu.Unlock()
				<-s.gate
				s.mu.Lock()
				s.inflight--
				s.mu.Unlock()
			}
			w.Header().Set("X-Elastic-Product", "Elasticsearch")
			if trouble > 0 {
				w.WriteHeader(trouble)
			}
			io.WriteString(w, `{"count":1}`)
		}),
	}
	if trouble != -1 {
		go s.srv.Serve(s.l)
	}
	return s
}

func (s *esServer) state() (inflight, most, open int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.inflight, s.most, len(s.open)
}

func runES(c esCase) (o pbt.Outcome) {
	var srvs []*esServer
	var addrs []string
	for _, p := range c.Prefix {
		s := startES(c.Trouble)
		srvs = append(srvs, s)
		addrs = append(addrs, s.addr+p)
	}
	stray := startES(0) // nobody configured it
	defer func() {
		for _, s := range append(srvs, stray) {
			s.srv.Close()
			s.l.Close()
		}
	}()
	conf := &confs.EsConf{Addrs: strings.Join(addrs, ","), Username: string(c.User), Password: string(c.Pass), MaxConnsPerHost: c.Conns, MaxIdleConnsPerHost: c.Idle}
	auth := ""
	if len(c.User) > 0 {
		auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(string(c.User)+":"+string(c.Pass)))
	}
	header, conns, calls := "", c.Conns, 0
	var customizer confs.EsConfigCustomizer
	if len(c.Custom) > 0 {
		customizer = func(e *elasticsearch.Config) {
			calls++
			if strings.Join(e.Addresses, ",") != conf.Addrs || e.Username != string(c.User) || e.Password != string(c.Pass) {
				o.Fail("customizer: it was given %q %q %q", e.Addresses, e.Username, e.Password)
			}
			for _, s := range c.Custom {
				switch s {
				case "credentials":
					e.Username, e.Password = "other", "secret"
				case "header":
					e.Header = http.Header{"X-Custom": {"yes"}}
				case "limit":
					if tr, ok := e.Transport.(*http.Transport); ok {
						tr.MaxConnsPerHost = 2
					} else {
						e.Transport = &http.Transport{MaxConnsPerHost: 2, MaxIdleConnsPerHost: c.Idle}
					}
				}
			}
		}
		for _, s := range c.Custom {
			switch s {
			case "credentials":
				auth = "Basic " + base64.StdEncoding.EncodeToString([]byte("other:secret"))
			case "header":
				header = "yes"
			case "limit":
				conns = 2
			}
		}
	}
	saved := *conf
	var client *elasticsearch.Client
	failed := constructed(func() { client = confs.NewEsClient(conf, customizer) })
	if (failed != "") != (c.Trouble != 0) {
		o.Fail("construct: failed %q, trouble with the cluster %d", failed, c.Trouble)
	}
	if *conf != saved {
		o.Fail("construct: the configuration was changed")
	}
	if len(c.Custom) > 0 && calls != 1 {
		o.Fail("customizer: called %d times", calls)
	}
	o.LabelIf(c.Trouble != 0, "construction fails")
	o.LabelIf(len(c.Custom) > 0, "customized")
	o.LabelIf(auth != "", "credentials")

	sent := func() {
		total := 0
		for i, s := range srvs {
			s.mu.Lock()
			total += len(s.auths)
			for j, a := range s.auths {
				if a != auth {
					o.Fail("credentials: request to %s with Authorization %q, want %q", addrs[i], a, auth)
				}
				if s.headers[j] != header {
					o.Fail("customizer: request with header %q, want %q", s.headers[j], header)
				}
				if p := strings.TrimRight(c.Prefix[i], "/"); !strings.HasPrefix(s.paths[j], p) {
					o.Fail("address: path %q, address %q", s.paths[j], addrs[i])
				}
			}
			s.mu.Unlock()
		}
		if c.Trouble != -1 && total == 0 {
			o.Fail("address: no configured address got a request")
		}
		if len(stray.auths) > 0 {
			o.Fail("address: a request to an address not configured")
		}
	}
	if c.Other > 0 && failed == "" {
		// another client, for another cluster: none of this one's business
		s := startES(0)
		defer func() { s.srv.Close(); s.l.Close() }()
		if failed := constructed(func() {
			confs.NewEsClient(&confs.EsConf{Addrs: s.addr, MaxConnsPerHost: c.Other, MaxIdleConnsPerHost: c.Other}, nil)
		}); failed != "" {
			o.Fail("construct: another client: %s", failed)
		}
		o.Label("two clients")
	}
	if o.Err != nil || failed != "" {
		sent()
		o.Nontrivial = failed != ""
		return
	}

	n := c.Requests * len(srvs)
	limit := c.Requests
	if conns > 0 && limit > conns {
		limit = conns
	}
	var wg sync.WaitGroup
	errs := make(chan error, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res, err := client.Count(client.Count.WithIndex("barrier"))
			if err != nil {
				errs <- err
				return
			}
			b, err := io.ReadAll(res.Body)
			res.Body.Close()
			if err != nil || string(b) != `{"count":1}` {
				errs <- fmt.Errorf("%q %v", b, err)
			}
		}()
	}
	for i, s := range srvs {
		if !eventually(5*time.Second, func() bool { in, _, _ := s.state(); return in >= limit }) {
			in, _, _ := s.state()
			o.Fail("connections: only %d of %d requests to %s run at once, limit %d", in, c.Requests, addrs[i], conns)
		}
	}
	if c.Requests > limit {
		time.Sleep(3 * time.Millisecond)
	}
	for i, s := range srvs {
		_, most, open := s.state()
		if most > limit {
			o.Fail("connections: %d requests over %d connections to %s at once, limit %d", most, open, addrs[i], conns)
		}
		// a connection just closed by the client may still count here
		if conns > 0 && !eventually(3*time.Second, func() bool { _, _, open := s.state(); return open <= conns }) {
			o.Fail("connections: %d connections to %s, limit %d", open, addrs[i], conns)
		}
		close(s.gate)
	}
	wg.Wait()
	select {
	case err := <-errs:
		o.Fail("request: %v", err)
	default:
	}
	idle := c.Idle
	if idle == 0 {
		idle = 2 // the default of the standard library
	}
	least := limit
	if least > idle {
		least = idle
	}
	for round := 0; round < 2; round++ {
		for i, s := range srvs {
			if !eventually(3*time.Second, func() bool { _, _, open := s.state(); return open <= idle }) {
				_, _, open := s.state()
				o.Fail("idle: %d connections to %s are left, idle limit %d", open, addrs[i], c.Idle)
			}
			if _, _, open := s.state(); open < least {
				o.Fail("idle: %d connections to %s are left after %d at once, idle limit %d", open, addrs[i], limit, c.Idle)
			}
		}
		time.Sleep(2 * time.Millisecond)
	}
	sent()
	o.LabelIf(limit < c.Requests, "connection limit reached")
	o.LabelIf(idle < limit, "idle limit reached")
	o.Nontrivial = limit < c.Requests || idle < limit
	return
}
