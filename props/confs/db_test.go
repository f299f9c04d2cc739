package confs

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"net"
	"net/url"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	_ "unsafe" // go:linkname

	"gearsverif/pbt"

	"github.com/SkyAPM/go2sky"
	"pgregory.net/rapid"
)

func TestC25(t *testing.T) {
	pbt.Run(t, "C25", mysqlPart)
	pbt.Run(t, "C25", pgPart)
	pbt.Run(t, "C25", oraclePart)
}

// drivers is what sql.Open looks in.
//
//go:linkname drivers database/sql.drivers
var drivers map[string]driver.Driver

// swapDriver puts a stand-in in place of a registered driver.
func swapDriver(name string, d driver.Driver) (undo func()) {
	old, ok := drivers[name]
	drivers[name] = d
	return func() {
		if ok {
			drivers[name] = old
		} else {
			delete(drivers, name)
		}
	}
}

type dbCase struct {
	Host, User, Pass, Db string
	Port                 int
	MaxOpen, MaxIdle     int
	Lifetime             time.Duration
	Users                int // simultaneous connections
	Traced               bool
	Params               []dbParam
}

// dbParam is one "&"-separated part of Params.
type dbParam struct {
	Key, Value string
	Bad        string // a malformed part, verbatim; Key and Value are unused
	Enc        int    `json:",omitempty"` // which escaping of the value
}

// encoded is the value in one of the escapings that mean it.
func (p dbParam) encoded() string {
	var b strings.Builder
	for i := 0; i < len(p.Value); i++ {
		c := p.Value[i]
		switch {
		case p.Enc == 0:
			return url.QueryEscape(p.Value)
		case p.Enc == 1:
			fmt.Fprintf(&b, "%%%02X", c)
		case p.Enc == 2:
			fmt.Fprintf(&b, "%%%02x", c)
		case strings.IndexByte("%+&=;#", c) >= 0 || c <= ' ' || c >= 0x7f:
			fmt.Fprintf(&b, "%%%02X", c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func paramString(ps []dbParam) string {
	var s []string
	for _, p := range ps {
		if p.Key == "" {
			s = append(s, p.Bad)
		} else {
			s = append(s, p.Key+"="+p.encoded())
		}
	}
	return strings.Join(s, "&")
}

var awkward = []string{
	"a b", "p@ss:w/or?d", "a'b", `a"b`, `back\slash`, "100%", "%41", "a+b", "a&b=c", "#x", "密码", "é",
	"(x)", "@tcp(evil:1)/", "a,b", ";", "a=b", "[::1]", "x\ty", "://", "/", "@", ":", "?", "''", `\'`, "$1", "`", "|",
	" x", "x ", "{{.}}", "%s%d", "true", "0", "sslmode=disable", "host=evil",
}

func dbText(t *rapid.T, name string, allowed string) string {
	switch rapid.IntRange(0, 3).Draw(t, name+" how") {
	case 0:
		return rapid.SampledFrom(awkward).Draw(t, name)
	case 1:
		r := []rune(allowed)
		return string(rapid.SliceOfN(rapid.SampledFrom(r), 1, 10).Draw(t, name))
	}
	return rapid.StringMatching(`[a-zA-Z0-9_]{1,8}`).Draw(t, name)
}

const anyRunes = "abzAZ019 !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~\t\n\r\u00e9\u5bc6\U0001f600\u00a0"

func genDb(t *rapid.T) (c dbCase) {
	c.Host = rapid.SampledFrom([]string{"127.0.0.1", "localhost", "db.test", "db-1.example.org", "10.1.2.3", "DB_2"}).Draw(t, "host")
	c.Port = rapid.SampledFrom([]int{1, 1521, 3306, 5432, 65535, 13306}).Draw(t, "port")
	c.User = dbText(t, "user", anyRunes)
	c.Pass = dbText(t, "password", anyRunes)
	c.Db = dbText(t, "database", anyRunes)
	c.MaxOpen = rapid.IntRange(0, 5).Draw(t, "max open")
	c.MaxIdle = rapid.IntRange(0, 5).Draw(t, "max idle")
	c.Lifetime = rapid.SampledFrom([]time.Duration{0, time.Minute, 90 * time.Second, time.Hour}).Draw(t, "lifetime")
	c.Users = rapid.IntRange(1, 6).Draw(t, "users")
	c.Traced = rapid.Bool().Draw(t, "traced")
	return
}

var malformed = []string{"novalue", "a=b=c", "x=%zz", "", "work_mem", "==", "y=%", "time_zone=1=2"}

func genParams(t *rapid.T, keys []string, value func(t *rapid.T, key string) string) (ps []dbParam) {
	for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom(keys), 0, min(3, len(keys)), rapid.ID[string]).Draw(t, "param keys") {
		ps = append(ps, dbParam{Key: k, Value: value(t, k), Enc: max(0, rapid.IntRange(-3, 3).Draw(t, "escaping"))})
	}
	for range rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "malformed") {
		i := rapid.IntRange(0, len(ps)).Draw(t, "at")
		bad := dbParam{Bad: rapid.SampledFrom(malformed).Draw(t, "part")}
		ps = append(ps[:i], append([]dbParam{bad}, ps[i:]...)...)
	}
	return
}

var noTracer = sync.OnceValue(func() *go2sky.Tracer {
	tr, err := go2sky.NewTracer("verif", go2sky.WithReporter(&noReporter{}))
	if err != nil {
		panic(err)
	}
	return tr
})

type noReporter struct{}

func (*noReporter) Boot(string, string, []go2sky.AgentConfigChangeWatcher) {}
func (*noReporter) Send([]go2sky.ReportedSpan)                             {}
func (*noReporter) Close()                                                 {}

// dbServer counts the connections a stand-in server has.
type dbServer struct {
	mu          sync.Mutex
	open, total int
	serve       func(net.Conn) error // talks to one client until it leaves
	errs        []error              // what the server could not understand
	dials       []string             // network and address of every dial
}

func (s *dbServer) fail(err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.errs = append(s.errs, err)
}

func (s *dbServer) counts() (open, total int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open, s.total
}

func (s *dbServer) opened(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.open += n
	if n > 0 {
		s.total += n
	}
}

func (s *dbServer) dial(network, addr string) net.Conn {
	s.mu.Lock()
	s.dials = append(s.dials, network+" "+addr)
	s.mu.Unlock()
	s.opened(1)
	client, server := net.Pipe()
	go func() {
		defer s.opened(-1)
		defer server.Close()
		if err := s.serve(server); err != nil {
			s.fail(err)
		}
	}()
	return client
}

// firstErr is what went wrong at the server, "" if nothing.
func (s *dbServer) firstErr() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.errs) > 0 {
		return s.errs[0].Error()
	}
	return ""
}

// checkLimits uses an open client up to its limits, in a bubble.
func checkLimits(o *pbt.Outcome, c dbCase, db *sql.DB, counts func() (open, total int)) {
	if n := db.Stats().MaxOpenConnections; n != c.MaxOpen {
		o.Fail("the client opens at most %d connections, configured %d", n, c.MaxOpen)
		return
	}
	limit := c.Users
	if c.MaxOpen > 0 {
		limit = min(limit, c.MaxOpen)
	}
	var held []*sql.Conn
	for range limit {
		conn, err := db.Conn(context.Background())
		if err != nil {
			o.Fail("connection %d of at most %d (0: no limit) failed: %v", len(held)+1, c.MaxOpen, err)
			break
		}
		held = append(held, conn)
	}
	synctest.Wait()
	if open, _ := counts(); o.Err == nil && open != limit {
		o.Fail("%d connections in use, %d open at the server", limit, open)
	}
	if o.Err == nil && c.MaxOpen > 0 && limit == c.MaxOpen {
		o.Label("full")
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		conn, err := db.Conn(ctx)
		cancel()
		if err == nil {
			conn.Close()
			o.Fail("connection %d given out, at most %d configured", limit+1, c.MaxOpen)
		} else if !errors.Is(err, context.DeadlineExceeded) {
			o.Fail("connection beyond the limit: %v", err)
		}
	}
	for _, conn := range held {
		conn.Close()
	}
	synctest.Wait()
	if o.Err != nil {
		return
	}
	idle := min(limit, c.MaxIdle)
	if open, _ := counts(); open != idle {
		o.Fail("%d idle connections kept after %d were in use, MaxIdleConns %d MaxOpenConns %d: want %d", open, limit, c.MaxIdle, c.MaxOpen, idle)
		return
	}
	o.LabelIf(idle < limit, "idle limit reached")
	if idle == 0 {
		return
	}

	ping := func() {
		if err := db.Ping(); err != nil {
			o.Fail("Ping: %v", err)
		}
		synctest.Wait()
	}
	_, before := counts()
	if c.Lifetime == 0 {
		time.Sleep(1000 * time.Hour)
		ping()
		if open, total := counts(); total != before || open != idle {
			o.Fail("lifetime 0: %d of %d connections left after 1000h, %d opened again", open, idle, total-before)
		}
		return
	}
	// All of them are at most a second old.
	time.Sleep(c.Lifetime - 2*time.Second)
	ping()
	if open, total := counts(); total != before || open != idle {
		o.Fail("lifetime %v: just before it %d of %d connections left, %d opened again", c.Lifetime, open, idle, total-before)
		return
	}
	time.Sleep(4 * time.Second)
	ping()
	if _, total := counts(); total != before+1 {
		o.Fail("lifetime %v: just after it a Ping opened %d connections, want 1", c.Lifetime, total-before)
		return
	}
	o.Label("lifetime")
}
