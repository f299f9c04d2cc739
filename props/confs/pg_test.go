package confs

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"database/sql"
	"database/sql/driver"
	"encoding/binary"
	"fmt"
	"io"
	"maps"
	"net"
	"slices"
	"strings"
	"time"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confs"
	"github.com/lib/pq"
	"pgregory.net/rapid"
)

type pgCase struct {
	dbCase
	Timeout int    // seconds
	Auth    string // trust, cleartext, md5
	Disable string // where sslmode=disable is said: params, customizer
	Custom  []string
	CParam  dbParam
}

var pgVars = []string{"work_mem", "search_path", "application_name", "options", "TimeZone", "lock_timeout"}

func genPg(t *rapid.T) (c pgCase) {
	c.dbCase = genDb(t)
	c.Timeout = rapid.SampledFrom([]int{0, 0, 1, 5, 30, 3600, 100000}).Draw(t, "connect timeout")
	c.Auth = rapid.SampledFrom([]string{"trust", "cleartext", "md5"}).Draw(t, "auth")
	value := func(t *rapid.T, key string) string { return dbText(t, key, anyRunes) }
	c.Params = genParams(t, pgVars, value)
	c.Disable = rapid.SampledFrom([]string{"params", "params", "customizer"}).Draw(t, "sslmode in")
	if c.Disable == "params" {
		i := rapid.IntRange(0, len(c.Params)).Draw(t, "sslmode at")
		c.Params = slices.Insert(c.Params, i, dbParam{Key: "sslmode", Value: "disable"})
	}
	if c.Timeout == 0 && rapid.IntRange(0, 4).Draw(t, "timeout in params") == 0 {
		c.Params = append(c.Params, dbParam{Key: "connect_timeout", Value: "9"})
	}
	if c.Disable == "customizer" || rapid.Bool().Draw(t, "customizer") {
		c.Custom = rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"timeout", "param", "drop", "nothing"}), 1, 3, rapid.ID[string]).Draw(t, "customize")
		c.CParam = dbParam{Key: rapid.SampledFrom(pgVars).Draw(t, "custom param"), Value: dbText(t, "custom value", anyRunes)}
	}
	return
}

// effective is what the options are after the customizer.
func (c pgCase) options() map[string]string {
	m := map[string]string{}
	if c.Timeout != 0 {
		m["connect_timeout"] = fmt.Sprint(c.Timeout)
	}
	for _, p := range c.Params {
		if p.Key != "" {
			m[p.Key] = p.Value
		}
	}
	return m
}

func (c pgCase) customize(m map[string]string) {
	if slices.Contains(c.Custom, "drop") {
		delete(m, "connect_timeout")
		for _, k := range pgVars {
			delete(m, k)
		}
	}
	if slices.Contains(c.Custom, "timeout") {
		m["connect_timeout"] = "17"
	}
	if slices.Contains(c.Custom, "param") {
		m[c.CParam.Key] = c.CParam.Value
	}
	if c.Disable == "customizer" {
		m["sslmode"] = "disable"
	}
}

type pgHello struct {
	params map[string]string
	auth   string
}

type pgServer struct {
	dbServer
	auth   string
	pass   string
	user   string
	hellos []*pgHello
}

func (s *pgServer) talk(conn net.Conn) error {
	r := bufio.NewReader(conn)
	body := func() ([]byte, error) {
		var n [4]byte
		if _, err := io.ReadFull(r, n[:]); err != nil {
			return nil, err
		}
		l := binary.BigEndian.Uint32(n[:])
		if l < 4 || l > 1<<20 {
			return nil, fmt.Errorf("message of %d bytes", l)
		}
		p := make([]byte, l-4)
		_, err := io.ReadFull(r, p)
		return p, err
	}
	msg := func(t byte, p []byte) []byte {
		b := binary.BigEndian.AppendUint32([]byte{t}, uint32(len(p)+4))
		return append(b, p...)
	}
	p, err := body()
	if err != nil {
		return nil
	}
	if len(p) < 4 || binary.BigEndian.Uint32(p) != 196608 {
		return fmt.Errorf("startup packet %q", p)
	}
	h := &pgHello{params: map[string]string{}}
	fields := bytes.Split(p[4:], []byte{0})
	for i := 0; i+1 < len(fields) && len(fields[i]) > 0; i += 2 {
		h.params[string(fields[i])] = string(fields[i+1])
	}
	s.mu.Lock()
	s.hellos = append(s.hellos, h)
	s.mu.Unlock()
	switch s.auth {
	case "cleartext", "md5":
		ask, want := []byte{0, 0, 0, 3}, s.pass
		if s.auth == "md5" {
			ask = []byte{0, 0, 0, 5, 's', 'a', 'l', 't'}
			in := fmt.Sprintf("%x", md5.Sum([]byte(s.pass+s.user)))
			want = fmt.Sprintf("md5%x", md5.Sum([]byte(in+"salt")))
		}
		if _, err := conn.Write(msg('R', ask)); err != nil {
			return nil
		}
		t, err := r.ReadByte()
		if err != nil {
			return nil
		}
		p, err := body()
		if err != nil {
			return nil
		}
		if t != 'p' || string(p) != want+"\x00" {
			return fmt.Errorf("asked for a password (%s) got %q, want %q for %q", s.auth, p, want, s.pass)
		}
	}
	out := msg('R', make([]byte, 4))
	out = append(out, msg('S', []byte("server_version\x0014.0\x00"))...)
	out = append(out, msg('K', make([]byte, 8))...)
	out = append(out, msg('Z', []byte("I"))...)
	if _, err := conn.Write(out); err != nil {
		return nil
	}
	for {
		t, err := r.ReadByte()
		if err != nil {
			return nil
		}
		if _, err := body(); err != nil {
			return nil
		}
		switch t {
		case 'X':
			return nil
		case 'Q':
			if _, err := conn.Write(append(msg('I', nil), msg('Z', []byte("I"))...)); err != nil {
				return nil
			}
		default:
			return fmt.Errorf("unexpected message %q", t)
		}
	}
}

// pgDriver is lib/pq with the network taken away.
type pgDriver struct {
	srv      *pgServer
	opened   int
	timeouts map[time.Duration]bool
}

func (d *pgDriver) Open(dsn string) (driver.Conn, error) {
	d.opened++
	return pq.DialOpen(d, dsn)
}

func (d *pgDriver) Dial(network, addr string) (net.Conn, error) {
	return d.DialTimeout(network, addr, 0)
}

func (d *pgDriver) DialTimeout(network, addr string, timeout time.Duration) (net.Conn, error) {
	d.timeouts[timeout] = true
	return d.srv.dial(network, addr), nil
}

func runPg(c pgCase) (o pbt.Outcome) {
	srv := &pgServer{auth: c.Auth, pass: c.Pass, user: c.User}
	srv.serve = srv.talk
	d := &pgDriver{srv: srv, timeouts: map[time.Duration]bool{}}
	defer swapDriver("postgres", d)()

	conf := &confs.PostgresqlConf{
		Host: c.Host, Port: c.Port, Username: c.User, Password: c.Pass, Database: c.Db,
		MaxOpenConns: c.MaxOpen, MaxIdleConns: c.MaxIdle, ConnMaxLifetime: c.Lifetime,
		ConnectTimeout: c.Timeout, Params: paramString(c.Params),
	}
	want := c.options()
	seen, calls := "", 0
	var customizer confs.PostgresqlUrlOptionsCustomizer
	if c.Custom != nil {
		customizer = func(m map[string]string) {
			calls++
			if !maps.Equal(m, want) {
				seen = fmt.Sprintf("%q, want %q", m, want)
			}
			c.customize(m)
		}
	}
	var db *sql.DB
	failed := constructed(func() {
		if c.Traced {
			db = confs.NewPostgresqlDbWithTracer(conf, noTracer(), customizer)
		} else {
			db = confs.NewPostgresqlDb(conf, customizer)
		}
	})
	if failed != "" || db == nil {
		switch {
		case len(srv.dials) > 0:
			o.Fail("no client (%s), the server says: %s", failed, srv.firstErr())
		case d.opened > 0:
			o.Fail("not even dialled: %s", failed)
		default:
			o.Label("undecided: the driver was not used")
		}
		return
	}
	defer db.Close()
	if customizer != nil && (calls != 1 || seen != "") {
		o.Fail("customizer called %d times, with other options than configured: %s", calls, seen)
		return
	}
	checkLimits(&o, c.dbCase, db, srv.counts)
	if o.Err != nil {
		return
	}
	srv.mu.Lock()
	defer srv.mu.Unlock()
	if len(srv.errs) > 0 {
		o.Fail("%v", srv.errs[0])
		return
	}
	addr := fmt.Sprintf("tcp %s:%d", c.Host, c.Port)
	for _, d := range srv.dials {
		if d != addr {
			o.Fail("dialled %q, configured %q", d, addr)
			return
		}
	}
	if c.Custom != nil {
		c.customize(want)
	}
	timeout, _ := time.ParseDuration(want["connect_timeout"] + "s")
	if len(d.timeouts) != 1 || !d.timeouts[timeout] {
		o.Fail("connect timeouts %v used, configured %v", d.timeouts, timeout)
		return
	}
	delete(want, "sslmode")
	delete(want, "connect_timeout")
	extra := len(want)
	want["user"], want["database"] = c.User, c.Db
	for _, h := range srv.hellos {
		for k, v := range h.params {
			switch k {
			case "client_encoding", "datestyle", "extra_float_digits":
				continue
			}
			if w, ok := want[k]; !ok || w != v {
				o.Fail("presented %s=%q, configured %q", k, v, want)
				return
			}
		}
		for k, w := range want {
			if v, ok := h.params[k]; !ok {
				o.Fail("%s=%q (%q) not presented", k, w, v)
				return
			}
		}
	}
	o.Label(c.Auth)
	o.LabelIf(c.Traced, "traced")
	o.LabelIf(len(c.Custom) > 0, "customized")
	o.LabelIf(extra > 0, "parameters")
	o.LabelIf(timeout > 0, "timeout")
	reserved := strings.ContainsAny(c.User+c.Pass+c.Db, ":@/?&=#%' ")
	o.LabelIf(reserved, "reserved characters")
	o.Nontrivial = extra > 0 || len(c.Custom) > 0 || reserved
	return
}

var pgPart = pbt.Part[pgCase]{
	Name:   "postgresql",
	Rule:   "a client with random settings, traced or not, customized or not, through the real driver against a stand-in PostgreSQL server that checks address, connect timeout, user, password (trust, cleartext, md5), database and parameters, then uses the client up to its limits and past the lifetime on a fake clock; non-trivial with extra parameters, a customizer or reserved characters",
	Quick:  2500,
	Deep:   30000,
	Bubble: true,
	Gen:    genPg,
	Run:    runPg,
}
