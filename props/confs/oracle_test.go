package confs

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"
	"sync"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confs"
	go_ora "github.com/sijms/go-ora/v2"
	"pgregory.net/rapid"
)

type oracleCase struct {
	dbCase
	Sid     string
	Servers []string
	Sep     string
	Timeout int
	Custom  []string
	CParam  dbParam
}

var oracleVars = []string{"PREFETCH_ROWS", "INSTANCE NAME", "OS USER", "DOMAIN", "UNIX SOCKET", "PROXY CLIENT NAME", "DBA PRIVILEGE", "AUTH SERV", "CONNECTION TIMEOUT"}

// trimmed values: the driver's option syntax has no surrounding blanks.
func oracleText(t *rapid.T, name string) string {
	s := strings.TrimSpace(dbText(t, name, anyRunes))
	if s == "" {
		return "x"
	}
	return s
}

func oracleValue(t *rapid.T, key string) string {
	switch key {
	case "PREFETCH_ROWS", "CONNECTION TIMEOUT":
		return fmt.Sprint(rapid.IntRange(1, 500).Draw(t, key))
	case "DBA PRIVILEGE":
		return rapid.SampledFrom([]string{"SYSDBA", "SYSOPER"}).Draw(t, key)
	case "AUTH SERV":
		return rapid.SampledFrom([]string{"NTS", "NTS,TCPS", "TCPS"}).Draw(t, key)
	}
	return oracleText(t, key)
}

func genOracle(t *rapid.T) (c oracleCase) {
	c.dbCase = genDb(t)
	c.Db = strings.Trim(c.Db, "/")
	switch rapid.IntRange(0, 5).Draw(t, "by") {
	case 0:
		c.Sid, c.Db = oracleText(t, "sid"), ""
	case 1:
		c.Sid = oracleText(t, "sid")
	case 2:
		if rapid.IntRange(0, 4).Draw(t, "neither") == 0 {
			c.Db = ""
		}
	}
	c.Servers = rapid.SliceOfN(rapid.SampledFrom([]string{"b.test:1522", "10.0.0.9:1521", "c-3.test:99", "[::1]:77", "d.test:1521"}), 0, 3).Draw(t, "servers")
	c.Sep = rapid.SampledFrom([]string{",", ", "}).Draw(t, "separator")
	c.Timeout = rapid.SampledFrom([]int{0, 0, 1, 9, 60, 3600, 100000}).Draw(t, "connect timeout")
	c.Params = genParams(t, oracleVars, oracleValue)
	c.Params = slices.DeleteFunc(c.Params, func(p dbParam) bool { return p.Key == "CONNECTION TIMEOUT" && c.Timeout != 0 })
	if rapid.Bool().Draw(t, "customizer") {
		c.Custom = rapid.SliceOfDistinct(rapid.SampledFrom([]string{"timeout", "param", "drop", "sid", "servers"}), rapid.ID[string]).Draw(t, "customize")
		if c.Custom == nil {
			c.Custom = []string{}
		}
		k := rapid.SampledFrom(oracleVars).Draw(t, "custom param")
		c.CParam = dbParam{Key: k, Value: oracleValue(t, k)}
	}
	return
}

func (c oracleCase) options() map[string]string {
	m := map[string]string{}
	if c.Sid != "" {
		m["SID"] = c.Sid
	}
	if len(c.Servers) > 0 {
		m["server"] = strings.Join(c.Servers, c.Sep)
	}
	if c.Timeout != 0 {
		m["CONNECTION TIMEOUT"] = fmt.Sprint(c.Timeout)
	}
	for _, p := range c.Params {
		if p.Key != "" {
			m[p.Key] = p.Value
		}
	}
	return m
}

func (c oracleCase) customize(m map[string]string) {
	for _, what := range []string{"drop", "timeout", "sid", "servers", "param"} {
		if !slices.Contains(c.Custom, what) {
			continue
		}
		switch what {
		case "drop":
			for _, k := range oracleVars {
				delete(m, k)
			}
		case "timeout":
			m["CONNECTION TIMEOUT"] = "17"
		case "sid":
			m["SID"] = "CUSTOM"
		case "servers":
			m["server"] = "custom.test:7"
		case "param":
			m[c.CParam.Key] = c.CParam.Value
		}
	}
}

// oracleDriver takes connection strings; what they mean is asked of the real driver.
type oracleDriver struct {
	mu          sync.Mutex
	dsns        []string
	open, total int
}

func (d *oracleDriver) Open(dsn string) (driver.Conn, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.dsns = append(d.dsns, dsn)
	d.open++
	d.total++
	return &oracleConn{d: d}, nil
}

func (d *oracleDriver) counts() (open, total int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.open, d.total
}

type oracleConn struct{ d *oracleDriver }

func (c *oracleConn) Close() error {
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	c.d.open--
	return nil
}
func (c *oracleConn) Ping(context.Context) error                { return nil }
func (c *oracleConn) Begin() (driver.Tx, error)                 { return nil, errors.New("unused") }
func (c *oracleConn) Prepare(query string) (driver.Stmt, error) { return nil, errors.New("unused") }

// meaning is what the real driver makes of a connection string.
func meaning(dsn string) (m map[string]string, servers []string, err error) {
	conn, err := go_ora.NewConnection(dsn)
	if err != nil {
		return nil, nil, err
	}
	str := reflect.ValueOf(conn).Elem().FieldByName("conStr").Elem()
	opt := str.FieldByName("connOption")
	text := func(v reflect.Value) string {
		switch v.Kind() {
		case reflect.String:
			return v.String()
		case reflect.Int, reflect.Int64:
			return fmt.Sprint(v.Int())
		}
		panic(v.Kind())
	}
	m = map[string]string{
		"user":               text(opt.FieldByName("UserID")),
		"password":           text(str.FieldByName("password")),
		"service":            text(opt.FieldByName("ServiceName")),
		"SID":                text(opt.FieldByName("SID")),
		"CONNECTION TIMEOUT": text(opt.FieldByName("SessionInfo").FieldByName("Timeout")),
		"PREFETCH_ROWS":      text(opt.FieldByName("PrefetchRows")),
		"INSTANCE NAME":      text(opt.FieldByName("InstanceName")),
		"OS USER":            text(opt.FieldByName("ClientInfo").FieldByName("UserName")),
		"DOMAIN":             text(opt.FieldByName("DomainName")),
		"UNIX SOCKET":        text(opt.FieldByName("UnixAddress")),
		"PROXY CLIENT NAME":  text(opt.FieldByName("ProxyClientName")),
		"DBA PRIVILEGE":      text(str.FieldByName("DBAPrivilege")),
	}
	auth := opt.FieldByName("AuthService")
	var services []string
	for i := range auth.Len() {
		services = append(services, auth.Index(i).String())
	}
	m["AUTH SERV"] = strings.Join(services, ",")
	list := opt.FieldByName("Servers")
	for i := range list.Len() {
		s := list.Index(i)
		servers = append(servers, fmt.Sprintf("%s %d", s.FieldByName("Addr").String(), s.FieldByName("Port").Int()))
	}
	return m, servers, nil
}

func runOracle(c oracleCase) (o pbt.Outcome) {
	d := &oracleDriver{}
	defer swapDriver("oracle", d)()
	conf := &confs.OracleConf{
		Host: c.Host, Port: c.Port, Username: c.User, Password: c.Pass, Service: c.Db, Sid: c.Sid,
		Servers:      strings.Join(c.Servers, c.Sep),
		MaxOpenConns: c.MaxOpen, MaxIdleConns: c.MaxIdle, ConnMaxLifetime: c.Lifetime,
		ConnectTimeout: c.Timeout, Params: paramString(c.Params),
	}
	want := c.options()
	seen, calls := "", 0
	var customizer confs.OracleUrlOptionsCustomizer
	if c.Custom != nil {
		customizer = func(m map[string]string) {
			calls++
			if !maps.Equal(m, want) {
				seen = fmt.Sprintf("%q, want %q", m, want)
			}
			c.customize(m)
		}
	}
	var db *sql.DB
	failed := constructed(func() {
		if c.Traced {
			db = confs.NewOracleDbWithTracer(conf, noTracer(), customizer)
		} else {
			db = confs.NewOracleDb(conf, customizer)
		}
	})
	if c.Db == "" && c.Sid == "" {
		o.Label("neither service nor SID")
		if failed == "" {
			db.Close()
			o.Fail("a client for neither a service nor a SID")
		}
		return
	}
	if failed != "" || db == nil {
		if len(d.dsns) == 0 && !strings.Contains(failed, "need to provide") {
			o.Label("undecided: the driver was not used")
		} else {
			o.Fail("no client: %s", failed)
		}
		return
	}
	defer db.Close()
	if customizer != nil && (calls != 1 || seen != "") {
		o.Fail("customizer called %d times, with other options than configured: %s", calls, seen)
		return
	}
	checkLimits(&o, c.dbCase, db, d.counts)
	if o.Err != nil {
		return
	}
	if c.Custom != nil {
		c.customize(want)
	}
	def, _, err := meaning("oracle://u:p@h:1/s")
	if err != nil {
		panic(err)
	}
	for k, v := range def {
		if _, ok := want[k]; !ok {
			want[k] = v
		}
	}
	wantServers := []string{fmt.Sprintf("%s %d", c.Host, c.Port)}
	if s := want["server"]; s != "" {
		for _, s := range strings.Split(s, ",") {
			s = strings.TrimSpace(s)
			i := strings.LastIndexByte(s, ':')
			wantServers = append(wantServers, strings.Trim(s[:i], "[]")+" "+s[i+1:])
		}
	}
	extra := len(c.options())
	delete(want, "server")
	want["user"], want["password"], want["service"] = c.User, c.Pass, c.Db
	switch want["DBA PRIVILEGE"] {
	case "SYSDBA":
		want["DBA PRIVILEGE"] = "32"
	case "SYSOPER":
		want["DBA PRIVILEGE"] = "64"
	default:
		if strings.EqualFold(c.User, "sys") {
			want["DBA PRIVILEGE"] = "32"
		}
	}
	if len(d.dsns) == 0 {
		o.Label("undecided: the driver was not used")
		return
	}
	for i, dsn := range d.dsns {
		if i > 0 && dsn == d.dsns[0] {
			continue
		}
		got, servers, err := meaning(dsn)
		if err != nil {
			o.Fail("the driver does not take %q: %v", dsn, err)
			return
		}
		if !maps.Equal(got, want) {
			for k := range want {
				if got[k] != want[k] {
					o.Fail("%s is %q, configured %q (%q)", k, got[k], want[k], dsn)
				}
			}
			return
		}
		if !slices.Equal(servers, wantServers) {
			o.Fail("servers %q, configured %q (%q)", servers, wantServers, dsn)
			return
		}
	}
	o.LabelIf(c.Traced, "traced")
	o.LabelIf(len(c.Custom) > 0, "customized")
	o.LabelIf(c.Sid != "", "SID")
	o.LabelIf(len(c.Servers) > 0, "servers")
	reserved := strings.ContainsAny(c.User+c.Pass+c.Db, ":@/?&=#%' ")
	o.LabelIf(reserved, "reserved characters")
	o.Nontrivial = extra > 0 || len(c.Custom) > 0 || reserved
	return
}

var oraclePart = pbt.Part[oracleCase]{
	Name:   "oracle",
	Rule:   "a client with random settings, traced or not, customized or not; the driver is replaced by one that takes the connection string, and the real driver is asked what that string means: address, further servers, user, password, service, SID, timeout and options; then the client is used up to its limits and past the lifetime on a fake clock; non-trivial with options, a customizer or reserved characters",
	Quick:  2500,
	Deep:   30000,
	Bubble: true,
	Gen:    genOracle,
	Run:    runOracle,
}
