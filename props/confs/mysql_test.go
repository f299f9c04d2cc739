package confs

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"database/sql"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"slices"
	"strings"
	"sync"
	"time"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confs"
	"github.com/go-sql-driver/mysql"
	"pgregory.net/rapid"
)

type mysqlCase struct {
	dbCase
	NoPass, NoDb         bool
	Read, Write, Timeout time.Duration
	ParseTime            bool
	Loc                  string
	Custom               []string
	CAddr, CUser, CPass  string
	CDb                  string
	CParam               dbParam
}

var timeouts = []time.Duration{0, 0, 5 * time.Millisecond, 1500 * time.Millisecond, time.Second, 7 * time.Second, time.Minute, 25 * time.Hour}

// What Params may say to the driver itself.
var mysqlOptions = []string{"charset", "collation", "clientFoundRows", "multiStatements", "timeout", "readTimeout", "writeTimeout", "parseTime", "loc"}
var mysqlVars = []string{"time_zone", "sql_mode", "tx_isolation", "autocommit", "wait_timeout"}

func genMysql(t *rapid.T) (c mysqlCase) {
	c.dbCase = genDb(t)
	c.NoPass = rapid.IntRange(0, 7).Draw(t, "no password") == 0
	c.NoDb = rapid.IntRange(0, 7).Draw(t, "no database") == 0
	if c.NoPass {
		c.Pass = ""
	}
	if c.NoDb {
		c.Db = ""
	}
	c.Read = rapid.SampledFrom(timeouts).Draw(t, "read timeout")
	c.Write = rapid.SampledFrom(timeouts).Draw(t, "write timeout")
	c.Timeout = rapid.SampledFrom(timeouts).Draw(t, "timeout")
	c.ParseTime = rapid.Bool().Draw(t, "parse time")
	c.Loc = rapid.SampledFrom([]string{"", "", "UTC", "Asia/Shanghai", "America/New_York", "Local"}).Draw(t, "loc")
	c.Params = genParams(t, append(slices.Clone(mysqlVars), mysqlOptions...), func(t *rapid.T, key string) string {
		switch key {
		case "charset":
			return rapid.SampledFrom([]string{"utf8mb4", "latin1", "utf8mb4,utf8"}).Draw(t, key)
		case "collation":
			return rapid.SampledFrom([]string{"latin1_swedish_ci", "utf8mb4_unicode_ci"}).Draw(t, key)
		case "clientFoundRows", "multiStatements", "parseTime":
			return "true"
		case "timeout", "readTimeout", "writeTimeout":
			return "3s"
		case "loc":
			return "Europe/Paris"
		}
		return dbText(t, key, anyRunes)
	})
	// A setting made twice, by its field and by Params: which of them counts is nobody's promise.
	c.Params = slices.DeleteFunc(c.Params, func(p dbParam) bool {
		switch p.Key {
		case "timeout":
			return c.Timeout != 0
		case "readTimeout":
			return c.Read != 0
		case "writeTimeout":
			return c.Write != 0
		case "loc":
			return c.Loc != ""
		case "parseTime":
			return c.ParseTime
		}
		return false
	})
	c.Custom = rapid.SliceOfDistinct(rapid.SampledFrom([]string{"addr", "user", "pass", "db", "timeout", "read", "write", "parse", "loc", "param", "drop"}), rapid.ID[string]).Draw(t, "customize")
	if rapid.IntRange(0, 2).Draw(t, "no customizer") == 0 {
		c.Custom = nil
	}
	for _, what := range c.Custom {
		for _, p := range c.Params {
			if p.Key == map[string]string{"timeout": "timeout", "read": "readTimeout", "write": "writeTimeout", "parse": "parseTime", "loc": "loc"}[what] {
				c.Custom = slices.DeleteFunc(slices.Clone(c.Custom), func(s string) bool { return s == what })
			}
		}
	}
	c.CAddr = "custom.test:77"
	c.CUser, c.CPass, c.CDb = dbText(t, "custom user", anyRunes), dbText(t, "custom password", anyRunes), dbText(t, "custom database", anyRunes)
	c.CParam = dbParam{Key: rapid.SampledFrom(mysqlVars).Draw(t, "custom param"), Value: dbText(t, "custom value", anyRunes)}
	return
}

// effective applies the customizer to the model.
func (c mysqlCase) effective() (addr string, e mysqlCase, params map[string]string) {
	e, addr = c, fmt.Sprintf("%s:%d", c.Host, c.Port)
	params = map[string]string{}
	for _, p := range c.Params {
		if p.Key != "" {
			params[p.Key] = p.Value
		}
	}
	for _, what := range c.Custom {
		switch what {
		case "addr":
			addr = c.CAddr
		case "user":
			e.User = c.CUser
		case "pass":
			e.Pass = c.CPass
		case "db":
			e.Db = c.CDb
		case "timeout":
			e.Timeout = 11 * time.Second
		case "read":
			e.Read = 12 * time.Second
		case "write":
			e.Write = 13 * time.Second
		case "parse":
			e.ParseTime = !c.ParseTime
		case "loc":
			e.Loc = "Asia/Tokyo"
		case "drop":
			clear(params)
		}
	}
	if slices.Contains(c.Custom, "param") {
		params[c.CParam.Key] = c.CParam.Value
	}
	for k, v := range params {
		d, _ := time.ParseDuration(v)
		switch k {
		case "timeout":
			e.Timeout = d
		case "readTimeout":
			e.Read = d
		case "writeTimeout":
			e.Write = d
		case "parseTime":
			e.ParseTime = true
		case "loc":
			e.Loc = v
		}
	}
	return
}

type mysqlHello struct {
	caps    uint32
	charset byte
	user    string
	auth    []byte
	db      string
	nonce   []byte
	sets    []string // statements before the first command of the client
}

type mysqlServer struct {
	dbServer
	hellos []*mysqlHello
}

func (s *mysqlServer) talk(conn net.Conn) error {
	r := bufio.NewReader(conn)
	var seq byte
	read := func() ([]byte, error) {
		var h [4]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return nil, err
		}
		seq = h[3] + 1
		p := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
		_, err := io.ReadFull(r, p)
		return p, err
	}
	write := func(packets ...[]byte) error {
		var b []byte
		for _, p := range packets {
			b = append(b, byte(len(p)), byte(len(p)>>8), byte(len(p)>>16), seq)
			b = append(b, p...)
			seq++
		}
		_, err := conn.Write(b)
		return err
	}
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	eof := []byte{0xfe, 0, 0, 2, 0}

	nonce := []byte("0123456789abcdefghij")
	hello := append([]byte{10}, "8.0.0-verif\x00"...)
	hello = append(hello, 1, 0, 0, 0)
	hello = append(hello, nonce[:8]...)
	hello = append(hello, 0)
	caps := uint32(1 | 2 | 4 | 8 | 0x200 | 0x2000 | 0x8000 | 0x10000 | 0x20000 | 0x80000 | 0x200000)
	hello = binary.LittleEndian.AppendUint16(hello, uint16(caps))
	hello = append(hello, 33, 2, 0)
	hello = binary.LittleEndian.AppendUint16(hello, uint16(caps>>16))
	hello = append(hello, 21)
	hello = append(hello, make([]byte, 10)...)
	hello = append(hello, nonce[8:]...)
	hello = append(hello, 0)
	hello = append(hello, "mysql_native_password\x00"...)
	if write(hello) != nil {
		return nil
	}
	p, err := read()
	if err != nil {
		return nil
	}
	h := &mysqlHello{nonce: nonce}
	if err := h.parse(p); err != nil {
		return fmt.Errorf("handshake response: %w: %q", err, p)
	}
	s.mu.Lock()
	s.hellos = append(s.hellos, h)
	s.mu.Unlock()
	if write(ok) != nil {
		return nil
	}
	for {
		p, err := read()
		if err != nil {
			return nil // the client left
		}
		if len(p) == 0 {
			return fmt.Errorf("empty command")
		}
		switch p[0] {
		case 0x01: // quit
			return nil
		case 0x0e: // ping
			err = write(ok)
		case 0x03: // query
			q := string(p[1:])
			if !strings.HasPrefix(q, "SELECT") {
				s.mu.Lock()
				h.sets = append(h.sets, q)
				s.mu.Unlock()
				err = write(ok)
				break
			}
			def := []byte("\x03def\x00\x00\x00\x01t\x00\x0c\x3f\x00\x13\x00\x00\x00\x0c\x00\x00\x00\x00\x00")
			err = write([]byte{1}, def, eof, []byte("\x132021-06-01 12:34:56"), eof)
		default:
			return fmt.Errorf("unexpected command %q", p)
		}
		if err != nil {
			return nil
		}
	}
}

func (h *mysqlHello) parse(p []byte) error {
	if len(p) < 33 {
		return io.ErrUnexpectedEOF
	}
	h.caps, h.charset = binary.LittleEndian.Uint32(p), p[8]
	p = p[32:]
	str := func() (string, error) {
		i := bytes.IndexByte(p, 0)
		if i < 0 {
			return "", io.ErrUnexpectedEOF
		}
		s := string(p[:i])
		p = p[i+1:]
		return s, nil
	}
	var err error
	if h.user, err = str(); err != nil {
		return err
	}
	if len(p) == 0 || len(p) < 1+int(p[0]) {
		return io.ErrUnexpectedEOF
	}
	h.auth = p[1 : 1+p[0]]
	p = p[1+p[0]:]
	if h.caps&8 != 0 {
		if h.db, err = str(); err != nil {
			return err
		}
	}
	return nil
}

func scramble(nonce []byte, pass string) []byte {
	if pass == "" {
		return nil
	}
	h1 := sha1.Sum([]byte(pass))
	h2 := sha1.Sum(h1[:])
	h3 := sha1.Sum(append(slices.Clone(nonce), h2[:]...))
	for i := range h1 {
		h1[i] ^= h3[i]
	}
	return h1[:]
}

// The driver's dialers are registered once and for all.
var mysqlDial struct {
	once sync.Once
	dial func(ctx context.Context, addr string) (net.Conn, error)
}

// deadlines records the timeouts a client sets.
type deadlines struct {
	net.Conn
	mu          *sync.Mutex
	read, write map[time.Duration]bool
}

func (d *deadlines) note(m map[time.Duration]bool, t time.Time) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if t.IsZero() {
		return
	}
	m[time.Until(t)] = true
}

func (d *deadlines) SetReadDeadline(t time.Time) error {
	d.note(d.read, t)
	return d.Conn.SetReadDeadline(t)
}

func (d *deadlines) SetWriteDeadline(t time.Time) error {
	d.note(d.write, t)
	return d.Conn.SetWriteDeadline(t)
}

func (d *deadlines) SetDeadline(t time.Time) error {
	d.note(d.read, t)
	d.note(d.write, t)
	return d.Conn.SetDeadline(t)
}

func runMysql(c mysqlCase) (o pbt.Outcome) {
	srv := &mysqlServer{}
	srv.serve = srv.talk
	var mu sync.Mutex
	dialTimeouts, reads, writes := map[time.Duration]bool{}, map[time.Duration]bool{}, map[time.Duration]bool{}
	mysqlDial.once.Do(func() {
		mysql.RegisterDialContext("tcp", func(ctx context.Context, addr string) (net.Conn, error) {
			return mysqlDial.dial(ctx, addr)
		})
	})
	mysqlDial.dial = func(ctx context.Context, addr string) (net.Conn, error) {
		d := time.Duration(0)
		if end, ok := ctx.Deadline(); ok {
			d = time.Until(end)
		}
		mu.Lock()
		dialTimeouts[d] = true
		mu.Unlock()
		return &deadlines{srv.dial("tcp", addr), &mu, reads, writes}, nil
	}

	conf := &confs.MysqlConf{
		Host: c.Host, Port: c.Port, Username: c.User, Password: c.Pass, Database: c.Db,
		MaxOpenConns: c.MaxOpen, MaxIdleConns: c.MaxIdle, ConnMaxLifetime: c.Lifetime,
		ReadTimeout: c.Read, WriteTimeout: c.Write, Timeout: c.Timeout,
		Loc: c.Loc, ParseTime: c.ParseTime, Params: paramString(c.Params),
	}
	seen := ""
	calls := 0
	var customizer confs.MysqlConfigCustomizer
	if c.Custom != nil {
		customizer = func(mc *mysql.Config) {
			calls++
			if mc.User != c.User || mc.Passwd != c.Pass || mc.DBName != c.Db || mc.Addr != fmt.Sprintf("%s:%d", c.Host, c.Port) ||
				mc.Timeout != c.Timeout || mc.ReadTimeout != c.Read || mc.WriteTimeout != c.Write || mc.ParseTime != c.ParseTime {
				seen = fmt.Sprintf("%+v", *mc)
			}
			for _, what := range c.Custom {
				switch what {
				case "addr":
					mc.Addr = c.CAddr
				case "user":
					mc.User = c.CUser
				case "pass":
					mc.Passwd = c.CPass
				case "db":
					mc.DBName = c.CDb
				case "timeout":
					mc.Timeout = 11 * time.Second
				case "read":
					mc.ReadTimeout = 12 * time.Second
				case "write":
					mc.WriteTimeout = 13 * time.Second
				case "parse":
					mc.ParseTime = !mc.ParseTime
				case "loc":
					mc.Loc, _ = time.LoadLocation("Asia/Tokyo")
				case "drop":
					mc.Params = map[string]string{}
				}
			}
			if slices.Contains(c.Custom, "param") {
				mc.Params[c.CParam.Key] = c.CParam.Value
			}
		}
	}
	var db *sql.DB
	failed := constructed(func() {
		if c.Traced {
			db = confs.NewMySqlDbWithTracer(conf, noTracer(), customizer)
		} else {
			db = confs.NewMySqlDb(conf, customizer)
		}
	})
	addr, e, params := c.effective()
	if failed != "" || db == nil {
		if len(srv.dials) == 0 {
			o.Fail("not even dialled: %s", failed)
		} else {
			o.Fail("no client (%s), the server says: %s", failed, srv.firstErr())
		}
		return
	}
	defer db.Close()
	if customizer != nil && (calls != 1 || seen != "") {
		o.Fail("customizer called %d times, got other settings than configured: %s", calls, seen)
		return
	}

	// Results
	var v any
	if err := db.QueryRow("SELECT t").Scan(&v); err != nil {
		o.Fail("query: %v", err)
		return
	}
	if e.ParseTime {
		loc := time.UTC
		if e.Loc != "" {
			loc, _ = time.LoadLocation(e.Loc)
		}
		want := time.Date(2021, 6, 1, 12, 34, 56, 0, loc)
		got, ok := v.(time.Time)
		if !ok || !got.Equal(want) {
			o.Fail("ParseTime with Loc %q: DATETIME read as %T %v, want %v", e.Loc, v, v, want)
			return
		}
		o.Label("time parsed")
	} else if b, ok := v.([]byte); !ok || string(b) != "2021-06-01 12:34:56" {
		o.Fail("no ParseTime: DATETIME read as %T %v", v, v)
		return
	}
	lim := c.dbCase
	checkLimits(&o, lim, db, srv.counts)
	if o.Err != nil {
		return
	}

	mu.Lock()
	defer mu.Unlock()
	srv.mu.Lock()
	defer srv.mu.Unlock()
	if len(srv.errs) > 0 {
		o.Fail("%v", srv.errs[0])
		return
	}
	for _, d := range srv.dials {
		if d != "tcp "+addr {
			o.Fail("dialled %q, configured tcp %s", d, addr)
			return
		}
	}
	only := func(name string, got map[time.Duration]bool, want time.Duration) {
		delete(got, 0)
		if want == 0 && len(got) > 0 || want != 0 && (len(got) != 1 || !got[want]) {
			o.Fail("%s %v used, configured %v", name, got, want)
		}
	}
	only("dial timeout", dialTimeouts, e.Timeout)
	only("read timeout", reads, e.Read)
	only("write timeout", writes, e.Write)
	var vars []string
	for k, v := range params {
		if slices.Contains(mysqlVars, k) {
			vars = append(vars, k+"="+v)
		}
	}
	for _, h := range srv.hellos {
		if h.user != e.User || h.db != e.Db {
			o.Fail("presented user %q database %q, configured %q and %q", h.user, h.db, e.User, e.Db)
			return
		}
		if !bytes.Equal(h.auth, scramble(h.nonce, e.Pass)) {
			o.Fail("presented another password than %q", e.Pass)
			return
		}
		if _, ok := params["clientFoundRows"]; ok != (h.caps&2 != 0) {
			o.Fail("clientFoundRows in Params: %v, in the handshake: %v", ok, !ok)
			return
		}
		if _, ok := params["multiStatements"]; ok != (h.caps&(1<<16) != 0) {
			o.Fail("multiStatements in Params: %v, in the handshake: %v", ok, !ok)
			return
		}
		if col, ok := params["collation"]; ok && h.charset != map[string]byte{"latin1_swedish_ci": 8, "utf8mb4_unicode_ci": 224}[col] {
			o.Fail("collation %s in Params, %d in the handshake", col, h.charset)
			return
		}
		var sets []string
		names := ""
		for _, q := range h.sets {
			if n, ok := strings.CutPrefix(q, "SET NAMES "); ok {
				names = n
			} else {
				sets = append(sets, q)
			}
		}
		if want, _, _ := strings.Cut(params["charset"], ","); names != want {
			o.Fail("charset %q in Params, SET NAMES %q sent", params["charset"], names)
			return
		}
		if len(vars) == 0 && len(sets) > 0 || len(vars) > 0 && !isAssignment(sets, vars) {
			o.Fail("system variables %q configured, sent %q", vars, sets)
			return
		}
	}
	o.LabelIf(len(vars) > 0, "system variables")
	o.LabelIf(c.Traced, "traced")
	o.LabelIf(len(c.Custom) > 0, "customized")
	o.LabelIf(len(params) > len(vars), "driver options")
	o.LabelIf(e.Timeout+e.Read+e.Write != 0, "timeouts")
	o.LabelIf(strings.ContainsAny(e.User+e.Pass+e.Db, ":@/?&=#%' "), "reserved characters")
	o.Nontrivial = len(params) > 0 || len(c.Custom) > 0 || strings.ContainsAny(e.User+e.Pass+e.Db, ":@/?&=#%' ")
	return
}

// isAssignment says whether the statements set exactly these variables, each
// once, in some order, in one statement or several.
func isAssignment(sets, vars []string) bool {
	var all []string
	for _, s := range sets {
		rest, ok := strings.CutPrefix(s, "SET ")
		if !ok {
			return false
		}
		all = append(all, rest)
	}
	return permuted(strings.Join(all, ","), vars)
}

func permuted(s string, vars []string) bool {
	if len(vars) == 0 {
		return s == ""
	}
	for i, v := range vars {
		rest, ok := strings.CutPrefix(s, v)
		if !ok || len(vars) > 1 && !strings.HasPrefix(rest, ",") {
			continue
		}
		others := append(slices.Clone(vars[:i]), vars[i+1:]...)
		if permuted(strings.TrimPrefix(rest, ","), others) {
			return true
		}
	}
	return false
}

var mysqlPart = pbt.Part[mysqlCase]{
	Name:   "mysql",
	Rule:   "a client with random settings, traced or not, customized or not, against a stand-in MySQL server that checks address, user, password scramble, database, handshake flags, variables and timeouts, then uses the client up to its limits and past the lifetime on a fake clock; non-trivial with extra parameters, a customizer or reserved characters",
	Quick:  2500,
	Deep:   30000,
	Bubble: true,
	Gen:    genMysql,
	Run:    runMysql,
}
