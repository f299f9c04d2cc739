package confs

import (
	"context"
	"fmt"
	"net"
	"strconv"
	"sync"
	"testing"
	"time"

	"gearsverif/pbt"
	"gearsverif/redistub"

	"github.com/chanjarster/gears/confs"
	"github.com/go-redis/redis/v7"
	"pgregory.net/rapid"
)

type redisCase struct {
	Host string
	Port int
	Pass []byte
	Pool int
	Idle int
	Db   int

	SrvPass []byte // password of the server
	Down    string // "", dial (nothing listens), error, drop, garbage (the first command is answered so)
	Listen  bool   // on a real socket, without a customizer
	Custom  []string
	CAddr   string
	CPass   []byte
	CPool   int
	CIdle   int
	CDb     int
	Users   int // concurrent commands
}

func genPass(t *rapid.T, name string) []byte {
	switch rapid.IntRange(0, 4).Draw(t, name+" how") {
	case 0:
		return nil
	case 1:
		return []byte(rapid.SampledFrom([]string{"a b", "p@ss:w/or?d", "\r\n", "密码", "\x00", "\xff", "*1\r\n", "%41", "'\""}).Draw(t, name))
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, name)
	}
	return []byte(rapid.StringMatching(`[a-z0-9]{1,8}`).Draw(t, name))
}

func genDbNo(t *rapid.T, name string) int {
	return rapid.OneOf(rapid.IntRange(0, 15), rapid.IntRange(0, 15), rapid.SampledFrom([]int{16, 31, 64, 127, 128, 255, 1000, 70000})).Draw(t, name)
}

func genRedis(t *rapid.T) (c redisCase) {
	c.Host = rapid.SampledFrom([]string{"127.0.0.1", "localhost", "redis.test", "redis-1.example.org", "[::1]", "主机"}).Draw(t, "host")
	c.Port = rapid.SampledFrom([]int{1, 6379, 6380, 65535}).Draw(t, "port")
	c.Pass = genPass(t, "password")
	c.Pool = rapid.IntRange(0, 6).Draw(t, "pool")
	if rapid.IntRange(0, 7).Draw(t, "large pool") == 0 {
		c.Pool = rapid.SampledFrom([]int{64, 100, 255, 256, 1000, 1024, 5000, 65536}).Draw(t, "pool")
	}
	max := min(c.Pool, 6)
	if max == 0 {
		max = 5
	}
	c.Idle = rapid.IntRange(0, max).Draw(t, "idle")
	if c.Pool >= 64 && rapid.Bool().Draw(t, "many idle") {
		c.Idle = rapid.IntRange(6, 60).Draw(t, "idle")
	}
	c.Db = genDbNo(t, "db")
	c.SrvPass = c.Pass
	if rapid.IntRange(0, 5).Draw(t, "other password") == 0 {
		c.SrvPass = genPass(t, "server password")
	}
	if rapid.IntRange(0, 9).Draw(t, "down") == 0 {
		c.Down = rapid.SampledFrom([]string{"dial", "error", "garbage"}).Draw(t, "how")
	}
	c.Listen = rapid.IntRange(0, 3).Draw(t, "listen") == 0
	if !c.Listen {
		c.Custom = rapid.SliceOfDistinct(rapid.SampledFrom([]string{"addr", "pass", "pool", "idle", "db"}), rapid.ID[string]).Draw(t, "customize")
		c.CAddr, c.CPass, c.CDb = "custom.test:77", genPass(t, "custom password"), genDbNo(t, "custom db")
		c.CPool = rapid.IntRange(1, 6).Draw(t, "custom pool")
		c.CIdle = rapid.IntRange(0, 3).Draw(t, "custom idle")
		for _, s := range c.Custom {
			if s == "pass" {
				c.SrvPass = c.CPass
			}
		}
	}
	c.Users = rapid.IntRange(1, 9).Draw(t, "users")
	return
}

func runRedis(c redisCase) (o pbt.Outcome) {
	srv := redistub.New()
	srv.Password = string(c.SrvPass)
	defer srv.CloseAll()
	var mu sync.Mutex
	addrs := map[string]int{}
	waiting, gate := 0, make(chan struct{})
	srv.Fault = func(args []string) redistub.Fault {
		switch c.Down {
		case "error":
			return redistub.ErrorReply
		case "drop":
			return redistub.DropBefore
		case "garbage":
			return redistub.GarbageReply
		}
		if len(args) > 1 && args[0] == "get" && args[1] == "barrier" || len(args) > 1 && args[0] == "GET" && args[1] == "barrier" {
			mu.Lock()
			waiting++
			mu.Unlock()
			<-gate
		}
		return redistub.OK
	}

	conf := &confs.RedisConf{Host: c.Host, Port: c.Port, Password: string(c.Pass), Pool: c.Pool, MinIdle: c.Idle, Db: c.Db}
	wantAddr, wantPass, wantPool, wantIdle, wantDb := c.Host+":"+strconv.Itoa(c.Port), c.Pass, c.Pool, c.Idle, c.Db
	var customizer confs.RedisOptionCustomizer
	calls := 0
	if c.Listen {
		l := pbt.Listen()
		defer l.Close()
		addr := l.Addr().(*net.TCPAddr)
		if c.Down == "dial" {
			r := pbt.Refusing()
			defer r.Close()
			addr = r.Addr().(*net.TCPAddr)
		}
		conf.Host, conf.Port = addr.IP.String(), addr.Port
		wantAddr = conf.Host + ":" + strconv.Itoa(conf.Port)
		go func() {
			for {
				nc, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				addrs[l.Addr().String()]++
				mu.Unlock()
				go srv.Serve(nc)
			}
		}()
	} else {
		customizer = func(r *redis.Options) {
			calls++
			if r.Addr != c.Host+":"+strconv.Itoa(c.Port) || r.Password != string(c.Pass) || r.PoolSize != c.Pool || r.MinIdleConns != c.Idle || r.DB != c.Db {
				o.Fail("customizer: it was given %q %q %d %d %d", r.Addr, r.Password, r.PoolSize, r.MinIdleConns, r.DB)
			}
			r.Dialer = func(_ context.Context, network, addr string) (net.Conn, error) {
				mu.Lock()
				addrs[addr]++
				mu.Unlock()
				if c.Down == "dial" {
					return nil, fmt.Errorf("refused")
				}
				return srv.Dial()
			}
			r.MaxRetries = -1
			for _, s := range c.Custom {
				switch s {
				case "addr":
					r.Addr = c.CAddr
				case "pass":
					r.Password = string(c.CPass)
				case "pool":
					r.PoolSize = c.CPool
				case "idle":
					r.MinIdleConns = c.CIdle
				case "db":
					r.DB = c.CDb
				}
			}
		}
		for _, s := range c.Custom {
			switch s {
			case "addr":
				wantAddr = c.CAddr
			case "pass":
				wantPass = c.CPass
			case "pool":
				wantPool = c.CPool
			case "idle":
				wantIdle = c.CIdle
			case "db":
				wantDb = c.CDb
			}
		}
	}
	saved := *conf
	var client *redis.Client
	failed := constructed(func() { client = confs.NewRedisClient(conf, customizer) })
	if client != nil {
		defer client.Close()
	}
	wantFail := c.Down != "" || string(wantPass) != string(c.SrvPass)
	if (failed != "") != wantFail {
		o.Fail("construct: failed %q; server password %q, configured %q, trouble %q", failed, c.SrvPass, wantPass, c.Down)
	}
	if *conf != saved {
		o.Fail("construct: the configuration was changed")
	}
	if !c.Listen && calls != 1 {
		o.Fail("customizer: called %d times", calls)
	}
	mu.Lock()
	for a := range addrs {
		if a != wantAddr {
			o.Fail("address: dialled %q, configured %q", a, wantAddr)
		}
	}
	mu.Unlock()
	for _, a := range srv.Auths() {
		if a != string(wantPass) {
			o.Fail("password: the server got %q, configured %q", a, wantPass)
		}
	}
	if len(wantPass) == 0 && len(srv.Auths()) > 0 {
		o.Fail("password: authenticated without one configured")
	}
	o.LabelIf(wantFail, "construction fails")
	o.LabelIf(c.Listen, "real socket")
	o.LabelIf(len(c.Custom) > 0, "customized")
	if o.Err != nil || failed != "" {
		o.Nontrivial = failed != ""
		return
	}

	// database
	if err := client.HSet("the-key", "f", "v").Err(); err != nil {
		o.Fail("command: %v", err)
		return
	}
	if h := srv.Hash(wantDb, "the-key"); h["f"] != "v" {
		o.Fail("database: not written to database %d", wantDb)
	}
	if ro := client.Options(); wantPool > 0 && ro.PoolSize != wantPool || ro.MinIdleConns != wantIdle {
		o.Fail("options: the client has pool size %d and %d idle connections, want %d and %d", ro.PoolSize, ro.MinIdleConns, wantPool, wantIdle)
	}
	// idle connections
	if wantPool > 0 && wantIdle > wantPool {
		wantIdle = wantPool
	}
	if !eventually(3*time.Second, func() bool { _, open, _ := srv.Conns(); return open >= wantIdle }) {
		_, open, _ := srv.Conns()
		o.Fail("idle: %d connections open, at least %d configured", open, wantIdle)
	}
	// concurrent use
	limit := c.Users
	if wantPool > 0 && limit > wantPool {
		limit = wantPool
	}
	var wg sync.WaitGroup
	errs := make(chan error, c.Users)
	for i := 0; i < c.Users; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := client.Get("barrier").Err(); err != nil && err != redis.Nil {
				errs <- err
			}
		}()
	}
	n := func() int { mu.Lock(); defer mu.Unlock(); return waiting }
	if !eventually(3*time.Second, func() bool { return n() >= limit }) {
		o.Fail("pool: only %d of %d commands run at once, pool size %d", n(), c.Users, wantPool)
	}
	if c.Users > limit {
		time.Sleep(time.Millisecond)
	}
	if got := n(); got > limit {
		o.Fail("pool: %d commands run at once, pool size %d", got, wantPool)
	}
	close(gate)
	wg.Wait()
	select {
	case err := <-errs:
		o.Fail("command: %v", err)
	default:
	}
	// go-redis may hold connections beyond the pool while idle ones are being
	// established, and gives them up after use
	if _, _, most := srv.Conns(); wantPool > 0 && wantIdle == 0 && most > wantPool {
		o.Fail("pool: %d connections at once, pool size %d", most, wantPool)
	}
	if wantPool > 0 && !eventually(3*time.Second, func() bool { _, open, _ := srv.Conns(); return open <= wantPool }) {
		_, open, _ := srv.Conns()
		o.Fail("pool: %d connections are left, pool size %d", open, wantPool)
	}
	o.LabelIf(c.Users > limit, "more commands than connections")
	o.LabelIf(wantIdle > 0, "idle connections kept")
	o.Nontrivial = c.Users > 1 || wantIdle > 0 || wantDb > 0
	return
}

func TestC26(t *testing.T) {
	pbt.Run(t, "C26", pbt.Part[redisCase]{
		Name:  "redis",
		Rule:  "Redis configurations (password of any bytes, pool, idle connections, database) against a server with the same or another password or in trouble, over in-memory connections with a customizer that overrides a subset of settings, or over a real socket without one; addresses, passwords and database as the server saw them, commands held at a barrier to see the pool's limit from both sides. Non-trivial: a refused construction, or a database other than 0, idle connections, or concurrent commands.",
		Quick: 2500, Deep: 100000,
		Gen: genRedis, Run: runRedis,
	})
	pbt.Run(t, "C26", pbt.Part[esCase]{
		Name:  "elasticsearch",
		Rule:  "Elasticsearch configurations of 1 to 3 addresses on real sockets (with or without a path), credentials of any characters or none, connection and idle limits, customizers; clusters that answer, refuse (9 status codes), drop or don't listen. Every request seen must be at a configured address with the right authorization, requests held at a barrier show the connection limit from both sides, connections left afterwards the idle limit. Non-trivial: a construction that must fail, or a limit that is reached.",
		Quick: 800, Deep: 40000,
		Gen: genES, Run: runES,
	})
}
