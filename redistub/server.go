// Package redistub is an in-process Redis for tests: the RESP protocol over
// in-memory connections, expiry in milliseconds on the current (possibly fake)
// clock, Lua scripts, hash slots and fault injection.
package redistub

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gearsverif/redistub/minilua"
)

type entry struct {
	zset   map[string]float64 // of a sorted set, or of a set
	str    []byte
	list   [][]byte
	hash   map[string][]byte
	kind   string
	expire int64 // ms, 0: never
}

// Fault is what happens to one command.
type Fault int

const (
	OK           Fault = iota
	ErrorReply         // refused with an error, not executed
	DropBefore         // connection closed, not executed
	DropAfter          // executed, connection closed without a reply
	GarbageReply       // not executed, bytes that are no reply
	WrongType          // not executed, a reply of another type
	Stall              // not executed, never answered
)

// Cmd is one command as received.
type Cmd struct {
	Conn int
	DB   int
	Args []string
}

type Server struct {
	mu      sync.Mutex
	dbs     map[int]map[string]*entry
	scripts map[string]*minilua.Chunk
	sources map[string]string
	conns   int
	open    int
	maxOpen int
	log     []Cmd
	auths   []string
	closers map[int]func()

	Password string
	Cluster  bool
	// Fault, if set, is asked about every command but those of a handshake.
	Fault func(args []string) Fault
	// FaultText, if set, is the text of an ErrorReply.
	FaultText func(args []string) string
	// Abort, if set, says which queued commands make EXEC fail as if a watched
	// key had changed.
	Abort func(args []string) bool
	// DialFault, if set, may refuse a connection.
	DialFault func() error
	// Latency, if set, is slept before each command is executed.
	Latency func() time.Duration
	Slots   map[int]bool // slots used by script keys
}

// Databases is how many databases a server has.
const Databases = 1 << 17

func New() *Server {
	return &Server{dbs: map[int]map[string]*entry{}, scripts: map[string]*minilua.Chunk{}, sources: map[string]string{},
		closers: map[int]func(){}, Slots: map[int]bool{}}
}

// Dialer fits redis.Options.Dialer.
func (s *Server) Dial() (net.Conn, error) {
	if s.DialFault != nil {
		if err := s.DialFault(); err != nil {
			return nil, err
		}
	}
	c, srv := net.Pipe()
	go s.Serve(srv)
	return c, nil
}

func (s *Server) Log() []Cmd {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Cmd(nil), s.log...)
}

func (s *Server) ClearLog() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = nil
}

// Conns tells how many connections were made, are open, and were open at most.
func (s *Server) Conns() (total, open, most int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conns, s.open, s.maxOpen
}

// Auths lists the AUTH arguments seen.
func (s *Server) Auths() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.auths...)
}

// CloseAll drops every connection.
func (s *Server) CloseAll() {
	s.mu.Lock()
	var cs []func()
	for _, c := range s.closers {
		cs = append(cs, c)
	}
	s.mu.Unlock()
	for _, c := range cs {
		c()
	}
}

// Hash returns a copy of a hash key of a database (nil if there is none).
func (s *Server) Hash(db int, key string) map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := s.get(db, key)
	if e == nil || e.kind != "hash" {
		return nil
	}
	m := map[string]string{}
	for k, v := range e.hash {
		m[k] = string(v)
	}
	return m
}

// SetHash replaces a hash key.
func (s *Server) SetHash(db int, key string, m map[string]string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	e := &entry{kind: "hash", hash: map[string][]byte{}}
	for k, v := range m {
		e.hash[k] = []byte(v)
	}
	s.db(db)[key] = e
}

// Keys lists the live keys of a database.
func (s *Server) Keys(db int) []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []string
	for k := range s.db(db) {
		if s.get(db, k) != nil {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// SlotOf is the cluster slot of a key.
func SlotOf(key string) int {
	if i := strings.IndexByte(key, '{'); i >= 0 {
		if j := strings.IndexByte(key[i+1:], '}'); j > 0 {
			key = key[i+1 : i+1+j]
		}
	}
	var crc uint16
	for i := 0; i < len(key); i++ {
		crc ^= uint16(key[i]) << 8
		for b := 0; b < 8; b++ {
			if crc&0x8000 != 0 {
				crc = crc<<1 ^ 0x1021
			} else {
				crc <<= 1
			}
		}
	}
	return int(crc % 16384)
}

// ------------------------------------------------------------- connection

type conn struct {
	s      *Server
	id     int
	db     int
	authed bool
	multi  [][]string
	inTx   bool
	dirty  bool
}

// Serve talks to one client until it leaves.
func (s *Server) Serve(nc net.Conn) {
	s.mu.Lock()
	s.conns++
	s.open++
	s.maxOpen = max(s.maxOpen, s.open)
	id := s.conns
	s.closers[id] = func() { nc.Close() }
	s.mu.Unlock()

	// replies are written by a goroutine of their own, so that a client that
	// sends a pipeline before reading cannot block us
	var wmu sync.Mutex
	cond := sync.NewCond(&wmu)
	var out bytes.Buffer
	closed := false
	flushed := make(chan struct{})
	go func() {
		defer close(flushed)
		for {
			wmu.Lock()
			for out.Len() == 0 && !closed {
				cond.Wait()
			}
			if out.Len() == 0 {
				wmu.Unlock()
				return
			}
			b := append([]byte(nil), out.Bytes()...)
			out.Reset()
			wmu.Unlock()
			if _, err := nc.Write(b); err != nil {
				return
			}
		}
	}()
	send := func(b []byte) {
		wmu.Lock()
		out.Write(b)
		wmu.Unlock()
		cond.Signal()
	}
	defer func() {
		wmu.Lock()
		closed = true
		wmu.Unlock()
		cond.Signal()
		nc.Close()
		<-flushed
		s.mu.Lock()
		s.open--
		delete(s.closers, id)
		s.mu.Unlock()
	}()

	c := &conn{s: s, id: id, authed: s.Password == ""}
	r := bufio.NewReader(nc)
	failedTx := OK
	for {
		args, err := readCommand(r)
		if err != nil {
			return
		}
		f := OK
		name := strings.ToUpper(args[0])
		if s.Fault != nil && name != "AUTH" && name != "SELECT" {
			f = s.Fault(args)
		}
		if failedTx != OK { // its MULTI failed, so does the rest of it
			f = failedTx
		}
		if s.Latency != nil {
			if d := s.Latency(); d > 0 {
				time.Sleep(d)
			}
		}
		switch f {
		case DropBefore:
			return
		case Stall:
			continue
		case GarbageReply:
			send([]byte("!!not a reply\r\n"))
			return
		}
		var b bytes.Buffer
		if f == ErrorReply {
			switch {
			case name == "EXEC":
				failedTx, c.inTx = OK, false
			case name == "MULTI":
				failedTx = f
			case c.inTx:
				c.dirty = true
			}
			text := "ERR injected failure"
			if s.FaultText != nil {
				text = s.FaultText(args)
			}
			writeReply(&b, errors.New(text))
		} else if f == WrongType {
			writeReply(&b, []any{[]byte("odd"), int64(7), nil})
		} else {
			s.mu.Lock()
			s.log = append(s.log, Cmd{id, c.db, args})
			reply := c.do(args)
			s.mu.Unlock()
			writeReply(&b, reply)
		}
		if f == DropAfter {
			return
		}
		send(b.Bytes())
		if name == "QUIT" {
			return
		}
	}
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		f := strings.Fields(line)
		if len(f) == 0 {
			return nil, errors.New("empty command")
		}
		return f, nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 1 || n > 1<<20 {
		return nil, errors.New("bad array")
	}
	args := make([]string, n)
	for i := range args {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		l, err := strconv.Atoi(strings.TrimRight(h, "\r\n")[1:])
		if err != nil || l < 0 {
			return nil, errors.New("bad bulk")
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args[i] = string(b[:l])
	}
	return args, nil
}

type status string

type nilArray struct{}

func writeReply(b *bytes.Buffer, v any) {
	switch v := v.(type) {
	case nil:
		b.WriteString("$-1\r\n")
	case nilArray:
		b.WriteString("*-1\r\n")
	case status:
		fmt.Fprintf(b, "+%s\r\n", string(v))
	case error:
		fmt.Fprintf(b, "-%s\r\n", strings.NewReplacer("\r", " ", "\n", " ").Replace(v.Error()))
	case int64:
		fmt.Fprintf(b, ":%d\r\n", v)
	case []byte:
		fmt.Fprintf(b, "$%d\r\n", len(v))
		b.Write(v)
		b.WriteString("\r\n")
	case []any:
		fmt.Fprintf(b, "*%d\r\n", len(v))
		for _, x := range v {
			writeReply(b, x)
		}
	default:
		panic(fmt.Sprintf("reply %T", v))
	}
}

// --------------------------------------------------------------- commands

func nowMs() int64 { return time.Now().UnixMilli() }

func (s *Server) db(i int) map[string]*entry {
	d := s.dbs[i]
	if d == nil {
		d = map[string]*entry{}
		s.dbs[i] = d
	}
	return d
}

func (s *Server) get(db int, key string) *entry {
	e := s.db(db)[key]
	if e != nil && e.expire != 0 && nowMs() > e.expire {
		delete(s.db(db), key)
		return nil
	}
	return e
}

var errWrongType = errors.New("WRONGTYPE Operation against a key holding the wrong kind of value")
var errNotInt = errors.New("ERR value is not an integer or out of range")
var errSyntax = errors.New("ERR syntax error")

func (c *conn) do(args []string) any {
	name := strings.ToUpper(args[0])
	if !c.authed && name != "AUTH" && name != "QUIT" {
		return errors.New("NOAUTH Authentication required.")
	}
	switch name {
	case "AUTH":
		c.s.auths = append(c.s.auths, strings.Join(args[1:], " "))
		if c.s.Password == "" {
			return errors.New("ERR Client sent AUTH, but no password is set.")
		}
		if args[len(args)-1] != c.s.Password {
			return errors.New("WRONGPASS invalid username-password pair")
		}
		c.authed = true
		return status("OK")
	case "MULTI":
		c.inTx, c.multi, c.dirty = true, nil, false
		return status("OK")
	case "DISCARD":
		c.inTx = false
		return status("OK")
	case "EXEC":
		if !c.inTx {
			return errors.New("ERR EXEC without MULTI")
		}
		c.inTx = false
		if c.dirty {
			return errors.New("EXECABORT Transaction discarded because of previous errors.")
		}
		out := []any{}
		for _, a := range c.multi {
			if c.s.Abort != nil && c.s.Abort(a) {
				return nil
			}
		}
		for _, a := range c.multi {
			out = append(out, c.exec(a, false))
		}
		return out
	}
	if c.inTx {
		if !known(name) {
			c.dirty = true
			return fmt.Errorf("ERR unknown command '%s'", args[0])
		}
		c.multi = append(c.multi, args)
		return status("QUEUED")
	}
	return c.exec(args, false)
}

func known(n string) bool {
	if _, ok := moreArity[n]; ok {
		return true
	}
	return strings.Contains(" PING ECHO QUIT SELECT SET SETEX PSETEX SETNX GET DEL UNLINK EXISTS EXPIRE PEXPIRE PERSIST TTL PTTL LLEN RPUSH LPUSH LPOP RPOP LRANGE LTRIM LINDEX HSET HMSET HSETNX HGET HGETALL HDEL HLEN HEXISTS HMGET HKEYS HVALS INCR DECR INCRBY EVAL EVALSHA SCRIPT TYPE KEYS FLUSHALL FLUSHDB DBSIZE TIME APPEND ", " "+n+" ")
}

func (c *conn) exec(args []string, script bool) any {
	s := c.s
	name := strings.ToUpper(args[0])
	a := args[1:]
	if !known(name) {
		return fmt.Errorf("ERR unknown command '%s'", args[0])
	}
	min, max := arity(name)
	if len(a) < min || max >= 0 && len(a) > max {
		return fmt.Errorf("ERR wrong number of arguments for '%s' command", strings.ToLower(name))
	}
	d := s.db(c.db)
	typed := func(kind string, create bool) (*entry, error) {
		e := s.get(c.db, a[0])
		if e == nil {
			if !create {
				return nil, nil
			}
			e = &entry{kind: kind}
			if kind == "hash" {
				e.hash = map[string][]byte{}
			}
			if kind == "zset" || kind == "set" {
				e.zset = map[string]float64{}
			}
			d[a[0]] = e
			return e, nil
		}
		if e.kind != kind {
			return nil, errWrongType
		}
		return e, nil
	}
	if _, ok := moreArity[name]; ok {
		return c.more(name, a, typed)
	}
	switch name {
	case "PING":
		if len(a) == 1 {
			return []byte(a[0])
		}
		return status("PONG")
	case "ECHO":
		return []byte(a[0])
	case "QUIT":
		return status("OK")
	case "TIME":
		n := time.Now().UnixMicro()
		return []any{[]byte(strconv.FormatInt(n/1e6, 10)), []byte(strconv.FormatInt(n%1e6, 10))}
	case "SELECT":
		n, err := strconv.Atoi(a[0])
		if err != nil || n < 0 || n >= Databases {
			return errors.New("ERR DB index is out of range")
		}
		c.db = n
		return status("OK")
	case "SET":
		e := &entry{kind: "str", str: []byte(a[1])}
		nx, xx, keep := false, false, false
		for i := 2; i < len(a); i++ {
			switch o := strings.ToUpper(a[i]); o {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "KEEPTTL":
				keep = true
			case "EX", "PX":
				if i+1 >= len(a) {
					return errSyntax
				}
				n, err := strconv.ParseInt(a[i+1], 10, 64)
				if err != nil {
					return errNotInt
				}
				if n <= 0 {
					return errors.New("ERR invalid expire time in set")
				}
				if o == "EX" {
					n *= 1000
				}
				e.expire = nowMs() + n
				i++
			default:
				return errSyntax
			}
		}
		old := s.get(c.db, a[0])
		if nx && old != nil || xx && old == nil {
			return nil
		}
		if keep && old != nil {
			e.expire = old.expire
		}
		d[a[0]] = e
		return status("OK")
	case "SETEX", "PSETEX":
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return errNotInt
		}
		if n <= 0 {
			return errors.New("ERR invalid expire time in setex")
		}
		if name == "SETEX" {
			n *= 1000
		}
		d[a[0]] = &entry{kind: "str", str: []byte(a[2]), expire: nowMs() + n}
		return status("OK")
	case "SETNX":
		if s.get(c.db, a[0]) != nil {
			return int64(0)
		}
		d[a[0]] = &entry{kind: "str", str: []byte(a[1])}
		return int64(1)
	case "GET":
		e, err := typed("str", false)
		if err != nil {
			return err
		}
		if e == nil {
			return nil
		}
		return e.str
	case "APPEND":
		e, err := typed("str", true)
		if err != nil {
			return err
		}
		e.str = append(e.str, a[1]...)
		return int64(len(e.str))
	case "INCR", "DECR", "INCRBY":
		e, err := typed("str", true)
		if err != nil {
			return err
		}
		by := int64(1)
		if name == "DECR" {
			by = -1
		}
		if name == "INCRBY" {
			if by, err = strconv.ParseInt(a[1], 10, 64); err != nil {
				return errNotInt
			}
		}
		n := int64(0)
		if len(e.str) > 0 {
			if n, err = strconv.ParseInt(string(e.str), 10, 64); err != nil {
				return errNotInt
			}
		}
		e.str = []byte(strconv.FormatInt(n+by, 10))
		return n + by
	case "DEL", "UNLINK":
		n := int64(0)
		for _, k := range a {
			if s.get(c.db, k) != nil {
				delete(d, k)
				n++
			}
		}
		return n
	case "EXISTS":
		n := int64(0)
		for _, k := range a {
			if s.get(c.db, k) != nil {
				n++
			}
		}
		return n
	case "EXPIRE", "PEXPIRE":
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return errNotInt
		}
		if name == "EXPIRE" {
			n *= 1000
		}
		e := s.get(c.db, a[0])
		if e == nil {
			return int64(0)
		}
		if n <= 0 {
			delete(d, a[0])
		} else {
			e.expire = nowMs() + n
		}
		return int64(1)
	case "PERSIST":
		e := s.get(c.db, a[0])
		if e == nil || e.expire == 0 {
			return int64(0)
		}
		e.expire = 0
		return int64(1)
	case "TTL", "PTTL":
		e := s.get(c.db, a[0])
		if e == nil {
			return int64(-2)
		}
		if e.expire == 0 {
			return int64(-1)
		}
		ms := e.expire - nowMs()
		if name == "PTTL" {
			return ms
		}
		return (ms + 500) / 1000
	case "TYPE":
		e := s.get(c.db, a[0])
		if e == nil {
			return status("none")
		}
		return status(map[string]string{"str": "string", "list": "list", "hash": "hash", "set": "set", "zset": "zset"}[e.kind])
	case "KEYS":
		out := []any{}
		var ks []string
		for k := range d {
			if s.get(c.db, k) != nil && glob(a[0], k) {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(out, []byte(k))
		}
		return out
	case "DBSIZE":
		return int64(len(d))
	case "FLUSHALL":
		s.dbs = map[int]map[string]*entry{}
		return status("OK")
	case "FLUSHDB":
		delete(s.dbs, c.db)
		return status("OK")

	case "LLEN":
		e, err := typed("list", false)
		if err != nil {
			return err
		}
		if e == nil {
			return int64(0)
		}
		return int64(len(e.list))
	case "RPUSH", "LPUSH":
		e, err := typed("list", true)
		if err != nil {
			return err
		}
		for _, v := range a[1:] {
			if name == "RPUSH" {
				e.list = append(e.list, []byte(v))
			} else {
				e.list = append([][]byte{[]byte(v)}, e.list...)
			}
		}
		return int64(len(e.list))
	case "LPOP", "RPOP":
		e, err := typed("list", false)
		if err != nil {
			return err
		}
		if e == nil {
			return nil
		}
		var v []byte
		if name == "LPOP" {
			v = e.list[0]
			e.list = e.list[1:]
		} else {
			v = e.list[len(e.list)-1]
			e.list = e.list[:len(e.list)-1]
		}
		if len(e.list) == 0 {
			delete(d, a[0])
		}
		return v
	case "LRANGE", "LTRIM":
		from, err1 := strconv.Atoi(a[1])
		to, err2 := strconv.Atoi(a[2])
		if err1 != nil || err2 != nil {
			return errNotInt
		}
		e, err := typed("list", false)
		if err != nil {
			return err
		}
		var l [][]byte
		if e != nil {
			n := len(e.list)
			if from < 0 {
				from = n + from
			}
			if to < 0 {
				to = n + to
			}
			if from < 0 {
				from = 0
			}
			if to >= n {
				to = n - 1
			}
			if from <= to {
				l = e.list[from : to+1]
			}
		}
		if name == "LRANGE" {
			out := []any{}
			for _, v := range l {
				out = append(out, v)
			}
			return out
		}
		if e != nil {
			e.list = l
			if len(l) == 0 {
				delete(d, a[0])
			}
		}
		return status("OK")
	case "LINDEX":
		e, err := typed("list", false)
		if err != nil {
			return err
		}
		i, err := strconv.Atoi(a[1])
		if err != nil {
			return errNotInt
		}
		if e == nil {
			return nil
		}
		if i < 0 {
			i += len(e.list)
		}
		if i < 0 || i >= len(e.list) {
			return nil
		}
		return e.list[i]

	case "HSET", "HMSET", "HSETNX":
		if len(a)%2 == 0 {
			return fmt.Errorf("ERR wrong number of arguments for '%s' command", strings.ToLower(name))
		}
		e, err := typed("hash", true)
		if err != nil {
			return err
		}
		n := int64(0)
		for i := 1; i < len(a); i += 2 {
			_, had := e.hash[a[i]]
			if !had {
				n++
			}
			if name == "HSETNX" && had {
				continue
			}
			e.hash[a[i]] = []byte(a[i+1])
		}
		if name == "HMSET" {
			return status("OK")
		}
		return n
	case "HGET", "HEXISTS":
		e, err := typed("hash", false)
		if err != nil {
			return err
		}
		var v []byte
		ok := false
		if e != nil {
			v, ok = e.hash[a[1]]
		}
		if name == "HEXISTS" {
			if ok {
				return int64(1)
			}
			return int64(0)
		}
		if !ok {
			return nil
		}
		return v
	case "HMGET":
		e, err := typed("hash", false)
		if err != nil {
			return err
		}
		out := []any{}
		for _, k := range a[1:] {
			if e != nil {
				if v, ok := e.hash[k]; ok {
					out = append(out, v)
					continue
				}
			}
			out = append(out, nil)
		}
		return out
	case "HGETALL", "HKEYS", "HVALS", "HLEN":
		e, err := typed("hash", false)
		if err != nil {
			return err
		}
		if name == "HLEN" {
			if e == nil {
				return int64(0)
			}
			return int64(len(e.hash))
		}
		out := []any{}
		if e != nil {
			var ks []string
			for k := range e.hash {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if name != "HVALS" {
					out = append(out, []byte(k))
				}
				if name != "HKEYS" {
					out = append(out, e.hash[k])
				}
			}
		}
		return out
	case "HDEL":
		e, err := typed("hash", false)
		if err != nil {
			return err
		}
		n := int64(0)
		if e != nil {
			for _, k := range a[1:] {
				if _, ok := e.hash[k]; ok {
					delete(e.hash, k)
					n++
				}
			}
			if len(e.hash) == 0 {
				delete(d, a[0])
			}
		}
		return n

	case "SCRIPT":
		if script {
			return errors.New("ERR This Redis command is not allowed from script")
		}
		switch strings.ToUpper(a[0]) {
		case "LOAD":
			if len(a) != 2 {
				return errSyntax
			}
			sha, err := s.load(a[1])
			if err != nil {
				return err
			}
			return []byte(sha)
		case "EXISTS":
			out := []any{}
			for _, h := range a[1:] {
				n := int64(0)
				if s.scripts[strings.ToLower(h)] != nil {
					n = 1
				}
				out = append(out, n)
			}
			return out
		case "FLUSH":
			s.scripts = map[string]*minilua.Chunk{}
			return status("OK")
		}
		return errSyntax
	case "EVAL", "EVALSHA":
		if script {
			return errors.New("ERR This Redis command is not allowed from script")
		}
		sha := strings.ToLower(a[0])
		if name == "EVAL" {
			var err error
			if sha, err = s.load(a[0]); err != nil {
				return err
			}
		}
		ch := s.scripts[sha]
		if ch == nil {
			return errors.New("NOSCRIPT No matching script. Please use EVAL.")
		}
		n, err := strconv.Atoi(a[1])
		if err != nil || n < 0 || n > len(a)-2 {
			return errors.New("ERR Number of keys can't be greater than number of args")
		}
		keys, argv := a[2:2+n], a[2+n:]
		for i, k := range keys {
			if s.Cluster && i > 0 && SlotOf(k) != SlotOf(keys[0]) {
				return errors.New("CROSSSLOT Keys in request don't hash to the same slot")
			}
			s.Slots[SlotOf(k)] = true
		}
		return c.script(ch, keys, argv)
	}
	return fmt.Errorf("ERR unknown command '%s'", args[0])
}

func arity(n string) (int, int) {
	if m, ok := moreArity[n]; ok {
		return m[0], m[1]
	}
	switch n {
	case "GET", "INCR", "DECR", "TTL", "PTTL", "TYPE", "LLEN", "LPOP", "RPOP", "HGETALL", "HLEN", "HKEYS", "HVALS", "SELECT", "ECHO", "PERSIST", "KEYS":
		return 1, 1
	case "SETNX", "EXPIRE", "PEXPIRE", "HGET", "HEXISTS", "INCRBY", "APPEND", "LINDEX":
		return 2, 2
	case "SETEX", "PSETEX", "LRANGE", "LTRIM", "HSETNX":
		return 3, 3
	case "SET", "RPUSH", "LPUSH", "HDEL", "HMGET", "EVAL", "EVALSHA":
		return 2, -1
	case "HSET", "HMSET":
		return 3, -1
	case "DEL", "UNLINK", "EXISTS", "SCRIPT":
		return 1, -1
	}
	return 0, -1
}

func (s *Server) load(src string) (string, error) {
	h := sha1.Sum([]byte(src))
	sha := hex.EncodeToString(h[:])
	if s.scripts[sha] == nil {
		c, err := minilua.Parse(src)
		if err != nil {
			return "", fmt.Errorf("ERR Error compiling script (new function): %v", err)
		}
		s.scripts[sha] = c
	}
	return sha, nil
}

func (c *conn) script(ch *minilua.Chunk, keys, argv []string) any {
	list := func(ss []string) *minilua.Table {
		t := minilua.NewTable()
		for i, v := range ss {
			t.Set(float64(i+1), v)
		}
		return t
	}
	lib := minilua.NewTable()
	call := func(raise bool) minilua.Go {
		return func(a []minilua.Value) ([]minilua.Value, error) {
			var args []string
			for _, v := range a {
				switch v := v.(type) {
				case string:
					args = append(args, v)
				case float64:
					args = append(args, luaNumber(v))
				default:
					return nil, errors.New("Lua redis() command arguments must be strings or integers")
				}
			}
			if len(args) == 0 {
				return nil, errors.New("Please specify at least one argument for redis.call()")
			}
			r := c.exec(args, true)
			if e, ok := r.(error); ok {
				if raise {
					return nil, e
				}
				t := minilua.NewTable()
				t.Set("err", e.Error())
				return []minilua.Value{t}, nil
			}
			return []minilua.Value{toLua(r)}, nil
		}
	}
	lib.Set("call", call(true))
	lib.Set("pcall", call(false))
	field := func(k string) minilua.Go {
		return func(a []minilua.Value) ([]minilua.Value, error) {
			t := minilua.NewTable()
			if len(a) > 0 {
				t.Set(k, a[0])
			}
			return []minilua.Value{t}, nil
		}
	}
	lib.Set("error_reply", field("err"))
	lib.Set("status_reply", field("ok"))
	lib.Set("log", minilua.Go(func([]minilua.Value) ([]minilua.Value, error) { return nil, nil }))
	lib.Set("replicate_commands", minilua.Go(func([]minilua.Value) ([]minilua.Value, error) { return []minilua.Value{true}, nil }))
	lib.Set("LOG_NOTICE", 2.0)
	in := &minilua.Interp{Globals: map[string]minilua.Value{"KEYS": list(keys), "ARGV": list(argv), "redis": lib}}
	db := c.db
	vals, err := in.Run(ch)
	c.db = db
	if err != nil {
		return fmt.Errorf("ERR Error running script: %v", err)
	}
	if len(vals) == 0 {
		return nil
	}
	return fromLua(vals[0])
}

func luaNumber(v float64) string {
	if v == math.Trunc(v) && math.Abs(v) < 1e17 {
		return strconv.FormatInt(int64(v), 10)
	}
	return strconv.FormatFloat(v, 'g', 17, 64)
}

func toLua(r any) minilua.Value {
	switch r := r.(type) {
	case nil, nilArray:
		return false
	case int64:
		return float64(r)
	case []byte:
		return string(r)
	case status:
		t := minilua.NewTable()
		t.Set("ok", string(r))
		return t
	case []any:
		t := minilua.NewTable()
		for i, x := range r {
			t.Set(float64(i+1), toLua(x))
		}
		return t
	}
	return false
}

func fromLua(v minilua.Value) any {
	switch v := v.(type) {
	case nil:
		return nil
	case bool:
		if v {
			return int64(1)
		}
		return nil
	case float64:
		return int64(v)
	case string:
		return []byte(v)
	case *minilua.Table:
		if e, ok := v.Get("err").(string); ok {
			return errors.New(e)
		}
		if o, ok := v.Get("ok").(string); ok {
			return status(o)
		}
		out := []any{}
		for i := 1; i <= v.Len(); i++ {
			out = append(out, fromLua(v.Get(float64(i))))
		}
		return out
	}
	return nil
}
