package redistub

import (
	"errors"
	"hash/fnv"
	"math"
	"path"
	"sort"
	"strconv"
	"strings"
)

// Commands the code under test does not use today, but may come to use.
var moreArity = map[string][2]int{
	"MGET": {1, -1}, "MSET": {2, -1}, "GETSET": {2, 2}, "GETDEL": {1, 1}, "STRLEN": {1, 1}, "DECRBY": {2, 2}, "GETRANGE": {3, 3}, "GETEX": {1, 3},
	"EXPIREAT": {2, 2}, "PEXPIREAT": {2, 2}, "TOUCH": {1, -1}, "RENAME": {2, 2}, "SCAN": {1, -1}, "HSCAN": {2, -1},
	"HINCRBY": {3, 3}, "HSTRLEN": {2, 2}, "LREM": {3, 3}, "LSET": {3, 3}, "LPUSHX": {2, -1}, "RPUSHX": {2, -1},
	"SADD": {2, -1}, "SREM": {2, -1}, "SCARD": {1, 1}, "SISMEMBER": {2, 2}, "SMEMBERS": {1, 1},
	"ZADD": {3, -1}, "ZREM": {2, -1}, "ZCARD": {1, 1}, "ZSCORE": {2, 2}, "ZCOUNT": {3, 3}, "ZINCRBY": {3, 3},
	"ZRANGE": {3, -1}, "ZREVRANGE": {3, 4}, "ZRANGEBYSCORE": {3, -1}, "ZREMRANGEBYSCORE": {3, 3}, "ZREMRANGEBYRANK": {3, 3}, "ZPOPMIN": {1, 2},
	"CLIENT": {1, -1}, "COMMAND": {0, -1}, "INFO": {0, -1}, "READONLY": {0, 0}, "WAIT": {2, 2},
}

func glob(pattern, s string) bool {
	if pattern == "*" {
		return true
	}
	// path.Match stops at slashes
	r := strings.NewReplacer("/", "\x01")
	ok, err := path.Match(r.Replace(pattern), r.Replace(s))
	return err == nil && ok
}

func span(from, to string, n int) (int, int, error) {
	i, err1 := strconv.Atoi(from)
	j, err2 := strconv.Atoi(to)
	if err1 != nil || err2 != nil {
		return 0, 0, errNotInt
	}
	if i < 0 {
		i = max(0, n+i)
	}
	if j < 0 {
		j = n + j
	}
	if j = min(j, n-1); i > j {
		return 0, 0, nil
	}
	return i, j + 1, nil
}

type member struct {
	name  string
	score float64
}

func (e *entry) sorted() (ms []member) {
	if e == nil {
		return nil
	}
	for k, v := range e.zset {
		ms = append(ms, member{k, v})
	}
	sort.Slice(ms, func(i, j int) bool {
		return ms[i].score < ms[j].score || ms[i].score == ms[j].score && ms[i].name < ms[j].name
	})
	return
}

func bound(s string) (float64, bool, error) {
	open := strings.HasPrefix(s, "(")
	s = strings.TrimPrefix(s, "(")
	switch strings.ToLower(s) {
	case "-inf":
		return math.Inf(-1), open, nil
	case "+inf", "inf":
		return math.Inf(1), open, nil
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, false, errors.New("ERR min or max is not a float")
	}
	return v, open, nil
}

func within(lo, hi string) (func(float64) bool, error) {
	l, lopen, err := bound(lo)
	if err != nil {
		return nil, err
	}
	h, hopen, err := bound(hi)
	if err != nil {
		return nil, err
	}
	return func(v float64) bool {
		return (v > l || !lopen && v == l) && (v < h || !hopen && v == h)
	}, nil
}

func score(v float64) []byte { return strconv.AppendFloat(nil, v, 'g', 17, 64) }

func (c *conn) more(name string, a []string, typed func(string, bool) (*entry, error)) any {
	s, d := c.s, c.s.db(c.db)
	drop := func(e *entry, n int) {
		if e != nil && n == 0 {
			delete(d, a[0])
		}
	}
	switch name {
	case "CLIENT", "READONLY":
		return status("OK")
	case "COMMAND":
		return []any{}
	case "INFO":
		return []byte("redis_version:6.2.0\r\nrole:master\r\n")
	case "WAIT":
		return int64(0)
	case "MGET":
		out := []any{}
		for _, k := range a {
			if e := s.get(c.db, k); e != nil && e.kind == "str" {
				out = append(out, e.str)
			} else {
				out = append(out, nil)
			}
		}
		return out
	case "MSET":
		if len(a)%2 != 0 {
			return errors.New("ERR wrong number of arguments for MSET")
		}
		for i := 0; i < len(a); i += 2 {
			d[a[i]] = &entry{kind: "str", str: []byte(a[i+1])}
		}
		return status("OK")
	case "GETSET", "GETDEL", "GETEX", "STRLEN", "GETRANGE":
		e, err := typed("str", false)
		if err != nil {
			return err
		}
		var old any
		var str []byte
		if e != nil {
			old, str = e.str, e.str
		}
		switch name {
		case "STRLEN":
			return int64(len(str))
		case "GETRANGE":
			i, j, err := span(a[1], a[2], len(str))
			if err != nil {
				return err
			}
			return append([]byte{}, str[i:j]...)
		case "GETSET":
			d[a[0]] = &entry{kind: "str", str: []byte(a[1])}
		case "GETDEL":
			delete(d, a[0])
		case "GETEX":
			if e == nil || len(a) == 1 {
				break
			}
			if strings.ToUpper(a[1]) == "PERSIST" {
				e.expire = 0
				break
			}
			n, err := strconv.ParseInt(a[len(a)-1], 10, 64)
			if err != nil || n <= 0 || len(a) != 3 {
				return errSyntax
			}
			if strings.ToUpper(a[1]) == "EX" {
				n *= 1000
			}
			e.expire = nowMs() + n
		}
		return old
	case "DECRBY":
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return errNotInt
		}
		return c.exec([]string{"INCRBY", a[0], strconv.FormatInt(-n, 10)}, true)
	case "EXPIREAT", "PEXPIREAT":
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return errNotInt
		}
		if name == "EXPIREAT" {
			n *= 1000
		}
		e := s.get(c.db, a[0])
		if e == nil {
			return int64(0)
		}
		if e.expire = n; n <= nowMs() {
			delete(d, a[0])
		}
		return int64(1)
	case "TOUCH":
		return c.exec(append([]string{"EXISTS"}, a...), true)
	case "RENAME":
		e := s.get(c.db, a[0])
		if e == nil {
			return errors.New("ERR no such key")
		}
		delete(d, a[0])
		d[a[1]] = e
		return status("OK")
	case "SCAN", "HSCAN":
		opts := a[1:]
		if name == "HSCAN" {
			opts = a[2:]
		}
		pattern, count := "*", 10
		for i := 0; i+1 < len(opts); i += 2 {
			switch strings.ToUpper(opts[i]) {
			case "MATCH":
				pattern = opts[i+1]
			case "COUNT":
				n, err := strconv.Atoi(opts[i+1])
				if err != nil || n < 1 {
					return errors.New("ERR syntax error")
				}
				count = n
			}
		}
		out := []any{}
		if name == "SCAN" {
			return []any{[]byte("0"), c.exec([]string{"KEYS", pattern}, true)}
		}
		e, err := typed("hash", false)
		if err != nil {
			return err
		}
		if e == nil {
			return []any{[]byte("0"), out}
		}
		// Small hashes come as a whole, others in pieces of about the asked
		// size. The position of an entry does not depend on the others, so
		// one that stays is not missed while others come and go.
		cursor, err := strconv.ParseUint(a[1], 10, 64)
		if err != nil {
			return errors.New("ERR invalid cursor")
		}
		type place struct {
			at  uint64
			key string
		}
		var places []place
		small := len(e.hash) <= 512
		for k, v := range e.hash {
			small = small && len(k) <= 64 && len(v) <= 64
			h := fnv.New32a()
			h.Write([]byte(k))
			if at := uint64(h.Sum32()) | 1<<32; at >= cursor {
				places = append(places, place{at, k})
			}
		}
		sort.Slice(places, func(i, j int) bool { return places[i].at < places[j].at })
		next := "0"
		for i, p := range places {
			if !small && i >= count && p.at != places[i-1].at {
				next = strconv.FormatUint(p.at, 10)
				break
			}
			if glob(pattern, p.key) {
				out = append(out, []byte(p.key), e.hash[p.key])
			}
		}
		return []any{[]byte(next), out}
	case "HINCRBY":
		by, err := strconv.ParseInt(a[2], 10, 64)
		if err != nil {
			return errNotInt
		}
		e, err := typed("hash", true)
		if err != nil {
			return err
		}
		n := int64(0)
		if v, ok := e.hash[a[1]]; ok {
			if n, err = strconv.ParseInt(string(v), 10, 64); err != nil {
				return errors.New("ERR hash value is not an integer")
			}
		}
		e.hash[a[1]] = strconv.AppendInt(nil, n+by, 10)
		return n + by
	case "HSTRLEN":
		e, err := typed("hash", false)
		if err != nil {
			return err
		}
		if e == nil {
			return int64(0)
		}
		return int64(len(e.hash[a[1]]))
	case "LPUSHX", "RPUSHX":
		e, err := typed("list", false)
		if err != nil {
			return err
		}
		if e == nil {
			return int64(0)
		}
		return c.exec(append([]string{strings.TrimSuffix(name, "X")}, a...), true)
	case "LSET":
		e, err := typed("list", false)
		if err != nil {
			return err
		}
		if e == nil {
			return errors.New("ERR no such key")
		}
		i, err := strconv.Atoi(a[1])
		if err != nil {
			return errNotInt
		}
		if i < 0 {
			i += len(e.list)
		}
		if i < 0 || i >= len(e.list) {
			return errors.New("ERR index out of range")
		}
		e.list[i] = []byte(a[2])
		return status("OK")
	case "LREM":
		count, err := strconv.Atoi(a[1])
		if err != nil {
			return errNotInt
		}
		e, err := typed("list", false)
		if err != nil {
			return err
		}
		if e == nil {
			return int64(0)
		}
		n := 0
		var keep [][]byte
		for i := range e.list {
			v := e.list[i]
			if count < 0 {
				v = e.list[len(e.list)-1-i]
			}
			if string(v) == a[2] && (count == 0 || n < max(count, -count)) {
				n++
				continue
			}
			if count < 0 {
				keep = append([][]byte{v}, keep...)
			} else {
				keep = append(keep, v)
			}
		}
		e.list = keep
		drop(e, len(keep))
		return int64(n)
	case "SADD", "SREM", "SCARD", "SISMEMBER", "SMEMBERS":
		e, err := typed("set", name == "SADD")
		if err != nil {
			return err
		}
		if e == nil {
			if name == "SMEMBERS" {
				return []any{}
			}
			return int64(0)
		}
		n := int64(0)
		switch name {
		case "SCARD":
			return int64(len(e.zset))
		case "SISMEMBER":
			if _, ok := e.zset[a[1]]; ok {
				n = 1
			}
			return n
		case "SMEMBERS":
			out := []any{}
			for _, m := range e.sorted() {
				out = append(out, []byte(m.name))
			}
			return out
		}
		for _, m := range a[1:] {
			if _, ok := e.zset[m]; ok != (name == "SADD") {
				n++
			}
			if name == "SADD" {
				e.zset[m] = 0
			} else {
				delete(e.zset, m)
			}
		}
		drop(e, len(e.zset))
		return n
	case "ZADD":
		nx, xx, gt, lt, ch := false, false, false, false, false
		i := 1
	opts:
		for ; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "NX":
				nx = true
			case "XX":
				xx = true
			case "GT":
				gt = true
			case "LT":
				lt = true
			case "CH":
				ch = true
			default:
				break opts
			}
		}
		pairs := a[i:]
		if len(pairs) == 0 || len(pairs)%2 != 0 {
			return errSyntax
		}
		var vs []float64
		for k := 0; k < len(pairs); k += 2 {
			v, _, err := bound(pairs[k])
			if err != nil {
				return errors.New("ERR value is not a valid float")
			}
			vs = append(vs, v)
		}
		e, err := typed("zset", true)
		if err != nil {
			return err
		}
		added, changed := int64(0), int64(0)
		for k, v := range vs {
			m := pairs[2*k+1]
			old, had := e.zset[m]
			if had && (nx || gt && v <= old || lt && v >= old) || !had && xx {
				continue
			}
			if !had {
				added++
			} else if v != old {
				changed++
			}
			e.zset[m] = v
		}
		drop(e, len(e.zset))
		if ch {
			added += changed
		}
		return added
	case "ZINCRBY":
		v, _, err := bound(a[1])
		if err != nil {
			return err
		}
		e, err := typed("zset", true)
		if err != nil {
			return err
		}
		e.zset[a[2]] += v
		return score(e.zset[a[2]])
	}
	// sorted sets
	e, err := typed("zset", false)
	if err != nil {
		return err
	}
	ms := e.sorted()
	remove := func(ms []member) int64 {
		for _, m := range ms {
			delete(e.zset, m.name)
		}
		if e != nil {
			drop(e, len(e.zset))
		}
		return int64(len(ms))
	}
	list := func(ms []member, scores bool) any {
		out := []any{}
		for _, m := range ms {
			out = append(out, []byte(m.name))
			if scores {
				out = append(out, score(m.score))
			}
		}
		return out
	}
	pick := func(lo, hi string) ([]member, error) {
		in, err := within(lo, hi)
		if err != nil {
			return nil, err
		}
		var out []member
		for _, m := range ms {
			if in(m.score) {
				out = append(out, m)
			}
		}
		return out, nil
	}
	switch name {
	case "ZCARD":
		return int64(len(ms))
	case "ZSCORE":
		for _, m := range ms {
			if m.name == a[1] {
				return score(m.score)
			}
		}
		return nil
	case "ZREM":
		var out []member
		for _, n := range a[1:] {
			for _, m := range ms {
				if m.name == n {
					out = append(out, m)
				}
			}
		}
		return remove(out)
	case "ZPOPMIN":
		n := 1
		if len(a) > 1 {
			if n, err = strconv.Atoi(a[1]); err != nil || n < 0 {
				return errNotInt
			}
		}
		ms = ms[:min(n, len(ms))]
		remove(ms)
		return list(ms, true)
	case "ZCOUNT", "ZREMRANGEBYSCORE":
		out, err := pick(a[1], a[2])
		if err != nil {
			return err
		}
		if name == "ZCOUNT" {
			return int64(len(out))
		}
		return remove(out)
	case "ZREMRANGEBYRANK":
		i, j, err := span(a[1], a[2], len(ms))
		if err != nil {
			return err
		}
		return remove(ms[i:j])
	case "ZRANGEBYSCORE":
		out, err := pick(a[1], a[2])
		if err != nil {
			return err
		}
		scores := false
		for i := 3; i < len(a); i++ {
			switch strings.ToUpper(a[i]) {
			case "WITHSCORES":
				scores = true
			case "LIMIT":
				if i+2 >= len(a) {
					return errSyntax
				}
				off, err1 := strconv.Atoi(a[i+1])
				n, err2 := strconv.Atoi(a[i+2])
				if err1 != nil || err2 != nil {
					return errNotInt
				}
				if out = out[min(max(off, 0), len(out)):]; n >= 0 {
					out = out[:min(n, len(out))]
				}
				i += 2
			default:
				return errSyntax
			}
		}
		return list(out, scores)
	case "ZRANGE", "ZREVRANGE":
		scores := false
		for _, o := range a[3:] {
			if strings.ToUpper(o) != "WITHSCORES" {
				return errSyntax
			}
			scores = true
		}
		if name == "ZREVRANGE" {
			for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
				ms[i], ms[j] = ms[j], ms[i]
			}
		}
		i, j, err := span(a[1], a[2], len(ms))
		if err != nil {
			return err
		}
		return list(ms[i:j], scores)
	}
	return errSyntax
}
