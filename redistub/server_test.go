package redistub

import (
	"context"
	"fmt"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"github.com/go-redis/redis/v7"
)

func TestStub(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		s := New()
		c := redis.NewClient(&redis.Options{Dialer: dial(s), IdleCheckFrequency: -1})
		if err := c.Set("a", "x", 1500*time.Millisecond).Err(); err != nil {
			t.Fatal(err)
		}
		time.Sleep(1500 * time.Millisecond)
		if c.Get("a").Val() != "x" {
			t.Fatal("expired early")
		}
		time.Sleep(time.Millisecond)
		if c.Get("a").Err() != redis.Nil {
			t.Fatal("not expired")
		}
		r, err := c.Eval(`local function f(x) return x+1 end
			local t = {} for i=1,3 do table.insert(t, f(i)) end
			for i,v in ipairs(t) do redis.call('RPUSH', KEYS[1], v*10) end
			if #t ~= 3 then return -1 elseif ARGV[1] == 'q' then return {t[1], redis.call('LRANGE', KEYS[1], 0, -1), 'x'..2, 3.9, false, 'never'} end`, []string{"l"}, "q").Result()
		t.Log(r, err)
		if err != nil {
			t.Fatal(err)
		}
		p := c.TxPipeline()
		a := p.HSet("h", "k", "v")
		b := p.HGetAll("h")
		if _, err := p.Exec(); err != nil || a.Val() != 1 || b.Val()["k"] != "v" {
			t.Fatal(err, a, b)
		}
		if SlotOf("foo{hash_tag}x") != SlotOf("hash_tag") || SlotOf("123456789") != 12739 {
			t.Fatal("slot")
		}
		c.Close()
	})
}
func dial(s *Server) func(ctx context.Context, network, addr string) (net.Conn, error) {
	return func(context.Context, string, string) (net.Conn, error) { return s.Dial() }
}

func TestMore(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		s := New()
		c := redis.NewClient(&redis.Options{Dialer: dial(s), IdleCheckFrequency: -1})
		defer c.Close()
		c.ZAdd("z", &redis.Z{Score: 3, Member: "c"}, &redis.Z{Score: 1, Member: "a"}, &redis.Z{Score: 2, Member: "b"})
		c.MSet("x", "1", "y", "2")
		c.SAdd("s", "p", "q")
		c.RPush("l", "1", "2", "1", "3")
		c.HSet("h", "f", 1, "g", 2)
		for _, k := range [][2]any{
			{c.ZCard("z").Val(), int64(3)},
			{fmt.Sprint(c.ZRangeByScore("z", &redis.ZRangeBy{Min: "(1", Max: "+inf"}).Val()), "[b c]"},
			{fmt.Sprint(c.ZRangeWithScores("z", 0, 0).Val()), "[{1 a}]"},
			{c.ZRemRangeByScore("z", "-inf", "1").Val(), int64(1)},
			{c.ZScore("z", "c").Val(), 3.0},
			{fmt.Sprint(c.MGet("x", "no", "y").Val()), "[1 <nil> 2]"},
			{c.GetSet("x", "9").Val(), "1"},
			{c.DecrBy("x", 2).Val(), int64(7)},
			{c.SCard("s").Val(), int64(2)},
			{c.LRem("l", -1, "1").Val(), int64(1)},
			{fmt.Sprint(c.LRange("l", 0, -1).Val()), "[1 2 3]"},
			{c.HIncrBy("h", "f", 4).Val(), int64(5)},
			{fmt.Sprint(c.Keys("[xy]").Val()), "[x y]"},
			{fmt.Sprint(c.Keys("nothing*").Val()), "[]"},
		} {
			if k[0] != k[1] {
				t.Errorf("%v, want %v", k[0], k[1])
			}
		}
		n := 0
		for it := c.HScan("h", 0, "*", 10).Iterator(); it.Next(); n++ {
		}
		for it := c.Scan(0, "?", 10).Iterator(); it.Next(); n++ {
		}
		if n != 10 {
			t.Error("scanned", n)
		}
		for i := 0; i < 700; i++ {
			c.HSet("large", fmt.Sprint("k", i), i)
		}
		seen, calls, cursor := map[string]bool{}, 0, uint64(0)
		for {
			kvs, next, err := c.HScan("large", cursor, "", 50).Result()
			if err != nil {
				t.Fatal(err)
			}
			for i := 0; i < len(kvs); i += 2 {
				seen[kvs[i]] = true
			}
			if calls++; next == 0 {
				break
			}
			cursor = next
		}
		if len(seen) != 700 || calls != 14 {
			t.Error("scanned", len(seen), "in", calls)
		}
	})
}

func TestLua(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		s := New()
		c := redis.NewClient(&redis.Options{Dialer: dial(s), IdleCheckFrequency: -1})
		defer c.Close()
		for _, k := range [][2]string{
			{`return string.format('%05d|%s|%.2f|%x|%%', 42, 'x', 1.5, 255)`, "00042|x|1.50|ff|%"},
			{`return table.concat({string.find('a:bl', ':', 1, true)}, ',')`, "2,2"},
			{`return table.concat({string.find('key=value', '(%w+)=(%w+)')}, ',')`, "1,9,key,value"},
			{`return (string.gsub('a b c', '%s+', '_'))`, "a_b_c"},
			{`return (('x'):rep(3)):upper()`, "XXX"},
			{`local t = {} for w in string.gmatch('one two', '%a+') do t[#t+1] = w end return table.concat(t, '/')`, "one/two"},
			{`local t = {3,1,2} table.sort(t, function(a, b) return a > b end) return table.concat(t, '')`, "321"},
			{`local ok, e = pcall(function() error('bad') end) return tostring(ok)`, "false"},
			{`return string.match('n=-12.', '=([-%d]+)')`, "-12"},
			{`return tostring(select('#', unpack({1,2,3}, 2)))`, "2"},
			{`return (string.gsub('abc', '%w', '%0%0'))`, "aabbcc"},
			{`return string.match('[x]', '^%[(.-)%]$')`, "x"},
		} {
			if r, err := c.Eval(k[0], nil).Result(); err != nil || r != k[1] {
				t.Errorf("%s: %v %v", k[0], r, err)
			}
		}
	})
}
