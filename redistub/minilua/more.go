package minilua

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// More of the library that scripts may come to use.
func (in *Interp) more() {
	g := in.Globals
	arg := func(a []Value, i int) Value {
		if i < len(a) {
			return a[i]
		}
		return nil
	}
	lib := func(n string) *Table {
		t, _ := g[n].(*Table)
		if t == nil {
			t = NewTable()
			g[n] = t
		}
		return t
	}
	def := func(t *Table, n string, f func(a []Value) []Value) {
		t.Set(n, Go(func(a []Value) ([]Value, error) { return f(a), nil }))
	}
	opt := func(a []Value, i int, or float64) float64 {
		if arg(a, i) == nil {
			return or
		}
		return num(a[i])
	}
	g["pcall"] = Go(func(a []Value) (out []Value, err error) {
		defer func() {
			if p := recover(); p != nil {
				e, ok := p.(error)
				if !ok {
					panic(p)
				}
				out, err = []Value{false, e.Error()}, nil
			}
		}()
		if len(a) == 0 {
			return nil, errf("bad argument to pcall")
		}
		return append([]Value{true}, in.call(a[0], a[1:])...), nil
	})
	g["assert"] = Go(func(a []Value) ([]Value, error) {
		if !truth(arg(a, 0)) {
			if len(a) > 1 {
				return nil, errf("%s", ToString(a[1]))
			}
			return nil, errf("assertion failed!")
		}
		return a, nil
	})
	g["select"] = Go(func(a []Value) ([]Value, error) {
		if arg(a, 0) == "#" {
			return []Value{float64(len(a) - 1)}, nil
		}
		n := int(num(arg(a, 0)))
		if n < 0 {
			n = len(a) + n
		}
		if n < 1 {
			return nil, errf("bad argument to select")
		}
		return a[min(n, len(a)):], nil
	})
	g["rawequal"] = Go(func(a []Value) ([]Value, error) { return []Value{arg(a, 0) == arg(a, 1)}, nil })
	g["rawget"] = Go(func(a []Value) ([]Value, error) { return []Value{arg(a, 0).(*Table).Get(arg(a, 1))}, nil })
	g["rawset"] = Go(func(a []Value) ([]Value, error) { arg(a, 0).(*Table).Set(arg(a, 1), arg(a, 2)); return a[:1], nil })
	g["unpack"] = Go(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errf("bad argument to unpack")
		}
		var out []Value
		for i := int(opt(a, 1, 1)); i <= int(opt(a, 2, float64(t.Len()))); i++ {
			out = append(out, t.Get(float64(i)))
		}
		return out, nil
	})
	tonumber := g["tonumber"].(Go)
	g["tonumber"] = Go(func(a []Value) ([]Value, error) {
		if base := int(opt(a, 1, 10)); base != 10 {
			n, err := strconv.ParseInt(strings.TrimSpace(concat(arg(a, 0))), base, 64)
			if err != nil {
				return []Value{nil}, nil
			}
			return []Value{float64(n)}, nil
		}
		return tonumber(a[:min(1, len(a))])
	})

	m := lib("math")
	m.Set("pi", math.Pi)
	for n, f := range map[string]func(a, b float64) float64{"fmod": math.Mod, "mod": math.Mod, "pow": math.Pow} {
		def(m, n, func(a []Value) []Value { return []Value{f(num(arg(a, 0)), num(arg(a, 1)))} })
	}
	for n, f := range map[string]func(a float64) float64{"exp": math.Exp, "log": math.Log, "log10": math.Log10} {
		def(m, n, func(a []Value) []Value { return []Value{f(num(arg(a, 0)))} })
	}
	def(m, "modf", func(a []Value) []Value { i, f := math.Modf(num(arg(a, 0))); return []Value{i, f} })

	tb := lib("table")
	def(tb, "sort", func(a []Value) []Value {
		t := arg(a, 0).(*Table)
		var vs []Value
		for i := 1; i <= t.Len(); i++ {
			vs = append(vs, t.Get(float64(i)))
		}
		sort.SliceStable(vs, func(i, j int) bool {
			if f := arg(a, 1); f != nil {
				r := in.call(f, []Value{vs[i], vs[j]})
				return len(r) > 0 && truth(r[0])
			}
			if x, ok := vs[i].(float64); ok {
				return x < num(vs[j])
			}
			return concat(vs[i]) < concat(vs[j])
		})
		for i, v := range vs {
			t.Set(float64(i+1), v)
		}
		return nil
	})
	def(tb, "maxn", func(a []Value) []Value {
		n := 0.0
		for k := range arg(a, 0).(*Table).Hash {
			if f, ok := k.(float64); ok {
				n = math.Max(n, f)
			}
		}
		return []Value{n}
	})

	st := lib("string")
	def(st, "rep", func(a []Value) []Value {
		n := max(0, int(num(arg(a, 1))))
		s := concat(arg(a, 0))
		if n*len(s) > 1<<26 {
			panic(errf("resulting string too large"))
		}
		return []Value{strings.Repeat(s, n)}
	})
	def(st, "reverse", func(a []Value) []Value {
		b := []byte(concat(arg(a, 0)))
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
		return []Value{string(b)}
	})
	def(st, "byte", func(a []Value) []Value {
		s := concat(arg(a, 0))
		i := int(opt(a, 1, 1))
		j := int(opt(a, 2, float64(i)))
		if i < 0 {
			i += len(s) + 1
		}
		if j < 0 {
			j += len(s) + 1
		}
		var out []Value
		for i = max(1, i); i <= min(j, len(s)); i++ {
			out = append(out, float64(s[i-1]))
		}
		return out
	})
	def(st, "char", func(a []Value) []Value {
		var b []byte
		for _, v := range a {
			b = append(b, byte(num(v)))
		}
		return []Value{string(b)}
	})
	def(st, "format", func(a []Value) []Value {
		f := concat(arg(a, 0))
		var b strings.Builder
		n := 1
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				b.WriteByte(f[i])
				continue
			}
			j := i + 1
			for j < len(f) && strings.IndexByte("-+ #0123456789.", f[j]) >= 0 {
				j++
			}
			if j == len(f) {
				panic(errf("invalid option to format"))
			}
			flags, verb := f[i+1:j], f[j]
			i = j
			if verb == '%' {
				b.WriteByte('%')
				continue
			}
			if n >= len(a) {
				panic(errf("bad argument #%d to format", n))
			}
			v := a[n]
			n++
			switch verb {
			case 'd', 'i', 'u', 'x', 'X', 'o':
				if verb == 'i' || verb == 'u' {
					verb = 'd'
				}
				fmt.Fprintf(&b, "%"+flags+string(verb), int64(num(v)))
			case 'c':
				b.WriteByte(byte(num(v)))
			case 'e', 'E', 'f', 'g', 'G':
				fmt.Fprintf(&b, "%"+flags+string(verb), num(v))
			case 's':
				fmt.Fprintf(&b, "%"+flags+"s", ToString(v))
			case 'q':
				b.WriteString(strconv.Quote(concat(v)))
			default:
				panic(errf("invalid option to format"))
			}
		}
		return []Value{b.String()}
	})
	find := func(a []Value, whole bool) []Value {
		s, p := concat(arg(a, 0)), concat(arg(a, 1))
		init := int(opt(a, 2, 1))
		if init < 0 {
			init += len(s) + 1
		}
		init = min(max(1, init), len(s)+1) - 1
		if whole && (truth(arg(a, 3)) || !strings.ContainsAny(p, `^$*+?.([%-`)) {
			i := strings.Index(s[init:], p)
			if i < 0 {
				return []Value{nil}
			}
			return []Value{float64(init + i + 1), float64(init + i + len(p))}
		}
		m, ok := search(s, p, init)
		if !ok {
			return []Value{nil}
		}
		if whole {
			return append([]Value{float64(m.from + 1), float64(m.to)}, m.captures(false)...)
		}
		return m.captures(true)
	}
	def(st, "find", func(a []Value) []Value { return find(a, true) })
	def(st, "match", func(a []Value) []Value { return find(a, false) })
	def(st, "gmatch", func(a []Value) []Value {
		s, p, at := concat(arg(a, 0)), concat(arg(a, 1)), 0
		return []Value{Go(func([]Value) ([]Value, error) {
			if at > len(s) {
				return []Value{nil}, nil
			}
			m, ok := search(s, p, at)
			if !ok {
				at = len(s) + 1
				return []Value{nil}, nil
			}
			if at = m.to; m.to == m.from {
				at++
			}
			return m.captures(true), nil
		})}
	})
	def(st, "gsub", func(a []Value) []Value {
		s, p := concat(arg(a, 0)), concat(arg(a, 1))
		most := int(opt(a, 3, float64(len(s)+1)))
		var b strings.Builder
		n, at := 0, 0
		for n < most && at <= len(s) {
			m, ok := search(s, p, at)
			if !ok || strings.HasPrefix(p, "^") && m.from != 0 {
				break
			}
			b.WriteString(s[at:m.from])
			n++
			caps := m.captures(true)
			whole := s[m.from:m.to]
			var r Value
			switch f := arg(a, 2).(type) {
			case *Table:
				r = f.Get(caps[0])
			case string, float64:
				t := concat(f)
				var o strings.Builder
				for i := 0; i < len(t); i++ {
					if t[i] != '%' || i+1 == len(t) {
						o.WriteByte(t[i])
						continue
					}
					i++
					switch c := t[i]; {
					case c == '0':
						o.WriteString(whole)
					case isDigit(c):
						if int(c-'1') >= len(caps) {
							panic(errf("invalid capture index"))
						}
						o.WriteString(concat(caps[c-'1']))
					default:
						o.WriteByte(c)
					}
				}
				r = o.String()
			default:
				if v := in.call(f, caps); len(v) > 0 {
					r = v[0]
				}
			}
			if truth(r) {
				b.WriteString(concat(r))
			} else {
				b.WriteString(whole)
			}
			if at = m.to; m.to == m.from {
				if at < len(s) {
					b.WriteByte(s[at])
				}
				at++
			}
			if strings.HasPrefix(p, "^") {
				break
			}
		}
		b.WriteString(s[min(at, len(s)):])
		return []Value{b.String(), float64(n)}
	})
}

// ------------------------------------------------------------ Lua patterns

type capture struct{ from, n int } // n -1: open, -2: position

type matcher struct {
	s, p     string
	caps     []capture
	from, to int
	steps    int
}

func (m *matcher) captures(whole bool) (out []Value) {
	for _, c := range m.caps {
		if c.n == -2 {
			out = append(out, float64(c.from+1))
		} else {
			out = append(out, m.s[c.from:c.from+c.n])
		}
	}
	if len(out) == 0 && whole {
		out = append(out, m.s[m.from:m.to])
	}
	return
}

func search(s, p string, at int) (*matcher, bool) {
	anchor := strings.HasPrefix(p, "^")
	start := 0
	if anchor {
		start = 1
	}
	for ; at <= len(s); at++ {
		m := &matcher{s: s, p: p, from: at}
		if e := m.match(at, start); e >= 0 {
			m.to = e
			return m, true
		}
		if anchor {
			break
		}
	}
	return nil, false
}

func (m *matcher) match(i, j int) int {
	if m.steps++; m.steps > 1e6 {
		panic(errf("pattern too complex"))
	}
	for j < len(m.p) {
		switch m.p[j] {
		case '(':
			c := capture{i, -1}
			k := j + 1
			if k < len(m.p) && m.p[k] == ')' {
				c.n = -2
				k++
			}
			m.caps = append(m.caps, c)
			if e := m.match(i, k); e >= 0 {
				return e
			}
			m.caps = m.caps[:len(m.caps)-1]
			return -1
		case ')':
			for k := len(m.caps) - 1; k >= 0; k-- {
				if m.caps[k].n == -1 {
					m.caps[k].n = i - m.caps[k].from
					if e := m.match(i, j+1); e >= 0 {
						return e
					}
					m.caps[k].n = -1
					return -1
				}
			}
			panic(errf("invalid pattern capture"))
		case '$':
			if j+1 == len(m.p) {
				if i == len(m.s) {
					return i
				}
				return -1
			}
		}
		if m.p[j] == '%' && j+1 < len(m.p) && (m.p[j+1] == 'b' || m.p[j+1] == 'f' || isDigit(m.p[j+1])) {
			panic(errf("pattern item %%%c is not supported", m.p[j+1]))
		}
		end := m.classEnd(j)
		single := func(i int) bool { return i < len(m.s) && m.single(m.s[i], j, end) }
		rep := byte(0)
		if end < len(m.p) {
			rep = m.p[end]
		}
		switch rep {
		case '?':
			if single(i) {
				if e := m.match(i+1, end+1); e >= 0 {
					return e
				}
			}
			j = end + 1
		case '*', '+':
			n := 0
			for single(i + n) {
				n++
			}
			least := 0
			if rep == '+' {
				least = 1
			}
			for ; n >= least; n-- {
				if e := m.match(i+n, end+1); e >= 0 {
					return e
				}
			}
			return -1
		case '-':
			for {
				if e := m.match(i, end+1); e >= 0 {
					return e
				}
				if !single(i) {
					return -1
				}
				i++
			}
		default:
			if !single(i) {
				return -1
			}
			i, j = i+1, end
		}
	}
	return i
}

func (m *matcher) classEnd(j int) int {
	c := m.p[j]
	j++
	switch c {
	case '%':
		if j >= len(m.p) {
			panic(errf("malformed pattern (ends with '%%')"))
		}
		return j + 1
	case '[':
		if j < len(m.p) && m.p[j] == '^' {
			j++
		}
		for first := true; first || j >= len(m.p) || m.p[j] != ']'; first = false {
			if j >= len(m.p) {
				panic(errf("malformed pattern (missing ']')"))
			}
			if m.p[j] == '%' {
				j++
			}
			j++
		}
		return j + 1
	}
	return j
}

func class(c, cl byte) bool {
	r := false
	switch cl | 0x20 {
	case 'a':
		r = isAlpha(c) && c != '_'
	case 'd':
		r = isDigit(c)
	case 'l':
		r = c >= 'a' && c <= 'z'
	case 'u':
		r = c >= 'A' && c <= 'Z'
	case 's':
		r = c == ' ' || c >= '\t' && c <= '\r'
	case 'w':
		r = isAlpha(c) && c != '_' || isDigit(c)
	case 'x':
		r = isDigit(c) || c|0x20 >= 'a' && c|0x20 <= 'f'
	case 'p':
		r = c > ' ' && c < 127 && !(isAlpha(c) && c != '_') && !isDigit(c)
	case 'c':
		r = c < 32 || c == 127
	case 'z':
		r = c == 0
	default:
		return c == cl
	}
	return r == (cl&0x20 != 0)
}

func (m *matcher) single(c byte, j, end int) bool {
	switch m.p[j] {
	case '.':
		return true
	case '%':
		return class(c, m.p[j+1])
	case '[':
		set := m.p[j+1 : end-1]
		not := strings.HasPrefix(set, "^")
		set = strings.TrimPrefix(set, "^")
		in := false
		for k := 0; k < len(set); k++ {
			switch {
			case set[k] == '%' && k+1 < len(set):
				k++
				in = in || class(c, set[k])
			case k+2 < len(set) && set[k+1] == '-':
				in = in || set[k] <= c && c <= set[k+2]
				k += 2
			default:
				in = in || set[k] == c
			}
		}
		return in != not
	}
	return m.p[j] == c
}
