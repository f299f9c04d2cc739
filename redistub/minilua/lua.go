// Package minilua interprets the part of Lua 5.1 that Redis scripts use.
package minilua

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Values: nil, bool, float64, string, *Table, *Func, Go.
type Value any

type Table struct {
	Hash map[Value]Value
}

func NewTable() *Table { return &Table{Hash: map[Value]Value{}} }

func (t *Table) Get(k Value) Value { return t.Hash[k] }
func (t *Table) Set(k, v Value) {
	if v == nil {
		delete(t.Hash, k)
	} else {
		t.Hash[k] = v
	}
}

func (t *Table) Len() int {
	n := 0
	for t.Hash[float64(n+1)] != nil {
		n++
	}
	return n
}

func (t *Table) Append(v Value) { t.Set(float64(t.Len()+1), v) }

// Go is a built-in function.
type Go func(args []Value) ([]Value, error)

type Func struct {
	params []string
	vararg bool
	body   []stmt
	env    *scope
	in     *Interp
}

type Error struct{ Msg string }

func (e *Error) Error() string { return e.Msg }

func errf(format string, a ...any) error { return &Error{fmt.Sprintf(format, a...)} }

// ---------------------------------------------------------------- lexer

type token struct {
	kind string // name, num, str, op, kw, eof
	s    string
	n    float64
	line int
}

var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("and break do else elseif end false for function if in local nil not or repeat return then true until while") {
		keywords[k] = true
	}
}

func isAlpha(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func lex(src string) ([]token, error) {
	var out []token
	line := 1
	i := 0
	longBracket := func(i int) (string, int, bool) {
		j := i + 1
		for j < len(src) && src[j] == '=' {
			j++
		}
		if j >= len(src) || src[j] != '[' {
			return "", i, false
		}
		eq := src[i+1 : j]
		end := strings.Index(src[j:], "]"+eq+"]")
		if end < 0 {
			return "", i, false
		}
		s := src[j+1 : j+end]
		return strings.TrimPrefix(s, "\n"), j + end + len(eq) + 2, true
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			i += 2
			if i < len(src) && src[i] == '[' {
				if _, e, ok := longBracket(i); ok {
					line += strings.Count(src[i:e], "\n")
					i = e
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case isAlpha(c):
			j := i
			for j < len(src) && (isAlpha(src[j]) || isDigit(src[j])) {
				j++
			}
			k := "name"
			if keywords[src[i:j]] {
				k = "kw"
			}
			out = append(out, token{kind: k, s: src[i:j], line: line})
			i = j
		case isDigit(c) || c == '.' && i+1 < len(src) && isDigit(src[i+1]):
			j := i
			if strings.HasPrefix(src[i:], "0x") || strings.HasPrefix(src[i:], "0X") {
				j += 2
				for j < len(src) && (isDigit(src[j]) || isAlpha(src[j])) {
					j++
				}
			} else {
				for j < len(src) && (isDigit(src[j]) || src[j] == '.' || src[j] == 'e' || src[j] == 'E' ||
					(src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E')) {
					j++
				}
			}
			n, ok := toNumber(src[i:j])
			if !ok {
				return nil, errf("line %d: malformed number %s", line, src[i:j])
			}
			out = append(out, token{kind: "num", n: n, line: line})
			i = j
		case c == '"' || c == '\'':
			var b strings.Builder
			j := i + 1
			for j < len(src) && src[j] != c {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					default:
						if isDigit(src[j]) {
							n, k := 0, 0
							for k < 3 && j < len(src) && isDigit(src[j]) {
								n = n*10 + int(src[j]-'0')
								j++
								k++
							}
							b.WriteByte(byte(n))
							continue
						}
						b.WriteByte(src[j])
					}
					j++
					continue
				}
				b.WriteByte(src[j])
				j++
			}
			if j >= len(src) {
				return nil, errf("line %d: unfinished string", line)
			}
			out = append(out, token{kind: "str", s: b.String(), line: line})
			i = j + 1
		default:
			if c == '[' {
				if s, e, ok := longBracket(i); ok {
					out = append(out, token{kind: "str", s: s, line: line})
					line += strings.Count(src[i:e], "\n")
					i = e
					continue
				}
			}
			op := ""
			for _, o := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "[", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, errf("line %d: unexpected symbol %q", line, c)
			}
			out = append(out, token{kind: "op", s: op, line: line})
			i += len(op)
		}
	}
	return append(out, token{kind: "eof", line: line}), nil
}

// --------------------------------------------------------------- parser

type expr interface{}
type stmt interface{}

type (
	eConst struct{ v Value }
	eName  struct{ name string }
	eIndex struct{ obj, key expr }
	eCall  struct {
		fn     expr
		method string
		args   []expr
		line   int
	}
	eBin struct {
		op   string
		a, b expr
		line int
	}
	eUn struct {
		op string
		a  expr
	}
	eTable struct {
		keys, vals []expr
	}
	eFunc struct {
		params []string
		vararg bool
		body   []stmt
	}
	eVararg struct{}
	eParen  struct{ a expr }

	sLocal struct {
		names []string
		vals  []expr
	}
	sAssign struct{ targets, vals []expr }
	sCall   struct{ e expr }
	sIf     struct {
		conds  []expr
		blocks [][]stmt
		els    []stmt
	}
	sWhile struct {
		cond expr
		body []stmt
	}
	sRepeat struct {
		body []stmt
		cond expr
	}
	sFor struct {
		v              string
		from, to, step expr
		body           []stmt
	}
	sForIn struct {
		names []string
		vals  []expr
		body  []stmt
	}
	sReturn    struct{ vals []expr }
	sBreak     struct{}
	sDo        struct{ body []stmt }
	sLocalFunc struct {
		name string
		fn   *eFunc
	}
)

type parser struct {
	t []token
	i int
}

func (p *parser) cur() token { return p.t[p.i] }
func (p *parser) is(s string) bool {
	c := p.cur()
	return (c.kind == "op" || c.kind == "kw") && c.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) fail(what string) {
	c := p.cur()
	panic(errf("line %d: %s near %q", c.line, what, c.s))
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) name() string {
	c := p.cur()
	if c.kind != "name" {
		p.fail("expected a name")
	}
	p.i++
	return c.s
}

func (p *parser) block(ends ...string) []stmt {
	var out []stmt
	for {
		if p.cur().kind == "eof" {
			return out
		}
		for _, e := range ends {
			if p.is(e) {
				return out
			}
		}
		s := p.statement()
		if s != nil {
			out = append(out, s)
		}
		if _, ok := s.(*sReturn); ok {
			return out
		}
	}
}

func (p *parser) exprs() []expr {
	out := []expr{p.expr(0)}
	for p.accept(",") {
		out = append(out, p.expr(0))
	}
	return out
}

func (p *parser) statement() stmt {
	switch {
	case p.accept(";"):
		return nil
	case p.accept("local"):
		if p.accept("function") {
			n := p.name()
			return &sLocalFunc{n, p.funcBody()}
		}
		s := &sLocal{names: []string{p.name()}}
		for p.accept(",") {
			s.names = append(s.names, p.name())
		}
		if p.accept("=") {
			s.vals = p.exprs()
		}
		return s
	case p.accept("if"):
		s := &sIf{}
		s.conds = append(s.conds, p.expr(0))
		p.expect("then")
		s.blocks = append(s.blocks, p.block("elseif", "else", "end"))
		for p.accept("elseif") {
			s.conds = append(s.conds, p.expr(0))
			p.expect("then")
			s.blocks = append(s.blocks, p.block("elseif", "else", "end"))
		}
		if p.accept("else") {
			s.els = p.block("end")
		}
		p.expect("end")
		return s
	case p.accept("while"):
		c := p.expr(0)
		p.expect("do")
		b := p.block("end")
		p.expect("end")
		return &sWhile{c, b}
	case p.accept("repeat"):
		b := p.block("until")
		p.expect("until")
		return &sRepeat{b, p.expr(0)}
	case p.accept("do"):
		b := p.block("end")
		p.expect("end")
		return &sDo{b}
	case p.accept("for"):
		n := p.name()
		if p.accept("=") {
			s := &sFor{v: n, from: p.expr(0)}
			p.expect(",")
			s.to = p.expr(0)
			if p.accept(",") {
				s.step = p.expr(0)
			}
			p.expect("do")
			s.body = p.block("end")
			p.expect("end")
			return s
		}
		s := &sForIn{names: []string{n}}
		for p.accept(",") {
			s.names = append(s.names, p.name())
		}
		p.expect("in")
		s.vals = p.exprs()
		p.expect("do")
		s.body = p.block("end")
		p.expect("end")
		return s
	case p.accept("function"):
		n := p.name()
		return &sAssign{[]expr{&eName{n}}, []expr{p.funcBody()}}
	case p.accept("return"):
		s := &sReturn{}
		if !(p.is("end") || p.is("else") || p.is("elseif") || p.is("until") || p.is(";") || p.cur().kind == "eof") {
			s.vals = p.exprs()
		}
		p.accept(";")
		return s
	case p.accept("break"):
		return &sBreak{}
	}
	e := p.suffixed()
	if _, ok := e.(*eCall); ok {
		return &sCall{e}
	}
	s := &sAssign{targets: []expr{e}}
	for p.accept(",") {
		s.targets = append(s.targets, p.suffixed())
	}
	p.expect("=")
	s.vals = p.exprs()
	return s
}

func (p *parser) funcBody() *eFunc {
	f := &eFunc{}
	p.expect("(")
	for !p.is(")") {
		if p.accept("...") {
			f.vararg = true
			break
		}
		f.params = append(f.params, p.name())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	f.body = p.block("end")
	p.expect("end")
	return f
}

var prec = map[string][2]int{
	"or": {1, 1}, "and": {2, 2},
	"<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9},
}

func (p *parser) expr(limit int) expr {
	var a expr
	switch {
	case p.is("not") || p.is("-") || p.is("#"):
		op := p.cur().s
		p.i++
		a = &eUn{op, p.expr(8)}
	default:
		a = p.simple()
	}
	for {
		c := p.cur()
		if c.kind != "op" && c.kind != "kw" {
			return a
		}
		pr, ok := prec[c.s]
		if !ok || pr[0] <= limit {
			return a
		}
		p.i++
		a = &eBin{c.s, a, p.expr(pr[1]), c.line}
	}
}

func (p *parser) simple() expr {
	c := p.cur()
	switch {
	case c.kind == "num":
		p.i++
		return &eConst{c.n}
	case c.kind == "str":
		p.i++
		return &eConst{c.s}
	case p.accept("nil"):
		return &eConst{nil}
	case p.accept("true"):
		return &eConst{true}
	case p.accept("false"):
		return &eConst{false}
	case p.accept("..."):
		return &eVararg{}
	case p.accept("function"):
		return p.funcBody()
	case p.is("{"):
		return p.table()
	}
	return p.suffixed()
}

func (p *parser) table() expr {
	p.expect("{")
	t := &eTable{}
	for !p.is("}") {
		switch {
		case p.accept("["):
			k := p.expr(0)
			p.expect("]")
			p.expect("=")
			t.keys = append(t.keys, k)
			t.vals = append(t.vals, p.expr(0))
		case p.cur().kind == "name" && p.t[p.i+1].kind == "op" && p.t[p.i+1].s == "=":
			k := p.name()
			p.expect("=")
			t.keys = append(t.keys, &eConst{k})
			t.vals = append(t.vals, p.expr(0))
		default:
			t.keys = append(t.keys, nil)
			t.vals = append(t.vals, p.expr(0))
		}
		if !p.accept(",") && !p.accept(";") {
			break
		}
	}
	p.expect("}")
	return t
}

func (p *parser) suffixed() expr {
	var e expr
	if p.accept("(") {
		e = &eParen{p.expr(0)}
		p.expect(")")
	} else {
		e = &eName{p.name()}
	}
	for {
		line := p.cur().line
		switch {
		case p.accept("."):
			e = &eIndex{e, &eConst{p.name()}}
		case p.accept("["):
			k := p.expr(0)
			p.expect("]")
			e = &eIndex{e, k}
		case p.accept(":"):
			m := p.name()
			e = &eCall{e, m, p.args(), line}
		case p.is("(") || p.is("{") || p.cur().kind == "str":
			e = &eCall{e, "", p.args(), line}
		default:
			return e
		}
	}
}

func (p *parser) args() []expr {
	if p.cur().kind == "str" {
		s := p.cur().s
		p.i++
		return []expr{&eConst{s}}
	}
	if p.is("{") {
		return []expr{p.table()}
	}
	p.expect("(")
	var out []expr
	if !p.is(")") {
		out = p.exprs()
	}
	p.expect(")")
	return out
}

// Chunk is a parsed script.
type Chunk struct{ body []stmt }

func Parse(src string) (c *Chunk, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*Error); ok {
				c, err = nil, e
				return
			}
			panic(r)
		}
	}()
	t, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &parser{t: t}
	b := p.block()
	if p.cur().kind != "eof" {
		p.fail("unexpected")
	}
	return &Chunk{b}, nil
}

// ---------------------------------------------------------- interpreter

type scope struct {
	vars map[string]*Value
	up   *scope
}

func (s *scope) find(n string) *Value {
	for ; s != nil; s = s.up {
		if v, ok := s.vars[n]; ok {
			return v
		}
	}
	return nil
}

func (s *scope) def(n string, v Value) { s.vars[n] = &v }
func sub(s *scope) *scope              { return &scope{vars: map[string]*Value{}, up: s} }

// Interp runs chunks with the given globals. As in Redis, reading or creating
// other globals is an error.
type Interp struct {
	Globals map[string]Value
	steps   int
}

type ctl struct {
	ret  bool
	brk  bool
	vals []Value
}

const maxSteps = 2_000_000

func (in *Interp) Run(c *Chunk) (vals []Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*Error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	if in.Globals == nil {
		in.Globals = map[string]Value{}
	}
	in.base()
	r := in.block(c.body, sub(nil), nil)
	return r.vals, nil
}

func truth(v Value) bool { return v != nil && v != false }

func (in *Interp) tick() {
	in.steps++
	if in.steps > maxSteps {
		panic(errf("script runs too long"))
	}
}

func (in *Interp) block(b []stmt, s *scope, va []Value) ctl {
	for _, x := range b {
		in.tick()
		switch x := x.(type) {
		case *sLocal:
			vs := in.multi(x.vals, s, va, len(x.names))
			for i, n := range x.names {
				s.def(n, vs[i])
			}
		case *sLocalFunc:
			s.def(x.name, nil)
			*s.vars[x.name] = &Func{x.fn.params, x.fn.vararg, x.fn.body, s, in}
		case *sAssign:
			vs := in.multi(x.vals, s, va, len(x.targets))
			for i, t := range x.targets {
				in.assign(t, vs[i], s, va)
			}
		case *sCall:
			in.evalMulti(x.e, s, va)
		case *sDo:
			if c := in.block(x.body, sub(s), va); c.ret || c.brk {
				return c
			}
		case *sIf:
			done := false
			for i, cond := range x.conds {
				if truth(in.eval(cond, s, va)) {
					if c := in.block(x.blocks[i], sub(s), va); c.ret || c.brk {
						return c
					}
					done = true
					break
				}
			}
			if !done && x.els != nil {
				if c := in.block(x.els, sub(s), va); c.ret || c.brk {
					return c
				}
			}
		case *sWhile:
			for truth(in.eval(x.cond, s, va)) {
				in.tick()
				c := in.block(x.body, sub(s), va)
				if c.ret {
					return c
				}
				if c.brk {
					break
				}
			}
		case *sRepeat:
			for {
				in.tick()
				ns := sub(s)
				c := in.block(x.body, ns, va)
				if c.ret {
					return c
				}
				if c.brk || truth(in.eval(x.cond, ns, va)) {
					break
				}
			}
		case *sFor:
			from, to, step := num(in.eval(x.from, s, va)), num(in.eval(x.to, s, va)), 1.0
			if x.step != nil {
				step = num(in.eval(x.step, s, va))
			}
			for i := from; step > 0 && i <= to || step <= 0 && i >= to; i += step {
				in.tick()
				ns := sub(s)
				ns.def(x.v, i)
				c := in.block(x.body, ns, va)
				if c.ret {
					return c
				}
				if c.brk {
					break
				}
			}
		case *sForIn:
			vs := in.multi(x.vals, s, va, 3)
			f, st, k := vs[0], vs[1], vs[2]
			for {
				in.tick()
				rs := in.call(f, []Value{st, k})
				if len(rs) == 0 || rs[0] == nil {
					break
				}
				k = rs[0]
				ns := sub(s)
				for i, n := range x.names {
					if i < len(rs) {
						ns.def(n, rs[i])
					} else {
						ns.def(n, nil)
					}
				}
				c := in.block(x.body, ns, va)
				if c.ret {
					return c
				}
				if c.brk {
					break
				}
			}
		case *sReturn:
			var vs []Value
			for i, e := range x.vals {
				if i == len(x.vals)-1 {
					vs = append(vs, in.evalMulti(e, s, va)...)
				} else {
					vs = append(vs, in.eval(e, s, va))
				}
			}
			return ctl{ret: true, vals: vs}
		case *sBreak:
			return ctl{brk: true}
		}
	}
	return ctl{}
}

func (in *Interp) multi(es []expr, s *scope, va []Value, n int) []Value {
	var vs []Value
	for i, e := range es {
		if i == len(es)-1 {
			vs = append(vs, in.evalMulti(e, s, va)...)
		} else {
			vs = append(vs, in.eval(e, s, va))
		}
	}
	for len(vs) < n {
		vs = append(vs, nil)
	}
	return vs
}

func (in *Interp) assign(t expr, v Value, s *scope, va []Value) {
	switch t := t.(type) {
	case *eName:
		if p := s.find(t.name); p != nil {
			*p = v
			return
		}
		panic(errf("Script attempted to create global variable '%s'", t.name))
	case *eIndex:
		o, ok := in.eval(t.obj, s, va).(*Table)
		if !ok {
			panic(errf("attempt to index a non-table value"))
		}
		o.Set(in.eval(t.key, s, va), v)
	default:
		panic(errf("cannot assign"))
	}
}

func (in *Interp) evalMulti(e expr, s *scope, va []Value) []Value {
	switch e := e.(type) {
	case *eCall:
		var args []Value
		var f Value
		if e.method != "" {
			o := in.eval(e.fn, s, va)
			f = in.index(o, e.method)
			args = append(args, o)
		} else {
			f = in.eval(e.fn, s, va)
		}
		for i, a := range e.args {
			if i == len(e.args)-1 {
				args = append(args, in.evalMulti(a, s, va)...)
			} else {
				args = append(args, in.eval(a, s, va))
			}
		}
		return in.call(f, args)
	case *eVararg:
		return va
	}
	return []Value{in.eval(e, s, va)}
}

func (in *Interp) call(f Value, args []Value) []Value {
	in.tick()
	switch f := f.(type) {
	case Go:
		r, err := f(args)
		if err != nil {
			if e, ok := err.(*Error); ok {
				panic(e)
			}
			panic(errf("%v", err))
		}
		return r
	case *Func:
		ns := sub(f.env)
		for i, n := range f.params {
			if i < len(args) {
				ns.def(n, args[i])
			} else {
				ns.def(n, nil)
			}
		}
		var va []Value
		if f.vararg && len(args) > len(f.params) {
			va = args[len(f.params):]
		}
		return in.block(f.body, ns, va).vals
	}
	panic(errf("attempt to call a %s value", typeName(f)))
}

func (in *Interp) index(o, k Value) Value {
	switch o := o.(type) {
	case *Table:
		return o.Get(k)
	case string:
		if t, ok := in.Globals["string"].(*Table); ok {
			return t.Get(k)
		}
	}
	panic(errf("attempt to index a %s value", typeName(o)))
}

func (in *Interp) eval(e expr, s *scope, va []Value) Value {
	switch e := e.(type) {
	case *eConst:
		return e.v
	case *eParen:
		return in.eval(e.a, s, va)
	case *eName:
		if p := s.find(e.name); p != nil {
			return *p
		}
		if v, ok := in.Globals[e.name]; ok {
			return v
		}
		panic(errf("Script attempted to access nonexistent global variable '%s'", e.name))
	case *eIndex:
		return in.index(in.eval(e.obj, s, va), in.eval(e.key, s, va))
	case *eCall, *eVararg:
		if r := in.evalMulti(e, s, va); len(r) > 0 {
			return r[0]
		}
		return nil
	case *eFunc:
		return &Func{e.params, e.vararg, e.body, s, in}
	case *eTable:
		t := NewTable()
		n := 0
		for i, k := range e.keys {
			if k != nil {
				t.Set(in.eval(k, s, va), in.eval(e.vals[i], s, va))
				continue
			}
			if i == len(e.keys)-1 {
				for _, v := range in.evalMulti(e.vals[i], s, va) {
					n++
					t.Set(float64(n), v)
				}
				continue
			}
			n++
			t.Set(float64(n), in.eval(e.vals[i], s, va))
		}
		return t
	case *eUn:
		a := in.eval(e.a, s, va)
		switch e.op {
		case "not":
			return !truth(a)
		case "-":
			return -num(a)
		case "#":
			switch a := a.(type) {
			case string:
				return float64(len(a))
			case *Table:
				return float64(a.Len())
			}
			panic(errf("attempt to get length of a %s value", typeName(a)))
		}
	case *eBin:
		a := in.eval(e.a, s, va)
		switch e.op {
		case "and":
			if !truth(a) {
				return a
			}
			return in.eval(e.b, s, va)
		case "or":
			if truth(a) {
				return a
			}
			return in.eval(e.b, s, va)
		}
		b := in.eval(e.b, s, va)
		switch e.op {
		case "==":
			return a == b
		case "~=":
			return a != b
		case "..":
			return concat(a) + concat(b)
		case "+":
			return num(a) + num(b)
		case "-":
			return num(a) - num(b)
		case "*":
			return num(a) * num(b)
		case "/":
			return num(a) / num(b)
		case "%":
			x, y := num(a), num(b)
			return x - math.Floor(x/y)*y
		case "^":
			return math.Pow(num(a), num(b))
		}
		if x, ok := a.(string); ok {
			if y, ok := b.(string); ok {
				return compare(e.op, strings.Compare(x, y))
			}
		}
		x, ok1 := a.(float64)
		y, ok2 := b.(float64)
		if !ok1 || !ok2 {
			panic(errf("user_script:%d: attempt to compare %s with %s", e.line, typeName(a), typeName(b)))
		}
		switch e.op {
		case "<":
			return x < y
		case ">":
			return x > y
		case "<=":
			return x <= y
		case ">=":
			return x >= y
		}
	}
	panic(errf("unsupported expression %T", e))
}

func compare(op string, c int) bool {
	switch op {
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	}
	return c >= 0
}

func typeName(v Value) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *Table:
		return "table"
	}
	return "function"
}

// ToString formats numbers as Lua does.
func ToString(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(v)
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1e15 {
			return strconv.FormatInt(int64(v), 10)
		}
		return fmtG(v, 14)
	case string:
		return v
	}
	return fmt.Sprintf("%s: %p", typeName(v), v)
}

func fmtG(v float64, p int) string {
	return strconv.FormatFloat(v, 'g', p, 64)
}

func concat(v Value) string {
	switch v.(type) {
	case string, float64:
		return ToString(v)
	}
	panic(errf("attempt to concatenate a %s value", typeName(v)))
}

func toNumber(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		n, err := strconv.ParseUint(s[2:], 16, 64)
		return float64(n), err == nil
	}
	if strings.ContainsAny(s, "_pPnNiI") || s == "" {
		return 0, false
	}
	n, err := strconv.ParseFloat(s, 64)
	return n, err == nil
}

func num(v Value) float64 {
	switch v := v.(type) {
	case float64:
		return v
	case string:
		if n, ok := toNumber(v); ok {
			return n
		}
	}
	panic(errf("attempt to perform arithmetic on a %s value", typeName(v)))
}

func (in *Interp) base() {
	arg := func(a []Value, i int) Value {
		if i < len(a) {
			return a[i]
		}
		return nil
	}
	set := func(t *Table, n string, f Go) { t.Set(n, f) }
	g := in.Globals
	g["tonumber"] = Go(func(a []Value) ([]Value, error) {
		switch v := arg(a, 0).(type) {
		case float64:
			return []Value{v}, nil
		case string:
			if n, ok := toNumber(v); ok {
				return []Value{n}, nil
			}
		}
		return []Value{nil}, nil
	})
	g["tostring"] = Go(func(a []Value) ([]Value, error) { return []Value{ToString(arg(a, 0))}, nil })
	g["type"] = Go(func(a []Value) ([]Value, error) { return []Value{typeName(arg(a, 0))}, nil })
	g["error"] = Go(func(a []Value) ([]Value, error) { return nil, errf("%s", ToString(arg(a, 0))) })
	g["next"] = Go(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errf("bad argument to next")
		}
		keys := sortedKeys(t)
		k := arg(a, 1)
		for i, x := range keys {
			if k == nil {
				return []Value{x, t.Get(x)}, nil
			}
			if x == k && i+1 < len(keys) {
				return []Value{keys[i+1], t.Get(keys[i+1])}, nil
			}
		}
		return []Value{nil}, nil
	})
	g["pairs"] = Go(func(a []Value) ([]Value, error) { return []Value{g["next"], arg(a, 0), nil}, nil })
	g["ipairs"] = Go(func(a []Value) ([]Value, error) {
		return []Value{Go(func(b []Value) ([]Value, error) {
			i := num(arg(b, 1)) + 1
			v := b[0].(*Table).Get(i)
			if v == nil {
				return []Value{nil}, nil
			}
			return []Value{i, v}, nil
		}), arg(a, 0), 0.0}, nil
	})
	g["unpack"] = Go(func(a []Value) ([]Value, error) {
		t, ok := arg(a, 0).(*Table)
		if !ok {
			return nil, errf("bad argument to unpack")
		}
		var out []Value
		for i := 1; i <= t.Len(); i++ {
			out = append(out, t.Get(float64(i)))
		}
		return out, nil
	})
	m := NewTable()
	one := func(n string, f func(float64) float64) {
		set(m, n, func(a []Value) ([]Value, error) { return []Value{f(num(arg(a, 0)))}, nil })
	}
	one("floor", math.Floor)
	one("ceil", math.Ceil)
	one("abs", math.Abs)
	one("sqrt", math.Sqrt)
	fold := func(n string, f func(a, b float64) float64) {
		set(m, n, func(a []Value) ([]Value, error) {
			r := num(arg(a, 0))
			for _, x := range a[1:] {
				r = f(r, num(x))
			}
			return []Value{r}, nil
		})
	}
	fold("max", math.Max)
	fold("min", math.Min)
	m.Set("huge", math.Inf(1))
	g["math"] = m
	tb := NewTable()
	set(tb, "getn", func(a []Value) ([]Value, error) { return []Value{float64(arg(a, 0).(*Table).Len())}, nil })
	set(tb, "insert", func(a []Value) ([]Value, error) {
		t := arg(a, 0).(*Table)
		if len(a) == 2 {
			t.Append(a[1])
			return nil, nil
		}
		pos := int(num(a[1]))
		for i := t.Len(); i >= pos; i-- {
			t.Set(float64(i+1), t.Get(float64(i)))
		}
		t.Set(float64(pos), a[2])
		return nil, nil
	})
	set(tb, "remove", func(a []Value) ([]Value, error) {
		t := arg(a, 0).(*Table)
		n := t.Len()
		pos := n
		if len(a) > 1 {
			pos = int(num(a[1]))
		}
		v := t.Get(float64(pos))
		for i := pos; i <= n; i++ {
			t.Set(float64(i), t.Get(float64(i+1)))
		}
		return []Value{v}, nil
	})
	set(tb, "concat", func(a []Value) ([]Value, error) {
		t := arg(a, 0).(*Table)
		sep := ""
		if len(a) > 1 {
			sep = ToString(a[1])
		}
		var ss []string
		for i := 1; i <= t.Len(); i++ {
			ss = append(ss, ToString(t.Get(float64(i))))
		}
		return []Value{strings.Join(ss, sep)}, nil
	})
	g["table"] = tb
	st := NewTable()
	set(st, "len", func(a []Value) ([]Value, error) { return []Value{float64(len(concat(arg(a, 0))))}, nil })
	set(st, "sub", func(a []Value) ([]Value, error) {
		s := concat(arg(a, 0))
		i, j := int(num(arg(a, 1))), -1
		if len(a) > 2 {
			j = int(num(a[2]))
		}
		if i < 0 {
			i = max(1, len(s)+i+1)
		}
		if j < 0 {
			j = len(s) + j + 1
		}
		i, j = max(1, i), min(len(s), j)
		if i > j {
			return []Value{""}, nil
		}
		return []Value{s[i-1 : j]}, nil
	})
	set(st, "lower", func(a []Value) ([]Value, error) { return []Value{strings.ToLower(concat(arg(a, 0)))}, nil })
	set(st, "upper", func(a []Value) ([]Value, error) { return []Value{strings.ToUpper(concat(arg(a, 0)))}, nil })
	g["string"] = st
	in.more()
}

func sortedKeys(t *Table) []Value {
	var ks []Value
	for k := range t.Hash {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, ok1 := ks[i].(float64)
		b, ok2 := ks[j].(float64)
		if ok1 && ok2 {
			return a < b
		}
		if ok1 != ok2 {
			return ok1
		}
		return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j])
	})
	return ks
}
