package confstore

import (
	"crypto/rsa"
	"fmt"
	"math"
	"math/big"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"gearsverif/fixtures"
	"gearsverif/pbt"

	"github.com/chanjarster/gears/confstore"
	"pgregory.net/rapid"
)

type question struct {
	Proc     string // bool int Int IntGtZero IntGtEqZero duration string String enum css url urlstring private public
	Min, Max int    `json:",omitempty"` // int, string
	MinIn    bool   `json:",omitempty"`
	MaxIn    bool   `json:",omitempty"`
	Enum     []string
	Value    []byte // the string, unless built from one of the following
	URL      *urlParts
	Doc      *fixtures.Doc
	Edits    []fixtures.Edit
}

type urlParts struct {
	Scheme, Host, Port, Path, Query string
	User                            string `json:",omitempty"` // with its password, escaped
	Broken                          string // how it is spoilt
}

func (u urlParts) String() string {
	s := u.Scheme + "://"
	if u.User != "" {
		s += u.User + "@"
	}
	s += u.Host
	if u.Port != "" {
		s += ":" + u.Port
	}
	s += u.Path
	if u.Query != "" {
		s += "?" + u.Query
	}
	switch u.Broken {
	case "noscheme":
		s = strings.TrimPrefix(s, u.Scheme)
	case "relative":
		s = u.Host + u.Path
	case "slashless":
		s = strings.TrimLeft(u.Path, "/") + "x"
	case "escape":
		s = u.Scheme + "://" + u.Host + "/a%zz"
	case "escapeend":
		s = u.Scheme + "://" + u.Host + u.Path + "/a%4"
	case "control":
		s += "\x7f"
	case "newline":
		s += "\n"
	case "port":
		s = u.Scheme + "://" + u.Host + ":80x" + u.Path
	case "digit":
		s = "1" + s
	case "space":
		s = " " + s
	case "hostspace":
		s = u.Scheme + "://a b" + u.Path
	}
	return s
}

var procNames = []string{"bool", "int", "Int", "IntGtZero", "IntGtEqZero", "duration", "string", "String", "enum", "css", "url", "urlstring", "private", "public"}

// mutate changes a few bytes.
func mutate(t *rapid.T, s string) string {
	if rapid.IntRange(0, 2).Draw(t, "mutate") > 0 {
		return s
	}
	for i := rapid.IntRange(1, 2).Draw(t, "mutations"); i > 0; i-- {
		at := rapid.IntRange(0, len(s)).Draw(t, "at")
		ins := rapid.SampledFrom([]string{"", "0", "1", "9", "-", "+", " ", "\n", "\x00", "_", ".", "e", "a", "T", "E", "f", "g", "#", "s", "m", "µ", "٣", "x", "\xff", "true", "%"}).Draw(t, "ins")
		del := rapid.IntRange(0, 1).Draw(t, "del")
		s = s[:at] + ins + s[min(len(s), at+del):]
	}
	return s
}

func genQuestion(t *rapid.T) question {
	q := question{Proc: rapid.SampledFrom(procNames).Draw(t, "proc")}
	v := ""
	switch q.Proc {
	case "bool":
		v = mutate(t, rapid.SampledFrom([]string{"true", "false", "True", "TRUE", "t", "1", "0", "FALSE", "yes", ""}).Draw(t, "bool"))
	case "int", "Int", "IntGtZero", "IntGtEqZero":
		edge := rapid.SampledFrom([]int{0, 1, -1, 5, 10, 99, -20, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64})
		q.Min, q.Max = edge.Draw(t, "min"), edge.Draw(t, "max")
		if q.Min > q.Max && rapid.IntRange(0, 4).Draw(t, "reversed") > 0 {
			q.Min, q.Max = q.Max, q.Min
		}
		q.MinIn, q.MaxIn = rapid.Bool().Draw(t, "mininc"), rapid.Bool().Draw(t, "maxinc")
		if q.Proc != "int" {
			q.Min, q.Max, q.MinIn, q.MaxIn = math.MinInt32, math.MaxInt32, true, true
			if q.Proc != "Int" {
				q.Min, q.MinIn = 0, q.Proc == "IntGtEqZero"
			}
		}
		base := big.NewInt(int64(rapid.OneOf(rapid.SampledFrom([]int{q.Min, q.Max, 0}), edge, rapid.Int()).Draw(t, "near")))
		base.Add(base, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
		v = base.String()
		if rapid.IntRange(0, 5).Draw(t, "zeros") == 0 {
			v = strings.Repeat("0", rapid.IntRange(1, 30).Draw(t, "nzeros")) + v
		}
		if rapid.IntRange(0, 5).Draw(t, "plus") == 0 {
			v = "+" + v
		}
		v = mutate(t, v)
	case "duration":
		v = rapid.SampledFrom([]string{"", "", "-", "+"}).Draw(t, "sign")
		for i := rapid.IntRange(0, 3).Draw(t, "components"); i > 0; i-- {
			n := strconv.FormatUint(rapid.OneOf(rapid.Uint64Range(0, 100), rapid.Uint64Range(0, 1<<40), rapid.Uint64()).Draw(t, "n"), 10)
			switch rapid.IntRange(0, 5).Draw(t, "fraction") {
			case 0:
				n += "." + strconv.FormatUint(rapid.Uint64().Draw(t, "f"), 10)
			case 1:
				n += "."
			case 2:
				n = "." + n
			}
			v += n + rapid.SampledFrom([]string{"ns", "us", "µs", "μs", "ms", "s", "m", "h", "s", "ms", "d", "", "S"}).Draw(t, "unit")
		}
		if rapid.IntRange(0, 9).Draw(t, "plain") == 0 {
			v = rapid.SampledFrom([]string{"0", "+0", "-0", "00", "5", "", ".s", "1 s", "-", "1h-5m", "9223372036854775807ns", "-9223372036854775808ns", "2562047h47m16.854775807s", "1e3s", "0x1s", "١s"}).Draw(t, "odd")
		}
		v = mutate(t, v)
	case "string", "String":
		q.Min = rapid.IntRange(-1, 6).Draw(t, "min")
		q.Max = rapid.IntRange(-1, 9).Draw(t, "max")
		if q.Proc == "String" {
			q.Min, q.Max = 0, math.MaxInt32
		}
		v = rapid.StringN(0, 12, 12).Draw(t, "text")
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			v = strings.Repeat("x", rapid.IntRange(0, 100000).Draw(t, "length"))
		}
	case "enum":
		q.Enum = rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b", "A", "ab", "a,b", " a", "名", "red"}), 0, 4).Draw(t, "enum")
		v = rapid.SampledFrom(append([]string{"a", "b", "", "a,b", "A", "名"}, q.Enum...)).Draw(t, "option")
		v = mutate(t, v)
	case "css":
		v = "#" + rapid.StringOfN(rapid.SampledFrom([]rune("0123456789abcdefABCDEFgG")), 5, 8, -1).Draw(t, "css")
		if rapid.Bool().Draw(t, "six") && len(v) > 7 {
			v = v[:7]
		}
		if rapid.IntRange(0, 9).Draw(t, "none") == 0 {
			v = ""
		}
		v = mutate(t, v)
	case "url", "urlstring":
		switch rapid.IntRange(0, 9).Draw(t, "how") {
		case 0:
			v = ""
		case 1:
			v = rapid.String().Draw(t, "text")
			return finish(q, v)
		default:
			u := &urlParts{
				Scheme: rapid.SampledFrom([]string{"http", "https", "ftp", "redis", "a+b-c.d1"}).Draw(t, "scheme"),
				Host:   rapid.SampledFrom([]string{"a", "example.com", "127.0.0.1", "[::1]", "a-b.c_d"}).Draw(t, "host"),
				Port:   rapid.SampledFrom([]string{"", "80", "65535"}).Draw(t, "port"),
				Path:   rapid.SampledFrom([]string{"", "/", "/a/b", "/a;b=c", "/%E5%90%8D", "//", "/~x/../y"}).Draw(t, "path"),
				Query:  rapid.SampledFrom([]string{"", "a=b", "a=b&c=%20", "x"}).Draw(t, "query"),
			}
			if rapid.IntRange(0, 2).Draw(t, "with user") == 0 {
				u.User = rapid.SampledFrom([]string{"u", "u:p", "user:p%40ss", "u:", ":p", "a.b-c_d~e:1"}).Draw(t, "user")
			}
			if rapid.IntRange(0, 2).Draw(t, "spoil") == 0 {
				u.Broken = rapid.SampledFrom([]string{"noscheme", "relative", "slashless", "escape", "escapeend", "control", "newline", "port", "digit", "space", "hostspace"}).Draw(t, "broken")
			}
			q.URL = u
		}
	case "private", "public":
		switch rapid.IntRange(0, 9).Draw(t, "how") {
		case 0:
			v = ""
		case 1:
			v = rapid.String().Draw(t, "text")
		default:
			what := rapid.SampledFrom([]string{q.Proc, q.Proc, q.Proc, q.Proc, "private", "public", "cert"}).Draw(t, "what")
			d := fixtures.GenDoc(t, what)
			q.Doc = &d
			q.Edits = fixtures.GenEdits(t)
		}
	}
	// any processor may meet any string
	if rapid.IntRange(0, 19).Draw(t, "any") == 0 {
		v = string(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "bytes"))
		q.URL, q.Doc, q.Edits = nil, nil, nil
	}
	return finish(q, v)
}

func finish(q question, v string) question {
	q.Value = []byte(v)
	return q
}

var (
	intRE      = regexp.MustCompile(`\A[+-]?[0-9]+\z`)
	cssRE      = regexp.MustCompile(`\A(#[0-9a-fA-F]{6})?\z`)
	durationRE = regexp.MustCompile(`\A[+-]?(0|(([0-9]+\.?[0-9]*|\.[0-9]+)(ns|us|µs|μs|ms|s|m|h))+)\z`)
	componentR = regexp.MustCompile(`([0-9]*\.?[0-9]*)(ns|us|µs|μs|ms|s|m|h)`)
	units      = map[string]int64{"ns": 1, "us": 1e3, "µs": 1e3, "μs": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9}
)

// expect says what a processor must make of the value. tolerance is for
// durations; unclaimed values are only checked for not crashing.
func expect(q question, v string) (ok bool, conv any, unclaimed bool, tolerance int64) {
	switch q.Proc {
	case "bool":
		return v == "true" || v == "false", v == "true", false, 0
	case "int", "Int", "IntGtZero", "IntGtEqZero":
		if !intRE.MatchString(v) {
			return false, nil, false, 0
		}
		n, good := new(big.Int).SetString(strings.TrimPrefix(v, "+"), 10)
		if !good || !n.IsInt64() {
			return false, nil, false, 0
		}
		lo, hi := n.Cmp(big.NewInt(int64(q.Min))), n.Cmp(big.NewInt(int64(q.Max)))
		ok := (lo > 0 || lo == 0 && q.MinIn) && (hi < 0 || hi == 0 && q.MaxIn)
		return ok, int(n.Int64()), false, 0
	case "duration":
		if !durationRE.MatchString(v) {
			return false, nil, false, 0
		}
		sum := new(big.Rat)
		n := 0
		for _, m := range componentR.FindAllStringSubmatch(v, -1) {
			x, good := new(big.Rat).SetString("0" + strings.TrimSuffix(m[1], "."))
			if !good {
				panic("harness: " + m[1])
			}
			sum.Add(sum, x.Mul(x, new(big.Rat).SetInt64(units[m[2]])))
			n++
		}
		edge := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 63))
		if d := new(big.Rat).Sub(sum, edge); d.Cmp(big.NewRat(-1000, 1)) > 0 {
			return false, nil, d.Cmp(big.NewRat(1000, 1)) < 0, 0
		}
		whole := new(big.Int).Quo(sum.Num(), sum.Denom()).Int64()
		if strings.HasPrefix(v, "-") {
			whole = -whole
		}
		return true, time.Duration(whole), false, int64(n)
	case "string", "String":
		return len(v) >= q.Min && len(v) <= q.Max, v, false, 0
	case "enum":
		for _, e := range q.Enum {
			if e == v {
				return true, v, false, 0
			}
		}
		return false, nil, false, 0
	case "css":
		return cssRE.MatchString(v), v, false, 0
	case "url", "urlstring":
		var null *url.URL
		if v == "" {
			if q.Proc == "urlstring" {
				return true, "", false, 0
			}
			return true, null, false, 0
		}
		if q.URL == nil {
			return false, nil, true, 0
		}
		if q.URL.Broken != "" {
			return false, nil, false, 0
		}
		if q.Proc == "urlstring" {
			return true, v, false, 0
		}
		return true, q.URL, false, 0
	case "private":
		var null *rsa.PrivateKey
		if v == "" {
			return true, null, false, 0
		}
		k := fixtures.Parse("private", v, true)
		return k != nil, k, false, 0
	case "public":
		var null *rsa.PublicKey
		if v == "" {
			return true, null, false, 0
		}
		k := fixtures.Parse("public", v, true)
		return k != nil, k, false, 0
	}
	panic(q.Proc)
}

func sameValue(got, want any, tolerance int64) bool {
	switch want := want.(type) {
	case time.Duration:
		g, ok := got.(time.Duration)
		d := int64(g) - int64(want)
		return ok && d >= -tolerance && d <= tolerance
	case *urlParts:
		g, ok := got.(*url.URL)
		if !ok || g == nil {
			return false
		}
		host := want.Host
		if want.Port != "" {
			host += ":" + want.Port
		}
		user := ""
		if g.User != nil {
			user = g.User.String()
		}
		return user == want.User && (g.User == nil) == (want.User == "") && g.Scheme == want.Scheme && g.Host == host && g.EscapedPath() == want.Path && g.RawQuery == want.Query && g.Fragment == ""
	case *rsa.PrivateKey:
		g, ok := got.(*rsa.PrivateKey)
		return ok && (want == nil && g == nil || want != nil && fixtures.Same(g, want))
	case *rsa.PublicKey:
		g, ok := got.(*rsa.PublicKey)
		return ok && (want == nil && g == nil || want != nil && fixtures.Same(g, want))
	}
	return reflect.DeepEqual(got, want)
}

func runQuestion(q question) (o pbt.Outcome) {
	v := string(q.Value)
	if q.URL != nil {
		v = q.URL.String()
	}
	if q.Doc != nil {
		v = fixtures.Apply(q.Doc.Text(), q.Edits)
	}
	var p confstore.ValueProcessor
	switch q.Proc {
	case "bool":
		p = confstore.Bool
	case "int":
		p = confstore.IntProcessor(q.Min, q.MinIn, q.Max, q.MaxIn)
	case "Int":
		p = confstore.Int
	case "IntGtZero":
		p = confstore.IntGtZero
	case "IntGtEqZero":
		p = confstore.IntGtEqZero
	case "duration":
		p = confstore.Duration
	case "string":
		p = confstore.StringProcessor(q.Min, q.Max)
	case "String":
		p = confstore.String
	case "enum":
		p = confstore.EnumProcessor(append([]string(nil), q.Enum...))
	case "css":
		p = confstore.CssColorHex
	case "url":
		p = confstore.Url
	case "urlstring":
		p = confstore.UrlString
	case "private":
		p = confstore.RsaPrivateKeyPkcs1
	case "public":
		p = confstore.RsaPublicKey
	}
	want, conv, unclaimed, tol := expect(q, v)
	ok, reason := p.Validate(v)
	short := v
	if len(short) > 200 {
		short = short[:200] + "..."
	}
	desc := fmt.Sprintf("%s [%d,%d] %v,%v %q value %q", q.Proc, q.Min, q.Max, q.MinIn, q.MaxIn, q.Enum, short)
	if !unclaimed && ok != want {
		o.Fail("verdict of %s: %v (%s), expected %v", desc, ok, reason, want)
		return
	}
	if !ok && reason == "" {
		o.Fail("refusal without a reason: %s", desc)
		return
	}
	if ok2, reason2 := p.Validate(v); ok2 != ok || (reason2 == "") != (reason == "") {
		o.Fail("verdict of %s: first %v, then %v", desc, ok, ok2)
		return
	}
	if ok {
		got := p.Convert(v)
		if !unclaimed && !sameValue(got, conv, tol) {
			o.Fail("conversion by %s: %#v, expected %#v", desc, got, conv)
			return
		}
		if unclaimed && q.Proc == "url" {
			if u, is := got.(*url.URL); !is || u == nil {
				o.Fail("conversion by %s: accepted but %#v", desc, got)
				return
			}
		}
	}
	o.LabelIf(ok, "accepted")
	o.LabelIf(!ok, "refused")
	o.LabelIf(unclaimed, "unclaimed")
	o.Label(q.Proc)
	o.LabelIf(!utf8.ValidString(v), "not UTF-8")
	o.Nontrivial = len(v) > 1 && !unclaimed
	return
}

func TestC22(t *testing.T) {
	pbt.Run(t, "C22", pbt.Part[question]{
		Name: "values", Quick: 60000, Deep: 3000000,
		Rule: "a built-in processor (with drawn ranges, lengths and options) and a string: near the edges of its format, mutated, or arbitrary bytes; verdict and converted value compared with an oracle written from the format; non-trivial: at least two bytes and claimed by the oracle",
		Gen:  genQuestion, Run: runQuestion,
	})
}
