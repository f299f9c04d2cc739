package confs

import (
	"encoding/base64"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"runtime"
	"strings"
	"testing"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confs"
	"github.com/gin-gonic/gin"
	routing "github.com/qiangxue/fasthttp-routing"
	"github.com/valyala/fasthttp"
	"github.com/valyala/fasthttp/pprofhandler"
	"pgregory.net/rapid"
)

type pprofReq struct {
	Path   int
	Header []byte // Authorization
	None   bool   // no such header
	Class  string
	Method string `json:",omitempty"` // GET
	Remote string `json:",omitempty"` // who asks
	Extra  []int  `json:",omitempty"` // other headers
	Query  string `json:",omitempty"`
}

// headers that prove nothing
var pprofExtras = []func(user, pass, right string) [2]string{
	func(user, pass, right string) [2]string { return [2]string{"Proxy-Authorization", right} },
	func(user, pass, right string) [2]string { return [2]string{"X-Authorization", right} },
	func(user, pass, right string) [2]string { return [2]string{"X-Forwarded-For", "127.0.0.1"} },
	func(user, pass, right string) [2]string { return [2]string{"X-Real-Ip", "127.0.0.1"} },
	func(user, pass, right string) [2]string {
		return [2]string{"X-Forwarded-User", strings.TrimSpace(user)}
	},
	func(user, pass, right string) [2]string { return [2]string{"Cookie", "Authorization=" + right[6:]} },
	func(user, pass, right string) [2]string { return [2]string{"User-Agent", "Go-http-client/1.1"} },
	func(user, pass, right string) [2]string { return [2]string{"Origin", "http://localhost"} },
	func(user, pass, right string) [2]string { return [2]string{"Host", "localhost:8080"} },
	func(user, pass, right string) [2]string { return [2]string{"X-Original-Url", "/debug/pprof/"} },
	func(user, pass, right string) [2]string { return [2]string{"X-Http-Method-Override", "OPTIONS"} },
	func(user, pass, right string) [2]string {
		return [2]string{"Access-Control-Request-Headers", "authorization"}
	},
	func(user, pass, right string) [2]string { return [2]string{"Upgrade", "websocket"} },
}

// headerText is text a header can hold.
func headerText(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' || r > '~' {
			return '.'
		}
		return r
	}, s)
}

type pprofCase struct {
	User, Pass []byte
	Reqs       []pprofReq
}

var pprofPaths = []string{"/debug/pprof/cmdline", "/debug/pprof/symbol"}

var oddCreds = []string{"u", "admin", "Admin", "admin ", " admin", "é", "用户", "\x00", "\xff\xfe", "a/b+c", "%41", "a\"b", "Basic ", "=", "==", "aaa", "aaaa", "\r\n", "*"}

func genCred(t *rapid.T, name string, colons bool) []byte {
	var s string
	switch rapid.IntRange(0, 9).Draw(t, name+" how") {
	case 0:
		return nil
	case 1, 2, 3:
		s = rapid.SampledFrom(oddCreds).Draw(t, name)
	case 4:
		s = string(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, name))
	case 5:
		n := rapid.SampledFrom([]int{16, 31, 32, 33, 63, 64, 65, 72, 73, 100, 127, 128, 255, 256, 257, 300, 1000}).Draw(t, name+" length")
		s = strings.Repeat(rapid.StringMatching(`[a-zA-Z0-9:!@#$]{1,4}`).Draw(t, name), n)[:n]
	default:
		s = rapid.StringMatching(`[a-zA-Z0-9:!@#$]{1,12}`).Draw(t, name)
	}
	if colons && rapid.IntRange(0, 3).Draw(t, name+" colon") == 0 {
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		s = s[:i] + ":" + s[i:]
	}
	if !colons {
		s = strings.ReplaceAll(s, ":", "")
	}
	return []byte(s)
}

func basic(user, pass []byte) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(string(user)+":"+string(pass)))
}

// a string near s
func near(t *rapid.T, s []byte) []byte {
	s = append([]byte{}, s...)
	i := rapid.IntRange(0, len(s)).Draw(t, "at")
	if rapid.Bool().Draw(t, "late") {
		i = len(s) - i%4
		if i < 0 {
			i = 0
		}
	}
	switch rapid.IntRange(0, 6).Draw(t, "near") {
	case 0:
		return append(s, rapid.Byte().Draw(t, "byte"))
	case 1:
		if len(s) > 0 {
			return s[:len(s)-1]
		}
	case 2:
		if i < len(s) {
			s[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
	case 3:
		return []byte(strings.ToUpper(string(s)))
	case 4:
		return nil
	case 6:
		return s[:i]
	case 5:
		return append(s[:i:i], append([]byte{rapid.Byte().Draw(t, "byte")}, s[i:]...)...)
	}
	return s
}

func genPprofReq(t *rapid.T, user, pass []byte) (r pprofReq) {
	r.Path = rapid.IntRange(0, len(pprofPaths)-1).Draw(t, "path")
	if rapid.IntRange(0, 3).Draw(t, "other method") == 0 {
		r.Method = rapid.SampledFrom([]string{"HEAD", "POST", "PUT", "OPTIONS", "DELETE"}).Draw(t, "method")
	}
	right := basic(user, pass)
	pair := string(user) + ":" + string(pass)
	r.Class = rapid.SampledFrom([]string{"right", "right", "none", "empty", "near user", "near pass", "swapped", "no scheme", "other scheme", "raw", "url64", "unpadded", "spaces", "no colon", "cut", "garbage", "double", "split", "near header", "other"}).Draw(t, "class")
	switch r.Class {
	case "right":
		r.Header = []byte(right)
	case "none":
		r.None = true
	case "empty":
		r.Header = []byte(rapid.SampledFrom([]string{"", "Basic", "Basic ", "Basic Og==", "Bearer", ":"}).Draw(t, "empty"))
	case "near user":
		r.Header = []byte(basic(near(t, user), pass))
	case "near pass":
		r.Header = []byte(basic(user, near(t, pass)))
	case "swapped":
		r.Header = []byte(basic(pass, user))
	case "no scheme":
		r.Header = []byte(right[6:])
	case "other scheme":
		r.Header = []byte(rapid.SampledFrom([]string{"Bearer ", "Digest ", "Basic", "Basic\t", "Basic:", "basicx ", "Token Basic "}).Draw(t, "scheme") + right[6:])
	case "raw":
		r.Header = []byte("Basic " + pair)
	case "url64":
		r.Header = []byte("Basic " + base64.URLEncoding.EncodeToString([]byte(pair)))
	case "unpadded":
		r.Header = []byte(strings.TrimRight(right, "="))
	case "spaces":
		i := rapid.IntRange(0, len(right)).Draw(t, "at")
		r.Header = []byte(right[:i] + rapid.SampledFrom([]string{" ", "  ", "\t"}).Draw(t, "space") + right[i:])
	case "no colon":
		r.Header = []byte("Basic " + base64.StdEncoding.EncodeToString([]byte(string(user)+string(pass))))
	case "cut":
		r.Header = []byte(right[:rapid.IntRange(0, len(right)).Draw(t, "cut")])
	case "garbage":
		r.Header = append([]byte("Basic "), rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")...)
	case "double":
		r.Header = []byte(rapid.SampledFrom([]string{right + "," + right, "Basic " + right, right + " " + right, right + right[6:]}).Draw(t, "double"))
	case "split": // the colon at another place
		if i := rapid.IntRange(0, len(pair)).Draw(t, "at"); true {
			p := strings.ReplaceAll(string(user), ":", "") + string(pass)
			i %= len(p) + 1
			r.Header = []byte(basic([]byte(p[:i]), []byte(p[i:])))
		}
	case "near header":
		r.Header = near(t, []byte(right))
	case "other":
		r.Header = []byte(basic(genCred(t, "user", true), genCred(t, "pass", true)))
	}
	if rapid.IntRange(0, 2).Draw(t, "more headers") == 0 {
		r.Extra = rapid.SliceOfNDistinct(rapid.IntRange(0, len(pprofExtras)-1), 1, 3, rapid.ID[int]).Draw(t, "extra")
	}
	r.Remote = rapid.SampledFrom([]string{"", "127.0.0.1:4000", "[::1]:4000", "10.0.0.5:77", "192.168.1.2:1"}).Draw(t, "remote")
	r.Query = rapid.SampledFrom([]string{"", "", "", "debug=1", "seconds=0", "username=admin&password=admin", "auth"}).Draw(t, "query")
	// header values can't hold these
	for i, b := range r.Header {
		if b == '\r' || b == '\n' || b == 0 {
			r.Header[i] = '.'
		}
	}
	return
}

func genPprof(t *rapid.T) (c pprofCase) {
	c.User, c.Pass = genCred(t, "user", false), genCred(t, "pass", true)
	n := rapid.IntRange(1, 8).Draw(t, "requests")
	if rapid.IntRange(0, 9).Draw(t, "many refused") == 0 {
		// one who tries often must not change what the next request gets
		wrong := genPprofReq(t, c.User, c.Pass)
		for i := rapid.SampledFrom([]int{5, 10, 20, 50, 100}).Draw(t, "times"); i > 0; i-- {
			c.Reqs = append(c.Reqs, wrong)
		}
	}
	for i := 0; i < n; i++ {
		c.Reqs = append(c.Reqs, genPprofReq(t, c.User, c.Pass))
	}
	return
}

// undecided: text that isn't the header but that a decoder may read as it.
func undecided(h, right string) bool {
	if h == right || len(h) < 6 || !strings.EqualFold(h[:6], "Basic ") {
		return false
	}
	if strings.Trim(h, " \t") == right {
		return true // surrounding white space is no part of the value
	}
	want, _ := base64.StdEncoding.DecodeString(right[6:])
	for _, e := range []*base64.Encoding{base64.StdEncoding, base64.RawStdEncoding, base64.URLEncoding, base64.RawURLEncoding} {
		if got, err := e.DecodeString(strings.TrimSpace(h[6:])); err == nil && string(got) == string(want) {
			return true
		}
	}
	return false
}

func runPprof(c pprofCase) (o pbt.Outcome) {
	defer runtime.SetBlockProfileRate(0)
	defer runtime.SetMutexProfileFraction(0)
	conf := &confs.PprofConf{Username: string(c.User), Password: string(c.Pass)}
	set := len(c.User) > 0 && len(c.Pass) > 0
	right := basic(c.User, c.Pass)

	engine := gin.New()
	ran := 0
	filter := confs.NewGinPprofBasicAuthFilter(conf)
	for _, p := range pprofPaths {
		engine.Any(p, filter, func(g *gin.Context) { ran++; g.String(200, "profile") })
	}
	handler := confs.NewFasthttpRoutingPprofHandler(conf)
	router := routing.New()
	for _, p := range pprofPaths {
		router.Any(p, handler)
	}

	served, refused := false, false
	for i, r := range c.Reqs {
		h := string(r.Header)
		if r.None {
			h = ""
		}
		ok := set && !r.None && h == right
		if set && undecided(h, right) {
			o.Label("undecided")
			continue
		}
		method := r.Method
		if method == "" {
			method = "GET"
		}
		what := fmt.Sprintf("request %d, "+method+" with Authorization %q, configured %q %q", i, h, c.User, c.Pass)

		ran = 0
		w := httptest.NewRecorder()
		uri := pprofPaths[r.Path]
		if r.Query != "" {
			uri += "?" + r.Query
		}
		req := httptest.NewRequest(method, uri, nil)
		var remote net.Addr
		if r.Remote != "" {
			req.RemoteAddr = r.Remote
			a := net.TCPAddrFromAddrPort(netip.MustParseAddrPort(r.Remote))
			remote = a
		}
		if !r.None {
			req.Header["Authorization"] = []string{h}
		}
		for _, e := range r.Extra {
			x := pprofExtras[e](string(c.User), string(c.Pass), right)
			req.Header.Set(x[0], headerText(x[1]))
		}
		engine.ServeHTTP(w, req)
		judge(&o, "gin", what, set, ok, ran == 1 && w.Body.String() == "profile", w.Code, w.Header().Get("WWW-Authenticate"), w.Body.String())
		if ran > 1 {
			o.Fail("serve: gin: %s: the profile handler ran %d times", what, ran)
		}

		var ctx, ref fasthttp.RequestCtx
		if remote != nil {
			ctx.Init(&fasthttp.Request{}, remote, nil)
		}
		ctx.Request.Header.SetMethod(method)
		ref.Request.Header.SetMethod(method)
		ctx.Request.SetRequestURI(uri)
		ref.Request.SetRequestURI(uri)
		for _, e := range r.Extra {
			x := pprofExtras[e](string(c.User), string(c.Pass), right)
			ctx.Request.Header.Set(x[0], headerText(x[1]))
		}
		pprofhandler.PprofHandler(&ref)
		if !r.None {
			ctx.Request.Header.Set("Authorization", h)
		}
		router.HandleRequest(&ctx)
		body := string(ctx.Response.Body())
		judge(&o, "fasthttp", what, set, ok, body == string(ref.Response.Body()), ctx.Response.StatusCode(), string(ctx.Response.Header.Peek("WWW-Authenticate")), body)

		served = served || ok
		refused = refused || !ok
		o.Label(r.Class)
	}
	o.LabelIf(!set, "unset")
	o.Nontrivial = served && refused || !set && len(c.Reqs) > 1
	return
}

func judge(o *pbt.Outcome, fw, what string, set, ok, served bool, code int, challenge, body string) {
	switch {
	case ok && (!served || code != http.StatusOK):
		o.Fail("serve: %s: %s: not served, status %d", fw, what, code)
	case !ok && served:
		o.Fail("refuse: %s: %s: served", fw, what)
	case !ok && strings.Contains(body, "profile"):
		o.Fail("refuse: %s: %s: the response contains profile data", fw, what)
	case !ok && set && code != http.StatusUnauthorized:
		o.Fail("refuse: %s: %s: status %d", fw, what, code)
	case !ok && set && !strings.HasPrefix(challenge, "Basic"):
		o.Fail("refuse: %s: %s: no challenge but %q", fw, what, challenge)
	}
}

func TestC29(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	pbt.Run(t, "C29", pbt.Part[pprofCase]{
		Name:  "authorization",
		Rule:  "credentials of any characters or unset, and up to 8 requests (now and then after one of them many times) on one gin filter and one fasthttp-routing handler, each with the right Authorization header or one of 19 kinds of wrong, near-miss, malformed and missing ones, from several addresses and with other headers that prove nothing; served if and only if the header is exactly the credentials', else 401 and a challenge (nothing served when unset). Other spellings of the right credentials (odd base64, scheme in another case) are not judged. Non-trivial: served and refused requests in one case, or credentials unset.",
		Quick: 12000, Deep: 1000000,
		Gen: genPprof, Run: runPprof,
	})
}
