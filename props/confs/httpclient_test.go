package confs

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confs"
	"github.com/valyala/fasthttp"
	"pgregory.net/rapid"
)

type target struct {
	Issuer, Kind string
	SendInter    bool // the server sends the intermediate certificate
	Host         string
	Auth         int // client certificate not asked for, asked for, required
}

type httpCase struct {
	Mode  string
	Trust [][]string // the certificates in each trust file
	// BadTrust breaks the file of that number (from 1): missing, garbage, empty
	BadTrust    int
	BadTrustHow string

	Client      int  // client certificate (from 1)
	ClientFull  bool // its file holds the intermediate certificate as well
	PKCS8       bool
	TrustClient bool   `json:",omitempty"` // its file is a trusted one as well
	BadClient   string // nocert nokey missingcert missingkey mismatch garbagecert garbagekey swapped

	Limits  [6]int64 // of the configuration
	Custom  int      // what the customizer does: 0 there is none, 1 nothing, 2 limits, 3 TLS insecure, 4 TLS trusts B only, 5 TLS none, 6 trusts B and 7 insecure in what is there
	CustomV [6]int64
	Targets []target
}

var httpModes = []string{"", "OS", "CUSTOM", "CUSTOM", "CUSTOM", "INSECURE", "UNKNOWN", "INSECURE-NOT", "insecure", "Insecure", "custom", "os", " INSECURE", "INSECURE ", "CUSTOM "}

func genHTTP(t *rapid.T) (c httpCase) {
	c.Mode = rapid.SampledFrom(httpModes).Draw(t, "mode")
	if c.Mode == "CUSTOM" || rapid.IntRange(0, 2).Draw(t, "trust anyway") == 0 {
		n := rapid.IntRange(0, 3).Draw(t, "files")
		for i := 0; i < n; i++ {
			c.Trust = append(c.Trust, rapid.SliceOfN(rapid.SampledFrom([]string{"A", "B", "C", "O", "Ai", "Oi", "A", "B", "srv-self-good", "srv-A-good", "srv-self-wronghost", "srv-self-expired"}), 1, 3).Draw(t, "trusted"))
		}
		if n > 0 && rapid.IntRange(0, 7).Draw(t, "break trust") == 0 {
			c.BadTrust = rapid.IntRange(1, n).Draw(t, "bad file")
			c.BadTrustHow = rapid.SampledFrom([]string{"missing", "garbage", "empty", "key", "dir"}).Draw(t, "how")
		}
	}
	if rapid.Bool().Draw(t, "client certificate") {
		c.Client = rapid.IntRange(1, 3).Draw(t, "client")
		c.ClientFull, c.PKCS8 = rapid.Bool().Draw(t, "full"), rapid.Bool().Draw(t, "pkcs8")
		c.TrustClient = rapid.IntRange(0, 3).Draw(t, "trust it") == 0
		if rapid.IntRange(0, 7).Draw(t, "break client") == 0 {
			c.BadClient = rapid.SampledFrom([]string{"nocert", "nokey", "missingcert", "missingkey", "mismatch", "garbagecert", "garbagekey", "swapped"}).Draw(t, "how")
		}
	}
	for i := range c.Limits {
		c.Limits[i] = rapid.SampledFrom([]int64{0, 20, 30, 40, 50, 60, 70, 80, 90}).Draw(t, "limit")
		c.CustomV[i] = rapid.SampledFrom([]int64{21, 31, 41, 51}).Draw(t, "custom")
	}
	c.Custom = rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "customizer")
	n := rapid.IntRange(1, 4).Draw(t, "targets")
	for i := 0; i < n; i++ {
		c.Targets = append(c.Targets, target{
			Issuer:    rapid.SampledFrom(pkiIssuers).Draw(t, "issuer"),
			Kind:      rapid.SampledFrom([]string{"good", "good", "good", "good", "good", "expired", "future", "wronghost"}).Draw(t, "kind"),
			SendInter: rapid.Bool().Draw(t, "intermediate"),
			Host:      rapid.SampledFrom(pkiHosts).Draw(t, "host"),
			Auth:      rapid.IntRange(0, 2).Draw(t, "auth"),
		})
	}
	return
}

// trusts is the acceptance table.
func trusts(roots []string, g target) bool {
	in := func(n string) bool {
		for _, r := range roots {
			if r == n {
				return true
			}
		}
		return false
	}
	leaf := "srv-" + g.Issuer + "-" + g.Kind
	chained := in(leaf)
	switch g.Issuer {
	case "A", "B", "C", "O":
		chained = chained || in(g.Issuer)
	case "Ai", "Oi":
		// the root is reached over the intermediate, which the server must have sent
		chained = chained || in(g.Issuer) || g.SendInter && in(g.Issuer[:1])
	}
	return chained && g.Kind == "good"
}

func runHTTP(c httpCase) (o pbt.Outcome) {
	dir, err := os.MkdirTemp(pkiDir, "case")
	if err != nil {
		o.Fail("harness: %v", err)
		return
	}
	defer os.RemoveAll(dir)
	file := func(name, text string) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
			panic(err)
		}
		return p
	}

	conf := &confs.FastHttpClientConf{SslTrustMode: c.Mode,
		ReadTimeout: time.Duration(c.Limits[0]) * time.Second, WriteTimeout: time.Duration(c.Limits[1]) * time.Second,
		MaxConnDuration: time.Duration(c.Limits[2]) * time.Second, MaxConnsPerHost: int(c.Limits[3]),
		MaxIdleConnDuration: time.Duration(c.Limits[4]) * time.Second, MaxConnWaitTimeout: time.Duration(c.Limits[5]) * time.Second}
	var roots, files []string
	wantFail := false
	for i, f := range c.Trust {
		p := file(fmt.Sprintf("trust%d.pem", i), certPEM(f...))
		if c.BadTrust == i+1 {
			switch c.BadTrustHow {
			case "missing":
				p += ".not"
			case "garbage":
				file(filepath.Base(p), "no certificate\n")
			case "empty":
				file(filepath.Base(p), "")
			case "key":
				file(filepath.Base(p), keyPEM("A", false))
			case "dir":
				p = dir
			}
			wantFail = c.Mode == "CUSTOM"
		}
		files = append(files, p)
		roots = append(roots, f...)
	}

	var clientChain [][]byte
	if c.Client > 0 {
		names := []string{fmt.Sprint("client", c.Client-1)}
		if c.ClientFull && c.Client == 2 {
			names = append(names, "Ai")
		}
		for _, n := range names {
			clientChain = append(clientChain, ids[n].der)
		}
		conf.CertChain = file("client.pem", certPEM(names...))
		conf.PrivateKey = file("client.key", keyPEM(names[0], c.PKCS8))
		switch c.BadClient {
		case "nocert":
			conf.CertChain = ""
		case "nokey":
			conf.PrivateKey = ""
		case "missingcert":
			conf.CertChain += ".not"
		case "missingkey":
			conf.PrivateKey += ".not"
		case "mismatch":
			conf.PrivateKey = file("other.key", keyPEM("C", c.PKCS8))
		case "garbagecert":
			conf.CertChain = file("bad.pem", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n")
		case "garbagekey":
			conf.PrivateKey = file("bad.key", "none")
		case "swapped":
			conf.CertChain, conf.PrivateKey = conf.PrivateKey, conf.CertChain
		}
		wantFail = wantFail || c.BadClient != ""
		if c.TrustClient && c.BadClient == "" {
			files, roots = append(files, conf.CertChain), append(roots, names...)
		}
	}
	conf.SslTrustCerts = strings.Join(files, ",")

	limits := func(h *fasthttp.Client) [6]int64 {
		return [6]int64{int64(h.ReadTimeout / time.Second), int64(h.WriteTimeout / time.Second), int64(h.MaxConnDuration / time.Second),
			int64(h.MaxConnsPerHost), int64(h.MaxIdleConnDuration / time.Second), int64(h.MaxConnWaitTimeout / time.Second)}
	}
	called := 0
	var before [6]int64
	var customizer confs.FastHttpClientCustomizer
	wantLimits := c.Limits
	if c.Custom > 0 {
		customizer = func(h *fasthttp.Client) {
			called++
			before = limits(h)
			switch c.Custom {
			case 2:
				h.ReadTimeout, h.WriteTimeout, h.MaxConnDuration = time.Duration(c.CustomV[0])*time.Second, time.Duration(c.CustomV[1])*time.Second, time.Duration(c.CustomV[2])*time.Second
				h.MaxConnsPerHost = int(c.CustomV[3])
				h.MaxIdleConnDuration, h.MaxConnWaitTimeout = time.Duration(c.CustomV[4])*time.Second, time.Duration(c.CustomV[5])*time.Second
			case 3:
				h.TLSConfig = &tls.Config{InsecureSkipVerify: true}
			case 4:
				pool, _ := tlsPool("B")
				h.TLSConfig = &tls.Config{RootCAs: pool}
			case 5:
				h.TLSConfig = nil
			case 6, 7:
				if h.TLSConfig == nil {
					h.TLSConfig = &tls.Config{}
				}
				h.TLSConfig.RootCAs, _ = tlsPool("B")
				h.TLSConfig.InsecureSkipVerify = c.Custom == 7
			}
		}
		if c.Custom == 2 {
			wantLimits = c.CustomV
		}
	}
	saved := *conf
	var client *fasthttp.Client
	failed := constructed(func() { client = confs.NewFastHttpClient(conf, customizer) })
	if (failed != "") != wantFail {
		if wantFail {
			o.Fail("construct: unusable certificate files (trust %q, client %q) but a client was made", c.BadTrustHow, c.BadClient)
		} else {
			o.Fail("construct: %s", failed)
		}
	}
	o.LabelIf(wantFail, "construction fails")
	o.Label("mode " + c.Mode)
	if failed != "" || o.Err != nil {
		o.Nontrivial = wantFail
		return
	}
	if *conf != saved {
		o.Fail("construct: the configuration was changed")
	}
	if got := limits(client); got != wantLimits {
		o.Fail("limits: the client has %v, want %v (configured %v, customizer %d)", got, wantLimits, c.Limits, c.Custom)
	}
	if c.Custom > 0 && (called != 1 || before != c.Limits) {
		o.Fail("customizer: called %d times, with limits %v, want once with %v", called, before, c.Limits)
	}

	var addr string // the client keeps what it made for a host, also the dial function
	client.Dial = func(string) (net.Conn, error) { return net.Dial("tcp", addr) }
	accepted, rejected := 0, 0
	for i, g := range c.Targets {
		s := server("srv-"+g.Issuer+"-"+g.Kind, g.SendInter, g.Auth)
		s.mu.Lock()
		s.seen = nil
		s.mu.Unlock()
		addr = s.addr
		want, chain := false, clientChain
		switch {
		case c.Custom == 3:
			want, chain = true, nil
		case c.Custom == 4:
			want, chain = trusts([]string{"B"}, g), nil
		case c.Custom == 5:
			want, chain = trusts([]string{"O"}, g), nil
		case c.Custom == 6:
			want = trusts([]string{"B"}, g)
		case c.Custom == 7:
			want = true
		case c.Mode == "INSECURE":
			want = true
		case c.Mode == "CUSTOM" && len(files) == 0:
			// nothing is listed: nobody but perhaps the system's own is trusted
			if trusts([]string{"O"}, g) {
				continue
			}
		case c.Mode == "CUSTOM":
			want = trusts(roots, g)
		default:
			want = trusts([]string{"O"}, g)
		}
		if g.Auth == 0 {
			chain = nil
		}
		what := fmt.Sprintf("target %d (%+v), mode %q, trusted %v, client certificate %d, customizer %d", i, g, c.Mode, roots, c.Client, c.Custom)
		trusted := want
		want = want && !(g.Auth == 2 && len(chain) == 0)
		status, body, err := client.GetTimeout(nil, "https://"+g.Host+"/", 20*time.Second)
		client.CloseIdleConnections()
		ok := err == nil && status == 200 && string(body) == "hello"
		if ok != want {
			o.Fail("trust: %s: accepted %v, want %v (%d %v)", what, ok, want, status, err)
			return
		}
		s.mu.Lock()
		seen := s.seen
		s.mu.Unlock()
		if !trusted && len(seen) > 0 {
			o.Fail("trust: %s: the request was sent to the server", what)
		}
		if ok && (len(seen) == 0 || !bytes.Equal(bytes.Join(seen[0], nil), bytes.Join(chain, nil))) {
			o.Fail("client certificate: %s: the server got a chain of %d, want %d", what, len(append(seen, nil)[0]), len(chain))
		}
		if ok {
			accepted++
			o.LabelIf(len(chain) > 0, "client certificate presented")
			o.LabelIf(g.Issuer == "Ai" || g.Issuer == "Oi", "accepted over intermediate")
		} else {
			rejected++
			o.Label("rejected " + g.Kind)
		}
	}
	o.LabelIf(accepted > 0, "accepted in "+c.Mode)
	o.LabelIf(rejected > 0, "rejected in "+c.Mode)
	o.Nontrivial = accepted > 0 && rejected > 0 || len(clientChain) > 0 && accepted > 0
	return
}

func TestC28(t *testing.T) {
	pbt.Run(t, "C28", pbt.Part[httpCase]{
		Name:  "trust",
		Rule:  "HTTP client configurations (trust mode, trust files of several certificates, client certificates, limits, customizers, unusable files), each client sending HTTPS requests to up to 4 servers whose certificates come from 4 roots (one of them the operating system's) and 2 intermediates or are self-signed, expired, not yet valid or for another host, and which may ask for client certificates; acceptance against a table, what the server saw of the client compared with the file. Non-trivial: accepted and rejected servers, or a client certificate in use, or a construction that must fail.",
		Quick: 1500, Deep: 100000,
		Gen: genHTTP, Run: runHTTP,
	})
}
