package confs

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"gearsverif/pbt"
)

// The certificates of the tests: roots A, B and C, the operating system's root
// O, intermediates Ai (by A) and Oi (by O).
type ident struct {
	der []byte
	x   *x509.Certificate
	key *ecdsa.PrivateKey
}

var (
	ids    = map[string]*ident{}
	pkiDir string
	serial int64
)

func issue(name, issuer string, edit func(*x509.Certificate)) *ident {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	serial++
	now := time.Now()
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name},
		NotBefore: now.Add(-48 * time.Hour), NotAfter: now.Add(24 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	edit(tmpl)
	parent, pkey := tmpl, key
	if issuer != "" {
		parent, pkey = ids[issuer].x, ids[issuer].key
	}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, parent, &key.PublicKey, pkey)
	if err != nil {
		panic(err)
	}
	x, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	id := &ident{der, x, key}
	ids[name] = id
	return id
}

func certPEM(names ...string) string {
	var b strings.Builder
	for _, n := range names {
		pem.Encode(&b, &pem.Block{Type: "CERTIFICATE", Bytes: ids[n].der})
	}
	return b.String()
}

func keyPEM(name string, pkcs8 bool) string {
	if pkcs8 {
		der, _ := x509.MarshalPKCS8PrivateKey(ids[name].key)
		return string(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))
	}
	der, _ := x509.MarshalECPrivateKey(ids[name].key)
	return string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}))
}

var (
	pkiIssuers = []string{"A", "B", "C", "O", "Ai", "Oi", "self"}
	pkiKinds   = []string{"good", "expired", "future", "wronghost"}
	pkiHosts   = []string{"good.test", "sub.good.test", "127.0.0.1"}
)

func setupPKI() func() {
	dir, err := os.MkdirTemp("", "gearsverif-pki")
	if err != nil {
		panic(err)
	}
	pkiDir = dir
	ca := func(t *x509.Certificate) {
		t.IsCA, t.BasicConstraintsValid = true, true
		t.KeyUsage = x509.KeyUsageCertSign
	}
	for _, r := range []string{"A", "B", "C", "O"} {
		issue(r, "", ca)
	}
	issue("Ai", "A", ca)
	issue("Oi", "O", ca)
	for _, is := range pkiIssuers {
		for _, k := range pkiKinds {
			issuer := is
			if is == "self" {
				issuer = ""
			}
			issue("srv-"+is+"-"+k, issuer, func(t *x509.Certificate) {
				t.DNSNames = []string{"good.test", "*.good.test"}
				t.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
				switch k {
				case "expired":
					t.NotAfter = time.Now().Add(-time.Hour)
				case "future":
					t.NotBefore = time.Now().Add(time.Hour)
				case "wronghost":
					t.DNSNames, t.IPAddresses = []string{"other.test"}, nil
				}
			})
		}
	}
	for i := 0; i < 3; i++ {
		issue(fmt.Sprint("client", i), []string{"B", "Ai", ""}[i], func(*x509.Certificate) {})
	}
	os.WriteFile(filepath.Join(dir, "os-roots.pem"), []byte(certPEM("O")), 0o600)
	os.Mkdir(filepath.Join(dir, "none"), 0o700)
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "os-roots.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
	return func() { os.RemoveAll(dir) }
}

// tlsServer is one HTTPS server, kept for the process's life.
type tlsServer struct {
	addr string
	mu   sync.Mutex
	seen [][][]byte // client certificate chains of completed handshakes
	reqs int
}

var servers = map[string]*tlsServer{}

func server(cert string, sendInter bool, auth int) *tlsServer {
	k := fmt.Sprint(cert, sendInter, auth)
	if s := servers[k]; s != nil {
		return s
	}
	id := ids[cert]
	c := tls.Certificate{Certificate: [][]byte{id.der}, PrivateKey: id.key}
	if sendInter {
		for _, i := range []string{"Ai", "Oi"} {
			if strings.HasPrefix(cert, "srv-"+i+"-") {
				c.Certificate = append(c.Certificate, ids[i].der)
			}
		}
	}
	s := &tlsServer{}
	l := pbt.Listen()
	s.addr = l.Addr().String()
	conf := &tls.Config{Certificates: []tls.Certificate{c}, ClientAuth: []tls.ClientAuthType{tls.NoClientCert, tls.RequestClientCert, tls.RequireAnyClientCert}[auth]}
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			go s.serve(tls.Server(nc, conf))
		}
	}()
	servers[k] = s
	return s
}

func (s *tlsServer) serve(c *tls.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	if c.Handshake() != nil {
		return
	}
	var chain [][]byte
	for _, x := range c.ConnectionState().PeerCertificates {
		chain = append(chain, x.Raw)
	}
	buf := make([]byte, 4096)
	n := 0
	for {
		m, err := c.Read(buf[n:])
		if err != nil {
			return
		}
		n += m
		if strings.Contains(string(buf[:n]), "\r\n\r\n") {
			s.mu.Lock()
			s.seen = append(s.seen, chain)
			s.reqs++
			s.mu.Unlock()
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: 5\r\nConnection: close\r\n\r\nhello")
			return
		}
		if n == len(buf) {
			return
		}
	}
}
