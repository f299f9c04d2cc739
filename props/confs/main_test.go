package confs

import (
	"crypto/x509"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	clean := setupPKI()
	rc := m.Run()
	clean()
	os.Exit(rc)
}

func tlsPool(names ...string) (*x509.CertPool, bool) {
	p := x509.NewCertPool()
	return p, p.AppendCertsFromPEM([]byte(certPEM(names...)))
}
