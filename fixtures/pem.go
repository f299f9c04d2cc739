package fixtures

import (
	"crypto"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"strings"
	"time"
)

// Doc describes a PEM document with a key or a certificate in it.
type Doc struct {
	What  string // private, public, cert
	Key   int    // of the pool; RSA keys first, then the others
	Type  string // the PEM type when not the usual one
	Inner string // what is inside when not the usual encoding: pkcs8, pkcs1, ec, ed
	Name  string // common name
	Form  string // pem, bare
	Wrap  int    // columns of the base64 body, 0 for one line
	CRLF  bool
	Pad   [2]string // put before and after
	Flip  [][2]int  // changes of the content: byte, exclusive-or
	Head  string    `json:",omitempty"` // header lines within the document
}

// UsualType is the PEM type of the document.
func (d Doc) UsualType() string {
	return map[string]string{"private": "RSA PRIVATE KEY", "public": "PUBLIC KEY", "cert": "CERTIFICATE"}[d.What]
}

func (d Doc) RSAKey() *rsa.PrivateKey { return RSA[d.Key%len(RSA)] }

var certs = map[string][]byte{}

// cert makes a self-signed certificate.
func cert(key crypto.Signer, name string, serial int) []byte {
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(int64(serial) + 1),
		Subject:      pkix.Name{CommonName: name},
		DNSNames:     []string{"example.com"},
		NotBefore:    time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC),
		NotAfter:     time.Date(2099, 1, 1, 0, 0, 0, 0, time.UTC),
	}
	switch name { // what readers have no business judging
	case "expired":
		tmpl.NotAfter = time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)
	case "future":
		tmpl.NotBefore = time.Date(2098, 1, 1, 0, 0, 0, 0, time.UTC)
	case "critical":
		tmpl.ExtraExtensions = []pkix.Extension{{Id: asn1.ObjectIdentifier{1, 2, 3, 4}, Critical: true, Value: []byte{5, 0}}}
	case "authority":
		tmpl.IsCA, tmpl.BasicConstraintsValid, tmpl.KeyUsage = true, true, x509.KeyUsageCertSign
	case "many":
		for i := range 300 {
			tmpl.DNSNames = append(tmpl.DNSNames, fmt.Sprintf("host-%d.example.com", i))
		}
	}
	id := fmt.Sprint(name, " ", serial)
	if der, ok := certs[id]; ok {
		return der
	}
	der, err := x509.CreateCertificate(nil, tmpl, tmpl, key.Public(), key)
	if err != nil {
		panic(err)
	}
	certs[id] = der
	return der
}

// DER is the content of the document.
func (d Doc) DER() []byte {
	var b []byte
	var err error
	switch k := d.RSAKey(); d.What + " " + d.Inner {
	case "private ":
		b = x509.MarshalPKCS1PrivateKey(k)
	case "private pkcs8":
		b, err = x509.MarshalPKCS8PrivateKey(k)
	case "private ec":
		b, err = x509.MarshalECPrivateKey(EC[d.Key%len(EC)])
	case "private ed":
		b, err = x509.MarshalPKCS8PrivateKey(Ed[d.Key%len(Ed)])
	case "public ":
		b, err = x509.MarshalPKIXPublicKey(&k.PublicKey)
	case "public pkcs1":
		b = x509.MarshalPKCS1PublicKey(&k.PublicKey)
	case "public ec":
		b, err = x509.MarshalPKIXPublicKey(EC[d.Key%len(EC)].Public())
	case "public ed":
		b, err = x509.MarshalPKIXPublicKey(Ed[d.Key%len(Ed)].Public())
	case "cert ec":
		b = cert(EC[d.Key%len(EC)], d.Name, 1000+d.Key)
	case "cert ed":
		b = cert(Ed[d.Key%len(Ed)], d.Name, 2000+d.Key)
	case "cert ":
		if k.N.BitLen() < 1024 {
			k = RSA[0] // too short to sign with
		}
		b = cert(k, d.Name, d.Key)
	default:
		b = x509.MarshalPKCS1PrivateKey(k) // of another kind altogether
	}
	if err != nil {
		panic(err)
	}
	if len(d.Flip) > 0 {
		b = append([]byte(nil), b...)
	}
	for _, f := range d.Flip {
		b[f[0]%len(b)] ^= byte(f[1])
	}
	return b
}

// Text is the document.
func (d Doc) Text() string {
	body := base64.StdEncoding.EncodeToString(d.DER())
	nl := "\n"
	if d.CRLF {
		nl = "\r\n"
	}
	if d.Wrap > 0 {
		var ls []string
		for len(body) > d.Wrap {
			ls = append(ls, body[:d.Wrap])
			body = body[d.Wrap:]
		}
		body = strings.Join(append(ls, body), nl)
	}
	typ := d.Type
	if typ == "" {
		typ = d.UsualType()
	}
	if d.Form != "bare" {
		if d.Head != "" {
			body = strings.ReplaceAll(d.Head, "\n", nl) + nl + body
		}
		body = "-----BEGIN " + typ + "-----" + nl + body + nl + "-----END " + typ + "-----" + nl
	}
	return d.Pad[0] + body + d.Pad[1]
}

// Parse reads a document of that kind by the book: the first PEM block, of
// exactly the usual type. What lacks either PEM marker is taken as a bare body.
func Parse(what, text string, bare bool) any {
	if bare && !(strings.Contains(text, "-----BEGIN") && strings.Contains(text, "-----END")) {
		typ := Doc{What: what}.UsualType()
		text = "-----BEGIN " + typ + "-----\n" + text + "\n-----END " + typ + "-----"
	}
	b, _ := pem.Decode([]byte(text))
	if b == nil || b.Type != (Doc{What: what}).UsualType() {
		return nil
	}
	switch what {
	case "private":
		if k, err := x509.ParsePKCS1PrivateKey(b.Bytes); err == nil {
			return k
		}
	case "public":
		if k, err := x509.ParsePKIXPublicKey(b.Bytes); err == nil {
			if k, ok := k.(*rsa.PublicKey); ok {
				return k
			}
		}
	case "cert":
		if c, err := x509.ParseCertificate(b.Bytes); err == nil {
			return c
		}
	}
	return nil
}

// Same compares what two readings gave.
func Same(a, b any) bool {
	switch a := a.(type) {
	case *rsa.PrivateKey:
		b, ok := b.(*rsa.PrivateKey)
		return ok && a != nil && b != nil && a.Equal(b)
	case *rsa.PublicKey:
		b, ok := b.(*rsa.PublicKey)
		return ok && a != nil && b != nil && a.Equal(b)
	case *x509.Certificate:
		b, ok := b.(*x509.Certificate)
		return ok && a != nil && b != nil && a.Equal(b)
	}
	return false
}
