// Package fixtures holds a fixed pool of keys, so that cases replay.
package fixtures

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509"
	_ "embed"
	"encoding/json"
	"encoding/pem"
)

//go:embed keys.json
var raw []byte

var (
	RSA []*rsa.PrivateKey
	EC  []*ecdsa.PrivateKey
	Ed  []ed25519.PrivateKey
)

func init() {
	var m map[string][]string
	if err := json.Unmarshal(raw, &m); err != nil {
		panic(err)
	}
	der := func(s string) []byte { b, _ := pem.Decode([]byte(s)); return b.Bytes }
	for _, s := range m["rsa"] {
		k, err := x509.ParsePKCS1PrivateKey(der(s))
		if err != nil {
			panic(err)
		}
		RSA = append(RSA, k)
	}
	for _, s := range m["ec"] {
		k, err := x509.ParseECPrivateKey(der(s))
		if err != nil {
			panic(err)
		}
		EC = append(EC, k)
	}
	for _, s := range m["ed"] {
		k, err := x509.ParsePKCS8PrivateKey(der(s))
		if err != nil {
			panic(err)
		}
		Ed = append(Ed, k.(ed25519.PrivateKey))
	}
}
