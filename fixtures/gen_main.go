//go:build ignore

// Writes keys.json, the committed pool of keys.
package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"math/big"
	"os"
)

func main() {
	out := map[string][]string{}
	add := func(kind, typ string, der []byte, err error) {
		if err != nil {
			panic(err)
		}
		out[kind] = append(out[kind], string(pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der})))
	}
	for _, bits := range []int{1024, 1024, 1536, 2048, 2048, 3072} {
		k, err := rsa.GenerateKey(rand.Reader, bits)
		if err != nil {
			panic(err)
		}
		add("rsa", "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k), nil)
	}
	for _, e := range []int64{3, 1<<31 - 1} { // other exponents than the usual one
		for {
			p, _ := rand.Prime(rand.Reader, 512)
			q, _ := rand.Prime(rand.Reader, 512)
			one := big.NewInt(1)
			phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
			d := new(big.Int).ModInverse(big.NewInt(e), phi)
			if d == nil || p.Cmp(q) == 0 {
				continue
			}
			k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(p, q), E: int(e)}, D: d, Primes: []*big.Int{p, q}}
			k.Precompute()
			add("rsa", "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k), k.Validate())
			break
		}
	}
	k, err := rsa.GenerateKey(rand.Reader, 4096)
	add("rsa", "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k), err)
	k, err = rsa.GenerateMultiPrimeKey(rand.Reader, 3, 1536)
	add("rsa", "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k), err)
	for _, bits := range []int{256, 384} { // keys of 512 and 768 bits
		for {
			p, _ := rand.Prime(rand.Reader, bits)
			q, _ := rand.Prime(rand.Reader, bits)
			one := big.NewInt(1)
			phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
			d := new(big.Int).ModInverse(big.NewInt(65537), phi)
			if d == nil || p.Cmp(q) == 0 {
				continue
			}
			k := &rsa.PrivateKey{PublicKey: rsa.PublicKey{N: new(big.Int).Mul(p, q), E: 65537}, D: d, Primes: []*big.Int{p, q}}
			k.Precompute()
			add("rsa", "RSA PRIVATE KEY", x509.MarshalPKCS1PrivateKey(k), k.Validate())
			break
		}
	}
	for range 2 {
		e, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		b, err := x509.MarshalECPrivateKey(e)
		add("ec", "EC PRIVATE KEY", b, err)
		_, ed, _ := ed25519.GenerateKey(rand.Reader)
		b, err = x509.MarshalPKCS8PrivateKey(ed)
		add("ed", "PRIVATE KEY", b, err)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile("keys.json", append(b, '\n'), 0o644)
}
