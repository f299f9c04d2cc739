package util

import (
	"crypto/rsa"
	"crypto/x509"
	"testing"

	"gearsverif/fixtures"
	"gearsverif/pbt"

	rsautil "github.com/chanjarster/gears/util/rsa"
	"pgregory.net/rapid"
)

type reading struct {
	Doc   fixtures.Doc
	Edits []fixtures.Edit
	As    string  // read as what
	Raw   *[]byte // read this instead
}

func genReading(t *rapid.T) reading {
	kinds := []string{"private", "public", "cert"}
	r := reading{As: rapid.SampledFrom(kinds).Draw(t, "as")}
	what := r.As
	if rapid.IntRange(0, 9).Draw(t, "other") == 0 {
		what = rapid.SampledFrom(kinds).Draw(t, "what")
	}
	r.Doc = fixtures.GenDoc(t, what)
	if rapid.Bool().Draw(t, "edited") {
		r.Edits = fixtures.GenEdits(t)
	}
	if rapid.IntRange(0, 19).Draw(t, "raw") == 0 {
		b := rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
		r.Raw = &b
	}
	return r
}

type reader struct {
	name string
	bare bool
	read func(string) (any, error)
	must func(string) any
}

// nilable keeps a nil pointer nil.
func nilable[T any](p *T, err error) (any, error) {
	if p == nil {
		return nil, err
	}
	return p, err
}

var readers = map[string][]reader{
	"private": {
		{"ReadPrivateKey", true, func(s string) (any, error) { return nilable(rsautil.ReadPrivateKey(s)) }, func(s string) any { return rsautil.MustReadPrivateKey(s) }},
		{"ReadPrivateKeyBytes", false, func(s string) (any, error) { return nilable(rsautil.ReadPrivateKeyBytes([]byte(s))) }, func(s string) any { return rsautil.MustReadPrivateKeyBytes([]byte(s)) }},
	},
	"public": {
		{"ReadPublicKey", true, func(s string) (any, error) { return nilable(rsautil.ReadPublicKey(s)) }, func(s string) any { return rsautil.MustReadPublicKey(s) }},
		{"ReadPublicKeyBytes", false, func(s string) (any, error) { return nilable(rsautil.ReadPublicKeyBytes([]byte(s))) }, func(s string) any { return rsautil.MustReadPublicKeyBytes([]byte(s)) }},
	},
	"cert": {
		{"ReadX509Certificate", true, func(s string) (any, error) { return nilable(rsautil.ReadX509Certificate(s)) }, nil},
		{"ReadX509CertificateBytes", false, func(s string) (any, error) { return nilable(rsautil.ReadX509CertificateBytes([]byte(s))) }, func(s string) any { return rsautil.MustReadX509CertificateBytes([]byte(s)) }},
	},
}

func must(f func(string) any, s string) (v any, panicked any) {
	defer func() { panicked = recover() }()
	return f(s), nil
}

func runReading(r reading) (o pbt.Outcome) {
	text := fixtures.Apply(r.Doc.Text(), r.Edits)
	if r.Raw != nil {
		text = string(*r.Raw)
	}
	proper := r.Raw == nil && len(r.Edits) == 0 && r.Doc.What == r.As && r.Doc.Type == "" && r.Doc.Inner == "" && len(r.Doc.Flip) == 0 && r.Doc.Pad == [2]string{}
	accepted := 0
	for _, rd := range readers[r.As] {
		want := fixtures.Parse(r.As, text, rd.bare)
		if proper && (rd.bare || r.Doc.Form == "pem") {
			// what went in, not what the parser says
			switch r.As {
			case "private":
				want = r.Doc.RSAKey()
			case "public":
				want = &r.Doc.RSAKey().PublicKey
			case "cert":
				want, _ = x509.ParseCertificate(r.Doc.DER())
			}
		}
		got, err := rd.read(text)
		short := text
		if len(short) > 300 {
			short = short[:300] + "..."
		}
		if (got == nil) == (err == nil) {
			o.Fail("answer of %s: both or neither of value and error: %v, %v; text %q", rd.name, got, err, short)
			return
		}
		switch {
		case want == nil && err == nil:
			o.Fail("accepted: %s gave %v for %q", rd.name, got, short)
			return
		case want != nil && err != nil:
			o.Fail("refused: %s gave %v for %q", rd.name, err, short)
			return
		case want != nil && !fixtures.Same(got, want):
			o.Fail("wrong key: %s gave %v for %q", rd.name, got, short)
			return
		}
		if want != nil {
			accepted++
		}
		if rd.must == nil {
			continue
		}
		v, p := must(rd.must, text)
		if want == nil {
			if _, isErr := p.(error); !isErr {
				o.Fail("must-form: of %s gave %v and panicked with %v for %q", rd.name, v, p, short)
				return
			}
		} else if p != nil || !fixtures.Same(v, want) {
			o.Fail("must-form: of %s gave %v and panicked with %v for %q", rd.name, v, p, short)
			return
		}
	}
	if k := r.Doc.RSAKey(); r.As == "public" {
		s, err := rsautil.ExtractPublicKeyPem(k)
		if err != nil {
			o.Fail("extracting the public key: %v", err)
			return
		}
		if !fixtures.Same(fixtures.Parse("public", s, false), &k.PublicKey) {
			o.Fail("extracted public key: not the key's own: %q", s)
			return
		}
		if got, err := rsautil.ReadPublicKey(s); err != nil || !got.Equal(&k.PublicKey) {
			o.Fail("extracted public key: does not read back: %v", err)
			return
		}
		if fixtures.Parse("private", s, false) != nil {
			o.Fail("extracted public key: reads as a private one")
			return
		}
		k2 := &rsa.PrivateKey{PublicKey: k.PublicKey} // needs no more
		if s2, err := rsautil.ExtractPublicKeyPem(k2); err != nil || s2 != s {
			o.Fail("extracted public key: differs: %v", err)
			return
		}
	}
	o.LabelIf(accepted > 0, "accepted")
	o.LabelIf(accepted == 0, "refused")
	o.LabelIf(proper, "proper")
	o.Nontrivial = !proper && r.Raw == nil
	return
}

func TestC30(t *testing.T) {
	pbt.Run(t, "C30", pbt.Part[reading]{
		Name: "readers", Quick: 8000, Deep: 400000,
		Rule: "documents over ten RSA, EC and Ed25519 keys (PEM or bare body, any wrapping, wrong types, other encodings, padding), up to two edits, or random bytes; every reader compared with an independent reading, must-forms with the plain ones; non-trivial: not simply a proper document",
		Gen:  genReading, Run: runReading,
	})
}
