package fixtures

import (
	"strings"

	"pgregory.net/rapid"
)

// Edit changes a document's text.
type Edit struct {
	Op  string // cut, flip, insert, delete, double, oneline (line ends written as \n), blank (line ends are blanks), lower
	At  int
	Arg string
}

// GenDoc draws a document, most often a proper one.
func GenDoc(t *rapid.T, what string) Doc {
	d := Doc{
		What: what, Key: rapid.IntRange(0, len(RSA)-1).Draw(t, "key"),
		Form: rapid.SampledFrom([]string{"pem", "pem", "bare"}).Draw(t, "form"),
		Wrap: rapid.SampledFrom([]int{64, 64, 0, 1, 76, 63, 1000}).Draw(t, "wrap"),
		CRLF: rapid.IntRange(0, 3).Draw(t, "crlf") == 0,
	}
	if what == "cert" {
		d.Name = rapid.SampledFrom([]string{"a", "gears", "名前", "expired", "future", "critical", "authority", "many"}).Draw(t, "name")
	}
	if rapid.IntRange(0, 7).Draw(t, "headers") == 0 {
		d.Head = rapid.SampledFrom([]string{"Comment: mine\n", "X-A: 1\nX-B: a:b\n", "Subject: CN=gears\nEmpty: \n"}).Draw(t, "head")
	}
	if rapid.IntRange(0, 5).Draw(t, "corrupt") == 0 {
		for i := rapid.IntRange(1, 2).Draw(t, "flips"); i > 0; i-- {
			d.Flip = append(d.Flip, [2]int{rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 2000)).Draw(t, "byte"), rapid.IntRange(1, 255).Draw(t, "xor")})
		}
	}
	switch rapid.IntRange(0, 7).Draw(t, "odd") {
	case 0:
		d.Type = rapid.SampledFrom([]string{"RSA PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE", "PRIVATE KEY", "RSA PUBLIC KEY", "EC PRIVATE KEY", "X", "", "public key", "CERTIFICATE REQUEST", "X509 CERTIFICATE", "TRUSTED CERTIFICATE", "CERTIFICATES", "X PUBLIC KEY", "PUBLIC KEYS", "ENCRYPTED RSA PRIVATE KEY", "RSA PRIVATE KEYS", "rsa private key", "DSA PUBLIC KEY"}).Draw(t, "type")
	case 1:
		d.Inner = rapid.SampledFrom([]string{"pkcs8", "pkcs1", "ec", "ed"}).Draw(t, "inner")
	case 2:
		d.Inner, d.Type = "pkcs1", "RSA PUBLIC KEY"
		if what == "private" {
			d.Inner, d.Type = "pkcs8", "PRIVATE KEY"
		}
	case 3:
		d.Pad = [2]string{rapid.SampledFrom([]string{"", "\n", "text\n", "  ", "\r\n\r\n"}).Draw(t, "before"), rapid.SampledFrom([]string{"", "\n\n", "text\n", " ", "\t"}).Draw(t, "after")}
	}
	return d
}

// GenEdits draws up to two changes.
func GenEdits(t *rapid.T) (es []Edit) {
	for i := rapid.IntRange(0, 2).Draw(t, "edits"); i > 0; i-- {
		e := Edit{Op: rapid.SampledFrom([]string{"cut", "flip", "insert", "delete", "double", "cut", "flip", "insert", "delete", "double", "oneline", "blank", "lower"}).Draw(t, "edit"), At: rapid.IntRange(0, 5000).Draw(t, "at")}
		if e.Op == "insert" || e.Op == "flip" {
			e.Arg = rapid.SampledFrom([]string{"A", "/", "=", "\n", " ", "-", "\x00", "-----", "-----END", "-----BEGIN", "é", "a: b\n", "\n\n", "\\n", "\\r\\n", "\"", "\t", "_"}).Draw(t, "arg")
		}
		es = append(es, e)
	}
	return
}

// Apply makes the changes.
func Apply(s string, es []Edit) string {
	for _, e := range es {
		if len(s) == 0 {
			s = e.Arg
			continue
		}
		at := e.At % len(s)
		switch e.Op {
		case "cut":
			s = s[:at]
		case "flip":
			s = s[:at] + e.Arg + s[at+1:]
		case "insert":
			s = s[:at] + e.Arg + s[at:]
		case "delete":
			s = s[:at] + s[min(len(s), at+1+e.At%3):]
		case "oneline":
			s = strings.ReplaceAll(s, "\n", "\\n")
		case "blank":
			s = strings.ReplaceAll(s, "\n", " ")
		case "lower":
			s = strings.ToLower(s)
		case "double":
			s = s + s
		}
	}
	return s
}
