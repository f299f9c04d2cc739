package util

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"unicode/utf16"
	"unicode/utf8"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/dto"
	"pgregory.net/rapid"
)

// jv is a JSON value: exactly one field is used.
type jv struct {
	Null bool     `json:",omitempty"`
	Bool *bool    `json:",omitempty"`
	Num  *string  `json:",omitempty"`
	Str  *string  `json:",omitempty"`
	Arr  []jv     `json:",omitempty"`
	Obj  []member `json:",omitempty"`
	Kind string   `json:",omitempty"` // arr, obj: also when empty
}

type member struct {
	K string
	V jv
}

func genString(t *rapid.T, name string) string {
	return []func() string{
		func() string { return rapid.SampledFrom([]string{"", "a", "b", "A", "名", "key"}).Draw(t, name) },
		func() string {
			return rapid.StringOf(rapid.SampledFrom([]rune{'a', '"', '\\', '/', '<', '&', 0, 8, 0x1f, 0x7f, 0x2028, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 'é'})).Draw(t, name)
		},
		func() string { return rapid.String().Draw(t, name) },
	}[rapid.IntRange(0, 2).Draw(t, name+" how")]()
}

func genNumber(t *rapid.T) string {
	return []func() string{
		func() string { return strconv.Itoa(rapid.IntRange(-20, 20).Draw(t, "n")) },
		func() string { return strconv.FormatInt(rapid.Int64().Draw(t, "n"), 10) },
		func() string {
			f := rapid.Float64().Draw(t, "f")
			if math.IsInf(f, 0) || math.IsNaN(f) {
				f = 0
			}
			return strconv.FormatFloat(f, 'g', -1, 64)
		},
		func() string {
			return rapid.SampledFrom([]string{"0", "-0", "0.0", "1e5", "1E+5", "1.5e-7", "9007199254740993", "1e308", "123456789012345678901234567890", "0.1", "5e-324", "1.7976931348623157e308"}).Draw(t, "n")
		},
	}[rapid.IntRange(0, 3).Draw(t, "number")]()
}

func genJSON(t *rapid.T, depth int) jv {
	kinds := []string{"null", "bool", "num", "str", "num", "str"}
	if depth > 0 {
		kinds = append(kinds, "arr", "obj", "arr", "obj")
	}
	switch k := rapid.SampledFrom(kinds).Draw(t, "kind"); k {
	case "null":
		return jv{Null: true}
	case "bool":
		b := rapid.Bool().Draw(t, "b")
		return jv{Bool: &b}
	case "num":
		n := genNumber(t)
		return jv{Num: &n}
	case "str":
		s := genString(t, "s")
		return jv{Str: &s}
	case "arr":
		v := jv{Kind: k}
		for i := rapid.IntRange(0, 3).Draw(t, "items"); i > 0; i-- {
			v.Arr = append(v.Arr, genJSON(t, depth-1))
		}
		return v
	default:
		return genObject(t, depth-1)
	}
}

func genObject(t *rapid.T, depth int) jv {
	v := jv{Kind: "obj"}
	for i := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 7, 12}).Draw(t, "members"); i > 0; i-- {
		v.Obj = append(v.Obj, member{genString(t, "key"), genJSON(t, depth)})
	}
	return v
}

// value is what the value must be in Go; of repeated keys the last counts.
func (v jv) value() any {
	switch {
	case v.Bool != nil:
		return *v.Bool
	case v.Num != nil:
		f, _, err := big.ParseFloat(*v.Num, 10, 2000, big.ToNearestEven)
		if err != nil {
			panic(err)
		}
		x, _ := f.Float64()
		if x == 0 && strings.HasPrefix(*v.Num, "-") {
			x = math.Copysign(0, -1)
		}
		return x
	case v.Str != nil:
		return *v.Str
	case v.Kind == "arr":
		a := []any{}
		for _, x := range v.Arr {
			a = append(a, x.value())
		}
		return a
	case v.Kind == "obj":
		m := map[string]any{}
		for _, x := range v.Obj {
			m[x.K] = x.V.value()
		}
		return m
	}
	return nil
}

// text writes the value; style picks spacing and escapes.
func (v jv) text(b *strings.Builder, style uint64) {
	ws := func() {
		style = style*6364136223846793005 + 1442695040888963407
		switch style >> 60 {
		case 0:
			b.WriteString(" ")
		case 1:
			b.WriteString("\n\t")
		case 2:
			b.WriteString("\r ")
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		for _, r := range s {
			style = style*6364136223846793005 + 1442695040888963407
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r == '/' && style>>63 == 0:
				b.WriteString(`\/`)
			case r == 8:
				b.WriteString(`\b`)
			case r < 0x20 || style>>61 == 0:
				if hi, lo := utf16.EncodeRune(r); hi != utf8.RuneError {
					fmt.Fprintf(b, `\u%04x\u%04X`, hi, lo)
				} else {
					fmt.Fprintf(b, `\u%04x`, r)
				}
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	}
	ws()
	switch {
	case v.Bool != nil:
		fmt.Fprint(b, *v.Bool)
	case v.Num != nil:
		b.WriteString(*v.Num)
	case v.Str != nil:
		str(*v.Str)
	case v.Kind == "arr":
		b.WriteByte('[')
		for i, x := range v.Arr {
			if i > 0 {
				b.WriteByte(',')
			}
			x.text(b, style+uint64(i))
		}
		ws()
		b.WriteByte(']')
	case v.Kind == "obj":
		b.WriteByte('{')
		for i, x := range v.Obj {
			if i > 0 {
				b.WriteByte(',')
			}
			ws()
			str(x.K)
			ws()
			b.WriteByte(':')
			x.V.text(b, style+uint64(i))
		}
		ws()
		b.WriteByte('}')
	default:
		b.WriteString("null")
	}
	ws()
}

type document struct {
	Value jv
	Style uint64
	Edits []edit
	Raw   *string
}

type edit struct {
	At  int
	Del int
	Ins string
}

func genDocument(t *rapid.T) document {
	d := document{Style: rapid.Uint64Range(1, 1<<50).Draw(t, "style")}
	if rapid.IntRange(0, 5).Draw(t, "top") == 0 {
		d.Value = genJSON(t, 2)
	} else {
		d.Value = genObject(t, 3)
	}
	if rapid.IntRange(0, 30).Draw(t, "deep") == 0 {
		for i := rapid.IntRange(1, 150).Draw(t, "depth"); i > 0; i-- {
			if i%7 == 3 {
				d.Value = jv{Kind: "arr", Arr: []jv{d.Value}}
			} else {
				d.Value = jv{Kind: "obj", Obj: []member{{"a", d.Value}}}
			}
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "edited") == 0 {
		for i := rapid.IntRange(1, 2).Draw(t, "edits"); i > 0; i-- {
			d.Edits = append(d.Edits, edit{rapid.IntRange(0, 300).Draw(t, "at"), rapid.IntRange(0, 2).Draw(t, "del"),
				rapid.SampledFrom([]string{"", "", "{", "}", "[", "]", ",", ":", "\"", "\\", "0", "-", ".", "e", "null", "true", "nul", "\x00", "\xff", " ", "{}", "'", "//", "NaN", "\\u12"}).Draw(t, "ins")})
		}
	}
	if rapid.IntRange(0, 19).Draw(t, "raw") == 0 {
		s := rapid.SampledFrom([]string{"", " ", "null", " null\n", "nulL", "{}", "{} ", "{}{}", "[]", "1", "\"a\"", "true", "{\"a\":1}x", "{'a':1}", "{a:1}", "{\"a\":01}", "{\"a\":1e999}", "{\"a\":.5}", "{\"a\":+1}", "{\"a\":1,}", "\xef\xbb\xbf{}", "{\"a\":\"\xff\"}", "{\"a\":\"\\ud800\"}", "{\"a\":\"\t\"}"}).Draw(t, "text")
		d.Raw = &s
	}
	return d
}

// generic reads the text with the general decoder.
func generic(text []byte) (v any, ok bool) {
	r := bytes.NewReader(text)
	d := json.NewDecoder(r)
	if d.Decode(&v) != nil {
		return nil, false
	}
	rest := new(bytes.Buffer)
	rest.ReadFrom(io.MultiReader(d.Buffered(), r))
	if strings.Trim(rest.String(), " \t\r\n") != "" {
		return nil, false
	}
	return v, true
}

func runDocument(d document) (o pbt.Outcome) {
	var b strings.Builder
	d.Value.text(&b, d.Style)
	text := b.String()
	for _, e := range d.Edits {
		at := e.At % (len(text) + 1)
		text = text[:at] + e.Ins + text[min(len(text), at+e.Del):]
	}
	if d.Raw != nil {
		text = *d.Raw
	}
	proper := d.Raw == nil && len(d.Edits) == 0
	var want any
	valid := true
	if proper {
		want = d.Value.value()
	} else {
		want, valid = generic([]byte(text))
	}
	_, isObj := want.(map[string]any)
	valid = valid && (isObj || want == nil)

	m, err := dto.UnmarshalM([]byte(text))
	switch {
	case valid && err != nil:
		o.Fail("refused: %q: %v", text, err)
		return
	case !valid && err == nil:
		o.Fail("accepted: %q as %v", text, m)
		return
	case !valid && m != nil:
		o.Fail("a map with an error: %q: %v", text, m)
		return
	case valid && isObj && !reflect.DeepEqual(map[string]any(m), want):
		o.Fail("wrong value: %q gave %#v, expected %#v", text, m, want)
		return
	case valid && !isObj && len(m) != 0:
		o.Fail("wrong value: null gave %#v", m)
		return
	}
	if valid && isObj {
		before := fmt.Sprintf("%#v", want)
		out, err := dto.MarshalM(want.(map[string]any))
		if err != nil {
			o.Fail("marshalling: %v of %#v", err, want)
			return
		}
		if fmt.Sprintf("%#v", want) != before {
			o.Fail("marshalling changed its argument")
			return
		}
		back, err := dto.UnmarshalM(out)
		if err != nil || !reflect.DeepEqual(map[string]any(back), want) {
			o.Fail("round trip: %#v became %s and then %#v (%v)", want, out, back, err)
			return
		}
		if g, ok := generic(out); !ok || !reflect.DeepEqual(g, want) {
			o.Fail("marshalled form: %#v became %s", want, out)
			return
		}
		o.Nontrivial = len(m) > 1
	} else if !valid {
		o.Label("invalid")
		o.Nontrivial = len(text) > 4
	}
	o.LabelIf(proper, "proper")
	return
}

func TestC31(t *testing.T) {
	pbt.Run(t, "C31", pbt.Part[document]{
		Name: "documents", Quick: 12000, Deep: 600000,
		Rule: "JSON values (deep, odd keys and strings, repeated keys, edge numbers) written by the harness with random spacing and escapes, edited or replaced by odd texts; compared with the value drawn, or the general decoder; non-trivial: an object of two keys, or an invalid text of more than four bytes",
		Gen:  genDocument, Run: runDocument,
	})
}
