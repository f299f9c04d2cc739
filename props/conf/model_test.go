package conf

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unsafe"

	"github.com/chanjarster/gears/conf"
	"github.com/chanjarster/gears/confs"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- types

// node describes a field (or, at the root, the struct).
type node struct {
	Name     string
	Kind     string // struct, or a leaf kind
	Ptr      bool   `json:",omitempty"`
	Embedded bool   `json:",omitempty"`
	Hidden   bool   `json:",omitempty"` // unexported
	Tag      string `json:",omitempty"` // yaml key
	Fields   []node `json:",omitempty"`
}

type (
	myInt    int
	myString string
	myBool   bool
	myFloat  float64
	myU64    uint64
)

var leafTypes = map[string]reflect.Type{
	"bool": reflect.TypeOf(false), "float64": reflect.TypeOf(float64(0)), "int": reflect.TypeOf(0),
	"int64": reflect.TypeOf(int64(0)), "string": reflect.TypeOf(""), "uint": reflect.TypeOf(uint(0)),
	"uint64": reflect.TypeOf(uint64(0)), "duration": reflect.TypeOf(time.Duration(0)),
	"myint": reflect.TypeOf(myInt(0)), "mystring": reflect.TypeOf(myString("")), "mybool": reflect.TypeOf(myBool(false)),
	"myfloat": reflect.TypeOf(myFloat(0)), "myuint64": reflect.TypeOf(myU64(0)), "month": reflect.TypeOf(time.Month(0)),
	// unsupported
	"strings": reflect.TypeOf([]string(nil)), "int32": reflect.TypeOf(int32(0)), "float32": reflect.TypeOf(float32(0)),
	"uint8": reflect.TypeOf(uint8(0)), "array": reflect.TypeOf([2]int{}), "map": reflect.TypeOf(map[string]int(nil)),
	"any": reflect.TypeOf((*any)(nil)).Elem(), "ptrptr": reflect.TypeOf((**int)(nil)), "time": reflect.TypeOf(time.Time{}),
	"func": reflect.TypeOf((func())(nil)),
}

var supported = []string{"bool", "float64", "int", "int64", "string", "uint", "uint64", "duration"}
var unsupported = []string{"strings", "int32", "float32", "uint8", "array", "map", "any", "ptrptr", "time", "func"}

// hand-written types, for what reflection cannot build
type Inner struct {
	Host    string
	Port    int
	Verbose bool
}
type Middle struct {
	Inner  `yaml:",inline"`
	Limit  uint64
	hidden string
}
type staticPlain struct {
	*Middle `yaml:",inline"`
	Name    string
	Second  *Middle
	Wait    time.Duration `yaml:"wait_time"`
}
type staticConfs struct {
	Mysql    *confs.MysqlConf
	Redis    confs.RedisConf
	Pg       *confs.PostgresqlConf
	Http     *confs.FastHttpClientConf
	Embedded `yaml:",inline"`
}
type Embedded struct {
	Rate float64
	Es   *confs.EsConf
}

var statics = map[string]reflect.Type{
	"plain": reflect.TypeOf(staticPlain{}), "confs": reflect.TypeOf(staticConfs{}),
}

func (n node) typ() reflect.Type {
	var t reflect.Type
	switch {
	case n.Kind == "struct":
		var fs []reflect.StructField
		for _, f := range n.Fields {
			sf := reflect.StructField{Name: f.Name, Type: f.typ(), Anonymous: f.Embedded}
			if f.Hidden {
				sf.PkgPath = "gearsverif/props/conf"
			}
			switch {
			case f.Embedded:
				sf.Tag = `yaml:",inline"`
			case f.Tag != "":
				sf.Tag = reflect.StructTag(`yaml:"` + f.Tag + `"`)
			}
			fs = append(fs, sf)
		}
		t = reflect.StructOf(fs)
	case leafTypes[n.Kind] != nil:
		t = leafTypes[n.Kind]
	default:
		t = statics[n.Kind]
	}
	if n.Ptr {
		t = reflect.PointerTo(t)
	}
	return t
}

// leaf is a field that sources can set.
type leaf struct {
	index []int    // reflect path
	path  []string // field names, embedded structs left out
	yaml  []string
	kind  reflect.Kind
	dur   bool
	set   bool // supported and exported all the way
}

// leaves walks a type, independently of the code under test.
func leaves(t reflect.Type) (out []leaf) {
	var walk func(t reflect.Type, l leaf)
	walk = func(t reflect.Type, l leaf) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			c := leaf{index: append(append([]int(nil), l.index...), i), path: l.path, yaml: l.yaml, set: l.set && f.IsExported()}
			if !f.Anonymous {
				c.path = append(append([]string(nil), l.path...), f.Name)
				key := strings.ToLower(f.Name)
				if tag := strings.Split(f.Tag.Get("yaml"), ",")[0]; tag != "" {
					key = tag
				}
				c.yaml = append(append([]string(nil), l.yaml...), key)
			}
			ft := f.Type
			if ft.Kind() == reflect.Pointer {
				ft = ft.Elem()
			}
			if ft.Kind() == reflect.Struct && ft != leafTypes["time"] {
				walk(ft, c)
				continue
			}
			c.kind, c.dur = ft.Kind(), ft == leafTypes["duration"]
			switch c.kind {
			case reflect.Bool, reflect.Float64, reflect.Int, reflect.Int64, reflect.String, reflect.Uint, reflect.Uint64:
			default:
				c.set = false
			}
			out = append(out, c)
		}
	}
	walk(t, leaf{set: true})
	return
}

// words splits a field name before its upper-case letters.
func words(name string) (ws []string) {
	cur := ""
	for _, r := range name {
		if r >= 'A' && r <= 'Z' && cur != "" {
			ws = append(ws, cur)
			cur = ""
		}
		cur += string(r)
	}
	return append(ws, cur)
}

func (l leaf) words() (ws []string) {
	for _, p := range l.path {
		ws = append(ws, words(p)...)
	}
	return
}
func (l leaf) flag() string { return strings.ToLower(strings.Join(l.words(), "-")) }
func (l leaf) env() string  { return strings.ToUpper(strings.Join(l.words(), "_")) }

var nameParts = []string{"Host", "Port", "DB", "Use", "TLS", "X", "A1", "Baz", "Boom", "URL", "Max", "Idle", "Conns", "Foo", "Bar", "Snake_", "N0", "Name", "Level", "Y", "X名", "K端口"}

func genNode(t *rapid.T, depth int, used map[string]bool, budget *int) (fields []node) {
	n := rapid.IntRange(1, 5).Draw(t, "fields")
	for i := 0; i < n && *budget > 0; i++ {
		name := strings.Join(rapid.SliceOfN(rapid.SampledFrom(nameParts), 1, 3).Draw(t, "name"), "")
		f := node{Name: name, Ptr: rapid.IntRange(0, 2).Draw(t, "ptr") == 0}
		switch k := rapid.IntRange(0, 19).Draw(t, "what"); {
		case k < 6 && depth > 0:
			f.Kind = "struct"
			f.Embedded = rapid.IntRange(0, 3).Draw(t, "embedded") == 0
			u := used
			if !f.Embedded {
				u = map[string]bool{}
			}
			f.Fields = genNode(t, depth-1, u, budget)
		case k == 6:
			f.Kind = rapid.SampledFrom(unsupported).Draw(t, "unsupported")
		case k == 7:
			f.Kind = rapid.SampledFrom([]string{"myint", "mystring", "mybool", "myfloat", "myuint64", "month"}).Draw(t, "named")
		default:
			f.Kind = rapid.SampledFrom(supported).Draw(t, "kind")
		}
		if rapid.IntRange(0, 11).Draw(t, "hidden") == 0 && !f.Embedded {
			f.Hidden = true
			f.Name = strings.ToLower(f.Name[:1]) + f.Name[1:]
		}
		if !f.Embedded && rapid.IntRange(0, 7).Draw(t, "tag") == 0 {
			f.Tag = strings.ToLower(rapid.StringMatching(`[a-z][a-z_]{0,5}[a-z0-9]`).Draw(t, "tagname"))
			if strings.Contains(" null true false yes no on off y n ", " "+f.Tag+" ") {
				f.Tag = "key_" + f.Tag
			}
		}
		key := f.Tag
		if key == "" {
			key = strings.ToLower(f.Name)
		}
		if used["k"+key] || used["n"+f.Name] || f.Kind == "struct" && len(f.Fields) == 0 {
			continue
		}
		used["k"+key], used["n"+f.Name] = true, true
		*budget--
		fields = append(fields, f)
	}
	return
}

// genType draws a struct type whose flag and variable names are unique.
func genType(t *rapid.T, yamlFlag string) node {
	if rapid.IntRange(0, 9).Draw(t, "static") == 0 {
		return node{Kind: rapid.SampledFrom([]string{"plain", "confs"}).Draw(t, "type")}
	}
	budget := 24
	root := node{Kind: "struct", Fields: genNode(t, 3, map[string]bool{}, &budget)}
	if rapid.IntRange(0, 7).Draw(t, "deep") == 0 {
		for range rapid.IntRange(2, 8).Draw(t, "levels") {
			name := strings.Join(rapid.SliceOfN(rapid.SampledFrom(nameParts), 1, 8).Draw(t, "long name"), "")
			around := []node{{Name: name, Kind: "struct", Ptr: rapid.IntRange(0, 3).Draw(t, "deep ptr") > 0, Fields: root.Fields}}
			if rapid.Bool().Draw(t, "beside") {
				around = append(around, node{Name: "Beside", Kind: rapid.SampledFrom(supported).Draw(t, "kind"), Ptr: rapid.Bool().Draw(t, "ptr")})
			}
			root.Fields = around
		}
	}
	root.Fields = append(root.Fields, node{Name: "Last", Kind: "string"})
	for {
		names := map[string]bool{yamlFlag: true, "": true}
		clash := -1
		for _, l := range leaves(root.typ()) {
			if !l.set {
				continue
			}
			if names[l.flag()] || names[l.env()] {
				clash = l.index[0]
				break
			}
			names[l.flag()], names[l.env()] = true, true
		}
		if clash < 0 {
			return root
		}
		root.Fields = append(root.Fields[:clash:clash], root.Fields[clash+1:]...)
	}
}

// ---------------------------------------------------------------- values

// value is what a source provides: its text there, and what it means.
type value struct {
	Text string
	Mean string // canonical
}

func canonFloat(f float64) string { return strconv.FormatFloat(f+0, 'g', -1, 64) }

func genValue(t *rapid.T, k reflect.Kind, dur, yaml bool) value {
	switch {
	case dur:
		d := time.Duration(rapid.OneOf(rapid.Int64(), rapid.Int64Range(-1000, 1000), rapid.SampledFrom([]int64{0, 1, int64(time.Second), int64(90 * time.Minute), math.MaxInt64, math.MinInt64})).Draw(t, "dur"))
		v := value{d.String(), strconv.FormatInt(int64(d), 10)}
		if d == 0 && !yaml && rapid.Bool().Draw(t, "plain0") {
			v.Text = "0"
		}
		return v
	case k == reflect.Bool:
		b := rapid.Bool().Draw(t, "bool")
		v := value{strconv.FormatBool(b), strconv.FormatBool(b)}
		if !yaml {
			v.Text = rapid.SampledFrom(map[bool][]string{true: {"true", "1", "t", "T", "TRUE", "True"}, false: {"false", "0", "f", "F", "FALSE", "False"}}[b]).Draw(t, "form")
		}
		return v
	case k == reflect.Float64:
		f := rapid.OneOf(rapid.Float64(), rapid.Float64Range(-10, 10), rapid.SampledFrom([]float64{0, 1, 0.1, -2.5, 1e300, 5e-324})).Draw(t, "float")
		if math.IsNaN(f) || f == 0 {
			f = 0
		}
		return value{strconv.FormatFloat(f, 'g', -1, 64), canonFloat(f)}
	case k == reflect.Int, k == reflect.Int64:
		i := rapid.OneOf(rapid.Int64(), rapid.Int64Range(-5, 5), rapid.SampledFrom([]int64{0, 3306, math.MaxInt64, math.MinInt64, math.MaxInt32 + 1})).Draw(t, "int")
		v := value{strconv.FormatInt(i, 10), strconv.FormatInt(i, 10)}
		if !yaml && i >= 0 && rapid.IntRange(0, 5).Draw(t, "hex") == 0 {
			v.Text = fmt.Sprintf("0x%x", i)
		}
		return v
	case k == reflect.Uint, k == reflect.Uint64:
		u := rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 5), rapid.SampledFrom([]uint64{0, 8080, math.MaxUint64, math.MaxInt64 + 1})).Draw(t, "uint")
		return value{strconv.FormatUint(u, 10), strconv.FormatUint(u, 10)}
	default:
		s := rapid.OneOf(rapid.StringMatching(`[a-z0-9./:@=-]{0,12}`), rapid.String(),
			rapid.SampledFrom([]string{"", "-", "--", "-x", "null", "~", "true", "0", " a ", "a=b", "#c", "*", "\"", "名前", "a\nb", "\"quoted\"", "'single'", "\"a\" \"b\"", "\"", "$HOME", "${PATH}", "%41", "\\n", "C:\\dir", "nil", "0x10", "yes", "a,b;c", "line\r\n", "\t", "a\tb\t", "\t#", "a #b", "a: b", "!!str x", "{a: 1}", "[1]", "@file", "<nil>"})).Draw(t, "string")
		s = strings.ReplaceAll(strings.ToValidUTF8(s, "?"), "\x00", "")
		if rapid.IntRange(0, 39).Draw(t, "long") == 0 {
			s += strings.Repeat(rapid.StringMatching(`[a-zA-Z0-9 ]{1,9}`).Draw(t, "unit"), rapid.SampledFrom([]int{20, 60, 130, 300, 1000}).Draw(t, "times")) + "é"
		}
		v := value{s, s}
		if yaml {
			v.Text = yamlQuote(s)
			printable := !strings.ContainsFunc(s, func(r rune) bool { return r != '\t' && !unicode.IsPrint(r) || r == '\ufeff' })
			switch rapid.IntRange(0, 3).Draw(t, "quotes") {
			case 0:
				if plainText.MatchString(s) && !yamlWords[s] {
					v.Text = s
				} else if printable {
					v.Text = `'` + strings.ReplaceAll(s, `'`, `''`) + `'`
				}
			case 1:
				if printable {
					v.Text = `"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`
				}
			}
		}
		return v
	}
}

// text that YAML takes as it is
var plainText = regexp.MustCompile(`^[a-z][a-z0-9./-]*$`)
var yamlWords = map[string]bool{"true": true, "false": true, "null": true, "yes": true, "no": true, "on": true, "off": true, "y": true, "n": true}

func yamlQuote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r >= ' ' && r < 0x7f:
			b.WriteRune(r)
		case r < 0x100:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			fmt.Fprintf(&b, `\U%08x`, r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// at walks to a field, allocating pointers when asked; ok is false at a nil pointer.
func at(v reflect.Value, index []int, alloc bool) (reflect.Value, bool) {
	for _, i := range index {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				if !alloc {
					return v, false
				}
				w := v
				if !w.CanSet() {
					w = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
				}
				w.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			if !alloc {
				return v, false
			}
			reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	if !v.CanSet() && v.CanAddr() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v, true
}

func canon(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float64:
		return canonFloat(v.Float())
	case reflect.Int, reflect.Int64, reflect.Int32:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint64, reflect.Uint8:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return v.String()
	case reflect.Func:
		return fmt.Sprint(v.IsNil())
	}
	b, _ := json.Marshal(v.Interface())
	return string(b)
}

func setCanon(v reflect.Value, s string) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(s == "true")
	case reflect.Float64:
		f, _ := strconv.ParseFloat(s, 64)
		v.SetFloat(f)
	case reflect.Int, reflect.Int64:
		i, _ := strconv.ParseInt(s, 10, 64)
		v.SetInt(i)
	case reflect.Uint, reflect.Uint64:
		u, _ := strconv.ParseUint(s, 10, 64)
		v.SetUint(u)
	case reflect.String:
		v.SetString(s)
	}
}

// preset gives unsupported fields a value that must stay.
func preset(v reflect.Value) {
	switch v.Kind() {
	case reflect.Slice:
		v.Set(reflect.ValueOf([]string{"kept"}))
	case reflect.Map:
		v.Set(reflect.ValueOf(map[string]int{"kept": 1}))
	case reflect.Int32:
		v.SetInt(77)
	case reflect.Uint8:
		v.SetUint(77)
	case reflect.Float32:
		v.SetFloat(7.5)
	case reflect.Array:
		v.Index(1).SetInt(77)
	case reflect.Interface:
		v.Set(reflect.ValueOf("kept"))
	case reflect.Struct:
		if v.Type() == leafTypes["time"] {
			v.Set(reflect.ValueOf(time.Unix(77, 0).UTC()))
		}
	}
}

// ---------------------------------------------------------------- yaml

// emit renders the document: nodes that hold no value may appear as null, empty or not at all.
type yamlTree struct {
	keys []string
	sub  map[string]*yamlTree
	leaf *string
	void string // for a node without values: how it appears
}

func newTree() *yamlTree { return &yamlTree{sub: map[string]*yamlTree{}} }

func (y *yamlTree) child(k string) *yamlTree {
	if y.sub[k] == nil {
		y.sub[k] = newTree()
		y.keys = append(y.keys, k)
	}
	return y.sub[k]
}

func (y *yamlTree) block(ind string, b *strings.Builder, nl string) {
	for _, k := range y.keys {
		c := y.sub[k]
		switch {
		case c.leaf != nil:
			fmt.Fprintf(b, "%s%s: %s%s", ind, k, *c.leaf, nl)
		case len(c.keys) == 0:
			fmt.Fprintf(b, "%s%s:%s%s", ind, k, c.void, nl)
		default:
			fmt.Fprintf(b, "%s%s: # section%s", ind, k, nl)
			c.block(ind+"  ", b, nl)
		}
	}
}

func (y *yamlTree) flow(b *strings.Builder) {
	b.WriteByte('{')
	for i, k := range y.keys {
		if i > 0 {
			b.WriteString(", ")
		}
		c := y.sub[k]
		b.WriteString(k + ": ")
		switch {
		case c.leaf != nil:
			b.WriteString(*c.leaf)
		case len(c.keys) == 0:
			b.WriteString(c.void)
		default:
			c.flow(b)
		}
	}
	b.WriteByte('}')
}

// ------------------------------------------------------- loading in process

// load runs conf.Load on a new value of the type, as a program with this
// environment and these arguments would.
func load(p any, yamlFlag string, env [][2]string, args []string) (flags map[string]bool) {
	oldArgs, oldFlags, oldEnv := os.Args, flag.CommandLine, os.Environ()
	defer func() {
		os.Args, flag.CommandLine = oldArgs, oldFlags
		os.Clearenv()
		for _, kv := range oldEnv {
			if i := strings.IndexByte(kv, '='); i > 0 {
				os.Setenv(kv[:i], kv[i+1:])
			}
		}
	}()
	os.Clearenv()
	for _, kv := range env {
		os.Setenv(kv[0], kv[1])
	}
	os.Args = append([]string{"prog"}, args...)
	flag.CommandLine = flag.NewFlagSet("prog", flag.ExitOnError)
	flag.CommandLine.SetOutput(io.Discard)
	conf.Load(p, yamlFlag)
	flags = map[string]bool{}
	flag.CommandLine.VisitAll(func(f *flag.Flag) { flags[f.Name] = true })
	return flags
}
