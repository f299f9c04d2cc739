package conf

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"gearsverif/pbt"

	"pgregory.net/rapid"
)

// assign is what the sources say about one supported leaf.
type assign struct {
	Init, Yaml, Env, Flag *value `json:",omitempty"`
	Form                  int    `json:",omitempty"` // how the flag is written
	Early                 *value `json:",omitempty"` // an earlier occurrence of the flag
	NullLeaf              bool   `json:",omitempty"` // without a value in the file: "key: null"
}

type loading struct {
	Type     node
	YamlFlag string
	YamlFile bool
	Flow     bool     `json:",omitempty"`
	CRLF     bool     `json:",omitempty"`
	FileName string   `json:",omitempty"` // conf.yaml
	Pad      int      `json:",omitempty"` // bytes of comments in front
	Unknown  int      `json:",omitempty"` // keys in the file that no field has
	Voids    []string `json:",omitempty"` // how sections without values appear, in order
	PreAlloc bool     // pointers allocated before loading
	Leaves   []assign // of every leaf, supported or not
	Noise    [][2]string
	Rest     []string // positional arguments
	Order    int
}

func genLoading(files bool) func(t *rapid.T) loading {
	return func(t *rapid.T) loading {
		c := loading{YamlFlag: rapid.SampledFrom([]string{"c", "c", "config-file", "yaml", ""}).Draw(t, "yamlflag"),
			PreAlloc: rapid.Bool().Draw(t, "prealloc"), Order: rapid.IntRange(0, 1000).Draw(t, "order")}
		c.Type = genType(t, c.YamlFlag)
		c.YamlFile = files && c.YamlFlag != "" && rapid.IntRange(0, 4).Draw(t, "file") > 0
		if c.YamlFile {
			c.Flow = rapid.IntRange(0, 3).Draw(t, "flow") == 0
			c.CRLF = rapid.IntRange(0, 5).Draw(t, "crlf") == 0
			c.Pad = genPad(t)
			c.FileName = rapid.SampledFrom([]string{"", "", "conf.yml", "conf.json", "conf", ".conf", "conf.toml", "a b.yaml", "$A.yaml", "名.yaml", "~", "conf.yaml.bak", "-c"}).Draw(t, "file name")
			c.Unknown = max(0, rapid.IntRange(-4, 3).Draw(t, "unknown"))
			c.Voids = rapid.SliceOfN(rapid.SampledFrom([]string{"", "", " null", " ~", " {}", "skip", "skip"}), 1, 6).Draw(t, "voids")
		}
		dense := rapid.SampledFrom([]int{1, 2, 2, 4, 8}).Draw(t, "dense")
		some := func(name string) bool { return rapid.IntRange(0, dense).Draw(t, name) == 0 }
		names := map[string]bool{}
		ls := leaves(c.Type.typ())
		for _, l := range ls {
			var a assign
			if !l.set {
				c.Leaves = append(c.Leaves, a)
				continue
			}
			names[l.env()] = true
			get := func(yaml bool) *value {
				v := genValue(t, l.kind, l.dur, yaml)
				return &v
			}
			if some("init") {
				a.Init = get(false)
			}
			if c.YamlFile && some("yaml") {
				a.Yaml = get(true)
			} else {
				a.NullLeaf = rapid.IntRange(0, 5).Draw(t, "nullleaf") == 0
			}
			if some("env") {
				a.Env = get(false)
			}
			if some("flag") {
				a.Flag = get(false)
				a.Form = rapid.IntRange(0, 3).Draw(t, "form")
				if rapid.IntRange(0, 9).Draw(t, "early") == 0 {
					a.Early = get(false)
				}
			}
			c.Leaves = append(c.Leaves, a)
		}
		// variables that are nearly, but not, the name of a field
		for i := rapid.IntRange(0, 6).Draw(t, "noise"); i > 0; i-- {
			l := ls[rapid.IntRange(0, len(ls)-1).Draw(t, "of")]
			n := l.env()
			v := "noise"
			switch rapid.IntRange(0, 10).Draw(t, "near") {
			case 0:
				n = strings.ToLower(n)
			case 1:
				n = strings.ReplaceAll(n, "_", "")
			case 2:
				n = strings.Replace(n, "_", "__", 1)
			case 3:
				n = "_" + n
			case 4:
				n += "_"
			case 5:
				n = strings.ReplaceAll(n, "_", "-")
			case 6:
				n = strings.Join(l.path, "_")
			case 7:
				n = strings.Join(l.path, ".")
			case 8, 9: // as the variants other programs know
				n = rapid.SampledFrom([]string{n + "_FILE", n + "_DEFAULT", n + "_PATH", "APP_" + n, "CONF_" + n, n + "_0", n + "_JSON"}).Draw(t, "variant")
				v = rapid.SampledFrom([]string{"/proc/version", "/dev/null", "7", "true", "5s"}).Draw(t, "value")
			default: // its own name, when it is not supported
			}
			if !names[n] && n != "" {
				c.Noise = append(c.Noise, [2]string{n, v})
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "rest") == 0 {
			c.Rest = rapid.SliceOfN(rapid.SampledFrom([]string{"arg", "x=y", "--", "", "7"}), 1, 2).Draw(t, "rest")
		}
		return c
	}
}

// genPad draws how many bytes of comments a file begins with: mostly none,
// sometimes enough to fill usual buffers.
func genPad(t *rapid.T) int {
	if rapid.IntRange(0, 6).Draw(t, "padded") > 0 {
		return 0
	}
	return rapid.SampledFrom([]int{100, 1000, 4000, 4096, 5000, 40000, 65536, 70000, 1100000}).Draw(t, "pad")
}

func padding(n int, nl string) string {
	if n == 0 {
		return ""
	}
	return strings.Repeat("# of no meaning"+nl, n/(15+len(nl))+1)
}

// absent stands for a field behind a nil pointer; no generated text holds it.
const absent = "\x00absent"

var scratch string

func scratchDir() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "gears-conf-")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

func TestMain(m *testing.M) {
	code := m.Run()
	if scratch != "" {
		os.RemoveAll(scratch)
	}
	os.Exit(code)
}

func (c loading) yamlDoc(ls []leaf) string {
	tree := newTree()
	for i, a := range c.Leaves {
		l := ls[i]
		if !l.set {
			continue
		}
		// the sections exist, the leaf only if it has a value
		n := tree
		for _, k := range l.yaml[:len(l.yaml)-1] {
			n = n.child(k)
		}
		last := l.yaml[len(l.yaml)-1]
		if a.Yaml != nil {
			n.child(last).leaf = &a.Yaml.Text
		} else if a.NullLeaf && len(l.index) > 0 {
			null := "null"
			n.child(last).leaf = &null
		}
	}
	k := 0
	var fill func(n *yamlTree) bool
	fill = func(n *yamlTree) bool { // whether anything is in it
		var keys []string
		for _, key := range n.keys {
			s := n.sub[key]
			if s.leaf != nil || fill(s) {
				keys = append(keys, key)
				continue
			}
			v := c.Voids[k%len(c.Voids)]
			k++
			if v == "skip" {
				delete(n.sub, key)
				continue
			}
			s.void, s.keys = v, nil
			if c.Flow && v == "" {
				s.void = " null"
			}
			keys = append(keys, key)
		}
		n.keys = keys
		return len(keys) > 0
	}
	fill(tree)
	// keys that no field has, in the document and its first section
	others := []string{"7", `"text"`, "[1, a]", "{a: {b: null}}"}
	for i := 0; i < c.Unknown; i++ {
		n := tree
		if i%2 == 1 {
			for _, key := range tree.keys {
				if s := tree.sub[key]; s.leaf == nil && len(s.keys) > 0 {
					n = s
					break
				}
			}
		}
		n.child(fmt.Sprint("zz_unknown_", i)).leaf = &others[(i+c.Order)%len(others)]
	}
	var b strings.Builder
	if c.Flow {
		tree.flow(&b)
		return padding(c.Pad, "\n") + b.String()
	}
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	tree.block("", &b, nl)
	return padding(c.Pad, nl) + b.String()
}

func (c loading) args(ls []leaf) (args []string) {
	var groups [][]string
	for i, a := range c.Leaves {
		if a.Flag == nil {
			continue
		}
		dash := []string{"-", "--"}[a.Form%2]
		n := dash + ls[i].flag()
		g := []string{}
		if a.Early != nil {
			g = append(g, n+"="+a.Early.Text)
		}
		switch {
		case ls[i].kind == reflect.Bool && a.Flag.Mean == "true" && a.Form > 1:
			g = append(g, n)
		case ls[i].kind == reflect.Bool || a.Form > 1:
			g = append(g, n+"="+a.Flag.Text)
		default:
			g = append(g, n, a.Flag.Text)
		}
		groups = append(groups, g)
	}
	if c.YamlFile {
		f := filepath.Join(scratchDir(), "conf.yaml")
		if c.FileName != "" {
			f = filepath.Join(scratchDir(), c.FileName)
		}
		os.WriteFile(f, []byte(c.yamlDoc(ls)), 0o600)
		groups = append(groups, []string{"-" + c.YamlFlag, f})
	}
	// some order
	k := c.Order
	for len(groups) > 0 {
		i := k % len(groups)
		k = k/2 + 7
		args = append(args, groups[i]...)
		groups = append(groups[:i:i], groups[i+1:]...)
	}
	return append(args, c.Rest...)
}

func (c loading) run(id string) (o pbt.Outcome) {
	typ := c.Type.typ()
	ls := leaves(typ)
	p := reflect.New(typ)
	root := p.Elem()
	before := make([]string, len(ls))
	for i, a := range c.Leaves {
		if c.PreAlloc || a.Init != nil {
			v, _ := at(root, ls[i].index, true)
			if a.Init != nil {
				setCanon(v, a.Init.Mean)
			} else if !ls[i].set {
				preset(v)
			}
			before[i] = canon(v)
		} else if v, ok := at(root, ls[i].index, false); ok {
			before[i] = canon(v)
		} else {
			before[i] = absent
		}
	}
	args := c.args(ls)
	env := append([][2]string(nil), c.Noise...)
	for i, a := range c.Leaves {
		if a.Env != nil {
			env = append(env, [2]string{ls[i].env(), a.Env.Text})
		}
	}
	flags := load(p.Interface(), c.YamlFlag, env, args)

	doc := ""
	if c.YamlFile {
		doc = c.yamlDoc(ls)
	}
	several, null := 0, strings.Contains(doc, "null") || strings.Contains(doc, "~")
	for i, a := range c.Leaves {
		l := ls[i]
		v, ok := at(root, l.index, false)
		got := absent
		if ok {
			got = canon(v)
		}
		if !l.set {
			if got != before[i] && before[i] != absent {
				o.Fail("field touched: %v of unsupported kind or unexported was %q, is %q; env %q, args %q", l.path, before[i], got, env, args)
				return
			}
			continue
		}
		if !ok {
			o.Fail("pointer not allocated: on the way to %v; file:\n%s", l.path, doc)
			return
		}
		want, from, n := before[i], "default", 0
		if want == absent {
			want = canon(reflect.Zero(v.Type()))
		}
		for _, s := range []struct {
			v    *value
			from string
		}{{a.Yaml, "file"}, {a.Env, "environment"}, {a.Flag, "flag"}} {
			if s.v != nil {
				want, from = s.v.Mean, s.from
				n++
			}
		}
		if n > 1 {
			several++
		}
		if got != want {
			o.Fail("value of a field: %v is %q, expected %q from the %s; env %q, args %q, default %q, file:\n%s", l.path, got, want, from, env, args, before[i], doc)
			return
		}
	}
	want := map[string]bool{}
	if c.YamlFlag != "" {
		want[c.YamlFlag] = true
	}
	supported, nested := 0, 0
	for _, l := range ls {
		if l.set {
			want[l.flag()] = true
			supported++
			if len(l.path) > 1 {
				nested++
			}
		}
	}
	if id == "C17" && fmt.Sprint(keys(want)) != fmt.Sprint(keys(flags)) {
		o.Fail("set of flags: %v, expected %v", keys(flags), keys(want))
		return
	}
	o.LabelIf(c.YamlFile, "file")
	o.LabelIf(several > 0, "several sources for a field")
	o.LabelIf(c.Pad > 0, "padded file")
	o.LabelIf(null, "null in the file")
	o.LabelIf(c.Unknown > 0, "unknown keys in the file")
	o.LabelIf(nested > 0, "nested")
	o.LabelIf(supported < len(ls), "unsupported or unexported fields")
	o.LabelIf(len(c.Noise) > 0, "near-miss variables")
	o.LabelIf(c.Type.Kind != "struct", "hand-written type")
	o.Nontrivial = supported > 2 && several > 0
	if id == "C17" {
		o.Nontrivial = supported > 2 && nested > 0
	}
	return
}

func keys(m map[string]bool) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

func TestC16(t *testing.T) {
	pbt.Run(t, "C16", pbt.Part[loading]{
		Name: "precedence", Modes: "plain", Quick: 5000, Deep: 150000,
		Rule: "a struct type built from a generated description (up to 24 fields, 4 levels, pointers, embedded structs, yaml keys, unsupported and unexported fields) or hand-written; per field a subset of {value before, file, environment, flag} with generated values and spellings; file sections null, empty, partial or missing; every field compared with the strongest source; non-trivial: more than 2 supported fields, one of them with several sources",
		Gen:  genLoading(true), Run: func(c loading) pbt.Outcome { return c.run("C16") },
	})
}

func TestC17(t *testing.T) {
	pbt.Run(t, "C17", pbt.Part[loading]{
		Name: "names", Modes: "plain", Quick: 5000, Deep: 150000,
		Rule: "types as for C16; the set of registered flags must equal the set derived by an independent naming function, flags and variables given by that name must reach their field and no other, near-miss variables nothing; non-trivial: more than 2 supported fields, one nested",
		Gen:  genLoading(false), Run: func(c loading) pbt.Outcome { return c.run("C17") },
	})
}
