package conf

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/conf"
	"pgregory.net/rapid"
)

// A program that loads its configuration and then says so. Run as a child
// process with the real environment and arguments.
const childVar = "GEARSVERIF_CONF_CHILD"

func init() {
	f := os.Getenv(childVar)
	if f == "" {
		return
	}
	os.Unsetenv(childVar)
	var c struct {
		Type     node
		YamlFlag string
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	flag.CommandLine = flag.NewFlagSet(os.Args[0], flag.ExitOnError)
	p := reflect.New(c.Type.typ())
	conf.Load(p.Interface(), c.YamlFlag)
	fmt.Println("LOADED")
	os.Exit(0)
}

// bad is one thing wrong with the input.
type bad struct {
	What string // env flag unknownflag missingfile baddoc yamltype
	Leaf int    `json:",omitempty"`
	Text string `json:",omitempty"`
}

type rejecting struct {
	Good loading
	Bad  []bad
	Tail bool // bad flags after the good ones
	Pad  int  `json:",omitempty"` // bytes of comments before a malformed document
}

func badText(t *rapid.T, l leaf) string {
	ints := []string{"", "abc", "1.5", "1e3", " 1", "1 ", "0x", "--1", "1,000", "9223372036854775808", "-9223372036854775809", "１"}
	switch {
	case l.dur:
		return rapid.SampledFrom([]string{"", "1", "-5", "5 s", "abc", "1d", "1h-5m", "s", "9223372037s", "1.2.3s"}).Draw(t, "text")
	case l.kind == reflect.Bool:
		return rapid.SampledFrom([]string{"", "yes", "no", "on", "2", "-1", "tru", "tRUE", " true", "true ", "null"}).Draw(t, "text")
	case l.kind == reflect.Float64:
		return rapid.SampledFrom([]string{"", "abc", "1,5", "1.2.3", "1e", "1e999", "-1e999", " 1", "0x1"}).Draw(t, "text")
	case l.kind == reflect.Uint || l.kind == reflect.Uint64:
		return rapid.SampledFrom([]string{"", "abc", "-1", "1.5", "-0", " 1", "18446744073709551616", "1e3"}).Draw(t, "text")
	default:
		return rapid.SampledFrom(ints).Draw(t, "text")
	}
}

// yamlBad is something the file may hold that the field cannot.
func yamlBad(t *rapid.T, l leaf) string {
	always := []string{"[1, 2]", "{a: 1}", "[]", "{}"}
	switch {
	case l.dur:
		always = append(always, `"5 s"`, "abc", "1d", "[1s]")
	case l.kind == reflect.Bool:
		always = append(always, "abc", "7", `"x"`)
	case l.kind == reflect.Float64:
		always = append(always, "abc", "true", `"x y"`)
	case l.kind == reflect.Uint, l.kind == reflect.Uint64:
		always = append(always, "abc", "true", `"x y"`, "-1", "-9223372036854775808")
	case l.kind == reflect.String:
	default:
		always = append(always, "abc", "true", `"x y"`, "9223372036854775808", "18446744073709551615")
	}
	return rapid.SampledFrom(always).Draw(t, "yaml")
}

func genRejecting(t *rapid.T) rejecting {
	c := rejecting{Good: genLoading(true)(t), Tail: rapid.Bool().Draw(t, "tail")}
	ls := leaves(c.Good.Type.typ())
	var strict, any []int // leaves with values that are wrong for them
	for i, l := range ls {
		if l.set {
			any = append(any, i)
			if l.kind != reflect.String {
				strict = append(strict, i)
			}
		}
	}
	kinds := []string{"unknownflag"}
	if len(strict) > 0 {
		kinds = append(kinds, "env", "env", "flag", "flag")
	}
	if c.Good.YamlFlag != "" {
		kinds = append(kinds, "missingfile", "baddoc", "yamltype", "yamltype")
	}
	n := rapid.SampledFrom([]int{0, 1, 1, 1, 1, 1, 2, 2, 3, 4}).Draw(t, "wrong")
	for i := 0; i < n; i++ {
		b := bad{What: rapid.SampledFrom(kinds).Draw(t, "what")}
		switch b.What {
		case "env", "flag":
			b.Leaf = strict[rapid.IntRange(0, len(strict)-1).Draw(t, "leaf")]
			b.Text = badText(t, ls[b.Leaf])
		case "unknownflag":
			l := ls[any[rapid.IntRange(0, len(any)-1).Draw(t, "leaf")]]
			b.Text = rapid.SampledFrom([]string{"-no-such-flag", "--nope=1", "-" + l.flag() + "x", "-" + l.flag() + "-", "-" + strings.ToUpper(l.flag()) + "_", "---x", "-=1", "-" + l.env() + "__"}).Draw(t, "unknown")
		case "missingfile":
			b.Text = rapid.SampledFrom([]string{"no-such-file.yaml", "no/such/dir.yaml", ".", "bad\x01name"}).Draw(t, "file")
		case "baddoc":
			b.Text = rapid.SampledFrom([]string{"a: [", "a: b: c\n", "\tx: 1\n", "- x\n- y\n", "x", "{a: 1", "\"unterminated", "a: 'x\n", "%YAML 9.9\n---\n", "a: &x *y", "a: \x01\n", "\xff\xfe\xfd", "42", "? [", "a: 1\na: 2\n"}).Draw(t, "doc")
			c.Pad = genPad(t)
		case "yamltype":
			b.Leaf = any[rapid.IntRange(0, len(any)-1).Draw(t, "leaf")]
			b.Text = yamlBad(t, ls[b.Leaf])
		}
		c.Bad = append(c.Bad, b)
		if b.What == "missingfile" || b.What == "baddoc" || b.What == "yamltype" {
			// one thing wrong with the file is enough, or several fields
			kinds = []string{"unknownflag"}
			if b.What == "yamltype" {
				kinds = append(kinds, "yamltype", "yamltype", "yamltype")
			}
			if len(strict) > 0 {
				kinds = append(kinds, "env", "flag")
			}
		}
	}
	return c
}

func (c rejecting) run() (o pbt.Outcome) {
	g := c.Good
	ls := leaves(g.Type.typ())
	dir := scratchDir()
	env := []string{"PATH=" + os.Getenv("PATH")}
	var extra []string
	file := ""
	fileBad := false
	for i := range g.Leaves {
		// the good input of the leaf that gets a wrong one would shadow it
		for _, b := range c.Bad {
			if b.Leaf == i && b.What == "flag" {
				g.Leaves[i].Flag = nil
			}
		}
	}
	for _, b := range c.Bad {
		switch b.What {
		case "env":
			g.Leaves[b.Leaf].Env = &value{Text: b.Text}
		case "flag":
			if ls[b.Leaf].kind == reflect.Bool || len(b.Text)%2 == 0 {
				extra = append(extra, "-"+ls[b.Leaf].flag()+"="+b.Text)
			} else {
				extra = append(extra, "--"+ls[b.Leaf].flag(), b.Text)
			}
		case "unknownflag":
			extra = append(extra, b.Text)
		case "missingfile":
			file, fileBad = filepath.Join(dir, b.Text), true
		case "baddoc":
			file, fileBad = filepath.Join(dir, "bad.yaml"), true
			os.WriteFile(file, []byte(padding(c.Pad, "\n")+b.Text), 0o600)
		case "yamltype":
			fileBad = true
			g.YamlFile = true
			if len(g.Voids) == 0 {
				g.Voids = []string{"skip"}
			}
			g.Leaves[b.Leaf].Yaml = &value{Text: b.Text}
		}
	}
	if file != "" {
		g.YamlFile = false
		extra = append(extra, "-"+g.YamlFlag, file)
	}
	for i, a := range g.Leaves {
		if a.Env != nil {
			env = append(env, ls[i].env()+"="+a.Env.Text)
		}
	}
	for _, kv := range g.Noise {
		env = append(env, kv[0]+"="+kv[1])
	}
	rest := g.Rest
	g.Rest = nil
	args := g.args(ls)
	if c.Tail {
		args = append(args, extra...)
	} else {
		args = append(extra, args...)
	}
	args = append(args, rest...)

	typ := filepath.Join(dir, "type.json")
	b, _ := json.Marshal(map[string]any{"Type": g.Type, "YamlFlag": g.YamlFlag})
	os.WriteFile(typ, b, 0o600)
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(env, childVar+"="+typ)
	cmd.WaitDelay = time.Second
	out, err := cmd.CombinedOutput()
	text := string(out)
	loaded := strings.Contains(text, "LOADED")
	code := cmd.ProcessState.ExitCode()
	doc := ""
	if g.YamlFile {
		doc = g.yamlDoc(ls)
	}
	switch {
	case strings.Contains(text, "goroutine ") && strings.Contains(text, "panic"):
		o.Fail("panic: %.600s\nargs %q env %q file:\n%s", text, args, env, doc)
	case len(c.Bad) == 0 && (!loaded || code != 0):
		o.Fail("good input refused: status %d, output %.400q; args %q, env %q, file:\n%s", code, text, args, env, doc)
	case len(c.Bad) > 0 && loaded:
		o.Fail("bad input accepted: %+v; args %q, env %q, file:\n%s", c.Bad, args, env, doc)
	case len(c.Bad) > 0 && code == 0:
		o.Fail("status of the process: 0 with bad input %+v; args %q, env %q, file:\n%s", c.Bad, args, env, doc)
	case len(c.Bad) > 0 && strings.TrimSpace(text) == "":
		o.Fail("nothing reported: bad input %+v; args %q, env %q", c.Bad, args, env)
	}
	for _, b := range c.Bad {
		o.Label(b.What)
	}
	_ = fileBad
	o.LabelIf(len(c.Bad) == 0, "good input")
	o.Nontrivial = len(c.Bad) > 0
	return
}

func TestC18(t *testing.T) {
	pbt.Run(t, "C18", pbt.Part[rejecting]{
		Name: "processes", Modes: "plain", Quick: 400, Deep: 20000,
		Rule: "types and good input as for C16, plus up to 3 wrong things (values outside the type in environment, flag or file, malformed or missing file, unknown flag), in a child process; it must report something and exit with a status other than 0 without getting past Load, and with good input get past it; non-trivial: at least one wrong thing",
		Gen:  genRejecting, Run: func(c rejecting) pbt.Outcome { return c.run() },
	})
}
