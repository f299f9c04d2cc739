package confs

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"gearsverif/pbt"

	"github.com/chanjarster/gears/confs"
	"github.com/chanjarster/gears/skywalking"
	"pgregory.net/rapid"
)

var printables = map[string]func() fmt.Stringer{
	"MysqlConf":          func() fmt.Stringer { return &confs.MysqlConf{} },
	"PostgresqlConf":     func() fmt.Stringer { return &confs.PostgresqlConf{} },
	"OracleConf":         func() fmt.Stringer { return &confs.OracleConf{} },
	"RedisConf":          func() fmt.Stringer { return &confs.RedisConf{} },
	"EsConf":             func() fmt.Stringer { return &confs.EsConf{} },
	"PprofConf":          func() fmt.Stringer { return &confs.PprofConf{} },
	"FastHttpClientConf": func() fmt.Stringer { return &confs.FastHttpClientConf{} },
	"skywalking.Conf":    func() fmt.Stringer { return &skywalking.Conf{} },
}

var printableNames = []string{"MysqlConf", "PostgresqlConf", "OracleConf", "RedisConf", "EsConf", "PprofConf", "FastHttpClientConf", "skywalking.Conf"}

func secret(field string) bool { return field == "Username" || field == "Password" }

type printCase struct {
	Type   string
	Str    map[string]string // string fields
	Num    map[string]int64  // int, duration and bool fields
	Field  string            // field changed for the comparison
	NewStr string
	NewNum int64
	Common map[string]bool // secrets that are also (part of) something else that is printed
}

// text without what separates settings in the printed form
func genSetting(t *rapid.T, name string) string {
	switch rapid.IntRange(0, 5).Draw(t, name+" how") {
	case 2:
		if n := rapid.SampledFrom([]int{0, 0, 33, 65, 129, 257, 300, 1100, 5000}).Draw(t, name+" length"); n > 0 {
			return strings.Repeat(rapid.StringMatching(`[a-zA-Z0-9_./:%-]{1,12}`).Draw(t, name), n)[:n] + rapid.StringMatching(`[a-z]{1,4}`).Draw(t, name+" end")
		}
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"%s", "%!v(MISSING)", "%%", "***", "127.0.0.1", "nil", "主机", "a=b&c=d", "\x00", "\xff", "0", "5", "true", " x ", "a b"}).Draw(t, name)
	}
	return rapid.StringMatching(`[a-zA-Z0-9_./:%-]{1,12}`).Draw(t, name)
}

func genSecret(t *rapid.T, name string) string {
	tail := rapid.SampledFrom([]string{"", "%s", "%d%v", "*", "@:/", "密码", "\n", "\x00", "}", ", Host: h"}).Draw(t, name+" tail")
	return rapid.StringMatching(`#[a-z0-9]{7,12}`).Draw(t, name) + tail
}

func genPrint(t *rapid.T) printCase {
	c := printCase{Type: rapid.SampledFrom(printableNames).Draw(t, "type"), Str: map[string]string{}, Num: map[string]int64{}}
	typ := reflect.TypeOf(printables[c.Type]()).Elem()
	for i := 0; i < typ.NumField(); i++ {
		f := typ.Field(i)
		switch {
		case secret(f.Name):
			if rapid.IntRange(0, 9).Draw(t, f.Name+" set") > 0 {
				c.Str[f.Name] = genSecret(t, f.Name)
			}
		case f.Type.Kind() == reflect.String:
			c.Str[f.Name] = genSetting(t, f.Name)
		default:
			c.Num[f.Name] = genNum(t, f)
		}
	}
	for _, n := range []string{"Username", "Password"} {
		if c.Str[n] == "" || rapid.IntRange(0, 2).Draw(t, n+" common") > 0 {
			continue
		}
		texts := []string{"0", "1", "a", "e", "o", ":", ", ", "***", "false", "true", "Password", "Host"}
		for i := 0; i < typ.NumField(); i++ {
			name := typ.Field(i).Name
			v, isStr := c.Str[name]
			if secret(name) {
				continue
			}
			if !isStr {
				v = strconv.FormatInt(c.Num[name], 10)
			}
			if texts = append(texts, name); v != "" {
				texts = append(texts, v, v[:len(v)/2+1], v[len(v)/2:])
			}
		}
		c.Str[n] = rapid.SampledFrom(texts).Draw(t, n+" text")
		if c.Common == nil {
			c.Common = map[string]bool{}
		}
		c.Common[n] = true
	}
	f := typ.Field(rapid.IntRange(0, typ.NumField()-1).Draw(t, "changed"))
	c.Field = f.Name
	switch {
	case secret(f.Name):
		c.NewStr = genSecret(t, "new")
	case f.Type.Kind() == reflect.String:
		c.NewStr = genSetting(t, "new")
	default:
		c.NewNum = genNum(t, f)
	}
	return c
}

func genNum(t *rapid.T, f reflect.StructField) int64 {
	if f.Type.Kind() == reflect.Bool {
		return rapid.Int64Range(0, 1).Draw(t, f.Name)
	}
	if rapid.Bool().Draw(t, f.Name+" small") {
		return rapid.Int64Range(-3, 20).Draw(t, f.Name)
	}
	return rapid.Int64().Draw(t, f.Name)
}

func setField(s fmt.Stringer, name, str string, num int64) string {
	v := reflect.ValueOf(s).Elem().FieldByName(name)
	switch {
	case v.Kind() == reflect.String:
		v.SetString(str)
	case v.Kind() == reflect.Bool:
		v.SetBool(num != 0)
	default:
		v.SetInt(num)
	}
	return fmt.Sprint(v.Interface())
}

// shows: somewhere the setting's name is followed by its value.
func shows(out, name, value string) bool {
	re := regexp.MustCompile(`(^|[^A-Za-z0-9])` + name + `\s*[:=]`)
	for _, m := range re.FindAllStringIndex(out, -1) {
		rest := out[m[1]:]
		for _, r := range []string{rest, strings.TrimPrefix(rest, " "), strings.Trim(rest, `" `)} {
			if strings.HasPrefix(r, value) {
				tail := r[len(value):]
				if tail == "" || strings.ContainsAny(tail[:1], ",}\"; )]\n") {
					return true
				}
			}
		}
	}
	return false
}

func runPrint(c printCase) (o pbt.Outcome) {
	s := printables[c.Type]()
	values := map[string]string{}
	for n, v := range c.Str {
		values[n] = setField(s, n, v, 0)
	}
	for n, v := range c.Num {
		values[n] = setField(s, n, "", v)
	}
	out := s.String()
	for _, p := range []string{fmt.Sprint(s), fmt.Sprintf("%v", s), fmt.Sprintf("%s", s), fmt.Sprintf("%+v", s)} {
		if p != out {
			o.Fail("print: printing the configuration with fmt gives %q, String() %q", p, out)
		}
	}
	distinct := map[string]bool{}
	for n, v := range values {
		if secret(n) {
			if v != "" && !c.Common[n] && strings.Contains(out, v[:8]) {
				o.Fail("leak: %s of %s appears in %q", n, c.Type, out)
			}
			continue
		}
		distinct[v] = true
		if !shows(out, n, v) {
			o.Fail("setting: %s of %s is %q but the printed form is %q", n, c.Type, v, out)
		}
	}
	old := values[c.Field]
	now := setField(s, c.Field, c.NewStr, c.NewNum)
	out2 := s.String()
	switch {
	case secret(c.Field) && old != "" && now != "" && out != out2:
		o.Fail("leak: the printed form of %s depends on %s: %q, %q", c.Type, c.Field, out, out2)
	case !secret(c.Field) && old != now && out == out2:
		o.Fail("setting: changing %s of %s from %q to %q is not shown: %q", c.Field, c.Type, old, now, out)
	}
	o.Nontrivial = len(distinct) >= 3 && old != now
	o.Label(c.Type)
	o.LabelIf(secret(c.Field), "secret changed")
	o.LabelIf(len(c.Common) > 0, "secret occurs elsewhere")
	return
}

func TestC27(t *testing.T) {
	pbt.Run(t, "C27", pbt.Part[printCase]{
		Name:  "print",
		Rule:  "all fields of one of the eight printable configurations drawn independently, secrets from an alphabet that settings don't use, or (then the text itself is not searched for) equal to or part of other settings; every setting must follow its name, no secret (nor its first 8 characters) may appear, changing one field changes the text if and only if it is no secret. Non-trivial: 3 distinct setting values and a changed field.",
		Quick: 20000, Deep: 2000000,
		Gen: genPrint, Run: runPrint,
	})
}
