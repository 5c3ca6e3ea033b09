package conf

import (
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/confkey"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/sirupsen/logrus"
)

type target struct {
	Str      string        `confkey:"str" default:"hello"`
	Title    string        `confkey:"title" type:"title_string" default:"action_policy"`
	Path     string        `confkey:"path" type:"path_string"`
	Enum     string        `confkey:"enum" validate:"enum=debug,info,warn" default:"info"`
	Short    string        `confkey:"short" validate:"maxlength=5"`
	Safe     string        `confkey:"safe" validate:"shellsafe"`
	Int      int           `confkey:"int" default:"12"`
	Dur      time.Duration `confkey:"dur" type:"duration" default:"1h"`
	Bool     bool          `confkey:"bool" default:"true"`
	Comma    []string      `confkey:"comma" type:"comma_split"`
	Colon    []string      `confkey:"colon" type:"colon_split"`
	PathList []string      `confkey:"pathlist" type:"path_split"`
	List     []string      `confkey:"list"`
	Env      string        `confkey:"env" environment:"VERIF_CONF_ENV"`
	EnvList  []string      `confkey:"envlist" type:"comma_split" environment:"VERIF_CONF_ENVLIST" default:"a,b"`
	EnvInt   int           `confkey:"envint" environment:"VERIF_CONF_ENVINT" default:"3"`
	Untagged string
}

func trimAll(v []string) []string {
	out := []string{}
	for _, s := range v {
		out = append(out, strings.TrimSpace(s))
	}
	return out
}

// refDuration is the documented duration language
func refDuration(s string) (time.Duration, bool) {
	if regexp.MustCompile(`^[0-9]+$`).MatchString(s) {
		i, err := strconv.Atoi(s)
		return time.Duration(i) * time.Second, err == nil
	}
	s = strings.TrimSpace(s)
	if s == "" {
		return 0, true
	}
	u := s[len(s)-1]
	hours := map[byte]float64{'w': 24 * 7, 'W': 24 * 7, 'd': 24, 'D': 24, 'M': 24 * 30, 'y': 24 * 365, 'Y': 24 * 365}
	if h, ok := hours[u]; ok {
		f, err := strconv.ParseFloat(s[:len(s)-1], 64)
		if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
			return 0, false
		}
		return time.Duration(f*h) * time.Hour, true
	}
	if !strings.ContainsRune("sSmhH", rune(u)) {
		return 0, false
	}
	d, err := time.ParseDuration(s)
	return d, err == nil
}

func refBool(s string) (bool, bool) {
	switch strings.ToLower(strings.TrimSpace(s)) {
	case "1", "yes", "true", "y", "t":
		return true, true
	case "0", "no", "false", "n", "f":
		return false, true
	}
	return false, false
}

// ref is the meaning of writing value to a field with these tags that holds cur, ok says it is acceptable
func ref(tag reflect.StructTag, cur any, value string) (want any, ok bool) {
	typ := tag.Get("type")
	ok = true
	switch c := cur.(type) {
	case []string:
		switch typ {
		case "comma_split":
			want = trimAll(strings.Split(value, ","))
		case "colon_split", "path_split":
			want = append(append([]string{}, c...), trimAll(strings.Split(value, ":"))...)
		default:
			want = append(append([]string{}, c...), strings.TrimSpace(value))
		}
	case int:
		i, err := strconv.Atoi(value)
		if err != nil {
			return cur, false
		}
		want = i
	case time.Duration:
		d, dok := refDuration(value)
		if !dok {
			return cur, false
		}
		want = d
	case bool:
		// anything that is not a true word is false, existing tests pin that
		b, _ := refBool(value)
		want = b
	case string:
		s := value
		switch typ {
		case "title_string":
			if r := []rune(s); len(r) > 0 {
				s = strings.ToUpper(string(r[:1])) + string(r[1:])
			}
		case "path_string":
			s = strings.TrimSpace(s)
			if strings.HasPrefix(s, "~") {
				s = os.Getenv("HOME") + s[1:]
			}
		}
		want = s
		v := tag.Get("validate")
		switch {
		case strings.HasPrefix(v, "enum="):
			ok = false
			for _, e := range strings.Split(strings.TrimPrefix(v, "enum="), ",") {
				if e == s {
					ok = true
				}
			}
		case strings.HasPrefix(v, "maxlength="):
			n, _ := strconv.Atoi(strings.TrimPrefix(v, "maxlength="))
			ok = len(s) <= n
		case v == "shellsafe":
			ok = !regexp.MustCompile("[`$;|><]|&&").MatchString(s)
		}
	}
	return want, ok
}

var plainValues = map[string][]string{
	"string":   {"a", "foo", "foo bar", "Ünïcode ✓", "x=y", "a = b", "#not a comment", "/a/b", "~/x", "a,b", "1", "\"quoted\"", "$HOME", "%s%d", "x # y", "éa", "~"},
	"int":      {"0", "1", "-1", "4222", "2147483647", "-5000"},
	"duration": {"1", "0", "10", "3600", "10s", "1h", "1m", "90m", "1d", "2w", "1M", "1y", "1Y", "3D", "1h30m", "1.5h"},
	"bool":     {"1", "0", "true", "false", "yes", "no", "y", "n", "t", "f", "TRUE", "No", "Yes", "F"},
	"list":     {"a", "a,b", "a, b ,c", "a:b", "/a:/b", "x y", "a,b,c,d,e,f", "nats://h:4222, nats://g:4222"},
}

var hostile = []string{"", " ", "\x00", "=", "~", "~~", "nan", "NaNd", "infw", "1e400y", "d", "M", "99999999999999999999", "9223372036854775807", "1.2", "0x10", "1_000", "truee", "ye", "maybe", "2", "-", "+1", ",", ",,", ":", "::", "\xff\xfe", "🎉", "ß", "ǆ", "a;b", "a&&b", "a|b", "debug", "Debug", "info ", "toolong", "12345", "123456", strings.Repeat("x", 70000), "5h5", "h", "-5m", "1 d", "10ms", "ms", "10us"}

func kindOf(v any) string {
	switch v.(type) {
	case []string:
		return "list"
	case int:
		return "int"
	case time.Duration:
		return "duration"
	case bool:
		return "bool"
	}
	return "string"
}

func genValue(rnd *rand.Rand, tag reflect.StructTag, cur any) string {
	if v := tag.Get("validate"); strings.HasPrefix(v, "enum=") {
		return verifkit.Pick(rnd, strings.Split(strings.TrimPrefix(v, "enum="), ","))
	}
	return verifkit.Pick(rnd, plainValues[kindOf(cur)])
}

func same(a, b any) bool {
	la, ok1 := a.([]string)
	lb, ok2 := b.([]string)
	if ok1 && ok2 && len(la) == 0 && len(lb) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// TestC25Assign assigns any value to any kind of setting
func TestC25Assign(t *testing.T) {
	rec := verifkit.New(t, "C25", "assigning any text to a setting of any type stores the value written or reports an error, touches no other setting, and never crashes; declared environment overrides win")
	rnd := verifkit.Rand("c25-assign")
	for _, k := range []string{"VERIF_CONF_ENV", "VERIF_CONF_ENVLIST", "VERIF_CONF_ENVINT"} {
		os.Unsetenv(k)
	}
	typ := reflect.TypeOf(target{})

	one := func(tgt *target, key string, value string) {
		val := reflect.ValueOf(tgt).Elem()
		before := *tgt
		var fld reflect.StructField
		for i := 0; i < typ.NumField(); i++ {
			if typ.Field(i).Tag.Get("confkey") == key {
				fld = typ.Field(i)
			}
		}
		cur := val.FieldByName(fld.Name).Interface()
		eff := value
		if e := fld.Tag.Get("environment"); e != "" {
			if v, ok := os.LookupEnv(e); ok {
				eff = v
				rec.Count("overridden", 1)
			}
		}
		want, ok := ref(fld.Tag, cur, eff)
		var err error
		if !rec.NoPanic("assign", fmt.Sprintf("%s=%.80q", key, value), func() { err = confkey.SetStructFieldWithKey(tgt, key, value) }) {
			return
		}
		got := val.FieldByName(fld.Name).Interface()
		rec.Case(true, fmt.Sprintf("%s=%.60q cur %.60v", key, eff, cur))
		extreme := key == "dur" && regexp.MustCompile(`(?i)^\s*[-+]?(nan|inf|infinity|.*e[0-9]+|[0-9]{11,})[a-z]*$`).MatchString(eff)
		if extreme {
			rec.Count("extreme durations", 1)
			return
		}
		if ok && err != nil {
			rec.Violation("valid-rejected", "%s = %.100q is valid but: %v", key, eff, err)
		}
		if !ok && err == nil {
			rec.Violation("invalid-accepted", "%s = %.100q is not valid for %v but was accepted, the setting is now %.100v", key, eff, fld.Tag, got)
		}
		if !ok {
			rec.Count("rejected", 1)
		} else {
			rec.Count("accepted", 1)
		}
		if ok && !same(got, want) {
			rec.Violation("value", "%s = %.100q stored %.100q, expected %.100q", key, eff, fmt.Sprint(got), fmt.Sprint(want))
		}
		if !ok && kindOf(cur) != "string" && !same(got, cur) {
			rec.Violation("invalid-used", "%s = %.100q is not valid yet the setting changed from %v to %v", key, eff, cur, got)
		}
		after := *tgt
		reflect.ValueOf(&after).Elem().FieldByName(fld.Name).Set(reflect.ValueOf(&before).Elem().FieldByName(fld.Name))
		if !reflect.DeepEqual(after, before) {
			rec.Violation("other-setting", "setting %s changed other settings: %+v to %+v", key, before, after)
		}
		// readers agree
		switch g := got.(type) {
		case string:
			rec.Check(confkey.StringFieldWithKey(tgt, key) == g, "reader", "string reader of %s", key)
		case []string:
			rec.Check(same(confkey.StringListWithKey(tgt, key), g), "reader", "list reader of %s", key)
		case int:
			rec.Check(confkey.IntWithKey(tgt, key) == g, "reader", "int reader of %s", key)
		case time.Duration:
			rec.Check(confkey.Int64WithKey(&struct {
				D int64 `confkey:"d"`
			}{int64(g)}, "d") == int64(g), "reader", "int64 reader")
		case bool:
			rec.Check(confkey.BoolWithKey(tgt, key) == g, "reader", "bool reader of %s", key)
		}
		if v, found := confkey.InterfaceWithKey(tgt, key); !found || !same(v, got) {
			rec.Violation("reader", "reading %s gave %v, %v", key, v, found)
		}
	}

	var keys []string
	for i := 0; i < typ.NumField(); i++ {
		if k := typ.Field(i).Tag.Get("confkey"); k != "" {
			keys = append(keys, k)
		}
	}

	// defaults
	tgt := &target{}
	if err := confkey.SetStructDefaults(tgt); err != nil {
		rec.Violation("defaults", "%v", err)
	}
	want := target{Str: "hello", Title: "Action_policy", Enum: "info", Int: 12, Dur: time.Hour, Bool: true, EnvList: []string{"a", "b"}, EnvInt: 3}
	if !reflect.DeepEqual(*tgt, want) {
		rec.Violation("defaults", "got %+v want %+v", *tgt, want)
	}

	// every hostile and plain value on every setting
	var all []string
	all = append(all, hostile...)
	for _, l := range plainValues {
		all = append(all, l...)
	}
	for _, k := range keys {
		for _, v := range all {
			fresh := &target{}
			confkey.SetStructDefaults(fresh)
			one(fresh, k, v)
		}
	}

	// histories of assignments, with the environment coming and going
	for i := 0; i < verifkit.N(300, 5000); i++ {
		tgt := &target{}
		confkey.SetStructDefaults(tgt)
		for j := 0; j < 12; j++ {
			switch rnd.Intn(8) {
			case 0:
				os.Setenv("VERIF_CONF_ENV", verifkit.Pick(rnd, all[:20]))
			case 1:
				os.Unsetenv("VERIF_CONF_ENV")
			case 2:
				os.Setenv("VERIF_CONF_ENVINT", verifkit.Pick(rnd, []string{"9", "x", "", "-2"}))
			case 3:
				os.Unsetenv("VERIF_CONF_ENVINT")
				os.Unsetenv("VERIF_CONF_ENVLIST")
			case 4:
				os.Setenv("VERIF_CONF_ENVLIST", verifkit.Pick(rnd, []string{"q", "q, r", ""}))
			}
			one(tgt, verifkit.Pick(rnd, keys), verifkit.Pick(rnd, all))
		}
	}
	for _, k := range []string{"VERIF_CONF_ENV", "VERIF_CONF_ENVLIST", "VERIF_CONF_ENVINT"} {
		os.Unsetenv(k)
	}
	if err := confkey.SetStructFieldWithKey(tgt, "nosuch", "x"); err == nil {
		rec.Violation("unknown-key", "assigning an unknown key did not fail")
	}
	rec.Require("accepted", 500)
	rec.Require("rejected", 200)
	rec.Require("overridden", 20)
}

type setting struct {
	field  reflect.StructField
	choria bool
}

func settings() map[string]setting {
	out := map[string]setting{}
	for i, typ := range []reflect.Type{reflect.TypeOf(config.Config{}), reflect.TypeOf(config.ChoriaPluginConfig{})} {
		for j := 0; j < typ.NumField(); j++ {
			if k := typ.Field(j).Tag.Get("confkey"); k != "" {
				out[k] = setting{typ.Field(j), i == 1}
			}
		}
	}
	return out
}

func get(c *config.Config, s setting) any {
	if s.choria {
		return reflect.ValueOf(c.Choria).Elem().FieldByName(s.field.Name).Interface()
	}
	return reflect.ValueOf(c).Elem().FieldByName(s.field.Name).Interface()
}

// TestC25Files loads generated configuration trees
func TestC25Files(t *testing.T) {
	rec := verifkit.New(t, "C25", "loading a generated tree of main, plugin.d and project files gives every published setting the value of its last writer, its documented default when unwritten, its environment override where declared, and keeps all raw options verbatim")
	rnd := verifkit.Rand("c25-files")
	logrus.SetOutput(io.Discard)

	all := settings()
	var keys []string
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	// the published settings and documented defaults
	for k, d := range documentedDefaults {
		s, ok := all[k]
		if !ok {
			rec.Violation("setting-lost", "the setting %s is not recognised anymore", k)
			continue
		}
		got, has := s.field.Tag.Lookup("default")
		if (d == "*") == has || (d != "*" && d != got) {
			rec.Violation("default-changed", "%s defaults to %q (%v), documented is %q", k, got, has, d)
		}
	}

	zero := func(s setting) any { return reflect.Zero(s.field.Type).Interface() }
	home := t.TempDir()
	t.Setenv("HOME", home)
	for _, e := range []string{"CHORIA_SRV_DOMAIN", "CHORIA_FED_COLLECTIVE", "MCOLLECTIVE_NATS_USERNAME", "MCOLLECTIVE_NATS_PASSWORD", "MCOLLECTIVE_NATS_CREDENTIALS", "CHORIA_REGISTRY"} {
		t.Setenv(e, "x")
		os.Unsetenv(e)
	}

	for i := 0; i < verifkit.N(250, 3000); i++ {
		dir := t.TempDir()
		os.MkdirAll(filepath.Join(dir, "plugin.d"), 0700)
		proj := filepath.Join(dir, "proj", "sub")
		os.MkdirAll(proj, 0700)

		env := map[string]string{}
		if rnd.Intn(2) == 0 {
			for k, v := range map[string]string{"CHORIA_SRV_DOMAIN": "srv.example.net", "CHORIA_FED_COLLECTIVE": "f1, f2", "MCOLLECTIVE_NATS_USERNAME": "bob", "MCOLLECTIVE_NATS_PASSWORD": "s3cret", "MCOLLECTIVE_NATS_CREDENTIALS": "/c", "CHORIA_REGISTRY": "~/reg"} {
				if rnd.Intn(2) == 0 {
					env[k] = v
				}
			}
		}

		cur := map[string]any{}
		for k, s := range all {
			cur[k] = zero(s)
		}
		apply := func(k, v string) {
			if e := all[k].field.Tag.Get("environment"); e != "" {
				if ev, ok := env[e]; ok {
					v = ev
					rec.Count("environment overrides", 1)
				}
			}
			w, ok := ref(all[k].field.Tag, cur[k], v)
			if ok {
				cur[k] = w
			}
		}
		for k, s := range all {
			if d, ok := s.field.Tag.Lookup("default"); ok {
				apply(k, d)
			}
		}
		raw := map[string]string{}
		odd := []string{"plugin.my.setting", "custom", "plugin.choria.nosuch", "a b", "plugin.x.y-z_1", "Loglevel", "machine.sÿstem"}

		skip := map[string]bool{"plugin.security.server_anon_tls": true, "plugin.security.client_anon_tls": true}
		var written []string
		write := func(path string, n int, prefix string, projectFile bool, only func(string) bool) {
			var b strings.Builder
			for j := 0; j < n; j++ {
				switch rnd.Intn(12) {
				case 0:
					b.WriteString("\n")
					continue
				case 1:
					fmt.Fprintf(&b, "# %s = commented\n", verifkit.Pick(rnd, keys))
					continue
				case 2:
					b.WriteString(verifkit.Pick(rnd, []string{"novalue\n", "novalue =\n", "   \t \n", "  # indented = comment\n"}))
					continue
				case 3:
					k, v := verifkit.Pick(rnd, odd), verifkit.Pick(rnd, plainValues["string"])
					fmt.Fprintf(&b, "%s = %s\n", k, v)
					raw[prefix+k] = v
					continue
				}
				k := verifkit.Pick(rnd, keys)
				if rnd.Intn(3) == 0 && len(written) > 0 {
					k = verifkit.Pick(rnd, written)
				}
				if skip[k] || !only(k) {
					continue
				}
				v := genValue(rnd, all[k].field.Tag, zero(all[k]))
				if strings.HasPrefix(v, "#") && rnd.Intn(2) == 0 {
					v = "x"
				}
				written = append(written, k)
				short := strings.TrimPrefix(k, prefix)
				pad := func() string { return verifkit.Pick(rnd, []string{"", " ", "  ", "\t"}) }
				eol := verifkit.Pick(rnd, []string{"\n", "\n", "\n", "\r\n", " \n"})
				sep := pad() + "=" + pad()
				if strings.HasPrefix(v, "=") {
					sep = " = "
				}
				fmt.Fprintf(&b, "%s%s%s%s%s", pad(), short, sep, v, eol)
				raw[k] = v
				apply(k, v)
				rec.Count("settings written", 1)
			}
			if err := os.WriteFile(path, []byte(b.String()), 0600); err != nil {
				t.Fatal(err)
			}
		}

		any := func(string) bool { return true }
		main := filepath.Join(dir, "server.conf")
		write(main, rnd.Intn(40)+1, "", false, any)

		// plugin.d files are applied in name order, only choria.cfg holds typed settings
		name := verifkit.Pick(rnd, []string{"choria", "package", ""})
		if name != "" {
			prefix := "plugin." + name + "."
			if name == "choria" {
				write(filepath.Join(dir, "plugin.d", "choria.cfg"), rnd.Intn(15), prefix, false, func(k string) bool { return all[k].choria && strings.HasPrefix(k, prefix) })
			} else {
				write(filepath.Join(dir, "plugin.d", "package.cfg"), rnd.Intn(15), prefix, false, func(k string) bool { return false })
			}
			os.WriteFile(filepath.Join(dir, "plugin.d", "ignored.txt"), []byte("x = y\nloglevel=error\n"), 0600)
		}

		projects := rnd.Intn(2) == 0
		if projects {
			if rnd.Intn(2) == 0 {
				write(filepath.Join(dir, "proj", "choria.conf"), rnd.Intn(12), "", true, any)
			}
			write(filepath.Join(proj, "choria.conf"), rnd.Intn(12), "", true, any)
			t.Chdir(proj)
		} else {
			os.WriteFile(filepath.Join(proj, "choria.conf"), []byte("identity = wrong\nplugin.choria.server.provision=1\n"), 0600)
			t.Chdir(proj)
		}

		for k, v := range env {
			os.Setenv(k, v)
		}
		var cfg *config.Config
		var err error
		ok := rec.NoPanic("load", main, func() {
			if projects {
				cfg, err = config.NewConfig(main)
			} else {
				cfg, err = config.NewSystemConfig(main, true)
			}
		})
		for k := range env {
			os.Unsetenv(k)
		}
		if !ok {
			continue
		}
		contents, _ := os.ReadFile(main)
		if err != nil {
			rec.Violation("load-failed", "%v\n%s", err, contents)
			continue
		}
		rec.Case(true, string(contents))

		// derived settings
		if l := cur["collectives"].([]string); len(l) == 0 {
			if cur["plugin.security.provider"] == "choria" {
				cur["collectives"] = []string{"choria"}
			} else {
				cur["collectives"] = []string{"mcollective"}
			}
		}
		if cur["main_collective"] == "" {
			cur["main_collective"] = cur["collectives"].([]string)[0]
		}
		if cur["registration_collective"] == "" {
			cur["registration_collective"] = cur["main_collective"]
		}
		if cur["identity"] == "" {
			delete(cur, "identity")
			rec.Check(cfg.Identity != "" && (projects || cfg.Identity != "wrong"), "identity", "identity is %q", cfg.Identity)
		}
		for k, want := range cur {
			got := get(cfg, all[k])
			if !same(got, want) {
				rec.Violation("setting", "%s is %#v, expected %#v (projects %v, environment %v)\nmain file:\n%s", k, got, want, projects, env, contents)
			}
		}
		for k, v := range raw {
			if !cfg.HasOption(k) || cfg.Option(k, "nope") != v {
				rec.Violation("raw-option", "option %s is %q, expected %q\n%s", k, cfg.Option(k, "nope"), v, contents)
			}
		}
		for k := range cfg.UnParsedOptions() {
			if _, ok := raw[k]; !ok {
				rec.Violation("raw-option", "option %q appeared from nowhere\n%s", k, contents)
			}
		}
		if cfg.HasOption("plugin.never.set") || cfg.Option("plugin.never.set", "dflt") != "dflt" {
			rec.Violation("raw-option", "an unset option is present")
		}
		cfg.SetOption("plugin.never.set", "now")
		rec.Check(cfg.HasOption("plugin.never.set") && cfg.Option("plugin.never.set", "dflt") == "now", "raw-option", "an option set later is not seen")
		rec.Check(cfg.ConfigFile == main && cfg.InitiatedByServer == !projects, "config-file", "%s %v", cfg.ConfigFile, cfg.InitiatedByServer)
	}

	// anonymous TLS combinations are only accepted with a signer and always derive the rest
	for i := 0; i < 32; i++ {
		bit := func(n int) bool { return i>>n&1 == 1 }
		dir := t.TempDir()
		f := filepath.Join(dir, "x.conf")
		txt := fmt.Sprintf("identity=x\nplugin.security.client_anon_tls=%v\nplugin.security.server_anon_tls=%v\n", bit(0), bit(1))
		if bit(2) {
			txt += "plugin.choria.security.request_signer.url = https://x\n"
		}
		if bit(3) {
			txt += "plugin.choria.security.request_signer.service = true\n"
		}
		if bit(4) {
			txt += "plugin.choria.security.server.token_file = /t\nplugin.choria.security.server.seed_file = /s\n"
		}
		os.WriteFile(f, []byte(txt), 0600)
		t.Chdir(dir)
		cfg, err := config.NewSystemConfig(f, true)
		rec.Case(true, txt)
		if bit(0) && !bit(2) && !bit(3) {
			rec.Check(err != nil, "anon-tls", "anonymous TLS without a signer was accepted: %s", txt)
			continue
		}
		if err != nil {
			rec.Violation("anon-tls", "%v: %s", err, txt)
			continue
		}
		rec.Check(cfg.DisableTLSVerify == (bit(0) || bit(1)) && cfg.DisableSecurityProviderVerify == (bit(0) || bit(1)) && !cfg.DisableTLS, "anon-tls", "verification is %v %v for %s", cfg.DisableTLSVerify, cfg.DisableSecurityProviderVerify, txt)
		tf, sf := "", ""
		if bit(4) {
			tf, sf = "/t", "/s"
		} else if bit(1) {
			tf, sf = filepath.Join(dir, "server.jwt"), filepath.Join(dir, "server.seed")
		}
		rec.Check(cfg.Choria.ServerTokenFile == tf && cfg.Choria.ServerTokenSeedFile == sf, "anon-tls", "token files are %q %q for %s", cfg.Choria.ServerTokenFile, cfg.Choria.ServerTokenSeedFile, txt)
	}
	rec.Require("settings written", 2000)
	rec.Require("environment overrides", 50)
}

// TestC25Hostile loads any bytes
func TestC25Hostile(t *testing.T) {
	rec := verifkit.New(t, "C25", "loading any bytes as configuration never crashes and never loses settings around hostile lines without an error")
	rnd := verifkit.Rand("c25-hostile")
	logrus.SetOutput(io.Discard)
	t.Setenv("HOME", t.TempDir())
	dir := t.TempDir()
	t.Chdir(dir)
	all := settings()
	var keys []string
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)

	for i := 0; i < verifkit.N(600, 8000); i++ {
		var b strings.Builder
		b.WriteString("identity = first\nplugin.before = 1\n")
		for j := 0; j < rnd.Intn(12); j++ {
			switch rnd.Intn(5) {
			case 0:
				buf := make([]byte, rnd.Intn(200))
				rnd.Read(buf)
				b.Write(buf)
			case 1:
				b.WriteString(strings.Repeat(verifkit.Pick(rnd, []string{"x", "=", "a=b ", "\x00", "é"}), verifkit.Pick(rnd, []int{1, 100, 4096, 65535, 65536, 70000, 200000})))
			default:
				k := verifkit.Pick(rnd, keys)
				if k == "plugin.security.client_anon_tls" || k == "identity" {
					k = "ttl"
				}
				fmt.Fprintf(&b, "%s = %s", k, verifkit.Pick(rnd, hostile))
			}
			b.WriteString("\n")
		}
		b.WriteString("\nidentity = last\nplugin.after = 2\n")
		f := filepath.Join(dir, "h.conf")
		os.WriteFile(f, []byte(b.String()), 0600)
		var cfg *config.Config
		var err error
		os.Setenv("CHORIA_REGISTRY", verifkit.Pick(rnd, []string{"", " ", "~", "/x"}))
		ok := rec.NoPanic("hostile", fmt.Sprintf("%.2000q", b.String()), func() { cfg, err = config.NewSystemConfig(f, true) })
		os.Unsetenv("CHORIA_REGISTRY")
		if !ok {
			continue
		}
		rec.Case(true, fmt.Sprintf("%d %.300q", b.Len(), b.String()))
		if err != nil {
			rec.Count("refused", 1)
			continue
		}
		rec.Count("loaded", 1)
		if cfg.Identity != "last" || cfg.Option("plugin.after", "") != "2" || cfg.Option("plugin.before", "") != "1" {
			rec.Violation("settings-lost", "settings around hostile lines are %q %q %q: %.1500q", cfg.Identity, cfg.Option("plugin.before", ""), cfg.Option("plugin.after", ""), b.String())
		}
	}
	rec.Require("loaded", 300)
	if _, err := config.NewSystemConfig(filepath.Join(dir, "missing"), true); err == nil {
		rec.Violation("missing-file", "a missing configuration file was accepted")
	}
	if err := confkey.Validate(&target{Enum: "bogus", Short: "x"}); err == nil {
		rec.Violation("validate", "validation accepted a value outside its enumeration")
	}
	if err := confkey.Validate(&target{Enum: "info", Short: "x"}); err != nil {
		rec.Violation("validate", "%v", err)
	}
}
