package deploy

import (
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	machineswatcher "github.com/choria-io/go-choria/aagent/watchers/machineswatcher"
	"github.com/choria-io/go-choria/aagent/watchers/pluginswatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/goccy/go-yaml"
)

// TestC17Managers offers good and bad specifications to the machines and plugins watchers
func TestC17Managers(t *testing.T) {
	rec := verifkit.New(t, "C17", "machines and plugins are managed exactly as the last verified specification said, a specification that does not verify changes nothing, and only those no longer specified are removed")
	for _, k := range []string{"deployed", "purged", "unchanged", "refused signature", "refused content", "not matching", "interrupted"} {
		rec.Require(k, 15)
	}
	r := verifkit.Rand("c17-managers")
	base := t.TempDir()
	for i := 0; i < verifkit.N(500, 6000); i++ {
		seed := r.Int63()
		if !rec.Within(120*time.Second, "managers", func() {
			dir, err := os.MkdirTemp(base, "")
			if err != nil {
				t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			synctest.Test(t, func(t *testing.T) { managers(rec, rand.New(rand.NewSource(seed)), dir) })
		}) {
			return
		}
	}
}

// managed is what is specified about one machine or plugin
type managed struct {
	Name     string `json:"name"`
	Source   string `json:"source"`
	Username string `json:"username,omitempty"`
	Password string `json:"password,omitempty"`
	Verify   string `json:"verify_checksum"`
	Checksum string `json:"checksum"`
	Match    string `json:"match,omitempty"`
	Governor string `json:"governor,omitempty"`
}

func genManaged(r *rand.Rand, name string) *managed {
	s := &managed{Name: name, Source: "https://example.net/" + name + ".tgz?a=1&b=" + fmt.Sprint(r.Intn(3)), Verify: sum([]byte(fmt.Sprint(r.Intn(3)))), Checksum: sum([]byte(fmt.Sprint(r.Intn(3))))}
	switch r.Intn(6) {
	case 0:
		s.Username, s.Password = "user", verifkit.Pick(r, []string{"plain", `qu"ote`, `back\slash`, "ünï # : {x}", "tab\tnl\n", `{{ lookup "data.pass" "x" }}`})
	case 1:
		s.Governor = "GOV"
	case 2:
		s.Match = "identity('^n1')"
	case 3:
		s.Match = "identity('^other') || has_directory('/nonexisting')"
	case 4:
		s.Match = "has_directory('/') && has_command('sh')"
	}
	return s
}

func (s *managed) matches() bool { return !strings.Contains(s.Match, "other") }

func managers(rec *verifkit.Rec, r *rand.Rand, root string) {
	plugins := r.Intn(2) == 0
	prefix := "mm"
	purge := r.Intn(2) == 0
	home := filepath.Join(root, "machines")
	content := home
	props := map[string]any{"data_item": "spec", "purge_unknown": purge}
	if plugins {
		if r.Intn(2) == 0 {
			prefix = "pm"
			props["manager_machine_prefix"] = prefix
		}
		if r.Intn(2) == 0 {
			content = filepath.Join(root, "plugins")
			props["plugins_directory"] = content
		}
	}
	m := newFM(filepath.Join(home, "manager"))
	pub, priv, _ := ed25519.GenerateKey(nil)
	_, evil, _ := ed25519.GenerateKey(nil)
	signed := r.Intn(3) > 0
	badkey := signed && r.Intn(10) == 0
	if signed {
		k := hex.EncodeToString(pub)
		if badkey {
			k = verifkit.Pick(r, []string{k[2:], "abcd", "zz", k + "00"})
		}
		if r.Intn(2) == 0 {
			props["public_key"] = k
		} else {
			m.signer = k
			if r.Intn(2) == 0 {
				// the key of the server takes precedence
				props["public_key"] = hex.EncodeToString(evil.Public().(ed25519.PublicKey))
			}
		}
	}
	// what has nothing to do with it
	fixed := tree{"machines/manager/machine.yaml": "self", "machines/other/machine.yaml": "other", "machines/" + prefix + "x_a/machine.yaml": "x", "machines/x_" + prefix + "_a/file": "y", "machines/" + prefix + "/file": "z", "machines/" + prefix + "_file": "not a directory", "plugins/other/file": "other", "outside/machine.yaml": "outside"}
	fixed.write(root)

	var wi any
	var err error
	if plugins {
		wi, err = pluginswatcher.New(m, "w", []string{"a"}, nil, "bad", "good", "", 0, props)
	} else {
		wi, err = machineswatcher.New(m, "w", []string{"a"}, nil, "bad", "good", "", 0, props)
	}
	if err != nil {
		rec.Violation("manager-refused", "%v: %v", props, err)
		return
	}
	m.state = "b"
	s := start(wi)
	synctest.Wait()
	names := []string{"a", "b_c", "plug-in", "ünï", "dotted.name", "x y"}
	current := map[string]*managed{} // what is managed
	held := map[string]string{}      // what managers placed
	hist := []string{fmt.Sprintf("plugins %v prefix %s purge %v signed %v badkey %v dirs %v", plugins, prefix, purge, signed, badkey, content != home)}
	key := func() string { return strings.Join(hist, "\n ") }
	var last map[string]*managed
	for step := 0; step < 3+r.Intn(8); step++ {
		desired := map[string]*managed{}
		if last != nil && r.Intn(4) == 0 {
			desired = last
		} else {
			for _, n := range names {
				if r.Intn(2) == 0 {
					if c, ok := current[n]; ok && c.Name != "" && r.Intn(2) == 0 {
						desired[n] = c
					} else {
						desired[n] = genManaged(r, n)
					}
				}
			}
		}
		list := []any{}
		var order []string
		for n := range desired {
			order = append(order, n)
		}
		sort.Strings(order)
		for _, n := range order {
			list = append(list, desired[n])
		}
		// what is wrong with it
		kind := verifkit.Pick(r, []string{"", "", "", "null", "not a list", "no name", "no source", "no checksum", "no verify", "path name", "dot name", "base64", "json", "item", "missing"})
		extra := *genManaged(r, "extra")
		switch kind {
		case "null":
			list = append(list, nil)
		case "no name":
			extra.Name = ""
			list = append(list, extra)
		case "no source":
			extra.Source = ""
			list = append(list, extra)
		case "no checksum":
			extra.Checksum = ""
			list = append(list, extra)
		case "no verify":
			extra.Verify = ""
			list = append(list, extra)
		case "path name":
			extra.Name = verifkit.Pick(r, []string{"../outside", "x/../../outside", "a/b", "/outside", "../machines/other"})
			extra.Match = ""
			list = append(list, extra)
		case "dot name":
			extra.Name = verifkit.Pick(r, []string{".", ".."})
			list = append(list, extra)
		}
		if len(list) > 0 && r.Intn(2) == 0 { // bad ones first
			l := len(list) - 1
			list[0], list[l] = list[l], list[0]
		}
		j, _ := json.Marshal(list)
		switch kind {
		case "not a list":
			j = []byte(`{"name":"x"}`)
		case "json":
			j = j[:len(j)-1]
		}
		b64 := base64.StdEncoding.EncodeToString(j)
		if kind == "base64" {
			b64 = "!" + b64
		}
		payload := j
		if plugins {
			payload = []byte(b64) // signs the encoded content
		}
		sig := hex.EncodeToString(ed25519.Sign(priv, payload))
		skind := "right"
		if signed {
			skind = verifkit.Pick(r, []string{"right", "right", "right", "none", "evil", "garbage", "short", "altered", "other"})
		} else {
			skind = verifkit.Pick(r, []string{"right", "none", "garbage"})
		}
		switch skind {
		case "none":
			sig = ""
		case "evil":
			sig = hex.EncodeToString(ed25519.Sign(evil, payload))
		case "garbage":
			sig = "not a signature"
		case "short":
			sig = sig[:len(sig)-2]
		case "altered":
			b := []byte(sig)
			i := r.Intn(len(b))
			if b[i] == '0' {
				b[i] = '1'
			} else {
				b[i] = '0'
			}
			sig = string(b)
		case "other":
			sig = hex.EncodeToString(ed25519.Sign(priv, append([]byte(" "), payload...)))
		}
		field := "machines"
		if plugins {
			field = "plugins"
		}
		item := map[string]any{field: b64, "signature": sig}
		if sig == "" {
			delete(item, "signature")
		}
		m.DataDelete("spec")
		switch kind {
		case "missing":
		case "item":
			m.DataPut("spec", verifkit.Pick(r, []any{"text", 5, []any{"x"}, true, nil}))
		default:
			m.DataPut("spec", item)
		}
		validSig := !signed || skind == "right" && !badkey
		valid := validSig && kind == ""
		hist = append(hist, fmt.Sprintf("%d: %s signature %s content %q", step, j, skind, kind))
		before := load(root)
		m.take()
		m.mu.Lock()
		m.state = "a"
		m.mu.Unlock()
		rec.NoPanic("manager", key(), func() {
			s.w.NotifyStateChance()
			time.Sleep(time.Minute)
			synctest.Wait()
		})
		m.mu.Lock()
		m.state = "b"
		m.mu.Unlock()
		got := m.take()
		after := load(root)
		rec.Case(true, fmt.Sprint(kind, skind, len(desired), hist[0]))
		if !valid {
			if kind == "" || !validSig {
				rec.Count("refused signature", 1)
			} else {
				rec.Count("refused content", 1)
			}
			if !after.equal(before) {
				rec.Violation("manager-changed", "an invalid specification left %v instead of %v: %s", after, before, key())
				return
			}
			if len(got) != 1 || got[0].event != "bad" {
				rec.Violation("manager-outcome", "asked for %v after an invalid specification: %s", got, key())
				return
			}
			continue
		}
		last = desired
		// the reference
		changed := false
		if purge {
			for n := range current {
				if d := desired[n]; d == nil || !d.matches() {
					delete(current, n)
					for f := range held {
						if strings.HasPrefix(f, rel(root, content)+"/"+n+"/") {
							delete(held, f)
						}
					}
					changed = true
					rec.Count("purged", 1)
				}
			}
		}
		for _, n := range order {
			d := desired[n]
			if !d.matches() {
				rec.Count("not matching", 1)
				continue
			}
			if c := current[n]; c == nil || *c != *d {
				current[n] = d
				changed = true
				rec.Count("deployed", 1)
			} else {
				rec.Count("unchanged", 1)
			}
		}
		if changed && (len(got) != 1 || got[0].event != "good") || !changed && len(got) != 0 {
			rec.Violation("manager-outcome", "asked for %v, changed %v: %s", got, changed, key())
			return
		}
		// exactly those, and what was there
		want := map[string]*managed{}
		for n, d := range current {
			want["machines/"+prefix+"_"+n+"/machine.yaml"] = d
		}
		for f, c := range after {
			if d, ok := want[f]; ok {
				delete(want, f)
				if *d == (managed{}) && c == "changed" {
					continue // changed by someone and not specified since
				}
				if msg := rendered(c, prefix, content, d); msg != "" {
					rec.Violation("manager-machine", "%s is %q: %s: %s", f, c, msg, key())
				}
				continue
			}
			if fixed[f] != c && held[f] != c || fixed[f] == "" && held[f] == "" {
				rec.Violation("manager-surplus", "left %s: %s", f, key())
				return
			}
		}
		for f := range want {
			rec.Violation("manager-missing", "did not create %s: %s", f, key())
			return
		}
		for f := range fixed {
			if _, ok := after[f]; !ok {
				rec.Violation("manager-removed", "removed %s: %s", f, key())
				return
			}
		}
		for f := range held {
			if _, ok := after[f]; !ok {
				rec.Violation("manager-removed", "removed %s: %s", f, key())
				return
			}
		}
		// managers place content
		for n := range current {
			f := rel(root, content) + "/" + n + "/content"
			if held[f] == "" && r.Intn(2) == 0 {
				tree{f: "content of " + n}.write(root)
				held[f] = "content of " + n
			}
		}
		// someone changes what is managed
		if r.Intn(4) == 0 && len(current) > 0 {
			for n := range current {
				os.WriteFile(filepath.Join(home, prefix+"_"+n, "machine.yaml"), []byte("changed"), 0600)
				current[n] = &managed{}
				hist = append(hist, "changed "+n)
				break
			}
		}
	}
	if purge && !badkey && len(current) > 0 {
		// stops while removing all of it: what lost its manager must be gone, nothing would remove it later
		payload := []byte("[]")
		b64 := base64.StdEncoding.EncodeToString(payload)
		field := "machines"
		if plugins {
			payload, field = []byte(b64), "plugins"
		}
		m.DataDelete("spec")
		m.DataPut("spec", map[string]any{field: b64, "signature": hex.EncodeToString(ed25519.Sign(priv, payload))})
		m.mu.Lock()
		m.state = "a"
		m.mu.Unlock()
		s.w.NotifyStateChance()
		time.Sleep(time.Duration(r.Intn(5000)) * time.Millisecond)
		s.cancel()
		s.wg.Wait()
		after := load(root)
		for n := range current {
			_, managed := after["machines/"+prefix+"_"+n+"/machine.yaml"]
			f := rel(root, content) + "/" + n + "/content"
			if _, ok := after[f]; ok && !managed {
				rec.Violation("manager-orphan", "interrupted removal left %s without its manager: %s", f, key())
			}
		}
		rec.Count("interrupted", 1)
	}
	s.cancel()
	s.wg.Wait()
}

func rel(root, p string) string {
	res, _ := filepath.Rel(root, p)
	return res
}

// rendered says what is wrong with the machine that manages a plugin
func rendered(body string, prefix string, content string, d *managed) string {
	var mach struct {
		Name     string `yaml:"name"`
		Version  string `yaml:"version"`
		Initial  string `yaml:"initial_state"`
		Watchers []struct {
			Type  string            `yaml:"type"`
			Props map[string]string `yaml:"properties"`
		} `yaml:"watchers"`
	}
	if err := yaml.Unmarshal([]byte(body), &mach); err != nil {
		return err.Error()
	}
	if mach.Name != prefix+"_"+d.Name || len(mach.Watchers) != 1 || mach.Watchers[0].Type != "archive" {
		return "not a machine managing it"
	}
	for k, v := range map[string]string{"source": d.Source, "checksum": d.Checksum, "verify": "SHA256SUMS", "verify_checksum": d.Verify, "creates": d.Name, "target": content, "username": d.Username, "password": d.Password, "governor": d.Governor} {
		if mach.Watchers[0].Props[k] != v {
			return fmt.Sprintf("%s is %q instead of %q", k, mach.Watchers[0].Props[k], v)
		}
	}
	return ""
}
