package external

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/external"
	"github.com/choria-io/go-choria/server/agents"
)

// def is a definition of an agent on disk
type def struct {
	file     string // path of the definition below a libdir
	name     string
	version  string
	provider string
	timeout  int
	actions  []string
	kind     string // what is wrong with it
	binary   string // how the activation check ends
	age      time.Duration
}

func (d *def) body() []byte {
	acts := []any{}
	for _, a := range d.actions {
		acts = append(acts, map[string]any{"action": a, "display": "always", "description": a, "input": map[string]any{}, "output": map[string]any{}})
	}
	doc := map[string]any{
		"$schema":  "https://choria.io/schemas/mcorpc/ddl/v1/agent.json",
		"metadata": map[string]any{"name": d.name, "description": "d", "author": "a", "license": "l", "version": d.version, "url": "u", "timeout": d.timeout, "provider": d.provider},
		"actions":  acts,
	}
	switch d.kind {
	case "no metadata":
		delete(doc, "metadata")
	case "null metadata":
		doc["metadata"] = nil
	case "null action":
		doc["actions"] = append(acts, nil)
	case "no actions":
		delete(doc, "actions")
	case "list":
		b, _ := json.Marshal([]any{doc})
		return b
	case "null":
		return []byte("null")
	}
	b, _ := json.Marshal(doc)
	switch d.kind {
	case "cut":
		b = b[:len(b)*2/3]
	case "empty":
		b = nil
	}
	return b
}

// usable tells if it can be considered at all
func (d *def) usable() bool {
	switch d.kind {
	case "no metadata", "null metadata", "null action", "list", "null", "cut", "empty":
		return false
	}
	base := strings.TrimSuffix(filepath.Base(d.file), ".json")
	for _, n := range []string{"rpcutil", "choria_util", "choria_provision", "choria_registry", "discovery", "scout"} {
		if n == d.name || n == base {
			return false
		}
	}
	return d.provider == "external"
}

// repeats tells if it has two actions of one name
func (d *def) repeats() bool {
	seen := map[string]bool{}
	for _, a := range d.actions {
		if seen[a] {
			return true
		}
		seen[a] = true
	}
	return false
}

// valid tells if it can be registered
func (d *def) valid() bool {
	return !d.repeats() && d.timeout > 0 && d.name != ""
}

func (d *def) activates() bool { return d.binary == "yes" }

func (d *def) write(lib string) {
	f := filepath.Join(lib, "mcollective", "agent", d.file)
	os.MkdirAll(filepath.Dir(f), 0700)
	os.WriteFile(f, d.body(), 0600)
	bin := filepath.Join(filepath.Dir(f), d.name)
	if d.name == "" {
		return
	}
	os.RemoveAll(bin)
	script := ""
	switch d.binary {
	case "yes":
		script = "echo '{\"activate\":true}' > $CHORIA_EXTERNAL_REPLY"
	case "no":
		script = "echo '{\"activate\":false}' > $CHORIA_EXTERNAL_REPLY"
	case "fails":
		script = "echo '{\"activate\":true}' > $CHORIA_EXTERNAL_REPLY; exit 1"
	case "garbage":
		script = "echo activate > $CHORIA_EXTERNAL_REPLY"
	case "silent":
		script = "true"
	case "unexecutable":
		os.WriteFile(bin, []byte("#!/bin/sh\n"), 0600)
		return
	case "absent":
		return
	}
	if len(d.version)%2 == 0 { // one per platform
		os.MkdirAll(bin, 0700)
	}
	bin = d.program(lib)
	// only answers when asked as documented
	script = "#!/bin/sh\nif [ \"$CHORIA_EXTERNAL_PROTOCOL\" = io.choria.mcorpc.external.v1.rpc_request ]; then echo '" + bin + " " + d.version + "' >> " + filepath.Dir(lib) + "/ran; echo '{\"statuscode\":0,\"statusmsg\":\"OK\",\"data\":{}}' > $CHORIA_EXTERNAL_REPLY; exit 0; fi\n[ \"$CHORIA_EXTERNAL_PROTOCOL\" = io.choria.mcorpc.external.v1.activation_request ] || exit 9\n[ \"$3\" = io.choria.mcorpc.external.v1.activation_request ] || exit 9\n[ \"$1\" = \"$CHORIA_EXTERNAL_REQUEST\" ] || exit 9\n[ \"$2\" = \"$CHORIA_EXTERNAL_REPLY\" ] || exit 9\ngrep -q '\"agent\":\"" + d.name + "\"' $1 || exit 9\n" + script + "\n"
	os.WriteFile(bin, []byte(script), 0700)
}

// program is what is run for the agent
func (d *def) program(lib string) string {
	bin := filepath.Join(filepath.Dir(filepath.Join(lib, "mcollective", "agent", d.file)), d.name)
	if len(d.version)%2 == 0 {
		bin = filepath.Join(bin, fmt.Sprintf("%s-%s_%s", d.name, runtime.GOOS, runtime.GOARCH))
	}
	return bin
}

func (d *def) remove(lib string) {
	f := filepath.Join(lib, "mcollective", "agent", d.file)
	os.Remove(f)
	if d.name != "" {
		os.RemoveAll(filepath.Join(filepath.Dir(f), d.name))
	}
	if filepath.Dir(d.file) != "." {
		os.RemoveAll(filepath.Dir(f))
	}
}

type active struct {
	def    def
	active bool
	agent  agents.Agent
}

// TestC27Reconcile changes definitions on disk while the provider of external agents runs
func TestC27Reconcile(t *testing.T) {
	rec := verifkit.New(t, "C27", "the external agents that are active are those whose definitions on disk are valid and activate, at the version last seen, each registered once, and those unchanged are left alone")
	for _, k := range []string{"registered", "replaced", "removed", "untouched", "several removed", "shadowed", "did not activate", "activated later", "unusable definition", "kept in grace", "ran after a change"} {
		rec.Require(k, 5)
	}
	r := verifkit.Rand("c27-reconcile")
	base := t.TempDir()
	tmp := filepath.Join(base, "tmp")
	os.Mkdir(tmp, 0700)
	t.Setenv("TMPDIR", tmp)
	for i := 0; i < verifkit.N(200, 2500); i++ {
		seed := r.Int63()
		if !rec.Within(120*time.Second, "reconcile", func() {
			dir, err := os.MkdirTemp(base, "")
			if err != nil {
				t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			synctest.Test(t, func(t *testing.T) { reconcile(rec, rand.New(rand.NewSource(seed)), dir) })
			leftovers(rec, tmp)
		}) {
			return
		}
		if rec.Failed() {
			return
		}
	}
}

func reconcile(rec *verifkit.Rec, r *rand.Rand, root string) {
	libs := []string{filepath.Join(root, "a"), filepath.Join(root, "b")}
	n := vfake.NewNetFW(func(cfg *config.Config) {
		cfg.ConfigFile = filepath.Join(root, "server.conf")
		cfg.Choria.RubyLibdir = libs
	})
	for _, l := range libs {
		os.MkdirAll(filepath.Join(l, "mcollective", "agent"), 0700)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	conn, err := n.NewConnector(ctx, nil, "srv", vfake.Log())
	if err != nil {
		panic(err)
	}
	mgr := agents.New(make(chan inter.ConnectorMessage, 10), n, conn, &vfake.Server{IdentityV: "n1", FactsV: json.RawMessage(`{"a":1}`)}, vfake.Log())
	denied := ""
	if r.Intn(3) == 0 {
		denied = "one"
		mgr.DenyAgent(denied)
	}
	names := []string{"one", "two", "three", "four", "five", "six", "se-ven"}
	disk := []map[string]*def{{}, {}} // by file
	known := map[string]*active{}
	hist := []string{"denied " + denied}
	key := func() string { return strings.Join(hist, "\n ") }
	version := 0

	gen := func(name string) *def {
		version++
		d := &def{name: name, file: name + ".json", version: fmt.Sprintf("%d.0.%d", version, r.Intn(20)), provider: "external", timeout: 1 + r.Intn(5), actions: []string{"x", "y", "z"}[:1+r.Intn(3)]}
		d.binary = verifkit.Pick(r, []string{"yes", "yes", "yes", "yes", "yes", "yes", "yes", "yes", "no", "fails", "garbage", "silent", "absent", "unexecutable"})
		if r.Intn(3) == 0 {
			d.file = name + "/" + name + ".json"
		}
		switch r.Intn(30) {
		case 0:
			d.kind = verifkit.Pick(r, []string{"no metadata", "null metadata", "null action", "list", "null", "cut", "empty"})
		case 1:
			d.kind = "no actions"
			d.actions = nil
		case 2:
			d.actions = []string{"x", "y", "x"}
		case 3:
			d.timeout = -r.Intn(2)
		case 4:
			d.provider = verifkit.Pick(r, []string{"ruby", "", "External", "golang"})
		}
		return d
	}

	prov := &external.Provider{}
	prov.Initialize(n.Configuration(), vfake.Log())
	started := false

	// what has nothing to do with it
	for _, f := range []string{"README", "x.ddl", "deep/er/nested.json", "tmp/hidden.json", "one-off/other.json"} {
		d := def{file: f, name: "surplus", version: "1.0.0", provider: "external", timeout: 1, binary: "yes"}
		if strings.HasSuffix(f, ".json") {
			d.write(libs[0])
		} else {
			os.WriteFile(filepath.Join(libs[0], "mcollective", "agent", f), d.body(), 0600)
		}
	}
	if r.Intn(2) == 0 { // a directory with an agent of another kind holding more
		(&def{file: "rubyish/rubyish.json", name: "rubyish", version: "1.0.0", provider: "ruby", timeout: 1, binary: "yes"}).write(libs[0])
		(&def{file: "rubyish/inner.json", name: "inner", version: "1.0.0", provider: "external", timeout: 1, binary: "yes"}).write(libs[0])
	}
	for _, l := range libs {
		filepath.Walk(l, func(p string, _ os.FileInfo, _ error) error {
			return os.Chtimes(p, time.Now().Add(-time.Hour), time.Now().Add(-time.Hour))
		})
	}

	put := func(l int, d *def) {
		for f, o := range disk[l] {
			if o.name == d.name && f != d.file {
				return // would share the executable
			}
		}
		if o := disk[l][d.file]; o != nil {
			o.remove(libs[l])
		}
		d.write(libs[l])
		d.age = verifkit.Pick(r, []time.Duration{0, 0, time.Hour, 4 * time.Second})
		at := time.Now().Add(-d.age)
		os.Chtimes(filepath.Join(libs[l], "mcollective", "agent", d.file), at, at)
		disk[l][d.file] = d
		hist = append(hist, fmt.Sprintf("%d: %s", l, d.file))
		hist[len(hist)-1] += fmt.Sprintf(" name %q version %s provider %q timeout %d actions %v kind %q binary %s age %v", d.name, d.version, d.provider, d.timeout, d.actions, d.kind, d.binary, d.age)
	}

	for step := 0; step < 3+r.Intn(5); step++ {
		hist = append(hist, fmt.Sprintf("step %d", step))
		graced := map[string]string{} // name to what has to be active for now
		for op := 0; op < 1+r.Intn(6); op++ {
			l := r.Intn(2)
			switch k := r.Intn(10); {
			case k < 5: // new or changed
				put(l, gen(verifkit.Pick(r, names)))
			case k < 6: // moved
				for _, f := range files(disk[l]) {
					d := *disk[l][f]
					disk[l][f].remove(libs[l])
					delete(disk[l], f)
					hist = append(hist, fmt.Sprintf("moved %d %s", l, f))
					put(1-l, &d)
					break
				}
			case k < 7: // the name within differs from the name of the file
				d := gen(verifkit.Pick(r, []string{"scout", "rpcutil", "choria_provision", "renamed", ""}))
				d.file = verifkit.Pick(r, []string{"alias.json", "discovery.json"})
				put(l, d)
			default: // removed, maybe several
				for _, f := range files(disk[l]) {
					if r.Intn(2) == 0 {
						disk[l][f].remove(libs[l])
						delete(disk[l], f)
						hist = append(hist, fmt.Sprintf("removed %d %s", l, f))
					}
				}
			}
		}
		// the reference
		found := map[string]*def{}
		where := map[string]int{}
		for l := range disk {
			for _, f := range files(disk[l]) {
				d := disk[l][f]
				if !d.usable() {
					rec.Count("unusable definition", 1)
					continue
				}
				if found[d.name] != nil {
					rec.Count("shadowed", 1)
					continue
				}
				found[d.name], where[d.name] = d, l
			}
		}
		for name, d := range found {
			if d.age < 5*time.Second {
				if k := known[name]; k != nil && k.active {
					graced[name] = k.def.version
				} else {
					graced[name] = ""
				}
			}
		}
		if !started {
			started = true
			if err := prov.RegisterAgents(ctx, mgr, conn, vfake.Log()); err != nil {
				rec.Violation("start", "%v", err)
				return
			}
		}
		time.Sleep(900 * time.Millisecond)
		synctest.Wait()
		for name, v := range graced {
			got := ""
			if ag, ok := mgr.Get(name); ok {
				got = ag.Metadata().Version
			}
			if got != v {
				rec.Violation("grace", "%s is active at %q instead of %q right after its definition changed: %s", name, got, v, key())
				return
			}
			rec.Count("kept in grace", 1)
		}
		time.Sleep(100 * time.Second)
		synctest.Wait()
		for l := range disk {
			for _, d := range disk[l] {
				d.age = time.Hour
			}
		}

		removed := 0
		for name := range known {
			if found[name] == nil {
				if known[name].active {
					removed++
				}
				delete(known, name)
				rec.Count("removed", 1)
			}
		}
		if removed > 1 {
			rec.Count("several removed", 1)
		}
		changed := map[string]bool{}
		for name, d := range found {
			k := known[name]
			here := *d
			here.file = fmt.Sprint(where[name], "/", d.file)
			here.age = 0
			same := k != nil && k.def.version == here.version && k.def.file == here.file
			switch {
			case same:
			case k != nil && k.active:
				if d.valid() && d.activates() {
					known[name] = &active{def: here, active: true}
					changed[name] = true
					rec.Count("replaced", 1)
				}
			case k != nil && d.repeats():
			default:
				was := k != nil
				delete(known, name)
				if d.valid() {
					on := d.activates() && name != denied
					known[name] = &active{def: here, active: on}
					changed[name] = true
					if on {
						rec.Count("registered", 1)
						if was {
							rec.Count("activated later", 1)
						}
					} else {
						rec.Count("did not activate", 1)
					}
				}
			}
		}
		// comparison
		var want []string
		subjects := map[string]bool{}
		for name, k := range known {
			if k.active {
				want = append(want, name)
				for _, c := range n.Configuration().Collectives {
					subjects[conn.AgentBroadcastTarget(c, name)] = true
				}
			}
		}
		sort.Strings(want)
		got := append([]string{}, mgr.KnownAgents()...)
		sort.Strings(got)
		rec.Case(len(want) > 0, fmt.Sprint(want, len(found), step, hist[len(hist)-1]))
		if fmt.Sprint(got) != fmt.Sprint(want) {
			rec.Violation("active", "active are %q instead of %q: %s", got, want, key())
			return
		}
		for name, k := range known {
			if !k.active {
				continue
			}
			ag, ok := mgr.Get(name)
			if !ok || ag.Metadata().Version != k.def.version {
				rec.Violation("version", "%s is active at %s instead of %s: %s", name, ag.Metadata().Version, k.def.version, key())
				return
			}
			if a := ag.(interface{ ActionNames() []string }).ActionNames(); strings.Join(a, " ") != strings.Join(k.def.actions, " ") {
				rec.Violation("actions", "%s has actions %q instead of %q: %s", name, a, k.def.actions, key())
				return
			}
			if !changed[name] {
				if k.agent != ag {
					rec.Violation("touched", "%s was replaced without a change: %s", name, key())
					return
				}
				rec.Count("untouched", 1)
			}
			k.agent = ag
			// what runs is what is on disk now
			d := found[name]
			if d == nil || d.version != k.def.version || fmt.Sprint(where[name], "/", d.file) != k.def.file || !d.activates() || len(d.actions) == 0 {
				continue
			}
			os.Remove(filepath.Join(root, "ran"))
			status := call27(n, ag, name, d.actions[0])
			ran, _ := os.ReadFile(filepath.Join(root, "ran"))
			if want := d.program(libs[where[name]]) + " " + d.version; strings.TrimSpace(string(ran)) != want || status != 0 {
				rec.Violation("program", "a request to %s had status %v and ran %q instead of %q: %s", name, status, ran, want, key())
				return
			}
			rec.Count("ran", 1)
			if changed[name] {
				rec.Count("ran after a change", 1)
			}
		}
		for s, c := range n.Net.Subjects() {
			if c != 1 || !subjects[s] {
				rec.Violation("subscriptions", "%d subscriptions of %s: %s", c, s, key())
				return
			}
			delete(subjects, s)
		}
		for s := range subjects {
			rec.Violation("subscriptions", "no subscription of %s: %s", s, key())
			return
		}
		have := map[string]string{}
		for _, d := range prov.Agents() {
			if _, ok := have[d.Metadata.Name]; ok || found[d.Metadata.Name] == nil {
				rec.Violation("listed", "lists %s which is not defined or listed before: %s", d.Metadata.Name, key())
				return
			}
			have[d.Metadata.Name] = d.Metadata.Version
		}
		for name, k := range known {
			if k.active && have[name] != k.def.version {
				rec.Violation("listed", "lists %s at %q instead of %s: %s", name, have[name], k.def.version, key())
				return
			}
		}
	}
	cancel()
	time.Sleep(time.Minute)
}

// leftovers reports temporary files of requests
func leftovers(rec *verifkit.Rec, tmp string) {
	l, _ := os.ReadDir(tmp)
	for _, f := range l {
		if !strings.HasPrefix(f.Name(), "verifpki") {
			rec.Violation("temp", "left temporary files like %s", f.Name())
			return
		}
	}
}

func files(m map[string]*def) []string {
	var l []string
	for f := range m {
		l = append(l, f)
	}
	// as directories are read
	sort.Strings(l)
	return l
}

// call27 performs a request of an agent and answers with its status
func call27(n *vfake.NetFW, ag agents.Agent, agent string, action string) float64 {
	payload := []byte(fmt.Sprintf(`{"agent":%q,"action":%q,"data":{}}`, agent, action))
	req, err := v2.NewRequest(agent, "sender.example", "choria=caller", 60, "e8a0ff5c2c8a4b6f8a5d9f5d6a2f6f7a", "mcollective")
	if err != nil {
		panic(err)
	}
	req.SetMessage(payload)
	msg, err := n.NewMessage(payload, agent, "mcollective", inter.RequestMessageType, nil)
	if err != nil {
		panic(err)
	}
	out := make(chan *agents.AgentReply, 10)
	ag.HandleMessage(context.Background(), msg, req, nil, out)
	close(out)
	status := float64(-1)
	for r := range out {
		v, _ := number(r.Body)
		if rep, _ := v.(map[string]any); rep != nil {
			status, _ = rep["statuscode"].(json.Number).Float64()
		}
	}
	return status
}
