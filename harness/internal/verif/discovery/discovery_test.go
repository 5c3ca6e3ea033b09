// Package discovery monitors the discovery methods
package discovery

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/discovery/broadcast"
	"github.com/choria-io/go-choria/providers/discovery/external"
	"github.com/choria-io/go-choria/providers/discovery/flatfile"
	"github.com/choria-io/go-choria/providers/discovery/inventory"
	"github.com/goccy/go-yaml"
)

type node struct {
	Name        string         `json:"name" yaml:"name"`
	Collectives []string       `json:"collectives" yaml:"collectives"`
	Facts       map[string]any `json:"facts" yaml:"facts"`
	Classes     []string       `json:"classes" yaml:"classes"`
	Agents      []string       `json:"agents" yaml:"agents"`
}

// want is a set of filters along with its meaning
type want struct {
	identities, agents, classes []string
	facts                       [][3]string
	compound                    []string
	compoundFn                  []func(n node) bool
}

func textMatch(filter string, values []string, fold bool) bool {
	for _, v := range values {
		if len(filter) > 1 && strings.HasPrefix(filter, "/") && strings.HasSuffix(filter, "/") {
			p := filter[1 : len(filter)-1]
			if fold {
				p = "(?i)" + p
			}
			re, err := regexp.Compile(p)
			if err == nil && re.MatchString(v) {
				return true
			}
		} else if filter == v {
			return true
		}
	}
	return false
}

func (w want) match(n node) bool {
	ok := len(w.identities) == 0
	for _, f := range w.identities {
		ok = ok || textMatch(f, []string{n.Name}, false)
	}
	for _, f := range w.agents {
		ok = ok && textMatch(f, n.Agents, false)
	}
	for _, f := range w.classes {
		ok = ok && textMatch(f, n.Classes, true)
	}
	for _, f := range w.facts {
		v, have := n.Facts[f[0]]
		if !have {
			return false
		}
		switch x := v.(type) {
		case string:
			ok = ok && (x == f[2]) == (f[1] == "==")
		case int:
			ok = ok && (fmt.Sprint(x) == f[2]) == (f[1] == "==")
		}
	}
	for _, f := range w.compoundFn {
		ok = ok && f(n)
	}
	return ok
}

func (w want) filter() *protocol.Filter {
	f := protocol.NewFilter()
	for _, i := range w.identities {
		f.AddIdentityFilter(i)
	}
	for _, i := range w.agents {
		f.AddAgentFilter(i)
	}
	for _, i := range w.classes {
		f.AddClassFilter(i)
	}
	for _, i := range w.facts {
		f.AddFactFilter(i[0], i[1], i[2])
	}
	for _, i := range w.compound {
		f.AddCompoundFilter(i)
	}
	return f
}

var (
	domains  = []string{"example.net", "example.com", "lab.example.net"}
	allAgent = []string{"rpcutil", "puppet", "service", "package", "choria_util"}
	allClass = []string{"apache", "mysql", "profile::web", "roles::db", "common"}
	allColl  = []string{"mcollective", "uk", "us"}
)

// name is a node name, some are the start or the end of others
func name(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return fmt.Sprintf("%s%d", verifkit.Pick(r, []string{"web", "db", "dev"}), r.Intn(3))
	case 1:
		return verifkit.Pick(r, domains)
	}
	return fmt.Sprintf("%s%d.%s", verifkit.Pick(r, []string{"web", "db", "dev"}), r.Intn(8), verifkit.Pick(r, domains))
}

func genNode(r *rand.Rand) node {
	n := node{Name: name(r), Collectives: verifkit.Subset(r, allColl), Classes: verifkit.Subset(r, allClass), Agents: verifkit.Subset(r, allAgent), Facts: map[string]any{}}
	if r.Intn(4) > 0 {
		n.Facts["country"] = verifkit.Pick(r, []string{"mt", "uk", "de"})
	}
	if r.Intn(4) > 0 {
		n.Facts["cores"] = 1 + r.Intn(4)
	}
	return n
}

func genIdentity(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return verifkit.Pick(r, []string{"/^web/", "/example.com$/", "/[0-3]\\./", "/./", "/nothing/", "/dev|db1/"})
	default:
		return name(r)
	}
}

func genWant(r *rand.Rand) want {
	w := want{}
	for i := r.Intn(4) - 1; i > 0; i-- {
		w.identities = append(w.identities, genIdentity(r))
	}
	for i := r.Intn(3); i > 0 && r.Intn(2) == 0; i-- {
		w.agents = append(w.agents, verifkit.Pick(r, append([]string{"/pup/", "/^choria/", "missing"}, allAgent...)))
	}
	for i := r.Intn(3); i > 0 && r.Intn(2) == 0; i-- {
		w.classes = append(w.classes, verifkit.Pick(r, append([]string{"/profile/", "/^ROLES/", "missing"}, allClass...)))
	}
	for i := r.Intn(3); i > 0 && r.Intn(2) == 0; i-- {
		if r.Intn(2) == 0 {
			w.facts = append(w.facts, [3]string{"country", verifkit.Pick(r, []string{"==", "!="}), verifkit.Pick(r, []string{"mt", "uk", "de", "za"})})
		} else {
			w.facts = append(w.facts, [3]string{"cores", verifkit.Pick(r, []string{"==", "!="}), fmt.Sprint(1 + r.Intn(5))})
		}
	}
	for i := r.Intn(3); i > 0 && r.Intn(2) == 0; i-- {
		switch r.Intn(3) {
		case 0:
			c := verifkit.Pick(r, allClass)
			w.compound = append(w.compound, fmt.Sprintf("with('%s')", c))
			w.compoundFn = append(w.compoundFn, func(n node) bool { return textMatch(c, n.Classes, true) })
		case 1:
			a := verifkit.Pick(r, allAgent)
			w.compound = append(w.compound, fmt.Sprintf("!with('%s')", a))
			w.compoundFn = append(w.compoundFn, func(n node) bool { return !textMatch(a, n.Agents, true) })
		default:
			c, k := verifkit.Pick(r, []string{"mt", "uk"}), 1+r.Intn(4)
			w.compound = append(w.compound, fmt.Sprintf("fact('country') == '%s' || fact('cores') == %d", c, k))
			w.compoundFn = append(w.compoundFn, func(n node) bool { return n.Facts["country"] == c || n.Facts["cores"] == k })
		}
	}
	return w
}

func (w want) only(identity bool) bool {
	return len(w.agents) == 0 && len(w.classes) == 0 && len(w.facts) == 0 && len(w.compound) == 0 && (!identity || len(w.identities) > 0)
}

func (w want) String() string {
	return fmt.Sprintf("I%v A%v C%v F%v S%v", w.identities, w.agents, w.classes, w.facts, w.compound)
}

// compare checks got holds exactly the expected names each once
func compare(rec *verifkit.Rec, key string, input string, got []string, expect map[string]bool) {
	seen := map[string]int{}
	for _, g := range got {
		seen[g]++
		if !expect[g] {
			rec.Violation(key+"-extra", "%s: %q was discovered and does not match, got %v", input, g, got)
		}
		if seen[g] == 2 {
			rec.Violation(key+"-duplicate", "%s: %q was discovered more than once, got %v", input, g, got)
		}
	}
	for e := range expect {
		if seen[e] == 0 {
			rec.Violation(key+"-missing", "%s: %q matches and was not discovered, got %v", input, e, got)
		}
	}
}

// TestC29Inventory discovers against generated inventories
func TestC29Inventory(t *testing.T) {
	rec := verifkit.New(t, "C29", "inventory discovery returns the nodes in the collective that satisfy every filter, groups resolve to the nodes of their filter, invalid inventories and group lookups are refused")
	r := verifkit.Rand("c29-inventory")
	dir := t.TempDir()
	ctx := context.Background()
	fw := vfake.FW(nil)
	disc := inventory.New(fw)

	for i := 0; i < verifkit.N(600, 8000); i++ {
		nodes := []node{}
		for j := r.Intn(25); j > 0; j-- {
			nodes = append(nodes, genNode(r))
		}
		// a node may be listed again with the same content
		if len(nodes) > 0 && r.Intn(4) == 0 {
			nodes = append(nodes, nodes[r.Intn(len(nodes))])
		}
		// with distinct content a name is one node, keep the first
		uniq := []node{}
		byName := map[string]node{}
		for _, n := range nodes {
			if have, ok := byName[n.Name]; ok && verifkit.J(have) != verifkit.J(n) {
				continue
			}
			byName[n.Name] = n
			uniq = append(uniq, n)
		}
		groups := map[string]want{}
		glist := []map[string]any{}
		for j := r.Intn(4); j > 0; j-- {
			w := genWant(r)
			if len(w.compound) > 1 {
				w.compound, w.compoundFn = w.compound[:1], w.compoundFn[:1]
			}
			gn := fmt.Sprintf("grp-%d", j)
			groups[gn] = w
			flt := map[string]any{}
			if len(w.identities) > 0 {
				flt["identities"] = w.identities
			}
			if len(w.agents) > 0 {
				flt["agents"] = w.agents
			}
			if len(w.classes) > 0 {
				flt["classes"] = w.classes
			}
			fs := []string{}
			for _, f := range w.facts {
				fs = append(fs, f[0]+verifkit.Pick(r, []string{"", " "})+f[1]+f[2])
			}
			if len(fs) > 0 {
				flt["facts"] = fs
			}
			if len(w.compound) > 0 {
				flt["compound"] = w.compound[0]
			}
			g := map[string]any{"name": gn}
			if len(flt) > 0 {
				g["filter"] = flt
			}
			glist = append(glist, g)
		}
		doc := map[string]any{"$schema": inventory.DataSchema, "nodes": uniq}
		if len(glist) > 0 {
			doc["groups"] = glist
		}
		broken := ""
		if r.Intn(10) == 0 {
			broken = verifkit.Pick(r, []string{"schema", "noname", "extra", "syntax"})
			switch broken {
			case "schema":
				doc["$schema"] = "https://choria.io/schemas/other.json"
			case "noname":
				doc["nodes"] = append([]any{map[string]any{"collectives": []string{}, "facts": map[string]any{}, "classes": []string{}, "agents": []string{}}})
			case "extra":
				doc["other"] = 1
			}
		}
		var body []byte
		var err error
		ext := verifkit.Pick(r, []string{".json", ".yaml", ".yml"})
		if ext == ".json" {
			body, err = json.Marshal(doc)
		} else {
			body, err = yaml.Marshal(doc)
		}
		if err != nil {
			t.Fatal(err)
		}
		if broken == "syntax" {
			body = append([]byte("{\"x\": [1,"), body...)
		}
		file := filepath.Join(dir, fmt.Sprintf("inv%d%s", i%20, ext))
		if err = os.WriteFile(file, body, 0600); err != nil {
			t.Fatal(err)
		}

		for q := 0; q < 4; q++ {
			// the inventory changes without its size or times changing
			if q == 2 && broken == "" && len(uniq) > 1 {
				was, err := os.Stat(file)
				if err != nil {
					t.Fatal(err)
				}
				// the names of two nodes swap places, what the other is remains
				a, b := r.Intn(len(uniq)), r.Intn(len(uniq))
				an, bn := uniq[a].Name, uniq[b].Name
				next := append([]node{}, uniq...)
				for x := range next {
					switch next[x].Name {
					case an:
						next[x].Name = bn
					case bn:
						next[x].Name = an
					}
				}
				doc["nodes"] = next
				if ext == ".json" {
					body, err = json.Marshal(doc)
				} else {
					body, err = yaml.Marshal(doc)
				}
				if err != nil {
					t.Fatal(err)
				}
				if err = os.WriteFile(file, body, 0600); err != nil {
					t.Fatal(err)
				}
				if err = os.Chtimes(file, was.ModTime(), was.ModTime()); err != nil {
					t.Fatal(err)
				}
				uniq = next
				if an != bn && int64(len(body)) == was.Size() {
					rec.Count("changed in place", 1)
				}
			}
			w := genWant(r)
			coll := verifkit.Pick(r, append([]string{"none"}, allColl...))
			opts := []inventory.DiscoverOption{inventory.Collective(coll), inventory.Filter(w.filter())}
			if r.Intn(2) == 0 {
				opts = append(opts, inventory.File(file))
			} else {
				opts = append(opts, inventory.DiscoveryOptions(map[string]string{"file": file}))
			}
			expect := map[string]bool{}
			refuse := broken != ""
			input := fmt.Sprintf("collective %s filter %s", coll, w)

			if len(groups) > 0 && q == 3 {
				gw := want{}
				sel := want{}
				for _, g := range verifkit.Subset(r, []string{"grp-1", "grp-2", "grp-3"}) {
					gw.identities = append(gw.identities, "group:"+g)
					grp, known := groups[g]
					if !known {
						refuse = true
						continue
					}
					for _, n := range uniq {
						if grp.match(n) {
							expect[n.Name] = true
						}
					}
				}
				if len(gw.identities) == 0 {
					continue
				}
				switch r.Intn(5) {
				case 0:
					gw.classes = []string{"apache"}
					refuse = true
				case 1:
					gw.identities = append(gw.identities, "web1.example.net")
					refuse = true
				case 2:
					gw.agents = []string{"rpcutil"}
				case 3:
					gw.compound = []string{"with('apache')"}
					refuse = true
				}
				_ = sel
				input = fmt.Sprintf("groups %v of %v", gw, groups)
				opts = append(opts, inventory.Filter(gw.filter()))
				rec.Count("group lookups", 1)
			} else {
				for _, n := range uniq {
					if textMatch(coll, n.Collectives, false) && w.match(n) {
						expect[n.Name] = true
					}
				}
			}

			var got []string
			if !rec.NoPanic("inventory", input, func() { got, err = disc.Discover(ctx, opts...) }) {
				continue
			}
			rec.Case(len(expect) > 0 || refuse, fmt.Sprintf("%s %d %d", input, len(uniq), len(expect)))
			if refuse {
				if err == nil {
					rec.Violation("inventory-invalid", "%s (broken %q) was not refused: %v", input, broken, got)
				}
				rec.Count("refused", 1)
				continue
			}
			if err != nil {
				rec.Violation("inventory-error", "%s: %v", input, err)
				continue
			}
			if len(expect) > 0 {
				rec.Count("with matches", 1)
			}
			compare(rec, "inventory", input+" nodes "+verifkit.J(uniq), got, expect)
		}
	}
	rec.Require("with matches", 200)
	rec.Require("group lookups", 100)
	rec.Require("changed in place", 100)
	rec.Require("refused", 100)
}

// TestC29FlatFile discovers against generated lists in every format
func TestC29FlatFile(t *testing.T) {
	rec := verifkit.New(t, "C29", "flat file discovery returns the listed names that match the identity filters each once, in every format, and refuses invalid names and filters it can not evaluate")
	r := verifkit.Rand("c29-flatfile")
	dir := t.TempDir()
	disc := flatfile.New(vfake.FW(nil))
	for i := 0; i < verifkit.N(3000, 40000); i++ {
		nodes := []string{}
		for j := r.Intn(20); j > 0; j-- {
			nodes = append(nodes, name(r))
		}
		invalid := false
		if r.Intn(8) == 0 && len(nodes) > 0 {
			nodes[r.Intn(len(nodes))] = verifkit.Pick(r, []string{"a b", "-web", "web-", "a..b", ".a", "a.", "ünïcode", "a;b", "a/b", "*", ">", "a_b", "$(x)"})
			invalid = true
		}
		w := want{}
		var f *protocol.Filter
		if r.Intn(4) > 0 {
			for j := r.Intn(4); j > 0; j-- {
				w.identities = append(w.identities, genIdentity(r))
			}
			f = w.filter()
		}
		refuse := invalid
		if r.Intn(12) == 0 {
			f = protocol.NewFilter()
			verifkit.Pick(r, []func(){
				func() { f.AddAgentFilter("x") }, func() { f.AddClassFilter("x") }, func() { f.AddFactFilter("x", "==", "y") }, func() { f.AddCompoundFilter("true") },
			})()
			refuse = true
		}

		format := verifkit.Pick(r, []string{"text", "json", "yaml", "rpc", "jsonfilter", "yamlfilter"})
		var body []byte
		fopt := map[string]string{}
		var fmtv flatfile.SourceFormat
		switch format {
		case "text":
			fmtv = flatfile.TextFormat
			for _, n := range nodes {
				body = append(body, verifkit.Pick(r, []string{n + "\n", n + "\r\n", "  " + n + " \n"})...)
			}
		case "json":
			fmtv = flatfile.JSONFormat
			body, _ = json.Marshal(nodes)
		case "yaml":
			fmtv = flatfile.YAMLFormat
			body, _ = yaml.Marshal(nodes)
		case "rpc":
			fmtv = flatfile.ChoriaResponsesFormat
			reps := []map[string]any{}
			for _, n := range nodes {
				reps = append(reps, map[string]any{"sender": n, "statuscode": r.Intn(2), "data": map[string]any{}})
			}
			body, _ = json.Marshal(map[string]any{"agent": "x", "action": "y", "replies": reps})
		case "jsonfilter", "yamlfilter":
			hosts := []map[string]any{}
			for _, n := range nodes {
				hosts = append(hosts, map[string]any{"host": n, "x": 1})
			}
			doc := map[string]any{"inv": hosts}
			fopt["filter"] = "inv.#.host"
			if format == "jsonfilter" {
				fmtv = flatfile.JSONFormat
				body, _ = json.Marshal(doc)
			} else {
				fmtv = flatfile.YAMLFormat
				body, _ = yaml.Marshal(doc)
			}
		}
		opts := []flatfile.DiscoverOption{}
		if f != nil {
			opts = append(opts, flatfile.Filter(f))
		}
		viaOpts := r.Intn(2) == 0
		file := filepath.Join(dir, fmt.Sprintf("nodes%d", i%10))
		os.WriteFile(file, body, 0600)
		switch {
		case viaOpts:
			fopt["file"] = file
			fopt["format"] = map[string]string{"text": "text", "json": "json", "yaml": verifkit.Pick(r, []string{"yaml", "yml"}), "rpc": verifkit.Pick(r, []string{"choriarpc", "results", "rpc", "response"}), "jsonfilter": "json", "yamlfilter": "yaml"}[format]
		case r.Intn(2) == 0:
			opts = append(opts, flatfile.File(file), flatfile.Format(fmtv))
		default:
			opts = append(opts, flatfile.Reader(bytes.NewReader(body)), flatfile.Format(fmtv))
		}
		opts = append(opts, flatfile.DiscoveryOptions(fopt))

		expect := map[string]bool{}
		for _, n := range nodes {
			if w.match(node{Name: n}) {
				expect[n] = true
			}
		}
		input := fmt.Sprintf("%s %v filter %v", format, nodes, w)
		var got []string
		var err error
		if !rec.NoPanic("flatfile", input, func() { got, err = disc.Discover(context.Background(), opts...) }) {
			continue
		}
		rec.Case(len(nodes) > 0, input)
		rec.Count("format "+format, 1)
		if refuse {
			rec.Count("refused", 1)
			if err == nil {
				rec.Violation("flatfile-invalid", "%s was not refused: %v", input, got)
			}
			continue
		}
		if err != nil {
			rec.Violation("flatfile-error", "%s: %v", input, err)
			continue
		}
		compare(rec, "flatfile", input, got, expect)
	}
	for _, bad := range []string{"", "{", "[1,2]", "{}", "null", "[[]]", "\x00", "x: [", "[\"a\", 1]", "}{", "{]"} {
		for _, ft := range []flatfile.SourceFormat{flatfile.TextFormat, flatfile.JSONFormat, flatfile.YAMLFormat, flatfile.ChoriaResponsesFormat, 99} {
			rec.NoPanic("flatfile-hostile", bad, func() {
				got, err := disc.Discover(context.Background(), flatfile.Reader(strings.NewReader(bad)), flatfile.Format(ft))
				for _, g := range got {
					if err == nil && !regexp.MustCompile(`^[A-Za-z0-9.-]+$`).MatchString(g) {
						rec.Violation("flatfile-invalid", "%q in format %v gave %v", bad, ft, got)
					}
				}
			})
		}
	}
	rec.Require("refused", 100)
}

const extScript = `#!/bin/sh
cp "$CHORIA_EXTERNAL_REQUEST" "%[1]s/request"
printf '%%s\n' "$#" "$@" > "%[1]s/args"
%[2]s
exit %[3]d
`

// TestC29External discovers through a command
func TestC29External(t *testing.T) {
	rec := verifkit.New(t, "C29", "external discovery hands the command exactly the filter, collective and options and returns exactly the nodes it listed, failures of the command are errors")
	r := verifkit.Rand("c29-external")
	var fw *vfake.NetFW
	base := t.TempDir()
	fw = vfake.NewNetFW(nil)
	disc := external.New(fw)
	for i := 0; i < verifkit.N(120, 1500); i++ {
		dir := filepath.Join(base, fmt.Sprintf("r%d", i%10))
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0700)
		nodes := []string{}
		for j := r.Intn(10); j > 0; j-- {
			nodes = append(nodes, name(r))
		}
		w := genWant(r)
		coll := verifkit.Pick(r, allColl)
		mode := verifkit.Pick(r, []string{"ok", "ok", "ok", "ok", "exit", "error", "protocol", "syntax", "empty", "noisy"})
		reply := map[string]any{"protocol": external.ResponseProtocol, "nodes": nodes}
		code := 0
		cmd := `cp "%s/answer" "$CHORIA_EXTERNAL_REPLY"`
		refuse := true
		switch mode {
		case "exit":
			code = 1 + r.Intn(5)
		case "error":
			reply["error"] = "simulated failure"
		case "protocol":
			reply["protocol"] = "other"
		case "noisy":
			cmd += "\nhead -c 300000 /dev/zero | tr '\\0' 'x'\nhead -c 300000 /dev/zero | tr '\\0' 'y' >&2\necho; echo done"
			refuse = false
		default:
			refuse = mode != "ok"
		}
		ans, _ := json.Marshal(reply)
		if mode == "syntax" {
			ans = ans[:len(ans)-2]
		}
		if mode == "empty" {
			ans = nil
		}
		os.WriteFile(filepath.Join(dir, "answer"), ans, 0600)
		script := filepath.Join(dir, "disc over.sh")
		os.WriteFile(script, []byte(fmt.Sprintf(extScript, dir, fmt.Sprintf(cmd, dir), code)), 0700)
		args := verifkit.Subset(r, []string{"one", "two words", "--three=x"})
		line := fmt.Sprintf("'%s'", script)
		for _, a := range args {
			line += fmt.Sprintf(" '%s'", a)
		}
		dopts := map[string]string{}
		for _, k := range verifkit.Subset(r, []string{"a", "b"}) {
			dopts[k] = name(r)
		}
		given := map[string]string{}
		for k, v := range dopts {
			given[k] = v
		}
		feds := verifkit.Subset(r, []string{"f1", "f2"})
		opts := []external.DiscoverOption{external.Filter(w.filter()), external.Collective(coll), external.Timeout(10 * time.Minute), external.Federations(feds)}
		if r.Intn(2) == 0 {
			given["command"] = line
		} else {
			opts = append(opts, external.Command(line))
		}
		opts = append(opts, external.DiscoveryOptions(given))

		input := fmt.Sprintf("%s %v %v", mode, w, nodes)
		for rep := 0; rep < 1+r.Intn(2); rep++ {
			var got []string
			var err error
			done := rec.Within(90*time.Second, "external-hang", func() {
				rec.NoPanic("external", input, func() { got, err = disc.Discover(context.Background(), opts...) })
			})
			if !done {
				return
			}
			rec.Case(true, input)
			rec.Count(mode, 1)
			if refuse {
				if err == nil {
					rec.Violation("external-invalid", "%s was not refused: %v", input, got)
				}
				continue
			}
			if err != nil {
				rec.Violation("external-error", "%s run %d: %v", input, rep, err)
				continue
			}
			expect := map[string]bool{}
			for _, n := range nodes {
				expect[n] = true
			}
			compare(rec, "external", input, got, expect)

			var sent struct {
				Protocol    string            `json:"protocol"`
				Collective  string            `json:"collective"`
				Filter      *protocol.Filter  `json:"filter"`
				Federations []string          `json:"federations"`
				Options     map[string]string `json:"options"`
				Timeout     float64           `json:"timeout"`
			}
			rb, _ := os.ReadFile(filepath.Join(dir, "request"))
			if err = json.Unmarshal(rb, &sent); err != nil {
				rec.Violation("external-request", "request was not json: %v", err)
				continue
			}
			if sent.Protocol != external.RequestProtocol || sent.Collective != coll || verifkit.J(sent.Filter) != verifkit.J(w.filter()) || len(sent.Federations) != len(feds) || verifkit.J(sent.Options) != verifkit.J(dopts) || sent.Timeout != 600 {
				rec.Violation("external-request", "asked %s in %s with %v and the command was given %s", w, coll, dopts, rb)
			}
			ab, _ := os.ReadFile(filepath.Join(dir, "args"))
			al := strings.Split(strings.TrimSuffix(string(ab), "\n"), "\n")
			if len(al) != 4+len(args) || strings.Join(al[1:1+len(args)], "|") != strings.Join(args, "|") || al[len(al)-1] != external.RequestProtocol {
				rec.Violation("external-args", "arguments %v were given as %q", args, al)
			}
		}
	}
	for _, c := range []string{" ", "''", "\t", "'", "/nonexisting", "#"} {
		rec.NoPanic("external-command", c, func() {
			_, err := disc.Discover(context.Background(), external.Command(c))
			if err == nil {
				rec.Violation("external-invalid", "command %q did not fail", c)
			}
		})
	}
}

// TestC29Broadcast discovers nodes answering on an in-memory network
func TestC29Broadcast(t *testing.T) {
	rec := verifkit.New(t, "C29", "broadcast discovery publishes the filter to the collective and returns every node that answered in time once, unusable replies are ignored, identity filters need no network")
	sem := make(chan struct{}, 12)
	var wg sync.WaitGroup
	total := verifkit.N(90, 1200)
	for i := 0; i < total; i++ {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			broadcastCase(rec, verifkit.Rand(fmt.Sprintf("c29-broadcast-%d", i)))
		}()
	}
	wg.Wait()
	rec.Require("asked the network", 20)
}

func broadcastCase(rec *verifkit.Rec, r *rand.Rand) {
	fw := vfake.NewNetFW(func(c *config.Config) { c.MainCollective = "mcollective"; c.Collectives = allColl })
	w := genWant(r)
	coll := verifkit.Pick(r, allColl)
	expect := map[string]bool{}
	var replies []string
	for j := r.Intn(12); j > 0; j-- {
		n := name(r)
		expect[n] = true
		replies = append(replies, n)
		for r.Intn(4) == 0 {
			replies = append(replies, n)
		}
		// another whose name is the start of this one
		if short, _, ok := strings.Cut(n, "."); ok && r.Intn(3) == 0 {
			expect[short] = true
			replies = append(replies, short)
		}
	}
	sort.Strings(replies)
	r.Shuffle(len(replies), func(a, b int) { replies[a], replies[b] = replies[b], replies[a] })
	junk := verifkit.Subset(r, []string{"", "{}", "null", "[]", "\x00\x01", `{"protocol":"choria:transport:1"}`, `{"protocol":"io.choria.protocol.v2.transport"}`, `{"protocol":"choria:transport:1","headers":{}}`})
	var pub *vfake.Published
	var mu sync.Mutex
	slow := false
	fw.Net.OnPublish = func(p *vfake.Published) {
		mu.Lock()
		defer mu.Unlock()
		pub = p
		started := time.Now()
		defer func() { slow = time.Since(started) > 500*time.Millisecond }()
		for _, x := range junk {
			fw.Net.Deliver(p.ReplyTo, []byte(x))
		}
		for _, n := range replies {
			fw.Net.Deliver(p.ReplyTo, fw.Net.Reply(p, n, []byte("pong")))
		}
	}
	var got []string
	var err error
	input := fmt.Sprintf("%v in %s replies %v", w, coll, replies)
	opts := []broadcast.DiscoverOption{broadcast.Filter(w.filter()), broadcast.Collective(coll), broadcast.Timeout(1500 * time.Millisecond)}
	if r.Intn(3) == 0 {
		opts = append(opts, broadcast.Name("monitor"))
	}
	asked := len(w.classes) == 0 && len(w.facts) == 0 && len(w.compound) == 0 && len(w.identities) > 0
	for _, id := range w.identities {
		asked = asked && !strings.HasPrefix(id, "/")
	}
	if !rec.Within(60*time.Second, "broadcast-hang", func() {
		rec.NoPanic("broadcast", input, func() { got, err = broadcast.New(fw).Discover(context.Background(), opts...) })
	}) {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if slow {
		rec.Inconclusive("replies could not be delivered quickly enough")
		return
	}
	rec.Case(len(expect) > 0, input)
	if err != nil {
		rec.Violation("broadcast-error", "%s: %v", input, err)
		return
	}
	if asked {
		rec.Count("identity only", 1)
		ids := map[string]bool{}
		for _, id := range w.identities {
			ids[id] = true
		}
		compare(rec, "broadcast-identities", input, got, ids)
		return
	}
	rec.Count("asked the network", 1)
	compare(rec, "broadcast", input, got, expect)
	if pub == nil || len(fw.Net.Published()) != 1 {
		rec.Violation("broadcast-request", "%s published %d messages", input, len(fw.Net.Published()))
		return
	}
	f, _ := pub.Request.Filter()
	wf := w.filter()
	if pub.Msg.Collective() != coll || pub.Request.Collective() != coll || pub.Request.Agent() != "discovery" || pub.Msg.Type() != inter.RequestMessageType {
		rec.Violation("broadcast-request", "%s published to agent %s collective %s", input, pub.Request.Agent(), pub.Request.Collective())
	}
	if verifkit.J(f) != verifkit.J(wf) {
		rec.Violation("broadcast-filter", "%s published filter %s rather than %s", input, verifkit.J(f), verifkit.J(wf))
	}
}
