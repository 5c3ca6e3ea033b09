package authz

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
)

// verdicts of one condition
const (
	no = iota
	yes
	bad // can not be evaluated
)

type node struct {
	name    string
	facts   string
	classes []string
}

type cond struct {
	text string
	on   map[string]int // verdict per node name
}

var nodes = []node{
	{"uk", `{"country":"uk","cpus":4,"load":1.5,"virtual":false,"os":{"family":"RedHat"},"site":"lon1"}`, []string{"apache", "common", "role::web"}},
	{"de", `{"country":"de","cpus":16,"load":0.5,"virtual":true,"os":{"family":"Debian"}}`, []string{"common", "role::Db"}},
	{"bare", `{}`, nil},
}

func c(text string, uk, de, bare int) cond {
	return cond{text, map[string]int{"uk": uk, "de": de, "bare": bare}}
}

var factConds = []cond{
	c("*", yes, yes, yes),
	c("country=uk", yes, no, no),
	c("country=UK", yes, no, no),
	c("country=fr", no, no, no),
	c("country!=fr", yes, yes, no),
	c("country!=uk", no, yes, no),
	c("country=/^u/", yes, no, no),
	c("cpus>4", no, yes, no),
	c("cpus>=4", yes, yes, no),
	c("cpus<5", yes, no, no),
	c("cpus<=16", yes, yes, no),
	c("load>1", yes, no, no),
	c("os.family=RedHat", yes, no, no),
	c("country=uk cpus=4", yes, no, no),
	c("country=uk cpus=16", no, no, no),
	c("country=de site=lon1", no, no, no),
	c("cpus>=4 country=/uk|de/", yes, yes, no),
	c("nosuch=1", no, no, no),
	c("virtual=true", no, yes, no),
	c("country", bad, bad, bad),
	c("country=uk garbage", bad, bad, bad),
}

var classConds = []cond{
	c("*", yes, yes, yes),
	c("apache", yes, no, no),
	c("Apache", yes, no, no),
	c("apache common", yes, no, no),
	c("common", yes, yes, no),
	c("role::web", yes, no, no),
	c("role::db", no, yes, no),
	c("/^role::/", yes, yes, no),
	c("/^role::/ apache", yes, no, no),
	c("nosuch", no, no, no),
	c("apache nosuch", no, no, no),
	c("country=uk", bad, bad, bad),
}

type callerCond struct {
	text  string
	match func(id string, groups map[string][]string) bool
}

func pre(p string) func(string, map[string][]string) bool {
	return func(id string, _ map[string][]string) bool { return strings.HasPrefix(id, p) }
}
func in(ids ...string) func(string, map[string][]string) bool {
	return func(id string, groups map[string][]string) bool {
		for _, i := range ids {
			if i == id {
				return true
			}
			for _, m := range groups[i] {
				if m == id {
					return true
				}
			}
		}
		return false
	}
}

var callerIDs = []string{"choria=rip.mcollective", "choria=bob.mcollective", "up=bob", "up=alice", "cert=sa1", "up=bobby", "up=eve", "choria=xup=bob"}

var callerConds = []callerCond{
	{"*", func(string, map[string][]string) bool { return true }},
	{"choria=rip.mcollective", in("choria=rip.mcollective")},
	{"up=bob", in("up=bob")},
	{"up=bob up=alice", in("up=bob", "up=alice")},
	{"UP=bob", in("UP=bob")},
	{"/^up=/", pre("up=")},
	{"/up=/", func(id string, _ map[string][]string) bool { return strings.Contains(id, "up=") }},
	{"/^up=bob$/", in("up=bob")},
	{"/mcollective$/ cert=sa1", func(id string, _ map[string][]string) bool {
		return strings.HasSuffix(id, "mcollective") || id == "cert=sa1"
	}},
	{"admins", in("admins")},
	{"admins ops", in("admins", "ops")},
	{"ops up=eve", in("ops", "up=eve")},
	{"nosuchgroup", in("nosuchgroup")},
	{"/[/", func(string, map[string][]string) bool { return false }},
	{"/unterminated", func(string, map[string][]string) bool { return false }},
}

var actionConds = []struct {
	text  string
	match func(string) bool
}{
	{"*", func(string) bool { return true }},
	{"status", func(a string) bool { return a == "status" }},
	{"status restart", func(a string) bool { return a == "status" || a == "restart" }},
	{"Status", func(a string) bool { return a == "Status" }},
	{"stat", func(a string) bool { return a == "stat" }},
}

type policy struct {
	text string
	eval func(caller, action, node string, groups map[string][]string, unconfigured bool) bool
}

func genPolicy(rnd *rand.Rand) policy {
	type rule struct {
		kind   string // rule, default, noise
		allow  bool
		caller callerCond
		action int
		fact   cond
		class  cond
	}
	var rules []rule
	var b strings.Builder
	if rnd.Intn(3) > 0 {
		d := rnd.Intn(2) == 0
		rules = append(rules, rule{kind: "default", allow: d})
		fmt.Fprintf(&b, "policy default %s\n", map[bool]string{true: "allow", false: "deny"}[d])
	}
	for i := 0; i < rnd.Intn(8); i++ {
		switch rnd.Intn(10) {
		case 0:
			b.WriteString(verifkit.Pick(rnd, []string{"# allow\t*\t*\t*\t*\n", "\n", "   \n", "#\n"}))
		case 1:
			// lines that are not rules never decide anything
			b.WriteString(verifkit.Pick(rnd, []string{"allow * * * *\n", "permit\t*\t*\t*\t*\n", "ALLOW\t*\t*\t*\t*\n", "allow\t*\n", "policy allow\n", " allow\t*\t*\t*\t*\n",
				"allow\t*\t*\tcountry=uk and cpus=4\t*\n", "allow\t*\t*\t*\tnot apache\n", "allow\t*\t*\t!country=uk\t*\n", "allow\t*\t*\t*\t(apache or common)\n"}))
		case 2:
			if rnd.Intn(2) == 0 {
				d := verifkit.Pick(rnd, []string{"allow", "deny", "Allow", "yes", "allowed"})
				rules = append(rules, rule{kind: "default", allow: d == "allow"})
				fmt.Fprintf(&b, "policy default %s\n", d)
			}
		default:
			r := rule{kind: "rule", allow: rnd.Intn(2) == 0, caller: verifkit.Pick(rnd, callerConds), action: rnd.Intn(len(actionConds)), fact: factConds[0], class: classConds[0]}
			if rnd.Intn(2) == 0 {
				r.fact = verifkit.Pick(rnd, factConds)
			}
			if rnd.Intn(2) == 0 {
				r.class = verifkit.Pick(rnd, classConds)
			}
			rules = append(rules, r)
			sep := verifkit.Pick(rnd, []string{"\t", "\t", "\t\t"})
			verb := "deny"
			if r.allow {
				verb = "allow"
			}
			if r.class.text == "*" && rnd.Intn(6) == 0 {
				// a rule without its class column can not be evaluated
				r.class = c("", bad, bad, bad)
				rules[len(rules)-1] = r
				b.WriteString(strings.Join([]string{verb, r.caller.text, actionConds[r.action].text, r.fact.text}, sep) + "\n")
				continue
			}
			b.WriteString(strings.Join([]string{verb, r.caller.text, actionConds[r.action].text, r.fact.text, r.class.text}, sep) + "\n")
		}
	}
	return policy{b.String(), func(caller, action, node string, groups map[string][]string, unconfigured bool) bool {
		dflt := unconfigured
		for _, r := range rules {
			if r.kind == "default" {
				dflt = r.allow
				continue
			}
			if !r.caller.match(caller, groups) || !actionConds[r.action].match(action) {
				continue
			}
			f, k := r.fact.on[node], r.class.on[node]
			if f == bad || k == bad {
				return false
			}
			if f == yes && k == yes {
				return r.allow
			}
		}
		return dflt
	}}
}

// TestC08Policies compares generated policies with a reference reading of their rules
func TestC08Policies(t *testing.T) {
	rec := verifkit.New(t, "C08", "for generated policy, group, class and fact files the verdict is that of the first rule whose conditions all hold, else the default; file selection follows agent policy, configured default policy, unconfigured access; unusable policies deny")
	rnd := verifkit.Rand("c08")

	truthy := map[string]bool{"1": true, "y": true, "yes": true, "true": true, "0": false, "n": false, "no": false, "false": false, "bogus": false, "": false}
	var flags []string
	for k := range truthy {
		flags = append(flags, k)
	}
	// a fixed order
	flags = []string{"1", "y", "yes", "true", "0", "n", "no", "false", "bogus", ""}
	_ = truthy

	for i := 0; i < verifkit.N(1500, 20000); i++ {
		dir := t.TempDir()
		pdir := filepath.Join(dir, "policies")
		os.MkdirAll(pdir, 0700)
		n := verifkit.Pick(rnd, nodes)
		os.WriteFile(filepath.Join(dir, "facts.json"), []byte(n.facts), 0600)
		os.WriteFile(filepath.Join(dir, "classes.txt"), []byte(strings.Join(n.classes, "\n")+"\n"), 0600)

		groups := map[string][]string{}
		if rnd.Intn(4) > 0 {
			var g strings.Builder
			for _, name := range []string{"admins", "ops", "admins"} {
				if rnd.Intn(2) == 0 {
					m := verifkit.Subset(rnd, callerIDs)
					if len(m) > 0 {
						groups[name] = m
						fmt.Fprintf(&g, "%s %s\n", name, strings.Join(m, " "))
					}
				}
				g.WriteString(verifkit.Pick(rnd, []string{"", "# ops up=eve\n", "lonely\n", "bad/name up=eve up=bob\n", "\n"}))
			}
			os.WriteFile(filepath.Join(pdir, "groups"), []byte(g.String()), 0600)
		}

		agentPol, dfltPol, otherPol := genPolicy(rnd), genPolicy(rnd), genPolicy(rnd)
		haveAgent, haveDflt, otherName := rnd.Intn(3) > 0, rnd.Intn(2) == 0, rnd.Intn(3) == 0
		if haveAgent {
			os.WriteFile(filepath.Join(pdir, "service.policy"), []byte(agentPol.text), 0600)
		}
		if haveDflt {
			os.WriteFile(filepath.Join(pdir, "default.policy"), []byte(dfltPol.text), 0600)
		}
		os.WriteFile(filepath.Join(pdir, "other.policy"), []byte(otherPol.text), 0600)

		cfg := config.NewConfigForTests()
		cfg.RPCAuthorization = true
		cfg.RPCAuthorizationProvider = verifkit.Pick(rnd, []string{"action_policy", "Action_policy"})
		cfg.ConfigFile = filepath.Join(dir, "server.conf")
		cfg.FactSourceFile = filepath.Join(dir, "facts.json")
		cfg.ClassesFile = filepath.Join(dir, "classes.txt")
		useDflt, unconf := "", ""
		if rnd.Intn(4) > 0 {
			useDflt = verifkit.Pick(rnd, flags)
			cfg.SetOption("plugin.actionpolicy.enable_default", useDflt)
		}
		if rnd.Intn(4) > 0 {
			unconf = verifkit.Pick(rnd, flags)
			cfg.SetOption("plugin.actionpolicy.allow_unconfigured", unconf)
		}
		if otherName {
			cfg.SetOption("plugin.actionpolicy.default_name", "other")
		}
		broken := ""
		if rnd.Intn(8) == 0 {
			broken = verifkit.Pick(rnd, []string{"dir", "long"})
			os.RemoveAll(filepath.Join(pdir, "service.policy"))
			if broken == "dir" {
				os.Mkdir(filepath.Join(pdir, "service.policy"), 0700)
			} else {
				// a line too long to read ends the policy, nothing before it decides
				os.WriteFile(filepath.Join(pdir, "service.policy"), []byte("policy default allow\n# "+strings.Repeat("x", 100000)+"\nallow\t*\t*\t*\t*\n"), 0600)
			}
		}

		si := &vfake.Server{ClassesV: n.classes, FactsV: []byte(n.facts), AgentsV: []string{"service"}, IdentityV: "n.example.net"}
		for j := 0; j < 6; j++ {
			caller, action := verifkit.Pick(rnd, callerIDs), verifkit.Pick(rnd, []string{"status", "status", "restart", "stop", "Status", "stat"})
			req := &mcorpc.Request{Agent: "service", Action: action, CallerID: caller, RequestID: "r1", Data: []byte(`{}`)}
			u := truthy[unconf]
			want, used := u, "none"
			switch {
			case broken != "":
				want, used = false, broken
			case haveAgent:
				want, used = agentPol.eval(caller, action, n.name, groups, u), agentPol.text
			case truthy[useDflt] && otherName:
				want, used = otherPol.eval(caller, action, n.name, groups, u), otherPol.text
			case truthy[useDflt] && haveDflt:
				want, used = dfltPol.eval(caller, action, n.name, groups, u), dfltPol.text
			}
			var got bool
			input := fmt.Sprintf("caller %s action %s node %s groups %v unconfigured %q default %q\npolicy:\n%.1500s", caller, action, n.name, groups, unconf, useDflt, used)
			if !rec.NoPanic("authorize", input, func() { got = mcorpc.AuthorizeRequest(nil, req, cfg, si, vfake.Log()) }) {
				continue
			}
			rec.Case(used != "none", input)
			if want {
				rec.Count("allowed", 1)
			} else {
				rec.Count("denied", 1)
			}
			if got != want {
				key := "wrongly-denied"
				if got {
					key = "wrongly-allowed"
				}
				rec.Violation(key, "verdict %v, the policy says %v: %s", got, want, input)
			}
		}
		os.RemoveAll(dir)
	}
	rec.Require("allowed", 300)
	rec.Require("denied", 300)
}
