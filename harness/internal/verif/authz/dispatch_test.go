package authz

import (
	"context"
	"crypto/ed25519"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
)

// cReq carries the credentials security would have verified
type cReq struct {
	protocol.Request
	caller string
	filter *protocol.Filter
}

func (r *cReq) CallerPublicData() string          { return r.caller }
func (r *cReq) Filter() (*protocol.Filter, bool) { return r.filter, r.filter != nil }

type attempt struct {
	agent, action, caller, collective string
	ttl                               int
	data                              string
	filter                            *protocol.Filter
	token                             string
	payload                           []byte // overrides the well formed payload
}

type result struct {
	ran     int
	replies []*mcorpc.Reply
	audited bool // the audit log held the request when the action ran
	audits  int
	bad     string
}

func run(fw *choria.Framework, si *vfake.Server, a attempt) (res result, err error) {
	log := vfake.Log()
	ag := mcorpc.New("service", &agents.Metadata{Name: "service", Timeout: 5, Version: "1.0.0"}, fw, log)
	ag.SetServerInfo(si)
	cfg := fw.Configuration()
	auditSize := func() int {
		if cfg.Choria.RPCAuditLogfile == "" {
			return 0
		}
		d, _ := os.ReadFile(cfg.Choria.RPCAuditLogfile)
		return strings.Count(string(d), "\n")
	}
	start := auditSize()
	act := func(_ context.Context, req *mcorpc.Request, reply *mcorpc.Reply, _ *mcorpc.Agent, _ inter.ConnectorInfo) {
		res.ran++
		res.audited = auditSize() == start+1
		if req.CallerID != a.caller || req.Action != a.action || req.Collective != a.collective {
			res.bad = fmt.Sprintf("the action saw caller %q action %q collective %q", req.CallerID, req.Action, req.Collective)
		}
		reply.Data = map[string]string{"ran": req.Action}
	}
	for _, n := range []string{"status", "restart"} {
		ag.MustRegisterAction(n, act)
	}

	payload := a.payload
	if payload == nil {
		payload, _ = json.Marshal(map[string]any{"agent": a.agent, "action": a.action, "data": json.RawMessage(a.data)})
	}
	preq, err := v2.NewRequest("service", "sender.example.net", a.caller, a.ttl, "0123456789abcdef0123456789abcdef", a.collective)
	if err != nil {
		return res, err
	}
	preq.SetMessage(payload)
	if a.filter != nil {
		preq.SetFilter(a.filter)
	}
	msg, err := fw.NewMessage(payload, "service", a.collective, inter.RequestMessageType, nil)
	if err != nil {
		return res, err
	}
	out := make(chan *agents.AgentReply, 10)
	ag.HandleMessage(context.Background(), msg, &cReq{preq, a.token, a.filter}, nil, out)
	close(out)
	for r := range out {
		rep := &mcorpc.Reply{}
		if err := json.Unmarshal(r.Body, rep); err != nil {
			res.bad = fmt.Sprintf("undecodable reply %q: %v", r.Body, err)
		}
		if r.Error != nil {
			res.bad = fmt.Sprintf("reply error %v", r.Error)
		}
		res.replies = append(res.replies, rep)
	}
	res.audits = auditSize() - start
	return res, nil
}

func judge(rec *verifkit.Rec, what string, want bool, audit bool, a attempt, res result, err error) {
	if err != nil {
		rec.Inconclusive("could not dispatch: %v", err)
		return
	}
	rec.Case(true, what)
	if res.bad != "" {
		rec.Violation("corrupt", "%s: %s", res.bad, what)
	}
	if len(res.replies) != 1 {
		rec.Violation("replies", "%d replies: %s", len(res.replies), what)
		return
	}
	code := res.replies[0].Statuscode
	if want {
		rec.Count("allowed", 1)
		if res.ran != 1 || code != mcorpc.OK {
			rec.Violation("wrongly-denied", "ran %d times status %d %s: %s", res.ran, code, res.replies[0].Statusmsg, what)
		}
		if audit && (!res.audited || res.audits != 1) {
			rec.Violation("audit", "the action ran with %d audit records, present before running %v: %s", res.audits, res.audited, what)
		}
		return
	}
	rec.Count("denied", 1)
	if res.ran != 0 {
		rec.Violation("wrongly-allowed", "ran %d times: %s", res.ran, what)
	}
	if code != mcorpc.Aborted {
		rec.Violation("denied-status", "denied with status %d %s: %s", code, res.replies[0].Statusmsg, what)
	}
	if res.audits != 0 {
		rec.Violation("audit", "a denied request was audited as run: %s", what)
	}
}

const head = "package io.choria.mcorpc.authpolicy\n"
const thead = "package io.choria.aaasvc\n"

// policies that never yield true whatever the request
var neverTrue = []string{
	"",
	"\n",
	"allow := true\n",
	"%s",
	"%sallow := false\n",
	"%sdefault allow := false\n",
	"%sdefault allow := false\nallow if false\n",
	"%sallow := \"true\"\n",
	"%sallow := 1\n",
	"%sallow := {\"a\"}\n",
	"%sallow := [true]\n",
	"%sallow := {\"allow\": true}\n",
	"%sallow := null\n",
	"%sallow contains \"x\"\n",
	"%sallow if input.nosuch.thing == 1\n",
	"%sallowed := true\n",
	"%sallow if { input.agent ==\n",
	"%sallow := true if { nosuchfunction(1) }\n",
	"%sallow := x if { x := [true,false][_] }\n",
	"%sallow := true\nallow := false\n",
	"%sdefault allow := true\ndefault allow := false\n",
	"%sallow[x] := true if { x := \"a\" }\n",
	"package io.choria.other\nallow := true\n",
	"%sallow := to_number(\"x\")\n",
	"%sallow if { not input.agent }\n",
	"garbage \x00 \xff",
}

func genRequest(rnd *rand.Rand) attempt {
	a := attempt{agent: "service", action: verifkit.Pick(rnd, []string{"status", "restart"}), caller: verifkit.Pick(rnd, callerIDs), collective: verifkit.Pick(rnd, []string{"ginkgo", "mcollective"}), ttl: 20 + rnd.Intn(3), filter: protocol.NewFilter()}
	a.data = verifkit.Pick(rnd, []string{`{}`, `{"component":"frontend"}`, `{"component":"backend","n":2}`})
	if rnd.Intn(3) == 0 {
		a.filter.AddClassFilter("apache")
	}
	if rnd.Intn(3) == 0 {
		a.filter.AddIdentityFilter("some.node")
	}
	if rnd.Intn(3) == 0 {
		a.filter.AddFactFilter("country", "==", "mt")
	}
	if rnd.Intn(6) == 0 {
		a.filter.AddCompoundFilter("apache or common")
	}
	return a
}

// TestC09Rego dispatches to an agent guarded by rego policies
func TestC09Rego(t *testing.T) {
	rec := verifkit.New(t, "C09", "an agent guarded by rego policies runs its action exactly when the policy for it, evaluated over the request and node, yields true; absent, unusable or non boolean policies abort the request without running or auditing it")
	rnd := verifkit.Rand("c09-rego")

	base := t.TempDir()
	for i := 0; i < verifkit.N(500, 5000); i++ {
		// mostly the same files with other policies in them
		dir := filepath.Join(base, fmt.Sprint(rnd.Intn(10)/9*i))
		os.RemoveAll(dir)
		rdir := filepath.Join(dir, "policies", "rego")
		os.MkdirAll(rdir, 0700)
		audit := rnd.Intn(2) == 0
		n := verifkit.Pick(rnd, nodes)
		fw := vfake.FW(func(c *config.Config) {
			c.ConfigFile = filepath.Join(dir, "server.conf")
			c.RPCAuthorization = true
			c.RPCAuthorizationProvider = verifkit.Pick(rnd, []string{"rego_policy", "Rego_policy", "REGO_POLICY"})
			c.RPCAudit = audit
			c.Choria.RPCAuditLogfile = filepath.Join(dir, "audit.log")
			if rnd.Intn(4) == 0 {
				c.SetOption("plugin.regopolicy.tracing", "y")
			}
		})
		si := &vfake.Server{ClassesV: n.classes, FactsV: []byte(n.facts), AgentsV: []string{"service", "discovery"}, IdentityV: "n.example.net"}
		a := genRequest(rnd)

		type clause struct {
			text string
			ok   bool
		}
		data := map[string]any{}
		json.Unmarshal([]byte(a.data), &data)
		clauses := []clause{
			{`input.agent == "service"`, true},
			{`input.agent == "other"`, false},
			{`input.action == "status"`, a.action == "status"},
			{`input.callerid == "up=bob"`, a.caller == "up=bob"},
			{`startswith(input.callerid, "up=")`, strings.HasPrefix(a.caller, "up=")},
			{`input.collective == "ginkgo"`, a.collective == "ginkgo"},
			{`input.ttl == 21`, a.ttl == 21},
			{`input.ttl > 20`, a.ttl > 20},
			{`input.data.component == "frontend"`, data["component"] == "frontend"},
			{`input.data.n == 2`, data["n"] != nil},
			{`not input.data.component`, data["component"] == nil},
			{`input.facts.country == "uk"`, n.name == "uk"},
			{`input.facts.cpus >= 4`, n.name != "bare"},
			{`not input.facts.country`, n.name == "bare"},
			{`"apache" in input.classes`, n.name == "uk"},
			{`"discovery" in input.agents`, true},
			{`"missing" in input.agents`, false},
			{`input.provision_mode == false`, true},
			{`input.provision_mode`, false},
			{`time.parse_rfc3339_ns(input.time) > 0`, true},
		}
		body := "default allow := false\n"
		if rnd.Intn(4) == 0 {
			body = ""
		}
		truth := false
		for r := 0; r < rnd.Intn(3)+1; r++ {
			ok := true
			body += "allow if {\n"
			for k := 0; k < rnd.Intn(3)+1; k++ {
				cl := verifkit.Pick(rnd, clauses)
				if rnd.Intn(2) == 0 {
					for t := 0; t < 10 && !cl.ok; t++ {
						cl = verifkit.Pick(rnd, clauses)
					}
				}
				body += "  " + cl.text + "\n"
				ok = ok && cl.ok
			}
			body += "}\n"
			truth = truth || ok
		}
		text := head + body
		if rnd.Intn(3) == 0 {
			text = verifkit.Pick(rnd, neverTrue)
			if strings.Contains(text, "%s") {
				text = fmt.Sprintf(text, head)
			}
			truth = false
		}
		where := verifkit.Pick(rnd, []string{"agent", "agent", "default", "both", "none", "dir", "other"})
		agentFile, dfltFile := filepath.Join(rdir, "service.rego"), filepath.Join(rdir, "default.rego")
		allowAll := head + "allow := true\n"
		switch where {
		case "agent":
			os.WriteFile(agentFile, []byte(text), 0600)
		case "default":
			os.WriteFile(dfltFile, []byte(text), 0600)
		case "both":
			// the agent's own policy wins over a default that allows all
			os.WriteFile(agentFile, []byte(text), 0600)
			os.WriteFile(dfltFile, []byte(allowAll), 0600)
		case "none":
			truth = false
		case "dir":
			os.Mkdir(agentFile, 0700)
			os.WriteFile(dfltFile, []byte(allowAll), 0600)
			truth = false
		case "other":
			os.WriteFile(filepath.Join(rdir, "puppet.rego"), []byte(allowAll), 0600)
			os.WriteFile(filepath.Join(dir, "policies", "service.rego"), []byte(allowAll), 0600)
			truth = false
		}
		what := fmt.Sprintf("policy at %s node %s request %+v\n%s", where, n.name, a, text)
		rec.NoPanic("rego", what, func() {
			res, err := run(fw, si, a)
			judge(rec, what, truth, audit, a, res, err)
		})
		os.RemoveAll(dir)
	}
	rec.Require("allowed", 60)
	rec.Require("denied", 100)
}

// TestC09Tokens dispatches to an agent guarded by policies embedded in the caller's token
func TestC09Tokens(t *testing.T) {
	rec := verifkit.New(t, "C09", "an agent guarded by token embedded policies runs its action exactly when the caller's token lists the action or its embedded policy yields true; tokens that are absent, unparsable, of another purpose, without policy or with several abort the request")
	rnd := verifkit.Rand("c09-tokens")
	pub, pri, err := ed25519.GenerateKey(rnd)
	if err != nil {
		t.Fatal(err)
	}
	dir := t.TempDir()
	mk := func(audit bool) *choria.Framework {
		return vfake.FW(func(c *config.Config) {
			c.ConfigFile = filepath.Join(dir, "server.conf")
			c.RPCAuthorization = true
			c.RPCAuthorizationProvider = verifkit.Pick(rnd, []string{"aaasvc", "aaasvc_policy", "Aaasvc"})
			c.RPCAudit = audit
			c.Choria.RPCAuditLogfile = filepath.Join(dir, "audit.log")
		})
	}
	si := &vfake.Server{FactsV: []byte(`{}`), IdentityV: "n.example.net"}

	for i := 0; i < verifkit.N(600, 6000); i++ {
		audit := rnd.Intn(2) == 0
		fw := mk(audit)
		a := genRequest(rnd)
		var list []string
		var rego string
		truth := false
		kind := verifkit.Pick(rnd, []string{"list", "list", "list", "rego", "rego", "rego", "rego-never", "neither", "both", "notoken", "garbage", "server", "provision"})
		props := map[string]string{"group": "admins"}

		switch kind {
		case "list", "both":
			items := []string{"service.status", "service.restart", "service.*", "*", "other.status", "other.*", "Service.status", "service.Status", "*.status", "service.stat", "service.sta*"}
			for k := 0; k < rnd.Intn(3)+1; k++ {
				it := verifkit.Pick(rnd, items)
				if (it == "*" || it == "service.*") && rnd.Intn(2) == 0 {
					it = "other.status"
				}
				list = append(list, it)
			}
			for _, it := range list {
				truth = truth || it == "*" || it == "service.*" || it == "service."+a.action
			}
			if kind == "list" && !truth && rnd.Intn(3) == 0 {
				// entries that can not be understood
				list = append(list, verifkit.Pick(rnd, []string{"service", "", "service.status.x", "a.b.c", "service."}))
			}
			if kind == "both" {
				rego, truth = thead+"allow := true\n", false
			}
		case "rego":
			has := func(l []string, w string) bool {
				for _, x := range l {
					if x == w {
						return true
					}
				}
				return false
			}
			fact := false
			for _, f := range a.filter.Fact {
				fact = fact || (f.Fact == "country" && f.Operator == "==" && f.Value == "mt")
			}
			type clause struct {
				text string
				ok   bool
			}
			clauses := []clause{
				{`input.agent == "service"`, true},
				{`input.agent == "other"`, false},
				{`input.action == "status"`, a.action == "status"},
				{`input.collective == "ginkgo"`, a.collective == "ginkgo"},
				{`input.ttl == 21`, a.ttl == 21},
				{`input.data.component == "frontend"`, strings.Contains(a.data, "frontend")},
				{`input.sender == "sender.example.net"`, true},
				{`input.site == "server"`, true},
				{`input.claims.callerid == "` + a.caller + `"`, true},
				{`input.claims.callerid == "up=nobody"`, false},
				{`input.claims.user_properties.group == "admins"`, true},
				{`input.claims.user_properties.group == "users"`, false},
				{`requires_class_filter("apache")`, has(a.filter.Class, "apache")},
				{`requires_class_filter("common")`, false},
				{`requires_identity_filter("some.node")`, has(a.filter.Identity, "some.node")},
				{`requires_fact_filter("country=mt")`, fact},
				{`requires_fact_filter("country=de")`, false},
				{`requires_filter()`, len(a.filter.Class)+len(a.filter.Identity)+len(a.filter.Fact)+len(a.filter.Compound) > 0},
			}
			body := "default allow := false\n"
			for r := 0; r < rnd.Intn(2)+1; r++ {
				ok := true
				body += "allow if {\n"
				for k := 0; k < rnd.Intn(3)+1; k++ {
					cl := verifkit.Pick(rnd, clauses)
					for t := 0; t < 4 && !cl.ok; t++ {
						cl = verifkit.Pick(rnd, clauses)
					}
					body += "  " + cl.text + "\n"
					ok = ok && cl.ok
				}
				body += "}\n"
				truth = truth || ok
			}
			rego = thead + body
		case "rego-never":
			rego = verifkit.Pick(rnd, neverTrue)
			if strings.Contains(rego, "%s") {
				rego = fmt.Sprintf(rego, thead)
			}
		}

		var token string
		switch kind {
		case "notoken":
		case "garbage":
			token = verifkit.Pick(rnd, []string{"x", "a.b.c", "....", "{}", "eyJhbGciOiJub25lIn0.e30."})
		case "server":
			cl, err := tokens.NewServerClaims("n.example.net", []string{"ginkgo"}, "choria", nil, nil, pub, "", time.Hour)
			if err != nil {
				t.Fatal(err)
			}
			token, err = tokens.SignToken(cl, pri)
			if err != nil {
				t.Fatal(err)
			}
		case "provision":
			cl, err := tokens.NewProvisioningClaims(true, true, "x", "u", "p", []string{"nats://h:1"}, "", "", "", "choria", "issuer", time.Hour)
			if err != nil {
				t.Fatal(err)
			}
			token, err = tokens.SignToken(cl, pri)
			if err != nil {
				t.Fatal(err)
			}
		default:
			cl, err := tokens.NewClientIDClaims(a.caller, list, "choria", props, rego, "", time.Hour, &tokens.ClientPermissions{FleetManagement: true}, pub)
			if err != nil {
				t.Fatal(err)
			}
			token, err = tokens.SignToken(cl, pri)
			if err != nil {
				t.Fatal(err)
			}
		}
		a.token = token
		what := fmt.Sprintf("token %s list %q request %s#%s data %s filter %s\n%s", kind, list, a.agent, a.action, a.data, verifkit.J(a.filter), rego)
		rec.Count("token "+kind, 1)
		rec.NoPanic("token", what, func() {
			res, err := run(fw, si, a)
			judge(rec, what, truth, audit, a, res, err)
		})
	}
	rec.Require("allowed", 100)
	rec.Require("denied", 100)
}

// TestC09Settings dispatches under every authorization setting and hostile payloads
func TestC09Settings(t *testing.T) {
	rec := verifkit.New(t, "C09", "unknown authorization systems, requests for another agent, missing collaborators and undecodable payloads never run an action; with authorization disabled every known action runs")
	rnd := verifkit.Rand("c09-settings")
	dir := t.TempDir()
	os.MkdirAll(filepath.Join(dir, "policies", "rego"), 0700)
	// everything is allowed for every system, only the setting decides
	for _, n := range []string{"service", "other", "default"} {
		os.WriteFile(filepath.Join(dir, "policies", n+".policy"), []byte("policy default allow\n"), 0600)
		os.WriteFile(filepath.Join(dir, "policies", "rego", n+".rego"), []byte(head+"allow := true\n"), 0600)
	}
	pub, pri, _ := ed25519.GenerateKey(rnd)
	cl, err := tokens.NewClientIDClaims("up=bob", []string{"*"}, "choria", nil, "", "", time.Hour, nil, pub)
	if err != nil {
		t.Fatal(err)
	}
	token, _ := tokens.SignToken(cl, pri)
	si := &vfake.Server{FactsV: []byte(`{}`), IdentityV: "n.example.net"}

	provs := []string{"action_policy", "Action_policy", "rego_policy", "aaasvc", "aaasvc_policy", "", " ", "none", "allow", "action_policy ", "actionpolicy", "rego", "unknown", "true", "Action_Policy"}
	for _, prov := range provs {
		known := map[string]bool{"action_policy": true, "rego_policy": true, "aaasvc": true, "aaasvc_policy": true}[strings.ToLower(prov)]
		for _, enabled := range []bool{true, false} {
			for _, agent := range []string{"service", "other", "", "Service"} {
				for _, action := range []string{"status", "restart"} {
					fw := vfake.FW(func(c *config.Config) {
						c.ConfigFile = filepath.Join(dir, "server.conf")
						c.RPCAuthorization = enabled
						c.RPCAuthorizationProvider = prov
					})
					a := attempt{agent: agent, action: action, caller: "up=bob", collective: "ginkgo", ttl: 60, data: "{}", filter: protocol.NewFilter(), token: token}
					what := fmt.Sprintf("provider %q enabled %v for agent %q action %s", prov, enabled, agent, action)
					rec.NoPanic("setting", what, func() {
						res, err := run(fw, si, a)
						judge(rec, what, !enabled || (known && agent == "service"), false, a, res, err)
					})
				}
			}
		}
		// direct use without collaborators
		cfg := config.NewConfigForTests()
		cfg.RPCAuthorization = true
		cfg.RPCAuthorizationProvider = prov
		cfg.ConfigFile = filepath.Join(dir, "server.conf")
		req := &mcorpc.Request{Agent: "service", Action: "status", CallerID: "up=bob", Data: []byte("{}"), CallerPublicData: token}
		for n, f := range map[string]func() bool{
			"no request":       func() bool { return mcorpc.AuthorizeRequest(nil, nil, cfg, si, vfake.Log()) },
			"no server info":   func() bool { return mcorpc.AuthorizeRequest(nil, req, cfg, nil, vfake.Log()) },
			"no configuration": func() bool { return mcorpc.AuthorizeRequest(nil, req, nil, si, vfake.Log()) },
			"no agent":         func() bool { return mcorpc.AuthorizeRequest(nil, &mcorpc.Request{Action: "status"}, cfg, si, vfake.Log()) },
		} {
			rec.NoPanic("missing", n, func() {
				rec.Case(true, prov+n)
				if f() {
					rec.Violation("wrongly-allowed", "provider %q with %s allowed", prov, n)
				}
			})
		}
	}

	// unknown actions and hostile payloads
	payloads := []string{"", "null", "[]", "1", `"x"`, "{", `{"agent":1}`, `{"agent":"service","action":["status"]}`, "\xff", `{"agent":"service"}`, `{"agent":"service","action":""}`, `{"agent":"service","action":"Status"}`, `{"agent":"service","action":"status\u0000"}`, `{"agent":"service","action":"nosuch","data":{}}`, `{"action":"status","agent":"service"`, `{"agent":"service","action":null}`}
	for _, enabled := range []bool{true, false} {
		for _, p := range payloads {
			fw := vfake.FW(func(c *config.Config) {
				c.ConfigFile = filepath.Join(dir, "server.conf")
				c.RPCAuthorization = enabled
				c.RPCAuthorizationProvider = "action_policy"
			})
			a := attempt{caller: "up=bob", collective: "ginkgo", ttl: 60, filter: protocol.NewFilter(), token: token, payload: []byte(p)}
			rec.NoPanic("payload", p, func() {
				res, err := run(fw, si, a)
				if err != nil {
					rec.Inconclusive("%v", err)
					return
				}
				rec.Case(true, fmt.Sprintf("%v %q", enabled, p))
				rec.Count("hostile payloads", 1)
				if res.ran != 0 || len(res.replies) != 1 {
					rec.Violation("hostile-payload", "payload %q ran %d actions with %d replies", p, res.ran, len(res.replies))
					return
				}
				code := res.replies[0].Statuscode
				want := mcorpc.UnknownAction
				var r mcorpc.Request
				if json.Unmarshal([]byte(p), &r) != nil {
					want = mcorpc.InvalidData
				}
				if code != want {
					rec.Violation("hostile-status", "payload %q got status %d, expected %d", p, code, want)
				}
			})
		}
	}
	rec.Require("allowed", 50)
	rec.Require("denied", 100)
}
