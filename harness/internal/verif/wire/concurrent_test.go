package wire

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/server/agents"
)

const agentTimeout = 5

type auditLine struct {
	RequestID string          `json:"request_id"`
	CallerID  string          `json:"caller"`
	Agent     string          `json:"agent"`
	Action    string          `json:"action"`
	Data      json.RawMessage `json:"data"`
}

func readAudit(file string) (map[string][]auditLine, error) {
	b, err := os.ReadFile(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	res := map[string][]auditLine{}
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 10<<20)
	for sc.Scan() {
		var l auditLine
		if err := json.Unmarshal(sc.Bytes(), &l); err != nil {
			return res, fmt.Errorf("%q: %w", sc.Text(), err)
		}
		res[l.RequestID] = append(res[l.RequestID], l)
	}
	return res, sc.Err()
}

type rpcAnswer struct {
	Action     string `json:"action"`
	Statuscode int    `json:"statuscode"`
	Statusmsg  string `json:"statusmsg"`
	Data       struct {
		ID      string         `json:"id"`
		Got     map[string]any `json:"got"`
		Agent   string         `json:"agent"`
		Version string         `json:"version"`
	} `json:"data"`
}

type sentRequest struct {
	id, agent, action, kind string
	num                     int
}

// TestC12Concurrent sends concurrent requests to a real server while its agents are managed
func TestC12Concurrent(t *testing.T) {
	rec := verifkit.New(t, "C12", "whatever mix of requests and agent management is in progress each accepted request invokes at most one action once, yields exactly one reply with its id and the agent's result and is audited before it runs; refused ones reply with the documented status and invoke nothing; overrunning ones affect no other")
	rng := verifkit.Rand("c12")

	for round := 0; round < verifkit.N(14, 300); round++ {
		v := 1 + round%2
		dir := t.TempDir()
		auditing := rng.Intn(4) > 0
		authz := rng.Intn(2) == 0
		auditFile := filepath.Join(dir, "audit.log")
		cl := ends()[v][0]
		srv := newEnd(v, "srv1.example.net", func(cfg *config.Config) {
			cfg.ConfigFile = filepath.Join(dir, "server.conf")
			cfg.RPCAudit = auditing
			cfg.Choria.RPCAuditLogfile = auditFile
			if authz {
				cfg.RPCAuthorization = true
				cfg.RPCAuthorizationProvider = "action_policy"
				os.MkdirAll(filepath.Join(dir, "policies"), 0700)
				for _, a := range []string{"alpha", "beta", "flux"} {
					must(os.WriteFile(filepath.Join(dir, "policies", a+".policy"), []byte("policy default allow\ndeny\t*\tdenied\t*\t*\n"), 0600))
				}
			}
		})

		synctest.Test(t, func(t *testing.T) {
			catchUp()
			l := &callLog{}
			net := vfake.WrapNet(srv.fw)
			inst, stop := vfake.StartServer(context.Background(), net)
			mgr := inst.AgentManager()
			var unaudited []string
			var umu sync.Mutex
			audited := func(f mcorpc.Action) mcorpc.Action {
				return func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
					if auditing {
						lines, err := readAudit(auditFile)
						if n := len(lines[req.RequestID]); err != nil || n != 1 {
							umu.Lock()
							unaudited = append(unaudited, fmt.Sprintf("request %s of %s: %d audit lines: %v", req.RequestID, ag.Name(), n, err))
							umu.Unlock()
						}
					}
					f(ctx, req, rep, ag, conn)
				}
			}
			actions := map[string]mcorpc.Action{
				"echo":   audited(echo),
				"denied": audited(echo),
				"slow": audited(func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
					var d struct{ MS int }
					json.Unmarshal(req.Data, &d)
					time.Sleep(time.Duration(d.MS) * time.Millisecond)
					echo(ctx, req, rep, ag, conn)
				}),
				"overrun": audited(func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
					td := time.Duration(ag.Metadata().Timeout) * time.Second
					if dl, ok := ctx.Deadline(); !ok || time.Until(dl) > td || time.Until(dl) < td-time.Second {
						umu.Lock()
						unaudited = append(unaudited, fmt.Sprintf("request %s was run without a deadline of the agent timeout", req.RequestID))
						umu.Unlock()
					}
					time.Sleep(td + 3*time.Second)
					echo(ctx, req, rep, ag, conn)
				}),
				"fail": audited(func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
					echo(ctx, req, rep, ag, conn)
					rep.Statuscode = mcorpc.Aborted
					rep.Statusmsg = "simulated failure " + req.RequestID
				}),
				"info": audited(func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
					si := ag.ServerInfo()
					si.LastProcessedMessage()
					si.KnownAgents()
					si.AgentMetadata("alpha")
					si.Stats()
					si.UpTime()
					si.MachinesStatus()
					echo(ctx, req, rep, ag, conn)
				}),
				"quiet": audited(func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
					rep.DisableResponse = true
				}),
			}
			nextInst := 0
			var nmu sync.Mutex
			mk := func(name string) *mcorpc.Agent {
				nmu.Lock()
				nextInst++
				n := nextInst
				nmu.Unlock()
				return monAgent(net, name, fmt.Sprint(n), agentTimeout+n%3*2, name == "beta", actions, l)
			}
			for _, n := range []string{"alpha", "beta"} {
				must(mgr.RegisterAgent(context.Background(), n, mk(n), inst.Connector()))
			}
			synctest.Wait()

			var sent []sentRequest
			type job struct {
				at      time.Duration
				subject string
				data    []byte
			}
			var jobs []job
			deadline := 20 * time.Second
			n := 60 + rng.Intn(100)
			for i := 0; i < n; i++ {
				r := sentRequest{id: hexid(rng), agent: verifkit.Pick(rng, []string{"alpha", "alpha", "beta", "flux", "never"}), num: i}
				r.kind = verifkit.Pick(rng, []string{"echo", "echo", "slow", "slow", "overrun", "fail", "unknown", "garbage", "denied", "info", "quiet"})
				r.action = r.kind
				data := map[string]any{"num": i, "MS": rng.Intn(agentTimeout*1000 - 500)}
				body := rpcBody(r.agent, r.action, data)
				switch r.kind {
				case "unknown":
					body = rpcBody(r.agent, verifkit.Pick(rng, []string{"missing", "", "Echo", "echo "}), data)
				case "garbage":
					body = []byte(verifkit.Pick(rng, []string{"", "{", "[]", `"x"`, `{"agent":1,"action":"echo"}`, `{"agent":"alpha","action":["echo"]}`, "echo"}))
					if len(body) == 0 {
						body = []byte(" ")
					}
				}
				j := fleetRequest(cl, r.id, r.agent, "mcollective", "mcollective.reply.c12."+r.id, 60, body, nil, nil)
				subject := "mcollective.broadcast.agent." + r.agent
				if r.agent == "beta" {
					subject = "mcollective.broadcast.service.beta"
				}
				if rng.Intn(3) == 0 || r.agent == "never" {
					subject = "mcollective.node.srv1.example.net"
				}
				sent = append(sent, r)
				jobs = append(jobs, job{time.Duration(rng.Int63n(int64(deadline/time.Millisecond))) * time.Millisecond, subject, j})
			}

			undelivered := map[string]bool{}
			wg := sync.WaitGroup{}
			for i, j := range jobs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(j.at)
					if net.Net.Deliver(j.subject, j.data) == 0 {
						umu.Lock()
						undelivered[sent[i].id] = true
						umu.Unlock()
					}
				}()
			}

			// agents are managed meanwhile, by one goroutine whose effects are known and one that only looks and fails
			known := map[string]bool{"alpha": true, "beta": true}
			mrng := verifkit.Rand(fmt.Sprintf("c12m%d", round))
			var mgmt []string
			wg.Add(2)
			go func() {
				defer wg.Done()
				for i := 0; i < 40; i++ {
					time.Sleep(time.Duration(mrng.Intn(900)) * time.Millisecond)
					bad := ""
					switch mrng.Intn(6) {
					case 0:
						name := verifkit.Pick(mrng, []string{"alpha", "beta"})
						if err := mgr.ReplaceAgent(name, mk(name)); err != nil {
							bad = fmt.Sprintf("replacing %s failed: %v", name, err)
						}
					case 1, 2:
						err := mgr.RegisterAgent(context.Background(), "flux", mk("flux"), inst.Connector())
						if (err == nil) == known["flux"] {
							bad = fmt.Sprintf("registering flux when known=%v: %v", known["flux"], err)
						}
						known["flux"] = true
					case 3:
						err := mgr.UnregisterAgent("flux", inst.Connector())
						if (err == nil) != known["flux"] {
							bad = fmt.Sprintf("unregistering flux when known=%v: %v", known["flux"], err)
						}
						delete(known, "flux")
					case 4:
						mgr.DenyAgent("locked")
						mgr.RegisterAgent(context.Background(), "locked", mk("locked"), inst.Connector())
					case 5:
						err := mgr.ReplaceAgent("flux", mk("flux"))
						if (err == nil) != known["flux"] {
							bad = fmt.Sprintf("replacing flux when known=%v: %v", known["flux"], err)
						}
					}
					var exp []string
					for k := range known {
						exp = append(exp, k)
					}
					sort.Strings(exp)
					if got := mgr.KnownAgents(); bad == "" && !reflect.DeepEqual(got, exp) {
						bad = fmt.Sprintf("known agents are %v expected %v", got, exp)
					}
					if bad != "" {
						umu.Lock()
						mgmt = append(mgmt, bad)
						umu.Unlock()
					}
				}
			}()
			go func() {
				defer wg.Done()
				r := verifkit.Rand(fmt.Sprintf("c12l%d", round))
				for i := 0; i < 40; i++ {
					time.Sleep(time.Duration(r.Intn(900)) * time.Millisecond)
					mgr.DenyAgent(fmt.Sprintf("x%d", i))
					inst.LastProcessedMessage()
					mgr.Get("flux")
					inst.AgentMetadata("flux")
					var err error
					switch r.Intn(5) {
					case 0:
						err = mgr.RegisterAgent(context.Background(), "alpha", mk("alpha"), inst.Connector())
					case 1:
						err = mgr.ReplaceAgent("alpha", monAgent(net, "alpha", "z", agentTimeout, true, actions, l))
					case 2:
						err = mgr.ReplaceAgent("alpha", monAgent(net, "alpha", "z", 0, false, actions, l))
					case 3:
						err = mgr.UnregisterAgent("never", inst.Connector())
					case 4:
						err = mgr.RegisterAgent(context.Background(), "bad", mcorpc.New("bad", &agents.Metadata{Timeout: 5}, net, vfake.Log()), inst.Connector())
					}
					if err == nil {
						umu.Lock()
						mgmt = append(mgmt, "invalid management operation succeeded")
						umu.Unlock()
					}
				}
			}()
			wg.Wait()
			time.Sleep((agentTimeout + 14) * time.Second)
			synctest.Wait()

			for _, m := range mgmt {
				rec.Violation("management", "round %d: %s", round, m)
			}
			for _, m := range unaudited {
				rec.Violation("audit", "round %d: %s", round, m)
			}
			if !known["flux"] && net.Net.Subjects()["mcollective.broadcast.agent.flux"] != 0 {
				rec.Violation("management", "subscriptions remain for a removed agent: %v", net.Net.Subjects())
			}
			audit, err := readAudit(auditFile)
			if err != nil {
				rec.Violation("audit", "round %d: the audit log is corrupt: %v", round, err)
			}
			calls := map[string][]call{}
			for _, c := range l.all() {
				calls[c.ID] = append(calls[c.ID], c)
			}
			replies := map[string][]vfake.Sent{}
			for _, s := range net.Net.Sent() {
				if s.Reply {
					replies[s.Subject] = append(replies[s.Subject], s)
				}
			}
			total := 0
			for _, r := range sent {
				c, out := calls[r.id], replies["mcollective.reply.c12."+r.id]
				total += len(out)
				desc := fmt.Sprintf("round %d v%d auth %v audit %v request %s %s to %s", round, v, authz, auditing, r.kind, r.id[:6], r.agent)
				wantCall, wantReply := 1, 1
				status := 0
				switch r.kind {
				case "overrun":
					wantReply = 0
				case "quiet":
					wantReply = 0
				case "fail":
					status = 1
				case "unknown":
					wantCall, status = 0, 2
				case "garbage":
					wantCall, status = 0, 4
				case "denied":
					if authz {
						wantCall, status = 0, 1
					}
				}
				maybe := r.agent == "flux"
				if r.agent == "never" || undelivered[r.id] {
					wantCall, wantReply = 0, 0
				}
				rec.Case(true, desc)
				rec.Count(r.agent+" "+r.kind, 1)
				if maybe && len(c) == 0 && len(out) == 0 {
					rec.Count("not delivered", 1)
					continue
				}
				if len(c) != wantCall {
					rec.Violation("invocations "+r.kind, "%s invoked %d actions: %v", desc, len(c), c)
				}
				if len(out) != wantReply {
					rec.Violation("replies "+r.kind, "%s made %d replies", desc, len(out))
				}
				if len(c) > 0 && (c[0].Agent != r.agent || c[0].Action != r.action || !strings.Contains(c[0].Data, fmt.Sprintf(`"num":%d`, r.num))) {
					rec.Violation("wrong action", "%s invoked %v", desc, c[0])
				}
				lines := audit[r.id]
				switch {
				case !auditing || wantCall == 0:
					if len(lines) != 0 {
						rec.Violation("audit", "%s has %d audit lines", desc, len(lines))
					}
				default:
					rec.Count("audited", 1)
					if len(lines) != 1 || lines[0].Agent != r.agent || lines[0].Action != r.action || !strings.Contains(string(lines[0].Data), fmt.Sprintf(`"num":%d`, r.num)) {
						rec.Violation("audit", "%s has audit lines %v", desc, lines)
					}
				}
				for _, o := range out {
					rep, err := cl.fw.NewReplyFromTransportJSON(o.Data, false)
					if err != nil {
						rec.Violation("reply", "%s has an invalid reply: %v", desc, err)
						continue
					}
					var a rpcAnswer
					if err = json.Unmarshal(rep.Message(), &a); err != nil {
						rec.Violation("reply", "%s has an invalid reply: %v", desc, err)
						continue
					}
					ok := rep.RequestID() == r.id && rep.Agent() == r.agent && rep.SenderID() == "srv1.example.net" && a.Statuscode == status
					if wantCall == 1 {
						ok = ok && a.Data.ID == r.id && a.Action == r.action && a.Data.Agent == r.agent && a.Data.Got["num"] == float64(r.num) && len(c) == 1 && a.Data.Version == "1.0."+c[0].Instance
						if r.kind == "fail" {
							ok = ok && a.Statusmsg == "simulated failure "+r.id
						}
					}
					if !ok {
						rec.Violation("reply", "%s has reply for %s agent %s: %s", desc, rep.RequestID(), rep.Agent(), rep.Message())
					}
				}
			}
			all := 0
			for _, r := range replies {
				all += len(r)
			}
			if all != total {
				rec.Violation("replies", "round %d made %d replies of which %d to the requests", round, all, total)
			}
			stop()
		})
	}
	for _, k := range []string{"alpha echo", "alpha slow", "alpha overrun", "beta echo", "alpha denied", "alpha unknown", "alpha garbage", "flux echo", "audited", "alpha fail", "never echo"} {
		rec.Require(k, 10)
	}
}

// TestC12Subscriptions fails subscriptions while agents register
func TestC12Subscriptions(t *testing.T) {
	rec := verifkit.New(t, "C12", "an agent whose registration fails is not listening, can be registered later and others are unaffected")
	rng := verifkit.Rand("c12subs")
	srv := ends()[1][1]
	for round := 0; round < verifkit.N(60, 600); round++ {
		synctest.Test(t, func(t *testing.T) {
			catchUp()
			net := vfake.WrapNet(srv.fw)
			l := &callLog{}
			inst, stop := vfake.StartServer(context.Background(), net)
			defer stop()
			mgr := inst.AgentManager()
			known := map[string]bool{}
			for i := 0; i < 30; i++ {
				name := verifkit.Pick(rng, []string{"a1", "a2", "svc"})
				mk := func() *mcorpc.Agent {
					return monAgent(net, name, "1", 5, name == "svc", map[string]mcorpc.Action{"echo": echo}, l)
				}
				before := net.Net.Subjects()
				op := rng.Intn(4)
				ok := true
				var err error
				switch op {
				case 0, 1:
					failAt := rng.Intn(6)
					seen := 0
					net.Net.SubErr = func(string) error {
						seen++
						if seen-1 == failAt {
							return fmt.Errorf("simulated failure")
						}
						return nil
					}
					err = mgr.RegisterAgent(context.Background(), name, mk(), inst.Connector())
					net.Net.SubErr = nil
					ok = !known[name] && failAt >= len(srv.fw.Config.Collectives)
					if ok {
						known[name] = true
					}
					if !ok && !known[name] {
						rec.Count("failed registrations", 1)
						for s := range net.Net.Subjects() {
							if strings.HasSuffix(s, "."+name) {
								rec.Violation("subscriptions", "registering %s failed (%v) but it listens on %s", name, err, s)
							}
						}
					}
				case 2:
					err = mgr.RegisterAgent(context.Background(), name, mk(), inst.Connector())
					ok = !known[name]
					known[name] = true
					if ok {
						rec.Count("registrations", 1)
					}
				case 3:
					err = mgr.UnregisterAgent(name, inst.Connector())
					ok = known[name]
					delete(known, name)
				}
				rec.Case(true, fmt.Sprintf("round %d step %d op %d %s", round, i, op, name))
				if (err == nil) != ok {
					rec.Violation("registration", "round %d step %d op %d on %s expected to work %v: %v", round, i, op, name, ok, err)
				}
				after := net.Net.Subjects()
				for _, n := range []string{"a1", "a2", "svc"} {
					for _, c := range srv.fw.Config.Collectives {
						s := c + ".broadcast.agent." + n
						if n == "svc" {
							s = c + ".broadcast.service." + n
						}
						want := 0
						if known[n] {
							want = 1
						}
						if after[s] != want {
							rec.Violation("subscriptions", "round %d step %d op %d on %s: %s has %d subscriptions expected %d (before %v)", round, i, op, name, s, after[s], want, before)
						}
					}
				}
			}
		})
	}
	rec.Require("failed registrations", 50)
	rec.Require("registrations", 50)
}

// TestC12Shutdown stops a server that has many requests in progress
func TestC12Shutdown(t *testing.T) {
	rec := verifkit.New(t, "C12", "a server with many requests in progress stops and leaves nothing running")
	rng := verifkit.Rand("c12stop")
	cl, srv := ends()[1][0], ends()[1][1]
	for round := 0; round < verifkit.N(6, 60); round++ {
		n := verifkit.Pick(rng, []int{1, 50, 99, 100, 101, 150, 250})
		if round == 0 {
			n = 250
		}
		wait := time.Duration(rng.Intn(6000)) * time.Millisecond
		func() {
			defer func() {
				if r := recover(); r != nil {
					rec.Violation("shutdown", "server with %d requests in progress did not stop cleanly: %v", n, r)
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				catchUp()
				net := vfake.WrapNet(srv.fw)
				l := &callLog{}
				inst, stop := vfake.StartServer(context.Background(), net)
				must(inst.AgentManager().RegisterAgent(context.Background(), "alpha", monAgent(net, "alpha", "1", 5, false, map[string]mcorpc.Action{"slow": func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
					var d struct{ MS int }
					json.Unmarshal(req.Data, &d)
					time.Sleep(time.Duration(d.MS) * time.Millisecond)
				}}, l), inst.Connector()))
				for i := 0; i < n; i++ {
					j := fleetRequest(cl, hexid(rng), "alpha", "mcollective", "mcollective.reply.x", 60, rpcBody("alpha", "slow", map[string]any{"MS": 4000 + rng.Intn(3000)}), nil, nil)
					net.Net.Deliver("mcollective.broadcast.agent.alpha", j)
				}
				time.Sleep(wait)
				rec.Case(true, fmt.Sprintf("%d requests stopped after %v", n, wait))
				rec.Count("in progress", len(l.all()))
				stopped := make(chan struct{})
				go func() {
					stop()
					close(stopped)
				}()
				select {
				case <-stopped:
				case <-time.After(5 * time.Minute):
					rec.Violation("shutdown", "server with %d requests in progress did not stop", n)
				}
				time.Sleep(time.Minute)
			})
		}()
	}
	rec.Require("in progress", 200)
}
