package wire

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/client"
	"github.com/choria-io/go-choria/server/agents"
)

var started = time.Now()

// catchUp moves the clock of a bubble to the time the certificates and tokens were made for
func catchUp() {
	time.Sleep(time.Until(started.Truncate(time.Second).Add(5 * time.Second)))
}

// call is an action being run
type call struct {
	ID, Agent, Action, Instance string
	Data                        string
}

type callLog struct {
	mu    sync.Mutex
	calls []call
}

func (c *callLog) add(x call) {
	c.mu.Lock()
	c.calls = append(c.calls, x)
	c.mu.Unlock()
}

func (c *callLog) all() []call {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]call{}, c.calls...)
}

func monAgent(fw *vfake.NetFW, name string, instance string, timeout int, service bool, actions map[string]mcorpc.Action, l *callLog) *mcorpc.Agent {
	a := mcorpc.New(name, &agents.Metadata{Name: name, Version: "1.0." + instance, Timeout: timeout, Service: service, Author: "x", License: "y"}, fw, vfake.Log())
	for n, f := range actions {
		a.MustRegisterAction(n, func(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
			l.add(call{ID: req.RequestID, Agent: ag.Name(), Action: n, Instance: instance, Data: string(req.Data)})
			f(ctx, req, rep, ag, conn)
		})
	}
	return a
}

func echo(ctx context.Context, req *mcorpc.Request, rep *mcorpc.Reply, ag *mcorpc.Agent, conn inter.ConnectorInfo) {
	rep.Data = map[string]any{"id": req.RequestID, "got": req.Data, "agent": ag.Name(), "version": ag.Metadata().Version}
}

// setFields overrides fields of an encoded request
func setFields(j []byte, version int, fields map[string]any) []byte {
	var m map[string]json.RawMessage
	must(json.Unmarshal(j, &m))
	target := m
	if version == 1 {
		target = map[string]json.RawMessage{}
		must(json.Unmarshal(m["envelope"], &target))
	}
	for k, v := range fields {
		b, err := json.Marshal(v)
		must(err)
		target[k] = b
	}
	if version == 1 {
		b, err := json.Marshal(target)
		must(err)
		m["envelope"] = b
	}
	j, err := json.Marshal(m)
	must(err)
	return j
}

func setTime(t time.Time, version int) int64 {
	if version == 1 {
		return t.Unix()
	}
	return t.UnixNano()
}

// fleetRequest makes the transport for a request with fields overridden before signing
func fleetRequest(e *end, id, agent, collective, replyTo string, ttl int, body []byte, f *protocol.Filter, fields map[string]any) []byte {
	caller := fmt.Sprintf("choria=%s", e.fw.Certname())
	if e.version == 2 {
		caller = "choria=verif"
	}
	q, err := e.fw.NewRequest(reqVersion(e.version), agent, e.fw.Config.Identity, caller, ttl, id, collective)
	must(err)
	q.SetMessage(body)
	if f != nil {
		q.SetFilter(f)
	}
	if len(fields) > 0 {
		j, err := q.JSON()
		must(err)
		q = &rawRequest{q, setFields(j, e.version, fields)}
	}
	s, err := e.fw.NewSecureRequest(ctx, q)
	must(err)
	t, err := e.fw.NewTransportMessage(transportVersion(e.version))
	must(err)
	must(t.SetRequestData(s))
	t.SetReplyTo(replyTo)
	j, err := t.JSON()
	must(err)
	return j
}

func rpcBody(agent, action string, data any) []byte {
	j, err := json.Marshal(map[string]any{"agent": agent, "action": action, "data": data, "caller": "x", "callerid": "x", "sender": "x"})
	must(err)
	return j
}

// TestC05Dispatch delivers requests of every age, lifetime, collective, agent and filter to a real server
func TestC05Dispatch(t *testing.T) {
	rec := verifkit.New(t, "C05", "an agent is invoked and a reply made only when the request is within its lifetime, for a collective and agent of the server and matches its filter")
	facts := vfake.TempFile(nil)
	classes := vfake.TempFile(nil)
	become := func(changed bool) {
		f, c := `{"role":"web","n":5,"nest":{"x":"y"}}`, "apache\nrole::web\n"
		if changed {
			f, c = `{"role":"db","n":6,"nest":{"x":"z"}}`, "mysql\n"
		}
		must(os.WriteFile(facts, []byte(f), 0600))
		must(os.WriteFile(classes, []byte(c), 0600))
	}

	type fleet struct {
		client *end
		server *end
	}
	fleets := map[int]fleet{}
	for v := 1; v <= 2; v++ {
		fleets[v] = fleet{newEnd(v, "rip.mcollective", nil), newEnd(v, "srv1.example.net", func(cfg *config.Config) {
			cfg.Collectives = []string{"mcollective", "third"}
			cfg.FactSourceFile = facts
			cfg.ClassesFile = classes
		})}
	}

	type truth struct {
		f       func(f *protocol.Filter)
		ok      bool
		changed bool // once the facts and classes of the server changed
		n       string
	}
	filters := []truth{
		{func(f *protocol.Filter) {}, true, true, "none"},
		{func(f *protocol.Filter) { f.AddIdentityFilter("srv1.example.net") }, true, true, "identity"},
		{func(f *protocol.Filter) { f.AddIdentityFilter("/^srv\\d/") }, true, true, "identity regex"},
		{func(f *protocol.Filter) { f.AddIdentityFilter("srv2.example.net") }, false, false, "other identity"},
		{func(f *protocol.Filter) { f.AddIdentityFilter("srv1.example.net.x") }, false, false, "longer identity"},
		{func(f *protocol.Filter) { f.AddIdentityFilter("srv2"); f.AddIdentityFilter("srv1.example.net") }, true, true, "identities"},
		{func(f *protocol.Filter) { f.AddClassFilter("apache") }, true, false, "class"},
		{func(f *protocol.Filter) { f.AddClassFilter("mysql") }, false, true, "other class"},
		{func(f *protocol.Filter) { f.AddClassFilter("/role/"); f.AddClassFilter("mysql") }, false, false, "one of two classes"},
		{func(f *protocol.Filter) { f.AddFactFilter("role", "==", "web") }, true, false, "fact"},
		{func(f *protocol.Filter) { f.AddFactFilter("n", ">=", "6") }, false, true, "other fact"},
		{func(f *protocol.Filter) { f.AddFactFilter("n", ">=", "5"); f.AddFactFilter("nest.x", "==", "z") }, false, true, "one of two facts"},
		{func(f *protocol.Filter) { f.AddAgentFilter("beta") }, true, true, "agent"},
		{func(f *protocol.Filter) { f.AddAgentFilter("gone") }, false, false, "removed agent"},
		{func(f *protocol.Filter) { f.AddAgentFilter("alpha"); f.AddAgentFilter("ghost") }, false, false, "one of two agents"},
		{func(f *protocol.Filter) { f.AddCompoundFilter(`with("apache") and fact("n") == 5`) }, true, false, "compound"},
		{func(f *protocol.Filter) { f.AddCompoundFilter(`with("apache") and fact("n") == 6`) }, false, false, "other compound"},
		{func(f *protocol.Filter) { f.AddCompoundFilter(`with(`) }, false, false, "broken compound"},
		{func(f *protocol.Filter) { f.AddClassFilter("apache"); f.AddIdentityFilter("srv9") }, false, false, "class and other identity"},
	}

	rng := verifkit.Rand("c05")
	for round := 0; round < verifkit.N(24, 400); round++ {
		v := 1 + round%2
		synctest.Test(t, func(t *testing.T) {
			catchUp()
			fl := fleets[v]
			net := vfake.WrapNet(fl.server.fw)
			l := &callLog{}
			inst, stop := vfake.StartServer(context.Background(), net)
			mgr := inst.AgentManager()
			mgr.DenyAgent("denied")
			for _, n := range []string{"alpha", "beta", "gone", "denied"} {
				must(mgr.RegisterAgent(context.Background(), n, monAgent(net, n, "a", 10, n == "beta", map[string]mcorpc.Action{"echo": echo}, l), inst.Connector()))
			}
			must(mgr.UnregisterAgent("gone", inst.Connector()))
			synctest.Wait()

			changed := false
			become(false)
			for i := 0; i < 50; i++ {
				if rng.Intn(8) == 0 {
					changed = !changed
					become(changed)
					rec.Count("changes to the server", 1)
				}
				agent := verifkit.Pick(rng, []string{"alpha", "alpha", "alpha", "beta", "beta", "gone", "denied", "ghost"})
				collective := verifkit.Pick(rng, []string{"mcollective", "mcollective", "third", "third", "other_c", "nosuch"})
				ttl := verifkit.Pick(rng, []int{1, 2, 10, 60, 60, 300, 600, 0, -5})
				if v == 1 && ttl > 0 && ttl < 30 {
					ttl += 30 // version 1 requests live at least 30 seconds
				}
				var age time.Duration
				sec := time.Second
				if ttl > 0 && rng.Intn(3) > 0 {
					// close to the ends of the lifetime
					age = time.Duration(ttl) * sec
					if rng.Intn(3) == 0 {
						age = -age
					}
					step := sec
					if v == 2 {
						step = verifkit.Pick(rng, []time.Duration{1, time.Millisecond, sec})
					}
					if rng.Intn(2) == 0 {
						age += step
					} else {
						age -= step
					}
				} else {
					age = time.Duration(verifkit.Pick(rng, []int{0, 0, 0, 1, -1, 5, 30, 100, 86400, -86400, 400 * 86400, -400 * 86400})) * sec
				}
				fresh := age < time.Duration(ttl)*sec && -age < time.Duration(ttl)*sec
				if age == time.Duration(ttl)*sec || -age == time.Duration(ttl)*sec {
					continue // either answer is fine
				}
				ft := filters[0]
				if rng.Intn(2) == 0 {
					ft = verifkit.Pick(rng, filters)
				}
				if changed {
					ft.ok = ft.changed
				}
				f := protocol.NewFilter()
				ft.f(f)

				id := hexid(rng)
				replyTo := "mcollective.reply.x." + id
				body := rpcBody(agent, "echo", map[string]any{"case": i})
				// signed as stated whatever subject it arrives on
				subject := verifkit.Pick(rng, []string{"mcollective.broadcast.agent.alpha", "third.broadcast.agent.alpha", "mcollective.broadcast.service.beta", "third.broadcast.service.beta", "mcollective.node.srv1.example.net", "third.node.srv1.example.net"})
				member := collective == "mcollective" || collective == "third"
				known := agent == "alpha" || agent == "beta"
				if member && known && rng.Intn(2) == 0 {
					subject = fmt.Sprintf("%s.broadcast.agent.%s", collective, agent)
					if agent == "beta" {
						subject = fmt.Sprintf("%s.broadcast.service.%s", collective, agent)
					}
				}
				reqCollective := collective
				if !member {
					reqCollective = "mcollective"
				}
				data := fleetRequest(fl.client, id, agent, reqCollective, replyTo, 60, body, f, map[string]any{"time": setTime(time.Now().Add(-age), v), "ttl": ttl, "collective": collective})

				before, sent := len(l.all()), len(net.Net.Sent())
				if net.Net.Deliver(subject, data) != 1 {
					rec.Violation("subscription", "server does not listen on %s: %v", subject, net.Net.Subjects())
					continue
				}
				synctest.Wait()
				calls := l.all()[before:]
				out := net.Net.Sent()[sent:]

				expect := fresh && member && known && ft.ok
				desc := fmt.Sprintf("v%d agent %s collective %s ttl %d age %v filter %s subject %s changed %v", v, agent, collective, ttl, age, ft.n, subject, changed)
				rec.Case(true, desc)
				if !expect {
					rec.Count("rejected", 1)
					for k, bad := range map[string]bool{"not fresh": !fresh, "not member": !member, "unknown agent": !known, "no match": !ft.ok} {
						if bad {
							rec.Count(k, 1)
						}
					}
					if len(calls) != 0 {
						rec.Violation("invoked", "%s invoked %v", desc, calls)
					}
					if len(out) != 0 {
						rec.Violation("answered", "%s answered %s %s", desc, out[0].Subject, shorten(string(out[0].Data)))
					}
					continue
				}
				rec.Count("accepted", 1)
				if age < 0 {
					rec.Count("accepted from the future", 1)
				}
				if len(calls) != 1 || calls[0].ID != id || calls[0].Agent != agent {
					rec.Violation("not invoked", "%s invoked %v", desc, calls)
				}
				if len(out) != 1 || out[0].Subject != replyTo {
					rec.Violation("not answered", "%s published %d messages", desc, len(out))
					continue
				}
				rep, err := fl.client.fw.NewReplyFromTransportJSON(out[0].Data, false)
				if err != nil {
					rec.Violation("reply", "%s reply is invalid: %v", desc, err)
					continue
				}
				if rep.RequestID() != id || rep.SenderID() != "srv1.example.net" || rep.Agent() != agent {
					rec.Violation("reply", "%s reply is for %s from %s agent %s", desc, rep.RequestID(), rep.SenderID(), rep.Agent())
				}
			}
			stop()
		})
	}
	for _, k := range []string{"accepted", "rejected", "not fresh", "not member", "unknown agent", "no match", "accepted from the future"} {
		rec.Require(k, 10)
	}
}

// TestC05Lifetimes checks the lifetime of messages at its ends
func TestC05Lifetimes(t *testing.T) {
	rec := verifkit.New(t, "C05", "a message is valid exactly when it is younger than its lifetime and no further than that in the future")
	rng := verifkit.Rand("c05ttl")
	for round := 0; round < verifkit.N(20, 200); round++ {
		v := 1 + round%2
		synctest.Test(t, func(t *testing.T) {
			catchUp()
			e := ends()[v][1]
			for i := 0; i < 200; i++ {
				ttl := 1 + rng.Intn(7200)
				q, err := e.fw.NewRequest(reqVersion(v), "alpha", "x", "choria=x", ttl, hexid(rng), "mcollective")
				must(err)
				q.SetMessage([]byte("x"))
				m, err := e.fw.NewMessageFromRequest(q, "x.reply")
				must(err)
				made := time.Now()
				if v == 1 {
					made = made.Truncate(time.Second)
				}
				limit := made.Add(time.Duration(ttl) * time.Second)
				for j := 0; j < 3; j++ {
					if left := time.Until(limit); left > 0 && rng.Intn(2) == 0 {
						time.Sleep(time.Duration(rng.Int63n(int64(left))))
					}
					if !m.ValidateTTL() && time.Now().Before(limit) {
						rec.Violation("early", "v%d message with ttl %d refused after %v", v, ttl, time.Since(made))
					}
					rec.Count("valid", 1)
				}
				time.Sleep(time.Until(limit) - 1)
				if !m.ValidateTTL() {
					rec.Violation("early", "v%d message with ttl %d refused after %v", v, ttl, time.Since(made))
				}
				time.Sleep(2)
				if m.ValidateTTL() {
					rec.Violation("late", "v%d message with ttl %d accepted after %v", v, ttl, time.Since(made))
				}
				time.Sleep(time.Duration(rng.Int63n(int64(time.Hour))))
				if m.ValidateTTL() {
					rec.Violation("late", "v%d message with ttl %d accepted after %v", v, ttl, time.Since(made))
				}
				rec.Case(true, fmt.Sprintf("v%d ttl %d round %d", v, ttl, round))
			}
		})
	}
	rec.Require("valid", 1000)
}

var _ = []any{bytes.Compare, rand.Int, sort.Strings, strings.Contains, client.ParseReply}
