package wire

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/choriautil"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/discovery"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/executor"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/provision"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/registry"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/rpcutil"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/sirupsen/logrus"
)

// TestC04Agents hands damaged requests to the agents that ship with the server
func TestC04Agents(t *testing.T) {
	rec := verifkit.New(t, "C04", "no request body, however damaged, crashes an agent, each yields one reply")
	rng := verifkit.Rand("c04agents")
	dir := t.TempDir()
	cfile := filepath.Join(dir, "server.conf")
	must(os.WriteFile(cfile, []byte("identity=srv1.example.net\n"), 0600))
	ddls := filepath.Join(dir, "ddls")
	must(os.MkdirAll(filepath.Join(ddls, "agent"), 0700))
	spool := filepath.Join(dir, "spool")
	must(os.MkdirAll(filepath.Join(spool, "job1"), 0700))
	must(os.WriteFile(filepath.Join(spool, "job1", "spec.json"), []byte(`{"id":"job1","command":"/bin/true","agent":"a","action":"b","caller":"choria=x"}`), 0600))

	prov := atomic.Bool{}
	srv := newEnd(1, "srv1.example.net", func(cfg *config.Config) {
		cfg.ConfigFile = cfile
		cfg.FactSourceFile = vfake.TempFile([]byte(`{"role":"web","n":5,"nest":{"x":"y"}}`))
		cfg.Choria.RegistryServiceStore = ddls
		cfg.Choria.ExecutorEnabled = true
		cfg.Choria.ExecutorSpool = spool
	})
	net := vfake.WrapNet(srv.fw)
	net.Provisioning = func() bool { return prov.Load() }
	inst, stop := vfake.StartServer(context.Background(), net)
	defer stop()
	restarts := atomic.Int64{}
	provision.SetRestartAction(func(time.Duration, agents.ServerInfoSource, *logrus.Entry) { restarts.Add(1) })
	provision.SetShutdownAction(func(time.Duration, agents.ServerInfoSource, *logrus.Entry) { restarts.Add(1) })

	mgr := inst.AgentManager()
	all := map[string]agents.Agent{}
	add := func(n string, a agents.Agent, err error) {
		must(err)
		a.SetServerInfo(inst)
		all[n] = a
	}
	{
		a, err := rpcutil.New(mgr)
		add("rpcutil", a, err)
		b, err := choriautil.New(mgr)
		add("choria_util", b, err)
		c, err := registry.New(mgr)
		add("choria_registry", c, err)
		d, err := provision.New(mgr)
		add("choria_provision", d, err)
		e, err := executor.New(mgr)
		add("executor", e, err)
		f, err := discovery.New(mgr)
		add("discovery", f, err)
	}
	type act struct {
		agent, action string
		data          map[string]any
	}
	acts := []act{
		{"rpcutil", "ping", nil}, {"rpcutil", "get_fact", map[string]any{"fact": "nest.x"}}, {"rpcutil", "get_facts", map[string]any{"facts": "role, n"}},
		{"rpcutil", "agent_inventory", nil}, {"rpcutil", "inventory", nil}, {"rpcutil", "daemon_stats", nil}, {"rpcutil", "get_data", map[string]any{"query": "x", "source": "choria"}}, {"rpcutil", "get_config_item", map[string]any{"item": "identity"}}, {"rpcutil", "collective_info", nil},
		{"choria_util", "info", nil}, {"choria_util", "machine_states", nil}, {"choria_util", "machine_state", map[string]any{"name": "m", "instance": "i", "path": "p"}}, {"choria_util", "machine_transition", map[string]any{"name": "m", "version": "1", "instance": "i", "path": "p", "transition": "t"}},
		{"choria_registry", "ddl", map[string]any{"name": "x", "plugin_type": "agent", "format": "ddl"}}, {"choria_registry", "names", map[string]any{"plugin_type": "agent"}},
		{"choria_provision", "restart", map[string]any{"token": "", "splay": 3}}, {"choria_provision", "shutdown", map[string]any{"token": ""}}, {"choria_provision", "gen25519", map[string]any{"token": "", "nonce": "abc"}}, {"choria_provision", "jwt", map[string]any{"token": ""}},
		{"choria_provision", "configure", map[string]any{"token": "", "config": `{"identity":"x","plugin.choria.server.provision":"false"}`, "key": "", "ecdh_public": "", "server_jwt": "x"}}, {"choria_provision", "reprovision", map[string]any{"token": ""}},
		{"executor", "status", map[string]any{"id": "job1"}}, {"executor", "list", map[string]any{"action": "", "agent": "", "before": 0, "since": 0, "caller": "", "command": "", "completed": false, "identity": "", "requestid": "", "running": false}}, {"executor", "signal", map[string]any{"id": "job1", "signal": 1}},
		{"discovery", "", nil},
	}
	cl := ends()[1][0]
	send := func(a act, body []byte, what string) {
		q, err := cl.fw.NewRequest(reqVersion(1), a.agent, "x", "choria=rip.mcollective", 60, hexid(rng), "mcollective")
		must(err)
		q.SetMessage(body)
		m, err := srv.fw.NewMessageFromRequest(q, "reply")
		must(err)
		// what the body holds is base64 decoded on the way in
		m.SetPayload(body)
		out := make(chan *agents.AgentReply, 5)
		id := fmt.Sprintf("%s#%s %s", a.agent, a.action, what)
		rec.NoPanic(a.agent+"#"+a.action, id+" "+shorten(string(body)), func() {
			all[a.agent].HandleMessage(context.Background(), m, q, inst.Connector(), out)
		})
		rec.Case(true, id+string(body))
		rec.Count(a.agent, 1)
		if len(out) != 1 {
			rec.Violation("replies", "%s made %d replies", id, len(out))
			return
		}
		r := <-out
		if r.Error == nil && !json.Valid(r.Body) && a.agent != "discovery" {
			rec.Violation("replies", "%s made an invalid reply %s", id, r.Body)
		}
	}
	// every field of every action takes every kind of value
	for _, a := range acts {
		prov.Store(a.action != "reprovision")
		if a.agent != "discovery" {
			send(a, rpcBody(a.agent, a.action, a.data), "undamaged")
		}
		for k := range a.data {
			if a.action == "configure" && k == "server_jwt" {
				continue
			}
			for _, v := range verifkit.HostileValues(rng) {
				m := map[string]any{}
				for x, y := range a.data {
					m[x] = y
				}
				m[k] = v
				if a.agent == "choria_provision" {
					must(os.WriteFile(cfile, []byte("identity=srv1.example.net\n"), 0600))
				}
				send(a, rpcBody(a.agent, a.action, m), fmt.Sprintf("%s is %v", k, shorten(fmt.Sprint(v))))
				rec.Count("fields", 1)
			}
		}
	}
	rec.Require("fields", 300)
	const n = 40
	for i := 0; i < verifkit.N(n*len(acts), 40*n*len(acts)); i++ {
		a := acts[i%len(acts)]
		prov.Store(rng.Intn(2) == 0 && a.action != "reprovision")
		var body []byte
		what := "undamaged"
		if a.agent == "discovery" {
			body = []byte("ping")
		} else if rng.Intn(2) == 0 || a.data == nil {
			body, what = verifkit.MutateJSON(rng, rpcBody(a.agent, a.action, a.data))
		} else {
			d, err := json.Marshal(a.data)
			must(err)
			d, what = verifkit.MutateJSON(rng, d)
			body = []byte(fmt.Sprintf(`{"agent":%q,"action":%q,"data":%s}`, a.agent, a.action, d))
		}
		send(a, body, what)
	}
	for n := range all {
		rec.Require(n, 30)
	}
}
