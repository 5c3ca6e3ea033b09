package wire

import (
	"context"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/choriautil"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/rpcutil"
	"github.com/choria-io/go-choria/server"
	"github.com/choria-io/go-choria/statistics"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers"
	"github.com/choria-io/go-choria/aagent/watchers/timerwatcher"
	"github.com/choria-io/go-choria/providers/data"
	"github.com/choria-io/go-choria/providers/data/golang/choriadata"
	"github.com/choria-io/go-choria/providers/data/golang/configdata"
)

var dataPlugins = sync.OnceFunc(func() {
	w := timerwatcher.ChoriaPlugin()
	must(watchers.RegisterWatcherPlugin(w.PluginName(), w.PluginInstance().(model.WatcherConstructor)))
	c, d := choriadata.ChoriaPlugin(), configdata.ChoriaPlugin()
	must(data.RegisterPlugin(c.PluginName(), c.PluginInstance().(*data.Creator)))
	must(data.RegisterPlugin(d.PluginName(), d.PluginInstance().(*data.Creator)))
})

const reportMachine = `name: %s
version: %s
initial_state: A
transitions:
  - {name: go, from: [A], destination: B}
  - {name: back, from: [B], destination: A}
  - {name: end, from: [A, B], destination: C}
watchers:
  - {name: w, type: timer, state_match: [C], properties: {timer: 100h}}
`

// statusReader reads a status file over and over while the server writes it
type statusReader struct {
	file  string
	stop  atomic.Bool
	wg    sync.WaitGroup
	mu    sync.Mutex
	bad   []string
	reads int
	kinds map[string]bool
}

func (s *statusReader) run(identity string) {
	s.wg.Add(1)
	s.kinds = map[string]bool{}
	go func() {
		defer s.wg.Done()
		var prev *statistics.InstanceStatus
		for !s.stop.Load() {
			st, err := statistics.LoadInstanceStatus(s.file)
			if errors.Is(err, os.ErrNotExist) && prev == nil {
				time.Sleep(time.Millisecond)
				continue
			}
			s.mu.Lock()
			s.reads++
			switch {
			case err != nil:
				s.bad = append(s.bad, fmt.Sprintf("cannot be read: %v", err))
			case st.Identity != identity || st.Stats == nil:
				s.bad = append(s.bad, fmt.Sprintf("holds %+v", st))
			case prev != nil && (st.Uptime < prev.Uptime || st.Stats.Total < prev.Stats.Total || st.Stats.Replies < prev.Stats.Replies || st.LastMessage < prev.LastMessage):
				s.bad = append(s.bad, fmt.Sprintf("went from %+v %+v to %+v %+v", prev, prev.Stats, st, st.Stats))
			}
			if err == nil {
				prev = st
				s.kinds[fmt.Sprint(st.Uptime, st.Stats)] = true
			}
			s.mu.Unlock()
		}
	}()
}

// TestC33Reports asks a server about itself while what it reports about changes
func TestC33Reports(t *testing.T) {
	rec := verifkit.New(t, "C33", "what the agents, data plugins and status file of a node report is what holds at that time")
	rng := verifkit.Rand("c33reports")
	dataPlugins()
	for round := 0; round < verifkit.N(12, 120); round++ {
		v := 1 + round%2
		dir := t.TempDir()
		facts, classes := filepath.Join(dir, "facts.json"), filepath.Join(dir, "classes.txt")
		mdir := filepath.Join(dir, "machines")
		status := filepath.Join(dir, "status.json")
		freq := verifkit.Pick(rng, []int{1, 5, 30})
		for i, n := range []string{"m1", "m2", "m3"} {
			must(os.MkdirAll(filepath.Join(mdir, n), 0700))
			name := n
			if n == "m3" {
				name = "m1" // another version of the same machine
			}
			must(os.WriteFile(filepath.Join(mdir, n, "machine.yaml"), []byte(fmt.Sprintf(reportMachine, name, fmt.Sprintf("1.0.%d", i))), 0600))
		}
		client := newEnd(v, "rip.mcollective", nil)
		srv := newEnd(v, "srv1.example.net", func(cfg *config.Config) {
			cfg.Collectives = []string{"mcollective", "third"}
			cfg.FactSourceFile = facts
			cfg.ClassesFile = classes
			cfg.ConfigFile = filepath.Join(dir, "server.conf")
			cfg.Choria.MachineSourceDir = mdir
			cfg.Choria.StatusFilePath = status
			cfg.Choria.StatusUpdateSeconds = freq
			cfg.Choria.MiddlewareHosts = []string{"broker1.example.net:4222", "broker2.example.net:4333"}
		})
		var certExpires, tokenExpires time.Time
		if v == 1 {
			_, err := os.Stat(srv.fw.Config.Choria.FileSecurityCertificate)
			must(err)
			b, err := os.ReadFile(srv.fw.Config.Choria.FileSecurityCertificate)
			must(err)
			p, _ := pem.Decode(b)
			c, err := x509.ParseCertificate(p.Bytes)
			must(err)
			certExpires = c.NotAfter
		} else {
			b, err := os.ReadFile(srv.fw.Config.Choria.ChoriaSecurityTokenFile)
			must(err)
			b, err = base64.RawURLEncoding.DecodeString(strings.Split(string(b), ".")[1])
			must(err)
			var c struct{ Exp int64 }
			must(json.Unmarshal(b, &c))
			tokenExpires = time.Unix(c.Exp, 0)
		}
		reader := &statusReader{file: status}
		reader.run("srv1.example.net")

		truth := map[string]any{}
		var classList []string
		become := func() {
			truth = map[string]any{"role": verifkit.Pick(rng, []string{"web", "db"}), "n": float64(rng.Intn(1000)), "nest": map[string]any{"x": []any{"a", float64(rng.Intn(9))}, "y.z": "dotted"}, "on": rng.Intn(2) == 0}
			classList = verifkit.Subset(rng, []string{"apache", "mysql", "role::web", "x"})
			b, err := json.Marshal(truth)
			must(err)
			must(os.WriteFile(facts, b, 0600))
			must(os.WriteFile(classes, []byte(strings.Join(classList, "\n")+"\n"), 0600))
			if len(classList) == 0 {
				classList = []string{}
				must(os.WriteFile(classes, nil, 0600))
			}
		}
		become()

		synctest.Test(t, func(t *testing.T) {
			catchUp()
			net := vfake.WrapNet(srv.fw)
			failing := atomic.Bool{}
			net.Net.ReplyErr = func(string) error {
				if failing.Load() {
					return fmt.Errorf("simulated failure")
				}
				return nil
			}
			l := &callLog{}
			begin := time.Now()
			inst, stop := vfake.StartServer(context.Background(), net)
			base := inst.Stats()
			want := base
			eventBase := 0
			events := func() (n int) {
				for _, s := range net.Net.Sent() {
					if strings.HasPrefix(s.Subject, "choria.lifecycle.event") {
						n++
					}
				}
				return n
			}
			eventBase = events()
			mgr := inst.AgentManager()
			agents := map[string]bool{"rpcutil": true, "choria_util": true}
			ru, err := rpcutil.New(mgr)
			must(err)
			cu, err := choriautil.New(mgr)
			must(err)
			must(mgr.RegisterAgent(context.Background(), "rpcutil", ru, inst.Connector()))
			must(mgr.RegisterAgent(context.Background(), "choria_util", cu, inst.Connector()))
			// machines are found on disk in a while
			time.Sleep(3 * time.Minute)
			synctest.Wait()
			type mach struct{ name, version, path, id, state string }
			var machines []*mach
			states, err := inst.MachinesStatus()
			must(err)
			for i, n := range []string{"m1", "m2", "m3"} {
				for _, s := range states {
					if s.Path == filepath.Join(mdir, n) {
						m := &mach{name: n, version: fmt.Sprintf("1.0.%d", i), path: s.Path, id: s.ID, state: "A"}
						if n == "m3" {
							m.name = "m1"
						}
						machines = append(machines, m)
					}
				}
			}
			if len(machines) != 3 {
				rec.Violation("machines", "the node reports machines %+v while 3 are on disk", states)
				stop()
				return
			}
			if st, err := statistics.LoadInstanceStatus(status); err != nil || st.LastMessage != 0 {
				rec.Violation("status last message", "before any request the status file says the last was at %v: %v", st, err)
			}
			var last, at time.Time
			n := 0
			ask := func(agent, action string, args any, f *protocol.Filter) (code int, msg string, out map[string]any, ok bool) {
				n++
				id := hexid(rng)
				if args == nil {
					args = map[string]any{}
				}
				d := fleetRequest(client, id, agent, "mcollective", "mcollective.reply.x."+id, 60, rpcBody(agent, action, args), f, nil)
				sent := len(net.Net.Sent())
				if net.Net.Deliver("mcollective.node.srv1.example.net", d) != 1 {
					rec.Violation("subscription", "the server does not listen to %v", net.Net.Subjects())
					return
				}
				want.Total++
				at = time.Now()
				synctest.Wait()
				if action == "machine_transition" && len(net.Net.Sent()) == sent {
					// machines slow down transitions that follow each other quickly
					time.Sleep(20 * time.Second)
					synctest.Wait()
				}
				for _, s := range net.Net.Sent()[sent:] {
					if !s.Reply {
						continue
					}
					rep, err := client.fw.NewReplyFromTransportJSON(s.Data, false)
					if err != nil || rep.RequestID() != id || rep.SenderID() != "srv1.example.net" {
						rec.Violation("reply", "%s#%s: %v", agent, action, err)
						return
					}
					var r struct {
						Code int             `json:"statuscode"`
						Msg  string          `json:"statusmsg"`
						Data json.RawMessage `json:"data"`
					}
					if err := json.Unmarshal(rep.Message(), &r); err != nil {
						rec.Violation("reply", "%s#%s: %v", agent, action, err)
						return
					}
					_ = json.Unmarshal(r.Data, &out)
					return r.Code, r.Msg, out, true
				}
				return 0, "", nil, false
			}
			// asks for something that will be answered
			get := func(agent, action string, args any) (int, map[string]any) {
				code, msg, out, ok := ask(agent, action, args, nil)
				want.Passed++
				want.Valid++
				last = at
				if !ok {
					rec.Violation("no reply", "%s#%s %v was not answered", agent, action, args)
					if os.Getenv("VERIF_DEBUGLOG") != "" {
						fmt.Fprintln(os.Stderr, verifkit.Blocked())
						pprof.Lookup("goroutine").WriteTo(os.Stderr, 2)
					}
				}
				want.Replies++
				rec.Case(true, fmt.Sprintf("%d %s#%s %v", round, agent, action, args))
				rec.Count(agent+"#"+action, 1)
				_ = msg
				return code, out
			}
			// compares part of a reply
			same := func(what string, got, expect any) {
				gj, ej := verifkit.J(got), verifkit.J(expect)
				var g, e any
				must(json.Unmarshal([]byte(gj), &g))
				must(json.Unmarshal([]byte(ej), &e))
				rec.Count("facts compared", 1)
				if !reflect.DeepEqual(g, e) {
					rec.Violation(strings.ReplaceAll(what, " ", "-"), "v%d: reported %s as %s, it is %s", v, what, shorten(gj), shorten(ej))
				}
			}
			known := func() []string {
				res := []string{}
				for a, on := range agents {
					if on {
						res = append(res, a)
					}
				}
				sort.Strings(res)
				return res
			}
			stats := func(s statistics.ServerStats) map[string]int64 {
				return map[string]int64{"total": s.Total, "passed": s.Passed, "filtered": s.Filtered, "replies": s.Replies, "ttlexpired": s.TTLExpired, "validated": s.Valid, "unvalidated": s.Invalid, "events": base.Events + int64(events()-eventBase)}
			}
			machineList := func() any {
				res := []map[string]string{}
				for _, m := range machines {
					res = append(res, map[string]string{"name": m.name, "version": m.version, "state": m.state})
				}
				sort.Slice(res, func(i, j int) bool { return res[i]["name"]+res[i]["version"] < res[j]["name"]+res[j]["version"] })
				return res
			}
			sortMachines := func(v any) any {
				l, _ := v.([]any)
				sort.Slice(l, func(i, j int) bool { return verifkit.J(l[i]) < verifkit.J(l[j]) })
				return v
			}
			lookupFact := func(p string) any {
				switch p {
				case "role", "n", "on":
					return truth[p]
				case "nest.x.1":
					return truth["nest"].(map[string]any)["x"].([]any)[1]
				case "nest.x.#":
					return 2
				case `nest.y\.z`:
					return "dotted"
				case "nest":
					return truth["nest"]
				}
				return nil
			}

			for i := 0; i < 60 && !rec.Failed(); i++ {
				time.Sleep(time.Duration(rng.Intn(20000)) * time.Millisecond)
				synctest.Wait()
				switch rng.Intn(22) {
				case 0:
					become()
				case 1, 2:
					a := verifkit.Pick(rng, []string{"alpha", "beta", "gamma"})
					if agents[a] {
						must(mgr.UnregisterAgent(a, inst.Connector()))
					} else {
						must(mgr.RegisterAgent(context.Background(), a, monAgent(net, a, a, 10, false, map[string]mcorpc.Action{"echo": echo}, l), inst.Connector()))
					}
					agents[a] = !agents[a]
				case 3:
					before := time.Now().Unix()
					_, r := get("rpcutil", "ping", nil)
					same("pong", r["pong"], before)
				case 4:
					_, r := get("rpcutil", "inventory", nil)
					same("agents", r["agents"], known())
					same("classes", r["classes"], classList)
					same("facts", r["facts"], truth)
					same("collectives", r["collectives"], []string{"mcollective", "third"})
					same("main collective", r["main_collective"], "mcollective")
					same("data plugins", r["data_plugins"], []string{"choria", "config_item"})
					same("machines", sortMachines(r["machines"]), sortMachines(toAny(machineList())))
				case 5:
					_, r := get("rpcutil", "agent_inventory", nil)
					var names []string
					l, _ := r["agents"].([]any)
					for _, a := range l {
						m, _ := a.(map[string]any)
						nm, _ := m["agent"].(string)
						names = append(names, nm)
						if ver := fmt.Sprint(m["version"]); len(nm) > 0 && agents[nm] && nm != "rpcutil" && nm != "choria_util" {
							same("agent version", ver, "1.0."+nm)
							same("agent name", m["name"], nm)
							same("agent timeout", m["timeout"], 10)
						}
					}
					same("agent inventory", names, known())
				case 6, 7:
					_, r := get("rpcutil", "daemon_stats", nil)
					w := want
					w.Replies-- // its own was not sent yet
					for k, x := range stats(w) {
						same("statistic "+k, r[k], x)
					}
					same("agents", r["agents"], known())
					same("config file", r["configfile"], filepath.Join(dir, "server.conf"))
					same("pid", r["pid"], os.Getpid())
					same("start time", r["starttime"], begin.Unix())
				case 8:
					p := verifkit.Pick(rng, []string{"role", "n", "on", "nest.x.1", "nest.x.#", `nest.y\.z`, "nest", "ghost"})
					_, r := get("rpcutil", "get_fact", map[string]any{"fact": p})
					same("fact", r["fact"], p)
					same("fact value", r["value"], lookupFact(p))
				case 9:
					_, r := get("rpcutil", "get_facts", map[string]any{"facts": "role, n,ghost,nest.x.1"})
					same("fact values", r["values"], map[string]any{"role": truth["role"], "n": truth["n"], "ghost": nil, "nest.x.1": lookupFact("nest.x.1")})
				case 10:
					key := verifkit.Pick(rng, []string{"identity", "collectives", "plugin.choria.status_file_path", "plugin.choria.status_update_interval", "plugin.choria.middleware_hosts", "plugin.yaml", "ghost.key"})
					expect := map[string]any{"identity": "srv1.example.net", "collectives": []string{"mcollective", "third"}, "plugin.choria.status_file_path": status, "plugin.choria.status_update_interval": freq, "plugin.choria.middleware_hosts": []string{"broker1.example.net:4222", "broker2.example.net:4333"}, "plugin.yaml": facts}
					e, ok := expect[key]
					code, r := get("rpcutil", "get_config_item", map[string]any{"item": key})
					if ok {
						same("config item", r["item"], key)
						same("config value", r["value"], e)
					} else {
						same("unknown config item status", code, 1)
					}
					code, r = get("rpcutil", "get_data", map[string]any{"source": "config_item", "query": key})
					same("config data status", code, 0)
					same("config data", []any{r["present"], r["value"]}, []any{ok, e})
				case 11, 12:
					_, r := get("rpcutil", "get_data", map[string]any{"source": "choria", "query": ""})
					w := want
					w.Replies--
					for k, x := range stats(w) {
						same("data "+k, r[k], x)
					}
					same("data agents", []any{r["agents"], r["agents_count"]}, []any{known(), len(known())})
					same("data classes", []any{r["classes"], r["classes_count"]}, []any{classList, len(classList)})
					same("data machines", r["machines_count"], 3)
					same("data uptime", r["uptime"], int64(time.Since(begin).Seconds()))
					same("data provisioning", r["provisioning"], false)
					same("data broker", r["connected_broker"], "nats://memory:4222")
				case 13:
					code, _ := get("rpcutil", "get_data", map[string]any{"source": "ghost", "query": ""})
					same("unknown data status", code, 1)
					_, r := get("rpcutil", "collective_info", nil)
					same("collectives", []any{r["main_collective"], r["collectives"]}, []any{"mcollective", []string{"mcollective", "third"}})
				case 14:
					_, r := get("choria_util", "machine_states", nil)
					ids := map[string]bool{}
					ss, _ := r["states"].(map[string]any)
					for _, m := range machines {
						ids[m.id] = true
						s, _ := ss[m.id].(map[string]any)
						av := map[string][]string{"A": {"end", "go"}, "B": {"back", "end"}, "C": {}}[m.state]
						got := []string{}
						gl, _ := s["available_transitions"].([]any)
						for _, g := range gl {
							got = append(got, g.(string))
						}
						sort.Strings(got)
						same("machine state", []any{s["name"], s["version"], s["path"], s["state"], got}, []any{m.name, m.version, m.path, m.state, av})
					}
					same("machine count", len(ss), 3)
				case 15, 16, 17:
					m := verifkit.Pick(rng, machines)
					tr := verifkit.Pick(rng, []string{"go", "back", "go", "back", "ghost"})
					if rng.Intn(15) == 0 {
						tr = "end"
					}
					crit := map[string]any{}
					pick := func(key string, of func(*mach) string, bogus string) {
						switch rng.Intn(8) {
						case 0, 1, 2:
						case 3, 4, 5:
							crit[key] = of(m)
						case 6:
							crit[key] = of(verifkit.Pick(rng, machines))
						case 7:
							if rng.Intn(2) == 0 {
								crit[key] = bogus
							}
						}
					}
					pick("name", func(m *mach) string { return m.name }, "nobody")
					pick("version", func(m *mach) string { return m.version }, "9.9.9")
					pick("path", func(m *mach) string { return m.path }, "/nonexisting/m")
					pick("instance", func(m *mach) string { return m.id }, "x-x-x-x-x")
					var fits []*mach
					for _, o := range machines {
						fit := true
						for k, val := range crit {
							fit = fit && val == map[string]string{"name": o.name, "version": o.version, "path": o.path, "instance": o.id}[k]
						}
						if fit && len(crit) > 0 {
							fits = append(fits, o)
						}
					}
					if len(fits) > 1 {
						break // any of them might do
					}
					can := len(fits) == 1
					if can {
						m = fits[0]
					}
					crit["transition"] = tr
					code, r := get("choria_util", "machine_transition", crit)
					to := map[string]string{"A go": "B", "B back": "A", "A end": "C", "B end": "C"}[m.state+" "+tr]
					if can && to != "" {
						m.state = to
						same("transition", []any{code, r["success"]}, []any{0, true})
						rec.Count("transitions made", 1)
					} else {
						same("impossible transition", []any{code, r["success"]}, []any{1, false})
						rec.Count("transitions refused", 1)
					}
					code, r = get("choria_util", "machine_state", map[string]any{"instance": m.id})
					same("machine state", []any{code, r["name"], r["version"], r["state"]}, []any{0, m.name, m.version, m.state})
				case 18:
					code, _ := get("choria_util", "machine_state", map[string]any{"name": "m1"})
					same("ambiguous machine status", code, 1)
					code, r := get("choria_util", "machine_state", map[string]any{"name": "m2"})
					same("named machine", []any{code, r["path"]}, []any{0, machines[1].path})
				case 19:
					_, r := get("choria_util", "info", nil)
					same("middleware", r["middleware_servers"], []string{"broker1.example.net:4222", "broker2.example.net:4333"})
					same("connected server", r["connected_server"], "nats://memory:4222")
				case 20:
					// what is not answered
					switch rng.Intn(4) {
					case 0:
						net.Net.Deliver("mcollective.node.srv1.example.net", []byte(verifkit.Pick(rng, []string{"{}", "", "junk", `{"protocol":"io.choria.transport.v2"}`})))
						want.Total++
						want.Invalid++
						rec.Count("invalid", 1)
					case 1:
						f := protocol.NewFilter()
						f.AddIdentityFilter("other")
						ask("rpcutil", "ping", nil, f)
						want.Filtered++
						rec.Count("filtered", 1)
					case 2:
						f := protocol.NewFilter()
						id := hexid(rng)
						d := fleetRequest(client, id, "rpcutil", "mcollective", "x.reply", 60, rpcBody("rpcutil", "ping", nil), f, map[string]any{"time": setTime(time.Now().Add(-time.Hour), v)})
						net.Net.Deliver("mcollective.node.srv1.example.net", d)
						want.Total++
						want.Passed++
						want.TTLExpired++
						rec.Count("expired", 1)
					case 3:
						failing.Store(true)
						ask("rpcutil", "ping", nil, nil)
						failing.Store(false)
						want.Passed++
						want.Valid++
						last = at
						rec.Count("replies that failed", 1)
					}
					synctest.Wait()
				case 21:
					time.Sleep(time.Duration(freq) * time.Second)
					synctest.Wait()
					// aligned to what was written last
					st, err := statistics.LoadInstanceStatus(status)
					if err != nil {
						rec.Violation("status", "status file cannot be read: %v", err)
						continue
					}
					up := time.Since(begin)
					if d := int64(up.Seconds()) - st.Uptime; d < 0 || d > int64(freq) {
						rec.Violation("status-age", "status file says the server is up %d seconds, it is %v and it is written every %d seconds", st.Uptime, up, freq)
					}
					w := stats(want)
					same("status statistics", map[string]int64{"total": st.Stats.Total, "passed": st.Stats.Passed, "filtered": st.Stats.Filtered, "replies": st.Stats.Replies, "ttlexpired": st.Stats.TTLExpired, "validated": st.Stats.Valid, "unvalidated": st.Stats.Invalid}, map[string]int64{"total": w["total"], "passed": w["passed"], "filtered": w["filtered"], "replies": w["replies"], "ttlexpired": w["ttlexpired"], "validated": w["validated"], "unvalidated": w["unvalidated"]})
					lm := int64(0)
					if !last.IsZero() {
						lm = last.Unix()
					}
					same("status last message", st.LastMessage, lm)
					same("status", []any{st.Identity, st.ConnectedServer, st.Provisioning}, []any{"srv1.example.net", "nats://memory:4222", false})
					same("status certificate", st.CertificateExpires.Unix(), certExpires.Unix())
					same("status token", st.TokenExpires.Unix(), tokenExpires.Unix())
					rec.Count("status files", 1)
				}
			}
			if rec.Failed() {
				stop()
				return
			}
			// hours of life signs
			from := time.Now()
			time.Sleep(4 * time.Hour)
			synctest.Wait()
			ids := map[string]bool{}
			alive := 0
			for _, s := range net.Net.Sent() {
				if s.Subject != "choria.lifecycle.event.alive.server" {
					continue
				}
				var e struct {
					ID   string    `json:"id"`
					Time time.Time `json:"time"`
					Data struct {
						ID       string `json:"id"`
						Identity string `json:"identity"`
						TS       int64  `json:"timestamp"`
					} `json:"data"`
				}
				if err := json.Unmarshal(s.Data, &e); err != nil {
					rec.Violation("alive", "alive event %s: %v", s.Data, err)
					continue
				}
				if s.At.After(from) {
					alive++
				}
				rec.Count("alive events", 1)
				if e.Data.Identity != "srv1.example.net" || e.Data.TS != s.At.Unix() {
					rec.Violation("alive", "alive event published at %v is from %s at %v", s.At.Unix(), e.Data.Identity, e.Data.TS)
				}
				if ids[e.Data.ID] {
					rec.Violation("alive-id", "two alive events have id %s", e.Data.ID)
				}
				ids[e.Data.ID] = true
			}
			if alive < 6 || alive > 9 {
				rec.Violation("alive-count", "%d alive events in 4 hours", alive)
			}
			stop()
		})
		reader.stop.Store(true)
		reader.wg.Wait()
		rec.Count("status file reads", reader.reads)
		rec.Count("different status files read", len(reader.kinds))
		for i, b := range reader.bad {
			if i < 3 {
				rec.Violation("status-file", "status file %s (%d of %d reads)", b, len(reader.bad), reader.reads)
			}
		}
	}
	for _, k := range []string{"invalid", "filtered", "expired", "replies that failed", "transitions made", "transitions refused", "status files", "rpcutil#inventory", "rpcutil#daemon_stats", "rpcutil#agent_inventory", "choria_util#machine_states"} {
		rec.Require(k, 2)
	}
	rec.Require("alive events", 50)
	rec.Require("different status files read", 200)
}

func toAny(v any) (r any) {
	must(json.Unmarshal([]byte(verifkit.J(v)), &r))
	return r
}

// TestC33Settings runs servers whose settings turn parts of them off
func TestC33Settings(t *testing.T) {
	rec := verifkit.New(t, "C33", "no setting of the self reports crashes a node or writes where it should not")
	for _, freq := range []int{0, -1, 1} {
		for _, file := range []string{"", "status.json", "missing/status.json"} {
			dir := t.TempDir()
			target := file
			if file != "" {
				target = filepath.Join(dir, file)
			}
			srv := newEnd(1, "srv1.example.net", func(cfg *config.Config) {
				cfg.Choria.StatusFilePath = target
				cfg.Choria.StatusUpdateSeconds = freq
			})
			desc := fmt.Sprintf("interval %d file %q", freq, file)
			synctest.Test(t, func(t *testing.T) {
				catchUp()
				_, stop := vfake.StartServer(context.Background(), vfake.WrapNet(srv.fw))
				time.Sleep(time.Minute)
				synctest.Wait()
				stop()
				_, err := os.Stat(target)
				if want := freq > 0 && file == "status.json"; want != (err == nil && target != "") {
					rec.Violation("status", "%s: wrote status: %v", desc, err == nil)
				}
				left, err := os.ReadDir(dir)
				must(err)
				for _, e := range left {
					if e.Name() != "status.json" {
						rec.Violation("litter", "%s: left %s behind", desc, e.Name())
					}
				}
				rec.Case(true, desc)
			})
		}
	}
}

// TestC33ServiceHost asks servers that host only services
func TestC33ServiceHost(t *testing.T) {
	rec := verifkit.New(t, "C33", "hosts of services answer what matches them and survive what does not")
	dataPlugins()
	rng := verifkit.Rand("c33servicehost")
	facts := vfake.TempFile([]byte(`{"role":"web"}`))
	for v := 1; v <= 2; v++ {
		client := newEnd(v, "rip.mcollective", nil)
		srv := newEnd(v, "srv1.example.net", func(cfg *config.Config) {
			cfg.Collectives = []string{"mcollective"}
			cfg.FactSourceFile = facts
		})
		synctest.Test(t, func(t *testing.T) {
			catchUp()
			net := vfake.WrapNet(srv.fw)
			inst, err := server.NewInstance(net)
			must(err)
			c, cancel := context.WithCancel(context.Background())
			wg := &sync.WaitGroup{}
			wg.Add(1)
			must(inst.RunServiceHost(c, wg))
			l := &callLog{}
			must(inst.AgentManager().RegisterAgent(c, "svc", monAgent(net, "svc", "a", 10, true, map[string]mcorpc.Action{"echo": echo}, l), inst.Connector()))
			synctest.Wait()
			for i, x := range []struct {
				f  func(f *protocol.Filter)
				ok bool
			}{
				{func(f *protocol.Filter) {}, true},
				{func(f *protocol.Filter) { f.AddFactFilter("role", "==", "web") }, true},
				{func(f *protocol.Filter) { f.AddFactFilter("role", "==", "db") }, false},
				{func(f *protocol.Filter) { f.AddCompoundFilter(`fact("role") == "db"`) }, false},
				{func(f *protocol.Filter) { f.AddCompoundFilter(`choria().pid > 1 and fact("role") == "db"`) }, false},
				{func(f *protocol.Filter) {}, true},
			} {
				f := protocol.NewFilter()
				x.f(f)
				id := hexid(rng)
				sent, calls := len(net.Net.Sent()), len(l.all())
				if net.Net.Deliver("mcollective.broadcast.service.svc", fleetRequest(client, id, "svc", "mcollective", "reply.x", 60, rpcBody("svc", "echo", map[string]any{}), f, nil)) != 1 {
					rec.Violation("subscription", "service host does not listen: %v", net.Net.Subjects())
					continue
				}
				synctest.Wait()
				got := len(net.Net.Sent()) - sent
				if (got == 1) != x.ok || (len(l.all())-calls == 1) != x.ok {
					rec.Violation("answers", "v%d filter %d: %d replies, %d calls", v, i, got, len(l.all())-calls)
				}
				rec.Case(true, fmt.Sprint(v, i))
			}
			_, err = inst.DataFuncMap()
			rec.Count("data functions asked", 1)
			_ = err
			cancel()
			wg.Wait()
		})
	}
}
