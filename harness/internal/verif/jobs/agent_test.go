package jobs

import (
	"context"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/executor"
	"github.com/choria-io/go-choria/providers/execution"
	"github.com/choria-io/go-choria/server"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/tokens"
	"github.com/sirupsen/logrus"
)

type manager struct {
	server.AgentManager
	fw *choria.Framework
}

func (m *manager) Logger() *logrus.Entry   { return vfake.Log() }
func (m *manager) Choria() inter.Framework { return m.fw }

// creq is a request whose caller presented a token
type creq struct {
	protocol.Request
	token string
}

func (r *creq) CallerPublicData() string { return r.token }

func ask(fw *choria.Framework, ag *mcorpc.Agent, caller, token, reqid, action string, data any) (*mcorpc.Reply, error) {
	payload, err := json.Marshal(map[string]any{"agent": "executor", "action": action, "data": data})
	if err != nil {
		return nil, err
	}
	req, err := v2.NewRequest("executor", "client.example.net", caller, 60, reqid, "mcollective")
	if err != nil {
		return nil, err
	}
	req.SetMessage(payload)
	msg, err := fw.NewMessage(payload, "executor", "mcollective", inter.RequestMessageType, nil)
	if err != nil {
		return nil, err
	}
	out := make(chan *agents.AgentReply, 10)
	ag.HandleMessage(context.Background(), msg, &creq{req, token}, nil, out)
	close(out)
	var rep *mcorpc.Reply
	for r := range out {
		if rep != nil {
			return nil, fmt.Errorf("more than one reply")
		}
		rep = &mcorpc.Reply{}
		if err := json.Unmarshal(r.Body, rep); err != nil {
			return nil, fmt.Errorf("reply %q: %w", r.Body, err)
		}
	}
	if rep == nil {
		return nil, fmt.Errorf("no reply")
	}
	return rep, nil
}

func digest(dir string) string {
	var out []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			out = append(out, err.Error())
			return nil
		}
		s := p
		if d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			s += fmt.Sprintf(" %x", sha256.Sum256(b))
		}
		out = append(out, s)
		return nil
	})
	return strings.Join(out, "\n")
}

var callers = []string{"choria=alice", "choria=bob", "choria=eve"}

// access lists callers allowed per agent and action
type access map[string]map[string]bool

func (a access) allowed(caller, agent, action string) bool {
	if a == nil {
		return true // authorization is off
	}
	return a[agent+"#"+action][caller]
}

func genAccess(r *rand.Rand, dir string) access {
	a := access{}
	for _, agent := range []string{"executor", "app", "ops"} {
		actions := []string{"run", "stop"}
		odds := 2
		if agent == "executor" {
			actions = []string{"status", "signal", "list"}
			odds = 4
		}
		b := &strings.Builder{}
		b.WriteString("policy default deny\n")
		for _, act := range actions {
			set := map[string]bool{}
			for _, c := range callers {
				if r.Intn(odds) > 0 {
					set[c] = true
					fmt.Fprintf(b, "allow\t%s\t%s\t*\t*\n", c, act)
				}
			}
			a[agent+"#"+act] = set
		}
		if agent == "ops" && r.Intn(3) == 0 {
			// no policy at all for this agent, which denies
			a["ops#run"], a["ops#stop"] = nil, nil
			os.Remove(filepath.Join(dir, "policies", agent+".policy"))
			continue
		}
		os.WriteFile(filepath.Join(dir, "policies", agent+".policy"), []byte(b.String()), 0600)
	}
	return a
}

// tokens makes what callers present when their tokens list what they may do
func (a access) tokens(r *rand.Rand) (map[string]string, error) {
	pub, pri, err := ed25519.GenerateKey(r)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, c := range callers {
		var list []string
		for k, set := range a {
			if set[c] {
				list = append(list, strings.ReplaceAll(k, "#", "."))
			}
		}
		cl, err := tokens.NewClientIDClaims(c, list, "choria", nil, "", "", time.Hour, &tokens.ClientPermissions{FleetManagement: true}, pub)
		if err != nil {
			return nil, err
		}
		if out[c], err = tokens.SignToken(cl, pri); err != nil {
			return nil, err
		}
	}
	return out, nil
}

type managed struct {
	p     *execution.Process
	state string
	proc  *child
	exit  int
	out   int
}

func makeJob(v *verifkit.Rec, r *rand.Rand, spool string, agent, action, state string) *managed {
	secret := "secret-" + hexid(r)
	p, err := execution.New(verifkit.Pick(r, callers), agent, action, hexid(r), "n.example.net", hexid(r), "/opt/"+secret, []string{"--password", secret}, map[string]string{"TOKEN": secret})
	if err != nil {
		v.Violation("new", "%v", err)
		return nil
	}
	m := &managed{p: p, state: state}
	p.Created = time.Unix(1700000000+int64(r.Intn(100)*100), 0).UTC()
	if state != "new" {
		p.StartTime = p.Created
		p.PidFile = filepath.Join(spool, p.ID, "pid")
		p.StdoutFile = filepath.Join(spool, p.ID, "stdout")
		p.StderrFile = filepath.Join(spool, p.ID, "stderr")
	}
	if state == "ended" {
		p.TerminateTime = p.Created.Add(time.Minute)
	}
	if _, err := p.CreateSpool(spool); err != nil {
		v.Violation("create spool", "%v", err)
		return nil
	}
	if state == "new" {
		return m
	}
	m.proc, err = newChild()
	if err != nil {
		v.Inconclusive("%v", err)
		return nil
	}
	if state == "ended" {
		m.proc.kill()
		m.exit = r.Intn(200)
		m.out = r.Intn(5000)
		os.WriteFile(filepath.Join(spool, p.ID, "exit"), []byte(fmt.Sprintf(`{"code":%d,"error":""}`, m.exit)), 0600)
		os.WriteFile(p.StdoutFile, make([]byte, m.out), 0600)
		os.WriteFile(p.StderrFile, make([]byte, 3), 0600)
	}
	os.WriteFile(p.PidFile, []byte(strconv.Itoa(m.proc.pid())), 0600)
	return m
}

// TestC21Agent asks the executor agent for everything, as callers with and without access
func TestC21Agent(t *testing.T) {
	v := verifkit.New(t, "C21", "jobs are signalled and their commands revealed only for callers allowed the action that made the job, other requests change and reveal nothing")
	for _, k := range []string{"signals delivered", "signals denied", "status with command", "status without command", "listings", "refused by policy", "bad job ids", "bad signals", "access changed", "tokens", "repeated request ids"} {
		v.Require(k, 5)
	}
	var wg sync.WaitGroup
	slots := make(chan struct{}, 8)
	for c := 0; c < verifkit.N(32, 400); c++ {
		r := verifkit.Rand(fmt.Sprintf("agent %d", c))
		dir := t.TempDir()
		wg.Add(1)
		slots <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-slots }()
			agentWorld(v, r, dir, c)
		}()
	}
	wg.Wait()
}

func agentWorld(v *verifkit.Rec, r *rand.Rand, dir string, c int) {
	spool := filepath.Join(dir, "spool")
	os.MkdirAll(spool, 0700)
	os.MkdirAll(filepath.Join(dir, "policies"), 0700)
	acc := genAccess(r, dir)
	authz := r.Intn(6) > 0
	if !authz {
		acc = nil
	}
	provider := verifkit.Pick(r, []string{"action_policy", "action_policy", "aaasvc"})
	var presents map[string]string
	var err error
	if provider == "aaasvc" && authz {
		if presents, err = acc.tokens(r); err != nil {
			v.Inconclusive("%v", err)
			return
		}
		v.Count("tokens", 1)
	}
	fw := vfake.FW(func(cfg *config.Config) {
		cfg.RPCAuthorization = authz
		cfg.RPCAuthorizationProvider = provider
		cfg.ConfigFile = filepath.Join(dir, "server.conf")
		cfg.Choria.ExecutorEnabled = true
		cfg.Choria.ExecutorSpool = spool
	})
	ag, err := executor.New(&manager{fw: fw})
	if err != nil {
		v.Violation("agent", "%v", err)
		return
	}
	ag.SetServerInfo(&vfake.Server{AgentsV: []string{"executor", "app", "ops"}, IdentityV: "n.example.net", FactsV: []byte("{}")})

	jobs := map[string]*managed{}
	var ids []string
	for _, state := range []string{"running", "running", "running", "running", "ended", "ended", "new"} {
		m := makeJob(v, r, spool, verifkit.Pick(r, []string{"app", "ops"}), verifkit.Pick(r, []string{"run", "stop"}), state)
		if m == nil {
			return
		}
		jobs[m.p.ID] = m
		ids = append(ids, m.p.ID)
	}
	// a job somewhere else
	outside := makeJob(v, r, dir, "app", "run", "running")
	if outside == nil {
		return
	}
	defer func() {
		for _, m := range append([]*managed{outside}, values(jobs)...) {
			if m.proc != nil {
				m.proc.kill()
			}
		}
	}()
	os.Symlink(filepath.Join(dir, outside.p.ID), filepath.Join(dir, "link"))
	secrets := func(s string) (found []string) {
		for _, m := range append(values(jobs), outside) {
			if strings.Contains(s, m.p.Args[1]) {
				found = append(found, m.p.ID)
			}
		}
		return found
	}
	oid := outside.p.ID
	badIDs := []any{"", nil, 5, true, []string{ids[0]}, map[string]string{"id": ids[0]}, "nosuch", "../" + oid, filepath.Join(dir, oid), "x/../../" + oid, "./../" + oid, "..", ".", "/", "../spool/" + ids[0], ids[0] + "/", ids[0] + "/../" + ids[1], ids[0] + "\x00", strings.ToUpper(ids[0]) + "x", "*", ids[0][:8], strings.Repeat("a", 5000)}
	badSignals := []any{-1, -15, "15", "TERM", nil, 15.5, []int{15}, true, 1e30}

	state := func() string {
		return digest(spool) + digest(filepath.Join(dir, oid)) + digest(filepath.Join(dir, "policies"))
	}
	delivered := 0
	for i := 0; i < 60; i++ {
		if authz && r.Intn(10) == 0 {
			acc = genAccess(r, dir)
			if presents != nil {
				if presents, err = acc.tokens(r); err != nil {
					v.Inconclusive("%v", err)
					return
				}
			}
			v.Count("access changed", 1)
		}
		caller := verifkit.Pick(r, callers)
		action := verifkit.Pick(r, []string{"status", "status", "signal", "signal", "list", "nosuch"})
		id := any(verifkit.Pick(r, ids))
		m := jobs[id.(string)]
		if r.Intn(3) == 0 {
			id, m = verifkit.Pick(r, badIDs), nil
			v.Count("bad job ids", 1)
		}
		data := map[string]any{"id": id}
		var sig any
		goodSig := true
		if action == "signal" {
			sig = verifkit.Pick(r, []any{0, 0, 15, 9})
			if n := sig.(int); n > 0 && delivered > 2 {
				sig = 0
			}
			if r.Intn(4) == 0 {
				sig, goodSig = verifkit.Pick(r, badSignals), sig == nil
				v.Count("bad signals", 1)
			}
			data["signal"] = sig
			if sig == nil {
				// reads as signal 0, which only checks the job is there
				sig, goodSig = 0, true
			}
		}
		before := state()
		desc := fmt.Sprintf("world %d authorization %v %s %s calls %s with %s", c, authz, provider, caller, action, verifkit.J(data))
		reqid := "0123456789abcdef0123456789abcdef"
		switch {
		case m != nil && r.Intn(3) == 0:
			reqid = m.p.RequestID
			v.Count("repeated request ids", 1)
			desc += " using the request id of the job"
		case r.Intn(2) == 0:
			reqid = hexid(r) + hexid(r)
		}
		if m != nil {
			desc += fmt.Sprintf(" %s job of %s#%s", m.state, m.p.Agent, m.p.Action)
		}
		aliveBefore := map[string]bool{}
		for jid, j := range jobs {
			aliveBefore[jid] = j.proc != nil && j.proc.alive()
		}
		var rep *mcorpc.Reply
		var err error
		if action == "list" {
			data = map[string]any{"agent": "app"}
			if r.Intn(2) == 0 {
				data["since"] = 1700000000 + r.Intn(100)*100 + 50
			}
			if r.Intn(2) == 0 {
				data["before"] = 1700000000 + r.Intn(100)*100 + 50
			}
			desc = fmt.Sprintf("world %d authorization %v %s calls list with %s", c, authz, caller, verifkit.J(data))
		}
		if !v.NoPanic("executor "+action, desc, func() { rep, err = ask(fw, ag, caller, presents[caller], reqid, action, data) }) {
			continue
		}
		if err != nil {
			v.Violation("reply", "%v: %s", err, desc)
			continue
		}
		v.Case(true, desc)
		body := verifkit.J(rep)
		ok := rep.Statuscode == mcorpc.OK
		may := acc.allowed(caller, "executor", action)
		mayJob := m != nil && acc.allowed(caller, m.p.Agent, m.p.Action)
		if state() != before {
			v.Violation("records changed", "%s", desc)
		}
		expectKill := ""
		switch {
		case action == "nosuch":
			v.Check(!ok, "unknown action", "%s: %s", desc, body)
		case !may:
			v.Count("refused by policy", 1)
			v.Check(!ok && len(secrets(body)) == 0, "answered without access", "%s: %s", desc, body)
		case action == "list":
			v.Count("listings", 1)
			var res struct {
				Jobs []struct {
					ID string `json:"id"`
				} `json:"jobs"`
			}
			d, _ := json.Marshal(rep.Data)
			json.Unmarshal(d, &res)
			var got, want []string
			for _, j := range res.Jobs {
				got = append(got, j.ID)
			}
			for jid, j := range jobs {
				at := int(j.p.Created.Unix())
				since, s := data["since"].(int)
				bef, b := data["before"].(int)
				if j.p.Agent == "app" && (!s || at > since) && (!b || at < bef) {
					want = append(want, jid)
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			v.Check(ok && verifkit.J(got) == verifkit.J(want), "listing differs", "%s: got %v want %v %s", desc, got, want, rep.Statusmsg)
		case m == nil:
			v.Check(!ok, "unknown job answered", "%s: %s", desc, body)
			v.Check(len(secrets(body)) == 0, "reveals a job", "%s: %s", desc, body)
		case action == "status":
			d, _ := json.Marshal(rep.Data)
			var st executor.StatusResponse
			json.Unmarshal(d, &st)
			if !v.Check(ok, "status refused", "%s: %s", desc, body) {
				break
			}
			if mayJob {
				v.Count("status with command", 1)
				v.Check(st.Command == m.p.Command && st.Args == strings.Join(m.p.Args, " "), "status hides the command", "%s: %s", desc, body)
			} else {
				v.Count("status without command", 1)
				v.Check(len(secrets(body)) == 0, "reveals the command", "%s: %s", desc, body)
			}
			run := m.proc != nil && m.proc.alive()
			exit, pid, out := -1, -1, 0
			if m.proc != nil {
				pid = m.proc.pid()
			}
			if m.state == "ended" {
				exit, out = m.exit, m.out
			}
			v.Check(st.Running == run && st.Started == (m.state != "new") && st.Pid == pid && st.ExitCode == exit && st.StdoutBytes == out && st.Agent == m.p.Agent && st.Action == m.p.Action && st.RequestID == m.p.RequestID && st.Caller == m.p.Caller && st.StartTime.Equal(m.p.StartTime) && st.TerminateTime.Equal(m.p.TerminateTime), "status differs", "%s alive %v: %s", desc, run, body)
		case action == "signal":
			valid := mayJob && goodSig && aliveBefore[m.p.ID]
			if !mayJob {
				v.Count("signals denied", 1)
			}
			if !valid {
				v.Check(!ok, "signal accepted", "%s: %s", desc, body)
				v.Check(len(secrets(body)) == 0, "reveals the command", "%s: %s", desc, body)
				break
			}
			v.Check(ok, "signal refused", "%s: %s", desc, body)
			if n, _ := sig.(int); n > 0 && ok {
				expectKill = m.p.ID
				delivered++
				if !m.proc.dies() {
					v.Violation("signal not delivered", "%s", desc)
				}
			}
			v.Count("signals delivered", 1)
		}
		for jid, was := range aliveBefore {
			if was && jid != expectKill && !jobs[jid].proc.alive() {
				v.Violation("signalled a job it may not", "%s died: %s", jid, desc)
			}
		}
		if expectKill != "" {
			// it ended without a supervisor to notice, it is not used any further
			delete(jobs, expectKill)
			os.RemoveAll(filepath.Join(spool, expectKill))
			var left []string
			for _, x := range ids {
				if x != expectKill {
					left = append(left, x)
				}
			}
			ids = left
		}
		v.Check(outside.proc.alive(), "signalled a process outside of the spool", "%s", desc)
		if v.Failed() {
			return
		}
	}
	time.Sleep(50 * time.Millisecond)
	for jid, j := range jobs {
		if j.state == "running" {
			v.Check(j.proc.alive(), "signalled a job it may not", "%s died in world %d", jid, c)
		}
	}
	v.Check(outside.proc.alive(), "signalled a process outside of the spool", "world %d", c)
}

func values(m map[string]*managed) (out []*managed) {
	for _, x := range m {
		out = append(out, x)
	}
	return out
}
