package external

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/external"
	"github.com/choria-io/go-choria/server/agents"
)

const doer = `{"$schema":"https://choria.io/schemas/mcorpc/ddl/v1/agent.json",
"metadata":{"name":"doer","description":"d","author":"a","license":"l","version":"1.0.0","url":"u","timeout":1,"provider":"external"},
"actions":[
 {"action":"do","display":"always","description":"d","input":{
  "text":{"prompt":"p","description":"d","type":"string","validation":"shellsafe","optional":false,"maxlength":20},
  "number":{"prompt":"p","description":"d","type":"integer","optional":true},
  "flag":{"prompt":"p","description":"d","type":"boolean","optional":true},
  "choice":{"prompt":"p","description":"d","type":"list","optional":true,"list":["a","b"]},
  "any":{"prompt":"p","description":"d","type":"hash","optional":true}},
  "output":{"a":{"description":"d","display_as":"A","default":"none"},"b":{"description":"d","display_as":"B","default":7},"c":{"description":"d","display_as":"C"}}},
 {"action":"bare","display":"always","description":"d","input":{},"output":{}}]}`

// the agent looks up what to do by the id of the request
const doerScript = `#!/bin/sh
if [ "$CHORIA_EXTERNAL_PROTOCOL" = io.choria.mcorpc.external.v1.activation_request ]; then
  echo '{"activate":true}' > "$CHORIA_EXTERNAL_REPLY"
  exit 0
fi
id=$(sed 's/.*"requestid":"\([^"]*\)".*/\1/' "$CHORIA_EXTERNAL_REQUEST")
D="%s/$id"
echo x >> "$D/runs"
cp "$CHORIA_EXTERNAL_REQUEST" "$D/request"
cp "$CHORIA_EXTERNAL_FACTS" "$D/facts"
env > "$D/env"
printf '%%s\n' "$@" > "$D/args"
. "$D/behave"
`

func number(b []byte) (v any, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	err = d.Decode(&v)
	return v, err
}

type call struct {
	id, agent, action, data string
	accept                  bool
	behave                  string
	ends                    string // what the agent does in the end
	reply                   string // what it writes
	status                  float64
	msg                     string
	out                     string // data expected
}

func genCall(r *rand.Rand, id string) *call {
	c := &call{id: id, agent: "patient", action: "do", accept: true}
	texts := []string{`"hello"`, `""`, `"ünï"`, `"with space"`, `"-dash"`, `"\u0041\/\n"`, `"<&"`, `"12345678901234567890"`}
	// & and ; and such are not shell safe in pairs, a single & is
	texts[6] = `"a&b"`
	parts := []string{`"text":` + verifkit.Pick(r, texts)}
	if r.Intn(2) == 0 {
		parts = append(parts, `"number":`+verifkit.Pick(r, []string{"0", "-1", "12345", "9007199254740993", "1e2"}))
	}
	if r.Intn(3) == 0 {
		parts = append(parts, `"flag":`+verifkit.Pick(r, []string{"true", "false"}))
	}
	if r.Intn(3) == 0 {
		parts = append(parts, `"choice":`+verifkit.Pick(r, []string{`"a"`, `"b"`}))
	}
	if r.Intn(3) == 0 {
		parts = append(parts, `"any":`+verifkit.Pick(r, []string{`{}`, `{"a":[1,2,{"b":null}],"c":12345678901234567890}`, `{"<":"&"}`}))
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	c.data = "{" + strings.Join(parts, ",") + "}"
	if r.Intn(12) == 0 {
		c.action, c.data = "bare", "{}"
	}
	if r.Intn(4) == 0 { // input that is not valid
		c.accept = false
		c.action = "do"
		c.data = verifkit.Pick(r, []string{`{}`, `{"number":1}`, `{"text":5}`, `{"text":null}`, `{"text":"a;b"}`, "{\"text\":\"a`b\"}", `{"text":"$x"}`, `{"text":"123456789012345678901"}`,
			`{"text":"x","number":"1"}`, `{"text":"x","number":1.5}`, `{"text":"x","flag":"true"}`, `{"text":"x","choice":"c"}`, `{"text":"x","choice":"A"}`, `{"text":"x","any":[]}`, `{"text":"x","more":1}`, `{"Text":"x"}`, `{"text":["x"]}`, `"x"`, `5`, `["x"]`})
		if r.Intn(8) == 0 {
			c.action, c.data = "bare", `{"text":"x"}`
		}
		if r.Intn(8) == 0 {
			c.action = verifkit.Pick(r, []string{"other", "", "Do", "do ", "do#x"})
			c.data = `{"text":"x"}`
		}
	}
	c.status, c.msg = 0, "OK"
	data := verifkit.Pick(r, []string{`{}`, `{"a":"x"}`, `{"b":9007199254740993,"c":[1,2]}`, `{"a":null,"c":{"x":"ü"}}`, `{"other":12345678901234567890123,"f":1.5}`, `{"a":"","b":0,"c":false}`, ``, `null`, `{"c":"` + strings.Repeat("x", 100000) + `"}`})
	parts = []string{}
	if data != "" {
		parts = append(parts, `"data":`+data)
	}
	if r.Intn(2) == 0 {
		c.status = float64(r.Intn(6))
		parts = append(parts, fmt.Sprintf(`"statuscode":%v`, c.status))
	}
	if r.Intn(2) == 0 {
		c.msg = verifkit.Pick(r, []string{"", "all good", "ünï <&>"})
		parts = append(parts, fmt.Sprintf(`"statusmsg":%q`, c.msg))
	}
	c.reply = "{" + strings.Join(parts, ",") + "}"
	// outputs that are absent have their defaults
	out := map[string]json.RawMessage{}
	json.Unmarshal([]byte(data), &out)
	if out == nil {
		out = map[string]json.RawMessage{}
	}
	if c.action == "do" {
		for k, v := range map[string]string{"a": `"none"`, "b": "7"} {
			if out[k] == nil {
				out[k] = json.RawMessage(v)
			}
		}
	}
	j, _ := json.Marshal(out)
	c.out = string(j)

	write := "cp \"$D/reply\" \"$CHORIA_EXTERNAL_REPLY\"\n"
	c.ends = "reply"
	c.behave = write
	switch r.Intn(24) {
	case 0:
		c.ends, c.behave = "exits", write+fmt.Sprintf("exit %d\n", 1+r.Intn(255))
	case 1:
		c.ends, c.behave = "signal", write+"kill -"+verifkit.Pick(r, []string{"9", "15", "6"})+" $$\n"
	case 2:
		c.ends, c.behave = "silent", ""
	case 3:
		c.ends, c.behave = "garbage", "printf '%s' '"+verifkit.Pick(r, []string{"", "{", "x", `{"statuscode":0} x`, `[]`, `5`, `"x"`, `{"statuscode":"0"}`, `{"statusmsg":1}`, `{"data":"text"}`, `{"data":[1]}`, `{"data":5}`, `{}{}`})+"' > \"$CHORIA_EXTERNAL_REPLY\"\n"
	case 4:
		c.ends, c.behave = "removes", "rm \"$CHORIA_EXTERNAL_REPLY\"\n"
	case 5, 6:
		c.behave = "head -c 300000 /dev/zero | tr '\\0' 'x'\n" + write // a line that is long
	case 7:
		c.behave = "head -c 300000 /dev/zero | tr '\\0' 'x' >&2; echo >&2; echo done >&2\n" + write
	case 8:
		c.behave = "i=0; while [ $i -lt 2000 ]; do echo line $i; i=$((i+1)); done\n" + write
	case 9:
		c.behave = "echo; echo '{'; printf '\\000\\377\\n'\n" + write
	case 10:
		c.behave = "sleep 20 &\n" + write // keeps the output open
	case 11:
		c.behave = "exec >&- 2>&-\n" + write
	}
	if r.Intn(40) == 0 {
		c.agent = "doer"
		c.ends, c.behave = "slow", verifkit.Pick(r, []string{"exec sleep 30\n", "trap '' TERM INT\nsleep 30\n", "sleep 30 & wait\n"})+write
	}
	return c
}

// TestC27Actions sends requests to agents whose programs do well and badly
func TestC27Actions(t *testing.T) {
	rec := verifkit.New(t, "C27", "the program of an external agent runs once for a request valid under its definition, and for no other, gets exactly the request, and what it replied or that it failed is what the caller is told")
	for _, k := range []string{"refused", "reply", "exits", "signal", "silent", "garbage", "removes", "slow"} {
		rec.Require(k, 2)
	}
	root := t.TempDir()
	tmp := filepath.Join(root, "tmp dir")
	runs := filepath.Join(root, "runs")
	agentDir := filepath.Join(root, "lib", "mcollective", "agent")
	for _, d := range []string{tmp, runs, agentDir} {
		os.MkdirAll(d, 0700)
	}
	t.Setenv("TMPDIR", tmp)
	os.WriteFile(filepath.Join(agentDir, "doer.json"), []byte(doer), 0600)
	os.WriteFile(filepath.Join(agentDir, "doer"), []byte(fmt.Sprintf(doerScript, runs)), 0700)
	// has more time, for all that is not about its timeout
	os.WriteFile(filepath.Join(agentDir, "patient.json"), []byte(strings.Replace(strings.Replace(doer, `"doer"`, `"patient"`, 1), `"timeout":1`, `"timeout":25`, 1)), 0600)
	os.WriteFile(filepath.Join(agentDir, "patient"), []byte(fmt.Sprintf(doerScript, runs)), 0700)
	for _, f := range []string{"doer.json", "patient.json"} {
		os.Chtimes(filepath.Join(agentDir, f), time.Now().Add(-time.Hour), time.Now().Add(-time.Hour))
	}
	n := vfake.NewNetFW(func(cfg *config.Config) {
		cfg.ConfigFile = filepath.Join(root, "etc", "server.conf")
		cfg.Choria.RubyLibdir = []string{filepath.Join(root, "lib")}
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	conn, err := n.NewConnector(ctx, nil, "srv", vfake.Log())
	if err != nil {
		t.Fatal(err)
	}
	facts := `{"site":"ünï","n":12345678901234567890}`
	mgr := agents.New(make(chan inter.ConnectorMessage, 10), n, conn, &vfake.Server{IdentityV: "n1", FactsV: json.RawMessage(facts)}, vfake.Log())
	prov := &external.Provider{}
	prov.Initialize(n.Configuration(), vfake.Log())
	if err := prov.RegisterAgents(ctx, mgr, conn, vfake.Log()); err != nil {
		t.Fatal(err)
	}
	ags := map[string]agents.Agent{}
	if !verifkit.Eventually(60*time.Second, func() bool {
		for _, a := range []string{"doer", "patient"} {
			ag, ok := mgr.Get(a)
			if !ok {
				return false
			}
			ags[a] = ag
		}
		return true
	}) {
		rec.Violation("registered", "a valid external agent was not registered")
		return
	}

	r := verifkit.Rand("c27-actions")
	work := make(chan *call)
	wg := sync.WaitGroup{}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range work {
				d := filepath.Join(runs, c.id)
				os.Mkdir(d, 0700)
				os.WriteFile(filepath.Join(d, "behave"), []byte(c.behave), 0600)
				os.WriteFile(filepath.Join(d, "reply"), []byte(c.reply), 0600)
				rec.NoPanic("action", verifkit.J(c.data), func() { perform(rec, n, ags[c.agent], c, d, root, facts) })
				os.RemoveAll(d)
			}
		}()
	}
	for i := 0; i < verifkit.N(600, 6000); i++ {
		work <- genCall(r, fmt.Sprintf("%032x", i))
	}
	close(work)
	wg.Wait()
	cancel()
	leftovers(rec, tmp)

	// without its program
	os.Remove(filepath.Join(agentDir, "doer"))
	c := &call{id: fmt.Sprintf("%032x", 1<<40), agent: "doer", action: "do", data: `{"text":"x"}`, accept: true, ends: "absent"}
	perform(rec, n, ags[c.agent], c, filepath.Join(runs, c.id), root, facts)
}

func perform(rec *verifkit.Rec, n *vfake.NetFW, ag agents.Agent, c *call, d string, root string, facts string) {
	payload := []byte(fmt.Sprintf(`{"agent":%q,"action":%q,"data":%s}`, c.agent, c.action, c.data))
	req, err := v2.NewRequest(c.agent, "sender.example", "choria=caller", 60, c.id, "mcollective")
	if err != nil {
		panic(err)
	}
	req.SetMessage(payload)
	msg, err := n.NewMessage(payload, c.agent, "mcollective", inter.RequestMessageType, nil)
	if err != nil {
		panic(err)
	}
	out := make(chan *agents.AgentReply, 10)
	start := time.Now()
	ag.HandleMessage(context.Background(), msg, req, nil, out)
	took := time.Since(start)
	close(out)
	var bodies []string
	for r := range out {
		bodies = append(bodies, string(r.Body))
	}
	about := fmt.Sprintf("action %q data %s, which should be accepted: %v, with a program that %q by %q writing %.300s", c.action, c.data, c.accept, c.ends, c.behave, c.reply)
	if len(bodies) != 1 {
		rec.Violation("replies", "%d replies: %s", len(bodies), about)
		return
	}
	v, err := number([]byte(bodies[0]))
	rep, _ := v.(map[string]any)
	if err != nil || rep == nil {
		rec.Violation("reply", "reply %q: %s", bodies[0], about)
		return
	}
	status, _ := rep["statuscode"].(json.Number).Float64()
	count, _ := os.ReadFile(filepath.Join(d, "runs"))
	ran := strings.Count(string(count), "x")
	rec.Case(true, c.action+c.data+c.behave+c.reply)

	if !c.accept {
		rec.Count("refused", 1)
		if ran != 0 {
			rec.Violation("ran", "the program ran: %s", about)
		}
		if status == 0 {
			rec.Violation("status", "the status is OK: %s", about)
		}
		return
	}
	rec.Count(c.ends, 1)
	if c.ends == "absent" {
		if status != 1 {
			rec.Violation("status", "status %v: %s", status, about)
		}
		return
	}
	if ran != 1 {
		if c.ends == "slow" {
			rec.Inconclusive("a program did not get to run in time")
			return
		}
		rec.Violation("ran", "the program ran %d times: %s: %.300s", ran, about, bodies[0])
		return
	}
	if c.ends != "reply" {
		if status != 1 || rep["statusmsg"] == "OK" || rep["statusmsg"] == "" {
			rec.Violation("failure", "a failed program made status %v %q: %s", status, rep["statusmsg"], about)
		}
		if c.ends == "slow" && took > 60*time.Second {
			rec.Violation("timeout", "a program with a timeout of a second went on for %v: %s", took, about)
		}
	} else {
		want, _ := number([]byte(c.out))
		if status != c.status || rep["statusmsg"] != c.msg || !reflect.DeepEqual(rep["data"], want) {
			rec.Violation("faithful", "the caller was told %.600s instead of %v %q %.300s: %s", bodies[0], c.status, c.msg, c.out, about)
		}
		if rep["action"] != c.action {
			rec.Violation("faithful", "the reply is for action %v: %s", rep["action"], about)
		}
	}
	// what it was given
	b, _ := os.ReadFile(filepath.Join(d, "request"))
	got, err := number(b)
	data, _ := number([]byte(c.data))
	want := map[string]any{
		"$schema": "https://choria.io/schemas/mcorpc/external/v1/rpc_request.json", "protocol": "io.choria.mcorpc.external.v1.rpc_request", "agent": c.agent, "action": c.action,
		"requestid": c.id, "senderid": "sender.example", "callerid": "choria=caller", "collective": "mcollective", "ttl": json.Number("60"), "msgtime": json.Number(fmt.Sprint(req.Time().Unix())), "data": data,
	}
	if err != nil || !reflect.DeepEqual(got, want) {
		rec.Violation("request", "the program was given %s instead of %v: %s", b, want, about)
	}
	if b, _ := os.ReadFile(filepath.Join(d, "facts")); string(b) != facts {
		rec.Violation("facts", "the program was given facts %q: %s", b, about)
	}
	env := map[string]string{}
	b, _ = os.ReadFile(filepath.Join(d, "env"))
	for _, l := range strings.Split(string(b), "\n") {
		k, v, _ := strings.Cut(l, "=")
		env[k] = v
	}
	args := []string{}
	b, _ = os.ReadFile(filepath.Join(d, "args"))
	args = strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
	if env["CHORIA_EXTERNAL_PROTOCOL"] != "io.choria.mcorpc.external.v1.rpc_request" || env["CHORIA_EXTERNAL_CONFIG"] != filepath.Join(root, "etc", "plugin.d", c.agent) || len(args) != 3 || args[0] != env["CHORIA_EXTERNAL_REQUEST"] || args[1] != env["CHORIA_EXTERNAL_REPLY"] || args[2] != env["CHORIA_EXTERNAL_PROTOCOL"] {
		rec.Violation("environment", "the program was given environment %q arguments %q: %s", env, args, about)
	}
}
