package adapters

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/choria-io/go-choria/broker/adapter"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	v1 "github.com/choria-io/go-choria/protocol/v1"
	v2 "github.com/choria-io/go-choria/protocol/v2"
	"github.com/choria-io/tokens"
	natssrv "github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
	"github.com/prometheus/client_golang/prometheus"
)

func TestMain(m *testing.M) {
	os.Setenv("USER", "verif")
	os.Exit(m.Run())
}

func secure(cfg *config.Config, version int, name string) {
	if version == 1 {
		vfake.Certs(name)(cfg)
		return
	}
	issuer, key := vfake.NewEdKey("issuer"), vfake.NewEdKey("end-"+name)
	c, err := tokens.NewClientIDClaims("choria=verif", nil, "choria", nil, "", "", time.Hour, &tokens.ClientPermissions{FleetManagement: true}, key.Pub)
	if err != nil {
		panic(err)
	}
	t, err := tokens.SignToken(c, issuer.Pri)
	if err != nil {
		panic(err)
	}
	cfg.Identity = name
	cfg.Choria.SecurityProvider = "choria"
	cfg.Choria.ChoriaSecuritySeedFile = key.File
	cfg.Choria.ChoriaSecurityTokenFile = vfake.TempFile([]byte(t))
	cfg.Choria.ChoriaSecurityTrustedSigners = []string{issuer.Hex()}
	cfg.Choria.ChoriaSecuritySignReplies = true
}

func node(version int, name string) *choria.Framework {
	return vfake.FW(func(cfg *config.Config) { secure(cfg, version, name) })
}

type sent struct {
	adapter string
	body    []byte
	sender  string
	id      string
	at      time.Time
	good    bool
}

// encode makes a message as nodes would publish them
func encode(fws map[int]*choria.Framework, version int, reply bool, s *sent) ([]byte, error) {
	fw := fws[version]
	agent, caller := "registration", "choria=verif"
	var req protocol.Request
	var err error
	var t protocol.TransportMessage
	if version == 1 {
		req, err = v1.NewRequest(agent, s.sender, caller, 60, s.id, "mcollective")
	} else {
		req, err = v2.NewRequest(agent, s.sender, caller, 60, s.id, "mcollective")
	}
	if err != nil {
		return nil, err
	}
	if version == 1 {
		t, err = v1.NewTransportMessage(s.sender)
	} else {
		t, err = v2.NewTransportMessage(s.sender)
	}
	if err != nil {
		return nil, err
	}
	req.SetMessage(s.body)
	if !reply {
		s.at = req.Time()
		sec, err := fw.NewSecureRequest(context.Background(), req)
		if err != nil {
			return nil, err
		}
		if err = t.SetRequestData(sec); err != nil {
			return nil, err
		}
		return t.JSON()
	}
	var rep protocol.Reply
	if version == 1 {
		rep, err = v1.NewReply(req, s.sender)
	} else {
		rep, err = v2.NewReply(req, s.sender)
	}
	if err != nil {
		return nil, err
	}
	rep.SetMessage(s.body)
	s.at = rep.Time()
	sec, err := fw.NewSecureReply(rep)
	if err != nil {
		return nil, err
	}
	if err = t.SetReplyData(sec); err != nil {
		return nil, err
	}
	return t.JSON()
}

func body(r *rand.Rand, n int) []byte {
	tag := fmt.Sprintf("#%d#", n)
	switch r.Intn(6) {
	case 0:
		return []byte(fmt.Sprintf(`{"facts":{"a":%d,"s":"<b>&é\u2028"},"n":%q}`, r.Int63(), tag))
	case 1:
		return []byte(tag + "\r\n\t\x00\x01\x7f π≠ \u2028 <html>&\"\\")
	case 2:
		return []byte(tag + strings.Repeat("long text ", r.Intn(10000)))
	case 3:
		return []byte(tag + "aGVsbG8gd29ybGQ=")
	case 4:
		return []byte(tag)
	}
	b := make([]rune, r.Intn(200))
	for i := range b {
		b[i] = rune(r.Intn(0xD7FF))
	}
	return []byte(tag + string(b))
}

var tagRE = regexp.MustCompile(`#(\d+)#`)

// tag is what tells bodies apart
func tag(b []byte) string { return string(tagRE.Find(b)) }

func malformed(r *rand.Rand, wrong []byte) []byte {
	switch r.Intn(9) {
	case 0:
		return []byte{}
	case 1:
		return []byte("null")
	case 2:
		return []byte("[]")
	case 3:
		return wrong[:len(wrong)/2]
	case 4:
		return []byte(`{"protocol":"choria:transport:1"}`)
	case 5:
		return []byte(`{"protocol":"io.choria.protocol.v2.transport","data":"bnVsbA==","headers":{}}`)
	case 6:
		return []byte(`{"protocol":"choria:transport:1","data":"bnVsbA==","headers":null}`)
	case 7:
		return []byte(`{"protocol":"io.choria.protocol.v2.transport","data":"e30=","headers":{}}`)
	}
	return wrong // a message of the other type
}

func counter(name, role, adapter string) float64 {
	mfs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return -1
	}
	sum := 0.0
	for _, mf := range mfs {
		if mf.GetName() != name {
			continue
		}
		for _, m := range mf.GetMetric() {
			ok := 0
			for _, l := range m.GetLabel() {
				if l.GetName() == "role" && l.GetValue() == role || l.GetName() == "name" && strings.HasPrefix(l.GetValue(), adapter+".") {
					ok++
				}
			}
			if ok == 2 {
				sum += m.GetCounter().GetValue()
			}
		}
	}
	return sum
}

type adapterSpec struct {
	name, topic, dest string
	reply             bool
}

// TestC24Adapters sends good and hostile messages through adapters between two networks
func TestC24Adapters(t *testing.T) {
	v := verifkit.New(t, "C24", "every message is published once, unchanged and where its sender belongs, everything else is dropped and counted")
	for _, k := range []string{"requests", "replies", "malformed", "unusable senders", "similar names", "repeated ids", "version 1", "version 2"} {
		v.Require(k, 100)
	}
	for version := 1; version <= 2; version++ {
		run(v, version)
	}
}

// run uses brokers with the security of one of the protocols, messages of the other are useless to these
func run(v *verifkit.Rec, version int) {
	in, err := vfake.StartNATS("", nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer in.Stop()
	out, err := vfake.StartNATS("", nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer out.Stop()

	specs := []adapterSpec{
		{fmt.Sprintf("reg%d", version), "mcollective.reg.>", "out.reg.%s", true},
		{fmt.Sprintf("disc%d", version), "choria.disc", "out.disc.%s.x.%s", false},
		{fmt.Sprintf("flat%d", version), "choria.flat", "out.flat", true},
	}
	fw := vfake.FW(func(cfg *config.Config) {
		secure(cfg, version, "broker.example.net")
		cfg.DisableTLS = true
		cfg.Choria.MiddlewareHosts = []string{in.HostPort}
		for _, s := range specs {
			cfg.Choria.BrokerAdapters = append(cfg.Choria.BrokerAdapters, s.name)
			p := "plugin.choria.adapter." + s.name + "."
			cfg.SetOption(p+"type", "choria_streams")
			cfg.SetOption(p+"stream.servers", out.HostPort)
			cfg.SetOption(p+"stream.topic", s.dest)
			cfg.SetOption(p+"ingest.topic", s.topic)
			if !s.reply {
				cfg.SetOption(p+"ingest.protocol", "request")
			}
			if s.dest == "out.flat" {
				cfg.SetOption(p+"stream.workers", "1")
				cfg.SetOption(p+"ingest.workers", "1")
			}
		}
	})

	onc, err := out.Connect()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer onc.Close()
	type got struct {
		subject string
		data    []byte
	}
	var mu sync.Mutex
	var arrived []got
	onc.Subscribe(">", func(m *nats.Msg) {
		mu.Lock()
		arrived = append(arrived, got{m.Subject, m.Data})
		mu.Unlock()
	})
	onc.Flush()

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	wg := &sync.WaitGroup{}
	if err := adapter.RunAdapters(ctx, fw, wg); err != nil {
		v.Violation("start", "%v", err)
		return
	}
	ready := verifkit.Eventually(60*time.Second, func() bool {
		sz, err := in.Srv.Subsz(&natssrv.SubszOptions{Subscriptions: true, Limit: 1000})
		if err != nil {
			return false
		}
		n := 0
		for _, s := range sz.Subs {
			for _, sp := range specs {
				if s.Subject == sp.topic {
					n++
				}
			}
		}
		return n >= 21
	})
	if !ready {
		v.Inconclusive("adapters did not subscribe")
		return
	}

	inc, err := in.Connect()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer inc.Close()
	fws := map[int]*choria.Framework{1: node(1, "n1.example.net"), 2: node(2, "n1.example.net")}

	r := verifkit.Rand(fmt.Sprintf("adapters %d", version))
	expected := map[string]*sent{} // by what their bodies are tagged with
	counts := map[string]map[string]int{}
	for _, s := range specs {
		counts[s.name] = map[string]int{}
	}
	good, stalled := 0, false
	total := verifkit.N(1500, 20000)
	for i := 0; i < total && !stalled; i++ {
		sp := verifkit.Pick(r, specs)
		s := &sent{adapter: sp.name, id: fmt.Sprintf("%032x", i), body: body(r, i), sender: fmt.Sprintf("n%d.example.net", r.Intn(50)), good: true}
		switch r.Intn(4) {
		case 0:
			// names that start with those of others
			s.sender = verifkit.Pick(r, []string{"n1", "n1.example", "n1.example.net", "n1.example.net.n1", "N1.example.net", "n10"})
			v.Count("similar names", 1)
		case 1:
			// nodes choose the ids of their messages
			s.id = fmt.Sprintf("%032x", 1<<40+r.Intn(2))
			v.Count("repeated ids", 1)
		}
		kind := r.Intn(10)
		if kind == 0 && sp.dest != "out.flat" {
			s.sender = verifkit.Pick(r, []string{"a b", "a\r\nPUB out.reg.evil 1\r\nx", "x\ty", "\n"})
			s.good = false
		}
		subject := sp.topic
		if strings.HasSuffix(subject, ">") {
			subject = strings.TrimSuffix(subject, ">") + fmt.Sprintf("n%d.x", r.Intn(5))
		}
		reply := sp.reply
		if kind == 1 {
			reply = !reply // only good as something malformed
		}
		mv := version
		if kind == 1 && r.Intn(2) == 0 {
			mv = 3 - version
		}
		b, err := encode(fws, mv, reply, s)
		if err != nil {
			v.Violation("encode", "version %d: %v", version, err)
			return
		}
		v.Case(true, fmt.Sprintf("%s %d %d %v", sp.name, version, kind, s.good))
		switch {
		case kind == 1:
			b = malformed(r, b)
			counts[sp.name]["bad in"]++
			v.Count("malformed", 1)
		case !s.good:
			counts[sp.name]["in"]++
			counts[sp.name]["bad out"]++
			expected[tag(s.body)] = s
			v.Count("unusable senders", 1)
		default:
			counts[sp.name]["in"]++
			counts[sp.name]["out"]++
			expected[tag(s.body)] = s
			good++
			if reply {
				v.Count("replies", 1)
			} else {
				v.Count("requests", 1)
			}
			v.Count(fmt.Sprintf("version %d", version), 1)
		}
		if err := inc.Publish(subject, b); err != nil {
			v.Violation("publish", "%v", err)
			return
		}
		if i%50 == 0 {
			// adapters drop what overruns them
			inc.Flush()
			stalled = !verifkit.Eventually(60*time.Second, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return good-len(arrived) < 300
			})
		}
	}
	inc.Flush()
	all := func() bool {
		mu.Lock()
		n := len(arrived)
		mu.Unlock()
		if n < good {
			return false
		}
		for _, sp := range specs {
			if counter("choria_adapter_errors", "input", sp.name) < float64(counts[sp.name]["bad in"]) || counter("choria_adapter_errors", "output", sp.name) < float64(counts[sp.name]["bad out"]) || counter("choria_adapter_received_msgs", "output", sp.name) < float64(counts[sp.name]["out"]) {
				return false
			}
		}
		return true
	}
	done := !stalled && verifkit.Eventually(60*time.Second, all)
	if done {
		time.Sleep(200 * time.Millisecond)
	}
	onc.Flush()

	mu.Lock()
	defer mu.Unlock()
	seen := map[string]int{}
	for _, a := range arrived {
		var m struct {
			Protocol  string    `json:"protocol"`
			Data      string    `json:"data"`
			Sender    string    `json:"sender"`
			Time      time.Time `json:"time"`
			RequestID string    `json:"requestid"`
		}
		if err := json.Unmarshal(a.data, &m); err != nil {
			v.Violation("encoding", "%s: %.200q: %v", a.subject, a.data, err)
			continue
		}
		s := expected[tag([]byte(m.Data))]
		if !v.Check(s != nil, "unknown", "%s: %.300q was never sent", a.subject, a.data) {
			continue
		}
		v.Check(s.good, "unusable sender", "message from %q was published to %s", s.sender, a.subject)
		seen[tag(s.body)]++
		v.Check(m.RequestID == s.id, "request id", "%q became %q", s.id, m.RequestID)
		v.Check(m.Data == string(s.body) && utf8.ValidString(m.Data), "body", "%.200q became %.200q", s.body, m.Data)
		v.Check(m.Sender == s.sender, "sender", "%q became %q", s.sender, m.Sender)
		v.Check(m.Time.Equal(s.at), "time", "%v became %v", s.at, m.Time)
		dest := ""
		for _, sp := range specs {
			if sp.name == s.adapter {
				dest = strings.ReplaceAll(sp.dest, "%s", s.sender)
			}
		}
		v.Check(a.subject == dest, "destination", "message for %s was published to %s", dest, a.subject)
		v.Check(m.Protocol == "choria:adapters:choria_streams:output:1", "protocol", "%q", m.Protocol)
	}
	for id, s := range expected {
		if s.good {
			v.Check(seen[id] == 1, "exactly once", "message %s of %s was published %d times (stalled %v)", id, s.adapter, seen[id], !done)
		}
	}
	for _, sp := range specs {
		for _, c := range []struct {
			metric, role, what string
		}{{"choria_adapter_errors", "input", "bad in"}, {"choria_adapter_errors", "output", "bad out"}, {"choria_adapter_received_msgs", "input", "in"}, {"choria_adapter_received_msgs", "output", "out"}} {
			v.Check(counter(c.metric, c.role, sp.name) == float64(counts[sp.name][c.what]), "counted", "%s: %s of %s is %v rather than %d", sp.name, c.metric, c.role, counter(c.metric, c.role, sp.name), counts[sp.name][c.what])
		}
	}
	cancel()
	stopped := make(chan struct{})
	go func() { wg.Wait(); close(stopped) }()
	select {
	case <-stopped:
	case <-time.After(60 * time.Second):
		v.Violation("stop", "adapters did not stop")
	}
}
