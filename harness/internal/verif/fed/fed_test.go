package fed

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/broker/federation"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/client/client"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/golang/discovery"
	"github.com/choria-io/go-choria/server"
	natssrv "github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
)

type header struct {
	reply, sender, trace, fed, fedReq, fedReply, fedTargets string
}

var headers = map[string]header{
	"io.choria.protocol.v2.transport": {"reply", "sender", "trace", "federation", "request", "reply", "targets"},
	"choria:transport:1":              {"reply-to", "mc_sender", "seen-by", "federation", "req", "reply-to", "target"},
}

var protocols = []string{"choria:transport:1", "io.choria.protocol.v2.transport"}

// transport is one message on the wire, encoded without the help of the code under test
type transport struct {
	Protocol   string
	Data       []byte
	Reply      string
	Sender     string
	Trace      [][3]string
	Federated  bool
	FedReq     string
	FedReply   string
	FedTargets []string
}

func (t *transport) encode() []byte {
	h := headers[t.Protocol]
	m := map[string]any{h.reply: t.Reply, h.sender: t.Sender}
	if len(t.Trace) > 0 {
		m[h.trace] = t.Trace
	}
	if t.Federated {
		f := map[string]any{h.fedReq: t.FedReq}
		if t.FedReply != "" {
			f[h.fedReply] = t.FedReply
		}
		if t.FedTargets != nil {
			f[h.fedTargets] = t.FedTargets
		}
		m[h.fed] = f
	}
	j, _ := json.Marshal(map[string]any{"protocol": t.Protocol, "data": t.Data, "headers": m})
	return j
}

func decode(b []byte) (*transport, error) {
	var raw struct {
		Protocol string
		Data     []byte
		Headers  map[string]json.RawMessage
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		return nil, err
	}
	h, ok := headers[raw.Protocol]
	if !ok {
		return nil, fmt.Errorf("unknown protocol %q", raw.Protocol)
	}
	t := &transport{Protocol: raw.Protocol, Data: raw.Data}
	get := func(m map[string]json.RawMessage, k string, v any) {
		if x, ok := m[k]; ok {
			json.Unmarshal(x, v)
		}
	}
	get(raw.Headers, h.reply, &t.Reply)
	get(raw.Headers, h.sender, &t.Sender)
	get(raw.Headers, h.trace, &t.Trace)
	if f, ok := raw.Headers[h.fed]; ok && string(f) != "null" {
		t.Federated = true
		var m map[string]json.RawMessage
		json.Unmarshal(f, &m)
		get(m, h.fedReq, &t.FedReq)
		get(m, h.fedReply, &t.FedReply)
		get(m, h.fedTargets, &t.FedTargets)
	}
	return t, nil
}

type arrival struct {
	subject string
	msg     *transport
	raw     string
}

// tap records everything that is not on its way into a federation broker
type tap struct {
	mu   sync.Mutex
	got  []arrival
	nc   *nats.Conn
	seen map[string]int
}

func newTap(v *verifkit.Rec, n *vfake.NATS, react func(arrival)) *tap {
	nc, err := n.Connect()
	if err != nil {
		v.Inconclusive("connect: %v", err)
		return nil
	}
	t := &tap{nc: nc, seen: map[string]int{}}
	_, err = nc.Subscribe(">", func(m *nats.Msg) {
		if strings.HasPrefix(m.Subject, "choria.federation.") {
			return
		}
		a := arrival{subject: m.Subject, raw: string(m.Data)}
		a.msg, err = decode(m.Data)
		if err != nil {
			v.Violation("encoding", "%s carried %.200q: %v", m.Subject, m.Data, err)
			return
		}
		t.mu.Lock()
		t.got = append(t.got, a)
		t.seen[m.Subject]++
		t.mu.Unlock()
		if react != nil {
			react(a)
		}
	})
	if err != nil {
		v.Inconclusive("subscribe: %v", err)
		return nil
	}
	nc.Flush()
	return t
}

func (t *tap) count() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.got)
}

func (t *tap) on(subject string) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.seen[subject]
}

func brokerFW(identity string, f, c *vfake.NATS) *choria.Framework {
	return vfake.FW(func(cfg *config.Config) {
		vfake.Certs(identity)(cfg)
		cfg.DisableTLS = true
		cfg.Choria.FederationMiddlewareHosts = []string{f.HostPort}
		cfg.Choria.MiddlewareHosts = []string{c.HostPort}
	})
}

func startBroker(v *verifkit.Rec, ctx context.Context, wg *sync.WaitGroup, name, identity string, f, c *vfake.NATS) bool {
	fb, err := federation.NewFederationBroker(name, brokerFW(identity, f, c))
	if err != nil {
		v.Violation("start", "%v", err)
		return false
	}
	wg.Add(1)
	go fb.Start(ctx, wg)
	return true
}

// subscribed waits until a broker has n listeners
func subscribed(v *verifkit.Rec, n *vfake.NATS, subject string, want int) bool {
	ok := verifkit.Eventually(60*time.Second, func() bool {
		sz, err := n.Srv.Subsz(&natssrv.SubszOptions{Subscriptions: true, Limit: 10000})
		if err != nil {
			return false
		}
		got := 0
		for _, s := range sz.Subs {
			if s.Subject == subject {
				got++
			}
		}
		return got >= want
	})
	if !ok {
		v.Inconclusive("no %d listeners for %s", want, subject)
	}
	return ok
}

var broken = func(r *rand.Rand, p string) []byte {
	h := headers[p]
	t := transport{Protocol: p, Data: []byte("x"), Reply: "bad.reply", Sender: "s", Federated: true, FedReq: "bad", FedTargets: []string{"bad.target"}}
	switch r.Intn(14) {
	case 0:
		return []byte{}
	case 1:
		return []byte("null")
	case 2:
		return []byte(`{"protocol":"` + p + `"}`)
	case 3:
		return []byte(`{"protocol":"` + p + `","headers":null}`)
	case 4:
		return []byte(`{"protocol":"` + p + `","data":"!!","headers":{"` + h.reply + `":"bad.reply","` + h.fed + `":{"` + h.fedReq + `":"r","` + h.fedTargets + `":["bad.t"]}}}`)
	case 5:
		return []byte(`{"protocol":"` + p + `","data":"eA==","headers":{"` + h.reply + `":"bad.reply","` + h.fed + `":null}}`)
	case 6:
		t.Federated = false
	case 7:
		t.FedTargets = nil
	case 8:
		t.FedTargets = []string{}
	case 9:
		t.Reply = ""
	case 10:
		return t.encode()[:10+r.Intn(20)]
	case 11:
		return []byte(`{"protocol":"` + p + `","data":"eA==","headers":{"` + h.reply + `":1,"` + h.fed + `":[]}}`)
	case 12:
		return []byte(`{"protocol":"choria:transport:9","headers":{}}`)
	case 13:
		t.FedTargets = []string{""}
		t.Data = nil
		t.FedReq = ""
		t.Reply = ""
	}
	return t.encode()
}

func brokenReply(r *rand.Rand, p string) []byte {
	t := transport{Protocol: p, Data: []byte("x"), Sender: "s", Federated: true, FedReq: "bad"}
	switch r.Intn(3) {
	case 0:
		return t.encode()
	case 1:
		t.Federated = false
		t.Reply = "bad.reply"
		return t.encode()
	}
	b := broken(r, p)
	if d, err := decode(b); err == nil && d.FedReply != "" {
		return []byte("{")
	}
	return b
}

// badTargets are no subjects
var badTargets = []string{"", "bad target", "bad\r\n.target"}

// hopOK is one passing through a broker
func hopOK(hop [3]string, in, out *vfake.NATS, identities []string, transformer string) error {
	if hop[0] != in.URL || hop[2] != out.URL {
		return fmt.Errorf("hop %q is not from %s to %s", hop, in.URL, out.URL)
	}
	known := false
	for _, id := range identities {
		known = known || strings.Contains(hop[1], id)
	}
	a, b, c := strings.Index(hop[1], "ingest"), strings.Index(hop[1], transformer), strings.Index(hop[1], "egest")
	if !known || a < 0 || b < a || c < b {
		return fmt.Errorf("hop %q does not name the broker and its parts in order", hop)
	}
	return nil
}

// TestC23Broker sends federated and hostile traffic through federation brokers
func TestC23Broker(t *testing.T) {
	v := verifkit.New(t, "C23", "every federated request arrives once at each target, every reply once at its requester, over the named federation only")
	for _, k := range []string{"requests delivered", "replies delivered", "malformed requests", "malformed replies", "several targets", "repeated request ids", "invalid targets among others", "targets that differ in case"} {
		v.Require(k, 100)
	}
	F, err := vfake.StartNATS("", nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer F.Stop()
	sides := map[string]*vfake.NATS{}
	ids := map[string][]string{"alpha": {"b1.example.net", "b2.example.net"}, "beta": {"b3.example.net"}, "al": {"b4.example.net"}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	wg := &sync.WaitGroup{}
	for _, name := range []string{"alpha", "beta", "al"} {
		c, err := vfake.StartNATS("", nil)
		if err != nil {
			v.Inconclusive("%v", err)
			return
		}
		defer c.Stop()
		sides[name] = c
		for _, id := range ids[name] {
			if !startBroker(v, ctx, wg, name, id, F, c) {
				return
			}
		}
	}
	for name, c := range sides {
		if !subscribed(v, F, "choria.federation."+name+".federation", 10*len(ids[name])) || !subscribed(v, c, "choria.federation."+name+".collective", 10*len(ids[name])) {
			return
		}
	}
	fnc, err := F.Connect()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer fnc.Close()

	type request struct {
		t       *transport
		name    string
		replies map[string]*transport // by target
	}
	var mu sync.Mutex
	requests := map[string]*request{} // by body
	rr := verifkit.Rand("replies")

	fed := newTap(v, F, nil)
	taps := map[string]*tap{}
	for name, c := range sides {
		cnc, err := c.Connect()
		if err != nil {
			v.Inconclusive("%v", err)
			return
		}
		defer cnc.Close()
		taps[name] = newTap(v, c, func(a arrival) {
			mu.Lock()
			defer mu.Unlock()
			req := requests[string(a.msg.Data)]
			if req == nil || a.msg.Reply == "" {
				return
			}
			// what a server would reply
			rep := &transport{Protocol: a.msg.Protocol, Data: []byte("reply from " + a.subject + " to " + string(a.msg.Data)), Sender: a.subject, Federated: a.msg.Federated, FedReq: a.msg.FedReq, FedReply: a.msg.FedReply}
			if rr.Intn(2) == 0 {
				rep.Trace = append([][3]string{}, a.msg.Trace...)
			}
			if req.replies[a.subject] != nil {
				return
			}
			req.replies[a.subject] = rep
			if rr.Intn(4) == 0 {
				cnc.Publish("choria.federation."+name+".collective", brokenReply(rr, verifkit.Pick(rr, protocols)))
				v.Count("malformed replies", 1)
			}
			cnc.Publish(a.msg.Reply, rep.encode())
			cnc.Flush()
		})
		if taps[name] == nil {
			return
		}
	}
	if fed == nil {
		return
	}

	r := verifkit.Rand("requests")
	names := []string{"alpha", "alpha", "beta", "al"}
	total := verifkit.N(1500, 20000)
	want := 0
	stalled := false
	for i := 0; i < total && !stalled; i++ {
		name := verifkit.Pick(r, names)
		p := verifkit.Pick(r, protocols)
		q := &transport{Protocol: p, Data: []byte(fmt.Sprintf("%d %x", i, r.Int63())), Reply: fmt.Sprintf("mcollective.reply.%x.%d", r.Int31(), i), Sender: fmt.Sprintf("client%d.example.net", r.Intn(5)), Federated: true, FedReq: fmt.Sprintf("%032x", r.Int63())}
		for j := 0; j < r.Intn(3); j++ {
			q.Trace = append(q.Trace, [3]string{"a", fmt.Sprint(j), "b"})
		}
		if r.Intn(20) == 0 {
			q.Data = append(q.Data, make([]byte, 100000)...)
		}
		if r.Intn(10) == 0 {
			q.Data = append(q.Data, 0xff, 0xfe, '<', '>', '&', 0)
		}
		n := 1
		if r.Intn(3) == 0 {
			n = 2 + r.Intn(6)
			v.Count("several targets", 1)
		}
		for j := 0; j < n; j++ {
			q.FedTargets = append(q.FedTargets, fmt.Sprintf("mcollective.node.n%d-%d.example.net", i, j))
		}
		if n > 1 && r.Intn(4) == 0 {
			q.FedTargets = append(q.FedTargets, strings.ToUpper(q.FedTargets[r.Intn(n)]))
			n++
			v.Count("targets that differ in case", 1)
		}
		if r.Intn(6) == 0 {
			// one of the targets can not be published to, the others can
			at := r.Intn(len(q.FedTargets) + 1)
			q.FedTargets = append(q.FedTargets[:at:at], append([]string{verifkit.Pick(r, badTargets)}, q.FedTargets[at:]...)...)
			v.Count("invalid targets among others", 1)
		}
		if r.Intn(4) == 0 {
			// ids are chosen by clients
			q.FedReq = fmt.Sprintf("%032d", r.Intn(3))
			v.Count("repeated request ids", 1)
		}
		mu.Lock()
		requests[string(q.Data)] = &request{t: q, name: name, replies: map[string]*transport{}}
		mu.Unlock()
		if r.Intn(3) == 0 {
			for k := r.Intn(3); k >= 0; k-- {
				fnc.Publish("choria.federation."+verifkit.Pick(r, names)+".federation", broken(r, p))
				v.Count("malformed requests", 1)
			}
		}
		fnc.Publish("choria.federation."+name+".federation", q.encode())
		fnc.Flush()
		want += n
		v.Case(true, fmt.Sprintf("request %s %s %d %d", name, p, n, len(q.Trace)))
		// brokers drop what overruns them, so they get no more than they can hold
		before := -1
		stalled = !verifkit.Eventually(60*time.Second, func() bool {
			c := fed.count()
			moved := c != before
			before = c
			_ = moved
			return want-c < 24
		})
	}
	done := !stalled && verifkit.Eventually(60*time.Second, func() bool { return fed.count() >= want })
	if done {
		time.Sleep(300 * time.Millisecond) // anything that is delivered too often
	}
	cancel()

	mu.Lock()
	defer mu.Unlock()
	// requests on their collectives
	missing := 0
	for name, tp := range taps {
		tp.mu.Lock()
		for _, a := range tp.got {
			req := requests[string(a.msg.Data)]
			if req == nil {
				v.Violation("unknown", "%s of %s got %.200s", a.subject, name, a.raw)
				continue
			}
			q := req.t
			v.Check(req.name == name, "other federation", "request for %s was sent to %s", req.name, name)
			at := false
			for _, tg := range q.FedTargets {
				at = at || tg == a.subject
			}
			v.Check(at, "target", "request for %v arrived at %s", q.FedTargets, a.subject)
			m := a.msg
			v.Check(m.Protocol == q.Protocol && m.Sender == q.Sender, "request", "%+v became %+v", q, m)
			v.Check(m.Reply == "choria.federation."+name+".collective", "reply path", "replies would go to %s", m.Reply)
			v.Check(m.Federated && m.FedReq == q.FedReq && m.FedReply == q.Reply && len(m.FedTargets) == 0, "federation headers", "%+v became %+v", q, m)
			if v.Check(len(m.Trace) == len(q.Trace)+1 && (len(q.Trace) == 0 || reflect.DeepEqual(m.Trace[:len(q.Trace)], q.Trace)), "hops", "hops %v became %v", q.Trace, m.Trace) {
				if err := hopOK(m.Trace[len(m.Trace)-1], F, sides[name], ids[name], "request_transformer"); err != nil {
					v.Violation("hops", "%v", err)
				}
			}
			v.Count("requests delivered", 1)
		}
		for s, c := range tp.seen {
			v.Check(c == 1, "exactly once", "%s got its request %d times", s, c)
		}
		tp.mu.Unlock()
	}
	// replies to their requesters
	got := map[string]*arrival{}
	fed.mu.Lock()
	for _, a := range fed.got {
		if !v.Check(got[string(a.msg.Data)] == nil, "exactly once", "reply %.100q arrived more than once", a.msg.Data) {
			continue
		}
		got[string(a.msg.Data)] = &a
	}
	fed.mu.Unlock()
	expected := map[string]bool{}
	for _, req := range requests {
		for _, tg := range req.t.FedTargets {
			if slices.Contains(badTargets, tg) {
				continue
			}
			rep := req.replies[tg]
			if rep == nil {
				missing++
				v.Violation("lost request", "the request to %s via %s never arrived (stalled %v)", tg, req.name, stalled || !done)
				continue
			}
			expected[string(rep.Data)] = true
			a := got[string(rep.Data)]
			if a == nil {
				v.Violation("lost reply", "the reply of %s via %s never arrived (stalled %v)", tg, req.name, stalled || !done)
				continue
			}
			m := a.msg
			v.Check(a.subject == req.t.Reply, "requester", "reply for %s arrived at %s", req.t.Reply, a.subject)
			v.Check(m.Protocol == rep.Protocol && m.Sender == rep.Sender, "reply", "%+v became %+v", rep, m)
			v.Check(!m.Federated, "federation headers", "the reply still is federated: %+v", m)
			if v.Check(len(m.Trace) == len(rep.Trace)+1 && (len(rep.Trace) == 0 || reflect.DeepEqual(m.Trace[:len(rep.Trace)], rep.Trace)), "hops", "hops %v became %v", rep.Trace, m.Trace) {
				if err := hopOK(m.Trace[len(m.Trace)-1], sides[req.name], F, ids[req.name], "reply_transformer"); err != nil {
					v.Violation("hops", "%v", err)
				}
			}
			v.Count("replies delivered", 1)
		}
	}
	for b, a := range got {
		v.Check(expected[b], "unknown", "%s got %.200s", a.subject, a.raw)
	}
	wgDone := make(chan struct{})
	go func() { wg.Wait(); close(wgDone) }()
	select {
	case <-wgDone:
	case <-time.After(60 * time.Second):
		v.Violation("stop", "brokers did not stop")
	}
}

// TestC23EndToEnd has a real client reach real servers in several collectives
func TestC23EndToEnd(t *testing.T) {
	v := verifkit.New(t, "C23", "a federated client reaches the nodes it addresses in every collective and gets one reply of each")
	v.Require("broadcasts", 3)
	v.Require("directed", 3)
	v.Require("replies", 50)
	F, err := vfake.StartNATS("", nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer F.Stop()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	wg := &sync.WaitGroup{}
	swg := &sync.WaitGroup{}
	var nodes []string
	protocol.Secure = "true"
	for i, name := range []string{"east", "west"} {
		c, err := vfake.StartNATS("", nil)
		if err != nil {
			v.Inconclusive("%v", err)
			return
		}
		defer c.Stop()
		for b := 0; b < 1+i; b++ {
			if !startBroker(v, ctx, wg, name, fmt.Sprintf("fb%d.%s.example.net", b, name), F, c) {
				return
			}
		}
		if !subscribed(v, F, "choria.federation."+name+".federation", 10*(i+1)) || !subscribed(v, c, "choria.federation."+name+".collective", 10*(i+1)) {
			return
		}
		for s := 0; s < 4; s++ {
			id := fmt.Sprintf("n%d.%s.example.net", s, name)
			nodes = append(nodes, id)
			fw := vfake.FW(func(cfg *config.Config) {
				vfake.Certs(id)(cfg)
				cfg.DisableTLS = true
				cfg.InitiatedByServer = true
				cfg.RPCAuthorization = false
				cfg.Choria.MiddlewareHosts = []string{c.HostPort}
			})
			inst, err := server.NewInstance(fw)
			if err != nil {
				v.Violation("server", "%v", err)
				return
			}
			swg.Add(1)
			if err = inst.Run(ctx, swg); err != nil {
				v.Violation("server", "%v", err)
				return
			}
			ag, err := discovery.New(inst.AgentManager())
			if err == nil {
				err = inst.AgentManager().RegisterAgent(ctx, "discovery", ag, inst.Connector())
			}
			if err != nil {
				v.Violation("agent", "%v", err)
				return
			}
			if !subscribed(v, c, "mcollective.node."+id, 1) || !subscribed(v, c, "mcollective.broadcast.agent.discovery", s+1) {
				return
			}
		}
	}
	r := verifkit.Rand("e2e")
	for i := 0; i < verifkit.N(24, 200); i++ {
		requester := fmt.Sprintf("client%d.mcollective", r.Intn(2))
		fw := vfake.FW(func(cfg *config.Config) {
			vfake.Certs(requester)(cfg)
			cfg.DisableTLS = true
			cfg.Choria.FederationMiddlewareHosts = []string{F.HostPort}
			cfg.Choria.FederationCollectives = []string{"east", "west"}
		})
		target := nodes
		kind := inter.RequestMessageType
		if r.Intn(3) > 0 {
			kind = inter.DirectRequestMessageType
			target = nil
			for _, n := range nodes {
				if r.Intn(2) == 0 {
					target = append(target, n)
				}
			}
			if len(target) == 0 {
				continue
			}
		}
		hosts := append([]string{}, target...)
		if kind == inter.DirectRequestMessageType && r.Intn(2) == 0 {
			// more than fit one federated message
			for j := 0; j < 199+r.Intn(300); j++ {
				hosts = append(hosts, fmt.Sprintf("absent%d.example.net", j))
			}
			r.Shuffle(len(hosts), func(a, b int) { hosts[a], hosts[b] = hosts[b], hosts[a] })
		}
		msg, err := fw.NewMessage([]byte("cGluZw=="), "discovery", "mcollective", inter.RequestMessageType, nil)
		if err != nil {
			v.Violation("message", "%v", err)
			return
		}
		msg.SetProtocolVersion(protocol.RequestV1)
		msg.SetReplyTo(choria.ReplyTarget(msg, msg.RequestID()))
		if kind == inter.DirectRequestMessageType {
			msg.SetDiscoveredHosts(hosts)
			msg.SetType(kind)
			v.Count("directed", 1)
		} else {
			v.Count("broadcasts", 1)
		}
		v.Case(true, fmt.Sprintf("e2e %s %v %d", kind, target, len(hosts)))
		var mu sync.Mutex
		got := map[string]int{}
		bad := ""
		cctx, ccancel := context.WithCancel(ctx)
		cl, err := client.New(fw, client.Timeout(3*time.Minute), client.Receivers(1+r.Intn(3)))
		if err != nil {
			v.Violation("client", "%v", err)
			ccancel()
			return
		}
		enough := make(chan struct{}, 100)
		finished := make(chan error, 1)
		go func() {
			finished <- cl.Request(cctx, msg, func(_ context.Context, cm inter.ConnectorMessage) {
				rep, err := fw.NewReplyFromTransportJSON(cm.Data(), false)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					bad = err.Error()
					return
				}
				if rep.RequestID() != msg.RequestID() {
					bad = "reply to " + rep.RequestID()
				}
				got[rep.SenderID()]++
				if len(got) == len(target) {
					enough <- struct{}{}
				}
			})
		}()
		select {
		case <-enough:
			time.Sleep(30 * time.Millisecond)
		case <-time.After(60 * time.Second):
		}
		ccancel()
		if err := <-finished; err != nil && cctx.Err() == nil {
			v.Violation("request", "%v", err)
		}
		mu.Lock()
		var seen []string
		for n, c := range got {
			seen = append(seen, n)
			v.Check(c == 1, "e2e exactly once", "%d replies of %s", c, n)
			v.Count("replies", c)
		}
		sort.Strings(seen)
		want := append([]string{}, target...)
		sort.Strings(want)
		v.Check(bad == "", "e2e reply", "%s", bad)
		ok := v.Check(reflect.DeepEqual(seen, want), "e2e nodes", "%s request to %v was answered by %v", kind, want, seen)
		mu.Unlock()
		if !ok {
			break
		}
	}
	cancel()
	wg.Wait()
}

// TestC23PublishErrors checks failures to publish are not hidden by later successes
func TestC23PublishErrors(t *testing.T) {
	v := verifkit.New(t, "C23", "clients learn when part of a federated request could not be published")
	F, err := vfake.StartNATS("", func(o *natssrv.Options) { o.MaxPayload = 16 * 1024 })
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer F.Stop()
	fw := vfake.FW(func(cfg *config.Config) {
		vfake.Certs("client0.mcollective")(cfg)
		cfg.DisableTLS = true
		cfg.Choria.FederationMiddlewareHosts = []string{F.HostPort}
		cfg.Choria.FederationCollectives = []string{"east", "west"}
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	conn, err := fw.NewConnector(ctx, fw.MiddlewareServers, "t", fw.Logger("t"))
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer conn.Close()
	r := verifkit.Rand("errors")
	for i := 0; i < 30; i++ {
		var hosts []string
		large := r.Intn(4) // group that will not fit
		for g := 0; g < 3; g++ {
			for j := 0; j < 200; j++ {
				name := fmt.Sprintf("n%d", j)
				if g == large {
					name += strings.Repeat("x", 100)
				}
				hosts = append(hosts, name)
			}
		}
		if large != 2 && r.Intn(2) == 0 {
			hosts = hosts[:len(hosts)-r.Intn(150)]
		}
		msg, err := fw.NewMessage([]byte("cGluZw=="), "discovery", "mcollective", inter.RequestMessageType, nil)
		if err != nil {
			v.Violation("message", "%v", err)
			return
		}
		msg.SetProtocolVersion(protocol.RequestV1)
		msg.SetReplyTo(choria.ReplyTarget(msg, msg.RequestID()))
		msg.SetDiscoveredHosts(hosts)
		msg.SetType(inter.DirectRequestMessageType)
		err = conn.Publish(msg)
		v.Case(true, fmt.Sprintf("publish %d %d", large, len(hosts)))
		v.Check((err != nil) == (large < 3), "publish error", "publishing with group %d of 3 too large gave: %v", large, err)
	}
}
