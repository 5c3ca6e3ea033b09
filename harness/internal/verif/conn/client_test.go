package conn

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/client"
	addl "github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
	"github.com/nats-io/nats.go"
)

// TestC34Client performs requests over a real broker, replies are sent at once by nodes without the help of the code under test
func TestC34Client(t *testing.T) {
	v := verifkit.New(t, "C34", "requests over a real broker, batched or not, with any number of workers, receive the reply of each node exactly once and leave no connections")
	F, err := vfake.StartNATS("", nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer F.Stop()
	nc, err := F.Connect()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer nc.Close()
	d, err := addl.NewFromBytes([]byte(`{"$schema":"https://choria.io/schemas/mcorpc/ddl/v1/agent.json","metadata":{"license":"Apache-2.0","author":"m","timeout":10,"name":"monitor","version":"1.0.0","url":"https://x","description":"x"},"actions":[{"action":"act","input":{},"output":{},"display":"failed","description":"x"}]}`))
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	nodes := vfake.NewNetFW(nil) // encodes the replies
	var mu sync.Mutex
	asked := map[string]int{}
	silent := map[string]bool{}
	delays := verifkit.Rand("c34-delays")
	broken := ""
	var all []string
	prepared := map[string]*nats.Msg{}
	_, err = nc.Subscribe("mcollective.node.>", func(m *nats.Msg) {
		node := strings.TrimPrefix(m.Subject, "mcollective.node.")
		mu.Lock()
		if p, ok := prepared[node]; ok { // without any delay, as the next batch follows at once
			asked[node]++
			quiet := silent[node]
			mu.Unlock()
			if !quiet {
				nc.PublishMsg(p)
			}
			return
		}
		mu.Unlock()
		tr, err := nodes.NewTransportFromJSON(m.Data)
		if err == nil {
			var req protocol.Request
			req, err = nodes.NewRequestFromTransportJSON(m.Data, true)
			if err == nil {
				encode := func(node string) *nats.Msg {
					body, _ := json.Marshal(map[string]any{"statuscode": 0, "statusmsg": "OK", "data": map[string]any{"node": node}})
					return &nats.Msg{Subject: tr.ReplyTo(), Data: nodes.Net.Reply(&vfake.Published{Request: req}, node, body)}
				}
				mu.Lock()
				for _, n := range all {
					prepared[n] = encode(n)
				}
				asked[node]++
				quiet := silent[node]
				delay := time.Duration(delays.Intn(3)) * time.Millisecond
				mu.Unlock()
				if quiet {
					return
				}
				reply := encode(node)
				time.AfterFunc(delay, func() { nc.PublishMsg(reply) })
			}
		}
		if err != nil {
			mu.Lock()
			broken = err.Error()
			mu.Unlock()
		}
	})
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	nc.Flush()
	fw := framework("client0.mcollective", F.HostPort)
	for i := 0; i < verifkit.N(40, 600); i++ {
		r := verifkit.Rand(fmt.Sprintf("c34-client-%d", i))
		var targets []string
		count := 1 + r.Intn(40)
		for n := 0; n < count; n++ {
			targets = append(targets, fmt.Sprintf("n%d.example.net", n))
		}
		abandon := r.Intn(6) == 0
		mu.Lock()
		asked, silent, broken = map[string]int{}, map[string]bool{}, ""
		all, prepared = nil, map[string]*nats.Msg{}
		if r.Intn(3) > 0 {
			all = targets
		}
		if abandon {
			silent[targets[len(targets)-1]] = true
		}
		mu.Unlock()
		batch, workers := 0, 1+r.Intn(4)
		handled := map[string]int{}
		wrong := ""
		answered := make(chan struct{}, 100)
		opts := []client.RequestOption{client.Targets(append([]string{}, targets...)), client.Timeout(60 * time.Second), client.Collective("mcollective"), client.ReplyHandler(func(pr protocol.Reply, rr *client.RPCReply) {
			mu.Lock()
			handled[pr.SenderID()]++
			if rr == nil || rr.Sender != pr.SenderID() || string(rr.Data) != `{"node":"`+pr.SenderID()+`"}` {
				wrong = fmt.Sprintf("%s: %+v", pr.SenderID(), rr)
			}
			mu.Unlock()
			answered <- struct{}{}
		})}
		if workers > 1 || r.Intn(2) == 0 {
			opts = append(opts, client.Workers(workers))
		}
		if r.Intn(3) > 0 {
			batch = 1 + r.Intn(10)
			opts = append(opts, client.InBatches(batch, 0))
		}
		r.Shuffle(len(opts), func(a, b int) { opts[a], opts[b] = opts[b], opts[a] })
		in := fmt.Sprintf("%d targets, batches of %d, %d workers, abandoned %v", len(targets), batch, workers, abandon)
		cl, err := client.New(fw, "monitor", client.DDL(d))
		if err != nil {
			v.Violation("client", "%v", err)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		if abandon {
			go func() {
				for n := 0; n < len(targets)-1; n++ {
					select {
					case <-answered:
					case <-time.After(40 * time.Second):
						n = len(targets)
					}
				}
				verifkit.Eventually(40*time.Second, func() bool {
					mu.Lock()
					defer mu.Unlock()
					return len(asked) == len(targets)
				})
				cancel()
			}()
		}
		var res client.RequestResult
		done := v.Within(300*time.Second, "client-hang", func() {
			res, err = cl.Do(ctx, "act", map[string]any{}, opts...)
		})
		cancel()
		if !done {
			return
		}
		if err != nil && !abandon {
			v.Violation("client-error", "%s: %v", in, err)
			return
		}
		mu.Lock()
		v.Case(len(targets) > 1, in)
		ok := v.Check(broken == "" && wrong == "", "client-reply", "%s: request %q reply %q", in, broken, wrong)
		for _, n := range targets {
			want := 1
			if silent[n] {
				want = 0
			}
			ok = ok && v.Check(asked[n] == 1, "client-asked", "%s: %s was asked %d times", in, n, asked[n])
			ok = ok && v.Check(handled[n] == want, "client-handled", "%s: the reply of %s was handled %d times", in, n, handled[n])
		}
		ok = ok && v.Check(len(asked) == len(targets), "client-asked", "%s: %d nodes were asked", in, len(asked))
		if ok && res != nil {
			s := res.Stats()
			missing := append([]string{}, s.NoResponseFrom()...)
			sort.Strings(missing)
			ok = v.Check(s.ResponsesCount() == len(targets)-len(silent) && s.OKCount() == s.ResponsesCount() && s.FailCount() == 0 && len(missing) == len(silent) && len(s.UnexpectedResponseFrom()) == 0, "client-stats", "%s: %d responses, %d ok, %d failed, missing %v, unexpected %v", in, s.ResponsesCount(), s.OKCount(), s.FailCount(), missing, s.UnexpectedResponseFrom())
		}
		if batch > 0 {
			v.Count("batched", 1)
		}
		if abandon {
			v.Count("abandoned", 1)
		}
		v.Count("replies", len(handled))
		mu.Unlock()
		if !ok {
			return
		}
		if !v.Check(verifkit.Eventually(60*time.Second, func() bool { return F.Srv.NumClients() == 1 }), "client-connections", "%s: %d connections remain", in, F.Srv.NumClients()-1) {
			return
		}
	}
	v.Check(verifkit.Eventually(30*time.Second, func() bool { return copiers() == 0 }), "client-leak", "%d goroutines of closed connections remain", copiers())
	v.Require("batched", 3)
	v.Require("replies", 50)
}

