package watch

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/gossipwatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/nats-io/jsm.go"
	"github.com/nats-io/nats.go"
)

// TestC31Gossip moves machines in and out of the states they gossip in
func TestC31Gossip(t *testing.T) {
	rec := verifkit.New(t, "C31", "a machine gossips its payload once per interval in exactly the states of the watcher, whatever route it took there, with the facts and data of the moment")
	rec.Require("gossiping", 30)
	rec.Require("silent", 20)
	rec.Require("payload follows the facts", 20)
	srv, err := vfake.StartNATS(t.TempDir(), nil)
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	defer srv.Stop()

	var wg sync.WaitGroup
	for i := 0; i < verifkit.N(24, 160); i++ {
		if i%40 == 39 {
			wg.Wait()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			gossipRun(t, rec, srv, i)
		}()
	}
	wg.Wait()
}

func gossipRun(t *testing.T, rec *verifkit.Rec, srv *vfake.NATS, i int) {
	r := verifkit.Rand(fmt.Sprintf("c31-gossip-%d", i))
	nc, err := srv.Connect()
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	defer nc.Close()
	hear, err := srv.Connect()
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	defer hear.Close()
	mgr, err := jsm.New(nc)
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	m := newFM(t.TempDir())
	m.js = mgr
	m.facts = `{"where":"lon","v":0}`
	const interval = 200 * time.Millisecond
	props := map[string]any{"subject": fmt.Sprintf("gossip.%d.lon", i), "payload": `v{{ lookup "facts.v" 0 }}-{{ lookup "data.d" "" }}`}
	subject := fmt.Sprintf("gossip.%d.lon", i)
	reg := r.Intn(3) == 0
	payload := func(v int) string { return fmt.Sprintf("v%d-d%d", v, v) }
	if reg {
		props = map[string]any{"registration": map[string]any{"cluster": "lon", "service": fmt.Sprintf("svc%d", i), "protocol": "http", "ip": "10.0.0.1", "port": 8080, "priority": 2, "prefix": "svcs"}}
		subject = fmt.Sprintf("svcs.lon.http.svc%d.instance", i)
		payload = func(int) string {
			return fmt.Sprintf(`{"cluster":"lon","service":"svc%d","protocol":"http","address":"10.0.0.1","port":8080,"priority":2}`, i)
		}
	}
	m.data["d"] = "d0"

	var mu sync.Mutex
	var got []string
	var stray []string
	hear.Subscribe(">", func(msg *nats.Msg) {
		mu.Lock()
		defer mu.Unlock()
		switch {
		case msg.Subject == subject:
			got = append(got, string(msg.Data))
		case strings.HasPrefix(msg.Subject, fmt.Sprintf("gossip.%d.", i)):
			stray = append(stray, msg.Subject)
		}
	})
	hear.Flush()
	heard := func() []string {
		nc.Flush()
		hear.Flush()
		mu.Lock()
		defer mu.Unlock()
		return append([]string{}, got...)
	}

	m.state = verifkit.Pick(r, []string{"a", "z"})
	wi, err := gossipwatcher.New(m, "gossip", []string{"a", "b"}, nil, "f", "s", "200ms", time.Hour, props)
	if err != nil {
		rec.Violation("gossip-refused", "valid properties %s are refused: %v", verifkit.J(props), err)
		return
	}
	s := start(wi)
	defer func() {
		s.cancel()
		s.wg.Wait()
	}()

	state := m.state
	hist := state
	for step := 0; step < verifkit.N(5, 10); step++ {
		// quick and slow routes from state to state
		for j := 1 + r.Intn(4); j > 0; j-- {
			state = verifkit.Pick(r, []string{"a", "b", "z", "y"})
			hist += " " + state
			m.move(s.w, state)
			switch r.Intn(3) {
			case 0:
				time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
			case 1:
				time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
				hist += "."
			}
		}
		// notices of state changes might be merged but the last one always arrives
		s.w.NotifyStateChance()
		m.mu.Lock()
		m.facts = fmt.Sprintf(`{"where":"lon","v":%d}`, step)
		m.data["d"] = fmt.Sprintf("d%d", step)
		m.mu.Unlock()
		if state == "a" || state == "b" {
			n := len(heard())
			if !verifkit.Eventually(20*time.Second, func() bool { return len(heard()) >= n+3 }) {
				rec.Violation("gossip-silent", "only %d messages arrived in 20 seconds at an interval of 200ms after states %s", len(heard())-n, hist)
				return
			}
			rec.Count("gossiping", 1)
			l := heard()
			if p := l[len(l)-1]; p != payload(step) {
				rec.Violation("gossip-payload", "gossiped %q instead of %q", p, payload(step))
			}
			rec.Count("payload follows the facts", 1)
			if r.Intn(2) == 0 {
				n, t0 := len(heard()), time.Now()
				time.Sleep(1500 * time.Millisecond)
				l := heard()
				if max := int(time.Since(t0)/interval) + 3; len(l)-n > max {
					rec.Violation("gossip-often", "%d messages arrived in %v at an interval of 200ms after states %s", len(l)-n, time.Since(t0), hist)
					return
				}
			}
		} else {
			time.Sleep(30 * time.Millisecond)
			n := len(heard())
			time.Sleep(700 * time.Millisecond)
			if l := heard(); len(l) > n+1 {
				rec.Violation("gossip-other-state", "%d messages arrived in state %s after states %s", len(l)-n, state, hist)
				return
			}
			rec.Count("silent", 1)
		}
		rec.Case(true, fmt.Sprintf("gossip-%d-%d", i, step))
	}
	mu.Lock()
	if len(stray) > 0 {
		rec.Violation("gossip-subject", "gossiped to %v instead of %s", stray, subject)
	}
	mu.Unlock()

	// a watcher that was removed or whose machine stopped is silent
	if r.Intn(2) == 0 {
		s.w.Delete()
	} else {
		s.cancel()
	}
	s.wg.Wait()
	time.Sleep(30 * time.Millisecond)
	n := len(heard())
	time.Sleep(700 * time.Millisecond)
	if l := heard(); len(l) > n+1 {
		rec.Violation("gossip-after-stop", "%d messages arrived after the watcher was stopped", len(l)-n)
	}
}
