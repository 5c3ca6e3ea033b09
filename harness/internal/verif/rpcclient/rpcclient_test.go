// Package rpcclient monitors the RPC client and the low level client below it
package rpcclient

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/client"
	addl "github.com/choria-io/go-choria/providers/agent/mcorpc/ddl/agent"
)

func ddl(t *testing.T, service bool) *addl.DDL {
	d, err := addl.NewFromBytes([]byte(fmt.Sprintf(`{"$schema":"https://choria.io/schemas/mcorpc/ddl/v1/agent.json","metadata":{"license":"Apache-2.0","author":"m","timeout":10,"name":"monitor","version":"1.0.0","url":"https://x","description":"x","service":%t},"actions":[{"action":"act","input":{},"output":{},"display":"failed","description":"x"}]}`, service)))
	if err != nil {
		t.Fatal(err)
	}
	return d
}

// reply is one reply that will arrive
type reply struct {
	id     int
	sender string
	status int // -1 unusable body, -2 unusable bytes
	hidden bool
}

func (p reply) bytes(n *vfake.Net, pub *vfake.Published, r *rand.Rand) []byte {
	switch p.status {
	case -2:
		return []byte(verifkit.Pick(r, []string{"", "{}", "null", "\x00", `{"protocol":"choria:transport:1"}`, `{"protocol":"choria:transport:1","data":"e30=","headers":{}}`}))
	case -1:
		return n.Reply(pub, p.sender, []byte(verifkit.Pick(r, []string{"", "{", "[]", "not json", `{"statuscode":"x"}`})))
	}
	v := "show"
	if p.hidden {
		v = "hide"
	}
	b, _ := json.Marshal(map[string]any{"statuscode": p.status, "statusmsg": fmt.Sprintf("msg %d", p.id), "data": map[string]any{"id": p.id, "v": v}})
	return n.Reply(pub, p.sender, b)
}

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sorted(in []string) []string {
	out := append([]string{}, in...)
	sort.Strings(out)
	return out
}

type plan struct {
	targets  []string
	silent   map[string]bool
	extra    []reply            // junk, unexpected
	by       map[string][]reply // by target
	batch    int
	limit    string
	method   string
	filter   bool
	workers  int
	service  bool
	discover bool
	pubfail  int
	seed     int64
}

func gen(r *rand.Rand, kind string) plan {
	p := plan{silent: map[string]bool{}, by: map[string][]reply{}, method: verifkit.Pick(r, []string{"first", "random"}), workers: verifkit.Pick(r, []int{1, 3, 8}), filter: r.Intn(3) == 0, seed: int64(r.Intn(1000))}
	n := 1 + r.Intn(25)
	for i := 0; i < n; i++ {
		p.targets = append(p.targets, fmt.Sprintf("n%d.example.net", i))
	}
	r.Shuffle(n, func(i, j int) { p.targets[i], p.targets[j] = p.targets[j], p.targets[i] })
	id := 0
	mk := func(sender string) reply {
		id++
		st := 0
		switch r.Intn(6) {
		case 0:
			st = 1 + r.Intn(5)
		case 1:
			if r.Intn(3) == 0 {
				st = -1
			}
		}
		return reply{id: id, sender: sender, status: st, hidden: p.filter && r.Intn(2) == 0}
	}
	for _, t := range p.targets {
		p.by[t] = append(p.by[t], mk(t))
		for kind != "clean" && r.Intn(6) == 0 {
			p.by[t] = append(p.by[t], mk(t))
		}
	}
	if kind == "silent" {
		for i := 0; i < 1+r.Intn(3); i++ {
			t := verifkit.Pick(r, p.targets)
			p.silent[t] = true
			p.by[t] = nil
		}
	}
	if kind != "clean" {
		for i := r.Intn(4); i > 0; i-- {
			e := mk(fmt.Sprintf("stranger%d.example.net", r.Intn(3)))
			p.extra = append(p.extra, e)
		}
		for i := r.Intn(3); i > 0; i-- {
			id++
			p.extra = append(p.extra, reply{id: id, status: -2})
		}
	}
	return p
}

func cfg(c *config.Config) {
	c.MainCollective = "mcollective"
	c.Collectives = []string{"mcollective", "uk"}
	c.DiscoveryTimeout = 1
	c.RPCLimitMethod = "first"
}

// TestC13Accounting performs requests against an in-memory network on which every reply is known
func TestC13Accounting(t *testing.T) {
	rec := verifkit.New(t, "C13", "the statistics, handler calls, batches and limits of a request agree with the replies known to have arrived on an in-memory network")
	d := ddl(t, false)
	total := verifkit.N(260, 3000)
	sem := make(chan struct{}, 24)
	var wg sync.WaitGroup
	for i := 0; i < total; i++ {
		r := verifkit.Rand(fmt.Sprintf("c13-%d", i))
		kind := verifkit.Pick(r, []string{"clean", "clean", "clean", "noisy", "noisy", "noisy", "silent"})
		p := gen(r, kind)
		if r.Intn(3) == 0 {
			p.batch = 1 + r.Intn(len(p.targets)+3)
		}
		if r.Intn(3) == 0 {
			p.limit = verifkit.Pick(r, []string{fmt.Sprint(1 + r.Intn(30)), fmt.Sprintf("%d%%", 1+r.Intn(130)), "100%", "1", "50%", "29%", "57%", "99999999999999999999", "99999999999999999999%"})
		}
		p.discover = r.Intn(4) == 0
		if r.Intn(12) == 0 {
			p.pubfail = 1 + r.Intn(3)
		}
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			for attempt := 0; attempt < 3 && !run(t, rec, r, d, p, kind, i); attempt++ {
			}
		}()
	}
	wg.Wait()
	for _, k := range []string{"batched", "limited", "discovered", "kind silent", "kind noisy", "kind clean", "filtered", "publish failed"} {
		rec.Require(k, total/60)
	}
}

func wantLimit(limit string, n int) int {
	if limit == "" {
		return n
	}
	var k int
	if strings.HasSuffix(limit, "%") {
		pct := strings.TrimSuffix(limit, "%")
		if len(pct) > 6 {
			return n
		}
		fmt.Sscan(pct, &k)
		k = n * k / 100
	} else {
		if len(limit) > 6 {
			return n
		}
		fmt.Sscan(limit, &k)
	}
	return min(k, n)
}

func run(t *testing.T, rec *verifkit.Rec, r *rand.Rand, d *addl.DDL, p plan, kind string, idx int) (done bool) {
	done = true
	fw := vfake.NewNetFW(cfg)
	coll := verifkit.Pick(r, []string{"mcollective", "uk"})
	payload := map[string]any{"msg": fmt.Sprintf("hello %d", idx), "n": idx}
	given := append([]string{}, p.targets...)

	var mu sync.Mutex
	handled := map[int]int{}
	shown := map[int]bool{}
	nilCalls := 0
	delivered := map[int]reply{}
	byMsg := map[string]reply{}
	var batches [][]string
	var handledAtPublish []int
	pubs := 0
	slow := false

	for _, rs := range p.by {
		for _, x := range rs {
			byMsg[fmt.Sprintf("msg %d", x.id)] = x
		}
	}
	for _, x := range p.extra {
		byMsg[fmt.Sprintf("msg %d", x.id)] = x
	}

	fw.Net.PublishErr = func(int) error {
		mu.Lock()
		defer mu.Unlock()
		pubs++
		if p.pubfail > 0 && !p.discover && pubs == p.pubfail {
			return fmt.Errorf("simulated publish failure")
		}
		return nil
	}
	fw.Net.OnPublish = func(pub *vfake.Published) {
		if pub.Request.Agent() == "discovery" {
			started := time.Now()
			for _, n := range given {
				fw.Net.Deliver(pub.ReplyTo, fw.Net.Reply(pub, n, []byte("pong")))
			}
			mu.Lock()
			slow = slow || time.Since(started) > 500*time.Millisecond
			mu.Unlock()
			return
		}
		started := time.Now()
		defer func() {
			// a machine this slow says nothing about who answered in time
			if time.Since(started) > time.Second {
				mu.Lock()
				slow = true
				mu.Unlock()
			}
		}()
		mu.Lock()
		batches = append(batches, pub.Targets)
		first := len(batches) == 1
		handledAtPublish = append(handledAtPublish, len(handled))
		mu.Unlock()
		rs := []reply{}
		if first {
			rs = append(rs, p.extra...)
		}
		tail := []reply{}
		for _, n := range pub.Targets {
			if len(p.by[n]) > 0 {
				tail = append(tail, p.by[n]...)
			}
		}
		rr := rand.New(rand.NewSource(p.seed))
		rr.Shuffle(len(tail), func(i, j int) { tail[i], tail[j] = tail[j], tail[i] })
		for _, x := range append(rs, tail...) {
			mu.Lock()
			delivered[x.id] = x
			mu.Unlock()
			fw.Net.Deliver(pub.ReplyTo, x.bytes(fw.Net, pub, rr))
		}
	}

	cl, err := client.New(fw, "monitor", client.DDL(d))
	if err != nil {
		rec.Violation("client", "%v", err)
		return
	}
	timeout := 5 * time.Minute
	if kind == "silent" {
		timeout = 4 * time.Second
	}
	dn, ln := -1, -1
	opts := []client.RequestOption{client.Collective(coll), client.Timeout(timeout), client.DiscoveryTimeout(2500 * time.Millisecond), client.LimitMethod(p.method), client.LimitSeed(p.seed), client.Workers(p.workers),
		client.DiscoveryEndCB(func(a, b int) error { dn, ln = a, b; return nil }),
		client.ReplyHandler(func(pr protocol.Reply, rr *client.RPCReply) {
			mu.Lock()
			defer mu.Unlock()
			// the reply body identifies which reply this is even when it was hidden
			var b struct {
				Statusmsg string `json:"statusmsg"`
			}
			json.Unmarshal(pr.Message(), &b)
			x, ok := byMsg[b.Statusmsg]
			if !ok {
				rec.Violation("handler-unknown", "handler was given a reply nobody sent: %q", pr.Message())
				return
			}
			handled[x.id]++
			if rr == nil {
				nilCalls++
				return
			}
			shown[x.id] = true
			if rr.Sender != x.sender || pr.SenderID() != x.sender || int(rr.Statuscode) != x.status || !strings.Contains(string(rr.Data), fmt.Sprintf(`"id":%d,`, x.id)) {
				rec.Violation("reply-altered", "reply %+v was handed over as %+v", x, rr)
			}
		})}
	if !p.discover {
		opts = append(opts, client.Targets(append([]string{}, p.targets...)))
	}
	if p.batch > 0 {
		opts = append(opts, client.InBatches(p.batch, 0))
	}
	if p.limit != "" {
		opts = append(opts, client.LimitSize(p.limit))
	}
	if p.filter {
		opts = append(opts, client.ReplyExprFilter(`data("v") == "show"`))
	}

	input := fmt.Sprintf("%s: %d targets %v limit %q (%s) batch %d workers %d discover %v filter %v extra %+v by %+v", kind, len(p.targets), p.targets, p.limit, p.method, p.batch, p.workers, p.discover, p.filter, p.extra, p.by)
	var res client.RequestResult
	ok := rec.Within(150*time.Second, "request-hang", func() {
		rec.NoPanic("request", input, func() { res, err = cl.Do(context.Background(), "act", payload, opts...) })
	})
	if !ok {
		return
	}
	mu.Lock()
	defer mu.Unlock()

	if slow && (kind == "silent" || p.discover) {
		rec.Count("delivered too slowly", 1)
		return false
	}
	rec.Case(true, input)
	rec.Count("kind "+kind, 1)

	n := wantLimit(p.limit, len(p.targets))
	if n == 0 {
		if err == nil {
			rec.Violation("limit-none", "%s: a limit that leaves nothing was not refused", input)
		}
		return
	}

	// batches and limits
	var contacted []string
	for bi, b := range batches {
		if p.batch > 0 && len(b) > p.batch || len(b) == 0 {
			rec.Violation("batch-size", "%s: batch %d has %d targets", input, bi, len(b))
		}
		contacted = append(contacted, b...)
	}
	if p.batch > 0 {
		rec.Count("batched", 1)
	}
	if p.limit != "" {
		rec.Count("limited", 1)
	}
	if p.filter {
		rec.Count("filtered", 1)
	}
	set := map[string]bool{}
	for _, c := range contacted {
		if set[c] {
			rec.Violation("batch-repeat", "%s: %q was contacted more than once: %v", input, c, batches)
		}
		set[c] = true
		if _, known := p.by[c]; !known {
			rec.Violation("limit-unknown", "%s: %q was contacted and is not a target: %v", input, c, batches)
		}
	}
	failedPublish := p.pubfail > 0 && !p.discover && pubs >= p.pubfail
	if failedPublish {
		rec.Count("publish failed", 1)
		if err == nil {
			rec.Violation("publish-error", "%s: publishing failed and the request did not", input)
		}
	} else {
		if err != nil {
			rec.Violation("request-error", "%s: %v", input, err)
			return
		}
		if len(contacted) != n {
			rec.Violation("limit-size", "%s: %d of %d targets were contacted, expected %d", input, len(contacted), len(p.targets), n)
		}
		if p.method == "first" && !p.discover && strings.Join(contacted, ",") != strings.Join(given[:n], ",") {
			rec.Violation("limit-first", "%s: contacted %v rather than the first %d", input, contacted, n)
		}
	}
	if p.discover {
		rec.Count("discovered", 1)
	}
	if dn != len(p.targets) || ln != n {
		rec.Violation("discovery-callback", "%s: the callback was told of %d discovered and %d targets", input, dn, ln)
	}
	if res == nil {
		return
	}
	for i, pub := range fw.Net.Published() {
		if pub.Request.Agent() == "discovery" {
			continue
		}
		var b struct {
			Agent  string         `json:"agent"`
			Action string         `json:"action"`
			Data   map[string]any `json:"data"`
		}
		if e := json.Unmarshal(pub.Request.Message(), &b); e != nil || b.Agent != "monitor" || b.Action != "act" || verifkit.J(b.Data) != verifkit.J(payload) || pub.Request.Collective() != coll || pub.Request.Agent() != "monitor" {
			rec.Violation("request-body", "%s: publish %d was %q to %s in %s", input, i, pub.Request.Message(), pub.Request.Agent(), pub.Request.Collective())
		}
	}

	// accounting
	targets := contacted
	stats := res.Stats()
	got := map[string]bool{}
	exact := false
	for _, c := range targets {
		for _, x := range p.by[c] {
			if x.status != -2 {
				got[c] = true
			}
		}
		if !got[c] {
			exact = true
		}
	}
	// with several batches each completes by itself
	if len(batches) > 1 {
		exact = false
	}
	noresp := map[string]bool{}
	if failedPublish {
		return
	}
	for _, c := range targets {
		if !got[c] {
			noresp[c] = true
		}
	}
	if stats.DiscoveredCount() != n || strings.Join(sorted(*stats.DiscoveredNodes()), ",") != strings.Join(sorted(targets), ",") {
		rec.Violation("stats-discovered", "%s: %d discovered: %v", input, stats.DiscoveredCount(), *stats.DiscoveredNodes())
	}
	if w, g := sortedKeys(noresp), sorted(stats.NoResponseFrom()); strings.Join(w, ",") != strings.Join(g, ",") {
		rec.Violation("stats-silent", "%s: silent nodes are %v, reported %v", input, w, g)
	}
	if stats.All() != (len(noresp) == 0) {
		rec.Violation("stats-all", "%s: all responded is %v with %v silent", input, stats.All(), noresp)
	}
	if stats.ResponsesCount() != len(got) {
		rec.Violation("stats-responses", "%s: %d responses reported of %d", input, stats.ResponsesCount(), len(got))
	}
	okMax, failMax := 0, 0
	unexpected := map[string]bool{}
	for _, x := range delivered {
		switch {
		case x.status == 0:
			okMax++
		default:
			failMax++
		}
		if x.status != -2 {
			if !set[x.sender] {
				unexpected[x.sender] = true
			}
		}
	}
	for _, c := range targets {
		if len(p.by[c]) > 1 {
			unexpected[c] = true
		}
	}
	for _, u := range stats.UnexpectedResponseFrom() {
		if !unexpected[u] {
			rec.Violation("stats-unexpected", "%s: %q is reported as unexpected", input, u)
		}
	}
	if stats.OKCount() > okMax || stats.FailCount() > failMax {
		rec.Violation("stats-inflated", "%s: %d ok and %d failed reported, %d and %d arrived", input, stats.OKCount(), stats.FailCount(), okMax, failMax)
	}
	if stats.OKCount()+stats.FailCount() < len(got) {
		rec.Violation("stats-lost", "%s: %d ok and %d failed reported for %d responses", input, stats.OKCount(), stats.FailCount(), len(got))
	}
	if exact || kind == "clean" {
		rec.Count("exact", 1)
		if stats.OKCount() != okMax || stats.FailCount() != failMax {
			rec.Violation("stats-counts", "%s: %d ok and %d failed reported, %d and %d arrived", input, stats.OKCount(), stats.FailCount(), okMax, failMax)
		}
		if len(stats.UnexpectedResponseFrom()) != len(unexpected) {
			rec.Violation("stats-unexpected", "%s: unexpected %v reported %v", input, unexpected, stats.UnexpectedResponseFrom())
		}
		for _, x := range delivered {
			if x.status >= 0 && handled[x.id] != 1 {
				rec.Violation("handler-calls", "%s: reply %+v was handed over %d times", input, x, handled[x.id])
			}
		}
	}
	usable := map[string]int{}
	for id, c := range handled {
		x := byMsg[fmt.Sprintf("msg %d", id)]
		usable[x.sender]++
		if c != 1 {
			rec.Violation("handler-calls", "%s: reply %+v was handed over %d times", input, x, c)
		}
		if shown[id] == x.hidden && p.filter {
			rec.Violation("reply-filter", "%s: reply %+v shown %v", input, x, shown[id])
		}
		if !p.filter && !shown[id] {
			rec.Violation("reply-filter", "%s: reply %+v was hidden without a filter", input, x)
		}
	}
	for c := range got {
		anyUsable := true
		for _, x := range p.by[c] {
			anyUsable = anyUsable && x.status >= 0
		}
		if anyUsable && usable[c] == 0 {
			rec.Violation("handler-missed", "%s: no reply of %s was handed over", input, c)
		}
	}
	if fw.Net != nil {
		// every connection made for the request is closed soon after it ended
		if !verifkit.Eventually(30*time.Second, func() bool { o, c := fw.Net.Connections(); return p.batch > 0 || o == c }) {
			o, c := fw.Net.Connections()
			rec.Violation("connections", "%s: %d connections opened and %d closed", input, o, c)
		}
	}
	return
}

// TestC13Service performs service requests, which the first reply completes
func TestC13Service(t *testing.T) {
	rec := verifkit.New(t, "C13", "a service request publishes one undirected request and is complete with its first reply which alone is counted")
	d := ddl(t, true)
	for i := 0; i < verifkit.N(40, 400); i++ {
		r := verifkit.Rand(fmt.Sprintf("c13-service-%d", i))
		fw := vfake.NewNetFW(cfg)
		n := r.Intn(3)
		st := r.Intn(3)
		fw.Net.OnPublish = func(pub *vfake.Published) {
			for j := 0; j < n; j++ {
				fw.Net.Deliver(pub.ReplyTo, reply{id: j, sender: fmt.Sprintf("s%d", j), status: st}.bytes(fw.Net, pub, r))
			}
		}
		cl, _ := client.New(fw, "monitor", client.DDL(d))
		var handled []string
		var res client.RequestResult
		var err error
		to := 5 * time.Minute
		if n == 0 {
			to = 100 * time.Millisecond
		}
		if !rec.Within(100*time.Second, "request-hang", func() {
			res, err = cl.Do(context.Background(), "act", map[string]any{}, client.ServiceRequest(), client.Timeout(to), client.ReplyHandler(func(pr protocol.Reply, _ *client.RPCReply) { handled = append(handled, pr.SenderID()) }))
		}) {
			return
		}
		rec.Case(n > 0, fmt.Sprintf("%d %d", n, st))
		if err != nil {
			rec.Violation("service-error", "%v", err)
			continue
		}
		pubs := fw.Net.Published()
		if len(pubs) != 1 || len(pubs[0].Targets) != 0 || pubs[0].Msg.Type() != "service_request" {
			rec.Violation("service-publish", "published %d", len(pubs))
		}
		s := res.Stats()
		if n == 0 {
			if len(handled) != 0 || s.OKCount()+s.FailCount()+s.ResponsesCount() != 0 {
				rec.Violation("service-silent", "no replies and %d ok %d failed %d responses", s.OKCount(), s.FailCount(), s.ResponsesCount())
			}
			continue
		}
		okc, failc := 0, 0
		if st == 0 {
			okc = len(handled)
		} else {
			failc = len(handled)
		}
		if len(handled) == 0 || handled[0] != "s0" || s.OKCount() != okc || s.FailCount() != failc || s.DiscoveredCount() != len(handled) {
			rec.Violation("service-stats", "%d replies %v handled: %d ok %d failed %d discovered", n, handled, s.OKCount(), s.FailCount(), s.DiscoveredCount())
		}
	}
}

// TestC13Reuse performs several different requests with the same client, each accounts for itself alone
func TestC13Reuse(t *testing.T) {
	rec := verifkit.New(t, "C13", "the requests made with one client do not influence each other")
	d := ddl(t, false)
	filters := map[string]func(x reply) bool{
		"":                       func(reply) bool { return true },
		`data("v") == "show"`:    func(x reply) bool { return !x.hidden },
		`data("v") == "hide"`:    func(x reply) bool { return x.hidden },
		"ok()":                   func(x reply) bool { return x.status == 0 },
		"!ok()":                  func(x reply) bool { return x.status != 0 },
		`sender() matches "n1"`:  func(x reply) bool { return strings.Contains(x.sender, "n1") },
		`code == 1 || code == 3`: func(x reply) bool { return x.status == 1 || x.status == 3 },
	}
	names := sortedKeys(filters)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 16)
	for i := 0; i < verifkit.N(40, 600); i++ {
		sem <- struct{}{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := verifkit.Rand(fmt.Sprintf("c13-reuse-%d", i))
			fw := vfake.NewNetFW(cfg)
			var mu sync.Mutex
			var answers map[string]reply
			var earlier []*vfake.Published
			var asked []string
			lost := false
			fw.Net.OnPublish = func(pub *vfake.Published) {
				mu.Lock()
				defer mu.Unlock()
				started := time.Now()
				defer func() { lost = lost || time.Since(started) > 500*time.Millisecond }()
				if pub.Request.Agent() == "discovery" {
					for n := range answers {
						fw.Net.Deliver(pub.ReplyTo, fw.Net.Reply(pub, n, []byte("pong")))
					}
					return
				}
				// late answers to earlier requests
				for _, e := range earlier {
					if e.ReplyTo == pub.ReplyTo {
						continue
					}
					fw.Net.Deliver(e.ReplyTo, reply{id: 0, sender: "late.example.net"}.bytes(fw.Net, e, r))
				}
				earlier = append(earlier, pub)
				for _, n := range pub.Targets {
					asked = append(asked, n)
					if x, ok := answers[n]; ok {
						fw.Net.Deliver(pub.ReplyTo, x.bytes(fw.Net, pub, r))
					}
				}
			}
			cl, err := client.New(fw, "monitor", client.DDL(d))
			if err != nil {
				rec.Violation("client", "%v", err)
				return
			}
			hist := ""
			id := 0
			for round := 0; round < 4; round++ {
				mu.Lock()
				answers, asked, lost = map[string]reply{}, nil, false
				for len(answers) == 0 {
					for n := 0; n < 14; n++ {
						if r.Intn(2) == 0 {
							id++
							st := 0
							if r.Intn(3) == 0 {
								st = 1 + r.Intn(5)
							}
							s := fmt.Sprintf("n%d.example.net", n)
							answers[s] = reply{id: id, sender: s, status: st, hidden: r.Intn(2) == 0}
						}
					}
				}
				want := sortedKeys(answers)
				mine := answers
				mu.Unlock()
				filter := verifkit.Pick(r, names)
				discover := r.Intn(4) == 0
				batch := 0
				if r.Intn(4) == 0 {
					batch = 1 + r.Intn(6)
				}
				calls := map[int]int{}
				var shown, wantShown []string
				opts := []client.RequestOption{client.Timeout(5 * time.Minute), client.DiscoveryTimeout(2500 * time.Millisecond), client.Workers(1 + r.Intn(3)), client.ReplyHandler(func(pr protocol.Reply, rr *client.RPCReply) {
					mu.Lock()
					defer mu.Unlock()
					x, ok := mine[pr.SenderID()]
					if !ok {
						rec.Violation("handler-unknown", "%s: handed a reply of %q", hist, pr.SenderID())
						return
					}
					calls[x.id]++
					if rr != nil {
						shown = append(shown, pr.SenderID())
						if !strings.Contains(string(rr.Data), fmt.Sprintf(`"id":%d,`, x.id)) || int(rr.Statuscode) != x.status {
							rec.Violation("reply-altered", "%s: reply %+v was handed over as %+v", hist, x, rr)
						}
					}
				})}
				if !discover {
					opts = append(opts, client.Targets(append([]string{}, want...)))
				}
				if batch > 0 {
					opts = append(opts, client.InBatches(batch, 0))
				}
				if filter != "" {
					opts = append(opts, client.ReplyExprFilter(filter))
				}
				hist += fmt.Sprintf(" [%d targets discover %v batch %d filter %q]", len(want), discover, batch, filter)
				var res client.RequestResult
				if !rec.Within(150*time.Second, "request-hang", func() {
					res, err = cl.Do(context.Background(), "act", map[string]any{"round": round}, opts...)
				}) {
					return
				}
				mu.Lock()
				if lost && discover {
					mu.Unlock()
					rec.Count("delivered too slowly", 1)
					return
				}
				if err != nil {
					rec.Violation("request-error", "%s: %v", hist, err)
					mu.Unlock()
					return
				}
				rec.Case(true, hist)
				rec.Count("reused", 1)
				okc := 0
				for _, n := range want {
					if mine[n].status == 0 {
						okc++
					}
					if filters[filter](mine[n]) {
						wantShown = append(wantShown, n)
					}
					if calls[mine[n].id] != 1 {
						rec.Violation("handler-calls", "%s: the reply of %s was handed over %d times", hist, n, calls[mine[n].id])
					}
				}
				s := res.Stats()
				if strings.Join(sorted(shown), ",") != strings.Join(sorted(wantShown), ",") {
					rec.Violation("reply-filter", "%s: replies of %v were shown, the filter matches %v", hist, sorted(shown), sorted(wantShown))
				}
				if strings.Join(sorted(asked), ",") != strings.Join(want, ",") || strings.Join(sorted(*s.DiscoveredNodes()), ",") != strings.Join(want, ",") {
					rec.Violation("reuse-targets", "%s: contacted %v and reported %v of %v", hist, sorted(asked), sorted(*s.DiscoveredNodes()), want)
				}
				if s.OKCount() != okc || s.FailCount() != len(want)-okc || s.ResponsesCount() != len(want) || len(s.NoResponseFrom()) != 0 || len(s.UnexpectedResponseFrom()) != 0 {
					rec.Violation("reuse-stats", "%s: %d ok of %d, %d failed, %d responses, silent %v, unexpected %v", hist, s.OKCount(), okc, s.FailCount(), s.ResponsesCount(), s.NoResponseFrom(), s.UnexpectedResponseFrom())
				}
				if r.Intn(3) == 0 {
					cl.Reset()
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	rec.Require("reused", verifkit.N(40, 600)*2)
}
