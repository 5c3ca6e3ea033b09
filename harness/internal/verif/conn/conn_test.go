package conn

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	natssrv "github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
)

func framework(id string, hosts ...string) *choria.Framework {
	return vfake.FW(func(cfg *config.Config) {
		vfake.Certs(id)(cfg)
		cfg.DisableTLS = true
		cfg.Choria.MiddlewareHosts = hosts
	})
}

type sent struct {
	id      int
	subject string
	reply   string
	data    []byte
}

// subscription is what the monitor knows of one subscription
type subscription struct {
	n       int
	name    string
	pattern string
	group   string
	cap     int
	out     chan inter.ConnectorMessage
	cancel  context.CancelFunc
	stop    chan struct{}

	active  bool
	reading bool
	want    []int // messages published while it was active
	got     []int
}

func (s *subscription) String() string {
	kind := "chan"
	if s.cancel != nil {
		kind = "ctx"
	}
	return fmt.Sprintf("#%d %s %q on %s group %q size %d", s.n, kind, s.name, s.pattern, s.group, s.cap)
}

func matches(pattern, subject string) bool {
	return pattern == subject || pattern == "s.*" && strings.HasPrefix(subject, "s.")
}

// copiers counts goroutines of connections that move messages
func copiers() int {
	buf := make([]byte, 8<<20)
	n := 0
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "choria.(*Connection)") {
			n++
		}
	}
	return n
}

// TestC34Subscriptions performs random histories of subscribing, unsubscribing and publishing on one connection
func TestC34Subscriptions(t *testing.T) {
	v := verifkit.New(t, "C34", "each subscription of a connection receives each message exactly once and in order until it ends, and nothing after")
	F, err := vfake.StartNATS("", nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer F.Stop()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fw := framework("client0.mcollective", F.HostPort)
	pubi, err := fw.NewConnector(ctx, fw.MiddlewareServers, "publisher", fw.Logger("t"))
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	base := copiers()
	for i := 0; i < verifkit.N(60, 1200); i++ {
		if !history(v, ctx, F, fw, pubi, i) {
			return
		}
	}
	v.Check(verifkit.Eventually(30*time.Second, func() bool { return copiers() <= base }), "sub-leak", "%d goroutines of closed connections remain", copiers()-base)
	v.Require("delivered", 100)
	v.Require("shared names", 3)
	v.Require("ended by context", 3)
	v.Require("ended by name", 3)
	v.Require("reader stopped", 3)
	v.Require("group messages", 3)
	pubi.Close()
}

func history(v *verifkit.Rec, ctx context.Context, F *vfake.NATS, fw *choria.Framework, pub inter.Connector, round int) bool {
	r := verifkit.Rand(fmt.Sprintf("c34-subs-%d", round))
	c, err := fw.NewConnector(ctx, fw.MiddlewareServers, fmt.Sprintf("round%d", round), fw.Logger("t"))
	if err != nil {
		v.Inconclusive("%v", err)
		return false
	}
	conn := c.(*choria.Connection)
	var mu sync.Mutex
	var subs []*subscription
	var hist []string
	msgs := map[int]*sent{}
	next := round << 12
	bad := ""
	note := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
	fail := func(key string, f string, a ...any) bool {
		v.Violation(key, "%s; history: %s", fmt.Sprintf(f, a...), strings.Join(hist, ", "))
		return false
	}
	read := func(s *subscription) {
		for {
			select {
			case <-s.stop:
				return
			case m, ok := <-s.out:
				if !ok {
					mu.Lock()
					bad = fmt.Sprintf("output of %s was closed", s)
					mu.Unlock()
					return
				}
				mu.Lock()
				id := -1
				if len(m.Data()) >= 4 {
					id = int(binary.BigEndian.Uint32(m.Data()))
				}
				if x, ok := msgs[id]; !ok || x.subject != m.Subject() || x.reply != m.Reply() || string(x.data) != string(m.Data()) {
					bad = fmt.Sprintf("%s received something that was not published: subject %q reply %q %d bytes", s, m.Subject(), m.Reply(), len(m.Data()))
				}
				s.got = append(s.got, id)
				mu.Unlock()
			}
		}
	}
	active := func() (res []*subscription) {
		for _, s := range subs {
			if s.active {
				res = append(res, s)
			}
		}
		return res
	}
	brokerSubs := func() int {
		cid, err := conn.Nats().GetClientID()
		if err != nil {
			return -1
		}
		cz, err := F.Srv.Connz(&natssrv.ConnzOptions{CID: cid})
		if err != nil || len(cz.Conns) != 1 {
			return -1
		}
		return int(cz.Conns[0].NumSubs)
	}
	// settle waits until all that must happen did
	settle := func() bool {
		if err := pub.Nats().FlushTimeout(60 * time.Second); err != nil {
			return fail("flush", "publisher: %v", err)
		}
		if !conn.Nats().IsConnected() {
			return fail("reconnect", "not connected: %v", conn.Nats().Status())
		}
		if err := conn.Nats().FlushTimeout(60 * time.Second); err != nil {
			return fail("flush", "%v", err)
		}
		why := ""
		ok := verifkit.Eventually(60*time.Second, func() bool {
			mu.Lock()
			defer mu.Unlock()
			if bad != "" {
				return true
			}
			for _, s := range subs {
				if s.active && s.reading && s.group == "" && len(s.got) < len(s.want) {
					why = fmt.Sprintf("%s received %d of %d messages", s, len(s.got), len(s.want))
					return false
				}
			}
			if n := brokerSubs(); n != len(active()) {
				why = fmt.Sprintf("the broker knows %d subscriptions, %d are active", n, len(active()))
				return false
			}
			return true
		})
		mu.Lock()
		defer mu.Unlock()
		if bad != "" {
			return fail("sub-message", "%s", bad)
		}
		if !ok {
			return fail("sub-lost", "%s", why)
		}
		return true
	}
	end := func(s *subscription) {
		mu.Lock()
		s.active = false
		mu.Unlock()
	}

	names := []string{"a", "b", "c"}
	literals := []string{"s.x", "s.y", "q.z"}
	n := 0
	for op := 0; op < 20+r.Intn(25); op++ {
		switch k := r.Intn(20); {
		case k < 7:
			n++
			s := &subscription{n: n, name: verifkit.Pick(r, names), pattern: verifkit.Pick(r, append([]string{"s.*"}, literals...)), cap: 1 + r.Intn(5), stop: make(chan struct{}), active: true, reading: true}
			if s.pattern != "s.*" && r.Intn(3) == 0 {
				s.group = "g"
			}
			for _, o := range active() {
				if o.name == s.name {
					v.Count("shared names", 1)
					break
				}
			}
			if r.Intn(3) > 0 {
				sctx, scancel := context.WithCancel(ctx)
				s.cancel = scancel
				s.out = make(chan inter.ConnectorMessage, s.cap)
				dead := r.Intn(8) == 0
				if dead {
					scancel()
					s.active = false
				}
				note("subscribe %s dead %v", s, dead)
				err = conn.QueueSubscribe(sctx, s.name, s.pattern, s.group, s.out)
				if dead {
					err = nil
				}
			} else {
				note("subscribe %s", s)
				s.out, err = conn.ChanQueueSubscribe(s.name, s.pattern, s.group, s.cap)
			}
			if err != nil {
				return fail("subscribe", "%v", err)
			}
			go read(s)
			mu.Lock()
			subs = append(subs, s)
			mu.Unlock()
			if !s.active && !settle() { // so that its reader is known to have received nothing
				return false
			}
		case k < 13:
			if !settle() {
				return false
			}
			subject := verifkit.Pick(r, literals)
			burst := 6
			for _, s := range active() {
				if matches(s.pattern, subject) && s.reading && s.cap < burst {
					burst = s.cap
				}
			}
			burst = 1 + r.Intn(burst)
			note("publish %d to %s", burst, subject)
			for b := 0; b < burst; b++ {
				next++
				m := &sent{id: next, subject: subject, data: make([]byte, 4+r.Intn(64))}
				if r.Intn(2) == 0 {
					m.reply = fmt.Sprintf("r.%d", next)
				}
				r.Read(m.data)
				binary.BigEndian.PutUint32(m.data, uint32(next))
				mu.Lock()
				msgs[next] = m
				grouped, readers, stuck := 0, 0, 0
				for _, s := range active() {
					if matches(s.pattern, subject) {
						s.want = append(s.want, next)
						if s.group != "" {
							grouped++
							if s.reading {
								readers++
							} else {
								stuck++
							}
						}
					}
				}
				mu.Unlock()
				if m.reply == "" {
					err = pub.PublishRaw(subject, m.data)
				} else {
					err = pub.PublishRawMsg(&nats.Msg{Subject: subject, Reply: m.reply, Data: m.data})
				}
				if err != nil {
					return fail("publish", "%v", err)
				}
				if grouped == 0 {
					continue
				}
				v.Count("group messages", 1)
				if stuck == 0 {
					id := next
					ok := verifkit.Eventually(60*time.Second, func() bool {
						mu.Lock()
						defer mu.Unlock()
						for _, s := range subs {
							if s.group != "" && len(s.got) > 0 && s.got[len(s.got)-1] == id {
								return true
							}
						}
						return bad != ""
					})
					if !ok {
						return fail("group-lost", "no member of the group received the message")
					}
				}
			}
			if !settle() {
				return false
			}
		case k < 15:
			var cand []*subscription
			for _, s := range active() {
				if s.cancel != nil {
					cand = append(cand, s)
				}
			}
			if len(cand) == 0 {
				continue
			}
			s := verifkit.Pick(r, cand)
			note("cancel #%d", s.n)
			end(s)
			s.cancel()
			v.Count("ended by context", 1)
			if r.Intn(3) == 0 && !publishEnded(conn, pub, s, r, &next, msgs, &mu, subs) {
				return fail("publish", "publishing failed")
			}
		case k < 16:
			name := verifkit.Pick(r, names)
			note("unsubscribe %s", name)
			for _, s := range active() {
				if s.name == name {
					end(s)
					v.Count("ended by name", 1)
				}
			}
			if err = conn.Unsubscribe(name); err != nil {
				return fail("unsubscribe", "%v", err)
			}
		case k < 17:
			if !settle() {
				return false
			}
			if a := active(); len(a) > 0 {
				s := verifkit.Pick(r, a)
				if s.reading {
					note("reader of #%d stops", s.n)
					mu.Lock()
					s.reading = false
					mu.Unlock()
					close(s.stop)
					v.Count("reader stopped", 1)
				}
			}
		case k < 18 && r.Intn(6) == 0:
			if !settle() {
				return false
			}
			cid, err := conn.Nats().GetClientID()
			if err != nil {
				return fail("reconnect", "%v", err)
			}
			before := conn.Nats().Stats().Reconnects
			note("disconnect")
			F.Srv.DisconnectClientByID(cid)
			if !verifkit.Eventually(60*time.Second, func() bool { return conn.Nats().Stats().Reconnects > before && conn.IsConnected() }) {
				return fail("reconnect", "did not reconnect: %v", conn.Nats().Status())
			}
			v.Count("reconnected", 1)
			if !settle() {
				return false
			}
		}
	}
	if !settle() {
		return false
	}
	cid, _ := conn.Nats().GetClientID()
	note("close")
	if !v.Within(60*time.Second, "close", conn.Close) {
		return false
	}
	if !verifkit.Eventually(30*time.Second, func() bool {
		cz, err := F.Srv.Connz(&natssrv.ConnzOptions{CID: cid})
		return err != nil || len(cz.Conns) == 0
	}) {
		return fail("close", "the connection remains at the broker")
	}
	mu.Lock()
	defer mu.Unlock()
	if bad != "" {
		return fail("sub-message", "%s", bad)
	}
	perGroup := map[int]int{}
	for _, s := range subs {
		if s.cancel != nil {
			s.cancel()
		}
		if s.reading {
			close(s.stop)
		}
		v.Count("delivered", len(s.got))
		whole := s.active && s.reading && s.group == ""
		if whole && !reflect.DeepEqual(s.got, s.want) {
			return fail("sub-order", "%s received %v rather than %v", s, s.got, s.want)
		}
		w := 0
		for _, id := range s.got {
			for w < len(s.want) && s.want[w] != id {
				w++
			}
			if w == len(s.want) {
				return fail("sub-foreign", "%s received %v, published while it was subscribed: %v", s, s.got, s.want)
			}
			w++
			if s.group != "" {
				perGroup[id]++
			}
		}
	}
	for id, c := range perGroup {
		if c != 1 {
			return fail("group-repeat", "message %d was received by %d members of the group", id, c)
		}
	}
	v.Case(n > 1, strings.Join(hist, ","))
	return true
}

// publishEnded publishes to what a subscription was for until a moment ago, others receive it
func publishEnded(conn *choria.Connection, pub inter.Connector, ended *subscription, r *rand.Rand, next *int, msgs map[int]*sent, mu *sync.Mutex, subs []*subscription) bool {
	subject := strings.ReplaceAll(ended.pattern, "*", "x")
	mu.Lock()
	for _, s := range subs {
		if s.active && s.group != "" && s.pattern == subject {
			mu.Unlock()
			return true // the broker might still choose the ended member
		}
	}
	if ended.group != "" {
		mu.Unlock()
		return true
	}
	*next++
	m := &sent{id: *next, subject: subject, data: make([]byte, 4)}
	binary.BigEndian.PutUint32(m.data, uint32(*next))
	msgs[*next] = m
	for _, s := range subs {
		if s.active && matches(s.pattern, subject) {
			s.want = append(s.want, *next)
		}
	}
	mu.Unlock()
	if pub.PublishRaw(subject, m.data) != nil {
		return false
	}
	pub.Nats().Flush()
	// a single one fits all buffers, all readers must be done before the next
	return verifkit.Eventually(60*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		for _, s := range subs {
			if s.active && s.reading && s.group == "" && len(s.got) < len(s.want) {
				return false
			}
		}
		return true
	})
}

// TestC34Publish checks that messages of all kinds reach where their kind says and that publishing is announced
func TestC34Publish(t *testing.T) {
	v := verifkit.New(t, "C34", "messages reach exactly the subjects their type implies, announced before each is published")
	F, err := vfake.StartNATS("", nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer F.Stop()
	nc, err := F.Connect()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer nc.Close()
	var mu sync.Mutex
	var seen []*nats.Msg
	nc.Subscribe(">", func(m *nats.Msg) {
		mu.Lock()
		seen = append(seen, m)
		mu.Unlock()
	})
	nc.Flush()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, feds := range [][]string{nil, {"east"}, {"east", "west", "north"}} {
		fw := vfake.FW(func(cfg *config.Config) {
			vfake.Certs("client0.mcollective")(cfg)
			cfg.DisableTLS = true
			cfg.Choria.MiddlewareHosts = []string{F.HostPort}
			cfg.Choria.FederationMiddlewareHosts = []string{F.HostPort}
			cfg.Choria.FederationCollectives = feds
			cfg.Collectives = []string{"mcollective", "other"}
		})
		conn, err := fw.NewConnector(ctx, fw.MiddlewareServers, "t", fw.Logger("t"))
		if err != nil {
			v.Inconclusive("%v", err)
			return
		}
		r := verifkit.Rand(fmt.Sprintf("c34-publish-%d", len(feds)))
		for i := 0; i < verifkit.N(60, 600); i++ {
			kind := verifkit.Pick(r, []string{inter.RequestMessageType, inter.ServiceRequestMessageType, inter.DirectRequestMessageType, inter.DirectRequestMessageType})
			coll := verifkit.Pick(r, []string{"mcollective", "other"})
			msg, err := fw.NewMessage([]byte("cGluZw=="), "discovery", coll, inter.RequestMessageType, nil)
			if err != nil {
				v.Violation("message", "%v", err)
				return
			}
			msg.SetReplyTo(choria.ReplyTarget(msg, msg.RequestID()))
			var want []string
			var hosts []string
			switch kind {
			case inter.RequestMessageType:
				want = []string{coll + ".broadcast.agent.discovery"}
			case inter.ServiceRequestMessageType:
				want = []string{coll + ".broadcast.service.discovery"}
			case inter.DirectRequestMessageType:
				count := verifkit.Pick(r, []int{1, 2, 7, 199, 200, 201, 400, 401})
				for h := 0; h < count; h++ {
					hosts = append(hosts, fmt.Sprintf("n%d.example.net", h))
					want = append(want, coll+".node."+hosts[h])
				}
				msg.SetDiscoveredHosts(hosts)
			}
			msg.SetType(kind)
			custom := r.Intn(6) == 0
			if custom {
				want = []string{fmt.Sprintf("custom.%d", i)}
				msg.SetCustomTarget(want[0])
			}
			announced := 0
			early := true
			msg.OnPublish(func() {
				announced++
				if announced > 1 {
					return
				}
				// all before us is flushed, so none of ours should show
				conn.Nats().Flush()
				nc.Flush()
				mu.Lock()
				early = len(seen) == 0
				mu.Unlock()
			})
			mu.Lock()
			seen = nil
			mu.Unlock()
			err = conn.Publish(msg)
			conn.Nats().Flush()
			nc.Flush()
			in := fmt.Sprintf("%s in %s to %d nodes federated by %v custom %v", kind, coll, len(hosts), feds, custom)
			v.Case(true, in)
			if err != nil {
				v.Violation("publish", "%s: %v", in, err)
				continue
			}
			v.Check(verifkit.Eventually(30*time.Second, func() bool {
				nc.Flush()
				mu.Lock()
				defer mu.Unlock()
				return len(seen) >= announced
			}), "publish-announced", "%s: announced %d times", in, announced)
			mu.Lock()
			got := append([]*nats.Msg{}, seen...)
			mu.Unlock()
			v.Check(early, "publish-announced", "%s: published before that was announced", in)
			v.Check(announced == len(got) && announced > 0, "publish-announced", "%s: %d messages were published, announced %d times", in, len(got), announced)
			where := map[string][]string{}
			for _, m := range got {
				tr, err := fw.NewTransportFromJSON(m.Data)
				if err != nil {
					v.Violation("publish", "%s: not a transport message: %v", in, err)
					continue
				}
				v.Check(tr.ReplyTo() == msg.ReplyTo(), "publish-reply", "%s: asks for replies to %q rather than %q", in, tr.ReplyTo(), msg.ReplyTo())
				if len(feds) == 0 || custom {
					where[""] = append(where[""], m.Subject)
					continue
				}
				targets, _ := tr.FederationTargets()
				id, _ := tr.FederationRequestID()
				v.Check(id == msg.RequestID(), "publish-federated", "%s: federated as request %q", in, id)
				where[m.Subject] = append(where[m.Subject], targets...)
			}
			sort.Strings(want)
			expect := map[string][]string{"": want}
			if len(feds) > 0 && !custom {
				expect = map[string][]string{}
				for _, f := range feds {
					expect["choria.federation."+f+".federation"] = want
				}
			}
			for k := range where {
				sort.Strings(where[k])
			}
			v.Check(reflect.DeepEqual(where, expect), "publish-targets", "%s: published to %v rather than %v", in, where, expect)
			v.Count("kind "+kind, 1)
		}
		conn.Close()
	}
}
