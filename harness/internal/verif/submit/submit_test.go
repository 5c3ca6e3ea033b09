// Monitors for C14: the submission spool against a broker that fails in many ways
package submit

import (
	"bufio"
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/submission"
	"github.com/nats-io/nats.go"
)

// attempt is one publish the broker saw
type attempt struct {
	id     string
	at     time.Time
	msg    *nats.Msg
	req    bool
	ok     bool
	hung   bool
	ended  time.Time
	serial int
}

type broker struct {
	mu       sync.Mutex
	attempts []attempt
	// behaviour decides the outcome of the next publish: ok, err, slow, hang, nack, garbage, lost
	behaviour func() string
	onPublish func(id string)
}

func (b *broker) PublishRaw(target string, data []byte) error {
	return errors.New("unexpected raw publish")
}

func (b *broker) record(msg *nats.Msg, req bool) (int, string) {
	b.mu.Lock()
	defer b.mu.Unlock()
	how := b.behaviour()
	c := nats.NewMsg(msg.Subject)
	c.Data = append([]byte{}, msg.Data...)
	for k, v := range msg.Header {
		c.Header[k] = append([]string{}, v...)
	}
	b.attempts = append(b.attempts, attempt{id: msg.Header.Get("Nats-Msg-Id"), at: time.Now(), msg: c, req: req, serial: len(b.attempts)})
	return len(b.attempts) - 1, how
}

func (b *broker) finish(i int, f func(a *attempt)) {
	b.mu.Lock()
	f(&b.attempts[i])
	b.mu.Unlock()
}

func (b *broker) PublishRawMsg(msg *nats.Msg) error {
	i, how := b.record(msg, false)
	if b.onPublish != nil {
		b.onPublish(msg.Header.Get("Nats-Msg-Id"))
	}
	if how == "ok" {
		b.finish(i, func(a *attempt) { a.ok = true })
		return nil
	}
	return errors.New("simulated publish failure")
}

func (b *broker) RequestRawMsgWithContext(ctx context.Context, msg *nats.Msg) (*nats.Msg, error) {
	i, how := b.record(msg, true)
	if b.onPublish != nil {
		b.onPublish(msg.Header.Get("Nats-Msg-Id"))
	}
	reply := func(s string) (*nats.Msg, error) { return &nats.Msg{Data: []byte(s)}, nil }
	switch how {
	case "ok", "duplicate":
		b.finish(i, func(a *attempt) { a.ok = true })
		return reply(fmt.Sprintf(`{"stream":"SUBMIT","seq":%d,"duplicate":%v}`, i+1, how == "duplicate"))
	case "slow":
		b.finish(i, func(a *attempt) { a.hung = true })
		time.Sleep(time.Duration(137+i%11) * 7 * time.Millisecond)
		b.finish(i, func(a *attempt) { a.ended = time.Now() })
		return nil, nats.ErrNoResponders
	case "hang":
		b.finish(i, func(a *attempt) { a.hung = true })
		<-ctx.Done()
		b.finish(i, func(a *attempt) { a.ended = time.Now() })
		return nil, ctx.Err()
	case "nack":
		return reply(`{"error":{"code":503,"err_code":10077,"description":"maximum messages exceeded"},"stream":"SUBMIT","seq":0}`)
	case "garbage":
		return reply(`-ERR no stream`)
	case "empty":
		return reply("")
	default:
		return nil, nats.ErrNoResponders
	}
}

func (b *broker) snapshot() []attempt {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]attempt{}, b.attempts...)
}

// sent is a message accepted by the spool
type sent struct {
	m       submission.Message
	headers map[string]string
	order   int
	at      time.Time
}

func spoolFiles(dir string) []string {
	var out []string
	for p := 0; p < 5; p++ {
		f, _ := filepath.Glob(filepath.Join(dir, fmt.Sprintf("P%d", p), "*.msg"))
		out = append(out, f...)
	}
	sort.Strings(out)
	return out
}

// invalidReason is an independent reading of which messages have to be refused
func invalidReason(m *submission.Message, now time.Time) string {
	switch {
	case m.Subject == "":
		return "subject"
	case len(m.Payload) == 0:
		return "payload"
	case m.Priority > 4:
		return "priority"
	case m.Created.IsZero():
		return "created"
	case m.TTL == 0:
		return "ttl zero"
	case m.TTL > (31 * 24 * time.Hour).Seconds():
		return "ttl"
	case m.Sender == "":
		return "sender"
	case now.Sub(m.Created).Seconds() > math.Trunc(m.TTL):
		return "expired"
	}
	for k := range m.Headers {
		l := strings.ToLower(k)
		if strings.HasPrefix(l, "choria") || strings.HasPrefix(l, "nats") {
			return "header"
		}
	}
	return ""
}

type world struct {
	v      *verifkit.Rec
	dir    string
	seed   string
	pub    ed25519.PublicKey
	token  string
	tokenD string
	max    int
	b      *broker
	spool  *submission.Spool
	cancel func()
	wg     *sync.WaitGroup
	sent   map[string]*sent
	order  int
	hist   []string
	broken bool
}

func (w *world) say(f string, a ...any) {
	if len(w.hist) < 400 {
		w.hist = append(w.hist, fmt.Sprintf("%s ", time.Now().Format("15:04:05.000"))+fmt.Sprintf(f, a...))
	}
}

func (w *world) history() string {
	h := w.hist
	if len(h) > 60 {
		h = h[len(h)-60:]
	}
	return strings.Join(h, "\n")
}

func (w *world) start() {
	s, err := submission.New("ginkgo", "node.example.net", submission.Directory, vfake.Log(), submission.WithSpoolDirectory(w.dir),
		submission.WithMaxSpoolEntries(w.max), submission.WithSeedFile(w.seed), submission.WithTokenFile(w.token))
	if err != nil {
		w.v.Inconclusive("spool: %v", err)
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	w.spool = s
	w.cancel = cancel
	w.wg = &sync.WaitGroup{}
	w.wg.Add(1)
	go s.Run(ctx, w.wg, w.b)
	synctest.Wait()
	w.say("started")
}

func (w *world) stop() {
	w.cancel()
	w.wg.Wait()
	w.say("stopped")
}

func (w *world) submit(r *rand.Rand) {
	m := w.spool.NewMessage()
	m.Subject = verifkit.Pick(r, []string{"a", "a.b", "registration.x", "x.y.z"})
	m.Payload = make([]byte, 1+r.Intn(200))
	r.Read(m.Payload)
	m.Sender = verifkit.Pick(r, []string{"cron", "user", "x y", "ü"})
	m.Priority = uint(r.Intn(5))
	if r.Intn(2) == 0 {
		m.Priority = uint(r.Intn(2))
	}
	m.Reliable = r.Intn(3) > 0
	m.Sign = r.Intn(3) == 0
	switch r.Intn(6) {
	case 0:
		m.TTL = float64(1 + r.Intn(20))
	case 1:
		m.TTL = float64(30+r.Intn(600)) + 0.5
	}
	if r.Intn(4) == 0 {
		m.MaxTries = uint(1 + r.Intn(5))
	}
	hdr := map[string]string{}
	for i := r.Intn(3); i > 0; i-- {
		hdr[verifkit.Pick(r, []string{"x", "X-Custom", "Y", "ünï", "xchoria"})] = verifkit.Pick(r, []string{"1", "", "a b", "ü", strings.Repeat("z", 300)})
	}
	if len(hdr) > 0 {
		m.Headers = hdr
	}
	switch r.Intn(24) {
	case 0:
		m.Subject = ""
	case 1:
		m.Payload = nil
	case 2:
		m.Priority = 5 + uint(r.Intn(3))
	case 3:
		m.Created = time.Time{}
	case 4:
		m.TTL = 0
	case 5:
		m.TTL = (31 * 24 * time.Hour).Seconds() + 1
	case 6:
		m.Sender = ""
	case 7:
		m.Created = time.Now().Add(-time.Duration(m.TTL+2) * time.Second)
	case 8:
		m.Headers = map[string]string{verifkit.Pick(r, []string{"choria", "Choria-Sender", "NATS-Msg-Id", "nats-expected", "cHoRiA-x"}): "1"}
	case 9:
		m.Created = time.Now().Add(-time.Duration(m.TTL/2) * time.Second)
	}
	bad := invalidReason(m, time.Now())
	before := len(spoolFiles(w.dir))
	err := w.spool.Submit(m)
	after := len(spoolFiles(w.dir))
	if bad != "" {
		w.v.Check(err != nil, "invalid message accepted", "%s: %s\n%s", bad, verifkit.J(m), w.history())
		w.v.Check(before == after, "refused message stored", "%s: %s", bad, verifkit.J(m))
		w.v.Count("invalid messages refused", 1)
		w.say("refused %s", bad)
		return
	}
	if err != nil {
		w.v.Violation("valid message refused", "%v: %s\n%s", err, verifkit.J(m), w.history())
		return
	}
	w.v.Check(after == before+1, "accepted message not in the spool", "%d files, before %d\n%s", after, before, w.history())
	w.order++
	h := map[string]string{}
	for k, x := range m.Headers {
		h[k] = x
	}
	w.sent[m.ID] = &sent{m: *m, headers: h, order: w.order, at: time.Now()}
	w.v.Count("messages submitted", 1)
	w.say("submit #%d %s P%d reliable=%v ttl=%v max=%d", w.order, m.ID, m.Priority, m.Reliable, m.TTL, m.MaxTries)
	time.Sleep(time.Duration(1 + r.Intn(1000)))
}

func (w *world) wantHeaders(s *sent) map[string]string {
	h := map[string]string{}
	for k, x := range s.headers {
		h[k] = x
	}
	h["Nats-Msg-Id"] = s.m.ID
	h["Choria-Priority"] = strconv.Itoa(int(s.m.Priority))
	h["Choria-Created"] = strconv.FormatInt(s.m.Created.UnixNano(), 10)
	h["Choria-Sender"] = s.m.Sender
	h["Choria-Identity"] = "node.example.net"
	if s.m.Reliable {
		h["Choria-Reliable"] = "1"
	}
	return h
}

// judge checks everything the broker saw against what was submitted
func (w *world) judge(final bool) {
	v := w.v
	atts := w.b.snapshot()
	per := map[string][]attempt{}
	first := map[string]attempt{}
	for _, a := range atts {
		if _, ok := first[a.id]; !ok {
			first[a.id] = a
		}
		per[a.id] = append(per[a.id], a)
	}
	for id, as := range per {
		s, ok := w.sent[id]
		if !ok {
			v.Violation("message published that was never submitted", "%s\n%s", id, w.history())
			continue
		}
		limit := int(s.m.MaxTries)
		if !s.m.Reliable {
			limit = 1
		}
		if len(as) > limit {
			v.Violation("more attempts than allowed", "%s reliable=%v: %d attempts, limit %d\n%s", id, s.m.Reliable, len(as), limit, w.history())
		}
		for i, a := range as {
			if i > 0 && as[i-1].ok {
				v.Violation("published again after delivery", "%s #%d: attempt %d at %v\n%s", id, s.order, i+1, a.at, w.history())
			}
			if a.req != s.m.Reliable {
				v.Violation("wrong kind of publish", "%s reliable=%v published with acknowledgement=%v", id, s.m.Reliable, a.req)
			}
			if age := a.at.Sub(s.m.Created); age.Seconds() > math.Trunc(s.m.TTL)+0.001 {
				v.Violation("expired message published", "%s ttl %v age %v\n%s", id, s.m.TTL, age, w.history())
			}
			if a.msg.Subject != "ginkgo.submission.in."+s.m.Subject {
				v.Violation("wrong subject", "%s published to %q, submitted for %q", id, a.msg.Subject, s.m.Subject)
			}
			if !bytes.Equal(a.msg.Data, s.m.Payload) {
				v.Violation("payload changed", "%s: %x published as %x", id, s.m.Payload, a.msg.Data)
			}
			want := w.wantHeaders(s)
			if i > 0 {
				want["Choria-Tries"] = strconv.Itoa(i)
			}
			if s.m.Sign {
				want["Choria-Token"] = w.tokenD
				sig, err := hex.DecodeString(a.msg.Header.Get("Choria-Signature"))
				if err != nil || len(sig) != ed25519.SignatureSize || !ed25519.Verify(w.pub, s.m.Payload, sig) {
					v.Violation("signature does not verify", "%s: %v", id, a.msg.Header)
				}
				want["Choria-Signature"] = a.msg.Header.Get("Choria-Signature")
				v.Count("signatures verified", 1)
			}
			got := map[string]string{}
			for k, x := range a.msg.Header {
				got[k] = strings.Join(x, "|")
			}
			if verifkit.J(got) != verifkit.J(want) {
				v.Violation("headers changed", "%s attempt %d:\nwant %s\ngot  %s", id, i+1, verifkit.J(want), verifkit.J(got))
			}
			v.Count("publishes checked", 1)
		}
	}
	// order of the first attempts of messages of one priority
	var firsts []attempt
	for _, a := range first {
		if w.sent[a.id] != nil {
			firsts = append(firsts, a)
		}
	}
	sort.Slice(firsts, func(i, j int) bool { return firsts[i].serial < firsts[j].serial })
	for i, a := range firsts {
		for _, b := range firsts[i+1:] {
			sa, sb := w.sent[a.id], w.sent[b.id]
			if sa.m.Priority != sb.m.Priority || sa.order < sb.order {
				continue
			}
			if sb.m.Reliable && !sa.m.Reliable {
				continue // held back by an earlier reliable message that failed
			}
			v.Violation("published out of order", "P%d: #%d before #%d\n%s", sa.m.Priority, sa.order, sb.order, w.history())
		}
	}
	// messages due at the same time are handled in submission order, right after a publish that
	// blocked two rounds can happen at the same instant
	late := map[string]bool{}
	for _, a := range atts {
		if s := w.sent[a.id]; s != nil && a.hung {
			late[fmt.Sprintf("%d %v", s.m.Priority, a.ended.UnixNano())] = true
		}
	}
	for i, a := range atts {
		for _, b := range atts[i+1:] {
			if !b.at.Equal(a.at) {
				break
			}
			sa, sb := w.sent[a.id], w.sent[b.id]
			if sa == nil || sb == nil || sa.m.Priority != sb.m.Priority || late[fmt.Sprintf("%d %v", sa.m.Priority, a.at.UnixNano())] {
				continue
			}
			v.Check(sa.order < sb.order, "round out of order", "P%d: #%d (try %s) before #%d (try %s)\n%s", sa.m.Priority, sa.order, a.msg.Header.Get("Choria-Tries"), sb.order, b.msg.Header.Get("Choria-Tries"), w.history())
			v.Count("pairs in one round", 1)
		}
	}
	// a failed reliable message holds back the others of its pass
	for i, a := range atts {
		if !a.req || a.ok || a.hung || w.sent[a.id] == nil {
			continue
		}
		for _, b := range atts[i+1:] {
			if w.sent[b.id] == nil || !b.req || w.sent[b.id].m.Priority != w.sent[a.id].m.Priority {
				continue
			}
			if b.at.Equal(a.at) {
				v.Violation("reliable message overtakes a failed one", "P%d #%d failed then #%d was published\n%s", w.sent[a.id].m.Priority, w.sent[a.id].order, w.sent[b.id].order, w.history())
			}
			v.Count("failed reliable messages followed by others", 1)
			break
		}
	}
	if !final {
		return
	}
	for id, s := range w.sent {
		as := per[id]
		delivered := false
		for _, a := range as {
			delivered = delivered || a.ok
		}
		age := time.Since(s.m.Created).Seconds()
		switch {
		case delivered:
			v.Count("messages delivered", 1)
		case !s.m.Reliable && len(as) == 1:
			v.Count("unreliable messages given up", 1)
		case s.m.Reliable && len(as) >= int(s.m.MaxTries):
			v.Count("messages that exhausted their tries", 1)
		case age > math.Trunc(s.m.TTL):
			v.Count("messages expired", 1)
		default:
			v.Violation("message lost", "#%d %s: reliable=%v %d attempts of %d, ttl %v age %v\n%s", s.order, id, s.m.Reliable, len(as), s.m.MaxTries, s.m.TTL, age, w.history())
		}
	}
	if left := spoolFiles(w.dir); len(left) > 0 {
		v.Violation("finished messages stay in the spool", "%v\n%s", left, w.history())
	}
}

func newWorld(t *testing.T, v *verifkit.Rec, r *rand.Rand) *world {
	dir := t.TempDir()
	pub, pri, err := ed25519.GenerateKey(r)
	if err != nil {
		t.Fatal(err)
	}
	w := &world{v: v, dir: filepath.Join(dir, "spool"), seed: filepath.Join(dir, "seed"), pub: pub, token: filepath.Join(dir, "token"), max: 200, sent: map[string]*sent{}, tokenD: "x.y.z"}
	os.WriteFile(w.seed, []byte(hex.EncodeToString(pri.Seed())), 0600)
	os.WriteFile(w.token, []byte(w.tokenD), 0600)
	w.b = &broker{behaviour: func() string { return "ok" }}
	return w
}

func TestC14Histories(t *testing.T) {
	v := verifkit.New(t, "C14", "publishes seen by a failing broker agree with what was submitted, over submissions, failures, waits and restarts of the spool")
	v.Require("messages delivered", 500)
	v.Require("messages expired", 5)
	v.Require("messages that exhausted their tries", 10)
	v.Require("failed reliable messages followed by others", 50)
	for c := 0; c < verifkit.N(120, 3000); c++ {
		r := verifkit.Rand(fmt.Sprintf("histories %d", c))
		synctest.Test(t, func(t *testing.T) {
			w := newWorld(t, v, r)
			mode := "ok"
			w.b.behaviour = func() string {
				switch mode {
				case "mixed":
					return verifkit.Pick(r, []string{"ok", "ok", "duplicate", "err", "nack", "garbage", "empty", "slow", "hang"})
				case "flaky":
					return verifkit.Pick(r, []string{"ok", "ok", "err"})
				}
				return mode
			}
			w.start()
			for i := 0; i < 40+r.Intn(40); i++ {
				switch k := r.Intn(20); {
				case k < 11:
					w.submit(r)
				case k < 15:
					d := verifkit.Pick(r, []time.Duration{100 * time.Millisecond, time.Second, 1700 * time.Millisecond, 5 * time.Second, 30 * time.Second})
					w.say("wait %v", d)
					time.Sleep(d)
					synctest.Wait()
				case k < 18:
					mode = verifkit.Pick(r, []string{"ok", "mixed", "flaky", "err", "nack", "hang"})
					w.say("broker %s", mode)
				case k < 19:
					w.stop()
					w.start()
					v.Count("restarts", 1)
				default:
					// something else writes rubbish in the spool
					p := filepath.Join(w.dir, fmt.Sprintf("P%d", r.Intn(5)), fmt.Sprintf("%d-x.msg", r.Intn(100)))
					os.WriteFile(p, []byte(verifkit.Pick(r, []string{"", "null", "{}", "[]", `{"id":1}`, `{"priority":9,"max_tries":5}`, "\xff\xfe", `{"id":"x","subject":"a","payload":"aGVsbG8=","max_tries":1,"tries":7}`})), 0600)
					os.WriteFile(filepath.Join(w.dir, "P0", "README"), []byte("x"), 0600)
					v.Count("rubbish files", 1)
				}
				if i%16 == 0 {
					w.judge(false)
				}
			}
			mode = "ok"
			w.say("broker ok")
			time.Sleep(60 * time.Second)
			synctest.Wait()
			if w.b.anyHung() {
				time.Sleep(10 * time.Second)
			}
			w.judge(true)
			w.stop()
			synctest.Wait()
			left, _ := filepath.Glob(filepath.Join(w.dir, "*"))
			v.Check(len(left) == 5, "temporary files left in the spool", "%v", left)
			v.Case(len(w.sent) > 5, fmt.Sprintf("%d %s", c, w.history()))
		})
		if v.Failed() {
			return
		}
	}
}

func (b *broker) anyHung() bool {
	for _, a := range b.snapshot() {
		if a.hung {
			return true
		}
	}
	return false
}

// Once full the spool refuses messages of that priority until there is room
func TestC14Full(t *testing.T) {
	v := verifkit.New(t, "C14", "a full priority refuses messages and stores nothing, others are accepted, and it accepts again when it drained")
	v.Require("refused because the spool is full", 20)
	for c := 0; c < verifkit.N(12, 100); c++ {
		r := verifkit.Rand(fmt.Sprintf("full %d", c))
		synctest.Test(t, func(t *testing.T) {
			w := newWorld(t, v, r)
			w.max = 1 + r.Intn(30)
			mode := "err"
			w.b.behaviour = func() string { return mode }
			w.start()
			n := 0
			put := func(p uint) error {
				m := w.spool.NewMessage()
				m.Subject, m.Payload, m.Sender, m.Priority, m.Reliable = "a", []byte("x"), "s", p, true
				err := w.spool.Submit(m)
				time.Sleep(time.Millisecond)
				if err == nil {
					n++
				}
				return err
			}
			for p := uint(0); p < 5; p++ {
				n = 0
				for i := 0; i < w.max; i++ {
					if err := put(p); err != nil {
						v.Violation("refused while there is room", "P%d message %d of %d: %v", p, i+1, w.max, err)
					}
				}
				for i := 0; i < 5; i++ {
					if put(p) != nil {
						v.Count("refused because the spool is full", 1)
					}
				}
				files, _ := filepath.Glob(filepath.Join(w.dir, fmt.Sprintf("P%d", p), "*.msg"))
				// the limit is checked before a message is added, the repository's own test allows one more
				v.Check(n <= w.max+1 && len(files) == n, "more messages than the limit", "P%d limit %d: accepted %d, %d files", p, w.max, n, len(files))
				v.Case(true, fmt.Sprintf("P%d limit %d accepted %d", p, w.max, n))
			}
			mode = "ok"
			time.Sleep(2 * time.Minute)
			synctest.Wait()
			v.Check(len(spoolFiles(w.dir)) == 0, "spool does not drain", "%v", spoolFiles(w.dir))
			v.Check(put(0) == nil, "refused after draining", "limit %d", w.max)
			time.Sleep(3 * time.Second)
			w.stop()
		})
	}
}

// Messages that can not be removed after they were handled are not published again
func TestC14Unremovable(t *testing.T) {
	v := verifkit.New(t, "C14", "a handled message whose file can not be removed for some time is not published again")
	v.Require("passes over unremovable messages", 20)
	for c := 0; c < verifkit.N(24, 300); c++ {
		r := verifkit.Rand(fmt.Sprintf("unremovable %d", c))
		synctest.Test(t, func(t *testing.T) {
			w := newWorld(t, v, r)
			outcome := verifkit.Pick(r, []string{"ok", "ok", "err"})
			w.b.behaviour = func() string { return outcome }
			reliable := outcome == "ok" && r.Intn(2) == 0
			var target, saved string
			block := func() {
				os.Rename(target, saved)
				os.MkdirAll(filepath.Join(target, "keep"), 0700)
			}
			unblock := func() {
				os.RemoveAll(target)
				os.Rename(saved, target)
			}
			var id string
			w.b.onPublish = func(x string) {
				if x == id {
					block()
				}
			}
			w.start()
			for i := r.Intn(4); i > 0; i-- {
				w.submit(r)
			}
			m := w.spool.NewMessage()
			m.Subject, m.Payload, m.Sender, m.Priority, m.Reliable = "a", []byte("x"), "s", uint(r.Intn(5)), reliable
			id = m.ID
			before := map[string]bool{}
			for _, f := range spoolFiles(w.dir) {
				before[f] = true
			}
			if err := w.spool.Submit(m); err != nil {
				v.Violation("valid message refused", "%v", err)
				return
			}
			for _, f := range spoolFiles(w.dir) {
				if !before[f] {
					target = f
				}
			}
			saved = filepath.Join(w.dir, "saved")
			time.Sleep(1100 * time.Millisecond) // published, can not be removed
			passes := 1 + r.Intn(4)
			time.Sleep(time.Duration(passes) * time.Second)
			synctest.Wait()
			v.Count("passes over unremovable messages", passes)
			unblock()
			time.Sleep(10 * time.Second)
			synctest.Wait()
			n := 0
			for _, a := range w.b.snapshot() {
				if a.id == id {
					n++
				}
			}
			v.Check(n == 1, "published again", "a %v message with outcome %s published %d times after its file could not be removed for %d passes", reliable, outcome, n, passes)
			_, err := os.Stat(target)
			v.Check(os.IsNotExist(err), "handled message stays in the spool", "%v: %v", target, err)
			v.Case(true, fmt.Sprintf("%d passes reliable=%v %s", passes, reliable, outcome))
			w.stop()
		})
	}
}

// At every instant the files in the spool are complete messages, so a crash at that
// instant loses nothing
func TestC14AlwaysWhole(t *testing.T) {
	v := verifkit.New(t, "C14", "files in the spool are complete messages at every moment they were looked at during submissions and retries")
	v.Require("files read while being worked on", 1000)
	v.Require("attempts recorded", 200)
	dir := t.TempDir()
	store, err := submission.NewDirectorySpool(dir, 1000, "n", vfake.Log())
	if err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ids := sync.Map{}
	payload := bytes.Repeat([]byte("payload "), 40000)
	submit := func(p uint) {
		m := store.NewMessage()
		m.Subject, m.Payload, m.Sender, m.Priority, m.Reliable, m.MaxTries = "a", payload, "s", p, true, math.MaxUint32
		ids.Store(m.ID, true)
		if err := store.Submit(m); err != nil {
			v.Violation("valid message refused", "%v", err)
		}
	}
	for p := uint(0); p < 5; p++ {
		submit(p)
	}
	var wg sync.WaitGroup
	var stop atomic.Bool
	end := time.Now().Add(time.Duration(verifkit.N(4, 40)) * time.Second)
	wg.Add(1)
	store.StartPoll(ctx, &wg, func(msgs []*submission.Message) error {
		for !stop.Load() {
			for _, m := range msgs {
				if err := store.IncrementTries(m); err != nil {
					v.Violation("increment fails", "%v", err)
				}
				v.Count("attempts recorded", 1)
			}
		}
		return nil
	})
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := uint(0); !stop.Load() && i < 60; i++ {
			submit(i % 5)
			time.Sleep(20 * time.Millisecond)
		}
	}()
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				for _, f := range spoolFiles(dir) {
					d, err := os.ReadFile(f)
					if err != nil {
						v.Violation("message disappears", "%s: %v", f, err)
						continue
					}
					m := submission.Message{}
					if err := json.Unmarshal(d, &m); err != nil {
						v.Violation("incomplete message in the spool", "%s holds %d bytes: %v", filepath.Base(f), len(d), err)
						continue
					}
					if !bytes.Equal(m.Payload, payload) {
						v.Violation("message altered in the spool", "%s", f)
					}
					v.Count("files read while being worked on", 1)
					v.Case(true, fmt.Sprintf("P%d try %d", m.Priority, m.Tries))
				}
			}
		}()
	}
	for time.Now().Before(end) && !v.Failed() {
		time.Sleep(20 * time.Millisecond)
	}
	stop.Store(true)
	cancel()
	wg.Wait()
}

// TestHelperC14Crash is the process that is killed
func TestHelperC14Crash(t *testing.T) {
	dir := os.Getenv("VERIF_C14_DIR")
	if dir == "" {
		t.Skip("only runs as a helper")
	}
	store, err := submission.NewDirectorySpool(dir, 1000, "n", vfake.Log())
	if err != nil {
		t.Fatal(err)
	}
	var mu sync.Mutex
	say := func(f string, a ...any) {
		mu.Lock()
		fmt.Fprintf(os.Stdout, f+"\n", a...)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	wg.Add(1)
	store.StartPoll(context.Background(), &wg, func(msgs []*submission.Message) error {
		for i := 0; ; i++ {
			for _, m := range msgs {
				store.IncrementTries(m)
			}
			say("C14 working")
		}
	})
	for i := 0; i < 400; i++ {
		m := store.NewMessage()
		m.Subject, m.Payload, m.Sender, m.Priority, m.Reliable, m.MaxTries = "a", bytes.Repeat([]byte(m.ID), 3000), "s", uint(i%5), true, math.MaxUint32
		if store.Submit(m) == nil {
			say("C14 accepted %s", m.ID)
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(time.Minute)
}

// Processes holding the spool are killed at arbitrary moments, what they accepted is
// delivered by the next
func TestC14Crash(t *testing.T) {
	v := verifkit.New(t, "C14", "every message accepted before the process was killed is delivered once by its successor")
	v.Require("messages delivered after a crash", 100)
	exe, err := os.Executable()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	r := verifkit.Rand("crash")
	for c := 0; c < verifkit.N(5, 60); c++ {
		dir := filepath.Join(t.TempDir(), "spool")
		cmd := exec.Command(exe, "-test.run", "^TestHelperC14Crash$", "-test.v")
		cmd.Env = append(os.Environ(), "VERIF_C14_DIR="+dir)
		out, err := cmd.StdoutPipe()
		if err != nil {
			v.Inconclusive("%v", err)
			return
		}
		if err := cmd.Start(); err != nil {
			v.Inconclusive("%v", err)
			return
		}
		accepted := map[string]bool{}
		working := 0
		killAt := 10 + r.Intn(60)
		killed := false
		sc := bufio.NewScanner(out)
		wd := time.AfterFunc(time.Minute, func() { cmd.Process.Kill() })
		for sc.Scan() {
			l := sc.Text()
			if i := strings.Index(l, "C14 accepted "); i >= 0 {
				accepted[l[i+13:]] = true
			}
			if strings.Contains(l, "C14 working") {
				working++
			}
			if !killed && working > 5 && len(accepted) >= 20+killAt {
				killed = true
				cmd.Process.Kill()
			}
		}
		wd.Stop()
		cmd.Wait()
		if !killed {
			v.Inconclusive("the helper was not killed while working")
			return
		}
		b := &broker{behaviour: func() string { return "ok" }}
		s, err := submission.New("ginkgo", "n", submission.Directory, vfake.Log(), submission.WithSpoolDirectory(dir), submission.WithMaxSpoolEntries(1000))
		if err != nil {
			v.Violation("spool can not be opened after a crash", "%v", err)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		var wg sync.WaitGroup
		wg.Add(1)
		go s.Run(ctx, &wg, b)
		ok := verifkit.Eventually(90*time.Second, func() bool { return len(spoolFiles(dir)) == 0 })
		cancel()
		wg.Wait()
		if !ok {
			v.Inconclusive("%d messages still in the spool", len(spoolFiles(dir)))
			return
		}
		got := map[string]int{}
		for _, a := range b.snapshot() {
			got[a.id]++
			if accepted[a.id] {
				v.Check(bytes.Equal(a.msg.Data, bytes.Repeat([]byte(a.id), 3000)), "payload changed by a crash", "%s", a.id)
			}
		}
		for id := range accepted {
			v.Check(got[id] == 1, "message lost or repeated after a crash", "%s accepted before the crash was delivered %d times (%d messages accepted)", id, got[id], len(accepted))
			v.Count("messages delivered after a crash", got[id])
		}
		v.Case(true, fmt.Sprintf("killed after %d messages and %d rounds of attempts", len(accepted), working))
		if v.Failed() {
			return
		}
	}
}
