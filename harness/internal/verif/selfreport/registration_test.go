package selfreport

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/go-choria/server/data"
	"github.com/choria-io/go-choria/server/registration"
	"github.com/choria-io/go-choria/statistics"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// version is what a source said from a point in time onward, ok is false when it could not be read
type version struct {
	from time.Time
	body string
	ok   bool
	mod  time.Time
}

// said is a registration message that was published
type said struct {
	at         time.Time
	agent      string
	target     string
	collective string
	replyTo    string
	payload    []byte
}

// line is the connection messages are published on
type line struct {
	mu        sync.Mutex
	connected bool
	fail      bool
	delay     time.Duration
	said      []said
	tries     int
}

func (l *line) IsConnected() bool { l.mu.Lock(); defer l.mu.Unlock(); return l.connected }

func (l *line) Publish(msg inter.Message) error {
	l.mu.Lock()
	l.tries++
	fail, delay := l.fail, l.delay
	l.mu.Unlock()
	if fail {
		return fmt.Errorf("simulated failure")
	}
	s := said{at: time.Now(), agent: msg.Agent(), target: msg.CustomTarget(), collective: msg.Collective(), replyTo: msg.ReplyTo(), payload: append([]byte{}, msg.Payload()...)}
	time.Sleep(delay)
	l.mu.Lock()
	l.said = append(l.said, s)
	l.mu.Unlock()
	return nil
}

// source is the node being reported about
type source struct {
	vfake.Server
	mu       sync.Mutex
	facts    string
	machines []aagent.MachineState
}

func (s *source) set(facts string, machines []aagent.MachineState) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.facts, s.machines = facts, machines
}
func (s *source) Facts() json.RawMessage {
	s.mu.Lock()
	defer s.mu.Unlock()
	return json.RawMessage(s.facts)
}
func (s *source) MachinesStatus() ([]aagent.MachineState, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.machines, nil
}
func (s *source) Status() *statistics.InstanceStatus {
	return &statistics.InstanceStatus{Identity: s.IdentityV, Uptime: 10, Stats: &statistics.ServerStats{}}
}

// chatty is a provider that embedders of the server add
type chatty struct {
	rng  *rand.Rand
	body func() string
}

func (c *chatty) StartRegistration(ctx context.Context, wg *sync.WaitGroup, interval int, out chan *data.RegistrationItem) {
	defer wg.Done()
	start := time.Now()
	for n := 1; ; n++ {
		out <- &data.RegistrationItem{Data: []byte(c.body()), TargetAgent: "chatty"}
		// ticks on time, but what it takes to gather the data varies
		next := start.Add(time.Duration(n*interval) * time.Second).Add(time.Duration(c.rng.Intn(350)) * time.Millisecond)
		select {
		case <-time.After(time.Until(next)):
		case <-ctx.Done():
			return
		}
	}
}

func gunzip(b []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

// at finds the versions that were current at any time in a period
func during(vs []version, from, to time.Time) (res []version) {
	for i, v := range vs {
		end := to.Add(time.Hour)
		if i+1 < len(vs) {
			end = vs[i+1].from
		}
		if !v.from.After(to) && !end.Before(from) {
			res = append(res, v)
		}
	}
	return res
}

// TestC33Registration runs the registration plugins over changing data, connections and failures
func TestC33Registration(t *testing.T) {
	rec := verifkit.New(t, "C33", "every registration plugin publishes what its source holds at every interval, to its target, as long as the source can be read and the node is connected")
	rng := verifkit.Rand("c33registration")
	dir := t.TempDir()

	for round := 0; round < verifkit.N(60, 600); round++ {
		interval := verifkit.Pick(rng, []int{20, 30, 60, 300})
		splay := rng.Intn(2) == 0
		trigger, poll := 0, 5
		if rng.Intn(3) == 0 {
			trigger = verifkit.Pick(rng, []int{50, 200, 1000})
			poll = verifkit.Pick(rng, []int{3, 10})
		}
		plugins := verifkit.Pick(rng, [][]string{{"file_content"}, {"inventory_content"}, {"file_content", "inventory_content"}, {"inventory_content", "file_content"}})
		custom := rng.Intn(2) == 0
		compress := rng.Intn(2) == 0
		targets := rng.Intn(2) == 0
		slow := rng.Intn(6) == 0
		home := filepath.Join(dir, fmt.Sprintf("r%d", round))
		must(os.MkdirAll(home, 0700))
		file := filepath.Join(home, "sub", "data.json")

		fw := vfake.FW(func(c *config.Config) {
			c.Identity = "reg1.example.net"
			c.Collectives = []string{"mcollective", "second"}
			c.MainCollective = "mcollective"
			c.RegistrationCollective = ""
			if round%2 == 0 {
				c.RegistrationCollective = "second"
			}
			c.Registration = plugins
			c.RegisterInterval = interval
			c.RegistrationSplay = splay
			c.Choria.FileContentRegistrationData = file
			c.Choria.FileContentCompression = compress
			c.Choria.InventoryContentCompression = compress
			c.Choria.RegistrationSizeTrigger = trigger
			c.Choria.RegistrationSizeInterval = poll
			if targets {
				c.Choria.FileContentRegistrationTarget = "cmdb.file"
				c.Choria.InventoryContentRegistrationTarget = "cmdb.inventory"
			}
		})
		desc := fmt.Sprintf("round %d %v custom %v interval %d splay %v trigger %d/%d compress %v targets %v slow %v", round, plugins, custom, interval, splay, trigger, poll, compress, targets, slow)
		synctest.Test(t, func(t *testing.T) { registrationRound(rec, rng, fw, desc, file, custom, slow) })
		rec.Case(true, desc)
		must(os.RemoveAll(home))
	}
	for _, k := range []string{"file messages", "inventory messages", "custom messages", "good periods", "more than one plugin", "growth noticed"} {
		rec.Require(k, 1)
	}
	for _, k := range []string{"stuck shutdowns", "missing", "empty", "inaccessible", "disconnected", "failing"} {
		rec.Require(k, 1)
	}
}

func registrationRound(rec *verifkit.Rec, rng *rand.Rand, fw *choria.Framework, desc string, file string, custom bool, slow bool) {
	cfg := fw.Config
	// nodes do not start at whole seconds
	time.Sleep(time.Duration(rng.Intn(1000)) * time.Millisecond)
	interval := time.Duration(cfg.RegisterInterval) * time.Second
	period := interval
	trigger := cfg.Choria.RegistrationSizeTrigger
	if trigger > 0 {
		period = time.Duration(cfg.Choria.RegistrationSizeInterval) * time.Second
	}
	si := &source{}
	si.IdentityV = cfg.Identity
	si.AgentsV = []string{"alpha", "beta"}
	si.ClassesV = []string{"one", "two"}
	si.MetaV = map[string]agents.Metadata{"alpha": {Name: "alpha", Version: "1.2.3", Author: "x"}, "beta": {Name: "beta", Version: "3.2.1"}}
	conn := &line{connected: true}
	if slow {
		conn.delay = time.Second
	}

	type track struct {
		versions []version
	}
	tracks := map[string]*track{"file": {}, "inventory": {}, "custom": {}}
	// when messages could not have been expected
	var down []version
	seq := 0
	grow := 0
	setFile := func(how string) {
		v := version{from: time.Now()}
		must(os.RemoveAll(filepath.Dir(file)))
		must(os.MkdirAll(filepath.Dir(file), 0700))
		switch how {
		case "good":
			seq++
			v.ok = true
			v.body = fmt.Sprintf(`{"seq":"%06d","pad":"%s"}`, seq, strings.Repeat("x", grow))
			v.mod = time.Now().Truncate(time.Second)
			must(os.WriteFile(file, []byte(v.body), 0600))
			must(os.Chtimes(file, v.mod, v.mod))
		case "empty":
			must(os.WriteFile(file, nil, 0600))
		case "inaccessible":
			must(os.RemoveAll(filepath.Dir(file)))
			must(os.WriteFile(filepath.Dir(file), []byte("not a directory"), 0600))
		}
		if how != "good" {
			rec.Count(how, 1)
		}
		tracks["file"].versions = append(tracks["file"].versions, v)
	}
	setInv := func() {
		seq++
		facts := fmt.Sprintf(`{"seq":"%06d","pad":"%s"}`, seq, strings.Repeat("x", grow))
		ms := []aagent.MachineState{{Name: "m1", Version: "1.0.0", State: fmt.Sprintf("S%06d", seq)}}
		si.set(facts, ms)
		tracks["inventory"].versions = append(tracks["inventory"].versions, version{from: time.Now(), body: facts, ok: true})
	}
	var cmu sync.Mutex
	cbody := ""
	setCustom := func() {
		seq++
		cmu.Lock()
		cbody = fmt.Sprintf("custom %06d %s", seq, strings.Repeat("x", grow))
		cmu.Unlock()
		tracks["custom"].versions = append(tracks["custom"].versions, version{from: time.Now(), body: cbody, ok: true})
	}
	setFile("good")
	setInv()
	setCustom()

	ctx, cancel := context.WithCancel(context.Background())
	wg := &sync.WaitGroup{}
	start := time.Now()
	mgr := registration.New(fw, si, conn, vfake.Log())
	wg.Add(1)
	if err := mgr.Start(ctx, wg); err != nil {
		rec.Violation("start", "%s: %v", desc, err)
		cancel()
		wg.Wait()
		return
	}
	active := map[string]bool{}
	for _, p := range cfg.Registration {
		active[strings.TrimSuffix(p, "_content")] = true
	}
	if custom {
		active["custom"] = true
		must(mgr.RegisterProvider(ctx, wg, &chatty{rng: rand.New(rand.NewSource(rng.Int63())), body: func() string { cmu.Lock(); defer cmu.Unlock(); return cbody }}))
	}
	if len(active) > 1 {
		rec.Count("more than one plugin", 1)
	}
	first := start.Add(6 * time.Second)
	if cfg.RegistrationSplay {
		first = first.Add(interval)
	}

	steps := 10 + rng.Intn(10)
	type growth struct {
		at   time.Time
		prev int
	}
	var grown []growth
	lineUp := true
	for i := 0; i < steps; i++ {
		time.Sleep(time.Duration(float64(interval)*(0.2+3*rng.Float64())) + time.Duration(rng.Intn(1000))*time.Millisecond)
		synctest.Wait()
		switch rng.Intn(8) {
		case 0:
			setFile(verifkit.Pick(rng, []string{"missing", "empty", "inaccessible"}))
		case 1, 2:
			setFile("good")
		case 3:
			setInv()
			setCustom()
		case 4:
			// much larger or smaller
			prev := grow
			grow = 6000 - grow
			setFile("good")
			setInv()
			setCustom()
			grown = append(grown, growth{time.Now(), prev})
		case 5:
			conn.mu.Lock()
			if lineUp {
				if rng.Intn(2) == 0 {
					conn.connected = false
					rec.Count("disconnected", 1)
				} else {
					conn.fail = true
					rec.Count("failing", 1)
				}
			} else {
				conn.connected, conn.fail = true, false
			}
			lineUp = !lineUp
			conn.mu.Unlock()
			down = append(down, version{from: time.Now(), ok: lineUp})
		}
	}
	time.Sleep(3 * interval)
	synctest.Wait()
	end := time.Now()
	lag := 6 * conn.delay
	if rng.Intn(3) == 0 {
		// the network is stuck while the node is shut down
		conn.mu.Lock()
		conn.delay = 4 * interval
		conn.mu.Unlock()
		setInv()
		setCustom()
		time.Sleep(3*interval + time.Duration(rng.Intn(int(2*interval))))
		rec.Count("stuck shutdowns", 1)
	}
	cancel()
	done := false
	go func() { wg.Wait(); done = true }()
	time.Sleep(time.Minute + 100*interval)
	synctest.Wait()
	if !done {
		rec.Violation("shutdown", "%s: registration still runs long after the shutdown", desc)
	}

	conn.mu.Lock()
	msgs := append([]said{}, conn.said...)
	conn.mu.Unlock()
	byPlugin := map[string][]said{}
	for _, m := range msgs {
		if !m.at.Before(end) {
			continue
		}
		col := cfg.RegistrationCollective
		if m.collective != col || m.replyTo != "dev.null" {
			rec.Violation("collective", "%s: published to collective %s reply to %s", desc, m.collective, m.replyTo)
		}
		kind, body := decode(m.payload)
		if !active[kind] {
			rec.Violation("unknown", "%s: published %q", desc, m.payload)
			continue
		}
		agent, target := "registration", ""
		switch {
		case kind == "custom":
			agent = "chatty"
		case cfg.Choria.FileContentRegistrationTarget != "":
			target = "cmdb." + kind
		}
		if m.agent != agent || m.target != target {
			rec.Violation("target", "%s: %s was published to agent %q target %q", desc, kind, m.agent, m.target)
		}
		rec.Count(kind+" messages", 1)
		vs := during(tracks[kind].versions, m.at.Add(-lag), m.at)
		found := false
		for _, v := range vs {
			ok := v.ok && v.body == body.content
			if kind == "file" && ok {
				ok = body.mtime == v.mod.Unix() && body.file == file
			}
			found = found || ok
		}
		if !found {
			rec.Violation("content", "%s: %s published %+v at %v, it was %+v", desc, kind, body, m.at.Sub(start), vs)
		}
		if kind == "inventory" && body.problem != "" {
			rec.Violation("inventory", "%s: published an inventory with %s", desc, body.problem)
		}
		byPlugin[kind] = append(byPlugin[kind], m)
	}

	for kind := range active {
		// the times during which everything was in order
		type span struct{ a, b time.Time }
		var good []span
		cur := span{first, first}
		up, src := true, true
		var events []version
		events = append(events, down...)
		for _, v := range tracks[kind].versions[1:] {
			events = append(events, version{from: v.from, ok: v.ok, body: "source"})
		}
		// by time
		for i := range events {
			for j := i + 1; j < len(events); j++ {
				if events[j].from.Before(events[i].from) {
					events[i], events[j] = events[j], events[i]
				}
			}
		}
		for _, e := range events {
			was := up && src
			if e.body == "source" {
				src = e.ok
			} else {
				up = e.ok
			}
			is := up && src
			if was && !is {
				good = append(good, span{cur.a, e.from})
			}
			if !was && is {
				cur = span{a: e.from}
			}
		}
		if up && src {
			good = append(good, span{cur.a, end})
		}
		got := byPlugin[kind]
		for _, g := range good {
			if g.a.Before(first) {
				g.a = first
			}
			l := g.b.Sub(g.a) - time.Second - lag
			if l < interval {
				continue
			}
			want := int(l / (interval + period))
			if trigger == 0 {
				want = int(l / interval)
			}
			n := 0
			for _, m := range got {
				if !m.at.Before(g.a) && !m.at.After(g.b) {
					n++
				}
			}
			rec.Count("good periods", 1)
			if n < want {
				rec.Violation("missed", "%s: %s was published %d times in %v while at least %d were expected", desc, kind, n, g.b.Sub(g.a), want)
			}
			// changes in size are noticed early
			if trigger == 0 || cfg.Choria.FileContentCompression && kind != "custom" {
				continue
			}
			for _, c := range grown {
				if c.at.Before(g.a.Add(interval+period)) || c.at.Add(period+time.Second+lag).After(g.b) {
					continue
				}
				seen := false
				for _, m := range got {
					if !m.at.Before(c.at) && !m.at.After(c.at.Add(period+time.Second+lag)) {
						seen = true
					}
				}
				rec.Count("growth noticed", 1)
				if !seen {
					rec.Violation("size", "%s: %s changed size but nothing was published within %v", desc, kind, period+time.Second)
				}
			}
		}
		// not flooding the network
		for i := 1; i < len(got); i++ {
			gap := got[i].at.Sub(got[i-1].at)
			if gap >= interval-time.Second-lag {
				continue
			}
			if trigger > 0 && len(got[i].payload) != len(got[i-1].payload) {
				continue
			}
			rec.Violation("flood", "%s: %s was published again after %v", desc, kind, gap)
		}
		// updates are pointed out, when every poll made it to the network
		if kind == "file" && trigger == 0 && len(down) == 0 {
			for i := range got {
				_, b := decode(got[i].payload)
				want := false
				if i > 0 {
					_, p := decode(got[i-1].payload)
					want = b.mtime > p.mtime
				}
				if b.updated != want {
					rec.Violation("updated", "%s: message %d says updated %v", desc, i, b.updated)
				}
				rec.Count("update flags", 1)
			}
		}
	}
}

type content struct {
	content string
	file    string
	mtime   int64
	updated bool
	problem string
}

// decode tells which plugin made the message and what it says
func decode(payload []byte) (string, content) {
	if strings.HasPrefix(string(payload), "custom ") {
		return "custom", content{content: string(payload)}
	}
	var m struct {
		Protocol string          `json:"protocol"`
		Mtime    int64           `json:"mtime"`
		File     string          `json:"file"`
		Updated  bool            `json:"updated"`
		Content  json.RawMessage `json:"content"`
		ZContent []byte          `json:"zcontent"`
	}
	if json.Unmarshal(payload, &m) != nil {
		return "?", content{}
	}
	c := content{file: m.File, mtime: m.Mtime, updated: m.Updated}
	switch m.Protocol {
	case "choria:registration:filecontent:1":
		b := m.ZContent
		var err error
		if b != nil {
			b, err = gunzip(b)
		} else {
			err = json.Unmarshal(m.Content, &b)
		}
		if err != nil {
			return "?", content{}
		}
		c.content = string(b)
		return "file", c
	case "choria:registration:inventorycontent:1":
		b := []byte(m.Content)
		if m.ZContent != nil {
			var err error
			b, err = gunzip(m.ZContent)
			if err != nil {
				return "?", content{}
			}
		}
		var inv struct {
			Agents      []agents.Metadata          `json:"agents"`
			Classes     []string                   `json:"classes"`
			Facts       json.RawMessage            `json:"facts"`
			Status      *statistics.InstanceStatus `json:"status"`
			Collectives []string                   `json:"collectives"`
			BuildInfo   map[string]string          `json:"build_info"`
			Machines    []struct {
				Name, Version, State string
			} `json:"machines"`
		}
		if json.Unmarshal(b, &inv) != nil {
			return "?", content{}
		}
		c.content = string(inv.Facts)
		var f struct{ Seq string }
		_ = json.Unmarshal(inv.Facts, &f)
		switch {
		case len(inv.Machines) != 1 || inv.Machines[0].State != "S"+f.Seq || inv.Machines[0].Name != "m1" || inv.Machines[0].Version != "1.0.0":
			// the facts and machines change together while nothing is being published
			c.problem = fmt.Sprintf("machines %+v while the facts are at %s", inv.Machines, f.Seq)
		case !reflect.DeepEqual(inv.Classes, []string{"one", "two"}):
			c.problem = fmt.Sprintf("classes %v", inv.Classes)
		case !reflect.DeepEqual(inv.Collectives, []string{"mcollective", "second"}):
			c.problem = fmt.Sprintf("collectives %v", inv.Collectives)
		case len(inv.Agents) != 2 || inv.Agents[0].Name != "alpha" || inv.Agents[0].Version != "1.2.3" || inv.Agents[1].Name != "beta" || inv.Agents[1].Version != "3.2.1":
			c.problem = fmt.Sprintf("agents %+v", inv.Agents)
		case inv.Status == nil || inv.Status.Identity != "reg1.example.net":
			c.problem = fmt.Sprintf("status %+v", inv.Status)
		}
		return "inventory", c
	}
	return "?", content{}
}

// TestC33RegistrationSettings starts registration with intervals that disable it
func TestC33RegistrationSettings(t *testing.T) {
	rec := verifkit.New(t, "C33", "no registration interval crashes the node")
	file := vfake.TempFile([]byte(`{"a":1}`))
	for _, interval := range []int{0, -1, 1, 10} {
		for _, size := range []int{0, -10, 1} {
			for _, trigger := range []int{0, 10} {
				for _, splay := range []bool{false, true} {
					fw := vfake.FW(func(c *config.Config) {
						c.Identity = "reg1.example.net"
						c.Registration = []string{"file_content", "inventory_content"}
						c.RegisterInterval = interval
						c.RegistrationSplay = splay
						c.Choria.FileContentRegistrationData = file
						c.Choria.RegistrationSizeTrigger = trigger
						c.Choria.RegistrationSizeInterval = size
					})
					desc := fmt.Sprintf("interval %d size interval %d trigger %d splay %v", interval, size, trigger, splay)
					synctest.Test(t, func(t *testing.T) {
						si := &source{facts: "{}"}
						conn := &line{connected: true}
						ctx, cancel := context.WithCancel(context.Background())
						wg := &sync.WaitGroup{}
						wg.Add(1)
						if err := registration.New(fw, si, conn, vfake.Log()).Start(ctx, wg); err != nil {
							rec.Violation("start", "%s: %v", desc, err)
						}
						time.Sleep(2 * time.Minute)
						cancel()
						wg.Wait()
						switch {
						case interval > 0 && len(conn.said) < 2:
							rec.Violation("missed", "%s: only %d were published", desc, len(conn.said))
						case interval <= 0 && len(conn.said) > 4:
							rec.Violation("flood", "%s: %d were published", desc, len(conn.said))
						}
						rec.Case(true, desc)
					})
				}
			}
		}
	}
}
