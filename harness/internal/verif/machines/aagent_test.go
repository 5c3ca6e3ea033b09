package machines

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/nats-io/nats.go"
	"github.com/sirupsen/logrus"
)

type conn struct{ inter.Connector }

func (conn) Nats() *nats.Conn { return nil }

// host is the server hosting the machines
type host struct {
	mu  sync.Mutex
	evs []ev
	bad []string
}

func (h *host) PublishRaw(subject string, data []byte) error {
	if subject != "choria.machine.transition" {
		return nil
	}
	var ce struct {
		Type    string `json:"type"`
		Subject string `json:"subject"`
		Data    struct {
			Protocol   string `json:"protocol"`
			Identity   string `json:"identity"`
			ID         string `json:"id"`
			Version    string `json:"version"`
			Machine    string `json:"machine"`
			Transition string `json:"transition"`
			From       string `json:"from_state"`
			To         string `json:"to_state"`
		} `json:"data"`
	}
	err := json.Unmarshal(data, &ce)
	h.mu.Lock()
	defer h.mu.Unlock()
	if err != nil || ce.Data.Protocol != "io.choria.machine.v1.transition" || ce.Type != ce.Data.Protocol || ce.Subject != ce.Data.Identity {
		h.bad = append(h.bad, string(data))
	}
	d := ce.Data
	h.evs = append(h.evs, ev{d.ID, d.Version, d.Identity, d.Machine, d.Transition, d.From, d.To})
	return nil
}
func (h *host) Logger(string) *logrus.Entry     { return vfake.Log() }
func (h *host) Identity() string                { return "n1.example.net" }
func (h *host) PrometheusTextFileDir() string   { return "" }
func (h *host) ScoutOverridesPath() string      { return "" }
func (h *host) ServerStatusFile() (string, int) { return "", 0 }
func (h *host) MainCollective() string          { return "mcollective" }
func (h *host) Connector() inter.Connector      { return conn{} }
func (h *host) Facts() json.RawMessage          { return json.RawMessage("{}") }
func (h *host) MachineSignerKey() string        { return "" }
func (h *host) MachineHTTPPort() int            { return 0 }

func (h *host) take() []ev {
	h.mu.Lock()
	defer h.mu.Unlock()
	e := h.evs
	h.evs = nil
	return e
}

// hosted is what the monitor expects of a machine
type hosted struct {
	s     *spec
	dir   string
	id    string // of the running instance
	state string
	data  map[string]any
	valid bool
}

// TestC15Agent changes a directory of machines over time and compares what is hosted to it
func TestC15Agent(t *testing.T) {
	rec := verifkit.New(t, "C15", "the machines hosted are the valid definitions on disk at their current content, unchanged ones keep running undisturbed, events and subscriptions move them as declared, watchers are active exactly in declared own and foreign states")
	rec.Require("added", 20)
	rec.Require("changed", 20)
	rec.Require("removed", 20)
	rec.Require("transitions", 100)
	rec.Require("subscribed transitions", 10)
	rec.Require("foreign active", 5)
	rec.Require("foreign inactive", 5)
	r := verifkit.Rand("c15-agent")
	for i := 0; i < verifkit.N(100, 1500); i++ {
		seed := r.Int63()
		root := t.TempDir()
		if !rec.Within(120*time.Second, "agent", func() {
			synctest.Test(t, func(t *testing.T) { agentHistory(rec, rand.New(rand.NewSource(seed)), root) })
		}) {
			return
		}
	}
}

func agentHistory(rec *verifkit.Rec, r *rand.Rand, root string) {
	defer reg.reset()
	src := filepath.Join(root, "machines")
	if r.Intn(4) > 0 {
		os.MkdirAll(src, 0700)
	}
	h := &host{}
	aa, err := aagent.New(src, h)
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup

	names := []string{"m0", "m1", "m2", "m3"}
	dirs := []string{"d0", "a-dir", "d2.x", "tmpx"} // dirs are in another order than names
	cur := map[string]*hosted{}

	gen := func(i int) *spec {
		s := genSpec(r, names[i])
		if i > 0 && r.Intn(3) > 0 {
			j := r.Intn(i)
			k := r.Intn(len(s.Transitions))
			s.Transitions[k].From = s.states()
			for x := range s.Transitions {
				if x != k && s.Transitions[x].Name == s.Transitions[k].Name {
					s.Transitions[x].Name += " other"
				}
			}
			s.Watchers[0].Fail, s.Watchers[0].Success = "", ""
			s.Transitions[k].Subs = []sub{{names[j], verifkit.Pick(r, eventNames)}}
			if o := cur[names[j]]; o != nil && r.Intn(4) > 0 {
				s.Transitions[k].Subs[0].Event = verifkit.Pick(r, o.s.events())
			}
		}
		if r.Intn(2) == 0 {
			j := (i + 1 + r.Intn(3)) % 4
			s.Watchers[0].Foreign = []fstate{{names[j], verifkit.Pick(r, stateNames)}}
			if o := cur[names[j]]; o != nil {
				s.Watchers[0].Foreign[0].State = verifkit.Pick(r, o.s.states())
			}
		}
		return s
	}
	log := []string{}
	put := func(i int) {
		s := gen(i)
		c := cur[names[i]]
		what := "added"
		if c != nil {
			what = "changed"
			if r.Intn(3) == 0 {
				s.Version = c.s.Version // changed while keeping the version
			}
		} else {
			c = &hosted{dir: filepath.Join(src, dirs[i]), data: map[string]any{}}
			cur[names[i]] = c
		}
		c.s, c.id, c.state, c.valid = s, "", s.Initial, true
		body := s.yaml()
		if r.Intn(6) == 0 {
			c.valid = false
			switch r.Intn(3) {
			case 0:
				body = []byte("name: broken\n")
			case 1:
				body = []byte("\tnot yaml: {")
			default:
				s2 := *s
				s2.Initial = ""
				body = s2.yaml()
			}
		}
		writeSpec(c.dir, body)
		rec.Count(what, 1)
		log = append(log, fmt.Sprintf("%s %s valid=%v", what, names[i], c.valid))
	}
	remove := func(i int) {
		c := cur[names[i]]
		if c == nil {
			return
		}
		os.Rename(c.dir, filepath.Join(root, fmt.Sprintf("gone-%d", r.Int())))
		delete(cur, names[i])
		rec.Count("removed", 1)
		log = append(log, "removed "+names[i])
	}
	decoys := func() {
		os.MkdirAll(src, 0700)
		for _, d := range []string{"tmp", ".hidden", "new-temp"} {
			writeSpec(filepath.Join(src, d), genSpec(r, "decoy").yaml())
		}
		os.WriteFile(filepath.Join(src, "machine.yaml"), genSpec(r, "decoy").yaml(), 0600)
		os.MkdirAll(filepath.Join(src, "empty"), 0700)
	}
	fail := false
	old := map[string]*probe{} // watchers of instances that ended
	check := func() {
		states, err := aa.AllMachineStates()
		if err != nil {
			rec.Violation("states", "%v", err)
			return
		}
		var have, want []string
		for _, s := range states {
			have = append(have, s.Name)
		}
		for n, c := range cur {
			if c.valid {
				want = append(want, n)
			}
		}
		sort.Strings(have)
		sort.Strings(want)
		if strings.Join(have, ",") != strings.Join(want, ",") {
			rec.Violation("hosted-set", "hosts %q, valid definitions on disk are %q after %q", have, want, log)
			fail = true
			return
		}
		for _, s := range states {
			c := cur[s.Name]
			if c.id == "" {
				c.id = s.ID
				if s.StartTimeUTC <= 0 {
					rec.Violation("not-started", "machine %s was not started after %q", s.Name, log)
				}
			}
			if s.ID != c.id {
				rec.Violation("restarted", "machine %s was restarted without a change on disk after %q", s.Name, log)
				c.id = s.ID
				fail = true
			}
			if s.Version != c.s.Version || s.Path != c.dir {
				rec.Violation("old-definition", "machine %s runs version %s of %s, on disk is %s of %s", s.Name, s.Version, s.Path, c.s.Version, c.dir)
				fail = true
			}
			if s.State != c.state {
				rec.Violation("agent-state", "machine %s is in %q instead of %q after %q\n%s", s.Name, s.State, c.state, log, c.s.yaml())
				fail = true
			}
			ps := reg.of(s.ID)
			if len(ps) != len(c.s.Watchers) {
				rec.Violation("agent-watchers", "machine %s has %d of %d watchers", s.Name, len(ps), len(c.s.Watchers))
			}
			for _, w := range c.s.Watchers {
				p := ps[w.Name]
				if p == nil {
					continue
				}
				if !p.isRunning() {
					rec.Violation("watcher-stopped", "watcher %s of %s does not run after %q", w.Name, s.Name, log)
				}
				act := len(w.States) == 0 || contains(w.States, c.state)
				for _, f := range w.Foreign {
					o := cur[f.Machine]
					fa := o != nil && o.valid && o.state == f.State
					if fa {
						rec.Count("foreign active", 1)
					} else {
						rec.Count("foreign inactive", 1)
					}
					act = act && fa
				}
				if got := p.ShouldWatch(); got != act {
					rec.Violation("agent-watch-state", "watcher of %q and %v active is %v in %q after %q", w.States, w.Foreign, got, c.state, log)
				}
				old[s.ID+w.Name] = p
				if v := canon(p.m.Data()); v != canon(c.data) {
					rec.Violation("agent-data", "machine %s has data %s, last stored %s after %q", s.Name, v, canon(c.data), log)
				}
			}
		}
		for k, p := range old {
			live := false
			for _, c := range cur {
				live = live || (c.valid && strings.HasPrefix(k, c.id) && c.id != "")
			}
			if live {
				continue
			}
			if p.isRunning() {
				rec.Violation("watcher-left", "watcher %s runs after its machine was stopped by %q", p.Name(), log)
			}
			delete(old, k)
		}
		h.mu.Lock()
		if len(h.bad) > 0 {
			rec.Violation("notification-format", "%s", h.bad[0])
		}
		h.mu.Unlock()
	}

	for i := range names {
		if r.Intn(5) > 0 {
			put(i)
		}
	}
	if r.Intn(2) == 0 {
		decoys()
	}
	aa.ManageMachines(ctx, &wg)
	time.Sleep(2 * time.Second)
	synctest.Wait()
	check()

	settle := func() {
		time.Sleep(80 * time.Second)
		synctest.Wait()
	}
	for step := 0; step < 12+r.Intn(20) && !fail; step++ {
		h.take()
		switch k := r.Intn(10); {
		case k < 3:
			for j := 0; j < 1+r.Intn(2); j++ {
				if i := r.Intn(4); r.Intn(4) > 0 {
					put(i)
				} else {
					remove(i)
				}
			}
			settle()
			if e := h.take(); len(e) > 0 {
				rec.Violation("moved-alone", "machines moved without an event: %v", e)
			}
		case k == 3 && r.Intn(3) == 0:
			decoys()
			settle()
		case k == 4:
			// data is kept with the machine
			for _, n := range names {
				c := cur[n]
				if c == nil || !c.valid || r.Intn(2) == 0 {
					continue
				}
				for _, p := range reg.of(c.id) {
					key, v := verifkit.Pick(r, []string{"a", "b"}), randData(r)
					if p.m.DataPut(key, v) == nil {
						c.data[key] = v
					}
					break
				}
			}
		default:
			n := verifkit.Pick(r, names)
			c := cur[n]
			e := verifkit.Pick(r, eventNames)
			if c != nil && r.Intn(4) > 0 {
				e = verifkit.Pick(r, c.s.events())
				// rather events that move it, and others too
				for _, x := range c.s.events() {
					if d, ok := c.s.next(c.state, x); ok && d != c.state && r.Intn(2) == 0 {
						e = x
					}
				}
				for _, on := range names {
					if o := cur[on]; o != nil && r.Intn(2) == 0 {
						for _, tr := range o.s.Transitions {
							for _, sb := range tr.Subs {
								if _, ok := c.s.next(c.state, sb.Event); ok && sb.Machine == n {
									e = sb.Event
								}
							}
						}
					}
				}
			}
			if c != nil && !c.valid {
				c = nil
			}
			name, version, path, id := n, "", "", ""
			if c != nil {
				switch r.Intn(6) {
				case 0:
					version = c.s.Version
				case 1:
					path = c.dir
				case 2:
					name, id = "", c.id
				case 3:
					name, path = "", c.dir
				case 4:
					if r.Intn(2) == 0 {
						version = "99.9.9"
						c = nil
					}
				}
			}
			log = append(log, fmt.Sprintf("event %s to %s", e, n))
			err := aa.Transition(name, version, path, id, e)
			settle()
			got := h.take()
			if c == nil {
				if err == nil || len(got) > 0 {
					rec.Violation("unknown-moved", "event for an unknown machine: %v %v", err, got)
				}
				continue
			}
			// events move the machine and then those subscribed to the event
			want := map[string]ev{}
			var fire func(n string, e string)
			fire = func(n string, e string) {
				c := cur[n]
				dst, ok := c.s.next(c.state, e)
				if !ok {
					return
				}
				was := c.state
				c.state = dst
				if dst == was {
					return
				}
				want[n] = ev{c.id, c.s.Version, h.Identity(), n, e, was, dst}
				for _, o := range names {
					oc := cur[o]
					if oc == nil || !oc.valid {
						continue
					}
					for _, tr := range oc.s.Transitions {
						for _, sb := range tr.Subs {
							if sb.Machine == n && sb.Event == e {
								fire(o, tr.Name)
							}
						}
					}
				}
			}
			_, ok := c.s.next(c.state, e)
			fire(n, e)
			if ok != (err == nil) {
				rec.Violation("agent-transition", "event %s in declared state is %v: %v", e, ok, err)
			}
			rec.Count("transitions", len(want))
			if len(want) > 1 {
				rec.Count("subscribed transitions", len(want)-1)
			}
			for _, g := range got {
				if want[g.Machine] != g {
					rec.Violation("agent-notify", "notified %+v, expected %+v after %q", got, want, log)
					fail = true
				}
			}
			if len(got) != len(want) {
				rec.Violation("agent-notify", "notified %+v, expected %+v after %q", got, want, log)
				fail = true
			}
		}
		check()
		rec.Case(true, strings.Join(log, ";"))
	}
	cancel()
	wg.Wait()
	synctest.Wait()
	for _, p := range old {
		if p.isRunning() {
			rec.Violation("watcher-left", "watcher %s runs after shutdown", p.Name())
		}
	}
}

// TestC15AgentStorm removes and changes machines while they move quickly, hosting must go on
func TestC15AgentStorm(t *testing.T) {
	rec := verifkit.New(t, "C15", "hosting goes on while machines that move in a storm of events are removed, changed and queried, their moves stay one chain per instance")
	rec.Require("transitions", 100)
	rec.Require("removed while moving", 8)
	r := verifkit.Rand("c15-storm")
	n := verifkit.N(12, 40)
	rec.Within(300*time.Second, "storm", func() {
		var all sync.WaitGroup
		for i := 0; i < n; i++ {
			seed := r.Int63()
			dir := filepath.Join(t.TempDir(), fmt.Sprint(i))
			all.Add(1)
			go func() {
				defer all.Done()
				storm(rec, rand.New(rand.NewSource(seed)), dir)
			}()
		}
		all.Wait()
	})
}

func storm(rec *verifkit.Rec, r *rand.Rand, dir string) {
	ring := func(name string) *spec {
		return &spec{Name: name, Version: "1.0.0", Initial: "a",
			Transitions: []trans{{Name: "go", From: []string{"a"}, Dst: "b"}, {Name: "back", From: []string{"b"}, Dst: "a"}},
			Watchers:    []watchd{{Name: "w", Type: "probe", States: []string{"a"}, Foreign: []fstate{{"m1", "a"}}, Props: map[string]any{"x": 1}}}}
	}
	for _, n := range []string{"m0", "m1", "m2"} {
		s := ring(n)
		if n == "m2" {
			s.Transitions[0].Subs = []sub{{"m0", "go"}}
		}
		writeSpec(filepath.Join(dir, n), s.yaml())
	}
	h := &host{}
	aa, _ := aagent.New(dir, h)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	aa.ManageMachines(ctx, &wg)
	stop := make(chan struct{})
	var drivers sync.WaitGroup
	for _, n := range []string{"m0", "m1", "m2"} {
		drivers.Add(1)
		go func() {
			defer drivers.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				if aa.Transition(n, "", "", "", []string{"go", "back"}[i%2]) != nil {
					time.Sleep(10 * time.Millisecond)
				}
				aa.AllMachineStates()
			}
		}()
	}
	query := func() (res []string) {
		done := make(chan struct{})
		go func() {
			states, _ := aa.AllMachineStates()
			for _, s := range states {
				res = append(res, s.Name+" "+s.Version)
			}
			close(done)
		}()
		<-done // a lost lock shows as a hang
		return res
	}
	time.Sleep(7 * time.Second) // backoff makes moves slow by now
	if len(query()) != 3 {
		rec.Violation("storm-load", "hosts %q", query())
	}
	os.RemoveAll(filepath.Join(dir, "m0"))
	s := ring("m1")
	s.Version = "2.0.0"
	writeSpec(filepath.Join(dir, "m1"), s.yaml())
	rec.Count("removed while moving", 1)
	if !verifkit.Eventually(90*time.Second, func() bool { return strings.Join(query(), ",") == "m1 2.0.0,m2 1.0.0" }) {
		rec.Violation("storm-reconcile", "hosts %q 90 seconds after m0 was removed and m1 changed", query())
	}
	close(stop)
	drivers.Wait()
	cancel()
	wg.Wait()
	state := map[string]string{}
	evs := h.take()
	for _, e := range evs {
		was, ok := state[e.ID]
		if !ok {
			was = "a"
		}
		if e.From != was || map[string]string{"go": "b", "back": "a"}[e.Transition] != e.To || e.From == e.To {
			rec.Violation("storm-chain", "%v after state %s in %v", e, was, evs)
			break
		}
		state[e.ID] = e.To
	}
	rec.Count("transitions", len(evs))
	rec.Case(len(evs) > 10, fmt.Sprint(evs))
}
