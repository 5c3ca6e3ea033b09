// Package machines watches autonomous machines, alone and hosted by the autonomous agent
package machines

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/choria-io/go-choria/aagent/machine"
	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers"
	"github.com/choria-io/go-choria/aagent/watchers/watcher"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/goccy/go-yaml"
)

// probe is a watcher that only tells what it sees
type probe struct {
	*watcher.Watcher
	m model.Machine

	mu      sync.Mutex
	running bool
	seen    []look
	foreign []model.ForeignMachineState
	states  []string
	touched bool
}

type look struct {
	state  string
	active bool
}

type probes struct {
	mu  sync.Mutex
	all []*probe
}

var reg = &probes{}

func (p *probes) of(id string) map[string]*probe {
	p.mu.Lock()
	defer p.mu.Unlock()
	res := map[string]*probe{}
	for _, w := range p.all {
		if w.m.InstanceID() == id {
			res[w.Name()] = w
		}
	}
	return res
}

func (p *probes) reset() {
	p.mu.Lock()
	p.all = nil
	p.mu.Unlock()
}

type probePlugin struct{}

func (probePlugin) New(m model.Machine, name string, states []string, required []model.ForeignMachineState, fail string, success string, interval string, ai time.Duration, props map[string]any) (any, error) {
	w, err := watcher.NewWatcher(name, "probe", ai, states, required, m, fail, success)
	if err != nil {
		return nil, err
	}
	p := &probe{Watcher: w, m: m, foreign: required, states: states}
	reg.mu.Lock()
	reg.all = append(reg.all, p)
	reg.mu.Unlock()
	return p, nil
}
func (probePlugin) Type() string      { return "probe" }
func (probePlugin) EventType() string { return "io.choria.machine.watcher.probe.v1.state" }
func (probePlugin) UnmarshalNotification(n []byte) (any, error) {
	return nil, fmt.Errorf("no notifications")
}

func init() {
	err := watchers.RegisterWatcherPlugin("Monitor Probe Version 1", probePlugin{})
	if err != nil {
		panic(err)
	}
}

func (p *probe) Run(ctx context.Context, wg *sync.WaitGroup) {
	defer wg.Done()
	p.mu.Lock()
	p.running = true
	p.mu.Unlock()
	for {
		select {
		case <-p.StateChangeC():
			l := look{p.m.State(), p.ShouldWatch()}
			p.mu.Lock()
			p.seen = append(p.seen, l)
			p.mu.Unlock()
		case <-ctx.Done():
			p.mu.Lock()
			p.running = false
			p.mu.Unlock()
			return
		}
	}
}

func (p *probe) last() (look, int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.seen) == 0 {
		return look{}, 0
	}
	return p.seen[len(p.seen)-1], len(p.seen)
}

func (p *probe) isRunning() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.running }

// spec is a machine definition as the monitor understands it
type spec struct {
	Name        string   `yaml:"name"`
	Version     string   `yaml:"version"`
	Initial     string   `yaml:"initial_state"`
	Splay       int      `yaml:"splay_start,omitempty"`
	Transitions []trans  `yaml:"transitions"`
	Watchers    []watchd `yaml:"watchers"`
}

type sub struct {
	Machine string `yaml:"machine_name"`
	Event   string `yaml:"event"`
}

type trans struct {
	Name string   `yaml:"name"`
	From []string `yaml:"from"`
	Dst  string   `yaml:"destination"`
	Subs []sub    `yaml:"subscribe,omitempty"`
}

type watchd struct {
	Name    string         `yaml:"name"`
	Type    string         `yaml:"type"`
	States  []string       `yaml:"state_match,omitempty"`
	Foreign []fstate       `yaml:"foreign_state_required,omitempty"`
	Fail    string         `yaml:"fail_transition,omitempty"`
	Success string         `yaml:"success_transition,omitempty"`
	Ann     string         `yaml:"announce_interval,omitempty"`
	Props   map[string]any `yaml:"properties"`
}

type fstate struct {
	Machine string `yaml:"machine_name"`
	State   string `yaml:"state"`
}

func (s *spec) states() []string {
	m := map[string]bool{s.Initial: true}
	for _, t := range s.Transitions {
		m[t.Dst] = true
		for _, f := range t.From {
			m[f] = true
		}
	}
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

func (s *spec) events() []string {
	var res []string
	for _, t := range s.Transitions {
		res = append(res, t.Name)
	}
	return res
}

// next is the state an event leads to
func (s *spec) next(state, event string) (string, bool) {
	for _, t := range s.Transitions {
		if t.Name != event {
			continue
		}
		for _, f := range t.From {
			if f == state {
				return t.Dst, true
			}
		}
	}
	return "", false
}

func (s *spec) yaml() []byte {
	j, err := yaml.Marshal(s)
	if err != nil {
		panic(err)
	}
	return j
}

var stateNames = []string{"unknown", "on", "off", "UNKNOWN", "on ", "pausé", "1", "a.b", "forced_check"}
var eventNames = []string{"enter", "leave", "toggle", "ENTER", "fire_1", "fire_2", "x y", "maintenance"}

func genSpec(r *rand.Rand, name string) *spec {
	s := &spec{Name: name, Version: fmt.Sprintf("%d.%d.%d", r.Intn(3), r.Intn(10), r.Intn(1000))}
	states := append([]string{}, stateNames...)
	r.Shuffle(len(states), func(i, j int) { states[i], states[j] = states[j], states[i] })
	states = states[:2+r.Intn(4)]
	events := append([]string{}, eventNames...)
	r.Shuffle(len(events), func(i, j int) { events[i], events[j] = events[j], events[i] })
	events = events[:1+r.Intn(5)]
	s.Initial = verifkit.Pick(r, states)
	for _, e := range events {
		// one event can be declared in several parts that start from other states
		left := append([]string{}, states...)
		r.Shuffle(len(left), func(i, j int) { left[i], left[j] = left[j], left[i] })
		for parts := 1 + r.Intn(2); parts > 0 && len(left) > 0; parts-- {
			n := 1 + r.Intn(len(left))
			s.Transitions = append(s.Transitions, trans{Name: e, From: left[:n:n], Dst: verifkit.Pick(r, states)})
			left = left[n:]
		}
	}
	known := s.states()
	n := 1 + r.Intn(3)
	if r.Intn(4) == 0 {
		n += 4
	}
	for i := 0; i < n; i++ {
		w := watchd{Name: fmt.Sprintf("w%d", i), Type: "probe", Props: map[string]any{"p": i}}
		if r.Intn(4) > 0 {
			w.States = verifkit.Subset(r, known)
		}
		if r.Intn(2) == 0 {
			w.Fail = verifkit.Pick(r, events)
		}
		if r.Intn(2) == 0 {
			w.Success = verifkit.Pick(r, events)
		}
		s.Watchers = append(s.Watchers, w)
	}
	return s
}

func writeSpec(dir string, body []byte) {
	err := os.MkdirAll(dir, 0700)
	if err != nil {
		panic(err)
	}
	// definitions are put in place at once, like the deployment tools do
	tmp := filepath.Join(dir, ".machine.yaml.new")
	err = os.WriteFile(tmp, body, 0600)
	if err != nil {
		panic(err)
	}
	err = os.Rename(tmp, filepath.Join(dir, "machine.yaml"))
	if err != nil {
		panic(err)
	}
}

// ev is a notified transition
type ev struct {
	ID, Version, Identity, Machine, Transition, From, To string
}

func (e ev) String() string {
	return fmt.Sprintf("%s %s: %s -> %s", e.Machine, e.Transition, e.From, e.To)
}

// note collects notifications
type note struct {
	mu   sync.Mutex
	evs  []ev
	errs []string
	hook func(ev)
}

func (n *note) NotifyPostTransition(t *machine.TransitionNotification) error {
	e := ev{t.ID, t.Version, t.Identity, t.Machine, t.Transition, t.FromState, t.ToState}
	n.mu.Lock()
	n.evs = append(n.evs, e)
	h := n.hook
	n.mu.Unlock()
	if h != nil {
		h(e)
	}
	return nil
}
func (n *note) NotifyWatcherState(string, machine.WatcherStateNotification) error { return nil }
func (n *note) Debugf(machine.InfoSource, string, string, ...any)                 {}
func (n *note) Infof(machine.InfoSource, string, string, ...any)                  {}
func (n *note) Warnf(machine.InfoSource, string, string, ...any)                  {}
func (n *note) Errorf(m machine.InfoSource, w string, f string, a ...any) {
	n.mu.Lock()
	n.errs = append(n.errs, fmt.Sprintf(f, a...))
	n.mu.Unlock()
}

func (n *note) take() []ev {
	n.mu.Lock()
	defer n.mu.Unlock()
	e := n.evs
	n.evs = nil
	return e
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// randData is a value that is kept by machines
func randData(r *rand.Rand) any {
	switch r.Intn(7) {
	case 0:
		return r.Intn(1 << 30)
	case 1:
		return strings.Repeat("x\u2028\"", r.Intn(5))
	case 2:
		return r.Intn(2) == 0
	case 3:
		return nil
	case 4:
		return map[string]any{"a": []any{1.5, "b", nil}, "": map[string]any{}}
	case 5:
		return []any{}
	default:
		return r.NormFloat64()
	}
}

func canon(v any) string {
	j, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable " + err.Error()
	}
	return string(j)
}

// Delete asks for the http manager like watchers with http listeners do
func (p *probe) Delete() {
	p.m.HttpManager()
	p.Watcher.Delete()
}

// NotifyStateChance asks for the state like the nagios watcher does
func (p *probe) NotifyStateChance() {
	p.m.State()
	p.Watcher.NotifyStateChance()
}
