package machines

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/machine"
	"github.com/choria-io/go-choria/aagent/watchers"
	"github.com/choria-io/go-choria/internal/verifkit"
)

// TestC15History drives machines through random histories and compares every step to a table
func TestC15History(t *testing.T) {
	rec := verifkit.New(t, "C15", "state, notifications and watcher activity equal a table lookup after every event of random histories over random definitions, stored data is what was last stored after every restart")
	rec.Require("transitions", 200)
	rec.Require("rejected events", 200)
	rec.Require("restarts", 30)
	r := verifkit.Rand("c15-history")
	for i := 0; i < verifkit.N(150, 3000); i++ {
		seed := r.Int63()
		dir := filepath.Join(t.TempDir(), "m")
		if !rec.Within(120*time.Second, "history", func() {
			synctest.Test(t, func(t *testing.T) { history(rec, rand.New(rand.NewSource(seed)), dir) })
		}) {
			return
		}
	}
}

func history(rec *verifkit.Rec, r *rand.Rand, dir string) {
	defer reg.reset()
	s := genSpec(r, verifkit.Pick(r, []string{"m", "My Machine", "é"}))
	for i := range s.Transitions {
		if r.Intn(3) == 0 {
			s.Transitions[i].Subs = []sub{{"other", fmt.Sprintf("go%d", r.Intn(3))}}
			if r.Intn(3) == 0 {
				s.Transitions[i].Subs = append(s.Transitions[i].Subs, sub{"another", "go"})
			}
		}
	}
	if r.Intn(4) == 0 {
		s.Splay = 1 + r.Intn(20)
	}
	writeSpec(dir, s.yaml())
	data := map[string]any{}

	for run := 0; run < 1+r.Intn(3); run++ {
		ctx, cancel := context.WithCancel(context.Background())
		m, err := machine.FromDir(dir, watchers.New(ctx))
		if err != nil {
			rec.Violation("valid-refused", "valid definition refused: %v\n%s", err, s.yaml())
			cancel()
			return
		}
		ident := fmt.Sprintf("id%d", r.Intn(10))
		m.SetIdentity(ident)
		n := &note{}
		// every other machine state is seen before those told about it can act
		m.RegisterNotifier(n)
		var ext []ev
		useExt := r.Intn(2) == 0
		if useExt {
			m.SetExternalMachineNotifier(func(e *machine.TransitionNotification) {
				ext = append(ext, ev{e.ID, e.Version, e.Identity, e.Machine, e.Transition, e.FromState, e.ToState})
			})
		}
		foreign := map[string]string{}
		m.SetExternalMachineStateQuery(func(name string) (string, error) {
			st, ok := foreign[name]
			if !ok {
				return "", fmt.Errorf("unknown")
			}
			return st, nil
		})
		if canon(m.Data()) != canon(data) {
			rec.Violation("data-lost", "data after restart %s, last stored %s", canon(m.Data()), canon(data))
		}
		if run > 0 {
			rec.Count("restarts", 1)
		}

		state := s.Initial
		if m.State() != state {
			rec.Violation("initial-state", "state %q before starting, declared initial state is %q", m.State(), state)
		}
		// not started yet, events must be refused without harm
		if r.Intn(3) == 0 {
			rec.NoPanic("unstarted-transition", s.events(), func() {
				if e := m.Transition(verifkit.Pick(r, s.events())); e == nil && m.State() != state {
					rec.Violation("moved-unstarted", "moved to %q before being started", m.State())
				}
				m.ExternalEventNotify(&machine.TransitionNotification{Machine: "other", Transition: "go1"})
			})
			if m.State() != state {
				rec.Violation("moved-unstarted", "moved to %q before being started", m.State())
			}
		}
		var wg sync.WaitGroup
		<-m.Start(ctx, &wg)
		synctest.Wait()
		ps := reg.of(m.InstanceID())
		if len(ps) != len(s.Watchers) {
			rec.Violation("watchers-started", "%d of %d watchers started", len(ps), len(s.Watchers))
		}
		n.take()
		lost := 0
		log := ""
		for step := 0; step < 5+r.Intn(25); step++ {
			var fired []string
			switch k := r.Intn(10); {
			case k < 6:
				e := verifkit.Pick(r, append(s.events(), "", "nope", "ENTER", "enter"))
				can := m.Can(e)
				_, want := s.next(state, e)
				if e != "" && can != want {
					rec.Violation("can", "Can(%q) is %v in %q\n%s", e, can, state, s.yaml())
				}
				fired = []string{e}
				err := m.Transition(e)
				if err != nil {
					rec.Violation("transition-error", "Transition(%q): %v", e, err)
				}
			case k < 8:
				x := verifkit.Pick(r, []ev{{Machine: "other", Transition: "go0"}, {Machine: "other", Transition: "go1"}, {Machine: "other", Transition: "go2"}, {Machine: "another", Transition: "go"}, {Machine: "other", Transition: "go"}, {Machine: "third", Transition: "go1"}})
				for _, tr := range s.Transitions {
					for _, sb := range tr.Subs {
						if sb.Machine == x.Machine && sb.Event == x.Transition {
							fired = append(fired, tr.Name)
							rec.Count("subscribed events", 1)
						}
					}
				}
				m.ExternalEventNotify(&machine.TransitionNotification{Machine: x.Machine, Transition: x.Transition})
			case k == 8:
				key := verifkit.Pick(r, []string{"a", "b", "", "c d"})
				if r.Intn(3) == 0 {
					delete(data, key)
					if err := m.DataDelete(key); err != nil {
						rec.Violation("data-delete", "%v", err)
					}
				} else {
					v := randData(r)
					data[key] = v
					if err := m.DataPut(key, v); err != nil {
						rec.Violation("data-put", "%v", err)
					}
				}
				v, ok := m.DataGet(key)
				if w, wok := data[key]; ok != wok || canon(v) != canon(w) {
					rec.Violation("data-get", "%q is %v %v, stored %v %v", key, v, ok, w, wok)
				}
				var onDisk map[string]any
				j, err := os.ReadFile(filepath.Join(dir, "machine_data.json"))
				if err == nil {
					err = json.Unmarshal(j, &onDisk)
				}
				if len(data) > 0 && (err != nil || canon(onDisk) != canon(data)) {
					rec.Violation("data-disk", "stored %s, on disk %s %v", canon(data), j, err)
				}
			default:
				time.Sleep(time.Duration(r.Intn(120)) * time.Second)
			}
			synctest.Wait()
			var want []ev
			for _, e := range fired {
				dst, ok := s.next(state, e)
				if !ok {
					rec.Count("rejected events", 1)
					continue
				}
				if dst != state {
					want = append(want, ev{m.InstanceID(), s.Version, ident, s.Name, e, state, dst})
					rec.Count("transitions", 1)
				}
				state = dst
			}
			log += fmt.Sprintf(" %q", fired)
			got := n.take()
			if useExt && !same(ext, got) {
				rec.Violation("other-machines", "other machines were told %v, moves were %v", ext, got)
			}
			ext = nil
			if fmt.Sprint(got) != fmt.Sprint(want) || !same(got, want) {
				rec.Violation("notifications", "events %s notified %+v instead of %+v\n%s", log, got, want, s.yaml())
				break
			}
			if m.State() != state {
				rec.Violation("state", "in %q after %s instead of %q\n%s", m.State(), log, state, s.yaml())
				break
			}
			if !contains(s.states(), m.State()) {
				rec.Violation("undeclared", "state %q", m.State())
			}
			avail := m.AvailableTransitions()
			for _, e := range s.events() {
				_, ok := s.next(state, e)
				if ok != contains(avail, e) {
					rec.Violation("available", "available transitions %q in %q", avail, state)
				}
			}
			for _, w := range s.Watchers {
				p := ps[w.Name]
				if p == nil {
					continue
				}
				act := len(w.States) == 0 || contains(w.States, state)
				if p.ShouldWatch() != act {
					rec.Violation("watch-state", "watcher of %q active is %v in %q", w.States, p.ShouldWatch(), state)
				}
				if len(want) > 0 {
					l, _ := p.last()
					if l.state != state || l.active != act {
						rec.Violation("watch-told", "watcher of %q last saw %+v, machine is in %q", w.States, l, state)
						lost++
					}
				}
			}
			rec.Case(len(fired) > 0, fmt.Sprintf("%s|%s|%q", s.yaml(), state, fired))
		}
		// stopped machines move no more
		if r.Intn(2) == 0 {
			m.Stop()
		} else {
			rec.NoPanic("delete", s.Name, m.Delete)
		}
		cancel()
		wg.Wait()
		for _, p := range ps {
			if p.isRunning() {
				rec.Violation("watcher-left", "watcher %s runs after its machine was stopped", p.Name())
			}
		}
		for _, e := range s.events() {
			m.Transition(e)
		}
		synctest.Wait()
		if g := n.take(); len(g) > 0 || m.State() != state {
			rec.Violation("moved-stopped", "stopped machine moved to %q: %v", m.State(), g)
		}
	}
}

func same(a, b []ev) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// TestC15Parallel fires events from many goroutines and checks that the notifications are one chain of declared moves
func TestC15Parallel(t *testing.T) {
	rec := verifkit.New(t, "C15", "notifications of machines driven by many goroutines form one chain from the initial to the final state in which every link is declared")
	rec.Require("transitions", 100)
	r := verifkit.Rand("c15-parallel")
	n := verifkit.N(60, 200)
	rec.Within(180*time.Second, "parallel", func() {
		var all sync.WaitGroup
		for i := 0; i < n; i++ {
			seed := r.Int63()
			dir := filepath.Join(t.TempDir(), fmt.Sprintf("m%d", i))
			all.Add(1)
			go func() {
				defer all.Done()
				parallel(rec, rand.New(rand.NewSource(seed)), dir)
			}()
		}
		all.Wait()
	})
}

func parallel(rec *verifkit.Rec, r *rand.Rand, dir string) {
	s := genSpec(r, "m")
	writeSpec(dir, s.yaml())
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	m, err := machine.FromDir(dir, watchers.New(ctx))
	if err != nil {
		rec.Violation("valid-refused", "valid definition refused: %v\n%s", err, s.yaml())
		return
	}
	n := &note{}
	m.RegisterNotifier(n)
	inState := true
	n.hook = func(e ev) {
		// the machine is in the new state when the move is told
		if m.State() != e.To {
			inState = false
		}
	}
	var wg sync.WaitGroup
	<-m.Start(ctx, &wg)
	var drivers sync.WaitGroup
	for g := 0; g < 4; g++ {
		seed := r.Int63()
		drivers.Add(1)
		go func() {
			defer drivers.Done()
			r := rand.New(rand.NewSource(seed))
			for i := 0; i < 3; i++ {
				switch r.Intn(5) {
				case 0:
					m.DataPut(fmt.Sprintf("k%d", r.Intn(3)), r.Intn(10))
				case 1:
					m.Data()
					m.AvailableTransitions()
					m.StartTime()
					m.KnownStates()
				}
				m.Transition(verifkit.Pick(r, s.events()))
			}
		}()
	}
	drivers.Wait()
	got := n.take()
	state := s.Initial
	for _, e := range got {
		dst, ok := s.next(state, e.Transition)
		if e.From != state || !ok || dst != e.To || e.From == e.To {
			rec.Violation("chain", "%v is not a declared move from %q in %v\n%s", e, state, got, s.yaml())
			break
		}
		state = e.To
	}
	rec.Count("transitions", len(got))
	rec.Case(len(got) > 1, fmt.Sprintf("%s %v", s.yaml(), got))
	if m.State() != state {
		rec.Violation("final-state", "in %q while the last notified move led to %q", m.State(), state)
	}
	if !inState {
		rec.Violation("told-early", "a move was notified while the machine was in another state")
	}
	// watchers end up knowing the final state
	if len(got) > 0 {
		for _, p := range reg.of(m.InstanceID()) {
			if !verifkit.Eventually(60*time.Second, func() bool { l, k := p.last(); return k > 0 && l.state == state }) {
				l, _ := p.last()
				rec.Violation("watch-stale", "watcher last saw %+v, machine is in %q", l, state)
			}
		}
	}
	m.Delete()
	cancel()
	wg.Wait()
}

// TestC15Definitions loads definitions that are broken in one way, they must be refused
func TestC15Definitions(t *testing.T) {
	rec := verifkit.New(t, "C15", "definitions with a single essential defect are refused, no definition or data file crashes the host")
	r := verifkit.Rand("c15-definitions")
	dir := t.TempDir()
	load := func(body []byte) (m *machine.Machine, err error) {
		writeSpec(dir, body)
		rec.NoPanic("load", string(body), func() { m, err = machine.FromDir(dir, watchers.New(context.Background())) })
		return
	}
	breakers := map[string]func(s *spec){
		"no name":        func(s *spec) { s.Name = "" },
		"no version":     func(s *spec) { s.Version = "" },
		"no initial":     func(s *spec) { s.Initial = "" },
		"no transitions": func(s *spec) { s.Transitions = nil },
		"no watchers":    func(s *spec) { s.Watchers = nil },
		"unknown state": func(s *spec) {
			s.Watchers[len(s.Watchers)-1].States = append(s.Watchers[len(s.Watchers)-1].States, "elsewhere")
		},
		"unknown fail event":    func(s *spec) { s.Watchers[len(s.Watchers)-1].Fail = "elsewhere" },
		"unknown success event": func(s *spec) { s.Watchers[len(s.Watchers)-1].Success = "elsewhere" },
		"state as fail event":   func(s *spec) { s.Watchers[0].Fail = "zz"; s.Transitions[0].Dst = "zz" },
		"bad announce":          func(s *spec) { s.Watchers[0].Ann = "often" },
		"short announce":        func(s *spec) { s.Watchers[0].Ann = "59s" },
		"sub without machine":   func(s *spec) { s.Transitions[len(s.Transitions)-1].Subs = []sub{{"a", "b"}, {"", "b"}} },
		"sub without event":     func(s *spec) { s.Transitions[len(s.Transitions)-1].Subs = []sub{{"a", ""}} },
	}
	for i := 0; i < verifkit.N(12, 300); i++ {
		seed := r.Int63()
		good := genSpec(rand.New(rand.NewSource(seed)), "m")
		if _, err := load(good.yaml()); err != nil {
			rec.Violation("valid-refused", "valid definition refused: %v\n%s", err, good.yaml())
		}
		for name, f := range breakers {
			s := genSpec(rand.New(rand.NewSource(seed)), "m")
			f(s)
			_, err := load(s.yaml())
			rec.Case(true, fmt.Sprintf("%s %s", name, s.yaml()))
			if err == nil {
				rec.Violation("invalid-accepted:"+name, "definition with %s accepted\n%s", name, s.yaml())
			}
		}
		for name, body := range map[string]string{
			"null transition": "name: m\nversion: 1.0.0\ninitial_state: a\ntransitions: [null, {name: go, from: [a], destination: b}]\nwatchers: [{name: w, type: probe}]\n",
			"null watcher":    "name: m\nversion: 1.0.0\ninitial_state: a\ntransitions: [{name: go, from: [a], destination: b}]\nwatchers: [{name: w, type: probe}, null]\n",
			"a list":          "- name: m\n",
			"null":            "null\n",
			"empty":           "",
			"not yaml":        "{{{",
		} {
			_, err := load([]byte(body))
			if err == nil {
				rec.Violation("invalid-accepted:"+name, "%s accepted", name)
			}
		}
		// random damage never crashes
		body := good.yaml()
		for k := 0; k < 20; k++ {
			b, _ := verifkit.MutateBytes(r, body)
			load(b)
			rec.Case(true, string(b))
		}
	}
	// data files that are damaged are discarded, the machine still keeps new data
	good := genSpec(r, "m")
	for _, d := range []string{"", "null", "[]", "{", `{"a":1}`, `"x"`, "\x00", `{"a":1}}`, `{"a":NaN}`, `{"a":1,"a":2}`} {
		os.WriteFile(filepath.Join(dir, "machine_data.json"), []byte(d), 0600)
		m, err := load(good.yaml())
		if err != nil {
			rec.Violation("data-refuses", "machine with data file %q: %v", d, err)
			continue
		}
		rec.NoPanic("data-put", d, func() {
			if err := m.DataPut("k", d); err != nil {
				rec.Violation("data-put", "after data file %q: %v", d, err)
			}
		})
		m, err = load(good.yaml())
		if err != nil {
			continue
		}
		if v, ok := m.DataGet("k"); !ok || canon(v) != canon(d) {
			rec.Violation("data-lost", "after data file %q stored value is %v", d, v)
		}
		rec.Case(true, "data "+d)
	}
}
