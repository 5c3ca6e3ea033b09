package watch

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent"
	aahttp "github.com/choria-io/go-choria/aagent/http"
	"github.com/choria-io/go-choria/aagent/watchers/httpswitchwatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/sirupsen/logrus"
)

// web is the HTTP interface of machines, without a network
type web struct {
	srv *aahttp.HTTPServer
	mux *http.ServeMux
}

func newWeb() *web {
	log := logrus.New()
	log.SetOutput(io.Discard)
	srv, err := aahttp.NewHTTPServer(logrus.NewEntry(log))
	if err != nil {
		panic(err)
	}
	w := &web{srv: srv, mux: http.NewServeMux()}
	w.mux.Handle(aagent.HTTPSwitchHandlerPattern, http.HandlerFunc(srv.SwitchHandler))
	w.mux.Handle(aagent.HTTPMetricHandlerPattern, http.HandlerFunc(srv.MetricHandler))
	w.mux.Handle(aagent.HomeAssistantSwitchHandlerPattern, http.HandlerFunc(srv.HASwitchHandler))
	return w
}

func (w *web) ask(method string, pattern string, machine string, watcher string, body string) (int, string) {
	p := strings.NewReplacer("{machine}", url.PathEscape(machine), "{watcher}", url.PathEscape(watcher)).Replace(pattern)
	rec := httptest.NewRecorder()
	w.mux.ServeHTTP(rec, httptest.NewRequest(method, p, strings.NewReader(body)))
	return rec.Code, rec.Body.String()
}

const (
	switchURL = aagent.HTTPSwitchHandlerPattern
	haURL     = aagent.HomeAssistantSwitchHandlerPattern
	metricURL = aagent.HTTPMetricHandlerPattern
)

// switchModel is what is known of a switch
type switchModel struct {
	watch, on, off, disable []string
	success, fail           string
	// after has the states that transitions lead to
	after map[string]string

	state string
	shown string
	fires []string
}

func (m *switchModel) watched() bool { return len(m.watch) == 0 || contains(m.watch, m.state) }

// entered is when the machine arrived in a state
func (m *switchModel) entered() {
	if !m.watched() {
		return
	}
	if contains(m.on, m.state) {
		m.shown = "on"
	} else if contains(m.off, m.state) {
		m.shown = "off"
	}
}

// press is whether a press is accepted, when it is the effects are recorded
func (m *switchModel) press(on bool) bool {
	if contains(m.disable, m.state) || !m.watched() {
		return false
	}
	event := m.fail
	m.shown = "off"
	if on {
		event = m.success
		m.shown = "on"
	}
	if event == "" {
		return true
	}
	m.fires = append(m.fires, event)
	if next, ok := m.after[event]; ok {
		m.state = next
		m.entered()
	}
	return true
}

var switchStates = []string{"a", "b", "c", "d"}

func genSwitch(r *rand.Rand) *switchModel {
	m := &switchModel{watch: verifkit.Subset(r, switchStates), shown: "unknown", state: verifkit.Pick(r, switchStates), after: map[string]string{}}
	for _, s := range switchStates {
		switch r.Intn(4) {
		case 0:
			m.on = append(m.on, s)
		case 1:
			m.off = append(m.off, s)
		}
	}
	if r.Intn(2) == 0 {
		m.disable = append(m.disable, verifkit.Pick(r, switchStates))
	}
	if r.Intn(5) > 0 {
		m.success = "turned_on"
	}
	if r.Intn(5) > 0 {
		m.fail = "turned_off"
	}
	for _, e := range []string{"turned_on", "turned_off"} {
		if r.Intn(2) == 0 {
			m.after[e] = verifkit.Pick(r, switchStates)
		}
	}
	return m
}

func (m *switchModel) String() string {
	return fmt.Sprintf("watch %v on %v off %v disable %v success %q fail %q leads to %v", m.watch, m.on, m.off, m.disable, m.success, m.fail, m.after)
}

// newSwitch starts a switch, its machine follows the model's transitions
func newSwitch(m *switchModel, w *web, name string, early int) (*fm, *started, error) {
	f := newFM("/")
	f.name = "lights"
	f.state = m.state
	f.http = w.srv
	x, err := httpswitchwatcher.New(f, name, m.watch, nil, m.fail, m.success, "", 0, map[string]any{"on_when": m.on, "off_when": m.off, "disable_when": m.disable, "annotations": map[string]string{"location": "hall"}})
	if err != nil {
		return nil, nil, err
	}
	sw := x.(*httpswitchwatcher.Watcher)
	f.onFire = func(event string) {
		if next, ok := m.after[event]; ok {
			f.move(sw, next)
		}
	}
	// the machine changes state before the watcher runs
	for i := 0; i < early; i++ {
		sw.NotifyStateChance()
	}
	return f, start(sw), nil
}

type switchStatus struct {
	IsOn   bool   `json:"is_on"`
	IsOff  bool   `json:"is_off"`
	Status string `json:"status"`
	Detail *struct {
		Machine     string            `json:"machine"`
		Name        string            `json:"name"`
		On          bool              `json:"is_on"`
		Previous    string            `json:"status"`
		Annotations map[string]string `json:"annotations"`
	} `json:"detail"`
}

// TestC32Switches presses switches and moves their machines
func TestC32Switches(t *testing.T) {
	rec := verifkit.New(t, "C32", "switches show on and off as their machines' states and accepted presses last said, accepted presses fire exactly their transition and are answered with what was asked, presses in disabled or unwatched states are refused without effect, unknown switches are refused")
	rec.Require("accepted", 150)
	rec.Require("refused", 100)
	rec.Require("moved", 150)
	rec.Require("changed state before it ran", 20)
	rec.Require("replaced", 10)

	var wg sync.WaitGroup
	sem := make(chan struct{}, 16)
	for i := 0; i < verifkit.N(120, 1500); i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := verifkit.Rand(fmt.Sprintf("switch-%d", i))
			rec.Within(10*time.Minute, "switch-hang", func() { switchCase(rec, r) })
		}()
	}
	wg.Wait()
}

func switchCase(rec *verifkit.Rec, r *rand.Rand) {
	if rec.Failed() {
		return
	}
	m := genSwitch(r)
	w := newWeb()
	name := verifkit.Pick(r, []string{"hall", "hall light", "küche", "a/b"})
	early := r.Intn(3)
	history := []string{fmt.Sprintf("%s in %s", m, m.state)}
	if early > 0 {
		rec.Count("changed state before it ran", 1)
		history = append(history, "changed state before it ran")
	}
	f, s, err := newSwitch(m, w, name, early)
	if err != nil {
		rec.Violation("switch-new", "%s: %v", m, err)
		return
	}
	defer func() {
		s.cancel()
		s.wg.Wait()
		code, body := w.ask("GET", switchURL, "lights", name, "")
		if code != 400 || body != "switch not found" {
			rec.Violation("switch-stopped", "a stopped switch answered %d %q", code, body)
		}
		if got := fireNames(f.take()); got != strings.Join(m.fires, ",") {
			rec.Violation("switch-transitions", "requested transitions %s rather than %v; history: %s", got, m.fires, strings.Join(history, " | "))
		}
	}()
	rec.Case(true, m.String())
	m.entered()

	var last string
	shows := func(key string) bool {
		same := func() bool {
			code, body := w.ask("GET", switchURL, "lights", name, "")
			last = fmt.Sprintf("%d %s", code, body)
			st := switchStatus{}
			if code != 200 || json.Unmarshal([]byte(body), &st) != nil || st.Detail == nil {
				return false
			}
			hc, hb := w.ask("GET", haURL, "lights", name, "")
			last += " and " + hb
			ha := map[bool]string{true: "ON", false: "OFF"}[m.shown == "on"]
			on := m.shown == "on"
			f.mu.Lock()
			fired := len(f.fires)
			state := f.state
			f.mu.Unlock()
			if len(s.w.(interface{ StateChangeC() chan struct{} }).StateChangeC()) > 0 {
				return false
			}
			return st.IsOn == on && st.IsOff == !on && st.Status == m.shown && st.Detail.Machine == "lights" && st.Detail.Name == name && st.Detail.On == on && st.Detail.Previous == m.shown && st.Detail.Annotations["location"] == "hall" && hc == 200 && hb == ha && fired == len(m.fires) && state == m.state
		}
		if !verifkit.Eventually(40*time.Second, same) {
			rec.Violation(key, "shows %s with transitions %s rather than %s with %v; history: %s", last, fireNames(f.take()), m.shown, m.fires, strings.Join(history, " | "))
			return false
		}
		// and it stays that way
		time.Sleep(5 * time.Millisecond)
		if !same() && !same() {
			rec.Violation(key, "shows %s with transitions %s rather than %s with %v after showing that; history: %s", last, fireNames(f.take()), m.shown, m.fires, strings.Join(history, " | "))
			return false
		}
		return true
	}
	if !shows("switch-start") {
		return
	}

	for i := 0; i < 14; i++ {
		switch op := r.Intn(9); {
		case op < 3:
			m.state = verifkit.Pick(r, switchStates)
			history = append(history, "moved to "+m.state)
			f.move(s.w, m.state)
			m.entered()
			rec.Count("moved", 1)

		case op < 7:
			on := r.Intn(2) == 0
			ha := r.Intn(3) == 0
			was := m.state
			accepted := m.press(on)
			history = append(history, fmt.Sprintf("pressed on=%v ha=%v in %s", on, ha, was))
			var code int
			var body, want string
			if ha {
				want = map[bool]string{true: "ON", false: "OFF"}[on]
				code, body = w.ask("POST", haURL, "lights", name, want+verifkit.Pick(r, []string{"", "\n"}))
			} else {
				want = fmt.Sprintf(`{"is_on":%v}`, on)
				code, body = w.ask("POST", switchURL, "lights", name, fmt.Sprintf(`{"on":%v}`, on))
			}
			if accepted {
				rec.Count("accepted", 1)
				if code != 200 || body != want {
					rec.Violation("switch-answer", "an accepted press answered %d %q rather than %q; history: %s", code, body, want, strings.Join(history, " | "))
				}
			} else {
				rec.Count("refused", 1)
				if code != 500 || !strings.Contains(body, "disabled") && !strings.Contains(body, "active state") {
					rec.Violation("switch-refuse", "a press that can not be accepted answered %d %q; history: %s", code, body, strings.Join(history, " | "))
				}
			}

		case op == 7:
			for _, c := range [][4]string{
				{"GET", switchURL, "lights", "other"}, {"GET", switchURL, "other", name}, {"GET", haURL, "other", name},
				{"POST", switchURL, "lights", "other"}, {"POST", haURL, "other", name},
			} {
				code, body := w.ask(c[0], c[1], c[2], c[3], `{"on":true}`)
				if code < 400 || body != "switch not found" {
					rec.Violation("switch-unknown", "an unknown switch answered %v with %d %q", c, code, body)
				}
			}
			code, body := w.ask("POST", switchURL, "lights", name, verifkit.Pick(r, []string{"", "on", "[]", `{"on":"true"}`, `{"on":tru`}))
			if code != 500 {
				rec.Violation("switch-invalid", "an invalid request answered %d %q", code, body)
			}
			code, _ = w.ask("DELETE", switchURL, "lights", name, "")
			if code != 404 {
				rec.Violation("switch-invalid", "a delete answered %d", code)
			}

		default:
			// the machine is replaced by another, the old one takes a while to stop
			next := genSwitch(r)
			nf, ns, err := newSwitch(next, w, name, 0)
			if err != nil {
				rec.Violation("switch-new", "%s: %v", next, err)
				return
			}
			history = append(history, fmt.Sprintf("replaced by %s in %s", next, next.state))
			next.entered()
			old, olds, oldm := f, s, m
			f, s, m = nf, ns, next
			ok := shows("switch-replaced")
			olds.cancel()
			olds.wg.Wait()
			if r.Intn(2) == 0 {
				olds.w.Delete()
			}
			if got := fireNames(old.take()); got != strings.Join(oldm.fires, ",") {
				rec.Violation("switch-transitions", "requested transitions %s rather than %v; history: %s", got, oldm.fires, strings.Join(history, " | "))
			}
			rec.Count("replaced", 1)
			if !ok {
				return
			}
		}
		if !shows("switch-shows") {
			return
		}
	}
}

// TestC32SwitchStress presses switches while their machines move
func TestC32SwitchStress(t *testing.T) {
	rec := verifkit.New(t, "C32", "switches pressed at any time while their machines change state keep answering, fire one transition per accepted press unless the machine left, and show what the last state says")
	rec.Require("presses", 1000)
	rec.Require("settled", 10)
	r := verifkit.Rand("switch-stress")
	for i := 0; i < verifkit.N(12, 100); i++ {
		m := &switchModel{on: []string{"a", "c"}, off: []string{"b"}, success: "turned_on", fail: "turned_off", state: "a", shown: "unknown", after: map[string]string{"turned_on": "a", "turned_off": "b"}}
		w := newWeb()
		f, s, err := newSwitch(m, w, "hall", r.Intn(2))
		if err != nil {
			rec.Violation("switch-new", "%v", err)
			return
		}
		accepted := map[string]int{}
		var mu sync.Mutex
		ok := rec.Within(3*time.Minute, "switch-stress-hang", func() {
			for !verifkit.Eventually(40*time.Second, func() bool { c, _ := w.ask("GET", switchURL, "lights", "hall", ""); return c == 200 }) {
			}
			var wg sync.WaitGroup
			for p := 0; p < 4; p++ {
				seed := r.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					pr := rand.New(rand.NewSource(seed))
					for n := 0; n < 60; n++ {
						if p == 0 {
							f.move(s.w, verifkit.Pick(pr, []string{"a", "b", "c", "d"}))
							w.ask("GET", haURL, "lights", "hall", "")
							continue
						}
						on := pr.Intn(2) == 0
						code, _ := w.ask("POST", switchURL, "lights", "hall", fmt.Sprintf(`{"on":%v}`, on))
						if code == 200 {
							mu.Lock()
							accepted[map[bool]string{true: "turned_on", false: "turned_off"}[on]]++
							mu.Unlock()
						}
						rec.Count("presses", 1)
					}
				}()
			}
			wg.Wait()
			// every press was handled once another one is
			want := accepted["turned_on"] + accepted["turned_off"]
			if !verifkit.Eventually(40*time.Second, func() bool { f.mu.Lock(); defer f.mu.Unlock(); return len(f.fires) >= want }) {
				rec.Violation("switch-stress", "%d of %d accepted presses had an effect", len(f.take()), want)
				return
			}
			final := verifkit.Pick(r, []string{"b", "c"})
			f.onFire = nil
			f.move(s.w, final)
			show := map[string]string{"b": "OFF", "c": "ON"}[final]
			if !verifkit.Eventually(40*time.Second, func() bool { _, b := w.ask("GET", haURL, "lights", "hall", ""); return b == show }) {
				rec.Violation("switch-stress", "does not show %s in state %s", show, final)
				return
			}
			rec.Count("settled", 1)
			got := map[string]int{}
			for _, x := range f.take() {
				got[x.event]++
			}
			if got["turned_on"] != accepted["turned_on"] || got["turned_off"] != accepted["turned_off"] {
				rec.Violation("switch-stress", "presses %v caused transitions %v", accepted, got)
			}
		})
		rec.Case(ok, fmt.Sprintf("%v", accepted))
		s.cancel()
		if !ok {
			return
		}
		s.wg.Wait()
	}
}
