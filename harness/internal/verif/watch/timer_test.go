package watch

import (
	"fmt"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/aagent/watchers/timerwatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
)

// TestC16Timer compares the timer to a stop watch over histories of states
func TestC16Timer(t *testing.T) {
	rec := verifkit.New(t, "C16", "a timer asks for its transition exactly once per entry, after exactly its time, and never once its states were left, it was deleted or its host stopped")
	rec.Require("fired", 100)
	rec.Require("left early", 100)
	rec.Require("reset", 50)
	r := verifkit.Rand("c16-timer")
	for i := 0; i < verifkit.N(300, 6000); i++ {
		seed := r.Int63()
		if !rec.Within(120*time.Second, "timer", func() {
			synctest.Test(t, func(t *testing.T) { timerHistory(rec, rand.New(rand.NewSource(seed))) })
		}) {
			return
		}
	}
}

func timerHistory(rec *verifkit.Rec, r *rand.Rand) {
	states := []string{"a", "b", "c"}
	match := verifkit.Subset(r, states)
	m := newFM("")
	m.state = verifkit.Pick(r, states)
	d := time.Duration(1+r.Intn(60)) * time.Second
	splay := r.Intn(8) == 0
	var foreign []model.ForeignMachineState
	if r.Intn(4) == 0 {
		foreign = []model.ForeignMachineState{{MachineName: "other", MachineState: "go"}}
		m.lookup["other"] = "go"
	}
	wi, err := timerwatcher.New(m, "t", match, foreign, "fire", "", "", 0, map[string]any{"timer": d.String(), "splay": splay})
	if err != nil {
		rec.Violation("timer-refused", "%v", err)
		return
	}
	s := start(wi)
	synctest.Wait()
	active := func() bool {
		return (len(match) == 0 || contains(match, m.State())) && (foreign == nil || m.lookup["other"] == "go")
	}
	var due time.Time
	if active() {
		due = time.Now().Add(d)
	}
	log := fmt.Sprintf("timer %v in %q from %q:", d, match, m.state)
	check := func() bool {
		got := m.take()
		want := 0
		var at time.Time
		if !due.IsZero() && !time.Now().Before(due) {
			want, at = 1, due
			due = time.Time{}
		}
		if len(got) != want {
			rec.Violation("timer-count", "%s fired %d times instead of %d: %v", log, len(got), want, got)
			return false
		}
		if want == 1 {
			rec.Count("fired", 1)
			if !got[0].at.Equal(at) || got[0].event != "fire" {
				rec.Violation("timer-time", "%s fired %s at %v instead of fire at %v", log, got[0].event, got[0].at, at)
			}
		}
		return true
	}
	if splay {
		// only the count of requests is judged
		for i := 0; i < 6; i++ {
			m.move(s.w, verifkit.Pick(r, states))
			synctest.Wait()
			m.take()
			time.Sleep(d + 10*time.Millisecond)
			synctest.Wait()
			got := m.take()
			want := 0
			if active() {
				want = 1
			}
			if len(got) != want {
				rec.Violation("timer-splay", "splayed timer fired %d times instead of %d in %q of %q", len(got), want, m.state, match)
			}
		}
		s.cancel()
		s.wg.Wait()
		return
	}
	for step := 0; step < 5+r.Intn(25); step++ {
		switch k := r.Intn(10); {
		case k < 5:
			n := 1
			if r.Intn(3) == 0 {
				n = 1 + r.Intn(5)
			}
			for j := 0; j < n; j++ {
				if foreign != nil && r.Intn(3) == 0 {
					m.mu.Lock()
					m.lookup["other"] = verifkit.Pick(r, []string{"go", "stop"})
					m.mu.Unlock()
				}
				to := verifkit.Pick(r, states)
				log += " " + to
				m.move(s.w, to)
				if r.Intn(2) == 0 {
					synctest.Wait()
				}
			}
			synctest.Wait()
			was := !due.IsZero()
			if active() {
				if was {
					rec.Count("reset", 1)
				}
				due = time.Now().Add(d)
			} else {
				if was {
					rec.Count("left early", 1)
				}
				due = time.Time{}
			}
		default:
			sl := time.Duration(r.Intn(70))*time.Second + time.Duration(1+r.Intn(900))*time.Millisecond
			log += " " + sl.String()
			time.Sleep(sl)
			synctest.Wait()
		}
		if !check() {
			break
		}
		rec.Case(true, log)
	}
	switch r.Intn(3) {
	case 0:
		s.w.Delete()
	case 1:
		s.cancel()
	default:
		s.cancel()
		s.w.Delete()
	}
	synctest.Wait()
	time.Sleep(10 * time.Minute)
	if got := m.take(); len(got) > 0 {
		rec.Violation("timer-stopped", "%s fired after it was stopped", log)
	}
	s.cancel()
	s.wg.Wait()
}
