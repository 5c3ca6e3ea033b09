package watch

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/expressionwatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
)

// TestC16Expression compares the expression watcher to a reference evaluation of its expressions
func TestC16Expression(t *testing.T) {
	rec := verifkit.New(t, "C16", "an expression watcher asks for success when success_when became true, for failure when it did not and fail_when became true, once per change of the outcome and only in watched states")
	rec.Require("success", 100)
	rec.Require("failure", 100)
	rec.Require("evaluation error", 20)
	rec.Require("unchanged outcome", 100)
	r := verifkit.Rand("c16-expression")
	for i := 0; i < verifkit.N(250, 5000); i++ {
		seed := r.Int63()
		if !rec.Within(120*time.Second, "expression", func() {
			synctest.Test(t, func(t *testing.T) { exprHistory(rec, rand.New(rand.NewSource(seed))) })
		}) {
			return
		}
	}
}

// ev is an expression and what it should be, err when it can not be evaluated
type ev struct {
	src  string
	eval func(d map[string]any, facts map[string]int) (bool, bool)
}

func genExpr(r *rand.Rand, depth int) ev {
	if depth > 0 && r.Intn(2) == 0 {
		a, b := genExpr(r, depth-1), genExpr(r, depth-1)
		switch r.Intn(3) {
		case 0:
			return ev{"(" + a.src + ") && (" + b.src + ")", func(d map[string]any, f map[string]int) (bool, bool) {
				x, e := a.eval(d, f)
				if e || !x {
					return false, e
				}
				return b.eval(d, f)
			}}
		case 1:
			return ev{"(" + a.src + ") || (" + b.src + ")", func(d map[string]any, f map[string]int) (bool, bool) {
				x, e := a.eval(d, f)
				if e || x {
					return x, e
				}
				return b.eval(d, f)
			}}
		default:
			return ev{"!(" + a.src + ")", func(d map[string]any, f map[string]int) (bool, bool) {
				x, e := a.eval(d, f)
				return !x && !e, e
			}}
		}
	}
	n := r.Intn(4)
	switch r.Intn(5) {
	case 0:
		return ev{fmt.Sprintf("data.x > %d", n), func(d map[string]any, _ map[string]int) (bool, bool) {
			v, ok := d["x"].(int)
			return ok && v > n, !ok
		}}
	case 1:
		return ev{fmt.Sprintf("get_fact('deep.y') == %d", n), func(_ map[string]any, f map[string]int) (bool, bool) {
			v, ok := f["y"]
			return ok && v == n, false
		}}
	case 2:
		return ev{fmt.Sprintf("data.mode == 'm%d'", n), func(d map[string]any, _ map[string]int) (bool, bool) {
			return d["mode"] == fmt.Sprintf("m%d", n), false
		}}
	case 3:
		return ev{"identity == 'n1.example.net'", func(map[string]any, map[string]int) (bool, bool) { return true, false }}
	default:
		return ev{fmt.Sprintf("data.mode in ['m%d', 'm0']", n), func(d map[string]any, _ map[string]int) (bool, bool) {
			return d["mode"] == fmt.Sprintf("m%d", n) || d["mode"] == "m0", false
		}}
	}
}

func exprHistory(rec *verifkit.Rec, r *rand.Rand) {
	states := []string{"a", "b", "c"}
	match := verifkit.Subset(r, states)
	m := newFM("")
	m.state = verifkit.Pick(r, states)
	interval := time.Duration(1+r.Intn(20)) * time.Second
	var succ, fail *ev
	props := map[string]any{}
	if r.Intn(5) > 0 {
		e := genExpr(r, 2)
		succ = &e
		props["success_when"] = e.src
	}
	if succ == nil || r.Intn(5) > 0 {
		e := genExpr(r, 2)
		fail = &e
		props["fail_when"] = e.src
	}
	facts := map[string]int{}
	setData := func() {
		m.mu.Lock()
		defer m.mu.Unlock()
		switch r.Intn(4) {
		case 0, 1:
			m.data["x"] = r.Intn(5)
		case 2:
			m.data["mode"] = fmt.Sprintf("m%d", r.Intn(4))
		default:
			facts["y"] = r.Intn(4)
			m.facts = fmt.Sprintf(`{"deep":{"y":%d}}`, facts["y"])
		}
		if r.Intn(12) == 0 {
			delete(m.data, "x")
		}
		if r.Intn(20) == 0 {
			m.data["x"] = "text"
		}
	}
	m.data["x"] = r.Intn(5)
	setData()
	wi, err := expressionwatcher.New(m, "e", match, nil, "bad", "good", interval.String(), 0, props)
	if err != nil {
		rec.Violation("expression-refused", "%v: %v", props, err)
		return
	}
	began := time.Now()
	s := start(wi)
	prev := "skipped"
	var wants []fire
	hist := []string{fmt.Sprintf("%v in %q every %v", props, match, interval)}
	evaluate := func(at time.Time) {
		out := "none"
		switch {
		case len(match) > 0 && !contains(match, m.State()):
			out = "skipped"
		default:
			d := m.Data()
			if succ != nil {
				ok, bad := succ.eval(d, facts)
				if bad {
					out = "error"
				} else if ok {
					out = "good"
				}
			}
			if fail != nil && out == "none" {
				ok, bad := fail.eval(d, facts)
				if bad {
					out = "error"
				} else if ok {
					out = "bad"
				}
			}
		}
		hist = append(hist, fmt.Sprintf("%v %s %v %v: %s", at.Sub(began), m.State(), m.Data(), facts, out))
		if out == "error" {
			rec.Count("evaluation error", 1)
		}
		if out == "good" || out == "bad" {
			if prev != out {
				wants = append(wants, fire{at, out})
			} else {
				rec.Count("unchanged outcome", 1)
			}
		}
		prev = out
	}
	tick := began.Add(interval)
	running := true
	advance := func(to time.Time) {
		for !tick.After(to) {
			time.Sleep(time.Until(tick))
			synctest.Wait()
			if running {
				evaluate(tick)
			}
			tick = tick.Add(interval)
		}
		time.Sleep(time.Until(to))
		synctest.Wait()
	}
	for step := 0; step < 10+r.Intn(30); step++ {
		at := time.Now().Add(time.Duration(r.Intn(int(2*interval/time.Second)+1))*time.Second + 300*time.Millisecond)
		if at.Sub(began)%interval == 0 {
			at = at.Add(50 * time.Millisecond)
		}
		advance(at)
		if r.Intn(3) == 0 {
			m.move(s.w, verifkit.Pick(r, states))
			synctest.Wait()
			evaluate(time.Now())
		} else {
			setData()
		}
	}
	running = false
	switch r.Intn(2) {
	case 0:
		s.w.Delete()
	default:
		s.cancel()
	}
	synctest.Wait()
	for i := 0; i < 5; i++ {
		setData()
		m.move(s.w, verifkit.Pick(r, states))
		time.Sleep(interval)
	}
	s.cancel()
	s.wg.Wait()
	got := m.take()
	desc := strings.Join(hist, "\n  ")
	rec.Case(len(wants) > 0, desc)
	for i := 0; i < len(got) || i < len(wants); i++ {
		if i >= len(got) || i >= len(wants) || got[i].event != wants[i].event || !got[i].at.Equal(wants[i].at) {
			g, w := "nothing", "nothing"
			if i < len(got) {
				g = fmt.Sprintf("%s at %v", got[i].event, got[i].at.Sub(began))
			}
			if i < len(wants) {
				w = fmt.Sprintf("%s at %v", wants[i].event, wants[i].at.Sub(began))
			}
			rec.Violation("expression-outcome", "asked for %s instead of %s: %s", g, w, desc)
			return
		}
		if got[i].event == "good" {
			rec.Count("success", 1)
		} else {
			rec.Count("failure", 1)
		}
	}
}
