package watch

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/schedulewatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/robfig/cron"
)

// TestC16Schedule compares schedules to their cron specification over hours of virtual time
func TestC16Schedule(t *testing.T) {
	rec := verifkit.New(t, "C16", "a schedule asks for its success transition when a window opens while its state is watched or when such a state is entered in a window, and for its failure transition when the window closes or such a state is entered outside of one, within seconds and never otherwise")
	rec.Require("window opened", 50)
	rec.Require("window closed", 50)
	rec.Require("entered in window", 10)
	rec.Require("entered outside of windows", 20)
	rec.Require("entry skipped", 2)
	r := verifkit.Rand("c16-schedule")
	for i := 0; i < verifkit.N(60, 1200); i++ {
		seed := r.Int63()
		if !rec.Within(300*time.Second, "schedule", func() {
			synctest.Test(t, func(t *testing.T) { scheduleHistory(rec, rand.New(rand.NewSource(seed))) })
		}) {
			return
		}
	}
}

type window struct{ from, to time.Time }

// want is a transition that has to be asked for between two times
type want struct {
	event    string
	from, to time.Time
	why      string
}

func scheduleHistory(rec *verifkit.Rec, r *rand.Rand) {
	specs := []string{"*/10 * * * *", "5,35 * * * *", "0 */2 * * *", "17 1,5 * * *", "*/7 * * * *", "1,4 * * * *", "30 1 * * 0", "50 23 * * *", "59 * * * *", "40-41 */3 * * 1-5"}
	var sel []any
	for i := 0; i < 1+r.Intn(2); i++ {
		sel = append(sel, verifkit.Pick(r, specs))
	}
	dur := []time.Duration{0, 37 * time.Second, 2*time.Minute + 17*time.Second, 8*time.Minute + 23*time.Second, 43*time.Minute + 27*time.Second}[r.Intn(5)]
	props := map[string]any{"schedules": sel}
	if dur > 0 {
		props["duration"] = dur.String()
	} else {
		dur = time.Minute // the default
	}
	skip := r.Intn(2) == 0
	props["skip_trigger_on_reenter"] = skip
	var splay time.Duration
	if r.Intn(3) == 0 && dur > 2*time.Minute {
		splay = 40 * time.Second
		props["start_splay"] = splay.String()
	}
	time.Sleep(time.Duration(r.Intn(7*24*60))*time.Minute + time.Duration(10+r.Intn(30))*time.Second + time.Duration(r.Intn(1000))*time.Millisecond)
	begin := time.Now()
	length := 3 * time.Hour
	if verifkit.Thorough() {
		length = 9 * time.Hour
	}
	end := begin.Add(length)

	// the periods that are on
	var all []window
	for _, sp := range sel {
		sch, err := cron.NewParser(cron.Minute | cron.Hour | cron.Dom | cron.Month | cron.Dow).Parse(sp.(string))
		if err != nil {
			panic(err)
		}
		for at := sch.Next(begin); at.Before(end.Add(time.Hour)); at = sch.Next(at) {
			all = append(all, window{at, at.Add(dur)})
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].from.Before(all[j].from) })
	var on []window
	for _, w := range all {
		if len(on) > 0 {
			last := &on[len(on)-1]
			if w.from.Equal(last.from) || w.from.Before(last.to.Add(-splay-15*time.Second)) {
				if w.to.After(last.to) {
					last.to = w.to
				}
				continue
			}
			if w.from.Before(last.to.Add(15 * time.Second)) {
				return // windows that touch are not judged
			}
		}
		on = append(on, w)
	}
	const tol = 4 * time.Second
	sure := func(at time.Time) bool {
		for _, w := range on {
			if at.After(w.from.Add(-tol)) && at.Before(w.from.Add(tol+splay)) || at.After(w.to.Add(-tol)) && at.Before(w.to.Add(tol)) {
				return false
			}
		}
		return true
	}
	during := func(at time.Time) int {
		for i, w := range on {
			if at.After(w.from) && at.Before(w.to) {
				return i
			}
		}
		return -1
	}

	m := newFM("")
	match := []string{"a", "b"}
	m.state = verifkit.Pick(r, []string{"a", "b", "c"})
	wi, err := schedulewatcher.New(m, "s", match, nil, "off", "on", "", 0, props)
	if err != nil {
		rec.Violation("schedule-refused", "%v: %v", props, err)
		return
	}
	s := start(wi)

	desc := fmt.Sprintf("%v for %v splay %v skip %v from %s:", sel, dur, splay, skip, begin.Format("Mon 15:04:05"))
	triggered := map[int]bool{}
	active := contains(match, m.state)
	var wants []want
	last := begin
	edges := func(to time.Time) {
		if !active {
			return
		}
		for i, w := range on {
			if w.from.After(last) && w.from.Before(to) {
				wants = append(wants, want{"on", w.from.Add(-tol), w.from.Add(splay + tol), "window opening"})
				triggered[i] = true
			}
			if w.to.After(last) && w.to.Before(to) {
				wants = append(wants, want{"off", w.to.Add(-tol), w.to.Add(tol), "window closing"})
			}
		}
	}
	opened, closed, inWin, outWin, skipped := 0, 0, 0, 0, 0
	for {
		d := time.Duration(15+r.Intn(2000)) * time.Second
		if r.Intn(3) == 0 {
			d = time.Duration(15+r.Intn(120)) * time.Second
		}
		time.Sleep(d)
		synctest.Wait()
		now := time.Now()
		if now.After(end) {
			break
		}
		if !sure(now) {
			continue
		}
		edges(now)
		to := verifkit.Pick(r, []string{"a", "b", "c", "d"})
		m.move(s.w, to)
		synctest.Wait()
		desc += fmt.Sprintf(" %s@%v", to, now.Sub(begin))
		was := active
		active = contains(match, to)
		last = now
		if active && !was {
			i := during(now)
			switch {
			case i < 0:
				wants = append(wants, want{"off", now, now.Add(tol), "entry outside of windows"})
				outWin++
			case skip && triggered[i]:
				skipped++
			default:
				wants = append(wants, want{"on", now, now.Add(tol), "entry in a window"})
				triggered[i] = true
				inWin++
			}
		}
	}
	// stop at a time that is certain
	for !sure(time.Now()) {
		time.Sleep(time.Second)
	}
	synctest.Wait()
	edges(time.Now())
	s.cancel()
	s.wg.Wait()
	time.Sleep(2 * time.Hour)
	synctest.Wait()
	fires := m.take()
	sort.SliceStable(wants, func(i, j int) bool { return wants[i].from.Before(wants[j].from) })
	rec.Case(len(wants) > 0, desc)
	for i := 0; i < len(fires) || i < len(wants); i++ {
		switch {
		case i >= len(wants):
			rec.Violation("schedule-surplus", "asked for %s at %v without a reason: %s", fires[i].event, fires[i].at.Sub(begin), desc)
			return
		case i >= len(fires), fires[i].at.After(wants[i].to):
			rec.Violation("schedule-missed", "did not ask for %s between %v and %v on %s: %s", wants[i].event, wants[i].from.Sub(begin), wants[i].to.Sub(begin), wants[i].why, desc)
			return
		case fires[i].event != wants[i].event || fires[i].at.Before(wants[i].from):
			rec.Violation("schedule-wrong", "asked for %s at %v instead of %s between %v and %v on %s: %s", fires[i].event, fires[i].at.Sub(begin), wants[i].event, wants[i].from.Sub(begin), wants[i].to.Sub(begin), wants[i].why, desc)
			return
		}
		switch wants[i].why {
		case "window opening":
			opened++
		case "window closing":
			closed++
		}
	}
	rec.Count("window opened", opened)
	rec.Count("window closed", closed)
	rec.Count("entered in window", inWin)
	rec.Count("entered outside of windows", outWin)
	rec.Count("entry skipped", skipped)
}

// TestC16ScheduleRace runs a few histories for the race detector
func TestC16ScheduleRace(t *testing.T) {
	rec := verifkit.New(t, "C16", "schedules do not race")
	r := verifkit.Rand("c16-schedule-race")
	for i := 0; i < verifkit.N(14, 60); i++ {
		seed := r.Int63()
		if !rec.Within(300*time.Second, "schedule", func() {
			synctest.Test(t, func(t *testing.T) { scheduleHistory(rec, rand.New(rand.NewSource(seed))) })
		}) {
			return
		}
	}
}
