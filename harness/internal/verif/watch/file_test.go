package watch

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/filewatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
)

// TestC16File compares the file watcher to the files it watches
func TestC16File(t *testing.T) {
	rec := verifkit.New(t, "C16", "a file watcher asks for success exactly once per change of a file, for failure at every check that finds no file and for nothing while it is unchanged or its states are not active, and files it manages hold their contents and mode after every check")
	rec.Require("changed", 100)
	rec.Require("missing", 50)
	rec.Require("unchanged", 100)
	rec.Require("restored", 50)
	r := verifkit.Rand("c16-file")
	for i := 0; i < verifkit.N(200, 4000); i++ {
		seed := r.Int63()
		if !rec.Within(120*time.Second, "file", func() {
			dir, err := os.MkdirTemp(t.TempDir(), "")
			if err != nil {
				t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			synctest.Test(t, func(t *testing.T) { fileHistory(rec, rand.New(rand.NewSource(seed)), dir) })
		}) {
			return
		}
	}
}

func fileHistory(rec *verifkit.Rec, r *rand.Rand, dir string) {
	states := []string{"a", "b", "c"}
	match := verifkit.Subset(r, states)
	m := newFM(dir)
	m.state = verifkit.Pick(r, states)
	interval := time.Duration(1+r.Intn(20)) * time.Second
	managed := r.Intn(3) == 0
	initial := !managed && r.Intn(3) == 0
	path := filepath.Join(dir, "watched")
	props := map[string]any{"path": "watched", "gather_initial_state": initial}
	if r.Intn(3) == 0 {
		props["path"] = path
	}
	mode := verifkit.Pick(r, []string{"0644", "0600", "0755", "0440"})
	var perm os.FileMode
	fmt.Sscanf(mode, "%o", &perm)
	if managed {
		props["contents"] = "value {{ lookup \"data.v\" \"default\" }}\nfact {{ lookup \"facts.f\" \"none\" }}\n"
		props["mode"] = mode
		u, g := "root", "root"
		if os.Geteuid() != 0 {
			return
		}
		props["owner"], props["group"] = u, g
	}
	expect := func() string {
		m.mu.Lock()
		defer m.mu.Unlock()
		v, ok := m.data["v"]
		if !ok {
			v = "default"
		}
		f := "none"
		if strings.Contains(m.facts, "f1") {
			f = "f1"
		}
		return fmt.Sprintf("value %v\nfact %s\n", v, f)
	}
	// times of files are not those of the virtual clock
	mt := time.Now().Add(-time.Hour)
	touch := func() {
		mt = mt.Add(time.Duration(1+r.Intn(5000)) * time.Millisecond)
		if err := os.Chtimes(path, mt, mt); err != nil {
			panic(err)
		}
	}
	write := func() {
		if err := os.WriteFile(path, []byte(fmt.Sprint(r.Int63())), 0644); err != nil {
			panic(err)
		}
		touch()
	}
	if r.Intn(3) > 0 {
		write()
	}
	wi, err := filewatcher.New(m, "f", match, nil, "bad", "good", interval.String(), 0, props)
	if err != nil {
		rec.Violation("file-refused", "%v: %v", props, err)
		return
	}
	var known time.Time // the last time seen
	if initial {
		if st, err := os.Stat(path); err == nil {
			known = st.ModTime()
		}
	}
	dirty, other := true, true // managed: something changed since the last check, other than facts and data which can change back
	began := time.Now()
	s := start(wi)
	synctest.Wait()
	hist := []string{fmt.Sprintf("%v in %q every %v, state %s", props, match, interval, m.State())}
	var before []byte
	look := func() { before, _ = os.ReadFile(path) }
	check := func(why string) bool {
		got := m.take()
		want := ""
		switch {
		case len(match) > 0 && !contains(match, m.State()):
			if managed {
				after, _ := os.ReadFile(path)
				if string(after) != string(before) {
					rec.Violation("file-managed-left", "changed the file while not active: %s", strings.Join(hist, "\n  "))
				}
			}
		case managed:
			c, err := os.ReadFile(path)
			st, serr := os.Stat(path)
			if err != nil || serr != nil || string(c) != expect() || st.Mode() != perm {
				rec.Violation("file-contents", "holds %q %v (%v) instead of %q %v: %s", c, st, err, expect(), perm, strings.Join(hist, "\n  "))
				return false
			}
			if dirty {
				want = "good"
				rec.Count("restored", 1)
			}
			dirty, other = false, false
			if fs, _ := filepath.Glob(filepath.Join(dir, "choria-fwatcher-*")); len(fs) > 0 {
				rec.Violation("file-temporary", "left %v behind", fs)
			}
		default:
			st, err := os.Stat(path)
			switch {
			case err != nil:
				want = "bad"
				known = time.Time{}
				rec.Count("missing", 1)
			case st.ModTime().After(known):
				want = "good"
				known = st.ModTime()
				rec.Count("changed", 1)
			default:
				rec.Count("unchanged", 1)
			}
		}
		look()
		hist = append(hist, fmt.Sprintf("%v %s in %s: %v", time.Since(began), why, m.State(), got))
		if len(hist) > 12 {
			hist = append(hist[:1], hist[2:]...)
		}
		if want == "" && len(got) != 0 || want != "" && (len(got) != 1 || got[0].event != want || !got[0].at.Equal(time.Now())) {
			rec.Violation("file-outcome", "asked for %v instead of %q: %s", got, want, strings.Join(hist, "\n  "))
			return false
		}
		return true
	}
	tick := began.Add(interval)
	advance := func(to time.Time) bool {
		for !tick.After(to) {
			time.Sleep(time.Until(tick))
			synctest.Wait()
			if !check("tick") {
				return false
			}
			tick = tick.Add(interval)
		}
		time.Sleep(time.Until(to))
		synctest.Wait()
		return true
	}
	ok := true
	look()
	for step := 0; ok && step < 10+r.Intn(30); step++ {
		at := time.Now().Add(time.Duration(r.Intn(int(2*interval/time.Second)+1))*time.Second + 300*time.Millisecond)
		if at.Sub(began)%interval == 0 {
			at = at.Add(50 * time.Millisecond)
		}
		if ok = advance(at); !ok {
			break
		}
		switch k := r.Intn(12); {
		case k < 4:
			m.move(s.w, verifkit.Pick(r, states))
			synctest.Wait()
			ok = check("moved")
		case k == 4:
			os.Remove(path)
			hist = append(hist, "removed")
			dirty, other = true, true
		case k == 5 && managed:
			m.DataPut("v", r.Intn(3))
			dirty = other || string(func() []byte { b, _ := os.ReadFile(path); return b }()) != expect()
			hist = append(hist, "data changed")
		case k == 6 && managed:
			m.mu.Lock()
			m.facts = verifkit.Pick(r, []string{`{}`, `{"f":"f1"}`})
			m.mu.Unlock()
			b, _ := os.ReadFile(path)
			dirty = other || string(b) != expect()
			hist = append(hist, "facts changed")
		case k == 7 && managed:
			if os.Chmod(path, 0700) == nil {
				hist = append(hist, "mode changed")
				dirty, other = true, true
			}
		case k == 8 && managed:
			// changed without a trace in its times
			if st, err := os.Stat(path); err == nil {
				os.WriteFile(path, []byte("hidden"), perm)
				os.Chtimes(path, st.ModTime(), st.ModTime())
				hist = append(hist, "changed hidden")
				dirty, other = true, true
			}
		case k < 10:
			if managed {
				os.WriteFile(path, []byte(fmt.Sprint(r.Int63())), 0644)
				hist = append(hist, "written")
				dirty, other = true, true
			} else {
				write()
				hist = append(hist, "written")
			}
		}
		look()
		rec.Case(true, fmt.Sprintf("%v %v %d", props, match, step))
	}
	s.cancel()
	s.wg.Wait()
	m.take()
	os.WriteFile(path, []byte("x"), 0644)
	m.move(s.w, "a")
	time.Sleep(5 * interval)
	if got := m.take(); len(got) > 0 {
		rec.Violation("file-stopped", "asked for %v after being stopped", got)
	}
}
