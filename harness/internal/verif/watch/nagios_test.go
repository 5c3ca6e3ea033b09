package watch

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	autil "github.com/choria-io/go-choria/aagent/util"
	"github.com/choria-io/go-choria/aagent/watchers/nagioswatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
)

// TestC16Nagios runs plugins with every way of ending
func TestC16Nagios(t *testing.T) {
	rec := verifkit.New(t, "C16", "a nagios watcher asks for the state named by the exit code of its plugin, for UNKNOWN on anything else, on every check and never outside of its states, checks at once when forced and reports what the plugin said")
	for _, s := range []string{"OK", "WARNING", "CRITICAL", "UNKNOWN"} {
		rec.Require(s, 10)
	}
	rec.Require("forced", 20)
	r := verifkit.Rand("c16-nagios")
	for i := 0; i < verifkit.N(80, 1500); i++ {
		seed := r.Int63()
		if !rec.Within(120*time.Second, "nagios", func() {
			dir, err := os.MkdirTemp(t.TempDir(), "")
			if err != nil {
				t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			synctest.Test(t, func(t *testing.T) { nagiosHistory(t, rec, rand.New(rand.NewSource(seed)), dir) })
		}) {
			return
		}
	}
}

func nagiosHistory(t testing.TB, rec *verifkit.Rec, r *rand.Rand, dir string) {
	states := []string{"OK", "WARNING", "CRITICAL", "UNKNOWN", "OTHER"}
	var match []string
	if r.Intn(2) == 0 {
		match = []string{"OK", "WARNING", "CRITICAL", "UNKNOWN"}
	}
	m := newFM(dir)
	m.state = verifkit.Pick(r, states)
	text := verifkit.Pick(r, []string{"OK: fine", "CRITICAL - disk | /=10%;1;2 used=5MB", "a|b|c", "", "|", "x | ", "x | =1 a= b=c ' '=' '", "multi\nline | a=1\nb=2", "é | ü=1s", "x | 'a'=1;2;3;4;5 b=-1.5e"})
	codes := filepath.Join(dir, "code")
	marks := filepath.Join(dir, "marks")
	os.WriteFile(filepath.Join(dir, "text"), []byte(text), 0644)
	script(t, dir, "check.sh", "echo run >> marks\ncat text\nread c < code\ncase $c in s*) kill -${c#s} $$;; esac\nexit $c")
	plugin := verifkit.Pick(r, []string{"./check.sh", filepath.Join(dir, "check.sh") + ` "an argument"`, `{{ o "command" "./check.sh" }}`})
	broken := r.Intn(8) == 0
	if broken {
		plugin = verifkit.Pick(r, []string{"/nonexisting", "''", `sh -c 'x`, `{{ o "command" "" }}`, "{{ bad", "./text"})
	}
	d := time.Duration(5+r.Intn(60)) * time.Second
	interval := d.String()
	if r.Intn(4) == 0 {
		interval = ""
	}
	wi, err := nagioswatcher.New(m, "ng", match, nil, "", "", interval, 0, map[string]any{"plugin": plugin, "timeout": "60s"})
	if err != nil {
		rec.Violation("nagios-refused", "%v", err)
		return
	}
	desc := fmt.Sprintf("plugin %q printing %q every %q in %q", plugin, text, interval, match)
	code, want := "0", "OK"
	setCode := func() {
		want = verifkit.Pick(r, []string{"OK", "WARNING", "CRITICAL", "UNKNOWN", "UNKNOWN"})
		switch want {
		case "OK":
			code = "0"
		case "WARNING":
			code = "1"
		case "CRITICAL":
			code = "2"
		default:
			code = fmt.Sprint(3 + r.Intn(253))
			if r.Intn(4) == 0 {
				code = verifkit.Pick(r, []string{"s9", "s15", "s6"})
			}
		}
		if broken {
			want = "UNKNOWN"
		}
		os.WriteFile(codes, []byte(code+"\n"), 0644)
	}
	setCode()
	s := start(wi)
	runs := 0
	verify := func(why string, lo, hi int) bool {
		synctest.Wait()
		got := m.take()
		runs += len(got)
		if len(got) < lo || len(got) > hi {
			rec.Violation("nagios-count", "asked for %v after %s, between %d and %d were due: %s", got, why, lo, hi, desc)
			return false
		}
		for _, g := range got {
			if g.event != want {
				rec.Violation("nagios-outcome", "asked for %s after a plugin ended with %s: %s", g.event, code, desc)
				return false
			}
			rec.Count(want, 1)
		}
		if !broken {
			mk, _ := os.ReadFile(marks)
			if n := strings.Count(string(mk), "run"); n != runs {
				rec.Violation("nagios-runs", "ran %d times for %d transitions: %s", n, runs, desc)
				return false
			}
			if len(got) > 0 {
				st, ok := m.notes[len(m.notes)-1].(*nagioswatcher.StateNotification)
				if !ok || st.Output != strings.TrimSpace(text) || st.Status != want || !reflect.DeepEqual(st.PerfData, autil.ParsePerfData(text)) || len(st.History) == 0 || len(st.History) > 15 {
					rec.Violation("nagios-report", "reported %#v: %s", st, desc)
					return false
				}
			}
		}
		return true
	}
	ok := true
	for step := 0; ok && step < 8; step++ {
		rec.Case(true, fmt.Sprintf("%s %s %d", desc, code, step))
		switch r.Intn(3) {
		case 0:
			m.mu.Lock()
			was := m.state
			m.state = "FORCE_CHECK"
			m.mu.Unlock()
			// machines are locked while they notify their watchers
			s.w.NotifyStateChance()
			s.w.NotifyStateChance()
			ok = verify("being forced", 1, 2)
			rec.Count("forced", 1)
			m.mu.Lock()
			m.state = was
			m.mu.Unlock()
		case 1:
			m.move(s.w, verifkit.Pick(r, states))
			ok = verify("moving", 0, 0)
		default:
			n := 1 + r.Intn(4)
			time.Sleep(time.Duration(n)*d + d/3)
			lo, hi := n-2, n+2
			if interval == "" || len(match) > 0 && m.State() == "OTHER" {
				lo, hi = 0, 0
			}
			ok = verify(fmt.Sprintf("%d intervals in %s", n, m.State()), max(lo, 0), hi)
		}
		setCode()
	}
	s.cancel()
	s.wg.Wait()
	time.Sleep(10 * time.Minute)
	if got := m.take(); len(got) > 0 {
		rec.Violation("nagios-stopped", "asked for %v after being stopped: %s", got, desc)
	}
}

// TestC16PerfData parses well formed and hostile performance data
func TestC16PerfData(t *testing.T) {
	rec := verifkit.New(t, "C16", "well formed performance data is reported exactly and nothing a plugin prints crashes the watcher")
	rec.Require("metrics", 1000)
	r := verifkit.Rand("c16-perf")
	units := []string{"", "s", "us", "ms", "%", "B", "KB", "MB", "TB", "c"}
	for i := 0; i < verifkit.N(3000, 100000); i++ {
		var want []autil.PerfData
		var parts []string
		for j := 0; j < r.Intn(5); j++ {
			v := float64(r.Intn(200000)) / float64(verifkit.Pick(r, []int{1, 10, 100}))
			u := verifkit.Pick(r, units)
			l := verifkit.Pick(r, []string{"a", "time", "/var", "a_b", "x.y", "Ünïcode", "size-1"})
			p := fmt.Sprintf("%s=%v%s", l, v, u)
			if r.Intn(2) == 0 {
				p += fmt.Sprintf(";%d;%d", r.Intn(10), r.Intn(10))
			}
			if r.Intn(4) == 0 {
				p = "'" + strings.Replace(p, "=", "'=", 1)
				continue // quoted labels are not supported
			}
			parts = append(parts, p)
			want = append(want, autil.PerfData{Label: l, Value: v, Unit: u})
		}
		line := "OK - all fine | " + strings.Join(parts, " ")
		rec.Case(true, line)
		rec.Count("metrics", len(want))
		var got []autil.PerfData
		rec.NoPanic("perf", line, func() { got = autil.ParsePerfData(line) })
		if len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
			rec.Violation("perf-value", "parsed %q into %v instead of %v", line, got, want)
		}
		hostile, _ := verifkit.MutateBytes(r, []byte(line))
		rec.NoPanic("perf", fmt.Sprintf("%q", hostile), func() { autil.ParsePerfData(string(hostile)) })
	}
}
