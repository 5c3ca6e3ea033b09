package watch

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/execwatcher"
	"github.com/choria-io/go-choria/aagent/watchers/nagioswatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
)

// TestC16Exec runs real commands, their results have to be those asked for
func TestC16Exec(t *testing.T) {
	rec := verifkit.New(t, "C16", "an exec watcher runs its command once per check in watched states only, with the data and facts of the machine, asks for success when the command succeeded and for failure on anything else, stores valid output and leaves no temporary files")
	rec.Require("success", 50)
	rec.Require("failure", 50)
	rec.Require("not active", 20)
	rec.Require("stored output", 5)
	tmp := t.TempDir()
	t.Setenv("TMPDIR", tmp)
	r := verifkit.Rand("c16-exec")
	for i := 0; i < verifkit.N(150, 2500); i++ {
		seed := r.Int63()
		if !rec.Within(120*time.Second, "exec", func() {
			dir, err := os.MkdirTemp(t.TempDir(), "")
			if err != nil {
				t.Fatal(err)
			}
			defer os.RemoveAll(dir)
			synctest.Test(t, func(t *testing.T) { execHistory(t, rec, rand.New(rand.NewSource(seed)), dir) })
		}) {
			return
		}
		if l, _ := filepath.Glob(filepath.Join(tmp, "*")); len(l) > 0 {
			rec.Violation("exec-temporary", "left %v behind", l)
			return
		}
	}
}

type behave struct {
	body    string
	ok      bool
	stored  map[string]any
	command string
}

func behaviour(r *rand.Rand) behave {
	switch r.Intn(16) {
	case 0, 1, 2:
		return behave{body: "echo fine; exit 0", ok: true}
	case 3:
		return behave{body: fmt.Sprintf("exit %d", 1+r.Intn(255))}
	case 4:
		return behave{body: "kill -9 $$"}
	case 5:
		return behave{body: "kill -TERM $$"}
	case 6, 13, 14, 15:
		return behave{body: `echo '{"x":1,"s":"y","l":[1,2]}'`, ok: true, stored: map[string]any{"x": 1.0, "s": "y", "l": []any{1.0, 2.0}}}
	case 7:
		return behave{body: `echo '{"x":1'`, ok: true}
	case 8:
		return behave{body: `echo 'null'`, ok: true, stored: map[string]any{}}
	case 9:
		return behave{body: `head -c 300000 /dev/zero | tr '\0' 'x'`, ok: true}
	case 10:
		return behave{command: "/nonexisting/command"}
	case 11:
		return behave{command: `sh -c 'unbalanced`}
	default:
		return behave{command: `{{ lookup "data.broken" `}
	}
}

func execHistory(t testing.TB, rec *verifkit.Rec, r *rand.Rand, dir string) {
	states := []string{"a", "b", "c"}
	match := verifkit.Subset(r, states)
	m := newFM(dir)
	m.state = verifkit.Pick(r, states)
	b := behaviour(r)
	parse := b.body != "" && r.Intn(2) == 0
	disown := !parse && r.Intn(4) == 0
	marks := filepath.Join(dir, "marks")
	out := filepath.Join(dir, "seen")
	script(t, dir, "cmd.sh", fmt.Sprintf("echo run >> %s\ncat \"$WATCHER_DATA\" > %s.data\ncat \"$WATCHER_FACTS\" > %s.facts\nprintf '%%s|%%s|%%s|%%s' \"$1\" \"$EXTRA\" \"$MACHINE_NAME\" \"$MACHINE_WATCHER_NAME\" > %s\n%s", marks, out, out, out, b.body))
	command := b.command
	if command == "" {
		command = `./cmd.sh "{{ lookup "data.arg" "none" }}"`
	}
	want := b.ok
	var stored map[string]any
	if parse {
		if b.stored == nil {
			want = false
		}
		stored = b.stored
	}
	interval := ""
	d := time.Duration(2+r.Intn(20)) * time.Second
	if r.Intn(3) > 0 {
		interval = d.String()
	}
	m.data["arg"] = verifkit.Pick(r, []any{"plain", "with space", 12.5, true})
	m.facts = fmt.Sprintf(`{"f":%d}`, r.Intn(100))
	props := map[string]any{"command": command, "timeout": "60s", "parse_as_data": parse, "disown": disown, "environment": []any{"PATH=/usr/bin:/bin", `EXTRA=v{{ lookup "facts.f" "-" }}`}}
	wi, err := execwatcher.New(m, "ex", match, nil, "bad", "good", interval, 0, props)
	if err != nil {
		rec.Violation("exec-refused", "%v: %v", props, err)
		return
	}
	desc := fmt.Sprintf("command %q body %q parse %v disown %v in %q every %q", command, b.body, parse, disown, match, interval)
	began := time.Now()
	s := start(wi)
	runs := 0
	check := func(n int, why string) bool {
		synctest.Wait()
		got := m.take()
		if len(match) > 0 && !contains(match, m.State()) {
			rec.Count("not active", n)
			n = 0
		}
		runs += n
		ev := "bad"
		if want {
			ev = "good"
		}
		if len(got) != n {
			rec.Violation("exec-count", "asked for %v after %d checks (%s in %s): %s", got, n, why, m.State(), desc)
			return false
		}
		for _, g := range got {
			if g.event != ev {
				rec.Violation("exec-outcome", "asked for %s instead of %s: %s", g.event, ev, desc)
				return false
			}
		}
		if n > 0 && want {
			rec.Count("success", n)
		} else {
			rec.Count("failure", n)
		}
		if b.body != "" {
			mk, _ := os.ReadFile(marks)
			if c := strings.Count(string(mk), "run"); c != runs {
				rec.Violation("exec-runs", "ran %d times for %d checks: %s", c, runs, desc)
				return false
			}
			if n > 0 {
				seen, _ := os.ReadFile(out)
				dj, _ := os.ReadFile(out + ".data")
				fj, _ := os.ReadFile(out + ".facts")
				var sd map[string]any
				json.Unmarshal(dj, &sd)
				cur := m.Data()
				for k := range stored { // stored after it ran
					delete(cur, k)
					delete(sd, k)
				}
				if string(fj) != m.facts || !reflect.DeepEqual(sd, cur) {
					rec.Violation("exec-data", "gave data %s and facts %s instead of %v and %s: %s", dj, fj, m.Data(), m.facts, desc)
				}
				var f struct{ F int }
				json.Unmarshal([]byte(m.facts), &f)
				if ws := fmt.Sprintf("%v|v%d|mon|ex", m.data["arg"], f.F); string(seen) != ws {
					rec.Violation("exec-environment", "ran with %q instead of %q: %s", seen, ws, desc)
				}
			}
		}
		if n > 0 && parse {
			for k, v := range stored {
				if g, _ := m.DataGet(k); !reflect.DeepEqual(g, v) {
					rec.Violation("exec-stored", "stored %v instead of %v: %s", g, v, desc)
				}
			}
			rec.Count("stored output", len(stored))
		}
		return true
	}
	ok := true
	tick := began.Add(d)
	for step := 0; ok && step < 6; step++ {
		n := r.Intn(3)
		for i := 0; ok && i < n; i++ {
			time.Sleep(time.Until(tick))
			tick = tick.Add(d)
			if interval != "" {
				ok = check(1, "interval")
			} else {
				ok = check(0, "no interval")
			}
		}
		time.Sleep(time.Second / 3)
		if r.Intn(2) == 0 {
			m.mu.Lock()
			m.data["arg"] = verifkit.Pick(r, []any{"plain", "with space", 12.5, true, "changed"})
			m.facts = fmt.Sprintf(`{"f":%d}`, r.Intn(100))
			m.mu.Unlock()
		}
		if ok {
			m.move(s.w, verifkit.Pick(r, states))
			ok = check(1, "moved")
		}
		tick = began.Add(time.Since(began).Truncate(d) + d)
		rec.Case(true, fmt.Sprintf("%s %d", desc, step))
	}
	s.cancel()
	s.wg.Wait()
	m.move(s.w, "a")
	time.Sleep(time.Minute)
	if got := m.take(); len(got) > 0 {
		rec.Violation("exec-stopped", "asked for %v after being stopped: %s", got, desc)
	}
}

// TestC16Timeouts runs commands that do not end, in real time
func TestC16Timeouts(t *testing.T) {
	rec := verifkit.New(t, "C16", "commands and plugins that exceed their timeout are failures even when they or their children ignore signals or hold on to their output, the watcher keeps working and stops at shutdown")
	rec.Require("timed out", 6)
	dir := t.TempDir()
	pids := filepath.Join(dir, "pids")
	bodies := map[string]string{
		"sleep":   "exec sleep 120",
		"ignore":  "trap '' TERM INT HUP; echo $$ >> " + pids + "; while :; do sleep 1; done",
		"holding": "sleep 120 & echo $! >> " + pids + "; exec sleep 120",
		"output":  "yes & echo $! >> " + pids + "; exec yes",
	}
	defer func() {
		// what the timeouts do not reach
		b, _ := os.ReadFile(pids)
		for _, p := range strings.Fields(string(b)) {
			var pid int
			if fmt.Sscan(p, &pid); pid > 1 {
				if pr, err := os.FindProcess(pid); err == nil {
					pr.Kill()
				}
			}
		}
	}()
	var wg sync.WaitGroup
	for name, body := range bodies {
		if name == "output" && !verifkit.Thorough() {
			continue
		}
		for _, kind := range []string{"exec", "nagios"} {
			wg.Add(1)
			go func() {
				defer wg.Done()
				m := newFM(dir)
				cmd := script(t, dir, kind+"-"+name+".sh", body)
				fired := make(chan string, 100)
				m.onFire = func(s string) { fired <- s }
				var w any
				var err error
				want := "bad"
				if kind == "exec" {
					w, err = execwatcher.New(m, "ex", nil, nil, "bad", "good", "", 0, map[string]any{"command": cmd, "timeout": "500ms"})
				} else {
					want = "UNKNOWN"
					w, err = nagioswatcher.New(m, "ng", nil, nil, "", "", "", 0, map[string]any{"plugin": cmd, "timeout": "500ms"})
				}
				if err != nil {
					rec.Violation("timeout-refused", "%v", err)
					return
				}
				rec.Case(true, kind+" "+name)
				s := start(w)
				for i := 0; i < 2; i++ {
					if kind == "nagios" {
						m.mu.Lock()
						m.state = "FORCE_CHECK"
						m.mu.Unlock()
					}
					s.w.NotifyStateChance()
					select {
					case e := <-fired:
						if e != want {
							rec.Violation("timeout-outcome:"+kind, "asked for %s after a timeout", e)
						}
						rec.Count("timed out", 1)
					case <-time.After(60 * time.Second):
						rec.Violation("timeout-missed:"+kind, "a command (%s) with a timeout of 500ms did not fail within a minute", body)
						return
					}
				}
				s.cancel()
				done := make(chan struct{})
				go func() { s.wg.Wait(); close(done) }()
				select {
				case <-done:
				case <-time.After(60 * time.Second):
					rec.Violation("timeout-stop:"+kind, "did not stop within a minute")
				}
			}()
		}
	}
	wg.Wait()
}
