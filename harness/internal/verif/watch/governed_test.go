package watch

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/execwatcher"
	"github.com/choria-io/go-choria/internal/util"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/lifecycle"
	governor "github.com/choria-io/go-choria/providers/governor/streams"
	"github.com/nats-io/jsm.go"
)

// TestC19Exec has exec watchers run commands under governors
func TestC19Exec(t *testing.T) {
	rec := verifkit.New(t, "C19", "commands of exec watchers run only while their watcher holds a slot of its governor, no more at once than it admits, and the slot is free again once the command ended in whatever way")
	rec.Require("governed", 12)
	rec.Require("refused", 3)
	store := t.TempDir()
	srv, err := vfake.StartNATS(store, nil)
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	defer srv.Stop()
	nc, err := srv.Connect()
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	defer nc.Close()
	js, err := jsm.New(nc)
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}

	var wg sync.WaitGroup
	for round := 0; round < verifkit.N(4, 40); round++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := verifkit.Rand(fmt.Sprintf("c19-exec-%d", round))
			limit := 1 + r.Intn(2)
			name := fmt.Sprintf("EXEC%d", round)
			mgr, err := governor.NewManager(name, uint64(limit), time.Hour, 1, nc, true, governor.WithSubject(util.GovernorSubject(name, "mcollective")))
			if err != nil {
				rec.Inconclusive("%v", err)
				return
			}
			dir := t.TempDir()
			type worker struct {
				m    *fm
				s    *started
				kind string
				done chan string
			}
			var ws []*worker
			for i := 0; i < 4; i++ {
				m := newFM(dir)
				m.js = js
				// the name of the governor comes from the data of the machine
				m.data["gov"] = name
				w := &worker{m: m, kind: verifkit.Pick(r, []string{"ok", "ok", "fails", "killed", "missing", "template"}), done: make(chan string, 10)}
				if i == 0 {
					w.kind = "ok"
				}
				m.onFire = func(e string) { w.done <- e }
				end := map[string]string{"ok": "exit 0", "fails": "exit 3", "killed": "kill -9 $$"}[w.kind]
				command := script(t, dir, fmt.Sprintf("cmd%d.sh", i), fmt.Sprintf("touch %s/running.%d; while [ ! -e %s/go.%d ]; do sleep 0.05; done\nrm %s/running.%d\n%s", dir, i, dir, i, dir, i, end))
				switch w.kind {
				case "missing":
					command = filepath.Join(dir, "nonexisting")
				case "template":
					command = `{{ lookup "data.broken" `
				}
				wi, err := execwatcher.New(m, fmt.Sprintf("ex%d", i), nil, nil, "bad", "good", "", 0, map[string]any{"command": command, "timeout": "10m", "governor": `{{ lookup "data.gov" "" }}`, "governor_timeout": "10m"})
				if err != nil {
					rec.Violation("governed-refused", "%v", err)
					return
				}
				w.s = start(wi)
				ws = append(ws, w)
			}
			// attempts the network did not answer within a second can leave a slot behind
			unclear := func() bool {
				for _, w := range ws {
					w.m.mu.Lock()
					for _, e := range w.m.lc {
						if g, ok := e.(*lifecycle.GovernorEvent); ok && g.EventType == lifecycle.GovernorTimeoutEvent {
							w.m.mu.Unlock()
							rec.Count("unclear", 1)
							return true
						}
					}
					w.m.mu.Unlock()
				}
				return false
			}
			running := func() []string { l, _ := filepath.Glob(filepath.Join(dir, "running.*")); return l }
			for _, w := range ws {
				w.s.w.NotifyStateChance()
			}
			finished := map[int]bool{}
			deadline := time.Now().Add(3 * time.Minute)
			for len(finished) < len(ws) {
				if unclear() {
					return
				}
				if time.Now().After(deadline) {
					rec.Violation("governed-stuck", "%d of %d commands ended within 3 minutes", len(finished), len(ws))
					return
				}
				run := running()
				if len(run) > limit {
					rec.Violation("governed-capacity", "%d commands run at once under a governor of %d: %v", len(run), limit, run)
					return
				}
				if len(run) > 0 {
					act, err := mgr.Active()
					// those that run keep running until told to end
					if err == nil && int(act) < len(run) {
						rec.Violation("governed-unheld", "%d commands run while %d slots are held", len(run), act)
						return
					}
					if r.Intn(4) == 0 {
						var i int
						fmt.Sscan(strings.TrimPrefix(filepath.Ext(run[0]), "."), &i)
						os.WriteFile(filepath.Join(dir, fmt.Sprintf("go.%d", i)), nil, 0o600)
						finished[i] = true
						select {
						case e := <-ws[i].done:
							if want := map[bool]string{true: "good", false: "bad"}[ws[i].kind == "ok"]; e != want {
								rec.Violation("governed-outcome", "asked for %s after a command that %s", e, ws[i].kind)
							}
						case <-time.After(time.Minute):
							rec.Violation("governed-end", "nothing was asked for after the command ended")
							return
						}
						rec.Count("governed", 1)
					}
				}
				for i, w := range ws {
					if finished[i] || w.kind != "missing" && w.kind != "template" {
						continue
					}
					select {
					case e := <-w.done:
						finished[i] = true
						rec.Count("governed", 1)
						if e != "bad" {
							rec.Violation("governed-outcome", "asked for %s after a command that is %s", e, w.kind)
						}
					default:
					}
				}
				time.Sleep(20 * time.Millisecond)
			}
			// the transition is asked for after the slot was given up
			if unclear() {
				return
			}
			act, err := mgr.Active()
			if err != nil {
				rec.Inconclusive("%v", err)
				return
			}
			if act != 0 {
				rec.Violation("governed-left", "%d slots are held after all commands ended", act)
				return
			}
			rec.Case(true, fmt.Sprintf("limit %d: %s %s %s %s", limit, ws[0].kind, ws[1].kind, ws[2].kind, ws[3].kind))
			for _, w := range ws {
				var got []string
				w.m.mu.Lock()
				for _, e := range w.m.lc {
					g, ok := e.(*lifecycle.GovernorEvent)
					if !ok || g.Governor != name {
						rec.Violation("governed-event", "announced %v", e)
						continue
					}
					got = append(got, string(g.EventType))
				}
				w.m.mu.Unlock()
				if strings.Join(got, ",") != "enter,exit" {
					rec.Violation("governed-event", "announced %v rather than entering and leaving", got)
				}
			}

			// a watcher that is refused for as long as it waits never runs its command
			m := ws[0].m
			hold := governor.New(name, nc, governor.WithSubject(util.GovernorSubject(name, "mcollective")))
			var fins []governor.Finisher
			for i := 0; i < limit; i++ {
				h := hold
				if i > 0 {
					h = governor.New(name, nc, governor.WithSubject(util.GovernorSubject(name, "mcollective")))
				}
				fin, _, err := h.Start(t.Context(), "monitor")
				if err != nil {
					rec.Inconclusive("%v", err)
					return
				}
				fins = append(fins, fin)
			}
			mark := filepath.Join(dir, "ran")
			for _, gov := range []string{name, "UNKNOWN" + name} {
				m2 := newFM(dir)
				m2.js = js
				fired := make(chan string, 10)
				m2.onFire = func(e string) { fired <- e }
				wi, err := execwatcher.New(m2, "refused", nil, nil, "bad", "good", "", 0, map[string]any{"command": "touch " + mark, "timeout": "1m", "governor": gov, "governor_timeout": "1500ms"})
				if err != nil {
					rec.Violation("governed-refused", "%v", err)
					return
				}
				s := start(wi)
				s.w.NotifyStateChance()
				select {
				case e := <-fired:
					if e != "bad" {
						rec.Violation("governed-outcome", "asked for %s without a slot", e)
					}
				case <-time.After(time.Minute):
					rec.Violation("governed-timeout", "nothing was asked for a minute after waiting for %s", gov)
				}
				rec.Count("refused", 1)
				if _, err := os.Stat(mark); err == nil {
					rec.Violation("governed-unheld", "a command ran without a slot of %s", gov)
				}
				if act, err := mgr.Active(); err == nil && int(act) != limit {
					rec.Violation("governed-left", "%d slots are held by %d others", act, limit)
				}
				s.cancel()
				s.wg.Wait()
			}
			// one that is stopped while it waits ends at once and runs nothing
			os.Remove(filepath.Join(dir, "go.0"))
			m.take()
			ws[0].s.w.NotifyStateChance()
			time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			ws[0].s.cancel()
			if !verifkit.Eventually(time.Minute, func() bool {
				done := make(chan struct{})
				go func() { ws[0].s.wg.Wait(); close(done) }()
				select {
				case <-done:
					return true
				case <-time.After(time.Second):
					return false
				}
			}) {
				rec.Violation("governed-stop", "a watcher waiting for a slot did not stop within a minute")
			}
			if len(running()) > 0 {
				rec.Violation("governed-unheld", "a command ran without a slot")
			}
			for _, f := range fins {
				f()
			}
			for _, w := range ws[1:] {
				w.s.cancel()
				w.s.wg.Wait()
			}
			if act, err := mgr.Active(); err == nil && act != 0 {
				rec.Violation("governed-left", "%d slots are held after all ended", act)
			}
		}()
	}
	wg.Wait()
}
