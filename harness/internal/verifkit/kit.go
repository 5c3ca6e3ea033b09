// Package verifkit is the monitoring kit shared by the verification harnesses
// in /verif. It is only ever compiled through a build overlay.
package verifkit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Rec records what one monitor observed
type Rec struct {
	mu       sync.Mutex
	t        *testing.T
	name     string
	prop     string
	rule     string
	evals    int
	distinct map[uint64]struct{}
	samples  []any
	counters map[string]int
	viols    map[string]int
	notes    []string
	require  map[string]int
	start    time.Time
	done     bool
}

// Seed is the seed of this run
func Seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// Thorough is true when the deep tier is running
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// N picks a workload size by tier
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Rand is a deterministic source derived from the seed and a label
func Rand(label string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(label))
	return rand.New(rand.NewSource(Seed()*1000003 + int64(h.Sum64()>>1)))
}

// New starts a monitor for property prop, it reports when the test ends
func New(t *testing.T, prop string, rule string) *Rec {
	r := &Rec{t: t, name: t.Name(), prop: prop, rule: rule, distinct: map[uint64]struct{}{}, counters: map[string]int{}, viols: map[string]int{}, require: map[string]int{}, start: time.Now()}
	t.Cleanup(r.flush)
	return r
}

func emit(m map[string]any) {
	j, err := json.Marshal(m)
	if err != nil {
		j, _ = json.Marshal(map[string]any{"t": "error", "error": err.Error()})
	}
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		fmt.Fprintln(os.Stderr, string(j))
		return
	}
	f, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0600)
	if err != nil {
		panic(err)
	}
	f.Write(append(j, '\n'))
	f.Close()
}

// Case records one evaluation; nontrivial ones are counted by their distinct identity
func (r *Rec) Case(nontrivial bool, id string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(id))
	k := h.Sum64()
	if _, ok := r.distinct[k]; ok {
		return
	}
	r.distinct[k] = struct{}{}
	if len(r.samples) < 4 || (len(r.samples) < 8 && len(r.distinct)%997 == 0) {
		if len(id) > 400 {
			id = id[:400] + "..."
		}
		r.samples = append(r.samples, id)
	}
}

// Count counts something the monitor saw
func (r *Rec) Count(what string, n int) {
	r.mu.Lock()
	r.counters[what] += n
	r.mu.Unlock()
}

// Require makes the run inconclusive unless what was counted at least n times
func (r *Rec) Require(what string, n int) {
	r.mu.Lock()
	r.require[what] = n
	r.mu.Unlock()
}

// Note adds a remark to the evidence
func (r *Rec) Note(f string, a ...any) {
	r.mu.Lock()
	r.notes = append(r.notes, fmt.Sprintf(f, a...))
	r.mu.Unlock()
}

// Violation records a refuted property, key identifies the kind of failure
func (r *Rec) Violation(key string, f string, a ...any) {
	r.mu.Lock()
	r.viols[key]++
	n := r.viols[key]
	r.mu.Unlock()
	if n > 3 {
		return
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	emit(map[string]any{"t": "violation", "prop": r.prop, "test": r.name, "key": key, "detail": d})
}

// Failed is true once a violation was recorded
func (r *Rec) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viols) > 0
}

// Inconclusive reports that the monitor could not decide
func (r *Rec) Inconclusive(f string, a ...any) {
	emit(map[string]any{"t": "inconclusive", "prop": r.prop, "test": r.name, "detail": fmt.Sprintf(f, a...)})
}

// Check is a small assertion helper
func (r *Rec) Check(ok bool, key string, f string, a ...any) bool {
	if !ok {
		r.Violation(key, f, a...)
	}
	return ok
}

func (r *Rec) flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done {
		return
	}
	r.done = true
	for what, n := range r.require {
		if r.counters[what] < n && len(r.viols) == 0 {
			emit(map[string]any{"t": "inconclusive", "prop": r.prop, "test": r.name, "detail": fmt.Sprintf("saw %d %s, needed %d", r.counters[what], what, n)})
		}
	}
	emit(map[string]any{"t": "coverage", "prop": r.prop, "test": r.name, "rule": r.rule, "evaluations": r.evals, "distinct": len(r.distinct),
		"samples": r.samples, "counters": r.counters, "notes": r.notes, "violations": r.viols, "wall_s": time.Since(r.start).Seconds()})
}

// NoPanic runs f and turns a panic into a violation. Panics on other goroutines crash
// the process and are judged by the runner.
func (r *Rec) NoPanic(key string, input any, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
			r.Violation("panic:"+key, "panic %v\ninput: %v\n%s", e, input, RepoFrames())
		}
	}()
	f()
	return true
}

// RepoFrames lists frames of the current stack that are in the repository proper
func RepoFrames() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	frames := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		fr, more := frames.Next()
		if strings.Contains(fr.Function, "choria-io/go-choria") && !strings.Contains(fr.Function, "verif") && !strings.HasSuffix(fr.File, "_test.go") {
			out = append(out, fmt.Sprintf("%s %s:%d", fr.Function, filepath.Base(fr.File), fr.Line))
		}
		if !more {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Within runs f, that must finish in a logical bound that is tiny compared to the generous
// watchdog. When the watchdog fires while code of the repository is blocked it is a lost
// progress violation carrying the goroutine dump, otherwise it is inconclusive.
func (r *Rec) Within(d time.Duration, key string, f func()) bool {
	done := make(chan struct{})
	var pan any
	var frames string
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				pan = e
				frames = RepoFrames()
			}
		}()
		f()
	}()
	select {
	case <-done:
		if pan != nil {
			r.Violation("panic:"+key, "panic %v\n%s", pan, frames)
			return false
		}
		return true
	case <-time.After(d):
		dump := Blocked()
		if dump == "" {
			r.Inconclusive("%s did not finish within %v and no repository code is blocked", key, d)
		} else {
			r.Violation("hang:"+key, "no progress for %v in %s:\n%s", d, key, dump)
		}
		return false
	}
}

// Blocked returns the stacks of goroutines blocked in repository code
func Blocked() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.Contains(g, "choria-io/go-choria/") {
			continue
		}
		lines := strings.Split(g, "\n")
		repo := false
		for i := 1; i < len(lines); i++ {
			l := lines[i]
			if strings.HasPrefix(l, "github.com/choria-io/go-choria/") && !strings.Contains(l, "/verif") {
				repo = true
				break
			}
		}
		if repo {
			if len(lines) > 24 {
				lines = lines[:24]
			}
			out = append(out, strings.Join(lines, "\n"))
		}
	}
	sort.Strings(out)
	s := strings.Join(out, "\n\n")
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

// Eventually polls until cond holds, returning false when the generous watchdog fires
func Eventually(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// J is compact json for messages
func J(v any) string {
	j, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(j)
}

// Pick picks a random element
func Pick[T any](r *rand.Rand, items []T) T { return items[r.Intn(len(items))] }

// Subset picks a random subset, keeping order
func Subset[T any](r *rand.Rand, items []T) []T {
	out := []T{}
	for _, i := range items {
		if r.Intn(2) == 0 {
			out = append(out, i)
		}
	}
	return out
}
