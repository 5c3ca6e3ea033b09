package watch

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent/util"
	"github.com/choria-io/go-choria/aagent/watchers/metricwatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
)

const runtimeMetric = "choria_runtime_seconds"

// gathered is what a command said
type gathered struct {
	Labels  map[string]string  `json:"labels"`
	Metrics map[string]float64 `json:"metrics"`
	Time    int64              `json:"time"`
}

func (g *gathered) String() string {
	if g == nil {
		return "nothing"
	}
	return verifkit.J(g)
}

func (g *gathered) same(o *gathered) bool {
	// whether there is a format when the command unset all labels is not specified
	labels := map[string]string{}
	for k, v := range o.Labels {
		if k != "format" || g.Labels["format"] != "" {
			labels[k] = v
		}
	}
	if len(o.Metrics) != len(g.Metrics) || verifkit.J(g.Labels) != verifkit.J(labels) {
		return false
	}
	for k, v := range g.Metrics {
		x, ok := o.Metrics[k]
		if !ok || x != v {
			return false
		}
	}
	return true
}

// metricWatch is a watcher whose command says what the test wants
type metricWatch struct {
	m        *fm
	name     string
	props    map[string]any
	labels   map[string]string
	prom     bool
	store    bool
	graphite bool
	slow     bool
	empty    bool
	base     string
	started  *started

	// last is the last usable result, kind what the command says now, round when it did
	last  *gathered
	kind  string
	round int
	bad   int
	// badRuns are rounds in which the output can not be used
	badRuns []int
	since   time.Time
	fresh   bool
}

func (w *metricWatch) runs(round int) int {
	b, _ := os.ReadFile(fmt.Sprintf("%s.%d.log", w.base, round))
	return strings.Count(string(b), "x")
}

func (w *metricWatch) fails() int {
	n := 0
	w.m.mu.Lock()
	defer w.m.mu.Unlock()
	for _, f := range w.m.fires {
		if f.event == "fail_"+w.name {
			n++
		}
	}
	return n
}

// seen is the last state the watcher announced
func (w *metricWatch) seen() (*gathered, bool) {
	w.m.mu.Lock()
	n, ok := w.m.latest[w.name].(*metricwatcher.StateNotification)
	w.m.mu.Unlock()
	if !ok {
		return nil, false
	}
	j, _ := n.JSON()
	e := struct {
		Data struct {
			Name    string   `json:"name"`
			Machine string   `json:"machine"`
			Metrics gathered `json:"metrics"`
		} `json:"data"`
	}{}
	err := json.Unmarshal(j, &e)
	if err != nil || e.Data.Name != w.name || e.Data.Machine != w.m.Name() {
		return nil, false
	}
	g := e.Data.Metrics
	if _, ok := g.Metrics[runtimeMetric]; !ok {
		return nil, false
	}
	delete(g.Metrics, runtimeMetric)
	return &g, true
}

func genValue(r *rand.Rand) float64 {
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return -float64(r.Intn(1000)) / 8
	case 2:
		return float64(r.Int63n(1 << 45))
	case 3:
		return float64(r.Intn(100000)) / 1000
	}
	return float64(r.Intn(1000))
}

// say has the command output something new
func (w *metricWatch) say(rec *verifkit.Rec, r *rand.Rand, round int, kinds []string) {
	w.round = round
	w.kind = verifkit.Pick(r, kinds)
	w.fresh = false
	g := &gathered{Labels: map[string]string{}, Metrics: map[string]float64{"round": float64(round)}}
	out, rc := "", 0
	tick := func(g *gathered) {
		for k, v := range w.labels {
			g.Labels[k] = v
		}
		w.last = g
	}
	switch w.kind {
	case "json", "nulls":
		var names = []string{"v%d", "load-%d", "disk.%d", "Used%d", "größe%d", "rx:%d"}
		if !w.graphite {
			names = append(names, "two words %d", "%d/var", "a{b=\"%d\"}")
		}
		for i := r.Intn(6); i > 0; i-- {
			g.Metrics[fmt.Sprintf(verifkit.Pick(r, names), i)] = genValue(r)
		}
		doc := map[string]any{"metrics": g.Metrics}
		labels := map[string]any{}
		for _, l := range verifkit.Subset(r, []string{"format", "site", "the-path", "quote", "9lives", "over", "line", "dot.ted"}) {
			v := map[string]string{"format": "special", "site": "Main Office", "the-path": `C:\new`, "quote": `say "a,b"`, "9lives": "{cat}", "over": "ridden", "line": "one\ntwo", "dot.ted": "ü"}[l]
			labels[l] = v
			g.Labels[l] = v
		}
		if len(labels) > 0 || r.Intn(2) == 0 {
			doc["labels"] = labels
		}
		if _, ok := g.Labels["format"]; !ok {
			g.Labels["format"] = "choria"
		}
		if w.kind == "nulls" {
			doc["labels"] = nil
			g.Labels = map[string]string{}
			if r.Intn(2) == 0 {
				doc["metrics"] = nil
				g.Metrics = map[string]float64{}
			}
		}
		j, _ := json.Marshal(doc)
		out = verifkit.Pick(r, []string{"", " \n"}) + string(j)
		tick(g)
	case "nagios":
		g.Labels["format"] = "nagios"
		out = "OK: all is well | round=" + fmt.Sprint(round)
		for i := r.Intn(6); i > 0; i-- {
			v := genValue(r)
			label := fmt.Sprintf(verifkit.Pick(r, []string{"time%d", "/var%d", "it-s%d", "Size.%d"}), i)
			shown := label
			switch r.Intn(4) {
			case 0:
				shown = "'" + label + "'"
			case 1:
				label = fmt.Sprintf(verifkit.Pick(r, []string{"my disk %d", "C: drive %d"}), i)
				shown = "'" + label + "'"
				label = strings.ReplaceAll(label, " ", "_")
			}
			g.Metrics[label] = v
			out += verifkit.Pick(r, []string{" ", "  "}) + shown + "=" + strconv.FormatFloat(v, 'f', -1, 64) + verifkit.Pick(r, []string{"", "s", "ms", "%", "B", "KB", "c"}) + verifkit.Pick(r, []string{"", ";1;2;0;100", ";;;", ";@10:20"})
		}
		tick(g)
	case "plain":
		g.Labels["format"] = "nagios"
		g.Metrics = map[string]float64{}
		out = "nothing to see"
		tick(g)
	case "bad":
		w.badRuns = append(w.badRuns, round)
		out = verifkit.Pick(r, []string{`{"metrics":`, `{"metrics":{"v":"x"}}`, `{"metrics":[1]}`, `{"labels":{"a":1}}`})
	case "exit":
		out = `{"metrics":{"wrong":1}}`
		rc = 1 + r.Intn(3)
	}
	body := fmt.Sprintf("test \"$MACHINE_WATCHER_NAME\" = '%s' && test \"$MACHINE_NAME\" = '%s' && test \"$1\" = 'db server' || exit 9\ncat <<'THEEND'\n%s\nTHEEND\nprintf x >> '%s.%d.log'\nexit %d\n", w.name, w.m.Name(), out, w.base, round, rc)
	tmp := w.base + ".tmp"
	os.WriteFile(tmp, []byte(body), 0600)
	w.since = time.Now()
	os.Rename(tmp, w.base+".sh")
	rec.Count("said "+w.kind, 1)
}

func (w *metricWatch) usable() bool {
	return w.kind == "json" || w.kind == "nulls" || w.kind == "nagios" || w.kind == "plain"
}

// sample is a line in a Prometheus file
type sample struct {
	name   string
	labels map[string]string
	value  float64
}

var (
	promType   = regexp.MustCompile(`^# TYPE ([a-zA-Z_:][a-zA-Z0-9_:]*) gauge$`)
	promHelp   = regexp.MustCompile(`^# HELP ([a-zA-Z_:][a-zA-Z0-9_:]*) .+$`)
	promSample = regexp.MustCompile(`^([a-zA-Z_:][a-zA-Z0-9_:]*)(\{((?:[a-zA-Z_][a-zA-Z0-9_]*="(?:[^"\\\n]|\\["\\n])*",?)*)\})? (\S+)$`)
	promLabel  = regexp.MustCompile(`([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\["\\n])*)"`)
)

// parseProm parses the file like Prometheus does
func parseProm(body string) ([]sample, error) {
	var res []sample
	typed := map[string]bool{}
	group := ""
	seen := map[string]bool{}
	if body != "" && !strings.HasSuffix(body, "\n") {
		return nil, fmt.Errorf("the last line is cut off")
	}
	for _, l := range strings.Split(strings.TrimSuffix(body, "\n"), "\n") {
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "#") {
			if m := promType.FindStringSubmatch(l); m != nil {
				if typed[m[1]] {
					return nil, fmt.Errorf("second type of %s", m[1])
				}
				typed[m[1]] = true
				group = m[1]
			} else if promHelp.FindStringSubmatch(l) == nil {
				return nil, fmt.Errorf("invalid comment %q", l)
			}
			continue
		}
		m := promSample.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("invalid line %q", l)
		}
		if m[1] != group {
			return nil, fmt.Errorf("%q is outside of its group %q", l, group)
		}
		s := sample{name: m[1], labels: map[string]string{}}
		for _, lm := range promLabel.FindAllStringSubmatch(m[3], -1) {
			if _, dup := s.labels[lm[1]]; dup {
				return nil, fmt.Errorf("label %s twice in %q", lm[1], l)
			}
			s.labels[lm[1]] = strings.NewReplacer(`\\`, `\`, `\n`, "\n", `\"`, `"`).Replace(lm[2])
		}
		var err error
		s.value, err = strconv.ParseFloat(m[4], 64)
		if err != nil {
			return nil, fmt.Errorf("invalid value in %q", l)
		}
		key := s.name + verifkit.J(s.labels)
		if seen[key] {
			return nil, fmt.Errorf("%s appears twice", key)
		}
		seen[key] = true
		res = append(res, s)
	}
	return res, nil
}

// plainName drops what differs between names and how they can be written for Prometheus
func plainName(s string) string {
	return regexp.MustCompile(`[^a-z0-9]`).ReplaceAllString(strings.ToLower(s), "_")
}

func plainLabels(l map[string]string) string {
	var res []string
	for k, v := range l {
		res = append(res, strings.Trim(plainName(k), "_")+"="+strings.NewReplacer(" ", "_", ",", "_", `"`, "_").Replace(strings.ToLower(v)))
	}
	sort.Strings(res)
	return strings.Join(res, ",")
}

// carbon is a graphite server
type carbon struct {
	l     net.Listener
	mu    sync.Mutex
	conns map[string][]map[string]float64
	bad   []string
}

func newCarbon() (*carbon, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	c := &carbon{l: l, conns: map[string][]map[string]float64{}}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				got := map[string]float64{}
				prefix := ""
				sc := bufio.NewScanner(conn)
				for sc.Scan() {
					p := strings.Split(sc.Text(), " ")
					var v float64
					var ts int64
					var err, terr error
					if len(p) == 3 {
						v, err = strconv.ParseFloat(p[1], 64)
						ts, terr = strconv.ParseInt(p[2], 10, 64)
					}
					pfx, name, ok := strings.Cut(p[0], "::.")
					if len(p) != 3 || err != nil || terr != nil || !ok || time.Since(time.Unix(ts, 0)).Abs() > time.Hour {
						c.mu.Lock()
						c.bad = append(c.bad, sc.Text())
						c.mu.Unlock()
						continue
					}
					prefix = pfx
					got[name] = v
				}
				c.mu.Lock()
				c.conns[prefix] = append(c.conns[prefix], got)
				c.mu.Unlock()
			}()
		}
	}()
	return c, nil
}

// TestC32Metrics gathers metrics with many watchers in many machines
func TestC32Metrics(t *testing.T) {
	rec := verifkit.New(t, "C32", "what metric commands last output is what Prometheus files, HTTP clients, events, machine data and graphite get, whatever other watchers do and however odd the names; unusable output changes nothing and fires the failure transition, deleted watchers leave nothing behind")
	rec.Require("settled", 40)
	rec.Require("settled after unusable output", 5)
	rec.Require("slow watchers kept", 5)
	rec.Require("graphite", 5)
	rec.Require("deleted", 2)
	rec.Require("replaced", 2)
	r := verifkit.Rand("metrics")
	dir := t.TempDir()
	prom := filepath.Join(dir, "prom")
	os.Mkdir(prom, 0700)
	promFile := filepath.Join(prom, "choria_machine_metrics_watcher_status.prom")
	hub := newWeb()
	gr, err := newCarbon()
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	defer gr.l.Close()
	_, port, _ := net.SplitHostPort(gr.l.Addr().String())

	machines := map[string]*fm{}
	for _, n := range []string{"mon", "mon_web", "Front End", "plain"} {
		f := newFM(dir)
		f.name = n
		f.http = hub.srv
		f.textDir = prom
		f.facts = `{"role":"db server","graphite":{"host":"127.0.0.1","port":` + port + `}}`
		machines[n] = f
	}

	var all []*metricWatch
	base := 0
	var smu sync.Mutex
	launch := func(w *metricWatch) bool {
		x, err := metricwatcher.New(w.m, w.name, []string{"a"}, nil, "fail_"+w.name, "success_"+w.name, "", 0, w.props)
		if err != nil {
			rec.Violation("metric-new", "%s: %v", verifkit.J(w.props), err)
			return false
		}
		smu.Lock()
		w.started = start(x)
		smu.Unlock()
		return true
	}
	add := func(machine string, name string, opts string) *metricWatch {
		base++
		w := &metricWatch{m: machines[machine], name: name, labels: map[string]string{}, base: filepath.Join(dir, fmt.Sprintf("w%d", base)), prom: !strings.Contains(opts, "noprom"), store: strings.Contains(opts, "store"), graphite: strings.Contains(opts, "graphite"), slow: strings.Contains(opts, "slow")}
		if r.Intn(4) > 0 || w.prom {
			w.labels["w"] = fmt.Sprintf("w%d", base)
		}
		if r.Intn(2) == 0 {
			w.labels["over"] = "Configured"
		}
		w.props = map[string]any{"command": fmt.Sprintf(`/bin/sh %s.sh "{{ lookup "facts.role" "?" }}"`, w.base), "interval": "1s", "labels": w.labels, "skip_prometheus": !w.prom, "store": w.store, "http": true}
		if w.graphite {
			w.props["graphite_host"] = `{{ lookup "facts.graphite.host" "?" }}`
			w.props["graphite_port"] = `{{ lookup "facts.graphite.port" "?" }}`
			w.props["graphite_prefix"] = fmt.Sprintf("w%d::", base)
		}
		if w.slow {
			w.props["interval"] = "7s"
		}
		if strings.Contains(opts, "empty") {
			w.empty = true
			w.props["command"] = verifkit.Pick(r, []string{`{{ lookup "facts.unknown" "" }}`, " "})
		}
		all = append(all, w)
		return w
	}
	add("mon", "web_cpu", "store")
	add("mon", "net io", "store graphite")
	add("mon", "slow", "store slow")
	add("mon", "hidden", "store noprom")
	add("mon_web", "cpu", "store")
	add("mon_web", "Disk-IO", "")
	add("mon_web", "web.rate", "graphite")
	add("mon_web", "weekly", "slow")
	add("Front End", "cpu", "")
	add("Front End", "größe", "store")
	add("Front End", "temp", "")
	add("Front End", "mute", "noprom graphite store")
	add("plain", "never", "empty")
	add("plain", "cpu", "")

	for _, w := range all {
		w.say(rec, r, 0, []string{"json", "nagios"})
		if !launch(w) {
			return
		}
	}
	defer func() {
		for _, w := range all {
			w.started.cancel()
			w.started.wg.Wait()
			w.started.w.Delete()
			runs := 0
			for _, b := range w.badRuns {
				runs += w.runs(b)
			}
			if got := w.fails(); got > runs {
				rec.Violation("metric-fail", "%s of %s requested %d failure transitions while its output could not be used %d times", w.name, w.m.Name(), got, runs)
			}
		}
		b, err := os.ReadFile(promFile)
		if err != nil || len(b) > 0 {
			rec.Violation("metric-deleted", "all watchers were deleted but the Prometheus file has %q: %v", b, err)
		}
		left, _ := filepath.Glob(filepath.Join(prom, "*"))
		if len(left) != 1 {
			rec.Violation("metric-files", "the text file directory has %v", left)
		}
		for _, f := range machines {
			for _, x := range f.take() {
				if !strings.HasPrefix(x.event, "fail_") {
					rec.Violation("metric-transition", "%s requested %s", f.name, x.event)
				}
			}
		}
	}()

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// others look at the states of watchers all the time
	go func() {
		for ctx.Err() == nil {
			for _, w := range all[:10] {
				smu.Lock()
				s := w.started
				smu.Unlock()
				s.w.CurrentState()
				hub.ask("GET", metricURL, w.m.Name(), w.name, "")
			}
			time.Sleep(time.Millisecond)
		}
	}()

	// as does what collects the text file
	var written atomic.Bool
	go func() {
		for ctx.Err() == nil {
			if written.Load() && !rec.Failed() {
				body, err := os.ReadFile(promFile)
				switch samples, perr := parseProm(string(body)); {
				case ctx.Err() != nil:
				case err != nil:
					rec.Violation("prom-reader", "the Prometheus file cannot be read: %v", err)
				case perr != nil || len(samples) == 0 || !strings.HasSuffix(string(body), "\n"):
					rec.Violation("prom-partial", "the Prometheus file is incomplete at times: %v: %q", perr, body)
				}
				rec.Count("text file reads", 1)
			}
			time.Sleep(200 * time.Microsecond)
		}
	}()

	var away *fm
	for round := 0; round < verifkit.N(7, 40) && !rec.Failed(); round++ {
		began := map[*metricWatch]int{}
		if round > 0 {
			// one machine is elsewhere for a round
			if away != nil {
				away.mu.Lock()
				away.state = "a"
				away.mu.Unlock()
				away = nil
			} else if round%3 == 1 {
				away = machines[verifkit.Pick(r, []string{"Front End", "plain"})]
				away.mu.Lock()
				away.state = "b"
				away.mu.Unlock()
			}
			for _, w := range all {
				if w.empty || w.slow && (round < 3 || round%3 > 0) {
					continue
				}
				if w.m == away {
					began[w] = w.runs(w.round)
					continue
				}
				kinds := []string{"json", "json", "nagios", "nulls", "plain", "bad", "exit"}
				if w.slow {
					kinds = []string{"json", "nagios"}
				}
				w.say(rec, r, round, kinds)
			}
		}

		for _, w := range all {
			if w.empty || w.m == away {
				continue
			}
			w.settle(rec, round)
		}
		if rec.Failed() {
			return
		}
		for _, w := range all {
			if n, ok := began[w]; ok && w.runs(w.round) > n+1 {
				rec.Violation("metric-unwatched", "%s of %s ran %d times more in a state it does not watch", w.name, w.m.Name(), w.runs(w.round)-n)
			}
			w.check(rec, hub, gr)
		}
		body, _ := os.ReadFile(promFile)
		checkProm(rec, all, string(body), round)
		written.Store(true)

		// one is deleted and one is replaced
		if round%2 == 1 {
			w := all[r.Intn(6)]
			w.started.cancel()
			w.started.wg.Wait()
			if code, b := hub.ask("GET", metricURL, w.m.Name(), w.name, ""); code != 400 || b != "metric not found" {
				rec.Violation("metric-deleted", "a stopped watcher answered %d %s", code, b)
			}
			w.started.w.Delete()
			w.last = nil
			body, _ := os.ReadFile(promFile)
			checkProm(rec, all, string(body), round)
			rec.Count("deleted", 1)
			w.m.mu.Lock()
			delete(w.m.latest, w.name)
			w.m.mu.Unlock()
			w.say(rec, r, round+1000, []string{"json", "nagios"})
			if !launch(w) {
				return
			}
			w.settle(rec, round)
		} else {
			w := all[6+r.Intn(2)*2]
			if w.m == away {
				continue
			}
			old := w.started
			w.say(rec, r, round+2000, []string{"json", "nagios"})
			if !launch(w) {
				return
			}
			w.settle(rec, round)
			ok := verifkit.Eventually(40*time.Second, func() bool { return w.runs(round+2000) > 3 })
			old.cancel()
			old.wg.Wait()
			if code, b := hub.ask("GET", metricURL, w.m.Name(), w.name, ""); ok && code != 200 {
				rec.Violation("metric-replaced", "a watcher that replaced another answered %d %s", code, b)
			}
			rec.Count("replaced", 1)
		}
	}
}

// settle waits until what the command says was seen
func (w *metricWatch) settle(rec *verifkit.Rec, round int) {
	if !w.usable() {
		before := w.bad
		if verifkit.Eventually(45*time.Second, func() bool { return w.runs(w.round) >= 2 }) {
			w.fresh = true
			rec.Count("settled after unusable output", 1)
		}
		if w.kind == "bad" {
			if got := w.fails(); w.fresh && got < before+1 {
				rec.Violation("metric-fail", "%s of %s requested no failure transition though its output can not be used", w.name, w.m.Name())
			}
			w.bad = w.fails()
		}
		return
	}
	var got *gathered
	if w.fresh {
		return
	}
	ok := verifkit.Eventually(45*time.Second, func() bool {
		g, ok := w.seen()
		if !ok || g.Time < w.since.Unix() {
			return false
		}
		got = g
		return w.last.same(g)
	})
	if w.fails() != w.bad {
		// one that started before could have fired late
		w.bad = w.fails()
	}
	if ok {
		w.fresh = true
		rec.Count("settled", 1)
		rec.Case(true, w.kind+" "+w.last.String())
		return
	}
	if w.runs(w.round) >= 5 {
		rec.Violation("metric-event", "%s of %s ran %d times since its output became %s, the last event has %s", w.name, w.m.Name(), w.runs(w.round), w.last, got)
		return
	}
	rec.Count("slow", 1)
}

// check looks at all but Prometheus
func (w *metricWatch) check(rec *verifkit.Rec, hub *web, gr *carbon) {
	code, body := hub.ask("GET", metricURL, w.m.Name(), w.name, "")
	g := &gathered{}
	err := json.Unmarshal([]byte(body), g)
	if code != 200 || err != nil {
		rec.Violation("metric-http", "%s of %s answered %d %q", w.name, w.m.Name(), code, body)
		return
	}
	if w.empty {
		if len(g.Metrics) > 0 || g.Time != 0 {
			rec.Violation("metric-http", "%s of %s without a command has %s", w.name, w.m.Name(), body)
		}
		return
	}
	delete(g.Metrics, runtimeMetric)
	if !w.fresh || w.last == nil {
		return
	}
	if !w.last.same(g) || g.Time == 0 || time.Since(time.Unix(g.Time, 0)).Abs() > time.Hour {
		rec.Violation("metric-http", "HTTP clients get %s rather than %s from %s of %s", body, w.last, w.name, w.m.Name())
	}
	for _, c := range [][2]string{{w.m.Name(), "other"}, {"other", w.name}} {
		code, body := hub.ask("GET", metricURL, c[0], c[1], "")
		if code != 400 || body != "metric not found" {
			rec.Violation("metric-unknown", "unknown metric %v answered %d %s", c, code, body)
		}
	}
	if code, _ := hub.ask("POST", metricURL, w.m.Name(), w.name, "{}"); code != 404 {
		rec.Violation("metric-http", "a post answered %d", code)
	}

	stored, _ := w.m.DataGet("metric")
	j, _ := json.Marshal(stored)
	data := map[string]*gathered{}
	json.Unmarshal(j, &data)
	if w.store {
		g := data[w.name]
		if g != nil {
			delete(g.Metrics, runtimeMetric)
		}
		if g == nil || !w.last.same(g) {
			rec.Violation("metric-data", "the data of %s has %s for %s rather than %s", w.m.Name(), j, w.name, w.last)
		}
		rec.Count("stored", 1)
	} else if data[w.name] != nil {
		rec.Violation("metric-data", "%s of %s is stored though that was not asked for", w.name, w.m.Name())
	}

	if w.graphite && w.usable() && len(w.last.Metrics) > 0 {
		prefix := strings.TrimSuffix(w.props["graphite_prefix"].(string), "::")
		var got map[string]float64
		ok := verifkit.Eventually(30*time.Second, func() bool {
			gr.mu.Lock()
			defer gr.mu.Unlock()
			conns := gr.conns[prefix]
			if len(conns) == 0 {
				return false
			}
			got = conns[len(conns)-1]
			if len(got) != len(w.last.Metrics)+1 {
				return false
			}
			for k, v := range w.last.Metrics {
				x, ok := got[k]
				if !ok || math.Abs(x-v) > 1e-5 {
					return false
				}
			}
			_, ok := got["runtime"]
			return ok
		})
		if !ok {
			rec.Violation("metric-graphite", "graphite got %s rather than %s from %s of %s", verifkit.J(got), w.last, w.name, w.m.Name())
		}
		gr.mu.Lock()
		if len(gr.bad) > 0 {
			rec.Violation("metric-graphite", "graphite got invalid %q", gr.bad)
		}
		gr.mu.Unlock()
		rec.Count("graphite", 1)
	}
}

// checkProm compares the Prometheus file with what watchers gathered
func checkProm(rec *verifkit.Rec, all []*metricWatch, body string, round int) {
	samples, err := parseProm(body)
	if err != nil {
		rec.Violation("prom-invalid", "%v in %q", err, body)
		return
	}
	got := map[string]float64{}
	for _, s := range samples {
		if strings.HasSuffix(s.name, "_"+runtimeMetric) {
			continue
		}
		got[plainName(s.name)+" "+plainLabels(s.labels)] = s.value
	}
	allowed := map[string]bool{}
	for _, w := range all {
		if w.empty || !w.prom || w.last == nil {
			continue
		}
		labels := map[string]string{}
		for k, v := range w.last.Labels {
			labels[k] = v
		}
		unset := labels["format"] == ""
		for k, v := range w.last.Metrics {
			key := plainName("choria_machine_metric_watcher_"+w.name+"_"+k) + " "
			x, ok := got[key+plainLabels(labels)]
			if !ok && unset {
				labels["format"] = "choria"
				x, ok = got[key+plainLabels(labels)]
			}
			if ok {
				allowed[key+plainLabels(labels)] = true
			}
			if unset {
				delete(labels, "format")
			}
			// those that gathered nothing lately may be gone
			if !w.fresh || !w.usable() || w.m.State() != "a" {
				continue
			}
			if !ok || math.Abs(x-v) > 1e-5 {
				rec.Violation("prom-missing", "%s of %s is not in the Prometheus file with value %v and labels %s: %s", k, w.name, v, plainLabels(labels), body)
				return
			}
		}
		if w.slow && round > 1 {
			rec.Count("slow watchers kept", 1)
		}
	}
	for k := range got {
		if !allowed[k] && settledAll(all) {
			rec.Violation("prom-extra", "nothing gathered %s: %s", k, body)
			return
		}
	}
}

func settledAll(all []*metricWatch) bool {
	for _, w := range all {
		if !w.empty && !w.fresh && w.last != nil {
			return false
		}
	}
	return true
}

// TestC32Perf parses performance data
func TestC32Perf(t *testing.T) {
	rec := verifkit.New(t, "C32", "Nagios performance data is parsed into the labels, values and units that were written")
	rec.Require("items", 2000)
	r := verifkit.Rand("perf")
	for i := 0; i < verifkit.N(2000, 40000); i++ {
		var want []util.PerfData
		var items []string
		for n := r.Intn(5); n > 0; n-- {
			p := util.PerfData{Value: genValue(r), Unit: verifkit.Pick(r, []string{"", "s", "ms", "us", "%", "B", "KB", "MB", "TB", "c"})}
			label := verifkit.Pick(r, []string{"time", "/", "/var/log", "a-b.c", "load1", "größe"})
			shown := label
			switch r.Intn(3) {
			case 0:
				shown = "'" + label + "'"
			case 1:
				label = verifkit.Pick(r, []string{"/ my disk", "C:\\ used", "a  b", "x y z"})
				shown = "'" + label + "'"
			}
			p.Label = strings.ReplaceAll(label, " ", "_")
			items = append(items, shown+"="+strconv.FormatFloat(p.Value, 'f', -1, 64)+p.Unit+verifkit.Pick(r, []string{"", ";", ";1;2", ";1:2;@3:4;0;100", ";;;0;"}))
			want = append(want, p)
			rec.Count("items", 1)
			if r.Intn(8) == 0 {
				items = append(items, verifkit.Pick(r, []string{"U", "x=U", "x=", "y;1=2", "word"}))
			}
		}
		in := verifkit.Pick(r, []string{"OK", "", "WARN: it's a 'b'=1 c=2"}) + verifkit.Pick(r, []string{"|", " | ", "| "}) + strings.Join(items, verifkit.Pick(r, []string{" ", "  "})) + verifkit.Pick(r, []string{"", "\n", " "})
		if len(items) == 0 && r.Intn(2) == 0 {
			in = "no data"
		}
		var got []util.PerfData
		if !rec.NoPanic("perf", in, func() { got = util.ParsePerfData(in) }) {
			continue
		}
		rec.Case(len(want) > 0, in)
		if verifkit.J(got) != verifkit.J(want) {
			rec.Violation("perf", "%q was parsed as %s rather than %s", in, verifkit.J(got), verifkit.J(want))
		}
		junk, _ := verifkit.MutateBytes(r, []byte(in))
		rec.NoPanic("perf-junk", junk, func() { util.ParsePerfData(string(junk)) })
	}
}
