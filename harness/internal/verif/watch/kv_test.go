package watch

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent/watchers/kvwatcher"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/nats-io/jsm.go"
	"github.com/nats-io/nats.go"
)

// kvWorld is a bucket, a machine and a watcher
type kvWorld struct {
	id     string
	bucket string
	// key and store are what the watcher is configured with, realKey and dataKey what they mean
	key, realKey   string
	dataKey        string
	props          map[string]any
	onMatch, onGet bool
	query          string
	republish      bool
	interval       string

	m   *fm
	log []string
	mu  sync.Mutex
	hub *getCounter
}

// getCounter counts the reads the broker is asked for
type getCounter struct {
	mu   sync.Mutex
	seen map[string]int
	nc   *nats.Conn
}

func (g *getCounter) count(bucket string, key string) int {
	g.nc.Flush()
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.seen["$JS.API.DIRECT.GET.KV_"+bucket+".$KV."+bucket+"."+key]
}

// kvMeaning is what the value means to machines
func kvMeaning(val string, query string) any {
	t := strings.TrimSpace(val)
	if strings.HasPrefix(t, "{") && strings.HasSuffix(t, "}") {
		m := map[string]any{}
		json.Unmarshal([]byte(t), &m)
		if query != "" {
			var cur any = m
			for _, q := range strings.Split(query, ".") {
				cur = cur.(map[string]any)[q]
			}
			return cur
		}
		return m
	}
	if strings.HasPrefix(t, "[") && strings.HasSuffix(t, "]") {
		var l []any
		json.Unmarshal([]byte(t), &l)
		return l
	}
	return val
}

func kvValue(r *rand.Rand, i int, query string) string {
	if query != "" {
		return fmt.Sprintf(`{"x":%d,"web":{"port":%d,"tags":["t%d"]}}`, i, i, r.Intn(3))
	}
	switch r.Intn(7) {
	case 0:
		return fmt.Sprintf(`{"v":%d,"nested":{"l":[1,"%d",null]}}`, i, i)
	case 1:
		return fmt.Sprintf("  [\"%d\", {\"v\":%d}]\n", i, i)
	case 2:
		return ""
	case 3:
		return "{}"
	case 4:
		return fmt.Sprintf("[%d", i)
	case 5:
		return fmt.Sprintf(" héllo %d\n", i)
	}
	return fmt.Sprintf("value-%d", i)
}

func (w *kvWorld) violation(rec *verifkit.Rec, key string, f string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	rec.Violation(key, "watcher %s: %s; history: %s", verifkit.J(w.props), fmt.Sprintf(f, a...), strings.Join(w.log, " | "))
}

func (w *kvWorld) did(f string, a ...any) {
	w.mu.Lock()
	w.log = append(w.log, fmt.Sprintf(f, a...))
	w.mu.Unlock()
}

// polls waits for two reads that started from now on, all that follows from the first is done when the second starts
func (w *kvWorld) polls(rec *verifkit.Rec) bool {
	c := w.hub.count(w.bucket, w.realKey)
	ok := verifkit.Eventually(45*time.Second, func() bool { return w.hub.count(w.bucket, w.realKey) >= c+2 })
	if !ok {
		rec.Count("slow", 1)
	}
	return ok
}

func fireNames(fs []fire) string {
	var s []string
	for _, f := range fs {
		s = append(s, f.event)
	}
	return strings.Join(s, ",")
}

// TestC31KV changes keys and observes the data and transitions of machines that watch them
func TestC31KV(t *testing.T) {
	rec := verifkit.New(t, "C31", "after each poll or republished message the data of the machine has exactly the value of the key, or nothing when it was deleted; the success transition fires exactly when it changed or as otherwise asked for, the failure transition exactly when it could not be read, and nothing happens in other states")
	rec.Require("changed", 60)
	rec.Require("deleted", 15)
	rec.Require("same value put again", 10)
	rec.Require("states the watcher does not watch", 8)
	rec.Require("bucket missing", 6)
	rec.Require("republished", 20)

	srv, err := vfake.StartNATS(t.TempDir(), nil)
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	defer srv.Stop()
	conn := func() *nats.Conn {
		nc, err := srv.Connect()
		if err != nil {
			t.Fatal(err)
		}
		return nc
	}
	hub := &getCounter{seen: map[string]int{}, nc: conn()}
	defer hub.nc.Close()
	hub.nc.Subscribe("$JS.API.DIRECT.GET.>", func(m *nats.Msg) {
		hub.mu.Lock()
		hub.seen[m.Subject]++
		hub.mu.Unlock()
	})
	hub.nc.Flush()
	admin := conn()
	defer admin.Close()
	js, err := admin.JetStream()
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}

	var wg sync.WaitGroup
	for i := 0; i < verifkit.N(36, 240); i++ {
		if i%60 == 59 {
			wg.Wait()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			kvRun(t, rec, i, hub, js, admin, conn)
		}()
	}
	wg.Wait()
}

func kvRun(t *testing.T, rec *verifkit.Rec, i int, hub *getCounter, js nats.JetStreamContext, admin *nats.Conn, conn func() *nats.Conn) {
	r := verifkit.Rand(fmt.Sprintf("c31-kv-%d", i))
	nc := conn()
	defer nc.Close()
	mgr, err := jsm.New(nc)
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}
	w := &kvWorld{id: fmt.Sprint(i), bucket: fmt.Sprintf("B%d", i), hub: hub, m: newFM(t.TempDir()), interval: "600ms"}
	w.m.js = mgr
	w.m.facts = `{"role":"web","port":8080}`
	w.props = map[string]any{"bucket": w.bucket}
	switch r.Intn(3) {
	case 0:
		w.key, w.realKey = "conf", "conf"
	case 1:
		w.key, w.realKey = "app.conf", "app.conf"
	default:
		w.key, w.realKey = `{{ lookup "facts.role" "none" }}.conf`, "web.conf"
	}
	w.props["key"] = w.key
	w.dataKey = w.realKey
	switch r.Intn(3) {
	case 0:
		w.props["store_key"] = "cfg"
		w.dataKey = "cfg"
	case 1:
		w.props["store_key"] = `{{ lookup "facts.role" "none" }}_cfg`
		w.dataKey = "web_cfg"
	}
	if r.Intn(2) == 0 {
		w.props["bucket_prefix"] = false
	} else {
		w.dataKey = w.bucket + "_" + w.dataKey
	}
	if r.Intn(3) == 0 {
		w.onMatch = true
		w.props["on_matching_update"] = true
	} else if r.Intn(4) == 0 {
		w.onGet = true
		w.props["on_successful_get"] = true
	}
	if r.Intn(4) == 0 {
		w.query = verifkit.Pick(r, []string{"web", "web.port"})
		w.props["query"] = w.query
	}
	w.republish = i%3 == 2
	cfg := &nats.KeyValueConfig{Bucket: w.bucket, History: uint8(1 + r.Intn(3))}
	if w.republish {
		w.interval = "1h"
		if r.Intn(3) == 0 {
			w.interval = ""
		}
		w.props["republish_trigger"] = fmt.Sprintf("repub.%s.$KV.%s.%s", w.id, w.bucket, w.key)
		if r.Intn(2) == 0 {
			w.props["republish_trigger"] = fmt.Sprintf("repub.%s.>", w.id)
		}
		cfg.RePublish = &nats.RePublish{Source: ">", Destination: fmt.Sprintf("repub.%s.>", w.id)}
	}

	// what the machine should have
	var prev any
	var prevSet bool
	running := false
	expect := func() {
		got, ok := w.m.DataGet(w.dataKey)
		switch {
		case !prevSet && ok:
			w.violation(rec, "kv-data", "the machine has %#v under %q while the key does not exist", got, w.dataKey)
		case prevSet && !ok:
			w.violation(rec, "kv-data", "the machine has nothing under %q instead of %#v", w.dataKey, prev)
		case prevSet && !reflect.DeepEqual(got, prev):
			w.violation(rec, "kv-data", "the machine has %#v under %q instead of %#v", got, w.dataKey, prev)
		}
		for k := range w.m.Data() {
			if k != w.dataKey && k != "other" {
				w.violation(rec, "kv-other-data", "data was stored under %q rather than %q", k, w.dataKey)
			}
		}
	}
	// told waits for the transitions that an outcome is followed by
	told := func(want string) {
		n := 0
		if want != "" {
			n = len(strings.Split(want, ","))
		}
		verifkit.Eventually(10*time.Second, func() bool {
			w.m.mu.Lock()
			defer w.m.mu.Unlock()
			return len(w.m.fires) >= n
		})
	}
	// transitions for an event
	fires := func(got string, kind string, want string) {
		if got != want {
			w.violation(rec, "kv-transitions", "%s: transitions %q were requested instead of %q", kind, got, want)
		}
	}

	w.m.data["other"] = "thing"
	// data that the machine kept while it was not running
	kept := ""
	if r.Intn(3) == 0 {
		v := kvValue(r, 999, w.query)
		kept = v
		prev, prevSet = kvMeaning(v, w.query), true
		w.m.data[w.dataKey] = prev
		w.did("machine has %q", v)
	}

	// reads of buckets that are gone take long to fail
	begun, gone := false, false
	var s *started
	begin := func() bool {
		wi, err := kvwatcher.New(w.m, "kv", []string{"a"}, nil, "f", "s", w.interval, time.Hour, w.props)
		if err != nil {
			w.violation(rec, "kv-refused", "valid properties are refused: %v", err)
			return false
		}
		s = start(wi)
		begun = true
		return true
	}
	defer func() {
		if begun {
			s.cancel()
			if !gone {
				s.wg.Wait()
			}
		}
	}()

	missing := !w.republish && r.Intn(3) == 0
	if missing {
		w.did("bucket does not exist")
		if !begin() {
			return
		}
		if !verifkit.Eventually(45*time.Second, func() bool { w.m.mu.Lock(); defer w.m.mu.Unlock(); return len(w.m.fires) > 0 }) {
			rec.Count("slow", 1)
			return
		}
		expect()
		w.m.mu.Lock()
		got := fireNames(w.m.fires[:1])
		w.m.mu.Unlock()
		fires(got, "the bucket is missing", "f")
		rec.Count("bucket missing", 1)
	}
	bucket, err := js.CreateKeyValue(cfg)
	if err != nil {
		rec.Inconclusive("%v", err)
		return
	}

	last, lastSet := "", false
	value := func(n int) string { return kvValue(r, n, w.query) }
	put := func(v string) bool {
		if _, err := bucket.Put(w.realKey, []byte(v)); err != nil {
			rec.Inconclusive("%v", err)
			return false
		}
		last, lastSet = v, true
		return true
	}
	if !missing && r.Intn(2) == 0 {
		v := value(1)
		if prevSet && r.Intn(2) == 0 {
			v = kept
		}
		if !put(v) {
			return
		}
		w.did("put %q before the start", v)
	}
	if missing {
		if !w.polls(rec) {
			return
		}
		for _, f := range w.m.take() {
			if f.event == "s" && !prevSet {
				w.violation(rec, "kv-transitions", "success without a key")
			}
		}
		// what it has from before may have been removed by now
		prev, prevSet = nil, false
		expect()
		running = true
	} else {
		if !begin() {
			return
		}
		if w.republish {
			c := verifkit.Eventually(45*time.Second, func() bool { return w.hub.count(w.bucket, w.realKey) >= 1 })
			if !c {
				rec.Count("slow", 1)
				return
			}
		} else if !w.polls(rec) {
			return
		}
		want := ""
		switch {
		case !lastSet:
			if prevSet {
				want = "s"
			}
			prev, prevSet = nil, false
		case lastSet:
			nv := kvMeaning(last, w.query)
			if !prevSet || !reflect.DeepEqual(prev, nv) {
				want = "s"
			}
			prev, prevSet = nv, true
		}
		if w.republish {
			// the first poll is done when its outcome shows, give one without outcome the time of a marker
			verifkit.Eventually(5*time.Second, func() bool {
				got, ok := w.m.DataGet(w.dataKey)
				return ok == prevSet && (!ok || reflect.DeepEqual(got, prev))
			})
			time.Sleep(300 * time.Millisecond)
		}
		expect()
		if !w.onGet {
			told(want)
			fires(fireNames(w.m.take()), "first poll", want)
		} else {
			w.m.take()
		}
		running = lastSet
	}

	steps := verifkit.N(7, 12)
	for step := 0; step < steps; step++ {
		kind := verifkit.Pick(r, []string{"put", "put", "put", "same", "same", "delete", "purge", "other", "away"})
		if w.republish && kind == "away" {
			kind = "put"
		}
		if !lastSet && (kind == "same" || kind == "delete" || kind == "purge") {
			kind = "put"
		}
		want := ""
		switch kind {
		case "put":
			v := value(step + 10)
			w.did("put %q", v)
			if !put(v) {
				return
			}
			nv := kvMeaning(v, w.query)
			switch {
			case !prevSet || !reflect.DeepEqual(nv, prev):
				want = "s"
				rec.Count("changed", 1)
			case w.onMatch && running:
				want = "s"
			}
			prev, prevSet = nv, true
			running = true
		case "same":
			w.did("put %q again", last)
			if !put(last) {
				return
			}
			rec.Count("same value put again", 1)
			if w.onMatch && running {
				want = "s"
			}
			running = true
		case "delete", "purge":
			w.did("%s", kind)
			if kind == "delete" {
				err = bucket.Delete(w.realKey)
			} else {
				err = bucket.Purge(w.realKey)
			}
			if err != nil {
				rec.Inconclusive("%v", err)
				return
			}
			lastSet = false
			if prevSet {
				want = "s"
				rec.Count("deleted", 1)
			}
			prev, prevSet = nil, false
			// a deleted key starts over for polls
			running = false
		case "other":
			o := verifkit.Pick(r, []string{"x" + w.realKey, w.realKey + "x", "x." + w.realKey, "unrelated", strings.TrimPrefix(w.realKey, "app.")})
			if o == w.realKey {
				continue
			}
			w.did("put %q under %q", value(70+step), o)
			if _, err := bucket.Put(o, []byte(value(70+step))); err != nil {
				rec.Inconclusive("%v", err)
				return
			}
		case "away":
			// a value that changes meanwhile is only noticed on return
			w.did("other state")
			w.m.move(s.w, "z")
			time.Sleep(50 * time.Millisecond)
			admin.Flush()
			before := w.hub.count(w.bucket, w.realKey)
			v := fmt.Sprintf(`{"x":1,"web":{"port":%d}}`, 5000+step)
			w.did("put %q", v)
			if !put(v) {
				return
			}
			time.Sleep(1500 * time.Millisecond)
			if c := w.hub.count(w.bucket, w.realKey); c > before+1 {
				w.violation(rec, "kv-other-state", "the key was read %d times in a state the watcher does not watch", c-before)
			}
			expect()
			if got := fireNames(w.m.take()); got != "" && !w.onGet {
				w.violation(rec, "kv-other-state", "transitions %q were requested in a state the watcher does not watch", got)
			}
			rec.Count("states the watcher does not watch", 1)
			w.did("back")
			w.m.move(s.w, "a")
			prev, prevSet = kvMeaning(v, w.query), true
			running = true
			want = "s"
		}
		if !w.republish {
			if !w.polls(rec) {
				return
			}
			expect()
			told(want)
			got := fireNames(w.m.take())
			switch {
			case w.onGet:
				if strings.Contains(got, "f") {
					w.violation(rec, "kv-transitions", "%s: transitions %q", kind, got)
				}
				if lastSet && !strings.Contains(got, "s") {
					w.violation(rec, "kv-transitions", "%s: no success though the key was read", kind)
				}
			default:
				fires(got, kind, want)
			}
		} else {
			// messages that were not republished mean nothing
			if r.Intn(3) == 0 {
				nc.Publish(fmt.Sprintf("repub.%s.$KV.%s.%s", w.id, w.bucket, w.realKey), []byte("forged"))
				nc.Flush()
			}
			// all earlier messages were handled once a value that follows them shows
			mark := fmt.Sprintf(`{"x":%d,"web":{"port":%d}}`, step, 9000+step)
			mv := kvMeaning(mark, w.query)
			shows := false
			time.Sleep(20 * time.Millisecond)
			if !put(mark) {
				return
			}
			shows = verifkit.Eventually(20*time.Second, func() bool { got, _ := w.m.DataGet(w.dataKey); return reflect.DeepEqual(got, mv) })
			if !shows {
				w.violation(rec, "kv-republished", "the republished value %s did not arrive within 20 seconds", mark)
				return
			}
			if want != "" {
				want += ","
			}
			want += "s"
			if !w.onGet {
				told(want)
			}
			time.Sleep(100 * time.Millisecond)
			got := fireNames(w.m.take())
			prev, prevSet = mv, true
			running = true
			expect()
			if !w.onGet {
				got = strings.Trim(strings.ReplaceAll(","+got+",", ",f,", ","), ",")
				fires(got, kind+" and a new value", want)
			}
			rec.Count("republished", 1)
		}
		rec.Case(true, fmt.Sprintf("kv-%d-%d", i, step))
	}

	if !w.republish && r.Intn(2) == 0 {
		w.did("bucket deleted")
		gone = true
		js.DeleteKeyValue(w.bucket)
		w.m.take()
		if !verifkit.Eventually(45*time.Second, func() bool {
			w.m.mu.Lock()
			defer w.m.mu.Unlock()
			return len(w.m.fires) > 1
		}) {
			rec.Count("slow", 1)
			return
		}
		fs := w.m.take()
		fires(fs[len(fs)-1].event, "the bucket is gone", "f")
		expect()
		rec.Count("bucket gone", 1)
	}
}
