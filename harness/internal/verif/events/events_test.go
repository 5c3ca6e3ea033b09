package events

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/lifecycle"
	"github.com/choria-io/go-choria/lifecycle/tally"
	"github.com/nats-io/nats.go"
	"github.com/prometheus/client_golang/prometheus"
	"github.com/sirupsen/logrus"
)

func quiet() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return logrus.NewEntry(l)
}

var types = map[string]lifecycle.Type{"startup": lifecycle.Startup, "shutdown": lifecycle.Shutdown, "provisioned": lifecycle.Provisioned, "alive": lifecycle.Alive, "governor": lifecycle.Governor, "upgraded": lifecycle.Upgraded}

func typeNames() []string {
	n := []string{}
	for k := range types {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

type bus struct {
	inter.RawNATSConnector
	subject string
	data    []byte
	n       int
	fail    error
}

func (b *bus) PublishRaw(target string, data []byte) error {
	b.n++
	b.subject = target
	b.data = append([]byte{}, data...)
	return b.fail
}

var texts = []string{"server", "broker_network", "provision_mode_server", "x", "node1.example.net", "ünïcode", "with \"quotes\" \\ and <html>&", "1.2.3", "0.29.0-rc1+build", "", "a\nb", "日本"}

func version(e lifecycle.Event) string {
	switch v := e.(type) {
	case *lifecycle.StartupEvent:
		return v.Version
	case *lifecycle.AliveEvent:
		return v.Version
	case *lifecycle.UpgradedEvent:
		return v.Version + ">" + v.NewVersion
	case *lifecycle.GovernorEvent:
		return fmt.Sprintf("%s %d %s", v.Governor, v.Sequence, v.EventType)
	}
	return ""
}

func describe(e lifecycle.Event) string {
	return fmt.Sprintf("%d|%s|%s|%s|%s|%s|%d|%s", e.Type(), e.TypeString(), e.Component(), e.Identity(), e.ID(), e.Protocol(), e.TimeStamp().Unix(), version(e))
}

// TestC26RoundTrip publishes events and parses what was published
func TestC26RoundTrip(t *testing.T) {
	rec := verifkit.New(t, "C26", "a published event, in either format, parses back to an event with equal type, component, identity, id, time, protocol and type specific values and went to the subject of its type and component")
	rnd := verifkit.Rand("c26-roundtrip")
	rec.Require("published", 1000)

	for i := 0; i < verifkit.N(8000, 100000); i++ {
		name := verifkit.Pick(rnd, typeNames())
		comp := verifkit.Pick(rnd, texts)
		ident := verifkit.Pick(rnd, texts)
		ver := verifkit.Pick(rnd, texts)
		nver := verifkit.Pick(rnd, texts)
		gov := verifkit.Pick(rnd, texts[:9])
		seq := rnd.Uint64() >> uint(rnd.Intn(64))
		stage := verifkit.Pick(rnd, []lifecycle.GovernorEventType{lifecycle.GovernorEnterEvent, lifecycle.GovernorExitEvent, lifecycle.GovernorTimeoutEvent, lifecycle.GovernorEvictEvent})
		opts := []lifecycle.Option{lifecycle.Component(comp), lifecycle.Identity(ident)}
		wantVer := ""
		switch name {
		case "startup", "alive":
			opts = append(opts, lifecycle.Version(ver))
			wantVer = ver
		case "upgraded":
			opts = append(opts, lifecycle.Version(ver), lifecycle.NewVersion(nver))
			wantVer = ver + ">" + nver
		case "governor":
			opts = append(opts, lifecycle.GovernorName(gov), lifecycle.GovernorType(stage), lifecycle.GovernorSequence(seq))
			wantVer = fmt.Sprintf("%s %d %s", gov, seq, stage)
		}
		format := verifkit.Pick(rnd, []lifecycle.Format{lifecycle.ChoriaFormat, lifecycle.CloudEventV1Format})
		id := fmt.Sprintf("%s %q %q %q %q %v", name, comp, ident, ver, wantVer, format)
		rec.Case(true, id)
		rec.NoPanic("roundtrip", id, func() {
			lo := time.Now().Unix()
			e, err := lifecycle.New(types[name], opts...)
			if err != nil {
				rec.Violation("new", "%s: %v", id, err)
				return
			}
			hi := time.Now().Unix()
			if e.Type() != types[name] || e.TypeString() != name || e.Component() != comp || e.Identity() != ident || version(e) != wantVer {
				rec.Violation("new-values", "%s created as %s", id, describe(e))
			}
			if !strings.EqualFold(e.Type().String(), name) {
				rec.Violation("type-name", "type %s is named %s", name, e.Type().String())
			}
			if ts := e.TimeStamp().Unix(); ts < lo || ts > hi {
				rec.Violation("new-time", "%s created at %d..%d has time %d", id, lo, hi, ts)
			}
			if e.ID() == "" || e.String() == "" {
				rec.Violation("new-id", "%s has no id or text", id)
			}
			e.SetFormat(format)
			b := &bus{}
			err = lifecycle.PublishEvent(e, b)
			if comp == "" {
				if err == nil || b.n != 0 {
					rec.Violation("publish-incomplete", "%s without component published to %q", id, b.subject)
				}
				return
			}
			if err != nil || b.n != 1 {
				rec.Violation("publish", "%s: published %d times: %v", id, b.n, err)
				return
			}
			rec.Count("published", 1)
			rec.Count(fmt.Sprintf("format %v", format), 1)
			if b.subject != "choria.lifecycle.event."+name+"."+comp {
				rec.Violation("subject", "%s went to %s", id, b.subject)
			}
			if f := lifecycle.EventFormatFromJSON(b.data); f != format {
				rec.Violation("format", "%s: format %v detected on %s", id, f, b.data)
			}
			r, err := lifecycle.NewFromJSON(b.data)
			if name == "governor" && gov == "" {
				return
			}
			if err != nil {
				rec.Violation("parse", "%s: %v on %s", id, err, b.data)
				return
			}
			if describe(r) != describe(e) || r.Format() != format || r.String() != e.String() {
				rec.Violation("roundtrip", "%s became %s (%v) from %s", describe(e), describe(r), r.Format(), b.data)
			}
			// and again from what was parsed
			b2 := &bus{}
			if err := lifecycle.PublishEvent(r, b2); err != nil || b2.subject != b.subject {
				rec.Violation("republish", "%s: %v to %s", id, err, b2.subject)
			}
			// publish errors are reported
			if err := lifecycle.PublishEvent(r, &bus{fail: fmt.Errorf("simulated")}); err == nil {
				rec.Violation("publish-error", "%s: error was hidden", id)
			}

			// the older spelling of the protocol
			if format == lifecycle.ChoriaFormat {
				old := strings.Replace(string(b.data), `"io.choria.lifecycle.v1.`+name+`"`, `"choria:lifecycle:`+name+`:1"`, 1)
				_, _ = lifecycle.NewFromJSON([]byte(old))
			}
		})
	}
}

func mutate(r *rand.Rand, d map[string]any) {
	keys := []string{}
	for k := range d {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return
	}
	k := verifkit.Pick(r, keys)
	switch r.Intn(4) {
	case 0:
		delete(d, k)
	case 1:
		d[k] = verifkit.Pick(r, []any{nil, 5, true, []any{}, map[string]any{}, "x", "", -1.5, []any{nil}})
	case 2:
		if k == "protocol" || k == "type" {
			d[k] = verifkit.Pick(r, []any{"io.choria.lifecycle.v1.nope", "io.choria.lifecycle", "io.choria.lifecycle.v1.alive.x", "io.choria.lifecycle.v2.alive", "choria:lifecycle:alive:1", "choria:lifecycle:alive:2", "choria:lifecycle:", "io.choria.machine.v1.transition", "io.choria.lifecycle.v1.governor"})
		}
	case 3:
		d["extra"] = verifkit.Pick(r, []any{nil, "x", map[string]any{}})
	}
}

// TestC26Reject parses documents that are, and are not, events
func TestC26Reject(t *testing.T) {
	rec := verifkit.New(t, "C26", "documents are parsed only when their protocol is exactly one of the known events and otherwise refused, with no input crashing")
	rnd := verifkit.Rand("c26-reject")
	rec.Require("refused", 500)

	for i := 0; i < verifkit.N(20000, 300000); i++ {
		name := verifkit.Pick(rnd, typeNames())
		e, _ := lifecycle.New(types[name], lifecycle.Component("c"), lifecycle.Identity("i"), lifecycle.Version("1"), lifecycle.GovernorName("g"), lifecycle.GovernorSequence(1))
		if rnd.Intn(2) == 0 {
			e.SetFormat(lifecycle.CloudEventV1Format)
		}
		b := &bus{}
		lifecycle.PublishEvent(e, b)
		var j []byte
		if rnd.Intn(4) == 0 {
			j = append([]byte{}, b.data...)
			for k := 0; k <= rnd.Intn(3); k++ {
				switch rnd.Intn(3) {
				case 0:
					j[rnd.Intn(len(j))] = byte(rnd.Intn(256))
				case 1:
					j = j[:1+rnd.Intn(len(j))]
				case 2:
					p := rnd.Intn(len(j))
					j = append(j[:p:p], append([]byte(verifkit.Pick(rnd, []string{"{", "}", "null", "\"", "\x00", "[[[["})), j[p:]...)...)
				}
			}
		} else {
			d := map[string]any{}
			json.Unmarshal(b.data, &d)
			for k := 0; k <= rnd.Intn(2); k++ {
				if inner, ok := d["data"].(map[string]any); ok && rnd.Intn(2) == 0 {
					mutate(rnd, inner)
				} else {
					mutate(rnd, d)
				}
			}
			j, _ = json.Marshal(d)
		}
		rec.Case(true, string(j))
		rec.NoPanic("parse", string(j), func() {
			ev, err := lifecycle.NewFromJSON(j)
			if err != nil {
				rec.Count("refused", 1)
				return
			}
			rec.Count("accepted", 1)
			if ev == nil {
				rec.Violation("parse-nil", "no event and no error for %s", j)
				return
			}
			// an event must be consistent with the innermost document
			doc := struct {
				Protocol string          `json:"protocol"`
				Data     json.RawMessage `json:"data"`
				Type     string          `json:"type"`
				Source   string          `json:"source"`
				Spec     string          `json:"specversion"`
			}{}
			if json.Unmarshal(j, &doc) == nil && doc.Protocol == "" {
				if doc.Source != "io.choria.lifecycle" || doc.Spec != "1.0" {
					rec.Violation("reject-source", "accepted %s", j)
				}
				inner := doc
				if json.Unmarshal(doc.Data, &inner) == nil {
					doc.Protocol = inner.Protocol
				}
			}
			if doc.Protocol != "" {
				ok := false
				for n := range types {
					if (doc.Protocol == "io.choria.lifecycle.v1."+n || doc.Protocol == "choria:lifecycle:"+n+":1") && ev.Type() == types[n] && ev.TypeString() == n {
						ok = true
					}
				}
				if !ok {
					rec.Violation("reject-protocol", "accepted protocol %s as %s: %s", doc.Protocol, ev.TypeString(), j)
				}
			}
			_ = ev.String()
			ev.Target()
			b := &bus{}
			lifecycle.PublishEvent(ev, b)
		})
	}

	if _, err := lifecycle.New(lifecycle.Unknown); err == nil {
		rec.Violation("new-unknown", "created an unknown event")
	}
}

type msg struct {
	subject string
	data    []byte
}

func (m *msg) Subject() string { return m.subject }
func (m *msg) Reply() string   { return "" }
func (m *msg) Data() []byte    { return m.data }
func (m *msg) Msg() any        { return nil }

type conn struct {
	ch map[string]chan inter.ConnectorMessage
}

func (c *conn) QueueSubscribe(ctx context.Context, name string, subject string, group string, output chan inter.ConnectorMessage) error {
	c.ch[subject] = output
	return nil
}
func (c *conn) Nats() *nats.Conn { return nil }

// gauge sums a metric by component and version over its other labels
func gauge(name string, keys ...string) (map[string]float64, bool, error) {
	fams, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		return nil, false, err
	}
	res := map[string]float64{}
	neg := false
	for _, f := range fams {
		if f.GetName() != name {
			continue
		}
		for _, m := range f.GetMetric() {
			l := map[string]string{}
			for _, p := range m.GetLabel() {
				l[p.GetName()] = p.GetValue()
			}
			k := []string{}
			for _, n := range keys {
				k = append(k, l[n])
			}
			v := m.GetGauge().GetValue() + m.GetCounter().GetValue()
			if v < 0 {
				neg = true
			}
			res[strings.Join(k, "/")] += v
		}
	}
	for k, v := range res {
		if v == 0 {
			delete(res, k)
		}
	}
	return res, neg, nil
}

// TestC26Tally runs the recorder on generated histories under a virtual clock
func TestC26Tally(t *testing.T) {
	rec := verifkit.New(t, "C26", "after every event and every passage of time the version tally equals the distinct nodes last seen with each version in the reference model; events that are not for the tally change nothing; nothing goes negative")
	rnd := verifkit.Rand("c26-tally")
	rec.Require("expired", 30)
	rec.Require("moved version", 100)
	rec.Require("shutdown known", 100)

	for i := 0; i < verifkit.N(60, 800); i++ {
		synctest.Test(t, func(t *testing.T) {
			prefix := fmt.Sprintf("verif_tally_%d", i)
			c := &conn{ch: map[string]chan inter.ConnectorMessage{}}
			r, err := tally.New(tally.Component("*"), tally.Logger(quiet()), tally.StatsPrefix(prefix), tally.Connection(c))
			if err != nil {
				rec.Violation("new", "%v", err)
				return
			}
			ctx, cancel := context.WithCancel(context.Background())
			done := make(chan error)
			go func() { done <- r.Run(ctx) }()
			synctest.Wait()
			ch := c.ch["choria.lifecycle.event.*.*"]
			if ch == nil {
				rec.Inconclusive("recorder did not subscribe")
				cancel()
				<-done
				return
			}

			type node struct {
				version string
				seen    time.Time
			}
			model := map[string]*node{}
			hist := []string{}
			bad := 0.0
			for step := 0; step < 50; step++ {
				comp := verifkit.Pick(rnd, []string{"server", "broker"})
				host := verifkit.Pick(rnd, []string{"n1", "n2", "n3", "n4"})
				ver := verifkit.Pick(rnd, []string{"1.0.0", "1.1.0", "2.0.0"})
				key := comp + "/" + host
				op := verifkit.Pick(rnd, []string{"startup", "startup", "alive", "alive", "alive", "shutdown", "provisioned", "upgraded", "governor", "garbage", "time"})
				hist = append(hist, fmt.Sprintf("%s %s %s", op, key, ver))
				var data []byte
				switch op {
				case "time":
					// a quarter after the previous whole period so neither the expiry nor its schedule is at a boundary
					time.Sleep(time.Duration(1+rnd.Intn(9))*10*time.Minute + 13*time.Second)
				case "garbage":
					data = []byte(verifkit.Pick(rnd, []string{"", "{}", "null", `{"protocol":"io.choria.lifecycle.v1.alive","identity":5}`, `{"protocol":"io.choria.lifecycle.v1.nope"}`, "[]"}))
					bad++
				default:
					e, _ := lifecycle.New(types[op], lifecycle.Component(comp), lifecycle.Identity(host), lifecycle.Version(ver), lifecycle.NewVersion("9"), lifecycle.GovernorName("g"), lifecycle.GovernorType(lifecycle.GovernorEnterEvent))
					if rnd.Intn(2) == 0 {
						e.SetFormat(lifecycle.CloudEventV1Format)
					}
					b := &bus{}
					lifecycle.PublishEvent(e, b)
					data = b.data
				}
				if op != "time" {
					ch <- &msg{subject: "choria.lifecycle.event." + op + "." + comp, data: data}
				}
				synctest.Wait()

				switch op {
				case "startup", "alive":
					if n, ok := model[key]; ok && n.version != ver {
						rec.Count("moved version", 1)
					}
					model[key] = &node{ver, time.Now()}
				case "shutdown":
					if _, ok := model[key]; ok {
						rec.Count("shutdown known", 1)
					}
					delete(model, key)
				}
				uncertain := false
				for k, n := range model {
					age := time.Since(n.seen)
					if age > 82*time.Minute {
						delete(model, k)
						rec.Count("expired", 1)
					} else if age > 79*time.Minute {
						uncertain = true
					}
				}
				if uncertain {
					time.Sleep(4 * time.Minute)
					synctest.Wait()
					for k, n := range model {
						age := time.Since(n.seen)
						if age > 82*time.Minute {
							delete(model, k)
							rec.Count("expired", 1)
						} else if age > 79*time.Minute {
							delete(model, k)
							hist = append(hist, "uncertain")
							uncertain = true
						}
					}
				}

				want := map[string]float64{}
				for k, n := range model {
					want[strings.Split(k, "/")[0]+"/"+n.version]++
				}
				got, neg, err := gauge(prefix+"_versions", "component", "version")
				if err != nil {
					rec.Inconclusive("gather: %v", err)
					break
				}
				rec.Case(true, fmt.Sprintf("%d %s", i, strings.Join(hist, ";")))
				if hist[len(hist)-1] == "uncertain" {
					break
				}
				if neg {
					rec.Violation("negative", "negative tally %v after\n%s", got, strings.Join(hist, "\n"))
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					rec.Violation("tally", "tally %v, nodes alive %v after\n%s", got, want, strings.Join(hist, "\n"))
					break
				}
			}
			errs, _, _ := gauge(prefix + "_process_errors")
			if errs[""] != bad {
				rec.Violation("errors", "%v bad events counted as %v", bad, errs[""])
			}
			cancel()
			<-done
		})
	}
}
