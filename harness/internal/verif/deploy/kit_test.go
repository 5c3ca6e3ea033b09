// Package deploy observes what is verified and deployed as machines and plugins
package deploy

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/aagent/model"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/lifecycle"
	"github.com/nats-io/jsm.go"
)

// fire is a requested transition
type fire struct {
	at    time.Time
	event string
}

// fm is a machine that records what watchers ask of it
type fm struct {
	mu     sync.Mutex
	state  string
	fires  []fire
	data   map[string]any
	facts  string
	dir    string
	told   int
	lookup map[string]string
	notes  []any
	signer string
	onFire func(string)
}

func newFM(dir string) *fm {
	return &fm{state: "a", data: map[string]any{}, facts: "{}", dir: dir, lookup: map[string]string{}}
}

func (m *fm) State() string { m.mu.Lock(); defer m.mu.Unlock(); return m.state }
func (m *fm) Transition(t string, args ...any) error {
	m.mu.Lock()
	m.fires = append(m.fires, fire{time.Now(), t})
	f := m.onFire
	m.mu.Unlock()
	if f != nil {
		f(t)
	}
	return nil
}
func (m *fm) NotifyWatcherState(_ string, s any) {
	m.mu.Lock()
	m.told++
	m.notes = append(m.notes, s)
	if len(m.notes) > 5 {
		m.notes = m.notes[1:]
	}
	m.mu.Unlock()
}
func (m *fm) Name() string                                                  { return "mon" }
func (m *fm) Directory() string                                             { return m.dir }
func (m *fm) TextFileDirectory() string                                     { return "" }
func (m *fm) Identity() string                                              { return "n1.example.net" }
func (m *fm) InstanceID() string                                            { return "instance" }
func (m *fm) Version() string                                               { return "1.0.0" }
func (m *fm) TimeStampSeconds() int64                                       { return time.Now().Unix() }
func (m *fm) OverrideData() ([]byte, error)                                 { return nil, nil }
func (m *fm) ChoriaStatusFile() (string, int)                               { return "", 0 }
func (m *fm) JetStreamConnection() (*jsm.Manager, error)                    { return nil, fmt.Errorf("none") }
func (m *fm) PublishLifecycleEvent(t lifecycle.Type, o ...lifecycle.Option) {}
func (m *fm) MainCollective() string                                        { return "mcollective" }
func (m *fm) Facts() json.RawMessage {
	m.mu.Lock()
	defer m.mu.Unlock()
	return json.RawMessage(m.facts)
}
func (m *fm) Data() map[string]any {
	m.mu.Lock()
	defer m.mu.Unlock()
	res := map[string]any{}
	for k, v := range m.data {
		res[k] = v
	}
	return res
}
func (m *fm) DataPut(key string, val any) error {
	m.mu.Lock()
	m.data[key] = val
	m.mu.Unlock()
	return nil
}
func (m *fm) DataGet(key string) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.data[key]
	return v, ok
}
func (m *fm) DataDelete(key string) error {
	m.mu.Lock()
	delete(m.data, key)
	m.mu.Unlock()
	return nil
}
func (m *fm) SignerKey() string { return m.signer }
func (m *fm) LookupExternalMachineState(name string) (string, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	s, ok := m.lookup[name]
	if !ok {
		return "", fmt.Errorf("unknown")
	}
	return s, nil
}
func (m *fm) SetHttpManager(model.HttpManager)               {}
func (m *fm) HttpManager() model.HttpManager                 { return nil }
func (m *fm) Debugf(name string, format string, args ...any) { _ = fmt.Sprintf(format, args...) }
func (m *fm) Infof(name string, format string, args ...any)  { _ = fmt.Sprintf(format, args...) }
func (m *fm) Warnf(name string, format string, args ...any)  { _ = fmt.Sprintf(format, args...) }
func (m *fm) Errorf(name string, format string, args ...any) { _ = fmt.Sprintf(format, args...) }

// move changes the state and tells the watcher the way machines do
func (m *fm) move(w model.Watcher, s string) {
	m.mu.Lock()
	m.state = s
	m.mu.Unlock()
	w.NotifyStateChance()
}

func (m *fm) take() []fire {
	m.mu.Lock()
	defer m.mu.Unlock()
	f := m.fires
	m.fires = nil
	return f
}

// started is a running watcher
type started struct {
	w      model.Watcher
	cancel func()
	wg     sync.WaitGroup
}

func start(w any) *started {
	s := &started{w: w.(model.Watcher)}
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.Background())
	s.wg.Add(1)
	go s.w.Run(ctx, &s.wg)
	return s
}

var _ = verifkit.Seed
var _ testing.TB
