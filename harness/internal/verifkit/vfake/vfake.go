// Package vfake holds stand-ins for collaborators of the code being monitored
package vfake

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/choria-io/go-choria/aagent"
	"github.com/choria-io/go-choria/build"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/lifecycle"
	"github.com/choria-io/go-choria/providers/data/ddl"
	"github.com/choria-io/go-choria/server/agents"
	"github.com/choria-io/go-choria/statistics"
	"github.com/sirupsen/logrus"
)

// Log discards
func Log() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.WarnLevel)
	return logrus.NewEntry(l)
}

// FW is a real framework with a configuration suited to monitoring
func FW(mod func(*config.Config)) *choria.Framework {
	cfg := config.NewConfigForTests()
	cfg.Choria.SecurityProvider = "file"
	cfg.LogFile = "discard"
	cfg.LogLevel = "fatal"
	if os.Getenv("VERIF_DEBUGLOG") != "" {
		cfg.LogFile, cfg.LogLevel = os.Getenv("VERIF_DEBUGLOG"), "debug"
	}
	if mod != nil {
		mod(cfg)
	}
	fw, err := choria.NewWithConfig(cfg)
	if err != nil {
		panic(fmt.Sprintf("framework: %v", err))
	}
	logrus.SetOutput(io.Discard)
	return fw
}

// Server is a server info source
type Server struct {
	ClassesV   []string
	FactsV     json.RawMessage
	AgentsV    []string
	IdentityV  string
	ConfigV    string
	ProvV      bool
	MetaV      map[string]agents.Metadata
	Shutdown   func() error
	Event      func(t lifecycle.Type, opts ...lifecycle.Option) error
	Transition func(name string, version string, path string, id string, transition string) error
	Machines   func() ([]aagent.MachineState, error)
	Stat       statistics.ServerStats
}

var _ agents.ServerInfoSource = (*Server)(nil)

func (s *Server) AgentMetadata(n string) (agents.Metadata, bool) { m, ok := s.MetaV[n]; return m, ok }
func (s *Server) BuildInfo() *build.Info                          { return &build.Info{} }
func (s *Server) Classes() []string                               { return s.ClassesV }
func (s *Server) ConfigFile() string                              { return s.ConfigV }
func (s *Server) ConnectedServer() string                         { return "nats://monitor:4222" }
func (s *Server) DataFuncMap() (ddl.FuncMap, error)               { return ddl.FuncMap{}, nil }
func (s *Server) Facts() json.RawMessage                          { return s.FactsV }
func (s *Server) Identity() string                                { return s.IdentityV }
func (s *Server) KnownAgents() []string                           { return s.AgentsV }
func (s *Server) LastProcessedMessage() time.Time                 { return time.Unix(1700000000, 0) }
func (s *Server) MachineTransition(name string, version string, path string, id string, transition string) error {
	if s.Transition == nil {
		return nil
	}
	return s.Transition(name, version, path, id, transition)
}
func (s *Server) MachinesStatus() ([]aagent.MachineState, error) {
	if s.Machines == nil {
		return nil, nil
	}
	return s.Machines()
}
func (s *Server) NewEvent(t lifecycle.Type, opts ...lifecycle.Option) error {
	if s.Event == nil {
		return nil
	}
	return s.Event(t, opts...)
}
func (s *Server) PrepareForShutdown() error {
	if s.Shutdown == nil {
		return nil
	}
	return s.Shutdown()
}
func (s *Server) Provisioning() bool            { return s.ProvV }
func (s *Server) StartTime() time.Time          { return time.Unix(1700000000, 0) }
func (s *Server) Stats() statistics.ServerStats { return s.Stat }
func (s *Server) UpTime() int64                 { return 10 }

// Ctx is a context that ends with the test
func Ctx(t interface{ Cleanup(func()) }) context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	t.Cleanup(cancel)
	return ctx
}
