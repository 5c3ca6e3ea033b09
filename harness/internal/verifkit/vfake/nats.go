package vfake

import (
	"fmt"
	"time"

	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
)

// NATS is a message broker on the loopback network
type NATS struct {
	Srv *server.Server
	URL string
	// HostPort is what Choria configuration wants
	HostPort string
}

// StartNATS starts a broker, with JetStream kept in store when that is set
func StartNATS(store string, mod func(*server.Options)) (*NATS, error) {
	opts := &server.Options{Host: "127.0.0.1", Port: -1, NoLog: true, NoSigs: true, JetStream: store != "", StoreDir: store}
	if mod != nil {
		mod(opts)
	}
	s, err := server.NewServer(opts)
	if err != nil {
		return nil, err
	}
	go s.Start()
	if !s.ReadyForConnections(30 * time.Second) {
		s.Shutdown()
		return nil, fmt.Errorf("nats server did not start")
	}
	return &NATS{Srv: s, URL: s.ClientURL(), HostPort: s.Addr().String()}, nil
}

// Stop ends the broker
func (n *NATS) Stop() {
	n.Srv.Shutdown()
	n.Srv.WaitForShutdown()
}

// Connect is a plain connection
func (n *NATS) Connect() (*nats.Conn, error) {
	return nats.Connect(n.URL, nats.MaxReconnects(-1), nats.ReconnectWait(20*time.Millisecond))
}
