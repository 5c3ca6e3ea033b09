package vfake

import (
	"context"
	"fmt"
	"sync"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/protocol"
	v1 "github.com/choria-io/go-choria/protocol/v1"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/sirupsen/logrus"
)

// NetFW is a real framework whose connectors attach to an in-memory network
type NetFW struct {
	*choria.Framework
	Net *Net
	// Provisioning overrides the provisioning mode
	Provisioning func() bool
}

// ProvisionMode implements inter.Framework
func (f *NetFW) ProvisionMode() bool {
	if f.Provisioning != nil {
		return f.Provisioning()
	}
	return f.Framework.ProvisionMode()
}

// Published is a message a client handed to its connector
type Published struct {
	Msg     inter.Message
	Data    []byte // the encoded transport
	Targets []string
	Request protocol.Request
	ReplyTo string
}

type sub struct {
	conn   *Conn
	name   string
	group  string
	output chan inter.ConnectorMessage
	ctx    context.Context
}

// Net is an in-memory middleware, everything published is handed to OnPublish in its own goroutine
type Net struct {
	mu         sync.Mutex
	subs       map[string][]*sub
	next       int
	published  []*Published
	sent       []Sent
	opened     int
	closed     int
	fw         *choria.Framework
	OnPublish  func(p *Published)
	PublishErr func(n int) error
	ReplyErr   func(target string) error
	SubErr     func(subject string) error
	ConnectErr func(n int) error
}

// NewNetFW creates a framework attached to a new in-memory network
func NewNetFW(mod func(*config.Config)) *NetFW {
	fw := FW(func(c *config.Config) {
		Certs("monitor.mcollective")(c)
		if mod != nil {
			mod(c)
		}
	})
	return &NetFW{Framework: fw, Net: &Net{subs: map[string][]*sub{}, fw: fw}}
}

// NewConnector implements inter.Framework
func (f *NetFW) NewConnector(ctx context.Context, _ func() (srvcache.Servers, error), name string, _ *logrus.Entry) (inter.Connector, error) {
	f.Net.mu.Lock()
	f.Net.opened++
	n := f.Net.opened
	cb := f.Net.ConnectErr
	f.Net.mu.Unlock()
	if cb != nil {
		if err := cb(n); err != nil {
			return nil, err
		}
	}
	return &Conn{net: f.Net, name: name}, nil
}

// Published is all that was published so far
func (n *Net) Published() []*Published {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]*Published{}, n.published...)
}

// Connections is how many connections were opened and closed
func (n *Net) Connections() (opened int, closed int) {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.opened, n.closed
}

// Deliver delivers raw bytes to the subscribers of a subject, one of each queue group, returns how many got it
func (n *Net) Deliver(subject string, data []byte) int {
	n.mu.Lock()
	groups := map[string][]*sub{}
	for i, s := range n.subs[subject] {
		if s.ctx.Err() != nil || s.conn.isClosed() {
			continue
		}
		g := s.group
		if g == "" {
			g = fmt.Sprintf("\x00%d", i)
		}
		groups[g] = append(groups[g], s)
	}
	n.next++
	next := n.next
	n.mu.Unlock()

	cnt := 0
	for _, members := range groups {
		s := members[next%len(members)]
		select {
		case s.output <- choria.NewConnectorMessage(subject, "", data, nil):
			cnt++
		case <-s.ctx.Done():
		}
	}
	return cnt
}

// Reply encodes a reply by sender to the request
func (n *Net) Reply(p *Published, sender string, body []byte) []byte {
	rep, err := v1.NewReply(p.Request, sender)
	if err != nil {
		panic(err)
	}
	rep.SetMessage(body)
	sec, err := n.fw.NewSecureReply(rep)
	if err != nil {
		panic(err)
	}
	t, err := v1.NewTransportMessage(sender)
	if err != nil {
		panic(err)
	}
	if err = t.SetReplyData(sec); err != nil {
		panic(err)
	}
	protocol.CopyFederationData(p.Request, t)
	j, err := t.JSON()
	if err != nil {
		panic(err)
	}
	return j
}

// Conn is a connection to the in-memory network
type Conn struct {
	inter.Connector
	net    *Net
	name   string
	mu     sync.Mutex
	closed bool
}

func (c *Conn) isClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

// Close implements inter.Connector
func (c *Conn) Close() {
	c.mu.Lock()
	was := c.closed
	c.closed = true
	c.mu.Unlock()
	if !was {
		c.net.mu.Lock()
		c.net.closed++
		c.net.mu.Unlock()
	}
}

// ConnectedServer implements inter.Connector
func (c *Conn) ConnectedServer() string { return "nats://memory:4222" }

// IsConnected implements inter.Connector
func (c *Conn) IsConnected() bool { return !c.isClosed() }

// QueueSubscribe implements inter.Connector
func (c *Conn) QueueSubscribe(ctx context.Context, name string, subject string, group string, output chan inter.ConnectorMessage) error {
	c.net.mu.Lock()
	defer c.net.mu.Unlock()
	if c.net.SubErr != nil {
		if err := c.net.SubErr(subject); err != nil {
			return err
		}
	}
	c.net.subs[subject] = append(c.net.subs[subject], &sub{conn: c, name: name, group: group, output: output, ctx: ctx})
	return nil
}

// Publish implements inter.Connector
func (c *Conn) Publish(msg inter.Message) error {
	if msg.Type() == inter.ReplyMessageType {
		return c.publishReply(msg)
	}
	t, err := msg.Transport(context.Background())
	if err != nil {
		return err
	}
	j, err := t.JSON()
	if err != nil {
		return err
	}
	req, err := c.net.fw.NewRequestFromTransportJSON(j, true)
	if err != nil {
		return fmt.Errorf("published something that is not a request: %w", err)
	}
	p := &Published{Msg: msg, Data: j, Request: req, ReplyTo: msg.ReplyTo(), Targets: append([]string{}, msg.DiscoveredHosts()...)}
	c.net.mu.Lock()
	c.net.published = append(c.net.published, p)
	n := len(c.net.published)
	ecb, cb := c.net.PublishErr, c.net.OnPublish
	c.net.mu.Unlock()
	if ecb != nil {
		if err := ecb(n); err != nil {
			return err
		}
	}
	msg.NotifyPublish()
	if cb != nil {
		go cb(p)
	}
	return nil
}
