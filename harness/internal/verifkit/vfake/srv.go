package vfake

import (
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/server"
	"github.com/nats-io/nats.go"
)

// Sent is something a server published
type Sent struct {
	Subject string
	Data    []byte
	Reply   bool
	At      time.Time
}

// WrapNet attaches an existing framework to a new in-memory network
func WrapNet(fw *choria.Framework) *NetFW {
	return &NetFW{Framework: fw, Net: &Net{subs: map[string][]*sub{}, fw: fw}}
}

// Sent is all that servers published so far
func (n *Net) Sent() []Sent {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Sent{}, n.sent...)
}

// Subjects are the subjects with live subscriptions and how many they have
func (n *Net) Subjects() map[string]int {
	n.mu.Lock()
	defer n.mu.Unlock()
	res := map[string]int{}
	for s, l := range n.subs {
		for _, x := range l {
			if x.ctx.Err() == nil && !x.conn.isClosed() {
				res[s]++
			}
		}
	}
	return res
}

func (c *Conn) record(s Sent) {
	s.At = time.Now()
	c.net.mu.Lock()
	c.net.sent = append(c.net.sent, s)
	c.net.mu.Unlock()
}

func (c *Conn) publishReply(msg inter.Message) error {
	if c.isClosed() {
		return fmt.Errorf("connection closed")
	}
	t, err := msg.Transport(context.Background())
	if err != nil {
		return err
	}
	j, err := t.JSON()
	if err != nil {
		return err
	}
	target, err := choria.TargetForMessage(msg, "")
	if err != nil {
		return err
	}
	c.net.mu.Lock()
	cb := c.net.ReplyErr
	c.net.mu.Unlock()
	if cb != nil {
		if err := cb(target); err != nil {
			return err
		}
	}
	c.record(Sent{Subject: target, Data: j, Reply: true})
	return nil
}

// PublishRaw implements inter.Connector
func (c *Conn) PublishRaw(target string, data []byte) error {
	if c.isClosed() {
		return fmt.Errorf("connection closed")
	}
	c.record(Sent{Subject: target, Data: append([]byte{}, data...)})
	return nil
}

// PublishRawMsg implements inter.Connector
func (c *Conn) PublishRawMsg(msg *nats.Msg) error { return c.PublishRaw(msg.Subject, msg.Data) }

// AgentBroadcastTarget implements inter.Connector
func (c *Conn) AgentBroadcastTarget(collective string, agent string) string {
	return choria.AgentBroadcastTarget(collective, agent)
}

// ServiceBroadcastTarget implements inter.Connector
func (c *Conn) ServiceBroadcastTarget(collective string, agent string) string {
	return choria.ServiceBroadcastTarget(collective, agent)
}

// NodeDirectedTarget implements inter.Connector
func (c *Conn) NodeDirectedTarget(collective string, identity string) string {
	return choria.NodeDirectedTarget(collective, identity)
}

// Unsubscribe implements inter.Connector
func (c *Conn) Unsubscribe(name string) error {
	c.net.mu.Lock()
	defer c.net.mu.Unlock()
	found := false
	for subject, list := range c.net.subs {
		var keep []*sub
		for _, s := range list {
			if s.conn == c && s.name == name {
				found = true
				continue
			}
			keep = append(keep, s)
		}
		c.net.subs[subject] = keep
	}
	if !found {
		return fmt.Errorf("no such subscription %q", name)
	}
	return nil
}

// StartServer starts a real server on the in-memory network, stop shuts it down and waits for it
func StartServer(ctx context.Context, fw *NetFW) (inst *server.Instance, stop func()) {
	inst, err := server.NewInstance(fw)
	if err != nil {
		panic(err)
	}
	ctx, cancel := context.WithCancel(ctx)
	wg := &sync.WaitGroup{}
	wg.Add(1)
	if err = inst.Run(ctx, wg); err != nil {
		panic(err)
	}
	return inst, func() {
		cancel()
		wg.Wait()
	}
}

// ConnectionOptions implements inter.Connector
func (c *Conn) ConnectionOptions() nats.Options {
	o := nats.GetDefaultOptions()
	o.Servers = []string{"nats://memory:4222"}
	o.Name = c.name
	return o
}

// ConnectionStats implements inter.Connector
func (c *Conn) ConnectionStats() nats.Statistics { return nats.Statistics{InMsgs: 1} }

// Nats implements inter.Connector, the connection is not usable
func (c *Conn) Nats() *nats.Conn { return &nats.Conn{} }
