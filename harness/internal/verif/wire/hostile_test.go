package wire

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/lifecycle"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/go-choria/providers/agent/mcorpc/client"
	"github.com/choria-io/go-choria/server/discovery"
	"github.com/nats-io/nats.go"
)

// rawRequest encodes as something else
type rawRequest struct {
	protocol.Request
	j []byte
}

func (r *rawRequest) JSON() ([]byte, error) { return r.j, nil }

type rawReply struct {
	protocol.Reply
	j []byte
}

func (r *rawReply) JSON() ([]byte, error) { return r.j, nil }

type rawSecureRequest struct {
	protocol.SecureRequest
	j []byte
}

func (r *rawSecureRequest) JSON() ([]byte, error) { return r.j, nil }

type rawSecureReply struct {
	protocol.SecureReply
	j []byte
}

func (r *rawSecureReply) JSON() ([]byte, error) { return r.j, nil }

func damage(r *rand.Rand, doc []byte) ([]byte, string) {
	if r.Intn(5) == 0 {
		return verifkit.MutateBytes(r, doc)
	}
	return verifkit.MutateJSON(r, doc)
}

// hostile makes a message with one layer damaged, the layers around it are valid and signed
func hostile(r *rand.Rand, e, peer *end) (j []byte, what string, kind string) {
	q := genRequest(r, e)
	level := r.Intn(3)
	replyTo := "mcollective.reply." + hexid(r)
	isReply := r.Intn(2) == 0
	kind = fmt.Sprintf("v%d request layer %d", e.version, level)
	if isReply {
		kind = fmt.Sprintf("v%d reply layer %d", e.version, level)
		rep, err := peer.fw.NewReply(q)
		must(err)
		rep.SetMessage([]byte(`{"statuscode":0,"statusmsg":"OK","data":{"x":1}}`))
		if level == 0 {
			b, err := rep.JSON()
			must(err)
			b, what = damage(r, b)
			rep = &rawReply{rep, b}
		}
		s, err := peer.fw.NewSecureReply(rep)
		if err != nil {
			return nil, "", ""
		}
		if level == 1 {
			b, err := s.JSON()
			must(err)
			b, what = damage(r, b)
			s = &rawSecureReply{s, b}
		}
		t, err := peer.fw.NewTransportMessage(transportVersion(e.version))
		must(err)
		if err = t.SetReplyData(s); err != nil {
			return nil, "", ""
		}
		setFed(r, t)
		if j, err = t.JSON(); err != nil {
			return nil, "", ""
		}
	} else {
		if level == 0 {
			b, err := q.JSON()
			must(err)
			b, what = damage(r, b)
			q = &rawRequest{q, b}
		}
		s, err := e.fw.NewSecureRequest(ctx, q)
		if err != nil {
			return nil, "", ""
		}
		if level == 1 {
			b, err := s.JSON()
			must(err)
			b, what = damage(r, b)
			s = &rawSecureRequest{s, b}
		}
		t, err := e.fw.NewTransportMessage(transportVersion(e.version))
		must(err)
		if err = t.SetRequestData(s); err != nil {
			return nil, "", ""
		}
		t.SetReplyTo(replyTo)
		setFed(r, t)
		if j, err = t.JSON(); err != nil {
			return nil, "", ""
		}
	}
	if level == 2 {
		j, what = damage(r, j)
	}
	return j, what, kind
}

func lookTransport(t protocol.TransportMessage) {
	fedView(t)
	t.SenderID()
	t.ReplyTo()
	t.SeenBy()
	t.Version()
	t.Message()
	t.JSON()
	t.RecordNetworkHop("a", "b", "c")
	fedView(t)
	t.SetFederationRequestID("x")
	t.SetFederationReplyTo("y")
	t.SetReplyTo("z")
	fedView(t)
	t.SetUnfederated()
	t.JSON()
}

func lookRequest(fw *choria.Framework, mgr *discovery.Manager, q protocol.Request) {
	requestView(q)
	fedView(q)
	q.CallerPublicData()
	q.SignerPublicData()
	q.Version()
	q.JSON()
	mgr.ShouldProcess(q)
	rep, err := fw.NewReply(q)
	if err == nil {
		rep.SetMessage([]byte("hello"))
		if s, err := fw.NewSecureReply(rep); err == nil {
			if t, err := fw.NewTransportForSecureReply(s); err == nil {
				protocol.CopyFederationData(rep, t)
				lookTransport(t)
			}
		}
	}
	m, err := fw.NewMessageFromRequest(q, "mcollective.reply.x")
	if err == nil {
		lookMessage(m)
	}
}

func lookMessage(m inter.Message) {
	m.ValidateTTL()
	m.Payload()
	m.Base64Payload()
	m.Filter()
	m.Agent()
	m.Collective()
	m.RequestID()
	m.SenderID()
	m.CallerID()
	m.ReplyTo()
	m.TTL()
	m.TimeStamp()
	_ = m.String()
	m.Validate()
	m.DiscoveredHosts()
	m.SetPayload([]byte("answer"))
	if t, err := m.Transport(ctx); err == nil {
		lookTransport(t)
	}
}

func lookReply(p protocol.Reply) {
	fedView(p)
	p.Message()
	p.RequestID()
	p.SenderID()
	p.Agent()
	p.Time()
	p.Version()
	p.JSON()
	rr, err := client.ParseReply(p)
	if err == nil {
		rr.MatchExpr("ok() && data('x') == 1", nil)
	}
}

func receive(rec *verifkit.Rec, fw *choria.Framework, mgr *discovery.Manager, j []byte, id string) {
	in := id + ": " + shorten(string(j))
	usable := false
	rec.NoPanic("transport", in, func() {
		if t, err := fw.NewTransportFromJSON(j); err == nil {
			lookTransport(t)
			usable = true
			rec.Count("transports accepted", 1)
		}
	})
	for _, skip := range []bool{false, true} {
		rec.NoPanic("request", in, func() {
			if q, err := fw.NewRequestFromTransportJSON(j, skip); err == nil {
				lookRequest(fw, mgr, q)
				rec.Count("requests accepted", 1)
			}
		})
		rec.NoPanic("reply", in, func() {
			if p, err := fw.NewReplyFromTransportJSON(j, skip); err == nil {
				lookReply(p)
				rec.Count("replies accepted", 1)
			}
		})
	}
	rec.NoPanic("message", in, func() {
		if m, err := fw.NewRequestMessageFromTransportJSON(j); err == nil {
			lookMessage(m)
			rec.Count("messages accepted", 1)
		}
	})
	rec.Case(true, id)
	_ = usable
}

// TestC04Messages hands damaged messages to clients and servers
func TestC04Messages(t *testing.T) {
	rec := verifkit.New(t, "C04", "decoding a damaged message, whichever layer is damaged and with valid signatures around it, yields an error or a value that can be inspected, routed and answered")
	rng := verifkit.Rand("c04messages")
	si := &vfake.Server{IdentityV: "srv1.example.net", ClassesV: []string{"a"}, AgentsV: []string{"rpcutil", "discovery"}, FactsV: json.RawMessage(`{"x":{"y":1}}`)}
	n := verifkit.N(6000, 120000)
	for i := 0; i < n; i++ {
		v := 1 + i%2
		e, peer := ends()[v][0], ends()[v][1]
		protocol.ClientStrictValidation = rng.Intn(4) == 0
		j, what, kind := hostile(rng, e, peer)
		if kind == "" {
			rec.Count("could not be made", 1)
			continue
		}
		rec.Count(kind, 1)
		recv := peer
		if rng.Intn(4) == 0 {
			recv = e
		}
		receive(rec, recv.fw, discovery.New(recv.fw.Config, si, vfake.Log()), j, fmt.Sprintf("%s %s", kind, what))
	}
	protocol.ClientStrictValidation = false
	for _, v := range []int{1, 2} {
		for _, k := range []string{"request", "reply"} {
			for l := 0; l < 3; l++ {
				rec.Require(fmt.Sprintf("v%d %s layer %d", v, k, l), n/40)
			}
		}
	}
	rec.Require("requests accepted", 10)
	rec.Require("replies accepted", 10)
}

// TestC04Fixed hands a fixed list of documents, alone and inside every layer, to the decoders
func TestC04Fixed(t *testing.T) {
	rec := verifkit.New(t, "C04", "small hostile documents, alone and wrapped in otherwise valid layers, are refused or usable")
	docs := []string{"", "null", "{}", "[]", "0", "\"x\"", "true", "[null]", `{"protocol":null}`, `{"protocol":1}`, `{"protocol":{}}`}
	for _, v := range []string{"choria", "mcollective"} {
		for _, k := range []string{"transport", "request", "reply", "secure:request", "secure:reply", "sender"} {
			docs = append(docs, fmt.Sprintf(`{"protocol":"%s:%s:1"}`, v, k), fmt.Sprintf(`{"protocol":"%s:%s:1","headers":null,"data":null,"message":null,"envelope":null,"signature":null,"pubcert":null,"hash":null}`, v, k),
				fmt.Sprintf(`{"protocol":"%s:%s:1","headers":{},"data":"","message":"","envelope":{},"signature":"","pubcert":"","hash":""}`, v, k))
		}
	}
	for _, k := range []string{"transport", "request", "reply", "secure_request", "secure_reply"} {
		docs = append(docs, fmt.Sprintf(`{"protocol":"io.choria.protocol.v2.%s"}`, k), fmt.Sprintf(`{"protocol":"io.choria.protocol.v2.%s","headers":null,"data":null,"message":null,"reply":null,"request":null,"signature":null,"caller":null,"signer":null,"hash":null,"filter":null,"envelope":null}`, k),
			fmt.Sprintf(`{"protocol":"io.choria.protocol.v2.%s","headers":{},"data":"","message":"","reply":"","request":"","signature":"","caller":"","signer":"","hash":"","filter":{}}`, k))
	}
	mgr := discovery.New(ends()[1][1].fw.Config, &vfake.Server{}, vfake.Log())
	for _, d := range docs {
		for v := 1; v <= 2; v++ {
			fw := ends()[v][1].fw
			receive(rec, fw, mgr, []byte(d), fmt.Sprintf("plain %s v%d", d, v))
			for _, tp := range []string{"choria:transport:1", "io.choria.protocol.v2.transport"} {
				for _, hdr := range []string{`{}`, `null`, `{"mc_sender":"x","reply-to":"y"}`, `{"sender":"x","reply":"y"}`, `{"federation":null,"seen-by":null}`, `{"federation":{"target":null}}`} {
					j := fmt.Sprintf(`{"protocol":%q,"data":%q,"headers":%s}`, tp, base64.StdEncoding.EncodeToString([]byte(d)), hdr)
					receive(rec, fw, mgr, []byte(j), fmt.Sprintf("inside %s %s headers %s v%d", tp, d, hdr, v))
				}
			}
			// signed requests and hashed replies holding it
			q := genRequest(verifkit.Rand("c04fixed"), ends()[v][0])
			if s, err := ends()[v][0].fw.NewSecureRequest(ctx, &rawRequest{q, []byte(d)}); err == nil {
				if tr, err := fw.NewTransportForSecureRequest(s); err == nil {
					if j, err := tr.JSON(); err == nil {
						receive(rec, fw, mgr, j, fmt.Sprintf("signed %s v%d", d, v))
						rec.Count("signed", 1)
					}
				}
			}
			rep, err := fw.NewReply(q)
			must(err)
			if s, err := fw.NewSecureReply(&rawReply{rep, []byte(d)}); err == nil {
				if tr, err := fw.NewTransportForSecureReply(s); err == nil {
					if j, err := tr.JSON(); err == nil {
						receive(rec, ends()[v][0].fw, mgr, j, fmt.Sprintf("hashed %s v%d", d, v))
						rec.Count("hashed", 1)
					}
				}
			}
		}
	}
	rec.Require("signed", 20)
	rec.Require("hashed", 20)
}

// TestC04Events decodes damaged lifecycle events
func TestC04Events(t *testing.T) {
	rec := verifkit.New(t, "C04", "damaged lifecycle events are refused or usable")
	rng := verifkit.Rand("c04events")
	types := []lifecycle.Type{lifecycle.Startup, lifecycle.Alive, lifecycle.Shutdown, lifecycle.Provisioned, lifecycle.Governor, lifecycle.Upgraded}
	n := verifkit.N(15000, 300000)
	for i := 0; i < n; i++ {
		ty := verifkit.Pick(rng, types)
		opts := []lifecycle.Option{lifecycle.Component("x"), lifecycle.Identity("y")}
		switch ty {
		case lifecycle.Startup, lifecycle.Alive:
			opts = append(opts, lifecycle.Version("1"))
		case lifecycle.Upgraded:
			opts = append(opts, lifecycle.Version("1"), lifecycle.NewVersion("2"))
		case lifecycle.Governor:
			opts = append(opts, lifecycle.GovernorName("g"), lifecycle.GovernorType(lifecycle.GovernorEnterEvent), lifecycle.GovernorSequence(1))
		}
		e, err := lifecycle.New(ty, opts...)
		must(err)
		e.SetFormat(verifkit.Pick(rng, []lifecycle.Format{lifecycle.ChoriaFormat, lifecycle.CloudEventV1Format}))
		b := &capture{}
		must(lifecycle.PublishEvent(e, b))
		j, what := damage(rng, b.data)
		rec.Case(true, fmt.Sprintf("%s %s", ty, what))
		rec.NoPanic("event", what+": "+shorten(string(j)), func() {
			lifecycle.EventFormatFromJSON(j)
			e, err := lifecycle.NewFromJSON(j)
			if err != nil {
				rec.Count("refused", 1)
				return
			}
			rec.Count("accepted", 1)
			_ = e.String()
			e.Type()
			e.TypeString()
			e.ID()
			e.Identity()
			e.Component()
			_ = e.TimeStamp().Add(time.Second)
			e.Format()
			e.Target()
			lifecycle.PublishEvent(e, &capture{})
		})
	}
	rec.Require("accepted", n/50)
	rec.Require("refused", n/50)
}

type capture struct {
	inter.RawNATSConnector
	data []byte
}

func (c *capture) PublishRawMsg(m *nats.Msg) error        { c.data = m.Data; return nil }
func (c *capture) PublishRaw(_ string, data []byte) error { c.data = data; return nil }
