package wire

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/protocol"
)

// TestC03Layers encodes requests and replies layer by layer and decodes them on another node
func TestC03Layers(t *testing.T) {
	rec := verifkit.New(t, "C03", "a request or reply decoded on another node has exactly the values it was made with, in both protocol versions")
	rng := verifkit.Rand("c03layers")
	n := verifkit.N(350, 6000)
	for i := 0; i < n; i++ {
		for _, v := range []int{1, 2} {
			cl, sv := ends()[v][0], ends()[v][1]
			protocol.ClientStrictValidation = rng.Intn(3) == 0
			q := genRequest(rng, cl)
			want := requestView(q)
			id := fmt.Sprintf("v%d/%d/%s", v, i, want.ID)

			sr, err := cl.fw.NewSecureRequest(ctx, q)
			if err != nil {
				rec.Count("refused to encode", 1)
				continue
			}
			tr, err := cl.fw.NewTransportForSecureRequest(sr)
			if err != nil {
				rec.Violation("transport", "could not put a valid request on a transport: %v", err)
				continue
			}
			replyTo := "mcollective.reply." + hexid(rng)
			tr.SetReplyTo(replyTo)
			setFed(rng, tr)
			wantFed := fedView(tr)
			j, err := tr.JSON()
			if err != nil {
				rec.Count("refused to encode", 1)
				continue
			}
			keep(rec, j)
			if rng.Intn(5) == 0 { // as a different JSON encoder would write it
				var d any
				dec := json.NewDecoder(bytes.NewReader(j))
				dec.UseNumber()
				if dec.Decode(&d) == nil {
					j, _ = json.MarshalIndent(d, "", " ")
				}
			}

			rec.Case(true, id)
			t2, err := sv.fw.NewTransportFromJSON(j)
			if !rec.Check(err == nil, "decode-transport", "%s: transport could not be decoded: %v", id, err) {
				continue
			}
			rec.Check(t2.ReplyTo() == replyTo && t2.SenderID() == cl.fw.Config.Identity, "transport-headers", "%s: reply-to and sender %q %q became %q %q", id, replyTo, cl.fw.Config.Identity, t2.ReplyTo(), t2.SenderID())
			rec.Check(same(fedView(t2), wantFed), "transport-federation", "%s: federation data %+v became %+v", id, wantFed, fedView(t2))

			q2, err := sv.fw.NewRequestFromTransportJSON(j, false)
			if !rec.Check(err == nil, "decode-request", "%s: a valid request by %s was refused: %v", id, want.Caller, err) {
				continue
			}
			got := requestView(q2)
			rec.Check(same(got, want), "request-values", "%s: request %s became %s", id, shorten(verifkit.J(want)), shorten(verifkit.J(got)))
			wf := wantFed
			if !wf.On {
				wf.Hops = [][3]string{} // without federation nothing is carried over
			}
			rec.Check(same(fedView(q2), wf), "request-federation", "%s: federation data %+v became %+v", id, wantFed, fedView(q2))
			rec.Count(fmt.Sprintf("v%d requests", v), 1)

			// and its reply, made by the server from what it decoded
			rep, err := sv.fw.NewReply(q2)
			if !rec.Check(err == nil, "reply", "%s: no reply could be made: %v", id, err) {
				continue
			}
			body := genBody(rng, v == 2)
			rep.SetMessage(body)
			repTime := rep.Time()
			srep, err := sv.fw.NewSecureReply(rep)
			if !rec.Check(err == nil, "secure-reply", "%s: no secure reply could be made: %v", id, err) {
				continue
			}
			rt, err := sv.fw.NewTransportForSecureReply(srep)
			if !rec.Check(err == nil, "reply-transport", "%s: no transport could be made: %v", id, err) {
				continue
			}
			protocol.CopyFederationData(rep, rt)
			rj, err := rt.JSON()
			keep(rec, rj)
			if err != nil {
				rec.Count("refused to encode reply", 1)
				continue
			}
			rep2, err := cl.fw.NewReplyFromTransportJSON(rj, false)
			if !rec.Check(err == nil, "decode-reply", "%s: reply with body %s was refused: %v", id, shorten(string(body)), err) {
				continue
			}
			rec.Check(string(rep2.Message()) == string(body), "reply-body", "%s: reply body %s became %s", id, shorten(string(body)), shorten(string(rep2.Message())))
			rec.Check(rep2.RequestID() == want.ID, "reply-id", "%s: reply has id %q", id, rep2.RequestID())
			rec.Check(rep2.Agent() == want.Agent && rep2.SenderID() == sv.fw.Config.Identity && rep2.Time().Equal(repTime), "reply-values", "%s: reply by %s for %s at %v became by %s for %s at %v", id, sv.fw.Config.Identity, want.Agent, repTime, rep2.SenderID(), rep2.Agent(), rep2.Time())
			rec.Check(same(fedView(rep2), wf), "reply-federation", "%s: federation data %+v became %+v in the reply", id, wf, fedView(rep2))
			rec.Count(fmt.Sprintf("v%d replies", v), 1)
		}
	}
	protocol.ClientStrictValidation = false
	for _, w := range []string{"v1 requests", "v2 requests", "v1 replies", "v2 replies"} {
		rec.Require(w, n/2)
	}
}

// TestC03Messages follows messages as clients and servers exchange them
func TestC03Messages(t *testing.T) {
	rec := verifkit.New(t, "C03", "a message sent by a client arrives at the server unchanged and its reply leads back to the client")
	rng := verifkit.Rand("c03messages")
	n := verifkit.N(250, 4000)
	for i := 0; i < n; i++ {
		for _, v := range []int{1, 2} {
			cl, sv := ends()[v][0], ends()[v][1]
			body := genBody(rng, true)
			wire := []byte(base64.StdEncoding.EncodeToString(body)) // clients send base64, servers decode it
			coll := verifkit.Pick(rng, cl.fw.Config.Collectives)
			msg, err := cl.fw.NewMessage(wire, "rpcutil", coll, inter.RequestMessageType, nil)
			if err != nil {
				panic(err)
			}
			filter := genFilter(rng)
			msg.SetFilter(filter)
			msg.SetTTL(30 + rng.Intn(100))
			kind := rng.Intn(3)
			switch kind {
			case 1:
				msg.SetDiscoveredHosts([]string{"a", "b"})
				must(msg.SetType(inter.DirectRequestMessageType))
			case 2:
				must(msg.SetType(inter.ServiceRequestMessageType))
			}
			custom := rng.Intn(2) == 0
			replyTo := msg.ReplyTarget()
			if custom {
				replyTo = "custom." + hexid(rng)
			}
			must(msg.SetReplyTo(replyTo))
			before := time.Now()
			wantFilter := normFilter(msg.Filter())
			rec.Check(choria.ReplyTarget(msg, msg.RequestID()) == msg.ReplyTarget(), "reply-target", "two reply targets for one message: %s and %s", choria.ReplyTarget(msg, msg.RequestID()), msg.ReplyTarget())

			tr, err := msg.Transport(ctx)
			if !rec.Check(err == nil, "message-transport", "no transport for a valid message: %v", err) {
				continue
			}
			setFed(rng, tr)
			wantFed := fedView(tr)
			if !wantFed.On {
				wantFed.Hops = [][3]string{}
			}
			j, err := tr.JSON()
			if err != nil {
				rec.Count("refused", 1)
				continue
			}
			id := fmt.Sprintf("v%d/%d", v, i)
			rec.Case(true, id+msg.RequestID())
			got, err := sv.fw.NewRequestMessageFromTransportJSON(j)
			if !rec.Check(err == nil, "receive", "%s: server refused a valid message: %v", id, err) {
				continue
			}
			rec.Check(bytes.Equal(got.Payload(), body), "payload", "%s: payload %s became %s", id, shorten(string(body)), shorten(string(got.Payload())))
			rec.Check(got.RequestID() == msg.RequestID(), "message-id", "%s: id %s became %s", id, msg.RequestID(), got.RequestID())
			rec.Check(got.Agent() == "rpcutil" && got.Collective() == coll && got.TTL() == msg.TTL(), "message-values", "%s: agent, collective and ttl %s %s %d became %s %s %d", id, "rpcutil", coll, msg.TTL(), got.Agent(), got.Collective(), got.TTL())
			rec.Check(normFilter(got.Filter()) == wantFilter, "message-filter", "%s: filter %s became %s", id, wantFilter, normFilter(got.Filter()))
			d := got.TimeStamp().Sub(before)
			rec.Check(d > -2*time.Second && d < time.Minute, "message-time", "%s: sent at %v received with time stamp %v", id, before, got.TimeStamp())
			rec.Check(got.ReplyTo() == replyTo, "message-reply-to", "%s: reply to %s became %s", id, replyTo, got.ReplyTo())
			target, err := choria.TargetForMessage(got, "")
			rec.Check(err == nil && target == replyTo, "reply-route", "%s: reply goes to %q (%v), the request asked for %q", id, target, err, replyTo)

			// the server replies
			rbody := genBody(rng, v == 2)
			got.SetPayload(rbody)
			rt, err := got.Transport(ctx)
			if !rec.Check(err == nil, "reply-transport", "%s: no reply transport: %v", id, err) {
				continue
			}
			rj, err := rt.JSON()
			keep(rec, rj)
			if err != nil {
				rec.Count("refused", 1)
				continue
			}
			rep, err := cl.fw.NewReplyFromTransportJSON(rj, false)
			if !rec.Check(err == nil, "receive-reply", "%s: client refused the reply: %v", id, err) {
				continue
			}
			rec.Check(bytes.Equal(rep.Message(), rbody), "reply-body", "%s: reply %s became %s", id, shorten(string(rbody)), shorten(string(rep.Message())))
			rec.Check(rep.RequestID() == msg.RequestID() && rep.Agent() == "rpcutil" && rep.SenderID() == sv.fw.Config.Identity, "reply-values", "%s: reply to %s has id %s agent %s sender %s", id, msg.RequestID(), rep.RequestID(), rep.Agent(), rep.SenderID())
			rec.Check(same(fedView(rep), wantFed), "reply-federation", "%s: federation %+v became %+v", id, wantFed, fedView(rep))
			rec.Count("exchanges", 1)
		}
	}
	rec.Require("exchanges", n)
}

// kept are the bytes last produced, as they were then and as they are since
var kept [][2][]byte

// keep checks that bytes produced earlier stayed what they were
func keep(rec *verifkit.Rec, j []byte) {
	for _, k := range kept {
		rec.Check(bytes.Equal(k[0], k[1]), "bytes-changed", "encoded as %.300s and later changed to %.300s", k[0], k[1])
	}
	kept = append(kept, [2][]byte{bytes.Clone(j), j})
	if len(kept) > 4 {
		kept = kept[1:]
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// encode builds the wire form of a request, returns the layers too
func encodeRequest(e *end, q protocol.Request) (wire []byte, secure map[string]any, sraw []byte) {
	sr, err := e.fw.NewSecureRequest(ctx, q)
	must(err)
	sraw, err = sr.JSON()
	must(err)
	must(json.Unmarshal(sraw, &secure))
	tr, err := e.fw.NewTransportForSecureRequest(sr)
	must(err)
	tr.SetReplyTo("x.y")
	wire, err = tr.JSON()
	must(err)
	return wire, secure, sraw
}

// rewrap puts a secured message on a transport again
func rewrap(v int, secure any) []byte {
	j, ok := secure.([]byte)
	if !ok {
		var err error
		j, err = json.Marshal(secure)
		must(err)
	}
	h := map[string]any{"protocol": string(transportVersion(v)), "data": j, "headers": map[string]any{"reply-to": "x.y", "mc_sender": "s", "reply": "x.y", "sender": "s"}}
	if v == 1 {
		h["headers"] = map[string]any{"reply-to": "x.y", "mc_sender": "s"}
	} else {
		h["headers"] = map[string]any{"reply": "x.y", "sender": "s"}
	}
	w, err := json.Marshal(h)
	must(err)
	return w
}

// body gets a field as the bytes that were signed, setBody stores it
func getBytes(v int, m map[string]any, key string) []byte {
	s, _ := m[key].(string)
	if v == 1 {
		return []byte(s)
	}
	b, err := base64.StdEncoding.DecodeString(s)
	must(err)
	return b
}

func setBytes(v int, m map[string]any, key string, b []byte) map[string]any {
	n := map[string]any{}
	for k, x := range m {
		n[k] = x
	}
	if v == 1 {
		n[key] = string(b)
	} else {
		n[key] = base64.StdEncoding.EncodeToString(b)
	}
	return n
}

func mutate(r *rand.Rand, b []byte, text bool) []byte {
	o := append([]byte{}, b...)
	i := r.Intn(len(o))
	switch r.Intn(6) {
	case 0:
		return append(o[:i], o[i+1:]...)
	case 1:
		return append(o[:i], append([]byte{' '}, b[i:]...)...)
	case 2:
		return append(o, ' ')
	case 3:
		return append(o, o...)
	}
	x := byte(r.Intn(256))
	if text {
		x = byte(32 + r.Intn(95))
	}
	if x == o[i] {
		x = o[i] ^ 1
	}
	o[i] = x
	return o
}

// TestC03Tamper alters what is covered by the signature or checksum
func TestC03Tamper(t *testing.T) {
	rec := verifkit.New(t, "C03", "altering any covered byte of a signed request or checksummed reply makes unwrapping fail")
	rng := verifkit.Rand("c03tamper")
	n := verifkit.N(60, 1000)
	per := verifkit.N(20, 60)
	for i := 0; i < n; i++ {
		for _, v := range []int{1, 2} {
			cl, sv := ends()[v][0], ends()[v][1]
			q := genRequest(rng, cl)
			want := requestView(q)
			if want.Body == "" {
				continue
			}
			var wire []byte
			var sec map[string]any
			if !func() (ok bool) {
				defer func() { recover() }()
				wire, sec, _ = encodeRequest(cl, q)
				return true
			}() {
				continue
			}
			bodyKey, sigKey := "message", "signature"
			if v == 2 {
				bodyKey = "request"
			}
			_, err := sv.fw.NewRequestFromTransportJSON(rewrap(v, sec), false)
			if !rec.Check(err == nil, "control", "v%d: unchanged request was refused: %v", v, err) {
				continue
			}
			rec.Count("controls", 1)

			body := getBytes(v, sec, bodyKey)
			for k := 0; k < per; k++ {
				// single altered byte anywhere in the signed body
				nb := mutate(rng, body, v == 1)
				rec.Case(true, fmt.Sprintf("%d/%d/%d", v, i, k))
				w := rewrap(v, setBytes(v, sec, bodyKey, nb))
				got, err := sv.fw.NewRequestFromTransportJSON(w, false)
				if err == nil {
					rec.Violation("request-tampered", "v%d: request altered from %s to %s was accepted: %+v", v, shorten(string(body)), shorten(string(nb)), requestView(got))
				}
				rec.Count("altered requests", 1)
			}
			// semantic alterations that keep the request well formed
			for _, edit := range [][2]string{{"rpcutil", "package"}, {`"ttl":`, `"ttl":9`}, {want.Caller, "choria=admin.mcollective"}, {want.ID, hexid(rng)}, {`"mcollective"`, `"other_c"`}} {
				nb := bytes.Replace(body, []byte(edit[0]), []byte(edit[1]), 1)
				if bytes.Equal(nb, body) {
					continue
				}
				_, err := sv.fw.NewRequestFromTransportJSON(rewrap(v, setBytes(v, sec, bodyKey, nb)), false)
				rec.Check(err != nil, "request-edited", "v%d: request with %s replaced by %s was accepted", v, edit[0], edit[1])
				rec.Count("edited requests", 1)
			}
			// signature
			raw, err := base64.StdEncoding.DecodeString(sec[sigKey].(string))
			must(err)
			for _, bad := range [][]byte{{}, raw[:len(raw)-1], append(append([]byte{}, raw...), 0), mutateByte(rng, raw), mutateByte(rng, raw), bytes.Repeat([]byte{0}, len(raw)), []byte("insecure")} {
				s := setBytes(2, sec, sigKey, bad)
				_, err := sv.fw.NewRequestFromTransportJSON(rewrap(v, s), false)
				rec.Check(err != nil, "signature-altered", "v%d: request with altered signature %x was accepted", v, bad)
				rec.Count("altered signatures", 1)
			}
			// a signature of another request by the same caller
			q2 := genRequest(rng, cl)
			_, sec2, _ := encodeOr(cl, q2)
			if sec2 != nil {
				s := map[string]any{}
				for k, x := range sec {
					s[k] = x
				}
				s[sigKey] = sec2[sigKey]
				_, err := sv.fw.NewRequestFromTransportJSON(rewrap(v, s), false)
				rec.Check(err != nil, "signature-swapped", "v%d: request with the signature of another request was accepted", v)
			}
			// any byte of the wire form, what is accepted must be the original
			for k := 0; k < per; k++ {
				w := mutate(rng, wire, true)
				got, err := sv.fw.NewRequestFromTransportJSON(w, false)
				rec.Count("altered wire requests", 1)
				if err == nil && !same(requestView(got), want) {
					rec.Violation("wire-tampered", "v%d: altered wire bytes yield a different request: %+v not %+v", v, requestView(got), want)
				}
			}

			// replies
			rep, err := sv.fw.NewReply(q)
			must(err)
			rep.SetMessage(genBody(rng, v == 2))
			srep, err := sv.fw.NewSecureReply(rep)
			must(err)
			sj, err := srep.JSON()
			must(err)
			var rsec map[string]any
			must(json.Unmarshal(sj, &rsec))
			rkey := "message"
			if v == 2 {
				rkey = "reply"
			}
			_, err = cl.fw.NewReplyFromTransportJSON(rewrap(v, rsec), false)
			if !rec.Check(err == nil, "reply-control", "v%d: unchanged reply was refused: %v", v, err) {
				continue
			}
			rbody := getBytes(v, rsec, rkey)
			for k := 0; k < per; k++ {
				nb := mutate(rng, rbody, v == 1)
				_, err := cl.fw.NewReplyFromTransportJSON(rewrap(v, setBytes(v, rsec, rkey, nb)), false)
				rec.Check(err != nil, "reply-tampered", "v%d: reply altered from %s to %s was accepted", v, shorten(string(rbody)), shorten(string(nb)))
				rec.Count("altered replies", 1)
			}
			for _, h := range []any{"", "x", nil, strings.ToLower(rsec["hash"].(string)) + "a", rsec["hash"].(string)[1:]} {
				s := map[string]any{}
				for k, x := range rsec {
					s[k] = x
				}
				s["hash"] = h
				_, err := cl.fw.NewReplyFromTransportJSON(rewrap(v, s), false)
				rec.Check(err != nil, "hash-altered", "v%d: reply with hash %v was accepted", v, h)
			}
		}
	}
	for _, w := range []string{"controls", "altered requests", "edited requests", "altered signatures", "altered wire requests", "altered replies"} {
		rec.Require(w, n)
	}
}

func mutateByte(r *rand.Rand, b []byte) []byte {
	o := append([]byte{}, b...)
	o[r.Intn(len(o))] ^= byte(1 + r.Intn(255))
	return o
}

func encodeOr(e *end, q protocol.Request) (wire []byte, sec map[string]any, raw []byte) {
	defer func() { recover() }()
	return encodeRequest(e, q)
}
