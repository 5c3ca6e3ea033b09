package broker

import (
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/rand"
	"net"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
)

func setups() []*setup {
	two := map[string]string{"choria": "issuer-choria", "acme": "issuer-acme"}
	return []*setup{
		{name: "signers", clientSigners: []string{"cs1", "rsa:cs2"}, serverSigners: []string{"ss1", "rsa:ss2"}, provPass: "provsecret", provSigner: "prov", sysUser: "system", sysPass: "syssecret"},
		{name: "one signer", clientSigners: []string{"cs1"}, serverSigners: []string{"ss1"}, sysUser: "sysadmin", sysPass: "syssecret"},
		{name: "certificates", provPass: "provsecret", sysUser: "system"},
		{name: "outside allow list", allow: []string{"192.168.0.0/24", "10.1.1.1"}, clientSigners: []string{"cs1"}, serverSigners: []string{"ss1"}, sysUser: "system", sysPass: "syssecret"},
		{name: "deny servers", allow: []string{"10.1.1.1"}, deny: true, clientSigners: []string{"cs1"}, serverSigners: []string{"ss1"}, provPass: "provsecret", provSigner: "prov"},
		{name: "certificates not verified", noVerify: true, clientSigners: []string{"cs1"}, serverSigners: []string{"ss1"}, provPass: "provsecret", provSigner: "prov", sysUser: "system", sysPass: "syssecret"},
		{name: "issuers", issuers: two, provPass: "provsecret", provSigner: "prov", sysUser: "system", sysPass: "syssecret"},
		{name: "issuers and certificates", issuers: two, issuerCA: true, provPass: "provsecret", sysUser: "system", sysPass: "syssecret"},
		{name: "issuers and provisioners without tokens", issuers: map[string]string{"choria": "issuer-choria"}, provPass: "provsecret", provNoToken: true},
		{name: "issuers denying servers", issuers: map[string]string{"choria": "issuer-choria"}, deny: true},
		{name: "no encryption", plain: true, sysUser: "system", sysPass: "syssecret"},
	}
}

func certOf(kind string) *tls.Certificate {
	ca := vfake.MainCA()
	var id *vfake.Ident
	switch kind {
	case "none":
		return nil
	case "good":
		id = ca.Client("node1.example.net")
	case "otherca":
		id = vfake.NewCA("foreign", nil).Client("node1.example.net")
	case "expired":
		id = ca.Issue("expired", vfake.CertSpec{CN: "node1.example.net", From: time.Now().Add(-48 * time.Hour), To: time.Now().Add(-time.Hour)})
	case "serveronly":
		id = ca.Issue("serveronly", vfake.CertSpec{CN: "node1.example.net", Usage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}})
	case "self":
		id = ca.Issue("self", vfake.CertSpec{CN: "node1.example.net", Self: true})
	}
	c, err := tls.X509KeyPair(id.PEM, id.KeyPEM)
	must(err)
	return &c
}

var collectives = []string{"mcollective", "acme", "third", "provisioning"}

// gen makes a connection that would do well in the broker and then spoils some of it
func (s *setup) gen(r *rand.Rand) *attempt {
	a := &attempt{Cert: "none", Sig: "good"}
	ous := []string{"choria"}
	for ou := range s.issuers {
		ous = append(ous, ou)
	}
	slices.Sort(ous)
	signer := func(kind string, ou string) string {
		switch {
		case kind == "provision" && s.provSigner != "" && (s.issuers == nil || r.Intn(3) == 0):
			return "rsa:" + s.provSigner
		case s.issuers != nil:
			if kind == "client" && r.Intn(4) == 0 {
				return "chain:" + s.issuers[ou]
			}
			return s.issuers[ou]
		case kind == "client" && len(s.clientSigners) > 0:
			return verifkit.Pick(r, s.clientSigners)
		case kind == "server" && len(s.serverSigners) > 0:
			return verifkit.Pick(r, s.serverSigners)
		}
		return "cs1"
	}
	extra := func() []string {
		if r.Intn(3) > 0 {
			return nil
		}
		return verifkit.Subset(r, []string{"custom.>", "acme.data.*", "choria.node_metadata", "other.reply.x.>"})
	}
	some := func(of []string) []string {
		switch r.Intn(4) {
		case 0:
			return nil
		case 1:
			return []string{verifkit.Pick(r, of)}
		}
		return verifkit.Subset(r, of)
	}
	token := func(kind string) *tok {
		k := &tok{Kind: kind, OU: verifkit.Pick(r, ous), Valid: "ok", Key: verifkit.Pick(r, []string{"k1", "k2"})}
		k.Signer = signer(kind, k.OU)
		if kind == "client" && s.issuers == nil && r.Intn(3) == 0 {
			k.OU = "acme"
		}
		switch kind {
		case "client":
			k.Name = verifkit.Pick(r, []string{"choria=alice", "up=bob", "choria=\U0001f600"})
			k.Perms, k.Pub, k.Sub = some(clientPerms), extra(), extra()
			if k.has("org_admin") && r.Intn(3) > 0 {
				k.Perms = slices.DeleteFunc(k.Perms, func(p string) bool { return p == "org_admin" })
			}
			k.NoPerm = r.Intn(12) == 0
		case "server":
			k.Name = verifkit.Pick(r, []string{"node1.example.net", "node2", "n"})
			k.Colls = verifkit.Subset(r, collectives)
			k.Perms, k.Pub = some(serverPerms), extra()
			k.NoPerm = r.Intn(8) == 0
			if len(k.Colls) == 0 && r.Intn(3) > 0 {
				k.Colls = collectives[:1]
			}
		case "provision":
			k.Name = "x"
		}
		return k
	}
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		a.Tok = token("client")
	case 4, 5, 6:
		a.Tok = token("server")
	case 7, 8:
		a.Tok = token("provision")
	case 9:
		a.User, a.Pass, a.Cert = "provisioner", s.provPass, "good"
		if s.issuers != nil && r.Intn(4) > 0 {
			a.Tok = token("client")
			a.Tok.Perms = append(a.Tok.Perms, "provisioner")
			a.Tok.NoPerm = false
		}
	case 10:
		a.User, a.Pass, a.Cert = s.sysUser, s.sysPass, "good"
		if r.Intn(2) == 0 {
			a.Cert = "none"
			a.Tok = token("client")
			a.Tok.Perms = append(a.Tok.Perms, verifkit.Pick(r, []string{"system_user", "org_admin"}))
			a.Tok.NoPerm = false
		}
	case 11:
		a.Cert = "good"
	}
	if r.Intn(8) == 0 {
		a.Cert = "good"
	}
	n := []int{0, 0, 0, 1, 1, 1, 1, 2}[r.Intn(8)]
	for range n {
		s.spoil(r, a)
	}
	return a
}

func (s *setup) spoil(r *rand.Rand, a *attempt) {
	k := a.Tok
	if k == nil || r.Intn(4) == 0 {
		switch r.Intn(6) {
		case 0:
			a.Cert = verifkit.Pick(r, []string{"none", "otherca", "expired", "serveronly", "self"})
		case 1:
			a.User = verifkit.Pick(r, []string{"provisioner", "system", "bob", "", "PROVISIONER", "provisioner "})
		case 2:
			a.Pass = verifkit.Pick(r, []string{"", "wrong", "provsecret", "syssecret", "provsecre", "syssecrett"})
		case 3:
			if k == nil {
				a.Tok = &tok{Kind: "garbage", Name: verifkit.Pick(r, []string{"x", "a.b.c", "e30.e30.e30", "..", "eyJhbGciOiJub25lIn0.eyJwdXJwb3NlIjoiY2hvcmlhX2NsaWVudF9pZCJ9."})}
			}
		case 4:
			a.Cert = "none"
		case 5:
			a.Cert = "good"
		}
		return
	}
	switch r.Intn(10) {
	case 0:
		k.Valid = verifkit.Pick(r, []string{"expired", "future"})
	case 1, 2:
		k.Signer = verifkit.Pick(r, []string{"untrusted", "cs1", "ss1", "issuer-choria", "issuer-acme", "none", "hmac:cs1", "hmac:issuer-choria", "altered:cs1", "altered:issuer-choria", "altered:ss1",
			"chain:untrusted", "forged:issuer-choria", "forged:cs1", "rsa:prov", "rsa:cs2", "rsa:ss2", "rsa:untrusted"})
	case 3:
		k.OU = verifkit.Pick(r, []string{"", "choria", "acme", "unknown"})
	case 4:
		k.Name = ""
	case 5:
		k.Key = verifkit.Pick(r, []string{"missing", "short", "nothex"})
	case 6, 7:
		a.Sig = verifkit.Pick(r, []string{"other", "stale", "missing", "garbage"})
	case 8:
		k.Kind = verifkit.Pick(r, []string{"client", "server", "provision", "other"})
	case 9:
		k.Perms = verifkit.Subset(r, append(slices.Clone(clientPerms), serverPerms...))
	}
	if strings.HasPrefix(k.Signer, "chain:") || strings.HasPrefix(k.Signer, "forged:") {
		if k.Kind == "server" || k.Kind == "provision" { // not specified which others login services may issue
			k.Kind = "client"
		}
	}
	if k.Kind == "client" && k.Name == "x" {
		k.Name = "choria=x"
	}
}

// subjects of interest to a connection
func subjects(a *attempt) []string {
	m, h := inboxes("choria=someone")
	res := []string{
		"choria.lifecycle.event.startup.rpcutil", "choria.lifecycle.event.startup.provision_mode_server", "choria.lifecycle.event.governor.g1", "choria.lifecycle.other", "choria.machine.transition", "choria.machine.watcher.exec.state", "choria.machine.other",
		"provisioning.broadcast.agent.discovery", "provisioning.broadcast.agent.choria_provision", "provisioning.broadcast.agent.shell", "provisioning.registration.x", "provisioning.node.n1", "provisioning.reply.x.y",
		"custom.a.b", "acme.data.x", "acme.data.x.y", "choria.node_metadata", "other.reply.x.y", "custom", "single",
		"$SYS.REQ.USER.INFO", "$KV.B.k", "$KV.CHORIA_LEADER_ELECTION.provisioner", "$KV.CHORIA_LEADER_ELECTION.x", "$O.B.C.x", "$JS.ACK.x.y", "$JS.FC.x", "$JS.EVENT.ADVISORY.x", "$JS.OTHER",
		"choria.republish.x", "acme.republish.x", "mcollective.republish.x",
		"_INBOX.x.y", "mcollective.reply." + m + ".1", "mcollective.reply." + h + ".1", "acme.reply." + m + ".1",
		"choria.federation.mcollective.federation", "choria.federation.mcollective.collective", "choria.federation.acme.federation", "choria.federation.acme.collective", "choria.federation.acme.other",
	}
	for _, c := range collectives {
		res = append(res, c+".broadcast.agent.rpcutil", c+".broadcast.agent.registration", c+".broadcast.service.svc", c+".broadcast.other.x", c+".node.node1.example.net", c+".node.node2", c+".node.n", c+".submission.in.x", c+".submission.out.x", c+".governor.g1", c+".governor.g1.x")
	}
	for _, api := range []string{"INFO", "STREAM.NAMES", "STREAM.LIST", "STREAM.INFO.S", "STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "STREAM.CREATE.S", "STREAM.UPDATE.S", "STREAM.DELETE.S", "STREAM.PURGE.S", "STREAM.MSG.GET.S", "STREAM.MSG.DELETE.S", "DIRECT.GET.S", "DIRECT.GET.S.x.y",
		"CONSUMER.CREATE.S", "CONSUMER.CREATE.S.C.f", "CONSUMER.DURABLE.CREATE.S.C", "CONSUMER.DELETE.S.C", "CONSUMER.NAMES.S", "CONSUMER.LIST.S", "CONSUMER.INFO.S.C", "CONSUMER.MSG.NEXT.S.C", "STREAM.SNAPSHOT.S", "META.LEADER.STEPDOWN"} {
		res = append(res, "$JS.API."+api, "choria.streams."+api)
	}
	if a.Tok != nil && a.Tok.Name != "" {
		m, h := inboxes(a.Tok.Name)
		for _, c := range collectives[:3] {
			res = append(res, c+".reply."+m+".1.2", c+".reply."+h+".1")
		}
	}
	return res
}

var wildcards = []string{">", "*", "*.>", "*.*", "*.*.>", "*.*.*", "*.*.*.*", "choria.>", "choria.*.>", "mcollective.>", "*.reply.>", "*.reply.*.>", "*.node.>", "*.node.*", "*.broadcast.>", "*.broadcast.agent.>", "mcollective.broadcast.agent.*", "mcollective.reply.>", "provisioning.>", "provisioning.broadcast.agent.>", "provisioning.broadcast.*.>", "$JS.>", "$SYS.>", "$KV.>", "*.governor.>"}

// exported are those of one account that another sees too
func exported(from, to, subject string) bool {
	if from != "provisioning" || to != "choria" {
		return false
	}
	return matches("choria.lifecycle.>", subject) || subject == "$KV.CHORIA_LEADER_ELECTION.provisioner" || subject == "choria.streams.STREAM.INFO.KV_CHORIA_LEADER_ELECTION"
}

// watchers sees everything in each account
type watchers struct{ of map[string]*peer }

func (s *setup) watch() (*watchers, error) {
	w := &watchers{of: map[string]*peer{}}
	add := func(account string, p *peer, err error, user, pass, token, sig string) error {
		if err != nil {
			return err
		}
		if !p.login(user, pass, token, sig) {
			return fmt.Errorf("%s watcher was refused", account)
		}
		p.write("SUB > 1\r\n")
		if err := p.sync(); err != nil {
			return err
		}
		w.of[account] = p
		return nil
	}
	clientSigner := "cs1"
	if s.issuers != nil {
		clientSigner = "issuer-choria"
	}
	admin := (&tok{Kind: "client", OU: "choria", Valid: "ok", Key: "k1", Signer: clientSigner, Name: "choria=watcher", Perms: []string{"org_admin", "provisioner"}}).build()
	if s.issuers != nil || len(s.clientSigners) > 0 {
		p, err := s.dial(nil)
		sig := ""
		if err == nil {
			sig = sign(vfake.NewEdKey("k1").Pri, p.nonce)
		}
		if err := add("choria", p, err, "", "", admin, sig); err != nil {
			return nil, err
		}
	} else {
		p, err := s.dial(certOf("good"))
		if err := add("choria", p, err, "", "", "", ""); err != nil {
			return nil, err
		}
	}
	cert := certOf("good")
	if s.provPass != "" && (s.issuers != nil || !s.noVerify) {
		p, err := s.dial(cert)
		t := ""
		if s.issuers != nil {
			t = admin
		}
		if err := add("provisioning", p, err, "provisioner", s.provPass, t, ""); err != nil {
			return nil, err
		}
	}
	if s.sysPass != "" {
		p, err := s.dial(cert)
		sig := ""
		if err == nil {
			sig = sign(vfake.NewEdKey("k1").Pri, p.nonce)
		}
		if err := add("system", p, err, s.sysUser, s.sysPass, admin, sig); err != nil {
			return nil, err
		}
	}
	return w, nil
}

func (w *watchers) close() {
	for _, p := range w.of {
		p.close()
	}
}

func (s *setup) sig(p *peer, a *attempt) string {
	if a.Tok == nil {
		return ""
	}
	key := a.Tok.Key
	if slices.Contains([]string{"missing", "short", "nothex", ""}, key) {
		key = "k1"
	}
	switch a.Sig {
	case "good":
		return sign(vfake.NewEdKey(key).Pri, p.nonce)
	case "other":
		return sign(vfake.NewEdKey("intruder").Pri, p.nonce)
	case "stale":
		return sign(vfake.NewEdKey(key).Pri, "AAAAAAAAAAAAAA")
	case "garbage":
		return "%%%"
	}
	return ""
}

var connID atomic.Int64

// try makes the connection and finds out what it may do
//
// With prev these credentials are presented first on the same connection.
func (s *setup) try(rec *verifkit.Rec, w *watchers, a *attempt, prev *attempt) error {
	refused, want := s.judge(a)
	id := fmt.Sprintf("%s: %s", s.name, a)
	if prev != nil {
		prev.Cert = a.Cert
		if no, _ := s.judge(prev); no {
			prev = nil
		}
	}
	var tokStr string
	if a.Tok != nil {
		tokStr = a.Tok.build()
	}
	var admitted bool
	p, err := s.dial(certOf(a.Cert))
	if err == nil {
		defer p.close()
		if prev != nil {
			id += fmt.Sprintf("\nafter %s", prev)
			t := ""
			if prev.Tok != nil {
				t = prev.Tok.build()
			}
			if !p.login(prev.User, prev.Pass, t, s.sig(p, prev)) {
				rec.Violation("refused", "%s: %s\nwas refused", s.name, prev)
				return nil
			}
			p.write("SUB > 0\r\nSUB mcollective.> 00\r\n")
			rec.Count("changed credentials", 1)
		}
		admitted = p.login(a.User, a.Pass, tokStr, s.sig(p, a))
	}
	if ne, ok := err.(net.Error); ok && ne.Timeout() {
		return err
	}
	if refused {
		rec.Case(true, "refused "+id)
		rec.Count("refused", 1)
		rec.Check(!admitted, "admitted", "%s\nwas admitted", id)
		return nil
	}
	if !rec.Check(admitted, "refused", "%s\nwas refused %v", id, err) {
		return nil
	}
	rec.Case(true, "admitted "+id)
	if want == nil {
		rec.Count("not specified", 1)
		return nil
	}
	rec.Count("role "+want.name, 1)
	p.denPub, p.denSub = map[string]bool{}, map[string]bool{}
	subs := subjects(a)
	slices.Sort(subs)
	subs = slices.Compact(subs)

	// all it can read
	var b strings.Builder
	for i, x := range subs {
		q := ""
		if i%5 == 0 {
			q = "group "
		}
		fmt.Fprintf(&b, "SUB %s %sL%d\r\n", x, q, i)
	}
	for i, x := range wildcards {
		fmt.Fprintf(&b, "SUB %s W%d\r\n", x, i)
	}
	granted := []string{}
	for i, x := range want.sub {
		if len(want.denySub) == 0 {
			granted = append(granted, x)
			fmt.Fprintf(&b, "SUB %s G%d\r\n", x, i)
		}
	}
	p.write(b.String())
	if err := p.sync(); err != nil {
		return fmt.Errorf("%s: subscribing: %w", id, err)
	}
	if len(p.other) > 0 {
		return fmt.Errorf("%s: %v", id, p.other)
	}
	for _, x := range subs {
		rec.Case(false, "")
		switch {
		case want.mayRead(x) && p.denSub[x]:
			rec.Violation("subscribe-denied", "%s\nas %s could not subscribe to %s", id, want.name, x)
		case !want.mayRead(x) && !p.denSub[x]:
			rec.Violation("subscribe-allowed", "%s\nas %s could subscribe to %s", id, want.name, x)
		}
	}
	for _, x := range granted {
		rec.Check(!p.denSub[x], "subscribe-denied", "%s\nas %s could not subscribe to %s", id, want.name, x)
	}
	mark := fmt.Sprintf("conn%d.", connID.Add(1)) // names end in a dot to be unique
	own := w.of[want.account]
	if own != nil {
		b.Reset()
		for _, x := range subs {
			if !strings.HasPrefix(x, "$") {
				body := "to " + mark + x
				fmt.Fprintf(&b, "PUB %s %d\r\n%s\r\n", x, len(body), body)
			}
		}
		own.write(b.String())
		if err := own.sync(); err != nil {
			return fmt.Errorf("%s: watcher: %w", id, err)
		}
		own.msgs = nil
		if err := p.sync(); err != nil {
			return fmt.Errorf("%s: receiving: %w", id, err)
		}
		got := map[string]bool{}
		for _, m := range p.msgs {
			x, ok := strings.CutPrefix(m.body, "to "+mark)
			if !ok {
				continue
			}
			got[x] = true
			if !want.mayRead(x) {
				rec.Violation("received", "%s\nas %s received a message to %s", id, want.name, x)
			}
		}
		for _, x := range subs {
			if !strings.HasPrefix(x, "$") && want.mayRead(x) && !strings.HasPrefix(x, "choria.streams.") {
				rec.Check(got[x], "not-received", "%s\nas %s did not receive a message to %s", id, want.name, x)
			}
		}
		rec.Count("messages received", len(got))
	}

	// all it can publish
	p.msgs = nil
	b.Reset()
	for i := range subs {
		fmt.Fprintf(&b, "UNSUB L%d\r\n", i)
	}
	for i := range wildcards {
		fmt.Fprintf(&b, "UNSUB W%d\r\n", i)
	}
	for i := range want.sub {
		fmt.Fprintf(&b, "UNSUB G%d\r\n", i)
	}
	for i, x := range subs {
		body := mark + x
		if i%7 == 3 {
			fmt.Fprintf(&b, "HPUB %s %d %d\r\nNATS/1.0\r\nX: y\r\n\r\n%s\r\n", x, 18, 18+len(body), body)
			continue
		}
		fmt.Fprintf(&b, "PUB %s %d\r\n%s\r\n", x, len(body), body)
	}
	p.write(b.String())
	if err := p.sync(); err != nil {
		return fmt.Errorf("%s: publishing: %w", id, err)
	}
	if len(p.other) > 0 {
		return fmt.Errorf("%s: %v", id, p.other)
	}
	for _, x := range subs {
		rec.Case(false, "")
		switch {
		case want.mayPub(x) && p.denPub[x]:
			rec.Violation("publish-denied", "%s\nas %s could not publish to %s", id, want.name, x)
		case !want.mayPub(x) && !p.denPub[x]:
			rec.Violation("publish-allowed", "%s\nas %s could publish to %s", id, want.name, x)
		}
	}
	for account, o := range w.of {
		if err := o.sync(); err != nil {
			return fmt.Errorf("%s: watcher: %w", id, err)
		}
		got := map[string]bool{}
		for _, m := range o.msgs {
			x, ok := strings.CutPrefix(m.body, mark)
			if !ok {
				continue
			}
			got[x] = true
			switch {
			case strings.HasPrefix(x, "$SYS."):
			case !want.mayPub(x):
				rec.Violation("published", "%s\nas %s published to %s", id, want.name, x)
			case account != want.account && !exported(want.account, account, x):
				rec.Violation("other-account", "%s\nas %s in account %s published to %s in account %s", id, want.name, want.account, x, account)
			}
		}
		o.msgs = nil
		for _, x := range subs {
			if account == want.account && want.mayPub(x) && !strings.HasPrefix(x, "$") && !strings.HasPrefix(x, "choria.streams.") {
				rec.Check(got[x], "not-published", "%s\nas %s published to %s but none saw it", id, want.name, x)
			}
		}
		rec.Count("messages published", len(got))
	}
	return nil
}

// TestC01Grants connects with all kinds of credentials and observes what the connections can do
func TestC01Grants(t *testing.T) {
	rec := verifkit.New(t, "C01", "connections are admitted only with credentials the settings allow, and can use exactly the subjects their role and permissions grant")
	grants(t, rec, "grants", false, verifkit.N(200, 3000))
}

// TestC01Again presents other credentials later, the last ones count. The broker library has data
// races of its own when this is done.
func TestC01Again(t *testing.T) {
	rec := verifkit.New(t, "C01", "credentials presented on an already admitted connection replace its grants or have it refused")
	rec.Require("changed credentials", 100)
	grants(t, rec, "again", true, verifkit.N(100, 2000))
}

func grants(t *testing.T, rec *verifkit.Rec, label string, again bool, per int) {
	rec.Require("refused", 100)
	if !again {
		for _, n := range []string{"server", "client", "provisionable", "provisioner", "system", "certificate", "pubsub", "denied", "not on allow list", "org admin"} {
			rec.Require("role "+n, 3)
		}
	}
	for _, s := range setups() {
		s.start(t)
		var wg sync.WaitGroup
		const workers = 4
		for i := range workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := verifkit.Rand(fmt.Sprintf("%s %s %d", label, s.name, i))
				w := &watchers{}
				if !s.plain {
					var err error
					if w, err = s.watch(); err != nil {
						rec.Violation("refused", "%s: %v", s.name, err)
						return
					}
				}
				defer w.close()
				for range per / workers {
					var prev *attempt
					if again {
						prev = s.gen(r)
					}
					a := s.gen(r)
					if err := s.try(rec, w, a, prev); err != nil {
						rec.Inconclusive("%v", err)
						return
					}
					// the same token again in another way
					if a.Tok == nil || prev != nil || r.Intn(3) > 0 {
						continue
					}
					b := *a
					switch r.Intn(6) {
					case 0:
						b.User, b.Pass = verifkit.Pick(r, []string{"provisioner", "system", "bob"}), verifkit.Pick(r, []string{"provsecret", "syssecret", ""})
					case 1:
						b.Cert = verifkit.Pick(r, []string{"good", "none"})
					default:
						b.Sig = verifkit.Pick(r, []string{"good", "other", "stale", "missing"})
					}
					rec.Count("tokens presented again", 1)
					if err := s.try(rec, w, &b, nil); err != nil {
						rec.Inconclusive("%v", err)
						return
					}
				}
			}()
		}
		wg.Wait()
	}
}

// TestC01Expiry presents tokens before and after they expire
func TestC01Expiry(t *testing.T) {
	rec := verifkit.New(t, "C01", "tokens that were good are refused once they expired, others stay good")
	rec.Require("expired", 5)
	type held struct {
		s *setup
		a *attempt
	}
	var all []held
	id := 0
	for _, s := range setups() {
		if s.plain || (s.issuers == nil && len(s.clientSigners) == 0) {
			continue
		}
		s.start(t)
		signer := map[string]string{"client": "cs1", "server": "ss1"}
		if s.issuers != nil {
			signer = map[string]string{"client": "issuer-choria", "server": "issuer-choria", "provision": "issuer-choria"}
		} else if s.provSigner != "" {
			signer["provision"] = "rsa:" + s.provSigner
		}
		for _, kind := range []string{"client", "server", "provision"} {
			for _, valid := range []string{"ok", "soon"} {
				if signer[kind] == "" {
					continue
				}
				id++
				a := &attempt{Cert: "none", Sig: "good", Tok: &tok{Kind: kind, OU: "choria", Valid: "ok", Key: "k1", Signer: signer[kind], Name: fmt.Sprintf("choria=holder%d", id), Perms: []string{"fleet", "provisioner", "system_user"}, Colls: collectives[:1]}}
				if kind == "server" {
					a.Tok.Name = fmt.Sprintf("holder%d", id)
				}
				all = append(all, held{s, a})
				if kind == "client" && s.provPass != "" && s.issuers != nil {
					b := *a
					b.User, b.Pass = "provisioner", s.provPass
					all = append(all, held{s, &b})
				}
				if kind == "client" && s.sysPass != "" {
					b := *a
					b.User, b.Pass = s.sysUser, s.sysPass
					all = append(all, held{s, &b})
				}
				if valid == "soon" {
					a.Tok.Valid = "soon"
				}
			}
		}
	}
	connect := func(h held) bool {
		p, err := h.s.dial(nil)
		if err != nil {
			return false
		}
		defer p.close()
		return p.login(h.a.User, h.a.Pass, h.a.Tok.build(), h.s.sig(p, h.a))
	}
	var soon time.Time
	admitted := map[int]bool{}
	for i, h := range all {
		h.a.Tok.build()
		if h.a.Tok.Valid == "soon" {
			soon = builtExpiry(h.a.Tok)
		}
		ok := connect(h)
		asOK := *h.a
		tk := *h.a.Tok
		tk.Valid = "ok"
		asOK.Tok = &tk
		if refused, _ := h.s.judge(&asOK); refused {
			rec.Check(!ok, "admitted", "%s: %s was admitted", h.s.name, h.a)
			continue
		}
		if !ok && h.a.Tok.Valid == "soon" && !time.Now().Before(soon.Add(-time.Second)) {
			continue // too slow
		}
		admitted[i] = rec.Check(ok, "refused", "%s: %s was refused while in force", h.s.name, h.a)
	}
	for time.Now().Before(soon.Add(2 * time.Second)) {
		time.Sleep(50 * time.Millisecond)
	}
	for i, h := range all {
		if !admitted[i] {
			continue
		}
		ok := connect(h)
		rec.Case(true, fmt.Sprintf("%s: %s", h.s.name, h.a))
		if h.a.Tok.Valid == "soon" {
			rec.Count("expired", 1)
			rec.Check(!ok, "admitted", "%s: %s was admitted after it expired, it was admitted before", h.s.name, h.a)
		} else {
			rec.Check(ok, "refused", "%s: %s was refused later", h.s.name, h.a)
		}
	}
}
