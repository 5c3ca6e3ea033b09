package broker

import (
	"cmp"
	"bytes"
	"crypto/md5"
	"crypto/sha256"
	"fmt"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/tokens"
	"github.com/golang-jwt/jwt/v5"
)

// tok describes a token
type tok struct {
	Kind   string // client, server, provision, other, garbage
	Signer string // name of a key, rsa:name, chain:name, forged:name, none, hmac:name, altered:name
	Valid  string // ok, expired, future
	OU     string // empty when missing
	Name   string // caller or identity, empty when missing
	Key    string // name of a key, or missing, short, nothex
	Perms  []string
	NoPerm bool // not even an empty set of permissions
	Colls  []string
	Pub    []string
	Sub    []string
}

var builtMu sync.Mutex
var built = map[string]string{}

func (k *tok) build() string {
	builtMu.Lock()
	defer builtMu.Unlock()
	id := fmt.Sprintf("%+v", *k)
	if s, ok := built[id]; ok {
		return s
	}
	s := k.make()
	built[id] = s
	return s
}

var expiry = sync.OnceValue(func() time.Time { return time.Now().Add(8 * time.Second).Truncate(time.Second) })

// builtExpiry is when tokens that expire soon do
func builtExpiry(*tok) time.Time { return expiry() }

func (k *tok) has(p string) bool { return !k.NoPerm && slices.Contains(k.Perms, p) }

var clientPerms = []string{"streams_admin", "streams_user", "events_viewer", "election_user", "system_user", "governor", "org_admin", "fleet", "signed_fleet", "service", "delegator", "provisioner"}
var serverPerms = []string{"submission", "streams", "governor", "service_host"}

func (k *tok) make() string {
	if k.Kind == "garbage" {
		return cmp.Or(k.Name, "x") // an empty one is no token
	}
	how, who, found := strings.Cut(k.Signer, ":")
	if !found {
		how, who = "key", how
	}
	var pri any
	switch how {
	case "rsa":
		pri = rsaSigner(who).Key
	case "none":
	default:
		pri = vfake.NewEdKey(who).Pri
	}
	std := func(c *tokens.StandardClaims) {
		switch k.Key {
		case "missing":
			c.PublicKey = ""
		case "short":
			c.PublicKey = "abcd"
		case "nothex":
			c.PublicKey = "zz"
		default:
			c.PublicKey = vfake.NewEdKey(k.Key).Hex()
		}
		if how == "chain" || how == "forged" {
			org := vfake.NewEdKey(who)
			login := vfake.NewEdKey("login-" + who)
			ci, err := tokens.NewClientIDClaims("choria=login", nil, "choria", nil, "", "", time.Hour, &tokens.ClientPermissions{AuthenticationDelegator: true}, login.Pub)
			must(err)
			must(ci.AddOrgIssuerData(org.Pri))
			signer := login.Pri
			if how == "forged" {
				signer = vfake.NewEdKey("forger").Pri
			}
			must(c.AddChainIssuerData(ci, signer))
			pri = login.Pri
		}
		switch k.Valid {
		case "soon":
			c.ExpiresAt = jwt.NewNumericDate(builtExpiry(k))
		case "expired":
			c.ExpiresAt = jwt.NewNumericDate(time.Now().Add(-time.Minute))
		case "future":
			c.NotBefore = jwt.NewNumericDate(time.Now().Add(time.Hour))
		}
	}
	var claims jwt.Claims
	x := vfake.NewEdKey("x").Pub
	switch k.Kind {
	case "client", "other":
		c, err := tokens.NewClientIDClaims("x", nil, "x", nil, "", "", time.Hour, nil, x)
		must(err)
		c.CallerID, c.OrganizationUnit = k.Name, k.OU
		c.AdditionalPublishSubjects, c.AdditionalSubscribeSubjects = k.Pub, k.Sub
		if !k.NoPerm {
			c.Permissions = &tokens.ClientPermissions{StreamsAdmin: k.has("streams_admin"), StreamsUser: k.has("streams_user"), EventsViewer: k.has("events_viewer"),
				ElectionUser: k.has("election_user"), SystemUser: k.has("system_user"), Governor: k.has("governor"), OrgAdmin: k.has("org_admin"), FleetManagement: k.has("fleet"),
				SignedFleetManagement: k.has("signed_fleet"), ExtendedServiceLifetime: k.has("service"), AuthenticationDelegator: k.has("delegator"), ServerProvisioner: k.has("provisioner")}
		}
		std(&c.StandardClaims)
		if k.Kind == "other" {
			c.Purpose = tokens.UnknownPurpose
		}
		claims = c
	case "server":
		c, err := tokens.NewServerClaims("x", []string{"x"}, "x", nil, nil, x, "", time.Hour)
		must(err)
		c.ChoriaIdentity, c.OrganizationUnit, c.Collectives = k.Name, k.OU, k.Colls
		c.AdditionalPublishSubjects = k.Pub
		if !k.NoPerm {
			c.Permissions = &tokens.ServerPermissions{Submission: k.has("submission"), Streams: k.has("streams"), Governor: k.has("governor"), ServiceHost: k.has("service_host")}
		}
		std(&c.StandardClaims)
		claims = c
	case "provision":
		c, err := tokens.NewProvisioningClaims(true, true, "x", "", "", []string{"nats://x:1"}, "", "", "", "x", "", time.Hour)
		must(err)
		c.OrganizationUnit = k.OU
		std(&c.StandardClaims)
		claims = c
	}
	switch how {
	case "none":
		s, err := jwt.NewWithClaims(jwt.SigningMethodNone, claims).SignedString(jwt.UnsafeAllowNoneSignatureType)
		must(err)
		return s
	case "hmac":
		s, err := jwt.NewWithClaims(jwt.SigningMethodHS256, claims).SignedString([]byte(vfake.NewEdKey(who).Pub))
		must(err)
		return s
	}
	s, err := tokens.SignToken(claims, pri)
	must(err)
	if how == "altered" { // claims of one token with the signature of another
		c, err := tokens.NewClientIDClaims("choria=x", nil, "choria", nil, "", "", time.Hour, nil, nil)
		must(err)
		o, err := tokens.SignToken(c, pri)
		must(err)
		a, b := bytes.LastIndexByte([]byte(s), '.'), bytes.LastIndexByte([]byte(o), '.')
		return s[:a] + o[b:]
	}
	return s
}

// attempt is a connection someone makes
type attempt struct {
	Cert string // none, good, otherca, expired, serveronly, self
	User string
	Pass string
	Tok  *tok
	Sig  string // good, other, stale, missing, garbage
}

func (a *attempt) String() string {
	t := "-"
	if a.Tok != nil {
		t = fmt.Sprintf("%+v", *a.Tok)
	}
	return fmt.Sprintf("cert %s user %q pass %q sig %s token %s", a.Cert, a.User, a.Pass, a.Sig, t)
}

// role is what an admitted connection may do
type role struct {
	name             string
	account          string
	pub, sub         []string
	denyPub, denySub []string
}

func matches(pattern, subject string) bool {
	p, s := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i, t := range p {
		if t == ">" {
			return len(s) > i
		}
		if i >= len(s) || (t != "*" && t != s[i]) {
			return false
		}
	}
	return len(p) == len(s)
}

func anyMatch(patterns []string, subject string) bool {
	return slices.ContainsFunc(patterns, func(p string) bool { return matches(p, subject) })
}

func (r *role) mayPub(s string) bool  { return anyMatch(r.pub, s) && !anyMatch(r.denyPub, s) }
func (r *role) mayRead(s string) bool { return anyMatch(r.sub, s) && !anyMatch(r.denySub, s) }

var everything = []string{">"}

// trusted is true when the token was issued by someone the broker trusts for its kind and is in force
func (s *setup) trusted(k *tok) bool {
	if k == nil || k.Valid != "ok" || k.Kind == "garbage" || k.Kind == "other" {
		return false
	}
	by := k.Signer
	if k.Kind == "client" && k.Key != "missing" { // the chain vouches for the key
		by = strings.TrimPrefix(by, "chain:")
	}
	switch {
	case k.Kind == "provision" && s.provPass == "":
		return false
	case k.Kind == "provision" && strings.HasPrefix(by, "rsa:"):
		return s.provSigner != "" && by == "rsa:"+s.provSigner
	case s.issuers != nil:
		return k.OU != "" && s.issuers[k.OU] == by
	case k.Kind == "client":
		return slices.Contains(s.clientSigners, by)
	case k.Kind == "server":
		return slices.Contains(s.serverSigners, by)
	}
	return false
}

// proven is true when the token is trusted, complete and held by who presents it
func (s *setup) proven(a *attempt) bool {
	return s.trusted(a.Tok) && a.Tok.Name != "" && !slices.Contains([]string{"missing", "short", "nothex"}, a.Tok.Key) && a.Sig == "good"
}

// judge is what the broker should do with the attempt. refused is true when it must not be
// admitted, role is nil when what an admitted connection may do is not specified
func (s *setup) judge(a *attempt) (refused bool, r *role) {
	if s.plain {
		return true, nil
	}
	asks := !s.noVerify && (s.issuers == nil || s.issuerCA) // certificates are considered
	verified := asks && a.Cert == "good"
	if asks && a.Cert != "good" && a.Cert != "none" {
		return true, nil
	}
	switch {
	case a.User == "provisioner":
		ok := s.provPass != "" && a.Pass == s.provPass
		switch {
		case s.issuers == nil:
			ok = ok && verified
		case a.Tok == nil:
			ok = ok && s.provNoToken
		default:
			ok = ok && a.Tok.Kind == "client" && s.trusted(a.Tok) && a.Tok.has("provisioner")
		}
		return !ok, &role{name: "provisioner", account: "provisioning", pub: everything, sub: everything}

	case s.sysUser != "" && a.User == s.sysUser:
		ok := s.sysPass != "" && a.Pass == s.sysPass
		if !verified {
			ok = ok && a.Tok != nil && a.Tok.Kind == "client" && s.proven(a) && (a.Tok.has("system_user") || a.Tok.has("org_admin"))
		}
		return !ok, &role{name: "system", account: "system", pub: everything, sub: everything}
	}

	k := a.Tok
	switch {
	case k == nil && !verified:
		return true, nil
	case k == nil && len(s.allow) > 0 && slices.Contains(s.allow, "127.0.0.1/32"):
		return false, nil // not specified what those on the list may do
	case k == nil && len(s.allow) > 0 && s.deny:
		return false, &role{name: "denied", account: "choria"}
	case k == nil && len(s.allow) > 0:
		return false, &role{name: "not on allow list", account: "choria", pub: everything, denyPub: []string{"*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation"},
			sub: everything, denySub: []string{"*.reply.>", "choria.federation.>", "choria.lifecycle.>"}}
	case k == nil && s.issuers != nil:
		d := []string{"*.broadcast.>", "*.node.>", "*.reply.>", "choria.federation.>", "choria.lifecycle.>", "choria.machine.>"}
		return false, &role{name: "pubsub", account: "choria", pub: everything, denyPub: d, sub: everything, denySub: d}
	case k == nil:
		return false, &role{name: "certificate", account: "choria", pub: everything, sub: everything}
	case k.Kind == "client" && s.proven(a):
		return false, clientRole(k)
	case k.Kind == "server" && s.proven(a):
		if s.deny {
			return false, &role{name: "denied", account: "choria"}
		}
		return false, serverRole(k)
	case k.Kind == "provision" && !verified && s.trusted(k):
		return false, &role{name: "provisionable", account: "provisioning",
			sub: []string{"provisioning.node.>", "provisioning.broadcast.agent.discovery", "provisioning.broadcast.agent.rpcutil", "provisioning.broadcast.agent.choria_util", "provisioning.broadcast.agent.choria_provision"},
			pub: []string{"choria.lifecycle.>", "provisioning.reply.>", "provisioning.registration.>"}}
	}
	return true, nil
}

func inboxes(name string) (string, string) {
	return fmt.Sprintf("%x", md5.Sum([]byte(name))), fmt.Sprintf("%x", sha256.Sum256([]byte(name)))
}

func clientRole(k *tok) *role {
	r := &role{name: "client", account: "choria"}
	if k.has("org_admin") {
		r.name, r.pub, r.sub = "org admin", everything, everything
		return r
	}
	pub := func(when bool, s ...string) {
		if when {
			r.pub = append(r.pub, s...)
		}
	}
	sub := func(when bool, s ...string) {
		if when {
			r.sub = append(r.sub, s...)
		}
	}
	m, h := inboxes(k.Name)
	sub(true, "*.reply."+m+".>", "*.reply."+h+".>")
	sub(true, k.Sub...)
	sub(k.has("streams_admin"), "$JS.EVENT.>")
	sub(k.has("streams_user") && k.OU != "", k.OU+".republish.>")
	sub(k.has("events_viewer"), "choria.lifecycle.event.>", "choria.machine.watcher.>", "choria.machine.transition")

	pub(true, "$SYS.REQ.USER.INFO")
	pub(true, k.Pub...)
	pub(k.has("streams_admin"), "$JS.>")
	pub(k.has("streams_user"), "$JS.ACK.>", "$JS.FC.>", "$KV.>", "$O.>")
	for _, api := range []string{"INFO", "STREAM.NAMES", "STREAM.LIST", "STREAM.INFO.*", "STREAM.MSG.GET.*", "STREAM.MSG.DELETE.*", "DIRECT.GET.*", "DIRECT.GET.*.>", "CONSUMER.CREATE.*", "CONSUMER.CREATE.*.>",
		"CONSUMER.DURABLE.CREATE.*.*", "CONSUMER.DELETE.*.*", "CONSUMER.NAMES.*", "CONSUMER.LIST.*", "CONSUMER.INFO.*.*", "CONSUMER.MSG.NEXT.*.*"} {
		pub(k.has("streams_user"), "$JS.API."+api)
	}
	pub(k.has("election_user"), "$JS.API.STREAM.INFO.KV_CHORIA_LEADER_ELECTION", "$KV.CHORIA_LEADER_ELECTION.>")
	pub(k.has("governor") && (k.has("streams_user") || k.has("streams_admin")), "*.governor.*", "choria.lifecycle.event.governor.>")
	pub(k.has("fleet") || k.has("signed_fleet"), "*.broadcast.agent.>", "*.broadcast.service.>", "*.node.>", "choria.federation.*.federation")
	return r
}

func serverRole(k *tok) *role {
	r := &role{name: "server", account: "choria"}
	if len(k.Colls) == 0 {
		r.name = "server without collectives"
		return r
	}
	m, h := inboxes(k.Name)
	r.pub = append([]string{"choria.lifecycle.>", "choria.machine.transition", "choria.machine.watcher.>"}, k.Pub...)
	for _, c := range k.Colls {
		r.pub = append(r.pub, c+".reply.>", c+".broadcast.agent.registration", "choria.federation."+c+".collective")
		r.sub = append(r.sub, c+".broadcast.agent.>", c+".node."+k.Name, c+".reply."+m+".>", c+".reply."+h+".>")
		if k.has("service_host") {
			r.sub = append(r.sub, c+".broadcast.service.>")
		}
		if k.has("submission") {
			r.pub = append(r.pub, c+".submission.in.>")
		}
		if k.has("governor") && k.has("streams") {
			r.pub = append(r.pub, c+".governor.*")
		}
	}
	if k.has("streams") {
		api := "choria.streams"
		if k.OU == "choria" {
			api = "$JS.API"
		}
		if k.OU != "" {
			r.sub = append(r.sub, k.OU+".republish.>")
		}
		r.pub = append(r.pub, "$JS.ACK.>", "$JS.FC.>")
		for _, a := range []string{"STREAM.INFO.*", "STREAM.MSG.GET.*", "STREAM.MSG.DELETE.*", "DIRECT.GET.*", "DIRECT.GET.*.>", "CONSUMER.CREATE.*", "CONSUMER.CREATE.*.>", "CONSUMER.DURABLE.CREATE.*.*", "CONSUMER.INFO.*.*", "CONSUMER.MSG.NEXT.*.*"} {
			r.pub = append(r.pub, api+"."+a)
		}
	}
	return r
}
