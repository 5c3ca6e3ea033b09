package wire

import (
	"bytes"
	"crypto"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"regexp"
	"testing"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/inter"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	choriasec "github.com/choria-io/go-choria/providers/security/choria"
	"github.com/choria-io/go-choria/providers/security/filesec"
	"github.com/choria-io/tokens"
	"github.com/golang-jwt/jwt/v5"
)

// tok describes a token
type tok struct {
	Kind   string // client, server, provision, garbage, none
	Signer string // A, B, U, none (unsigned), chainA, chainU, chainForged, altered
	Valid  string // ok, expired, future
	OU     string // choria, other, unknown, missing
	Caller string
	Perms  string // combination of F S D, "-" for an empty set, "" for none
	Key    string // name of the key, or missing, short, nothex
}

// tcase describes a request
type tcase struct {
	Mode      string // AB: both trusted, A: one trusted, issuers: choria by A and other by B
	Caller    tok
	Delegate  tok
	ReqCaller string
	SigKey    string // key that made the signature, or empty, other
	Alter     bool   // bytes changed after signing
}

func (k tok) perms() *tokens.ClientPermissions {
	if k.Perms == "" {
		return nil
	}
	p := &tokens.ClientPermissions{}
	for _, c := range k.Perms {
		switch c {
		case 'F':
			p.FleetManagement = true
		case 'S':
			p.SignedFleetManagement = true
		case 'D':
			p.AuthenticationDelegator = true
		case 'O':
			p.OrgAdmin = true
		}
	}
	return p
}

var builtTokens = map[tok]string{}

func (k tok) build() string {
	if s, ok := builtTokens[k]; ok {
		return s
	}
	s := k.make()
	builtTokens[k] = s
	return s
}

func (k tok) make() string {
	switch k.Kind {
	case "none":
		return ""
	case "garbage":
		return "x.y.z"
	}
	issuer := vfake.NewEdKey("issuer-" + k.Signer)
	std := func(c *tokens.StandardClaims) {
		switch k.Key {
		case "missing":
			c.PublicKey = ""
		case "short":
			c.PublicKey = "abcd"
		case "nothex":
			c.PublicKey = "zz"
		default:
			c.PublicKey = vfake.NewEdKey(k.Key).Hex()
		}
		switch k.Valid {
		case "expired":
			c.ExpiresAt = jwt.NewNumericDate(time.Now().Add(-time.Minute))
		case "future":
			c.NotBefore = jwt.NewNumericDate(time.Now().Add(time.Hour))
		case "soon":
			c.ExpiresAt = jwt.NewNumericDate(soon)
		}
		switch k.Signer {
		case "chainA", "chainU", "chainForged":
			org := vfake.NewEdKey("issuer-A")
			if k.Signer == "chainU" {
				org = vfake.NewEdKey("issuer-U")
			}
			login := vfake.NewEdKey("login-" + k.Signer)
			ci, err := tokens.NewClientIDClaims("choria=login", nil, "choria", nil, "", "", time.Hour, &tokens.ClientPermissions{AuthenticationDelegator: true}, login.Pub)
			must(err)
			must(ci.AddOrgIssuerData(org.Pri))
			signer := login.Pri
			if k.Signer == "chainForged" {
				signer = vfake.NewEdKey("forger").Pri
			}
			exp := c.ExpiresAt
			must(c.AddChainIssuerData(ci, signer))
			if k.Valid == "expired" || k.Valid == "soon" {
				c.ExpiresAt = exp
			}
			issuer = login
		}
	}
	ou := map[string]string{"choria": "choria", "other": "other", "unknown": "unknown", "missing": ""}[k.OU]
	var claims jwt.Claims
	switch k.Kind {
	case "client":
		c, err := tokens.NewClientIDClaims(k.Caller, nil, "x", nil, "", "", time.Hour, k.perms(), vfake.NewEdKey("x").Pub)
		must(err)
		c.OrganizationUnit = ou
		std(&c.StandardClaims)
		claims = c
	case "server":
		c, err := tokens.NewServerClaims("srv.example.net", []string{"mcollective"}, "x", nil, nil, vfake.NewEdKey("x").Pub, "", time.Hour)
		must(err)
		c.OrganizationUnit = ou
		std(&c.StandardClaims)
		claims = c
	case "provision":
		c, err := tokens.NewProvisioningClaims(true, true, "x", "", "", []string{"nats://x:1"}, "", "", "", "x", "", time.Hour)
		must(err)
		c.OrganizationUnit = ou
		std(&c.StandardClaims)
		claims = c
	case "clientAsUnknown": // all a client has but without saying it is one
		c, err := tokens.NewClientIDClaims(k.Caller, nil, "x", nil, "", "", time.Hour, k.perms(), vfake.NewEdKey("x").Pub)
		must(err)
		c.OrganizationUnit = ou
		std(&c.StandardClaims)
		c.Purpose = tokens.UnknownPurpose
		claims = c
	}
	if k.Signer == "none" {
		t := jwt.NewWithClaims(jwt.SigningMethodNone, claims)
		s, err := t.SignedString(jwt.UnsafeAllowNoneSignatureType)
		must(err)
		return s
	}
	if k.Signer == "hmac" { // symmetric using the public key as secret
		t := jwt.NewWithClaims(jwt.SigningMethodHS256, claims)
		s, err := t.SignedString([]byte(vfake.NewEdKey("issuer-A").Pub))
		must(err)
		return s
	}
	if k.Signer == "altered" {
		issuer = vfake.NewEdKey("issuer-A")
	}
	s, err := tokens.SignToken(claims, issuer.Pri)
	must(err)
	if k.Signer == "altered" { // claims of one token with the signature of another
		c, err := tokens.NewClientIDClaims("choria=x", nil, "choria", nil, "", "", time.Hour, nil, nil)
		must(err)
		o, err := tokens.SignToken(c, issuer.Pri)
		must(err)
		a, b := bytes.LastIndexByte([]byte(s), '.'), bytes.LastIndexByte([]byte(o), '.')
		return s[:a] + o[b:]
	}
	return s
}

// trust is the issuer that vouches for the token in the mode, empty when none does
func (k tok) trust(mode string) string {
	by := k.Signer
	if by == "chainA" {
		by = "A"
		if k.Kind != "client" {
			return "" // servers may not come from chains of login services, provisioning does not know chains
		}
	}
	if by != "A" && by != "B" {
		return ""
	}
	if k.Valid != "ok" {
		return ""
	}
	switch mode {
	case "AB":
		return by
	case "A":
		if by == "A" {
			return by
		}
	case "issuers":
		if (k.OU == "choria" && by == "A") || (k.OU == "other" && by == "B") {
			return by
		}
	}
	return ""
}

func (k tok) has(p byte) bool { return bytes.IndexByte([]byte(k.Perms), p) >= 0 }

func (k tok) key() string {
	switch k.Key {
	case "missing", "short", "nothex":
		return ""
	}
	return k.Key
}

// accepted is what the documentation demands
func (c tcase) accepted() bool {
	if c.Alter || c.SigKey == "" || c.Caller.Kind != "client" {
		return false
	}
	if c.Delegate.Kind == "none" {
		return c.Caller.trust(c.Mode) != "" && c.Caller.has('F') && !c.Caller.has('S') && c.Caller.key() == c.SigKey && c.ReqCaller == c.Caller.Caller
	}
	if c.Delegate.Kind != "client" || !c.Delegate.has('D') {
		return false
	}
	by := c.Delegate.trust(c.Mode)
	if by == "" || c.Delegate.key() != c.SigKey {
		return false
	}
	// the caller must be vouched for by the same issuer
	sameIssuer := c.Caller.Valid == "ok" && (c.Caller.Signer == by || (c.Caller.Signer == "chain"+by && c.Caller.Key != "missing"))
	return sameIssuer && (c.Caller.has('F') || c.Caller.has('S'))
}

var trustEnds = map[string]*end{}

func trustEnd(mode string) *end {
	if e, ok := trustEnds[mode]; ok {
		return e
	}
	a, b := vfake.NewEdKey("issuer-A"), vfake.NewEdKey("issuer-B")
	e := newEnd(2, "trust."+mode, func(cfg *config.Config) {
		cfg.InitiatedByServer = true
		switch mode {
		case "AB":
			cfg.Choria.ChoriaSecurityTrustedSigners = []string{b.Hex(), a.Hex()}
		case "A":
			cfg.Choria.ChoriaSecurityTrustedSigners = []string{a.Hex()}
		case "issuers":
			cfg.Choria.ChoriaSecurityTrustedSigners = nil
			cfg.Choria.IssuerNames = []string{"choria", "other"}
			cfg.SetOption("plugin.security.issuer.choria.public", a.Hex())
			cfg.SetOption("plugin.security.issuer.other.public", b.Hex())
		}
	})
	trustEnds[mode] = e
	return e
}

func (c tcase) wire(r *mrand.Rand) []byte {
	e := trustEnd(c.Mode)
	q, err := e.fw.NewRequest(protocol.RequestV2, "rpcutil", "client", c.ReqCaller, 60, hexid(r), "mcollective")
	must(err)
	q.SetMessage([]byte("body"))
	j, err := q.JSON()
	must(err)
	var sig []byte
	if c.SigKey != "" {
		sig = ed25519.Sign(vfake.NewEdKey(c.SigKey).Pri, j)
	}
	if c.Alter {
		j = bytes.Replace(j, []byte("rpcutil"), []byte("rpcutiI"), 1)
	}
	s := map[string]any{"protocol": string(protocol.SecureRequestV2), "request": j, "signature": sig, "caller": c.Caller.build()}
	if c.Delegate.Kind != "none" {
		s["signer"] = c.Delegate.build()
	}
	return rewrap(2, s)
}

// TestC02Tokens presents requests with all kinds of tokens and signatures
func TestC02Tokens(t *testing.T) {
	rec := verifkit.New(t, "C02", "a request is accepted exactly when a trusted, valid token names its caller and grants fleet access and its signature, or that of a trusted delegator, covers the bytes")
	rng := verifkit.Rand("c02tokens")

	own := tok{"client", "A", "ok", "choria", "choria=up", "F", "caller"}
	dele := tok{"client", "A", "ok", "choria", "choria=aaa", "D", "aaa"}
	none := tok{Kind: "none"}
	var bases []tcase
	for _, m := range []string{"AB", "A", "issuers"} {
		bases = append(bases, tcase{m, own, none, "choria=up", "caller", false}, tcase{m, own, dele, "okta=bob@example.net", "aaa", false})
		c := own
		c.Signer = "chainA"
		d := dele
		d.Signer = "chainA"
		s := own
		s.Perms = "S"
		bases = append(bases, tcase{m, c, none, "choria=up", "caller", false}, tcase{m, s, d, "choria=up", "aaa", false})
	}
	b := own
	b.Signer = "B"
	bases = append(bases, tcase{"AB", b, none, "choria=up", "caller", false})
	b.OU = "other"
	bases = append(bases, tcase{"issuers", b, none, "choria=up", "caller", false})

	kinds := []string{"client", "server", "provision", "garbage", "clientAsUnknown"}
	signers := []string{"A", "B", "U", "none", "hmac", "chainA", "chainU", "chainForged", "altered"}
	valids := []string{"ok", "expired", "future"}
	ous := []string{"choria", "other", "unknown", "missing"}
	perms := []string{"F", "S", "FS", "D", "FD", "SD", "", "-", "O", "FSDO"}
	keys := []string{"caller", "aaa", "mallory", "missing", "short", "nothex"}
	callers := []string{"choria=up", "choria=upper", "choria=u", "puppet=up", "up"}

	seen := map[string]bool{}
	run := func(c tcase) {
		k := fmt.Sprintf("%+v", c)
		if seen[k] {
			return
		}
		seen[k] = true
		w := c.wire(rng)
		want := c.accepted()
		rec.Case(true, k)
		var err error
		rec.NoPanic("panic", c, func() {
			_, err = trustEnd(c.Mode).fw.NewRequestFromTransportJSON(w, false)
		})
		if want {
			rec.Count("acceptable", 1)
			rec.Check(err == nil, "refused", "request %+v is acceptable but was refused: %v", c, err)
		} else {
			rec.Count("unacceptable", 1)
			rec.Check(err != nil, "accepted", "request %+v was accepted", c)
		}
	}
	deviate := func(c tcase, f func(tcase)) {
		for _, which := range []int{0, 1} {
			with := func(g func(k *tok)) {
				n := c
				if which == 0 {
					g(&n.Caller)
				} else {
					if n.Delegate.Kind == "none" {
						n.Delegate = dele
					}
					g(&n.Delegate)
				}
				f(n)
			}
			for _, x := range kinds {
				with(func(k *tok) { k.Kind = x })
			}
			for _, x := range signers {
				with(func(k *tok) { k.Signer = x })
			}
			for _, x := range valids {
				with(func(k *tok) { k.Valid = x })
			}
			for _, x := range ous {
				with(func(k *tok) { k.OU = x })
			}
			for _, x := range perms {
				with(func(k *tok) { k.Perms = x })
			}
			for _, x := range keys {
				with(func(k *tok) { k.Key = x })
			}
			for _, x := range callers {
				with(func(k *tok) { k.Caller = x })
			}
		}
		for _, x := range callers {
			n := c
			n.ReqCaller = x
			f(n)
		}
		for _, x := range []string{"caller", "aaa", "mallory", ""} {
			n := c
			n.SigKey = x
			f(n)
		}
		n := c
		n.Alter = true
		f(n)
		n = c
		n.Delegate = none
		f(n)
		n.Delegate = dele
		f(n)
	}
	for _, c := range bases {
		if !c.accepted() {
			panic(fmt.Sprintf("base %+v", c))
		}
		run(c)
		deviate(c, run)
	}
	// pairs of deviations
	for i := 0; i < verifkit.N(40, 800); i++ {
		c := verifkit.Pick(rng, bases)
		deviate(c, func(n tcase) {
			if rng.Intn(12) == 0 {
				k := 0
				deviate(n, func(n2 tcase) {
					k++
					if rng.Intn(20) == 0 {
						run(n2)
					}
				})
			}
		})
	}
	rec.Require("acceptable", 40)
	rec.Require("unacceptable", 400)

	// signatures checked by the provider directly, also those of servers
	for _, mode := range []string{"AB", "A", "issuers"} {
		prov := providerOf(trustEnd(mode))
		for _, kind := range []string{"client", "server", "provision", "garbage", "none"} {
			for _, signer := range signers {
				for _, valid := range valids {
					for _, ou := range []string{"choria", "other", "missing"} {
						for _, key := range keys {
							for _, perm := range []string{"F", "FS", ""} {
								if kind == "server" && signer == "chainA" {
									continue // not specified
								}
								if (kind != "client" && perm != "F") || (valid != "ok" && key != "caller") || (perm != "F" && key != "caller") {
									continue
								}
								k := tok{kind, signer, valid, ou, "choria=up", perm, key}
								if kind == "none" {
									k = none
								}
								by := k.key()
								want := k.trust(mode) != "" && by != "" && (kind == "server" || (kind == "client" && k.has('F') && !k.has('S')))
								if by == "" {
									by = "caller"
								}
								data := []byte("some bytes " + hexid(rng))
								sig := ed25519.Sign(vfake.NewEdKey(by).Pri, data)
								other := ed25519.Sign(vfake.NewEdKey("bystander").Pri, data)
								rec.Case(true, fmt.Sprintf("bytes %s %+v", mode, k))
								rec.NoPanic("provider-panic", k, func() {
									ok, name := prov.VerifySignatureBytes(data, sig, []byte(k.build()))
									if want {
										rec.Count("good signatures", 1)
										owner := "choria=up"
										if kind == "server" {
											owner = "srv.example.net"
										}
										rec.Check(ok && name == owner, "bytes-refused", "%s: signature by the holder of %+v gave %v %q", mode, k, ok, name)
									} else {
										rec.Check(!ok, "bytes-accepted", "%s: signature by the holder of %+v was accepted as made by %q", mode, k, name)
									}
									for i, bad := range [][]byte{other, sig[:63], append(bytes.Clone(sig), 0), nil} {
										ok, _ = prov.VerifySignatureBytes(data, bad, []byte(k.build()))
										rec.Check(!ok, "bytes-accepted", "%s: bad signature %d for %+v was accepted", mode, i, k)
									}
									ok, _ = prov.VerifySignatureBytes(append(bytes.Clone(data), 'x'), sig, []byte(k.build()))
									rec.Check(!ok, "bytes-accepted", "%s: signature by the holder of %+v was accepted for other bytes", mode, k)
								})
							}
						}
					}
				}
			}
		}
	}
	rec.Require("good signatures", 8)

	// the pieces of a provider asked directly, also out of the usual order
	for _, k := range []tok{own, {"client", "A", "ok", "choria", "choria=up", "", "caller"}, {"client", "U", "ok", "choria", "choria=up", "", "caller"}, {"server", "A", "ok", "choria", "", "", "caller"}, {Kind: "garbage"}, none} {
		for _, d := range []tok{none, dele, {"client", "A", "ok", "choria", "choria=aaa", "", "aaa"}, {Kind: "garbage"}} {
			pub := [][]byte{[]byte(k.build())}
			if d.Kind != "none" {
				pub = append(pub, []byte(d.build()))
			}
			rec.Case(true, fmt.Sprintf("direct %+v %+v", k, d))
			rec.NoPanic("provider-panic", []tok{k, d}, func() {
				prov := providerOf(trustEnd("A"))
				_, err := prov.ShouldAllowCaller("choria=up", pub...)
				if d.Kind == "none" && k.Perms == "" {
					rec.Check(err != nil, "allowed", "caller %+v is allowed", k)
				}
				prov.VerifySignatureBytes([]byte("x"), []byte("y"), pub...)
				prov.VerifySignatureBytes(nil, nil, pub...)
			})
		}
	}
}

// ccase describes a request secured by certificates
type ccase struct {
	CA      string // main, inter (with its chain), interbare (without), other, self
	CN      string
	DNS     string // space separated
	Valid   string // ok, expired, future
	Usage   string // client, server
	EC      bool
	Shape   string // plain, garbage, empty, type, otherfirst, otherlast
	Caller  string
	SigKey  string // own, other, none
	Alter   bool
	Allow   string // default, only-rip, none
	Private string // default or a pattern
}

var certEnds = map[string]*end{}

func (c ccase) end() *end {
	k := c.Allow + "/" + c.Private
	if e, ok := certEnds[k]; ok {
		return e
	}
	e := newEnd(1, "srv.certs.net", func(cfg *config.Config) {
		cfg.InitiatedByServer = true
		cfg.Choria.PrivilegedUsers = c.priv()
		cfg.Choria.CertnameAllowList = c.allow()
	})
	certEnds[k] = e
	return e
}

func (c ccase) allow() []string {
	switch c.Allow {
	case "default":
		return []string{`\.mcollective$`, `\.choria$`}
	case "only-rip":
		return []string{`/^rip\.mcollective$/`}
	}
	return nil
}

func (c ccase) priv() []string {
	if c.Private == "default" {
		return []string{`\.privileged.mcollective$`, `\.privileged.choria$`}
	}
	return []string{c.Private}
}

func (c ccase) ident() *vfake.Ident {
	s := vfake.CertSpec{CN: c.CN, Elliptic: c.EC}
	if c.DNS != "" {
		s.DNS = regexp.MustCompile(` `).Split(c.DNS, -1)
	}
	switch c.Valid {
	case "expired":
		s.From, s.To = time.Now().Add(-48*time.Hour), time.Now().Add(-time.Hour)
	case "future":
		s.From = time.Now().Add(time.Hour)
	case "soon":
		s.To = soon
	}
	if c.Usage == "server" {
		s.Usage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	}
	main := vfake.MainCA()
	ca := main
	if !c.EC {
		s.Reuse = vfake.NewCA("shared key", nil).Key // key generation is what is slow
	}
	switch c.CA {
	case "inter", "interbare":
		ca = vfake.NewCA("inter", main)
	case "other":
		ca = vfake.NewCA("other", nil)
	case "self":
		s.Self = true
	}
	return ca.Issue(fmt.Sprintf("%s %s %s %s %s %v %v", c.CA, c.CN, c.DNS, c.Valid, c.Usage, c.EC, s.Self), s)
}

func (c ccase) pem() []byte {
	id := c.ident()
	p := id.PEM
	if c.CA == "inter" {
		p = append(append([]byte{}, p...), vfake.NewCA("inter", vfake.MainCA()).PEM...)
	}
	good := vfake.MainCA().Client("rip.mcollective")
	switch c.Shape {
	case "garbage":
		return []byte("-----BEGIN CERTIFICATE-----\ngarbage\n-----END CERTIFICATE-----\n")
	case "empty":
		return []byte("x")
	case "type":
		return pem.EncodeToMemory(&pem.Block{Type: "TRUSTED CERTIFICATE", Bytes: id.Cert.Raw})
	case "otherfirst":
		return append(append([]byte{}, good.PEM...), p...)
	case "otherlast":
		return append(append([]byte{}, p...), good.PEM...)
	}
	return p
}

func matchAny(s string, res []string) bool {
	for _, r := range res {
		r = regexp.MustCompile(`^/(.+)/$`).ReplaceAllString(r, "$1")
		if regexp.MustCompile(r).MatchString(s) {
			return true
		}
	}
	return false
}

// accepted is what the documentation demands, unsure when the format is unusual
func (c ccase) accepted() (ok bool, unsure bool) {
	m := regexp.MustCompile(`^[a-z]+=([\w.\-]+)`).FindStringSubmatch(c.Caller)
	if m == nil || c.Alter || c.SigKey != "own" || c.EC {
		return false, false
	}
	name := m[1]
	cn, dns, ca, valid, usage := c.CN, []string{}, c.CA, c.Valid, c.Usage
	if c.DNS != "" {
		dns = regexp.MustCompile(` `).Split(c.DNS, -1)
	}
	switch c.Shape {
	case "garbage", "empty":
		return false, false
	case "type":
		unsure = true // certificates in blocks of other types may be understood
	case "otherfirst":
		return false, false // signed by another than the first certificate
	}
	if (ca != "main" && ca != "inter") || valid != "ok" || usage != "client" {
		return false, false
	}
	names := append([]string{cn}, dns...)
	for _, n := range names {
		if matchAny(n, c.priv()) {
			return true, unsure
		}
	}
	named := false
	for _, n := range names {
		named = named || n == name
	}
	return named && matchAny(name, c.allow()), unsure
}

func (c ccase) wire(r *mrand.Rand) []byte {
	q, err := c.end().fw.NewRequest(protocol.RequestV1, "rpcutil", "client", c.Caller, 60, hexid(r), "mcollective")
	must(err)
	q.SetMessage([]byte("body"))
	j, err := q.JSON()
	must(err)
	h := sha256.Sum256(j)
	sig := []byte("insecure")
	var key crypto.Signer
	switch c.SigKey {
	case "own":
		key = c.ident().Key
	case "other":
		key = vfake.MainCA().Client("mallory.mcollective").Key
	}
	if key != nil {
		sig, err = key.Sign(rand.Reader, h[:], crypto.SHA256)
		must(err)
	}
	if c.Alter {
		j = bytes.Replace(j, []byte("rpcutil"), []byte("rpcutiI"), 1)
	}
	return rewrap(1, map[string]any{"protocol": string(protocol.SecureRequestV1), "message": string(j), "signature": base64.StdEncoding.EncodeToString(sig), "pubcert": string(c.pem())})
}

var _ = rsa.VerifyPKCS1v15
var _ = json.Marshal

// TestC02Certificates presents requests with all kinds of certificates and signatures
func TestC02Certificates(t *testing.T) {
	rec := verifkit.New(t, "C02", "a request secured by a certificate is accepted exactly when a trusted certificate that names its caller, or is privileged, made the signature over the bytes")
	rng := verifkit.Rand("c02certs")
	bases := []ccase{
		{"main", "rip.mcollective", "", "ok", "client", false, "plain", "choria=rip.mcollective", "own", false, "default", "default"},
		{"main", "x", "rip.mcollective y.choria", "ok", "client", false, "plain", "choria=rip.mcollective", "own", false, "default", "default"},
		{"inter", "rip.mcollective", "", "ok", "client", false, "plain", "puppet=rip.mcollective", "own", false, "only-rip", "default"},
		{"main", "aaa.privileged.mcollective", "", "ok", "client", false, "plain", "okta=bob@example.net", "own", false, "default", "default"},
		{"main", "x", "aaa.privileged.choria", "ok", "client", false, "plain", "choria=anyone", "own", false, "none", "default"},
		{"main", "signer", "", "ok", "client", false, "plain", "choria=anyone", "own", false, "only-rip", "/^signer$/"},
	}
	seen := map[string]bool{}
	run := func(c ccase) {
		k := fmt.Sprintf("%+v", c)
		if seen[k] {
			return
		}
		seen[k] = true
		want, unsure := c.accepted()
		w := c.wire(rng)
		rec.Case(true, k)
		var err error
		rec.NoPanic("panic", c, func() {
			_, err = c.end().fw.NewRequestFromTransportJSON(w, false)
		})
		switch {
		case want && unsure:
			rec.Count("unsure", 1)
		case want:
			rec.Count("acceptable", 1)
			rec.Check(err == nil, "refused", "request %+v is acceptable but was refused: %v", c, err)
		default:
			rec.Count("unacceptable", 1)
			rec.Check(err != nil, "accepted", "request %+v was accepted", c)
		}
	}
	cas := []string{"main", "inter", "interbare", "other", "self"}
	cns := []string{"rip.mcollective", "mallory.mcollective", "aaa.privileged.mcollective", "rip", "signer", "rip.mcollective.evil.net"}
	dnss := []string{"", "rip.mcollective", "x.net rip.mcollective", "aaa.privileged.choria", "rip.mcollectiveX", "*.mcollective"}
	shapes := []string{"plain", "garbage", "empty", "type", "otherfirst", "otherlast"}
	callers := []string{"choria=rip.mcollective", "choria=mallory.mcollective", "rip.mcollective", "choria=", "choria=rip", "Choria=rip.mcollective", "choria=x.net", "choria=anyone"}
	deviate := func(c ccase, f func(ccase)) {
		for _, x := range cas {
			n := c
			n.CA = x
			f(n)
		}
		for _, x := range cns {
			n := c
			n.CN = x
			f(n)
		}
		for _, x := range dnss {
			n := c
			n.DNS = x
			f(n)
		}
		for _, x := range []string{"ok", "expired", "future"} {
			n := c
			n.Valid = x
			f(n)
		}
		for _, x := range shapes {
			n := c
			n.Shape = x
			f(n)
		}
		for _, x := range callers {
			n := c
			n.Caller = x
			f(n)
		}
		for _, x := range []string{"own", "other", "none"} {
			n := c
			n.SigKey = x
			f(n)
		}
		for _, x := range []string{"default", "only-rip", "none"} {
			n := c
			n.Allow = x
			f(n)
		}
		n := c
		n.Usage = "server"
		f(n)
		n = c
		n.EC = true
		f(n)
		n = c
		n.Alter = true
		f(n)
		n = c
		n.Private = "/^signer$/"
		f(n)
	}
	for _, c := range bases {
		if ok, _ := c.accepted(); !ok {
			panic(fmt.Sprintf("base %+v", c))
		}
		deviate(c, run)
		deviate(c, func(n ccase) {
			if verifkit.Thorough() || rng.Intn(6) == 0 {
				deviate(n, func(n2 ccase) {
					if verifkit.Thorough() || rng.Intn(3) == 0 {
						run(n2)
					}
				})
			}
		})
	}
	rec.Require("acceptable", 30)
	rec.Require("unacceptable", 200)

	// names are compared with certificates directly too
	prov := providerOf(bases[0].end())
	for _, c := range []struct {
		pem  []byte
		name string
		ok   bool
	}{
		{bases[0].pem(), "rip.mcollective", true},
		{bases[0].pem(), "", true},
		{bases[0].pem(), "other.mcollective", false},
		{nil, "rip.mcollective", false},
		{[]byte("x"), "", false},
		{pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: ccase{CA: "self", CN: "rip.mcollective", Valid: "ok", Usage: "client"}.ident().Cert.Raw}), "rip.mcollective", false},
		{ccase{CA: "other", CN: "rip.mcollective", Valid: "ok", Usage: "client"}.pem(), "rip.mcollective", false},
	} {
		rec.Case(true, "verify "+c.name+string(c.pem))
		err := prov.(interface{ VerifyCertificate([]byte, string) error }).VerifyCertificate(c.pem, c.name)
		rec.Check((err == nil) == c.ok, "verify-certificate", "verifying %s as %q gives %v", shorten(string(c.pem)), c.name, err)
	}
}

func providerOf(e *end) inter.SecurityProvider {
	var p inter.SecurityProvider
	var err error
	if e.version == 2 {
		p, err = choriasec.New(choriasec.WithChoriaConfig(e.fw.Config), choriasec.WithLog(vfake.Log()))
	} else {
		p, err = filesec.New(filesec.WithChoriaConfig(e.fw.BuildInfo(), e.fw.Config), filesec.WithLog(vfake.Log()))
	}
	must(err)
	return p
}
