package broker

import (
	"bufio"
	"context"
	"crypto/ed25519"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/broker/network"
	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
)

func TestMain(m *testing.M) {
	os.Setenv("USER", "verif")
	os.Exit(m.Run())
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type buildInfo struct{}

func (buildInfo) MaxBrokerClients() int { return 5000 }

// setup is a broker with its settings
type setup struct {
	name          string
	issuers       map[string]string // organisational unit to name of its key
	issuerCA      bool              // issuer based with a authority for certificates
	clientSigners []string          // names of keys, "rsa:" for certificates in files
	serverSigners []string
	provPass      string
	provSigner    string // name of the certificate that signs provisioning tokens
	provNoToken   bool
	sysUser       string
	sysPass       string
	allow         []string
	deny          bool
	noVerify      bool
	plain         bool

	port int
	srv  *network.Server
	fw   *choria.Framework
}

func rsaSigner(name string) *vfake.Ident { return vfake.NewCA("signers", nil).Client(name) }

func signerSettings(names []string) (res []string) {
	for _, n := range names {
		if f, ok := strings.CutPrefix(n, "rsa:"); ok {
			res = append(res, rsaSigner(f).CertFile)
			continue
		}
		res = append(res, vfake.NewEdKey(n).Hex())
	}
	return res
}

func (s *setup) configure(cfg *config.Config) {
	cfg.Identity = "broker.example.net"
	cfg.Choria.NetworkListenAddress = "127.0.0.1"
	cfg.Choria.NetworkClientPort = -1
	cfg.Choria.NetworkClientAdvertiseName = "broker.example.net:-1"
	cfg.Choria.NetworkAuthTimeout = time.Minute
	cfg.Choria.NetworkTLSTimeout = time.Minute
	cfg.Choria.NetworkWriteDeadline = time.Minute
	cfg.Choria.StatsPort = 0
	cfg.Choria.NetworkClientTokenSigners = signerSettings(s.clientSigners)
	cfg.Choria.NetworkServerTokenSigners = signerSettings(s.serverSigners)
	cfg.Choria.NetworkProvisioningClientPassword = s.provPass
	if s.provSigner != "" {
		cfg.Choria.NetworkProvisioningTokenSignerFile = rsaSigner(s.provSigner).CertFile
	}
	cfg.Choria.NetworkProvisioningWithoutToken = s.provNoToken
	cfg.Choria.NetworkSystemUsername = s.sysUser
	cfg.Choria.NetworkSystemPassword = s.sysPass
	cfg.Choria.NetworkAllowedClientHosts = s.allow
	cfg.Choria.NetworkDenyServers = s.deny
	cfg.DisableTLSVerify = s.noVerify
	switch {
	case s.plain:
		cfg.DisableTLS = true
	case s.issuers == nil:
		vfake.Certs("broker.example.net")(cfg)
	default:
		id := vfake.MainCA().Client("broker.example.net")
		key := vfake.NewEdKey("broker")
		cfg.Choria.SecurityProvider = "choria"
		cfg.Choria.ChoriaSecuritySeedFile = key.File
		cfg.Choria.ChoriaSecurityTokenFile = vfake.TempFile([]byte((&tok{Kind: "server", Signer: s.issuers["choria"], OU: "choria", Name: "broker.example.net", Key: "broker"}).build()))
		cfg.Choria.ChoriaSecurityCertificate = id.CertFile
		cfg.Choria.ChoriaSecurityKey = id.KeyFile
		if s.issuerCA {
			cfg.Choria.ChoriaSecurityCA = vfake.MainCA().File
		}
		for ou, k := range s.issuers {
			cfg.Choria.IssuerNames = append(cfg.Choria.IssuerNames, ou)
			cfg.SetOption("plugin.security.issuer."+ou+".public", vfake.NewEdKey(k).Hex())
		}
	}
}

func (s *setup) start(t *testing.T) {
	s.fw = vfake.FW(s.configure)
	srv, err := network.NewServer(s.fw, buildInfo{}, false)
	if err != nil {
		t.Fatalf("broker %s: %v", s.name, err)
	}
	s.srv = srv
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(1)
	go srv.Start(ctx, &wg)
	t.Cleanup(func() { cancel(); wg.Wait() })
	end := time.Now().Add(time.Minute)
	for time.Now().Before(end) {
		p := s.pipe()
		if p != nil {
			if port, ok := p.info["port"].(float64); ok && port > 0 {
				s.port = int(port)
				p.close()
				if c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.port)); err == nil {
					c.Close()
					return
				}
				continue
			}
			p.close()
		}
		time.Sleep(10 * time.Millisecond)
	}
	p := s.pipe()
	if p != nil {
		t.Fatalf("broker %s did not start %v", s.name, p.info)
	}
	t.Fatalf("broker %s did not start", s.name)
}

// peer is a connection to a broker speaking its protocol
type peer struct {
	c        net.Conn
	r        *bufio.Reader
	info     map[string]any
	nonce    string
	msgs     []msg // messages delivered so far
	denPub   map[string]bool
	denSub   map[string]bool
	other    []string // other errors
	verified bool
	cw       sync.Mutex
	jammed   error
}

type msg struct {
	subject string
	body    string
}

func newPeer(c net.Conn) *peer {
	return &peer{c: c, r: bufio.NewReaderSize(c, 65536), denPub: map[string]bool{}, denSub: map[string]bool{}}
}

func (p *peer) close() { p.c.Close() }

func (p *peer) readInfo() error {
	p.c.SetReadDeadline(time.Now().Add(time.Minute))
	l, err := p.r.ReadString('\n')
	if err != nil {
		return err
	}
	b, ok := strings.CutPrefix(l, "INFO ")
	if !ok {
		return fmt.Errorf("no INFO but %q", l)
	}
	if err := json.Unmarshal([]byte(b), &p.info); err != nil {
		return err
	}
	p.nonce, _ = p.info["nonce"].(string)
	return nil
}

func (s *setup) pipe() *peer {
	c, err := s.srv.InProcessConn()
	if err != nil {
		return nil
	}
	p := newPeer(c)
	if err := p.readInfo(); err != nil {
		c.Close()
		return nil
	}
	return p
}

// dial connects up to and including TLS, the error is a refusal by the broker
func (s *setup) dial(cert *tls.Certificate) (*peer, error) {
	c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.port))
	if err != nil {
		return nil, err
	}
	p := newPeer(c)
	if err := p.readInfo(); err != nil {
		c.Close()
		return nil, err
	}
	if p.info["tls_required"] == true {
		tc := tls.Client(c, &tls.Config{InsecureSkipVerify: true, GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
			if cert == nil {
				return &tls.Certificate{}, nil
			}
			return cert, nil
		}})
		tc.SetDeadline(time.Now().Add(time.Minute))
		if err := tc.Handshake(); err != nil {
			c.Close()
			return nil, err
		}
		tc.SetDeadline(time.Time{})
		p.c = tc
		p.r = bufio.NewReaderSize(tc, 65536)
	}
	return p, nil
}

func (p *peer) write(s string) {
	p.cw.Lock()
	defer p.cw.Unlock()
	p.c.SetWriteDeadline(time.Now().Add(time.Minute))
	_, err := p.c.Write([]byte(s))
	if err != nil && p.jammed == nil {
		p.jammed = err
	}
}

// sync reads until the broker handled all that was sent
func (p *peer) sync() error {
	go p.write("PING\r\n")
	return p.pong()
}

func (p *peer) pong() error {
	for {
		p.c.SetReadDeadline(time.Now().Add(time.Minute))
		l, err := p.r.ReadString('\n')
		if err != nil {
			return err
		}
		l = strings.TrimRight(l, "\r\n")
		switch {
		case l == "PONG":
			return nil
		case l == "PING":
			p.write("PONG\r\n")
		case l == "+OK", strings.HasPrefix(l, "INFO "):
		case strings.HasPrefix(l, "MSG "), strings.HasPrefix(l, "HMSG "):
			f := strings.Fields(l)
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil {
				return err
			}
			b := make([]byte, n+2)
			for got := 0; got < len(b); {
				m, err := p.r.Read(b[got:])
				if err != nil {
					return err
				}
				got += m
			}
			b = b[:n]
			if f[0] == "HMSG" {
				h, err := strconv.Atoi(f[len(f)-2])
				if err != nil || h > n {
					return fmt.Errorf("invalid %q", l)
				}
				b = b[h:]
			}
			p.msgs = append(p.msgs, msg{f[1], string(b)})
		case strings.HasPrefix(l, "-ERR "):
			e := strings.Trim(strings.TrimPrefix(l, "-ERR "), "'")
			if s, ok := strings.CutPrefix(e, "Permissions Violation for Publish to "); ok {
				p.denPub[unq(s)] = true
				continue
			}
			if s, ok := strings.CutPrefix(e, "Permissions Violation for Subscription to "); ok {
				s, _, _ = strings.Cut(s, " using queue ")
				p.denSub[unq(s)] = true
				continue
			}
			p.other = append(p.other, e)
		default:
			return fmt.Errorf("unexpected %q", l)
		}
	}
}

func unq(s string) string {
	u, err := strconv.Unquote(s)
	if err != nil {
		return s
	}
	return u
}

// login presents credentials, false means the broker refused them
func (p *peer) login(user, pass, token, sig string) bool {
	p.write(connectLine(user, pass, token, sig, false) + "PING\r\n")
	return p.pong() == nil
}

func connectLine(user, pass, token, sig string, verbose bool) string {
	o := map[string]any{"verbose": verbose, "pedantic": false, "lang": "monitor", "version": "1", "protocol": 1, "headers": true, "no_responders": true, "name": "monitor"}
	for k, v := range map[string]string{"user": user, "pass": pass, "auth_token": token, "sig": sig} {
		o[k] = v // also empty ones, what is left out stays what it was earlier in the connection
	}
	j, _ := json.Marshal(o)
	return "CONNECT " + string(j) + "\r\n"
}

func sign(key ed25519.PrivateKey, what string) string {
	return base64.RawURLEncoding.EncodeToString(ed25519.Sign(key, []byte(what)))
}

// pongOrOK waits for one line
func (p *peer) pongOrOK() {
	p.c.SetReadDeadline(time.Now().Add(time.Minute))
	p.r.ReadString('\n')
}
