package vfake

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/choria-io/go-choria/config"
)

// CA is a certificate authority
type CA struct {
	Name string
	Cert *x509.Certificate
	Key  crypto.Signer
	PEM  []byte
	File string
}

// Ident is a certificate with its key, stored in files
type Ident struct {
	Name     string
	Cert     *x509.Certificate
	Key      crypto.Signer
	PEM      []byte
	KeyPEM   []byte
	CertFile string
	KeyFile  string
}

// CertSpec describes a certificate to issue
type CertSpec struct {
	CN       string
	DNS      []string
	Emails   []string
	Usage    []x509.ExtKeyUsage
	From, To time.Time
	Elliptic bool
	IsCA     bool
	Self     bool // self signed rather than issued
	Reuse    crypto.Signer
}

var (
	pkiMu   sync.Mutex
	pkiDir  string
	pkiCAs  = map[string]*CA{}
	pkiIDs  = map[string]*Ident{}
	pkiNext int64
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func pkiPath(name string) string {
	if pkiDir == "" {
		d, err := os.MkdirTemp("", "verifpki")
		must(err)
		pkiDir = d
	}
	return filepath.Join(pkiDir, name)
}

func rsaKey() *rsa.PrivateKey {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	return k
}

func issue(s CertSpec, parent *CA) (*x509.Certificate, crypto.Signer, []byte) {
	var key crypto.Signer
	switch {
	case s.Reuse != nil:
		key = s.Reuse
	case s.Elliptic:
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		key = k
	default:
		key = rsaKey()
	}
	pkiNext++
	if s.From.IsZero() {
		s.From = time.Now().Add(-24 * time.Hour)
	}
	if s.To.IsZero() {
		s.To = time.Now().Add(10 * 24 * time.Hour)
	}
	if s.Usage == nil {
		s.Usage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth}
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(pkiNext), Subject: pkix.Name{CommonName: s.CN}, DNSNames: s.DNS, EmailAddresses: s.Emails,
		NotBefore: s.From, NotAfter: s.To, ExtKeyUsage: s.Usage, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment,
		BasicConstraintsValid: true,
	}
	if s.IsCA {
		t.IsCA = true
		t.KeyUsage |= x509.KeyUsageCertSign
		t.ExtKeyUsage = nil
	}
	pc, pk := t, crypto.Signer(key)
	if parent != nil && !s.Self {
		pc, pk = parent.Cert, parent.Key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, pc, key.Public(), pk)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return c, key, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

// NewCA is a named certificate authority, the same one each time, issued by parent when that is not nil
func NewCA(name string, parent *CA) *CA {
	pkiMu.Lock()
	defer pkiMu.Unlock()
	if c, ok := pkiCAs[name]; ok {
		return c
	}
	cert, key, p := issue(CertSpec{CN: name, IsCA: true}, parent)
	ca := &CA{Name: name, Cert: cert, Key: key, PEM: p, File: pkiPath(name + ".ca.pem")}
	must(os.WriteFile(ca.File, p, 0600))
	pkiCAs[name] = ca
	return ca
}

// Issue issues a certificate, the same one each time the name is used
func (c *CA) Issue(name string, s CertSpec) *Ident {
	pkiMu.Lock()
	defer pkiMu.Unlock()
	id := c.Name + "/" + name
	if i, ok := pkiIDs[id]; ok {
		return i
	}
	cert, key, p := issue(s, c)
	i := &Ident{Name: name, Cert: cert, Key: key, PEM: p}
	kb, err := x509.MarshalPKCS8PrivateKey(key)
	must(err)
	i.KeyPEM = pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb})
	if rk, ok := key.(*rsa.PrivateKey); ok {
		i.KeyPEM = pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(rk)})
	}
	n := fmt.Sprintf("id%d", len(pkiIDs))
	i.CertFile, i.KeyFile = pkiPath(n+".pem"), pkiPath(n+".key")
	must(os.WriteFile(i.CertFile, p, 0600))
	must(os.WriteFile(i.KeyFile, i.KeyPEM, 0600))
	pkiIDs[id] = i
	return i
}

// Client issues the certificate of a usual client called name
func (c *CA) Client(name string) *Ident {
	return c.Issue(name, CertSpec{CN: name, DNS: []string{name}})
}

// MainCA is the usual authority
func MainCA() *CA { return NewCA("main", nil) }

// Certs configures the file security provider with a certificate issued by the usual authority
func Certs(name string) func(cfg *config.Config) {
	return func(cfg *config.Config) {
		ca := MainCA()
		id := ca.Client(name)
		cfg.Choria.FileSecurityCA = ca.File
		cfg.Choria.FileSecurityCertificate = id.CertFile
		cfg.Choria.FileSecurityKey = id.KeyFile
		cfg.Identity = name
		cfg.OverrideCertname = name
	}
}

// EdKey is a ed25519 key kept in a seed file
type EdKey struct {
	Pub  ed25519.PublicKey
	Pri  ed25519.PrivateKey
	File string
}

var edKeys = map[string]*EdKey{}

// NewEdKey is a named key, the same one each time
func NewEdKey(name string) *EdKey {
	pkiMu.Lock()
	defer pkiMu.Unlock()
	if k, ok := edKeys[name]; ok {
		return k
	}
	pub, pri, err := ed25519.GenerateKey(rand.Reader)
	must(err)
	k := &EdKey{Pub: pub, Pri: pri, File: pkiPath(fmt.Sprintf("seed%d", len(edKeys)))}
	must(os.WriteFile(k.File, []byte(hex.EncodeToString(pri.Seed())), 0600))
	edKeys[name] = k
	return k
}

// Hex is the public key as configured in settings and tokens
func (k *EdKey) Hex() string { return hex.EncodeToString(k.Pub) }

// TempFile stores data in a file that lives as long as the process
func TempFile(data []byte) string {
	pkiMu.Lock()
	defer pkiMu.Unlock()
	pkiPath("x")
	f, err := os.CreateTemp(pkiDir, "data")
	must(err)
	defer f.Close()
	_, err = bytes.NewReader(data).WriteTo(f)
	must(err)
	return f.Name()
}
