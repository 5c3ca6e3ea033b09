package broker

import (
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"

	"crypto/tls"

	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
)

// TestC01Abrupt has connections that go away while their credentials are considered, the broker
// has to stay available to others. A crash is judged by the runner.
func TestC01Abrupt(t *testing.T) {
	rec := verifkit.New(t, "C01", "connections that go away while being considered do not affect others")
	rec.Require("connections", 200)
	s := &setup{name: "signers", clientSigners: []string{"cs1"}, serverSigners: []string{"ss1"}, provPass: "provsecret", provSigner: "prov", sysUser: "system", sysPass: "syssecret"}
	s.start(t)
	kinds := []struct {
		user, pass, cert string
		tok              *tok
	}{
		{"", "", "none", &tok{Kind: "client", OU: "choria", Valid: "ok", Key: "k1", Signer: "cs1", Name: "choria=alice", Perms: []string{"fleet"}}},
		{"", "", "none", &tok{Kind: "server", OU: "choria", Valid: "ok", Key: "k1", Signer: "ss1", Name: "node1", Colls: []string{"mcollective"}}},
		{"", "", "none", &tok{Kind: "provision", OU: "choria", Valid: "ok", Signer: "rsa:prov", Name: "x"}},
		{"", "", "good", nil},
		{"provisioner", "provsecret", "good", nil},
		{"system", "syssecret", "good", nil},
	}
	var wg sync.WaitGroup
	n := verifkit.N(60, 600)
	for w := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := verifkit.Rand(fmt.Sprint("abrupt", w))
			for i := range n {
				k := kinds[(w+i)%len(kinds)]
				p, err := s.dial(certOf(k.cert))
				if err != nil {
					rec.Inconclusive("dial: %v", err)
					return
				}
				token := ""
				if k.tok != nil {
					token = k.tok.build()
				}
				line := connectLine(k.user, k.pass, token, sign(vfake.NewEdKey("k1").Pri, p.nonce), true)
				// several times over, each is considered anew while the first answers can not be delivered
				p.write(line)
				if r.Intn(2) == 0 {
					p.pongOrOK()
				}
				raw := p.c.(*tls.Conn).NetConn().(*net.TCPConn)
				raw.SetLinger(0)
				p.write(strings.Repeat("PING\r\n", 1+r.Intn(5)) + strings.Repeat(line, 1+r.Intn(60)))
				raw.Close()
				rec.Count("connections", 1)
				rec.Case(true, fmt.Sprintf("%d %d", w, i))
			}
		}()
	}
	wg.Wait()
	p, err := s.dial(certOf("good"))
	if !rec.Check(err == nil, "unavailable", "after abrupt connections: %v", err) {
		return
	}
	defer p.close()
	rec.Check(p.login("", "", "", ""), "unavailable", "good connection refused after abrupt ones")
}
