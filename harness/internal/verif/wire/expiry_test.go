package wire

import (
	"fmt"
	"testing"
	"time"

	"github.com/choria-io/go-choria/internal/verifkit"
)

// soon is when credentials that are valid only a short while expire
var soon time.Time

// TestC02Expiry presents requests again once the credentials that were good for them expired
func TestC02Expiry(t *testing.T) {
	rec := verifkit.New(t, "C02", "credentials that were accepted are refused once they expired, others stay good, whatever was presented in between")
	rng := verifkit.Rand("c02expiry")
	rec.Require("expired", 12)
	rec.Require("lasting", 12)

	type held struct {
		name    string
		expires bool
		try     func() error
	}
	var all []held
	own := tok{"client", "A", "ok", "choria", "choria=up", "F", "caller"}
	dele := tok{"client", "A", "ok", "choria", "choria=aaa", "D", "aaa"}
	for _, mode := range []string{"AB", "A", "issuers"} {
		for _, signer := range []string{"A", "chainA"} {
			for _, who := range []string{"nobody", "caller", "delegator", "caller of a delegator"} {
				for _, perm := range []string{"F", "S"} {
					c, d, none := own, dele, tok{Kind: "none"}
					c.Signer, d.Signer, c.Perms = signer, signer, perm
					n := tcase{mode, c, none, "choria=up", "caller", false}
					if who == "delegator" || who == "caller of a delegator" || (who == "nobody" && perm == "S") {
						n = tcase{mode, c, d, "choria=up", "aaa", false}
					} else if perm == "S" {
						continue
					}
					if !n.accepted() {
						panic(fmt.Sprintf("%+v", n))
					}
					switch who {
					case "caller", "caller of a delegator":
						n.Caller.Valid = "soon"
					case "delegator":
						n.Delegate.Valid = "soon"
					}
					all = append(all, held{fmt.Sprintf("%+v", n), who != "nobody", func() error {
						_, err := trustEnd(n.Mode).fw.NewRequestFromTransportJSON(n.wire(rng), false)
						return err
					}})
				}
			}
		}
	}
	for _, ca := range []string{"main", "inter"} {
		for _, valid := range []string{"ok", "soon"} {
			for _, cn := range []string{"rip.mcollective", "aaa.privileged.mcollective"} {
				n := ccase{ca, cn, "", valid, "client", false, "plain", "choria=rip.mcollective", "own", false, "default", "default"}
				all = append(all, held{fmt.Sprintf("%+v", n), valid == "soon", func() error {
					_, err := n.end().fw.NewRequestFromTransportJSON(n.wire(rng), false)
					return err
				}})
			}
		}
	}
	good := map[string]bool{}
	for i := range 3 {
		if i == 1 {
			soon = time.Now().Truncate(time.Second).Add(6 * time.Second)
		}
		for _, h := range all {
			if i == 0 && h.expires {
				continue
			}
			err := h.try()
			if h.expires && !time.Now().Before(soon) {
				continue // too slow
			}
			rec.Check(err == nil, "refused", "%s was refused before it expired: %v", h.name, err)
			good[h.name] = err == nil
		}
	}
	for i := range 2 {
		time.Sleep(time.Until(soon.Add(time.Duration(i)*time.Second + 1100*time.Millisecond)))
		for _, h := range all {
			if !good[h.name] {
				continue
			}
			rec.Case(true, h.name)
			if err := h.try(); h.expires {
				rec.Count("expired", 1)
				rec.Check(err != nil, "accepted", "%s was accepted after it expired, it was accepted before", h.name)
			} else {
				rec.Count("lasting", 1)
				rec.Check(err == nil, "refused", "%s was refused, it was accepted before: %v", h.name, err)
			}
		}
	}
}
