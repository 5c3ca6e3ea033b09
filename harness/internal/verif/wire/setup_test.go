package wire

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/choria"
	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/protocol"
	"github.com/choria-io/tokens"
)

func TestMain(m *testing.M) {
	os.Setenv("USER", "verif")
	os.Exit(m.Run())
}

var ctx = context.Background()

// end is a client or server speaking one protocol version
type end struct {
	version int
	fw      *choria.Framework
}

func clientToken(caller string, issuer *vfake.EdKey, key *vfake.EdKey, mod func(c *tokens.ClientIDClaims)) string {
	c, err := tokens.NewClientIDClaims(caller, nil, "choria", nil, "", "", time.Hour, &tokens.ClientPermissions{FleetManagement: true}, key.Pub)
	if err != nil {
		panic(err)
	}
	if mod != nil {
		mod(c)
	}
	t, err := tokens.SignToken(c, issuer.Pri)
	if err != nil {
		panic(err)
	}
	return t
}

func serverToken(id string, issuer *vfake.EdKey, key *vfake.EdKey, mod func(c *tokens.ServerClaims)) string {
	c, err := tokens.NewServerClaims(id, []string{"mcollective"}, "choria", nil, nil, key.Pub, "", time.Hour)
	if err != nil {
		panic(err)
	}
	if mod != nil {
		mod(c)
	}
	t, err := tokens.SignToken(c, issuer.Pri)
	if err != nil {
		panic(err)
	}
	return t
}

func newEnd(version int, name string, mod func(cfg *config.Config)) *end {
	return &end{version: version, fw: vfake.FW(func(cfg *config.Config) {
		cfg.Collectives = []string{"mcollective", "other_c", "third"}
		cfg.MainCollective = "mcollective"
		cfg.Identity = name
		if version == 1 {
			vfake.Certs(name)(cfg)
		} else {
			issuer := vfake.NewEdKey("issuer")
			key := vfake.NewEdKey("end-" + name)
			cfg.Choria.SecurityProvider = "choria"
			cfg.Choria.ChoriaSecuritySeedFile = key.File
			cfg.Choria.ChoriaSecurityTokenFile = vfake.TempFile([]byte(clientToken("choria=verif", issuer, key, nil)))
			cfg.Choria.ChoriaSecurityTrustedSigners = []string{issuer.Hex()}
			cfg.Choria.ChoriaSecuritySignReplies = len(name)%2 == 0
		}
		if mod != nil {
			mod(cfg)
		}
	})}
}

var ends = sync.OnceValue(func() map[int][2]*end {
	return map[int][2]*end{
		1: {newEnd(1, "rip.mcollective", nil), newEnd(1, "srv1.example.net", nil)},
		2: {newEnd(2, "client.example.net", nil), newEnd(2, "srv1.example.net", nil)},
	}
})

func reqVersion(v int) protocol.ProtocolVersion {
	if v == 1 {
		return protocol.RequestV1
	}
	return protocol.RequestV2
}

func transportVersion(v int) protocol.ProtocolVersion {
	if v == 1 {
		return protocol.TransportV1
	}
	return protocol.TransportV2
}

var words = []string{"a", "rpcutil", "node1.example.net", "mcollective.reply.xx", "π≠ascii", "with space", "<html>&\"quoted\\\"", "{\"json\":true}", "a.b.>", "choria=rip", "\u2028\u0000x", "0", "null", strings.Repeat("long", 50)}

func genBody(r *rand.Rand, binary bool) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte(verifkit.Pick(r, words))
	case 1:
		return []byte(fmt.Sprintf(`{"agent":"x","action":"y","data":{"a":%d,"s":%q}}`, r.Int63(), verifkit.Pick(r, words)))
	case 2:
		return []byte(strings.Repeat(verifkit.Pick(r, words), 1+r.Intn(3000)))
	case 3:
		return []byte("aGVsbG8gd29ybGQ=")
	case 4:
		return []byte("\r\n\t\x00\x01\x7f" + verifkit.Pick(r, words))
	case 5:
		return []byte("\uFFFD\uFEFF" + verifkit.Pick(r, words))
	}
	n := 1 + r.Intn(200)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
		if !binary {
			b[i] = byte(32 + r.Intn(95))
		}
	}
	return b
}

func genFilter(r *rand.Rand) *protocol.Filter {
	f := protocol.NewFilter()
	for i := 0; i < r.Intn(3); i++ {
		f.AddClassFilter(verifkit.Pick(r, words))
	}
	for i := 0; i < r.Intn(3); i++ {
		f.AddIdentityFilter(verifkit.Pick(r, words))
	}
	for i := 0; i < r.Intn(3); i++ {
		f.AddAgentFilter(verifkit.Pick(r, words))
	}
	for i := 0; i < r.Intn(3); i++ {
		f.AddFactFilter(verifkit.Pick(r, words), verifkit.Pick(r, []string{"==", "=~", "<=", ">=", "<", ">", "!="}), verifkit.Pick(r, words))
	}
	for i := 0; i < r.Intn(2); i++ {
		f.AddCompoundFilter(`with("x") and ` + verifkit.Pick(r, []string{"a", "fact('x') == 1 && \"<>&\" != 'y'"}))
	}
	return f
}

func normFilter(f *protocol.Filter) string {
	if f == nil {
		f = protocol.NewFilter()
	}
	n := func(s []string) []string {
		if len(s) == 0 {
			return []string{}
		}
		return s
	}
	facts := f.Fact
	if len(facts) == 0 {
		facts = []protocol.FactFilter{}
	}
	comp := f.Compound
	if len(comp) == 0 {
		comp = protocol.NewFilter().Compound
	}
	j, err := json.Marshal([]any{n(f.Class), n(f.Identity), n(f.Agent), facts, comp})
	if err != nil {
		panic(err)
	}
	return string(j)
}

// view is all that can be read from a request
type view struct {
	Body, ID, Sender, Caller, Collective, Agent, Filter string
	TTL                                                 int
	Time                                                int64
}

func requestView(q protocol.Request) view {
	f, _ := q.Filter()
	return view{string(q.Message()), q.RequestID(), q.SenderID(), q.CallerID(), q.Collective(), q.Agent(), normFilter(f), q.TTL(), q.Time().UnixNano()}
}

type fed struct {
	On      bool
	ID      string
	Reply   string
	Targets []string
	Hops    [][3]string
}

func fedView(f protocol.Federable) fed {
	v := fed{On: f.IsFederated(), Hops: append([][3]string{}, f.NetworkHops()...)}
	v.ID, _ = f.FederationRequestID()
	v.Reply, _ = f.FederationReplyTo()
	t, _ := f.FederationTargets()
	v.Targets = append([]string{}, t...)
	return v
}

func same(a, b any) bool { return reflect.DeepEqual(a, b) }

func hexid(r *rand.Rand) string {
	return fmt.Sprintf("%016x%016x", r.Uint64(), r.Uint64())
}

func shorten(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%q... (%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func genRequest(r *rand.Rand, e *end) protocol.Request {
	caller := fmt.Sprintf("choria=%s", e.fw.Certname())
	if e.version == 2 {
		caller = "choria=verif"
	}
	q, err := e.fw.NewRequest(reqVersion(e.version), verifkit.Pick(r, []string{"rpcutil", "discovery", "x_y", "a"}), e.fw.Config.Identity, caller, 30+r.Intn(600), hexid(r), verifkit.Pick(r, e.fw.Config.Collectives))
	if err != nil {
		panic(err)
	}
	q.SetMessage(genBody(r, e.version == 2))
	if r.Intn(4) > 0 {
		q.SetFilter(genFilter(r))
	}
	return q
}

func setFed(r *rand.Rand, m protocol.Federable) {
	if r.Intn(3) == 0 {
		return
	}
	if r.Intn(4) > 0 {
		m.SetFederationRequestID(hexid(r))
	}
	if r.Intn(4) > 0 {
		m.SetFederationReplyTo("mcollective.reply." + hexid(r))
	}
	if r.Intn(4) > 0 {
		m.SetFederationTargets([]string{"mcollective.node.a", "mcollective.node." + verifkit.Pick(r, words)})
	}
	for i := 0; i < r.Intn(3); i++ {
		m.RecordNetworkHop("in"+fmt.Sprint(i), verifkit.Pick(r, words), "out")
	}
}

var _ testing.TB
