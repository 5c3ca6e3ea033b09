package conn

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/config"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/miekg/dns"
)

// address is a server and one of the ways of writing it
type address struct {
	scheme, host string
	port         int
	text         string
	bad          bool
}

func someAddress(r *rand.Rand, defaultScheme string) address {
	a := address{scheme: defaultScheme, host: verifkit.Pick(r, []string{"a.example.net", "b1", "10.0.0.1", "::1", "2001:db8::a:1", "x-y.example.net"}), port: verifkit.Pick(r, []int{1, 80, 4222, 4223, 65535})}
	host := a.host
	if strings.Contains(host, ":") {
		host = "[" + host + "]"
	}
	a.text = fmt.Sprintf("%s:%d", host, a.port)
	if r.Intn(3) == 0 {
		a.scheme = verifkit.Pick(r, []string{"nats", "tls", "wss"})
		a.text = a.scheme + "://" + a.text
	}
	if r.Intn(4) == 0 {
		a.text = verifkit.Pick(r, []string{" ", "\t"}) + a.text + " "
	}
	if r.Intn(12) == 0 {
		a.bad = true
		a.text = verifkit.Pick(r, []string{host, host + ":", host + ":x", host + ":65536", host + ":-1", "nats://" + host, ":", "nats://" + host + ":x", host + ":1:2"})
	}
	return a
}

func (a address) url() string {
	return fmt.Sprintf("%s://%s", a.scheme, net.JoinHostPort(a.host, fmt.Sprint(a.port)))
}

// same compares servers with what they should be in every form they are available in
func same(s srvcache.Servers, want []address) string {
	if s == nil {
		return "nil"
	}
	var exp []string
	for _, a := range want {
		exp = append(exp, a.url())
	}
	w := strings.Join(exp, " ")
	if got := strings.Join(s.Strings(), " "); got != w || s.Count() != len(want) || len(s.Servers()) != len(want) || len(s.HostPorts()) != len(want) {
		return fmt.Sprintf("%d servers %q rather than %q", s.Count(), got, w)
	}
	urls, err := s.URLs()
	if err != nil || len(urls) != len(want) {
		return fmt.Sprintf("URLs of %q: %v", w, err)
	}
	for i, srv := range s.Servers() {
		a := want[i]
		h, p, err := net.SplitHostPort(s.HostPorts()[i])
		if err != nil || h != a.host || p != fmt.Sprint(a.port) || srv.HostPort() != s.HostPorts()[i] {
			return fmt.Sprintf("host and port of %q are %q: %v", a.url(), s.HostPorts()[i], err)
		}
		if srv.Host() != a.host || int(srv.Port()) != a.port || srv.Scheme() != a.scheme || srv.String() != a.url() {
			return fmt.Sprintf("server %+v is not %+v", srv, a)
		}
		if urls[i].Hostname() != a.host || urls[i].Port() != p || urls[i].Scheme != a.scheme {
			return fmt.Sprintf("URL of %q is %q", a.url(), urls[i])
		}
	}
	return ""
}

// zone is a DNS server on the loopback network
type zone struct {
	mu      sync.Mutex
	records map[string][]net.SRV
	asked   map[string]int
}

func (z *zone) set(records map[string][]net.SRV) {
	z.mu.Lock()
	defer z.mu.Unlock()
	z.records = records
	z.asked = map[string]int{}
}

func startDNS() (*zone, func(), error) {
	z := &zone{}
	pc, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	l, err := net.Listen("tcp", pc.LocalAddr().String())
	if err != nil {
		return nil, nil, err
	}
	h := dns.HandlerFunc(func(w dns.ResponseWriter, q *dns.Msg) {
		m := new(dns.Msg)
		m.SetReply(q)
		name := strings.ToLower(q.Question[0].Name)
		z.mu.Lock()
		z.asked[name]++
		for _, s := range z.records[name] {
			if q.Question[0].Qtype == dns.TypeSRV {
				m.Answer = append(m.Answer, &dns.SRV{Hdr: dns.RR_Header{Name: q.Question[0].Name, Rrtype: dns.TypeSRV, Class: dns.ClassINET, Ttl: 1}, Priority: s.Priority, Weight: s.Weight, Port: s.Port, Target: s.Target})
			}
		}
		z.mu.Unlock()
		if len(m.Answer) == 0 {
			m.SetRcode(q, dns.RcodeNameError)
		}
		w.WriteMsg(m)
	})
	us, ts := &dns.Server{PacketConn: pc, Handler: h}, &dns.Server{Listener: l, Handler: h}
	go us.ActivateAndServe()
	go ts.ActivateAndServe()
	addr := pc.LocalAddr().String()
	old := net.DefaultResolver
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, _ string) (net.Conn, error) {
		return (&net.Dialer{}).DialContext(ctx, network, addr)
	}}
	return z, func() { net.DefaultResolver = old; us.Shutdown(); ts.Shutdown() }, nil
}

// someRecords adds records with distinct priorities so that the order is known
func someRecords(r *rand.Rand, records map[string][]net.SRV, name string, scheme string) (want []address) {
	n := 1 + r.Intn(4)
	var recs []net.SRV
	for i := 0; i < n; i++ {
		a := address{scheme: scheme, host: fmt.Sprintf("s%d.example.net", r.Intn(100)), port: 1 + r.Intn(65535)}
		want = append(want, a)
		recs = append(recs, net.SRV{Priority: uint16(10 * (i + 1)), Weight: uint16(r.Intn(10)), Port: uint16(a.port), Target: a.host + "."})
	}
	r.Shuffle(n, func(a, b int) { recs[a], recs[b] = recs[b], recs[a] })
	records[name] = recs
	return want
}

// TestC34Servers checks which servers are used given configuration and DNS
func TestC34Servers(t *testing.T) {
	v := verifkit.New(t, "C34", "the servers to connect to are those configured, else those in DNS, else the default, in order, and nothing else")
	z, stop, err := startDNS()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer stop()
	os.Unsetenv("CHORIA_FED_COLLECTIVE")
	for i := 0; i < verifkit.N(300, 4000); i++ {
		r := verifkit.Rand(fmt.Sprintf("c34-servers-%d", i))
		list := func() (texts []string, want []address, bad bool) {
			if r.Intn(2) == 0 {
				return nil, nil, false
			}
			for n := 0; n <= r.Intn(4); n++ {
				a := someAddress(r, "nats")
				texts, want, bad = append(texts, a.text), append(want, a), bad || a.bad
			}
			return texts, want, bad
		}
		hosts, wantHosts, badHosts := list()
		fed, wantFed, badFed := list()
		peers, wantPeers, badPeers := list()
		federated := r.Intn(3) == 0
		srv := r.Intn(3) > 0
		domain := fmt.Sprintf("d%d.example.net", i)
		records := map[string][]net.SRV{}
		look := func(names ...string) (want []address) {
			for _, n := range names {
				if r.Intn(2) == 0 {
					w := someRecords(r, records, n+"."+domain+".", "nats")
					if want == nil {
						want = w
					}
				}
			}
			if !srv {
				return nil
			}
			return want
		}
		srvHosts := look("_mcollective-server._tcp", "_x-puppet-mcollective._tcp")
		srvFed := look("_mcollective-federation_server._tcp", "_x-puppet-mcollective_federation._tcp")
		srvPeers := look("_mcollective-broker._tcp")
		srvDB := look("_x-puppet-db._tcp")
		wantDB := append([]address{}, srvDB...)
		if r.Intn(2) == 0 {
			w := someRecords(r, records, "_x-puppet._tcp."+domain+".", "https")
			if srvDB == nil && srv {
				for _, a := range w {
					a.port = 8081
					wantDB = append(wantDB, a)
				}
			}
		}
		for n := range wantDB {
			wantDB[n].scheme = "https"
		}
		dbhost := verifkit.Pick(r, []string{"", "", "db.example.net"})
		if dbhost != "" {
			wantDB = []address{{scheme: "https", host: dbhost, port: 8081}}
		} else if len(wantDB) == 0 {
			wantDB = []address{{scheme: "https", host: "puppet", port: 8081}}
		}
		z.set(records)
		fw := vfake.FW(func(cfg *config.Config) {
			cfg.Choria.UseSRVRecords = srv
			cfg.Choria.SRVDomain = domain
			cfg.Choria.MiddlewareHosts = hosts
			cfg.Choria.FederationMiddlewareHosts = fed
			cfg.Choria.NetworkPeers = peers
			cfg.Choria.PuppetDBHost = dbhost
			cfg.Choria.PuppetDBPort = 8081
			if federated {
				cfg.Choria.FederationCollectives = []string{"east"}
			}
		})
		in := fmt.Sprintf("hosts %q federated %v by %q peers %q srv %v %v", hosts, federated, fed, peers, srv, records)
		v.Case(true, in)

		var want []address
		wantErr := false
		switch {
		case federated && len(fed) > 0:
			want, wantErr = wantFed, badFed
			v.Count("federation configured", 1)
		case federated:
			want, wantErr = srvFed, !srv
			v.Count("federation in DNS", len(srvFed))
		case len(hosts) > 0:
			want, wantErr = wantHosts, badHosts
			v.Count("configured", 1)
		case len(srvHosts) > 0:
			want = srvHosts
			v.Count("in DNS", 1)
		default:
			want = []address{{scheme: "nats", host: "puppet", port: 4222}}
			v.Count("default", 1)
		}
		for try := 0; try < 2; try++ { // the second is from the cache
			v.NoPanic("servers", in, func() {
				s, err := fw.MiddlewareServers()
				if wantErr {
					v.Check(err != nil && s != nil && s.Count() == 0, "servers-error", "%s: not refused: %v", in, err)
					return
				}
				if !v.Check(err == nil, "servers-error", "%s: %v", in, err) {
					return
				}
				d := same(s, want)
				v.Check(d == "", "servers", "%s: %s", in, d)
				// what is done to the answer stays with who asked
				s.Each(func(x srvcache.Server) { x.SetHost("changed"); x.SetPort(1); x.SetScheme("x") })
			})
		}
		v.NoPanic("peers", in, func() {
			s, err := fw.NetworkBrokerPeers()
			w, bad := wantPeers, badPeers
			if len(srvPeers) > 0 {
				w, bad = srvPeers, false
			}
			if bad {
				v.Check(err != nil && s.Count() == 0, "peers-error", "%s: not refused", in)
			} else if v.Check(err == nil, "peers-error", "%s: %v", in, err) {
				d := same(s, w)
				v.Check(d == "", "peers", "%s: %s", in, d)
			}
		})
		v.NoPanic("puppetdb", in, func() {
			s, err := fw.PuppetDBServers()
			if v.Check(err == nil, "puppetdb-error", "%s: %v", in, err) {
				d := same(s, wantDB)
				v.Check(d == "", "puppetdb", "%s puppetdb %q: %s", in, dbhost, d)
			}
		})
		v.NoPanic("try", in, func() {
			def := srvcache.NewServer("def", 99, "")
			s, err := fw.TrySrvLookup([]string{"_nope._tcp", "_mcollective-broker._tcp"}, def)
			if !v.Check(err == nil && s != nil, "try-error", "%s: %v", in, err) {
				return
			}
			w := address{host: "def", port: 99}
			if len(srvPeers) > 0 {
				w = srvPeers[0]
			}
			v.Check(s.Host() == w.host && int(s.Port()) == w.port, "try", "%s: found %s rather than %+v", in, s, w)
		})
		if !srv {
			z.mu.Lock()
			v.Check(len(z.asked) == 0, "srv-disabled", "%s: looked up %v while that is disabled", in, z.asked)
			z.mu.Unlock()
		}
	}
	v.Require("configured", 5)
	v.Require("in DNS", 5)
	v.Require("default", 5)
	v.Require("federation in DNS", 5)
}

// TestC34NoServers checks that clients of federations never connect elsewhere
func TestC34NoServers(t *testing.T) {
	v := verifkit.New(t, "C34", "without servers to connect to no connection is made")
	l, err := net.Listen("tcp", "127.0.0.1:4222") // what the network library connects to by default
	if err != nil {
		v.Note("port 4222 is in use")
		v.Case(true, "skipped")
		return
	}
	defer l.Close()
	var mu sync.Mutex
	conns := 0
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns++
			mu.Unlock()
			c.Close()
		}
	}()
	z, stop, err := startDNS()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer stop()
	z.set(nil)
	z.asked = map[string]int{}
	fw := vfake.FW(func(cfg *config.Config) {
		vfake.Certs("client0.mcollective")(cfg)
		cfg.DisableTLS = true
		cfg.Choria.UseSRVRecords = true
		cfg.Choria.SRVDomain = "nothing.example.net"
		cfg.Choria.MiddlewareHosts = []string{"127.0.0.1:4222"}
		cfg.Choria.FederationCollectives = []string{"east"}
	})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	tries := 0
	lookup := func() (srvcache.Servers, error) {
		if tries++; tries == 3 {
			cancel()
		}
		return fw.MiddlewareServers()
	}
	var conn any
	ok := v.Within(60*time.Second, "no-servers", func() {
		conn, err = fw.NewConnector(ctx, lookup, "t", fw.Logger("t"))
	})
	mu.Lock()
	defer mu.Unlock()
	v.Case(true, "federated without servers")
	v.Check(ok && err != nil && conns == 0, "no-servers", "a federated client without known servers connected %d times to the default of the network library: %v %v", conns, conn, err)
}

// TestC34Cache checks answers are kept for as long as they should be, on a fake clock
func TestC34Cache(t *testing.T) {
	v := verifkit.New(t, "C34", "SRV answers are repeated for their time only, failures are not kept, each question has its own answer")
	for i := 0; i < verifkit.N(200, 3000); i++ {
		synctest.Test(t, func(t *testing.T) {
			r := verifkit.Rand(fmt.Sprintf("c34-cache-%d", i))
			maxAge := time.Duration(1+r.Intn(10)) * time.Second
			type answer struct {
				at    time.Time
				port  uint16
				valid bool
			}
			cached := map[string]answer{}
			calls := 0
			failing := false
			port := uint16(0)
			c := srvcache.New("t", maxAge, func(service, proto, name string) (string, []*net.SRV, error) {
				calls++
				if failing {
					return "", nil, errors.New("simulated")
				}
				port++
				return "c." + name, []*net.SRV{{Target: name + "..", Port: port}, {Target: "x." + name, Port: port}}, nil
			}, vfake.Log())
			hist := ""
			for op := 0; op < 40; op++ {
				name := verifkit.Pick(r, []string{"a", "b", "_c._tcp.d"})
				failing = r.Intn(4) == 0
				sleep := time.Duration(r.Intn(3500)) * time.Millisecond
				time.Sleep(sleep)
				k := cached[name]
				// right at the end of its time both are right
				fresh := k.valid && time.Since(k.at) < maxAge
				before := calls
				scheme := verifkit.Pick(r, []string{"nats", "", "https"})
				s, err := c.LookupSrvServers("", "", name, scheme)
				hist += fmt.Sprintf(" [+%v %s failing %v]", sleep, name, failing)
				switch {
				case fresh:
					v.Count("cached", 1)
					v.Check(calls == before && err == nil, "cache-miss", "max age %v:%s: resolved %d times: %v", maxAge, hist, calls-before, err)
				case failing:
					v.Count("failed", 1)
					v.Check(calls == before+1 && err != nil && s.Count() == 0, "cache-error", "max age %v:%s: %d lookups, %v", maxAge, hist, calls-before, err)
					delete(cached, name)
					continue
				default:
					v.Count("resolved", 1)
					v.Check(calls == before+1 && err == nil, "cache-stale", "max age %v:%s: %d lookups, %v", maxAge, hist, calls-before, err)
					k = answer{time.Now(), port, true}
					cached[name] = k
				}
				if err != nil {
					return
				}
				got := []string{}
				for _, x := range s.Servers() {
					got = append(got, fmt.Sprintf("%s %d %s", x.Host(), x.Port(), x.Scheme()))
				}
				sort.Strings(got)
				want := []string{fmt.Sprintf("%s %d %s", name, k.port, scheme), fmt.Sprintf("x.%s %d %s", name, k.port, scheme)}
				sort.Strings(want)
				v.Check(strings.Join(got, ",") == strings.Join(want, ","), "cache-answer", "max age %v:%s: %v rather than %v", maxAge, hist, got, want)
				s.Each(func(x srvcache.Server) { x.SetHost("changed"); x.SetPort(9) })
				cname, addrs, err := c.LookupSRV("", "", name)
				v.Check(err == nil && cname == "c."+name && len(addrs) == 2 && addrs[0].Port == k.port, "cache-answer", "max age %v:%s: %q %v %v", maxAge, hist, cname, addrs, err)
			}
			v.Case(true, hist)
		})
	}
}

