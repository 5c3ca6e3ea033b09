package delays

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/backoff"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/srvcache"
	"github.com/sirupsen/logrus"
)

func quiet() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return logrus.NewEntry(l)
}

// TestC30Delays checks every delay against the bounds of its step and the policy's maximum
func TestC30Delays(t *testing.T) {
	rec := verifkit.New(t, "C30", "for shipped and generated policies and any try number the delay lies between half and one and a half of its step, never above one and a half of the largest step, and never crashes")
	rnd := verifkit.Rand("c30-delays")

	policies := map[string]backoff.Policy{"default": backoff.Default, "fivesec": backoff.FiveSec, "twenty": backoff.TwentySec, "grace": backoff.FiveSecStartGrace, "empty": {}}
	for i := 0; i < 60; i++ {
		p := backoff.Policy{}
		for j := 0; j <= rnd.Intn(8); j++ {
			p.Millis = append(p.Millis, verifkit.Pick(rnd, []int{0, 1, 2, 3, 10, 99, 1000, 5001, 20000, 3600000}))
		}
		policies[fmt.Sprint(p.Millis)] = p
	}

	for name, p := range policies {
		orig := append([]int{}, p.Millis...)
		ns := []int{-1, -100, math.MinInt, math.MaxInt, 1 << 40, 1000}
		for i := 0; i < len(p.Millis)+3; i++ {
			ns = append(ns, i)
		}
		largest := 0
		for _, m := range p.Millis {
			largest = max(largest, m)
		}
		for _, n := range ns {
			lo, hi := time.Duration(math.MaxInt64), time.Duration(0)
			for k := 0; k < verifkit.N(150, 3000); k++ {
				var d time.Duration
				if !rec.NoPanic("duration", fmt.Sprintf("%s try %d", name, n), func() { d = p.Duration(n) }) {
					break
				}
				lo, hi = min(lo, d), max(hi, d)
			}
			step := 0
			if len(p.Millis) > 0 {
				idx := min(max(n, 0), len(p.Millis)-1)
				step = p.Millis[idx]
			}
			s := time.Duration(step) * time.Millisecond
			rec.Case(true, fmt.Sprintf("%s#%d", name, n))
			rec.Count("delays", verifkit.N(150, 3000))
			if hi > 0 || step == 0 {
				// whole milliseconds are randomised so a half may be rounded down
				if lo < (s/2).Truncate(time.Millisecond) || hi > s+s/2 || hi < lo {
					rec.Violation("delay-bounds", "policy %s try %d waits %v to %v, its step is %v", name, n, lo, hi, s)
				}
				if hi > time.Duration(largest)*3*time.Millisecond/2 {
					rec.Violation("delay-maximum", "policy %s try %d waits %v", name, n, hi)
				}
			}
			if step >= 1000 && verifkit.N(150, 3000) >= 150 && hi-lo < s/10 {
				rec.Violation("delay-jitter", "policy %s try %d is not randomised: %v to %v", name, n, lo, hi)
			}
		}
		if !reflect.DeepEqual(orig, append([]int{}, p.Millis...)) {
			rec.Violation("policy-altered", "policy %s was altered", name)
		}
	}
}

// TestC30Waits observes the waits in virtual time
func TestC30Waits(t *testing.T) {
	rec := verifkit.New(t, "C30", "under a virtual clock waits last exactly as long as asked, interrupted ones return the context error at the moment of interruption, and retry loops stop at success or interruption with their delays in bounds")
	rnd := verifkit.Rand("c30-waits")

	for i := 0; i < verifkit.N(400, 5000); i++ {
		synctest.Test(t, func(t *testing.T) {
			d := time.Duration(rnd.Intn(5000)+1) * time.Millisecond
			cancelAt := time.Duration(rnd.Intn(8000)+1) * time.Millisecond
			if cancelAt == d {
				cancelAt++
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			use := rnd.Intn(3)
			if use > 0 {
				time.AfterFunc(cancelAt, cancel)
			} else {
				cancelAt = math.MaxInt64
			}
			start := time.Now()
			err := backoff.Default.Sleep(ctx, d)
			took := time.Since(start)
			rec.Case(true, fmt.Sprintf("sleep %v cancel %v", d, cancelAt))
			if cancelAt < d {
				rec.Count("interrupted", 1)
				if took != cancelAt || !errors.Is(err, context.Canceled) {
					rec.Violation("interrupt", "wait of %v interrupted at %v took %v: %v", d, cancelAt, took, err)
				}
			} else if took != d || err != nil {
				rec.Violation("wait", "wait of %v took %v: %v", d, took, err)
			}

			// cancelled before it starts
			done, c2 := context.WithCancel(context.Background())
			c2()
			start = time.Now()
			err = backoff.Default.Sleep(done, time.Hour)
			if err == nil || time.Since(start) != 0 {
				rec.Violation("interrupt", "wait that started interrupted took %v: %v", time.Since(start), err)
			}

			// a retry loop
			p := backoff.Policy{Millis: []int{100, 1000, 4000}}
			succeed := 1 + rnd.Intn(6)
			stopAt := time.Duration(rnd.Intn(30000)+1) * time.Millisecond
			ctx, cancel3 := context.WithCancel(context.Background())
			defer cancel3()
			interrupted := rnd.Intn(2) == 0
			if interrupted {
				time.AfterFunc(stopAt, cancel3)
			}
			start = time.Now()
			var at []time.Duration
			var seen []int
			err = p.For(ctx, func(try int) error {
				at = append(at, time.Since(start))
				seen = append(seen, try)
				if try == succeed {
					return nil
				}
				return fmt.Errorf("fail")
			})
			took = time.Since(start)
			for i, s := range seen {
				if s != i+1 {
					rec.Violation("retry-count", "tries are numbered %v", seen)
				}
			}
			if err == nil && len(seen) != succeed {
				rec.Violation("retry", "succeeded after %v tries, not %d", seen, succeed)
			}
			if err != nil && (!interrupted || !errors.Is(err, context.Canceled) || took != stopAt) {
				rec.Violation("retry-interrupt", "retries interrupted=%v at %v ended after %v: %v", interrupted, stopAt, took, err)
			}
			if len(seen) > succeed {
				rec.Violation("retry", "kept trying after success: %v", seen)
			}
			for i := 1; i < len(at); i++ {
				w := at[i] - at[i-1]
				// the n-th try is followed by the n-th or n-1-th delay of the policy
				hi := time.Duration(p.Millis[min(i, 2)]) * time.Millisecond * 3 / 2
				if w < 50*time.Millisecond || w > hi {
					rec.Violation("retry-delay", "wait %d was %v", i, w)
				}
			}

			// work that cancels its own context is not tried again, even when there is no delay to interrupt
			quick := p
			if rnd.Intn(3) > 0 {
				quick = backoff.Policy{Millis: make([]int, 1+rnd.Intn(3))}
			}
			stop := 1 + rnd.Intn(4)
			made := 0
			cctx, cancel4 := context.WithCancel(context.Background())
			err = quick.For(cctx, func(try int) error {
				made++
				if made == stop {
					cancel4()
				}
				return fmt.Errorf("fail")
			})
			if made != stop || !errors.Is(err, context.Canceled) {
				rec.Violation("retry-cancelled", "policy %v made %d tries when cancelled during try %d: %v", quick.Millis, made, stop, err)
			}
			cancel4()
			rec.Count("cancelled by the work", 1)

			// tries go on for as long as it takes
			if i%10 == 0 {
				many, made := 900+rnd.Intn(3000), 0
				err = quick.For(context.Background(), func(try int) error {
					made++
					if made == many {
						return nil
					}
					return fmt.Errorf("fail")
				})
				if err != nil || made != many {
					rec.Violation("retry-many", "policy %v ended after %d of %d tries: %v", quick.Millis, made, many, err)
				}
				rec.Count("many tries", 1)
			}

			// try sleeps
			n := rnd.Intn(5)
			start = time.Now()
			err = p.TrySleep(context.Background(), n)
			w := time.Since(start)
			s := time.Duration(p.Millis[min(n, 2)]) * time.Millisecond
			if err != nil || w < s/2 || w > s*3/2 {
				rec.Violation("try-wait", "try %d waited %v: %v", n, w, err)
			}
		})
	}
	rec.Require("interrupted", 50)
	rec.Require("cancelled by the work", 50)
	rec.Require("many tries", 5)
}

type answer struct {
	addrs []*net.SRV
	err   error
}

// TestC30Cache observes lookups in virtual time against a resolver whose every answer is different
func TestC30Cache(t *testing.T) {
	rec := verifkit.New(t, "C30", "under a virtual clock a lookup is answered from the cache exactly until the record's fixed age no matter how often it is used, then resolved anew; errors are never cached and names never mix")
	rnd := verifkit.Rand("c30-cache")
	rec.Require("hits", 500)
	rec.Require("misses", 500)
	rec.Require("errors", 50)

	for i := 0; i < verifkit.N(300, 5000); i++ {
		synctest.Test(t, func(t *testing.T) {
			maxAge := time.Duration(1+rnd.Intn(20)) * time.Second
			calls := map[string]int{}
			fail := false
			gen := 0
			resolver := func(service, proto, name string) (string, []*net.SRV, error) {
				calls[name]++
				if fail {
					return "", nil, fmt.Errorf("simulated")
				}
				gen++
				return fmt.Sprintf("c%d", gen), []*net.SRV{{Target: fmt.Sprintf("h%d.%s.", gen, name), Port: uint16(1000 + gen), Priority: 1}, {Target: fmt.Sprintf("second%d.", gen), Port: 1}}, nil
			}
			c := srvcache.New("verif", maxAge, resolver, quiet())

			type cached struct {
				at   time.Time
				gen  int
				srvs []string
			}
			known := map[string]*cached{}
			hist := []string{}

			for step := 0; step < 40; step++ {
				name := verifkit.Pick(rnd, []string{"a.example.net", "b.example.net"})
				// never right at the boundary
				time.Sleep(time.Duration(rnd.Intn(int(maxAge/time.Second)+1))*700*time.Millisecond + time.Millisecond)
				fail = rnd.Intn(6) == 0
				before := calls[name]
				var got []string
				var err error
				if rnd.Intn(2) == 0 {
					var cname string
					var addrs []*net.SRV
					cname, addrs, err = c.LookupSRV("", "", name)
					for _, a := range addrs {
						got = append(got, fmt.Sprintf("%s:%d", strings.TrimRight(a.Target, "."), a.Port))
					}
					if err == nil && known[name] == nil && cname != fmt.Sprintf("c%d", gen) {
						rec.Violation("cname", "cname %s", cname)
					}
				} else {
					var s srvcache.Servers
					s, err = c.LookupSrvServers("", "", name, "nats")
					if err == nil {
						got = s.HostPorts()
					} else if s == nil || s.Count() != 0 {
						rec.Violation("error-servers", "failed lookup returned servers")
					}
				}
				resolved := calls[name] > before
				k := known[name]
				fresh := k != nil && time.Since(k.at) < maxAge
				hist = append(hist, fmt.Sprintf("%v %s fail=%v resolved=%v fresh=%v", time.Since(time.Unix(946684800, 0)), name, fail, resolved, fresh))
				rec.Case(true, fmt.Sprintf("%d/%d %v", i, step, hist[len(hist)-1]))
				if fresh && resolved {
					rec.Violation("cache-early", "age %v: resolved again before its age\n%s", maxAge, strings.Join(hist, "\n"))
				}
				if k != nil && !fresh && time.Since(k.at) > maxAge && !resolved {
					rec.Violation("cache-stale", "age %v: answered from a record that is %v old\n%s", maxAge, time.Since(k.at), strings.Join(hist, "\n"))
				}
				if k == nil && !resolved {
					rec.Violation("cache-phantom", "answered %s without ever resolving it\n%s", name, strings.Join(hist, "\n"))
				}
				if resolved {
					if fail {
						rec.Count("errors", 1)
						if err == nil {
							rec.Violation("error-hidden", "resolver error was hidden")
						}
						delete(known, name)
						continue
					}
					rec.Count("misses", 1)
					known[name] = &cached{at: time.Now(), gen: gen, srvs: []string{fmt.Sprintf("h%d.%s:%d", gen, name, 1000+gen), fmt.Sprintf("second%d:1", gen)}}
				} else {
					rec.Count("hits", 1)
				}
				if err != nil {
					rec.Violation("error", "%v", err)
				}
				if known[name] != nil && !reflect.DeepEqual(got, known[name].srvs) {
					rec.Violation("cache-content", "%s answered %v not %v", name, got, known[name].srvs)
				}
			}
		})
	}
}

// TestC30Concurrent uses one cache from many goroutines, the race detector is the oracle for its safety
func TestC30Concurrent(t *testing.T) {
	rec := verifkit.New(t, "C30", "concurrent lookups race free, every answer belongs to the name asked")
	var mu sync.Mutex
	n := 0
	c := srvcache.New("verif", time.Microsecond, func(_, _, name string) (string, []*net.SRV, error) {
		mu.Lock()
		n++
		k := n
		mu.Unlock()
		if k%7 == 0 {
			return "", nil, fmt.Errorf("simulated")
		}
		return name, []*net.SRV{{Target: name, Port: uint16(k)}}, nil
	}, quiet())
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < verifkit.N(400, 8000); i++ {
				name := fmt.Sprintf("n%d", (i+g)%5)
				s, err := c.LookupSrvServers("", "", name, "x")
				rec.Case(true, fmt.Sprintf("%d %d %v", g, i, err == nil))
				if err == nil {
					for _, srv := range s.Servers() {
						if srv.Host() != name {
							rec.Violation("concurrent-mix", "asked %s got %s", name, srv.Host())
						}
					}
				}
			}
		}()
	}
	wg.Wait()
}

// TestC30Servers parses server lists
func TestC30Servers(t *testing.T) {
	rec := verifkit.New(t, "C30", "parsed server lists keep order, host, port and scheme of what was written")
	rnd := verifkit.Rand("c30-servers")
	for i := 0; i < verifkit.N(4000, 60000); i++ {
		var in, hp, urls []string
		scheme := verifkit.Pick(rnd, []string{"nats", "nats", "tls", ""})
		want := true
		for j := rnd.Intn(5); j > 0; j-- {
			h := verifkit.Pick(rnd, []string{"a.example.net", "b1", "10.1.2.3", "c-d.example.net", "localhost"})
			p := 1 + rnd.Intn(65535)
			ps := fmt.Sprint(p)
			if rnd.Intn(12) == 0 {
				ps = verifkit.Pick(rnd, []string{"65536", "70000", "-1", "x", "99999999999"})
				want = false
			}
			s := h + ":" + ps
			sc := scheme
			switch rnd.Intn(6) {
			case 0, 1:
				sc = verifkit.Pick(rnd, []string{"nats", "tls", "ws", "wss"})
				s = sc + "://" + s
			case 2:
				s = "  " + s + "\t"
			case 3:
				if rnd.Intn(3) == 0 {
					s = h
					want = false
				}
			}
			if sc == "" {
				want = false
			}
			in = append(in, s)
			hp = append(hp, h+":"+ps)
			urls = append(urls, sc+"://"+h+":"+ps)
		}
		id := fmt.Sprintf("%q %s", in, scheme)
		rec.Case(len(in) > 0, id)
		rec.NoPanic("servers", id, func() {
			s, err := srvcache.StringHostsToServers(in, scheme)
			if (err == nil) != want {
				rec.Violation("servers", "parsing %s: %v", id, err)
				return
			}
			if err != nil {
				rec.Count("refused", 1)
				return
			}
			rec.Count("parsed", 1)
			if s.Count() != len(in) {
				rec.Violation("servers-count", "parsing %s gave %d servers", id, s.Count())
			}
			if strings.Join(s.HostPorts(), " ") != strings.Join(hp, " ") || strings.Join(s.Strings(), " ") != strings.Join(urls, " ") {
				rec.Violation("servers-content", "parsing %s gave %v %v", id, s.HostPorts(), s.Strings())
			}
			u, err := s.URLs()
			if err != nil {
				rec.Violation("servers-urls", "%s: %v", id, err)
			}
			for k := range u {
				if u[k].String() != urls[k] {
					rec.Violation("servers-urls", "%s: %v", id, u)
				}
			}
			k := 0
			s.Each(func(srv srvcache.Server) {
				if k < len(urls) && srv.String() != urls[k] {
					rec.Violation("servers-each", "%s: %v at %d", id, srv, k)
				}
				k++
			})
			if k != len(in) {
				rec.Violation("servers-each", "%s: visited %d", id, k)
			}
		})
	}
}
