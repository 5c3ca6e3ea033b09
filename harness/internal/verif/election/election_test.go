// Package election watches candidates compete over leases with a virtual clock
package election

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/choria-io/go-choria/backoff"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	election "github.com/choria-io/go-choria/providers/election/streams"
	"github.com/nats-io/nats.go"
)

// entry is the last value of a key
type entry struct {
	val     string
	seq     uint64
	at      time.Time
	deleted bool
}

// bucket models a key value bucket whose values expire, TestModel compares it to the real one
type bucket struct {
	mu        sync.Mutex
	ttl       time.Duration
	seq       uint64
	keys      map[string]*entry
	statusErr int
}

func (b *bucket) live(key string) *entry {
	e := b.keys[key]
	if e == nil || time.Since(e.at) >= b.ttl {
		return nil
	}
	return e
}

func (b *bucket) put(key, val string, deleted bool) uint64 {
	b.seq++
	b.keys[key] = &entry{val: val, seq: b.seq, at: time.Now(), deleted: deleted}
	return b.seq
}

func (b *bucket) create(key, val string) (uint64, error) {
	if e := b.live(key); e != nil && !e.deleted {
		return 0, nats.ErrKeyExists
	}
	return b.put(key, val, false), nil
}

func (b *bucket) update(key, val string, last uint64) (uint64, error) {
	seq := uint64(0)
	if e := b.live(key); e != nil {
		seq = e.seq
	}
	if seq != last {
		return 0, fmt.Errorf("wrong last sequence: %d", seq)
	}
	return b.put(key, val, false), nil
}

type status struct {
	nats.KeyValueStatus
	ttl time.Duration
}

func (s *status) TTL() time.Duration { return s.ttl }

// cand is a candidate as seen by the monitor
type cand struct {
	nats.KeyValue // everything the election is not supposed to use

	s    *scenario
	name string
	key  string
	el   interface {
		Start(context.Context) error
		Stop()
		IsLeader() bool
		State() election.State
	}

	// all guarded by the scenario
	running   bool
	acquired  bool // holds the lease as far as it was told
	renewed   bool
	notified  bool
	mustLose  bool
	inOp      bool
	lastOp    time.Time
	wins      int
	losses    int
	campaigns int
	stopped   bool
	stoppedAt time.Time
}

// scenario is candidates over one bucket
type scenario struct {
	mu       sync.Mutex
	v        *verifkit.Rec
	r        *rand.Rand
	b        *bucket
	cands    []*cand
	maxDelay time.Duration
	faults   int // percent of operations that fail or are slow
	fixed    bool
	desc     string
	started  time.Time
	trace    []string
	progress *atomic.Int64
}

func (s *scenario) note(c *cand, f string, a ...any) {
	s.progress.Add(1)
	s.trace = append(s.trace, fmt.Sprintf("%v %s: %s", time.Since(s.started).Round(time.Millisecond), c.name, fmt.Sprintf(f, a...)))
	if len(s.trace) > 60 {
		s.trace = s.trace[1:]
	}
}

// failed is set by violations other than the known one, which is in every scenario
var failed atomic.Bool

func (s *scenario) bad(key string, f string, a ...any) {
	if key != "loss-not-reported-at-stop" {
		failed.Store(true)
	}
	s.v.Violation(key, "%s\nin %s\n%v", fmt.Sprintf(f, a...), s.desc, s.trace)
}

// op runs an operation against the bucket with the faults networks have
func (c *cand) op(what string, f func() (uint64, error)) (seq uint64, err error) {
	s := c.s
	s.mu.Lock()
	if !c.running {
		s.bad("campaign after end", "%s did a %s after its campaign ended", c.name, what)
	}
	if c.mustLose {
		s.bad("lost unreported", "%s continued with a %s without reporting that it lost leadership", c.name, what)
		c.mustLose = false
	}
	if c.stopped && time.Since(c.stoppedAt) > time.Millisecond {
		s.bad("campaign after stop", "%s did a %s %v after it was stopped", c.name, what, time.Since(c.stoppedAt))
	}
	c.inOp = true
	var before, after time.Duration
	failBefore, failAfter := false, false
	if s.r.Intn(100) < s.faults {
		switch s.r.Intn(6) {
		case 0:
			failBefore = true
		case 1:
			failAfter = true
		case 2:
			before = time.Duration(s.r.Int63n(int64(s.maxDelay)))
		case 3:
			after = time.Duration(s.r.Int63n(int64(s.maxDelay)))
		case 4:
			after, failAfter = s.maxDelay, true
		case 5:
			before, failBefore = s.maxDelay, true
		}
		s.v.Count("faults", 1)
	}
	s.mu.Unlock()
	if before > 0 {
		time.Sleep(before)
	}
	if failBefore {
		err = nats.ErrTimeout
	} else {
		s.mu.Lock()
		seq, err = f()
		s.mu.Unlock()
		if failAfter {
			seq, err = 0, nats.ErrTimeout
		}
	}
	if after > 0 {
		time.Sleep(after)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	c.inOp = false
	c.lastOp = time.Now()
	s.note(c, "%s: %v %v", what, seq, err)
	return seq, err
}

func (c *cand) Status() (nats.KeyValueStatus, error) {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.s.b.statusErr > 0 {
		c.s.b.statusErr--
		return nil, errors.New("simulated")
	}
	return &status{ttl: c.s.b.ttl}, nil
}

func (c *cand) Create(key string, value []byte) (uint64, error) {
	seq, err := c.op("create", func() (uint64, error) { return c.s.b.create(key, string(value)) })
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.acquired {
		c.s.bad("create by leader", "%s created its lease while leading", c.name)
	}
	if err == nil {
		c.acquired, c.renewed = true, false
	}
	return seq, err
}

func (c *cand) Update(key string, value []byte, last uint64) (uint64, error) {
	seq, err := c.op("update", func() (uint64, error) { return c.s.b.update(key, string(value), last) })
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if !c.acquired {
		c.s.bad("update by candidate", "%s updated the lease without leading", c.name)
	}
	if err == nil {
		c.renewed = true
		return seq, err
	}
	c.mustLose = true
	return seq, err
}

func (c *cand) won() {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	s.note(c, "won")
	s.v.Count("wins", 1)
	c.wins++
	if c.notified {
		s.bad("won twice", "%s was told twice that it won without losing", c.name)
	}
	if !c.acquired || !c.renewed || c.mustLose {
		s.bad("won without lease", "%s was told it won without acquiring and keeping the lease", c.name)
	}
	if !c.running {
		s.bad("won after end", "%s was told it won after its campaign ended", c.name)
	}
	c.notified = true
	for _, o := range s.cands {
		if o != c && o.key == c.key && o.notified {
			s.bad("two leaders", "%s was told it won while %s leads", c.name, o.name)
		}
	}
}

func (c *cand) lost() {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	s.note(c, "lost")
	s.v.Count("losses", 1)
	c.losses++
	if !c.acquired {
		s.bad("lost without lease", "%s was told it lost what it did not have", c.name)
	}
	if c.mustLose && !c.lastOp.Equal(time.Now()) {
		s.bad("lost late", "%s was told it lost %v after it was known", c.name, time.Since(c.lastOp))
	}
	if !c.mustLose && !(c.stopped && !time.Now().Before(c.stoppedAt)) {
		s.bad("lost without cause", "%s was told it lost a lease that was not refused", c.name)
	}
	c.notified, c.acquired, c.mustLose = false, false, false
}

func (c *cand) campaign(st election.State) {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	s.note(c, "campaigns as %s", st)
	if c.campaigns == 0 && c.stopped && !time.Now().Before(c.stoppedAt) {
		s.bad("campaign after stop", "%s was stopped before its first campaign but does campaign", c.name)
	}
	c.campaigns++
	c.lastOp = time.Now()
	if c.mustLose {
		s.bad("lost unreported", "%s campaigns without reporting that it lost leadership", c.name)
		c.mustLose = false
	}
	if c.acquired != (st == election.LeaderState) {
		s.bad("campaign state", "%s campaigned as %s with lease %v", c.name, st, c.acquired)
	}
	if !c.running {
		s.bad("campaign after end", "%s campaigned after it ended", c.name)
	}
}

// run is one campaign of a candidate until stopped, it returns when Start did
func (c *cand) run(how int, after time.Duration) {
	s := c.s
	ctx, cancel := context.WithCancel(context.Background())
	if how == 2 {
		ctx, cancel = context.WithTimeout(context.Background(), after)
	}
	defer cancel()
	ended := make(chan error, 1)
	s.mu.Lock()
	c.running, c.stopped, c.acquired, c.mustLose = true, false, false, false
	c.campaigns = 0
	if how == 2 {
		c.stopped, c.stoppedAt = true, time.Now().Add(after)
	}
	s.note(c, "starts")
	s.mu.Unlock()
	go func() { ended <- c.el.Start(ctx) }()

	select {
	case err := <-ended:
		if how != 2 || time.Now().Before(c.stoppedAt) {
			s.mu.Lock()
			s.bad("ended early", "%s ended its campaign by itself: %v", c.name, err)
			c.running = false
			s.mu.Unlock()
			return
		}
		ended <- err
	case <-time.After(after):
	}
	s.mu.Lock()
	if how != 2 {
		c.stopped, c.stoppedAt = true, time.Now()
	}
	s.note(c, "is stopped (%d)", how)
	twice := c.campaigns%2 == 0
	s.mu.Unlock()
	switch how {
	case 0:
		c.el.Stop()
		if twice {
			c.el.Stop()
		}
	case 1:
		cancel()
	}
	select {
	case <-ended:
	case <-time.After(s.maxDelay + time.Second):
		s.mu.Lock()
		s.bad("stop", "%s did not stop within %v", c.name, s.maxDelay+time.Second)
		s.mu.Unlock()
		<-ended
	}
	time.Sleep(time.Millisecond)
	leads, state := c.el.IsLeader(), c.el.State()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.note(c, "ended")
	s.v.Count("stops", 1)
	if c.notified {
		s.bad("loss-not-reported-at-stop", "%s ended its campaign without being told that it lost leadership", c.name)
		c.notified = false
	}
	if leads || state == election.LeaderState {
		s.bad("leader after stop", "%s is %s, leader %v, after it ended", c.name, state, leads)
	}
	c.running, c.acquired, c.mustLose = false, false, false
}

// leaders of a key that know they are
func (s *scenario) leaders(key string) (n int, name string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.cands {
		if c.key == key && c.notified {
			n++
			name = c.name
		}
	}
	return n, name
}

// sample compares what candidates say about themselves to what they were told
func (s *scenario) sample() {
	for _, c := range s.cands {
		s.mu.Lock()
		quiet := c.running && !(c.stopped && !time.Now().Before(c.stoppedAt)) && !c.inOp && !c.lastOp.IsZero() && time.Since(c.lastOp) > 400*time.Millisecond && !c.mustLose
		want, acq := c.notified, c.acquired
		s.mu.Unlock()
		if !quiet {
			continue
		}
		is, st := c.el.IsLeader(), c.el.State()
		s.mu.Lock()
		if is != want {
			s.bad("is leader", "%s says leader %v but was told %v", c.name, is, want)
		}
		if (st == election.LeaderState) != acq {
			s.bad("state", "%s says it is %s with lease %v", c.name, st, acq)
		}
		s.mu.Unlock()
		s.v.Count("samples", 1)
	}
}

func newScenario(v *verifkit.Rec, r *rand.Rand, progress *atomic.Int64) *scenario {
	s := &scenario{v: v, r: r, progress: progress, started: time.Now(), b: &bucket{keys: map[string]*entry{}}}
	s.b.ttl = verifkit.Pick(r, []time.Duration{4 * time.Second, 5 * time.Second, 10 * time.Second, 20 * time.Second, time.Minute})
	s.maxDelay = s.b.ttl * 2 / 5
	s.fixed = r.Intn(3) > 0
	return s
}

func (s *scenario) candidate(name, key string) *cand {
	c := &cand{s: s, name: name, key: key}
	opts := []election.Option{election.OnWon(c.won), election.OnLost(c.lost), election.OnCampaign(c.campaign)}
	if !s.fixed {
		opts = append(opts, election.WithBackoff(backoff.Policy{Millis: []int{500, 750, 1000, 1500}}))
	}
	el, err := election.NewElection(name, key, c, opts...)
	if err != nil {
		s.bad("new", "%v", err)
	}
	c.el = el
	s.cands = append(s.cands, c)
	return c
}

// watchdog reports code that blocks, virtual time does not advance while it does
func watchdog(v *verifkit.Rec, progress *atomic.Int64, where *atomic.Value) func() {
	done := make(chan struct{})
	go func() {
		last, at := progress.Load(), time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			if p := progress.Load(); p != last {
				last, at = p, time.Now()
				continue
			}
			if time.Since(at) > 60*time.Second {
				v.Violation("blocked", "candidates did not progress for a minute: %v", where.Load())
				os.Exit(1)
			}
		}
	}()
	return func() { close(done) }
}

// TestC18Elections runs candidates that come and go over failing and slow networks
func TestC18Elections(t *testing.T) {
	v := verifkit.New(t, "C18", "at most one candidate leads, wins and losses are reported in order and stopping ends and reports")
	for _, k := range []string{"wins", "losses", "stops", "samples", "faults", "tampered"} {
		v.Require(k, 50)
	}
	progress, where := &atomic.Int64{}, &atomic.Value{}
	defer watchdog(v, progress, where)()
	n := verifkit.N(400, 8000)
	for i := 0; i < n && !failed.Load(); i++ {
		r := verifkit.Rand(fmt.Sprintf("elections %d", i))
		synctest.Test(t, func(t *testing.T) {
			s := newScenario(v, r, progress)
			s.faults = verifkit.Pick(r, []int{0, 0, 2, 10, 30, 60})
			tamper := s.faults == 0 && s.fixed && r.Intn(2) == 0
			churn := r.Intn(3) > 0
			ncand := 1 + r.Intn(6)
			s.desc = fmt.Sprintf("elections %d: ttl %v, %d%% faults, fixed %v, tamper %v, churn %v, candidates %d", i, s.b.ttl, s.faults, s.fixed, tamper, churn, ncand)
			where.Store(s.desc)
			v.Case(true, s.desc)
			end := 40 * s.b.ttl
			wg := sync.WaitGroup{}
			for j := 0; j < ncand*2; j++ {
				key := "a"
				if j >= ncand {
					key = "b"
				}
				c := s.candidate(fmt.Sprintf("%s%d", key, j), key)
				var plan []time.Duration
				var hows []int
				if churn && key == "a" {
					left := end
					for left > 0 {
						d := time.Duration(1 + r.Int63n(int64(end/4)))
						if r.Intn(4) == 0 {
							d = time.Duration(1 + r.Int63n(int64(6*time.Second)))
						}
						plan = append(plan, min(d, left))
						hows = append(hows, r.Intn(3))
						left -= d
					}
				} else {
					plan, hows = []time.Duration{end}, []int{r.Intn(2)}
				}
				wg.Go(func() {
					for k, d := range plan {
						c.run(hows[k], d)
						time.Sleep(time.Duration(1+k) * 777 * time.Millisecond)
					}
				})
			}
			stop := make(chan struct{})
			if tamper {
				go func() {
					for k := 0; ; k++ {
						s.mu.Lock()
						pause := s.b.ttl*2 + time.Duration(s.r.Int63n(int64(s.b.ttl)))
						s.mu.Unlock()
						select {
						case <-stop:
							return
						case <-time.After(pause):
						}
						s.mu.Lock()
						s.b.put("a", "", k%3 == 0)
						s.mu.Unlock()
						v.Count("tampered", 1)
					}
				}()
			}
			if s.fixed {
				go func() {
					// never at the same instant as a campaign: asking blocks while one runs, and with that virtual time
					time.Sleep(500*time.Microsecond + 7)
					for {
						select {
						case <-stop:
							return
						case <-time.After(137 * time.Millisecond):
							s.sample()
						}
					}
				}()
			}
			// without faults the other election has one leader which remains
			time.Sleep(min(end-time.Second, 6*time.Second+2*s.b.ttl+time.Second))
			if s.faults == 0 {
				if n, _ := s.leaders("b"); n != 1 {
					s.mu.Lock()
					s.bad("no leader", "undisturbed election has %d leaders after %v", n, time.Since(s.started))
					s.mu.Unlock()
				}
				time.Sleep(end - time.Since(s.started) - time.Second)
				s.mu.Lock()
				wins, losses := 0, 0
				for _, c := range s.cands {
					if c.key == "b" {
						wins += c.wins
						losses += c.losses
					}
				}
				if wins != 1 || losses != 0 {
					s.bad("unstable", "undisturbed election was won %d and lost %d times", wins, losses)
				}
				s.mu.Unlock()
			}
			wg.Wait()
			close(stop)
		})
	}
}

// TestC18Recovery checks that elections get a leader again once the network recovers
func TestC18Recovery(t *testing.T) {
	v := verifkit.New(t, "C18", "elections get exactly one leader when the network and the lease allow it")
	v.Require("recoveries", 30)
	progress, where := &atomic.Int64{}, &atomic.Value{}
	defer watchdog(v, progress, where)()
	n := verifkit.N(100, 3000)
	for i := 0; i < n && !failed.Load(); i++ {
		r := verifkit.Rand(fmt.Sprintf("recovery %d", i))
		synctest.Test(t, func(t *testing.T) {
			s := newScenario(v, r, progress)
			s.desc = fmt.Sprintf("recovery %d: ttl %v fixed %v", i, s.b.ttl, s.fixed)
			where.Store(s.desc)
			v.Case(true, s.desc)
			wg := sync.WaitGroup{}
			round := 6*s.b.ttl + 20*time.Second
			for j := 0; j < 1+r.Intn(4); j++ {
				c := s.candidate(fmt.Sprintf("a%d", j), "a")
				wg.Go(func() { c.run(0, 4*round+time.Second) })
			}
			for k := 0; k < 4; k++ {
				s.mu.Lock()
				s.faults = 100
				pause := time.Duration(s.r.Int63n(int64(2 * s.b.ttl)))
				s.mu.Unlock()
				time.Sleep(pause)
				s.mu.Lock()
				s.faults = 0
				s.mu.Unlock()
				// what is in flight ends, the lease expires, the next campaign wins it and the one after that reports it
				time.Sleep(time.Until(s.started.Add(time.Duration(k+1) * round)))
				n, _ := s.leaders("a")
				s.mu.Lock()
				if n != 1 {
					s.bad("no recovery", "there are %d leaders long after the network recovered", n)
				}
				s.mu.Unlock()
				v.Count("recoveries", 1)
			}
			wg.Wait()
		})
	}
}

// TestC18Start checks elections that can not be started and those stopped while starting
func TestC18Start(t *testing.T) {
	v := verifkit.New(t, "C18", "elections that can not start say so and can be started later")
	progress, where := &atomic.Int64{}, &atomic.Value{}
	defer watchdog(v, progress, where)()
	for i := 0; i < 60 && !failed.Load(); i++ {
		r := verifkit.Rand(fmt.Sprintf("start %d", i))
		synctest.Test(t, func(t *testing.T) {
			s := newScenario(v, r, progress)
			good := s.b.ttl
			kind := i % 4
			s.desc = fmt.Sprintf("start %d: kind %d", i, kind)
			where.Store(s.desc)
			v.Case(true, s.desc)
			c := s.candidate("a0", "a")
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			res := make(chan error, 1)
			switch kind {
			case 0, 1:
				s.b.ttl = verifkit.Pick(r, []time.Duration{time.Millisecond, 999 * time.Millisecond, 3 * time.Second, time.Hour + time.Second})
				go func() { res <- c.el.Start(ctx) }()
				select {
				case err := <-res:
					if err == nil {
						s.bad("unusable", "started with a lease of %v", s.b.ttl)
					}
				case <-time.After(time.Minute):
					s.bad("unusable", "did not refuse a lease of %v", s.b.ttl)
				}
			case 2, 3:
				// the bucket is not reachable yet
				s.b.statusErr = 1000000
				go func() { res <- c.el.Start(ctx) }()
				time.Sleep(time.Duration(r.Int63n(int64(30 * time.Second))))
				if kind == 2 {
					c.el.Stop()
				} else {
					cancel()
				}
				select {
				case <-res:
				case <-time.After(10 * time.Second):
					s.bad("stop", "did not stop while waiting for the bucket")
					cancel()
					<-res
				}
				s.b.statusErr = 0
			}
			time.Sleep(time.Millisecond)
			progress.Add(1)
			if c.el.IsLeader() {
				s.bad("is leader", "leader without starting")
			}
			c.el.Stop()
			// a new object since the interval is kept, and the same one where it was usable
			if kind < 2 {
				s.b.ttl = good
				c = s.candidate("a1", "a")
			}
			s.b.statusErr = r.Intn(3)
			wg := sync.WaitGroup{}
			wg.Go(func() { c.run(r.Intn(2), 8*s.b.ttl+20*time.Second) })
			time.Sleep(7*s.b.ttl + 20*time.Second)
			if n, _ := s.leaders("a"); n != 1 {
				s.mu.Lock()
				s.bad("no leader", "a single candidate does not lead")
				s.mu.Unlock()
			}
			wg.Wait()
			v.Count("starts", 1)
		})
	}
}

// TestC18Model compares the bucket model to the real thing
func TestC18Model(t *testing.T) {
	v := verifkit.New(t, "C18", "the model of the lease bucket behaves like Choria Streams")
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	srv, err := vfake.StartNATS(dir, nil)
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer srv.Stop()
	nc, err := srv.Connect()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	defer nc.Close()
	js, err := nc.JetStream()
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	kv, err := js.CreateKeyValue(&nats.KeyValueConfig{Bucket: "LE", TTL: time.Hour})
	if err != nil {
		v.Inconclusive("%v", err)
		return
	}
	b := &bucket{ttl: time.Hour, keys: map[string]*entry{}}
	r := verifkit.Rand("model")
	for i := 0; i < 300; i++ {
		key := verifkit.Pick(r, []string{"a", "b", "c.d"})
		var seq, want uint64
		var err, wanterr error
		what := r.Intn(5)
		switch what {
		case 0, 1:
			seq, err = kv.Create(key, []byte("x"))
			want, wanterr = b.create(key, "x")
			if wanterr == nil && err == nil {
				// creating over a deletion is a failed and a good publish
				b.seq, b.keys[key].seq, want = seq, seq, seq
			}
		case 2, 3:
			last := uint64(r.Intn(int(b.seq) + 2))
			if e := b.keys[key]; e != nil && r.Intn(2) == 0 {
				last = e.seq
			}
			if last == 0 {
				continue
			}
			seq, err = kv.Update(key, []byte("x"), last)
			want, wanterr = b.update(key, "x", last)
		case 4:
			if r.Intn(2) == 0 {
				seq, err = kv.Put(key, nil)
				want = b.put(key, "", false)
			} else {
				err = kv.Delete(key)
				b.put(key, "", true)
			}
		}
		if errors.Is(err, nats.ErrTimeout) {
			v.Inconclusive("%v", err)
			return
		}
		v.Case(true, fmt.Sprintf("%d %s %v", what, key, err == nil))
		if (err == nil) != (wanterr == nil) || seq != want {
			v.Inconclusive("model of the bucket is wrong: operation %d gave %d %v rather than %d %v", what, seq, err, want, wanterr)
			return
		}
	}
}
