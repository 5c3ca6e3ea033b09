// Package governor watches workers compete for the slots of governors
package governor

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/choria-io/go-choria/backoff"
	"github.com/choria-io/go-choria/internal/verifkit"
	"github.com/choria-io/go-choria/internal/verifkit/vfake"
	governor "github.com/choria-io/go-choria/providers/governor/streams"
	"github.com/nats-io/nats.go"
)

const wait = 60 * time.Second

func start(v *verifkit.Rec) (srv *vfake.NATS, connect func() *nats.Conn, stop func()) {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		v.Inconclusive("%v", err)
		return nil, nil, func() {}
	}
	srv, err = vfake.StartNATS(dir, nil)
	if err != nil {
		v.Inconclusive("%v", err)
		os.RemoveAll(dir)
		return nil, nil, func() {}
	}
	var conns []*nats.Conn
	return srv, func() *nats.Conn {
			nc, err := srv.Connect()
			if err != nil {
				panic(err)
			}
			conns = append(conns, nc)
			return nc
		}, func() {
			for _, c := range conns {
				c.Close()
			}
			srv.Stop()
			os.RemoveAll(dir)
		}
}

// slots watches one governor
type slots struct {
	mu      sync.Mutex
	v       *verifkit.Rec
	name    string
	limit   int
	mgr     governor.Manager
	holders map[uint64]string
	peak    int
	grants  int
	unclear int // attempts whose outcome the network did not tell, these can hold a slot
}

func (s *slots) granted(seq uint64, who string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.grants++
	if o, ok := s.holders[seq]; ok {
		s.v.Violation("shared slot", "%s and %s both hold slot %d of %s", o, who, seq, s.name)
	}
	s.holders[seq] = who
	s.peak = max(s.peak, len(s.holders))
	if len(s.holders) > s.limit {
		s.v.Violation("capacity", "%d workers hold slots of %s with capacity %d: %v", len(s.holders), s.name, s.limit, s.holders)
	}
}

func (s *slots) leaving(seq uint64) {
	s.mu.Lock()
	delete(s.holders, seq)
	s.mu.Unlock()
}

// drained checks that nothing is held once all finished
func (s *slots) drained(extra int) {
	active, err := s.mgr.Active()
	if err != nil {
		s.v.Inconclusive("%v", err)
		return
	}
	s.v.Check(int(active) >= extra && int(active) <= extra+s.unclear, "released", "%d slots of %s are used after all workers finished, expected %d (%d outcomes were unclear)", active, s.name, extra, s.unclear)
}

// TestC19Workers has many workers compete for few slots
func TestC19Workers(t *testing.T) {
	v := verifkit.New(t, "C19", "no more workers than the capacity hold slots, slots are real, released and reused")
	v.Require("grants", 300)
	srv, connect, stop := start(v)
	defer stop()
	if srv == nil {
		return
	}
	rounds := verifkit.N(6, 120)
	for round := 0; round < rounds && !v.Failed(); round++ {
		r := verifkit.Rand(fmt.Sprintf("governor %d", round))
		conns := []*nats.Conn{connect(), connect(), connect()}
		var govs []*slots
		for i := 0; i < 3; i++ {
			s := &slots{v: v, name: fmt.Sprintf("G%d_%d", round, i), limit: 1 + r.Intn(6), holders: map[uint64]string{}}
			mgr, err := governor.NewManager(s.name, uint64(s.limit), time.Hour, 1, conns[0], true, governor.WithSubject("gov."+s.name))
			if err != nil {
				v.Violation("manager", "%v", err)
				return
			}
			v.Check(mgr.Limit() == int64(s.limit) && mgr.MaxAge() == time.Hour, "manager", "limit %d and age %v rather than %d and 1h", mgr.Limit(), mgr.MaxAge(), s.limit)
			s.mgr = mgr
			govs = append(govs, s)
		}
		keep := make([]int, len(govs))
		var kmu sync.Mutex
		wg := sync.WaitGroup{}
		for w := 0; w < 24; w++ {
			wr := rand.New(rand.NewSource(r.Int63()))
			s := govs[wr.Intn(len(govs))]
			opts := []governor.Option{governor.WithSubject("gov." + s.name), governor.WithInterval(time.Duration(2+wr.Intn(10)) * time.Millisecond)}
			if wr.Intn(2) == 0 {
				opts = append(opts, governor.WithBackoff(backoff.Policy{Millis: []int{2, 5, 10}}))
			}
			g := governor.New(s.name, verifkit.Pick(wr, conns), opts...)
			who := fmt.Sprintf("worker %d", w)
			wg.Go(func() {
				var stale []governor.Finisher
				for k := 0; k < 4; k++ {
					id := fmt.Sprintf("%s round %d", who, k)
					ctx, cancel := context.WithTimeout(context.Background(), wait)
					fin, seq, err := g.Start(ctx, id)
					gaveup := ctx.Err() != nil
					cancel()
					if err != nil {
						s.mu.Lock()
						s.unclear++
						s.mu.Unlock()
						if gaveup {
							v.Violation("progress", "%s got no slot of %s in %v while others come and go: %v", id, s.name, wait, err)
							return
						}
						v.Count("errors", 1)
						continue
					}
					s.granted(seq, id)
					v.Count("grants", 1)
					v.Case(true, fmt.Sprintf("%s %d/%d", s.name, seq, s.limit))
					if wr.Intn(4) == 0 {
						m, err := s.mgr.Stream().ReadMessage(seq)
						if v.Check(err == nil, "slot", "slot %d of %s can not be read: %v", seq, s.name, err) {
							v.Check(string(m.Data) == id, "slot", "slot %d is of %q rather than %q", seq, m.Data, id)
						}
					}
					if wr.Intn(4) == 0 {
						// a busy worker does not get another slot
						ctx, cancel := context.WithTimeout(context.Background(), wait)
						_, _, err := g.Start(ctx, id+" again")
						cancel()
						v.Check(err != nil, "twice", "%s obtained two slots", id)
						v.Count("second starts", 1)
					}
					time.Sleep(time.Duration(wr.Intn(8)) * time.Millisecond)
					if len(stale) > 0 && wr.Intn(3) == 0 {
						// what was finished earlier does not affect this
						v.Count("stale finishers", 1)
						for _, f := range stale {
							f()
						}
						_, err := s.mgr.Stream().ReadMessage(seq)
						v.Check(err == nil, "stale finisher", "slot %d of %s was released by another finisher: %v", seq, s.name, err)
					}
					s.leaving(seq)
					if wr.Intn(3) == 0 {
						both := sync.WaitGroup{}
						errs := make([]error, 3)
						for i := range errs {
							both.Go(func() { errs[i] = fin() })
						}
						both.Wait()
						err = errors.Join(errs...)
					} else {
						err = fin()
					}
					if !v.Check(err == nil || errors.Is(err, nats.ErrTimeout) || errors.Is(err, context.DeadlineExceeded), "finish", "%s: %v", id, err) || err != nil {
						kmu.Lock()
						s.unclear++
						kmu.Unlock()
					}
					stale = append(stale, fin)
				}
			})
		}
		wg.Wait()
		for i, s := range govs {
			s.drained(keep[i])
			v.Check(len(s.holders) == 0, "bookkeeping", "%v", s.holders)
			v.Count(fmt.Sprintf("peak %d of %d", s.peak, s.limit), 1)
			s.mgr.Stream().Delete()
		}
		for _, c := range conns {
			c.Close()
		}
	}
}

// TestC19GivingUp has workers give up while all slots are taken
func TestC19GivingUp(t *testing.T) {
	v := verifkit.New(t, "C19", "workers that give up hold nothing and can try again")
	v.Require("gave up", 40)
	srv, connect, stop := start(v)
	defer stop()
	if srv == nil {
		return
	}
	nc := connect()
	for round := 0; round < verifkit.N(5, 60) && !v.Failed(); round++ {
		r := verifkit.Rand(fmt.Sprintf("give up %d", round))
		s := &slots{v: v, name: fmt.Sprintf("U%d", round), limit: 1 + r.Intn(5), holders: map[uint64]string{}}
		mgr, err := governor.NewManager(s.name, uint64(s.limit), time.Hour, 1, nc, true, governor.WithSubject("gov."+s.name))
		if err != nil {
			v.Violation("manager", "%v", err)
			return
		}
		s.mgr = mgr
		mk := func() governor.Governor {
			return governor.New(s.name, nc, governor.WithSubject("gov."+s.name), governor.WithInterval(5*time.Millisecond))
		}
		var fins []governor.Finisher
		for i := 0; i < s.limit; i++ {
			fin, seq, err := mk().Start(context.Background(), "holder")
			if err != nil {
				v.Inconclusive("%v", err)
				return
			}
			s.granted(seq, fmt.Sprintf("holder %d", i))
			fins = append(fins, fin)
		}
		var late []governor.Governor
		wg := sync.WaitGroup{}
		for i := 0; i < 10; i++ {
			g := mk()
			late = append(late, g)
			d := time.Duration(r.Intn(200)) * time.Millisecond
			cancelled := r.Intn(2) == 0
			wg.Go(func() {
				ctx, cancel := context.WithTimeout(context.Background(), d)
				if cancelled {
					cancel()
					ctx, cancel = context.WithCancel(context.Background())
					time.AfterFunc(d, cancel)
				}
				defer cancel()
				began := time.Now()
				_, seq, err := g.Start(ctx, "late")
				if !v.Check(err != nil, "capacity", "slot %d was granted by a full governor of %d", seq, s.limit) {
					return
				}
				v.Check(seq == 0, "slot", "slot %d after giving up", seq)
				v.Count("gave up", 1)
				if time.Since(began) > d+wait {
					v.Violation("give up", "gave up %v after it should", time.Since(began)-d)
				}
			})
		}
		wg.Wait()
		active, err := mgr.Active()
		if err != nil {
			v.Inconclusive("%v", err)
			return
		}
		v.Check(int(active) == s.limit, "gave up", "%d slots are used by %d holders after others gave up", active, s.limit)
		v.Case(true, fmt.Sprintf("limit %d", s.limit))

		// capacity can be raised at once
		extra := 1 + r.Intn(3)
		if r.Intn(2) == 0 {
			if err := mgr.SetLimit(uint64(s.limit + extra)); err != nil {
				v.Violation("limit", "%v", err)
				return
			}
		} else {
			extra = s.limit
			for _, f := range fins {
				v.Check(f() == nil, "finish", "could not finish")
			}
			fins = nil
		}
		mgr2, err := governor.NewManager(s.name, 0, 0, 1, nc, false)
		if err != nil {
			v.Violation("manager", "%v", err)
			return
		}
		v.Check(mgr2.Limit() == mgr.Limit() && mgr2.MaxAge() == time.Hour, "manager", "looking at a governor changed it to %d %v", mgr2.Limit(), mgr2.MaxAge())
		// those that gave up can now enter, and no more than there is space for
		entered, refused := 0, 0
		for _, g := range late {
			ctx, cancel := context.WithTimeout(context.Background(), wait)
			if entered == extra {
				cancel()
				ctx, cancel = context.WithTimeout(context.Background(), 50*time.Millisecond)
			}
			fin, _, err := g.Start(ctx, "again")
			if err == nil {
				entered++
				fins = append(fins, fin)
			} else {
				refused++
				if entered < extra {
					v.Violation("try again", "could not enter after having given up before with %d of %d slots free: %v", extra-entered, extra, err)
					cancel()
					break
				}
			}
			cancel()
		}
		v.Check(entered == min(extra, len(late)), "capacity", "%d entered with space for %d", entered, extra)
		for _, f := range fins {
			v.Check(f() == nil, "finish", "could not finish")
		}
		s.drained(0)
		mgr.Stream().Delete()
	}
}

// TestC19Unclear answers campaigns in ways governors should not retry
func TestC19Unclear(t *testing.T) {
	v := verifkit.New(t, "C19", "attempts that may have taken a slot are not repeated, refused ones are until the worker gives up")
	srv, connect, stop := start(v)
	defer stop()
	if srv == nil {
		return
	}
	nc := connect()
	full := `{"error":{"code":503,"err_code":10077,"description":"maximum messages exceeded"},"stream":"GOVERNOR_X","seq":0}`
	other := `{"error":{"code":503,"err_code":10076,"description":"other"}}`
	ok := `{"stream":"GOVERNOR_X","seq":%d}`
	for i, c := range []struct {
		answers []string
		tries   int
		seq     uint64
	}{
		{[]string{fmt.Sprintf(ok, 7)}, 1, 7},
		{[]string{full, full, full, fmt.Sprintf(ok, 9)}, 4, 9},
		{[]string{other, fmt.Sprintf(ok, 7)}, 1, 0},
		{[]string{full, other, fmt.Sprintf(ok, 7)}, 2, 0},
		{[]string{"not json", fmt.Sprintf(ok, 7)}, 1, 0},
		{[]string{"", fmt.Sprintf(ok, 7)}, 1, 0},
		{[]string{full, "silence", fmt.Sprintf(ok, 7)}, 2, 0},
	} {
		v.Case(true, fmt.Sprint(c.answers))
		name := fmt.Sprintf("X%d", i)
		var mu sync.Mutex
		tries := 0
		sub, err := nc.Subscribe("fake."+name, func(m *nats.Msg) {
			mu.Lock()
			n := tries
			tries++
			mu.Unlock()
			if n < len(c.answers) && c.answers[n] != "silence" {
				m.Respond([]byte(c.answers[n]))
			}
		})
		if err != nil {
			v.Inconclusive("%v", err)
			return
		}
		g := governor.New(name, nc, governor.WithSubject("fake."+name), governor.WithInterval(5*time.Millisecond))
		ctx, cancel := context.WithTimeout(context.Background(), wait)
		fin, seq, err := g.Start(ctx, "x")
		cancel()
		time.Sleep(30 * time.Millisecond)
		mu.Lock()
		if c.seq > 0 && err != nil && tries < c.tries && errors.Is(err, context.DeadlineExceeded) {
			v.Inconclusive("%v", err)
		} else {
			v.Check(tries == c.tries, "retries", "%q was tried %d rather than %d times: %v", c.answers, tries, c.tries, err)
			v.Check((err == nil) == (c.seq > 0) && seq == c.seq && (fin != nil) == (c.seq > 0), "answer", "%q resulted in slot %d and %v", c.answers, seq, err)
		}
		mu.Unlock()
		sub.Unsubscribe()
		nc.Flush()
		if c.seq > 0 {
			continue
		}
		// an unknown governor, then one that exists
		_, _, err = g.Start(context.Background(), "x")
		v.Check(err != nil, "unknown", "entered a governor that does not exist")
		s := &slots{v: v, name: name, limit: 1, holders: map[uint64]string{}}
		s.mgr, err = governor.NewManager(name, 1, time.Hour, 1, nc, true, governor.WithSubject("fake."+name))
		if err != nil {
			v.Violation("manager", "%v", err)
			return
		}
		ctx, cancel = context.WithTimeout(context.Background(), wait)
		fin, _, err = g.Start(ctx, "y")
		cancel()
		if v.Check(err == nil, "try again", "could not enter after an earlier attempt failed: %v", err) {
			v.Check(fin() == nil, "finish", "could not finish")
		}
		s.drained(0)
	}
}

// TestC19Operator has operators look into and change governors
func TestC19Operator(t *testing.T) {
	v := verifkit.New(t, "C19", "operators see and evict real entries and configured capacity, age and retention hold")
	srv, connect, stop := start(v)
	defer stop()
	if srv == nil {
		return
	}
	nc := connect()
	r := verifkit.Rand("operator")
	for round := 0; round < verifkit.N(15, 200) && !v.Failed(); round++ {
		name := fmt.Sprintf("O%d", round)
		limit := 2 + r.Intn(5)
		subj := "gov." + name
		mgr, err := governor.NewManager(name, uint64(limit), time.Hour, 1, nc, false, governor.WithSubject(subj))
		if err != nil {
			v.Violation("manager", "%v", err)
			return
		}
		leave := r.Intn(3) > 0
		opts := []governor.Option{governor.WithSubject(subj), governor.WithInterval(5 * time.Millisecond)}
		if !leave {
			opts = append(opts, governor.WithoutLeavingOnCompletion())
		}
		type held struct {
			fin governor.Finisher
			seq uint64
			who string
		}
		var hs []held
		for i := 0; i < limit; i++ {
			who := fmt.Sprintf("host%d.example.net é", i)
			gov := governor.New(name, nc, opts...)
			if r.Intn(2) == 0 {
				fin, seq, err := gov.Start(context.Background(), who)
				if err != nil {
					v.Inconclusive("%v", err)
					return
				}
				hs = append(hs, held{fin, seq, who})
				continue
			}
			// one that has been used before can be used again once its work is done
			fin, seq, err := gov.Start(context.Background(), who)
			if err != nil {
				v.Inconclusive("%v", err)
				return
			}
			v.Check(fin() == nil, "finish", "could not finish before using a governor again")
			if !leave {
				was, err := mgr.Evict(seq)
				v.Check(err == nil && was == who, "evict", "evicting the kept entry of %q returned %q %v", who, was, err)
			}
			ctx, cancel := context.WithTimeout(context.Background(), wait)
			fin, seq, err = gov.Start(ctx, who)
			cancel()
			if !v.Check(err == nil, "use again", "a governor that finished cannot be used again: %v", err) {
				return
			}
			v.Count("used again", 1)
			hs = append(hs, held{fin, seq, who})
		}
		v.Case(true, fmt.Sprintf("limit %d leave %v", limit, leave))
		r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
		// one is evicted, its place can be used at once and its finisher does no harm
		who, err := mgr.Evict(hs[0].seq)
		v.Check(err == nil && who == hs[0].who, "evict", "evicting %q returned %q %v", hs[0].who, who, err)
		ctx, cancel := context.WithTimeout(context.Background(), wait)
		fin, seq, err := governor.New(name, nc, opts...).Start(ctx, "new")
		cancel()
		if !v.Check(err == nil, "evict", "the place of an evicted entry is not free: %v", err) {
			return
		}
		hs[0].fin()
		active, _ := mgr.Active()
		v.Check(int(active) == limit, "evict", "%d of %d slots are used", active, limit)
		hs[0] = held{fin, seq, "new"}
		n := r.Intn(limit)
		for _, h := range hs[:n] {
			v.Check(h.fin() == nil, "finish", "could not finish")
		}
		if leave {
			active, _ = mgr.Active()
			v.Check(int(active) == limit-n, "released", "%d of %d slots are used after %d finished", active, limit, n)
		} else {
			active, _ = mgr.Active()
			v.Check(int(active) == limit, "kept", "%d of %d slots are used though they are to be kept", active, limit)
		}
		last, err := mgr.LastActive()
		v.Check(err == nil && !last.IsZero() && time.Since(last) < time.Hour, "last active", "%v %v", last, err)
		if r.Intn(2) == 0 {
			v.Check(mgr.Reset() == nil, "reset", "failed")
			active, _ = mgr.Active()
			v.Check(active == 0, "reset", "%d slots are used after a reset", active)
		}
		if r.Intn(2) == 0 {
			v.Check(mgr.SetMaxAge(2*time.Hour) == nil && mgr.MaxAge() == 2*time.Hour && mgr.Limit() == int64(limit), "age", "after setting the age it is %v, the limit %d", mgr.MaxAge(), mgr.Limit())
			v.Check(mgr.SetSubject("other."+name) == nil && mgr.Subject() == "other."+name, "subject", "is %s", mgr.Subject())
		}
		mgr.Stream().Delete()
	}
}
