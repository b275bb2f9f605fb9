package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/broadcast"
	"github.com/inklabs/rangedb/pkg/recordsubscriber"
)

// filters of subscriptions: all, one type, several, none, unknown, one twice.
func subFilters(u Universe) []struct {
	all   bool
	types []string
} {
	t := u.Types
	return []struct {
		all   bool
		types []string
	}{{true, nil}, {false, t[:1]}, {false, []string{t[1], t[0]}}, {false, []string{t[0], t[2], t[1]}}, {false, []string{t[1], t[1]}}, {false, []string{"no such type", t[2]}}, {false, []string{}}}
}

// subSession is an episode around subscriptions.
type subSession struct {
	*seqRun
	sb *subber
	n  int
}

func newSubSession(cfg *Cfg, kind, name string, uni Universe, n int) (*subSession, func()) {
	sut := newSUT(kind)
	ep := newEp(name)
	s := newSeqRun(ep, sut, seqOpt{uni: uni, twoSides: true}, cfg.seed*4099+int64(n))
	for _, c := range s.cs {
		c.conc = true
	}
	return &subSession{seqRun: s, sb: newSubber(ep, sut.store)}, sut.close
}

// saveSome saves a small batch into a stream of the given type.
func (s *subSession) saveSome(c *Client, ty, n int) { s.batch(c, ty, n, -1) }

// tasks waits for work that may be added while waiting.
type tasks struct {
	mu sync.Mutex
	ds []<-chan struct{}
}

func (t *tasks) add(d <-chan struct{}) {
	t.mu.Lock()
	t.ds = append(t.ds, d)
	t.mu.Unlock()
}

func (t *tasks) Wait() {
	for i := 0; ; i++ {
		t.mu.Lock()
		if i >= len(t.ds) {
			t.mu.Unlock()
			return
		}
		d := t.ds[i]
		t.mu.Unlock()
		<-d
	}
}

// bg runs a save in the background and gives it a moment to finish: it may
// have to wait for whatever the subscription is doing.
func (s *subSession) bg(ty, n int, wg *tasks) {
	c := &Client{ep: s.ep, sut: s.c.sut, store: s.c.sut.backing, conc: true}
	if s.c.sut.enc {
		c.store = s.c.sut.store
	}
	d := goDone(func() { s.saveSome(c, ty, n) })
	wg.add(d)
	waitDone(d, 15*time.Millisecond)
}

// subInject starts subscriptions from every position with every filter and
// saves more events at every moment the subscriber is called.
func subInject(cfg *Cfg, kind string, uni Universe, n int) job {
	name := fmt.Sprintf("inject%d/%s/%s", n, kind, uni.Name)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, uni, n)
		defer closeAll()
		sb := s.sb
		sb.start("w", -1, true, nil, 1000)
		for i := 0; i < 1+n%3; i++ {
			s.saveSome(s.c, 1+s.rnd.Intn(3), 1+s.rnd.Intn(2))
		}
		sb.settle()
		for i := 0; i < 6 && !s.ep.isDead(); i++ {
			g := s.curMaxG()
			fs := subFilters(uni)
			f := fs[s.rnd.Intn(len(fs))]
			if i < 3 {
				f = fs[i]
			}
			froms := []int{0, 1, g, g + 1, g + 2, g - 1, s.rnd.Intn(g+1) + 1, -1, g + 3}
			from := froms[s.rnd.Intn(len(froms))]
			id := fmt.Sprintf("s%d", i)
			var wg tasks
			left := 1 + s.rnd.Intn(3)
			every := 1 + s.rnd.Intn(3)
			rnd := rand.New(rand.NewSource(int64(n*100 + i)))
			var mu sync.Mutex
			delay := func(k int) {
				mu.Lock()
				ok := left > 0 && k%every == 0
				if ok {
					left--
				}
				ty, m := 1+rnd.Intn(3), 1+rnd.Intn(2)
				mu.Unlock()
				if ok {
					s.bg(ty, m, &wg)
				}
			}
			sb.startOpt(id, from, f.all, f.types, 500, delay, cxNo, false)
			s.saveSome(s.client(), 1+s.rnd.Intn(3), 1+s.rnd.Intn(2))
			if s.rnd.Intn(3) == 0 {
				c := s.client()
				st := s.rnd.Intn(3)
				c.del(uni.Streams[st], s.streamLen(uni.Streams[st]), cxNo)
			}
			sb.settle()
			wg.Wait()
			sb.settle()
			if i%2 == 1 {
				sb.stop(fmt.Sprintf("s%d", i-1))
			}
		}
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// subPause stops the start of a subscription at every point where the store
// calls back, and saves events meanwhile.
func subPause(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("subpause%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb := s.sb
		sb.start("w", -1, true, nil, 1000)
		s.saveSome(s.c, 1, 2)
		s.saveSome(s.c, 2, 1)
		sb.settle()
		fs := subFilters(s.o.uni)
		for k := 1; k <= 12 && !s.ep.isDead(); k++ {
			f := fs[(k+n)%4]
			id := fmt.Sprintf("s%d", k)
			g := s.curMaxG()
			from := []int{0, g, g + 1, g - 1, 1}[(k+n)%5]
			paused, resume := s.c.sut.p.arm(k)
			var wg tasks
			d := goDone(func() { sb.startOpt(id, from, f.all, f.types, 500, nil, cxNo, false) })
			select {
			case <-paused:
				s.bg(1+s.rnd.Intn(2), 1, &wg)
				s.bg(3, 1, &wg)
			case <-d:
			}
			resume()
			<-d
			wg.Wait()
			s.saveSome(s.client(), 1+s.rnd.Intn(3), 1)
			sb.settle()
			if k > 3 {
				sb.stop(fmt.Sprintf("s%d", k-3))
			}
		}
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// handOver takes the subscriber apart: a save can happen before and after
// each of its steps (first read, subscribing, second read, live).
func handOver(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("handover%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb := s.sb
		b := broadcast.New(100, 5*time.Second)
		defer b.Close()
		st := s.c.sut.store
		must(st.AllEventsSubscription(context.Background(), 100, b).Start())
		var moment func(i int)
		sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
			consume := func(r *rangedb.Record) error { accept(r); return nil }
			var cfg recordsubscriber.Config
			if all {
				cfg = recordsubscriber.AllEventsConfig(ctx, st, b, buf, consume)
			} else {
				cfg = recordsubscriber.AggregateTypesConfig(ctx, st, b, buf, types, consume)
			}
			get, sub := cfg.GetRecords, cfg.Subscribe
			reads := 0
			cfg.GetRecords = func(g uint64) rangedb.RecordIterator {
				moment(reads * 3)
				it := get(g)
				reads++
				moment(reads*3 - 2)
				return it
			}
			cfg.Subscribe = func(x broadcast.RecordSubscriber) {
				moment(2)
				sub(x)
				moment(6)
			}
			return recordsubscriber.New(cfg)
		}
		moment = func(int) {}
		sb.start("w", -1, true, nil, 1000)
		s.saveSome(s.c, 1, 1)
		s.saveSome(s.c, 2, 2)
		sb.settle()
		fs := subFilters(s.o.uni)
		for i := 0; i < 16 && !s.ep.isDead(); i++ {
			x := (n*16+i)*5 + n
			mask := x % 128
			f := fs[(x/128+i)%4]
			g := s.curMaxG()
			from := []int{0, g, g + 1, g + 2, g - 1, -1}[(n+i)%6]
			id := fmt.Sprintf("s%d", i)
			moment = func(m int) {
				if m < 7 && mask&(1<<m) != 0 {
					want := sb.count("w") + 1
					s.saveSome(s.c, 1+(m+i)%3, 1)
					if m%2 == 0 || i%2 == 0 {
						sb.waitCount("w", want, 50*time.Millisecond) // it has been broadcast
					}
				}
			}
			sb.startOpt(id, from, f.all, f.types, 500, nil, cxNo, false)
			moment = func(int) {}
			s.saveSome(s.c, 1+i%3, 1)
			sb.settle()
			if i > 3 {
				sb.stop(fmt.Sprintf("s%d", i-3))
			}
		}
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// subStress starts and stops subscriptions while several clients save.
func subStress(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("substress%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb := s.sb
		sb.start("w", -1, true, nil, 1000)
		s.saveSome(s.c, 1, 2)
		s.c.sut.p.jitter = []int64{0, 30, 100}[n%3]
		fs := subFilters(s.o.uni)
		for round := 0; round < 5 && !s.ep.isDead(); round++ {
			var wg sync.WaitGroup
			for w := 0; w < 2; w++ {
				c := &Client{ep: s.ep, sut: s.c.sut, store: s.c.sut.store, conc: true}
				if s.c.sut.twoSided() && w == 0 {
					c.store = s.c.sut.backing
				}
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for i := 0; i < 4; i++ {
						s.saveSome(c, 1+(w+i+round)%3, 1)
					}
				}(w)
			}
			for w := 0; w < 2; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					s.rmu.Lock()
					f := fs[s.rnd.Intn(4)]
					g := s.curMaxG()
					from := []int{0, g, g + 1, g + 2, -1, g - 2, g + 4}[s.rnd.Intn(7)]
					d := time.Duration(s.rnd.Intn(400)) * time.Microsecond
					s.rmu.Unlock()
					if from < -1 {
						from = 0
					}
					time.Sleep(d)
					id := fmt.Sprintf("s%d.%d", round, w)
					sb.startOpt(id, from, f.all, f.types, 500, nil, cxNo, false)
				}(w)
			}
			wg.Wait()
			sb.settle()
			if round > 1 {
				sb.stop(fmt.Sprintf("s%d.%d", round-1, round%2))
			}
		}
		s.c.sut.p.jitter = 0
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// slowSubs mixes subscribers that do not keep up, stop, are cancelled or
// never return with ones that must not notice.
func slowSubs(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("slow%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb := s.sb
		fs := subFilters(s.o.uni)
		sb.start("w", -1, true, nil, 1000)
		sb.start("h", 0, false, fs[2].types, 1000)
		block := make(chan struct{})
		var once sync.Once
		unblock := func() { once.Do(func() { close(block) }) }
		defer unblock()
		s.saveSome(s.c, 1, 1)
		s.saveSome(s.c, 2, 1)
		sb.settle()
		at := 1 + s.rnd.Intn(3)
		mode := n % 4
		for i := 0; i < 2+n%2; i++ {
			id := fmt.Sprintf("slow%d", i)
			f := fs[(n/4+i)%4]
			buf := []int{0, 1, 2, 5}[s.rnd.Intn(4)]
			from := []int{-1, s.curMaxG() + 1}[s.rnd.Intn(2)]
			delay := func(k int) {
				if k != at {
					return
				}
				switch mode {
				case 0: // slow once
					time.Sleep(180 * time.Millisecond)
				case 1: // never comes back
					<-block
				case 2: // stops itself
					sb.mu.Lock()
					x := sb.subs[id]
					sb.mu.Unlock()
					sb.ep.log(line{"e": "stop", "sub": id})
					x.sub.Stop()
				case 3: // gives up its context
					sb.mu.Lock()
					x := sb.subs[id]
					sb.mu.Unlock()
					x.cancel()
				}
			}
			sb.startOpt(id, from, f.all, f.types, buf, delay, cxNo, true)
		}
		sb.start("h2", s.curMaxG(), true, nil, 1000)
		for i := 0; i < 6+n%5 && !s.ep.isDead(); i++ {
			s.saveSome(s.client(), 1+s.rnd.Intn(3), 1+s.rnd.Intn(2))
			if s.rnd.Intn(3) == 0 {
				time.Sleep(time.Duration(s.rnd.Intn(60)) * time.Millisecond)
			}
		}
		sb.settle()
		if mode != 1 {
			time.Sleep(200 * time.Millisecond) // slow ones wake up
		} else if n%8 == 1 {
			unblock()
			time.Sleep(20 * time.Millisecond)
		}
		for i := 0; i < 3; i++ {
			s.saveSome(s.client(), 1+i, 1)
		}
		sb.settle()
		if mode == 2 || mode == 3 {
			time.Sleep(100 * time.Millisecond)
			for _, id := range []string{"slow0", "slow1"} {
				if sb.count(id) >= at {
					sb.halt(id)
				}
			}
			for i := 0; i < 3; i++ {
				s.saveSome(s.client(), 1+i, 1)
			}
			sb.settle()
			time.Sleep(20 * time.Millisecond)
		}
		unblock()
		for i := 0; i < 2+n%2; i++ {
			id := fmt.Sprintf("slow%d", i)
			sb.fate(id, mode >= 2 && sb.count(id) >= at)
		}
		sb.stopAll()
		for _, id := range []string{"w", "h", "h2"} {
			sb.fate(id, true)
		}
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// between registers one type after the other, as a broadcaster does that has
// other things to do in between.
type between struct {
	broadcast.Broadcaster
	moment func()
}

func (b between) SubscribeAggregateTypes(x broadcast.RecordSubscriber, types ...string) {
	for i, t := range types {
		if i > 0 {
			b.moment()
		}
		b.Broadcaster.SubscribeAggregateTypes(x, t)
	}
}

// refusing: subscribers whose consumer fails for a record now and then (only
// once, or from then on) end there and say so; others do not notice.
func refusing(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("refusing%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb, st := s.sb, s.c.sut.store
		sb.start("w", -1, true, nil, 1000)
		b := broadcast.New(100, 5*time.Second)
		defer b.Close()
		must(st.AllEventsSubscription(context.Background(), 100, b).Start())
		fs := subFilters(s.o.uni)
		for i := 0; i < 8 && !s.ep.isDead(); i++ {
			var left, fails int32
			always := (n+i)%2 == 0
			sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
				consume := func(r *rangedb.Record) error {
					if n := atomic.AddInt32(&left, -1); n == 0 || n < 0 && n > -1000 && always {
						atomic.AddInt32(&fails, 1)
						return errors.New("refused")
					}
					accept(r)
					return nil
				}
				if all {
					return recordsubscriber.New(recordsubscriber.AllEventsConfig(ctx, st, b, buf, consume))
				}
				return recordsubscriber.New(recordsubscriber.AggregateTypesConfig(ctx, st, b, buf, types, consume))
			}
			id := fmt.Sprintf("s%d", i)
			f := fs[(n+i)%4]
			left = -1000000 // (nothing is refused while it catches up)
			sb.startOpt(id, []int{0, s.curMaxG() + 1, s.curMaxG()}[i%3], f.all, f.types, 100, nil, cxNo, true)
			atomic.StoreInt32(&left, 1+int32(s.rnd.Intn(3)))
			for j := 0; j < 5; j++ {
				s.saveSome(s.c, 1+(i+j)%3, 1+s.rnd.Intn(2))
			}
			sb.settle()
			sb.fate(id, false)
			s.saveSome(s.c, 1, 1)
			s.saveSome(s.c, 2, 1)
			sb.settle()
			if i%2 == 0 {
				sb.stop(id)
			}
		}
		sb.make = nil
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// overtaken: subscriptions with small buffers start while so many events are
// broadcast that they may be given up before they are registered completely.
func overtaken(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("overtaken%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb, st := s.sb, s.c.sut.store
		sb.start("w", -1, true, nil, 1000)
		b := broadcast.New(100, 4*time.Millisecond)
		defer b.Close()
		must(st.AllEventsSubscription(context.Background(), 100, b).Start())
		fs := [][]string{{s.o.uni.Types[0], s.o.uni.Types[1]}, {s.o.uni.Types[2], s.o.uni.Types[0], s.o.uni.Types[1]}}
		for i := 0; i < 24 && !s.ep.isDead(); i++ {
			id := fmt.Sprintf("s%d", i)
			f := fs[s.rnd.Intn(2)]
			reads := 0
			moment := func() {
				for j := 0; j < 3; j++ {
					s.saveSome(s.client(), 1, 1)
				}
				time.Sleep(time.Duration(s.rnd.Intn(3)*2) * time.Millisecond)
			}
			sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
				cfg := recordsubscriber.AggregateTypesConfig(ctx, st, between{b, moment}, buf, types, func(r *rangedb.Record) error { accept(r); return nil })
				get := cfg.GetRecords
				cfg.GetRecords = func(g uint64) rangedb.RecordIterator {
					it := get(g)
					if reads++; reads == 2 {
						s.saveSome(s.client(), 1, 1)
						s.saveSome(s.client(), 2, 1)
						time.Sleep(time.Duration(s.rnd.Intn(2)*s.rnd.Intn(2000)) * time.Microsecond)
					}
					return it
				}
				return recordsubscriber.New(cfg)
			}
			sb.startOpt(id, s.curMaxG()+s.rnd.Intn(2), false, f, 1+s.rnd.Intn(2), nil, cxNo, true)
			s.saveSome(s.c, 1, 1)
			time.Sleep(time.Duration(s.rnd.Intn(3)) * time.Millisecond)
			s.saveSome(s.c, 2, 1)
			sb.settle()
			sb.stop(id)
		}
		sb.make = nil
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// stopped subscriptions receive nothing more; others go on. Stops come at
// every moment: before the start, during catch-up, between and during saves.
func stopSubs(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("stop%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb := s.sb
		fs := subFilters(s.o.uni)
		sb.start("w", -1, true, nil, 1000)
		for i := 0; i < 3; i++ {
			s.saveSome(s.c, 1+i, 2)
		}
		sb.settle()
		stopAt := n % 5
		for i := 0; i < 3 && !s.ep.isDead(); i++ {
			id := fmt.Sprintf("x%d", i)
			f := fs[(n+i)%4]
			byCancel := (n/5+i)%2 == 0
			stopIt := func() {
				sb.mu.Lock()
				x := sb.subs[id]
				sb.mu.Unlock()
				sb.ep.log(line{"e": "stop", "sub": id})
				if byCancel || x.sub == nil {
					x.cancel()
				} else {
					x.sub.Stop()
				}
			}
			switch stopAt {
			case 0: // context cancelled before the start
				sb.startOpt(id, []int{-1, 0, 3}[i], f.all, f.types, 100, nil, cxPre, true)
			case 1, 2: // during catch-up
				sb.startOpt(id, 1+i, f.all, f.types, 100, func(k int) {
					if k == stopAt {
						stopIt()
					}
				}, cxMid, true)
			case 3: // right after the start
				sb.startOpt(id, []int{-1, 0, 3}[i], f.all, f.types, 100, nil, cxNo, true)
				stopIt()
			case 4: // while saves run
				sb.startOpt(id, []int{-1, 0, 3}[i], f.all, f.types, 100, nil, cxNo, true)
				d := goDone(func() {
					for j := 0; j < 4; j++ {
						s.saveSome(&Client{ep: s.ep, sut: s.c.sut, store: s.c.sut.store, conc: true}, 1+j%3, 1)
					}
				})
				time.Sleep(time.Duration(s.rnd.Intn(500)) * time.Microsecond)
				stopIt()
				<-d
			}
			s.saveSome(s.client(), 1+i, 1)
			sb.settle()
			time.Sleep(100 * time.Millisecond)
			if stopAt > 0 {
				sb.halt(id)
			}
			s.saveSome(s.client(), 1+(i+1)%3, 2)
			s.saveSome(s.client(), 1+i, 1)
			sb.settle()
			time.Sleep(15 * time.Millisecond)
		}
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

func init() {
	subKinds := []string{"mem", "ldb", "rmem", "rldb", "emem", "eldb"}
	planners["P09"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(8, 120); i++ {
			for _, kind := range subKinds {
				jobs = append(jobs, subInject(cfg, kind, universes[i%3], i), subStress(cfg, kind, i), subPause(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(8, 60); i++ {
			for _, kind := range subKinds[:cfg.pick(4, 6)] {
				jobs = append(jobs, handOver(cfg, kind, i))
			}
		}
		return jobs
	}
	planners["P10"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(16, 160); i++ {
			for _, kind := range subKinds[:cfg.pick(5, 6)] {
				jobs = append(jobs, slowSubs(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(10, 60); i++ {
			for _, kind := range subKinds[:cfg.pick(5, 6)] {
				jobs = append(jobs, stopSubs(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(9, 60); i++ {
			jobs = append(jobs, cutOff(cfg, []string{"rmem", "rldb"}[i%2], i))
		}
		for i := 0; i < cfg.pick(4, 40); i++ {
			jobs = append(jobs, storm(cfg, []string{"rmem", "rldb"}[i%2], i))
		}
		for i := 0; i < cfg.pick(4, 40); i++ {
			for _, kind := range []string{"mem", "ldb"} {
				jobs = append(jobs, overtaken(cfg, kind, i), refusing(cfg, kind, i))
			}
		}
		return jobs
	}
}
