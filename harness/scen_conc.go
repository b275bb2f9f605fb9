package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"
)

// concOp is one operation of a concurrent scenario; hint is the position of
// stream 1 when the scenario was set up.
type concOp struct {
	name string
	run  func(c *Client, s *seqRun, hint int, o readOpt)
}

func (s *seqRun) batch(c *Client, st, n, exp int) string {
	u := s.o.uni
	s.rmu.Lock()
	var evs []*Ev
	for i := 0; i < n; i++ {
		evs = append(evs, newEv(s.pickKind(), u.Types[(st-1)%len(u.Types)], fmt.Sprintf("id%d", st), uint64(s.rnd.Intn(100)), pickMeta(s.rnd), 0, nil))
	}
	s.rmu.Unlock()
	return c.save(u.Streams[st-1], exp, evs, cxNo, nil)
}

var concOps = []concOp{
	{"save", func(c *Client, s *seqRun, hint int, o readOpt) { s.batch(c, 1, 2, -1) }},
	{"saveOther", func(c *Client, s *seqRun, hint int, o readOpt) { s.batch(c, 2, 2, -1) }},
	{"opt", func(c *Client, s *seqRun, hint int, o readOpt) { s.batch(c, 1, 2, hint) }},
	{"del", func(c *Client, s *seqRun, hint int, o readOpt) { c.del(s.o.uni.Streams[0], hint, cxNo) }},
	{"all", func(c *Client, s *seqRun, hint int, o readOpt) { c.read("all", 0, "", nil, o) }},
	{"types", func(c *Client, s *seqRun, hint int, o readOpt) { c.read("types", 0, "", s.o.uni.Types[:2], o) }},
	{"type", func(c *Client, s *seqRun, hint int, o readOpt) { c.read("types", 2, "", s.o.uni.Types[:1], o) }},
	{"stream", func(c *Client, s *seqRun, hint int, o readOpt) { c.read("stream", 0, s.o.uni.Streams[0], nil, o) }},
	{"tot", func(c *Client, s *seqRun, hint int, o readOpt) { c.total(s.o.uni.Streams[0], cxNo) }},
}

func isRead(name string) bool {
	return name == "all" || name == "types" || name == "type" || name == "stream"
}

// waitDone waits for ch, at most d.
func waitDone(ch <-chan struct{}, d time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

func goDone(f func()) <-chan struct{} {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		f()
	}()
	return ch
}

// pausePairs stops operation A at every point where it can be stopped and
// runs B (and C behind it) meanwhile.
func pausePairs(cfg *Cfg, kinds []string, third bool) []job {
	var jobs []job
	for ki, kind := range kinds {
		for ai, a := range concOps {
			for bi, b := range concOps {
				if isRead(a.name) && (isRead(b.name) || b.name == "tot") {
					continue
				}
				if a.name == "tot" {
					continue
				}
				kind, a, b, n := kind, a, b, ki*100+ai*10+bi
				name := fmt.Sprintf("pause/%s/%s-%s", kind, a.name, b.name)
				jobs = append(jobs, job{name: name, run: func() *Ep {
					return runPausePair(cfg, kind, a, b, third, name, n)
				}})
			}
		}
	}
	return jobs
}

func runPausePair(cfg *Cfg, kind string, a, b concOp, third bool, name string, n int) *Ep {
	sut := newSUT(kind)
	defer sut.close()
	ep := newEp(name)
	s := newSeqRun(ep, sut, seqOpt{uni: universes[n%2]}, cfg.seed*131+int64(n))
	s.c.conc = true
	sb := newSubber(ep, sut.store)
	sb.start("all", -1, true, nil, 500)
	s.batch(s.c, 3, 1, -1)
	s.batch(s.c, 2, 1, -1)
	other := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
	if sut.remote {
		other.store = sut.backing
	}
	for k := 1; k <= 14 && !ep.isDead(); k++ {
		if s.streamLen(s.o.uni.Streams[0]) < 2 {
			s.batch(s.c, 1, 2, -1)
		}
		hint := s.streamLen(s.o.uni.Streams[0])
		paused, resume := sut.p.arm(k)
		o := readOpt{between: sut.p.hit}
		da := goDone(func() { a.run(s.c, s, hint, o) })
		select {
		case <-paused:
		case <-da:
			resume()
			select {
			case <-paused:
			default:
				// A has fewer points than k
				k = 1000
			}
			continue
		}
		db := goDone(func() { b.run(other, s, hint, readOpt{}) })
		block := 20 * time.Millisecond
		if third {
			waitDone(db, 3*time.Millisecond)
			c := concOps[(n+k)%len(concOps)]
			dc := goDone(func() { c.run(&Client{ep: ep, sut: sut, store: sut.store, conc: true}, s, hint, readOpt{}) })
			waitDone(db, block)
			waitDone(dc, 5*time.Millisecond)
			resume()
			<-dc
		} else {
			waitDone(db, block)
			resume()
		}
		<-da
		<-db
		other.read("all", 0, "", nil, readOpt{})
	}
	if !ep.isDead() {
		s.c.read("types", 0, "", s.o.uni.Types[:3], readOpt{})
		sb.settle()
		sb.stopAll()
	}
	return ep
}

// stress runs several clients at once with small delays inside the store.
func stress(cfg *Cfg, kind string, clients, ops, n int, subs bool) job {
	name := fmt.Sprintf("stress%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: universes[n%3]}, cfg.seed*977+int64(n))
		s.c.conc = true
		sb := newSubber(ep, sut.store)
		if subs {
			sb.start("all", -1, true, nil, 500)
			sb.start("types", 0, false, s.o.uni.Types[:2], 500)
		}
		s.batch(s.c, 1, 2, -1)
		s.batch(s.c, 2, 1, -1)
		sut.p.jitter = []int64{0, 20, 200}[n%3]
		var wg sync.WaitGroup
		for w := 0; w < clients; w++ {
			c := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
			if sut.twoSided() && w%2 == 1 {
				c.store = sut.backing
			}
			rnd := rand.New(rand.NewSource(cfg.seed*31 + int64(n*100+w)))
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < ops && !ep.isDead(); i++ {
					s.randomOp(c, rnd)
					if rnd.Intn(3) == 0 {
						time.Sleep(time.Duration(rnd.Intn(150)) * time.Microsecond)
					}
				}
			}(w)
		}
		wg.Wait()
		sut.p.jitter = 0
		if ep.isDead() {
			return ep
		}
		s.observe(0)
		if subs {
			sb.settle()
		}
		sb.stopAll()
		return ep
	}}
}

// randomOp performs an operation on the first two streams.
func (s *seqRun) randomOp(c *Client, rnd *rand.Rand) {
	u := s.o.uni
	st := 1 + rnd.Intn(2)
	o := readOpt{nextCtx: rnd.Intn(4) == 0}
	hint := func() int {
		n, _ := s.c.sut.backing.TotalEventsInStream(context.Background(), u.Streams[st-1])
		if rnd.Intn(8) == 0 {
			n++
		}
		return int(n)
	}
	switch rnd.Intn(10) {
	case 0, 1:
		s.batch(c, st, 1+rnd.Intn(3), -1)
	case 2, 3, 4:
		s.batch(c, st, 1+rnd.Intn(3), hint())
	case 5:
		c.del(u.Streams[st-1], hint(), cxNo)
	case 6:
		c.read("all", 0, "", nil, o)
	case 7:
		c.read("types", rnd.Intn(4), "", u.Types[:1+rnd.Intn(3)], o)
	case 8:
		c.read("stream", rnd.Intn(3), u.Streams[st-1], nil, o)
	default:
		c.total(u.Streams[st-1], cxNo)
	}
}

// race lets several writers expect the same position, round after round.
func race(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("race%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: universes[n%2]}, cfg.seed*577+int64(n))
		sut.p.jitter = []int64{30, 0, 150}[n%3]
		for round := 0; round < 6 && !ep.isDead(); round++ {
			pos := s.streamLen(s.o.uni.Streams[0])
			start := make(chan struct{})
			var wg sync.WaitGroup
			for w := 0; w < 4; w++ {
				c := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
				if sut.twoSided() && w%2 == 1 {
					c.store = sut.backing
				}
				size, exp := 1+s.rnd.Intn(3), pos
				if w == 3 && s.rnd.Intn(2) == 0 {
					exp = -1
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					s.batch(c, 1, size, exp)
				}()
			}
			close(start)
			wg.Wait()
			s.c.conc = true
			s.c.read("stream", 0, s.o.uni.Streams[0], nil, readOpt{})
			if s.rnd.Intn(4) == 0 {
				s.c.del(s.o.uni.Streams[0], s.streamLen(s.o.uni.Streams[0]), cxNo)
			}
		}
		s.c.read("all", 0, "", nil, readOpt{})
		return ep
	}}
}

func init() {
	concKinds := []string{"mem", "ldb", "rmem", "rldb", "emem", "eldb", "memmp", "ldbmp"}
	planners["P07"] = func(cfg *Cfg) []job {
		jobs := pausePairs(cfg, concKinds[:cfg.pick(6, 8)], false)
		for i := 0; i < cfg.pick(15, 300); i++ {
			for _, kind := range concKinds {
				jobs = append(jobs, stress(cfg, kind, 4, 8, i, i%3 == 0))
			}
		}
		return jobs
	}
	p04 := planners["P04"]
	planners["P04"] = func(cfg *Cfg) []job {
		jobs := p04(cfg)
		for i := 0; i < cfg.pick(12, 200); i++ {
			for _, kind := range concKinds[:6] {
				jobs = append(jobs, race(cfg, kind, i))
			}
		}
		return jobs
	}
}
