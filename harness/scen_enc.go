package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

var encKinds = []string{"emem", "eldb", "emem:cbc", "eldb:xcc", "ermem", "emem:cache", "eldb:cache2", "ememmp", "erldb:cbc"}

func subject(i int) string {
	return []string{"ann", "bob", "Ann", "a", "", "ann:1", "subject with spaces/é"}[i%7] + fmt.Sprint(i/7)
}

// secretEv is an event with protected data of a subject.
func (s *seqRun) secretEv(st int, who string, bad int) *Ev {
	at := s.o.uni.Types[(st-1)%len(s.o.uni.Types)]
	s.rmu.Lock()
	n, m := uint64(s.rnd.Intn(100)), pickMeta(s.rnd)
	s.rmu.Unlock()
	ev := newEv(4, at, fmt.Sprintf("id%d", st), n, m, bad, nil)
	var e evS
	switch x := ev.rec.Event.(type) {
	case *evS:
		x.Sub = who
		e = *x
	case evS:
		x.Sub = who
		ev.rec.Event = x
		e = x
	}
	ev.Sub = who
	ev.D = "EvS" + canonJSON(plainEvS{e.Tag, e.Sub, e.Secret, e.Open})
	return ev
}

func (s *seqRun) saveSecrets(c *Client, st int, exp int, subjects ...string) string {
	var evs []*Ev
	for _, who := range subjects {
		if who == "-" { // not protected
			evs = append(evs, newEv(0, s.o.uni.Types[(st-1)%len(s.o.uni.Types)], fmt.Sprintf("id%d", st), 1, 0, 0, nil))
		} else {
			evs = append(evs, s.secretEv(st, who, 0))
		}
	}
	return c.save(s.o.uni.Streams[st-1], exp, evs, cxNo, nil)
}

// retries saves the same events again after failures of every kind, and again after a success.
func retries(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("retry%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: universes[n%4]}, cfg.seed*389+int64(n))
		c := s.c
		u := s.o.uni
		s.saveSecrets(c, 1, -1, subject(0), "-")
		for round := 0; round < 6 && !ep.isDead(); round++ {
			st := 1 + s.rnd.Intn(2)
			fresh := fmt.Sprintf("new%d", round)
			pool := []string{subject(0), subject(1), fresh, fresh, subject(2)}
			var evs []*Ev
			for i := 0; i <= s.rnd.Intn(4); i++ {
				evs = append(evs, s.secretEv(st, pool[s.rnd.Intn(len(pool))], 0))
			}
			stream := u.Streams[st-1]
			pos := s.streamLen(stream)
			mode := (round + n) % 6
			switch mode {
			case 0: // the key store fails
				for k := int64(1); k <= int64(2*len(evs)+1); k++ {
					atomic.StoreInt64(&sut.keyFail, k)
					r := c.save(stream, []int{-1, pos}[s.rnd.Intn(2)], evs, cxCut, nil)
					atomic.StoreInt64(&sut.keyFail, 0)
					s.light()
					if r == "ok" {
						pos = s.streamLen(stream)
					}
				}
			case 1: // stale
				c.save(stream, pos+1, evs, cxNo, nil)
				c.save(stream, pos+2, evs, cxNo, nil)
				s.light()
			case 2: // cancelled
				c.save(stream, -1, evs, cxPre, nil)
				c.save(stream, pos, evs, cxPre, nil)
				s.light()
			case 3: // one can not be serialized
				c.save(stream, -1, append(append([]*Ev{}, evs...), s.secretEv(st, subject(1), 1+s.rnd.Intn(2))), cxNo, nil)
				s.light()
			case 4: // one belongs to another aggregate
				c.save(stream, -1, append(append([]*Ev{}, evs...), s.secretEv(3, subject(1), 0)), cxNo, nil)
				s.light()
			}
			c.save(stream, []int{-1, pos}[s.rnd.Intn(2)], evs, cxNo, nil)
			s.light()
			if s.rnd.Intn(2) == 0 {
				c.save(stream, -1, evs, cxNo, nil)
				s.light()
			}
			// reads while the key store fails: an error after a prefix
			for k := int64(1); k < 4; k++ {
				atomic.StoreInt64(&sut.keyFail, k+int64(s.rnd.Intn(3)))
				o := s.opt()
				o.cx = cxCut
				switch k {
				case 1:
					c.read("all", 0, "", nil, o)
				case 2:
					c.read("stream", 0, stream, nil, o)
				case 3:
					c.read("types", 0, "", u.Types[:2], o)
				}
				atomic.StoreInt64(&sut.keyFail, 0)
			}
			if sut.reopen != nil && s.rnd.Intn(3) == 0 {
				c.reopen()
			}
		}
		s.observe(1)
		return ep
	}}
}

// light reads everything once.
func (s *seqRun) light() {
	s.c.read("all", 0, "", nil, s.opt())
	s.c.raw()
	st := s.o.uni.Streams[s.rnd.Intn(2)]
	s.c.read("stream", 0, st, nil, s.opt())
	s.c.total(st, cxNo)
}

// firstKey lets clients save data of the same new subjects at once, stopping
// the first at every point where it can be stopped.
func firstKey(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("firstkey%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: universes[n%3]}, cfg.seed*211+int64(n))
		s.c.conc = true
		other := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
		for k := 1; k <= 24 && !ep.isDead(); k++ {
			who := fmt.Sprintf("s%d", k)
			paused, resume := sut.p.arm(k)
			da := goDone(func() { s.saveSecrets(s.c, 1, -1, who, who+"b") })
			select {
			case <-paused:
			case <-da:
				resume()
				k += 100
			}
			db := goDone(func() {
				s.saveSecrets(other, 1+n%2, -1, who+"b", who)
				other.read("all", 0, "", nil, readOpt{})
			})
			waitDone(db, 20*time.Millisecond)
			resume()
			<-da
			<-db
			s.c.read("all", 0, "", nil, readOpt{})
		}
		sut.p.jitter = 40
		for round := 0; round < 4 && !ep.isDead(); round++ {
			var wg sync.WaitGroup
			for w := 0; w < 4; w++ {
				c := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					s.saveSecrets(c, 1+w%2, -1, fmt.Sprintf("r%d", round), fmt.Sprintf("r%d.%d", round, w/2))
				}(w)
			}
			wg.Wait()
			s.c.read("all", 0, "", nil, readOpt{})
		}
		sut.p.jitter = 0
		s.c.conc = false
		s.c.raw()
		s.c.read("types", 0, "", s.o.uni.Types[:2], readOpt{})
		return ep
	}}
}

// encSubs has several subscribers of the encrypting store and of the store
// below it follow the same records.
func encSubs(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("encsubs%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sb := s.sb
		below := newSubber(s.ep, s.c.sut.backing)
		below.raw = true
		fs := subFilters(s.o.uni)
		for i := 0; i < 8 && !s.ep.isDead(); i++ {
			g := s.curMaxG()
			for j, b := range []*subber{below, sb, sb} {
				if s.rnd.Intn(2) == 0 {
					f := fs[s.rnd.Intn(4)]
					from := []int{-1, 0, g, g + 1, 1}[s.rnd.Intn(5)]
					b.start(fmt.Sprintf("s%d.%d", i, j), from, f.all, f.types, 500)
				}
			}
			st := 1 + s.rnd.Intn(3)
			s.saveSecrets(s.c, st, -1, []string{subject(i % 3), "-", subject(st)}[:1+s.rnd.Intn(3)]...)
			if s.rnd.Intn(3) == 0 {
				s.saveSome(&Client{ep: s.ep, sut: s.c.sut, store: s.c.sut.backing, conc: true}, 1, 0) // fails
			}
			if i%2 == 1 {
				below.settle()
				sb.settle()
				s.c.read("all", 0, "", nil, s.opt())
			}
		}
		below.settle()
		sb.settle()
		below.stopAll()
		sb.stopAll()
		s.c.conc = false
		s.c.raw()
		return s.ep
	}}
}

// shredding deletes keys between saves, reads and subscriptions.
func shredding(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("shred%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%4]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*631+int64(n))
		c := s.c
		c.conc = true
		who := func() string { return subject(s.rnd.Intn(4)) }
		some := func() []string {
			out := []string{who(), "-", who(), who()}
			s.rnd.Shuffle(4, func(i, j int) { out[i], out[j] = out[j], out[i] })
			return out[:1+s.rnd.Intn(4)]
		}
		look := func() {
			o := s.opt()
			o.twice = s.rnd.Intn(2) == 0
			g := s.curMaxG()
			switch s.rnd.Intn(4) {
			case 0:
				c.read("all", s.rnd.Intn(g+2), "", nil, o)
			case 1:
				c.read("types", s.rnd.Intn(g+2), "", u.Types[:1+s.rnd.Intn(3)], o)
			case 2:
				c.read("stream", s.rnd.Intn(3), u.Streams[s.rnd.Intn(3)], nil, o)
			case 3:
				c.read("all", 0, "", nil, o)
			}
		}
		sb := newSubber(ep, sut.store)
		sb.below = sut.backing
		nsub := 0
		for i := 0; i < 3; i++ {
			s.saveSecrets(c, 1+i, -1, some()...)
		}
		for step := 0; step < 24 && !ep.isDead(); step++ {
			sut.clk.set(int64(1000 + step))
			switch x := s.rnd.Intn(12); {
			case x < 3:
				st := 1 + s.rnd.Intn(3)
				s.saveSecrets(c, st, []int{-1, s.streamLen(u.Streams[st-1])}[s.rnd.Intn(2)], some()...)
				look()
			case x < 5:
				w := who()
				if step%3 == 0 {
					w = "nobody"
				}
				if s.rnd.Intn(5) == 0 { // the key store fails: nothing, or part of it, happened
					atomic.StoreInt64(&sut.keyFail, int64(1+s.rnd.Intn(2)))
					c.forget(w, true)
					atomic.StoreInt64(&sut.keyFail, 0)
					look()
				}
				c.forget(w, false)
				look()
				look()
			case x == 5:
				if sut.reopen != nil {
					c.reopen()
					sb.stopAll()
					sb = newSubber(ep, sut.store)
					sb.below = sut.backing
					c.store = sut.store
				}
			case x < 8:
				g := s.curMaxG()
				f := subFilters(u)[s.rnd.Intn(4)]
				nsub++
				sb.start(fmt.Sprintf("s%d", nsub), []int{-1, 0, 0, g, g + 1, 1 + s.rnd.Intn(g+1)}[s.rnd.Intn(6)], f.all, f.types, 300)
				s.saveSecrets(c, 1+s.rnd.Intn(3), -1, some()...)
				sb.settle()
			case x == 8:
				st := 1 + s.rnd.Intn(3)
				c.del(u.Streams[st-1], s.streamLen(u.Streams[st-1]), cxNo)
			default:
				look()
				look()
			}
		}
		for i := 0; i < 4 && !ep.isDead(); i++ {
			c.read("stream", 0, u.Streams[i%3], nil, readOpt{})
			c.read("types", 0, "", u.Types[i%3:i%3+1], readOpt{})
		}
		c.raw()
		sb.stopAll()
		return ep
	}}
}

// shredPause deletes a key at every point of a read, a save or the start of a subscription.
func shredPause(cfg *Cfg, kind string, what, n int) job {
	name := fmt.Sprintf("shredpause%d/%s/%d", n, kind, what)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%3]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*641+int64(n))
		s.c.conc = true
		sb := newSubber(ep, sut.store)
		sb.below = sut.backing
		other := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
		for k := 1; k <= 30 && !ep.isDead(); k++ {
			who, stay := fmt.Sprintf("w%d", k), fmt.Sprintf("y%d", k)
			if what != 3 {
				s.saveSecrets(s.c, 1, -1, stay, who, "-")
			}
			g := s.curMaxG()
			if k%2 == 0 && sut.reopen != nil { // nothing is cached
				s.c.reopen()
				other.store = sut.store
				sb.stopAll()
				sb = newSubber(ep, sut.store)
				sb.below = sut.backing
			}
			paused, resume := sut.p.arm(k)
			da := goDone(func() {
				switch what {
				case 0:
					s.c.read("all", g, "", nil, readOpt{between: sut.p.hit})
				case 1:
					s.c.read("types", g, "", u.Types[:2], readOpt{between: sut.p.hit})
				case 2, 3:
					s.saveSecrets(s.c, 1, -1, stay, who, "-")
				case 4:
					sb.startOpt(fmt.Sprintf("p%d", k), g, k%3 > 0, u.Types[:2], 300, nil, cxNo, false)
				}
			})
			last := false
			select {
			case <-paused:
			case <-da:
				last = true
			}
			db := goDone(func() {
				other.forget(who, false)
				other.read("stream", 0, u.Streams[0], nil, readOpt{})
			})
			waitDone(db, 20*time.Millisecond)
			resume()
			<-da
			<-db
			s.saveSecrets(other, 2, -1, who)
			s.c.read("all", g, "", nil, readOpt{})
			sb.start(fmt.Sprintf("f%d", k), g, k%2 == 0, u.Types[:1], 300)
			s.saveSecrets(other, 2, -1, stay)
			sb.settle()
			sb.stopAll()
			sb = newSubber(ep, sut.store)
			sb.below = sut.backing
			// the next round starts with streams that can be read again
			for st := 0; st < 2; st++ {
				s.c.del(u.Streams[st], s.streamLen(u.Streams[st]), cxNo)
			}
			if last {
				break
			}
		}
		return ep
	}}
}

// shredRace deletes keys while other clients save and read.
func shredRace(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("shredrace%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%3]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*643+int64(n))
		s.c.conc = true
		for i := 0; i < 3; i++ {
			s.saveSecrets(s.c, 1+i, -1, subject(i), "-", subject(i+1))
		}
		if n%2 == 1 && sut.reopen != nil {
			s.c.reopen()
		}
		sut.p.jitter = []int64{30, 0, 150}[n%3]
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			c := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
			rnd := rand.New(rand.NewSource(cfg.seed*647 + int64(n*10+w)))
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < 5 && !ep.isDead(); i++ {
					switch x := rnd.Intn(8); {
					case x < 2 && w%2 == 0:
						c.forget(subject(rnd.Intn(5)), false)
					case x < 5:
						s.saveSecrets(c, 1+rnd.Intn(3), -1, subject(rnd.Intn(5)), "-", subject(rnd.Intn(5)))
					case x == 5:
						c.read("all", rnd.Intn(5), "", nil, readOpt{})
					case x == 6:
						c.read("types", rnd.Intn(5), "", u.Types[:1+rnd.Intn(3)], readOpt{})
					default:
						c.read("stream", 0, u.Streams[rnd.Intn(3)], nil, readOpt{})
					}
				}
			}(w)
		}
		wg.Wait()
		sut.p.jitter = 0
		g := s.curMaxG()
		for f := 0; f <= g; f++ {
			s.c.read("all", f, "", nil, readOpt{})
		}
		sb := newSubber(ep, sut.store)
		sb.below = sut.backing
		sb.start("s", 0, true, nil, 300)
		sb.settle()
		sb.stopAll()
		return ep
	}}
}

func init() {
	planners["P16"] = func(cfg *Cfg) []job {
		var jobs []job
		for i, mode := range []string{"mix", "save", "opt", "del"} {
			kinds := append(append([]string{}, encKinds[2*i:]...), encKinds[:2*i]...)[:cfg.pick(4, 9)]
			jobs = append(jobs, scripted(cfg, mode, kinds, universes, seqOpt{subs: i%2 == 1})...)
		}
		for i := 0; i < cfg.pick(6, 60); i++ {
			for _, kind := range encKinds {
				jobs = append(jobs, retries(cfg, kind, i))
				if i < cfg.pick(3, 30) {
					jobs = append(jobs, firstKey(cfg, kind, i), encSubs(cfg, kind, i))
				}
			}
		}
		for i := 0; i < cfg.pick(3, 40); i++ {
			for _, kind := range []string{"emem", "eldb", "emem:cache", "ermem"} {
				jobs = append(jobs, stress(cfg, kind, 3, 6, i, true), subInject(cfg, kind, universes[i%3], i))
			}
		}
		return jobs
	}
	planners["P17"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(12, 150); i++ {
			for _, kind := range encKinds {
				jobs = append(jobs, shredding(cfg, kind, i))
				if i < cfg.pick(6, 80) {
					jobs = append(jobs, shredRace(cfg, kind, i))
				}
			}
		}
		for what := 0; what < 5; what++ {
			for i, kind := range []string{"emem", "eldb", "emem:cache", "eldb:cache", "emem:cache2", "ermem:cache"} {
				jobs = append(jobs, shredPause(cfg, kind, what, i))
			}
		}
		return jobs
	}
}
