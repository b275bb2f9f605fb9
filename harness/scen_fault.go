package main

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
)

func (s *seqRun) tagsByG() map[int]string {
	s.ep.mu.Lock()
	defer s.ep.mu.Unlock()
	out := map[int]string{}
	for tag, k := range s.ep.byTag {
		out[s.ep.recs[k-1]["g"].(int)] = tag
	}
	return out
}

// corruptG makes the stored records at these positions unreadable.
func (s *seqRun) corruptG(mangle bool, gs ...int) {
	tags := s.tagsByG()
	set := map[string]bool{}
	ks := []int{}
	for _, g := range gs {
		if t, ok := tags[g]; ok {
			set[t] = true
			s.ep.mu.Lock()
			ks = append(ks, s.ep.byTag[t])
			s.ep.mu.Unlock()
		}
	}
	if mangle {
		s.c.sut.gate.mangle.Store(set)
	} else {
		s.c.sut.gate.setCorrupt(set)
	}
	s.ep.log(line{"e": "corrupt", "ks": ks})
}

// damaged reads logs in which one or two records can not be decoded (or decrypted).
func damaged(cfg *Cfg, kind string, mangle bool, n int) job {
	name := fmt.Sprintf("damaged%d/%s/mangle=%v", n, kind, mangle)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%2]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*71+int64(n))
		if mangle {
			s.o.evKinds = []int{4}
		}
		c := s.c
		s.batch(c, 1, 2, -1)
		s.batch(c, 2, 1, -1)
		s.batch(c, 3, 1+n%2, -1)
		s.batch(c, 1, 1, -1)
		s.batch(c, 2, 2, -1)
		c.read("all", 0, "", nil, readOpt{})
		g := s.curMaxG()
		sets := [][]int{}
		for i := 1; i <= g; i++ {
			sets = append(sets, []int{i})
		}
		for i := 0; i < 3; i++ {
			sets = append(sets, []int{1 + s.rnd.Intn(g), 1 + s.rnd.Intn(g)})
		}
		types := [][]string{{u.Types[0]}, {u.Types[1]}, {u.Types[0], u.Types[1]}, {u.Types[2], u.Types[1], u.Types[0]}, {u.Types[1], "no such type"}}
		for si, set := range sets {
			if ep.isDead() {
				break
			}
			s.corruptG(mangle, set...)
			for f := 0; f <= g+1; f++ {
				c.read("all", f, "", nil, s.opt())
			}
			for _, ts := range types {
				for _, f := range []int{0, set[0], set[0] + 1, 1 + s.rnd.Intn(g)} {
					c.read("types", f, "", ts, s.opt())
				}
			}
			for _, st := range u.Streams[:3] {
				for f := 0; f <= 3; f++ {
					c.read("stream", f, st, nil, s.opt())
				}
				c.total(st, cxNo)
			}
			// a subscription that can not catch up
			if si%2 == n%2 && !mangle { // (subscriptions pass on what they can not decrypt as is)
				sb := newSubber(ep, sut.store)
				for _, cl := range s.cs {
					cl.conc = true
				}
				id := fmt.Sprintf("s%d", si)
				fs := subFilters(u)
				f := fs[s.rnd.Intn(4)]
				from := []int{0, set[0], set[0] + 1, 1 + s.rnd.Intn(g)}[s.rnd.Intn(4)]
				r := sb.startOpt(id, from, f.all, f.types, 100, nil, cxNo, false)
				if r != "ok" {
					time.Sleep(5 * time.Millisecond)
					sb.halt(id)
				}
				s.batch(c, 1+si%3, 1, -1)
				sb.settle()
				if r != "ok" {
					time.Sleep(5 * time.Millisecond)
				}
				sb.stopAll()
				for _, cl := range s.cs {
					cl.conc = false
				}
				c.read("all", g+1, "", nil, readOpt{})
			}
		}
		// deleting a stream with a damaged record either works or changes nothing
		s.corruptG(mangle, 1)
		c.del(u.Streams[0], s.streamLen(u.Streams[0])+1, cxNo)
		c.del(u.Streams[0], s.streamLen(u.Streams[0]), cxNo)
		c.total(u.Streams[0], cxNo)
		s.corruptG(mangle)
		s.observe(0)
		return ep
	}}
}

// cancelled reads give up after every number of records, in every way.
func cancelled(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("cancelled%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%2]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*73+int64(n))
		c := s.c
		for i := 0; i < 3; i++ {
			s.batch(c, 1, 1+i%2, -1)
			s.batch(c, 2, 1, -1)
			s.batch(c, 3, 1, -1)
		}
		c.read("all", 0, "", nil, readOpt{})
		g := s.curMaxG()
		read := func(o readOpt) {
			c.read("all", s.rnd.Intn(3), "", nil, o)
			c.read("types", s.rnd.Intn(3), "", u.Types[:1], o)
			c.read("types", s.rnd.Intn(3), "", u.Types[:2], o)
			c.read("types", 0, "", []string{u.Types[2], u.Types[0], u.Types[1]}, o)
			c.read("stream", s.rnd.Intn(3), u.Streams[0], nil, o)
			c.read("stream", 0, "no such stream", nil, o)
		}
		read(readOpt{cx: cxPre})
		for at := 0; at <= g+1 && !ep.isDead(); at++ {
			for _, own := range []bool{false, true} {
				for _, slow := range []bool{false, true} {
					o := readOpt{cx: cxMid, cancelAt: at, ownCtx: own, nextCtx: at%2 == 0}
					if slow {
						o.between = func() { time.Sleep(100 * time.Microsecond) }
					}
					read(o)
					if own && !slow {
						o.late = true
						read(o)
					}
				}
			}
		}
		for i := 0; i < 6 && !ep.isDead(); i++ {
			read(readOpt{cx: cxDead, between: func() { time.Sleep(time.Duration(s.rnd.Intn(120)) * time.Microsecond) }})
		}
		c.total(u.Streams[0], cxPre)
		s.observe(0)
		return ep
	}}
}

// connectionCut breaks the connection after the server produced k records.
func connectionCut(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("cut%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%2]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*79+int64(n))
		c := s.c
		local := &Client{ep: ep, sut: sut, store: sut.backing}
		for i := 0; i < 3; i++ {
			s.batch(c, 1, 2, -1)
			s.batch(c, 2, 1, -1)
		}
		c.read("all", 0, "", nil, readOpt{})
		k := 1 + n%10
		paused, resume := sut.p.arm(k)
		o := readOpt{cx: cxCut}
		d := goDone(func() {
			switch n % 4 {
			case 0:
				c.read("all", 0, "", nil, o)
			case 1:
				c.read("types", 0, "", u.Types[:2], o)
			case 2:
				c.read("stream", 0, u.Streams[0], nil, o)
			case 3:
				c.read("types", 0, "", u.Types[:1], o)
			}
		})
		select {
		case <-paused:
			go sut.cut()
			time.Sleep(5 * time.Millisecond)
		case <-d:
			sut.cut()
		}
		resume()
		<-d
		for _, o := range []readOpt{{cx: cxCut}, {cx: cxCut, nextCtx: true}} {
			c.read("all", 1, "", nil, o)
			c.read("stream", 0, u.Streams[1], nil, o)
			c.read("types", 0, "", u.Types[:2], o)
		}
		c.total(u.Streams[0], cxCut)
		c.del(u.Streams[0], 6, cxCut)
		local.read("all", 0, "", nil, readOpt{})
		s.batch(local, 1, 1, -1)
		local.read("all", 0, "", nil, readOpt{})
		return ep
	}}
}

// slowReader takes its time for one of the records of a read.
func slowReader(cfg *Cfg, kind string, n int, wait time.Duration) job {
	name := fmt.Sprintf("slowreader%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%2]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*57+int64(n))
		for i := 0; i < 9; i++ {
			s.batch(s.c, 1+i%3, 1+i%2, -1)
		}
		sb := newSubber(ep, sut.store)
		var wg sync.WaitGroup
		reads := []struct {
			op    string
			types []string
		}{{"all", nil}, {"types", u.Types[:1]}, {"types", u.Types[:2]}, {"types", u.Types[:3]}, {"stream", nil}}
		for i, r := range reads {
			c := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
			k, step := s.rnd.Intn(3), 0
			o := readOpt{nextCtx: (i+n)%2 == 0, between: func() {
				if step == k {
					time.Sleep(wait)
				}
				step++
			}}
			r := r
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.read(r.op, 0, u.Streams[0], r.types, o)
			}()
		}
		s.c.conc = true
		s.batch(s.c, 1, 2, -1)
		sb.startOpt("slow", 0, n%2 == 0, u.Types[:2], 100, func(m int) {
			if m == 2 {
				time.Sleep(wait)
			}
		}, cxNo, false)
		s.batch(s.c, 2, 2, -1)
		wg.Wait()
		sb.settle()
		s.observe(0)
		return ep
	}}
}

// hammer reads without a pause, unrecorded, while it saves and deletes.
func hammer(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("hammer%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%2]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*59+int64(n))
		c := s.c
		s.batch(c, 1, 2, -1)
		s.batch(c, 2, 1, -1)
		var stop int32
		defer atomic.StoreInt32(&stop, 1)
		ctx := context.Background()
		drain := func(it rangedb.RecordIterator) {
			for i := 0; i < 5 && it.Next(); i++ {
			}
			for it.Next() {
			}
		}
		spin := []func(){
			func() { drain(sut.store.EventsByStream(ctx, 0, u.Streams[1])) },
			func() { drain(sut.store.EventsByStream(ctx, 0, "no such stream")) },
			func() { drain(sut.store.Events(ctx, 1)) },
			func() { drain(sut.store.EventsByAggregateTypes(ctx, 0, u.Types[1])) },
			func() { drain(sut.store.EventsByAggregateTypes(ctx, 0, u.Types[2], u.Types[1], "t")) },
			func() { _, _ = sut.store.TotalEventsInStream(ctx, u.Streams[1]) },
			func() {
				sub := sut.store.AggregateTypesSubscription(ctx, 1, rangedb.RecordSubscriberFunc(func(*rangedb.Record) {}), u.Types[2], u.Types[1])
				_ = sub.StartFrom(0)
				sub.Stop()
			},
			func() { _ = sut.store.OptimisticDeleteStream(ctx, 0, "no such stream") },
			func() { _, _ = sut.store.OptimisticSave(ctx, 77, u.Streams[2], &rangedb.EventRecord{Event: &evA{}}) },
		}
		for i := 0; i < 3; i++ {
			f := spin[(n+i/2)%len(spin)]
			go func() {
				for atomic.LoadInt32(&stop) == 0 {
					f()
				}
			}()
		}
		have := 2
		for i := 0; i < cfg.pick(120, 400) && !ep.isDead(); i++ {
			switch i % 8 {
			case 3:
				if s.batch(c, 1, 1, have) == "ok" {
					have++
				}
			case 5:
				s.batch(c, 1, 1, have+1)
			case 7:
				c.del(u.Streams[0], have, cxNo)
				have = 0
			default:
				if s.batch(c, 1, 1, -1) == "ok" {
					have++
				}
			}
		}
		atomic.StoreInt32(&stop, 1)
		c.read("all", 0, "", nil, readOpt{})
		c.read("types", 0, "", u.Types[:3], readOpt{})
		c.read("stream", 0, u.Streams[0], nil, readOpt{})
		return ep
	}}
}

// leftOpen closes and opens the store while reads have begun that nobody
// goes on with, or only later.
func leftOpen(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("leftopen%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%2]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*131+int64(n))
		c := s.c
		for i := 0; i < 6; i++ {
			s.batch(c, 1+i%3, 1+s.rnd.Intn(3), -1)
		}
		c.read("all", 0, "", nil, readOpt{})
		for round := 0; round < 3 && !ep.isDead(); round++ {
			resume := make(chan struct{})
			var ends []<-chan struct{}
			for i := 0; i < 1+s.rnd.Intn(3); i++ {
				at, k := s.rnd.Intn(4), 0
				paused := make(chan struct{})
				o := readOpt{cx: cxCut, between: func() {
					if k == at {
						close(paused)
						<-resume
					}
					k++
				}}
				x := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
				op, types := []string{"all", "types", "stream", "types"}[s.rnd.Intn(4)], u.Types[:1+s.rnd.Intn(3)]
				d := goDone(func() { x.read(op, 0, u.Streams[0], types, o) })
				ends = append(ends, d)
				select {
				case <-paused:
				case <-d:
				}
			}
			c.reopen()
			if n%2 == 0 {
				close(resume)
			}
			s.batch(c, 1, 1, -1)
			c.read("all", 0, "", nil, readOpt{})
			c.read("types", 0, "", u.Types[:3], readOpt{})
			s.batch(c, 2, 2, s.streamLen(u.Streams[1]))
			c.del(u.Streams[2], s.streamLen(u.Streams[2]), cxNo)
			s.batch(c, 3, 2, -1)
			if n%2 == 1 {
				close(resume)
			}
			for _, d := range ends {
				<-d
			}
		}
		c.read("all", 0, "", nil, readOpt{})
		return ep
	}}
}

// wedge performs a call that fails, is cancelled or abandoned, and then
// checks that every other call still works.
func wedge(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("wedge%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := universes[n%2]
		s := newSeqRun(ep, sut, seqOpt{uni: u, twoSides: true}, cfg.seed*83+int64(n))
		c := s.c
		for _, x := range s.cs {
			x.conc = true
		}
		sb := newSubber(ep, sut.store)
		for i := 0; i < 3; i++ {
			s.batch(c, 1+i, 2, -1)
		}
		c.read("all", 0, "", nil, readOpt{})
		block := make(chan struct{})
		var once sync.Once
		unblock := func() { once.Do(func() { close(block) }) }
		defer unblock()
		nsub := 0
		abandon := func(op string, types []string, at int) {
			c.read(op, 0, u.Streams[0], types, readOpt{cx: cxMid, cancelAt: at, abandon: true})
		}
		calls := []func(){
			func() { c.del(u.Streams[0], 99, cxNo) },
			func() { c.del("no such stream", 0, cxNo) },
			func() { c.del(u.Streams[1], s.streamLen(u.Streams[1]), cxPre) },
			func() { s.apply(scriptOp{Op: "save", S: 1, T: 1, N: 3, Exp: -1, Fail: "ser", Pos: 1 + s.rnd.Intn(3)}) },
			func() { s.apply(scriptOp{Op: "save", S: 1, T: 1, N: 3, Exp: -1, Fail: "type", Pos: 2 + s.rnd.Intn(2)}) },
			func() { s.apply(scriptOp{Op: "save", S: 2, T: 2, N: 2, Exp: 77}) },
			func() { s.apply(scriptOp{Op: "save", S: 2, T: 2, N: 3, Exp: -1, Fail: "mid", Pos: 1 + s.rnd.Intn(2)}) },
			func() { s.apply(scriptOp{Op: "save", S: 2, T: 2, N: 2, Exp: -1, Fail: "pre", Pos: 1}) },
			func() { s.apply(scriptOp{Op: "save", S: 2, T: 2, N: 0, Exp: -1, Fail: "empty"}) },
			func() { s.apply(scriptOp{Op: "save", S: 3, T: 3, N: 2, Exp: -1, Fail: "meta", Pos: 2}) },
			func() { abandon("all", nil, 0) },
			func() { abandon("all", nil, 1+s.rnd.Intn(3)) },
			func() { abandon("stream", nil, s.rnd.Intn(2)) },
			func() { abandon("types", u.Types[:1], s.rnd.Intn(2)) },
			func() { abandon("types", u.Types[:2], 0) },
			func() { abandon("types", u.Types[:3], 1+s.rnd.Intn(3)) },
			func() { c.total(u.Streams[0], cxPre) },
			func() { c.read("stream", 0, "no such stream", nil, readOpt{}) },
			func() { c.read("types", 0, "", []string{}, readOpt{}) },
			func() { // a subscriber that never comes back
				nsub++
				id := fmt.Sprintf("b%d", nsub)
				sb.startOpt(id, -1, nsub%2 == 0, u.Types[:2], s.rnd.Intn(2), func(int) { <-block }, cxNo, true)
			},
			func() { // subscribing with a context that is gone
				nsub++
				sb.startOpt(fmt.Sprintf("b%d", nsub), []int{-1, 0, 2}[nsub%3], nsub%2 == 0, u.Types[:2], 5, nil, cxPre, true)
			},
			func() { // failing catch-up
				nsub++
				s.corruptG(false, 2)
				id := fmt.Sprintf("b%d", nsub)
				if sb.startOpt(id, 0, true, nil, 5, nil, cxNo, true) != "ok" {
					sb.halt(id)
				}
				c.read("all", 0, "", nil, readOpt{})
				c.read("types", 0, "", u.Types[:3], readOpt{})
				c.del(u.Streams[0], s.streamLen(u.Streams[0]), cxNo)
				s.corruptG(false)
			},
			func() { // many abandoned at once
				for i := 0; i < 6; i++ {
					abandon([]string{"all", "types", "stream"}[i%3], u.Types[:1+i%3], i%2)
				}
			},
			func() { // stopped twice
				nsub++
				id := fmt.Sprintf("b%d", nsub)
				sb.startOpt(id, 0, true, nil, 5, nil, cxNo, true)
				sb.stop(id)
				sb.stop(id)
			},
		}
		for i := 0; i < 4 && !ep.isDead(); i++ {
			x := (n*5 + i*7) % len(calls)
			calls[x]()
			if s.rnd.Intn(3) == 0 {
				calls[s.rnd.Intn(len(calls))]()
			}
			if sut.reopen != nil && s.rnd.Intn(4) == 0 && nsub == 0 {
				c.conc = false
				c.reopen()
				c.conc = true
				for _, x := range s.cs {
					x.store = sut.store
				}
				sb.store = sut.store
			}
			other := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
			for _, cl := range []*Client{other, {ep: ep, sut: sut, store: sut.backing, conc: true}} {
				if cl != other && !sut.remote {
					continue
				}
				s.batch(cl, 1, 1, -1)
				s.batch(cl, 2, 1, s.streamLen(u.Streams[1]))
				cl.read("all", 0, "", nil, readOpt{})
				cl.read("types", 0, "", u.Types[:3], readOpt{})
				cl.read("stream", 0, u.Streams[1], nil, readOpt{})
				cl.total(u.Streams[0], cxNo)
				cl.del(u.Streams[2], s.streamLen(u.Streams[2]), cxNo)
				s.batch(cl, 3, 2, -1)
				if ep.isDead() {
					return ep
				}
			}
			id := fmt.Sprintf("p%d", i)
			sb.start(id, s.curMaxG()+1, true, nil, 100)
			s.batch(other, 1, 1, -1)
			sb.settle()
			sb.stop(id)
		}
		unblock()
		return ep
	}}
}

// binding while others read: the process must survive, the reads must fit.
func bindWhileReading(cfg *Cfg, kind string) job {
	name := "bind/" + kind
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: universes[0]}, cfg.seed)
		for i := 0; i < 10; i++ {
			s.batch(s.c, 1+i%3, 3, -1)
		}
		var stop int32
		var wg sync.WaitGroup
		for w := 0; w < 2; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for atomic.LoadInt32(&stop) == 0 {
					bindAll(sut.store)
				}
			}()
		}
		var rg sync.WaitGroup
		for w := 0; w < 3; w++ {
			c := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
			rg.Add(1)
			go func() {
				defer rg.Done()
				for i := 0; i < 8; i++ {
					c.read("all", 0, "", nil, readOpt{})
					c.read("types", 0, "", universes[0].Types, readOpt{})
				}
			}()
		}
		rg.Wait()
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		return ep
	}}
}

var _ = context.Background

func init() {
	kinds := []string{"mem", "ldb", "rmem", "rldb", "emem", "eldb", "memmp", "ldbmp"}
	planners["P11"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(2, 20); i++ {
			for _, kind := range kinds {
				jobs = append(jobs, damaged(cfg, kind, false, i), cancelled(cfg, kind, i))
				if kind[0] == 'e' {
					jobs = append(jobs, damaged(cfg, kind, true, i))
				}
			}
		}
		for i := 0; i < cfg.pick(1, 6); i++ {
			for j, kind := range kinds[:6] {
				jobs = append(jobs, slowReader(cfg, kind, i*3+j, time.Duration(cfg.pick(1500, 7000))*time.Millisecond))
			}
		}
		for i := 0; i < cfg.pick(24, 80); i++ {
			jobs = append(jobs, connectionCut(cfg, []string{"rmem", "rldb"}[i%2], i/2))
		}
		return jobs
	}
	planners["P12"] = func(cfg *Cfg) []job {
		jobs := pausePairs(cfg, kinds[:cfg.pick(2, 6)], true)
		for i := 0; i < cfg.pick(9, 27); i++ {
			for _, kind := range []string{"mem", "ldb", "emem", "eldb"}[:cfg.pick(3, 4)] {
				jobs = append(jobs, hammer(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(24, 240); i++ {
			for _, kind := range kinds[:6] {
				jobs = append(jobs, wedge(cfg, kind, i))
			}
		}
		for _, kind := range kinds {
			jobs = append(jobs, bindWhileReading(cfg, kind))
		}
		for i := 0; i < cfg.pick(8, 80); i++ {
			for _, kind := range []string{"ldb", "ldbmp", "eldb"} {
				jobs = append(jobs, leftOpen(cfg, kind, i))
			}
		}
		return jobs
	}
}
