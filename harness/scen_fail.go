package main

import (
	"context"
	"fmt"
	"math/rand"
)

// longLog crosses the widths positions could be squeezed into: many events,
// in several streams and types, with reads around each boundary.
func longLog(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("long%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: universes[0], twoSides: true}, cfg.seed)
		c := s.c
		u := universes[0]
		total, first := 0, 0
		for total < n && !ep.isDead() {
			k := 1 + s.rnd.Intn(40)
			st := 0
			if s.rnd.Intn(4) == 0 {
				st = 1 + s.rnd.Intn(3)
			}
			var evs []*Ev
			for i := 0; i < k; i++ {
				evs = append(evs, newEv(s.pickKind(), u.Types[st%3], fmt.Sprintf("id%d", st), uint64(i), 0, 0, nil))
			}
			exp := -1
			if st == 0 {
				if s.rnd.Intn(2) == 0 {
					exp = first
				}
				first += k
			}
			c.save(u.Streams[st], exp, evs, cxNo, nil)
			total += k
			if s.rnd.Intn(3) == 0 { // too late, too early, and by a lot
				for _, wrong := range []int{first - 1, first + 1 + s.rnd.Intn(300), s.rnd.Intn(first + 1), 0} {
					if wrong != first && wrong >= 0 {
						s.client().save(u.Streams[0], wrong, []*Ev{newEv(0, u.Types[0], "id0", 1, 0, 0, nil)}, cxNo, nil)
						s.client().del(u.Streams[0], wrong, cxNo)
					}
				}
			}
		}
		for _, f := range []int{0, 1, 9, 10, 11, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, first - 1, first, first + 1, total - 1, total, total + 1} {
			s.client().read("stream", f, u.Streams[0], nil, s.opt())
			s.client().read("all", f, "", nil, s.opt())
			s.client().read("types", f, "", []string{u.Types[0], u.Types[1]}, s.opt())
		}
		s.client().total(u.Streams[0], cxNo)
		c.save(u.Streams[0], first-1, []*Ev{newEv(0, u.Types[0], "id0", 1, 0, 0, nil)}, cxNo, nil)
		c.save(u.Streams[0], first, []*Ev{newEv(0, u.Types[0], "id0", 1, 0, 0, nil)}, cxNo, nil)
		if sut.reopen != nil {
			s.c.reopen()
			c.save(u.Streams[0], -1, []*Ev{newEv(0, u.Types[0], "id0", 1, 0, 0, nil)}, cxNo, nil)
		}
		c.del(u.Streams[1], 0, cxNo)
		s.observe(0)
		c.del(u.Streams[0], first, cxNo)
		c.save(u.Streams[0], -1, []*Ev{newEv(0, u.Types[0], "id0", 1, 0, 0, nil)}, cxNo, nil)
		s.observe(0)
		return ep
	}}
}

// failureJobs tries every way a save can fail at every place of the batch,
// on an empty and on an existing stream, with and without expected position.
func failureJobs(cfg *Cfg) []job {
	var jobs []job
	for _, kind := range allKinds {
		for _, existing := range []bool{false, true} {
			kind, existing := kind, existing
			name := fmt.Sprintf("failures/%s/existing=%v", kind, existing)
			jobs = append(jobs, job{name: name, run: func() *Ep {
				sut := newSUT(kind)
				defer sut.close()
				ep := newEp(name)
				s := newSeqRun(ep, sut, seqOpt{uni: universes[1]}, cfg.seed)
				sb := newSubber(ep, sut.store)
				s.c.conc = true
				sb.start("all", -1, true, nil, 400)
				sb.start("t", -1, false, s.o.uni.Types[:2], 400)
				n := 0
				if existing {
					s.apply(scriptOp{Op: "save", S: 1, T: 1, N: 2, Exp: -1})
					s.apply(scriptOp{Op: "save", S: 2, T: 2, N: 1, Exp: -1})
					n = 2
				}
				s.observe(0)
				for size := 0; size <= 4; size++ {
					for _, fail := range []string{"none", "type", "aid", "ser", "meta", "mid", "pre", "empty"} {
						if (fail == "empty") != (size == 0) {
							continue
						}
						for pos := 1; pos <= size || pos == 1; pos++ {
							if (fail == "none" || fail == "pre") && pos > 1 {
								break
							}
							if (fail == "type" || fail == "aid") && size < 2 {
								continue
							}
							for _, exp := range []int{-1, n, n + 1} {
								if fail == "none" && exp != n+1 {
									continue
								}
								if s.apply(scriptOp{Op: "save", S: 1, T: 1, N: size, Exp: exp, Fail: fail, Pos: pos}) == "ok" {
									n += size // a cancelled context may come too late
								}
								if ep.isDead() {
									return ep
								}
								s.c.read("all", 0, "", nil, readOpt{})
								s.c.total(s.o.uni.Streams[0], cxNo)
								s.c.read("types", 0, "", s.o.uni.Types[:1+s.rnd.Intn(2)], readOpt{})
								s.c.read("stream", 0, s.o.uni.Streams[0], nil, readOpt{})
							}
						}
					}
					if s.rnd.Intn(2) == 0 || size == 4 {
						if s.apply(scriptOp{Op: "save", S: 1, T: 1, N: 1 + s.rnd.Intn(2), Exp: n}) == "ok" {
							n = s.streamLen(s.o.uni.Streams[0])
						}
						s.observe(0)
					}
				}
				s.apply(scriptOp{Op: "save", S: 2, T: 2, N: 2, Exp: -1})
				sb.settle()
				s.observe(1)
				return ep
			}})
		}
	}
	return jobs
}

// largeBatches saves batches of many events, which fail at the beginning,
// anywhere, or at the very end.
func largeBatches(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("large%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: universes[n%2]}, cfg.seed*17+int64(n))
		sb := newSubber(ep, sut.store)
		s.c.conc = true
		if !sut.remote { // it may cut off who is not fast enough for so many
			sb.start("all", -1, true, nil, 2000)
		}
		s.apply(scriptOp{Op: "save", S: 2, T: 2, N: 2, Exp: -1})
		sizes := [][]int{{33, 130}, {65, 260}, {101, 40}, {257, 17}}[n%4]
		have := 0
		for _, size := range sizes {
			size += s.rnd.Intn(3)
			for _, fail := range []string{"type", "aid", "ser", "meta", "mid"} {
				if sut.remote && fail == "mid" {
					continue
				}
				pos := []int{size, size, 2 + s.rnd.Intn(size-1)}[s.rnd.Intn(3)]
				if s.apply(scriptOp{Op: "save", S: 1, T: 1, N: size, Exp: []int{-1, have}[s.rnd.Intn(2)], Fail: fail, Pos: pos}) == "ok" {
					have += size // a cancelled context may come too late
				}
				if ep.isDead() {
					return ep
				}
				s.c.read("all", 0, "", nil, readOpt{})
				s.c.read("stream", have, s.o.uni.Streams[0], nil, readOpt{})
			}
			if s.apply(scriptOp{Op: "save", S: 1, T: 1, N: size, Exp: have + 1}) == "ok" {
				have += size
			}
			if s.apply(scriptOp{Op: "save", S: 1, T: 1, N: size, Exp: have}) == "ok" {
				have += size
			}
			s.observe(0)
			if sut.reopen == nil {
				sb.settle()
			}
		}
		sb.settle()
		s.c.del(s.o.uni.Streams[0], have, cxNo)
		s.observe(0)
		return ep
	}}
}

// streamLen asks the store itself: only used to choose further inputs.
func (s *seqRun) streamLen(stream string) int {
	n, _ := s.c.sut.backing.TotalEventsInStream(context.Background(), stream)
	return int(n)
}

var _ = rand.Int
