package main

import (
	"context"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
)

// names that can be addressed in a path
var webUniverses = []Universe{
	{"conventional", []string{"thing!1", "thing!2", "another!1", "that!1"}, []string{"thing", "another", "that"}},
	{"custom", []string{"orders", "x-1", "Customer stream", "été路"}, []string{"order", "x", "Customer-Type"}},
	{"escapes", []string{"a.json", "50%", "a%20b", "a?b#c+d&e"}, []string{"order_2", "100%?#", "Größe 3"}},
	{"separators", []string{"a", "a$!x", "a$!", "a$"}, []string{"t", "t-u", "t-"}},
	{"quotes", []string{`a"b`, `a\b`, "a.ndjson.json", "~'()*;:@="}, []string{"A", "v1.2", "v1.json"}},
}

// totals waits for the listed totals to settle and records them.
func (s *seqRun) totals(h *httpStore) {
	s.ep.mu.Lock()
	want := 0
	for _, l := range s.ep.lines {
		if l["op"] == "save" && l["r"] == "ok" {
			want += len(l["evs"].([]line))
		}
	}
	s.ep.mu.Unlock()
	s.readTotals(h, false, func(total int) bool { return total == want })
}

// lister lists the totals.
type lister interface {
	totals() (map[string]int, int, error)
}

// readTotals records the listed totals, after waiting a while until they are complete.
func (s *seqRun) readTotals(h lister, rough bool, complete func(total int) bool) {
	s.c.do(line{"op": "totals", "r": "?", "n": 0, "rough": rough, "totals": []line{}}, func(res line) {
		for deadline := time.Now().Add(4 * time.Second); ; time.Sleep(2 * time.Millisecond) {
			m, total, err := h.totals()
			if err == nil && !complete(total) && time.Now().Before(deadline) {
				continue
			}
			res["r"] = classify(err, res)
			res["n"] = total
			var names []string
			for n := range m {
				names = append(names, n)
			}
			sort.Strings(names)
			out := []line{}
			for _, n := range names {
				out = append(out, line{"at": n, "n": m[n]})
			}
			res["totals"] = out
			return
		}
	})
}

func webScripts(cfg *Cfg, mode string, kinds []string) []job {
	var jobs []job
	for i, sc := range cfg.scripts[mode] {
		for j, kind := range kinds {
			i, sc, kind := i, sc, kind
			u := webUniverses[(i+j)%len(webUniverses)]
			name := fmt.Sprintf("%s%d/%s/%s", mode, i, kind, u.Name)
			jobs = append(jobs, job{name: name, run: func() *Ep {
				sut := newSUT(kind)
				defer sut.close()
				o := seqOpt{uni: u, twoSides: true, bigNums: true}
				ep := newEp(name)
				s := newSeqRun(ep, sut, o, cfg.seed*1000003+int64(i))
				for n, op := range sc {
					s.apply(op)
					if n == len(sc)-1 || s.rnd.Intn(3) == 0 {
						s.observe(0)
						s.totals(sut.store.(*httpStore))
					}
					if ep.isDead() {
						break
					}
				}
				return ep
			}})
		}
	}
	return jobs
}

func webStress(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("webstress%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		s := newSeqRun(ep, sut, seqOpt{uni: webUniverses[n%5]}, cfg.seed*211+int64(n))
		sut.p.jitter = []int64{0, 40, 120}[n%3]
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			c := &Client{ep: ep, sut: sut, store: sut.store, conc: true}
			if w == 3 {
				c.store = sut.backing
			}
			rnd := rand.New(rand.NewSource(cfg.seed*999 + int64(n*10+w)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 6 && !ep.isDead(); i++ {
					s.randomOp(c, rnd)
				}
			}()
		}
		wg.Wait()
		sut.p.jitter = 0
		s.observe(0)
		s.totals(sut.store.(*httpStore))
		return ep
	}}
}

// webDamaged lists logs with unreadable records.
func webDamaged(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("webdamaged%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		u := webUniverses[n%5]
		s := newSeqRun(ep, sut, seqOpt{uni: u}, cfg.seed*71+int64(n))
		for i := 0; i < 4; i++ {
			s.batch(s.c, 1+i%3, 1+i%2, -1)
		}
		s.c.read("all", 0, "", nil, readOpt{})
		g := s.curMaxG()
		for i := 1; i <= g; i++ {
			s.corruptG(false, i)
			for k := 0; k < 3; k++ {
				s.c.read("all", 0, "", nil, readOpt{})
				s.c.read("stream", 0, u.Streams[(i+k)%3], nil, readOpt{})
				s.c.read("types", 0, "", u.Types[:1+(i+k)%3], readOpt{})
			}
		}
		s.corruptG(false)
		s.observe(0)
		s.totals(sut.store.(*httpStore))
		return ep
	}}
}

// feeds connects WebSocket clients from every position while events are saved.
func feeds(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("feeds%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		u := webUniverses[n%5]
		s, closeAll := newSubSession(cfg, kind, name, u, n)
		defer closeAll()
		sut, sb := s.c.sut, s.sb
		ws := newWSServer(sut)
		sb.async = true
		sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
			return &wsSub{w: ws, accept: accept, all: all, types: types, closed: make(chan struct{})}
		}
		sut.p.jitter = []int64{0, 30, 100}[n%3]
		for i := 0; i < n%4; i++ {
			s.saveSome(s.c, 1+i, 1+i%2)
		}
		s.c.read("all", 0, "", nil, readOpt{})
		filters := []struct {
			all   bool
			types []string
		}{{true, nil}, {false, u.Types[:1]}, {false, []string{u.Types[1], u.Types[0]}}, {false, []string{u.Types[2], "no-such-type"}}, {false, u.Types[:3]}}
		live := []string{}
		for i := 0; i < 8 && !s.ep.isDead(); i++ {
			g := s.curMaxG()
			f := filters[s.rnd.Intn(len(filters))]
			from := []int{0, 1, g, g + 1, g + 2, g - 1, 1 + s.rnd.Intn(g+1)}[s.rnd.Intn(7)]
			if from < 0 {
				from = 0
			}
			id := fmt.Sprintf("s%d", i)
			var wg sync.WaitGroup
			var dwg tasks // only used under mu, and not after done
			done := false
			for w := 0; w < 2; w++ {
				c := &Client{ep: s.ep, sut: sut, store: sut.store, conc: true}
				k := s.rnd.Intn(3)
				ty := 1 + s.rnd.Intn(3)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; j < k; j++ {
						s.saveSome(c, ty, 1)
					}
				}()
			}
			left := 2
			var mu sync.Mutex
			delay := func(k int) { // saves while it catches up
				mu.Lock()
				defer mu.Unlock()
				if left > 0 && i%2 == 0 && !done {
					s.bg(1+k%3, 1, &dwg)
				}
				left--
			}
			sb.startOpt(id, from, f.all, f.types, 0, delay, cxNo, false)
			live = append(live, id)
			if len(live) > 3 && s.rnd.Intn(2) == 0 {
				sb.stop(live[0])
				live = live[1:]
			}
			if s.rnd.Intn(3) == 0 {
				st := s.rnd.Intn(3)
				s.c.del(u.Streams[st], s.streamLen(u.Streams[st]), cxNo)
			}
			wg.Wait()
			mu.Lock()
			done = true
			mu.Unlock()
			dwg.Wait()
			sb.settle()
		}
		sut.p.jitter = 0
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// slowFeeds: clients that do not read must not disturb the others.
func slowFeeds(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("slowfeeds%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		u := webUniverses[n%5]
		s, closeAll := newSubSession(cfg, kind, name, u, n)
		defer closeAll()
		sut, sb := s.c.sut, s.sb
		ws := newWSServer(sut)
		sb.async = true
		sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
			return &wsSub{w: ws, accept: accept, all: all, types: types, closed: make(chan struct{})}
		}
		s.saveSome(s.c, 1, 1)
		block := make(chan struct{})
		for i := 0; i < 2; i++ {
			sb.start(fmt.Sprintf("h%d", i), i, i == 0, u.Types[:2], 0)
			k := []int{0, 1, 5}[n%3]
			slow := func(m int) {
				if m >= k {
					<-block
				}
			}
			sb.startOpt(fmt.Sprintf("slow%d", i), 0, i == 1, []string{u.Types[0]}, 0, slow, cxNo, true)
			sb.startOpt(fmt.Sprintf("gone%d", i), 0, i == 0, u.Types[:1], 0, nil, cxNo, true)
		}
		sb.startOpt("late", 0, true, nil, 0, func(int) { time.Sleep(300 * time.Microsecond) }, cxNo, true)
		for i := 0; i < 12 && !s.ep.isDead(); i++ {
			for j := 0; j < 4; j++ {
				s.saveSome(s.c, 1+(i+j)%2, 1)
			}
			if i == 3 {
				sb.stop("gone0")
			}
			if i == 5 {
				sb.stop("gone1")
			}
			if i == 8 {
				sb.start("h9", s.curMaxG()-3, true, nil, 0)
			}
			sb.settle()
		}
		close(block)
		s.saveSome(s.c, 1, 2)
		sb.settle()
		for _, id := range []string{"slow0", "slow1", "late"} {
			sb.fate(id, false)
		}
		for _, id := range []string{"gone0", "gone1"} {
			sb.fate(id, true)
		}
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

func init() {
	web := []string{"hmem", "hldb"}
	planners["P14"] = func(cfg *Cfg) []job {
		var jobs []job
		for _, mode := range []string{"mix", "save", "opt", "del"} {
			jobs = append(jobs, webScripts(cfg, mode, web)...)
		}
		for i := 0; i < cfg.pick(20, 300); i++ {
			for _, kind := range web {
				jobs = append(jobs, webStress(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(5, 40); i++ {
			for _, kind := range web {
				jobs = append(jobs, webDamaged(cfg, kind, i))
			}
		}
		for _, kind := range web {
			jobs = append(jobs, longLog(cfg, kind, cfg.pick(210, 1200)))
		}
		return jobs
	}
	planners["P15"] = func(cfg *Cfg) []job {
		var jobs []job
		for i := 0; i < cfg.pick(30, 400); i++ {
			for _, kind := range []string{"mem", "ldb", "rmem"} {
				jobs = append(jobs, feeds(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(6, 60); i++ {
			for _, kind := range []string{"mem", "ldb"} {
				jobs = append(jobs, slowFeeds(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(6, 40); i++ {
			jobs = append(jobs, storm(cfg, []string{"mem", "ldb"}[i%2], i))
		}
		return jobs
	}
}

// storm: more events at once than all buffers hold, while clients stop
// reading one after the other. Any of them may be cut off, visibly; clients
// that come later are served.
func storm(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("storm%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		u := webUniverses[n%5]
		s, closeAll := newSubSession(cfg, kind, name, u, n)
		defer closeAll()
		sut, sb := s.c.sut, s.sb
		sb.async = true
		if sut.remote {
			sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
				return &pbSub{ctx: ctx, client: rangedbpb.NewRangeDBClient(sut.conn()), accept: accept, all: all, types: types, ended: make(chan struct{})}
			}
		} else {
			ws := newWSServer(sut)
			sb.make = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
				return &wsSub{w: ws, accept: accept, all: all, types: types, closed: make(chan struct{})}
			}
		}
		meta := func(j int) int {
			if sut.remote && j%4 == 0 {
				return bigMeta // the connections of remote clients hold more
			}
			return 0
		}
		s.saveSome(s.c, 1, 1)
		sb.settle()
		block := make(chan struct{})
		ids := []string{"h0", "h1"}
		sb.start("h0", 0, true, nil, 0)
		sb.start("h1", 0, false, u.Types[:2], 0)
		for i := 0; i < 6+n%3*2; i++ {
			k := 1 + i*(1+n%2)
			id := fmt.Sprintf("stuck%d", i)
			sb.startOpt(id, 0, i%3 != 2, u.Types[:2], 0, func(m int) {
				if m >= k {
					<-block
				}
			}, cxNo, true)
			ids = append(ids, id)
		}
		sb.settle()
		sb.setLossy("h0")
		sb.setLossy("h1")
		for i := 0; i < 10 && !s.ep.isDead(); i++ {
			var evs []*Ev
			for j := 0; j < 48; j++ {
				evs = append(evs, newEv(j%2, u.Types[0], "id1", uint64(i*48+j), meta(j), 0, nil))
			}
			s.c.save(u.Streams[i%2], -1, evs, cxNo, nil)
		}
		time.Sleep(time.Duration(200+n%4*300) * time.Millisecond)
		close(block)
		for _, id := range ids {
			sb.fate(id, false)
		}
		sb.start("after", 0, true, nil, 0)
		sb.start("after1", s.curMaxG(), false, u.Types[:1], 0)
		sb.settle()
		s.saveSome(s.c, 1, 2)
		sb.settle()
		sb.stopAll()
		return s.ep
	}}
}
