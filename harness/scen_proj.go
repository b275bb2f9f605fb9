package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/projection"
	"github.com/inklabs/rangedb/pkg/rangedbapi"
)

type snapStore interface {
	projection.SnapshotStore
	SnapshotPath(projection.SnapshotProjection) string
}

// projRun drives a service with statistics and a snapshot of them.
type projRun struct {
	ep     *Ep
	sut    *SUT
	u      Universe
	rnd    *rand.Rand
	disk   snapStore
	stats  *projection.AggregateTypeStats // nil: the service is stopped
	known  int                            // highest position logged
	torn   bool
	failed bool
	tap    *projection.AggregateTypeStats
	heard  int // known when the tap was attached
	fresh  int // saved since the service was known to be up to date
}

// cutProjection fails after n bytes of its snapshot.
type cutProjection struct {
	*projection.AggregateTypeStats
	n int
}

func (c *cutProjection) SaveSnapshot(w io.Writer) error {
	var b bytes.Buffer
	if err := c.AggregateTypeStats.SaveSnapshot(&b); err != nil {
		return err
	}
	n := c.n % (b.Len() + 1)
	_, _ = w.Write(b.Bytes()[:n])
	return fmt.Errorf("no space left")
}

func newProjRun(ep *Ep, sut *SUT, u Universe, rnd *rand.Rand) *projRun {
	ep.spec = "ProjectionTrace"
	ep.head = line{"recs": []line{}}
	p := &projRun{ep: ep, sut: sut, u: u, rnd: rnd, disk: projection.NewDiskSnapshotStore(scratch())}
	p.listen()
	return p
}

// listen attaches a subscriber that tells when events are no longer on their way.
func (p *projRun) listen() {
	p.tap = projection.NewAggregateTypeStats()
	must(p.sut.store.AllEventsSubscription(context.Background(), 10000, p.tap).Start())
}

// calm waits until saved events have been delivered: one that is deleted while
// on its way may or may not be counted by a service that starts meanwhile.
func (p *projRun) calm() {
	p.sync()
	for end := time.Now().Add(2 * time.Second); int(p.tap.LatestGlobalSequenceNumber()) < p.known && time.Now().Before(end) && p.known > p.heard; {
		time.Sleep(200 * time.Microsecond)
	}
	time.Sleep(2 * time.Millisecond)
}

// room makes sure that n more events fit into the buffers: the service must
// not depend on how fast this machine is.
func (p *projRun) room(n int) {
	if p.fresh+n > 8 {
		p.settle()
	}
	p.fresh += n
}

func (p *projRun) path() string { return p.disk.SnapshotPath(projection.NewAggregateTypeStats()) }

func (p *projRun) note(l line) {
	p.ep.mu.Lock()
	p.ep.sig[fmt.Sprintf("%s:%v", l["e"], l["r"])]++
	p.ep.mu.Unlock()
	p.ep.log(l)
}

// ok ends the episode without a verdict if the store itself fails: that is not about projections.
func (p *projRun) ok(err error) {
	if err != nil {
		p.failed = true
	}
}

// do runs f with a deadline; a call that does not return ends the episode.
func (p *projRun) do(what string, f func()) bool {
	if p.failed || p.ep.isDead() {
		return false
	}
	if bad, msg := guard(f); bad != "" {
		p.note(line{"e": bad, "r": what, "msg": msg})
		p.ep.kill()
		return false
	}
	return true
}

func (p *projRun) saveOne(s, n int) {
	at := p.u.Types[(s-1)%len(p.u.Types)]
	var ers []*rangedb.EventRecord
	for i := 0; i < n; i++ {
		ers = append(ers, newEv(0, at, fmt.Sprintf("id%d", s), uint64(i), 0, 0, nil).rec)
	}
	_, err := p.sut.store.Save(context.Background(), p.u.Streams[s-1], ers...)
	p.ok(err)
}

// sync logs the events saved since the last call.
func (p *projRun) sync() {
	p.do("read", func() {
		it := p.sut.store.Events(context.Background(), uint64(p.known+1))
		for it.Next() {
			r := it.Record()
			if g := int(r.GlobalSequenceNumber); g > p.known {
				p.known = g
				p.note(line{"e": "save", "r": "", "g": g, "at": r.AggregateType, "st": r.StreamName, "q": int(r.StreamSequenceNumber)})
			}
		}
		p.ok(it.Err())
	})
}

func contents(s *projection.AggregateTypeStats, l line) line {
	types := []line{}
	for _, t := range s.SortedAggregateTypes() {
		types = append(types, line{"at": t, "n": int(s.TotalEventsByAggregateType(t))})
	}
	l["total"], l["latest"], l["types"] = int(s.TotalEvents()), int(s.LatestGlobalSequenceNumber()), types
	return l
}

// settle waits until everything in the log has arrived, then logs what the service shows.
func (p *projRun) settle() {
	p.sync()
	if p.failed || p.stats == nil || p.ep.isDead() {
		return
	}
	last := 0
	it := p.sut.store.Events(context.Background(), 0)
	for it.Next() {
		last = int(it.Record().GlobalSequenceNumber)
	}
	for end := time.Now().Add(4 * time.Second); int(p.stats.LatestGlobalSequenceNumber()) < last && time.Now().Before(end); {
		time.Sleep(200 * time.Microsecond)
	}
	p.fresh = 0
	p.note(contents(p.stats, line{"e": "stats", "r": "ok"}))
}

func (p *projRun) peek() {
	s := projection.NewAggregateTypeStats()
	p.do("load", func() {
		l := line{"e": "peek", "r": "ok"}
		if err := p.disk.Load(s); err != nil {
			l["r"] = "err"
			// a projection that can not be loaded stays as it was
			if s.TotalEvents() != 0 || len(s.SortedAggregateTypes()) != 0 || s.LatestGlobalSequenceNumber() != 0 {
				l["r"] = "err but loaded"
			}
		}
		p.note(contents(s, l))
	})
	p.torn = false
}

// start starts the service, with n saves going on.
func (p *projRun) start(s, n int) {
	if p.stats != nil {
		return
	}
	p.calm()
	p.fresh = n
	var logged bytes.Buffer
	l := line{"e": "start", "r": "ok", "said": false, "saves": true}
	p.ep.log(l)
	var wg sync.WaitGroup
	if n > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				p.saveOne(s, 1)
				time.Sleep(time.Duration(i*37%150) * time.Microsecond)
			}
		}()
	}
	p.do("start", func() {
		api, err := rangedbapi.New(rangedbapi.WithStore(p.sut.store), rangedbapi.WithSnapshotStore(p.disk), rangedbapi.WithLogger(log.New(&logged, "", 0)))
		if err != nil {
			l["r"], l["msg"] = "oth", short(err.Error())
			return
		}
		p.stats = api.AggregateTypeStatsProjection()
	})
	wg.Wait()
	l["said"] = logged.Len() > 0
	p.ep.mu.Lock()
	p.ep.sig["start:"+fmt.Sprint(l["r"])]++
	if l["said"] == true {
		p.ep.sig["start:said"]++
	}
	p.ep.mu.Unlock()
	p.settle()
	p.peek()
}

func (p *projRun) stop() {
	if p.stats == nil {
		return
	}
	p.stats = nil
	if p.sut.reopen != nil {
		p.calm()
		must(p.sut.reopen())
		p.heard = p.known
		p.listen()
	}
	p.note(line{"e": "stop", "r": ""})
}

// snap writes the snapshot, with saves going on.
func (p *projRun) snap(s, n int, cut int) {
	if p.stats == nil {
		return
	}
	p.room(n)
	var wg sync.WaitGroup
	least := int(p.stats.TotalEvents())
	if n > 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				p.saveOne(s, 1)
			}
		}()
		for i := p.rnd.Intn(4); i > 0; i-- {
			time.Sleep(30 * time.Microsecond)
		}
	}
	l := line{"e": "snap", "r": "ok", "least": least, "cut": cut > 0}
	p.do("snapshot", func() {
		var err error
		if cut > 0 {
			err = p.disk.Save(&cutProjection{p.stats, cut})
		} else {
			err = p.disk.Save(p.stats)
		}
		if err != nil {
			l["r"] = "oth"
		}
	})
	wg.Wait()
	p.sync()
	p.note(l)
	p.settle()
	if cut > 0 {
		p.torn = true
	} else {
		p.peek()
	}
}

var damages = []string{"", "{}", "null", "[]", "\x00\x00\x00\x00", "{\"totalEvents", "garbage", "1", "\"x\""}

// tear damages the snapshot file: at byte n, or in some other way.
func (p *projRun) tear(n int, gone bool) {
	b, err := os.ReadFile(p.path())
	if err != nil {
		return
	}
	switch {
	case gone:
		must(os.Remove(p.path()))
	case n < 0:
		must(os.WriteFile(p.path(), []byte(damages[(-n)%len(damages)]), 0644))
	default:
		must(os.Truncate(p.path(), int64(n%len(b))))
	}
	p.note(line{"e": "tear", "r": "", "gone": gone})
	p.torn = true
}

func (p *projRun) apply(op scriptOp) {
	switch op.Op {
	case "save":
		p.room(op.N)
		p.do("save", func() { p.saveOne(op.S, op.N) })
	case "del":
		p.settle()
		p.calm()
		p.do("delete", func() {
			st := p.u.Streams[op.S-1]
			n := 0
			it := p.sut.store.EventsByStream(context.Background(), 0, st)
			for it.Next() {
				n = int(it.Record().StreamSequenceNumber)
			}
			err := p.sut.store.OptimisticDeleteStream(context.Background(), uint64(n), st)
			if p.ok(err); err != nil {
				return
			}
			p.note(line{"e": "del", "r": "", "st": st})
		})
	case "start":
		p.start(op.S, 0)
	case "startc":
		p.start(op.S, op.N+1)
	case "stop":
		p.settle()
		p.stop()
	case "snap":
		p.snap(op.S, 0, 0)
	case "snapc":
		p.snap(op.S, op.N+1, 0)
	case "cut":
		p.snap(op.S, 0, 1+p.rnd.Intn(60))
	case "tear", "gone":
		n := p.rnd.Intn(200)
		if p.rnd.Intn(3) == 0 {
			n = -1 - p.rnd.Intn(20)
		}
		p.tear(n, op.Op == "gone")
	}
	if p.rnd.Intn(2) == 0 {
		p.settle()
	}
	if p.torn && p.rnd.Intn(2) == 0 {
		p.peek()
	}
}

func projScript(cfg *Cfg, kind string, sc []scriptOp, n int, mode string) job {
	name := fmt.Sprintf("%s%d/%s", mode, n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		rnd := rand.New(rand.NewSource(cfg.seed*4099 + int64(n)))
		p := newProjRun(ep, sut, universes[n%len(universes)], rnd)
		for _, op := range sc {
			if p.failed || ep.isDead() {
				return ep
			}
			p.apply(op)
		}
		p.start(1, 0)
		p.apply(scriptOp{Op: "save", S: 2, N: 2})
		p.settle()
		return ep
	}}
}

// tornAt cuts the snapshot at every byte, in front of and after a deletion.
func tornAt(cfg *Cfg, kind string) job {
	return job{name: "torn/" + kind, many: func(emit func(*Ep)) {
		for n := -len(damages); ; n++ {
			name := fmt.Sprintf("torn/%s/%d", kind, n)
			sut := newSUT(kind)
			ep := newEp(name)
			p := newProjRun(ep, sut, universes[0], rand.New(rand.NewSource(cfg.seed)))
			save := func(s, n int) { p.apply(scriptOp{Op: "save", S: s, N: n}) }
			save(1, 12)
			save(3, 3)
			p.start(1, 0)
			save(2, 2)
			save(4, 1)
			p.settle()
			p.snap(1, 0, 0)
			b, err := os.ReadFile(p.path())
			must(err)
			p.stop()
			if n%2 == 0 {
				p.apply(scriptOp{Op: "del", S: 3})
				save(1, 2)
			}
			p.sync()
			p.tear(n, false)
			if n%3 == 0 {
				p.peek()
			}
			p.start(1, 0)
			save(4, 1)
			p.settle()
			emit(ep)
			sut.close()
			if n >= len(b) || ep.isDead() {
				return
			}
		}
	}}
}

// noSnapshotDir: the service also works when it can not write a snapshot.
func noSnapshotDir(cfg *Cfg, kind string) job {
	name := "nodir/" + kind
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		p := newProjRun(ep, sut, universes[0], rand.New(rand.NewSource(cfg.seed)))
		p.disk = projection.NewDiskSnapshotStore(p.path() + "/missing")
		for i := 0; i < 3; i++ {
			p.apply(scriptOp{Op: "save", S: 1 + i, N: 2})
			p.sync()
			var logged bytes.Buffer
			l := line{"e": "start", "r": "ok", "said": false, "saves": false}
			p.do("start", func() {
				api, err := rangedbapi.New(rangedbapi.WithStore(sut.store), rangedbapi.WithSnapshotStore(p.disk), rangedbapi.WithLogger(log.New(&logged, "", 0)))
				if err != nil {
					l["r"] = "oth"
					return
				}
				p.stats = api.AggregateTypeStatsProjection()
			})
			// both the loading and the writing were reported
			l["said"] = strings.Count(logged.String(), "\n") >= 2
			if l["said"] == false {
				l["r"] = "silent"
			}
			p.note(l)
			p.settle()
			p.apply(scriptOp{Op: "save", S: 1 + i, N: 1})
			p.settle()
			l = line{"e": "snap", "r": "ok", "least": 0, "cut": true}
			if p.stats != nil && p.disk.Save(p.stats) != nil {
				l["r"] = "oth"
			}
			p.note(l)
			p.peek()
			p.stop()
		}
		return ep
	}}
}

// crowded: the statistics are snapshotted and read all the time while events arrive.
func crowded(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("crowded%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		rnd := rand.New(rand.NewSource(cfg.seed*31 + int64(n)))
		p := newProjRun(ep, sut, universes[n%2], rnd)
		p.start(1, 0)
		for round := 0; round < 4; round++ {
			p.settle()
			var wg sync.WaitGroup
			var sent int64
			base := int64(p.stats.TotalEvents())
			stop := make(chan struct{})
			for g := 1; g <= 3; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					for i := 0; i < 6; i++ {
						p.saveOne(g, 1+(i+n)%3)
						due := base + atomic.AddInt64(&sent, int64(1+(i+n)%3))
						for end := time.Now().Add(2 * time.Second); int64(p.stats.TotalEvents()) < due && time.Now().Before(end); {
							time.Sleep(20 * time.Microsecond)
						}
					}
				}(g)
			}
			// snapshots into memory meanwhile: each is one moment of the statistics
			found := map[string]bool{}
			var mu sync.Mutex
			var rd sync.WaitGroup
			for r := 0; r < 2; r++ {
				rd.Add(1)
				go func() {
					defer rd.Done()
					for i := 0; i < 30000; i++ {
						select {
						case <-stop:
							return
						default:
						}
						var b bytes.Buffer
						if p.stats.SaveSnapshot(&b) == nil {
							mu.Lock()
							if len(found) < 2000 {
								found[b.String()] = true
							}
							mu.Unlock()
						}
						if i > 500 {
							time.Sleep(20 * time.Microsecond)
						}
					}
				}()
			}
			wg.Wait()
			time.Sleep(200 * time.Microsecond)
			close(stop)
			rd.Wait()
			p.settle()
			var snaps []string
			for b := range found {
				snaps = append(snaps, b)
			}
			sort.Strings(snaps)
			rnd.Shuffle(len(snaps), func(i, j int) { snaps[i], snaps[j] = snaps[j], snaps[i] })
			for i := 0; i < len(snaps) && i < 40; i++ {
				must(os.WriteFile(p.path(), []byte(snaps[i]), 0644))
				p.note(line{"e": "snap", "r": "ok", "least": 0, "cut": false})
				p.peek()
			}
			p.snap(1, 3, 0)
			if round == 1 {
				p.stop()
				p.start(2, 3)
			}
		}
		return ep
	}}
}

func init() {
	planners["P19"] = func(cfg *Cfg) []job {
		var jobs []job
		kinds := []string{"mem", "ldb", "rldb", "eldb", "ldbmp", "rmem"}
		for _, mode := range []string{"pmix", "pdel"} {
			for i, sc := range cfg.scripts[mode] {
				for j := 0; j < 3; j++ {
					jobs = append(jobs, projScript(cfg, kinds[(i+j)%len(kinds)], sc, i, mode))
				}
			}
		}
		for _, kind := range []string{"mem", "ldb"} {
			jobs = append(jobs, tornAt(cfg, kind), noSnapshotDir(cfg, kind))
		}
		for i := 0; i < cfg.pick(24, 200); i++ {
			jobs = append(jobs, crowded(cfg, kinds[i%len(kinds)], i))
		}
		return jobs
	}
}
