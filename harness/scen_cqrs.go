package main

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/cqrs"
)

// cqCommand is a command and what its aggregate will do with it.
type cqCommand struct {
	id      int
	ct      string
	at, aid string
	emits   []*Ev
	stop    int        // records the aggregate looks at, -1: all
	nested  *cqCommand // dispatched while this one is handled
}

func (c cqCommand) AggregateID() string   { return c.aid }
func (c cqCommand) AggregateType() string { return c.at }
func (c cqCommand) CommandType() string   { return c.ct }

type cqRun struct {
	ep    *Ep
	sut   *SUT
	uni   Universe
	rnd   *rand.Rand
	app   cqrs.CommandDispatcher
	mu    sync.Mutex // held while the store is used, so that facts are in the order of effects
	ids   map[string]int
	bad   map[string]bool // tags of events whose save fails
	short map[string]int  // streams whose reads fail after some records
	insts int64
	next  int64
	aggOf map[string]int
	fresh map[string]bool
}

func (q *cqRun) note(l line, sig string) {
	q.ep.mu.Lock()
	q.ep.sig[sig]++
	q.ep.mu.Unlock()
	q.ep.log(l)
}

func (q *cqRun) id(tag string) int {
	q.ep.mu.Lock()
	defer q.ep.mu.Unlock()
	if _, ok := q.ids[tag]; !ok {
		q.ids[tag] = len(q.ids) + 1
	}
	return q.ids[tag]
}

func drain(it rangedb.RecordIterator, stop int, f func(*rangedb.Record)) (stopped bool, err error) {
	for n := 0; ; n++ {
		if n == stop {
			return true, nil
		}
		if !it.Next() {
			break
		}
		f(it.Record())
	}
	if errors.Is(it.Err(), rangedb.ErrStreamNotFound) {
		return false, nil
	}
	return false, it.Err()
}

// cqStore is the store the dispatcher is given.
type cqStore struct {
	rangedb.Store
	q *cqRun
}

func (s *cqStore) EventsByStream(ctx context.Context, from uint64, st string) rangedb.RecordIterator {
	s.q.mu.Lock()
	defer s.q.mu.Unlock()
	var recs []*rangedb.Record
	out := []int{}
	limit, broken := s.q.short[st]
	if !broken {
		limit = -1
	}
	stopped, err := drain(s.Store.EventsByStream(ctx, from, st), limit, func(r *rangedb.Record) {
		recs = append(recs, r)
		out = append(out, s.q.id(tagOfRecord(r)))
	})
	if stopped {
		err = errors.New("the stream can not be read further")
	}
	s.q.note(line{"e": "sread", "st": st, "from": capNum(from), "out": out, "whole": err == nil}, fmt.Sprintf("sread:%v", err == nil))
	return recordsOf(recs, err)
}

func (s *cqStore) save(st string, ers []*rangedb.EventRecord, exp int, f func() (uint64, error)) (uint64, error) {
	s.q.mu.Lock()
	defer s.q.mu.Unlock()
	ids, fail := []int{}, false
	for _, er := range ers {
		tag := tagOfEvent(er.Event)
		ids = append(ids, s.q.id(tag))
		fail = fail || s.q.bad[tag]
	}
	var n uint64
	err := errors.New("the store is full")
	if !fail {
		n, err = f()
	}
	r := "ok"
	if err != nil {
		r = "err"
	}
	s.q.note(line{"e": "ssave", "st": st, "ids": ids, "exp": exp, "r": r}, "ssave:"+r)
	return n, err
}

func (s *cqStore) Save(ctx context.Context, st string, ers ...*rangedb.EventRecord) (uint64, error) {
	return s.save(st, ers, -1, func() (uint64, error) { return s.Store.Save(ctx, st, ers...) })
}

func (s *cqStore) OptimisticSave(ctx context.Context, exp uint64, st string, ers ...*rangedb.EventRecord) (uint64, error) {
	return s.save(st, ers, capNum(exp), func() (uint64, error) { return s.Store.OptimisticSave(ctx, exp, st, ers...) })
}

// cqTags knows the tags of the events that can not be serialized, too.
var cqTags sync.Map

func tagOfEvent(e rangedb.Event) string {
	if e != nil && reflect.TypeOf(e).Kind() == reflect.Ptr {
		if t, ok := cqTags.Load(e); ok {
			return t.(string)
		}
	}
	return tagOf(e)
}

type cqAggregate struct {
	q     *cqRun
	agg   int
	inst  int
	types []string
	stop  func() int
}

func (a *cqAggregate) CommandTypes() []string { return a.types }

func (a *cqAggregate) Load(it rangedb.RecordIterator) {
	out := []int{}
	stopped, err := drain(it, a.stop(), func(r *rangedb.Record) { out = append(out, a.q.id(tagOfRecord(r))) })
	a.q.note(line{"e": "load", "agg": a.agg, "inst": a.inst, "out": out, "whole": err == nil, "stopped": stopped}, fmt.Sprintf("load:%v", err == nil))
}

func (a *cqAggregate) Handle(command cqrs.Command) []rangedb.Event {
	c, ok := command.(*cqCommand)
	if v, is := command.(cqCommand); is {
		c, ok = &v, true
	}
	if !ok {
		c = &cqCommand{}
	}
	emits := []line{}
	var events []rangedb.Event
	for _, ev := range c.emits {
		emits = append(emits, line{"id": a.q.id(ev.Tag), "st": rangedb.GetEventStream(ev.rec.Event)})
		events = append(events, ev.rec.Event)
	}
	a.q.note(line{"e": "handle", "inst": a.inst, "c": c.id, "emits": emits}, "handle:ok")
	if c.nested != nil {
		a.q.dispatch(c.nested)
	}
	return events
}

func (q *cqRun) dispatch(c *cqCommand) {
	p := int(atomic.AddInt64(&q.next, 1))
	st := rangedb.GetEventStream(c)
	q.note(line{"e": "begin", "p": p, "c": c.id, "ct": c.ct, "st": st}, "begin:ok")
	var got []rangedb.Event
	bad, msg := guard(func() {
		if p%2 == 0 {
			got = q.app.Dispatch(*c)
		} else {
			got = q.app.Dispatch(c)
		}
	})
	if bad != "" {
		q.note(line{"e": bad, "msg": msg}, "ret:"+bad)
		q.ep.kill()
		return
	}
	out, same := []int{}, true
	for _, e := range got {
		out = append(out, q.id(tagOfEvent(e)))
		found := false
		for _, ev := range c.emits {
			found = found || reflect.DeepEqual(ev.rec.Event, e)
		}
		same = same && found
	}
	q.note(line{"e": "ret", "p": p, "out": out, "same": same}, "ret:ok")
}

func (q *cqRun) stream(s int) (st, at, aid string) {
	at, aid = q.uni.Types[(s-1)%len(q.uni.Types)], fmt.Sprintf("id%d", s)
	return rangedb.GetEventStream(&cqCommand{at: at, aid: aid}), at, aid
}

func (q *cqRun) event(s int, bad int) *Ev {
	_, at, aid := q.stream(s)
	kind := []int{0, 0, 1, 2, 3}[q.rnd.Intn(5)]
	num := uint64(q.rnd.Intn(1000)*5 + 1)
	if bad == 0 && kind == 0 && q.rnd.Intn(2) == 0 {
		ev := newEv(0, at, aid, num, 0, 0, nil)
		ev.rec.Event = *ev.rec.Event.(*evA) // by value
		return ev
	}
	if bad != 0 && kind == 3 {
		kind = 0
	}
	ev := newEv(kind, at, aid, num, 0, bad, nil)
	cqTags.Store(ev.rec.Event, ev.Tag)
	return ev
}

func (q *cqRun) command(op scriptOp, s, t int) *cqCommand {
	_, at, aid := q.stream(s)
	c := &cqCommand{id: int(atomic.AddInt64(&q.next, 1)), ct: fmt.Sprintf("Do%d", t), at: at, aid: aid, stop: -1}
	for i := 1; i <= op.N; i++ {
		to, bad := s, 0
		switch {
		case op.Fail == "other" && i >= op.Pos:
			to = s%4 + 1
		case op.Fail == "ser" && i == op.Pos:
			bad = 1
		}
		ev := q.event(to, bad)
		if op.Fail == "save" && i == op.Pos {
			q.mu.Lock()
			q.bad[ev.Tag] = true
			q.mu.Unlock()
		}
		c.emits = append(c.emits, ev)
	}
	return c
}

func (q *cqRun) external(s, n int) {
	st, _, _ := q.stream(s)
	q.mu.Lock()
	defer q.mu.Unlock()
	var ers []*rangedb.EventRecord
	ids := []int{}
	for i := 0; i < n; i++ {
		ev := q.event(s, 0)
		ers = append(ers, ev.rec)
		ids = append(ids, q.id(ev.Tag))
	}
	if n > 0 {
		_, err := q.sut.store.Save(context.Background(), st, ers...)
		must(err)
		q.note(line{"e": "ext", "st": st, "ids": ids}, "ext:ok")
	}
}

func (q *cqRun) look() {
	for s := 1; s <= 4; s++ {
		st, _, _ := q.stream(s)
		out := []int{}
		_, err := drain(q.sut.store.EventsByStream(context.Background(), 0, st), -1, func(r *rangedb.Record) { out = append(out, q.id(tagOfRecord(r))) })
		must(err)
		q.note(line{"e": "look", "st": st, "out": out}, "look:ok")
	}
}

// register builds the application: several aggregates and ways to register them.
func (q *cqRun) register(variant int) {
	store := &cqStore{q.sut.store, q}
	var opts []cqrs.Option
	aggs := 0
	add := func(fresh bool, stops func() int, lists ...[]string) {
		var all []cqrs.Aggregate
		var makers []func() cqrs.Aggregate
		for _, types := range lists {
			aggs++
			agg, types := aggs, types
			build := func() cqrs.Aggregate {
				return &cqAggregate{q: q, agg: agg, inst: int(atomic.AddInt64(&q.insts, 1)), types: types, stop: stops}
			}
			for _, t := range types {
				q.aggOf[t], q.fresh[t] = agg, fresh
			}
			q.note(line{"e": "reg", "types": types, "agg": agg, "fresh": fresh}, "reg:ok")
			if fresh {
				makers = append(makers, build)
			} else {
				all = append(all, build())
			}
		}
		if fresh {
			opts = append(opts, cqrs.WithAggregateFactories(makers...))
		} else {
			opts = append(opts, cqrs.WithAggregates(all...))
		}
	}
	all := func() int { return -1 }
	some := func() int {
		q.mu.Lock()
		defer q.mu.Unlock()
		return q.rnd.Intn(4) - 1
	}
	switch variant % 4 {
	case 0:
		add(false, all, []string{"Do1"}, []string{"Do2"}, []string{"Do3"})
	case 1:
		add(true, all, []string{"Do1", "Do3"}, []string{"Do2"})
	case 2: // registrations replace others
		add(false, all, []string{"Do1", "Do2"}, []string{"Do2", "Do3"})
		add(true, all, []string{"Do3"})
	case 3:
		add(true, some, []string{"Do1", "Do2", "Do3"}, []string{})
		add(false, some, []string{"Do2"})
	}
	q.app = cqrs.New(store, opts...)
}

func cqrsEpisode(cfg *Cfg, mode string, n int, script []scriptOp, kind string) job {
	name := fmt.Sprintf("%s%d/%s", mode, n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		ep := newEp(name)
		ep.spec = "CqrsTrace"
		rnd := rand.New(rand.NewSource(cfg.seed*4001 + int64(n)))
		q := &cqRun{ep: ep, sut: sut, uni: universes[n%len(universes)], rnd: rnd, ids: map[string]int{}, bad: map[string]bool{},
			short: map[string]int{}, aggOf: map[string]int{}, fresh: map[string]bool{}}
		q.register(rnd.Intn(4))
		for _, op := range script {
			if ep.isDead() {
				break
			}
			st, _, _ := q.stream(op.S)
			switch op.Op {
			case "ext":
				q.external(op.S, op.N)
			case "del":
				last, _ := drainLast(sut.store, st)
				if last > 0 {
					must(sut.store.OptimisticDeleteStream(context.Background(), last, st))
				}
				q.note(line{"e": "del", "st": st}, "del:ok")
			case "cmd":
				c := q.command(op, op.S, op.T)
				if op.Fail == "read" {
					q.short[st] = op.Pos - 1
				}
				if op.Fail == "stop" && op.T <= 3 { // another command while this one is handled
					t := op.T%3 + 1
					if q.aggOf[fmt.Sprintf("Do%d", t)] != q.aggOf[c.ct] {
						c.nested = q.command(scriptOp{N: op.Pos, Fail: "none"}, op.S, t)
					}
				}
				q.dispatch(c)
				delete(q.short, st)
			case "conc":
				var wg sync.WaitGroup
				used := map[int]bool{}
				for i := 0; i <= op.Pos; i++ {
					t := rnd.Intn(4) + 1
					ct := fmt.Sprintf("Do%d", t)
					if agg := q.aggOf[ct]; !q.fresh[ct] {
						if used[agg] {
							continue
						}
						used[agg] = true
					}
					c := q.command(scriptOp{N: 1 + rnd.Intn(3), Fail: []string{"none", "save", "other"}[rnd.Intn(3)], Pos: 1}, 1+(op.S+i/2)%4, t)
					wg.Add(1)
					go func() {
						defer wg.Done()
						q.dispatch(c)
					}()
				}
				q.external(op.S, 1)
				wg.Wait()
			}
			if rnd.Intn(4) == 0 && !ep.isDead() {
				q.look()
			}
		}
		if !ep.isDead() {
			q.look()
		}
		return ep
	}}
}

// drainLast returns the sequence number of the last event of a stream.
func drainLast(store rangedb.Store, st string) (last uint64, err error) {
	_, err = drain(store.EventsByStream(context.Background(), 0, st), -1, func(r *rangedb.Record) { last = r.StreamSequenceNumber })
	return last, err
}

func init() {
	planners["P21"] = func(cfg *Cfg) []job {
		var jobs []job
		for _, mode := range []string{"cmix", "cfault"} {
			for i, sc := range cfg.scripts[mode] {
				for _, kind := range []string{"mem", "ldb", "rldb"} {
					if kind == "mem" || i%3 == 0 {
						jobs = append(jobs, cqrsEpisode(cfg, mode, i, sc, kind))
					}
				}
			}
		}
		return jobs
	}
}
