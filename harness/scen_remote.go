package main

import (
	"context"
	"fmt"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
	"github.com/inklabs/rangedb/provider/jsonrecordserializer"
)

// pbSub is a subscription of a client that speaks the protocol itself.
type pbSub struct {
	ctx    context.Context
	cancel context.CancelFunc
	client rangedbpb.RangeDBClient
	accept rangedb.RecordSubscriberFunc
	all    bool
	types  []string
	ended  chan struct{}
}

type pbReceiver interface {
	Recv() (*rangedbpb.Record, error)
}

func (p *pbSub) follow(r pbReceiver) {
	ser := jsonrecordserializer.New()
	bindAll(ser)
	go func() {
		defer close(p.ended)
		for {
			pb, err := r.Recv()
			if err != nil {
				return
			}
			rec, err := rangedbpb.ToRecord(pb, ser)
			if err != nil {
				return
			}
			p.accept(rec)
		}
	}()
}

func (p *pbSub) Start() error {
	ctx, cancel := context.WithCancel(p.ctx)
	p.cancel = cancel
	st, err := p.client.SubscribeToLiveEvents(ctx, &rangedbpb.SubscribeToLiveEventsRequest{})
	if err != nil {
		return err
	}
	if _, err = st.Header(); err != nil {
		return err
	}
	p.follow(st)
	return nil
}

func (p *pbSub) StartFrom(from uint64) error {
	ctx, cancel := context.WithCancel(p.ctx)
	p.cancel = cancel
	var r pbReceiver
	var err error
	if p.all {
		r, err = p.client.SubscribeToEvents(ctx, &rangedbpb.SubscribeToEventsRequest{GlobalSequenceNumber: from})
	} else {
		r, err = p.client.SubscribeToEventsByAggregateType(ctx, &rangedbpb.SubscribeToEventsByAggregateTypeRequest{AggregateTypes: p.types, GlobalSequenceNumber: from})
	}
	if err != nil {
		return err
	}
	p.follow(r)
	return nil
}

func (p *pbSub) Done() <-chan struct{} { return p.ended }

func (p *pbSub) Stop() {
	if p.cancel != nil {
		p.cancel()
	}
}

// pbSubs follows the log with clients of the protocol, and with further
// remote stores that connect while events are saved on both sides.
func pbSubs(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("pbsubs%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sut, sb := s.c.sut, s.sb
		conn := sut.conn()
		client := rangedbpb.NewRangeDBClient(conn)
		pb := func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
			return &pbSub{ctx: ctx, client: client, accept: accept, all: all, types: types, ended: make(chan struct{})}
		}
		sb.start("w", -1, true, nil, 1000)
		s.saveSome(s.c, 1, 2)
		fs := subFilters(s.o.uni)
		for i := 0; i < 6 && !s.ep.isDead(); i++ {
			sb.make, sb.async = pb, true
			if i%3 == 2 {
				sb.make, sb.async = nil, false
				sb.store = sut.dial() // another remote store
			}
			g := s.curMaxG()
			f := fs[s.rnd.Intn(4)]
			from := []int{0, 1, g, g + 1, g + 2, -1}[s.rnd.Intn(6)]
			if from < 0 && sb.make != nil {
				f = fs[0]
			}
			d := goDone(func() {
				if s.rnd.Intn(2) == 0 {
					s.saveSome(&Client{ep: s.ep, sut: sut, store: sut.backing, conc: true}, 1+i%3, 2)
				}
			})
			sb.startOpt(fmt.Sprintf("s%d", i), from, f.all, f.types, 500, nil, cxNo, false)
			<-d
			s.saveSome(s.client(), 1+s.rnd.Intn(3), 1+s.rnd.Intn(3))
			s.saveSome(s.client(), 1+s.rnd.Intn(3), 1+s.rnd.Intn(3))
			sb.settle()
			if i > 1 && s.rnd.Intn(2) == 0 {
				sb.stop(fmt.Sprintf("s%d", i-1))
				s.saveSome(s.client(), 1, 1)
				sb.settle()
			}
		}
		sb.stopAll()
		s.c.read("all", 0, "", nil, readOpt{})
		return s.ep
	}}
}

// cutOff: clients of a service that read nothing for a while, or whose
// connection breaks, next to ones that must not notice the former.
func cutOff(cfg *Cfg, kind string, n int) job {
	name := fmt.Sprintf("cutoff%d/%s", n, kind)
	return job{name: name, run: func() *Ep {
		s, closeAll := newSubSession(cfg, kind, name, universes[n%3], n)
		defer closeAll()
		sut, sb := s.c.sut, s.sb
		fs := subFilters(s.o.uni)
		sb.start("w", -1, true, nil, 1000)
		s.saveSome(s.c, 1, 2)
		lag := &gate{}
		defer lag.open()
		sut.lag = lag
		breaks := n%3 == 2
		var ids []string
		for i := 0; i < 2; i++ {
			conn := rangedbpb.NewRangeDBClient(sut.conn())
			sb.make, sb.async = func(ctx context.Context, buf int, accept rangedb.RecordSubscriberFunc, all bool, types []string) rangedb.RecordSubscription {
				return &pbSub{ctx: ctx, client: conn, accept: accept, all: all, types: types, ended: make(chan struct{})}
			}, true
			id := fmt.Sprintf("pb%d", i)
			f := fs[[]int{0, 2, 0}[(n+i)%3]]
			from := []int{0, s.curMaxG() + 1, -1}[(n/2+i)%3]
			if from < 0 {
				f = fs[0]
			}
			sb.startOpt(id, from, f.all, f.types, 0, nil, cxNo, false)
			ids = append(ids, id)
		}
		sb.make, sb.async = nil, false
		sb.store = sut.dial()
		for i := 0; i < 2; i++ {
			id := fmt.Sprintf("far%d", i)
			f := fs[[]int{0, 2}[(n+i)%2]]
			sb.startOpt(id, []int{-1, 0}[(n/2+i)%2], f.all, f.types, 1000, nil, cxNo, false)
			ids = append(ids, id)
		}
		sb.store = sut.backing
		s.saveSome(s.c, 1, 2)
		s.saveSome(s.c, 2, 1)
		sb.settle()
		for _, id := range ids {
			sb.setLossy(id)
		}
		local := &Client{ep: s.ep, sut: sut, store: sut.backing, conc: true}
		if breaks {
			sb.setLossy("w")
			ids = append(ids, "w")
			sut.cut()
			s.saveSome(local, 1, 2)
		} else {
			lag.close()
			for i := 0; i < 14 && !s.ep.isDead(); i++ {
				var evs []*Ev
				for j := 0; j < 4; j++ {
					evs = append(evs, newEv(j%2, s.o.uni.Types[(i+n)%2], "id1", uint64(i*4+j), bigMeta, 0, nil))
				}
				local.save(s.o.uni.Streams[(i+n)%2], -1, evs, cxNo, nil)
				sb.settle()
			}
			time.Sleep(150 * time.Millisecond)
			s.saveSome(local, 1, 1)
			s.saveSome(local, 2, 1)
			sb.settle()
			if n%2 == 0 {
				time.Sleep(150 * time.Millisecond)
			}
			lag.open()
			s.saveSome(s.client(), 1, 2)
			s.saveSome(s.client(), 2, 1)
			sb.settle()
		}
		for _, id := range ids {
			sb.fate(id, false)
		}
		if !breaks {
			s.saveSome(s.client(), 1, 1)
			sb.settle()
			s.c.read("all", 0, "", nil, readOpt{})
		}
		sb.stopAll()
		return s.ep
	}}
}

func init() {
	remoteKinds := []string{"rmem", "rldb"}
	planners["P13"] = func(cfg *Cfg) []job {
		var jobs []job
		for _, mode := range []string{"mix", "save", "opt", "del"} {
			o := seqOpt{twoSides: true, bigNums: true}
			if mode == "mix" {
				o.observe = 1
			}
			jobs = append(jobs, scripted(cfg, mode, remoteKinds, universes, o)...)
		}
		for i := 0; i < cfg.pick(15, 200); i++ {
			for _, kind := range remoteKinds {
				jobs = append(jobs, stress(cfg, kind, 4, 8, i, i%3 == 0), pbSubs(cfg, kind, i))
			}
		}
		for i := 0; i < cfg.pick(4, 40); i++ {
			for _, kind := range remoteKinds {
				jobs = append(jobs, subInject(cfg, kind, universes[i%3], i), subPause(cfg, kind, i))
			}
		}
		for _, kind := range remoteKinds {
			jobs = append(jobs, longLog(cfg, kind, cfg.pick(310, 1200)))
		}
		return jobs
	}
}
