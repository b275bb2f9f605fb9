//go:build chat
// +build chat

package main

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/examples/chat"
	"github.com/inklabs/rangedb/pkg/cqrs"
)

// chatStore is the store the chat application is given; what it does with it is observed.
type chatStore struct {
	rangedb.Store
	c *chatRun
}

type chatRun struct {
	ep    *Ep
	sut   *SUT
	rnd   *rand.Rand
	app   cqrs.CommandDispatcher
	mu    sync.Mutex // held while the store is used, so that facts are in the order of effects
	log   int        // events saved
	gone  map[int]bool
	subs  int32
	seen  [3]int64 // last event accepted by the projection (1) and the processor (2)
	next  int64
	texts []string
}

func (c *chatRun) note(l line, sig string) {
	c.ep.mu.Lock()
	c.ep.sig[sig]++
	c.ep.mu.Unlock()
	c.ep.log(l)
}

// describe renders commands and events alike.
func (c *chatRun) describe(v interface{}) line {
	l := func(t, room, user, x string) line {
		bad := false
		if strings.HasPrefix(t, "MessageWas") || strings.HasPrefix(t, "SendMessage") {
			for i, text := range c.texts {
				if text == x {
					bad = i >= len(c.texts)/2
				}
			}
		}
		return line{"t": t, "room": room, "user": user, "x": x, "bad": bad, "st": "?"}
	}
	switch e := v.(type) {
	case chat.OnBoardUser:
		return l("OnBoardUser", "", e.UserID, e.Name)
	case chat.WarnUser:
		return l("WarnUser", "", e.UserID, e.Reason)
	case chat.OnBoardRoom:
		return l("OnBoardRoom", e.RoomID, e.UserID, e.RoomName)
	case chat.JoinRoom:
		return l("JoinRoom", e.RoomID, e.UserID, "")
	case chat.SendMessageToRoom:
		return l("SendMessageToRoom", e.RoomID, e.UserID, e.Message)
	case chat.SendPrivateMessageToRoom:
		return l("SendPrivateMessageToRoom", e.RoomID, e.TargetUserID, e.Message)
	case chat.RemoveUserFromRoom:
		return l("RemoveUserFromRoom", e.RoomID, e.UserID, e.Reason)
	case chat.BanUserFromRoom:
		return l("BanUserFromRoom", e.RoomID, e.UserID, fmt.Sprintf("%s/%d", e.Reason, e.Timeout))
	}
	ev, ok := v.(rangedb.Event)
	if !ok {
		return l(fmt.Sprintf("%T", v), "", "", "")
	}
	d := l(fmt.Sprintf("%T", v), "", "", "")
	switch e := v.(type) {
	case chat.UserWasOnBoarded:
		d = l("UserWasOnBoarded", "", e.UserID, e.Name)
	case chat.UserWasWarned:
		d = l("UserWasWarned", "", e.UserID, e.Reason)
	case chat.RoomWasOnBoarded:
		d = l("RoomWasOnBoarded", e.RoomID, e.UserID, e.RoomName)
	case chat.RoomWasJoined:
		d = l("RoomWasJoined", e.RoomID, e.UserID, "")
	case chat.MessageWasSentToRoom:
		d = l("MessageWasSentToRoom", e.RoomID, e.UserID, e.Message)
	case chat.PrivateMessageWasSentToRoom:
		d = l("PrivateMessageWasSentToRoom", e.RoomID, e.TargetUserID, e.Message)
	case chat.UserWasRemovedFromRoom:
		d = l("UserWasRemovedFromRoom", e.RoomID, e.UserID, e.Reason)
	case chat.UserWasBannedFromRoom:
		d = l("UserWasBannedFromRoom", e.RoomID, e.UserID, fmt.Sprintf("%s/%d", e.Reason, e.Timeout))
	}
	d["st"] = rangedb.GetEventStream(ev)
	return d
}

func (s *chatStore) EventsByStream(ctx context.Context, from uint64, st string) rangedb.RecordIterator {
	s.c.mu.Lock()
	defer s.c.mu.Unlock()
	var recs []*rangedb.Record
	_, err := drain(s.Store.EventsByStream(ctx, from, st), -1, func(r *rangedb.Record) { recs = append(recs, r) })
	must(err)
	s.c.note(line{"e": "sread", "st": st, "n": len(recs)}, "sread:ok")
	return recordsOf(recs, nil)
}

func (s *chatStore) save(st string, ers []*rangedb.EventRecord, f func() (uint64, error)) (uint64, error) {
	s.c.mu.Lock()
	defer s.c.mu.Unlock()
	n, err := f()
	must(err)
	for _, er := range ers {
		s.c.log++
		d := s.c.describe(er.Event)
		d["st"] = st
		s.c.note(line{"e": "ssave", "ev": d}, "ssave:"+d["t"].(string))
	}
	return n, err
}

func (s *chatStore) Save(ctx context.Context, st string, ers ...*rangedb.EventRecord) (uint64, error) {
	return s.save(st, ers, func() (uint64, error) { return s.Store.Save(ctx, st, ers...) })
}

func (s *chatStore) OptimisticSave(ctx context.Context, exp uint64, st string, ers ...*rangedb.EventRecord) (uint64, error) {
	return s.save(st, ers, func() (uint64, error) { return s.Store.OptimisticSave(ctx, exp, st, ers...) })
}

// AllEventsSubscription: the first subscriber is the projection, the second the processor.
func (s *chatStore) AllEventsSubscription(ctx context.Context, n int, sub rangedb.RecordSubscriber) rangedb.RecordSubscription {
	return s.Store.AllEventsSubscription(ctx, n, &chatTap{sub, s.c, int(atomic.AddInt32(&s.c.subs, 1))})
}

type countTap struct{ n int64 }

func (t *countTap) Accept(*rangedb.Record) { atomic.AddInt64(&t.n, 1) }

type chatTap struct {
	sub rangedb.RecordSubscriber
	c   *chatRun
	who int
}

func (t *chatTap) Accept(r *rangedb.Record) {
	g := capNum(r.GlobalSequenceNumber)
	t.c.mu.Lock() // the save of this event was noted
	t.c.note(line{"e": "acc", "who": t.who, "g": g, "ph": "begin"}, "acc:ok")
	t.c.mu.Unlock()
	t.sub.Accept(r)
	t.c.note(line{"e": "acc", "who": t.who, "g": g, "ph": "end"}, "acc:end")
	if t.who <= 2 {
		atomic.StoreInt64(&t.c.seen[t.who], int64(g))
	}
}

// calm waits until everything was delivered and handled.
func (c *chatRun) calm() {
	for i := 0; i < 4000; i++ {
		// first what was handled, then what there is: handling may have saved more
		one, two := atomic.LoadInt64(&c.seen[1]), atomic.LoadInt64(&c.seen[2])
		c.mu.Lock()
		n := int64(c.log)
		c.mu.Unlock()
		if one >= n && two >= n {
			break
		}
		time.Sleep(time.Millisecond)
	}
	c.note(line{"e": "calm"}, "calm:ok")
}

func (c *chatRun) dispatch(cmd cqrs.Command) {
	p := int(atomic.AddInt64(&c.next, 1))
	c.note(line{"e": "begin", "p": p, "c": c.describe(cmd)}, "begin:ok")
	var got []rangedb.Event
	bad, msg := guard(func() { got = c.app.Dispatch(cmd) })
	if bad != "" {
		c.note(line{"e": bad, "msg": msg}, "ret:"+bad)
		c.ep.kill()
		return
	}
	out := []line{}
	for _, e := range got {
		out = append(out, c.describe(e))
	}
	c.note(line{"e": "ret", "p": p, "out": out}, fmt.Sprintf("ret:%d", len(out)))
}

func (c *chatRun) command(kind string, r, u, n int) cqrs.Command {
	room, user := fmt.Sprint(r), fmt.Sprint(u)
	half := len(c.texts) / 2
	switch kind {
	case "OnBoardUser":
		return chat.OnBoardUser{UserID: user, Name: fmt.Sprint("name", n)}
	case "WarnUser":
		return chat.WarnUser{UserID: user, Reason: fmt.Sprint("reason", n)}
	case "OnBoardRoom":
		return chat.OnBoardRoom{RoomID: room, UserID: user, RoomName: fmt.Sprint("room", n)}
	case "JoinRoom":
		return chat.JoinRoom{RoomID: room, UserID: user}
	case "SendMessageToRoom":
		return chat.SendMessageToRoom{RoomID: room, UserID: user, Message: c.texts[n%half]}
	case "BadMessage":
		return chat.SendMessageToRoom{RoomID: room, UserID: user, Message: c.texts[half+n%half]}
	case "SendPrivateMessageToRoom":
		return chat.SendPrivateMessageToRoom{RoomID: room, TargetUserID: user, Message: fmt.Sprint("psst, golly ", n)}
	case "BanUserFromRoom":
		return chat.BanUserFromRoom{RoomID: room, UserID: user, Reason: "reason", Timeout: uint(n)}
	default:
		return chat.RemoveUserFromRoom{RoomID: room, UserID: user, Reason: fmt.Sprint("reason", n)}
	}
}

// history is saved before the application starts.
func (c *chatRun) history(n int) {
	// not before its events are no longer on their way: a subscriber that starts meanwhile may still get them
	tap := &countTap{}
	must(c.sut.store.AllEventsSubscription(context.Background(), 50, tap).Start())
	defer func() {
		for end := time.Now().Add(2 * time.Second); atomic.LoadInt64(&tap.n) < int64(n) && time.Now().Before(end); {
			time.Sleep(100 * time.Microsecond)
		}
		time.Sleep(2 * time.Millisecond)
	}()
	events := []rangedb.Event{
		chat.UserWasOnBoarded{UserID: "1", Name: "n"}, chat.RoomWasOnBoarded{RoomID: "1", UserID: "1", RoomName: "r"},
		&chat.UserWasWarned{UserID: "1", Reason: "old"}, chat.UserWasWarned{UserID: "2", Reason: "old"}, &chat.UserWasWarned{UserID: "2", Reason: "older"},
		chat.MessageWasSentToRoom{RoomID: "1", UserID: "1", Message: c.texts[len(c.texts)-1]}, chat.UserWasBannedFromRoom{RoomID: "1", UserID: "3", Reason: "old", Timeout: 1},
		chat.RoomWasOnBoarded{RoomID: "2", UserID: "2", RoomName: "r2"},
	}
	for i := 0; i < n; i++ {
		e := events[c.rnd.Intn(len(events))]
		st := rangedb.GetEventStream(e)
		_, err := c.sut.store.Save(context.Background(), st, &rangedb.EventRecord{Event: e})
		must(err)
		c.log++
		d := e
		if w, ok := e.(*chat.UserWasWarned); ok {
			d = *w
		}
		c.note(line{"e": "ext", "ev": c.describe(d)}, "ext:ok")
	}
}

func chatEpisode(cfg *Cfg, mode string, n int, script []scriptOp, kind string) job {
	name := fmt.Sprintf("%s%d/%s", mode, n, kind)
	return job{name: name, run: func() *Ep {
		sut := newSUT(kind)
		defer sut.close()
		chat.BindEvents(sut.store)
		if sut.backing != sut.store {
			chat.BindEvents(sut.backing)
		}
		ep := newEp(name)
		ep.spec = "ChatTrace"
		rnd := rand.New(rand.NewSource(cfg.seed*5003 + int64(n)))
		c := &chatRun{ep: ep, sut: sut, rnd: rnd, gone: map[int]bool{}}
		c.texts = []string{"hello", "", "gollum likes dagna", "GADZOOK s", "gol ly", "be polite", // allowed
			"golly", "Well GOLLY!", "dagnabit", "oh,gadzooksy", "xDaGnAbItx", "Gadzooks golly"} // not allowed
		if n%2 == 1 {
			c.history(rnd.Intn(12))
		}
		var err error
		if mode == "shared" {
			c.app, err = chat.New(&chatStore{sut.store, c})
		} else {
			c.app, err = chat.Compose(&chatStore{sut.store, c})
		}
		must(err)
		c.note(line{"e": "ready"}, "ready:ok")
		atomic.StoreInt64(&c.seen[1], int64(c.log))
		atomic.StoreInt64(&c.seen[2], int64(c.log))
		for _, op := range script {
			if ep.isDead() {
				return ep
			}
			switch op.Op {
			case "delroom", "deluser":
				c.calm()
				st := fmt.Sprintf("room!%d", op.S)
				if op.Op == "deluser" {
					st = fmt.Sprintf("user!%d", op.T)
				}
				last, err := drainLast(sut.store, st)
				must(err)
				if last > 0 {
					must(sut.store.OptimisticDeleteStream(context.Background(), last, st))
				}
				c.note(line{"e": "del", "st": st}, "del:ok")
			case "rush":
				var wg sync.WaitGroup
				for i := 0; i <= op.Pos; i++ {
					kinds := []string{"BadMessage", "BadMessage", "JoinRoom", "OnBoardUser", "SendMessageToRoom", "OnBoardRoom"}
					cmd := c.command(kinds[rnd.Intn(len(kinds))], 1+(op.S+i/3)%2, 1+(op.T+i)%2, rnd.Intn(12))
					wg.Add(1)
					go func() {
						defer wg.Done()
						c.dispatch(cmd)
					}()
				}
				wg.Wait()
			default:
				c.dispatch(c.command(op.Op, op.S, op.T, op.N))
			}
			if rnd.Intn(3) > 0 {
				c.calm()
			}
		}
		if !ep.isDead() {
			c.calm()
		}
		return ep
	}}
}

func init() {
	planners["P22"] = func(cfg *Cfg) []job {
		var jobs []job
		for _, mode := range []string{"chat", "chatrush"} {
			for i, sc := range cfg.scripts[mode] {
				kind := "mem"
				if i%4 == 0 {
					kind = "ldb"
				}
				jobs = append(jobs, chatEpisode(cfg, mode, i, sc, kind))
			}
		}
		// the application as it comes, one command at a time
		op := func(k string, r, u int) scriptOp { return scriptOp{Op: k, S: r, T: u, N: 1} }
		for i, sc := range [][]scriptOp{
			{op("OnBoardRoom", 1, 1), op("JoinRoom", 1, 1), op("JoinRoom", 2, 1)},
			{op("OnBoardUser", 0, 1), op("WarnUser", 0, 1), op("OnBoardUser", 0, 2)},
			{op("OnBoardRoom", 1, 1), op("JoinRoom", 1, 2), op("SendMessageToRoom", 1, 2), op("BanUserFromRoom", 1, 2), op("JoinRoom", 1, 2)},
			{op("OnBoardUser", 0, 1), op("OnBoardRoom", 1, 1), op("BadMessage", 1, 1), op("BadMessage", 1, 1), op("BadMessage", 1, 1)},
		} {
			jobs = append(jobs, chatEpisode(cfg, "shared", 2*i+2, sc, "mem"))
		}
		return jobs
	}
}
