package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/crypto"
	"github.com/inklabs/rangedb/pkg/rangedberror"
)

var opTimeout = 12 * time.Second

// classify maps an error to the vocabulary of the specification.
func classify(err error, l line) string {
	if err == nil {
		return "ok"
	}
	var seqErr *rangedberror.UnexpectedSequenceNumber
	if errors.As(err, &seqErr) {
		l["ex"], l["ac"] = capNum(seqErr.Expected), capNum(seqErr.ActualSequenceNumber)
		return "seq"
	}
	switch {
	case errors.Is(err, rangedb.ErrStreamNotFound):
		return "nf"
	case errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded):
		return "can"
	case errors.Is(err, conflictError{}):
		return "conflict"
	case errors.Is(err, crypto.ErrKeyWasDeleted):
		return "del"
	}
	l["msg"] = short(err.Error())
	return "oth"
}

// guard runs f with panic recovery and a deadline; it reports "", "hang" or "panic".
func guard(f func()) (bad, msg string) {
	done := make(chan struct{})
	var p interface{}
	go func() {
		defer close(done)
		defer func() { p = recover() }()
		f()
	}()
	select {
	case <-done:
	case <-time.After(opTimeout):
		return "hang", ""
	}
	if p != nil {
		return "panic", fmt.Sprint(p)
	}
	return "", ""
}

type Client struct {
	ep    *Ep
	sut   *SUT
	store rangedb.Store
	conc  bool // log invocation and return separately
	side  int  // which names it uses

	// the service may go away: what fails then may have happened nevertheless
	shaky bool
	lost  bool // something did fail
}

// how says how an operation may be cut short.
func (c *Client) how(cx ctxMode) ctxMode {
	if c.shaky && cx == cxNo {
		return cxCut
	}
	return cx
}

var opIDs int64

// do logs one operation: f performs it and fills in the result fields of l.
func (c *Client) do(l line, f func(l line)) string {
	if c.ep.isDead() {
		return "dead"
	}
	res := line{}
	if c.conc {
		l["e"] = "inv"
		l["id"] = int(atomic.AddInt64(&opIDs, 1))
		c.ep.log(l)
	} else {
		l["e"] = "op"
	}
	bad, msg := guard(func() { f(res) })
	c.ep.mu.Lock()
	defer c.ep.mu.Unlock()
	c.ep.ops++
	if bad != "" {
		l["r"], l["msg"] = bad, short(msg)
		if bad == "hang" {
			c.ep.dead = true
		}
	} else {
		for k, v := range res {
			l[k] = v
		}
		c.lost = c.shaky && (l["r"] == "oth" || l["r"] == "can")
		if c.lost && (l["op"] == "save" || l["op"] == "del") {
			l["r"] = "?"
			c.ep.sig[fmt.Sprintf("%s:?", l["op"])]++
			return "?"
		}
		if c.ep.stream != nil {
			out := line{"e": "res", "id": l["id"]}
			for k, v := range res {
				out[k] = v
			}
			c.ep.emit(out)
		}
	}
	c.ep.sig[fmt.Sprintf("%s:%v", l["op"], l["r"])]++
	if c.conc { // what did not return properly has no place in any behaviour
		c.ep.lines = append(c.ep.lines, line{"e": "ret", "id": l["id"]})
	} else {
		c.ep.lines = append(c.ep.lines, l)
	}
	r, _ := l["r"].(string)
	return r
}

type ctxMode int

const (
	cxNo ctxMode = iota
	cxPre
	cxMid
	cxDead // deadline
	cxCut  // the connection may fail
)

var cxNames = []string{"no", "pre", "mid", "dl", "cut"}

func mkctx(m ctxMode) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	if m == cxPre {
		cancel()
	}
	if m == cxDead {
		c2, cancel2 := context.WithTimeout(ctx, 300*time.Microsecond)
		return c2, func() { cancel2(); cancel() }
	}
	return ctx, cancel
}

// save performs Save (exp<0) or OptimisticSave.
func (c *Client) save(stream string, exp int, evs []*Ev, cx ctxMode, midCancel *context.CancelFunc) string {
	return c.saveTo(c.store, stream, exp, evs, cx, midCancel)
}

func (c *Client) saveTo(st rangedb.Store, stream string, exp int, evs []*Ev, cx ctxMode, midCancel *context.CancelFunc) string {
	evl := make([]line, 0, len(evs))
	var ers []*rangedb.EventRecord
	for _, ev := range evs {
		evl = append(evl, line{"at": ev.At, "aid": ev.Aid, "et": ev.Et, "d": ev.D, "m": ev.M, "bad": ev.Bad, "nul": ev.Nul, "k": 0, "tag": ev.Tag, "sub": ev.Sub})
		ers = append(ers, ev.rec)
		if ev.Sub != "" {
			c.ep.mu.Lock()
			c.ep.secret[ev.Tag] = ev.Secret
			c.ep.mu.Unlock()
		}
	}
	cx = c.how(cx)
	l := line{"op": "save", "st": stream, "exp": exp, "evs": evl, "cx": cxNames[cx], "ts": int(c.sut.clk.Now().Unix()), "tsx": bigNum, "ex": 0, "ac": 0, "n": 0, "r": "?"}
	if !c.sut.clk.real {
		l["tsx"] = l["ts"]
	}
	ctx, cancel := mkctx(cx)
	defer cancel()
	if midCancel != nil {
		*midCancel = cancel
	}
	ep := c.ep
	ep.mu.Lock()
	ep.fixup = append(ep.fixup, func() {
		for i, ev := range evs {
			evl[i]["k"] = ep.byTag[ev.Tag]
			if l["r"] == "ok" { // the same event may have been saved several times
				if k, ok := ep.byPos[posKey(ev.Tag, stream, l["n"].(int)-len(evs)+i+1)]; ok {
					evl[i]["k"] = k
				}
			}
		}
	})
	ep.mu.Unlock()
	return c.do(l, func(res line) {
		var n uint64
		var err error
		if exp < 0 {
			n, err = st.Save(ctx, stream, ers...)
		} else {
			n, err = st.OptimisticSave(ctx, uint64(exp), stream, ers...)
		}
		res["n"] = capNum(n)
		res["r"] = classify(err, res)
		if c.sut.clk.real {
			res["tsx"] = int(c.sut.clk.Now().Unix())
		}
	})
}

func (c *Client) del(stream string, exp int, cx ctxMode) string {
	cx = c.how(cx)
	ctx, cancel := mkctx(cx)
	defer cancel()
	return c.do(line{"op": "del", "st": stream, "exp": exp, "cx": cxNames[cx], "ex": 0, "ac": 0, "r": "?"}, func(res line) {
		res["r"] = classify(c.store.OptimisticDeleteStream(ctx, uint64(exp), stream), res)
	})
}

func (c *Client) total(stream string, cx ctxMode) string {
	cx = c.how(cx)
	ctx, cancel := mkctx(cx)
	defer cancel()
	return c.do(line{"op": "tot", "st": stream, "cx": cxNames[cx], "n": 0, "r": "?"}, func(res line) {
		n, err := c.store.TotalEventsInStream(ctx, stream)
		res["n"] = capNum(n)
		res["r"] = classify(err, res)
	})
}

// readOpt: how the reader behaves.
type readOpt struct {
	cx       ctxMode
	cancelAt int    // cxMid: cancel after this many records
	nextCtx  bool   // use NextContext
	twice    bool   // look at each record twice
	between  func() // called before each step of the iterator
	abandon  bool   // stop reading after the cancellation
	ownCtx   bool   // cancel the context given to NextContext instead of the read's
	late     bool   // with ownCtx: its deadline has passed instead
}

// drain reads an iterator to its end.
func (c *Client) drain(it rangedb.RecordIterator, cancel context.CancelFunc, o readOpt, res line) {
	out := []int{}
	n := 0
	for {
		if o.cx == cxMid && n == o.cancelAt && !o.ownCtx {
			cancel()
		}
		if o.cx == cxMid && n == o.cancelAt && o.abandon {
			res["out"], res["r"] = out, "can"
			return
		}
		if o.between != nil {
			o.between()
		}
		var ok bool
		if o.ownCtx {
			ctx := context.Background()
			if n == o.cancelAt {
				c, stop := context.WithCancel(ctx)
				if o.late {
					c, stop = context.WithDeadline(ctx, time.Unix(1000, 0))
				}
				stop()
				ctx = c
			}
			ok = it.NextContext(ctx)
		} else if o.nextCtx {
			ok = it.NextContext(context.Background())
		} else {
			ok = it.Next()
		}
		if !ok {
			break
		}
		r := it.Record()
		if r == nil && it.Err() != nil {
			break
		}
		k := c.ep.intern(r)
		if o.twice {
			if k2 := c.ep.intern(it.Record()); k2 != k {
				out = append(out, k2)
			}
		}
		out = append(out, k)
		n++
		if n > 5000 {
			break
		}
	}
	res["out"] = out
	res["r"] = classify(it.Err(), res)
}

func (c *Client) read(op string, from int, stream string, types []string, o readOpt) string {
	o.cx = c.how(o.cx)
	ctx, cancel := mkctx(o.cx)
	defer cancel()
	if types == nil {
		types = []string{}
	}
	_, web := c.store.(*httpStore)
	if web { // listings are from the start, and of names made of letters
		from = 0
		ts := []string{}
		for _, t := range types {
			ts = append(ts, strings.ReplaceAll(t, " ", "-"))
		}
		types = ts
	}
	l := line{"op": op, "from": from, "list": web, "st": stream, "ts": types, "cx": cxNames[o.cx], "out": []int{}, "r": "?", "msg": ""}
	return c.do(l, func(res line) {
		var it rangedb.RecordIterator
		switch op {
		case "all":
			it = c.store.Events(ctx, uint64(from))
		case "types":
			it = c.store.EventsByAggregateTypes(ctx, uint64(from), types...)
		case "stream":
			it = c.store.EventsByStream(ctx, uint64(from), stream)
		}
		c.drain(it, cancel, o, res)
	})
}

// raw reads what the store below an encrypting one holds.
func (c *Client) raw() string {
	return c.do(line{"op": "raw", "leak": false, "twins": false, "out": []int{}, "cx": "no", "from": 0, "r": "?"}, func(res line) {
		out := []int{}
		leak, twins := false, false
		seen := map[string]bool{}
		it := c.sut.backing.Events(context.Background(), 0)
		for it.Next() {
			r := it.Record()
			k, _, text := c.ep.internProtected(r, true)
			out = append(out, k)
			b, _ := json.Marshal(r)
			leak = leak || leaks(b) || text != "" && text == c.ep.secretOf(r)
			if _, ok := r.Data.(*evS); ok {
				twins = twins || seen[text]
				seen[text] = true
			}
		}
		if c.sut.dir != "" {
			files, _ := filepath.Glob(c.sut.dir + "/*")
			for _, f := range files {
				b, _ := os.ReadFile(f)
				leak = leak || leaks(b)
			}
		}
		res["out"], res["leak"], res["twins"] = out, leak, twins
		res["r"] = classify(it.Err(), res)
	})
}

// forget deletes the key of a subject.
func (c *Client) forget(subject string, failing bool) string {
	cx := "no"
	if failing {
		cx = "cut"
	}
	return c.do(line{"op": "forget", "who": subject, "cx": cx, "r": "?"}, func(res line) {
		res["r"] = classify(c.sut.keys.Delete(subject), res)
	})
}

func (c *Client) reopen() string {
	return c.do(line{"op": "reopen", "r": "?"}, func(res line) {
		err := c.sut.reopen()
		if err == nil {
			c.store = c.sut.store
		}
		res["r"] = classify(err, res)
	})
}
